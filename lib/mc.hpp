// Bounded exhaustive exploration of the real code: a depth first enumeration of all choice sequences.
//
// A harness registers tasks. A task body is executed again and again, each time with a different sequence of
// answers to its calls of choose(), until every sequence has been tried (or, for choose_dev(), every sequence
// with at most max_dev non-default answers). Tasks are spread over worker processes, so that a crash, a failed
// assertion or a hang is an observation about one choice sequence and not the end of the exploration.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <sys/time.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <atomic>
#include <exception>
#include <functional>
#include <initializer_list>
#include <new>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <iterator>

namespace mc {

constexpr size_t MAX_CHOICES = 8192;
constexpr int MAX_FAIL = 64;

struct Slot {
    char task[192];
    char note[2048];
    volatile uint32_t nchoices;
    uint16_t choices[MAX_CHOICES];
    uint16_t ns[MAX_CHOICES];    // number of alternatives of each choice, and whether it costs a deviation
    uint8_t devs[MAX_CHOICES];
    volatile uint64_t beat;      // executions started by this worker
    volatile int active, working;
    char fsig[256], fmsg[6000];  // the failure of an execution in a child process
};
constexpr int MAX_ITEM = 1024, QUEUE = 64;
struct Item { int task; uint32_t len; uint16_t n[MAX_ITEM], c[MAX_ITEM], lim; uint8_t dev[MAX_ITEM]; };   // a subtree given to another worker
constexpr uint64_t STATE_BITS = 1ull << 28;
struct Failure {
    char task[192];
    char sig[256];
    char msg[6000];
    uint32_t nchoices;
    uint16_t choices[MAX_CHOICES];
    int known;
};
struct Shared {
    std::atomic<uint64_t> next_task, execs, states, transitions, cases, capped, tasks_done;
    std::atomic<int> nfail, unknown, stop;
    std::atomic<int> nsample, idle, nqueue;
    std::atomic_flag lock, qlock;
    Item queue[QUEUE];
    std::atomic<uint64_t> ref[4096];
    char samples[24][400];
    Failure fail[MAX_FAIL];
    Slot slots[32];
};

struct Violation { std::string sig, msg; };
struct Skip {};   // the execution is outside the space (a precondition does not hold)

struct Task { std::string name; std::function<void()> body; int max_dev; uint64_t max_execs; bool forked = false; };

struct Point { uint16_t n, c; bool dev; uint16_t lim = 65535; };   // alternatives from lim on belong to other workers

struct Ctx {
    Shared* sh = nullptr;
    Slot* slot = nullptr;
    std::vector<Task> tasks;
    std::vector<Point> trace;
    size_t pos = 0;
    int dev_used = 0, max_dev = -1;
    bool replaying = false;
    std::atomic<uint64_t>* bits = nullptr; uint64_t nstates = 0; int task_index = 0; size_t base = 0;
    uint64_t ntrans = 0, ncases = 0, nexec = 0;
    std::unordered_set<std::string> known;
    std::string tier = "quick", task_name;
    bool verbose = false;
    std::string pending_sig, pending_msg;
    double budget = 0, t0 = 0;
    std::string only;
    int depth = 0;               // overrides the depth of a harness when set
    void (*on_exec_start)() = nullptr;
};
inline Ctx& ctx() { static Ctx c; return c; }

inline bool thorough() { return ctx().tier == "thorough"; }
/** The depth of the exploration in this tier, unless the command line gives one. */
inline int depth(int quick, int deep) { return ctx().depth ? ctx().depth : thorough() ? deep : quick; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline std::string fmt(const char* f, ...) {
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

[[noreturn]] inline void die(const char* what) {
    if (ctx().slot) { strncpy(ctx().slot->note, what, sizeof(Slot::note) - 1); }
    fprintf(stderr, "mc: %s\n", what); fflush(stderr);
    _exit(97);
}

inline size_t choose_impl(size_t n, bool dev) {
    Ctx& c = ctx();
    if (n <= 1) return 0;
    if (n > 65535) die("HARNESS: too many alternatives");
    if (c.pos < c.trace.size()) {
        Point& p = c.trace[c.pos];
        if (p.n == 0) p.n = (uint16_t)n, p.dev = dev;               // replayed from a file
        if (p.n != n || p.dev != dev || p.c >= n) die("HARNESS: divergence while replaying a prefix");
        if (dev && p.c) c.dev_used++;
        c.slot->choices[c.pos] = p.c; c.slot->ns[c.pos] = p.n; c.slot->devs[c.pos] = p.dev; c.pos++; c.slot->nchoices = c.pos;
        return p.c;
    }
    if (c.trace.size() >= MAX_CHOICES) die("HARNESS: execution makes too many choices");
    // In a deviation bounded choice every alternative after the first costs one deviation. When the budget is used up the
    // point is recorded with a single alternative so that a replay stays aligned.
    c.trace.push_back({ (uint16_t)n, 0, dev });
    c.slot->choices[c.pos] = 0; c.slot->ns[c.pos] = (uint16_t)n; c.slot->devs[c.pos] = dev; c.pos++; c.slot->nchoices = c.pos;
    return 0;
}
/** One of n alternatives; all of them are explored. */
inline size_t choose(size_t n) { return choose_impl(n, false); }
/** One of n alternatives; 0 is the default, any other costs one deviation. */
inline size_t choose_dev(size_t n) { return choose_impl(n, true); }
template<typename T> T pick(std::initializer_list<T> l) { return l.begin()[choose(l.size())]; }
template<typename C> decltype(auto) pick_from(const C& c) { return c[choose(std::size(c))]; }
inline bool flip() { return choose(2) != 0; }
inline int range(int lo, int hi) { return lo + (int)choose(hi - lo + 1); }

inline void step(uint64_t n = 1) { ctx().ntrans += n; }
inline void case_(uint64_t n = 1) { ctx().ncases += n; }

inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 33); }
inline uint64_t hbytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    auto b = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; } return h;
}
/** Counts a state once per run of the harness, across all workers; hash collisions only make the count smaller. */
inline void state(uint64_t h) {
    Ctx& c = ctx(); h = hmix(h, c.task_index + 1); h %= STATE_BITS;
    uint64_t b = 1ull << (h & 63);
    if (c.bits && !(c.bits[h >> 6].load(std::memory_order_relaxed) & b) && !(c.bits[h >> 6].fetch_or(b) & b)) c.nstates++;
}
inline void note(const std::string& s) { strncpy(ctx().slot->note, s.c_str(), sizeof(Slot::note) - 1); }
[[noreturn]] inline void fail(std::string sig, std::string msg) { throw Violation{ std::move(sig), std::move(msg) }; }
/** Record a failure where throwing is impossible; it is raised at the end of the execution. */
inline void fail_later(std::string sig, std::string msg) {
    if (ctx().pending_sig.empty()) ctx().pending_sig = std::move(sig), ctx().pending_msg = std::move(msg);
}
inline void check(bool ok, const char* sig, const std::string& msg = {}) { if (!ok) fail(sig, msg); }
#define MC_CHECK(cond, sig, ...) do { if (!(cond)) ::mc::fail(sig, ::mc::fmt(__VA_ARGS__)); } while (0)

inline void sample(const std::string& s) {
    Shared* sh = ctx().sh; int i = sh->nsample.load();
    if (i >= 24) return;
    i = sh->nsample.fetch_add(1);
    if (i < 24) { strncpy(sh->samples[i], s.c_str(), 399); }
}

inline void add_task(std::string name, std::function<void()> body, int max_dev = 1 << 30, uint64_t max_execs = ~0ull) {
    ctx().tasks.push_back({ std::move(name), std::move(body), max_dev, max_execs });
}

inline bool next_trace() {
    Ctx& c = ctx();
    int used = 0;
    for (const Point& p : c.trace) used += p.dev && p.c;
    while (c.trace.size() > c.base) {
        Point& p = c.trace.back();
        if (p.dev && p.c) used--;
        if (p.c + 1 < p.n && p.c + 1 < p.lim && (!p.dev || used + 1 <= c.max_dev)) { p.c++; return true; }
        c.trace.pop_back();
    }
    return false;
}

struct QLock { Shared* s; explicit QLock(Shared* sh) : s(sh) { while (s->qlock.test_and_set(std::memory_order_acquire)) usleep(5); } ~QLock() { s->qlock.clear(std::memory_order_release); } };

/** Gives the largest unexplored part of the current subtree to an idle worker. */
inline void donate() {
    Ctx& c = ctx(); Shared* sh = c.sh;
    if (sh->idle.load(std::memory_order_relaxed) <= sh->nqueue.load(std::memory_order_relaxed)) return;
    int used = 0;
    for (size_t i = 0; i < c.trace.size() && i < MAX_ITEM; i++) {
        Point& p = c.trace[i];
        if (i + 1 >= c.base && i + 1 > c.base && p.c + 1 < p.n && p.c + 1 < p.lim && (!p.dev || used + 1 <= c.max_dev)) {
            QLock _(sh);
            if (sh->nqueue >= QUEUE) return;
            Item& it = sh->queue[sh->nqueue]; it.task = c.task_index; it.len = i + 1;
            for (size_t k = 0; k <= i; k++) { it.n[k] = c.trace[k].n; it.c[k] = c.trace[k].c; it.dev[k] = c.trace[k].dev; }
            it.c[i]++; it.lim = p.lim; p.lim = p.c + 1;
            sh->nqueue++;
            return;
        }
        used += p.dev && p.c;
    }
}

inline void record_failure(const std::string& task, const std::string& sig, const std::string& msg, const uint16_t* ch, uint32_t n) {
    Ctx& c = ctx(); Shared* sh = c.sh;
    bool known = c.known.count(sig) != 0;
    while (sh->lock.test_and_set()) usleep(10);
    bool dup = false;
    for (int i = 0; i < sh->nfail.load() && i < MAX_FAIL; i++) dup |= (sig == sh->fail[i].sig);
    if (!dup && sh->nfail.load() < MAX_FAIL) {
        Failure& f = sh->fail[sh->nfail.load()];
        snprintf(f.task, sizeof f.task, "%s", task.c_str());
        snprintf(f.sig, sizeof f.sig, "%s", sig.c_str());
        snprintf(f.msg, sizeof f.msg, "%s", msg.c_str());
        f.nchoices = n; if (n) memcpy(f.choices, ch, n * sizeof(uint16_t)); f.known = known;
        sh->nfail++;
    }
    if (!known) { sh->unknown++; sh->stop = 1; }
    sh->lock.clear();
}

/** Ends an execution in a child process. */
[[noreturn]] inline void exec_exit(const char* sig, const char* msg) {
    Ctx& c = ctx(); c.sh->transitions += c.ntrans; c.sh->cases += c.ncases; c.sh->states += c.nstates;
    if (sig) { snprintf(c.slot->fmsg, sizeof c.slot->fmsg, "%s", msg); snprintf(c.slot->fsig, sizeof c.slot->fsig, "%s", sig); }
    _exit(sig ? 1 : 0);
}

// Executes the body once with the current trace. Returns true if it failed.
inline bool run_once(Task& t) {
    Ctx& c = ctx();
    c.pos = 0; c.dev_used = 0; c.slot->nchoices = 0; c.slot->note[0] = 0; c.slot->beat = c.slot->beat + 1;
    c.pending_sig.clear(); c.pending_msg.clear();
    if (c.on_exec_start) c.on_exec_start();
    std::string sig, msg;
    auto guarded = [&] {
        try { t.body(); }
        catch (Violation& v) { sig = v.sig; msg = v.msg; }
        catch (Skip&) {}
        catch (std::exception& e) { sig = "unexpected exception"; msg = e.what(); }
    };
    if (!t.forked) guarded();
    else {
        // one process per execution: the state of the library is fresh, and nothing survives a failure
        c.slot->fsig[0] = c.slot->fmsg[0] = 0; fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            for (int s : { SIGABRT, SIGFPE, SIGBUS, SIGSEGV, SIGILL }) signal(s, SIG_DFL);
            signal(SIGALRM, SIG_DFL); itimerval tv{ {}, { 20, 0 } }; setitimer(ITIMER_REAL, &tv, nullptr);
            c.ntrans = c.ncases = c.nstates = 0; guarded();
            if (sig.empty() && !c.pending_sig.empty()) sig = c.pending_sig, msg = c.pending_msg;
            if (sig.empty() && c.pos < c.trace.size()) die("HARNESS: divergence, the execution made fewer choices than its prefix");
            exec_exit(sig.empty() ? nullptr : sig.c_str(), msg.c_str());
        }
        int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 97) _exit(97);
        if (WIFEXITED(st) && WEXITSTATUS(st) <= 1) { if (c.slot->fsig[0]) sig = c.slot->fsig, msg = c.slot->fmsg; }
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) sig = "hang", msg = "the execution does not finish";
        else if (strstr(c.slot->note, "assertion failed")) sig = std::string("crash: ") + std::string(strstr(c.slot->note, "assertion failed")).substr(0, 200);
        else sig = "crash: signal or exit", msg = fmt("status %d", st);
        size_t n = c.slot->nchoices; if (n < c.trace.size() && sig.empty()) die("HARNESS: divergence, the execution made fewer choices than its prefix");
        for (size_t i = 0; i < n; i++) { if (i < c.trace.size()) c.trace[i].n = c.slot->ns[i], c.trace[i].dev = c.slot->devs[i]; else c.trace.push_back({ c.slot->ns[i], c.slot->choices[i], c.slot->devs[i] != 0 }); }
        c.pos = std::max<size_t>(n, c.trace.size());
    }
    c.nexec++;
    if (sig.empty() && !c.pending_sig.empty()) sig = c.pending_sig, msg = c.pending_msg;
    if (sig.empty() && c.pos < c.trace.size()) die("HARNESS: divergence, the execution made fewer choices than its prefix");
    if (!sig.empty()) {
        if (c.slot->note[0]) msg += std::string(" | ") + c.slot->note;
        record_failure(t.name, sig, msg, c.slot->choices, c.slot->nchoices);
        return true;
    }
    return false;
}

inline void run_task(int index, const Item* item) {
    Ctx& c = ctx(); Task& t = c.tasks[index];
    c.trace.clear(); c.nstates = c.ntrans = c.ncases = c.nexec = 0; c.max_dev = t.max_dev; c.task_name = t.name; c.task_index = index; c.base = 0;
    if (item) { for (uint32_t i = 0; i < item->len; i++) c.trace.push_back({ item->n[i], item->c[i], item->dev[i] != 0 }); c.trace.back().lim = item->lim; c.base = item->len - 1; }
    strncpy(c.slot->task, t.name.c_str(), sizeof(Slot::task) - 1);
    do {
        run_once(t);
        if (c.sh->stop) break;
        if (c.nexec >= t.max_execs || (c.budget > 0 && (c.nexec & 15) == 0 && now() - c.t0 > c.budget)) { c.sh->capped++; break; }
        donate();
    } while (next_trace());
    if (c.verbose) { fprintf(stderr, "TASK %s: %llu\n", t.name.c_str(), (unsigned long long)c.nexec); fflush(stderr); }
    c.sh->execs += c.nexec; c.sh->states += c.nstates; c.sh->transitions += c.ntrans; c.sh->cases += c.ncases; if (!item) c.sh->tasks_done++;
}

inline void on_signal(int s) {
    const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : "signal";
    if (ctx().slot && strlen(ctx().slot->note) < 1500 && !strstr(ctx().slot->note, "assertion failed")) { strcat(ctx().slot->note, " | "); strcat(ctx().slot->note, n); }
    _exit(96);
}

inline std::string json(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

inline std::string stderr_tail(const std::string& path) {
    std::string s; if (FILE* f = fopen(path.c_str(), "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); }
    auto p = s.find("ERROR: AddressSanitizer"); if (p != std::string::npos) return s.substr(p, 2500);
    p = s.find("runtime error"); if (p != std::string::npos) return s.substr(p > 200 ? p - 200 : 0, 1500);
    return s.size() > 1500 ? s.substr(s.size() - 1500) : s;
}

/** Entry point of a harness. setup() registers the tasks. */
inline int main_(int argc, char** argv, void (*setup)()) {
    Ctx& c = ctx();
    std::string out, replay, errdir = "/tmp"; int jobs = 8; double exec_limit = 60; bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--tier") c.tier = nx(); else if (a == "--out") out = nx(); else if (a == "--jobs") jobs = std::stoi(nx());
        else if (a == "--replay") replay = nx(); else if (a == "--known") {
            if (FILE* f = fopen(nx().c_str(), "r")) { char b[1024]; while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (*b) c.known.insert(b); } fclose(f); }
        } else if (a == "--errdir") errdir = nx(); else if (a == "--only") c.only = nx(); else if (a == "--budget") c.budget = std::stod(nx());
        else if (a == "--exec-limit") exec_limit = std::stod(nx()); else if (a == "--list") list = true; else if (a == "-v") c.verbose = true; else if (a == "--depth") c.depth = std::stoi(nx());
    }
    c.t0 = now();
    c.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (c.sh) Shared();
    c.bits = (std::atomic<uint64_t>*)mmap(nullptr, STATE_BITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    c.slot = &c.sh->slots[31];
    setup();
    if (!c.only.empty()) { std::vector<Task> f; for (auto& t : c.tasks) if (t.name.find(c.only) != std::string::npos) f.push_back(t); c.tasks = f; }
    if (list) { for (auto& t : c.tasks) printf("%s\n", t.name.c_str()); return 0; }

    auto arm = [] {
        for (int s : { SIGABRT, SIGFPE, SIGBUS, SIGSEGV, SIGILL }) signal(s, on_signal);
        std::set_terminate([] { if (ctx().slot && strlen(ctx().slot->note) < 1500) strcat(ctx().slot->note, " | std::terminate"); fprintf(stderr, "std::terminate\n"); _exit(95); });
    };

    // A child process that replays one choice sequence (or a whole task if whole) and reports through its own failure list.
    auto replay_child = [&](const std::string& task, const uint16_t* ch, uint32_t n, bool whole, double limit) -> int {
        pid_t p = fork();
        if (p == 0) {
            c.slot = &c.sh->slots[30]; arm();
            int fd = open((errdir + "/stderr.replay").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (!c.verbose) { dup2(fd, 2); }
            for (auto& t : c.tasks) if (t.name == task) {
                int before = c.sh->nfail; (void)before;
                strncpy(c.slot->task, t.name.c_str(), sizeof(Slot::task) - 1);
                c.max_dev = t.max_dev; c.task_name = t.name; c.task_index = int(&t - c.tasks.data());
                if (whole) { c.sh->stop = 0; c.known.clear(); bool bad = false; c.trace.clear(); c.base = 0; do { bad = run_once(t); } while (!bad && next_trace()); _exit(bad ? 1 : 0); }
                c.replaying = true; c.trace.clear();
                for (uint32_t i = 0; i < n; i++) c.trace.push_back({ 0, ch[i], false });
                // kinds of points are learnt during the replay
                struct R { static size_t dummy() { return 0; } };
                _exit(run_once(t) ? 1 : 0);
            }
            _exit(98);
        }
        double t = now(); int st = 0;
        while (waitpid(p, &st, WNOHANG) == 0) { if (now() - t > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return -2; } usleep(2000); }
        if (WIFEXITED(st)) return WEXITSTATUS(st);
        return -1;
    };

    if (!replay.empty()) {
        FILE* f = fopen(replay.c_str(), "r"); if (!f) { fprintf(stderr, "cannot open %s\n", replay.c_str()); return 2; }
        char line[65536]; std::string task; std::vector<uint16_t> ch; bool whole = false;
        while (fgets(line, sizeof line, f)) {
            line[strcspn(line, "\n")] = 0;
            if (!strncmp(line, "task ", 5)) task = line + 5;
            if (!strncmp(line, "whole", 5)) whole = true;
            if (!strncmp(line, "choices", 7)) { char* p = line + 7; while (*p) { while (*p == ' ') p++; if (!*p) break; ch.push_back((uint16_t)strtol(p, &p, 10)); } }
        }
        fclose(f);
        int r = replay_child(task, ch.data(), ch.size(), whole, 600);
        printf("replay of task %s: %s\n", task.c_str(), r == 0 ? "no failure" : r == -2 ? "hang" : "failure");
        for (int i = 0; i < c.sh->nfail; i++) printf("  %s: %s\n", c.sh->fail[i].sig, c.sh->fail[i].msg);
        if (r != 0 && r != 1) printf("  crash: %s\n%s\n", c.sh->slots[30].note, stderr_tail(errdir + "/stderr.replay").c_str());
        return r == 0 ? 0 : 1;
    }

    struct W { pid_t pid; uint64_t beat; double t; };
    std::vector<W> ws(jobs, W{ 0, 0, 0 });
    auto spawn = [&](int w) {
        Slot& s = c.sh->slots[w]; s.active = 1; s.task[0] = 0;
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            c.slot = &s; arm();
            std::string ef = errdir + "/stderr." + std::to_string(w);
            int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644); if (!c.verbose) { dup2(fd, 2); }
            while (!c.sh->stop) {
                s.working = 1;
                uint64_t i = c.sh->next_task.fetch_add(1); static Item item; bool got = false;
                if (c.budget > 0 && now() - c.t0 > c.budget && i < c.tasks.size()) { c.sh->capped++; break; }
                if (i < c.tasks.size()) { run_task((int)i, nullptr); continue; }
                c.sh->idle++;
                for (;;) {
                    { QLock _(c.sh); s.working = 0;
                      if (c.sh->nqueue > 0) { item = c.sh->queue[--c.sh->nqueue]; got = true; s.working = 1; }
                      else { int busy = 0; for (int k = 0; k < 30; k++) busy += c.sh->slots[k].working; if (!busy) break; } }
                    if (got || c.sh->stop) break;
                    usleep(300); s.beat = s.beat + 1;
                }
                c.sh->idle--;
                if (!got) break;
                if (c.budget > 0 && now() - c.t0 > c.budget) { c.sh->capped++; continue; }
                run_task(item.task, &item);
            }
            s.working = 0;
            _exit(0);
        }
        ws[w] = { p, s.beat, now() };
    };
    for (int w = 0; w < jobs; w++) spawn(w);
    int error = 0; std::string error_msg;
    for (;;) {
        int alive = 0;
        for (int w = 0; w < jobs; w++) {
            if (!ws[w].pid) continue;
            Slot& s = c.sh->slots[w]; int st;
            pid_t r = waitpid(ws[w].pid, &st, WNOHANG);
            if (r == 0) {
                alive++;
                if (s.beat != ws[w].beat) { ws[w].beat = s.beat; ws[w].t = now(); }
                if (c.sh->stop) { // somebody failed: give the others a moment
                    if (now() - ws[w].t > 5) { kill(ws[w].pid, SIGKILL); }
                    continue;
                }
                if (now() - ws[w].t > exec_limit) {
                    kill(ws[w].pid, SIGKILL); waitpid(ws[w].pid, &st, 0); ws[w].pid = 0; s.working = 0;
                    std::string task = s.task; std::vector<uint16_t> ch(s.choices, s.choices + s.nchoices);
                    int rr = replay_child(task, ch.data(), ch.size(), false, 3 * exec_limit);
                    if (rr == -2) record_failure(task, "hang", std::string("the execution does not finish | ") + s.note, ch.data(), ch.size());
                    else { error = 3; error_msg = "an execution stalled but its replay did not: " + task; c.sh->stop = 1; }
                }
                continue;
            }
            ws[w].pid = 0; s.working = 0;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { if (!c.sh->stop) { spawn(w); alive++; } continue; }   // the failure has been recorded
            if (c.sh->stop && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) continue;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { error = 2; error_msg = std::string(s.note) + " in task " + s.task; c.sh->stop = 1; continue; }
            std::string task = s.task, note = s.note; std::vector<uint16_t> ch(s.choices, s.choices + s.nchoices);
            std::string tail = stderr_tail(errdir + "/stderr." + std::to_string(w));
            int rr = replay_child(task, ch.data(), ch.size(), false, 3 * exec_limit);
            if (rr == 0 || rr == 98) {
                rr = replay_child(task, nullptr, 0, true, 5 * exec_limit);
            }
            std::string sig = "crash: signal or sanitizer report"; size_t k;
            if (note.find("assertion failed") != std::string::npos) sig = "crash: " + note.substr(note.find("assertion failed"), 200);
            else if ((k = tail.find("AddressSanitizer: ")) != std::string::npos) sig = "crash: " + tail.substr(k + 18, tail.find_first_of(" \n", k + 18) - k - 18);
            else if ((k = tail.find("runtime error: ")) != std::string::npos) sig = "crash: " + tail.substr(k + 15, std::min<size_t>(150, tail.find('\n', k) - k - 15));
            else if ((k = tail.find("ssertion '")) != std::string::npos) sig = "crash: " + tail.substr(k, std::min<size_t>(150, tail.find('\n', k) - k));
            record_failure(task, sig, note + " | " + tail + (rr == 0 ? " | (not reproduced by a replay in a fresh process)" : ""), ch.data(), ch.size());
            if (!c.sh->stop) { spawn(w); alive++; }
        }
        if (!alive) break;
        usleep(3000);
    }
    double wall = now() - c.t0;
    // confirm unknown failures by replaying them in a fresh process
    std::string res = "{\"execs\":" + std::to_string(c.sh->execs.load()) + ",\"states\":" + std::to_string(c.sh->states.load()) + ",\"transitions\":" + std::to_string(c.sh->transitions.load()) +
        ",\"cases\":" + std::to_string(c.sh->cases.load()) + ",\"tasks\":" + std::to_string(c.tasks.size()) + ",\"tasks_done\":" + std::to_string(c.sh->tasks_done.load()) +
        ",\"capped\":" + std::to_string(c.sh->capped.load()) + ",\"wall\":" + std::to_string(wall) + ",\"error\":" + std::to_string(error) + ",\"error_msg\":" + json(error_msg) + ",\"failures\":[";
    for (int i = 0; i < c.sh->nfail; i++) {
        Failure& f = c.sh->fail[i];
        int confirmed = -9;
        if (!f.known) confirmed = replay_child(f.task, f.choices, f.nchoices, false, 3 * exec_limit);
        res += (i ? "," : "") + std::string("{\"task\":") + json(f.task) + ",\"sig\":" + json(f.sig) + ",\"msg\":" + json(f.msg) + ",\"known\":" + (f.known ? "true" : "false") + ",\"confirm\":" + std::to_string(confirmed) + ",\"choices\":[";
        for (uint32_t k = 0; k < f.nchoices; k++) res += (k ? "," : "") + std::to_string(f.choices[k]);
        res += "]}";
        if (i >= MAX_FAIL - 1) break;
    }
    res += "],\"samples\":[";
    for (int i = 0; i < c.sh->nsample && i < 24; i++) res += (i ? "," : "") + json(c.sh->samples[i]);
    res += "]}\n";
    if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); fputs(res.c_str(), f); fclose(f); } else fputs(res.c_str(), stdout);
    return 0;
}

} // namespace mc

#ifndef MC_NO_ASSERT
// A failed assertion of the library is an observation: keep its text.
extern "C" inline void mc_assert_text(const char* e, const char* f, unsigned l) {
    if (mc::ctx().slot) { std::string old = mc::ctx().slot->note; snprintf(mc::ctx().slot->note, sizeof(mc::Slot::note), "%s | assertion failed: %s", old.substr(0, 1200).c_str(), e); }
    (void)f; (void)l;
}
extern "C" __attribute__((weak)) void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept(true) {
    mc_assert_text(e, f, l);
    fprintf(stderr, "%s:%u: assertion failed: %s\n", f, l, e); fflush(stderr);
    _exit(96);
}
#endif
#define MC_MAIN(setup) int main(int argc, char** argv) { return mc::main_(argc, argv, setup); }
