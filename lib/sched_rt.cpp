// Runtime of the schedule explorer: a controlled scheduler, a vector clock race detector, and a memory model with stale reads.
// Built as a shared library without instrumentation; everything but the interposed functions and mcs:: is hidden.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#define MC_NO_ASSERT
#include "mc.hpp"
#include "sched.hpp"
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <algorithm>
#include <unordered_map>
#include <memory>
#include <new>

#define EXPORT __attribute__((visibility("default")))
#define TLSIE __attribute__((tls_model("initial-exec")))

namespace {

constexpr int MAXT = 12;
constexpr size_t STACK = 1 << 20;
constexpr uint64_t STEP_LIMIT = 60000;

using clk = uint32_t;
struct VC {
    clk c[MAXT] = {};
    void join(const VC& o) { for (int i = 0; i < MAXT; i++) c[i] = std::max(c[i], o.c[i]); }
};
/** What a release operation passes on: everything that happened before, and what is known of the order of seq_cst operations. */
struct Msg { VC hb, sc; uint32_t sc_snap = 0; void join(const Msg& o) { hb.join(o.hb); sc.join(o.sc); sc_snap = std::max(sc_snap, o.sc_snap); } };

enum St { RUN, MUTEX, COND, JOIN, FUTEX, GUARD, RWR, RWW, YIELD, QUIET, DONE };
struct Dtor { void (*f)(void*); void* a; };
struct Thr {
    int id = 0; St st = RUN; void* on = nullptr; bool signaled = false;
    int join_id = -1;
    pthread_t pt{}; void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
    Msg m;                      // m.hb is the thread's clock
    Msg acq_pending, rel_fence; bool has_rel_fence = false;
    std::vector<Dtor> dtors;
    uint64_t yield_seq = 0, ops = 0;
    uintptr_t spin_addr = 0; uint64_t spin_ver = 0; int spin_n = 0; uint64_t idle_seq = 0; int idle_n = 0;
    int locks = 0; bool cs_dirty = false;
    uint64_t hh = 0;            // everything this thread has seen so far: its own operations, and whose results they saw
    char* stack_lo = nullptr; char* stack_hi = nullptr;
    long alloc_left = -1;
    const char* last = "start"; uintptr_t last_pc = 0;
};

// The operating system's threads are kept and used again by the following executions.
struct OsThr { bool made = false; pthread_t pt{}; std::atomic<int> go{ 0 }; Thr* logical = nullptr; };
OsThr os_thr[MAXT]; pid_t os_pid = 0;

TLSIE thread_local Thr* self_ = nullptr;
TLSIE thread_local int in_rt = 0;
struct Rt { Rt() { in_rt++; } ~Rt() { in_rt--; } };
inline bool on() { return self_ != nullptr && in_rt == 0; }

// ---- shadow memory -------------------------------------------------------------------------------------------------
enum : uint8_t { WR = 1, AT = 2 };
struct Rec { clk c; uint8_t tid, mask, fl; uint32_t pc; };
constexpr int NREC = 7;
struct Gran { uint64_t key; uint32_t stamp; uint8_t n, freed, hasloc; uint32_t fpc; Rec r[NREC]; };
struct Shadow {
    Gran* t = nullptr; size_t cap = 0, used = 0; uint32_t stamp = 1;
    void init() { cap = 1 << 13; t = (Gran*)mmap(nullptr, cap * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    void reset() { stamp++; used = 0; }
    void grow() {
        size_t oc = cap; Gran* o = t; cap *= 4; t = (Gran*)mmap(nullptr, cap * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        for (size_t i = 0; i < oc; i++) if (o[i].stamp == stamp) { size_t h = hash(o[i].key); while (t[h].stamp == stamp) h = (h + 1) & (cap - 1); t[h] = o[i]; }
        munmap(o, oc * sizeof(Gran));
    }
    size_t hash(uint64_t k) const { k *= 0x9E3779B97F4A7C15ull; return (k >> 20) & (cap - 1); }
    Gran* find(uint64_t k) { size_t h = hash(k); while (t[h].stamp == stamp) { if (t[h].key == k) return &t[h]; h = (h + 1) & (cap - 1); } return nullptr; }
    Gran& get(uint64_t k) {
        if (used * 2 > cap) grow();
        size_t h = hash(k);
        while (t[h].stamp == stamp) { if (t[h].key == k) return t[h]; h = (h + 1) & (cap - 1); }
        used++; Gran& g = t[h]; g.key = k; g.stamp = stamp; g.n = g.freed = g.hasloc = 0; return g;
    }
} shadow;

// ---- atomic locations ----------------------------------------------------------------------------------------------
struct Store { unsigned __int128 val; int tid; clk t; Msg sync; bool has_sync; uint32_t scstep; uint64_t h = 0; };
struct Floor { clk t; uint64_t idx; };
struct Loc { int size = 0; uint64_t base = 0; std::vector<Store> s; std::vector<Floor> fl[MAXT]; uint64_t newest() const { return base + s.size() - 1; } };
struct Mutex { Thr* owner = nullptr; Msg m; uint64_t h = 0; };
struct RwLock { int readers = 0; Thr* writer = nullptr; Msg m; uint64_t h = 0; };

struct Engine {
    std::vector<Thr*> th; Thr* cur = nullptr;
    std::unordered_map<uintptr_t, Loc> locs; std::unordered_map<void*, Mutex> mx; std::unordered_map<void*, RwLock> rw; std::unordered_map<void*, Msg> guards; std::unordered_map<void*, Thr*> guard_owner; std::unordered_map<void*, uint64_t> objs;   // objs: the last operation on other objects
    uint64_t change_seq = 1; int change_by = -1; int stall = 0; uint64_t steps = 0, clock = 0, mon = 0, sc = 0; bool pruned = false;
    VC sc_vc; uint32_t sc_counter = 0;
    bool active = false; mcs::Opt opt;
    std::string logtext;
} E;

bool static_init = true;
char* arena = nullptr; char* arena_p = nullptr; constexpr size_t ARENA = 2ull << 30;
char* stacks = nullptr;

std::string where(uint32_t pc) { return mc::fmt("0x%x", pc); }
std::string symbolize(std::string msg);

[[noreturn]] void sfail(const std::string& sig, std::string msg) {
    in_rt++;
    msg += " | threads:";
    for (Thr* t : E.th) msg += mc::fmt(" T%d(%s%s, last %s at 0x%lx)", t->id, t->st == RUN ? "running" : t->st == DONE ? "done" : t->st == YIELD ? "spinning" : t->st == MUTEX ? "waits for mutex" : t->st == COND ? "waits for condition" : t->st == JOIN ? "joins" : "waits", t == E.cur ? "*" : "", t->last, (unsigned long)t->last_pc);
    if (!E.logtext.empty()) msg += " | log:" + E.logtext.substr(E.logtext.size() > 1500 ? E.logtext.size() - 1500 : 0);
    msg = symbolize(msg);
    std::string sg = sig; if (sg.size() > 200) sg.resize(200);
    mc::Ctx& c = mc::ctx();
    for (auto& t : c.tasks) if (t.name == c.task_name && t.forked) mc::exec_exit(sg.c_str(), msg.c_str());
    mc::record_failure(c.task_name, sg, msg, c.slot->choices, c.slot->nchoices);
    _exit(99);
}

std::string symbolize(std::string msg) {
    // resolve the program counters in the message with addr2line
    std::vector<std::string> pcs; size_t p = 0;
    while ((p = msg.find("0x", p)) != std::string::npos) { size_t e = p + 2; while (e < msg.size() && isxdigit(msg[e])) e++; pcs.push_back(msg.substr(p, e - p)); p = e; }
    if (pcs.empty() || pcs.size() > 40) return msg;
    char exe[512]; ssize_t n = readlink("/proc/self/exe", exe, 511); if (n <= 0) return msg; exe[n] = 0;
    std::string cmd = std::string("addr2line -e ") + exe; for (auto& x : pcs) cmd += " " + x; cmd += " 2>/dev/null";
    FILE* f = popen(cmd.c_str(), "r"); if (!f) return msg;
    char line[1024]; size_t i = 0;
    while (i < pcs.size() && fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n (")] = 0; std::string l = line; size_t s = l.rfind('/'); if (s != std::string::npos) l = l.substr(s + 1);
        size_t q = msg.find(pcs[i]); if (q != std::string::npos && l != "??:0" && l != "??:?") msg.replace(q, pcs[i].size(), l);
        i++;
    }
    pclose(f);
    return msg;
}

// ---- scheduling ----------------------------------------------------------------------------------------------------
long real_syscall6(long n, long a, long b, long c, long d, long e, long f) {
    long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); return r;
}
void park(std::atomic<int>* a) { while (a->load(std::memory_order_acquire) == 0) real_syscall6(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); a->store(0, std::memory_order_relaxed); }
void wake(std::atomic<int>* a) { a->store(1, std::memory_order_release); real_syscall6(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

// ---- states ----------------------------------------------------------------------------------------------------------
// Two executions whose operations so far are related in the same way (same program order, same reads, same order of writes
// and of critical sections) are in the same state, whatever their interleaving was. Only the first one is continued in
// every way; the others are finished without any further alternatives.
void ev(Thr* me, uint64_t kind, uint64_t seen = 0) { me->hh = mc::hmix(mc::hmix(me->hh, kind), seen); }
void ev_obj(Thr* me, uint64_t kind, uint64_t& obj) { ev(me, kind, obj); obj = me->hh; }

constexpr size_t VISITED = 1ull << 26;
std::atomic<uint64_t>* visited = nullptr; std::atomic<uint64_t>* nvisited = nullptr;
void visited_init() {
    visited = (std::atomic<uint64_t>*)mmap(nullptr, VISITED * 8 + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    nvisited = visited + VISITED;
}
bool seen_before(uint64_t k, bool insert) {
    if (!k) k = 1;
    for (size_t i = k & (VISITED - 1), n = 0; n < 64; i = (i + 1) & (VISITED - 1), n++) {
        uint64_t v = visited[i].load(std::memory_order_relaxed);
        if (v == k) return true;
        if (v) continue;
        if (!insert || nvisited->load(std::memory_order_relaxed) > VISITED / 2) return false;
        if (visited[i].compare_exchange_strong(v, k)) { nvisited->fetch_add(1, std::memory_order_relaxed); mc::ctx().nstates++; return false; }
        if (v == k) return true;
    }
    return false;
}
bool ready(Thr* t);
uint64_t state_key() {
    uint64_t k = mc::hmix(mc::ctx().task_index + 1, E.stall);
    for (Thr* t : E.th) {
        uint64_t x = t->hh; int rank = 0; if (t->st == YIELD) for (Thr* o : E.th) rank += o->st == YIELD && o->yield_seq < t->yield_seq;
        x = mc::hmix(x, (uint64_t)t->st * 64 + rank * 4 + t->signaled * 2 + (t->st == YIELD && ready(t)));
        x = mc::hmix(x, (uint64_t)t->spin_n * 1000 + (t->idle_seq == E.change_seq ? t->idle_n : 0));
        k = mc::hmix(k, x);
    }
    return k;
}
enum { D_POINT = 1, D_BLOCK, D_YIELD, D_STALE, D_CASFAIL, D_SPUR, D_EARLY, D_NOTIFY, D_TIMEOUT, D_WAKE, D_USER };
const bool use_cache = !getenv("MCS_NO_CACHE");   // for comparing both
size_t decide(Thr* me, int kind, size_t n, bool dev) {
    if (n <= 1 || E.pruned) return 0;
    mc::Ctx& c = mc::ctx();
    if (c.pos >= c.trace.size() && !c.replaying && E.opt.cache && use_cache) {
        int left = std::max(c.max_dev - c.dev_used, 0); uint64_t k = mc::hmix(mc::hmix(state_key(), (uint64_t)(me ? me->id : 15) * 32 + kind), n);
        bool old = seen_before(mc::hmix(k, left), true);
        for (int d = left + 1; !old && d <= c.max_dev; d++) old = seen_before(mc::hmix(k, d), false);
        if (old) { E.pruned = true; return 0; }
    }
    return dev ? mc::choose_dev(n) : mc::choose(n);
}

void change() { E.change_seq++; E.change_by = E.cur ? E.cur->id : -1; E.stall = 0; }

bool ready(Thr* t) {
    switch (t->st) {
    case RUN: return true;
    case MUTEX: return E.mx[t->on].owner == nullptr;
    case COND: case FUTEX: return t->signaled;
    case JOIN: return E.th[t->join_id]->st == DONE;
    case GUARD: return E.guard_owner[t->on] == nullptr;
    case RWR: return E.rw[t->on].writer == nullptr;
    case RWW: return E.rw[t->on].writer == nullptr && E.rw[t->on].readers == 0;
    case YIELD: return E.change_seq > t->yield_seq;
    case QUIET: for (Thr* x : E.th) if (x != t && x->st != QUIET && ready(x)) return false; return true;
    case DONE: return false;
    }
    return false;
}
void others(Thr* me, Thr** out, int& n) { n = 0; for (Thr* t : E.th) if (t != me && ready(t)) out[n++] = t; }
void switch_to(Thr* t) { Thr* me = self_; if (t == me) return; E.cur = t; wake(&os_thr[t->id].go); park(&os_thr[me->id].go); }

/** Where the running thread cannot continue: picks who runs next. Returns nullptr when nobody can. */
Thr* pick_blocked(Thr* me) {
    Thr* o[MAXT]; int n; others(me, o, n);
    if (n) return o[decide(me, D_BLOCK, n, false)];
    // only spinning threads are left; each of them gets another chance until it is clear that nothing changes any more
    std::vector<Thr*> y; for (Thr* t : E.th) if (t->st == YIELD) y.push_back(t);
    if (y.empty()) return nullptr;
    if (++E.stall > 4 * (int)y.size() + 4) sfail("no progress: the threads wait forever", "every live thread is blocked or repeats the same reads without any change");
    Thr* best = y[0]; for (Thr* t : y) if (t->yield_seq < best->yield_seq || (t->yield_seq == best->yield_seq && t->ops < best->ops)) best = t;
    return best;
}
void run_next(Thr* me) {
    Thr* t = pick_blocked(me);
    if (!t) { if (ready(me)) return; sfail("deadlock", "no thread can continue"); }
    if (t->st == YIELD) t->st = RUN;
    switch_to(t);
}
void block(Thr* me, St st, void* o) {
    me->st = st; me->on = o;
    while (!ready(me)) run_next(me);
    me->st = RUN;
}
void do_yield(Thr* me) {
    Thr* o[MAXT]; int n; others(me, o, n);
    me->yield_seq = E.change_seq; me->ops++; ev(me, 3);
    if (n == 0) {
        bool live = false; for (Thr* t : E.th) live |= t != me && t->st != DONE;
        (void)live;
        me->st = YIELD; Thr* t = pick_blocked(nullptr); if (t != me) { t->st = RUN; switch_to(t); } me->st = RUN; return;
    }
    me->st = YIELD; Thr* t = o[decide(me, D_YIELD, n, false)]; if (t->st == YIELD) t->st = RUN; switch_to(t); me->st = RUN;
}

/** A scheduling point: the running thread may be preempted here. */
void point(const char* what, uintptr_t pc) {
    Thr* me = self_; me->last = what; me->last_pc = pc; me->ops++; mc::step();
    if (++E.steps > STEP_LIMIT) sfail("no progress: the execution does not finish", mc::fmt("%llu synchronisation operations", (unsigned long long)E.steps));
    mc::Ctx& c = mc::ctx();
    if (c.dev_used >= c.max_dev) return;
    Thr* o[MAXT]; int n; others(me, o, n);
    if (!n) return;
    size_t k = decide(me, D_POINT, 1 + n, true);
    if (k) { Thr* t = o[k - 1]; if (t->st == YIELD) t->st = RUN; switch_to(t); }
}
void spin_check(Thr* me, uintptr_t addr, uint64_t ver) {
    if (me->spin_addr == addr && me->spin_ver == ver) me->spin_n++; else me->spin_addr = addr, me->spin_ver = ver, me->spin_n = 0;
    if (me->idle_seq == E.change_seq) me->idle_n++; else me->idle_seq = E.change_seq, me->idle_n = 0;
    if (me->spin_n >= 2 || me->idle_n >= 40) { me->spin_n = 0; me->idle_n = 0; do_yield(me); }
}
void no_spin(Thr* me) { me->spin_addr = 0; me->spin_n = 0; me->idle_n = 0; }
void tick(Thr* me) { me->m.hb.c[me->id]++; }

// ---- race detection ------------------------------------------------------------------------------------------------
bool drop_loc(uintptr_t a, size_t n) { // returns true if no location is left in the granule of a
    bool none = true;
    for (uintptr_t x = a & ~7ull; x < std::max<uintptr_t>(a + n, (a & ~7ull) + 8); x++) { auto it = E.locs.find(x); if (it == E.locs.end()) continue; if (x < a + n && x + it->second.size > a) E.locs.erase(it); else none = false; }
    return none;
}

const char* kind(uint8_t fl) { return (fl & AT) ? (fl & WR ? "atomic write" : "atomic read") : (fl & WR ? "write" : "read"); }

void access1(Thr* me, uintptr_t a, unsigned off, unsigned n, uint8_t fl, uint32_t pc) {
    Gran& g = shadow.get(a >> 3);
    uint8_t mask = uint8_t(((1u << n) - 1) << off);
    if (g.freed) sfail("use of freed memory", mc::fmt("%s of freed memory by T%d at 0x%x, freed at 0x%x", kind(fl), me->id, pc, g.fpc));
    if (g.hasloc && (fl & WR) && !(fl & AT)) { if (drop_loc(a, n)) g.hasloc = 0; }
    clk mine = me->m.hb.c[me->id];
    if (g.n) { Rec& l = g.r[g.n - 1]; if (l.tid == me->id && l.c == mine && (l.mask & mask) == mask && (l.fl == fl || l.fl == WR)) return; }
    int k = 0;
    for (int i = 0; i < g.n; i++) {
        Rec r = g.r[i];
        if (r.tid != me->id && (r.mask & mask) && ((r.fl | fl) & WR) && !((r.fl & AT) && (fl & AT)) && r.c > me->m.hb.c[r.tid])
            sfail("data race", mc::fmt("%s by T%d at 0x%x and %s by T%d at 0x%x are not ordered", kind(fl), me->id, pc, kind(r.fl), r.tid, r.pc));
        bool covered = (r.mask & ~mask) == 0 && !((fl & AT) && !(r.fl & AT)) && ((fl & WR) || !(r.fl & WR)) && (r.tid == me->id);
        if (!covered) g.r[k++] = r;
    }
    if (k == NREC) { for (int i = 1; i < NREC; i++) g.r[i - 1] = g.r[i]; k--; }
    g.r[k++] = { mine, (uint8_t)me->id, mask, fl, pc }; g.n = k;
}
void access(uintptr_t a, size_t n, uint8_t fl, uintptr_t pc) {
    Thr* me = self_;
    if ((fl & WR) && me->locks && !((char*)a >= me->stack_lo && (char*)a < me->stack_hi)) me->cs_dirty = true;
    while (n) { unsigned off = a & 7, k = (unsigned)std::min<size_t>(n, 8 - off); access1(me, a, off, k, fl, (uint32_t)pc); a += k; n -= k; }
}

// ---- memory --------------------------------------------------------------------------------------------------------
struct Hdr { size_t size; uint32_t magic, pad; };
void* mem_alloc(size_t n, size_t al) {
    if (!on() && !(static_init && in_rt == 0 && arena)) { void* p = nullptr; if (al <= 16) return malloc(n ? n : 1); if (posix_memalign(&p, al, n ? n : 1)) return nullptr; return p; }
    Rt _;
    if (self_ && self_->alloc_left >= 0 && self_->alloc_left-- == 0) { self_->alloc_left = 0; return nullptr; }
    if (al < 16) al = 16;
    char* p = arena_p + sizeof(Hdr); p = (char*)(((uintptr_t)p + al - 1) & ~(al - 1));
    if (p + n > arena + ARENA) { fprintf(stderr, "arena exhausted\n"); return nullptr; }
    arena_p = (char*)(((uintptr_t)p + n + 15) & ~15ull);
    Hdr* h = (Hdr*)(p - sizeof(Hdr)); h->size = n; h->magic = 0xA11CA7ED;
    memset(p, 0xAB, std::min<size_t>(n, 1 << 16));
    return p;
}
void mem_free(void* p, uintptr_t pc) {
    if (!p) return;
    if ((char*)p < arena || (char*)p >= arena + ARENA) { free(p); return; }
    if (!self_) return;
    Rt _;
    Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
    if (h->magic == 0xDEADF4EE) sfail("double free", mc::fmt("freed again by T%d at 0x%lx", self_->id, (unsigned long)pc));
    h->magic = 0xDEADF4EE;
    size_t n = std::min<size_t>((h->size + 7) & ~7ull, 1 << 15);
    for (size_t i = 0; i < n; i += 8) {
        Thr* me = self_; uintptr_t a = (uintptr_t)p + i; Gran& g = shadow.get(a >> 3);
        for (int k = 0; k < g.n; k++) if (g.r[k].tid != me->id && g.r[k].c > me->m.hb.c[g.r[k].tid])
            sfail("data race", mc::fmt("memory freed by T%d at 0x%lx while a %s by T%d at 0x%x is not ordered before it", me->id, (unsigned long)pc, kind(g.r[k].fl), g.r[k].tid, g.r[k].pc));
        if (g.hasloc) drop_loc(a, 8);
        g.n = 0; g.hasloc = 0; g.freed = 1; g.fpc = (uint32_t)pc;
    }
}

// ---- atomics -------------------------------------------------------------------------------------------------------
bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

template<typename T> Loc& loc(volatile T* a) {
    uintptr_t k = (uintptr_t)a; Loc& L = E.locs[k]; T v = *a;
    if (L.s.empty() || L.size != (int)sizeof(T) || (T)L.s.back().val != v) {
        L.size = sizeof(T); L.s.clear(); for (auto& f : L.fl) f.clear(); L.base += 16;
        L.s.push_back({ (unsigned __int128)v, -1, 0, {}, false, 0, mc::hmix(5, (uint64_t)v) });
        shadow.get(k >> 3).hasloc = 1;
    }
    return L;
}
void add_floor(Loc& L, Thr* me, uint64_t idx) {
    if (!E.opt.weak) return;
    auto& f = L.fl[me->id]; clk t = me->m.hb.c[me->id];
    if (!f.empty() && f.back().idx >= idx) return;
    if (!f.empty() && f.back().t == t) f.back().idx = idx; else f.push_back({ t, idx });
    if (f.size() > 16) f.erase(f.begin());
}
uint64_t floor_of(Loc& L, Thr* me, bool sc) {
    VC known = me->m.hb; known.join(me->m.sc); if (sc) known.join(E.sc_vc);
    uint64_t fl = L.base;
    for (size_t i = L.s.size(); i-- > 0;) { const Store& s = L.s[i]; bool k = s.tid < 0 || s.t <= known.c[s.tid] || s.tid == me->id || (s.scstep && (sc || s.scstep <= me->m.sc_snap)); if (k) { fl = L.base + i; break; } }
    for (int u = 0; u < (int)E.th.size(); u++) for (size_t i = L.fl[u].size(); i-- > 0;) if (u == me->id || L.fl[u][i].t <= known.c[u]) { fl = std::max(fl, L.fl[u][i].idx); break; }
    return fl;
}
void push(Loc& L, Store s) {
    L.s.push_back(std::move(s)); size_t cap = E.opt.weak ? 12 : 1;
    while (L.s.size() > cap) { L.s.erase(L.s.begin()); L.base++; }
}
void ev_sc(Thr* me, int mo) { if (E.opt.weak && mo == 5) ev_obj(me, 6, E.sc); }

template<typename T> T a_load(volatile T* a, int mo, uintptr_t pc, bool sp = true) {
    Thr* me = self_; point("load", pc);
    access((uintptr_t)a, sizeof(T), AT, pc);
    Loc& L = loc(a); uint64_t idx = L.newest();
    if (E.opt.weak) { uint64_t f = floor_of(L, me, mo == 5); size_t n = (size_t)(idx - f + 1); if (n > 1 && mc::ctx().dev_used < mc::ctx().max_dev) idx -= decide(me, D_STALE, n, true); }
    Store& s = L.s[idx - L.base]; T v = (T)s.val;
    if (s.has_sync) { if (acq(mo)) me->m.join(s.sync); else me->acq_pending.join(s.sync); }
    bool fresh = idx == L.newest();
    add_floor(L, me, idx);
    ev_sc(me, mo); ev(me, 7, s.h);
    if (sp && fresh) { uint64_t ver = idx; spin_check(me, (uintptr_t)a, ver); }
    return v;
}
template<typename T> void put(volatile T* a, T v, int mo, Loc& L, bool rmw) {
    Thr* me = self_;
    Store s{ (unsigned __int128)v, me->id, me->m.hb.c[me->id], {}, false, 0 };
    if (rel(mo)) s.sync = me->m, s.has_sync = true; else if (me->has_rel_fence) s.sync = me->rel_fence, s.has_sync = true;
    if (rmw && L.s.back().has_sync) { s.sync.join(L.s.back().sync); s.has_sync = true; }
    if (mo == 5) s.scstep = ++E.sc_counter;
    ev_sc(me, mo); ev(me, 8 + rmw, L.s.back().h); s.h = me->hh;
    bool diff = *a != v; *a = v; push(L, std::move(s)); add_floor(L, me, L.newest());
    if (rel(mo) || E.opt.weak) tick(me);
    if (diff) change();
}
template<typename T> void a_store(volatile T* a, T v, int mo, uintptr_t pc) {
    Thr* me = self_; point("store", pc); no_spin(me);
    access((uintptr_t)a, sizeof(T), AT | WR, pc);
    Loc& L = loc(a); put(a, v, mo, L, false);
}
template<typename T, typename F> T a_rmw(volatile T* a, F f, int mo, uintptr_t pc) {
    Thr* me = self_; point("rmw", pc);
    access((uintptr_t)a, sizeof(T), AT | WR, pc);
    Loc& L = loc(a); T old = *a, nv = f(old);
    Store& s = L.s.back(); if (s.has_sync) { if (acq(mo)) me->m.join(s.sync); else me->acq_pending.join(s.sync); }
    bool same = nv == old; put(a, nv, mo, L, true);
    if (same) spin_check(me, (uintptr_t)a, 0); else no_spin(me);
    return old;
}
template<typename T> int a_cas(volatile T* a, T* c, T v, int mo, int fmo, bool weak, uintptr_t pc) {
    Thr* me = self_; point("cas", pc);
    access((uintptr_t)a, sizeof(T), AT | WR, pc);
    Loc& L = loc(a); uint64_t idx = L.newest();
    if (E.opt.weak) { uint64_t f = floor_of(L, me, fmo == 5); size_t n = (size_t)(idx - f + 1); if (n > 1 && mc::ctx().dev_used < mc::ctx().max_dev) { uint64_t i = idx - decide(me, D_STALE, n, true); if ((T)L.s[i - L.base].val != *c) idx = i; } }
    Store& s = L.s[idx - L.base]; T cur = (T)s.val; bool ok = cur == *c && idx == L.newest();
    if (ok && weak && E.opt.spurious && mc::ctx().dev_used < mc::ctx().max_dev && decide(me, D_CASFAIL, 2, true)) ok = false;
    int m = ok ? mo : fmo;
    if (s.has_sync) { if (acq(m)) me->m.join(s.sync); else me->acq_pending.join(s.sync); }
    if (ok) { put(a, v, mo, L, true); no_spin(me); return 1; }
    ev_sc(me, fmo); ev(me, 10, s.h); add_floor(L, me, idx);
    *c = cur; spin_check(me, (uintptr_t)a, L.newest()); return 0;
}
void a_fence(int mo, uintptr_t pc) {
    Thr* me = self_; point("fence", pc);
    ev_sc(me, mo); ev(me, 11); if (acq(mo)) me->m.join(me->acq_pending);
    if (mo == 5) { me->m.sc.join(E.sc_vc); me->m.sc_snap = E.sc_counter; VC v = me->m.hb; E.sc_vc.join(v); }
    if (rel(mo)) { me->rel_fence = me->m; me->has_rel_fence = true; tick(me); }
}

// ---- threads -------------------------------------------------------------------------------------------------------
template<typename F> F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int (*real_join)(pthread_t, void**);

Thr* new_thread() {
    if (E.th.size() >= MAXT) { fprintf(stderr, "too many threads\n"); mc::die("HARNESS: too many threads"); }
    Thr* t = new Thr; t->id = (int)E.th.size(); E.th.push_back(t); return t;
}
void run_dtors(Thr* me) { // called outside of the runtime
    for (;;) { Dtor d; { Rt _; if (me->dtors.empty()) return; d = me->dtors.back(); me->dtors.pop_back(); } d.f(d.a); }
}
// The thread local variables of the program are put back to their initial values for every new thread.
struct Tls { char* block = nullptr; size_t memsz = 0, filesz = 0; const char* image = nullptr; };
Tls find_tls() {
    Tls t;
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void* d) {
        Tls& t = *(Tls*)d;
        for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { t.block = (char*)i->dlpi_tls_data; t.memsz = i->dlpi_phdr[k].p_memsz; t.filesz = i->dlpi_phdr[k].p_filesz; t.image = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); }
        return 1;   // only the first entry, the program itself
    }, &t);
    return t;
}
void* trampoline(void* p) {
    OsThr* o = (OsThr*)p; in_rt = 1;
    Tls tls = find_tls();
    for (;;) {
        park(&o->go);
        Thr* me = o->logical; self_ = me;
        if (tls.block) { memcpy(tls.block, tls.image, tls.filesz); memset(tls.block + tls.filesz, 0, tls.memsz - tls.filesz); }
        for (size_t i = 0; i < tls.memsz; i += 8) if (Gran* g = shadow.find(((uintptr_t)tls.block + i) >> 3)) { if (g->hasloc) drop_loc((uintptr_t)tls.block + i, 8); g->n = g->freed = g->hasloc = 0; }
        in_rt = 0;
        void* r = me->fn(me->arg);
        run_dtors(me);
        in_rt = 1;
        point("exit", 0);
        // its thread local variables do not exist any more
        for (size_t i = 0; i < tls.memsz; i += 8) { Gran& g = shadow.get(((uintptr_t)tls.block + i) >> 3); g.n = 0; g.freed = 1; g.fpc = 0; }
        me->ret = r; me->st = DONE; me->ops++; ev(me, 12); tick(me); change();
        Thr* t = pick_blocked(me);
        if (!t) sfail("deadlock", "no thread can continue");
        if (t->st == YIELD) t->st = RUN;
        self_ = nullptr; E.cur = t; wake(&os_thr[t->id].go);
    }
    return nullptr;
}

// The global variables of the program and what they own, as they were before the first execution.
struct Region { char* p; size_t n; std::vector<char> copy; };
std::vector<Region> regions; size_t arena_pre = 0;
void snapshot() {
    regions.clear(); arena_pre = arena_p - arena;
    std::vector<std::pair<uintptr_t, uintptr_t>> w; std::pair<uintptr_t, uintptr_t> ro{ 0, 0 };
    struct D { decltype(w)* w; decltype(ro)* ro; } d{ &w, &ro };
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void* v) {
        D& d = *(D*)v;
        for (int k = 0; k < i->dlpi_phnum; k++) { auto& h = i->dlpi_phdr[k]; uintptr_t b = i->dlpi_addr + h.p_vaddr;
            if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) d.w->push_back({ b, b + h.p_memsz });
            if (h.p_type == PT_GNU_RELRO) *d.ro = { b, (b + h.p_memsz + 4095) & ~4095ull }; }
        return 1;
    }, &d);
    auto add = [&](uintptr_t b, uintptr_t e) { if (e > b) { Region r{ (char*)b, e - b, {} }; r.copy.assign(r.p, r.p + r.n); regions.push_back(std::move(r)); } };
    for (auto [b, e] : w) { if (ro.second > b && ro.first < e) { add(b, ro.first); add(ro.second, e); } else add(b, e); }
    add((uintptr_t)arena, (uintptr_t)arena + arena_pre);
    Tls t = find_tls(); if (t.block) add((uintptr_t)t.block, (uintptr_t)t.block + t.memsz);
}
void restore() { for (auto& r : regions) memcpy(r.p, r.copy.data(), r.n); }

void pin() { // all threads of one worker share a processor: handing over is much cheaper then
    static pid_t done = 0; if (done) return; done = 1; snapshot();
    cpu_set_t all, one; CPU_ZERO(&one); if (sched_getaffinity(0, sizeof all, &all)) return;
    int n = CPU_COUNT(&all), k = int(mc::ctx().slot - mc::ctx().sh->slots) % std::max(n, 1);
    for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all) && k-- == 0) { CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); return; }
}

void begin(const mcs::Opt& o) {
    shadow.reset(); restore(); arena_p = arena + arena_pre;
    if (os_pid != getpid()) { os_pid = getpid(); for (auto& t : os_thr) t.made = false; }
    for (Thr* t : E.th) delete t;
    E.th.clear(); E.locs.clear(); E.mx.clear(); E.rw.clear(); E.guards.clear(); E.guard_owner.clear();
    E.change_seq = 1; E.change_by = -1; E.stall = 0; E.steps = E.clock = E.mon = E.sc = 0; E.pruned = false; E.objs.clear(); E.sc_vc = VC{}; E.sc_counter = 0; E.opt = o; E.logtext.clear();
    Thr* t = new_thread(); t->m.hb.c[0] = 1; t->pt = pthread_self(); E.cur = t; E.active = true;
    pthread_attr_t at; if (pthread_getattr_np(pthread_self(), &at) == 0) { void* b; size_t s; pthread_attr_getstack(&at, &b, &s); t->stack_lo = (char*)b; t->stack_hi = (char*)b + s; pthread_attr_destroy(&at); }
    self_ = t;
}
void finish() {
    Thr* me = self_; (void)me;
    bool alive = false; for (Thr* t : E.th) alive |= t->id && t->st != DONE;
    uint64_t cls = 0; for (Thr* t : E.th) cls = mc::hmix(cls, t->hh);
    { mc::Ctx& c = mc::ctx(); uint64_t n = c.nstates; mc::state(cls); if (c.nstates != n) c.ncases++; c.nstates = n; }   // complete executions that differ
    static uint64_t shown = 0; if (shown < 2 && E.steps > 3) { shown++; mc::sample(mc::ctx().task_name + mc::fmt(": %d threads, %llu synchronisation operations, %u choices, deviations %d, trace class %016llx", (int)E.th.size(), (unsigned long long)E.steps, mc::ctx().slot->nchoices, mc::ctx().dev_used, (unsigned long long)cls)); }
    self_ = nullptr; E.active = false;
    for (auto& t : mc::ctx().tasks) if (t.name == mc::ctx().task_name && t.forked) return;
    if (alive) mc::die("HARNESS: threads are still running at the end of an execution");
}

} // namespace

// ---- interface of the harness --------------------------------------------------------------------------------------
namespace mcs {
EXPORT void add_task(const std::string& name, std::function<void()> body, Opt o) {
    mc::add_task(name, [body = std::move(body), o] {
        in_rt = 1; pin(); begin(o); in_rt = 0;
        bool ex = false; std::string what;
        try { body(); } catch (std::exception& e) { ex = true; what = e.what(); } catch (...) { ex = true; what = "?"; }
        in_rt = 1; if (ex) sfail("unexpected exception", what);
        finish(); in_rt = 0;
    }, o.dev);
    mc::ctx().tasks.back().forked = o.forked;
}
EXPORT bool thorough() { return mc::thorough(); }
EXPORT int depth(int a, int b) { return mc::depth(a, b); }
EXPORT size_t choose(size_t n) { Rt _; size_t k = decide(self_, D_USER, n, false); ev(self_, 13, k); return k; }
EXPORT void fail(const std::string& s, const std::string& m) { sfail(s, m); }
EXPORT void log(const char* w, long a, long b) { Rt _; if (self_) E.logtext += mc::fmt(" T%d:%s(%ld,%ld)", self_->id, w, a, b); }
EXPORT int self() { return self_ ? self_->id : -1; }
EXPORT uint64_t tick() { if (self_) ev_obj(self_, 14, E.mon); return ++E.clock; }
EXPORT void yield() { if (on()) { Rt _; do_yield(self_); } }
EXPORT void point() { if (on()) { Rt _; ::point("point", 0); } }
EXPORT void quiesce() { Rt _; Thr* me = self_; me->last = "quiesce"; block(me, QUIET, nullptr); uint64_t x = 0; for (Thr* t : E.th) x = mc::hmix(x, t->hh); ev(me, 15, x); }
EXPORT void note(const std::string& s) { Rt _; mc::note(s); }
EXPORT void state(uint64_t h) { Rt _; mc::state(h); }
EXPORT void sample(const std::string& s) { Rt _; mc::sample(s); }
EXPORT uint64_t same(int slot, uint64_t v) {
    Rt _; auto& r = mc::ctx().sh->ref[(mc::ctx().task_index * 8 + slot) % 4096]; uint64_t e = 0; v |= 1ull << 63;
    if (r.compare_exchange_strong(e, v)) return v; return e;
}
EXPORT bool quiet() { for (Thr* t : E.th) if (t != self_ && t->st != DONE) return false; return true; }
EXPORT void budget(int d) { mc::ctx().max_dev = d; }
EXPORT Off::Off(int key) { if (on() && key != -2) { uint64_t& o = key < 0 ? E.mon : E.objs[(void*)(uintptr_t)(key + 1)]; ev_obj(self_, 16, o); } in_rt++; }
EXPORT Off::~Off() { in_rt--; }
EXPORT void fail_alloc_after(long n) { if (self_) self_->alloc_left = n; }
EXPORT int main_(int argc, char** argv, void (*setup)()) {
    static_init = false; visited_init(); return mc::main_(argc, argv, setup);
}
}

__attribute__((constructor)) static void rt_init() {
    if (arena) return;
    arena = (char*)mmap((void*)0x600000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); arena_p = arena;
    stacks = (char*)mmap((void*)0x640000000000ull, STACK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    real_create = next<decltype(real_create)>("pthread_create"); real_join = next<decltype(real_join)>("pthread_join");
    shadow.init();
}

// ---- interposed functions ------------------------------------------------------------------------------------------
#define PC ((uintptr_t)__builtin_return_address(0) - 1)
extern "C" {

EXPORT int get_nprocs() noexcept { return E.active ? E.opt.cpus : 1; }
EXPORT int get_nprocs_conf() noexcept { return get_nprocs(); }

EXPORT int pthread_create(pthread_t* pt, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!real_create) real_create = next<decltype(real_create)>("pthread_create");
    if (!on()) return real_create(pt, at, fn, arg);
    Rt _; point("create", PC);
    Thr* me = self_; Thr* t = new_thread(); t->fn = fn; t->arg = arg; t->m = me->m; t->m.hb.c[t->id] = 1; tick(me); change(); ev(me, 17); t->hh = me->hh;
    OsThr& o = os_thr[t->id]; o.logical = t; t->stack_lo = stacks + t->id * STACK; t->stack_hi = t->stack_lo + STACK;
    if (!o.made) {
        o.made = true; o.go = 0; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, t->stack_lo, STACK);
        int r = real_create(&o.pt, &a, trampoline, &o); pthread_attr_destroy(&a);
        if (r) mc::die("HARNESS: pthread_create failed");
    }
    t->pt = o.pt;
    *pt = t->pt; no_spin(me);
    return 0;
}
EXPORT int pthread_join(pthread_t p, void** ret) {
    if (!on()) { if (!real_join) real_join = next<decltype(real_join)>("pthread_join"); return real_join(p, ret); }
    Rt _; point("join", PC);
    Thr* me = self_; Thr* t = nullptr; for (Thr* x : E.th) if (x->id && x->pt == p) t = x;
    if (!t) sfail("join of an unknown thread", "");
    if (t->st != DONE) { me->join_id = t->id; block(me, JOIN, nullptr); }
    me->m.join(t->m); if (ret) *ret = t->ret; no_spin(me); ev(me, 18, t->hh);
    return 0;
}
EXPORT int pthread_detach(pthread_t p) { if (!on()) return next<int (*)(pthread_t)>("pthread_detach")(p); return 0; }
EXPORT int sched_yield() noexcept { if (!on()) return (int)real_syscall6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); Rt _; point("yield", PC); no_spin(self_); do_yield(self_); return 0; }
EXPORT int nanosleep(const timespec* t, timespec* r) { if (!on()) return (int)real_syscall6(SYS_nanosleep, (long)t, (long)r, 0, 0, 0, 0); Rt _; point("sleep", PC); do_yield(self_); return 0; }
EXPORT int clock_nanosleep(clockid_t c, int f, const timespec* t, timespec* r) { if (!on()) return (int)real_syscall6(SYS_clock_nanosleep, c, f, (long)t, (long)r, 0, 0); Rt _; point("sleep", PC); do_yield(self_); return 0; }
EXPORT int usleep(useconds_t u) { timespec t{ (time_t)(u / 1000000), (long)(u % 1000000) * 1000 }; return nanosleep(&t, nullptr); }

static int m_lock(void* m, const char* w, uintptr_t pc) {
    Thr* me = self_; point(w, pc); access((uintptr_t)m, 1, AT, pc);
    if (E.mx[m].owner == me) sfail("deadlock", "a thread locks a mutex that it already holds");
    if (E.mx[m].owner) block(me, MUTEX, m);
    Mutex& x = E.mx[m]; x.owner = me; me->m.join(x.m); me->locks++; ev_obj(me, 19, x.h); no_spin(me); return 0;
}
static void m_unlock(void* m, uintptr_t pc) {
    Thr* me = self_; access((uintptr_t)m, 1, AT, pc);
    Mutex& x = E.mx[m]; if (x.owner != me) sfail("a mutex is unlocked by a thread that does not hold it", "");
    ev(me, 20); x.m.join(me->m); x.owner = nullptr; tick(me); if (--me->locks == 0 && me->cs_dirty) { me->cs_dirty = false; change(); }
}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept { if (!on()) return next<int (*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init")(m, a); memset((void*)m, 0, sizeof *m); return 0; }
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (!on()) return 0; Rt _; if (E.mx[m].owner) sfail("a locked mutex is destroyed", ""); E.mx.erase(m); return 0; }
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (!on()) { static auto r = next<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return r(m); } Rt _; return m_lock(m, "lock", PC); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    if (!on()) { static auto r = next<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return r(m); }
    Rt _; Thr* me = self_; point("trylock", PC); if (E.mx[m].owner) { ev(me, 21, E.mx[m].h); spin_check(me, (uintptr_t)m, 1); return EBUSY; }
    Mutex& x = E.mx[m]; x.owner = me; me->m.join(x.m); me->locks++; ev_obj(me, 19, x.h); no_spin(me); return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (!on()) { static auto r = next<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return r(m); } Rt _; m_unlock(m, PC); return 0; }

static int c_wait(void* c, void* m, bool timed, uintptr_t pc) {
    Thr* me = self_; point("wait", pc); access((uintptr_t)c, 1, AT, pc);
    me->signaled = false; ev_obj(me, 22, E.objs[c]); m_unlock(m, pc); change();
    bool early = (E.opt.spurious || timed) && mc::ctx().dev_used < mc::ctx().max_dev && decide(me, D_SPUR, 2, true); ev(me, 23, early);
    bool timeout = false;
    if (early) { timeout = timed; Thr* o[MAXT]; int n; others(me, o, n); if (n) { size_t k = decide(me, D_EARLY, n + 1, false); if (k) { Thr* t = o[k - 1]; if (t->st == YIELD) t->st = RUN; switch_to(t); } } }
    else block(me, COND, c);
    me->on = nullptr; ev(me, 24, me->signaled); if (E.mx[m].owner) block(me, MUTEX, m);
    Mutex& x = E.mx[m]; x.owner = me; me->m.join(x.m); me->locks++; ev_obj(me, 19, x.h); no_spin(me);
    return timeout && !me->signaled ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset((void*)c, 0, sizeof *c); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t* c) noexcept {
    if (!on()) return 0; Rt _; for (Thr* t : E.th) if (t->st == COND && t->on == c && !t->signaled) sfail("a condition variable is destroyed while a thread waits on it", mc::fmt("T%d waits", t->id)); return 0; }
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!on()) return next<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait")(c, m); Rt _; return c_wait(c, m, false, PC); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (!on()) return next<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait")(c, m, t); Rt _; return c_wait(c, m, true, PC); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { if (!on()) return next<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait")(c, m, k, t); Rt _; return c_wait(c, m, true, PC); }
static void c_notify(void* c, bool all, uintptr_t pc) {
    Thr* me = self_; point("notify", pc); access((uintptr_t)c, 1, AT, pc); (void)me;
    Thr* w[MAXT]; int n = 0; for (Thr* t : E.th) if (t->st == COND && t->on == c && !t->signaled) w[n++] = t;
    ev_obj(me, 25, E.objs[c]); if (!n) return; change();
    auto sig = [&](Thr* t) { t->signaled = true; ev(t, 26, me->hh); };
    if (all) { for (int i = 0; i < n; i++) sig(w[i]); } else sig(w[decide(me, D_NOTIFY, n, false)]);
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) noexcept { if (!on()) { static auto r = next<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return r(c); } Rt _; c_notify(c, false, PC); return 0; }
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (!on()) { static auto r = next<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return r(c); } Rt _; c_notify(c, true, PC); return 0; }

static int rw_lock(void* l, bool w, bool tr, uintptr_t pc) {
    Thr* me = self_; point(w ? "wrlock" : "rdlock", pc); access((uintptr_t)l, 1, AT, pc); RwLock& x = E.rw[l]; bool free_ = !x.writer && (!w || !x.readers);
    if (!free_) { if (tr) { ev(me, 27, x.h); spin_check(me, (uintptr_t)l, 1); return EBUSY; } if (x.writer == me) return EDEADLK; block(me, w ? RWW : RWR, l); }
    RwLock& y = E.rw[l]; if (w) y.writer = me; else y.readers++; ev_obj(me, 28, y.h); me->m.join(y.m); me->locks++; no_spin(me); return 0;
}
EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { memset((void*)l, 0, sizeof *l); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { if (!on()) return next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock")(l); Rt _; return rw_lock(l, false, false, PC); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { if (!on()) return next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock")(l); Rt _; return rw_lock(l, false, true, PC); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { if (!on()) return next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock")(l); Rt _; return rw_lock(l, true, false, PC); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { if (!on()) return next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock")(l); Rt _; return rw_lock(l, true, true, PC); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
    if (!on()) return next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock")(l);
    Rt _; Thr* me = self_; RwLock& x = E.rw[l]; ev_obj(me, 29, x.h); x.m.join(me->m); tick(me); if (x.writer == me) x.writer = nullptr; else x.readers--; me->locks--; change(); return 0;
}
EXPORT int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!on()) return next<int (*)(pthread_once_t*, void (*)())>("pthread_once")(o, f);
    Thr* me = self_;
    { Rt _; point("once", PC); while (E.guard_owner[o]) block(me, GUARD, o); if (*(int*)o == 2) { ev(me, 30, E.objs[o]); me->m.join(E.guards[o]); return 0; } ev_obj(me, 31, E.objs[o]); E.guard_owner[o] = me; }
    f();
    Rt _; *(int*)o = 2; ev_obj(me, 32, E.objs[o]); E.guards[o] = me->m; tick(me); E.guard_owner[o] = nullptr; change(); return 0;
}

EXPORT long syscall(long n, ...) {
    va_list v; va_start(v, n); long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long); va_end(v);
    if (on() && n == SYS_futex) {
        Rt _; Thr* me = self_; int op = (int)b & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            point("futex wait", PC); ev_obj(me, 33, E.objs[(void*)a]); ev(me, 34, *(volatile unsigned*)a); if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
            if (d && mc::ctx().dev_used < mc::ctx().max_dev && decide(me, D_TIMEOUT, 2, true)) { ev(me, 35); errno = ETIMEDOUT; return -1; }
            me->signaled = false; block(me, FUTEX, (void*)a); return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            point("futex wake", PC); ev_obj(me, 36, E.objs[(void*)a]); Thr* w[MAXT]; int k = 0; for (Thr* t : E.th) if (t->st == FUTEX && t->on == (void*)a && !t->signaled) w[k++] = t;
            long done = 0; while (k && done < (long)(int)c) { int i = (int)decide(me, D_WAKE, k, false); w[i]->signaled = true; ev(w[i], 37, me->hh); w[i] = w[--k]; done++; }
            if (done) change(); return done;
        }
    }
    long r = real_syscall6(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r;
}

EXPORT int __cxa_guard_acquire(long long int* gg) { char* g = (char*)gg;
    if (!on()) return *g ? 0 : 1;
    Rt _; Thr* me = self_; point("guard", PC);
    while (!*g && E.guard_owner[g]) { if (E.guard_owner[g] == me) sfail("deadlock", "recursive initialisation of a static variable"); block(me, GUARD, g); }
    ev_obj(me, 38, E.objs[g]); if (*g) { me->m.join(E.guards[g]); return 0; }
    E.guard_owner[g] = me; return 1;
}
EXPORT void __cxa_guard_release(long long int* gg) noexcept { char* g = (char*)gg;
    if (!on()) { *g = 1; return; }
    Rt _; Thr* me = self_; { Loc& L = loc((volatile char*)g); put((volatile char*)g, (char)1, 3, L, false); } ev_obj(me, 39, E.objs[g]); E.guards[g] = me->m; tick(me); E.guard_owner[g] = nullptr; change();
}
EXPORT void __cxa_guard_abort(long long int* gg) noexcept { char* g = (char*)gg; if (!on()) return; Rt _; ev_obj(self_, 40, E.objs[g]); E.guard_owner[g] = nullptr; change(); }

EXPORT int __cxa_thread_atexit(void (*f)(void*), void* a, void* d) noexcept {
    if (self_) { Rt _; self_->dtors.push_back({ f, a }); return 0; }
    static auto r = next<int (*)(void (*)(void*), void*, void*)>("__cxa_thread_atexit_impl"); return r(f, a, d);
}

// exceptions live in memory that the C++ runtime recycles
EXPORT void* __cxa_allocate_exception(size_t n) noexcept {
    static auto r = next<void* (*)(size_t)>("__cxa_allocate_exception"); void* p = r(n);
    if (on()) { Rt _; for (uintptr_t a = (uintptr_t)p & ~7ull; a < (uintptr_t)p + n; a += 8) { Gran& g = shadow.get(a >> 3); if (g.hasloc) drop_loc(a, 8); g.n = g.hasloc = g.freed = 0; } }
    return p;
}
EXPORT void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept(true) {
    in_rt++; if (self_) sfail(std::string("crash: assertion failed: ") + e, mc::fmt("%s:%u", f, l));
    fprintf(stderr, "%s:%u: assertion failed: %s\n", f, l, e); _exit(96);
}

// instrumentation emitted by the compiler
EXPORT void __tsan_init() { rt_init(); }
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_acquire(void*) {}
EXPORT void __tsan_release(void*) {}
#define RW(n) \
    EXPORT void __tsan_read##n(void* a) { if (on()) { Rt _; access((uintptr_t)a, n, 0, PC); } } \
    EXPORT void __tsan_write##n(void* a) { if (on()) { Rt _; access((uintptr_t)a, n, WR, PC); } } \
    EXPORT void __tsan_unaligned_read##n(void* a) { if (on()) { Rt _; access((uintptr_t)a, n, 0, PC); } } \
    EXPORT void __tsan_unaligned_write##n(void* a) { if (on()) { Rt _; access((uintptr_t)a, n, WR, PC); } } \
    EXPORT void __tsan_volatile_read##n(void* a) { if (on()) { Rt _; access((uintptr_t)a, n, 0, PC); } } \
    EXPORT void __tsan_volatile_write##n(void* a) { if (on()) { Rt _; access((uintptr_t)a, n, WR, PC); } } \
    EXPORT void __tsan_unaligned_volatile_read##n(void* a) { if (on()) { Rt _; access((uintptr_t)a, n, 0, PC); } } \
    EXPORT void __tsan_unaligned_volatile_write##n(void* a) { if (on()) { Rt _; access((uintptr_t)a, n, WR, PC); } }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* a, size_t n) { if (on()) { Rt _; access((uintptr_t)a, n, 0, PC); } }
EXPORT void __tsan_write_range(void* a, size_t n) { if (on()) { Rt _; access((uintptr_t)a, n, WR, PC); } }
EXPORT void __tsan_vptr_read(void** a) { if (on()) { Rt _; access((uintptr_t)a, 8, 0, PC); } }
EXPORT void __tsan_vptr_update(void** a, void* v) { if (on() && *a != v) { Rt _; access((uintptr_t)a, 8, WR, PC); } }

EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) { if (on() && n) { Rt _; access((uintptr_t)s, n, 0, PC); access((uintptr_t)d, n, WR, PC); } return memcpy(d, s, n); }
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) { if (on() && n) { Rt _; access((uintptr_t)s, n, 0, PC); access((uintptr_t)d, n, WR, PC); } return memmove(d, s, n); }
EXPORT void* __wrap_memset(void* d, int c, size_t n) { if (on() && n) { Rt _; access((uintptr_t)d, n, WR, PC); } return memset(d, c, n); }
EXPORT int __wrap_memcmp(const void* a, const void* b, size_t n) { if (on() && n) { Rt _; access((uintptr_t)a, n, 0, PC); access((uintptr_t)b, n, 0, PC); } return memcmp(a, b, n); }

#define ATOMIC(bits, T) \
    EXPORT T __tsan_atomic##bits##_load(const volatile T* a, int mo) { if (!on()) return __atomic_load_n(a, 5); Rt _; return a_load((volatile T*)a, mo, PC); } \
    EXPORT void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { if (!on()) { __atomic_store_n(a, v, 5); return; } Rt _; a_store(a, v, mo, PC); } \
    EXPORT T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { if (!on()) return __atomic_exchange_n(a, v, 5); Rt _; return a_rmw(a, [v](T) { return v; }, mo, PC); } \
    EXPORT T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { if (!on()) return __atomic_fetch_add(a, v, 5); Rt _; return a_rmw(a, [v](T o) { return (T)(o + v); }, mo, PC); } \
    EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { if (!on()) return __atomic_fetch_sub(a, v, 5); Rt _; return a_rmw(a, [v](T o) { return (T)(o - v); }, mo, PC); } \
    EXPORT T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { if (!on()) return __atomic_fetch_and(a, v, 5); Rt _; return a_rmw(a, [v](T o) { return (T)(o & v); }, mo, PC); } \
    EXPORT T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { if (!on()) return __atomic_fetch_or(a, v, 5); Rt _; return a_rmw(a, [v](T o) { return (T)(o | v); }, mo, PC); } \
    EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { if (!on()) return __atomic_fetch_xor(a, v, 5); Rt _; return a_rmw(a, [v](T o) { return (T)(o ^ v); }, mo, PC); } \
    EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { if (!on()) return __atomic_fetch_nand(a, v, 5); Rt _; return a_rmw(a, [v](T o) { return (T)~(o & v); }, mo, PC); } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { if (!on()) return __atomic_compare_exchange_n(a, c, v, false, 5, 5); Rt _; return a_cas(a, c, v, mo, fmo, false, PC); } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { if (!on()) return __atomic_compare_exchange_n(a, c, v, true, 5, 5); Rt _; return a_cas(a, c, v, mo, fmo, true, PC); } \
    EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { if (!on()) { __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; } Rt _; a_cas(a, &c, v, mo, fmo, false, PC); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int mo) { if (on()) { Rt _; a_fence(mo, PC); } else __atomic_thread_fence(5); }
EXPORT void __tsan_atomic_signal_fence(int) {}
}

EXPORT void* operator new(size_t n) { void* p = mem_alloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
EXPORT void* operator new[](size_t n) { void* p = mem_alloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
EXPORT void* operator new(size_t n, const std::nothrow_t&) noexcept { return mem_alloc(n, 16); }
EXPORT void* operator new[](size_t n, const std::nothrow_t&) noexcept { return mem_alloc(n, 16); }
EXPORT void* operator new(size_t n, std::align_val_t a) { void* p = mem_alloc(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
EXPORT void* operator new[](size_t n, std::align_val_t a) { void* p = mem_alloc(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
EXPORT void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return mem_alloc(n, (size_t)a); }
EXPORT void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return mem_alloc(n, (size_t)a); }
EXPORT void operator delete(void* p) noexcept { mem_free(p, PC); }
EXPORT void operator delete[](void* p) noexcept { mem_free(p, PC); }
EXPORT void operator delete(void* p, size_t) noexcept { mem_free(p, PC); }
EXPORT void operator delete[](void* p, size_t) noexcept { mem_free(p, PC); }
EXPORT void operator delete(void* p, std::align_val_t) noexcept { mem_free(p, PC); }
EXPORT void operator delete[](void* p, std::align_val_t) noexcept { mem_free(p, PC); }
EXPORT void operator delete(void* p, size_t, std::align_val_t) noexcept { mem_free(p, PC); }
EXPORT void operator delete[](void* p, size_t, std::align_val_t) noexcept { mem_free(p, PC); }
