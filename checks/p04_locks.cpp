// P04: mutual exclusion, visibility and progress of the spin locks and the latch, also with stale reads.
#include "sched.hpp"
#include "utility/spinlock.hpp"
#include "utility/shared_spinlock.hpp"
#include "utility/latch.hpp"
#include <thread>
#include <vector>
#include <string>
using namespace gapp::detail;

enum Op { X, TX, S, TS, NOPS };   // exclusive, try exclusive, shared, try shared section
static const char* NAME[] = { "lock", "try_lock", "lock_shared", "try_lock_shared" };
static std::string name(const std::vector<std::vector<Op>>& p) { std::string s; for (auto& t : p) { if (!s.empty()) s += " || "; for (auto o : t) s += std::string(NAME[o]) + ' '; } return s; }

// What the harness knows about the sections, without being visible to the explorer.
struct Mon { int w, r; uint64_t changed; int active; };
static Mon mon;
template<typename L> struct Shared_ { L lock; int a = 0, b = 0; };

template<typename L> static void section(Shared_<L>& s, Op op, bool weak) {
    uint64_t begin; int act; bool free_x, free_s;
    { mcs::Off _; begin = mcs::tick(); act = mon.active++; free_x = !mon.w && !mon.r; free_s = !mon.w; mon.changed = begin; }
    bool got = true;
    if (op == X) s.lock.lock();
    else if (op == TX) got = s.lock.try_lock();
    else if constexpr (requires { s.lock.lock_shared(); }) { if (op == S) s.lock.lock_shared(); else got = s.lock.try_lock_shared(); }
    if (!got) {
        mcs::Off _; bool alone = act == 0 && mon.changed == begin;   // nobody else did anything meanwhile
        if (alone && !weak && (op == TX ? free_x : free_s)) mcs::fail("a try lock fails although the lock is free", NAME[op]);
        mon.active--; mon.changed = mcs::tick(); return;
    }
    { mcs::Off _; bool ex = op == X || op == TX;
      if (mon.w || (ex && mon.r)) mcs::fail("two threads are inside sections that exclude each other", std::string("a thread enters by ") + NAME[op] + " while " + std::to_string(mon.w) + " writers and " + std::to_string(mon.r) + " readers are inside");
      if (ex) mon.w++; else mon.r++; mon.active--; mon.changed = mcs::tick(); }
    if (op == X || op == TX) {
        int v = s.a; MCS_CHECK(s.b == v, "a section sees a half finished one", "%d %d", v, s.b);
        s.a = v + 1; mcs::point(); s.b = v + 1;
        { mcs::Off _; mon.w--; mon.active++; mon.changed = mcs::tick(); }
        s.lock.unlock();
    } else {
        int v = s.a; mcs::point(); MCS_CHECK(s.b == v && s.a == v, "a shared section sees a half finished exclusive one", "%d %d", v, s.b);
        { mcs::Off _; mon.r--; mon.active++; mon.changed = mcs::tick(); }
        if constexpr (requires { s.lock.lock_shared(); }) s.lock.unlock_shared();
    }
    { mcs::Off _; mon.active--; mon.changed = mcs::tick(); }
}
template<typename L> static void run(const std::vector<std::vector<Op>>& prog, bool weak) {
    { mcs::Off _; mon = Mon{}; }
    Shared_<L> s; static int done[4]; { mcs::Off _; for (int& d : done) d = 0; }
    std::vector<std::thread> ts;
    for (size_t i = 0; i < prog.size(); i++) ts.emplace_back([&s, &p = prog[i], weak] { for (Op o : p) section(s, o, weak); });
    for (auto& t : ts) t.join();
    // afterwards the lock is free, and everything written is visible
    MCS_CHECK(s.a == s.b, "writes are lost", "%d %d", s.a, s.b);
    MCS_CHECK(s.lock.try_lock(), "the lock is not free after every section has ended", "%d", s.a);
    MCS_CHECK(!s.lock.try_lock(), "a locked lock can be locked again", "%d", s.a);
    if constexpr (requires { s.lock.lock_shared(); }) MCS_CHECK(!s.lock.try_lock_shared(), "a reader enters while a writer holds the lock", "%d", s.a);
    s.lock.unlock();
    if constexpr (requires { s.lock.lock_shared(); }) {
        MCS_CHECK(s.lock.try_lock_shared(), "a free lock cannot be locked by a reader", "%d", s.a); s.lock.lock_shared();
        MCS_CHECK(!s.lock.try_lock(), "a writer enters while readers hold the lock", "%d", s.a);
        s.lock.unlock_shared(); MCS_CHECK(!s.lock.try_lock(), "a writer enters while a reader holds the lock", "%d", s.a);
        s.lock.unlock_shared(); MCS_CHECK(s.lock.try_lock(), "the lock is not free after its readers have left", "%d", s.a); s.lock.unlock();
    }
}

// latch: downs[i] = the counts that thread i counts down, each after writing its own data; waiters wait or poll
static void latch_run(std::vector<std::vector<int>> downs, std::vector<int> waiters) {
    uint32_t n = 0; for (auto& d : downs) for (int x : d) n += x;
    static int left; { mcs::Off _; left = (int)n; }
    latch l(n); int data[8] = {}; std::vector<std::thread> ts; int k = 0;
    if (n) MCS_CHECK(!l.try_wait(), "a latch is open before its count is zero", "%u", n);
    for (auto& d : downs) { ts.emplace_back([&l, &data, d, k]() mutable { for (int x : d) { data[k++] = 7; { mcs::Off _; left -= x; } if (x == 1) l.count_down(); else l.count_down((uint32_t)x); } }); k += (int)d.size(); }
    auto wait = [&](int how) {
        if (how == 0) l.wait();
        else if (how == 1) { while (!l.try_wait()) std::this_thread::yield(); }
        else if (!l.try_wait()) return;
        { mcs::Off _; if (left) mcs::fail("a wait returned before the count has reached zero", std::to_string(left) + " left"); }
        for (int i = 0; i < k; i++) MCS_CHECK(data[i] == 7, "work done before a count down is not visible after the wait", "data %d", i);
    };
    for (size_t i = 1; i < waiters.size(); i++) ts.emplace_back([&wait, h = waiters[i]] { wait(h); });
    wait(waiters[0]);
    for (auto& t : ts) t.join();
    MCS_CHECK(l.try_wait(), "the latch is not open although its count is zero", "%u", n); l.wait();
}
static void setup() {
    bool th = mcs::thorough();
    auto opt = [](int dev, bool weak) { mcs::Opt o; o.dev = dev; o.weak = weak; o.spurious = weak; o.forked = false; return o; };
    std::vector<Op> ex{ X, TX }, all{ X, TX, S, TS };
    auto seqs = [](const std::vector<Op>& al, int maxlen) { std::vector<std::vector<Op>> r; for (auto a : al) { r.push_back({ a }); if (maxlen > 1) for (auto b : al) r.push_back({ a, b }); } return r; };
    for (int weak = 0; weak < 2; weak++) {
        int d2 = th ? 5 : 3, d3 = th ? 4 : 2;
        auto add = [&](bool sh, std::vector<std::vector<Op>> p, int d) { mcs::add_task(std::string(sh ? "shared_spinlock: " : "spinlock: ") + name(p) + (weak ? " weak" : ""), [=] { if (sh) run<shared_spinlock>(p, weak); else run<spinlock>(p, weak); }, opt(d, weak)); };
        for (int sh = 0; sh < 2; sh++) {
            auto p2 = seqs(sh ? all : ex, 2), p1 = seqs(sh ? all : ex, 1);
            for (size_t i = 0; i < p2.size(); i++) for (size_t j = i; j < p2.size(); j++) add(sh, { p2[i], p2[j] }, d2);
            for (size_t i = 0; i < p1.size(); i++) for (size_t j = i; j < p1.size(); j++) for (size_t k = j; k < p1.size(); k++) add(sh, { p1[i], p1[j], p1[k] }, d3);
        }
        auto lat = [&](const char* n, std::vector<std::vector<int>> d, std::vector<int> w, int dev) { mcs::add_task(std::string("latch: ") + n + (weak ? " weak" : ""), [=] { latch_run(d, w); }, opt(dev, weak)); };
        for (int w = 0; w < 3; w++) {
            lat(("zero " + std::to_string(w)).c_str(), {}, { w, w }, d2); lat(("1 " + std::to_string(w)).c_str(), { { 1 } }, { w }, d2); lat(("1+1 " + std::to_string(w)).c_str(), { { 1, 1 } }, { w }, d2); lat(("1|1 " + std::to_string(w)).c_str(), { { 1 }, { 1 } }, { w }, d2);
            lat(("2|1 " + std::to_string(w)).c_str(), { { 2 }, { 1 } }, { w }, d2); lat(("1|1|1 " + std::to_string(w)).c_str(), { { 1 }, { 1 }, { 1 } }, { w }, d3); lat(("1+2|1 " + std::to_string(w)).c_str(), { { 1, 2 }, { 1 } }, { w }, d2);
            for (int v = 0; v < 3; v++) lat(("1|1 two waiters " + std::to_string(w) + std::to_string(v)).c_str(), { { 1 }, { 1 } }, { w, v }, d3);
        }
    }
}
MCS_MAIN(setup)
