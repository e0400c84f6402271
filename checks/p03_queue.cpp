// P03: concurrent histories of the blocking queue are linearizable to a FIFO queue with close.
#include "sched.hpp"
#include "utility/concurrent_queue.hpp"
#include <thread>
#include <vector>
#include <string>
#include <memory>
#include <set>
using namespace gapp::detail;

// A value whose content is on the heap, so that a torn, shared or prematurely destroyed element is noticed.
struct Val {
    std::unique_ptr<int> p; Val(int v) : p(new int(v)) {} Val(Val&&) noexcept = default; Val& operator=(Val&&) noexcept = default; int get() const { return p ? *p : -1; }
};
enum Kind { PUT, TAKE, CLOSE, CLOSED, EMPTY };
struct Op { Kind k; int v; };
struct Event { Kind k; int v, res, thr; uint64_t call, ret; };   // res: PUT accepted, TAKE value (-1: nothing), CLOSED/EMPTY bool
static constexpr const char* NAME[] = { "put", "take", "close", "closed", "empty" };
static Event events[32]; static int nev;

static std::string show() { std::string s; for (int i = 0; i < nev; i++) { char b[80]; snprintf(b, 80, "[T%d %s%d=%d @%d-%d]", events[i].thr, NAME[events[i].k], events[i].v, events[i].res, (int)events[i].call, (int)events[i].ret); s += b; } return s; }
// Wing & Gong: is there an order of the operations, consistent with real time, that a sequential queue explains?
static bool lin(unsigned done, std::vector<int>& q, bool closed) {
    if (done == (1u << nev) - 1) return true;
    uint64_t minret = ~0ull; for (int i = 0; i < nev; i++) if (!(done >> i & 1)) minret = std::min(minret, events[i].ret);
    for (int i = 0; i < nev; i++) {
        Event& e = events[i]; if ((done >> i & 1) || e.call > minret) continue;
        std::vector<int> q2 = q; bool c2 = closed; bool ok = false;
        switch (e.k) {
            case PUT: ok = e.res == !closed; if (!closed) q2.push_back(e.v); break;
            case TAKE: if (!q.empty()) { ok = e.res == q.front(); q2.erase(q2.begin()); } else ok = closed && e.res == -1; break;
            case CLOSE: ok = true; c2 = true; break;
            case CLOSED: ok = e.res == closed; break;
            case EMPTY: ok = e.res == q.empty(); break;
        }
        if (ok && lin(done | 1u << i, q2, c2)) return true;
    }
    return false;
}
static void run(const std::vector<std::vector<Op>>& prog, bool prefill) {
    static int pending; { mcs::Off _; nev = 0; pending = 0; }
    concurrent_queue<Val> q;
    auto exec = [&](const Op& o) {
        uint64_t call = mcs::tick(); int res = 0; { mcs::Off _; pending += o.k == TAKE; }
        switch (o.k) {
            case PUT: res = q.emplace(o.v); break;
            case TAKE: { auto r = q.take(); res = r ? r->get() : -1; break; }
            case CLOSE: q.close(); break;
            case CLOSED: res = q.closed(); break;
            case EMPTY: res = q.empty(); break;
        }
        uint64_t ret = mcs::tick(); { mcs::Off _; pending -= o.k == TAKE; events[nev++] = { o.k, o.v, res, mcs::self(), call, ret }; }
    };
    if (prefill) exec({ PUT, 90 });
    std::vector<std::thread> ts;
    for (auto& p : prog) ts.emplace_back([&exec, &p] { for (auto& o : p) exec(o); });
    mcs::quiesce();
    // everybody who can continue has finished: a consumer may only be waiting for a value that has not arrived
    if (!q.empty()) MCS_CHECK(!pending, "a consumer stays blocked although the queue is not empty", "%d consumers, %s", pending, show().c_str());
    if (q.closed()) MCS_CHECK(!pending, "a consumer stays blocked although the queue is closed", "%d consumers, %s", pending, show().c_str());
    exec({ CLOSE, 0 });
    for (auto& t : ts) t.join();
    MCS_CHECK(!q.emplace(77), "a closed queue accepts a value", "%s", show().c_str());
    while (!q.empty()) exec({ TAKE, 0 });
    exec({ TAKE, 0 }); exec({ CLOSED, 0 });
    { mcs::Off _; std::vector<int> e; if (!lin(0, e, false)) { std::string s = show(); mcs::fail("the history is not linearizable", s); } }
}
static std::string name(const std::vector<std::vector<Op>>& p) { std::string s; for (auto& t : p) { if (!s.empty()) s += " || "; for (auto& o : t) { s += NAME[o.k]; if (o.k == PUT) s += std::to_string(o.v); s += ' '; } } return s; }

// long histories: the queue grows and shrinks by bursts, alone and with a consumer on another thread
static void bursts() {
    int burst = 1 + (int)mcs::choose(40), keep = (int)mcs::choose(3); concurrent_queue<Val> q; int in = 0, out = 0; auto take = [&] { auto r = q.take(); int v = r ? r->get() : -1; MCS_CHECK(v == out, "a value is lost, repeated or out of order", "%d instead of %d of %d", v, out, in); out++; };
    while (in < 330) { for (int i = 0; i < burst; i++) MCS_CHECK(q.emplace(in++), "an open queue refuses a value", "%d", in); int n = in - out; for (int i = 0; i < (keep == 0 ? n : keep == 1 ? n / 2 : std::max(burst - 3, 1)); i++) take(); }
    q.close(); MCS_CHECK(!q.emplace(7), "a closed queue accepts a value", ""); while (out < in) { MCS_CHECK(!q.empty(), "a value is lost, repeated or out of order", "%d of %d", out, in); take(); } MCS_CHECK(q.empty() && !q.take(), "a closed and empty queue returns a value", "");
}
static void stream(int producers, int consumers) {
    concurrent_queue<Val> q; static std::vector<int> got[3]; { mcs::Off _; for (auto& g : got) g.clear(); } const int n = 60; std::vector<std::thread> ts; mcs::budget(0);
    for (int c = 0; c < consumers; c++) ts.emplace_back([&q, c] { for (;;) { auto r = q.take(); if (!r) return; int v = r->get(); mcs::Off _; got[c].push_back(v); } });
    std::vector<std::thread> ps; for (int p = 0; p < producers; p++) ps.emplace_back([&q, p] { for (int i = 0; i < n; i++) MCS_CHECK(q.emplace(p * 1000 + i), "an open queue refuses a value", "%d", i); });
    for (auto& p : ps) p.join(); q.close(); for (auto& t : ts) t.join();
    mcs::Off _; std::vector<int> all; for (int c = 0; c < consumers; c++) { int last[3] = { -1, -1, -1 }; for (int v : got[c]) { if (v % 1000 <= last[v / 1000]) mcs::fail("a value is lost, repeated or out of order", std::to_string(v)); last[v / 1000] = v % 1000; all.push_back(v); } }
    if ((int)all.size() != n * producers || (int)std::set<int>(all.begin(), all.end()).size() != n * producers) mcs::fail("a value is lost, repeated or out of order", std::to_string(all.size()) + " values");
}

static void setup() {
    { mcs::Opt o; o.dev = 0; o.forked = false; mcs::add_task("bursts", bursts, o); for (int p = 1; p <= 2; p++) for (int c = 1; c <= 2; c++) if (p + c < 4) mcs::add_task("stream " + std::to_string(p) + " to " + std::to_string(c), [=] { stream(p, c); }, o); }
    int dev = mcs::depth(2, 4);
    auto add = [&](std::vector<std::vector<Op>> p, bool pre, int d, bool spur) { mcs::Opt o; o.dev = d; o.forked = false; o.spurious = spur; mcs::add_task(name(p) + (pre ? " (one element)" : "") + (spur ? " spurious" : ""), [p, pre] { run(p, pre); }, o); };
    Op P1{ PUT, 1 }, P2{ PUT, 2 }, P3{ PUT, 3 }, T{ TAKE, 0 }, C{ CLOSE, 0 }, D{ CLOSED, 0 }, M{ EMPTY, 0 };
    // two threads, every pair of programs of one or two operations
    std::vector<Op> all{ P1, T, C, M, D };
    std::vector<std::vector<Op>> progs; for (auto a : all) progs.push_back({ a }); for (auto a : all) for (auto b : all) { if (a.k == PUT && b.k == PUT) b.v = 2; progs.push_back({ a, b }); }
    for (auto& a : progs) for (auto& b : progs) { auto x = b; for (auto& o : x) if (o.k == PUT) o.v += 10; add({ a, x }, false, dev, false); }
    for (auto& b : progs) { auto x = b; for (auto& o : x) if (o.k == PUT) o.v += 10; add({ {}, b, x }, true, dev, true); }
    // producers and consumers
    Op Q1{ PUT, 11 }, Q2{ PUT, 12 };
    std::vector<std::vector<std::vector<Op>>> three{
        { { P1, P2 }, { T }, { T } }, { { P1 }, { T }, { Q1, T } }, { { P1, P2, P3 }, { T, T, T } }, { { C }, { T }, { T } }, { { P1, C }, { T }, { T } }, { { P1, P2 }, { Q1, Q2 }, { T, T, T } }, { { P1 }, { T, T }, { C } },
        { { P1 }, { Q1 }, { C } }, { { M, P1 }, { T }, { T, Q1 } }, { { P1, P2 }, { C }, { T, T, T } }, { { P1, T }, { Q1, T }, { M, D } }, { {}, { T }, { T }, { T } }, { { P1, P2 }, { T }, { T }, { T } }, { { P1 }, { T }, { T }, { C } } };
    for (auto& p : three) { add(p, false, dev, false); add(p, false, std::max(1, dev - 1), true); add(p, true, dev, false); }
}
MCS_MAIN(setup)
