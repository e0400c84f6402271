// P01: parallel loops run every index exactly once, finish, and publish their results, on every schedule.
#include "sched.hpp"
#include "utility/thread_pool.hpp"
#include "utility/iterators.hpp"
#include <list>
#include <string>
#include <thread>
#include <vector>
using gapp::detail::thread_pool;

// What the body of a loop writes, without any synchronisation of its own: an element that is handled twice or not at all
// shows in the counts, and a loop that returns before its body has finished shows as a race with the caller, who reads them.
struct Cell { int v = 0, w = 0; };

template<typename F> static void loop(thread_pool& p, Cell* c, int off, int n, size_t block, int kind, F inner) {
    for (int i = off; i < off + n; i++) c[i] = Cell{};
    auto body = [&](int i) { c[i].v += 1; inner(i); c[i].w += 1; };
    if (kind == 0) p.execute_loop(gapp::detail::iota_iterator<int>(off), gapp::detail::iota_iterator<int>(off + n), block, body);
    else if (kind == 1) p.execute_loop(c + off, c + off + n, block, [&](Cell& x) { body(int(&x - c)); });
    else { std::list<int> l; for (int i = 0; i < n; i++) l.push_back(off + i); p.execute_loop(l.begin(), l.end(), block, body); }
    for (int i = off; i < off + n; i++) {
        MCS_CHECK(c[i].v, "a loop returns without having handled an element", "element %d", i - off);
        MCS_CHECK(c[i].v == 1, "an element is handled twice", "element %d: %d", i - off, c[i].v);
        MCS_CHECK(c[i].w == 1, "a loop returns while its body is still running", "element %d", i - off);
    }
}
static const auto none = [](int) {};

static void setup() {
    bool th = mcs::thorough();
    auto add = [](const std::string& n, int dev, std::function<void()> f, int cpus = 1, bool spur = false) { mcs::Opt o; o.dev = dev; o.cpus = cpus; o.spurious = spur; mcs::add_task(n, std::move(f), o); };
    auto str = [](int x) { return std::to_string(x); };
    int d1 = th ? 3 : 2;
    // plain loops: threads x elements x block size, twice in a row
    for (int t = 1; t <= 4; t++) for (int n = 0; n <= 5; n++) for (size_t b = 1; b <= 3; b++) {
        if (b > 1 && (n < 3 || t < 3)) continue;
        add("threads " + str(t) + " elements " + str(n) + " block " + str((int)b), t == 4 ? d1 - 1 : d1, [=] { thread_pool p; p.thread_count(t); MCS_CHECK((int)p.thread_count() == t, "the thread count is wrong", "%zu", p.thread_count()); Cell c[8]; loop(p, c, 0, n, b, (n + t) % 3, none); if (n == 3) loop(p, c, 0, n, b, 0, none); });
    }
    for (int t = 5; t <= 6; t++) for (int n = 3; n <= t - (t == 6); n++) add("threads " + str(t) + " elements " + str(n), th && t == 5 ? 1 : 0, [=] { thread_pool p; p.thread_count(t); Cell c[8]; loop(p, c, 0, n, 1, n % 3, none); });
    for (int cpus = 1; cpus <= 3; cpus++) add("default thread count " + str(cpus), d1 - 1, [=] { thread_pool p; MCS_CHECK((int)p.thread_count() == cpus, "the default thread count is wrong", "%zu", p.thread_count()); Cell c[8]; loop(p, c, 0, 4, 1, 0, none); }, cpus);
    // large ranges and blocks without concurrency limits: the split covers the range
    for (int t = 1; t <= 3; t++) add("splits, threads " + str(t), 0, [=] { thread_pool p; p.thread_count(t); Cell c[24]; int n = (int)mcs::choose(14), b = (int)mcs::choose(9); static const size_t B[] = { 1, 2, 3, 4, 5, 7, 13, 100, SIZE_MAX }; mcs::budget(0); loop(p, c, 0, n, B[b], (n + b) % 3, none); });
    // many elements and several loops one after the other
    for (int t = 1; t <= 4; t++) add("many elements, threads " + str(t), 0, [=] { thread_pool p; p.thread_count(t); static Cell c[300]; static const int N[] = { 14, 16, 17, 31, 33, 64, 65, 100, 128, 129, 256, 257, 290 }; int n = N[mcs::choose(13)]; static const size_t B[] = { 1, 2, 7, 16, 64, 100, 128, 256, 289 }; size_t b = B[mcs::choose(9)]; mcs::budget(0); if (t > 2 && n / b > 20) b = n / 20; loop(p, c, 0, n, b, n % 3, none); loop(p, c, 0, 5, 1, 0, none); });
    for (int t = 2; t <= 3; t++) add("many loops, threads " + str(t), 0, [=] { thread_pool p; p.thread_count(t); Cell c[8]; mcs::budget(0); for (int i = 0; i < 70; i++) loop(p, c, 0, 2 + i % 4, 1, i % 3, none); });
    // the thread count is changed between loops
    for (int from = 1; from <= 3; from++) for (int to = 1; to <= 3; to++) add("threads " + str(from) + " then " + str(to), d1 - 1, [=] { thread_pool p; p.thread_count(from); Cell c[8]; loop(p, c, 0, 3, 1, 0, none); p.thread_count(to); MCS_CHECK((int)p.thread_count() == to, "the thread count is wrong", "%zu", p.thread_count()); loop(p, c, 0, 3, 1, 1, none); p.reset_scheduler(); loop(p, c, 0, 2, 1, 1, none); }, 2);
    // nested loops: outer elements x inner elements
    for (int t = 1; t <= 4; t++) for (int n = 1; n <= 3; n++) for (int m = 0; m <= 3; m++) {
        if ((t == 1 || n == 1) && m != 2) continue;
        if (!th && ((t == 4 && (m == 3 || n == 2)) || n * m > 6)) continue;
        add("threads " + str(t) + " nested " + str(n) + " x " + str(m), t >= 3 && n * m > 4 ? d1 - 1 : t == 4 ? d1 - 1 : d1, [=] { thread_pool p; p.thread_count(t); Cell c[32]; loop(p, c, 0, n, 1, 0, [&](int i) { loop(p, c, 8 + i * 4, m, 1, m % 2, none); }); });
    }
    add("three levels", d1 - 1, [=] { thread_pool p; p.thread_count(3); Cell c[64]; loop(p, c, 0, 2, 1, 0, [&](int i) { loop(p, c, 4 + i * 2, 2, 1, 0, [&](int j) { loop(p, c, 12 + j * 2, 2, 1, 0, none); }); }); });
    add("uneven nesting", d1 - 1, [=] { thread_pool p; p.thread_count(3); Cell c[64]; loop(p, c, 0, 3, 1, 0, [&](int i) { if (i != 1) loop(p, c, 8 + i * 4, 3, 1, 0, none); }); });
    // several threads start loops at once
    for (int t = 1; t <= 3; t++) for (int n = 1; n <= 3; n++) for (int k = 0; k < 2; k++)
        add("threads " + str(t) + " two callers with " + str(n) + (k ? ", one nested" : ""), n == 3 || t == 3 || k ? d1 - 1 : d1, [=] { thread_pool p; p.thread_count(t); Cell c[40]; std::thread o([&] { loop(p, c, 16, n, 1, 0, none); });
            if (k) loop(p, c, 0, 2, 1, 0, [&](int i) { loop(p, c, 4 + i * 4, 2, 1, 0, none); }); else loop(p, c, 0, n, 1, 0, none); o.join(); });
    add("three callers", d1 - 1, [=] { thread_pool p; p.thread_count(3); Cell c[40]; std::thread a([&] { loop(p, c, 8, 2, 1, 0, none); }), b([&] { loop(p, c, 16, 2, 1, 0, none); }); loop(p, c, 0, 2, 1, 0, none); a.join(); b.join(); });
    // spurious wake-ups of the workers
    add("spurious", d1, [=] { thread_pool p; p.thread_count(3); Cell c[8]; loop(p, c, 0, 3, 1, 0, none); loop(p, c, 0, 2, 1, 0, none); }, 1, true);
    // the global pool behind the public functions
    add("parallel_for", d1 - 1, [=] { gapp::execution_threads(3); MCS_CHECK(gapp::execution_threads() == 3, "the thread count is wrong", "%zu", gapp::execution_threads()); int a[5] = {}; gapp::detail::parallel_for(a, a + 5, [](int& x) { x++; }); gapp::detail::parallel_for(a, a + 5, 2, [](int& x) { x++; });
        for (int x : a) MCS_CHECK(x == 2, "the effects of the body are not visible to the caller", "%d", x); gapp::execution_threads(0); MCS_CHECK(gapp::execution_threads() == 1, "the thread count is wrong", "%zu", gapp::execution_threads()); gapp::detail::parallel_for(a, a + 5, [](int& x) { x++; }); for (int x : a) MCS_CHECK(x == 3, "the effects of the body are not visible to the caller", "%d", x); });
}
MCS_MAIN(setup)
