// P02: exceptions leave a parallel loop only after all its work has stopped, and the pool stays usable.
#include "sched.hpp"
#include "utility/thread_pool.hpp"
#include "utility/iterators.hpp"
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
using gapp::detail::thread_pool; using gapp::detail::iota_iterator;

struct Err { int loop, i; };
// What the invocations of a loop write. It is freed as soon as the loop has ended, so an invocation that still runs then, or
// starts later, is seen as a use of freed memory or as a race with the one that frees it.
struct Data { int entered[8] = {}, left[8] = {}; bool thrown[8] = {}; };

// Runs one loop in which the elements of the mask throw. Returns true if an exception came out.
template<typename F> static bool loop(thread_pool& p, int id, int n, size_t block, uint32_t mask, long fail, F inner) {
    auto d = std::make_unique<Data>(); Data* data = d.get(); bool threw = false, bad = false; Err err{}; mcs::fail_alloc_after(fail);
    try {
        p.execute_loop(iota_iterator<int>(0), iota_iterator<int>(n), block, [data, mask, id, inner](int i) {
            data->entered[i]++;
            struct Leave { int& n; ~Leave() { n++; } } leave{ data->left[i] };
            if (inner(i) || (mask >> i & 1)) { data->thrown[i] = true; throw Err{ id, i }; }
        });
    }
    catch (Err& e) { threw = true; err = e; }
    catch (std::bad_alloc&) { threw = bad = true; MCS_CHECK(fail >= 0, "the exception of a loop is not one that its body has thrown", "bad_alloc"); }
    mcs::fail_alloc_after(-1); bool any = false;
    for (int i = 0; i < n; i++) {
        MCS_CHECK(data->entered[i] <= 1, "an element is handled twice", "%d", i);
        MCS_CHECK(data->left[i] == data->entered[i], "an exception leaves a loop while its body is still running", "element %d", i);
        MCS_CHECK(threw || data->entered[i], "a loop returns normally without having handled every element", "%d", i);
        any |= data->thrown[i];
    }
    MCS_CHECK(!any || threw, "an exception thrown by the body of a loop is lost", "%d", id);
    MCS_CHECK(!threw || bad || (err.loop == id && data->thrown[err.i]), "the exception of a loop is not one that its body has thrown", "loop %d element %d", err.loop, err.i);
    return threw;
}
static const auto none = [](int) { return false; };
static void clean(thread_pool& p, int id, int n) { if (loop(p, id, n, 1, 0, -1, none)) mcs::fail("a loop after a failed one fails too", ""); }

static void setup() {
    bool th = mcs::thorough(); int d = th ? 3 : 2;
    auto add = [](const std::string& n, int dev, std::function<void()> f) { mcs::Opt o; o.dev = dev; mcs::add_task(n, std::move(f), o); };
    auto str = [](int x) { return std::to_string(x); };
    for (int t = 1; t <= 4; t++) for (int n = 1; n <= 4; n++) {
        if (n > t && n != 3) continue;
        add("threads " + str(t) + " elements " + str(n), t == 4 || n == 4 ? d - 1 : d, [=] { thread_pool p; p.thread_count(t); uint32_t m = 1 + (uint32_t)mcs::choose((1u << n) - 1); bool x = loop(p, 0, n, 1, m, -1, none); MCS_CHECK(x, "an exception thrown by the body of a loop is lost", "%u", m); clean(p, 1, n); });
    }
    for (int t = 2; t <= 3; t++) add("blocks, threads " + str(t), d - 1, [=] { thread_pool p; p.thread_count(t); uint32_t m = 1 + (uint32_t)mcs::choose(31); loop(p, 0, 5, 2, m, -1, none); clean(p, 1, 5); });
    // the failed loop is followed by another failing one, and by changes of the thread count
    add("two failed loops", d - 1, [=] { thread_pool p; p.thread_count(3); uint32_t m = 1 + (uint32_t)mcs::choose(3), k = 1 + (uint32_t)mcs::choose(3); loop(p, 0, 2, 1, m, -1, none); loop(p, 1, 2, 1, k, -1, none); p.thread_count(1 + mcs::choose(3)); clean(p, 2, 3); });
    // exceptions that come from, or pass through, nested loops
    for (int t = 2; t <= 4; t++) add("nested, threads " + str(t), t == 4 ? d - 2 : t == 3 ? d - 1 : d, [=] { thread_pool p; p.thread_count(t); uint32_t m = (uint32_t)mcs::choose(4), in = 1 + (uint32_t)mcs::choose(15);
        loop(p, 0, 2, 1, m, -1, [&](int i) { return loop(p, 1 + i, 2, 1, in >> (2 * i) & 3, -1, none) && (in == 5 || in == 6); }); clean(p, 4, 3); });
    // another thread's loop is not affected
    for (int t = 1; t <= 3; t++) add("two callers, threads " + str(t), t == 3 ? d - 1 : d, [=] { thread_pool p; p.thread_count(t); uint32_t m = 1 + (uint32_t)mcs::choose(3); std::thread o([&] { clean(p, 1, 2); }); loop(p, 0, 2, 1, m, -1, none); clean(p, 2, 2); o.join(); });
    add("two failing callers", th ? d - 1 : 0, [=] { thread_pool p; p.thread_count(3); uint32_t m = 1 + (uint32_t)mcs::choose(3), k = 1 + (uint32_t)mcs::choose(3); std::thread o([&] { loop(p, 1, 2, 1, k, -1, none); clean(p, 3, 2); }); loop(p, 0, 2, 1, m, -1, none); clean(p, 2, 2); o.join(); });
    // an allocation fails while the tasks are submitted
    for (int t = 3; t <= 4; t++) for (int k = 0; k < 2; k++) add("failed allocation, threads " + str(t) + (k ? " and exceptions" : ""), t == 4 ? d - 1 - (k && !th) : d, [=] { thread_pool p; p.thread_count(t); uint32_t m = k ? 1 + (uint32_t)mcs::choose((1u << t) - 1) : 0; loop(p, 0, t, 1, m, (long)mcs::choose(4), none); clean(p, 1, t); });
    // the public function
    add("parallel_for", d - 1, [=] { gapp::execution_threads(3); int a[3] = {}, got = -1; uint32_t m = 1 + (uint32_t)mcs::choose(7);
        try { gapp::detail::parallel_for(a, a + 3, [&](int& x) { x++; if (m >> (&x - a) & 1) throw Err{ 0, int(&x - a) }; }); } catch (Err& e) { got = e.i; }
        MCS_CHECK(got >= 0 && (m >> got & 1), "the exception of a loop is not one that its body has thrown", "%d of %u", got, m); gapp::detail::parallel_for(a, a + 3, [](int& x) { x = 7; }); for (int x : a) MCS_CHECK(x == 7, "a loop returns normally without having handled every element", "%d", x); gapp::execution_threads(1); });
}
MCS_MAIN(setup)
