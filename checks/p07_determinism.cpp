// P07: equal seeds give equal results, whatever the interleaving of the two runs was.
#include "par_runs.hpp"
#include <atomic>
#include <thread>
using namespace pr;
template<typename G> static uint64_t one(G ga, const Cfg& c) {
    configure(ga, c); Observed o; auto sols = solve(ga, c);
    observe(o, sols); observe(o, ga.population()); o.add(uint64_t(ga.num_fitness_evals())); o.add(uint64_t(ga.generation_cntr()));
    return o.h;
}
static uint64_t run(const Cfg& c) { uint64_t h = 0; with(c, [&](auto ga) { h = one(std::move(ga), c); }); return h; }

static void twice(Cfg c, int threads, int before, int runs) {
    execution_threads(threads);
    // the state that the generators are in before the first run does not matter
    if (before == 1) { rng::prng.seed(99); run(c); }
    if (before == 2) for (int i = 0; i < 5; i++) { rng::randomBool(); rng::randomNormal(); }
    uint64_t first = 0;
    for (int i = 0; i < runs; i++) {
        rng::prng.seed(1234567); uint64_t h = run(c);
        if (!i) first = h; else MCS_CHECK(h == first, "two runs with the same seed and settings give different results", "%s, %d threads", show(c).c_str(), threads);
        if (before == 3) { rng::randomBool(); rng::randomNormal(); }
    }
    execution_threads(1);
}
// one run per execution, compared to the run of every other execution; the threads draw for the first time in a fixed order
static void once(Cfg c, int threads) {
    execution_threads(threads); rng::prng(); std::atomic<int> turn = 0;
    detail::parallel_for(detail::iota_iterator(0), detail::iota_iterator(threads - 1), [&](int i) { while (turn.load() != i) std::this_thread::yield(); rng::prng(); turn = i + 1; });
    rng::prng.seed(1234567); uint64_t h = run(c) | 1ull << 63; MCS_CHECK(mcs::same(0, h) == h, "two runs with the same seed and settings give different results on different schedules", "%s, %d threads", show(c).c_str(), threads);
    execution_threads(1);
}
// the numbers that are drawn for each index of parallel loops
static void loops(int threads, int n, int count) {
    execution_threads(threads); rng::prng(); std::atomic<int> turn = 0;
    detail::parallel_for(detail::iota_iterator(0), detail::iota_iterator(threads - 1), [&](int i) { while (turn.load() != i) std::this_thread::yield(); rng::prng(); turn = i + 1; });
    rng::prng.seed(31); detail::execution_context::global_thread_pool.reset_scheduler(); uint64_t v[8] = {}; Observed o;
    for (int l = 0; l < count; l++) { detail::parallel_for(v, v + n, [&](uint64_t& x) { x += rng::prng(); }); for (int i = 0; i < n; i++) o.add(v[i]); }
    uint64_t h = o.h | 1ull << 63; MCS_CHECK(mcs::same(0, h) == h, "the numbers drawn in a parallel loop depend on the schedule", "%d threads, %d elements", threads, n);
    execution_threads(1);
}
// in a single thread also in another process, whatever happened before
static void single(Cfg c, int threads) {
    execution_threads(threads); size_t n = mcs::choose(4); for (size_t i = 0; i < n; i++) { rng::randomBool(); rng::randomNormal(); }
    if (n == 3) run(c);
    rng::prng.seed(77); uint64_t h = run(c) | 1ull << 63; rng::prng.seed(77); uint64_t g = run(c) | 1ull << 63;
    MCS_CHECK(g == h, "two runs with the same seed and settings give different results", "%s", show(c).c_str());
    MCS_CHECK(mcs::same(0, h) == h, "a single-threaded run with the same seed gives another result in another process", "%s", show(c).c_str());
    execution_threads(1);
}
static void setup() {
    bool th = mcs::thorough();
    std::vector<Cfg> cs{ { BIN, SO, 1, 4, 2, 0, false, false, false }, { REAL, SO, 1, 4, 2, 0, false, false, false }, { INT, SO, 1, 5, 2, 2, false, true, false }, { PERM, SO, 1, 4, 2, 0, true, false, false },
        { BIN, N2, 2, 4, 2, 0, false, true, true }, { REAL, N3, 2, 4, 2, 0, false, false, true }, { BIN, DEFAULT, 3, 4, 2, 1, false, false, false }, { REAL, DEFAULT, 1, 4, 2, 0, false, false, false, 2 } };
    auto add = [&](const std::string& n, int dev, std::function<void()> f, bool forked = false) { mcs::Opt o; o.dev = dev; o.forked = forked; mcs::add_task(n, std::move(f), o); };
    for (size_t i = 0; i < cs.size(); i++) {
        Cfg c = cs[i]; for (int b = 0; b < 4; b++) if (th || b == (int)i % 4) add(show(c) + ", 3 threads, before " + std::to_string(b), th ? 3 : 2, [=] { twice(c, 3, b, 2); });
        c.gens = 3; add(show(c) + ", 3 threads, three runs", th ? 2 : 1, [=] { twice(c, 3, 0, 3); });
        c.gens = 2; c.pop = 6; if (th || i % 4 == 1) add(show(c) + ", 4 threads", 0, [=] { once(c, 4); });
        c.pop = 4; if (th || i % 4 == 0) add(show(c) + ", 4 threads, short", th ? 1 : 0, [=] { once(c, 4); });
        c.pop = 3; c.init = 0; if (th) add(show(c) + ", 4 threads, small", th && i % 4 == 2 ? 2 : 1, [=] { once(c, 4); });
        c = cs[i]; c.gens = 3; add(show(c) + ", 3 threads, once", th ? 3 : 2, [=] { once(c, 3); });
    }
    for (int t = 2; t <= 4; t++) for (int n = 2; n <= 5; n++) for (int l = 1; l <= 3; l++) if (th || t < 4 || n < 4 + (l == 1)) add("loops, threads " + std::to_string(t) + " elements " + std::to_string(n) + " loops " + std::to_string(l), (t == 4 ? l == 1 : t == 3 ? 3 - l / 2 : 4) + th, [=] { loops(t, n, l); });
    for (size_t i = 0; i < cs.size(); i++) { Cfg c = cs[i]; c.pop = 6; c.gens = 4; for (int t = 1; t <= 2; t++) add(show(c) + ", single-threaded " + std::to_string(t), 0, [=] { single(c, t); }, true); }
}
MCS_MAIN(setup)
