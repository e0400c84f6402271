// P08: parallel runs are race free, evaluate every candidate once, and stay consistent, on every schedule.
#include "par_runs.hpp"
#include <atomic>
#include <map>
#include <thread>
using namespace pr;

template<typename G> static void one(G ga, Cfg c, int mode) {
    using T = typename Gene<G>::type;
    configure(ga, c); 
    // what the fitness function was called with, recorded in a way that does not order the threads
    struct Log { Chromosome<T> c[96]; std::atomic<size_t> n = 0; }; Log log;
    static bool slot_used[96]; { mcs::Off _; for (bool& b : slot_used) b = false; }
    auto on = [&](const Chromosome<T>& ch) { size_t k = log.n.fetch_add(1, std::memory_order_relaxed); if (k < 96) log.c[k] = ch; if (mode & 1) mcs::point(); };
    size_t last = 0, gens = 0, expected = 1 + size_t(c.pop);
    if (mode & 2) ga.mutation_method([](const GA<T>&, const Candidate<T>&, Chromosome<T>& ch) { if (ch.size() > 1) std::swap(ch[0], ch[1]); rng::randomBool(); });   // children are evaluated again only if they have changed
    if (mode & 4) { ga.crossover_rate(0.0); ga.mutation_rate(0.0); }                                                             // nothing changes
    if constexpr (std::is_same_v<T, BinaryGene>) if (mode & 16) { ga.algorithm(algorithm::SingleObjective{ selection::Tournament{}, replacement::KeepChildren{} }); ga.crossover_rate(0.0); ga.mutation_method([](const GA<T>&, const Candidate<T>&, Chromosome<T>& ch) { ch[0] ^= 1; }); }   // generation k + 2 has the chromosomes of generation k
    if (mode & 8) ga.repair_function([](const GA<T>&, const Chromosome<T>& ch) { Chromosome<T> r = ch; std::reverse(r.begin(), r.end()); return r; });
    ga.on_generation_end([&](const GaInfo&) { auto& g = ga;
        auto& pop = g.population(); auto& fm = g.fitness_matrix();
        MCS_CHECK((int)pop.size() == c.pop && (int)fm.size() == c.pop, "the population has the wrong size", "%zu %zu", pop.size(), fm.size());
        for (size_t i = 0; i < pop.size(); i++) {
            MCS_CHECK(pop[i].is_evaluated && pop[i].fitness == value<T>(pop[i].chromosome, c.obj), "a candidate has the fitness of another one", "%s, candidate %zu", show(c).c_str(), i);
            for (int k = 0; k < c.obj; k++) MCS_CHECK(fm[i][k] == pop[i].fitness[k], "the fitness matrix does not belong to the population", "%s, candidate %zu", show(c).c_str(), i);
        }
        size_t calls = log.n.load();
        MCS_CHECK(g.num_fitness_evals() + 1 == calls, "the number of evaluations is not the number of calls", "%zu reported, %zu calls", g.num_fitness_evals(), calls - 1);
        MCS_CHECK(calls - last <= size_t(c.pop) + (gens == 0), "a candidate is evaluated more than once", "%zu calls in one generation", calls - last);
        if (c.dynamic) MCS_CHECK(calls == expected, "a dynamic fitness function is not called once per candidate", "%zu calls instead of %zu", calls, expected);
        if (!c.dynamic && (mode & 4) && !(mode & 10)) MCS_CHECK(calls == 1 + size_t(c.pop), "an unchanged candidate is evaluated again", "%zu calls", calls);
        if (mode & 16) MCS_CHECK(calls - last == (gens == 0 ? 1 + size_t(c.pop) : gens == 1 ? size_t(c.pop) : 0), "the cache is not used", "%zu calls in generation %zu", calls - last, gens);
        last = calls; expected += c.pop; gens++;
        // every new candidate of the population has been evaluated by some call
        for (auto& s : pop) { bool found = false; for (size_t k = 0; k < std::min<size_t>(calls, 96) && !found; k++) found = log.c[k] == s.chromosome; MCS_CHECK(found, "a candidate was never evaluated", "%s", show(c).c_str()); }
    });
    auto sols = solve(ga, c, std::function<void(const Chromosome<T>&)>(on));
    MCS_CHECK(gens == size_t(c.gens), "the run has the wrong number of generations", "%zu", gens);
    MCS_CHECK(!sols.empty(), "a run returns no solution", "");
    for (auto& s : sols) MCS_CHECK(s.fitness == value<T>(s.chromosome, c.obj), "a solution has the fitness of another one", "%s", show(c).c_str());
    if (!c.keep) for (auto& s : sols) { bool in = false; for (auto& p : ga.population()) in |= p.chromosome == s.chromosome; MCS_CHECK(in, "a solution is not in the final population", "%s", show(c).c_str()); }
}
static void run(Cfg c, int threads, int mode) { execution_threads(threads); rng::prng.seed(5); with(c, [&](auto ga) { one(std::move(ga), c, mode); }); execution_threads(1); }
// two objects run at the same time and share the pool
static void two(Cfg a, Cfg b, int threads) {
    execution_threads(threads); std::thread t([&] { with(b, [&](auto ga) { one(std::move(ga), b, 0); }); }); with(a, [&](auto ga) { one(std::move(ga), a, 0); }); t.join(); execution_threads(1);
}
static void setup() {
    bool th = mcs::thorough();
    auto add = [&](const std::string& n, int dev, std::function<void()> f) { mcs::Opt o; o.dev = dev; mcs::add_task(n, std::move(f), o); };
    struct J { Cfg c; int mode; };
    std::vector<J> js{ { { BIN, SO, 1, 4, 2, 0, false, false, true }, 1 }, { { REAL, SO, 1, 5, 2, 0, true, true, false }, 0 }, { { INT, ROULETTE, 1, 4, 2, 2, false, false, false }, 8 }, { { PERM, SIGMA, 1, 4, 2, 1, false, true, false }, 2 },
        { { BIN, N2, 2, 4, 2, 0, false, true, true }, 0 }, { { REAL, N3, 2, 4, 2, 0, false, false, true }, 0 }, { { BIN, DEFAULT, 3, 4, 2, 2, true, true, false }, 0 }, { { PERM, SO, 1, 4, 3, 0, false, false, false }, 4 }, { { BIN, SO, 1, 4, 2, 3, false, false, true, 3 }, 4 }, { { INT, N3, 3, 4, 2, 0, true, true, false, 6 }, 8 }, { { BIN, N2, 3, 6, 2, 1, false, false, true }, 2 }, { { BIN, SO, 1, 4, 3, 3, false, true, false }, 16 } };
    for (auto& j : js) { add(show(j.c) + ", 3 threads, mode " + std::to_string(j.mode), th ? 3 : 2, [=] { run(j.c, 3, j.mode); });
        Cfg c = j.c; c.gens = 1; if (j.mode & 1) add(show(c) + ", 3 threads, initial population", th ? 3 : 2, [=] { run(c, 3, j.mode); });
        c.pop = 6; c.gens = 2; add(show(c) + ", 4 threads", 0, [=] { run(c, 4, j.mode); });
        for (int t = 1; t <= 2; t++) add(show(j.c) + ", threads " + std::to_string(t), 0, [=] { run(j.c, t, j.mode); }); }
    Cfg a{ BIN, SO, 1, 2, 2, 0, false, false, false }, b{ REAL, N2, 2, 2, 2, 0, false, false, false };
    for (int t = 1; t <= 3; t++) add("two runs at once, threads " + std::to_string(t), t == 3 && !th ? 0 : 1, [=] { two(a, t == 2 ? b : a, t); });
}
MCS_MAIN(setup)
