// P09: the sequence of generations of a run. Runs with recording stop conditions, metrics, algorithms, callbacks and fitness functions are compared to the documented order, also after runs that ended with an exception.
#include "operators.hpp"
using namespace ops; using mc::fmt;
namespace {
struct Fault { int id; };
struct Event { char what; size_t gen; bool operator==(const Event&) const = default; };
struct World { std::vector<Event> log; size_t stop_at = 99, limit = 0; int fault = -1; size_t inits = 0, evals = 0; bool evaluating_initial = false; void point() { if (fault == 0) { fault = -1; throw Fault{ 1 }; } if (fault > 0) fault--; } };
World W;
/** What every user-supplied part of a run can see. */
void look(const GaInfo& ga, char what) {
    size_t g = ga.generation_cntr(); W.log.push_back({ what, g });
    MC_CHECK(ga.max_gen() == W.limit, "the maximum number of generations during the run is not the requested one", "%zu instead of %zu", ga.max_gen(), W.limit); MC_CHECK(g < ga.max_gen(), "the generation number is out of range", "%zu of %zu", g, ga.max_gen());
    MC_CHECK(ga.fitness_matrix().size() == ga.population_size(), "the fitness values of the population are not visible", "%zu of %zu", ga.fitness_matrix().size(), ga.population_size());
}
struct Stop final : stopping::StopCondition { void initialize(const GaInfo& ga) override { look(ga, 'i'); } bool stop_condition(const GaInfo& ga) override { look(ga, 's'); W.point(); return ga.generation_cntr() >= W.stop_at; } };
struct Never final : stopping::StopCondition { bool stop_condition(const GaInfo&) override { return false; } };
struct Met final : metrics::Monitor<Met, std::vector<double>> { size_t starts = 0; void initialize(const GaInfo& ga) override { look(ga, 'I'); data_.clear(); starts++; } void update(const GaInfo& ga) override { look(ga, 'm'); W.point(); double best = ga.fitness_matrix()[0][0]; for (auto r : ga.fitness_matrix()) best = std::max(best, r[0]); data_.push_back(best); } };
struct Alg final : algorithm::Algorithm {
    mutable size_t turn = 0; void initializeImpl(const GaInfo& ga) override { look(ga, 'a'); } void prepareSelectionsImpl(const GaInfo& ga, const FitnessMatrix&) override { look(ga, 'p'); turn = 0; } size_t selectImpl(const GaInfo& ga, const FitnessMatrix&) const override { return turn++ % ga.population_size(); }
    small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix& m) override { look(ga, 'n'); small_vector<size_t> r; for (size_t i = 0; i < ga.population_size(); i++) r.push_back(i % 2 ? i : m.size() - 1 - i); return r; }
};
template<typename T> double value(const Chromosome<T>& c) { double s = 0; for (size_t i = 0; i < c.size(); i++) s += double(c[i]) * (i + 1); return s; }
template<typename T> struct Fn final : FitnessFunctionBase<T> { bool two; Fn(size_t len, bool two_ = false) : FitnessFunctionBase<T>(len), two(two_) {} FitnessVector invoke(const Chromosome<T>& c) const override { W.evals++; if (W.evals > 1) W.point(); if (two) return { value(c), -value(c) }; return { value(c) }; } };
template<typename T> BoundsVector<T> bounds(size_t n) { if constexpr (std::is_same_v<T, IntegerGene>) return BoundsVector<T>(n, Bounds<T>{ 0, 5 }); else if constexpr (std::is_same_v<T, RealGene>) return BoundsVector<T>(n, Bounds<T>{ 0.0, 5.0 }); else return {}; }
template<typename T> Population<T> initial(size_t n, size_t len) { Population<T> p; for (size_t i = 0; i < n; i++) { Chromosome<T> c(len); for (size_t k = 0; k < len; k++) c[k] = std::is_same_v<T, PermutationGene> ? (k + i) % len : std::is_same_v<T, BinaryGene> ? i % 2 : (i + k) % 5; p.push_back(Candidate<T>(c)); } return p; }
/** Calls one of the overloads of solve. */
template<typename T, typename G> auto solve(G& ga, int way, std::optional<size_t> gens, bool init, bool two) {
    size_t len = 3; Fn<T> f(len, two); auto p = init ? initial<T>(2, len) : Population<T>{};
    if constexpr (std::is_same_v<T, RealGene> || std::is_same_v<T, IntegerGene>) { auto b = bounds<T>(len);
        switch (way) { case 0: return gens ? ga.solve(f, b, *gens, p) : ga.solve(f, b, p); case 1: return gens ? ga.solve(f, b[0], *gens, p) : ga.solve(f, b[0], p); case 2: return gens ? ga.solve(std::make_unique<Fn<T>>(f), b, *gens, p) : ga.solve(std::make_unique<Fn<T>>(f), b, p); default: return gens ? ga.solve(std::make_unique<Fn<T>>(f), b[0], *gens, p) : ga.solve(std::make_unique<Fn<T>>(f), b[0], p); } }
    else { if (way % 2) return gens ? ga.solve(std::make_unique<Fn<T>>(f), *gens, p) : ga.solve(std::make_unique<Fn<T>>(f), p); return gens ? ga.solve(f, *gens, p) : ga.solve(f, p); }
}
std::string show(const std::vector<Event>& l) { std::string s; for (auto& e : l) s += fmt("%c%zu ", e.what, e.gen); return s; }
struct Config { int alg = 0, stop = 0; bool metrics = true, callback = true, two = false; };
/** The events of a run in order; only those of the given kinds. */
std::vector<Event> filter(const std::string& kinds) { std::vector<Event> r; for (auto& e : W.log) if (kinds.find(e.what) != std::string::npos) r.push_back(e); return r; }
void expect(const std::string& kinds, const std::vector<Event>& want, const char* sig) { auto got = filter(kinds); MC_CHECK(got == want, sig, "%s instead of %s", show(got).c_str(), show(want).c_str()); }
template<typename T> struct Runs {
    using G = typename GaOf<T>::type; G ga; Config cfg; size_t before_max = 0;
    Runs(size_t pop, Config c) : ga(pop), cfg(c) {
        mcr::reset(); W = {}; if (c.alg == 0) ga.algorithm(Alg{}); else if (c.alg == 2) ga.algorithm(std::make_unique<Alg>());
        switch (c.stop) { case 0: ga.stop_condition(Stop{}); break; case 1: ga.stop_condition(std::make_unique<Stop>()); break; case 2: ga.stop_condition([](const GaInfo& info) { look(info, 's'); W.point(); return info.generation_cntr() >= W.stop_at; }); break; case 3: ga.stop_condition(Never{} || Stop{}); break; case 4: ga.stop_condition(Stop{} && !Never{}); break; case 5: ga.stop_condition(nullptr); break; }
        if (c.metrics) ga.track(Met{}, metrics::FitnessMax{});
        if (c.callback) ga.on_generation_end([this](const GaInfo& info) { look(info, 'c'); W.point(); check_state(info); });
    }
    void check_state(const GaInfo& info) {
        size_t g = info.generation_cntr(); MC_CHECK(&info == &ga && ga.population().size() == ga.population_size(), "the population is not visible in the callback", "generation %zu", g);
        double best = -1e300; for (size_t i = 0; i < ga.population().size(); i++) { auto& c = ga.population()[i]; MC_CHECK(c.is_evaluated && c.fitness[0] == value(c.chromosome) && info.fitness_matrix()[i][0] == c.fitness[0], "the population of the callback is not the current one", "generation %zu candidate %zu", g, i); best = std::max(best, c.fitness[0]); }
        if (cfg.metrics) { auto& m = info.get_metric<Met>(); auto& m2 = info.get_metric<metrics::FitnessMax>(); MC_CHECK(m.size() == g + 1 && m[g] == best && m2.size() == g + 1 && m2[g][0] == best, "the metrics of the generation are not visible in the callback", "generation %zu: %zu values", g, m.size()); }
        MC_CHECK(info.num_fitness_evals() > 0, "the evaluations are not counted", "generation %zu", g);
    }
    void run(int way, std::optional<size_t> gens, size_t set_max, size_t stop_at, bool init) {
        ga.max_gen(set_max); W.log.clear(); W.limit = gens.value_or(set_max); W.stop_at = stop_at; W.fault = -1; W.evals = 0; auto sols = ::solve<T>(ga, way, gens, init, cfg.two);
        size_t last = std::min(W.limit - 1, cfg.stop == 5 ? 99 : stop_at); auto text = fmt("limit %zu, stop at %zu: ", W.limit, stop_at) + show(W.log);
        MC_CHECK(ga.max_gen() == set_max, "the maximum number of generations is not restored after a run", "%zu instead of %zu", ga.max_gen(), set_max); MC_CHECK(ga.generation_cntr() == last, "a run does not end at the right generation", "%zu instead of %zu, %s", ga.generation_cntr(), last, text.c_str());
        std::vector<Event> want; if (cfg.stop != 2 && cfg.stop != 5) expect("i", { { 'i', 0 } }, "the stop condition is not initialised once per run"); if (cfg.alg != 1) expect("a", { { 'a', 0 } }, "the algorithm is not initialised once per run"); if (cfg.metrics) expect("I", { { 'I', 0 } }, "a metric is not initialised once per run");
        for (size_t g = 0; g <= last; g++) { if (g > 0 && cfg.alg != 1) want.push_back({ 'p', g - 1 }), want.push_back({ 'n', g - 1 }); if (cfg.metrics) want.push_back({ 'm', g }); if (cfg.callback) want.push_back({ 'c', g }); if (cfg.stop != 5) want.push_back({ 's', g }); } expect("pnmcs", want, "the events of a run are not in the documented order");
        auto at = [&](char c) { for (size_t i = 0; i < W.log.size(); i++) if (W.log[i].what == c) return i; return W.log.size(); }; MC_CHECK(at('i') == W.log.size() || at('i') < at('s'), "the stop condition is used before its initialisation", "%s", text.c_str()); MC_CHECK(at('I') <= at('m'), "a metric is updated before its initialisation", "%s", text.c_str()); MC_CHECK(cfg.alg == 1 || at('a') <= at('p'), "the algorithm is used before its initialisation", "%s", text.c_str());
        check_state(ga); MC_CHECK(!sols.empty(), "a run returns no solutions", "%s", text.c_str()); mc::state(mc::hmix(mc::hbytes(text.data(), text.size()), ga.population_size() * 64 + cfg.stop * 8 + way)); mc::step();
    }
    /** A run that ends with an exception of one of the user-supplied parts. Returns false if it ended before. */
    bool faulty(size_t gens, size_t set_max, size_t stop_at, int fault) { ga.max_gen(set_max); W.log.clear(); W.limit = gens; W.stop_at = stop_at; W.fault = fault; W.evals = 0; bool thrown = false; try { ::solve<T>(ga, 0, gens, false, cfg.two); } catch (const Fault&) { thrown = true; } W.fault = -1; MC_CHECK(ga.max_gen() == set_max, "the maximum number of generations is not restored after an exception", "%zu instead of %zu", ga.max_gen(), set_max); mc::step(); return thrown; }
};
template<typename T> void overloads() { Config c; c.alg = mc::range(0, 2); Runs<T> r(mc::range(1, 3), c); int way = mc::range(0, 3); for (int k = 0; k < 2; k++) { size_t max = mc::range(1, 4); bool given = mc::flip(), init = mc::flip(); size_t set = given ? mc::pick<size_t>({ 1, 9 }) : max; r.run(way, given ? std::optional<size_t>(max) : std::nullopt, set, mc::pick<size_t>({ 1, 99 }), init); } }
template<typename T> void stops() { Config c; c.alg = mc::range(0, 1); c.stop = mc::range(0, 5); c.metrics = mc::flip(); c.callback = mc::flip(); c.two = c.alg && mc::flip(); size_t pop = mc::range(1, 4), max = mc::range(1, mc::depth(5, 8)), at = mc::range(0, (int)max); Runs<T> r(pop, c); r.run(0, max, 3, at == max ? 99 : at, false); r.run(1, std::nullopt, 2 + max % 3, at, true); r.run(0, max, 3, 99, false); }
/** Long runs and large populations: limits and stops around the sizes of small counters. */
template<typename T> void longer() { Config c; c.alg = mc::range(0, 1); c.stop = mc::range(0, 4); size_t pop = mc::pick<size_t>({ 1, 2, 3, 64, 65, 257, 300 }), max = pop > 60 ? mc::pick<size_t>({ 2, 3 }) : mc::pick<size_t>({ 20, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300 }); size_t at = pop > 60 ? mc::pick<size_t>({ 1, 99999 }) : mc::pick<size_t>({ 19, 63, 64, 98, 127, 128, 254, 255, 256, 257, 298, 99999 }); Runs<T> r(pop, c); r.run(0, max, 3, at, false); r.run(1, std::nullopt, pop > 60 ? 2 : max + 1, at, true); r.run(0, 3, max, 99999, false); }
template<typename T> void faults() { Config c; c.alg = mc::range(0, 1); c.stop = mc::pick({ 0, 2, 3 }); Runs<T> r(mc::range(1, 3), c); size_t max = mc::range(1, 4); int fault = mc::range(0, mc::depth(14, 40)); r.run(0, 2, 7, 99, false); if (!r.faulty(max, 7, 99, fault)) return; r.run(0, max, 5, 99, false); r.run(0, std::nullopt, max, 1, true); if (mc::thorough()) { r.faulty(max, 7, 99, fault / 2); r.run(1, max, 5, 99, false); } }
/** The settings of a run may change between runs. */
template<typename T> void changes() {
    Config c; Runs<T> r(2, c); r.run(0, 3, 500, 99, false); for (int k = 0; k < 2; k++) { switch (mc::range(0, 6)) { case 0: r.ga.stop_condition(nullptr); r.cfg.stop = 5; break; case 1: r.ga.stop_condition(Stop{}); r.cfg.stop = 0; break; case 2: r.ga.on_generation_end(nullptr); r.cfg.callback = false; break; case 3: r.ga.algorithm(nullptr); r.cfg.alg = 1; break; case 4: r.ga.population_size(r.ga.population_size() + 1); break; case 5: r.ga.algorithm(Alg{}); r.cfg.alg = 0; break; case 6: r.ga.track(Met{}, metrics::FitnessMax{}); r.cfg.metrics = true; break; } r.run(mc::range(0, 1), mc::range(1, 4), mc::range(1, 2), mc::pick<size_t>({ 0, 2, 99 }), false); }
}
template<typename T> void tasks(const char* name) { mc::add_task(fmt("%s overloads", name), overloads<T>); mc::add_task(fmt("%s stops", name), stops<T>); mc::add_task(fmt("%s longer", name), longer<T>); mc::add_task(fmt("%s exceptions", name), faults<T>); mc::add_task(fmt("%s changes", name), changes<T>); }
void setup() { mcr::install(); tasks<BinaryGene>("binary"); tasks<IntegerGene>("integer"); tasks<RealGene>("real"); tasks<PermutationGene>("permutation"); }
}
MC_MAIN(setup)
