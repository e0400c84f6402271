// P30: consecutive runs of one object. Sequences of settings and runs, compared to a new object with the same settings and to the documented defaults.
#include "operators.hpp"
#include <typeinfo>
using namespace ops; using mc::fmt;
namespace {
struct Fault { int id; };
template<typename T> struct Ops; // operators that are not the default ones, with rates of their own
template<> struct Ops<BinaryGene> { using X = crossover::binary::SinglePoint; using M = mutation::binary::Flip; static double rate(size_t n) { return 1.0 / n; } };
template<> struct Ops<IntegerGene> { using X = crossover::integer::TwoPoint; using M = mutation::integer::Uniform; static double rate(size_t n) { return 1.0 / n; } };
template<> struct Ops<RealGene> { using X = crossover::real::Arithmetic; using M = mutation::real::Boundary; static double rate(size_t n) { return 1.0 / n; } };
template<> struct Ops<PermutationGene> { using X = crossover::perm::Cycle; using M = mutation::perm::Swap3; static double rate(size_t) { return 0.6; } };
/** Values that depend on everything; a small number of different ones, so that ties are frequent. */
template<typename T> struct Fn final : FitnessFunctionBase<T> { size_t obj; int fault; mutable int calls = 0; Fn(size_t len, size_t obj_, int fault_ = 999, bool dynamic = false) : FitnessFunctionBase<T>(len, dynamic ? FitnessFunctionBase<T>::Type::Dynamic : FitnessFunctionBase<T>::Type::Static), obj(obj_), fault(fault_) {}
    FitnessVector invoke(const Chromosome<T>& c) const override { if (calls++ == fault) throw Fault{ 1 }; FitnessVector f; for (size_t k = 0; k < obj; k++) { double s = 0; for (size_t i = 0; i < c.size(); i++) s += double(c[i]) * double((i + 1) * (k + 2) % 5 + 1) * (k ? 1 : -1); f.push_back(s); } return f; } };
template<typename T> BoundsVector<T> bounds(size_t n) { if constexpr (std::is_same_v<T, IntegerGene>) { BoundsVector<T> b; for (size_t i = 0; i < n; i++) b.push_back({ -int(n), int(i) + 2 }); return b; } else if constexpr (std::is_same_v<T, RealGene>) { BoundsVector<T> b; for (size_t i = 0; i < n; i++) b.push_back({ -double(n), i + 2.0 }); return b; } else return {}; }
template<typename T> Chromosome<T> preset(size_t len, size_t k) { Chromosome<T> c(len); for (size_t i = 0; i < len; i++) c[i] = std::is_same_v<T, PermutationGene> ? (k + i) % len : std::is_same_v<T, BinaryGene> ? (k >> (i % 2)) & 1 : (i + k) % 3; return c; }
enum Kind { DEFAULT, SINGLE, TWO, THREE };
/** What is expected of an object: which choices have been made explicitly. */
struct Model { size_t pop = 3, cache = 0, max_gen = 500; Kind alg = DEFAULT; std::optional<double> pm, pc; bool keep = false, track = false, repair = false; };
template<typename T> using G = typename GaOf<T>::type;
struct Step { size_t obj, len, gens, presets; bool implicit = false, dynamic = false; };
constexpr double MADE = 0.25, CROSSED = 0.9;
template<typename T> std::unique_ptr<G<T>> build(int how, Model& m) {
    using X = typename Ops<T>::X; using M = typename Ops<T>::M; using UA = std::unique_ptr<algorithm::Algorithm>; using UX = std::unique_ptr<crossover::Crossover<T>>; using UM = std::unique_ptr<mutation::Mutation<T>>; using US = std::unique_ptr<stopping::StopCondition>; m = {}; if (how >= 3) m.pm = MADE, m.pc = CROSSED; auto x = [] { return UX(new X(CROSSED)); }; auto mu = [] { return UM(new M(MADE)); };
    switch (how) {
        case 0: return std::make_unique<G<T>>(3); case 1: return std::make_unique<G<T>>(3, UA{}); case 2: m.alg = TWO; return std::make_unique<G<T>>(3, algorithm::NSGA2{});
        case 3: return std::make_unique<G<T>>(3, X(CROSSED), M(MADE)); case 4: return std::make_unique<G<T>>(3, x(), mu()); case 5: return std::make_unique<G<T>>(3, x(), mu(), US{}); case 6: return std::make_unique<G<T>>(3, UA{}, x(), mu());
        case 7: m.alg = SINGLE; return std::make_unique<G<T>>(3, algorithm::SingleObjective{}, X(CROSSED), M(MADE)); case 8: m.alg = THREE; return std::make_unique<G<T>>(3, UA(new algorithm::NSGA3), x(), mu(), US{}); case 9: return std::make_unique<G<T>>(3, X(CROSSED), M(MADE), stopping::FitnessEvals(1000)); case 10: m.alg = TWO; return std::make_unique<G<T>>(3, algorithm::NSGA2{}, X(CROSSED), M(MADE), stopping::NoEarlyStop{}); default: m.alg = SINGLE; m.pm = std::nullopt, m.pc = std::nullopt; return std::make_unique<G<T>>(3, UA(new algorithm::SingleObjective(selection::Tournament(3))));
    }
}
constexpr int CTORS = 12, EDITS = 34;
/** The settings; returns the name. */
template<typename T> const char* edit(std::unique_ptr<G<T>>& p, Model& m, int e) {
    using X = typename Ops<T>::X; using M = typename Ops<T>::M; G<T>& ga = *p;
    switch (e) {
        case 0: return "nothing"; case 1: ga.population_size(m.pop = 1); return "population 1"; case 2: ga.population_size(m.pop = 2); return "population 2"; case 3: ga.population_size(m.pop = 5); return "population 5";
        case 4: ga.algorithm(nullptr); m.alg = DEFAULT; return "no algorithm"; case 5: ga.algorithm(std::unique_ptr<algorithm::Algorithm>{}); m.alg = DEFAULT; return "null algorithm"; case 6: ga.algorithm(algorithm::NSGA2{}); m.alg = TWO; return "NSGA2"; case 7: ga.algorithm(std::make_unique<algorithm::NSGA3>()); m.alg = THREE; return "NSGA3"; case 8: ga.algorithm(algorithm::SingleObjective{ selection::Roulette{}, replacement::Elitism(1) }); m.alg = SINGLE; return "roulette"; case 9: ga.algorithm(std::make_unique<algorithm::SingleObjective>(selection::Boltzmann{})); m.alg = SINGLE; return "boltzmann";
        case 10: ga.crossover_rate(0.3); m.pc = 0.3; return "crossover rate"; case 11: ga.crossover_method(X(CROSSED)); m.pc = CROSSED; return "crossover"; case 12: ga.crossover_method(std::make_unique<X>(CROSSED)); m.pc = CROSSED; return "crossover pointer"; case 13: ga.crossover_method([](const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) { return CandidatePair<T>{ b, a }; }); m.pc = std::nullopt; return "crossover function";
        case 14: ga.mutation_rate(0.5); m.pm = 0.5; return "mutation rate"; case 15: ga.mutation_rate(0.0); m.pm = 0.0; return "mutation rate 0"; case 16: ga.mutation_method(M(MADE)); m.pm = MADE; return "mutation"; case 17: ga.mutation_method(std::make_unique<M>(MADE)); m.pm = MADE; return "mutation pointer"; case 18: ga.mutation_method([](const GA<T>& g, const Candidate<T>&, Chromosome<T>& c) { if (rng::randomReal() < g.mutation_rate()) std::swap(c[0], c[1]); }); m.pm = std::nullopt; return "mutation function";
        case 19: ga.cache_size(m.cache = 2); return "cache 2"; case 20: ga.cache_size(m.cache = 0); return "no cache"; case 21: ga.keep_all_optimal_solutions(m.keep = true); return "keep all"; case 22: ga.keep_all_optimal_solutions(m.keep = false); return "keep last";
        case 23: ga.stop_condition(stopping::FitnessEvals(7)); return "stop after 7 evaluations"; case 24: ga.stop_condition(stopping::FitnessMeanStall(1)); return "stop when stalled"; case 25: ga.stop_condition(nullptr); return "never stop"; case 26: ga.track(metrics::FitnessMean{}, metrics::FitnessEvaluations{}, metrics::NadirPoint{}); m.track = true; return "metrics"; case 27: ga.track(); m.track = false; return "no metrics";
        case 28: ga.repair_function([](const GA<T>&, const Chromosome<T>& c) { auto r = c; if (std::is_same_v<T, BinaryGene> || std::is_same_v<T, PermutationGene>) std::reverse(r.begin(), r.end()); else r[0] = 1; return r; }); m.repair = true; return "repair"; case 29: ga.repair_function(nullptr); m.repair = false; return "no repair"; case 30: ga.max_gen(m.max_gen = 2); return "two generations";
        case 31: { auto other = std::make_unique<G<T>>(std::move(ga)); p = std::move(other); return "moved"; } case 32: { auto other = std::make_unique<G<T>>(2); *other = std::move(ga); p = std::move(other); return "move assigned"; } default: ga.algorithm(std::make_unique<algorithm::NSGA2>()); m.alg = TWO; return "NSGA2 pointer";
    }
}
bool fits(const Model& m, const Step& s) { return m.alg == DEFAULT || (m.alg == SINGLE) == (s.obj == 1); }
struct Result { std::string text; bool operator==(const Result&) const = default; };
std::string dump(const auto& pop) { std::string s; for (auto& c : pop) { for (auto g : c.chromosome) s += fmt("%.17g ", double(g)); s += "= "; for (double f : c.fitness) s += fmt("%.17g ", f); s += c.is_evaluated ? "; " : "! "; } return s + "\n"; }
template<typename T> Result run(G<T>& ga, const Model& m, const Step& s, uint64_t seed, const std::string& story, int fault = 999) {
    mcr::reset(seed); mcr::S().stream = seed * 7919 + 13; Result r; Population<T> init; for (size_t i = 0; i < s.presets; i++) init.push_back(Candidate<T>(preset<T>(s.len, i))); size_t gens = s.implicit ? m.max_gen : s.gens; double pm = m.pm.value_or(Ops<T>::rate(s.len));
    auto check = [&](const char* when) {
        MC_CHECK(ga.population_size() == m.pop && ga.population().size() == m.pop, "a run does not use the population size that is set", "%s%s: %zu", story.c_str(), when, ga.population().size()); MC_CHECK(ga.num_objectives() == s.obj && ga.chrom_len() == s.len, "the number of objectives or the length is not that of the run", "%s%s: %zu, %zu", story.c_str(), when, ga.num_objectives(), ga.chrom_len());
        Kind k = m.alg == DEFAULT ? s.obj == 1 ? SINGLE : THREE : m.alg; auto& a = ga.algorithm(); Kind got = dynamic_cast<const algorithm::SingleObjective*>(&a) ? SINGLE : dynamic_cast<const algorithm::NSGA2*>(&a) ? TWO : dynamic_cast<const algorithm::NSGA3*>(&a) ? THREE : DEFAULT; MC_CHECK(got == k, "the algorithm of a run is neither the one that is set nor the default", "%s%s: %d instead of %d", story.c_str(), when, got, k);
        MC_CHECK(ga.mutation_rate() == pm, m.pm ? "a run does not use the mutation rate that is set" : "the mutation rate is not the default of the chromosome length", "%s%s: %g instead of %g", story.c_str(), when, double(ga.mutation_rate()), pm); MC_CHECK(ga.crossover_rate() == m.pc.value_or(0.8), "a run does not use the crossover rate that is set", "%s%s: %g", story.c_str(), when, double(ga.crossover_rate()));
        if constexpr (is_bounded<T>) { bool same = ga.gene_bounds().size() == s.len; auto b = bounds<T>(s.len); for (size_t i = 0; same && i < s.len; i++) same = ga.gene_bounds()[i].lower() == b[i].lower() && ga.gene_bounds()[i].upper() == b[i].upper(); MC_CHECK(same, "a run does not use its bounds", "%s%s", story.c_str(), when); }
        for (auto& c : ga.population()) { MC_CHECK(c.chromosome.size() == s.len && c.fitness.size() == s.obj, "a candidate does not have the form of this run", "%s%s", story.c_str(), when); }
    };
    bool was_called = false; ga.on_generation_end([&](const GaInfo& info) { was_called = true; check("in the callback"); r.text += fmt("%zu %zu: ", info.generation_cntr(), info.num_fitness_evals()) + dump(ga.population()); MC_CHECK(info.max_gen() == gens, "a run does not use its number of generations", "%s: %zu", story.c_str(), info.max_gen()); if (m.track) { auto& f = info.get_metric<metrics::FitnessMean>(); auto& e = info.get_metric<metrics::FitnessEvaluations>(); MC_CHECK(f.size() == info.generation_cntr() + 1, "the metrics have values of another run", "%s: %zu", story.c_str(), f.size()); r.text += fmt("%.17g %zu\n", f[f.size() - 1][0], (size_t)e[e.size() - 1]); } else MC_CHECK(info.get_metric_if<metrics::FitnessMean>() == nullptr, "a metric is tracked that was not asked for", "%s", story.c_str());
        if (info.generation_cntr() == 0) { auto& pop = ga.population(); for (size_t i = 0; i < std::min(m.pop, s.presets); i++) MC_CHECK(pop[i].chromosome == preset<T>(s.len, i), "the initial population does not begin with the given candidates in order", "%s: candidate %zu is %s", story.c_str(), i, show(pop[i].chromosome).c_str()); } });
    Candidates<T> sols; Fn<T> f(s.len, s.obj, fault, s.dynamic);
    if constexpr (is_bounded<T>) sols = s.implicit ? ga.solve(f, bounds<T>(s.len), init) : ga.solve(f, bounds<T>(s.len), s.gens, init); else sols = s.implicit ? ga.solve(f, init) : ga.solve(f, s.gens, init);
    MC_CHECK(was_called && ga.max_gen() == m.max_gen, "a run changes the number of generations that is set", "%s: %zu", story.c_str(), ga.max_gen()); check("after the run"); r.text += fmt("end %zu %zu, draws %zu\n", ga.generation_cntr(), ga.num_fitness_evals(), mcr::S().draws) + dump(sols) + dump(ga.solutions()); mc::step(); return r;
}
Step step(int kind) { static const Step S[] = { { 1, 3, 3, 0 }, { 2, 4, 2, 1 }, { 3, 3, 3, 9 }, { 1, 5, 2, 2 }, { 2, 3, 3, 0 }, { 1, 4, 3, 9, false, true }, { 1, 3, 1, 1 }, { 2, 5, 1, 3 }, { 3, 4, 2, 0, false, true } }; return S[kind]; }
constexpr int STEPS = 9;
/** Applies settings and runs in turn, and compares the last run to that of a new object with the same settings. ctor < 0: all. A run of kind -1 is left out, -2 is ended by an exception. */
template<typename T> void sequence(int ctor, const std::vector<std::vector<int>>& edits, const std::vector<int>& runs) {
    Model m, mf; auto used = build<T>(ctor, m), fresh = build<T>(ctor, mf); std::string story = fmt("constructor %d: ", ctor); uint64_t h = ctor; size_t last = runs.size() - 1;
    for (size_t k = 0; k < runs.size(); k++) { for (int e : edits[k]) { h = mc::hmix(h, e); story += std::string(edit<T>(used, m, e)) + ", "; if (e != 31 && e != 32) edit<T>(fresh, mf, e); } if (k == last) break; if (runs[k] == -1) continue; Step s = step(std::abs(runs[k] == -2 ? 0 : runs[k])); if (!fits(m, s)) { s.obj = m.alg == SINGLE ? 1 : 2; } if (k % 2 && m.max_gen < 10) s.implicit = true; h = mc::hmix(h, runs[k] + 77); story += fmt("run %zu %zu %zu %zu%s, ", s.obj, s.len, s.gens, s.presets, runs[k] == -2 ? " (exception)" : ""); int fault = runs[k] == -2 ? int(1 + h % (m.pop + 3)) : 999; try { run<T>(*used, m, s, 5, story, fault); } catch (const Fault&) {} }
    Step s = step(runs[last]); if (!fits(m, s)) s.obj = m.alg == SINGLE ? 1 : 2; if (m.max_gen < 10 && last % 2 == 0) s.implicit = true; story += fmt("run %zu %zu %zu %zu", s.obj, s.len, s.gens, s.presets); auto a = run<T>(*used, m, s, 9, story), b = run<T>(*fresh, mf, s, 9, story); MC_CHECK(a == b, "a run of a used object differs from that of a new one", "%s:\n%s\n%s", story.c_str(), a.text.c_str(), b.text.c_str()); mc::state(mc::hmix(h, mc::hbytes(a.text.data(), a.text.size())));
}
/** All constructors: the first run, and one after another run. */
template<typename T> void constructors() { int c = mc::range(0, CTORS - 1), e = mc::range(0, EDITS - 1), first = mc::range(-2, STEPS - 1), r = mc::range(0, STEPS - 1); sequence<T>(c, { { e }, {} }, { first, r }); }
/** Two settings in any order before a run, after another run. */
template<typename T> void pairs() { int e1 = mc::range(0, EDITS - 1), e2 = mc::range(0, EDITS - 1), first = mc::pick({ 0, 2 }), r = mc::range(0, mc::depth(3, STEPS - 1)); sequence<T>(0, { {}, { e1, e2 } }, { first, r }); }
/** A setting before each of two runs. */
template<typename T> void twos() { int e1 = mc::range(0, EDITS - 1), e2 = mc::range(0, EDITS - 1), first = mc::range(-2, mc::depth(2, STEPS - 1)), r = mc::range(0, mc::depth(3, STEPS - 1)); if (first == -1) return; sequence<T>(0, { { e1 }, { e2 } }, { first, r }); }
/** A setting before each of three runs. */
template<typename T> void threes() { static const std::vector<int> E{ 0, 1, 3, 4, 6, 8, 14, 18, 19, 21, 24, 26, 28 }; int e1 = mc::pick_from(E), e2 = mc::pick_from(E), e3 = mc::pick_from(E), r1 = mc::pick({ 0, 1 }), r2 = mc::pick({ 2, 3 }), r3 = mc::thorough() ? mc::range(0, STEPS - 1) : mc::pick({ 0, 1 }); sequence<T>(mc::thorough() ? mc::pick({ 0, 3 }) : 0, { { e1 }, { e2 }, { e3 } }, { r1, r2, r3 }); }
/** The population size that is used when none is given. */
template<typename T> void standard() { G<T> ga; MC_CHECK(ga.population_size() == 100 && ga.max_gen() == 500, "the default population size or number of generations is wrong", "%zu, %zu", ga.population_size(), ga.max_gen()); Model m; m.pop = 100; for (int k : { 0, 1, 2, 3, 5 }) run<T>(ga, m, step(k), 3, "default object"); }
template<typename T> void tasks(const char* n) { mc::add_task(fmt("%s constructors", n), constructors<T>); mc::add_task(fmt("%s pairs", n), pairs<T>); mc::add_task(fmt("%s two runs", n), twos<T>); mc::add_task(fmt("%s three runs", n), threes<T>); mc::add_task(fmt("%s defaults", n), standard<T>); }
void setup() { mcr::install(); tasks<BinaryGene>("binary"); tasks<IntegerGene>("integer"); tasks<RealGene>("real"); tasks<PermutationGene>("permutation"); }
}
MC_MAIN(setup)
