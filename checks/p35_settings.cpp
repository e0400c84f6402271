// P35: a component has the parameters that were last set, however they were set. All sequences of constructors, setters, copies, moves and assignments; afterwards the getters return the values
// of the model, and the component behaves exactly like one that is constructed with those values.
#include "operators.hpp"
#include "gapp.hpp"
using namespace ops; using mc::fmt; namespace cx = crossover; namespace mu = mutation; using M = std::vector<double>;
namespace {
std::string show(const M& m) { std::string s = "("; for (double d : m) s += fmt("%.6g ", d); return s + ")"; }
template<class C> struct Comp {
    using P = std::unique_ptr<C>; std::string name; M defaults; std::vector<std::function<P(M&)>> make; std::vector<std::pair<std::string, std::function<void(C&, M&)>>> set; std::function<P(const M&)> full; std::function<M(const C&)> get; std::function<std::string(C&)> behave;
    /** A setter of the i-th parameter, with each of the values. */
    template<class F> Comp& param(const char* what, size_t i, M values, F f) { for (double v : values) set.emplace_back(fmt("%s(%g)", what, v), [=](C& c, M& m) { f(c, v); m[i] = v; }); return *this; }
};
template<class C> void explore(const Comp<C>& c) {
    M m = c.defaults; std::string steps; size_t k = mc::choose(c.make.size()); auto x = c.make[k](m); steps += fmt("constructor %zu", k);
    auto check = [&](const C& y) { M got = c.get(y); MC_CHECK(got == m, "a component does not have the parameters that were set", "%s: %s instead of %s after %s", c.name.c_str(), show(got).c_str(), show(m).c_str(), steps.c_str()); mc::state(mc::hbytes(got.data(), got.size() * sizeof(double), std::hash<std::string>{}(c.name))); };
    check(*x); int depth = mc::depth(3, 4);
    constexpr bool copy = std::is_copy_constructible_v<C> && std::is_copy_assignable_v<C>, move = std::is_move_constructible_v<C> && std::is_move_assignable_v<C>; const size_t extra = copy ? 4 : move ? 2 : 0;
    for (int d = 0; d < depth; d++) {
        size_t s = mc::choose(1 + extra + c.set.size()); if (s == 0) break; mc::step();
        if (s <= extra) {
            if constexpr (move) { if (s == 1) { steps += ", moved"; x = std::make_unique<C>(std::move(*x)); } if (s == 2) { steps += ", move assigned"; M other = c.defaults; auto y = c.make.back()(other); for (auto& f : c.set) f.second(*y, other); *y = std::move(*x); x = std::move(y); } }
            if constexpr (copy) { if (s == 3) { steps += ", copied"; auto y = std::make_unique<C>(*x); M keep = m; if (!c.set.empty()) c.set.back().second(*x, m), check(*x); m = keep; x = std::move(y); } if (s == 4) { steps += ", assigned"; M other = c.defaults; auto y = c.make.back()(other); for (auto& f : c.set) f.second(*y, other); *y = *x; x = std::move(y); } }
        } else { auto& f = c.set[s - 1 - extra]; steps += ", " + f.first; f.second(*x, m); }
        check(*x);
    }
    auto y = c.full(m); auto a = c.behave(*x), b = c.behave(*y); MC_CHECK(a == b, "a component does not behave according to its parameters", "%s with the parameters %s after %s: %s instead of %s", c.name.c_str(), show(m).c_str(), steps.c_str(), a.substr(0, 300).c_str(), b.substr(0, 300).c_str());
    check(*x); mc::state(std::hash<std::string>{}(a));
}
template<class C> void add(Comp<C> c) { mc::add_task(c.name, [c] { explore(c); }); }
// ---- operators
template<typename T> Fx<T>& fixture() { static std::unique_ptr<Fx<T>> fx; if (!fx) { BoundsVector<T> b; if constexpr (is_bounded<T>) for (int i = 0; i < 8; i++) b.push_back({ T(-8 - i), T(9 + i) }); fx = std::make_unique<Fx<T>>(8, b, 1, 10); } return *fx; }
template<typename T> Chromosome<T> chromosome(size_t k) { Chromosome<T> c(8); for (size_t i = 0; i < 8; i++) if constexpr (std::is_same_v<T, BinaryGene>) c[i] = (i + k) % 2; else if constexpr (std::is_same_v<T, PermutationGene>) c[i] = (i * (2 * k + 1) + k) % 8; else c[i] = T((i * 5 + k * 7) % 15) - 6; return c; }
template<typename T, typename C> std::string crossed(C& op) { std::string s; auto& fx = fixture<T>(); auto a = fx.cand(chromosome<T>(0), 2), b = fx.cand(chromosome<T>(1), 1); for (int p = 0; p < mcr::PATTERNS + 4; p++) { if (p < mcr::PATTERNS) mcr::pattern(p, 12); else mcr::reset(p * 31); auto r = cross(fx, op, a, b); s += ops::show(r); } mcr::reset(); return s; }
template<typename T, typename C> std::string changed(C& op) { std::string s; auto& fx = fixture<T>(); for (int p = 0; p < mcr::PATTERNS + 4; p++) { if (p < mcr::PATTERNS) mcr::pattern(p, 12); else mcr::reset(p * 31); s += ops::show(mutated(fx, op, chromosome<T>(p % 3))); } mcr::reset(); return s; }
const M RATES{ 0.0, 0.35, 1.0 };
template<typename T, class C> Comp<C> plain_crossover(const char* name) { Comp<C> c; c.name = name; c.defaults = { 0.8 }; c.make = { [](M&) { return std::make_unique<C>(); }, [](M& m) { m[0] = 0.35; return std::make_unique<C>(0.35); } }; c.param("crossover_rate", 0, RATES, [](C& x, double v) { x.crossover_rate(v); }); c.full = [](const M& m) { return std::make_unique<C>(m[0]); }; c.get = [](const C& x) { return M{ x.crossover_rate() }; }; c.behave = crossed<T, C>; return c; }
template<typename T, class C> Comp<C> points_crossover(const char* name) { Comp<C> c; c.name = name; c.defaults = { 0.8, 0 }; c.make = { [](M& m) { m[1] = 2; return std::make_unique<C>(2_sz); }, [](M& m) { m = { 0.35, 3 }; return std::make_unique<C>(0.35, 3); } }; c.param("crossover_rate", 0, RATES, [](C& x, double v) { x.crossover_rate(v); }).param("num_crossover_points", 1, { 1, 2, 4, 1000 }, [](C& x, double v) { x.num_crossover_points(size_t(v)); }); c.full = [](const M& m) { return std::make_unique<C>(m[0], size_t(m[1])); }; c.get = [](const C& x) { return M{ x.crossover_rate(), double(x.num_crossover_points()) }; }; c.behave = crossed<T, C>; return c; }
template<typename T, class C, class F, class G> Comp<C> param_crossover(const char* name, const char* what, double def, M values, F set, G get) { Comp<C> c; c.name = name; c.defaults = { 0.8, def }; double first = values[0]; c.make = { [](M&) { return std::make_unique<C>(); }, [](M& m) { m[0] = 0.35; return std::make_unique<C>(0.35); }, [first](M& m) { m = { 0.35, first }; return std::make_unique<C>(0.35, first); } }; c.param("crossover_rate", 0, RATES, [](C& x, double v) { x.crossover_rate(v); }).param(what, 1, values, set); c.full = [](const M& m) { return std::make_unique<C>(m[0], m[1]); }; c.get = [get](const C& x) { return M{ x.crossover_rate(), get(x) }; }; c.behave = crossed<T, C>; return c; }
template<typename T, class C> Comp<C> plain_mutation(const char* name) { Comp<C> c; c.name = name; c.defaults = { 0 }; c.make = { [](M& m) { m[0] = 0.35; return std::make_unique<C>(0.35); } }; c.param("mutation_rate", 0, RATES, [](C& x, double v) { x.mutation_rate(v); }); c.full = [](const M& m) { return std::make_unique<C>(m[0]); }; c.get = [](const C& x) { return M{ x.mutation_rate() }; }; c.behave = changed<T, C>; return c; }
template<typename T, class C, class F, class G> Comp<C> param_mutation(const char* name, const char* what, double def, M values, F set, G get) { Comp<C> c; c.name = name; c.defaults = { 0, def }; double first = values[0]; c.make = { [](M& m) { m[0] = 0.35; return std::make_unique<C>(0.35); }, [first](M& m) { m = { 0.35, first }; return std::make_unique<C>(0.35, first); } }; c.param("mutation_rate", 0, RATES, [](C& x, double v) { x.mutation_rate(v); }).param(what, 1, values, set); c.full = [](const M& m) { return std::make_unique<C>(m[0], m[1]); }; c.get = [get](const C& x) { return M{ x.mutation_rate(), get(x) }; }; c.behave = changed<T, C>; return c; }
// ---- selections, replacements, stop conditions: short runs
struct Score final : FitnessFunctionBase<IntegerGene> { Score() : FitnessFunctionBase(2) {} FitnessVector invoke(const Chromosome<IntegerGene>& c) const override { return { double(c[0] * 3 % 17 + c[1]) }; } };
std::string trace(IntegerGA& ga, size_t gens) { std::string s; ga.on_generation_end([&](const GaInfo& g) { s += fmt("|%zu:", g.generation_cntr()); for (auto& c : ga.population()) s += fmt("%g ", c.fitness[0]); }); ga.solve(Score{}, BoundsVector<IntegerGene>(2, { 0, 40 }), gens); return s; }
template<class C> std::string selecting(C& sel) { std::string s; for (int k = 1; k <= 3; k++) { mcr::reset(k * 17); IntegerGA ga(6); ga.algorithm(algorithm::SingleObjective(sel, replacement::KeepChildren{})); s += trace(ga, 4); } mcr::reset(); return s; }
template<class C> std::string replacing(C& rep) { std::string s; for (int k = 1; k <= 3; k++) { mcr::reset(k * 17); IntegerGA ga(6); ga.algorithm(algorithm::SingleObjective(selection::Tournament{}, rep)); s += trace(ga, 4); } mcr::reset(); return s; }
/** The means and maxima of the scripted generations grow by less and less. */
struct Script final : FitnessFunctionBase<IntegerGene> { int& gen; explicit Script(int& g) : FitnessFunctionBase(2), gen(g) {} FitnessVector invoke(const Chromosome<IntegerGene>&) const override { static const double V[] = { 0, 1, 2, 2.5, 2.75, 2.875, 3, 3, 3.0625, 3.0625, 3.0625, 3.5, 3.5, 3.5, 3.5, 3.5, 3.5, 3.5, 3.5, 3.5 }; return { V[std::min(gen, 19)] }; } };
template<class C> std::string stopping_at(C& stop) { std::string s; for (int k = 1; k <= 2; k++) { mcr::reset(k * 17); int gen = 0; IntegerGA ga(3); ga.algorithm(algorithm::SingleObjective(selection::Tournament{}, replacement::KeepChildren{})); ga.mutation_rate(1.0); ga.stop_condition(stop); ga.on_generation_end([&](const GaInfo& g) { gen++; s += fmt("%zu ", g.generation_cntr()); }); ga.solve(Script{ gen }, BoundsVector<IntegerGene>(2, { 0, 1 << 30 }), 18); s += "|"; } mcr::reset(); return s; }
template<class C, class F, class G> Comp<C> one(const char* name, const char* what, double def, bool has_default, M values, F set, G get, std::function<std::string(C&)> behave) { Comp<C> c; c.name = name; c.defaults = { def }; double first = values[0]; if (has_default) if constexpr (std::is_default_constructible_v<C>) c.make.push_back([](M&) { return std::make_unique<C>(); }); using V = std::remove_cvref_t<decltype(get(std::declval<const C&>()))>; c.make.push_back([first](M& m) { m[0] = first; return std::make_unique<C>(V(first)); }); c.param(what, 0, values, [set](C& x, double v) { set(x, V(v)); }); c.full = [](const M& m) { return std::make_unique<C>(V(m[0])); }; c.get = [get](const C& x) { return M{ double(get(x)) }; }; c.behave = behave; return c; }
template<class C> Comp<C> stall(const char* name) { Comp<C> c; c.name = name; c.defaults = { 0, 1e-6 }; c.make = { [](M& m) { m[0] = 2; return std::make_unique<C>(2); }, [](M& m) { m = { 3, 0.3 }; return std::make_unique<C>(3, 0.3); } }; c.param("patience", 0, { 0, 1, 4 }, [](C& x, double v) { x.patience(size_t(v)); }).param("delta", 1, { 0.0, 0.1, 0.6 }, [](C& x, double v) { x.delta(v); }); c.full = [](const M& m) { return std::make_unique<C>(size_t(m[0]), m[1]); }; c.get = [](const C& x) { return M{ double(x.patience()), x.delta() }; }; c.behave = stopping_at<C>; return c; }
// ---- the settings of a GA: population size, generations, all solutions, the crossover's rate and parameter, the mutation's rate and parameter, the stop condition's limit
using Blx = cx::real::BLXa; using Gauss = mu::real::Gauss;
struct Sphere final : FitnessFunctionBase<RealGene> { Sphere() : FitnessFunctionBase(3) {} FitnessVector invoke(const Chromosome<RealGene>& c) const override { return { -c[0] * c[0] - std::abs(c[1]) + std::floor(c[2]) }; } };
/** A crossover given as a callable. */
CandidatePair<RealGene> callable(const GA<RealGene>&, const Candidate<RealGene>& a, const Candidate<RealGene>& b) { Candidate<RealGene> x(a.chromosome), y(b.chromosome); std::swap(x.chromosome[0], y.chromosome[0]); return { x, y }; }
struct Ga { RCGA ga; template<class... A> explicit Ga(A&&... a) : ga(std::forward<A>(a)...) {} };
Comp<Ga> whole() {
    Comp<Ga> c; c.name = "GA"; c.defaults = { 100, 500, 0, 0.8, 0.5, 0.1, 6.0, 1e9 }; using S = algorithm::SingleObjective; auto stop = [](double n) { return stopping::FitnessEvals(size_t(n)); };
    auto rest = [=](Ga& g, M& m, int from) { if (from < 1) g.ga.crossover_method(Blx(0.6, 0.2)); if (from < 2) g.ga.mutation_method(Gauss(0.3, 2.0)); if (from < 3) g.ga.stop_condition(stop(1e9)); m[3] = 0.6, m[4] = 0.2, m[5] = 0.3, m[6] = 2.0; };
    c.make = { [=](M& m) { auto g = std::make_unique<Ga>(); rest(*g, m, 0); return g; }, [=](M& m) { m[0] = 5; auto g = std::make_unique<Ga>(5); rest(*g, m, 0); return g; }, [=](M& m) { m[0] = 5; auto g = std::make_unique<Ga>(5, S{}); rest(*g, m, 0); return g; }, [=](M& m) { m[0] = 5; auto g = std::make_unique<Ga>(5, std::make_unique<S>()); rest(*g, m, 0); return g; },
        [=](M& m) { m[0] = 5; auto g = std::make_unique<Ga>(5, Blx(0.6, 0.2), Gauss(0.3, 2.0)); rest(*g, m, 2); return g; }, [=](M& m) { m[0] = 5; m[7] = 11; auto g = std::make_unique<Ga>(5, Blx(0.6, 0.2), Gauss(0.3, 2.0), stop(11)); rest(*g, m, 3); return g; }, [=](M& m) { m[0] = 5; m[7] = 11; auto g = std::make_unique<Ga>(5, S{}, Blx(0.6, 0.2), Gauss(0.3, 2.0), stop(11)); rest(*g, m, 3); return g; },
        [=](M& m) { m[0] = 5; m[7] = 11; auto g = std::make_unique<Ga>(5, std::make_unique<Blx>(0.6, 0.2), std::make_unique<Gauss>(0.3, 2.0), std::make_unique<stopping::FitnessEvals>(11)); rest(*g, m, 3); return g; }, [=](M& m) { m[0] = 5; m[7] = 11; auto g = std::make_unique<Ga>(5, std::make_unique<S>(), std::make_unique<Blx>(0.6, 0.2), std::make_unique<Gauss>(0.3, 2.0), std::make_unique<stopping::FitnessEvals>(11)); rest(*g, m, 3); return g; } };
    c.param("population_size", 0, { 1, 4 }, [](Ga& g, double v) { g.ga.population_size(size_t(v)); }).param("max_gen", 1, { 1, 3 }, [](Ga& g, double v) { g.ga.max_gen(size_t(v)); }).param("keep_all_optimal_solutions", 2, { 0, 1 }, [](Ga& g, double v) { g.ga.keep_all_optimal_solutions(v); }).param("crossover_rate", 3, { 0.0, 0.9 }, [](Ga& g, double v) { g.ga.crossover_rate(v); }).param("mutation_rate", 5, { 0.0, 0.9 }, [](Ga& g, double v) { g.ga.mutation_rate(v); });
    c.set.emplace_back("crossover_method", [](Ga& g, M& m) { g.ga.crossover_method(Blx(0.25, 0.1)); m[3] = 0.25, m[4] = 0.1; }); c.set.emplace_back("crossover_method pointer", [](Ga& g, M& m) { g.ga.crossover_method(std::make_unique<Blx>(0.75, 0.3)); m[3] = 0.75, m[4] = 0.3; }); c.set.emplace_back("crossover_method callable", [](Ga& g, M& m) { g.ga.crossover_method(callable); m[3] = 0.8, m[4] = -1; }); c.set.emplace_back("mutation_method", [](Ga& g, M& m) { g.ga.mutation_method(Gauss(0.45, 3.0)); m[5] = 0.45, m[6] = 3.0; }); c.set.emplace_back("mutation_method pointer", [](Ga& g, M& m) { g.ga.mutation_method(std::make_unique<Gauss>(0.55, 4.0)); m[5] = 0.55, m[6] = 4.0; });
    c.set.emplace_back("stop_condition", [=](Ga& g, M& m) { g.ga.stop_condition(stop(7)); m[7] = 7; }); c.set.emplace_back("stop_condition pointer", [](Ga& g, M& m) { g.ga.stop_condition(std::make_unique<stopping::FitnessEvals>(13)); m[7] = 13; });
    c.full = [](const M& m) { auto g = std::make_unique<Ga>(size_t(m[0]), Blx(m[3], std::max(m[4], 0.0)), Gauss(m[5], m[6]), stopping::FitnessEvals(size_t(m[7]))); g->ga.max_gen(size_t(m[1])); if (m[4] < 0) g->ga.crossover_method(callable), g->ga.crossover_rate(m[3]); g->ga.keep_all_optimal_solutions(m[2]); return g; };
    c.get = [](const Ga& g) { auto& b = g.ga.crossover_method(); auto* blx = dynamic_cast<const Blx*>(&b); auto& n = dynamic_cast<const Gauss&>(g.ga.mutation_method()); auto& s = dynamic_cast<const stopping::FitnessEvals&>(g.ga.stop_condition()); if (b.crossover_rate() != g.ga.crossover_rate() || n.mutation_rate() != g.ga.mutation_rate()) mc::fail("the rates of a GA are not those of its operators", ""); return M{ double(g.ga.population_size()), double(g.ga.max_gen()), double(g.ga.keep_all_optimal_solutions()), b.crossover_rate(), blx ? blx->alpha() : -1.0, n.mutation_rate(), n.sigma(), double(s.max_fitness_evals()) }; };
    c.behave = [](Ga& g) { std::string s; mcr::reset(7); if (g.ga.max_gen() > 10) g.ga.max_gen(4); if (g.ga.population_size() > 10) g.ga.population_size(6); size_t mg = g.ga.max_gen(), ps = g.ga.population_size(); (void)mg; (void)ps;
        g.ga.on_generation_end([&](const GaInfo& i) { s += fmt("|%zu:", i.generation_cntr()); for (auto& x : g.ga.population()) s += fmt("%.9g ", x.fitness[0]); }); auto sol = g.ga.solve(Sphere{}, BoundsVector<RealGene>(3, { -5.0, 6.0 })); for (auto& x : sol) s += fmt("(%.9g) ", x.fitness[0]); mcr::reset(); return s; };
    return c;
}
/** Runs with fewer candidates do not change the settings that are checked. */
void ga_settings() { auto c = whole(); auto b = c.behave; c.behave = [b](Ga& g) { size_t mg = g.ga.max_gen(), ps = g.ga.population_size(); auto s = b(g); if (mg > 10) g.ga.max_gen(mg); if (ps > 10) g.ga.population_size(ps); return s; }; explore(c); }
void setup() {
    mcr::install(); execution_threads(1);
    add(plain_crossover<BinaryGene, cx::binary::SinglePoint>("binary SinglePoint")); add(plain_crossover<BinaryGene, cx::binary::TwoPoint>("binary TwoPoint")); add(plain_crossover<IntegerGene, cx::integer::SinglePoint>("integer SinglePoint")); add(plain_crossover<IntegerGene, cx::integer::TwoPoint>("integer TwoPoint")); add(plain_crossover<RealGene, cx::real::Arithmetic>("Arithmetic")); add(plain_crossover<RealGene, cx::real::Wright>("Wright"));
    add(plain_crossover<PermutationGene, cx::perm::Order1>("Order1")); add(plain_crossover<PermutationGene, cx::perm::Order2>("Order2")); add(plain_crossover<PermutationGene, cx::perm::Position>("Position")); add(plain_crossover<PermutationGene, cx::perm::Cycle>("Cycle")); add(plain_crossover<PermutationGene, cx::perm::Edge>("Edge")); add(plain_crossover<PermutationGene, cx::perm::PMX>("PMX"));
    add(points_crossover<BinaryGene, cx::binary::NPoint>("binary NPoint")); add(points_crossover<IntegerGene, cx::integer::NPoint>("integer NPoint"));
    add(param_crossover<BinaryGene, cx::binary::Uniform>("binary Uniform", "swap_probability", 0.5, { 0.2, 0.0, 1.0 }, [](auto& x, double v) { x.swap_probability(v); }, [](auto& x) { return double(x.swap_probability()); })); add(param_crossover<IntegerGene, cx::integer::Uniform>("integer Uniform", "swap_probability", 0.5, { 0.2, 0.0, 1.0 }, [](auto& x, double v) { x.swap_probability(v); }, [](auto& x) { return double(x.swap_probability()); }));
    add(param_crossover<RealGene, Blx>("BLXa", "alpha", 0.5, { 0.2, 0.0, 3.0 }, [](auto& x, double v) { x.alpha(v); }, [](auto& x) { return x.alpha(); })); add(param_crossover<RealGene, cx::real::SimulatedBinary>("SimulatedBinary", "eta", 4.0, { 2.0, 0.0, 9.0 }, [](auto& x, double v) { x.eta(v); }, [](auto& x) { return x.eta(); }));
    add(plain_mutation<BinaryGene, mu::binary::Flip>("Flip")); add(plain_mutation<IntegerGene, mu::integer::Uniform>("integer Uniform mutation")); add(plain_mutation<RealGene, mu::real::Uniform>("real Uniform mutation")); add(plain_mutation<RealGene, mu::real::Boundary>("Boundary")); add(plain_mutation<PermutationGene, mu::perm::Swap2>("Swap2")); add(plain_mutation<PermutationGene, mu::perm::Swap3>("Swap3"));
    add(param_mutation<RealGene, mu::real::NonUniform>("NonUniform", "beta", 2.0, { 0.5, 0.0, 8.0 }, [](auto& x, double v) { x.beta(v); }, [](auto& x) { return x.beta(); })); add(param_mutation<RealGene, Gauss>("Gauss", "sigma", 6.0, { 1.0, 0.25, 50.0 }, [](auto& x, double v) { x.sigma(v); }, [](auto& x) { return x.sigma(); })); add(param_mutation<RealGene, mu::real::Polynomial>("Polynomial", "eta", 40.0, { 3.0, 0.0, 100.0 }, [](auto& x, double v) { x.eta(v); }, [](auto& x) { return x.eta(); }));
    auto range = [](auto& x, double v) { x.range_max(v); }; auto max = [](auto& x) { return double(x.range_max()); }; add(param_mutation<PermutationGene, mu::perm::Inversion>("Inversion", "range_max", 0.75, { 0.4, 0.0, 1.0 }, range, max)); add(param_mutation<PermutationGene, mu::perm::Shuffle>("Shuffle", "range_max", 0.5, { 0.4, 0.0, 1.0 }, range, max)); add(param_mutation<PermutationGene, mu::perm::Shift>("Shift", "range_max", 0.75, { 0.4, 0.0, 1.0 }, range, max));
    using namespace selection; add(one<Tournament>("Tournament", "size", 2, true, { 3, 1, 5 }, [](auto& x, size_t v) { x.size(v); }, [](auto& x) { return x.size(); }, selecting<Tournament>)); add(one<Sigma>("Sigma", "scale", 3.0, true, { 1.5, 0.5, 9.0 }, [](auto& x, double v) { x.scale(v); }, [](auto& x) { return x.scale(); }, selecting<Sigma>));
    { Comp<Rank> c; c.name = "Rank"; c.defaults = { 0.1, 1.1 }; c.make = { [](M&) { return std::make_unique<Rank>(); }, [](M& m) { m[0] = 0.5; return std::make_unique<Rank>(0.5); }, [](M& m) { m = { 0.25, 2.0 }; return std::make_unique<Rank>(0.25, 2.0); } }; for (auto [a, b] : std::vector<std::pair<double, double>>{ { 0.0, 1.0 }, { 1.0, 1.0 }, { 0.5, 8.0 }, { 0.1, 3.0 } }) c.set.emplace_back(fmt("weights(%g, %g)", a, b), [a = a, b = b](Rank& r, M& m) { r.weights(a, b); m = { a, b }; });
      c.full = [](const M& m) { return std::make_unique<Rank>(m[0], m[1]); }; c.get = [](const Rank& r) { if (r.weights() != std::pair<double, double>(r.min_weight(), r.max_weight())) mc::fail("the weights of a selection are inconsistent", ""); return M{ r.min_weight(), r.max_weight() }; }; c.behave = selecting<Rank>; add(c); }
    add(one<replacement::Elitism>("Elitism", "elite_num", 1, true, { 2, 0, 6 }, [](auto& x, size_t v) { x.elite_num(v); }, [](auto& x) { return x.elite_num(); }, replacing<replacement::Elitism>));
    add(one<stopping::FitnessEvals>("FitnessEvals", "max_fitness_evals", 0, false, { 10, 1, 30 }, [](auto& x, size_t v) { x.max_fitness_evals(v); }, [](auto& x) { return x.max_fitness_evals(); }, stopping_at<stopping::FitnessEvals>));
    { using F = stopping::FitnessValue; Comp<F> c; c.name = "FitnessValue"; c.defaults = { 0 }; c.make = { [](M& m) { m[0] = 2; return std::make_unique<F>(FitnessVector{ 2.0 }); } }; c.param("fitness_threshold", 0, { 0.5, 3.0, 100.0 }, [](F& x, double v) { x.fitness_threshold({ v }); }); c.full = [](const M& m) { return std::make_unique<F>(FitnessVector{ m[0] }); }; c.get = [](const F& x) { return M(x.fitness_threshold().begin(), x.fitness_threshold().end()); }; c.behave = stopping_at<F>; add(c); }
    add(stall<stopping::FitnessMeanStall>("FitnessMeanStall")); add(stall<stopping::FitnessBestStall>("FitnessBestStall")); mc::add_task("GA", ga_settings);
}
}
MC_MAIN(setup)
