// P14: the solutions of a run. Runs with dictated populations and fitness values; the returned solutions are compared to the optima of the populations seen in the callbacks.
#include "operators.hpp"
#include "nsga.hpp"
using namespace ops; using ns::V; using ns::VV; using mc::fmt;
namespace {
template<typename T> using Chrom = Chromosome<T>;
template<typename T> const std::vector<Chrom<T>>& menu() { if constexpr (std::is_same_v<T, PermutationGene>) { static const std::vector<Chrom<T>> m{ { 1, 0, 2 }, { 0, 1, 2 }, { 2, 1, 0 }, { 0, 2, 1 } }; return m; } else if constexpr (std::is_same_v<T, RealGene>) { static const std::vector<Chrom<T>> m{ { 0.5, 0.25, 1 }, { 0.5, std::nextafter(0.25, 1.0), 1 }, { 0, 1, 0 }, { 1, 0, 0 } }; return m; } else { static const std::vector<Chrom<T>> m{ { 0, 1, 1 }, { 1, 0, 1 }, { 1, 1, 0 }, { 0, 1, 0 } }; return m; } }
template<typename T> BoundsVector<T> bounds(size_t n) { if constexpr (std::is_same_v<T, IntegerGene>) return BoundsVector<T>(n, Bounds<T>{ 0, 3 }); else if constexpr (std::is_same_v<T, RealGene>) return BoundsVector<T>(n, Bounds<T>{ 0.0, 3.0 }); else return {}; }
template<typename T> struct Fn final : FitnessFunctionBase<T> { std::function<V(const Chrom<T>&)> f; Fn(size_t len, bool dynamic, std::function<V(const Chrom<T>&)> f_) : FitnessFunctionBase<T>(len, dynamic ? FitnessFunctionBase<T>::Type::Dynamic : FitnessFunctionBase<T>::Type::Static), f(std::move(f_)) {} FitnessVector invoke(const Chrom<T>& c) const override { return gs::fv(f(c)); } };
/** An algorithm that names its solutions itself. */
struct Named final : algorithm::Algorithm { mutable size_t turn = 0; void prepareSelectionsImpl(const GaInfo&, const FitnessMatrix&) override { turn = 0; } size_t selectImpl(const GaInfo& ga, const FitnessMatrix&) const override { return turn++ % ga.population_size(); } small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix& m) override { small_vector<size_t> r; for (size_t i = 0; i < ga.population_size(); i++) r.push_back(m.size() - 1 - i); return r; }
    small_vector<size_t> optimalSolutionsImpl(const GaInfo& ga) const override { small_vector<size_t> r; auto& m = ga.fitness_matrix(); for (size_t i = m.size(); i-- > 0;) { bool dom = false; V a(m[i].begin(), m[i].end()); for (auto row : m) dom |= ns::dominates(V(row.begin(), row.end()), a); if (!dom) r.push_back(i); } return r; } };
std::unique_ptr<algorithm::Algorithm> make(int alg) { switch (alg) { case 0: return std::make_unique<gs::TakeChildren>(); case 1: return std::make_unique<algorithm::NSGA2>(); case 2: return std::make_unique<algorithm::NSGA3>(); case 3: return std::make_unique<Named>(); case 4: return std::make_unique<algorithm::SingleObjective>(); default: return std::make_unique<algorithm::SingleObjective>(selection::Tournament(1), replacement::Elitism(1)); } }
int alg_for(size_t d, bool all = true) { return all ? d == 1 ? mc::pick({ 0, 3, 4, 5 }) : mc::pick({ 0, 1, 2, 3 }) : d == 1 ? mc::pick({ 0, 5 }) : mc::pick({ 0, 1, 2 }); }
/** The results of one run after another of an object. */
template<typename T> struct Runs {
    typename GaOf<T>::type ga; bool keep; using Seen = std::pair<Chrom<T>, V>; std::vector<std::vector<Seen>> gens;
    Runs(size_t pop, std::unique_ptr<algorithm::Algorithm> a, bool keep_) : ga(pop), keep(keep_) { mcr::reset(); ga.algorithm(std::move(a)); ga.crossover_rate(0.0); ga.keep_all_optimal_solutions(keep); ga.on_generation_end([this](const GaInfo&) { gens.emplace_back(); for (auto& c : ga.population()) gens.back().push_back({ c.chromosome, V(c.fitness.begin(), c.fitness.end()) }); }); }
    static std::vector<Seen> front(const std::vector<Seen>& p) { std::vector<Seen> r; for (auto& a : p) { bool dom = false; for (auto& b : p) dom |= ns::dominates(b.second, a.second); if (!dom) r.push_back(a); } return r; }
    std::string text() const { std::string s; for (auto& g : gens) { for (auto& c : g) s += show(c.first) + "=" + ns::show(VV{ c.second }) + " "; s += "| "; } return s; }
    /** next() gives the chromosomes of the children in order. */
    void run(size_t len, const std::vector<Chrom<T>>& first, size_t n, bool dynamic, std::function<Chrom<T>()> next, std::function<V(const Chrom<T>&)> f) {
        gens.clear(); ga.mutation_method([&](const GA<T>&, const Candidate<T>&, Chrom<T>& c) { c = next(); }); Population<T> init; for (auto& c : first) init.push_back(Candidate<T>(c)); Candidates<T> sols; std::vector<Seen> all; bool loose = dynamic && keep; Fn<T> fn(len, dynamic, f); if constexpr (is_bounded<T>) sols = ga.solve(fn, bounds<T>(len), n, init); else sols = ga.solve(fn, n, init);
        std::vector<Seen> want; if (keep) { for (auto& g : gens) for (auto& c : front(g)) want.push_back(c); all = want; want = front(want); } else want = front(gens.back()); // with a dynamic function any one of the values of a chromosome may be kept, and count MC_CHECK(gens.size() == n, "a run has the wrong number of generations", "%zu", gens.size());
        for (size_t i = 0; i < sols.size(); i++) { auto& s = sols[i]; bool known = false; for (auto& c : loose ? all : want) known |= c.first == s.chromosome && V(s.fitness.begin(), s.fitness.end()) == c.second; MC_CHECK(s.is_evaluated, "a returned solution is not evaluated", "%s", text().c_str()); MC_CHECK(known, keep ? "a returned solution is not one of the optima of all generations" : "a returned solution is not an optimum of the last generation", "%s with %s, %s", show(s.chromosome).c_str(), ns::show(VV{ V(s.fitness.begin(), s.fitness.end()) }).c_str(), text().c_str()); for (size_t j = 0; j < sols.size(); j++) MC_CHECK(!ns::dominates(V(sols[j].fitness.begin(), sols[j].fitness.end()), V(s.fitness.begin(), s.fitness.end())), "a returned solution is dominated by another one", "%s", text().c_str()); for (size_t j = 0; j < i; j++) MC_CHECK(sols[j].chromosome != s.chromosome, "a solution is returned twice", "%s, %s", show(s.chromosome).c_str(), text().c_str()); }
        for (auto& c : want) { bool found = false; if (loose) for (auto& o : all) found |= o.first == c.first && o.second != c.second; for (auto& s : sols) found |= s.chromosome == c.first; MC_CHECK(found, keep ? "an optimum of all generations is not returned" : "an optimum of the last generation is not returned", "%s, %s", show(c.first).c_str(), text().c_str()); }
        auto& again = ga.solutions(); bool same = again.size() == sols.size(); for (auto& a : again) { bool found = false; for (auto& s : sols) found |= s.chromosome == a.chromosome && s.fitness == a.fitness; same &= found; } MC_CHECK(same, "the algorithm object reports other solutions than the run returned", "%zu and %zu, %s", again.size(), sols.size(), text().c_str());
        uint64_t h = mc::hmix(keep * 2 + dynamic, sols.size()); for (auto& g : gens) for (auto& c : g) h = mc::hmix(mc::hbytes(c.first.data(), c.first.size() * sizeof(T), h), mc::hbytes(c.second.data(), c.second.size() * 8)); mc::state(h); mc::step();
    }
};
/** All fitness values for a few chromosomes, all populations of these. */
template<typename T> void equal_chromosomes(size_t pop, size_t gens, size_t k, size_t d, V values) { bool keep = mc::flip(); int alg = alg_for(d, gens < 3 || mc::thorough()); VV fit; auto& m = menu<T>(); for (size_t i = 0; i < k; i++) { V v; for (size_t j = 0; j < d; j++) v.push_back(mc::pick_from(values)); fit.push_back(v); } std::vector<Chrom<T>> first; for (size_t i = 0; i < pop; i++) first.push_back(m[i == 0 && k > 2 ? 0 : mc::choose(k)]);
    Runs<T> r(pop, make(alg), keep); auto f = [&](const Chrom<T>& c) -> V { for (size_t i = 0; i < k; i++) if (m[i] == c) return fit[i]; return V(d, -1.0); }; r.run(3, first, gens, false, [&] { return m[mc::choose(k)]; }, f);
}
/** Dynamic functions: the same chromosome may get another fitness in every generation. */
template<typename T> void dynamic(size_t pop, size_t gens, size_t d, V values) {
    math::ScopedTolerances exact(0, 0); bool keep = mc::flip(); int alg = d == 1 ? mc::pick({ 0, 5 }) : mc::pick({ 0, 1, 2 }); auto& m = menu<T>(); std::vector<Chrom<T>> first; for (size_t i = 0; i < pop; i++) first.push_back(m[i == 0 ? 0 : mc::choose(2)]); size_t calls = 0; Runs<T> r(pop, make(alg), keep); r.run(3, first, gens, true, [&] { return m[mc::choose(2)]; }, [&](const Chrom<T>&) -> V { V v(d); if (calls++ > 0) for (double& x : v) x = mc::pick_from(values); return v; });
}
/** Every candidate has a chromosome of its own, except for copies of parents; up to three runs of an object. */
void histories(size_t pop, size_t gens, size_t d, V values) {
    math::ScopedTolerances exact(0, 0); bool keep = mc::flip(); int alg = d == 1 ? mc::pick({ 0, 5 }) : mc::pick({ 0, 1, 2 }); VV fit; for (size_t i = 0; i < pop * gens; i++) { V v; for (size_t j = 0; j < d; j++) v.push_back(mc::pick_from(values)); fit.push_back(v); }
    Runs<BinaryGene> r(pop, make(alg), keep); for (int rev = 0; rev < 2; rev++) { size_t next = pop; auto id = [&](size_t i) { return ns::chrom(rev ? pop * gens - 1 - i : i); }; std::vector<Chrom<BinaryGene>> first; for (size_t i = 0; i < pop; i++) first.push_back(id(i)); r.run(10, first, gens, false, [&] { return id(next++); }, [&](const Chrom<BinaryGene>& c) -> V { size_t i = ns::id_of(c); return i < fit.size() ? fit[i] : V(d, -1.0); }); }
}
/** Larger populations without and with ties, three runs of an object with other settings. */
void large(size_t pop, size_t maxgens) {
    math::ScopedTolerances exact(0, 0); size_t gens = maxgens > 4 ? mc::pick<size_t>({ 30, 64, 65, 130 }) : mc::range(1, maxgens), d = mc::range(1, 4); int alg = d == 1 ? mc::pick({ 0, 3, 4, 5 }) : mc::pick({ 0, 1, 2, 3 }), style = mc::range(0, 3); uint64_t seed = mc::range(1, mc::depth(2, 6)); Runs<BinaryGene> r(pop, make(alg), mc::flip());
    for (int k = 0; k < 3; k++) { VV fit = ns::points(1 << 10, d, seed + k * 11, std::min(style, 2)); if (style == 3) for (auto& v : fit) for (double& x : v) x = std::floor(x / 4); size_t next = pop; auto id = [&](size_t i) { return ns::chrom((i * 37 + seed) % (style == 3 ? pop : 1 << 10)); }; std::vector<Chrom<BinaryGene>> first; for (size_t i = 0; i < pop; i++) first.push_back(id(i)); r.run(10, first, gens, false, [&] { return id(next++); }, [&](const Chrom<BinaryGene>& c) { return fit[ns::id_of(c)]; });
        r.keep = !r.keep; r.ga.keep_all_optimal_solutions(r.keep); if (k == 1 && alg != 2) r.ga.population_size(pop = pop + 1); }
}
template<typename T> void tasks(const char* n) {
    bool t = mc::thorough(), bin = std::is_same_v<T, BinaryGene>; auto add = [&](size_t pop, size_t gens, size_t k, size_t d, V v) { mc::add_task(fmt("%s %zu x %zu, %zu objectives, %zu chromosomes", n, pop, gens, d, k), [=] { equal_chromosomes<T>(pop, gens, k, d, v); }); };
    V two{ 0, 1 }, three{ 0, 1, 2 }; add(1, 3, 3, 1, three); add(2, 2, 3, 1, three); add(3, 1, 3, 2, two); add(1, 3, 3, 2, two); add(2, 2, 3, 2, two); add(4, 1, 4, 1, two);
    if (bin || t) { add(2, 3, 3, 2, two); add(3, 2, 3, 1, two); add(1, 3, 3, 2, three); add(2, 2, 2, 3, three); add(4, 1, 3, 2, two); add(3, 2, 2, 2, two); add(1, 4, 3, 2, two); } if (t && bin) { add(2, 2, 3, 2, three); add(3, 2, 3, 2, two); add(2, 4, 3, 2, two); add(2, 2, 3, 3, two); add(4, 2, 2, 2, two); }
    mc::add_task(fmt("%s dynamic 1", n), [=] { dynamic<T>(1, 3, 2, three); }); mc::add_task(fmt("%s dynamic 2", n), [=] { dynamic<T>(2, 2, 2, two); }); if (t) mc::add_task(fmt("%s dynamic 3", n), [=] { dynamic<T>(2, 3, 2, two); }), mc::add_task(fmt("%s dynamic 4", n), [=] { dynamic<T>(3, 2, 1, three); });
}
void setup() {
    mcr::install(); bool t = mc::thorough(); tasks<BinaryGene>("binary"); tasks<IntegerGene>("integer"); tasks<RealGene>("real"); tasks<PermutationGene>("permutation");
    auto h = [](size_t p, size_t g, size_t d, V v) { mc::add_task(fmt("histories %zu x %zu, %zu objectives, %zu values", p, g, d, v.size()), [=] { histories(p, g, d, v); }); }; double inf = gs::INF; h(1, 3, 2, { 0, 1, 2 }); h(2, 2, 2, { 0, 1, 2 }); h(3, 2, 2, { 0, 1 }); h(2, 3, 2, { 0, 1 }); h(2, 3, 1, { 0, 1, 2 }); h(1, 3, 3, { 0, 1 }); h(2, 2, 3, { 0, 1 }); h(3, 1, 2, { -inf, 0, inf }); h(4, 1, 2, { 0, 1, 2 }); h(4, 2, 1, { 0, 1 }); h(1, 4, 2, { 0, 1, 2 }); if (t) { h(1, 5, 2, { 0, 1, 2 }); h(2, 2, 2, { 0, 1, 2, 3 }); h(3, 2, 2, { 0, 1, 2 }); h(4, 2, 2, { 0, 1 }); h(2, 3, 3, { 0, 1 }); h(3, 3, 1, { 0, 1, 2 }); }
    for (size_t n = 3; n <= (t ? 60u : 20u); n++) mc::add_task(fmt("larger populations %zu", n), [=] { large(n, 4); }); for (size_t n : { 33, 64, 65, 100, 128, 129, 150 }) mc::add_task(fmt("large populations %zu", n), [=] { large(n, 2); }); for (size_t n : { 1, 2, 3, 5 }) mc::add_task(fmt("long runs %zu", n), [=] { large(n, 70); });
}
}
MC_MAIN(setup)
