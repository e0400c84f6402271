// P33: how a generation is bred. Runs in which every selection, crossover, mutation, repair and replacement is a choice of the harness; everything the user-supplied parts are given, and what becomes of their results, is compared to the documented protocol.
#include "operators.hpp"
using namespace ops; using mc::fmt; using Id = size_t; using Ids = std::vector<Id>;
namespace {
/** Chromosomes are numbered; the fitness of a chromosome identifies it. */
template<typename T> constexpr size_t LEN = std::is_same_v<T, BinaryGene> ? 20 : std::is_same_v<T, PermutationGene> ? 9 : 2;
template<typename T> Chromosome<T> encode(Id id) {
    Chromosome<T> c(LEN<T>); if constexpr (std::is_same_v<T, BinaryGene>) for (size_t i = 0; i < c.size(); i++) c[i] = id >> i & 1; else if constexpr (std::is_same_v<T, PermutationGene>) { std::vector<size_t> left(c.size()); std::iota(left.begin(), left.end(), 0); for (size_t i = 0; i < c.size(); i++) { size_t k = id % left.size(); id /= left.size(); c[i] = left[k]; left.erase(left.begin() + k); } } else { c[0] = T(id); c[1] = T(id % 7); } return c; }
template<typename T> Id decode(const Chromosome<T>& c) {
    if (c.size() != LEN<T>) mc::fail("a part gets a chromosome that nobody made", fmt("length %zu", c.size())); Id id = 0;
    if constexpr (std::is_same_v<T, BinaryGene>) for (size_t i = 0; i < c.size(); i++) id |= Id(c[i]) << i; else if constexpr (std::is_same_v<T, PermutationGene>) { std::vector<size_t> left(c.size()); std::iota(left.begin(), left.end(), 0); size_t m = 1; for (size_t i = 0; i < c.size(); i++) { size_t k = std::find(left.begin(), left.end(), c[i]) - left.begin(); id += k * m; m *= left.size(); left.erase(left.begin() + k); } } else id = Id(c[0]);
    MC_CHECK(encode<T>(id) == c, "a part gets a chromosome that nobody made", "%s", show(c).c_str()); return id; }
double value(Id id) { return double(id * 7919 % 400009) - 5e4; }
struct Setup { size_t pop = 2, gens = 2; int parts = 0, rate = 1, dynamic = 0, optimal = 0; bool two = false, keep = false, repair = false; uint64_t hashed = 0; int next = -1; };
struct World {
    Setup s; Id fresh = 1; uint64_t hash = 0; const void* ga = nullptr; Ids pop, sel, made, mut_in, mut_out, rep_in, fin, evals, rows, expected, chosen; std::vector<std::pair<Id, Id>> parents, children; size_t prepared = 0, next_calls = 0, gen = 0, calls = 0; bool ready = false; std::vector<Ids> optima;
    /** One of n outcomes: a choice, or a pseudo random one in the larger runs. */
    size_t pick(size_t n) { if (!s.hashed) return mc::choose(n); return mcr::splitmix(hash) % n; }
};
World W;
std::string show(const Ids& v) { std::string r; for (size_t i = 0; i < v.size() && i < 30; i++) r += fmt("%zu ", v[i]); return r; }
std::string text() { return fmt("generation %zu of a run with %zu candidates (parts %d, rate %d, %s): population %s| selected %s| mutated %s-> %s| evaluated %s| chosen %s", W.gen, W.s.pop, W.s.parts, W.s.rate, W.s.dynamic ? "dynamic" : "static", show(W.pop).c_str(), show(W.sel).c_str(), show(W.mut_in).c_str(), show(W.mut_out).c_str(), show(W.evals).c_str(), show(W.chosen).c_str()); }
Ids sorted(Ids v) { std::sort(v.begin(), v.end()); return v; }
void same_rows(const FitnessMatrix& m, size_t from, const Ids& ids, const char* sig) { for (size_t i = 0; i < ids.size(); i++) MC_CHECK(m[from + i].size() == 1u + W.s.two && m[from + i][0] == value(ids[i]), sig, "row %zu, %s", from + i, text().c_str()); }
void is_current(const GaInfo& ga, const FitnessMatrix& m, const char* who) { MC_CHECK(static_cast<const void*>(&ga) == W.ga, "a part gets another GA", "%s", who); MC_CHECK(m.size() == W.s.pop, "the fitness matrix given to the selection is not the current one", "%zu rows, %s", m.size(), text().c_str()); same_rows(m, 0, W.pop, "the fitness matrix given to the selection is not the current one"); }
void prepare(const GaInfo& ga, const FitnessMatrix& m) { is_current(ga, m, "prepareSelections"); W.prepared++; MC_CHECK(W.sel.empty() && W.mut_in.empty() && W.next_calls == 0, "the selections are prepared after they were used", "%s", text().c_str()); }
size_t pick_parent(const GaInfo& ga, const FitnessMatrix& m) { is_current(ga, m, "select"); MC_CHECK(W.next_calls == 0, "a candidate is selected after the replacement", "%s", text().c_str()); size_t i = W.pick(W.s.pop); W.sel.push_back(W.pop[i]); return i; }
small_vector<size_t> next(const GaInfo& ga, const FitnessMatrix& m) {
    MC_CHECK(static_cast<const void*>(&ga) == W.ga, "a part gets another GA", "nextPopulation"); const size_t n = W.s.pop; MC_CHECK(m.size() == 2 * n, "the replacement does not get the parents and the children", "%zu rows, %s", m.size(), text().c_str()); W.next_calls++;
    same_rows(m, 0, W.pop, "the first half given to the replacement are not the parents"); Ids fin = W.s.repair ? W.fin : W.mut_out; W.rows = W.pop; std::map<double, Id> of; std::map<Id, int> left; for (Id i : fin) of[value(i)] = i, left[i]++;
    for (size_t i = n; i < 2 * n; i++) { auto it = of.find(m[i][0]); MC_CHECK(it != of.end() && left[it->second]-- > 0, "the second half given to the replacement are not the children", "row %zu, %s", i, text().c_str()); W.rows.push_back(it->second); if (W.s.two) MC_CHECK(m[i][1] == -m[i][0], "the second half given to the replacement are not the children", "row %zu", i); }
    Ids idx; int how = W.s.next >= 0 ? W.s.next : n <= 2 && W.gen == 0 && !W.s.hashed ? 9 : (int)W.pick(5);
    Ids all(2 * n); std::iota(all.begin(), all.end(), 0);
    for (size_t i = 0; i < n; i++) switch (how) { case 0: idx.push_back(n + i); break; case 1: idx.push_back(n - 1 - i); break; case 2: idx.push_back(i % 2 ? 2 * n - 1 - i : i); break; case 3: idx.push_back(2 * i + i % 2); break; case 4: idx.push_back(2 * n - 1 - i); break; default: { size_t k = W.pick(all.size()); idx.push_back(all[k]); all.erase(all.begin() + k); } }
    if (how == 3 && n % 2 == 0) for (auto& i : idx) i = std::min(i, 2 * n - 1);
    small_vector<size_t> r; W.chosen.clear(); for (size_t i : idx) { r.push_back(i); W.chosen.push_back(W.rows[i]); } return r;
}
/** The optimal solutions that the algorithm reports: none (the default method is used), the first optimal candidate, or the optimal ones in reverse. */
small_vector<size_t> optimal(const GaInfo& ga) {
    auto& m = ga.fitness_matrix(); small_vector<size_t> r, best; for (size_t i = 0; i < m.size(); i++) { bool dom = false; for (auto b : m) { bool ge = true, gt = false; for (size_t k = 0; k < b.size(); k++) ge &= b[k] >= m[i][k], gt |= b[k] > m[i][k]; dom |= ge && gt; } if (!dom) best.push_back(i); }
    if (W.s.optimal == 1) r.push_back(best.front()); if (W.s.optimal == 2) r.assign(best.rbegin(), best.rend()); Ids ids; for (size_t i : r.empty() ? best : r) ids.push_back(size_t(-1)), ids.back() = i; W.optima.push_back(ids); return r; }
struct Alg final : algorithm::Algorithm { void prepareSelectionsImpl(const GaInfo& g, const FitnessMatrix& m) override { prepare(g, m); } size_t selectImpl(const GaInfo& g, const FitnessMatrix& m) const override { return pick_parent(g, m); } small_vector<size_t> nextPopulationImpl(const GaInfo& g, const FitnessMatrix& m) override { return next(g, m); } small_vector<size_t> optimalSolutionsImpl(const GaInfo& g) const override { return optimal(g); } };
struct Sel final : selection::Selection { void prepareSelectionsImpl(const GaInfo& g, const FitnessMatrix& m) override { prepare(g, m); } size_t selectImpl(const GaInfo& g, const FitnessMatrix& m) const override { return pick_parent(g, m); } };
struct Rep final : replacement::Replacement { small_vector<size_t> nextPopulationImpl(const GaInfo& g, const FitnessMatrix& m) override { return next(g, m); } };
template<typename T> Candidate<T> fresh() { return Candidate<T>(encode<T>(W.fresh++)); }
template<typename T> CandidatePair<T> cross(const GA<T>& ga, const Candidate<T>& a, const Candidate<T>& b) {
    MC_CHECK(static_cast<const void*>(&ga) == W.ga, "a part gets another GA", "crossover"); Id x = decode<T>(a.chromosome), y = decode<T>(b.chromosome); for (auto* p : { &a, &b }) MC_CHECK(p->is_evaluated && p->fitness[0] == value(decode<T>(p->chromosome)), "a parent given to the crossover does not have its fitness", "%s", text().c_str());
    W.parents.emplace_back(x, y); auto pick = [&]() -> CandidatePair<T> { switch (W.pick(4)) { case 0: return { fresh<T>(), fresh<T>() }; case 1: return { a, fresh<T>() }; case 2: return { fresh<T>(), b }; default: return { b, a }; } };
    auto r = pick(); W.children.emplace_back(decode<T>(r.first.chromosome), decode<T>(r.second.chromosome)); return r; }
template<typename T> void mutate(const GA<T>& ga, const Candidate<T>& cand, Chromosome<T>& c) {
    MC_CHECK(static_cast<const void*>(&ga) == W.ga, "a part gets another GA", "mutation"); Id id = decode<T>(c); MC_CHECK(decode<T>(cand.chromosome) == id, "a mutation gets the candidate of another chromosome", "%zu, %s", id, text().c_str()); if (cand.is_evaluated) MC_CHECK(cand.fitness.size() && cand.fitness[0] == value(id), "a candidate given to the mutation does not have its fitness", "%zu, %s", id, text().c_str());
    W.mut_in.push_back(id); if (W.pick(2)) c = encode<T>(W.fresh++); W.mut_out.push_back(decode<T>(c)); }
template<typename T> Chromosome<T> repair(const GA<T>& ga, const Chromosome<T>& c) { MC_CHECK(static_cast<const void*>(&ga) == W.ga, "a part gets another GA", "repair"); W.rep_in.push_back(decode<T>(c)); auto r = W.pick(2) ? encode<T>(W.fresh++) : c; W.fin.push_back(decode<T>(r)); return r; }
template<typename T> struct Cross final : crossover::Crossover<T> { using crossover::Crossover<T>::Crossover; CandidatePair<T> crossover(const GA<T>& g, const Candidate<T>& a, const Candidate<T>& b) const override { return cross<T>(g, a, b); } };
template<typename T> struct Mut final : mutation::Mutation<T> { using mutation::Mutation<T>::Mutation; void mutate(const GA<T>& g, const Candidate<T>& c, Chromosome<T>& x) const override { ::mutate<T>(g, c, x); } };
template<typename T> FitnessVector fitness(const Chromosome<T>& c) { if (W.calls++ == 0) return FitnessVector(1 + W.s.two, 0.0); /* a generated candidate, for the number of objectives */ Id id = decode<T>(c); if (W.ready) W.evals.push_back(id); if (W.s.two) return { value(id), -value(id) }; return { value(id) }; }
template<typename T> struct Fn final : FitnessFunctionBase<T> { Fn() : FitnessFunctionBase<T>(LEN<T>, W.s.dynamic ? FitnessFunctionBase<T>::Type::Dynamic : FitnessFunctionBase<T>::Type::Static) {} FitnessVector invoke(const Chromosome<T>& c) const override { return fitness<T>(c); } };
template<typename T> struct Run {
    using G = typename GaOf<T>::type; G ga; std::set<Id> optima; std::string trace;
    explicit Run(const Setup& s) : ga(s.pop) {
        switch (s.parts) {
            case 0: ga.algorithm(Alg{}); ga.crossover_method(Cross<T>{}); ga.mutation_method(Mut<T>{ 0.5 }); break;
            case 1: ga.algorithm(algorithm::SingleObjective(pick_parent, next)); ga.crossover_method(cross<T>); ga.mutation_method(mutate<T>); break;
            case 2: ga.algorithm(std::make_unique<algorithm::SingleObjective>(std::make_unique<Sel>(), std::make_unique<Rep>())); ga.crossover_method(std::make_unique<Cross<T>>(0.5)); ga.mutation_method(std::make_unique<Mut<T>>(0.5)); break;
            case 3: { algorithm::SingleObjective a; a.selection_method(Sel{}); a.replacement_method(Rep{}); ga.algorithm(std::move(a)); ga.crossover_method(Cross<T>{ 0.5 }); ga.mutation_method(mutate<T>); break; }
            case 4: { algorithm::SingleObjective a; a.selection_method(pick_parent); a.replacement_method(next); ga.algorithm(std::move(a)); ga.crossover_method(cross<T>); ga.mutation_method(Mut<T>{ 0.5 }); break; }
            case 5: { algorithm::SingleObjective a{ Sel{}, Rep{} }; ga.algorithm(std::move(a)); ga.crossover_method(cross<T>); ga.mutation_method(Mut<T>{ 0.5 }); break; }
            case 6: { algorithm::SingleObjective a; a.selection_method(std::make_unique<Sel>()); a.replacement_method(std::make_unique<Rep>()); ga.algorithm(std::move(a)); ga.crossover_method(Cross<T>{ 0.5 }); ga.mutation_method(mutate<T>); break; }
        }
        ga.crossover_rate(s.rate ? 1.0 : 0.0); if (s.repair) ga.repair_function(repair<T>); ga.keep_all_optimal_solutions(s.keep); ga.on_generation_end([this](const GaInfo&) { end(); });
    }
    void end() {
        const auto& s = W.s; const size_t n = s.pop; auto& pop = ga.population(); MC_CHECK(pop.size() == n && ga.fitness_matrix().size() == n, "the population has the wrong size", "%zu, %s", pop.size(), text().c_str()); Ids now; for (auto& c : pop) now.push_back(decode<T>(c.chromosome));
        if (!W.ready) W.ready = true; else {
            MC_CHECK(W.next_calls == 1, "the next population is not selected once per generation", "%zu, %s", W.next_calls, text().c_str()); bool own_prepare = s.parts == 0 || s.parts == 2 || s.parts == 3 || s.parts == 5 || s.parts == 6; MC_CHECK(!own_prepare || W.prepared == 1, "the selections are not prepared once per generation", "%zu, %s", W.prepared, text().c_str());
            MC_CHECK(W.sel.size() == n + n % 2, "the number of selections is wrong", "%zu, %s", W.sel.size(), text().c_str());
            // The children of each pair: the result of the crossover, or copies.
            std::vector<std::pair<Id, Id>> born; size_t used = 0; for (size_t k = 0; k + 1 < W.sel.size(); k += 2) { Id a = W.sel[k], b = W.sel[k + 1]; if (a == b || !s.rate) { born.emplace_back(a, b); continue; } MC_CHECK(used < W.parents.size(), "a pair of parents is not crossed", "%zu and %zu, %s", a, b, text().c_str()); auto [x, y] = W.parents[used]; MC_CHECK((x == a && y == b) || (x == b && y == a), "the parents of a crossover are not two candidates selected one after the other", "%zu %zu instead of %zu %zu, %s", x, y, a, b, text().c_str()); born.push_back(W.children[used++]); }
            MC_CHECK(used == W.parents.size(), "there are too many crossovers", "%zu, %s", W.parents.size(), text().c_str()); Ids all; for (auto& [a, b] : born) all.push_back(a), all.push_back(b); bool ok = W.mut_in.size() == n; auto got = sorted(W.mut_in); all = sorted(all);
            if (n % 2 == 0) ok &= got == all; else { Ids diff; std::set_difference(all.begin(), all.end(), got.begin(), got.end(), std::back_inserter(diff)); ok &= diff.size() == 1 && std::includes(all.begin(), all.end(), got.begin(), got.end()); }
            MC_CHECK(ok, "the mutated candidates are not the children", "children %s, %s", show(all).c_str(), text().c_str()); Ids fin = W.mut_out; if (s.repair) { MC_CHECK(sorted(W.rep_in) == sorted(W.mut_out), "the repaired candidates are not the mutated ones", "%s instead of %s", show(W.rep_in).c_str(), text().c_str()); fin = W.fin; } else MC_CHECK(W.rep_in.empty(), "an unset repair function is used", " ");
            auto ev = sorted(W.evals); fin = sorted(fin); if (s.dynamic) MC_CHECK(ev == fin, "the evaluated candidates are not the children", "children %s, %s", show(fin).c_str(), text().c_str()); else { MC_CHECK(std::includes(fin.begin(), fin.end(), ev.begin(), ev.end()), "a candidate that is no child is evaluated", "children %s, %s", show(fin).c_str(), text().c_str()); for (Id i : fin) MC_CHECK(std::binary_search(ev.begin(), ev.end(), i) || std::find(W.pop.begin(), W.pop.end(), i) != W.pop.end(), "a new child is not evaluated", "%zu, %s", i, text().c_str()); }
            MC_CHECK(now == W.chosen, "the next population does not consist of the chosen candidates in their order", "%s instead of %s", show(now).c_str(), text().c_str()); W.gen++;
        }
        for (size_t i = 0; i < n; i++) MC_CHECK(pop[i].is_evaluated && pop[i].fitness[0] == value(now[i]) && ga.fitness_matrix()[i][0] == value(now[i]) && ga.fitness_matrix()[i].size() == 1u + s.two, "a candidate does not have its fitness", "%zu, %s", now[i], text().c_str());
        trace += show(now) + "| "; W.pop = now; for (auto* v : { &W.sel, &W.mut_in, &W.mut_out, &W.rep_in, &W.fin, &W.evals, &W.chosen }) v->clear(); W.parents.clear(); W.children.clear(); W.prepared = W.next_calls = 0;
        collect(now); mc::state(mc::hmix(mc::hbytes(now.data(), now.size() * sizeof(Id)), W.gen * 16 + s.parts)); mc::step();
    }
    /** What the solutions should be: the candidates the algorithm reported, or the optimal ones. */
    std::vector<Ids> pops; void collect(const Ids& now) { pops.push_back(now); }
    void once(const Setup& s) {
        mcr::reset(); W = {}; W.s = s; W.hash = s.hashed; W.ga = static_cast<const GaInfo*>(&ga); pops.clear(); trace.clear(); Population<T> p; for (size_t i = 0; i < s.pop; i++) p.push_back(fresh<T>()); W.pop.clear(); Candidates<T> sols;
        W.ga = static_cast<const void*>(static_cast<const GaInfo*>(&ga)); MC_CHECK(static_cast<const void*>(static_cast<const GA<T>*>(&ga)) == W.ga, "harness", "layout");
        if constexpr (is_bounded<T>) sols = ga.solve(Fn<T>(), Bounds<T>{ T(0), T(1000000) }, s.gens, p); else sols = ga.solve(Fn<T>(), s.gens, p);
        MC_CHECK(pops.size() == s.gens, "a run has the wrong number of generations", "%zu", pops.size()); MC_CHECK(ga.num_fitness_evals() + 1 == W.calls, "the evaluations are not counted right", "%zu, %zu calls", ga.num_fitness_evals(), W.calls); std::vector<Ids> shown; if (s.keep) shown = pops; else shown = { pops.back() }; std::set<Id> seen, want, got;
        if (s.parts == 0) { MC_CHECK(W.optima.size() == shown.size(), "the algorithm is not asked for the optimal solutions once", "%zu times instead of %zu", W.optima.size(), shown.size()); for (size_t g = 0; g < shown.size(); g++) for (size_t i : W.optima[g]) seen.insert(shown[g][i]); } else for (auto& g : shown) seen.insert(g.begin(), g.end());
        for (Id a : seen) { bool dom = false; if (!s.two) for (Id b : seen) dom |= value(b) > value(a); if (!dom) want.insert(a); }
        for (auto& c : sols) { Id id = decode<T>(c.chromosome); MC_CHECK(got.insert(id).second && c.fitness[0] == value(id), "a solution is returned twice or with another fitness", "%zu, %s", id, trace.c_str()); } MC_CHECK(got == want, "the solutions are not those reported by the algorithm", "%s instead of %s, %s", show(Ids(got.begin(), got.end())).c_str(), show(Ids(want.begin(), want.end())).c_str(), trace.c_str()); mc::sample(trace);
    }
};
template<typename T> void all(size_t pop, int level) {
    Setup s; s.pop = pop; s.gens = 2; s.parts = level == 0 ? mc::range(0, 6) : 0; if (level == 0) { s.rate = mc::range(0, 1); s.dynamic = mc::range(0, 1); s.repair = mc::flip(); s.next = mc::range(0, 4); } else if (level == 1) { s.repair = pop == 1; s.dynamic = mc::range(0, 1); } else { s.gens = 3; s.next = mc::range(0, 4); }
    Run<T> r(s); r.once(s);
}
template<typename T> void solutions() { Setup s; s.pop = mc::range(1, 5); s.gens = mc::range(1, 5); s.optimal = mc::range(0, 2); s.two = mc::flip(); s.keep = mc::flip(); s.hashed = mc::range(1, mc::depth(12, 100)); Run<T> r(s); r.once(s); s.hashed += 1000; s.gens = mc::range(1, 3); r.once(s); }
template<typename T> void larger() { Setup s; s.pop = mc::pick<size_t>({ 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 301 }); s.gens = mc::pick<size_t>({ 2, 4, s.pop > 20 ? 5 : 30 }); s.parts = mc::range(0, 6); s.rate = mc::range(0, 1); s.repair = mc::flip(); s.dynamic = mc::flip(); s.two = s.parts == 0; s.hashed = mc::range(1, mc::depth(2, 6)); Run<T> r(s); r.once(s); s.hashed += 1000; s.gens = 2; r.once(s); }
template<typename T> void tasks(const char* name) { for (size_t n = 1; n <= 3; n++) mc::add_task(fmt("%s %zu parts", name, n), [n] { if (n < 3 || mc::thorough()) all<T>(n, 0); else { Setup s; s.pop = 3; s.parts = mc::range(0, 6); s.dynamic = mc::range(0, 1); s.hashed = mc::range(1, 300); Run<T> r(s); r.once(s); } }); mc::add_task(fmt("%s 1 all", name), [] { all<T>(1, 1); }); mc::add_task(fmt("%s 2 all", name), [] { all<T>(2, 1); }); mc::add_task(fmt("%s 2 three generations", name), [] { all<T>(2, 2); }); mc::add_task(fmt("%s 3 all", name), [] { Setup s; s.pop = 3; s.next = mc::range(0, 4); Run<T> r(s); r.once(s); }); mc::add_task(fmt("%s solutions", name), solutions<T>); mc::add_task(fmt("%s larger", name), larger<T>); }
void setup() { mcr::install(); tasks<IntegerGene>("integer"); tasks<RealGene>("real"); tasks<BinaryGene>("binary"); tasks<PermutationGene>("permutation"); }
}
MC_MAIN(setup)
