// P32: user-defined encodings. Runs of GAs over user-defined gene types, with and without bounds, in which every chromosome (of any length) made by the user's parts is a choice; and the built-in operators that accept chromosomes of any length.
#include "operators.hpp"
#include <string>
#include <variant>
#include <unordered_set>
using mc::fmt;
/** A gene that owns memory and knows whether it is alive. */
struct Token { int* p; static inline long alive = 0; Token(int v = 0) : p(new int(v)) { alive++; } Token(const Token& o) : p(new int(*o.p)) { alive++; } Token(Token&& o) noexcept : p(o.p) { o.p = new int(-1); alive++; } Token& operator=(const Token& o) { *p = *o.p; return *this; } Token& operator=(Token&& o) noexcept { std::swap(p, o.p); return *this; } ~Token() { *p = -7; delete p; p = nullptr; alive--; } friend bool operator==(const Token& a, const Token& b) { return *a.p == *b.p; } friend auto operator<=>(const Token& a, const Token& b) { return *a.p <=> *b.p; } };
template<> struct std::hash<Token> { size_t operator()(const Token& t) const noexcept { return *t.p % 2; } }; // collides
using Word = std::string; using Mixed = std::variant<double, int>;
using namespace gapp;
struct World { bool variable = false, swapped_len = false; size_t len = 2, k = 3; int f = 1; bool two = false, probing = false; size_t inits = 0, gens = 0, calls = 0, crosses = 0, mutations = 0; std::vector<size_t> rates; std::string order; const void* ga = nullptr; size_t banned = 99; };
inline World W;
template<typename T> T gene(int v) { if constexpr (std::is_same_v<T, Word>) return v == 1 ? Word() : Word(v * 20, char('a' + v)); else if constexpr (std::is_same_v<T, Mixed>) return v == 1 ? Mixed(1.0) : v == 2 ? Mixed(1) : v == 3 ? Mixed(1.0 + 1e-13) : Mixed(v); else return T(v); }
template<typename T> using Chrom = Chromosome<T>;
/** The chromosomes that can occur. The lengths differ if that is allowed: the second one is a prefix of the third. */
template<typename T> Chrom<T> item(size_t i) { auto G = gene<T>; if (!W.variable) { Chrom<T> c(W.len, G(1)); switch (i) { case 0: break; case 1: c.back() = G(2); break; case 2: c.front() = G(2); break; case 3: c.back() = G(3); break; default: c.assign(W.len, G(int(i))); } return c; } switch (i) { case 0: return { G(2), G(1) }; case 1: return { G(2) }; case 2: return {}; case 3: return { G(2), G(1), G(3), G(1), G(1) }; default: return Chrom<T>(i, G(1)); } }
template<typename T> size_t id_of(const Chrom<T>& c) { for (size_t i = 0; i < 8; i++) if (item<T>(i) == c) return i; return 99; }
inline double value(size_t id, int f) { static const double t[3][8] = { { 1, 3, 2, 3, 0, 1, 2, 3 }, { 2, 2, 2, 2, 2, 2, 2, 2 }, { 3, 0, 2, 1, 4, 5, 6, 7 } }; return t[f][id]; }
inline FitnessVector values(size_t id) { if (W.two) return { value(id, W.f), value(id, (W.f + 2) % 3) }; return { value(id, W.f) }; }
template<typename T> struct Cross final : crossover::Crossover<T> {
    using crossover::Crossover<T>::Crossover; bool allow_variable_chrom_length() const noexcept override { return W.variable; }
    CandidatePair<T> crossover(const GA<T>& ga, const Candidate<T>& a, const Candidate<T>& b) const override {
        MC_CHECK(&ga == W.ga, "a crossover gets another GA", "crossover %zu", W.crosses); for (auto* p : { &a, &b }) { size_t id = id_of<T>(p->chromosome); MC_CHECK(id < 8 && p->is_evaluated && p->fitness == values(id), "a parent does not have the fitness of its chromosome", "chromosome %zu", id); }
        W.crosses++; Candidate<T> x(item<T>(mc::choose(W.k))), y(b); if (mc::flip()) std::swap(x, y); x.fitness = { -99 }; x.is_evaluated = true; return { std::move(x), std::move(y) };
    } };
template<typename T> struct Mut final : mutation::Mutation<T> {
    using mutation::Mutation<T>::Mutation; bool allow_variable_chrom_length() const noexcept override { return W.variable; }
    void mutate(const GA<T>& ga, const Candidate<T>&, Chrom<T>& c) const override { MC_CHECK(&ga == W.ga && id_of<T>(c) < 8, "a mutation gets a chromosome that was not made by a crossover", "length %zu", c.size()); W.mutations++; switch (mc::choose(3)) { case 0: break; case 1: c = item<T>(1); break; case 2: if (id_of<T>(c) == 0) c = item<T>(2); else c = item<T>(0); break; } } };
template<typename T> struct Traits { using DefaultCrossover = Cross<T>; using DefaultMutation = Mut<T>; static Probability defaultMutationRate(size_t len) { W.rates.push_back(len); return 1.0 / double(len + 3); } };
namespace gapp { template<> struct GaTraits<Word> : Traits<Word> {}; template<> struct GaTraits<Mixed> : Traits<Mixed> {}; template<> struct GaTraits<Token> : Traits<Token> {}; template<> inline constexpr bool is_bounded<Token> = true; }
namespace {
template<typename T> struct Fn final : FitnessFunctionBase<T> { Fn() : FitnessFunctionBase<T>(W.len) {} FitnessVector invoke(const Chrom<T>& c) const override { if (!W.probing) W.calls++; W.probing = false; W.order += 'F'; size_t id = id_of<T>(c); MC_CHECK(id < 8, "a chromosome that nobody made is evaluated", "length %zu", c.size()); MC_CHECK(id != W.banned, "a chromosome is evaluated without having been repaired", "%zu", id); return values(id); } };
BoundsVector<Token> bounds() { BoundsVector<Token> b; for (size_t i = 0; i < W.len; i++) b.push_back(Bounds<Token>{ Token(int(i)), Token(int(i + W.f * 10)) }); return b; }
template<typename T> class Custom final : public GA<T> {
public:
    using GA<T>::GA; mutable size_t made = 0;
    void ready(const char* who) const { MC_CHECK(this->fitness_function() && this->chrom_len() == W.len && this->generation_cntr() == 0, "the fitness function of the run is not visible", "%s", who); if constexpr (is_bounded<T>) { auto& b = this->gene_bounds(); MC_CHECK(b.size() == W.len, "the bounds of the run are not visible", "%s: %zu instead of %zu", who, b.size(), W.len); for (size_t i = 0; i < W.len; i++) MC_CHECK(b[i].lower() == Token(int(i)) && b[i].upper() == Token(int(i + W.f * 10)), "the bounds of the run are not visible", "%s: bound %zu", who, i); } }
    void initialize() override { W.inits++; W.order += 'I'; ready("initialize"); made = 0; }
    Candidate<T> generateCandidate() const override { ready("generateCandidate"); W.order += 'G'; W.gens++; made++; return Candidate<T>(item<T>(made % W.k)); }
};
struct Order final : algorithm::Algorithm { mutable size_t turn = 0; size_t selectImpl(const GaInfo& ga, const FitnessMatrix&) const override { return turn++ % ga.population_size(); } small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix& m) override { small_vector<size_t> r; for (size_t i = 0; i < ga.population_size(); i++) r.push_back(i % 2 ? m.size() - 1 - i : i); return r; } };
struct Setup { size_t pop = 2, gens = 2, cache = 0, given = 0; int alg = 0, repair = 0; bool keep = false, two = false, variable = false, rate = false; };
template<typename T> struct Run {
    Setup s; std::vector<std::vector<size_t>> hist; std::string text() const { std::string r = fmt("pop %zu cache %zu alg %d repair %d keep %d objectives %d variable %d: ", s.pop, s.cache, s.alg, s.repair, s.keep, 1 + s.two, s.variable); for (auto& h : hist) { for (auto i : h) r += fmt("%zu", i); r += " "; } return r; }
    void once(Custom<T>& ga, size_t len, int f, double rate) {
        mcr::reset(); W = {}; W.variable = s.variable; W.two = s.two; W.len = len; W.f = f; W.ga = &ga; W.probing = true; W.k = s.gens > 2 || s.pop > 2 ? 3 : 5; hist.clear(); size_t crosses = 0, mutations = 0;
        Population<T> p; for (size_t i = 0; i < s.given; i++) { Candidate<T> c(item<T>((i + 2) % 5)); if (i % 2) c.fitness = values((i + 2) % 5), c.is_evaluated = true; p.push_back(c); }
        ga.on_generation_end([&](const GaInfo& info) {
            if (hist.empty()) { size_t gen = 1 + s.pop - std::min(s.pop, s.given), want = 0; for (size_t i = 0; i < s.pop; i++) want += i >= s.given || i % 2 == 0; MC_CHECK(W.inits == 1, "initialize() is not called once per run", "%zu calls, %s", W.inits, text().c_str()); MC_CHECK(W.order[0] == 'I', "a candidate is generated or evaluated before initialize()", "%s: %s", W.order.c_str(), text().c_str()); MC_CHECK(W.gens == gen, "the initial population is not completed with generated candidates", "%zu instead of %zu, %s", W.gens, gen, text().c_str()); MC_CHECK(W.calls == want, "an initial candidate is not evaluated once", "%zu instead of %zu, %s", W.calls, want, text().c_str());
                for (size_t i = 0; i < s.pop; i++) { size_t w = i < s.given ? (i + 2) % 5 : (2 + i - s.given) % W.k; MC_CHECK(ga.population()[i].chromosome == item<T>(w), "an initial candidate is lost", "candidate %zu, %s", i, text().c_str()); } }
            else { MC_CHECK(W.mutations == mutations + s.pop && W.crosses <= crosses + (s.pop + 1) / 2, "the operators are not used once per child", "%zu crossovers and %zu mutations, %s", W.crosses - crosses, W.mutations - mutations, text().c_str()); }
            crosses = W.crosses; mutations = W.mutations; W.banned = s.repair > 1 ? s.repair - 1 : 99; hist.emplace_back(); MC_CHECK(ga.population().size() == s.pop && info.num_fitness_evals() == W.calls && W.calls <= s.pop * hist.size() && W.inits == 1, "the run is not counted right", "%zu evaluations, %zu calls, %s", info.num_fitness_evals(), W.calls, text().c_str());
            for (size_t i = 0; i < s.pop; i++) { auto& c = ga.population()[i]; size_t id = id_of<T>(c.chromosome); MC_CHECK(id < 8, "a candidate nobody made is in the population", "candidate %zu: length %zu, %s", i, c.chromosome.size(), text().c_str()); MC_CHECK(c.is_evaluated && c.fitness == values(id) && info.fitness_matrix()[i][0] == values(id)[0], "a candidate has another chromosome's fitness", "candidate %zu is %zu: %g, %s", i, id, c.fitness.empty() ? -1 : c.fitness[0], text().c_str()); hist.back().push_back(id); }
            double want = rate >= 0 ? rate : 1.0 / double(len + 3); MC_CHECK(ga.mutation_rate() == want, "the mutation rate is not the one of the encoding", "%g instead of %g, %s", double(ga.mutation_rate()), want, text().c_str()); MC_CHECK(W.rates.empty() == (rate >= 0) && (W.rates.empty() || W.rates.back() == len), "the default mutation rate is not computed from the chromosome length", "%zu calls", W.rates.size());
            if (hist.size() == s.gens) mc::sample(text()); uint64_t h = mc::hbytes(&len, 8); for (auto& g : hist) for (auto i : g) h = mc::hmix(h, i); mc::state(mc::hmix(h, f)); mc::step(); });
        Candidates<T> sols; if constexpr (is_bounded<T>) sols = ga.solve(Fn<T>(), bounds(), s.gens, p); else sols = ga.solve(Fn<T>(), s.gens, p);
        MC_CHECK(hist.size() == s.gens, "a run has the wrong number of generations", "%s", text().c_str()); std::set<size_t> seen, best, got; for (size_t g = s.keep ? 0 : hist.size() - 1; g < hist.size(); g++) seen.insert(hist[g].begin(), hist[g].end());
        for (size_t a : seen) { bool dom = false; for (size_t b : seen) { auto x = values(a), y = values(b); bool ge = true, gt = false; for (size_t i = 0; i < x.size(); i++) ge &= y[i] >= x[i], gt |= y[i] > x[i]; dom |= ge && gt; } if (!dom) best.insert(a); }
        for (auto& c : sols) { size_t id = id_of<T>(c.chromosome); MC_CHECK(got.insert(id).second, "a solution is returned twice", "%zu, %s", id, text().c_str()); MC_CHECK(best.count(id) && c.is_evaluated && c.fitness == values(id), "a returned solution is not an optimal one", "%zu, %s", id, text().c_str()); } MC_CHECK(got == best, "an optimal solution is not returned", "%zu instead of %zu, %s", got.size(), best.size(), text().c_str());
        std::vector<Candidate<T>> sv(ga.solutions().begin(), ga.solutions().end()); MC_CHECK(sv.size() == sols.size(), "the solutions of the run are not available after it", "%s", text().c_str()); std::unordered_set<Candidate<T>> us(sols.begin(), sols.end()); for (auto& c : sols) { Candidate<T> copy(c.chromosome); MC_CHECK(us.count(copy) && copy == c, "equal candidates are not equal or have different hashes", "%s", text().c_str()); }
    }
};
template<typename T> void configure(Custom<T>& ga, const Setup& s) {
    if (s.alg == 0) ga.algorithm(Order{}); ga.cache_size(s.cache); ga.keep_all_optimal_solutions(s.keep); ga.crossover_rate(1.0);
    if (s.repair) ga.repair_function([rep = s.repair](const GA<T>&, const Chrom<T>& c) { size_t i = id_of<T>(c); return rep == 1 ? c : item<T>(i == size_t(rep - 1) ? rep == 2 ? 2 : 0 : i); });
}
template<typename T> void runs(size_t pop, size_t gens, bool deep) {
    long before = Token::alive; { Setup s; s.pop = pop; s.gens = gens; s.variable = mc::flip(); s.keep = mc::flip(); s.alg = mc::range(0, 1); s.two = mc::flip(); s.cache = mc::pick<size_t>({ 0, 1 }); if (deep) s.repair = mc::range(0, 3), s.given = mc::range(0, 3); else s.given = mc::pick<size_t>({ 0, 1 }), s.repair = mc::pick({ 0, 2, 3 }); bool rate = s.cache == 1 && s.keep;
        Custom<T> ga(s.pop); configure(ga, s); if (rate) ga.mutation_rate(0.25); Run<T> r{ s, {} }; r.once(ga, s.variable ? 2 : mc::pick<size_t>({ 2, 3 }), 0, rate ? 0.25 : -1); }
    MC_CHECK(Token::alive == before, "genes are leaked or destroyed twice", "%ld", Token::alive - before);
}
/** Two or three runs of one object with different chromosome lengths, fitness functions and settings. */
template<typename T> void again() {
    long before = Token::alive; { Setup s; s.pop = 2; s.gens = 2; s.variable = mc::flip(); s.keep = mc::flip(); s.alg = mc::range(0, 1); s.cache = 2; Custom<T> ga(s.pop); configure(ga, s); Run<T> r{ s, {} }; r.s.gens = 1; r.once(ga, 2, 0, -1); r.s.two = mc::flip(); if (mc::flip()) { ga.mutation_rate(0.125); r.once(ga, 4, 2, 0.125); r.s.gens = 2; r.once(ga, 3, 1, 0.125); } else { r.s.given = 1; r.once(ga, 1 + s.variable, 2, -1); r.s.gens = 2; r.once(ga, 3, 0, -1); } }
    MC_CHECK(Token::alive == before, "genes are leaked or destroyed twice", "%ld", Token::alive - before);
}
/** Every constructor of a GA uses the parts it is given and the defaults of the encoding for the others. */
template<typename T> void constructors() {
    Setup s; s.pop = mc::range(1, 3); s.gens = 1; s.two = mc::flip(); s.variable = mc::flip(); int way = mc::range(0, 6); std::unique_ptr<Custom<T>> ga; bool rate = false; using namespace algorithm; Cross<T> c(0.5); Mut<T> m(0.75); stopping::FitnessEvals stop(10); bool algo = true, fixed = s.two;
    switch (way) { case 0: ga = std::make_unique<Custom<T>>(s.pop); algo = false; break; case 1: ga = std::make_unique<Custom<T>>(s.pop, NSGA2{}); break; case 2: ga = std::make_unique<Custom<T>>(s.pop, std::unique_ptr<Algorithm>(std::make_unique<NSGA2>())); break; case 3: ga = std::make_unique<Custom<T>>(s.pop, NSGA2{}, c, m, stop); rate = true; break; case 4: ga = std::make_unique<Custom<T>>(s.pop, std::make_unique<NSGA2>(), std::make_unique<Cross<T>>(c), std::make_unique<Mut<T>>(m), std::make_unique<stopping::FitnessEvals>(stop)); rate = true; break; case 5: ga = std::make_unique<Custom<T>>(s.pop, std::make_unique<Cross<T>>(c), std::make_unique<Mut<T>>(m), std::make_unique<stopping::FitnessEvals>(stop)); rate = true; algo = false; break; case 6: ga = std::make_unique<Custom<T>>(); algo = false; ga->population_size(s.pop); break; }
    if (algo && !fixed) throw mc::Skip{};
    MC_CHECK(ga->population_size() == s.pop, "the population size is not the one given", "way %d: %zu", way, ga->population_size()); if (rate) MC_CHECK(ga->crossover_rate() == 0.5 && ga->mutation_rate() == 0.75, "the operators are not the ones given", "way %d", way); if (algo) MC_CHECK(dynamic_cast<const NSGA2*>(&ga->algorithm()), "the algorithm is not the one given", "way %d", way);
    if (way == 3 || way == 4 || way == 5) { auto* f = dynamic_cast<const stopping::FitnessEvals*>(&ga->stop_condition()); MC_CHECK(f && f->max_fitness_evals() == 10, "the stop condition is not the one given", "way %d", way); }
    MC_CHECK(dynamic_cast<const Cross<T>*>(&ga->crossover_method()) && dynamic_cast<const Mut<T>*>(&ga->mutation_method()), "the operators are not those of the encoding", "way %d", way);
    Run<T> r{ s, {} }; r.once(*ga, 2, 0, rate ? 0.75 : -1); if (!algo) MC_CHECK(s.two ? dynamic_cast<const NSGA3*>(&ga->algorithm()) != nullptr : dynamic_cast<const SingleObjective*>(&ga->algorithm()) != nullptr, "the default algorithm does not fit the problem", "way %d", way); if (algo) MC_CHECK(dynamic_cast<const NSGA2*>(&ga->algorithm()), "the algorithm given is replaced", "way %d", way);
    if (!algo) { r.s.two = !s.two; r.once(*ga, 3, 0, rate ? 0.75 : -1); }
}
// ---- the built-in operators that accept any length
template<typename T, typename Op> void any_length(Op op, const std::vector<unsigned>& ns, int points, size_t max) {
    ops::Fx<T> fx(mc::pick<size_t>({ 1, 3, 6 })); MC_CHECK(op.allow_variable_chrom_length(), "the operator does not accept chromosomes of other lengths", "%zu", fx.len); size_t n = mc::range(0, int(max)); op.mutation_rate(mc::pick({ 0.0, 0.5, 1.0 })); bool eval = mc::flip(); Chrom<T> c(n); for (size_t i = 0; i < n; i++) c[i] = std::is_same_v<T, BinaryGene> ? i % 2 : n - 1 - i; std::set<Chrom<T>> results;
    ops::all_draws(ns, points, [&] { auto x = fx.cand(c); x.is_evaluated = eval; static_cast<const mutation::Mutation<T>&>(op)(fx.ga, x); mc::step(); auto& r = x.chromosome; results.insert(r); MC_CHECK(r.size() == n, "a mutation changes the length of the chromosome", "%zu instead of %zu", r.size(), n); if (op.mutation_rate() == 0.0 || n == 0) MC_CHECK(r == c, "a mutation with rate 0 changes the chromosome", "length %zu", n); MC_CHECK(x.is_evaluated == (eval && r == c), "the fitness of a mutated chromosome is not recomputed, or that of an unchanged one is", "length %zu", n);
        if constexpr (std::is_same_v<T, BinaryGene>) { for (size_t i = 0; i < n; i++) MC_CHECK(r[i] <= 1, "a mutated gene is invalid", "%d", int(r[i])); if (op.mutation_rate() == 1.0) for (size_t i = 0; i < n; i++) MC_CHECK(r[i] == 1 - c[i], "a flip with rate 1 keeps a gene", "gene %zu of %zu", i, n); } else { auto s = r, t = c; std::sort(s.begin(), s.end()); std::sort(t.begin(), t.end()); MC_CHECK(s == t, "a mutated permutation is invalid", "length %zu: %s", n, ops::show(r).c_str()); } });
    if (op.mutation_rate() == 1.0 && n >= 3) { if constexpr (std::is_same_v<T, PermutationGene>) for (size_t i = 0; i < n; i++) MC_CHECK(std::any_of(results.begin(), results.end(), [&](auto& r) { return r[i] != c[i]; }), "a mutation never changes some position of a longer or shorter chromosome", "position %zu of %zu, chrom_len %zu", i, n, fx.len); }
    mc::state(mc::hmix(n * 8 + eval, fx.len + results.size() * 100));
}
// ---- chromosomes of different lengths in the built-in encodings
template<typename T> struct AnyCross final : crossover::Crossover<T> { using crossover::Crossover<T>::Crossover; bool allow_variable_chrom_length() const noexcept override { return true; } CandidatePair<T> crossover(const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) const override { Candidate<T> x(a), y(b); switch (mc::choose(4)) { case 0: std::swap(x, y); break; case 1: if constexpr (std::is_same_v<T, BinaryGene>) { x.chromosome.insert(x.chromosome.end(), b.chromosome.begin(), b.chromosome.end()); } else { x.chromosome.push_back(x.chromosome.size()); } break; case 2: x.chromosome.clear(); break; case 3: if constexpr (std::is_same_v<T, BinaryGene>) { if (!x.chromosome.empty()) x.chromosome.pop_back(); } else if (!x.chromosome.empty()) { x.chromosome.erase(std::find(x.chromosome.begin(), x.chromosome.end(), x.chromosome.size() - 1)); } break; } return { x, y }; } };
template<typename T> double total(const Chrom<T>& c) { double s = double(c.size() % 5); for (size_t i = 0; i < c.size(); i++) s += double(c[i]) * double(i + 1); return s; }
template<typename T> struct AnyFn final : FitnessFunctionBase<T> { using FitnessFunctionBase<T>::FitnessFunctionBase; FitnessVector invoke(const Chrom<T>& c) const override { if (!W.probing) W.calls++; W.probing = false; if constexpr (std::is_same_v<T, PermutationGene>) { auto s = c; std::sort(s.begin(), s.end()); for (size_t i = 0; i < s.size(); i++) MC_CHECK(s[i] == i, "an invalid permutation is evaluated", "%s", ops::show(c).c_str()); } return { total<T>(c) }; } };
template<typename T, typename Op> void built_in(Op op) {
    mcr::reset(mc::range(1, 3)); W = {}; W.probing = true; typename ops::GaOf<T>::type ga(mc::range(2, 3)); ga.crossover_method(AnyCross<T>(1.0)); op.mutation_rate(mc::pick({ 0.0, 0.5, 1.0 })); ga.mutation_method(op); ga.cache_size(mc::range(0, 1)); bool keep = mc::flip(); ga.keep_all_optimal_solutions(keep); std::map<Chrom<T>, double> seen, last; Population<T> p; for (size_t n : { 0, 4 }) { Chrom<T> c(n); for (size_t i = 0; i < n; i++) c[i] = std::is_same_v<T, BinaryGene> ? 1 : i; p.push_back(Candidate<T>(c)); }
    ga.on_generation_end([&](const GaInfo& info) { last.clear(); MC_CHECK(info.num_fitness_evals() == W.calls, "the run is not counted right", "%zu instead of %zu", info.num_fitness_evals(), W.calls); for (auto& c : ga.population()) { MC_CHECK(c.is_evaluated && c.fitness[0] == total<T>(c.chromosome), "a candidate has another chromosome's fitness", "%s: %g", ops::show(c.chromosome).c_str(), c.fitness[0]); seen[c.chromosome] = last[c.chromosome] = c.fitness[0]; } mc::step(); });
    auto sols = ga.solve(AnyFn<T>(3), 3, p); auto& all = keep ? seen : last; double best = -1; for (auto& [c, v] : all) best = std::max(best, v); std::set<Chrom<T>> want, got; for (auto& [c, v] : all) if (v == best) want.insert(c); for (auto& s : sols) MC_CHECK(got.insert(s.chromosome).second, "a solution is returned twice", "%s", ops::show(s.chromosome).c_str()); MC_CHECK(got == want, "the returned solutions are not the optimal ones", "%zu instead of %zu", got.size(), want.size()); uint64_t h = keep; for (auto& [c, v] : seen) h = mc::hmix(h, mc::hbytes(c.data(), c.size() * sizeof(T))); mc::state(h);
}
template<typename T> void tasks(const char* name) { mc::add_task(fmt("%s runs", name), [] { runs<T>(2, 2, true); }); mc::add_task(fmt("%s longer runs", name), [] { runs<T>(2, 3, false); }); mc::add_task(fmt("%s larger runs", name), [] { runs<T>(3, 2, false); }); if (mc::thorough()) { mc::add_task(fmt("%s four generations", name), [] { runs<T>(2, 4, false); }); mc::add_task(fmt("%s large runs", name), [] { runs<T>(4, 2, false); }); } mc::add_task(fmt("%s several runs", name), again<T>); mc::add_task(fmt("%s constructors", name), constructors<T>); }
template<typename Op> void perm(const char* name, Op op, const std::vector<unsigned>& ns, int points) { mc::add_task(fmt("%s any length", name), [=] { any_length<PermutationGene>(op, ns, points, mc::depth(8, 12)); }); mc::add_task(fmt("%s runs", name), [=] { built_in<PermutationGene>(op); }); }
void setup() {
    mcr::install(); tasks<Word>("strings"); tasks<Mixed>("variants"); tasks<Token>("bounded tokens"); using namespace mutation;
    mc::add_task("flip any length", [] { any_length<BinaryGene>(binary::Flip(0.5), { 16, 12, 12, 4 }, 4, mc::depth(8, 12)); }); mc::add_task("flip runs", [] { built_in<BinaryGene>(binary::Flip(0.5)); });
    perm("inversion", perm::Inversion(0.5), { 2, 24, 24 }, 3); perm("swap2", perm::Swap2(0.5), { 2, 24, 24 }, 3); perm("swap3", perm::Swap3(0.5), { 2, 16, 16, 16 }, 4); perm("shuffle", perm::Shuffle(0.5), { 2, 12, 12, 6, 6 }, 5); perm("shift", perm::Shift(0.5), { 2, 24, 24, 24 }, 4);
}
}
MC_MAIN(setup)
