// P10: the fitness of a candidate belongs to its chromosome. Whole runs in which every result of the operators is a choice, with a reference for the evaluations; and the bookkeeping of all built-in operators for all random draws.
#include "operators.hpp"
using namespace ops; using mc::fmt;
namespace {
template<typename T> using Chrom = Chromosome<T>;
int colliding = 0; // 1: integer chromosomes that all have the same hash value
/** Four different chromosomes {a, b, c} with the same hash. */
std::vector<Chrom<IntegerGene>> same_hash() { std::vector<Chrom<IntegerGene>> r; size_t target = 0; for (int a = 0; a < 100000 && r.size() < 4; a++) { size_t s = 3; for (int v : { a % 100, a / 100 }) s ^= size_t(v) + 0x9e3779b9 + (s << 6) + (s >> 2); size_t add = 0x9e3779b9 + (s << 6) + (s >> 2); if (r.empty()) target = s ^ (5000 + add); long c = long((s ^ target) - add); if (c < 0 || c > 1000000000) continue; Chrom<IntegerGene> x{ a % 100, a / 100, int(c) }; if (r.empty() || std::hash<Candidate<IntegerGene>>{}(Candidate<IntegerGene>(x)) == std::hash<Candidate<IntegerGene>>{}(Candidate<IntegerGene>(r[0]))) r.push_back(x); } while (r.size() < 4) r.push_back({ int(r.size()), 1, 1 }); return r; }
template<typename T> const std::vector<Chrom<T>>& menu() { if constexpr (std::is_same_v<T, PermutationGene>) { static const std::vector<Chrom<T>> m{ { 0, 1, 2 }, { 1, 0, 2 }, { 2, 1, 0 }, { 0, 2, 1 } }; return m; } else if constexpr (std::is_same_v<T, BinaryGene>) { static const std::vector<Chrom<T>> m{ { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 0 }, { 0, 1, 0 } }; return m; } else { if constexpr (std::is_same_v<T, IntegerGene>) { static const auto m1 = same_hash(); if (colliding) return m1; } static const std::vector<Chrom<T>> m{ { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 0 }, { 0, 1, 0 } }; return m; } }
template<typename T> double value(const Chrom<T>& c, int f) { double s = f * 1000; for (size_t i = 0; i < c.size(); i++) s += double(c[i]) * std::ldexp(1.0, int(2 * i % 50)) + (f == 2 ? i * i * double(c[i]) : 0); return s; }
template<typename T> size_t id_of(const Chrom<T>& c) { auto& m = menu<T>(); for (size_t i = 0; i < m.size(); i++) if (m[i] == c) return i; return 99; }
struct World { int f = 1; bool dynamic = false, probing = false; size_t epoch = 0, calls = 0; std::vector<std::vector<size_t>> called; size_t child = 0; } W; // called: how often every child of the generation was evaluated
template<typename T> double now(const Chrom<T>& c) { return value(c, W.f) + (W.dynamic ? 1e6 * W.epoch : 0.0); }
template<typename T> struct Fn final : FitnessFunctionBase<T> { Fn(bool dynamic) : FitnessFunctionBase<T>(3, dynamic ? FitnessFunctionBase<T>::Type::Dynamic : FitnessFunctionBase<T>::Type::Static) {} FitnessVector invoke(const Chrom<T>& c) const override { if (!W.probing) { W.calls++; if (W.child < W.called.back().size()) W.called.back()[W.child]++; } W.probing = false; return { now(c) }; } };
template<typename T> BoundsVector<T> bounds() { if constexpr (std::is_same_v<T, IntegerGene>) return BoundsVector<T>(3, Bounds<T>{ 0, colliding ? 1000000000 : 3 }); else if constexpr (std::is_same_v<T, RealGene>) return BoundsVector<T>(3, Bounds<T>{ 0.0, 3.0 }); else return {}; }
struct Config { size_t pop, gens, cache, repl; int repair, mut; bool dynamic; };
struct Order final : algorithm::Algorithm { size_t repl; mutable size_t turn = 0; std::vector<size_t>* picked; Order(size_t r, std::vector<size_t>* p) : repl(r), picked(p) {} void prepareSelectionsImpl(const GaInfo&, const FitnessMatrix&) override { turn = 0; picked->clear(); } size_t selectImpl(const GaInfo& ga, const FitnessMatrix&) const override { size_t r = turn++ % ga.population_size(); picked->push_back(r); return r; }
    small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix& m) override { size_t n = ga.population_size(); small_vector<size_t> r; if (repl == 0) for (size_t i = 0; i < n; i++) r.push_back(n + i); if (repl == 1) for (size_t i = 0; i < n; i++) r.push_back(i % 2 ? i : n + i); if (repl == 2) { std::vector<size_t> o(m.size()); std::iota(o.begin(), o.end(), 0); std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) { return m[a][0] > m[b][0]; }); for (size_t i = 0; i < n; i++) r.push_back(o[i]); } return r; } };
struct Member { size_t id; double fitness; bool operator==(const Member&) const = default; };
using History = std::vector<std::vector<Member>>;
/** Runs with choices taken from `get`. Checks every generation against the reference and returns the populations. */
template<typename T, typename Get> struct Scripted {
    using G = typename GaOf<T>::type; G ga; Config cfg; Get get; History hist; std::vector<size_t> picked; size_t k; std::vector<std::array<size_t, 3>> kids; // of every child: after the crossover, the mutation, the repair
    mutation::Lambda<T> set0, keep;
    Scripted(Config c, size_t k_, Get g) : ga(c.pop), cfg(c), get(g), k(k_), set0([](const GA<T>&, const Candidate<T>&, Chrom<T>& x) { x = menu<T>()[0]; }), keep([](const GA<T>&, const Candidate<T>&, Chrom<T>&) {}) {
        ga.algorithm(std::make_unique<Order>(c.repl, &picked)); ga.cache_size(c.cache); auto& M = menu<T>();
        ga.crossover_method([this, &M](const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) { check_parent(a); check_parent(b); Candidate<T> x = a, y = b; switch (get(k + 3)) { case 0: break; case 1: std::swap(x, y); break; case 2: x.chromosome = M[get(k)]; x.fitness = { -999 }; x.is_evaluated = true; y.fitness = { -998 }; break; default: { size_t i = picked.size() % k; x = Candidate<T>(M[i]); y.chromosome = M[get(k)]; y.is_evaluated = false; } } return CandidatePair<T>{ x, y }; }); ga.crossover_rate(1.0);
        ga.mutation_method([this, &M](const GA<T>& g, const Candidate<T>& cand, Chrom<T>& c) {
            W.child = kids.size(); kids.push_back({ id_of<T>(c), 0, 0 }); MC_CHECK(&cand.chromosome == &c, "a mutation gets another candidate's chromosome", "%s", show(c).c_str()); if (cand.is_evaluated && !W.dynamic) MC_CHECK(cand.fitness[0] == now(c), "a candidate passed to a mutation has another chromosome's fitness", "%s: %g", show(c).c_str(), cand.fitness[0]); size_t to = get(k); const auto& inner = static_cast<const mutation::Mutation<T>&>(keep); Candidate<T> other(M[to]); other.fitness = { 5 }; other.is_evaluated = true;
            switch (cfg.mut) { case 0: c = M[to]; break; case 1: inner(g, other); c = M[to]; break; case 2: c = M[to]; inner(g, other); break; case 3: { auto old = c; c = M[to]; std::swap(c, old); if (to) c = old; break; } case 4: { Candidate<T> copy = cand; static_cast<const mutation::Mutation<T>&>(to ? set0 : keep)(g, copy); c = copy.chromosome; other.chromosome = c; inner(g, other); break; } }
            kids.back()[1] = kids.back()[2] = id_of<T>(c); });
        if (cfg.repair) ga.repair_function([this, &M](const GA<T>&, const Chrom<T>& c) { size_t i = id_of<T>(c); i = cfg.repair == 1 ? (i == 1 ? 0 : i) : (i + 1) % k; kids.back()[2] = i; return M[i]; }); else ga.repair_function(nullptr);
        ga.on_generation_end([this](const GaInfo& info) { generation(info); });
    }
    void check_parent(const Candidate<T>& p) { MC_CHECK(p.is_evaluated && p.fitness.size() == 1, "a parent is not evaluated", "%s", show(p.chromosome).c_str()); if (!W.dynamic) MC_CHECK(p.fitness[0] == now(p.chromosome), "a parent has another chromosome's fitness", "%s: %g", show(p.chromosome).c_str(), p.fitness[0]); }
    std::string text() { std::string s = fmt("cache %zu repair %d mutation %d replacement %zu: ", cfg.cache, cfg.repair, cfg.mut, cfg.repl); for (auto& h : hist) { for (auto& m : h) s += fmt("%zu=%g ", m.id, m.fitness); s += "| "; } return s; }
    void generation(const GaInfo& info) {
        std::vector<Member> cur; for (auto& c : ga.population()) { MC_CHECK(c.is_evaluated && c.fitness.size() == 1, "a candidate is not evaluated at the end of a generation", "%s", text().c_str()); cur.push_back({ id_of<T>(c.chromosome), c.fitness[0] }); }
        for (size_t i = 0; i < cur.size(); i++) { auto& c = ga.population()[i]; bool old = false; if (!hist.empty()) for (auto& m : hist.back()) old |= m == cur[i]; MC_CHECK(cur[i].fitness == now(c.chromosome) || (W.dynamic && old && cfg.repl > 0), "a candidate has another chromosome's fitness", "candidate %zu of generation %zu: %g instead of %g, %s", i, hist.size(), cur[i].fitness, now(c.chromosome), text().c_str()); MC_CHECK(info.fitness_matrix()[i][0] == cur[i].fitness, "the fitness matrix does not match the population", "%s", text().c_str()); }
        size_t n = cfg.pop; if (!hist.empty()) { auto& calls = W.called.back(); auto& pop = hist.back(); for (size_t i = 0; i < n; i++) { auto [x, m, r] = kids.at(i); size_t a = pop[picked.at(i / 2 * 2)].id, b = pop[picked.at(i / 2 * 2 + 1)].id; auto what = [&] { return fmt("child %zu of generation %zu: parents %zu %zu, crossover %zu, mutation %zu, repair %zu: %zu calls, ", i, hist.size(), a, b, x, m, r, calls[i]) + text(); };
                if (W.dynamic) { MC_CHECK(calls[i] == 1, "a new candidate is not evaluated once with a dynamic fitness function", "%s", what().c_str()); continue; }
                MC_CHECK(calls[i] <= 1, "a candidate is evaluated twice", "%s", what().c_str()); if ((x == a || x == b) && m == x && r == x) MC_CHECK(calls[i] == 0, "an unchanged candidate is evaluated again", "%s", what().c_str());
                bool recent = false, ever = false; for (auto& h : hist) for (auto& p : h) ever |= p.id == r; if (hist.size() >= 2) for (size_t g = hist.size() - 1; g-- > 0 && hist.size() - 1 - g <= cfg.cache;) for (auto& p : hist[g]) recent |= p.id == r; if (cfg.cache && recent) MC_CHECK(calls[i] == 0, "a cached candidate is evaluated again", "%s", what().c_str()); if (!ever || (!cfg.cache && r != a && r != b)) MC_CHECK(calls[i] == 1, "a new candidate is not evaluated", "%s", what().c_str()); } }
        MC_CHECK(info.num_fitness_evals() == W.calls, "the number of evaluations is not the number of calls", "%zu instead of %zu", info.num_fitness_evals(), W.calls);
        hist.push_back(cur); kids.clear(); W.child = 99; W.epoch++; W.called.push_back(std::vector<size_t>(n)); uint64_t h = mc::hmix(cfg.pop * 64 + cfg.cache, cfg.repair * 16 + cfg.mut); for (auto& g : hist) for (auto& m : g) h = mc::hmix(h, m.id); mc::state(h); mc::step();
    }
    void run(const std::vector<size_t>& initial, unsigned evaluated, bool dynamic, int f) {
        W = {}; W.f = f; W.dynamic = dynamic; W.probing = true; W.child = 99; W.called.push_back(std::vector<size_t>(cfg.pop)); hist.clear(); kids.clear(); Population<T> p; size_t want = 0; for (size_t i = 0; i < initial.size(); i++) { Candidate<T> c(menu<T>()[initial[i]]); if (evaluated >> i & 1) c.fitness = { value(c.chromosome, f) + (dynamic ? 7 : 0) }, c.is_evaluated = true; p.push_back(c); want += i < cfg.pop && (dynamic || !(evaluated >> i & 1)); }
        if constexpr (is_bounded<T>) ga.solve(Fn<T>(dynamic), bounds<T>(), 1, p); else ga.solve(Fn<T>(dynamic), 1, p); MC_CHECK(W.calls == want, "an unevaluated initial candidate is not evaluated once, or an evaluated one again", "%zu calls instead of %zu", W.calls, want);
        W = {}; W.f = f; W.dynamic = dynamic; W.probing = true; W.child = 99; W.called.push_back(std::vector<size_t>(cfg.pop)); hist.clear(); kids.clear();
        Candidates<T> sols; if constexpr (is_bounded<T>) sols = ga.solve(Fn<T>(dynamic), bounds<T>(), cfg.gens, p); else sols = ga.solve(Fn<T>(dynamic), cfg.gens, p); if (!dynamic) for (auto& s : sols) MC_CHECK(s.is_evaluated && s.fitness[0] == value(s.chromosome, f), "a returned solution has another chromosome's fitness", "%s", text().c_str());
    }
};
template<typename T> std::vector<size_t> initial(const Config& c) { switch (mc::range(0, 2)) { case 0: { std::vector<size_t> v; for (size_t i = 0; i < c.pop; i++) v.push_back(i % 3); return v; } case 1: return std::vector<size_t>(c.pop, 0); default: { std::vector<size_t> v; for (size_t i = 0; i < c.pop + 1; i++) v.push_back((i + 1) % 2); return v; } } }
/** The same history of operator results with and without a cache, and a second run of the same object with another fitness function. */
template<typename T> void scripted(size_t pop, size_t gens, size_t k, bool dynamic, int muts) {
    math::ScopedTolerances exact(0, 0); mcr::reset(); Config c{ pop, gens, mc::pick<size_t>({ 0, 1, 2 }), (size_t)mc::range(0, 2), mc::range(0, 2), mc::range(0, muts - 1), dynamic }; auto ini = initial<T>(c); unsigned ev = mc::pick<unsigned>({ 0, 1, 6, 7 }) & ((1u << ini.size()) - 1); std::vector<size_t> script; size_t at = 0; bool replay = false;
    auto get = [&](size_t n) -> size_t { if (replay && at < script.size()) return script[at++] % n; size_t r = mc::choose(n); script.push_back(r); at++; return r; };
    Scripted<T, decltype(get)> s(c, k, get); s.run(ini, ev, dynamic, 1); History first = s.hist; replay = true;
    if (c.cache) { at = 0; Config d = c; d.cache = 0; Scripted<T, decltype(get)> s0(d, k, get); s0.run(ini, ev, dynamic, 1); MC_CHECK(s0.hist == first, "the cache changes the populations", "%s and %s", s.text().c_str(), s0.text().c_str()); at = 0; s.run(ini, ev, dynamic, 2); at = 0; s.run(ini, 0, !dynamic, 1); }
}
/** Caches of many generations: the results of the operators follow patterns with long periods. */
template<typename T> void cached(size_t k) {
    math::ScopedTolerances exact(0, 0); mcr::reset(); size_t pop = mc::pick<size_t>({ 1, 2, 3 }), cache = mc::pick<size_t>({ 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 128, 256 }), gens = std::min<size_t>(cache + 20, 90); Config c{ pop, gens, cache, (size_t)mc::range(0, 2), 0, 0, false }; int pat = mc::range(0, 3); size_t at = 0; uint64_t s = pat + 7;
    // few changes: a chromosome comes back after up to half a hundred generations
    auto get = [&](size_t n) -> size_t { size_t i = at++; return pat == 0 ? mcr::splitmix(s) % n : pat == 1 ? (i / (cache * 2)) % n : pat == 2 ? (i % (cache * 3 + 1) == 0) * (n - 1) : (i / 5 + i / 16) % n; }; Scripted<T, decltype(get)> x(c, k, get); std::vector<size_t> ini; for (size_t i = 0; i < pop; i++) ini.push_back(i % k); x.run(ini, 0, false, 1); at = 0; x.run(ini, 0, false, 2);
}
/** The results of the built-in operators: an evaluated result is one of the evaluated inputs, and an unchanged one stays evaluated. */
template<typename T, typename Op> void cross_op(const char* name, const Op& op, const Fx<T>& fx, const std::vector<Chrom<T>>& cs, int points) {
    auto& x = static_cast<const crossover::Crossover<T>&>(op); for (size_t i = 0; i < cs.size(); i++) for (size_t j = 0; j < cs.size(); j++) { auto a = fx.cand(cs[i], double(i + 1)), b = fx.cand(cs[j], double(j + 1)); mc::state(mc::hmix(i * 100 + j, (uint64_t)name[0] * 256 + name[1])); if (i == j) b.fitness = a.fitness;
        all_draws({ 5 }, points, [&] { auto r = x(fx.ga, a, b); mc::step(); for (auto* c : { &r.first, &r.second }) { bool ea = c->chromosome == a.chromosome, eb = c->chromosome == b.chromosome; if (c->is_evaluated) MC_CHECK((ea && c->fitness == a.fitness) || (eb && c->fitness == b.fitness), "a child of a crossover has another chromosome's fitness", "%s: %s and %s to %s", name, show(a.chromosome).c_str(), show(b.chromosome).c_str(), show(c->chromosome).c_str()); else MC_CHECK(!ea && !eb, "an unchanged child of a crossover is not evaluated any more", "%s: %s", name, show(c->chromosome).c_str()); } }); }
}
template<typename T, typename Op> void mut_op(const char* name, const Op& op, const Fx<T>& fx, const std::vector<Chrom<T>>& cs, int points) {
    auto& x = static_cast<const mutation::Mutation<T>&>(op); for (size_t i = 0; i < cs.size(); i++) for (bool evaluated : { true, false }) { mc::state(mc::hmix(i * 2 + evaluated, (uint64_t)name[0] * 256 + name[1] + 1000000)); all_draws({ 5 }, points, [&] { auto c = fx.cand(cs[i], double(i + 1)); c.is_evaluated = evaluated; x(fx.ga, c); mc::step(); bool same = c.chromosome == cs[i]; MC_CHECK(c.is_evaluated == (same && evaluated), "a mutation loses track of a changed candidate", "%s: %s to %s, %d", name, show(cs[i]).c_str(), show(c.chromosome).c_str(), (int)c.is_evaluated); if (evaluated) MC_CHECK(!c.is_evaluated || c.fitness[0] == double(i + 1), "a mutated candidate has another fitness", "%s: %s", name, show(cs[i]).c_str()); }); }
}
namespace cx = crossover; namespace mu = mutation;
void built_in(int enc) {
    math::ScopedTolerances exact(0, 0); double p = mc::pick({ 1.0, 0.6 }), pm = mc::pick({ 1.0, 0.3 }); int k = mc::range(0, 5);
    if (enc == 0) { static Fx<BinaryGene> fx(3); auto cs = strings<BinaryGene>(3, { 0, 1 }); if (k == 0) cross_op("Single", cx::binary::SinglePoint(p), fx, cs, 3); if (k == 1) cross_op("TwoPoint", cx::binary::TwoPoint(p), fx, cs, 3); if (k == 2) cross_op("NPoint", cx::binary::NPoint(p, 2), fx, cs, 3); if (k == 3) cross_op("Uniform", cx::binary::Uniform(p), fx, cs, 4); if (k == 4) mut_op("Flip", mu::binary::Flip(pm), fx, cs, 5); }
    if (enc == 1) { static Fx<IntegerGene> fx(3, BoundsVector<IntegerGene>(3, { 0, 2 })); auto cs = strings<IntegerGene>(3, { 0, 2 }); if (k == 0) cross_op("Single", cx::integer::SinglePoint(p), fx, cs, 3); if (k == 1) cross_op("TwoPoint", cx::integer::TwoPoint(p), fx, cs, 3); if (k == 2) cross_op("NPoint", cx::integer::NPoint(p, 2), fx, cs, 3); if (k == 3) cross_op("Uniform", cx::integer::Uniform(p), fx, cs, 4); if (k == 4) mut_op("Uniform", mu::integer::Uniform(pm), fx, cs, 5); }
    if (enc == 2) { static Fx<RealGene> fx(2, BoundsVector<RealGene>(2, { 0.0, 1.0 })); auto cs = strings<RealGene>(2, { 0.0, 0.5, 1.0 }); if (k == 0) cross_op("Arithmetic", cx::real::Arithmetic(p), fx, cs, 4), mut_op("Polynomial", mu::real::Polynomial(pm), fx, cs, 4); if (k == 1) cross_op("BLXa", cx::real::BLXa(p, 0.5), fx, cs, 4), mut_op("Uniform", mu::real::Uniform(pm), fx, cs, 4); if (k == 2) cross_op("SimulatedBinary", cx::real::SimulatedBinary(p), fx, cs, 4), mut_op("Gauss", mu::real::Gauss(pm), fx, cs, 4); if (k == 3) cross_op("Wright", cx::real::Wright(p), fx, cs, 4), mut_op("Boundary", mu::real::Boundary(pm), fx, cs, 4); if (k == 4) mut_op("NonUniform", mu::real::NonUniform(pm), fx, cs, 4); }
    if (enc == 3) { static Fx<PermutationGene> fx(4); auto cs = perms(4); cs.resize(14); if (k == 0) cross_op("Order1", cx::perm::Order1(p), fx, cs, 3), mut_op("Shift", mu::perm::Shift(pm), fx, cs, 5); if (k == 1) cross_op("Order2", cx::perm::Order2(p), fx, cs, 3), mut_op("Inversion", mu::perm::Inversion(pm), fx, cs, 4); if (k == 2) cross_op("Position", cx::perm::Position(p), fx, cs, 4), mut_op("Swap2", mu::perm::Swap2(pm), fx, cs, 4); if (k == 3) cross_op("Cycle", cx::perm::Cycle(p), fx, cs, 2), mut_op("Swap3", mu::perm::Swap3(pm), fx, cs, 4); if (k == 4) cross_op("Edge", cx::perm::Edge(p), fx, cs, 2), mut_op("Shuffle", mu::perm::Shuffle(pm), fx, cs, 5); if (k == 5) cross_op("PMX", cx::perm::PMX(p), fx, cs, 3); }
}
/** Whole runs with the built-in operators: any of the first draws may deviate from the stream. */
template<typename T> struct Plain final : FitnessFunctionBase<T> { Plain(size_t n, bool two_, bool d) : FitnessFunctionBase<T>(n, d ? FitnessFunctionBase<T>::Type::Dynamic : FitnessFunctionBase<T>::Type::Static), two(two_) {} bool two; FitnessVector invoke(const Chrom<T>& c) const override { W.calls++; double s = value(c, 1); if (two) return { s, -s * s }; return { s }; } };
template<typename T> void whole(size_t len, bool big = false) {
    math::ScopedTolerances exact(0, 0); bool two = mc::flip(), dynamic = mc::flip(); size_t pop = big ? mc::pick<size_t>({ 20, 64, 65, 129, 257, 300 }) : mc::range(1, 5), gens = big ? (pop < 65 ? mc::pick<size_t>({ 12, 70 }) : 5) : mc::range(2, 6); if (big) len = mc::pick<size_t>({ len, 33, 70 }); double pc = mc::pick({ 0.5, 1.0 }), pm = mc::pick({ 0.05, 0.4 }); History ref; std::vector<std::vector<FitnessVector>> fit; uint64_t seed = mc::range(1, big ? mc::depth(1, 3) : mc::depth(3, 12));
    for (size_t cache : { 0, 1, big ? 20 : 3 }) { mcr::reset(seed); mcr::S().stream = seed * 77 + pop; W = {}; typename GaOf<T>::type ga(pop); ga.crossover_rate(pc); ga.mutation_rate(pm); ga.cache_size(cache); std::vector<std::vector<Chrom<T>>> pops; if (mc::thorough()) ga.keep_all_optimal_solutions(seed % 2);
        ga.on_generation_end([&](const GaInfo&) { pops.emplace_back(); for (auto& c : ga.population()) { auto f = value(c.chromosome, 1); MC_CHECK(c.is_evaluated && c.fitness[0] == f && c.fitness.size() == 1u + two && (!two || c.fitness[1] == -f * f), "a candidate has another chromosome's fitness", "seed %d, population %zu", (int)seed, pop); pops.back().push_back(c.chromosome); } });
        auto f = Plain<T>(len, two, dynamic); if constexpr (is_bounded<T>) ga.solve(f, BoundsVector<T>(len, Bounds<T>{ 0, 3 }), gens); else ga.solve(f, gens); static std::vector<std::vector<Chrom<T>>> first; static size_t calls0; if (cache == 0) first = pops, calls0 = W.calls; MC_CHECK(pops == first, "the cache changes the populations", "seed %d, population %zu", (int)seed, pop); MC_CHECK(dynamic ? W.calls == pop * gens + 1 : W.calls <= calls0, "the cache or the kind of the fitness function has a wrong effect on the number of evaluations", "%zu, %zu", W.calls, calls0); mc::state(mc::hmix(seed, W.calls * 8 + cache)); mc::step(); }
}
template<typename T> void tasks(const char* name, size_t k) {
    bool t = mc::thorough(); for (bool d : { false, true }) { auto n = fmt("%s%s", name, d ? " dynamic" : ""); mc::add_task(n + " 1", [=] { scripted<T>(1, 4, k, d, 5); }); mc::add_task(n + " 2", [=] { scripted<T>(2, 2, k, d, 5); }); if (!d || t) { mc::add_task(n + " 2 long", [=] { scripted<T>(2, 3, 2, d, t ? 5 : 1); }); mc::add_task(n + " 3", [=] { scripted<T>(3, 2, 2, d, t ? 5 : 1); }); } }
    mc::add_task(fmt("%s large caches", name), [=] { cached<T>(4); }); mc::add_task(fmt("%s runs", name), [] { whole<T>(std::is_same_v<T, RealGene> ? 2 : 4); }); mc::add_task(fmt("%s large runs", name), [] { whole<T>(std::is_same_v<T, RealGene> ? 2 : 4, true); });
}
void setup() { mcr::install(); for (size_t pop : { 1, 2 }) for (bool d : { false, true }) mc::add_task(fmt("equal hashes %zu%s", pop, d ? " dynamic" : ""), [=] { colliding = 1; struct Back { ~Back() { colliding = 0; } } back; scripted<IntegerGene>(pop, pop == 1 ? 4 : 2, 3, d, 5); });
    tasks<BinaryGene>("binary", 3); tasks<IntegerGene>("integer", mc::depth(2, 3)); tasks<RealGene>("real", mc::depth(2, 3)); tasks<PermutationGene>("permutation", mc::depth(2, 3)); const char* E[] = { "binary", "integer", "real", "permutation" }; for (int e = 0; e < 4; e++) mc::add_task(fmt("%s operators", E[e]), [=] { built_in(e); }); }
}
MC_MAIN(setup)
