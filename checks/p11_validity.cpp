// P11: every chromosome that a generator or an operator produces is valid for its encoding. Every sequence of raw draws for short chromosomes, deviations for long ones and whole runs.
#include "operators.hpp"
using namespace ops; namespace cx = crossover; namespace mu = mutation;
template<typename T> static const char* enc() { return std::is_same_v<T, BinaryGene> ? "binary" : std::is_same_v<T, RealGene> ? "real" : std::is_same_v<T, IntegerGene> ? "integer" : "permutation"; }
template<typename T> static uint64_t hash(const Chromosome<T>& c) { return mc::hbytes(c.data(), c.size() * sizeof(T), c.size() * 8 + sizeof(T)); }
template<typename T> static std::string bounds_text(const BoundsVector<T>& b) { std::string s; for (size_t i = 0; i < b.size() && i < 6; i++) s += fmt("[%.17g, %.17g] ", (double)b[i].lower(), (double)b[i].upper()); return s; }
template<typename T> static void ok(const Fx<T>& fx, const char* what, const Chromosome<T>& c) { if (!fx.valid(c)) mc::fail("an invalid chromosome", fmt("%s %s, bounds %s: %s", enc<T>(), what, bounds_text(fx.bounds).c_str(), show(c).c_str())); mc::state(hash(c)); }
// the bounds of the genes of a chromosome: a different pair for every position, starting at any of them
template<typename T> static std::vector<Bounds<T>> bound_set(int kind);
template<> std::vector<Bounds<RealGene>> bound_set(int kind) {
    if (kind == 0) return { { 0, 1 }, { -5.12, 5.12 }, { 3, 3 }, { 0.1, 0.3 }, { -2, -1 } };
    if (kind == 1) return { { 1e-310, 2e-310 }, { 1.0, std::nextafter(1.0, 2.0) }, { -0.0, 0.0 }, { 1e15, 1e15 + 1 }, { -1e-12, 1e-12 } };
    return { { -8e307, 8e307 }, { 0, 8e307 }, { -8e307, -1.0 }, { -1, 1 }, { 1e300, 1e301 } };
}
template<> std::vector<Bounds<IntegerGene>> bound_set(int kind) {
    constexpr int64_t L = std::numeric_limits<int64_t>::min(), H = std::numeric_limits<int64_t>::max();
    if (kind == 0) return { { 0, 1 }, { -3, 2 }, { 5, 5 }, { 10, 12 }, { -7, -6 } };
    if (kind == 1) return { { L, H }, { L, L }, { H - 1, H }, { 0, H }, { L, -1 } };
    return { { H, H }, { L, L + 1 }, { -1, 0 }, { 0, 0 }, { 0, int64_t(1) << 40 } };
}
template<typename T> static BoundsVector<T> pick_bounds(size_t n, int kinds = 3) { if constexpr (is_bounded<T>) { auto s = bound_set<T>(mc::range(0, kinds - 1)); size_t at = mc::range(0, (int)s.size() - 1); BoundsVector<T> b; for (size_t i = 0; i < n; i++) b.push_back(s[(at + i) % s.size()]); return b; } else return {}; }
/** Some valid chromosomes: all of them for short binary and permutation ones, the ends, the middle and a neighbour of the ends for the bounded ones. */
template<typename T> static std::vector<Chromosome<T>> valid_ones(size_t n, const BoundsVector<T>& b) {
    if constexpr (std::is_same_v<T, BinaryGene>) { if (n <= 3) return strings<T>(n, { 0, 1 }); Chromosome<T> z(n, 0), o(n, 1), m(n); for (size_t i = 0; i < n; i++) m[i] = i % 2; return { z, o, m }; }
    else if constexpr (std::is_same_v<T, PermutationGene>) { if (n <= 3) return perms(n); Chromosome<T> id(n), rev(n), rot(n); for (size_t i = 0; i < n; i++) id[i] = i, rev[i] = n - 1 - i, rot[i] = (i * 3 + 1) % n; if (n % 3 == 0) for (size_t i = 0; i < n; i++) rot[i] = (i + 1) % n; return { id, rev, rot }; }
    else { std::vector<Chromosome<T>> r(5); for (size_t i = 0; i < n; i++) { T lo = b[i].lower(), hi = b[i].upper(), in, mid; if constexpr (std::is_same_v<T, RealGene>) in = lo < hi ? std::nextafter(hi, lo) : hi, mid = std::clamp(lo / 2 + hi / 2, lo, hi); else in = lo < hi ? hi - 1 : hi, mid = T(lo / 2 + hi / 2); if constexpr (std::is_same_v<T, IntegerGene>) mid = std::clamp(mid, lo, hi);
        r[0].push_back(lo); r[1].push_back(hi); r[2].push_back(i % 2 ? in : lo); r[3].push_back(mid); r[4].push_back(i % 2 ? hi : in); } return r; }
}
// ---- generators: populations of 1 and 2 candidates; the first draws are those of the probe and of the candidates
template<typename T> static void generators(size_t n) {
    auto b = pick_bounds<T>(n); bool perm = std::is_same_v<T, PermutationGene>; size_t pop = mc::range(1, 2); unsigned a = perm ? (n <= 2 ? 3 : n == 3 ? 6 : 12) : n <= 2 ? 6 : 2; int points = std::min<int>(perm ? (n > 4 ? 3 : 4) : 6, int((pop + 1) * n));
    all_draws({ a }, points, [&] { typename GaOf<T>::type ga(pop); if constexpr (is_bounded<T>) ga.solve(std::make_unique<Fit<T>>(n), b, 1); else ga.solve(std::make_unique<Fit<T>>(n), 1);
        struct V { size_t len; const BoundsVector<T>& bounds; }; static thread_local std::unique_ptr<Fx<T>> fx; if (!fx || fx->len != n || pop == 0) { auto s = mcr::S(); fx = std::make_unique<Fx<T>>(n, b); mcr::S() = s; } fx->bounds = b; MC_CHECK(ga.population().size() == pop, "wrong population size", "%zu", ga.population().size());
        for (auto& c : ga.population()) ok(*fx, "generated", c.chromosome); });
}
/** Every valid chromosome, and with more candidates every population, can be the initial one (for real genes: chromosomes in every quarter of their bounds). */
template<typename T> static void reachable(size_t n, size_t pop) {
    BoundsVector<T> b; size_t at = 0; if constexpr (is_bounded<T>) { auto s = bound_set<T>(0); at = mc::range(0, (int)s.size() - 1); for (size_t i = 0; i < n; i++) b.push_back(s[(at + i) % s.size()]); }
    auto cell = [&](const Chromosome<T>& c, size_t i) -> size_t { if constexpr (std::is_same_v<T, RealGene>) { double w = b[i].upper() - b[i].lower(); return w > 0 ? std::min(3.0, std::floor(4 * ((c[i] - b[i].lower()) / w))) : 0; } else if constexpr (std::is_same_v<T, IntegerGene>) return c[i] - b[i].lower(); else return c[i]; };
    auto cells = [&](size_t i) -> size_t { if constexpr (std::is_same_v<T, RealGene>) return b[i].upper() > b[i].lower() ? 4 : 1; else if constexpr (std::is_same_v<T, IntegerGene>) return b[i].upper() - b[i].lower() + 1; else return 2; };
    size_t one = 1; if constexpr (std::is_same_v<T, PermutationGene>) for (size_t i = 2; i <= n; i++) one *= i; else for (size_t i = 0; i < n; i++) one *= cells(i); size_t total = 1; for (size_t k = 0; k < pop; k++) total *= one;
    std::set<std::vector<size_t>> seen; bool perm = std::is_same_v<T, PermutationGene>; size_t draws = perm ? std::max<size_t>(1, n - 1) : n;
    auto run = [&] { typename GaOf<T>::type ga(pop); bool first = true; std::vector<size_t> got; ga.on_generation_end([&](const GaInfo&) { if (first) for (auto& c : ga.population()) { MC_CHECK(c.chromosome.size() == n, "an invalid chromosome", "length %zu instead of %zu", c.chromosome.size(), n); for (size_t i = 0; i < n; i++) got.push_back(cell(c.chromosome, i)); } first = false; });
        if constexpr (is_bounded<T>) ga.solve(std::make_unique<Fit<T>>(n), b, 1); else ga.solve(std::make_unique<Fit<T>>(n), 1); seen.insert(got); mc::state(mc::hbytes(got.data(), got.size() * sizeof(size_t), n * 8 + pop)); };
    all_draws({ std::is_same_v<T, BinaryGene> ? 2u : perm && n > 3 ? 4u : 6u }, int((pop + 1) * draws), run); if (std::is_same_v<T, BinaryGene>) all_draws({ 256 }, 1, run); if (perm && n > 3) all_draws({ 12 }, 4, run); // all bits, or two swaps, may come from one draw
    MC_CHECK(seen.size() == total, "some initial populations cannot occur", "%s: only %zu of the %zu populations of %zu candidates of length %zu occur over all random draws, bounds %s", enc<T>(), seen.size(), total, pop, n, bounds_text(b).c_str());
}
/** Longer chromosomes: every gene of the initial candidate can have every value (every quarter of its bounds), over all single deviations from ten patterns of random draws. */
template<typename T> struct Count final : FitnessFunctionBase<T> { mutable std::vector<uint64_t>* at; Count(size_t n, std::vector<uint64_t>* v) : FitnessFunctionBase<T>(n), at(v) {} FitnessVector invoke(const Chromosome<T>&) const override { at->push_back(mcr::S().draws); return { 0.0 }; } };
template<typename T> static void everywhere(size_t n) {
    BoundsVector<T> b; if constexpr (is_bounded<T>) { auto s = bound_set<T>(0); for (size_t i = 0; i < n; i++) b.push_back(s[i % s.size()]); } size_t probe = 0, per = 0; bool perm = std::is_same_v<T, PermutationGene>; std::vector<std::set<size_t>> seen(n);
    auto run = [&] { std::vector<uint64_t> at; typename GaOf<T>::type ga(1); bool first = true; ga.on_generation_end([&](const GaInfo&) { if (first) { auto& c = ga.population()[0].chromosome; MC_CHECK(c.size() == n, "an invalid chromosome", "length %zu instead of %zu", c.size(), n); mc::state(hash(c)); for (size_t i = 0; i < n; i++) { size_t x; if constexpr (std::is_same_v<T, RealGene>) { double w = b[i].upper() - b[i].lower(); x = w > 0 ? std::min(3.0, std::floor(4 * ((c[i] - b[i].lower()) / w))) : 0; } else if constexpr (std::is_same_v<T, IntegerGene>) x = c[i] - b[i].lower(); else x = c[i]; seen[i].insert(x); } } first = false; });
        auto f = std::make_unique<Count<T>>(n, &at); if constexpr (is_bounded<T>) ga.solve(std::move(f), b, 1); else ga.solve(std::move(f), 1); if (at.size() < 2) return; probe = at[0], per = at[1] - at[0]; };
    mcr::reset(); run(); if (per == 0) per = 1; auto letters = mcr::make_alphabet(perm ? n * n : 12); size_t draws = probe + per, from = probe ? probe : 0; // a candidate that shares a draw with the probe has bits left from it
    if (from >= draws || std::is_same_v<T, BinaryGene>) from = 0;
    for (int p = 0; p < mcr::PATTERNS; p++) for (size_t j = from; j < draws; j++) for (auto v : letters) { mcr::pattern(p, draws); auto& s = mcr::S(); uint64_t x = p * 77 + 5; while (s.forced.size() < draws) s.forced.push_back(mcr::splitmix(x)); s.forced[j] = v; mc::case_(); run(); }
    for (size_t i = 0; i < n; i++) { size_t want; if constexpr (std::is_same_v<T, RealGene>) want = b[i].upper() > b[i].lower() ? 4 : 1; else if constexpr (std::is_same_v<T, IntegerGene>) want = b[i].upper() - b[i].lower() + 1; else want = perm ? n : 2; MC_CHECK(seen[i].size() == want, "a gene of an initial candidate cannot have every value", "%s: gene %zu of %zu has only %zu of %zu values over all deviations, bounds %s", enc<T>(), i, n, seen[i].size(), want, bounds_text(b).c_str()); }
    mcr::reset();
}
// ---- operators
template<typename T> using COp = std::unique_ptr<cx::Crossover<T>>; template<typename T> using MOp = std::unique_ptr<mu::Mutation<T>>;
/** The k-th crossover with one of its parameter settings; wide: bounds whose extended ranges are not representable. */
template<typename T> static COp<T> crossover_op(int k, size_t n, bool wide, std::string& name) {
    auto set = [&](const char* s, double v, auto o) -> COp<T> { name = fmt("%s(%g)", s, v); return COp<T>(new decltype(o)(o)); };
    if constexpr (std::is_same_v<T, BinaryGene> || std::is_same_v<T, IntegerGene>) {
        using B = std::conditional_t<std::is_same_v<T, BinaryGene>, cx::binary::SinglePoint, cx::integer::SinglePoint>; using W = std::conditional_t<std::is_same_v<T, BinaryGene>, cx::binary::TwoPoint, cx::integer::TwoPoint>; using N = std::conditional_t<std::is_same_v<T, BinaryGene>, cx::binary::NPoint, cx::integer::NPoint>; using U = std::conditional_t<std::is_same_v<T, BinaryGene>, cx::binary::Uniform, cx::integer::Uniform>;
        if (k == 0) return set("SinglePoint", 0, B(1.0)); if (k == 1) return set("TwoPoint", 0, W(1.0)); if (k == 2) { size_t p = mc::pick<size_t>({ 1, 2, 3, n, n + 1, 1000 }); return set("NPoint", p, N(1.0, p)); } double ps = mc::pick<double>({ 0.0, 0.5, 1.0 }); return set("Uniform", ps, U(1.0, ps));
    } else if constexpr (std::is_same_v<T, RealGene>) {
        if (k == 0) return set("Arithmetic", 0, cx::real::Arithmetic(1.0)); if (k == 1) { double al = wide ? 0.0 : mc::pick<double>({ 0.0, 0.5, 1e3 }); return set("BLXa", al, cx::real::BLXa(1.0, al)); } if (k == 2) { double e = mc::pick<double>({ 0.0, 1.0, 4.0, 1000.0 }); return set("SimulatedBinary", e, cx::real::SimulatedBinary(1.0, e)); } return set("Wright", 0, cx::real::Wright(1.0));
    } else switch (k) { case 0: return set("Order1", 0, cx::perm::Order1(1.0)); case 1: return set("Order2", 0, cx::perm::Order2(1.0)); case 2: return set("PMX", 0, cx::perm::PMX(1.0)); case 3: return set("Position", 0, cx::perm::Position(1.0)); case 4: return set("Cycle", 0, cx::perm::Cycle(1.0)); default: return set("Edge", 0, cx::perm::Edge(1.0)); }
}
template<typename T> static MOp<T> mutation_op(int k, double pm, bool wide, std::string& name) {
    auto set = [&](const char* s, double v, auto o) -> MOp<T> { name = fmt("%s(%g, rate %g)", s, v, pm); return MOp<T>(new decltype(o)(o)); };
    if constexpr (std::is_same_v<T, BinaryGene>) return set("Flip", 0, mu::binary::Flip(pm)); else if constexpr (std::is_same_v<T, IntegerGene>) return set("Uniform", 0, mu::integer::Uniform(pm));
    else if constexpr (std::is_same_v<T, RealGene>) switch (k) { case 0: return set("Uniform", 0, mu::real::Uniform(pm)); case 1: { double b = mc::pick<double>({ 0.0, 2.0, 1000.0 }); return set("NonUniform", b, mu::real::NonUniform(pm, b)); } case 2: { double s = wide ? 1000.0 : mc::pick<double>({ 1e-3, 6.0, 1e300 }); return set("Gauss", s, mu::real::Gauss(pm, s)); } case 3: { double e = mc::pick<double>({ 0.0, 40.0, 1e300 }); return set("Polynomial", e, mu::real::Polynomial(pm, e)); } default: return set("Boundary", 0, mu::real::Boundary(pm)); }
    else { double r = k == 1 || k == 2 ? 0 : mc::pick<double>({ 0.0, 0.3, 0.75, 1.0 }); switch (k) { case 0: return set("Inversion", r, mu::perm::Inversion(pm, r)); case 1: return set("Swap2", 0, mu::perm::Swap2(pm)); case 2: return set("Swap3", 0, mu::perm::Swap3(pm)); case 3: return set("Shuffle", r, mu::perm::Shuffle(pm, r)); default: return set("Shift", r, mu::perm::Shift(pm, r)); } }
}
template<typename T> static int crossover_count() { return std::is_same_v<T, PermutationGene> ? 6 : 4; }
template<typename T> static int mutation_count() { return std::is_same_v<T, PermutationGene> || std::is_same_v<T, RealGene> ? 5 : 1; }
template<typename T> static bool is_wide(const BoundsVector<T>& b) { if constexpr (std::is_same_v<T, RealGene>) { for (auto& x : b) if (x.upper() - x.lower() > 1e300) return true; } return false; }
template<typename T> static void crossovers(size_t n) {
    auto b = pick_bounds<T>(n); Fx<T> fx(n, b); std::string name; auto op = crossover_op<T>(mc::range(0, crossover_count<T>() - 1), n, is_wide(b), name); auto set = valid_ones<T>(n, b); math::ScopedTolerances exact(0, 0); bool real = std::is_same_v<T, RealGene>;
    for (size_t i = 0; i < set.size(); i++) { mcr::reset(); auto p1 = fx.cand(set[i], 1); for (size_t j = 0; j < set.size(); j++) { auto p2 = fx.cand(set[j], j % 2 ? 2 : 0); if (set[i] == set[j]) continue;
        all_draws({ 1, n <= 2 ? 6u : real ? 2u : 3u, real ? 1u : n <= 3 ? 3u : 1u }, std::min<int>(1 + 2 * n, n <= 2 ? 5 : n == 3 ? 6 : 5), [&] { auto r = cross(fx, *op, p1, p2); ok(fx, name.c_str(), r.first); ok(fx, name.c_str(), r.second); }); } }
}
template<typename T> static void mutations(size_t n) {
    auto b = pick_bounds<T>(n); bool nonuniform = false; int k = mc::range(0, mutation_count<T>() - 1); nonuniform = std::is_same_v<T, RealGene> && k == 1; size_t gens = nonuniform ? mc::pick<size_t>({ 1, 3 }) : 1;
    Fx<T> fx(n, b, gens, gens + (nonuniform ? mc::pick<size_t>({ 0, 1, 500 }) : 1)); std::string name; auto op = mutation_op<T>(k, mc::pick<double>({ 0.4, 1.0 }), is_wide(b), name); auto set = valid_ones<T>(n, b); math::ScopedTolerances exact(0, 0); bool perm = std::is_same_v<T, PermutationGene>;
    std::vector<unsigned> d; if (perm) d = { 2, (unsigned)n + 1 }; else { bool cut = !mc::thorough() && n > 2; for (size_t i = 0; i < n; i++) d.push_back(cut ? 0 : 2); d.push_back(n <= 2 ? mc::depth(4, 8) : cut ? 2 : 3); }
    for (auto& c : set) all_draws(d, perm ? 4 : n <= 2 ? int(n) + 4 : int(n) + 3, [&] { auto r = mutated(fx, *op, c); ok(fx, name.c_str(), r); });
}
// ---- long chromosomes
template<typename T> static void long_ones(size_t n) {
    auto b = pick_bounds<T>(n, 2); Fx<T> fx(n, b); math::ScopedTolerances exact(0, 0); auto set = valid_ones<T>(n, b); auto& c = set[mc::range(0, 1) ? set.size() - 1 : 0]; auto& e = set[1]; std::string name; bool m = mc::flip(); mcr::reset(); mcr::stream(n * 31 + m);
    if (m) { auto op = mutation_op<T>(mc::range(0, mutation_count<T>() - 1), mc::pick<double>({ 0.02, 0.5, 1.0 }), false, name); mcr::deviations(12, 6); auto r = mutated(fx, *op, c); mcr::S().points = 0; ok(fx, name.c_str(), r); }
    else { auto op = crossover_op<T>(mc::range(0, crossover_count<T>() - 1), n, false, name); mcr::deviations(12, 6); auto r = cross(fx, *op, fx.cand(c, 1), fx.cand(e, 2)); mcr::S().points = 0; ok(fx, name.c_str(), r.first); ok(fx, name.c_str(), r.second); }
}
// ---- whole runs: every chromosome that reaches the fitness function, for every operator pair, with deviating random numbers
template<typename T> struct Checked final : FitnessFunctionBase<T> { const Fx<T>& fx; const char* what; mutable size_t calls = 0; Checked(size_t n, const Fx<T>& f, const char* w) : FitnessFunctionBase<T>(n), fx(f), what(w) {} FitnessVector invoke(const Chromosome<T>& c) const override { ok(fx, what, c); return { double(calls++ % 3) }; } };
template<typename T> static void runs(size_t n) {
    auto b = pick_bounds<T>(n, 2); Fx<T> fx(n, b); std::string a, m; typename GaOf<T>::type ga(3); bool wide = is_wide(b); int ck = mc::range(0, crossover_count<T>() - 1), mk = mc::range(0, mutation_count<T>() - 1); auto cop = crossover_op<T>(ck, n, wide, a); auto mop = mutation_op<T>(mk, 0.5, wide, m); cop->crossover_rate(0.9); ga.crossover_method(std::move(cop)); ga.mutation_method(std::move(mop)); std::string what = a + " and " + m;
    mcr::reset(); mcr::stream(n * 97); mcr::deviations(mc::depth(24, 60), 4); auto f = std::make_unique<Checked<T>>(n, fx, what.c_str()); if constexpr (is_bounded<T>) ga.solve(std::move(f), b, 4); else ga.solve(std::move(f), 4); mcr::S().points = 0; for (auto& c : ga.population()) ok(fx, what.c_str(), c.chromosome); for (auto& c : ga.solutions()) ok(fx, what.c_str(), c.chromosome);
}
template<typename T> static void all_of() {
    bool t = mc::thorough(); for (size_t n = 1; n <= (t ? 5u : 4u); n++) { mc::add_task(fmt("%s generated %zu", enc<T>(), n), [=] { generators<T>(n); }); mc::add_task(fmt("%s crossovers %zu", enc<T>(), n), [=] { crossovers<T>(n); }); mc::add_task(fmt("%s mutations %zu", enc<T>(), n), [=] { mutations<T>(n); }); }
    constexpr bool perm = std::is_same_v<T, PermutationGene>; for (auto [n, k] : std::vector<std::pair<size_t, size_t>>{ { 1, 1 }, { 2, 1 }, { 3, 1 }, { 4, 1 }, { 1, 2 }, { 2, 2 }, { 3, 2 }, { 1, 3 } }) { bool bin = std::is_same_v<T, BinaryGene>; if ((k + 1) * (perm ? n - 1 : n) > (bin ? 8u : perm ? (n > 3 ? 6u : 4u) : 4u)) continue; mc::add_task(fmt("%s reachable %zu x %zu", enc<T>(), n, k), [n = n, k = k] { reachable<T>(n, k); }); }
    for (size_t n : { 5, 6, 7, 8, 12 }) mc::add_task(fmt("%s everywhere %zu", enc<T>(), n), [=] { everywhere<T>(n); }); if (!perm) for (size_t n : { 70, 200 }) mc::add_task(fmt("%s everywhere %zu", enc<T>(), n), [=] { everywhere<T>(n); });
    for (size_t n : { 10, 65, 130, 257, 300 }) mc::add_task(fmt("%s long %zu", enc<T>(), n), [=] { long_ones<T>(n); }, t ? 2 : 1);
    for (size_t n : { 1, 2, 3, 5 }) mc::add_task(fmt("%s runs %zu", enc<T>(), n), [=] { runs<T>(n); }, t ? 2 : 1);
}
static void setup() { mcr::install(); all_of<BinaryGene>(); all_of<RealGene>(); all_of<IntegerGene>(); all_of<PermutationGene>(); }
MC_MAIN(setup)
