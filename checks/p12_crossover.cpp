// P12: crossover children inherit from their parents as documented. Every sequence of raw random draws is tried for every parent pair of the bounded spaces.
#include "operators.hpp"
#include "crossover/crossover_impl.hpp"
using namespace ops; namespace cx = crossover;
template<typename T> using PSet = std::set<Pair<T>>;
template<typename T> using Chrom = Chromosome<T>; using Perm = Chromosome<PermutationGene>;
template<typename T> static void same_sets(const std::string& name, const PSet<T>& got, const PSet<T>& want, const Chrom<T>& p1, const Chrom<T>& p2) {
    for (auto& g : got) MC_CHECK(want.count(g), "the children are not what the operator documents", "%s of %s and %s gives %s", name.c_str(), show(p1).c_str(), show(p2).c_str(), show(g).c_str());
    for (auto& w : want) MC_CHECK(got.count(w), "documented children can never be produced", "%s of %s and %s never gives %s", name.c_str(), show(p1).c_str(), show(p2).c_str(), show(w).c_str());
}
template<typename T> static uint64_t hash(const Chrom<T>& c) { return mc::hbytes(c.data(), c.size() * sizeof(T), c.size()); }
// ---- the crossover rate, with a user defined operator that counts its calls
template<typename T> struct Probe final : cx::Crossover<T> { mutable int calls = 0; bool swap = true; using cx::Crossover<T>::Crossover; private: CandidatePair<T> crossover(const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) const override { calls++; Candidate<T> x(b.chromosome), y(a.chromosome); return { x, y }; } };
static void rates() {
    Fx<BinaryGene> fx(2); auto a = fx.cand({ 0, 1 }, 1), b = fx.cand({ 1, 0 }, 2);
    for (double pc : { 0.0, 1e-18, 0.25, 0.5, 0.75, 1.0 - 1e-16, 1.0 }) {
        Probe<BinaryGene> op(0.3); op.crossover_rate(pc); MC_CHECK(op.crossover_rate() == pc, "wrong crossover rate", "%g", pc); int applied = 0, all = 0;
        all_draws({ 64 }, 1, [&] { op.calls = 0; auto r = static_cast<cx::Crossover<BinaryGene>&>(op)(fx.ga, a, b); all++; applied += op.calls; mc::step();
            MC_CHECK(op.calls <= 1, "the crossover is applied more than once", "%d", op.calls); if (pc == 0.0) MC_CHECK(op.calls == 0, "the crossover is applied with rate zero", ""); if (pc == 1.0) MC_CHECK(op.calls == 1, "the crossover is not applied with rate one", "");
            bool copies = r.first.chromosome == a.chromosome && r.second.chromosome == b.chromosome; MC_CHECK(copies == !op.calls, "the children of a skipped crossover are not copies of the parents", "rate %g", pc);
            if (copies) MC_CHECK(r.first.is_evaluated && r.second.is_evaluated && r.first.fitness == a.fitness && r.second.fitness == b.fitness, "the copies of the parents lost their fitness", "rate %g", pc);
            else MC_CHECK(r.first.is_evaluated && r.second.is_evaluated && r.first.fitness == b.fitness && r.second.fitness == a.fitness, "a child equal to a parent does not have its fitness", "rate %g", pc); });
        // 64 equidistant draws and the two extremes: the operator is applied for the share of them that the rate says
        double share = double(applied) / all; MC_CHECK(std::abs(share - pc) <= 3.0 / 64, "the crossover is not applied with the set probability", "rate %g, share %g", pc, share);
    }
    // equal parents give copies for every built-in operator and rate
    auto c = fx.cand({ 1, 1 }, 3); for (double pc : { 0.0, 1.0 }) { cx::binary::TwoPoint op(pc); all_draws({ 4 }, 3, [&] { auto r = static_cast<cx::Crossover<BinaryGene>&>(op)(fx.ga, c, c); mc::step(); MC_CHECK(r.first == c && r.second == c && r.first.is_evaluated && r.second.is_evaluated && r.first.fitness == c.fitness, "equal parents do not give copies", ""); }); }
}
// rate zero gives exact copies with every built-in operator, for every draw
template<typename T> static void rate_zero(const char* name, cx::Crossover<T>& op, const BoundsVector<T>& bounds, const Chrom<T>& p1, const Chrom<T>& p2) {
    Fx<T> fx(p1.size(), bounds); op.crossover_rate(0.0); auto a = fx.cand(p1, 1), b = fx.cand(p2, 2);
    all_draws({ 16 }, 2, [&] { auto r = op(fx.ga, a, b); mc::step(); MC_CHECK(r.first.chromosome == p1 && r.second.chromosome == p2 && r.first.is_evaluated && r.second.is_evaluated && r.first.fitness == a.fitness && r.second.fitness == b.fitness, "the crossover is applied with rate zero", "%s", name); });
    // rate one: some draw changes the children (none of these operators is the identity for these parents), whatever the draw of the rate is
    op.crossover_rate(1.0); for (uint64_t first : letters(3)) { bool changed = false; all_draws({ 0, 6 }, 8, [&] { mcr::S().forced[0] = first; auto r = op(fx.ga, a, b); mc::step(); changed |= sorted<T>({ r.first.chromosome, r.second.chromosome }) != sorted<T>({ p1, p2 }); }, 7); MC_CHECK(changed, "the crossover is not applied with rate one", "%s", name); }
}
static void rate_zero_all() {
    namespace b = cx::binary; namespace i = cx::integer; namespace r = cx::real; namespace p = cx::perm;
    switch (mc::range(0, 17)) {
    case 0: { b::SinglePoint o(1.0); rate_zero<BinaryGene>("SinglePoint", o, {}, { 0, 0, 0 }, { 1, 1, 1 }); break; } case 1: { b::TwoPoint o(1.0); rate_zero<BinaryGene>("TwoPoint", o, {}, { 0, 0, 0 }, { 1, 1, 1 }); break; }
    case 2: { b::NPoint o(1.0, 2); rate_zero<BinaryGene>("NPoint", o, {}, { 0, 0, 0 }, { 1, 1, 1 }); break; } case 3: { b::Uniform o(1.0); rate_zero<BinaryGene>("Uniform", o, {}, { 0, 0, 0 }, { 1, 1, 1 }); break; }
    case 4: { i::SinglePoint o(1.0); rate_zero<IntegerGene>("int SinglePoint", o, { 3, { 0, 9 } }, { 0, 0, 0 }, { 1, 1, 1 }); break; } case 5: { i::TwoPoint o(1.0); rate_zero<IntegerGene>("int TwoPoint", o, { 3, { 0, 9 } }, { 0, 0, 0 }, { 1, 1, 1 }); break; }
    case 6: { i::NPoint o(1.0, 2); rate_zero<IntegerGene>("int NPoint", o, { 3, { 0, 9 } }, { 0, 0, 0 }, { 1, 1, 1 }); break; } case 7: { i::Uniform o(1.0); rate_zero<IntegerGene>("int Uniform", o, { 3, { 0, 9 } }, { 0, 0, 0 }, { 1, 1, 1 }); break; }
    case 8: { r::Arithmetic o(1.0); rate_zero<RealGene>("Arithmetic", o, { 2, { 0, 9 } }, { 1, 1 }, { 2, 3 }); break; } case 9: { r::BLXa o(1.0); rate_zero<RealGene>("BLXa", o, { 2, { 0, 9 } }, { 1, 1 }, { 2, 3 }); break; }
    case 10: { r::SimulatedBinary o(1.0); rate_zero<RealGene>("SimulatedBinary", o, { 2, { 0, 9 } }, { 1, 1 }, { 2, 3 }); break; } case 11: { r::Wright o(1.0); rate_zero<RealGene>("Wright", o, { 2, { 0, 9 } }, { 1, 1 }, { 2, 3 }); break; }
    case 12: { p::Order1 o(1.0); rate_zero<PermutationGene>("Order1", o, {}, { 0, 1, 2, 3 }, { 3, 1, 0, 2 }); break; } case 13: { p::Order2 o(1.0); rate_zero<PermutationGene>("Order2", o, {}, { 0, 1, 2, 3 }, { 3, 1, 0, 2 }); break; }
    case 14: { p::Position o(1.0); rate_zero<PermutationGene>("Position", o, {}, { 0, 1, 2, 3 }, { 3, 1, 0, 2 }); break; } case 15: { p::Cycle o(1.0); rate_zero<PermutationGene>("Cycle", o, {}, { 0, 1, 2, 3 }, { 1, 0, 3, 2 }); break; }
    case 16: { p::Edge o(1.0); rate_zero<PermutationGene>("Edge", o, {}, { 0, 1, 2, 3, 4 }, { 3, 1, 4, 0, 2 }); break; } case 17: { p::PMX o(1.0); rate_zero<PermutationGene>("PMX", o, {}, { 0, 1, 2, 3 }, { 3, 1, 0, 2 }); break; }
    }
}
// ---- position preserving operators: the children are decoded into the set of exchanged positions, up to the order of the children
template<typename T> static uint64_t decode(const char* name, const Chrom<T>& p1, const Chrom<T>& p2, const Pair<T>& r) {
    uint64_t m = 0; MC_CHECK(r.first.size() == p1.size() && r.second.size() == p1.size(), "wrong child length", "%s", name);
    for (size_t i = 0; i < p1.size(); i++) {
        bool same = r.first[i] == p1[i] && r.second[i] == p2[i], swapped = r.first[i] == p2[i] && r.second[i] == p1[i];
        MC_CHECK(same || swapped, "the genes of the children at a position are not those of the parents", "%s, position %zu: %s and %s give %s", name, i, show(p1).c_str(), show(p2).c_str(), show(r).c_str()); if (!same) m |= 1ull << i;
    }
    return m;
}
static uint64_t canonical(uint64_t m, size_t n) { return (m & 1) ? ~m & ((1ull << n) - 1) : m; }
static int transitions(uint64_t m, size_t n) { int t = 0; for (size_t i = 1; i < n; i++) t += ((m >> i) ^ (m >> (i - 1))) & 1; return t; }
template<typename T> struct Ends { static std::pair<Chrom<T>, Chrom<T>> of(size_t n) { Chrom<T> a(n), b(n); for (size_t i = 0; i < n; i++) if constexpr (std::is_same_v<T, BinaryGene>) a[i] = i % 2, b[i] = 1 - i % 2; else a[i] = 10 + i, b[i] = -5 - (int)i; return { a, b }; } };
template<typename T, typename Op> static void masks(const char* name, Op op, size_t n, const std::vector<unsigned>& draws, int points, std::function<bool(uint64_t)> allowed) {
    Fx<T> fx(n, [&] { if constexpr (is_bounded<T>) return BoundsVector<T>(n, { -100, 100 }); else return BoundsVector<T>(); }()); auto [p1, p2] = Ends<T>::of(n); op.crossover_rate(1.0); std::set<uint64_t> got; auto a = fx.cand(p1, 1), b = fx.cand(p2, 2);
    all_draws(draws, points, [&] { uint64_t m = canonical(decode<T>(name, p1, p2, cross(fx, op, a, b)), n); got.insert(m); mc::state(mc::hmix(m, n * 64 + sizeof(T)));
        MC_CHECK(allowed(m), "the segments of the children do not match the crossover points", "%s, length %zu: exchanged positions %llx", name, n, (unsigned long long)m); });
    for (uint64_t m = 0; m < (1ull << n); m += 2) if (allowed(m)) MC_CHECK(got.count(m), "documented children can never be produced", "%s, length %zu: exchanged positions %llx", name, n, (unsigned long long)m);
}
template<typename T> struct Ops; template<> struct Ops<BinaryGene> { using S = cx::binary::SinglePoint; using W = cx::binary::TwoPoint; using N = cx::binary::NPoint; using U = cx::binary::Uniform; }; template<> struct Ops<IntegerGene> { using S = cx::integer::SinglePoint; using W = cx::integer::TwoPoint; using N = cx::integer::NPoint; using U = cx::integer::Uniform; };
template<typename T> static void position_ops(int op, size_t n) {
    unsigned l = n + 1; std::vector<unsigned> d{ 1, l };
    if (op == 0) masks<T>("SinglePoint", typename Ops<T>::S(1.0), n, d, 2, [=](uint64_t m) { return transitions(m, n) <= 1; });
    if (op == 1) masks<T>("TwoPoint", typename Ops<T>::W(1.0), n, d, 3, [=](uint64_t m) { return transitions(m, n) <= 2; });
    // n points are drawn from the positions in front of the genes; a point in front of the first gene has no visible effect
    if (op == 2) for (size_t k = 1; k <= n + 2; k++) masks<T>("NPoint", typename Ops<T>::N(1.0, k), n, d, 1 + n / 2 + 1, [=](uint64_t m) { int t = transitions(m, n), e = std::min(k, n); return t == e || t == e - 1; });
    if (op == 3) { std::vector<unsigned> u{ 1 }; for (size_t i = 0; i < n; i++) u.push_back(0); u.push_back(n); masks<T>("Uniform", typename Ops<T>::U(1.0, 0.5), n, u, 1 + n + n / 2 + 1, [](uint64_t) { return true; }); masks<T>("Uniform 0", typename Ops<T>::U(1.0, 0.0), n, u, 1 + n + n / 2 + 1, [](uint64_t m) { return m == 0; }); masks<T>("Uniform 1", typename Ops<T>::U(1.0, 1.0), n, u, 1 + n + n / 2 + 1, [](uint64_t m) { return m == 0; }); }
}
// all parents, equal genes included: the genes of each position are kept
template<typename T> static void all_parents(int op, size_t n) {
    Fx<T> fx(n, [&] { if constexpr (is_bounded<T>) return BoundsVector<T>(n, { -100, 100 }); else return BoundsVector<T>(); }()); std::vector<T> a; if constexpr (std::is_same_v<T, BinaryGene>) a = { 0, 1 }; else a = { -7, 0, 3 };
    auto all = strings<T>(n, a); auto& p1 = mc::pick_from(all); mc::state(hash(p1));
    auto go = [&](const char* name, auto o, std::vector<unsigned> d, int points) { o.crossover_rate(1.0); for (auto& p2 : all) { auto x = fx.cand(p1, 1), y = fx.cand(p2, 2); all_draws(d, points, [&] { decode<T>(name, p1, p2, cross(fx, o, x, y)); }); } };
    unsigned l = n + 1; std::vector<unsigned> d{ 1, l }, u{ 1 }; for (size_t i = 0; i < n; i++) u.push_back(0); u.push_back(n);
    if (op == 0) go("SinglePoint", typename Ops<T>::S(1.0), d, 2); if (op == 1) go("TwoPoint", typename Ops<T>::W(1.0), d, 3); if (op == 2) go("NPoint", typename Ops<T>::N(1.0, 2), d, 3); if (op == 3) go("Uniform", typename Ops<T>::U(1.0, 0.5), u, 2 * n + 1);
}
// long chromosomes, where other sampling methods are used: deviations from a fixed stream
template<typename T> static void long_ones(size_t n) {
    Fx<T> fx(n, [&] { if constexpr (is_bounded<T>) return BoundsVector<T>(n, { -1000, 1000 }); else return BoundsVector<T>(); }()); auto [p1, p2] = Ends<T>::of(n); int op = mc::range(0, 3); size_t k = op == 2 ? mc::pick<size_t>({ 3, 4, n / 2, n - 1, n }) : 0; double ps = op == 3 ? mc::pick<double>({ 0.0, 0.02, 0.3, 0.5, 1.0 }) : 0; auto a = fx.cand(p1, 1), b = fx.cand(p2, 2);
    mcr::stream(n * 7 + k); mcr::deviations(40, 6); Pair<T> r; const char* name = "";
    if (op == 0) r = cross(fx, typename Ops<T>::S(1.0), a, b), name = "SinglePoint"; if (op == 1) r = cross(fx, typename Ops<T>::W(1.0), a, b), name = "TwoPoint"; if (op == 2) r = cross(fx, typename Ops<T>::N(1.0, k), a, b), name = "NPoint"; if (op == 3) r = cross(fx, typename Ops<T>::U(1.0, ps), a, b), name = "Uniform"; mcr::S().points = 0;
    std::vector<int> m(n); size_t ones = 0; int t = 0; for (size_t i = 0; i < n; i++) { bool same = r.first[i] == p1[i] && r.second[i] == p2[i], sw = r.first[i] == p2[i] && r.second[i] == p1[i]; MC_CHECK(same || sw, "the genes of the children at a position are not those of the parents", "%s, length %zu, position %zu", name, n, i); m[i] = sw; ones += sw; if (i) t += m[i] != m[i - 1]; }
    mc::state(hash(r.first)); if (op == 0) MC_CHECK(t <= 1, "the segments of the children do not match the crossover points", "SinglePoint, length %zu: %d", n, t); if (op == 1) MC_CHECK(t <= 2, "the segments of the children do not match the crossover points", "TwoPoint, length %zu: %d", n, t);
    if (op == 2) MC_CHECK(t == (int)k || t == (int)k - 1, "the segments of the children do not match the crossover points", "NPoint(%zu), length %zu: %d", k, n, t); if (op == 3 && (ps == 0.0 || ps == 1.0)) MC_CHECK(ones == 0 || ones == n, "the segments of the children do not match the crossover points", "Uniform(%g), length %zu: %zu", ps, n, ones);
}
// ---- permutations
using Ref = Perm (*)(const Perm&, const Perm&, size_t, size_t);
static Perm order1(const Perm& a, const Perm& b, size_t f, size_t l) { size_t n = a.size(); Perm c(n); std::vector<bool> used(n); for (size_t i = f; i < l; i++) c[i] = a[i], used[a[i]] = true; size_t at = l % n; for (size_t k = 0; k < n; k++) { size_t g = b[(l + k) % n]; if (!used[g]) { c[at] = g; at = (at + 1) % n; } } return c; }
static Perm order2(const Perm& a, const Perm& b, size_t f, size_t l) { size_t n = a.size(); Perm c; std::vector<size_t> rest; for (size_t g : b) if (std::find(a.begin() + f, a.begin() + l, g) == a.begin() + l) rest.push_back(g); size_t k = 0; for (size_t i = 0; i < n; i++) c.push_back(i >= f && i < l ? a[i] : rest[k++]); return c; }
static Perm pmx(const Perm& a, const Perm& b, size_t f, size_t l) { Perm c = b; for (size_t i = f; i < l; i++) { size_t k = std::find(c.begin(), c.end(), a[i]) - c.begin(); std::swap(c[i], c[k]); } return c; }
// PMX in its textbook form: a gene outside of the range that the range already contains is mapped through the range until it does not
static Perm pmx_map(const Perm& a, const Perm& b, size_t f, size_t l) { Perm c = b; for (size_t i = f; i < l; i++) c[i] = a[i]; for (size_t i = 0; i < a.size(); i++) if (i < f || i >= l) { size_t g = b[i]; for (;;) { auto it = std::find(a.begin() + f, a.begin() + l, g); if (it == a.begin() + l) break; g = b[it - a.begin()]; } c[i] = g; } return c; }
static Perm position(const Perm& a, const Perm& b, uint64_t m) { size_t n = a.size(); Perm c, rest; for (size_t g : b) { size_t i = std::find(a.begin(), a.end(), g) - a.begin(); if (!(m >> i & 1)) rest.push_back(g); } size_t k = 0; for (size_t i = 0; i < n; i++) c.push_back(m >> i & 1 ? a[i] : rest[k++]); return c; }
static std::pair<Perm, Perm> cycles(const Perm& a, const Perm& b) { size_t n = a.size(); Perm c = a, d = b; std::vector<bool> seen(n); bool odd = false; for (size_t i = 0; i < n; i++) if (!seen[i]) { size_t p = i; do { seen[p] = true; if (odd) std::swap(c[p], d[p]); p = std::find(a.begin(), a.end(), b[p]) - a.begin(); } while (p != i); odd = !odd; } return { c, d }; }
template<typename Op> static void ranges(const char* name, Ref ref, size_t n, const std::vector<Perm>& firsts) {
    Fx<PermutationGene> fx(n); auto& p1 = mc::pick_from(firsts); Op op(1.0); auto a = fx.cand(p1, 1); mc::state(hash(p1));
    for (auto& p2 : perms(n)) { auto b = fx.cand(p2, 2); PSet<PermutationGene> got, want; all_draws({ 1, (unsigned)n }, 3, [&] { got.insert(sorted(cross(fx, op, a, b))); });
        if (n < 2 || p1 == p2) want.insert(sorted<PermutationGene>({ p1, p2 })); else for (size_t f = 0; f < n; f++) for (size_t l = f + 1; l <= n; l++) if (l - f < n) want.insert(sorted<PermutationGene>({ ref(p1, p2, f, l), ref(p2, p1, f, l) }));
        same_sets(name, got, want, p1, p2); }
}
static void positions(size_t n, const std::vector<Perm>& firsts) {
    Fx<PermutationGene> fx(n); auto& p1 = mc::pick_from(firsts); cx::perm::Position op(1.0); auto a = fx.cand(p1, 1); mc::state(hash(p1));
    for (auto& p2 : perms(n)) { auto b = fx.cand(p2, 2); PSet<PermutationGene> got, want; all_draws({ 1, (unsigned)n }, 2 + n / 2 + 1, [&] { got.insert(sorted(cross(fx, op, a, b))); });
        if (n < 2 || p1 == p2) want.insert(sorted<PermutationGene>({ p1, p2 })); else for (uint64_t m = 1; m + 1 < (1ull << n); m++) want.insert(sorted<PermutationGene>({ position(p1, p2, m), position(p2, p1, m) }));
        same_sets("Position", got, want, p1, p2); }
}
// the first gene is the parent's; every next gene is an unused neighbour with the fewest unused neighbours of its own, or the first unused gene when that has strictly fewer
static void edge_child(const char* name, const Perm& p1, const Perm& p2, const Perm& c) {
    size_t n = p1.size(); auto nb = [&](size_t g) { std::set<size_t> s; for (auto* p : { &p1, &p2 }) { size_t i = std::find(p->begin(), p->end(), g) - p->begin(); if (i > 0) s.insert((*p)[i - 1]); if (i + 1 < n) s.insert((*p)[i + 1]); } return s; };
    auto ctx = [&] { return show(p1) + show(p2) + " gives " + show(c); }; MC_CHECK(c.size() == n && c[0] == p1[0], "an edge child does not start with the first gene of its parent", "%s: %s", name, ctx().c_str()); std::set<size_t> used{ c[0] };
    auto free = [&](size_t g) { size_t k = 0; for (size_t x : nb(g)) k += !used.count(x); return k; };
    for (size_t i = 1; i < n; i++) { MC_CHECK(!used.count(c[i]), "a gene occurs twice", "%s: %s", name, ctx().c_str()); size_t best = SIZE_MAX; for (size_t g : nb(c[i - 1])) if (!used.count(g)) best = std::min(best, free(g)); bool edge = nb(c[i - 1]).count(c[i]) && free(c[i]) == best;
        // the other unused genes, of which the one with the strictly smaller number of free neighbours may be preferred
        bool other = best == SIZE_MAX || free(c[i]) < best; MC_CHECK(edge || other, "an edge child uses a gene although a neighbour with as few free neighbours exists", "%s, position %zu: %s", name, i, ctx().c_str()); used.insert(c[i]); }
}
static void edges(size_t n, const std::vector<Perm>& firsts) {
    Fx<PermutationGene> fx(n); auto& p1 = mc::pick_from(firsts); cx::perm::Edge op(1.0); auto a = fx.cand(p1, 1); mc::state(hash(p1)); auto gen = [](const Perm& p) { return Candidate<IntegerGene>(Chrom<IntegerGene>(p.begin(), p.end())); };
    for (auto& p2 : perms(n)) { auto b = fx.cand(p2, 2); PSet<PermutationGene> got; all_draws({ 2 }, 3, [&] { got.insert(cross(fx, op, a, b)); }); MC_CHECK(got.size() == 1, "the edge crossover is random", "%s %s", show(p1).c_str(), show(p2).c_str());
        auto r = *got.begin(); if (n < 2 || p1 == p2) { MC_CHECK(r.first == p1 && r.second == p2, "equal parents do not give copies", ""); continue; } if (r.first[0] != p1[0]) std::swap(r.first, r.second); if (p1[0] == p2[0]) { /* either order */ bool ok = false; for (int k = 0; k < 2 && !ok; k++) { try { edge_child("Edge", p1, p2, r.first); edge_child("Edge", p2, p1, r.second); ok = true; } catch (mc::Violation&) { if (k) throw; std::swap(r.first, r.second); } } }
        else edge_child("Edge", p1, p2, r.first), edge_child("Edge", p2, p1, r.second);
        for (auto [x, y] : { std::pair<const Perm*, const Perm*>(&p1, &p2), std::pair<const Perm*, const Perm*>(&p2, &p1) }) { auto g = cx::dtl::edgeCrossoverImpl(gen(*x), gen(*y)); Perm c(g.chromosome.begin(), g.chromosome.end()); edge_child("generic Edge", *x, *y, c); mc::step(); } }
}
static void cycle(size_t n, const std::vector<Perm>& firsts) {
    Fx<PermutationGene> fx(n); auto& p1 = mc::pick_from(firsts); cx::perm::Cycle op(1.0); auto a = fx.cand(p1, 1); mc::state(hash(p1));
    for (auto& p2 : perms(n)) { auto b = fx.cand(p2, 2); PSet<PermutationGene> got, want; all_draws({ 2 }, 3, [&] { got.insert(sorted(cross(fx, op, a, b))); }); want.insert(sorted<PermutationGene>(cycles(p1, p2))); same_sets("Cycle", got, want, p1, p2); }
}
// the implementations for other gene types (values that are no indices) agree with the definition
static void generic(size_t n, const std::vector<Perm>& firsts) {
    using C = Candidate<IntegerGene>; auto& p1 = mc::pick_from(firsts); auto m = [](size_t g) { return IntegerGene(g) * 7 - 9; }; auto conv = [&](const Perm& p) { Chrom<IntegerGene> c; for (size_t g : p) c.push_back(m(g)); return c; }; C a(conv(p1)); mc::state(hash(p1));
    auto expect = [&](const char* name, const C& got, const Perm& want, const Perm& p2) { mc::step(); MC_CHECK(got.chromosome == conv(want), "the implementation for other gene types differs", "%s of %s and %s: %s", name, show(p1).c_str(), show(p2).c_str(), show(got.chromosome).c_str()); };
    for (auto& p2 : perms(n)) { C b(conv(p2)); Candidate<PermutationGene> ua(p1), ub(p2); 
        for (size_t f = 0; f <= n; f++) for (size_t l = f; l <= n; l++) { MC_CHECK(pmx(p1, p2, f, l) == pmx_map(p1, p2, f, l), "HARNESS: the two definitions of PMX differ", "%s %s %zu %zu", show(p1).c_str(), show(p2).c_str(), f, l); expect("order1", cx::dtl::order1CrossoverImpl(a, b, f, l), order1(p1, p2, f, l), p2); expect("order2", cx::dtl::order2CrossoverImpl(a, b, f, l), order2(p1, p2, f, l), p2); expect("pmx", cx::dtl::pmxCrossoverImpl(a, b, f, l), pmx(p1, p2, f, l), p2);
            MC_CHECK(cx::dtl::order1CrossoverImpl(ua, ub, f, l).chromosome == order1(p1, p2, f, l) && cx::dtl::order2CrossoverImpl(ua, ub, f, l).chromosome == order2(p1, p2, f, l) && cx::dtl::pmxCrossoverImpl(ua, ub, f, l).chromosome == pmx(p1, p2, f, l), "an implementation differs from the definition", "%s %s range %zu-%zu", show(p1).c_str(), show(p2).c_str(), f, l); }
        for (uint64_t k = 0; k < (1ull << n); k++) { std::vector<size_t> idx; for (size_t i = 0; i < n; i++) if (k >> i & 1) idx.push_back(i); expect("position", cx::dtl::positionCrossoverImpl(a, b, idx), position(p1, p2, k), p2); std::reverse(idx.begin(), idx.end()); MC_CHECK(cx::dtl::positionCrossoverImpl(ua, ub, idx).chromosome == position(p1, p2, k), "an implementation differs from the definition", "position"); }
        auto r = cx::dtl::cycleCrossoverImpl(a, b); auto w = cycles(p1, p2); auto g = sorted<IntegerGene>({ r.first.chromosome, r.second.chromosome }), e = sorted<IntegerGene>({ conv(w.first), conv(w.second) }); MC_CHECK(g == e, "the implementation for other gene types differs", "cycle of %s and %s", show(p1).c_str(), show(p2).c_str()); }
}
// long permutations (the bit sets have several blocks): a few parents, deviations from a fixed stream, the range recovered from the children
template<typename Op> static void long_perm(const char* name, Ref ref, size_t n) {
    Fx<PermutationGene> fx(n); Perm p1(n), p2(n); int fam = mc::range(0, 3); for (size_t i = 0; i < n; i++) { p1[i] = i; p2[i] = fam == 0 ? n - 1 - i : fam == 1 ? (i + n / 3) % n : fam == 2 ? (i ^ 1) < n ? i ^ 1 : i : (i * 7 + 3) % n; } if (fam == 3 && n % 7 == 0) throw mc::Skip{};
    mcr::stream(n); mcr::deviations(4, n + 1); auto r = cross(fx, Op(1.0), fx.cand(p1, 1), fx.cand(p2, 2)); mcr::S().points = 0; mc::state(hash(r.first)); bool ok = false; auto s = sorted(r);
    for (size_t f = 0; f < n && !ok; f++) for (size_t l = f + 1; l <= n && !ok; l++) { bool a = true, b = true; for (size_t i = f; i < l && (a || b); i++) a &= r.first[i] == p1[i], b &= r.first[i] == p2[i]; if (a || b) ok = sorted<PermutationGene>({ ref(p1, p2, f, l), ref(p2, p1, f, l) }) == s; }
    MC_CHECK(ok, "the children are not what the operator documents", "%s, length %zu, family %d: %s", name, n, fam, show(r).c_str());
}
static void long_other(size_t n) {
    Fx<PermutationGene> fx(n); Perm p1(n), p2(n); int fam = mc::range(0, 3), op = mc::range(0, 2); for (size_t i = 0; i < n; i++) { p1[i] = i; p2[i] = fam == 0 ? n - 1 - i : fam == 1 ? (i + n / 3) % n : fam == 2 ? (i ^ 1) < n ? i ^ 1 : i : (i * 7 + 3) % n; } if (fam == 3 && n % 7 == 0) throw mc::Skip{};
    auto a = fx.cand(p1, 1), b = fx.cand(p2, 2); mcr::stream(n); mcr::deviations(op == 0 ? 6 : 1, n + 1); auto r = op == 0 ? cross(fx, cx::perm::Position(1.0), a, b) : op == 1 ? cross(fx, cx::perm::Cycle(1.0), a, b) : cross(fx, cx::perm::Edge(1.0), a, b); mcr::S().points = 0; mc::state(hash(r.first));
    if (op == 1) MC_CHECK(sorted(r) == sorted<PermutationGene>(cycles(p1, p2)), "the children are not what the operator documents", "Cycle, length %zu, family %d", n, fam);
    if (op == 2) { if (r.first[0] != p1[0]) std::swap(r.first, r.second); edge_child("Edge", p1, p2, r.first); edge_child("Edge", p2, p1, r.second); }
    if (op == 0) { // the positions where both children agree with their own parents contain the selected ones: the maximal such set explains the children exactly if some set does
        bool ok = false; for (int sw = 0; sw < 2 && !ok; sw++, std::swap(r.first, r.second)) { auto fits = [&](const std::vector<bool>& m) { auto one = [&](const Perm& x, const Perm& y) { std::vector<size_t> inv(n); for (size_t i = 0; i < n; i++) inv[x[i]] = i; Perm rest, c; for (size_t g : y) if (!m[inv[g]]) rest.push_back(g); size_t k = 0; for (size_t i = 0; i < n; i++) c.push_back(m[i] ? x[i] : rest[k++]); return c; }; return one(p1, p2) == r.first && one(p2, p1) == r.second; };
            std::vector<bool> m(n); for (size_t i = 0; i < n; i++) m[i] = r.first[i] == p1[i] && r.second[i] == p2[i]; ok = fits(m); }
        MC_CHECK(ok, "the children are not what the operator documents", "Position, length %zu, family %d", n, fam); }
}
// ---- real operators
static bool near(double a, double b, double scale) { return std::abs(a - b) <= 1e-12 * std::max(scale, 1e-300); }
struct RealCase { BoundsVector<RealGene> b; Chrom<RealGene> p1, p2; double scale; };
static RealCase real_case(size_t n) {
    RealCase c; c.scale = 0; static const std::vector<std::pair<double, double>> B{ { 0, 1 }, { -1e-300, 1e-300 }, { -4e150, 3e150 }, { 2, 2 }, { 0.1, 0.3 }, { -5, 7 } };
    // every gene has its own bounds
    int at = mc::range(0, B.size() - 1);
    for (size_t i = 0; i < n; i++) { auto [lo, hi] = B[at]; lo -= i * 0.25 * (hi - lo); hi += i * (hi - lo); std::vector<double> v{ lo, lo + 0.25 * (hi - lo), std::nextafter(hi, lo), hi }; if (lo == hi) v = { lo }; c.b.push_back({ lo, hi }); c.p1.push_back(mc::pick_from(v)); c.p2.push_back(mc::pick_from(v)); c.scale = std::max({ c.scale, std::abs(lo), std::abs(hi) }); } return c;
}
static void in_bounds(const char* name, const RealCase& c, const Pair<RealGene>& r) { for (size_t i = 0; i < c.p1.size(); i++) for (double x : { r.first[i], r.second[i] }) MC_CHECK(x >= c.b[i].lower() && x <= c.b[i].upper(), "a real gene is outside of its bounds", "%s: %.17g", name, x); }
static void arithmetic(size_t n) {
    math::ScopedTolerances exact(0, 0);
    auto c = real_case(n); Fx<RealGene> fx(n, c.b); auto a = fx.cand(c.p1, 1), b = fx.cand(c.p2, 2); cx::real::Arithmetic op(1.0); size_t k = 0; for (size_t i = 0; i < n; i++) if (std::abs(c.p1[i] - c.p2[i]) > std::abs(c.p1[k] - c.p2[k])) k = i; double d = c.p1[k] - c.p2[k]; if (std::abs(d) <= 1e-6 * c.scale) throw mc::Skip{};
    double lo = 2, hi = -1; all_draws({ 1, 8 }, 3, [&] { auto r = cross(fx, op, a, b); in_bounds("Arithmetic", c, r); double w = (r.first[k] - c.p2[k]) / d; lo = std::min(lo, w); hi = std::max(hi, w); MC_CHECK(w >= -1e-9 && w <= 1 + 1e-9, "an arithmetic child is outside of the range of its parents", "%s %s: %s", show(c.p1).c_str(), show(c.p2).c_str(), show(r).c_str());
        for (size_t i = 0; i < n; i++) MC_CHECK(near(r.first[i], w * c.p1[i] + (1 - w) * c.p2[i], c.scale) && near(r.second[i], (1 - w) * c.p1[i] + w * c.p2[i], c.scale), "the genes of arithmetic children are not the mirrored averages with one weight", "%s %s: %s, weight %g", show(c.p1).c_str(), show(c.p2).c_str(), show(r).c_str(), w); mc::state(hash(r.first)); });
    MC_CHECK(lo < 1e-6 && hi > 1 - 1e-6, "documented children can never be produced", "Arithmetic: weights %g to %g", lo, hi);
}
static void blx(size_t n) {
    math::ScopedTolerances exact(0, 0);
    auto c = real_case(n); Fx<RealGene> fx(n, c.b); double al = mc::pick<double>({ 0.0, 0.5, 3.0 }); auto a = fx.cand(c.p1, 1), b = fx.cand(c.p2, 2); if (a == b) throw mc::Skip{}; cx::real::BLXa op(1.0, 0.1); op.alpha(al); std::set<std::vector<int>> corners;
    all_draws({ 1, 2 }, 1 + 2 * n, [&] { auto r = cross(fx, op, a, b); in_bounds("BLXa", c, r); std::vector<int> corner; for (size_t i = 0; i < n; i++) { double lo = std::min(c.p1[i], c.p2[i]), hi = std::max(c.p1[i], c.p2[i]), e = al * (hi - lo), L = std::max(lo - e, c.b[i].lower()), H = std::min(hi + e, c.b[i].upper());
        for (double x : { r.first[i], r.second[i] }) { MC_CHECK((x >= L || near(x, L, c.scale)) && (x <= H || near(x, H, c.scale)), "a BLX child is outside of the extended range", "alpha %g, %s %s: %s", al, show(c.p1).c_str(), show(c.p2).c_str(), show(r).c_str()); corner.push_back(near(x, L, c.scale) && near(x, H, c.scale) ? 3 : near(x, L, c.scale) ? 1 : near(x, H, c.scale) ? 2 : 0); } }
        corners.insert(corner); mc::state(hash(r.first)); });
    // every gene of both children can independently reach both ends of its range
    for (int m = 0; m < (1 << (2 * n)); m++) { bool hit = false; for (auto& k : corners) { bool ok = true; for (size_t i = 0; i < 2 * n; i++) ok &= (k[i] & ((m >> i & 1) ? 2 : 1)) != 0; hit |= ok; } MC_CHECK(hit, "documented children can never be produced", "BLXa %g of %s %s: combination %d of the ends of the ranges", al, show(c.p1).c_str(), show(c.p2).c_str(), m); }
}
static void sbx(size_t n) {
    math::ScopedTolerances exact(0, 0);
    auto c = real_case(n); Fx<RealGene> fx(n, c.b); double eta = mc::pick<double>({ 0.0, 1.0, 4.0, 100.0 }); auto a = fx.cand(c.p1, 1), b = fx.cand(c.p2, 2); cx::real::SimulatedBinary op(1.0, 2.0); op.eta(eta);
    all_draws({ 1, 4 }, 1 + 2 * n, [&] { auto r = cross(fx, op, a, b); in_bounds("SimulatedBinary", c, r); for (size_t i = 0; i < n; i++) { double m = c.p1[i] / 2 + c.p2[i] / 2, lo = std::min(r.first[i], r.second[i]), hi = std::max(r.first[i], r.second[i]);
        if (c.p1[i] == c.p2[i]) MC_CHECK(lo == c.p1[i] && hi == lo, "a gene that is equal in both parents changed", "SimulatedBinary %g, %s %s: %s", eta, show(c.p1).c_str(), show(c.p2).c_str(), show(r).c_str());
        MC_CHECK((lo <= m || near(lo, m, c.scale)) && (hi >= m || near(hi, m, c.scale)), "the SBX children are not on both sides of the mean of their parents", "eta %g, %s %s: %s", eta, show(c.p1).c_str(), show(c.p2).c_str(), show(r).c_str()); } mc::state(hash(r.first)); });
}
static void wright(size_t n) {
    math::ScopedTolerances exact(0, 0);
    auto c = real_case(n); Fx<RealGene> fx(n, c.b); double f1 = mc::pick<double>({ 1, 2 }), f2 = mc::pick<double>({ 1, 2 }); auto a = fx.cand(c.p1, f1), b = fx.cand(c.p2, f2); if (a == b) throw mc::Skip{}; cx::real::Wright op(1.0); bool swap = f1 < f2; const auto& p = swap ? c.p2 : c.p1; const auto& q = swap ? c.p1 : c.p2;
    double top[2] = { 0, 0 }, bottom[2] = { 1, 1 };
    all_draws({ 1, 8 }, 3, [&] { auto r = cross(fx, op, a, b); in_bounds("Wright", c, r); int ci = 0; for (auto* ch : { &r.first, &r.second }) { // one weight in [0, 1] explains all genes
        double wl = 0, wh = 1; for (size_t i = 0; i < n; i++) { double d = p[i] - q[i], x = (*ch)[i]; if (std::abs(d) <= 1e-6 * c.scale) { MC_CHECK(near(x, p[i], 3e6 * c.scale * 1e-6) || std::abs(x - p[i]) <= std::abs(d) * (1 + 1e-9), "Wright gene", "%.17g", x); continue; }
            double w = (x - p[i]) / d; bool at = x == (d > 0 ? c.b[i].upper() : c.b[i].lower()); wl = std::max(wl, w - 1e-9); if (!at) wh = std::min(wh, w + 1e-9); }
        MC_CHECK(wl <= wh + 1e-9 && wl <= 1 + 1e-9, "a Wright child does not lie on the line from the better parent away from the worse one", "fitness %g and %g, %s %s: %s", f1, f2, show(c.p1).c_str(), show(c.p2).c_str(), show(r).c_str()); top[ci] = std::max(top[ci], wh); bottom[ci] = std::min(bottom[ci], wl); ci++; } mc::state(hash(r.first)); });
    if (c.p1 != c.p2) for (int k = 0; k < 2; k++) MC_CHECK(top[k] > 1 - 1e-6 && bottom[k] < 1e-6, "documented children can never be produced", "Wright, fitness %g and %g, %s %s: weights %g to %g", f1, f2, show(c.p1).c_str(), show(c.p2).c_str(), bottom[k], top[k]);
}
// long chromosomes: every gene obeys its own parents and bounds
static void long_real(size_t n) {
    math::ScopedTolerances exact(0, 0); int op = mc::range(0, 3), fam = mc::range(0, 2), pat = mc::range(0, mcr::PATTERNS - 1); BoundsVector<RealGene> bounds; Chrom<RealGene> p1, p2; std::vector<double> tol;
    for (size_t i = 0; i < n; i++) { double lo = fam == 0 ? 0 : fam == 1 ? -double(i) - 1 : 0.01 * i, hi = fam == 0 ? 1 : fam == 1 ? i * 3.0 + 2 : 0.01 * i + (i % 5 == 4 ? 0 : 2); bounds.push_back({ lo, hi }); p1.push_back(lo + (hi - lo) * double(i * 7 % 11) / 10); p2.push_back(lo + (hi - lo) * double(i * 3 % 8) / 7); p1[i] = std::clamp(p1[i], lo, hi); p2[i] = std::clamp(p2[i], lo, hi); tol.push_back(1e-12 * std::max({ std::abs(lo), std::abs(hi), 1.0 })); }
    Fx<RealGene> fx(n, bounds); auto a = fx.cand(p1, 2), b = fx.cand(p2, 1); const double al = 0.5; cx::real::Arithmetic o0(1.0); cx::real::BLXa o1(1.0, al); cx::real::SimulatedBinary o2(1.0, 4.0); cx::real::Wright o3(1.0); static const char* N[] = { "Arithmetic", "BLXa", "SimulatedBinary", "Wright" };
    mcr::pattern(pat, 2 * n + 2); if (!mcr::S().forced.empty()) mcr::S().forced[0] = 0; auto r = op == 0 ? cross(fx, o0, a, b) : op == 1 ? cross(fx, o1, a, b) : op == 2 ? cross(fx, o2, a, b) : cross(fx, o3, a, b); mcr::reset(); mc::state(hash(r.first));
    auto fail = [&](const char* sig, size_t i) { mc::fail(sig, mc::fmt("%s, gene %zu of %zu, family %d, draws %d: parents %.17g and %.17g, children %.17g and %.17g", N[op], i, n, fam, pat, p1[i], p2[i], r.first[i], r.second[i])); };
    double w0 = (r.first[0] - p2[0]) / (p1[0] - p2[0]); if (p1[0] == p2[0]) w0 = (r.first[1] - p2[1]) / (p1[1] - p2[1]); double wl[2] = { 0, 0 }, wh[2] = { 1, 1 };
    for (size_t i = 0; i < n; i++) { double lo = bounds[i].lower(), hi = bounds[i].upper(), x = r.first[i], y = r.second[i], t = tol[i] * 10; if (!(x >= lo && x <= hi && y >= lo && y <= hi)) fail("a real gene is outside of its bounds", i);
        if (op == 0 && (std::abs(x - (w0 * p1[i] + (1 - w0) * p2[i])) > t * 100 || std::abs(y - ((1 - w0) * p1[i] + w0 * p2[i])) > t * 100)) fail("the genes of arithmetic children are not the mirrored averages with one weight", i);
        if (op == 1) { double l = std::min(p1[i], p2[i]), h = std::max(p1[i], p2[i]), e = al * (h - l); for (double z : { x, y }) if (z < l - e - t || z > h + e + t) fail("a BLX child is outside of the extended range", i); }
        if (op == 2) { double m = (p1[i] + p2[i]) / 2; if (std::min(x, y) > m + t || std::max(x, y) < m - t) fail("the SBX children are not on both sides of the mean of their parents", i); if (p1[i] == p2[i] && (x != p1[i] || y != p1[i])) fail("a gene that is equal in both parents changed", i); }
        if (op == 3) for (int k = 0; k < 2; k++) { double d = p1[i] - p2[i], z = k ? y : x; if (std::abs(d) < 1e-3) { if (std::abs(z - p1[i]) > std::abs(d) + t) fail("a Wright child does not lie on the line from the better parent away from the worse one", i); continue; } double w = (z - p1[i]) / d; bool at = z == (d > 0 ? hi : lo); wl[k] = std::max(wl[k], w - 1e-6); if (!at) wh[k] = std::min(wh[k], w + 1e-6); if (wl[k] > wh[k] + 1e-9 || wl[k] > 1 + 1e-9) fail("a Wright child does not lie on the line from the better parent away from the worse one", i); } }
}
static void setup() {
    for (size_t n : { 8, 17, 33, 65, 130, 257, 300 }) mc::add_task(mc::fmt("long real %zu", n), [=] { long_real(n); });
    for (size_t n : { 257, 300 }) { using namespace cx::perm; mc::add_task(mc::fmt("long binary %zu", n), [=] { long_ones<BinaryGene>(n); }, 1); mc::add_task(mc::fmt("long integer %zu", n), [=] { long_ones<IntegerGene>(n); }, 0); mc::add_task(mc::fmt("long order1 %zu", n), [=] { long_perm<Order1>("Order1", order1, n); }, 0); mc::add_task(mc::fmt("long order2 %zu", n), [=] { long_perm<Order2>("Order2", order2, n); }, 0); mc::add_task(mc::fmt("long pmx %zu", n), [=] { long_perm<PMX>("PMX", pmx, n); }, 0); mc::add_task(mc::fmt("long others %zu", n), [=] { long_other(n); }, 0); }
    mcr::install(); bool t = mc::thorough(); mc::add_task("rates", rates); mc::add_task("rate zero and one", rate_zero_all);
    for (int op = 0; op < 4; op++) { for (size_t n = 1; n <= size_t(op == 3 ? (t ? 7 : 6) : t ? 12 : 9); n++) { if (op == 2 && n > (t ? 7 : 6)) break; if (op == 3 && n > 5) break; mc::add_task(mc::fmt("binary %d n=%zu", op, n), [=] { position_ops<BinaryGene>(op, n); }); mc::add_task(mc::fmt("integer %d n=%zu", op, n), [=] { position_ops<IntegerGene>(op, n); }); }
        for (size_t n = 1; n <= 4; n++) { mc::add_task(mc::fmt("binary parents %d n=%zu", op, n), [=] { all_parents<BinaryGene>(op, n); }); if (n <= (t ? 4u : 3u)) mc::add_task(mc::fmt("integer parents %d n=%zu", op, n), [=] { all_parents<IntegerGene>(op, n); }); } }
    for (size_t n : { 10, 33, 65, 130 }) { mc::add_task(mc::fmt("long binary %zu", n), [=] { long_ones<BinaryGene>(n); }, t ? 2 : 1); mc::add_task(mc::fmt("long integer %zu", n), [=] { long_ones<IntegerGene>(n); }, 1); }
    for (size_t n = 1; n <= (t ? 7u : 6u); n++) { auto f = n <= (t ? 5u : 4u) ? perms(n) : some_perms(n); auto g = n <= 5 ? perms(n) : some_perms(n); using namespace cx::perm;
        mc::add_task(mc::fmt("order1 %zu", n), [=] { ranges<Order1>("Order1", order1, n, f); }); mc::add_task(mc::fmt("order2 %zu", n), [=] { ranges<Order2>("Order2", order2, n, f); }); mc::add_task(mc::fmt("pmx %zu", n), [=] { ranges<PMX>("PMX", pmx, n, f); });
        if (n <= (t ? 6u : 5u)) mc::add_task(mc::fmt("position %zu", n), [=] { positions(n, f); }); mc::add_task(mc::fmt("cycle %zu", n), [=] { cycle(n, g); }); mc::add_task(mc::fmt("edge %zu", n), [=] { edges(n, g); }); if (n >= 2 && n <= (t ? 6u : 5u)) mc::add_task(mc::fmt("generic %zu", n), [=] { generic(n, f); }); }
    for (size_t n : { 20, 64, 65, 130 }) { using namespace cx::perm; int dev = n <= 20 || t ? 2 : 1; mc::add_task(mc::fmt("long order1 %zu", n), [=] { long_perm<Order1>("Order1", order1, n); }, n <= 65 ? dev : 1); mc::add_task(mc::fmt("long order2 %zu", n), [=] { long_perm<Order2>("Order2", order2, n); }, n <= 20 ? dev : 1); mc::add_task(mc::fmt("long pmx %zu", n), [=] { long_perm<PMX>("PMX", pmx, n); }, n <= 20 ? dev : 1); mc::add_task(mc::fmt("long others %zu", n), [=] { long_other(n); }, 1); }
    for (size_t n = 1; n <= (t ? 3u : 2u); n++) { mc::add_task(mc::fmt("arithmetic %zu", n), [=] { arithmetic(n); }); if (n <= 2) mc::add_task(mc::fmt("blx %zu", n), [=] { blx(n); }); if (n <= 2) mc::add_task(mc::fmt("sbx %zu", n), [=] { sbx(n); }); mc::add_task(mc::fmt("wright %zu", n), [=] { wright(n); }); }
}
MC_MAIN(setup)
