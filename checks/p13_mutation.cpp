// P13: mutations change exactly what they claim to change. Every sequence of raw random draws is tried for every start chromosome of the bounded spaces.
#include "operators.hpp"
using namespace ops; namespace mu = mutation;
template<typename T> static uint64_t hash(const Chromosome<T>& c) { return mc::hbytes(c.data(), c.size() * sizeof(T), c.size() * 8 + sizeof(T)); }
template<typename T> using Op = std::shared_ptr<mu::Mutation<T>>; template<typename T> struct Named { const char* name; Op<T> op; };
template<typename T> static Chromosome<T> apply(const Fx<T>& fx, const mu::Mutation<T>& op, const Chromosome<T>& c) { auto r = mutated(fx, op, c); mc::state(hash(r)); return r; }
template<typename T> static std::vector<Named<T>> all_ops(double pm) {
    auto mk = [](const char* n, auto o) { return Named<T>{ n, std::make_shared<decltype(o)>(o) }; };
    if constexpr (std::is_same_v<T, BinaryGene>) return { mk("Flip", mu::binary::Flip(pm)) }; else if constexpr (std::is_same_v<T, IntegerGene>) return { mk("Uniform", mu::integer::Uniform(pm)) };
    else if constexpr (std::is_same_v<T, RealGene>) return { mk("Uniform", mu::real::Uniform(pm)), mk("NonUniform", mu::real::NonUniform(pm)), mk("Gauss", mu::real::Gauss(pm)), mk("Polynomial", mu::real::Polynomial(pm)), mk("Boundary", mu::real::Boundary(pm)) };
    else return { mk("Inversion", mu::perm::Inversion(pm)), mk("Swap2", mu::perm::Swap2(pm)), mk("Swap3", mu::perm::Swap3(pm)), mk("Shuffle", mu::perm::Shuffle(pm)), mk("Shift", mu::perm::Shift(pm)) };
}
template<typename T> static BoundsVector<T> some_bounds(size_t n) { BoundsVector<T> b; if constexpr (is_bounded<T>) for (size_t i = 0; i < n; i++) b.push_back(i % 2 ? Bounds<T>{ T(-3), T(5) } : Bounds<T>{ T(1), T(2) }); return b; }
template<typename T> static Chromosome<T> some_chrom(size_t n) { Chromosome<T> c; for (size_t i = 0; i < n; i++) { if constexpr (std::is_same_v<T, RealGene>) c.push_back(i % 2 ? 1.25 : 1.5); else if constexpr (std::is_same_v<T, PermutationGene>) c.push_back((i + 1) % n); else c.push_back(1); } return c; }
static constexpr double RATES[] = { 0.0, 1e-18, 0.25, 0.5, 0.75, 1.0 - 1e-16, 1.0 };
// ---- rates: rate zero changes nothing, rate one always mutates, and the share of the draws that mutate is the rate
template<typename T> static void rates() {
    bool perm = std::is_same_v<T, PermutationGene>; size_t n = perm ? 5 : 1; Fx<T> fx(n, some_bounds<T>(n), 1, 500); auto c = some_chrom<T>(n); auto [first, second] = std::pair(all_ops<T>(0.5), 0); (void) second; int k = mc::range(0, (int)first.size() - 1); double pm = RATES[mc::range(0, 6)];
    auto op = first[k].op; op->mutation_rate(pm); MC_CHECK(op->mutation_rate() == pm, "wrong mutation rate", "%g", pm); int changed = 0, all = 0;
    // the later draws of a mutation that is applied never leave these chromosomes as they are
    all_draws({ 64 }, 1, [&] { all++; auto r = apply(fx, *op, c); changed += r != c; if (pm == 0.0) MC_CHECK(r == c, "a mutation with rate zero changes a candidate", "%s: %s", first[k].name, show(r).c_str()); if (pm == 1.0) MC_CHECK(r != c, "a mutation with rate one does not change a candidate", "%s", first[k].name); }, std::is_same_v<T, PermutationGene> ? 3 : 1);
    MC_CHECK(std::abs(double(changed) / all - pm) <= 3.0 / 64, "a mutation is not applied with the set probability", "%s: rate %g, share %g", first[k].name, pm, double(changed) / all);
}
template<typename T> static void rate_zero(size_t n) { auto v = all_ops<T>(0.0); auto& o = mc::pick_from(v); Fx<T> fx(n, some_bounds<T>(n)); auto c = some_chrom<T>(n); all_draws({ 6 }, 3, [&] { auto r = apply(fx, *o.op, c); MC_CHECK(r == c, "a mutation with rate zero changes a candidate", "%s: %s", o.name, show(r).c_str()); }); }
// ---- mutations of single genes
static std::vector<unsigned> gene_draws(size_t n, unsigned count, unsigned index, unsigned value) { std::vector<unsigned> d; for (size_t i = 0; i < n; i++) d.push_back(count); for (size_t i = 0; i < n; i++) d.push_back(index); d.push_back(value); return d; }
static void flip(size_t n) {
    double pm = mc::pick<double>({ 0.3, 0.5, 0.8, 1.0 }); Fx<BinaryGene> fx(n); mu::binary::Flip op(pm); auto starts = strings<BinaryGene>(n, { 0, 1 });
    for (auto& c : starts) { std::set<uint64_t> masks; auto d = gene_draws(n, 0, n, 1); all_draws(d, n + n / 2 + 1, [&] { auto r = apply(fx, op, c); MC_CHECK(r.size() == n, "a mutation changes the length", ""); uint64_t m = 0; for (size_t i = 0; i < n; i++) { MC_CHECK(r[i] <= 1, "an invalid gene", ""); m |= uint64_t(r[i] != c[i]) << i; } masks.insert(m); if (pm == 1.0) MC_CHECK(m == (1ull << n) - 1, "a flip mutation with rate one leaves a gene unchanged", "%s to %s", show(c).c_str(), show(r).c_str()); });
        if (pm < 1.0) MC_CHECK(masks.size() == (1ull << n), "some sets of genes can never be mutated", "Flip %g, length %zu: %zu sets", pm, n, masks.size()); }
}
static void integers(size_t n) {
    double pm = mc::pick<double>({ 0.5, 1.0 }); static const std::vector<Bounds<IntegerGene>> B{ { 0, 1 }, { -1, 1 }, { 4, 4 }, { 7, 10 }, { INT64_MIN, INT64_MIN + 1 }, { INT64_MAX - 2, INT64_MAX } }; BoundsVector<IntegerGene> b; for (size_t i = 0; i < n; i++) b.push_back(mc::pick_from(B)); Fx<IntegerGene> fx(n, b); mu::integer::Uniform op(pm);
    std::vector<Chromosome<IntegerGene>> starts{ {} }; for (size_t i = 0; i < n; i++) { decltype(starts) q; for (auto& c : starts) for (IntegerGene g = b[i].lower();; g++) { q.push_back(c); q.back().push_back(g); if (g == b[i].upper()) break; } starts = q; }
    for (auto& c : starts) { std::set<Chromosome<IntegerGene>> got; size_t want = 1; for (auto& x : b) { size_t w = size_t(x.upper() - x.lower()) + 1; want *= pm == 1.0 && w > 1 ? w - 1 : w; }
        all_draws(gene_draws(n, 0, n == 1 ? 4 : n, 4), n == 1 ? 5 : n == 2 ? 7 : 8, [&] { auto r = apply(fx, op, c); for (size_t i = 0; i < n; i++) { MC_CHECK(r[i] >= b[i].lower() && r[i] <= b[i].upper(), "an integer gene is outside of its bounds", "%s", show(r).c_str()); if (pm == 1.0) MC_CHECK(r[i] != c[i] || b[i].lower() == b[i].upper(), "an integer mutation picks the old value", "%s to %s", show(c).c_str(), show(r).c_str()); } got.insert(r); });
        MC_CHECK(got.size() == want, "some documented results can never be produced", "integer Uniform %g, %s: %zu of %zu", pm, show(c).c_str(), got.size(), want); }
}
// real mutations: which genes change, and in which range
static void real_sets(size_t n) {
    auto v = all_ops<RealGene>(0.5); auto& o = mc::pick_from(v); Fx<RealGene> fx(n, some_bounds<RealGene>(n)); auto c = some_chrom<RealGene>(n); std::set<uint64_t> masks; std::set<std::vector<int>> ends;
    all_draws(gene_draws(n, 0, n, 2), n == 1 ? 5 : n == 2 ? 7 : 7, [&] { auto r = apply(fx, *o.op, c); uint64_t m = 0; for (size_t i = 0; i < n; i++) { m |= uint64_t(r[i] != c[i]) << i; MC_CHECK(r[i] >= fx.bounds[i].lower() && r[i] <= fx.bounds[i].upper(), "a real gene is outside of its bounds", "%s: %s", o.name, show(r).c_str()); if (o.name == std::string("Boundary")) MC_CHECK(r[i] == c[i] || r[i] == fx.bounds[i].lower() || r[i] == fx.bounds[i].upper(), "a boundary mutation gives something else than a bound", "%s", show(r).c_str()); } masks.insert(m); });
    MC_CHECK(masks.size() == (1ull << n), "some sets of genes can never be mutated", "%s, length %zu: %zu sets", o.name, n, masks.size());
}
// the new value of a gene depends on this gene, its own bounds and the parameters only: the other genes and their bounds make no difference for the same draws
template<typename T> static void independent(size_t n) {
    auto v = all_ops<T>(mc::pick<double>({ 0.5, 1.0 })); auto& o = mc::pick_from(v); size_t gene = mc::range(0, (int)n - 1); size_t gens = mc::pick<size_t>({ 1, 4 });
    std::vector<std::vector<T>> ref; bool first = true;
    for (int alt = 0; alt < 4; alt++) {
        BoundsVector<T> b; Chromosome<T> c; for (size_t i = 0; i < n; i++) { if (i == gene) { b.push_back({ T(-2), T(6) }); c.push_back(T(1)); } else { T off = alt == 0 ? T(0) : alt == 1 ? T(-100) : alt == 2 ? T(7) : T(1000); T w = std::is_same_v<T, IntegerGene> ? T(8) : alt == 0 ? T(8) : alt == 1 ? T(1) : alt == 2 ? T(3000) : T(4); b.push_back({ off, off + w }); c.push_back(T(off + w / 4)); } }
        Fx<T> fx(n, b, gens, 10); size_t k = 0;
        all_draws(gene_draws(n, 0, n, 3), n == 2 ? 6 : 7, [&] { auto r = apply(fx, *o.op, c); if (first) ref.push_back({ r[gene] }); else { MC_CHECK(k < ref.size() && ref[k][0] == r[gene], "the new value of a gene depends on another gene or its bounds", "%s: gene %zu of %zu becomes %s instead of %s", o.name, gene, n, show(std::vector<T>{ r[gene] }).c_str(), k < ref.size() ? show(ref[k]).c_str() : "?"); k++; } });
        first = false;
    }
}
/** The results of a mutation with rate one of one gene for the given values of the draw that decides about the value. */
template<typename F> static void one_gene(const mu::Mutation<RealGene>& op, Bounds<RealGene> b, double x, size_t gen, size_t max_gen, const std::vector<unsigned>& draws, int points, F f) { Fx<RealGene> fx(1, { b }, gen + 1, max_gen); all_draws(draws, points, [&] { f(apply(fx, op, Chromosome<RealGene>{ x })[0]); }); }
static const std::vector<Bounds<RealGene>> RB{ { 0, 1 }, { -4, 12 }, { -1e-300, 1e-300 }, { 2, 2 }, { -1e150, 1e149 } };
static double at(const Bounds<RealGene>& b, double w) { return std::clamp(b.lower() + w * (b.upper() - b.lower()), b.lower(), b.upper()); }
static void real_ranges() {
    auto b = mc::pick_from(RB); double w = b.upper() - b.lower(), x = at(b, mc::pick<double>({ 0.0, 0.25, 0.9, 1.0 })); int k = mc::range(0, 3); double lo = 1e308, hi = -1e308; auto see = [&](double r) { MC_CHECK(r >= b.lower() && r <= b.upper(), "a real gene is outside of its bounds", "%.17g", r); lo = std::min(lo, r), hi = std::max(hi, r); };
    if (k == 0) one_gene(mu::real::Uniform(1.0), b, x, 0, 10, { 0, 16, 16, 2 }, 4, see); if (k == 1) one_gene(mu::real::NonUniform(1.0, mc::pick<double>({ 0.0, 2.0 })), b, x, mc::pick<size_t>({ 0, 3, 8 }), 10, { 0, 16, 16, 2 }, 4, see); if (k == 2) one_gene(mu::real::Polynomial(1.0, 0.0), b, x, 0, 10, { 0, 16, 16, 2 }, 4, see); if (k == 3) one_gene(mu::real::Boundary(1.0), b, x, 0, 10, { 0, 4 }, 4, see);
    MC_CHECK(lo <= b.lower() + 1e-6 * w && hi >= b.upper() - 1e-6 * w, "the results of a real mutation do not cover the interval of the gene", "%d: %.17g to %.17g", k, lo, hi);
}
// with the same random numbers the distance to the old value never grows when the documented parameter says so
static std::vector<double> results(const mu::Mutation<RealGene>& op, const Bounds<RealGene>& b, double x, size_t gen, size_t max_gen) { std::vector<double> r; one_gene(op, b, x, gen, max_gen, { 0, 16, 16, 2 }, 4, [&](double v) { r.push_back(v); }); return r; }
static void closer(const char* what, const std::vector<double>& wide, const std::vector<double>& narrow, double x, bool strictly) { bool less = false; for (size_t i = 0; i < wide.size(); i++) { double a = std::abs(wide[i] - x), c = std::abs(narrow[i] - x); MC_CHECK(c <= a * (1 + 1e-12), "a mutation moves a gene farther although it should stay closer", "%s: %.17g to %.17g and %.17g", what, x, wide[i], narrow[i]); less |= c < a; } MC_CHECK(less == strictly, "the parameter of a mutation has no or a wrong effect", "%s", what); }
static void shrinking() {
    auto b = mc::pick_from(RB); double w = b.upper() - b.lower(), x = at(b, mc::pick<double>({ 0.0, 0.25, 0.9, 1.0 })); bool any = w > 0; using namespace mu::real;
    switch (mc::range(0, 4)) {
    case 0: { double beta = mc::pick<double>({ 0.0, 0.5, 2.0, 5.0 }); auto last = results(NonUniform(1.0, beta), b, x, 0, 10); for (size_t g : { 1, 4, 9 }) { auto r = results(NonUniform(1.0, beta), b, x, g, 10); closer("NonUniform, later generations", last, r, x, any && beta > 0); last = r; } break; }
    case 1: { size_t g = mc::pick<size_t>({ 1, 5 }); auto last = results(NonUniform(1.0, 0.0), b, x, g, 10); for (double beta : { 0.5, 2.0, 5.0, 12.0 }) { auto r = results(NonUniform(1.0, beta), b, x, g, 10); closer("NonUniform, larger beta", last, r, x, any); last = r; } break; }
    case 2: { auto last = results(Polynomial(1.0, 0.0), b, x, 0, 10); for (double e : { 1.0, 20.0, 60.0, 200.0 }) { auto r = results(Polynomial(1.0, e), b, x, 0, 10); closer("Polynomial, larger eta", last, r, x, any); last = r; } break; }
    case 3: { auto last = results(Gauss(1.0, 0.5), b, x, 0, 10); for (double s : { 0.7, 1.0, 2.0, 6.0, 50.0 }) { auto r = results(Gauss(1.0, s), b, x, 0, 10); closer("Gauss, larger sigma", last, r, x, any); last = r; } break; }
    case 4: { // the deviation is (upper - lower) / sigma: the changes are proportional to it as long as no bound is reached, on both sides
        double y = at(b, 0.5); auto base = results(Gauss(1.0, 100.0), { 0.0, 1.0 }, 0.5, 0, 10); bool neg = false, pos = false; for (double s : { 25.0, 100.0, 400.0 }) { auto r = results(Gauss(1.0, s), b, y, 0, 10); for (size_t i = 0; i < r.size(); i++) { double want = y + (base[i] - 0.5) * 100.0 / s * w; if (want <= b.lower() + 0.01 * w || want >= b.upper() - 0.01 * w) continue; MC_CHECK(std::abs(r[i] - want) <= 1e-9 * w + 4e-16 * std::abs(y), "the change of a Gauss mutation is not proportional to its deviation", "sigma %g: %.17g, expected %.17g", s, r[i], want); neg |= r[i] < y; pos |= r[i] > y; } } MC_CHECK(!any || (neg && pos), "Gauss changes are one-sided", ""); break; }
    }
}
// ---- permutations against the sets of all documented results
using Perm = Chromosome<PermutationGene>; using Set = std::set<Perm>;
static size_t max_len(double r, size_t n) { return std::max<size_t>(2, size_t(r * double(n))); }
static Set reference(int k, const Perm& c, double r) {
    size_t n = c.size(); Set s; auto add = [&](Perm p) { s.insert(p); };
    if (k == 0) { for (size_t l = 2; l <= max_len(r, n); l++) for (size_t f = 0; f + l <= n; f++) { Perm p = c; for (size_t i = 0; i < l; i++) p[f + i] = c[f + l - 1 - i]; add(p); } }
    if (k == 1) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) { Perm p = c; p[i] = c[j]; p[j] = c[i]; add(p); }
    if (k == 2) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t h = 0; h < n; h++) if (i != j && j != h && i != h) { Perm p = c; p[i] = c[j]; p[j] = c[h]; p[h] = c[i]; add(p); }
    if (k == 3) { size_t l = max_len(r, n); for (size_t f = 0; f + l <= n; f++) { Perm q(c.begin() + f, c.begin() + f + l); std::sort(q.begin(), q.end()); do { Perm p = c; std::copy(q.begin(), q.end(), p.begin() + f); add(p); } while (std::next_permutation(q.begin(), q.end())); } }
    if (k == 4) { size_t m = std::clamp<size_t>(size_t(r * double(n)), 1, n - 1); for (size_t l = 1; l <= m; l++) for (size_t f = 0; f + l <= n; f++) for (size_t t = 0; t + l <= n; t++) if (t != f) { Perm block(c.begin() + f, c.begin() + f + l), rest; for (size_t i = 0; i < n; i++) if (i < f || i >= f + l) rest.push_back(c[i]); Perm p(rest.begin(), rest.begin() + t); p.insert(p.end(), block.begin(), block.end()); p.insert(p.end(), rest.begin() + t, rest.end()); add(p); } }
    return s;
}
static const char* const PN[] = { "Inversion", "Swap2", "Swap3", "Shuffle", "Shift" };
static Op<PermutationGene> perm_op(int k, double pm, double r) { using namespace mu::perm; if (k == 0) { auto o = std::make_shared<Inversion>(pm, 0.1); o->range_max(r); return o; } if (k == 1) return std::make_shared<Swap2>(pm); if (k == 2) return std::make_shared<Swap3>(pm); if (k == 3) { auto o = std::make_shared<Shuffle>(pm, 0.1); o->range_max(r); return o; } auto o = std::make_shared<Shift>(pm, 0.1); o->range_max(r); return o; }
static void perm_sets(int k, size_t n) {
    double r = k == 1 || k == 2 ? 1.0 : mc::pick<double>({ 0.0, 0.3, 0.5, 0.75, 1.0 }); size_t len = max_len(r, n); if (k == 3 && len > size_t(mc::depth(5, 6))) throw mc::Skip{}; Fx<PermutationGene> fx(n); auto op = perm_op(k, 1.0, r); auto c = mc::pick_from(some_perms(n)); Set got, want = reference(k, c, r);
    unsigned a = n; std::vector<unsigned> d{ 1, a, a, a }; int points = 4; if (k == 3) { unsigned s = len <= 3 ? 6 : len == 4 ? 12 : len == 5 ? 20 : 30; d = { 1, (unsigned)len - 1, a, s, s, s }; points = len <= 3 ? 5 : len == 5 ? 5 : 6; } if (k == 2) points = 5; if (k == 4) points = 5;
    all_draws(d, points, [&] { auto p = apply(fx, *op, c); MC_CHECK(want.count(p) || (want.empty() && p == c), "the result is not one that the mutation documents", "%s(%g): %s to %s", PN[k], r, show(c).c_str(), show(p).c_str()); got.insert(p); });
    // of a swap of three genes only the choice of the positions is documented, not in which direction they are exchanged
    auto other = [&](const Perm& p) { Perm q = c; std::vector<size_t> at; for (size_t i = 0; i < n; i++) if (p[i] != c[i]) at.push_back(i); for (size_t i : at) for (size_t j : at) if (i != j && p[i] == c[j]) q[j] = c[i]; return q; };
    for (auto& p : want) MC_CHECK(got.count(p) || (k == 2 && got.count(other(p))), "some documented results can never be produced", "%s(%g): %s to %s", PN[k], r, show(c).c_str(), show(p).c_str());
}
static void short_perms() { for (size_t n : { 0, 1, 2 }) { if (n == 0) continue; Fx<PermutationGene> fx(n); Perm c(n); std::iota(c.begin(), c.end(), 0); for (int k = 0; k < 5; k++) { auto op = perm_op(k, 1.0, 1.0); all_draws({ 4 }, 4, [&] { auto p = apply(fx, *op, c); bool same = n == 1 || k == 2; if (same) MC_CHECK(p == c, "a chromosome that is too short changes", "%s", PN[k]); else if (k != 3) MC_CHECK(p == (Perm{ 1, 0 }), "two genes are not exchanged", "%s: %s", PN[k], show(p).c_str()); }); } } }
static void long_perms(size_t n) {
    int k = mc::range(0, 4); double r = k == 1 || k == 2 ? 1.0 : mc::pick<double>({ 0.0, 0.1, 0.5, 1.0 }); Fx<PermutationGene> fx(n); auto op = perm_op(k, 1.0, r); Perm c(n); std::iota(c.begin(), c.end(), 0); if (mc::flip()) std::reverse(c.begin(), c.end()); mcr::reset(); mcr::stream(n * 13 + k); mcr::deviations(30, 24); auto p = apply(fx, *op, c); mcr::S().points = 0;
    size_t lo = 0, hi = n; while (lo < n && p[lo] == c[lo]) lo++; while (hi > lo && p[hi - 1] == c[hi - 1]) hi--; size_t diff = 0; for (size_t i = 0; i < n; i++) diff += p[i] != c[i]; auto text = [&] { return fmt("%s(%g), length %zu: changed %zu in [%zu, %zu)", PN[k], r, n, diff, lo, hi); };
    auto is_perm = p; std::sort(is_perm.begin(), is_perm.end()); for (size_t i = 0; i < n; i++) MC_CHECK(is_perm[i] == i, "the result is no permutation", "%s", text().c_str());
    if (k == 0) { MC_CHECK(hi - lo >= 2 && hi - lo <= max_len(r, n), "the inverted range is too long or too short", "%s", text().c_str()); for (size_t i = lo; i < hi; i++) MC_CHECK(p[i] == c[hi - 1 - (i - lo)], "the result is not one that the mutation documents", "%s", text().c_str()); }
    if (k == 1) MC_CHECK(diff == 2 && p[lo] == c[hi - 1] && p[hi - 1] == c[lo], "the result is not one that the mutation documents", "%s", text().c_str()); if (k == 2) MC_CHECK(diff == 3, "the result is not one that the mutation documents", "%s", text().c_str());
    if (k == 3) MC_CHECK(hi - lo <= max_len(r, n), "the shuffled range is too long", "%s", text().c_str());
    if (k == 4) { MC_CHECK(hi - lo >= 2, "a shift moves nothing", "%s", text().c_str()); size_t m = std::clamp<size_t>(size_t(r * double(n)), 1, n - 1), s = std::find(p.begin() + lo, p.begin() + hi, c[lo]) - p.begin() - lo, l = hi - lo; for (size_t i = 0; i < l; i++) MC_CHECK(p[lo + (i + s) % l] == c[lo + i], "the result is not one that the mutation documents", "%s", text().c_str()); MC_CHECK(std::min(s, l - s) <= m, "the shifted range is too long", "%s", text().c_str()); }
}
template<typename T> static void long_genes(size_t n) {
    auto v = all_ops<T>(0.5); auto& o = mc::pick_from(v); double pm = mc::pick<double>({ 0.0, 0.01, 0.5, 1.0 }); o.op->mutation_rate(pm); Fx<T> fx(n, some_bounds<T>(n)); auto c = some_chrom<T>(n); mcr::reset(); mcr::stream(n * 17); mcr::deviations(30, 12); auto p = apply(fx, *o.op, c); mcr::S().points = 0; size_t diff = 0; for (size_t i = 0; i < n; i++) diff += p[i] != c[i];
    MC_CHECK(fx.valid(p), "an invalid gene", "%s", o.name); if (pm == 0.0) MC_CHECK(diff == 0, "a mutation with rate zero changes a candidate", "%s", o.name); if (pm == 1.0) MC_CHECK((std::is_same_v<T, RealGene> ? diff + 3 > n : diff == n), "a mutation with rate one leaves genes unchanged", "%s: %zu of %zu changed", o.name, diff, n);
    if (pm == 1.0 && o.name == std::string("Boundary")) if constexpr (std::is_same_v<T, RealGene>) for (size_t i = 0; i < n; i++) MC_CHECK(p[i] == fx.bounds[i].lower() || p[i] == fx.bounds[i].upper(), "a boundary mutation gives something else than a bound", "%s", show(p).c_str());
}
// every position of a long chromosome is changed by some draw: one of the first draws takes every value of a fine alphabet
template<typename T> static void long_reach(size_t n) {
    std::vector<std::pair<std::string, Op<T>>> ops; if constexpr (std::is_same_v<T, PermutationGene>) for (int k = 0; k < 5; k++) ops.push_back({ PN[k], perm_op(k, 1.0, k == 3 ? 0.3 : 0.5) }); else for (auto& o : all_ops<T>(0.5)) { o.op->mutation_rate(3.0 / n); ops.push_back({ o.name, o.op }); }
    if (ops.empty()) throw mc::Skip{}; auto& [name, op] = ops[mc::choose(ops.size())]; Fx<T> fx(n, some_bounds<T>(n)); auto c = some_chrom<T>(n); std::vector<bool> hit(n); size_t missing = n; auto alphabet = mcr::make_alphabet(2 * n);
    for (int seed = 0; seed < 8; seed++) for (int at = 0; at < 10; at++) for (uint64_t letter : alphabet) { if (!missing) break; mcr::reset(seed * 10 + at + 1); uint64_t x = seed * 1000 + at * 77 + 1; for (int i = 0; i < at; i++) mcr::S().forced.push_back(mcr::splitmix(x)); mcr::S().forced.push_back(letter); mc::step(); auto p = apply(fx, *op, c); for (size_t i = 0; i < n; i++) if (p[i] != c[i] && !hit[i]) hit[i] = true, missing--; }
    mcr::reset(); MC_CHECK(!missing, "some documented results can never be produced", "%s, length %zu: %zu positions never change, the first is %zu", name.c_str(), n, missing, size_t(std::find(hit.begin(), hit.end(), false) - hit.begin()));
}
static void setup() {
    for (size_t n : { 20, 65, 130, 257, 300 }) { mc::add_task(fmt("long reach permutations %zu", n), [=] { long_reach<PermutationGene>(n); }); mc::add_task(fmt("long reach binary %zu", n), [=] { long_reach<BinaryGene>(n); }); mc::add_task(fmt("long reach integer %zu", n), [=] { long_reach<IntegerGene>(n); }); mc::add_task(fmt("long reach real %zu", n), [=] { long_reach<RealGene>(n); }); }
    for (size_t n : { 257, 300 }) { mc::add_task(fmt("long permutations %zu", n), [=] { long_perms(n); }, 1); mc::add_task(fmt("long binary %zu", n), [=] { long_genes<BinaryGene>(n); }, 1); mc::add_task(fmt("long integer %zu", n), [=] { long_genes<IntegerGene>(n); }, 1); mc::add_task(fmt("long real %zu", n), [=] { long_genes<RealGene>(n); }, 1); }
    mcr::install(); bool t = mc::thorough(); mc::add_task("rates binary", rates<BinaryGene>); mc::add_task("rates integer", rates<IntegerGene>); mc::add_task("rates real", rates<RealGene>); mc::add_task("rates permutation", rates<PermutationGene>);
    for (size_t n = 1; n <= 4; n++) { mc::add_task(fmt("rate zero binary %zu", n), [=] { rate_zero<BinaryGene>(n); }); mc::add_task(fmt("rate zero integer %zu", n), [=] { rate_zero<IntegerGene>(n); }); mc::add_task(fmt("rate zero real %zu", n), [=] { rate_zero<RealGene>(n); }); mc::add_task(fmt("rate zero permutation %zu", n), [=] { rate_zero<PermutationGene>(n); }); }
    for (size_t n = 1; n <= 5; n++) mc::add_task(fmt("flip %zu", n), [=] { ::flip(n); }); for (size_t n = 1; n <= (t ? 3u : 2u); n++) { mc::add_task(fmt("integers %zu", n), [=] { integers(n); }); } for (size_t n = 1; n <= 3; n++) mc::add_task(fmt("real sets %zu", n), [=] { real_sets(n); });
    for (size_t n : { 2, 3 }) { mc::add_task(fmt("independent real genes %zu", n), [=] { independent<RealGene>(n); }); mc::add_task(fmt("independent integer genes %zu", n), [=] { independent<IntegerGene>(n); }); }
    mc::add_task("real ranges", real_ranges); mc::add_task("shrinking", shrinking); mc::add_task("short permutations", short_perms);
    for (int k = 0; k < 5; k++) for (size_t n = 2; n <= (t ? 7u : 6u); n++) mc::add_task(fmt("%s %zu", PN[k], n), [=] { perm_sets(k, n); });
    for (size_t n : { 20, 65, 130 }) { mc::add_task(fmt("long permutations %zu", n), [=] { long_perms(n); }, t ? 2 : 1); mc::add_task(fmt("long binary %zu", n), [=] { long_genes<BinaryGene>(n); }, t ? 2 : 1); mc::add_task(fmt("long integer %zu", n), [=] { long_genes<IntegerGene>(n); }, t ? 2 : 1); mc::add_task(fmt("long real %zu", n), [=] { long_genes<RealGene>(n); }, t ? 2 : 1); }
}
MC_MAIN(setup)
