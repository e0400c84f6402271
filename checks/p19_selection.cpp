// P19: the selection operators of the single-objective algorithm. The probability of every candidate is measured by running one selection for each of N equidistant raw draws (or every combination of them) and compared to the documented weights.
#include "nsga.hpp"
using namespace ns; using LD = long double;
static constexpr double LARGE = std::numeric_limits<double>::max(), SMALL = std::numeric_limits<double>::min();
static std::vector<uint64_t> midpoints(size_t n) { std::vector<uint64_t> v; for (size_t k = 0; k < n; k++) v.push_back(uint64_t(((unsigned __int128)(2 * k + 1) << 63) / n) + k % 7); return v; }
/** How often every candidate is selected over all sequences of `draws` raw values. */
template<typename F> static Idx counts(size_t n, size_t draws, size_t letters, F select) {
    auto a = midpoints(letters); Idx c(n), d(draws);
    for (;;) { mcr::reset(); for (size_t i : d) mcr::S().forced.push_back(a[i]); size_t r = select(); MC_CHECK(r < n, "a selection does not return a member of the population", "%zu of %zu", r, n); MC_CHECK(mcr::S().draws <= draws, "a selection makes more random draws than expected", "%zu", (size_t)mcr::S().draws); c[r]++; size_t i = 0; while (i < draws && ++d[i] == letters) d[i++] = 0; if (i == draws) break; }
    mcr::reset(); mc::case_(1); return c;
}
static std::string sv(const V& v) { std::string s; for (double x : v) s += mc::fmt("%.17g ", x); return s; }
static FitnessMatrix column(const V& f) { VV m; for (double x : f) m.push_back({ x }); return matrix(m); }
static const GaInfo& context(size_t gens = 1) { static std::map<size_t, std::unique_ptr<BinaryGA>> m; auto& g = m[gens]; if (!g) { g = std::make_unique<BinaryGA>(2); g->solve(Fit([](const Chromosome<BinaryGene>&) -> FitnessVector { return { 0.0 }; }), gens); } return *g; }
static constexpr size_t N = 2048;
static void in_range(selection::Selection& s, const V& f, const char* what) { auto m = column(f); s.initializeImpl(context()); s.prepareSelectionsImpl(context(), m); for (uint64_t x : std::initializer_list<uint64_t>{ 0, ~0ull, ~0ull - 1, 1, ~0ull << 11, 1ull << 63 }) { mcr::reset(); mcr::S().forced = { x }; size_t r = s.selectImpl(context(), m); MC_CHECK(r < f.size(), "a selection does not return a member of the population", "%s of (%s): %zu", what, sv(f).c_str(), r); mc::step(); } mcr::reset(); }
/** Compares the measured probabilities to the weights. ties: candidates with equal fitness may exchange their weights. */
static void compare(const Idx& c, const V& f, std::vector<LD> w, const std::string& what, bool ties = false) {
    size_t n = f.size(); LD sum = 0, total = 0; for (LD x : w) sum += x; for (size_t x : c) total += x; if (sum == 0) { for (LD& x : w) x = 1; sum = n; }
    auto text = [&] { std::string s = what + " of (" + sv(f) + "): "; for (size_t i = 0; i < n; i++) s += mc::fmt("%zu/%.2Lf ", c[i], w[i] / sum * total); return s; };
    std::vector<LD> want = w; Idx got = c; if (ties) { for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) if (f[i] == f[j]) { if (want[i] < want[j]) std::swap(want[i], want[j]); if (got[i] < got[j]) std::swap(got[i], got[j]); } }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { if (f[i] > f[j]) MC_CHECK(c[i] + 1 >= c[j], "a better candidate is selected less often than a worse one", "%s", text().c_str()); if (f[i] == f[j] && !ties) MC_CHECK(c[i] <= c[j] + 1, "candidates of equal fitness are not selected equally often", "%s", text().c_str()); }
    for (size_t i = 0; i < n; i++) MC_CHECK(std::abs(LD(got[i]) - want[i] / sum * total) <= 1.01L, "a candidate is not selected with its documented probability", "%s", text().c_str());
}
static void measure(selection::Selection& s, const V& f, const std::vector<LD>& w, const std::string& what, bool ties = false) {
    auto m = column(f); s.initializeImpl(context()); s.prepareSelectionsImpl(context(), m); size_t letters = f.size() > 40 ? 4 * N : N; compare(counts(f.size(), 1, letters, [&] { return s.selectImpl(context(), m); }), f, w, what, ties); in_range(s, f, what.c_str());
}
static double max_abs(const V& f) { double m = 0; for (double x : f) m = std::max(m, std::abs(x)); return m; }
static void roulette(const V& f) { selection::Roulette s; LD low = *std::min_element(f.begin(), f.end()); std::vector<LD> w; for (double x : f) w.push_back(low >= 0 ? (LD)x : x / 3.0L - low * 2 / 3); measure(s, f, w, "Roulette"); }
static const std::vector<std::pair<double, double>> RANKS{ { 0.1, 1.1 }, { 0, 1 }, { 0.5, 2 }, { 1, 1 }, { 0, 0 }, { 0, LARGE / 100 } };
static void rank(const V& f) {
    Idx order(f.size()); for (size_t i = 0; i < f.size(); i++) order[i] = i; std::stable_sort(order.begin(), order.end(), [&](size_t a, size_t b) { return f[a] < f[b]; });
    for (auto [lo, hi] : RANKS) { selection::Rank s(lo, hi); MC_CHECK(s.weights() == std::pair(lo, hi) && s.min_weight() == lo && s.max_weight() == hi, "the weights of the rank selection are not the given ones", "%g %g", lo, hi); std::vector<LD> w(f.size()); for (size_t i = 0; i < f.size(); i++) w[order[i]] = lo + ((LD)hi - lo) * i / std::max<size_t>(f.size() - 1, 1); measure(s, f, w, mc::fmt("Rank(%g, %g)", lo, hi), true); }
    selection::Rank s; s.weights(1, 3); std::vector<LD> w(f.size()); for (size_t i = 0; i < f.size(); i++) w[order[i]] = 1 + 2.0L * i / std::max<size_t>(f.size() - 1, 1); measure(s, f, w, "Rank with set weights", true);
}
static void sigma(const V& f) {
    LD mean = 0, var = 0, n = f.size(); for (double x : f) mean += x / n; for (double x : f) var += (x - mean) / n * (x - mean); LD sd = std::sqrt(var); bool exact = max_abs(f) < 8e307, equal = true; for (double x : f) equal &= x == f[0];
    for (double scale : { 3.0, 1.0, 0.5, 2.0, 10.0, 1e-6, 1e6, 1e-300, 1e300 }) { selection::Sigma s(scale); MC_CHECK(s.scale() == scale, "the scale of the sigma selection is not the given one", "%g", scale); std::vector<LD> w; for (double x : f) w.push_back(equal ? 1 : std::max(0.0L, 1 + (x - mean) / (scale * sd))); auto what = mc::fmt("Sigma(%g)", scale);
        if (exact && (equal || (scale > 1e-100 && scale * sd >= 4 * SMALL && scale * sd < LARGE))) measure(s, f, w, what); else in_range(s, f, what.c_str()); }
    selection::Sigma s; s.scale(1.5); std::vector<LD> w; for (double x : f) w.push_back(equal ? 1 : std::max(0.0L, 1 + (x - mean) / (1.5L * sd))); if (exact && (equal || sd > 4 * SMALL)) measure(s, f, w, "Sigma with set scale");
}
static void boltzmann(const V& f) {
    auto [lo, hi] = std::minmax_element(f.begin(), f.end()); LD df = std::max<LD>((LD)*hi - *lo, SMALL); bool exact = (LD)*hi - *lo < LARGE;
    for (double t : { 0.2, 1.0, 4.2, 0.02, 1e-3, 1e-5, 50.0, 1e5 }) { size_t calls = 0, gen = 99, max = 99; selection::Boltzmann s([&](size_t g, size_t m) { calls++; gen = g; max = m; return t; }); std::vector<LD> w; for (double x : f) w.push_back(std::exp(((LD)x - *hi) / df / t)); auto what = mc::fmt("Boltzmann(%g)", t); if (exact) measure(s, f, w, what); else in_range(s, f, what.c_str()); MC_CHECK(gen == context().generation_cntr() && max == context().max_gen() && calls <= 2, "the temperature function gets wrong arguments", "%zu %zu", gen, max); }
}
static void tournament(const V& f) {
    size_t n = f.size(); for (size_t m = 1; m <= 4; m++) { if (std::pow(n, m) > 3000) break; selection::Tournament tm(m); selection::Selection& s = tm; MC_CHECK(tm.size() == m, "the size of the tournament is not the given one", "%zu", m); auto fm = column(f); s.initializeImpl(context()); s.prepareSelectionsImpl(context(), fm); auto c = counts(n, m, n, [&] { return s.selectImpl(context(), fm); });
        auto text = [&] { std::string t = mc::fmt("Tournament(%zu) of (%s): ", m, sv(f).c_str()); for (size_t x : c) t += mc::fmt("%zu ", x); return t; };
        for (size_t i = 0; i < n; i++) { size_t less = 0, same = 0; for (double x : f) less += x < f[i], same += x == f[i]; double want = (std::pow(less + same, m) - std::pow(less, m)) / same; MC_CHECK(std::abs(c[i] - want) < 1e-6, "a candidate is not selected with its documented probability", "%s: %g", text().c_str(), want); }
        in_range(s, f, "Tournament"); }
    selection::Tournament d, e(5); e.size(2); MC_CHECK(d.size() == 2 && e.size() == 2, "the size of the tournament is not the given one", "%zu %zu", d.size(), e.size()); for (selection::Selection* s : std::initializer_list<selection::Selection*>{ &d, &e }) { auto fm = column(f); auto c = counts(n, 2, n, [&] { return s->selectImpl(context(), fm); }); for (size_t i = 0; i < n; i++) { size_t less = 0, same = 0; for (double x : f) less += x < f[i], same += x == f[i]; MC_CHECK(c[i] * same == (less + same) * (less + same) - less * less, "the default tournament is not a tournament of two", "%s", sv(f).c_str()); } }
}
static V population_of(size_t n, const V& a) { V f; for (size_t i = 0; i < n; i++) f.push_back(mc::pick_from(a)); mc::state(mc::hbytes(f.data(), 8 * n)); return f; }
static void finite(size_t n, const V& a) { V f = population_of(n, a); roulette(f); rank(f); sigma(f); boltzmann(f); tournament(f); }
static void infinite(size_t n) { V f = population_of(n, { -INF, -LARGE, 0, LARGE, INF }); rank(f); tournament(f); }
static void family(size_t n) {
    V f; int kind = mc::range(0, 7); double base = mc::pick({ 0.0, -1.0, 1e-300, 7.5, -1e150, 1e300 }); for (size_t i = 0; i < n; i++) { double x = 0; size_t p = i * 7 % n; switch (kind) { case 0: x = base; break; case 1: x = base + (base ? std::abs(base) : 1) * 0.125 * p; break; case 2: x = i == n / 2 ? base + 1 + std::abs(base) : base; break; case 3: x = i == 0 ? base - 1 - std::abs(base) : base; break; case 4: x = p % 3 ? base : 2 * base + 1; break; case 5: x = std::ldexp(1.0, p) - 3; break; case 6: x = -std::ldexp(1.0, p); break; case 7: x = std::ldexp(base, -(int)p); } f.push_back(x); }
    mc::state(mc::hbytes(f.data(), 8 * n)); roulette(f); rank(f); sigma(f); boltzmann(f); tournament(f);
}
/** The ways to give a selection to the algorithm, and the selections of the algorithm object. */
static void through_algorithm(size_t n) {
    V f = population_of(n, { -1.5, 0, 2 }), g = population_of(n, { 1, 4 }); int way = mc::range(0, 3); VV m; for (double x : f) m.push_back({ x }); auto make = [&](auto s) { using S = decltype(s); switch (way) { case 0: return std::make_unique<algorithm::SingleObjective>(s); case 1: return std::make_unique<algorithm::SingleObjective>(std::make_unique<S>(s)); case 2: { auto a = std::make_unique<algorithm::SingleObjective>(selection::Roulette{}); a->selection_method(s); return a; } default: { auto a = std::make_unique<algorithm::SingleObjective>(selection::Roulette{}); a->selection_method(std::make_unique<S>(s)); return a; } } };
    auto check = [&](auto s, const std::function<std::vector<LD>(const V&)>& weights, const char* what) { Driver d(make(s), m); for (const V& h : { f, g, f }) { d.f.clear(); for (double x : h) d.f.push_back({ x }); d.pop = population(d.f); auto fm = matrix(d.f); d.alg->prepareSelections(d.ga, fm); compare(counts(n, 1, N, [&] { return d.select(fm); }), h, weights(h), what); } };
    check(selection::Sigma(1.0), [&](const V& h) { LD mean = 0, var = 0; std::vector<LD> w; for (double x : h) mean += x / (LD)n; for (double x : h) var += (x - mean) * (x - mean) / n; for (double x : h) w.push_back(var > 1e-20L ? std::max(0.0L, 1 + (x - mean) / std::sqrt(var)) : 1); return w; }, "Sigma in an algorithm");
    check(selection::Boltzmann([](size_t, size_t) { return 0.7; }), [&](const V& h) { auto [lo, hi] = std::minmax_element(h.begin(), h.end()); std::vector<LD> w; for (double x : h) w.push_back(*hi > *lo ? std::exp((x - *hi) / (*hi - *lo) / 0.7L) : 1); return w; }, "Boltzmann in an algorithm");
    check(selection::Roulette(), [&](const V& h) { LD low = *std::min_element(h.begin(), h.end()); std::vector<LD> w; for (double x : h) w.push_back(low >= 0 ? (LD)x : x / 3.0L - low * 2 / 3); return w; }, "Roulette in an algorithm");
}
/** The temperature falls during a run, from nearly equal probabilities to large differences. */
static void temperature() {
    size_t gens = mc::range(2, 40), last = 0; V p; for (size_t g = 1; g <= gens; g++) {
        struct Probe final : selection::Selection { selection::Boltzmann b; V* p; explicit Probe(V* p_) : p(p_) {} void prepareSelectionsImpl(const GaInfo& ga, const FitnessMatrix&) override { auto m = column({ 3, 5 }); selection::Selection& s = b; s.prepareSelectionsImpl(ga, m); auto c = counts(2, 1, N, [&] { return s.selectImpl(ga, m); }); p->push_back(double(c[1]) / N); } size_t selectImpl(const GaInfo&, const FitnessMatrix&) const override { return 0; } };
        if (g > 1) break; BinaryGA ga(2); ga.algorithm(algorithm::SingleObjective(Probe(&p))); ga.solve(Fit([](const Chromosome<BinaryGene>&) -> FitnessVector { return { 0.0 }; }), gens); }
    (void)last; MC_CHECK(p.size() == gens - 1, "the selections are not prepared once per generation", "%zu generations, %zu times", gens, p.size()); for (size_t i = 0; i < p.size(); i++) { MC_CHECK(p[i] > 0.5 && p[i] < 1, "the default temperature is not positive and finite", "generation %zu of %zu: %g", i, gens, p[i]); if (i) MC_CHECK(p[i] >= p[i - 1], "the default temperature does not fall", "generation %zu of %zu: %g, %g", i, gens, p[i - 1], p[i]); }
    MC_CHECK(p[0] < 0.6 && (gens < 20 || p.back() > 0.95), "the default temperature does not lead from equal to different probabilities", "%g to %g", p[0], p.back());
}
/** Whole runs with a recording selection: prepared once per generation with the current fitness values; the selected candidates are the parents. */
static void runs() {
    size_t n = mc::range(1, 5), gens = mc::range(1, 5); uint64_t seed = mc::range(1, 3); V script = V(4000); uint64_t s = seed; for (double& x : script) x = double(mcr::splitmix(s) % 5); mcr::reset(seed);
    struct Log { size_t inits = 0, prepares = 0; std::vector<size_t> picked; V prepared; const GaInfo* ga = nullptr; } log;
    struct Rec final : selection::Selection { Log* l; size_t turn; Rec(Log* l_, size_t t) : l(l_), turn(t) {} void initializeImpl(const GaInfo&) override { l->inits++; } void prepareSelectionsImpl(const GaInfo& ga, const FitnessMatrix& m) override { l->prepares++; l->ga = &ga; l->prepared.clear(); for (auto r : m) l->prepared.push_back(r[0]); l->picked.clear(); } size_t selectImpl(const GaInfo& ga, const FitnessMatrix& m) const override { MC_CHECK(l->ga == &ga && m.size() == l->prepared.size(), "a selection is not prepared for its population", "%zu", m.size()); for (size_t i = 0; i < m.size(); i++) MC_CHECK(m[i][0] == l->prepared[i], "a selection is not prepared for its population", "%zu", i); l->picked.push_back((turn * 7 + l->picked.size() * 3) % m.size()); return l->picked.back(); } };
    BinaryGA ga(n); std::vector<std::pair<size_t, size_t>> parents; size_t gen = 0, next = n; std::vector<size_t> ids; bool probe = true;
    ga.algorithm(algorithm::SingleObjective(Rec(&log, seed), replacement::KeepChildren{}));
    ga.crossover_method([&](const GA<BinaryGene>&, const Candidate<BinaryGene>& a, const Candidate<BinaryGene>& b) { parents.push_back({ id_of(a.chromosome), id_of(b.chromosome) }); MC_CHECK(a.is_evaluated && a.fitness[0] == script[id_of(a.chromosome)], "a parent does not have its fitness", "%zu", id_of(a.chromosome)); return CandidatePair<BinaryGene>{ a, b }; }); ga.crossover_rate(1.0);
    ga.mutation_method([&](const GA<BinaryGene>&, const Candidate<BinaryGene>&, Chromosome<BinaryGene>& c) { c = chrom(next++); });
    ga.on_generation_end([&](const GaInfo& info) {
        if (gen > 0) { MC_CHECK(log.prepares == gen, "the selections are not prepared once per generation", "%zu times in %zu generations", log.prepares, gen); for (size_t i = 0; i < n; i++) MC_CHECK(log.prepared.at(i) == script[ids[i]], "the selections are prepared for another population", "candidate %zu", i); MC_CHECK(log.picked.size() == n + n % 2, "a generation has a wrong number of selections", "%zu for %zu candidates", log.picked.size(), n);
            MC_CHECK(parents.size() <= log.picked.size() / 2, "there are more crossovers than selected pairs", "%zu", parents.size()); size_t at = 0; for (size_t i = 0; i + 1 < log.picked.size(); i += 2) { size_t a = ids[log.picked[i]], b = ids[log.picked[i + 1]]; if (at < parents.size() && (parents[at] == std::pair(a, b) || parents[at] == std::pair(b, a))) at++; else MC_CHECK(a == b, "the selected candidates are not the parents", "pair %zu of generation %zu", i / 2, gen); } MC_CHECK(at == parents.size(), "the selected candidates are not the parents", "generation %zu", gen); }
        parents.clear(); ids.clear(); for (auto& c : ga.population()) ids.push_back(id_of(c.chromosome)); MC_CHECK(info.generation_cntr() == gen, "wrong generation", "%zu", gen); gen++; });
    Pop init; for (size_t i = 0; i < n; i++) init.push_back(Candidate<BinaryGene>(chrom(i)));
    for (int run = 0; run < 2; run++) { gen = 0; next = n; probe = true; log.prepares = 0; ga.solve(Fit([&](const Chromosome<BinaryGene>& c) -> FitnessVector { if (probe) { probe = false; return { 0.0 }; } return { script[id_of(c)] }; }, false, 10), gens, init); MC_CHECK(log.inits == size_t(run + 1) && gen == gens, "the selection is not initialised once per run", "%zu in %d runs", log.inits, run + 1); }
}
static void setup() {
    mcr::install(); bool t = mc::thorough(); V a{ -3, -1, 0, 1, 2.5 }, x{ -LARGE, -1, 0, SMALL, 1, LARGE }, b{ -1e9, 0.1, 0.3, 1e6 };
    for (size_t n = 1; n <= 5; n++) mc::add_task(mc::fmt("small %zu", n), [=] { finite(n, a); }); for (size_t n = 1; n <= (t ? 5u : 4u); n++) { mc::add_task(mc::fmt("extreme %zu", n), [=] { finite(n, x); }); mc::add_task(mc::fmt("infinite %zu", n), [=] { infinite(n); }); }
    mc::add_task("small 6", [=] { finite(6, t ? V{ -3, 0, 1, 2.5 } : V{ -3, 0, 2.5 }); }); mc::add_task("mixed 4", [=] { finite(4, b); }); if (t) for (size_t n : { 7u, 8u }) mc::add_task(mc::fmt("small %zu", n), [=] { finite(n, V{ -3, 0, 2.5 }); });
    for (size_t n = 1; n <= (t ? 64u : 48u); n += n < 12 || t ? 1 : 4) mc::add_task(mc::fmt("family %zu", n), [=] { family(n); });
    for (size_t n = 1; n <= 3; n++) mc::add_task(mc::fmt("through the algorithm %zu", n), [=] { through_algorithm(n); }); for (size_t n : { 63, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300 }) mc::add_task(mc::fmt("large %zu", n), [=] { family(n); }); mc::add_task("temperature", temperature); mc::add_task("runs", runs);
}
MC_MAIN(setup)
