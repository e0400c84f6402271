// P21: every tracked metric has one value per generation, equal to its definition on that generation's population.
#include "mc.hpp"
#include "ga_script.hpp"
#include <cmath>
using namespace gs;
// hypervolume of points with integer coordinates above an integer reference point, by counting unit cells
static double volume(const VV& pts, const V& ref) {
    int d = ref.size(); std::vector<int> lo(d), hi(d), c; for (int k = 0; k < d; k++) { lo[k] = (int)ref[k]; hi[k] = lo[k]; for (auto& p : pts) hi[k] = std::max(hi[k], (int)p[k]); if (hi[k] == lo[k]) return 0; }
    c = lo; long n = 0; for (;;) { for (auto& p : pts) { bool in = true; for (int k = 0; k < d; k++) in &= c[k] + 1 <= p[k]; if (in) { n++; break; } } int k = 0; while (k < d && ++c[k] == hi[k]) c[k] = lo[k], k++; if (k == d) break; } return n;
}
static bool dominates(const V& a, const V& b) { bool gt = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] < b[i]) return false; gt |= a[i] > b[i]; } return gt; }
static V mins(const VV& m) { V r = m[0]; for (auto& p : m) for (size_t k = 0; k < r.size(); k++) r[k] = std::min(r[k], p[k]); return r; }
static V maxs(const VV& m) { V r = m[0]; for (auto& p : m) for (size_t k = 0; k < r.size(); k++) r[k] = std::max(r[k], p[k]); return r; }
static V mean(const VV& m) { V r(m[0].size(), 0.0); for (auto& p : m) for (size_t k = 0; k < r.size(); k++) r[k] += p[k]; for (double& x : r) x /= m.size(); return r; }
static V variance(const VV& m) { V r(m[0].size(), 0.0), a = mean(m); if (m.size() == 1) return r; for (auto& p : m) for (size_t k = 0; k < r.size(); k++) r[k] += (p[k] - a[k]) * (p[k] - a[k]); for (double& x : r) x /= m.size() - 1; return r; }
static V nadir(const VV& m) { VV f; for (auto& p : m) { bool dom = false; for (auto& q : m) dom |= dominates(q, p); if (!dom) f.push_back(p); } return mins(f); }
static V root(V v) { for (double& x : v) x = std::sqrt(x); return v; }
template<typename M> static void rows(const char* name, const M& m, size_t gens, const std::vector<VV>& h, V(*def)(const VV&)) {
    MC_CHECK(m.size() == gens && m.data().size() == gens && size_t(m.end() - m.begin()) == gens, "a metric does not have one value per generation", "%s: %zu values after %zu generations", name, m.size(), gens);
    for (size_t g = 0; g < gens; g++) { V e = def(h[g]); auto r = m[g]; MC_CHECK(r.size() == e.size(), "a metric value has the wrong dimension", "%s", name); for (size_t k = 0; k < e.size(); k++) MC_CHECK(near(r[k], e[k]), "a metric differs from its definition", "%s of generation %zu, objective %zu: %.17g instead of %.17g, history %s", name, g, k, r[k], e[k], show(h).c_str()); }
}
template<typename M> static void vals(const char* name, const M& m, size_t gens, const V& e, const std::vector<VV>& h) {
    MC_CHECK(m.size() == gens && m.data().size() == gens, "a metric does not have one value per generation", "%s: %zu values after %zu generations", name, m.size(), gens);
    for (size_t g = 0; g < gens; g++) MC_CHECK(near(m[g], e[g]), "a metric differs from its definition", "%s of generation %zu: %.17g instead of %.17g, history %s", name, g, double(m[g]), e[g], show(h).c_str());
}
using namespace metrics;
static V gReference;
// the tracked set is chosen; everything tracked has to be right and everything else absent
struct All { bool min, max, mean, var, sd, nad, hv, ahv, ev; };
static void check(BinaryGA& ga, const std::vector<VV>& h, const All& t, bool one_eval_each = true) {
    mc::step(); size_t n = h.size(), d = h[0][0].size();
    #define GETM(F, T) const T* F##_p = ga.get_metric_if<T>(); MC_CHECK((F##_p != nullptr) == t.F, "a tracked metric is absent or an untracked one present", #T); if (F##_p) MC_CHECK(&ga.get_metric<T>() == F##_p, "get_metric and get_metric_if disagree", #T);
    GETM(min, FitnessMin) GETM(max, FitnessMax) GETM(mean, FitnessMean) GETM(var, FitnessVariance) GETM(sd, FitnessStdDev) GETM(nad, NadirPoint) GETM(hv, Hypervolume) GETM(ahv, AutoHypervolume) GETM(ev, FitnessEvaluations)
    if (min_p) rows("FitnessMin", *min_p, n, h, mins); if (max_p) rows("FitnessMax", *max_p, n, h, maxs); if (mean_p) rows("FitnessMean", *mean_p, n, h, mean); if (var_p) rows("FitnessVariance", *var_p, n, h, variance); if (sd_p) rows("FitnessStdDev", *sd_p, n, h, [](const VV& m) { return root(variance(m)); }); if (nad_p) rows("NadirPoint", *nad_p, n, h, nadir);
    if (hv_p) { V e; for (auto& m : h) e.push_back(volume(m, gReference)); vals("Hypervolume", *hv_p, n, e, h); MC_CHECK(V(hv_p->ref_point().begin(), hv_p->ref_point().end()) == gReference, "the reference point changed", ""); }
    if (ahv_p) { V w(d, INF), e; for (auto& m : h) { V lo = mins(m); for (size_t k = 0; k < d; k++) w[k] = std::min(w[k], lo[k]); } for (auto& m : h) e.push_back(volume(m, w)); vals("AutoHypervolume", *ahv_p, n, e, h); MC_CHECK(V(ahv_p->ref_point().begin(), ahv_p->ref_point().end()) == w, "wrong automatic reference point", "%s", show(h).c_str()); }
    if (ev_p && one_eval_each) vals("FitnessEvaluations", *ev_p, n, V(n, h[0].size()), h);
    mc::state(hash(h));
}
static const All FULL{ 1, 1, 1, 1, 1, 1, 1, 1, 1 };
static void track_all(BinaryGA& ga, int d) { gReference = V(d, -1.0); ga.track(FitnessMin{}, FitnessMax{}, FitnessMean{}, FitnessVariance{}, FitnessStdDev{}, NadirPoint{}, Hypervolume{ fv(gReference) }, AutoHypervolume{}, FitnessEvaluations{}); }
static void run(int gens, int n, int d, V a) { auto h = history(gens, n, d, a); Script s(n); track_all(s.ga, d); s.run(h); check(s.ga, h, FULL); }
// only the hypervolumes, for which more points matter
static void hv(int n, int d, V a) { auto h = history(1, n, d, a); Script s(n); gReference = V(d, -1.0); if (d > 1) gReference[1] = -3; s.ga.track(AutoHypervolume{}, Hypervolume{ fv(gReference) }); s.run(h); check(s.ga, h, All{ 0, 0, 0, 0, 0, 0, 1, 1, 0 }); }
static void hv_auto(int gens, int n, int d, V a) { auto h = history(gens, n, d, a); Script s(n); s.ga.track(AutoHypervolume{}); s.run(h); check(s.ga, h, All{ 0, 0, 0, 0, 0, 0, 0, 1, 0 }); }
static void hv_family(int n) { int d = mc::range(1, n > 60 ? 3 : 4), f = mc::range(0, 4); std::vector<VV> h(1); uint64_t l = n * 131 + f; auto rnd = [&](int m) { l = l * 6364136223846793005ull + 1442695040888963407ull; return int((l >> 40) % m); };
    for (int i = 0; i < n; i++) { V r(d); for (int k = 0; k < d; k++) r[k] = f == 0 ? rnd(8) : f == 1 ? (k == 0 ? i % 9 : (n - i) % 9) : f == 2 ? (i * (k + 3)) % 7 : f == 3 ? (k == i % d ? 8 : rnd(5)) : std::min(8, i / (k + 1)); h[0].push_back(r); }
    Script s(n); track_all(s.ga, d); s.run(h); check(s.ga, h, FULL); }
// long runs, in which the best, the worst and the spread drift, jump or stay
static void longer(int gens) {
    int n = mc::pick({ 1, 2, 5 }), d = mc::range(1, 3), f = mc::range(0, 5); std::vector<VV> h(gens); uint64_t l = gens * 131 + f * 7 + n; auto rnd = [&](int m) { l = l * 6364136223846793005ull + 1442695040888963407ull; return int((l >> 40) % m); };
    for (int g = 0; g < gens; g++) for (int i = 0; i < n; i++) { V r(d); for (int k = 0; k < d; k++) r[k] = f == 0 ? rnd(6) : f == 1 ? std::min(9, g * 10 / gens) + (i + k) % 2 : f == 2 ? 9 - std::min(9, g * 10 / gens) + (i * k) % 3 : f == 3 ? (g == gens - 1 ? k : 4 + rnd(3)) : f == 4 ? (g == 0 ? 0 : 2 + (g + i + k) % 4) : (g % 16 == 15 ? 7 - i % 3 : 3); h[g].push_back(r); }
    Script s(n); track_all(s.ga, d); s.run(h); check(s.ga, h, FULL);
}
// several runs of one object, with other numbers of objectives, population sizes and lengths
static void runs(int k, int d, int maxn, int maxgen) {
    Script s(1);
    for (int r = 0; r < k; r++) { int n = mc::range(1, maxn), gens = mc::range(1, maxgen); s.ga.population_size(n); auto h = history(gens, n, d, r == 0 ? V{ 0, 1 } : V{ 2. + r, 0 }); if (r == 0 || mc::flip()) track_all(s.ga, d); s.run(h); check(s.ga, h, FULL); }
}
// the metrics are up to date when the callback and the stop condition see them
static void visible() {
    int n = 2; auto h = history(3, n, 1, { 0, 1, 2 }); Script s(n); track_all(s.ga, 1); size_t cb = 0, sc = 0; std::string bad;
    auto look = [&](const GaInfo& ga, size_t g, const char* who) { auto& m = ga.get_metric<FitnessMax>(); if (m.size() != g + 1) bad = mc::fmt("%s of generation %zu: %zu values", who, g, m.size()); else if (m[ga.generation_cntr()][0] != maxs(h[g])[0]) bad = mc::fmt("%s of generation %zu: counter %zu shows %g", who, g, ga.generation_cntr(), m[ga.generation_cntr()][0]); };
    s.ga.on_generation_end([&](const GaInfo& ga) { look(ga, cb++, "callback"); }); s.ga.stop_condition([&](const GaInfo& ga) { look(ga, sc++, "stop condition"); return false; }); s.run(h); mc::step(); mc::state(hash(h));
    MC_CHECK(bad.empty(), "the metrics seen during a run are not those of the current generation", "%s, history %s", bad.c_str(), show(h).c_str()); MC_CHECK(cb == 3, "callbacks", "%zu", cb);
}
// evaluation counts with a static fitness function: only changed candidates count
static void evals() {
    int n = 3, gens = 3; std::vector<std::vector<int>> change(gens, std::vector<int>(n)); for (int g = 1; g < gens; g++) for (int i = 0; i < n; i++) change[g][i] = mc::flip(); bool cache = mc::flip();
    BinaryGA ga(n); ga.algorithm(std::make_unique<TakeChildren>()); ga.crossover_rate(0.0); ga.track(FitnessEvaluations{}); if (cache) ga.cache_size(2); int id = 0, m = 0; int calls = 0; std::vector<int> per(gens, 0); int gen = 0;
    // every change gives a chromosome that never occurred before
    ga.mutation_method([&](const GA<BinaryGene>&, const Candidate<BinaryGene>&, Chromosome<BinaryGene>& c) { int g = 1 + m / n, i = m % n; m++; if (change[g][i]) { id++; for (int b = 0; b < 8; b++) c[b] = (id >> b) & 1; c[8] = 1; } });
    ga.on_generation_end([&](const GaInfo& g) { per[gen++] = calls; if ((int)g.num_fitness_evals() != calls - 1) mc::fail_later("the number of evaluations differs from the calls made", mc::fmt("%zu and %d", g.num_fitness_evals(), calls - 1)); });
    Population<BinaryGene> init; for (int i = 0; i < n; i++) { Candidate<BinaryGene> c(size_t(9)); c.chromosome[i] = 1; init.push_back(c); }
    ga.solve(Fit([&](const Chromosome<BinaryGene>&) { calls++; return FitnessVector{ 1.0 }; }, false, 9), gens, init); auto& e = ga.get_metric<FitnessEvaluations>(); mc::step(); MC_CHECK((int)e.size() == gens, "a metric does not have one value per generation", "%zu", e.size());
    for (int g = 0; g < gens; g++) { size_t c = g == 0 ? n : std::count(change[g].begin(), change[g].end(), 1); MC_CHECK(e[g] == c, "a metric differs from its definition", "FitnessEvaluations of generation %d: %zu instead of %zu", g, e[g], c); }
}
// a user defined metric sees every generation once
struct Mine : Monitor<Mine, std::vector<double>> { void update(const GaInfo& ga) override { data_.push_back(ga.fitness_matrix()[0][0] * 10 + ga.generation_cntr()); } };
struct Other : Monitor<Other, std::vector<double>> { void update(const GaInfo&) override { data_.push_back(-1); } };
template<typename... M> static void tracked(BinaryGA& ga, All t) { ga.track(M{}...); auto h = history(2, 1, 1, { 0, 1 }); gReference = { -1.0 }; Script* s = nullptr; size_t c = 0; ga.solve(Fit([&](const Chromosome<BinaryGene>&) { c++; return c == 1 ? FitnessVector{ 0.0 } : fv(h[c - 2][0]); }), 2); check(ga, h, t); }
static void subsets() {
    Script s(1); auto& ga = s.ga; int k = mc::range(1, 2); for (int i = 0; i < k; i++) switch (mc::range(0, 7)) {
        case 0: tracked<>(ga, {}); break; case 1: tracked<FitnessMin>(ga, { .min = 1 }); break; case 2: tracked<FitnessMax, Mine>(ga, { .max = 1 }); break; case 3: tracked<NadirPoint, FitnessStdDev, FitnessEvaluations>(ga, { .sd = 1, .nad = 1, .ev = 1 }); break;
        case 4: tracked<AutoHypervolume, FitnessVariance>(ga, { .var = 1, .ahv = 1 }); break; case 5: tracked<FitnessEvaluations, FitnessMean, FitnessMin, FitnessMax>(ga, { .min = 1, .max = 1, .mean = 1, .ev = 1 }); break; case 6: tracked<Other, Mine>(ga, {}); break; case 7: tracked<FitnessStdDev>(ga, { .sd = 1 }); break; }
}
static void user() { auto h = history(3, 2, 1, { 0, 1, 2 }); Script s(2); s.ga.track(Mine{}, Other{}); s.run(h); auto* m = s.ga.get_metric_if<Mine>(); mc::step(); MC_CHECK(m && s.ga.get_metric_if<Other>() && !s.ga.get_metric_if<FitnessMax>(), "a tracked metric is absent or an untracked one present", "user metrics"); MC_CHECK(m->size() == 3, "a metric does not have one value per generation", "user metric %zu", m->size()); for (int g = 0; g < 3; g++) MC_CHECK((*m)[g] == h[g][0][0] * 10 + g, "a user metric saw another generation", "generation %d: %g, history %s", g, (*m)[g], show(h).c_str()); MC_CHECK((*s.ga.get_metric_if<Other>())[2] == -1, "metrics mixed up", ""); }
static void setup() {
    bool t = mc::thorough(); V a2{ 0, 1 }, a3{ 0, 1, 2 }, am{ -1, 0, 2 }, a4{ 0, 1, 2, 3 };
    auto add = [&](int g, int n, int d, V a, const char* s) { mc::add_task(mc::fmt("gens=%d n=%d d=%d %s", g, n, d, s), [=] { run(g, n, d, a); }); };
    for (int g = 1; g <= (t ? 5 : 4); g++) add(g, 1, 1, am, ""), add(g, 1, 2, g > 3 ? a2 : am, ""); for (int g = 1; g <= 3; g++) add(g, 2, 1, a3, ""), add(g, 3, 1, g == 3 ? a2 : am, "");
    add(1, 2, 2, a4, ""); add(2, 2, 2, a3, ""); add(3, 2, 2, a2, ""); add(1, 3, 2, a3, ""); add(2, 3, 2, a2, ""); add(1, 2, 3, a3, ""); add(2, 2, 3, a2, ""); add(3, 1, 3, a2, ""); add(1, 4, 2, a2, ""); add(1, 3, 3, a2, ""); add(4, 1, 2, a2, "");
    mc::add_task("hv 4 2", [=] { hv(4, 2, a3); }); mc::add_task("hv 3 3", [=] { hv(3, 3, a3); }); mc::add_task("hv 5 2", [=] { hv(5, 2, t ? a3 : a2); }); mc::add_task("hv 4 3", [=] { hv(4, 3, t ? a3 : a2); }); mc::add_task("hv 2 4", [=] { hv(2, 4, a3); }); mc::add_task("hv 3 4", [=] { hv(3, 4, a2); });
    mc::add_task("auto 2 2 3", [=] { hv_auto(2, 2, 3, t ? a3 : a2); }); mc::add_task("auto 3 1 3", [=] { hv_auto(3, 1, 3, a3); }); mc::add_task("auto 2 3 3", [=] { hv_auto(2, 3, 3, a2); }); mc::add_task("auto 3 2 2", [=] { hv_auto(3, 2, 2, a2); }); mc::add_task("auto 2 2 2", [=] { hv_auto(2, 2, 2, a4); });
    for (int n = 5; n <= (t ? 60 : 24); n++) mc::add_task(mc::fmt("family %d", n), [=] { hv_family(n); });
    for (int n : { 64, 65, 100, 127, 128, 129, 255, 256, 257, 300 }) mc::add_task(mc::fmt("family %d", n), [=] { hv_family(n); }); for (int g : { 8, 16, 17, 33, 50, 64, 65, 100, 128, 129, 255, 256, 257, 300, 520 }) mc::add_task(mc::fmt("long %d", g), [=] { longer(g); });
    mc::add_task("runs 2 1", [=] { runs(2, 1, 2, 3); }); mc::add_task("runs 2 2", [=] { runs(2, 2, 2, 2); }); mc::add_task("runs 3 1", [=] { runs(3, 1, t ? 3 : 1, 3); }); mc::add_task("runs 3 1b", [=] { runs(3, 1, 2, 2); }); mc::add_task("visible", visible); mc::add_task("evals", evals); mc::add_task("subsets", subsets); mc::add_task("user", user);
}
MC_MAIN(setup)
