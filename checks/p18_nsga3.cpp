// P18: survival and mating selection of NSGA-III. The reference keeps its own ideal, extreme and nadir points and follows every allowed choice of a line and of equally close candidates.
#include "nsga.hpp"
using namespace ns;
struct Lines { VV v; }; // unit vectors
static Lines lines_of(VV v) { for (auto& l : v) { double s = 0; for (double x : l) s += x * x; for (double& x : l) x /= std::sqrt(s); } return { v }; }
/** The lines as a generator gives them: points of the unit simplex. */
static FitnessMatrix simplex(const Lines& l) { VV r = l.v; for (auto& v : r) { double s = 0; for (double x : v) s += x; for (double& x : v) x /= s; } return matrix(r); }
static std::unique_ptr<algorithm::NSGA3> make(const Lines& l) { return std::make_unique<algorithm::NSGA3>([l](size_t, size_t) { return simplex(l); }); }
struct Ref {
    Lines lines; V ideal; VV extreme; std::vector<std::pair<size_t, double>> near; // of the candidates of the last call
    static constexpr double TIE = 1e-9; bool tie = false; // two lines are equally close to a candidate, or two extreme points equally good: the history is not judged further
    void see(const VV& f) {
        size_t d = f[0].size(); if (ideal.empty()) ideal = f[0]; for (auto& v : f) for (size_t k = 0; k < d; k++) ideal[k] = std::max(ideal[k], v[k]);
        VV next; for (size_t a = 0; a < d; a++) { auto asf = [&](const V& v) { double m = -INF; for (size_t k = 0; k < d; k++) m = std::max(m, (ideal[k] - v[k]) / (k == a ? 1.0 : 1e-6)); return m; }; VV all = f; all.insert(all.end(), extreme.begin(), extreme.end()); size_t best = 0; for (size_t i = 1; i < all.size(); i++) if (asf(all[i]) < asf(all[best])) best = i; for (auto& v : all) if (v != all[best] && asf(v) <= asf(all[best]) + 1e-9 * (1 + std::abs(asf(all[best])))) tie = true; next.push_back(all[best]); }
        extreme = next; V nadir = extreme[0]; for (auto& v : extreme) for (size_t k = 0; k < d; k++) nadir[k] = std::min(nadir[k], v[k]);
        near.clear(); for (auto& v : f) { V x; for (size_t k = 0; k < d; k++) x.push_back((ideal[k] - v[k]) / std::max(ideal[k] - nadir[k], 1e-8)); size_t best = 0; double top = -INF, second = -INF, len = 0; for (size_t l = 0; l < lines.v.size(); l++) { double p = 0; for (size_t k = 0; k < d; k++) p += x[k] * lines.v[l][k]; if (p > top) second = top, top = p, best = l; else second = std::max(second, p); } for (double y : x) len += y * y; if (top - second <= TIE * (1 + std::sqrt(len))) tie = true; double dist = 0; for (size_t k = 0; k < d; k++) { double e = x[k] - top * lines.v[best][k]; dist += e * e; } near.push_back({ best, dist }); }
    }
};
static bool closer(double a, double b) { return a < b - 1e-9 * (1 + b); }
/** All sets of survivors that some choice of lines (and of equally close candidates) allows. */
static void outcomes(const std::vector<std::pair<size_t, double>>& near, std::vector<size_t> count, Idx rest, Idx taken, size_t n, std::set<Idx>& out) {
    if (taken.size() == n) { std::sort(taken.begin(), taken.end()); out.insert(taken); if (out.size() > 3000) throw mc::Skip{}; return; }
    size_t least = SIZE_MAX; for (size_t i : rest) least = std::min(least, count[near[i].first]); std::set<size_t> ls; for (size_t i : rest) if (count[near[i].first] == least) ls.insert(near[i].first);
    for (size_t l : ls) { double best = INF; for (size_t i : rest) if (near[i].first == l) best = std::min(best, near[i].second); for (size_t i : rest) if (near[i].first == l && !closer(best, near[i].second)) { auto c = count; c[l]++; Idx r = rest, t = taken; r.erase(std::find(r.begin(), r.end(), i)); t.push_back(i); outcomes(near, c, r, t, n, out); } }
}
static std::set<Idx> reference(const Ref& ref, const VV& all, size_t k) {
    Idx rk = ranks(all), whole, part; for (size_t r = 0; whole.size() + part.size() < k; r++) { whole.insert(whole.end(), part.begin(), part.end()); part.clear(); for (size_t i = 0; i < all.size(); i++) if (rk[i] == r) part.push_back(i); }
    std::vector<size_t> count(ref.lines.v.size()); if (whole.size() + part.size() == k) { whole.insert(whole.end(), part.begin(), part.end()); std::sort(whole.begin(), whole.end()); return { whole }; } for (size_t i : whole) count[ref.near[i].first]++;
    // equal choices lead to the same state often: explore by memory of (rest, counts) would help, but the fronts are small
    std::set<Idx> picks, out; outcomes(ref.near, count, part, {}, k - whole.size(), picks); for (auto p : picks) { p.insert(p.end(), whole.begin(), whole.end()); std::sort(p.begin(), p.end()); out.insert(p); } return out;
}
/** Checks one survival against the reference picks directly (no enumeration of all outcomes): is there an order of picks that gives exactly these survivors? */
static bool explains(const std::vector<std::pair<size_t, double>>& near, std::vector<size_t> count, Idx rest, std::set<size_t> want) {
    // on every line the closest candidates are taken, so only the numbers per line matter, and equal distances do not: pick greedily
    while (!want.empty()) { size_t least = SIZE_MAX; for (size_t i : rest) least = std::min(least, count[near[i].first]); bool found = false;
        for (size_t i : rest) { if (!want.count(i) || count[near[i].first] != least) continue; bool nearest = true; for (size_t j : rest) if (near[j].first == near[i].first && closer(near[j].second, near[i].second)) nearest = false; if (!nearest) continue; count[near[i].first]++; want.erase(i); rest.erase(std::find(rest.begin(), rest.end(), i)); found = true; break; }
        if (!found) return false; }
    return true;
}
static void check_survivors(const Ref& ref, const VV& all, const Idx& kept) {
    auto [part, in] = check_fronts(all, kept); if (part.empty() || ref.tie) return; std::vector<size_t> count(ref.lines.v.size()); std::set<size_t> p(part.begin(), part.end()); for (size_t i : kept) if (!p.count(i)) count[ref.near[i].first]++;
    auto text = [&] { std::string s = show(all) + " lines "; for (auto& x : ref.near) s += mc::fmt("%zu:%.4g ", x.first, x.second); return s + " kept " + si(kept); };
    MC_CHECK(explains(ref.near, count, part, std::set<size_t>(in.begin(), in.end())), "the candidates kept from the last front do not balance the reference lines", "%s", text().c_str());
}
static void check_selections(Driver& d, const std::vector<std::pair<size_t, double>>& near, bool tie) {
    auto m = matrix(d.f); size_t n = d.f.size(); Idx rk = ranks(d.f);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { auto r = d.tournament(m, i, j); for (size_t w : r) MC_CHECK(w == i || w == j, "a selection returns another candidate than the two drawn ones", "%s: %zu %zu gives %zu", show(d.f).c_str(), i, j, w); if (tie || i == j) continue;
        auto text = [&] { return show(d.f) + mc::fmt("candidates %zu and %zu of lines %zu and %zu", i, j, near[i].first, near[j].first); };
        if (near[i].first == near[j].first) { if (rk[i] != rk[j]) MC_CHECK(r == std::set<size_t>{ rk[i] < rk[j] ? i : j }, "a selection returns the candidate of a line with the worse rank", "%s", text().c_str()); else if (closer(near[i].second, near[j].second)) MC_CHECK(r == std::set<size_t>{ i }, "a selection returns the candidate farther from its line", "%s", text().c_str()); else if (closer(near[j].second, near[i].second)) MC_CHECK(r == std::set<size_t>{ j }, "a selection returns the candidate farther from its line", "%s", text().c_str()); }
        else MC_CHECK(r.size() == 2, "a selection between two lines is not random", "%s", text().c_str()); }
}
static void drive(const std::vector<VV>& gens, const Lines& l, bool finite, bool all_outcomes) {
    math::ScopedTolerances exact(0, 0); Ref ref{ l }; Driver d(make(l), gens[0]); ref.see(gens[0]); if (!finite) ref.tie = true; check_optimal(d); check_selections(d, ref.near, ref.tie);
    for (size_t g = 1; g < gens.size(); g++) {
        VV all = d.f; all.insert(all.end(), gens[g].begin(), gens[g].end()); size_t k = d.f.size(); Ref after = ref; after.see(all); if (!finite) after.tie = true; mc::state(mc::hmix(hash(all), l.v.size()));
        if (all_outcomes && !after.tie) { // every sequence of draws of this step, starting from copies of the algorithm
            auto want = reference(after, all, k); std::set<Idx> got; auto* alg = static_cast<algorithm::NSGA3*>(d.alg); for (uint64_t a : mcr::make_alphabet(6)) for (uint64_t b : mcr::make_alphabet(6)) { algorithm::NSGA3 copy = *alg; algorithm::Algorithm& base = copy; mcr::reset(); mcr::S().forced = { a, b }; Idx r; for (auto& c : base.nextPopulation(d.ga, d.pop, population(gens[g], k))) r.push_back(id_of(c.chromosome)); std::sort(r.begin(), r.end()); got.insert(r); mc::step(); } mcr::reset();
            for (auto& x : got) MC_CHECK(want.count(x), "the candidates kept from the last front do not balance the reference lines", "%s kept %s", show(all).c_str(), si(x).c_str()); bool same = false; for (size_t i = 0; i < all.size(); i++) for (size_t j = 0; j < i; j++) same |= after.near[i].first == after.near[j].first && !closer(after.near[i].second, after.near[j].second) && !closer(after.near[j].second, after.near[i].second);
            if (k <= 3 && !same) for (auto& x : want) MC_CHECK(got.count(x), "an allowed choice of the reference lines can never be made", "%s keeping %s", show(all).c_str(), si(x).c_str());
        }
        mcr::reset(g); Idx kept = d.next(gens[g]); ref = after; check_survivors(ref, all, kept); check_optimal(d);
        std::vector<std::pair<size_t, double>> near; for (size_t i : kept) near.push_back(ref.near[i]); check_selections(d, near, ref.tie); if (ref.tie && finite) { mc::note("tie"); }
    }
}
static const std::vector<Lines>& line_sets(size_t d) { static const std::vector<Lines> L2{ lines_of({ { 1.0, 0.07 }, { 0.8, 0.61 }, { 0.13, 1.0 } }), lines_of({ { 0.9, 0.45 }, { 0.35, 1.0 } }), lines_of({ { 1, 1.1 } }), lines_of({ { 1, 0.03 }, { 1, 0.4 }, { 1, 0.83 }, { 0.7, 1 }, { 0.31, 1 }, { 0.02, 1 } }) }, L3{ lines_of({ { 1, 0.1, 0.23 }, { 0.17, 1, 0.05 }, { 0.21, 0.3, 1 }, { 1, 0.9, 1.13 } }), lines_of({ { 0.3, 0.5, 0.71 }, { 1, 0.2, 0.3 } }), lines_of({ { 1, 1.03, 0.9 } }) }; return d == 2 ? L2 : L3; }
static VV pick(size_t n, const VV& grid) { VV f; for (size_t i = 0; i < n; i++) f.push_back(mc::pick_from(grid)); return f; }
static VV grid(const V& a, size_t d) { VV g{ {} }; for (size_t k = 0; k < d; k++) { VV q; for (auto& v : g) for (double x : a) { V w = v; w.push_back(x); q.push_back(w); } g = q; } return g; }
static void calls(size_t k, size_t gens, const VV& g, size_t extra = 0, bool finite = true) { auto& ls = line_sets(g[0].size()); auto& l = mc::pick_from(ls); std::vector<VV> s; for (size_t i = 0; i < gens; i++) s.push_back(pick(k + (i ? extra : 0), g)); drive(s, l, finite, gens == 2 && k <= 3); }
static Lines many_lines(size_t d, size_t n, uint64_t seed) { VV v = points(n, d, seed * 13 + 1, 0); return lines_of(v); }
static void family(size_t k, bool chain = false) { size_t d = mc::range(2, 4); int style = chain ? 3 : mc::range(0, 2); uint64_t seed = mc::range(1, 3); size_t n = mc::pick<size_t>({ 1, k / 2 + 1, k, 2 * k }); std::vector<VV> s; for (int g = 0; g < 4; g++) s.push_back(points(g && seed == 2 ? k + 1 : k, d, seed * 100 + k * 10 + g, style)); drive(s, many_lines(d, n, seed + k), true, false); }
// whole runs: the reference follows from the initial population on
static void whole(Runner& r, const VV& script, size_t gens, const Lines& l) { Ref ref{ l }; VV first(script.begin(), script.begin() + r.ga.population_size()); ref.see(first); r.run(script, gens, [&](const VV& all, const Idx& kept) { ref.see(all); check_survivors(ref, all, kept); }); }
static void runs(size_t k, size_t gens, const VV& g) { math::ScopedTolerances exact(0, 0); mcr::reset(); auto& l = line_sets(2)[mc::range(0, 1)]; Runner r(k); r.ga.algorithm(make(l)); size_t per = k + k % 2; VV s = pick(k + per * (gens - 1), g); mc::state(hash(s)); whole(r, s, gens, l); std::reverse(s.begin(), s.end()); whole(r, s, gens, l); }
static void long_runs(size_t k) { math::ScopedTolerances exact(0, 0); mcr::reset(); size_t d = mc::range(2, 3); uint64_t seed = mc::range(1, 3); Lines l = many_lines(d, k, seed), l2 = many_lines(5 - d, k + 2, seed); Runner r(k); r.ga.algorithm(std::make_unique<algorithm::NSGA3>([=](size_t dim, size_t n) { MC_CHECK((dim == d && n == k) || (dim == 5 - d && n == k + 2), "the reference lines are generated for a wrong size", "%zu lines in %zu dimensions", n, dim); return simplex(dim == d ? l : l2); })); size_t gens = std::min<size_t>(6, 1000 / (k + 1)); whole(r, points((k + 1) * gens, d, seed * k, 1), gens, l); r.ga.population_size(k + 2); whole(r, points((k + 3) * 3, 5 - d, seed, 2), std::min<size_t>(3, gens), l2); }
static void setup() {
    mcr::install(); bool t = mc::thorough(); V v2{ 0, 1.13 }, v3{ 0, 1, 3.17 }, vi{ -INF, 0, INF }; VV g5{ { 0, 3.1 }, { 1, 2.2 }, { 2.3, 1 }, { 3, 0.13 }, { 0.2, 0.1 } }, g6{ { 0, 4.2 }, { 1.1, 3.3 }, { 3, 2.04 }, { 4.1, 0.07 }, { 1.3, 1.2 }, { 0, 3.9 } }, g7 = g6; g7.push_back({ 0.5, 4.0 });
    mc::add_task("k=1", [=] { calls(1, 3, grid(v3, 2)); }); mc::add_task("k=2 grid 3x3", [=] { calls(2, 2, grid(v3, 2)); }); mc::add_task("k=2 grid 2x2x2", [=] { calls(2, 2, grid(v2, 3)); }); mc::add_task("k=2 infinite", [=] { calls(2, 2, grid(vi, 2), 0, false); });
    mc::add_task("k=2 two steps", [=] { calls(2, 3, t ? g6 : VV(g6.begin(), g6.begin() + 5)); }); mc::add_task("k=3 six points", [=] { calls(3, 2, t ? g6 : VV(g6.begin(), g6.begin() + 5)); }); mc::add_task("k=3 infinite", [=] { VV q = grid(vi, 2); q.resize(t ? 7 : 5); calls(3, 2, q, 0, false); }); mc::add_task("k=2 three extra children", [=] { calls(2, 2, VV(g6.begin(), g6.begin() + 4), 2); });
    if (t) { mc::add_task("k=3 seven points", [=] { calls(3, 2, g7); }); mc::add_task("k=3 grid 2x2x2", [=] { calls(3, 2, grid(v2, 3)); }); }
    mc::add_task("k=4", [=] { calls(4, 2, VV(g6.begin(), g6.begin() + 3 + t)); }); for (size_t k = 4; k <= (t ? 40u : 20u); k++) mc::add_task(mc::fmt("family %zu", k), [=] { family(k); });
    for (size_t k : { 20, 64, 129, 257, 300 }) mc::add_task(mc::fmt("large chain %zu", k), [=] { family(k, true); });
    for (size_t k : { 31, 32, 33, 50, 64, 65, 100, 128, 129 }) mc::add_task(mc::fmt("large %zu", k), [=] { family(k); }); for (size_t k : { 64, 65, 100, 128, 129, 200 }) mc::add_task(mc::fmt("large runs %zu", k), [=] { long_runs(k); });
    mc::add_task("runs 2", [=] { runs(2, 3, g5); }); mc::add_task("runs 3", [=] { runs(3, 2, VV(g6.begin(), g6.begin() + 3 + t)); }); for (size_t k = 2; k <= 40; k += 3) mc::add_task(mc::fmt("long runs %zu", k), [=] { long_runs(k); });
}
MC_MAIN(setup)
