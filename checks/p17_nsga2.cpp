// P17: survival and mating selection of NSGA-II, against the definition of the crowding distance with every way to break ties.
#include "nsga.hpp"
using namespace ns;
// every vector of crowding distances of a front that some order of equal values gives
static std::set<V> distances(const VV& f, const Idx& front) {
    size_t n = front.size(); std::set<V> total{ V(n, 0.0) };
    for (size_t obj = 0; obj < f[0].size(); obj++) {
        std::map<double, Idx> groups; for (size_t i = 0; i < n; i++) groups[f[front[i]][obj]].push_back(i); double lo = groups.begin()->first, hi = groups.rbegin()->first; std::set<V> mine{ V(n, 0.0) };
        auto share = [&](double gap) { return gap == 0 ? 0.0 : std::isinf(gap) ? 1.0 : gap / std::max(hi - lo, 1e-8); };
        double prev = 0; bool first = true;
        for (auto it = groups.begin(); it != groups.end(); ++it) { auto& g = it->second; bool last = std::next(it) == groups.end(); double v = it->first, next = last ? 0 : std::next(it)->first; std::set<V> q;
            for (size_t a : g) for (size_t b : g) if (a != b || g.size() == 1) for (V m : mine) { // a comes first and b last among the equal ones
                if (a == b) m[a] = first || last ? INF : share(next - prev); else { m[a] = first ? INF : share(v - prev); m[b] = last ? INF : share(next - v); } q.insert(m); }
            mine = q; prev = v; first = false; if (mine.size() > 20000) throw mc::Skip{}; }
        std::set<V> q; for (auto& a : total) for (auto& b : mine) { V c = a; for (size_t i = 0; i < n; i++) c[i] += b[i]; q.insert(c); if (q.size() > 20000) throw mc::Skip{}; } total = q;
    }
    return total;
}
static void check_partial(const VV& all, const Idx& kept) {
    auto [part, in] = check_fronts(all, kept); if (part.empty()) return; std::set<size_t> s(in.begin(), in.end()); bool ok = false;
    for (auto& d : distances(all, part)) { double worst = INF, best = -1; for (size_t i = 0; i < part.size(); i++) if (s.count(part[i])) worst = std::min(worst, d[i]); else best = std::max(best, d[i]); if (worst >= best - 1e-9) { ok = true; break; } }
    MC_CHECK(ok, "the candidates kept from the last front are not those with the largest crowding distances", "%s: kept %s", show(all).c_str(), si(kept).c_str());
}
static void check_selections(Driver& d) {
    auto m = matrix(d.f); size_t n = d.f.size(); Idx rk = ranks(d.f); std::vector<Idx> win(n, Idx(n)); auto where = [&] { return show(d.f); };
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { auto r = d.tournament(m, i, j); MC_CHECK(r.size() == 1, "a selection depends on more than two candidates", "%s", where().c_str()); size_t w = *r.begin(); MC_CHECK(w == i || w == j, "a selection returns another candidate than the two drawn ones", "%s: %zu %zu gives %zu", where().c_str(), i, j, w); if (rk[i] != rk[j]) MC_CHECK(w == (rk[i] < rk[j] ? i : j), "a selection returns the candidate with the worse rank", "%s: %zu and %zu", where().c_str(), i, j); win[i][j] = w; }
    for (size_t k = 0;; k++) { Idx front; for (size_t i = 0; i < n; i++) if (rk[i] == k) front.push_back(i); if (front.empty()) break; bool ok = false;
        for (auto& ds : distances(d.f, front)) { bool good = true; for (size_t a = 0; a < front.size() && good; a++) for (size_t b = 0; b < front.size() && good; b++) { size_t w = win[front[a]][front[b]]; if (ds[a] > ds[b] + 1e-9) good = w == front[a]; if (ds[b] > ds[a] + 1e-9) good = w == front[b]; } if (good) { ok = true; break; } }
        MC_CHECK(ok, "a selection returns the candidate with the smaller crowding distance", "%s: front %zu", where().c_str(), k); }
}
static void drive(const std::vector<VV>& gens) {
    math::ScopedTolerances exact(0, 0); Driver d(std::make_unique<algorithm::NSGA2>(), gens[0]); check_optimal(d); check_selections(d);
    for (size_t g = 1; g < gens.size(); g++) { VV all = d.f; all.insert(all.end(), gens[g].begin(), gens[g].end()); Idx kept = d.next(gens[g]); mc::state(mc::hmix(hash(all), kept.size())); check_partial(all, kept); check_optimal(d); check_selections(d); }
}
static VV pick(size_t n, const VV& grid) { VV f; for (size_t i = 0; i < n; i++) f.push_back(mc::pick_from(grid)); return f; }
static VV grid(const V& a, size_t d) { VV g{ {} }; for (size_t k = 0; k < d; k++) { VV q; for (auto& v : g) for (double x : a) { V w = v; w.push_back(x); q.push_back(w); } g = q; } return g; }
static void calls(size_t k, size_t gens, const VV& g, size_t extra = 0) { std::vector<VV> s; for (size_t i = 0; i < gens; i++) s.push_back(pick(k + (i ? extra : 0), g)); drive(s); }
/** The distances are relative to the range of each objective, whatever its size. */
static void scale(std::vector<VV>& s) { static const std::vector<V> FACTORS{ { 1, 1 }, { 1, 0x1p-14 }, { 0x1p-18, 0x1p-6 }, { 0x1p30, 1 }, { 0x1p-10, 0x1p80 } }; auto& f = mc::pick_from(FACTORS); for (auto& g : s) for (auto& v : g) for (size_t i = 0; i < v.size(); i++) v[i] *= f[i % 2]; }
static void scaled(size_t k, const VV& g) { std::vector<VV> s{ pick(k, g), pick(k, g) }; scale(s); drive(s); }
static void family(size_t k, bool chain = false) { size_t d = mc::range(2, 4); int style = chain ? 3 : mc::range(0, 2); uint64_t seed = mc::range(1, 3); std::vector<VV> s; for (int g = 0; g < 4; g++) s.push_back(points(g && seed == 2 ? k + 1 : k, d, seed * 100 + k * 10 + g, style)); scale(s); drive(s); }
static void runs(size_t k, size_t gens, const VV& g) {
    math::ScopedTolerances exact(0, 0); mcr::reset(); Runner r(k); r.ga.algorithm(algorithm::NSGA2{}); size_t per = k + k % 2; VV s = pick(k + per * (gens - 1), g); mc::state(hash(s)); r.run(s, gens, check_partial);
    // a second run of the same object, with another number of objectives
    VV s2; for (auto& v : s) { V w{ v[1], v[0], v[0] * 2 }; s2.push_back(w); } std::reverse(s2.begin(), s2.end()); r.run(s2, gens, check_partial);
}
static void long_runs(size_t k) { math::ScopedTolerances exact(0, 0); mcr::reset(); Runner r(k); r.ga.algorithm(algorithm::NSGA2{}); size_t d = mc::range(2, 3); uint64_t seed = mc::range(1, 3); size_t gens = std::min<size_t>(6, 1000 / (k + 1)); VV s = points((k + 1) * gens, d, seed * k, 1); r.run(s, gens, check_partial); r.ga.population_size(k + 2); VV s2 = points((k + 3) * 3, 5 - d, seed, 2); r.run(s2, std::min<size_t>(3, gens), check_partial); }
static void setup() {
    mcr::install(); bool t = mc::thorough(); V v2{ 0, 1 }, v3{ 0, 1, 3 }, vi{ -INF, 0, INF }, v4{ 0, 1, 3, 4 }; VV g5{ { 0, 3 }, { 1, 2 }, { 2, 1 }, { 3, 0 }, { 0, 0 } }, g6{ { 0, 4 }, { 1, 3 }, { 3, 2 }, { 4, 0 }, { 1, 1 }, { 0, 3 } };
    mc::add_task("k=1", [=] { calls(1, 3, grid(v3, 2)); }); mc::add_task("k=2 grid 3x3", [=] { calls(2, 2, grid(v3, 2)); }); mc::add_task("k=2 grid 2x2x2", [=] { calls(2, 2, grid(v2, 3)); }); mc::add_task("k=2 infinite", [=] { calls(2, 2, grid(vi, 2)); });
    mc::add_task("k=2 scaled", [=] { scaled(2, g5); }); mc::add_task("k=3 scaled", [=] { scaled(3, VV(g6.begin(), g6.begin() + 4)); }); mc::add_task("k=2 two steps", [=] { calls(2, 3, t ? grid(v3, 2) : g5); }); mc::add_task("k=3 six points", [=] { calls(3, 2, g6); }); mc::add_task("k=3 infinite", [=] { VV q = grid(vi, 2); if (!mc::thorough()) q.resize(5); calls(3, 2, q); }); mc::add_task("k=2 three extra children", [=] { calls(2, 2, g5, 2); });
    if (t) { mc::add_task("k=2 grid 4x4", [=] { calls(2, 2, grid(v4, 2)); }); mc::add_task("k=3 grid 2x2x2", [=] { calls(3, 2, grid(v2, 3)); }); mc::add_task("k=3 grid 3x3", [=] { calls(3, 2, grid(v3, 2)); }); }
    mc::add_task("k=4", [=] { calls(4, 2, VV(g5.begin(), g5.begin() + 3 + t)); }); for (size_t k = 4; k <= (t ? 40u : 24u); k++) mc::add_task(mc::fmt("family %zu", k), [=] { family(k); });
    for (size_t k : { 20, 64, 129, 257, 300 }) mc::add_task(mc::fmt("large chain %zu", k), [=] { family(k, true); });
    for (size_t k : { 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 150 }) mc::add_task(mc::fmt("large %zu", k), [=] { family(k); }); for (size_t k : { 64, 65, 100, 128, 129, 200 }) mc::add_task(mc::fmt("large runs %zu", k), [=] { long_runs(k); });
    mc::add_task("runs 2", [=] { runs(2, 3, g5); }); mc::add_task("runs 3", [=] { runs(3, 2, VV(g6.begin(), g6.begin() + 3 + t)); }); for (size_t k = 2; k <= 40; k += 3) mc::add_task(mc::fmt("long runs %zu", k), [=] { long_runs(k); });
}
MC_MAIN(setup)
