// P15: Pareto fronts, non-dominated sorting and the merging of Pareto sets against their definitions.
#include "mc.hpp"
#include "one_cpu.hpp"
#include "algorithm/nd_sort.hpp"
#include "core/population.hpp"
#include "utility/math.hpp"
#include <set>
#include <map>
using namespace gapp; using namespace gapp::detail; using namespace gapp::algorithm::dtl;
using V = std::vector<double>; using VV = std::vector<V>;
static constexpr double INF = std::numeric_limits<double>::infinity();

static bool dominates(const V& a, const V& b) { bool gt = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] < b[i]) return false; gt |= a[i] > b[i]; } return gt; }
static std::string show(const VV& v) { std::string s; for (auto& p : v) { s += "("; for (double x : p) s += mc::fmt("%g ", x); s += ") "; if (s.size() > 700) { s += "..."; break; } } return s; }
static std::vector<size_t> peel(const VV& v) { // rank of every vector by repeated peeling
    std::vector<size_t> rank(v.size(), -1); size_t left = v.size();
    for (size_t r = 0; left; r++) { std::vector<size_t> f; for (size_t i = 0; i < v.size(); i++) if (rank[i] == (size_t)-1) { bool dom = false; for (size_t j = 0; j < v.size() && !dom; j++) dom = rank[j] == (size_t)-1 && dominates(v[j], v[i]); if (!dom) f.push_back(i); } for (size_t i : f) rank[i] = r; left -= f.size(); }
    return rank;
}
static FitnessMatrix mat(const VV& v) { FitnessMatrix m(0, v.empty() ? 0 : v[0].size()); for (auto& r : v) m.append_row(FitnessVector(r.begin(), r.end())); return m; }
template<typename S> static std::vector<size_t> sorted(const S& s) { std::vector<size_t> r(s.begin(), s.end()); std::sort(r.begin(), r.end()); return r; }

static void check_sort(const char* n, const std::vector<FrontElement>& f, const VV& v, const std::vector<size_t>& rank) {
    MC_CHECK(f.size() == v.size(), "a sort does not assign every vector once", "%s: %zu of %zu, %s", n, f.size(), v.size(), show(v).c_str());
    std::vector<int> seen(v.size(), 0); for (size_t i = 0; i < f.size(); i++) {
        MC_CHECK(f[i].idx < v.size() && !seen[f[i].idx]++, "a sort does not assign every vector once", "%s: index %zu, %s", n, f[i].idx, show(v).c_str());
        MC_CHECK(i == 0 || f[i - 1].rank <= f[i].rank, "the fronts are not in the order of their ranks", "%s: %s", n, show(v).c_str());
        MC_CHECK(f[i].rank == rank[f[i].idx], "wrong rank", "%s: vector %zu has rank %zu instead of %zu, %s", n, f[i].idx, f[i].rank, rank[f[i].idx], show(v).c_str()); }
}
static void check_all(const VV& v, bool slow = true) {
    mc::step(); auto m = mat(v); auto rank = peel(v); size_t n = v.size(), d = v[0].size();
    { uint64_t h = d; for (auto& r : v) h = mc::hbytes(r.data(), d * 8, mc::hmix(h, 1)); mc::state(h); }
    std::vector<size_t> front; for (size_t i = 0; i < n; i++) if (rank[i] == 0) front.push_back(i);
    auto eq = [&](const char* w, const small_vector<size_t>& f) { MC_CHECK(sorted(f) == front, "wrong Pareto front", "%s: %s", w, show(v).c_str()); };
    eq("findParetoFront", findParetoFront(m)); if (d == 1) eq("1D", findParetoFront1D(m)); eq("Sort", findParetoFrontSort(m)); eq("Best", findParetoFrontBest(m)); if (d > 1) eq("Kung", findParetoFrontKung(m));
    check_sort("fast", fastNonDominatedSort(m.begin(), m.end()), v, rank); check_sort("dominance degree", dominanceDegreeSort(m.begin(), m.end()), v, rank); check_sort("efficient", efficientNonDominatedSort(m.begin(), m.end()), v, rank);
    // the fronts as the algorithms see them
    ParetoFronts p = nonDominatedSort(m); check_sort("nonDominatedSort", std::vector<FrontElement>(p.begin(), p.end()), v, rank); MC_CHECK(p.ranks() == rank, "ranks() is wrong", "%s", show(v).c_str());
    auto fr = p.fronts(); size_t top = *std::max_element(rank.begin(), rank.end()); MC_CHECK(fr.size() == top + 1, "wrong number of fronts", "%zu: %s", fr.size(), show(v).c_str());
    for (size_t r = 0; r <= top; r++) { size_t c = std::count(rank.begin(), rank.end(), r); MC_CHECK(fr[r].size() == c && fr[r].begin()->rank == r && (fr[r].end() - 1)->rank == r, "a front has the wrong members", "front %zu: %s", r, show(v).c_str()); }
    for (size_t k = 1; k <= n; k++) { // the front that has to be split to get exactly k members
        auto pf = p.partialFront(k); size_t before = 0, r = 0; while (before + std::count(rank.begin(), rank.end(), r) <= k && r <= top) before += std::count(rank.begin(), rank.end(), r), r++;
        if (before == k || r > top) MC_CHECK(pf.size() == 0, "a front is split although it fits", "%zu of %s", k, show(v).c_str());
        else MC_CHECK(pf.size() == (size_t)std::count(rank.begin(), rank.end(), r) && pf.begin()->rank == r, "the split front is not the right one", "%zu of %s", k, show(v).c_str()); }
    // nadir points
    V nad(d, INF), all(d, INF); for (size_t i = 0; i < n; i++) for (size_t k = 0; k < d; k++) { all[k] = std::min(all[k], v[i][k]); if (!rank[i]) nad[k] = std::min(nad[k], v[i][k]); }
    auto np = findNadirPoint(m), fp = findFrontNadirPoint(m); MC_CHECK(V(np.begin(), np.end()) == nad, "wrong nadir point", "%s", show(v).c_str()); MC_CHECK(V(fp.begin(), fp.end()) == all, "wrong nadir point of a front", "%s", show(v).c_str());
    if (slow) { Population<int> pop; for (size_t i = 0; i < n; i++) { Candidate<int> c(Chromosome<int>{ (int)i }); c.fitness = FitnessVector(v[i].begin(), v[i].end()); pop.push_back(c); }
        std::vector<size_t> ids; for (auto& c : findParetoFront(pop)) { size_t i = c.chromosome[0]; ids.push_back(i); MC_CHECK(std::equal(c.fitness.begin(), c.fitness.end(), v[i].begin(), v[i].end()), "a candidate of the front lost its fitness", "%s", show(v).c_str()); }
        MC_CHECK(sorted(ids) == front, "wrong candidates in the Pareto front", "%s", show(v).c_str()); }
}
static VV draw(int n, int d, const std::vector<double>& a) { VV v; for (int i = 0; i < n; i++) { V r; for (int k = 0; k < d; k++) r.push_back(mc::pick_from(a)); v.push_back(r); } return v; }
static void grid(int n, int d, std::vector<double> a, int tol) {
    if (tol == 0) { math::ScopedTolerances _(0, 0); check_all(draw(n, d, a)); } else if (tol == 1) check_all(draw(n, d, a)); else { math::ScopedTolerances _(0.5, 0.0); check_all(draw(n, d, a)); }
}
// every order of a fixed set
static void orders(VV v) { VV p; while (!v.empty()) { size_t i = mc::choose(v.size()); p.push_back(v[i]); v.erase(v.begin() + i); } math::ScopedTolerances _(0, 0); check_all(p); }
static void family(int n) {
    int d = n <= 40 ? mc::pick({ 1, 2, 3, 4, 5, 8, 9, 17, 33, 65 }) : mc::range(1, 4), f = mc::range(0, 7); VV v; uint64_t l = n * 131 + f; auto rnd = [&](int m) { l = l * 6364136223846793005ull + 1442695040888963407ull; return int((l >> 40) % m); };
    for (int i = 0; i < n; i++) { V r(d); for (int k = 0; k < d; k++)
        r[k] = f == 0 ? i : f == 1 ? -i : f == 2 ? (k ? n - i : i) : f == 3 ? rnd(4) : f == 4 ? rnd(3 * n) : f == 5 ? 7 : f == 6 ? (k == i % d ? INF : i % 3) : (k == d - 1 ? -i / 3 : i % 3); v.push_back(r); }
    if (mc::flip()) for (int i = n - 1; i > 0; i--) std::swap(v[i], v[rnd(i + 1)]);
    math::ScopedTolerances _(0, 0); check_all(v);
}
// sizes one after the other: nothing is left from earlier calls
static void repeated() { math::ScopedTolerances _(0, 0); for (int i = 0; i < 3; i++) check_all(draw(mc::range(1, 3), 2, { 0, 1 }), false); }
// values nearer than the tolerance: dominance is not transitive there, but every vector still gets exactly one place and the sort ends
static void near(int n, int d) {
    math::ScopedTolerances _(1.0, 0.0); auto v = draw(n, d, { 0, 0.75, 1.5, 2.25 }); auto m = mat(v); mc::step();
    auto p = nonDominatedSort(m); std::vector<int> seen(n, 0); for (auto& e : p) MC_CHECK(!seen[e.idx]++, "a sort does not assign every vector once", "%s", show(v).c_str()); MC_CHECK(p.end() - p.begin() == n, "a sort does not assign every vector once", "%s", show(v).c_str());
    MC_CHECK(p.begin()->rank == 0, "the best front is not front 0", "%s", show(v).c_str()); for (auto it = p.begin() + 1; it < p.end(); ++it) MC_CHECK(it->rank - (it - 1)->rank <= 1, "a rank is missing", "%s", show(v).c_str());
    auto f = sorted(findParetoFront(m)); MC_CHECK(!f.empty() || d > 2, "empty Pareto front", "%s", show(v).c_str()); for (size_t i = 1; i < f.size(); i++) MC_CHECK(f[i - 1] != f[i], "an index is twice in the Pareto front", "%s", show(v).c_str());
    // nobody in the front is dominated by somebody who dominates by more than any chain of ties
    for (size_t i : f) for (auto& w : v) { bool clear = true; for (int k = 0; k < d; k++) clear &= w[k] > v[i][k] + 1; MC_CHECK(!clear, "a clearly dominated vector is in the Pareto front", "%s", show(v).c_str()); }
}
static void merged(VV l, VV r, int d, bool def) {
    int nl = l.size(); auto pareto = [&](const VV& s) { for (auto& x : s) for (auto& y : s) if (dominates(x, y)) return false; return true; }; if (!pareto(l) || !pareto(r)) throw mc::Skip{};
    auto t = def ? std::pair{ 1e-12, 1e-12 } : std::pair{ 0.0, 0.0 }; math::ScopedTolerances _(t.first, t.second); mc::step();
    auto mk = [](const VV& s, int base) { Candidates<int> c; for (size_t i = 0; i < s.size(); i++) { Candidate<int> x(Chromosome<int>{ base + (int)i }); x.fitness = FitnessVector(s[i].begin(), s[i].end()); c.push_back(x); } return c; };
    auto out = mergeParetoSets(mk(l, 0), mk(r, 1000)); std::set<int> got; std::string w = "left " + show(l) + " right " + show(r);
    for (auto& c : out) { int id = c.chromosome[0]; MC_CHECK(got.insert(id).second, "a candidate is twice in the merged set", "%s", w.c_str()); auto& f = id < 1000 ? l[id] : r[id - 1000]; MC_CHECK(std::equal(f.begin(), f.end(), c.fitness.begin(), c.fitness.end()), "a merged candidate has a wrong fitness", "%s", w.c_str()); }
    VV u = l; u.insert(u.end(), r.begin(), r.end()); uint64_t h = nl; for (auto& x : u) h = mc::hbytes(x.data(), d * 8, mc::hmix(h, 7)); mc::state(h);
    for (size_t i = 0; i < u.size(); i++) { bool dom = false; for (auto& x : u) dom |= dominates(x, u[i]); int id = i < l.size() ? i : 1000 + i - l.size(); MC_CHECK((got.count(id) != 0) == !dom, "the merged set is not the Pareto front of the union", "%s: candidate %d", w.c_str(), id); }
}
static void merge(int nl, int nr, int d, std::vector<double> a, bool def) { auto l = draw(nl, d, a), r = draw(nr, d, a); merged(l, r, d, def); }
// larger sets: the fronts of families of vectors, in several orders
static void merge_family(int n) {
    int d = mc::range(1, 4), f = mc::range(0, 5), nr = mc::pick({ 0, 1, n / 2, n, n + 3 }); uint64_t s = n * 131 + f; auto rnd = [&](int m) { s = s * 6364136223846793005ull + 1442695040888963407ull; return int((s >> 40) % m); };
    auto side = [&](int m, int t) { VV v; for (int i = 0; i < m; i++) { V r(d); for (int k = 0; k < d; k++) r[k] = f == 0 ? (k ? m - i : i) : f == 1 ? (k ? m - i : i) + t * (i % 2) : f == 2 ? rnd(3 * m) : f == 3 ? (k ? 2 * (m - i) + t : 2 * i + t) : f == 4 ? (k == i % d ? 9 : 0) : (k ? -(i / 3) : i % 3 + i / 3) - t; v.push_back(r); } VV p; for (auto& x : v) { bool dom = false; for (auto& y : v) dom |= dominates(y, x); if (!dom) p.push_back(x); } return p; };
    auto l = side(n, 0), r = side(nr, 1); if (mc::flip()) std::swap(l, r); if (mc::flip()) for (int i = (int)r.size() - 1; i > 0; i--) std::swap(r[i], r[rnd(i + 1)]); merged(l, r, d, mc::flip());
}
static void setup() {
    bool t = mc::thorough(); std::vector<double> g3{ 0, 1, 2 }, g4{ -1, 0, 1, 2 }, gi{ -INF, 0, INF }, g2{ 0, 1 };
    mc::add_task("empty", [] { FitnessMatrix e; MC_CHECK(findParetoFront(e).empty() && findParetoFrontSort(e).empty() && findParetoFrontBest(e).empty(), "front of an empty set", ""); MC_CHECK(findNadirPoint(e).empty() && findFrontNadirPoint(e).empty() && findParetoFront(Population<int>{}).empty(), "nadir point of an empty set", ""); });
    auto add = [&](int n, int d, std::vector<double> a, int tol, const char* nm) { mc::add_task(mc::fmt("%s n=%d d=%d tol=%d", nm, n, d, tol), [=] { grid(n, d, a, tol); }); };
    for (int n = 1; n <= (t ? 8 : 7); n++) add(n, 1, n > 6 ? g3 : g4, 0, "grid");
    for (int n = 1; n <= (t ? 6 : 5); n++) add(n, 2, g3, 0, "grid3");
    for (int n = 5; n <= (t ? 9 : 7); n++) add(n, 2, g2, 0, "grid2");
    for (int n = 1; n <= 4; n++) add(n, 3, g3, 0, "grid3");
    for (int n = 4; n <= (t ? 6 : 5); n++) add(n, 3, g2, 0, "grid2");
    for (int n = 1; n <= (t ? 5 : 4); n++) add(n, 4, g2, 0, "grid2");
    for (int n = 1; n <= 3; n++) for (int d = 1; d <= 2; d++) { add(n, d, gi, 0, "infinite"); add(n, d, gi, 1, "infinite"); add(n, d, g4, 1, "default"); add(n, d, g4, 2, "wide"); }
    add(2, 3, gi, 1, "infinite"); add(3, 3, g2, 1, "default"); add(3, 3, g2, 2, "wide");
    mc::add_task("orders chain", [] { orders({ { 0, 0 }, { 1, 1 }, { 2, 2 }, { 3, 3 }, { 4, 4 }, { 5, 5 }, { 6, 6 } }); }); mc::add_task("orders antichain", [] { orders({ { 0, 6 }, { 1, 5 }, { 2, 4 }, { 3, 3 }, { 4, 2 }, { 5, 1 }, { 6, 0 } }); });
    mc::add_task("orders layers", [] { orders({ { 0, 3 }, { 1, 2 }, { 2, 1 }, { 0, 2 }, { 1, 1 }, { 0, 1 }, { 2, 3 } }); }); mc::add_task("orders 3d", [] { orders({ { 0, 1, 2 }, { 2, 1, 0 }, { 1, 1, 1 }, { 1, 1, 1 }, { 0, 0, 2 }, { 2, 2, 2 }, { 1, 0, 1 } }); });
    mc::add_task("orders duplicates", [] { orders({ { 1, 1 }, { 1, 1 }, { 0, 2 }, { 0, 2 }, { 0, 1 }, { 1, 0 }, { 0, 0 }, }); });
    for (int n = 8; n <= (t ? 200 : 70); n++) mc::add_task(mc::fmt("family %d", n), [=] { family(n); });
    for (int n : { 100, 127, 128, 129, 200, 255, 256, 257, 300, 513 }) mc::add_task(mc::fmt("large %d", n), [=] { family(n); });
    for (int n : { 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 50, 63, 64, 65, 80, 99 }) mc::add_task(mc::fmt("merge family %d", n), [=] { merge_family(n); });
    mc::add_task("repeated", repeated);
    for (int n = 2; n <= 4; n++) mc::add_task(mc::fmt("near ties %d 2", n), [=] { near(n, 2); }); for (int n = 2; n <= 3; n++) mc::add_task(mc::fmt("near ties %d 3", n), [=] { near(n, 3); });
    for (int l = 0; l <= 3; l++) for (int r = 0; r <= (t ? 3 : 2); r++) { mc::add_task(mc::fmt("merge %d %d 2d", l, r), [=] { merge(l, r, 2, { 0, 1, 2 }, false); }); mc::add_task(mc::fmt("merge %d %d 1d", l, r), [=] { merge(l, r, 1, { 0, 1 }, true); }); }
    for (int l = 0; l <= 2; l++) mc::add_task(mc::fmt("merge %d 2 3d", l), [=] { merge(l, 2, 3, { 0, 1 }, false); }); mc::add_task("merge 3 4 2d", [] { merge(3, 4, 2, { 0, 1 }, false); }); mc::add_task("merge 2 3 2d", [] { merge(2, 3, 2, { 0, 1, 2 }, true); });
}
MC_MAIN(setup)
