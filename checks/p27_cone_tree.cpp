// P27: the cone tree finds the largest inner product.
#include "mc.hpp"
#include "utility/cone_tree.hpp"
#include <cmath>
#include <numeric>
using namespace gapp; using namespace gapp::detail;
using P = small_vector<double>;
static std::string show(const std::vector<P>& v) { std::string s; for (auto& p : v) { s += "("; for (double x : p) s += mc::fmt("%g ", x); s += ") "; if (s.size() > 600) { s += "..."; break; } } return s; }
static void query(const ConeTree& t, const std::vector<P>& pts, const P& q, bool exact) {
    mc::step(); auto r = t.findBestMatch(q);
    if (pts.empty()) { MC_CHECK(r.elem == t.end(), "match in an empty tree", ""); return; }
    double best = -INFINITY; for (auto& p : pts) best = std::max(best, std::inner_product(q.begin(), q.end(), p.begin(), 0.0));
    std::string w; for (double x : q) w += mc::fmt("%g ", x);
    MC_CHECK(r.elem - t.begin() >= 0 && t.end() - r.elem > 0, "the best match is not an element of the tree", "query %s points %s", w.c_str(), show(pts).c_str());
    double prod = std::inner_product(q.begin(), q.end(), r.elem->begin(), 0.0), tol = exact ? 0 : 1e-9 * (1 + std::abs(best));
    MC_CHECK(std::abs(r.prod - prod) <= tol, "the reported product is not the one of the reported element", "query %s: %.17g and %.17g", w.c_str(), r.prod, prod);
    MC_CHECK(std::abs(prod - best) <= tol, "the best match is not the best", "query %s: %.17g instead of %.17g, %zu points %s", w.c_str(), prod, best, pts.size(), show(pts).c_str());
}
static void stored(const ConeTree& t, const std::vector<P>& pts) {
    MC_CHECK(t.size() == pts.size() && t.empty() == pts.empty(), "wrong size", "%zu", t.size());
    std::vector<std::vector<double>> a, b; for (auto r : t) a.emplace_back(r.begin(), r.end()); for (auto& p : pts) b.emplace_back(p.begin(), p.end()); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    MC_CHECK(a == b, "the tree does not store the given points", "%s", show(pts).c_str());
}
static void all_queries(const ConeTree& t, const std::vector<P>& pts, int dim, bool exact = true) {
    std::vector<int> d(dim, -2); for (;;) { P q; for (int x : d) q.push_back(x); query(t, pts, q, exact); int i = 0; while (i < dim && ++d[i] == 3) d[i++] = -2; if (i == dim) break; }
}
// all small multisets (fewer points than a leaf), and all two-value patterns of sizes around the leaf size
static void small(int dim, int n) { std::vector<P> pts; for (int i = 0; i < n; i++) { P p; for (int k = 0; k < dim; k++) p.push_back(mc::range(-1, 1)); pts.push_back(p); } uint64_t h = n; for (auto& p : pts) for (double x : p) h = mc::hmix(h, (int)x + 5); mc::state(h); ConeTree t(pts); stored(t, pts); all_queries(t, pts, dim); }
static void pattern(int dim, int n, int vals) { std::vector<P> pts; static const double A[4][3] = { { 1, 2, -1 }, { -1, 0, 3 }, { 2, -2, 0 }, { 0, 1, 1 } }; uint64_t h = n; for (int i = 0; i < n; i++) { int c = (int)mc::choose(vals); h = mc::hmix(h, c); pts.emplace_back(A[c], A[c] + dim); } mc::state(h); ConeTree t(pts); stored(t, pts); all_queries(t, pts, dim); }
static void family(int n) {
    int dim = mc::range(1, 4), f = mc::range(0, 8); std::vector<P> pts; uint64_t lcg = n * 77 + f;
    for (int i = 0; i < n; i++) { P p(dim, 0.0); for (int k = 0; k < dim; k++) { lcg = lcg * 6364136223846793005ull + 1442695040888963407ull; int r = int(lcg >> 40);
        p[k] = f == 0 ? 1 : f == 1 ? i : f == 2 ? -i : f == 3 ? (i % 2 ? i : -i) : f == 4 ? r % 7 - 3 : f == 5 ? (k == i % dim) * (1 + i / dim) : f == 6 ? (i < n / 2 ? 2 : -3) : f == 7 ? (i / (k + 1)) % 5 : (i == n / 2 ? 50 : 0); }
        pts.push_back(p); }
    ConeTree t(pts); stored(t, pts); all_queries(t, pts, dim); { ConeTree u = t; ConeTree v(std::move(u)); stored(v, pts); all_queries(v, pts, dim); }
    mc::state(mc::hmix(n * 10 + f, dim));
}
static void simplexes(int n) { // the points NSGA-III uses: directions on the unit sphere
    int dim = mc::range(2, 4); std::vector<P> pts; for (int i = 0; i < n; i++) { P p(dim, 0.0); double s = 0; for (int k = 0; k < dim; k++) { p[k] = ((i + 1) * (k * 7 + 3)) % 17 + (k == i % dim); s += p[k] * p[k]; } if (s == 0) p[0] = s = 1; for (auto& x : p) x /= std::sqrt(s); pts.push_back(p); }
    ConeTree t(pts); stored(t, pts); all_queries(t, pts, dim, false); for (auto& q : pts) query(t, pts, q, false);
}
static void two_trees() { std::vector<P> a, b; for (int i = 0; i < 40; i++) { a.push_back({ double(i), 1.0 }); b.push_back({ double(-i), 2.0, double(i % 3) }); } ConeTree x(a), y(b); for (int d = 0; d < 6; d++) { if (mc::flip()) query(x, a, { double(d) - 2, 1.0 }, true); else query(y, b, { 1.0, double(d) - 3, 2.0 }, true); } }
static void setup() {
    mc::add_task("empty", [] { std::vector<P> e; ConeTree t(e); stored(t, e); query(t, e, { 1.0 }, true); ConeTree u; query(u, e, {}, true); });
    for (int d = 1; d <= 3; d++) for (int n = 1; n <= (d == 1 ? 7 : d == 2 ? 4 : 3); n++) mc::add_task(mc::fmt("grid dim %d, %d points", d, n), [=] { small(d, n); });
    for (int d = 1; d <= 3; d++) for (int n = 8; n <= (mc::thorough() ? 14 : 11); n++) mc::add_task(mc::fmt("two points dim %d, %d points", d, n), [=] { pattern(d, n, 2); });
    for (int d = 2; d <= 3; d++) mc::add_task(mc::fmt("four points dim %d", d), [=] { pattern(d, mc::thorough() ? 9 : 6, 4); });
    for (int n = 1; n <= (mc::thorough() ? 400 : 140); n++) mc::add_task(mc::fmt("families %d", n), [=] { family(n); });
    for (int n : { 1, 5, 8, 9, 12, 16, 17, 33, 64, 100, 150 }) mc::add_task(mc::fmt("directions %d", n), [=] { simplexes(n); });
    for (int n : { 200, 255, 256, 257, 300, 513, 1025, 2000 }) mc::add_task(mc::fmt("large families %d", n), [=] { family(n); }); for (int n : { 200, 257, 300, 700 }) mc::add_task(mc::fmt("directions %d", n), [=] { simplexes(n); });
    mc::add_task("two trees", two_trees);
}
MC_MAIN(setup)
