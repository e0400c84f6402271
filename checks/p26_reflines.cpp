// P26: reference points and quasi-random sequences.
#include "mc.hpp"
#include "algorithm/reference_lines.hpp"
#include "utility/qrng.hpp"
#include "utility/math.hpp"
#include <cmath>
#include <map>
using namespace gapp;
using namespace gapp::algorithm;
using Gen = FitnessMatrix(*)(size_t, size_t);
static const std::pair<const char*, Gen> GENS[] = { { "sort", reflines::quasirandomSimplexPointsSort }, { "root", reflines::quasirandomSimplexPointsRoot }, { "mirror", reflines::quasirandomSimplexPointsMirror }, { "log", reflines::quasirandomSimplexPointsLog } };

static void simplex(const FitnessMatrix& p, size_t dim, size_t n, const std::string& w) {
    mc::step();
    if (dim == 0 || n == 0) { MC_CHECK(p.size() == 0, "points for an empty request", "%s: %zu", w.c_str(), p.size()); return; }
    MC_CHECK(p.size() == n, "wrong number of reference points", "%s: %zu", w.c_str(), p.size()); MC_CHECK(p.ncols() == dim, "wrong dimension of the reference points", "%s: %zu", w.c_str(), p.ncols());
    for (auto r : p) { double s = 0; for (double x : r) { MC_CHECK(std::isfinite(x) && x >= -1e-15 && x <= 1 + 1e-12, "coordinate of a reference point is not in [0, 1]", "%s: %g", w.c_str(), x); s += x; }
        MC_CHECK(std::abs(s - 1) < 1e-9, "reference point is not on the unit simplex", "%s: sum %.17g", w.c_str(), s); mc::state(mc::hbytes(&r[0], dim * sizeof(double))); }
}
static void gen(int g, int dim, bool large = false) {
    int n = large ? mc::pick({ 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1000 }) : mc::range(0, mc::thorough() ? 200 : 60); std::string w = mc::fmt("%s dim %d count %d", GENS[g].first, dim, n);
    auto p = GENS[g].second(dim, n); simplex(p, dim, n, w);
    auto q = GENS[g].second(dim, n); MC_CHECK(p == q, "the reference points are not reproducible", "%s", w.c_str());
    if (n > 1 && dim > 1) { auto h = GENS[g].second(dim, n - 1); for (int i = 0; i + 1 < n; i++) MC_CHECK(h[i] == p[i], "a prefix of the reference points differs", "%s", w.c_str());
        std::map<std::vector<double>, int> seen; for (auto r : p) MC_CHECK(++seen[std::vector<double>(r.begin(), r.end())] == 1 || dim == 1, "reference points repeat", "%s", w.c_str()); }
    // the points spread over the whole simplex: every coordinate is the largest one for some point
    if (n >= 60 && dim <= 4) for (int c = 0; c < dim; c++) { bool any = false; for (auto r : p) any |= std::max_element(r.begin(), r.end()) - r.begin() == c; MC_CHECK(any, "no reference point near a corner of the simplex", "%s: coordinate %d", w.c_str(), c); }
}

static std::vector<std::vector<double>> cand; static size_t asked_dim, asked_n; static int gcalls;
static FitnessMatrix scripted(size_t dim, size_t n) { asked_dim = dim; asked_n = n; gcalls++; FitnessMatrix m(0, dim); cand.clear(); for (size_t i = 0; i < n; i++) { std::vector<double> r(dim, 0.0); r[0] = double(i * 37 % 101); if (dim > 1) r[1] = double(i); cand.push_back(r); m.append_row(r); } return m; }
static int few = 1;
static FitnessMatrix chosen(size_t dim, size_t n) { asked_dim = dim; asked_n = n; gcalls++; FitnessMatrix m(0, dim); cand.clear(); for (size_t i = 0; i < n; i++) { std::vector<double> r(dim, 0.0); for (auto& x : r) x = (double)mc::choose(few); cand.push_back(r); m.append_row(r); } return m; }
static void subset_check(const FitnessMatrix& p, size_t dim, size_t n, size_t k, const std::string& w) {
    mc::step(); if (dim * n == 0) { MC_CHECK(p.size() == 0, "points for an empty request", "%s", w.c_str()); return; }
    MC_CHECK(p.size() == n && p.ncols() == dim, "wrong size of the sparse subset", "%s: %zux%zu", w.c_str(), p.size(), p.ncols());
    MC_CHECK(asked_dim == dim && asked_n == k * n && gcalls == 1, "the generator is asked for a wrong candidate set", "%s: %zu points", w.c_str(), asked_n);
    auto rest = cand; for (auto r : p) { auto it = std::find(rest.begin(), rest.end(), std::vector<double>(r.begin(), r.end())); MC_CHECK(it != rest.end(), "the sparse subset contains a point that is no candidate, or one twice", "%s", w.c_str()); rest.erase(it); }
    // sparse: no remaining candidate is further from the first i points than the next point was
    for (size_t i = 1; i < n; i++) { auto dist = [&](const auto& x) { double d = math::inf<double>; for (size_t j = 0; j < i; j++) { double s = 0; for (size_t c = 0; c < dim; c++) s += (x[c] - p(j, c)) * (x[c] - p(j, c)); d = std::min(d, s); } return d; };
        std::vector<double> cur(p[i].begin(), p[i].end()); double dc = dist(cur); for (auto& r : rest) MC_CHECK(dist(r) <= dc * (1 + 1e-12) + 1e-15, "the sparse subset skips a point that is further away from the others", "%s", w.c_str()); }
    uint64_t h = n; for (auto r : p) h = mc::hbytes(&r[0], dim * sizeof(double), h); mc::state(h);
}
static void subset_scripted() { int dim = mc::range(0, 3), n = mc::range(0, 12), k = mc::range(1, 5); gcalls = 0; auto p = reflines::pickSparseSubset(dim, n, scripted, k); subset_check(p, dim, n, k, mc::fmt("scripted dim %d count %d multiple %d", dim, n, k)); }
static void subset_chosen(int dim, int n, int k, int f) { few = f; gcalls = 0; auto p = reflines::pickSparseSubset(dim, n, chosen, k); std::string w = mc::fmt("dim %d count %d multiple %d candidates ", dim, n, k); for (auto& r : cand) { for (double x : r) w += mc::fmt("%g,", x); w += " "; } subset_check(p, dim, n, k, w); mc::sample(w); }
static void subset_real(int g, bool large = false) { int dim = large ? mc::pick({ 3, 9 }) : mc::range(1, 5), n = large ? mc::pick({ 64, 100, 129, 257 }) : mc::range(1, 25), k = large ? mc::pick({ 1, 2, 5 }) : mc::range(1, 12); auto p = reflines::pickSparseSubset(dim, n, GENS[g].second, k); std::string w = mc::fmt("subset of %s dim %d count %d multiple %d", GENS[g].first, dim, n, k); simplex(p, dim, n, w);
    auto c = GENS[g].second(dim, n * k); std::vector<std::vector<double>> rest; for (auto r : c) rest.emplace_back(r.begin(), r.end());
    for (auto r : p) { auto it = std::find(rest.begin(), rest.end(), std::vector<double>(r.begin(), r.end())); MC_CHECK(it != rest.end(), "the sparse subset contains a point that is no candidate, or one twice", "%s", w.c_str()); rest.erase(it); }
    auto q = reflines::pickSparseSubset(dim, n, GENS[g].second); simplex(q, dim, n, w); }

template<typename T> void qrng(int dim) {
    T seed = mc::pick<T>({ 0, 0.5, 0.25, 0.999, 1, 7.75 }); bool deflt = seed == T(0.5) && mc::flip();
    auto fresh = [&](T s, size_t skip) { rng::QuasiRandom<T> q(dim, s); auto r = q(); for (size_t i = 0; i < skip; i++) r = q(); return r; };
    rng::QuasiRandom<T> q = deflt ? rng::QuasiRandom<T>(dim) : rng::QuasiRandom<T>(dim, seed); size_t idx = 0; std::string w = mc::fmt("dim %d seed %g", dim, (double)seed);
    MC_CHECK(q.dim() == (size_t)dim, "wrong dimension of the sequence", "%s", w.c_str());
    for (int d = 0; d < 4; d++) { mc::step();
        switch (mc::choose(5)) {
        case 0: { auto p = q(); w += " next"; auto f = fresh(seed, idx++); MC_CHECK(p.size() == (size_t)dim && p == f, "the quasi-random sequence is not reproducible", "%s", w.c_str()); for (T x : p) MC_CHECK(x >= 0 && x < 1, "quasi-random point is outside of the unit cube", "%s: %g", w.c_str(), (double)x); break; }
        case 1: { int n = mc::pick({ 0, 1, 5 }); q.discard(n); idx += n; w += mc::fmt(" discard(%d)", n); break; }
        case 2: q.discard(); idx++; w += " discard()"; break;
        case 3: seed = mc::pick<T>({ 0.5, 0.125 }); q.reset(seed); idx = 0; w += mc::fmt(" reset(%g)", (double)seed); break;
        case 4: { auto c = q; c(); q = std::move(c); idx++; w += " copy"; break; }
        }
    }
    auto p = q(); MC_CHECK(p == fresh(seed, idx), "the quasi-random sequence is not reproducible", "%s", w.c_str());
}
template<typename T> void qrng_long(int dim) { // the sequence is spread evenly in every coordinate
    rng::QuasiRandom<T> q(dim); std::vector<int> cnt(dim * 10); const int N = 3000; for (int i = 0; i < N; i++) { auto p = q(); mc::step(); for (int c = 0; c < dim; c++) { MC_CHECK(p[c] >= 0 && p[c] < 1, "quasi-random point is outside of the unit cube", "dim %d: %g", dim, (double)p[c]); cnt[c * 10 + int(p[c] * 10)]++; } }
    for (int i = 0; i < dim * 10; i++) MC_CHECK(cnt[i] > N / 20 && cnt[i] < N / 5, "the quasi-random sequence is not evenly spread", "dim %d coordinate %d tenth %d: %d of %d", dim, i / 10, i % 10, cnt[i], N);
}
/** Every step adds the powers of the inverse generalised golden ratio (the positive solution of x^(dim + 1) = x + 1) to the coordinates. */
template<typename T> void qrng_steps(int dim) {
    double lo = 1, hi = 2; for (int i = 0; i < 200; i++) { double x = (lo + hi) / 2; (std::pow(x, dim + 1) > x + 1 ? hi : lo) = x; } T seed = mc::pick<T>({ T(0), T(0.25), T(0.5), T(0.9) }); rng::QuasiRandom<T> q(dim, seed); std::vector<double> want(dim, seed); const double tol = std::is_same_v<T, float> ? 1e-3 : 1e-10; const int N = std::is_same_v<T, float> ? 200 : 1000;
    for (int i = 0; i < N; i++) { auto p = q(); mc::step(); for (int c = 0; c < dim; c++) { want[c] += std::pow(lo, -(c + 1)); want[c] -= std::floor(want[c]); double d = std::abs(want[c] - double(p[c])); MC_CHECK(std::min(d, 1 - d) < tol, "a point is not the one of the documented sequence", "dim %d point %d coordinate %d: %.12g instead of %.12g", dim, i, c, (double)p[c], want[c]); } }
}
static void setup() {
    for (int d : { 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 33 }) { mc::add_task(mc::fmt("steps<double> %d", d), [=] { qrng_steps<double>(d); }); mc::add_task(mc::fmt("steps<float> %d", d), [=] { qrng_steps<float>(d); }); }
    for (int g = 0; g < 4; g++) { for (int d = 0; d <= 10; d++) mc::add_task(mc::fmt("%s dim %d", GENS[g].first, d), [=] { gen(g, d); }); mc::add_task(mc::fmt("subset of %s", GENS[g].first), [=] { subset_real(g); }); for (int d : { 2, 3, 4, 12, 16, 17, 33, 65 }) mc::add_task(mc::fmt("large %s dim %d", GENS[g].first, d), [=] { gen(g, d, true); }); mc::add_task(mc::fmt("large subset of %s", GENS[g].first), [=] { subset_real(g, true); }); }
    mc::add_task("subset scripted", subset_scripted);
    for (auto [d, n, k, f] : { std::array{ 1, 2, 3, 5 }, { 1, 3, 2, 4 }, { 2, 2, 2, 3 }, { 2, 1, 3, 3 }, { 2, 3, 1, 3 }, { 1, 4, 2, 3 }, { 2, 2, 3, 2 }, { 2, 4, 2, 2 }, { 3, 3, 1, 2 } }) mc::add_task(mc::fmt("subset dim %d count %d multiple %d", d, n, k), [=] { subset_chosen(d, n, k, f); });
    for (int d : { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 33 }) { mc::add_task(mc::fmt("sequence<double> %d", d), [=] { qrng<double>(d); }); mc::add_task(mc::fmt("sequence<float> %d", d), [=] { qrng<float>(d); }); if (d) { mc::add_task(mc::fmt("long sequence<double> %d", d), [=] { qrng_long<double>(d); }); mc::add_task(mc::fmt("long sequence<float> %d", d), [=] { qrng_long<float>(d); }); } }
}
MC_MAIN(setup)
