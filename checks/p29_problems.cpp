// P29: the benchmark problems. Every problem is evaluated at every point of a grid of its domain (full grids in up to 4 variables, every point that differs
// from a base point in up to 2 variables for long chromosomes) and compared with the published definition written out independently below.
#include "mc.hpp"
#include "problems/problems.hpp"
#include <cmath>
#include <bit>
#include <memory>
#include <numbers>
#include <algorithm>
#include <functional>
#include <numeric>
using namespace gapp; using namespace gapp::problems;
using V = std::vector<double>; using VV = std::vector<V>; using RC = Chromosome<RealGene>; using BC = Chromosome<BinaryGene>;
using RF = BenchmarkFunction<RealGene>;
static const double PI = std::numbers::pi;
template<typename T> static std::string show(const T& v) { std::string s = "("; for (auto x : v) { char b[40]; snprintf(b, sizeof b, "%.17g ", double(x)); s += b; } return s + ")"; }
static bool near(double a, double b, double tol = 1e-9) { return std::abs(a - b) <= tol * std::max({ 1.0, std::abs(a), std::abs(b) }); }
static double sq(double x) { return x * x; }

// ---- the definitions (minimisation; the library negates them) ----
static V sphere(const V& x) { double s = 0; for (double v : x) s += v * v; return { s }; }
static V rastrigin(const V& x) { double s = 0; for (double v : x) s += 10 + v * v - 10 * std::cos(2 * PI * v); return { s }; }
static V rosenbrock(const V& x) { double s = 0; for (size_t i = 1; i < x.size(); i++) s += 100 * sq(x[i] - x[i - 1] * x[i - 1]) + sq(1 - x[i - 1]); return { s }; }
static V schwefel(const V& x) { double s = 0; for (double v : x) s += 418.98288727243 - v * std::sin(std::sqrt(std::fabs(v))); return { s }; }
static V griewank(const V& x) { double s = 0, p = 1; for (size_t i = 0; i < x.size(); i++) s += x[i] * x[i] / 4000, p *= std::cos(x[i] / std::sqrt(double(i + 1))); return { 1 + s - p }; }
static V ackley(const V& x) { double s = 0, c = 0, d = x.size(); for (double v : x) s += v * v / d, c += std::cos(2 * PI * v) / d; return { 20 + std::numbers::e - 20 * std::exp(-std::sqrt(s) / 5) - std::exp(c) }; }
static V levy(const V& x) { V w; for (double v : x) w.push_back(1 + (v - 1) / 4); size_t d = x.size(); double s = sq(std::sin(PI * w[0])) + sq(w[d - 1] - 1) * (1 + sq(std::sin(2 * PI * w[d - 1]))); for (size_t i = 0; i + 1 < d; i++) s += sq(w[i] - 1) * (1 + 10 * sq(std::sin(PI * w[i] + 1))); return { s }; }
static V kursawe(const V& x) { double a = 0, b = 0; for (size_t i = 0; i < x.size(); i++) { if (i + 1 < x.size()) a += -10 * std::exp(-0.2 * std::hypot(x[i], x[i + 1])); b += std::pow(std::fabs(x[i]), 0.8) + 5 * std::sin(x[i] * x[i] * x[i]); } return { a, b }; }
static double rest(const V& x) { double s = 0; for (size_t i = 1; i < x.size(); i++) s += x[i]; return s / double(x.size() - 1); }
static V zdt1(const V& x) { double g = 1 + 9 * rest(x); return { x[0], g * (1 - std::sqrt(x[0] / g)) }; }
static V zdt2(const V& x) { double g = 1 + 9 * rest(x); return { x[0], g * (1 - sq(x[0] / g)) }; }
static V zdt3(const V& x) { double g = 1 + 9 * rest(x); return { x[0], g * (1 - std::sqrt(x[0] / g) - x[0] / g * std::sin(10 * PI * x[0])) }; }
static V zdt4(const V& x) { double g = 1; for (size_t i = 1; i < x.size(); i++) g += 10 + x[i] * x[i] - 10 * std::cos(4 * PI * x[i]); return { x[0], g * (1 - std::sqrt(x[0] / g)) }; }
static V zdt6(const V& x) { double f = 1 - std::exp(-4 * x[0]) * std::pow(std::sin(6 * PI * x[0]), 6), g = 1 + 9 * std::pow(rest(x), 0.25); return { f, g * (1 - sq(f / g)) }; }
static double g1(const V& x, size_t m) { double s = 0; for (size_t i = m - 1; i < x.size(); i++) s += 1 + sq(x[i] - 0.5) - std::cos(20 * PI * (x[i] - 0.5)); return 100 * s; }
static double g2(const V& x, size_t m) { double s = 0; for (size_t i = m - 1; i < x.size(); i++) s += sq(x[i] - 0.5); return s; }
static double g6(const V& x, size_t m) { double s = 0; for (size_t i = m - 1; i < x.size(); i++) s += std::pow(x[i], 0.1); return s; }
static V sphere_front(const V& angle, double g) { size_t m = angle.size() + 1; V f(m); for (size_t k = 0; k < m; k++) { double p = 1 + g; for (size_t i = 0; i + k + 1 < m; i++) p *= std::cos(angle[i]); if (k) p *= std::sin(angle[m - 1 - k]); f[k] = p; } return f; }
static V dtlz1(const V& x, size_t m) { V f(m); double g = g1(x, m); for (size_t k = 0; k < m; k++) { double p = (1 + g) / 2; for (size_t i = 0; i + k + 1 < m; i++) p *= x[i]; if (k) p *= 1 - x[m - 1 - k]; f[k] = p; } return f; }
static V angles(const V& x, size_t m, double power) { V a; for (size_t i = 0; i + 1 < m; i++) a.push_back((power == 1 ? x[i] : std::pow(x[i], power)) * PI / 2); return a; }
static V dtlz2(const V& x, size_t m) { return sphere_front(angles(x, m, 1), g2(x, m)); }
static V dtlz3(const V& x, size_t m) { return sphere_front(angles(x, m, 1), g1(x, m)); }
static V dtlz4(const V& x, size_t m) { return sphere_front(angles(x, m, 100), g2(x, m)); }
static V bent(const V& x, size_t m, double g) { V a{ x[0] * PI / 2 }; for (size_t i = 1; i + 1 < m; i++) a.push_back(PI / (4 * (1 + g)) * (1 + 2 * g * x[i])); return sphere_front(a, g); }
static V dtlz5(const V& x, size_t m) { return bent(x, m, g2(x, m)); }
static V dtlz6(const V& x, size_t m) { return bent(x, m, g6(x, m)); }
static V dtlz7(const V& x, size_t m) { double s = 0; for (size_t i = m - 1; i < x.size(); i++) s += x[i]; double g = 1 + 9 * s / double(x.size() - m + 1), h = m; V f; for (size_t i = 0; i + 1 < m; i++) { f.push_back(x[i]); h -= x[i] / (1 + g) * (1 + std::sin(3 * PI * x[i])); } f.push_back((1 + g) * h); return f; }

struct Single { const char* name; std::function<std::unique_ptr<RF>(size_t, size_t)> make; V(*def)(const V&); double bound, opt; };
template<typename T> static std::unique_ptr<RF> mk(size_t n, size_t b) { return std::make_unique<T>(n, b); }
static const Single SINGLE[] = {
    { "Sphere", mk<Sphere>, sphere, 5.12, 0 }, { "Rastrigin", mk<Rastrigin>, rastrigin, 5.12, 0 }, { "Rosenbrock", mk<Rosenbrock>, rosenbrock, 2.048, 1 }, { "Schwefel", mk<Schwefel>, schwefel, 500, 420.9687 },
    { "Griewank", mk<Griewank>, griewank, 600, 0 }, { "Ackley", mk<Ackley>, ackley, 32.768, 0 }, { "Levy", mk<Levy>, levy, 10, 1 } };
struct Two { const char* name; std::function<std::unique_ptr<RF>(size_t, size_t)> make; V(*def)(const V&); double lo0, hi0, lo, hi; V ideal, nadir; double tol; };
static V kur_ideal(size_t n) { return { 10.0 * (n - 1), 3.85 * (n - 1) + 4 }; }
static V kur_nadir(size_t n) { return { 7.25 * (n - 1), 0 }; }
static const Two TWO[] = {
    { "ZDT1", mk<ZDT1>, zdt1, 0, 1, 0, 1, { 0, 0 }, { -1, -1 }, 1e-9 }, { "ZDT2", mk<ZDT2>, zdt2, 0, 1, 0, 1, { 0, 0 }, { -1, -1 }, 1e-9 }, { "ZDT3", mk<ZDT3>, zdt3, 0, 1, 0, 1, { 0, 0.8 }, { -0.85, -1 }, 0.005 },
    { "ZDT4", mk<ZDT4>, zdt4, 0, 1, -5, 5, { 0, 0 }, { -1, -1 }, 1e-9 }, { "ZDT6", mk<ZDT6>, zdt6, 0, 1, 0, 1, { 0, 0 }, { -1, -0.92 }, 0.005 }, { "Kursawe", mk<Kursawe>, kursawe, -5, 5, -5, 5, {}, {}, 0.01 } };
struct Many { const char* name; std::function<std::unique_ptr<RF>(size_t, size_t)> make; V(*def)(const V&, size_t); size_t k; double rest; };
static const Many MANY[] = { { "DTLZ1", mk<DTLZ1>, dtlz1, 5, .5 }, { "DTLZ2", mk<DTLZ2>, dtlz2, 10, .5 }, { "DTLZ3", mk<DTLZ3>, dtlz3, 10, .5 }, { "DTLZ4", mk<DTLZ4>, dtlz4, 10, .5 }, { "DTLZ5", mk<DTLZ5>, dtlz5, 10, .5 }, { "DTLZ6", mk<DTLZ6>, dtlz6, 10, 0 }, { "DTLZ7", mk<DTLZ7>, dtlz7, 20, 0 } };

static uint64_t gSeen = 0;   // everything evaluated in this execution
static V vec(const FitnessVector& f) { for (double v : f) gSeen = mc::hmix(gSeen, std::bit_cast<uint64_t>(v)); return V(f.begin(), f.end()); }
static bool dominates(const V& a, const V& b, double tol) { bool gt = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] < b[i] - 1e-12) return false; gt |= a[i] > b[i] + tol; } return gt; }
// one evaluation: the size and the value
static V eval(const RF& f, const V& x, const std::function<V(const V&)>& def, double tol = 1e-9) {
    mc::step(); V got = vec(f((RC(x.begin(), x.end()))));
    MC_CHECK(got.size() == f.num_objectives(), "wrong number of objectives", "%s%s: %zu", f.name().c_str(), show(x).c_str(), got.size());
    V e = def(x); for (size_t k = 0; k < e.size(); k++) MC_CHECK(near(got[k], -e[k], tol), "a value differs from the definition", "%s%s: objective %zu is %.17g instead of %.17g", f.name().c_str(), show(x).c_str(), k, got[k], -e[k]);
    return got;
}
static void shape(const RF& f, const char* name, size_t n, size_t m, size_t bits, const V& lo, const V& hi) {
    MC_CHECK(f.name() == name && f.num_vars() == n && f.num_objectives() == m && f.bounds().size() == n && f.optimum().size() == n && f.FitnessFunctionBase<RealGene>::chrom_len() == n && f.FitnessFunctionBase<BinaryGene>::chrom_len() == n * bits, "wrong dimensions", "%s n=%zu m=%zu: vars %zu, objectives %zu, bounds %zu, optimum %zu, binary length %zu", name, n, m, f.num_vars(), f.num_objectives(), f.bounds().size(), f.optimum().size(), f.FitnessFunctionBase<BinaryGene>::chrom_len());
    MC_CHECK(f.optimal_value().size() == m && f.ideal_point().size() == m && f.nadir_point().size() == m, "wrong dimensions", "%s: the optimal value, the ideal or the nadir point does not have %zu objectives", name, m);
    for (size_t i = 0; i < n; i++) { MC_CHECK(f.bounds()[i].lower() == lo[i] && f.bounds()[i].upper() == hi[i], "wrong bounds", "%s variable %zu of %zu", name, i, n); MC_CHECK(f.optimum()[i] >= lo[i] && f.optimum()[i] <= hi[i], "the optimum is outside the domain", "%s variable %zu", name, i); }
    for (size_t k = 0; k < m; k++) MC_CHECK(f.nadir_point()[k] <= f.ideal_point()[k], "the nadir point is above the ideal point", "%s", name);
}
// all points of a full grid
static void grid(const std::vector<V>& axes, const std::function<void(const V&)>& fn) {
    size_t n = axes.size(); std::vector<size_t> c(n, 0); V x(n);
    for (;;) { for (size_t i = 0; i < n; i++) x[i] = axes[i][c[i]]; fn(x); size_t k = 0; while (k < n && ++c[k] == axes[k].size()) c[k] = 0, k++; if (k == n) return; }
}
// all points with up to two variables that differ from the base point
static void around(const V& base, const std::vector<V>& axes, const std::function<void(const V&)>& fn) {
    fn(base); for (size_t i = 0; i < base.size(); i++) for (double a : axes[i]) { V x = base; x[i] = a; fn(x); for (size_t j = 0; j < i; j++) for (double b : axes[j]) { x[j] = b; fn(x); x[j] = base[j]; } }
}
static V axis(double lo, double hi, int steps, V extra = {}) { V a; for (int i = 0; i <= steps; i++) a.push_back(i == steps ? hi : lo + (hi - lo) * i / steps); for (double e : extra) for (double v : { e, std::nextafter(e, lo), std::nextafter(e, hi), e - (hi - lo) * 1e-4, e + (hi - lo) * 1e-4 }) if (v >= lo && v <= hi) a.push_back(v); std::sort(a.begin(), a.end()); a.erase(std::unique(a.begin(), a.end()), a.end()); return a; }

static void single_grid() {
    const Single& s = mc::pick_from(SINGLE); size_t n = mc::range(1, 4); auto f = s.make(n, 32); shape(*f, s.name, n, 1, 32, V(n, -s.bound), V(n, s.bound)); auto def = [&](const V& x) { return s.def(x); };
    double tol = f->name() == "Schwefel" ? 1e-8 * n : 1e-9;
    int steps[] = { mc::depth(50000, 200000), mc::depth(400, 1000), mc::depth(50, 100), mc::depth(18, 30) };
    std::vector<V> ax(n, axis(-s.bound, s.bound, steps[n - 1], { s.opt, 0, -s.opt }));
    grid(ax, [&](const V& x) { V y = eval(*f, x, def, std::max(tol, 1e-9)); MC_CHECK(y[0] <= f->optimal_value()[0] + tol, "the optimal value is exceeded", "%s%s: %.17g", s.name, show(x).c_str(), y[0]); });
}
static void single_long() {
    const Single& s = mc::pick_from(SINGLE); size_t n = mc::pick({ 5, 10, 31, 100 }); auto f = s.make(n, 8); shape(*f, s.name, n, 1, 8, V(n, -s.bound), V(n, s.bound)); auto def = [&](const V& x) { return s.def(x); };
    double tol = f->name() == "Schwefel" ? 1e-8 * n : 1e-9; auto chk = [&](const V& x) { V y = eval(*f, x, def, tol); MC_CHECK(y[0] <= f->optimal_value()[0] + tol, "the optimal value is exceeded", "%s%s: %.17g", s.name, show(x).c_str(), y[0]); };
    std::vector<V> ax(n, n < 32 ? axis(-s.bound, s.bound, 6, { s.opt }) : V{ -s.bound, s.opt, s.bound / 3 });
    for (double b : { s.opt, -s.bound, s.bound, 0.3 * s.bound }) { V base(n, b); around(base, ax, chk); for (size_t i = 0; i < n; i++) base[i] = (i % 2 ? -b : b); chk(base); }
}
static void single_optimum() {
    const Single& s = mc::pick_from(SINGLE);
    for (size_t n = 1; n <= size_t(mc::depth(400, 1000)); n++) { mc::step(); auto f = s.make(n, 16); V o(f->optimum().begin(), f->optimum().end()); for (double v : o) MC_CHECK(v == s.opt, "wrong optimum", "%s n=%zu", s.name, n); V y = vec((*f)((f->optimum())));
        MC_CHECK(f->optimal_value() == FitnessVector{ 0.0 } && f->ideal_point() == f->optimal_value() && f->nadir_point() == f->optimal_value(), "wrong optimal value", "%s n=%zu", s.name, n);
        MC_CHECK(y.size() == 1 && std::abs(y[0]) <= 1e-9 * n, "the optimum does not have the optimal value", "%s n=%zu: %.17g", s.name, n, y[0]); }
}
// ---- two objectives ----
static V ideal_of(const Two& t, size_t n) { return t.ideal.empty() ? kur_ideal(n) : t.ideal; }
static V nadir_of(const Two& t, size_t n) { return t.nadir.empty() ? kur_nadir(n) : t.nadir; }
static void props(const RF& f, const V& ideal, const V& nadir, const V& opt, double opt_tol = 1e-9) {
    for (size_t k = 0; k < ideal.size(); k++) { MC_CHECK(near(f.ideal_point()[k], ideal[k], 1e-6), "wrong ideal point", "%s objective %zu: %.17g", f.name().c_str(), k, f.ideal_point()[k]); MC_CHECK(near(f.nadir_point()[k], nadir[k], 0.005), "wrong nadir point", "%s objective %zu: %.17g", f.name().c_str(), k, f.nadir_point()[k]); }
    V y = vec(f((f.optimum()))); for (size_t k = 0; k < y.size(); k++) { MC_CHECK(near(y[k], f.optimal_value()[k], opt_tol), "the optimum does not have the optimal value", "%s objective %zu: %.17g instead of %.17g", f.name().c_str(), k, y[k], f.optimal_value()[k]); MC_CHECK(near(opt[k], f.optimal_value()[k]), "wrong optimal value", "%s objective %zu: %.17g", f.name().c_str(), k, f.optimal_value()[k]); }
}
static bool on_front(const Two& t, double x0) { if (t.def != zdt3) return true; static const double seg[][2] = { { 0, .083 }, { .183, .2575 }, { .4095, .4535 }, { .619, .652 }, { .824, .8515 } }; for (auto& s : seg) if (x0 >= s[0] && x0 <= s[1]) return true; return false; }
static void two() {
    const Two& t = mc::pick_from(TWO); bool kur = t.def == kursawe; size_t n = mc::pick({ 2, 3, 4, 5, 10, 30 }); auto f = t.make(n, 32);
    V lo(n, t.lo), hi(n, t.hi); lo[0] = t.lo0, hi[0] = t.hi0; shape(*f, t.name, n, 2, 32, lo, hi); auto def = [&](const V& x) { return t.def(x); };
    V ideal = ideal_of(t, n), nadir = nadir_of(t, n); props(*f, ideal, nadir, t.def == zdt6 ? V{ -1, 0 } : kur ? V{ 10.0 * (n - 1), 0 } : V{ 0, -1 });
    VV front; if (!kur) for (double x0 : axis(0, 1, 400)) if (on_front(t, x0)) { V x(n, 0.0); x[0] = x0; V y = eval(*f, x, def); front.push_back(y); for (int k = 0; k < 2; k++) MC_CHECK(y[k] <= ideal[k] + 1e-9 && y[k] >= nadir[k] - t.tol, "the ideal and nadir points do not bound the Pareto front", "%s(%g): objective %d is %g", t.name, x0, k, y[k]); }
    auto chk = [&](const V& x) { V y = eval(*f, x, def); for (int k = 0; k < 2; k++) MC_CHECK(y[k] <= ideal[k] + (kur ? 0.01 * std::abs(ideal[k]) : 1e-9), "the ideal point is exceeded", "%s%s: objective %d is %.17g", t.name, show(x).c_str(), k, y[k]);
        // the front is sorted by falling first objective; only its points at or below y in that objective can be dominated by y
        auto it = std::lower_bound(front.begin(), front.end(), y[0] + 1e-12, [](const V& a, double b) { return a[0] > b; }); if (t.def == zdt6) it = front.begin(); for (int c = 0; it != front.end() && (t.def == zdt6 || c < 8); ++it, ++c) MC_CHECK(!dominates(y, *it, 1e-9), "a documented Pareto-optimal solution is dominated", "%s%s: %s", t.name, show(x).c_str(), show(*it).c_str()); };
    int steps = n == 2 ? mc::depth(400, 1000) : n == 3 ? mc::depth(50, 80) : n == 4 ? mc::depth(16, 24) : 4; std::vector<V> ax(n); for (size_t i = 0; i < n; i++) ax[i] = axis(lo[i], hi[i], steps, n <= 4 ? V{ 0 } : V{});
    if (n <= 4) grid(ax, chk); else for (double b : { 0.0, 0.25, 0.5, 1.0 }) { V base(n); for (size_t i = 0; i < n; i++) base[i] = lo[i] + b * (hi[i] - lo[i]); around(base, ax, chk); base.assign(n, 0); base[0] = b; around(base, ax, chk); }
}
// the Pareto front of the Kursawe problem is not given in closed form: the best points of a grid
static void kursawe_front() {
    size_t n = mc::range(2, 3); Kursawe f(n); V a = n == 2 ? axis(-5, 5, mc::depth(1000, 2000), { 0, -1.1515 }) : axis(-1.3, 0.1, mc::depth(56, 112), { 0, -1.1515 }); VV all;
    grid(std::vector<V>(n, a), [&](const V& x) { mc::step(); all.push_back(vec(f((RC(x.begin(), x.end()))))); });
    std::sort(all.begin(), all.end(), std::greater<>()); double best = -INFINITY; V ideal = kur_ideal(n), nadir = kur_nadir(n);
    for (auto& y : all) if (y[1] > best) { best = y[1]; for (int k = 0; k < 2; k++) MC_CHECK(y[k] <= ideal[k] + 0.01 * ideal[k] && y[k] >= nadir[k] - 0.01 * ideal[k], "the ideal and nadir points do not bound the Pareto front", "Kursawe n=%zu: %s", n, show(y).c_str()); }
}
static void zdt5() {
    size_t n = mc::range(2, mc::depth(4, 5)); size_t len = 30 + 5 * (n - 1); ZDT5 f(n);
    MC_CHECK(f.name() == "ZDT5" && f.chrom_len() == len && f.num_vars() == len && f.num_objectives() == 2 && f.bounds().size() == len && f.optimum().size() == len && f.ideal_point().size() == 2 && f.nadir_point().size() == 2 && f.optimal_value().size() == 2, "wrong dimensions", "ZDT5 %zu", n);
    for (auto& b : f.bounds()) MC_CHECK(b.lower() == 0 && b.upper() == 1, "wrong bounds", "ZDT5"); V ideal{ -1, -(n - 1.0) / 31 }, nadir{ -31, -(n - 1.0) };
    for (int k = 0; k < 2; k++) { MC_CHECK(near(f.ideal_point()[k], ideal[k]) && near(f.nadir_point()[k], nadir[k]), "wrong ideal or nadir point", "ZDT5 %zu", n); MC_CHECK(near(f((f.optimum()))[k], f.optimal_value()[k]), "the optimum does not have the optimal value", "ZDT5 %zu", n); }
    VV front; for (int u = 0; u <= 30; u++) front.push_back({ -(1.0 + u), -(n - 1.0) / (1 + u) });
    int u = mc::range(0, 30), how = mc::range(0, 2); BC c(len, 0); for (int i = 0; i < u; i++) c[how == 0 ? i : how == 1 ? 29 - i : (i * 7) % 30] = 1;
    for (unsigned m = 0; m < 1u << (5 * (n - 1)); m += n == 5 ? 7 : 1) { mc::step(); double g = 0; for (size_t j = 0; j + 1 < n; j++) { int ones = 0; for (int b = 0; b < 5; b++) { int bit = m >> (5 * j + b) & 1; c[30 + 5 * j + b] = bit; ones += bit; } g += ones == 5 ? 1 : 2 + ones; }
        V y = vec(f((c))), e{ -(1.0 + u), -g / (1.0 + u) }; MC_CHECK(y.size() == 2 && near(y[0], e[0]) && near(y[1], e[1]), "a value differs from the definition", "ZDT5 %s: %s instead of %s", show(c).c_str(), show(y).c_str(), show(e).c_str());
        MC_CHECK(y[0] <= ideal[0] + 1e-9 && y[1] <= ideal[1] + 1e-9, "the ideal point is exceeded", "ZDT5 %s", show(c).c_str()); for (auto& p : front) MC_CHECK(!dominates(y, p, 1e-9), "a documented Pareto-optimal solution is dominated", "ZDT5 %s", show(c).c_str());
        if (m + 1 == 1u << (5 * (n - 1))) MC_CHECK(y[0] >= nadir[0] - 1e-9 && y[1] >= nadir[1] - 1e-9, "the ideal and nadir points do not bound the Pareto front", "ZDT5 %s", show(c).c_str()); }
}
// ---- DTLZ ----
static void dtlz() {
    const Many& d = mc::pick_from(MANY); size_t m = mc::pick({ 2, 3, 4, 5, 7, 10 }), n = m + d.k - 1; auto f = d.make(m, 4); shape(*f, d.name, n, m, 4, V(n, 0.0), V(n, 1.0)); auto def = [&](const V& x) { return d.def(x, m); };
    int id = d.name[4] - '0'; V ideal(m, 0.0), nadir(m, id == 1 ? -0.5 : -1.0), opt(m, 0.0);
    if (id == 1) opt.back() = -0.5; if (id >= 2 && id <= 4) opt[0] = -1; if (id == 5 || id == 6) { for (size_t i = 0; i < m; i++) nadir[i] = -std::pow(0.5, double(m - 1 - std::max<size_t>(i, 1)) / 2); opt = nadir; opt.back() = 0; } if (id == 7) { opt.back() = nadir.back() = -2.0 * m; ideal.back() = -0.307004 * m - 1.692996; }
    props(*f, ideal, nadir, opt);
    int pos = int(m) - 1; V pa = axis(0, 1, m == 2 ? 400 : m == 3 ? mc::depth(40, 100) : m == 4 ? mc::depth(12, 30) : m == 5 ? mc::depth(6, 14) : 2); VV front; auto bounded = [&](const V& x, const V& y) { for (size_t k = 0; k < m; k++) MC_CHECK(y[k] <= ideal[k] + 2e-6 && y[k] >= nadir[k] - 1e-9, "the ideal and nadir points do not bound the Pareto front", "%s%s: objective %zu is %.17g", d.name, show(x).c_str(), k, y[k]); };
    grid(std::vector<V>(pos, pa), [&](const V& p) { V x = p; x.resize(n, d.rest); V y = eval(*f, x, def); bounded(x, y); if (id <= 4) { double s = 0; for (double v : y) s += id == 1 ? -v : v * v; MC_CHECK(near(s, id == 1 ? 0.5 : 1.0), "an optimal solution is not on the documented front", "%s%s: %.17g", d.name, show(x).c_str(), s); } });
    auto chk = [&](const V& x) { V y = eval(*f, x, def); double s = 0; for (size_t k = 0; k < m; k++) { MC_CHECK(y[k] <= ideal[k] + 2e-6, "the ideal point is exceeded", "%s%s: objective %zu is %.17g", d.name, show(x).c_str(), k, y[k]); s += id == 1 ? -y[k] : y[k] * y[k]; }
        // dominating a point of the plane or of the sphere means being nearer to the origin
        if (id <= 4 || (id <= 6 && m <= 3)) MC_CHECK(s >= (id == 1 ? 0.5 : 1.0) - 1e-9, "a point is beyond the documented Pareto front", "%s%s: %.17g", d.name, show(x).c_str(), s); };
    V da = m <= 4 ? axis(0, 1, mc::depth(8, 12), { 0.5 }) : V{ 0, 0.3, 0.5, 1 }; std::vector<V> ax(n, da);
    for (double b : { 0.0, 0.25, 0.5, 0.8, 1.0 }) for (double r : { d.rest, b }) { V base(n, b); std::fill(base.begin() + pos, base.end(), r); around(base, ax, chk); if (r == d.rest && b == d.rest) break; }
    V qa = axis(0, 1, m == 2 ? 40 : m == 3 ? 16 : m == 4 ? 8 : 2); if (m <= 7) grid(std::vector<V>(pos, qa), [&](const V& p) { for (double r : da) for (double r2 : da) { V x = p; x.resize(n, r); x.back() = r2; chk(x); } });
}
static void dtlz_optimum() { const Many& d = mc::pick_from(MANY); for (size_t m = 2; m <= size_t(mc::depth(40, 150)); m++) { mc::step(); auto f = d.make(m, 4); V y = vec((*f)((f->optimum()))); MC_CHECK(y.size() == m && f->optimal_value().size() == m, "wrong number of objectives", "%s %zu", d.name, m); for (size_t k = 0; k < m; k++) MC_CHECK(near(y[k], f->optimal_value()[k]), "the optimum does not have the optimal value", "%s %zu objective %zu: %.17g", d.name, m, k, y[k]); } }
// every number of variables (and of objectives), every single variable changed
static void every_dimension() {
    int kind = mc::range(0, 2), which = mc::range(0, kind == 1 ? 5 : 6), slice = mc::range(0, 3); size_t top = kind == 2 ? mc::depth(40, 80) : mc::depth(320, 700);
    for (size_t n = 2 + slice; n <= top; n += 4) {
        size_t k = kind == 2 ? MANY[which].k : 0, nv = kind == 2 ? n + k - 1 : n; auto f = kind == 0 ? SINGLE[which].make(n, 8) : kind == 1 ? TWO[which].make(n, 8) : MANY[which].make(n, 8); V lo(nv), hi(nv); for (size_t i = 0; i < nv; i++) lo[i] = f->bounds()[i].lower(), hi[i] = f->bounds()[i].upper();
        auto def = [&](const V& x) { return kind == 0 ? SINGLE[which].def(x) : kind == 1 ? TWO[which].def(x) : MANY[which].def(x, n); }; double tol = kind == 0 && which == 3 ? 1e-8 * n : 1e-9;
        V opt(f->optimum().begin(), f->optimum().end()), mid(nv); for (size_t i = 0; i < nv; i++) mid[i] = lo[i] + 0.2 * (hi[i] - lo[i]);
        for (auto& base : { opt, mid }) { V x = base; eval(*f, x, def, tol); for (size_t i = 0; i < nv; i++) { for (double t : { 0.1, 0.77 }) { x[i] = lo[i] + t * (hi[i] - lo[i]); eval(*f, x, def, tol); } x[i] = base[i]; } }
    }
}
// ---- the binary variants ----
struct Probe final : RF {
    Probe(size_t n, double lo, double hi, size_t bits) : RF("Probe", n, 1, Bounds<RealGene>{ lo, hi }, bits) {} mutable RC seen;
    FitnessVector invoke(const RC& v) const override { seen = v; return { 0.0 }; }
};
static V decode(const BC& c, const V& lo, const V& hi) { size_t n = lo.size(), b = c.size() / n; V x; for (size_t i = 0; i < n; i++) { long double v = 0, w = 0.5L, s = 0; for (size_t k = 0; k < b; k++, w /= 2) { if (c[i * b + k]) v += w; s += w; } x.push_back(double(lo[i] + (v / s) * ((long double)hi[i] - lo[i]))); } return x; }
static void strings(size_t len, size_t exhaustive, const std::function<void(const BC&)>& fn) {
    if (len <= exhaustive) { for (unsigned m = 0; m < 1u << len; m++) { BC c(len); for (size_t i = 0; i < len; i++) c[i] = m >> i & 1; fn(c); } return; }
    for (int base : { 0, 1, 2, 3 }) { BC c(len); for (size_t i = 0; i < len; i++) c[i] = base < 2 ? base : (i / (base - 1)) % 2; fn(c); for (size_t i = 0; i < len; i++) { c[i] ^= 1; fn(c); for (size_t j = 0; j < i; j += len / 20 + 1) { c[j] ^= 1; fn(c); c[j] ^= 1; } c[i] ^= 1; } }
}
static void decoding() {
    size_t n = mc::range(1, 3), bits = mc::pick({ 1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 53, 63, 64, 65, 100 }); static const double B[][2] = { { 0, 1 }, { -1, 1 }, { -5.12, 5.12 }, { -32.768, 32.768 }, { -500, 500 }, { -2.048, 2.048 }, { 3, 7.25 } }; auto& b = mc::pick_from(B); V lo(n, b[0]), hi(n, b[1]);
    Probe p(n, b[0], b[1], bits); MC_CHECK(p.FitnessFunctionBase<BinaryGene>::chrom_len() == n * bits, "wrong dimensions", "%zu bits", bits);
    strings(n * bits, mc::depth(14, 16), [&](const BC& c) { mc::step(); p.seen.clear(); (void)p((c)); MC_CHECK(p.seen.size() == n, "wrong number of decoded variables", "%zu", p.seen.size()); V e = decode(c, lo, hi); for (size_t i = 0; i < n; i++) { MC_CHECK(near(p.seen[i], e[i], 1e-12 * (1 + b[1] - b[0])), "a variable is decoded wrongly", "%s variable %zu: %.17g instead of %.17g", show(c).c_str(), i, p.seen[i], e[i]); MC_CHECK(p.seen[i] >= b[0] && p.seen[i] <= b[1], "a decoded variable is outside the bounds", "%s variable %zu: %.17g", show(c).c_str(), i, p.seen[i]); } });
}
static void encodings() {
    int kind = mc::range(0, 2); std::unique_ptr<RF> f; size_t bits = mc::pick({ 1, 2, 3, 4, 6, 12, 32, 64 }); int which;
    if (kind == 0) { which = mc::range(0, 6); f = SINGLE[which].make(mc::range(1, 3), bits); } else if (kind == 1) { which = mc::range(0, 5); f = TWO[which].make(mc::range(2, 3), bits); } else { which = mc::range(0, 6); f = MANY[which].make(mc::range(2, 3), bits); }
    V lo, hi; for (auto& b : f->bounds()) lo.push_back(b.lower()), hi.push_back(b.upper()); size_t len = f->FitnessFunctionBase<BinaryGene>::chrom_len(); MC_CHECK(len == f->num_vars() * bits, "wrong dimensions", "%s: %zu bits", f->name().c_str(), len);
    strings(len, mc::depth(14, 16), [&](const BC& c) { mc::step(); V x = decode(c, lo, hi), a = vec((*f)((c))), e = vec((*f)((RC(x.begin(), x.end())))); MC_CHECK(a.size() == e.size() && a.size() == f->num_objectives(), "wrong number of objectives", "%s", f->name().c_str()); for (size_t k = 0; k < a.size(); k++) MC_CHECK(near(a[k], e[k]), "the encodings disagree", "%s %s: objective %zu is %.17g instead of %.17g", f->name().c_str(), show(c).c_str(), k, a[k], e[k]); });
}
// ---- strings and tours ----
static void finder() {
    int len = mc::range(1, 4); static const char A[] = { ' ', 'a', 'Z', '~', 127 }; std::string t; for (int i = 0; i < len; i++) t += mc::pick_from(A); StringFinder f(t);
    MC_CHECK(f.name() == "StringFinder" && f.num_vars() == size_t(len) && f.chrom_len() == size_t(len) && f.num_objectives() == 1 && f.bounds().size() == size_t(len) && f.optimal_value() == FitnessVector{ double(len) } && f.ideal_point() == f.optimal_value() && f.nadir_point() == f.optimal_value(), "wrong dimensions", "StringFinder");
    for (auto& b : f.bounds()) MC_CHECK(b.lower() == 32 && b.upper() == 127, "wrong bounds", "StringFinder");
    MC_CHECK(f.optimum().size() == size_t(len) && f((f.optimum())) == f.optimal_value(), "the optimum does not have the optimal value", "StringFinder: optimum of %zu characters", f.optimum().size());
    auto score = [&](const Chromosome<IntegerGene>& c) { mc::step(); double e = 0; for (int i = 0; i < len; i++) e += c[i] == t[i]; MC_CHECK(f((c)) == FitnessVector{ e }, "a value differs from the definition", "StringFinder %s", t.c_str()); };
    Chromosome<IntegerGene> c(len, 32); if (len <= 2) for (int a = 32; a <= 127; a++) for (int b = 32; b <= (len == 2 ? 127 : 32); b++) { c[0] = a; c[len - 1] = len == 2 ? b : a; score(c); } else for (int base : { 32, 97, 90, 127 }) { c.assign(len, base); score(c); for (int i = 0; i < len; i++) for (int a = 32; a <= 127; a++) { auto x = c; x[i] = a; score(x); } }
    mc::note(t);
}
using Pt = std::array<double, 2>;
static double tour(std::span<const Pt> c, const std::vector<size_t>& t) { double s = 0; for (size_t i = 0; i < t.size(); i++) { auto& a = c[t[i]]; auto& b = c[t[(i + 1) % t.size()]]; s += std::sqrt(sq(a[0] - b[0]) + sq(a[1] - b[1])); } return s; }
static void small_tsp() {
    size_t n = mc::range(2, mc::depth(8, 9)); int set = mc::range(0, 3); std::vector<Pt> c; for (size_t i = 0; i < n; i++) c.push_back(set == 0 ? Pt{ double(i * i), double(i * 7 % 5) } : set == 1 ? Pt{ std::cos(2 * PI * i / n), std::sin(2 * PI * i / n) } : set == 2 ? Pt{ double(i % 3), double(i / 3) } : Pt{ double(i / 2), -double(i % 2) * 3.5 });
    std::vector<size_t> p(n - 1); std::iota(p.begin(), p.end(), 0); double best = INFINITY; do { auto t = p; t.push_back(n - 1); best = std::min(best, tour(c, t)); } while (std::next_permutation(p.begin(), p.end()));
    TSP f(c, -best); MC_CHECK(f.name() == "TSP" + std::to_string(n) && f.num_vars() == n - 1 && f.chrom_len() == n - 1 && f.bounds().size() == n - 1 && f.num_objectives() == 1 && f.optimal_value() == FitnessVector{ -best } && f.ideal_point() == f.optimal_value() && f.nadir_point() == f.optimal_value(), "wrong dimensions", "TSP of %zu cities", n);
    for (auto& b : f.bounds()) MC_CHECK(b.lower() == 0 && b.upper() == n - 2, "wrong bounds", "TSP");
    do { mc::step(); auto t = p; t.push_back(n - 1); double e = tour(c, t); FitnessVector y = f((Chromosome<PermutationGene>(p.begin(), p.end()))); MC_CHECK(y.size() == 1 && near(y[0], -e), "a value differs from the definition", "TSP of %zu cities %s: %.17g instead of %.17g", n, show(p).c_str(), y[0], -e); MC_CHECK(y[0] <= f.optimal_value()[0] + 1e-9, "the optimal value is exceeded", "TSP"); } while (std::next_permutation(p.begin(), p.end()));
}
// the built-in instances: every 2-exchange of a tour until no one improves it, evaluated by the library
static void big_tsp() {
    struct I { std::unique_ptr<TSP> f; std::span<const Pt> c; double opt; }; I in[] = { { std::make_unique<TSP52>(), tsp52_coords, 7542 }, { std::make_unique<TSP76>(), tsp76_coords, 108159 }, { std::make_unique<TSP124>(), tsp124_coords, 59030 }, { std::make_unique<TSP152>(), tsp152_coords, 73682 }, { std::make_unique<TSP226>(), tsp226_coords, 80369 }, { std::make_unique<TSP299>(), tsp299_coords, 48191 }, { std::make_unique<TSP439>(), tsp439_coords, 107217 } };
    auto& i = in[mc::range(0, 6)]; size_t n = i.c.size(), start = mc::range(0, 3) * (n - 1) / 3; MC_CHECK(i.f->name() == "TSP" + std::to_string(n) && i.f->num_vars() == n - 1 && i.f->bounds().size() == n - 1 && i.f->optimal_value() == FitnessVector{ -i.opt }, "wrong dimensions", "TSP%zu", n);
    std::vector<char> used(n, 0); std::vector<size_t> t{ start }; used[start] = 1; auto dist = [&](size_t a, size_t b) { return std::sqrt(sq(i.c[a][0] - i.c[b][0]) + sq(i.c[a][1] - i.c[b][1])); };
    while (t.size() < n) { size_t b = n; for (size_t j = 0; j < n; j++) if (!used[j] && (b == n || dist(t.back(), j) < dist(t.back(), b))) b = j; used[b] = 1; t.push_back(b); }
    auto check = [&]() { mc::step(); auto r = t; std::rotate(r.begin(), std::find(r.begin(), r.end(), n - 1) + 1, r.end()); double e = tour(i.c, r); r.pop_back(); double y = (*i.f)((Chromosome<PermutationGene>(r.begin(), r.end())))[0]; MC_CHECK(near(y, -e), "a value differs from the definition", "TSP%zu: %.17g instead of %.17g", n, y, -e); MC_CHECK(y <= -i.opt + 1e-6, "the optimal value is exceeded", "TSP%zu: %.17g", n, y); std::reverse(r.begin(), r.end()); MC_CHECK(near((*i.f)((Chromosome<PermutationGene>(r.begin(), r.end())))[0], y), "a tour and its reverse have different lengths", "TSP%zu", n); return -y; };
    double len = check(); for (bool better = true; better;) { better = false;
        for (size_t a = 0; a + 1 < n; a++) for (size_t b = a + 1; b < n; b++) { double d = dist(t[a], t[a + 1]) + dist(t[b], t[(b + 1) % n]) - dist(t[a], t[b]) - dist(t[a + 1], t[(b + 1) % n]); if (d > 1e-9) { std::reverse(t.begin() + a + 1, t.begin() + b + 1); better = true; double l = check(); MC_CHECK(l < len + 1e-6, "a shorter tour has a lower fitness", "TSP%zu", n); len = l; } }
        for (size_t a = 0; a < n && !better; a++) for (size_t k = 1; k <= 3; k++) { std::rotate(t.begin(), t.begin() + 1, t.end()); std::vector<size_t> s(t.begin(), t.begin() + k), r(t.begin() + k, t.end()); double gain = dist(t.back(), s[0]) + dist(s.back(), r[0]) - dist(t.back(), r[0]); for (size_t p = 0; p + 1 < r.size(); p++) { double add = dist(r[p], s[0]) + dist(s.back(), r[p + 1]) - dist(r[p], r[p + 1]); if (gain - add > 1e-9) { r.insert(r.begin() + p + 1, s.begin(), s.end()); t = r; better = true; len = check(); break; } } if (better) break; } }
    MC_CHECK(len < 1.15 * i.opt, "the optimal value is not the optimum of the cities", "TSP%zu: the best tour found has length %g", n, len);
    if (n == 52) { static const int best[] = { 1, 49, 32, 45, 19, 41, 8, 9, 10, 43, 33, 51, 11, 52, 14, 13, 47, 26, 27, 28, 12, 25, 4, 6, 15, 5, 24, 48, 38, 37, 40, 39, 36, 35, 34, 44, 46, 16, 29, 50, 20, 23, 30, 2, 7, 42, 21, 17, 3, 18, 31, 22 }; t.clear(); for (int b : best) t.push_back(b - 1); len = check(); MC_CHECK(std::abs(len - 7544.3659) < 1e-3, "the optimal value is not the optimum of the cities", "TSP52: %.17g", len); }
}
template<void(*F)()> static void run() { gSeen = 0; F(); mc::state(gSeen); }
static void setup() {
    mc::add_task("single-objective grids", run<single_grid>); mc::add_task("long single-objective", run<single_long>); mc::add_task("single-objective optima", run<single_optimum>); mc::add_task("two objectives", run<two>); mc::add_task("Kursawe front", run<kursawe_front>); mc::add_task("ZDT5", run<zdt5>);
    mc::add_task("DTLZ", run<dtlz>); mc::add_task("DTLZ optima", run<dtlz_optimum>); mc::add_task("every dimension", run<every_dimension>); mc::add_task("decoding", run<decoding>); mc::add_task("encodings", run<encodings>); mc::add_task("string finder", run<finder>); mc::add_task("all tours", run<small_tsp>); mc::add_task("built-in tours", run<big_tsp>);
}
MC_MAIN(setup)
