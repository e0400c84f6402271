// P34: numeric and functional helpers against their definitions.
#include "mc.hpp"
#include "utility/math.hpp"
#include "utility/functional.hpp"
#include "utility/utility.hpp"
#include "utility/scope_exit.hpp"
#include "utility/indestructible.hpp"
#include "utility/bounded_value.hpp"
#include <cmath>
#include <map>
#include <numeric>
#include <string>
#include <vector>
using namespace gapp; using mc::fmt; using V = std::vector<double>;
namespace {
std::string show(const V& v) { std::string s = "("; for (size_t i = 0; i < v.size() && i < 20; i++) s += fmt("%g ", v[i]); return s + ")"; }
bool near(long double a, long double b, long double tol = 1e-13L) { return a == b || std::abs(a - b) <= tol * std::max(std::abs(a), std::abs(b)); }
long double dot(const V& a, const V& b) { long double s = 0; for (size_t i = 0; i < a.size(); i++) s += (long double)a[i] * b[i]; return s; }
void check_one(const V& v) {
    mc::step(); long double n2 = dot(v, v); MC_CHECK(near(math::euclideanNorm(v), sqrtl(n2)), "the norm of a vector is wrong", "%s: %.17g", show(v).c_str(), math::euclideanNorm(v));
    if (n2 > 0) { V u = v; math::normalizeVector(u); for (size_t i = 0; i < v.size(); i++) MC_CHECK(near(u[i], v[i] / sqrtl(n2)), "a normalised vector is wrong", "%s: %s", show(v).c_str(), show(u).c_str()); }
    if (v.empty()) return; long double s = 0, a = 0; for (double x : v) s += x, a = std::max<long double>(a, std::abs(x)); s /= v.size(); MC_CHECK(std::abs(math::mean(v) - s) <= 1e-15L * a * (v.size() + 2), "the mean is wrong", "%s: %.17g", show(v).c_str(), math::mean(v));
    auto dev = [&](long double m) { long double d = 0; for (double x : v) d += (x - m) * (x - m); return v.size() == 1 ? 0.0L : sqrtl(d / v.size()); }; double d = math::stdDev(v); MC_CHECK(std::abs(d - dev(s)) <= 1e-13L * a + 1e-12L * dev(s), "the standard deviation is wrong", "%s: %.17g", show(v).c_str(), d); for (double m : { 0.0, double(s), v[0] + 1 }) MC_CHECK(std::abs(math::stdDev(v, m) - dev(m)) <= 1e-13L * a + 1e-12L * dev(m), "the deviation from a mean is wrong", "%s from %g: %.17g", show(v).c_str(), m, math::stdDev(v, m));
}
void check_two(const V& a, const V& b) {
    mc::step(); long double d = 0, v = 1; for (size_t i = 0; i < a.size(); i++) { long double x = (long double)a[i] - b[i]; d += x * x; v *= x; } MC_CHECK(near(math::euclideanDistanceSq(a, b), d), "the distance of two points is wrong", "%s %s: %.17g", show(a).c_str(), show(b).c_str(), math::euclideanDistanceSq(a, b)); MC_CHECK(near(math::volumeBetween(a, b), std::abs(v)), "the volume between two points is wrong", "%s %s: %.17g", show(a).c_str(), show(b).c_str(), math::volumeBetween(a, b));
    long double l2 = dot(a, a); if (l2 > 0) { long double p2 = dot(b, b), k = dot(a, b) / l2, want = 0; for (size_t i = 0; i < a.size(); i++) want += (b[i] - k * a[i]) * (b[i] - k * a[i]); double got = math::perpendicularDistanceSq(a, b); MC_CHECK(got >= 0 && std::abs(got - want) <= 1e-13L * p2, "the distance of a point from a line is wrong", "%s %s: %.17g", show(a).c_str(), show(b).c_str(), got); }
}
V pick(size_t n, int m) { V v; for (size_t i = 0; i < n; i++) v.push_back(mc::range(-m, m)); return v; }
void scaled(V& v) { double f = mc::pick({ 1.0, 0x1p-70, 0x1p70, 1.0 / 3 }); for (double& x : v) x *= f; }
void vectors(size_t n) { V v = pick(n, n < 4 ? 5 : 2); scaled(v); check_one(v); mc::state(mc::hbytes(v.data(), n * 8)); }
void pairs(size_t n) { int m = n < 2 ? 9 : n == 2 ? 3 : 1 + mc::thorough(); V a = pick(n, m), b = pick(n, m); check_two(a, b); for (double& x : a) x *= 0x1p-40; for (double& x : b) x *= 0x1p-40; check_two(a, b); mc::state(mc::hmix(mc::hbytes(a.data(), n * 8), mc::hbytes(b.data(), n * 8))); }
void longer() { size_t n = mc::range(4, mc::depth(140, 400)); int style = mc::range(0, 5); auto make = [&](int s) { V v; for (size_t i = 0; i < n; i++) v.push_back(s == 0 ? double(i) : s == 1 ? double(i % 2) : s == 2 ? double(n - i) - 0.5 : s == 3 ? (i + 1 == n ? 1e6 : 1.0) : s == 4 ? (i == 0 ? -1e3 : 2.0) : std::ldexp(1.0, int(i * 7 % 40) - 20)); return v; }; V a = make(style), b = make((style + 1) % 6); check_one(a); for (double& x : a) x /= 1024; if (n < 30) check_two(a, b); else { long double d = 0; for (size_t i = 0; i < n; i++) d += ((long double)a[i] - b[i]) * ((long double)a[i] - b[i]); MC_CHECK(near(math::euclideanDistanceSq(a, b), d, 1e-12L), "the distance of two points is wrong", "%zu", n); } }
/** The integral of sin^n over every pair of neighbouring grid points. */
void sines() {
    size_t n = mc::range(0, mc::depth(120, 400)); const int G = 64; const long double pi = acosl(-1.0L); auto f = [&](long double x) { return powl(sinl(x), n); };
    static const long double X[5] = { 0, 0.5384693101056830910L, -0.5384693101056830910L, 0.9061798459386639928L, -0.9061798459386639928L }, W[5] = { 0.5688888888888888889L, 0.4786286704993664680L, 0.4786286704993664680L, 0.2369268850561890875L, 0.2369268850561890875L };
    long double total = 0; for (int i = 0; i < G; i++) { long double a = pi * i / G, h = pi / G; long double q = 0; for (int s = 0; s < 8; s++) for (int k = 0; k < 5; k++) { long double m = a + h * (s + 0.5L) / 8; q += W[k] * f(m + X[k] * h / 16) * h / 16; } total += q; double got = math::integralSinPow(n, double(a + h)) - math::integralSinPow(n, double(a)); mc::step(); MC_CHECK(std::abs(got - q) < 1e-13L, "the integral of a power of the sine is wrong", "exponent %zu from %g: %.17g instead of %.17Lg", n, double(a), got, q); }
    MC_CHECK(std::abs(math::integralSinPow(n, double(pi)) - math::integralSinPow(n, 0.0) - total) < 1e-12L, "the integral of a power of the sine is wrong", "exponent %zu", n); mc::state(n);
}
template<typename T> void modulo(T mod) { T v = mod < T(300) ? T(mc::range(0, int(mod) - 1)) : mc::pick<T>({ T(0), T(1), T(mod / 2), T(mod - 2), T(mod - 1) }); T up = T((unsigned __int128)(v) + 1 == (unsigned __int128)(mod) ? 0 : v + 1), down = v == 0 ? T(mod - 1) : T(v - 1); T a = v, b = v; detail::increment_mod(a, mod); detail::decrement_mod(b, mod); mc::step(); MC_CHECK(detail::next_mod(v, mod) == up && a == up, "the next number modulo n is wrong", "%llu of %llu", (unsigned long long)v, (unsigned long long)mod); MC_CHECK(detail::prev_mod(v, mod) == down && b == down, "the previous number modulo n is wrong", "%llu of %llu", (unsigned long long)v, (unsigned long long)mod); }
template<typename T> void lengths() { auto lim = std::numeric_limits<T>::lowest(), max = std::numeric_limits<T>::max(); std::vector<T> a; for (int i = 0; i < 4; i++) { a.push_back(T(lim + i)); a.push_back(T(max - i)); a.push_back(T(i)); a.push_back(T(max / 2 + i - 1)); if (lim < 0) a.push_back(T(-i)); } T x = mc::pick_from(a), y = mc::pick_from(a); if (y < x) throw mc::Skip{}; mc::step(); MC_CHECK(detail::range_length(x, y) == std::uint64_t(__int128(y) - __int128(x)), "the length of a range is wrong", "%lld %lld", (long long)x, (long long)y); }
struct Live { static inline int n = 0; int id; Live(int i) : id(i) { n++; } Live(const Live& o) : id(o.id) { n++; } Live(Live&& o) noexcept : id(o.id) { o.id = -1; n++; } Live& operator=(const Live&) = default; ~Live() { id = -2; n--; } };
/** Sequences of operations on type-erased functions. */
void functions() {
    Live::n = 0; std::string w; { std::vector<detail::move_only_function<int(int)>> f(3); std::vector<int> want(3, -1), calls(3, 0); int fresh = 0; int target[3] = { -1, -1, -1 }; std::map<int, int> count;
        for (int k = 0; k < mc::depth(4, 5); k++) { int i = mc::range(0, 1), j = mc::range(0, 1); switch (mc::range(0, 6)) {
            case 0: { int id = fresh++; struct Only { Live l; std::unique_ptr<int> c = std::make_unique<int>(0); int operator()(int x) { return l.id * 1000 + x + 100 * (*c)++; } }; f[i] = Only{ Live(id) }; want[i] = id; count[id] = 0; w += fmt("f%d = object; ", i); break; }
            case 1: { int id = fresh++; auto l = [l = Live(id), c = 0](int x) mutable { return l.id * 1000 + x + 100 * c++; }; f[i] = detail::move_only_function<int(int)>(l); want[i] = id; count[id] = 0; w += fmt("f%d = lambda; ", i); break; }
            case 2: { f[i] = nullptr; want[i] = -1; w += fmt("f%d = nullptr; ", i); break; }
            case 3: { if (i == j) throw mc::Skip{}; f[i] = std::move(f[j]); want[i] = want[j]; want[j] = -1; w += fmt("f%d = move f%d; ", i, j); break; }
            case 4: { f[i].swap(f[j]); std::swap(want[i], want[j]); w += fmt("swap f%d f%d; ", i, j); break; }
            case 5: { if (want[i] < 0) throw mc::Skip{}; int r = f[i](7), e = want[i] * 1000 + 7 + 100 * count[want[i]]++; MC_CHECK(r == e, "a stored function gives another result", "%s: %d instead of %d", w.c_str(), r, e); w += fmt("call f%d; ", i); break; }
            case 6: { if (i == 0) { detail::move_only_function<int(int)> g(std::move(f[j])); std::swap(f[j], g); } else { auto g = std::move(f[j]); f[j] = std::move(g); } w += fmt("move f%d there and back; ", j); break; } }
            mc::step(); for (int t = 0; t < 3; t++) MC_CHECK(bool(f[t]) == (want[t] >= 0), "a stored function is lost", "%s: f%d", w.c_str(), t); int live = (want[0] >= 0) + (want[1] >= 0); MC_CHECK(Live::n == live, "a stored function is not destroyed once", "%s: %d instead of %d", w.c_str(), Live::n, live); (void)target; mc::state(mc::hbytes(w.data(), w.size())); } }
    MC_CHECK(Live::n == 0, "a stored function is not destroyed once", "%s: %d left", w.c_str(), Live::n);
}
int free_function(int x) { return x + 1; }
void references() {
    std::string w; struct Obj { int c; int operator()(int x) { return c++ * 10 + x; } } a{ 1 }, b{ 5 }; auto lam = [](int x) { return -x; }; detail::function_ref<int(int)> f[2]; int want[2] = { -1, -1 }; int ca = 1, cb = 5;
    for (int k = 0; k < mc::depth(4, 5); k++) { int i = mc::range(0, 1); switch (mc::range(0, 6)) { case 0: f[i] = a; want[i] = 0; w += fmt("f%d = a; ", i); break; case 1: f[i] = b; want[i] = 1; w += fmt("f%d = b; ", i); break; case 2: f[i] = detail::function_ref<int(int)>(lam); want[i] = 2; w += fmt("f%d = lambda; ", i); break; case 3: f[i] = detail::function_ref<int(int)>(nullptr); want[i] = -1; w += fmt("f%d = nullptr; ", i); break; case 4: f[i] = f[1 - i]; want[i] = want[1 - i]; w += fmt("f%d = f%d; ", i, 1 - i); break;
            case 5: { if (want[i] < 0) throw mc::Skip{}; int r = f[i](3), e = want[i] == 0 ? ca++ * 10 + 3 : want[i] == 1 ? cb++ * 10 + 3 : -3; MC_CHECK(r == e, "a referenced function gives another result", "%s: %d instead of %d", w.c_str(), r, e); w += fmt("call f%d; ", i); break; } case 6: { detail::function_ref<int(int)> g(f[i]); f[1 - i] = g; want[1 - i] = want[i]; w += fmt("copy f%d; ", i); break; } }
        mc::step(); for (int t = 0; t < 2; t++) MC_CHECK(bool(f[t]) == (want[t] >= 0), "a function reference is lost", "%s: f%d", w.c_str(), t); MC_CHECK(a.c == ca && b.c == cb, "a referenced function is copied", "%s", w.c_str()); mc::state(mc::hbytes(w.data(), w.size())); }
}
/** Scope guards, left normally or by an exception, in every nesting. */
void scopes() {
    int depth = mc::range(1, 3); std::vector<int> kinds; for (int i = 0; i < depth; i++) kinds.push_back(mc::range(0, 3)); int throw_at = mc::range(0, depth); std::vector<int> log, want; int x = 1; std::string s = "long enough to be on the heap"; const std::string s0 = s; std::vector<int> v{ 1, 2, 3 };
    auto rec = [&](auto& self, int d) -> void { if (d == depth) { if (throw_at == depth) throw 1; return; } auto next = [&] { x += 10; s += "x"; v.push_back(9); if (throw_at == d) throw 1; self(self, d + 1); };
        switch (kinds[d]) { case 0: { detail::scope_exit g{ [&, d] { log.push_back(d); } }; next(); break; } case 1: { detail::scope_exit g{ [&, d] { log.push_back(d); } }; g.release(); next(); break; }
            case 2: { int x1 = x; std::string s1 = s; auto v1 = v; struct After { std::vector<int>& l; int &x, x1; std::string &s, &s1; std::vector<int>&v, &v1; ~After() { if (x != x1 || s != s1 || v != v1) l.push_back(-1); } } after{ log, x, x1, s, s1, v, v1 }; detail::restore_on_exit g{ x, s, v }; next(); break; } case 3: { int x1 = x; struct After { std::vector<int>& l; int &x, x1; ~After() { if (x != x1) l.push_back(-2); } } after{ log, x, x1 }; detail::restore_on_exit g{ x }; next(); break; } } };
    bool thrown = false; try { rec(rec, 0); } catch (int) { thrown = true; } mc::step(); for (int d = std::min(depth - 1, throw_at); d >= 0; d--) if (kinds[d] == 0) want.push_back(d); MC_CHECK(thrown, "an exception is lost", " "); std::string text; for (int k : kinds) text += fmt("%d ", k); MC_CHECK(log == want, "a scope guard does not act once, at the end of its scope", "%s thrown at %d", text.c_str(), throw_at); mc::state(mc::hbytes(text.data(), text.size(), throw_at));
}
void quiet_scopes() { std::vector<int> log; int k = mc::range(0, 1); { detail::scope_exit a{ [&] { log.push_back(1); } }; detail::scope_exit b{ [&] { log.push_back(2); } }; if (k) a.release(); } MC_CHECK(log == (k ? std::vector<int>{ 2 } : std::vector<int>{ 2, 1 }), "a scope guard does not act once, at the end of its scope", "%d", k); int x = 3; { detail::restore_on_exit g{ x }; x = 4; } MC_CHECK(x == 3, "a variable is not restored", "%d", x); mc::step();
    Live::n = 0; { detail::Indestructible<Live> l(5); MC_CHECK(Live::n == 1 && l->id == 5 && (*l).id == 5 && l.get().id == 5 && static_cast<Live&>(l).id == 5, "an indestructible object is wrong", " "); } MC_CHECK(Live::n == 1, "an indestructible object is destroyed", " "); std::vector<int> v{ 1, 2, 3 }; size_t cap = mc::range(0, 40); detail::clear_reserve(v, cap); MC_CHECK(v.empty() && v.capacity() >= cap, "a vector is not cleared and reserved", "%zu", cap); }
/** Function objects. */
void objects() { int a = mc::range(-3, 3), b = mc::range(-3, 3), c = mc::range(-3, 3); mc::step(); auto w = fmt("%d %d %d", a, b, c); using namespace detail; MC_CHECK(multiply_by(a)(b) == b * a && add(a)(b) == b + a && subtract(a)(b) == b - a && multiply_add(a, c)(b) == a * b + c && (a == 0 || divide_by(a)(b) == b / a) && (a == 0 || divide_by(double(a))(b) == b / double(a)), "an arithmetic function object is wrong", "%s", w.c_str());
    MC_CHECK(detail::equal_to(a)(b) == (b == a) && detail::not_equal_to(a)(b) == (b != a) && greater_than(a)(b) == (b > a) && greater_eq_than(a)(b) == (b >= a) && less_than(a)(b) == (b < a) && less_eq_than(a)(b) == (b <= a) && between(a, c)(b) == (a <= b && b <= c), "a comparing function object is wrong", "%s", w.c_str()); std::vector<int> v{ a, b, c }; MC_CHECK(is_size(3)(v) && !is_size(2)(v) && element_at(0)(v) == a && element_at(2)(v) == c, "a container function object is wrong", "%s", w.c_str());
    auto half = [](const int& x) { return x / 2.0; }; MC_CHECK((detail::map(v, half) == std::vector<double>{ a / 2.0, b / 2.0, c / 2.0 }) && (detail::map(std::array<int, 3>{ a, b, c }, half) == std::array<double, 3>{ a / 2.0, b / 2.0, c / 2.0 }) && detail::map(std::vector<int>{}, half).empty(), "a mapped container is wrong", "%s", w.c_str()); std::vector<std::vector<int>> vv{ { a }, { b, c }, {} }; MC_CHECK((detail::map(vv, [](const auto& x) { return x.size(); }) == std::vector<size_t>{ 1, 2, 0 }) && (detail::map(vv, &std::vector<int>::size) == std::vector<size_t>{ 1, 2, 0 }), "a mapped container is wrong", "%s", w.c_str()); MC_CHECK(Fn<free_function>(a) == a + 1, "a function constant is wrong", "%s", w.c_str()); }
/** Intervals with every combination of included ends. */
void intervals() { static const V vals{ -INFINITY, -1e308, -2, -1, -0.0, 0.0, 5e-324, 1 - 1e-16, 1, 1 + 3e-16, 2, 1e308, INFINITY }; double l = mc::pick_from(vals), r = mc::pick_from(vals), x = mc::pick_from(vals); bool li = mc::flip(), ri = mc::flip(); if (r < l) throw mc::Skip{}; mc::step(); bool want = (li ? l <= x : l < x) && (ri ? x <= r : x < r); MC_CHECK((detail::Interval<double>{ l, r, li, ri }.contains(x)) == want, "an interval contains the wrong values", "%g in %g, %g (%d %d)", x, l, r, li, ri);
    if (x >= 0 && x <= 1) { Probability p = x; Normalized<double> q = x; MC_CHECK(double(p) == x && double(q) == x, "a bounded value is changed", "%g", x); } if (x > 0 && x < INFINITY) { Positive<double> p = x; NonNegative<double> q = x; Negative<double> n = -x; MC_CHECK(double(p) == x && double(q) == x && double(n) == -x, "a bounded value is changed", "%g", x); } MC_CHECK(Positive<size_t>::lower_bound == 0 && !Positive<size_t>::left_inclusive && NonNegative<int>::left_inclusive && !Negative<int>::right_inclusive && Probability::upper_bound == 1.0 && Probability::right_inclusive, "the bounds of a bounded value are wrong", " "); }
void setup() {
    for (size_t n = 0; n <= 5; n++) mc::add_task(fmt("vectors %zu", n), [=] { vectors(n); }); for (size_t n = 0; n <= 4; n++) mc::add_task(fmt("pairs %zu", n), [=] { pairs(n); }); mc::add_task("longer vectors", longer); mc::add_task("integrals", sines);
    for (unsigned m : { 1u, 2u, 3u, 7u, 8u, 127u, 128u, 200u, 255u }) { mc::add_task(fmt("modulo 8 %u", m), [=] { modulo<std::uint8_t>(std::uint8_t(m)); }); mc::add_task(fmt("modulo %u", m), [=] { modulo<size_t>(m); }); } for (size_t m : { size_t(1) << 32, (size_t(1) << 32) + 1, size_t(1) << 63, ~size_t(0) }) mc::add_task(fmt("modulo %zu", m), [=] { modulo<size_t>(m); });
    mc::add_task("lengths 64", lengths<std::int64_t>); mc::add_task("lengths 32", lengths<int>); mc::add_task("lengths u64", lengths<std::uint64_t>); mc::add_task("lengths 8", lengths<std::int8_t>); mc::add_task("functions", functions); mc::add_task("function references", references); mc::add_task("scopes", scopes); mc::add_task("scopes without exceptions", quiet_scopes); mc::add_task("function objects", objects); mc::add_task("intervals", intervals);
}
}
MC_MAIN(setup)
