// P28: tolerant floating point comparisons and Pareto comparisons.
#include "mc.hpp"
#include "utility/math.hpp"
#include <cmath>
#include <cfloat>
#include <array>
using namespace gapp::math;

template<typename T> std::vector<T> alphabet() {
    using L = std::numeric_limits<T>;
    const T I = L::infinity(), one = 1;
    std::vector<T> v = { 0, L::denorm_min(), L::min(), T(1e-12), std::nextafter(T(1e-12), T(1)), T(1.5e-12), T(2e-12), T(0.5), T(0.9), std::nextafter(one, T(0)), one, T(1) + L::epsilon(), T(1) + 9 * L::epsilon(),
        T(1) + 10 * L::epsilon(), T(1) + 11 * L::epsilon(), T(1) + 12 * L::epsilon(), T(1.05), T(1.1), T(1.5), T(2), T(3), T(1000), T(1000) * (1 + 9 * L::epsilon()), T(1000) * (1 + 11 * L::epsilon()), T(1050), T(1e20), T(1e20) * (1 + 11 * L::epsilon()), L::max() / 2, std::nextafter(L::max(), T(0)), L::max(), I };
    size_t n = v.size(); for (size_t i = 1; i < n; i++) v.push_back(-v[i]);
    return v;
}
static const double ABS[] = { 0.0, 1e-12, 1e-6, 0.5, 1.0, 1e30 };
static const double REL[] = { 0.0, 10 * eps<double>, 1e-6, 0.05, 0.5, 1.0 };

template<typename T> void pairs(double abs, double rel) {
    static const auto V = alphabet<T>();
    ScopedTolerances st(abs, rel);
    T a = mc::pick_from(V), b = mc::pick_from(V); mc::step(8);
    const bool eq = floatIsEqual(a, b), lt = floatIsLess(a, b), gt = floatIsGreater(a, b), le = floatIsLessEq(a, b), ge = floatIsGreaterEq(a, b);
    const auto c = floatCompare(a, b);
    auto S = [&] { return mc::fmt("a=%.17g b=%.17g abs=%g rel=%g: equal %d less %d greater %d lesseq %d greatereq %d compare %d", (double)a, (double)b, abs, rel, eq, lt, gt, le, ge, c < 0 ? -1 : c > 0 ? 1 : 0); };
    MC_CHECK(eq + lt + gt == 1, "not exactly one of less, equal, greater holds", "%s", S().c_str());
    MC_CHECK(le == !gt && ge == !lt, "less-equal and greater-equal disagree with less and greater", "%s", S().c_str());
    MC_CHECK((c == 0) == eq && (c < 0) == lt && (c > 0) == gt, "the three-way comparison disagrees", "%s", S().c_str());
    MC_CHECK(floatIsEqual(b, a) == eq && floatIsLess(b, a) == gt && floatIsGreater(b, a) == lt && (floatCompare(b, a) < 0) == (c > 0), "comparison is not symmetric", "%s", S().c_str());
    MC_CHECK(floatIsEqual(a, a) && !floatIsLess(a, a) && !floatIsGreater(a, a) && floatCompare(a, a) == 0, "equality is not reflexive", "%s", S().c_str());
    if (!gt) MC_CHECK(floatIsLessAssumeNotGreater(a, b) == lt, "less-assuming-not-greater disagrees with less", "%s", S().c_str());
    if (abs == 0 && rel == 0) MC_CHECK(eq == (a == b) && lt == (a < b) && gt == (a > b), "not exact with zero tolerances", "%s", S().c_str());
    if (lt) MC_CHECK(a < b, "less for a value that is not less", "%s", S().c_str());
    if (gt) MC_CHECK(a > b, "greater for a value that is not greater", "%s", S().c_str());
    if (std::isinf(a) || std::isinf(b)) MC_CHECK(eq == (a == b), "an infinity equals another value", "%s", S().c_str());
    else { // the definition, with a margin for the rounding of the reference itself
        long double d = std::fabs((long double)a - b), tol = std::max((long double)rel * std::max(std::fabs((long double)a), std::fabs((long double)b)), (long double)abs);
        long double m = 8 * (long double)std::numeric_limits<T>::epsilon();
        if (d > tol * (1 + m) + std::numeric_limits<T>::denorm_min() * 2) MC_CHECK(!eq, "equal although further apart than the tolerance", "%s", S().c_str());
        if (d < tol * (1 - m)) MC_CHECK(eq, "not equal although closer than the tolerance", "%s", S().c_str());
    }
    mc::state(mc::hmix(mc::hbytes(&a, sizeof a), mc::hbytes(&b, sizeof b)));
    if (a == 1 && b == 1) mc::sample(S());
}

// Vectors
static void vectors(int len, double abs, double rel) {
    static const std::vector<double> G[] = { { 0, 1, 2 }, { -2, -1.05, -1, 0, 1, 1.05, 2, inf<double>, -inf<double> } };
    const auto& g = len <= 2 ? G[1] : G[0];
    ScopedTolerances st(abs, rel);
    std::vector<double> a(len), b(len);
    for (auto& x : a) x = mc::pick_from(g);
    for (auto& x : b) x = mc::pick_from(g);
    bool anyl = false, anyg = false, alleq = true;
    for (int i = 0; i < len; i++) { anyl |= floatIsLess(a[i], b[i]); anyg |= floatIsGreater(a[i], b[i]); alleq &= floatIsEqual(a[i], b[i]); }
    mc::step(4);
    int want = anyl && anyg ? 0 : anyl ? -1 : anyg ? 1 : 0;
    std::string S; for (double x : a) S += mc::fmt("%g ", x); S += "| "; for (double x : b) S += mc::fmt("%g ", x); S += mc::fmt("abs=%g rel=%g", abs, rel);
    MC_CHECK(paretoCompare(a, b) == want, "three-way Pareto comparison is wrong", "%s: %d instead of %d", S.c_str(), paretoCompare(a, b), want);
    MC_CHECK(paretoCompare(b, a) == -want, "Pareto comparison is not antisymmetric", "%s", S.c_str());
    MC_CHECK(paretoCompareLess(a, b) == (want == -1) && paretoCompareLess(b, a) == (want == 1), "Pareto dominance is wrong", "%s: %d", S.c_str(), paretoCompareLess(a, b));
    MC_CHECK(!paretoCompareLess(a, a) && paretoCompare(a, a) == 0, "a vector dominates itself", "%s", S.c_str());
    MC_CHECK(floatVecIsEqual(std::span<const double>(a), std::span<const double>(b)) == alleq, "vector equality is wrong", "%s", S.c_str());
    if (len) MC_CHECK(!floatVecIsEqual(std::span<const double>(a), std::span<const double>(b).first(len - 1)), "vectors of different lengths are equal", "%s", S.c_str());
    uint64_t h = len; for (double x : a) h = mc::hmix(h, (int64_t)(x * 100)); for (double x : b) h = mc::hmix(h, (int64_t)(x * 100)); mc::state(h);
}

// all nestings of scopes up to depth 4, some left by an exception
struct Boom {};
static void scopes(int depth) {
    double A = Tolerances::abs(), R = Tolerances::rel(1.0); mc::step();
    if (depth == 0) return;
    double a = mc::pick({ 0.0, 0.5, 1e-9 }), r = mc::pick({ 0.0, 0.25 });
    bool thrw = mc::flip();
    try {
        ScopedTolerances st(a, r);
        MC_CHECK(Tolerances::abs() == a && Tolerances::rel(1.0) == r && Tolerances::rel(4.0) == 4 * r && Tolerances::abs<float>() == float(a), "new tolerances are not in force", "%g %g", a, r);
        scopes(depth - 1);
        MC_CHECK(Tolerances::abs() == a && Tolerances::rel(1.0) == r, "inner scope did not restore the tolerances", "%g %g", a, r);
        if (thrw) throw Boom();
    } catch (Boom&) {}
    MC_CHECK(Tolerances::abs() == A && Tolerances::rel(1.0) == R, "tolerances are not restored at scope exit", "abs %g instead of %g, rel %g instead of %g", Tolerances::abs(), A, Tolerances::rel(1.0), R);
}

static void setup() {
    for (double a : ABS) for (double r : REL) {
        mc::add_task(mc::fmt("double abs=%g rel=%g", a, r), [=] { pairs<double>(a, r); });
        mc::add_task(mc::fmt("float abs=%g rel=%g", a, r), [=] { pairs<float>(a, r); });
        for (int n = 0; n <= (mc::thorough() ? 4 : 3); n++) mc::add_task(mc::fmt("pareto n=%d abs=%g rel=%g", n, a, r), [=] { vectors(n, a, r); });
    }
    mc::add_task("scopes", [] { scopes(mc::thorough() ? 4 : 3); });
}
MC_MAIN(setup)
