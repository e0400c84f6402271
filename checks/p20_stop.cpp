// P20: stop conditions fire at the first generation at which their definition holds, alone and combined, in every run.
#include "mc.hpp"
#include "ga_script.hpp"
#include <memory>
using namespace gs; using namespace stopping;

// what every generation looks like to the stop conditions
struct Gen { VV fit; size_t evals; };
using Hist = std::vector<Gen>;
// the definitions, evaluated for every generation in order
struct Model { virtual ~Model() = default; virtual void init() {} virtual bool at(const Hist& h, size_t g) = 0; };
using MP = std::unique_ptr<Model>;
struct MEvals : Model { size_t n; explicit MEvals(size_t n_) : n(n_) {} bool at(const Hist& h, size_t g) override { return h[g].evals >= n; } };
struct MValue : Model { V t; explicit MValue(V t_) : t(std::move(t_)) {} bool at(const Hist& h, size_t g) override { for (auto& f : h[g].fit) { bool ok = true; for (size_t k = 0; k < t.size(); k++) ok &= f[k] >= t[k]; if (ok) return true; } return false; } };
struct MStall : Model { bool mean; size_t patience; double delta; V best; size_t since = 0; MStall(bool m, size_t p, double d) : mean(m), patience(p), delta(d) {} void init() override { best.clear(); since = 0; }
    bool at(const Hist& h, size_t g) override { size_t d = h[g].fit[0].size(); V cur(d, mean ? 0.0 : -INF); for (auto& f : h[g].fit) for (size_t k = 0; k < d; k++) cur[k] = mean ? cur[k] + f[k] / h[g].fit.size() : std::max(cur[k], f[k]);
        if (best.empty()) best = V(d, -INF); bool imp = false; for (size_t k = 0; k < d; k++) if (cur[k] >= best[k] + delta) { best[k] = cur[k]; imp = true; } since = imp ? 0 : since + 1; return since > patience; } };
// a condition with its own history: true at the n-th, (n+p)-th, ... time it is asked in a run
struct Nth final : StopCondition { size_t n, p, cnt = 0; Nth(size_t n_, size_t p_) : n(n_), p(p_) {} void initialize(const GaInfo&) override { cnt = 0; } bool stop_condition(const GaInfo&) override { cnt++; return cnt >= n && (cnt - n) % p == 0; } };
struct MNth : Model { size_t n, p, cnt = 0; MNth(size_t n_, size_t p_) : n(n_), p(p_) {} void init() override { cnt = 0; } bool at(const Hist&, size_t) override { cnt++; return cnt >= n && (cnt - n) % p == 0; } };
struct MConst : Model { bool at(const Hist&, size_t) override { return false; } };
struct MBin : Model { MP a, b; bool conj; MBin(MP a_, MP b_, bool c) : a(std::move(a_)), b(std::move(b_)), conj(c) {} void init() override { a->init(); b->init(); } bool at(const Hist& h, size_t g) override { bool x = a->at(h, g), y = b->at(h, g); return conj ? x && y : x || y; } };
struct MNot : Model { MP a; explicit MNot(MP a_) : a(std::move(a_)) {} void init() override { a->init(); } bool at(const Hist& h, size_t g) override { return !a->at(h, g); } };
static MP And(MP a, MP b) { return std::make_unique<MBin>(std::move(a), std::move(b), true); } static MP Or(MP a, MP b) { return std::make_unique<MBin>(std::move(a), std::move(b), false); } static MP Not(MP a) { return std::make_unique<MNot>(std::move(a)); }

static std::string showh(const Hist& h) { std::string s; for (auto& g : h) s += show(g.fit) + mc::fmt("%zu evals | ", g.evals); return s; }
// runs the script and compares the number of generations with the model
static void run(Script& s, const std::vector<VV>& script, Model& m, const char* what) {
    mc::step(); mc::state(mc::hmix(hash(script), mc::hbytes(what, strlen(what)))); size_t gens = 0; s.ga.on_generation_end([&](const GaInfo&) { gens++; }); s.run(script);
    Hist h; size_t n = script[0].size(); for (size_t g = 0; g < script.size(); g++) h.push_back({ script[g], n * (g + 1) });
    m.init(); size_t expect = 0; while (expect < script.size()) { bool stop = m.at(h, expect); expect++; if (stop) break; }
    MC_CHECK(gens == expect, gens < expect ? "a run stopped too early" : "a run did not stop in time", "%s: %zu generations instead of %zu, history %s", what, gens, expect, showh(h).c_str());
    MC_CHECK(s.ga.generation_cntr() + 1 == expect, "the generation counter does not show the last generation", "%zu", s.ga.generation_cntr());
}
static void stall(int gens, int n, int d, V a, bool mean) {
    static const double D[] = { 0, 0.5, 1, 1.5 }; size_t p = mc::range(0, 3); double del = D[mc::range(0, 3)]; auto h = history(gens, n, d, a);
    Script s(n); bool setter = mc::flip(); MStall m(mean, p, del); std::string w = mc::fmt("%s(%zu, %g)", mean ? "FitnessMeanStall" : "FitnessBestStall", p, del);
    if (mean) { FitnessMeanStall c(setter ? 0 : p, setter ? 7.0 : del); if (setter) c.patience(p), c.delta(del); s.ga.stop_condition(c); } else { FitnessBestStall c(setter ? 0 : p, setter ? 7.0 : del); if (setter) c.patience(p), c.delta(del); s.ga.stop_condition(c); }
    run(s, h, m, w.c_str());
}
static void defaults() { bool mean = mc::flip(); auto h = history(4, 1, 1, { 0, 1e-7, 1e-5, -1 }); Script s(1); MStall m(mean, 0, 1e-6); if (mean) s.ga.stop_condition(FitnessMeanStall{}); else s.ga.stop_condition(FitnessBestStall{}); run(s, h, m, mean ? "FitnessMeanStall{}" : "FitnessBestStall{}"); }
static void value(int gens, int n, int d, V a) { V t; for (int k = 0; k < d; k++) t.push_back(mc::pick({ 0.0, 1.0, 1.5 })); auto h = history(gens, n, d, a); Script s(n); MValue m(t); if (mc::flip()) s.ga.stop_condition(FitnessValue{ fv(t) }); else { FitnessValue c{ fv(V(d, -9)) }; c.fitness_threshold(fv(t)); s.ga.stop_condition(c); } run(s, h, m, "FitnessValue"); }
static void evals() { int n = mc::range(1, 4), gens = mc::range(1, 6), lim = mc::range(0, 25); std::vector<VV> h(gens, VV(n, V{ 0 })); Script s(n); MEvals m(lim); if (mc::flip()) s.ga.stop_condition(FitnessEvals{ (size_t)lim }); else { FitnessEvals c{ 99 }; c.max_fitness_evals(lim); s.ga.stop_condition(c); } run(s, h, m, mc::fmt("FitnessEvals(%d)", lim).c_str()); }
// evaluations that are saved are not counted
static void evals_static() {
    int n = 3, gens = 4; std::vector<int> per(gens); per[0] = n; for (int g = 1; g < gens; g++) per[g] = mc::range(0, n); int lim = mc::range(0, 13), m = 0, id = 0, count = 0; BinaryGA ga(n); ga.algorithm(std::make_unique<TakeChildren>()); ga.crossover_rate(0.0); ga.stop_condition(FitnessEvals{ (size_t)lim });
    ga.mutation_method([&](const GA<BinaryGene>&, const Candidate<BinaryGene>&, Chromosome<BinaryGene>& c) { int g = 1 + m / n, i = m % n; m++; if (i < per[g]) { id++; for (int b = 0; b < 8; b++) c[b] = (id >> b) & 1; c[8] = 1; } }); ga.on_generation_end([&](const GaInfo&) { count++; });
    Population<BinaryGene> init; for (int i = 0; i < n; i++) { Candidate<BinaryGene> c(size_t(9)); c.chromosome[i] = 1; init.push_back(c); }
    ga.solve(Fit([&](const Chromosome<BinaryGene>&) { return FitnessVector{ 1.0 }; }, false, 9), gens, init); int sum = 0, expect = 0; while (expect < gens) { sum += per[expect++]; if (sum >= lim) break; } mc::step(); MC_CHECK(count == expect, count < expect ? "a run stopped too early" : "a run did not stop in time", "FitnessEvals(%d) with %d %d %d changes: %d instead of %d", lim, per[1], per[2], per[3], count, expect);
}
static void plain() { int gens = mc::range(1, 5), k = mc::range(0, 2), when = mc::range(0, 5); std::vector<VV> h(gens, VV(1, V{ 0 })); Script s(1); MConst m; size_t asked = 0; if (k == 0) s.ga.stop_condition(nullptr); else if (k == 1) s.ga.stop_condition(NoEarlyStop{}); else s.ga.stop_condition([&](const GaInfo& ga) { if (ga.generation_cntr() != asked) mc::fail_later("the stop condition sees a wrong generation", mc::fmt("%zu", ga.generation_cntr())); return asked++ == (size_t)when; });
    if (k == 2) { MNth n(when + 1, 100); run(s, h, n, "lambda"); } else run(s, h, m, "none"); }

// composites over condition types
static void comp(int which, const std::vector<VV>& h, int runs) {
    Script s(h[0].size()); size_t p1 = mc::range(0, 2), p2 = mc::range(0, 2); MP m; auto A = [&] { return FitnessBestStall{ p1, 1.0 }; }; auto MA = [&]() -> MP { return std::make_unique<MStall>(false, p1, 1.0); }; auto B = [&] { return Nth{ p2 + 1, 2 }; }; auto MB = [&]() -> MP { return std::make_unique<MNth>(p2 + 1, 2); }; auto C = [&] { return FitnessValue{ FitnessVector{ 2.0 } }; }; auto MC = [&]() -> MP { return std::make_unique<MValue>(V{ 2.0 }); };
    switch (which) {
        case 0: s.ga.stop_condition(A() && B()); m = And(MA(), MB()); break; case 1: s.ga.stop_condition(A() || B()); m = Or(MA(), MB()); break; case 2: s.ga.stop_condition(!A()); m = Not(MA()); break; case 3: s.ga.stop_condition(!!B()); m = Not(Not(MB())); break;
        case 4: s.ga.stop_condition((A() || C()) && B()); m = And(Or(MA(), MC()), MB()); break; case 5: s.ga.stop_condition((C() || A()) && B()); m = And(Or(MC(), MA()), MB()); break; case 6: s.ga.stop_condition(B() && (C() || A())); m = And(MB(), Or(MC(), MA())); break; case 7: s.ga.stop_condition((B() || A()) && A()); m = And(Or(MB(), MA()), MA()); break;
        case 8: s.ga.stop_condition((A() && C()) || B()); m = Or(And(MA(), MC()), MB()); break; case 9: s.ga.stop_condition(!(C() || A())); m = Not(Or(MC(), MA())); break; case 10: s.ga.stop_condition(!(C() && A()) && B()); m = And(Not(And(MC(), MA())), MB()); break; case 11: s.ga.stop_condition((!C() || A()) && B()); m = And(Or(Not(MC()), MA()), MB()); break;
        case 12: s.ga.stop_condition((C() || B()) && A()); m = And(Or(MC(), MB()), MA()); break; case 13: s.ga.stop_condition(!(!C() && !A()) && B()); m = And(Not(And(Not(MC()), Not(MA()))), MB()); break; case 14: s.ga.stop_condition((A() && A()) || (B() && C())); m = Or(And(MA(), MA()), And(MB(), MC())); break; case 15: s.ga.stop_condition((C() || B()) && (A() || C())); m = And(Or(MC(), MB()), Or(MA(), MC())); break;
        case 16: s.ga.stop_condition(!B() && A()); m = And(Not(MB()), MA()); break; case 17: s.ga.stop_condition(A() && !B()); m = And(MA(), Not(MB())); break; case 18: s.ga.stop_condition((FitnessMeanStall{ p1, 0.5 } || C()) && B()); m = And(Or(std::make_unique<MStall>(true, p1, 0.5), MC()), MB()); break; case 19: s.ga.stop_condition(FitnessEvals{ p1 + 2 } && !C()); m = And(std::make_unique<MEvals>(p1 + 2), Not(MC())); break;
    }
    for (int r = 0; r < runs; r++) { auto x = h; if (r) for (auto& g : x) for (auto& f : g) for (double& v : f) v = mc::flip() ? 2 : 0; run(s, x, *m, mc::fmt("composite %d run %d (%zu, %zu)", which, r, p1, p2).c_str()); }
}
// the same object in several runs
static void fresh() { bool mean = mc::flip(); size_t p = mc::range(0, 2); Script s(1); MStall m(mean, p, 1); if (mean) s.ga.stop_condition(FitnessMeanStall{ p, 1 }); else s.ga.stop_condition(FitnessBestStall{ p, 1 }); for (int r = 0; r < 3; r++) { int d = mc::range(1, 2); run(s, history(d == 1 ? 3 : 2, 1, d, { 0, 5 }), m, mc::fmt("run %d", r).c_str()); } }
// long runs, large populations and many objectives
static void long_stall(bool mean) {
    int p = mc::pick({ 4, 7, 15, 16, 31, 63, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300 }), n = mc::pick({ 1, 4 }), first = mc::pick({ 0, 1, p - 1, p, p + 1 }), second = mc::pick({ 0, 1, p, p + 1 }); std::vector<VV> h; double v = 0;
    for (int g = 0; g < 3 * p + 12; g++) { if (first && (g == first || (second && g == first + second))) v += 4; VV f(n, V{ v - g % 3 }); f[g % n] = V{ v }; if (mean) for (auto& x : f) x = V{ v }; h.push_back(f); }
    Script s(n); MStall m(mean, p, 1.0); if (mean) s.ga.stop_condition(FitnessMeanStall{ size_t(p), 1.0 }); else s.ga.stop_condition(FitnessBestStall{ size_t(p), 1.0 }); run(s, h, m, mc::fmt("%s(%d, 1), improvements at %d and %d more", mean ? "FitnessMeanStall" : "FitnessBestStall", p, first, second).c_str());
}
static void long_evals() { int n = mc::pick({ 1, 3, 20 }), lim = mc::pick({ 26, 60, 100, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 511, 512, 600 }), gens = std::min(lim / n + 5, 400); std::vector<VV> h(gens, VV(n, V{ 0 })); Script s(n); MEvals m(lim); s.ga.stop_condition(FitnessEvals{ (size_t)lim }); run(s, h, m, mc::fmt("FitnessEvals(%d)", lim).c_str()); }
static void many_evals() { int n = mc::pick({ 256, 700 }), lim = mc::pick({ 32768, 65535, 65536, 65537, 66000 }), gens = lim / n + 3; std::vector<VV> h(gens, VV(n, V{ 0 })); Script s(n); MEvals m(lim); s.ga.stop_condition(FitnessEvals{ (size_t)lim }); run(s, h, m, mc::fmt("FitnessEvals(%d)", lim).c_str()); }
static void wide_value() { // one candidate out of many reaches the threshold, in the given generation; the others miss it in one objective each
    int n = mc::pick({ 1, 2, 5, 33, 64, 70 }), d = mc::pick({ 1, 2, 3, 5, 9 }), at = mc::pick({ 0, 1, 3 }), who = mc::pick({ 0, n / 2, n - 1 }), miss = mc::range(0, d - 1); std::vector<VV> h; for (int g = 0; g < 5; g++) { VV f(n, V(d, 2.0)); for (int i = 0; i < n; i++) if (g != at || i != who) f[i][(i + miss) % d] = i % 2 ? 0.0 : -5.0; h.push_back(f); }
    V t(d, 2.0); Script s(n); MValue m(t); s.ga.stop_condition(FitnessValue{ fv(t) }); run(s, h, m, mc::fmt("FitnessValue of %d objectives", d).c_str());
}
static void wide_stall() { // only one objective, and only one candidate, improves now and then
    bool mean = mc::flip(); int n = mc::pick({ 2, 8, 64 }), d = mc::pick({ 2, 3, 5, 9 }), obj = mc::range(0, d - 1), who = mc::pick({ 0, n / 2, n - 1 }), p = mc::range(0, 2), every = mc::range(1, 4); std::vector<VV> h; for (int g = 0; g < 9; g++) { VV f(n, V(d, 1.0)); for (int i = 0; i < n; i++) f[i][i % d] = -1; f[who][obj] = 1 + double(n) * (g / every); h.push_back(f); }
    Script s(n); MStall m(mean, p, 0.5); if (mean) s.ga.stop_condition(FitnessMeanStall{ size_t(p), 0.5 }); else s.ga.stop_condition(FitnessBestStall{ size_t(p), 0.5 }); run(s, h, m, mc::fmt("%s(%d, 0.5), %d objectives, objective %d of candidate %d improves", mean ? "FitnessMeanStall" : "FitnessBestStall", p, d, obj, who).c_str());
}
static void setup() {
    mc::add_task("long best stall", [] { long_stall(false); }); mc::add_task("long mean stall", [] { long_stall(true); }); mc::add_task("long evals", long_evals); mc::add_task("many evals", many_evals); mc::add_task("wide value", wide_value); mc::add_task("wide stall", wide_stall);
    bool t = mc::thorough(); V a2{ 0, 1 }, a3{ 0, 1, 2 }, am{ -2, 0, 0.5, 1 };
    for (bool mean : { false, true }) { const char* n = mean ? "mean" : "best"; for (int g = 1; g <= (t ? 8 : 6); g++) mc::add_task(mc::fmt("%s stall %d", n, g), [=] { stall(g, 1, 1, a3, mean); }); mc::add_task(mc::fmt("%s stall values", n), [=] { stall(4, 1, 1, am, mean); }); mc::add_task(mc::fmt("%s stall 2 cand", n), [=] { stall(t ? 5 : 4, 2, 1, a2, mean); }); mc::add_task(mc::fmt("%s stall 2 cand 3", n), [=] { stall(3, 2, 1, a3, mean); }); mc::add_task(mc::fmt("%s stall 2 obj", n), [=] { stall(t ? 6 : 4, 1, 2, a2, mean); }); mc::add_task(mc::fmt("%s stall 2 obj 3", n), [=] { stall(3, 1, 2, a3, mean); }); mc::add_task(mc::fmt("%s stall 2x2", n), [=] { stall(2, 2, 2, a3, mean); }); }
    mc::add_task("defaults", defaults); mc::add_task("value 1", [=] { value(4, 1, 1, am); }); mc::add_task("value 2 cand", [=] { value(2, 2, 1, am); }); mc::add_task("value 2 obj", [=] { value(2, 2, 2, a3); }); mc::add_task("value 3 obj", [=] { value(2, 1, 3, a3); }); mc::add_task("value inf", [=] { value(2, 2, 2, { -INF, 1, INF }); });
    mc::add_task("evals", evals); mc::add_task("evals static", evals_static); mc::add_task("plain", plain); mc::add_task("fresh", fresh);
    for (int w = 0; w < 20; w++) { mc::add_task(mc::fmt("composite %d", w), [=] { comp(w, history(t ? 7 : 6, 1, 1, a3), 1); }); mc::add_task(mc::fmt("composite %d twice", w), [=] { comp(w, history(3, 1, 1, a3), 2); }); }
}
MC_MAIN(setup)
