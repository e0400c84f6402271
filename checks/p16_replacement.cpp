// P16: the replacement policies of the single-objective algorithm.
#include "mc.hpp"
#include "ga_script.hpp"
#include <set>
using namespace gs; using namespace replacement;
static FitnessMatrix mat(const V& v) { FitnessMatrix m(0, 1); for (double x : v) m.append_row(FitnessVector{ x }); return m; }
static std::string sh(const V& v) { std::string s; for (double x : v) s += mc::fmt("%g ", x); return s; }
static std::string si(const std::vector<size_t>& v) { std::string s; for (size_t x : v) s += mc::fmt("%zu ", x); return s; }
static V sorted(V v) { std::sort(v.begin(), v.end()); return v; }
// which: 0 children, 1 best, 2 elitism with n
static void verify(const std::vector<size_t>& r, const V& f, size_t k, int which, size_t n) {
    std::string w = mc::fmt("policy %d n=%zu, fitness %s, result %s", which, n, sh(f).c_str(), si(r).c_str()); mc::step(); mc::state(mc::hmix(mc::hbytes(f.data(), f.size() * 8, k), which * 100 + n));
    MC_CHECK(r.size() == k, "the next population has the wrong size", "%s", w.c_str()); std::set<size_t> s(r.begin(), r.end()); MC_CHECK(s.size() == k, "a candidate is twice in the next population", "%s", w.c_str()); MC_CHECK(*s.rbegin() < f.size(), "the next population has an invalid member", "%s", w.c_str());
    auto vals = [&](const std::set<size_t>& q) { V v; for (size_t i : q) v.push_back(f[i]); return sorted(v); };
    if (which == 0 || (which == 2 && n == 0)) { for (size_t i = 0; i < k; i++) MC_CHECK(s.count(k + i), "a child is missing", "%s", w.c_str()); }
    else if (which == 1) { V all = sorted(f); MC_CHECK(vals(s) == V(all.end() - k, all.end()), "not the best candidates are kept", "%s", w.c_str()); }
    else { size_t e = std::min(n, k); std::set<size_t> p, c; for (size_t i : s) (i < k ? p : c).insert(i); MC_CHECK(p.size() == e, "wrong number of elite parents", "%s", w.c_str()); V par = sorted(V(f.begin(), f.begin() + k)); MC_CHECK(vals(p) == V(par.end() - e, par.end()), "the elite are not the best parents", "%s", w.c_str()); for (size_t i = 0; i < k - e; i++) MC_CHECK(c.count(k + i), "the first children are not kept", "%s", w.c_str()); }
}
static void policy(int k, int extra, V a, bool tol) {
    math::ScopedTolerances _(tol ? 1e-12 : 0.0, tol ? 1e-12 : 0.0); int which = mc::range(0, 2); size_t n = which == 2 ? mc::choose(k + 3) : 0; if (n == size_t(k) + 2) n = SIZE_MAX; V f; for (int i = 0; i < 2 * k + extra; i++) f.push_back(mc::pick_from(a)); BinaryGA ga(k); auto m = mat(f); small_vector<size_t> r;
    KeepChildren kc; KeepBest kb; Elitism el(mc::flip() ? n : 1); if (which == 2) el.elite_num(n); Replacement& rep = which == 0 ? (Replacement&)kc : which == 1 ? (Replacement&)kb : (Replacement&)el; r = rep.nextPopulationImpl(ga, m); verify(std::vector<size_t>(r.begin(), r.end()), f, k, which, n);
}
static void family(int k) {
    int which = mc::range(0, 2), fam = mc::range(0, 7); size_t n = which == 2 ? mc::pick<size_t>({ 0, 1, 2, (size_t)k / 2, (size_t)k - 1, (size_t)k, (size_t)k + 5 }) : 0; V f; uint64_t l = k * 31 + fam; for (int i = 0; i < 2 * k; i++) { l = l * 6364136223846793005ull + 1442695040888963407ull; int r = int((l >> 40) % 1000); f.push_back(fam == 0 ? i : fam == 1 ? -i : fam == 2 ? r : fam == 3 ? r % 3 : fam == 4 ? 5 : fam == 6 ? (i < k ? r + 2000 : r) : fam == 7 ? (i < k ? r : r + 2000) : (i % 2 ? i : -INF)); }
    BinaryGA ga(k); math::ScopedTolerances _(0, 0); KeepChildren kc; KeepBest kb; Elitism el(n); Replacement& rep = which == 0 ? (Replacement&)kc : which == 1 ? (Replacement&)kb : (Replacement&)el; auto m = mat(f); auto r = rep.nextPopulationImpl(ga, m); verify(std::vector<size_t>(r.begin(), r.end()), f, k, which, n);
}
// whole generations: candidates are moved with their own fitness, and elitism never loses the best
struct Sel { static algorithm::SingleObjective make(int which, size_t n, int way) {
    auto s = [c = std::make_shared<size_t>(0)](const GaInfo& ga, const FitnessMatrix&) { return (*c)++ % ga.population_size(); };
    algorithm::SingleObjective a(s); switch (which) { case 0: if (way) a.replacement_method(KeepChildren{}); else a.replacement_method(std::make_unique<KeepChildren>()); break; case 1: if (way) a.replacement_method(KeepBest{}); break; case 2: if (way) a.replacement_method(std::make_unique<Elitism>(n)); else a.replacement_method(Elitism{ n }); break; case 3: a.replacement_method([](const GaInfo& ga, const FitnessMatrix&) { small_vector<size_t> r; for (size_t i = 0; i < ga.population_size(); i++) r.push_back(i); return r; }); break; } return a; } };
static void run(int gens, int k, V a) {
    int which = mc::range(0, 3); size_t n = which == 2 ? mc::choose(k + 2) : 0; int way = mc::flip(); V f; for (int i = 0; i < k * gens; i++) f.push_back(mc::pick_from(a)); math::ScopedTolerances _(0, 0);
    // the id of a candidate is in its bits; every evaluation gives a new candidate its scripted fitness
    BinaryGA ga(k); ga.algorithm(std::make_unique<algorithm::SingleObjective>(Sel::make(which, n, way))); ga.crossover_rate(0.0); int next = k; ga.mutation_method([&](const GA<BinaryGene>&, const Candidate<BinaryGene>&, Chromosome<BinaryGene>& c) { for (int b = 0; b < 8; b++) c[b] = (next >> b) & 1; next++; });
    auto id = [](const Chromosome<BinaryGene>& c) { int v = 0; for (int b = 0; b < 8; b++) v |= c[b] << b; return v; }; Population<BinaryGene> init; for (int i = 0; i < k; i++) { Candidate<BinaryGene> c(size_t(8)); for (int b = 0; b < 8; b++) c.chromosome[b] = (i >> b) & 1; init.push_back(c); }
    bool probe = true; std::vector<std::vector<int>> pops; std::vector<V> fits; ga.on_generation_end([&](const GaInfo&) { std::vector<int> p; V v; for (size_t i = 0; i < ga.population().size(); i++) { auto& c = ga.population()[i]; int x = id(c.chromosome); p.push_back(x); v.push_back(c.fitness[0]); if (c.fitness[0] != f[x] || ga.fitness_matrix()[i][0] != f[x]) mc::fail_later("a candidate lost its own fitness", mc::fmt("candidate %d, %g and %g instead of %g", x, c.fitness[0], ga.fitness_matrix()[i][0], f[x])); } pops.push_back(p); fits.push_back(v); });
    ga.solve(Fit([&](const Chromosome<BinaryGene>& c) { if (probe) { probe = false; return FitnessVector{ 0.0 }; } return FitnessVector{ f[id(c)] }; }, false, 8), gens, init); MC_CHECK((int)pops.size() == gens, "generations", "%zu", pops.size());
    for (int g = 1; g < gens; g++) { V both; for (int x : pops[g - 1]) both.push_back(f[x]); std::vector<size_t> ind; for (int i = 0; i < k; i++) both.push_back(f[k * g + i]);
        for (int x : pops[g]) { if (x >= k * g && x < k * (g + 1)) ind.push_back(k + x - k * g); else { auto it = std::find(pops[g - 1].begin(), pops[g - 1].end(), x); MC_CHECK(it != pops[g - 1].end(), "a candidate of the next population is neither parent nor child", "policy %d", which); ind.push_back(it - pops[g - 1].begin()); } }
        if (which < 3) verify(ind, both, k, which, n); else MC_CHECK(pops[g] == pops[0], "a custom replacement is not used", "");
        if (which == 1 || (which == 2 && n > 0)) MC_CHECK(*std::max_element(fits[g].begin(), fits[g].end()) >= *std::max_element(fits[g - 1].begin(), fits[g - 1].end()), "the best fitness decreased with an elitist policy", "policy %d n=%zu fitness %s", which, n, sh(f).c_str()); }
}
static void setup() {
    bool t = mc::thorough(); V a4{ -1, 0, 1, 2 }, a3{ 0, 1, 2 }, ai{ -INF, 0, INF }, a2{ 0, 1 };
    for (int tol = 0; tol < 2; tol++) { for (int k = 1; k <= (t ? 5 : 4); k++) mc::add_task(mc::fmt("policies k=%d tol=%d", k, tol), [=] { policy(k, 0, k <= 3 ? a4 : a3, tol); }); for (int k = 1; k <= 3; k++) mc::add_task(mc::fmt("infinite k=%d tol=%d", k, tol), [=] { policy(k, 0, ai, tol); }); for (int k = 1; k <= 3; k++) mc::add_task(mc::fmt("more children k=%d tol=%d", k, tol), [=] { policy(k, 1, a3, tol); }); mc::add_task(mc::fmt("policies k=5 tol=%d", tol), [=] { policy(5, 0, a2, tol); }); }
    for (int k = 5; k <= (t ? 150 : 60); k++) mc::add_task(mc::fmt("family %d", k), [=] { family(k); });
    for (int k : { 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1024, 1025 }) mc::add_task(mc::fmt("large %d", k), [=] { family(k); });
    mc::add_task("run 2 1", [=] { run(4, 1, a4); }); mc::add_task("run 3 2", [=] { run(3, 2, a3); }); mc::add_task("run 2 3", [=] { run(2, 3, a3); }); mc::add_task("run 2 4", [=] { run(2, 4, a2); }); mc::add_task("run 3 3", [=] { run(3, 3, a2); }); mc::add_task("run 4 2", [=] { run(4, 2, a2); });
}
MC_MAIN(setup)
