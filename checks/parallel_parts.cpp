// The parallel loops inside of the algorithms and metrics, on every schedule, against sequential references. P15: merging of Pareto sets and dominance-degree sorting; P18: association with reference lines; P21: hypervolumes.
#include "sched.hpp"
#if PART == 0
#include "core/population.hpp"
#include "core/candidate.hpp"
#include "encoding/gene_types.hpp"
#include "algorithm/nd_sort.hpp"
#else
#include "gapp.hpp"
#include "metrics/pop_stats.hpp"
#endif
#include <map>
#include <set>
using namespace gapp; using V = std::vector<double>; using VV = std::vector<V>;
static bool dominates(const V& a, const V& b) { bool s = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] < b[i]) return false; s |= a[i] > b[i]; } return s; }
static std::string show(const VV& v) { std::string s; for (auto& p : v) { s += "("; for (double x : p) s += std::to_string((int)x) + " "; s += ")"; } return s; }
static FitnessMatrix matrix(const VV& v) { FitnessMatrix m(0, v[0].size()); for (auto& r : v) m.append_row(FitnessVector(r.begin(), r.end())); return m; }
static Population<BinaryGene> population(const VV& v, int first) { Population<BinaryGene> p; for (size_t i = 0; i < v.size(); i++) { Chromosome<BinaryGene> c(10); for (int b = 0; b < 10; b++) c[b] = ((first + i) >> b) & 1; Candidate<BinaryGene> s(c); s.fitness = FitnessVector(v[i].begin(), v[i].end()); s.is_evaluated = true; p.push_back(s); } return p; }
static size_t id_of(const Candidate<BinaryGene>& s) { size_t v = 0; for (int b = 0; b < 10; b++) v |= size_t(s.chromosome[b]) << b; return v; }
static V pick(const VV& grid) { return grid[mcs::choose(grid.size())]; }
static const VV GRID{ { 0, 0 }, { 0, 1 }, { 1, 0 }, { 1, 1 }, { 0, 2 }, { 2, 0 } };

#if PART == 0
/** All pairs of Pareto sets of the given sizes. */
static void merge(size_t n, size_t m, int threads) {
    VV a, b; for (auto [s, k] : { std::pair{ &a, n }, std::pair{ &b, m } }) for (size_t i = 0; i < k; i++) { V v = pick(GRID); for (auto& o : *s) if (dominates(o, v) || dominates(v, o)) return; s->push_back(v); }
    execution_threads(threads); auto pa = population(a, 0), pb = population(b, 100); auto got = detail::mergeParetoSets(pa, pb); execution_threads(1);
    VV all = a; all.insert(all.end(), b.begin(), b.end()); std::set<size_t> want, ids; for (size_t i = 0; i < all.size(); i++) { bool d = false; for (auto& o : all) d |= dominates(o, all[i]); if (!d) want.insert(i < n ? i : 100 + i - n); }
    for (auto& s : got) { size_t k = id_of(s); ids.insert(k); V f(s.fitness.begin(), s.fitness.end()); MCS_CHECK(f == all.at(k < 100 ? k : n + k - 100), "a merged solution has another fitness", "%s", show(all).c_str()); }
    MCS_CHECK(ids == want && got.size() == want.size(), "the union of two Pareto sets is wrong", "%s and %s: %zu instead of %zu", show(a).c_str(), show(b).c_str(), got.size(), want.size()); mcs::state(ids.size());
}
static void degree_sort(size_t n, size_t d, int threads) {
    VV f; for (size_t i = 0; i < n; i++) { V v = pick(GRID); if (d == 3) v.push_back(double(mcs::choose(2))); f.push_back(v); } auto m = matrix(f); execution_threads(threads); auto got = algorithm::dtl::dominanceDegreeSort(m.begin(), m.end()); execution_threads(1); std::vector<size_t> rank(n, 99); size_t done = 0;
    for (size_t k = 0; done < n; k++) { std::vector<size_t> front; for (size_t i = 0; i < n; i++) if (rank[i] == 99) { bool dom = false; for (size_t j = 0; j < n; j++) dom |= rank[j] == 99 && dominates(f[j], f[i]); if (!dom) front.push_back(i); } for (size_t i : front) rank[i] = k; done += front.size(); }
    MCS_CHECK(got.size() == n, "sorting loses candidates", "%s", show(f).c_str()); for (auto& e : got) MCS_CHECK(rank[e.idx] == e.rank, "the rank of a candidate is wrong", "%s: %zu has rank %zu instead of %zu", show(f).c_str(), e.idx, e.rank, rank[e.idx]);
}
#elif PART == 1
/** n + n candidates are associated with reference lines in blocks: the survivors must not depend on the schedule. */
struct Fit final : FitnessFunctionBase<BinaryGene> { const VV& f; Fit(const VV& f_) : FitnessFunctionBase<BinaryGene>(10), f(f_) {} FitnessVector invoke(const Chromosome<BinaryGene>& c) const override { size_t i = id_of(Candidate<BinaryGene>(c)) % f.size(); return FitnessVector(f[i].begin(), f[i].end()); } };
static void associate(size_t n, int threads, int d) {
    execution_threads(1); rng::prng.seed(3); VV f, g; for (size_t i = 0; i < 2 * n; i++) { V v; for (int k = 0; k < d; k++) v.push_back(double((i * (k * 6 + 7) + k * 5) % 31)); (i < n ? f : g).push_back(v); }
    BinaryGA ga(n); auto lines = [](size_t dim, size_t) { FitnessMatrix r(0, dim); for (size_t i = 0; i < 3; i++) { FitnessVector p(dim, 0.1); p[i % dim] = i < dim ? 1.0 - 0.1 * (dim - 1) : 0.0; r.append_row(FitnessVector(p.begin(), p.end())); } return r; }; auto owned = std::make_unique<algorithm::NSGA3>(lines); auto* alg = owned.get(); ga.algorithm(std::move(owned)); ga.solve(Fit(f), 1, population(f, 0));
    uint64_t h = 1; auto add = [&](size_t x) { h = (h ^ x) * 1099511628211ull; h ^= h >> 31; }; execution_threads(threads); auto next = alg->nextPopulation(ga, population(f, 0), population(g, n)); std::set<size_t> ids; for (auto& s : next) ids.insert(id_of(s)), add(id_of(s)); MCS_CHECK(ids.size() == n, "a candidate is lost or twice in the next population", "%zu of %zu", ids.size(), n); alg->initialize(ga);
    VV now; for (auto& s : next) now.push_back(V(s.fitness.begin(), s.fitness.end())); execution_threads(1); auto m = matrix(f); for (int k = 0; k < 6; k++) add(id_of(alg->select(ga, population(f, 0), m))); h |= 1ull << 63; MCS_CHECK(mcs::same(0, h) == h, "the next population depends on the schedule", "%zu candidates, %d threads", n, threads);
}
#else
/** Hypervolumes: integer coordinates, so the sum does not depend on the order. */
static void volume(size_t n, size_t d, int threads) {
    VV f; for (size_t i = 0; i < n; i++) { V v; for (size_t k = 0; k < d; k++) v.push_back(double(mcs::choose(3))); f.push_back(v); } auto m = matrix(f); V ref(d, -1.0); execution_threads(threads); double got = detail::hypervolume(m, ref); execution_threads(1); double want = 0; size_t cells = d == 2 ? 9 : 27;
    for (size_t c = 0; c < cells; c++) { V p{ double(c % 3), double(c / 3 % 3) }; if (d == 3) p.push_back(double(c / 9)); bool in = false; for (auto& v : f) { bool ge = true; for (size_t k = 0; k < d; k++) ge &= v[k] >= p[k]; in |= ge; } want += in; } MCS_CHECK(got == want, "the hypervolume is wrong", "%s: %g instead of %g", show(f).c_str(), got, want);
}
#endif
static void setup() {
    bool t = mcs::thorough(); auto add = [&](const std::string& n, int dev, std::function<void()> f, bool weak = false) { mcs::Opt o; o.dev = dev; o.weak = weak; mcs::add_task(n, std::move(f), o); }; using std::to_string;
#if PART == 0
    for (auto [n, m] : { std::pair{ 2, 1 }, { 2, 2 }, { 3, 2 }, { 1, 1 } }) for (int th : { 2, 3 }) if (t || n < 3 || th == 2) { auto name = "merging " + to_string(n) + " and " + to_string(m) + ", " + to_string(th) + " threads"; add(name, (n == 3 || th == 3 ? 1 : 2) + t, [=] { merge(n, m, th); }); if (n * m < 5) add(name + ", stale reads", 1 + t, [=] { merge(n, m, th); }, true); }
    for (int n : { 2, 3 }) for (int d : { 2, 3 }) add("dominance-degree sort of " + to_string(n) + ", " + to_string(d) + " objectives", n == 3 ? t : 1 + t, [=] { degree_sort(n, d, d); });
#elif PART == 1
    for (int n : { 101, 150, 201 }) for (int th : { 2, 3 }) if (t || n != 150) add("reference lines for " + to_string(2 * n) + " candidates, " + to_string(th) + " threads", n == 101 ? 1 + t : t, [=] { associate(n, th, 2); });
    add("reference lines for 402 candidates, 3 objectives", 0, [=] { associate(201, 3, 3); });
#else
    for (int n : { 1, 2, 3 }) for (int d : { 2, 3 }) if (n * d < 9 && (n * d < 6 || d == 2 || t)) for (int th : { 2, 3 }) if (n > 1 || th == 2) add("hypervolume of " + to_string(n) + ", " + to_string(d) + " objectives, " + to_string(th) + " threads", n == 3 || th == 3 ? 1 : 2, [=] { volume(n, d, th); });
#endif
}
MCS_MAIN(setup)
