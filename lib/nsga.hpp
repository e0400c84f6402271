// Drives the multi-objective algorithms on dictated fitness vectors, either one call at a time or in whole runs of a GA.
#pragma once
#include "mc.hpp"
#include "mc_rng.hpp"
#include "ga_script.hpp"
#include <map>
#include <set>
namespace ns {
using namespace gs; using Idx = std::vector<size_t>; using Pop = Population<BinaryGene>;
inline std::string si(const Idx& v) { std::string s; for (size_t x : v) s += mc::fmt("%zu ", x); return s; }
inline bool dominates(const V& a, const V& b) { bool s = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] < b[i]) return false; s |= a[i] > b[i]; } return s; }
/** The rank of every vector: the number of fronts that have to be removed before it is not dominated. */
inline Idx ranks(const VV& f) { Idx r(f.size(), SIZE_MAX); size_t done = 0; for (size_t k = 0; done < f.size(); k++) { Idx front; for (size_t i = 0; i < f.size(); i++) if (r[i] == SIZE_MAX) { bool dom = false; for (size_t j = 0; j < f.size() && !dom; j++) dom = r[j] == SIZE_MAX && dominates(f[j], f[i]); if (!dom) front.push_back(i); } for (size_t i : front) r[i] = k; done += front.size(); } return r; }
inline Chromosome<BinaryGene> chrom(size_t id) { Chromosome<BinaryGene> c(10); for (int b = 0; b < 10; b++) c[b] = (id >> b) & 1; return c; }
inline size_t id_of(const Chromosome<BinaryGene>& c) { size_t v = 0; for (int b = 0; b < 10; b++) v |= size_t(c[b]) << b; return v; }
inline Pop population(const VV& f, size_t first = 0) { Pop p; for (size_t i = 0; i < f.size(); i++) { Candidate<BinaryGene> c(chrom(first + i)); c.fitness = fv(f[i]); c.is_evaluated = true; p.push_back(c); } return p; }
inline FitnessMatrix matrix(const VV& f) { FitnessMatrix m(0, f[0].size()); for (auto& r : f) m.append_row(fv(r)); return m; }
/** An algorithm object after the initialisation with a population, whose operations are called one by one. */
struct Driver {
    BinaryGA ga; algorithm::Algorithm* alg; VV f; Pop pop;
    Driver(std::unique_ptr<algorithm::Algorithm> a, const VV& first) : ga(first.size()), alg(a.get()), f(first) {
        ga.algorithm(std::move(a)); bool probe = true; size_t d = f[0].size(); Pop init = population(f);
        ga.solve(Fit([&, d](const Chromosome<BinaryGene>& c) -> FitnessVector { if (probe) { probe = false; return FitnessVector(d, 0.0); } return fv(f[id_of(c)]); }, false, 10), 1, init); pop = population(f);
    }
    /** The indices of the survivors among the parents (first) and the children. */
    Idx next(const VV& children) {
        VV all = f; all.insert(all.end(), children.begin(), children.end()); Pop p = alg->nextPopulation(ga, pop, population(children, f.size())); Idx r; mc::step();
        MC_CHECK(p.size() == f.size(), "the next population has the wrong size", "%zu instead of %zu", p.size(), f.size()); for (auto& c : p) { size_t i = id_of(c.chromosome); MC_CHECK(i < all.size() && c.fitness == fv(all[i]) && c.is_evaluated, "a survivor is neither parent nor child", "%s", show(all).c_str()); r.push_back(i); }
        Idx s = r; std::sort(s.begin(), s.end()); MC_CHECK(std::adjacent_find(s.begin(), s.end()) == s.end(), "a candidate is twice in the next population", "%s: %s", show(all).c_str(), si(r).c_str());
        VV q; for (size_t i : r) q.push_back(all[i]); f = q; pop = population(f); return r;
    }
    size_t select(const FitnessMatrix& m) { auto& c = alg->select(ga, pop, m); mc::step(); return id_of(c.chromosome); }
    /** The results of a selection between the candidates i and j, for several values of the later draws. */
    std::vector<uint64_t> letter;
    /** The raw draws that choose each of the candidates: a tournament of a candidate with itself returns it. */
    void calibrate(const FitnessMatrix& m) { size_t n = f.size(); if (letter.size() == n) return; letter.clear(); for (size_t k = 0; k < n; k++) { bool found = false; for (uint64_t l : { uint64_t(k * (~0ull / n) + ~0ull / n / 2), uint64_t(k), uint64_t(k) << 11, uint64_t(k) << 32 }) { mcr::reset(); mcr::S().forced = { l, l }; if (select(m) == k) { letter.push_back(l); found = true; break; } } MC_CHECK(found, "a candidate can never be selected", "%s: %zu", show(f).c_str(), k); } mcr::reset(); }
    std::set<size_t> tournament(const FitnessMatrix& m, size_t i, size_t j) { calibrate(m); auto& a = letter; std::set<size_t> r; for (uint64_t l : mcr::make_alphabet(3)) { mcr::reset(); mcr::S().forced = { a[i], a[j], l }; r.insert(select(m)); } mcr::reset(); return r; }
    Idx optimal() { Idx r; for (auto& c : alg->optimalSolutions(ga, pop)) r.push_back(id_of(c.chromosome)); std::sort(r.begin(), r.end()); return r; }
};
inline void check_optimal(Driver& d) { Idx rk = ranks(d.f), want; for (size_t i = 0; i < rk.size(); i++) if (rk[i] == 0) want.push_back(i); Idx got = d.optimal(); MC_CHECK(got == want, "the reported solutions are not the first front", "%s: %s", show(d.f).c_str(), si(got).c_str()); }
/** Whole fronts survive first: returns the indices of the front that is only partly kept (empty when the fronts fit) and its survivors. */
inline std::pair<Idx, Idx> check_fronts(const VV& all, const Idx& kept) {
    Idx rk = ranks(all); std::set<size_t> s(kept.begin(), kept.end()); size_t worst = 0; for (size_t i : kept) worst = std::max(worst, rk[i]); Idx part, in; for (size_t i = 0; i < all.size(); i++) { if (rk[i] < worst) MC_CHECK(s.count(i), "a candidate of a better front is missing in the next population", "%s: kept %s", show(all).c_str(), si(kept).c_str()); if (rk[i] == worst) { part.push_back(i); if (s.count(i)) in.push_back(i); } }
    if (in.size() == part.size()) return {}; return { part, in };
}
/** Whole runs of a GA with dictated fitness values: every child is a new candidate. Calls on_next(all, kept) for every generation and on_select(population, selected) for every selected candidate. */
struct Runner {
    BinaryGA ga; explicit Runner(size_t k) : ga(k) {}
    template<typename F> void run(const VV& script, size_t gens, F on_next) {
        size_t k = ga.population_size(), next = k; bool probe = true; ga.crossover_rate(0.0); ga.mutation_method([&](const GA<BinaryGene>&, const Candidate<BinaryGene>&, Chromosome<BinaryGene>& c) { c = chrom(next++); });
        Pop init; for (size_t i = 0; i < k; i++) init.push_back(Candidate<BinaryGene>(chrom(i))); Idx before; size_t child0 = k;
        ga.on_generation_end([&](const GaInfo& info) { Idx now; for (auto& c : ga.population()) { now.push_back(id_of(c.chromosome)); MC_CHECK(c.fitness == fv(script.at(now.back())), "a candidate has another candidate's fitness", "%zu", now.back()); } if (info.generation_cntr() > 0) { Idx ids = before; for (size_t i = child0; i < next; i++) ids.push_back(i); VV all; Idx kept; for (size_t i : ids) all.push_back(script.at(i)); for (size_t i : now) { auto it = std::find(ids.begin(), ids.end(), i); MC_CHECK(it != ids.end(), "a candidate of the next population is neither parent nor child", "%zu", i); kept.push_back(it - ids.begin()); } on_next(all, kept); } before = now; child0 = next; });
        auto sols = ga.solve(Fit([&](const Chromosome<BinaryGene>& c) -> FitnessVector { if (probe) { probe = false; return FitnessVector(script[0].size(), 0.0); } return fv(script.at(id_of(c))); }, false, 10), gens, init);
        VV last; for (size_t i : before) last.push_back(script[i]); Idx rk = ranks(last); std::set<size_t> want, got; for (size_t i = 0; i < k; i++) if (rk[i] == 0) want.insert(before[i]); for (auto& c : sols) got.insert(id_of(c.chromosome)); MC_CHECK(got == want && sols.size() == want.size(), "the returned solutions are not the first front of the last generation", "%s", show(last).c_str());
    }
};
inline uint64_t hash(const VV& f) { return gs::hash(std::vector<VV>{ f }); }
/** n pseudo-random points without ties. style 0: a single front, 1: few fronts, 2: many fronts, 3: almost every point is a front. */
inline VV points(size_t n, size_t d, uint64_t seed, int style) { VV r; uint64_t s = seed * 77 + 5; for (size_t i = 0; i < n; i++) { V v; double sum = 0; for (size_t k = 0; k < d; k++) { double x = double(mcr::splitmix(s) >> 11) / 9007199254740992.0 + 0.01; v.push_back(x); sum += x; } double scale = style == 0 ? 1 : style == 1 ? 1 + double(mcr::splitmix(s) % 3) : 0; if (scale > 0) for (double& x : v) x = x / sum * scale * 10; else for (double& x : v) x = style == 3 ? 10 * (double(i * 7 % n) + double(seed % 8) / 8) + x : x * 10; r.push_back(v); } return r; }
}
