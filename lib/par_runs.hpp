// Small runs of the library for the schedule explorer: a configuration, and everything that can be observed of a run.
#pragma once
#include "sched.hpp"
#include "gapp.hpp"
#include <string>
#include <vector>
#include <cstring>
namespace pr {
using namespace gapp;
enum Enc { BIN, REAL, INT, PERM };
enum Alg { SO, N2, N3, DEFAULT, ROULETTE, SIGMA };
struct Cfg { Enc enc; Alg alg; int obj, pop, gens, cache; bool dynamic, keep, hv; int init = 0; };
inline std::string show(const Cfg& c) { static const char* E[] = { "binary", "real", "integer", "permutation" }; static const char* A[] = { "single objective", "NSGA2", "NSGA3", "default algorithm", "roulette", "sigma" }; return std::string(E[c.enc]) + ", " + A[c.alg] + ", " + std::to_string(c.obj) + " objectives, population " + std::to_string(c.pop) + ", " + std::to_string(c.gens) + " generations" + (c.cache ? ", cache" : "") + (c.dynamic ? ", dynamic" : "") + (c.keep ? ", keep all" : "") + (c.hv ? ", metrics" : "") + (c.init ? ", initial population" : ""); }

/** A pure function of the chromosome. */
template<typename T> FitnessVector value(const Chromosome<T>& c, int obj) { FitnessVector f; for (int k = 0; k < obj; k++) { double s = 0; for (size_t i = 0; i < c.size(); i++) s += double(c[i]) * double((i + 1) * (k + 1) % 5 - 1); f.push_back(s); } return f; }
struct Observed { uint64_t h = 14695981039346656037ull; void add(uint64_t x) { h = (h ^ x) * 1099511628211ull; h ^= h >> 29; } void add(double d) { uint64_t x; std::memcpy(&x, &d, 8); add(x); } };
template<typename C> void observe(Observed& o, const C& pop) { o.add(uint64_t(pop.size())); for (auto& s : pop) { for (auto& g : s.chromosome) o.add(double(g)); for (double f : s.fitness) o.add(f); } }

template<typename T> struct Fit final : FitnessFunctionBase<T> {
    int obj; std::function<void(const Chromosome<T>&)> on;
    Fit(const Cfg& c, std::function<void(const Chromosome<T>&)> on_) : FitnessFunctionBase<T>(3, c.dynamic ? FitnessFunctionBase<T>::Type::Dynamic : FitnessFunctionBase<T>::Type::Static), obj(c.obj), on(std::move(on_)) {}
    FitnessVector invoke(const Chromosome<T>& c) const override { if (on) on(c); return value<T>(c, obj); }
};
template<typename G> struct Gene; template<> struct Gene<BinaryGA> { using type = BinaryGene; }; template<> struct Gene<RCGA> { using type = RealGene; }; template<> struct Gene<IntegerGA> { using type = IntegerGene; }; template<> struct Gene<PermutationGA> { using type = PermutationGene; };

template<typename G> void configure(G& ga, const Cfg& c) {
    if (c.alg == SO) ga.algorithm(std::make_unique<algorithm::SingleObjective>()); else if (c.alg == N2) ga.algorithm(std::make_unique<algorithm::NSGA2>()); else if (c.alg == N3) ga.algorithm(std::make_unique<algorithm::NSGA3>());
    if (c.alg == ROULETTE) ga.algorithm(algorithm::SingleObjective{ selection::Roulette{} }); if (c.alg == SIGMA) ga.algorithm(algorithm::SingleObjective{ selection::Sigma{}, replacement::Elitism{} });
    ga.cache_size(c.cache); ga.keep_all_optimal_solutions(c.keep);
    if (c.hv) { if (c.obj > 1) ga.track(metrics::AutoHypervolume{}, metrics::FitnessEvaluations{}); else ga.track(metrics::FitnessMax{}, metrics::FitnessEvaluations{}); }
}
template<typename G, typename T = typename Gene<G>::type> Candidates<T> solve(G& ga, const Cfg& c, std::function<void(const Chromosome<T>&)> on = nullptr) {
    Population<T> init;
    for (int i = 0; i < c.init; i++) { Chromosome<T> ch(3); for (size_t k = 0; k < 3; k++) ch[k] = T(c.enc == PERM ? (k + i) % 3 : (k + i) % 2); init.push_back(Candidate<T>(ch)); }
    if constexpr (std::is_same_v<T, RealGene> || std::is_same_v<T, IntegerGene>) return ga.solve(Fit<T>(c, on), Bounds<T>{ T(0), T(3) }, c.gens, init);
    else return ga.solve(Fit<T>(c, on), c.gens, init);
}
template<typename F> void with(const Cfg& c, F f) { switch (c.enc) { case BIN: f(BinaryGA(c.pop)); break; case REAL: f(RCGA(c.pop)); break; case INT: f(IntegerGA(c.pop)); break; case PERM: f(PermutationGA(c.pop)); break; } }
}
