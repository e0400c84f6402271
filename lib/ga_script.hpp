// A genetic algorithm whose populations are dictated by the harness: every fitness value is given by a script, everything else is the library's.
#pragma once
#include "one_cpu.hpp"
#include "gapp.hpp"
#include <functional>
#include <vector>
namespace gs {
using namespace gapp;
using V = std::vector<double>; using VV = std::vector<V>;
inline constexpr double INF = std::numeric_limits<double>::infinity();
/** Selects the candidates one after the other and replaces every generation by its children. */
struct TakeChildren final : algorithm::Algorithm {
    mutable size_t turn = 0;
    void prepareSelectionsImpl(const GaInfo&, const FitnessMatrix&) override { turn = 0; }
    size_t selectImpl(const GaInfo& ga, const FitnessMatrix&) const override { return turn++ % ga.population_size(); }
    small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix&) override { small_vector<size_t> r; for (size_t i = 0; i < ga.population_size(); i++) r.push_back(ga.population_size() + i); return r; }
};
/** A fitness function that calls f; the first call of a run is the library's probe for the number of objectives. */
struct Fit final : FitnessFunctionBase<BinaryGene> {
    std::function<FitnessVector(const Chromosome<BinaryGene>&)> f;
    Fit(std::function<FitnessVector(const Chromosome<BinaryGene>&)> f_, bool dynamic = true, size_t len = 4) : FitnessFunctionBase<BinaryGene>(len, dynamic ? Type::Dynamic : Type::Static), f(std::move(f_)) {}
    FitnessVector invoke(const Chromosome<BinaryGene>& c) const override { return f(c); }
};
inline FitnessVector fv(const V& v) { return FitnessVector(v.begin(), v.end()); }
/** A GA whose g-th generation gets the fitness vectors script[g] in order (all candidates are evaluated in every generation). */
struct Script {
    BinaryGA ga; const std::vector<VV>* script = nullptr; size_t calls = 0;
    explicit Script(size_t pop) : ga(pop) {
        ga.algorithm(std::make_unique<TakeChildren>()); ga.crossover_rate(0.0);
        ga.mutation_method([](const GA<BinaryGene>&, const Candidate<BinaryGene>&, Chromosome<BinaryGene>&) {});
    }
    /** Runs for at most as many generations as the script has. */
    void run(const std::vector<VV>& s, size_t max_gen = 0) {
        script = &s; calls = 0; size_t n = s[0].size(), d = s[0][0].size();
        ga.solve(Fit([this, n, d](const Chromosome<BinaryGene>&) -> FitnessVector { size_t c = calls++; if (c == 0) return FitnessVector(d, 0.0); c--; return fv((*script).at(c / n).at(c % n)); }), max_gen ? max_gen : s.size());
    }
};
inline std::string show(const VV& v) { std::string s; for (auto& p : v) { s += "("; for (double x : p) s += mc::fmt("%g ", x); s += ")"; } return s; }
inline std::string show(const std::vector<VV>& v) { std::string s; for (auto& p : v) s += show(p) + " | "; return s; }
inline std::vector<VV> history(int gens, int n, int d, const V& alphabet) { std::vector<VV> h; for (int g = 0; g < gens; g++) { VV m; for (int i = 0; i < n; i++) { V r; for (int k = 0; k < d; k++) r.push_back(mc::pick_from(alphabet)); m.push_back(r); } h.push_back(m); } return h; }
inline uint64_t hash(const std::vector<VV>& h) { uint64_t x = h.size(); for (auto& m : h) for (auto& r : m) x = mc::hbytes(r.data(), r.size() * 8, mc::hmix(x, r.size())); return x; }
inline bool near(double a, double b, double tol = 1e-9) { return a == b || std::abs(a - b) <= tol * (1 + std::abs(b)); }
}
