// Fixtures for the crossover and mutation operators: a GA of every encoding, and an enumeration of all sequences of raw random draws.
#pragma once
#include "mc.hpp"
#include "mc_rng.hpp"
#include "one_cpu.hpp"
#include "gapp.hpp"
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <numeric>
#include <set>
namespace ops {
using namespace gapp;
using mc::fmt;
/** The raw values of one draw: n equidistant ones and the extremes (0: only the extremes). */
inline std::vector<uint64_t> letters(unsigned n) { if (n == 0) return { 0, ~0ull }; return mcr::make_alphabet(n); }
/**
* Calls f for every sequence of raw draws. The i-th draw is one of letters(ns[i]) (the last entry applies to all later draws), the draws after the first
* `points` ones come from a fixed stream. Only the draws that are really made are enumerated. Returns the number of calls.
*/
template<typename F> uint64_t all_draws(const std::vector<unsigned>& ns, int points, F f, uint64_t stream = 1) {
    std::vector<std::vector<uint64_t>> a; for (int i = 0; i < points; i++) a.push_back(letters(i < (int)ns.size() ? ns[i] : ns.back()));
    std::vector<size_t> d; uint64_t calls = 0;
    for (;;) {
        mcr::reset(stream); auto& s = mcr::S(); for (int i = 0; i < points; i++) s.forced.push_back(a[i][i < (int)d.size() ? d[i] : 0]);
        f(); calls++;
        d.resize(std::min<size_t>(s.draws, points), 0);
        while (!d.empty() && ++d.back() == a[d.size() - 1].size()) d.pop_back();
        if (d.empty()) break;
    }
    mc::case_(calls); mcr::reset(); return calls;
}
template<typename T> struct GaOf; template<> struct GaOf<BinaryGene> { using type = BinaryGA; }; template<> struct GaOf<IntegerGene> { using type = IntegerGA; }; template<> struct GaOf<RealGene> { using type = RCGA; }; template<> struct GaOf<PermutationGene> { using type = PermutationGA; };
template<typename T> struct Fit final : FitnessFunctionBase<T> { using FitnessFunctionBase<T>::FitnessFunctionBase; FitnessVector invoke(const Chromosome<T>&) const override { return { 0.0 }; } };
/** A GA after a run of `gens` generations, so that its operators can be used. */
template<typename T> struct Fx {
    using GA_t = typename GaOf<T>::type; GA_t ga; BoundsVector<T> bounds; size_t len;
    explicit Fx(size_t len_, BoundsVector<T> b = {}, size_t gens = 1, size_t max_gen = 500) : ga(gens > 1 ? 2 : 1), bounds(std::move(b)), len(len_) { run(gens, max_gen); }
    Fx(const Fx&) = delete;
    void run(size_t gens, size_t max_gen) {
        auto f = std::make_unique<Fit<T>>(len);
        if (gens > 1) ga.crossover_rate(0.0);
        if constexpr (is_bounded<T>) ga.solve(std::move(f), bounds, gens); else ga.solve(std::move(f), gens);
        ga.max_gen(max_gen);
    }
    bool valid(const Chromosome<T>& c) const {
        if (c.size() != len) return false;
        if constexpr (std::is_same_v<T, PermutationGene>) { std::vector<bool> seen(len); for (size_t g : c) { if (g >= len || seen[g]) return false; seen[g] = true; } return true; }
        else if constexpr (std::is_same_v<T, BinaryGene>) return std::all_of(c.begin(), c.end(), [](auto g) { return g == 0 || g == 1; });
        else { for (size_t i = 0; i < len; i++) if (!(bounds[i].lower() <= c[i] && c[i] <= bounds[i].upper())) return false; return true; }
    }
    Candidate<T> cand(const Chromosome<T>& c, double fitness = 0.0) const { Candidate<T> r(c); r.fitness = { fitness }; r.is_evaluated = true; return r; }
};
template<typename T> std::string show(const std::vector<T>& c) { std::string s = "("; for (size_t i = 0; i < c.size() && i < 40; i++) { if constexpr (std::is_floating_point_v<T>) s += fmt("%.17g ", c[i]); else s += fmt("%lld ", (long long)c[i]); } return s + ")"; }
template<typename T> using Pair = std::pair<Chromosome<T>, Chromosome<T>>;
template<typename T> Pair<T> sorted(Pair<T> p) { if (p.second < p.first) std::swap(p.first, p.second); return p; }
template<typename T> std::string show(const Pair<T>& p) { return show(p.first) + " and " + show(p.second); }
/** Applies a crossover or mutation. */
template<typename T, typename Op> Pair<T> cross(const Fx<T>& fx, const Op& op, const Candidate<T>& a, const Candidate<T>& b) { auto r = static_cast<const crossover::Crossover<T>&>(op)(fx.ga, a, b); mc::step(); return { r.first.chromosome, r.second.chromosome }; }
template<typename T, typename Op> Chromosome<T> mutated(const Fx<T>& fx, const Op& op, const Chromosome<T>& c) { auto x = fx.cand(c); x.is_evaluated = false; static_cast<const mutation::Mutation<T>&>(op)(fx.ga, x); mc::step(); return x.chromosome; }
inline std::vector<Chromosome<PermutationGene>> perms(size_t n) { Chromosome<PermutationGene> p(n); std::iota(p.begin(), p.end(), 0); std::vector<Chromosome<PermutationGene>> r; do r.push_back(p); while (std::next_permutation(p.begin(), p.end())); return r; }
/** The k-th of n! permutations is enough as the first parent when the second one takes every value: identity, reversed and a mixed one. */
inline std::vector<Chromosome<PermutationGene>> some_perms(size_t n) { auto p = perms(n); if (p.size() <= 6) return p; std::vector<Chromosome<PermutationGene>> r{ p.front(), p.back(), p[p.size() * 3 / 7] }; return r; }
template<typename T> std::vector<Chromosome<T>> strings(size_t n, const std::vector<T>& a) { std::vector<Chromosome<T>> r{ {} }; for (size_t i = 0; i < n; i++) { std::vector<Chromosome<T>> q; for (auto& c : r) for (T x : a) { q.push_back(c); q.back().push_back(x); } r = q; } return r; }
}
