// The random numbers of the library as choices of the explorer (needs -DGAPP_VERIF_RNG).
//
// The first `points` raw draws of an execution are choice points over an alphabet of raw 64 bit values, every later one
// comes from a fixed splitmix stream. The alphabet has n equidistant values (so that every outcome of a draw from a
// range of up to n values occurs), whose low bits also count through all small bit patterns, and the two extremes.
#pragma once
#include "mc.hpp"
#include "utility/rng.hpp"

namespace mcr {
struct State { int points = 0; bool dev = false; std::vector<uint64_t> alphabet; uint64_t stream = 0; uint64_t draws = 0, limit = 2000000; std::vector<uint64_t> forced; };
inline State& S() { static State s; return s; }
inline uint64_t splitmix(uint64_t& s) { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
inline std::vector<uint64_t> make_alphabet(unsigned n, bool extremes = true) {
    std::vector<uint64_t> v; const uint64_t unit = (~0ull / n) & ~0xffull;
    for (uint64_t k = 0; k < n; k++) v.push_back(k * unit + k + 16 * (k + 1) % 256);
    if (extremes) { v.push_back(0); v.push_back(~0ull); }
    return v;
}
/** Every raw draw up to the given number is any value of an n letter alphabet. */
inline void choices(int points, unsigned n, bool extremes = true) { auto& s = S(); s.points = points; s.dev = false; s.alphabet = make_alphabet(n, extremes); }
/** A fixed stream from which each of the first `points` draws may deviate to a value of the alphabet (costs one deviation). */
inline void deviations(int points, unsigned n) { auto& s = S(); s.points = points; s.dev = true; s.alphabet = make_alphabet(n); }
/** No choices: the fixed stream. */
inline void stream(uint64_t seed) { auto& s = S(); s.points = 0; s.stream = seed; }
inline void reset(uint64_t seed = 1) { auto& s = S(); s.draws = 0; s.points = 0; s.dev = false; s.stream = seed * 0x1234567; s.forced.clear(); gapp::rng::prng.seed(seed); }
inline uint64_t next() {
    auto& s = S();
    uint64_t base = splitmix(s.stream), r = base;
    if (s.draws < s.forced.size()) { mc::step(); return s.forced[s.draws++]; }
    if (s.draws++ < (uint64_t)s.points) {
        if (s.dev) { size_t c = mc::choose_dev(s.alphabet.size() + 1); if (c) r = s.alphabet[c - 1]; }
        else r = s.alphabet[mc::choose(s.alphabet.size())];
        mc::step();
    }
    if (s.draws > s.limit) { mc::note("a single operation draws more than 2000000 random numbers"); fprintf(stderr, "assertion failed: unbounded random draws\n"); mc_assert_text("unbounded number of random draws", "", 0); _exit(96); }
    return r;
}
/** Calls f once for every sequence of `points` raw draws over the alphabet, inside one execution. */
template<typename F> void for_all_draws(int points, unsigned n, F f) {
    auto a = make_alphabet(n); std::vector<size_t> d(points, 0);
    for (;;) {
        reset(); auto& s = S(); for (size_t i : d) s.forced.push_back(a[i]);
        f();
        int i = 0; while (i < points && ++d[i] == a.size()) d[i++] = 0; if (i == points) break;
    }
    reset();
}
/** Starts one of PATTERNS structured sequences of n raw draws (constant, alternating, rising, falling, mixed), followed by the fixed stream. */
constexpr int PATTERNS = 10;
inline void pattern(int p, size_t n) {
    reset(p + 1); auto& s = S(); uint64_t x = 0x51ed270b + p;
    for (size_t i = 0; p < 8 && i < n; i++) { uint64_t unit = ~0ull / (n + 1);
        s.forced.push_back(p == 0 ? 0 : p == 1 ? ~0ull : p == 2 ? 1ull << 63 : p == 3 ? (i % 2 ? ~0ull : 0) : p == 4 ? unit * (i + 1) : p == 5 ? unit * (n - i) : p == 6 ? unit * (i / 2 + 1) : (i % 3 ? splitmix(x) : ~0ull)); }
}
inline void install() { mc::ctx().on_exec_start = [] { reset(); }; }
}
extern "C" inline __attribute__((used)) std::uint64_t gapp_verif_next_random() noexcept { return mcr::next(); }
