// P25: random utilities: ranges, distinctness, reachability, for every raw draw of an alphabet.
#include "mc_rng.hpp"
#include <set>
#include <map>
#include <cmath>
#include <cfloat>
#include <numeric>
#include <list>
using namespace gapp;
template<typename T> std::string ts(T v) { if constexpr (std::is_floating_point_v<T>) return mc::fmt("%.20g", (double)v); else return std::to_string(v); }

template<typename T> void int_range(T lo, T hi) {
    unsigned __int128 len = (unsigned __int128)((__int128)hi - (__int128)lo) + 1;
    std::set<T> seen;
    mcr::for_all_draws(len <= 40 ? 1 : 2, 120, [&] {
        T r = rng::randomInt<T>(lo, hi);
        MC_CHECK(lo <= r && r <= hi, "randomInt is out of range", "%s not in [%s, %s]", ts(r).c_str(), ts(lo).c_str(), ts(hi).c_str());
        seen.insert(r); mc::state((uint64_t)r);
    });
    if (len <= 40) MC_CHECK(seen.size() == (size_t)len, "randomInt cannot produce every value", "[%s, %s]: %zu values", ts(lo).c_str(), ts(hi).c_str(), seen.size());
    else MC_CHECK(seen.size() >= 50 || seen.size() == (size_t)len, "randomInt produces too few values", "[%s, %s]: %zu values", ts(lo).c_str(), ts(hi).c_str(), seen.size());
    unsigned __int128 eps = len <= 40 ? 0 : len / 25;
    MC_CHECK((unsigned __int128)((__int128)*seen.begin() - (__int128)lo) <= eps && (unsigned __int128)((__int128)hi - (__int128)*seen.rbegin()) <= eps, "randomInt does not reach its bounds", "[%s, %s]", ts(lo).c_str(), ts(hi).c_str());
}
template<typename T> void ints(const char* tn) {
    using L = std::numeric_limits<T>;
    for (int len = 0; len <= 12; len++) for (T lo : std::vector<T>{ L::min(), T(0), T(3), T(L::max() - 12) })
        mc::add_task(mc::fmt("randomInt<%s>(%s,+%d)", tn, ts(lo).c_str(), len), [=] { int_range<T>(lo, T(lo + len)); });
    if (std::is_signed_v<T>) for (int len = 1; len <= 8; len++) mc::add_task(mc::fmt("randomInt<%s>(-%d,%d)", tn, len / 2, len - len / 2), [=] { int_range<T>(T(-(len / 2)), T(len - len / 2)); });
    mc::add_task(mc::fmt("randomInt<%s> full", tn), [] { int_range<T>(L::min(), L::max()); });
    mc::add_task(mc::fmt("randomInt<%s> half", tn), [] { int_range<T>(L::min(), T(L::max() - 1)); int_range<T>(T(L::min() + 1), L::max()); int_range<T>(T(0), L::max()); });
    mc::add_task(mc::fmt("randomInt<%s> large", tn), [] { for (int d = 2; d < 40; d += 3) int_range<T>(T(L::min() / 2), T(L::max() / d)); });
}

template<typename T> void reals() {
    T seenmax = 0; size_t n = 0; std::set<T> vals;
    mcr::for_all_draws(1, 4000, [&] { T r = rng::randomReal<T>(); n++; vals.insert(r);
        MC_CHECK(r >= 0 && r < 1, "randomReal is out of range", "%s not in [0, 1)", ts(r).c_str()); seenmax = std::max(seenmax, r); });
    MC_CHECK(vals.size() >= 4000, "randomReal produces too few values", "%zu", vals.size());
    MC_CHECK(*vals.begin() == 0 && seenmax > 1 - 4 * std::numeric_limits<T>::epsilon(), "randomReal does not cover [0, 1)", "max %s", ts(seenmax).c_str());
    // evenly spread
    for (int k = 0; k < 20; k++) { size_t c = 0; for (T v : vals) c += v >= T(k) / 20 && v < T(k + 1) / 20; MC_CHECK(c > 190 && c < 210, "randomReal is not uniform", "%zu of %zu values in [%d/20, %d/20)", c, vals.size(), k, k + 1); }
}
template<typename T> void real_range() {
    using L = std::numeric_limits<T>;
    static const std::vector<T> B{ -L::max() / 2, T(-1e10), T(-3), T(-1), -L::min(), T(0), L::denorm_min(), L::min(), T(0.1), T(1), std::nextafter(T(1), T(2)), T(1) + 4 * L::epsilon(), T(3), T(1e10), L::max() / 2 };
    T lo = mc::pick_from(B), hi = mc::pick_from(B); if (lo > hi) throw mc::Skip();
    std::set<T> vals;
    mcr::for_all_draws(1, 300, [&] { T r = rng::randomReal<T>(lo, hi); vals.insert(r); mc::state(mc::hbytes(&r, sizeof r));
        MC_CHECK(r >= lo && (r < hi || (lo == hi && r == lo)), "randomReal(lbound, ubound) is out of range", "%s not in [%s, %s)", ts(r).c_str(), ts(lo).c_str(), ts(hi).c_str()); });
    if (hi - lo > 1e-6 * std::max(std::abs(lo), std::abs(hi)) && hi - lo > 1e-30) {
        MC_CHECK(vals.size() > 250, "randomReal(lbound, ubound) produces too few values", "[%s, %s): %zu", ts(lo).c_str(), ts(hi).c_str(), vals.size());
        for (int k = 0; k < 4; k++) { T a = lo + (hi - lo) * (T(k) / 4), b = lo + (hi - lo) * (T(k + 1) / 4); size_t c = 0; for (T v : vals) c += v >= a && v < b; MC_CHECK(c > 60 && c < 90, "randomReal(lbound, ubound) is not uniform", "[%s, %s) quarter %d: %zu of %zu", ts(lo).c_str(), ts(hi).c_str(), k, c, vals.size()); }
    }
}

static void bools() { // every raw number gives its own independent bits: all sequences of 8 bools occur, both values equally often
    std::map<uint64_t, int> seq; size_t ones = 0, n = 0;
    for (int reseed = 0; reseed < 2; reseed++) {
        uint64_t st = 5; std::vector<int> pos(256);
        for (int i = 0; i < 20000; i++) {
            mcr::reset(); uint64_t raw = mcr::splitmix(st); mcr::S().forced = { raw, mcr::splitmix(st), mcr::splitmix(st) };
            uint64_t b = 0; for (int k = 0; k < 130; k++) { bool x = rng::randomBool(); ones += x; n++; if (k < 10) b |= uint64_t(x) << k; }
            seq[b]++; mc::step(); mc::state(b);
            MC_CHECK(mcr::S().draws >= 3, "130 bools are made from fewer than 130 random bits", "%d draws", (int)mcr::S().draws);
        }
    }
    MC_CHECK(seq.size() == 1024, "not every sequence of bools is possible", "%zu of 1024", seq.size());
    MC_CHECK(ones > n * 0.495 && ones < n * 0.505, "bools are not balanced", "%zu of %zu", ones, n);
}

static void sets(bool wide) {
    int n = mc::range(1, 9);
    std::vector<int> v(n); std::iota(v.begin(), v.end(), 10); std::list<int> l(v.begin(), v.end());
    std::set<int> a, b, c; mcr::for_all_draws(1, 100, [&] { size_t i = rng::randomIndex(v); MC_CHECK(i < v.size(), "randomIndex is out of range", "%zu of %d", i, n); a.insert((int)i);
        mcr::S().draws = 0; auto it = rng::randomElement(v.begin(), v.end()); MC_CHECK(it >= v.begin() && it < v.end(), "randomElement is out of range", "n=%d", n); b.insert(*it);
        mcr::S().draws = 0; auto jt = rng::randomElement(l.begin(), l.end()); MC_CHECK(jt != l.end(), "randomElement is out of range", "n=%d", n); c.insert(*jt); });
    MC_CHECK((int)a.size() == n && (int)b.size() == n && (int)c.size() == n, "randomIndex or randomElement cannot produce every element", "n=%d", n);
}

template<typename T> void sample_case(T lo, T hi, size_t count, int points, int alpha, bool reach) {
    // [lo, hi)
    std::set<std::vector<T>> seen; std::set<T> elems;
    mcr::for_all_draws(points, alpha, [&] {
        auto s = rng::sampleUnique<T>(lo, hi, count);
        std::string str; for (T x : s) str += ts(x) + " ";
        auto where = [&] { return mc::fmt("sampleUnique(%s, %s, %zu) = %s", ts(lo).c_str(), ts(hi).c_str(), count, str.c_str()); };
        MC_CHECK(s.size() == count, "sampleUnique returns a wrong count", "%s", where().c_str());
        std::vector<T> u(s.begin(), s.end()); std::sort(u.begin(), u.end());
        for (T x : u) { MC_CHECK(x >= lo && x < hi, "sampleUnique is out of range", "%s", where().c_str()); elems.insert(x); }
        MC_CHECK(std::adjacent_find(u.begin(), u.end()) == u.end(), "sampleUnique repeats a number", "%s", where().c_str());
        if (reach) seen.insert(u);
        uint64_t h = count; for (T x : u) h = mc::hmix(h, (uint64_t)x); mc::state(h);
    });
    if (reach) { uint64_t n = (uint64_t)hi - (uint64_t)lo, c = 1; for (size_t i = 0; i < count; i++) c = c * (n - i) / (i + 1);
        MC_CHECK(seen.size() == c, "sampleUnique cannot produce every subset", "range %s..%s count %zu: %zu of %llu", ts(lo).c_str(), ts(hi).c_str(), count, seen.size(), (unsigned long long)c); }
}
template<typename T> void samples(const char* tn) {
    using L = std::numeric_limits<T>;
    for (int len = 0; len <= 9; len++) for (int k = 0; k <= len; k++) for (T lo : std::vector<T>{ L::min(), T(0), T(5), T(L::max() - 9) }) {
        int draws = std::min(k, len - k) <= 1 ? 1 : std::min(std::min(k, len - k), 3);
        bool many = (size_t)k >= size_t(0.6 * len); int need = many ? len - k : k;
        bool reach = need <= 3; (void)draws;
        mc::add_task(mc::fmt("sampleUnique<%s>(%s,+%d,%d)", tn, ts(lo).c_str(), len, k), [=] { sample_case<T>(lo, T(lo + len), k, std::min(need, 3), need <= 1 ? 60 : 30, reach); });
    }
    for (int k = 0; k < 3; k++) mc::add_task(mc::fmt("sampleUnique<%s> %d of the whole type", tn, k), [=] { if (sizeof(T) == 1) sample_case<T>(L::min(), L::max(), k == 0 ? 2 : k == 1 ? 200 : 255, 2, 30, false); else sample_case<T>(L::min(), L::max(), k + 1, 3, 12, false); });
}
// the implementation switches at large ranges: force repeated and adjacent picks there
static void sample_large() {
    static const std::vector<uint64_t> LEN{ 200, 65534, 65535, 65536, 65537, 100000, uint64_t(1) << 32, uint64_t(1) << 62 };
    uint64_t len = mc::pick_from(LEN); int count = mc::range(0, 5); uint64_t lo = mc::pick<uint64_t>({ 0, 1000 });
    mcr::S().draws = 0; mcr::reset();
    // raw draws that select exactly: a repeated value, the last admissible value, the value that became the substitute before
    auto raw_for = [&](uint64_t v, uint64_t range) { return (uint64_t)((((unsigned __int128)v << 64) + range / 2 + ((unsigned __int128)1 << 63) / 1 * 0) / range + (((unsigned __int128)1 << 63) / range)); };
    std::vector<uint64_t> f; std::string pl;
    for (int i = 0; i < count; i++) { uint64_t range = len - count + i + 1; int c = mc::range(0, 4); uint64_t v = c == 0 ? 7 : c == 1 ? range - 1 : c == 2 ? range - 2 : c == 3 ? len - count : 8; pl += std::to_string(v) + " "; f.push_back(raw_for(v, range)); }
    mcr::S().forced = f; mc::step();
    auto s = rng::sampleUnique<uint64_t>(lo, lo + len, count);
    std::string str; for (auto x : s) str += ts(x) + " ";
    std::vector<uint64_t> u(s.begin(), s.end()); std::sort(u.begin(), u.end());
    MC_CHECK(u.size() == (size_t)count && std::adjacent_find(u.begin(), u.end()) == u.end(), "sampleUnique repeats a number", "range %llu: %s (draws %s)", (unsigned long long)len, str.c_str(), pl.c_str());
    for (auto x : u) MC_CHECK(x >= lo && x < lo + len, "sampleUnique is out of range", "range %llu: %s", (unsigned long long)len, str.c_str());
}
// repeated use keeps no state: sizes growing and shrinking on one thread
static void sample_sequence() {
    static const std::vector<std::pair<int, int>> C{ { 5, 2 }, { 5, 4 }, { 70, 3 }, { 130, 120 }, { 64, 64 }, { 1, 1 }, { 0, 0 }, { 65, 1 }, { 70000, 4 } };
    for (int d = 0; d < 3; d++) { auto [len, k] = mc::pick_from(C); auto s = rng::sampleUnique<int>(-3, len - 3, k); mc::step();
        std::vector<int> u(s.begin(), s.end()); std::sort(u.begin(), u.end());
        MC_CHECK((int)u.size() == k && std::adjacent_find(u.begin(), u.end()) == u.end() && (u.empty() || (u.front() >= -3 && u.back() < len - 3)), "sampleUnique is wrong after other calls", "range %d count %d", len, k); }
}

template<typename T> void cdfs(int n) {
    std::vector<T> w(n), cdf(n); T sum = 0; for (int i = 0; i < n; i++) { w[i] = (T)mc::range(0, 3); cdf[i] = sum += w[i]; }
    if (sum == 0) throw mc::Skip();
    bool norm = mc::flip(); if (norm) for (auto& c : cdf) c /= sum;
    std::vector<size_t> cnt(n);
    mcr::for_all_draws(1, 600, [&] { size_t i = rng::sampleCdf<T>(std::span<const T>(cdf)); MC_CHECK(i < (size_t)n, "sampleCdf is out of range", "%zu of %d", i, n);
        mcr::S().draws = 0; T x = rng::randomReal<T>(T(0), cdf.back());
        MC_CHECK((i == 0 || cdf[i - 1] <= x) && x <= cdf[i] && (x == 0 || w[i] > 0), "sampleCdf picks an entry whose interval does not contain the draw", "index %zu of %d, draw %s", i, n, ts(x).c_str());
        cnt[i]++; });
    for (int i = 0; i < n; i++) MC_CHECK(std::abs((double)cnt[i] - 600.0 * w[i] / sum) <= 4, "sampleCdf does not follow the weights", "entry %d of %d: %zu of 602 for weight %g of %g", i, n, cnt[i], (double)w[i], (double)sum);
    mc::state(mc::hbytes(cdf.data(), n * sizeof(T)));
}

template<typename T> void binomials(const char* tn) {
    for (T n : std::vector<T>{ 0, 1, 2, 5, 6, 10, 49, 50, 51, 60, 100, 120 }) for (double p : { 0.0, 1e-300, 0.01, 0.1, 0.19, 0.2, 0.5, 0.9, 1.0 })
        mc::add_task(mc::fmt("randomBinomial<%s>(%d, %g)", tn, (int)n, p), [=] {
            std::set<T> seen;
            mcr::for_all_draws(n <= 1 ? 1 : n <= 2 ? 2 : 3, 24, [&] { T r = rng::randomBinomial<T>(n, p); seen.insert(r); mc::state((uint64_t)r);
                MC_CHECK(r >= 0 && r <= n, "randomBinomial is out of range", "%d not in [0, %d], p=%g", (int)r, (int)n, p);
                if (p == 0.0) MC_CHECK(r == 0, "randomBinomial with probability zero is not zero", "%d of %d", (int)r, (int)n);
                if (p == 1.0) MC_CHECK(r == n, "randomBinomial with probability one is not n", "%d of %d", (int)r, (int)n); });
            if (p == 0.5 && n <= 2) MC_CHECK(seen.size() == (size_t)n + 1, "randomBinomial cannot produce every count", "%zu of %d", seen.size(), (int)n + 1);
            // the mean over the fixed stream
            mcr::reset(7); double sum = 0; const int N = 4000; for (int i = 0; i < N; i++) sum += rng::randomBinomial<T>(n, p);
            double sd = std::sqrt(n * p * (1 - p) / N); MC_CHECK(std::abs(sum / N - n * p) <= 6 * sd + 0.02 * n * p + 0.05, "randomBinomial has a wrong mean", "n=%d p=%g: %g", (int)n, p, sum / N);
        });
}
static void normals() {
    double m = mc::pick({ -2.0, 0.0, 100.0 }), sd = mc::pick({ 0.0, 1e-3, 1.0, 50.0 }); mcr::reset(3); mc::step();
    double s = 0, q = 0; const int N = 20000; for (int i = 0; i < N; i++) { double x = rng::randomNormal(m, sd); MC_CHECK(std::isfinite(x), "randomNormal is not finite", "%g", x); s += x; q += (x - m) * (x - m); if (sd == 0) MC_CHECK(x == m, "randomNormal with zero deviation is not the mean", "%g", x); }
    MC_CHECK(std::abs(s / N - m) <= 6 * sd / std::sqrt((double)N) && std::abs(std::sqrt(q / N) - sd) <= 0.05 * sd, "randomNormal has wrong moments", "mean %g deviation %g", s / N, std::sqrt(q / N));
    mcr::for_all_draws(2, 60, [&] { double x = rng::randomNormal(m, sd); MC_CHECK(std::isfinite(x) && std::abs(x - m) <= 60 * sd, "randomNormal is out of range", "%g", x); });
}
static void poissons() { // alternating means: the cached distribution follows the mean
    double prev = -1; for (int i = 0; i < 3; i++) { double mean = mc::pick({ 0.5, 3.0, 30.0 }); double s = 0; const int N = 3000; for (int k = 0; k < N; k++) { int r = rng::randomPoisson<int>(mean); MC_CHECK(r >= 0, "randomPoisson is negative", "%d", r); s += r; }
        mc::step(); MC_CHECK(std::abs(s / N - mean) < 6 * std::sqrt(mean / N), "randomPoisson has a wrong mean", "mean %g after %g: %g", mean, prev, s / N); prev = mean; }
}

// every range length up to several hundred, every count up to 8 and counts around all the switches and corners
static void sample_lengths() {
    int part = mc::range(0, 7), top = mc::depth(330, 1100);
    for (int len = 10 + part; len <= top; len += 8) { std::set<int> counts; for (int k = 0; k <= 8; k++) counts.insert(k), counts.insert(len - k); for (int k = -2; k <= 2; k++) counts.insert(len * 6 / 10 + k), counts.insert(len / 2 + k), counts.insert(std::min(len, 64 + k)), counts.insert(std::min(len, 256 + k));
        for (int k : counts) if (k >= 0 && k <= len) for (int p = 0; p < mcr::PATTERNS; p++) { mcr::pattern(p, std::min(k, len - k) + 1); mc::step(); int lo = p % 2 ? -7 : 1000; auto s = rng::sampleUnique<int>(lo, lo + len, k); std::vector<bool> seen(len); bool ok = (int)s.size() == k;
            for (int x : s) { ok = ok && x >= lo && x < lo + len && !seen[x - lo]; if (ok) seen[x - lo] = true; }
            MC_CHECK(ok, "sampleUnique is not a set of distinct numbers of the range", "%d of %d numbers, draws of pattern %d", k, len, p); } }
    mcr::reset();
    // a single number out of a range, and all but one: each of them can be the one
    for (int len = 10 + part; len <= 300; len += 8) for (int k : { 1, len - 1 }) { std::set<int> one; for (uint64_t d : mcr::make_alphabet(2 * len)) { mcr::reset(); mcr::S().forced = { d }; mc::step(); auto s = rng::sampleUnique<int>(0, len, k); if (k == 1) one.insert(s.at(0)); else { std::vector<bool> seen(len); for (int x : s) seen.at(x) = true; for (int x = 0; x < len; x++) if (!seen[x]) one.insert(x); } }
        MC_CHECK((int)one.size() == len, "sampleUnique cannot produce every subset", "%d of %d numbers: %zu of %d", k, len, one.size(), len); }
    mcr::reset();
}
template<typename T> static void long_cdfs() {
    int n = 6 + mc::range(0, mc::depth(140, 400)) * 2 + (mc::flip() ? 1 : 0), family = mc::range(0, 5); std::vector<T> w(n), cdf(n); T sum = 0;
    for (int i = 0; i < n; i++) { w[i] = family == 0 ? 1 : family == 1 ? i : family == 2 ? n - i : family == 3 ? (i % 7 == 3 ? 8 : 0) : family == 4 ? (i == n / 2 ? 64 : i == n - 1 ? 64 : 0) : (i < n / 3 ? 0 : 1 + i % 3); cdf[i] = sum += w[i]; }
    std::vector<size_t> cnt(n); const unsigned draws = 4096; auto a = mcr::make_alphabet(draws);
    for (uint64_t d : a) { mcr::reset(); mcr::S().forced = { d }; mc::step(); size_t i = rng::sampleCdf<T>(std::span<const T>(cdf)); MC_CHECK(i < (size_t)n && (w[i] > 0 || d < 4096), "sampleCdf picks an entry of weight zero", "entry %zu of %d, family %d", i, n, family); cnt[i]++; }
    for (int i = 0; i < n; i++) MC_CHECK(std::abs((double)cnt[i] - double(draws) * w[i] / sum) <= 4, "sampleCdf does not follow the weights", "entry %d of %d, family %d: %zu of %u for weight %g of %g", i, n, family, cnt[i], draws, (double)w[i], (double)sum);
    mcr::reset();
}
static void long_indexes() { // every index of ranges of every length, equally often
    int n = 1 + mc::range(0, mc::depth(300, 1000)); std::vector<int> v(n), a(n), b(n), c(n); unsigned per = 4;
    for (uint64_t d : mcr::make_alphabet(per * n)) { auto go = [&] { mcr::reset(); mcr::S().forced = { d }; mc::step(); }; go(); a.at(rng::randomIndex(v))++; go(); b.at(rng::randomElement(v.begin(), v.end()) - v.begin())++; go(); c.at(rng::randomInt<int>(-5, n - 6) + 5)++; }
    for (int i = 0; i < n; i++) for (auto* x : { &a, &b, &c }) MC_CHECK(std::abs((*x)[i] - (int)per) <= 3, "an index is not drawn with its probability", "%d of %d: %d", i, n, (*x)[i]);
    mcr::reset();
}

static void setup() {
    mcr::install(); mc::add_task("sampleUnique lengths", sample_lengths); mc::add_task("long cdf<double>", long_cdfs<double>); mc::add_task("long cdf<float>", long_cdfs<float>); mc::add_task("long indexes", long_indexes);
    ints<int8_t>("int8"); ints<uint8_t>("uint8"); ints<int16_t>("int16"); ints<int>("int"); ints<unsigned>("unsigned"); ints<int64_t>("int64"); ints<uint64_t>("uint64");
    mc::add_task("randomReal<double>", reals<double>); mc::add_task("randomReal<float>", reals<float>);
    mc::add_task("randomReal<double> ranges", real_range<double>); mc::add_task("randomReal<float> ranges", real_range<float>);
    mc::add_task("randomBool", bools); mc::add_task("index and element", [] { sets(false); });
    samples<int8_t>("int8"); samples<uint8_t>("uint8"); samples<int>("int"); samples<uint64_t>("uint64");
    mc::add_task("sampleUnique large", sample_large); mc::add_task("sampleUnique sequences", sample_sequence);
    for (int n = 1; n <= 5; n++) { mc::add_task(mc::fmt("cdf<double> n=%d", n), [=] { cdfs<double>(n); }); mc::add_task(mc::fmt("cdf<float> n=%d", n), [=] { cdfs<float>(n); }); }
    binomials<int>("int"); binomials<int8_t>("int8"); binomials<uint64_t>("uint64");
    mc::add_task("normal", normals); mc::add_task("poisson", poissons);
}
MC_MAIN(setup)
