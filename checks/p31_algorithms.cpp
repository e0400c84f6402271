// P31: sequence helpers against naive definitions; random access iterator laws for every container's iterators.
#include "mc.hpp"
#include "utility/algorithm.hpp"
#include "utility/functional.hpp"
#include "utility/bit.hpp"
#include "utility/iterators.hpp"
#include "utility/circular_buffer.hpp"
#include "utility/matrix.hpp"
#include "utility/small_vector.hpp"
#include "utility/scope_exit.hpp"
#include "algorithm/nd_sort.hpp"
#include "crossover/neighbour_list.hpp"
#include <deque>
#include <list>
#include <array>
#include <memory>
#include <set>
using namespace gapp;
using namespace gapp::detail;
using V = small_vector<int>;

static std::string show(const V& v) { std::string s = "["; for (int x : v) s += mc::fmt("%d ", x); return s + "]"; }
static std::string showi(const small_vector<size_t>& v) { std::string s = "("; for (size_t x : v) s += mc::fmt("%zu ", x); return s + ")"; }
#define CK(c, sig) do { if (!(c)) mc::fail(sig, show(v) + " " + mc::fmt(__VA_OPT__())); } while (0)
static void ck(bool ok, const char* sig, const V& v, const std::string& d = {}) { if (!ok) mc::fail(sig, show(v) + " " + d); }

static bool is_perm(const small_vector<size_t>& p, size_t n) { if (p.size() != n) return false; std::vector<bool> s(n); for (size_t i : p) { if (i >= n || s[i]) return false; s[i] = true; } return true; }
template<typename F> static bool sorted_by(const V& v, const small_vector<size_t>& p, size_t upto, F less) {
    for (size_t i = 0; i + 1 < upto; i++) if (less(v[p[i + 1]], v[p[i]])) return false;
    for (size_t i = 0; i < upto; i++) for (size_t j = upto; j < p.size(); j++) if (less(v[p[j]], v[p[i]])) return false;
    return true;
}

static void check_seq(const V& v) {
    const size_t n = v.size();
    uint64_t h = n; for (int x : v) h = mc::hmix(h, x); mc::state(h);
    // argsort
    auto a = argsort(v.begin(), v.end()); mc::step();
    ck(is_perm(a, n) && sorted_by(v, a, n, std::less<>{}), "argsort is wrong", v, showi(a));
    a = argsort(v.begin(), v.end(), std::greater<>{});
    ck(is_perm(a, n) && sorted_by(v, a, n, std::greater<>{}), "argsort with a comparison is wrong", v, showi(a));
    a = argsort(v.rbegin(), v.rend());
    ck(is_perm(a, n) && sorted_by(v, a, n, std::greater<>{}), "argsort of reverse iterators is not descending", v, showi(a));
    for (size_t k = 0; k <= n; k++) {
        auto p = partial_argsort(v.begin(), v.begin() + k, v.end()); mc::step();
        ck(is_perm(p, n) && sorted_by(v, p, k, std::less<>{}), "partial_argsort is wrong", v, mc::fmt("k=%zu ", k) + showi(p));
        p = partial_argsort(v.begin(), v.begin() + k, v.end(), std::greater<>{});
        ck(is_perm(p, n) && sorted_by(v, p, k, std::greater<>{}), "partial_argsort with a comparison is wrong", v, mc::fmt("k=%zu ", k) + showi(p));
        p = partial_argsort(v.rbegin(), v.rbegin() + k, v.rend());
        ck(is_perm(p, n) && sorted_by(v, p, k, std::greater<>{}), "partial_argsort of reverse iterators is not descending", v, mc::fmt("k=%zu ", k) + showi(p));
    }
    // max / min
    auto sq = [](int x) { return (x - 1) * (x - 1); };
    auto mx = max_element(v.begin(), v.end()), mn = min_element(v.begin(), v.end());
    ck(mx == std::max_element(v.begin(), v.end()), "max_element is wrong", v); ck(mn == std::min_element(v.begin(), v.end()), "min_element is wrong", v);
    ck(detail::max_element(v.begin(), v.end(), sq) == std::max_element(v.begin(), v.end(), [&](int a, int b) { return sq(a) < sq(b); }), "max_element with a projection is wrong", v);
    ck(detail::min_element(v.begin(), v.end(), sq) == std::min_element(v.begin(), v.end(), [&](int a, int b) { return sq(a) < sq(b); }), "min_element with a projection is wrong", v);
    if (n) {
        size_t imx = argmax(v.begin(), v.end()), imn = argmin(v.begin(), v.end());
        ck(imx == size_t(std::max_element(v.begin(), v.end()) - v.begin()), "argmax is wrong", v, mc::fmt("%zu", imx)); ck(imn == size_t(std::min_element(v.begin(), v.end()) - v.begin()), "argmin is wrong", v);
        size_t rmx = argmax(v.rbegin(), v.rend()), rmn = argmin(v.rbegin(), v.rend());
        ck(rmx < n && v[rmx] == v[imx] && std::find(v.begin() + rmx + 1, v.end(), v[imx]) == v.end(), "argmax of reverse iterators is wrong", v, mc::fmt("%zu", rmx));
        ck(rmn < n && v[rmn] == v[imn] && std::find(v.begin() + rmn + 1, v.end(), v[imn]) == v.end(), "argmin of reverse iterators is wrong", v, mc::fmt("%zu", rmn));
        size_t t = argmax(v.begin(), v.end(), sq); ck(std::all_of(v.begin(), v.end(), [&](int x) { return sq(x) <= sq(v[t]); }), "argmax with a projection is wrong", v);
        t = argmin(v.begin(), v.end(), sq); ck(std::all_of(v.begin(), v.end(), [&](int x) { return sq(x) >= sq(v[t]); }), "argmin with a projection is wrong", v);
    }
    // find
    for (int x = -1; x <= 4; x++) {
        size_t f = std::find(v.begin(), v.end(), x) - v.begin();
        ck(contains(v.begin(), v.end(), x) == (f < n), "contains is wrong", v, mc::fmt("%d", x));
        ck(index_of(v, x) == (f < n ? std::optional<size_t>(f) : std::nullopt), "index_of is wrong", v, mc::fmt("%d", x));
        ck(find_index(v, greater_than(x)) == [&]() -> std::optional<size_t> { for (size_t i = 0; i < n; i++) if (v[i] > x) return i; return {}; }(), "find_index is wrong", v, mc::fmt("%d", x));
        small_vector<size_t> wi; V wv; for (size_t i = 0; i < n; i++) if (v[i] >= x) { wi.push_back(i); wv.push_back(v[i]); }
        ck(find_indices(v, greater_eq_than(x)) == wi, "find_indices is wrong", v, mc::fmt("%d", x));
        ck(find_all(v.begin(), v.end(), greater_eq_than(x)) == wv, "find_all is wrong", v, mc::fmt("%d", x));
        V e = v; bool r = erase_first_stable(e, x); V we; bool done = false; for (int y : v) { if (y == x && !done) { done = true; continue; } we.push_back(y); }
        ck(r == (f < n) && e == we, "erase_first_stable is wrong", v, mc::fmt("%d", x) + show(e));
        if (std::is_sorted(v.begin(), v.end())) ck(detail::lower_bound(v.begin(), v.end(), x) == std::lower_bound(v.begin(), v.end(), x), "lower_bound is wrong", v, mc::fmt("%d", x));
        if (std::is_sorted(v.begin(), v.end(), std::greater<>{})) ck(detail::lower_bound(v.begin(), v.end(), x, std::greater<>{}) == std::lower_bound(v.begin(), v.end(), x, std::greater<>{}), "lower_bound with a comparison is wrong", v, mc::fmt("%d", x));
    }
    V d = v; erase_duplicates(d); std::vector<int> w(v.begin(), v.end()); std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end());
    ck(std::equal(d.begin(), d.end(), w.begin(), w.end()), "erase_duplicates is wrong", v, show(d));
    std::vector<int> src(v.begin(), v.end());
    ck(detail::map(src, [](int x) { return x * 2 + 0.5; }) == [&] { std::vector<double> r; for (int x : src) r.push_back(x * 2 + 0.5); return r; }(), "map is wrong", v);
    std::vector<std::string> ss; for (int x : v) ss.push_back(std::to_string(x));
    auto ms = detail::map(ss, [](const std::string& s) { return s + "!"; }); ck(ms.size() == n, "map is wrong", v); for (size_t i = 0; i < n; i++) ck(ms[i] == ss[i] + "!", "map is wrong", v);
}
static V choose_seq(int n, int a) { V v; for (int i = 0; i < n; i++) v.push_back((int)mc::choose(a)); return v; }
static void seqs(int n, int alpha) { V v = choose_seq(n, alpha); check_seq(v); mc::sample(show(v)); }

static void pairs(int n) {
    V a = choose_seq(n, 3), b = choose_seq(n, 3), v = a;
    V lo = a, hi = a; elementwise_min(lo, b, inplace_t{}); elementwise_max(hi, b, inplace_t{}); mc::step(2);
    for (int i = 0; i < n; i++) ck(lo[i] == std::min(a[i], b[i]) && hi[i] == std::max(a[i], b[i]), "elementwise min or max is wrong", v, show(b));
}
static void selects(int n, int k) {
    std::vector<std::string> c; V v; for (int i = 0; i < n; i++) { c.push_back(std::string(20, char('a' + i))); v.push_back(i); }
    std::vector<size_t> idx; for (int i = 0; i < k; i++) idx.push_back(mc::choose(n)); mc::step();
    auto s = select(c, idx); bool ok = s.size() == idx.size(); for (size_t i = 0; ok && i < idx.size(); i++) ok = s[i] == std::string(20, char('a' + idx[i]));
    for (int i = 0; i < n; i++) ok = ok && c[i] == std::string(20, char('a' + i));
    ck(ok, "select is wrong", v);
    std::vector<size_t> u = idx; std::sort(u.begin(), u.end()); if (std::unique(u.begin(), u.end()) != u.end()) return;
    auto c2 = c; auto m = select(std::move(c2), idx); ok = m.size() == idx.size(); for (size_t i = 0; ok && i < idx.size(); i++) ok = m[i] == std::string(20, char('a' + idx[i]));
    ck(ok, "select from an rvalue is wrong", v);
}
struct ChooseGen { using result_type = uint64_t; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ull; }
    uint64_t operator()() { return mc::choose(60) * (~0ull / 60) + 1000; } };
static void shuffles(int n, int k) {
    static std::set<std::vector<int>>* reach = nullptr; (void)reach;
    V v; for (int i = 0; i < n; i++) v.push_back(i);
    V o = v; partial_shuffle(v.begin(), v.begin() + k, v.end(), ChooseGen{}); mc::step();
    V s = v; std::sort(s.begin(), s.end()); ck(s == o, "partial_shuffle loses elements", v);
}
// every outcome must be possible
static void shuffle_reach(int n, int k) {
    struct G { using result_type = uint64_t; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ull; } const std::vector<int>& d; size_t i = 0; uint64_t operator()() { return d[i++] * (~0ull / 60) + 1000; } };
    std::unordered_set<std::string> seen; std::vector<int> d(n, 0);
    for (;;) {
        V v; for (int i = 0; i < n; i++) v.push_back(i);
        partial_shuffle(v.begin(), v.begin() + k, v.end(), G{ d }); mc::step();
        std::string s; for (int i = 0; i < k; i++) s += char('0' + v[i]); seen.insert(s);
        int i = 0; while (i < k && ++d[i] == 60) d[i++] = 0; if (i == k) break;
    }
    size_t want = 1; for (int i = 0; i < k; i++) want *= n - i;
    mc::check(seen.size() == want, "partial_shuffle cannot produce every arrangement", mc::fmt("n=%d k=%d: %zu of %zu", n, k, seen.size(), want));
}
static void lower_bounds(int len) { // lengths around the switch from binary to linear search: every position, with duplicates
    for (int dup = 1; dup <= 3; dup++) { V v; for (int i = 0; i < len; i++) v.push_back(2 * (i / dup));
        for (int x = -1; x <= 2 * len + 1; x++) { mc::step(); ck(detail::lower_bound(v.begin(), v.end(), x) == std::lower_bound(v.begin(), v.end(), x), "lower_bound is wrong", v, mc::fmt("%d", x));
            V r(v.rbegin(), v.rend()); ck(detail::lower_bound(r.begin(), r.end(), x, std::greater<>{}) == std::lower_bound(r.begin(), r.end(), x, std::greater<>{}), "lower_bound with a comparison is wrong", v, mc::fmt("%d", x)); } }
}
static void long_partial(int n) { // the partial sort branch: few elements of many
    V v; int mode = mc::range(0, 5); for (int i = 0; i < n; i++) v.push_back(mode == 0 ? i : mode == 1 ? -i : mode == 2 ? i % 3 : mode == 3 ? (i * 7) % n : mode == 4 ? (i * i) % 11 : 1);
    for (int k = 0; k <= n; k++) { mc::step();
        auto p = partial_argsort(v.begin(), v.begin() + k, v.end()); ck(is_perm(p, n) && sorted_by(v, p, k, std::less<>{}), "partial_argsort is wrong", v, mc::fmt("k=%d ", k) + showi(p));
        p = partial_argsort(v.begin(), v.begin() + k, v.end(), std::greater<>{}); ck(is_perm(p, n) && sorted_by(v, p, k, std::greater<>{}), "partial_argsort with a comparison is wrong", v, mc::fmt("k=%d ", k) + showi(p));
        p = partial_argsort(v.rbegin(), v.rbegin() + k, v.rend()); ck(is_perm(p, n) && sorted_by(v, p, k, std::greater<>{}), "partial_argsort of reverse iterators is not descending", v, mc::fmt("k=%d ", k) + showi(p)); }
}

// ---- iterator laws ----
template<typename It, typename Get> void laws(const char* name, It b, It e, int n, Get get) {
    auto bad = [&](const char* w, int i = 0, int j = 0) { mc::fail(std::string("iterator law: ") + w, mc::fmt("%s, %d elements, i=%d j=%d", name, n, i, j)); };
    if (e - b != n) bad("end - begin is not the size");
    if ((b == e) != (n == 0)) bad("begin == end");
    std::vector<It> p; It it = b; for (int i = 0; i <= n; i++) { p.push_back(it); if (i < n) { It q = it++; if (!(q == p[i])) bad("post-increment returns a wrong value", i); } }
    for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) { mc::step();
        const It a = p[i], c = p[j];
        if (c - a != j - i) bad("difference", i, j);
        if ((a == c) != (i == j) || (a != c) != (i != j)) bad("equality", i, j);
        if ((a < c) != (i < j) || (a > c) != (i > j) || (a <= c) != (i <= j) || (a >= c) != (i >= j)) bad("ordering", i, j);
        if (!(a + (j - i) == c) || !((j - i) + a == c) || !(c - (j - i) == a)) bad("addition", i, j);
        It t = a; if (!((t += j - i) == c) || !(t == c) || !((t -= j - i) == a) || !(t == a)) bad("compound addition", i, j);
        if (j < n && !(get(a[j - i]) == get(*c))) bad("subscript", i, j);
    }
    for (int i = 0; i < n; i++) { It t = p[i]; if (!(++t == p[i + 1])) bad("pre-increment", i); if (!(--t == p[i])) bad("pre-decrement", i); t = p[i + 1]; It o = t--; if (!(o == p[i + 1]) || !(t == p[i])) bad("post-decrement", i); }
    It s = b; It s2; s2 = s; if (!(s2 == b)) bad("assignment");
}
/** The element access of the containers: the i-th element is 10 + i. */
template<typename C, typename Get> void access(const char* name, C& c, int n, Get get) {
    auto bad = [&](const char* w, int i = 0) { mc::fail(std::string("container access: ") + w, mc::fmt("%s, %d elements, i=%d", name, n, i)); };
    auto both = [&](auto& x) {
        if (x.size() != size_t(n) || x.empty() != (n == 0)) bad("size"); if (n) { if (get(x.front()) != 10) bad("front"); if (get(x.back()) != 9 + n) bad("back"); if (&x.front() != &*x.begin() || &x.back() != &*std::prev(x.end())) bad("front or back is a copy"); }
        for (int i = 0; i < n; i++) { mc::step(); if (get(x[i]) != 10 + i || get(x.at(i)) != 10 + i) bad("a wrong element", i); if (&x[i] != &x.at(i) || &x[i] != &*(x.begin() + i)) bad("an element is a copy", i); }
        for (size_t i : { size_t(n), size_t(n) + 1, ~size_t(0) }) { bool t = false; try { (void)x.at(i); } catch (std::out_of_range&) { t = true; } if (!t) bad("at() does not report an index out of range", (int)i); }
        int k = 0; for (auto it = x.cbegin(); it != x.cend(); ++it, ++k) if (get(*it) != 10 + k) bad("cbegin", k); if (k != n) bad("cend"); k = n; for (auto it = x.rbegin(); it != x.rend(); ++it) if (get(*it) != 10 + --k) bad("rbegin", k); if (k) bad("rend"); k = n; for (auto it = x.crbegin(); it != x.crend(); ++it) if (get(*it) != 10 + --k) bad("crbegin", k); if (k) bad("crend");
    };
    both(c); both(std::as_const(c));
}
struct Plain : container_interface<Plain> { std::vector<int> v; auto begin() { return v.begin(); } auto end() { return v.end(); } auto begin() const { return v.begin(); } auto end() const { return v.end(); } };
static void accesses(int n) {
    auto id = [](const auto& x) { return x; }; Plain p; V sv; std::vector<algorithm::dtl::FrontElement> f; crossover::dtl::NeighbourList<int> nb; for (int i = 0; i < n; i++) p.v.push_back(10 + i), sv.push_back(10 + i), f.emplace_back(10 + i, i), nb.add(10 + i);
    access("a class of its own", p, n, id); access("small_vector", sv, n, id); access("a list of neighbours", nb, n, id); if (n && (p.data() != p.v.data() || std::as_const(p).data() != p.v.data())) mc::fail("container access: data", "");
    algorithm::dtl::ParetoFrontsRange r(f.begin(), f.end()), q(f); access("a range of fronts", r, n, [](auto& e) { return int(e.idx); }); access("a range of fronts", q, n, [](auto& e) { return int(e.idx); });
    for (int rot = 0; rot < 4; rot++) { circular_buffer<int> cb(n + 1 + rot % 2); for (int i = 0; i < rot; i++) { cb.push_back(0); cb.pop_front(); } for (int i = 0; i < n; i++) cb.push_back(10 + i); access("circular_buffer", cb, n, id); }
    if (n) for (int k = 0; k < 3; k++) { Matrix<int> m(3, n, -1); for (int i = 0; i < n; i++) m(k, i) = 10 + i; auto row = m[k]; access("a row", row, n, id); auto crow = std::as_const(m)[k]; access("a constant row", crow, n, id); }
    for (int i = 0; i < n; i++) { auto c = nb; c.remove(10 + i); auto exp = std::vector<int>(nb.begin(), nb.end()); exp.erase(exp.begin() + i); if (std::vector<int>(c.begin(), c.end()) != exp) mc::fail("container access: remove", mc::fmt("%d of %d", i, n)); c = nb; c.add(10 + i); if (c.size() != size_t(n)) mc::fail("container access: add", mc::fmt("%d of %d", i, n)); }
}
static void iters(int n) {
    auto id = [](const auto& x) { return x; };
    V sv; std::vector<int> vec; for (int i = 0; i < n; i++) { sv.push_back(10 + i); vec.push_back(10 + i); }
    laws("small_vector", sv.begin(), sv.end(), n, id); laws("small_vector const", std::as_const(sv).begin(), std::as_const(sv).end(), n, id); laws("small_vector reverse", sv.rbegin(), sv.rend(), n, id); laws("small_vector crbegin", sv.crbegin(), sv.crend(), n, id);
    laws("stable", stable_begin(vec), stable_end(vec), n, id); laws("stable const", stable_begin(std::as_const(vec)), stable_end(std::as_const(vec)), n, id); laws("stable reverse", std::make_reverse_iterator(stable_end(vec)), std::make_reverse_iterator(stable_begin(vec)), n, id);
    { int i = 0; for (auto it = stable_begin(vec); it != stable_end(vec); ++it, ++i) { if (&*it != &vec[i]) mc::fail("stable iterator refers to a wrong element", mc::fmt("%d", i)); decltype(stable_cbegin(vec)) c = it; if (&*c != &vec[i]) mc::fail("stable iterator converts wrongly", mc::fmt("%d", i)); }
      auto b = stable_begin(vec); vec.reserve(vec.capacity() + 100); if (n && &*b != &vec[0]) mc::fail("stable iterator does not survive a reallocation", ""); }
    laws("iota", iota_iterator<size_t>(5), iota_iterator<size_t>(5 + n), n, id); laws("iota int", iota_iterator<int>(-2), iota_iterator<int>(-2 + n), n, id);
    { int i = 0; for (auto it = iota_iterator<int>(-2); it != iota_iterator<int>(-2 + n); ++it) if (*it != -2 + i++) mc::fail("iota iterator has a wrong value", ""); }
    for (int rot = 0; rot < 4; rot++) { circular_buffer<int> cb(n + rot % 2); if (cb.capacity()) { for (int i = 0; i < rot; i++) { cb.push_back(0); cb.pop_front(); } for (int i = 0; i < n; i++) cb.push_back(10 + i); }
        laws("circular_buffer", cb.begin(), cb.end(), n, id); laws("circular_buffer const", std::as_const(cb).begin(), std::as_const(cb).end(), n, id); laws("circular_buffer reverse", cb.rbegin(), cb.rend(), n, id);
        int i = 0; for (int x : cb) if (x != 10 + i++) mc::fail("circular_buffer iteration is wrong", ""); }
    auto row = [](auto&& r) { return std::vector<int>(r.begin(), r.end()); };
    Matrix<int> m(n, 2); for (int i = 0; i < n; i++) m(i, 0) = m(i, 1) = i;
    laws("Matrix rows", m.begin(), m.end(), n, row); laws("Matrix const rows", std::as_const(m).begin(), std::as_const(m).end(), n, row); laws("Matrix reverse rows", m.rbegin(), m.rend(), n, row);
    { int i = 0; for (auto it = m.begin(); it != m.end(); ++it, ++i) { if ((*it)[0] != i || it->size() != 2) mc::fail("matrix row iterator refers to a wrong row", ""); Matrix<int>::const_iterator c = it; if ((*c)[0] != i) mc::fail("matrix row iterator converts wrongly", ""); } }
    if (n) { Matrix<int> q(1, n); laws("row elements", q[0].begin(), q[0].end(), n, id); laws("const row elements", std::as_const(q)[0].begin(), std::as_const(q)[0].end(), n, id); }
}

// ---- small utilities ----
template<typename T> void ints() {
    const T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    std::vector<T> v{ lo, T(lo + 1), T(lo / 2), T(0), T(1), T(2), T(hi / 2), T(hi - 1), hi };
    T a = mc::pick_from(v), b = mc::pick_from(v); mc::step();
    if (a <= b) { __int128 w = (__int128)b - a; mc::check((__int128)range_length(a, b) == w, "range_length is wrong", mc::fmt("%lld %lld", (long long)a, (long long)b)); }
    if (b > 0 && a >= 0 && a < b) { mc::check(next_mod(a, b) == T(a + 1 == b ? 0 : a + 1) && prev_mod(a, b) == T(a == 0 ? b - 1 : a - 1), "next_mod or prev_mod is wrong", mc::fmt("%lld %lld", (long long)a, (long long)b));
        T t = a; increment_mod(t, b); mc::check(t == next_mod(a, b), "increment_mod is wrong"); t = a; decrement_mod(t, b); mc::check(t == prev_mod(a, b), "decrement_mod is wrong"); }
    if constexpr (std::is_unsigned_v<T>) {
        for (size_t n = 0; n <= bitsizeof<T>; n++) { T r = 0, l = 0; for (size_t i = 0; i < n; i++) { r = T(r | (T(1) << i)); l = T(l | (T(1) << (bitsizeof<T> - 1 - i))); } mc::check(mask_right_n<T>(n) == r, "mask_right_n is wrong", mc::fmt("%zu", n)); if constexpr (sizeof(T) >= 4) mc::check(mask_left_n<T>(n) == l, "mask_left_n is wrong", mc::fmt("%zu", n)); }
        for (size_t n = 0; n < bitsizeof<T>; n++) mc::check(is_nth_bit_set(a, n) == bool((a >> n) & 1), "is_nth_bit_set is wrong");
        mc::check(lsb(a) == bool(a & 1) && msb(a) == bool(a >> (bitsizeof<T> - 1)), "lsb or msb is wrong"); mc::check(block_of<T>(true) == T(~T(0)) && block_of<T>(false) == 0, "block_of is wrong");
    }
}
static void functors() {
    int a = mc::range(-2, 2), b = mc::range(-2, 2), x = mc::range(-3, 3); mc::step();
    auto c = [&](bool ok, const char* w) { mc::check(ok, "function object is wrong", mc::fmt("%s a=%d b=%d x=%d", w, a, b, x)); };
    c(multiply_by(a)(x) == x * a, "multiply_by"); c(add(a)(x) == x + a, "add"); c(subtract(a)(x) == x - a, "subtract"); c(multiply_add(a, b)(x) == a * x + b, "multiply_add"); if (a) c(divide_by((double)a)((double)x) == (double)x / a, "divide_by");
    c(equal_to(a)(x) == (x == a), "equal_to"); c(not_equal_to(a)(x) == (x != a), "not_equal_to"); c(greater_than(a)(x) == (x > a), "greater_than"); c(greater_eq_than(a)(x) == (x >= a), "greater_eq_than"); c(less_than(a)(x) == (x < a), "less_than"); c(less_eq_than(a)(x) == (x <= a), "less_eq_than");
    c(between(a, b)(x) == (a <= x && x <= b), "between"); V v{ a, b, x }; c(is_size(3)(v) && !is_size(2)(v), "is_size"); c(element_at(2)(v) == x, "element_at"); c(detail::max(a, b, x) == std::max({ a, b, x }) && detail::min(a, b, x) == std::min({ a, b, x }), "max/min");
    int calls = 0; auto f = [&](int y) { calls++; return y + a; }; function_ref<int(int)> r(f); c(bool(r) && r(x) == x + a && calls == 1, "function_ref"); function_ref<int(int)> r2 = r; c(r2(b) == b + a && calls == 2, "function_ref copy"); function_ref<int(int)> r0; c(!r0, "empty function_ref");
    auto up = std::make_unique<int>(a); move_only_function<int(int)> m([u = std::move(up)](int y) { return y * *u; }); c(bool(m) && m(x) == x * a, "move_only_function"); move_only_function<int(int)> m2(std::move(m)); c(!m && m2(x) == x * a, "move_only_function move"); m.swap(m2); c(bool(m) && !m2 && m(b) == b * a, "move_only_function swap");
    int z = 0; { scope_exit g([&] { z++; }); } c(z == 1, "scope_exit"); try { scope_exit g([&] { z++; }); throw 1; } catch (int) {} c(z == 2, "scope_exit with an exception");
}

static void long_seqs(int n) {
    int mode = mc::range(0, 8); V v; for (int i = 0; i < n; i++) v.push_back(mode == 0 ? i : mode == 1 ? n - i : mode == 2 ? i % 3 : mode == 3 ? (i * 7) % n : mode == 4 ? (i * i) % 11 : mode == 5 ? 1 : mode == 6 ? (i == n - 1 ? 4 : 0) : mode == 7 ? (i == n / 2 ? -1 : 3 - i / n) : (i < n / 2 ? i : n - i)); check_seq(v);
    V b; for (int i = 0; i < n; i++) b.push_back((i * 5) % (n / 2 + 1)); V lo = v, hi = v; elementwise_min(lo, b, inplace_t{}); elementwise_max(hi, b, inplace_t{}); for (int i = 0; i < n; i++) ck(lo[i] == std::min(v[i], b[i]) && hi[i] == std::max(v[i], b[i]), "elementwise min or max is wrong", v, show(b));
    std::vector<std::string> c; std::vector<size_t> idx; for (int i = 0; i < n; i++) { c.push_back(std::to_string(i) + std::string(20, 'x')); if (mode != 2 || i % 3) idx.push_back(mode % 2 ? i : size_t(n - 1 - i)); } auto s1 = select(c, idx); auto c2 = c; auto s2 = select(std::move(c2), idx); bool ok = s1.size() == idx.size() && s2.size() == idx.size(); for (size_t i = 0; ok && i < idx.size(); i++) ok = s1[i] == c[idx[i]] && s2[i] == c[idx[i]]; ck(ok, "select is wrong", v);
    struct G { using result_type = uint64_t; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ull; } int mode; uint64_t i = 0; uint64_t operator()() { i++; return i % 3 == 2 ? i * 0x9e3779b97f4a7c15ull : mode == 0 ? 0 : mode == 1 ? ~0ull : mode == 2 ? (i % 2 ? ~0ull - i : i) : i * 0x9e3779b97f4a7c15ull; } };
    for (int k : { 0, 1, n / 3, n - 1, n }) { V o(n), p; for (int i = 0; i < n; i++) o[i] = i; p = o; partial_shuffle(p.begin(), p.begin() + k, p.end(), G{ mode % 4 }); V q = p; std::sort(q.begin(), q.end()); ck(q == o, "partial_shuffle loses elements", p); }
}

static void setup() {
    for (int n : { 12, 13, 15, 16, 17, 18, 20, 23, 24, 31, 32, 33, 34, 40, 48, 49, 63, 64, 65, 66, 80, 96, 100, 127, 128, 129, 200, 255, 256, 257, 300 }) if (n <= 130 || mc::thorough() || n > 254) mc::add_task(mc::fmt("long sequences n=%d", n), [=] { long_seqs(n); });
    for (int n : { 200, 255, 256, 257, 300, 513 }) mc::add_task(mc::fmt("lower_bound n=%d", n), [=] { lower_bounds(n); });
    int L = mc::thorough() ? 7 : 6;
    for (int n = 0; n <= L; n++) mc::add_task(mc::fmt("sequences n=%d", n), [=] { seqs(n, 4); });
    for (int n = L + 1; n <= L + 4; n++) mc::add_task(mc::fmt("sequences n=%d, two values", n), [=] { seqs(n, 2); });
    for (int n = 0; n <= 4; n++) mc::add_task(mc::fmt("pairs n=%d", n), [=] { pairs(n); });
    for (int n = 1; n <= 4; n++) for (int k = 0; k <= 4; k++) mc::add_task(mc::fmt("select n=%d k=%d", n, k), [=] { selects(n, k); });
    for (int n = 0; n <= 4; n++) for (int k = 0; k <= std::min(n, 3); k++) { mc::add_task(mc::fmt("partial_shuffle n=%d k=%d", n, k), [=] { shuffles(n, k); }); mc::add_task(mc::fmt("partial_shuffle reach n=%d k=%d", n, k), [=] { shuffle_reach(n, k); }); }
    for (int n = 0; n <= 140; n++) mc::add_task(mc::fmt("lower_bound n=%d", n), [=] { lower_bounds(n); });
    for (int n : { 8, 9, 10, 11, 20, 25, 40, 65 }) mc::add_task(mc::fmt("partial_argsort n=%d", n), [=] { long_partial(n); });
    for (int n = 0; n <= 6; n++) mc::add_task(mc::fmt("iterators n=%d", n), [=] { iters(n); });
    for (int n = 0; n <= 6; n++) mc::add_task(mc::fmt("element access n=%d", n), [=] { accesses(n); });
    mc::add_task("ints 8", ints<int8_t>); mc::add_task("ints u8", ints<uint8_t>); mc::add_task("ints 32", ints<int>); mc::add_task("ints u32", ints<unsigned>); mc::add_task("ints 64", ints<int64_t>); mc::add_task("ints u64", ints<uint64_t>);
    mc::add_task("functors", functors);
}
MC_MAIN(setup)
