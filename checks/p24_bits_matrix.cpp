// P24: dynamic_bitset against vector<bool>, Matrix against a vector of rows.
#include "mc.hpp"
#include "utility/dynamic_bitset.hpp"
#include "utility/matrix.hpp"
#include <string>
#include <numeric>
using namespace gapp::detail;
using M = std::vector<bool>;
static std::string seq;

static const std::vector<int> SZ = { 0, 1, 2, 63, 64, 65, 127, 128, 129, 192, 257, 320, 1030 };

static void check_bits(const dynamic_bitset& b, const M& m) {
    mc::step();
    size_t ones = 0; for (bool x : m) ones += x;
    size_t f1 = std::find(m.begin(), m.end(), true) - m.begin(), f0 = std::find(m.begin(), m.end(), false) - m.begin();
    auto why = [&](const char* w) { mc::fail(std::string("bitset ") + w, seq); };
    if (b.size() != m.size()) why("size is wrong");
    if (b.empty() != m.empty()) why("empty is wrong");
    for (size_t i = 0; i < m.size(); i++) if (b[i] != m[i]) mc::fail("bitset content is wrong", seq + mc::fmt(": bit %zu of %zu is %d", i, m.size(), (int)b[i]));
    if (b.popcount() != ones) why("popcount is wrong");
    if (b.any_set() != (ones > 0)) why("any_set is wrong");
    if (b.none_set() != (ones == 0)) why("none_set is wrong");
    if (b.all_set() != (ones == m.size())) why("all_set is wrong");
    if (b.find_first(true) != f1) why("find_first(true) is wrong");
    if (b.find_first(false) != f0) why("find_first(false) is wrong");
}
static void bits(int depth, int start) {
    seq = mc::fmt("size %d", start);
    dynamic_bitset b(start); M m(start);
    if (mc::flip()) { bool v = mc::flip(); b = dynamic_bitset(start, v); m.assign(start, v); seq += mc::fmt(" all %d", v); }
    check_bits(b, m);
    dynamic_bitset old = b; M oldm = m;
    for (int d = 0; d < depth; d++) {
        switch (mc::choose(7)) {
        case 0: { int n = mc::pick_from(SZ); bool v = mc::flip(); b.resize(n, v); m.resize(n, v); seq += mc::fmt(" resize(%d,%d)", n, v); break; }
        case 1: { bool v = mc::flip(); b.fill(v); m.assign(m.size(), v); seq += mc::fmt(" fill(%d)", v); break; }
        case 2: { if (m.empty()) throw mc::Skip(); int s = (int)m.size(); std::vector<int> pos{ 0, s - 1, s / 2, 63, 64, 128 }; int i = mc::pick_from(pos); if (i >= s) throw mc::Skip();
            switch (mc::choose(4)) { case 0: b[i] = true; m[i] = true; seq += mc::fmt(" [%d]=1", i); break; case 1: b[i] = false; m[i] = false; seq += mc::fmt(" [%d]=0", i); break;
                case 2: b[i].flip(); m[i].flip(); seq += mc::fmt(" flip(%d)", i); break; case 3: b[i] = b[0]; m[i] = m[0]; seq += mc::fmt(" [%d]=[0]", i); break; }
            break; }
        case 3: b.clear(); m.clear(); seq += " clear"; break;
        case 4: b = ~b; m.flip(); seq += " complement"; break;
        case 5: { dynamic_bitset c(b); check_bits(c, m); b = std::move(c); seq += " copy+move"; break; }
        case 6: std::swap(b, old); std::swap(m, oldm); seq += " swap with saved"; break;
        }
        check_bits(b, m); check_bits(old, oldm);
        if ((b == old) != (m == oldm)) mc::fail("bitset equality is wrong", seq);
        uint64_t h = m.size(); for (bool x : m) h = mc::hmix(h, x); mc::state(h);
    }
    mc::sample(seq);
}

// ---- matrix ----
struct MM { std::vector<std::vector<int>> r; size_t c = 0; };
using Mat = Matrix<int>;
static void check_mat(Mat& a, const MM& m) {
    mc::step();
    const Mat& ca = a;
    auto bad = [&](const char* w) { std::string s = seq + " | got " + std::to_string(a.nrows()) + "x" + std::to_string(a.ncols()) + " expected " + std::to_string(m.r.size()) + "x" + std::to_string(m.c); mc::fail(std::string("matrix ") + w, s); };
    size_t n = m.c ? m.r.size() : 0;
    if (a.nrows() != n || a.size() != n) bad("row count is wrong");
    if (n && a.ncols() != m.c) bad("column count is wrong");
    if (a.empty() != (n == 0)) bad("empty is wrong");
    if (a.end() - a.begin() != (ptrdiff_t)n) bad("row iterator distance is wrong");
    size_t i = 0;
    for (auto row : a) { if (row.size() != m.c) bad("row size is wrong"); if (!(row == m.r[i])) bad("row content is wrong"); i++; }
    if (i != n) bad("row iteration is wrong");
    for (auto row : ca) { i--; (void)row; if (!(ca[n - 1 - i] == m.r[n - 1 - i])) bad("const row content is wrong"); }
    for (size_t r = 0; r < n; r++) for (size_t c = 0; c < m.c; c++) {
        if (a(r, c) != m.r[r][c] || ca(r, c) != m.r[r][c] || a[r][c] != m.r[r][c] || ca[r][c] != m.r[r][c]) bad("element access is wrong");
        if (&a(r, c) != &a[r][c] || &a[r][c] != a.data() + r * m.c + c || std::to_address(a[r].begin()) + c != &a[r][c]) bad("row view does not alias the matrix");
    }
    for (size_t c = 0; n && c < m.c; c++) { auto col = a.column(c); if (col.size() != n) bad("column is wrong"); for (size_t r = 0; r < n; r++) if (col[r] != m.r[r][c]) bad("column is wrong"); }
    if (n) { if (!(a.front() == m.r.front()) || !(a.back() == m.r.back()) || !(ca.front() == m.r.front()) || !(ca.back() == m.r.back())) bad("front or back is wrong");
        auto rit = a.rbegin(); for (size_t r = n; r-- > 0; ++rit) if (!(*rit == m.r[r])) bad("reverse iteration is wrong"); if (rit != a.rend()) bad("reverse iteration is wrong"); }
}
static int counter;
static MM mk(Mat& a, int nr, int nc) { a = Mat(nr, nc); MM m; m.c = nc; m.r.assign(nc ? nr : 0, std::vector<int>(nc)); for (size_t i = 0; i < m.r.size(); i++) for (int j = 0; j < nc; j++) a(i, j) = m.r[i][j] = ++counter % 7; return m; }
// every value, or the corners of a wide range
static int rg(int lo, int hi) { if (hi - lo <= 6) return mc::range(lo, hi); int v[] = { lo, lo + 1, (lo + hi) / 2, hi - 1, hi }; return v[mc::choose(5)]; }
static void mats(int depth, int nr, int nc) {
    counter = 0; seq = mc::fmt("%dx%d", nr, nc);
    Mat a, b; MM m = mk(a, nr, nc), w = mk(b, 2, 2);
    check_mat(a, m); check_mat(b, w);
    for (int d = 0; d < depth; d++) {
        size_t n = m.c ? m.r.size() : 0;
        auto need = [](bool x) { if (!x) throw mc::Skip(); };
        auto newrow = [&](size_t k) { std::vector<int> v(k); for (auto& x : v) x = ++counter % 7; return v; };
        switch (mc::choose(17)) {
        case 0: { need(n > 0); int r = rg(0, n - 1), c = rg(0, m.c - 1); int v = 20 + d; if (mc::flip()) a(r, c) = v; else a[r][c] = v; m.r[r][c] = v; seq += mc::fmt(" (%d,%d)=%d", r, c, v); break; }
        case 1: { need(n > 0); int r = rg(0, n - 1); auto v = newrow(m.c); a[r] = v; m.r[r] = v; seq += mc::fmt(" row %d = vector", r); break; }
        case 2: { need(n > 0); int r = rg(0, n - 1), s = rg(0, n - 1); if (mc::flip()) a[r] = a[s]; else a[r] = std::as_const(a)[s]; m.r[r] = m.r[s]; seq += mc::fmt(" row %d = row %d", r, s); break; }
        case 3: { need(n > 0); int r = rg(0, n - 1), s = rg(0, n - 1); swap(a[r], a[s]); std::swap(m.r[r], m.r[s]); seq += mc::fmt(" swap rows %d %d", r, s); break; }
        case 4: { size_t k = n ? m.c : (size_t)rg(1, 2); auto v = newrow(k); a.append_row(v); if (!n) { m.r.clear(); m.c = k; } m.r.push_back(v); seq += " append"; break; }
        case 5: { need(n > 0); a.pop_back(); m.r.pop_back(); seq += " pop_back"; break; }
        case 6: { int k = rg(0, 4); need(m.c > 0); a.resize(k, m.c, 9); m.r.resize(k, std::vector<int>(m.c, 9)); seq += mc::fmt(" resize rows %d", k); break; }
        case 7: { int k = rg(0, 3), l = rg(0, 3); a.clear(); a.resize(k, l, 8); m.c = l; m.r.assign(l ? k : 0, std::vector<int>(l, 8)); seq += mc::fmt(" clear, resize(%d,%d)", k, l); break; }
        case 8: a.clear(); m = MM(); seq += " clear"; break;
        case 9: a = b; m = w; seq += " a=b"; break;
        case 10: { Mat t(b); a = std::move(t); m = w; seq += " a=move(copy of b)"; break; }
        case 11: swap(a, b); std::swap(m, w); seq += " swap"; break;
        case 12: { need(n > 0); int f = rg(0, n - 1), l = rg(f, n); Mat t(std::as_const(a).begin() + f, std::as_const(a).begin() + l); MM s; s.c = m.c; s.r.assign(m.r.begin() + f, m.r.begin() + l); if (s.r.empty()) s.c = 0; seq += mc::fmt(" rows [%d,%d)", f, l); check_mat(t, s); a = t; m = s; break; }
        case 13: { need(n > 0); int r = rg(0, n - 1); std::vector<int> v = a[r]; gapp::small_vector<int> sv = a[r]; std::span<int> sp = a[r]; need(true); seq += " conversions";
            if (v != m.r[r] || !std::equal(sv.begin(), sv.end(), v.begin(), v.end()) || sp.size() != v.size() || sp.data() != &a(r, 0)) mc::fail("row conversion is wrong", seq); sp[0] = 30; m.r[r][0] = 30; break; }
        case 14: { need(n > 0); int r = rg(0, n - 1); auto v = newrow(m.c); auto v0 = v; if (mc::flip()) swap(a[r], std::span<int>(v)); else swap(std::span<int>(v), a[r]); if (v != m.r[r]) mc::fail("row swap with a vector is wrong", seq); m.r[r] = v0; seq += " swap row with vector"; break; }
        case 15: { Mat t(2, 2, 5); MM s; s.c = 2; s.r.assign(2, { 5, 5 }); check_mat(t, s); Mat u({ { 1, 2, 3 }, { 4, 5, 6 } }); MM x; x.c = 3; x.r = { { 1, 2, 3 }, { 4, 5, 6 } }; check_mat(u, x); Mat e{}; a = u; m = x; seq += " constructors"; break; }
        case 16: { need(n > 0); int r = rg(0, n - 1), s = rg(0, n - 1); if ((a[r] == a[s]) != (m.r[r] == m.r[s]) || (std::as_const(a)[r] == std::as_const(a)[s]) != (m.r[r] == m.r[s])) mc::fail("row comparison is wrong", seq); break; }
        }
        check_mat(a, m); check_mat(b, w);
        size_t na = m.c ? m.r.size() : 0, nb = w.c ? w.r.size() : 0;
        bool want = (na == 0 && nb == 0) || (na == nb && m.c == w.c && m.r == w.r);
        if ((a == b) != want || !(a == a) || !(Mat(a) == a)) mc::fail("matrix comparison is wrong", seq);
        uint64_t h = m.c; for (auto& r : m.r) for (int x : r) h = mc::hmix(h, x); mc::state(h);
    }
}

/** Rows of matrices of any shapes, and vectors, are equal if they have the same elements. */
static void rows() {
    auto vals = [](int len) { std::vector<int> v; for (int i = 0; i < len; i++) v.push_back(mc::range(1, 2)); return v; };
    auto x = vals(mc::range(1, 4)), y = vals(mc::range(1, 4)); int i = mc::range(0, 1), j = mc::range(0, 1); Mat a(2, x.size(), 7), b(2, y.size(), 7); for (size_t k = 0; k < x.size(); k++) a(i, k) = x[k]; for (size_t k = 0; k < y.size(); k++) b(j, k) = y[k]; const Mat &ca = a, &cb = b; bool want = x == y; mc::step();
    std::string w; for (int v : x) w += std::to_string(v); w += " and "; for (int v : y) w += std::to_string(v); MC_CHECK((a[i] == b[j]) == want && (b[j] == a[i]) == want && (ca[i] == cb[j]) == want && (cb[j] == ca[i]) == want, "row comparison is wrong", "%s", w.c_str()); MC_CHECK((a[i] != b[j]) != want, "row comparison is wrong", "%s", w.c_str());
    MC_CHECK((a[i] == y) == want && (y == a[i]) == want && (ca[i] == y) == want && (cb[j] == x) == want, "comparison of a row with a vector is wrong", "%s", w.c_str()); mc::state(mc::hbytes(w.data(), w.size()));
}
/** The bit masks for every number of bits. */
template<typename T> void masks() {
    constexpr size_t B = gapp::detail::bitsizeof<T>; MC_CHECK(B == sizeof(T) * 8, "a bit mask is wrong", "size %zu", B); size_t n = mc::range(0, (int)B); std::vector<bool> r(B), l(B); for (size_t i = 0; i < n; i++) r[i] = true, l[B - 1 - i] = true; T right = gapp::detail::mask_right_n<T>(n), left = gapp::detail::mask_left_n<T>(n); mc::step();
    for (size_t i = 0; i < B; i++) { MC_CHECK(bool(right >> i & 1) == r[i] && (n == B || gapp::detail::is_nth_bit_set(right, i) == r[i]), "a bit mask is wrong", "right %zu bit %zu", n, i); MC_CHECK(bool(left >> i & 1) == l[i] && gapp::detail::is_nth_bit_set(left, i) == l[i], "a bit mask is wrong", "left %zu bit %zu", n, i); }
    MC_CHECK(gapp::detail::lsb(right) == (n > 0) && gapp::detail::msb(right) == (n == B) && gapp::detail::msb(left) == (n > 0) && gapp::detail::lsb(left) == (n == B), "a bit mask is wrong", "ends %zu", n); MC_CHECK(gapp::detail::block_of<T>(true) == T(~T{ 0 }) && gapp::detail::block_of<T>(false) == T{ 0 }, "a bit mask is wrong", "block"); mc::state(n);
}
static void setup() {
    mc::add_task("rows of different matrices", rows); mc::add_task("masks 64", masks<std::uint64_t>); mc::add_task("masks 32", masks<std::uint32_t>);
    for (int s : SZ) mc::add_task(mc::fmt("bits %d", s), [=] { bits(mc::depth(3, 4), s); });
    for (int r = 0; r <= 3; r++) for (int c = 0; c <= 3; c++) mc::add_task(mc::fmt("matrix %dx%d", r, c), [=] { mats(mc::depth(3, 4), r, c); });
    for (int r : { 1, 2, 4, 5, 9, 17, 33, 40, 100 }) for (int c : { 1, 2, 4, 8, 16, 17, 33, 70, 300 }) if (std::max(r, c) > 3 && r * c < 3000) mc::add_task(mc::fmt("matrix %dx%d", r, c), [=] { mats(1, r, c); });
}
MC_MAIN(setup)
