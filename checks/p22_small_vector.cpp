// P22: small_vector against std::vector<int> as the model, over all operation sequences from all small states.
#include "mc.hpp"
#include "tracked.hpp"
#include "utility/small_vector.hpp"
#include <list>
#include <sstream>
#include <string>
#include <optional>
using namespace trk;

static const char* cur_op = "";
static std::string seq;
static void opname(const std::string& s) { seq += s + "; "; mc::note(seq); }

// a single pass input iterator over ints
template<typename T>
struct InIt {
    using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = T;
    const int* p = nullptr;
    T operator*() const { return T(*p); }
    InIt& operator++() { ++p; return *this; }
    struct Proxy { int v; T operator*() const { return T(v); } };
    Proxy operator++(int) { Proxy r{ *p }; ++p; return r; }
    friend bool operator==(const InIt& a, const InIt& b) { return a.p == b.p; }
};

template<typename T, size_t N, typename A>
struct Rig {
    using SV = gapp::small_vector<T, N, A>;
    using M = std::vector<int>;
    static constexpr bool copyable = std::is_copy_constructible_v<T>;
    static constexpr bool nothrow_move = std::is_nothrow_move_constructible_v<T>;

    struct Box { unsigned long c1 = 0xC0FFEE11C0FFEE11; SV v; unsigned long c2 = 0xC0FFEE22C0FFEE22; Box() = default; template<typename... X> explicit Box(std::in_place_t, X&&... x) : v(std::forward<X>(x)...) {} };

    static std::string show(const SV& v) { std::string s = "["; for (auto& e : v) s += std::to_string(val(e)) + " "; return s + "]"; }
    static std::string show(const M& m) { std::string s = "["; for (int e : m) s += std::to_string(e) + " "; return s + "]"; }

    static void valid(const Box& b) {
        MC_CHECK(b.c1 == 0xC0FFEE11C0FFEE11 && b.c2 == 0xC0FFEE22C0FFEE22, "small_vector writes outside its own storage", "%s", seq.c_str());
        MC_CHECK(b.v.size() <= b.v.capacity() && b.v.capacity() >= N, "size exceeds capacity", "%s size=%zu cap=%zu", seq.c_str(), b.v.size(), b.v.capacity());
        MC_CHECK(b.v.size() == size_t(b.v.end() - b.v.begin()) && b.v.empty() == (b.v.size() == 0) && b.v.ssize() == std::ptrdiff_t(b.v.size()), "inconsistent size", "%s", seq.c_str());
        raise(seq.c_str());
        if constexpr (is_tracked<T>) for (auto& e : b.v) MC_CHECK(W().live.count(&e), "an element inside the vector is not alive", "%s", seq.c_str());
    }
    static void same(const SV& v, const M& m, const char* what) {
        bool ok = v.size() == m.size();
        for (size_t i = 0; ok && i < m.size(); i++) ok = val(v[i]) == m[i];
        MC_CHECK(ok, "small_vector differs from std::vector", "%s (%s): %s expected %s", seq.c_str(), what, show(v).c_str(), show(m).c_str());
        if (!m.empty()) MC_CHECK(val(v.front()) == m.front() && val(v.back()) == m.back() && val(*v.data()) == m[0] && val(*v.rbegin()) == m.back() && val(*(v.rend() - 1)) == m.front() && val(v.at(m.size() - 1)) == m.back(),
            "element access differs", "%s", seq.c_str());
        raise(seq.c_str());
    }
    static M values(const SV& v) { M m; for (auto& e : v) m.push_back(val(e)); return m; }

    // brings v into a state: n elements with values base.., storage: 0 as built, 1 heap with spare room, 2 heap tight
    static void prepare(SV& v, int n, int storage, int base) {
        if (storage == 1) v.reserve(N + 4);
        for (int i = 0; i < n; i++) v.emplace_back(base + i);
        if (storage == 2) { v.reserve(N + 1); while (v.size() < v.capacity()) v.emplace_back(base + (int)v.size()); }
    }

    struct Expect { bool strong = false; };

    // Performs one chosen operation on a (and b). m, k are the models. Returns false if the chosen one does not apply.
    // every value, or the corners of a wide range
    static int rg(int lo, int hi) { if (hi - lo <= 20) return mc::range(lo, hi); int v[] = { lo, lo + 1, (lo + hi) / 2, hi - 1, hi }; return v[mc::choose(5)]; }
    static inline bool wide = false;
    static int cnt(int lo, int n) { if (!wide) return mc::range(lo, 3); int c = mc::range(lo, 5); return c <= 3 ? c : c == 4 ? 9 + n / 2 : 3 * n; }
    static void op(Box& A_, Box& B_, M& m, M& k, bool faults) {
        SV& v = A_.v; SV& w = B_.v;
        const int n = (int)m.size();
        bool strong = false;
        M m0 = m, k0 = k;
        M want = m; M wantk = k;
        bool check_k = true, moved = false;
        auto fresh = [] { static int c = 0; return 100; };
        auto go = [&](const std::string& name, auto&& f) {
            opname(name);
            mc::step();
            W().faults = faults;
            bool threw = false;
            try { f(); }
            catch (Fault&) { threw = true; }
            catch (std::bad_alloc&) { threw = true; }
            W().faults = false;
            valid(A_); valid(B_);
            if (threw) {
                seq += "(threw) ";
                if (strong) { same(v, m0, "after an exception (strong guarantee)"); }
                m = values(v); k = values(w);
            } else {
                if (!moved) same(v, want, "content"); else { same(v, want, "content after move"); }
                if (check_k) same(w, wantk, "other"); else wantk = values(w);
                m = want; k = wantk;
            }
        };
        auto posmax = n;
        enum { PUSH, PUSHMOVE, PUSHALIAS, EMPL, EMPLALIAS, POP, CLEAR, RESET, RESIZE, RESIZEV, RESIZEALIAS, RESERVE, SHRINK, INS1, INS1MOVE, INS1ALIAS, EMPLACE, INSN, INSNALIAS, INSFWD, INSIN, INSIL,
            INSLIST, ERASE1, ERASER, ASSN, ASSFWD, ASSIN, ASSIL, COPYASS, MOVEASS, ILASS, SWAP, SELFASS, SELFSWAP, COPYCTOR, MOVECTOR, UNCHECKED, COMPARE, AT, ADLSWAP, MISC, NOPS };
        int o = (int)mc::choose(NOPS);
        const int x = fresh();
        switch (o) {
        case PUSH: if constexpr (copyable) { W().faults = false; T t(x); strong = true; want.push_back(x); go("push_back", [&] { v.push_back(t); }); return; } break;
        case PUSHMOVE: { T t(x); strong = copyable || nothrow_move; want.push_back(x); go("push_back(&&)", [&] { v.push_back(std::move(t)); }); return; }
        case PUSHALIAS: if constexpr (copyable) if (n) { int i = rg(0, n - 1); strong = true; want.push_back(m[i]); go("push_back(v[" + std::to_string(i) + "])", [&] { v.push_back(v[i]); }); return; } break;
        case EMPL: strong = copyable || nothrow_move; want.push_back(x); go("emplace_back", [&] { T& r = v.emplace_back(x); if (val(r) != x || &r != &v.back()) W().error("emplace_back returned a wrong reference"); }); return;
        case EMPLALIAS: if constexpr (copyable) if (n) { int i = rg(0, n - 1); strong = true; want.push_back(m[i]); go("emplace_back(v[" + std::to_string(i) + "])", [&] { v.emplace_back(v[i]); }); return; } break;
        case POP: if (n) { strong = true; want.pop_back(); go("pop_back", [&] { v.pop_back(); }); return; } break;
        case CLEAR: want.clear(); go("clear", [&] { v.clear(); }); return;
        case RESET: want.clear(); go("reset", [&] { v.reset(); if (!v.is_small()) W().error("reset does not return to inline storage"); }); return;
        case RESIZE: { int c = rg(0, n + 3); strong = copyable || nothrow_move; want.resize(c); go("resize(" + std::to_string(c) + ")", [&] { v.resize(c); }); return; }
        case RESIZEV: if constexpr (copyable) { int c = rg(0, n + 3); T t(x); strong = true; want.resize(c, x); go("resize(" + std::to_string(c) + ",x)", [&] { v.resize(c, t); }); return; } break;
        case RESIZEALIAS: if constexpr (copyable) if (n) { int c = rg(0, n + 3), i = rg(0, n - 1); strong = true; want.resize(c, m[i]); go("resize(" + std::to_string(c) + ",v[" + std::to_string(i) + "])", [&] { v.resize(c, v[i]); }); return; } break;
        case RESERVE: { int c = mc::pick({ 0, 1, (int)N, (int)N + 1, (int)N + 3 }); strong = copyable || nothrow_move; go("reserve(" + std::to_string(c) + ")", [&] { v.reserve(c); if (v.capacity() < size_t(c)) W().error("reserve gives too little capacity"); }); return; }
        case SHRINK: strong = copyable || nothrow_move; go("shrink_to_fit", [&] { v.shrink_to_fit(); }); return;
        case INS1: if constexpr (copyable) { int p = rg(0, posmax); T t(x); strong = p == n; want.insert(want.begin() + p, x); go("insert(" + std::to_string(p) + ")", [&] { auto it = v.insert(v.begin() + p, t); if (it - v.begin() != p) W().error("insert returned a wrong iterator"); }); return; } break;
        case INS1MOVE: { int p = rg(0, posmax); T t(x); strong = p == n && (copyable || nothrow_move); want.insert(want.begin() + p, x); go("insert(" + std::to_string(p) + ",&&)", [&] { auto it = v.insert(v.begin() + p, std::move(t)); if (it - v.begin() != p) W().error("insert returned a wrong iterator"); }); return; }
        case INS1ALIAS: if constexpr (copyable) if (n) { int p = rg(0, posmax), i = rg(0, n - 1); strong = p == n; want.insert(want.begin() + p, m[i]); go("insert(" + std::to_string(p) + ",v[" + std::to_string(i) + "])", [&] { v.insert(v.begin() + p, v[i]); }); return; } break;
        case EMPLACE: { int p = rg(0, posmax); strong = p == n && (copyable || nothrow_move); want.insert(want.begin() + p, x); go("emplace(" + std::to_string(p) + ")", [&] { auto it = v.emplace(v.begin() + p, x); if (it - v.begin() != p) W().error("emplace returned a wrong iterator"); }); return; }
        case INSN: if constexpr (copyable) { int p = rg(0, posmax), c = cnt(0, n); T t(x); want.insert(want.begin() + p, c, x); go("insert(" + std::to_string(p) + "," + std::to_string(c) + ",x)", [&] { auto it = v.insert(v.begin() + p, size_t(c), t); if (it - v.begin() != p) W().error("insert returned a wrong iterator"); }); return; } break;
        case INSNALIAS: if constexpr (copyable) if (n) { int p = rg(0, posmax), c = cnt(1, n), i = rg(0, n - 1); want.insert(want.begin() + p, c, m[i]); go("insert(" + std::to_string(p) + "," + std::to_string(c) + ",v[" + std::to_string(i) + "])", [&] { v.insert(v.begin() + p, size_t(c), v[i]); }); return; } break;
        case INSFWD: if constexpr (copyable) { int p = rg(0, posmax), c = cnt(0, n); std::vector<int> src; for (int i = 0; i < c; i++) src.push_back(200 + i); want.insert(want.begin() + p, src.begin(), src.end());
            std::vector<T> ts(src.begin(), src.end()); bool lst = false; go("insert(" + std::to_string(p) + ",range " + std::to_string(c) + ")", [&] { auto it = v.insert(v.begin() + p, ts.begin(), ts.end()); if (it - v.begin() != p) W().error("insert returned a wrong iterator"); }); return; } break;
        case INSLIST: if constexpr (copyable) { int p = rg(0, posmax), c = cnt(0, n); std::vector<short> src; for (int i = 0; i < c; i++) src.push_back(short(300 + i)); want.insert(want.begin() + p, src.begin(), src.end());
            go("insert(" + std::to_string(p) + ",short range " + std::to_string(c) + ")", [&] { auto it = v.insert(v.begin() + p, src.begin(), src.end()); if (it - v.begin() != p) W().error("insert returned a wrong iterator"); }); return; } break;
        case INSIN: { int p = rg(0, posmax), c = rg(0, 3); static const int src[] = { 400, 401, 402 }; want.insert(want.begin() + p, src, src + c);
            go("insert(" + std::to_string(p) + ",input range " + std::to_string(c) + ")", [&] { auto it = v.insert(v.begin() + p, InIt<T>{ src }, InIt<T>{ src + c }); if (it - v.begin() != p) W().error("insert returned a wrong iterator"); }); return; }
        case INSIL: if constexpr (copyable) { int p = rg(0, posmax); want.insert(want.begin() + p, { 500, 501 }); T a(500), b(501); go("insert(" + std::to_string(p) + ",{2})", [&] { auto it = v.insert(v.begin() + p, { a, b }); if (it - v.begin() != p) W().error("insert returned a wrong iterator"); }); return; } break;
        case ERASE1: if (n) { int p = rg(0, n - 1); want.erase(want.begin() + p); go("erase(" + std::to_string(p) + ")", [&] { auto it = v.erase(v.begin() + p); if (it - v.begin() != p) W().error("erase returned a wrong iterator"); }); return; } break;
        case ERASER: { int p = rg(0, n), q = rg(p, n); want.erase(want.begin() + p, want.begin() + q); go("erase(" + std::to_string(p) + "," + std::to_string(q) + ")", [&] { auto it = v.erase(v.begin() + p, v.begin() + q); if (it - v.begin() != p) W().error("erase returned a wrong iterator"); }); return; }
        case ASSN: if constexpr (copyable) { int c = rg(0, n + 3); T t(x); want.assign(c, x); go("assign(" + std::to_string(c) + ",x)", [&] { v.assign(size_t(c), t); }); return; } break;
        case ASSFWD: if constexpr (copyable) { int c = rg(0, n + 3); std::vector<int> src; for (int i = 0; i < c; i++) src.push_back(600 + i); want = src; std::list<T> ts(src.begin(), src.end()); std::vector<T> tv(src.begin(), src.end());
            go("assign(range " + std::to_string(c) + ")", [&] { v.assign(tv.begin(), tv.end()); }); return; } break;
        case ASSIN: { int c = rg(0, n + 2); std::vector<int> src; for (int i = 0; i < c; i++) src.push_back(700 + i); want = src; go("assign(input range " + std::to_string(c) + ")", [&] { v.assign(InIt<T>{ src.data() }, InIt<T>{ src.data() + c }); }); return; }
        case ASSIL: if constexpr (copyable) { T a(1), b(2), c(3); want = { 1, 2, 3 }; go("assign({3})", [&] { v.assign({ a, b, c }); }); return; } break;
        case COPYASS: if constexpr (copyable) { want = k; go("a = b", [&] { SV& r = (v = w); if (&r != &v) W().error("assignment returns the wrong object"); }); return; } break;
        case MOVEASS: want = k; check_k = false; go("a = move(b)", [&] { v = std::move(w); }); return;
        case ILASS: if constexpr (copyable) { T a(1), b(2); want = { 1, 2 }; go("a = {2}", [&] { v = { a, b }; }); return; } break;
        case SWAP: want = k; wantk = m; go("swap(member)", [&] { v.swap(w); }); return;
        case ADLSWAP: want = k; wantk = m; go("swap", [&] { using std::swap; swap(v, w); }); return;
        case SELFASS: if constexpr (copyable) { go("a = a", [&] { SV& r = v; v = r; }); return; } break;
        case SELFSWAP: go("a.swap(a)", [&] { v.swap(v); }); return;
        case COPYCTOR: if constexpr (copyable) { go("copy construct", [&] { Box c(std::in_place, v); W().faults = false; valid(c); same(c.v, m0, "copy"); if (!c.v.empty()) { c.v[0] = T(9); } same(v, m0, "source of a copy"); }); return; } break;
        case MOVECTOR: { opname("move construct"); mc::step(); W().faults = faults; try { std::optional<Box> c; c.emplace(std::in_place, std::move(v)); W().faults = false; valid(*c); same(c->v, m0, "moved to"); valid(A_);
                c->v.emplace_back(77); M mm = m0; mm.push_back(77); same(c->v, mm, "moved to, then appended"); } catch (Fault&) {} catch (std::bad_alloc&) {} W().faults = false; valid(A_); m = values(v); return; }
        case UNCHECKED: if constexpr (copyable) if (v.size() < v.capacity()) { T t(x); strong = true; want.push_back(x); want.back() = x; go("push_back_unchecked", [&] { v.push_back_unchecked(t); }); return; } break;
        case COMPARE: { opname("compare"); mc::step(); MC_CHECK((v == w) == (m == k) && (v != w) == (m != k) && ((v <=> w) < 0) == (m < k) && ((v <=> w) > 0) == (m > k) && (v == v), "comparison differs from std::vector", "%s %s %s", seq.c_str(), show(m).c_str(), show(k).c_str()); return; }
        case AT: { opname("at(out of range)"); mc::step(); bool t1 = false, t2 = false; try { v.at(n); } catch (std::out_of_range&) { t1 = true; } try { std::as_const(v).at(n + 7); } catch (std::out_of_range&) { t2 = true; } MC_CHECK(t1 && t2, "at() does not report an index out of range", "%s", seq.c_str()); return; }
        case MISC: { opname("queries"); mc::step(); if constexpr (copyable) { auto s = v.std_vec(); MC_CHECK(s.size() == m.size(), "std_vec differs", "%s", seq.c_str()); for (size_t i = 0; i < s.size(); i++) MC_CHECK(val(s[i]) == m[i], "std_vec differs", "%s", seq.c_str()); }
            M r; for (auto it = v.crbegin(); it != v.crend(); ++it) r.push_back(val(*it)); M rm(m.rbegin(), m.rend()); MC_CHECK(r == rm, "reverse iteration differs", "%s", seq.c_str());
            bool le = false; try { v.reserve(v.max_size() + 1); } catch (std::length_error&) { le = true; } MC_CHECK(le, "reserve beyond max_size is not reported", "%s", seq.c_str()); same(v, m0, "after length_error"); return; }
        }
        throw mc::Skip();
    }

    static void finish() {
        raise(seq.c_str());
        if constexpr (is_tracked<T>) MC_CHECK(W().live.empty(), "elements are leaked", "%s %zu elements", seq.c_str(), W().live.size());
        MC_CHECK(W().blocks.empty(), "memory is leaked", "%s %zu blocks", seq.c_str(), W().blocks.size());
    }

    static void run(int n, int storage, int depth, bool faults) {
        W().reset(); seq.clear();
        {
            Box a, b; M m, k;
            prepare(a.v, n, storage, 1);
            int bs = mc::thorough() || faults ? (int)mc::choose(4) : 1 + (int)mc::choose(2);
            prepare(b.v, bs == 0 ? 0 : bs == 1 ? 1 : bs == 2 ? (int)N + 1 : (int)N, 0, 51);
            m = values(a.v); k = values(b.v);
            opname("a=" + show(m) + (a.v.is_small() ? "inline" : "heap") + " b=" + show(k));
            for (int d = 0; d < depth; d++) {
                op(a, b, m, k, faults && d == 0);
                if (W().faults) W().faults = false;
                uint64_t h = mc::hmix(a.v.size() * 64 + a.v.capacity(), b.v.size() * 64 + b.v.capacity());
                h = mc::hmix(h, a.v.is_small() * 2 + b.v.is_small());
                for (int e : m) h = mc::hmix(h, e); h = mc::hmix(h, 12345); for (int e : k) h = mc::hmix(h, e);
                mc::state(h);
            }
            if (faults) { // the survivor must be usable
                a.v.emplace_back(9); m.push_back(9); valid(a); same(a.v, m, "use after the sequence");
                a.v.resize(1); m.resize(1); valid(a); same(a.v, m, "use after the sequence");
                b.v.clear(); valid(b);
            }
        }
        finish();
    }

    // constructors, including ones that fail half way
    static void ctors(bool faults) {
        W().reset(); seq.clear();
        {
            int c = mc::range(0, (int)N + 3);
            int kind = (int)mc::choose(7);
            M want; std::vector<int> src; for (int i = 0; i < c; i++) src.push_back(10 + i);
            std::optional<Box> b;
            auto mk = [&](const std::string& name, M w, auto&&... args) {
                opname(name + " n=" + std::to_string(c)); mc::step();
                W().faults = faults;
                bool threw = false;
                try { b.emplace(std::in_place, std::forward<decltype(args)>(args)...); } catch (Fault&) { threw = true; } catch (std::bad_alloc&) { threw = true; }
                W().faults = false;
                if (!threw) { valid(*b); same(b->v, w, "constructed"); b->v.emplace_back(5); w.push_back(5); same(b->v, w, "constructed, then appended"); }
            };
            switch (kind) {
            case 0: mk("ctor(n)", M(c, 0), size_t(c)); break;
            case 1: if constexpr (copyable) { T t(7); mk("ctor(n,x)", M(c, 7), size_t(c), t); } break;
            case 2: if constexpr (copyable) { std::vector<T> ts(src.begin(), src.end()); mk("ctor(range)", src, ts.begin(), ts.end()); } break;
            case 3: mk("ctor(input range)", src, InIt<T>{ src.data() }, InIt<T>{ src.data() + c }); break;
            case 4: { std::vector<short> s2(src.begin(), src.end()); mk("ctor(range of short)", src, s2.begin(), s2.end()); break; }
            case 5: { std::vector<long long> s2(src.begin(), src.end()); if constexpr (!is_tracked<T>) mk("ctor(range of long)", src, s2.begin(), s2.end()); break; }
            case 6: if constexpr (copyable) { std::list<T> ts(src.begin(), src.end()); if constexpr (false) mk("", src, 0); else { T a(1), d(2), e(3); mk("ctor({3})", M{ 1, 2, 3 }, std::initializer_list<T>{ a, d, e }); } } break;
            }
            raise(seq.c_str());
        }
        finish();
    }

    static void tasks(const std::string& tn) {
        const int D = mc::thorough() ? 3 : 2;
        for (int st = 0; st < 3; st++) for (int n = 0; n <= (int)N + 2; n++) {
            std::string s = tn + " start n=" + std::to_string(n) + " storage=" + std::to_string(st);
            if (st == 2 && n > 0 && n < (int)N) continue;
            mc::add_task(s + " sequences", [=] { run(n, st, D, false); });
            if (is_tracked<T> || true) mc::add_task(s + " one fault", [=] { run(n, st, mc::thorough() ? 2 : 1, true); }, 1);
        }
        for (int n : { 0, 1, 2, 3, 4, 5, 6, 8, 9, 15, 17, 20, 32, 33, 64, 65, 100, 128, 256, 257, 1000 }) if (n < 100 || !is_tracked<T>) for (int st : { 0, 2 }) mc::add_task(mc::fmt("%s wide start n=%d storage=%d", tn.c_str(), n, st), [=] { wide = true; run(n, st, 1, false); wide = false; });
        mc::add_task(tn + " constructors", [] { ctors(false); });
        mc::add_task(tn + " constructors with one fault", [] { ctors(true); }, 1);
    }
};

// stateful allocators that propagate: memory has to go back to the allocator it came from
template<typename T>
static void allocators() {
    W().reset(); seq.clear();
    using A = Alloc<T, true>; using SV = gapp::small_vector<T, 2, A>;
    {
        int n = mc::range(0, 5), k = mc::range(0, 5);
        SV a{ A(1) }, b{ A(mc::flip() ? 1 : 2) };
        std::vector<int> m, w;
        for (int i = 0; i < n; i++) { a.emplace_back(i); m.push_back(i); }
        for (int i = 0; i < k; i++) { b.emplace_back(50 + i); w.push_back(50 + i); }
        int o = (int)mc::choose(5);
        opname(mc::fmt("allocator ids %d %d, sizes %d %d, op %d", a.get_allocator().id, b.get_allocator().id, n, k, o)); mc::step();
        int ida = a.get_allocator().id, idb = b.get_allocator().id;
        if (o == 0) { a = b; m = w; ida = idb; } else if (o == 1) { a = std::move(b); m = w; w.clear(); for (auto& e : b) w.push_back(val(e)); ida = idb; idb = b.get_allocator().id; }
        else if (o == 2) { a.swap(b); std::swap(m, w); std::swap(ida, idb); } else if (o == 3) { SV c(a); MC_CHECK(c == a, "copy differs", "%s", seq.c_str()); } else { SV c(std::move(a)); MC_CHECK(c.get_allocator().id == ida, "move construction does not take the allocator", "%s", seq.c_str());
            std::vector<int> r; for (auto& e : c) r.push_back(val(e)); MC_CHECK(r == m, "move construction loses elements", "%s", seq.c_str()); m.clear(); for (auto& e : a) m.push_back(val(e)); }
        MC_CHECK(a.get_allocator().id == ida || o == 4, "allocator not propagated", "%s", seq.c_str());
        a.emplace_back(7); m.push_back(7); b.emplace_back(8); w.push_back(8);
        std::vector<int> ra, rb; for (auto& e : a) ra.push_back(val(e)); for (auto& e : b) rb.push_back(val(e));
        MC_CHECK(ra == m && rb == w, "content differs with stateful allocators", "%s", seq.c_str());
        raise(seq.c_str());
    }
    raise(seq.c_str());
    MC_CHECK(W().live.empty() && W().blocks.empty(), "leak with stateful allocators", "%s", seq.c_str());
}

#if PART == 0
void part1(); void part2(); void part3(); void part4(); void part5();
static void setup() {
    part1(); part2(); part3(); part4(); part5();
    mc::add_task("allocators tracked", [] { allocators<Elem<true, true>>(); });
    mc::add_task("allocators int", [] { allocators<int>(); });
}
MC_MAIN(setup)
#elif PART == 1
void part1() { Rig<int, 2, Alloc<int>>::tasks("int/2"); }
#elif PART == 2
void part2() { Rig<Elem<true, true>, 2, Alloc<Elem<true, true>>>::tasks("tracked/2"); }
#elif PART == 3
void part3() { Rig<Elem<false, true>, 2, Alloc<Elem<false, true>>>::tasks("throwing move/2"); }
#elif PART == 4
void part4() { Rig<Elem<true, false>, 2, Alloc<Elem<true, false>>>::tasks("move only/2"); }
#elif PART == 5
void part5() { Rig<double, 3, Alloc<double>>::tasks("double/3"); }
#endif
