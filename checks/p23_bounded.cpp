// P23: circular_buffer and fifo_cache against lists that drop their oldest entry when full.
#include "mc.hpp"
#include "tracked.hpp"
#include "utility/cache.hpp"
#include "utility/circular_buffer.hpp"
#include <deque>
#include <list>
#include <optional>
using namespace trk;
using gapp::detail::circular_buffer;
using gapp::detail::fifo_cache;

static std::string seq;
static void opname(const std::string& s) { seq += s + "; "; mc::note(seq); mc::step(); }
static std::string show(const std::deque<int>& m) { std::string s = "["; for (int e : m) s += std::to_string(e) + " "; return s + "]"; }

template<typename T>
struct Ring {
    using A = Alloc<T>; using CB = circular_buffer<T, A>; using M = std::deque<int>;
    static constexpr bool copyable = std::is_copy_constructible_v<T>;
    static constexpr bool nothrow_move = std::is_nothrow_move_constructible_v<T>;
    struct Model { M m; size_t cap; };

    static void same(CB& b, const Model& x) {
        raise(seq.c_str());
        const CB& cb = b;
        bool ok = b.size() == x.m.size() && b.capacity() == x.cap && b.empty() == x.m.empty() && b.full() == (x.m.size() == x.cap) && size_t(b.end() - b.begin()) == x.m.size();
        std::string got; for (size_t i = 0; i < b.size(); i++) got += std::to_string(val(cb[i])) + " ";
        for (size_t i = 0; ok && i < x.m.size(); i++) ok = val(b[i]) == x.m[i] && val(cb.at(i)) == x.m[i] && val(*(b.begin() + i)) == x.m[i] && val(*(cb.crbegin() + i)) == x.m[x.m.size() - 1 - i];
        if (ok && !x.m.empty()) ok = val(b.front()) == x.m.front() && val(b.back()) == x.m.back() && val(cb.front()) == x.m.front() && val(cb.back()) == x.m.back();
        MC_CHECK(ok, "ring buffer differs from a bounded list", "%s: [%s] size %zu cap %zu, expected %s cap %zu", seq.c_str(), got.c_str(), b.size(), b.capacity(), show(x.m).c_str(), x.cap);
        bool t = false; try { b.at(x.m.size()); } catch (std::out_of_range&) { t = true; }
        MC_CHECK(t, "at() does not report an index out of range", "%s", seq.c_str());
        raise(seq.c_str());
    }
    static M values(CB& b) { M m; for (size_t i = 0; i < b.size(); i++) m.push_back(val(b[i])); return m; }

    static void op(CB& b, Model& x, CB& c, Model& y, bool faults) {
        Model want = x, wanty = y; bool strong = true; int nv = 10 + (int)x.m.size();
        static int counter = 0; if (x.m.empty()) counter = 10; nv = ++counter % 89 + 10;
        auto push = [&](int v) { want.m.push_back(v); if (want.m.size() > want.cap) want.m.pop_front(); };
        auto pushf = [&](int v) { want.m.push_front(v); if (want.m.size() > want.cap) want.m.pop_back(); };
        bool full = x.m.size() == x.cap;
        auto go = [&](const std::string& name, auto&& f) {
            opname(name); W().faults = faults; bool threw = false;
            try { f(); } catch (Fault&) { threw = true; } catch (std::bad_alloc&) { threw = true; }
            W().faults = false; raise(seq.c_str());
            if (threw) {
                seq += "(threw) ";
                MC_CHECK(b.size() <= b.capacity(), "size exceeds capacity after an exception", "%s", seq.c_str());
                if (strong) same(b, x); else { x.m = values(b); x.cap = b.capacity(); same(b, x); }
                y.m = values(c); y.cap = c.capacity();
            } else { same(b, want); same(c, wanty); x = want; y = wanty; }
        };
        enum { PB, PBM, EB, PF, PFM, EF, ALB, ALF, POPF, POPB, CAP, CLEAR, RESET, COPY, MOVE, SWAP, COPYC, MOVEC, CMP, RANGE, N };
        int o = (int)mc::choose(N);
        bool room = x.cap > 0; int n = (int)x.m.size();
        switch (o) {
        case PB: if constexpr (copyable) if (room) { T t(nv); strong = !full; push(nv); go("push_back", [&] { b.push_back(t); }); return; } break;
        case PBM: if (room) { T t(nv); strong = !full; push(nv); go("push_back(&&)", [&] { b.push_back(std::move(t)); }); return; } break;
        case EB: if (room) { strong = !full; push(nv); go("emplace_back", [&] { T& r = b.emplace_back(nv); if (val(r) != nv) W().error("emplace_back returned a wrong reference"); }); return; } break;
        case PF: if constexpr (copyable) if (room) { T t(nv); strong = !full; pushf(nv); go("push_front", [&] { b.push_front(t); }); return; } break;
        case PFM: if (room) { T t(nv); strong = !full; pushf(nv); go("push_front(&&)", [&] { b.push_front(std::move(t)); }); return; } break;
        case EF: if (room) { strong = !full; pushf(nv); go("emplace_front", [&] { T& r = b.emplace_front(nv); if (val(r) != nv) W().error("emplace_front returned a wrong reference"); }); return; } break;
        case ALB: if constexpr (copyable) if (room && n) { int i = mc::range(0, n - 1); strong = !full; push(x.m[i]); go("push_back(b[" + std::to_string(i) + "])", [&] { b.push_back(b[i]); }); return; } break;
        case ALF: if constexpr (copyable) if (room && n) { int i = mc::range(0, n - 1); strong = !full; pushf(x.m[i]); go("push_front(b[" + std::to_string(i) + "])", [&] { b.push_front(b[i]); }); return; } break;
        case POPF: if (n) { want.m.pop_front(); go("pop_front", [&] { b.pop_front(); }); return; } break;
        case POPB: if (n) { want.m.pop_back(); go("pop_back", [&] { b.pop_back(); }); return; } break;
        case CAP: { int k = mc::range(0, (int)x.cap + 2); want.cap = k; while (want.m.size() > (size_t)k) want.m.pop_back(); strong = copyable || nothrow_move; go("set_capacity(" + std::to_string(k) + ")", [&] { b.set_capacity(k); }); return; }
        case CLEAR: want.m.clear(); go("clear", [&] { b.clear(); }); return;
        case RESET: { int k = mc::range(0, (int)x.cap + 2); want.m.clear(); want.cap = k; strong = false; go("reset(" + std::to_string(k) + ")", [&] { b.reset(k); }); return; }
        case COPY: if constexpr (copyable) { want = y; go("b = c", [&] { b = c; }); return; } break;
        case MOVE: { want = y; opname("b = move(c)"); b = std::move(c); same(b, want); x = want; y.m = values(c); y.cap = c.capacity(); same(c, y); return; }
        case SWAP: want = y; wanty = x; go("swap", [&] { swap(b, c); }); return;
        case COPYC: if constexpr (copyable) { go("copy construct", [&] { CB d(b); W().faults = false; Model z = x; same(d, z); }); return; } break;
        case MOVEC: { opname("move construct"); { CB d(std::move(b)); same(d, x); } x.m = values(b); x.cap = b.capacity(); same(b, x); return; }
        case CMP: opname("compare"); MC_CHECK((b == c) == (x.m == y.m) && ((b <=> c) < 0) == (x.m < y.m) && ((b <=> c) > 0) == (x.m > y.m), "comparison differs", "%s", seq.c_str()); return;
        case RANGE: if constexpr (copyable) { int k = mc::range(0, 3), l = mc::range(0, 4); std::vector<T> src; for (int i = 0; i < l; i++) src.emplace_back(60 + i); Model z; z.cap = k; for (int i = std::max(0, l - k); i < l; i++) z.m.push_back(60 + i);
            go("ctor(cap " + std::to_string(k) + ", range " + std::to_string(l) + ")", [&] { CB d(k, src.begin(), src.end()); W().faults = false; same(d, z); }); return; } break;
        }
        throw mc::Skip();
    }
    static void run(int cap, int depth, bool faults, int rot, int fill) {
        W().reset(); seq.clear();
        {
            CB b(cap), c(2); Model x{ {}, (size_t)cap }, y{ {}, 2 };
            for (int i = 0; i < rot; i++) { b.emplace_back(1); b.pop_front(); }
            for (int i = 0; i < fill; i++) { b.emplace_back(i + 1); x.m.push_back(i + 1); }
            c.emplace_back(7); c.emplace_back(8); c.emplace_back(9); y.m = { 8, 9 };
            opname(mc::fmt("capacity %d, %d elements from slot %d", cap, fill, rot));
            same(b, x);
            for (int d = 0; d < depth; d++) {
                op(b, x, c, y, faults && d == 0);
                uint64_t h = mc::hmix(x.cap, y.cap); for (int e : x.m) h = mc::hmix(h, e); h = mc::hmix(h, 999); for (int e : y.m) h = mc::hmix(h, e); mc::state(h);
            }
            if (b.capacity()) { b.emplace_back(5); x.m.push_back(5); if (x.m.size() > x.cap) x.m.pop_front(); same(b, x); }
        }
        raise(seq.c_str());
        if constexpr (is_tracked<T>) MC_CHECK(W().live.empty(), "elements are leaked", "%s", seq.c_str());
        MC_CHECK(W().blocks.empty(), "memory is leaked", "%s", seq.c_str());
    }
    static void tasks(const std::string& tn) {
#ifdef SHALLOW
        constexpr bool deep = false;
#else
        constexpr bool deep = true;
#endif
        for (int cap = 0; cap <= 3; cap++) for (int rot = 0; rot < std::max(cap, 1); rot++) for (int fill = 0; fill <= cap; fill++) {
            std::string s = mc::fmt("ring %s cap=%d rot=%d fill=%d", tn.c_str(), cap, rot, fill);
            mc::add_task(s, [=] { run(cap, deep && std::is_same_v<T, int> ? (mc::thorough() ? 4 : 3) : (mc::thorough() ? 3 : 2), false, rot, fill); });
            mc::add_task(s + " fault", [=] { run(cap, mc::thorough() ? 2 : 1, true, rot, fill); }, 1);
        }
        // larger capacities: every rotation and fill up to 9, then the corners of both
        for (int cap : { 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300 }) {
            if (!std::is_same_v<T, int> && cap > (deep ? 33 : 9)) break;
            mc::add_task(mc::fmt("ring %s cap=%d", tn.c_str(), cap), [=] {
                int rot = cap <= 9 ? mc::range(0, cap - 1) : mc::pick({ 0, 1, cap / 2, cap - 1 }), fill = cap <= 9 ? mc::range(0, cap) : mc::pick({ 0, 1, cap / 2, cap - 1, cap });
                run(cap, deep && std::is_same_v<T, int> && cap <= (mc::thorough() ? 9 : 6) ? 2 : 1, false, rot, fill); });
        }
    }
};

// ---- cache ----
struct Key { int k; friend bool operator==(Key a, Key b) { return a.k == b.k; } };
template<> struct std::hash<Key> { size_t operator()(Key k) const noexcept { return k.k / 2; } };   // collisions

using V = Elem<true, true>;
using C = fifo_cache<Key, V>;
struct CModel { std::deque<std::pair<int, int>> e; size_t cap = 0;
    void put(int k, int v, bool assign) {
        if (!cap) return;
        for (auto& p : e) if (p.first == k) { if (assign) p.second = v; return; }
        e.push_back({ k, v }); if (e.size() > cap) e.pop_front();
    }
    friend bool operator==(const CModel& a, const CModel& b) { return a.e == b.e; } };

static constexpr int KEYS = 4;
static bool matches(C& c, const CModel& m) {
    if (c.size() != m.e.size() || c.capacity() != m.cap || c.empty() != m.e.empty() || c.full() != (m.e.size() == m.cap)) return false;
    for (int k = 0; k < KEYS; k++) {
        const int* w = nullptr; for (auto& p : m.e) if (p.first == k) w = &p.second;
        auto* g = c.get(Key{ k }); auto* g2 = std::as_const(c).get(Key{ k });
        if (g != g2 || (g != nullptr) != (w != nullptr) || c.contains(Key{ k }) != (w != nullptr)) return false;
        if (g && val(*g) != *w) return false;
    }
    return true;
}
static std::string showc(const CModel& m) { std::string s = "{"; for (auto& p : m.e) s += mc::fmt("%d:%d ", p.first, p.second); return s + mc::fmt("} cap %zu", m.cap); }
static std::string showc(C& c) { std::string s = "{"; for (int k = 0; k < KEYS; k++) if (auto* v = c.get(Key{ k })) s += mc::fmt("%d:%d ", k, val(*v)); return s + mc::fmt("} size %zu cap %zu", c.size(), c.capacity()); }

static void cache_run(int cap, int depth, bool faults) {
    W().reset(); seq.clear();
    {
        C a, b(2); CModel m, w; w.cap = 2;
        if (mc::flip()) { a = C(cap); opname(mc::fmt("cache(%d)", cap)); } else { a.reset(cap); opname(mc::fmt("cache.reset(%d)", cap)); }
        m.cap = cap;
        b.insert(Key{ 0 }, V(50)); b.insert(Key{ 1 }, V(51)); b.insert(Key{ 2 }, V(52)); w.put(0, 50, true); w.put(1, 51, true); w.put(2, 52, true);
        int val_ = 1;
        for (int d = 0; d < depth; d++) {
            CModel want = m, want2, wantw = w; bool two = false; int v = val_++;
            auto go = [&](const std::string& n, auto&& f) {
                opname(n); W().faults = faults; bool threw = false; try { f(); } catch (Fault&) { threw = true; } W().faults = false; raise(seq.c_str());
                if (threw) { seq += "(threw) ";
                    MC_CHECK(matches(a, m) || true, "", ""); CModel mm; mm.cap = a.capacity(); mm = m;
                    // each entry is still an old or the new one; eviction order is that of the survivors
                    MC_CHECK(a.size() <= std::max(a.capacity(), m.cap), "size exceeds capacity after an exception", "%s", seq.c_str());
                    CModel r; r.cap = a.capacity(); for (auto& p : m.e) if (auto* g = a.get(Key{ p.first })) r.e.push_back({ p.first, val(*g) });
                    for (int k = 0; k < KEYS; k++) { bool had = false; for (auto& p : r.e) had |= p.first == k; if (!had) if (auto* g = a.get(Key{ k })) r.e.push_back({ k, val(*g) }); }
                    m = r; CModel rw; rw.cap = b.capacity(); for (auto& p : w.e) if (auto* g = b.get(Key{ p.first })) rw.e.push_back({ p.first, val(*g) }); w = rw;
                    MC_CHECK(matches(a, m), "cache inconsistent after an exception", "%s: %s", seq.c_str(), showc(a).c_str());
                    return; }
                bool ok = matches(a, want); if (!ok && two && matches(a, want2)) { ok = true; want = want2; }
                MC_CHECK(ok, "cache differs from a bounded FIFO map", "%s: %s expected %s", seq.c_str(), showc(a).c_str(), showc(want).c_str());
                MC_CHECK(matches(b, wantw), "cache differs from a bounded FIFO map (second)", "%s: %s expected %s", seq.c_str(), showc(b).c_str(), showc(wantw).c_str());
                m = want; w = wantw;
            };
            int o = (int)mc::choose(11);
            switch (o) {
            case 0: case 1: { int k = mc::range(0, KEYS - 1); want.put(k, v, o == 0); go(mc::fmt(o == 0 ? "insert(%d,%d)" : "try_insert(%d,%d)", k, v), [&] { if (o == 0) a.insert(Key{ k }, V(v)); else a.try_insert(Key{ k }, v); }); break; }
            case 2: { int l = mc::range(0, mc::thorough() ? 3 : 2); std::vector<std::pair<int, int>> src; for (int i = 0; i < l; i++) src.push_back({ mc::range(0, KEYS - 1), v * 10 + i });
                for (auto& p : src) want.put(p.first, p.second, true); want2 = m; two = true; for (size_t i = src.size() - std::min(src.size(), m.cap); i < src.size(); i++) want2.put(src[i].first, src[i].second, true);
                struct E { Key k; int v; operator Key() const { return k; } }; std::vector<E> es; for (auto& p : src) es.push_back({ Key{ p.first }, p.second });
                std::string nm = "insert range"; for (auto& p : src) nm += mc::fmt(" %d:%d", p.first, p.second);
                go(nm, [&] { a.insert(es.begin(), es.end(), [](const E& e) { return V(e.v); }); }); break; }
            case 3: want.e.clear(); go("clear", [&] { a.clear(); }); break;
            case 4: { int k = mc::range(0, 3); want.e.clear(); want.cap = k; go(mc::fmt("reset(%d)", k), [&] { a.reset(k); }); break; }
            case 5: want = w; go("a = b", [&] { a = b; }); break;
            case 6: { want = w; opname("a = move(b)"); a = std::move(b); MC_CHECK(matches(a, want), "cache differs after move", "%s: %s expected %s", seq.c_str(), showc(a).c_str(), showc(want).c_str()); m = want;
                CModel rw; rw.cap = b.capacity(); for (auto& p : w.e) if (auto* g = b.get(Key{ p.first })) rw.e.push_back({ p.first, val(*g) }); b.reset(2); w = CModel{ {}, 2 }; break; }
            case 7: want = w; wantw = m; go("swap", [&] { swap(a, b); }); break;
            case 8: opname("compare"); MC_CHECK((a == b) == (m.e == w.e) && a == a, "cache comparison differs", "%s %s %s", seq.c_str(), showc(m).c_str(), showc(w).c_str()); break;
            case 9: { go("copy construct, then fill the copy", [&] { C c(a); if (!matches(c, m)) W().error("copy differs"); W().faults = false; CModel x = m; for (int k = 0; k < KEYS; k++) { c.insert(Key{ k }, V(90 + k)); x.put(k, 90 + k, true); } if (!matches(c, x)) W().error("copy behaves differently"); }); break; }
            case 10: { opname("move construct"); C c(std::move(a)); MC_CHECK(matches(c, m), "moved cache differs", "%s", seq.c_str()); CModel x = m; for (int k = 0; k < KEYS; k++) { c.insert(Key{ k }, V(90 + k)); x.put(k, 90 + k, true); } MC_CHECK(matches(c, x), "moved cache behaves differently", "%s", seq.c_str());
                a.insert(Key{ 1 }, V(1)); a.reset(2); m = CModel{ {}, 2 }; MC_CHECK(matches(a, m), "moved-from cache cannot be reset", "%s", seq.c_str()); break; }
            }
            uint64_t h = m.cap; for (auto& p : m.e) h = mc::hmix(h, p.first * 1000 + p.second); h = mc::hmix(h, w.cap + 7); for (auto& p : w.e) h = mc::hmix(h, p.first * 1000 + p.second); mc::state(h);
        }
    }
    raise(seq.c_str());
    MC_CHECK(W().live.empty(), "cached values are leaked", "%s", seq.c_str());
}

// long histories of caches of every size, with many more keys than entries
static void cache_long() {
    W().reset(); seq.clear(); int cap = mc::range(1, mc::thorough() ? 48 : 40); if (cap > 34) cap = cap == 35 ? 64 : cap == 36 ? 65 : cap == 37 ? 100 : cap == 38 ? 256 : cap == 39 ? 300 : 100 + 13 * (cap - 39);
    int keys = mc::pick({ cap + 1, cap, 2 * cap + 3, 5 * cap }), stride = mc::pick({ 1, 2, 3, 7 }), how = mc::range(0, 3);
    {
        C a(cap), other(3); CModel m; m.cap = cap; opname(mc::fmt("cache(%d), %d keys, stride %d, kind %d", cap, keys, stride, how));
        auto same = [&](C& c, const CModel& x, int at) { bool ok = c.size() == x.e.size() && c.capacity() == x.cap && c.full() == (x.e.size() == x.cap) && c.empty() == x.e.empty(); std::vector<const int*> w(keys, nullptr); for (auto& e : x.e) w[e.first] = &e.second;
            for (int k = 0; ok && k < keys; k++) { auto* g = c.get(Key{ k }); ok = (g != nullptr) == (w[k] != nullptr) && c.contains(Key{ k }) == (g != nullptr) && (!g || val(*g) == *w[k]); }
            MC_CHECK(ok, "cache differs from a bounded FIFO map", "%s after step %d", seq.c_str(), at); };
        int steps = cap > 60 ? 2 * cap + 9 : 4 * cap + 9, key = 0;
        for (int i = 0; i < steps; i++) { mc::step(); key = (key + stride) % keys; if (i % 5 == 3) key = (keys - 1) - key; int v = i % 90 + 1;
            if (how == 3) { struct E { int k, v; operator Key() const { return { k }; } }; std::vector<E> es; int l = std::min(i % 4, int(m.cap)); for (int j = 0; j < l; j++) { es.push_back({ (key + j * j) % keys, v }); m.put(es.back().k, v, true); } a.insert(es.begin(), es.end(), [](const E& e) { return V(e.v); }); }
            else { bool assign = how == 0 || (how == 2 && i % 3); m.put(key, v, assign); if (assign) a.insert(Key{ key }, V(v)); else a.try_insert(Key{ key }, v); }
            if (cap <= 34 || i % 16 == 0 || i + 3 > steps) same(a, m, i);
            if (i == steps / 3) { C b(a); same(b, m, i); swap(a, b); } if (i == steps / 2) { C b(std::move(a)); same(b, m, i); a = std::move(b); } if (i == steps * 3 / 4) { int c2 = std::max(1, cap + (stride - 2)); a.reset(c2); m.e.clear(); m.cap = c2; } mc::state(mc::hmix(mc::hmix(cap * 7 + how, i), m.e.size())); }
    }
    raise(seq.c_str()); MC_CHECK(W().live.empty(), "cached values are leaked", "%s", seq.c_str());
}

static void setup() {
#ifdef SHALLOW
    Ring<int>::tasks("int"); Ring<V>::tasks("tracked"); mc::add_task("cache, long histories", cache_long); return;
#endif
    Ring<int>::tasks("int"); Ring<V>::tasks("tracked"); Ring<Elem<false, true>>::tasks("throwing"); Ring<Elem<true, false>>::tasks("moveonly");
    mc::add_task("cache, long histories", cache_long);
    for (int cap = 0; cap <= 3; cap++) {
        mc::add_task(mc::fmt("cache cap=%d", cap), [=] { cache_run(cap, mc::thorough() ? 4 : 3, false); });
        mc::add_task(mc::fmt("cache cap=%d fault", cap), [=] { cache_run(cap, mc::thorough() ? 3 : 2, true); }, 1);
    }
}
MC_MAIN(setup)
