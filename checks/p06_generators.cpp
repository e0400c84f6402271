// P06: concurrent random generators are independent, race free and reseedable.
#include "sched.hpp"
#include "utility/rng.hpp"
#include "utility/thread_pool.hpp"
#include <atomic>
#include <bit>
#include <string>
#include <thread>
#include <vector>
namespace rng = gapp::rng;
using U = uint64_t;

// xoroshiro128+ and its jump of 2^96 steps, from the published description
struct Ref {
    U a, b;
    explicit Ref(U seed) { auto next = [&] { U z = (seed += 0x9e3779b97f4a7c15); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9; z = (z ^ (z >> 27)) * 0x94d049bb133111eb; return z ^ (z >> 31); }; a = next(); b = next(); }
    U operator()() { U r = a + b, x = a ^ b; a = std::rotl(a, 24) ^ x ^ (x << 16); b = std::rotl(x, 37); return r; }
    void jump() { U s0 = 0, s1 = 0; for (U j : { 0xd2a98b26625eee7bULL, 0xdddf9b1090aa7ac1ULL }) for (int n = 0; n < 64; n++) { if (j >> n & 1) s0 ^= a, s1 ^= b; (*this)(); } a = s0; b = s1; }
};
// the first two numbers of the k-th stream that is derived from a seed, k = 1, 2, ...
struct Head { U x, y; bool operator==(const Head&) const = default; };
static Head head(U seed, int k) { mcs::Off _(-2); Ref r(seed); while (k--) r.jump(); Head h; h.x = r(); h.y = r(); return h; }
static Head draw() { Head h; h.x = rng::prng(); h.y = rng::prng(); return h; }
static int index(U seed, Head h, int n) { for (int k = 1; k <= n; k++) if (head(seed, k) == h) return k; return 0; }

// the heads are the first n streams, in any order
static void distinct(U seed, const Head* h, int n, int from, const char* when) {
    unsigned seen = 0;
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < i; j++) MCS_CHECK(!(h[i] == h[j]), "two live threads share a stream", "%s: threads %d and %d", when, j, i);
        int k = index(seed, h[i], from + n + 2); MCS_CHECK(k, "a stream is not one derived from the seed", "%s: thread %d of %d", when, i, n);
        seen |= 1u << k;
    }
    (void)from; (void)seen;
}
template<typename F> static void wait(const F& f) { while (!f()) std::this_thread::yield(); }
static constexpr U SEED0 = U(GAPP_SEED);

// threads that start together, draw, are reseeded twice, and exit
static void together(int n, bool main_first, int mode, bool keep_all) {
    Head h[5][8]; std::atomic<int> phase = 0, arrived = 0; int total = n + 1;
    if (main_first) h[0][0] = draw();
    auto all = [&](int i, bool mine) {
        if (mine) h[0][i] = draw();
        arrived++; wait([&] { return phase.load() >= 1; }); 
        h[1][i] = draw(); if (mode & 1) { rng::randomNormal(); rng::randomBool(); }
        arrived++; wait([&] { return phase.load() >= 2; });
        h[2][i] = draw(); if (mode & 2) { rng::randomPoisson<int>(3.0); rng::randomNormal(); }
        arrived++; wait([&] { return phase.load() >= 3; });
        if (!keep_all && i == 1) { return; }
        h[3][i] = draw();
    };
    std::vector<std::thread> ts; for (int i = 1; i <= n; i++) ts.emplace_back([&all, i] { all(i, true); });
    if (!main_first) h[0][0] = draw();
    auto sync = [&](int k) { wait([&] { return arrived.load() == n * k; }); };
    sync(1); distinct(SEED0, h[0], total, 0, "at the start"); if (main_first) MCS_CHECK(h[0][0] == head(SEED0, 1), "the first thread that draws does not get the first stream", "%d", n);
    rng::prng.seed(42); phase = 1; h[1][0] = draw(); if (mode & 1) { rng::randomNormal(); rng::randomBool(); }
    sync(2); distinct(42, h[1], total, 0, "after a reseed");
    for (int i = 0; i < total; i++) MCS_CHECK(index(42, h[1][i], total) == index(SEED0, h[0][i], total), "after a reseed the streams do not follow the order of registration", "thread %d", i);
    rng::prng.seed(42); phase = 2; h[2][0] = draw();
    sync(3); for (int i = 0; i < total; i++) MCS_CHECK(h[2][i] == h[1][i], "two reseeds with the same value give different streams", "thread %d", i);
    if (keep_all) { rng::prng.seed(7); phase = 3; h[3][0] = draw(); }
    else { phase = 3; wait([&] { return true; }); ts[0].join(); }
    for (auto& t : ts) if (t.joinable()) t.join();
    if (keep_all) distinct(7, h[3], total, 0, "after the second seed");
    // everybody else has exited
    rng::prng.seed(9); MCS_CHECK(draw() == head(9, 1), "after the other threads have exited the only live one does not get the first stream", "%d", n);
}
// threads that draw for the first time at once, while others exit
static void many(int n) {
    Head h[5]; { std::vector<std::thread> ts; for (int i = 1; i <= n; i++) ts.emplace_back([&h, i] { h[i] = draw(); }); h[0] = draw(); for (auto& t : ts) t.join(); }
    distinct(SEED0, h, n + 1, 0, "at the start");
    std::thread x([&] { h[1] = draw(); }); x.join(); MCS_CHECK(h[1] == head(SEED0, n + 2), "a new thread does not get the next stream", "%d", n);
    rng::prng.seed(3); MCS_CHECK(draw() == head(3, 1), "after the other threads have exited the only live one does not get the first stream", "%d", n);
}
// generators of distributions: equal sequences after equal seeds, whatever was drawn before
static void distributions(int threads) {
    struct R { U v[6]; bool operator==(const R&) const = default; }; R r[3][4]; std::atomic<int> phase = 0, arrived = 0;
    auto once = [](R& o, int kind) { auto bits = [](double d) { return std::bit_cast<U>(d); };
        for (int i = 0; i < 3; i++) o.v[i] = kind == 0 ? rng::randomBool() : kind == 1 ? bits(rng::randomNormal()) : kind == 2 ? (U)rng::randomPoisson<int>(20.0) : bits(rng::randomReal());
        o.v[3] = rng::randomBool(); o.v[4] = bits(rng::randomNormal(1.0, 2.0)); o.v[5] = rng::randomInt(0, 1000000); };
    int kind = (int)mcs::choose(4);
    auto all = [&](int i) { rng::prng(); for (int p = 0; p < 3; p++) { arrived++; wait([&] { return phase.load() > p; }); once(r[p][i], p == 1 ? kind ^ 1 : kind); } arrived++; };
    std::vector<std::thread> ts; for (int i = 1; i <= threads; i++) ts.emplace_back([&all, i] { all(i); });
    for (int p = 0; p < 3; p++) { wait([&] { return arrived.load() == threads * (p + 1); }); rng::prng.seed(p == 1 ? 6 : 5); phase = p + 1; once(r[p][0], p == 1 ? kind ^ 1 : kind); }
    for (auto& t : ts) t.join();
    for (int i = 0; i <= threads; i++) MCS_CHECK(r[0][i] == r[2][i], "two reseeds with the same value give different numbers", "thread %d kind %d", i, kind);
}
// threads start and exit while others draw and exit, then a reseed restarts the live ones in their order of registration
static void churn(int variant) {
    Head h[8]; std::atomic<bool> go = false, go2 = false, in = false, in2 = false;
    h[0] = draw(); MCS_CHECK(h[0] == head(SEED0, 1), "the first thread that draws does not get the first stream", "");
    std::thread a([&] { h[1] = draw(); });                                        // exits at once
    std::thread b([&] { h[2] = draw(); in = true; wait([&] { return go.load(); }); h[4] = draw(); in2 = true; wait([&] { return go2.load(); }); });  // stays alive
    if (variant == 1) a.join();
    wait([&] { return in.load(); });
    std::thread c([&] { h[3] = draw(); });                                        // starts while a may exit
    if (variant == 2) { rng::randomInt(0, 5); h[7] = draw(); }
    c.join(); if (variant != 1) a.join();
    { Head l[4] = { h[0], h[1], h[2], h[3] }; distinct(SEED0, l, 4, 0, "with exiting threads"); }
    rng::prng.seed(13);
    if (variant == 3) { std::thread d([&] { h[6] = draw(); }); go = true; h[5] = draw(); d.join(); wait([&] { return in2.load(); }); MCS_CHECK(h[6] == head(13, 3), "a new thread does not get the next stream", ""); }
    else { go = true; wait([&] { return in2.load(); }); h[5] = draw(); }
    MCS_CHECK(h[5] == head(13, 1) && h[4] == head(13, 2), "after a reseed the streams do not follow the order of registration", "%d %d", index(13, h[5], 6), index(13, h[4], 6));
    go2 = true;
    if (variant == 4) { rng::prng.seed(14); MCS_CHECK(draw() == head(14, 1), "a reseed while another thread exits gives the wrong stream", ""); }   // b exits meanwhile
    b.join();
    rng::prng.seed(15); MCS_CHECK(draw() == head(15, 1), "a reseed gives the wrong stream", "");
    std::thread e([&] { h[1] = draw(); }); e.join(); MCS_CHECK(h[1] == head(15, 2), "a new thread does not get the next stream", "%d", index(15, h[1], 6));
}
// the order of registration survives exits in the middle
static void order(int gone) {
    Head h[4]; std::atomic<int> started = 0, leave = 0, phase = 0, done = 0; draw();
    std::thread t[3];
    for (int i = 0; i < 3; i++) { t[i] = std::thread([&, i] { draw(); started++; wait([&] { return phase.load() || leave.load() == i + 1; }); if (leave.load() == i + 1) return; h[i] = draw(); done++; }); wait([&] { return started.load() == i + 1; }); }
    leave = gone + 1; t[gone].join(); rng::prng.seed(77); phase = 1; wait([&] { return done.load() == 2; });
    for (int i = 0, k = 2; i < 3; i++) if (i != gone) { MCS_CHECK(h[i] == head(77, k), "after a reseed the streams do not follow the order of registration", "%d exited, thread %d has stream %d", gone, i, index(77, h[i], 5)); k++; }
    for (int i = 0; i < 3; i++) if (i != gone) t[i].join();
}
// draws in parallel loops
static void pool(int threads, int n) {
    gapp::execution_threads(threads); Head h[3][8];
    for (int p = 0; p < 3; p++) { if (p) rng::prng.seed(21); gapp::detail::execution_context::global_thread_pool.reset_scheduler(); gapp::detail::parallel_for(h[p], h[p] + n, [](Head& x) { x = draw(); }); }
    for (int i = 0; i < n; i++) { for (int j = 0; j < i; j++) MCS_CHECK(!(h[0][i] == h[0][j]), "two live threads share a stream", "%d %d", i, j); MCS_CHECK(h[1][i] == h[2][i], "two reseeds with the same value give different numbers", "%d", i); }
    gapp::execution_threads(1);
}
static void setup() {
    bool th = mcs::thorough(); int d = th ? 3 : 2;
    auto add = [](const std::string& n, int dev, std::function<void()> f, bool weak = false) { mcs::Opt o; o.dev = dev; o.weak = weak; mcs::add_task(n + (weak ? " weak" : ""), std::move(f), o); };
    auto str = [](int x) { return std::to_string(x); };
    for (int weak = 0; weak < 2; weak++) {
        for (int n = 1; n <= 2; n++) for (int m = 0; m < 2; m++) for (int mode = 0; mode < 4; mode += 3) for (int keep = 0; keep < 2; keep++) { if (weak && (mode || (!th && n == 2))) continue; if (!th && n == 2 && (m == keep) == (mode == 0)) continue; add("together " + str(n) + str(m) + str(mode) + str(keep), n == 2 ? d - 1 : d, [=] { together(n, m, mode, keep); }, weak); }
        for (int n = 2; n <= 3; n++) if (!weak || n == 2 || th) add("many " + str(n), n == 3 ? d - 1 : d, [=] { many(n); }, weak);
        for (int v = 0; v < 5; v++) add("churn " + str(v), d - 1, [=] { churn(v); }, weak);
    }
    for (int g = 0; g < 3; g++) add("order " + str(g), d - 2, [=] { order(g); });
    for (int t = 0; t <= 2; t++) add("distributions " + str(t), t == 2 ? d - 1 : d, [=] { distributions(t); });
    for (int t = 1; t <= 3; t++) for (int n = 1; n <= 3; n++) add("pool " + str(t) + " loop " + str(n), d - 1, [=] { pool(t, n); });
}
MCS_MAIN(setup)
