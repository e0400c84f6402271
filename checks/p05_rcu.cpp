// P05: readers of an RCU protected object never see a reclaimed or half written version, and updates wait exactly for them.
#include "sched.hpp"
#include "utility/rcu.hpp"
#include <thread>
#include <vector>
#include <string>
#include <shared_mutex>
using namespace gapp::detail;

static int live; // the number of versions that exist
static void count(int d) { mcs::Off _; live += d; }
struct Data { int a, b; Data(int v = 0) : a(v), b(v) { count(1); } Data(Data&& o) noexcept : a(o.a), b(o.b) { count(1); } ~Data() { a = -1; b = -2; count(-1); } };
static void start() { mcs::Off _; live = 0; }
static void expect(int n, const char* when) { mcs::Off _; if (live != n) mcs::fail(n || live < 0 ? "a replaced version is not destroyed exactly once" : "the last version is not destroyed exactly once", std::to_string(live) + " versions instead of " + std::to_string(n) + " " + when); }
// which version every thread is using at the moment, -1 if none; not visible to the explorer
static int using_[12]; static int replaced[64]; static int nrep;

struct World { rcu_obj<Data> obj{ 0 }; std::atomic<int> published[3] = {}; };

static void read(World& w, int how) {
    int f[3]; for (int i = 0; i < 3; i++) f[i] = w.published[i].load(std::memory_order_acquire);
    auto body = [&] {
        const Data& d = *w.obj; int v = d.a;
        { mcs::Off _; using_[mcs::self()] = v; }
        MCS_CHECK(v >= 0, "a reader sees a destroyed version", "%d", v);
        mcs::point();
        MCS_CHECK(d.b == v && d.a == v, "a reader sees a half written or changing version", "%d %d %d", v, d.a, d.b);
        for (int i = 0; i < 3; i++) if (f[i]) { MCS_CHECK(v != 0, "a reader sees a version older than an update that happened before it locked", "initial version after %d", f[i]); MCS_CHECK(v / 10 != i || v >= f[i], "a reader sees a version older than an update that happened before it locked", "version %d after %d", v, f[i]); }
        { mcs::Off _; using_[mcs::self()] = -1; }
    };
    if (how == 0) { w.obj.lock_shared(); body(); w.obj.unlock_shared(); }
    else if (how == 1) { std::shared_lock _{ w.obj }; body(); }
    else { if (!w.obj.try_lock_shared()) mcs::fail("the read lock is refused", ""); body(); w.obj.unlock_shared(); }
}
static void update(World& w, int who, int v, bool wait_again) {
    w.obj = Data(v);
    // nobody may still use a version that was replaced; with one writer that is every other version
    if (who == 0) { mcs::Off _; for (int t = 0; t < 12; t++) if (using_[t] >= 0 && using_[t] != v) mcs::fail("an update returns while a reader still uses the replaced version", "version " + std::to_string(using_[t]) + " after the update to " + std::to_string(v)); }
    w.published[v / 10].store(v, std::memory_order_release);
    if (wait_again) w.obj.wait_for_readers();
}
// readers: the number of sections of each reader; writers: the number of updates of each writer
static void run_in(std::vector<int> readers, std::vector<int> writers, bool main_reads, int how) {
    { mcs::Off _; for (int& u : using_) u = -1; }
    World w; std::vector<std::thread> ts;
    bool single = writers.size() == 1;
    for (int r : readers) ts.emplace_back([&w, r, how] { for (int i = 0; i < r; i++) read(w, how); });
    for (size_t k = 1; k < writers.size(); k++) ts.emplace_back([&w, k, n = writers[k]] { for (int i = 0; i < n; i++) update(w, 1, (int)k * 10 + i + 1, false); });
    if (main_reads) read(w, how);
    if (!writers.empty()) for (int i = 0; i < writers[0]; i++) update(w, single ? 0 : 1, i + 1, how == 1 && i == 0);
    for (auto& t : ts) t.join();
    const Data& d = *w.obj; MCS_CHECK(d.a == d.b && d.a > 0, "the last update is lost", "%d %d", d.a, d.b);
    if (single) MCS_CHECK(d.a == writers[0], "the last update is lost", "%d", d.a);
    expect(1, "after the updates");
}
static void run(std::vector<int> readers, std::vector<int> writers, bool main_reads, int how) { start(); run_in(readers, writers, main_reads, how); expect(0, "after the object"); }
// an update waits for the readers that may use the old version, but not for those that start later
static void progress_in(int variant) {
    { mcs::Off _; for (int& u : using_) u = -1; }
    World w; read(w, 0); std::atomic<int> go = 0; std::atomic<bool> in = false;
    std::thread r([&] { w.obj.lock_shared(); const Data& d = *w.obj; in = true; while (!go) std::this_thread::yield(); MCS_CHECK(d.a == 0 && d.b == 0, "a reader sees a half written or changing version", "%d %d", d.a, d.b); w.obj.unlock_shared(); });
    while (!in) std::this_thread::yield();
    std::atomic<bool> second = false, ready = false; // registered as a reader before the update starts
    std::thread r2; if (variant == 0) { r2 = std::thread([&] { read(w, 0); ready = true; while (!second) std::this_thread::yield(); w.obj.lock_shared(); go = 1; while (!w.published[0].load(std::memory_order_acquire)) std::this_thread::yield(); MCS_CHECK(w.obj.get().a == 1, "the new version is not visible", ""); w.obj.unlock_shared(); }); while (!ready) std::this_thread::yield(); }
    static bool done; { mcs::Off _; done = false; }
    std::thread wr([&] { w.obj = Data(1); { mcs::Off _; done = true; } w.published[0].store(1, std::memory_order_release); });
    mcs::quiesce();
    { mcs::Off _; if (done) mcs::fail("an update returns while a reader still uses the replaced version", "progress"); }
    if (variant == 0) { second = true; r2.join(); wr.join(); }
    else if (variant == 1) { w.obj.lock_shared(); go = 1; wr.join(); MCS_CHECK(w.obj->a == 1, "the new version is not visible", ""); w.obj.unlock_shared(); }
    else if (variant == 2) { go = 1; for (int i = 0; i < 2; i++) { w.obj.lock_shared(); MCS_CHECK((*w.obj).a == 1, "the new version is not visible", ""); w.obj.unlock_shared(); } wr.join(); }
    else { go = 1; w.obj = Data(2); wr.join(); }
    r.join();
    expect(1, "after the updates");
}
static void progress(int variant) { start(); progress_in(variant); expect(0, "after the object"); }
// a reader holds the locks of two objects (or the same lock twice) at once: each of them protects its version until it is released
static void nested_in(int order, std::vector<int> updates, bool same, int sections) {
    rcu_obj<Data> a{ 0 }, b0{ 0 }; rcu_obj<Data>& b = same ? a : b0;
    static int use[2]; static bool held[2]; { mcs::Off _; use[0] = use[1] = -1; held[0] = held[1] = false; }
    auto check = [](const Data& d, int v) { int x = d.a, y = d.b; MCS_CHECK(x == v && y == v, "a reader of two objects sees a destroyed or changing version", "%d %d %d", v, x, y); };
    auto set = [](int i, int v) { mcs::Off _; use[i] = v; };
    std::thread r([&] {
        for (int i = 0; i < sections; i++) {
            a.lock_shared(); const Data& x = *a; int v = x.a; set(0, v); check(x, v);
            b.lock_shared(); const Data& y = *b; int w = y.a; set(1, w); check(x, v); check(y, w);
            if (order == 0) { set(1, -1); b.unlock_shared(); check(x, v); set(0, -1); a.unlock_shared(); }
            else if (order == 1) { set(0, -1); a.unlock_shared(); check(y, w); set(1, -1); b.unlock_shared(); }
            else { // the inner object is read twice
                set(1, -1); b.unlock_shared(); check(x, v); b.lock_shared(); const Data& z = *b; int u = z.a; set(1, u); check(z, u); check(x, v); set(1, -1); b.unlock_shared(); check(x, v); set(0, -1); a.unlock_shared();
            }
        }
    });
    auto write = [&](int n, int base) { for (int i = 0; i < n; i++) { bool first = base == 0; (first ? a : b) = Data(base + i + 1); if (updates.size() == 1 || !same) { mcs::Off _; int k = first ? 0 : 1; for (int j = 0; j < 2; j++) if (j == k || same) if (use[j] >= 0 && use[j] != base + i + 1) mcs::fail("an update returns while a reader of two objects still uses the replaced version", "version " + std::to_string(use[j])); } } };
    std::thread w2; if (updates.size() > 1) w2 = std::thread([&] { write(updates[1], 10); });
    write(updates[0], 0); if (w2.joinable()) w2.join(); r.join();
    if (!same && updates[0]) MCS_CHECK(a->a == updates[0], "the last update is lost", "%d", a->a);
    expect(2, "after the updates");
}
static void nested(int order, std::vector<int> updates, bool same, int sections) { start(); nested_in(order, updates, same, sections); expect(0, "after the objects"); }
static void setup() {
    bool th = mcs::thorough();
    for (int weak = 0; weak < 2; weak++) {
        auto add = [&](std::vector<int> r, std::vector<int> w, bool m, int how, int dev) {
            mcs::Opt o; o.dev = dev; o.weak = weak; o.spurious = weak; std::string n = "readers"; for (int x : r) n += " " + std::to_string(x); n += " writers"; for (int x : w) n += " " + std::to_string(x);
            mcs::add_task(n + (m ? " (main reads)" : "") + " " + std::to_string(how) + (weak ? " weak" : ""), [=] { run(r, w, m, how); }, o); };
        int a = th ? 5 : 4, b = th ? 4 : 3, c = th ? 3 : 2;
        for (int how = 0; how < 3; how++) { add({ 1 }, { 1 }, false, how, a); }
        add({ 2 }, { 1 }, false, 0, b); add({ 1 }, { 2 }, true, 0, b); add({ 1, 1 }, { 1 }, false, 0, b); add({ 2 }, { 2 }, false, 1, b); add({ 1 }, { 1, 1 }, false, 0, b); if (!weak || th) add({ 1 }, { 0, 3, 1 }, false, 0, b); add({ 1 }, { 1, 1 }, true, 2, b); add({ 1, 1 }, { 1, 1 }, false, 0, c); add({ 2, 1 }, { 2 }, false, 0, c); add({}, { 1, 1 }, false, 0, b); add({}, { 1, 1, 1 }, true, 0, c);
        auto nest = [&](int order, std::vector<int> u, bool same, int sections, int dev) {
            mcs::Opt o; o.dev = dev; o.weak = weak; o.spurious = weak; std::string n = "nested " + std::to_string(order); for (int x : u) n += " " + std::to_string(x);
            mcs::add_task(n + (same ? " same" : "") + " x" + std::to_string(sections) + (weak ? " weak" : ""), [=] { nested(order, u, same, sections); }, o); };
        for (int order = 0; order < 3; order++) for (int same = 0; same < 2; same++) nest(order, { 1 }, same, 1, b);
        nest(0, { 1, 1 }, false, 1, c); nest(1, { 1, 1 }, false, 1, c); nest(1, { 2 }, false, 1, b); nest(2, { 2 }, true, 1, c); nest(0, { 1 }, false, 2, c);
        for (int v = 2 * weak; v < 4; v++) { // with stale reads a later reader may count as an earlier one, which only delays the update
            mcs::Opt o; o.dev = th ? 2 : v == 0 ? 0 : 1; o.weak = weak; mcs::add_task("progress " + std::to_string(v) + (weak ? " weak" : ""), [=] { progress(v); }, o); }
    }
}
MCS_MAIN(setup)
