// Instrumented element types and an instrumented allocator for the container checks.
#pragma once
#include "mc.hpp"
#include <unordered_map>
#include <compare>
#include <memory>

namespace trk {

struct Fault : std::exception { const char* what() const noexcept override { return "injected fault"; } };

struct World {
    std::unordered_set<const void*> live;
    std::unordered_map<void*, std::pair<size_t, int>> blocks;   // address -> (count, allocator id)
    bool faults = false;
    int fault_at = -1;           // explicit countdown mode (unused when < 0)
    uint64_t events = 0;
    std::string err;
    void reset() { live.clear(); blocks.clear(); faults = false; events = 0; err.clear(); }
    void error(const std::string& e) { if (err.empty()) err = e; }
    bool fault() { events++; return faults && mc::choose_dev(2) == 1; }
};
inline World& W() { static World w; return w; }
inline void raise(const char* what) { if (!W().err.empty()) mc::fail(W().err, what); }

// Copyable and movable; NM: moves are noexcept, CP: copyable, otherwise move only.
template<bool NM, bool CP>
struct Elem {
    int v;
    static constexpr bool nothrow_move = NM, copyable = CP;
    void born() { if (!W().live.insert(this).second) W().error("element constructed on top of a live element"); }
    void use() const { if (!W().live.count(this)) W().error("access to an element that is not alive"); }
    Elem() : v(0) { if (W().fault()) throw Fault(); born(); }
    Elem(int x) : v(x) { if (W().fault()) throw Fault(); born(); }
    Elem(const Elem& o) requires(CP) { o.use(); if (W().fault()) throw Fault(); v = o.v; born(); }
    Elem(Elem&& o) noexcept(NM) { o.use(); if (!NM && W().fault()) throw Fault(); v = o.v; if (&o != this) o.v = -1; born(); }
    Elem& operator=(const Elem& o) requires(CP) { use(); o.use(); if (W().fault()) throw Fault(); v = o.v; return *this; }
    Elem& operator=(Elem&& o) noexcept(NM) { use(); o.use(); if (!NM && W().fault()) throw Fault(); if (&o != this) { v = o.v; o.v = -1; } return *this; }
    ~Elem() { if (!W().live.erase(this)) W().error("element destroyed twice, or never constructed"); }
    friend bool operator==(const Elem& a, const Elem& b) noexcept { a.use(); b.use(); return a.v == b.v; }
    friend auto operator<=>(const Elem& a, const Elem& b) noexcept { a.use(); b.use(); return a.v <=> b.v; }
};
template<bool NM, bool CP> int val(const Elem<NM, CP>& e) { e.use(); return e.v; }
inline int val(int x) { return x; }
inline int val(double x) { return (int)x; }

template<typename T> inline constexpr bool is_tracked = false;
template<bool NM, bool CP> inline constexpr bool is_tracked<Elem<NM, CP>> = true;

// Allocator with identity: P = propagates on every container operation and compares by id; otherwise all equal.
template<typename T, bool P = false>
struct Alloc {
    using value_type = T;
    using is_always_equal = std::bool_constant<!P>;
    using propagate_on_container_copy_assignment = std::bool_constant<P>;
    using propagate_on_container_move_assignment = std::bool_constant<P>;
    using propagate_on_container_swap = std::bool_constant<P>;
    template<typename U> struct rebind { using other = Alloc<U, P>; };
    int id = 0;
    Alloc() = default;
    Alloc(int i) : id(i) {}
    template<typename U> Alloc(const Alloc<U, P>& o) : id(o.id) {}
    T* allocate(size_t n) {
        if (n > (size_t(1) << 40)) throw std::bad_alloc();
        if (W().fault()) throw std::bad_alloc();
        T* p = static_cast<T*>(::operator new(n * sizeof(T) + 16));
        W().blocks[p] = { n, P ? id : 0 };
        return p;
    }
    void deallocate(T* p, size_t n) noexcept {
        auto it = W().blocks.find(p);
        if (it == W().blocks.end()) { W().error("deallocation of memory that is not allocated"); return; }
        if (it->second.first != n) W().error("deallocation with a different size than the allocation");
        if (P && it->second.second != id) W().error("deallocation through a different allocator");
        W().blocks.erase(it);
        ::operator delete(p);
    }
    friend bool operator==(const Alloc& a, const Alloc& b) { return !P || a.id == b.id; }
};

} // namespace trk
