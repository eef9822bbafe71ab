// Shared by all drivers: random numbers, JSON lines, element types, memory
// policies.  Everything here uses only the public interface of the library.
#pragma once
#include <immer/algorithm.hpp>
#include <immer/box.hpp>
#include <immer/heap/cpp_heap.hpp>
#include <immer/heap/malloc_heap.hpp>
#include <immer/memory_policy.hpp>
#ifdef VT_GC
#include <immer/heap/gc_heap.hpp>
#endif
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#ifdef VT_CONC
#include "vtrt.h"
#define VT_TL thread_local
#define VT_Q __attribute__((section("vtq"))) // the harness's own variables
#define VT_QUIET vt_quiet vt_quiet_here
#else
#define VT_TL
#define VT_Q
#define VT_QUIET
#endif

// ------------------------------------------------------------------ random
struct rng
{
    uint64_t s;
    explicit rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(int pct) { return below(100) < (uint64_t) pct; }
};

// ------------------------------------------------------------------ output
struct out_t
{
    FILE* f = stdout;
    std::string b;
#ifdef VT_CONC
    void flush() {} // taken when the line is complete
#else
    void flush() { fwrite(b.data(), 1, b.size(), f); fflush(f); b.clear(); }
#endif
    out_t& operator<<(const char* s) { b += s; return *this; }
    out_t& operator<<(const std::string& s) { b += s; return *this; }
    out_t& operator<<(long long v) { b += std::to_string(v); return *this; }
    out_t& operator<<(long v) { b += std::to_string(v); return *this; }
    out_t& operator<<(int v) { b += std::to_string(v); return *this; }
    out_t& operator<<(size_t v) { b += std::to_string(v); return *this; }
};
inline VT_TL out_t OUT;

using runs_t = std::vector<std::pair<long, long>>;
inline void push_run(runs_t& r, long x)
{
    if (!r.empty() && r.back().first + r.back().second == x)
        r.back().second++;
    else
        r.push_back({x, 1});
}
inline void put_runs(const runs_t& r)
{
    OUT << "[";
    bool c = false;
    for (auto& p : r) {
        if (c) OUT << ",";
        c = true;
        OUT << "[" << p.first << "," << p.second << "]";
    }
    OUT << "]";
}

static bool LIFE_LOG = false;   // write down life events
static long FAULTS = 0;         // percentage of operations run with injected faults
static bool COST_LOG = false;  // write down what operations cost
static int FAULT_MASK = 7;      // allocations, copies, callbacks
static bool SPACE_LOG = false; // measure what values occupy
// --------------------------------------------------------------- elements
// Bad reads (a dead, moved-from or overwritten object) show up as this value,
// which no driver ever stores.
constexpr long BAD = -777777;

struct B3 // 3 bytes, alignment 1
{
    unsigned char c[3];
    B3(long v = 0) { c[0] = v & 255; c[1] = (v >> 8) & 255; c[2] = (v >> 16) & 255; }
    bool operator==(const B3& o) const { return !memcmp(c, o.c, 3); }
    bool operator!=(const B3& o) const { return !(*this == o); }
};
struct Big // 40 bytes
{
    long v;
    long w[4];
    Big(long x = 0) : v(x) { for (auto& y : w) y = x * 7 + 1; }
    bool operator==(const Big& o) const { return v == o.v; }
    bool operator!=(const Big& o) const { return !(*this == o); }
};

#include "tracked.hpp"

// Keeps its value in memory of its own, twice.
struct Heaped
{
    long* p;
    explicit Heaped(long v = 0) : p(static_cast<long*>(::operator new(2 * sizeof(long)))) { p[0] = p[1] = v; }
    Heaped(const Heaped& o) : Heaped(o.get()) {}
    Heaped(Heaped&& o) noexcept : p(o.p) { o.p = nullptr; }
    Heaped& operator=(Heaped o) noexcept { std::swap(p, o.p); return *this; }
    ~Heaped() { if (p) { p[0] = BAD; ::operator delete(p); } }
    long get() const { return p && p[0] == p[1] ? p[0] : BAD; }
    bool operator==(const Heaped& o) const { return get() == o.get(); }
    bool operator!=(const Heaped& o) const { return !(*this == o); }
};

inline void put_life(const char* name = "life")
{
    if (!LIFE_LOG) return;
    OUT << ",\"" << name << "\":[";
    for (size_t i = 0; i + 2 < LIFE.ev.size(); i += 3) {
        if (i) OUT << ",";
        OUT << "[" << LIFE.ev[i] << "," << LIFE.ev[i + 1] << "," << LIFE.ev[i + 2] << "]";
    }
    OUT << "]";
    LIFE.ev.clear();
}
// Blocks allocated, elements copied or moved, elements compared since the last call
inline void put_cost(bool print = true)
{
    static life_t was;
    if (!COST_LOG) return;
    auto copied = [](const life_t& l) { return l.copies + l.moves + l.assigns; };
    if (print)
        OUT << ",\"cost\":[" << LIFE.allocs - was.allocs << "," << copied(LIFE) - copied(was) << ","
            << LIFE.eqs - was.eqs << "]";
    was = LIFE;
}
// Runs fn with everything it does recorded; with `fault` > 0 the fault-th step
// that may throw does.  Returns whether the exception came out.
template <class Fn> bool recorded(long fault, Fn&& fn)
{
    put_cost(false);
    LIFE.record = LIFE_LOG;
    LIFE.fault_seen = 0;
    LIFE.fault_at = fault;
    LIFE.fault_kinds = fault ? FAULT_MASK : 0;
    bool thrown = false;
    try {
        fn();
    } catch (const vt_fault&) {
        thrown = true;
    }
    LIFE.record = false;
    LIFE.fault_at = LIFE.fault_kinds = 0;
    return thrown;
}

// Elements, blocks and bytes in use when every variable is empty; see the operation `space`
struct held_t { long obj = LIFE.live_obj, blk = LIFE.live_blk, bytes = LIFE.live_bytes; };
static VT_Q held_t BASE;
inline void nothing_held() { BASE = held_t{}; }
inline void put_held(std::vector<long>& ret, const held_t& before)
{
    ret.push_back(LIFE.live_obj - before.obj);
    ret.push_back(LIFE.live_blk - before.blk);
    ret.push_back(LIFE.live_bytes - before.bytes);
}

template <class T> struct El
{
    static T make(long v) { return T(v); }
};
inline long val_of(int x) { return x; }
inline long val_of(long x) { return x; }
inline long val_of(const B3& x) { return x.c[0] | (x.c[1] << 8) | (x.c[2] << 16); }
inline long val_of(const Big& x) { return x.w[3] == x.v * 7 + 1 ? x.v : BAD; }
inline long val_of(const Heaped& x) { return x.get(); }
template <bool NT> inline long val_of(const Obj_<NT>& x) { return x.get(); }
inline long val_of(const std::string& x) { return x.size() < 18 ? BAD : atol(x.c_str() + 18); }
template <> struct El<std::string>
{
    static std::string make(long v) { return "a string of length" + std::to_string(v); }
};
template <class T> inline long val_of(const immer::box<T>& x) { return val_of(x.get()); }

// --------------------------------------------------------- memory policies
#ifndef MPN
#define MPN 0
#endif
#ifdef VT_CONC
// for controlled executions: blocks must come back with the size they were asked for with
struct conc_heap
{
    using type = conc_heap;
    template <typename... Tags> static void* allocate(std::size_t n, Tags...) { return vt_alloc(n); }
    template <typename... Tags> static void deallocate(std::size_t n, void* p, Tags...)
    {
        if (vt_block_size(p) != n) vt_fail("released with another size");
        vt_free(p);
    }
};
#endif
#if MPN == 0
using MP = immer::default_memory_policy;
#elif MPN == 1
using MP = immer::memory_policy<immer::unsafe_free_list_heap_policy<immer::cpp_heap>,
                                immer::unsafe_refcount_policy, immer::no_lock_policy>;
#elif MPN == 2
using MP = immer::memory_policy<immer::heap_policy<immer::gc_heap>, immer::no_refcount_policy,
                                immer::default_lock_policy, immer::gc_transience_policy, false>;
#elif MPN == 3
using MP = immer::memory_policy<immer::heap_policy<immer::malloc_heap>, immer::refcount_policy,
                                immer::spinlock_policy>;
#elif MPN == 4
using MP = immer::memory_policy<immer::heap_policy<immer::cpp_heap>, immer::refcount_policy,
                                immer::spinlock_policy>;
#elif MPN == 5
using MP = immer::memory_policy<immer::default_heap_policy, immer::unsafe_refcount_policy,
                                immer::no_lock_policy, immer::no_transience_policy, false, false>;
#elif MPN == 6
using MP = immer::memory_policy<vt_heap_policy, immer::unsafe_refcount_policy,
                                immer::no_lock_policy, immer::no_transience_policy, false>;
#elif MPN == 7
using MP = immer::memory_policy<vt_heap_policy, immer::unsafe_refcount_policy,
                                immer::no_lock_policy, immer::no_transience_policy, true>;
#elif MPN == 8
using MP = immer::memory_policy<vt_sized_heap_policy, immer::refcount_policy,
                                immer::spinlock_policy, immer::no_transience_policy, false>;
#elif MPN == 9
// nothing is ever released: collection by never collecting
using MP = immer::memory_policy<vt_heap_policy, immer::no_refcount_policy,
                                immer::no_lock_policy, immer::gc_transience_policy, false>;
#elif MPN == 10
using MP = immer::memory_policy<immer::free_list_heap_policy<immer::malloc_heap, 16>,
                                immer::refcount_policy, immer::spinlock_policy,
                                immer::no_transience_policy, true>;
#elif MPN == 11
using MP = immer::memory_policy<immer::heap_policy<conc_heap>, immer::refcount_policy,
                                immer::spinlock_policy, immer::no_transience_policy, false>;
#elif MPN == 12
using MP = immer::memory_policy<immer::heap_policy<conc_heap>, immer::refcount_policy,
                                immer::spinlock_policy, immer::no_transience_policy, true>;
#elif MPN == 13
// as with a garbage collector: nothing is counted, nothing is ever released
using MP = immer::memory_policy<immer::heap_policy<conc_heap>, immer::no_refcount_policy,
                                immer::spinlock_policy, immer::gc_transience_policy, false>;
#endif

#ifndef EL
#define EL 0
#endif
#if EL == 0
using T = int;
#elif EL == 1
using T = Obj;
#elif EL == 2
using T = std::string;
#elif EL == 3
using T = B3;
#elif EL == 4
using T = Big;
#elif EL == 5
using T = long;
#elif EL == 6
using T = immer::box<int>;
template <> struct El<T> { static T make(long v) { return T((int) v); } };
#elif EL == 7
using T = ObjN;
#elif EL == 8
using T = Heaped;
#elif EL == 9
using T = immer::box<Heaped>;
template <> struct El<T> { static T make(long v) { return T(Heaped(v)); } };
#endif
