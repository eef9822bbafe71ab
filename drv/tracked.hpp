// The instrumented element type and the instrumented heap.
//
// Both number what they create and, when recording is on, write down every
// event: construction, copy, move, destruction, read; allocation, release.
// They judge nothing: Life.tla decides whether a history of events is legal.
#pragma once
#include <immer/heap/tags.hpp>
#include <cstddef>
#include <new>
#include <unordered_map>

enum life_kind
{
    L_CTOR = 0, // [id, 0]      constructed from a plain value
    L_COPY,     // [id, src]    copy-constructed
    L_MOVE,     // [id, src]    move-constructed
    L_DTOR,     // [id, 0]
    L_ASSIGN,   // [id, src]    copy-assigned
    L_MASSIGN,  // [id, src]    move-assigned
    L_READ,     // [id, 0]      read
    L_ALLOC,    // [block, size]
    L_FREE,     // [block, size]
};

struct vt_fault {};

struct life_t
{
    bool record = false;
    std::vector<long> ev; // triples
    long next_id = 1, next_block = 1;
    // counters, always on
    long copies = 0, moves = 0, ctors = 0, dtors = 0, allocs = 0, frees = 0, bytes = 0, assigns = 0;
    long live_obj = 0, live_blk = 0, live_bytes = 0, eqs = 0;
    // fault injection: throw at the k-th step that may throw (0: never)
    long fault_at = 0, fault_seen = 0;
    long fault_kinds = 0; // bit 0 allocations, 1 copies, 2 callbacks, 3 moves
    void note(int k, long a, long b)
    {
        if (record) { ev.push_back(k); ev.push_back(a); ev.push_back(b); }
    }
    void may_throw(int kind)
    {
        if ((fault_kinds >> kind) & 1)
            if (++fault_seen == fault_at)
                throw vt_fault{};
    }
};
inline VT_Q life_t LIFE;

// id 0 stands for "no live object here": a read, copy or destruction of raw,
// released or already destroyed memory.
// NT: moving is noexcept (several in-place paths are only taken then)
template <bool NT> struct Obj_
{
    using Obj = Obj_;
    static constexpr uint32_t ALIVE = 0xA11FE0BB;
    static constexpr uint32_t DEAD  = 0xDEADDEAD;
    int v;
    uint32_t magic;
    const Obj* self;
    long id;

    long ident() const { return magic == ALIVE && self == this ? id : 0; }
    long get() const { return ident() ? v : BAD; }
    void born(int value)
    {
        v = value; magic = ALIVE; self = this; id = LIFE.next_id++; LIFE.live_obj++;
    }
    Obj_() : Obj_(0) {}
    explicit Obj_(long value) { born((int) value); LIFE.ctors++; LIFE.note(L_CTOR, id, 0); }
    Obj_(const Obj& o)
    {
        LIFE.may_throw(1);
        long src = o.ident();
        born(src ? o.v : (int) BAD);
        LIFE.copies++;
        LIFE.note(L_COPY, id, src);
    }
    Obj_(Obj&& o) noexcept(NT)
    {
        if (!NT) LIFE.may_throw(3);
        long src = o.ident();
        born(src ? o.v : (int) BAD);
        if (src) o.v = -555; // a moved-from object is no longer the value
        LIFE.moves++;
        LIFE.note(L_MOVE, id, src);
    }
    Obj& operator=(const Obj& o)
    {
        LIFE.may_throw(1);
        long src = o.ident(), dst = ident();
        LIFE.note(L_ASSIGN, dst, src);
        LIFE.assigns++;
        v = src ? o.v : (int) BAD;
        return *this;
    }
    Obj& operator=(Obj&& o) noexcept(NT)
    {
        if (!NT) LIFE.may_throw(3);
        long src = o.ident(), dst = ident();
        LIFE.note(L_MASSIGN, dst, src);
        int x = src ? o.v : (int) BAD;
        v = x;
        if (src) o.v = -555; // also when moved onto itself
        return *this;
    }
    ~Obj_()
    {
        LIFE.dtors++;
        LIFE.note(L_DTOR, ident(), 0);
        if (ident()) LIFE.live_obj--;
        magic = DEAD;
    }
    bool operator==(const Obj& o) const
    {
        // reading a live object is always right and leaves no event
        LIFE.eqs++;
        if (!ident() || !o.ident()) LIFE.note(L_READ, 0, 0);
        return get() == o.get() && get() != BAD;
    }
    bool operator!=(const Obj& o) const { return !(*this == o); }
};

using Obj = Obj_<false>;
using ObjN = Obj_<true>;

// Blocks carry a header with their number and size and are filled with a
// pattern when handed out and when released; released blocks stay in
// quarantine for a while so that a stale pointer reads the pattern and not
// somebody else's data.
struct vt_block
{
    static constexpr uint64_t LIVE = 0xB10CB10CB10CB10Cull, FREED = 0xF4EEF4EEF4EEF4EEull;
    uint64_t magic;
    long id;
    size_t size;
    size_t pad;
};
static_assert(sizeof(vt_block) == 32, "");
struct vt_quarantine
{
    static constexpr size_t N = 1 << 12;
    vt_block* q[N] = {};
    size_t i = 0;
    void put(vt_block* b)
    {
        if (q[i]) std::free(q[i]);
        q[i] = b;
        i = (i + 1) % N;
    }
};
inline vt_quarantine QUAR;

struct vt_heap
{
    using type = vt_heap;
    template <typename... Tags>
    static void* allocate(std::size_t size, Tags...)
    {
        LIFE.may_throw(0);
        auto b = static_cast<vt_block*>(std::malloc(sizeof(vt_block) + size + 8));
        b->magic = vt_block::LIVE;
        b->id = LIFE.next_block++;
        b->size = size;
        memset(b + 1, 0xCD, size);
        memset(reinterpret_cast<char*>(b + 1) + size, 0x5A, 8); // overrun guard
        LIFE.allocs++; LIFE.live_blk++;
        LIFE.bytes += (long) size; LIFE.live_bytes += (long) size;
        LIFE.note(L_ALLOC, b->id, (long) size);
        return b + 1;
    }
    template <typename... Tags>
    static void deallocate(std::size_t size, void* p, Tags...)
    {
        auto b = static_cast<vt_block*>(p) - 1;
        if (b->magic != vt_block::LIVE) { LIFE.note(L_FREE, 0, (long) size); return; }
        bool guard = true;
        for (int k = 0; k < 8; k++)
            guard = guard && static_cast<unsigned char*>(p)[b->size + k] == 0x5A;
        LIFE.frees++; LIFE.live_blk--; LIFE.live_bytes -= (long) b->size;
        LIFE.note(L_FREE, guard ? b->id : -b->id, (long) size);
        b->magic = vt_block::FREED;
        memset(p, 0xDD, b->size);
        QUAR.put(b);
    }
};
struct vt_heap_policy
{
    using type = vt_heap;
    template <std::size_t Size> struct optimized { using type = vt_heap; };
};
// A policy whose optimised heaps really are different heaps per size class:
// giving a block back to the wrong class (or with the wrong size) is visible.
template <std::size_t Size> struct vt_sized_heap
{
    template <typename... Tags>
    static void* allocate(std::size_t size, Tags...)
    {
        auto p = static_cast<std::size_t*>(vt_heap::allocate(size + 16));
        p[0] = Size;
        return p + 2;
    }
    template <typename... Tags>
    static void deallocate(std::size_t size, void* q, Tags...)
    {
        auto p = static_cast<std::size_t*>(q) - 2;
        // a block of another class is reported as a release of a wrong size
        vt_heap::deallocate(p[0] == Size ? size + 16 : 1, p);
    }
};
struct vt_sized_heap_policy
{
    using type = vt_sized_heap<0>;
    template <std::size_t Size> struct optimized { using type = vt_sized_heap<Size>; };
};
