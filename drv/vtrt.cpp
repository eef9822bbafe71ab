#include "vtrt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <sched.h>
#include <new>

// ------------------------------------------------------------------ arena
// Tracked blocks are never reused: an address names one block for good.
static const size_t ARENA = 1ull << 30, GRAN = 16;
static const uintptr_t ARENA_AT = 0x200000000000ull;
static char* arena;
static size_t arena_used;
static uint32_t* owner_of; // granule -> block number + 1
struct block_t
{
    uintptr_t at;
    size_t size;
    int by;        // thread
    uint32_t nth;  // how many it had allocated before
    int freed;     // 0, or 1 + event of the release
    char shared;
    int first_seg, nseg;
};
static const int MAXBLK = 1 << 20;
static block_t* blk;
static int nblk;
static long nlive;
static void die(const char* why)
{
    fprintf(stderr, "vt: %s\n", why);
    fflush(stderr);
    _exit(98);
}
static void* reserve(size_t n, void* at = nullptr)
{
    void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "driver: mmap\n"); _exit(3); }
    return p;
}
extern "C" char __data_start, _end;
extern "C" __attribute__((weak)) char __start_vtq, __stop_vtq;
static uintptr_t glo, ghi, qlo, qhi; // global variables, and the harness's

// ----------------------------------------------------------------- events
enum { RD = 1, WR, ALLOC, FREE, LOAD, STORE, RMW, FENCE, SPAWN, START, END, JOIN, MARK };
struct ev_t
{
    uint8_t k, t, ord, ok; // ok: an RMW that wrote
    uint32_t n;            // bytes; block; thread; mark
    uintptr_t at;
};
static ev_t* ev;
static const size_t MAXEV = 1 << 23;
static size_t nev;
static char* marks[1 << 16];
static int nmarks;
static bool started; // tracking at all
static int ign;      // of the running fiber

// ----------------------------------------------------------------- fibers
static const int MAXT = 6;
struct tls_t { void* control; char* mem; };
struct fiber
{
    ucontext_t uc;
    char* stack;
    void (*fn)(void*);
    void* arg;
    int ign, state; // 0 none, 1 runnable, 2 done
    bool joining;
    uintptr_t last_at; // spinning?
    int same;
    uintptr_t wait_at; // waits for a change here
    bool yielded;
    uint32_t nalloc;
    tls_t tls[64];
    int ntls;
    struct { void (*fn)(void*); void* obj; } dtors[64];
    int ndtors;
    char eh[16];
    long prio;
};
static fiber* fb;
static int nfb, cur;
static const size_t STACK = 1 << 20;
static char* stacks;
extern "C" char* __cxa_get_globals();

static vt_plan plan;
static uint64_t rs;
static uint64_t rnd()
{
    uint64_t z = (rs += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
struct point_t { unsigned char chosen, enabled, stay, cur; };
static point_t* points;
static const int MAXPT = 1 << 20;
static int npoints, npicks;
long vt_steps_limit = 200000;
static long steps;
static bool hung;
static unsigned char* table;
static size_t ntable;
static bool frozen;

static void push(int k, uintptr_t at, uint32_t n, int ord = 0, int ok = 0)
{
    if (nev == MAXEV) die("too many events");
    ev_t& e = ev[nev++];
    e.k = k; e.t = cur; e.ord = ord; e.ok = ok; e.n = n; e.at = at;
}
static inline int block_at(uintptr_t a)
{
    if (a - ARENA_AT >= arena_used) return -1;
    return (int) owner_of[(a - ARENA_AT) / GRAN] - 1;
}
static inline bool tracked(uintptr_t a) { return a - ARENA_AT < ARENA || (a >= glo && a < ghi && !(a >= qlo && a < qhi)); }
static uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x165667B19E3779F9ull;
    z = (z ^ (z >> 29)) * 0xBF58476D1CE4E5B9ull;
    return z ^ (z >> 32);
}
// a name that is the same in every execution (nearly)
static uint64_t name_of(uintptr_t a)
{
    int b = block_at(a);
    if (b < 0) return mix(7, a - glo);
    return mix(mix(blk[b].by + 100, blk[b].nth), a - blk[b].at);
}
static void swap_to(int t)
{
    int from = cur;
    if (t == from) return;
    fb[from].ign = ign;
    memcpy(fb[from].eh, __cxa_get_globals(), 16);
    cur = t;
    ign = fb[t].ign;
    memcpy(__cxa_get_globals(), fb[t].eh, 16);
    swapcontext(&fb[from].uc, &fb[t].uc);
}
static bool able(int i)
{
    fiber& f = fb[i];
    if (f.state != 1 || f.wait_at || f.yielded) return false;
    if (f.joining) {
        for (int j = 1; j < nfb; j++) if (fb[j].state == 1) return false;
    }
    return true;
}
// who goes on?  `forced`: the running thread cannot
static void reschedule(bool interesting)
{
    unsigned en = 0;
    int n = 0;
    for (int pass = 0; pass < 2 && !n; pass++) {
        for (int i = 0; i < nfb; i++) if (able(i)) { en |= 1u << i; n++; }
        if (!n) // all spin: let everyone look again
            for (int i = 0; i < nfb; i++) { fb[i].wait_at = 0; fb[i].yielded = false; fb[i].same = 0; }
    }
    if (!n) die("deadlock");
    bool stay = en >> cur & 1;
    if (++steps > vt_steps_limit) { hung = true; die("no progress"); }
    int to = -1;
    if (n == 1) { for (to = 0; !(en >> to & 1); to++) {} swap_to(to); return; }
    if (stay && !interesting) return;
    if (plan.mode == 0) {
        if (npoints < plan.nchoice) {
            to = plan.choice[npoints];
            if (!(en >> to & 1)) to = -1;
        }
        if (to < 0) { if (stay) to = cur; else for (to = 0; !(en >> to & 1); to++) {} }
    } else if (plan.pct_depth > 0) {
        if (rnd() % 1000 < (uint64_t) plan.switch_pct) fb[cur].prio = -(long) ++npicks;
        for (int i = 0; i < nfb; i++) if ((en >> i & 1) && (to < 0 || fb[i].prio > fb[to].prio)) to = i;
    } else {
        if (stay && rnd() % 100 >= (uint64_t) plan.switch_pct) to = cur;
        else { int k = (int) (rnd() % n); for (to = 0; ; to++) if ((en >> to & 1) && k-- == 0) break; }
    }
    if (npoints < MAXPT) {
        point_t& p = points[npoints];
        p.chosen = to; p.enabled = en; p.stay = stay; p.cur = cur;
    }
    npoints++;
    swap_to(to);
}
static bool worth(uintptr_t a) { return !frozen || table[name_of(a) % ntable]; }
static void before_sync(uintptr_t a)
{
    if (!started || ign || nfb <= 1) return;
    reschedule(worth(a));
}
// spinning on a location: nothing to do until someone changes it
static void spinning(uintptr_t a, bool changed)
{
    fiber& f = fb[cur];
    if (changed) {
        f.same = 0;
        for (int i = 0; i < nfb; i++) { if (fb[i].wait_at == a) fb[i].wait_at = 0; fb[i].yielded = false; }
    } else if (f.last_at == a) {
        if (++f.same >= 2) { f.wait_at = a; f.same = 0; }
    } else f.same = 0;
    f.last_at = a;
}
extern "C" int sched_yield()
{
    if (started && !ign && nfb > 1) { fb[cur].yielded = true; reschedule(true); }
    return 0;
}
static void acc(int k, uintptr_t a, size_t n)
{
    if (!started || ign || !tracked(a)) return;
    int b = block_at(a);
    if (a - ARENA_AT < ARENA) {
        if (b < 0 || a + n > blk[b].at + blk[b].size) {
            fprintf(stderr, "vt: access outside of any block\n");
            fflush(stderr);
            _exit(98);
        }
    }
    push(k, a, (uint32_t) n);
}

// ------------------------------------------------------------------ blocks
extern "C" {
static char* raw_at;
static size_t raw_left;
void* vt_raw(size_t n)
{
    n = (n + 15) & ~15ull;
    if (raw_left < n) {
        raw_left = n > (8u << 20) ? n : 8u << 20;
        raw_at = (char*) reserve(raw_left);
    }
    char* p = raw_at;
    raw_at += n;
    raw_left -= n;
    return p;
}
void* vt_alloc(size_t n)
{
    if (!started || ign) { char* p = (char*) vt_raw(n + 16); *(size_t*) p = n; return p + 16; }
    size_t m = (n + 2 * GRAN - 1) / GRAN * GRAN + GRAN; // a gap between blocks
    if (arena_used + m > ARENA || nblk == MAXBLK) die("out of arena");
    uintptr_t at = ARENA_AT + arena_used;
    arena_used += m;
    block_t& b = blk[nblk++];
    b.at = at; b.size = n; b.by = cur; b.nth = fb[cur].nalloc++; b.freed = 0; b.shared = 0;
    for (size_t i = 0; i < (n + GRAN - 1) / GRAN; i++) owner_of[(at - ARENA_AT) / GRAN + i] = nblk;
    if (n) memset((void*) at, 0xA5, n);
    nlive++;
    push(ALLOC, at, nblk - 1);
    return (void*) at;
}
void vt_free(void* p)
{
    uintptr_t a = (uintptr_t) p;
    if (a - ARENA_AT >= ARENA) return; // the harness's own, or from before
    int b = block_at(a);
    if (b < 0 || blk[b].at != a) die("release of something that is no block");
    push(FREE, a, b);
    if (!blk[b].freed) { blk[b].freed = 1; nlive--; }
}
long vt_live() { return nlive; }
long vt_block_of(const void* p) { return block_at((uintptr_t) p); }
size_t vt_block_size(const void* p)
{
    uintptr_t a = (uintptr_t) p;
    if (a - ARENA_AT >= ARENA) return ((size_t*) p)[-2];
    int b = block_at(a);
    return b < 0 ? 0 : blk[b].size;
}
void vt_ignore(int by) { ign += by; }
void vt_fail(const char* why) { die(why); }
int vt_self() { return cur; }
void vt_mark(const char* s)
{
    if (nmarks == 1 << 16) die("too many marks");
    size_t n = strlen(s);
    char* c = (char*) vt_raw(n + 1);
    memcpy(c, s, n + 1);
    marks[nmarks] = c;
    push(MARK, 0, nmarks++);
}
} // extern "C"
void* operator new(size_t n) { return vt_alloc(n); }
void* operator new[](size_t n) { return vt_alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vt_alloc(n); }
void operator delete(void* p) noexcept { if (p) vt_free(p); }
void operator delete[](void* p) noexcept { if (p) vt_free(p); }
void operator delete(void* p, size_t) noexcept { if (p) vt_free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) vt_free(p); }
extern "C" void* __wrap_malloc(size_t n) { return vt_alloc(n); }
extern "C" void __wrap_free(void* p) { if (p) vt_free(p); }

// ------------------------------------------------------- thread_local, statics
extern "C" {
struct emutls { size_t size, align; void* obj; void* templ; };
void* __emutls_get_address(emutls* c)
{
    fiber& f = fb[cur];
    for (int i = 0; i < f.ntls; i++) if (f.tls[i].control == c) return f.tls[i].mem;
    if (f.ntls == 64) die("too many thread_local variables");
    char* m = (char*) vt_raw(c->size + c->align);
    m = (char*) (((uintptr_t) m + c->align - 1) / c->align * c->align);
    if (c->templ) memcpy(m, c->templ, c->size); else memset(m, 0, c->size);
    f.tls[f.ntls].control = c;
    f.tls[f.ntls].mem = m;
    f.ntls++;
    return m;
}
int __cxa_thread_atexit(void (*d)(void*), void* obj, void*)
{
    fiber& f = fb[cur];
    if (f.ndtors == 64) die("too many thread_local destructors");
    f.dtors[f.ndtors].fn = d;
    f.dtors[f.ndtors].obj = obj;
    f.ndtors++;
    return 0;
}
// the guard of a static local: byte 0 done, byte 1 in progress
int __cxa_guard_acquire(uint64_t* g)
{
    char* c = (char*) g;
    for (;;) {
        before_sync((uintptr_t) g);
        if (c[0]) { if (started && !ign) push(LOAD, (uintptr_t) g, 1, 2); return 0; }
        if (!c[1]) { c[1] = 1; return 1; }
        if (nfb <= 1) die("recursive initialisation");
        fb[cur].wait_at = (uintptr_t) g;
        reschedule(true);
    }
}
static void guard_wake(uint64_t* g)
{
    for (int i = 0; i < nfb; i++) if (fb[i].wait_at == (uintptr_t) g) fb[i].wait_at = 0;
}
void __cxa_guard_release(uint64_t* g)
{
    char* c = (char*) g;
    before_sync((uintptr_t) g);
    c[1] = 0;
    c[0] = 1;
    if (started && !ign) push(STORE, (uintptr_t) g, 1, 3);
    guard_wake(g);
}
void __cxa_guard_abort(uint64_t* g) { ((char*) g)[1] = 0; guard_wake(g); }

// -------------------------------------------------------- compiler's hooks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define A(p) ((uintptr_t) (p))
#define RW(n) \
    void __tsan_read##n(void* p) { acc(RD, A(p), n); } \
    void __tsan_write##n(void* p) { acc(WR, A(p), n); } \
    void __tsan_unaligned_read##n(void* p) { acc(RD, A(p), n); } \
    void __tsan_unaligned_write##n(void* p) { acc(WR, A(p), n); } \
    void __tsan_read_write##n(void* p) { acc(RD, A(p), n); acc(WR, A(p), n); } \
    void __tsan_unaligned_read_write##n(void* p) { acc(RD, A(p), n); acc(WR, A(p), n); } \
    void __tsan_volatile_read##n(void* p) { acc(RD, A(p), n); } \
    void __tsan_volatile_write##n(void* p) { acc(WR, A(p), n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) acc(RD, A(p), n); }
void __tsan_write_range(void* p, size_t n) { if (n) acc(WR, A(p), n); }
void __tsan_vptr_read(void** p) { acc(RD, A(p), 8); }
void __tsan_vptr_update(void** p, void*) { acc(WR, A(p), 8); }
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    if (n) { acc(RD, A(s), n); acc(WR, A(d), n); }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    if (n) { acc(RD, A(s), n); acc(WR, A(d), n); }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    if (n) acc(WR, A(d), n);
    return memset(d, c, n);
}
}
static void sync_ev(int k, uintptr_t a, size_t n, int ord, int ok)
{
    if (!started || ign || !tracked(a)) return;
    int b = block_at(a);
    if (a - ARENA_AT < ARENA && (b < 0 || a + n > blk[b].at + blk[b].size)) die("access outside of any block");
    push(k, a, (uint32_t) n, ord, ok);
    if (nfb > 1) spinning(a, k == STORE || (k == RMW && ok));
}
template <class T> static T at_load(const volatile T* p, int o)
{
    before_sync(A(p));
    T v = *p;
    sync_ev(LOAD, A(p), sizeof(T), o, 0);
    return v;
}
template <class T> static void at_store(volatile T* p, T v, int o)
{
    before_sync(A(p));
    *p = v;
    sync_ev(STORE, A(p), sizeof(T), o, 1);
}
template <class T, class F> static T at_rmw(volatile T* p, int o, F f)
{
    before_sync(A(p));
    T v = *p;
    T w = f(v);
    *p = w;
    // ok tells whether the value changed only for spin detection; a RMW always writes
    if (started && !ign && tracked(A(p))) {
        int b = block_at(A(p));
        if (A(p) - ARENA_AT < ARENA && (b < 0 || A(p) + sizeof(T) > blk[b].at + blk[b].size)) die("access outside of any block");
        push(RMW, A(p), sizeof(T), o, 1);
        if (nfb > 1) spinning(A(p), v != w);
    }
    return v;
}
template <class T> static int at_cas(volatile T* p, T* c, T v, int o, int fo, bool weak)
{
    before_sync(A(p));
    bool fail = *p != *c;
    if (!fail && weak && started && !ign && plan.weak_pct && rnd() % 100 < (uint64_t) plan.weak_pct) fail = true;
    if (fail) {
        *c = *p;
        sync_ev(LOAD, A(p), sizeof(T), fo, 0);
        return 0;
    }
    *p = v;
    sync_ev(RMW, A(p), sizeof(T), o, 1);
    return 1;
}
extern "C" {
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T* p, int o) { return at_load<T>(p, o); } \
    void __tsan_atomic##n##_store(volatile T* p, T v, int o) { at_store<T>(p, v, o); } \
    T __tsan_atomic##n##_exchange(volatile T* p, T v, int o) { return at_rmw<T>(p, o, [&](T) { return v; }); } \
    T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int o) { return at_rmw<T>(p, o, [&](T x) { return (T) (x + v); }); } \
    T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int o) { return at_rmw<T>(p, o, [&](T x) { return (T) (x - v); }); } \
    T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int o) { return at_rmw<T>(p, o, [&](T x) { return (T) (x & v); }); } \
    T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int o) { return at_rmw<T>(p, o, [&](T x) { return (T) (x | v); }); } \
    T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int o) { return at_rmw<T>(p, o, [&](T x) { return (T) (x ^ v); }); } \
    T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int o) { return at_rmw<T>(p, o, [&](T x) { return (T) ~(x & v); }); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* c, T v, int o, int fo) { return at_cas<T>(p, c, v, o, fo, false); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* c, T v, int o, int fo) { return at_cas<T>(p, c, v, o, fo, true); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T c, T v, int o, int fo) { at_cas<T>(p, &c, v, o, fo, false); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { if (started && !ign) push(FENCE, 0, 0, o); }
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- execution
static void trampoline()
{
    fiber& f = fb[cur];
    push(START, 0, 0);
    f.fn(f.arg);
    while (f.ndtors > 0) { f.ndtors--; f.dtors[f.ndtors].fn(f.dtors[f.ndtors].obj); }
    push(END, 0, 0);
    f.state = 2;
    for (int i = 0; i < nfb; i++) fb[i].yielded = false;
    reschedule(true);
    die("a finished thread goes on");
}
int vt_spawn(void (*fn)(void*), void* arg)
{
    int t = nfb++;
    if (t == MAXT) die("too many threads");
    fiber& f = fb[t];
    f.fn = fn;
    f.arg = arg;
    f.state = 1;
    f.prio = (long) (rnd() % 1000000);
    f.stack = stacks + t * STACK;
    getcontext(&f.uc);
    f.uc.uc_stack.ss_sp = f.stack;
    f.uc.uc_stack.ss_size = STACK;
    f.uc.uc_link = nullptr;
    makecontext(&f.uc, trampoline, 0);
    push(SPAWN, 0, t);
    return t;
}
void vt_join_all()
{
    fb[cur].joining = true;
    reschedule(true);
    fb[cur].joining = false;
    for (int t = 1; t < nfb; t++) push(JOIN, 0, t);
    for (int t = 1; t < nfb; t++) fb[t].state = 0;
}
static void vt_setup()
{
    if (fb) return;
    arena = (char*) reserve(ARENA, (void*) ARENA_AT);
    owner_of = (uint32_t*) reserve(ARENA / GRAN * 4);
    blk = (block_t*) reserve(sizeof(block_t) * MAXBLK);
    ev = (ev_t*) reserve(sizeof(ev_t) * MAXEV);
    points = (point_t*) reserve(sizeof(point_t) * MAXPT);
    stacks = (char*) reserve(STACK * MAXT);
    fb = (fiber*) reserve(sizeof(fiber) * MAXT);
    glo = (uintptr_t) &__data_start;
    ghi = (uintptr_t) &_end;
    qlo = (uintptr_t) &__start_vtq;
    qhi = (uintptr_t) &__stop_vtq;
    nfb = 1;
    fb[0].state = 1;
}
__attribute__((constructor(101))) static void vt_early() { vt_setup(); }
void vt_execute(const vt_plan* p, void (*body)(void*), void* arg)
{
    plan = *p;
    rs = p->seed * 0x9E3779B97F4A7C15ull + 99;
    started = true;
    fb[0].prio = 2000000;
    body(arg);
    started = false;
}
int vt_npoints() { return npoints < MAXPT ? npoints : MAXPT; }
void vt_point(int i, int* chosen, unsigned* enabled, int* stay, int* c)
{
    *chosen = points[i].chosen; *enabled = points[i].enabled; *stay = points[i].stay; *c = points[i].cur;
}
int vt_hung() { return hung; }
void vt_share_points(unsigned char* t, size_t n, int fr) { table = t; ntable = n; frozen = fr; }

// ------------------------------------------------------- what was shared?
// Bytes accessed by more than one thread, cut into segments at the ends of accesses.
struct page_t { uint64_t key; unsigned char by[64]; unsigned char cut[64]; unsigned char wr[64]; int seg[64]; };
static page_t* pages;
static size_t npage, cap;
static page_t* page(uintptr_t a, bool make)
{
    uint64_t k = a >> 6;
    size_t i = mix(1, k) & (cap - 1);
    for (; pages[i].key; i = (i + 1) & (cap - 1)) if (pages[i].key == k) return &pages[i];
    if (!make) return nullptr;
    if (++npage * 2 > cap) die("too much memory touched");
    pages[i].key = k;
    return &pages[i];
}
static int nseg;
static int* seg_block;
static uintptr_t* seg_at;
static bool analysed;
static void analyse()
{
    if (analysed) return;
    analysed = true;
    cap = 1 << 17;
    pages = (page_t*) reserve(cap * sizeof(page_t));
    // bit t: accessed by thread t; bit 7: touched after its release
    char* dead = (char*) reserve(MAXBLK);
    for (size_t i = 0; i < nev; i++) {
        ev_t& e = ev[i];
        if (e.k == FREE) { if (dead[e.n]) blk[e.n].shared = 1; dead[e.n] = 1; if (blk[e.n].by != e.t) {} }
        if (e.k != RD && e.k != WR && e.k != LOAD && e.k != STORE && e.k != RMW) continue;
        int b = block_at(e.at);
        unsigned char m = 1 << e.t;
        if (b >= 0 && dead[b]) m |= 0x80 | 0x40;
        for (uintptr_t a = e.at; a < e.at + e.n; a++) {
            page_t* p = page(a, true);
            p->by[a & 63] |= m;
            if (e.k != RD) p->wr[a & 63] = 1;
        }
        page(e.at, true)->cut[e.at & 63] = 1;
        page(e.at + e.n, true)->cut[(e.at + e.n) & 63] = 1;
    }
    // releasing counts as an access: a block released by another thread than the only one that used it
    for (size_t i = 0; i < nev; i++) {
        ev_t& e = ev[i];
        if (e.k != FREE) continue;
        block_t& b = blk[e.n];
        for (uintptr_t a = b.at; a < b.at + b.size; a++) {
            page_t* p = page(a, false);
            if (p && p->by[a & 63]) { p->by[a & 63] |= 1 << e.t; p->wr[a & 63] = 1; }
        }
    }
    auto multi = [](unsigned char m) { return (m & (m - 1)) != 0; };
    // number the segments
    seg_block = (int*) reserve(sizeof(int) * (1 << 22));
    seg_at = (uintptr_t*) reserve(sizeof(uintptr_t) * (1 << 22));
    auto number = [&](uintptr_t lo, uintptr_t hi, int b) {
        int now = 0;
        unsigned char was = 0;
        for (uintptr_t a = lo; a < hi; a++) {
            page_t* p = page(a, false);
            if (!p) { now = 0; a |= 63; continue; }
            unsigned char m = p->by[a & 63];
            if (!multi(m) || !p->wr[a & 63]) { now = 0; continue; }
            if (!now || p->cut[a & 63] || m != was) { now = ++nseg; seg_block[nseg] = b; seg_at[nseg] = a; }
            was = m;
            p->seg[a & 63] = now;
        }
    };
    number(glo, ghi, -1);
    for (int b = 0; b < nblk; b++) {
        blk[b].first_seg = nseg + 1;
        number(blk[b].at, blk[b].at + blk[b].size, b);
        blk[b].nseg = nseg + 1 - blk[b].first_seg;
        if (blk[b].nseg) blk[b].shared = 1;
    }
}
static int seg_of(uintptr_t a)
{
    page_t* p = page(a, false);
    return p ? p->seg[a & 63] : 0;
}
void vt_note_shared()
{
    analyse();
    for (size_t i = 0; i < nev; i++) {
        ev_t& e = ev[i];
        if ((e.k == LOAD || e.k == STORE || e.k == RMW) && seg_of(e.at)) table[name_of(e.at) % ntable] = 1;
    }
}
uint64_t vt_digest()
{
    analyse();
    // per location: writes in order, reads between writes as a set
    struct loc { uint64_t h, reads; };
    loc* l = (loc*) reserve(sizeof(loc) * (nseg + 2));
    uint32_t pos[MAXT] = {};
    for (size_t i = 0; i < nev; i++) {
        ev_t& e = ev[i];
        if (e.k != LOAD && e.k != STORE && e.k != RMW) continue;
        int s = seg_of(e.at);
        if (!s) continue;
        uint64_t me = mix(e.t + 1, pos[e.t]++);
        if (e.k == LOAD) l[s].reads += mix(me, 5);
        else { l[s].h = mix(mix(l[s].h, l[s].reads), me); l[s].reads = 0; }
    }
    uint64_t h = 0;
    for (int s = 1; s <= nseg; s++) h += mix(mix(l[s].h, l[s].reads), name_of(seg_at[s]));
    munmap(l, sizeof(loc) * (nseg + 2));
    return h;
}

// ------------------------------------------------------------------ output
static char* ob;
static size_t on, oc;
static void put(const char* f, long a = 0, long b = 0)
{
    if (oc - on < 256) {
        size_t c = oc ? oc * 2 : 1 << 20;
        char* n = (char*) reserve(c);
        memcpy(n, ob, on);
        ob = n;
        oc = c;
    }
    on += snprintf(ob + on, 200, f, a, b);
}
static void puts_(const char* s)
{
    size_t n = strlen(s);
    while (oc - on < n + 256) { size_t c = oc ? oc * 2 : 1 << 20; char* m = (char*) reserve(c); memcpy(m, ob, on); ob = m; oc = c; }
    memcpy(ob + on, s, n);
    on += n;
}
struct pend_t { unsigned char* r; unsigned char* w; int* al; int nal; int* fr; int nfr; int any; };
static void ranges(unsigned char* m)
{
    bool c = false;
    for (int i = 1; i <= nseg; i++)
        if (m[i]) {
            int j = i;
            while (j < nseg && m[j + 1]) j++;
            if (c) put(",");
            c = true;
            put("[%ld,%ld]", i, j);
            memset(m + i, 0, j - i + 1);
            i = j;
        }
}
static void line(pend_t& p, int t, const char* k, long x, long o, long ok)
{
    put("{\"op\":\"ev\",\"t\":%ld,\"k\":\"", t);
    puts_(k);
    put("\",\"x\":%ld,\"o\":%ld", x, o);
    put(",\"ok\":%ld,\"R\":[", ok);
    if (p.any) ranges(p.r);
    put("],\"W\":[");
    if (p.any) ranges(p.w);
    put("],\"A\":[");
    for (int i = 0; i < p.nal; i++) put(i ? ",%ld" : "%ld", p.al[i] + 1);
    put("],\"F\":[");
    for (int i = 0; i < p.nfr; i++) put(i ? ",%ld" : "%ld", p.fr[i] + 1);
    put("],\"end\":1}\n");
    p.nal = p.nfr = p.any = 0;
}
void vt_dump(void (*write)(const char*, size_t))
{
    analyse();
    on = 0;
    put("{\"op\":\"begin\",\"threads\":%ld,\"segs\":%ld,\"blk\":[", nfb, nseg);
    for (int i = 1; i <= nseg; i++) put(i > 1 ? ",%ld" : "%ld", seg_block[i] + 1);
    put("],\"end\":1}\n");
    static pend_t p[MAXT];
    for (int t = 0; t < nfb; t++) {
        p[t].r = (unsigned char*) reserve(nseg + 2);
        p[t].w = (unsigned char*) reserve(nseg + 2);
        p[t].al = (int*) reserve(sizeof(int) * (nblk + 1));
        p[t].fr = (int*) reserve(sizeof(int) * (nblk + 1));
    }
    auto touch = [&](ev_t& e, unsigned char* m, uintptr_t lo, uintptr_t hi) {
        for (uintptr_t a = lo; a < hi; a++) { int s = seg_of(a); if (s) { m[s] = 1; p[e.t].any = 1; } }
    };
    for (size_t i = 0; i < nev; i++) {
        ev_t& e = ev[i];
        pend_t& q = p[e.t];
        switch (e.k) {
        case RD: touch(e, q.r, e.at, e.at + e.n); break;
        case WR: touch(e, q.w, e.at, e.at + e.n); break;
        case ALLOC: q.al[q.nal++] = e.n; break;
        case FREE:
            if (blk[e.n].shared) {
                if (q.any) line(q, e.t, "n", 0, 0, 0);
                touch(e, q.w, blk[e.n].at, blk[e.n].at + blk[e.n].size);
                q.fr[q.nfr++] = e.n;
                line(q, e.t, "n", 0, 0, 0);
            } else
                q.fr[q.nfr++] = e.n;
            break;
        case LOAD: case STORE: case RMW: {
            int s = seg_of(e.at);
            if (!s) break; // nobody else ever looks at it
            line(q, e.t, e.k == LOAD ? "r" : e.k == STORE ? "w" : "u", s, e.ord, e.ok);
            break;
        }
        case FENCE: line(q, e.t, "f", 0, e.ord, 0); break;
        case SPAWN: line(q, e.t, "s", e.n, 0, 0); break;
        case START: break;
        case END: line(q, e.t, "e", 0, 0, 0); break;
        case JOIN: line(q, e.t, "j", e.n, 0, 0); break;
        case MARK:
            if (q.any || q.nal || q.nfr) line(q, e.t, "n", 0, 0, 0);
            puts_(marks[e.n]);
            puts_("\n");
            break;
        }
    }
    for (int t = 0; t < nfb; t++) if (p[t].any || p[t].nal || p[t].nfr) line(p[t], t, "n", 0, 0, 0);
    write(ob, on);
}
}
