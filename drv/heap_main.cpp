// Threads that share heaps.  Recorders between the adaptors write down every
// call: what was asked for, which memory was handed out, what came back.
#include "common.hpp"
#include "conc.hpp"
#include <immer/heap/debug_size_heap.hpp>
#include <immer/heap/free_list_heap.hpp>
#include <immer/heap/heap_policy.hpp>
#include <immer/heap/identity_heap.hpp>
#include <immer/heap/split_heap.hpp>
#include <immer/heap/thread_local_free_list_heap.hpp>
#include <immer/heap/unsafe_free_list_heap.hpp>
#include <immer/heap/with_data.hpp>
#include <atomic>

#ifndef CFG
#define CFG 1
#endif
#ifndef LIMIT
#define LIMIT 2
#endif
static void note(const char* op, int lv, size_t n, const void* p)
{
    VT_QUIET;
    long a = p ? (long) ((uintptr_t) p - 0x200000000000ull) + 64 : 0;
    if (a < 0 || a > 1l << 30) a = -1;
    vt_mark(("!{\"op\":\"" + std::string(op) + "\",\"t\":" + std::to_string(vt_self()) + ",\"lv\":" + std::to_string(lv) +
             ",\"n\":" + std::to_string(n) + ",\"a\":" + std::to_string(a) + ",\"end\":1}").c_str());
}
template <int LV, class Base> struct Rec : Base
{
    using type = Rec;
    template <class... Tags> static void* allocate(std::size_t n, Tags... tags)
    {
        note("ask", LV, n, nullptr);
        void* p = Base::allocate(n, tags...);
        note("got", LV, n, p);
        return p;
    }
    template <class... Tags> static void deallocate(std::size_t n, void* p, Tags... tags)
    {
        note("give", LV, n, p);
        Base::deallocate(n, p, tags...);
        note("gave", LV, n, nullptr);
    }
};
constexpr std::size_t S = 24;
constexpr std::size_t L = LIMIT;
#define LEVEL(k, lim, size, kids) "[\"" k "\"," lim "," size "," kids "]"
#define STR_(x) #x
#define STR(x) STR_(x)
using namespace immer;
#if CFG == 1 // a shared free list
using heap = Rec<1, with_free_list_node<Rec<2, free_list_heap<S, L, Rec<3, conc_heap>>>>>;
static const char* LEVELS = "[" LEVEL("pass", "0", "0", "[2]") "," LEVEL("free", STR(LIMIT), "99", "[3]") "," LEVEL("root", "0", "0", "[]") "]";
#elif CFG == 2 // a list for every thread
using heap = Rec<1, with_free_list_node<Rec<2, thread_local_free_list_heap<S, L, Rec<3, conc_heap>>>>>;
static const char* LEVELS = "[" LEVEL("pass", "0", "0", "[2]") "," LEVEL("own", STR(LIMIT), "0", "[3]") "," LEVEL("root", "0", "0", "[]") "]";
#elif CFG == 3 // a list for one thread
#define ALONE
using heap = Rec<1, with_free_list_node<Rec<2, unsafe_free_list_heap<S, L, Rec<3, malloc_heap>>>>>;
static const char* LEVELS = "[" LEVEL("pass", "0", "0", "[2]") "," LEVEL("own", STR(LIMIT), "0", "[3]") "," LEVEL("root", "0", "0", "[]") "]";
#elif CFG == 4 // what free_list_heap_policy puts together
using heap = Rec<1, split_heap<S, Rec<2, with_free_list_node<Rec<3, thread_local_free_list_heap<S, L,
                 Rec<4, free_list_heap<S, L, Rec<6, debug_size_heap<Rec<8, conc_heap>>>>>>>>>,
             Rec<5, debug_size_heap<Rec<7, cpp_heap>>>>>;
#define SPLITS
static const char* LEVELS = "[" LEVEL("split", "0", "24", "[2,5]") "," LEVEL("pass", "0", "0", "[3]") "," LEVEL("own", STR(LIMIT), "0", "[4]") ","
    LEVEL("free", STR(LIMIT), "99", "[6]") "," LEVEL("pass", "0", "0", "[7]") "," LEVEL("pass", "0", "0", "[8]") "," LEVEL("root", "0", "0", "[]") "," LEVEL("root", "0", "0", "[]") "]";
#elif CFG == 5 // the policy itself
using heap = Rec<1, free_list_heap_policy<Rec<2, cpp_heap>, L>::optimized<S>::type>;
#define SPLITS
static const char* LEVELS = "[" LEVEL("all", STR(LIMIT), "24", "[2]") "," LEVEL("root", "0", "0", "[]") "]";
#elif CFG == 6
#define ALONE
#define SPLITS
using heap = Rec<1, unsafe_free_list_heap_policy<Rec<2, malloc_heap>, L>::optimized<S>::type>;
static const char* LEVELS = "[" LEVEL("alone", STR(LIMIT), "24", "[2]") "," LEVEL("root", "0", "0", "[]") "]";
#elif CFG == 7 // adaptors that only add something
static VT_Q long DATA = 0; // objects alive
struct data_t
{
    long x = 41, y = 42;
    data_t() { VT_QUIET; DATA++; }
    ~data_t() { x = y = 0; VT_QUIET; DATA--; }
};
using heap = Rec<1, split_heap<16, Rec<2, debug_size_heap<Rec<4, conc_heap>>>,
             Rec<3, identity_heap<Rec<5, with_data<data_t, Rec<6, heap_policy<malloc_heap>::optimized<S>::type>>>>>>>;
#define SPLITS
static const char* LEVELS = "[" LEVEL("split", "0", "16", "[2,3]") "," LEVEL("pass", "0", "0", "[4]") "," LEVEL("pass", "0", "0", "[5]") ","
    LEVEL("root", "0", "0", "[]") "," LEVEL("pass", "0", "0", "[6]") "," LEVEL("root", "0", "0", "[]") "]";
#elif CFG == 8 // the plain policy
using heap = Rec<1, heap_policy<Rec<2, cpp_heap>>::optimized<S>::type>;
static const char* LEVELS = "[" LEVEL("pass", "0", "0", "[2]") "," LEVEL("root", "0", "0", "[]") "]";
#elif CFG == 9 // as operator new and delete use it
struct obj_t : enable_optimized_heap_policy<obj_t, free_list_heap_policy<Rec<2, cpp_heap>, L>> { unsigned char c[S]; };
struct objs
{
    static void* allocate(size_t n) { return obj_t::operator new(n); }
    static void deallocate(size_t n, void* p) { obj_t::operator delete(p, n); }
};
using heap = Rec<1, objs>;
static const char* LEVELS = "[" LEVEL("all", STR(LIMIT), "24", "[2]") "," LEVEL("root", "0", "0", "[]") "]";
#endif

struct item { unsigned char* p; size_t n; unsigned char k; };
static item get(size_t n, unsigned char k)
{
    item i{static_cast<unsigned char*>(heap::allocate(n)), n, k};
    for (size_t j = 0; j < n; j++) i.p[j] = (unsigned char) (k + j);
    return i;
}
static void put(item i)
{
    bool ok = true;
    for (size_t j = 0; j < i.n; j++) ok = ok && i.p[j] == (unsigned char) (i.k + j);
#if CFG == 7
    if (i.n > 16) { auto d = reinterpret_cast<data_t*>(i.p) - 1; ok = ok && d->x == 41 && d->y == 42; }
#endif
    if (!ok) { VT_QUIET; vt_mark("!{\"op\":\"spoilt\",\"end\":1}"); }
    heap::deallocate(i.n, i.p);
}
// what a thread keeps until it ends
struct keep_t
{
    item q[4];
    int n = 0;
    ~keep_t() { while (n) put(q[--n]); }
};
static keep_t& keeper()
{
    thread_local keep_t k;
    return k;
}
static std::atomic<item*> MAIL[2];
static size_t size_for(unsigned x)
{
#ifdef SPLITS
    static const size_t s[] = {8, 24, 25, 1, 16, 17, 40, 23};
#else
    static const size_t s[] = {8, 24, 1, 17};
#endif
    return s[x % (sizeof s / sizeof *s)];
}
struct worker_t
{
    int t;
    std::string ops; // quiet
    bool early;
};
// a allocate, f free the latest, g free the earliest, m hand over, t take what was handed over, k keep until the end
static const char OPS[] = "aaaaffgmtk";
static void work(void* p)
{
    worker_t& w = *static_cast<worker_t*>(p);
    size_t n;
    std::vector<item>* own;
    { VT_QUIET; n = w.ops.size(); own = new std::vector<item>; own->reserve(64); }
    if (w.early) keeper();
    auto pop = [&](bool first) {
        VT_QUIET;
        item i = first ? own->front() : own->back();
        if (first) own->erase(own->begin()); else own->pop_back();
        return i;
    };
    auto add = [&](item i) { VT_QUIET; own->push_back(i); };
    for (size_t i = 0; i < n; i++) {
        char c;
        bool none;
        { VT_QUIET; c = w.ops[i]; none = own->empty(); }
        switch (c) {
        case 'a': add(get(size_for((unsigned) (w.t * 5 + i)), (unsigned char) (w.t * 40 + i * 3))); break;
        case 'f': case 'g': if (!none) put(pop(c == 'g')); break;
        case 'm':
            if (!none) {
                item* x;
                item y = pop(true);
                { VT_QUIET; x = new item(y); }
                item* z = MAIL[w.t % 2].exchange(x);
                if (z) { item y; { VT_QUIET; y = *z; delete z; } put(y); }
            }
            break;
        case 't':
            if (item* z = MAIL[(w.t + 1) % 2].exchange(nullptr)) { item y; { VT_QUIET; y = *z; delete z; } put(y); }
            break;
        case 'k': if (!none && keeper().n < 4) { auto& k = keeper(); k.q[k.n++] = pop(false); } break;
        }
    }
    for (;;) {
        bool none;
        { VT_QUIET; none = own->empty(); }
        if (none) break;
        put(pop(true));
    }
    if (w.t) {
        VT_QUIET;
        vt_mark(("!{\"op\":\"ending\",\"t\":" + std::to_string(w.t) + ",\"end\":1}").c_str());
    }
}
// kind 0: two threads; a and b number programs; kind 1: b threads of a operations
static void body(const scenario_t& sc)
{
    int nt;
    worker_t* w;
    rng* r;
    int before;
    {
        VT_QUIET;
        r = new rng(sc.seed);
        w = new worker_t[5];
        nt = sc.kind == 0 ? 2 : (int) sc.b;
#ifdef ALONE
        nt = 0;
#endif
        for (int t = 0; t <= nt; t++) {
            w[t].t = t;
            w[t].early = r->chance(50);
            if (sc.kind == 0) {
                if (t) for (long c = t == 1 ? sc.a : sc.b; c; c /= 10) w[t].ops += "afmtk"[c % 10 - 1];
            } else {
                long len = nt ? sc.a : 6 * sc.a;
                if (t || !nt) for (long i = 0; i < len; i++) w[t].ops += OPS[r->below(strlen(OPS) - !t)];
            }
        }
        before = nt ? (int) r->below(4) : 0;
        vt_mark((std::string("!{\"op\":\"init\",\"threads\":") + std::to_string(nt) + ",\"levels\":" + LEVELS + ",\"end\":1}").c_str());
    }
    vt_mark("#{\"op\":\"base\",\"end\":1}");
    { // the lists begin with something in them
        item is[3];
        for (int i = 0; i < before; i++) is[i] = get(size_for((unsigned) i), (unsigned char) i);
        for (int i = 0; i < before; i++) put(is[i]);
    }
#ifdef ALONE
    work(&w[0]);
#else
    for (int t = 1; t <= nt; t++) vt_spawn(work, &w[t]);
    vt_join_all();
#endif
    vt_mark("!{\"op\":\"joined\",\"end\":1}");
    for (auto& m : MAIL)
        if (item* z = m.exchange(nullptr)) { item y; { VT_QUIET; y = *z; delete z; } put(y); }
    { // what has been kept can be had again
        constexpr int all = 3 * LIMIT + 5;
        item is[all];
        for (int i = 0; i < all; i++) is[i] = get(8, (unsigned char) i);
        for (int i = 0; i < all; i++) put(is[i]);
    }
#if CFG == 7
    if (DATA) { VT_QUIET; vt_mark("!{\"op\":\"data not destroyed\",\"end\":1}"); }
#endif
    vt_mark("!{\"op\":\"done\",\"end\":1}");
    vt_mark("#{\"op\":\"final\",\"leak\":0,\"end\":1}");
}
static scenario_t scenario(long i, rng& r, std::map<std::string, std::string>& arg)
{
    scenario_t s;
    s.seed = (long) r.below(1000000);
    if (arg.count("--menu")) { // two programs of so many operations
        long len = NUM(arg, "--menu", 3);
        auto prog = [&] { long c = 1; for (long k = 1; k < len; k++) { long x = (long) r.below(9); c = c * 10 + (x < 4 ? 1 : x < 6 ? 2 : x - 3); } return c; };
        s.a = prog();
        s.b = prog();
    } else {
        s.kind = 1;
        s.a = NUM(arg, "--len", 6);
        s.b = NUM(arg, "--threads", 2);
    }
    return s;
}
int main(int argc, char** argv) { return conc_main(argc, argv); }
