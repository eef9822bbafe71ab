// box driver: histories of box operations.
//   box --seed S --runs N --len L [--life 1] [--faults PCT]
//   box --replay FILE                          lines: op d s e m a b c
#include "common.hpp"
#include <array>
#include <fstream>
#include <sstream>

template <bool NT> struct std::hash<Obj_<NT>>
{
    size_t operator()(const Obj_<NT>& x) const { return std::hash<long>{}(x.get() * 31); }
};
template <bool NT> bool operator<(const Obj_<NT>& a, const Obj_<NT>& b) { return a.get() < b.get(); }
template <> struct std::hash<Big> { size_t operator()(const Big& x) const { return x.v; } };
inline bool operator<(const Big& a, const Big& b) { return a.v < b.v; }

struct two { long x, y; };
#if EL == 2
inline long held(const T& x) { return x.empty() ? 0 : val_of(x); }
#else
inline long held(const T& x) { return val_of(x); }
#endif
using Box = immer::box<T, MP>;
using Nest = immer::box<Box, MP>;
inline T mk(long v) { return v == 0 ? T{} : El<T>::make(v); }
// the order of the values: strings are not ordered as the numbers in them
inline bool before(const T& a, const T& b)
{
#if EL == 2
    return a.size() != b.size() ? a.size() < b.size() : a < b;
#else
    return a < b;
#endif
}

struct op_t { std::string op; int d = 0, s = 0, e = 0, m = 0; long a = 0, b = 0, c = 0, fault = 0; };
constexpr int NB = 8, NN = 12, NREG = 16, LONGEST = 6;
// lists: boxes of a recursive type
struct link_t;
using List = immer::box<link_t, MP>;
struct opt_t // maybe a list; std::vector and the like would hide it from a collector
{
    bool has = false;
    alignas(void*) char mem[sizeof(void*)];
    List& get() { return *reinterpret_cast<List*>(mem); }
    const List& get() const { return *reinterpret_cast<const List*>(mem); }
    opt_t() = default;
    explicit opt_t(List x);
    opt_t(const opt_t& x);
    opt_t(opt_t&& x);
    opt_t& operator=(opt_t x);
    ~opt_t();
};
struct link_t { T v{mk(0)}; opt_t next; };
static_assert(sizeof(List) == sizeof(void*), "");
opt_t::opt_t(List x) : has{true} { new (mem) List{std::move(x)}; }
opt_t::opt_t(const opt_t& x) : has{x.has} { if (has) new (mem) List{x.get()}; }
opt_t::opt_t(opt_t&& x) : has{x.has} { if (has) new (mem) List{std::move(x.get())}; }
opt_t& opt_t::operator=(opt_t x)
{
    if (has && x.has) { using std::swap; swap(get(), x.get()); return *this; }
    if (has) get().~List();
    has = x.has;
    if (has) new (mem) List{std::move(x.get())};
    return *this;
}
opt_t::~opt_t() { if (has) get().~List(); }
inline bool operator==(const link_t& a, const link_t& b)
{
    return held(a.v) == held(b.v) && a.next.has == b.next.has && (!a.next.has || a.next.get() == b.next.get());
}
inline bool operator!=(const link_t& a, const link_t& b) { return !(a == b); }
inline bool operator<(const link_t& a, const link_t& b)
{
    if (held(a.v) != held(b.v)) return held(a.v) < held(b.v);
    return b.next.has && (!a.next.has || a.next.get() < b.next.get());
}

struct regs_t
{
    std::array<Box, NB> b;
    std::array<Nest, NN - NB> n;
    std::array<List, NREG - NN> l;
    bool moved[NREG + 1] = {};
    std::vector<long> last[NREG + 1] = {};
    bool has[NREG + 1] = {};
};
static regs_t* RG;
static typename std::aligned_storage<sizeof(regs_t), alignof(regs_t)>::type RG_mem;
inline Box& B(int r) { return RG->b[r - 1]; }
inline Nest& N(int r) { return RG->n[r - NB - 1]; }
inline List& L(int r) { return RG->l[r - NN - 1]; }
inline bool isB(int r) { return r <= NB; }
inline bool isL(int r) { return r > NN; }
inline int kind(int r) { return isB(r) ? 0 : isL(r) ? 2 : 1; }
inline int any(int k, rng& r) { return k == 0 ? 1 + (int) r.below(NB) : k == 1 ? NB + 1 + (int) r.below(NN - NB) : NN + 1 + (int) r.below(NREG - NN); }
template <class Fn> void with(int r, Fn&& fn) { if (isB(r)) fn(B(r)); else if (isL(r)) fn(L(r)); else fn(N(r)); }

static long views(const Box& x)
{
    long v = held(x.get());
    const T& c = x;
    if (held(*x) != v || held(c) != v || &*x != &x.get() || x.operator->() != &x.get()) return BAD;
    T plain = mk(v);
    if (!(x == plain) || !(plain == x) || x != plain || plain != x) return BAD;
    if (x < plain || plain < x) return BAD;
    if (std::hash<Box>{}(x) != std::hash<T>{}(plain)) return BAD;
    T other = mk(v + 1);
    if (x == other || other == x || !(x != other) || !(other != x)) return BAD;
    if ((x < other) != (plain < other) || (other < x) != (other < plain)) return BAD;
    return v;
}
static long views(const Nest& x)
{
    long v = views(x.get());
    if (std::hash<Nest>{}(x) != std::hash<Box>{}(x.get())) return BAD;
    return v;
}
static long views(const List& x)
{
    const link_t& c = x;
    if (&c != &x.get() || &*x != &c || x.operator->() != &c || !(x == c) || !(c == x) || x != c || c != x || x < c || c < x) return BAD;
    return 0;
}
template <class X> std::vector<long> contents(const X& x) { return {views(x)}; }
template <> std::vector<long> contents(const List& x)
{
    if (views(x) == BAD) return {BAD};
    std::vector<long> r{held(x->v)};
    if (x->next.has) { auto t = contents(x->next.get()); r.insert(r.end(), t.begin(), t.end()); }
    return r;
}
static void observe()
{
    int bad = 0, eqbad = 0;
    bool c = false;
    OUT << ",\"ch\":[";
    for (int r = 1; r <= NREG; r++) {
        if (RG->moved[r]) { RG->has[r] = false; continue; }
        std::vector<long> v;
        with(r, [&](auto& x) { v = contents(x); });
        for (long x : v) if (x == BAD) bad = r;
        if (!RG->has[r] || RG->last[r] != v) {
            OUT << (c ? ",[" : "[") << r << ",[";
            for (size_t i = 0; i < v.size(); i++) OUT << (i ? "," : "") << v[i];
            OUT << "]]";
            c = true;
            RG->last[r] = v;
            RG->has[r] = true;
        }
    }
    std::string eq, lt;
    for (int i = 1; i <= NREG; i++)
        for (int j = i + 1; j <= NREG; j++) {
            if (kind(i) != kind(j) || RG->moved[i] || RG->moved[j]) continue;
            with(i, [&](auto& x) { with(j, [&](auto& y) {
                if constexpr (std::is_same<decltype(x), decltype(y)>::value) {
                    bool q = x == y;
                    if (q != (y == x) || q != !(x != y) || q != !(y != x)) eqbad = i;
                    if (x.impl() == y.impl() && !q) eqbad = i;
                    bool less = x < y, more = y < x;
                    if constexpr (std::is_same<std::decay_t<decltype(x)>, Box>::value) {
                        if (less != (x.get() < y.get()) || more != (y.get() < x.get())) eqbad = i;
                        less = before(x, y); more = before(y, x);
                    } else if constexpr (std::is_same<std::decay_t<decltype(x)>, List>::value) {
                        if (less != (x.get() < y.get()) || more != (y.get() < x.get())) eqbad = i;
                    } else {
                        if (less != (x.get() < y.get()) || more != (y.get() < x.get())) eqbad = i;
                        less = before(*x.get(), *y.get()); more = before(*y.get(), *x.get());
                    }
                    if (less && more) eqbad = i;
                    auto p = "[" + std::to_string(i) + "," + std::to_string(j) + "]";
                    if (q) eq += (eq.empty() ? "" : ",") + p;
                    if (less) lt += (lt.empty() ? "" : ",") + p;
                }
            }); });
        }
    OUT << "],\"bad\":" << bad << ",\"eq\":[" << eq << "],\"lt\":[" << lt << "],\"eqbad\":" << eqbad << ",\"end\":1}\n";
    OUT.flush();
}

static T add(T x, long by) { LIFE.may_throw(2); return mk(held(x) + by); }
static void perform(const op_t& o)
{
    auto& op = o.op;
    if (op == "new") with(o.d, [&](auto& d) { d = std::decay_t<decltype(d)>{}; });
    else if (op == "make") {
        if (isL(o.d)) { L(o.d) = link_t{mk(o.a), {}}; return; }
        if (!isB(o.d)) { N(o.d) = Nest{mk(o.a)}; return; }
        T v = mk(o.a);
        switch (o.c) {
        case 0: B(o.d) = Box{v}; break;
        case 1: B(o.d) = Box{std::move(v)}; break;
        case 2: B(o.d) = v; break;               // through the converting constructor
        default: { Box x{std::move(v)}; B(o.d) = x; }
        }
    } else if (op == "copy")
        with(o.s, [&](auto& s) { with(o.d, [&](auto& d) {
            if constexpr (std::is_same<decltype(s), decltype(d)>::value) {
                using X = std::decay_t<decltype(s)>;
                if (o.c == 1) { X x = (o.m & 1) ? X(std::move(s)) : X(s); d = std::move(x); }
                else if (o.m & 1) d = std::move(s);
                else d = s;
            } }); });
    else if (op == "swap")
        with(o.s, [&](auto& s) { with(o.d, [&](auto& d) {
            if constexpr (std::is_same<decltype(s), decltype(d)>::value) { using std::swap; swap(d, s); } }); });
    else if (op == "selfmove") with(o.d, [&](auto& d) { auto& r = d; d = std::move(r); });
    else if (op == "selfcopy") with(o.d, [&](auto& d) { auto& r = d; d = r; });
    else if (op == "update") {
        if (isB(o.s)) {
            auto& s = B(o.s); auto& d = B(o.d);
            const Box& cs = s;
            auto by_value = [&](T x) { return add(std::move(x), o.b); };
            auto by_ref = [&](const T& x) { LIFE.may_throw(2); return mk(held(x) + o.b); };
            auto to_box = [&](const T& x) { LIFE.may_throw(2); return Box{mk(held(x) + o.b)}; };
            auto by_rref = [&](auto&& x) { LIFE.may_throw(2); T y = std::forward<decltype(x)>(x); return add(std::move(y), o.b); };
            switch (o.m * 4 + o.c) {
            case 0: d = cs.update(by_value); break;
            case 1: d = cs.update(by_ref); break;
            case 2: d = cs.update(to_box); break;
            case 3: d = cs.update(by_rref); break;
            case 4: d = std::move(s).update(by_value); break;
            case 5: d = std::move(s).update(by_ref); break;
            case 6: d = std::move(s).update(by_ref); break;
            default: d = std::move(s).update(by_rref);
            }
        } else if (isL(o.s)) {
            auto& s = L(o.s); auto& d = L(o.d);
            const List& cs = s;
            auto by_value = [&](link_t x) { x.v = add(std::move(x.v), o.b); return x; };
            auto by_ref = [&](const link_t& x) { return link_t{add(x.v, o.b), x.next}; };
            if (o.m & 1) { if (o.c & 1) d = std::move(s).update(by_value); else d = std::move(s).update(by_ref); }
            else { if (o.c & 1) d = cs.update(by_value); else d = cs.update(by_ref); }
        } else {
            auto& s = N(o.s); auto& d = N(o.d);
            const Nest& cs = s;
            auto inner = [&](Box x) { return std::move(x).update([&](T y) { return add(std::move(y), o.b); }); };
            auto outer = [&](const Box& x) { return x.update([&](const T& y) { return add(y, o.b); }); };
            if (o.m & 1) { if (o.c & 1) d = std::move(s).update(inner); else d = std::move(s).update(outer); }
            else { if (o.c & 1) d = cs.update(inner); else d = cs.update(outer); }
        }
    } else if (op == "wrap") { if (o.m & 1) N(o.d) = Nest{std::move(B(o.s))}; else N(o.d) = Nest{B(o.s)}; }
    else if (op == "cons") { if (o.m & 1) L(o.d) = link_t{mk(o.a), opt_t{std::move(L(o.s))}}; else L(o.d) = List{link_t{mk(o.a), opt_t{L(o.s)}}}; }
    else if (op == "tail") { if (o.c) { auto x = L(o.s)->next.get(); L(o.d) = std::move(x); } else L(o.d) = L(o.s)->next.get(); }
    else if (op == "unwrap") { if (o.c) { const Box& x = N(o.s); B(o.d) = x; } else B(o.d) = *N(o.s); }
    else { fprintf(stderr, "driver: unknown op %s\n", op.c_str()); exit(3); }
}
static bool valid(const op_t& o)
{
    auto is = [&](const char* x) { return o.op == x; };
    if (is("init")) return true;
    if (is("new") || is("make")) return o.d > 0;
    if (is("selfmove") || is("selfcopy")) return o.d > 0 && !RG->moved[o.d];
    if (o.s <= 0 || RG->moved[o.s]) return false;
    if (is("swap")) return o.d > 0 && !RG->moved[o.d] && kind(o.d) == kind(o.s);
    if (is("wrap")) return isB(o.s) && kind(o.d) == 1;
    if (is("unwrap")) return kind(o.s) == 1 && isB(o.d);
    if (is("cons")) return isL(o.s) && isL(o.d) && contents(L(o.s)).size() < LONGEST;
    if (is("tail")) return isL(o.s) && isL(o.d) && L(o.s)->next.has;
    return kind(o.d) == kind(o.s);
}
static void run_op(const op_t& o)
{
    static long nops = 0;
    if (o.op == "init") {
        recorded(0, [] { if (RG) RG->~regs_t(); RG = nullptr; });
        OUT << "{\"op\":\"init\",\"kinds\":[";
        for (int r = 1; r <= NREG; r++) OUT << (r > 1 ? ",\"" : "\"") << (isB(r) ? "B" : isL(r) ? "L" : "N") << "\"";
        OUT << "]";
        put_life();
        recorded(0, [] { RG = new (&RG_mem) regs_t{}; });
        for (auto& h : RG->has) h = true;
        for (auto& v : RG->last) v = {0};
        put_life("made");
        OUT << ",\"end\":1}\n";
        OUT.flush();
        return;
    }
    nops++;
    bool in_place = o.m & 1;
    long first = FAULTS && (nops * 7919) % 100 < FAULTS ? in_place ? 1 + nops % 4 : 1 : 0;
    for (long k = first;; k++) {
        OUT << "{\"op\":\"" << o.op << "\",\"d\":" << o.d << ",\"s\":" << o.s << ",\"e\":0,\"m\":" << o.m
            << ",\"a\":" << o.a << ",\"b\":" << o.b << ",\"c\":" << o.c;
        if (k) OUT << ",\"fault\":" << k;
        OUT.flush();
        bool thrown = recorded(k, [&] { perform(o); });
        if (thrown) { OUT << ",\"thrown\":1"; if (in_place) RG->moved[o.s] = true; }
        else if (k && LIFE.fault_seen >= k) OUT << ",\"swallowed\":1";
        else {
            if (in_place && o.s != o.d) RG->moved[o.s] = true;
            if (o.d) RG->moved[o.d] = false;
        }
        put_life();
        observe();
        if (!thrown || in_place) break;
    }
}
int main(int argc, char** argv)
{
#ifdef VT_GC
    GC_INIT();
#endif
    std::map<std::string, std::string> arg;
    for (int i = 1; i + 1 < argc; i += 2) arg[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, long d) { return arg.count(k) ? atol(arg[k].c_str()) : d; };
    LIFE_LOG = num("--life", 0);
    FAULTS = num("--faults", 0);
    FAULT_MASK = num("--fault-mask", 7);
    op_t init;
    init.op = "init";
    if (arg.count("--replay")) {
        std::ifstream in(arg["--replay"]);
        std::string line;
        run_op(init);
        while (std::getline(in, line)) {
            std::istringstream is(line);
            op_t o;
            if (!(is >> o.op)) continue;
            is >> o.d >> o.s >> o.e >> o.m >> o.a >> o.b >> o.c;
            if (valid(o)) run_op(o);
        }
        if (LIFE_LOG) { run_op(init); }
        return 0;
    }
    long runs = num("--runs", 10), len = num("--len", 100);
    for (long q = 0; q < runs; q++) {
        rng r(num("--seed", 1) * 1000003 + q);
        run_op(init);
        for (long k = 0; k < len;) {
            op_t o;
            int w = (int) r.below(100);
            o.d = 1 + (int) r.below(NREG);
            o.s = any(kind(o.d), r);
            if (r.chance(25)) o.s = o.d;
            o.m = r.chance(40);
            if (w < 4) { o.op = "new"; o.m = o.s = 0; }
            else if (w < 18) { o.op = "make"; o.m = o.s = 0; o.a = (long) r.below(r.chance(60) ? 6 : 100000); o.c = (long) r.below(4); }
            else if (w < 42) { o.op = "copy"; o.c = (long) r.below(2); if (o.s == o.d) o.m = 0; }
            else if (w < 47) { o.op = "swap"; o.m = 0; }
            else if (w < 49) { o.op = r.chance(50) ? "selfmove" : "selfcopy"; o.m = o.s = 0; }
            else if (w < 84) { o.op = "update"; o.b = r.chance(30) ? 0 : 1 + (long) r.below(4); o.c = (long) r.below(4); }
            else if (w < 92) { o.op = "wrap"; o.d = any(1, r); o.s = any(0, r); }
            else if (w < 97) { o.op = "unwrap"; o.s = any(1, r); o.d = 1 + (int) r.below(NB); o.m = 0; o.c = (long) r.below(2); }
            else o.d = 0;
            if (isL(o.d) && o.op != "new" && r.chance(50)) {
                o.op = r.chance(60) ? "cons" : "tail";
                o.s = r.chance(50) ? o.d : any(2, r);
                o.a = (long) r.below(4); o.c = (long) r.below(2);
                if (o.op == "tail") o.m = 0;
            }
            if (o.d == 0 || !valid(o)) continue;
            run_op(o);
            k++;
        }
    }
    if (LIFE_LOG) { run_op(init); run_op(init); }
    return 0;
}
