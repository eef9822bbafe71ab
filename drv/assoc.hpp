// Executes operations of AssocSpec on the real set, map and table and records
// what an observer sees.
#pragma once
#include "common.hpp"
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>
#include <array>
#include <stdexcept>

#ifndef BITS
#define BITS 5
#endif
#ifndef KT
#define KT 0
#endif
#ifndef VT
#define VT 0
#endif
#if KT == 0
using Key = int;
#elif KT == 1
using Key = std::string;
#elif KT == 2
using Key = ObjN;
#elif KT == 3
using Key = Obj;
#elif KT == 8
using Key = Heaped;
#endif
#if VT == 0
using Val = int;
#elif VT == 1
using Val = std::string;
#elif VT == 2
using Val = ObjN;
#elif VT == 3
using Val = Obj;
#elif VT == 8
using Val = Heaped;
#endif

// The hash function is a table chosen per history.
static VT_Q std::vector<size_t> HT(4096);
struct alt_key { int k; }; // transparent lookups
inline long key_of(const Key& k) { return val_of(k); }
struct hasher_t
{
    using is_transparent = void;
    size_t operator()(const Key& k) const
    {
        LIFE.may_throw(2);
        long v = key_of(k);
        return v < 0 || v >= (long) HT.size() ? 0 : HT[v];
    }
    size_t operator()(const alt_key& k) const { return HT[k.k]; }
};
struct equal_t
{
    using is_transparent = void;
    bool operator()(const Key& a, const Key& b) const { LIFE.may_throw(2); return a == b; }
    bool operator()(const Key& a, const alt_key& b) const { return key_of(a) == b.k; }
    bool operator()(const alt_key& a, const Key& b) const { return key_of(b) == a.k; }
};
struct Row
{
    Key id;
    Val v;
    Row() : id(El<Key>::make(0)), v(El<Val>::make(0)) {}
    Row(Key k, Val x) : id(std::move(k)), v(std::move(x)) {}
    bool operator==(const Row& o) const { return id == o.id && v == o.v; }
    bool operator!=(const Row& o) const { return !(*this == o); }
};
inline long mval(const Val& v)
{
#if VT == 1
    if (v.empty()) return 0;
#endif
    return val_of(v);
}
inline Val make_val(long v) { return El<Val>::make(v); }
inline Key make_key(long v) { return El<Key>::make(v); }

using S = immer::set<Key, hasher_t, equal_t, MP, BITS>;
using M = immer::map<Key, Val, hasher_t, equal_t, MP, BITS>;
using TB = immer::table<Row, immer::table_key_fn, hasher_t, equal_t, MP, BITS>;

struct op_t
{
    std::string op;
    int d = 0, s = 0, e = 0, m = 0;
    long a = 0, b = 0, c = 0;
    long fault = 0;
    std::vector<long> jumps;
};
template <class P> struct bank
{
    using TR = typename P::transient_type;
    std::array<P, 5> p;
    std::array<TR, 3> t;
};
// kinds of register: 1..5 S, 6..8 s, 9..13 M, 14..16 m, 17..21 T, 22..24 t
constexpr int NREG = 24;
static const char* KINDS[NREG + 1] = {"", "S", "S", "S", "S", "S", "s", "s", "s",
                                      "M", "M", "M", "M", "M", "m", "m", "m",
                                      "T", "T", "T", "T", "T", "t", "t", "t"};
using flat_t = std::vector<long>; // index 0: 0, or a complaint; k: value of k, 0 for absent
struct regs_t
{
    bank<S> s;
    bank<M> m;
    bank<TB> t;
    bool moved[NREG + 1] = {};
    flat_t last[NREG + 1];
    bool has_last[NREG + 1] = {};
    long size[NREG + 1] = {};
};
static VT_Q regs_t* RG = nullptr;
static VT_TL unsigned long OWN = ~0ul; // the registers this thread may use
inline bool own(int r) { return OWN >> r & 1; }
static VT_Q typename std::aligned_storage<sizeof(regs_t), alignof(regs_t)>::type RG_mem;
static VT_Q long U = 16; // keys are 1..U
static VT_Q int LO = 1, HI = NREG; // registers used by this history

inline bool persistent(int r) { return KINDS[r][0] < 'a'; }
template <class Fn> void with(int r, Fn&& fn)
{
    if (r <= 5) fn(RG->s.p[r - 1]);
    else if (r <= 8) fn(RG->s.t[r - 6]);
    else if (r <= 13) fn(RG->m.p[r - 9]);
    else if (r <= 16) fn(RG->m.t[r - 14]);
    else if (r <= 21) fn(RG->t.p[r - 17]);
    else fn(RG->t.t[r - 22]);
}
template <class X> constexpr bool is_p_v = std::is_same<std::decay_t<X>, S>::value ||
                                           std::is_same<std::decay_t<X>, M>::value ||
                                           std::is_same<std::decay_t<X>, TB>::value;
template <class X> constexpr bool is_set_v = std::is_same<std::decay_t<X>, S>::value ||
                                             std::is_same<std::decay_t<X>, typename S::transient_type>::value;
template <class X> constexpr bool is_map_v = std::is_same<std::decay_t<X>, M>::value ||
                                             std::is_same<std::decay_t<X>, typename M::transient_type>::value;
template <class X> constexpr bool is_table_v = !is_set_v<X> && !is_map_v<X>;

// ------------------------------------------------------------ observation
static VT_TL int ROUTE = 0;
inline void seen(flat_t& f, long k, long v)
{
    if (k < 1 || k > U || v <= 0 || f[k] != 0) f[0] = BAD; // unknown, damaged or visited twice
    else f[k] = v;
}
inline void seen(flat_t& f, const Key& k) { seen(f, key_of(k), 1); }
inline void seen(flat_t& f, const std::pair<Key, Val>& x) { seen(f, key_of(x.first), mval(x.second)); }
inline void seen(flat_t& f, const Row& x) { seen(f, key_of(x.id), mval(x.v)); }
inline long ekey(const Key& k) { return key_of(k); }
inline long ekey(const std::pair<Key, Val>& x) { return key_of(x.first); }
inline long ekey(const Row& x) { return key_of(x.id); }
inline long look(const Key* p, long k) { return !p ? 0 : key_of(*p) == k ? 1 : BAD; }
template <class X> long look_find(const X& x, long k, bool alt)
{
    if constexpr (is_set_v<X>) return look(alt ? x.find(alt_key{(int) k}) : x.find(make_key(k)), k);
    else if constexpr (is_map_v<X>) {
        auto p = alt ? x.find(alt_key{(int) k}) : x.find(make_key(k));
        return p ? mval(*p) : 0;
    } else {
        auto p = alt ? x.find(alt_key{(int) k}) : x.find(make_key(k));
        return !p ? 0 : key_of(p->id) == k ? mval(p->v) : BAD;
    }
}
template <class X> long look_at(const X& x, long k, bool alt)
{
    if constexpr (is_set_v<X>) return (long) (alt ? x.count(alt_key{(int) k}) : x.count(make_key(k)));
    else {
        try {
            if constexpr (is_map_v<X>) return mval(alt ? x.at(alt_key{(int) k}) : x.at(make_key(k)));
            else {
                const Row& r = alt ? x.at(alt_key{(int) k}) : x.at(make_key(k));
                return key_of(r.id) == k ? mval(r.v) : BAD;
            }
        } catch (const std::out_of_range&) {
            return 0;
        }
    }
}
template <class X> long look_index(const X& x, long k, bool alt)
{
    size_t n = alt ? x.count(alt_key{(int) k}) : x.count(make_key(k));
    if constexpr (is_set_v<X>) return (long) n;
    else {
        long v;
        if constexpr (is_map_v<X>) v = mval(alt ? x[alt_key{(int) k}] : x[make_key(k)]);
        else v = mval((alt ? x[alt_key{(int) k}] : x[make_key(k)]).v);
        if (n > 1 || (n == 0 && v != 0)) return BAD;
        return n ? v : 0;
    }
}
template <class X> flat_t contents(const X& x, int route, const flat_t* last)
{
    flat_t f(U + 1);
    long n = 0;
    bool chunks = route & 1;
    if constexpr (!is_p_v<X>) chunks = false;
    if constexpr (is_p_v<X>) {
        if (chunks) {
            if (route & 2) immer::for_each(x, [&](auto& y) { seen(f, y); n++; });
            else immer::for_each_chunk(x, [&](auto i, auto e) { for (; i != e; ++i) { seen(f, *i); n++; } });
        }
    }
    if (!chunks) for (auto& y : x) { seen(f, y); n++; if (n > 2 * U) break; }
    if (n != (long) x.size() || x.empty() != (n == 0)) f[0] = BAD;
    // looking up every key: each register in turn, and whatever just changed
    if (!f[0] && !(route / 8 % 3 == 0 || !last || f != *last)) return f;
    bool alt = route & 4;
    int how = (route / 24) % 3;
    for (long k = 1; k <= U; k++) {
        long v = how == 0 ? look_find(x, k, alt) : how == 1 ? look_at(x, k, alt) : look_index(x, k, alt);
        if (v != f[k]) f[0] = BAD;
    }
    return f;
}

static void begin_line(const op_t& o)
{
    OUT << "{\"op\":\"" << o.op << "\",\"d\":" << o.d << ",\"s\":" << o.s << ",\"e\":" << o.e
        << ",\"m\":" << o.m << ",\"a\":" << o.a << ",\"b\":" << o.b << ",\"c\":" << o.c;
    if (!o.jumps.empty()) {
        OUT << ",\"jumps\":[";
        for (size_t i = 0; i < o.jumps.size(); i++) { if (i) OUT << ","; OUT << o.jumps[i]; }
        OUT << "]";
    }
    if (o.fault) OUT << ",\"fault\":" << o.fault;
    OUT.flush();
}
static void observe_all()
{
    ROUTE++;
    bool ch[NREG + 1] = {};
    bool comma = false;
    int bad = 0;
    { VT_QUIET; OUT << ",\"ch\":["; }
    for (int r = LO; r <= HI; r++) {
        if (!own(r)) continue;
        if (RG->moved[r]) { RG->has_last[r] = false; continue; }
        flat_t now;
        with(r, [&](auto& x) { now = contents(x, (ROUTE * 7 + r * 5) % 72, RG->has_last[r] ? &RG->last[r] : nullptr); });
        VT_QUIET;
        if (now[0]) bad = r;
        bool all = !RG->has_last[r];
        if (all || now != RG->last[r]) {
            if (comma) OUT << ",";
            comma = true;
            // all = 1: everything it holds; 0: what differs from the last reading
            OUT << "[" << r << "," << (all ? 1 : 0) << ",[";
            bool c2 = false;
            long n = 0;
            for (long k = 1; k <= U; k++) {
                if (now[k]) n++;
                if (all ? now[k] != 0 : now[k] != RG->last[r][k]) {
                    if (c2) OUT << ",";
                    c2 = true;
                    OUT << "[" << k << "," << now[k] << "]";
                }
            }
            OUT << "]]";
            RG->last[r] = now;
            RG->has_last[r] = true;
            RG->size[r] = n;
            ch[r] = true;
        }
    }
    { VT_QUIET; OUT << "],\"bad\":" << bad << ",\"eq\":["; }
    comma = false;
    int eqbad = 0;
    for (int i = LO; i <= HI; i++) {
        if (!own(i) || !persistent(i) || RG->moved[i]) continue;
        with(i, [&](auto& x) {
            if constexpr (is_p_v<decltype(x)>) {
                if (!(x == x) || x != x) eqbad = i;
                for (int j = i + 1; j <= HI; j++) {
                    if (!own(j) || KINDS[j][0] != KINDS[i][0] || RG->moved[j] || !(ch[i] || ch[j])) continue;
                    with(j, [&](auto& y) {
                        if constexpr (std::is_same<std::decay_t<decltype(x)>,
                                                   std::decay_t<decltype(y)>>::value) {
                            bool q = x == y;
                            if (q != (y == x) || q != !(x != y) || q != !(y != x)) eqbad = i;
                            if constexpr (!is_table_v<decltype(x)>)
                                if (x.identity() == y.identity() && RG->last[i] != RG->last[j]) eqbad = i;
                            if (q) {
                                VT_QUIET;
                                if (comma) OUT << ",";
                                comma = true;
                                OUT << "[" << i << "," << j << "]";
                            }
                        }
                    });
                }
            }
        });
    }
    VT_QUIET;
    OUT << "],\"eqbad\":" << eqbad << ",\"end\":1}\n";
    OUT.flush();
}

// ------------------------------------------------------------- operations
static VT_TL std::vector<long> RET;
static VT_TL std::vector<std::vector<long>> LISTS;

template <class X, class Fn> void into(int d, Fn&& fn)
{
    bool done = false;
    with(d, [&](auto& dst) {
        if constexpr (std::is_same<std::decay_t<decltype(dst)>, X>::value) { fn(dst); done = true; }
    });
    if (!done) { fprintf(stderr, "driver: bad destination\n"); exit(3); }
}
template <class Fn> void unary(const op_t& o, Fn&& fn)
{
    with(o.s, [&](auto& src) {
        using X = std::decay_t<decltype(src)>;
        if constexpr (is_p_v<X>)
            into<X>(o.d, [&](X& dst) {
                if (o.m & 1) dst = fn(std::move(src));
                else { const X& c = src; dst = fn(c); }
            });
    });
}
struct add_fn
{
    long by;
    Val operator()(Val v) const { LIFE.may_throw(2); return make_val(mval(v) + by); }
    Row operator()(Row r) const { LIFE.may_throw(2); r.v = make_val(mval(r.v) + by); return r; }
};
template <class X> struct elem;
template <> struct elem<S> { static Key make(long k, long) { return make_key(k); } };
template <> struct elem<M> { static std::pair<Key, Val> make(long k, long v) { return {make_key(k), make_val(v)}; } };
template <> struct elem<TB> { static Row make(long k, long v) { return {make_key(k), make_val(v)}; } };
template <class X> struct persistent_of { using type = X; };
template <> struct persistent_of<typename S::transient_type> { using type = S; };
template <> struct persistent_of<typename M::transient_type> { using type = M; };
template <> struct persistent_of<typename TB::transient_type> { using type = TB; };
template <class X> using elem_of = elem<typename persistent_of<std::decay_t<X>>::type>;

static void perform(const op_t& o)
{
    const std::string& op = o.op;
    if (op == "new") {
        with(o.d, [&](auto& d) { d = std::decay_t<decltype(d)>{}; });
    } else if (op == "from") { // from a range or a list: keys and values in jumps, pairwise
        with(o.d, [&](auto& d) {
            using X = std::decay_t<decltype(d)>;
            if constexpr (is_p_v<X>) {
                using E = decltype(elem<X>::make(1, 1));
                std::vector<E> v;
                for (size_t i = 0; i + 1 < o.jumps.size(); i += 2) v.push_back(elem<X>::make(o.jumps[i], o.jumps[i + 1]));
                if (v.size() == 2 && o.c) d = X{v[0], v[1]};
                else if (v.size() == 3 && o.c) d = X{v[0], v[1], v[2]};
                else d = X(v.begin(), v.end());
            }
        });
    } else if (op == "copy") {
        with(o.s, [&](auto& s) {
            using X = std::decay_t<decltype(s)>;
            into<X>(o.d, [&](X& d) {
                if (o.c == 1) {
                    X tmp = (o.m & 1) ? X(std::move(s)) : X(s);
                    d = std::move(tmp);
                } else if (o.m & 1) d = std::move(s);
                else d = s;
            });
        });
    } else if (op == "swap") {
        with(o.s, [&](auto& s) {
            using X = std::decay_t<decltype(s)>;
            into<X>(o.d, [&](X& d) { using std::swap; swap(d, s); });
        });
    } else if (op == "selfmove") {
        with(o.d, [&](auto& d) { auto& r = d; d = std::move(r); });
    } else if (op == "transient") {
        with(o.s, [&](auto& s) {
            using X = std::decay_t<decltype(s)>;
            if constexpr (is_p_v<X>)
                into<typename X::transient_type>(o.d, [&](auto& d) {
                    if (o.m & 1) d = std::move(s).transient(); else d = s.transient();
                });
        });
    } else if (op == "persistent") {
        with(o.d, [&](auto& d) {
            using X = std::decay_t<decltype(d)>;
            if constexpr (is_p_v<X>)
                into<typename X::transient_type>(o.s, [&](auto& s) {
                    if (o.m & 1) d = std::move(s).persistent(); else d = s.persistent();
                });
        });
    } else if (op == "insert") {
        if (persistent(o.s)) unary(o, [&](auto&& s) -> decltype(auto) {
            return std::forward<decltype(s)>(s).insert(elem_of<decltype(s)>::make(o.a, o.b)); });
        else with(o.s, [&](auto& t) { if constexpr (!is_p_v<decltype(t)>) t.insert(elem_of<decltype(t)>::make(o.a, o.b)); });
    } else if (op == "set") { // maps only: set(key, value)
        if (persistent(o.s)) into<M>(o.s, [&](M& s) { into<M>(o.d, [&](M& d) {
            if (o.m & 1) d = std::move(s).set(make_key(o.a), make_val(o.b)); else d = s.set(make_key(o.a), make_val(o.b)); }); });
        else into<typename M::transient_type>(o.s, [&](auto& t) { t.set(make_key(o.a), make_val(o.b)); });
    } else if (op == "update" || op == "updex") {
        bool ex = op == "updex";
        if (persistent(o.s)) with(o.s, [&](auto& s) {
            using X = std::decay_t<decltype(s)>;
            if constexpr (is_p_v<X> && !is_set_v<X>) into<X>(o.d, [&](X& d) {
                if (o.m & 1) { if (ex) d = std::move(s).update_if_exists(make_key(o.a), add_fn{o.b}); else d = std::move(s).update(make_key(o.a), add_fn{o.b}); }
                else { if (ex) d = s.update_if_exists(make_key(o.a), add_fn{o.b}); else d = s.update(make_key(o.a), add_fn{o.b}); }
            });
        });
        else with(o.s, [&](auto& t) {
            if constexpr (!is_p_v<decltype(t)> && !is_set_v<decltype(t)>) {
                if (ex) t.update_if_exists(make_key(o.a), add_fn{o.b});
                else t.update(make_key(o.a), add_fn{o.b});
            }
        });
    } else if (op == "erase") {
        if (persistent(o.s)) unary(o, [&](auto&& s) -> decltype(auto) { return std::forward<decltype(s)>(s).erase(make_key(o.a)); });
        else with(o.s, [&](auto& t) { if constexpr (!is_p_v<decltype(t)>) t.erase(make_key(o.a)); });
    } else if (op == "diff") { // s -> e
        with(o.s, [&](auto& x) {
            using X = std::decay_t<decltype(x)>;
            if constexpr (is_p_v<X>)
                into<X>(o.e, [&](X& y) {
                    LISTS.assign(3, {});
                    auto kv = [&](auto& z) -> std::pair<long, long> {
                        flat_t f(U + 1);
                        seen(f, z);
                        if (f[0]) return {BAD, BAD};
                        for (long k = 1; k <= U; k++) if (f[k]) return {k, f[k]};
                        return {BAD, BAD};
                    };
                    auto add = [&](auto& z) { auto p = kv(z); LISTS[0].push_back(p.first); LISTS[0].push_back(p.second); };
                    auto rem = [&](auto& z) { auto p = kv(z); LISTS[1].push_back(p.first); LISTS[1].push_back(p.second); };
                    auto chg = [&](auto& z, auto& w) {
                        auto p = kv(z), q = kv(w);
                        LISTS[2].push_back(p.first == q.first ? p.first : BAD);
                        LISTS[2].push_back(p.second);
                        LISTS[2].push_back(q.second);
                    };
                    if (o.c) immer::diff(x, y, immer::make_differ(add, rem, chg));
                    else immer::diff(x, y, add, rem, chg);
                });
        });
    } else if (op == "space") { // what s occupies, all else being empty; and what its elements occupy in a new value
        for (int r = LO; r <= HI; r++)
            if (r != o.s) {
                with(r, [&](auto& x) { x = std::decay_t<decltype(x)>{}; });
                RG->moved[r] = false;
            }
        with(o.s, [&](auto& s) {
            using X = std::decay_t<decltype(s)>;
            (void) sizeof(X);
            put_held(RET, BASE);
            {
                using P = typename persistent_of<X>::type;
                held_t before;
                std::vector<long> ks;
                for (auto& y : s) ks.push_back(ekey(y));
                rng q(o.a);
                for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[q.below(i)]);
                P f;
                for (auto k : ks) f = f.insert(elem<P>::make(k, 1));
                put_held(RET, before);
            }
        });
    } else if (op == "trav") { // every way of visiting the elements, in the order they come
        with(o.s, [&](auto& x) {
            if constexpr (is_p_v<decltype(x)>) {
                using X = std::decay_t<decltype(x)>;
                using E = typename X::value_type;
                unsigned sum = 0;
                auto val = [](auto& z) { flat_t f(U + 1); seen(f, z);
                    for (long k = 1; k <= U; k++) if (f[k]) return (unsigned) (k + f[k]);
                    return 0u; };
                LISTS.resize(7);
                for (auto& z : x) LISTS[0].push_back(ekey(z));
                immer::for_each_chunk(x, [&](auto i, auto e) { for (; i != e; ++i) LISTS[1].push_back(ekey(*i)); });
                immer::for_each(x, [&](auto& z) { LISTS[2].push_back(ekey(z)); });
                sum = immer::accumulate(x, 0u, [&](unsigned s, auto& z) { LISTS[3].push_back(ekey(z)); return (s + val(z)) % 65536; });
                std::vector<E> buf;
                immer::copy(x, std::back_inserter(buf));
                for (auto& z : buf) LISTS[4].push_back(ekey(z));
                // copies of an iterator go their own way
                size_t at = o.a < (long) x.size() ? o.a : x.size();
                auto it = x.begin(), end = x.end();
                for (size_t k = 0; k < at; k++) LISTS[5].push_back(ekey(*it++));
                auto other = it;
                X keep = x; // the iterators belong to any value with these contents
                for (; other != end; ++other) LISTS[5].push_back(ekey(*other));
                typename X::iterator third;
                third = it;
                for (size_t k = 0; k < at; k++) LISTS[6].push_back(LISTS[5][k]);
                while (!(third == keep.end())) LISTS[6].push_back(ekey(*third++));
                if ((it == end) != (at == x.size()) || !(x.begin() == keep.begin())) LISTS[6].push_back(0);
                RET = {(long) sum, (long) std::distance(x.begin(), x.end())};
            }
        });
    } else {
        fprintf(stderr, "driver: unknown op %s\n", op.c_str());
        exit(3);
    }
}
static void mark_moved(const op_t& o)
{
    if ((o.m & 1) && o.s != o.d) RG->moved[o.s] = true;
    if (o.d && o.op != "selfmove") RG->moved[o.d] = false;
}
static void put_ret()
{
    if (!RET.empty()) {
        OUT << ",\"ret\":[";
        for (size_t i = 0; i < RET.size(); i++) { if (i) OUT << ","; OUT << RET[i]; }
        OUT << "]";
    }
    if (LISTS.size() > 3) {
        OUT << ",\"orders\":[";
        for (size_t q = 0; q < LISTS.size(); q++) {
            OUT << (q ? ",[" : "[");
            for (size_t i = 0; i < LISTS[q].size(); i++) { if (i) OUT << ","; OUT << LISTS[q][i]; }
            OUT << "]";
        }
        OUT << "]";
    } else if (!LISTS.empty()) {
        static const char* names[] = {"added", "removed", "changed"};
        for (int q = 0; q < 3; q++) {
            size_t w = q == 2 ? 3 : 2;
            OUT << ",\"" << names[q] << "\":[";
            for (size_t i = 0; i < LISTS[q].size(); i += w) {
                if (i) OUT << ",";
                OUT << "[";
                for (size_t z = 0; z < w; z++) { if (z) OUT << ","; OUT << LISTS[q][i + z]; }
                OUT << "]";
            }
            OUT << "]";
        }
    }
}

// ------------------------------------------------------------ hash tables
static void make_hashes(int scheme, long seed)
{
    rng r(seed * 77 + scheme);
    for (size_t k = 0; k < HT.size(); k++) {
        size_t h = 0;
        switch (scheme) {
        case 0: h = k; break;
        case 1: h = 42; break;                                        // all collide
        case 2: h = k % 3; break;                                     // three buckets of collisions
        case 3: h = (k & 7) << 61; break;                             // differ only in the last level
        case 4: h = r.next(); break;                                  // random
        case 5: { // shared prefixes of random length, few distinct digits
            size_t base = 0x0123456789ABCDEFull;
            int at = (int) r.below(64);
            h = base ^ ((r.next() & 3) << at);
            break;
        }
        case 6: // digits from {0,1}: dense subtrees at every level
            for (int b = 0; b < 64; b += BITS) h |= (r.next() & 1) << b;
            if (r.chance(40)) h &= (size_t(1) << (BITS * 3)) - 1;
            break;
        case 7: // pairs and triples of collisions among otherwise spread hashes
            h = (k / (1 + seed % 3)) * 0x9E3779B97F4A7C15ull;
            break;
        case 8: // one level deep collisions: low bits equal in groups
            h = (k % 5) | ((k / 5) << (BITS * (2 + seed % 9)));
            break;
        default: // top bits set, sign extension, last partial level
            h = ~size_t(0) - (k % 4) - ((k % 3) << 62) - ((k % 7) << (BITS * 6));
        }
        HT[k] = h;
    }
}
constexpr int NSCHEME = 10;
static void start_regs()
{
    recorded(0, [] {
        if (RG) RG->~regs_t();
        RG = new (&RG_mem) regs_t{};
        // constant default values come to life when first asked for
        (void) M{}[make_key(1)];
        (void) TB{}[make_key(1)];
        (void) M{}.update(make_key(1), add_fn{1});
        (void) TB{}.update(make_key(1), add_fn{1});
    });
    nothing_held();
    for (int r = 1; r <= NREG; r++) { RG->has_last[r] = true; RG->last[r].assign(U + 1, 0); }
}
// init: a = universe, b = hash scheme, c = its seed, e = family (0 set, 1 map, 2 table)
static void do_init(const op_t& o)
{
    U = o.a > 0 ? o.a : 16;
    make_hashes((int) o.b, o.c);
    if (o.b == 20) { // given one by one, by number
        constexpr int last = (64 + BITS - 1) / BITS - 1; // the last level
        const size_t num[] = {0, 1, size_t(1) << BITS, size_t(1) << (last * BITS), (size_t(1) << BITS) + 1,
                              (size_t(1) << (2 * BITS)) + 1};
        for (size_t k = 0; k < o.jumps.size(); k++) HT[k + 1] = num[o.jumps[k] % 6];
    }
    LO = o.e * 8 + 1;
    HI = LO + 7;
    start_regs();
    begin_line(o);
    OUT << ",\"lo\":" << LO << ",\"hi\":" << HI << ",\"kinds\":[";
    for (int r = 1; r <= NREG; r++) { if (r > 1) OUT << ","; OUT << "\"" << KINDS[r] << "\""; }
    OUT << "]";
    if (COST_LOG || SPACE_LOG) {
        OUT << ",\"shape\":[" << BITS << "," << (MPN == 9 ? 0 : 1) << "],\"digits\":[";
        for (long k = 1; k <= U; k++) {
            OUT << (k > 1 ? ",[" : "[");
            for (int b = 0; b < 64; b += BITS) OUT << (b ? "," : "") << (long) ((HT[k] >> b) & ((size_t(1) << BITS) - 1));
            OUT << "]";
        }
        OUT << "]";
    }
    put_life();
    OUT << ",\"end\":1}\n";
    OUT.flush();
}
static bool valid(const op_t& o)
{
    auto is = [&](const char* x) { return o.op == x; };
    if (is("init")) return true;
    if (is("new") || is("from")) return o.d > 0;
    if (is("selfmove")) return o.d > 0 && !RG->moved[o.d];
    if (o.s <= 0 || RG->moved[o.s]) return false;
    if (is("swap") && RG->moved[o.d]) return false;
    if (is("diff")) return o.e > 0 && !RG->moved[o.e];
    return true;
}
static long NOPS = 0;
// changes its operand in place (if that is not shared)
static bool in_place(const op_t& o)
{
    static const std::set<std::string> names = {"insert", "set", "update", "updex", "erase"};
    return names.count(o.op) && ((o.m & 1) || !persistent(o.s));
}
// any use of a container whose operation failed must be safe
static void poke(int r)
{
    with(r, [&](auto& x) {
        using X = std::decay_t<decltype(x)>;
        long n = 0;
        for (auto& y : x) { (void) y; if (++n > 2 * U) break; }
        for (long k = 1; k <= U && k < 8; k++) {
            (void) x.count(make_key(k));
            if constexpr (is_p_v<X>) {
                if (k % 3 == 0) x = x.erase(make_key(k));
                if (k % 3 == 1) x = std::move(x).insert(elem_of<X>::make(k, k));
            } else {
                if (k % 3 == 0) x.erase(make_key(k));
                if (k % 3 == 1) x.insert(elem_of<X>::make(k, k));
            }
        }
    });
}
static void run_op(const op_t& o)
{
    if (o.op == "init") { do_init(o); return; }
    long k = (long) (std::hash<std::string>{}(o.op + std::to_string(o.a * 31 + o.b * 7 + NOPS++)) % 100) < FAULTS ? 1 : 0;
    if (k && in_place(o)) k = 1 + NOPS % 17; // cannot be repeated: somewhere in it
    for (;; k++) {
        op_t q = o;
        q.fault = k;
        begin_line(q);
        RET.clear();
        LISTS.clear();
        bool thrown = recorded(k, [&] { perform(o); });
        if (thrown) {
            OUT << ",\"thrown\":1";
            if (in_place(o)) {
                recorded(0, [&] { poke(o.s); });
                RG->moved[o.s] = true;
            }
        } else {
            if (k && LIFE.fault_seen >= k) OUT << ",\"swallowed\":1";
            mark_moved(o);
            put_ret();
        }
        put_cost();
        put_life();
        observe_all();
        if (!thrown || in_place(o)) break;
    }
}
