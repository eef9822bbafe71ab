// Executes operations of SeqSpec on the real containers and records what an
// observer sees.  Used by seq_main.cpp (random and replayed histories).
#pragma once
#include "common.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
#include <array>
#include <numeric>
#include <stdexcept>

#ifndef BITS
#define BITS 5
#endif
#ifdef LEAF
using F = immer::flex_vector<T, MP, BITS, LEAF>;
using V = immer::vector<T, MP, BITS, LEAF>;
constexpr int leaf_bits = LEAF;
#else
using F = immer::flex_vector<T, MP, BITS>;
using V = immer::vector<T, MP, BITS>;
constexpr int leaf_bits = immer::detail::rbts::derive_bits_leaf<T, MP, BITS>;
#endif
using A = immer::array<T, MP>;

struct op_t
{
    std::string op;
    int d = 0, s = 0, e = 0, m = 0;
    long a = 0, b = 0, c = 0;
    long fault = 0;
    std::vector<long> jumps;
};

template <class P> struct bank
{
    using TR = typename P::transient_type;
    std::array<P, 6> p;
    std::array<TR, 4> t;
};
// kinds of register:    1..6 F, 7..10 f, 11..14 V, 15..16 v, 17..20 A, 21..22 a
constexpr int NREG = 22;
static const char* KINDS[NREG + 1] = {"", "F", "F", "F", "F", "F", "F", "f", "f", "f", "f", "V",
                                      "V", "V", "V", "v", "v", "A", "A", "A", "A", "a", "a"};
struct regs_t
{
    bank<F> f;
    bank<V> v;
    bank<A> a;
    bool moved[NREG + 1] = {};
    runs_t last[NREG + 1];
    bool has_last[NREG + 1] = {};
    long size[NREG + 1] = {};
};
// static: a conservative collector scans it
static VT_Q regs_t* RG = nullptr;
static VT_TL unsigned long OWN = ~0ul; // the registers this thread may use
inline bool own(int r) { return OWN >> r & 1; }
static VT_Q typename std::aligned_storage<sizeof(regs_t), alignof(regs_t)>::type RG_mem;

inline bool persistent(int r) { return KINDS[r][0] < 'a'; }

template <class Fn> void with(int r, Fn&& fn)
{
    if (r <= 6) fn(RG->f.p[r - 1]);
    else if (r <= 10) fn(RG->f.t[r - 7]);
    else if (r <= 14) fn(RG->v.p[r - 11]);
    else if (r <= 16) fn(RG->v.t[r - 15]);
    else if (r <= 20) fn(RG->a.p[r - 17]);
    else fn(RG->a.t[r - 21]);
}
template <class X> struct tag { using type = X; };
template <class X> struct is_p { static constexpr bool value = false; };
template <> struct is_p<F> { static constexpr bool value = true; };
template <> struct is_p<V> { static constexpr bool value = true; };
template <> struct is_p<A> { static constexpr bool value = true; };
template <class X> constexpr bool is_p_v = is_p<std::decay_t<X>>::value;
template <class X> constexpr bool is_flex_v = std::is_same<std::decay_t<X>, F>::value;
template <class X>
constexpr bool is_flex_t = std::is_same<std::decay_t<X>, typename F::transient_type>::value;
template <class X> constexpr bool is_arr_t = std::is_same<std::decay_t<X>, typename A::transient_type>::value;

// ------------------------------------------------------------ observation
static VT_TL int ROUTE = 0; // which way the contents are read
template <class X> runs_t contents(const X& x, int route)
{
    runs_t r;
    size_t n = 0;
    route = route % 3;
    if constexpr (is_p_v<X>) {
        if (route == 0) {
            immer::for_each_chunk(x, [&](const T* f, const T* l) {
                for (; f != l; ++f) { push_run(r, val_of(*f)); n++; }
            });
        }
    } else if (route == 0)
        route = 1 + (x.size() % 2);
    if (route == 1) {
        for (const auto& y : x) { push_run(r, val_of(y)); n++; }
    } else if (route == 2) {
        for (size_t i = 0; i < x.size(); i++) { push_run(r, val_of(x[i])); n++; }
    }
    if (n != x.size() || x.empty() != (n == 0)) push_run(r, BAD);
    return r;
}

static void begin_line(const op_t& o)
{
    OUT << "{\"op\":\"" << o.op << "\",\"d\":" << o.d << ",\"s\":" << o.s << ",\"e\":" << o.e
        << ",\"m\":" << o.m << ",\"a\":" << o.a << ",\"b\":" << o.b << ",\"c\":" << o.c;
    if (!o.jumps.empty()) {
        OUT << ",\"jumps\":[";
        for (size_t i = 0; i < o.jumps.size(); i++) { if (i) OUT << ","; OUT << o.jumps[i]; }
        OUT << "]";
    }
    if (o.fault) OUT << ",\"fault\":" << o.fault;
    OUT.flush();
}
// reads everything, logs what changed since the last reading
static void observe_all(bool big)
{
    ROUTE++;
    bool ch[NREG + 1] = {};
    bool comma = false;
    { VT_QUIET; OUT << ",\"ch\":["; }
    for (int r = 1; r <= NREG; r++) {
        if (!own(r)) continue;
        if (RG->moved[r]) { RG->has_last[r] = false; continue; }
        runs_t now;
        with(r, [&](auto& x) { now = contents(x, big && x.size() > 3000 && ROUTE % 7 ? 0 : ROUTE + r); });
        VT_QUIET;
        if (!RG->has_last[r] || now != RG->last[r]) {
            if (comma) OUT << ",";
            comma = true;
            OUT << "[" << r << ",";
            put_runs(now);
            OUT << "]";
            RG->last[r] = now;
            RG->has_last[r] = true;
            ch[r] = true;
            long n = 0;
            for (auto& p : now) n += p.second;
            RG->size[r] = n;
        }
    }
    { VT_QUIET; OUT << "],\"eq\":["; }
    comma = false;
    int eqbad = 0;
    for (int i = 1; i <= NREG; i++) {
        if (!own(i) || !persistent(i) || RG->moved[i]) continue;
        with(i, [&](auto& x) {
            if constexpr (is_p_v<decltype(x)>) {
                if (!(x == x) || x != x) eqbad = i;
                for (int j = i + 1; j <= NREG; j++) {
                    if (!own(j) || KINDS[j][0] != KINDS[i][0] || RG->moved[j] || !(ch[i] || ch[j])) continue;
                    with(j, [&](auto& y) {
                        if constexpr (std::is_same<std::decay_t<decltype(x)>,
                                                   std::decay_t<decltype(y)>>::value) {
                            bool q = x == y;
                            if (q != (y == x) || q != !(x != y) || q != !(y != x)) eqbad = i;
                            // the same identity promises the same contents
                            if (x.identity() == y.identity() && RG->last[i] != RG->last[j]) eqbad = i;
                            if (q) {
                                VT_QUIET;
                                if (comma) OUT << ",";
                                comma = true;
                                OUT << "[" << i << "," << j << "]";
                            }
                        }
                    });
                }
            }
        });
    }
    VT_QUIET;
    OUT << "],\"eqbad\":" << eqbad << ",\"end\":1}\n";
    OUT.flush();
}

// ------------------------------------------------------------- operations
// assign(d, make): stores the result of an operation
template <class Src, class R> void store(Src& dst, R&& r) { dst = std::forward<R>(r); }

struct adder
{
    long by;
    T operator()(const T& x) const { LIFE.may_throw(2); return El<T>::make(val_of(x) + by); }
};

static VT_TL std::vector<long> RET;
static VT_TL runs_t RETRUNS;
static VT_TL bool HASRUNS;

template <class X, class Fn>
void into(int d, Fn&& fn) // run fn on the destination register if it has type X
{
    bool done = false;
    with(d, [&](auto& dst) {
        if constexpr (std::is_same<std::decay_t<decltype(dst)>, X>::value) { fn(dst); done = true; }
    });
    if (!done) { fprintf(stderr, "driver: bad destination\n"); exit(3); }
}

// A result computed from source register s into register d (same container type)
template <class Fn> void unary(const op_t& o, Fn&& fn)
{
    with(o.s, [&](auto& src) {
        using X = std::decay_t<decltype(src)>;
        if constexpr (is_p_v<X>)
            into<X>(o.d, [&](X& dst) {
                if (o.m & 1) store(dst, fn(std::move(src)));
                else { const X& c = src; store(dst, fn(c)); }
            });
    });
}

template <class X, class Y> X conv(Y&& y) { return X(std::forward<Y>(y)); }

template <class R> struct counting_range
{
    // a forward iterator over b, b+1, ... as elements
    using iterator_category = std::forward_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = T;
    long v;
    T operator*() const { return El<T>::make(v); }
    counting_range& operator++() { ++v; return *this; }
    counting_range operator++(int) { auto c = *this; ++v; return c; }
    bool operator==(const counting_range& o) const { return v == o.v; }
    bool operator!=(const counting_range& o) const { return v != o.v; }
};
using counting = counting_range<void>;

// traversal of [a,b) of a persistent value by method k
template <class X> void traverse(const X& x, int k, size_t a, size_t b, runs_t& r)
{
    auto add = [&](const T& y) { push_run(r, val_of(y)); };
    bool whole = a == 0 && b == x.size();
    auto chunk = [&](const T* f, const T* l) { for (; f != l; ++f) add(*f); };
    std::vector<T> buf;
    switch (k) {
    case 0: // iterators
        for (auto i = x.begin() + a, e = x.begin() + b; i != e; ++i) add(*i);
        break;
    case 1: // chunks of a range
        immer::for_each_chunk(x.begin() + a, x.begin() + b, chunk);
        break;
    case 2: // chunks of the whole
        if (whole) immer::for_each_chunk(x, chunk);
        else immer::for_each_chunk(x.begin() + a, x.begin() + b, chunk);
        break;
    case 3:
        if (whole) immer::for_each(x, add);
        else immer::for_each(x.begin() + a, x.begin() + b, add);
        break;
    case 4:
        if (whole) immer::copy(x, std::back_inserter(buf));
        else immer::copy(x.begin() + a, x.begin() + b, std::back_inserter(buf));
        for (auto& y : buf) add(y);
        break;
    case 5: { // reverse iterators
        std::vector<long> vals;
        auto i = x.rbegin() + (x.size() - b), e = x.rbegin() + (x.size() - a);
        for (; i != e; ++i) vals.push_back(val_of(*i));
        for (size_t q = vals.size(); q-- > 0;) push_run(r, vals[q]);
        break;
    }
    case 6: // post-increment, operator->, index off an iterator
        if (b > a) {
            auto i = x.begin() + a;
            for (size_t q = a; q < b; q++) { add(*i++); }
        }
        break;
    case 7: { // backwards with --
        std::vector<long> vals;
        auto i = x.begin() + b;
        while (i - x.begin() > (std::ptrdiff_t) a) { --i; vals.push_back(val_of(*i)); }
        for (size_t q = vals.size(); q-- > 0;) push_run(r, vals[q]);
        break;
    }
    case 8: { // off an iterator in the middle
        auto mid = x.begin() + (a + b) / 2;
        for (size_t q = a; q < b; q++)
            add(mid[(std::ptrdiff_t) q - (std::ptrdiff_t) ((a + b) / 2)]);
        break;
    }
    case 9: // index
        for (size_t q = a; q < b; q++) add(x[q]);
        break;
    case 10: // from the end
        for (size_t q = a; q < b; q++) add(*(x.end() - (x.size() - q)));
        break;
    default: // accumulate collecting in order
        if (whole) (void) immer::accumulate(x, 0L, [&](long s, const T& y) { add(y); return s; });
        else (void) immer::accumulate(x.begin() + a, x.begin() + b, 0L, [&](long s, const T& y) { add(y); return s; });
    }
}
constexpr int NTRAV = 12;

// performs o; the registers and RET / RETRUNS afterwards are the outcome
template <class P> const P& persistent_form(const P& x, typename P::transient_type* = nullptr) { return x; }
template <class TR> typename TR::persistent_type persistent_form(const TR& t, typename TR::persistent_type* = nullptr) { auto c = t; return c.persistent(); }
static void perform(const op_t& o)
{
    const std::string& op = o.op;
    auto a = (size_t) o.a;
    if (op == "new") {
        with(o.d, [&](auto& d) { d = std::decay_t<decltype(d)>{}; });
    } else if (op == "fill") {
        with(o.d, [&](auto& d) {
            if constexpr (is_p_v<decltype(d)>) d = std::decay_t<decltype(d)>(a, El<T>::make(o.b));
        });
    } else if (op == "range") {
        with(o.d, [&](auto& d) {
            using X = std::decay_t<decltype(d)>;
            if constexpr (is_p_v<X>) {
                if (o.c == 1) {
                    std::vector<T> v;
                    v.reserve(o.a);
                    for (long i = 0; i < o.a; i++) v.push_back(El<T>::make(o.b + i));
                    d = X(v.begin(), v.end());
                } else if (o.c == 2 && o.a == 3) {
                    d = X{El<T>::make(o.b), El<T>::make(o.b + 1), El<T>::make(o.b + 2)};
                } else
                    d = X(counting{o.b}, counting{o.b + o.a});
            }
        });
    } else if (op == "copy") {
        with(o.s, [&](auto& s) {
            using X = std::decay_t<decltype(s)>;
            into<X>(o.d, [&](X& d) {
                if (o.c == 1) { // through a temporary
                    X tmp = (o.m & 1) ? X(std::move(s)) : X(s);
                    d = std::move(tmp);
                } else if (o.m & 1) d = std::move(s);
                else d = s;
            });
        });
    } else if (op == "swap") {
        with(o.s, [&](auto& s) {
            using X = std::decay_t<decltype(s)>;
            into<X>(o.d, [&](X& d) { using std::swap; swap(d, s); });
        });
    } else if (op == "selfmove") {
        with(o.d, [&](auto& d) { auto& r = d; d = std::move(r); });
    } else if (op == "transient") {
        with(o.s, [&](auto& s) {
            using X = std::decay_t<decltype(s)>;
            if constexpr (is_p_v<X>)
                into<typename X::transient_type>(o.d, [&](auto& d) {
                    if (o.m & 1) d = std::move(s).transient();
                    else d = s.transient();
                });
        });
    } else if (op == "persistent") {
        with(o.d, [&](auto& d) {
            using X = std::decay_t<decltype(d)>;
            if constexpr (is_p_v<X>)
                into<typename X::transient_type>(o.s, [&](auto& s) {
                    if (o.m & 1) d = std::move(s).persistent();
                    else d = s.persistent();
                });
        });
    } else if (op == "toflex") {
        if (KINDS[o.s][0] == 'V')
            into<V>(o.s, [&](V& s) { into<F>(o.d, [&](F& d) {
                if (o.m & 1) d = F(std::move(s)); else d = F(s); }); });
        else
            into<typename V::transient_type>(o.s, [&](auto& s) {
                into<typename F::transient_type>(o.d, [&](auto& d) {
                    using FT = typename F::transient_type;
                    if (o.m & 1) d = FT(std::move(s)); else d = FT(s); }); });
    } else if (op == "push_back") {
        auto x = El<T>::make(o.b);
        if (persistent(o.s)) unary(o, [&](auto&& s) -> decltype(auto) { return std::forward<decltype(s)>(s).push_back(x); });
        else with(o.s, [&](auto& t) { if constexpr (!is_p_v<decltype(t)>) t.push_back(x); });
    } else if (op == "push_front") {
        into<F>(o.s, [&](F& s) { into<F>(o.d, [&](F& d) { d = s.push_front(El<T>::make(o.b)); }); });
    } else if (op == "set") {
        auto x = El<T>::make(o.b);
        if (persistent(o.s)) unary(o, [&](auto&& s) -> decltype(auto) { return std::forward<decltype(s)>(s).set(a, x); });
        else with(o.s, [&](auto& t) {
            if constexpr (is_arr_t<decltype(t)>) { if (o.c == 1) { t.data_mut()[a] = x; return; } }
            if constexpr (!is_p_v<decltype(t)>) t.set(a, x);
        });
    } else if (op == "update") {
        if (persistent(o.s)) unary(o, [&](auto&& s) -> decltype(auto) { return std::forward<decltype(s)>(s).update(a, adder{o.b}); });
        else with(o.s, [&](auto& t) { if constexpr (!is_p_v<decltype(t)>) t.update(a, adder{o.b}); });
    } else if (op == "take") {
        if (persistent(o.s)) unary(o, [&](auto&& s) -> decltype(auto) { return std::forward<decltype(s)>(s).take(a); });
        else with(o.s, [&](auto& t) { if constexpr (!is_p_v<decltype(t)>) t.take(a); });
    } else if (op == "drop") {
        if (o.s <= 6) into<F>(o.s, [&](F& s) { into<F>(o.d, [&](F& d) {
            if (o.m & 1) d = std::move(s).drop(a); else d = s.drop(a); }); });
        else into<typename F::transient_type>(o.s, [&](auto& t) { t.drop(a); });
    } else if (op == "concat") {
        into<F>(o.s, [&](F& l) { into<F>(o.e, [&](F& r) { into<F>(o.d, [&](F& d) {
            const F& cl = l; const F& cr = r;
            switch (o.m) {
            case 0: d = cl + cr; break;
            case 1: d = std::move(l) + cr; break;
            case 2: d = cl + std::move(r); break;
            default: d = std::move(l) + std::move(r);
            } }); }); });
    } else if (op == "insert") {
        into<F>(o.s, [&](F& s) { into<F>(o.d, [&](F& d) {
            if (o.m & 1) d = std::move(s).insert(a, El<T>::make(o.b));
            else d = s.insert(a, El<T>::make(o.b)); }); });
    } else if (op == "insertv") {
        into<F>(o.s, [&](F& s) { into<F>(o.e, [&](F& e) { into<F>(o.d, [&](F& d) {
            const F& cs = s; const F& ce = e;
            switch (o.m) {
            case 0: d = cs.insert(a, ce); break;
            case 1: d = std::move(s).insert(a, ce); break;
            case 2: d = cs.insert(a, std::move(e)); break;
            default: d = std::move(s).insert(a, std::move(e));
            } }); }); });
    } else if (op == "erase") {
        into<F>(o.s, [&](F& s) { into<F>(o.d, [&](F& d) {
            if (o.m & 1) d = std::move(s).erase(a); else d = s.erase(a); }); });
    } else if (op == "erase2") {
        into<F>(o.s, [&](F& s) { into<F>(o.d, [&](F& d) {
            if (o.m & 1) d = std::move(s).erase(a, (size_t) o.b);
            else d = s.erase(a, (size_t) o.b); }); });
    } else if (op == "append" || op == "prepend") {
        into<typename F::transient_type>(o.d, [&](auto& d) {
            into<typename F::transient_type>(o.e, [&](auto& e) {
                if (op == "append") { if (o.m & 2) d.append(std::move(e)); else d.append(e); }
                else { if (o.m & 2) d.prepend(std::move(e)); else d.prepend(e); }
            });
        });
    } else if (op == "at") {
        with(o.s, [&](auto& s) {
            try {
                long v = val_of(s.at(a));
                RET = {1, v};
            } catch (const std::out_of_range&) { RET = {0, 0}; }
        });
    } else if (op == "look") {
        with(o.s, [&](auto& s) {
            long n = (long) s.size();
            RET = {n, s.empty() ? 1 : 0, 0, 0};
            if (n > 0) {
                if constexpr (is_p_v<decltype(s)> || is_arr_t<decltype(s)>) {
                    RET[2] = val_of(s.front()); RET[3] = val_of(s.back());
                } else { RET[2] = val_of(s[0]); RET[3] = val_of(s[n - 1]); }
            }
        });
    } else if (op == "space") { // what s occupies, all else being empty; and what its elements occupy in a new value
        for (int r = 1; r <= NREG; r++)
            if (r != o.s) {
                with(r, [&](auto& x) { x = std::decay_t<decltype(x)>{}; });
                RG->moved[r] = false;
            }
        with(o.s, [&](auto& s) {
            using X = std::decay_t<decltype(s)>;
            (void) sizeof(X);
            put_held(RET, BASE);
            {
                held_t before;
                using P = std::decay_t<decltype(persistent_form(s))>;
                P f;
                for (auto& y : s) f = f.push_back(y);
                put_held(RET, before);
            }
        });
    } else if (op == "trav") {
        HASRUNS = true;
        with(o.s, [&](auto& s) {
            if constexpr (is_p_v<decltype(s)>) traverse(s, (int) o.c, a, (size_t) o.b, RETRUNS);
            else {
                if (o.c % 2) { std::vector<long> vals;
                    auto i = s.rbegin() + (s.size() - o.b), e = s.rbegin() + (s.size() - a);
                    for (; i != e; ++i) vals.push_back(val_of(*i));
                    for (size_t q = vals.size(); q-- > 0;) push_run(RETRUNS, vals[q]);
                } else
                    for (auto i = s.begin() + a, e = s.begin() + o.b; i != e; ++i) push_run(RETRUNS, val_of(*i));
            }
        });
    } else if (op == "chunkp") {
        HASRUNS = true;
        with(o.s, [&](auto& s) {
            if constexpr (is_p_v<decltype(s)>) {
                long seen = 0;
                auto f = [&](const T* x, const T* y) {
                    for (; x != y; ++x) { push_run(RETRUNS, val_of(*x)); seen++; }
                    return o.c == 0 || seen < o.c;
                };
                bool r = (a == 0 && o.b == (long) s.size() && o.e == 1)
                           ? immer::for_each_chunk_p(s, f)
                           : immer::for_each_chunk_p(s.begin() + a, s.begin() + o.b, f);
                RET = {r ? 1 : 0};
            }
        });
    } else if (op == "iter") {
        with(o.s, [&](auto& s) {
            auto it = s.begin();
            auto end = s.end();
            auto pos = (std::ptrdiff_t) 0;
            for (auto j : o.jumps) {
                if (j == 1 && (pos & 1)) ++it;
                else if (j == -1 && (pos & 1)) --it;
                else if (j < 0 && (pos & 1)) it -= -j;
                else if (j % 3 == 1) it = it + j;
                else if (j % 3 == 2) it = j + it;
                else it += j;
                pos += j;
                bool lt = it < end, eq = it == end;
                bool ok = lt == (end > it) && eq == !(it != end) && (end - it) == (std::ptrdiff_t) s.size() - (it - s.begin())
                          && (it <= end) && !(it > end) && (it >= s.begin());
                auto cp = it; // a copy is an independent iterator
                long v = lt ? val_of(*cp) : -1;
                if (lt && val_of(*it) != v) v = BAD;
                if (lt && &*it != &*cp) v = BAD;
                if (lt) { ++cp; --cp; if (val_of(*cp) != v) v = BAD; }
                RET.push_back(ok ? (long) (it - s.begin()) : BAD);
                RET.push_back(v);
                RET.push_back(lt);
                RET.push_back(eq);
            }
        });
    } else if (op == "acc") {
        with(o.s, [&](auto& s) {
            if constexpr (is_p_v<decltype(s)>) {
                auto f = [](unsigned x, const T& y) { return (x + (unsigned) val_of(y)) & 0xFFFFu; };
                unsigned r = (a == 0 && o.b == (long) s.size())
                               ? immer::accumulate(s, 0u, f)
                               : immer::accumulate(s.begin() + a, s.begin() + o.b, 0u, f);
                RET = {(long) r};
            }
        });
    } else if (op == "allof") {
        with(o.s, [&](auto& s) {
            if constexpr (is_p_v<decltype(s)>) {
                auto f = [&](const T& y) { return val_of(y) < o.b; };
                bool r = o.c ? immer::all_of(s, f) : immer::all_of(s.begin(), s.end(), f);
                RET = {r ? 1 : 0};
            }
        });
    } else {
        fprintf(stderr, "driver: unknown op %s\n", op.c_str());
        exit(3);
    }
}

// which registers are moved-from after o
static void mark_moved(const op_t& o)
{
    if ((o.m & 1) && o.s != o.d) RG->moved[o.s] = true;
    if ((o.m & 2) && o.e != o.d) RG->moved[o.e] = true;
    if (o.d && o.op != "selfmove") RG->moved[o.d] = false;
}
static void put_ret(const op_t& o)
{
    if (!RET.empty()) {
        OUT << ",\"ret\":[";
        if (o.op == "iter") {
            for (size_t i = 0; i < RET.size(); i += 4) {
                if (i) OUT << ",";
                OUT << "[" << RET[i] << "," << RET[i + 1] << "," << RET[i + 2] << "," << RET[i + 3] << "]";
            }
        } else
            for (size_t i = 0; i < RET.size(); i++) { if (i) OUT << ","; OUT << RET[i]; }
        OUT << "]";
    }
    if (HASRUNS) { OUT << ",\"runs\":"; put_runs(RETRUNS); }
}
static void start_regs()
{
    recorded(0, [] {
        if (RG) RG->~regs_t();
        RG = new (&RG_mem) regs_t{};
    });
    nothing_held();
    for (int r = 1; r <= NREG; r++) RG->has_last[r] = true; // empty, as in the spec
}
static void put_init()
{
    OUT << "{\"op\":\"init\",\"kinds\":[";
    for (int r = 1; r <= NREG; r++) { if (r > 1) OUT << ","; OUT << "\"" << KINDS[r] << "\""; }
    OUT << "]";
    if (COST_LOG || SPACE_LOG)
        OUT << ",\"shape\":[" << BITS << "," << leaf_bits << "," << (MPN == 9 ? 0 : 1) << "]";
    put_life();
    OUT << ",\"end\":1}\n";
    OUT.flush();
}
// Are o's preconditions met?  (Shortened histories may break them.)
static bool valid(const op_t& o)
{
    auto in = [&](const char* l) { for (; *l;) { auto e = strchr(l, ' '); size_t n = e ? e - l : strlen(l);
        if (o.op.size() == n && !o.op.compare(0, n, l, n)) return true; l += n + (e ? 1 : 0); } return false; };
    if (o.op == "init") return true;
    if (in("new fill range")) return o.d > 0;
    if (o.op == "selfmove") return o.d > 0 && !RG->moved[o.d];
    if (in("append prepend")) return o.d != o.e && !RG->moved[o.d] && !RG->moved[o.e];
    if (o.s <= 0 || RG->moved[o.s]) return false;
    if (o.op == "swap" && RG->moved[o.d]) return false;
    long n = RG->size[o.s];
    if (in("concat insertv")) { if (o.e <= 0 || RG->moved[o.e] || (o.m && o.e == o.s)) return false; }
    if (in("insert insertv")) return o.a <= n;
    if (in("set update erase")) return o.a < n;
    if (o.op == "erase2") return o.a <= n && o.b <= n;
    if (in("trav chunkp acc")) return o.a <= n && o.b <= n && o.a <= o.b;
    if (o.op == "iter") { long p = 0; for (auto j : o.jumps) { p += j; if (p < 0 || p > n) return false; } }
    return true;
}
static bool compound(const op_t& o)
{
    if (o.op == "concat" || o.op == "append" || o.op == "prepend" || o.op == "insertv") return o.m;
    return (o.m & 1) && (o.op == "insert" || o.op == "erase" || o.op == "erase2");
}
static bool BIGMODE = false;
static long NOPS = 0;
static void run_op(const op_t& o)
{
    if (o.op == "init") { start_regs(); put_init(); return; }
    // the same operation again and again, each time one step later throws
    for (long k = FAULTS && (long) (std::hash<std::string>{}(o.op + std::to_string(o.a * 31 + o.b * 7 + NOPS++)) % 100) < FAULTS ? compound(o) ? 1 + NOPS % 13 : 1 : 0;; k++) {
        op_t q = o;
        q.fault = k;
        begin_line(q);
        RET.clear(); RETRUNS.clear(); HASRUNS = false;
        bool thrown = recorded(k, [&] { perform(o); });
        if (thrown) {
            OUT << ",\"thrown\":1";
            if (compound(o)) { // made of several steps: its operands are used up
                if (o.m & 1) RG->moved[o.s] = true;
                if (o.m & 2) RG->moved[o.e] = true;
            }
        }
        else if (k && LIFE.fault_seen >= k) OUT << ",\"swallowed\":1";
        else {
            mark_moved(o);
            put_ret(o);
        }
        put_cost();
        put_life();
        observe_all(BIGMODE);
        if (!thrown || compound(o)) break;
    }
}
