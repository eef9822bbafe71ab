// seq driver: histories of sequence operations.
//   seq --seed S --runs N --len L --max M --profile P     random histories
//   seq --replay FILE                                     lines: op d s e m a b c [jumps...]
#include "seq.hpp"
#include <fstream>
#include <iostream>
#include <sstream>

struct gen_t
{
    rng r;
    long maxn;
    std::string profile;
    long next_val = 1;
    gen_t(uint64_t seed, long mx, std::string p) : r(seed), maxn(mx), profile(std::move(p)) {}

    static constexpr long L = 1L << leaf_bits;
    static constexpr long BR = 1L << BITS;

    long value(long n = 1)
    {
        // often consecutive, so that run lists stay short, sometimes arbitrary
        if (next_val > 3000000) next_val = 1;
        if (r.chance(60)) { long v = next_val; next_val += n; return v; }
        if (r.chance(50)) return (long) r.below(6);
        next_val += 100;
        long v = next_val;
        next_val += n;
        return v;
    }
    // a size/position of interest in 0..n
    long spot(long n)
    {
        if (n <= 0) return 0;
        long x = 0;
        switch (r.below(8)) {
        case 0: x = (long) r.below(4); break;
        case 1: x = n - (long) r.below(4); break;
        case 2: x = (long) (r.below(n / L + 1)) * L + (long) r.below(3) - 1; break;
        case 3: x = (long) (r.below(n / (L * BR) + 1)) * (L * BR) + (long) r.below(3) - 1; break;
        case 4: x = n / 2 + (long) r.below(3) - 1; break;
        case 5: x = n - n % L + (long) r.below(3) - 1; break;
        default: x = (long) r.below(n + 1);
        }
        return x < 0 ? 0 : x > n ? n : x;
    }
    long index(long n) { long i = spot(n); return i >= n ? n - 1 : i; } // n > 0
    long some_size()
    {
        long x = 0;
        switch (r.below(10)) {
        case 0: x = (long) r.below(3); break;
        case 1: case 2: x = L * (long) (1 + r.below(BR)) + (long) r.below(3) - 1; break;
        case 3: case 4: x = L * BR * (long) (1 + r.below(BR)) + (long) r.below(3) - 1; break;
        case 5: x = L * BR * BR * (long) (1 + r.below(3)) + (long) r.below(2 * L) - L; break;
        case 6: x = (long) r.below(maxn); break;
        default: x = (long) r.below(3 * L + 2);
        }
        if (x > maxn) x = (long) r.below(maxn);
        return x < 0 ? 0 : x;
    }
    int pick(int lo, int hi) { return lo + (int) r.below(hi - lo + 1); }
    bool live(int x) { return !RG->moved[x]; }
    int pick_live(int lo, int hi)
    {
        for (int k = 0; k < 20; k++) { int x = pick(lo, hi); if (live(x)) return x; }
        for (int x = lo; x <= hi; x++) if (live(x)) return x;
        return 0;
    }
    int pick_live_big(int lo, int hi) // prefer larger contents
    {
        int a = pick_live(lo, hi), b = pick_live(lo, hi);
        if (!a || !b) return a ? a : b;
        return r.chance(70) ? (RG->size[a] > RG->size[b] ? a : b) : a;
    }

    // ranges of registers of each family: persistent lo,hi, transient lo,hi
    struct fam { int pl, ph, tl, th; bool flex; long cap; };
    fam family()
    {
        long w = (long) r.below(100);
        long fw = 60, vw = 25;
        if (profile == "flex" || profile == "eq") { fw = 100; vw = 0; }
        if (profile == "vector") { fw = 0; vw = 100; }
        if (profile == "array") { fw = 0; vw = 0; }
        if (w < fw) return {1, 6, 7, 10, true, maxn};
        if (w < fw + vw) return {11, 14, 15, 16, false, maxn};
        return {17, 20, 21, 22, false, 200};
    }
    bool observing() { return profile == "trav" ? r.chance(60) : profile == "trans" || profile == "move" ? r.chance(6) : r.chance(12); }

    std::vector<op_t> todo; // rest of a planned sequence of operations
    op_t mk(const char* op, int d, int s, int e, int m, long a, long b = 0, long c = 0)
    {
        op_t o;
        o.op = op; o.d = d; o.s = s; o.e = e; o.m = m; o.a = a; o.b = b; o.c = c;
        return o;
    }
    // the same contents by another route: cut a flex_vector and put it together again
    bool remix()
    {
        int s = pick_live_big(1, 6);
        if (!s) return false;
        long n = RG->size[s];
        if (n < 2 || n > maxn) return false;
        int x = pick(1, 6), y = pick(1, 6), d = pick(1, 6);
        if (x == s || y == s || d == s || x == y) return false;
        long k = spot(n), j = r.chance(50) ? k : spot(n);
        if (j < k) std::swap(j, k);
        int rv = r.chance(50) ? 3 : 0;
        switch (r.below(6)) {
        case 0: // two pieces
            todo = {mk("take", x, s, 0, 0, k), mk("drop", y, s, 0, 0, k), mk("concat", d, x, y, rv, 0)};
            break;
        case 1: // three pieces
            todo = {mk("take", x, s, 0, 0, j), mk("drop", x, x, 0, rv & 1, k), mk("drop", y, s, 0, 0, j),
                    mk("concat", x, x, y, rv, 0), mk("take", y, s, 0, 0, k), mk("concat", d, y, x, rv, 0)};
            break;
        case 2: // out and in again
            if (k >= n) k = n - 1;
            todo = {mk("erase", x, s, 0, 0, k), mk("copy", d, x, 0, 0, 0)};
            if (j == k) todo.push_back(mk("insert", d, d, 0, rv & 1, k, value_at(s, k)));
            else todo.push_back(mk("insert", d, d, 0, rv & 1, k, value_at(s, k)));
            break;
        case 3: { // longer, then cut back
            todo = {mk("concat", d, s, s, 0, 0), mk("take", d, d, 0, rv & 1, n)};
            if (r.chance(50)) todo.back() = mk("drop", d, d, 0, rv & 1, n);
            break;
        }
        case 4: // element by element at the end
            todo = {mk("take", d, s, 0, 0, n > 9 ? n - (long) r.below(9) : n / 2)};
            for (long i = todo[0].a; i < n; i++) todo.push_back(mk("push_back", d, d, 0, rv & 1, 0, value_at(s, i)));
            break;
        default: // through a transient
            todo = {mk("take", x, s, 0, 0, k), mk("transient", 7, x, 0, 0, 0), mk("drop", y, s, 0, 0, k),
                    mk("transient", 8, y, 0, 0, 0)};
            todo.push_back(r.chance(50) ? mk("append", 7, 0, 8, rv & 2, 0) : mk("prepend", 8, 0, 7, rv & 2, 0));
            todo.push_back(mk("persistent", d, todo.back().d, 0, 0, 0));
        }
        if (r.chance(40)) { // nearly the same
            long i = index(n);
            todo.push_back(r.chance(50) ? mk("set", d, d, 0, 1, i, value()) : mk("set", pick(1, 6), d, 0, 0, i, value()));
        }
        return true;
    }
    // many operations in a row on one variable
    void burst()
    {
        fam fm = family();
        bool tr = r.chance(50);
        int x = tr ? pick_live(fm.tl, fm.th) : pick_live(fm.pl, fm.ph);
        if (!x) return;
        int rv = tr ? 0 : 1;
        long k = 4 + (long) r.below(4 * L * (r.chance(50) ? 1 : BR));
        if (k > 120) k = 120;
        if (fm.pl == 17 && RG->size[x] > 2000) return;
        int what = (int) r.below(4);
        if (r.chance(50)) todo.push_back(mk("range", fm.pl, 0, 0, 0, some_size() % fm.cap, value(5000))),
            todo.push_back(tr ? mk("transient", x, fm.pl, 0, 1, 0) : mk("copy", x, fm.pl, 0, 1, 0));
        long n = todo.empty() ? RG->size[x] : todo[0].a;
        for (long i = 0; i < k; i++) {
            if (what < 2 || !n) { todo.push_back(mk("push_back", x, x, 0, rv, 0, value())); n++; }
            else if (what == 2) todo.push_back(mk(r.chance(50) ? "set" : "update", x, x, 0, rv, index(n), value()));
            else todo.push_back(mk("take", x, x, 0, rv, --n));
        }
    }
    // a long value put together from many short ones
    void seams()
    {
        bool tr = r.chance(25);
        int d = tr ? pick(7, 10) : pick(1, 6), x = pick(1, 6), what = (int) r.below(6), rv = (int) r.below(4);
        if (x == d) x = d % 6 + 1;
        long n = r.chance(50) ? (long) r.below(3) : some_size() % 60, first = 100000 + 50000 * (long) r.below(20), last = first + n;
        long k = 20 + (long) r.below(r.chance(50) ? 40 : 240), m = 1 + (long) r.below(r.chance(60) ? 1 : 2 * L);
        todo.push_back(mk("range", tr ? x : d, 0, 0, 0, n, first));
        if (tr) todo.push_back(mk("transient", d, x, 0, 1, 0));
        for (long i = 0; i < k; i++) {
            long j = 1 + (long) r.below(m);
            bool left = what < 3 || (what == 4 && r.chance(50));
            todo.push_back(mk("range", x, 0, 0, 0, j, left ? first - j : last));
            if (left) first -= j; else last += j;
            if (tr) {
                int y = d == 10 ? 9 : d + 1;
                todo.push_back(mk("transient", y, x, 0, 1, 0));
                todo.push_back(mk(left ? "prepend" : "append", d, 0, y, rv & 2, 0));
            } else if (left) todo.push_back(mk("concat", d, x, d, rv, 0));
            else todo.push_back(mk("concat", d, d, x, rv, 0));
            n += j;
            if (what == 5 && !tr && r.chance(20)) { // the other end comes off
                long off = 1 + (long) r.below(n);
                todo.push_back(mk("drop", d, d, 0, rv & 1, off));
                first += off; n -= off;
            }
        }
    }
    long value_at(int rg, long i)
    {
        for (auto& p : RG->last[rg]) { if (i < p.second) return p.first + i; i -= p.second; }
        return 0;
    }

    bool next(op_t& o)
    {
        if (!todo.empty()) {
            o = todo.front();
            todo.erase(todo.begin());
            if (valid(o)) return true;
            todo.clear();
            return false;
        }
        if (profile == "seams" && r.chance(20)) { seams(); return false; }
        if (profile == "cost" && r.chance(5)) { burst(); return false; }
        if (profile == "eq" && r.chance(60)) { remix(); return false; }
        o = op_t{};
        fam fm = family();
        bool rv = profile == "move" ? r.chance(75) : profile == "persist" ? r.chance(25) : r.chance(35);
        int tpct = profile == "trans" ? 70 : profile == "persist" ? 35 : profile == "move" ? 15 : 30;
        auto small = [&](long n) { return n < fm.cap ? n : n % fm.cap; };
        if (SPACE_LOG && r.below(60) == 0) {
            o.op = "space"; o.s = r.chance(70) ? pick_live_big(fm.pl, fm.ph) : pick_live_big(fm.tl, fm.th);
            return o.s;
        }
        if (observing()) return observer(o, fm);
        if (r.chance(tpct)) return transient_op(o, fm);
        // persistent operations
        int s = pick_live_big(fm.pl, fm.ph);
        int d = pick(fm.pl, fm.ph);
        if (r.chance(profile == "move" ? 45 : 20)) d = s;
        if (!s || r.chance(5)) { // make something new
            o.d = pick(fm.pl, fm.ph);
            switch (r.below(4)) {
            case 0: o.op = "new"; return true;
            case 1: o.op = "fill"; o.a = (long) r.below(3 * L < 200 ? 3 * L : 200); o.b = value(); o.a = small(o.a); return true;
            default:
                o.op = "range"; o.a = small(some_size()); o.b = value(o.a); o.c = (long) r.below(3);
                if (o.c == 2) o.a = 3;
                return true;
            }
        }
        long n = RG->size[s];
        o.s = s; o.d = d; o.m = rv ? 1 : 0;
        if (n > fm.cap) { // keep sizes bounded
            o.op = fm.flex && r.chance(50) ? "drop" : "take";
            o.a = o.op == std::string("take") ? spot(fm.cap) : n - spot(fm.cap);
            return true;
        }
        int k = (int) r.below(fm.flex ? 100 : 60);
        if (k < 4) { o.op = "copy"; o.c = (long) r.below(2); if (d == s) o.m = 0; return true; }
        if (k < 5) { o.op = "swap"; o.m = 0; return live(d); }
        if (k < 6) { o.op = "selfmove"; o.s = 0; o.m = 0; return live(d); }
        if (k < 9 && !fm.flex && fm.pl == 11) { o.op = "toflex"; o.d = pick(1, 6); return true; }
        if (k < 26) { o.op = "push_back"; o.b = value(); return true; }
        if (k < 34) { if (!n) return false; o.op = "set"; o.a = index(n); o.b = value(); return true; }
        if (k < 41) { if (!n) return false; o.op = "update"; o.a = index(n); o.b = 1 + (long) r.below(3) * 10; return true; }
        if (k < 60) { o.op = "take"; o.a = spot(n) + (r.chance(4) ? 1 : 0); return true; }
        if (k < 70) { o.op = "drop"; o.a = spot(n) + (r.chance(4) ? 1 : 0); return true; }
        if (k < 86 || k >= 98) {
            int e = pick_live_big(1, 6);
            if (!e) return false;
            o.op = "concat"; o.e = e; o.m = (int) r.below(4);
            if (!rv) o.m = 0;
            if (e == s) { o.m = 0; }
            if (n + RG->size[e] > 2 * maxn) return false;
            if (k >= 98) { // insert a sequence
                o.op = "insertv"; o.a = spot(n);
            }
            return true;
        }
        if (k < 88) { o.op = "push_front"; o.b = value(); o.m = 0; return true; }
        if (k < 92) { o.op = "insert"; o.a = spot(n); o.b = value(); return true; }
        if (k < 94) { if (!n) return false; o.op = "erase"; o.a = index(n); return true; }
        o.op = "erase2"; o.a = spot(n); o.b = spot(n);
        if (o.a > o.b && r.chance(80)) std::swap(o.a, o.b);
        return true;
    }
    bool transient_op(op_t& o, const fam& fm)
    {
        int k = (int) r.below(100);
        if (k < 12) {
            o.op = "transient"; o.s = pick_live_big(fm.pl, fm.ph); o.d = pick(fm.tl, fm.th);
            o.m = r.chance(25); return o.s;
        }
        if (k < 26) {
            o.op = "persistent"; o.s = pick_live_big(fm.tl, fm.th); o.d = pick(fm.pl, fm.ph);
            o.m = r.chance(30); return o.s;
        }
        int t = pick_live_big(fm.tl, fm.th);
        if (!t) { o.op = "new"; o.d = pick(fm.tl, fm.th); return true; }
        long n = RG->size[t];
        if (k < 32) {
            o.op = "copy"; o.s = t; o.d = pick(fm.tl, fm.th); o.m = r.chance(40);
            o.c = (long) r.below(2);
            if (o.d == o.s) o.m = 0;
            return true;
        }
        if (k < 33) { o.op = "swap"; o.s = t; o.d = pick_live(fm.tl, fm.th); return o.d; }
        if (k < 34) { o.op = "selfmove"; o.d = t; return true; }
        if (k < 35) { o.op = "new"; o.d = pick(fm.tl, fm.th); return true; }
        if (k < 37 && fm.tl == 15) { o.op = "toflex"; o.s = t; o.d = pick(7, 10); o.m = r.chance(50); return true; }
        o.s = o.d = t;
        if (n > fm.cap) { o.op = "take"; o.a = spot(fm.cap); return true; }
        if (k < 57) { o.op = "push_back"; o.b = value(); return true; }
        if (k < 66) { if (!n) return false; o.op = "set"; o.a = index(n); o.b = value(); o.c = r.below(2); return true; }
        if (k < 74) { if (!n) return false; o.op = "update"; o.a = index(n); o.b = 1 + (long) r.below(3) * 10; return true; }
        if (k < 84 || !fm.flex) { o.op = "take"; o.a = spot(n) + (r.chance(4) ? 1 : 0); return true; }
        if (k < 90) { o.op = "drop"; o.a = spot(n) + (r.chance(4) ? 1 : 0); return true; }
        int e = pick_live_big(fm.tl, fm.th);
        if (!e || e == t || n + RG->size[e] > 2 * maxn) return false;
        o.op = r.chance(50) ? "append" : "prepend";
        o.s = 0; o.e = e; o.m = r.chance(50) ? 2 : 0;
        return true;
    }
    bool observer(op_t& o, const fam& fm)
    {
        bool pers = r.chance(80);
        int s = pers ? pick_live_big(fm.pl, fm.ph) : pick_live_big(fm.tl, fm.th);
        if (!s) return false;
        long n = RG->size[s];
        o.s = s;
        int k = (int) r.below(100);
        if (k < 12) { o.op = "at"; o.a = r.chance(60) ? index(n > 0 ? n : 1) : n + (long) r.below(L + 2); return true; }
        if (k < 20) { o.op = "look"; return true; }
        if (k < 30 && pers) { o.op = "acc"; o.a = spot(n); o.b = spot(n); if (o.a > o.b || r.chance(30)) { o.a = 0; o.b = n; } return true; }
        if (k < 36 && pers) { o.op = "allof"; o.c = r.below(2); o.b = n && r.chance(50) ? RG->last[s][r.below(RG->last[s].size())].first + 1 : 4000000; return true; }
        if (k < 52 && pers) {
            o.op = "chunkp"; o.a = spot(n); o.b = spot(n);
            if (o.a > o.b) std::swap(o.a, o.b);
            if (r.chance(40)) { o.a = 0; o.b = n; o.e = 1; }
            o.c = r.chance(30) ? 0 : 1 + (long) r.below(o.b - o.a + 3);
            return true;
        }
        if (k < 65) {
            o.op = "iter";
            long pos = 0;
            for (int q = 0; q < 10; q++) {
                long to = r.chance(50) ? pos + (long) r.below(5) - 2 : spot(n);
                if (r.chance(30)) to = pos + (r.chance(50) ? L : -L);
                if (to < 0) to = 0;
                if (to > n) to = n;
                o.jumps.push_back(to - pos);
                pos = to;
            }
            return true;
        }
        o.op = "trav"; o.a = spot(n); o.b = spot(n);
        if (o.a > o.b) std::swap(o.a, o.b);
        if (r.chance(25)) { o.a = 0; o.b = n; }
        o.c = (long) r.below(NTRAV);
        return true;
    }
};

int main(int argc, char** argv)
{
#ifdef VT_GC
    GC_INIT();
#endif
    std::map<std::string, std::string> arg;
    for (int i = 1; i + 1 < argc; i += 2) arg[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, long d) { return arg.count(k) ? atol(arg[k].c_str()) : d; };
    LIFE_LOG = num("--life", 0);
    COST_LOG = num("--cost", 0);
    SPACE_LOG = num("--space", 0);
    FAULTS = num("--faults", 0);
    FAULT_MASK = num("--fault-mask", 7);
    if (arg.count("--replay")) {
        std::ifstream in(arg["--replay"]);
        std::string line;
        start_regs();
        while (std::getline(in, line)) {
            std::istringstream is(line);
            op_t o;
            if (!(is >> o.op)) continue;
            is >> o.d >> o.s >> o.e >> o.m >> o.a >> o.b >> o.c;
            long j;
            while (is >> j) o.jumps.push_back(j);
            if (valid(o)) run_op(o);
        }
        return 0;
    }
    long seed = num("--seed", 1), runs = num("--runs", 10), len = num("--len", 100), mx = num("--max", 300);
    BIGMODE = mx > 3000;
    for (long q = 0; q < runs; q++) {
        gen_t g(seed * 1000003 + q, mx, arg.count("--profile") ? arg["--profile"] : "mixed");
        op_t o;
        o.op = "init";
        run_op(o);
        for (long k = 0; k < len;) {
            if (!g.next(o)) continue;
            run_op(o);
            k++;
        }
    }
    if (LIFE_LOG) { op_t o; o.op = "init"; run_op(o); } // what is left at the end?
    if (LIFE_LOG) { op_t o; o.op = "init"; run_op(o); } // is anything left?
    return 0;
}
