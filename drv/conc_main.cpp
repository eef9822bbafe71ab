// Threads that share values: each thread works on variables of its own, which
// hold values made by the main thread and shared with the others.
#ifdef ASSOC
#include "assoc.hpp"
#else
#include "seq.hpp"
#endif
#include "conc.hpp"

static long act(int t) { return t; }
struct worker_t
{
    int t;
    scenario_t sc;
    long salt;
};
static op_t mk(const char* op, int d, int s, int e, int m, long a, long b = 0, long c = 0)
{
    op_t o;
    o.op = op; o.d = d; o.s = s; o.e = e; o.m = m; o.a = a; o.b = b; o.c = c;
    return o;
}
static unsigned long mask(const std::vector<int>& v)
{
    unsigned long m = 0;
    for (int r : v) m |= 1ul << r;
    return m;
}
// one public operation, and what this thread then sees in its own variables
static void step(const op_t& o)
{
    bool ok;
    { VT_QUIET; ok = valid(o); }
    if (!ok) return;
    RET.clear();
#ifdef ASSOC
    LISTS.clear();
#else
    RETRUNS.clear();
    HASRUNS = false;
#endif
    perform(o);
    {
        VT_QUIET;
        OUT.b = "!";
        begin_line(o);
        OUT << ",\"own\":[";
        bool c = false;
        for (int r = 1; r <= NREG; r++) if (own(r)) { if (c) OUT << ","; c = true; OUT << r; }
        OUT << "]";
        mark_moved(o);
#ifdef ASSOC
        put_ret();
#else
        put_ret(o);
#endif
    }
#ifdef ASSOC
    observe_all();
#else
    observe_all(false);
#endif
    VT_QUIET;
    OUT.b.pop_back(); // the newline
    vt_mark(OUT.b.c_str());
    RET = {};
#ifdef ASSOC
    LISTS = {};
#else
    RETRUNS = {};
#endif
}

#ifdef ASSOC
// thread -> its persistent and transient variables, relative to LO
static const std::vector<int> PV[4] = {{}, {0, 1}, {2, 3}, {4}}, TV[4] = {{}, {5}, {6}, {7}};
struct menu_t { const char* name; };
static std::vector<op_t> menu(int k, int t, rng& r)
{
    int p = LO + PV[t][0], q = LO + PV[t].back(), x = LO + TV[t][0];
    long key = 1 + (long) r.below(U), key2 = 1 + (long) r.below(U), v = 100 * t + 1;
    int set = LO == 1;
    long u = set ? 1 : v;
    switch (k) {
    case 0: return {mk("new", p, 0, 0, 0, 0)};                                     // drop it
    case 1: return {mk("copy", q, p, 0, 0, 0), mk("new", p, 0, 0, 0, 0)};
    case 2: return {mk("insert", p, p, 0, 1, key, u)};
    case 3: return {mk("erase", p, p, 0, 1, key)};
    case 4: return {mk(set ? "insert" : "update", p, p, 0, 1, key, set ? 1 : 5)};
    case 5: return {mk("transient", x, p, 0, 1, 0), mk("insert", x, x, 0, 0, key, u), mk("persistent", q, x, 0, 1, 0)};
    case 6: return {mk("insert", q, p, 0, 0, key, u), mk("erase", q, q, 0, 1, key2)};
    case 7: return {mk("diff", 0, p, q, 0, 0), mk("trav", 0, p, 0, 0, 1, 3)};
    case 8: return {mk("transient", x, p, 0, 0, 0), mk("erase", x, x, 0, 0, key), mk("erase", x, x, 0, 0, key2)};
    default: return {mk("copy", q, p, 0, 1, 0), mk("insert", q, q, 0, 1, key, u), mk("copy", p, q, 0, 0, 0)};
    }
}
constexpr int NMENU = 10;
static op_t random_op(int t, rng& r)
{
    auto& P = PV[t];
    int p = LO + P[r.below(P.size())], q = LO + P[r.below(P.size())], x = LO + TV[t][0];
    long key = 1 + (long) r.below(U), v = LO == 1 ? 1 : 1 + (long) r.below(500);
    int m = r.chance(65);
    switch (r.below(16)) {
    case 0: return mk("new", q, 0, 0, 0, 0);
    case 1: case 2: return mk("copy", q, p, 0, p == q ? 0 : m, 0);
    case 3: case 4: return mk("erase", q, p, 0, m, key);
    case 5: return LO == 1 ? mk("insert", q, p, 0, m, key, 1) : mk("update", q, p, 0, m, key, 3);
    case 6: return LO == 1 ? mk("insert", q, p, 0, m, key, 1) : mk("updex", q, p, 0, m, key, 3);
    case 7: return mk("diff", 0, p, q, 0, 0, 0, r.below(2));
    case 8: return mk("transient", x, p, 0, r.chance(40), 0);
    case 9: return mk("persistent", q, x, 0, r.chance(40), 0);
    case 10: case 11: return mk("insert", x, x, 0, 0, key, v);
    case 12: return mk("erase", x, x, 0, 0, key);
    default: return mk("insert", q, p, 0, m, key, v);
    }
}
#else
struct fam_t { std::vector<int> p, t; };
// family 0 flex, 1 vector, 2 array; thread -> variables
static const fam_t FAM[3][4] = {{{}, {{1, 2}, {7}}, {{3, 4}, {8}}, {{5, 6}, {9}}},
                                {{}, {{11, 14}, {15}}, {{12}, {16}}, {{13}, {}}},
                                {{}, {{17, 20}, {21}}, {{18}, {22}}, {{19}, {}}}};
static std::vector<op_t> menu(int k, int f, int t, rng& r)
{
    const fam_t& F = FAM[f][t];
    int p = F.p[0], q = F.p.back(), x = F.t.empty() ? 0 : F.t[0];
    long n = RG->size[p], i = n ? (long) r.below(n) : 0, v = 1000 * t;
    switch (k) {
    case 0: return {mk("new", p, 0, 0, 0, 0)};
    case 1: return {mk("copy", q, p, 0, 0, 0), mk("new", p, 0, 0, 0, 0)};
    case 2: return {mk("push_back", p, p, 0, 1, 0, v)};
    case 3: return {mk("set", p, p, 0, 1, i, v)};
    case 4: return {mk("update", p, p, 0, 1, i, 3)};
    case 5: return {mk("take", p, p, 0, 1, i)};
    case 6:
        if (!x) return {mk("push_back", p, p, 0, 0, 0, v)};
        return {mk("transient", x, p, 0, 1, 0), mk("push_back", x, x, 0, 0, 0, v), mk("set", x, x, 0, 0, i, v), mk("persistent", q, x, 0, 1, 0)};
    case 7: return {mk("trav", 0, p, 0, 0, 0, n, r.below(NTRAV)), mk("look", 0, p, 0, 0, 0)};
    case 8: return {mk("push_back", q, p, 0, 0, 0, v), mk("set", q, q, 0, 1, i, v)};
    case 9:
        if (!x) return {mk("copy", q, p, 0, p != q, 0)};
        return {mk("transient", x, p, 0, 0, 0), mk("take", x, x, 0, 0, i), mk("push_back", x, x, 0, 0, 0, v)};
    case 10: return {mk("drop", p, p, 0, 1, i)};
    case 11: return {mk("concat", p, p, q, 3, 0)};
    case 12: return {mk("concat", q, p, p, 0, 0), mk("drop", q, q, 0, 1, i)};
    case 13: return {mk("insert", p, p, 0, 1, i, v)};
    case 14: return {mk("transient", x, p, 0, 1, 0), mk("drop", x, x, 0, 0, i)};
    default: return {mk("erase", p, p, 0, 1, i)};
    }
}
constexpr int NMENU = 16;
static op_t random_op(int f, int t, rng& r)
{
    const fam_t& F = FAM[f][t];
    int p = F.p[r.below(F.p.size())], q = F.p[r.below(F.p.size())], x = F.t.empty() ? 0 : F.t[0];
    long n = RG->size[p], i = n ? (long) r.below(n) : 0, v = 1000 * t + (long) r.below(50);
    int m = r.chance(65);
    if (n > 300) return mk("take", q, p, 0, m, (long) r.below(40));
    if (x && r.chance(35)) {
        long nx = RG->size[x], ix = nx ? (long) r.below(nx) : 0;
        switch (r.below(f ? 8 : 10)) {
        case 0: case 1: return mk("transient", x, p, 0, r.chance(40), 0);
        case 2: return mk("persistent", q, x, 0, r.chance(40), 0);
        case 3: case 4: return mk("push_back", x, x, 0, 0, 0, v);
        case 5: return mk("set", x, x, 0, 0, ix, v);
        case 6: return mk("update", x, x, 0, 0, ix, 3);
        case 7: return mk("take", x, x, 0, 0, ix);
        default: return mk("drop", x, x, 0, 0, ix);
        }
    }
    switch (r.below(f ? 10 : 18)) {
    case 0: return mk("new", q, 0, 0, 0, 0);
    case 1: case 2: return mk("copy", q, p, 0, p == q ? 0 : m, 0);
    case 3: case 4: return mk("push_back", q, p, 0, m, 0, v);
    case 5: return mk("set", q, p, 0, m, i, v);
    case 6: return mk("update", q, p, 0, m, i, 3);
    case 7: case 8: return mk("take", q, p, 0, m, i);
    case 9: return mk("trav", 0, p, 0, 0, 0, n, r.below(NTRAV));
    case 10: case 11: return mk("drop", q, p, 0, m, i);
    case 12: case 13: case 14: return mk("concat", q, p, F.p[r.below(F.p.size())], p == q ? 0 : (int) r.below(4), 0);
    case 15: return mk("insert", q, p, 0, m, i, v);
    case 16: return mk("erase", q, p, 0, m, i);
    default: return mk("push_front", q, p, 0, 0, 0, v);
    }
}
#endif

static VT_Q int FAMILY = 0;
static void work(void* p)
{
    worker_t& w = *static_cast<worker_t*>(p);
    std::vector<op_t>* ops;
    rng* r;
    {
        VT_QUIET;
#ifdef ASSOC
        std::vector<int> mine;
        for (int i : PV[w.t]) mine.push_back(LO + i);
        for (int i : TV[w.t]) mine.push_back(LO + i);
        OWN = mask(mine);
#else
        auto& F = FAM[FAMILY][w.t];
        OWN = mask(F.p) | mask(F.t);
#endif
        ROUTE = w.t * 3 + (int) w.sc.seed % 17;
        r = new rng(w.sc.seed * 31 + w.t);
        ops = new std::vector<op_t>;
        if (w.sc.kind == 0) {
#ifdef ASSOC
            *ops = menu((int) (w.t == 1 ? w.sc.a : w.sc.b) % NMENU, w.t, *r);
#else
            *ops = menu((int) (w.t == 1 ? w.sc.a : w.sc.b) % NMENU, FAMILY, w.t, *r);
#endif
        }
    }
    if (w.sc.kind == 0) {
        for (auto& o : *ops) step(o);
    } else
        for (long k = 0; k < w.sc.a; k++) {
            op_t* o;
            {
                VT_QUIET;
#ifdef ASSOC
                o = new op_t(random_op(w.t, *r));
#else
                o = new op_t(random_op(FAMILY, w.t, *r));
#endif
            }
            step(*o);
        }
}
// kind 0: two threads, thread 1 does menu a, thread 2 menu b, on a value made from seed
// kind 1: b threads (2 or 3), a operations each
static void body(const scenario_t& sc)
{
    rng* r;
    {
        VT_QUIET;
        r = new rng(sc.seed);
        OUT.b.reserve(1 << 16);
        OUT.b = "!";
        FAMILY = (int) (sc.seed % 3);
#ifndef ASSOC
        if (sc.kind == 0 && (sc.a >= 10 || sc.b >= 10)) FAMILY = 0;
        RG = (regs_t*) &RG_mem;
#endif
    }
#ifdef ASSOC
    op_t* init;
    {
        VT_QUIET;
        static const long us[] = {4, 8, 16};
        init = new op_t(mk("init", 0, 0, FAMILY, 0, us[r->below(3)], (long) r->below(NSCHEME), (long) r->below(1000)));
    }
    do_init(*init);
    RG->~regs_t();
    RG = nullptr;
    vt_mark("#{\"op\":\"base\",\"end\":1}");
    { VT_QUIET; OUT.b = "!"; }
    do_init(*init);
    { VT_QUIET; OUT.b.pop_back(); vt_mark(OUT.b.c_str()); }
#else
    new (RG) regs_t{};
    RG->~regs_t();
    vt_mark("#{\"op\":\"base\",\"end\":1}");
    new (RG) regs_t{};
    { VT_QUIET; for (int i = 1; i <= NREG; i++) RG->has_last[i] = true; put_init(); OUT.b.pop_back(); vt_mark(OUT.b.c_str()); }
#endif
    int nt = sc.kind == 0 ? 2 : (int) sc.b;
    // the shared value
    std::vector<op_t>* pre;
    {
        VT_QUIET;
        pre = new std::vector<op_t>;
        auto& q = *pre;
#ifdef ASSOC
        op_t f = mk("from", LO, 0, 0, 0, 0);
        long n = 1 + (long) r->below(U + 2);
        for (long i = 0; i < n; i++) { f.jumps.push_back(1 + (long) r->below(U)); f.jumps.push_back(FAMILY == 0 ? 1 : 1 + (long) r->below(90)); }
        q.push_back(f);
        if (r->chance(30)) q.push_back(mk("erase", LO, LO, 0, 1, 1 + (long) r->below(U)));
        if (r->chance(50)) q.push_back(mk("insert", LO + 1, LO, 0, 0, 1 + (long) r->below(U), 1));
        for (int t = 2; t <= nt; t++) {
            // the same value, or one that shares only parts with it
            if (r->chance(60)) q.push_back(mk("copy", LO + PV[t][0], LO, 0, 0, 0));
            else q.push_back(mk("insert", LO + PV[t][0], LO, 0, 0, 1 + (long) r->below(U), FAMILY == 0 ? 1 : 77));
            if (r->chance(50) && PV[t].size() > 1) q.push_back(mk("copy", LO + PV[t][1], LO + 1, 0, 0, 0));
        }
#else
        constexpr long L = 1L << leaf_bits, BR = 1L << BITS;
        int x = FAM[FAMILY][1].p[0];
        static const long sizes[] = {1, 2, 3};
        long n = r->chance(20) ? sizes[r->below(3)] : L * (1 + (long) r->below(3 * BR)) + (long) r->below(3) - 1;
        if (n > 60) n = 60;
        q.push_back(mk("range", x, 0, 0, 0, n, 10));
        if (FAMILY == 0 && r->chance(50)) { // relaxed
            q.push_back(mk("drop", x, x, 0, 1, (long) r->below(r->chance(70) ? n / 2 + 1 : n)));
            if (r->chance(60)) q.push_back(mk("concat", x, x, x, 0, 0));
        }
        int y = FAM[FAMILY][1].p.back();
        switch (r->below(4)) {
        case 0: q.push_back(mk("push_back", y, x, 0, 0, 0, 7)); break;
        case 1: case 2:
            q.push_back(mk("range", y, 0, 0, 0, 1 + (long) r->below(40), 500));
            if (FAMILY == 0 && r->chance(60)) q.push_back(mk("drop", y, y, 0, 1, 1 + (long) r->below(8)));
            break;
        }
        for (int t = 2; t <= nt; t++) {
            // the same value, or one that shares only parts with it
            if (r->chance(60)) q.push_back(mk("copy", FAM[FAMILY][t].p[0], x, 0, 0, 0));
            else q.push_back(mk("set", FAM[FAMILY][t].p[0], x, 0, 0, (long) r->below(n / 2 + 1) + (r->chance(60) ? n / 3 : 0), 77));
            if (r->chance(40)) q.push_back(mk("copy", FAM[FAMILY][t].p.back(), y, 0, 0, 0));
            else if (r->chance(40)) q.push_back(mk("set", FAM[FAMILY][t].p.back(), y, 0, 0, (long) r->below(30), 78));
        }
#endif
    }
    for (auto& o : *pre) step(o);
    worker_t* w;
    { VT_QUIET; w = new worker_t[4]; }
    for (int t = 1; t <= nt; t++) {
        { VT_QUIET; w[t] = {t, sc, 0}; }
        vt_spawn(work, &w[t]);
    }
    vt_join_all();
#ifdef ASSOC
    step(mk("new", LO, 0, 0, 0, 0)); // with another look at everything
    RG->~regs_t();
#else
    step(mk("new", 22, 0, 0, 0, 0));
    RG->~regs_t();
#endif
    vt_mark(MPN == 3 || MPN == 4 || MPN == 11 || MPN == 12 ? "#{\"op\":\"final\",\"leak\":1,\"end\":1}" : "#{\"op\":\"final\",\"leak\":0,\"end\":1}");
}
static scenario_t scenario(long i, rng& r, std::map<std::string, std::string>& arg)
{
    scenario_t s;
    s.seed = (long) r.below(1000000);
    if (arg.count("--menu")) {
        s.kind = 0;
        s.a = NUM(arg, "--a", (long) r.below(NMENU));
        s.b = NUM(arg, "--b", (long) r.below(NMENU));
    } else {
        s.kind = 1;
        s.a = NUM(arg, "--len", 6);
        s.b = NUM(arg, "--threads", 2);
    }
    return s;
}
int main(int argc, char** argv) { return conc_main(argc, argv); }
