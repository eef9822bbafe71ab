// assoc driver: histories of set, map and table operations.
//   assoc --seed S --runs N --len L --profile P     random histories
//   assoc --replay FILE                             lines: op d s e m a b c [jumps...]
#include "assoc.hpp"
#include <fstream>
#include <sstream>

struct gen_t
{
    rng r;
    std::string profile;
    int fam;
    long nv = 1;
    std::vector<op_t> todo;
    gen_t(uint64_t seed, std::string p) : r(seed), profile(std::move(p)) {}
    int pick(int lo, int hi) { return lo + (int) r.below(hi - lo + 1); }
    int plo() { return LO; }
    int phi() { return LO + 4; }
    int tlo() { return LO + 5; }
    int thi() { return LO + 7; }
    int pick_live(int lo, int hi)
    {
        for (int k = 0; k < 20; k++) { int x = pick(lo, hi); if (!RG->moved[x]) return x; }
        return 0;
    }
    int pick_big(int lo, int hi)
    {
        int a = pick_live(lo, hi), b = pick_live(lo, hi);
        if (!a || !b) return a ? a : b;
        return r.chance(65) ? (RG->size[a] > RG->size[b] ? a : b) : a;
    }
    long val()
    {
        if (fam == 0) return 1;
        if (r.chance(25)) return 1 + (long) r.below(4);
        if (nv > 2000000) nv = 1;
        return nv++;
    }
    long member(int s) // a key that is in s
    {
        if (!RG->size[s]) return 1 + (long) r.below(U);
        long n = (long) r.below(RG->size[s]);
        for (long k = 1; k <= U; k++) if (RG->last[s][k] && n-- == 0) return k;
        return 1;
    }
    long key(int s, int in_pct) { return r.chance(in_pct) ? member(s) : 1 + (long) r.below(U); }
    op_t init()
    {
        op_t o;
        o.op = "init";
        static const long us[] = {4, 8, 16, 33, 40, 70, 120};
        int nu = FAULTS ? 4 : 7;
        static const long big[] = {30, 120, 300, 600};
        o.a = profile == "cost" ? big[r.below(4)] : us[r.below(nu)];
        o.b = (long) r.below(NSCHEME);
        if (o.a > 120) o.b = r.chance(70) ? 4 : 7;
        if ((o.b == 1 || o.b == 2) && o.a > 40) o.a = 16;
        o.c = (long) r.below(1000);
        o.e = profile == "set" ? 0 : profile == "map" ? 1 : profile == "table" ? 2 : (int) r.below(3);
        fam = o.e;
        todo.clear();
        nv = 1;
        return o;
    }
    op_t mk(const char* op, int d, int s, int e, int m, long a, long b = 0, long c = 0)
    {
        op_t o;
        o.op = op; o.d = d; o.s = s; o.e = e; o.m = m; o.a = a; o.b = b; o.c = c;
        return o;
    }
    // target sizes wander, so that collision nodes and deep paths appear and vanish
    long goal = 0;
    bool growing(int s)
    {
        if (r.chance(3)) goal = (long) r.below(U + 1);
        return RG->size[s] < goal ? r.chance(80) : r.chance(25);
    }
    bool next(op_t& o)
    {
        if (!todo.empty()) {
            o = todo.front();
            todo.erase(todo.begin());
            return valid(o);
        }
        bool rv = profile == "move" ? r.chance(75) : r.chance(35);
        if (profile == "cost" && r.chance(4)) { // something big, and small changes to it
            int d = pick(plo(), phi()), x = pick(plo(), phi()), y = r.chance(50) ? pick(tlo(), thi()) : d;
            op_t f = mk("from", d, 0, 0, 0, 0);
            for (long k = 1; k <= U; k++) if (r.chance(80)) { f.jumps.push_back(k); f.jumps.push_back(val()); }
            todo.push_back(f);
            if (y != d) todo.push_back(mk("transient", y, d, 0, r.chance(50), 0));
            if (r.chance(50) && x != d && !(y != d && todo.back().m)) todo.push_back(mk("copy", x, d, 0, 0, 0));
            for (int q = (int) r.below(6); q >= 0; q--) {
                todo.push_back(mk(r.chance(60) ? "insert" : "erase", y, y, 0, y == d, 1 + (long) r.below(U), val()));
                if (r.chance(30) && y == d) todo.push_back(mk("diff", 0, x, d, 0, 0));
            }
            if (y != d && r.chance(50)) // the same key again and again
                for (long q = (long) r.below(24), k = 1 + (long) r.below(U); q >= 0; q--) todo.push_back(mk("insert", y, y, 0, 0, k, val()));
            if (y != d) todo.push_back(mk("persistent", x, y, 0, 0, 0)), todo.push_back(mk("diff", 0, d, x, 0, 0));
            return false;
        }
        if (SPACE_LOG && r.chance(6)) {
            int s = r.chance(60) ? pick_big(plo(), phi()) : pick_big(tlo(), thi());
            o = mk("space", 0, s, 0, 0, (long) r.below(1000));
            return s;
        }
        int tpct = profile == "trans" ? 70 : profile == "move" ? 15 : profile == "persist" ? 20 : 35;
        if (r.chance(profile == "diff" || profile == "trav" ? 40 : profile == "persist" ? 8 : 5)) { // observers
            int s = pick_big(plo(), phi()), e = pick_live(plo(), phi());
            if (!s || !e) return false;
            if (r.chance(profile == "trav" ? 10 : 80)) o = mk("diff", 0, s, e, 0, 0, 0, r.below(2));
            else o = mk("trav", 0, s, 0, 0, (long) r.below(RG->size[s] + 2), 1 + (long) r.below(2 * U + 40));
            return true;
        }
        if (profile == "eq" && r.chance(10)) { rebuild(); return false; }
        if (r.chance(tpct)) return transient_op(o);
        int s = pick_big(plo(), phi());
        int d = pick(plo(), phi());
        if (s && r.chance(profile == "move" ? 45 : 35)) d = s;
        if (!s || r.chance(3)) {
            if (r.chance(20)) { o = mk("new", d, 0, 0, 0, 0); return true; }
            o = mk("from", d, 0, 0, 0, 0, 0, r.below(2));
            long n = (long) r.below(r.chance(50) ? 4 : U + 4);
            for (long i = 0; i < n; i++) { o.jumps.push_back(1 + (long) r.below(U)); o.jumps.push_back(val()); }
            return true;
        }
        int m = rv ? 1 : 0;
        int k = (int) r.below(100);
        if (k < 6) { o = mk("copy", d, s, 0, d == s ? 0 : m, 0, 0, r.below(2)); return true; }
        if (k < 7) { if (RG->moved[d]) return false; o = mk("swap", d, s, 0, 0, 0); return true; }
        if (k < 8) { if (RG->moved[d]) return false; o = mk("selfmove", d, 0, 0, 0, 0); return true; }
        return change(o, d, s, m);
    }
    bool change(op_t& o, int d, int s, int m)
    {
        bool up = growing(s);
        int k = (int) r.below(100);
        if (fam == 0) {
            if (up) o = mk("insert", d, s, 0, m, key(s, 10), 1);
            else o = mk("erase", d, s, 0, m, key(s, 85));
            return true;
        }
        if (k < 15) { o = mk("update", d, s, 0, m, key(s, up ? 30 : 100), 1 + (long) r.below(30)); return true; }
        if (k < 25) { o = mk("updex", d, s, 0, m, key(s, 70), 1 + (long) r.below(30)); return true; }
        if (k < 33) { o = mk("insert", d, s, 0, m, member(s), val()); return true; }
        if (up) {
            if (fam == 1 && r.chance(40)) o = mk("set", d, s, 0, m, key(s, 20), val());
            else o = mk("insert", d, s, 0, m, key(s, 10), val());
        } else
            o = mk("erase", d, s, 0, m, key(s, 85));
        return true;
    }
    bool transient_op(op_t& o)
    {
        int k = (int) r.below(100);
        if (k < 10) {
            int s = pick_big(plo(), phi());
            o = mk("transient", pick(tlo(), thi()), s, 0, r.chance(25), 0);
            return s;
        }
        if (k < 22) {
            int s = pick_big(tlo(), thi());
            o = mk("persistent", pick(plo(), phi()), s, 0, r.chance(30), 0);
            return s;
        }
        int t = pick_big(tlo(), thi());
        if (!t) { o = mk("new", pick(tlo(), thi()), 0, 0, 0, 0); return true; }
        if (k < 28) {
            int d = pick(tlo(), thi());
            o = mk("copy", d, t, 0, d != t && r.chance(40), 0, 0, r.below(2));
            return true;
        }
        if (k < 29) { int d = pick_live(tlo(), thi()); o = mk("swap", d, t, 0, 0, 0); return d; }
        if (k < 30) { o = mk("selfmove", t, 0, 0, 0, 0); return true; }
        if (k < 31) { o = mk("new", t, 0, 0, 0, 0); return true; }
        return change(o, t, t, 0);
    }
    // the same contents by another route: into d the elements of s in another order,
    // with detours through other keys
    void rebuild()
    {
        int s = pick_big(plo(), phi()), d = pick(plo(), phi());
        if (!s || d == s) return;
        std::vector<long> ks;
        for (long k = 1; k <= U; k++) if (RG->last[s][k]) ks.push_back(k);
        for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[r.below(i)]);
        todo.push_back(mk("new", d, 0, 0, 0, 0));
        std::vector<long> extra;
        int m = r.chance(50);
        for (auto k : ks) {
            if (r.chance(30)) {
                long x = 1 + (long) r.below(U);
                if (!RG->last[s][x]) { extra.push_back(x); todo.push_back(mk("insert", d, d, 0, m, x, val())); }
            }
            todo.push_back(mk("insert", d, d, 0, m, k, RG->last[s][k]));
        }
        for (auto x : extra) todo.push_back(mk("erase", d, d, 0, m, x));
        if (r.chance(40) && !ks.empty()) { // nearly the same
            if (fam && r.chance(60)) todo.push_back(mk("updex", d, d, 0, m, ks[r.below(ks.size())], 1));
            else { todo.push_back(mk("erase", d, d, 0, m, ks[r.below(ks.size())]));
                   if (r.chance(60)) todo.push_back(mk("insert", d, d, 0, m, 1 + (long) r.below(U), val())); }
        }
        todo.push_back(mk("diff", 0, s, d, 0, 0));
        todo.push_back(mk("diff", 0, d, s, 0, 0));
    }
};

int main(int argc, char** argv)
{
#ifdef VT_GC
    GC_INIT();
#endif
    std::map<std::string, std::string> arg;
    for (int i = 1; i + 1 < argc; i += 2) arg[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, long d) { return arg.count(k) ? atol(arg[k].c_str()) : d; };
    LIFE_LOG = num("--life", 0);
    COST_LOG = num("--cost", 0);
    SPACE_LOG = num("--space", 0);
    FAULTS = num("--faults", 0);
    FAULT_MASK = num("--fault-mask", 7);
    if (arg.count("--replay")) {
        std::ifstream in(arg["--replay"]);
        std::string line;
        start_regs();
        while (std::getline(in, line)) {
            std::istringstream is(line);
            op_t o;
            if (!(is >> o.op)) continue;
            is >> o.d >> o.s >> o.e >> o.m >> o.a >> o.b >> o.c;
            long j;
            while (is >> j) o.jumps.push_back(j);
            if (valid(o)) run_op(o);
        }
        return 0;
    }
    long seed = num("--seed", 1), runs = num("--runs", 10), len = num("--len", 100);
    for (long q = 0; q < runs; q++) {
        gen_t g(seed * 1000003 + q, arg.count("--profile") ? arg["--profile"] : "mixed");
        run_op(g.init());
        op_t o;
        for (long k = 0; k < len;) {
            if (!g.next(o)) continue;
            run_op(o);
            k++;
        }
    }
    if (LIFE_LOG) { op_t o; o.op = "init"; o.a = 4; run_op(o); } // is anything left?
    return 0;
}
