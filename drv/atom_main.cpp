// Threads that share an atom.  The history: when each call began and what it
// returned; boxes obtained earlier are read again later.
#include "common.hpp"
#include "conc.hpp"
#include <immer/atom.hpp>
#include <immer/flex_vector.hpp>

#ifndef VAL
#define VAL 0
#endif
constexpr long MOD = 65521;
#if VAL == 0
using V = long;
static V mkv(long x) { return x; }
static long valv(const V& v) { return v; }
static V next(const V& v, long k) { return (31 * v + k) % MOD; }
#elif VAL == 1
using V = Heaped;
static V mkv(long x) { return Heaped(x); }
static long valv(const V& v) { return v.get(); }
static V next(const V& v, long k) { return Heaped((31 * v.get() + k) % MOD); }
#else // a container with the values it went through; the last one counts
using V = immer::flex_vector<long, MP, 2, 1>;
static V mkv(long x) { return V{}.push_back(x); }
static long valv(const V& v)
{
    for (long x : v) if (x < 0 || x >= MOD) return BAD;
    return v.size() ? v.back() : BAD;
}
static V next(const V& v, long k) { return v.push_back((31 * v.back() + k) % MOD); }
#endif
using box_t = immer::box<V, MP>;
using atom_t = immer::atom<V, MP>;

static const char* const NAMES[] = {"load", "store", "exchange", "update", "throw"};
// l load, c load by conversion, v the value by conversion, s store, = store by assignment,
// r store a box obtained earlier, x exchange, u update, t update with a function that throws
static const char OPS[] = "lcvs=rxut";
static int name_of(char c) { return strchr("lcv", c) ? 0 : strchr("s=r", c) ? 1 : c == 'x' ? 2 : c == 'u' ? 3 : 4; }
static VT_Q atom_t* AT;
struct stop {};
struct worker_t
{
    int t;
    std::string ops; // quiet
    bool look;
};
static void mark(const std::string& s) { vt_mark(("!" + s).c_str()); }

static void work(void* p)
{
    worker_t& w = *static_cast<worker_t*>(p);
    box_t kept[3];
    long seen[3] = {-1, -1, -1};
    size_t n;
    { VT_QUIET; n = w.ops.size(); }
    for (size_t i = 0; i < n; i++) {
        char c;
        long v = 100 * w.t + (long) i + 1, ret = 0;
        int k = (int) (i % 3);
        { VT_QUIET; c = w.ops[i]; }
        box_t arg;
        if (c == 'r' && seen[(i + 2) % 3] >= 0) { // what was obtained last
            arg = kept[(i + 2) % 3];
            v = seen[(i + 2) % 3];
        } else if (strchr("s=rx", c))
            arg = box_t{mkv(v)};
        {
            VT_QUIET;
            mark("{\"op\":\"inv\",\"t\":" + std::to_string(w.t) + ",\"k\":\"" + NAMES[name_of(c)] + "\",\"v\":" + std::to_string(v) + ",\"end\":1}");
        }
        bool keep = true;
        switch (c) {
        case 'l': kept[k] = AT->load(); break;
        case 'c': kept[k] = box_t(*static_cast<const atom_t*>(AT)); break;
        case 'v': ret = valv(static_cast<V>(*AT)); keep = false; break;
        case 's': AT->store(arg); keep = false; break;
        case 'r': AT->store(std::move(arg)); keep = false; break;
        case '=': *AT = std::move(arg); keep = false; break;
        case 'x': kept[k] = AT->exchange(std::move(arg)); break;
        case 'u': kept[k] = AT->update([&](const V& x) { return next(x, v); }); break;
        default: {
            bool came = false;
            try {
                AT->update([&](const V& x) -> V { if (valv(x) != BAD) throw stop{}; return x; });
            } catch (const stop&) { came = true; }
            keep = false;
            ret = came ? 0 : -5;
        }
        }
        if (keep) {
            ret = valv(*kept[k]);
            seen[k] = ret;
        }
        {
            VT_QUIET;
            mark("{\"op\":\"res\",\"t\":" + std::to_string(w.t) + ",\"ret\":" + std::to_string(ret) + ",\"keep\":" + std::to_string(keep ? k : -1) + ",\"end\":1}");
        }
        if (w.look || i + 1 == n) {
            std::string* s;
            { VT_QUIET; s = new std::string("{\"op\":\"look\",\"t\":" + std::to_string(w.t) + ",\"see\":["); }
            bool c = false;
            for (int j = 0; j < 3; j++)
                if (seen[j] >= 0) {
                    long x = valv(*kept[j]);
                    VT_QUIET;
                    *s += std::string(c ? "," : "") + "[" + std::to_string(j) + "," + std::to_string(x) + "]";
                    c = true;
                }
            VT_QUIET;
            mark(*s + "],\"end\":1}");
        }
    }
    VT_QUIET;
    std::string().swap(w.ops);
}
// kind 0: two threads; a and b number short programs; kind 1: b threads of a operations
static void body(const scenario_t& sc)
{
    int nt;
    worker_t* w;
    rng* r;
    {
        VT_QUIET;
        r = new rng(sc.seed);
        w = new worker_t[5];
        nt = sc.kind == 0 ? 2 : (int) sc.b;
        for (int t = 1; t <= nt; t++) {
            w[t].t = t;
            w[t].look = r->chance(30);
            if (sc.kind == 0) {
                long c = t == 1 ? sc.a : sc.b;
                for (; c; c /= 10) w[t].ops += OPS[c % 10 - 1];
            } else
                for (long i = 0; i < sc.a; i++) w[t].ops += OPS[r->below(strlen(OPS))];
        }
    }
    { atom_t a{box_t{mkv(1)}}; a.store(box_t{mkv(2)}); long x = valv(*a.load()); (void) x; }
    vt_mark("#{\"op\":\"base\",\"end\":1}");
    mark("{\"op\":\"init\",\"threads\":" + std::to_string(nt) + ",\"v\":7,\"end\":1}");
    alignas(atom_t) static char mem[sizeof(atom_t)];
    AT = new (mem) atom_t{box_t{mkv(7)}};
    for (int t = 1; t <= nt; t++) vt_spawn(work, &w[t]);
    vt_join_all();
    {
        long x = valv(*AT->load());
        VT_QUIET;
        mark("{\"op\":\"last\",\"ret\":" + std::to_string(x) + ",\"end\":1}");
    }
    AT->~atom_t();
    vt_mark(MPN == 13 ? "#{\"op\":\"final\",\"leak\":0,\"end\":1}" : "#{\"op\":\"final\",\"leak\":1,\"end\":1}");
}
static scenario_t scenario(long i, rng& r, std::map<std::string, std::string>& arg)
{
    scenario_t s;
    s.seed = (long) r.below(1000000);
    long n = (long) strlen(OPS);
    if (arg.count("--menu")) { // programs of one or two operations, all of them in turn
        long len = NUM(arg, "--menu", 1), all = len == 1 ? n * n : n * n * n * n;
        long from = NUM(arg, "--from", 0), k = (from + i) % all;
        auto prog = [&] { long c = k % n + 1; k /= n; if (len > 1) { c = c * 10 + k % n + 1; k /= n; } return c; };
        s.a = prog();
        s.b = prog();
    } else {
        s.kind = 1;
        s.a = NUM(arg, "--len", 5);
        s.b = NUM(arg, "--threads", 2);
    }
    return s;
}
int main(int argc, char** argv) { return conc_main(argc, argv); }
