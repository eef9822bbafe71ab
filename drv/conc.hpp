// Explores the interleavings of a scenario: every execution happens in a
// process of its own (fork), under the scheduler of vtrt.cpp.
//
//   --what hb | ops     which of the two histories to write down
//   --mode dfs | random
//   --seed S --scenarios N --execs N (per scenario) --bound B (preemptions, dfs)
//   --replay FILE       lines: init FOUR-NUMBERS mode seed weak depth pct choices...
#pragma once
#include "common.hpp"
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

struct scenario_t
{
    long kind = 0, seed = 0, a = 0, b = 0; // what these mean is up to the driver
};
struct exec_t
{
    scenario_t sc;
    int mode = 0;
    long seed = 0, weak = 0, depth = 0, pct = 0;
    std::vector<unsigned char> choice;
    std::string text() const
    {
        std::string s = "init";
        for (long x : {sc.kind, sc.seed, sc.a, sc.b, (long) mode, seed, weak, depth, pct}) s += " " + std::to_string(x);
        size_t n = choice.size();
        for (size_t i = 0; i < n; i++) s += " " + std::to_string((int) choice[i]);
        return s;
    }
};
static constexpr size_t NTABLE = 1 << 16, NSEEN = 1 << 20, NPTS = 1 << 16;
struct share_t
{
    unsigned char table[NTABLE];
    uint64_t seen[NSEEN];
    int npts;
    struct { unsigned char chosen, enabled, stay, cur; } pts[NPTS];
    int fresh;
    long written;
};
static VT_Q share_t* SH;
static VT_Q bool WANT_HB = true;
static VT_Q std::string CMD;
static void write_all(const char* s, size_t n)
{
    std::string out; // the lines of the history asked for
    const char *e = s + n;
    while (s < e) {
        const char* l = (const char*) memchr(s, '\n', e - s);
        size_t k = l - s;
        char c = *s;
        if (c == '=') out.append(s + 1, k);
        else if (c == '#') { if (WANT_HB) out.append(s + 1, k); }
        else if (c == '!') {
            if (!WANT_HB) {
                if (!strncmp(s, "!{\"op\":\"init\"", 13)) { out += "{\"op\":\"init\",\"cmd\":\"" + CMD + "\""; out.append(s + 13, k - 12); }
                else out.append(s + 1, k);
            }
        }
        else if (WANT_HB) {
            if (!strncmp(s, "{\"op\":\"begin\"", 13)) { out += "{\"op\":\"init\",\"cmd\":\"" + CMD + "\","; out.append(s + 14, k - 13); }
            else out.append(s, k + 1);
        }
        s = l + 1;
    }
    size_t at = 0;
    while (at < out.size()) {
        ssize_t w = write(1, out.data() + at, out.size() - at);
        if (w <= 0) _exit(3);
        at += w;
    }
    SH->written = (long) out.size();
}
static void body(const scenario_t& sc); // of the driver
static void body_(void* p) { body(*static_cast<scenario_t*>(p)); }

// false: it crashed or hung
static bool run_one(const exec_t& x, bool always)
{
    bool frozen = x.mode != 2; // 2: random, to find out what is shared
    fflush(stdout);
    SH->fresh = 0;
    SH->npts = 0;
    CMD = x.text();
    pid_t pid = fork();
    if (pid == 0) {
        itimerval tv{{0, 0}, {30, 0}}; // of working; of waiting more
        setitimer(ITIMER_PROF, &tv, nullptr);
        alarm(120);
        vt_plan p{};
        p.mode = x.mode ? 1 : 0;
        p.seed = (uint64_t) x.seed;
        p.switch_pct = (int) x.pct;
        p.weak_pct = (int) x.weak;
        p.pct_depth = (int) x.depth;
        p.choice = x.choice.data();
        p.nchoice = (int) x.choice.size();
        vt_share_points(SH->table, NTABLE, frozen);
        scenario_t sc = x.sc;
        vt_execute(&p, body_, &sc);
        vt_note_shared();
        int n = vt_npoints();
        SH->npts = n < (int) NPTS ? n : (int) NPTS;
        for (int i = 0; i < SH->npts; i++) {
            int c, s, u;
            unsigned e;
            vt_point(i, &c, &e, &s, &u);
            SH->pts[i] = {(unsigned char) c, (unsigned char) e, (unsigned char) s, (unsigned char) u};
        }
        uint64_t h = vt_digest() ^ (uint64_t) (x.sc.kind * 1000003 + x.sc.seed * 7919 + x.sc.a * 104729 + x.sc.b * 1299709) * 0x9E3779B97F4A7C15ull;
        h |= 1;
        size_t i = h % NSEEN;
        int k = 0;
        for (; SH->seen[i] && SH->seen[i] != h && k < 4096; k++) i = (i + 1) % NSEEN;
        if (always || SH->seen[i] != h) {
            SH->fresh = 1;
            if (k < 4096) SH->seen[i] = h;
            vt_dump(write_all);
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) _exit(3);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) _exit(3);
    std::string why = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
    printf("{\"op\":\"init\",\"cmd\":\"%s\",\"threads\":1,\"segs\":0,\"blk\":[],\"kinds\":[],\"a\":1,\"lo\":1,\"hi\":1,\"end\":1}\n", CMD.c_str());
    printf("{\"op\":\"crashed\",\"why\":\"%s\",\"end\":0}\n", why.c_str());
    fflush(stdout);
    return false;
}

// depth-first over the choices, at most `bound` preemptions
struct dfs_t
{
    struct node { unsigned char chosen, enabled, stay, cur; unsigned tried; };
    std::vector<node> path;
    int bound;
    explicit dfs_t(int b) : bound(b) {}
    void ran() // what the last execution met
    {
        for (int i = (int) path.size(); i < SH->npts; i++) {
            auto& p = SH->pts[i];
            path.push_back({p.chosen, p.enabled, p.stay, p.cur, 1u << p.chosen});
        }
    }
    bool next(std::vector<unsigned char>& choice)
    {
        while (!path.empty()) {
            int pre = 0;
            for (size_t i = 0; i + 1 < path.size(); i++) pre += path[i].stay && path[i].chosen != path[i].cur;
            node& n = path.back();
            for (int t = 0; t < 8; t++)
                if ((n.enabled >> t & 1) && !(n.tried >> t & 1) && pre + (n.stay && t != n.cur) <= bound) {
                    n.tried |= 1u << t;
                    n.chosen = t;
                    choice.clear();
                    for (auto& q : path) choice.push_back(q.chosen);
                    return true;
                }
            path.pop_back();
        }
        return false;
    }
};

static long NUM(std::map<std::string, std::string>& arg, const char* k, long d) { return arg.count(k) ? atol(arg[k].c_str()) : d; }

// the scenarios of a campaign come from the driver
static scenario_t scenario(long i, rng& r, std::map<std::string, std::string>& arg);

static int conc_main(int argc, char** argv)
{
    std::map<std::string, std::string> arg;
    for (int i = 1; i + 1 < argc; i += 2) arg[argv[i]] = argv[i + 1];
    SH = (share_t*) mmap(nullptr, sizeof(share_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    WANT_HB = arg["--what"] != "ops";
    if (arg.count("--replay")) {
        std::ifstream in(arg["--replay"]);
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream is(line);
            std::string w;
            if (!(is >> w) || w != "init") continue;
            exec_t x;
            is >> x.sc.kind >> x.sc.seed >> x.sc.a >> x.sc.b >> x.mode >> x.seed >> x.weak >> x.depth >> x.pct;
            int c;
            while (is >> c) x.choice.push_back((unsigned char) c);
            memset(SH->table, 0, NTABLE);
            for (int k = 0; k < 6 && x.mode != 2; k++) { // as the exploration did
                exec_t y;
                y.sc = x.sc; y.mode = 2; y.pct = 30; y.seed = k;
                WANT_HB = true;
                int keep = dup(1), nul = ::open("/dev/null", 1);
                dup2(nul, 1);
                bool ok = run_one(y, false);
                fflush(stdout);
                dup2(keep, 1);
                close(keep); close(nul);
                WANT_HB = arg["--what"] != "ops";
                if (!ok) break;
            }
            if (!run_one(x, true)) return 0;
        }
        return 0;
    }
    long seed = NUM(arg, "--seed", 1), ns = NUM(arg, "--scenarios", 10), ne = NUM(arg, "--execs", 100);
    int bound = (int) NUM(arg, "--bound", 2);
    bool dfs = arg["--mode"] == "dfs";
    rng r(seed);
    long total = 0, fresh = 0;
    for (long i = 0; i < ns; i++) {
        exec_t x;
        x.sc = scenario(i, r, arg);
        memset(SH->table, 0, NTABLE);
        memset(SH->seen, 0, sizeof SH->seen);
        bool ok = true;
        for (int k = 0; k < 6 && ok; k++) { // find out what is shared
            x.mode = 2; x.pct = 30; x.seed = k;
            ok = run_one(x, false);
            total++, fresh += SH->fresh;
        }
        x.pct = x.seed = 0;
        if (!ok) return 0;
        if (dfs) {
            for (int b = 0; b <= bound && ok; b += bound ? bound : 1) {
                dfs_t d(b);
                x.mode = 0;
                x.choice.clear();
                for (long k = 0; k < ne && ok; k++) {
                    ok = run_one(x, false);
                    total++, fresh += SH->fresh;
                    d.ran();
                    if (!d.next(x.choice)) break;
                }
                x.choice.clear();
            }
            if (!ok) return 0;
        } else {
            for (long k = 0; k < ne && ok; k++) {
                x.mode = 1;
                x.seed = (long) r.below(1000000000);
                x.weak = r.chance(50) ? 0 : 10;
                x.depth = r.chance(40) ? 1 : 0;
                x.pct = x.depth ? 5 + (long) r.below(60) : 3 + (long) r.below(40);
                ok = run_one(x, false);
                total++, fresh += SH->fresh;
            }
            if (!ok) return 0;
            x.weak = x.depth = 0;
        }
    }
    fprintf(stderr, "%ld executions, %ld different\n", total, fresh);
    return 0;
}
