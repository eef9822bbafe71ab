"""What each check builds, runs and has judged."""
from vlib import *

ASSUME = ["TLC and the JVM evaluate the specification correctly",
          "the compiler and sanitizer builds of the drivers behave as the C++ standard says"]


def seq(BITS=None, LEAF=None, MPN=0, EL=0, asan=False, **kw):
    d = dict(MPN=MPN, EL=EL)
    if BITS is not None:
        d["BITS"] = BITS
    if LEAF is not None:
        d["LEAF"] = LEAF
    if kw.pop("ndebug", False):
        d["NDEBUG"] = ""
    return Build("seq_main", asan=asan, gc=MPN == 2, **d, **kw)


# small branching: deep trees out of few elements; (bits, leaf bits)
def seq_jobs(s, builds, profiles, runs, length, mx, seeds=1, base=0, limit=180):
    jobs = []
    k = base
    for q in range(seeds):
        for b in builds:
            for p in profiles:
                k += 1
                jobs.append(dict(build=b, spec="SeqTrace", limit=limit,
                                 args=["--seed", s.seed * 1000 + k, "--runs", runs, "--len", length,
                                       "--max", mx, "--profile", p]))
    return jobs


def assoc(BITS=5, MPN=0, KT=0, VT=0, asan=False, **kw):
    if kw.pop("ndebug", False):
        kw["NDEBUG"] = ""
    return Build("assoc_main", asan=asan, gc=MPN == 2, BITS=BITS, MPN=MPN, KT=KT, VT=VT, **kw)


def assoc_jobs(s, builds, profiles, runs, length, seeds=1, base=500):
    jobs = []
    k = base
    for q in range(seeds):
        for b in builds:
            for p in profiles:
                k += 1
                jobs.append(dict(build=b, spec="AssocTrace",
                                 args=["--seed", s.seed * 1000 + k, "--runs", runs, "--len", length, "--profile", p]))
    return jobs


def life_jobs(s, builds, profiles, runs, length, mx=150, faults=0, seeds=1, base=2000, spec="SeqLife"):
    jobs = []
    k = base
    for q in range(seeds):
        for b in builds:
            for p in profiles:
                k += 1
                a = ["--seed", s.seed * 1000 + k, "--runs", runs, "--len", length, "--profile", p, "--life", 1]
                a += ["--faults", faults, "--fault-mask", 15] if faults else []
                if spec == "SeqLife":
                    a += ["--max", mx]
                jobs.append(dict(build=b, spec=spec, args=a,
                                 replay_args=["--life", 1] + (["--faults", 100, "--fault-mask", 15] if faults else [])))
    return jobs


def plan_jobs(s, builds, files, spec="SeqTrace", extra=()):
    return [dict(build=b, spec=spec, args=["--replay", f, *extra], replay_args=list(extra))
            for b in builds for f in files]


def quick(s, q, t):
    return q if s.tier == "quick" else t


def grid(s, builds, parts, LEAF, BR, MAXN, DEEP=0, extra=(), spec="SeqTrace", frac=1.0):
    """every behaviour SeqGen enumerates (or that fraction of them), on each of the builds"""
    return plan_jobs(s, builds, s.generate("SeqGen", parts, frac=frac, LEAF=LEAF, BR=BR, MAXN=MAXN, DEEP=DEEP), spec, extra)


def agrid(s, builds, parts, U, NH, FAM, NV=2, extra=(), spec="AssocTrace", frac=1.0):
    return plan_jobs(s, builds, s.generate("AssocGen", parts, frac=frac, U=U, NH=NH, FAM=FAM, NV=NV), spec, extra)


def C01(s):
    """values never change: long histories over many values that share nodes"""
    S = [seq(3, 1, 3, 1, True), seq(2, 2, 0, 7, ndebug=True), seq(2, 1, 7, 2), seq(3, 2, 2, 0)]
    A_ = [assoc(3, 3, 2, 3, True), assoc(2, 6, 0, 0, ndebug=True), assoc(5, 0, 1, 1), assoc(3, 2, 2, 1)]
    if s.tier == "thorough":
        S += [seq(4, 1, 5, 1, True), seq(2, 0, 1, 3), seq(5, None, 0, 0), seq(3, 3, 10, 4), seq(2, 1, 9, 1, True)]
        A_ += [assoc(4, 5, 3, 2, True), assoc(6, 10, 0, 3), assoc(2, 9, 1, 0), assoc(5, 7, 3, 3, True)]
    s.compile_all(S + A_)
    n = quick(s, 1, 8)
    jobs = seq_jobs(s, S, ["persist", "trans", "move", "mixed", "flex"], 20, 300, 150, seeds=n)
    jobs += seq_jobs(s, S[:2], ["mixed", "flex"], 6, 400, 700, seeds=n, base=300)
    jobs += assoc_jobs(s, A_, ["persist", "trans", "move", "mixed"], 16, 300, seeds=n)
    jobs += agrid(s, A_[:1], ["step"], 4, 4, quick(s, 0, 1))
    jobs += grid(s, S[:1], ["M", "T"], 2, 8, quick(s, 6, 20))
    s.run_jobs(jobs)
    return "model_checking", ASSUME


def C02(s):
    """sequences: every operation at every position of every small value, and long histories"""
    S = [seq(2, 1, 0, 0, ndebug=True), seq(3, 1, 3, 1, True), seq(2, 2, 7, 7, True), seq(2, 0, 5, 3)]
    big = seq(None, None, 0, 0, cxx="g++", opt="-O1")
    deep = [seq(2, 0, 0, 0, True), seq(2, 1, 3, 0)]     # more than six levels out of few elements
    if s.tier == "thorough":
        S += [seq(4, 1, 0, 1), seq(3, 3, 1, 4), seq(2, 1, 2, 2), seq(6, 2, 0, 5), seq(3, 2, 8, 6, True)]
    s.compile_all(S + [big] + deep)
    s.model_ok("RunsMC", cfg=quick(s, "RunsMC2", "RunsMC"))
    n = quick(s, 1, 6)
    jobs = seq_jobs(s, deep, ["flex", "vector"], 2, 200, 20000, seeds=n, base=450, limit=400)
    jobs += seq_jobs(s, deep, ["flex"], 3, 300, 3000, seeds=n, base=470, limit=400)
    jobs += grid(s, S[:1], ["F", "M", "concat", "V", "A"], 2, 4, quick(s, 14, 40), quick(s, 0, 1), frac=quick(s, .5, 1))
    jobs += grid(s, [S[1]], ["F", "V", "concat"], 2, 8, quick(s, 18, 40), frac=quick(s, .3, 1))
    jobs += grid(s, [S[2]], ["F", "M", "V"], 4, 4, quick(s, 10, 40))
    jobs += grid(s, [S[3]], ["F", "M", "V"], 1, 4, quick(s, 10, 24))
    jobs += seq_jobs(s, S, ["persist", "flex", "vector", "array"], 16, 300, 150, seeds=n)
    jobs += seq_jobs(s, S[:2], ["flex", "persist"], 5, 300, 1000, seeds=n, base=400)
    jobs += seq_jobs(s, [big], ["flex", "vector"], 2, 150, quick(s, 40000, 120000), seeds=quick(s, 2, 6), base=600, limit=400)
    s.run_jobs(jobs)
    return "model_checking", ASSUME


def C03(s):
    """sets, maps, tables: every operation on every small value under every hash assignment; long histories"""
    A_ = [assoc(2, 3, 0, 3, True), assoc(5, 0, 1, 1, ndebug=True), assoc(3, 7, 3, 2, True), assoc(4, 5, 0, 0), assoc(6, 1, 2, 0)]
    if s.tier == "thorough":
        A_ += [assoc(2, 9, 1, 3), assoc(3, 2, 0, 2), assoc(5, 10, 2, 2, True), assoc(7, 0, 0, 0)]
    s.compile_all(A_)
    n = quick(s, 1, 6)
    jobs = []
    for f in (0, 1, 2):
        jobs += agrid(s, A_[:1] if f else A_[:2], ["step", "chain"], 4, 5, f, frac=quick(s, .12, 1) if f else 1)
    if s.tier == "thorough":
        for f in (0, 1):
            jobs += agrid(s, [A_[0], A_[3]], ["step", "chain"], 5, 6, f, NV=1)
    jobs += assoc_jobs(s, A_, ["set", "map", "table", "persist", "mixed"], 14, 300, seeds=n)
    s.run_jobs(jobs)
    return "model_checking", ASSUME


def C04(s):
    """transients: isolated, and equal to the persistent operations"""
    S = [seq(2, 1, 3, 1, True), seq(3, 1, 0, 0, ndebug=True), seq(2, 2, 2, 0), seq(2, 1, 9, 1), seq(2, 0, 5, 7)]
    A_ = [assoc(3, 3, 2, 3, True), assoc(2, 0, 0, 0, ndebug=True), assoc(3, 2, 2, 1), assoc(4, 5, 1, 3), assoc(2, 9, 2, 3)]
    if s.tier == "thorough":
        S += [seq(3, 2, 9, 1, True), seq(3, 0, 9, 7), seq(4, 1, 10, 2), seq(None, None, 0, 0), seq(2, 1, 7, 7, True)]
        A_ += [assoc(2, 9, 3, 2, True), assoc(5, 10, 0, 3), assoc(6, 7, 1, 1)]
    s.compile_all(S + A_)
    n = quick(s, 1, 6)
    jobs = grid(s, S[:1], ["T", "V", "A"], 2, 4, quick(s, 11, 24))
    jobs += grid(s, S[:1], ["append"], 2, 4, quick(s, 11, 24), frac=quick(s, .08, 1))
    jobs += grid(s, [S[2]], ["T", "V", "A"], 4, 4, quick(s, 10, 24))
    jobs += grid(s, [S[3]], ["append"], 2, 4, quick(s, 11, 24), frac=quick(s, .04, 1))
    jobs += seq_jobs(s, S, ["trans"], 30, 300, 150, seeds=quick(s, 2, 10))
    jobs += seq_jobs(s, [S[2], S[3]], ["trans"], 8, 300, 700, seeds=n, base=750)
    jobs += seq_jobs(s, S, ["vector", "array", "flex"], 14, 300, 150, seeds=n, base=700)
    jobs += assoc_jobs(s, A_, ["trans", "set", "map", "table"], 14, 300, seeds=n)
    for f in (0, 1):
        jobs += agrid(s, A_[:1], ["step"], 4, 4, f, frac=quick(s, .1, 1) if f else 1)
    s.run_jobs(jobs)
    return "model_checking", ASSUME


def C05(s):
    """operations on values about to expire"""
    S = [seq(2, 1, 3, 1, True), seq(3, 1, 7, 7, True), seq(2, 2, 0, 2, ndebug=True), seq(3, 0, 5, 0)]
    A_ = [assoc(3, 3, 2, 3, True), assoc(2, 0, 1, 1), assoc(5, 5, 3, 2, ndebug=True)]
    if s.tier == "thorough":
        S += [seq(4, 1, 1, 1, True), seq(2, 1, 10, 4), seq(3, 2, 2, 2), seq(None, None, 0, 6)]
        A_ += [assoc(4, 10, 3, 3, True), assoc(2, 6, 0, 2), assoc(6, 2, 1, 3)]
    s.compile_all(S + A_)
    n = quick(s, 1, 6)
    jobs = grid(s, S[:1], ["M", "concat", "V", "A"], 2, 4, quick(s, 12, 30), quick(s, 0, 1), frac=quick(s, .5, 1))
    jobs += grid(s, [S[2]], ["M", "V", "A"], 4, 4, quick(s, 10, 24))
    jobs += seq_jobs(s, S, ["move", "flex", "vector", "array"], 18, 300, 150, seeds=n)
    jobs += assoc_jobs(s, A_, ["move"], 30, 300, seeds=quick(s, 3, 12))
    for f in (0, 2):
        jobs += agrid(s, A_[:1], ["step"], 4, 4, f, frac=quick(s, .1, 1) if f else 1)
    s.run_jobs(jobs)
    return "model_checking", ASSUME


def C06(s):
    """diff: all pairs of small values under all hash assignments, and long histories"""
    A_ = [assoc(2, 3, 0, 3, True), assoc(5, 0, 1, 0, ndebug=True), assoc(3, 5, 2, 1), assoc(4, 2, 0, 0), assoc(6, 7, 3, 2)]
    s.compile_all(A_)
    n = quick(s, 1, 8)
    jobs = agrid(s, A_[:2], ["pairs"], 4, 5, 0)
    jobs += agrid(s, A_[:1], ["pairs"], 3, 4, 1) + agrid(s, A_[:1], ["pairs"], 3, 4, 2)
    if s.tier == "thorough":
        jobs += agrid(s, A_[:2], ["pairs"], 4, 5, 1) + agrid(s, A_[2:4], ["pairs"], 5, 5, 0)
    jobs += assoc_jobs(s, A_, ["diff", "eq", "set", "mixed"], 18, 300, seeds=n)
    s.run_jobs(jobs)
    return "model_checking", ASSUME


def C07(s):
    """equality of values made in different ways"""
    S = [seq(2, 1, 3, 1, True), seq(3, 1, 0, 0, ndebug=True), seq(2, 2, 5, 2), seq(2, 0, 1, 3)]
    A_ = [assoc(2, 3, 0, 3, True), assoc(5, 0, 1, 0, ndebug=True), assoc(3, 5, 2, 1)]
    if s.tier == "thorough":
        S += [seq(3, 3, 0, 5), seq(4, 1, 2, 0), seq(2, 1, 9, 4), seq(None, None, 0, 0)]
        A_ += [assoc(2, 9, 1, 3), assoc(4, 2, 0, 0), assoc(6, 7, 3, 2)]
    s.compile_all(S + A_)
    n = quick(s, 1, 8)
    jobs = seq_jobs(s, S, ["eq"], 24, 300, 120, seeds=quick(s, 4, 24))
    jobs += seq_jobs(s, S, ["mixed", "vector", "array"], 12, 300, 150, seeds=n, base=800)
    jobs += assoc_jobs(s, A_, ["eq"], 30, 300, seeds=quick(s, 3, 16))
    jobs += assoc_jobs(s, A_, ["diff", "mixed"], 12, 300, seeds=n, base=900)
    jobs += agrid(s, A_[:1], ["pairs"], 4, 5, 0) + agrid(s, A_[:1], ["pairs"], 3, 4, 1) + agrid(s, A_[:1], ["pairs"], 3, 4, 2)
    s.run_jobs(jobs)
    return "model_checking", ASSUME


def C08(s):
    """every way of traversing"""
    S = [seq(2, 1, 3, 1, True), seq(3, 1, 0, 0, ndebug=True), seq(2, 2, 5, 2), seq(2, 0, 1, 3)]
    A_ = [assoc(2, 3, 0, 3, True), assoc(5, 0, 1, 1, ndebug=True), assoc(3, 5, 2, 1)]
    if s.tier == "thorough":
        S += [seq(3, 3, 0, 5), seq(4, 1, 2, 0), seq(2, 1, 9, 4)]
        A_ += [assoc(2, 9, 1, 3), assoc(4, 2, 0, 0), assoc(6, 7, 3, 2)]
    big = seq(None, None, 0, 0, cxx="g++", opt="-O1")
    s.compile_all(S + A_ + [big])
    n = quick(s, 1, 8)
    jobs = grid(s, S[:1], ["trav", "chunk", "iter"], 2, 4, quick(s, 14, 36), quick(s, 0, 1))
    jobs += grid(s, [S[3]], ["trav", "chunk", "iter"], 1, 4, quick(s, 12, 24))
    jobs += grid(s, [S[1]], ["trav", "chunk", "iter"], 2, 8, quick(s, 20, 36))
    jobs += seq_jobs(s, S, ["trav"], 24, 300, 150, seeds=quick(s, 3, 16))
    jobs += seq_jobs(s, S[:2], ["trav"], 6, 300, 900, seeds=n, base=800)
    jobs += seq_jobs(s, [big], ["trav"], 2, 150, 40000, seeds=quick(s, 1, 6), base=900, limit=400)
    jobs += assoc_jobs(s, A_, ["trav"], 24, 300, seeds=quick(s, 3, 16))
    jobs += agrid(s, A_[:1], ["chain"], 5, 5, 0) + agrid(s, A_[:1], ["chain"], 4, 5, 1)
    s.run_jobs(jobs)
    return "model_checking", ASSUME


def C09(s):
    """elements and blocks, event by event"""
    S = [seq(3, 1, 6, 1, True), seq(2, 1, 7, 7), seq(2, 2, 8, 1, ndebug=True), seq(2, 0, 6, 7)]
    A_ = [assoc(3, 6, 3, 3, True), assoc(2, 7, 2, 3), assoc(5, 8, 3, 2, ndebug=True)]
    if s.tier == "thorough":
        S += [seq(3, 3, 8, 7), seq(None, None, 6, 1), seq(4, 1, 7, 1, True)]
        A_ += [assoc(4, 6, 2, 2), assoc(6, 7, 3, 3, True)]
    s.compile_all(S + A_)
    s.model_ok("LifeMC")
    n = quick(s, 1, 8)
    jobs = life_jobs(s, S, ["mixed", "trans", "move", "flex", "vector", "array"], 9, 200, seeds=n)
    jobs += life_jobs(s, A_, ["mixed", "persist", "trans", "move"], 18, 200, spec="AssocLife", seeds=quick(s, 1, 12))
    L = ["--life", 1]
    jobs += grid(s, [S[1]], ["M", "T", "V", "A"], 2, 4, quick(s, 6, 18), extra=L, spec="SeqLife")
    jobs += grid(s, [S[0]], ["concat"], 2, 8, quick(s, 6, 18), extra=L, spec="SeqLife")
    jobs += agrid(s, A_[:1], ["step"], 4, 4, 0, frac=quick(s, .5, 1), extra=L, spec="AssocLife")
    jobs += agrid(s, [A_[1]], ["step"], 3, 4, 1, frac=quick(s, .3, 1), extra=L, spec="AssocLife")
    s.run_jobs(jobs)
    return "model_checking", ASSUME


def C10(s):
    """the same with every step that may fail failing once"""
    S = [seq(3, 1, 6, 1, True), seq(2, 1, 7, 7, ndebug=True), seq(2, 2, 8, 1), seq(2, 0, 6, 7)]
    A_ = [assoc(3, 6, 3, 3, True), assoc(2, 7, 2, 3, ndebug=True), assoc(5, 8, 3, 2)]
    if s.tier == "thorough":
        S += [seq(3, 3, 8, 7), seq(4, 1, 6, 1), seq(2, 1, 7, 1, True)]
        A_ += [assoc(4, 6, 2, 2), assoc(6, 7, 3, 3, True)]
    s.compile_all(S + A_)
    n = quick(s, 1, 8)
    jobs = life_jobs(s, S, ["mixed", "persist", "trans", "move", "flex", "vector", "array"], 6, 100, faults=100, seeds=n)
    jobs += life_jobs(s, A_, ["mixed", "persist", "trans", "move"], quick(s, 4, 6), 100, spec="AssocLife", faults=50, seeds=n)
    L = ["--life", 1, "--faults", 100, "--fault-mask", 15]
    jobs += grid(s, [S[1]], ["T", "V", "A"], 2, 4, quick(s, 4, 12), extra=L, spec="SeqLife")
    jobs += agrid(s, A_[:1], ["step"], quick(s, 3, 4), quick(s, 3, 4), 1, NV=1, extra=L, spec="AssocLife", frac=quick(s, .35, 1))
    s.run_jobs(jobs)
    return "model_checking", ASSUME


def cost_jobs(s, S, A_, n, length=300):
    jobs, k = [], 0
    for q in range(n):
        for b in S:
            for p, mx in (("cost", 300), ("mixed", 300), ("trans", 300), ("array", 100), ("flex", 300), ("cost", 1500)):
                k += 1
                jobs.append(dict(build=b, spec="SeqCost", replay_args=["--cost", 1],
                                 args=["--cost", 1, "--seed", s.seed * 1000 + k, "--runs", 8 if mx < 1000 else 4,
                                       "--len", length, "--profile", p, "--max", mx]))
            k += 1
            jobs.append(dict(build=b, spec="SeqCost", replay_args=["--cost", 1],
                             args=["--cost", 1, "--seed", s.seed * 1000 + k, "--runs", 4, "--len", 3 * length, "--profile", "seams", "--max", 600]))
        for b in A_:
            for p in ("cost", "mixed", "trans", "diff"):
                k += 1
                jobs.append(dict(build=b, spec="AssocCost", replay_args=["--cost", 1],
                                 args=["--cost", 1, "--seed", s.seed * 1000 + k, "--runs", 8, "--len", length, "--profile", p]))
    return jobs


def C14(s):
    """allocations, element copies and comparisons of every operation of long histories"""
    S = [seq(2, 1, 6, 1), seq(3, 1, 7, 7), seq(2, 0, 8, 1, ndebug=True), seq(3, 3, 6, 7), seq(2, 2, 9, 1)]
    A_ = [assoc(3, 6, 3, 3), assoc(2, 7, 2, 2), assoc(4, 8, 3, 2, ndebug=True), assoc(5, 9, 2, 3), assoc(5, 6, 2, 2)]
    if s.tier == "thorough":
        S += [seq(4, 1, 7, 1), seq(None, None, 6, 7), seq(3, 2, 9, 7)]
        A_ += [assoc(6, 7, 3, 3), assoc(3, 9, 2, 2)]
    s.compile_all(S + A_)
    s.run_jobs(cost_jobs(s, S, A_, quick(s, 1, 8)))
    return "model_checking", ASSUME


def C16(s):
    """the same behaviours, enumerated from the specification, under many configurations"""
    S = [seq(5, None, 0, 0), seq(2, 2, 5, 1, std="c++20"), seq(3, 0, 2, 0), seq(4, 3, 10, 4, ndebug=True),
         seq(2, 1, 1, 2), seq(3, 2, 9, 5), seq(6, 1, 3, 6), seq(2, 3, 4, 3, ndebug=True)]
    A_ = [assoc(5, 0, 0, 0), assoc(2, 2, 0, 1), assoc(3, 5, 1, 1), assoc(4, 10, 2, 3, ndebug=True),
          assoc(6, 1, 3, 2), assoc(2, 9, 0, 3, std="c++20"), assoc(3, 7, 2, 0), assoc(5, 5, 1, 2)]
    if s.tier == "thorough":
        S += [seq(None, None, m, e) for m in (0, 1, 3, 5, 10) for e in (0, 1, 3, 4)]
        S += [seq(b, l, m, 7) for b, l in ((2, 0), (3, 3), (4, 0), (5, 2)) for m in (2, 4, 6, 8)]
        A_ += [assoc(b, m, k, v) for b, m in ((2, 6), (3, 8), (4, 2), (5, 1)) for k, v in ((1, 3), (3, 0))]
    s.compile_all(S + A_)
    jobs = []
    k = quick(s, 1, 4)
    fr = dict(F=.1, M=.1, T=.1, concat=.08, V=.4, A=.3, append=.012, trav=.08, chunk=.06, iter=.08)
    jobs += grid(s, S, list(fr), 2, 4, 13, frac={p: min(1, k * x) for p, x in fr.items()})
    for f, parts, u, fr in ((0, ["step", "pairs", "chain"], 4, .08), (1, ["step", "pairs"], 3, .08), (2, ["step", "pairs"], 3, .08)):
        jobs += agrid(s, A_, parts, u, 5, f, frac=quick(s, fr, min(1, 4 * fr)))
    jobs += seq_jobs(s, [S[2], S[6]], ["trans", "mixed"], 10, 300, 150, seeds=quick(s, 1, 6))
    s.extra["configurations"] = [b.name for b in S + A_]
    s.run_jobs(jobs)
    return "model_checking", ASSUME


def conc(drv="conc_main", opt="-O1", **d):
    """a driver under the scheduler of drv/vtrt.cpp"""
    return Build(drv, script="build_conc.sh", opt=opt, VT_CONC="", **d)


def conc_jobs(s, builds, variants, hb="HBTrace", ops=None, base=0):
    """variants: (arguments, which histories); every execution's history is judged"""
    jobs, k = [], base
    for b in builds:
        for a, whats in variants:
            for w in whats:
                k += 1
                spec = hb if w == "hb" else (ops or ("AssocTrace" if "ASSOC" in b.defs else "SeqTrace"))
                jobs.append(dict(build=b, spec=spec, limit=600, replay_args=["--what", w],
                                 args=["--what", w, "--seed", s.seed * 1000 + k, *a]))
    return jobs


def C11(s):
    """threads that share values: every interleaving of small programs up to a number of
    preemptions, random schedules of longer ones; happens-before and contents"""
    S = [conc(BITS=2, LEAF=1, MPN=11, EL=8), conc(BITS=2, LEAF=0, MPN=12, EL=9), conc(BITS=3, LEAF=1, MPN=13, EL=8), conc(BITS=2, LEAF=1, MPN=0, EL=0)]
    A_ = [conc(ASSOC="", BITS=3, MPN=11, KT=8, VT=8), conc(ASSOC="", BITS=4, MPN=0, KT=0, VT=8), conc(ASSOC="", BITS=2, MPN=12, KT=0, VT=8),
          conc(ASSOC="", BITS=5, MPN=13, KT=8, VT=8)]
    if s.tier == "thorough":
        S += [conc(BITS=5, LEAF=2, MPN=3, EL=8), conc(BITS=3, LEAF=0, MPN=11, EL=2)]
        A_ += [conc(ASSOC="", BITS=4, MPN=4, KT=8, VT=8), conc(ASSOC="", BITS=5, MPN=0, KT=0, VT=0)]
    s.compile_all(S + A_)
    jobs = []
    for q in range(quick(s, 1, 6)):
        dfs = ["--mode", "dfs", "--menu", 1, "--scenarios", 40, "--execs", quick(s, 80, 400), "--bound", quick(s, 2, 3)]
        rnd = ["--mode", "random", "--scenarios", 20, "--execs", 40, "--len", 6]
        three = ["--mode", "random", "--scenarios", 12, "--execs", 30, "--len", 5, "--threads", 3]
        jobs += conc_jobs(s, S + A_, [(dfs, ["hb", "ops"]), (rnd, ["hb", "ops"]), (three, ["hb"])], base=100 * q)
    s.run_jobs(jobs)
    return "model_checking", ASSUME + ["the scheduler of drv/vtrt.cpp runs one thread at a time and switches at "
        "synchronisation only: for programs HB accepts (free of data races) every behaviour is such an interleaving "
        "except for loads that return values older than the latest"]


def C12(s):
    """atoms shared by threads: every interleaving of pairs of short programs up to a number of
    preemptions, random schedules of longer ones; linearizability and happens-before"""
    def atom(**d): return conc("atom_main", **d)
    B = [atom(MPN=11, VAL=1), atom(MPN=12, VAL=0), atom(MPN=13, VAL=1), atom(MPN=11, VAL=2), atom(MPN=0, VAL=1), atom(MPN=13, VAL=2)]
    if s.tier == "thorough":
        B += [atom(MPN=3, VAL=1), atom(MPN=4, VAL=0), atom(MPN=12, VAL=2), atom(MPN=13, VAL=0), atom(MPN=11, VAL=1, opt="-O2")]
    s.compile_all(B)
    jobs, n = [], 81
    for i, b in enumerate(B):
        d1 = ["--mode", "dfs", "--menu", 1, "--scenarios", n, "--execs", 60, "--bound", 2]
        jobs += conc_jobs(s, [b], [(d1, ["ops"] if b.defs["VAL"] == 2 else ["hb", "ops"])], "HBTrace", "AtomTrace", 100 * i)
        for q in range(quick(s, 1, 8)):
            at = (s.seed * 2477 + 613 * q + 97 * i) * n % (n * n)
            d2 = ["--mode", "dfs", "--menu", 2, "--from", at, "--scenarios", quick(s, 40, 200), "--execs", quick(s, 60, 300), "--bound", quick(s, 2, 3)]
            rnd = ["--mode", "random", "--scenarios", 30, "--execs", 40, "--len", 5]
            three = ["--mode", "random", "--scenarios", 20, "--execs", 30, "--len", 4, "--threads", 3]
            four = ["--mode", "random", "--scenarios", 10, "--execs", 30, "--len", 3, "--threads", 4]
            k = 1000 * q + 100 * i + 10
            jobs += conc_jobs(s, [b], [(a, ["ops"]) for a in (d2, rnd, three, four)], "HBTrace", "AtomTrace", k)
            jobs += conc_jobs(s, [b], [(["--mode", "random", "--scenarios", 12, "--execs", 20, "--len", 4, "--threads", 3], ["hb"])], "HBTrace", "AtomTrace", k + 50)
    s.run_jobs(jobs)
    return "model_checking", ASSUME + ["executions are interleavings at synchronisation, one thread at a time, as for C11"]


def C13(s):
    """heaps put together from every adaptor, calls recorded between the levels: every interleaving
    of short programs up to a number of preemptions, random schedules of longer ones, threads
    ending; the lock-free list itself as a model of its atomic steps, checked exhaustively"""
    def heap(**d): return conc("heap_main", **d)
    H = {c: heap(CFG=c) for c in range(1, 10)}
    B = list(H.values())
    if s.tier == "thorough":
        B += [heap(CFG=1, LIMIT=1), heap(CFG=2, LIMIT=1), heap(CFG=4, LIMIT=3), heap(CFG=5, LIMIT=1, opt="-O2"), heap(CFG=4, NDEBUG="")]
    s.compile_all(B)
    s.model_ok("FreeList", cfg=quick(s, "FreeList2", "FreeList"))
    if s.model("FreeList", cfg="FreeListOld")["ok"]:
        raise ToolError("FreeList does not tell the careless list from the careful one")
    jobs = []
    for i, b in enumerate(B):
        alone, shared = b.defs["CFG"] in (3, 6), b.defs["CFG"] in (1, 4, 5, 9)
        for q in range(quick(s, 1, 8)):
            k = 1000 * q + 50 * i
            V = [(["--mode", "random", "--scenarios", 20, "--execs", 4 if alone else 30, "--len", 7], ["hb", "ops"]),
                 (["--mode", "random", "--scenarios", 40, "--execs", 3 if alone else 5, "--len", 8], ["ops"])]
            if shared:
                V += [(["--mode", "dfs", "--menu", 3, "--scenarios", 40, "--execs", quick(s, 100, 500), "--bound", quick(s, 2, 3)], ["ops"]),
                      (["--mode", "dfs", "--menu", 2, "--scenarios", 20, "--execs", quick(s, 100, 500), "--bound", 3], ["hb"]),
                      (["--mode", "random", "--scenarios", 20, "--execs", 20, "--len", 6, "--threads", 3], ["hb", "ops"]),
                      (["--mode", "random", "--scenarios", 20, "--execs", 20, "--len", 5, "--threads", 4], ["ops"])]
            jobs += conc_jobs(s, [b], V, "HBTrace", "HeapTrace", k)
    s.run_jobs(jobs)
    return "model_checking", ASSUME + ["executions are interleavings at synchronisation, one thread at a time, as for C11"]


def box(MPN=0, EL=0, asan=False, **kw):
    if kw.pop("ndebug", False):
        kw["NDEBUG"] = ""
    return Build("box_main", asan=asan, gc=MPN == 2, MPN=MPN, EL=EL, **kw)


def C15(s):
    """histories of boxes and boxes of boxes, with and without failing steps"""
    B = [box(0, 0), box(1, 2, True), box(2, 4), box(3, 7, True), box(5, 1, ndebug=True), box(9, 1), box(10, 2)]
    L = [box(6, 1, True), box(7, 7), box(8, 1, ndebug=True), box(6, 7)]
    s.compile_all(B + L)
    jobs = []
    for q in range(quick(s, 2, 20)):
        for i, b in enumerate(B + L):
            a = ["--seed", s.seed * 1000 + 17 * q + i, "--runs", 20, "--len", 300]
            jobs.append(dict(build=b, spec="BoxTrace", args=a))
        for i, b in enumerate(L):
            a = ["--seed", s.seed * 1000 + 500 + 17 * q + i, "--runs", 12, "--len", 250, "--life", 1]
            jobs.append(dict(build=b, spec="BoxLife", args=a, replay_args=["--life", 1]))
            a = ["--seed", s.seed * 1000 + 700 + 17 * q + i, "--runs", 12, "--len", 250, "--life", 1, "--faults", 70, "--fault-mask", 15]
            jobs.append(dict(build=b, spec="BoxLife", args=a, replay_args=["--life", 1, "--faults", 100, "--fault-mask", 15]))
    s.run_jobs(jobs)
    return "model_checking", ASSUME


def C17(s):
    """histories in which, now and then, all values but one are dropped and what is left in use is counted"""
    S = [seq(2, 1, 7, 7), seq(3, 1, 6, 1), seq(2, 2, 8, 7, ndebug=True), seq(2, 0, 6, 7)]
    A_ = [assoc(2, 7, 2, 2), assoc(3, 6, 3, 3), assoc(5, 8, 2, 3, ndebug=True), assoc(4, 6, 3, 2)]
    if s.tier == "thorough":
        S += [seq(4, 1, 7, 1), seq(None, None, 6, 7), seq(3, 3, 8, 1)]
        A_ += [assoc(6, 7, 3, 3), assoc(5, 6, 2, 2)]
    s.compile_all(S + A_)
    jobs, k = [], 4000
    for q in range(quick(s, 1, 12)):
        for b in S:
            for p, mx in (("mixed", 300), ("vector", 300), ("flex", 300), ("trans", 300), ("array", 100), ("move", 300), ("vector", 1500)):
                k += 1
                jobs.append(dict(build=b, spec="SeqSpace", replay_args=["--space", 1],
                                 args=["--space", 1, "--seed", s.seed * 1000 + k, "--runs", 16 if mx < 1000 else 6,
                                       "--len", 400, "--profile", p, "--max", mx]))
        for b in A_:
            for p in ("mixed", "set", "map", "table", "trans", "move"):
                k += 1
                jobs.append(dict(build=b, spec="AssocSpace", replay_args=["--space", 1],
                                 args=["--space", 1, "--seed", s.seed * 1000 + k, "--runs", 20, "--len", 300, "--profile", p]))
    s.run_jobs(jobs)
    return "model_checking", ASSUME
