"""Builds drivers against /repo, runs them, and has TLC judge what they did.

Nothing in here knows what is right: a recorded history is accepted or rejected
by a TLA+ specification in /verif/spec.
"""
import concurrent.futures as cf
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drv")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, os.cpu_count() or 2)


class ToolError(Exception):
    pass


class Build:
    """One compilation of a driver in one configuration."""

    def __init__(self, drv, name=None, cxx="clang++", std="c++17", opt="-O0", asan=False, gc=False,
                 flags=(), libs=(), script=None, **defs):
        self.drv, self.cxx, self.std, self.opt = drv, cxx, std, opt
        self.asan, self.gc, self.flags, self.libs, self.defs = asan, gc, list(flags), list(libs), defs
        self.script = script
        d = "_".join(f"{k}{v}" if v != "" else k for k, v in sorted(defs.items()))
        self.name = name or f"{drv}-{cxx}{'-asan' if asan else ''}{'-gc' if gc else ''}-{d}"

    def cmd(self, out):
        c = [self.cxx, f"-std={self.std}", self.opt, "-w", "-I", REPO, "-I", DRV]
        c += [f"-D{k}={v}" if v != "" else f"-D{k}" for k, v in self.defs.items()]
        libs = list(self.libs)
        if self.asan:
            c += ["-fsanitize=address", "-fno-omit-frame-pointer", "-g1"]
        if self.gc:
            c += ["-DVT_GC", "-DIMMER_HAS_LIBGC=1"]
            libs += ["-lgc"]
        c += self.flags
        src = os.path.join(DRV, self.drv + ".cpp")
        if self.script:
            return ["bash", os.path.join(DRV, self.script), REPO, src, out, *c[1:]]
        return c + [src, "-o", out] + libs


class Session:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f"vt-{prop}-")
        self.bins, self.lock, self.building = {}, threading.Lock(), {}
        self.states = self.transitions = self.traces = self.lines = 0
        self.ops, self.samples, self.mc, self.notes = {}, [], [], []
        self.violations, self.tool_errors, self.extra = [], [], {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------- compile
    def compile(self, b):
        out = os.path.join(self.dir, "bin-" + b.name)
        for attempt in (1, 2):
            p = subprocess.run(b.cmd(out), capture_output=True, text=True)
            if p.returncode == 0:
                with self.lock:
                    self.bins[b.name] = out
                return out
            if "error:" in p.stderr and attempt == 2:
                break
        raise ToolError(f"cannot compile {b.name}: {' '.join(b.cmd(out))}\n{p.stderr[:3000]}")

    def compile_all(self, builds, wait=False):
        """starts compiling; a run waits for the driver it needs"""
        ex = cf.ThreadPoolExecutor(CORES)
        for b in builds:
            if b.name not in self.building:
                self.building[b.name] = ex.submit(self.compile, b)
        if wait:
            for f in self.building.values():
                f.result()
            self.log(f"compiled {len(self.building)} drivers")

    def binary(self, b):
        if b.name not in self.building:
            self.compile_all([b])
        return self.building[b.name].result()

    # ------------------------------------------------------------- drivers
    def execute(self, b, args, out, limit=180):
        """Runs a driver; a crash or a hang becomes part of what it recorded."""
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:"
                   "allocator_may_return_null=1:quarantine_size_mb=64", GC_INITIAL_HEAP_SIZE="16000000")
        err = out + ".err"
        why = None
        with open(out, "wb") as fo, open(err, "wb") as fe:
            p = subprocess.Popen([self.binary(b), *map(str, args)], stdout=fo, stderr=fe, env=env,
                                 start_new_session=True)
            rc, why = self.watch(p, out, limit)
            if why is None:
                if rc == -signal.SIGKILL:
                    raise ToolError("driver was killed from outside")
                if rc == 3:
                    raise ToolError("driver error: " + open(err).read()[-500:])
                if rc != 0:
                    why = "crash"
            elif why == "late":
                # a slow machine: what was recorded so far is judged
                self.log(f"{b.name}: stopped after {limit} s")
                with open(out, "rb+") as f:
                    f.truncate(f.read().rfind(b"\n") + 1)
                return None, ""
        detail = ""
        if why:
            txt = open(err, errors="replace").read()
            m = re.search(r"(ERROR: AddressSanitizer: \S+|terminate called.*|Assertion.*|vt: .*)", txt)
            detail = m.group(1) if m else f"exit status {rc}"
            with open(out, "rb") as f:
                data = f.read()
            cut = data.rfind(b"\n") + 1
            part = data[cut:].decode(errors="replace")
            if part and not self.parses(part + "}"):
                # cut inside the observation: keep the head of the line
                m = re.match(r'(\{"op":.*?"c":-?\d+)', part)
                part = m.group(1) if m else ""
            if not part:
                part = '{"op":"after"'
            tail = part + f',"{why}":{json.dumps(detail)},"end":0}}\n'
            with open(out, "wb") as f:
                f.write(data[:cut] + tail.encode())
        return why, detail

    IDLE_CPU, IDLE_WALL, MAX_RSS = 45, 150, 3 << 30

    def watch(self, p, out, limit):
        """waits for a driver; one that works or waits without recording anything hangs"""
        tick, page = os.sysconf("SC_CLK_TCK"), os.sysconf("SC_PAGE_SIZE")
        start = last = time.time()
        size, cpu0, idle, nap = (0, 0, 0), 0, 0, .02
        while True:
            try:
                return p.wait(nap), None
            except subprocess.TimeoutExpired:
                nap = min(1, 2 * nap)
            try:
                with open(f"/proc/{p.pid}/stat") as f:
                    v = f.read().rpartition(")")[2].split()
            except OSError:
                continue
            cpu, rss, now = (int(v[11]) + int(v[12])) / tick, int(v[21]) * page, time.time()
            n = os.path.getsize(out), v[13], v[14]          # (or a child that it started has ended)
            idle, last = idle + min(now - last, 2), now     # (a machine that was stopped does not count)
            if n != size:
                size, cpu0, idle = n, cpu, 0
            why = ("memory" if rss > self.MAX_RSS else
                   "hang" if cpu - cpu0 > self.IDLE_CPU or idle > self.IDLE_WALL else
                   "late" if now - start > limit and size[0] > 0 else None)
            if why:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return -1, why

    @staticmethod
    def parses(s):
        try:
            json.loads(s)
            return True
        except ValueError:
            return False

    # ----------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=1, mem="2g", limit=600, extra=()):
        """-> dict(ok, states, distinct, depth, violated, text)"""
        for attempt in (1, 2, 3):
            meta = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
            gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
            cmd = ["java", f"-Xmx{mem}", gc, "-Xss256m", f"-XX:TieredStopAtLevel={1 if workers == 1 else 4}",
                   "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
                   "-noGenerateSpecTE", "-metadir", meta, "-config",
                   os.path.join(SPEC, (cfg or module + ".cfg")), *extra,
                   os.path.join(SPEC, module + ".tla")]
            try:
                p = subprocess.run(cmd, capture_output=True, text=True, cwd=meta,
                                   env=dict(os.environ, **(env or {})), timeout=limit)
                rc, txt = p.returncode, p.stdout + p.stderr
            except subprocess.TimeoutExpired as ex:
                rc, txt = -9, "time limit"
            shutil.rmtree(meta, ignore_errors=True)
            r = dict(rc=rc, text=txt, ok=rc == 0 and "No error has been found" in txt,
                     states=0, distinct=0, depth=0, violated=None)
            m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
            if m:
                r["states"], r["distinct"] = (int(x.replace(",", "")) for x in m[-1])
            m = re.search(r"depth of the complete state graph search is (\d+)", txt)
            r["depth"] = int(m.group(1)) if m else max([int(x) for x in re.findall(r"State (\d+):", txt)] or [0])
            m = re.search(r"(Invariant \w+ is violated|Action property \w+ is violated|property .* violated|"
                          r"Temporal properties were violated|POSTCONDITION|Postcondition[^\n]*|Deadlock reached|"
                          r"Assumption [^\n]* is false)", txt)
            r["violated"] = m.group(1) if m else None
            # 12: safety violation, 13: liveness violation, 10: assumption false
            if r["ok"] or (rc in (10, 11, 12, 13) and r["violated"]):
                return r
            if rc in (12,) or "The postcondition" in txt.lower():
                return r
            if "StackOverflow" in txt or "OutOfMemory" in txt or rc in (-9, 137, 1, 255, 143):
                continue
            if "Evaluating" in txt or rc in (75, 76, 77):
                # an expression could not be evaluated: on a trace this means that
                # a line does not have the shape the specification asks for
                r["violated"] = "evaluation"
                return r
        raise ToolError(f"TLC failed on {module}: rc={rc}\n{txt[-3000:]}")

    def model(self, module, cfg=None, workers=None, mem="6g", limit=3000, expect=None, **kw):
        """A model-checking run that must succeed (or fail with `expect`)."""
        t = time.time()
        r = self.tlc(module, cfg, workers=workers or CORES, mem=mem, limit=limit, **kw)
        with self.lock:
            self.states += r["distinct"]
            self.transitions += r["states"]
        name = cfg or module
        self.mc.append(dict(model=name, states=r["distinct"], transitions=r["states"],
                            depth=r["depth"], seconds=round(time.time() - t, 1), ok=r["ok"]))
        self.log(f"TLC {name}: {r['states']} states generated, {r['distinct']} distinct, ok={r['ok']}")
        return r

    def model_ok(self, module, cfg=None, **kw):
        r = self.model(module, cfg, **kw)
        if not r["ok"]:
            # a specification that fails its own properties says nothing about the code
            raise ToolError(f"specification {cfg or module} fails: {r['text'][-3000:]}")
        return r

    def generate(self, module, parts, chunks=None, frac=1.0, **env):
        """Behaviours enumerated by TLC from a generator specification, as replay files.
        Every part becomes at most `chunks` files; -> list of paths."""
        def one(part):
            out = tempfile.mktemp(prefix=f"plans-{part}-", suffix=".ndjson", dir=self.dir)
            e = {k: str(v) for k, v in env.items()}
            e.update(PART=part, OUT=out)
            r = self.tlc(module, env=e, mem="3g")
            if not r["ok"]:
                raise ToolError(f"{module} {part}: {r['text'][-2000:]}")
            plans = [json.loads(x) for x in open(out)]
            os.unlink(out)
            fr = frac.get(part, 1) if isinstance(frac, dict) else frac
            if fr < 1:
                rnd = random.Random(f"{self.seed} {module} {part} {e.get('LEAF', '')} {e.get('FAM', '')}")
                plans = [p for p in plans if rnd.random() < fr]
            return part, plans
        with cf.ThreadPoolExecutor(CORES) as ex:
            got = list(ex.map(one, parts))
        files = []
        total = 0
        if True:
            plans = [p for _, ps in got for p in ps]
            total = sum(len(p) for p in plans)
            k = max(1, min(chunks or CORES, total // 8000 + 1))
            bins = [[0, []] for _ in range(k)]
            for p in sorted(plans, key=len, reverse=True):  # even loads
                b = min(bins, key=lambda x: x[0])
                b[0] += len(p)
                b[1].append(p)
            for i, (m, ps) in enumerate(bins):
                if not ps:
                    continue
                f = os.path.join(self.dir, f"plan-{module}-{len(files)}-{len(os.listdir(self.dir))}.txt")
                with open(f, "w") as fo:
                    for p in ps:
                        if p and p[0][0] != "init":
                            fo.write("init\n")
                        for c in p:
                            fo.write(" ".join(map(str, c)) + "\n")
                files.append(f)
        with self.lock:
            self.extra.setdefault("generated_behaviours", {})
            g = self.extra["generated_behaviours"]
            for part, plans in got:
                g[f"{module}/{part}"] = g.get(f"{module}/{part}", 0) + len(plans)
            self.extra["generated_operations"] = self.extra.get("generated_operations", 0) + total
        self.log(f"{module}: {sum(len(p) for _, p in got)} behaviours, {total} operations generated")
        return files

    # ---------------------------------------------------------- validation
    def validate(self, module, trace, cfg=None):
        """-> None if accepted, else index (from 0) of the first line not accepted"""
        n = sum(1 for _ in open(trace))
        if n == 0:
            raise ToolError("empty trace")
        r = self.tlc(module, cfg, env={"TRACE": trace})
        with self.lock:
            self.states += r["distinct"]
            self.transitions += r["states"]
        if r["ok"]:
            return None, ""
        return max(0, r["depth"] - 1), r["violated"] or "not a step of the specification"

    def count(self, trace):
        ops = {}
        n = 0
        with open(trace) as f:
            for line in f:
                n += 1
                m = re.match(r'\{"op":"(\w+)"', line)
                if m:
                    ops[m.group(1)] = ops.get(m.group(1), 0) + 1
        with self.lock:
            self.traces += 1
            self.lines += n
            for k, v in ops.items():
                self.ops[k] = self.ops.get(k, 0) + v
        return n

    def job(self, j):
        """j: dict(build, args, spec, fields, check=callable) -- one run of a driver and its judgement"""
        b, args, spec = j["build"], j["args"], j["spec"]
        trace = tempfile.mktemp(prefix="trace-", suffix=".ndjson", dir=self.dir)
        t0 = time.time()
        why, detail = self.execute(b, args, trace, j.get("limit", 180))
        t1 = time.time()
        bad, reason = self.validate(spec, trace, j.get("cfg"))
        if time.time() - t0 > 90:
            self.log(f"{b.name} {' '.join(map(str, args))}: {t1 - t0:.0f} s to run, {time.time() - t1:.0f} s to judge")
        self.count(trace)
        with self.lock:
            if len(self.samples) < 6:
                with open(trace) as f:
                    ls = f.readlines()[:400]
                k = min(len(ls) - 1, 7 + 3 * len(self.samples))
                self.samples.append(dict(driver=b.name, args=" ".join(map(str, args)), line=ls[k].strip()[:600]))
        if bad is not None:
            self.report(j, trace, bad, reason)
        for p in (trace, trace + ".err"):
            if os.path.exists(p):
                os.unlink(p)

    def report(self, j, trace, bad, reason):
        """A rejected history: confirm it on the real code, then record it."""
        b = j["build"]
        lines = open(trace).readlines()
        bad = min(bad, len(lines) - 1)
        line = lines[bad]
        start = bad
        while start > 0 and '"op":"init"' not in lines[start]:
            start -= 1
        cmds = []
        for k, t in enumerate(lines[start:bad + 1]):
            if '"thrown":1' in t and k < bad - start:
                continue
            c = to_cmd(t, j.get("fields", FIELDS))
            if c:
                cmds.append(c)
        confirmed, rline = False, line
        with self.lock:
            many = len(self.violations) >= 3
        if many:
            return
        script = tempfile.mktemp(prefix="replay-", suffix=".txt", dir=self.dir)
        open(script, "w").write("\n".join(cmds) + "\n")
        attempts = [(["--replay", script, *j.get("replay_args", [])], True), (j["args"], False), (j["args"], False)]
        used = None
        for args, is_script in attempts:
            t2 = tempfile.mktemp(prefix="again-", suffix=".ndjson", dir=self.dir)
            try:
                self.execute(b, args, t2, min(150, j.get("limit", 180)))
                if os.path.getsize(t2) == 0:
                    continue
                bad2, reason2 = self.validate(j["spec"], t2, j.get("cfg"))
            except ToolError as ex:
                self.log("confirmation run failed:", str(ex)[:200])
                continue
            if bad2 is not None:
                confirmed, used = True, (args, is_script)
                ls = open(t2).readlines()
                rline = ls[min(bad2, len(ls) - 1)]
                reason = reason2
                break
        if not confirmed:
            with self.lock:
                self.tool_errors.append(f"rejection not reproduced: {b.name} {j['args']} line {bad}: {line[:300]}")
            return
        with self.lock:
            k = len(self.violations) + 1
            out = os.path.join(VERIF, "out", self.prop)
            os.makedirs(out, exist_ok=True)
            base = os.path.join(out, f"v{k}")
            shutil.copy(script, base + ".replay")
            with open(base + ".line", "w") as f:
                f.write(rline)
            rep = base + ".sh"
            with open(rep, "w") as f:
                f.write("#!/bin/bash\n# Rebuilds the driver, runs the failing history again and lets TLC judge it.\n")
                f.write(f"# rejected: {reason}\n# {rline.strip()[:2000]}\n")
                args = (["--replay", base + ".replay", *j.get("replay_args", [])] if used[1] else j["args"])
                f.write("set -e\nD=$(mktemp -d)\n")
                f.write(" ".join(shq(x) for x in b.cmd("@")).replace("@", '"$D/drv"') + "\n")
                f.write(f'"$D/drv" {" ".join(shq(str(a)) for a in args)} > "$D/trace" || echo "driver exit $?"\n')
                f.write('tail -1 "$D/trace"\n')
                f.write(f'cd "$D" && TRACE="$D/trace" java -Xss256m -cp {JARS} tlc2.TLC -noGenerateSpecTE -metadir "$D/m" '
                        f'-config {SPEC}/{j.get("cfg") or j["spec"] + ".cfg"} {SPEC}/{j["spec"]}.tla | tail -30\n')
                f.write('rm -rf "$D"\n')
            self.violations.append(dict(replay=rep, build=b.name, line=rline.strip()[:1500], reason=reason))
            self.log("REJECTED", b.name, reason, rline.strip()[:400])

    def run_jobs(self, jobs, par=None):
        stop = threading.Event()

        def one(j):
            if stop.is_set():
                return
            try:
                self.job(j)
            except ToolError as ex:
                with self.lock:
                    self.tool_errors.append(str(ex))
            if len(self.violations) >= 3:
                stop.set()
        with cf.ThreadPoolExecutor(par or CORES) as ex:
            list(ex.map(one, jobs))
        self.log(f"{len(jobs)} runs judged, {self.lines} lines in total, {len(self.violations)} rejected")


FIELDS = ["op", "d", "s", "e", "m", "a", "b", "c"]


def to_cmd(line, fields):
    try:
        o = json.loads(line)
    except ValueError:
        return None
    if "cmd" in o:
        return o["cmd"]
    if o.get("op") == "after":
        return None
    if o.get("op") == "init" and any(f not in o for f in fields):
        return "init"
    try:
        return " ".join(str(o[f]) for f in fields) + "".join(f" {x}" for x in o.get("jumps", []))
    except KeyError:
        return None


def shq(s):
    return s if re.fullmatch(r"[\w@%+=:,./-]+", s) else "'" + s.replace("'", "'\\''") + "'"


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(p):
        for f in json.load(open(p)):
            if f["property"] == prop and f["status"] == "open":
                out.append(f)
    return out


def finish(s, level, assumptions, extra=None):
    cov = dict(states=s.states, transitions=s.transitions, traces_validated_against_impl=s.traces,
               trace_lines=s.lines, operations=dict(sorted(s.ops.items())), samples=s.samples,
               models=s.mc)
    cov.update(s.extra)
    cov.update(extra or {})
    ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level=level, coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - s.t0, 1), violations=len(s.violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", s.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f in known_findings(s.prop):
        print(f"KNOWN-FINDING: property={s.prop} {f['what']}")
    for e in s.tool_errors:
        print("TOOL-ERROR:", e)
    for v in s.violations:
        print(f"VIOLATION property={s.prop} replay={v['replay']}")
    s.close()
    if s.violations:
        return 1
    return 2 if s.tool_errors else 0
