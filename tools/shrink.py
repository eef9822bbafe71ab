#!/usr/bin/env python3
"""shrink.py BIN REPLAY PYEXPR   -- ddmin of a replay script; PYEXPR judges (out, rc, err)."""
import subprocess, sys, json, tempfile
binp, rep, expr = sys.argv[1:4]
extra = sys.argv[4:]
ops = [l for l in open(rep) if l.strip()]
tmp = tempfile.mktemp()
def bad(ops):
    open(tmp, "w").writelines(ops)
    try:
        r = subprocess.run([binp, "--replay", tmp, *extra], capture_output=True, timeout=60)
    except subprocess.TimeoutExpired:
        return expr == "hang"
    return bool(eval(expr, dict(out=r.stdout.decode(errors="replace"), rc=r.returncode, err=r.stderr.decode(errors="replace"), json=json)))
assert bad(ops)
n = 2
while len(ops) > 1:
    ch = max(1, len(ops) // n)
    done = False
    for i in range(0, len(ops), ch):
        t = ops[:i] + ops[i + ch:]
        if t and t[0].startswith("init") and bad(t):
            ops = t; done = True; break
    if not done:
        if ch == 1: break
        n = min(n * 2, len(ops))
sys.stdout.writelines(ops)
