#!/usr/bin/env python3
import sys
from vlib import *
import campaigns as C
s = Session("SWEEPM", "quick", int(sys.argv[1]) if len(sys.argv) > 1 else 1)
Q = C.seq
b = [Q(2, 1, 7, 1, True), Q(2, 0, 6, 1)]
a = [C.assoc(3, 6, 3, 3, True), C.assoc(2, 7, 2, 2)]
x = [C.box(6, 7)]
s.compile_all(b + a + x)
jobs = C.life_jobs(s, b, sys.argv[2].split(","), 8, 150, 150, 100) + C.life_jobs(s, a, sys.argv[2].split(",")[:4], 8, 150, faults=60, spec="AssocLife")
for j in jobs: j["args"] += ["--fault-mask", sys.argv[3]]; j["replay_args"] += ["--fault-mask", sys.argv[3]]
s.run_jobs(jobs)
print(s.ops)
print(finish(s, "model_checking", []))
