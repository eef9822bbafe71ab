#!/usr/bin/env python3
import sys
from vlib import *
import campaigns as C
s = Session("SWEEPAL", "quick", int(sys.argv[1]) if len(sys.argv) > 1 else 1)
F = int(sys.argv[2]) if len(sys.argv) > 2 else 0
A = C.assoc
builds = [A(3, 6, 3, 3, True), A(2, 7, 2, 2), A(5, 8, 3, 3, True), A(2, 6, 0, 3), A(4, 7, 2, 3), A(2, 8, 3, 2, True), A(3, 6, 3, 0), A(2, 8, 2, 2, True)]
s.compile_all(builds)
s.run_jobs(C.life_jobs(s, builds, ["mixed", "set", "map", "table", "trans", "move"], 6 if F else 12, 100 if F else 300, 150, F, spec="AssocLife"))
print(s.ops)
print(finish(s, "model_checking", []))
