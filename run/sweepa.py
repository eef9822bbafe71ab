#!/usr/bin/env python3
import sys
from vlib import *
import campaigns as C
s = Session("SWEEPA", "quick", int(sys.argv[1]) if len(sys.argv) > 1 else 1)
A = C.assoc
builds = [A(5, 0, 0, 0, True), A(3, 3, 2, 3, True), A(2, 6, 3, 3, True), A(2, 0, 1, 1, True), A(4, 5, 0, 3, True), A(3, 2, 2, 1),
          A(5, 1, 0, 1), A(6, 7, 1, 0, True), A(2, 9, 0, 0, True), A(5, 10, 3, 2, True), A(3, 8, 1, 2), A(2, 2, 0, 0)]
s.compile_all(builds)
s.run_jobs(C.assoc_jobs(s, builds, ["mixed", "set", "map", "table", "persist", "trans", "move", "diff", "eq"], 12, 300))
print(s.ops)
print(finish(s, "model_checking", []))
