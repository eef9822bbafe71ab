#!/usr/bin/env python3
import sys
from vlib import *
import campaigns as C
s = Session("SWEEPL", "quick", int(sys.argv[1]) if len(sys.argv) > 1 else 1)
F = int(sys.argv[2]) if len(sys.argv) > 2 else 0
Q = C.seq
builds = [Q(3, 1, 6, 1, True), Q(2, 0, 6, 7, True), Q(2, 1, 7, 1, True), Q(3, 1, 8, 7, True), Q(2, 2, 6, 7, True), Q(3, 3, 8, 1, True),
          Q(2, 1, 7, 7, True), Q(None, None, 8, 1, True), Q(2, 2, 7, 1, True), Q(4, 1, 6, 7, True)]
s.compile_all(builds)
s.run_jobs(C.life_jobs(s, builds, ["mixed", "persist", "trans", "move", "flex", "vector", "array"], 8 if F else 16, 150 if F else 300, 150, F))
print(s.ops)
print(finish(s, "model_checking", []))
