#!/usr/bin/env python3
"""Development aid: run the sequence driver over many configurations and report rejections."""
import sys
from vlib import *
import campaigns as C
s = Session("SWEEP", "quick", int(sys.argv[1]) if len(sys.argv) > 1 else 1)
builds = [C.seq(3, 1, 3, 1, True), C.seq(2, 0, 6, 1, True), C.seq(2, 1, 7, 2, True), C.seq(3, 1, 3, 7, True), C.seq(2, 2, 6, 7), C.seq(3, 3, 8, 1, True),
          C.seq(2, 3, 10, 4, True), C.seq(5, 1, 5, 3), C.seq(None, None, 0, 0, True), C.seq(3, 2, 2, 0),
          C.seq(3, 0, 1, 5), C.seq(4, 1, 9, 0), C.seq(5, 2, 4, 6, True), C.seq(2, 2, 0, 1, True)]
s.compile_all(builds)
s.run_jobs(C.seq_jobs(s, builds, ["mixed", "persist", "trans", "move", "trav", "flex", "eq", "vector", "array"], 12, 300, 300))
print(s.ops)
print(finish(s, "model_checking", []))
