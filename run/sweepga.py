#!/usr/bin/env python3
import sys
from vlib import *
import campaigns as C
s = Session("SWEEPGA", "quick", 1)
bs = [C.assoc(2, 3, 0, 3, True), C.assoc(5, 0, 1, 0)]
s.compile_all(bs)
fs = s.generate("AssocGen", sys.argv[1].split(","), U=int(sys.argv[2]), NH=int(sys.argv[3]), FAM=int(sys.argv[4]), NV=2)
s.run_jobs(C.plan_jobs(s, bs, fs, "AssocTrace"))
print(s.ops)
print(finish(s, "model_checking", []))
