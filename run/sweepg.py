#!/usr/bin/env python3
import sys
from vlib import *
import campaigns as C
s = Session("SWEEPG", "quick", 1)
b = C.seq(2, 1, 3, 1)
s.compile_all([b])
parts = sys.argv[1].split(",")
fs = s.generate("SeqGen", parts, LEAF=2, BR=4, MAXN=int(sys.argv[2]), DEEP=0)
s.run_jobs(C.plan_jobs(s, [b], fs))
print(finish(s, "model_checking", []))
