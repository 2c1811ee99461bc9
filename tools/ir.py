#!/usr/bin/env python3
# ir.py CXX harness.cc -> builds the program of a harness and prints its path (for looking at single instances)
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
check.need_engine(); os.makedirs("/tmp/ir", exist_ok=True)
for f in os.listdir("/tmp/ir"): os.unlink("/tmp/ir/" + f)
for i in check.PROPS[sys.argv[1]]["instances"]:
    if len(sys.argv) < 3 or i["u"]["h"] == sys.argv[2]: print(check.Builder("/tmp/ir").ir(i["u"])); break
os._exit(0)
