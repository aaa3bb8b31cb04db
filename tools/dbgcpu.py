#!/usr/bin/env python3
"""Show the differences between a rejected processor run (a replay file) and the specification."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here + "/lib", here + "/checks"]
from vlib import *
line = [l for l in open(sys.argv[1]) if l.startswith("run: ")][0][5:]
p = scratch() + "/dbg.nd"
open(p, "w").write(line)
run_ = json.loads(line)
mm = {a + i: x for a, b in run_[0]["m"] for i, x in enumerate(b)}
ia = mm[6] * 256 + mm[7]
print("psw", bytes(mm.get(i, 0) for i in range(8)).hex(), "code", bytes(mm.get(ia + i, 0) for i in range(24)).hex(), "size", run_[0]["size"], "float" if run_[0]["fl"] else "")
print("r", [bytes(x).hex() for x in run_[0]["r"]])
print("m", [(hex(a), bytes(b).hex()[:100]) for a, b in run_[0]["m"] if a >= 0x100])
print("end m", [(hex(a), bytes(b).hex()[:100]) for a, b in run_[1]["m"]])
r = tlc(sys.argv[2] if len(sys.argv) > 2 else "TraceCpu", None, env={"TRACE": p, "LENIENT": "1"})
for m in re.finditer(r'<<\s*"MIS",\s*(\d+),(.*?)\n(?=<<|\S)', r.out, re.S):
    print("[n, code, spec]", " ".join(m.group(2).split())[:1500])
