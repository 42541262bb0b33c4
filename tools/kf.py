#!/usr/bin/env python3
"""kf.py fixed CXX[,CYY] 'what failed'   - records the last /repo commit
kf.py finding CXX key 'what' 'example'"""
import json
import subprocess
import sys
p = "/verif/known_findings.json"
d = json.load(open(p))
if sys.argv[1] == "fixed":
    c = sys.argv[4] if len(sys.argv) > 4 else subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", "HEAD"], text=True).strip()
    for prop in sys.argv[2].split(","):
        d["fixed"].append("fixed: property=%s %s %s" % (prop, c, sys.argv[3]))
else:
    d["findings"].append({"property": sys.argv[2], "key": sys.argv[3], "what": sys.argv[4], "example": sys.argv[5] if len(sys.argv) > 5 else ""})
json.dump(d, open(p, "w"), indent=1, ensure_ascii=True)
open(p, "a").write("\n")
