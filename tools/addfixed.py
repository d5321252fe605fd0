#!/usr/bin/env python3
"""tools/addfixed.py C13 <commit> <what failed> - records a repaired defect (authoring helper)"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
pid, commit, what = sys.argv[1], sys.argv[2], " ".join(sys.argv[3:])
d["findings"].append({"property": pid, "status": "fixed", "commit": commit, "what": "fixed: property=%s %s %s" % (pid, commit, what)})
with open(p, "w") as f:
    f.write('{"findings": [\n' + ",\n".join(" " + json.dumps(x) for x in d["findings"]) + "\n]}\n")
