#!/usr/bin/env python3
"""mkseed.py spec.json : builds seeded/<id>/ from {"id","property","needs","breaks","edits":[[file,old,new],...],"demo":"demo.cpp text"}
and confirms in a scratch copy that the demo passes without and fails with the patch (authoring helper)."""
import json, sys, os, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: behaviour is right, 1: broken. cwd is the repository
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 3
g++ -std=c++11 -O1 -g %s -DCRAB_COMPILE=1 -I"$PWD/include" "$here/demo.cpp" "$PWD/src/crab.cpp" -lpthread -o "$t/demo" || { rm -rf "$t"; exit 3; }
timeout 120 "$t/demo"
rc=$?
rm -rf "$t"
[ $rc -eq 0 ]
'''
for f in sys.argv[1:]:
    s = {}
    exec(open(f).read(), s)
    d = V + "/seeded/" + s["ID"]
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C " + w, shell=True)
    subprocess.check_call("git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", shell=True, cwd=w)
    open(d + "/demo.cpp", "w").write(s["DEMO"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(SH % s.get("FLAGS", ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    a = subprocess.run(["bash", d + "/demo.sh"], cwd=w).returncode
    for fn, old, new in s["EDITS"]:
        p = w + "/include/crab/" + fn
        t = open(p).read()
        assert t.count(old) == 1, (fn, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE).stdout
    open(d + "/patch.diff", "wb").write(diff)
    b = subprocess.run(["bash", d + "/demo.sh"], cwd=w).returncode
    print(s["ID"], "clean rc", a, "patched rc", b, "OK" if a == 0 and b == 1 else "BAD")
    shutil.rmtree(w)
