#!/usr/bin/env python3
"""Driver: builds the harness of one property against /repo's working tree, runs it, writes
evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines. See DESIGN.md."""
import argparse, concurrent.futures, fcntl, hashlib, json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CRAB_REPO", "/repo")
H = os.path.join(V, "harness")
BUILD = os.path.join(V, "build")
REPLAYS = os.path.join(V, "replays")
CXX = "clang++-18"
CONF = json.load(open(os.path.join(H, "props.json")))
NCPU = min(8, os.cpu_count() or 4)
SAN = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "fuzz": ["-O1", "-g1", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all"],
}
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_abort=0",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=77", TSAN_OPTIONS="exitcode=77:halt_on_error=1:report_signal_unsafe=0")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]


def compile_obj(src, flags, key, outdir):
    obj = os.path.join(outdir, hashlib.sha256((src + key + " ".join(flags)).encode()).hexdigest()[:20] + ".o")
    if os.path.exists(obj):
        return obj, None
    with open(obj + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)  # the same object is wanted by several properties
        return compile_locked(src, flags, obj)


def compile_locked(src, flags, obj):
    if os.path.exists(obj):
        return obj, None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = sh([CXX, "-std=gnu++14", *flags, "-Wno-deprecated-declarations", "-DCRAB_COMPILE=1", "-I", os.path.join(REPO, "include"), "-I", H, "-c", src, "-o", tmp])
    if r.returncode:
        return None, r.stdout
    os.replace(tmp, obj)
    return obj, None


def build(pid, san=None, fuzz=False):
    """Returns path of the binary; raises on compile failure."""
    p = CONF["props"][pid]
    san = "fuzz" if fuzz else (san or p.get("san", "asan"))
    lib_key = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "src")])
    main_key = tree_hash([os.path.join(H, "pbt.hpp"), os.path.join(H, "pbt_main.cpp")])
    har_key = tree_hash([os.path.join(H, "pbt.hpp"), os.path.join(H, "ref"), os.path.join(H, "props", p["src"])] +
                        [os.path.join(H, e) for e in p.get("extra", [])] + ([os.path.join(H, p["wrap"] + ".hpp")] if p.get("wrap") else []))
    conf_key = json.dumps([p, CONF["wraps"]], sort_keys=True)
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    bindir = os.path.join(BUILD, "bin")
    os.makedirs(bindir, exist_ok=True)
    exe = os.path.join(bindir, "%s-%s-%s" % (pid, san, hashlib.sha256((lib_key + har_key + main_key + conf_key).encode()).hexdigest()[:16]))
    with open(os.path.join(BUILD, "lock-" + pid + "-" + san), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        flags = SAN[san] + p.get("define", []) + p.get("flags", [])
        both = lib_key + har_key
        main_flags = list(flags)
        jobs = [(os.path.join(REPO, "src", "crab.cpp"), SAN[san] + p.get("define", []), lib_key),
                (os.path.join(H, "pbt_main.cpp"), main_flags + (["-DPBT_LIBFUZZER"] if fuzz else []), main_key),
                (os.path.join(H, "props", p["src"]), flags, both)]
        for e in p.get("extra", []):
            jobs.append((os.path.join(H, e), flags, both))
        objs = []
        outdir = os.path.join(BUILD, "obj")
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for obj, err in ex.map(lambda j: compile_obj(j[0], j[1], j[2], outdir), jobs):
                if err:
                    raise RuntimeError("compilation failed:\n" + err[-4000:])
                objs.append(obj)
        link = ["-fsanitize=fuzzer,address,undefined"] if fuzz else []
        wraps = ["-Wl,--wrap=" + w for w in CONF["wraps"].get(p.get("wrap", ""), [])]
        tmp = exe + ".tmp%d" % os.getpid()
        r = sh([CXX, *flags, *link, *objs, *wraps, "-lpthread", *p.get("libs", []), "-o", tmp])
        if r.returncode:
            raise RuntimeError("link failed:\n" + r.stdout[-4000:])
        os.replace(tmp, exe)
    return exe


def prune():
    """keep the build folder small: drop objects/binaries not used for a day"""
    for d in ("obj", "bin"):
        d = os.path.join(BUILD, d)
        if os.path.isdir(d):
            fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
            for f in fs[:-400]:
                try:
                    os.unlink(f)
                except OSError:
                    pass


def known(pid):
    kf = json.load(open(os.path.join(V, "known_findings.json")))
    return [k for k in kf["findings"] if k["property"] == pid]


def run_prop(pid, tier, seed):
    """A property is decided by its own harness build and by the builds listed under "also"."""
    t0 = time.time()
    parts = [pid] + CONF["props"][pid].get("also", [])
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    violations, notes, kf_lines, covs = [], [], [], {}
    for part in parts:
        covs[part] = run_part(part, pid, tier, seed, violations, notes, kf_lines)
        if violations:
            break
    cov = {"evaluations": sum(c["evaluations"] for c in covs.values()), "distinct_nontrivial": sum(c["distinct_nontrivial"] for c in covs.values())}
    for k, v in covs[pid].items():
        cov.setdefault(k, v)
    if len(covs) > 1:
        cov["nontrivial"] = sum(c["nontrivial"] for c in covs.values())
        cov["builds"] = {CONF["props"][k].get("build_note", CONF["props"][k].get("san", "asan")): {"evaluations": c["evaluations"], "distinct_nontrivial": c["distinct_nontrivial"],
                         "class_counts": c["class_counts"]} for k, c in covs.items()}
    if notes:
        cov["notes"] = notes
    p = CONF["props"][pid]
    evd = {"property": pid, "tier": tier, "seed": seed, "level": p.get("level", "exploration"), "coverage": cov,
           "assumptions": p.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    path = os.path.join(V, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evd, f, indent=1)
    os.replace(path + ".tmp", path)
    prune()
    for l in kf_lines:
        print(l)
    for n in notes:
        print("note:", n)
    print("%s %s: %d cases, %d distinct non-trivial, %.1fs" % (pid, tier, cov["evaluations"], cov["distinct_nontrivial"], evd["wall_s"]))
    if min(c["evaluations"] for c in covs.values()) == 0 and not violations:
        print("no cases ran")
        return 2
    if violations:
        violations.sort(key=lambda v: os.path.getsize(v[0]))
        rp, sig, msg = violations[0]
        print("  %s: %s" % (sig, msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def run_part(part, pid, tier, seed, violations, notes, kf_lines):
    p = CONF["props"][part]
    exe = build(part)
    rule = sh([exe, "--rule", "1"], env=ENV).stdout.strip()
    work = os.path.join(BUILD, "work-%s-%d" % (part, os.getpid()))
    os.makedirs(work, exist_ok=True)
    t = p[tier] if tier in p else p["quick"]
    cases, wall = t["cases"], t.get("wall", 400 if tier == "quick" else 3000)
    workers = p.get("workers", NCPU)
    # recorded findings
    for k in known(pid) if part == pid else []:
        if k["status"] == "known" and k.get("probe"):
            r = sh([exe, "--probe", k["probe"]], env=ENV)
            if r.returncode != 0 and "unknown probe" not in r.stdout:
                kf_lines.append("KNOWN-FINDING: property=%s %s (%s)" % (pid, k["what"], k["probe"]))
    procs = []
    stop = os.path.join(work, "stop")
    for i in range(workers):
        out = os.path.join(work, "w%d.json" % i)
        cmd = [exe, "--seed", str(seed), "--start", str(i), "--stride", str(workers), "--cases", str(cases), "--wall", str(wall),
               "--out", out, "--replay-dir", REPLAYS, "--stop-file", stop, "--batch", str(t.get("batch", p.get("batch", 0)))]
        for o in ("cpu-limit", "wall-limit"):
            if o in p:
                cmd += ["--" + o, str(p[o])]
        log = open(os.path.join(work, "w%d.log" % i), "w")
        procs.append((subprocess.Popen(cmd, env=ENV, stdout=log, stderr=log), out))
    hard = time.time() + wall + 240
    ev, nontriv, classes, samples, hashes, early, unrep = 0, 0, {}, [], set(), False, 0
    while any(pr.poll() is None for pr, _ in procs):
        if time.time() > hard:
            for pr, _ in procs:
                pr.kill()
            notes.append("workers killed at hard limit")
        if any(pr.poll() == 1 for pr, _ in procs) and not os.path.exists(stop):
            open(stop, "w").close()  # one confirmed failure is enough
        time.sleep(0.05)
    for pr, out in procs:
        try:
            d = json.load(open(out))
        except Exception as e:
            notes.append("worker output missing: %s" % e)
            continue
        ev += d["evaluations"]
        nontriv += d["nontrivial"]
        early |= d["stopped_early"]
        unrep += d["unreproduced"]
        if d["unreproduced"]:
            notes.append("did not reproduce alone (not reported): " + d["unreproduced_msg"])
        for c, n in d["classes"].items():
            classes[c] = classes.get(c, 0) + n
        samples += d["samples"][:2]
        hb = open(out + ".hash", "rb").read()
        hashes.update(hb[i:i + 8] for i in range(0, len(hb), 8))
        if d["failed"]:
            if d["confirmed"]:
                violations.append((d["replay"], d["sig"], d["msg"]))
            else:
                notes.append("unconfirmed failure: %s %s" % (d["sig"], d["msg"]))
    fuzz_info = None
    if not violations and tier == "thorough" and p.get("fuzz"):
        fuzz_info, v = run_fuzz(part, exe, seed, p["fuzz"], work)
        violations += v
    cov = {"evaluations": ev, "distinct_nontrivial": len(hashes), "nontrivial": nontriv, "rule": rule, "samples": samples[:8],
           "class_counts": dict(sorted(classes.items())), "stopped_early": early}
    if fuzz_info:
        cov["coverage_guided"] = fuzz_info
    shutil.rmtree(work, ignore_errors=True)
    return cov


def run_fuzz(pid, exe, seed, fz, work):
    fexe = build(pid, fuzz=True)
    corpus = os.path.join(work, "corpus")
    os.makedirs(corpus, exist_ok=True)
    secs = fz.get("seconds", 300)
    r = sh([fexe, corpus, "-seed=%d" % max(1, seed), "-max_total_time=%d" % secs, "-jobs=%d" % NCPU, "-workers=%d" % NCPU, "-max_len=%d" % fz.get("max_len", 2048),
            "-artifact_prefix=" + work + "/", "-print_final_stats=1", "-timeout=60"], env=ENV, cwd=work)
    execs = 0
    for f in os.listdir(work):
        if f.startswith("fuzz-") and f.endswith(".log"):
            for l in open(os.path.join(work, f), errors="replace"):
                if l.startswith("stat::number_of_executed_units:"):
                    execs += int(l.split()[-1])
    viol = []
    for f in sorted(os.listdir(work)):
        if f.startswith(("crash-", "timeout-", "oom-")):
            r = sh([exe, "--bytes", os.path.join(work, f), "--replay-dir", REPLAYS], env=ENV)
            if r.returncode == 1:
                rp = r.stdout.strip().splitlines()[-1]
                viol.append((rp, "coverage-guided", open(rp).read()[:1500]))
    return {"executions": execs, "corpus_files": len(os.listdir(corpus)), "seconds": secs}, viol


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true", help="only build (all when no id)")
    a = ap.parse_args()
    if a.build:
        ids = a.ids or list(CONF["props"])
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            list(ex.map(build, ids))
        return 0
    if a.replay:
        rc = 0
        for part in [a.ids[0]] + CONF["props"][a.ids[0]].get("also", []):
            rc |= 1 if subprocess.run([build(part), "--replay", a.replay], env=ENV).returncode else 0
        return rc
    rc = 0
    for pid in a.ids:
        try:
            rc = max(rc, run_prop(pid, a.tier, a.seed))
        except RuntimeError as e:
            print("error:", e)
            return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
