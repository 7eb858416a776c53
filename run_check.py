#!/usr/bin/env python3
"""Builds the library from /repo's working tree and runs the generated-input search of one property.

usage: run_check.py C01 [--tier quick|thorough] [--secs N] [--seed N] [--replay FILE] [--build-only]
exit 0: the property held on everything explored; exit 1: a violation was found (line VIOLATION ...).
"""
import argparse, concurrent.futures, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
import checks as CK

CORES = os.cpu_count() or 4
BASE = ["-fPIC", "-DLINUX", "-D__USE_LONG_INTEGERS__", "-D__USE_LONG_FINTS__", "-DSOLVER_NONE", "-D__NO_COPYRIGHT__", "-w"]
FLAVORS = {
    "san": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
            "-fno-sanitize=nonnull-attribute,returns-nonnull-attribute,vptr"],
    "fast": ["-O2", "-g1"],
}
SRC_EXCLUDE = {"MatMatrixHeader.cpp"}


def sha(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()[:20]


def files(d, exts):
    out = []
    for r, _, fs in os.walk(d):
        out += [os.path.join(r, f) for f in fs if f.endswith(exts)]
    return sorted(out)


def run(cmd, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd)
    return p.returncode, p.stdout


def build(ck):
    """returns path of the driver binary"""
    flavor = ck.get("flavor", "san")
    cxx = "g++"
    flags = BASE + FLAVORS[flavor]
    inc = ["-I", REPO + "/include", "-I", REPO + "/src"]
    headers = files(REPO + "/include", (".hpp", ".ipp", ".h")) + files(REPO + "/src", (".hpp", ".ipp", ".h"))
    hkey = sha(headers, " ".join([cxx] + flags))
    os.makedirs(BUILD, exist_ok=True)
    jobs, objs = [], []
    def add(src, extra_flags, deps, tag):
        k = sha([src] + deps, hkey + " ".join(extra_flags))
        o = os.path.join(BUILD, "%s-%s-%s.o" % (tag, os.path.basename(src).rsplit(".", 1)[0], k))
        objs.append(o)
        if not os.path.exists(o): jobs.append((src, extra_flags, o))
    for src in sorted(os.path.join(REPO, "src", f) for f in os.listdir(REPO + "/src") if f.endswith(".cpp")):
        add(src, [], [], "lib-" + flavor)
    wrap = REPO + "/interfaces/c"
    ht = [os.path.join(HERE, "harness", h) for h in sorted(os.listdir(HERE + "/harness")) if h.endswith(".hpp")]
    ht += files(wrap, (".h",)) + files(HERE + "/harness", (".h", ".inc"))
    for d in ck.get("deps", []): ht += files(REPO + "/" + d, (".cpp", ".hpp", ".h"))
    for s in ck["src"]:
        add(os.path.join(HERE, "harness", s), ["-std=c++17", "-I", HERE + "/harness", "-I", wrap], ht, "har-" + flavor)
    for s, fl in ck.get("extra", []):
        src = s.replace("{repo}", REPO)
        add(src, [f.replace("{repo}", REPO) for f in fl], files(REPO + "/src", (".cpp",)) + files(wrap, (".h", ".cpp")), "ext-" + flavor)
    def comp(j):
        src, ef, o = j
        tmp = o + ".%d.tmp" % os.getpid()
        rc, txt = run([cxx] + flags + ef + inc + ["-c", src, "-o", tmp])
        if rc == 0: os.replace(tmp, o)
        return rc, src, txt
    # longest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        for rc, src, txt in ex.map(comp, jobs):
            if rc: raise SystemExit("BUILD-ERROR compiling %s\n%s" % (src, txt[-4000:]))
    exe = os.path.join(BUILD, "%s-%s-%s" % (ck["id"], flavor, hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16]))
    if not os.path.exists(exe):
        rc, txt = run([cxx] + flags + objs + ["-o", exe + ".tmp"] + ck.get("libs", []))
        if rc: raise SystemExit("BUILD-ERROR linking\n%s" % txt[-4000:])
        os.replace(exe + ".tmp", exe)
    return exe


def load_known(pid):
    """known_findings.txt: 'finding: property=<id> key=<key> <what>' suppresses exactly that key"""
    ks = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                key, what = rest.split(" ", 1)
                ks[key[4:]] = what
    return ks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier"); ap.add_argument("--secs", type=float); ap.add_argument("--seed", type=int)
    ap.add_argument("--replay"); ap.add_argument("--build-only", action="store_true"); ap.add_argument("--only"); ap.add_argument("--workers", type=int, default=CORES)
    a = ap.parse_args()
    t0 = time.time()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    ck = CK.CHECKS[a.id]
    if "python" in ck:
        import importlib
        return importlib.import_module(ck["python"]).main(a, ck, tier, seed, t0, REPO, HERE)
    exe = build(ck)
    if a.build_only: return 0
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True); os.makedirs(HERE + "/evidence", exist_ok=True)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=1048576:malloc_fill_byte=%d:symbolize=1" % ck.get("fill", 255)
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=66"
    scratch = os.path.join("/tmp", "verif-%s-%d" % (a.id, os.getpid())); os.makedirs(scratch)
    env["VERIF_SCRATCH"] = scratch
    try:
        if a.replay:
            return subprocess.run([exe, "--prop", a.id, "--replay-dir", scratch, "--replay", os.path.abspath(a.replay)], env=env, cwd=scratch).returncode
        secs = a.secs or (ck.get("quick_secs", 35) if tier == "quick" else ck.get("thorough_secs", 600))
        known = load_known(a.id)
        out = os.path.join(scratch, "out.json")
        cmd = [exe, "--prop", a.id, "--seed", str(seed), "--secs", str(secs), "--workers", str(a.workers), "--out", out, "--replay-dir", scratch]
        if a.only: cmd += ["--only", a.only]
        for k in known: cmd += ["--known", k]
        tb = time.time()
        rc = subprocess.run(cmd, env=env, cwd=scratch).returncode
        if rc not in (0, 1) or not os.path.exists(out):
            print("ERROR: the driver ended with status %d" % rc); return 3
        r = json.load(open(out))
        for k, what in known.items():
            print("KNOWN-FINDING: property=%s %s" % (a.id, what))
        replay = ""
        if rc == 1:
            replay = os.path.join(rdir, os.path.basename(r["replay"])); shutil.copy(r["replay"], replay)
        cov = {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"], "rule": ck["rule"],
               "samples": r["samples"], "discarded": r["discarded"], "unreproducible_failures": r["unreproducible"],
               "cases_per_subproperty": r["subs"], "labels": r["labels"], "known_findings_hit": r["known"],
               "build_s": round(tb - t0, 1), "search_s": r["wall"]}
        ev = {"property": a.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": ck.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": 1 if rc == 1 else 0}
        with open(os.path.join(HERE, "evidence", a.id + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print("%s: %d cases, %d distinct non-trivial, %d discarded, %.0f s (build %.0f s)" % (a.id, r["evaluations"], r["distinct_nontrivial"], r["discarded"], time.time() - t0, tb - t0))
        for k, v in sorted(r["labels"].items()): print("   %-50s %d" % (k, v))
        if rc == 1:
            print("failed sub-property %s, key %s\n%s" % (r["fsub"], r["key"], r["msg"][:3000]))
            print("replay with: python3 /verif/run_check.py %s --replay %s" % (a.id, replay))
            print("VIOLATION property=%s replay=%s" % (a.id, replay))
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
