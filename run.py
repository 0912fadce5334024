#!/usr/bin/env python3
"""run.py <property id> [--replay FILE] [--group NAME]
Decides one property: builds the needed instrumented variants from the current tree, executes the
workload groups of checks/<id>.py (in parallel processes), collects the verdicts of the monitors, writes
evidence/<id>.json; exit 0 = held on everything observed, 1 = violation, 2 = the check could not decide."""
import os, sys, json, time, subprocess, importlib, shutil, tempfile, signal, threading
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib")); sys.path.insert(0, os.path.join(V, "checks"))
sys.dont_write_bytecode = True
import vbuild
from concurrent.futures import ThreadPoolExecutor

def load_known(prop):
    out = {}
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out[d["key"]] = d
    return out

def main():
    args = sys.argv[1:]
    prop = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--group" in args: only = args[args.index("--group") + 1]
    if "--replay" in args:
        rp = json.load(open(args[args.index("--replay") + 1]))
        seed, tier, only = rp["seed"], rp["tier"], rp["group"]
    t0 = time.time()
    import importlib.util
    spec = importlib.util.spec_from_file_location(prop + "_meta", os.path.join(V, "checks", prop + ".py"))
    # the metadata is read without importing agama: modules define GROUPS lazily
    src = open(os.path.join(V, "checks", prop + ".py")).read()
    evdir = os.path.join(V, "evidence"); os.makedirs(evdir, exist_ok=True)
    rdir = os.path.join(evdir, "replay"); os.makedirs(rdir, exist_ok=True)
    os.environ["VERIF_META_ONLY"] = "1"
    mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
    del os.environ["VERIF_META_ONLY"]
    groups = {k: v for k, v in mod.GROUPS.items() if only is None or k == only}
    if tier == "quick":
        groups = {k: v for k, v in groups.items() if not v.get("thorough_only")}
    # ---- build
    built = {}
    try:
        for v in sorted(set(g.get("variant", "opt") for g in groups.values() if "fn" in g)):
            built[v] = vbuild.pymodule(v)[0]
        for g in groups.values():
            if "cpp" in g:
                k = (g.get("variant", "opt"), g["cpp"])
                if k not in built: built[k] = vbuild.cppharness(*k)[0]
    except vbuild.BuildError as e:
        print("ERROR: build failed:", str(e)[:4000])
        return 2
    tbuild = time.time() - t0
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        res = run_groups(prop, mod, groups, built, work, seed, tier)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return report(prop, mod, res, seed, tier, t0, tbuild, rdir, evdir, only)

def run_one(prop, name, g, built, work, seed, tier, attempt):
    out = os.path.join(work, "%s.%d.out" % (name, attempt))
    wd = os.path.join(work, "%s.%d.wd" % (name, attempt)); os.makedirs(wd)
    env = dict(os.environ, OMP_NUM_THREADS=str(g.get("threads", 1)), OPENBLAS_NUM_THREADS="1",
        OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", MPLBACKEND="Agg",
        MPLCONFIGDIR=wd, XDG_CACHE_HOME=wd, HOME=wd, PYTHONHASHSEED="0", TMPDIR=wd, VERIF_SCRATCH=wd, VERIF_SEED=str(seed), VERIF_TIER=tier)
    variant = g.get("variant", "opt")
    if variant == "san":
        env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:halt_on_error=1:allocator_may_return_null=1:"
            "detect_stack_use_after_return=0:log_path=" + out + ".asan" + ":max_allocation_size_mb=8192")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:log_path=" + out + ".asan" + ":exitcode=99"
        if "fn" in g:
            env["LD_PRELOAD"] = " ".join(subprocess.run(["gcc", "-print-file-name=" + l], capture_output=True, text=True).stdout.strip()
                for l in ("libasan.so", "libubsan.so")) + " " + subprocess.run(["gcc", "-print-file-name=libstdc++.so.6"], capture_output=True, text=True).stdout.strip()
            env["PYTHONMALLOC"] = "malloc"
    if variant == "tsan":
        env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:log_path=%s.tsan:suppressions=%s" % (
            out, os.path.join(V, "cpp", "tsan.supp"))
        if "fn" in g:
            env["LD_PRELOAD"] = " ".join(subprocess.run(["gcc", "-print-file-name=" + l], capture_output=True, text=True).stdout.strip()
                for l in ("libtsan.so",))
    env.update(g.get("env", {}))
    if "fn" in g:
        env["PYTHONPATH"] = built[variant]
        cmd = [sys.executable, os.path.join(V, "lib", "worker.py"), prop, name, str(seed), tier, out]
    else:
        cmd = [built[(variant, g["cpp"])], "--seed", str(seed), "--tier", tier, "--out", out] + list(g.get("args", []))
    tmo = g.get("timeout", 240) if tier == "quick" else g.get("timeout_thorough", 3000)
    t = time.time()
    log = open(out + ".log", "w")
    p = subprocess.Popen(cmd, cwd=wd, env=env, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
    timed = False
    try:
        rc = p.wait(timeout=tmo)
    except subprocess.TimeoutExpired:
        timed = True
        rc = None
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass
    p.wait()
    log.close()
    rec = dict(group=name, rc=rc, timeout=timed, wall=time.time() - t, done=None, viol=[], logtail="", cur=None)
    if os.path.exists(out):
        for line in open(out):
            try: d = json.loads(line)
            except ValueError: continue
            if d["t"] == "viol": rec["viol"].append(d)
            elif d["t"] == "done": rec["done"] = d
    if os.path.exists(out + ".cur"):
        try: rec["cur"] = json.load(open(out + ".cur"))
        except ValueError: rec["cur"] = dict(key="?", params={})
    rec["logtail"] = open(out + ".log", errors="replace").read()[-6000:]
    rec["san"] = []
    for f in sorted(os.listdir(work)):
        if f.startswith(os.path.basename(out) + ".asan") or f.startswith(os.path.basename(out) + ".tsan"):
            rec["san"].append(open(os.path.join(work, f), errors="replace").read())
    return rec

def run_groups(prop, mod, groups, built, work, seed, tier):
    # a simple scheduler: each group declares how many cores it keeps busy
    ncpu = os.cpu_count() or 8
    order = sorted(groups, key=lambda k: -groups[k].get("cost", 10))
    cond = threading.Condition(); free = [ncpu]
    results = {}
    def job(name):
        g = groups[name]; need = min(ncpu, g.get("cores", g.get("threads", 1)))
        with cond:
            while free[0] < need: cond.wait()
            free[0] -= need
        try:
            results[name] = run_one(prop, name, g, built, work, seed, tier, 0)
        finally:
            with cond:
                free[0] += need; cond.notify_all()
    th = []
    ex = ThreadPoolExecutor(max_workers=max(1, len(order)))
    futs = [ex.submit(job, n) for n in order]
    for f in futs: f.result()
    # a group that ran out of its (generous) time is given a second chance on an otherwise idle machine
    for n in order:
        if results[n]["timeout"]:
            results[n] = run_one(prop, n, groups[n], built, work, seed, tier, 1)
    return [results[n] for n in groups]

def report(prop, mod, res, seed, tier, t0, tbuild, rdir, evdir, only):
    known = load_known(prop)
    vio, notes, inconclusive = [], [], []
    neval = 0; hashes = set(); samples = []; maxrel = {}; events = {}; percase = {}
    for r in res:
        for d in r["viol"]:
            vio.append((d["key"], r["group"], d))
        handler = getattr(mod, "SANITIZER", None)
        sanv = handler(r) if handler else [("sanitizer:" + first_report(s), s) for s in r["san"] if s.strip()]
        for k, s in sanv:
            vio.append((k, r["group"], dict(key=k, msg=s[:3000], params=r["cur"])))
        if r["timeout"]:
            vio.append(("hang:" + r["group"] + ":" + str((r["cur"] or {}).get("key")), r["group"],
                dict(key="hang", msg="no answer within the time limit, twice; current case: %s" % json.dumps(r["cur"])[:2000], params=r["cur"])))
        elif r["done"] is None and not sanv:
            tail = r["logtail"][-1500:]
            if r["cur"] is None and ("ImportError" in tail or "SyntaxError" in tail):
                inconclusive.append("group %s could not start: %s" % (r["group"], tail))
            else:
                vio.append(("crash:" + r["group"] + ":" + str((r["cur"] or {}).get("key")), r["group"],
                    dict(key="crash", msg="process ended with status %s in case %s; output: %s" % (r["rc"], json.dumps(r["cur"])[:1500], tail), params=r["cur"])))
        if r["done"]:
            d = r["done"]
            neval += d["neval"]; hashes |= set(r["group"] + h for h in d["hashes"])
            samples += [dict(group=r["group"], **s) for s in d.get("samples", [])[:2]]
            for k, x in d.get("maxrel", {}).items(): maxrel[k] = max(maxrel.get(k, 0), x)
            for k, x in d.get("events", {}).items(): events[k] = events.get(k, 0) + x
            percase[r["group"]] = dict(cases=d["ncase"], distinct=len(d["hashes"]), skipped=d["nskip"], evaluations=d["neval"], wall_s=round(r["wall"], 1))
            if d["neval"] == 0 or len(d["hashes"]) == 0:
                if not r["viol"]:
                    inconclusive.append("group %s observed nothing" % r["group"])
    nv = 0
    for i, (key, group, d) in enumerate(vio):
        if key in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[key].get("what", key)))
            continue
        nv += 1
        path = os.path.join(rdir, "%s-%d.json" % (prop, nv))
        with open(path, "w") as f:
            json.dump(dict(property=prop, group=group, seed=seed, tier=tier, key=key, violation=d), f, indent=1)
        if nv <= int(os.environ.get("VERIF_PRINT", "30")):
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   %s: %s" % (key, str(d.get("msg"))[:600].replace("\n", "\n   ")))
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(evaluations=neval, distinct_nontrivial=len(hashes), rule=mod.RULE,
            samples=samples[:12] or [dict(note="no sample")], groups=percase,
            largest_deviation_over_tolerance={k: round(v, 4) for k, v in sorted(maxrel.items())}, events=events),
        assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 1), violations=nv)
    if only is None:
        with open(os.path.join(evdir, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s: %d oracle evaluations on %d distinct cases in %d groups; build %.1f s, total %.1f s; %d violation(s)" % (
        prop, neval, len(hashes), len(res), tbuild, time.time() - t0, nv))
    if only or os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(percase, indent=0)); print(json.dumps(ev["coverage"]["largest_deviation_over_tolerance"]))
        for r in res:
            if r["logtail"].strip(): print("--- log", r["group"]); print(r["logtail"][-3000:])
    if nv: return 1
    if inconclusive:
        for s in inconclusive: print("INCONCLUSIVE:", s)
        return 2
    return 0

def first_report(s):
    import re
    m = re.search(r"(?:ERROR: \w+Sanitizer: (\S+)|runtime error: ([^\n]+)|WARNING: \w+Sanitizer: ([^\n(]+))", s)
    kind = next((x for x in m.groups() if x), "?") if m else "?"
    fr = re.findall(r"#\d+ \S+ in ([^\s(]+)[^\n]*?(?:/src/|/repo/)([\w.]+)", s)
    return (kind.strip() + "@" + (fr[0][0] if fr else "?"))[:160]

if __name__ == "__main__":
    sys.exit(main())
