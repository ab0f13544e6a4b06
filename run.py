#!/usr/bin/env python3
"""Decide one property by symbolic execution of the compiled code of /repo.

  run.py PROPERTY [quick|thorough]   run the checks of a property, write evidence/PROPERTY.json
  run.py --build                     build the engine only (setup)

Everything is rebuilt from /repo's current working tree on every run.
"""
import concurrent.futures as cf, fcntl, glob, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(ROOT, ".work")
REPO = "/repo"
TOOL = "stable-x86_64-unknown-linux-gnu"
SKIP = ("syn", "quote", "proc_macro2", "autocfg", "rustversion", "version_check", "unicode_ident",
        "pin_project_internal", "libm", "vph_replay", "build_script")
sys.path.insert(0, ROOT)
from props import PROPS  # per-property configuration

def env(extra):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
            if k not in ("CARGO_HOME",):
                e.pop(k)
    e.update(RUSTUP_TOOLCHAIN=TOOL, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.update(extra)
    return e

def sh(cmd, e=None, cwd=None, timeout=700, log=None):
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    if r.returncode != 0:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(cmd)[:300], "\n".join(re.findall(r"^error.*(?:\n.*){0,8}", r.stdout, re.M))[:6000] or r.stdout[-3000:]))
        raise SystemExit(2)
    return r.stdout

def build_engine():
    with open(os.path.join(WORK, "engine.lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        sh(["cargo", "build", "--release", "--offline", "-q"], env({"CARGO_TARGET_DIR": os.path.join(WORK, "engine")}),
           cwd=os.path.join(ROOT, "engine"))
    return os.path.join(WORK, "engine", "release", "symex")

def harness_copy():
    """The harness crate is used in place; its lock file follows /repo's."""
    h = os.path.join(ROOT, "harness")
    return h

def build_native(feat):
    t = os.path.join(WORK, "native-" + feat)
    e = env({"CARGO_TARGET_DIR": t, "CARGO_PROFILE_DEV_PANIC": "unwind", "CARGO_PROFILE_DEV_OPT_LEVEL": "1"})
    sh(["cargo", "build", "--offline", "-q", "--features", feat, "--bin", "vph_replay"], e, cwd=harness_copy())
    return os.path.join(t, "debug", "vph_replay")

def build_ir(feat):
    t = os.path.join(WORK, "ir-" + feat)
    fl = ("--cfg vp_ir --emit=llvm-bc -C no-prepopulate-passes -C codegen-units=1 -C embed-bitcode=no "
          "-C no-vectorize-loops -C no-vectorize-slp")
    e = env({"CARGO_TARGET_DIR": t, "RUSTFLAGS": fl})
    deps = os.path.join(t, "debug", "deps")
    for f in glob.glob(os.path.join(deps, "vph*")) + glob.glob(os.path.join(deps, "fundsp*.bc")):
        os.remove(f)
    for f in glob.glob(os.path.join(t, "debug", ".fingerprint", "fundsp-*")) + glob.glob(os.path.join(t, "debug", ".fingerprint", "vph-*")):
        shutil.rmtree(f)
    sh(["cargo", "rustc", "--offline", "-q", "--lib", "--features", feat], e, cwd=harness_copy())
    bcs = {}
    for f in sorted(glob.glob(os.path.join(deps, "*.bc")), key=os.path.getmtime):
        m = re.match(r"(.*)-([0-9a-f]{16})\.bc$", os.path.basename(f))
        if not m or m.group(1).startswith(SKIP) or m.group(1) == "lib":
            continue
        bcs[f] = m.group(1)
    # one file per crate and version; stale duplicates of the crates under test were removed above
    b = os.path.join(subprocess.check_output(["rustc", "--print", "sysroot"], env=e, text=True).strip(),
                     "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    libm = sorted(glob.glob(os.path.join(deps, "libm-*.bc")), key=os.path.getmtime)[-1:]
    o = os.path.join(t, "out")
    os.makedirs(o, exist_ok=True)
    sh([b + "/llvm-link", "-o", o + "/all.bc"] + list(bcs))
    vph = [f for f, n in bcs.items() if n == "vph"][0]
    names = sorted(set(re.findall(r"\bT (h_\w+)", sh([b + "/llvm-nm", vph]))))
    nv = ["-vectorize-loops=false", "-vectorize-slp=false"]
    jobs = [[b + "/opt", "-passes=internalize,globaldce,default<O2>", "-internalize-public-api-list=" + ",".join(names)] + nv + ["-o", o + "/o.bc", o + "/all.bc"],
            [b + "/opt", "-passes=default<O2>"] + nv + ["-o", o + "/libm.bc"] + libm]
    with cf.ThreadPoolExecutor(2) as ex:
        list(ex.map(sh, jobs))
    sh([b + "/llvm-link", "-o", o + "/f.bc", o + "/o.bc", o + "/libm.bc"])
    sh([b + "/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(names), "-S", "-o", o + "/f.ll", o + "/f.bc"])
    return o + "/f.ll", names

def demangle(names):
    try:
        r = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return r.stdout.splitlines()
    except Exception:
        return names

def main():
    os.makedirs(WORK, exist_ok=True)
    if sys.argv[1] == "--build":
        build_engine()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    feat = prop.lower()
    lock = open(os.path.join(WORK, "lock-" + feat), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    with cf.ThreadPoolExecutor(3) as ex:
        a, b, c = ex.submit(build_engine), ex.submit(build_ir, feat), ex.submit(build_native, feat)
        eng, (ll, names), nat = a.result(), b.result(), c.result()
    t_build = time.time() - t0
    names = [n for n in names if not only or re.search(only, n)]
    out = os.path.join(WORK, "out-" + feat)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    budget = (cfg.get("secs_thorough", 3000) if tier == "thorough" else cfg.get("secs_quick", 560)) - t_build * (tier != "thorough")
    end = time.time() + budget
    per = cfg.get("per_thorough", 900) if tier == "thorough" else cfg.get("per_quick", 90)
    # fair share when everything needs its full time
    share = budget * 8 / max(1, len(names))
    per = int(max(20, min(per, max(share * 1.5, 30))))

    def one(n):
        left = end - time.time()
        if left < 10:
            return n, None, "time budget of the check used up"
        w = os.path.join(out, n)
        os.makedirs(w)
        o = os.path.join(w, "r.json")
        s = int(min(per, left))
        t = time.time()
        try:
            r = subprocess.run([eng, "run", "--ll", ll, "--h", n, "--out", o, "--secs", str(s), "--replay", nat, "--work", w,
                                "--seed", str(seed), "--tier", tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               timeout=s * 1.3 + 90)
            err = r.stderr[-600:] if r.returncode else ""
        except subprocess.TimeoutExpired:
            err = "engine timeout"
        try:
            return n, json.load(open(o)), ""
        except Exception:
            return n, None, err or "no result"

    res = {}
    fails = {}
    # longest first if known
    with cf.ThreadPoolExecutor(8) as ex:
        for n, j, err in ex.map(one, names):
            if j is None:
                fails[n] = err
            else:
                res[n] = j
    # ---- known findings
    known = []
    kf = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop and k.get("status") == "known"]
    viol, kfound = [], []
    for n, j in res.items():
        for v in j["violations"]:
            k = next((k for k in known if re.fullmatch(k["harness"], n) and k["message"] in v["msg"]), None)
            if k:
                kfound.append((k, n, v))
            else:
                viol.append((n, v))
    for k in {id(k): k for k, _, _ in kfound}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    lines = []
    for n, v in viol:
        d = os.path.join(ROOT, ".work", "violations", prop)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s.%d.replay" % (n, len(lines)))
        with open(f, "w") as o:
            o.write("# harness %s: %s\n# native: %s\n# replay: %s %s %s\n" % (n, v["msg"], v["native"], nat, n, f))
            o.write(open(v["replay"]).read())
        lines.append("VIOLATION property=%s replay=%s" % (prop, f))
        print("%s: %s\n   native replay: %s\n   found by: %s" % (n, v["msg"], v["native"], v["found_by"]))
    # ---- evidence
    tot = lambda k: sum(j[k] for j in res.values())
    by, sby, fns = {}, {}, set()
    for j in res.values():
        for k, v in j["decided_by"].items():
            by[k] = by.get(k, 0) + v
        for k, v in j["solver_by"].items():
            sby[k] = sby.get(k, 0) + v
        fns.update(j["functions"])
    undecided = {n: dict(open=j["open"], messages=sorted(set(j["open_msgs"])), incomplete=j["incomplete"], unreproduced=j["unreproduced"],
                         mismatches=j["mismatches"])
                 for n, j in res.items() if j["open"] or j["incomplete"] or j["unreproduced"] or j["mismatches"]}
    for n, e in fails.items():
        undecided[n] = dict(error=e)
    vac = [n for n, j in res.items() if not j["reach"].get("end") and not j["violations"]]
    samples = []
    for n, j in list(res.items())[:40]:
        for s in j["samples"][:1]:
            samples.append("%s: %s" % (n, s))
    ev = dict(
        property=prop, tier=tier, seed=seed, level=cfg.get("level", "model_checking"),
        coverage=dict(
            states=tot("paths"), transitions=tot("transitions"), traces_validated_against_impl=tot("validated"), samples=samples[:24],
            symbolic_paths=tot("paths"), instructions_executed=tot("steps"), forks=tot("forks"), paths_pruned_infeasible=tot("pruned"),
            harnesses=len(names), harnesses_fully_decided=len(names) - len(undecided), obligations=tot("obligations"),
            obligations_decided_by=by, obligations_undecided=tot("open"), solver_queries=tot("queries"), solver_unsat=tot("unsat"),
            solver_sat=tot("sat"), solver_unknown=tot("unknown"), solver_seconds=round(tot("solver_ms") / 1000, 1), solver_verdicts_by=sby,
            symbolic_variables=tot("vars"), terms=tot("terms"),
            harness_list=[dict(name=n, paths=j["paths"], obligations=j["obligations"], symbolic_variables=j["vars"], undecided=j["open"],
                               seconds=round(j["wall_ms"] / 1000, 1), reach=j["reach"]) for n, j in res.items()],
            functions_encoded=demangle(sorted(fns))[:400], functions_encoded_note="functions left as separate symbols after inlining; everything they call inside fundsp is encoded too",
            bounds=cfg["bounds"], undecided=undecided, vacuous=vac),
        wall_s=round(time.time() - t0, 1), build_s=round(t_build, 1),
        assumptions=cfg.get("assumptions", []) + COMMON_ASSUMPTIONS,
        violations=[dict(harness=n, message=v["msg"], native=v["native"], found_by=v["found_by"]) for n, v in viol],
        known_findings=[dict(harness=n, message=v["msg"], native=v["native"], what=k["what"]) for k, n, v in kfound])
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print("%s %s: %d harnesses, %d paths, %d obligations, %d undecided, %d violations, %d not run, %.0f s (build %.0f s)" %
          (prop, tier, len(names), tot("paths"), tot("obligations"), tot("open"), len(viol), len(fails), time.time() - t0, t_build))
    for n, u in list(undecided.items())[:25]:
        print("  undecided %s: %s" % (n, json.dumps(u)[:160]))
    for n in vac:
        print("  vacuous %s" % n)
    if names and not res:
        print('no harness could be run')
        return 2
    return 1 if lines else 0

COMMON_ASSUMPTIONS = [
    "LLVM IR of the harness and of fundsp is produced by rustc 1.99.1 with debug assertions and overflow checks on; optimised with opt -O2 without vectorisation before execution",
    "the sign of zero and NaN payloads are treated as unobservable",
    "transcendental libm functions with symbolic arguments are uninterpreted functions with range and symmetry axioms; with concrete arguments the real libm code is executed",
    "heap allocation never fails; freshly allocated memory has unspecified contents",
]
if __name__ == "__main__":
    sys.exit(main())
