#!/usr/bin/env python3
"""Decides one property of go-dateparser on the current tree of /repo.

1. govc generates the proof obligations of every function under contract that
   the property depends on, from /repo's current source, and has the SMT
   solvers discharge them.  This is the deciding step.
2. The replay harness (a Go test laid over /repo with -overlay) runs the same
   property as an executable oracle on the real code: it looks for a failing
   input for an obligation that is not discharged, and it is the bounded
   stand-in for the functions that are outside the verifier's reach.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
EVID = os.path.join(HERE, "evidence")


def goenv(scratch):
    e = dict(os.environ)
    path = "/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    mod = os.path.join(scratch, "dateparser.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(scratch, "dateparser.sum"))
    e.update(PATH=path, TZ="UTC", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOTELEMETRY="off",
             CGO_ENABLED="1", GOFLAGS="-mod=mod -modfile=" + mod)
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e["GOMODCACHE"] = "/root/go/pkg/mod"
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def build_govc(scratch):
    """Build the verifier; returns the path of the binary."""
    src = os.path.join(HERE, "govc")
    out = os.path.join(HERE, "bin", "govc")
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src))
    if os.path.exists(out) and os.path.getmtime(out) >= newest:
        return out
    try:
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d" % os.getpid()
    except OSError:
        out = os.path.join(scratch, "govc")
        tmp = out
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOTELEMETRY="off",
             PATH="/usr/local/bin:/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    # go.mod and go.sum of the verifier stay as committed
    mod = os.path.join(scratch, "govc.mod")
    shutil.copy(os.path.join(src, "go.mod"), mod)
    shutil.copy(os.path.join(src, "go.sum"), os.path.join(scratch, "govc.sum"))
    r = subprocess.run(["go", "build", "-modfile=" + mod, "-o", tmp, "."], cwd=src, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout)
        raise SystemExit("govc does not build")
    if tmp != out:
        os.replace(tmp, out)
    return out


def run_govc(prop, scratch, env, tier, res):
    t0 = time.time()
    try:
        binp = build_govc(scratch)
        out = os.path.join(scratch, "govc.json")
        ms = "20000" if tier == "quick" else "60000"
        p = subprocess.run([binp, "verify", "-repo", REPO, "-contracts", os.path.join(HERE, "contracts"),
                            "-prop", prop, "-out", out, "-jobs", "7", "-ms", ms],
                           cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=780 if tier == "quick" else 3000)
        res["log"] = p.stdout
        if os.path.exists(out):
            res["funcs"] = json.load(open(out)) or []
        else:
            res["error"] = "govc gave no result: " + p.stdout[-4000:]
    except subprocess.TimeoutExpired:
        res["error"] = "govc ran out of time"
    res["secs"] = time.time() - t0


HARNESS_SETS = {"api": ["api"], "full": ["api", "internal"]}


def build_harness(scratch, env, race=False, sets=("api", "internal"), pkg=""):
    """Compile the replay harness over /repo; returns (binary, log)."""
    rep = {}
    for s in sets:
        d = os.path.join(HERE, "harness", s)
        if not os.path.isdir(d):
            continue
        for f in sorted(os.listdir(d)):
            if f.endswith(".go"):
                rep[os.path.join(REPO, "zz_verif_" + s + "_" + f.replace(".go", "_test.go"))] = os.path.join(d, f)
    ov = os.path.join(scratch, "overlay%d.json" % len(sets))
    json.dump({"Replace": rep}, open(ov, "w"))
    out = os.path.join(scratch, "harness" + ("-race" if race else ""))
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out]
    if race:
        cmd.append("-race")
    cmd.append(".")
    r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, r.stdout
    return out, ""


def run_harness(prop, scratch, env, tier, res, budget):
    t0 = time.time()
    res.update(ran=False, violations=[], stats={})
    race = prop == "C18"
    for sets in (("api", "internal"), ("api",)):
        b, log = build_harness(scratch, env, race, sets)
        if b:
            res["sets"] = list(sets)
            break
        res["build_log"] = log[-3000:]
    else:
        # does the tree itself build?
        r = subprocess.run(["go", "build", "-o", os.devnull, "./..."], cwd=REPO, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        res["tree_builds"] = r.returncode == 0
        res["secs"] = time.time() - t0
        return
    out = os.path.join(scratch, "harness.json")
    e = dict(env)
    e.update(VERIF_PROP=prop, VERIF_OUT=out, VERIF_SEED=os.environ.get("VERIF_SEED", "1"),
             VERIF_TIER=tier, VERIF_BUDGET=str(budget), VERIF_DIR=HERE)
    wd = os.path.join(scratch, "work")
    os.makedirs(wd, exist_ok=True)
    log = os.path.join(scratch, "harness.log")
    with open(log, "w") as lf:
        try:
            p = subprocess.run([b, "-test.run", "^TestVerifHarness$", "-test.timeout", "%ds" % (budget * 3 + 120)],
                               cwd=wd, env=e, stdout=lf, stderr=subprocess.STDOUT, timeout=budget * 3 + 150)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    txt = open(log, errors="replace").read()
    res["log"] = txt[-6000:]
    res["rc"] = rc
    if os.path.exists(out):
        d = json.load(open(out))
        res["ran"] = True
        res["violations"] = d.get("violations") or []
        res["stats"] = d.get("stats") or {}
        res["samples"] = d.get("samples") or []
        res["rule"] = d.get("rule", "")
    cur = None
    if os.path.exists(out + ".cur"):
        cur = json.load(open(out + ".cur"))
    if "DATA RACE" in txt:
        m = re.search(r"WARNING: DATA RACE.*?={18}", txt, re.S)
        res["violations"].append({"what": "data race reported by the race detector", "input": {"schedule": "see detail"},
                                  "detail": (m.group(0) if m else txt)[:6000], "key": "race"})
        res["ran"] = True
    elif rc != 0 and not os.path.exists(out) and rc is not None:
        # the process died (fatal error, deadlock, stack overflow, time limit): the case it was on is recorded
        if "fatal error" in txt or "panic:" in txt or rc == -1:
            res["ran"] = True
            res["violations"].append({"what": "the process died: " + (re.search(r"(fatal error|panic)[^\n]*", txt) or [""])[0]
                                      if re.search(r"(fatal error|panic)[^\n]*", txt) else "the call did not return",
                                      "input": cur or {}, "detail": txt[-3000:], "key": "died"})
    res["secs"] = time.time() - t0


def load_known():
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def manifest_check(prop):
    m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    for c in m["checks"]:
        if c["property"] == prop:
            return c
    return {}


TRUSTED = [
    "govc (the condition generator in /verif/govc: go/ssa semantics, heap model, loop cutting); its Go models of the standard library (strings, unicode, strconv, time, regexp, sync, slices, maps)",
    "z3 4.8.12 / z3-new / cvc5 1.1.2 answering unsat",
    "go/ssa and go/types of golang.org/x/tools as a faithful front end for the pinned Go toolchain",
]


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        scratch = tempfile.mkdtemp(prefix="verif-")
        try:
            print(build_govc(scratch))
            env = goenv(scratch)
            build_harness(scratch, env)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return 0
    if args and args[0] == "--replay":
        return replay(args[1])
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        return decide(prop, tier, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, scratch, t0):
    env = goenv(scratch)
    gov, har = {}, {}
    budget = int(os.environ.get("VERIF_BUDGET", "40" if tier == "quick" else "600"))
    th = threading.Thread(target=run_harness, args=(prop, scratch, env, tier, har, budget))
    th.start()
    run_govc(prop, scratch, env, tier, gov)
    th.join()

    obls, open_, errs, inl, mod, models, notes, nfun = [], [], [], set(), set(), set(), set(), 0
    trusted_contracts = []
    solver = {}
    solver_t = 0.0
    for f in gov.get("funcs", []):
        nfun += 1
        if f.get("err"):
            errs.append("%s: %s" % (f["func"], f["err"]))
        for o in f.get("obls") or []:
            obls.append(o)
            if o["status"] != "proved":
                open_.append(o)
            else:
                solver[o["solver"]] = solver.get(o["solver"], 0) + 1
        inl.update(f.get("inlined") or [])
        mod.update(f.get("modular") or [])
        models.update(f.get("models") or [])
        notes.update(f.get("notes") or [])
        solver_t += f.get("solver_s") or 0
    if gov.get("error"):
        errs.append(gov["error"])
    if not gov.get("error") and not obls:
        errs.append("no obligation was generated for this property")

    known = [k for k in load_known() if k[0] == prop]
    rc = 0
    lines = []
    nviol = 0
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(EVID, "replay")):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(EVID, "replay", f))

    seen_known = set()
    hv = []
    for v in har.get("violations", []):
        hit = None
        for k in known:
            if v.get("key") == k[1]:
                hit = k
        if hit:
            seen_known.add(hit)
        else:
            hv.append(v)
    for i, v in enumerate(hv[:3]):
        path = os.path.join(EVID, "replay", "%s-%d.json" % (prop, i + 1))
        json.dump({"property": prop, "kind": "failing-input", "what": v.get("what"), "input": v.get("input"),
                   "expected": v.get("expected"), "got": v.get("got"), "detail": v.get("detail"), "key": v.get("key"),
                   "open_obligations": [dict(name=o["name"], func=o["func"], pos=o["pos"], kind=o["kind"], status=o["status"]) for o in open_],
                   "verifier_errors": errs,
                   "rerun": "bash /verif/check.sh --replay " + path}, open(path, "w"), indent=1, ensure_ascii=False)
        print("  ", v.get("what"), "| input:", json.dumps(v.get("input"), ensure_ascii=False)[:300],
              "| expected:", v.get("expected"), "| got:", v.get("got"))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        nviol += 1
    obl_known = set()
    bad = []
    for o in open_:
        key = "obl:%s:%s" % (o["func"], o["name"])
        k2 = [k for k in known if k[1] == key.replace(" ", "_")]
        if k2:
            seen_known.add(k2[0])
            obl_known.add(key)
        else:
            bad.append(o)
    if (bad or errs) and not hv:
        path = os.path.join(EVID, "replay", "%s-obligations.json" % prop)
        json.dump({"property": prop, "kind": "failed-obligation",
                   "obligations": bad, "verifier_errors": errs, "verifier_log": gov.get("log", "")[-8000:],
                   "search": {"inputs_tried": har.get("stats"), "harness_built": har.get("ran")}},
                  open(path, "w"), indent=1, ensure_ascii=False)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        nviol += 1
    for o in bad[:10]:
        print("  open obligation [%s] %s in %s (%s): %s" % (o["kind"], o["name"], o["func"], o["pos"], o["status"]))
    for e in errs[:10]:
        print("  verifier:", e[:600])
    if har.get("build_log"):
        print("  harness build:", har["build_log"][:1500])
    for k in known:
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    mc = manifest_check(prop)
    level = mc.get("level", "proof")
    discharged = len(obls) - len(open_)
    # every trusted contract in the contract files
    for f in sorted(os.listdir(os.path.join(HERE, "contracts"))):
        cur = ""
        for l in open(os.path.join(HERE, "contracts", f)):
            m = re.match(r"(func|field) (.*)", l)
            if m:
                cur = m.group(2).strip()
            m = re.match(r"\s+trusted\b(.*)", l)
            if m and (re.sub(r"\(\w*(, *\w+)*\)$", "", cur) in mod):
                trusted_contracts.append("%s:%s" % (cur, m.group(1)))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
        "coverage": {
            "obligations": len(obls), "discharged": discharged,
            "checker_cmd": "govc verify -repo /repo -contracts /verif/contracts -prop %s" % prop,
            "trusted_base": TRUSTED + ["assumed contract: " + t for t in trusted_contracts],
            "functions_under_contract": sorted(f["func"] for f in gov.get("funcs", [])),
            "functions_inlined_into_them": sorted(inl),
            "callee_contracts_used": sorted(mod),
            "library_models_used": sorted(models),
            "abstractions": sorted(notes),
            "discharged_by": solver,
            "solver_seconds": round(solver_t, 1),
            "bounded_stand_in": {
                "note": "executable oracle on the real code; bounded, not counted as proved",
                "ran": har.get("ran", False), "built_from": har.get("sets"), "stats": har.get("stats"), "rule": har.get("rule"),
                "samples": (har.get("samples") or [])[:5], "seconds": round(har.get("secs", 0), 1)},
            "explanation": "obligations are proved for all inputs from the current source; the bounded stand-in runs the property as an oracle on the real code",
        },
        "assumptions": [
            "integers are mathematical in the obligations unless the contract says 'overflow'; the sizes of strings and slices stay below 2^62",
            "a slice with spare capacity is not appended to through two different slice values (append is modelled as allocating)",
            "data held in the generated locale tables (internal/data) is opaque to the proofs",
        ] + sorted("abstraction: " + n for n in notes)[:40],
        "wall_s": round(time.time() - t0, 1), "violations": nviol,
    }
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    print("%s: %d/%d obligations of %d functions, harness %s %s, %.0f s (verifier %.0f, harness %.0f)" % (
        prop, discharged, len(obls), nfun, "ran" if har.get("ran") else "did not run",
        json.dumps(har.get("stats")), time.time() - t0, gov.get("secs", 0), har.get("secs", 0)))
    for l in lines:
        print(l)
    return 1 if lines else 0


def replay(path):
    d = json.load(open(path))
    if d.get("kind") != "failing-input":
        print(json.dumps(d, indent=1)[:8000])
        return 1
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        env = goenv(scratch)
        har = {}
        run_harness(d["property"], scratch, env, "quick", har, 40)
        for v in har.get("violations", []):
            print("VIOLATION", json.dumps(v, ensure_ascii=False)[:2000])
        return 1 if har.get("violations") else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
