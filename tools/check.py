#!/usr/bin/env python3
"""check.py PROP [quick|thorough]

Decides one property of /repo's current working tree:
 1. govc (the deductive verifier, /verif/govc) generates every proof obligation of
    the contracts of the property from /repo's source and has them discharged;
 2. the property's replay harness (/verif/harness/PROP, Go test files injected with
    go test -overlay) looks for a concrete failing input: it gives the failing
    input when an obligation fails, and is the bounded stand-in for the functions
    that are not under contract.
Exit 0 held, 1 violated (VIOLATION line), 2 the check itself could not run.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NOBODY = 65534


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", HOME=e.get("HOME") or "/root")
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    return e


def die(msg):
    print("check error: " + msg, flush=True)
    sys.exit(2)


def build_govc():
    out = os.path.join(VERIF, ".build", "govc")
    srcs = [os.path.join(VERIF, "govc", f) for f in os.listdir(os.path.join(VERIF, "govc"))]
    if os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(s) for s in srcs):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    p = subprocess.run(["go", "build", "-o", tmp, "."], cwd=os.path.join(VERIF, "govc"), env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("building govc: " + p.stdout[-2000:])
    os.replace(tmp, out)
    return out


def prepare_repo():
    """ui embeds a git-ignored directory that the build makes."""
    d = os.path.join(REPO, "ui", ".build", "ui")
    if not os.path.isdir(d) or not os.listdir(d):
        os.makedirs(d, exist_ok=True)
        shutil.copytree(os.path.join(REPO, "ui", "assets"), d, dirs_exist_ok=True)


def run_govc(prop, tier, work, short=False):
    govc = build_govc()
    rep = os.path.join(work, "report.json")
    sec = "20" if tier == "quick" else "60"
    args = [govc, "-contracts", os.path.join(VERIF, "contracts"), "-repo", REPO, "-prop", prop, "-out", rep, "-sec", sec,
            "-maxfail", "4", "-budget", "60" if short else ("480" if tier == "quick" else "2400")]
    budget = 640 if tier == "quick" else 3000
    try:
        p = subprocess.run(args, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=budget)
    except subprocess.TimeoutExpired as ex:
        return {"functions": [], "obligations": 0, "discharged": 0, "failures": [{
            "function": "(all)", "kind": "time", "label": "verifier ran out of its %d s" % budget, "pos": "", "clause": "",
            "goal": "", "status": "timeout", "solver": "", "solver_output": str(ex.output)[-2000:]}]}, args
    if not os.path.exists(rep):
        return {"error": "govc: " + p.stdout[-3000:], "functions": [], "obligations": 0, "discharged": 0, "failures": []}, args
    r = json.load(open(rep))
    if p.returncode == 2 and not r.get("failures"):
        r["error"] = r.get("error") or p.stdout[-3000:]
    return r, args


class Harness:
    def __init__(self, prop):
        self.dir = os.path.join(VERIF, "harness", prop)
        self.ran = False
        self.fail = []      # (key, detail)
        self.stats = []
        self.out = ""
        self.error = ""
        self.wall = 0.0
        self.cmds = []


def run_harness(prop, tier, work, seed):
    h = Harness(prop)
    if not os.path.isdir(h.dir):
        return h
    t0 = time.time()
    cfg = {}
    cf = os.path.join(h.dir, "harness.json")
    if os.path.exists(cf):
        cfg = json.load(open(cf))
    rep, pkgs = {}, []
    for root, _, files in os.walk(h.dir):
        for f in sorted(files):
            if f.endswith(".go"):
                rel = os.path.relpath(root, h.dir)
                rep[os.path.join(REPO, rel, f)] = os.path.join(root, f)
                if rel not in pkgs:
                    pkgs.append(rel)
    for rel, names in cfg.get("include", {}).items():
        pk = cfg.get("package", {}).get(rel) or os.path.basename(rel)
        for nme in names:
            src = open(os.path.join(VERIF, "harness", "shared", nme + ".go")).read()
            first, rest = src.split("\n", 1)
            imps = first.split(":", 1)[1].split()
            gen = os.path.join(work, "%s_%s_verif_test.go" % (rel.replace("/", "_"), nme))
            with open(gen, "w") as o:
                o.write("package %s\n\nimport (\n%s)\n\n%s" % (pk, "".join('\t"%s"\n' % i for i in imps), rest))
            rep[os.path.join(REPO, rel, "shared_%s_verif_test.go" % nme)] = gen
    ov = os.path.join(work, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    env = goenv()
    scratch = os.path.join(work, "scratch")
    os.makedirs(scratch, exist_ok=True)
    limit = 240 if tier == "quick" else 1500
    for pkg in pkgs:
        binf = os.path.join(work, pkg.replace("/", "_") + ".test")
        args = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", binf]
        if cfg.get("race"):
            args.append("-race")
        args.append("./" + pkg)
        h.cmds.append(" ".join(args))
        p = subprocess.run(args, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(binf):
            h.error += "harness for %s does not build on this tree: %s\n" % (pkg, p.stdout[-1500:])
            continue
        d = os.path.join(scratch, pkg.replace("/", "_"))
        os.makedirs(d, exist_ok=True)
        renv = dict(env, HOME=d, TMPDIR=d, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_REPO=REPO,
                    GOCACHE=env.get("GOCACHE", ""), GIT_CONFIG_NOSYSTEM="1")
        os.chmod(work, 0o755)
        os.chmod(scratch, 0o755)
        os.chmod(binf, 0o755)
        run = [binf, "-test.run", "Verif", "-test.v", "-test.timeout", "%ds" % limit]
        kw = {}
        if os.geteuid() == 0:
            try:
                os.chown(d, NOBODY, NOBODY)
                kw = dict(user=NOBODY, group=NOBODY, extra_groups=[])
            except OSError:
                kw = {}
        def go(kw):
            return subprocess.run(run, cwd=d, env=renv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                  errors="replace", timeout=limit + 30, **kw)
        try:
            try:
                p = go(kw)
            except (PermissionError, subprocess.SubprocessError) as ex:
                if isinstance(ex, subprocess.TimeoutExpired) or not kw:
                    raise
                p = go({})
        except subprocess.TimeoutExpired as ex:
            o = ex.output or b""
            if isinstance(o, bytes):
                o = o.decode("utf-8", "replace")
            h.out += o[-20000:]
            h.fail.append(("hang:" + pkg, "the harness did not finish within %d s" % limit))
            continue
        h.ran = True
        o = p.stdout
        h.out += o[-60000:]
        n0 = len(h.fail)
        for m in re.finditer(r"VERIF-FAIL key=(\S+) (.*)", o):
            h.fail.append((m.group(1), m.group(2)))
        for m in re.finditer(r"VERIF-STAT (\{.*\})", o):
            try:
                h.stats.append(json.loads(m.group(1)))
            except ValueError:
                pass
        if "WARNING: DATA RACE" in o:
            i = o.index("WARNING: DATA RACE")
            h.fail.append(("race:" + pkg, "data race: " + " ".join(o[i:i + 1500].split())))
        if p.returncode != 0 and len(h.fail) == n0:
            t = o[-3000:]
            m = re.search(r"(panic: .*|fatal error: .*|--- FAIL.*)", o)
            h.fail.append(("crash:" + pkg, (m.group(1) if m else "test binary failed") + " | " + " ".join(t.split())[-1500:]))
        if cfg.get("nokill") is None:
            pass
    h.wall = time.time() - t0
    return h


def known(prop):
    out = {}
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    if len(sys.argv) < 2:
        die("usage: check.py PROP [quick|thorough]")
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        rc = decide(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, seed, work, t0):
    prepare_repo()
    kn = known(prop)
    h = run_harness(prop, tier, work, seed)
    rep, gargs = run_govc(prop, tier, work, short=any(k not in kn for k, _ in h.fail))
    if rep.get("error") and not rep.get("failures"):
        # the tree cannot be loaded (does not build), or the contracts name something that is gone
        rep.setdefault("failures", []).append({"function": "(contracts)", "kind": "load", "label": "contracts do not apply to this tree",
                                               "pos": "", "clause": "", "goal": "", "status": "error", "solver": "", "solver_output": rep["error"]})
    pf = [f for f in rep.get("failures") or []]
    pf_new, hf_new, seen = [], [], []
    for f in pf:
        k = "obligation:%s/%s:%s" % (f["function"], f["kind"], f["label"])
        if k.replace(" ", "_") in kn:
            seen.append((k.replace(" ", "_"), kn[k.replace(" ", "_")]))
        else:
            pf_new.append(f)
    for k, d in h.fail:
        if k in kn:
            if (k, kn[k]) not in seen:
                seen.append((k, kn[k]))
        else:
            hf_new.append((k, d))
    if h.error and not pf_new and not h.ran:
        # the stand-in could not run: say so, the proof still decides
        print("note: " + h.error.strip().splitlines()[0])
    rc = 0
    for k, d in seen:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, d, k))
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if pf_new or hf_new:
        rc = 1
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rf = os.path.join(rdir, prop + ".txt")
        with open(rf, "w") as o:
            o.write("property %s\n\n" % prop)
            for k, d in hf_new:
                o.write("failing input on the real code [%s]\n  %s\n\n" % (k, d))
            if hf_new:
                o.write("to replay: VERIF_SEED=%d python3 tools/check.py %s %s\n  (%s; run -test.run Verif)\n\n" % (seed, prop, tier, "; ".join(h.cmds)))
            for f in pf_new:
                o.write("failed obligation %s / %s : %s\n  at %s\n  clause: %s\n  goal: %s\n  verdict: %s (%s)\n  solver output:\n%s\n\n" % (
                    f["function"], f["kind"], f["label"], f.get("pos"), f.get("clause"), (f.get("goal") or "")[:2000], f.get("status"), f.get("solver"),
                    (f.get("solver_output") or "")[:4000]))
            if h.error:
                o.write("harness: %s\n" % h.error)
            if h.out and hf_new:
                o.write("harness output (tail):\n%s\n" % h.out[-6000:])
        for f in pf_new[:10]:
            print("failed obligation: %s/%s:%s at %s: %s" % (f["function"], f["kind"], f["label"], f.get("pos"), f.get("status")))
        for k, d in hf_new[:10]:
            print("failing input: [%s] %s" % (k, d[:600]))
        print("VIOLATION property=%s replay=%s%s" % (prop, rf, "" if hf_new else " no-failing-input-found"), flush=True)
    cov = {
        "obligations": rep.get("obligations", 0),
        "discharged": rep.get("discharged", 0),
        "checker_cmd": " ".join([a.replace(VERIF, "/verif") for a in gargs if "report" not in a and a != "-out"]),
        "trusted_base": sorted(set(["trusted %s: %s" % kv for kv in (rep.get("trusted") or {}).items()] + ["axiom " + str(a) for a in (rep.get("axioms") or [])] +
                               ["govc (verification condition generator, /verif/govc)", "go/ssa (golang.org/x/tools)", "z3, cvc5"])),
        "functions_under_contract": rep.get("functions") or [],
        "lemmas": rep.get("lemmas") or [],
        "contracts_relied_on": sorted(rep.get("relied") or []),
        "inlined_functions": rep.get("inlined") or [],
        "trivially_discharged": rep.get("trivial", 0),
        "smoke_checks": rep.get("smoke_checks", 0),
        "discharged_by_solver": rep.get("by_solver") or {},
        "solver_seconds": rep.get("solver_seconds", 0),
        "verifier_wall_seconds": rep.get("wall_seconds", 0),
        "candidate_invariant_queries": rep.get("candidate_queries", 0),
    }
    if os.path.isdir(h.dir):
        b = {"ran": h.ran, "wall_s": round(h.wall, 1), "stats": h.stats, "failures": len(h.fail)}
        if h.error:
            b["error"] = h.error[:500]
        cov["bounded_stand_in"] = b
        cov["evaluations"] = sum(int(s.get("evaluations", 0)) for s in h.stats)
        cov["distinct_nontrivial"] = sum(int(s.get("distinct", 0)) for s in h.stats)
        rules = [s["rule"] for s in h.stats if s.get("rule")]
        if rules:
            cov["rule"] = " || ".join(rules)
        cov["samples"] = [s for st in h.stats for s in (st.get("samples") or [])][:12] or ["(none)"]
    asm = ["signed integers are mathematical (no overflow); unsigned arithmetic is exact",
           "slice contents between len and cap after append grew the array are not observed",
           "partial correctness for recursion (no termination measure for recursive calls)",
           "variables captured by goroutines are not raced on unless a monitor contract says so"]
    lvl = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = "proof"
    for c in lvl.get("checks", []):
        if c["property"] == prop:
            level = c["level"]
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": asm, "wall_s": round(time.time() - t0, 1), "violations": len(pf_new) + len(hf_new)}
    tmp = os.path.join(evdir, prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(evdir, prop + ".json"))
    print("%s: %d functions under contract, %d/%d obligations discharged, harness %s, %.0f s" % (
        prop, len(rep.get("functions") or []), rep.get("discharged", 0), rep.get("obligations", 0),
        ("%d evaluations" % cov.get("evaluations", 0)) if h.ran else "not run", time.time() - t0), flush=True)
    return rc


main()
