#!/usr/bin/env python3
"""run.py Cxx - decide one property: prove its contracts against /repo's current source.

Builds govc if needed, lets it verify every proof task of the property, and writes evidence/Cxx.json.
If an obligation is not discharged, the replay battery of the property (replay/cxx_test.go, run inside
the real package through an overlay) looks for a concrete failing run."""
import json, os, re, subprocess, sys, time, glob, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GOVC_REPO", "/repo")
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
BIN = os.path.join(HERE, ".bin")
EVID = os.path.join(HERE, "evidence")

env = dict(os.environ)
for d in ("/opt/veriftools/go1.25.14/bin",):
    if os.path.isdir(d):
        env["PATH"] = d + ":" + env.get("PATH", "")
env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GONOSUMDB="*", GOSUMDB="off")
env.setdefault("HOME", "/root")
env.setdefault("GOPATH", "/root/go")
env.setdefault("GOCACHE", "/root/.cache/go-build")

def sh(cmd, cwd, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return 124, (o if isinstance(o, str) else o.decode("utf8", "replace")) + "\ntimeout after %ds" % timeout

def build():
    os.makedirs(BIN, exist_ok=True)
    src = sorted(glob.glob(HERE + "/govc/*.go")) + [HERE + "/govc/go.mod", HERE + "/govc/go.sum"]
    h = hashlib.sha256()
    for f in src:
        h.update(open(f, "rb").read())
    out = BIN + "/govc-" + h.hexdigest()[:16]
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        rc, o = sh(["go", "build", "-o", tmp, "."], HERE + "/govc", 600)
        if rc != 0:
            print(o)
            print("govc does not build")
            sys.exit(2)
        os.rename(tmp, out)
    return out

def known():
    """lines 'known: property=C01 task=T obligation=O [site=S] :: what fails'"""
    r = []
    f = HERE + "/known-findings.txt"
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("known:"):
                head, what = l[6:].split("::", 1)
                d = dict(x.split("=", 1) for x in head.split())
                d["what"] = what.strip()
                r.append(d)
    return [d for d in r if d["property"] == PROP]

def replay():
    """run the battery on the real code; returns (ran, failed, output)"""
    fs = sorted(glob.glob(HERE + "/replay/%s_test.go" % PROP.lower()))
    if not fs:
        return False, False, "no replay battery"
    rep = {}
    for f in glob.glob(REPO + "/*_test.go"):
        rep[f] = ""
    for f in fs + glob.glob(HERE + "/replay/common_test.go"):
        rep[REPO + "/zz_replay_" + os.path.basename(f)] = f
    ov = EVID + "/overlay-%s.json" % PROP
    json.dump({"Replace": rep}, open(ov, "w"))
    race = ["-race"] if any("// replay: race" in open(f).read() for f in fs) else []
    rc, o = sh(["go", "test"] + race + ["-vet=off", "-count=1", "-timeout", "150s", "-overlay", ov, "-run", "^TestReplay%s" % PROP, "."], REPO, 200)
    os.unlink(ov)
    bad = rc != 0 and ("--- FAIL" in o or "panic:" in o or "test timed out" in o or "fatal error:" in o) and "[build failed]" not in o
    return True, bad, o

def main():
    if PROP == "--build":
        build()
        return 0
    os.makedirs(EVID + "/replay", exist_ok=True)
    govc = build()
    if len(sys.argv) > 2 and sys.argv[2] == "--replay":
        ran, hit, o = replay()
        print(o[-6000:])
        return 1 if hit or not ran or "\nok" not in "\n" + o else 0
    rf = EVID + "/.report-%s.json" % PROP
    if os.path.exists(rf):
        os.unlink(rf)
    budget = 400 if TIER == "quick" else 500
    cmd = [govc, "-prop", PROP, "-repo", REPO, "-contracts", HERE + "/contracts", "-out", rf, "-budget", str(budget), "-j", "8"]
    rc, out = sh(cmd, HERE, 620)
    bad, oblig, disch, tasks = [], 0, 0, []
    by, assumptions, externals, models, entered = {}, set(), set(), set(), set()
    solver = queries = paths = loops = ncov = 0
    rep = None
    if os.path.exists(rf):
        rep = json.load(open(rf))
        os.unlink(rf)
    if rep is None:
        bad.append(dict(task="govc", obligation="verifier-finished", why="verifier gave no report (rc %d): %s" % (rc, out[-1500:]), trace=[]))
    else:
        for e in rep.get("LoadErrs") or []:
            bad.append(dict(task="load", obligation="contracts-type-check", why=e, trace=[]))
        if not bad and not rep.get("Results"):
            bad.append(dict(task="load", obligation="tasks", why="no proof task", trace=[]))
        for r in rep.get("Results") or []:
            tasks.append(r["Task"])
            oblig += r["Stats"]["Vcs"]
            disch += r["Stats"]["Discharged"]
            solver += r["SolverTime"]; queries += r["Queries"]; paths += r["Paths"]; loops += r["Loops"]
            for k, v in (r.get("By") or {}).items():
                by[k] = by.get(k, 0) + v
            externals |= set(r.get("Externals") or [])
            models |= set(r.get("Models") or [])
            entered |= set(r.get("Entered") or [])
            for f in r.get("Fails") or []:
                oblig += 1
                bad.append(dict(task=r["Task"], obligation="within-reach", why=f, trace=[]))
            for o in r.get("Obls") or []:
                if o.get("failed"):
                    bad.append(dict(task=r["Task"], obligation=o["obligation"], why=o.get("answer", "") + " " + o.get("detail", ""), trace=o.get("trace") or []))
            for k, v in (r.get("Covers") or {}).items():
                ncov += 1
                if v != "reached":
                    bad.append(dict(task=r["Task"], obligation="cover:" + k, why="not reachable: " + v, trace=[]))
            if not r.get("Returned") and not r.get("Fails"):
                bad.append(dict(task=r["Task"], obligation="returns", why="no path of the contract returns", trace=[]))
    kn, rest, seen = known(), [], []
    for b in bad:
        for k in kn:
            if k["task"] == b["task"] and k["obligation"] == b["obligation"] and (k.get("site", "") in " ".join(b["trace"])):
                seen.append(k)
                break
        else:
            rest.append(b)
    code = ["(assumed) library model: " + m for m in sorted(models)]
    infn = sorted(f for f in entered if not re.match(r"^(c\d\d|gv|on_|\(\*?gv|\(\*?c\d\d)", f))
    ev = dict(property=PROP, tier=TIER, seed=SEED, level="proof", wall_s=0.0, violations=0,
              coverage=dict(obligations=max(oblig, disch + len(bad)), discharged=disch, checker_cmd="govc -prop %s (SMT back ends z3 5.3, cvc5 1.1, z3 4.8)" % PROP,
                            trusted_base=["govc (symbolic execution of go/ssa, /verif/govc)", "golang.org/x/tools go/ssa v0.48", "SMT solvers"] + code,
                            proof_tasks=sorted(tasks), functions_under_contract=infn, discharged_by_backend=by, solver_time_s=round(solver, 2),
                            solver_queries=queries, paths=paths, loops_with_invariants=loops, vacuity_covers=ncov,
                            undischarged=[b["task"] + "/" + b["obligation"] for b in rest]),
              assumptions=sorted("external call havocs only memory it can reach: " + x for x in externals) + [
                  "machine integers are mathematical, except that conversions (to narrower types, between signed and unsigned) and arithmetic of narrow types wrap",
                  "termination, deadlock freedom and memory exhaustion are not proved",
                  "goroutine interleavings are covered by lock/rely contracts at atomic and lock operations, not by enumerating schedules"])
    for k in seen:
        print("KNOWN-FINDING: property=%s %s" % (PROP, k["what"]))
    ret = 0
    ran, hit, o = False, False, ""
    if not rest and TIER == "thorough":
        # cross-check of the assumed library contracts: the battery of the property runs on the real code, too
        for _ in range(2):
            ran, hit, o = replay()
            if not hit:
                break
        ev["coverage"]["battery"] = "failed" if hit else "passed" if ran else "none"
        if hit:
            rest.append(dict(task="battery", obligation="real-code-agrees", why="proved, but a run of the real code fails", trace=[]))
    elif rest:
        ran, hit, o = replay()
    if rest:
        ret = 1
        rp = EVID + "/replay/%s.txt" % PROP
        with open(rp, "w") as f:
            f.write("property %s: %d obligations not discharged on the current source\n\n" % (PROP, len(rest)))
            for b in rest:
                f.write("task %s, obligation %s\n  verifier: %s\n" % (b["task"], b["obligation"], b["why"]))
                for t in b["trace"]:
                    f.write("    %s\n" % t)
            f.write("\nreplay on the real code: %s\n%s\n" % ("a failing run was found" if hit else "no failing run found" if ran else "none", o[-20000:]))
            f.write("\nre-run: python3 %s/run.py %s\n" % (HERE, PROP))
        for b in rest[:12]:
            print("undischarged: task %s obligation %s: %s" % (b["task"], b["obligation"], b["why"][:300]))
        print("VIOLATION property=%s replay=%s%s" % (PROP, rp, "" if hit else " no-failing-input-found"))
        ev["violations"] = len(rest)
        ev["coverage"]["replay_found_failing_run"] = bool(hit)
    ev["wall_s"] = round(time.time() - T0, 2)
    json.dump(ev, open(EVID + "/%s.json" % PROP, "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d tasks, %.1fs" % (PROP, ev["coverage"]["obligations"], disch, len(tasks), ev["wall_s"]))
    return ret

sys.exit(main())
