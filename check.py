#!/usr/bin/env python3
"""check.py ID -- decides one property of /repo's current working tree.

1. the deductive engine (vc/, under python3-vt) regenerates every obligation of the property from /repo's source and
   discharges it with z3 / cvc5;
2. the run-time layer (rt/, under the repository's own interpreter) replays counterexamples and executes the real code
   on concrete inputs against an independent oracle (bounded; never counted as proof).

Exit 0: property held.  Exit 1: a VIOLATION line.  Nothing else."""
import json, os, subprocess, sys, time, tempfile, signal

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RKV_REPO", "/repo")
RTPY = os.environ.get("RKV_RTPY", "/opt/venv/bin/python")
VCPY = os.environ.get("RKV_VCPY", "python3-vt")
OUT = os.path.join(HERE, "out")
try:
    LEVELS = json.load(open(os.path.join(HERE, "levels.json")))
except (OSError, ValueError):
    LEVELS = {}
PROOF = {k for k, v in LEVELS.items() if v["level"] == "proof"}


def load_known():
    """known-findings: lines 'KNOWN-FINDING: property=<id> <text> || <substring of the failure message>'"""
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING:") and "||" in l:
                head, pat = l.split("||", 1)
                res.append((head.strip(), head.split("property=")[1].split()[0], pat.strip()))
    return res


def popen(cmd, log):
    f = open(log, "w")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1")
    return subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd="/", start_new_session=True)


def finish(p, deadline):
    try:
        return p.wait(max(0.1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        return None


def last_json(log):
    try:
        for l in reversed(open(log, errors="replace").read().strip().splitlines()):
            if l.startswith("{"):
                return json.loads(l)
    except (OSError, ValueError):
        pass
    return None


def tail(log, n=2000):
    try:
        return open(log, errors="replace").read()[-n:]
    except OSError:
        return ""


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"rkv_{pid}_")
    known = load_known()
    shards = 7
    rt_s = 45 if tier == "quick" else 300
    vc_s = 300 if tier == "quick" else 800
    if os.environ.get("RKV_RT_SECONDS"):
        rt_s = float(os.environ["RKV_RT_SECONDS"])
    vclog = os.path.join(work, "vc.log")
    vcout = os.path.join(work, "vc.json")
    procs = []
    vc = None
    if os.environ.get("RKV_NO_VC") != "1":
        vc = popen([VCPY, os.path.join(HERE, "vc", "main.py"), pid, "--out", vcout, "--seconds", str(vc_s), "--tier", tier],
                   vclog)
    if os.environ.get("RKV_NO_RT") != "1":
        for k in range(shards):
            log = os.path.join(work, f"rt{k}.log")
            procs.append((popen([RTPY, os.path.join(HERE, "rt", "run.py"), pid, "--seed", str(seed), "--seconds", str(rt_s),
                                 "--shard", f"{k}/{shards}"], log), log))
    rts, errs = [], []
    for p, log in procs:
        rc = finish(p, t0 + rt_s + 200)
        j = last_json(log)
        if rc == 0 and j is not None:
            rts.append(j)
        else:
            errs.append(f"run-time layer: rc={rc} " + tail(log, 1500))
    vcr = None
    if vc is not None:
        if any(r["failures"] for r in rts) and not known:
            # a failing input is at hand: what the verifier has decided so far is enough
            try:
                vc.wait(max(0.1, t0 + 60 - time.time()))
            except subprocess.TimeoutExpired:
                vc.terminate()
                finish(vc, time.time() + 20)
                try:
                    os.killpg(vc.pid, signal.SIGKILL)
                except OSError:
                    pass
        rc = finish(vc, t0 + vc_s + 120)
        try:
            vcr = json.load(open(vcout))
        except (OSError, ValueError):
            vcr = {"obligations": [], "error": f"rc={rc} " + tail(vclog, 1500)}
    failures = [f for r in rts for f in r["failures"]]
    cases = sum(r["cases"] for r in rts)
    obl = (vcr or {}).get("obligations", [])
    proved = [o for o in obl if o["status"] == "proved"]
    refuted = [o for o in obl if o["status"] == "refuted"]
    undecided = [o for o in obl if o["status"] not in ("proved", "refuted")]
    violation, suffix, kf = None, "", []
    real = []
    for f in failures:
        hit = [h for h, i, pat in known if i == pid and pat in f["message"]]
        (kf.extend(hit) if hit else real.append(f))
    # the run-time layer cannot even import the package: every property is broken
    imp = [e for e in errs if "ImportError" in e or "SyntaxError" in e or "ModuleNotFoundError" in e]
    if real:
        violation = {"kind": "failing input, executed on the real code", "input": real[0]["input"],
                     "message": real[0]["message"], "others": [f["message"][:500] for f in real[1:4]],
                     "refuted_obligations": [o["name"] for o in refuted][:10],
                     "how_to_replay": f"{RTPY} {HERE}/rt/run.py {pid} --one <this file>"}
    elif refuted:
        suffix = " no-failing-input-found"
        violation = {"kind": "refuted obligation", "obligation": refuted[0]["name"], "verifier_output": refuted[0].get("detail"),
                     "all": [o["name"] for o in refuted][:20]}
    elif imp and not rts:
        violation = {"kind": "the package cannot be imported", "message": imp[0]}
    for h in sorted(set(kf)):
        print(h)
    # obligations of units whose number of rules, features or tree nodes is fixed are counted apart, never as proved
    gen = [o for o in obl if not o.get("bounded")]
    fixed = [o for o in obl if o.get("bounded")]
    level = "proof" if pid in PROOF else "other"
    cov = {
        "obligations": len(gen),
        "discharged": sum(1 for o in gen if o["status"] == "proved"),
        "bounded_obligations": len(fixed),
        "bounded_discharged": sum(1 for o in fixed if o["status"] == "proved"),
        "bounds": sorted({o["bounded"] for o in fixed})[:40],
        "explanation": LEVELS.get(pid, {}).get("note", "") ,
        "refuted": len(refuted),
        "undecided": len(undecided),
        "undecided_names": [o["name"] + ": " + str(o.get("detail"))[:200] for o in undecided][:30],
        "checker_cmd": f"{VCPY} vc/main.py {pid} --seconds {vc_s}",
        "backends": sorted({o.get("by", "") for o in proved if o.get("by")}),
        "by_backend": {b: sum(1 for o in proved if o.get("by") == b) for b in {o.get("by") for o in proved}},
        "solver_s": round(sum(o.get("t", 0) for o in obl), 2),
        "functions_under_contract": (vcr or {}).get("functions", []),
        "paths": (vcr or {}).get("paths", 0),
        "reachability_checks": (vcr or {}).get("reach", 0),
        "obligation_names": [o["name"] for o in obl][:400],
        "trusted_base": (vcr or {}).get("trusted", []) + [
            "the engine in /verif/vc (mechanical loading of /repo's source, stand-ins, path exploration) and z3/cvc5"],
        "bounded_stand_in": {
            "what": "the real code executed on generated inputs against an independent oracle (bounded, not proof)",
            "evaluations": cases, "seconds_per_process": rt_s, "processes": shards,
            "systematic": sum(r["systematic"] for r in rts)},
        "errors": errs[:3] + ([vcr["error"]] if vcr and vcr.get("error") else []),
    }
    if not proved and level == "proof":
        level = "other"
        cov["explanation"] = "no obligation was discharged on this run: only the bounded stand-in speaks. " + cov["explanation"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": (vcr or {}).get("assumptions", []), "wall_s": round(time.time() - t0, 1),
          "violations": 1 if violation else 0}
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    subprocess.run(["rm", "-rf", work])
    print(f"{pid}: {len(proved)}/{len(obl)} obligations discharged, {len(refuted)} refuted, {len(undecided)} undecided; "
          f"{cases} concrete cases, {len(failures)} failing; {time.time() - t0:.0f}s")
    for o in undecided[:5]:
        print("  undecided:", o["name"], str(o.get("detail"))[:160])
    for e in cov["errors"]:
        print("  note:", e[-600:])
    if violation:
        path = os.path.join(OUT, f"replay_{pid}.json")
        with open(path, "w") as f:
            json.dump(dict(violation, property=pid), f, indent=1, default=str)
        print(str(violation.get("message") or violation.get("obligation"))[:1500])
        print(f"VIOLATION property={pid} replay={path}{suffix}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
