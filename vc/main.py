"""main.py ID --out FILE [--seconds S] [--tier T] [--jobs N] [--only SUBSTR]

Regenerates the obligations of property ID from the current source, explores every unit (a function of the repository under
its contract) in a pool of processes and writes one JSON object.  A unit whose obligations are not all discharged is run again
on small instances without abstraction, to see whether the obligation is definitely false (status refuted) or just not decided."""
import argparse, json, multiprocessing as mp, os, signal, sys, time
from concurrent.futures import ProcessPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import core

MODULES = ("c_activation", "c_files", "c_condition", "c_rule", "c_thresholds", "c_ruleset", "c_tree", "c_save")


def registry(prop):
    import importlib
    out, errors = [], []
    for m in MODULES:
        if not os.path.isfile(os.path.join(HERE, m + ".py")):
            continue
        mod = importlib.import_module(m)
        out += mod.units(prop)
    return out


class Unit:
    def __init__(self, name, make, fns=(), w=1, bounded=None, assumptions=(), small=3, sizes=None):
        self.name, self.make, self.fns, self.w, self.bounded, self.assumptions, self.small = \
            name, make, tuple(fns), w, bounded, tuple(assumptions), small
        self.sizes = sizes       # bounded unit: lengths fixed to these numbers (the rest at most max), values symbolic
        if sizes is not None:
            self.bounded = bounded or "lengths fixed: " + ", ".join(f"{k}={v}" for k, v in sizes.items())


_units = []


def job(k, seconds, t_end):
    u = _units[k]
    t0 = time.time()
    seconds = min(seconds, max(0.0, t_end - t0))
    if seconds < 1:
        return k, None, 0.0
    try:
        if u.sizes is not None:
            r = core.explore(u.make(), u.name, seconds=seconds, small=max(u.sizes.values()), sizes=u.sizes)
        else:
            r = core.explore(u.make(), u.name, seconds=seconds)
        obl = list(r.results.values())
        un = sorted(set(r.unsupported))
        bad = un or any(o["status"] != "proved" for o in obl)
        if not obl and not un:
            un = ["no obligation was reached"]
            bad = True
        if r.vacuous and not r.consistent:
            un.append("the assumptions of every path that reached its postconditions are contradictory")
            bad = True
        small = {}
        if bad and u.small and u.sizes is None:
            for n in range(1, u.small + 1):
                left = min(25.0, t_end - time.time())
                if left < 2:
                    break
                q = core.explore(u.make(), u.name, seconds=left, small=n)
                for o in q.results.values():
                    if o["status"] == "refuted":
                        small.setdefault(o["name"], o["detail"] + f" [instance of size at most {n}]")
                if small:
                    break
        for o in obl:
            if o["status"] == "refuted" and o["name"] not in small and u.small and u.sizes is None:
                # only small instances, executed without abstraction, count as definite
                o["status"] = "undecided"
                o["detail"] = "countermodel not confirmed on a small instance: " + o["detail"]
        for nm, d in small.items():
            o = r.results.get(nm)
            if o is None:
                o = {"name": nm, "by": "z3", "t": 0.0, "n": 1}
                obl.append(o)
            o["status"], o["detail"] = "refuted", d
        if un:
            obl.append({"name": u.name + ": every path is within reach of the verifier", "status": "undecided", "by": "", "t": 0.0,
                        "detail": " ;; ".join(un)[:1200], "n": len(un)})
        return k, {"obl": obl, "paths": r.paths, "reached": sorted(r.reached), "notes": sorted(r.notes)[:5]}, time.time() - t0
    except BaseException as e:
        import traceback
        return k, {"obl": [{"name": u.name + ": runs", "status": "undecided", "by": "", "t": 0.0, "n": 1,
                            "detail": f"{type(e).__name__}: {e} " + traceback.format_exc()[-600:]}], "paths": 0, "reached": [],
                   "notes": []}, time.time() - t0


live = {}


def stop(*_):
    """asked to stop (the replay layer already has a failing input): write down what was decided so far"""
    res = live.get("res")
    if res is not None and live.get("out"):
        res["functions"], res["assumptions"] = sorted(live["fns"]), sorted(live["assume"])
        res["error"] = f"stopped early: {res['units']} of {live['units']} units explored (a failing input was already found)"
        with open(live["out"], "w") as f:
            json.dump(res, f)
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--out")
    ap.add_argument("--seconds", type=float, default=240)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    t_end = t0 + a.seconds
    res = {"obligations": [], "functions": [], "paths": 0, "reach": 0, "trusted": [], "assumptions": [], "error": None, "units": 0,
           "bounded": []}
    try:
        import trusted
        res["trusted"] = trusted.TRUSTED
        global _units
        _units = registry(a.prop)
        if a.only:
            _units = [u for u in _units if a.only in u.name]
        order = sorted(range(len(_units)), key=lambda k: -_units[k].w)
        per = 200 if a.tier == "quick" else 400
        fns, assume = set(), set(trusted.ASSUMPTIONS)
        signal.signal(signal.SIGTERM, stop)
        with ProcessPoolExecutor(min(a.jobs, max(1, len(_units))), mp_context=mp.get_context("fork"),
                                 initializer=signal.signal, initargs=(signal.SIGTERM, signal.SIG_DFL)) as ex:
            fs = {ex.submit(job, k, per, t_end): k for k in order}
            live.update(res=res, fns=fns, assume=assume, out=a.out, units=len(_units))
            for f in as_completed(fs):
                k = fs[f]
                u = _units[k]
                try:
                    k, r, t = f.result()
                except BaseException as e:
                    r, t = {"obl": [{"name": u.name + ": runs", "status": "undecided", "detail": f"process: {e}", "t": 0.0, "by": ""}],
                            "paths": 0, "reached": [], "notes": []}, 0.0
                if r is None:
                    r = {"obl": [{"name": u.name + ": within the time budget", "status": "undecided", "detail": "time budget of the "
                                  "property used up", "t": 0.0, "by": ""}], "paths": 0, "reached": [], "notes": []}
                for o in r["obl"]:
                    o["t"] = round(o.get("t", 0.0), 3)
                    if u.bounded:
                        o["bounded"] = u.bounded
                res["obligations"] += r["obl"]
                res["paths"] += r["paths"]
                res["reach"] += len(r["reached"])
                res["units"] += 1
                if u.bounded:
                    res["bounded"].append(u.name + ": " + u.bounded)
                fns |= set(u.fns)
                assume |= set(u.assumptions)
                if a.v:
                    bad = [o for o in r["obl"] if o["status"] != "proved"]
                    print(f"{'ok ' if not bad else 'BAD'} {u.name} {r['paths']} paths {len(r['obl'])} obligations {t:.1f}s", flush=True)
                    for o in bad[:6]:
                        print("      ", o["status"], o["name"], "|", o["detail"][:600], flush=True)
        res["functions"] = sorted(fns)
        res["assumptions"] = sorted(assume)
    except BaseException as e:
        import traceback
        res["error"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
    res["wall"] = round(time.time() - t0, 1)
    if a.out:
        with open(a.out, "w") as f:
            json.dump(res, f)
    if a.v or not a.out:
        st = {}
        for o in res["obligations"]:
            st[o["status"]] = st.get(o["status"], 0) + 1
        print(a.prop, res["units"], "units", st, res["error"] or "", f"{res['wall']}s")


if __name__ == "__main__":
    main()
