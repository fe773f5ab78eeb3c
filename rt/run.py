"""Run the run-time layer of one property:  run.py ID --seed S --seconds T [--replay FILE | --one JSONFILE]
prints one JSON object."""
import argparse, importlib, json, os, random, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

MODS = ["props_act", "props_cond", "props_fit", "props_rs"]


def load(pid):
    for m in MODS:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        if pid in mod.P:
            return mod.P[pid]
    raise SystemExit(f"no run-time layer for {pid}")


def run_one(check, inp):
    common.reset_all()
    try:
        check(inp)
        return None
    except common.Violation as e:
        return str(e)
    except common.Escape as e:
        return "ESCAPE " + str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.relpath(f.filename, common.REPO)}:{f.lineno}:{f.name}" for f in tb
                 if "/ruleskit/" in f.filename]
        return f"unexpected {type(e).__name__}: {str(e)[:300]} at {' > '.join(where[-3:])}"
    finally:
        common.reset_all()
        common.purge()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=20)
    ap.add_argument("--min", type=int, default=30)
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--one")
    ap.add_argument("--show", action="store_true")
    a = ap.parse_args()
    gen, check, sysgen = load(a.pid)
    if a.one:
        inp = json.load(open(a.one))
        inp = inp.get("input", inp)
        msg = run_one(check, inp)
        print(json.dumps({"failure": msg}))
        common.scratch_cleanup()
        return
    k, m = map(int, a.shard.split("/"))
    r = random.Random(f"{a.pid}/{a.seed}/{k}")
    t0, n, nsys, fails = time.time(), 0, 0, []
    it = iter(sysgen()) if sysgen else iter(())
    sysdone = sysgen is None
    pos = 0
    while (time.time() - t0 < a.seconds or n < a.min) and n < a.max and len(fails) < 3:
        inp = None
        if not sysdone and n % 2 == 0:
            try:
                while True:
                    x = next(it)
                    pos += 1
                    if pos % m == k:
                        inp = x
                        nsys += 1
                        break
            except StopIteration:
                sysdone = True
        if inp is None:
            inp = gen(r)
        msg = run_one(check, json.loads(json.dumps(inp)))
        n += 1
        if msg is not None:
            fails.append({"input": inp, "message": msg})
            if a.show:
                print(msg, file=sys.stderr)
    common.scratch_cleanup()
    print(json.dumps({"pid": a.pid, "cases": n, "systematic": nsys, "systematic_done": bool(sysgen) and sysdone,
                      "seconds": round(time.time() - t0, 1), "failures": fails}))


if __name__ == "__main__":
    main()
