"""Run-time contract harness: evaluates the API-level oracle of one property on the real package (PYTHONPATH=/repo/src).

usage: run.py PROPERTY --seed S --n N [--only LABEL] [--time SECONDS] [--json OUT]
exit status is always 0 if the harness itself worked; the JSON result says what failed.
"""
import argparse, json, os, sys, time, traceback

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--n", type=int, default=40)
ap.add_argument("--only")
ap.add_argument("--time", type=float, default=1e9)
ap.add_argument("--json")
ap.add_argument("--repo", default="/repo")
a = ap.parse_args()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(a.repo, "src"))
import warnings
warnings.filterwarnings("ignore")
import numpy as np
import oracles


def show(case):
    with np.printoptions(threshold=100000, precision=17):
        return {k: repr(v) for k, v in case.items()} if isinstance(case, dict) else repr(case)


def main():
    np.seterr(all="ignore")
    rng = np.random.default_rng([a.seed, int(a.prop[1:])])
    t0 = time.time()
    fails, ran, labels, samples = [], 0, set(), []
    stopped = False
    for label, case, thunk in oracles.ALL[a.prop](rng, a.n):
        if a.only and label != a.only:
            continue
        if time.time() - t0 > a.time:
            stopped = True
            break
        ran += 1
        labels.add(label)
        if len(samples) < 3:
            samples.append({"check": label, "case": case.get("_", show(case)) if isinstance(case, dict) else repr(case)})
        try:
            thunk()
        except oracles.Broken as e:
            fails.append({"check": label, "what": str(e), "case": show(case)})
        except Exception as e:  # the real code raised on a valid input
            fails.append({"check": label, "what": "unexpected %s: %s" % (type(e).__name__, e), "case": show(case), "trace": traceback.format_exc()})
        if len(fails) >= 5:
            break
    res = dict(property=a.prop, seed=a.seed, n=a.n, ran=ran, distinct=len(labels), samples=samples, fails=fails, stopped=stopped, wall=time.time() - t0)
    if a.json:
        json.dump(res, open(a.json, "w"), indent=1)
    else:
        print("%s: %d checks, %d failures, %.1fs" % (a.prop, ran, len(fails), res["wall"]))
        for f in fails:
            print("  ", f["check"], f["what"], f["case"].get("_") if isinstance(f["case"], dict) else "")
            if "trace" in f and a.only:
                print(f["trace"])


main()
