"""Run contracts on the real functions with random data.

/opt/venv/bin/python concrete.py --repo /repo --seeds N < JSON [[contract, variant], ...]      -> JSON results
/opt/venv/bin/python concrete.py --repo /repo --seeds N --prop C01 [--max M]                   -> JSON results for a sample of variants
"""
import argparse, json, os, random, sys, time, traceback, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
warnings.simplefilter("ignore")


def tup(v):
    return {k: tuple(x) if isinstance(x, list) else x for k, x in v.items()}


def run(c, v, repo, seeds, s0=0):
    import dual
    fails, n = [], 0
    for seed in range(s0, s0 + seeds):
        X = dual.ConX(repo, seed)
        try:
            c.fn(X, **tup(v))
        except dual.Skip:
            continue
        except Exception as e:
            fails.append(dict(seed=seed, what={"(call)": "%s: %s" % (type(e).__name__, e)}, trace=traceback.format_exc()[-600:]))
        finally:
            X.restore()
        n += sum(X.count.values())
        if X.fail:
            fails.append(dict(seed=seed, sizes=X.sizes, what={k: str(x)[:300] for k, x in list(X.fail.items())[:4]}))
        if len(fails) >= 2:
            break
    return dict(evaluations=n, fails=fails)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--seeds", type=int, default=3)
    ap.add_argument("--seed0", type=int, default=0)
    ap.add_argument("--prop")
    ap.add_argument("--max", type=int, default=60)
    ap.add_argument("--time", type=float, default=1e9)
    a = ap.parse_args()
    import contracts
    contracts.load()
    by = {c.name: c for c in contracts.REG}
    if a.prop:
        todo = [(c.name, v) for c in contracts.REG if (a.prop == "all" or a.prop in c.props) and c.conc for v in c.variants]
        random.Random(a.seed0).shuffle(todo)
        todo = todo[:a.max]
    else:
        todo = json.load(sys.stdin)
    out = []
    t0 = time.time()
    for n, v in todo:
        c = by[n]
        if not c.conc or time.time() - t0 > a.time:
            continue
        r = run(c, v, a.repo, a.seeds, a.seed0)
        r["public"] = c.public
        out.append([n, v, r])
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    main()
