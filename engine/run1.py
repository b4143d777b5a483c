"""run one contract variant: python run1.py NAME JSON_VARIANT [--conc SEED]"""
import sys, json, time, traceback
sys.path.insert(0, "/verif/engine")
sys.setrecursionlimit(20000)


from verify import run_sym


if __name__ == "__main__":
    import contracts
    contracts.load()
    for c in contracts.REG:
        if sys.argv[1] in (c.name, "all"):
            for v in c.variants:
                if len(sys.argv) > 2 and sys.argv[2] != "-" and any(v.get(k) != x for k, x in json.loads(sys.argv[2]).items()):
                    continue
                t0 = time.time()
                if "--conc" in sys.argv:
                    import dual
                    for seed in range(5):
                        X = dual.ConX("/repo", seed)
                        try:
                            c.fn(X, **v)
                        except dual.Skip:
                            continue
                        finally:
                            X.restore()
                        print(c.name, v, "n=%d" % sum(X.count.values()), X.fail or "ok")
                else:
                    try:
                        X = run_sym(c, v, "/repo")
                    except Exception:
                        traceback.print_exc()
                        continue
                    if X is None:
                        continue
                    print(c.name, v, "%.1fs" % (time.time() - t0), {k: sum(g.status == k for g in X.goals) for k in ("discharged", "failed", "unsupported")})
                    for g in X.goals:
                        if g.status != "discharged":
                            print("    ", g.status, g.name, g.detail[:20000])
