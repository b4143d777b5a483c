"""Discharge the obligations a property rests on.

python3-vt verify.py PROPERTY|all --repo /repo --json OUT [--tier quick|thorough] [--jobs N]

Every contract that names the property is run on the source text of /repo/src as it is now: the function is executed
symbolically (engine/interp.py), callees with a contract of their own are replaced by that contract, and each
postcondition becomes an obligation for the normaliser (engine/solver.py) and z3.  Contracts with failed obligations are
then run on the real function with random data (the same text, ConX mode) to look for a failing input.
"""
import argparse, json, multiprocessing as mp, os, signal, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
LIMIT = {"quick": 260, "thorough": 900}
RUN_PY = "/opt/venv/bin/python"


class TimeUp(BaseException):
    pass


def _alarm(*a):
    raise TimeUp()


def run_sym(c, v, repo, thorough=False):
    import dual
    X = dual.SymX(repo, thorough)
    try:
        c.fn(X, **v)
    except dual.Skip:
        return None
    except X.sym.Unsupported as e:
        X.goals.append(dual.Goal("(execution)", "unsupported", "not supported: %s" % e))
    except X.sym.PyRaise as e:
        if e.kind == "TypeError":
            X.goals.append(dual.Goal("(execution)", "unsupported", "interface changed: %s %s" % (e.kind, e.msg)))
        else:
            X.goals.append(dual.Goal("runs without raising", "failed", "raises %s: %s" % (e.kind, e.msg)))
    except X.S.NeedSplit as e:
        X.goals.append(dual.Goal("(execution)", "unsupported", "unsplit condition %r" % e.cond))
    except X.S.Unknown as e:
        X.goals.append(dual.Goal("(execution)", "unsupported", "unknown: %s" % e))
    except TimeUp:
        X.goals.append(dual.Goal("(execution)", "unsupported", "time limit"))
    except RecursionError:
        X.goals.append(dual.Goal("(execution)", "unsupported", "recursion limit"))
    except Exception as e:
        X.goals.append(dual.Goal("(execution)", "unsupported", "engine: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1200:])))
    if not any(g.name == "(execution)" for g in X.goals) and not X.sym.ST.ctx.feasible():
        X.goals.append(dual.Goal("preconditions are satisfiable", "failed", "the assumed context is contradictory", 0.0, "z3"))
    return X


def job(a):
    k, v, repo, tier = a
    import contracts
    contracts.load()
    c = contracts.REG[k]
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT[tier])
    try:
        X = run_sym(c, v, repo, tier == "thorough")
    except TimeUp:
        return k, v, [("(execution)", "unsupported", "time limit", 0.0, "")], {}, time.time() - t0
    except Exception as e:
        return k, v, [("(execution)", "unsupported", "engine: %s" % traceback.format_exc()[-1500:], 0.0, "")], {}, time.time() - t0
    finally:
        signal.alarm(0)
    if X is None:
        return k, v, None, {}, 0.0
    st = dict(z3_calls=X.S.STATS["z3_calls"], z3_time=X.S.STATS["z3_time"], probes=X.probes, used=sorted(getattr(X.NP, "USED", ())), assumed=sorted(set(X.assumed)))
    X.S.STATS["z3_calls"] = 0
    X.S.STATS["z3_time"] = 0.0
    return k, v, [(g.name, g.status, g.detail, g.s, g.by) for g in X.goals], st, time.time() - t0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--json")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--contract")
    a = ap.parse_args()
    import contracts
    contracts.load()
    t0 = time.time()
    jobs = []
    for k, c in enumerate(contracts.REG):
        if (a.prop == "all" or a.prop in c.props) and (not a.contract or c.name.startswith(a.contract)):
            jobs += [(k, v, a.repo, a.tier) for v in c.variants]
    import dual, terms, sym, solver, interp, npmodel  # noqa  (imported before the workers fork)
    heavy = ("eigen", "pydisort.corrected", "coeffs", "assemble.u")
    jobs.sort(key=lambda j: next((i for i, h in enumerate(heavy) if contracts.REG[j[0]].name == h), len(heavy)))
    obls, unsup, used, assumed = [], [], set(), set()
    z3c = z3t = 0
    probes = 0
    wall = 0.0
    failed = {}
    with mp.Pool(a.jobs, maxtasksperchild=1) as pool:
        for k, v, goals, st, w in pool.imap_unordered(job, jobs, chunksize=1):
            if goals is None:
                continue
            c = contracts.REG[k]
            wall += w
            z3c += st.get("z3_calls", 0)
            z3t += st.get("z3_time", 0.0)
            probes += st.get("probes", 0)
            used |= set(st.get("used", ()))
            assumed |= set(st.get("assumed", ()))
            vs = ",".join("%s=%s" % (x, "/".join(map(str, y)) if isinstance(y, tuple) else y) for x, y in v.items())
            for name, status, detail, s, by in goals:
                o = dict(name="%s[%s]: %s" % (c.name, vs, name), contract=c.name, goal=name, function=c.target, s=round(s, 3), by=by)
                if status == "discharged":
                    o["status"] = "discharged"
                elif status == "failed":
                    o["status"] = "refuted"
                    o["detail"] = str(detail)[:1500]
                    failed.setdefault((k, json.dumps(v)), []).append(o)
                else:
                    o["status"] = "unsupported"
                    o["detail"] = str(detail)[:800]
                    unsup.append("%s: %s" % (o["name"], o["detail"][:300]))
                obls.append(o)
    # replay failed obligations on the real function
    if failed:
        todo = [[contracts.REG[k].name, json.loads(v)] for (k, v) in failed][:24]
        try:
            p = subprocess.run([RUN_PY, os.path.join(HERE, "concrete.py"), "--repo", a.repo, "--seeds", "12"], input=json.dumps(todo),
                               text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=240)
            res = {(n, json.dumps(v)): r for n, v, r in json.loads(p.stdout)}
        except Exception as e:
            res = {}
        for (k, v), os_ in failed.items():
            c = contracts.REG[k]
            r = res.get((c.name, v))
            if r and r["fails"]:
                for o in os_:
                    o["failing_call"] = r["fails"]
                    if c.public:
                        o["replayed"] = True
    out = dict(obligations=obls, unsupported=unsup, back_ends=["normaliser (engine/solver.py)", "z3 %s (integer side conditions, case splits)" % z3ver()],
               solver_time_s=round(wall, 2), z3_calls=z3c, z3_time_s=round(z3t, 2), wall_s=round(time.time() - t0, 2),
               vacuity=dict(perturbed_postconditions_rejected=probes, note="every equality obligation is also tried with the result shifted by one and must then fail; preconditions checked satisfiable"),
               trusted_base=["engine/interp.py (Python semantics of the executed subset)", "engine/npmodel.py (models of: %s)" % ", ".join(sorted(used)),
                             "engine/solver.py, engine/terms.py (normaliser)", "z3", "CPython ast"],
               assumptions=["floating-point arithmetic treated as real arithmetic", "denominators met on the way are nonzero",
                            "models of numpy/scipy functions in engine/npmodel.py (cross-checked by running every contract on the real functions)"] + sorted(assumed))
    if a.json:
        json.dump(out, open(a.json, "w"))
    n = len(obls)
    d = sum(o["status"] == "discharged" for o in obls)
    print("%s: %d obligations, %d discharged, %d failed, %d unsupported, %.1f s wall, %.1f s cpu" % (a.prop, n, d, sum(o["status"] == "refuted" for o in obls), len(unsup), time.time() - t0, wall))
    for o in obls:
        if o["status"] != "discharged":
            print("  ", o["status"], o["name"][:200], o["detail"][:200].replace("\n", " "))


def z3ver():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    main()
