#!/usr/bin/env python3
"""Decide one property of /repo's current working tree.

usage: check.py PROPERTY      (VERIF_SEED, VERIF_TIER=quick|thorough from the environment)

Two steps, both on the source in /repo/src as it is now:
 1. engine/verify.py  symbolically executes the real functions and discharges the obligations of the contracts the
    property rests on (unbounded shapes, real arithmetic);
 2. harness/run.py    evaluates the property's run-time contract on the real package: the replay of refuted obligations,
    and the bounded stand-in for the parts named under "bounded" in the evidence.

exit 0: nothing refuted; exit 1: a VIOLATION line was printed; any other exit: the check itself failed.
"""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
RUN_PY = "/opt/venv/bin/python"
VT_PY = "python3-vt"
N = {"quick": 300, "thorough": 4000}
TIME = {"quick": 150, "thorough": 3000}
ENGINE_TIME = {"quick": 480, "thorough": 3000}
CONC = {"quick": (24, 1, 60), "thorough": (2000, 6, 1500)}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in N:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0")
    out = os.path.join(HERE, "evidence", prop + ".run")
    os.makedirs(out, exist_ok=True)

    # ---- run-time contracts on the real package (started first, runs beside the engine)
    def harness(sd, n, secs, tag):
        hj = os.path.join(out, tag + ".json")
        if os.path.exists(hj):
            os.unlink(hj)
        return hj, subprocess.Popen([RUN_PY, os.path.join(HERE, "harness", "run.py"), prop, "--seed", str(sd), "--n", str(n),
                                     "--time", str(secs), "--json", hj, "--repo", REPO], env=env,
                                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    hj, hp = harness(seed, N[tier], TIME[tier], "harness")
    # ---- the contracts themselves, evaluated on the real functions (cross-check of the library models)
    cp = subprocess.Popen([RUN_PY, os.path.join(HERE, "engine", "concrete.py"), "--repo", REPO, "--prop", prop, "--max", str(CONC[tier][0]),
                           "--seeds", str(CONC[tier][1]), "--seed0", str(seed), "--time", str(CONC[tier][2])], env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    # ---- obligations
    ej = os.path.join(out, "engine.json")
    if os.path.exists(ej):
        os.unlink(ej)
    eng, eng_err = None, None
    verify = os.path.join(HERE, "engine", "verify.py")
    try:
        ep = subprocess.run([VT_PY, verify, prop, "--repo", REPO, "--json", ej, "--tier", tier], env=env, text=True,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=ENGINE_TIME[tier])
        if os.path.exists(ej):
            eng = json.load(open(ej))
        else:
            eng_err = "engine produced no result: " + ep.stdout[-1500:]
    except subprocess.TimeoutExpired:
        eng_err = "engine stopped after %d s" % ENGINE_TIME[tier]
    hout, _ = hp.communicate()
    if not os.path.exists(hj):
        print("harness produced no result\n" + hout[-3000:])
        return 3
    har = json.load(open(hj))
    if har["ran"] == 0:
        print("harness ran no case")
        return 3
    cout, cerr = cp.communicate()
    try:
        conc = json.loads(cout)
    except ValueError:
        conc = []
        eng_err = (eng_err or "") + " contract cross-check gave no result: " + cerr[-800:]

    obls = (eng or {}).get("obligations", [])
    if eng is not None and not obls:
        print("engine generated no obligation for", prop)
        return 3
    refuted = [o for o in obls if o["status"] == "refuted"]
    discharged = [o for o in obls if o["status"] == "discharged"]
    undecided = [o for o in obls if o["status"] not in ("refuted", "discharged")]
    pubfail = [dict(contract=n, variant=v, fails=r["fails"]) for n, v, r in conc if r["fails"] and r["public"]]
    privfail = [dict(contract=n, variant=v, fails=r["fails"]) for n, v, r in conc if r["fails"] and not r["public"]]
    extra = 0
    if (refuted or undecided) and not har["fails"] and not pubfail and not any(o.get("replayed") for o in refuted):
        # an obligation failed (or the code left the engine's reach): search harder for an input of the real code that shows it
        ps = [harness(seed + 1000 * k, 4 * N[tier], 200, "harness%d" % k) for k in range(1, 7)]
        for j, p in ps:
            p.communicate()
            if os.path.exists(j):
                h = json.load(open(j))
                extra += h["ran"]
                for f in h["fails"]:
                    f["seed"] = h["seed"]
                har["fails"] += h["fails"]

    rc = 0
    if har["fails"] or refuted or pubfail:
        rp = os.path.join(out, "replay.json")
        json.dump(dict(property=prop, seed=seed, tier=tier, failing_inputs=har["fails"], failing_contract_calls=pubfail, failed_obligations=refuted,
                       how_to_replay="%s %s %s --seed %d --n %d --only '<check>'" % (RUN_PY, os.path.join(HERE, "harness", "run.py"), prop, seed, N[tier])),
                  open(rp, "w"), indent=1)
        confirmed = bool(har["fails"]) or bool(pubfail) or any(o.get("replayed") for o in refuted)
        for o in refuted[:5]:
            print("failed obligation:", o["name"], "-", o.get("detail", "")[:300])
        for f in har["fails"][:5]:
            print("failing input:", f["check"], "-", f["what"][:300])
        for f in pubfail[:3]:
            print("failing call:", f["contract"], json.dumps(f["variant"]), json.dumps(f["fails"][0]["what"])[:300])
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if confirmed else " no-failing-input-found"))
        rc = 1
    rule = ("every case is a complete pydisort problem or helper call drawn from a seeded generator plus fixed corner cases; "
            "counted distinct by the named run-time contract it evaluates, non-trivial because the generator only emits inputs "
            "inside that contract's precondition")
    cov = dict(evaluations=har["ran"] + extra, distinct_nontrivial=har["distinct"], rule=rule, samples=har["samples"])
    level = "exploration"
    assumptions = []
    if eng is not None and obls:
        level = "proof"
        agg = {}
        for o in obls:
            g = agg.setdefault((o["function"], o["contract"], o["goal"]), dict(function=o["function"], contract=o["contract"], obligation=o["goal"], instances=0, discharged=0, s=0.0, by=set()))
            g["instances"] += 1
            g["discharged"] += o["status"] == "discharged"
            g["s"] += o.get("s") or 0
            g["by"].add(o.get("by") or "-")
        lst = [dict(g, s=round(g["s"], 3), by=sorted(g["by"])) for g in agg.values()]
        cov.update(obligations=len(obls), discharged=len(discharged),
                   checker_cmd="%s engine/verify.py %s --repo %s" % (VT_PY, prop, REPO),
                   trusted_base=eng["trusted_base"], functions_under_contract=sorted({o["function"] for o in obls}),
                   back_ends=eng["back_ends"], solver_time_s=eng["solver_time_s"], z3_calls=eng.get("z3_calls"), z3_time_s=eng.get("z3_time_s"),
                   obligation_list=lst, vacuity=eng.get("vacuity"))
        assumptions = eng["assumptions"]
    if undecided or eng_err or (eng or {}).get("unsupported"):
        cov["undecided"] = [dict(name=o["name"], status=o["status"], detail=o.get("detail", "")[:400]) for o in undecided]
        cov["engine_unsupported"] = (eng or {}).get("unsupported", []) + ([eng_err] if eng_err else [])
    cov["bounded"] = "run-time contracts: %d evaluations on the real package, seed %d (never counted as proved)" % (har["ran"] + extra, seed)
    cov["contracts_evaluated_on_the_real_functions"] = dict(variants=len(conc), evaluations=sum(r["evaluations"] for _, _, r in conc),
                                                            disagreements=len(pubfail) + len(privfail), internal=privfail[:5])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(har["fails"]) + len(refuted) + len(pubfail))
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if rc == 0:
        for line in known(prop):
            print(line)
        print("%s: held; obligations %d/%d discharged, %d undecided; %d run-time contract evaluations; %.1f s"
              % (prop, len(discharged), len(obls), len(undecided), har["ran"], time.time() - t0))
    return rc


def known(prop):
    p = os.path.join(HERE, "known-findings.txt")
    res = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) ", line)
            if m and m.group(1) == prop:
                res.append(line.rstrip())
    return res


if __name__ == "__main__":
    sys.exit(main())
