"""check.py <property id> : decides one property; writes evidence/<id>.json"""
import os, sys, time, json, importlib, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
import build, harness

def known(pid):
    out = []
    p = os.path.join(build.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f"finding: property={pid} "): out.append(l[len("finding: "):])
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 2: tier = sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    try:
        for b in getattr(mod, "BUILDS", ("ir", "native")):
            if callable(b): b()
            else: getattr(build, b)()
    except build.BuildError as e:
        print(e); print(f"ERROR property={pid} the code under test does not build"); return 2
    tb = time.time() - t0
    jobs = mod.jobs(tier)
    if only: jobs = [j for j in jobs if only in j[0]]
    res = harness.run_jobs(jobs, tier, seed, getattr(mod, "WORKERS", int(os.environ.get("VERIF_WORKERS", "8"))))
    viol = [v for r in res for v in r["viol"]]
    obl = [o for r in res for o in r["obl"]]
    dis = [o for o in obl if o[1] in ("normal-form", "solver")]
    errs = [(r["name"], r["error"]) for r in res if r.get("error")]
    und = [(r["name"],) + tuple(u) for r in res for u in r["undecided"]]
    S = lambda k: sum(r.get(k, 0) for r in res)
    funcs = sorted({f for r in res for f in r.get("funcs", [])})
    samples = [x for r in res for x in r.get("samples", [])][:4] or [{"obligation": o[0], "result": o[1]} for o in obl[:4]]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": S("states"), "transitions": S("transitions"), "traces_validated_against_impl": S("validated"), "samples": samples,
                       "symbolic_runs_merged_states": S("merges"), "terms": S("terms"),
                       "jobs": [{"job": r["name"], "obligations": len(r["obl"]), "wall_s": round(r.get("wall", 0), 2), "error": r.get("error")} for r in res],
                       "obligations": len(obl), "discharged": len(dis), "discharged_by_solver": sum(o[1] == "solver" for o in obl),
                       "discharged_by_normal_form": sum(o[1] == "normal-form" for o in obl), "undecided": len(und) + len(errs),
                       "solver_queries": S("queries"), "solver_unsat": S("unsat"), "solver_sat": S("sat"), "solver_unknown": S("unknown"), "solver_s": round(S("solver_s"), 2),
                       "native_replays": S("evals"), "functions_encoded": funcs, "bounds": mod.BOUNDS, "outside_bounds": getattr(mod, "OUTSIDE", ""),
                       "build_s": round(tb, 2)},
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + ["rustc's translation of /repo's source to LLVM IR", "the executor's IR semantics (validated against the native build on every run)", "z3"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(build.VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    for k in known(pid): print("KNOWN-FINDING: " + k)
    print(f"{pid} [{tier}]: {len(dis)}/{len(obl)} obligations discharged ({ev['coverage']['discharged_by_solver']} by solver queries), {len(und)} undecided, {len(errs)} job errors, "
          f"{S('validated')} encoding validations, {S('queries')} queries, {S('solver_s'):.1f}s solver, {ev['wall_s']}s")
    for n, e in errs: print(f"UNDECIDED job {n}: {e}")
    for u in und[:20]: print(f"UNDECIDED {u[0]} / {u[1]}: {u[2]}")
    if viol:
        os.makedirs(os.path.join(build.VERIF, "replays"), exist_ok=True)
        seen = set()
        for v in viol[:3]:
            v["property"] = pid
            h = hashlib.sha256(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
            p = os.path.join(build.VERIF, "replays", f"{pid}-{h}.json")
            with open(p, "w") as f: json.dump(v, f, indent=1, default=str)
            print(f"  {v['job']} / {v['obligation']}: {v['what']}")
            print(f"VIOLATION property={pid} replay={p}")
        return 1
    if not dis and S("evals") > 50:
        print(f"UNDECIDED property={pid}: nothing could be decided symbolically; {S('evals')} runs of the real code found no violation")
        return 0
    if not dis:
        print(f"ERROR property={pid} nothing could be decided"); return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
