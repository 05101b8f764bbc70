"""check.py <PROPERTY>: runs the solver-based check of one property; see DESIGN.md."""
import os, sys, re, json, time, shutil, importlib.util, fnmatch, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib as S


def load_known():
    p = os.path.join(S.VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main():
    prop = sys.argv[1]
    only = sys.argv[2:] or None
    t0 = time.time()
    work = os.path.join(S.BUILD, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    spec = importlib.util.spec_from_file_location("chk_" + prop, os.path.join(S.VERIF, "checks", prop + ".py"))
    mod = importlib.util.module_from_spec(spec)
    ev = {"property": prop, "tier": S.TIER, "seed": S.SEED, "level": "model_checking", "coverage": {}, "assumptions": [], "wall_s": 0, "violations": 0}
    evp = os.path.join(S.VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    replay_dir = os.path.join(S.VERIF, "evidence", "replay", prop)
    shutil.rmtree(replay_dir, ignore_errors=True)
    rc = 0
    problems, violations, findings, units = [], [], [], []
    try:
        S.ensure_engine()
        spec.loader.exec_module(mod)
        ev["level"] = getattr(mod, "LEVEL", "model_checking")
        ev["assumptions"] = list(getattr(mod, "ASSUMPTIONS", []))
        known = [k for k in load_known() if k["property"] == prop and k.get("status") == "known"]
        tot = {}
        validated = 0
        samples = []
        funcs = set()
        try:
            us = mod.units(work)
        except S.CheckError as e:
            # a build-time disagreement that the check itself diagnosed as a violation carries .violation
            if getattr(e, "violation", None):
                violations.append({"unit": "build", "kind": "compile", "msg": e.violation, "loc": "", "case": e.case, "native": str(e)[:500]})
                us = []
            else:
                raise
        for u in us:
            if isinstance(u, S.BuildFailure):
                violations.append({"unit": u.name, "kind": "compile", "msg": u.msg, "loc": "", "case": u.case, "native": u.log[-600:]})
                continue
            if only and not any(fnmatch.fnmatch(u.name, o) for o in only):
                continue
            r = S.run_unit(u, work)
            for k in ("paths", "forks", "queries", "sat", "unsat", "unknown", "truth_table_queries", "cached_queries", "solver_s", "steps", "asserts", "asserts_symbolic", "asserts_proved_unsat", "concretization_forks", "assume_killed"):
                tot[k] = tot.get(k, 0) + r[k]
            funcs.update(f for f in r["functions"] if not f.startswith("sx_"))
            ur = {"unit": u.name, "bounds": u.bounds, "paths": r["paths"], "queries": r["queries"], "unsat": r["unsat"], "sat": r["sat"], "asserts": r["asserts"], "asserts_symbolic": r["asserts_symbolic"], "symbolic_bytes": r["symbolic_bytes"], "solver_s": r["solver_s"], "wall_s": r["symx_wall_s"], "reach": r["reach"], "exhausted": not r["incomplete"] and not r["stop"]}
            units.append(ur)
            uv = []
            exe = None
            if r["violations"] or r["samples"]:
                exe = S.native_exe(u, work)
            vruns = S.pmap(lambda v: S.native_run(exe, v["file"], 6 if v["kind"] == "hang" else u.replay_timeout, u.env), r["violations"])
            for i, v in enumerate(r["violations"]):
                kf = [k for k in known if fnmatch.fnmatch(u.name, k["unit"]) and fnmatch.fnmatch(v["kind"], k.get("kind", "*")) and re.search(k["match"], v["msg"] + " @ " + v["loc"])]
                nrc, nlog = vruns[i]
                rep = nrc not in (0, 91, 90)
                rec = {"unit": u.name, "kind": v["kind"], "msg": v["msg"], "loc": v["loc"], "case": v["file"], "native": "exit %s: %s" % (nrc, nlog[-600:]), "reproduced": rep}
                if kf:
                    findings.append((kf[0], rec))
                elif rep:
                    violations.append(rec)
                    uv.append(rec)
                else:
                    problems.append("%s: counterexample did not reproduce natively: %s %s at %s (%s)" % (u.name, v["kind"], v["msg"], v["loc"], rec["native"][:300]))
            # translator validation: solver models of completed paths are run natively and must agree
            cases = [os.path.join(r["dir"], "s%d" % i) for i in range(r["samples"])]
            cases = [c for c in cases if os.path.exists(c + ".txt")]
            for i, (case, (nrc, nlog)) in enumerate(zip(cases, S.pmap(lambda c: S.native_run(exe, c, u.replay_timeout, u.env), cases))):
                a, b = S.obs_of(case + ".txt"), S.obs_of(case + ".nobs")
                if nrc == 0 and a == b:
                    validated += 1
                    if len(samples) < 6 and i < 2:
                        samples.append({"unit": u.name, "inputs": [l.strip() for l in open(case + ".txt") if l.startswith("sym ")][:12], "observed": a[:6]})
                elif nrc not in (0, 90, 91) and not uv:
                    rec = {"unit": u.name, "kind": "native", "msg": "native run of a solver model fails", "loc": "", "case": case, "native": "exit %s: %s" % (nrc, nlog[-600:]), "reproduced": True}
                    kf = [k for k in known if fnmatch.fnmatch(u.name, k["unit"]) and k.get("native") and re.search(k["native"], nlog)]
                    if kf:
                        findings.append((kf[0], rec))
                    else:
                        violations.append(rec)
                        uv.append(rec)
                elif not uv:
                    problems.append("%s: sampled path %d disagrees with the native run (exit %s): symbolic %s native %s" % (u.name, i, nrc, a[:8], b[:8]))
            if not uv:
                if r["incomplete"] or r["engine_errors"]:
                    problems.append("%s: not exhausted: %s" % (u.name, r["incomplete_why"]))
                if r["stop"] and not r["violations"]:
                    problems.append("%s: stopped early" % u.name)
                for need in u.reach:
                    if not r["reach"].get(need):
                        problems.append("%s: vacuous: label '%s' was never reached" % (u.name, need))
                if r["asserts"] < u.min_asserts:
                    problems.append("%s: vacuous: only %d assertions were checked" % (u.name, r["asserts"]))
            print("[%s] %-28s paths %-6d queries %-6d (+%d tab, %d cached) unsat %-6d asserts %-6d solver %.1fs wall %.1fs%s" % (prop, u.name, r["paths"], r["queries"], r["truth_table_queries"], r["cached_queries"], r["unsat"], r["asserts"], r["solver_s"], r["symx_wall_s"], "  VIOLATED" if uv else ""), flush=True)
            if uv and not os.environ.get("SX_ALL"):
                break  # a reproduced violation decides the run
        extra = getattr(mod, "extra_evidence", None)
        cov = {"states": tot.get("paths", 0), "transitions": tot.get("forks", 0) + tot.get("concretization_forks", 0), "traces_validated_against_impl": validated, "samples": samples or [{"note": "no sample"}],
               "symbolic_paths": tot.get("paths", 0), "solver_queries": tot.get("queries", 0), "queries_unsat": tot.get("unsat", 0), "queries_sat": tot.get("sat", 0), "queries_unknown": tot.get("unknown", 0), "solver_s": round(tot.get("solver_s", 0), 2), "instructions_executed": tot.get("steps", 0),
               "assertions_checked": tot.get("asserts", 0), "assertions_with_symbolic_condition": tot.get("asserts_symbolic", 0), "functions_encoded": len(funcs), "functions": sorted(funcs)[:400], "units": units, "bounds": getattr(mod, "BOUNDS", ""), "outside": getattr(mod, "OUTSIDE", ""), "exhaustive": False, "deciding_method": "symbolic execution of the LLVM IR of the current tree (symx), Z3 4.8 QF_BV"}
        if ev["level"] == "translation_validation":
            cov["programs"] = len(us)
            cov["disagreements_checked"] = tot.get("asserts", 0)
        if extra:
            cov.update(extra())
        ev["coverage"] = cov
    except S.CheckError as e:
        problems.append(str(e))
    except Exception:
        problems.append(traceback.format_exc())
    seen = set()
    for k, rec in findings:
        if k["id"] in seen:
            continue
        seen.add(k["id"])
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for i, v in enumerate(violations):
        os.makedirs(replay_dir, exist_ok=True)
        p = os.path.join(replay_dir, "case%d" % i)
        if v.get("case"):
            for ext in (".bin", ".txt", ".cxy"):
                if os.path.exists(v["case"] + ext):
                    shutil.copy(v["case"] + ext, p + ext)
        with open(p + ".json", "w") as f:
            json.dump(v, f, indent=1)
        print("  unit %s: %s: %s\n    at %s\n    native: %s" % (v["unit"], v["kind"], v["msg"], v["loc"][:300], v["native"][:240].replace("\n", " | ")))
        print("VIOLATION property=%s replay=%s" % (prop, p + ".json"))
        rc = 1
    if not rc and problems:
        rc = 2
    for p in problems:
        print("PROBLEM: " + p)
    ev["violations"] = len(violations)
    ev["wall_s"] = round(time.time() - t0, 2)
    if ev["coverage"]:
        ev["coverage"]["known_findings_seen"] = sorted(seen)
        if problems:
            ev["coverage"]["problems"] = problems[:10]
        with open(evp, "w") as f:
            json.dump(ev, f, indent=1)
    print("[%s] %s in %.1fs" % (prop, {0: "held on everything explored", 1: "VIOLATED", 2: "inconclusive"}[rc], time.time() - t0))
    if not os.environ.get("SX_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


main()
