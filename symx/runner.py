"""python3-vt -m symx.runner ID : run the check of one property."""

import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def _child(modname, jobname, tier, q):
    try:
        sys.setrecursionlimit(20000)
        from symx import engine, harness, shims, sym
        import wulfric

        import z3

        z3.set_param("smt.random_seed", int(os.environ.get("VERIF_SEED", "1") or 1) % 1000)
        mod = importlib.import_module("checks." + modname)
        job = {j.name: j for j in mod.jobs(tier)}[jobname]
        ex = engine.Explorer(
            max_paths=job.paths, wall_s=job.wall, feas_ms=job.feas_ms, check_ms=job.check_ms, max_conc=job.max_conc
        )
        ex.nice_seen = set()
        ex.stop_on_cex = job.stop_on_cex
        ex.witness = []
        t0 = time.time()

        def fn(c):
            h = harness.H(c, ex, wulfric)
            c.h = h
            job.fn(h)
            ex.nch = getattr(ex, "nch", 0) + h.nchecks
            if len(ex.witness) < 3 and (len(ex.witness) == 0 or ex.stats.paths % 7 == 0):
                _witness(c, ex, h)

        def onexc(c, e):
            tb = traceback.format_exc()
            if os.environ.get("SYMX_TRACE"):
                print(tb[:3000], "....", tb[-5000:])
            if isinstance(e, (RecursionError, MemoryError)):
                ex.unsupported.append("engine: " + type(e).__name__ + tb[-800:])
                raise sym.PathAbort()
            if job.exceptions_are_violations:
                c.check(False, "unexpected exception " + type(e).__name__, info={"choices": list(c.h.choices)})
            else:
                ex.unsupported.append("exception: " + tb[-1800:])
                raise sym.PathAbort()

        ex.run(fn, onexc)
        res = {
            "job": jobname,
            "status": "done",
            "obl": ex.obl,
            "trivial": ex.trivial,
            "paths": ex.stats.paths,
            "reached": ex.reached,
            "forks": ex.stats.forks,
            "queries": ex.stats.queries,
            "feas": ex.stats.feas,
            "solver_s": ex.stats.solver_s,
            "unknown": ex.stats.unknown,
            "truncated": sorted(ex.truncated),
            "unsupported": ex.unsupported[:5],
            "n_unsupported": len(ex.unsupported),
            "unknown_obl": ex.unknown_obl[:20],
            "notes": sorted(ex.notes),
            "violations": [
                {"label": v.label, "inputs": _ser(v.model), "choices": (v.info or {}).get("choices", [])}
                for v in ex.violations
            ],
            "witness": ex.witness,
            "functions": sorted(f"{m}:{f}" for m, f in shims.ENTERED),
            "wall_s": time.time() - t0,
            "nchecks": getattr(ex, "nch", 0),
        }
    except BaseException:
        res = {"job": jobname, "status": "crash", "error": traceback.format_exc()[-3000:]}
    q.put(res)


def _witness(c, ex, h):
    from symx import engine

    r, m = engine.solve(c.pc + ex.nice(), 2000, ex.stats)
    if r != "sat":
        r, m = engine.solve(c.pc, 3000, ex.stats)
    if r == "sat":
        x = engine.model_inputs(m)
        if x is not None:
            ex.witness.append({"inputs": _ser(x), "choices": list(h.choices)})


def _ser(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, bool):
            out[k] = v
        elif isinstance(v, int):
            out[k] = v
        else:
            out[k] = float(v)
    return out


def run_jobs(modname, jobs, tier, workers=8, limit=None, confirm=None):
    """limit: seconds after which jobs end with what they have; confirm(result): replays the counterexamples of a job,
    after the first confirmed one the others get a minute"""
    from symx import engine

    ctx = mp.get_context("fork")
    stop = engine.STOP = ctx.Value("d", time.time() + limit if limit else float("inf"), lock=False)
    pending = list(jobs)
    running = []
    results = []
    while pending or running:
        while pending and time.time() > stop.value:
            results.append({"job": pending.pop(0).name, "status": "not started", "error": "the time of the whole check was used up or a violation was confirmed before"})
        while pending and len(running) < workers:
            j = pending.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_child, args=(modname, j.name, tier, q), daemon=True)
            p.start()
            running.append((j, p, q, time.time()))
        time.sleep(0.05)
        nxt = []
        for j, p, q, t0 in running:
            if not q.empty():
                r = q.get()
                results.append(r)
                p.join(5)
                if p.is_alive():
                    p.kill()
                if r.get("violations") and confirm and stop.value > time.time() + 60 and confirm(r):
                    stop.value = time.time() + 60
            elif not p.is_alive():
                if not q.empty():
                    results.append(q.get())
                else:
                    results.append({"job": j.name, "status": "crash", "error": f"exit code {p.exitcode}"})
            elif time.time() > min(t0 + j.wall * 1.25 + 30, stop.value + 60):
                p.kill()
                p.join(5)
                results.append({"job": j.name, "status": "killed", "error": "hard time limit"})
            else:
                nxt.append((j, p, q, t0))
        running = nxt
    return results


def replay_many(modname, cases, tier, timeout=600):
    """run concrete replays in one process -> list of results"""
    if not cases:
        return []
    import tempfile

    with tempfile.TemporaryDirectory() as td:
        p = os.path.join(td, "cases.json")
        with open(p, "w") as f:
            json.dump({"cases": [dict(c, module=modname, tier=tier) for c in cases]}, f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=VERIF)
        try:
            r = subprocess.run(
                [PY, "-W", "ignore", "-m", "symx.concrete", p],
                cwd=td, env=env, capture_output=True, text=True, timeout=timeout,
            )
        except subprocess.TimeoutExpired:
            return [{"status": "timeout", "failed": []} for _ in cases]
        for line in r.stdout.splitlines():
            if line.startswith("REPLAY-RESULT "):
                return json.loads(line[len("REPLAY-RESULT "):])
        if len(cases) > 1:
            out = []
            for c in cases:
                out.extend(replay_many(modname, [c], tier, timeout=120))
            return out
        return [{"status": "error", "failed": [], "trace": (r.stderr or r.stdout)[-1500:]}]


def load_known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and line.startswith("{"):
                out.append(json.loads(line))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    only = None
    for a in sys.argv[2:]:
        if a.startswith("--job="):
            only = a[6:]
    verbose = "-v" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    modname = pid.lower()
    sys.path.insert(0, VERIF)
    from symx import loader

    load_error = None
    try:
        loader.load()
    except Exception:
        load_error = traceback.format_exc()
    if load_error:
        print("ERROR: cannot load the package:", load_error[-2000:])
        return 2
    mod = importlib.import_module("checks." + modname)
    jobs = mod.jobs(tier)
    if only:
        jobs = [j for j in jobs if only in j.name]
    jobs_sorted = sorted(jobs, key=lambda j: -j.wall)
    known = [k for k in load_known() if k.get("property") == pid and k.get("status", "open") == "open"]

    def confirm(r):
        if any(k.get("job") == r["job"] for k in known):
            return False
        cases = [{"job": r["job"], "inputs": v["inputs"], "choices": v["choices"]} for v in r["violations"]]
        return any(x["failed"] for x in replay_many(modname, cases[:6], tier, timeout=60))

    limit = float(os.environ.get("SYMX_LIMIT", "700" if tier == "quick" else "780"))
    results = run_jobs(modname, jobs_sorted, tier, workers=int(os.environ.get("SYMX_WORKERS", "8")), limit=limit, confirm=confirm)
    byname = {r["job"]: r for r in results}
    # replay counterexamples and witnesses on the real code
    cases = []
    for j in jobs:
        r = byname[j.name]
        for v in r.get("violations", []):
            cases.append({"job": j.name, "inputs": v["inputs"], "choices": v["choices"], "kind": "cex", "label": v["label"]})
    for j in jobs:
        r = byname[j.name]
        for v in r.get("witness", []):
            cases.append({"job": j.name, "inputs": v["inputs"], "choices": v["choices"], "kind": "witness", "label": ""})
    reps = replay_many(modname, cases, tier)
    rdir = os.path.join(VERIF, "out", "replay")
    os.makedirs(rdir, exist_ok=True)
    violations = []
    known_hit = []
    spurious = []
    wit_ok = wit_bad = wit_skip = 0
    wit_notes = []
    for c, r in zip(cases, reps):
        if c["kind"] == "witness":
            if r["status"] == "ok" and not r["failed"]:
                wit_ok += 1
            elif r["status"] == "skip":
                wit_skip += 1
            else:
                wit_bad += 1
                wit_notes.append({"job": c["job"], "failed": r["failed"][:2], "status": r["status"], "trace": (r.get("trace") or "")[-600:], "inputs": c["inputs"], "choices": c["choices"]})
            continue
        if r["failed"]:
            kf = None
            for k in known:
                if k.get("job") == c["job"] and all(k.get("label") == lab for lab, _ in r["failed"]):
                    kf = k
                    break
            if kf is not None:
                if kf not in known_hit:
                    known_hit.append(kf)
                continue
            path = os.path.join(rdir, f"{pid}_{len(violations)}.json")
            with open(path, "w") as f:
                json.dump({"module": modname, "tier": tier, "property": pid, "job": c["job"], "label": c["label"], "inputs": c["inputs"], "choices": c["choices"], "failed": r["failed"],
                           "how": f"PYTHONPATH={VERIF} {PY} -m symx.concrete {path}"}, f, indent=1)
            violations.append((c, r, path))
        else:
            spurious.append({"job": c["job"], "label": c["label"], "status": r["status"], "inputs": c["inputs"], "choices": c["choices"], "trace": (r.get("trace") or "")[-400:]})
    # summary
    discharged = sum(o["discharged"] for r in results for o in r.get("obl", {}).values())
    unknown = sum(o["unknown"] for r in results for o in r.get("obl", {}).values())
    cex = sum(o["cex"] for r in results for o in r.get("obl", {}).values())
    inconclusive = []
    for j in jobs:
        r = byname[j.name]
        why = []
        if r["status"] != "done":
            why.append(r["status"] + ": " + r.get("error", "")[-300:])
        else:
            if r["n_unsupported"]:
                why.append(f"{r['n_unsupported']} paths outside the encodable subset: " + r["unsupported"][0][-300:])
            if r["truncated"]:
                why.append("truncated: " + ", ".join(r["truncated"]))
            if r["unknown_obl"]:
                why.append(f"{len(r['unknown_obl'])} obligations undecided: " + ", ".join(sorted(set(r["unknown_obl"])))[:300])
            if r["reached"] == 0 or r["nchecks"] == 0:
                why.append("vacuous: no path reached a check")
        if why:
            inconclusive.append({"job": j.name, "why": why})
    functions = sorted({f for r in results for f in r.get("functions", [])})
    samples = []
    for c, r in zip(cases, reps):
        if c["kind"] == "witness" and len(samples) < 6:
            samples.append({"job": c["job"], "inputs": c["inputs"], "choices": c["choices"], "replay": r["status"]})
    if not samples:
        samples = [{"job": j.name, "bounds": j.bounds} for j in jobs[:3]]
    queries = sum(r.get("queries", 0) for r in results)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sum(r.get("paths", 0) for r in results),
            "transitions": sum(r.get("forks", 0) for r in results) + sum(r.get("paths", 0) for r in results),
            "traces_validated_against_impl": wit_ok,
            "samples": samples,
            "obligations": discharged + unknown + cex,
            "discharged": discharged,
            "undecided": unknown,
            "counterexamples": cex,
            "jobs": len(jobs),
            "inconclusive_jobs": inconclusive,
            "explanation": "Symbolic execution of the package's source (AST of the working tree) with an SMT decision per assertion and path; states = symbolic paths, transitions = path segments between branch decisions, traces_validated_against_impl = satisfying assignments of explored paths replayed on the real package without disagreement.",
            "functions_encoded": functions,
            "bounds": {j.name: j.bounds for j in jobs if j.bounds},
            "solver": "z3 " + _z3v(),
            "solver_queries": queries,
            "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2),
            "closed_by_normalisation": sum(r.get("trivial", 0) for r in results),
            "solver_unknowns": sum(r.get("unknown", 0) for r in results),
            "witness_replays": {"agree": wit_ok, "assumption_lost_to_rounding": wit_skip, "disagree": wit_bad},
            "witness_disagreements": wit_notes[:5],
            "unreproduced_counterexamples": spurious[:10],
            "notes": sorted({n for r in results for n in r.get("notes", [])}),
            "known_findings": [k.get("id") for k in known_hit],
            "per_job": {
                r["job"]: {
                    k: r.get(k) for k in ("status", "paths", "reached", "forks", "queries", "obl", "truncated", "unknown_obl") if k in r
                } | {"wall_s": round(r.get("wall_s", 0), 2), "solver_s": round(r.get("solver_s", 0), 2)}
                for r in results
            },
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "float arithmetic is modelled as exact real arithmetic (decimal literals exact, pi = the double nearest pi); rounding is outside the claim",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if verbose:
        for r in sorted(results, key=lambda r: r["job"]):
            print(r["job"], r["status"], "paths", r.get("paths"), "reached", r.get("reached"), "q", r.get("queries"), "t %.1f" % r.get("wall_s", 0), {k: v for k, v in r.get("obl", {}).items() if v["unknown"] or v["cex"]} or sum(o["discharged"] for o in r.get("obl", {}).values()))
            if r["status"] != "done":
                print("   ", r.get("error"))
            for u in r.get("unsupported", [])[:2]:
                print("    UNSUPPORTED", u[-900:])
            if r.get("truncated"):
                print("    TRUNC", r["truncated"])
            if r.get("notes"):
                print("    NOTES", r["notes"])
        for s in spurious:
            print("SPURIOUS", s)
        for s in wit_notes:
            print("WITNESS-DISAGREE", s)
        print("witness agree", wit_ok, "skip", wit_skip, "bad", wit_bad)
    for k in known_hit:
        print(f"KNOWN-FINDING: property={pid} {k.get('what')}")
    print(
        f"{pid} tier={tier} jobs={len(jobs)} paths={ev['coverage']['states']} obligations={discharged + unknown + cex} "
        f"discharged={discharged} undecided={unknown} cex={cex} queries={queries} wall={ev['wall_s']}s"
    )
    for i in inconclusive:
        print("INCONCLUSIVE", i["job"], "; ".join(i["why"])[:400])
    for s in spurious[:5]:
        print("UNREPRODUCED", s["job"], s["label"], s["status"])
    if violations:
        for c, r, path in violations[:5]:
            lab, msg = r["failed"][0]
            print(f"  {c['job']}: {lab}: {msg[:300]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if discharged == 0:
        print("ERROR: nothing was decided")
        return 2
    return 0


def _z3v():
    import z3

    return z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main())
