#!/opt/venv/bin/python
"""Decide one property: run.py <ID> [--tier quick|thorough] [--case NAME] [--replay FILE]."""

import argparse
import glob
import importlib.util
import json
import multiprocessing as mp
import os
import re
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "RAYON_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True

TECHNIQUE = "symbolic execution of the real functions decided by an SMT solver"


def load(prop):
    for f in sorted(glob.glob(os.path.join(HERE, "checks", prop.lower() + "_*.py"))):
        spec = importlib.util.spec_from_file_location("checks_" + os.path.basename(f)[:-3], f)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        yield mod


def worker(cs, seed, conn, mem_gb):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        from symx import harness

        r = harness.run_case(cs, seed)
        r.pop("_last", None)
    except BaseException:  # noqa: BLE001 - reported to the parent, which fails the check
        r = {"case": cs.name, "status": "error", "errors": [traceback.format_exc()[-3000:]]}
    try:
        conn.send(r)
        conn.close()
    finally:
        os._exit(0)


def run_all(cases, seed, jobs, mem_gb, wall):
    ctx = mp.get_context("fork")
    todo = list(cases)
    live = []
    out = []
    t0 = time.time()
    while todo or live:
        while todo and len(live) < jobs:
            cs = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(cs, seed, b, mem_gb), daemon=True)
            p.start()
            b.close()
            live.append((cs, p, a, time.time()))
        nxt = []
        for cs, p, a, t in live:
            if a.poll(0):
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append({"case": cs.name, "status": "error", "errors": ["worker died"]})
                p.join(5)
                a.close()
            elif time.time() - t > cs.opts.get("time_limit", 240) + 120 or time.time() - t0 > wall:
                p.kill()
                p.join(5)
                out.append({"case": cs.name, "status": "inconclusive", "inconclusive": ["killed: time limit"]})
            elif not p.is_alive() and not a.poll(0.2):
                out.append({"case": cs.name, "status": "error", "errors": [f"worker exit {p.exitcode}"]})
            else:
                nxt.append((cs, p, a, t))
        live = nxt
        time.sleep(0.02)
    return out


def known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from symx import harness

    mods = list(load(a.prop))
    meta = {}
    for m in mods:
        meta.update(getattr(m, "META", {}))
    cases = [c for c in harness.CASES.get(a.prop, []) if a.tier in c.tiers]
    if a.case:
        cases = [c for c in harness.CASES[a.prop] if re.search(a.case, c.name)]
    if not cases:
        print("no cases for", a.prop)
        return 3
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        cs = [c for c in harness.CASES[a.prop] if c.name == d["case"]][0]
        ok, det = harness.replay(cs, d["values"], d.get("exc"))
        print(json.dumps(det, indent=1, default=str))
        return 1 if ok else 0
    cases.sort(key=lambda c: -c.opts.get("weight", 1))
    wall = 840 if a.tier == "quick" else 10800
    results = run_all(cases, seed, a.jobs, meta.get("mem_gb", 6), wall)
    results.sort(key=lambda r: r["case"])
    # a case marked optional widens the bounds of another case: when the encoding cannot
    # follow the code there, the narrower case still answers and the evidence says so
    opt = {c.name for c in cases if c.opts.get("optional")}
    unanswered = []
    for r in results:
        if r["case"] in opt and not r.get("violations") and r["status"] not in ("ok", "violation"):
            unanswered.append({"case": r["case"], "reason": [str(e)[-300:] for e in r.get("errors", []) + r.get("inconclusive", [])][:2]})
            r["status"] = "not answered"
            r["errors"] = r["inconclusive"] = []
    viol = [v for r in results for v in r.get("violations", [])]
    errs = [(r["case"], e) for r in results for e in r.get("errors", [])]
    inc = [(r["case"], e) for r in results for e in r.get("inconclusive", [])]

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    known_list = [k for k in known() if k["property"] == a.prop]
    new = []
    for v in viol:
        hit = [
            k for k in known_list if k["case"] == v["case"] and re.fullmatch(k["claim"], v["claim"])
        ]
        if hit:
            print(f"KNOWN-FINDING: property={a.prop} {hit[0]['what']}")
        else:
            new.append(v)
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)  # noqa: E731
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    samples = [s for r in results for s in r.get("samples", [])][:8]
    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("decisions"),
            "traces_validated_against_impl": tot("validated"),
            "samples": samples,
            "obligations": tot("obligations"),
            "discharged": tot("discharged"),
            "closed_by_normalisation": tot("trivial"),
            "solver_queries": tot("queries"),
            "feasibility_queries": tot("feasibility_queries"),
            "solver_seconds": round(tot("solver_s"), 2),
            "functions_encoded": funcs,
            "harnesses": [
                {
                    "case": r["case"],
                    "status": r["status"],
                    "paths": r.get("paths", 0),
                    "obligations": r.get("obligations", 0),
                    "discharged": r.get("discharged", 0),
                    "wall_s": r.get("wall_s"),
                    "notes": r.get("notes", []),
                }
                for r in results
            ],
            "wider_harnesses_not_answered": unanswered,
            "bounds": meta.get("bounds", ""),
            "outside_bounds": meta.get("outside", ""),
            "encoded_source_sha256": harness.source_hash(),
            "rule": "states = feasible symbolic paths; transitions = symbolic branch decisions with both sides feasible; "
            "traces_validated_against_impl = concrete points pushed through both the encoding and the real code",
        },
        "assumptions": meta.get("assumptions", [])
        + sorted({n for r in results for n in r.get("notes", [])}),
        "wall_s": round(time.time() - t0, 2),
        "violations": [
            {k: v[k] for k in ("case", "claim", "values", "how")} for v in viol
        ],
    }
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for r in results if a.v else []:
        print(
            f"{r['case']:44s} {r['status']:12s} paths={r.get('paths')} obl={r.get('obligations')} "
            f"dis={r.get('discharged')} triv={r.get('trivial')} val={r.get('validated')} q={r.get('queries')} "
            f"solver={r.get('solver_s')}s wall={r.get('wall_s')}s"
        )
    for cname, e in errs:
        print(f"ERROR case={cname}\n{e}")
    for cname, e in inc:
        print(f"INCONCLUSIVE case={cname} {e}")
    if new:
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        for i, v in enumerate(new[:12]):
            path = os.path.join(
                HERE, "evidence", "replay", f"{a.prop}-{re.sub(r'[^A-Za-z0-9]+', '_', v['case'])}-{i}.json"
            )
            with open(path, "w") as f:
                json.dump({"property": a.prop, **v}, f, indent=1, default=str)
            print(f"  case={v['case']} claim={v['claim']} detail={json.dumps(v['detail'], default=str)[:700]}")
            print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if errs or inc:
        return 2
    print(
        f"OK property={a.prop} tier={a.tier} harnesses={len(results)} obligations={tot('obligations')} "
        f"discharged={tot('discharged')} paths={tot('paths')} queries={tot('queries')} "
        f"solver_s={tot('solver_s'):.1f} wall_s={time.time() - t0:.1f}"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main())
