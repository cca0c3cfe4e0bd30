#!/opt/venv/bin/python
"""Decide one property: `check.py C01`.

The contracts of the property are executed symbolically on the real code (every obligation must be discharged),
and numerically on the uninstrumented code (replay of refutations; bounded stand-in).
"""
import argparse
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def environment():
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONPATH=REPO,
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        TF_CPP_MIN_LOG_LEVEL="3",
        CUDA_VISIBLE_DEVICES="",
        VERIF_REPO=REPO,
    )
    return env


def known_findings(prop):
    out = {}
    with open(os.path.join(ROOT, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith(f"finding: property={prop} "):
                key, _, what = line[len(f"finding: property={prop} ") :].partition(" ")
                out[key] = what
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only", default=None, help="only contracts whose name contains this")
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--replay", default=None)
    args = ap.parse_args()
    prop, tier, seed = args.property, args.tier, args.seed
    t0 = time.time()
    work = os.path.join(ROOT, "evidence", "work")
    os.makedirs(work, exist_ok=True)

    def start(mode, out, *extra):
        cmd = [PY, "-W", "ignore", "-m", "pyvc.worker", mode, prop, out, "--seed", str(seed), "--tier", tier]
        if args.only:
            cmd += ["--only", args.only]
        cmd += list(extra)
        log = open(out + ".log", "w")
        return subprocess.Popen(cmd, cwd=ROOT, env=environment(), stdout=log, stderr=log)

    if args.replay:
        out = os.path.join(work, f"{prop}.replay.json")
        start("replay", out, "--script", args.replay).wait()
        print(open(out).read())
        return 0

    f1, f3 = (os.path.join(work, f"{prop}.{x}.json") for x in ("sym", "num"))
    for f in (f1, f3):
        if os.path.exists(f):
            os.remove(f)
    # Both need all cores: first the proof, then the concrete executions.
    limit = 420 if tier == "quick" else 7200
    p1 = start("sym", f1)
    try:
        p1.wait(limit)
    except subprocess.TimeoutExpired:
        p1.kill()
    p3 = start("num", f3)
    try:
        p3.wait(limit - 120)
    except subprocess.TimeoutExpired:
        p3.kill()

    def load(f, what):
        try:
            with open(f) as h:
                return json.load(h)
        except Exception:
            tail = open(f + ".log").read()[-3000:] if os.path.exists(f + ".log") else ""
            return {"error": f"{what} did not finish: {tail}"}

    sym, num = load(f1, "symbolic execution"), load(f3, "numeric execution")
    obligations = sym.get("obligations", [])
    bad = [o for o in obligations if o["status"] != "discharged"]
    failures = list(num.get("failures", []))
    # Replay the counterexamples of the verifier.
    suspects = [o for o in bad if o["status"] in ("refuted", "exception")]
    if suspects:
        fr, script = (os.path.join(work, f"{prop}.{x}.json") for x in ("suspects", "script"))
        seen, jobs = {}, []
        for o in suspects:
            k = (o["contract"], o["name"])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 3 and len(jobs) < 200:
                jobs.append(o)
        with open(script, "w") as h:
            json.dump(jobs, h)
        if os.path.exists(fr):
            os.remove(fr)
        pr = start("suspects", fr, "--script", script)
        try:
            pr.wait(200)
        except subprocess.TimeoutExpired:
            pr.kill()
        r = load(fr, "replay")
        failures += r.get("failures", [])

    known = known_findings(prop)
    confirmed, listed = [], {}
    for f in failures:
        key = f.get("finding")
        if key and key in known:
            listed[key] = f
        else:
            confirmed.append(f)
    unconfirmed = []
    if not confirmed:
        unconfirmed = [o for o in bad if o["status"] == "refuted" and not o.get("finding")]

    # Evidence.
    undecided = {}
    for o in bad:
        if o["status"] not in ("refuted",):
            k = f'{o["contract"]}: {o["name"]}: {o["status"]}: {o["detail"][:160]}'
            undecided[k] = undecided.get(k, 0) + 1
    # What bounded contracts discharge is not counted as proved.
    limited = set(sym.get("bounded_contracts", []))
    n_all, d_all = len(obligations), sum(o["status"] == "discharged" for o in obligations)
    proved = [o for o in obligations if o["contract"] not in limited]
    n, d = len(proved), sum(o["status"] == "discharged" for o in proved)
    by_backend = {}
    for o in proved:
        if o["status"] == "discharged":
            by_backend[o["backend"]] = by_backend.get(o["backend"], 0) + 1
    sys.path.insert(0, ROOT)
    from pyvc.report import ASSUMPTIONS, TRUSTED

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "proof",
        "coverage": {
            "obligations": n,
            "discharged": d,
            "checker_cmd": f"{PY} check.py {prop} --tier {tier} --seed {seed}",
            "trusted_base": TRUSTED,
            "discharged_by_backend": by_backend,
            "undecided": undecided,
            "contracts": sym.get("contracts", {}),
            "functions_under_contract": sym.get("functions", []),
            "functions_executed_symbolically": sym.get("executed", []),
            "paths": sym.get("paths", 0),
            "solver_calls": sym.get("solver_calls", 0),
            "solver_time_s": round(sym.get("solver_time", 0), 3),
            "cover_points_reached": sym.get("covers", []),
            "bounded_obligations": n_all - n,
            "bounded_obligations_discharged": d_all - d,
            "bounded_numeric_executions": num.get("runs", 0),
            "bounded_numeric_checks": num.get("checked", 0),
            "bounded_stand_ins": sym.get("bounded", []) + num.get("only_numeric", []),
            "errors": [x["error"] for x in (sym, num) if "error" in x],
        },
        "assumptions": ASSUMPTIONS + sym.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed) + len(unconfirmed),
    }
    if not args.only:
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as h:
            json.dump(evidence, h, indent=1)

    print(
        f"{prop}: {n} obligations, {d} discharged {by_backend} (bounded: {d_all - d} of {n_all - n}), {sym.get('paths', 0)} paths; "
        f"{num.get('runs', 0)} concrete executions with {num.get('checked', 0)} checks; {time.time() - t0:.1f} s"
    )
    for k, c in undecided.items():
        print(f"  undecided ({c}x): {k}")
    if args.verbose:
        for o in bad[:40]:
            print("  --", o["contract"], "|", o["name"], "|", o["status"], "|", o["detail"][:1500])
            print("     path:", "; ".join(o["path"][-12:]))
    for x in (sym, num):
        if "error" in x:
            print("  error:", x["error"][-1500:])
    for key in listed:
        print(f"KNOWN-FINDING: property={prop} {key} {known[key]}")

    # Nothing may pass vacuously.
    if not obligations and not num.get("checked"):
        print("no obligations and no checks: the check is broken")
        return 2
    if confirmed or unconfirmed:
        os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", "replay", f"{prop}.json")
        with open(path, "w") as h:
            json.dump({"property": prop, "confirmed": confirmed[:20], "failed_obligations": unconfirmed[:20] or suspects[:20]}, h, indent=1)
        for f in (confirmed or unconfirmed)[:5]:
            print("  failed:", f["contract"], "|", f["name"], "|", f["detail"][:400])
        print(f"VIOLATION property={prop} replay={path}" + ("" if confirmed else " no-failing-input-found"))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
