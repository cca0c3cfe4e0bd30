"""Executes the contracts of a property in one of the two worlds."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)


def load(prop):
    from . import world

    importlib.import_module(f"props.{prop.lower()}")
    return [ct for ct in world.CONTRACTS if ct.run.__module__ == f"props.{prop.lower()}"]


class Recorder:
    """Which functions of the code under verification are executed."""

    def __init__(self):
        self.seen = set()
        mon = sys.monitoring
        self.root = os.path.join(REPO, "stheno") + os.sep
        try:
            mon.use_tool_id(3, "pyvc")
        except ValueError:
            return
        mon.register_callback(3, mon.events.PY_START, self.start)
        mon.set_events(3, mon.events.PY_START)

    def start(self, code, offset):
        if code.co_filename.startswith(self.root):
            self.seen.add(f"{code.co_filename[len(self.root):]}:{code.co_firstlineno} {code.co_qualname}")
        return sys.monitoring.DISABLE


REC = None


def _runner(ct, tier):
    from .core import Obligation, PathEnd, Unsupported
    from .world import SymWorld

    def run(c):
        w = SymWorld(c, ct.name)
        w.tier = tier
        try:
            ct.run(w)
        except (PathEnd, Unsupported):
            raise
        except Exception as e:
            # The symbolic backend may lack a method, so this is not necessarily a fault of the code.
            c.obligations.append(
                Obligation(
                    f"{ct.name}: no exception",
                    "exception",
                    f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1800:],
                    tuple(c.trace),
                    "execution",
                    tuple(c.decisions),
                )
            )

    return run


SLICE = 3.0


def run_symbolic(args):
    ct, limit, tier, start = args
    from .core import Obligation, Unsupported, explore

    def alarm(*_):
        raise Unsupported(f"time limit of {limit} seconds for one path")

    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    run = _runner(ct, tier)
    t0 = time.time()
    stats, rest = {}, []
    try:
        obs, paths, stats, covers, rest = explore(run, budget=SLICE, stats=stats, start=start)
    except Unsupported as e:
        obs, paths, covers = [Obligation(f"{ct.name}: (execution)", "unsupported", str(e))], 0, set()
    signal.setitimer(signal.ITIMER_REAL, 0)
    out = []
    for o in obs:
        out.append(
            dict(
                contract=ct.name,
                name=o.name.replace(ct.name + ": ", ""),
                status=o.status,
                backend=o.backend,
                finding=ct.options.get("finding"),
                detail=o.detail[:3000] if o.status != "discharged" else "",
                path=[str(x) for x in o.path[-60:]] if o.status != "discharged" else [],
                decisions=[[l, i] for l, i, _ in o.decisions] if o.status != "discharged" else [],
                sizes=getattr(o, "sizes", None),
            )
        )
    return dict(
        contract=ct.name,
        obligations=out,
        rest=rest,
        paths=paths,
        covers=sorted(covers),
        time=time.time() - t0,
        stats=stats,
        executed=sorted(REC.seen) if REC else [],
    )


def run_concrete(args):
    ct, seeds, script, sizes, tier = args
    from .world import run_numeric

    failures, checked, runs, samples = [], 0, 0, []

    def alarm(*_):
        raise TimeoutError

    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, 240 if tier == "quick" else 3600)
    try:
        for seed in seeds:
            w = run_numeric(ct, seed, script, sizes, tier)
            checked += w.checked
            runs += 1
            for name, detail in w.failures:
                failures.append(
                    dict(
                        contract=ct.name,
                        name=name.replace(ct.name + ": ", ""),
                        detail=detail[:3000],
                        seed=seed,
                        script=script,
                        sizes=sizes,
                        choices=[list(map(str, x)) for x in w.log],
                        finding=ct.options.get("finding"),
                    )
                )
            if len(failures) >= 5:
                break
    except TimeoutError:
        pass
    signal.setitimer(signal.ITIMER_REAL, 0)
    return dict(contract=ct.name, failures=failures, checked=checked, runs=runs)


def main():
    global REC
    ap = argparse.ArgumentParser()
    ap.add_argument("mode")
    ap.add_argument("property")
    ap.add_argument("out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only", default=None)
    ap.add_argument("--script", default=None)
    args = ap.parse_args()

    if args.mode == "sym":
        from . import symlab

        symlab.install()
    import stheno

    assert os.path.realpath(stheno.__file__).startswith(os.path.realpath(REPO) + os.sep), stheno.__file__
    contracts = load(args.property)
    if args.only:
        contracts = [c for c in contracts if args.only in c.name]
    quick = args.tier == "quick"
    contracts = [c for c in contracts if not (quick and c.options.get("thorough"))]
    procs = int(os.environ.get("VERIF_PROCS", "8"))
    result = {}

    if args.mode == "sym":
        REC = Recorder()
        todo = [
            (c, c.options.get("limit", 150) if quick else c.options.get("limit", 150) * 10, args.tier, [])
            for c in contracts
            if not c.options.get("numeric_only")
        ]
        res = merge(pool_map(run_symbolic, todo, procs, total=1500 if quick else 50000))
        result = dict(
            obligations=[o for r in res for o in r["obligations"]],
            paths=sum(r["paths"] for r in res),
            covers=sorted({x for r in res for x in r["covers"]}),
            contracts={
                r["contract"]: dict(
                    obligations=len(r["obligations"]),
                    discharged=sum(o["status"] == "discharged" for o in r["obligations"]),
                    paths=r["paths"],
                    time_s=round(r["time"], 2),
                )
                for r in res
            },
            functions=sorted({f for c in contracts for f in c.functions}),
            executed=sorted({x for r in res for x in r["executed"]}),
            solver_calls=sum(r["stats"].get("solver_calls", 0) for r in res),
            solver_time=sum(r["stats"].get("solver_time", 0.0) for r in res),
            bounded=[f"{c.name}: {c.options['bounded']}" for c in contracts if c.options.get("bounded")],
            bounded_contracts=[c.name for c in contracts if c.options.get("bounded")],
            assumptions=sorted({a for c in contracts for a in c.options.get("assumes", ())}),
        )
        # Vacuity: every contract must yield obligations.
        for r in res:
            if not r["obligations"]:
                result["obligations"].append(
                    dict(contract=r["contract"], name="vacuity", status="unsupported", backend="", finding=None,
                         detail="no obligations were generated", path=[], decisions=[], sizes=None)
                )
    elif args.mode == "num":
        todo = []
        for c in contracts:
            n = c.options.get("runs", 40) * (1 if quick else 25)
            seeds = [args.seed * 100003 + k for k in range(n)]
            step = max(4, n // 16)
            todo.extend((c, seeds[k : k + step], None, None, args.tier) for k in range(0, n, step))
        res = pool_map(run_concrete, todo, procs)
        result = dict(
            failures=[f for r in res for f in r["failures"]],
            checked=sum(r["checked"] for r in res),
            runs=sum(r["runs"] for r in res),
            only_numeric=[f"{c.name}: {c.options['numeric_only']}" for c in contracts if c.options.get("numeric_only")],
        )
    elif args.mode == "suspects":
        with open(args.script) as f:
            jobs = json.load(f)
        by_name = {c.name: c for c in contracts}
        todo = [
            (by_name[o["contract"]], [args.seed * 7919 + k for k in range(12)], o["decisions"], o.get("sizes"), args.tier)
            for o in jobs
            if o["contract"] in by_name
        ]
        res = pool_map(run_concrete, todo, procs)
        result = dict(failures=[f for r in res for f in r["failures"]])
    elif args.mode == "replay":
        with open(args.script) as f:
            items = json.load(f)["confirmed"]
        by_name = {c.name: c for c in contracts}
        res = [
            run_concrete((by_name[o["contract"]], [o["seed"]], o["script"], o.get("sizes"), args.tier))
            for o in items
            if o["contract"] in by_name
        ]
        result = dict(failures=[f for r in res for f in r["failures"]])
    tmp = args.out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(result, f, default=str)
    os.replace(tmp, args.out)


def _call(args):
    f, x = args
    try:
        return f(x)
    except Exception as e:  # A fault of the machinery: undecided.
        ct = x[0]
        o = dict(contract=ct.name, name="(machinery)", status="unsupported", backend="", finding=None,
                 detail=f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}", path=[], decisions=[], sizes=None)
        return dict(contract=ct.name, obligations=[o], paths=0, covers=[], time=0, stats={}, executed=[],
                    failures=[], checked=0, runs=0)


def merge(res):
    """Merge the results of the parts of every contract."""
    out = {}
    for r in res:
        if r["contract"] not in out:
            out[r["contract"]] = dict(r, stats=dict(r["stats"]))
            continue
        o = out[r["contract"]]
        o["obligations"] = o["obligations"] + r["obligations"]
        o["paths"] += r["paths"]
        o["time"] += r["time"]
        o["covers"] = sorted(set(o["covers"]) | set(r["covers"]))
        o["executed"] = sorted(set(o["executed"]) | set(r["executed"]))
        for k, v in r["stats"].items():
            o["stats"][k] = o["stats"].get(k, 0) + v
    return list(out.values())


_TODO = []


def _call_i(arg):
    i, start = arg
    f, x = _TODO[i]
    return i, _call((f, x if start is None else x[:3] + (start,)))


def pool_map(f, todo, procs, total=None):
    """Run tasks in parallel.  What a task leaves is put back in the queue.

    Args:
        total (float, optional): Limit on the processor time of one contract.
    """
    # Contracts are closures, so only pass indices to the forked processes.
    global _TODO
    _TODO = [(f, x) for x in todo]
    queue = [(i, None) for i in range(len(todo))]
    used, res = {}, []
    if not todo:
        return res
    with mp.get_context("fork").Pool(procs) as pool:
        running = []
        while queue or running:
            while queue and len(running) < procs + 2:
                running.append(pool.apply_async(_call_i, (queue.pop(0),)))
            done = [r for r in running if r.ready()]
            if not done:
                running[0].wait(0.02)
                continue
            running = [r for r in running if r not in done]
            for d in done:
                i, r = d.get()
                res.append(r)
                used[i] = used.get(i, 0) + r.get("time", 0)
                rest = r.pop("rest", [])
                if rest and total and used[i] > total:
                    r["obligations"].append(
                        dict(contract=r["contract"], name="(exploration)", status="unsupported", backend="", finding=None,
                             detail=f"exploration stopped after {total} s", path=[], decisions=[], sizes=None)
                    )
                    continue
                queue.extend((i, s) for s in rest)
    return res


if __name__ == "__main__":
    main()
