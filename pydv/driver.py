"""Explores the paths of verification tasks and collects their obligations."""
import multiprocessing as mp
import os
import sys
import time
import traceback

from .core import Eng, Infeasible, NeedFork, PathEnd, PyRaise, Restart, Stats, Trail, Unsupported
from .interp import Interp
from .source import Program, SpecModules

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BACKEND = "pydv (weakest-precondition style symbolic execution of the current source) with z3 %s" % __import__("z3").get_version_string()

SOUNDNESS = [
    "pydv itself (extraction, Python-subset semantics, loop-invariant rule, rope theory) and z3",
    "Python integers are mathematical (true in CPython); MemoryError, RecursionError, KeyboardInterrupt and thread interleavings are outside the model",
    "str/bytes/list/re/codecs primitives of CPython follow the axioms in pydv/prims.py (cross-checked by the concrete contract evaluation of the same run)",
    "logging calls, docstrings and type annotations are dropped by the extraction (arguments of logging calls are still evaluated)",
]


class Task:
    def __init__(self, name, props, fn, args=(), limit=240, tier="quick", note=None):
        self.name, self.props, self.fn, self.args = name, props, fn, args
        self.limit, self.tier, self.note = limit, tier, note


def relevant(name, pid):
    """Obligations named "[C01,C03] ..." decide those properties only."""
    if pid is None or not name.startswith("["):
        return True
    from . import tasks

    want = {pid, *tasks.PREMISES.get(pid, ())}
    return not want.isdisjoint(name[1 : name.index("]")].split(","))


def explore(task, prog, spec, contracts, limit=None, verbose=False, pid=None):
    """Runs one task over all its paths."""
    t0 = time.time()
    trail, stats = Trail(), Stats()
    deadline = t0 + (limit or task.limit)
    called, feasible = set(), False
    status, why = "ok", None
    trusted = set()
    while True:
        eng = Eng(trail, stats, deadline=deadline)
        it = Interp(eng, prog, spec, contracts)
        it.trusted = trusted
        restart = False
        try:
            try:
                task.fn(it, *task.args)
            except PyRaise as e:
                raise Unsupported(f"uncaught exception in task: {e.exc}")
            if not feasible:
                feasible = eng.check_feasible()
        except (PathEnd, Infeasible):
            pass
        except Restart as r:
            info = r.pos
            trail.truncate(info.pos)
            del trail.qlog[info.q:]
            del trail.obls[info.obl:]
            prefix = tuple(e[0] for e in trail.entries[:info.pos])
            for key in list(trail.loops):
                li = trail.loops[key]
                if li is not info and key[0][:info.pos] == prefix and len(key[0]) >= info.pos and li.obl >= info.obl and (li.pos > info.pos or key[2] > info.ord):
                    del trail.loops[key]
            restart = True
        except (Unsupported, NeedFork, NotImplementedError) as e:
            status, why = "unsupported", f"{type(e).__name__}: {e}"
            if verbose:
                traceback.print_exc()
        except TimeoutError as e:
            status, why = "timeout", str(e)
            if verbose:
                traceback.print_exc()
        except RecursionError as e:
            status, why = "unsupported", "recursion in the prover"
        except Exception as e:  # a defect of the prover: never an alarm
            status, why = "unsupported", "prover: " + "".join(traceback.format_exception_only(type(e), e)).strip() + " @ " + traceback.format_tb(e.__traceback__)[-1].strip()[:200]
            if verbose:
                traceback.print_exc()
        called |= it.called
        if status != "ok":
            break
        if restart:
            continue
        stats.paths += 1
        if not trail.backtrack():
            break
        if stats.paths > 200000:
            status, why = "timeout", "path limit"
            break
        if time.time() > deadline:
            status, why = "timeout", "task time limit"
            break
    obls = [o for o in trail.obls if relevant(o[1], pid)]
    out = {
        "task": task.name,
        "status": status,
        "why": why,
        "obligations": len(obls),
        "discharged": sum(1 for o in obls if o[2] == "ok"),
        "failed": [{"name": f"{task.name}: {o[1]}", "detail": o[3]} for o in obls if o[2] == "failed"],
        "unknown": [f"{task.name}: {o[1]}" for o in obls if o[2] == "unknown"],
        "paths": stats.paths,
        "queries": stats.queries,
        "solver_s": stats.solver_s,
        "restarts": stats.restarts,
        "called": sorted(called),
        "wall": time.time() - t0,
        "vacuous": status == "ok" and not feasible,
        "trusted": sorted(trusted),
        "distinct": sorted({o[1] for o in obls}),
    }
    if status == "ok" and not trail.obls:
        out["vacuous"] = True
    return out


_ctx = {}


def _work(i):
    from . import tasks

    t = _ctx["tasks"][i]
    sys.setrecursionlimit(10000)
    try:
        return explore(t, _ctx["prog"], _ctx["spec"], tasks.contracts_for(t), limit=_ctx["limit"](t), pid=_ctx["pid"])
    except BaseException as e:
        return {"task": t.name, "status": "unsupported", "why": f"prover: {type(e).__name__}: {e}", "obligations": 0, "discharged": 0, "failed": [], "unknown": [], "paths": 0, "queries": 0, "solver_s": 0.0, "restarts": 0, "called": [], "wall": 0, "vacuous": False, "trusted": [], "distinct": []}


def prove(pid, tier, repo="/repo", workers=6):
    from . import tasks

    t0 = time.time()
    res = {"obligations": 0, "discharged": 0, "failed": [], "trusted": list(SOUNDNESS), "functions": [], "tasks": [], "paths": 0, "queries": 0,
           "solver_s": 0.0, "backend": BACKEND, "bounded": [], "level": tasks.LEVEL.get(pid, "proof"), "assumptions": []}
    try:
        prog = Program(repo)
        spec = SpecModules(ROOT)
    except (SyntaxError, RuntimeError, Unsupported) as e:
        res["bounded"].append(f"all: the program could not be loaded by pydv ({e})")
        res["level"] = "exploration"
        return res
    ts = [t for t in tasks.tasks_for(pid, prog, spec, tier)]
    budget = 420 if tier == "quick" else 3000
    end = t0 + budget

    def limit(t):
        return max(5, min(t.limit if tier == "quick" else t.limit * 6, end - time.time()))

    ts.sort(key=lambda t: -t.limit)
    _ctx.update(pid=pid, tasks=ts, prog=prog, spec=spec, limit=limit)
    out = []
    if ts:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(workers, len(ts)), maxtasksperchild=4) as pool:
            rs = [pool.apply_async(_work, (i,)) for i in range(len(ts))]
            for i, r in enumerate(rs):
                try:
                    out.append(r.get(timeout=max(10, end + 60 - time.time())))
                except mp.TimeoutError:
                    out.append({"task": ts[i].name, "status": "timeout", "why": "worker did not answer", "obligations": 0, "discharged": 0, "failed": [], "unknown": [], "paths": 0, "queries": 0, "solver_s": 0.0, "restarts": 0, "called": [], "wall": 0, "vacuous": False, "trusted": [], "distinct": []})
            pool.terminate()
    funcs, trusted = set(), set()
    for o in out:
        res["paths"] += o["paths"]
        res["queries"] += o["queries"]
        res["solver_s"] += o["solver_s"]
        res["obligations"] += o["obligations"]
        res["discharged"] += o["discharged"]
        res["failed"] += o["failed"]
        trusted |= set(o["trusted"])
        res["tasks"].append({k: (round(o[k], 1) if k == "wall" else o[k]) for k in ("task", "status", "why", "obligations", "discharged", "paths", "queries", "wall")})
        if o["status"] == "ok":
            funcs |= {c for c in o["called"] if not c.startswith(("speclib", "hostspec", "urlspec", "apispec"))}
        if o["status"] != "ok" and not o["failed"]:
            # the failed obligations of an incomplete task still count
            res["bounded"].append(f"{o['task']}: {o['why']}")
        elif o["unknown"] and not o["failed"]:
            res["bounded"].append(f"{o['task']}: solver gave up on {o['unknown'][:3]}")
        elif o["vacuous"]:
            res["bounded"].append(f"{o['task']}: no obligation was reached")
    res["bounded"] += tasks.BOUNDED.get(pid, [])
    res["functions"] = sorted(funcs)
    res["trusted"] += sorted(trusted)
    res["assumptions"] = tasks.ASSUME.get(pid, []) + sorted(trusted)
    if res["obligations"] == 0 or res["discharged"] == 0:
        res["level"] = "exploration"
    return res
