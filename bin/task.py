"""task.py NAME...: run verification tasks verbosely (development)."""
import os, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
from pydv import driver, tasks
prog = driver.Program(os.environ.get("VERIF_REPO", "/repo"))
sp = driver.SpecModules(ROOT)
lim = float(os.environ.get("LIM", "120"))
for a in sys.argv[1:]:
    for t in tasks.all_tasks(prog, sp) if hasattr(tasks, "all_tasks") else tasks.TASKS:
        if t.name == a or (a.endswith("*") and t.name.startswith(a[:-1])):
            r = driver.explore(t, prog, sp, tasks.contracts_for(t), limit=lim, verbose=bool(os.environ.get("V")))
            print(f"{t.name}: {r['status']} {r['why'] or ''} obl {r['discharged']}/{r['obligations']} paths {r['paths']} q {r['queries']} solver {r['solver_s']:.1f} wall {r['wall']:.1f} restarts {r['restarts']}" + (" VACUOUS" if r["vacuous"] else ""))
            for f in r["failed"][:3]:
                print("   FAILED", f["name"], "\n      ", str(f["detail"])[:3000])
            if r["unknown"]:
                print("   UNKNOWN", r["unknown"][:3])
            if os.environ.get("PROF"):
                from pydv import core
                for k, n in sorted(core.PROF.items(), key=lambda x: -x[1])[:15]:
                    print("      ", n, k.replace("\n", " | "))
                core.PROF.clear()
