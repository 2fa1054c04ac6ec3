#!/opt/veriftools/pyvenv/bin/python
"""check.py PID: decide one property on /repo's current tree.

1. pydv extracts the functions of /repo/src/urlstd from source, generates the
   proof obligations of the property's contracts and discharges them (z3).
2. The same contracts are evaluated on the real code (CPython cross-check,
   counterexample search and bounded stand-in for what pydv does not reach).
Exit 0 / 1 with a VIOLATION line.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
NPROC = 8


def conc_env():
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["VERIF_REPO"] = REPO
    return e


def start_search(pid, seed, seconds, workers):
    ps = []
    for i in range(workers):
        cmd = [PY, os.path.join(ROOT, "conc", "run.py"), "search", pid, str(seed * 1000 + i), str(seconds)]
        if i == 0:
            cmd.append("first")
        ps.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=conc_env(), text=True))
    return ps


def finish_search(ps, limit):
    out = {"n": 0, "distinct": 0, "fail": None, "harness": None, "samples": [], "errors": [], "laws": None}
    end = time.time() + limit
    for p in ps:
        try:
            so, se = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            out["errors"].append("worker killed after time limit")
            continue
        try:
            d = json.loads(so.strip().splitlines()[-1])
        except Exception:
            out["errors"].append((se or so)[-1500:])
            continue
        out["n"] += d["n"]
        out["distinct"] += d["distinct"]
        out["laws"] = out["laws"] or d.get("laws")
        out["samples"] = (out["samples"] + d["samples"])[:3]
        if d["fail"] and (out["fail"] is None or len(json.dumps(d["fail"]["case"])) < len(json.dumps(out["fail"]["case"]))):
            out["fail"] = d["fail"]
        if d["harness"]:
            out["harness"] = d["harness"]
    return out


PREFIX = {
    "AUTHORITY": "{s}://", "HOST": "{s}://", "HOSTNAME": "{s}://", "PORT": "{s}://h:", "FILE": "file:", "FILE_SLASH": "file:/", "FILE_HOST": "file://",
    "PATH_START": "{s}://h", "PATH": "{s}://h/", "OPAQUE_PATH": "{o}:", "QUERY": "{s}://h/p?", "FRAGMENT": "{s}://h/p#", "RELATIVE": "", "RELATIVE_SLASH": "/",
    "NO_SCHEME": "", "SCHEME_START": "", "SPECIAL_RELATIVE_OR_AUTHORITY": "{s}:", "SPECIAL_AUTHORITY_SLASHES": "{s}:", "SPECIAL_AUTHORITY_IGNORE_SLASHES": "{s}:/", "PATH_OR_AUTHORITY": "{o}:/",
}


def hints_from(failed):
    """Strings of the solver's counterexamples: where the search starts."""
    out = []

    def strings(v, d=0):
        if isinstance(v, str):
            if 0 < len(v) <= 300:
                yield v
        elif isinstance(v, dict) and d < 6:
            for x in v.values():
                yield from strings(x, d + 1)
        elif isinstance(v, (list, tuple)) and d < 6:
            for x in v:
                yield from strings(x, d + 1)

    for f in failed[:200]:
        m = f.get("detail", {}).get("model") if isinstance(f.get("detail"), dict) else None
        if not isinstance(m, dict):
            continue
        st, text, i = m.get("state"), m.get("input"), m.get("index")
        if isinstance(text, str) and isinstance(i, int) and st in PREFIX:
            sc = m.get("scheme") if isinstance(m.get("scheme"), str) and m.get("scheme") else "http"
            t = text[max(0, i):]
            for s_, o_ in ((sc, sc), ("http", "a"), ("file", "a")):
                out.append(PREFIX[st].format(s=s_, o=o_) + t)
            out.append(t)
        out.extend(strings({k: v for k, v in m.items() if k not in ("state", "override")}))
    seen, res = set(), []
    for x in out:
        x = x.encode("utf-16", "surrogatepass").decode("utf-16", "replace") if any(0xD800 <= ord(c) < 0xE000 for c in x) else x
        if x and x not in seen:
            seen.add(x)
            res.append(x)
    return res[:400]


def write_replay(pid, data):
    d = os.path.join(ROOT, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}.json")
    with open(path, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return path


def load_known():
    out = []
    try:
        for line in open(os.path.join(ROOT, "KNOWN_FINDINGS"), encoding="utf-8"):
            if line.startswith("finding: "):
                out.append(line[9:].strip())
    except FileNotFoundError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from pydv import driver

    # importing the real module must work at all
    probe = subprocess.run([PY, "-c", "import sys; sys.path.insert(0, %r); import urlstd.parse" % os.path.join(REPO, "src")], capture_output=True, text=True, env=conc_env())
    if probe.returncode != 0:
        path = write_replay(pid, {"property": pid, "case": None, "obligations": ["import urlstd.parse"], "output": probe.stderr[-3000:]})
        print("importing urlstd.parse fails:\n" + probe.stderr[-1500:])
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        return 1
    secs = 20 if tier == "quick" else 240
    ps = start_search(pid, seed, secs, 2 if tier == "quick" else 4)
    proof = driver.prove(pid, tier, repo=REPO, workers=6)
    search = finish_search(ps, secs + 200)
    failed = proof["failed"]
    fail = search["fail"]
    extra = 0
    if fail is None and failed:
        # an obligation is not discharged: look harder for an input
        hints = hints_from(failed)
        if hints:
            os.environ["VERIF_HINTS"] = write_replay(pid + ".hints", hints)
        if fail is None:
            s2 = finish_search(start_search(pid, seed + 7919, 60 if tier == "quick" else 300, NPROC), 500)
            fail = s2["fail"]
            extra += s2["n"]
    cov = {
        "obligations": proof["obligations"],
        "discharged": proof["discharged"],
        "checker_cmd": f"python3-vt {os.path.join(ROOT, 'bin', 'check.py')} {pid}",
        "trusted_base": proof["trusted"],
        "functions_under_contract": proof["functions"],
        "tasks": proof["tasks"],
        "paths": proof["paths"],
        "solver_queries": proof["queries"],
        "solver_seconds": round(proof["solver_s"], 2),
        "backend": proof["backend"],
        "bounded_stand_ins": proof["bounded"],
        "not_discharged": [f["name"] for f in failed][:40],
        "evaluations": search["n"] + extra,
        "distinct_nontrivial": search["distinct"],
        "rule": "directed random cases (conc/gen.py: URL-shaped text, literals mined from the current source) on which the executable contract is evaluated against the real code; distinct by the case's JSON text",
        "samples": search["samples"],
        "laws_checked_natively": {"evaluations": search["laws"][0], "broken": search["laws"][1]} if search["laws"] else None,
    }
    violation = fail is not None or bool(failed)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": proof["level"],
        "coverage": cov,
        "assumptions": proof["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for e in search["errors"]:
        print("search worker error:", e, file=sys.stderr)
    for x in search["laws"][1] if search["laws"] else ():
        print("assumed law does not hold natively:", x, file=sys.stderr)
    if search["harness"] and fail is None:
        print("harness problem (case skipped):", ascii(search["harness"])[:500])
    print(f"{pid} [{tier}] obligations {proof['obligations']}, discharged {proof['discharged']}, paths {proof['paths']}, "
          f"bounded {len(proof['bounded'])}, contract evaluations {search['n'] + extra}, {ev['wall_s']} s")
    for b in proof["bounded"]:
        print("bounded:", b)
    for k in load_known():
        if k.startswith(f"property={pid} "):
            print("KNOWN-FINDING: " + k)
    if fail is not None:
        path = write_replay(pid, {"property": pid, "case": fail["case"], "message": fail["msg"], "obligations": [f["name"] for f in failed], "replay_cmd": f"{PY} {ROOT}/conc/run.py replay <this file>"})
        print(fail["msg"])
        for f in failed[:10]:
            print("failed obligation:", f["name"])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if failed:
        path = write_replay(pid, {"property": pid, "case": None, "obligations": failed[:50]})
        for f in failed[:10]:
            print("failed obligation:", f["name"], "--", str(f.get("detail", ""))[:600])
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        return 1
    if proof["obligations"] == 0 and proof["level"] == "proof":
        print("no obligations were generated", file=sys.stderr)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
