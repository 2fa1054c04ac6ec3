"""Worker: evaluates a property's executable contract on the real code.

run.py search PID SEED SECONDS   directed search; one JSON object on stdout
run.py cases PID FILE            evaluate given cases (JSON list); one JSON object
run.py replay FILE               re-evaluate a replay file; exit 1 if it fails again
"""
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def evaluate(run, case):
    import props

    try:
        return props.guarded(lambda: run(case), 60)
    except props.Timeout as e:
        return f"{e} on {ascii(case)[:300]}"
    except Exception as e:  # the real code raised where the contract allows nothing
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        inside = any("/src/urlstd/" in f.filename for f in tb)
        if not inside:
            return None if isinstance(e, (MemoryError,)) else f"HARNESS {type(e).__name__}: {ascii(str(e))[:300]}"
        return f"unexpected {type(e).__name__}: {ascii(str(e))[:300]}"


def main():
    mode = sys.argv[1]
    import gen as G
    import props
    import real

    src = os.path.join(real.REPO, "src", "urlstd", "parse.py")
    if mode == "search":
        pid, seed, seconds = sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
        strs, ints = G.mined_literals(src)
        g = G.Gen(seed, strs, ints, surrogates=pid in props.SURROGATES)
        gen, run = props.get(pid)
        t0 = time.time()
        n, fail, harness = 0, None, None
        seen = set()
        samples = []
        ex = getattr(props, "exhaustive_" + pid, None)
        laws = None
        if len(sys.argv) > 5 and sys.argv[5] == "first":
            import laws as L

            laws = L.check(seed)
        if ex is not None and len(sys.argv) > 5 and sys.argv[5] == "first":
            k, case, msg = ex()
            n += k
            if msg:
                fail = {"case": case, "msg": msg}
        while fail is None and time.time() - t0 < seconds:
            case = gen(g)
            n += 1
            key = hash(json.dumps(case, sort_keys=True, default=str))
            seen.add(key)
            if len(samples) < 3:
                samples.append(ascii(case)[:300])
            m = evaluate(run, case)
            if m and m.startswith("HARNESS"):
                harness = {"case": case, "msg": m}
                continue
            if m:
                fail = {"case": case, "msg": m}
        print(json.dumps({"n": n, "distinct": len(seen), "fail": fail, "harness": harness, "samples": samples, "laws": laws}))
    elif mode == "cases":
        pid = sys.argv[2]
        gen, run = props.get(pid)
        fail, n = None, 0
        for case in json.load(open(sys.argv[3])):
            n += 1
            m = evaluate(run, case)
            if m and not m.startswith("HARNESS"):
                fail = {"case": case, "msg": m}
                break
        print(json.dumps({"n": n, "fail": fail}))
    elif mode == "replay":
        d = json.load(open(sys.argv[2]))
        if d.get("case") is None:
            print("no failing input recorded; failed obligation:", json.dumps(d.get("obligations"), indent=1)[:4000])
            sys.exit(1)
        gen, run = props.get(d["property"])
        m = evaluate(run, d["case"])
        print(m or "the contract holds on this case now")
        sys.exit(1 if m else 0)


main()
