"""Run under the interpreter that runs urlstd: dumps module-level data."""
import enum
import pickle
import re
import sys

sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
import urlstd.parse as up  # noqa: E402
import urlstd.error as ue  # noqa: E402
import icupy.icu as icu  # noqa: E402


def plain(v, d=0):
    if d > 4:
        raise TypeError
    if v is None or type(v) in (bool, int, str, bytes, float):
        return v
    if isinstance(v, enum.Enum):
        return ("$enum", type(v).__name__, v.name, v.value if isinstance(v.value, (int, str)) else None)
    if isinstance(v, re.Pattern):
        return ("$re", v.pattern, v.flags)
    if isinstance(v, (frozenset, set)):
        return ("$set", [plain(x, d + 1) for x in v])
    if isinstance(v, dict):
        return ("$dict", [(plain(k, d + 1), plain(x, d + 1)) for k, x in v.items()])
    if type(v) is list:
        return ("$list", [plain(x, d + 1) for x in v])
    if type(v) is tuple:
        return ("$tuple", [plain(x, d + 1) for x in v])
    try:
        return int(v) if type(v).__module__.startswith("icupy") else None.x
    except Exception:
        raise TypeError


out = {"mod": {}, "cls": {}, "icu": {}, "enums": {}}
for n, v in vars(up).items():
    if n.startswith("__"):
        continue
    try:
        out["mod"][n] = plain(v)
    except TypeError:
        pass
    if isinstance(v, type) and v.__module__ in (up.__name__, ue.__name__):
        d = {}
        for k, x in vars(v).items():
            if k.startswith("__"):
                continue
            try:
                d[k] = plain(x)
            except TypeError:
                pass
        out["cls"][n] = d
        if issubclass(v, enum.Enum):
            out["enums"][n] = [(m.name, m.value) for m in v.__members__.values()]
for n in dir(icu):
    if n.startswith("UIDNA_"):
        try:
            out["icu"][n] = int(getattr(icu, n))
        except Exception:
            pass
sys.stdout.buffer.write(pickle.dumps(out))
