"""Meaning of built-in and library operations, and of the specification's
primitives, in pydv.  Everything urlstd imports is *assumed* here (and listed in
the evidence as such): str / bytes / list methods, int(), urllib.parse.quote,
quote_plus and unquote_to_bytes, re for the two shapes of pattern used, copy,
logging, icupy.  The same function symbols are used for the specification's
primitives, so that code and specification are compared modulo these meanings.
"""
import ast
import hashlib
import re as _re

import z3

from .core import *
from .core import NeedFork, simp_le, simp_lt
from .source import ClassV, EnumM, FuncV, NATIVE_EXC, RegexV

VAL = {r: z3.Function(f"val{r}", SQ, INT) for r in (8, 10, 16)}
DECF = z3.Function("dec", INT, SQ)
HEXF = z3.Function("hexl", INT, SQ)
BITAND = z3.Function("bitand", INT, INT, INT)
BIG = 10**4300
ALWAYS_SAFE = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~"
PCT_OUT = CharSet.of("%0123456789ABCDEF")
LOWHEX = CharSet.of("0123456789abcdef")
OCT = CharSet.of("01234567")
RADIX = {8: OCT, 10: DIGIT, 16: HEXD}
PYSPACE = CharSet([(ord(c), ord(c)) for c in map(chr, range(0x3100)) if c.isspace()])
LINEBREAK = CharSet.of("\n")


class ICUErrorT(Exception):
    pass


# ------------------------------------------------------------------ char maps
def _pct(c):
    return "".join("%%%02X" % b for b in c.encode("utf-8", "surrogatepass"))


def emap(keep, exc):
    """Element-wise encoder: code points in keep are kept, those in exc become
    exc[c], all others become the %XX of their UTF-8 bytes."""
    exc = {c: t for c, t in exc.items() if t != _pct(chr(c))}
    for c, t in list(exc.items()):
        if t == chr(c):
            del exc[c]
            keep = keep.union(CharSet([(c, c)]))
        elif keep.has(c):
            keep = keep.inter(CharSet([(c, c)]).complement())
    key = (keep.iv, tuple(sorted(exc.items())))
    name = "PE_" + hashlib.sha1(repr(key).encode()).hexdigest()[:8]
    if name in MAPS:
        return name
    out = keep.union(PCT_OUT)
    for t in exc.values():
        out = out.union(CharSet.of(t))

    def const(s):
        return "".join(c if keep.has(ord(c)) else exc[ord(c)] if ord(c) in exc else _pct(c) for c in s)

    def pre(cs):
        if not PCT_OUT.subset(cs):
            return None
        c = cs.union(keep.complement())
        bad = [k for k, t in exc.items() if not all(cs.has(ord(x)) for x in t)]
        return c.inter(CharSet([(k, k) for k in bad]).complement()) if bad else c

    m = MapInfo(name, False, const, out, keep=keep, pre=pre)
    m.exc = exc
    register_map(m)
    return name


def lower_map():
    def pre(cs):
        lo = cs.inter(UPPER.complement())
        up = CharSet([(x - 32, x - 32) for a, b in cs.iv for x in range(max(a, 97), min(b, 122) + 1)])
        return lo.union(up)

    register_map(MapInfo("LOWER", True, lambda s: "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s), UPPER.complement(), charf=lambda c: (c + 32 if 65 <= c <= 90 else c) if isinstance(c, int) else z3.If(z3.And(c >= 65, c <= 90), c + 32, c), keep=UPPER.complement(), pre=pre))
    return "LOWER"


def rpl_map(old, new):
    """Replacement of one element by another (strings and bytes)."""
    name = f"RPL_{old}_{new}"

    def const(s):
        if isinstance(s, bytes):
            return s.replace(bytes([old]), bytes([new]))
        return s.replace(chr(old), chr(new))

    def pre(cs):
        p = cs.inter(CharSet([(old, old)]).complement())
        return p.union(CharSet([(old, old)])) if cs.has(new) else p

    register_map(MapInfo(name, True, const, CharSet([(old, old)]).complement(), charf=lambda c: (new if c == old else c) if isinstance(c, int) else z3.If(c == old, z3.IntVal(new), c), keep=CharSet([(old, old)]).complement(), pre=pre))
    return name


def u8_map():
    def pre(cs):
        hi = CharSet([(128, 255)])
        if hi.subset(cs):
            return cs.inter(ASCII).union(ASCII.complement())
        return cs if cs.subset(ASCII) else None

    register_map(MapInfo("U8", False, lambda s: s.encode("utf-8"), BYTE, pre=pre))
    return "U8"


lower_map()
u8_map()


def apply_map(it, v, name):
    eng = it.eng
    m = MAPS[name]
    kind = kind_of(v)
    out = []
    for p in parts_of(v):
        if isinstance(p, (str, bytes)):
            out.append(m.const(p))
        elif isinstance(p, Sl):
            if not m.lenp and m.keep is not None and eng.nofork == 0 and False:
                pass
            out.append(Sl(p.a, p.lo, p.hi, p.fs + (name,)))
        else:
            t = eng.part_term(p)
            out.append(Sl(t, 0, 1, (name,)))
    return eng.mk("bytes" if name == "U8" else kind, out)


def static_class(eng, v):
    """A class known to contain all elements of v (no solver)."""
    cs = CharSet([])
    for p in parts_of(v):
        if isinstance(p, str):
            cs = cs.union(CharSet.of(p))
        elif isinstance(p, bytes):
            cs = cs.union(CharSet([(b, b) for b in p]))
        elif isinstance(p, Sl):
            c = eng.atom_cls.get(p.a.get_id(), ANY)
            for f in p.fs:
                c = map_image(MAPS[f], c)
            cs = cs.union(c)
        else:
            return ANY
    return cs


def map_image(m, c):
    if m.name.startswith("PE_"):
        o = c.inter(m.keep)
        if not c.subset(m.keep):
            o = o.union(PCT_OUT)
            for k, t in m.exc.items():
                if c.has(k):
                    o = o.union(CharSet.of(t))
        return o
    if m.name == "U8":
        return c.inter(ASCII).union(CharSet([(128, 255)]) if not c.subset(ASCII) else CharSet([]))
    if m.out is not None:
        return m.out if not m.lenp else m.out.inter(c.union(m.out)) if m.keep is None else c.inter(m.keep).union(m.out if not c.subset(m.keep) else CharSet([]))
    return ANY


def fn1(it, name, v, kind="str", cls=None, elem=None):
    """Uninterpreted whole-sequence function."""
    eng = it.eng
    f = z3.Function("f_" + name, SQ, SQ)
    t = f(eng.term(v))
    eng.note_atom(t, cls, elem)
    return t, eng.full(t, kind)


def scalar_known(it, v):
    return it.eng.valid(it.eng.allin(v, SCALAR))


def usv(it, v):
    if isinstance(v, str):
        return it.spec.native["speclib"].usv(v)
    if static_class(it.eng, v).subset(SCALAR) or scalar_known(it, v):
        return v
    t, r = fn1(it, "USV", v, cls=SCALAR)
    it.eng.fact((LEN(t) == 0) == (it.eng.length(v) == 0))
    it.eng.fact(LEN(t) <= it.eng.length(v))
    it.eng.fact(zor([znot(it.eng.allin(v, SCALAR)), t == it.eng.term(v)]))
    it.eng.usv_src[t.get_id()] = v
    return r


def pe_keep(it, v, keep, exc):
    return apply_map(it, v, emap(keep, exc))


# ------------------------------------------------------------------ numbers
def dec(it, n):
    """str(n) for an int."""
    eng = it.eng
    if isinstance(n, int):
        return str(n)
    if not eng.valid(n >= 0):
        if it.branch(n < 0):
            return eng.cat("-", dec(it, simp(-n)))
    if not eng.valid(n < eng.big()):
        if not it.branch(n < eng.big()):
            it.throw("ValueError", "Exceeds the limit for integer string conversion")
    t = DECF(n)
    if t.get_id() not in eng.known_terms:
        eng.noguard(n >= 0, n < eng.big())
        eng.note_atom(t, DIGIT)
        a0 = eng.note_access(t, 0)
        eng.fact(z3.And(LEN(t) >= 1, VAL[10](t) == n, z3.Implies(n == 0, z3.And(LEN(t) == 1, a0 == 48)), z3.Implies(n > 0, a0 != 48), z3.Implies(n < 256, LEN(t) <= 3), z3.Implies(n < 65536, LEN(t) <= 5)))
    return eng.full(t)


def hexl(it, n):
    eng = it.eng
    if isinstance(n, int):
        return "%x" % n
    if not eng.valid(n >= 0):
        if it.branch(n < 0):
            return eng.cat("-", hexl(it, simp(-n)))
    t = HEXF(n)
    if t.get_id() not in eng.known_terms:
        eng.noguard(n >= 0)
        eng.note_atom(t, LOWHEX)
        a0 = eng.note_access(t, 0)
        eng.fact(z3.And(LEN(t) >= 1, VAL[16](t) == n, z3.Implies(n == 0, z3.And(LEN(t) == 1, a0 == 48)), z3.Implies(n > 0, a0 != 48), z3.Implies(n < 65536, LEN(t) <= 4)))
    return eng.full(t)


def digit_val(c):
    if isinstance(c, int):
        return int(chr(c), 16)
    return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))


def val(it, v, r):
    """Value of a non-empty string of radix-r digits."""
    eng = it.eng
    if isinstance(v, str):
        return int(v, r)
    n = eng.length(v)
    if isinstance(n, int) and n <= 8:
        x = 0
        for i in range(n):
            ok, ch = eng.index(v, i)
            x = simp(x * r + digit_val(eng.char_of(ch)))
        return x
    t = eng.term(v)
    x = VAL[r](t)
    if ("val", r, t.get_id()) not in eng.vals:
        # (evaluated ahead of its guard: the facts hold for digits only)
        dig = znot(eng.allin(v, RADIX[r])) if eng.guards else False
        fact = lambda f: eng.fact(zor([dig, f]))
        eng.vals[("val", r, t.get_id())] = True
        fact(x >= 0)
        ps = parts_of(v)
        if len(ps) == 1 and isinstance(ps[0], Sl) and not ps[0].fs:
            p = ps[0]
            c0 = eng.note_access(p.a, p.lo)
            fact(z3.Implies(LEN(t) == 1, x == digit_val(c0)))
            fact(z3.Implies(LEN(t) == 0, x == 0))
            if r == 10:
                fact(z3.Implies(LEN(t) <= 5, x <= 99999))
                fact(z3.Implies(LEN(t) <= 3, x <= 999))
                fact(z3.Implies(z3.And(LEN(t) > 3, c0 != 48), x >= 1000))
                fact(z3.Implies(z3.And(LEN(t) > 5, c0 != 48), x >= 100000))
            if r == 16:
                fact(z3.Implies(LEN(t) <= 4, x <= 65535))
    return x


def py_int(it, v, r):
    eng = it.eng
    if isinstance(v, str):
        try:
            return int(v, r)
        except ValueError:
            it.throw("ValueError", "invalid literal for int()")
    if r not in RADIX:
        raise Unsupported("int() radix")
    n = eng.length(v)
    if it.branch(zeq(n, 0)):
        it.throw("ValueError", "invalid literal for int()")
    if not it.branch(eng.allin(v, RADIX[r])):
        if eng.valid(eng.allin(v, HEXD)) or eng.valid(eng.allin(v, CharSet.of("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"))):
            it.throw("ValueError", "invalid literal for int()")
        raise Unsupported("int() of an arbitrary string")
    if r == 10:
        if it.branch(simp_lt(4300, n)):
            it.throw("ValueError", "Exceeds the limit for integer string conversion")
    return val(it, v, r)


# ------------------------------------------------------------------ formatting
def fmt_safe(it, v):
    """Condition under which formatting v raises nothing."""
    if isinstance(v, LazyV):
        v = it.lazy_peek(v)
    if isinstance(v, LazyV):
        return zand([zor([znot(zeq(v.tag, i)), fmt_safe(it, a)]) for i, a in enumerate(v.alts)])
    if isinstance(v, z3.ArithRef):
        return z3.And(v < it.eng.big(), v > -it.eng.big())
    if isinstance(v, int) and not isinstance(v, bool):
        return abs(v) < BIG
    if isinstance(v, ListV):
        return zand([fmt_safe(it, x) for p in parts_of(v.r) if isinstance(p, tuple) for x in p])
    if isinstance(v, tuple):
        return zand([fmt_safe(it, x) for x in v])
    return True


def check_fmt(it, v):
    """Formatting a value can fail only for huge integers."""
    f = simp(fmt_safe(it, v))
    if f is True or (is_z3(f) and it.eng.valid(f)):
        return
    v = it.force(v)
    if isinstance(v, z3.ArithRef):
        if not it.eng.valid(z3.And(v < it.eng.big(), v > -it.eng.big())):
            if not it.branch(z3.And(v < it.eng.big(), v > -it.eng.big())):
                it.throw("ValueError", "Exceeds the limit for integer string conversion")
    elif isinstance(v, int) and not isinstance(v, bool) and abs(v) >= BIG:
        it.throw("ValueError", "Exceeds the limit for integer string conversion")
    elif isinstance(v, ListV):
        for p in parts_of(v.r):
            if isinstance(p, tuple):
                for x in p:
                    check_fmt(it, x)
    elif isinstance(v, tuple):
        for x in v:
            check_fmt(it, x)


def opaque_str(it, what="fmt"):
    return it.eng.sym_str(what)


def format_value(it, v, conv, spec):
    from .interp import is_strlike, is_int, as_int

    eng = it.eng
    v = it.force(v)
    if conv in ("", "s") and spec == "":
        if is_strlike(v):
            return v
        return to_str(it, v)
    if conv == "" and spec in ("x",) and is_int(v):
        return hexl(it, as_int(v))
    if conv == "" and spec in ("d",) and is_int(v):
        return dec(it, as_int(v))
    if conv == "" and _re.fullmatch(r"#?0?\d*[xXd]", spec) and is_int(v):
        a = as_int(v)
        if isinstance(a, int):
            return format(a, spec)
        if spec.endswith("d"):
            check_fmt(it, a)
        return opaque_str(it)
    if conv == "" and spec != "":
        if isinstance(v, (str, int, float)):
            try:
                return format(v, spec)
            except (ValueError, TypeError) as e:
                it.throw(type(e).__name__, str(e))
        raise Unsupported("format spec")
    check_fmt(it, v)
    return opaque_str(it)


def to_str(it, v):
    from .interp import is_strlike, is_int, as_int

    v = it.force(v)
    if is_strlike(v):
        return v
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, (int, z3.ArithRef)):
        return dec(it, v)
    if isinstance(v, z3.BoolRef):
        return "True" if it.branch(v) else "False"
    if v is None:
        return "None"
    if isinstance(v, float):
        return str(v)
    if isinstance(v, Obj) and isinstance(v.cls, ClassV):
        f = v.cls.lookup("__str__")
        if f is not None:
            return it.call_func(f, [v], {})
        return opaque_str(it)
    if isinstance(v, Obj) and v.cls == "UnicodeString":
        return v.f["v"]
    if isinstance(v, Opaque) and hasattr(v, "s"):
        return v.s
    check_fmt(it, v)
    return opaque_str(it)


def percent_format(it, fmt, args):
    from .interp import is_strlike, is_int, as_int

    if not isinstance(fmt, str):
        return opaque_str(it)
    specs = _re.findall(r"%(?:%|[#0\- +]*\d*(?:\.\d+)?([diouxXeEfFgGcrsa]))", fmt)
    raw = [m for m in _re.finditer(r"%([#0\- +]*\d*(?:\.\d+)?)(.)", fmt, _re.S)]
    need = [m for m in raw if m.group(2) != "%"]
    if "%(" in fmt:
        raise Unsupported("mapping format")
    if len(need) != len(args):
        it.throw("TypeError", "wrong number of arguments for format string")
    simple = True
    out = []
    pos = 0
    ai = 0
    for m in raw:
        out.append(fmt[pos:m.start()])
        pos = m.end()
        c = m.group(2)
        if c == "%":
            out.append("%")
            continue
        a = it.force(args[ai])
        ai += 1
        if c in "dixXou":
            if not is_int(a):
                it.throw("TypeError", "%d format: a number is required")
            x = as_int(a)
            if c == "d" or c == "i":
                check_fmt(it, x)
            if m.group(1) == "" and c == "d":
                out.append(dec(it, x))
            elif m.group(1) == "" and c == "x":
                out.append(hexl(it, x))
            elif isinstance(x, int):
                out.append(m.group(0) % x)
            else:
                simple = False
        elif c == "s" and m.group(1) == "":
            out.append(to_str(it, a))
        elif c in "ra":
            check_fmt(it, a)
            simple = False
        elif c == "s":
            simple = False
        else:
            raise Unsupported("format %" + c)
    if not simple:
        return opaque_str(it)
    out.append(fmt[pos:])
    parts = []
    for x in out:
        parts.extend(parts_of(x))
    return it.eng.mk("str", parts)


# ------------------------------------------------------------------ str methods
def known_lacks(it, v, cs):
    """v has no element of cs (known on this path)."""
    return it.eng.valid(it.eng.allin(v, cs.complement()))


def find(it, v, c):
    """Index of the first element with code c, or -1 (forks)."""
    eng = it.eng
    kind = kind_of(v)
    cs = CharSet([(c, c)])
    off = 0
    ps = parts_of(v)
    for p in ps:
        if isinstance(p, (str, bytes)):
            i = p.find(chr(c) if kind == "str" else bytes([c]))
            if i >= 0:
                return iadd(off, i)
            off = iadd(off, len(p))
            continue
        one = eng.mk(kind, [p])
        no = eng.allin(one, cs.complement())
        if it.branch(no):
            off = iadd(off, eng.part_len(p))
            continue
        # first occurrence inside this part
        eng.noguard(znot(no))
        t = eng.part_term(p) if not (isinstance(p, Sl) and not p.fs) else None
        if t is None:
            f = z3.Function(f"find_{c}", SQ, INT, INT, INT)
            k = f(p.a, p.lo if is_z3(p.lo) else z3.IntVal(p.lo), p.hi if is_z3(p.hi) else z3.IntVal(p.hi))
            eng.fact(z3.And(k >= 0, k < p.hi - p.lo))
            eng.fact(eng.note_access(p.a, iadd(p.lo, k)) == c)
            eng.fact(eng.slice_allin(p.a, p.lo, iadd(p.lo, k), cs.complement()))
        else:
            f = z3.Function(f"find_{c}", SQ, INT, INT, INT)
            k = f(t, z3.IntVal(0), LEN(t))
            eng.fact(z3.And(k >= 0, k < LEN(t)))
            eng.fact(eng.note_access(t, k) == c)
            eng.fact(eng.slice_allin(t, 0, k, cs.complement()))
        return iadd(off, k)
    return -1


def one_char(it, s):
    from .interp import is_int, as_int

    if isinstance(s, str) and len(s) == 1:
        return ord(s)
    if isinstance(s, bytes) and len(s) == 1:
        return s[0]
    return None


def split_parts(it, v, sep):
    """Split on a one-element separator: list rope."""
    eng = it.eng
    kind = kind_of(v)
    c = one_char(it, sep)
    if c is None:
        raise Unsupported("split separator")
    if isinstance(v, (str, bytes)):
        return tuple(v.split(sep))
    cs = CharSet([(c, c)])
    ps = parts_of(v)
    if eng.valid(zeq(eng.length(v), 0)):
        return ("" if kind == "str" else b"",)
    if all(isinstance(p, (str, bytes)) or known_lacks(it, eng.mk(kind, [p]), cs) for p in ps):
        out, cur = [], []
        for p in ps:
            if isinstance(p, (str, bytes)):
                bits = p.split(sep)
                cur.append(bits[0])
                for b in bits[1:]:
                    out.append(eng.mk(kind, cur))
                    cur = [b]
            else:
                cur.append(p)
        out.append(eng.mk(kind, cur))
        return tuple(out)
    j = join_split(it, v, c)
    if j is not None:
        return j
    cls = static_class(eng, v).inter(cs.complement())
    f = z3.Function(f"split_{kind}_{c}", SQ, SQ)
    tv = eng.term(v)
    t = f(tv)
    new = t.get_id() not in eng.known_terms
    eng.note_atom(t, None, (kind, cls))
    if new:
        eng.fact(LEN(t) >= 1)
        eng.fact(LEN(t) <= eng.length(v) + 1)
        # the last piece is empty iff the string is empty or ends with the separator
        last = EL(t, LEN(t) - 1)
        n = eng.length(v)
        eng.fact(z3.Implies(LEN(t) == 1, zand([LEN(last) == n])))
        eng.fact(z3.Implies(zeq(n, 0), LEN(t) == 1))
    return Rope("list", [Sl(t, 0, LEN(t))])


def join_split(it, v, c):
    """Law of str.join / split: splitting a joined list whose elements lack the
    separator gives the list back ([""] for the empty list)."""
    eng = it.eng
    ps = parts_of(v)
    if c >= 128 or len(ps) != 1 or not isinstance(ps[0], Sl) or ps[0].fs not in ((), ("U8",)):
        return None
    p = ps[0]
    if p.a.get_id() not in eng.joins or not (same_int(p.lo, 0) and same_int(p.hi, LEN(p.a))):
        return None
    sep, r = eng.joins[p.a.get_id()]
    if one_char(it, sep) != c:
        return None
    cs = CharSet([(c, c)])
    for q in parts_of(r):
        if isinstance(q, tuple):
            if not all(known_lacks(it, x, cs) for x in q):
                return None
        else:
            info = eng.part_info(q) if isinstance(q, Sl) else None
            if info is None or info[1] is None or info[1].has(c):
                return None
    kind = kind_of(v)
    if it.branch(zeq(eng.length(r), 0)):
        return ("" if kind == "str" else b"",)
    if p.fs:
        r = map_list(it, r, lambda x: apply_map(it, x, "U8"))
    elif kind != kind_of(sep):
        return None
    return r


def rsplit1(it, v, sep):
    raise Unsupported("rsplit")


def strip_class(it, v, cs, left, right):
    eng = it.eng
    if isinstance(v, str):
        i, j = 0, len(v)
        while left and i < j and cs.has(ord(v[i])):
            i += 1
        while right and j > i and cs.has(ord(v[j - 1])):
            j -= 1
        return v[i:j]
    sc = static_class(eng, v)
    cs = cs.inter(sc)
    if cs.empty() or known_lacks(it, v, cs):
        return v
    name = ("" if left and right else "L" if left else "R") + "STRIP_" + cs.name()
    t, r = fn1(it, name, v, cls=sc)
    n = eng.length(v)
    eng.fact(LEN(t) <= n)
    if left:
        a0 = eng.note_access(t, 0)
        eng.fact(z3.Implies(LEN(t) > 0, z3.Not(cs.formula(a0))))
    if right:
        a1 = eng.note_access(t, LEN(t) - 1)
        eng.fact(z3.Implies(LEN(t) > 0, z3.Not(cs.formula(a1))))
    eng.fact(z3.Implies(eng.allin(v, cs.complement()), t == eng.term(v)))
    eng.fact((LEN(t) == 0) == eng.allin(v, cs))
    tv = eng.term(v)
    if left or right:
        # unchanged exactly when nothing is stripped at an end
        ends = []
        if left:
            ends.append(cs.formula(eng.note_access(tv, 0)))
        if right:
            ends.append(cs.formula(eng.note_access(tv, LEN(tv) - 1)))
        c = zor(ends)
        eng.fact(zor([zeq(n, 0), c, t == tv]))
        eng.fact(zor([zeq(n, 0), znot(c), LEN(t) < n]))
    if left and not right and cs.iv == ((48, 48),) and (sc.subset(DIGIT) or not eng.guards and eng.valid(eng.allin(v, DIGIT))):
        eng.note_atom(t, DIGIT)
        eng.fact(VAL[10](t) == VAL[10](eng.term(v)))
        val(it, v, 10)
        val(it, r, 10)
        eng.fact(z3.Implies(LEN(t) == 0, VAL[10](eng.term(v)) == 0))
    # known ends: only claim what the standard shape gives
    ps = parts_of(v)
    if len(ps) == 1 and isinstance(ps[0], Sl) and not ps[0].fs:
        p = ps[0]
        first = eng.note_access(p.a, p.lo)
        last = eng.note_access(p.a, isub(p.hi, 1))
        clean = z3.And(z3.Not(cs.formula(first)) if left else z3.BoolVal(True), z3.Not(cs.formula(last)) if right else z3.BoolVal(True))
        eng.fact(z3.Implies(z3.And(n > 0, clean), t == eng.term(v)))
        eng.fact(z3.Implies(z3.And(n > 0, z3.Not(clean)), LEN(t) < n))
    return r


def filter_class(it, v, keep):
    """The elements of v that are in keep."""
    eng = it.eng
    if isinstance(v, str):
        return "".join(c for c in v if keep.has(ord(c)))
    sc = static_class(eng, v)
    if sc.subset(keep):
        return v
    drop = keep.complement()
    name = "FILTER_" + keep.name()
    t, r = fn1(it, name, v, cls=keep.inter(sc))
    eng.fact(LEN(t) <= eng.length(v))
    eng.fact(z3.Implies(eng.allin(v, keep), t == eng.term(v)))
    eng.fact(z3.Implies(z3.Not(eng.allin(v, keep)), LEN(t) < eng.length(v)))
    return r


def replace(it, v, old, new):
    eng = it.eng
    kind = kind_of(v)
    if isinstance(v, (str, bytes)):
        return v.replace(old, new)
    if not isinstance(old, (str, bytes)) or len(old) != 1 or not isinstance(new, (str, bytes)):
        raise Unsupported("replace")
    o = one_char(it, old)
    out = []
    for p in parts_of(v):
        if isinstance(p, (str, bytes)):
            out.append(p.replace(old, new))
            continue
        j = eng.joins.get(p.a.get_id()) if isinstance(p, Sl) and not p.fs and isinstance(p.lo, int) and p.lo == 0 and is_z3(p.hi) and p.hi.eq(LEN(p.a)) else None
        if j is not None and old not in j[0]:
            # replacing in a joined list is replacing in its elements
            r = map_list(it, j[1], lambda w: replace(it, w, old, new))
            out.extend(parts_of(join(it, j[0], r)))
            continue
        if isinstance(p, Sl) and p.fs:
            m = MAPS[p.fs[-1]]
            if m.out is not None and not m.out.has(o):
                out.append(p)
                continue
            if m.name.startswith("PE_") and not PCT_OUT.has(o):
                exc = {c: t.replace(chr(o), new) for c, t in m.exc.items()}
                keep = m.keep
                if keep.has(o):
                    keep = keep.inter(CharSet([(o, o)]).complement())
                    exc[o] = new
                out.append(Sl(p.a, p.lo, p.hi, p.fs[:-1] + (emap(keep, exc),)))
                continue
            if m.name.startswith("JOINMAP"):
                r = m.replaced(it, o, new)
                out.append(Sl(p.a, p.lo, p.hi, p.fs[:-1] + (r,)))
                continue
        one = eng.mk(kind, [p])
        if not static_class(eng, one).has(o):
            out.append(p)
            continue
        if len(new) == 1:
            nm = rpl_map(o, one_char(it, new))
            out.extend(parts_of(apply_map(it, one, nm)))
            continue
        raise Unsupported("replace on a symbolic string")
    return eng.mk(kind, out)


def startswith(it, v, pre):
    eng = it.eng
    if isinstance(pre, tuple):
        return simp(zor([startswith(it, v, x) for x in pre]))
    if isinstance(v, (str, bytes)) and isinstance(pre, (str, bytes)):
        return v.startswith(pre)
    if not isinstance(pre, (str, bytes)):
        raise Unsupported("startswith a symbolic string")
    n = len(pre)
    if n == 0:
        return True
    ps = parts_of(v)
    if len(ps) == 1 and isinstance(ps[0], Sl) and not ps[0].fs:
        p = ps[0]
        ln = isub(p.hi, p.lo)
        conj = [simp_le(n, ln)]
        for i in range(n):
            conj.append(eng.note_access(p.a, iadd(p.lo, i)) == (ord(pre[i]) if isinstance(pre, str) else pre[i]))
        return simp(zand(conj))
    if not it.branch(simp_le(n, eng.length(v))):
        return False
    return simp(eng.seq_eq(eng.getslice(v, 0, n), pre))


def endswith(it, v, suf):
    eng = it.eng
    if isinstance(suf, tuple):
        return simp(zor([endswith(it, v, x) for x in suf]))
    if isinstance(v, (str, bytes)) and isinstance(suf, (str, bytes)):
        return v.endswith(suf)
    if not isinstance(suf, (str, bytes)):
        raise Unsupported("endswith a symbolic string")
    n = len(suf)
    if n == 0:
        return True
    ln = eng.length(v)
    if not it.branch(simp_le(n, ln)):
        return False
    return simp(eng.seq_eq(eng.getslice(v, isub(ln, n), None), suf))


class Enc16:
    """s.encode('utf-16*', 'surrogatepass')"""

    def __init__(self, s, enc):
        self.s = s
        self.enc = enc


def norm_codec(name):
    import codecs

    try:
        return codecs.lookup(name).name
    except LookupError:
        return None


def encode(it, v, args, kwargs):
    eng = it.eng
    enc = args[0] if args else kwargs.get("encoding", "utf-8")
    err = args[1] if len(args) > 1 else kwargs.get("errors", "strict")
    if not isinstance(enc, str) or not isinstance(err, str):
        raise Unsupported("dynamic codec")
    name = norm_codec(enc)
    if isinstance(v, str):
        try:
            return v.encode(enc, err)
        except UnicodeEncodeError:
            it.throw("UnicodeEncodeError")
    if name in ("utf-16", "utf-16-le", "utf-16-be") and err == "surrogatepass":
        return Enc16(v, name)
    if name == "utf-8" and err == "strict":
        if not static_class(eng, v).subset(SCALAR):
            if not it.branch(eng.allin(v, SCALAR)):
                it.throw("UnicodeEncodeError")
        return apply_map(it, v, u8_map())
    if name == "utf-8" and err == "surrogatepass" and scalar_known(it, v):
        return apply_map(it, v, u8_map())
    raise Unsupported(f"encode({enc}, {err})")


def decode(it, v, args, kwargs):
    eng = it.eng
    enc = args[0] if args else kwargs.get("encoding", "utf-8")
    err = args[1] if len(args) > 1 else kwargs.get("errors", "strict")
    if isinstance(v, Enc16):
        if norm_codec(enc) == v.enc and err == "replace":
            return usv(it, v.s)
        raise Unsupported("decode of UTF-16")
    if isinstance(v, bytes) and isinstance(enc, str) and isinstance(err, str):
        try:
            return v.decode(enc, err)
        except UnicodeDecodeError:
            it.throw("UnicodeDecodeError")
        except LookupError:
            raise Unsupported("decode codec")
    if not isinstance(enc, str) or norm_codec(enc) != "utf-8":
        raise Unsupported("decode codec")
    if isinstance(v, bytes):
        try:
            return v.decode(enc, err)
        except UnicodeDecodeError:
            it.throw("UnicodeDecodeError")
    ps = []
    ok = True
    for p in parts_of(v):
        if isinstance(p, bytes) and all(b < 128 for b in p):
            ps.append(p.decode("ascii"))
        elif isinstance(p, Sl) and p.fs and p.fs[-1] == "U8":
            ps.append(Sl(p.a, p.lo, p.hi, p.fs[:-1]))
        else:
            ok = False
            break
    if ok:
        return eng.mk("str", ps)
    if err != "replace":
        raise Unsupported("strict decode of arbitrary bytes")
    t, r = fn1(it, "U8D", v, cls=SCALAR)
    eng.fact(LEN(t) <= eng.length(v))
    eng.fact((LEN(t) == 0) == zeq(eng.length(v), 0))
    return r


def unquote_to_bytes(it, v):
    eng = it.eng
    if isinstance(v, bytes):
        return it.spec.native["speclib"].percent_decode_bytes(v)
    from .interp import is_strlike

    if is_strlike(v):
        v = encode(it, v, ["utf-8", "strict"], {})
        if isinstance(v, bytes):
            return it.spec.native["speclib"].percent_decode_bytes(v)
    inv = pd_inverse(it, v)
    if inv is not None:
        return inv
    if known_lacks(it, v, CharSet.of("%")):
        return v
    t, r = fn1(it, "PD", v, "bytes", cls=BYTE)
    n = eng.length(v)
    eng.fact(LEN(t) <= n)
    eng.fact((LEN(t) == 0) == zeq(n, 0))
    eng.fact(z3.Implies(eng.allin(v, CharSet.of("%").complement()), t == eng.term(v)))
    return r


def pd_inverse(it, v):
    """Assumed law of unquote_to_bytes: it inverts a percent-encoder that
    encodes '%' (element by element), and keeps '%'-free text."""
    eng = it.eng
    out = []
    for p in parts_of(v):
        if isinstance(p, bytes):
            if b"%" in p:
                return None
            out.append(p)
            continue
        if not isinstance(p, Sl) or not p.fs:
            return None
        fs = list(p.fs)
        # [..., PE, U8, RPL(+ -> space)] or [..., PE, (RPL), U8]
        plus = False
        if fs and fs[-1] == "RPL_43_32":
            plus = True
            fs.pop()
        if not fs or fs[-1] != "U8":
            return None
        fs.pop()
        if fs and fs[-1] == "RPL_43_32":
            plus = True
            fs.pop()
        if not fs or not fs[-1].startswith("PE_"):
            return None
        m = MAPS[fs[-1]]
        if m.keep.has(ord("%")):
            return None
        if plus:
            if m.keep.has(ord("+")) or any(t != "+" or c != 32 for c, t in m.exc.items()):
                return None
        elif any("%" not in t or t != _pct(chr(c)) for c, t in m.exc.items()):
            return None
        if not m.keep.subset(ASCII):
            return None
        fs.pop()
        out.append(Sl(p.a, p.lo, p.hi, tuple(fs) + ("U8",)))
    return eng.mk("bytes", out)


def quote(it, args, kwargs, plus):
    from .interp import is_strlike, is_byteslike

    names = ["string", "safe", "encoding", "errors"]
    a = dict(zip(names, args))
    a.update(kwargs)
    s, safe = it.force(a["string"]), a.get("safe", "" if plus else "/")
    enc, err = a.get("encoding"), a.get("errors")
    if not isinstance(safe, (str, bytes)):
        raise Unsupported("dynamic safe set")
    if isinstance(safe, bytes):
        safe = "".join(chr(b) for b in safe if b < 128)
    if is_byteslike(s):
        raise Unsupported("quote of bytes")
    if not is_strlike(s):
        it.throw("TypeError", "quote() expected a string")
    enc = "utf-8" if enc is None else enc
    err = "strict" if err is None else err
    if norm_codec(enc) != "utf-8" or err != "strict":
        raise Unsupported("quote with another codec")
    eng = it.eng
    if not static_class(eng, s).subset(SCALAR):
        if not it.branch(eng.allin(s, SCALAR)):
            it.throw("UnicodeEncodeError")
    keep = CharSet.of(ALWAYS_SAFE + "".join(c for c in safe if ord(c) < 128))
    exc = {}
    if plus:
        keep = keep.inter(CharSet.of(" ").complement())
        exc = {32: "+"}
    return pe_keep(it, s, keep, exc)


# ------------------------------------------------------------------ regex
def regex_shape(pat):
    """('one', cls) for [cls], ('ends', cls) for ^[cls]+|[cls]+$ , None otherwise."""
    import re._parser as sp
    import re._constants as sc

    def cls_of(item):
        op, av = item
        if op is sc.LITERAL:
            return CharSet([(av, av)])
        if op is sc.IN:
            neg = False
            cs = CharSet([])
            for o, x in av:
                if o is sc.NEGATE:
                    neg = True
                elif o is sc.LITERAL:
                    cs = cs.union(CharSet([(x, x)]))
                elif o is sc.RANGE:
                    cs = cs.union(CharSet([x]))
                else:
                    return None
            return cs.complement() if neg else cs
        return None

    if pat.flags & ~(_re.U):
        return None
    tree = list(sp.parse(pat.pattern))
    if len(tree) == 2 and tree[0][0] is sc.LITERAL and tree[1][0] is sc.MAX_REPEAT:
        lo, hi, sub = tree[1][1]
        c = tree[0][1]
        if lo == 0 and hi is sc.MAXREPEAT and len(sub) == 1 and list(sub)[0] in ((sc.NOT_LITERAL, c), (sc.IN, [(sc.NEGATE, None), (sc.LITERAL, c)])):
            return ("pieces", c)
        return None
    if len(tree) == 1:
        if tree[0][0] is sc.MAX_REPEAT:
            lo, hi, sub = tree[0][1]
            if lo == 1 and hi is sc.MAXREPEAT and len(sub) == 1:
                c = cls_of(list(sub)[0])
                return ("one", c) if c is not None else None
        if tree[0][0] is sc.BRANCH:
            alts = [list(x) for x in tree[0][1][1]]
            if len(alts) == 2:
                kinds = {}
                for al in alts:
                    if len(al) != 2:
                        return None
                    if al[0][0] is sc.AT and al[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                        kinds["l"] = al[1]
                    elif al[1][0] is sc.AT and al[1][1] in (sc.AT_END, sc.AT_END_STRING):
                        kinds["r"] = (al[0], al[1][1])
                if set(kinds) == {"l", "r"}:
                    cl = []
                    for x in (kinds["l"], kinds["r"][0]):
                        if x[0] is not sc.MAX_REPEAT or x[1][0] != 1 or x[1][1] is not sc.MAXREPEAT or len(x[1][2]) != 1:
                            return None
                        cl.append(cls_of(list(x[1][2])[0]))
                    if cl[0] is not None and cl[1] is not None and cl[0].iv == cl[1].iv and (kinds["r"][1] is sc.AT_END_STRING or cl[0].has(10)):
                        return ("ends", cl[0])
            return None
        c = cls_of(tree[0])
        if c is not None:
            return ("one", c)
    return None


def regex_method(it, o, name):
    from .interp import NativeF, is_strlike

    eng = it.eng

    def search(args, kwargs):
        s = it.force(args[0])
        if isinstance(s, str):
            m = getattr(_re.compile(o.pattern, o.flags), name)(s)
            if m is None:
                return None
            r = it.new_obj("match")
            r.f["groups"] = (m.group(0),) + m.groups()
            return r
        if not is_strlike(s):
            if isinstance(s, Rope) or s is None or not isinstance(s, Opaque):
                it.throw("TypeError", "expected string")
            raise Unsupported("regex on opaque")
        sh = regex_shape(o)
        if (sh is None or name != "search") and getattr(it, "any_match", False):
            # any outcome, any groups
            if eng.choose(2):
                return None
            r = it.new_obj("match")
            r.f["groups"] = tuple(eng.sym_str("group", ANY) for _ in range(_re.compile(o.pattern, o.flags).groups + 1))
            return r
        if sh is None or name != "search":
            raise Unsupported("regex " + o.pattern)
        if sh[0] == "one":
            c = znot(eng.allin(s, sh[1].complement()))
        else:
            n = eng.length(s)
            if it.branch(zeq(n, 0)):
                return None
            ok, a = eng.index(s, 0)
            ok, b = eng.index(s, -1)
            c = zor([eng.member(eng.char_of(a), sh[1]), eng.member(eng.char_of(b), sh[1])])
        r = Opaque("match")
        r.truth = simp(c)
        return r

    def sub(args, kwargs):
        rep, s = it.force(args[0]), it.force(args[1])
        if isinstance(s, str) and isinstance(rep, str):
            return _re.compile(o.pattern, o.flags).sub(rep, s)
        sh = regex_shape(o)
        if sh is None or rep != "" or len(args) > 2 or kwargs:
            raise Unsupported("regex sub")
        if sh[0] == "one":
            return filter_class(it, s, sh[1].complement())
        return strip_class(it, s, sh[1], True, True)

    def pieces(args, kwargs):
        """Law of c[^c]*: the matches are the pieces between the c's, each after its c."""
        from .interp import Seg, IterV

        s = it.force(args[0])
        sh = regex_shape(o)
        if not is_strlike(s) or len(args) != 1 or kwargs or sh is None or sh[0] != "pieces":
            raise Unsupported("regex " + name)
        c = chr(sh[1])
        r = split_parts(it, s, c)
        r = r[1:] if isinstance(r, tuple) else eng.take(r, 1)[1]
        r = map_list(it, r, lambda x: eng.cat(c, x))
        if name == "findall":
            return it.new_list(r)

        def wrap(v):
            m = it.new_obj("match")
            m.f["groups"] = (v,)
            return m

        segs = []
        for g in it.segments(r):
            g2 = Seg(g.n, lambda k, g=g: wrap(g.get(k)), g.rope)
            g2.wrap = wrap
            g2.match = True
            segs.append(g2)
        return IterV(segs)

    if name in ("finditer", "findall"):
        return NativeF("re." + name, pieces)
    if name in ("search", "match", "fullmatch"):
        return NativeF("re." + name, search)
    if name == "sub":
        return NativeF("re.sub", sub)
    raise Unsupported("regex method " + name)


# ------------------------------------------------------------------ classes
class ClassCache:
    """A class-level dictionary used as a memo table: what is stored under a key
    must always be the same function of the key (checked at every store)."""

    def __init__(self, cls, name):
        self.cls, self.name = cls, name
        self.stores = []

    def load(self, it, k):
        v = self.lookup(it, k)
        if v is None:
            it.throw("KeyError", k)
        return v

    def lookup(self, it, k):
        # an entry left by an earlier call: by the memo invariant it is the
        # instance created for this key
        if not isinstance(k, (int, EnumM)):
            raise Unsupported("symbolic cache key")
        b = it.eng.bool("cached")
        if it.branch(b):
            o = it.new_obj("uts46")
            o.f["options"] = int(k.value if isinstance(k, EnumM) else k)
            return o
        return None

    def store(self, it, k, v):
        ok = isinstance(v, Obj) and v.cls == "uts46" and isinstance(k, (int, EnumM)) and v.f.get("options") == k
        it.eng.prove(bool(ok), f"memo invariant of {self.cls.name}.{self.name}: the stored instance was created for its key")


def class_attr(it, o, name, v):
    if isinstance(v, dict) and not v:
        key = ("cache", o.name, name)
        c = it.__dict__.setdefault("caches", {}).get(key)
        if c is None:
            c = it.caches[key] = ClassCache(o, name)
        return c
    if isinstance(v, list):
        return tuple(v)
    return v


LOG_KW = {"exc_info", "stack_info", "stacklevel", "extra"}


def super_attr(it, s, name):
    from .interp import BoundM, NativeF

    for b in s.cls.bases:
        if isinstance(b, ClassV):
            f = b.lookup(name)
            if isinstance(f, FuncV):
                return BoundM(f, s.obj)
    if s.cls.name == "_Logger" or (isinstance(s.obj, Obj) and "logger" in s.obj.f):
        if name in ("debug", "info", "warning", "error", "critical", "exception", "log"):
            return NativeF("logging." + name, lambda a, k: log_call(it, a, k))
    if s.cls.issub(BaseException):
        if name == "__init__":
            def init(a, k):
                s.obj.f["args"] = tuple(a)
            return NativeF("BaseException.__init__", init)
        if name == "__str__":
            return NativeF("BaseException.__str__", lambda a, k: opaque_str(it))
    if name == "__init__":
        return NativeF("object.__init__", lambda a, k: None)
    raise Unsupported("super()." + name)


def log_call(it, args, kwargs):
    if not args:
        it.throw("TypeError", "missing msg")
    bad = [k for k in kwargs if k not in LOG_KW]
    if bad:
        it.throw("TypeError", f"_log() got an unexpected keyword argument {bad[0]!r}")
    return None


def obj_method(it, o, name):
    from .interp import NativeF

    c = o.cls
    if c == "match":
        if name == "group":
            def group(a, k):
                g = [o.f["groups"][i] for i in (a or [0])]
                return g[0] if len(g) == 1 else tuple(g)
            return NativeF("group", group)
        if name == "groups":
            return NativeF("groups", lambda a, k: o.f["groups"][1:])
        raise Unsupported("match." + name)
    if c == "logger":
        if name in ("debug", "info", "warning", "error", "critical", "exception"):
            return NativeF("logging." + name, lambda a, k: log_call(it, a, k))
        raise Unsupported("logger." + name)
    if c == "uts46":
        if name in ("name_to_ascii", "name_to_unicode"):
            return NativeF(name, lambda a, k: icu_process(it, o, "a" if name == "name_to_ascii" else "u", a))
        raise Unsupported("IDNA." + name)
    if c == "IDNAInfo":
        if name == "get_errors":
            return NativeF(name, lambda a, k: o.f["errors"])
        if name == "has_errors":
            return NativeF(name, lambda a, k: znot(zeq(o.f["errors"], 0)))
        raise Unsupported("IDNAInfo." + name)
    if isinstance(c, ClassV) and "logger" in o.f:
        if name in ("debug", "info", "warning", "error", "critical", "exception"):
            return NativeF("logging." + name, lambda a, k: log_call(it, a, k))
    if isinstance(c, type) and issubclass(c, BaseException):
        if name in ("__str__",):
            return NativeF(name, lambda a, k: opaque_str(it))
        raise Unsupported("exception attribute " + name)
    if isinstance(c, ClassV) and c.kind == "namedtuple" and name == "_asdict":
        raise Unsupported("_asdict")
    if isinstance(c, str):
        raise Unsupported(f"{c}.{name}")
    return None


IEXC = {k: z3.Function("icu_exc_" + k, INT, SQ, BOOL) for k in "au"}
IDEST = {k: z3.Function("icu_dest_" + k, INT, SQ, SQ) for k in "au"}
IERR = {k: z3.Function("icu_err_" + k, INT, SQ, INT) for k in "au"}


def icu_terms(it, kind, flags, v):
    eng = it.eng
    if not isinstance(flags, int):
        raise Unsupported("symbolic IDNA options")
    t = eng.term(v)
    fl = z3.IntVal(flags)
    d = IDEST[kind](fl, t)
    eng.note_atom(d, SCALAR)  # assumed: ICU returns well-formed text
    e = IERR[kind](fl, t)
    eng.fact(e >= 0)
    return IEXC[kind](fl, t), eng.full(d), e


def icu_process(it, o, kind, args):
    if len(args) != 3:
        it.throw("TypeError", "incompatible arguments")
    src, dest, info = [it.force(x) for x in args]
    if not (isinstance(src, Obj) and src.cls == "UnicodeString" and isinstance(dest, Obj) and dest.cls == "UnicodeString" and isinstance(info, Obj) and info.cls == "IDNAInfo"):
        raise Unsupported("IDNA arguments")
    exc, d, e = icu_terms(it, kind, o.f["options"], src.f["v"])
    if it.branch(exc):
        it.set_field(info, "errors", it.eng.int("icuerrors"))
        x = it.new_obj(ICUErrorT)
        x.f["args"] = (Opaque("UErrorCode"),)
        raise PyRaise(x)
    it.set_field(dest, "v", d)
    it.set_field(info, "errors", e)
    return dest


def unicode_string(it, args, kwargs):
    o = it.new_obj("UnicodeString")
    if not args:
        o.f["v"] = ""
        return o
    s = it.force(args[0])
    if len(args) == 2:
        n = args[1]
        want = u16len_term(it, s)
        if not it.eng.valid(zeq(n, want)):
            raise Unsupported("UnicodeString(text, length) with another length")
    elif len(args) > 2:
        raise Unsupported("UnicodeString arguments")
    else:
        raise Unsupported("UnicodeString(text) without length")
    o.f["v"] = s
    return o


U16_KEY = None


def u16len_term(it, s):
    if isinstance(s, str):
        return len(s.encode("utf-16-le", "surrogatepass")) // 2
    return sum_fn(it, s, ((0, 1), (0x10000, 2)))


def sum_fn(it, s, pieces):
    """Sum over the elements of a piecewise constant function (lower bounds)."""
    eng = it.eng
    if isinstance(s, str):
        tot = 0
        for c in s:
            tot += [v for lo, v in pieces if lo <= ord(c)][-1]
        return tot
    f = z3.Function("sum_" + "_".join(f"{lo}:{v}" for lo, v in pieces), SQ, INT)
    n = f(eng.term(s))
    if all(v >= 0 for _, v in pieces):
        eng.fact(n >= 0)
    return n


def sum_genexp(it, comp, fr):
    """sum([... for c in s]) over a string, as a piecewise constant sum."""
    from .interp import Frame

    if len(comp.generators) != 1:
        raise Unsupported("sum of nested comprehension")
    g = comp.generators[0]
    v = it.force(it.ev(g.iter, fr))
    if isinstance(v, Rope) and v.kind == "str":
        c = z3.Int("$c")
        sub = Frame(fr.fn, it.eng.new_serial(), fr)
        it.nofork += 1
        old = getattr(it, "nofork_serial", 0)
        it.nofork_serial = it.eng.serial
        try:
            it.assign(g.target, Rope("str", [Ch(c)]), sub)
            conds = [it.test(x, sub) for x in g.ifs]
            e = it.ev(comp.elt, sub)
        except (NeedFork, PyRaise):
            raise Unsupported("sum over characters")
        finally:
            it.nofork -= 1
            it.nofork_serial = old
        if isinstance(e, bool):
            e = int(e)
        if isinstance(e, z3.BoolRef):
            e = z3.If(e, 1, 0)
        cond = zand(conds)
        if cond is not True:
            e = z3.If(cond if is_z3(cond) else z3.BoolVal(cond), e, 0)
        pieces = piecewise(e, c)
        if pieces is None:
            raise Unsupported("sum over characters")
        return sum_fn(it, v, pieces)
    return NotImplemented


def piecewise(e, c):
    if isinstance(e, int):
        return ((0, e),)
    pts = {0}
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_int_value(x):
            for d in (x.as_long(), x.as_long() + 1):
                if 0 <= d <= MAXCP:
                    pts.add(d)
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.eq(c):
            return None
        todo.extend(x.children())
    out = []
    for p in sorted(pts):
        r = z3.simplify(z3.substitute(e, (c, z3.IntVal(p))))
        if not z3.is_int_value(r):
            return None
        if not out or out[-1][1] != r.as_long():
            out.append((p, r.as_long()))
    return tuple(out)


# ------------------------------------------------------------------ types
def call_type(it, name, args, kwargs):
    from .interp import is_strlike, is_byteslike, is_int, as_int, IterV, Seg

    eng = it.eng
    args = [it.force(a) for a in args]
    if name == "str":
        if not args:
            return ""
        if len(args) > 1 or kwargs:
            if is_byteslike(args[0]):
                return decode(it, args[0], args[1:], kwargs)
            raise Unsupported("str() arguments")
        return to_str(it, args[0])
    if name == "int":
        if not args:
            return 0
        r = args[1] if len(args) > 1 else kwargs.get("base", 10)
        if is_strlike(args[0]):
            if not isinstance(r, int):
                if isinstance(r, z3.ArithRef):
                    for x in (10, 16, 8):
                        if it.branch(r == x):
                            r = x
                            break
                    else:
                        raise Unsupported("int() radix")
            return py_int(it, args[0], r)
        if is_int(args[0]):
            return as_int(args[0])
        if args[0] is None or kind_of(args[0]) == "list" or isinstance(args[0], ListV):
            it.throw("TypeError", "int() argument")
        raise Unsupported("int()")
    if name == "bool":
        return it.truth(args[0]) if args else False
    if name == "list":
        if not args:
            return it.new_list()
        v = args[0]
        if isinstance(v, IterV) and not all(isinstance(s.n, int) or (s.rope is not None and kind_of(s.rope) == "list") for s in v.segs):
            # lazily iterated once (list(enumerate(x))): a snapshot
            return IterV([Seg(s.n, s.get, s.rope, s.base) for s in v.segs])
        if isinstance(v, Rope) and v.kind in ("str", "bytes") and not isinstance(eng.length(v), int):
            return IterV(it.segments(v))
        return it.new_list(it.to_seq(v))
    if name == "tuple":
        if not args:
            return ()
        return it.to_seq(args[0])
    if name == "dict":
        if not args:
            return it.new_dict(dict(kwargs))
        v = args[0]
        if isinstance(v, DictV):
            return it.new_dict(dict(v.d))
        if isinstance(v, dict):
            return it.new_dict(dict(v))
        raise Unsupported("dict()")
    if name in ("set", "frozenset"):
        if not args:
            return frozenset()
        v = args[0]
        if isinstance(v, str):
            return frozenset(v)
        s = it.to_seq(v)
        if isinstance(s, tuple) and all(isinstance(x, (str, int)) for x in s):
            return frozenset(s)
        raise Unsupported("set()")
    if name == "bytes":
        if not args:
            return b""
        if isinstance(args[0], (bytes,)) or is_byteslike(args[0]):
            return args[0]
        raise Unsupported("bytes()")
    if name == "type" and len(args) == 1:
        v = args[0]
        if isinstance(v, Obj):
            return v.cls
        from .interp import TYPES
        for t in ("bool", "int", "str", "bytes"):
            if isinst1(it, v, TYPES[t]) is True:
                return TYPES[t]
        if isinstance(v, ListV):
            return TYPES["list"]
        return Opaque("type")
    raise Unsupported(name + "()")


def isinst1(it, v, t):
    from .interp import TypeV, is_strlike, is_byteslike, NativeF

    if isinstance(t, tuple):
        return any(isinst1(it, v, x) for x in t)
    if isinstance(t, TypeV):
        n = t.name
        if n == "str":
            return is_strlike(v)
        if n == "bytes":
            return is_byteslike(v)
        if n == "int":
            return isinstance(v, (int, z3.ArithRef, z3.BoolRef, EnumM))
        if n == "bool":
            return isinstance(v, (bool, z3.BoolRef))
        if n == "list":
            return isinstance(v, (ListV, list))
        if n == "tuple":
            return isinstance(v, tuple) or (isinstance(v, Rope) and v.kind == "list") or (isinstance(v, Obj) and isinstance(v.cls, ClassV) and v.cls.kind == "namedtuple")
        if n == "dict":
            return isinstance(v, (dict, DictV))
        if n == "float":
            return isinstance(v, float)
        if n == "object":
            return True
        if n in ("set", "frozenset"):
            return isinstance(v, frozenset)
        return False
    if isinstance(t, ClassV):
        if isinstance(v, EnumM):
            return v.cls == t.name
        return isinstance(v, Obj) and isinstance(v.cls, ClassV) and v.cls.issub(t)
    if isinstance(t, type):
        return isinstance(v, Obj) and ((isinstance(v.cls, type) and issubclass(v.cls, t)) or (isinstance(v.cls, ClassV) and v.cls.issub(t)))
    raise Unsupported(f"isinstance(..., {t!r})")


# ------------------------------------------------------------------ builtins
def builtins(it):
    from .interp import NativeF, IterV, Seg, TYPES, is_strlike, is_int, as_int, is_seq, BoundM

    eng = it.eng
    b = {}

    def reg(name):
        def deco(f):
            b[name] = NativeF(name, f)
            return f
        return deco

    @reg("len")
    def _len(a, k):
        v = it.force(a[0])
        if isinstance(v, ListV):
            return eng.length(v.r)
        if kind_of(v):
            return eng.length(v)
        if isinstance(v, (dict, frozenset)):
            return len(v)
        if isinstance(v, DictV):
            return len(v.d)
        if isinstance(v, IterV):
            n = 0
            for s in v.segs:
                n = iadd(n, s.n)
            return n
        if isinstance(v, Obj) and isinstance(v.cls, ClassV):
            f = v.cls.lookup("__len__")
            if f is not None:
                return it.call_func(f, [v], {})
            if v.cls.kind == "namedtuple":
                return len(v.cls.fields)
        if v is None or is_int(v):
            it.throw("TypeError", "object has no len()")
        raise Unsupported(f"len of {v!r}")

    @reg("isinstance")
    def _isinstance(a, k):
        v = it.force(a[0])
        if isinstance(v, Opaque):
            raise Unsupported("isinstance of an opaque value")
        return isinst1(it, v, a[1])

    @reg("issubclass")
    def _issubclass(a, k):
        raise Unsupported("issubclass")

    @reg("hasattr")
    def _hasattr(a, k):
        o, n = it.force(a[0]), a[1]
        if isinstance(o, ClassV):
            return n in ("__name__", "__module__", "__class__", "__doc__") or o.lookup(n) is not None
        if isinstance(o, Obj) and isinstance(o.cls, ClassV):
            return n in ("__module__", "__class__", "__doc__") or n in o.f or o.cls.lookup(n) is not None
        raise Unsupported("hasattr")

    @reg("getattr")
    def _getattr(a, k):
        if not isinstance(a[1], str):
            raise Unsupported("getattr")
        try:
            return it.getattr(a[0], a[1])
        except PyRaise as e:
            if len(a) > 2 and it.exc_isa(e.exc, AttributeError):
                return a[2]
            raise

    @reg("setattr")
    def _setattr(a, k):
        it.setattr(it.force(a[0]), a[1], a[2])

    @reg("ord")
    def _ord(a, k):
        v = it.force(a[0])
        if not is_strlike(v):
            it.throw("TypeError", "ord() expected string of length 1")
        n = eng.length(v)
        if not it.branch(zeq(n, 1) if not isinstance(n, int) else n == 1):
            it.throw("TypeError", "ord() expected a character")
        if isinstance(v, str):
            return ord(v)
        ok, c = eng.index(v, 0)
        return eng.char_of(c)

    @reg("chr")
    def _chr(a, k):
        v = as_int(it.force(a[0]))
        if isinstance(v, int):
            return chr(v)
        return eng.mk("str", [Ch(v)])

    @reg("range")
    def _range(a, k):
        a = [as_int(it.force(x)) for x in a]
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if all(isinstance(x, int) for x in (lo, hi, st)):
            return tuple(range(lo, hi, st)) if len(range(lo, hi, st)) <= 4096 else IterV([Seg(len(range(lo, hi, st)), lambda j: lo + j * st)])
        if not isinstance(st, int) or st not in (1, -1):
            raise Unsupported("range step")
        n = isub(hi, lo) if st == 1 else isub(lo, hi)
        if not it.branch(simp_lt(0, n)):
            return ()
        return IterV([Seg(n, lambda j: iadd(lo, j) if st == 1 else isub(lo, j))])

    @reg("enumerate")
    def _enumerate(a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        segs = []
        off = start
        for s in it.segments(a[0]):
            segs.append(Seg(s.n, lambda j, s=s, off=off: (iadd(off, j), s.get(j)), None, s, s.live))
            if s.rope is not None and kind_of(s.rope) in ("str", "bytes"):
                segs[-1].trope = s.rope
            off = iadd(off, s.n)
        return IterV(segs)

    @reg("reversed")
    def _reversed(a, k):
        segs = []
        for s in reversed(list(it.segments(a[0]))):
            segs.append(Seg(s.n, lambda j, s=s: s.get(isub(isub(s.n, 1), j)), None, s, s.live))
        return IterV(segs)

    @reg("zip")
    def _zip(a, k):
        seqs = [it.to_seq(x) for x in a]
        if all(isinstance(s, tuple) for s in seqs):
            return tuple(zip(*seqs))
        raise Unsupported("zip")

    @reg("iter")
    def _iter(a, k):
        return IterV(it.segments(a[0]))

    @reg("sum")
    def _sum(a, k):
        s = it.to_seq(a[0])
        if isinstance(s, tuple):
            t = a[1] if len(a) > 1 else 0
            for x in s:
                t = simp(t + as_int(x))
            return t
        raise Unsupported("sum")

    def minmax(a, k, ismin):
        s = it.to_seq(a[0]) if len(a) == 1 else tuple(a)
        if isinstance(s, tuple) and s and all(is_int(x) for x in s):
            t = as_int(s[0])
            for x in s[1:]:
                x = as_int(x)
                if isinstance(t, int) and isinstance(x, int):
                    t = min(t, x) if ismin else max(t, x)
                else:
                    t = simp(z3.If((t < x) if ismin else (t > x), t, x))
            return t
        raise Unsupported("min/max")

    b["min"] = NativeF("min", lambda a, k: minmax(a, k, True))
    b["max"] = NativeF("max", lambda a, k: minmax(a, k, False))

    @reg("abs")
    def _abs(a, k):
        v = as_int(it.force(a[0]))
        return abs(v) if isinstance(v, int) else simp(z3.If(v < 0, -v, v))

    @reg("hex")
    def _hex(a, k):
        v = as_int(it.force(a[0]))
        if isinstance(v, int):
            return hex(v)
        if not is_int(v):
            it.throw("TypeError", "hex()")
        return eng.cat("0x", hexl(it, v)) if eng.valid(v >= 0) else opaque_str(it)

    @reg("repr")
    def _repr(a, k):
        check_fmt(it, a[0])
        return opaque_str(it)

    @reg("callable")
    def _callable(a, k):
        return isinstance(a[0], (FuncV, NativeF, BoundM, ClassV))

    @reg("sorted")
    def _sorted(a, k):
        s = it.to_seq(a[0])
        if isinstance(s, tuple) and all(isinstance(x, (str, int)) for x in s) and not k:
            return it.new_list(tuple(sorted(s)))
        return it.new_list(sort_rope(it, s, k))

    @reg("divmod")
    def _divmod(a, k):
        return (it.binop(ast.FloorDiv(), a[0], a[1]), it.binop(ast.Mod(), a[0], a[1]))

    @reg("pow")
    def _pow(a, k):
        return it.binop(ast.Pow(), a[0], a[1])

    @reg("map")
    def _map(a, k):
        if len(a) != 2:
            raise Unsupported("map")
        return IterV([Seg(s.n, lambda j, s=s: it.call(a[0], [s.get(j)], {})) for s in it.segments(a[1])])

    @reg("type")
    def _type(a, k):
        return call_type(it, "type", a, k)

    @reg("id")
    def _id(a, k):
        raise Unsupported("id()")

    b["NotImplemented"] = Opaque("NotImplemented")
    return b


SORTF = z3.Function("sorted_cu", SQ, SQ)


def sort_rope(it, r, kwargs):
    """Stable sort of a list of pairs by the UTF-16 code units of the name."""
    from .interp import NativeF

    eng = it.eng
    key = kwargs.get("key")
    if set(kwargs) - {"key", "reverse"} or kwargs.get("reverse", False) is not False:
        raise Unsupported("sort arguments")
    if key is None:
        raise Unsupported("sort without key")
    a = eng.atom("$elem", SCALAR)
    n, v = eng.sym_str("$name", SCALAR), eng.sym_str("$value", SCALAR)
    kv = it.call(key, [(n, v)], {})
    ok = isinstance(kv, Obj) and kv.cls == "UnicodeString" and kv.f["v"] is n
    if not ok:
        raise Unsupported("sort key")
    return sorted_term(it, r)


def sorted_term(it, r):
    eng = it.eng
    t = SORTF(eng.term(r))
    info = None
    for p in parts_of(r):
        if isinstance(p, Sl):
            info = eng.elem_info.get(p.a.get_id())
    eng.note_atom(t, None, info or ("pair", SCALAR))
    eng.fact(LEN(t) == eng.length(r))
    return Rope("list", [Sl(t, 0, LEN(t))])


# ------------------------------------------------------------------ methods
def method(it, o, name):
    from .interp import NativeF, is_strlike, is_byteslike, as_int, is_int, IterV

    eng = it.eng

    def N(f):
        return NativeF(name, f)

    if isinstance(o, RegexV):
        return regex_method(it, o, name)
    if isinstance(o, Enc16):
        if name == "decode":
            return N(lambda a, k: decode(it, o, a, k))
        raise Unsupported("UTF-16 bytes")
    if isinstance(o, ClassCache):
        if name == "get":
            def get(a, k):
                v = o.lookup(it, it.force(a[0]))
                return v if v is not None else (a[1] if len(a) > 1 else None)
            return N(get)
        raise Unsupported("cache method " + name)
    if isinstance(o, frozenset) and name in ("isdisjoint", "issuperset"):
        def setop(a, k):
            v = it.force(a[0])
            if isinstance(v, CONST) or isinstance(v, frozenset):
                return getattr(o, name)(v)
            if not all(isinstance(x, str) for x in o):
                raise Unsupported("set of other than characters")
            chars = CharSet.of("".join(x for x in o if len(x) == 1))
            if kind_of(v) == "str":
                return eng.allin(v, chars.complement() if name == "isdisjoint" else chars)
            raise Unsupported("set." + name)
        return N(setop)
    if isinstance(o, (dict, DictV)):
        return dict_method(it, o, name)
    if isinstance(o, ListV):
        return list_method(it, o, name)
    if isinstance(o, tuple) or (isinstance(o, Rope) and o.kind == "list"):
        if name in ("count", "index"):
            raise Unsupported("tuple." + name)
        return None
    if isinstance(o, (str, bytes, Rope)):
        return str_method(it, o, name)
    if is_int(o):
        v = as_int(o)
        if name == "bit_length":
            def bl(a, k):
                if isinstance(v, int):
                    return v.bit_length()
                r = z3.Function("bit_length", INT, INT)(v)
                eng.fact(z3.And(r >= 0, (r <= 64) == z3.And(v < 2**64, v > -(2**64)), (r == 0) == (v == 0)))
                return r
            return N(bl)
        raise Unsupported("int." + name)
    if isinstance(o, Opaque):
        raise Unsupported(f"attribute {name} of {o}")
    if isinstance(o, (FuncV,)):
        if name in ("__name__", "__qualname__"):
            return o.name
        if name == "__module__":
            return o.module.name
    return None


def dict_method(it, o, name):
    from .interp import NativeF

    d = o.d if isinstance(o, DictV) else o

    def N(f):
        return NativeF(name, f)

    def lookup(k):
        k = it.force(k)
        if isinstance(k, (Rope,)) or is_z3(k):
            for key in d:
                if it.branch(it.compare_eq(k, key)):
                    return True, d[key]
            return False, None
        for key in d:
            if key == k and type(key) is type(k) or (isinstance(key, (EnumM, int)) and isinstance(k, (EnumM, int)) and not isinstance(k, bool) and key == k):
                return True, d[key]
        return False, None

    def wr():
        if not isinstance(o, DictV):
            raise Unsupported("write to a module-level dictionary")
        if it.nofork and o.serial <= it.nofork_serial:
            raise NeedFork()
        it.log_write(("D", o.serial))

    if name == "get":
        def get(a, k):
            ok, v = lookup(a[0])
            return v if ok else (a[1] if len(a) > 1 else None)
        return N(get)
    if name == "setdefault":
        def setdefault(a, k):
            ok, v = lookup(a[0])
            if ok:
                return v
            wr()
            d[a[0]] = a[1] if len(a) > 1 else None
            return d[a[0]]
        return N(setdefault)
    if name == "pop":
        def pop(a, k):
            ok, v = lookup(a[0])
            if ok:
                wr()
                del d[a[0]]
                return v
            if len(a) > 1:
                return a[1]
            it.throw("KeyError", a[0])
        return N(pop)
    if name == "items":
        return N(lambda a, k: tuple((x, y) for x, y in d.items()))
    if name == "keys":
        return N(lambda a, k: tuple(d))
    if name == "values":
        return N(lambda a, k: tuple(d.values()))
    if name == "copy":
        return N(lambda a, k: it.new_dict(dict(d)))
    if name == "update":
        def update(a, k):
            wr()
            for x in a:
                d.update(x.d if isinstance(x, DictV) else x)
            d.update(k)
        return N(update)
    raise Unsupported("dict." + name)


def list_method(it, o, name):
    from .interp import NativeF, as_int

    eng = it.eng

    def N(f):
        return NativeF("list." + name, f)

    if name == "append":
        return N(lambda a, k: it.set_list(o, eng.cat(o.r, (a[0],))))
    if name == "extend":
        return N(lambda a, k: it.set_list(o, eng.cat(o.r, it.to_seq(a[0]))))
    if name == "insert":
        def insert(a, k):
            i = as_int(a[0])
            n = eng.length(o.r)
            i = eng.norm_index(i, n, 0)
            x, y = eng.take(o.r, i)
            it.set_list(o, eng.cat(eng.cat(x, (a[1],)), y))
        return N(insert)
    if name == "pop":
        return N(lambda a, k: it.pop_index(o, a[0] if a else -1))
    if name == "clear":
        return N(lambda a, k: it.set_list(o, ()))
    if name == "copy":
        return N(lambda a, k: it.new_list(o.r))
    if name == "reverse":
        def rev(a, k):
            if isinstance(o.r, tuple):
                it.set_list(o, o.r[::-1])
            else:
                raise Unsupported("reverse")
        return N(rev)
    if name == "sort":
        def sort(a, k):
            it.set_list(o, sort_rope(it, o.r, k))
        return N(sort)
    if name in ("index", "count", "remove"):
        raise Unsupported("list." + name)
    return None


def chars_arg(x):
    if isinstance(x, str):
        return CharSet.of(x)
    raise Unsupported("strip argument")


def str_method(it, o, name):
    from .interp import NativeF, is_strlike, is_byteslike, as_int

    eng = it.eng
    kind = kind_of(o)

    def N(f):
        return NativeF(kind + "." + name, f)

    def need(x):
        x = it.force(x)
        if kind_of(x) != kind:
            if x is None or isinstance(x, (int, str, bytes, Rope, ListV)):
                it.throw("TypeError", f"{name}: wrong argument type")
            raise Unsupported(f"{name} argument")
        return x

    if name == "find" or name == "index":
        def f(a, k):
            s = need(a[0])
            if len(a) > 1:
                raise Unsupported("find with bounds")
            if isinstance(o, (str, bytes)) and isinstance(s, (str, bytes)):
                r = o.find(s)
            else:
                c = one_char(it, s)
                if c is None:
                    raise Unsupported("find of a longer string")
                r = find(it, o, c)
            if name == "index" and isinstance(r, int) and r == -1:
                it.throw("ValueError", "substring not found")
            return r
        return N(f)
    if name == "split":
        def split(a, k):
            sep = a[0] if a else k.get("sep")
            mx = a[1] if len(a) > 1 else k.get("maxsplit", -1)
            if sep is None:
                raise Unsupported("split()")
            sep = need(sep)
            if mx == -1:
                return it.new_list(split_parts(it, o, sep))
            if mx == 1:
                if isinstance(o, (str, bytes)):
                    return it.new_list(tuple(o.split(sep, 1)))
                c = one_char(it, sep)
                if c is None:
                    raise Unsupported("split separator")
                i = find(it, o, c)
                if isinstance(i, int) and i == -1:
                    return it.new_list((o,))
                x, y = eng.take(o, i)
                return it.new_list((x, eng.take(y, 1)[1]))
            raise Unsupported("split maxsplit")
        return N(split)
    if name == "partition":
        def part(a, k):
            sep = need(a[0])
            c = one_char(it, sep)
            if c is None:
                raise Unsupported("partition")
            i = find(it, o, c)
            if isinstance(i, int) and i == -1:
                return (o, const_empty(kind), const_empty(kind))
            x, y = eng.take(o, i)
            return (x, sep, eng.take(y, 1)[1])
        return N(part)
    if name == "startswith":
        return N(lambda a, k: startswith(it, o, a[0] if isinstance(a[0], tuple) else need(a[0])))
    if name == "endswith":
        return N(lambda a, k: endswith(it, o, a[0] if isinstance(a[0], tuple) else need(a[0])))
    if name in ("removeprefix", "removesuffix"):
        def rp(a, k):
            s = need(a[0])
            if name == "removeprefix":
                if it.branch(startswith(it, o, s)):
                    return eng.getslice(o, len(s), None)
            elif it.branch(endswith(it, o, s)):
                return eng.getslice(o, None, -len(s)) if len(s) else o
            return o
        return N(rp)
    if name in ("strip", "lstrip", "rstrip"):
        def st(a, k):
            cs = PYSPACE if not a or a[0] is None else chars_arg(a[0])
            if kind != "str":
                raise Unsupported("bytes.strip")
            return strip_class(it, o, cs, name != "rstrip", name != "lstrip")
        return N(st)
    if name == "replace":
        def rep(a, k):
            if len(a) != 2 or k:
                raise Unsupported("replace count")
            return replace(it, o, need(a[0]), need(a[1]))
        return N(rep)
    if name in ("lower", "casefold"):
        def low(a, k):
            if isinstance(o, (str, bytes)):
                return o.lower()
            if static_class(eng, o).subset(ASCII) or eng.valid(eng.allin(o, ASCII)):
                return apply_map(it, o, "LOWER")
            t, r = fn1(it, "PYLOWER", o)
            return r
        return N(low)
    if name == "upper":
        def up(a, k):
            if isinstance(o, (str, bytes)):
                return o.upper()
            raise Unsupported("upper")
        return N(up)
    if name == "join":
        return N(lambda a, k: join(it, o, it.force(a[0])))
    if name == "encode" and kind == "str":
        return N(lambda a, k: encode(it, o, a, k))
    if name == "decode" and kind == "bytes":
        return N(lambda a, k: decode(it, o, a, k))
    if name == "format" and kind == "str":
        def fmt(a, k):
            if isinstance(o, str) and o.count("{}") == len(a) and not k and o.replace("{}", "").count("{") == 0 and "}" not in o.replace("{}", ""):
                bits = o.split("{}")
                parts = parts_of(bits[0])
                for x, bit in zip(a, bits[1:]):
                    parts = parts + parts_of(to_str(it, x)) + parts_of(bit)
                return eng.mk("str", parts)
            raise Unsupported("format")
        return N(fmt)
    if name in ("isdigit", "isdecimal", "isalpha", "isalnum", "isascii", "isspace", "isupper", "islower", "isnumeric"):
        def isx(a, k):
            if isinstance(o, (str, bytes)):
                return getattr(o, name)()
            if name == "isascii":
                return eng.allin(o, ASCII)
            if static_class(eng, o).subset(ASCII) or eng.valid(eng.allin(o, ASCII)):
                cs = {"isdigit": DIGIT, "isdecimal": DIGIT, "isnumeric": DIGIT, "isalpha": CharSet([(65, 90), (97, 122)]), "isalnum": CharSet([(48, 57), (65, 90), (97, 122)])}.get(name)
                if cs is not None:
                    return simp(zand([znot(zeq(eng.length(o), 0)), eng.allin(o, cs)]))
            raise Unsupported("str." + name)
        return N(isx)
    if name == "count":
        raise Unsupported("count")
    if name in ("translate", "title", "rfind", "rindex", "rsplit", "rpartition", "splitlines", "zfill", "ljust", "rjust", "center", "expandtabs", "maketrans", "hex", "swapcase", "capitalize"):
        raise Unsupported("str." + name)
    return None


JOINF = z3.Function("join", SQ, SQ, SQ)


def join(it, sep, v):
    from .interp import is_strlike, IterV

    eng = it.eng
    kind = kind_of(sep)
    if isinstance(v, IterV):
        v = it.to_seq(v)
    if isinstance(v, ListV):
        v = v.r
    if kind_of(v) == "str" and kind == "str":
        if isinstance(v, str):
            return eng.mk("str", [x for i, c in enumerate(v) for x in ((parts_of(sep) if i else []) + [c])])
        if isinstance(sep, str) and sep == "":
            return v
        raise Unsupported("join of a symbolic string")
    if isinstance(v, frozenset):
        raise Unsupported("join of a set")
    if kind_of(v) != "list":
        v = it.to_seq(v)
    if isinstance(v, tuple):
        parts = []
        for i, x in enumerate(v):
            x = it.force(x)
            if kind_of(x) != kind:
                it.throw("TypeError", "sequence item: wrong type")
            if i:
                parts += parts_of(sep)
            parts += parts_of(x)
        return eng.mk(kind, parts)
    # symbolic list of strings
    if isinstance(sep, (str, bytes)) and len(sep) == 0 and kind == "str":
        parts = []
        for p in parts_of(v):
            if isinstance(p, tuple):
                for x in p:
                    if kind_of(it.force(x)) != kind:
                        it.throw("TypeError", "sequence item: wrong type")
                    parts += parts_of(it.force(x))
            elif isinstance(p, Sl) and p.fs and is_fm(p.fs[-1]) and MAPS[p.fs[-1]].elem_out and MAPS[p.fs[-1]].elem_out[0] == "str":
                parts.append(Sl(p.a, p.lo, p.hi, p.fs[:-1] + (to_str_fm(it, p.fs[-1]),)))
            else:
                break
        else:
            return eng.mk("str", parts)
    ps = parts_of(v)
    if isinstance(sep, str) and kind == "str" and len(ps) == 1 and isinstance(ps[0], Sl) and not ps[0].fs and (eng.part_info(ps[0]) or ("",))[0] == "str":
        # first ++ (sep ++ element for the others)
        p = ps[0]
        if it.branch(zeq(isub(p.hi, p.lo), 0)):
            return ""
        m = make_fm(it, lambda e: ([], eng.cat(sep, e)), eng.part_info(p))
        m = to_str_fm(it, m)
        return eng.mk("str", parts_of(eng.part_elem("list", p, 0)) + [Sl(p.a, iadd(p.lo, 1), p.hi, (m,))])
    t = JOINF(eng.term(sep), eng.term(v))
    cls = CharSet([]) if not isinstance(sep, (str, bytes)) else (CharSet.of(sep) if kind == "str" else BYTE)
    for p in parts_of(v):
        if isinstance(p, Sl):
            info = eng.part_info(p)
            c = info[1] if info and info[0] in ("str", "bytes") else None
            if c is None:
                cls = None
                break
            cls = cls.union(c)
        elif isinstance(p, tuple):
            for x in p:
                cls = cls.union(static_class(eng, x))
    eng.note_atom(t, cls)
    if isinstance(sep, (str, bytes)):
        eng.joins[t.get_id()] = (sep, v)
        eng.keep.append(t)
    return eng.full(t, kind)


def map_list(it, r, g):
    """g applied to every element of list rope r."""
    eng = it.eng
    out = []
    for p in parts_of(r):
        if isinstance(p, tuple):
            out.append(tuple(g(x) for x in p))
        elif isinstance(p, Sl) and p.fs and getattr(MAPS[p.fs[-1]], "ce", None):
            m = MAPS[p.fs[-1]]

            def ce(e, m=m):
                cs, w = m.ce(e)
                return cs, g(w)

            out.append(Sl(p.a, p.lo, p.hi, p.fs[:-1] + (make_fm(it, ce, m.info),)))
        elif isinstance(p, Sl) and not p.fs and eng.part_info(p):
            out.append(Sl(p.a, p.lo, p.hi, (make_fm(it, lambda e: ([], g(e)), eng.part_info(p)),)))
        else:
            raise Unsupported("map of a list")
    return eng.mk("list", out)


def elem_term(v):
    """The term t a list element value was made of (wrap_elem)."""
    x = v[0] if isinstance(v, tuple) else v
    ps = parts_of(x)
    if len(ps) != 1 or not isinstance(ps[0], Sl) or ps[0].fs:
        return None
    a = ps[0].a
    return a.arg(0) if isinstance(v, tuple) else a


def subst_value(it, v, old, new):
    """v with term old replaced by new."""
    eng = it.eng

    def z(x):
        if not is_z3(x):
            return x
        y = simp(z3.substitute(x, (old, new)))
        return y

    def atom(a):
        b = z3.substitute(a, (old, new))
        if not b.eq(a):
            eng.note_atom(b, eng.atom_cls.get(a.get_id()), eng.elem_info.get(a.get_id()))
        return b

    if isinstance(v, tuple):
        return tuple(subst_value(it, x, old, new) for x in v)
    if isinstance(v, Rope):
        out = []
        for p in v.parts:
            if isinstance(p, Sl):
                out.append(Sl(atom(p.a), z(p.lo), z(p.hi), p.fs))
            elif isinstance(p, Ch):
                out.append(Ch(z(p.c)))
            elif isinstance(p, tuple):
                out.append(subst_value(it, p, old, new))
            else:
                out.append(p)
        return eng.mk(v.kind, out)
    if is_z3(v):
        return z(v)
    if v is None or isinstance(v, (str, bytes, int)):
        return v
    raise Unsupported("substitution")


def value_consts(v, out):
    if isinstance(v, tuple):
        for x in v:
            value_consts(x, out)
    elif isinstance(v, Rope):
        for p in v.parts:
            if isinstance(p, Sl):
                for x in (p.a, p.lo, p.hi):
                    value_consts(x, out)
            elif isinstance(p, Ch):
                value_consts(p.c, out)
            elif isinstance(p, tuple):
                value_consts(p, out)
    elif is_z3(v):
        todo, seen = [v], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())


def appended_map(it, ctx, v0, v1, k):
    """The map of a loop whose body appends one value per element."""
    eng = it.eng
    p = ctx.seg_slice()
    ps = parts_of(v1)
    if p is None or p.fs or not ps or not isinstance(ps[-1], tuple) or eng.part_info(p) is None:
        return None
    w = ps[-1][-1]
    if not eng.valid(zeq(eng.length(v1), iadd(eng.length(v0), 1))):
        return None
    e = EL(p.a, simp(iadd(p.lo, k)) if is_z3(iadd(p.lo, k)) else z3.IntVal(iadd(p.lo, k)))
    mark = z3.Const("$M", SQ)
    try:
        g = subst_value(it, w, e, mark)
    except Unsupported:
        return None
    names = set()
    value_consts(g, names)
    for n in names:
        if "!" in n:
            b, i = n.rsplit("!", 1)
            if int(i) >= ctx.counter0.get(b, 0):
                return None  # depends on something that changes in the loop

    def ce(elem):
        t = elem_term(elem)
        if t is None:
            raise Unsupported("element")
        return [], subst_value(it, w, e, t)

    try:
        return make_fm(it, ce, eng.part_info(p))
    except Unsupported:
        return None


def in_table(it, a, table):
    """a in a large constant table of strings."""
    eng = it.eng
    f = z3.Function("in_" + hashlib.sha1(repr(sorted(set(table))).encode()).hexdigest()[:8], SQ, BOOL)
    short = [x for x in table]
    if len(table) <= 12:
        return simp(zor([eng.eq(a, x) for x in table]))
    t = eng.term(a)
    b = f(t)
    if "" not in table:
        eng.fact(z3.Implies(zeq(eng.length(a), 0), z3.Not(b)))
    return b


# ------------------------------------------------------------------ modules
def native_modules(it):
    from .interp import NativeF, NativeMod, TYPES

    def N(name, f):
        return NativeF(name, f)

    def copy_copy(a, k):
        v = it.force(a[0])
        if isinstance(v, ListV):
            return it.new_list(v.r)
        if isinstance(v, DictV):
            return it.new_dict(dict(v.d))
        if isinstance(v, Obj) and isinstance(v.cls, ClassV):
            o = it.new_obj(v.cls)
            o.f.update(v.f)
            return o
        return v

    def deep(v):
        v = it.force(v)
        if isinstance(v, ListV):
            r = v.r
            for p in parts_of(r):
                if isinstance(p, tuple) and any(isinstance(x, (Obj, ListV, DictV)) for x in p):
                    raise Unsupported("deepcopy of nested lists")
            return it.new_list(r)
        if isinstance(v, DictV):
            return it.new_dict({k: deep(x) for k, x in v.d.items()})
        if isinstance(v, Obj) and isinstance(v.cls, ClassV):
            o = it.new_obj(v.cls)
            for n, x in v.f.items():
                o.f[n] = deep(x)
            return o
        return v

    def getLogger(a, k):
        for c in it.prog.parse.ns.values():
            if isinstance(c, ClassV) and c.name == "_Logger":
                o = it.new_obj(c)
                o.f["logger"] = True
                return o
        return it.new_obj("logger")

    mods = {}
    mods["copy"] = NativeMod("copy", {"copy": N("copy", copy_copy), "deepcopy": N("deepcopy", lambda a, k: deep(a[0]))})
    mods["logging"] = NativeMod("logging", {"getLogger": N("getLogger", getLogger)})
    def iterencode(a, k):
        raise Unsupported("codecs.iterencode")
    mods["codecs"] = NativeMod("codecs", {"iterencode": N("iterencode", iterencode)})
    import string as _s
    mods["string"] = NativeMod("string", {n: getattr(_s, n) for n in ("ascii_letters", "ascii_lowercase", "ascii_uppercase", "digits", "hexdigits", "octdigits", "punctuation", "printable", "whitespace")})
    mods["quote"] = N("quote", lambda a, k: quote(it, a, k, False))
    mods["quote_plus"] = N("quote_plus", lambda a, k: quote(it, a, k, True))
    mods["percent_decode"] = mods["unquote_to_bytes"] = N("unquote_to_bytes", lambda a, k: unquote_to_bytes(it, it.force(a[0])))

    def parse_result(a, k):
        names = ["scheme", "netloc", "path", "params", "query", "fragment"]
        o = it.new_obj("ParseResult")
        vals = dict(zip(names, a))
        vals.update(k)
        if set(vals) != set(names):
            it.throw("TypeError", "ParseResult arguments")
        o.f.update(vals)
        return o
    mods["ParseResult"] = N("ParseResult", parse_result)

    def re_compile(a, k):
        if isinstance(a[0], str):
            return RegexV(a[0], int(a[1]) | 32 if len(a) > 1 else 32)
        raise Unsupported("re.compile")

    def re_fn(name):
        def f(a, k):
            if not isinstance(a[0], str) or k:
                raise Unsupported("re." + name)
            return it.call(regex_method(it, RegexV(a[0], 32), name), a[1:], {})
        return f
    mods["re"] = NativeMod("re", {"compile": N("compile", re_compile), "search": N("search", re_fn("search")), "sub": N("sub", re_fn("sub")), "fullmatch": N("fullmatch", re_fn("fullmatch")), "match": N("match", re_fn("match"))})

    ns = dict(it.prog.icu_consts)

    def create(a, k):
        o = it.new_obj("uts46")
        v = it.force(a[0])
        if not isinstance(v, int):
            raise Unsupported("symbolic IDNA options")
        o.f["options"] = v
        return o

    def info(a, k):
        o = it.new_obj("IDNAInfo")
        o.f["errors"] = 0
        return o
    ns["IDNA"] = NativeMod("icu.IDNA", {"create_uts46_instance": N("create_uts46_instance", create)})
    ns["IDNAInfo"] = N("IDNAInfo", info)
    ns["UnicodeString"] = N("UnicodeString", lambda a, k: unicode_string(it, a, k))
    ns["ICUError"] = ICUErrorT
    mods["icu"] = NativeMod("icu", ns)
    mods["overload"] = N("overload", lambda a, k: a[0])
    return mods


# ------------------------------------------------------------------ spec prims
def is_conc(v):
    if isinstance(v, (str, bytes, int, bool, frozenset)) or v is None:
        return True
    if isinstance(v, tuple):
        return all(is_conc(x) for x in v)
    return False


def spec_prims(it):
    eng = it.eng
    out = {}
    native = it.spec.native.get("speclib") if it.spec is not None else None

    def reg(f):
        name = f.__name__[2:]

        def g(args, kwargs, f=f, name=name):
            args = [it.force(a) for a in args]
            if all(is_conc(a) for a in args) and not kwargs and name not in ("list_copy", "icu_to_ascii", "icu_to_unicode", "split_all", "split_bytes"):
                return getattr(native, name)(*args)
            return f(*args, **kwargs)

        out[name] = g
        return f

    @reg
    def p_usv(s):
        return usv(it, s)

    @reg
    def p_pe(s, enc_set, plus=False):
        s = usv(it, s)
        keep = CharSet([(c, c) for c in range(0x7F) if chr(c) not in enc_set])
        exc = {}
        if plus:
            exc = {32: "+"}
        if isinstance(s, str):
            return MAPS[emap(keep, exc)].const(s)
        return pe_keep(it, s, keep, exc)

    @reg
    def p_strip_chars(s, chars):
        cs = CharSet.of(chars)
        r = strip_class(it, s, cs, True, True)
        if r is s or isinstance(s, str) or isinstance(r, str):
            return r
        if it.branch(it.eq_nofork_safe(r, s)):
            return s
        return r

    @reg
    def p_remove_chars(s, chars):
        return filter_class(it, s, CharSet.of(chars).complement())

    @reg
    def p_lower(s):
        return apply_map(it, s, "LOWER")

    @reg
    def p_digits_value(s, radix):
        return val(it, s, radix)

    @reg
    def p_chars_in(s, chars):
        return eng.allin(s, CharSet.of(chars))

    @reg
    def p_no_chars_in(s, chars):
        return eng.allin(s, CharSet.of(chars).complement())

    @reg
    def p_is_url_code_point(c):
        return eng.member(eng.char_of(c), url_cps())

    @reg
    def p_first_index(s, c):
        return find(it, s, ord(c))

    @reg
    def p_list_copy(x):
        if isinstance(x, ListV):
            return it.new_list(x.r)
        return it.new_list(x)

    @reg
    def p_split_all(s, sep):
        return it.new_list(split_parts(it, s, sep))

    @reg
    def p_too_many_digits(s):
        return simp_lt(4300, eng.length(s))

    @reg
    def p_hex_lower(n):
        return hexl(it, n)

    @reg
    def p_bits_outside(errors, ignored):
        t = BITAND(errors, z3.IntVal(~ignored))
        eng.fact(z3.Implies(errors == 0, t == 0))
        return simp(t != 0)

    @reg
    def p_all_url_units(s):
        return all_units(it, s)

    @reg
    def p_utf8_bytes(s):
        return apply_map(it, usv(it, s), u8_map())

    @reg
    def p_percent_decode_bytes(b):
        return unquote_to_bytes(it, b)

    @reg
    def p_percent_decode_string(s):
        return unquote_to_bytes(it, apply_map(it, usv(it, s), u8_map()))

    @reg
    def p_utf8_decode_lossy(b):
        return decode(it, b, ["utf-8", "replace"], {})

    def icu(kind, flags, domain):
        exc, d, e = icu_terms(it, kind, flags, domain)
        o = it.new_obj("IcuResult")
        o.f.update(exc=exc, dest=d, errors=e)
        return o

    @reg
    def p_icu_to_ascii(flags, domain):
        return icu("a", flags, domain)

    @reg
    def p_icu_to_unicode(flags, domain):
        return icu("u", flags, domain)

    @reg
    def p_rstrip_space(s):
        return strip_class(it, s, CharSet.of(" "), False, True)

    @reg
    def p_split_bytes(b, sep):
        return it.new_list(split_parts(it, b, bytes([sep])))

    @reg
    def p_plus_to_space(b):
        return apply_map(it, b, rpl_map(0x2B, 0x20))

    @reg
    def p_first_value(lst, name):
        r = find_first(it, lst.r if isinstance(lst, ListV) else lst, lambda p: it.compare_eq(p[0], name))
        return None if r is None else r[1][1]

    @reg
    def p_first_name_index(lst, name):
        r = find_first(it, lst.r if isinstance(lst, ListV) else lst, lambda p: it.compare_eq(p[0], name))
        return -1 if r is None else r[0]

    @reg
    def p_has_pair(lst, name, value):
        r = find_first(it, lst.r if isinstance(lst, ListV) else lst, lambda p: zand([it.compare_eq(p[0], name)] + ([] if value is None else [it.compare_eq(p[1], value)])))
        return r is not None

    @reg
    def p_stable_sorted_by_name_code_units(lst):
        return it.new_list(sorted_term(it, lst.r))

    return out


_URLCP = None


def url_cps():
    global _URLCP
    if _URLCP is None:
        cs = CharSet.of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!$&'()*+,-./:;=?@_~").union(CharSet([(0xA0, 0x10FFFD)]))
        bad = CharSet([(0xD800, 0xDFFF), (0xFDD0, 0xFDEF)] + [(p * 0x10000 + 0xFFFE, p * 0x10000 + 0xFFFF) for p in range(17)])
        _URLCP = cs.inter(bad.complement())
    return _URLCP


def all_units(it, s):
    """speclib.all_url_units in terms of the pieces between '%'s (the two forms
    are compared natively by conc/laws.py)."""
    eng = it.eng
    out = [eng.allin(s, url_cps().union(CharSet.of("%")))]
    r = split_parts(it, s, "%")
    r = r[1:] if isinstance(r, tuple) else eng.take(r, 1)[1]

    def bad(x):
        n = eng.length(x)
        if isinstance(n, int) and n < 2:
            return True
        h = [eng.member(eng.char_of(eng._at(x, i)), HEXD) for i in (0, 1)]
        return znot(zand([simp_le(2, n)] + h))

    for p in parts_of(r):
        if isinstance(p, tuple):
            out += [znot(bad(x)) for x in p]
        else:
            lp = list_pred(it, bad, eng.part_info(p))
            if lp is None:
                raise Unsupported("all_url_units")
            out.append(zeq(eng.first_index(p, lp), eng.part_len(p)))
    return simp(zand(out))


# ------------------------------------------------------------------ loop helpers
def canon(v):
    """Canonical text of a value (used as part of an FM's name)."""
    if isinstance(v, z3.ExprRef):
        return v.sexpr()
    if isinstance(v, Rope):
        return v.kind + "[" + ",".join(canon(p) for p in v.parts) + "]"
    if isinstance(v, Sl):
        return f"({canon(v.a)} {canon(v.lo)} {canon(v.hi)} {v.fs})"
    if isinstance(v, Ch):
        return f"ch({canon(v.c)})"
    if isinstance(v, tuple):
        return "(" + ",".join(canon(x) for x in v) + ")"
    if isinstance(v, ListV):
        return "L" + canon(v.r)
    if isinstance(v, (str, int, bytes)) or v is None:
        return repr(v)
    raise Unsupported(f"no canonical form of {v!r}")


def generic_elem(it, info):
    e = z3.Const("$E", SQ)
    return it.eng.wrap_elem(e, info)


def pure(it, f):
    """f() without forking or side effects; None if that is impossible."""
    it.nofork += 1
    old = getattr(it, "nofork_serial", 0)
    if it.nofork == 1:
        it.nofork_serial = it.eng.serial
    try:
        return (f(),)
    except (NeedFork, PyRaise):
        return None
    finally:
        it.nofork -= 1
        it.nofork_serial = old


def value_info(it, v):
    from .interp import is_strlike, is_byteslike

    eng = it.eng
    if is_strlike(v):
        return ("str", static_class(eng, v))
    if is_byteslike(v):
        return ("bytes", static_class(eng, v))
    if isinstance(v, tuple) and len(v) == 2 and all(is_strlike(x) for x in v):
        return ("pair", static_class(eng, v[0]).union(static_class(eng, v[1])))
    return None


def make_fm(it, conds_elt, info, outkind="list"):
    """conds_elt(elem) -> (list of condition formulas, element value).  Returns FM name."""
    import hashlib

    eng = it.eng
    r = pure(it, lambda: conds_elt(generic_elem(it, info)))
    if r is None:
        raise Unsupported("comprehension body needs case splits")
    conds, v = r[0]
    c = simp(zand(conds))
    text = canon(c if is_z3(c) else bool(c)) + "=>" + canon(v) + "|" + outkind
    name = "FM" + hashlib.sha1(text.encode()).hexdigest()[:12]
    lenp = c is True
    eo = value_info(it, v)
    vt = canon(v)
    if name not in eng.fms and not eng.guards:
        # the same function, written differently
        for n2 in eng.fms:
            m2 = MAPS[n2]
            if m2.outkind == outkind and getattr(m2, "value_text", None) is not None and m2.value_text == vt and eng.valid(zeq(m2.cond, c)):
                return n2

    def body(elem):
        cs, w = conds_elt(elem)
        if not it.branch(zand(cs)):
            return []
        return [(w,)] if outkind == "list" else parts_of(w)

    MAPS[name] = FM(name, body, outkind, lenp and outkind == "list", eo, out=eo[1] if outkind == "str" and eo else None)
    MAPS[name].cond, MAPS[name].value_text = c, vt
    MAPS[name].ce, MAPS[name].info = conds_elt, info
    MAPS[name].filter = outkind == "list" and vt == canon(generic_elem(it, info))
    if name not in eng.fms:
        eng.fms.append(name)
    return name


def list_pred(it, cond, info):
    """Predicate on list elements of kind info (None if it needs case splits)."""
    import hashlib

    eng = it.eng
    if info is None:
        return None
    r = pure(it, lambda: cond(generic_elem(it, info)))
    if r is None:
        return None
    f = simp(r[0])
    text = canon(f if is_z3(f) else bool(f)) + str(info[0])
    name = hashlib.sha1(text.encode()).hexdigest()[:12]
    if name in eng.lpreds:
        return eng.lpreds[name]
    for lp in eng.lpreds.values() if not eng.guards else ():
        if lp.info[0] == info[0] and eng.valid(zeq(lp.formula, f)):
            return lp

    def c(v):
        x = pure(it, lambda: cond(v))
        if x is None:
            raise Unsupported("predicate needs case splits")
        return x[0]

    lp = eng.lpreds[name] = LPred(name, c, info, f)
    return lp


def find_first(it, r, cond):
    """Index of the first element of list rope r with cond(element), or None."""
    eng = it.eng
    off = 0
    for p in parts_of(r):
        if isinstance(p, tuple):
            for x in p:
                if it.branch(cond(x)):
                    return off, x
                off = iadd(off, 1)
            continue
        if not isinstance(p, Sl):
            raise Unsupported("search in a list")
        lp = list_pred(it, cond, eng.part_info(p))
        if lp is None:
            raise Unsupported("search predicate")
        f = eng.first_index(p, lp)
        if it.branch(simp_lt(f, eng.part_len(p))):
            return iadd(off, f), eng.part_elem("list", p, f)
        off = iadd(off, eng.part_len(p))
    return None


def apply_fm(it, r, name):
    eng = it.eng
    out = []
    for p in parts_of(r):
        if isinstance(p, Sl):
            out.append(Sl(p.a, p.lo, p.hi, p.fs + (name,)))
        elif isinstance(p, tuple):
            for x in p:
                out += MAPS[name].body(x)
        else:
            raise Unsupported("filter of a list")
    return eng.mk("list", out)


def list_map(it, n, g, seg, fr):
    """[elt for target in seg if conds] for a symbolic list segment."""
    from .interp import Frame

    eng = it.eng
    if seg.rope is None or kind_of(seg.rope) != "list":
        return None
    ps = parts_of(seg.rope)
    if len(ps) != 1 or not isinstance(ps[0], Sl):
        return None
    p = ps[0]
    info = eng.part_info(p)
    if info is None:
        return None
    cap = dict(fr.env)

    def conds_elt(elem):
        sub = Frame(fr.fn, eng.new_serial(), fr)
        it.frames[sub.serial] = sub
        if fr.fn is None:
            sub.module = fr.module
        sub.env.update(cap)
        it.assign(g.target, seg.wrap(elem), sub)
        conds = []
        for c in g.ifs:
            conds.append(it.test(c, sub))
        return conds, it.ev(n.elt, sub)

    try:
        name = make_fm(it, conds_elt, info)
    except Unsupported as e:
        if "case splits" not in str(e) or it.nofork:
            raise
        mod = fr.module if fr.fn is None else fr.fn.module
        if mod.name.startswith("urlstd"):
            return comp_loop(it, n, g, seg, fr)
        name = forking_fm(it, n, g, fr, info, cap, seg.wrap)
    return [Sl(p.a, p.lo, p.hi, p.fs + (name,))]


# what the specification's element functions return
SPEC_ELEM = {"form_pair": ("pair", SCALAR)}


def forking_fm(it, n, g, fr, info, cap, wrap):
    """The list map of a specification comprehension whose body needs case
    splits: a function of the element given by its text."""
    import ast, hashlib
    from .interp import Frame

    eng = it.eng
    tgt = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
    free = sorted({x.id for y in [n.elt, *g.ifs] for x in ast.walk(y) if isinstance(x, ast.Name)} - tgt)
    text = ast.dump(n.elt) + "".join(ast.dump(c) for c in g.ifs) + "".join(f"|{v}={canon(cap[v])}" for v in free if v in cap)
    name = "FK" + hashlib.sha1(text.encode()).hexdigest()[:12]
    eo = None
    if isinstance(n.elt, ast.Call) and isinstance(n.elt.func, ast.Name):
        eo = SPEC_ELEM.get(n.elt.func.id)

    def body(elem):
        sub = Frame(fr.fn, eng.new_serial(), fr)
        it.frames[sub.serial] = sub
        if fr.fn is None:
            sub.module = fr.module
        sub.env.update(cap)
        it.assign(g.target, wrap(elem), sub)
        for c in g.ifs:
            if not it.branch(it.test(c, sub)):
                return []
        return [(it.ev(n.elt, sub),)]

    MAPS[name] = FM(name, body, "list", not g.ifs, eo)
    MAPS[name].cond = MAPS[name].value_text = None
    MAPS[name].ce, MAPS[name].info = None, info
    if name not in eng.fms:
        eng.fms.append(name)
    return name


def comp_loop(it, n, g, seg, fr):
    """A comprehension of the code as the loop it abbreviates."""
    import ast
    from .interp import Frame

    if getattr(n, "as_loop", None) is None:
        add = ast.parse("$acc.append(0)".replace("$", "acc__")).body[0]
        add.value.args = [n.elt]
        body = add
        for c in reversed(g.ifs):
            body = ast.If(test=c, body=[body], orelse=[])
        loop = ast.For(target=g.target, iter=ast.Name(id="src__", ctx=ast.Load()), body=[body], orelse=[])
        n.as_loop = ast.fix_missing_locations(ast.copy_location(loop, n))
    sub = Frame(fr.fn, it.eng.new_serial(), fr)
    it.frames[sub.serial] = sub
    if fr.fn is None:
        sub.module = fr.module
    acc = it.new_list(())
    sub.env["acc__acc"] = acc
    it.for_segment(n.as_loop, sub, seg)
    return parts_of(acc.r)


def flat_map_of(it, ctx, v0, v1, k):
    """List-to-string maps known on this path (from the specification)."""
    return [f for f in it.eng.fms if MAPS[f].outkind == "str"]


def list_map_of(it, ctx, v0, v1, k):
    return [f for f in it.eng.fms if MAPS[f].outkind == "list"]


def to_str_fm(it, name):
    """The FM whose string is the concatenation of the elements of FM name."""
    m = MAPS[name]
    n2 = name + "_s"
    if n2 not in MAPS or MAPS[n2].base is not m:

        def body(elem):
            out = []
            for p in m.body(elem):
                for x in p:
                    out += parts_of(x)
            return out

        f = FM(n2, body, "str", False, None, m.elem_out[1] if m.elem_out else None)
        f.base = m
        MAPS[n2] = f
    if n2 not in it.eng.fms:
        it.eng.fms.append(n2)
    return n2


def same_rope(eng, a, b):
    pa, pb = parts_of(a), parts_of(b)
    return len(pa) == len(pb) and all(eng.same_part(x, y) if not isinstance(x, CONST) else x is y for x, y in zip(pa, pb))


DOTS = (".", "%2e", "%2E", "..", ".%2e", ".%2E", "%2e.", "%2E.", "%2e%2e", "%2e%2E", "%2E%2e", "%2E%2E")


def list_fits(it, v, info):
    """Every element of list rope v is of the element kind info."""
    from .interp import is_strlike

    eng = it.eng
    if kind_of(v) != "list":
        return False
    for p in parts_of(v):
        if isinstance(p, tuple):
            for x in p:
                if info[0] == "str":
                    if not is_strlike(x) or (info[1] is not None and not eng.valid(eng.allin(x, info[1]))):
                        return False
                    if len(info) > 2 and not eng.valid(zand([znot(it.eq_nofork_safe(x, d)) for d in DOTS])):
                        return False
                elif info[0] == "pair":
                    if not (isinstance(x, tuple) and len(x) == 2 and all(is_strlike(y) for y in x)):
                        return False
                    if info[1] is not None and not all(eng.valid(eng.allin(y, info[1])) for y in x):
                        return False
                elif info[0] == "opaque":
                    pass
                else:
                    return False
        elif isinstance(p, Sl):
            i2 = eng.part_info(p)
            if i2 is None or i2[0] != info[0]:
                return info[0] == "opaque"
            if info[0] != "opaque" and info[1] is not None and (i2[1] is None or not i2[1].subset(info[1])):
                return False
            if len(info) > 2 and len(i2) < 3:
                return False
        elif isinstance(p, Ch):
            return False
    return True
