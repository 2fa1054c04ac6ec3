"""Symbolic values, sequences ("ropes") and the path engine of pydv.

Strings, byte strings and lists are ropes: concatenations of constants, single
symbolic elements and slices of sequence atoms.  Atoms are terms of one
uninterpreted sort; their length, elements and sub-slices are uninterpreted
functions, so every solver query is quantifier-free EUF + linear arithmetic.
"""
import time

import ast
import os

import z3

SQ = z3.DeclareSort("Sq")
INT = z3.IntSort()
BOOL = z3.BoolSort()
LEN = z3.Function("len", SQ, INT)
AT = z3.Function("at", SQ, INT, INT)
EL = z3.Function("el", SQ, INT, SQ)
SL = z3.Function("sl", SQ, INT, INT, SQ)
CAT = z3.Function("cat", SQ, SQ, SQ)
P0 = z3.Function("fst", SQ, SQ)
P1 = z3.Function("snd", SQ, SQ)
CHR = z3.Function("chr", INT, SQ)
CONS = z3.Function("unit", SQ, SQ)

MAXCP = 0x10FFFF


PROF = {} if os.environ.get("PROF") else None


class Unsupported(Exception):
    """The code is outside pydv's Python subset."""


class PathEnd(Exception):
    """The path is finished (proved elsewhere or cut by an induction hypothesis)."""


class Infeasible(Exception):
    pass


class Restart(Exception):
    """A loop invariant was weakened: explore again from the loop's prefix."""

    def __init__(self, pos):
        self.pos = pos


class NeedFork(Exception):
    """A decision would be needed while forking is not allowed."""


class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, exc):
        self.exc = exc


# ------------------------------------------------------------------ char sets
class CharSet:
    """Set of code points as sorted disjoint inclusive intervals."""

    __slots__ = ("iv", "key")
    _names = {}

    def __init__(self, iv):
        out = []
        for lo, hi in sorted(iv):
            if lo > hi:
                continue
            if out and lo <= out[-1][1] + 1:
                out[-1] = (out[-1][0], max(hi, out[-1][1]))
            else:
                out.append((lo, hi))
        self.iv = tuple(out)
        self.key = CharSet._names.setdefault(self.iv, len(CharSet._names))

    @staticmethod
    def of(chars):
        return CharSet([(ord(c), ord(c)) for c in chars])

    def has(self, o):
        return any(lo <= o <= hi for lo, hi in self.iv)

    def complement(self):
        out, p = [], 0
        for lo, hi in self.iv:
            if p < lo:
                out.append((p, lo - 1))
            p = hi + 1
        if p <= MAXCP:
            out.append((p, MAXCP))
        return CharSet(out)

    def union(self, o):
        return CharSet(self.iv + o.iv)

    def inter(self, o):
        return self.complement().union(o.complement()).complement()

    def subset(self, o):
        return self.inter(o).iv == self.iv

    def disjoint(self, o):
        return not self.inter(o).iv

    def empty(self):
        return not self.iv

    def name(self):
        import hashlib

        return hashlib.sha1(repr(self.iv).encode()).hexdigest()[:8]

    def formula(self, c):
        if isinstance(c, int):
            return self.has(c)
        if not self.iv:
            return False
        if self.iv == ((0, MAXCP),):
            return True
        comp = self.complement()
        if len(comp.iv) < len(self.iv):
            return z3.Not(comp.formula(c))
        return z3.Or([c == lo if lo == hi else z3.And(c >= lo, c <= hi) for lo, hi in self.iv])

    def __repr__(self):
        return "CharSet(%r)" % (self.iv,)


ANY = CharSet([(0, MAXCP)])
SURR = CharSet([(0xD800, 0xDFFF)])
SCALAR = SURR.complement()
ASCII = CharSet([(0, 0x7F)])
BYTE = CharSet([(0, 0xFF)])
DIGIT = CharSet.of("0123456789")
HEXD = CharSet.of("0123456789abcdefABCDEF")
UPPER = CharSet([(65, 90)])


# ------------------------------------------------------------------ int utils
def is_z3(x):
    return isinstance(x, z3.ExprRef)


def simp(e):
    if not is_z3(e):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return simp(a + b)


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return simp(a - b)


def same_int(a, b):
    """Syntactically equal integers."""
    d = isub(a, b)
    return isinstance(d, int) and d == 0


def zand(xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def zor(xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def znot(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def zeq(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    if isinstance(a, bool):
        return b if a else znot(b)
    if isinstance(b, bool):
        return a if b else znot(a)
    return simp(a == b)


# ------------------------------------------------------------------ ropes
class Sl:
    """Slice [lo, hi) of atom a, with element-wise maps fs applied to it."""

    __slots__ = ("a", "lo", "hi", "fs")

    def __init__(self, a, lo, hi, fs=()):
        self.a, self.lo, self.hi, self.fs = a, lo, hi, fs

    def __repr__(self):
        s = f"{self.a}[{self.lo}:{self.hi}]"
        for f in self.fs:
            s = f"{f}({s})"
        return s


class Ch:
    """One symbolic element: a code point term (strings, bytes) or a value (lists)."""

    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return f"Ch({self.c})"


class Rope:
    """kind: 'str', 'bytes' or 'list'; parts: constants, Ch, Sl."""

    __slots__ = ("kind", "parts")

    def __init__(self, kind, parts):
        self.kind = kind
        self.parts = parts

    def __repr__(self):
        return f"<{self.kind} {self.parts}>"


def kind_of(v):
    if isinstance(v, str):
        return "str"
    if isinstance(v, bytes):
        return "bytes"
    if isinstance(v, Rope):
        return v.kind
    if isinstance(v, (tuple, list)):
        return "list"
    return None


def parts_of(v):
    if isinstance(v, Rope):
        return list(v.parts)
    if isinstance(v, (str, bytes)):
        return [v] if len(v) else []
    if isinstance(v, (tuple, list)):
        return [tuple(v)] if len(v) else []
    raise Unsupported(f"not a sequence: {v!r}")


def const_empty(kind):
    return {"str": "", "bytes": b"", "list": ()}[kind]


def _cmerge(x, y):
    return x + y


CONST = (str, bytes, tuple)


class MapInfo:
    """An element-wise map of strings.  lenp: keeps lengths (char -> char);
    charf: python function on a z3 code point (lenp maps only); const: python
    function on constants; out: CharSet of possible output elements."""

    def __init__(self, name, lenp, const, out, charf=None, keep=None, pre=None):
        self.name, self.lenp, self.const, self.out, self.charf = name, lenp, const, out, charf
        self.keep = keep  # CharSet left unchanged
        self.pre = pre  # the code points whose image is within a CharSet (None: not expressible)
        self.fn = z3.Function("map_" + name, SQ, SQ)


class FM:
    """A function on lists given element by element: list -> list (out 'list')
    or list -> str (out 'str').  body(elem) returns the parts the element
    contributes (it may branch).  lenp: exactly one element per element."""

    def __init__(self, name, body, outkind, lenp, elem_out=None, out=None):
        self.name, self.body, self.outkind, self.lenp = name, body, outkind, lenp
        self.elem_out = elem_out
        self.out = out
        self.const = None
        self.charf = None
        self.pre = None
        self.keep = None
        self.fm = True
        self.filter = False
        self.fn = z3.Function("fm_" + name, SQ, SQ)


class LPred:
    """A predicate on list elements: cond(element) is a formula (no case splits)."""

    def __init__(self, name, cond, info, formula):
        self.name, self.cond, self.info, self.formula = name, cond, info, formula
        self.fn = z3.Function("first_" + name, SQ, INT)


MAPS = {}


def is_fm(f):
    return isinstance(MAPS.get(f), FM)


def register_map(m):
    if m.name not in MAPS:
        MAPS[m.name] = m
    return MAPS[m.name]


class Obj:
    _n = 0

    def __init__(self, cls, serial):
        self.cls = cls
        self.f = {}
        self.serial = serial

    def __repr__(self):
        return f"<{getattr(self.cls, 'name', self.cls)}#{self.serial} {self.f}>"


class ListV:
    """A mutable list object (identity); r: tuple/list rope."""

    def __init__(self, r, serial):
        self.r = r
        self.serial = serial
        self.spec = False

    def __repr__(self):
        return f"ListV#{self.serial}({self.r})"


class DictV:
    def __init__(self, d, serial):
        self.d = d
        self.serial = serial

    def __repr__(self):
        return f"DictV#{self.serial}({self.d})"


class LazyV:
    """A value that is alts[i] when the integer term tag equals i."""

    def __init__(self, tag, alts):
        self.tag = tag
        self.alts = alts
        self.chosen = None

    def __repr__(self):
        return f"Lazy({self.tag}, {self.chosen if self.chosen is not None else '?'})"


class Opaque:
    """A value about which nothing is known (only formatted or passed on)."""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"Opaque({self.what})"


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.restarts = 0


class Trail:
    """Decisions of the current path, shared between re-executions."""

    def __init__(self):
        self.entries = []  # [choice, [alternatives], len(qlog) at creation]
        self.qlog = []
        self.loops = {}  # trail position key -> LoopInfo
        self.obls = []  # (position, name, status, detail)

    def backtrack(self):
        while self.entries:
            e = self.entries[-1]
            if e[1]:
                e[0] = e[1].pop(0)
                del self.qlog[e[2]:]
                return True
            self.entries.pop()
        return False

    def truncate(self, pos):
        """Forget everything at or after decision number pos."""
        q = self.entries[pos][2] if pos < len(self.entries) else None
        if q is not None:
            del self.qlog[q:]
        del self.entries[pos:]


USV_NEW = CharSet([(0xFFFD, 0xFFFD), (0x10000, MAXCP)])


class Eng:
    """One execution of one path."""

    def __init__(self, trail, stats, timeout_ms=4000, deadline=None):
        self.trail = trail
        self.stats = stats
        self.pos = 0
        self.qpos = 0
        self.nolog = False
        self.pc = []
        self.pending = []
        self.solver = None
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.counter = {}
        self.serial = 0
        self.keep = []
        self.atom_cls = {}
        self.accesses = {}
        self.classes = {}
        self.known_terms = set()
        self.atom_kind = {}
        self.elem_info = {}
        self.seq_facts = {}
        self.writes = []  # stack of sets
        self.labels = []
        self.defs = {}
        self.nofork = 0
        self.vals = {}
        self.fms = []
        self.firsts = []  # (list atom, lo, predicate, first index): see first_index
        self.lpreds = {}
        self.joins = {}
        self.el_seen = {}
        self.guards = []
        self.usv_src = {}

    # ---------------------------------------------------------- names, facts
    def fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return f"{name}!{n}"

    def int(self, name):
        return z3.Int(self.fresh(name))

    def bool(self, name):
        return z3.Bool(self.fresh(name))

    def new_serial(self):
        self.serial += 1
        return self.serial

    def big(self):
        """10**4300, CPython's int/str conversion limit (only its size matters)."""
        b = z3.Int("BIG4300")
        if "BIG" not in self.known_terms:
            self.known_terms.add("BIG")
            self.fact(b > 10**300)
        return b

    def atom(self, name, cls=None, elem=None):
        """A fresh sequence atom; elem: kind of the elements of a list atom."""
        a = z3.Const(self.fresh(name), SQ)
        self.note_atom(a, cls, elem)
        return a

    def note_atom(self, a, cls=None, elem=None):
        self.keep.append(a)
        i = a.get_id()
        if i not in self.known_terms:
            self.known_terms.add(i)
            self.fact(LEN(a) >= 0)
        if cls is not None and cls is not ANY:
            cur = self.atom_cls.get(i)
            self.atom_cls[i] = cls if cur is None else cur.inter(cls)
        if elem is not None:
            self.elem_info[i] = elem

    def full(self, a, kind="str", fs=()):
        self.note_atom(a)
        return Rope(kind, [Sl(a, 0, LEN(a), fs)])

    def sym_str(self, name, cls=None):
        return self.full(self.atom(name, cls))

    def fact(self, f):
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        self.pending.append(f)

    def assume(self, f):
        self.fact(f)

    # ---------------------------------------------------------- solver
    def _check(self, extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise TimeoutError("task time limit")
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", self.timeout_ms)
        if self.pending:
            self.solver.add(self.pending)
            self.pending = []
        t = time.time()
        r = self.solver.check(extra)
        dt = time.time() - t
        self.stats.queries += 1
        self.stats.solver_s += dt
        if r == z3.unknown:
            r = self._second_opinion(extra)
        return r

    def _second_opinion(self, extra):
        s = z3.SolverFor("QF_UFLIA")
        s.set("timeout", self.timeout_ms * 3)
        s.add(self.solver.assertions())
        s.add(extra)
        t = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r

    def logged(self, compute):
        """Deterministic result, remembered across re-executions of a prefix."""
        if self.nolog:
            return compute()
        if self.qpos < len(self.trail.qlog):
            r = self.trail.qlog[self.qpos]
            self.qpos += 1
            return r
        r = compute()
        self.trail.qlog.append(r)
        self.qpos += 1
        return r

    def valid(self, cond):
        """Is cond implied by the path condition?"""
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        return self.logged(lambda: self._check(self._guarded(z3.Not(cond))) == z3.unsat)

    def _guarded(self, c):
        return z3.And(*self.guards, c) if self.guards else c

    def noguard(self, *conds):
        """Facts asserted next hold on this path, not only under the conditions
        of a short-circuit evaluation in progress."""
        if self.guards:
            g, self.guards = self.guards, []
            try:
                ok = bool(conds) and all(self.valid(c) for c in conds)
            finally:
                self.guards = g
            if not ok:
                raise NeedFork()

    def possible(self, cond):
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        return self.logged(lambda: self._check(self._guarded(cond)) != z3.unsat)

    def branch(self, cond):
        if isinstance(cond, (bool, int)) and not is_z3(cond):
            return bool(cond)
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        if self.nofork:
            if self.valid(cond):
                return True
            if self.valid(z3.Not(cond)):
                return False
            raise NeedFork()
        if self.pos < len(self.trail.entries):
            e = self.trail.entries[self.pos]
            v = e[0]
            self.qpos = max(self.qpos, e[2])
        else:
            q = self.qpos
            del self.trail.qlog[q:]
            t = self._check(cond) != z3.unsat
            f = (self._check(z3.Not(cond)) != z3.unsat) if t else True
            if not t and self._check(z3.BoolVal(True)) == z3.unsat:
                raise Infeasible()
            v = t
            self.trail.entries.append([v, [False] if (t and f) else [], q])
            if PROF is not None and t and f:
                ln = getattr(self, "line", None)
                key = f"{ast.unparse(ln)[:110]}" if ln is not None else "?"
                PROF[key] = PROF.get(key, 0) + 1
        self.pos += 1
        self.fact(cond if v else z3.Not(cond))
        return v

    def choose(self, n):
        """Non-deterministic choice (no condition)."""
        if self.nofork:
            raise NeedFork()
        if self.pos < len(self.trail.entries):
            e = self.trail.entries[self.pos]
            v = e[0]
            self.qpos = max(self.qpos, e[2])
        else:
            v = 0
            del self.trail.qlog[self.qpos:]
            self.trail.entries.append([0, list(range(1, n)), self.qpos])
        self.pos += 1
        return v

    def check_feasible(self):
        """Vacuity guard: the path condition is satisfiable."""
        return self.logged(lambda: self._check(z3.BoolVal(True)) != z3.unsat)

    def prove(self, goal, name, info=None):
        """An obligation.  Recorded once per distinct path prefix."""
        goal = simp(goal)
        first = self.qpos >= len(self.trail.qlog)

        def compute():
            if goal is True:
                return ("ok", None)
            g = z3.BoolVal(False) if goal is False else goal
            r = self._check(z3.Not(g))
            if r == z3.unsat:
                return ("ok", None)
            m = None
            if r == z3.sat:
                try:
                    m = self.solver.model()
                except z3.Z3Exception:
                    m = None
            return ("failed" if r == z3.sat else "unknown", self.describe(m, goal, info))

        st = self.logged(compute)
        if first:
            self.trail.obls.append((self.pos, name, st[0], st[1]))
        if goal is not True and goal is not False:
            self.fact(goal)
        return st[0] == "ok"

    def describe(self, model, goal, info):
        d = {"goal": str(goal)[:600]}
        if info:
            d["info"] = str(info)[:1200]
        if model is not None:
            txt = {}
            for name, v in self.defs.items():
                try:
                    txt[name] = self.concretize(model, v)
                except Exception as e:
                    txt[name] = f"? ({type(e).__name__})"
            d["model"] = txt
        d["path"] = self.labels[-40:]
        return d

    def concretize(self, model, v, depth=0):
        if isinstance(v, (str, bytes, int, bool)) or v is None:
            return v
        if isinstance(v, z3.BoolRef):
            return z3.is_true(model.eval(v, True))
        if isinstance(v, z3.ArithRef):
            return model.eval(v, True).as_long()
        if isinstance(v, LazyV):
            t = model.eval(v.tag, True).as_long() if is_z3(v.tag) else v.tag
            return self.concretize(model, v.alts[t if 0 <= t < len(v.alts) else 0], depth)
        if isinstance(v, ListV):
            return self.concretize(model, v.r, depth)
        if isinstance(v, tuple):
            return [self.concretize(model, x, depth + 1) for x in v]
        if isinstance(v, Obj):
            if depth > 3:
                return "..."
            return {k: self.concretize(model, x, depth + 1) for k, x in v.f.items()}
        if isinstance(v, Rope):
            out = "" if v.kind != "list" else []
            for p in v.parts:
                if isinstance(p, str):
                    out += p
                elif isinstance(p, bytes):
                    out += p.decode("latin-1")
                elif isinstance(p, tuple):
                    out = out + [self.concretize(model, x, depth + 1) for x in p]
                elif isinstance(p, Ch):
                    if v.kind == "list":
                        out.append(self.concretize(model, p.c, depth + 1))
                    else:
                        out += chr(model.eval(p.c, True).as_long())
                else:
                    lo = model.eval(z3.IntVal(p.lo) if isinstance(p.lo, int) else p.lo, True).as_long()
                    hi = model.eval(z3.IntVal(p.hi) if isinstance(p.hi, int) else p.hi, True).as_long()
                    hi = min(hi, lo + 60)
                    for i in range(lo, hi):
                        if v.kind == "list":
                            out.append(self.concretize(model, Rope("str", [Sl(EL(p.a, i), 0, LEN(EL(p.a, i)))]), depth + 1))
                        else:
                            o = model.eval(AT(p.a, i), True).as_long()
                            ch = chr(o) if 0 <= o <= MAXCP else "\ufffd"
                            if p.fs:
                                ch = f"<{p.fs[-1]}:{ch}>"
                            out += ch
            return out
        return repr(v)[:80]

    # ---------------------------------------------------------- char classes
    def member(self, c, cs):
        return simp(cs.formula(c))

    def note_access(self, a, idx):
        """Register an element access of a string atom; returns AT(a, idx)."""
        i = a.get_id()
        t = AT(a, idx if is_z3(idx) else z3.IntVal(idx))
        acc = self.accesses.setdefault(i, {})
        k = t.get_id()
        if k in acc:
            return t
        acc[k] = idx
        self.keep.append(t)
        self.keep.append(a)
        cls = self.atom_cls.get(i, ANY)
        self.fact(z3.And(t >= 0, t <= MAXCP))
        if cls is not ANY:
            inr = z3.And(idx >= 0, idx < LEN(a)) if is_z3(idx) else idx < LEN(a)
            self.fact(z3.Implies(inr, cls.formula(t)))
        for (lo, hi, cs, b) in self.classes.get(i, ()):
            self.fact(self._inst(b, lo, hi, cs, idx, t))
        return t

    def _inst(self, b, lo, hi, cs, idx, t):
        m = cs.formula(t)
        pre = zand([b, simp(idx >= lo) if (is_z3(idx) or is_z3(lo)) else idx >= lo, simp(idx < hi) if (is_z3(idx) or is_z3(hi)) else idx < hi])
        if pre is False or m is True:
            return True
        if m is False:
            m = z3.BoolVal(False)
        if pre is True:
            return m
        return z3.Implies(pre, m)

    def slice_allin(self, a, lo, hi, cs):
        """Boolean term: every element of a[lo:hi] is in cs."""
        i = a.get_id()
        if cs.iv == ((0, MAXCP),):
            return True
        cls = self.atom_cls.get(i)
        if cls is not None and cls.subset(cs):
            return True
        n = isub(hi, lo)
        if isinstance(n, int):
            if n <= 0:
                return True
            if n <= 3:
                return zand([self.member(self.note_access(a, iadd(lo, k)), cs) for k in range(n)])
        regs = self.classes.setdefault(i, [])
        for (l2, h2, c2, b2) in regs:
            if c2.key == cs.key and same_int(l2, lo) and same_int(h2, hi):
                return b2
        self.keep.append(a)
        b = self.bool("all_" + cs.name())
        w = self.int("w")
        self.fact(z3.Implies(hi <= lo, b))
        # witness for the negation
        t = AT(a, w)
        m = cs.formula(t)
        self.fact(z3.Or(b, z3.And(w >= lo, w < hi, z3.Not(m) if m is not False else z3.BoolVal(True))))
        for (l2, h2, c2, b2) in regs:
            if c2.subset(cs):
                self.fact(z3.Implies(zand([b2, simp_le(l2, lo), simp_le(hi, h2)]), b))
            if cs.subset(c2):
                self.fact(z3.Implies(zand([b, simp_le(lo, l2), simp_le(h2, hi)]), b2))
            if cs.disjoint(c2):
                pass
        for k, idx in list(self.accesses.get(i, {}).items()):
            self.fact(self._inst(b, lo, hi, cs, idx, AT(a, idx if is_z3(idx) else z3.IntVal(idx))))
        regs.append((lo, hi, cs, b))
        self.note_access(a, w)
        src = self.usv_src.get(i)
        if src is not None and USV_NEW.subset(cs):
            # surrogates become U+FFFD or, in pairs, supplementary code points
            self.fact(zor([znot(self.allin(src, cs.union(CharSet([(0xD800, 0xDFFF)])))), b]))
        return b

    def allin(self, v, cs):
        out = []
        for p in parts_of(v):
            if isinstance(p, str):
                out.append(all(cs.has(ord(c)) for c in p))
            elif isinstance(p, bytes):
                out.append(all(cs.has(c) for c in p))
            elif isinstance(p, Ch):
                out.append(self.member(p.c, cs))
            elif isinstance(p, Sl):
                out.append(self.part_allin(p, cs))
            else:
                raise Unsupported("allin on list")
        return zand(out)

    def part_allin(self, p, cs):
        fs = p.fs
        while fs:
            m = MAPS[fs[-1]]
            if m.out is not None and m.out.subset(cs):
                return True
            if m.pre is not None:
                c2 = m.pre(cs)
                if c2 is not None:
                    cs = c2
                    fs = fs[:-1]
                    continue
            break
        if not fs:
            return self.slice_allin(p.a, p.lo, p.hi, cs)
        t = self.part_term(Sl(p.a, p.lo, p.hi, fs))
        return self.slice_allin(t, 0, LEN(t), cs)

    # ---------------------------------------------------------- rope basics
    def mk(self, kind, parts):
        """Normalise: merge constants and adjacent slices, drop empty parts."""
        out = []
        for p in parts:
            if isinstance(p, CONST):
                if len(p) == 0:
                    continue
                if out and isinstance(out[-1], CONST):
                    out[-1] = out[-1] + p
                    continue
            elif isinstance(p, Sl):
                if same_int(p.lo, p.hi):
                    continue
                if p.fs and is_fm(p.fs[0]):
                    n = isub(p.hi, p.lo)
                    if isinstance(n, int) and n <= 4:
                        try:
                            ps = []
                            for j in range(n):
                                ps += self.fm_expand(p, iadd(p.lo, j))
                        except NeedFork:
                            ps = None
                        if ps is not None:
                            sub = self.mk(kind, out + ps)
                            out = parts_of(sub)
                            continue
                if out and isinstance(out[-1], Sl):
                    q = out[-1]
                    if q.fs == p.fs and q.a.eq(p.a) and same_int(q.hi, p.lo):
                        out[-1] = Sl(q.a, q.lo, p.hi, p.fs)
                        continue
            elif isinstance(p, Ch) and kind != "list":
                # a single known element of an atom
                if isinstance(p.c, int):
                    p = chr(p.c) if kind == "str" else bytes([p.c])
                    if out and isinstance(out[-1], CONST):
                        out[-1] = out[-1] + p
                        continue
                elif z3.is_app(p.c) and p.c.decl().eq(AT):
                    a, i = p.c.arg(0), p.c.arg(1)
                    i = simp(i)
                    q = Sl(a, i, iadd(i, 1))
                    if out and isinstance(out[-1], Sl) and out[-1].fs == () and out[-1].a.eq(a) and same_int(out[-1].hi, i):
                        out[-1] = Sl(a, out[-1].lo, q.hi)
                        continue
                    p = q
            out.append(p)
        if not out:
            return const_empty(kind)
        if len(out) == 1 and isinstance(out[0], CONST):
            return out[0]
        return Rope(kind, out)

    def fm_expand(self, p, idx):
        """The parts element idx of p's atom contributes to the mapped sequence."""
        m = MAPS[p.fs[0]]
        ps = m.body(self.elem_of(p.a, idx))
        if len(p.fs) == 1:
            return ps
        out = []
        for q in ps:
            if isinstance(q, str):
                for f in p.fs[1:]:
                    q = MAPS[f].const(q)
                out.append(q)
            elif isinstance(q, Sl):
                out.append(Sl(q.a, q.lo, q.hi, q.fs + p.fs[1:]))
            elif isinstance(q, tuple) and all(is_fm(f) for f in p.fs[1:]):
                ps2 = [q]
                for f in p.fs[1:]:
                    ps3 = []
                    for t in ps2:
                        if not isinstance(t, tuple):
                            raise Unsupported("map of a mapped element")
                        for x in t:
                            ps3 += MAPS[f].body(x)
                    ps2 = ps3
                out += ps2
            else:
                raise Unsupported("map of a mapped element")
        return out

    def part_info(self, p):
        """Element kind of a list part."""
        info = self.elem_info.get(p.a.get_id())
        for f in p.fs:
            info = MAPS[f].elem_out
        return info

    def cat(self, x, y):
        k = kind_of(x)
        if k != kind_of(y):
            raise Unsupported(f"concatenation of {k} and {kind_of(y)}")
        return self.mk(k, parts_of(x) + parts_of(y))

    def part_len(self, p):
        if isinstance(p, CONST):
            return len(p)
        if isinstance(p, Ch):
            return 1
        if all(MAPS[f].lenp for f in p.fs):
            return isub(p.hi, p.lo)
        t = self.part_term(p)
        return LEN(t)

    def length(self, v):
        if isinstance(v, CONST):
            return len(v)
        n = 0
        for p in parts_of(v):
            n = iadd(n, self.part_len(p))
        return n

    def const_term(self, c):
        t = z3.Const("K_" + repr(c), SQ)
        self.keep.append(t)
        i = t.get_id()
        if i not in self.known_terms:
            self.known_terms.add(i)
            self.fact(LEN(t) == len(c))
            for k, ch in enumerate(c[:64]):
                self.fact(AT(t, k) == (ord(ch) if isinstance(c, str) else ch))
        return t

    def part_term(self, p):
        if isinstance(p, (str, bytes)):
            return self.const_term(p)
        if isinstance(p, tuple):
            t = None
            for x in p:
                u = CONS(self.value_term(x))
                t = u if t is None else CAT(t, u)
            return t
        if isinstance(p, Ch):
            if is_z3(p.c):
                t = CHR(p.c)
                self.note_atom(t)
                self.fact(LEN(t) == 1)
                self.fact(AT(t, 0) == p.c)
                return t
            return CONS(self.value_term(p.c))
        if isinstance(p.lo, int) and p.lo == 0 and is_z3(p.hi) and p.hi.eq(LEN(p.a)):
            t = p.a
            self.note_atom(t)
        else:
            t = SL(p.a, p.lo if is_z3(p.lo) else z3.IntVal(p.lo), p.hi if is_z3(p.hi) else z3.IntVal(p.hi))
            i = t.get_id()
            if i not in self.known_terms:
                self.note_atom(t)
                ln = LEN(t) == p.hi - p.lo
                self.fact(z3.Implies(p.lo <= p.hi, ln) if self.guards else ln)
                self.keep.append(t)
                c = self.atom_cls.get(p.a.get_id())
                if c is not None:
                    self.atom_cls[i] = c
        for f in p.fs:
            m = MAPS[f]
            u = m.fn(t)
            i = u.get_id()
            if i not in self.known_terms:
                self.note_atom(u, m.out)
                if isinstance(m, FM) and m.elem_out is not None:
                    self.elem_info[i] = m.elem_out
                if m.lenp:
                    self.fact(LEN(u) == LEN(t))
                elif isinstance(m, FM):
                    self.fact(z3.Implies(LEN(t) == 0, LEN(u) == 0))
                    if m.outkind == "list":
                        self.fact(LEN(u) <= LEN(t))
                else:
                    self.fact(LEN(u) >= LEN(t))
                    self.fact((LEN(u) == 0) == (LEN(t) == 0))
            t = u
        return t

    def term(self, v):
        """A term denoting the whole sequence."""
        ps = parts_of(v)
        if not ps:
            return self.const_term(const_empty(kind_of(v)) if kind_of(v) != "list" else "")
        t = None
        for p in reversed(ps):
            u = self.part_term(p)
            t = u if t is None else CAT(u, t)
        if len(ps) > 1:
            i = t.get_id()
            if i not in self.known_terms:
                self.note_atom(t)
                self.fact(LEN(t) == self.length(v))
        return t

    def value_term(self, v):
        """A term of sort Sq for any value stored in a list."""
        if isinstance(v, (str, bytes, Rope)):
            return self.term(v)
        if isinstance(v, ListV):
            return self.term(v.r)
        if isinstance(v, tuple) and len(v) == 2:
            f = z3.Function("mkpair", SQ, SQ, SQ)
            t = f(self.value_term(v[0]), self.value_term(v[1]))
            self.fact(P0(t) == self.value_term(v[0]))
            self.fact(P1(t) == self.value_term(v[1]))
            return t
        if isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool):
            f = z3.Function("ofint", INT, SQ)
            return f(v if is_z3(v) else z3.IntVal(v))
        if v is None:
            return z3.Const("K_None", SQ)
        raise Unsupported(f"no term for {v!r}")

    def elem_of(self, a, idx):
        """Element idx of list atom a as a value."""
        info = self.elem_info.get(a.get_id())
        if info is None:
            raise Unsupported("list atom with unknown element kind")
        i = idx if is_z3(idx) else z3.IntVal(idx)
        t = EL(a, i)
        self.keep.append(t)
        v = self.wrap_elem(t, info)
        seen = self.el_seen.setdefault(a.get_id(), {})
        if t.get_id() not in seen:
            seen[t.get_id()] = (i, v)
            for fa, lo, lp, f in self.firsts:
                if fa.eq(a):
                    self._first_inst(lo, lp, f, i, v)
        return v

    def _first_inst(self, lo, lp, f, i, v):
        # no element before the first one satisfies the predicate
        self.fact(zor([simp_lt(i, lo), znot(simp_lt(i, iadd(lo, f))), znot(lp.cond(v))]))

    def first_index(self, p, lp):
        """Index (within the part) of the first element of list part p that
        satisfies predicate lp; the length of p if there is none."""
        t = self.part_term(p)
        f = lp.fn(t)
        key = (t.get_id(), lp.name)
        if key in self.known_terms:
            return f
        self.known_terms.add(key)
        self.keep.append(t)
        n = self.part_len(p)
        self.fact(z3.And(f >= 0, f <= n))
        a, lo = (p.a, p.lo) if not p.fs else (t, 0)
        v = self.elem_of(a, simp(iadd(lo, f)))
        self.fact(zor([znot(simp_lt(f, n)), lp.cond(v)]))
        self.firsts.append((a, lo, lp, f))
        for i, v in list(self.el_seen.get(a.get_id(), {}).values()):
            self._first_inst(lo, lp, f, i, v)
        return f

    def wrap_elem(self, t, info):
        k = info[0]
        if k in ("str", "bytes"):
            self.note_atom(t, info[1])
            return self.full(t, k)
        if k == "pair":
            a, b = P0(t), P1(t)
            self.note_atom(a, info[1])
            self.note_atom(b, info[1])
            return (self.full(a), self.full(b))
        raise Unsupported("element kind " + k)

    def part_elem(self, kind, p, i):
        """Element i (offset inside the part, in range) of a part."""
        if isinstance(p, tuple):
            if not isinstance(i, int):
                if len(p) == 1:
                    return p[0]
                for j in range(len(p) - 1):
                    if self.branch(zeq(i, j)):
                        return p[j]
                return p[-1]
            return p[i]
        if isinstance(p, str):
            if isinstance(i, int):
                return p[i]
            for j in range(len(p) - 1):
                if self.branch(zeq(i, j)):
                    return p[j]
            return p[-1]
        if isinstance(p, bytes):
            if isinstance(i, int):
                return p[i]
            for j in range(len(p) - 1):
                if self.branch(zeq(i, j)):
                    return p[j]
            return p[-1]
        if isinstance(p, Ch):
            return p.c if kind != "str" else Rope("str", [p])
        if kind == "list":
            if p.fs:
                if not all(MAPS[f].lenp for f in p.fs):
                    t = self.part_term(p)
                    return self.elem_of(t, i)
                r = self.fm_expand(p, iadd(p.lo, i))
                if len(r) == 1 and isinstance(r[0], tuple) and len(r[0]) == 1:
                    return r[0][0]
                raise Unsupported("element of a mapped list")
            return self.elem_of(p.a, iadd(p.lo, i))
        if p.fs and all(MAPS[f].lenp for f in p.fs):
            self.note_access(p.a, iadd(p.lo, i))
            r = self.mk(kind, [Sl(p.a, iadd(p.lo, i), iadd(iadd(p.lo, i), 1), p.fs)])
            return r if kind == "str" else self.char_of(r)
        if p.fs:
            t = self.part_term(p)
            c = self.note_access(t, i)
            return Rope("str", [Sl(t, i, iadd(i, 1))]) if kind == "str" else c
        c = self.note_access(p.a, iadd(p.lo, i))
        if kind == "bytes":
            return c
        return Rope("str", [Sl(p.a, iadd(p.lo, i), iadd(iadd(p.lo, i), 1))])

    def char_of(self, v):
        """Code point term of a one-element string / byte rope."""
        ps = parts_of(v)
        assert len(ps) == 1
        p = ps[0]
        if isinstance(p, str):
            return ord(p)
        if isinstance(p, bytes):
            return p[0]
        if isinstance(p, Ch):
            return p.c
        if p.fs and all(MAPS[f].lenp and MAPS[f].charf for f in p.fs):
            c = self.note_access(p.a, p.lo)
            for f in p.fs:
                c = MAPS[f].charf(c)
            return c
        if p.fs:
            t = self.part_term(p)
            return self.note_access(t, 0)
        return self.note_access(p.a, p.lo)

    def locate(self, v, i):
        """Split position i (0 <= i <= len) of a rope: (part index, offset)."""
        ps = parts_of(v)
        off = i
        for k, p in enumerate(ps):
            n = self.part_len(p)
            if isinstance(off, int) and off == 0:
                return k, 0
            if k == len(ps) - 1:
                return k, off
            if self.branch(off < n if (is_z3(off) or is_z3(n)) else off < n):
                return k, off
            off = isub(off, n)
        return len(ps), 0

    def split_part(self, p, off):
        """Split a part at offset (0 <= off <= len): two lists of parts."""
        if isinstance(off, int) and off == 0:
            return [], [p]
        if same_int(off, self.part_len(p)):
            return [p], []
        if isinstance(p, CONST):
            if isinstance(off, int):
                return [p[:off]], [p[off:]]
            for j in range(len(p)):
                if self.branch(zeq(off, j)):
                    return [p[:j]], [p[j:]]
            return [p], []
        if isinstance(p, Ch):
            if self.branch(zeq(off, 0)):
                return [], [p]
            return [p], []
        if p.fs and not all(MAPS[f].lenp for f in p.fs):
            t = self.part_term(p)
            return [Sl(t, 0, off)], [Sl(t, off, LEN(t))]
        m = iadd(p.lo, off)
        return [Sl(p.a, p.lo, m, p.fs)], [Sl(p.a, m, p.hi, p.fs)]

    def take(self, v, i):
        """v[:i] and v[i:] for 0 <= i <= len(v)."""
        kind = kind_of(v)
        ps = parts_of(v)
        k, off = self.locate(v, i)
        if k >= len(ps):
            return v, const_empty(kind)
        a, b = self.split_part(ps[k], off)
        return self.mk(kind, ps[:k] + a), self.mk(kind, b + ps[k + 1:])

    def sub(self, v, lo, hi):
        """v[lo:hi] for 0 <= lo <= hi <= len(v)."""
        if isinstance(v, CONST) and isinstance(lo, int) and isinstance(hi, int):
            return v[lo:hi]
        kind = kind_of(v)
        ps = parts_of(v)
        if len(ps) == 1 and isinstance(ps[0], Sl) and (not ps[0].fs or all(MAPS[f].lenp for f in ps[0].fs)):
            p = ps[0]
            return self.mk(kind, [Sl(p.a, iadd(p.lo, lo), iadd(p.lo, hi), p.fs)])
        n = self.length(v)
        if same_int(hi, n):
            x = v
        else:
            x = self.take(v, hi)[0]
        if isinstance(lo, int) and lo == 0:
            return x
        return self.take(x, lo)[1]

    def norm_index(self, i, n, default):
        """Python slice bound normalisation (clamping), with branches only if needed."""
        if i is None:
            return default
        if isinstance(i, int) and isinstance(n, int):
            if i < 0:
                return max(0, n + i)
            return min(i, n)
        if isinstance(i, int) and i >= 0:
            neg = False
        elif isinstance(i, int):
            neg = True
        elif self.valid(i >= 0):
            neg = False
        else:
            neg = self.branch(i < 0)
        if neg:
            j = iadd(i, n)
            if not self.branch(j >= 0 if is_z3(j) else j >= 0):
                return 0
            return j
        if isinstance(i, int) and i == 0:
            return 0
        if same_int(i, n):
            return i
        if self.branch(simp_le(i, n)):
            return i
        return n

    def getslice(self, v, lo, hi):
        n = self.length(v)
        l = self.norm_index(lo, n, 0)
        h = self.norm_index(hi, n, n)
        if isinstance(l, int) and isinstance(h, int):
            if l >= h:
                return const_empty(kind_of(v))
        elif not (isinstance(l, int) and l == 0):
            if same_int(l, h):
                return const_empty(kind_of(v))
            if not self.branch(simp_le(l, h)):
                return const_empty(kind_of(v))
        return self.sub(v, l, h)

    def index(self, v, i):
        """v[i]; returns (ok, value): ok False if out of range."""
        n = self.length(v)
        if isinstance(v, CONST) and isinstance(i, int):
            if -len(v) <= i < len(v):
                return True, v[i]
            return False, None
        if isinstance(i, int) and i < 0:
            j = iadd(n, i)
            if not self.branch(j >= 0 if is_z3(j) else j >= 0):
                return False, None
            # from the end: avoid needless splits
            ps = parts_of(v)
            last = ps[-1]
            ln = self.part_len(last)
            if isinstance(ln, int) and ln >= -i:
                return True, self.part_elem(kind_of(v), last, ln + i)
            if len(ps) > 1 and isinstance(last, Sl):
                if self.branch(simp_le(-i, ln)):
                    return True, self.part_elem(kind_of(v), last, iadd(ln, i))
                return self.index(self.take(v, isub(n, ln))[0], iadd(ln, i)) if isinstance(ln, int) else self._idx_from(v, j)
            return True, self._at(v, j)
        if is_z3(i):
            if not self.valid(i >= 0):
                if self.branch(i < 0):
                    return self._neg(v, i, n)
        if not self.branch(simp_lt(i, n)):
            return False, None
        return True, self._at(v, i)

    def _neg(self, v, i, n):
        j = iadd(i, n)
        if not self.branch(simp_le(0, j)):
            return False, None
        return True, self._at(v, j)

    def _idx_from(self, v, j):
        return True, self._at(v, j)

    def _at(self, v, i):
        ps = parts_of(v)
        kind = kind_of(v)
        k, off = self.locate(v, i)
        return self.part_elem(kind, ps[k], off)

    # ---------------------------------------------------------- equality
    def elem_eq(self, x, y):
        return self.eq(x, y)

    def seq_eq(self, x, y):
        """Formula: two sequences are equal.  May branch."""
        kx = kind_of(x)
        if kx != kind_of(y):
            return False
        if isinstance(x, (str, bytes)) and isinstance(y, (str, bytes)):
            return x == y
        A, B = parts_of(x), parts_of(y)
        conj = []
        # strip equal prefixes / suffixes
        changed = True
        while changed and A and B:
            changed = False
            for end in (0, -1):
                if not A or not B:
                    break
                p, q = A[end], B[end]
                if isinstance(p, CONST) and isinstance(q, CONST):
                    n = min(len(p), len(q))
                    if end == 0:
                        for u, w in zip(p[:n], q[:n]):
                            e = (u == w) if kx != "list" else self.eq(u, w)
                            if e is False:
                                return False
                            if e is not True:
                                conj.append(e)
                        A[0:1] = [p[n:]] if len(p) > n else []
                        B[0:1] = [q[n:]] if len(q) > n else []
                    else:
                        for u, w in zip(p[len(p) - n:], q[len(q) - n:]):
                            e = (u == w) if kx != "list" else self.eq(u, w)
                            if e is False:
                                return False
                            if e is not True:
                                conj.append(e)
                        A[-1:] = [p[: len(p) - n]] if len(p) > n else []
                        B[-1:] = [q[: len(q) - n]] if len(q) > n else []
                    changed = True
                elif self.same_part(p, q):
                    A.pop(end)
                    B.pop(end)
                    changed = True
                elif isinstance(p, Ch) and isinstance(q, Ch) and kx == "list":
                    conj.append(self.eq(p.c, q.c))
                    A.pop(end)
                    B.pop(end)
                    changed = True
                elif isinstance(p, Sl) and isinstance(q, Sl) and p.fs != q.fs and p.a.eq(q.a) and self.kept(p.fs, q.fs) is not None and self.valid(zand([zeq(p.lo, q.lo), zeq(p.hi, q.hi)])):
                    # m(x) == x exactly when m keeps every element of x
                    fs, cs = self.kept(p.fs, q.fs)
                    conj.append(self.part_allin(Sl(p.a, p.lo, p.hi, fs), cs))
                    A.pop(end)
                    B.pop(end)
                    changed = True
                elif isinstance(p, Sl) and isinstance(q, Sl) and p.fs == q.fs and p.a.eq(q.a):
                    # overlapping slices of the same atom
                    if end == 0 and (same_int(p.lo, q.lo) or self.valid(p.lo == q.lo)):
                        if self.valid(simp_le(p.hi, q.hi)):
                            A.pop(0)
                            B[0] = Sl(q.a, p.hi, q.hi, q.fs)
                            changed = True
                        elif self.valid(simp_le(q.hi, p.hi)):
                            B.pop(0)
                            A[0] = Sl(p.a, q.hi, p.hi, p.fs)
                            changed = True
                    elif end == -1 and (same_int(p.hi, q.hi) or self.valid(p.hi == q.hi)):
                        if self.valid(simp_le(q.lo, p.lo)):
                            A.pop()
                            B[-1] = Sl(q.a, q.lo, p.lo, q.fs)
                            changed = True
                        elif self.valid(simp_le(p.lo, q.lo)):
                            B.pop()
                            A[-1] = Sl(p.a, p.lo, q.lo, p.fs)
                            changed = True
                    if changed:
                        A = parts_of(self.mk(kx, A))
                        B = parts_of(self.mk(kx, B))
                elif kx != "list" and self.fixed1(p) and self.fixed1(q):
                    conj.append(zeq(self.char1(p), self.char1(q)))
                    A.pop(end)
                    B.pop(end)
                    changed = True
                elif kx != "list" and self.fixed1(p) and isinstance(q, (str, bytes)):
                    o = (ord(q[end]) if kx == "str" else q[end])
                    conj.append(zeq(self.char1(p), o))
                    A.pop(end)
                    B[end:(1 if end == 0 else None)] = [q[1:] if end == 0 else q[:-1]] if len(q) > 1 else []
                    changed = True
                elif kx != "list" and self.fixed1(q) and isinstance(p, (str, bytes)):
                    o = (ord(p[end]) if kx == "str" else p[end])
                    conj.append(zeq(self.char1(q), o))
                    B.pop(end)
                    A[end:(1 if end == 0 else None)] = [p[1:] if end == 0 else p[:-1]] if len(p) > 1 else []
                    changed = True
            if not changed:
                # what is empty on this path does not count
                for X in (A, B):
                    for end in (0, -1):
                        if not changed and X and isinstance(X[end], Sl) and not (type(X[end].lo) is int and type(X[end].hi) is int) and self.valid(simp_le(X[end].hi, X[end].lo)):
                            X.pop(end)
                            changed = True
        if any(c is False for c in conj):
            return False
        if kx == "list" and (len(A) > 1 or len(B) > 1):
            A2, B2 = ([p for p in ps if not (isinstance(p, Sl) and is_z3(isub(p.hi, p.lo)) and self.valid(zeq(p.lo, p.hi)))] for ps in (A, B))
            if len(A2) < len(A) or len(B2) < len(B):
                return zand(conj + [self.seq_eq(self.mk(kx, A2), self.mk(kx, B2))])
        if not A and not B:
            return zand(conj)
        if not A or not B:
            rest = A or B
            return zand(conj + [zeq(self.part_len(p), 0) if not isinstance(self.part_len(p), int) else self.part_len(p) == 0 for p in rest])
        # against a constant
        for U, W in ((A, B), (B, A)):
            if len(W) == 1 and isinstance(W[0], (str, bytes)):
                f = self.eq_const(kx, U, W[0])
                if f is not None:
                    return zand(conj + [f])
        if kx == "list":
            for U, W in ((A, B), (B, A)):
                if len(W) == 1 and isinstance(W[0], tuple) and len(U) == 1 and isinstance(U[0], Sl):
                    n = len(W[0])
                    if not self.branch(zeq(self.part_len(U[0]), n)):
                        return False
                    return zand(conj + [self.eq(self.part_elem(kx, U[0], j), W[0][j]) for j in range(n)])
        tx = self.term(self.mk(kx, A))
        ty = self.term(self.mk(kx, B))
        if tx.eq(ty):
            return zand(conj)
        la, lb = self.length(self.mk(kx, A)), self.length(self.mk(kx, B))
        if tx.sexpr() > ty.sexpr():
            tx, ty = ty, tx
        e = tx == ty
        self.fact(z3.Implies(e, la == lb))
        if kx == "str":
            for ps in (A, B):
                if len(ps) == 1 and isinstance(ps[0], Sl) and ps[0].fs and all(MAPS[f].lenp and MAPS[f].charf for f in ps[0].fs):
                    # the first code points of a mapped slice (schemes)
                    tt = self.term(self.mk(kx, ps))
                    for j in range(5):
                        self.fact(z3.Implies(self.part_len(ps[0]) > j, AT(tt, z3.IntVal(j)) == self.char1(Sl(ps[0].a, iadd(ps[0].lo, j), iadd(ps[0].lo, j + 1), ps[0].fs))))
        if kx != "list":
            self.fact(z3.Implies(zand([zeq(la, 0), zeq(lb, 0)]), e))
        return zand(conj + [e])

    def kept(self, f, g):
        """(fs, cs) when one of f, g is fs and the other fs + (m,), m keeping cs."""
        if len(f) > len(g):
            f, g = g, f
        if len(g) == len(f) + 1 and g[: len(f)] == f and not is_fm(g[-1]):
            m = MAPS[g[-1]]
            if m.keep is not None and (m.lenp or m.name.startswith("PE_")):
                return f, m.keep
        return None

    def fixed1(self, p):
        if isinstance(p, Ch):
            return True
        if isinstance(p, Sl):
            if p.fs and not all(MAPS[f].lenp and MAPS[f].charf for f in p.fs):
                return False
            n = isub(p.hi, p.lo)
            return isinstance(n, int) and n == 1
        return False

    def char1(self, p):
        return self.char_of(Rope("str", [p]))

    def same_part(self, p, q):
        if isinstance(p, Sl) and isinstance(q, Sl):
            if p.fs != q.fs:
                return False
            if p.a.eq(q.a):
                if same_int(p.lo, q.lo) and same_int(p.hi, q.hi):
                    return True
                return False
            return False
        if isinstance(p, Ch) and isinstance(q, Ch):
            if is_z3(p.c) and is_z3(q.c):
                return p.c.eq(q.c)
            return p.c is q.c
        return False

    def eq_const(self, kind, U, c):
        """U (parts) equals the constant c, as a formula (None if undecidable here)."""
        n = len(c)
        var = [p for p in U if not (isinstance(p, (str, bytes, Ch)) or (isinstance(p, Sl) and isinstance(self.part_len(p), int)))]
        if len(var) > 1:
            # fork on the length of the first variable part
            p = var[0]
            ln = self.part_len(p)
            if not self.branch(simp_le(ln, n)):
                return False
            for j in range(n):
                if self.branch(zeq(ln, j)):
                    break
            else:
                j = n
            k = U.index(p)
            pre = self.mk(kind, U[:k])
            post = self.mk(kind, U[k + 1:])
            lp = self.length(pre)
            if lp + j > n:
                return False
            e1 = self.seq_eq(pre, c[:lp])
            e2 = self.seq_eq(self.mk(kind, [p]), c[lp:lp + j]) if j else True
            e3 = self.seq_eq(post, c[lp + j:])
            return zand([e1, e2, e3])
        fixed = sum(self.part_len(p) for p in U if p not in var)
        if not var:
            if fixed != n:
                return False
        elif fixed > n:
            return False
        out = []
        off = 0
        for p in U:
            if var and p is var[0]:
                m = n - fixed
                out.append(zeq(self.part_len(p), m))
                seg = c[off:off + m]
                if p.fs and not all(MAPS[f].lenp and MAPS[f].charf for f in p.fs):
                    mp = MAPS[p.fs[-1]]
                    if mp.out is not None and not all(mp.out.has(ord(x) if isinstance(x, str) else x) for x in seg):
                        return False
                    t = self.part_term(p)
                    for j in range(m):
                        out.append(self.note_access(t, j) == (ord(seg[j]) if kind == "str" else seg[j]))
                else:
                    cls = self.atom_cls.get(p.a.get_id())
                    for j in range(m):
                        o = ord(seg[j]) if kind == "str" else seg[j]
                        if cls is not None and not p.fs and not cls.has(o):
                            return False
                        ch = self.note_access(p.a, iadd(p.lo, j))
                        for f in p.fs:
                            ch = MAPS[f].charf(ch)
                        out.append(zeq(ch, o))
                off += m
            elif isinstance(p, (str, bytes)):
                if c[off:off + len(p)] != p:
                    return False
                off += len(p)
            else:
                m = self.part_len(p)
                for j in range(m):
                    ch = self.char_of(self.mk(kind, [p])) if m == 1 else self.char_of(self._wrap(kind, self.part_elem(kind, p, j)))
                    out.append(zeq(ch, ord(c[off + j]) if kind == "str" else c[off + j]))
                off += m
        return zand(out)

    def _wrap(self, kind, v):
        if kind == "bytes":
            return Rope("bytes", [Ch(v)]) if is_z3(v) else bytes([v])
        return v

    def force(self, v):
        """Decide a lazy union (branches)."""
        while isinstance(v, LazyV):
            if v.chosen is None:
                if not is_z3(v.tag):
                    v.chosen = v.tag
                elif self.guards:
                    # decided only where the guard holds: not recorded
                    i = 0
                    while i < len(v.alts) - 1 and not self.branch(v.tag == i):
                        i += 1
                    v = v.alts[i]
                    continue
                else:
                    for i in range(len(v.alts) - 1):
                        if self.branch(v.tag == i):
                            v.chosen = i
                            break
                    else:
                        v.chosen = len(v.alts) - 1
                        self.fact(v.tag == v.chosen)
            v = v.alts[v.chosen]
        return v

    def eq(self, x, y):
        """Python == as a formula (may branch)."""
        if x is y:
            return True
        if isinstance(x, LazyV) or isinstance(y, LazyV):
            if isinstance(x, LazyV) and isinstance(y, LazyV) and is_z3(x.tag) and is_z3(y.tag) and x.chosen is None and y.chosen is None and x.tag.eq(y.tag) and len(x.alts) == len(y.alts):
                if x.alts is y.alts:
                    return True
                es = []
                try:
                    self.nofork += 1
                    try:
                        for i, (p, q) in enumerate(zip(x.alts, y.alts)):
                            e = self.eq(p, q)
                            if e is not True:
                                es.append(z3.Implies(x.tag == i, e if is_z3(e) else z3.BoolVal(False)))
                    finally:
                        self.nofork -= 1
                    return zand(es)
                except NeedFork:
                    pass
            x, y = self.force(x), self.force(y)
        if x is y:
            return True
        if x is None or y is None:
            return x is None and y is None
        if isinstance(x, ListV) and isinstance(y, ListV):
            return self.seq_eq(x.r, y.r)
        if isinstance(x, ListV) or isinstance(y, ListV):
            return False
        bx, by = isinstance(x, (bool, z3.BoolRef)), isinstance(y, (bool, z3.BoolRef))
        ix, iy = isinstance(x, (int, z3.ArithRef)), isinstance(y, (int, z3.ArithRef))
        if bx and by:
            return zeq(x, y)
        if ix and iy and not isinstance(x, z3.BoolRef) and not isinstance(y, z3.BoolRef):
            return zeq(int(x) if isinstance(x, bool) else x, int(y) if isinstance(y, bool) else y)
        if (bx and iy) or (ix and by):
            a = z3.If(x, 1, 0) if isinstance(x, z3.BoolRef) else x
            b = z3.If(y, 1, 0) if isinstance(y, z3.BoolRef) else y
            return zeq(a, b)
        if kind_of(x) in ("str", "bytes") or kind_of(y) in ("str", "bytes"):
            if kind_of(x) != kind_of(y):
                return False
            return self.seq_eq(x, y)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return False
            return zand([self.eq(a, b) for a, b in zip(x, y)])
        if isinstance(x, Rope) and isinstance(y, (Rope, tuple)) or isinstance(y, Rope) and isinstance(x, tuple):
            return self.seq_eq(x, y)
        if type(x) is not type(y):
            if isinstance(x, (Obj, Opaque)) or isinstance(y, (Obj, Opaque)):
                if isinstance(x, Opaque) or isinstance(y, Opaque):
                    raise Unsupported("comparison of an opaque value")
                return False
            return False
        if isinstance(x, Opaque):
            raise Unsupported("comparison of an opaque value")
        try:
            return bool(x == y)
        except Exception:
            raise Unsupported(f"comparison {type(x)}")


def simp_le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return simp(a <= b)


def simp_lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return simp(a < b)
