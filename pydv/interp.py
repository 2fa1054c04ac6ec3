"""Symbolic interpreter for the Python subset used by urlstd and by spec/*.py."""
import ast

import z3

from .core import *
from .core import NeedFork, simp_le, simp_lt
from .source import ClassV, EnumM, FuncV, Module, NATIVE_EXC, RegexV



class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class Poison:
    def __repr__(self):
        return "POISON"


POISON = Poison()


class Frame:
    def __init__(self, fn, serial, parent=None):
        self.fn = fn
        self.env = {}
        self.serial = serial
        self.parent = parent
        self.depth = 0
        self.cls_arg = None


class BoundM:
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def __repr__(self):
        return f"<bound {self.fn}>"


class NativeF:
    def __init__(self, name, f):
        self.name = name
        self.f = f

    def __repr__(self):
        return f"<native {self.name}>"


class NativeMod:
    def __init__(self, name, ns):
        self.name = name
        self.ns = ns


class SuperV:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Seg:
    """A stretch of an iteration: n elements, get(k) for 0 <= k < n."""

    def __init__(self, n, get, rope=None, base=None, live=None):
        self.n = n
        self.live = live  # the list object being iterated (must not change meanwhile)
        self.get = get
        self.trope = None  # the rope of the segment below an enumerate()
        self.rope = rope  # sequence whose elements these are (for summaries)
        self.base = base
        self.wrap = lambda v: v  # element of rope -> iterated value


class IterV:
    def __init__(self, segs):
        self.segs = segs


class TypeV:
    """A native type used in isinstance / calls."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<type {self.name}>"


TYPES = {n: TypeV(n) for n in ("str", "int", "bytes", "list", "tuple", "dict", "bool", "float", "set", "frozenset", "object", "bytearray", "type")}


def as_int(v):
    """Numeric view of ints, bools and IntEnum members."""
    if isinstance(v, EnumM):
        return v.value
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, 1, 0)
    return v


def is_int(v):
    return isinstance(v, (int, z3.ArithRef, EnumM)) or isinstance(v, z3.BoolRef)


def is_strlike(v):
    return isinstance(v, str) or (isinstance(v, Rope) and v.kind == "str")


def is_byteslike(v):
    return isinstance(v, bytes) or (isinstance(v, Rope) and v.kind == "bytes")


def is_seq(v):
    return isinstance(v, (str, bytes, tuple, Rope, ListV))


class LoopInfo:
    def __init__(self, pos, obl):
        self.pos = pos
        self.obl = obl
        self.havoc = {}  # loc -> Tmpl
        self.poison = set()
        self.preds = {}  # name -> True (alive) / False (dropped)
        self.rounds = 0
        self.walk = None  # while loops: (text, counter location)
        self.walk_ok = None


class Tmpl:
    """Invariant template of one location, as a ladder of ever weaker forms."""

    def __init__(self, ladder):
        self.ladder = ladder
        self.i = 0

    @property
    def cur(self):
        return self.ladder[self.i]

    def weaken(self):
        if self.i + 1 >= len(self.ladder):
            return False
        self.i += 1
        return True


class Interp:
    def __init__(self, eng, prog, spec, contracts=None, natives=None):
        self.eng = eng
        self.prog = prog
        self.spec = spec
        self.contracts = contracts or {}
        self.objs = {}
        self.frames = {}
        self.depth = 0
        self.loop_hook = None
        self.task_preds = None
        self.free_cls = {}
        self.str_classes = []
        self.used = set()
        self.called = set()
        self.fmt_safe = True
        from . import prims

        self.prims = prims
        self.builtins = prims.builtins(self)
        self.spec_prims = prims.spec_prims(self)
        self.native_mods = prims.native_modules(self)

    @property
    def nofork(self):
        return self.eng.nofork

    @nofork.setter
    def nofork(self, v):
        self.eng.nofork = v

    # ------------------------------------------------------------ heap
    def new_obj(self, cls):
        o = Obj(cls, self.eng.new_serial())
        self.objs[o.serial] = o
        return o

    def new_list(self, r=()):
        o = ListV(r, self.eng.new_serial())
        self.objs[o.serial] = o
        return o

    def new_dict(self, d):
        o = DictV(d, self.eng.new_serial())
        self.objs[o.serial] = o
        return o

    def log_write(self, loc):
        if self.eng.writes:
            self.eng.writes[-1].add(loc)

    def set_field(self, o, name, v):
        if self.nofork and o.serial <= self.nofork_serial:
            raise NeedFork()
        self.log_write(("F", o.serial, name))
        o.f[name] = v

    def set_list(self, o, r):
        if self.nofork and o.serial <= self.nofork_serial:
            raise NeedFork()
        self.log_write(("M", o.serial))
        o.r = r

    def set_local(self, fr, name, v):
        self.log_write(("L", fr.serial, name))
        fr.env[name] = v

    def get_loc(self, loc):
        if loc[0] == "L":
            return self.frames[loc[1]].env[loc[2]]
        if loc[0] == "F":
            return self.objs[loc[1]].f[loc[2]]
        if loc[0] == "M":
            return self.objs[loc[1]].r
        raise Unsupported("location")

    def put_loc(self, loc, v):
        if loc[0] == "L":
            self.frames[loc[1]].env[loc[2]] = v
        elif loc[0] == "F":
            self.objs[loc[1]].f[loc[2]] = v
        elif loc[0] == "M":
            self.objs[loc[1]].r = v
        self.log_write(loc)

    # ------------------------------------------------------------ errors
    def throw(self, cls, *args):
        if isinstance(cls, str):
            cls = NATIVE_EXC[cls]
        o = self.new_obj(cls)
        o.f["args"] = tuple(args)
        raise PyRaise(o)

    def exc_isa(self, exc, cls):
        c = exc.cls
        if isinstance(cls, tuple):
            return any(self.exc_isa(exc, x) for x in cls)
        if isinstance(cls, TypeV):
            return False
        if isinstance(c, ClassV):
            return c.issub(cls)
        if isinstance(c, type) and isinstance(cls, type):
            return issubclass(c, cls)
        if isinstance(c, str):
            return c == cls
        return c is cls

    # ------------------------------------------------------------ branching
    def branch(self, c):
        if isinstance(c, bool):
            return c
        return self.eng.branch(c)

    def truth(self, v):
        """Truth value of v as a formula."""
        v = self.eng.force(v) if isinstance(v, LazyV) else v
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if v is None:
            return False
        if isinstance(v, EnumM):
            return bool(v.value)
        if isinstance(v, int):
            return v != 0
        if isinstance(v, z3.ArithRef):
            return simp(v != 0)
        if isinstance(v, (str, bytes, tuple, frozenset, dict, list)):
            return len(v) != 0
        if isinstance(v, Rope):
            return znot(zeq(self.eng.length(v), 0))
        if isinstance(v, ListV):
            return znot(zeq(self.eng.length(v.r), 0))
        if isinstance(v, DictV):
            return len(v.d) != 0
        if isinstance(v, Obj) and isinstance(v.cls, ClassV):
            f = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth(self.call(BoundM(f, v), [], {}))
            f = v.cls.lookup("__len__")
            if f is not None:
                return self.truth(self.call(BoundM(f, v), [], {}))
            return True
        if v is POISON:
            raise Unsupported("use of a loop-local variable")
        if isinstance(v, Opaque):
            t = getattr(v, "truth", None)
            if t is not None:
                return t
            raise Unsupported(f"truth of {v}")
        return True

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        eng = self.eng
        if isinstance(f, LazyV):
            f = eng.force(f)
        if isinstance(f, NativeF):
            return f.f(args, kwargs)
        if isinstance(f, BoundM):
            return self.call_func(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, TypeV):
            return self.prims.call_type(self, f.name, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            o = self.new_obj(f)
            o.f["args"] = tuple(args)
            return o
        raise Unsupported(f"call of {f!r}")

    def call_func(self, fn, args, kwargs):
        q = fn.qualname
        mod = fn.module.name
        if mod == "speclib" and q in self.spec_prims:
            return self.spec_prims[q](args, kwargs)
        key = (mod, q)
        self.called.add(f"{mod}.{q}" if not mod.startswith("urlstd") else q)
        c = self.contracts.get(key)
        if c is not None:
            r = c(self, fn, args, kwargs)
            if r is not NotImplemented:
                return r
        return self.inline(fn, args, kwargs)

    def inline(self, fn, args, kwargs):
        if fn.kind == "unsupported":
            raise Unsupported(f"decorated function {fn.qualname}")
        if self.depth > 40:
            raise Unsupported(f"call depth in {fn.qualname}")
        fr = Frame(fn, self.eng.new_serial(), fn.closure)
        self.frames[fr.serial] = fr
        self.bind(fn, fr, args, kwargs)
        if fn.isgen:
            return IterV(self.run_generator(fn, fr))
        self.depth += 1
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, fr)
            self.block(fn.node.body, fr)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.depth -= 1

    def bind(self, fn, fr, args, kwargs):
        a = fn.node.args
        env = fr.env
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(names) and a.vararg is None:
            self.throw("TypeError", f"{fn.qualname}() takes {len(names)} positional arguments")
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        extra = {}
        for k, v in kwargs.items():
            if (k in names and k not in posonly) or k in kwonly:
                if k in env:
                    self.throw("TypeError", f"{fn.qualname}() got multiple values for argument {k!r}")
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.throw("TypeError", f"{fn.qualname}() got an unexpected keyword argument {k!r}")
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict(extra)
        nd = len(a.defaults)
        for n, d in zip(names[len(names) - nd:], a.defaults):
            if n not in env:
                env[n] = self.default(d, fn)
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in env and d is not None:
                env[n] = self.default(d, fn)
        for n in names + kwonly:
            if n not in env:
                self.throw("TypeError", f"{fn.qualname}() missing argument {n!r}")

    def default(self, d, fn):
        if not isinstance(d, (ast.Constant, ast.Name, ast.Attribute, ast.UnaryOp, ast.Tuple)):
            raise Unsupported("mutable or computed default argument")
        fr = Frame(fn, 0)
        return self.ev(d, fr)

    def run_generator(self, fn, fr):
        segs = []

        def stmts(body):
            for s in body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
                    v = self.ev(s.value.value, fr) if s.value.value else None
                    segs.append(Seg(1, lambda k, v=v: v))
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom):
                    segs.extend(self.segments(self.ev(s.value.value, fr)))
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    pass
                elif isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Yield) and isinstance(s.body[0].value.value, ast.Name) and isinstance(s.target, ast.Name) and s.body[0].value.value.id == s.target.id:
                    segs.extend(self.segments(self.ev(s.iter, fr)))
                    stmts(s.orelse)
                elif isinstance(s, ast.If):
                    if self.branch(self.truth(self.ev(s.test, fr))):
                        stmts(s.body)
                    else:
                        stmts(s.orelse)
                elif isinstance(s, ast.Pass):
                    pass
                elif isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    self.stmt(s, fr)
                else:
                    raise Unsupported("generator function " + fn.qualname)

        stmts(fn.node.body)
        return segs

    def instantiate(self, cls, args, kwargs):
        key = (cls.module.name, cls.name)
        c = self.contracts.get(key)
        if c is not None:
            r = c(self, cls, args, kwargs)
            if r is not NotImplemented:
                return r
        if cls.kind == "enum":
            if len(args) == 1:
                for m in cls.ns.values():
                    if isinstance(m, EnumM) and isinstance(args[0], (int, EnumM)) and m == args[0]:
                        return m
            raise Unsupported("enum construction")
        if cls.kind.startswith("unsupported"):
            raise Unsupported("class " + cls.name)
        o = self.new_obj(cls)
        if cls.kind in ("dataclass", "namedtuple"):
            names = [n for n, _ in cls.fields]
            if len(args) > len(names):
                self.throw("TypeError", "too many arguments for " + cls.name)
            vals = dict(zip(names, args))
            for k, v in kwargs.items():
                if k not in names or k in vals:
                    self.throw("TypeError", f"bad argument {k!r} for {cls.name}")
                vals[k] = v
            for n, d in cls.fields:
                if n in vals:
                    o.f[n] = vals[n]
                elif d is None:
                    self.throw("TypeError", f"missing argument {n!r} for {cls.name}")
                else:
                    o.f[n] = self.field_default(d, cls)
            f = cls.lookup("__post_init__")
            if f is not None and cls.kind == "dataclass":
                self.call_func(f, [o], {})
            return o
        f = cls.lookup("__init__")
        if f is not None:
            self.call_func(f, [o] + list(args), kwargs)
            if "args" not in o.f and cls.issub(BaseException):
                o.f["args"] = tuple(args)
        else:
            o.f["args"] = tuple(args)
            if (args or kwargs) and not cls.issub(BaseException):
                self.throw("TypeError", f"{cls.name}() takes no arguments")
        return o

    def field_default(self, d, cls):
        fr = Frame(None, 0)
        fr.module = cls.module
        if isinstance(d, ast.Call) and (getattr(d.func, "id", None) == "field" or getattr(d.func, "attr", None) == "field"):
            for k in d.keywords:
                if k.arg == "default_factory":
                    if isinstance(k.value, ast.Name) and k.value.id == "list":
                        return self.new_list()
                    if isinstance(k.value, ast.Name) and k.value.id == "dict":
                        return self.new_dict({})
                    raise Unsupported("default_factory")
                if k.arg == "default":
                    return self.ev(k.value, fr)
            raise Unsupported("field()")
        return self.ev(d, fr)

    # ------------------------------------------------------------ iteration
    def segments(self, v):
        eng = self.eng
        v = eng.force(v) if isinstance(v, LazyV) else v
        if isinstance(v, IterV):
            return v.segs
        live = None
        if isinstance(v, ListV):
            live = v
            v = v.r
        if isinstance(v, dict):
            v = tuple(v)
        if isinstance(v, DictV):
            v = tuple(v.d)
        if isinstance(v, list):
            v = tuple(v)
        if isinstance(v, frozenset):
            v = tuple(sorted(v, key=repr))
        if kind_of(v) in ("str", "bytes", "list"):
            kind = kind_of(v)
            out = []
            for p in parts_of(v):
                n = eng.part_len(p)
                out.append(Seg(n, lambda k, p=p: eng.part_elem(kind, p, k), eng.mk(kind, [p]), None, live))
            return out
        if isinstance(v, Obj) and isinstance(v.cls, ClassV):
            if v.cls.kind == "namedtuple":
                return self.segments(tuple(v.f[n] for n, _ in v.cls.fields))
            f = v.cls.lookup("__iter__")
            if f is not None:
                return self.segments(self.call(BoundM(f, v), [], {}))
        if v is None or is_int(v):
            self.throw("TypeError", "object is not iterable")
        raise Unsupported(f"iteration over {v!r}")

    def to_seq(self, v):
        """A list rope with the elements of an iterable (finite, element-wise known)."""
        if isinstance(v, LazyV):
            v = self.eng.force(v)
        if isinstance(v, ListV):
            return v.r
        if isinstance(v, tuple):
            return v
        if isinstance(v, Rope) and v.kind == "list":
            return v
        parts = []
        for s in self.segments(v):
            if isinstance(s.n, int):
                parts.append(tuple(s.get(k) for k in range(s.n)))
            elif s.rope is not None and kind_of(s.rope) == "list":
                parts.extend(parts_of(s.rope))
            elif self.eng.valid(s.n <= 4):
                k = 0
                while self.branch(simp_lt(k, s.n)):
                    parts.append((s.get(k),))
                    k += 1
            else:
                raise Unsupported("list of a symbolic iteration")
        return self.eng.mk("list", parts)

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        eng = self.eng
        eng.line = s
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return
            self.ev(s.value, fr)
        elif t is ast.Assign:
            v = self.ev(s.value, fr)
            for tg in s.targets:
                self.assign(tg, v, fr)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, fr), fr)
        elif t is ast.AugAssign:
            self.augassign(s, fr)
        elif t is ast.Return:
            raise ReturnEx(self.ev(s.value, fr) if s.value is not None else None)
        elif t is ast.If:
            c = simp(self.test(s.test, fr))
            if is_z3(c) and not self.nofork and not s.orelse and self.no_effect(s.body, fr):
                return
            if self.branch(c):
                self.block(s.body, fr)
            else:
                self.block(s.orelse, fr)
        elif t is ast.For:
            self.do_for(s, fr)
        elif t is ast.While:
            self.do_while(s, fr)
        elif t is ast.Pass:
            pass
        elif t is ast.Break:
            raise BreakEx()
        elif t is ast.Continue:
            raise ContinueEx()
        elif t is ast.Raise:
            if s.exc is None:
                if getattr(self, "handling", None):
                    raise PyRaise(self.handling[-1])
                raise Unsupported("bare raise")
            e = self.ev(s.exc, fr)
            if isinstance(e, (ClassV, type)):
                e = self.call(e, [], {})
            if not isinstance(e, Obj):
                raise Unsupported("raise of a non-exception")
            raise PyRaise(e)
        elif t is ast.Try:
            self.do_try(s, fr)
        elif t is ast.Assert:
            if not self.branch(self.test(s.test, fr)):
                self.throw("AssertionError")
        elif t is ast.Delete:
            for tg in s.targets:
                self.delete(tg, fr)
        elif t is ast.FunctionDef:
            f = FuncV(s, fr.fn.module, None, fr)
            self.set_local(fr, s.name, f)
        elif t is ast.Match:
            self.do_match(s, fr)
        elif t in (ast.Global, ast.Nonlocal):
            raise Unsupported("global/nonlocal")
        elif t is ast.With:
            raise Unsupported("with statement")
        else:
            raise Unsupported(f"statement {t.__name__}")

    def no_effect(self, body, fr):
        """The statements (calls only, e.g. logging) change nothing and raise nothing."""
        for b in body:
            if not (isinstance(b, ast.Pass) or (isinstance(b, ast.Expr) and isinstance(b.value, (ast.Call, ast.Constant)))):
                return False
        for b in body:
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and self.pure_ev(b.value, fr) is None:
                return False
        return True

    def do_match(self, s, fr):
        v = self.ev(s.subject, fr)
        for c in s.cases:
            ok = self.match_pattern(c.pattern, v, fr)
            if ok is not True and not self.branch(ok):
                continue
            if c.guard is not None and not self.branch(self.test(c.guard, fr)):
                continue
            self.block(c.body, fr)
            return

    def match_pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.compare_eq(v, self.ev(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.identical(v, p.value)
        if isinstance(p, ast.MatchOr):
            return zor([self.match_pattern(x, v, fr) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                c = self.match_pattern(p.pattern, v, fr)
                if not self.branch(c):
                    return False
            if p.name is not None:
                self.set_local(fr, p.name, v)
            return True
        raise Unsupported("match pattern")

    def delete(self, tg, fr):
        eng = self.eng
        if isinstance(tg, ast.Name):
            if tg.id not in fr.env:
                self.throw("UnboundLocalError", tg.id)
            self.log_write(("L", fr.serial, tg.id))
            del fr.env[tg.id]
        elif isinstance(tg, (ast.Tuple, ast.List)):
            for x in tg.elts:
                self.delete(x, fr)
        elif isinstance(tg, ast.Subscript):
            o = self.force(self.ev(tg.value, fr))
            if isinstance(o, DictV):
                k = self.ev(tg.slice, fr)
                if k not in o.d:
                    self.throw("KeyError", k)
                self.log_write(("D", o.serial))
                del o.d[k]
                return
            if not isinstance(o, ListV):
                if is_seq(o):
                    self.throw("TypeError", "object doesn't support item deletion")
                raise Unsupported("del on " + repr(o))
            if isinstance(tg.slice, ast.Slice):
                lo = self.ev(tg.slice.lower, fr) if tg.slice.lower else None
                hi = self.ev(tg.slice.upper, fr) if tg.slice.upper else None
                if tg.slice.step is not None:
                    raise Unsupported("del with step")
                n = eng.length(o.r)
                l, h = eng.norm_index(lo, n, 0), eng.norm_index(hi, n, n)
                if not self.branch(simp_le(l, h)):
                    return
                a, _ = eng.take(o.r, l)
                _, b = eng.take(o.r, h)
                self.set_list(o, eng.cat(a, b))
                return
            self.pop_index(o, self.ev(tg.slice, fr))
        else:
            raise Unsupported("del target")

    def pop_index(self, o, i):
        """Remove and return element i of a list."""
        eng = self.eng
        i = as_int(i)
        n = eng.length(o.r)
        if isinstance(i, int) and i < 0:
            if not self.branch(simp_le(-i, n)):
                self.throw("IndexError", "list index out of range")
            i = iadd(n, i)
        elif is_z3(i) and self.branch(i < 0):
            i = iadd(n, i)
            if not self.branch(simp_le(0, i)):
                self.throw("IndexError", "list index out of range")
        elif not self.branch(simp_lt(i, n)):
            self.throw("IndexError", "list index out of range")
        ps = parts_of(o.r)
        # removal from the very end: stay inside the last part when possible
        if same_int(iadd(i, 1), n) and ps:
            while ps:
                last = ps[-1]
                ln = eng.part_len(last)
                if isinstance(ln, int):
                    if ln == 0:
                        ps.pop()
                        continue
                    break
                if self.branch(simp_le(1, ln)):
                    break
                ps.pop()
            r = eng.mk("list", ps)
            last = ps[-1]
            ln = eng.part_len(last)
            v = eng.part_elem("list", last, isub(ln, 1))
            a, _ = eng.split_part(last, isub(ln, 1))
            self.set_list(o, eng.mk("list", ps[:-1] + a))
            return v
        a, b = eng.take(o.r, i)
        ok, v = eng.index(b, 0)
        _, c = eng.take(b, 1)
        self.set_list(o, eng.cat(a, c))
        return v

    def force(self, v):
        return self.eng.force(v) if isinstance(v, LazyV) else v

    def do_try(self, s, fr):
        if not hasattr(self, "handling"):
            self.handling = []

        def fin():
            if s.finalbody:
                self.block(s.finalbody, fr)

        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        c = self.ev(h.type, fr)
                        match = self.exc_isa(e.exc, c)
                    if match:
                        if h.name:
                            self.set_local(fr, h.name, e.exc)
                        self.handling.append(e.exc)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.handling.pop()
                        if h.name:
                            fr.env.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            fin()
            raise
        fin()

    def assign(self, tg, v, fr):
        eng = self.eng
        if isinstance(tg, ast.Name):
            self.set_local(fr, tg.id, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(tg.elts)) if not any(isinstance(x, ast.Starred) for x in tg.elts) else self.unpack_star(v, tg.elts)
            for x, y in zip(tg.elts, items):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
        elif isinstance(tg, ast.Attribute):
            o = self.force(self.ev(tg.value, fr))
            self.setattr(o, tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            o = self.force(self.ev(tg.value, fr))
            k = self.ev(tg.slice, fr) if not isinstance(tg.slice, ast.Slice) else None
            if isinstance(o, DictV) and k is not None:
                k = self.dict_key(o.d, self.force(k))
                self.log_write(("D", o.serial))
                o.d[k] = v
                return
            if isinstance(o, ListV) and isinstance(tg.slice, ast.Slice):
                lo = self.ev(tg.slice.lower, fr) if tg.slice.lower else None
                hi = self.ev(tg.slice.upper, fr) if tg.slice.upper else None
                if tg.slice.step is not None:
                    raise Unsupported("slice assignment with step")
                n = eng.length(o.r)
                l, h = eng.norm_index(lo, n, 0), eng.norm_index(hi, n, n)
                if not self.branch(simp_le(l, h)):
                    h = l
                a, _ = eng.take(o.r, l)
                _, b = eng.take(o.r, h)
                self.set_list(o, eng.cat(eng.cat(a, self.to_seq(v)), b))
                return
            if isinstance(o, ListV):
                n = eng.length(o.r)
                k = as_int(self.force(k))
                if is_z3(k) and isinstance(n, int) and n <= 16:
                    for i in range(-n, n):
                        if eng.possible(zeq(k, i)) and self.branch(zeq(k, i)):
                            k = i
                            break
                if isinstance(k, int) and k < 0:
                    k = iadd(n, k)
                    if not self.branch(simp_le(0, k)):
                        self.throw("IndexError", "list assignment index out of range")
                elif is_z3(k) and self.branch(k < 0):
                    k = iadd(n, k)
                    if not self.branch(simp_le(0, k)):
                        self.throw("IndexError", "list assignment index out of range")
                if not self.branch(simp_lt(k, n)):
                    self.throw("IndexError", "list assignment index out of range")
                a, b = eng.take(o.r, k)
                _, c = eng.take(b, 1)
                self.set_list(o, eng.cat(eng.cat(a, (v,)), c))
                return
            if isinstance(o, self.prims.ClassCache):
                o.store(self, k, v)
                return
            if is_seq(o):
                self.throw("TypeError", "object does not support item assignment")
            raise Unsupported("subscript assignment")
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        eng = self.eng
        v = self.force(v)
        if isinstance(v, ListV):
            v = v.r
        if isinstance(v, Obj) and isinstance(v.cls, ClassV) and v.cls.kind == "namedtuple":
            v = tuple(v.f[x] for x, _ in v.cls.fields)
        if kind_of(v) is None:
            if v is None or is_int(v):
                self.throw("TypeError", "cannot unpack non-iterable")
            v = self.to_seq(v)
        ln = eng.length(v)
        if not self.branch(zeq(ln, n) if not isinstance(ln, int) else ln == n):
            self.throw("ValueError", "wrong number of values to unpack")
        if isinstance(v, tuple):
            return list(v)
        return [eng._at(v, i) for i in range(n)]

    def unpack_star(self, v, elts):
        seq = self.to_seq(v)
        if not isinstance(seq, tuple):
            raise Unsupported("starred unpacking of a symbolic list")
        i = [isinstance(x, ast.Starred) for x in elts].index(True)
        rest = len(elts) - i - 1
        if len(seq) < len(elts) - 1:
            self.throw("ValueError", "not enough values to unpack")
        return list(seq[:i]) + [self.new_list(seq[i:len(seq) - rest])] + list(seq[len(seq) - rest:])

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if isinstance(o.cls, ClassV):
                st = None
                for c in o.cls.mro():
                    st = getattr(c, "setters", {}).get(name)
                    if st is not None:
                        break
                if st is not None:
                    key = (st.module.name, st.qualname + ".setter")
                    c = self.contracts.get(key)
                    if c is not None:
                        r = c(self, st, [o, v], {})
                        if r is not NotImplemented:
                            return
                    self.called.add(st.qualname + ".setter")
                    self.inline(st, [o, v], {})
                    return
                p = o.cls.lookup(name)
                if isinstance(p, FuncV) and p.kind == "property":
                    self.throw("AttributeError", "can't set attribute")
                if o.cls.kind == "namedtuple" or getattr(o.cls, "frozen", False):
                    self.throw("AttributeError", "can't set attribute")
            self.set_field(o, name, v)
            return
        if o is None or is_seq(o) or is_int(o):
            self.throw("AttributeError", name)
        raise Unsupported(f"attribute assignment on {o!r}")

    def augassign(self, s, fr):
        tg = s.target
        if isinstance(tg, ast.Name):
            cur = self.lookup(tg.id, fr)
            v = self.binop_inplace(s.op, cur, self.ev(s.value, fr))
            self.set_local(fr, tg.id, v)
        elif isinstance(tg, ast.Attribute):
            o = self.force(self.ev(tg.value, fr))
            cur = self.getattr(o, tg.attr)
            v = self.binop_inplace(s.op, cur, self.ev(s.value, fr))
            self.setattr(o, tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            # evaluate container and index once
            fr2 = fr
            o = self.ev(tg.value, fr)
            k = self.ev(tg.slice, fr)
            cur = self.subscript(o, k)
            v = self.binop_inplace(s.op, cur, self.ev(s.value, fr))
            nm = "$aug%d" % self.eng.new_serial()
            fr2.env[nm + "o"], fr2.env[nm + "k"] = o, k
            self.assign(ast.Subscript(value=ast.Name(id=nm + "o", ctx=ast.Load()), slice=ast.Name(id=nm + "k", ctx=ast.Load()), ctx=ast.Store()), v, fr2)
            del fr2.env[nm + "o"], fr2.env[nm + "k"]
        else:
            raise Unsupported("augmented assignment target")

    def binop_inplace(self, op, a, b):
        a = self.force(a)
        if isinstance(a, ListV) and isinstance(op, ast.Add):
            self.set_list(a, self.eng.cat(a.r, self.to_seq(b)))
            return a
        if isinstance(a, Obj) and isinstance(a.cls, ClassV):
            nm = {ast.Add: "__iadd__"}.get(type(op))
            f = a.cls.lookup(nm) if nm else None
            if f is not None:
                return self.call_func(f, [a, b], {})
        return self.binop(op, a, b)

    # ------------------------------------------------------------ loops
    def do_for(self, s, fr):
        it = self.ev(s.iter, fr)
        segs = self.segments(it)
        try:
            for seg in segs:
                self.for_segment(s, fr, seg)
        except BreakEx:
            return
        self.block(s.orelse, fr)

    def run_body(self, s, fr):
        try:
            self.block(s.body, fr)
        except ContinueEx:
            pass

    def for_segment(self, s, fr, seg):
        eng = self.eng
        n = seg.n
        if isinstance(n, int):
            if n > 64:
                raise Unsupported("long concrete loop")
            r0 = seg.live.r if seg.live else None
            for k in range(n):
                self.assign(s.target, seg.get(k), fr)
                self.run_body(s, fr)
                if seg.live and seg.live.r is not r0:
                    raise Unsupported("loop mutates the list it iterates")
            return
        if eng.valid(n == 0):
            return
        if eng.valid(n <= 8):
            k = 0
            r0 = seg.live.r if seg.live else None
            while self.branch(simp_lt(k, n)):
                self.assign(s.target, seg.get(k), fr)
                self.run_body(s, fr)
                if seg.live and seg.live.r is not r0:
                    raise Unsupported("loop mutates the list it iterates")
                k += 1
                if k > 8:
                    raise PathEnd()
            return
        if self.summarize_for(s, fr, seg):
            return
        self.loop_rule(s, fr, seg)

    def summarize_for(self, s, fr, seg):
        return False

    def do_while(self, s, fr):
        eng = self.eng
        # bounded unrolling while the test is decided by the path condition
        for _ in range(0 if getattr(self.loop_hook, "force_rule", False) else 40):
            if self.nofork:
                raise NeedFork()
            save = (eng.pos, eng.qpos)
            c = simp(self.test(s.test, fr)) if True else None
            if isinstance(c, bool):
                v = c
            elif eng.valid(c):
                v = True
            elif eng.valid(z3.Not(c)):
                v = False
            elif self.concrete_counter(s, fr):
                v = self.branch(c)
            else:
                break
            if not v:
                self.block(s.orelse, fr)
                return
            if isinstance(s.test, ast.Constant):
                break
            try:
                self.run_body(s, fr)
            except BreakEx:
                return
        try:
            self.loop_rule(s, fr, None)
        except BreakEx:
            return
        self.block(s.orelse, fr)

    def concrete_counter(self, s, fr):
        """The test has a conjunct comparing known ints (a counter with a known
        bound), so unrolling ends."""
        todo = [s.test]
        while todo:
            x = todo.pop()
            if isinstance(x, ast.BoolOp) and isinstance(x.op, ast.And):
                todo.extend(x.values)
            elif isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.NotEq)):
                a = self.pure_ev(x.left, fr)
                b = self.pure_ev(x.comparators[0], fr)
                if a is not None and b is not None and type(a[0]) is int and type(b[0]) is int:
                    names = {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
                    for st in s.body:
                        for y in ast.walk(st):
                            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id in names:
                                return True
        return False

    def loop_rule(self, s, fr, seg):
        """Invariant-based treatment of a loop of unbounded length.  Returns
        normally when the loop ends by exhaustion / a false test."""
        eng = self.eng
        if self.nofork:
            raise NeedFork()
        key = (tuple(e[0] for e in eng.trail.entries[:eng.pos]), s.lineno, eng.counter.get("loop", 0))
        eng.counter["loop"] = eng.counter.get("loop", 0) + 1
        info = eng.trail.loops.get(key)
        if info is None:
            info = LoopInfo(eng.pos, len(eng.trail.obls))
            info.q = eng.qpos
            info.ord = key[2]
            eng.trail.loops[key] = info
        entry_serial = eng.serial
        entry = {}
        for loc in info.havoc:
            entry[loc] = self.get_loc(loc)
        ctx = LoopCtx(self, info, entry, seg, entry_serial, fr, s)
        ctx.counter0 = dict(eng.counter)
        ctx.snap_env = {n: dict(f.env) for n, f in self.frames.items()}
        ctx.snap_heap = {}
        for n, o in self.objs.items():
            if isinstance(o, Obj):
                for k_, v_ in o.f.items():
                    ctx.snap_heap[("F", n, k_)] = v_
            elif isinstance(o, ListV):
                ctx.snap_heap[("M", n)] = o.r
        ctx.add_preds_at_entry()
        # phase 0: every path through the body up to its end, to find the
        # invariant and prove it preserved (paths that leave the loop are cut);
        # phase 1: the paths that leave the loop (those that reach the end of
        # the body again are cut)
        phase = eng.choose(2)
        mode = (eng.choose(2) if phase == 1 else 0) if seg is not None else 0
        k = eng.int("k")
        eng.fact(k >= 0)
        if seg is not None:
            if mode == 0:
                eng.fact(k < seg.n)
            else:
                k = seg.n
        ctx.havoc(k)
        for name in sorted(info.poison):
            if name not in fr.env or True:
                fr.env[name] = POISON
        ctx.assume_preds()
        if seg is not None and mode == 1:
            if self.loop_hook is not None:
                self.loop_hook.used = True
            return
        eng.writes.append(set())
        if self.loop_hook is not None:
            self.loop_hook.enter(self, ctx, k)
        try:
            if seg is not None:
                self.assign(s.target, seg.get(k), fr)
            else:
                m0 = self.measure(s, fr)
                if not self.branch(self.test(s.test, fr)):
                    if phase == 0:
                        raise PathEnd()
                    eng.writes.pop()
                    return
            try:
                self.block(s.body, fr)
            except ContinueEx:
                pass
        except (BreakEx, ReturnEx, PyRaise):
            if phase == 0:
                raise PathEnd()
            w = eng.writes.pop()
            if eng.writes:
                eng.writes[-1] |= w
            raise
        if phase == 1:
            raise PathEnd()
        if self.loop_hook is not None:
            self.loop_hook.step(self, ctx, k)
        w = eng.writes.pop()
        if seg is not None and seg.live is not None and ("M", seg.live.serial) in w:
            raise Unsupported("loop mutates the list it iterates")
        ctx.end(k, w)
        if seg is None:
            self.prove_variant(s, fr, m0)
        raise PathEnd()

    def measure(self, s, fr):
        """Candidate variants of a while loop: differences in its test."""
        out = []
        t = s.test
        todo = [t]
        while todo:
            x = todo.pop()
            if isinstance(x, ast.BoolOp) and isinstance(x.op, ast.And):
                todo.extend(x.values)
            if isinstance(x, ast.Compare) and len(x.ops) == 1:
                try:
                    a, b = self.ev(x.left, fr), self.ev(x.comparators[0], fr)
                except (PyRaise, Unsupported):
                    continue
                if is_int(a) and is_int(b):
                    a, b = as_int(a), as_int(b)
                    if isinstance(x.ops[0], (ast.Lt, ast.LtE)):
                        out.append(isub(b, a))
                    elif isinstance(x.ops[0], (ast.Gt, ast.GtE)):
                        out.append(isub(a, b))
                    elif isinstance(x.ops[0], ast.NotEq):
                        out.append(isub(a, b))
                        out.append(isub(b, a))
            elif isinstance(x, (ast.Name, ast.Attribute, ast.Call)):
                try:
                    v = self.force(self.ev(x, fr))
                except (PyRaise, Unsupported):
                    continue
                if isinstance(v, ListV):
                    out.append(self.eng.length(v.r))
                elif isinstance(v, Rope):
                    out.append(self.eng.length(v))
                elif is_int(v) and not isinstance(v, (bool, z3.BoolRef)):
                    out.append(as_int(v))
        out = dict(enumerate(out))
        env = sorted(fr.env.items())
        for n, v in env:
            if isinstance(v, (Rope, str)) and is_strlike(v):
                for m, w in env:
                    if isinstance(w, (int, z3.ArithRef)) and not isinstance(w, bool):
                        out[n, m] = isub(self.eng.length(v), w)
        return out

    def prove_variant(self, s, fr, m0):
        if getattr(self, "no_variant", False):
            return
        m1 = self.measure(s, fr)
        for key, a in m0.items():
            if key not in m1:
                continue
            b = m1[key]
            c = zand([simp_lt(b, a), simp_le(0, a)])
            if self.eng.valid(c):
                self.eng.prove(True, f"termination of the while loop at line {s.lineno}")
                return
        self.eng.prove(False, f"termination of the while loop at line {s.lineno} of {fr.fn.qualname}", "no decreasing measure found")

    # ------------------------------------------------------------ expressions
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if v is POISON:
                    raise Unsupported(f"value of {name} after a symbolic loop")
                return v
            f = f.parent
        # is it a local that is not yet bound?
        if fr.fn is not None and not isinstance(fr.fn.node, ast.Lambda) and name in self.local_names(fr.fn):
            self.throw("UnboundLocalError", name)
        mod = fr.fn.module if fr.fn is not None else fr.module
        if name in mod.ns:
            return self.wrap_global(mod.ns[name], mod, name)
        if mod.name.startswith("urlstd") and name in self.native_mods:
            return self.native_mods[name]
        if name in self.builtins:
            return self.builtins[name]
        if name in NATIVE_EXC:
            return NATIVE_EXC[name]
        if name in TYPES:
            return TYPES[name]
        raise Unsupported(f"unknown name {name}")

    def wrap_global(self, v, mod, name):
        if isinstance(v, list):
            return tuple(v)  # module-level list constants are read-only here
        return v

    _locals_cache = {}

    def local_names(self, fn):
        c = self._locals_cache.get(id(fn))
        if c is None:
            c = set()
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    c.add(n.id)
            comp = set()
            for n in ast.walk(fn.node):
                if isinstance(n, ast.comprehension):
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name):
                            comp.add(x.id)
            # names only bound by comprehensions are not function locals
            c2 = set()
            for n in self._walk_no_comp(fn.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    c2.add(n.id)
            c = c2
            self._locals_cache[id(fn)] = c
        return c

    def _walk_no_comp(self, node):
        todo = list(node.body) if isinstance(node.body, list) else [node.body]
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp, ast.FunctionDef, ast.Lambda)):
                continue
            todo.extend(ast.iter_child_nodes(n))

    def test(self, node, fr):
        """Truth of an expression as a formula, merging and/or when it is safe."""
        if isinstance(node, ast.BoolOp):
            return self.boolop_test(node, fr)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return znot(self.test(node.operand, fr))
        return self.truth(self.ev(node, fr))

    def boolop_test(self, node, fr):
        isand = isinstance(node.op, ast.And)
        acc = []
        for i, x in enumerate(node.values):
            if not acc:
                c = simp(self.test(x, fr))
            else:
                c = self.try_pure(x, fr, zand(acc) if isand else znot(zor(acc)))
                if c is None:
                    # decide what is collected so far, then go on
                    cur = zand(acc) if isand else zor(acc)
                    v = self.branch(cur)
                    if isand and not v:
                        return False
                    if not isand and v:
                        return True
                    acc = []
                    c = simp(self.test(x, fr))
            if c is True:
                if not isand:
                    return True
                continue
            if c is False:
                if isand:
                    return False
                continue
            acc.append(c)
        return zand(acc) if isand else zor(acc)

    def try_pure(self, node, fr, guard=True):
        """Evaluate a test without forking; None if that is not possible.
        guard: it is evaluated (and its value used) only where guard holds."""
        eng = self.eng
        ng = len(eng.guards)
        if is_z3(guard):
            eng.guards = eng.guards + [guard]
        self.nofork += 1
        old = getattr(self, "nofork_serial", 0)
        if self.nofork == 1:
            self.nofork_serial = eng.serial
        eng.writes.append(set())
        d = self.depth
        h = list(getattr(self, "handling", []))
        try:
            return simp(self.test(node, fr))
        except (NeedFork, PyRaise):
            self.depth = d
            if hasattr(self, "handling"):
                self.handling = h
            return None
        finally:
            eng.guards = eng.guards[:ng]
            w = eng.writes.pop()
            if eng.writes:
                eng.writes[-1] |= w
            self.nofork -= 1
            self.nofork_serial = old

    def ev(self, n, fr):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, fr)

    def ev_Constant(self, n, fr):
        if isinstance(n.value, (float, complex)) or n.value is Ellipsis:
            if isinstance(n.value, float):
                return n.value
            raise Unsupported("constant")
        return n.value

    def ev_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def ev_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def ev_Tuple(self, n, fr):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return self.seq_display(n, fr)
        return tuple(self.ev(x, fr) for x in n.elts)

    def seq_display(self, n, fr):
        parts = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                parts.extend(parts_of(self.to_seq(self.ev(x.value, fr))))
            else:
                parts.append((self.ev(x, fr),))
        return self.eng.mk("list", parts)

    def ev_List(self, n, fr):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            # [*s, ""] keeps an iteration symbolic
            segs = []
            ok = True
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value, fr)
                    if kind_of(self.force(v)) in ("str", "bytes") or isinstance(v, IterV):
                        ok = False
                        segs.extend(self.segments(v))
                    else:
                        segs.extend(self.segments(v))
                else:
                    v = self.ev(x, fr)
                    segs.append(Seg(1, lambda k, v=v: v))
            if ok:
                return self.new_list(self.seq_display(n, fr))
            return IterV(segs)
        return self.new_list(tuple(self.ev(x, fr) for x in n.elts))

    def ev_Set(self, n, fr):
        items = [self.ev(x, fr) for x in n.elts]
        if all(isinstance(x, (str, int, bytes, EnumM)) for x in items):
            return frozenset(items)
        return tuple(items)

    def ev_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, fr)
                d.update(o.d if isinstance(o, DictV) else o)
                continue
            kk = self.ev(k, fr)
            if isinstance(kk, Rope) or is_z3(kk):
                raise Unsupported("symbolic dict key")
            d[kk] = self.ev(v, fr)
        return self.new_dict(d)

    def ev_Lambda(self, n, fr):
        return FuncV(n, fr.fn.module, None, fr)

    def ev_IfExp(self, n, fr):
        c = simp(self.test(n.test, fr))
        if isinstance(c, bool):
            return self.ev(n.body if c else n.orelse, fr)
        if self.nofork:
            a, b = self.ev(n.body, fr), self.ev(n.orelse, fr)
            if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
                return simp(z3.If(c, a, b))
            if isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)):
                return simp(z3.If(c, a, b))
            raise NeedFork()
        return self.ev(n.body if self.branch(c) else n.orelse, fr)

    def ev_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        acc = None
        for i, x in enumerate(n.values):
            last = i == len(n.values) - 1
            if acc is not None:
                # acc: undecided Bool collected so far
                c = self.try_pure_value(x, fr, acc if isand else znot(acc))
                if c is not None and isinstance(c, (bool, z3.BoolRef)):
                    acc = simp(zand([acc, c]) if isand else zor([acc, c]))
                    if last:
                        return acc
                    continue
                v = self.branch(acc)
                if isand and not v:
                    return False
                if not isand and v:
                    return True
                acc = None
            v = self.ev(x, fr)
            if last:
                return v
            if isinstance(v, z3.BoolRef):
                acc = v
                continue
            t = self.branch(self.truth(v))
            if isand and not t:
                return v
            if not isand and t:
                return v
        return acc

    def try_pure_value(self, node, fr, guard):
        v = self.pure_ev(node, fr, guard)
        return v[0] if v is not None and isinstance(v[0], (bool, z3.BoolRef)) else None

    def pure_ev(self, node, fr, guard=True):
        """(value,) if node evaluates without forking or raising, else None."""
        eng = self.eng
        ng = len(eng.guards)
        if is_z3(guard):
            eng.guards = eng.guards + [guard]
        self.nofork += 1
        old = getattr(self, "nofork_serial", 0)
        if self.nofork == 1:
            self.nofork_serial = eng.serial
        eng.writes.append(set())
        d = self.depth
        try:
            return (self.ev(node, fr),)
        except (NeedFork, PyRaise):
            self.depth = d
            return None
        finally:
            eng.guards = eng.guards[:ng]
            w = eng.writes.pop()
            if eng.writes:
                eng.writes[-1] |= w
            self.nofork -= 1
            self.nofork_serial = old

    def ev_UnaryOp(self, n, fr):
        if isinstance(n.op, ast.Not):
            return simp(znot(self.test(n.operand, fr)))
        v = as_int(self.force(self.ev(n.operand, fr)))
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, z3.ArithRef):
                return simp(-v)
        if isinstance(n.op, ast.Invert):
            if isinstance(v, int):
                return ~v
            if isinstance(v, z3.ArithRef):
                return simp(-v - 1)
        if isinstance(n.op, ast.UAdd):
            return v
        self.throw("TypeError", "bad operand type for unary operator")

    def ev_BinOp(self, n, fr):
        return self.binop(n.op, self.ev(n.left, fr), self.ev(n.right, fr))

    def binop(self, op, a, b):
        eng = self.eng
        a, b = self.force(a), self.force(b)
        if a is POISON or b is POISON:
            raise Unsupported("poisoned operand")
        if isinstance(op, ast.Mod) and is_strlike(a):
            args = b if isinstance(b, tuple) else (b,)
            return self.prims.percent_format(self, a, args)
        if is_int(a) and is_int(b):
            return self.int_op(op, as_int(a), as_int(b), isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)), a, b)
        if isinstance(op, ast.Add):
            if isinstance(a, ListV) and isinstance(b, ListV):
                return self.new_list(eng.cat(a.r, b.r))
            if isinstance(a, Obj) and isinstance(a.cls, ClassV):
                f = a.cls.lookup("__add__")
                if f is not None:
                    return self.call_func(f, [a, b], {})
            ka, kb = kind_of(a), kind_of(b)
            if isinstance(a, ListV) or isinstance(b, ListV):
                self.throw("TypeError", "can only concatenate list")
            if ka is not None and ka == kb:
                return eng.cat(a, b)
            if (ka or a is None or is_int(a)) and (kb or b is None or is_int(b)):
                self.throw("TypeError", "unsupported operand types for +")
        if isinstance(op, ast.Mult):
            if is_int(a) and not is_int(b):
                a, b = b, a
            if is_int(b):
                b = as_int(b)
                if isinstance(b, int):
                    if isinstance(a, ListV):
                        r = a.r
                        parts = []
                        for _ in range(b):
                            parts += parts_of(r)
                        return self.new_list(eng.mk("list", parts))
                    if kind_of(a):
                        if isinstance(a, CONST):
                            return a * b
                        parts = []
                        for _ in range(b):
                            parts += parts_of(a)
                        return eng.mk(kind_of(a), parts)
        if isinstance(a, (frozenset, set, dict)) and isinstance(b, (frozenset, set, dict)):
            if isinstance(op, ast.BitOr):
                return a | b
            if isinstance(op, ast.BitAnd):
                return a & b
            if isinstance(op, ast.Sub):
                return a - b
        if isinstance(a, (Opaque, Obj)) or isinstance(b, (Opaque, Obj)):
            raise Unsupported(f"operator on {a!r}, {b!r}")
        if (kind_of(a) or a is None or is_int(a)) and (kind_of(b) or b is None or is_int(b)):
            self.throw("TypeError", "unsupported operand types")
        raise Unsupported(f"operator {type(op).__name__} on {a!r}, {b!r}")

    def int_op(self, op, a, b, bools, a0, b0):
        if isinstance(a, int) and isinstance(b, int):
            if bools and isinstance(a0, bool) and isinstance(b0, bool) and isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
                return {ast.BitAnd: a0 & b0, ast.BitOr: a0 | b0, ast.BitXor: a0 ^ b0}[type(op)]
            try:
                if isinstance(op, ast.Add):
                    return a + b
                if isinstance(op, ast.Sub):
                    return a - b
                if isinstance(op, ast.Mult):
                    return a * b
                if isinstance(op, ast.FloorDiv):
                    return a // b
                if isinstance(op, ast.Mod):
                    return a % b
                if isinstance(op, ast.Pow):
                    if b > 10000 or b < 0:
                        raise Unsupported("power")
                    return a**b
                if isinstance(op, ast.LShift):
                    return a << b
                if isinstance(op, ast.RShift):
                    return a >> b
                if isinstance(op, ast.BitAnd):
                    return a & b
                if isinstance(op, ast.BitOr):
                    return a | b
                if isinstance(op, ast.BitXor):
                    return a ^ b
            except ZeroDivisionError:
                self.throw("ZeroDivisionError")
            raise Unsupported("int operator")
        if bools and isinstance(op, (ast.BitAnd, ast.BitOr)):
            return simp(zand([a0, b0]) if isinstance(op, ast.BitAnd) else zor([a0, b0]))
        if isinstance(op, ast.Add):
            return simp(a + b)
        if isinstance(op, ast.Sub):
            return simp(a - b)
        if isinstance(op, ast.Mult):
            if isinstance(a, int) or isinstance(b, int):
                return simp(a * b)
            f = z3.Function("mul", INT, INT, INT)
            return f(a, b)
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and isinstance(b, int) and b > 0:
            return simp(a / b) if isinstance(op, ast.FloorDiv) else simp(a % b)
        if isinstance(op, ast.RShift) and isinstance(b, int) and b >= 0:
            return simp(a / (2**b))
        if isinstance(op, ast.LShift) and isinstance(b, int) and b >= 0:
            return simp(a * (2**b))
        if isinstance(op, ast.BitAnd) and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
            return simp(a % (b + 1))
        if isinstance(op, ast.BitAnd):
            if isinstance(a, int):
                a, b = b, a
            f = z3.Function("bitand", INT, INT, INT)
            t = f(a, b if is_z3(b) else z3.IntVal(b))
            self.eng.fact(z3.Implies(a == 0, t == 0))
            return t
        if isinstance(op, ast.BitOr):
            f = z3.Function("bitor", INT, INT, INT)
            return f(a if is_z3(a) else z3.IntVal(a), b if is_z3(b) else z3.IntVal(b))
        if isinstance(op, ast.Pow) and isinstance(a, int):
            # small exponents: enumerate
            for e in range(0, 9):
                if self.branch(zeq(b, e)):
                    return a**e
        raise Unsupported(f"int operator {type(op).__name__}")

    # ---- comparison
    def ev_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, fr)
            c = self.compare(op, left, right)
            if c is False:
                return False
            out.append(c)
            left = right
        return simp(zand(out))

    def compare(self, op, a, b):
        eng = self.eng
        if a is POISON or b is POISON:
            raise Unsupported("poisoned operand")
        if isinstance(op, ast.Eq):
            return self.compare_eq(a, b)
        if isinstance(op, ast.NotEq):
            return znot(self.compare_eq(a, b))
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            return znot(self.identical(a, b))
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            return znot(self.contains(a, b))
        a, b = self.force(a), self.force(b)
        if is_int(a) and is_int(b):
            x, y = as_int(a), as_int(b)
            r = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
            return simp(r)
        if is_strlike(a) and is_strlike(b):
            if isinstance(a, str) and isinstance(b, str):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
            # one-character strings compare as code points
            la, lb = eng.length(a), eng.length(b)
            if isinstance(la, int) and isinstance(lb, int) and la == 1 and lb == 1:
                x, y = eng.char_of(a), eng.char_of(b)
                return simp({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
            if la == 0 or lb == 0:
                # comparison with the empty string
                za, zb = zeq(la, 0), zeq(lb, 0)
                if isinstance(op, ast.Lt):
                    return zand([za, znot(zb)])
                if isinstance(op, ast.LtE):
                    return za if not (isinstance(lb, int) and lb == 0) else za
                if isinstance(op, ast.Gt):
                    return zand([zb, znot(za)])
                return zb if not (isinstance(la, int) and la == 0) else zb
            raise Unsupported("ordering of strings")
        if a is None or b is None:
            self.throw("TypeError", "unorderable types")
        if (is_int(a) and kind_of(b)) or (kind_of(a) and is_int(b)):
            self.throw("TypeError", "unorderable types")
        raise Unsupported("ordering")

    def compare_eq(self, a, b):
        a2, b2 = a, b
        if isinstance(a, LazyV) and not isinstance(b, LazyV) and b is None:
            return self.identical(a, b)
        if isinstance(a2, LazyV):
            a2 = self.lazy_peek(a2)
        if isinstance(b2, LazyV):
            b2 = self.lazy_peek(b2)
        if a2 is b2 and not isinstance(a2, Obj):
            return True
        a2, b2 = self.force(a2), self.force(b2)
        for x, y in ((a2, b2), (b2, a2)):
            if isinstance(x, Obj) and isinstance(x.cls, ClassV):
                if x.cls.kind == "namedtuple":
                    if isinstance(y, Obj) and isinstance(y.cls, ClassV) and y.cls.kind == "namedtuple":
                        return self.eng.eq(tuple(x.f[n] for n, _ in x.cls.fields), tuple(y.f[n] for n, _ in y.cls.fields))
                f = x.cls.lookup("__eq__")
                if f is not None:
                    return self.truth(self.call_func(f, [x, y], {}))
                if x.cls.kind == "dataclass" and x.cls.dc_eq:
                    raise Unsupported("dataclass equality")
                return x is y
        if isinstance(a2, EnumM) or isinstance(b2, EnumM):
            if is_int(a2) and is_int(b2):
                return zeq(as_int(a2), as_int(b2))
            return False
        if isinstance(a2, (ClassV, FuncV, TypeV, type)) or isinstance(b2, (ClassV, FuncV, TypeV, type)):
            return a2 is b2
        return self.eng.eq(a2, b2)

    def lazy_peek(self, v):
        while isinstance(v, LazyV) and v.chosen is not None:
            v = v.alts[v.chosen]
        return v

    def eq_nofork_safe(self, a, b):
        """Equality as a formula, without forking; False if that is not possible."""
        self.nofork += 1
        old = getattr(self, "nofork_serial", 0)
        if self.nofork == 1:
            self.nofork_serial = self.eng.serial
        try:
            return self.eng.eq(a, b)
        except (NeedFork, Unsupported):
            return False
        finally:
            self.nofork -= 1
            self.nofork_serial = old

    def identical(self, a, b):
        if b is None or a is None:
            x = a if b is None else b
            x = self.lazy_peek(x) if isinstance(x, LazyV) else x
            if isinstance(x, LazyV):
                # formula without deciding the alternative
                nones = [i for i, y in enumerate(x.alts) if y is None]
                if any(isinstance(y, LazyV) for y in x.alts):
                    x = self.force(x)
                elif is_z3(x.tag):
                    return simp(zor([x.tag == i for i in nones]))
                else:
                    x = self.force(x)
            return x is None
        a, b = self.force(a), self.force(b)
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return zeq(a, b)
        if isinstance(a, EnumM) and isinstance(b, EnumM):
            return a == b
        if isinstance(a, (Obj, ListV, DictV, ClassV, FuncV)) or isinstance(b, (Obj, ListV, DictV, ClassV, FuncV)):
            return a is b
        if a is b:
            return True
        raise Unsupported("identity test")

    def contains(self, a, b):
        """a in b"""
        eng = self.eng
        b = self.force(b)
        if isinstance(b, DictV):
            b = tuple(b.d)
        if isinstance(b, dict):
            b = tuple(b)
        if isinstance(b, self.prims.ClassCache):
            raise Unsupported("in on class cache")
        if isinstance(b, ListV):
            b = b.r
        if isinstance(b, frozenset):
            b = tuple(sorted(b, key=repr))
        if isinstance(b, list):
            b = tuple(b)
        a = self.force(a)
        if is_strlike(b):
            if not is_strlike(a):
                self.throw("TypeError", "'in <string>' requires string as left operand")
            return self.substr(a, b)
        if is_byteslike(b):
            if is_int(a):
                c = as_int(a)
                if isinstance(b, bytes):
                    return simp(CharSet([(x, x) for x in b]).formula(c))
            if is_byteslike(a) and isinstance(b, bytes) and isinstance(a, bytes):
                return a in b
            raise Unsupported("in bytes")
        if isinstance(b, tuple):
            if isinstance(a, Rope) and a.kind == "str" and len(b) > 8 and all(isinstance(x, str) for x in b):
                # large constant table
                if isinstance(a, str):
                    return a in b
                return self.prims.in_table(self, a, b)
            if isinstance(a, str) and all(isinstance(x, str) for x in b):
                return a in b
            return simp(zor([self.compare_eq(a, x) for x in b]))
        if isinstance(b, Obj) and isinstance(b.cls, ClassV):
            f = b.cls.lookup("__contains__")
            if f is not None:
                return self.truth(self.call_func(f, [b, a], {}))
        if isinstance(b, Rope) and b.kind == "list":
            raise Unsupported("in symbolic list")
        if b is None or is_int(b):
            self.throw("TypeError", "argument is not iterable")
        raise Unsupported(f"in {b!r}")

    def substr(self, a, b):
        eng = self.eng
        if isinstance(a, str) and isinstance(b, str):
            return a in b
        if isinstance(b, str):
            la = eng.length(a)
            if isinstance(la, int):
                if la == 0:
                    return True
                if la == 1:
                    return eng.member(eng.char_of(a), CharSet.of(b))
                subs = sorted({b[i:i + la] for i in range(len(b) - la + 1)})
                if len(subs) > 40:
                    raise Unsupported("substring test")
                return simp(zor([eng.seq_eq(a, x) for x in subs]))
            # unknown length: empty or one character (longer only for short b)
            out = [zeq(la, 0)]
            ok, ch = None, None
            if self.nofork:
                raise NeedFork()
            if self.branch(zeq(la, 0)):
                return True
            if self.branch(zeq(la, 1)):
                ok, ch = eng.index(a, 0)
                return eng.member(eng.char_of(ch), CharSet.of(b))
            subs = sorted({b[i:j] for i in range(len(b)) for j in range(i + 2, len(b) + 1)})
            if len(subs) > 30:
                # over-approximate: undetermined
                return eng.bool("substr")
            return simp(zor([eng.seq_eq(a, x) for x in subs]))
        if isinstance(a, str) and len(a) == 1:
            return znot(eng.allin(b, CharSet.of(a).complement()))
        if a == "":
            return True
        raise Unsupported("substring test")

    # ---- attribute / subscript / call
    def ev_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr)

    def getattr(self, o, name):
        o = self.force(o)
        if isinstance(o, Obj):
            if name in o.f:
                v = o.f[name]
                if v is POISON:
                    raise Unsupported("poisoned field")
                return v
            if isinstance(o.cls, ClassV):
                v = o.cls.lookup(name)
                if isinstance(v, FuncV):
                    if v.kind == "property":
                        return self.call_func(v, [o], {})
                    if v.kind == "classmethod":
                        return BoundM(v, o.cls)
                    if v.kind == "staticmethod":
                        return v
                    return BoundM(v, o)
                if v is not None:
                    return v
                if name == "__class__":
                    return o.cls
                if name == "__module__":
                    return o.cls.module.name
                if name == "__dict__":
                    raise Unsupported("__dict__")
                if o.cls.kind == "namedtuple" and name == "_replace":
                    def repl(args, kwargs, o=o):
                        p = self.new_obj(o.cls)
                        p.f.update(o.f)
                        p.f.update(kwargs)
                        return p
                    return NativeF("_replace", repl)
            m = self.prims.obj_method(self, o, name)
            if m is not None:
                return m
            if hasattr(object, name) or name in ("__dict__", "__module__"):
                raise Unsupported(f"attribute {name}")
            self.throw("AttributeError", name)
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            if name == "__module__":
                return o.module.name
            v = o.lookup(name)
            if isinstance(v, FuncV):
                if v.kind == "classmethod":
                    return BoundM(v, o)
                return v
            if v is not None or name in o.ns:
                return self.prims.class_attr(self, o, name, v)
            if name == "__members__":
                raise Unsupported("__members__")
            self.throw("AttributeError", name)
        if isinstance(o, NativeMod):
            if name in o.ns:
                return o.ns[name]
            raise Unsupported(f"{o.name}.{name}")
        if isinstance(o, EnumM):
            if name in ("name", "value"):
                return getattr(o, name)
            raise Unsupported("enum attribute")
        if isinstance(o, SuperV):
            return self.prims.super_attr(self, o, name)
        if o is None:
            self.throw("AttributeError", name)
        m = self.prims.method(self, o, name)
        if m is not None:
            return m
        if is_seq(o) or is_int(o) or isinstance(o, (dict, DictV, frozenset)):
            t = list if isinstance(o, ListV) else dict if isinstance(o, DictV) else int if is_int(o) else {"str": str, "bytes": bytes, "list": tuple}.get(kind_of(o), type(o))
            if hasattr(t, name) or hasattr(set, name) and t is frozenset:
                raise Unsupported(f"{t.__name__}.{name}")
            self.throw("AttributeError", name)
        raise Unsupported(f"attribute {name} of {o!r}")

    def ev_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower, fr) if n.slice.lower else None
            hi = self.ev(n.slice.upper, fr) if n.slice.upper else None
            step = self.ev(n.slice.step, fr) if n.slice.step else None
            return self.slice(o, lo, hi, step)
        return self.subscript(o, self.ev(n.slice, fr))

    def slice(self, o, lo, hi, step=None):
        eng = self.eng
        o = self.force(o)
        lo = as_int(self.force(lo))
        hi = as_int(self.force(hi))
        if step is not None and step != 1:
            r = o.r if isinstance(o, ListV) else o
            if isinstance(r, CONST):
                v = r[lo:hi:step]
                return self.new_list(v) if isinstance(o, ListV) else v
            raise Unsupported("slice step")
        if isinstance(o, ListV):
            return self.new_list(self.getslice(o.r, lo, hi))
        if kind_of(o):
            return self.getslice(o, lo, hi)
        if isinstance(o, Obj) and isinstance(o.cls, ClassV) and o.cls.kind == "namedtuple":
            return tuple(o.f[x] for x, _ in o.cls.fields)[lo:hi]
        if o is None or is_int(o):
            self.throw("TypeError", "object is not subscriptable")
        raise Unsupported("slice of " + repr(o))

    def getslice(self, v, lo, hi):
        return self.eng.getslice(v, lo, hi)

    def dict_key(self, d, k):
        """The key of d that equals string k (case splits), else k itself."""
        if not isinstance(k, Rope) and not (isinstance(k, str) and any(isinstance(x, Rope) for x in d)):
            return k
        if not is_strlike(k):
            raise Unsupported("symbolic dict key")
        for x in d:
            if is_strlike(x) and self.branch(self.eng.seq_eq(x, k)):
                return x
        return k

    def subscript(self, o, k):
        eng = self.eng
        o, k = self.force(o), self.force(k)
        if isinstance(o, DictV) or isinstance(o, dict):
            d = o.d if isinstance(o, DictV) else o
            if isinstance(k, Rope):
                k = self.dict_key(d, k)
                if k in d:
                    return d[k]
                self.throw("KeyError", k)
            if isinstance(k, EnumM):
                for key in d:
                    if isinstance(key, (EnumM, int)) and k == key:
                        return d[key]
                self.throw("KeyError", k)
            if is_z3(k):
                for key in d:
                    if isinstance(key, int) and self.branch(zeq(k, key)):
                        return d[key]
                self.throw("KeyError", k)
            if k in d:
                return d[k]
            self.throw("KeyError", k)
        if isinstance(o, self.prims.ClassCache):
            return o.load(self, k)
        if isinstance(o, Obj) and isinstance(o.cls, ClassV):
            if o.cls.kind == "namedtuple":
                o = tuple(o.f[x] for x, _ in o.cls.fields)
            else:
                f = o.cls.lookup("__getitem__")
                if f is not None:
                    return self.call_func(f, [o, k], {})
        seq = o.r if isinstance(o, ListV) else o
        if kind_of(seq):
            if not is_int(k):
                self.throw("TypeError", "indices must be integers")
            ok, v = eng.index(seq, as_int(k))
            if not ok:
                self.throw("IndexError", "index out of range")
            return v
        if isinstance(o, ClassV) and o.kind == "enum":
            if isinstance(k, str) and k in o.ns:
                return o.ns[k]
        if o is None or is_int(o):
            self.throw("TypeError", "object is not subscriptable")
        raise Unsupported(f"subscript of {o!r}")

    def ev_Call(self, n, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while f.fn.cls is None and f.parent is not None:
                f = f.parent
            a = f.fn.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return SuperV(f.fn.cls, f.env[first])
        g = self.genexp_call(n, fr)
        if g is not NotImplemented:
            return g
        f = self.ev(n.func, fr)
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                v = self.to_seq(self.ev(x.value, fr))
                if not isinstance(v, tuple):
                    raise Unsupported("starred symbolic argument")
                args.extend(v)
            else:
                args.append(self.ev(x, fr))
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                d = v.d if isinstance(v, DictV) else v
                if not isinstance(d, dict):
                    raise Unsupported("** argument")
                for a, b in d.items():
                    if a in kwargs:
                        self.throw("TypeError", "multiple values for keyword argument " + a)
                    kwargs[a] = b
            else:
                if k.arg in kwargs:
                    self.throw("TypeError", "multiple values for keyword argument " + k.arg)
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    # ---- comprehensions
    def genexp_call(self, n, fr):
        """any(...)/all(...)/sum(...)/next of a generator or list comprehension."""
        if isinstance(n.func, ast.Name) and n.func.id == "sum" and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and n.func.id not in fr.env:
            return self.prims.sum_genexp(self, n.args[0], fr)
        if isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and len(n.args) == 1 and not n.keywords:
            a = n.args[0]
            if isinstance(a, (ast.GeneratorExp, ast.ListComp)) and n.func.id not in fr.env:
                return self.any_all(n.func.id, a, fr)
            v = self.ev(a, fr)
            segs = self.segments(v)
            out = []
            for s in segs:
                if not isinstance(s.n, int):
                    raise Unsupported("any/all of a symbolic sequence")
                out += [self.truth(s.get(k)) for k in range(s.n)]
            return simp(zor(out) if n.func.id == "any" else zand(out))
        return NotImplemented

    def any_all(self, which, comp, fr):
        if len(comp.generators) != 1 or comp.generators[0].is_async:
            raise Unsupported("nested comprehension in any/all")
        g = comp.generators[0]
        it = self.ev(g.iter, fr)
        segs = self.segments(it)
        eager = isinstance(comp, ast.ListComp)
        out = []
        for seg in segs:
            r = self.any_all_seg(which, comp, g, seg, fr, eager, out)
            if r is not None:
                return r
        return simp(zor(out) if which == "any" else zand(out))

    def any_all_seg(self, which, comp, g, seg, fr, eager, out):
        eng = self.eng
        isany = which == "any"

        def elem(k):
            sub = Frame(fr.fn, eng.new_serial(), fr)
            if fr.fn is None:
                sub.module = fr.module
            self.assign(g.target, seg.get(k), sub)
            conds = [self.test(x, sub) for x in g.ifs]
            v = self.test(comp.elt, sub)
            return zand(conds + [v]) if isany else zor([znot(zand(conds)), v])

        if isinstance(seg.n, int):
            for k in range(seg.n):
                if out:
                    # later elements are evaluated only if earlier ones did not decide
                    c = self.try_elem(elem, k)
                    if c is None:
                        v = self.branch(zor(out) if isany else zand(out))
                        if isany and v:
                            return True
                        if not isany and not v:
                            return False
                        out.clear()
                        c = elem(k)
                else:
                    c = self.try_elem(elem, k)
                    if c is None:
                        c = elem(k)
                c = simp(c)
                if isany and c is True and not eager:
                    if not out:
                        return True
                    out.append(True)
                    continue
                if not isany and c is False and not eager:
                    if not out:
                        return False
                out.append(c)
            return None
        # symbolic segment of characters: turn the condition into a class
        if seg.rope is not None and kind_of(seg.rope) in ("str", "bytes"):
            cs = self.char_class(comp, g, fr, kind_of(seg.rope), isany)
            if cs is not None:
                if isany:
                    out.append(znot(eng.allin(seg.rope, cs.complement())))
                else:
                    out.append(eng.allin(seg.rope, cs))
                return None
        if eng.valid(simp_le(seg.n, 8)):
            if self.nofork:
                raise NeedFork()
            k = 0
            while self.branch(simp_lt(k, seg.n)):
                c = simp(elem(k))
                if self.branch(c) == isany:
                    if eager:
                        out.append(isany)
                    else:
                        return isany
                k += 1
                if k > 8:
                    raise PathEnd()
            return None
        r = self.list_quantifier(which, comp, g, seg, fr, elem)
        if r is None:
            if self.nofork:
                raise NeedFork()
            raise Unsupported("any/all over a symbolic list")
        out.append(r)
        return None

    def list_quantifier(self, which, comp, g, seg, fr, elem):
        """any/all over a symbolic list: is there a first element that decides it?"""
        eng = self.eng
        if seg.rope is None or kind_of(seg.rope) != "list":
            return None
        ps = parts_of(seg.rope)
        if len(ps) != 1 or not isinstance(ps[0], Sl):
            return None
        cap = dict(fr.env)

        def cond(v):
            sub = Frame(fr.fn, eng.new_serial(), fr)
            if fr.fn is None:
                sub.module = fr.module
            sub.env.update(cap)
            self.assign(g.target, seg.wrap(v), sub)
            conds = [self.test(x, sub) for x in g.ifs]
            c = self.test(comp.elt, sub)
            return zand(conds + [c if which == "any" else znot(c)])

        lp = self.prims.list_pred(self, cond, eng.part_info(ps[0]))
        if lp is None:
            return None
        found = simp_lt(eng.first_index(ps[0], lp), eng.part_len(ps[0]))
        return found if which == "any" else znot(found)

    def try_elem(self, elem, k):
        self.nofork += 1
        old = getattr(self, "nofork_serial", 0)
        if self.nofork == 1:
            self.nofork_serial = self.eng.serial
        try:
            return simp(elem(k))
        except (NeedFork, PyRaise):
            return None
        finally:
            self.nofork -= 1
            self.nofork_serial = old

    def char_class(self, comp, g, fr, kind, isany):
        """CharSet of the elements for which the comprehension's condition holds."""
        eng = self.eng
        c = z3.Int("$c")
        sub = Frame(fr.fn, eng.new_serial(), fr)
        if fr.fn is None:
            sub.module = fr.module
        self.nofork += 1
        old = getattr(self, "nofork_serial", 0)
        if self.nofork == 1:
            self.nofork_serial = eng.serial
        try:
            self.assign(g.target, Rope("str", [Ch(c)]) if kind == "str" else c, sub)
            conds = [self.test(x, sub) for x in g.ifs]
            f = self.test(comp.elt, sub)
            f = zand(conds + [f]) if isany else zor([znot(zand(conds)), f])
        except (NeedFork, PyRaise):
            return None
        finally:
            self.nofork -= 1
            self.nofork_serial = old
        return formula_class(f, c)

    def ev_GeneratorExp(self, n, fr):
        return self.comprehension(n, fr)

    def ev_ListComp(self, n, fr):
        v = self.comprehension(n, fr)
        if isinstance(v, IterV):
            r = self.to_seq(v)
            return self.new_list(r)
        return self.new_list(v)

    def ev_SetComp(self, n, fr):
        v = self.comprehension(n, fr)
        v = self.to_seq(v) if isinstance(v, IterV) else v
        if isinstance(v, tuple) and all(isinstance(x, (str, int)) for x in v):
            return frozenset(v)
        raise Unsupported("set comprehension")

    def ev_elt(self, node, fr):
        """Element of a comprehension; a conditional element is kept undecided."""
        if isinstance(node, ast.IfExp) and not self.nofork:
            c = simp(self.test(node.test, fr))
            if isinstance(c, bool):
                return self.ev(node.body if c else node.orelse, fr)
            a, b = self.pure_ev(node.body, fr), self.pure_ev(node.orelse, fr)
            if a is not None and b is not None:
                return LazyV(z3.If(c, z3.IntVal(0), z3.IntVal(1)), [a[0], b[0]])
            return self.ev(node.body if self.branch(c) else node.orelse, fr)
        return self.ev(node, fr)

    def comprehension(self, n, fr):
        """Result elements as a list rope (tuple when concrete)."""
        eng = self.eng
        if len(n.generators) != 1:
            raise Unsupported("nested comprehension")
        g = n.generators[0]
        it = self.ev(g.iter, fr)
        parts = []
        for seg in self.segments(it):
            def one(k, seg=seg):
                sub = Frame(fr.fn, eng.new_serial(), fr)
                self.frames[sub.serial] = sub
                if fr.fn is None:
                    sub.module = fr.module
                self.assign(g.target, seg.get(k), sub)
                for c in g.ifs:
                    if not self.branch(self.test(c, sub)):
                        return None
                return (self.ev_elt(n.elt, sub),)

            if isinstance(seg.n, int):
                for k in range(seg.n):
                    r = one(k)
                    if r is not None:
                        parts.append(r)
                continue
            if eng.valid(simp_le(seg.n, 8)):
                k = 0
                while self.branch(simp_lt(k, seg.n)):
                    r = one(k)
                    if r is not None:
                        parts.append(r)
                    k += 1
                    if k > 8:
                        raise PathEnd()
                continue
            if isinstance(n.elt, ast.Name) and isinstance(g.target, ast.Name) and n.elt.id == g.target.id and not g.ifs and seg.rope is not None and not hasattr(seg, "match") and kind_of(seg.rope) == "list":
                parts.extend(parts_of(seg.rope))
                continue
            p = self.prims.list_map(self, n, g, seg, fr)
            if p is None:
                raise Unsupported("comprehension over a symbolic sequence")
            parts.extend(p)
        return eng.mk("list", parts)

    # ---- f-strings
    def ev_JoinedStr(self, n, fr):
        eng = self.eng
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.extend(parts_of(x.value))
            else:
                v = self.force(self.ev(x.value, fr))
                spec = ""
                if x.format_spec is not None:
                    s = self.ev(x.format_spec, fr)
                    if not isinstance(s, str):
                        raise Unsupported("dynamic format spec")
                    spec = s
                conv = chr(x.conversion) if x.conversion != -1 else ""
                parts.extend(parts_of(self.prims.format_value(self, v, conv, spec)))
        return eng.mk("str", parts)

    def ev_FormattedValue(self, n, fr):
        return self.ev_JoinedStr(ast.JoinedStr(values=[n]), fr)

    def ev_Starred(self, n, fr):
        raise Unsupported("starred")


def formula_class(f, c):
    """The CharSet {c | f(c)} if f mentions no other symbol, else None."""
    if f is True:
        return ANY
    if f is False:
        return CharSet([])
    consts = {0, MAXCP + 1}
    todo, seen = [f], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_int_value(e):
            v = e.as_long()
            for d in (v, v + 1):
                if 0 <= d <= MAXCP:
                    consts.add(d)
            if 0 <= -v <= MAXCP:
                consts.add(-v)
                consts.add(-v + 1)
        elif z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if not e.eq(c):
                return None
        elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return None
        elif z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_MOD, z3.Z3_OP_IDIV, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            return None
        todo.extend(e.children())
    pts = sorted(x for x in consts if x <= MAXCP)
    iv = []
    for i, lo in enumerate(pts):
        hi = (pts[i + 1] if i + 1 < len(pts) else MAXCP + 1) - 1
        r = z3.simplify(z3.substitute(f, (c, z3.IntVal(lo))))
        if z3.is_true(r):
            iv.append((lo, hi))
        elif not z3.is_false(r):
            return None
    return CharSet(iv)


# ---------------------------------------------------------------- loop contexts
import os as _os

DBG = bool(_os.environ.get("DBG"))


class LoopCtx:
    """Templates and predicates of one loop occurrence on the current path."""

    def __init__(self, it, info, entry, seg, entry_serial, fr, node):
        self.it = it
        self.eng = it.eng
        self.info = info
        self.entry = entry
        self.seg = seg
        self.entry_serial = entry_serial
        self.fr = fr
        self.node = node
        self.ghost = {}
        self.at = {}
        self.code_vals = {}
        self.kcur = 0

    # ---- position of the iterated string segment, if any
    @property
    def srope(self):
        """The sequence the loop walks through: the iterated rope (also under
        enumerate()), or the text a while loop indexes with a counter."""
        s = self.seg
        if s is not None:
            r = s.rope if s.rope is not None else s.trope
            return r
        w = self.wslice()
        return self.eng.mk("str", [w]) if w is not None else None

    def wslice(self):
        """while loop: (text, counter) such that the text is indexed by a local
        counter going up by one per iteration; its part from there on."""
        if self.seg is not None:
            return None
        info = self.info
        if not info.walk:
            texts = dict(self.texts())
            for n in [x for b in [getattr(self.node, "test", None)] + list(self.node.body) if b is not None for x in ast.walk(b)]:
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in texts and not info.walk:
                    ps = parts_of(texts[n.value.id])
                    if len(ps) != 1 or not isinstance(ps[0], Sl) or ps[0].fs:
                        continue
                    for y in ast.walk(n.slice):
                        if isinstance(y, ast.Name) and ("L", self.fr.serial, y.id) in info.havoc and not info.walk:
                            info.walk = (n.value.id, ("L", self.fr.serial, y.id))
        if not info.walk:
            return None
        name, loc = info.walk
        tm = info.havoc.get(loc)
        if tm is None or tm.cur != ("lin", 1):
            return None
        t, x0 = self.fr.env.get(name), self.snap(loc)
        if not isinstance(t, Rope) or isinstance(x0, LazyV):
            return None
        p = parts_of(t)[0]
        return Sl(p.a, iadd(p.lo, x0), p.hi)

    def seg_slice(self):
        r = self.srope
        if r is None:
            return None
        ps = parts_of(r)
        if len(ps) == 1 and isinstance(ps[0], Sl):
            return ps[0]
        return None

    def is_spec(self, loc):
        if loc[0] == "L":
            fn = self.it.frames[loc[1]].fn
            return fn is not None and not fn.module.name.startswith("urlstd")
        o = self.it.objs[loc[1]]
        if isinstance(o, Obj):
            return isinstance(o.cls, ClassV) and not o.cls.module.name.startswith("urlstd")
        return isinstance(o, ListV) and o.spec

    def order(self):
        locs = sorted(self.info.havoc, key=repr)
        return sorted(locs, key=lambda l: {None: 0, 0: 1, 1: 2}[self.spec_rank(l)])

    # ---- templates
    def value(self, loc, tm, k):
        eng, it = self.eng, self.it
        v0 = self.entry[loc]
        t = tm.cur
        kind = t[0]
        if kind == "same":
            return v0
        if isinstance(v0, LazyV):
            v0 = it.force(v0)
        if kind == "lin":
            return iadd(v0, simp(k * t[1]) if is_z3(k) else k * t[1])
        if kind == "freeint":
            v = eng.int("h_" + str(loc[-1]))
            return v
        if kind == "freebool":
            return eng.bool("h_" + str(loc[-1]))
        if kind == "freestr":
            return eng.sym_str("h_" + str(loc[-1]), t[1])
        if kind == "freelist":
            a = eng.atom("h_list" + str(loc[-1]), None, t[1])
            return Rope("list", [Sl(a, 0, LEN(a))])
        if kind == "freeints":
            return tuple(eng.int(f"h_{loc[-1]}_{i}") for i in range(t[1]))
        if kind == "freeopaquelist":
            a = eng.atom("h_list" + str(loc[-1]), None, ("opaque",))
            return Rope("list", [Sl(a, 0, LEN(a))])
        if kind == "union":
            alts = []
            for u in t[1]:
                if u == "none":
                    alts.append(None)
                elif u == "int":
                    alts.append(eng.int("h_" + str(loc[-1])))
                elif u == "str":
                    alts.append(eng.sym_str("h_" + str(loc[-1])))
                else:
                    alts.append(u)
            tag = eng.int("tag")
            eng.fact(z3.And(tag >= 0, tag < len(alts)))
            return LazyV(tag, alts)
        if kind == "acc":
            # v0 ++ map(seg[:k])
            p = self.seg_slice()
            part = Sl(p.a, p.lo, iadd(p.lo, k), p.fs + t[1] if t[1] is not None else ())
            return eng.mk(kind_of(v0), parts_of(v0) + [part])
        if kind == "rfilter":
            # the last k elements filtered: v0[:n-k] ++ map(v0[n-k:])
            n = eng.length(v0)
            a, b = eng.take(v0, isub(n, k))
            return eng.cat(a, it.prims.apply_fm(it, b, t[1]))
        if kind == "acclist":
            p = self.seg_slice()
            part = Sl(p.a, p.lo, iadd(p.lo, k), p.fs + t[1] if t[1] is not None else ())
            return eng.mk("list", parts_of(v0) + [part])
        if kind == "tail":
            # s[j:lo+k] (with maps) for a ghost j shared by all "tail" locations
            p = self.seg_slice()
            if "j" not in self.ghost:
                j = eng.int("j")
                eng.fact(z3.And(j >= self.tail_floor(), j <= iadd(p.lo, k)))
                self.ghost["j"] = j
            j = self.ghost["j"]
            body = Sl(p.a, j, iadd(p.lo, k), t[1])
            return eng.mk(kind_of(v0), [body])
        if kind == "pair":
            w = self.code_vals[t[1]]
            return self.apply_maps(w, t[2])
        raise Unsupported("template " + kind)

    def tail_floor(self):
        return self.seg_slice().lo

    def apply_maps(self, v, fs):
        if not fs:
            return v
        out = []
        for p in parts_of(v):
            if isinstance(p, str):
                for f in fs:
                    p = MAPS[f].const(p)
                out.append(p)
            elif isinstance(p, Sl):
                out.append(Sl(p.a, p.lo, p.hi, p.fs + fs))
            else:
                raise Unsupported("map of character")
        return self.eng.mk("str", out)

    def havoc(self, k):
        self.ghost = {}
        self.code_vals = {}
        self.kcur = k
        if self.seg is None:
            w = self.wslice()
            used = [tm for tm in self.info.havoc.values() if tm.cur[0] in ("acc", "tail")]
            if used and w is not None and self.info.walk_ok is None:
                self.eng.nolog = True
                try:
                    self.info.walk_ok = bool(self.eng.valid(simp_le(w.lo, w.hi)))
                finally:
                    self.eng.nolog = False
            if used and (w is None or not self.info.walk_ok):
                for tm in used:
                    while tm.cur[0] in ("acc", "tail"):
                        tm.weaken()
            elif used:
                # invariant: the counter is within the text (see end())
                self.eng.assume(simp_le(iadd(w.lo, k), w.hi))
        order = self.order()
        late = [l for l in order if self.info.havoc[l].cur[0] == "rfilter"]
        if late:
            order = [l for l in order if l not in late] + late
        for loc in order:
            if loc in late and loc == late[0]:
                for name, f in self.preds:
                    if name.startswith("test "):
                        self.eng.assume(f())
            v = self.value(loc, self.info.havoc[loc], k)
            self.code_vals[loc] = v
            self.it.put_loc(loc, v)

    # ---- predicates
    def add_preds_at_entry(self):
        """Candidate predicates must hold when the loop is entered."""
        self.preds = []
        cands = self.candidates()
        for name, f in cands:
            alive = self.info.preds.get(name)
            if alive is False:
                continue
            if alive is None:
                self.eng.nolog = True  # asked once: not part of the replay log
                try:
                    ok = self.eng.valid(f())
                except (Unsupported, PyRaise, KeyError):
                    ok = False
                finally:
                    self.eng.nolog = False
                self.info.preds[name] = ok
                if DBG:
                    print("LOOP pred at entry", name, ok)
                alive = ok
            if alive:
                self.preds.append((name, f))

    def texts(self):
        """String variables the loop does not assign."""
        return [(n, v) for n, v in sorted(self.fr.env.items()) if isinstance(v, Rope) and v.kind == "str" and ("L", self.fr.serial, n) not in self.info.havoc] if self.fr.fn is not None else []

    def candidates(self):
        it, eng = self.it, self.eng
        out = []
        bools, ints = [], []
        for loc in self.order():
            tm = self.info.havoc[loc]
            k = tm.cur[0]
            if k == "freebool":
                bools.append(loc)
            if k in ("freeint", "lin"):
                ints.append(loc)
                if k == "freeint":
                    v0 = self.entry[loc]
                    out.append((f"{loc}>=entry", lambda loc=loc, v0=v0: simp_le(v0, it.get_loc(loc))))
                    out.append((f"{loc}>=0", lambda loc=loc: simp_le(0, it.get_loc(loc))))
            if k in ("acc", "tail"):
                for cname, cs in it.str_classes:
                    out.append((f"{loc} in {cname}", lambda loc=loc, cs=cs: eng.allin(it.get_loc(loc), cs)))
        for b in bools:
            if not self.is_spec(b):
                continue
            for c in bools:
                if not self.is_spec(c):
                    out.append((f"{b}=={c}", lambda b=b, c=c: zeq(it.get_loc(b), it.get_loc(c))))
        il = [l for l in ints if self.info.havoc[l].cur[0] == "freeint"]
        for x in il:
            for y in il:
                if x < y and self.is_spec(x) != self.is_spec(y):
                    out.append((f"{x}=={y}", lambda x=x, y=y: zeq(it.get_loc(x), it.get_loc(y))))
        for loc in self.order():
            if self.info.havoc[loc].cur[0] in ("freelist", "freeopaquelist"):
                for x in il:
                    out.append((f"len {loc}=={x}", lambda loc=loc, x=x: zeq(eng.length(it.get_loc(loc)), it.get_loc(x))))
            if self.info.havoc[loc].cur[0] == "freeints":
                for b in (8, 16, 32):
                    out.append((f"{loc} is {b}-bit", lambda loc=loc, b=b: zand([zand([simp_le(0, x), simp_lt(x, 2**b)]) for q in parts_of(it.get_loc(loc)) for x in q])))
        out.extend(self.test_preds())
        if self.seg is None:
            # an index into a string stays within it
            for n, v in self.texts():
                for x in ints:
                    if not self.is_spec(x):
                        out.append((f"{x}<=len({n})", lambda x=x, v=v: simp_le(it.get_loc(x), eng.length(v))))
        for a, lo, lp, f in eng.firsts:
            nm = f"first {f.sexpr()}"
            if self.seg is not None:
                out.append((f"k<={nm}", lambda f=f: simp_le(self.kcur, f)))
            for x in ints:
                if not self.is_spec(x):
                    out.append((f"{x}<={nm}", lambda x=x, f=f: simp_le(it.get_loc(x), f)))
        p = self.seg_slice()
        if p is not None and not p.fs and kind_of(self.srope) in ("str", "bytes"):
            # the classes the specification asks about hold for what was read so far
            for l2, h2, cs, _ in list(eng.classes.get(p.a.get_id(), [])):
                if same_int(l2, p.lo) and same_int(h2, p.hi):
                    out.append((f"read so far in {cs.name()}", lambda p=p, cs=cs: eng.slice_allin(p.a, p.lo, iadd(p.lo, self.kcur), cs)))
            # and the classes the loop tests its character against
            for cs in self.tested_classes():
                out.append((f"read so far in {cs.name()} (tested)", lambda p=p, cs=cs: eng.slice_allin(p.a, p.lo, iadd(p.lo, self.kcur), cs)))
        if it.task_preds is not None:
            out.extend(it.task_preds(it, self))
        return out

    def tested_classes(self):
        out = []
        tgt = {x.id for x in ast.walk(self.node.target) if isinstance(x, ast.Name)} if isinstance(self.node, ast.For) else set()
        for b in self.node.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.left, ast.Name) and x.left.id in tgt and isinstance(x.ops[0], (ast.In, ast.NotIn, ast.Eq, ast.NotEq)):
                    y = x.comparators[0]
                    v = None
                    if isinstance(y, ast.Constant):
                        v = y.value
                    elif isinstance(y, ast.Name) and y.id not in self.fr.env:
                        try:
                            v = self.it.lookup(y.id, self.fr)
                        except (Unsupported, PyRaise):
                            v = None
                    if isinstance(v, (str, frozenset)) and v and all(isinstance(z, str) and len(z) == 1 for z in v):
                        cs = self.it.prims.CharSet.of("".join(v))
                        for q in (cs, cs.complement()):
                            if all(q.name() != o.name() for o in out):
                                out.append(q)
        return out

    def test_preds(self):
        """while a < b: a <= b is a candidate (a > b: a >= b)."""
        t = getattr(self.node, "test", None)
        todo, out = [t] if t is not None else [], []
        while todo:
            x = todo.pop()
            if isinstance(x, ast.BoolOp) and isinstance(x.op, ast.And):
                todo.extend(x.values)
            elif isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Lt, ast.Gt)):

                def f(x=x):
                    a, b = self.it.pure_ev(x.left, self.fr), self.it.pure_ev(x.comparators[0], self.fr)
                    if a is None or b is None or not is_int(a[0]) or not is_int(b[0]):
                        raise Unsupported("test")
                    a, b = as_int(a[0]), as_int(b[0])
                    return simp_le(a, b) if isinstance(x.ops[0], ast.Lt) else simp_le(b, a)

                out.append(("test " + ast.unparse(x), f))
        return out

    def assume_preds(self):
        for name, f in self.preds:
            self.eng.assume(f())

    # ---- end of an arbitrary iteration
    def end(self, k, writes):
        it, eng, info = self.it, self.eng, self.info
        changed = False
        k1 = iadd(k, 1)
        self.kcur = k1
        known = set(info.havoc)
        counter = lambda l: l[0] == "L" and l[1] in it.frames and isinstance(it.frames[l[1]].env.get(l[2]), (int, z3.ArithRef))
        for loc in sorted(writes, key=lambda l: (not counter(l), repr(l))):
            if loc in info.havoc:
                continue
            if loc[0] == "L":
                fr = it.frames.get(loc[1])
                if fr is None or loc[1] > self.entry_serial:
                    continue
                if loc[2].startswith("$"):
                    continue
                if fr is self.fr and (loc[2] in info.poison):
                    continue
                cur = fr.env.get(loc[2], POISON)
                had = loc[2] in self.entry_env(fr)
                if not had:
                    info.poison.add(loc[2])
                    changed = True
                    continue
                self.new_loc(loc, self.entry_env(fr)[loc[2]], cur, k)
                changed = True
            elif loc[1] <= self.entry_serial:
                if loc[0] == "D":
                    raise Unsupported("dictionary changed in a symbolic loop")
                o = it.objs[loc[1]]
                cur = it.get_loc(loc)
                e = self.entry_heap(loc)
                self.new_loc(loc, e, cur, k)
                changed = True
        new = set(info.havoc) - known
        if any(not self.is_spec(l) for l in new):
            # new locations of the code: specification locations are looked at
            # again, as they may now be paired with one of them
            for l in [l for l in info.havoc if self.is_spec(l)]:
                del info.havoc[l]
        if new:
            self.reset_spec()
        if changed:
            self.restart()
        ends = {loc: self.safe_get(loc) for loc in info.havoc}
        jn = None
        code_changed = False
        for loc in self.order():
            tm = info.havoc[loc]
            if code_changed and self.is_spec(loc):
                # the code side has changed: specification templates start again
                self.reset_spec()
                break
            ok, j2 = self.check(loc, tm, k1, ends, jn)
            if j2 is not None:
                jn = j2
            if not ok:
                if DBG:
                    print("LOOP weaken", loc, tm.cur, ends[loc])
                if not self.weaken(loc, tm, ends[loc], k):
                    raise Unsupported(f"no invariant template for {loc}")
                changed = True
                code_changed = code_changed or not self.is_spec(loc)
                if self.spec_rank(loc) == 0:
                    for l2 in info.havoc:
                        if self.spec_rank(l2) == 1:
                            info.havoc[l2].i = 0
        if changed:
            self.restart()
        for name, f in self.preds:
            if not eng.valid(f()):
                info.preds[name] = False
                if DBG:
                    print("LOOP pred dropped", name)
                changed = True
        if changed:
            self.restart()

    def spec_rank(self, loc):
        """0: the Standard's machine itself, 1: what it computes (whose
        invariants depend on those of the machine); None: the code."""
        if not self.is_spec(loc):
            return None
        o = self.it.objs.get(loc[1]) if loc[0] != "L" else None
        return 0 if isinstance(o, Obj) and o.cls.name in ("Machine", "V6Machine") else 1

    def reset_spec(self):
        for l, tm in self.info.havoc.items():
            if self.is_spec(l):
                tm.i = 0
        self.info.preds.clear()

    def safe_get(self, loc):
        try:
            return self.it.get_loc(loc)
        except KeyError:
            return POISON

    def restart(self):
        self.info.rounds += 1
        if self.info.rounds > 150:
            raise Unsupported("loop invariant inference did not stabilise")
        self.eng.stats.restarts += 1
        raise Restart(self.info)

    def entry_env(self, fr):
        return self.snap_env[fr.serial]

    def entry_heap(self, loc):
        return self.snap_heap[loc]

    def new_loc(self, loc, v0, v1, k):
        self.info.havoc[loc] = Tmpl(self.ladder(loc, v0, v1, k))

    def weaken(self, loc, tm, v1, k):
        if tm.cur[0] in ("union",):
            # extend the union by the observed kind
            u = self.kinds(v1)
            new = tuple(dict.fromkeys(tm.cur[1] + u))
            if new != tm.cur[1]:
                tm.ladder[tm.i] = ("union", new)
                return True
            return False
        return tm.weaken()

    def kinds(self, v):
        v = self.it.lazy_peek(v) if isinstance(v, LazyV) else v
        if isinstance(v, LazyV):
            out = ()
            for a in v.alts:
                out += self.kinds(a)
            return tuple(dict.fromkeys(out))
        if v is None:
            return ("none",)
        if isinstance(v, (bool, z3.BoolRef)):
            raise Unsupported("union with bool")
        if isinstance(v, (int, z3.ArithRef)):
            return ("int",)
        if is_strlike(v):
            return ("str",)
        if isinstance(v, EnumM):
            return (v,)
        raise Unsupported(f"loop-carried value {v!r}")

    def ladder(self, loc, v0, v1, k):
        it, eng = self.it, self.eng
        spec = self.is_spec(loc)
        out = []
        p = self.seg_slice()
        if isinstance(v0, LazyV):
            v0 = it.lazy_peek(v0)
        if isinstance(v0, (bool, z3.BoolRef)):
            out = [("freebool",)]
        elif isinstance(v0, (int, z3.ArithRef)) and isinstance(v1, (int, z3.ArithRef)) and not isinstance(v1, z3.BoolRef):
            d = isub(v1, v0)
            out = [("lin", 1), ("lin", -1), ("freeint",)]
            if type(d) is int and d == -1:
                out = [("lin", -1), ("lin", 1), ("freeint",)]
            if spec:
                out = [("lin", 1)] + self.pairs(loc, "int") + [("lin", -1), ("freeint",)]
        elif is_strlike(v0):
            cls = it.free_cls.get(loc[-1])
            out = []
            tail_ok = p is not None and isinstance(v0, str) and v0 == ""
            if spec:
                out += self.pairs(loc, "str")
            if p is not None and kind_of(self.srope) == "str":
                maps = self.observed_maps(v1)
                for m in maps:
                    out.append(("acc", m))
                if tail_ok:
                    for m in maps:
                        out.append(("tail", m))
            elif p is not None and kind_of(self.srope) == "list":
                for m in it.prims.flat_map_of(it, self, v0, v1, k):
                    out.append(("acc", (m,)))
            if cls is not None and loc[0] == "F":
                out.append(("freestr", cls))
            out.append(("freestr", None))
        elif loc[0] == "M":
            out = self.list_ladder(loc, v0, v1, k)
        elif isinstance(v0, ListV):
            # rebinding of a list-valued field
            if spec:
                out += self.pairs(loc, "listref")
            out.append(("unsupported",))
        else:
            if spec:
                out += self.pairs(loc, "any")
            out.append(("union", tuple(dict.fromkeys(self.kinds(v0) + self.kinds(v1)))))
        return out

    def list_ladder(self, loc, v0, v1, k):
        it, eng = self.it, self.eng
        out = []
        if self.is_spec(loc):
            out += self.pairs(loc, "list")
        info = None
        for q in parts_of(v0) + parts_of(v1):
            if isinstance(q, Sl):
                info = eng.part_info(q)
                if info:
                    break
        p = self.seg_slice()
        if p is not None and kind_of(self.srope) == "list" and not it.prims.same_rope(eng, v0, v1):
            for m in it.prims.list_map_of(it, self, v0, v1, k):
                out.append(("acclist", (m,)))
            out.append(("acclist", ()))
            if p.fs:
                out.append(("acclist", None))
            if not self.is_spec(loc):
                m = it.prims.appended_map(it, self, v0, v1, k)
                if m is not None and ("acclist", (m,)) not in out:
                    out.append(("acclist", (m,)))
        if not self.is_spec(loc):
            for m in it.eng.fms:
                if MAPS[m].filter:
                    out.append(("rfilter", m))
        if info is None:
            items = [x for q in parts_of(v0) + parts_of(v1) if isinstance(q, tuple) for x in q]
            if items and all(is_strlike(x) for x in items):
                info = ("str", it.free_cls.get("path[]"))
            elif items and all(isinstance(x, (int, z3.ArithRef)) for x in items):
                n0, n1 = eng.length(v0), eng.length(v1)
                if type(n0) is not int or type(n1) is not int or n0 != n1 or n0 > 16:
                    raise Unsupported("list of ints changed in a symbolic loop")
                out.append(("freeints", n0))
                return out
        if info is not None and info[0] == "str":
            if info[1] is not None:
                out.append(("freelist", info))
                if len(info) > 2:
                    out.append(("freelist", info[:2]))
            out.append(("freelist", ("str", None)))
        elif info is not None:
            out.append(("freelist", info))
        else:
            out.append(("freeopaquelist",))
        return out

    def observed_maps(self, v1):
        ms = [()]
        for q in parts_of(v1) if kind_of(v1) else []:
            if isinstance(q, Sl) and q.fs and q.fs not in ms:
                p = self.seg_slice()
                if p is not None and q.a.eq(p.a):
                    ms.insert(0, q.fs)
        return ms

    def pairs(self, loc, kind):
        """Pair templates with the code-side locations (equal at entry)."""
        out = []
        it, eng = self.it, self.eng
        v0 = self.snap(loc)
        for l2 in sorted(self.info.havoc, key=repr):
            if self.is_spec(l2) or l2 == loc:
                continue
            w0 = self.snap(l2)
            if kind == "str":
                if not is_strlike(w0) and not isinstance(w0, LazyV):
                    continue
                cand = [()] + [m for m in self.known_map_stacks()]
                for fs in cand:
                    try:
                        w = self.apply_maps(w0, fs) if fs else w0
                    except Unsupported:
                        continue
                    if eng.valid(it.eq_nofork_safe(v0, w)):
                        out.append(("pair", l2, fs))
            elif kind == "int":
                if isinstance(w0, (int, z3.ArithRef)) and not isinstance(w0, bool) and eng.valid(zeq(v0, w0)):
                    out.append(("pair", l2, ()))
            elif kind == "list":
                if l2[0] == "M" and eng.valid(it.eq_nofork_safe(v0, w0)):
                    out.append(("pair", l2, ()))
            elif kind == "any":
                if isinstance(w0, ListV) or isinstance(w0, Obj):
                    continue
                if eng.valid(it.eq_nofork_safe(v0, w0)):
                    out.append(("pair", l2, ()))
        # prefer fields of the same name
        out.sort(key=lambda t: (t[1][-1] != loc[-1], len(t[2])))
        return out

    def known_map_stacks(self):
        return [(m,) for m in sorted(MAPS) if m.startswith(("PE_", "LOWER"))]

    def snap(self, loc):
        if loc in self.entry:
            return self.entry[loc]
        if loc[0] == "L":
            return self.snap_env[loc[1]][loc[2]]
        return self.snap_heap[loc]

    def check(self, loc, tm, k1, ends, jn):
        """Does the location have its template value at k+1?  (ok, ghost j')"""
        it, eng = self.it, self.eng
        t = tm.cur
        v1 = ends[loc]
        kind = t[0]
        if v1 is POISON:
            raise Unsupported(f"{loc} deleted in loop")
        if kind == "freebool":
            return isinstance(v1, (bool, z3.BoolRef)), None
        if kind == "freeint":
            return isinstance(v1, (int, z3.ArithRef)) and not isinstance(v1, (bool, z3.BoolRef)), None
        if kind == "freestr":
            if not is_strlike(v1):
                return False, None
            return (t[1] is None or eng.valid(eng.allin(v1, t[1]))), None
        if kind == "freelist":
            return it.prims.list_fits(it, v1, t[1]), None
        if kind == "freeints":
            ps = parts_of(v1)
            return len(ps) == 1 and isinstance(ps[0], tuple) and len(ps[0]) == t[1] and all(isinstance(x, (int, z3.ArithRef)) and not isinstance(x, (bool, z3.BoolRef)) for x in ps[0]), None
        if kind == "freeopaquelist":
            return True, None
        if kind == "union":
            try:
                return all(u in t[1] for u in self.kinds(v1)), None
            except Unsupported:
                return False, None
        if kind == "lin":
            if not isinstance(v1, (int, z3.ArithRef)) or isinstance(v1, (bool, z3.BoolRef)):
                return False, None
            return eng.valid(zeq(v1, self.value(loc, tm, k1))), None
        if self.seg is None and kind in ("acc", "tail"):
            w = self.wslice()
            if w is None or not eng.valid(simp_le(iadd(w.lo, k1), w.hi)):
                return False, None
        if kind in ("acc", "acclist", "rfilter"):
            if kind_of(v1) is None:
                return False, None
            return eng.valid(it.eq_nofork_safe(v1, self.value(loc, tm, k1))), None
        if kind == "tail":
            p = self.seg_slice()
            if not is_strlike(v1):
                return False, None
            ps = parts_of(v1)
            hi = iadd(p.lo, k1)
            if not ps:
                j2 = hi
            elif len(ps) == 1 and isinstance(ps[0], Sl) and ps[0].a.eq(p.a) and ps[0].fs == t[1] and (same_int(ps[0].hi, hi) or eng.valid(ps[0].hi == hi)):
                j2 = ps[0].lo
            else:
                return False, None
            if jn is not None and not (same_int(jn, j2) or eng.valid(zeq(jn, j2))):
                return False, None
            return True, j2
        if kind == "pair":
            w = ends[t[1]]
            try:
                w = self.apply_maps(w, t[2]) if t[2] else w
            except Unsupported:
                return False, None
            return eng.valid(it.eq_nofork_safe(v1, w)), None
        return False, None
