"""Loads the program under verification from /repo's current source, and the
specification modules, into the interpreter's module tables."""
import ast
import os
import pickle
import subprocess
import sys

from .core import Unsupported


class EnumM:
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return f"{self.cls}.{self.name}"

    def __eq__(self, o):
        if isinstance(o, EnumM):
            return self.value == o.value
        return self.value == o

    def __hash__(self):
        return hash(self.value)


class RegexV:
    def __init__(self, pattern, flags):
        self.pattern, self.flags = pattern, flags


class ClassV:
    def __init__(self, name, bases, module):
        self.name = name
        self.bases = bases  # ClassV or native types or names
        self.module = module
        self.ns = {}
        self.fields = None  # dataclass / NamedTuple fields: [(name, default expr)]
        self.kind = "plain"
        self.node = None

    def mro(self):
        yield self
        for b in self.bases:
            if isinstance(b, ClassV):
                yield from b.mro()

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name]
        return None

    def issub(self, other):
        if isinstance(other, ClassV):
            return any(c is other for c in self.mro())
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, type) and isinstance(other, type) and issubclass(b, other):
                    return True
        return False

    def __repr__(self):
        return f"<class {self.name}>"


class FuncV:
    def __init__(self, node, module, cls=None, closure=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.closure = closure
        self.kind = "function"  # classmethod, staticmethod, property, setter
        self.fset = None
        self.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(node)) if not isinstance(node, ast.Lambda) else False
        self.name = getattr(node, "name", "<lambda>")

    @property
    def qualname(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def __repr__(self):
        return f"<function {self.module.name}:{self.qualname}>"


def _own_nodes(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class Module:
    def __init__(self, name):
        self.name = name
        self.ns = {}

    def __repr__(self):
        return f"<module {self.name}>"


def unplain(v, enums):
    if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0].startswith("$"):
        k = v[0]
        if k == "$enum":
            return EnumM(v[1], v[2], v[3])
        if k == "$re":
            return RegexV(v[1], v[2])
        if k == "$set":
            return frozenset(unplain(x, enums) for x in v[1])
        if k == "$dict":
            return {unplain(a, enums): unplain(b, enums) for a, b in v[1]}
        if k == "$list":
            return [unplain(x, enums) for x in v[1]]
        if k == "$tuple":
            return tuple(unplain(x, enums) for x in v[1])
    return v


NATIVE_EXC = {n: getattr(__builtins__, n) if not isinstance(__builtins__, dict) else __builtins__[n] for n in (
    "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "AssertionError", "NotImplementedError", "UnicodeError",
    "UnicodeEncodeError", "UnicodeDecodeError", "Exception", "RuntimeError", "LookupError", "OverflowError", "ArithmeticError", "ZeroDivisionError", "StopIteration", "RecursionError", "NameError", "UnboundLocalError", "BaseException")}


class Program:
    """urlstd's modules as data for the interpreter."""

    def __init__(self, repo, py="/opt/venv/bin/python", data=None):
        self.repo = repo
        src = os.path.join(repo, "src")
        if data is None:
            here = os.path.dirname(os.path.abspath(__file__))
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
            r = subprocess.run([py, os.path.join(here, "dump.py"), src], capture_output=True, env=env)
            if r.returncode != 0:
                raise RuntimeError("urlstd does not import: " + r.stderr.decode()[-1500:])
            data = r.stdout
        self.data = data
        d = pickle.loads(data)
        self.icu_consts = d["icu"]
        self.err = self.load(os.path.join(src, "urlstd", "error.py"), "urlstd.error", d, {})
        self.parse = self.load(os.path.join(src, "urlstd", "parse.py"), "urlstd.parse", d, {n: v for n, v in self.err.ns.items() if isinstance(v, ClassV)})
        self.functions = {}
        for m in (self.err, self.parse):
            for v in m.ns.values():
                if isinstance(v, FuncV):
                    self.functions[v.qualname] = v
                elif isinstance(v, ClassV):
                    for f in v.ns.values():
                        if isinstance(f, FuncV):
                            self.functions[f.qualname] = f

    def load(self, path, name, d, imported):
        m = Module(name)
        tree = ast.parse(open(path, encoding="utf-8").read())
        m.tree = tree
        m.ns.update(imported)
        for k, v in d["mod"].items():
            if name == "urlstd.parse":
                m.ns.setdefault(k, unplain(v, d["enums"]))
        load_defs(m, tree.body, d)
        return m


def load_defs(m, body, d):
    for n in body:
        if isinstance(n, ast.FunctionDef):
            f = FuncV(n, m)
            m.ns[n.name] = f
        elif isinstance(n, ast.ClassDef):
            m.ns[n.name] = load_class(m, n, d)
        elif isinstance(n, (ast.If, ast.Try, ast.With)):
            load_defs(m, n.body, d)


def load_class(m, n, d):
    bases = []
    kind = "plain"
    for b in n.bases:
        if isinstance(b, ast.Name):
            v = m.ns.get(b.id)
            if isinstance(v, ClassV):
                bases.append(v)
            elif b.id in NATIVE_EXC:
                bases.append(NATIVE_EXC[b.id])
            elif b.id == "NamedTuple":
                kind = "namedtuple"
            else:
                bases.append(b.id)
        elif isinstance(b, ast.Attribute):
            bases.append(b.attr)
            if b.attr in ("IntEnum", "Enum"):
                kind = "enum"
            if b.attr == "NamedTuple":
                kind = "namedtuple"
        else:
            bases.append("?")
    c = ClassV(n.name, bases, m)
    c.node = n
    for dec in n.decorator_list:
        t = dec.func if isinstance(dec, ast.Call) else dec
        nm = t.id if isinstance(t, ast.Name) else getattr(t, "attr", "")
        if nm == "dataclass":
            kind = "dataclass"
            c.frozen = isinstance(dec, ast.Call) and any(k.arg == "frozen" and getattr(k.value, "value", False) for k in dec.keywords)
            if isinstance(dec, ast.Call) and any(k.arg not in ("eq", "frozen", "repr", "order") for k in dec.keywords):
                kind = "unsupported-dataclass"
            c.dc_eq = not (isinstance(dec, ast.Call) and any(k.arg == "eq" and getattr(k.value, "value", None) is False for k in dec.keywords))
        else:
            kind = "unsupported"
    c.kind = kind
    data = (d or {}).get("cls", {}).get(n.name, {})
    for k, v in data.items():
        c.ns[k] = unplain(v, None)
    if kind == "enum":
        for nm, val in d["enums"].get(n.name, []):
            c.ns[nm] = EnumM(n.name, nm, val)
    fields = []
    for s in n.body:
        if isinstance(s, ast.FunctionDef):
            f = FuncV(s, m, c)
            skip = False
            for dec in s.decorator_list:
                nm = dec.id if isinstance(dec, ast.Name) else getattr(dec, "attr", "?")
                if nm == "overload":
                    skip = True
                elif nm in ("classmethod", "staticmethod", "property"):
                    f.kind = nm
                elif nm == "setter":
                    p = c.ns.get(s.name)
                    p.fset = f
                    f.kind = "setter"
                    skip = True
                    m_ = getattr(c, "setters", {})
                    m_[s.name] = f
                    c.setters = m_
                else:
                    f.kind = "unsupported"
            if not skip:
                c.ns[s.name] = f
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            fields.append((s.target.id, s.value))
    if kind in ("dataclass", "namedtuple"):
        c.fields = fields
        for nm, _ in fields:
            c.ns.pop(nm, None)
    return c


class SpecModules:
    """The specification functions (spec/*.py)."""

    NAMES = ("speclib", "hostspec", "urlspec", "apispec")

    def __init__(self, root):
        self.dir = os.path.join(root, "spec")
        if self.dir not in sys.path:
            sys.path.insert(0, self.dir)
        self.mods = {}
        self.native = {}
        for n in self.NAMES:
            path = os.path.join(self.dir, n + ".py")
            if not os.path.exists(path):
                continue
            native = __import__(n)
            self.native[n] = native
            m = Module(n)
            tree = ast.parse(open(path, encoding="utf-8").read())
            defs = {}
            for s in tree.body:
                if isinstance(s, ast.FunctionDef):
                    defs[s.name] = FuncV(s, m)
                elif isinstance(s, ast.ClassDef):
                    defs[s.name] = load_class(m, s, {})
            for k, v in vars(native).items():
                if k.startswith("__"):
                    continue
                if k in defs:
                    m.ns[k] = defs[k]
                elif callable(v) and getattr(v, "__module__", None) in self.mods and k in self.mods[v.__module__].ns:
                    m.ns[k] = self.mods[v.__module__].ns[k]
                elif isinstance(v, (str, int, bytes, frozenset, tuple, dict)) or v is None:
                    m.ns[k] = v
            for k, v in list(m.ns.items()):
                if isinstance(v, dict) and v and all(callable(x) for x in v.values()):
                    m.ns[k] = {a: m.ns[b.__name__] for a, b in v.items()}
            self.mods[n] = m

    def fn(self, name):
        for m in reversed(list(self.mods.values())):
            if name in m.ns:
                return m.ns[name]
        raise Unsupported("no specification function " + name)
