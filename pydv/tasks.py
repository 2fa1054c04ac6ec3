"""Verification tasks: which contracts decide which property."""
import z3

from .core import *
from .core import simp_le
from .driver import Task
from .interp import BoundM, POISON, is_strlike
from .source import ClassV, EnumM, FuncV, NATIVE_EXC

LEVEL = {}
BOUNDED = {}
A_CODEC = "CPython's UTF-8 codec, urllib.parse.quote/unquote_to_bytes and str.encode(errors=...) behave as the laws in pydv/prims.py say (evaluated natively by conc/laws.py in the same run)"
A_STR = "str.split/join/partition/strip/lower and the regular expressions of parse.py follow the laws in pydv/prims.py (evaluated natively by conc/laws.py in the same run)"
A_ICU = "ICU: IDNA.name_to_ascii/name_to_unicode are unknown functions of (text, options) giving a text and an error set or raising ICUError; a returned text has no surrogates; icu.UnicodeString and str() convert without loss"
A_STATE = "BasicURLParser.parse and its state handlers are called by the API with UTF-8 only (other encodings of query are not covered)"
A_LOG = "logging handlers and formatters do not raise; IDNA._errors_to_string returns a str for every flag set (evaluated natively)"
A_ALIAS = "callers do not reach into private attributes (_url, _query, _list) or the URLRecord of a live URL"
A_PARSE = [A_STR, A_CODEC, A_ICU, A_STATE, A_LOG]
ASSUME = {
    "C01": A_PARSE + ["the induction over handlers (each handler preserves the machine's outcome, the dispatcher runs them in turn) is the meta-argument of DESIGN.md; its premises are the obligations of tasks parser_* and parser_dispatch", "equality is proved for scalar-value inputs; in the path, opaque path and fragment states inputs with surrogates are covered by C02's obligations only"],
    "C02": A_PARSE,
    "C03": A_PARSE + [A_ALIAS],
    "C04": A_PARSE + [A_ALIAS, "path segments of inputs with lone surrogates: bounded only"],
    "C05": [A_STR],
    "C06": [A_CODEC],
    "C07": [A_STR, "int(text, base) is the value of the digits and raises ValueError beyond 4300 decimal digits"],
    "C08": [A_STR, "int(text, 16) is the value of the digits", "the character machine for IPv6 in spec/hostspec.py equals the Standard's pointer algorithm (compared natively by conc/props.py)"],
    "C09": [A_ICU, A_CODEC, A_LOG],
    "C10": [A_STR, A_CODEC],
    "C11": [A_STR, A_CODEC, "list.sort is a stable sort by its key", "dict constructor arguments: at most two entries (bounded)"],
    "C12": [A_STR, A_CODEC, A_ALIAS, "the parser changes exactly the components allowed by its state override (C03)"],
    "C13": [A_ALIAS],
    "C14": [A_STR, "the parser's result for a blob path is an unknown function (C01 decides it)"],
    "C15": A_PARSE,
    "C16": [A_STR, "the parser's result is an unknown function with the invariants of C04 (C01, C04 decide it)"],
    "C17": A_PARSE + [
        "ICU's ToASCII leaves dotted-decimal IPv4 addresses alone, and (as the statement says) the domain in question; its output is ASCII",
        "the induction over the machine's run (each step leads from one configuration of the family to the next) and the composition with C01, C04 and C05 are the meta-argument of DESIGN.md 2.2; the premises are the obligations",
        "inputs with surrogates: bounded only",
    ],
}

# ------------------------------------------------------------------ helpers
FIELDS = ("scheme", "username", "password", "host", "port", "path", "query", "fragment")


def code(it, qual):
    f = it.prog.functions.get(qual)
    if f is None:
        raise Unsupported(f"{qual} is not defined")
    return f


def cls(it, name):
    c = it.prog.parse.ns.get(name) or it.prog.err.ns.get(name)
    if not isinstance(c, ClassV):
        raise Unsupported(f"class {name} is not defined")
    return c


def callm(it, obj, name, *args, **kw):
    """obj.name(*args) on a code object or class."""
    return it.call(it.getattr(obj, name), list(args), kw)


def callf(it, name, *args, **kw):
    f = it.prog.parse.ns.get(name)
    if f is None:
        raise Unsupported(f"{name} is not defined")
    return it.call(f, list(args), kw)


def spec(it, name, *args, **kw):
    return it.call(it.spec.fn(name), list(args), kw)


def lazy(it, name, alts):
    tag = it.eng.int("tag_" + name)
    it.eng.fact(z3.And(tag >= 0, tag < len(alts)))
    return LazyV(tag, alts)


def sym_str(it, name, cs=SCALAR):
    return it.eng.sym_str(name, cs)


def sym_list(it, name, cs=SCALAR):
    a = it.eng.atom(name, None, ("str", cs))
    return it.eng.mk("list", [Sl(a, 0, LEN(a))])


def sym_pairs(it, name, cs=SCALAR):
    a = it.eng.atom(name, None, ("pair", cs))
    return it.eng.mk("list", [Sl(a, 0, LEN(a))])


def ranged(it, name, lo, hi):
    v = it.eng.int(name)
    it.eng.fact(z3.And(v >= lo, v <= hi))
    return v


def sym_host(it, name="host", none=True, kinds=("str", "v4", "v6"), cs=SCALAR):
    alts = [None] if none else []
    for k in kinds:
        if k == "str":
            alts.append(sym_str(it, name, cs))
        elif k == "v4":
            alts.append(ranged(it, name + "4", 0, 2**32 - 1))
        elif k == "v6":
            alts.append(tuple(ranged(it, f"{name}6_{i}", 0, 65535) for i in range(8)))
    return lazy(it, name, alts)


PRINTABLE = CharSet([(0x20, 0x7E)])


def sym_fields(it, pre="", cs=SCALAR, list_only=False, opath=None):
    """Component values shared by the code record and the specification record."""
    f = {
        "scheme": sym_str(it, pre + "scheme", cs),
        "username": sym_str(it, pre + "username", cs),
        "password": sym_str(it, pre + "password", cs),
        "host": sym_host(it, pre + "host", cs=cs),
        "port": lazy(it, pre + "port", [None, ranged(it, pre + "port", 0, 65535)]),
        "query": lazy(it, pre + "query", [None, sym_str(it, pre + "query", cs)]),
        "fragment": lazy(it, pre + "fragment", [None, sym_str(it, pre + "fragment", cs)]),
    }
    rp = sym_list(it, pre + "path", cs)
    f["path"] = ("list", rp) if list_only else (lazy(it, pre + "path", [sym_str(it, pre + "opath", opath or cs), "list"]), rp)
    return f


def mk_record(it, f, which):
    """A code URLRecord ('code') or specification Url ('spec') with components f."""
    o = it.new_obj(cls(it, "URLRecord") if which == "code" else it.spec.fn("Url"))
    for k, v in f.items():
        if k == "path":
            t, rp = v
            if isinstance(t, LazyV):
                o.f[k] = LazyV(t.tag, [t.alts[0], it.new_list(rp)])
            else:
                o.f[k] = it.new_list(rp)
        else:
            o.f[k] = v
    if which == "code":
        for n, d in o.cls.fields or ():
            if n not in o.f:
                o.f[n] = it.field_default(d, o.cls) if d is not None else None
    return o


def alts(it, v):
    """[(condition, value)] of a possibly lazy value."""
    if isinstance(v, LazyV):
        v = it.lazy_peek(v)
    if isinstance(v, LazyV):
        if v.chosen is not None:
            return alts(it, v.alts[v.chosen])
        out = []
        for i, a in enumerate(v.alts):
            for c, x in alts(it, a):
                out.append((zand([v.tag == i, c]), x))
        return out
    return [(True, v)]


def outcome(it, f):
    """('ok', value) or ('raise', exception object)."""
    try:
        return ("ok", f())
    except PyRaise as e:
        return ("raise", e.exc)


def is_exc(it, e, name):
    return it.exc_isa(e, NATIVE_EXC.get(name) or cls(it, name))


def same(it, a, b):
    """Python equality (value), as a formula; lists compare by content."""
    return it.eng.eq(a, b)


def prove_eq(it, a, b, name):
    if not (isinstance(a, LazyV) and isinstance(b, LazyV)):
        a, b = it.force(a), it.force(b)
    e = it.eng.eq(a, b)
    return it.eng.prove(e, name, info=f"code: {a!r}\nspec: {b!r}")


def prove_record(it, u, s, name, fields=FIELDS):
    for k in fields:
        prove_eq(it, it.getattr(u, k), it.getattr(s, k), f"{name}.{k}")


def expect_ok(it, r, what):
    if r[0] != "ok":
        it.eng.prove(False, f"{what} raises no exception", info=f"raised {r[1]}")
        raise PathEnd()
    return r[1]


def name_inputs(it, **kw):
    it.eng.defs.update(kw)


# ------------------------------------------------------------------ contracts
HS4 = z3.Function("host4_str", INT, SQ)
HS6 = z3.Function("host6_str", *([INT] * 8), SQ)
H_OUT = CharSet.of("0123456789abcdef.:[]")


def host_text(it, h):
    """Contract of Host.serialize / host_serialize (verified by its own task)."""
    if isinstance(h, LazyV):
        h = it.lazy_peek(h)
    if isinstance(h, LazyV) and is_z3(h.tag) and h.chosen is None:
        # one uninterpreted text per host value, whatever its kind
        nn = [h.tag != i for i, x in enumerate(h.alts) if x is None]
        if not nn or it.eng.valid(zand(nn)):
            t = z3.Function("host_text", INT, SQ)(h.tag)
            it.eng.note_atom(t)
            return it.eng.full(t)
    h = it.force(h)
    if isinstance(h, ListV):
        h = h.r
    if is_strlike(h):
        return h
    if isinstance(h, (int, z3.ArithRef)) and not isinstance(h, bool):
        t = HS4(h if is_z3(h) else z3.IntVal(h))
    elif isinstance(h, tuple) and len(h) == 8:
        t = HS6(*[x if is_z3(x) else z3.IntVal(x) for x in h])
    else:
        raise Unsupported(f"host {h!r}")
    it.eng.note_atom(t, H_OUT)
    it.eng.fact(LEN(t) >= 2)
    return it.eng.full(t)


def c_host_serialize(it, fn, args, kwargs):
    it.trusted_contract = True
    return host_text(it, (list(args) + list(kwargs.values()))[-1])


HOST_SER = {("urlstd.parse", "Host.serialize"): c_host_serialize, ("hostspec", "host_serialize"): c_host_serialize}

TASKS = []
CONTRACTS = {}


def task(props, name=None, contracts=None, args=(), limit=240, tier="quick"):
    def deco(f):
        nm = name or f.__name__
        t = Task(nm, props, f, args, limit, tier)
        t.contracts = contracts or {}
        TASKS.append(t)
        return f

    return deco


def contracts_for(t):
    return t.contracts() if callable(t.contracts) else t.contracts


# C17 is a lemma over the contracts of C01 (parser), C04 (records) and C05
# (serializer): their obligations are its premises
PREMISES = {"C17": ("C01", "C04", "C05")}
PREMISE_TASKS = {"C17": ("serialize_url", "getter_href", "host_serialize", "ipv4_number", "ipv4_ends_in_number", "ipv4_parse", "ipv4_serialize", "ipv6_parse", "ipv6_word_lemma", "ipv6_serialize", "idna_to_ascii")}


def premise(t, pid):
    return pid in PREMISES and ("C01" in t.props or t.name in PREMISE_TASKS[pid])


def tasks_for(pid, prog, spec_, tier):
    return [t for t in TASKS if (pid in t.props or premise(t, pid)) and (tier == "thorough" or t.tier == "quick")]


# ------------------------------------------------------------------ C05
@task(["C05"], contracts=HOST_SER)
def serialize_url(it):
    f = sym_fields(it, cs=ANY)
    name_inputs(it, **{k: v if k != "path" else v[0] for k, v in f.items()})
    s = mk_record(it, f, "spec")
    u = mk_record(it, f, "code")
    ex = it.eng.bool("exclude_fragment")
    want = spec(it, "url_serialize", s, ex)
    r = outcome(it, lambda: callm(it, u, "serialize_url", ex))
    prove_eq(it, expect_ok(it, r, "serialize_url"), want, "serialize_url() == URL serializer")


def representation(it):
    """The contracts are stated over these private attributes."""
    import ast

    for c, want in (("URLSearchParams", {"_list", "_url"}), ("URL", {"_url", "_query"})):
        got = set()
        for f in cls(it, c).ns.values():
            if isinstance(f, FuncV) and f.node.args.args:
                me = f.node.args.args[0].arg
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me and n.attr not in cls(it, c).ns:
                        got.add(n.attr)
        if got != want:
            raise Unsupported(f"representation of {c}: {sorted(got)}")


def mk_url(it, f, with_query=True):
    """A code URL object around a record with components f."""
    representation(it)
    u = it.new_obj(cls(it, "URL"))
    rec = mk_record(it, f, "code")
    u.f["_url"] = rec
    q = it.new_obj(cls(it, "URLSearchParams"))
    q.f["_list"] = it.new_list(sym_pairs(it, "params"))
    q.f["_url"] = rec
    u.f["_query"] = q
    return u, rec, q


GETTERS = ("href", "protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash")


def _getter(it, name):
    f = sym_fields(it, cs=ANY)
    name_inputs(it, **{k: v if k != "path" else v[0] for k, v in f.items()})
    s = mk_record(it, f, "spec")
    u, rec, q = mk_url(it, f)
    want = spec(it, "get_" + name, s)
    r = outcome(it, lambda: it.getattr(u, name))
    prove_eq(it, expect_ok(it, r, "URL." + name), want, f"URL.{name} == the Standard's getter")


for g_ in GETTERS:
    task(["C05"], name="getter_" + g_, contracts=HOST_SER, args=(g_,))(_getter)


@task(["C05"], contracts=HOST_SER)
def str_is_href(it):
    f = sym_fields(it, cs=ANY)
    s = mk_record(it, f, "spec")
    u, rec, q = mk_url(it, f)
    want = spec(it, "url_serialize", s)
    which = it.eng.choose(3)
    if which == 0:
        r = outcome(it, lambda: it.builtins["str"].f([u], {}) if hasattr(it.builtins.get("str"), "f") else it.prims.to_str(it, u))
    elif which == 1:
        r = outcome(it, lambda: it.prims.to_str(it, rec))
    else:
        r = outcome(it, lambda: it.getattr(rec, "href"))
    prove_eq(it, expect_ok(it, r, "str"), want, "str(URL) == str(URLRecord) == URLRecord.href == URL serializer")


SER = z3.Function("serialization", INT, BOOL, SQ)


def c_serialize_url(it, fn, args, kwargs):
    """serialize_url() as an uninterpreted function of the record (its value is
    the subject of task serialize_url)."""
    o = args[0]
    ex = args[1] if len(args) > 1 else kwargs.get("exclude_fragment", False)
    ex = it.truth(ex)
    t = SER(o.serial, ex if is_z3(ex) else z3.BoolVal(ex))
    it.eng.note_atom(t)
    return it.eng.full(t)


@task(["C05"], contracts={("urlstd.parse", "URLRecord.serialize_url"): c_serialize_url})
def equality(it):
    """== and equals() compare serializations; False for other types."""
    eng = it.eng
    fa, fb = sym_fields(it, "a_", ANY), sym_fields(it, "b_", ANY)
    ua, ra, _ = mk_url(it, fa)
    ub, rb, _ = mk_url(it, fb)
    ex = eng.bool("exclude")
    which = eng.choose(7)
    no = z3.BoolVal(False)

    def ser(r, e):
        t = SER(r.serial, e)
        eng.note_atom(t)
        return t

    if which == 0:
        r = outcome(it, lambda: it.compare_eq(ra, rb))
        want = ser(ra, no) == ser(rb, no)
    elif which == 1:
        r = outcome(it, lambda: it.compare_eq(ua, ub))
        want = ser(ra, no) == ser(rb, no)
    elif which == 2:
        r = outcome(it, lambda: callm(it, ra, "equals", rb, ex))
        want = ser(ra, ex) == ser(rb, ex)
    elif which == 3:
        r = outcome(it, lambda: callm(it, ua, "equals", ub, ex))
        want = ser(ra, ex) == ser(rb, ex)
    elif which == 4:
        r = outcome(it, lambda: it.call(BoundM(code(it, "URLRecord.__eq__"), ra), [lazy(it, "other", [None, sym_str(it, "o"), ub, 3])], {}))
        want = False
    elif which == 5:
        r = outcome(it, lambda: it.call(BoundM(code(it, "URL.__eq__"), ua), [lazy(it, "other", [None, sym_str(it, "o"), rb, 3])], {}))
        want = False
    else:
        r = outcome(it, lambda: callm(it, ua, "equals", ub))
        want = ser(ra, no) == ser(rb, no)
    got = expect_ok(it, r, "comparison")
    if not isinstance(got, (bool, z3.BoolRef)):
        eng.prove(False, "a comparison returns a bool", info=repr(got))
        return
    eng.prove(zeq(got, want), "equality is equality of serializations")


# ------------------------------------------------------------------ the basic URL parser as a contract
OVERRIDES = {
    None: FIELDS,
    "SCHEME_START": ("scheme", "port"),
    "HOST": ("host", "port"),
    "HOSTNAME": ("host",),
    "PORT": ("port",),
    "PATH_START": ("path",),
    "QUERY": ("query",),
    "FRAGMENT": ("fragment",),
}


def snapshot(it, o):
    """Component values of a record (lists by content)."""
    out = {}
    for k in FIELDS:
        v = o.f[k]
        if isinstance(v, LazyV):
            v = it.lazy_peek(v)
        out[k] = v.r if isinstance(v, ListV) else LazyV(v.tag, [a.r if isinstance(a, ListV) else a for a in v.alts]) if isinstance(v, LazyV) and any(isinstance(a, ListV) for a in v.alts) else v
    return out


def eq_maybe(it, a, b):
    if a is None or b is None:
        if isinstance(a, LazyV) or isinstance(b, LazyV):
            return it.eq_nofork_safe(a, b)
        return a is None and b is None
    return it.eq_nofork_safe(a, b)


def snap_eq(it, a, b):
    if a is None or b is None:
        return a is None and b is None
    return zand([eq_maybe(it, a[k], b[k]) for k in FIELDS])


NEVER_FAIL = ("PATH_START", "QUERY", "FRAGMENT")  # shown by tasks parser_*


class BP:
    pass


def bp(it, s, base, url, override):
    """The result of the basic URL parser on (s, base, url, override): an
    uninterpreted function of these; tasks parser_* show that
    BasicURLParser.parse and the Standard's machine compute the same one."""
    eng = it.eng
    if not hasattr(eng, "bps"):
        eng.bps = []
    b = snapshot(it, base) if base is not None else None
    u = snapshot(it, url) if url is not None else None
    for r in eng.bps:
        if r.override == override and (r.url is None) == (u is None) and (r.base is None) == (b is None):
            if eng.valid(zand([it.eq_nofork_safe(r.s, s), snap_eq(it, r.base, b), snap_eq(it, r.url, u)])):
                return r
    r = BP()
    r.s, r.base, r.url, r.override = s, b, u, override
    n = len(eng.bps)
    r.ok = eng.bool("bp_ok")
    r.verr = eng.bool("bp_verr")
    r.fields = sym_fields(it, f"bp{n}_")
    if u is None:
        # a parse without base and override fails on the empty string
        if b is None:
            eng.fact(z3.Implies(zeq_z(eng.length(s), 0), z3.Not(r.ok)))
    else:
        for k in FIELDS:
            if k not in OVERRIDES[override]:
                del r.fields[k]
    if override in NEVER_FAIL:
        eng.fact(r.ok)
    eng.bps.append(r)
    return r


def zeq_z(a, b):
    e = zeq(a, b)
    return z3.BoolVal(e) if isinstance(e, bool) else e


def set_fields(it, o, fields):
    for k, v in fields.items():
        if k == "path":
            t, rp = v
            v = LazyV(t.tag, [t.alts[0], it.new_list(rp)]) if isinstance(t, LazyV) else it.new_list(rp)
        it.set_field(o, k, v)


def c_basic_parse(it, fn, args, kwargs):
    """spec: basic_parse(s, base, url, override) -> Machine"""
    a = dict(zip(("s", "base", "url", "override"), args))
    a.update(kwargs)
    url = a.get("url")
    ov = a.get("override")
    r = bp(it, it.force(a["s"]), a.get("base"), url, ov)
    m = it.new_obj(it.spec.fn("Machine"))
    m.f["verr"] = r.verr
    if url is None:
        url = it.new_obj(it.spec.fn("Url"))
    set_fields(it, url, r.fields)
    m.f["url"] = url
    m.f["done"] = "ok" if it.branch(r.ok) else "fail"
    return m


def state_name(v):
    if v is None:
        return None
    if isinstance(v, EnumM):
        return v.name[:-6] if v.name.endswith("_STATE") else v.name
    raise Unsupported(f"state override {v!r}")


def utf8_name(it, enc):
    if not isinstance(enc, str) or enc.lower() not in ("utf-8", "utf8", "utf_8"):
        raise Unsupported("encoding other than UTF-8")


def c_code_parse(it, fn, args, kwargs):
    """code: BasicURLParser.parse(cls, urlstring, base, encoding, url, state_override, **kw)"""
    a = dict(zip(("cls", "urlstring", "base", "encoding", "url", "state_override"), args))
    kw = dict(kwargs)
    for k in ("urlstring", "base", "encoding", "url", "state_override"):
        if k in kw:
            a[k] = kw.pop(k)
    utf8_name(it, a.get("encoding", "utf-8"))
    base, url = it.force(a.get("base")), it.force(a.get("url"))
    ov = state_name(it.force(a.get("state_override")))
    if ov not in OVERRIDES or (url is None) != (ov is None):
        raise Unsupported("parser called with another state override")
    s = it.force(a["urlstring"])
    if not is_strlike(s):
        it.throw("TypeError", "expected str")
    r = bp(it, s, base, url, ov)
    val = it.force(kw.pop("validity", None))
    if kw:
        raise Unsupported("unknown keyword for the parser")
    if val is not None:
        add_errors(it, val, r.verr)
    if url is None:
        if not it.branch(r.ok):
            it.throw(cls(it, "URLParseError"), "failure")
        url = mk_record(it, r.fields, "code")
        return url
    set_fields(it, url, r.fields)
    if not it.branch(r.ok):
        it.throw(cls(it, "URLParseError"), "failure")
    return url


def add_errors(it, val, verr):
    """Effect on a ValidityState of recording errors (some iff verr)."""
    eng = it.eng
    d = eng.int("new_errors")
    eng.fact(d >= 0)
    eng.fact((d > 0) == (verr if is_z3(verr) else z3.BoolVal(verr)))
    old = it.getattr(val, "validation_errors")
    it.set_field(val, "validation_errors", iadd(old, d))
    ov = it.truth(it.getattr(val, "valid"))
    it.set_field(val, "valid", zand([ov, znot(verr)]))
    for k in ("error_types", "descriptions"):
        l = it.getattr(val, k)
        a = eng.atom("errs", None, ("str", ANY))
        eng.fact(LEN(a) == d)
        it.set_list(l, eng.mk("list", [Sl(a, 0, LEN(a))] + parts_of(l.r)))


PARSER = {("urlstd.parse", "BasicURLParser.parse"): c_code_parse, ("urlspec", "basic_parse"): c_basic_parse}


# ------------------------------------------------------------------ C14
@task(["C14"], contracts=PARSER)
def origin(it):
    f = sym_fields(it)
    s = mk_record(it, f, "spec")
    u = mk_record(it, f, "code")
    want = spec(it, "origin", s)
    got = it.force(expect_ok(it, outcome(it, lambda: it.getattr(u, "origin")), "URLRecord.origin"))
    if want is None or got is None:
        it.eng.prove(want is None and got is None, "origin is opaque (None) exactly when the Standard says", info=f"{got} / {want}")
        return
    for i, k in enumerate(("scheme", "host", "port")):
        prove_eq(it, it.getattr(got, k), want[i], f"origin.{k}")
    it.eng.prove(it.force(it.getattr(got, "domain")) is None, "origin.domain is None")


def sym_origin(it, pre):
    f = {
        "scheme": sym_str(it, pre + "scheme"),
        "host": sym_host(it, pre + "host"),
        "port": lazy(it, pre + "port", [None, ranged(it, pre + "port", 0, 65535)]),
        "domain": lazy(it, pre + "domain", [None, sym_str(it, pre + "domain")]),
    }
    o = it.new_obj(cls(it, "Origin"))
    o.f.update(f)
    return o, f


@task(["C14"], contracts=HOST_SER)
def origin_str(it):
    o, f = sym_origin(it, "")
    which = it.eng.choose(2)
    want = spec(it, "origin_serialize", (f["scheme"], f["host"], f["port"]))
    if which == 0:
        got = expect_ok(it, outcome(it, lambda: it.prims.to_str(it, o)), "str(Origin)")
        prove_eq(it, got, want, "str(Origin) == serialization of an origin")
    else:
        u, rec, q = mk_url(it, sym_fields(it, "r_"))
        none = it.branch(it.eng.bool("opaque"))
        it.contracts = dict(it.contracts)
        it.contracts[("urlstd.parse", "URLRecord.origin")] = lambda it_, fn, a, k: None if none else o
        got = expect_ok(it, outcome(it, lambda: it.getattr(u, "origin")), "URL.origin")
        prove_eq(it, got, "null" if none else want, "URL.origin == serialization of the record's origin")


@task(["C14"])
def same_origin(it):
    a, fa = sym_origin(it, "a_")
    b, fb = sym_origin(it, "b_")
    which = it.eng.choose(2)
    nm = ("is_same_origin", "same_origin") if which == 0 else ("is_same_origin_domain", "same_origin_domain")
    # the domain of an origin, when set, is a non-empty host
    for f in (fa, fb):
        it.eng.fact(z3.Implies(f["domain"].tag == 1, it.eng.length(f["domain"].alts[1]) > 0))
    want = it.truth(spec(it, nm[1], a, b))
    got = it.truth(expect_ok(it, outcome(it, lambda: callm(it, a, nm[0], b)), nm[0]))
    it.eng.prove(zeq(got, want), nm[0] + " == the HTML Standard's relation")
    back = it.truth(expect_ok(it, outcome(it, lambda: callm(it, b, nm[0], a)), nm[0]))
    it.eng.prove(zeq(got, back), nm[0] + " is symmetric")


# ------------------------------------------------------------------ C03, C12: attribute setters
SETTERS = ("protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash")


def wf_record(it, f):
    """Representation invariants of C04 that the setters may rely on."""
    eng = it.eng
    # an opaque path belongs to a host-less URL with a non-special scheme
    t = f["path"][0]
    if isinstance(t, LazyV):
        eng.fact(z3.Implies(t.tag == 0, f["host"].tag == 0))


def setattr_outcome(it, o, name, v):
    try:
        it.setattr(o, name, v)
    except PyRaise as e:
        return ("raise", e.exc)
    return ("ok", None)


def rec_mode(it, r, want_failed, what):
    """Both fail or both succeed; failures are URLParseError."""
    if r[0] == "raise" and not is_exc(it, r[1], "URLParseError"):
        it.eng.prove(False, f"{what} raises only URLParseError", info=f"{r[1]}")
        raise PathEnd()
    it.eng.prove((r[0] == "raise") == want_failed, f"{what} raises exactly when the Standard's algorithm fails")


def c_attach(it, fn, args, kwargs):
    """URLSearchParams.attach(record): list := form parse of its query (task attach)."""
    o, rec = args[0], (list(args[1:]) + list(kwargs.values()))[0]
    q = it.force(rec.f["query"])
    it.set_field(o, "_list", it.new_list(form_list(it, q)))
    it.set_field(o, "_url", rec)


FP = z3.Function("form_parse", SQ, SQ)


def form_list(it, q):
    if q is None:
        return ()
    t = FP(it.eng.term(q))
    it.eng.note_atom(t, None, ("pair", SCALAR))
    it.eng.fact(z3.Implies(zeq_z(it.eng.length(q), 0), LEN(t) == 0))
    return it.eng.mk("list", [Sl(t, 0, LEN(t))])


ATTACH = {("urlstd.parse", "URLSearchParams.attach"): c_attach}


def _setter(it, name):
    f = sym_fields(it, opath=PRINTABLE)
    wf_record(it, f)
    v = sym_str(it, "value")
    name_inputs(it, value=v, **{k: x if k != "path" else x[0] for k, x in f.items()})
    s = mk_record(it, f, "spec")
    u, rec, q = mk_url(it, f)
    # C12's invariant holds before
    q.f["_list"] = it.new_list(form_list(it, it.force(f["query"])))
    done = spec(it, "set_" + name, s, v)
    r = setattr_outcome(it, u, name, v)
    rec_mode(it, r, done == "fail", f"assignment to {name}")
    it.eng.prove(u.f["_url"] is rec, "the record is updated in place")
    prove_record(it, rec, s, f"{name} setter: component", FIELDS)
    it.eng.prove(u.f["_query"] is q, "search_params stays the same object")
    inv_C12(it, u)


def inv_C12(it, u):
    """C12: search_params' record is the URL's, and its list is the parse of the query."""
    q = u.f["_query"]
    it.eng.prove(q.f["_url"] is u.f["_url"], "search_params is attached to the URL's record")
    want = form_list(it, it.force(u.f["_url"].f["query"]))
    l = it.force(q.f["_list"])
    e = it.eng.eq(it.new_list(want), l)
    it.eng.prove(e, "search_params list == parse of the URL's query", info=f"{l} / {want}")


for g_ in SETTERS:
    task(["C03", "C12"], name="setter_" + g_, contracts={**PARSER, **ATTACH}, args=(g_,))(_setter)


@task(["C03", "C12", "C13"], contracts={**PARSER, **ATTACH})
def setter_href(it):
    f = sym_fields(it)
    v = sym_str(it, "value")
    u, rec, q = mk_url(it, f)
    q.f["_list"] = it.new_list(form_list(it, it.force(f["query"])))
    old = mk_record(it, f, "spec")
    m = spec(it, "basic_parse", v)
    r = setattr_outcome(it, u, "href", v)
    failed = m.f["done"] == "fail"
    rec_mode(it, r, failed, "assignment to href")
    it.eng.prove(u.f["_query"] is q, "search_params stays the same object")
    if failed:
        it.eng.prove(u.f["_url"] is rec, "a failing href assignment keeps the record")
        prove_record(it, rec, old, "a failing href assignment changes no component")
    else:
        prove_record(it, u.f["_url"], m.f["url"], "href setter: component")
    inv_C12(it, u)


@task(["C01", "C12", "C13", "C02"], contracts={**PARSER, **ATTACH})
def url_constructor(it):
    """URL(url, base): base may be None, a string or a URL."""
    eng = it.eng
    s = sym_str(it, "url")
    which = eng.choose(3)
    bf = sym_fields(it, "base_")
    base_rec = None
    if which == 0:
        base, sbase, fail = None, None, False
    elif which == 1:
        base = sym_str(it, "base")
        m0 = spec(it, "basic_parse", base)
        fail = m0.f["done"] == "fail"
        sbase = m0.f["url"]
    else:
        base, base_rec, bq = mk_url(it, bf)
        sbase, fail = mk_record(it, bf, "spec"), False
    if not fail:
        m = spec(it, "basic_parse", s, sbase)
        fail = m.f["done"] == "fail"
    r = outcome(it, lambda: it.call(cls(it, "URL"), [s, base], {}))
    rec_mode(it, r, fail, "URL()")
    if base_rec is not None:
        prove_record(it, base_rec, sbase, "base unchanged by URL():")
        it.eng.prove(base.f["_url"] is base_rec, "base keeps its record")
    if r[0] == "ok":
        u = r[1]
        prove_record(it, u.f["_url"], m.f["url"], "URL(): component")
        if base_rec is not None:
            it.eng.prove(u.f["_url"] is not base_rec and u.f["_query"] is not bq, "the result shares no record with the base")
        inv_C12(it, u)


@task(["C01", "C13", "C02"], contracts=PARSER)
def parse_url_(it):
    eng = it.eng
    s = sym_str(it, "url")
    which = eng.choose(3)
    bf = sym_fields(it, "base_")
    base_rec = None
    if which == 0:
        base, sbase, fail = None, None, False
    elif which == 1:
        base = sym_str(it, "base")
        m0 = spec(it, "basic_parse", base)
        fail = m0.f["done"] == "fail"
        sbase = m0.f["url"]
    else:
        base = base_rec = mk_record(it, bf, "code")
        sbase, fail = mk_record(it, bf, "spec"), False
    if not fail:
        m = spec(it, "basic_parse", s, sbase)
        fail = m.f["done"] == "fail"
    r = outcome(it, lambda: callf(it, "parse_url", s, base))
    rec_mode(it, r, fail, "parse_url()")
    if base_rec is not None:
        prove_record(it, base_rec, sbase, "base unchanged by parse_url():")
    if r[0] == "ok":
        prove_record(it, r[1], m.f["url"], "parse_url(): component")
        if base_rec is not None:
            it.eng.prove(r[1] is not base_rec, "the result is not the base")


def c_new_url(it, c, args, kwargs):
    return NotImplemented


@task(["C02", "C15"], contracts=PARSER)
def can_parse(it):
    """can_parse() never raises and answers whether URL() succeeds."""
    eng = it.eng
    s = sym_str(it, "url", ANY)
    which = eng.choose(3)
    bf = sym_fields(it, "base_")
    kw = {}
    if eng.choose(2):
        kw["validity"] = sym_validity(it, "v_")
    base = [None, sym_str(it, "base", ANY), mk_url(it, bf)[0]][which]
    fail, verr = False, False
    sbase = None
    if which == 1:
        m0 = spec(it, "basic_parse", base)
        fail, verr, sbase = m0.f["done"] == "fail", m0.f["verr"], m0.f["url"]
    elif which == 2:
        sbase = mk_record(it, bf, "spec")
    if not fail:
        m = spec(it, "basic_parse", s, sbase)
        fail = m.f["done"] == "fail"
        verr = zor([verr, m.f["verr"]])
    r = outcome(it, lambda: callm(it, cls(it, "URL"), "can_parse", s, base, **kw))
    got = it.force(expect_ok(it, r, "URL.can_parse"))
    eng.prove(got is (not fail) if isinstance(got, bool) else False, "can_parse() is True exactly when parsing succeeds", info=f"{got}")
    if kw:
        coherent(it, kw["validity"], zor([verr]))


def sym_validity(it, pre):
    """An arbitrary coherent ValidityState."""
    eng = it.eng
    o = it.new_obj(cls(it, "ValidityState"))
    n = eng.int(pre + "errors")
    eng.fact(n >= 0)
    o.f["validation_errors"] = n
    o.f["valid"] = n == 0
    for k in ("error_types", "descriptions"):
        r = sym_list(it, pre + k, ANY)
        eng.fact(eng.length(r) == n)
        o.f[k] = it.new_list(r)
    o.f["disable_logging"] = eng.bool(pre + "disable")
    for nm, d in o.cls.fields or ():
        if nm not in o.f:
            raise Unsupported("ValidityState has other fields")
    return o


def coherent(it, o, verr=None):
    eng = it.eng
    n = it.force(it.getattr(o, "validation_errors"))
    valid = it.truth(it.getattr(o, "valid"))
    eng.prove(zeq(valid, zeq(n, 0)), "valid is True exactly when validation_errors is 0")
    eng.prove(zeq(eng.length(it.force(it.getattr(o, "error_types")).r), n), "len(error_types) == validation_errors")
    eng.prove(zeq(eng.length(it.force(it.getattr(o, "descriptions")).r), n), "len(descriptions) == validation_errors")
    if verr is not None:
        eng.prove(zeq(znot(valid), verr), "the state is invalid exactly when an error of this call was recorded")


# ------------------------------------------------------------------ C16
def c_parse_url(it, fn, args, kwargs):
    """parse_url() succeeds or raises URLParseError (task parse_url_ and parser_*)."""
    it.calls = getattr(it, "calls", [])
    it.calls.append((args, kwargs))
    if not it.branch(it.pu_ok):
        it.throw(cls(it, "URLParseError"), "failure")
    return mk_record(it, it.pu_fields, "code")


def _urlparse(it, af):
    eng = it.eng
    s, base = sym_str(it, "url"), lazy(it, "base", [None, sym_str(it, "base")])
    f = sym_fields(it)
    it.pu_fields, it.pu_ok = f, eng.bool("parse_ok")
    # C04: what urlparse relies on
    nohost = f["host"].tag == 0
    for k in ("username", "password"):
        eng.fact(z3.Implies(nohost, eng.length(f[k]) == 0))
    eng.fact(z3.Implies(nohost, f["port"].tag == 0))
    want = spec(it, "urlparse_view", mk_record(it, f, "spec"), af)
    r = outcome(it, lambda: callf(it, "urlparse", s, base, allow_fragments=af))
    rec_mode(it, r, not it.branch(it.pu_ok), "urlparse()")
    eng.prove(len(it.calls) == 1, "urlparse() parses once")
    a = dict(zip(("urlstring", "base", "encoding"), it.calls[0][0]))
    a.update(it.calls[0][1])
    eng.prove(a.get("urlstring") is s and a.get("base") is base and a.get("encoding", "utf-8") == "utf-8" and len(a) <= 3, "urlparse() parses its own arguments")
    if r[0] != "ok":
        return
    got = it.force(r[1])
    for i, k in enumerate(("scheme", "netloc", "path", "params", "query", "fragment")):
        prove_eq(it, it.getattr(got, k), want[i], f"urlparse().{k}")


for g_ in (True, False):
    task(["C16"], name=f"urlparse_view_{g_}", contracts={("urlstd.parse", "parse_url"): c_parse_url, **HOST_SER}, args=(g_,))(_urlparse)


from . import tasks_host, tasks_params, tasks_parser, tasks_roundtrip, tasks_valid  # noqa: E402,F401
