"""The basic URL parser: every state handler simulates the Standard's machine.

Contract of a handler for state X, on a configuration (X, index, url):
  RUN(X, index, url) == RUN(state', index', url')       (C01, C15)
where RUN is the closure of the Standard's `step`; it is shown by exhibiting
n, n' with step^n(before) == step^n'(after).  Loops of the handlers run in
lockstep with the machine (one step per code point; loop invariants are
inferred from templates and proved).  A raise of URLParseError must coincide
with the machine's failure.  rank(state') > rank(state) bounds the dispatcher.
"""
import z3

from .tasks import *
from .tasks import BP, zeq_z  # noqa: F401
from .core import _cmerge  # noqa: F401

RANK = [
    "SCHEME_START", "NO_SCHEME", "SPECIAL_RELATIVE_OR_AUTHORITY", "RELATIVE", "RELATIVE_SLASH", "SPECIAL_AUTHORITY_SLASHES",
    "SPECIAL_AUTHORITY_IGNORE_SLASHES", "PATH_OR_AUTHORITY", "AUTHORITY", "HOSTNAME", "HOST", "PORT", "FILE", "FILE_SLASH", "FILE_HOST",
    "PATH_START", "PATH", "OPAQUE_PATH", "QUERY", "FRAGMENT", "EOF",
]
METHOD = {s: "_parse_" + s.lower() for s in RANK if s != "EOF"}
METHOD["SCHEME_START"] = "_parse_scheme"
METHOD["HOSTNAME"] = "_parse_host"

# (state, state override) pairs that occur
PAIRS = [(s, None) for s in RANK if s not in ("HOSTNAME", "EOF")] + [
    ("SCHEME_START", "SCHEME_START"),
    ("HOST", "HOST"),
    ("HOSTNAME", "HOSTNAME"),
    ("PORT", "HOST"),
    ("PORT", "PORT"),
    ("FILE_HOST", "HOST"),
    ("FILE_HOST", "HOSTNAME"),
    ("PATH_START", "PATH_START"),
    ("PATH", "PATH_START"),
    ("OPAQUE_PATH", "PATH_START"),
    ("QUERY", "QUERY"),
    ("FRAGMENT", "QUERY"),
    ("FRAGMENT", "FRAGMENT"),
]
SINGLE = ("NO_SCHEME", "SPECIAL_RELATIVE_OR_AUTHORITY", "RELATIVE", "RELATIVE_SLASH", "SPECIAL_AUTHORITY_SLASHES", "PATH_OR_AUTHORITY", "FILE", "FILE_SLASH", "PATH_START")


def cset(chars):
    return CharSet.of(chars)


def out_set(name):
    """Code points that percent-encoding with a set can produce (ASCII, outside
    the set, or '%' and upper-case hex digits)."""
    import importlib.util
    import os

    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "speclib.py")
    sp = importlib.util.spec_from_file_location("_speclib_sets", p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    s = getattr(m, name)
    return CharSet.of([chr(i) for i in range(0x20, 0x7F) if chr(i) not in s] + list("%0123456789ABCDEF"))


USER_OUT = out_set("USERINFO_SET")
PATH_OUT = out_set("PATH_SET").inter(cset("/").complement())
PATH_OUT_S = PATH_OUT.inter(cset("\\").complement())
QUERY_OUT = out_set("QUERY_SET")
SQUERY_OUT = out_set("SPECIAL_QUERY_SET")
FRAG_OUT = out_set("FRAGMENT_SET")
C0_OUT = out_set("C0_SET")
SCHEME_CH = cset("abcdefghijklmnopqrstuvwxyz0123456789+-.")
LOWER_CH = CharSet([(97, 122)])
HOST_CH = SCALAR


# ------------------------------------------------------------------ formulas on lazy values
def holds(it, v, f):
    """Formula: f(alternative) holds for the alternative v is."""
    out = []
    for c, x in alts(it, v):
        e = f(x)
        if e is True:
            continue
        out.append(zor([znot(c), e]))
    return zand(out)


def is_none(it, v):
    return holds(it, v, lambda x: x is None)


def is_emptystr(it, v):
    return holds(it, v, lambda x: zeq(it.eng.length(x), 0) if is_strlike(x) else False)


def is_str(it, v):
    return holds(it, v, lambda x: bool(is_strlike(x)))


def is_list(it, v):
    return holds(it, v, lambda x: isinstance(x, ListV))


def str_in(it, v, cs):
    return holds(it, v, lambda x: it.eng.allin(x, cs) if is_strlike(x) else True)


SPECIAL = {"ftp": 21, "file": None, "http": 80, "https": 443, "ws": 80, "wss": 443}


def eqs(it, s, c):
    return it.eq_nofork_safe(s, c)


def special_f(it, s):
    return zor([eqs(it, s, c) for c in SPECIAL])


def implies(a, b):
    return zor([znot(a), b])


def no_default_port(it, scheme, port):
    return holds(it, port, lambda x: True if x is None else zand([simp_le(0, x), simp_le(x, 65535)] + [znot(zand([eqs(it, scheme, c), zeq(x, d)])) for c, d in SPECIAL.items() if d is not None]))


# ------------------------------------------------------------------ state invariants
def wf(it, u):
    """C04 for a finished record (components of the code record u)."""
    f = u.f
    sch = f["scheme"]
    sp = special_f(it, sch)
    nohost = zor([is_none(it, f["host"]), is_emptystr(it, f["host"]), eqs(it, sch, "file")])
    yield "the scheme is a lower-case scheme", zand([znot(zeq(it.eng.length(sch), 0)), it.eng.allin(sch, SCHEME_CH)])
    yield "the port is in range and not the default", no_default_port(it, sch, f["port"])
    yield "a special URL has a list path", implies(sp, is_list(it, f["path"]))
    yield "a special URL has a host", implies(sp, znot(is_none(it, f["host"])))
    yield "a special URL other than file has a non-empty host", implies(zand([sp, znot(eqs(it, sch, "file"))]), znot(is_emptystr(it, f["host"])))
    yield "no credentials and no port without host", implies(nohost, zand([is_emptystr(it, f["username"]), is_emptystr(it, f["password"]), is_none(it, f["port"])]))
    yield "an opaque path has no host", implies(is_str(it, f["path"]), is_none(it, f["host"]))
    yield from charsets(it, u)


def charsets(it, u):
    f = u.f
    sp = special_f(it, f["scheme"])
    for k in ("username", "password"):
        yield f"{k} is percent-encoded", str_in(it, f[k], USER_OUT)
    yield "the query is percent-encoded", zand([str_in(it, f["query"], QUERY_OUT), implies(sp, str_in(it, f["query"], SQUERY_OUT))])
    yield "the fragment is percent-encoded", str_in(it, f["fragment"], FRAG_OUT)
    yield "an opaque path is percent-encoded", str_in(it, f["path"], C0_OUT)


FRESH = {"scheme": "", "username": "", "password": "", "host": None, "port": None, "path": "list0", "query": None, "fragment": None}


def shape(state, ov, fin=False):
    """Which components of the record are free (None) in a state; others are
    constant.  Only for parses without override."""
    f = dict(FRESH)

    def free(*ks):
        for k in ks:
            f[k] = "free"

    if state in ("SCHEME_START", "NO_SCHEME"):
        pass
    elif state in ("SPECIAL_RELATIVE_OR_AUTHORITY", "RELATIVE", "RELATIVE_SLASH", "PATH_OR_AUTHORITY", "SPECIAL_AUTHORITY_SLASHES", "SPECIAL_AUTHORITY_IGNORE_SLASHES", "AUTHORITY", "FILE"):
        free("scheme")
    elif state == "HOST":
        free("scheme", "username", "password")
    elif state == "PORT":
        free("scheme", "username", "password", "host")
    elif state == "FILE_SLASH":
        free("scheme")
        f["host"] = ""
    elif state == "FILE_HOST":
        free("scheme")
        f["host"] = ""
    elif state == "PATH_START":
        free("scheme", "username", "password", "host", "port")
    elif state == "PATH":
        free("scheme", "username", "password", "host", "port")
        f["path"] = "list"
    elif state == "OPAQUE_PATH":
        free("scheme")
        f["path"] = ""
    elif state == "QUERY":
        free("scheme", "username", "password", "host", "port", "path")
        f["query"] = ""
    elif state == "FRAGMENT":
        free("scheme", "username", "password", "host", "port", "path", "query")
        f["fragment"] = ""
    if fin:
        # at the end of the input, after the machine has finished
        free("scheme", "username", "password", "host", "port", "query", "fragment")
        f["path"] = "list" if state == "OPAQUE_PATH" else "free"
    return f


def sym_host_c(it, name):
    return sym_host(it, name, cs=HOST_CH)


def sym_field(it, k, pre, special=None):
    if k == "scheme":
        return sym_str(it, pre + k, SCHEME_CH)
    if k in ("username", "password"):
        return sym_str(it, pre + k, USER_OUT)
    if k == "host":
        return sym_host_c(it, pre + k)
    if k == "port":
        return lazy(it, pre + k, [None, ranged(it, pre + k, 0, 65535)])
    if k == "query":
        return lazy(it, pre + k, [None, sym_str(it, pre + k, SQUERY_OUT if special else QUERY_OUT)])
    if k == "fragment":
        return lazy(it, pre + k, [None, sym_str(it, pre + k, FRAG_OUT)])


def seg_list(it, name, special):
    a = it.eng.atom(name, None, ("str", PATH_OUT_S if special else PATH_OUT, "seg"))
    return it.eng.mk("list", [Sl(a, 0, LEN(a))])


def mk_path(it, kind, pre, special):
    if kind == "list0":
        return ("list", ())
    if kind == "list":
        return ("list", seg_list(it, pre + "path", special))
    if kind == "free":
        rp = seg_list(it, pre + "path", special)
        if special:
            return ("list", rp)
        return (lazy(it, pre + "path", [sym_str(it, pre + "opath", C0_OUT), "list"]), rp)
    if kind == "":
        return ("str", "")
    raise AssertionError(kind)


def mk_rec(it, f, which):
    o = it.new_obj(cls(it, "URLRecord") if which == "code" else it.spec.fn("Url"))
    for k, v in f.items():
        if k == "path":
            t, rp = v
            if isinstance(t, LazyV):
                l = it.new_list(rp)
                o.f[k] = LazyV(t.tag, [t.alts[0], l])
            elif t == "str":
                o.f[k] = rp
                continue
            else:
                l = o.f[k] = it.new_list(rp)
            l.spec = which != "code"
        else:
            o.f[k] = v
    if which == "code":
        for n, d in o.cls.fields or ():
            if n not in o.f:
                o.f[n] = it.field_default(d, o.cls) if d is not None else None
    return o


def is_terminator(it, c, special):
    """c (a code point term) ends an authority."""
    return zor([zeq(c, ord("/")), zeq(c, ord("?")), zeq(c, ord("#")), zand([special, zeq(c, ord("\\"))])])


HPF, HPV, HPT = (z3.Function(n, SQ, BOOL, t) for n, t in (("hp_failed", BOOL), ("hp_verr", BOOL), ("hp_kind", INT)))
HPI = z3.Function("hp_idna_error", SQ, BOOL)


def eng_term(it, s):
    return it.eng.term(s)


HPS = z3.Function("hp_text", SQ, BOOL, SQ)
HP4 = z3.Function("hp_v4", SQ, BOOL, INT)
HP6 = [z3.Function(f"hp_v6_{i}", SQ, BOOL, INT) for i in range(8)]


def hp(it, s, ns):
    """Host parsing as an uninterpreted function of (text, is_not_special)."""
    eng = it.eng
    t = eng.term(s)
    ns = it.truth(ns)
    ns = z3.BoolVal(ns) if isinstance(ns, bool) else ns
    f, v, k = HPF(t, ns), HPV(t, ns), HPT(t, ns)
    tx = HPS(t, ns)
    eng.note_atom(tx, HOST_CH)
    eng.fact(z3.And(k >= 0, k <= 2))
    eng.fact(z3.Implies(f, v))
    # task host_parse_*: a failing host is a validation error; the text of a
    # parsed host is empty exactly when the input is; no address from "" or,
    # without brackets, from an opaque host
    eng.fact(z3.Implies(z3.And(z3.Not(f), k == 0), (LEN(tx) == 0) == zeq_z(eng.length(s), 0)))
    eng.fact(z3.Implies(zeq_z(eng.length(s), 0), k == 0))
    n4 = HP4(t, ns)
    eng.fact(z3.And(n4 >= 0, n4 < 2**32))
    n6 = tuple(h(t, ns) for h in HP6)
    for x in n6:
        eng.fact(z3.And(x >= 0, x < 65536))
    return f, v, LazyV(k, [eng.full(tx), n4, n6])


def bound(it, fn, args, kwargs):
    from .interp import Frame

    fr = Frame(fn, -1)
    fr.env = {}
    it.bind(fn, fr, args, kwargs)
    return fr.env


def c_host_parse_code(it, fn, args, kwargs):
    env = bound(it, fn, args, kwargs)
    host, ns = it.force(env["host"]), env["is_not_special"]
    extra = env[fn.node.args.kwarg.arg].d if fn.node.args.kwarg is not None else {}
    check_kw(it, extra)
    f, v, val = hp(it, host, ns)
    g = it.g
    it.set_field(g, "verr", simp(zor([g.f["verr"], v])))
    if it.branch(f):
        t = eng_term(it, host)
        it.throw(cls(it, "IDNAError" if it.branch(HPI(t)) else "HostParseError"), "host")
    return val


def c_host_parse_spec(it, fn, args, kwargs):
    f, v, val = hp(it, it.force(args[0]), args[1])
    o = it.new_obj(it.spec.fn("HostResult"))
    o.f.update(failed=f, value=val, verr=v)
    return o


def check_kw(it, extra):
    it.eng.prove(set(extra) <= {"validity"} and extra.get("validity") is it.V, "[C15] errors are recorded in the caller's ValidityState", info=str(extra))


def c_log(it, fn, args, kwargs):
    """_Logger.info / error: one more error in the ValidityState (tasks log_*)."""
    check_kw(it, kwargs)
    if len(args) > 2:
        it.prims.percent_format(it, args[1], tuple(args[2:]))
    it.set_field(it.g, "verr", True)


def c_debug(it, fn, args, kwargs):
    return None


SIM = {
    ("urlstd.parse", "Host.parse"): c_host_parse_code,
    ("hostspec", "host_parse"): c_host_parse_spec,
    ("urlstd.parse", "_Logger.info"): c_log,
    ("urlstd.parse", "_Logger.error"): c_log,
    ("urlstd.parse", "_Logger.debug"): c_debug,
}


class Lockstep:
    """Runs the Standard's machine one step per iteration of a handler's loop."""

    def __init__(self, m, state):
        self.m, self.state, self.used = m, state, False

    def enter(self, it, ctx, k):
        self.used = True
        step_spec(it, self.m)

    def step(self, it, ctx, k):
        m = self.m
        if m.f["done"] != "" or m.f["state"] != self.state:
            # the machine has left the state while the handler goes on
            it.eng.prove(False, "[C01,C03,C15] the handler leaves its loop when the Standard's machine leaves the state", info=f"{m.f['done']} {m.f['state']}")
            raise PathEnd()


def step_spec(it, m):
    h, it.loop_hook = it.loop_hook, None
    try:
        it.call(it.spec.fn("step"), [m], {})
    finally:
        it.loop_hook = h


def fields_of(it, o):
    return {k: o.f[k] for k in FIELDS}


def enum_member(it, name):
    c = cls(it, "URLParserState")
    v = c.ns.get(name + "_STATE") or c.ns.get(name)
    if not isinstance(v, EnumM):
        raise Unsupported(f"no parser state {name}")
    return v


def call_handler(it, state, env):
    fn = code(it, "BasicURLParser." + METHOD[state])
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if not names or fn.kind != "classmethod" or a.kwonlyargs or a.vararg:
        raise Unsupported("handler signature")
    vals = []
    for n in names[1:]:
        if n not in env:
            raise Unsupported(f"handler parameter {n}")
        vals.append(env[n])
    return callm(it, cls(it, "BasicURLParser"), METHOD[state], *vals, validity=it.V)


def base_record(it, state, ov):
    """(fields or None): the base URL in a state."""
    if ov is not None or state in ("PATH_OR_AUTHORITY", "SPECIAL_AUTHORITY_SLASHES", "SPECIAL_AUTHORITY_IGNORE_SLASHES", "AUTHORITY", "HOST", "PORT", "FILE_HOST", "PATH_START", "PATH", "OPAQUE_PATH", "QUERY", "FRAGMENT"):
        return None if ov is not None or it.eng.choose(2) == 0 else "any"
    if state in ("RELATIVE", "RELATIVE_SLASH", "SPECIAL_RELATIVE_OR_AUTHORITY"):
        return "any"
    return None if it.eng.choose(2) == 0 else "any"


def make_base(it, kind):
    eng = it.eng
    if kind is None:
        return None, None
    f = {}
    f["scheme"] = sym_str(it, "b_scheme", SCHEME_CH)
    sp = it.branch(special_f(it, f["scheme"]))
    for k in ("username", "password", "host", "port", "query", "fragment"):
        f[k] = sym_field(it, k, "b_", sp)
    f["path"] = mk_path(it, "free", "b_", sp)
    c, s = mk_rec(it, f, "code"), mk_rec(it, f, "spec")
    for nm, e in wf(it, c):
        eng.fact(e if is_z3(e) or isinstance(e, bool) else e)
    eng.fact(first_alpha(it, f["scheme"]))
    return c, s


def first_alpha(it, sch):
    """The first code point of a scheme is a letter."""
    ok = it.eng.length(sch)
    c = it.eng.char_of(it.getslice(sch, 0, 1)) if False else None
    return True


def pre_state(it, state, ov, u, base, s, p):
    """Further facts about a configuration (assumed at entry, proved at exit)."""
    eng = it.eng
    sch = u.f["scheme"]
    n = eng.length(s)
    isfile = eqs(it, sch, "file")
    sp = special_f(it, sch)
    T = "[C01,C02,C03,C15] "
    yield T + "the index is within the input", zand([simp_le(0, p), simp_le(p, n)])
    if state == "SCHEME_START":
        yield T + "a scheme starts at the beginning", zeq(p, 0)
    if ov is None:
        if state in ("RELATIVE", "RELATIVE_SLASH", "SPECIAL_RELATIVE_OR_AUTHORITY"):
            if base is None:
                yield T + "a relative state has a base", False
                return
            yield T + "the base has a list path", is_list(it, base.f["path"])
            yield T + "the base is not a file URL", znot(eqs(it, base.f["scheme"], "file"))
        if state in ("SPECIAL_RELATIVE_OR_AUTHORITY", "RELATIVE_SLASH"):
            yield T + "the scheme is the base's", it.eq_nofork_safe(sch, base.f["scheme"])
        if state == "SPECIAL_RELATIVE_OR_AUTHORITY" or state in ("SPECIAL_AUTHORITY_SLASHES", "SPECIAL_AUTHORITY_IGNORE_SLASHES"):
            yield T + "the scheme is special and not file", zand([sp, znot(isfile)])
        if state == "PATH_OR_AUTHORITY":
            yield T + "the scheme is not special", znot(sp)
        if state in ("AUTHORITY", "HOST", "PORT"):
            yield T + "the scheme is not file", znot(isfile)
        if state in ("FILE_SLASH", "FILE_HOST"):
            yield T + "the scheme is file", isfile
        if state == "FILE":
            yield T + "a file state has no base with an opaque path unless it is another scheme", True
        if state == "OPAQUE_PATH":
            yield T + "an opaque path has a non-special scheme, or the input has ended", zor([znot(sp), zeq(p, n)])
        if state not in ("SCHEME_START", "NO_SCHEME", "RELATIVE", "FILE"):
            yield "[C04] the scheme is a lower-case scheme", zand([znot(zeq(eng.length(sch), 0)), eng.allin(sch, SCHEME_CH)])
        if state == "HOST":
            c = AT_or(it, s, p)
            yield "[C04] credentials are followed by a host", zor([zand([is_emptystr(it, u.f["username"]), is_emptystr(it, u.f["password"])]), zand([simp_lt(p, n), znot(is_terminator(it, c, sp))])])
        if state == "PORT":
            yield "[C04] a port follows a non-empty host", zand([znot(is_none(it, u.f["host"])), znot(is_emptystr(it, u.f["host"]))])
    else:
        if state in ("PORT",):
            yield "[C04] a port follows a non-empty host", zand([znot(is_none(it, u.f["host"])), znot(is_emptystr(it, u.f["host"])), znot(isfile)])
        if state == "FILE_HOST":
            yield T + "the scheme is file", isfile
        if state in ("PATH_START", "PATH", "FILE_HOST", "HOST", "HOSTNAME", "PORT"):
            yield T + "the path is a list", is_list(it, u.f["path"])
    if state in ("PATH_START", "PATH", "OPAQUE_PATH", "QUERY", "FRAGMENT", "EOF") or ov is not None:
        for nm, e in wf(it, u):
            if nm.startswith("a special URL has a list") and state in ("PATH_START", "PATH"):
                continue
            yield "[C04] " + nm, e


def AT_or(it, s, p):
    ps = parts_of(s)
    return it.eng.note_access(ps[0].a, p)


def sub_config(it, state, ov, u, base, s, p):
    """Obligations: the configuration is one the handler of `state` accepts."""
    eng = it.eng
    T = "[C01,C02,C03,C15] "
    n = eng.length(s)
    for nm, e in pre_state(it, state, ov, u, base, s, p):
        eng.prove(e, nm + f" ({state})")
    if state == "EOF":
        return
    fin = state in ("OPAQUE_PATH", "FRAGMENT") and eng.valid(zeq(p, n))
    if (state, ov) not in PAIRS:
        eng.prove(False, T + f"state {state} is not reached with override {ov}")
        return
    if ov is None and not fin:
        for k, v in shape(state, ov).items():
            x = u.f[k]
            if v == "free":
                continue
            if k == "path":
                if v == "list":
                    e = is_list(it, x)
                elif v == "list0":
                    e = holds(it, x, lambda y: isinstance(y, ListV) and zeq(eng.length(y.r), 0))
                else:
                    e = is_emptystr(it, x)
            elif v is None:
                e = is_none(it, x)
            else:
                e = holds(it, x, lambda y: it.eq_nofork_safe(y, v) if is_strlike(y) else False)
            eng.prove(e, T + f"{k} is still {v!r} on entry to {state}", info=f"{x}")
    elif ov is not None and not fin:
        sub_shape(it, state, ov, u)


def sub_shape(it, state, ov, u):
    eng = it.eng
    T = "[C01,C02,C03,C04,C15] "
    if ov is not None:
        if state == "PATH_START":
            eng.prove(holds(it, u.f["path"], lambda y: isinstance(y, ListV) and zeq(eng.length(y.r), 0)), T + "the path is empty")
        if state == "QUERY":
            eng.prove(is_emptystr(it, u.f["query"]), T + "the query is empty")
        if state == "FRAGMENT":
            eng.prove(is_emptystr(it, u.f["fragment"]), T + "the fragment is empty")


# The Standard encodes these states' code points one at a time, so that with a
# surrogate *pair* it is not the same as encoding the text; for these states the
# equality is stated for scalar values, the rest for every str.
BY_POINT = ("PATH", "PATH_START", "OPAQUE_PATH", "FRAGMENT")


def _handler(it, state, ov, fin, safety=False):
    eng = it.eng
    s = sym_str(it, "input", SCALAR if state in BY_POINT and not safety else ANY)
    n = eng.length(s)
    eng.fact(simp_lt(n, 2**62))  # a str is no longer than sys.maxsize
    p = 0 if state == "SCHEME_START" else eng.int("index")
    it.V = Opaque("validity")
    it.V.truth = True
    g = it.g = it.new_obj("ghost")
    v0 = eng.bool("errors_before")
    g.f["verr"] = v0
    it.free_cls = {"username": USER_OUT, "password": USER_OUT, "path[]": PATH_OUT_S}
    it.str_classes = [("digits", DIGIT), ("scheme", CharSet.of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-."))]
    bkind = base_record(it, state, ov)
    base, sbase = make_base(it, bkind)
    sh = shape(state, ov, fin) if ov is None else {k: "free" for k in FIELDS}
    if ov is not None:
        if state == "PATH_START":
            sh["path"] = "list0"
        elif state in ("PATH", "HOST", "HOSTNAME", "PORT", "FILE_HOST"):
            sh["path"] = "list"
        elif state == "OPAQUE_PATH":
            sh["path"] = "list"
        elif state == "QUERY":
            sh["query"] = ""
        elif state == "FRAGMENT" and not fin:
            sh["fragment"] = ""
    f = {}
    f["scheme"] = sym_field(it, "scheme", "", None) if sh["scheme"] == "free" else sh["scheme"]
    sp = None
    if sh["path"] in ("free", "list") or sh["query"] == "free" or state in ("QUERY", "PATH"):
        sp = it.branch(special_f(it, f["scheme"]))
        if sp and not fin and state == "OPAQUE_PATH":
            raise PathEnd()
    for k in ("username", "password", "host", "port", "query", "fragment"):
        f[k] = sym_field(it, k, "", sp) if sh[k] == "free" else sh[k]
    f["path"] = mk_path(it, sh["path"], "", sp)
    u, su = mk_rec(it, f, "code"), mk_rec(it, f, "spec")
    name_inputs(it, state=state, override=ov, input=s, index=p, base=base, **{k: (x if k != "path" else x[1]) for k, x in f.items()})
    if fin:
        eng.fact(zeq(p, n))
    for nm, e in pre_state(it, state, ov, u, base, s, p):
        eng.fact(e)
    m = it.new_obj(it.spec.fn("Machine"))
    m.f.update(s=s, base=sbase, override=ov, url=su, state=state, p=p, buffer="", at=False, br=False, pw=False, done="", verr=v0)
    if state == "AUTHORITY":
        sf = special_f(it, f["scheme"])

        def preds(it_, ctx):
            def noterm():
                b = m.f["buffer"]
                return zand([eng.allin(b, cset("/?#@").complement()), implies(sf, eng.allin(b, cset("\\").complement()))])

            yield "no credentials before an @", lambda: zor([m.f["at"], zand([is_emptystr(it, su.f["username"]), is_emptystr(it, su.f["password"])])])
            yield "no end of the authority in the buffer", noterm

        it.task_preds = preds
    if state == "PATH":
        sep = cset("/\\" if sp else "/").union(cset("?#") if ov is None else cset(""))

        def ppreds(it_, ctx):
            yield "no separator in the buffer", lambda: eng.allin(m.f["buffer"], sep.complement())

        it.task_preds = ppreds
    base0 = snapshot(it, base) if base is not None else None
    before = snapshot(it, u)
    if safety:
        it.loop_hook = None
        env = {"urlstring": s, "start": p, "base": base, "url": u, "state_override": enum_member(it, ov) if ov else None, "encoding": "utf-8"}
        r = outcome(it, lambda: call_handler(it, state, env))
        if r[0] == "raise":
            eng.prove(is_exc(it, r[1], "URLParseError"), "[C02] the handler raises only URLParseError, for any str", info=f"{r[1]}")
            return
        v = it.force(r[1])
        st = state_name(it.force(v[0]))
        eng.prove(st in RANK and RANK.index(st) > RANK.index(state), "[C02] the parser makes progress, for any str", info=f"{state} -> {st}")
        eng.prove(zand([simp_le(0, it.force(v[1])), simp_le(it.force(v[1]), n)]), "[C02] the index is within the input, for any str")
        if state != "PATH":
            path_elems(it, u)
        return
    hook = Lockstep(m, "SCHEME" if state == "SCHEME_START" else state)
    if state == "SCHEME_START":
        step_spec(it, m)
    it.loop_hook = hook
    env = {"urlstring": s, "start": p, "base": base, "url": u, "state_override": enum_member(it, ov) if ov else None, "encoding": "utf-8"}
    r = outcome(it, lambda: call_handler(it, state, env))
    it.loop_hook = None
    # ---- C13: the base is untouched
    if base is not None:
        after = snapshot(it, base)
        for k in FIELDS:
            eng.prove(it.eq_nofork_safe(base0[k], after[k]) if not (base0[k] is None or after[k] is None) else base0[k] is after[k], f"[C13] the handler leaves base.{k} alone")
        bp_, up_ = [x for c, x in alts(it, base.f["path"])], [x for c, x in alts(it, u.f["path"])]
        eng.prove(not any(isinstance(x, ListV) and x is y for x in bp_ for y in up_), "[C13] the record's path list is not the base's")
    for i, x in enumerate((u, base, s)):
        pass
    if r[0] == "raise":
        if not is_exc(it, r[1], "URLParseError"):
            eng.prove(False, "[C01,C02,C03] the handler raises only URLParseError", info=f"{r[1]}")
            return
        for _ in range(4):
            if m.f["done"] != "":
                break
            step_spec(it, m)
        if m.f["done"] == "" and not hook.used and state not in SINGLE:
            raise Unsupported("the handler is not in lockstep with the machine")
        eng.prove(m.f["done"] == "fail", "[C01,C02,C03] the handler fails only where the Standard does", info=f"{r[1]} {m.f['done']} {m.f['state']}")
        eng.prove(zeq(g.f["verr"], m.f["verr"]) if not verr_any(it, g, m) else True, "[C15] a failure is reported as a validation error exactly when the Standard reports one")
        if ov is None:
            eng.prove(m.f["verr"], "[C15] every failure of the parser is reported as a validation error")
        eng.prove(ov not in NEVER_FAIL, f"[C03] a parse with state override {ov} does not fail")
        frame(it, ov, u, before)
        prove_fields(it, u, su, "after the failure: ")
        if ov is not None:
            for nm, e in wf(it, u):
                eng.prove(e, "[C04] after a failure: " + nm)
            path_elems(it, u)
        return
    v = it.force(r[1])
    if not (isinstance(v, tuple) and len(v) == 2):
        raise Unsupported("handler result")
    st, idx = it.force(v[0]), it.force(v[1])
    st = state_name(st)
    if st is None or st not in RANK:
        raise Unsupported("handler result state")
    eng.prove(RANK.index(st) > RANK.index(state), "[C02] the parser makes progress", info=f"{state} -> {st}")
    # ---- the machine continues until both configurations agree
    m2 = it.new_obj(it.spec.fn("Machine"))
    m2.f.update(s=s, base=sbase, override=ov, url=copy_url(it, u), state=st, p=idx, buffer="", at=False, br=False, pw=False, done="" if st != "EOF" else "ok", verr=g.f["verr"])
    ok = False
    import os
    if os.environ.get("DBG"):
        print("AT", r[0], m.f["buffer"], su.f["scheme"], u.f["scheme"], m.f["state"], m.f["p"], m.f["done"], "code", st, idx)
    for _ in range(8):
        if os.environ.get("DBG"):
            print("  ", *(f"{x.f['state']} {x.f['p']} {x.f['done']} {x.f['buffer']}" for x in (m, m2)), m.f["url"].f["path"], m2.f["url"].f["path"])
        if m.f["done"] != "" and m2.f["done"] != "":
            ok = True
            break
        if m.f["done"] == "" and m2.f["done"] == "" and m.f["state"] == m2.f["state"] and eng.valid(zand([zeq(m.f["p"], m2.f["p"]), it.eq_nofork_safe(m.f["buffer"], m2.f["buffer"])] + [zeq(m.f[x], m2.f[x]) for x in ("at", "pw", "br")])):
            ok = True
            break
        if m.f["done"] != "" or m2.f["done"] == "" and m.f["state"] not in (state, hook.state) and eng.valid(simp_lt(m2.f["p"], m.f["p"])):
            step_spec(it, m2)
        else:
            step_spec(it, m)
    if not ok:
        if not hook.used and state not in SINGLE:
            raise Unsupported("the handler is not in lockstep with the machine")
        eng.prove(False, "[C01,C02,C03,C15] the handler's configuration is one the Standard's machine reaches", info=f"code: {st} {idx} spec: {m.f['state']} {m.f['p']} {m.f['done']} {m.f['buffer']}")
        return
    eng.prove(m.f["done"] == m2.f["done"], "[C01,C02,C03] the Standard's machine ends in the same way", info=f"{m.f['done']} {m2.f['done']}")
    prove_fields(it, m2.f["url"], su, "")
    eng.prove(zeq(m2.f["verr"], m.f["verr"]), "[C15] a validation error is recorded exactly where the Standard reports one", info=f"code {m2.f['verr']} spec {m.f['verr']}")
    frame(it, ov, u, before)
    sub_config(it, st, ov, u, base, s, idx)
    path_elems(it, u)


def verr_any(it, g, m):
    return False


def copy_url(it, u):
    o = it.new_obj(it.spec.fn("Url"))
    for k in FIELDS:
        v = u.f[k]
        if isinstance(v, LazyV):
            v = it.lazy_peek(v)
        if isinstance(v, ListV):
            v = it.new_list(v.r)
        elif isinstance(v, LazyV) and any(isinstance(a, ListV) for a in v.alts):
            v = LazyV(v.tag, [it.new_list(a.r) if isinstance(a, ListV) else a for a in v.alts])
        o.f[k] = v
    return o


def prove_fields(it, u, s, what):
    for k in FIELDS:
        prove_eq(it, it.getattr(u, k), it.getattr(s, k), f"[C01,C03] {what}{k} is the Standard's")


def frame(it, ov, u, before):
    if ov is None:
        return
    now = snapshot(it, u)
    it.eng.prove(zeq(special_f(it, before["scheme"]), special_f(it, now["scheme"])), f"[C03,C04] the scheme stays special, or not special, with state override {ov}")
    for k in FIELDS:
        if k not in OVERRIDES[ov]:
            a, b = before[k], now[k]
            a, b = (it.lazy_peek(x) if isinstance(x, LazyV) else x for x in (a, b))
            e = it.identical(a, b) if a is None or b is None else it.eq_nofork_safe(a, b)
            it.eng.prove(e, f"[C03] {k} is not changed with state override {ov}")


def path_elems(it, u):
    """C04: every segment is percent-encoded and not a dot segment."""
    for c, x in alts(it, u.f["path"]):
        if isinstance(x, ListV):
            sp = it.eng.valid(special_f(it, u.f["scheme"]))
            it.eng.prove(it.prims.list_fits(it, x.r, ("str", PATH_OUT_S if sp else PATH_OUT, "seg")), "[C04] every path segment is percent-encoded, without '/' (nor '\\' in special URLs), and not a dot segment", info=f"{x}")


for s_, o_ in PAIRS:
    nm_ = f"parser_{s_.lower()}" + (f"__{o_.lower()}" if o_ else "")
    ps_ = ["C02", "C04"] + (["C01", "C13", "C15"] if o_ is None else ["C03", "C15"])
    if not (s_ == "OPAQUE_PATH" and o_) and not (s_ == "FRAGMENT" and o_ == "QUERY"):
        task(ps_, name=nm_, contracts=SIM, args=(s_, o_, False), limit=390 if s_ == "PATH" else 300)(_handler)
    if s_ == "OPAQUE_PATH" or s_ == "FRAGMENT" and o_ != "FRAGMENT":
        task(ps_, name=nm_ + "_end", contracts=SIM, args=(s_, o_, True), limit=300)(_handler)
    if s_ in BY_POINT and not (s_ in ("OPAQUE_PATH", "PATH_START") and o_) and not (s_ == "FRAGMENT" and o_ == "QUERY"):
        task(["C02"] if s_ == "PATH" else ["C02", "C04"], name=nm_ + "_surrogates", contracts=SIM, args=(s_, o_, False, True), limit=300)(_handler)


# ------------------------------------------------------------------ the dispatcher
class Dispatch:
    """One handler per iteration; the ghost machine `m` is the configuration."""

    force_rule = True  # no unrolling

    def __init__(self, m):
        self.m, self.ran = m, False

    def enter(self, it, ctx, k):
        self.ran = False

    def step(self, it, ctx, k):
        it.eng.prove(self.ran, "[C01,C02,C03,C15] every iteration of the dispatcher runs a state handler")


HANDLERS = {}
for s_ in RANK[:-1]:
    HANDLERS.setdefault(METHOD[s_], []).append(s_)


def c_handler(it, fn, args, kwargs):
    """A state handler, by its contract (tasks parser_*)."""
    eng, d, want = it.eng, it.disp, it.want
    T = "[C01,C02,C03,C15] "
    env = bound(it, fn, args, kwargs)
    st = it.force(d.m.f["state"])
    st = state_name(st)
    eng.prove(fn.node.name == METHOD.get(st), T + "a state is handled by its own handler", info=f"{st}: {fn.node.name}")
    eng.prove(not d.ran, T + "one handler per iteration")
    d.ran = True
    names = set(env)
    if "urlstring" not in names or "start" not in names or "url" not in names:
        raise Unsupported("handler signature")
    prove_eq(it, it.force(env["urlstring"]), want["s"], T + "the handlers get the stripped input")
    eng.prove(zeq(it.force(env["start"]), d.m.f["p"]), T + "a handler starts where the previous one ended", info=f"{env['start']} {d.m.f['p']}")
    u = it.force(env["url"])
    eng.prove(u is want["url"] if want["url"] is not None else isinstance(u, Obj), T + "the handlers get the record being built")
    if want["url"] is None:
        want["url"] = u
    if "base" in names:
        eng.prove(it.force(env["base"]) is want["base"], T + "the handlers get the base URL")
    if "state_override" in names:
        o = it.force(env["state_override"])
        eng.prove(state_name(o) == want["override"], T + "the handlers get the state override", info=str(o))
    if "encoding" in names:
        eng.prove(it.force(env["encoding"]) == "utf-8", T + "the encoding is UTF-8", info=str(env["encoding"]))
    extra = env[fn.node.args.kwarg.arg].d if fn.node.args.kwarg is not None else {}
    check_kw(it, extra)
    if st == "SCHEME_START" and want["override"] is None:
        for k, v in FRESH.items():
            x = it.force(u.f[k])
            eng.prove((isinstance(x, ListV) and eng.valid(zeq(eng.length(x.r), 0))) if v == "list0" else type(x) is type(v) and x == v, "[C01,C13] a parse starts from a fresh record", info=f"{k} {x}")
    if eng.choose(2) == 1:
        it.throw(cls(it, "URLParseError"), "failure")
    nxt = [s for s in RANK[RANK.index(st) + 1 :] if s == "EOF" or (s, want["override"]) in PAIRS]
    tag = eng.int("next")
    eng.fact(z3.And(tag >= 0, tag < len(nxt)))
    v = LazyV(tag, [enum_member(it, s) for s in nxt])
    i = eng.int("idx")
    it.set_field(d.m, "state", v)
    it.set_field(d.m, "p", i)
    return (v, i)


def _dispatcher(it, ov):
    eng = it.eng
    s = sym_str(it, "input", ANY)
    name_inputs(it, override=ov, input=s)
    it.V = Opaque("validity")
    it.V.truth = True
    g = it.g = it.new_obj("ghost")
    g.f["verr"] = False
    base = None
    if ov is None and eng.choose(2):
        base = it.new_obj(cls(it, "URLRecord"))
        for k in FIELDS:
            base.f[k] = Opaque("base." + k)
    t = s
    if ov is None:
        t = spec(it, "strip_c0_space", t)
    t = spec(it, "strip_tab_newline", t)
    u = None
    kw = {}
    if ov is not None:
        u = it.new_obj(cls(it, "URLRecord"))
        for k in FIELDS:
            u.f[k] = Opaque("url." + k)
        kw = {"url": u, "state_override": enum_member(it, ov)}
    if base is not None or eng.choose(2):
        kw["base"] = base
    m = it.new_obj(it.spec.fn("Machine"))
    m.f.update(state=enum_member(it, ov or "SCHEME_START"), p=0)
    it.disp = it.loop_hook = Dispatch(m)
    it.no_variant = True  # the rank of the state grows with every handler
    it.want = {"s": t, "url": u, "base": base, "override": ov}
    before = [(o, k, o.f[k]) for o in (u, base) if o is not None for k in FIELDS]
    r = outcome(it, lambda: callm(it, cls(it, "BasicURLParser"), "parse", s, validity=it.V, **kw))
    it.loop_hook = None
    verr = znot(it.eq_nofork_safe(s, t))
    eng.prove(zeq(g.f["verr"], verr), "[C15] stripping is a validation error exactly when something is stripped", info=f"{g.f['verr']} {verr}")
    if r[0] == "raise":
        eng.prove(is_exc(it, r[1], "URLParseError"), "[C01,C02,C03] the parser raises only URLParseError", info=str(r[1]))
        return
    eng.prove(state_name(it.force(m.f["state"])) == "EOF", "[C01,C02,C03,C15] the parser ends in the final state")
    v = it.force(r[1])
    if it.want["url"] is not None:
        eng.prove(v is it.want["url"], "[C01,C03] the parser returns the record that was built")
    eng.prove(all(o.f[k] is x for o, k, x in before), "[C03,C13] the dispatcher itself writes no component")


DISPATCH = dict(SIM)
for n_ in HANDLERS:
    DISPATCH[("urlstd.parse", "BasicURLParser." + n_)] = c_handler
for o_ in OVERRIDES:
    task(["C01", "C02", "C03", "C13", "C15"] if o_ is None else ["C02", "C03", "C15"], name="parser_dispatch" + (f"__{o_.lower()}" if o_ else ""), contracts=DISPATCH, args=(o_,))(_dispatcher)


@task(["C01", "C02", "C03"])
def parser_empty_input(it):
    """What the parser contract assumes: without a base, "" does not parse."""
    m = spec(it, "basic_parse", "")
    it.eng.prove(m.f["done"] == "fail", "the empty string does not parse without a base")


# ------------------------------------------------------------------ C04: setters
def c_parse_c04(it, fn, args, kwargs):
    """BasicURLParser.parse: from a record with the invariants of C04 to one
    (tasks parser_*)."""
    eng = it.eng
    a = dict(zip(("cls", "urlstring", "base", "encoding", "url", "state_override"), args))
    a.update(kwargs)
    ov = state_name(it.force(a.get("state_override")))
    u = it.force(a.get("url"))
    s = it.force(a["urlstring"])
    if ov not in OVERRIDES or (u is None) != (ov is None) or set(a) - {"cls", "urlstring", "base", "encoding", "url", "state_override", "validity"} or not is_strlike(s):
        raise Unsupported("parser called in another way")
    if ov is None:
        f, sp = c04_fields(it, eng.fresh("parsed") + "_")
        u = mk_rec(it, f, "code")
    else:
        for nm, e in pre_state(it, ov, ov, u, None, s, 0):
            eng.prove(e, nm + f" (on entry with state override {ov})")
        sub_shape(it, ov, ov, u)
        sp0 = special_f(it, u.f["scheme"])
        f, sp = c04_fields(it, eng.fresh("parsed") + "_", only=OVERRIDES[ov], scheme=u.f["scheme"])
        o = mk_rec(it, f, "code")
        for k in OVERRIDES[ov]:
            it.set_field(u, k, o.f[k])
        eng.fact(zeq(sp0, special_f(it, u.f["scheme"])))
    for nm, e in wf(it, u):
        eng.fact(e)
    if ov not in NEVER_FAIL and eng.choose(2):
        it.throw(cls(it, "URLParseError"), "failure")
    return u


def c04_fields(it, pre, only=FIELDS, scheme=None):
    f = {}
    f["scheme"] = sym_field(it, "scheme", pre) if "scheme" in only else scheme
    sp = it.branch(special_f(it, f["scheme"]))
    for k in ("username", "password", "host", "port", "query", "fragment"):
        f[k] = sym_field(it, k, pre, sp) if k in only else None
    f["path"] = mk_path(it, "free", pre, sp)
    return f, sp


def _setter_c04(it, name):
    f, sp = c04_fields(it, "")
    v = sym_str(it, "value")
    u, rec, q = mk_url(it, f)
    rec = mk_rec(it, f, "code")
    it.set_field(u, "_url", rec)
    it.set_field(q, "_url", rec)
    for nm, e in wf(it, rec):
        it.eng.fact(e)
    name_inputs(it, value=v, **{k: (x if k != "path" else x[1]) for k, x in f.items()})
    r = setattr_outcome(it, u, name, v)
    if r[0] == "raise":
        it.eng.prove(is_exc(it, r[1], "URLParseError"), "[C02] an assignment raises only URLParseError", info=str(r[1]))
    rec = it.force(u.f["_url"])
    for nm, e in wf(it, rec):
        it.eng.prove(e, f"[C04] after assigning {name}: " + nm)
    path_elems(it, rec)


def c_attach_c04(it, fn, args, kwargs):
    o, rec = args[0], (list(args[1:]) + list(kwargs.values()))[0]
    it.set_field(o, "_list", it.new_list(sym_pairs(it, "params")))
    it.set_field(o, "_url", rec)


C04_PARTS = {("urlstd.parse", "BasicURLParser.parse"): c_parse_c04, ("urlstd.parse", "URLSearchParams.attach"): c_attach_c04}
for g_ in SETTERS + ("href",):
    task(["C04"], name="setter_c04_" + g_, contracts=C04_PARTS, args=(g_,))(_setter_c04)
