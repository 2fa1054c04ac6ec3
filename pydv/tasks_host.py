"""C06-C09: percent-encoding, IPv4, IPv6 and host contracts."""
import z3

from .tasks import *
from .tasks import c_host_serialize, zeq_z

# ------------------------------------------------------------------ C06
SETS = {
    "C0_CONTROL": "C0_SET",
    "FRAGMENT": "FRAGMENT_SET",
    "QUERY": "QUERY_SET",
    "SPECIAL_QUERY": "SPECIAL_QUERY_SET",
    "PATH": "PATH_SET",
    "USERINFO": "USERINFO_SET",
    "COMPONENT": "COMPONENT_SET",
    "URLENCODED": "URLENCODED_SET",
}


def spec_const(it, name):
    return getattr(it.spec.native["speclib"], name)


def _encode_set(it, nm):
    """utf8_percent_encode(s, SAFE_x_PERCENT_ENCODE_SET, plus) for every string."""
    s = sym_str(it, "s", ANY)
    name_inputs(it, s=s)
    plus = bool(it.eng.choose(2))
    safe = it.prog.parse.ns.get(f"SAFE_{nm}_PERCENT_ENCODE_SET")
    want = spec(it, "pe", s, spec_const(it, SETS[nm]), plus)
    r = outcome(it, lambda: callf(it, "utf8_percent_encode", s, safe, plus))
    got = it.force(expect_ok(it, r, "utf8_percent_encode"))
    if nm == "URLENCODED":
        # urlencode() encodes '~' afterwards (quote() never encodes it)
        want = it.prims.replace(it, want, "~", "%7E")
        got = it.prims.replace(it, got, "~", "%7E")
    elif nm == "COMPONENT":
        pass
    prove_eq(it, got, want, f"utf8_percent_encode with the {nm} set == UTF-8 percent-encode")


for g_ in SETS:
    task(["C06"], name="percent_encode_" + g_.lower(), args=(g_,))(_encode_set)


@task(["C06"])
def percent_decode_str(it):
    s = sym_str(it, "s", ANY)
    name_inputs(it, s=s)
    which = it.eng.choose(3)
    if which == 0:
        want = spec(it, "percent_decode_string", s)
        r = outcome(it, lambda: callf(it, "string_percent_decode", s))
        prove_eq(it, expect_ok(it, r, "string_percent_decode"), want, "string_percent_decode == percent-decode a string")
    elif which == 1:
        want = spec(it, "utf8_bytes", s)
        r = outcome(it, lambda: callf(it, "utf8_encode", s))
        prove_eq(it, expect_ok(it, r, "utf8_encode"), want, "utf8_encode == UTF-8 encode")
    else:
        b = it.eng.sym_bytes("b") if hasattr(it.eng, "sym_bytes") else it.eng.full(it.eng.atom("b", BYTE), "bytes")
        want = spec(it, "utf8_decode_lossy", b)
        r = outcome(it, lambda: callf(it, "utf8_decode", b))
        prove_eq(it, expect_ok(it, r, "utf8_decode"), want, "utf8_decode == UTF-8 decode without BOM")


@task(["C06"])
def percent_round_trip(it):
    """Decoding the percent-encoding of s (with '%' in the set) gives s's UTF-8 bytes."""
    s = sym_str(it, "s", ANY)
    name_inputs(it, s=s)
    nm = ("COMPONENT", "URLENCODED")[it.eng.choose(2)]
    safe = it.prog.parse.ns.get(f"SAFE_{nm}_PERCENT_ENCODE_SET")
    want = spec(it, "utf8_bytes", s)
    e = expect_ok(it, outcome(it, lambda: callf(it, "utf8_percent_encode", s, safe)), "utf8_percent_encode")
    d = expect_ok(it, outcome(it, lambda: callf(it, "string_percent_decode", e)), "string_percent_decode")
    prove_eq(it, d, want, "string_percent_decode(utf8_percent_encode(s)) == UTF-8 bytes of s")


# ------------------------------------------------------------------ C07
def kwvalidity(it, withv=None):
    """Half of the paths pass a ValidityState (the other half pass none)."""
    if it.eng.choose(2) if withv is None else withv:
        v = sym_validity(it, "v_")
        it.set_field(v, "validation_errors", 0)
        it.set_field(v, "valid", True)
        for k in ("error_types", "descriptions"):
            it.set_list(v.f[k], ())
        return v, {"validity": v}
    return None, {}


def verr_of(it, v):
    return znot(zeq(it.force(it.getattr(v, "validation_errors")), 0))


@task(["C07", "C09", "C02"])
def ipv4_number(it):
    s = sym_str(it, "s", ANY)
    name_inputs(it, s=s)
    want = spec(it, "ipv4_number", s)
    r = outcome(it, lambda: callm(it, cls(it, "IPv4Address"), "_parse_ipv4_number", s))
    got = it.force(expect_ok(it, r, "_parse_ipv4_number"))
    n, e = it.force(got[0]), it.truth(got[1])
    failed = it.branch(it.truth(want.f["failed"]))
    if failed:
        it.eng.prove(simp_le(n, -1), "a failing IPv4 number is negative", info=f"{n}")
        it.eng.prove(e, "a failing IPv4 number is an error")
    else:
        it.eng.prove(zeq(n, want.f["value"]), "IPv4 number value", info=f"{n} / {want.f['value']}")
        it.eng.prove(zeq(e, it.truth(want.f["verr"])), "IPv4 number validation error")
        it.eng.prove(zand([simp_le(0, n), znot(zeq(it.eng.length(s), 0))]), "IPv4 number is not negative, and its text not empty")


N4F, N4V, N4E = (z3.Function(n, SQ, t) for n, t in (("n4_failed", BOOL), ("n4_value", INT), ("n4_error", BOOL)))


def n4_terms(it, s):
    t = it.eng.term(s)
    it.eng.fact(N4V(t) >= 0)
    it.eng.fact(z3.Implies(N4F(t), N4E(t)))
    # task ipv4_number
    it.eng.fact(z3.Implies(zeq_z(it.eng.length(s), 0), N4F(t)))
    return N4F(t), N4V(t), N4E(t)


def c_ipv4_number_code(it, fn, args, kwargs):
    f, v, e = n4_terms(it, it.force(args[-1]))
    return (z3.If(f, z3.IntVal(-1), v), e)


def c_ipv4_number_spec(it, fn, args, kwargs):
    f, v, e = n4_terms(it, it.force(args[-1]))
    o = it.new_obj(it.spec.fn("Number"))
    o.f.update(failed=f, value=v, verr=e)
    return o


NUM4 = {("urlstd.parse", "IPv4Address._parse_ipv4_number"): c_ipv4_number_code, ("hostspec", "ipv4_number"): c_ipv4_number_spec}


@task(["C07", "C09", "C02"], contracts=NUM4)
def ipv4_ends_in_number(it):
    s = sym_str(it, "s", ANY)
    name_inputs(it, s=s)
    want = it.truth(spec(it, "ends_in_a_number", s))
    r = outcome(it, lambda: callm(it, cls(it, "IPv4Address"), "is_ends_in_a_number", s))
    got = it.truth(expect_ok(it, r, "is_ends_in_a_number"))
    it.eng.prove(zeq(got, want), "is_ends_in_a_number == the ends-in-a-number checker")


def _ipv4_parse(it, withv):
    s = sym_str(it, "s", ANY)
    name_inputs(it, s=s)
    v, kw = kwvalidity(it, withv)
    want = spec(it, "ipv4_parse", s)
    r = outcome(it, lambda: callm(it, cls(it, "IPv4Address"), "parse", s, **kw))
    if r[0] == "raise":
        it.eng.prove(is_exc(it, r[1], "IPv4AddressParseError"), "IPv4Address.parse raises only IPv4AddressParseError", info=str(r[1]))
        it.eng.prove(it.truth(want.f["verr"]), "a failing IPv4 address is an error")
    it.eng.prove(zeq(it.truth(want.f["failed"]), r[0] == "raise"), "IPv4Address.parse fails exactly when the Standard's parser does")
    if r[0] == "ok":
        n = it.force(r[1])
        prove_eq(it, n, want.f["value"], "IPv4Address.parse == the Standard's number")
        it.eng.prove(zand([simp_le(0, n), simp_le(n, 2**32 - 1)]), "an IPv4 address is in 0..2^32-1")
    if v is not None:
        it.eng.prove(zeq(verr_of(it, v), it.truth(want.f["verr"])), "IPv4Address.parse records an error exactly when the Standard does")
        coherent(it, v)


task(["C07", "C09", "C02"], name="ipv4_parse", contracts=NUM4, args=(False,))(_ipv4_parse)
task(["C07", "C15"], name="ipv4_parse_validity", contracts=NUM4, args=(True,))(_ipv4_parse)


@task(["C07", "C05"])
def ipv4_serialize(it):
    n = ranged(it, "n", 0, 2**32 - 1)
    name_inputs(it, n=n)
    want = spec(it, "ipv4_serialize", n)
    r = outcome(it, lambda: callm(it, cls(it, "IPv4Address"), "serialize", n))
    prove_eq(it, expect_ok(it, r, "IPv4Address.serialize"), want, "IPv4Address.serialize == the IPv4 serializer")


@task(["C07"])
def ipv4_round_trip(it):
    n = ranged(it, "n", 0, 2**32 - 1)
    name_inputs(it, n=n)
    t = expect_ok(it, outcome(it, lambda: callm(it, cls(it, "IPv4Address"), "serialize", n)), "serialize")
    b = expect_ok(it, outcome(it, lambda: callm(it, cls(it, "IPv4Address"), "parse", t)), "parse(serialize(n))")
    it.eng.prove(zeq(it.force(b), n), "parse(serialize(n)) == n")
    e = it.truth(expect_ok(it, outcome(it, lambda: callm(it, cls(it, "IPv4Address"), "is_ends_in_a_number", t)), "is_ends_in_a_number"))
    it.eng.prove(e, "serialize(n) ends in a number")


# ------------------------------------------------------------------ C08
def sym_pieces(it, name="p"):
    return tuple(ranged(it, f"{name}{i}", 0, 65535) for i in range(8))


@task(["C08", "C05"])
def ipv6_serialize(it):
    a = sym_pieces(it)
    name_inputs(it, address=a)
    want = spec(it, "ipv6_serialize", a)
    arg = a if it.eng.choose(2) == 0 else it.new_list(a)
    r = outcome(it, lambda: callm(it, cls(it, "IPv6Address"), "serialize", arg))
    prove_eq(it, expect_ok(it, r, "IPv6Address.serialize"), want, "IPv6Address.serialize == the IPv6 serializer")


IP_SER = {
    ("urlstd.parse", "IPv4Address.serialize"): c_host_serialize,
    ("hostspec", "ipv4_serialize"): c_host_serialize,
}


V4T, V6T = z3.Function("ipv4_text", INT, SQ), z3.Function("ipv6_text", *([INT] * 8), SQ)


def c_v4s(it, fn, args, kwargs):
    n = it.force(args[-1])
    t = V4T(n if is_z3(n) else z3.IntVal(n))
    it.eng.note_atom(t)
    return it.eng.full(t)


def c_v6s(it, fn, args, kwargs):
    a = it.force(args[-1])
    a = a.r if isinstance(a, ListV) else a
    t = V6T(*[x if is_z3(x) else z3.IntVal(x) for x in a])
    it.eng.note_atom(t)
    return it.eng.full(t)


@task(
    ["C05", "C07", "C08", "C09", "C14", "C16"],
    contracts={
        ("urlstd.parse", "IPv4Address.serialize"): c_v4s,
        ("hostspec", "ipv4_serialize"): c_v4s,
        ("urlstd.parse", "IPv6Address.serialize"): c_v6s,
        ("hostspec", "ipv6_serialize"): c_v6s,
    },
)
def host_serialize(it):
    h = sym_host(it, "host", none=False, cs=ANY)
    name_inputs(it, host=h)
    want = spec(it, "host_serialize", h)
    r = outcome(it, lambda: callm(it, cls(it, "Host"), "serialize", h))
    prove_eq(it, expect_ok(it, r, "Host.serialize"), want, "Host.serialize == the host serializer")


NOCOLON = ANY.inter(CharSet.of(":").complement())


class V6Lockstep:
    """The Standard's parser, one code point per iteration of the code's loop."""

    def __init__(self, m, s):
        self.m, self.s, self.inside, self.used = m, s, False, False

    def enter(self, it, ctx, k):
        self.inside = self.used = True
        ok, c = it.eng.index(self.s, k)
        if not ok:
            raise Unsupported("the loop goes beyond the input")
        v6_step(it, self.m, it.eng.mk("str", [c]) if not is_strlike(c) else c)

    def step(self, it, ctx, k):
        self.inside = False
        if self.m.f["done"] != "":
            it.eng.prove(False, "IPv6Address.parse fails where the Standard's parser does")
            raise PathEnd()


def v6_step(it, m, c):
    h, it.loop_hook = it.loop_hook, None
    try:
        it.call(it.spec.fn("ipv6_step"), [m, c], {})
    finally:
        it.loop_hook = h


def v6_preds(m):
    def preds(it, ctx):
        f = m.f

        def word():
            return zeq(it.eng.length(f["word"]), 0)

        def holds(x, g):
            return zor([zand([c, g(y)]) for c, y in alts(it, x)])

        def iscolon(y):
            return it.eq_nofork_safe(y, ":") if is_strlike(y) else False

        yield "no colon in the word", lambda: it.eng.allin(f["word"], NOCOLON)
        yield "at most 8 pieces, 7 before a word", lambda: zand([simp_le(0, f["n"]), simp_le(f["n"], 8), zor([word(), simp_lt(f["n"], 8)])])
        yield "a word stands before or after the compression", lambda: holds(f["compress"], lambda y: True if y is None else zand([simp_le(1, y), simp_le(y, f["n"])]))
        yield "no pieces yet beyond n", lambda: zand([zor([simp_lt(i, f["n"]), zeq(x, 0)]) for i, x in enumerate(parts_of(f["addr"].r)[0])])
        yield "pieces end with a colon", lambda: zor([zeq(ctx.kcur, 0), znot(zeq(f["n"], 0)), znot(word())])
        for loc in ctx.order():
            if not ctx.is_spec(loc):
                for cond, nm in ((word, "after"), (lambda: znot(word()), "before")):
                    yield f"{loc} a colon {nm}", lambda loc=loc, cond=cond: zor([znot(cond()), holds(it.get_loc(loc), iscolon)])
                    yield f"{loc} a colon {nm} or start", lambda loc=loc, cond=cond: zor([znot(cond()), zeq(ctx.kcur, 0), holds(it.get_loc(loc), iscolon)])
                    yield f"{loc} no colon {nm}", lambda loc=loc, cond=cond: zor([znot(cond()), holds(it.get_loc(loc), lambda y: znot(iscolon(y)) if is_strlike(y) else y is not None)])

    return preds


@task(["C08", "C09", "C02", "C15"], contracts=lambda: log_contracts(), limit=500)
def ipv6_parse(it):
    eng = it.eng
    s = sym_str(it, "s", ANY)
    name_inputs(it, s=s)
    m = it.new_obj(it.spec.fn("V6Machine"))
    m.f.update(addr=it.new_list((0,) * 8), n=0, compress=None, word="", done="")
    m.f["addr"].spec = True
    p = spec(it, "ipv6_begin", m, s)
    ghost_log(it)
    kw = {"validity": it.V}
    hook = it.loop_hook = V6Lockstep(m, it.getslice(s, p, None))
    it.task_preds = v6_preds(m)
    T = "IPv6Address.parse "
    if m.f["done"] != "":
        it.loop_hook = None
    res = outcome(it, lambda: callm(it, cls(it, "IPv6Address"), "parse", s, **kw))
    it.loop_hook = it.task_preds = None
    if res[0] == "raise":
        eng.prove(it.truth(it.g.f["verr"]), "[C09,C15] a failing IPv6 address is recorded as an error")
        eng.prove(is_exc(it, res[1], "IPv6AddressParseError"), T + "raises only IPv6AddressParseError", info=str(res[1]))
    if hook.inside:
        if res[0] == "ok" and m.f["done"] == "":
            raise Unsupported("returns from inside the loop")
        eng.prove(res[0] == "raise" and m.f["done"] == "fail", T + "fails only where the Standard's parser does", info=f"{res} {m.f['done']}")
        return
    if m.f["done"] == "":
        if not hook.used and not eng.valid(zeq(eng.length(hook.s), 0)):
            raise Unsupported("not in lockstep")
        v6_step(it, m, "")
    for k in ("n", "compress"):
        x = it.force(m.f[k])
        if is_z3(x):
            for i in range(9):
                if eng.possible(zeq(x, i)) and it.branch(zeq(x, i)):
                    m.f[k] = i
                    break
            else:
                eng.prove(False, T + "keeps at most 8 pieces")
    want = spec(it, "ipv6_end", m)
    eng.prove(zeq(it.truth(want.f["failed"]), res[0] == "raise"), T + "fails exactly when the Standard's parser does", info=f"{res} {want.f}")
    if res[0] == "ok" and eng.valid(znot(it.truth(want.f["failed"]))):
        eng.prove(znot(it.truth(it.g.f["verr"])), "[C09,C15] no error is recorded for an IPv6 address that parses")
        prove_eq(it, res[1], want.f["value"], T + "== the Standard's pieces")


V6FIELDS = ("n", "compress", "done")


@task(["C08"])
def ipv6_word_lemma(it):
    """Reading a code point other than ":" only extends the word (so reading a
    colon-free text extends it by that text, by induction on its length)."""
    eng = it.eng
    m = it.new_obj(it.spec.fn("V6Machine"))
    n = eng.int("n")
    eng.fact(z3.And(n >= 0, n < 8))
    a = tuple(eng.int(f"a{i}") for i in range(8))
    w, c = sym_str(it, "word", NOCOLON), sym_str(it, "c", NOCOLON)
    eng.fact(eng.length(c) == 1)
    m.f.update(addr=it.new_list(a), n=n, compress=lazy(it, "compress", [None, eng.int("k")]), word=w, done="")
    before = dict(m.f)
    v6_step(it, m, c)
    for k in V6FIELDS:
        eng.prove(m.f[k] is before[k], f"{k} does not change")
    prove_eq(it, m.f["addr"].r, a, "the address does not change")
    prove_eq(it, m.f["word"], eng.cat(w, c), "the word grows")


@task(["C08"])
def ipv6_round_trip(it):
    """The Standard's parser inverts the Standard's serializer (the code equals
    them by ipv6_parse and ipv6_serialize)."""
    eng = it.eng
    a = tuple(eng.int(f"a{i}") for i in range(8))
    for x in a:
        eng.fact(z3.And(x >= 0, x < 65536))
    name_inputs(it, address=a)
    s = it.force(spec(it, "ipv6_serialize", a))
    m = it.new_obj(it.spec.fn("V6Machine"))
    m.f.update(addr=it.new_list((0,) * 8), n=0, compress=None, word="", done="")
    p = spec(it, "ipv6_begin", m, s)
    for q in parts_of(it.getslice(s, p, None)):
        if isinstance(q, str):
            for c in q:
                v6_step(it, m, c)
        else:
            w = eng.mk("str", [q])
            eng.prove(zand([eng.allin(w, NOCOLON), simp_lt(m.f["n"], 8)]), "a piece is read as one word")
            m.f["word"] = eng.cat(m.f["word"], w)
    v6_step(it, m, "")
    r = spec(it, "ipv6_end", m)
    eng.prove(znot(it.truth(r.f["failed"])), "a serialized address parses")
    if r.f["value"] is not None:
        prove_eq(it, r.f["value"], a, "parsing a serialized address gives it back")


# ------------------------------------------------------------------ C09
def c_errors_to_string(it, fn, args, kwargs):
    """Text for messages only."""
    return it.prims.opaque_str(it)


def ghost_log(it):
    it.V = Opaque("validity")
    it.V.truth = True
    it.g = it.new_obj("ghost")
    it.g.f["verr"] = False


def log_contracts():
    from .tasks_parser import SIM

    return {k: v for k, v in SIM.items() if k[1].startswith("_Logger")}


IDNA_C = {("urlstd.parse", "IDNA._errors_to_string"): c_errors_to_string}


def _idna(it, kind):
    eng = it.eng
    s = sym_str(it, "domain", ANY)
    strict = bool(eng.choose(2))
    name_inputs(it, domain=s, be_strict=strict)
    ghost_log(it)
    want = spec(it, "domain_to_" + kind, s, strict)
    how = eng.choose(3) if not strict else eng.choose(2)
    args, kw = ([s, strict], {}) if how == 0 else ([s], {"be_strict": strict}) if how == 1 else ([s], {})
    r = outcome(it, lambda: callm(it, cls(it, "IDNA"), "domain_to_" + kind, *args, validity=it.V, **kw))
    what = "domain to " + kind
    if r[0] == "raise":
        eng.prove(is_exc(it, r[1], "HostParseError") or is_exc(it, r[1], "IDNAError"), f"[C02,C09] IDNA.domain_to_{kind} raises only HostParseError or IDNAError", info=str(r[1]))
        eng.prove(is_exc(it, r[1], "URLParseError"), f"[C02] IDNA.domain_to_{kind} raises only URLParseError", info=str(r[1]))
    eng.prove(zeq(it.truth(want.f["failed"]), r[0] == "raise"), f"[C09,C15] IDNA.domain_to_{kind} fails exactly when the Standard's {what} does")
    if r[0] == "ok":
        prove_eq(it, r[1], want.f["value"], f"[C09] IDNA.domain_to_{kind} returns what ICU returns for the Standard's flags")
    verr = it.truth(want.f["failed"]) if kind == "ascii" else it.truth(want.f["verr"])
    eng.prove(zeq(it.truth(it.g.f["verr"]), verr), f"[C09,C15] IDNA.domain_to_{kind} records an error exactly when the Standard's {what} has one")


for g_ in ("ascii", "unicode"):
    task(["C09", "C02", "C15"], name="idna_to_" + g_, contracts=lambda: {**IDNA_C, **log_contracts()}, args=(g_,))(_idna)


def url_units_domain(it, including, excluding):
    from .prims import url_cps

    cs = url_cps()
    if including:
        cs = cs.union(CharSet.of(including))
    if excluding:
        cs = cs.inter(CharSet.of(excluding).complement())
    return cs


@task(["C09", "C15", "C02"])
def is_url_units(it):
    """is_url_units(s): True exactly for strings of URL units (without the
    excluded code points); the second result is text for messages."""
    eng = it.eng
    s = sym_str(it, "s", ANY)
    name_inputs(it, s=s)
    if it.branch(zeq(eng.length(s), 0)):
        s = ""
    excl = [None, spec_const(it, "FORBIDDEN_HOST")][eng.choose(2)]
    want = zand([it.truth(spec(it, "all_url_units", s)), eng.allin(s, url_units_domain(it, "%", excl))])
    r = outcome(it, lambda: callf(it, "is_url_units", s, **({"excluding": excl} if excl is not None else {})))
    got = it.force(expect_ok(it, r, "is_url_units"))
    eng.prove(isinstance(got, tuple) and len(got) == 2, "is_url_units returns a pair")
    eng.prove(zeq(it.truth(got[0]), want), "is_url_units(s) is true exactly for URL units")
    if not it.branch(it.truth(got[0])):
        n = eng.length(it.force(got[1]))
        eng.prove(z3.And(n >= 1, n <= 3) if is_z3(n) else 1 <= n <= 3, "the offending text has 1 to 3 characters")


# ------------------------------------------------------------------ the host parser
ENDS = z3.Function("ends_in_number", SQ, BOOL)
V4F, V4V, V4N = (z3.Function(n, SQ, t) for n, t in (("v4_failed", BOOL), ("v4_verr", BOOL), ("v4_value", INT)))
V6F = z3.Function("v6_failed", SQ, BOOL)
V6N = [z3.Function(f"v6_{i}", SQ, INT) for i in range(8)]


def c_ends(it, fn, args, kwargs):
    """(task ipv4_ends_in_number)"""
    return ENDS(it.eng.term(it.force(args[-1])))


def v4_result(it, s):
    t = it.eng.term(s)
    n = V4N(t)
    it.eng.fact(z3.And(n >= 0, n < 2**32))
    it.eng.fact(z3.Implies(V4F(t), V4V(t)))
    return V4F(t), n, V4V(t)


def v6_result(it, s):
    t = it.eng.term(s)
    n = tuple(f(t) for f in V6N)
    for x in n:
        it.eng.fact(z3.And(x >= 0, x < 65536))
    return V6F(t), n, V6F(t)


def c_addr_code(res, exc):
    """(tasks ipv4_parse*, ipv6_parse*)"""

    def c(it, fn, args, kwargs):
        from .tasks_parser import check_kw

        check_kw(it, kwargs)
        f, n, v = res(it, it.force(args[-1]))
        it.set_field(it.g, "verr", simp(zor([it.g.f["verr"], v])))
        if it.branch(f):
            it.throw(cls(it, exc), "address")
        return n

    return c


def c_addr_spec(res):
    def c(it, fn, args, kwargs):
        f, n, v = res(it, it.force(args[-1]))
        o = it.new_obj(it.spec.fn("HostResult"))
        o.f.update(failed=f, value=n, verr=v)
        return o

    return c


def c_idna_ascii(it, fn, args, kwargs):
    """(task idna_to_ascii)"""
    from .tasks_parser import bound, check_kw

    env = bound(it, fn, args, kwargs)
    extra = env[fn.node.args.kwarg.arg].d if fn.node.args.kwarg is not None else {}
    check_kw(it, extra)
    r = spec(it, "domain_to_ascii", it.force(env["domain"]), it.force(env["be_strict"]))
    if it.branch(it.truth(r.f["failed"])):
        it.set_field(it.g, "verr", True)
        it.throw(cls(it, ("IDNAError", "HostParseError")[it.eng.choose(2)]), "domain")
    return r.f["value"]


def c_units(it, fn, args, kwargs):
    """(task is_url_units)"""
    from .tasks_parser import bound

    env = bound(it, fn, args, kwargs)
    s, inc, exc = (it.force(env[x]) for x in ("s", "including", "excluding"))
    if inc != "%" or exc is not None and (not isinstance(exc, str) or set(exc) != set(spec_const(it, "FORBIDDEN_HOST"))):
        raise Unsupported("is_url_units arguments")
    ok = it.truth(spec(it, "all_url_units", s))
    if exc is not None:
        ok = zand([ok, it.eng.allin(s, CharSet.of(exc).complement())])
    if it.branch(ok):
        return (True, "")
    c = it.eng.sym_str("offending", ANY)
    n = it.eng.length(c)
    it.eng.fact(z3.And(n >= 1, n <= 3))
    return (False, c)


HOST_PARTS = {
    ("urlstd.parse", "IPv4Address.is_ends_in_a_number"): c_ends,
    ("hostspec", "ends_in_a_number"): c_ends,
    ("urlstd.parse", "IPv4Address.parse"): c_addr_code(v4_result, "IPv4AddressParseError"),
    ("hostspec", "ipv4_parse"): c_addr_spec(v4_result),
    ("urlstd.parse", "IPv6Address.parse"): c_addr_code(v6_result, "IPv6AddressParseError"),
    ("hostspec", "ipv6_parse"): c_addr_spec(v6_result),
    ("urlstd.parse", "IDNA.domain_to_ascii"): c_idna_ascii,
    ("urlstd.parse", "is_url_units"): c_units,
}


@task(["C09", "C01", "C02", "C03", "C04", "C15", "C16"], contracts=lambda: {**HOST_PARTS, **log_contracts()})
def host_parse(it):
    """Host.parse against the Standard's host parser, and what the parser tasks
    assume about it."""
    eng = it.eng
    s = sym_str(it, "host", ANY)
    name_inputs(it, host=s)
    ghost_log(it)
    ns = bool(eng.choose(2))
    want = spec(it, "host_parse", s, ns)
    how = eng.choose(3) if not ns else eng.choose(2)
    args, kw = ([s, ns], {}) if how == 0 else ([s], {"is_not_special": ns}) if how == 1 else ([s], {})
    r = outcome(it, lambda: callm(it, cls(it, "Host"), "parse", *args, validity=it.V, **kw))
    if r[0] == "raise":
        eng.prove(is_exc(it, r[1], "HostParseError") or is_exc(it, r[1], "IDNAError"), "[C02,C09] Host.parse raises only HostParseError or IDNAError", info=str(r[1]))
    failed = it.truth(want.f["failed"])
    eng.prove(zeq(failed, r[0] == "raise"), "Host.parse fails exactly when the Standard's host parser does")
    eng.prove(zeq(it.truth(it.g.f["verr"]), it.truth(want.f["verr"])), "[C09,C15] Host.parse records an error exactly when the Standard's host parser has one")
    if r[0] == "raise":
        eng.prove(it.truth(it.g.f["verr"]), "[C09,C15] a failing host is recorded as an error")
        return
    v = it.force(r[1])
    prove_eq(it, v, want.f["value"], "Host.parse returns the Standard's host")
    if kind_of(v) == "str":
        eng.prove(zeq(zeq(eng.length(v), 0), zeq(eng.length(s), 0)), "a parsed host is empty exactly when the input is")
        eng.prove(eng.allin(v, SCALAR), "[C02,C04,C09] a parsed host has no surrogates")
        bad = CharSet.of(spec_const(it, "FORBIDDEN_HOST" if ns else "FORBIDDEN_DOMAIN"))
        eng.prove(eng.allin(v, bad.complement()), "[C09] a parsed host has no forbidden code point", info=f"{v} {ns}")
    else:
        eng.prove(znot(zeq(eng.length(s), 0)), "no address from the empty string")
