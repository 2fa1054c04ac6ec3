"""C15 (and C02): ValidityState, the loggers and the validators."""
import z3

from .tasks import *
from .tasks import PARSER, add_errors, bp, coherent, sym_validity  # noqa: F401
from .interp import PyRaise
from .tasks_host import HOST_PARTS, c_addr_code, c_addr_spec, c_idna_ascii, c_units, v6_result


def counts(it, o):
    return it.force(it.getattr(o, "validation_errors"))


# ------------------------------------------------------------------ ValidityState
@task(["C15"])
def validity_prepend(it):
    eng = it.eng
    v = sym_validity(it, "v_")
    n = counts(it, v)
    ds = it.force(it.getattr(v, "descriptions")).r
    es = it.force(it.getattr(v, "error_types")).r
    it.any_match = True
    k = eng.choose(4)
    x = sym_str(it, "x", ANY)
    args = [(sym_str(it, "msg", ANY),), ("aa-bb: %r", x), ("no type: %r in %r", x, x), ("aa-bb: U+%04X %s %d", ord("a"), x, 5)][k]
    r = outcome(it, lambda: callm(it, v, "prepend", *args))
    expect_ok(it, r, "ValidityState.prepend")
    coherent(it, v, True)
    eng.prove(zeq(counts(it, v), iadd(n, 1)), "prepend() adds one error")
    for nm, old in (("descriptions", ds), ("error_types", es)):
        new = it.force(it.getattr(v, nm)).r
        prove_eq(it, it.getslice(new, 1, None), old, f"prepend() keeps the earlier {nm}")
        eng.prove(is_strlike(it.force(eng.index(new, 0)[1])), f"prepend() adds a text to {nm}")
    if k == 0:
        prove_eq(it, eng.index(it.force(it.getattr(v, "descriptions")).r, 0)[1], args[0], "the description is the message")


@task(["C15"])
def validity_reset(it):
    v = sym_validity(it, "v_")
    d = it.getattr(v, "disable_logging")
    expect_ok(it, outcome(it, lambda: callm(it, v, "reset")), "ValidityState.reset")
    coherent(it, v, False)
    it.eng.prove(zeq(counts(it, v), 0), "reset() discards everything")
    prove_eq(it, it.getattr(v, "disable_logging"), d, "reset() keeps disable_logging")


def _validity_add(it, inplace):
    eng = it.eng
    a, b = sym_validity(it, "a_"), sym_validity(it, "b_")
    na, nb = counts(it, a), counts(it, b)
    ra, rb = ({k: it.force(it.getattr(o, k)).r for k in ("error_types", "descriptions")} for o in (a, b))
    r = it.force(expect_ok(it, outcome(it, lambda: callm(it, a, "__iadd__" if inplace else "__add__", b)), "ValidityState addition"))
    eng.prove(isinstance(r, Obj) and r.cls is a.cls and (r is a) == inplace and r is not b, "the sum is a ValidityState")
    coherent(it, r)
    eng.prove(zeq(counts(it, r), iadd(na, nb)), "the sum has the errors of both")
    for k in ("error_types", "descriptions"):
        prove_eq(it, it.force(it.getattr(r, k)).r, eng.cat(ra[k], rb[k]), f"the {k} of both, in order")
        prove_eq(it, it.force(it.getattr(b, k)).r, rb[k], f"the right operand keeps its {k}")
    if not inplace:
        coherent(it, a)
        eng.prove(zeq(counts(it, a), na), "the left operand is unchanged")


for g_ in (False, True):
    task(["C15"], name="validity_iadd" if g_ else "validity_add", args=(g_,))(_validity_add)


def _log(it, name):
    """What the parser and host tasks assume about _Logger.info and .error."""
    eng = it.eng
    log = it.new_obj(cls(it, "_Logger"))
    log.f["logger"] = True
    which = eng.choose(3)
    v = sym_validity(it, "v_") if which else None
    n = counts(it, v) if v is not None else None
    x = sym_str(it, "x", ANY)
    kw = {} if which == 0 else {"validity": v}
    if which == 0 and eng.choose(2):
        kw = {"validity": None}
    r = outcome(it, lambda: callm(it, log, name, "aa-bb: %r", x, **kw))
    expect_ok(it, r, f"_Logger.{name}")
    if v is not None:
        coherent(it, v, True if name != "debug" else None)
        eng.prove(zeq(counts(it, v), iadd(n, 1 if name != "debug" else 0)), f"_Logger.{name} records {'one error' if name != 'debug' else 'nothing'}")


for g_ in ("info", "error", "debug"):
    task(["C15", "C02"], name="log_" + g_, args=(g_,))(_log)


# ------------------------------------------------------------------ hosts
def real_state(c):
    """A contract stated with a ghost "an error is recorded", on the
    ValidityState actually passed."""

    def f(it, fn, args, kwargs):
        val = it.force(kwargs.get("validity"))
        V, g = getattr(it, "V", None), getattr(it, "g", None)
        it.V, it.g = val, it.new_obj("ghost")
        it.g.f["verr"] = False
        kwargs = dict(kwargs)
        if "validity" in kwargs:
            kwargs["validity"] = val
        exc = None
        try:
            r = c(it, fn, args, kwargs)
        except PyRaise as e:
            exc = e
        verr = it.g.f["verr"]
        it.V, it.g = V, g
        if val is not None:
            add_errors(it, val, verr)
        if exc is not None:
            raise exc
        return r

    return f


def c_idna_unicode(it, fn, args, kwargs):
    """(task idna_to_unicode)"""
    from .tasks_parser import bound, check_kw

    env = bound(it, fn, args, kwargs)
    extra = env[fn.node.args.kwarg.arg].d if fn.node.args.kwarg is not None else {}
    check_kw(it, extra)
    r = spec(it, "domain_to_unicode", it.force(env["domain"]), it.force(env["be_strict"]))
    verr = it.truth(r.f["verr"])
    it.set_field(it.g, "verr", simp(zor([it.g.f["verr"], verr])))
    if it.branch(it.truth(r.f["failed"])):
        it.throw(cls(it, ("IDNAError", "HostParseError")[it.eng.choose(2)]), "domain")
    return r.f["value"]


VALID_PARTS = {
    ("urlstd.parse", "IPv6Address.parse"): real_state(c_addr_code(v6_result, "IPv6AddressParseError")),
    ("hostspec", "ipv6_parse"): c_addr_spec(v6_result),
    ("urlstd.parse", "IDNA.domain_to_ascii"): real_state(c_idna_ascii),
    ("urlstd.parse", "IDNA.domain_to_unicode"): real_state(c_idna_unicode),
    ("urlstd.parse", "is_url_units"): c_units,
}

VKIND = {"is_valid_domain": "valid_domain", "is_valid_ipv4_address": "valid_ipv4", "is_valid_ipv6_address": "valid_ipv6", "is_valid_opaque_host": "valid_opaque_host", "is_valid": "valid_host"}
VFN = {k: z3.Function(v, SQ, BOOL) for k, v in VKIND.items()}


def c_validator(meth):
    """The verdict is that of the specification; the state is reset and then
    invalid exactly for a negative verdict (tasks host_validator_*)."""

    def c(it, fn, args, kwargs):
        from .tasks_parser import bound

        env = bound(it, fn, args, kwargs)
        extra = env[fn.node.args.kwarg.arg].d if fn.node.args.kwarg is not None else {}
        names = [x.arg for x in fn.node.args.args]
        if set(extra) - {"validity"} or len(names) != 2:
            raise Unsupported("validator arguments")
        ok = VFN[meth](it.eng.term(it.force(env[names[1]])))
        val = it.force(extra.get("validity"))
        if val is not None:
            clear(it, val)
            add_errors(it, val, z3.Not(ok))
        return ok

    return c


def clear(it, val):
    it.set_field(val, "valid", True)
    it.set_field(val, "validation_errors", 0)
    for k in ("error_types", "descriptions"):
        it.set_list(it.force(it.getattr(val, k)), ())


def c_valid_spec(meth):
    return lambda it, fn, args, kwargs: VFN[meth](it.eng.term(it.force(args[-1])))


SUBS = {}
for m_ in VKIND:
    if m_ != "is_valid":
        SUBS[("urlstd.parse", "HostValidator." + m_)] = c_validator(m_)
        SUBS[("hostspec", VKIND[m_])] = c_valid_spec(m_)
SUBS[("urlstd.parse", "IPv4Address.is_ends_in_a_number")] = HOST_PARTS[("urlstd.parse", "IPv4Address.is_ends_in_a_number")]
SUBS[("hostspec", "ends_in_a_number")] = HOST_PARTS[("hostspec", "ends_in_a_number")]


def vkw(it):
    """No ValidityState, None, or one with results of earlier calls."""
    k = it.eng.choose(3)
    if k == 0:
        return None, {}
    if k == 1:
        return None, {"validity": None}
    v = sym_validity(it, "v_")
    return v, {"validity": v}


def verdict(it, v, r, want, what):
    eng = it.eng
    got = it.force(expect_ok(it, r, "[C02,C15] " + what))
    eng.prove(isinstance(got, (bool, z3.BoolRef)), what + " answers True or False", info=f"{got}")
    eng.prove(zeq(it.truth(got), want), f"[C15] {what} == the verdict of the specification", info=f"{got} / {want}")
    if v is not None:
        coherent(it, v)
        eng.prove(zeq(it.truth(it.getattr(v, "valid")), it.truth(got)), f"[C15] the state agrees with the verdict of {what}")


def _host_validator(it, meth):
    s = sym_str(it, "s", ANY)
    name_inputs(it, s=s)
    v, kw = vkw(it)
    want = it.truth(spec(it, VKIND[meth], s))
    r = outcome(it, lambda: callm(it, cls(it, "HostValidator"), meth, s, **kw))
    verdict(it, v, r, want, f"HostValidator.{meth}()")


for m_ in VKIND:
    con_ = dict(VALID_PARTS)
    if m_ == "is_valid":
        con_ = dict(SUBS)
    elif m_ == "is_valid_opaque_host":
        con_.update({k: SUBS[k] for k in (("urlstd.parse", "HostValidator.is_valid_ipv6_address"), ("hostspec", "valid_ipv6"))})
    task(["C15", "C02"], name="host_validator_" + m_, contracts=con_, args=(m_,))(_host_validator)


# ------------------------------------------------------------------ URLs
REG = z3.Function("registered", SQ, BOOL)


@task(["C15", "C02"])
def url_validator_scheme(it):
    s = sym_str(it, "s", ANY)
    name_inputs(it, s=s)
    v, kw = vkw(it)
    low = it.force(it.call(it.getattr(s, "lower"), [], {})) if not isinstance(s, str) else s.lower()
    reg = [x for x in it.prog.parse.ns["REGISTERED_SCHEMES"]]
    want = simp(zand([znot(zeq(it.eng.length(low), 0)), it.contains(low, tuple(reg))]))
    r = outcome(it, lambda: callm(it, cls(it, "URLValidator"), "is_valid_url_scheme", s, **kw))
    verdict(it, v, r, want, "URLValidator.is_valid_url_scheme()")


def c_valid_scheme(it, fn, args, kwargs):
    """(task url_validator_scheme)"""
    s = it.force(args[-1])
    ok = REG(it.eng.term(s))
    val = it.force(kwargs.get("validity"))
    if val is not None:
        clear(it, val)
        add_errors(it, val, z3.Not(ok))
    return ok


@task(["C15", "C02"], contracts={**PARSER, ("urlstd.parse", "URLValidator.is_valid_url_scheme"): c_valid_scheme})
def url_validator(it):
    """Valid exactly when parsing succeeds, no validation error is recorded and
    the scheme is registered."""
    eng = it.eng
    s = sym_str(it, "url", ANY)
    which = eng.choose(3)
    bf = sym_fields(it, "base_")
    v, kw = vkw(it)
    base = [None, sym_str(it, "base", ANY), mk_record(it, bf, "code")][which]
    fail, verr, sbase, m = False, [], None, None
    if which == 1:
        m0 = spec(it, "basic_parse", base)
        fail, sbase = m0.f["done"] == "fail", m0.f["url"]
        verr.append(m0.f["verr"])
    elif which == 2:
        sbase = mk_record(it, bf, "spec")
    if not fail:
        m = spec(it, "basic_parse", s, sbase)
        fail = m.f["done"] == "fail"
        verr.append(m.f["verr"])
    want = False
    if not fail:
        want = zand([znot(zor(verr)), REG(eng.term(it.force(m.f["url"].f["scheme"])))])
    else:
        # tasks parser_*: a failure is a validation error
        eng.fact(zor(verr))
    r = outcome(it, lambda: callm(it, cls(it, "URLValidator"), "is_valid", s, base, **kw))
    verdict(it, v, r, want, "URLValidator.is_valid()")
