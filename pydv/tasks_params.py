"""C10-C12: form-urlencoded, URLSearchParams, coherence of query and search_params."""
import z3

from .tasks import *
from .tasks import c_attach, zeq_z
from .interp import TYPES


def sym_params(it, f=None, cs=SCALAR):
    """A URLSearchParams with arbitrary pairs; attached to a record or not."""
    representation(it)
    o = it.new_obj(cls(it, "URLSearchParams"))
    r = sym_pairs(it, "pairs", cs)
    o.f["_list"] = it.new_list(r)
    o.f["_url"] = mk_record(it, f, "code") if f is not None else None
    return o, r


def arg_value(it, s, none=False):
    """str, int or (if allowed) None argument and the string it stands for."""
    which = it.eng.choose(3 if none else 2)
    if which == 0:
        return s, s
    if which == 1:
        n = ranged(it, "number", -(2**63), 2**63)
        return n, it.call(TYPES["str"], [n], {})
    return None, None


def c_urlencode(it, fn, args, kwargs):
    """urlencode(pairs) == the Standard's form serializer (task urlencode)."""
    if len(args) != 1 or kwargs:
        raise Unsupported("urlencode with an encoding")
    x = it.force(args[0])
    return spec(it, "form_serialize", it.new_list(it.to_seq(x)))


URLENC = {("urlstd.parse", "urlencode"): c_urlencode}


def _params_op(it, op, attached):
    eng = it.eng
    f = sym_fields(it, opath=PRINTABLE) if attached else None
    if attached:
        wf_record(it, f)
    o, r = sym_params(it, f)
    name = sym_str(it, "name", ANY)
    sval = sym_str(it, "value", ANY)
    name_inputs(it, pairs=r, name=name)
    su = mk_record(it, f, "spec") if attached else None
    sl = it.new_list(r)
    sl.spec = True
    args, sargs = [name], [name]
    if op in ("append", "set"):
        v, sv = arg_value(it, sval)
        args, sargs = [name, v], [name, sv]
    elif op == "delete":
        v, sv = arg_value(it, sval, True)
        args, sargs = [name, v] if v is not None or eng.choose(2) else [name], [name, sv]
    elif op == "sort":
        args, sargs = [], []
    want = spec(it, "params_" + op, sl, *sargs)
    if attached:
        spec(it, "params_update", su, want)
    res = outcome(it, lambda: callm(it, o, op, *args))
    got = expect_ok(it, res, f"URLSearchParams.{op}")
    eng.prove(it.force(got) is None, f"[C11] {op}() returns None")
    prove_eq(it, it.getattr(o, "_list"), want, f"[C11,C12] the list after {op}() is the Standard's")
    if attached:
        rec = o.f["_url"]
        for k in FIELDS:
            what = f"[C12] {k} after search_params.{op}()"
            prove_eq(it, rec.f[k], su.f[k], what)


for o_ in ("append", "delete", "set", "sort"):
    task(["C11", "C12"], name="params_" + o_, args=(o_, False))(_params_op)
    task(["C12"], name=f"params_{o_}_attached", contracts=URLENC, args=(o_, True))(_params_op)


@task(["C11"])
def params_get(it):
    eng = it.eng
    o, r = sym_params(it)
    name, sval = sym_str(it, "name", ANY), sym_str(it, "value", ANY)
    name_inputs(it, pairs=r, name=name)
    which = eng.choose(3)
    if which == 0:
        want = spec(it, "params_get", it.new_list(r), name)
        got = expect_ok(it, outcome(it, lambda: callm(it, o, "get", name)), "get")
        prove_eq(it, got, want, "get() returns the first value with that name, or None")
    elif which == 1:
        want = spec(it, "params_get_all", it.new_list(r), name)
        got = it.force(expect_ok(it, outcome(it, lambda: callm(it, o, "get_all", name)), "get_all"))
        eng.prove(isinstance(got, tuple) or isinstance(got, Rope), "get_all() returns a tuple", info=str(got))
        prove_eq(it, it.to_seq(got), it.to_seq(want), "get_all() returns all values with that name in order")
    else:
        v, sv = arg_value(it, sval, True)
        want = it.truth(spec(it, "params_has", it.new_list(r), name, sv))
        got = it.force(expect_ok(it, outcome(it, lambda: callm(it, o, "has", name, *([v] if v is not None or eng.choose(2) else []))), "has"))
        eng.prove(isinstance(got, bool) or isinstance(got, z3.BoolRef), "has() returns a bool", info=str(got))
        eng.prove(zeq(it.truth(got), want), "has() is True exactly when a matching pair exists")
    prove_eq(it, it.getattr(o, "_list"), it.new_list(r), "queries leave the list unchanged")


@task(["C10", "C11", "C12"])
def urlencode(it):
    """urlencode(pairs) is the Standard's form serializer."""
    r = sym_pairs(it, "pairs", ANY)
    name_inputs(it, pairs=r)
    want = spec(it, "form_serialize", it.new_list(r))
    got = expect_ok(it, outcome(it, lambda: callf(it, "urlencode", it.new_list(r))), "urlencode")
    prove_eq(it, got, want, "urlencode(pairs) == the Standard's serialization")


def sym_bytes(it, name):
    a = it.eng.atom(name, BYTE)
    return it.eng.full(a, "bytes")


@task(["C10", "C11", "C12"])
def parse_qsl(it):
    """parse_qsl(bytes) is the Standard's form parser."""
    b = sym_bytes(it, "query")
    name_inputs(it, query=b)
    want = spec(it, "form_parse", b)
    got = it.force(expect_ok(it, outcome(it, lambda: callf(it, "parse_qsl", b)), "parse_qsl"))
    it.eng.prove(isinstance(got, ListV), "parse_qsl returns a list")
    prove_eq(it, got, want, "parse_qsl(bytes) == the Standard's list of pairs")


@task(["C10", "C12"], contracts=URLENC)
def form_round_trip(it):
    """Parsing a serialized list of scalar-value pairs gives the list back."""
    r = sym_pairs(it, "pairs", SCALAR)
    name_inputs(it, pairs=r)
    s = expect_ok(it, outcome(it, lambda: callf(it, "urlencode", it.new_list(r))), "urlencode")
    it.eng.prove(it.eng.allin(s, ASCII), "the serialization is ASCII")
    b = expect_ok(it, outcome(it, lambda: callf(it, "utf8_encode", s)), "utf8_encode")
    got = expect_ok(it, outcome(it, lambda: callf(it, "parse_qsl", b)), "parse_qsl")
    prove_eq(it, got, it.new_list(r), "parse_qsl(urlencode(pairs)) == pairs")


@task(["C12", "C11"])
def params_attach(it):
    """attach(record): the list becomes the form parse of the record's query."""
    eng = it.eng
    f = sym_fields(it, opath=PRINTABLE)
    o, r = sym_params(it, f)
    name_inputs(it, query=f["query"])
    g = sym_fields(it, "new_")
    su = mk_record(it, g, "spec")
    rec = mk_record(it, g, "code")
    old = o.f["_url"]
    old_spec = mk_record(it, f, "spec")
    q = it.force(g["query"])
    if q is not None:
        it.branch(zeq_z(eng.length(q), 0))
    want = spec(it, "params_of_query", su.f["query"])
    if eng.choose(2):
        expect_ok(it, outcome(it, lambda: callm(it, o, "attach", rec)), "attach")
    else:
        o = expect_ok(it, outcome(it, lambda: it.call(cls(it, "URLSearchParams"), [rec], {})), "URLSearchParams(record)")
    prove_eq(it, o.f["_list"], want, "the attached list == form parse of the record's query")
    eng.prove(it.force(o.f["_url"]) is rec, "search_params is attached to the record")
    prove_record(it, rec, su, "[C12] attach changes no component:", FIELDS)
    prove_record(it, old, old_spec, "[C12] attach changes no component of the old record:", FIELDS)


def _params_new(it, which):
    eng = it.eng
    C = cls(it, "URLSearchParams")
    if which == "none":
        want, args = it.new_list(()), [[], [None]][eng.choose(2)]
    elif which == "str":
        s = sym_str(it, "init", ANY)
        name_inputs(it, init=s)
        want, args = spec(it, "params_from_string", s), [s]
    elif which == "pairs":
        r = sym_pairs(it, "init", ANY)
        name_inputs(it, init=r)
        want = spec(it, "params_from_pairs", it.new_list(r))
        args = [it.new_list(r)]
    elif which == "dict":
        # (bounded: dictionaries of at most two entries; strings of any length)
        n = eng.choose(3)
        items = [(sym_str(it, f"name{i}", ANY), arg_value(it, sym_str(it, f"value{i}", ANY))) for i in range(n)]
        name_inputs(it, **{f"name{i}": x[0] for i, x in enumerate(items)})
        if n == 2 and it.branch(eng.seq_eq(items[0][0], items[1][0])):
            raise PathEnd()
        want = spec(it, "params_from_dict", it.new_list(tuple((a, b[1]) for a, b in items)))
        args = [it.new_dict({a: b[0] for a, b in items})]
    elif which == "params":
        o, r = sym_params(it, sym_fields(it) if eng.choose(2) else None)
        want, args = it.new_list(r), [o]
    got = expect_ok(it, outcome(it, lambda: it.call(C, args, {})), "URLSearchParams()")
    prove_eq(it, got.f["_list"], want, f"the list built from {which}")
    eng.prove(it.force(got.f["_url"]) is None, "a new URLSearchParams is attached to no URL")
    if which == "params":
        prove_eq(it, o.f["_list"], it.new_list(r), "the copied object is unchanged")
        eng.prove(not isinstance(got.f["_list"], ListV) or it.force(got.f["_list"]) is not it.force(o.f["_list"]), "a copy has a list of its own")


for w_ in ("none", "str", "pairs", "dict", "params"):
    task(["C11"], name="params_new_" + w_, contracts=URLENC, args=(w_,))(_params_new)


@task(["C11"], contracts=URLENC)
def params_new_bad(it):
    """Wrong lengths raise ValueError, other types TypeError."""
    eng = it.eng
    a, b, c = (sym_str(it, x, ANY) for x in "abc")
    bad = [(), (a,), (a, b, c)][eng.choose(3)]
    if eng.choose(2):
        bad = it.new_list(bad)
    where = eng.choose(3)
    items = [(bad,), ((a, b), bad), (bad, (a, b))][where]
    r = outcome(it, lambda: it.call(cls(it, "URLSearchParams"), [it.new_list(items) if eng.choose(2) else items], {}))
    eng.prove(r[0] == "raise" and is_exc(it, r[1], "ValueError"), "a sequence with an item that is no pair raises ValueError", info=str(r))


@task(["C11"], contracts=URLENC)
def params_views(it):
    """len, iteration, indexing, keys, values, entries, in, == and str() are views of the list."""
    eng = it.eng
    o, r = sym_params(it)
    lst = it.new_list(r)
    name_inputs(it, pairs=r)
    w = eng.choose(9)
    ok = lambda f, what: it.force(expect_ok(it, outcome(it, f), what))
    from .prims import builtins

    B = lambda n, *a: it.call(it.builtins[n], list(a), {})
    if w == 0:
        eng.prove(zeq(ok(lambda: B("len", o), "len()"), eng.length(r)), "len(params) == number of pairs")
    elif w in (1, 2):
        g = ok(lambda: B("iter", o) if w == 1 else callm(it, o, "entries"), "iteration")
        prove_eq(it, it.new_list(it.to_seq(g)), lst, "iteration yields the pairs in order")
    elif w in (3, 4):
        nm, fn = (("keys", "params_keys"), ("values", "params_values"))[w - 3]
        want = spec(it, fn, lst)
        g = ok(lambda: callm(it, o, nm), nm)
        prove_eq(it, it.new_list(it.to_seq(g)), want, f"{nm}() in order")
    elif w == 5:
        name = sym_str(it, "name", ANY)
        want = it.truth(spec(it, "params_has", lst, name, None))
        g = ok(lambda: callm(it, o, "__contains__", name), "in")
        eng.prove(zeq(it.truth(g), want), "name in params == has(name)")
    elif w == 6:
        o2, r2 = sym_params2(it)
        g = ok(lambda: callm(it, o, "__eq__", o2), "==")
        eng.prove(zeq(it.truth(g), eng.eq(lst, it.new_list(r2))), "params == other compares the lists")
        for x in (None, "a=1", 3):
            g = ok(lambda: callm(it, o, "__eq__", x), "==")
            eng.prove(znot(it.truth(g)), "params == other types is False")
    elif w == 7:
        want = spec(it, "form_serialize", lst)
        g = ok(lambda: it.call(TYPES["str"], [o], {}), "str()")
        prove_eq(it, g, want, "str(params) is the form serialization")
        t = sym_str(it, "text", ANY)
        g = ok(lambda: callm(it, o, "__add__", t), "+")
        prove_eq(it, g, eng.cat(want, t), "params + text appends text to the serialization")
    else:
        i = eng.int("i")
        if not it.branch(z3.And(i >= 0, i < eng.length(r))):
            raise PathEnd()
        g = ok(lambda: callm(it, o, "__getitem__", i), "[]")
        prove_eq(it, g, eng.index(r, i)[1], "params[i] is the i-th pair")
    prove_eq(it, o.f["_list"], lst, "views leave the list unchanged")


def sym_params2(it):
    o = it.new_obj(cls(it, "URLSearchParams"))
    r = sym_pairs(it, "pairs2", SCALAR)
    o.f["_list"] = it.new_list(r)
    o.f["_url"] = None
    return o, r
