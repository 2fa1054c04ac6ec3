"""C17: reparsing a serialized URL, as lemmas over the Standard's machine.

The contracts of C01 (every handler simulates the machine) and of C05 (the
serializer is the Standard's) reduce C17 to a statement about the machine alone:
run on the text T that the Standard's serializer gives for a record r, it ends
with r.  T and r are universally quantified: r's components are the slices of
T (lemma rt_layout), positions are unbounded integers.  The run is described by
a family of configurations (phase, offset); each task shows that one step of
the machine from any member of the family leads to the next member (induction
over the run; no bound on any length).
"""
import z3

from .tasks import *
from .tasks import zeq_z  # noqa: F401
from .tasks_parser import (C0_OUT, DIGIT, FRAG_OUT, FRESH, LOWER_CH, PATH_OUT, PATH_OUT_S, QUERY_OUT, SCHEME_CH, SQUERY_OUT, USER_OUT, cset, eqs, hp, special_f, step_spec)
from .core import simp_lt

OFF = z3.Function("rt_off", INT, INT)
P = "[C17] "
# texts of serialized hosts (lemmas rt_host_*): between brackets, or not
HT_IN = CharSet.of("0123456789abcdef:.")
HT_OUT = CharSet([(0x21, 0x7E)]).inter(CharSet.of("#/:<>?@[\\]^|").complement())


DOTS = (".", "%2e", "%2E", "..", ".%2e", ".%2E", "%2e.", "%2E.", "%2e%2e", "%2e%2E", "%2E%2e", "%2E%2E")


class Layout:
    """T = url_serialize(r), as slices of one text T."""

    def __init__(self, it, kind, cs=CharSet([(0x20, 0x7E)])):
        """kind: 'special', 'file', 'other' (with a host), 'nohost', 'opaque'."""
        eng = self.eng = it.eng
        self.it, self.kind = it, kind
        self.T = sym_str(it, "T", cs)
        n = self.n = eng.length(self.T)
        e = self.e = eng.int("e")
        F = eng.fact
        F(z3.And(e >= 1, e < n))
        self.scheme = self.sl(0, e)
        self.cls(0, e, SCHEME_CH)
        self.at(0, LOWER_CH)
        self.ch(e, ":")
        sp = special_f(it, self.scheme)
        fl = eqs(it, self.scheme, "file")
        self.sp = kind in ("special", "file")
        F(sp if self.sp else z3.Not(sp))
        if kind == "special":
            F(z3.Not(fl))
        if kind == "file":
            F(fl)
        self.P0 = e + 1
        self.path_done = False

    # ---- parts, each added when a phase needs it
    def sl(self, a, b):
        return self.it.getslice(self.T, a, b)

    def cls(self, a, b, cs):
        self.eng.fact(self.eng.allin(self.sl(a, b), cs))

    def chr(self, i):
        return self.eng.char_of(self.it.getslice(self.T, i, i + 1))

    def at(self, i, cs):
        self.eng.fact(cs.formula(self.AT(i)))

    def AT(self, i):
        from .core import parts_of
        return self.eng.note_access(parts_of(self.T)[0].a, i if is_z3(i) else z3.IntVal(i))

    def ch(self, i, c):
        self.eng.fact(z3.And(i >= 0, i < self.n, self.AT(i) == ord(c)))

    def ifch(self, cond, i, c):
        self.eng.fact(z3.Implies(cond, z3.And(i < self.n, self.AT(i) == ord(c))))

    def authority(self, creds=None):
        it, eng, F = self.it, self.eng, self.eng.fact
        e = self.e
        if self.kind in ("nohost", "opaque"):
            return
        self.ch(e + 1, "/")
        self.ch(e + 2, "/")
        A0 = self.A0 = e + 3
        if creds is None:
            creds = 0 if self.kind == "file" else eng.choose(3)
        self.creds = creds
        if creds:
            u1 = self.u1 = eng.int("u1")
            F(z3.And(u1 >= A0, u1 <= self.n))
            self.cls(A0, u1, USER_OUT)
            w1 = self.w1 = u1
            if creds == 2:
                w1 = self.w1 = eng.int("w1")
                F(z3.And(w1 > u1 + 1, w1 <= self.n))
                self.ch(u1, ":")
                self.cls(u1 + 1, w1, USER_OUT)
            else:
                F(u1 > A0)
            self.ch(w1, "@")
            self.H0 = w1 + 1
            self.username = self.sl(A0, u1)
            self.password = self.sl(u1 + 1, w1) if creds == 2 else ""
        else:
            self.H0 = A0
            self.username = self.password = ""
        self.hostport()

    def hostport(self):
        it, eng, F = self.it, self.eng, self.eng.fact
        creds, H0 = self.creds, self.H0
        H1 = self.H1 = eng.int("H1")
        F(z3.And(H1 >= H0, H1 <= self.n))
        self.hk = eng.choose(2)  # bracketed or not
        if self.hk:
            F(H1 > H0 + 2)
            self.ch(H0, "[")
            self.ch(H1 - 1, "]")
            self.cls(H0 + 1, H1 - 1, HT_IN)
        else:
            self.cls(H0, H1, HT_OUT)
            if self.kind == "special" or creds:
                F(H1 > H0)
        self.host_text = self.sl(H0, H1)
        # lemma rt_host_*: the host is what host parsing gives for its text
        f, v, val = hp(it, self.host_text, not self.sp)
        F(z3.Not(f))
        self.host = val
        if self.kind == "file":
            self.hasport = 0
        else:
            self.hasport = eng.choose(2)
        if self.hasport:
            P0 = self.P0 = eng.int("P0")
            F(z3.And(P0 > H1 + 1, P0 <= self.n))
            F(H1 > H0)
            self.ch(H1, ":")
            self.cls(H1 + 1, P0, DIGIT)
            port = self.port = spec(it, "digits_value", self.sl(H1 + 1, P0), 10)
            F(z3.And(port >= 0, port <= 65535))
            from .tasks_parser import no_default_port
            F(no_default_port(it, self.scheme, port))
        else:
            self.port = None
            self.P0 = H1

    def light(self, upto="path"):
        """The parts before the host (or the path) as arbitrary values."""
        it, eng, F = self.it, self.eng, self.eng.fact
        if self.kind == "nohost":
            return
        self.username, self.password = sym_str(it, "username", USER_OUT), sym_str(it, "password", USER_OUT)
        if upto == "host":
            H0 = self.H0 = eng.int("H0")
            F(z3.And(H0 > self.e, H0 <= self.n))
            self.creds = 1
            self.hostport()
            return
        self.host = hp(it, sym_str(it, "host_text", SCALAR), not self.sp)[2]
        self.port = ranged(it, "port", 0, 65535) if eng.choose(2) else None
        self.P0 = eng.int("P0")
        F(z3.And(self.P0 > self.e, self.P0 <= self.n))

    def path(self):
        it, eng, F = self.it, self.eng, self.eng.fact
        P0 = self.P0
        Q0 = self.Q0 = eng.int("Q0")
        F(z3.And(Q0 >= P0, Q0 <= self.n))
        self.PO = PATH_OUT_S if self.sp else PATH_OUT
        if self.kind == "opaque":
            self.cls(P0, Q0, C0_OUT.inter(cset("?#").complement()))
            F(z3.Implies(Q0 > P0, self.AT(P0) != ord("/")))
            self.pathv = self.sl(P0, Q0)
        else:
            a = self.pa = eng.atom("path", None, ("str", self.PO, "seg"))
            k = self.k = LEN(a)
            self.dot = False
            S0 = P0
            if self.kind == "nohost":
                F(k > 0)
                e0 = self.seg(0)
                l0 = eng.length(e0)
                self.dot = eng.choose(2) == 0
                if self.dot:
                    # "/." before a path whose first segment is empty
                    F(z3.And(k > 1, zeq_z(l0, 0)))
                    self.ch(P0, "/")
                    self.ch(P0 + 1, ".")
                    self.cls(P0 + 1, P0 + 2, cset("."))
                    S0 = P0 + 2
                else:
                    F(z3.Or(k == 1, z3.Not(zeq_z(l0, 0))))
            self.S0 = S0
            if self.sp:
                F(k > 0)
            F(z3.If(k == 0, Q0 == S0, z3.And(Q0 == OFF(k) - 1, S0 < self.n, self.AT(S0) == ord("/"))))
            F(OFF(0) == S0 + 1)
            self.pathv = Rope("list", [Sl(a, 0, k)])
            self.cls(S0, Q0, self.PO.union(cset("/")))  # lemma rt_path_text
        self.ends()

    def ends(self):
        """After the path: nothing, '?' or '#' (by the part that follows)."""
        eng, F, n = self.eng, self.eng.fact, self.n
        Q0 = self.Q0
        self.hasq = q = eng.bool("has_query")
        self.hasf = f = eng.bool("has_fragment")
        F0 = self.F0 = eng.int("F0")
        F(z3.And(F0 >= Q0, F0 <= n))
        self.ifch(q, Q0, "?")
        F(z3.If(q, F0 > Q0, F0 == Q0))
        self.ifch(f, F0, "#")
        F(z3.If(f, F0 < n, F0 == n))
        F(z3.Implies(q, zeq_b(eng.allin(self.sl(Q0 + 1, F0), SQUERY_OUT if self.sp else QUERY_OUT))))
        F(z3.Implies(f, zeq_b(eng.allin(self.sl(F0 + 1, n), FRAG_OUT))))

    def seg(self, j):
        """The j-th path segment, with its place in T."""
        it, eng, F = self.it, self.eng, self.eng.fact
        ok, x = eng.index(Rope("list", [Sl(self.pa, 0, self.k)]), j)
        return x

    def seg_at(self, j):
        it, eng, F = self.it, self.eng, self.eng.fact
        x = self.seg(j)
        l = eng.length(x)
        o = OFF(j)
        F(z3.And(o >= self.S0 + 1, o + l <= self.n, OFF(j + 1) == o + l + 1, OFF(j + 1) - 1 <= self.Q0))
        F(z3.Implies(j + 1 < self.k, z3.And(o + l < self.n, self.AT(o + l) == ord("/"))))
        F(z3.Implies(j + 1 == self.k, o + l == self.Q0))
        F(zeq_b(it.eq_nofork_safe(self.sl(o, o + l), x)))
        self.cls(o, o + l, self.PO)
        t = self.sl(o, o + l)
        for d in DOTS:
            F(z3.Not(zeq_b(it.eq_nofork_safe(t, d))))
        return t, o, l


def zeq_b(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def config(it, L, state, p, buffer="", at=False, br=False, pw=False, **url):
    """The machine in a configuration; url: the components set so far."""
    u = it.new_obj(it.spec.fn("Url"))
    f = dict(FRESH, **url)
    for k, v in f.items():
        if k == "path":
            if v == "list0":
                v = it.new_list(Rope("list", []))
            elif isinstance(v, Rope) and v.kind == "list":
                v = it.new_list(v)
            if isinstance(v, ListV):
                v.spec = True
        u.f[k] = v
    m = it.new_obj(it.spec.fn("Machine"))
    m.f.update(s=L.T, base=None, override=None, url=u, state=state, p=p, buffer=buffer, at=at, br=br, pw=pw, done="", verr=False)
    return m


def becomes(it, L, m, name, state, p, buffer="", at=None, br=None, pw=None, done="", **url):
    """Obligations: one step leads to the given configuration."""
    eng = it.eng
    step_spec(it, m)
    name = P + name
    if not eng.prove(m.f["done"] == done and (done != "" or m.f["state"] == state), f"{name}: the machine goes on in state {state}", info=f"{m.f['state']} {m.f['done']}"):
        return m
    if done == "":
        eng.prove(zeq(m.f["p"], p), f"{name}: the pointer", info=f"{m.f['p']} {p}")
        eng.prove(it.eq_nofork_safe(m.f["buffer"], buffer), f"{name}: the buffer", info=f"{m.f['buffer']} {buffer}")
        for k, v in (("at", at), ("br", br), ("pw", pw)):
            if v is not None:
                eng.prove(zeq(m.f[k], v), f"{name}: {k}", info=f"{m.f[k]} {v}")
    u = m.f["url"]
    f = dict(FRESH, **url)
    for k, v in f.items():
        x = u.f[k]
        if k == "path" and v == "list0":
            v = Rope("list", [])
        if isinstance(v, LazyV) or isinstance(x, LazyV):
            eng.prove(same_host(it, x, v), f"{name}: {k}", info=f"{x} {v}")
            continue
        if v is None or x is None:
            eng.prove(v is None and x is None, f"{name}: {k}", info=f"{x} {v}")
            continue
        if isinstance(v, Rope) and v.kind == "list":
            eng.prove(isinstance(x, ListV) and eng.seq_eq(x.r, v), f"{name}: {k}", info=f"{x} {v}")
            continue
        eng.prove(it.eq_nofork_safe(x, v) if not isinstance(x, ListV) else False, f"{name}: {k}", info=f"{x} {v}")
    return m


def same_host(it, x, v):
    if x is v:
        return True
    if isinstance(x, LazyV) and isinstance(v, LazyV):
        return zand([zeq(x.tag, v.tag)] + [it.eng.eq(a, b) if not isinstance(a, ListV) else False for a, b in zip(x.alts, v.alts)])
    return it.eng.eq(x, v)


def off(it, L, name, lo, hi):
    """An offset lo <= p < hi."""
    p = it.eng.int(name)
    it.eng.fact(z3.And(p >= lo, p < hi))
    return p


KINDS = ("special", "file", "other", "nohost", "opaque")
SIMH = {}


def rt(name, kinds):
    def deco(f):
        for k in kinds:
            task(["C17"], name=f"rt_{name}_{k}", contracts=SIMH, args=(k,), limit=200)(lambda it, k, f=f: f(it, Layout(it, k)))
        return f

    return deco


from .tasks_parser import SIM as _SIM  # noqa: E402

SIMH.update(_SIM)


# ------------------------------------------------------------------ the scheme
@rt("scheme", KINDS)
def rt_scheme(it, L):
    e = L.e
    i = it.eng.choose(3)
    if i == 0:
        becomes(it, L, config(it, L, "SCHEME_START", 0), "the first code point of the scheme", "SCHEME", 1, L.sl(0, 1))
    elif i == 1:
        p = off(it, L, "p", 1, e)
        becomes(it, L, config(it, L, "SCHEME", p, L.sl(0, p)), "a code point of the scheme", "SCHEME", p + 1, L.sl(0, p + 1))
    else:
        L.authority()
        L.path()
        m = config(it, L, "SCHEME", e, L.scheme)
        if L.kind == "special":
            becomes(it, L, m, "the end of the scheme", "SPECIAL_AUTHORITY_SLASHES", e + 1, scheme=L.scheme)
        elif L.kind == "file":
            becomes(it, L, m, "the end of the scheme", "FILE", e + 1, scheme=L.scheme)
        elif L.kind in ("other", "nohost"):
            becomes(it, L, m, "the end of the scheme", "PATH_OR_AUTHORITY", e + 2, scheme=L.scheme)
        else:
            becomes(it, L, m, "the end of the scheme", "OPAQUE_PATH", e + 1, scheme=L.scheme, path="")


@rt("slashes", ("special", "file", "other", "nohost"))
def rt_slashes(it, L):
    e, S = L.e, {"scheme": L.scheme}
    L.authority()
    L.path()
    if L.kind == "special":
        if it.eng.choose(2) == 0:
            becomes(it, L, config(it, L, "SPECIAL_AUTHORITY_SLASHES", e + 1, **S), "//", "SPECIAL_AUTHORITY_IGNORE_SLASHES", e + 3, **S)
        else:
            becomes(it, L, config(it, L, "SPECIAL_AUTHORITY_IGNORE_SLASHES", e + 3, **S), "after //", "AUTHORITY", e + 3, **S)
    elif L.kind == "file":
        if it.eng.choose(2) == 0:
            becomes(it, L, config(it, L, "FILE", e + 1, **S), "/", "FILE_SLASH", e + 2, host="", **S)
        else:
            becomes(it, L, config(it, L, "FILE_SLASH", e + 2, host="", **S), "//", "FILE_HOST", e + 3, host="", **S)
    elif L.kind == "other":
        becomes(it, L, config(it, L, "PATH_OR_AUTHORITY", e + 2, **S), "//", "AUTHORITY", e + 3, **S)
    elif L.dot:
        # ":/." then "//": the path starts at S0 - 1 with a "." segment
        becomes(it, L, config(it, L, "PATH_OR_AUTHORITY", e + 2, **S), "/.", "PATH", e + 2, **S)
    else:
        L.seg_at(z3.IntVal(0))
        becomes(it, L, config(it, L, "PATH_OR_AUTHORITY", e + 2, **S), "/ of a path", "PATH", e + 2, **S)


# ------------------------------------------------------------------ authority
@rt("authority", ("special", "other"))
def rt_authority(it, L):
    S = {"scheme": L.scheme}
    L.authority()
    L.path()
    A0, H0, P0 = L.A0, L.H0, L.P0
    C = dict(S, username=L.username, password=L.password)
    pw = L.creds == 2
    i = it.eng.choose(4) if L.creds else 2 + it.eng.choose(2)
    if i == 0:
        p = off(it, L, "p", A0, L.w1)
        if it.eng.branch(p == L.u1):
            p = L.u1
        becomes(it, L, config(it, L, "AUTHORITY", p, L.sl(A0, p), **S), "a code point of the credentials", "AUTHORITY", p + 1, L.sl(A0, p + 1), at=False, pw=False, **S)
    elif i == 1:
        becomes(it, L, config(it, L, "AUTHORITY", L.w1, L.sl(A0, L.w1), **S), "the @", "AUTHORITY", H0, at=True, pw=pw, **C)
    elif i == 2:
        p = off(it, L, "p", H0, P0)
        becomes(it, L, config(it, L, "AUTHORITY", p, L.sl(H0, p), at=bool(L.creds), pw=pw, **C), "a code point of the host or port", "AUTHORITY", p + 1, L.sl(H0, p + 1), at=bool(L.creds), pw=pw, **C)
    else:
        becomes(it, L, config(it, L, "AUTHORITY", P0, L.sl(H0, P0), at=bool(L.creds), pw=pw, **C), "the end of the authority", "HOST", H0, at=False, pw=False, br=False, **C)


@rt("host", ("special", "other"))
def rt_host(it, L):
    L.light("host")
    L.path()
    H0, H1, P0 = L.H0, L.H1, L.P0
    C = dict(scheme=L.scheme, username=L.username, password=L.password)
    i = it.eng.choose(2)
    if i == 0:
        p = off(it, L, "p", H0, H1)
        b0 = zand([p > H0]) if L.hk else False
        b1 = zand([p < H1 - 1]) if L.hk else False
        becomes(it, L, config(it, L, "HOST", p, L.sl(H0, p), br=b0, **C), "a code point of the host", "HOST", p + 1, L.sl(H0, p + 1), br=b1, **C)
    elif L.hasport:
        becomes(it, L, config(it, L, "HOST", H1, L.host_text, **C), "the end of the host", "PORT", H1 + 1, host=L.host, **C)
    else:
        becomes(it, L, config(it, L, "HOST", H1, L.host_text, **C), "the end of the host", "PATH_START", H1, host=L.host, **C)


@rt("port", ("special", "other"))
def rt_port(it, L):
    L.light("host")
    if not L.hasport:
        raise PathEnd()
    L.path()
    H1, P0 = L.H1, L.P0
    C = dict(scheme=L.scheme, username=L.username, password=L.password, host=L.host)
    if it.eng.choose(2) == 0:
        p = off(it, L, "p", H1 + 1, P0)
        becomes(it, L, config(it, L, "PORT", p, L.sl(H1 + 1, p), **C), "a digit of the port", "PORT", p + 1, L.sl(H1 + 1, p + 1), **C)
    else:
        becomes(it, L, config(it, L, "PORT", P0, L.sl(H1 + 1, P0), **C), "the end of the port", "PATH_START", P0, port=L.port, **C)


@rt("file_host", ("file",))
def rt_file_host(it, L):
    L.authority()
    L.path()
    H0, H1 = L.H0, L.H1
    C = dict(scheme=L.scheme, host="")
    if it.eng.choose(2) == 0:
        p = off(it, L, "p", H0, H1)
        becomes(it, L, config(it, L, "FILE_HOST", p, L.sl(H0, p), **C), "a code point of the host", "FILE_HOST", p + 1, L.sl(H0, p + 1), **C)
    else:
        # Inv: the host of a file URL is not "localhost"
        it.eng.fact(z3.Not(z3.And(L.host.tag == 0, zeq_b(eqs(it, L.host.alts[0], "localhost")))))
        if it.eng.branch(L.H1 == L.H0):
            becomes(it, L, config(it, L, "FILE_HOST", H1, "", **C), "an empty host", "PATH_START", H1, scheme=L.scheme, host="")
        else:
            becomes(it, L, config(it, L, "FILE_HOST", H1, L.host_text, **C), "the end of the host", "PATH_START", H1, scheme=L.scheme, host=L.host)


# ------------------------------------------------------------------ path
def upto_path(L):
    if L.kind == "opaque" or L.kind == "nohost":
        return dict(scheme=L.scheme)
    return dict(scheme=L.scheme, username=L.username, password=L.password, host=L.host, port=L.port)


def after_path(it, L, m, name, C):
    """The step at Q0 (the end of the path)."""
    Q0 = L.Q0
    if it.branch(L.hasq):
        becomes(it, L, m, name, "QUERY", Q0 + 1, query="", **C)
    elif it.branch(L.hasf):
        becomes(it, L, m, name, "FRAGMENT", Q0 + 1, fragment="", **C)
    else:
        becomes(it, L, m, name, "", 0, done="ok", **C)


@rt("path_start", ("special", "file", "other"))
def rt_path_start(it, L):
    L.light()
    L.path()
    C = upto_path(L)
    m = config(it, L, "PATH_START", L.P0, **C)
    if it.branch(L.k > 0):
        becomes(it, L, m, "the / before the path", "PATH", L.P0 + 1, **C)
    else:
        after_path(it, L, m, "an empty path", C)


def not_bar(it, x):
    """x is not a letter and '|'."""
    t = it.eng.term(x) if not isinstance(x, str) else None
    if t is None:
        return not (len(x) == 2 and x[1] == "|" and x[0].isascii() and x[0].isalpha())
    eng = it.eng
    return z3.Not(zeq_b(zand([zeq(eng.length(x), 2), eng.allin(it.getslice(x, 1, 2), cset("|")), eng.allin(it.getslice(x, 0, 1), ALPHA)])))


ALPHA = CharSet([(65, 90), (97, 122)])


def no_drive(it, L, x):
    """Inv: the first segment of a file path is not a letter and '|'."""
    if L.kind == "file":
        it.eng.fact(not_bar(it, x))


@rt("path", ("special", "file", "other", "nohost"))
def rt_path(it, L):
    eng = it.eng
    L.light()
    L.path()
    C = upto_path(L)
    i = eng.choose(4 if L.dot else 2)
    if i >= 2:
        # the "." that keeps "//" from being an authority
        if i == 2:
            becomes(it, L, config(it, L, "PATH", L.P0 + 1, **C), "the '.' before the path", "PATH", L.P0 + 2, L.sl(L.P0 + 1, L.P0 + 2), **C)
        else:
            becomes(it, L, config(it, L, "PATH", L.P0 + 2, L.sl(L.P0 + 1, L.P0 + 2), **C), "the '/' after '.'", "PATH", L.P0 + 3, **C)
        return
    eng.fact(L.k > 0)
    j = eng.int("j")
    eng.fact(z3.And(j >= 0, j < L.k))
    x, o, l = L.seg_at(j)
    pre = Rope("list", [Sl(L.pa, 0, j)])
    if eng.branch(j == 0):
        no_drive(it, L, x)
        pre = Rope("list", [])
        j = z3.IntVal(0)
    if i == 0:
        p = off(it, L, "p", o, o + l)
        becomes(it, L, config(it, L, "PATH", p, L.sl(o, p), path=pre, **C), "a code point of a path segment", "PATH", p + 1, L.sl(o, p + 1), path=pre, **C)
        return
    m = config(it, L, "PATH", o + l, x, path=pre, **C)
    nxt = end = Rope("list", [Sl(L.pa, 0, j + 1)])
    if z3.is_int_value(j):
        # the first segment, as the slice of T it is equal to (seg_at)
        nxt = end = Rope("list", [(x,)])
    else:
        end = L.pathv
    if eng.branch(j + 1 < L.k):
        becomes(it, L, m, "the end of a path segment", "PATH", o + l + 1, path=nxt, **C)
    else:
        after_path(it, L, m, "the end of the path", dict(C, path=end))


@rt("opaque_path", ("opaque",))
def rt_opaque(it, L):
    L.path()
    S = dict(scheme=L.scheme)
    P0, Q0 = L.P0, L.Q0
    if it.eng.choose(2) == 0:
        p = off(it, L, "p", P0, Q0)
        becomes(it, L, config(it, L, "OPAQUE_PATH", p, path=L.sl(P0, p), **S), "a code point of an opaque path", "OPAQUE_PATH", p + 1, path=L.sl(P0, p + 1), **S)
    else:
        after_path(it, L, config(it, L, "OPAQUE_PATH", Q0, path=L.pathv, **S), "the end of an opaque path", dict(S, path=L.pathv))


# ------------------------------------------------------------------ query, fragment
@rt("query", ("special", "opaque"))
def rt_query(it, L):
    L.P0 = it.eng.int("P0")
    it.eng.fact(z3.And(L.P0 > L.e, L.P0 <= L.n))
    L.Q0 = it.eng.int("Q0")
    it.eng.fact(z3.And(L.Q0 >= L.P0, L.Q0 < L.n))
    L.ends()
    it.eng.fact(L.hasq)
    S = dict(scheme=L.scheme, path="")
    Q1, F0 = L.Q0 + 1, L.F0
    if it.eng.choose(2) == 0:
        p = off(it, L, "p", Q1, F0)
        becomes(it, L, config(it, L, "QUERY", p, L.sl(Q1, p), query="", **S), "a code point of the query", "QUERY", p + 1, L.sl(Q1, p + 1), query="", **S)
    else:
        m = config(it, L, "QUERY", F0, L.sl(Q1, F0), query="", **S)
        if it.branch(L.hasf):
            becomes(it, L, m, "the end of the query", "FRAGMENT", F0 + 1, query=L.sl(Q1, F0), fragment="", **S)
        else:
            becomes(it, L, m, "the end of the query", "", 0, done="ok", query=L.sl(Q1, F0), **S)


@rt("fragment", ("special", "opaque"))
def rt_fragment(it, L):
    L.P0 = it.eng.int("P0")
    it.eng.fact(z3.And(L.P0 > L.e, L.P0 <= L.n))
    L.Q0 = it.eng.int("Q0")
    it.eng.fact(z3.And(L.Q0 >= L.P0, L.Q0 < L.n))
    L.ends()
    it.eng.fact(L.hasf)
    S = dict(scheme=L.scheme, path="")
    F1, n = L.F0 + 1, L.n
    if it.eng.choose(2) == 0:
        p = off(it, L, "p", F1, n)
        becomes(it, L, config(it, L, "FRAGMENT", p, fragment=L.sl(F1, p), **S), "a code point of the fragment", "FRAGMENT", p + 1, fragment=L.sl(F1, p + 1), **S)
    else:
        becomes(it, L, config(it, L, "FRAGMENT", n, fragment=L.sl(F1, n), **S), "the end of the fragment", "", 0, done="ok", fragment=L.sl(F1, n), **S)


# ------------------------------------------------------------------ hosts: host_parse(host_serialize(h)) == h
def c_dta_fixed(it, fn, args, kwargs):
    """domain_to_ascii on a text of which it is assumed to be a fixed point."""
    o = it.new_obj(it.spec.fn("Ascii"))
    o.f.update(failed=False, value=it.force(args[0]))
    return o


FIXED = {("hostspec", "domain_to_ascii"): c_dta_fixed}


def reparse(it, text, ns, want, what):
    r = spec(it, "host_parse", text, ns)
    it.eng.prove(znot(r.f["failed"]), f"{P}the text of {what} is parsed")
    if it.force(r.f["failed"]) is not True:
        prove_eq(it, r.f["value"], want, f"{P}the text of {what} gives that host again")


def host_chars(it, text, cs, what):
    it.eng.prove(it.eng.allin(text, cs), f"{P}the code points of the text of {what}", info=f"{text}")


@task(["C17"], contracts=FIXED)
def rt_host_opaque(it):
    s = sym_str(it, "host", SCALAR)
    it.eng.fact(it.eng.length(s) > 0)
    r = spec(it, "opaque_host_parse", s)
    if it.branch(r.f["failed"]):
        raise PathEnd()
    h = r.f["value"]
    host_chars(it, h, HT_OUT, "an opaque host")
    it.eng.prove(simp_lt(0, it.eng.length(h)), P + "the text of an opaque host is not empty")
    t = sym_str(it, "opaque", HT_OUT)  # any such text
    it.eng.fact(it.eng.length(t) > 0)
    reparse(it, t, True, t, "an opaque host")


@task(["C17"], contracts=FIXED)
def rt_host_domain(it):
    """A domain that ICU's ToASCII leaves alone (assumed by the statement)."""
    # what host_parse established when it returned this domain: no forbidden
    # domain code point, and it does not end in a number
    a = sym_str(it, "domain", CharSet([(0, 0x7F)]).inter(CharSet.of(spec_const_(it, "FORBIDDEN_DOMAIN")).complement()))
    it.eng.fact(it.eng.length(a) > 0)
    if it.branch(it.truth(spec(it, "ends_in_a_number", a))):
        raise PathEnd()
    host_chars(it, a, HT_OUT, "a domain")
    reparse(it, a, False, a, "a domain")


def spec_const_(it, name):
    from .tasks_host import spec_const
    return spec_const(it, name)


@task(["C17"], contracts=FIXED)
def rt_host_ipv4(it):
    o = [ranged(it, f"octet{i}", 0, 255) for i in range(4)]
    n = o[0] * 16777216 + o[1] * 65536 + o[2] * 256 + o[3]
    for i, d in enumerate((16777216, 65536, 256, 1)):
        e = (n / d if d > 1 else n) % 256 == o[i]
        it.eng.prove(e, P + "the octets are the digits of the address in base 256")
        it.eng.fact(e)
    text = spec(it, "ipv4_serialize", n)
    host_chars(it, text, HT_OUT.inter(CharSet.of("0123456789.")), "an IPv4 address")
    reparse(it, text, False, n, "an IPv4 address")


@task(["C17"])
def rt_host_ipv6(it):
    eng = it.eng
    a = tuple(ranged(it, f"piece{i}", 0, 65535) for i in range(8))
    if eng.choose(2) == 0:
        # the machine reads a word: one step from any of its prefixes
        m = it.new_obj(it.spec.fn("V6Machine"))
        w = sym_str(it, "word", CharSet.of("0123456789abcdef"))
        i = off(it, None, "i", 0, eng.length(w))
        n = ranged(it, "n", 0, 7)
        m.f.update(addr=it.new_list(tuple(a)), n=n, compress=None, word=it.getslice(w, 0, i), done="")
        it.call(it.spec.fn("ipv6_step"), [m, it.getslice(w, i, i + 1)], {})
        eng.prove(m.f["done"] == "", P + "a digit of a piece: no failure")
        eng.prove(it.eq_nofork_safe(m.f["word"], it.getslice(w, 0, i + 1)), P + "a digit of a piece is appended to the word")
        eng.prove(zeq(m.f["n"], n), P + "a digit of a piece: the same piece")
        return
    text = spec(it, "ipv6_serialize", it.new_list(tuple(a)))
    host_chars(it, text, HT_IN, "an IPv6 address")
    eng.prove(simp_lt(0, eng.length(text)), P + "the text of an IPv6 address is not empty")
    m = it.call(it.spec.fn("V6Machine"), [], {})
    k = it.call(it.spec.fn("ipv6_begin"), [m, text], {})
    from .core import parts_of

    for p in parts_of(it.getslice(text, it.force(k), None)):
        if m.f["done"] != "":
            break
        if isinstance(p, str):
            for c in p:
                it.call(it.spec.fn("ipv6_step"), [m, c], {})
        else:
            # the words of the text, by the lemma above
            eng.prove(simp_lt(m.f["n"], 8), P + "a piece follows fewer than eight")
            if not (isinstance(m.f["word"], str) and m.f["word"] == ""):
                raise Unsupported("adjacent pieces")
            m.f["word"] = Rope("str", [p])
    if m.f["done"] == "":
        it.call(it.spec.fn("ipv6_step"), [m, ""], {})
    r = it.call(it.spec.fn("ipv6_end"), [m], {})
    eng.prove(znot(r.f["failed"]), P + "the text of an IPv6 address is parsed", info=f"{text}")
    v = it.force(r.f["value"])
    v = v.r if isinstance(v, ListV) else v
    eng.prove(eng.eq(v, a) if not isinstance(v, Rope) else eng.seq_eq(v, Rope("list", [a])), P + "the text of an IPv6 address gives that address again", info=f"{text} {v}")


# ------------------------------------------------------------------ the serializer's text
def c_text(it, fn, args, kwargs):
    return it.L.host_text


def c_path_text(it, fn, args, kwargs):
    return it.L.sl(it.L.S0 if it.L.kind != "opaque" else it.L.P0, it.L.Q0)


def _rt_layout(it, kind):
    """url_serialize(r) is T, its parts at the places where the other lemmas have
    them; T is printable ASCII, so the parser strips and removes nothing."""
    eng = it.eng
    L = it.L = Layout(it, kind, SCALAR)
    L.authority()
    L.path()
    u = it.new_obj(it.spec.fn("Url"))
    f = dict(FRESH, scheme=L.scheme)
    if kind not in ("nohost", "opaque"):
        f.update(username=L.username, password=L.password, host=L.host, port=L.port)
        # the kinds of host: their text is not empty, or the host is ""
        eng.fact(z3.Implies(zeq_b(zeq(eng.length(L.host_text), 0)), L.host.tag == 0))
        eng.fact(L.host.tag >= 0)
    f["path"] = it.new_list(L.pathv) if isinstance(L.pathv, Rope) and L.pathv.kind == "list" else L.pathv
    if it.branch(L.hasq):
        f["query"] = L.sl(L.Q0 + 1, L.F0)
    if it.branch(L.hasf):
        f["fragment"] = L.sl(L.F0 + 1, L.n)
    u.f.update(f)
    text = spec(it, "url_serialize", u)
    walk(it, L, text, kind)
    PR = CharSet([(0x20, 0x7E)])
    for cs in (SCHEME_CH, USER_OUT, HT_IN, HT_OUT, DIGIT, PATH_OUT, C0_OUT, QUERY_OUT, SQUERY_OUT, FRAG_OUT):
        eng.prove(cs.subset(PR), P + "the serializer's parts are printable ASCII", info=f"{cs}")
    trailing = kind == "opaque" and f["query"] is None and f["fragment"] is None
    if not trailing:
        eng.prove(CharSet([(0x21, 0x7E)]).formula(L.AT(L.n - 1)), P + "the text does not end in a space")


def walk(it, L, text, kind):
    from .core import parts_of

    eng = it.eng
    pos = 0
    for p in parts_of(text):
        if isinstance(p, str):
            for c in p:
                eng.prove(zand([simp_lt(pos, L.n), zeq(L.AT(pos), ord(c))]), P + f"the serializer's {c!r} is in its place", info=f"{text}")
                pos = iadd(pos, 1)
        elif isinstance(p, Sl) and p.a.eq(parts_of(L.T)[0].a) and not p.fs:
            eng.prove(zeq(p.lo, pos), P + "the serializer's parts follow each other", info=f"{text}")
            pos = p.hi
        else:
            # str(port): a slice of T by the layout
            eng.prove(L.port is not None, P + "the parts of the text", info=f"{p}")
            eng.prove(zeq(pos, L.H1 + 1), P + "the port is in its place")
            pos = L.P0
    eng.prove(zeq(pos, L.n), P + "the serializer's text ends with its last part", info=f"{text}")


from .tasks import isub  # noqa: E402,F401
from .core import iadd  # noqa: E402

for k_ in KINDS:
    task(["C17"], name=f"rt_layout_{k_}", contracts={("hostspec", "host_serialize"): c_text, ("apispec", "path_serialize"): c_path_text}, args=(k_,), limit=200)(_rt_layout)


@task(["C17"])
def rt_path_text(it):
    """The text of a list path: "/" and the segments, one after the other."""
    eng = it.eng
    L = it.L = Layout(it, "other")
    L.light()
    L.path()
    eng.fact(L.k > 0)
    j = eng.int("j")
    eng.fact(z3.And(j >= 0, j < L.k))
    x, o, l = L.seg_at(j)
    if eng.branch(j == 0):
        eng.prove(z3.And(OFF(0) - 1 == L.S0, L.AT(L.S0) == ord("/")), P + "the first segment follows a /")
    else:
        L.seg_at(j - 1)
        eng.prove(L.AT(o - 1) == ord("/"), P + "a segment follows a /")
    u = it.new_obj(it.spec.fn("Url"))
    u.f.update(dict(FRESH, path=it.new_list(Rope("list", [(L.seg(j),)]))))
    t = spec(it, "path_serialize", u)
    eng.prove(eng.eq(t, eng.cat("/", L.seg(j))), P + "path_serialize adds / and the segment")
    eng.prove(it.eq_nofork_safe(L.seg(j), L.sl(o, OFF(j + 1) - 1)), P + "a segment is where T has it")
    eng.prove(eng.allin(L.sl(o, o + l), L.PO), P + "the code points of a segment")
    if eng.branch(j + 1 == L.k):
        eng.prove(OFF(j + 1) - 1 == L.Q0, P + "the last segment ends the path")


# ------------------------------------------------------------------ invariants of the machine's records
from .tasks_parser import base_record, copy_url, holds, implies, is_emptystr, is_list, is_none, is_str, make_base, mk_path, mk_rec, shape, str_in, sym_field, wf  # noqa: E402,F401

MSTATES = ("SCHEME_START", "SCHEME", "NO_SCHEME", "SPECIAL_RELATIVE_OR_AUTHORITY", "RELATIVE", "RELATIVE_SLASH", "PATH_OR_AUTHORITY", "SPECIAL_AUTHORITY_SLASHES", "SPECIAL_AUTHORITY_IGNORE_SLASHES",
           "AUTHORITY", "HOST", "PORT", "FILE", "FILE_SLASH", "FILE_HOST", "PATH_START", "PATH", "OPAQUE_PATH", "QUERY", "FRAGMENT")
NOSPLIT = cset("?#").complement()


def mshape(state):
    sh = shape("SCHEME_START" if state == "SCHEME" else state, None)
    if state == "AUTHORITY":
        sh["username"] = sh["password"] = "free"
    if state == "OPAQUE_PATH":
        sh["path"] = "opaque"
    if state == "FRAGMENT":
        sh["fragment"] = "free"
    if state == "QUERY":
        sh["query"] = "free"
    if state == "FILE_SLASH":
        sh["path"] = "list0"
    return sh


def first_lower(it, x):
    eng = it.eng
    return zand([simp_lt(0, eng.length(x)), eng.allin(it.getslice(x, 0, 1), LOWER_CH)])


def rec_inv(it, u, final):
    """The invariants of a record that C17 needs beyond C04 (wf)."""
    eng = it.eng
    f = u.f
    isfile = eqs(it, f["scheme"], "file")
    yield "the scheme starts with a letter", first_lower(it, f["scheme"]) if not isinstance(f["scheme"], str) else f["scheme"][:1].isalpha()
    yield "the host of a file URL is not localhost", implies(isfile, holds(it, f["host"], lambda x: znot(eqs(it, x, "localhost")) if is_strlike(x) else True))
    yield "an opaque path has no '?' or '#'", str_in(it, f["path"], NOSPLIT)
    ns = cset("/").complement()
    yield "an opaque path does not start with '/'", holds(it, f["path"], lambda x: zor([zeq(eng.length(x), 0), eng.allin(x, ns), eng.allin(it.getslice(x, 0, 1), ns)]) if is_strlike(x) else True)

    def first(x):
        if not isinstance(x, ListV):
            return True
        n = eng.length(x.r)
        if isinstance(n, int) and n == 0:
            return True
        from .core import parts_of
        out, before = [], []
        for p in parts_of(x.r):
            l = eng.part_len(p)
            e = p[0] if isinstance(p, tuple) else eng.part_elem("list", p, 0)
            out.append(zor([znot(z) for z in before] + [zeq(l, 0), not_bar(it, it.force(e))]))
            before.append(zeq(l, 0))
            if isinstance(l, int):
                break
        return implies(isfile, zand(out))

    yield "the first segment of a file path is not a letter and '|'", holds(it, f["path"], first)
    if final:
        sp = special_f(it, f["scheme"])
        yield "without a host, or with a special scheme, a list path is not empty", implies(zor([sp, is_none(it, f["host"])]), holds(it, f["path"], lambda x: znot(zeq(eng.length(x.r), 0)) if isinstance(x, ListV) else True))


def m_inv(it, m, state, base):
    """Inv(state): of a machine that is in `state`."""
    eng, u = it.eng, m.f["url"]
    for k, v in mshape(state).items():
        x = u.f[k]
        if v == "free":
            continue
        if k == "path":
            e = is_list(it, x) if v == "list" else is_str(it, x) if v == "opaque" else holds(it, x, lambda y: isinstance(y, ListV) and zeq(eng.length(y.r), 0))
        elif v is None:
            e = is_none(it, x)
        else:
            e = holds(it, x, lambda y: it.eq_nofork_safe(y, v) if is_strlike(y) else False)
        yield f"{k} is {v!r}", e
    if state in ("RELATIVE", "RELATIVE_SLASH", "SPECIAL_RELATIVE_OR_AUTHORITY"):
        yield "a relative state has a base with a list path", base is not None and is_list(it, base.f["path"])
        if base is not None:
            yield "the base is not a file URL", znot(eqs(it, base.f["scheme"], "file"))
    if state in ("RELATIVE_SLASH", "SPECIAL_RELATIVE_OR_AUTHORITY"):
        yield "the scheme is the base's", base is not None and it.eq_nofork_safe(u.f["scheme"], base.f["scheme"])
    if state == "SCHEME":
        yield "the buffer is a scheme", zand([first_lower(it, m.f["buffer"]), eng.allin(m.f["buffer"], SCHEME_CH)])
    if state == "OPAQUE_PATH":
        x = it.force(u.f["path"])
        yield "an opaque path follows no '/'", zor([znot(zeq(eng.length(x), 0)) if is_strlike(x) else False, simp_le(eng.length(m.f["s"]), m.f["p"]), eng.allin(it.getslice(m.f["s"], m.f["p"], iadd(m.f["p"], 1)), cset("/").complement())])
    if state == "PATH":
        sp = special_f(it, u.f["scheme"])
        yield "the buffer is percent-encoded", zand([eng.allin(m.f["buffer"], PATH_OUT), implies(sp, eng.allin(m.f["buffer"], PATH_OUT_S))])
    if state in ("PORT", "PATH_START"):
        yield "there is a host", znot(is_none(it, u.f["host"]))
    if state in ("AUTHORITY", "HOST", "PORT"):
        yield "the scheme is not file", znot(eqs(it, u.f["scheme"], "file"))
    if state in ("SPECIAL_AUTHORITY_SLASHES", "SPECIAL_AUTHORITY_IGNORE_SLASHES", "SPECIAL_RELATIVE_OR_AUTHORITY"):
        yield "the scheme is special and not file", zand([special_f(it, u.f["scheme"]), znot(eqs(it, u.f["scheme"], "file"))])
    if state == "PATH_OR_AUTHORITY":
        yield "the scheme is not special", znot(special_f(it, u.f["scheme"]))
    if state in ("FILE_SLASH", "FILE_HOST"):
        yield "the scheme is file", eqs(it, u.f["scheme"], "file")
    if mshape(state)["scheme"] == "free" and state not in ("RELATIVE", "FILE"):
        yield from rec_inv(it, u, state in ("QUERY", "FRAGMENT"))


def sources(it, u):
    return [x for c, x in alts(it, u.f["host"])]


BASED = ("SCHEME", "NO_SCHEME", "SPECIAL_RELATIVE_OR_AUTHORITY", "RELATIVE", "RELATIVE_SLASH", "FILE", "FILE_SLASH")


def _rt_inv(it, state):
    eng = it.eng
    s = sym_str(it, "input", SCALAR)
    n = eng.length(s)
    p = eng.int("p")
    eng.fact(z3.And(p >= 0, p <= n))
    # (the states after the relative ones do not read the base)
    _, base = make_base(it, base_record(it, state, None) if state in BASED else None)
    if base is not None:
        for nm, e in rec_inv(it, base, True):
            eng.fact(zeq_b(e) if isinstance(e, bool) else e)
    sh = mshape(state)
    f = {}
    f["scheme"] = sym_field(it, "scheme", "", None) if sh["scheme"] == "free" else sh["scheme"]
    sp = it.branch(special_f(it, f["scheme"]))
    if sp and state == "OPAQUE_PATH":
        raise PathEnd()
    for k in ("username", "password", "host", "port", "query", "fragment"):
        f[k] = sym_field(it, k, "", sp) if sh[k] == "free" else sh[k]
        if f[k] is not None and state == k.upper() and k in ("query", "fragment"):
            f[k] = f[k].alts[1]
    f["path"] = ("str", sym_str(it, "opath", C0_OUT)) if sh["path"] == "opaque" else mk_path(it, sh["path"], "", sp)
    if state == "OPAQUE_PATH":
        if it.branch(zeq(eng.length(f["path"][1]), 0)):
            f["path"] = ("str", "")
    u = mk_rec(it, f, "spec")
    m = it.new_obj(it.spec.fn("Machine"))
    buf = ""
    if state in ("SCHEME", "AUTHORITY", "HOST", "PORT", "FILE_HOST", "PATH", "QUERY"):
        buf = sym_str(it, "buffer", SCHEME_CH if state == "SCHEME" else (PATH_OUT_S if sp else PATH_OUT) if state == "PATH" else SCALAR)
    fl = {k: eng.bool(k) if state in ("AUTHORITY", "HOST") else False for k in ("at", "pw", "br")}
    m.f.update(s=s, base=base, override=None, url=u, state=state, p=p, buffer=buf, done="", verr=False, **fl)
    for nm, e in m_inv(it, m, state, base):
        eng.fact(zeq_b(e) if isinstance(e, bool) else e)
    hosts = sources(it, u) + (sources(it, base) if base is not None else [])
    name_inputs(it, state=state, input=s, index=p, buffer=buf, **{k: (x if k != "path" else x[1]) for k, x in f.items()})
    step_spec(it, m)
    T_ = f"{P}after a step in state {state}: "
    if m.f["done"] == "fail":
        return
    if m.f["done"] == "ok":
        it.force(m.f["url"].f["path"])
        for nm, e in rec_inv(it, m.f["url"], True):
            eng.prove(e, T_ + nm)
    else:
        st = m.f["state"]
        if st == "OPAQUE_PATH" or st in ("QUERY", "FRAGMENT", "PATH", "FILE", "RELATIVE"):
            it.force(m.f["url"].f["path"])
        for nm, e in m_inv(it, m, st, base):
            eng.prove(e, T_ + nm + f" ({st})", info=f"{m.f['url'].f['path']} {m.f['buffer']}")
    # a host is one the host parser returned for a URL of the same kind, or the base's
    u = m.f["url"]
    for x in sources(it, u):
        ok = x is None or isinstance(x, str) and x == "" or any(x is y for y in hosts) or any(x is y for y in getattr(it, "hp_results", ()))
        eng.prove(ok, T_ + "the host comes from the host parser", info=f"{x}")


def c_hp_spec(it, fn, args, kwargs):
    f, v, val = hp(it, it.force(args[0]), args[1])
    eng = it.eng
    it.hp_results = [x for x in val.alts]
    o = it.new_obj(it.spec.fn("HostResult"))
    o.f.update(failed=f, value=val, verr=v)
    return o


for s_ in MSTATES:
    task(["C17"], name=f"rt_inv_{s_.lower()}", contracts={("hostspec", "host_parse"): c_hp_spec}, args=(s_,), limit=250)(_rt_inv)
