"""Executable contracts of the properties, evaluated on the real code.

For every property: gen(g) makes a JSON case, run(case) evaluates the property's
contract on the real code against the specification functions and returns None
or a description of the violation.
"""
import copy
import signal

from real import FIELDS, URLParseError, rec, up

import apispec
import hostspec
import speclib
import urlspec

SETTERS = ("protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash", "href")
GETTERS = ("href", "protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash")
RECORD_FAIL = ("fail",)


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout("no answer within the time limit (non-termination?)")


def guarded(fn, seconds=20):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        return fn()
    finally:
        signal.alarm(0)


# ------------------------------------------------------------------ helpers
def spec_record(u):
    """A specification record with the components of a real one."""
    r = urlspec.Url()
    for f in FIELDS:
        v = getattr(u, f)
        setattr(r, f, list(v) if isinstance(v, list) else v)
    return r


def spec_parse(s, base):
    """('fail',) or ('ok', Url, verr)."""
    b = None
    verr = False
    if base is not None:
        mb = urlspec.basic_parse(base)
        if mb.done != "ok":
            return RECORD_FAIL
        b, verr = mb.url, mb.verr
    m = urlspec.basic_parse(s, b)
    if m.done != "ok":
        return RECORD_FAIL
    return ("ok", m.url, verr or m.verr)


def real_parse(s, base=None, **kw):
    try:
        return ("ok", up.parse_url(s, base, **kw))
    except URLParseError:
        return RECORD_FAIL


def show(*xs):
    return ", ".join(ascii(x) for x in xs)


# ---------------------------------------------------------------------- C01
def gen_C01(g):
    return [g.url(), g.base()]


def run_C01(case):
    s, base = case
    a, r = spec_parse(s, base), real_parse(s, base)
    if a[0] != r[0]:
        return f"parse_url({show(s, base)}): Standard {a[0]}, urlstd {r[0]}"
    if a[0] == "ok" and rec(a[1]) != rec(r[1]):
        return f"parse_url({show(s, base)}): Standard {ascii(rec(a[1]))}, urlstd {ascii(rec(r[1]))}"
    # the same through the public URL class, with a URL object as base
    try:
        b = up.URL(base) if base is not None else None
        u = rec(up.URL(s, b)._url) if r[0] == "ok" else None
    except URLParseError:
        b = u = None
        if r[0] == "ok":
            return f"URL({show(s, base)}) fails but parse_url does not"
    if r[0] == "ok" and u != rec(r[1]):
        return f"URL({show(s, base)}) differs from parse_url"
    return None


# ---------------------------------------------------------------------- C02
LONG = ["9" * 5000, "0" * 5000, "1" * 400, "0x" + "f" * 5000, "1." * 3000, "[" + ":" * 300 + "]", "[::" + "9" * 5000 + ".1.1.1]", "%" * 500, "a" * 70000, "0" * 400 + "7"]


def gen_C02(g):
    s, b = g.url(), g.base()
    if g.r.random() < 0.015:
        t = g.pick(LONG)
        s = g.pick(["http://%s/", "http://h:%s/", "http://%s:80/", "a:%s", "http://u@[%s]", "a://%s", "file://%s/", "//%s"]) % t
    h = g.host() if g.r.random() < 0.985 else g.pick(LONG)
    if g.r.random() < 0.15:
        h = g.noise(6)
    return [s, b, h, g.noise(4)]


def run_C02(case):
    s, base, h, v = case

    def call(what, fn, errors=(URLParseError,)):
        try:
            return ("ok", guarded(fn))
        except errors as e:
            return ("fail", e)
        except Timeout as e:
            raise Bad(f"{what}: {e}")
        except RecursionError:
            raise Bad(f"{what} raised RecursionError")
        except Exception as e:
            raise Bad(f"{what} raised {type(e).__name__}: {ascii(str(e))[:200]}")

    class Bad(Exception):
        pass

    try:
        r = call(f"URL({show(s, base)})", lambda: up.URL(s, base))
        c = call(f"URL.can_parse({show(s, base)})", lambda: up.URL.can_parse(s, base), ())
        if c[1] is not (r[0] == "ok"):
            return f"URL.can_parse({show(s, base)}) is {c[1]} but URL() gives {r[0]}"
        if base is not None:
            rb = call(f"URL({show(base)})", lambda: up.URL(base))
            if rb[0] == "ok":
                c = call(f"URL.can_parse({show(s)}, URL({show(base)}))", lambda: up.URL.can_parse(s, rb[1]), ())
                if c[1] is not (r[0] == "ok"):
                    return f"URL.can_parse({show(s)}, URL({show(base)})) is {c[1]} but URL() gives {r[0]}"
        call(f"parse_url({show(s, base)})", lambda: up.parse_url(s, base))
        call(f"urlparse({show(s, base)})", lambda: up.urlparse(s, base))
        call(f"URLValidator.is_valid({show(s, base)})", lambda: up.URLValidator.is_valid(s, base), ())
        call(f"URLValidator.is_valid_url_scheme({show(v)})", lambda: up.URLValidator.is_valid_url_scheme(v), ())
        for ns in (False, True):
            call(f"Host.parse({show(h, ns)})", lambda: up.Host.parse(h, ns))
        for m in ("is_valid", "is_valid_domain", "is_valid_ipv4_address", "is_valid_ipv6_address", "is_valid_opaque_host"):
            for st in (None, up.ValidityState()):
                kw = {} if st is None else {"validity": st}
                x = call(f"HostValidator.{m}({show(h)})", lambda: getattr(up.HostValidator, m)(h, **kw), ())
                if x[1] not in (True, False):
                    return f"HostValidator.{m}({show(h)}) returned {x[1]!r}"
    except Bad as e:
        return str(e)
    return None


# ---------------------------------------------------------------------- C03
def gen_value(g, attr):
    r = g.r
    x = r.random()
    if x < 0.08:
        return ""
    if x < 0.16:
        return g.noise(6)
    if attr == "protocol":
        return g.scheme() + g.pick(["", ":", "://", ":x", " "])
    if attr in ("username", "password", "search", "hash"):
        from gen import QS

        return g.pick(["", "", "?", "#", "??", ":", "@"]) + g.text(QS)
    if attr in ("host", "hostname"):
        return g.host() + g.pick(["", "", "", ":80", ":8080", ":0", ":", "/", "?x", "#x", "\\", "@x", ":a"])
    if attr == "port":
        from gen import PORTS

        return g.text(PORTS) + g.pick(["", "", "/", "x", "\\", "?", " "])
    if attr == "pathname":
        return g.text(["", "x", "/", "?", "#"]) + g.path()
    return g.url()


START = ["http://u:p@h:8080/a/b?q#f", "http://h/", "http://h:0/", "https://h", "file:///a", "file://host/C:/x", "file:///", "a:opaque", "a:opaque  ", "a:opaque  ?q", "a:opaque  #f", "a:opaque  ?q#f", "a:/p", "a:/.//p", "a://h/p", "a://h", "a:///p", "a://u:p@h:1/p?q#f", "ws://h/x", "ftp://h:80/x", "blob:http://h/x", "http://[::1]:1/", "http://1.2.3.4/x?y", "a://h:21/", "javascript:x", "file://u/"]


def gen_C03(g):
    n = g.pick([1, 1, 1, 2, 3])
    ops = []
    for _ in range(n):
        a = g.pick(SETTERS)
        ops.append([a, gen_value(g, a)])
    return [g.pick(START) if g.r.random() < 0.8 else g.url(), ops]


def run_C03(case):
    s, ops = case
    try:
        u = up.URL(s)
    except URLParseError:
        return None
    for attr, v in ops:
        before = spec_record(u._url)
        sp = spec_record(u._url)
        if attr == "href":
            m = urlspec.basic_parse(v)
            want = m.done
            if want == "ok":
                sp = m.url
        else:
            want = getattr(apispec, "set_" + attr)(sp, v)
        try:
            setattr(u, attr, v)
            got = "ok"
        except URLParseError:
            got = "fail"
        what = f"URL with record {ascii(rec(before))}: .{attr} = {show(v)}"
        if want == "fail" and got == "ok" and rec(sp) == rec(u._url):
            got = "fail"  # a failing assignment may also be ignored silently
        if want != got:
            return f"{what}: Standard {want}, urlstd {got}"
        if rec(sp) != rec(u._url):
            return f"{what}: Standard {ascii(rec(sp))}, urlstd {ascii(rec(u._url))}"
        if u.search_params._url is not u._url:
            return f"{what}: search_params no longer belongs to the URL"
    return None


# ---------------------------------------------------------------------- C04
def gen_C04(g):
    s, ops = gen_C03(g)
    if g.r.random() < 0.5:
        return [g.url(), g.base(), ops[:1]]
    return [s, None, ops]


def ascii_outside(s, enc_set):
    return all(" " <= c <= "~" and c not in enc_set for c in s)


def wf(u):
    sc = u.scheme
    if not (sc and sc[0] in "abcdefghijklmnopqrstuvwxyz" and all(c in "abcdefghijklmnopqrstuvwxyz0123456789+-." for c in sc)):
        return "scheme"
    special = sc in speclib.SPECIAL_PORTS
    if u.port is not None:
        if not (isinstance(u.port, int) and not isinstance(u.port, bool) and 0 <= u.port <= 65535):
            return "port range"
        if speclib.SPECIAL_PORTS.get(sc) == u.port:
            return "default port"
    if special:
        if not isinstance(u.path, list):
            return "special URL with opaque path"
        if u.host is None:
            return "special URL without host"
        if u.host == "" and sc != "file":
            return "special URL with empty host"
    if u.host is None or u.host == "" or sc == "file":
        if u.username or u.password:
            return "credentials without host"
        if u.port is not None:
            return "port without host"
    for f in ("username", "password"):
        if not ascii_outside(getattr(u, f), speclib.USERINFO_SET):
            return f
    if isinstance(u.path, list):
        for seg in u.path:
            if not ascii_outside(seg, speclib.PATH_SET) or "/" in seg:
                return "path segment"
            if special and "\\" in seg:
                return "backslash in path segment"
            if seg in speclib.DOUBLE_DOT or seg in speclib.SINGLE_DOT:
                return "dot segment"
    else:
        if u.host is not None:
            return "opaque path with host"
        if not ascii_outside(u.path, speclib.C0_SET):
            return "opaque path"
        if u.path[:1] == "/":
            return "opaque path starting with /"
    if u.query is not None and not ascii_outside(u.query, speclib.SPECIAL_QUERY_SET if special else speclib.QUERY_SET):
        return "query"
    if u.fragment is not None and not ascii_outside(u.fragment, speclib.FRAGMENT_SET):
        return "fragment"
    if isinstance(u.host, str):
        if special and not speclib.no_chars_in(u.host, speclib.FORBIDDEN_DOMAIN):
            return "forbidden domain code point in host"
        if not special and (not speclib.no_chars_in(u.host, speclib.FORBIDDEN_HOST) or not ascii_outside(u.host, speclib.C0_SET)):
            return "forbidden host code point in host"
    elif isinstance(u.host, int):
        if not 0 <= u.host < 2**32:
            return "IPv4 range"
    elif u.host is not None:
        if len(u.host) != 8 or not all(isinstance(x, int) and 0 <= x < 65536 for x in u.host):
            return "IPv6 pieces"
    return None


def run_C04(case):
    s, base, ops = case
    try:
        u = up.URL(s, base)
    except URLParseError:
        return None
    w = wf(u._url)
    if w:
        return f"URL({show(s, base)}) breaks the record invariant ({w}): {ascii(rec(u._url))}"
    for attr, v in ops:
        before = rec(u._url)
        try:
            setattr(u, attr, v)
        except URLParseError:
            pass
        w = wf(u._url)
        if w:
            return f"URL with record {ascii(before)}: .{attr} = {show(v)} breaks the record invariant ({w}): {ascii(rec(u._url))}"
    return None


# ---------------------------------------------------------------------- C05
def gen_record(g):
    r = g.r
    path = [g.pick(["", "a", "b", "..", "C:", "a;b", "x y"]) for _ in range(r.randint(0, 4))]
    if r.random() < 0.2:
        path = g.pick(["", "opaque", "//x", "a  ", "x;y"])
    host = g.pick([None, "", "h", "ex.com", 0, 16909060, 2**32 - 1, [0] * 8, [1, 0, 0, 2, 0, 0, 0, 3], [1, 2, 3, 4, 5, 6, 7, 8], [0, 1, 0, 0, 1, 0, 0, 0], [65535] * 8])
    if r.random() < 0.1:
        host = [g.pick([0, 0, 1, 65535]) for _ in range(8)]
    return dict(
        scheme=g.pick(["http", "https", "file", "a", "ftp", "ws", "blob"]),
        username=g.pick(["", "", "u", "%40"]),
        password=g.pick(["", "", "p", ":"]),
        host=host,
        port=g.pick([None, None, 0, 1, 80, 8080, 65535]),
        path=path,
        query=g.pick([None, "", "q", "a=b&c"]),
        fragment=g.pick([None, "", "f", "#"]),
    )


def mk_record(d):
    d = dict(d)
    if isinstance(d["host"], list):
        d["host"] = tuple(d["host"])
    if isinstance(d["path"], list):
        d["path"] = list(d["path"])
    return up.URLRecord(**d)


def mk_url(d):
    u = up.URL("http://h/")
    u._url = mk_record(d)
    u._query.attach(u._url)
    return u


def gen_C05(g):
    a = gen_record(g)
    b = dict(a)
    for _ in range(g.r.randint(0, 2)):
        k = g.pick(FIELDS)
        b[k] = gen_record(g)[k]
    return [a, b]


def run_C05(case):
    a, b = mk_record(case[0]), mk_record(case[1])
    for d in case:
        u, r = mk_url(d), mk_record(d)
        sp = spec_record(r)
        for ex in (False, True):
            want, got = apispec.url_serialize(sp, ex), r.serialize_url(ex)
            if want != got:
                return f"serialize_url({ex}) of {ascii(d)}: Standard {ascii(want)}, urlstd {ascii(got)}"
        for f in GETTERS:
            want, got = getattr(apispec, "get_" + f)(sp), getattr(u, f)
            if want != got:
                return f"URL.{f} of {ascii(d)}: Standard {ascii(want)}, urlstd {ascii(got)}"
        if str(u) != u.href or str(r) != u.href or r.href != u.href:
            return f"str()/href disagree for {ascii(d)}"
        if rec(mk_record(d)) != rec(r):
            return f"serializing changed {ascii(d)}"
        if r == str(r) or u == str(u) or r == u or u == r or r == None or u == None:  # noqa: E711
            return f"equal to an object of another type: {ascii(d)}"
    ua, ub = mk_url(case[0]), mk_url(case[1])
    for ex in (False, True):
        want = apispec.url_serialize(spec_record(a), ex) == apispec.url_serialize(spec_record(b), ex)
        for x, y in ((a, b), (b, a), (ua, ub), (ub, ua)):
            if x.equals(y, ex) is not want or x.equals(y, exclude_fragments=ex) is not want:
                return f"equals(exclude_fragments={ex}) of {ascii(case)}: Standard {want}"
            if not ex and ((x == y) is not want or (x != y) is want):
                return f"== of {ascii(case)}: Standard {want}"
    return None


# ---------------------------------------------------------------------- C06
SETS = {
    "SAFE_C0_CONTROL_PERCENT_ENCODE_SET": speclib.C0_SET,
    "SAFE_FRAGMENT_PERCENT_ENCODE_SET": speclib.FRAGMENT_SET,
    "SAFE_QUERY_PERCENT_ENCODE_SET": speclib.QUERY_SET,
    "SAFE_SPECIAL_QUERY_PERCENT_ENCODE_SET": speclib.SPECIAL_QUERY_SET,
    "SAFE_PATH_PERCENT_ENCODE_SET": speclib.PATH_SET,
    "SAFE_USERINFO_PERCENT_ENCODE_SET": speclib.USERINFO_SET,
    "SAFE_COMPONENT_PERCENT_ENCODE_SET": speclib.COMPONENT_SET,
}
ALWAYS_SAFE = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~"


def gen_C06(g):
    r = g.r
    if r.random() < 0.5:
        s = "".join(chr(r.randrange(0, 0x80)) if r.random() < 0.5 else g.atom() for _ in range(r.randint(0, 6)))
    else:
        s = "".join(g.pick(["%", "4", "1", "f", "F", "g", "%4", "%41", "%e2%82%ac", "a", "\u20ac", "\ud83c", "\udf08", "\U0001f308", "\x00", "+", " "]) for _ in range(r.randint(0, 8)))
    safe = "".join(sorted({chr(r.randrange(0x20, 0x7F)) for _ in range(r.randint(0, 20))}))
    return [s, g.pick(sorted(SETS)), safe, r.random() < 0.3]


def run_C06(case):
    s, name, safe, plus = case
    keep = getattr(up, name, None)
    if keep is not None:
        want = speclib.pe(s, SETS[name])
        got = up.string_percent_encode(s, keep)
        if want != got:
            return f"string_percent_encode({show(s)}, {name}): Standard {ascii(want)}, urlstd {ascii(got)}"
        if up.utf8_percent_encode(s, keep) != want:
            return f"utf8_percent_encode({show(s)}, {name}): Standard {ascii(want)}"
        want = speclib.pe(s, SETS[name], True)
        if " " not in keep:
            got = up.string_percent_encode(s, keep, space_as_plus=True)
            if want != got:
                return f"string_percent_encode({show(s)}, {name}, space_as_plus=True): Standard {ascii(want)}, urlstd {ascii(got)}"
    if plus:
        safe = safe.replace(" ", "")
    enc = frozenset(chr(c) for c in range(0x80) if chr(c) not in safe and chr(c) not in ALWAYS_SAFE)
    want = speclib.pe(s, enc, plus)
    got = up.string_percent_encode(s, safe, space_as_plus=plus)
    if "+" in safe or not plus:
        if want != got:
            return f"string_percent_encode({show(s, safe)}, space_as_plus={plus}): want {ascii(want)}, urlstd {ascii(got)}"
        if up.utf8_percent_encode(s, safe, plus) != want:
            return f"utf8_percent_encode({show(s, safe)}, {plus}): want {ascii(want)}"
    got = up.string_percent_decode(s)
    want = speclib.percent_decode_string(s)
    if want != got:
        return f"string_percent_decode({show(s)}): Standard {want!r}, urlstd {got!r}"
    if up.utf8_encode(s) != speclib.utf8_bytes(s):
        return f"utf8_encode({show(s)}): urlstd {up.utf8_encode(s)!r}"
    if up.utf8_decode(got) != speclib.utf8_decode_lossy(want):
        return f"utf8_decode({got!r})"
    e = up.string_percent_encode(s, "".join(c for c in safe if c != "%"))
    if up.string_percent_decode(e) != speclib.utf8_bytes(s):
        return f"string_percent_decode(string_percent_encode({show(s)})) is not the UTF-8 of the string"
    # the sets as used by the parser
    x = speclib.usv(s)
    return parser_sets(x)


def parser_sets(x):
    y = "".join(c for c in x if c not in "\t\n\r/?#\\")
    u = up.URL("http://h/")
    u.username = x
    if u.username != speclib.pe(x, speclib.USERINFO_SET):
        return f"userinfo set as used by the username setter on {show(x)}: {ascii(u.username)}"
    z = "".join(c for c in x if c not in "\t\n\r")
    for sp, st in (("http://h/", speclib.SPECIAL_QUERY_SET), ("a://h/", speclib.QUERY_SET)):
        u = up.URL(sp)
        u.search = "?" + z
        want = speclib.pe(z, st)
        if (u._url.query or "") != want:
            return f"query set as used by the parser ({sp}) on {show(z)}: {ascii(u._url.query)}"
        u.hash = "#" + z
        if (u._url.fragment or "") != speclib.pe(z, speclib.FRAGMENT_SET):
            return f"fragment set as used by the parser on {show(z)}: {ascii(u._url.fragment)}"
    u = up.URL("a://h/")
    u.pathname = "/x" + y
    if u.pathname != "/x" + speclib.pe(y, speclib.PATH_SET):
        return f"path set as used by the parser on {show(y)}: {ascii(u.pathname)}"
    w = "x" + y + "x"
    p = up.parse_url("a:" + w).path
    if p != speclib.pe(w, speclib.C0_SET):
        return f"C0 set as used for opaque paths on {show(w)}: {ascii(p)}"
    e = up.urlencode([(x, x)])
    want = speclib.pe(x, speclib.URLENCODED_SET, True)
    if e != want + "=" + want:
        return f"urlencoded set as used by urlencode on {show(x)}: {ascii(e)}"
    return None


def exhaustive_C06():
    """Every code point through every set (as used by the public API)."""
    n = 0
    for lo in list(range(0, 0x3000, 0x40)) + list(range(0xD7C0, 0xD800, 0x40)) + list(range(0xE000, 0x110000, 0x400)):
        x = "".join(chr(c) for c in range(lo, lo + 0x40) if not 0xD800 <= c <= 0xDFFF)
        m = run_C06([x, "SAFE_PATH_PERCENT_ENCODE_SET", "", False])
        n += 1
        if m:
            return n, [x, "SAFE_PATH_PERCENT_ENCODE_SET", "", False], m
        for name in SETS:
            keep = getattr(up, name, None)
            if keep is not None and up.string_percent_encode(x, keep) != speclib.pe(x, SETS[name]):
                return n, [x, name, "", False], f"{name} on {show(x)}"
    return n, None, None


# ---------------------------------------------------------------------- C07
def gen_C07(g):
    r = g.r
    s = g.ipv4() if r.random() < 0.8 else "".join(g.pick(list("0123456789.xXabfAF") + ["0x", ".", "255", "256", "_", "+", "-", "o", "\u0661"]) for _ in range(r.randint(1, 10)))
    n = g.pick([0, 1, 255, 256, 65535, 65536, 2**24, 2**31, 2**32 - 1, r.randrange(2**32)])
    return [s, n]


def run_C07(case):
    s, n = case
    sp = hostspec.ipv4_parse(s)
    ends = hostspec.ends_in_a_number(s)
    if hasattr(up, "IPv4Address"):
        A = up.IPv4Address
        if hasattr(A, "is_ends_in_a_number") and A.is_ends_in_a_number(s) is not ends:
            return f"ends-in-a-number({show(s)}): Standard {ends}"
        if hasattr(A, "parse"):
            try:
                got = A.parse(s)
            except URLParseError:
                got = None
            want = None if sp.failed else sp.value
            if got != want:
                return f"IPv4 parser on {show(s)}: Standard {want}, urlstd {got}"
    if s.isascii() and ends and "%" not in s and s.strip() == s and "_" not in s and "+" not in s:
        r = real_parse("http://" + s + "/")
        want = None if sp.failed else sp.value
        got = r[1].host if r[0] == "ok" else None
        a = hostspec.host_parse(s, False)
        want = None if a.failed else a.value
        if got != want or type(got) is not type(want):
            return f"host of {show('http://' + s + '/')}: Standard {want!r}, urlstd {got!r}"
    t = up.Host.serialize(n)
    if t != hostspec.ipv4_serialize(n):
        return f"serialization of IPv4 address {n}: {ascii(t)}"
    if up.Host.parse(t) != n:
        return f"IPv4 address {n} serializes to {t}, which parses to {up.Host.parse(t)}"
    return None


# ---------------------------------------------------------------------- C08
def gen_C08(g):
    r = g.r
    return [g.ipv6_body(), [g.pick([0, 0, 0, 1, 0xF, 0x10, 0xFF, 0x100, 0xFFF, 0x1000, 0xFFFF, r.randrange(65536)]) for _ in range(8)]]


def run_C08(case):
    s, a = case
    a = tuple(a)
    sp = hostspec.ipv6_parse(s)
    want = None if sp.failed else sp.value
    try:
        got = up.Host.parse("[" + s + "]")
    except URLParseError:
        got = None
    if got != want or type(got) is not type(want):
        return f"IPv6 parser on {show(s)}: Standard {want}, urlstd {got}"
    t = up.Host.serialize(a)
    if t != "[" + hostspec.ipv6_serialize(a) + "]":
        return f"serialization of IPv6 address {a}: {ascii(t)}"
    b = up.Host.parse(t)
    if b != a:
        return f"IPv6 address {a} serializes to {t}, which parses to {b}"
    return None


# ---------------------------------------------------------------------- C09
def gen_C09(g):
    h = g.host()
    if g.r.random() < 0.15:
        h = "".join(g.pick(["a", ".", "%41", "%00", "%2F", "%25", "\u00e9", "xn--", "-", "b", "[", "]", "%e3%80%82", "1", "%zz", "%ff", chr(g.r.randrange(0x80)), "%%%02X" % g.r.randrange(0x80)]) for _ in range(g.r.randint(1, 6)))
    if g.r.random() < 0.05:
        h = ".".join(["a" * g.pick([1, 62, 63, 64, 70])] * g.pick([1, 2, 4, 5]))
    return [h, g.r.random() < 0.4]


def run_C09(case):
    h, ns = case
    sp = hostspec.host_parse(h, ns)
    want = None if sp.failed else sp.value
    try:
        got = up.Host.parse(h, ns)
    except URLParseError:
        got = None
    if got != want or type(got) is not type(want):
        return f"Host.parse({show(h, ns)}): Standard {ascii(want)}, urlstd {ascii(got)}"
    for strict in (False, True):
        a = hostspec.domain_to_ascii(h, strict)
        try:
            got = up.IDNA.domain_to_ascii(h, strict)
        except URLParseError:
            got = None
        if got != (None if a.failed else a.value):
            return f"IDNA.domain_to_ascii({show(h, strict)}): expected {ascii(a.value)}, urlstd {ascii(got)}"
        b = hostspec.domain_to_unicode(h, strict)
        v = up.ValidityState()
        try:
            got = up.IDNA.domain_to_unicode(h, strict, validity=v)
        except URLParseError:
            got = None
        if got != (None if b.failed else b.value):
            return f"IDNA.domain_to_unicode({show(h, strict)}): expected {ascii(b.value)}, urlstd {ascii(got)}"
        if not b.failed and (v.validation_errors > 0) != b.verr:
            return f"IDNA.domain_to_unicode({show(h, strict)}): validation error expected {b.verr}"
    return None


# ---------------------------------------------------------------------- C10
NAMES = ["", "a", "b", "a b", "a+b", "%41", "=", "&", "a=b", "\u00e9", "\U0001f308", "~", "*", "%", "\x00", "c&d", "#", "?", "\ufffd", "A", "\ufb03", "\ue000", "\uffff", "\U00010000", "ab", "aa"]


def gen_pairs(g, n=5):
    return [[g.text(NAMES), g.text(NAMES)] for _ in range(g.r.randint(0, n))]


def gen_C10(g):
    r = g.r
    b = "".join(g.pick(["a", "=", "&", "+", "%", "%41", "%e", "%C3%A9", "%ff", "b", "==", "&&", "%26", "%3D", "%2B", "\u00e9", "\ufffd", " ", "?", ";"]) for _ in range(r.randint(0, 10)))
    return [b, gen_pairs(g)]


def run_C10(case):
    b, pairs = case
    pairs = [tuple(p) for p in pairs]
    raw = b.encode("utf-8", "surrogatepass")
    want = apispec.form_parse(raw)
    got = up.parse_qsl(raw)
    if got != want:
        return f"parse_qsl({raw!r}): Standard {ascii(want)}, urlstd {ascii(got)}"
    e = up.urlencode(pairs)
    if e != apispec.form_serialize(pairs):
        return f"urlencode({ascii(pairs)}): Standard {ascii(apispec.form_serialize(pairs))}, urlstd {ascii(e)}"
    if not any(0xD800 <= ord(c) <= 0xDFFF for p in pairs for s in p for c in s):
        if up.parse_qsl(e.encode()) != pairs:
            return f"parse_qsl(urlencode({ascii(pairs)})) = {ascii(up.parse_qsl(e.encode()))}"
    return None


# ---------------------------------------------------------------------- C11
OPS = ("append", "delete", "delete2", "get", "get_all", "has", "has2", "set", "sort", "in", "contains_all")


def gen_ops(g, n, names):
    out = []
    for _ in range(n):
        op = g.pick(OPS)
        v = g.pick(["1", "2", "", "x y", 1, 2, 0, 1.5, "%41", "\ud83c"]) if g.r.random() < 0.6 else g.pick(names)
        out.append([op, g.pick(names), v])
    return out


def gen_C11(g):
    kind = g.pick(["pairs", "pairs", "pairs", "string", "dict", "params"])
    pool = [g.text(NAMES) for _ in range(3)]
    pairs = [[g.pick(pool), g.pick(["1", "2", "", "x"] + pool)] for _ in range(g.r.randint(0, 7))]
    if kind == "string":
        init = g.pick(["", "?", "??"]) + gen_C10(g)[0]
        pool += ["a", "b"]
    else:
        if kind != "params" and g.r.random() < 0.2:
            pairs = [[a, g.pick([1, 2.5, b])] for a, b in pairs]
        init = pairs
    return [kind, init, gen_ops(g, g.r.randint(1, 4), pool + ["a"])]


def run_C11(case):
    kind, init, ops = case
    if kind == "string":
        p = up.URLSearchParams(init)
        model = apispec.params_from_string(init)
    elif kind == "dict":
        p = up.URLSearchParams({a: b for a, b in init})
        d = {}
        for a, b in init:
            d[a] = b
        m2 = {}
        for a, b in d.items():
            m2[speclib.usv(str(a))] = speclib.usv(str(b))
        model = list(m2.items())
    elif kind == "params":
        q = up.URLSearchParams([tuple(x) for x in init])
        p = up.URLSearchParams(q)
        model = [(speclib.usv(a), speclib.usv(b)) for a, b in init]
        if list(q) != model:
            return f"URLSearchParams({ascii(init)}) = {ascii(list(q))}"
        q.append("other", "1")
        if q == p:
            return f"URLSearchParams(URLSearchParams) shares state: {ascii(init)}"
    else:
        p = up.URLSearchParams([tuple(x) for x in init])
        model = [(speclib.usv(str(a)), speclib.usv(str(b))) for a, b in init]
    done = []
    for op, name, v in [["none", "", ""]] + ops:
        sv = str(v)
        want = got = None
        if op == "append":
            got = p.append(name, v)
            model = apispec.params_append(model, name, sv)
        elif op == "delete":
            got = p.delete(name)
            model = apispec.params_delete(model, name)
        elif op == "delete2":
            got = p.delete(name, v)
            model = apispec.params_delete(model, name, sv)
        elif op == "get":
            want, got = apispec.params_get(model, name), p.get(name)
        elif op == "get_all":
            want, got = apispec.params_get_all(model, name), p.get_all(name)
        elif op == "has":
            want, got = apispec.params_has(model, name), p.has(name)
        elif op == "has2":
            want, got = apispec.params_has(model, name, sv), p.has(name, v)
        elif op == "in":
            want, got = apispec.params_has(model, name), name in p
        elif op == "set":
            got = p.set(name, v)
            model = apispec.params_set(model, name, sv)
        elif op == "sort":
            got = p.sort()
            model = apispec.params_sort(model)
        done.append([op, name, v])
        what = f"URLSearchParams({kind} {ascii(init)}) after {ascii(done[1:])}"
        if want != got or type(want) is not type(got):
            return f"{what}: returned {ascii(got)}, Standard {ascii(want)}"
        if list(p) != model:
            return f"{what}: list {ascii(list(p))}, Standard {ascii(model)}"
        if len(p) != len(model) or list(p.keys()) != [a for a, _ in model] or list(p.values()) != [b for _, b in model] or list(p.entries()) != model or p[:] != model or any(p[i] != model[i] for i in range(len(model))):
            return f"{what}: len/keys/values/entries/indexing are not views of {ascii(model)}"
        if str(p) != apispec.form_serialize(model) or p + "x" != str(p) + "x":
            return f"{what}: str() = {ascii(str(p))}, Standard {ascii(apispec.form_serialize(model))}"
        if p != up.URLSearchParams(model) or (model and p == up.URLSearchParams(model[:-1])):
            return f"{what}: == disagrees with the list"
    return None


# ---------------------------------------------------------------------- C12
def gen_C12(g):
    ops = []
    names = ["a", "b", "", "x y", g.text(NAMES)]
    for _ in range(g.r.randint(1, 6)):
        if g.r.random() < 0.5:
            a = g.pick(SETTERS + ("search", "search", "href", "hash"))
            ops.append([a, gen_value(g, a)])
        else:
            ops.append(["@" + g.pick(["append", "delete", "delete2", "set", "sort"]), g.pick(names), g.pick(["1", "", "2", "x y", "%41", "\u00e9"])])
    return [g.pick(START), ops]


def run_C12(case):
    s, ops = case
    u = up.URL(s)
    p = u.search_params
    done = []
    for op in [None] + ops:
        if op is not None:
            before = spec_record(u._url)
            lst = list(p)
            done.append(op)
            what = f"URL({show(s)}) after {ascii(done)}"
            if op[0][0] == "@":
                want = {
                    "append": lambda: apispec.params_append(lst, op[1], op[2]),
                    "delete": lambda: apispec.params_delete(lst, op[1]),
                    "delete2": lambda: apispec.params_delete(lst, op[1], op[2]),
                    "set": lambda: apispec.params_set(lst, op[1], op[2]),
                    "sort": lambda: apispec.params_sort(lst),
                }[op[0][1:]]()
                args = [] if op[0] == "@sort" else op[1:2] if op[0] == "@delete" else op[1:]
                getattr(p, op[0].rstrip("2")[1:])(*args)
                before.query = apispec.query_of_params(want)
                if before.query is None:
                    apispec.strip_opaque_path(before)
                if rec(before) != rec(u._url):
                    return f"{what}: record {ascii(rec(u._url))}, expected {ascii(rec(before))}"
                if list(p) != want:
                    return f"{what}: search_params {ascii(list(p))}, expected {ascii(want)}"
            else:
                try:
                    setattr(u, op[0], op[1])
                except URLParseError:
                    if op[0] == "href" and rec(before) != rec(u._url):
                        return f"{what}: failing href assignment changed the URL"
        else:
            what = f"URL({show(s)})"
        if u.search_params is not p:
            return f"{what}: search_params is a different object"
        want = apispec.params_of_query(u._url.query)
        if list(p) != want:
            return f"{what}: query {ascii(u._url.query)} but search_params {ascii(list(p))}"
        if u.search != apispec.get_search(u._url):
            return f"{what}: search {ascii(u.search)}"
    # visible through the other side
    p.append("k", "v")
    if not (u._url.query or "").endswith("k=v") or not u.search.endswith("k=v") or "k=v" not in u.href:
        return f"URL({show(s)}) after {ascii(done)}: search_params.append is not visible in the URL"
    u.search = "?k2=v2"
    if list(u.search_params) != [("k2", "v2")]:
        return f"URL({show(s)}) after {ascii(done)}: search assignment is not visible in search_params"
    return None


# ---------------------------------------------------------------------- C13
def gen_C13(g):
    ops = []
    for _ in range(g.r.randint(0, 3)):
        a = g.pick(SETTERS)
        ops.append([g.r.random() < 0.5, a, gen_value(g, a)])
    s = g.url() if g.r.random() < 0.6 else g.pick(["", "..", ".", "x", "?q", "#f", "/", "//", "/..", "\\", "../..", "x/../y", "C:", "/C:", "C|/x", "?", "#", "file:", "file:x", "http:x", "http:", "a:", "//x", "./"]) + g.pick(["", "", "z", "/..", "#f"])
    b = g.base() or g.pick(g.BASES[3:])
    return [s, b, ops]


def run_C13(case):
    s, b, ops = case
    try:
        base = up.URL(b)
        base2 = up.parse_url(b)
    except URLParseError:
        return None
    r0, q0 = rec(base._url), list(base.search_params)
    h0 = base.href
    try:
        u = up.URL(s, base)
    except URLParseError:
        u = None
    what = f"URL({show(s)}, base=URL({show(b)}))"
    if rec(base._url) != r0 or base.href != h0 or list(base.search_params) != q0:
        return f"{what} changed the base: {ascii(r0)} -> {ascii(rec(base._url))}"
    try:
        v = up.parse_url(s, base2)
    except URLParseError:
        v = None
    if rec(base2) != r0:
        return f"parse_url({show(s)}, record of {show(b)}) changed the base: {ascii(r0)} -> {ascii(rec(base2))}"
    if v is not None:
        if v is base2 or (isinstance(v.path, list) and v.path is base2.path):
            return f"parse_url({show(s)}, record of {show(b)}): result shares its path with the base"
        r1 = rec(v)
        if isinstance(v.path, list):
            v.path.append("poke")
            if rec(base2) != r0:
                return f"parse_url({show(s)}, record of {show(b)}): changing the result's path changes the base"
            v.path.pop()
        if isinstance(base2.path, list):
            base2.path.append("poke")
            if rec(v) != r1:
                return f"parse_url({show(s)}, record of {show(b)}): changing the base's path changes the result"
    if u is None:
        return None
    if u._url is base._url or u.search_params is base.search_params:
        return f"{what}: result shares its record with the base"
    done = []
    for on_base, a, val in [[False, "pathname", "/n/e/w"], [False, "search", "zz=1"]] + ops:
        x, other = (base, u) if on_base else (u, base)
        before = rec(other._url), list(other.search_params)
        try:
            setattr(x, a, val)
        except URLParseError:
            pass
        done.append([on_base, a, val])
        if (rec(other._url), list(other.search_params)) != before:
            return f"{what} then {ascii(done)}: the other object changed: {ascii(before)} -> {ascii(rec(other._url))}"
    return None


# ---------------------------------------------------------------------- C14
def gen_C14(g):
    r = g.r
    if r.random() < 0.4:
        s = "blob:" + g.pick([g.url(), "http://h:8080/x", "https://u:p@h/", "blob:http://h", "file:///x", "ftp://h", "x", ""])
    else:
        s = g.url()
    od = [[g.pick(["http", "https", "a"]), g.pick([None, "h", "g", 1, [0] * 8]), g.pick([None, 0, 80, 8080]), g.pick([None, None, "d", "e", ""])] for _ in range(2)]
    if r.random() < 0.6:
        od[1] = list(od[0])
        if r.random() < 0.7:
            i = r.randrange(4)
            od[1][i] = [g.pick(["http", "https", "a"]), g.pick([None, "h", "g", 1, [0] * 8]), g.pick([None, 0, 80, 8080]), g.pick([None, None, "d", "e", ""])][i]
    return [s, gen_record(g), od]


def run_C14(case):
    s, d, od = case
    urls = [mk_url(d)]
    try:
        urls.append(up.URL(s))
    except URLParseError:
        pass
    for u in urls:
        want = apispec.origin(spec_record(u._url))
        got = u._url.origin
        if (None if got is None else (got.scheme, got.host, got.port)) != want or (got is not None and got.domain is not None):
            return f"origin of {ascii(rec(u._url))}: Standard {ascii(want)}, urlstd {ascii(got)}"
        if u.origin != apispec.origin_serialize(want):
            return f"URL.origin of {ascii(rec(u._url))}: Standard {ascii(apispec.origin_serialize(want))}, urlstd {ascii(u.origin)}"
    os = []
    for x in od:
        x = list(x)
        if isinstance(x[1], list):
            x[1] = tuple(x[1])
        os.append(up.Origin(*x))
    for a in os:
        want = apispec.origin_serialize(tuple(a)[:3])
        if str(a) != want:
            return f"str({ascii(a)}): Standard {ascii(want)}, urlstd {ascii(str(a))}"
        for b in os:
            if bool(a.is_same_origin(b)) is not apispec.same_origin(a, b):
                return f"{ascii(a)}.is_same_origin({ascii(b)}): Standard {apispec.same_origin(a, b)}"
            if "" in (a.domain, b.domain):
                continue
            if bool(a.is_same_origin_domain(b)) is not apispec.same_origin_domain(a, b):
                return f"{ascii(a)}.is_same_origin_domain({ascii(b)}): Standard {apispec.same_origin_domain(a, b)}"
    return None


# ---------------------------------------------------------------------- C15
VCALLS = ("url", "can_parse", "scheme", "host", "domain", "ipv4", "ipv6", "opaque")


def gen_C15(g):
    calls = []
    for _ in range(g.r.randint(1, 3)):
        k = g.pick(("url", "url", "url") + VCALLS)
        if k in ("url", "can_parse"):
            calls.append([k, g.url(), g.base()])
        elif k == "scheme":
            calls.append([k, g.pick(["http", "HTTP", "aaa", "aaaa", "", "file", "data", "x y"]), None])
        else:
            calls.append([k, g.host() if g.r.random() < 0.7 else g.ipv6_body() if k == "ipv6" else g.ipv4() if k == "ipv4" else g.noise(4), None])
    return calls


def coherent(v):
    if (v.valid is True) != (v.validation_errors == 0) or len(v.error_types) != v.validation_errors or len(v.descriptions) != v.validation_errors:
        return f"incoherent {v!r}"
    return None


def host_verdict(k, s):
    f = {"domain": hostspec.valid_domain, "ipv4": hostspec.valid_ipv4, "ipv6": hostspec.valid_ipv6, "opaque": hostspec.valid_opaque_host, "host": hostspec.valid_host}
    return bool(f[k](s))


HV = {"host": "is_valid", "domain": "is_valid_domain", "ipv4": "is_valid_ipv4_address", "ipv6": "is_valid_ipv6_address", "opaque": "is_valid_opaque_host"}


def run_C15(case):
    v = up.ValidityState()
    done = []
    for k, s, base in case:
        done.append([k, s, base])
        what = f"validator calls {ascii(done)}"
        fresh = up.ValidityState()

        def call(st):
            kw = {} if st is None else {"validity": st}
            if k == "url":
                return up.URLValidator.is_valid(s, base, **kw)
            if k == "can_parse":
                return up.URL.can_parse(s, base, **kw)
            if k == "scheme":
                return up.URLValidator.is_valid_url_scheme(s, **kw)
            return getattr(up.HostValidator, HV[k])(s, **kw)

        got = call(v)
        m = coherent(v)
        if m:
            return f"{what}: {m}"
        if call(fresh) is not got or call(None) is not got:
            return f"{what}: the verdict depends on earlier calls or on the ValidityState argument"
        if (fresh.valid, fresh.error_types, fresh.descriptions, fresh.validation_errors) != (v.valid, v.error_types, v.descriptions, v.validation_errors):
            return f"{what}: results of an earlier call were kept: {ascii(v)} instead of {ascii(fresh)}"
        if k == "can_parse" or k == "url":
            a = spec_parse(s, base)
            ok = a[0] == "ok"
            if k == "can_parse":
                want = ok
                if ok and (v.validation_errors > 0) != a[2]:
                    return f"{what}: Standard reports {'a' if a[2] else 'no'} validation error, ValidityState has {ascii(v.error_types)}"
                if not ok and v.valid and not silent_failure(s, base):
                    return f"{what}: parsing fails but no error is recorded"
            else:
                reg = ok and a[1].scheme in up.REGISTERED_SCHEMES
                want = ok and not a[2] and reg
                if ok and v.validation_errors == 0 and not want:
                    return f"{what}: reported valid, expected invalid"
                if got and not v.valid:
                    return f"{what}: verdict True but state invalid"
            if got is not want:
                return f"{what}: verdict {got}, expected {want} ({ascii(v.descriptions)[:200]})"
            if got and k == "url" and not v.valid:
                return f"{what}: valid but state says invalid"
            if not got and v.valid and not silent_failure(s, base):
                return f"{what}: invalid but the state says valid"
        elif k == "scheme":
            want = len(s) > 0 and s.lower() in up.REGISTERED_SCHEMES
            if got is not want or v.valid is not want:
                return f"{what}: verdict {got}, state {v.valid}, expected {want}"
        else:
            want = host_verdict(k, s)
            if got is not want or v.valid is not want:
                return f"{what}: verdict {got}, state {v.valid}, expected {want} ({ascii(v.descriptions)[:200]})"
    return None


def silent_failure(s, base):
    return False


# ---------------------------------------------------------------------- C16
def gen_C16(g):
    s = g.url()
    if g.r.random() < 0.3:
        i = g.r.randint(0, len(s))
        s = s[:i] + ";" + s[i:]
    return [s, g.base()]


def run_C16(case):
    s, base = case
    r = real_parse(s, base)
    for af in (True, False):
        try:
            got = tuple(up.urlparse(s, base, allow_fragments=af))
        except URLParseError:
            got = None
        want = apispec.urlparse_view(spec_record(r[1]), af) if r[0] == "ok" else None
        if got != want:
            return f"urlparse({show(s, base)}, allow_fragments={af}): {ascii(got)}, expected {ascii(want)}"
    if r[0] == "ok" and tuple(up.urlparse(s, base)) != apispec.urlparse_view(spec_record(r[1]), True):
        return f"urlparse({show(s, base)}) differs from allow_fragments=True"
    return None


# ---------------------------------------------------------------------- C17
def gen_C17(g):
    s, b = g.url(), g.base()
    if g.r.random() < 0.25:
        s = g.pick(["", "a:", "a:", "web+x:", "http://h"]) + g.pick(["/.//", "//", "/..//", "/.", "/..", "//.", "/%2e//", "x/..//", "/\\", "/ ", "p  "]) + g.path() + g.pick(["", "?", "#", "?q", "#f ", "?q ", " "])
    return [s, b]


def run_C17(case):
    s, base = case
    r = real_parse(s, base)
    if r[0] != "ok":
        return None
    u = r[1]
    if isinstance(u.host, str) and u.is_special() and u.host != "":
        a = hostspec.domain_to_ascii(u.host, False)
        if a.failed or a.value != u.host:
            return None  # ICU does not leave its own output unchanged
    href = u.href
    r2 = real_parse(href)
    what = f"parse_url({show(s, base)}).href = {ascii(href)}"
    if r2[0] != "ok":
        return f"{what} does not parse"
    a, b = rec(u), rec(r2[1])
    if isinstance(u.path, str) and u.query is None and u.fragment is None:
        a = a[:5] + (u.path.rstrip(" "),) + a[6:]
    if a != b:
        return f"{what} parses to {ascii(b)} instead of {ascii(a)}"
    if r2[1].href != parse_href(r2[1].href):
        return f"{what}: href is not a fixed point"
    return None


def parse_href(h):
    r = real_parse(h)
    return r[1].href if r[0] == "ok" else None


SURROGATES = {"C02", "C06", "C11"}
ALL = ["C%02d" % i for i in range(1, 18)]


def get(pid):
    return globals()["gen_" + pid], globals()["run_" + pid]
