"""Native checks of the laws the prover takes for granted and of the alternative
forms of the specification (each runs on the real CPython / ICU)."""
import os
import random
import re
import sys
import urllib.parse

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec"))
import hostspec
import speclib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import real

ALPHA = ["", "a", "b", "A", "0", "9", "f", "g", "%", "%41", "%2e", ":", "::", ".", "/", "&", "=", "+", ";", " ", "\u00e9", "\u3002", "\ud800", "\udfff", "\U0001f308", "\ufdd0", "\ufffe", "\U0010ffff", "\x00", "\t", "\n"]


def text(r, n=8):
    return "".join(r.choice(ALPHA) for _ in range(r.randint(0, n)))


def v6_text(r):
    w = ["", "0", "1", "ff", "FFFF", "12345", "g", "1.2.3.4", "255.255.255.255", "256.1.1.1", "1.2.3", "01.1.1.1", "1.2.3.4.5", "a.1.1.1", "1..1.1", "."]
    return ":".join(r.choice(w) if r.random() < 0.3 else r.choice(["1", "ff", ""]) if r.random() < 0.5 else "abc" for _ in range(r.randint(1, 11)))


def hr(x):
    return (x.failed, x.value)


def law_ipv6_forms(r):
    s = v6_text(r)
    return hr(hostspec.ipv6_parse(s)) == hr(hostspec.ipv6_parse_pointer(s)), s


def law_url_units_forms(r):
    s = text(r)
    p = s.split("%")
    hx = set("0123456789abcdefABCDEF")
    alt = all(c == "%" or speclib.all_url_units(c) for c in s) and all(len(x) >= 2 and x[0] in hx and x[1] in hx for x in p[1:])
    return bool(speclib.all_url_units(s)) == alt, s


def law_join_split(r):
    c = r.choice("&=.:/%")
    xs = [text(r, 3).replace(c, "") for _ in range(r.randint(1, 5))]
    return c.join(xs).split(c) == xs, (c, xs)


def law_split_join(r):
    c = r.choice("&=.:/%")
    s = text(r)
    return c.join(s.split(c)) == s and all(c not in x for x in s.split(c)) and len(s.split(c)) == s.count(c) + 1, (c, s)


def law_partition(r):
    c = r.choice("&=.:/%")
    s = text(r)
    a, b, d = s.partition(c)
    i = s.find(c)
    return (a, b, d) == ((s, "", "") if i < 0 else (s[:i], c, s[i + 1 :])) and s.rpartition(c) == (("", "", s) if s.rfind(c) < 0 else (s[: s.rfind(c)], c, s[s.rfind(c) + 1 :])), (c, s)


def law_pieces_regex(r):
    c = r.choice("%&:")
    s = text(r)
    return re.findall(f"{c}[^{c}]*", s) == [c + x for x in s.split(c)[1:]], (c, s)


def law_unquote(r):
    s = text(r, 6)
    b = s.encode("utf-8", "replace")
    q = urllib.parse.quote_from_bytes(b, safe=r.choice(["", "~!$", "/"]))
    return urllib.parse.unquote_to_bytes(q) == b, s


def law_percent_decode(r):
    s = text(r).encode("utf-8", "replace")
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == 0x25 and re.fullmatch(rb"[0-9A-Fa-f]{2}", s[i + 1 : i + 3]):
            out.append(int(s[i + 1 : i + 3], 16))
            i += 3
        else:
            out.append(s[i])
            i += 1
    return urllib.parse.unquote_to_bytes(s) == bytes(out), s


def law_utf8(r):
    s = text(r)
    u = speclib.usv(s) if hasattr(speclib, "usv") else "".join("\ufffd" if 0xD800 <= ord(c) <= 0xDFFF else c for c in s)
    ok = u.encode("utf-8").decode("utf-8") == u and not any(0xD800 <= ord(c) <= 0xDFFF for c in u)
    return ok and b"".join(c.encode("utf-8") for c in u) == u.encode("utf-8") and (u == s) == (not any(0xD800 <= ord(c) <= 0xDFFF for c in s)), s


def law_int(r):
    s = "".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.randint(1, 9)))
    v = 0
    for c in s:
        v = v * 16 + "0123456789abcdef".index(c.lower())
    ok = int(s, 16) == v
    d = re.sub("[a-fA-F]", "", s)
    return ok and (d == "" or str(int(d)) == (d.lstrip("0") or "0")), s


def law_str_int(r):
    n = r.choice([0, 1, 9, 10, 255, 65535, 2**32 - 1, r.randrange(2**40)])
    s = str(n)
    return s.isascii() and s.isdigit() and int(s) == n and (s[0] != "0" or n == 0), n


def law_sort_utf16(r):
    xs = [(text(r, 2), i) for i in range(r.randint(0, 6))]
    k = lambda x: x[0].encode("utf-16-be", "surrogatepass")
    ys = sorted(xs, key=k)
    return sorted(ys, key=lambda x: x[1]) == xs and all(k(a) < k(b) or k(a) == k(b) and a[1] < b[1] for a, b in zip(ys, ys[1:])), xs


def law_icu_output(r):
    s = text(r)
    for f in (hostspec.domain_to_ascii, hostspec.domain_to_unicode):
        a = f(s, r.random() < 0.5)
        if not a.failed and any(0xD800 <= ord(c) <= 0xDFFF for c in a.value):
            return False, s
    return True, s


def law_errors_to_string(r):
    """The text of an IDNA error set."""
    f = getattr(getattr(real.up, "IDNA", None), "_errors_to_string", None)
    x = r.randrange(1 << 20)
    return f is None or isinstance(f(x), str), x


LAWS = {n[4:]: f for n, f in list(globals().items()) if n.startswith("law_")}


def check(seed, n=400):
    """(evaluations, [broken law])"""
    bad, m = [], 0
    for nm, f in LAWS.items():
        r = random.Random(f"{seed} {nm}")
        for _ in range(n):
            m += 1
            try:
                ok, x = f(r)
            except Exception as e:
                ok, x = False, f"{type(e).__name__}: {e}"
            if not ok:
                bad.append(f"{nm}: {ascii(x)[:300]}")
                break
    return m, bad


if __name__ == "__main__":
    print(check(int(sys.argv[1]) if len(sys.argv) > 1 else 1, 20000))
