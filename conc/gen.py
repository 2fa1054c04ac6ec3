"""Directed generation of URL-shaped strings (seeded), with literals mined from
the current source mixed in."""
import ast
import json
import os
import random

SPECIAL = ["http", "https", "ws", "wss", "ftp", "file"]
SCHEMES = SPECIAL + ["a", "blob", "data", "non-special", "mailto", "javascript", "h+t-t.p", "HTTP", "FiLe", "x1", "abc"]
HOSTS = [
    "", "h", "example.com", "EXAMPLE.com", "localhost", "LOCALHOST", "127.0.0.1", "0x7f.1", "1.2.3", "1.2.3.4.", "256", "256.1",
    "1.256.3.4", "4294967295", "4294967296", "0xffffffff", "08", "0x", "1..2", "a..b", "a.0x", "1.2.3.09", "a.1", "[::1]", "[1::]",
    "[1:2:3:4:5:6:7:8]", "[::1.2.3.4]", "[1:2::3]", "[::", "[]", "[:1]", "[0:0:1:0:0:0:1:0]", "[1:2:3:4:5:6:1.2.3.4]", "[::1.2.3.256]", "[::ffff:1.2.3]", "[FFFF::A]",
    "%41", "%2e", "a%00b", "a b", "a<b", "a^b", "a|b", "xn--", "xn--a", "\u00e9", "\u00df", "\u3002", "a\u3002b", "\uff10", "\u00ad", "C|", "C:", "c|", "C|x", "%43|", "h%20", "\U0001f308", "a_b", "-a-", "a--b", "%zz", "%", "\x7f", "a\x01",
]
PORTS = ["", "0", "1", "21", "80", "443", "65535", "65536", "00080", "99999999999", "8a", "a", "8/", "08080", "8080", " 8"]
SEGS = ["", ".", "..", "%2e", "%2E.", ".%2e", "%2e%2E", "a", "b c", "C|", "C:", "c:", "%", "%4", "%41", "{", "}", "`", "\"", "<", "'", "^", "|", "\u00e9", "\U0001f308", "\uffff", "...", "a;b", ";", "~", "[", "]", "\x7f", "\x1f", "\ufdd0", "\u0080", "@", ":", "&", "=", "+"]
QS = ["", "a", "a=b", "a=b&c=d", "'", "\"", "<", "#", "?", "%", "%zz", "%41", "\u00e9", " ", "a b", "{", "`", "~", "+", "&&", "=", "\U0001f308", "\x7f", "^", "|", "a=1&a=2", "\x1f"]
CTRL = ["\t", "\n", "\r", " ", "\x00", "\x1f", "\x0b"]
SURR = ["\ud83c", "\udf08", "\ud83c\udf08", "\udf08\ud83c"]
PUNCT = list("/\\?#:@.[]%;&=+-|^`{}\"'<>~!$*(),_ ") + ["//", "\\\\", "/\\", "::", "@@", "..", "/..", "/.", "/./", "?#"]
ALPHABET = list("abcxyzABCFZ0123456789") + PUNCT + ["\u00e9", "\U0001f308"]


def mined_literals(path):
    try:
        tree = ast.parse(open(path, encoding="utf-8").read())
    except Exception:
        return [], []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body:
            b = n.body[0]
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                docs.add(id(b.value))
    strs, ints = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if isinstance(v, str) and 0 < len(v) <= 12 and "%s" not in v and "%r" not in v:
                strs.add(v)
                if len(v) > 1 and len(v) < 40:
                    for ch in v[:40]:
                        if not ch.isalnum() or ord(ch) > 127:
                            strs.add(ch)
            elif isinstance(v, bytes) and 0 < len(v) <= 12:
                strs.add(v.decode("latin-1"))
            elif isinstance(v, int) and not isinstance(v, bool):
                ints.add(v)
                if 0x20 < v < 0x110000 and not 0xD800 <= v <= 0xDFFF:
                    strs.add(chr(v))
    return sorted(strs), sorted(ints)


class Gen:
    def __init__(self, seed, strs=(), ints=(), surrogates=False):
        self.r = random.Random(seed)
        self.strs = [x for x in strs if surrogates or not any(0xD800 <= ord(c) <= 0xDFFF for c in x)] or ["a"]
        self.ints = list(ints) or [0]
        self.surr = surrogates
        self.hints = []
        if os.environ.get("VERIF_HINTS"):
            try:
                self.hints = json.load(open(os.environ["VERIF_HINTS"]))
            except (OSError, ValueError):
                pass

    def pick(self, xs):
        return self.r.choice(xs)

    def hint(self):
        """A counterexample's string, as it is or changed a little."""
        r = self.r
        h = self.pick(self.hints)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            i = r.randint(0, len(h))
            h = h[:i] + r.choice(["", self.pick(ALPHABET), self.pick(SEGS), self.pick(PUNCT)]) + h[i + r.choice([0, 0, 1]):]
        return h

    def lit(self):
        r = self.r
        if self.hints and r.random() < 0.3:
            return self.hint()
        if r.random() < 0.7:
            return self.pick(self.strs)
        i = self.pick(self.ints) + self.pick([0, 0, 0, 1, -1])
        if r.random() < 0.3 and 0 < i <= 64:
            return self.pick("a1./:0@%A") * i
        return str(i)

    def atom(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return self.pick(ALPHABET)
        if x < 0.7:
            return self.pick(PUNCT)
        if x < 0.8:
            return self.pick(SEGS)
        if x < 0.93:
            return self.lit()
        if x < 0.95:
            return self.pick(CTRL)
        if x < 0.97 and self.surr:
            return self.pick(SURR)
        if x < 0.985:
            c = r.randrange(0x110000)
            return "a" if 0xD800 <= c <= 0xDFFF else chr(c)
        return chr(r.randrange(0, 256))

    def noise(self, n):
        return "".join(self.atom() for _ in range(self.r.randint(0, n)))

    def text(self, xs, n=3):
        r = self.r
        if self.hints and r.random() < 0.1:
            return self.hint()
        x = r.random()
        if x < 0.6:
            return self.pick(xs)
        if x < 0.8:
            return self.pick(xs) + self.pick(xs)
        if x < 0.9:
            return self.noise(n)
        t = self.pick(xs)
        i = r.randint(0, len(t))
        return t[:i] + self.atom() + t[i:]

    def scheme(self):
        return self.pick(SCHEMES) if self.r.random() < 0.9 else self.noise(3)

    def host(self):
        r = self.r
        x = r.random()
        if x < 0.12:
            return self.ipv6()
        if x < 0.22:
            return self.ipv4()
        if x < 0.32:
            return "".join(self.pick(["a", "b", "C", "1", "-", "_", ".", "%41", "0", "z"]) for _ in range(r.randint(1, 8)))
        return self.text(HOSTS)

    def num(self):
        r = self.r
        v = self.pick([0, 1, 7, 8, 9, 10, 255, 256, 257, 65535, 65536, 2**24 - 1, 2**24, 2**32 - 1, 2**32, r.randrange(2**32), r.randrange(256), self.pick(self.ints)])
        v = abs(v)
        f = self.pick(["%d", "%d", "%d", "0x%x", "0X%X", "0%o", "00%o", "%d0", "+%d", "%d_0", "0x%d", "0b%d", "-%d", "%dx", "0o%o", "0x0%x"])
        return f % v

    def ipv4(self):
        n = self.pick([1, 2, 3, 4, 4, 4, 5])
        return ".".join(self.num() if self.r.random() < 0.95 else self.pick(["", "0x", "a", "0"]) for _ in range(n)) + self.pick(["", "", "", ".", ".."])

    def ipv6_body(self):
        r = self.r
        if r.random() < 0.5:
            n = r.randint(0, 9)
            ps = ["%x" % self.pick([0, 0, 0, 1, 0xF, 0x10, 0xFFFF, r.randrange(65536)]) for _ in range(n)]
            if r.random() < 0.2 and ps:
                ps[r.randrange(len(ps))] = self.pick(["", "12345", "g", "00001", "FFFF", "0000", " 1", "1.2"])
            if r.random() < 0.35:
                ps.append(self.pick(["1.2.3.4", "255.255.255.255", "256.1.1.1", "1.2.3", "01.2.3.4", "1.2.3.4.5", "1..2.3", "1.2.3.4a", "0.0.0.0", "a.1.1.1", "1.2.3.", ".1.2.3", "100.1.1.1234", "999.9.9.9"]))
            s = ":".join(ps)
            if r.random() < 0.6:
                i = r.randint(0, len(ps))
                left, right = ps[:i], ps[i:]
                s = ":".join(left) + "::" + ":".join(right)
            if r.random() < 0.15:
                s += self.pick([":", "::", ".", ":1", "%", "0"])
            if r.random() < 0.1:
                s = self.pick([":", "::", "1", "."]) + s
            return s
        return "".join(self.pick([":", ":", ":", "::", ".", "0", "1", "f", "25", "1.2.3.4", "a0", "g", "00"]) for _ in range(r.randint(0, 12)))

    def ipv6(self):
        return "[" + self.ipv6_body() + "]"

    def authority(self):
        r = self.r
        s = ""
        if r.random() < 0.35:
            s += self.text(["", "u", "u:p", ":", ":p", "u:", "u:p:q", "u@v", "u:p@q:r", "a/b", "%40", "\u00e9", "u;=", "'", "|", "[", "^", "`"]) + self.pick(["@", "@", "@", "@@", ""])
        s += self.host()
        if r.random() < 0.35:
            s += ":" + self.text(PORTS)
        return s

    def path(self):
        r = self.r
        n = r.randint(0, 5)
        seps = ["/"] * 5 + ["\\", "//", "/"]
        return "".join(self.pick(seps) + self.text(SEGS) for _ in range(n))

    def url(self):
        r = self.r
        if self.hints and r.random() < 0.35:
            return self.hint()
        x = r.random()
        if x < 0.08:
            s = self.noise(10)
        elif x < 0.2:
            s = self.scheme() + ":" + self.noise(8)
        else:
            s = ""
            if r.random() < 0.75:
                s += self.scheme() + ":"
            y = r.random()
            if y < 0.6:
                s += self.pick(["//", "//", "//", "//", "/", "\\\\", "/\\", "///", "////", ""]) + self.authority() + self.path()
            elif y < 0.8:
                s += self.path()
            else:
                s += self.text(SEGS) + self.path()
            if r.random() < 0.4:
                s += "?" + self.text(QS)
            if r.random() < 0.4:
                s += "#" + self.text(QS)
        if r.random() < 0.12:
            for _ in range(r.randint(1, 2)):
                i = r.randint(0, len(s))
                s = s[:i] + self.atom() + s[i + r.randint(0, 1):]
        if r.random() < 0.06:
            i = r.randint(0, len(s))
            s = s[:i] + self.pick(CTRL) + s[i:]
        if r.random() < 0.05:
            s = self.pick(CTRL) + s + self.pick(CTRL)
        return s

    BASES = [
        None, None, None, "http://u:p@h:8080/a/b/c?q#f", "http://h", "https://h:0/a;b", "file:///C:/a/b?q#f", "file:///a/b", "file://host/C:/x", "file:///", "file:///C:/",
        "a:b", "a:opaque  ", "a:/p/q?x", "a://h/p/../q", "a://h", "a:///p", "about:blank", "blob:http://h/x", "ws://h/", "mailto:x@y?s", "http://[::1]:1/x", "ftp://1.2.3.4/a/", "file:///c|/x/y", "web+a:/.//p",
    ]

    def base(self):
        if self.r.random() < 0.85:
            return self.pick(self.BASES)
        return self.url()
