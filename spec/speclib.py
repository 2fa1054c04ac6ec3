"""Primitive operations of the specification functions.

Executed natively (replay / oracle), and given symbolic meaning by pydv
(pydv/prims.py) when the specification functions are executed symbolically.
Everything here is defined from the text of the Standard, not from urlstd.
"""
import string

ASCII_DIGITS = "0123456789"
ASCII_ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
ASCII_ALNUM = ASCII_ALPHA + ASCII_DIGITS
ASCII_HEX = "0123456789abcdefABCDEF"

# ---- percent-encode sets (URL Standard 1.3); only the ASCII part is listed:
# every code point above U+007E is in every set.
_C0 = set(map(chr, range(0, 0x20))) | {"\x7f"}
C0_SET = frozenset(_C0)
FRAGMENT_SET = frozenset(_C0 | set(' "<>`'))
QUERY_SET = frozenset(_C0 | set(' "#<>'))
SPECIAL_QUERY_SET = frozenset(QUERY_SET | set("'"))
PATH_SET = frozenset(QUERY_SET | set("?`{}"))
USERINFO_SET = frozenset(PATH_SET | set("/:;=@[\\]^|"))
COMPONENT_SET = frozenset(USERINFO_SET | set("$%&+,"))
URLENCODED_SET = frozenset(COMPONENT_SET | set("!'()~"))

FORBIDDEN_HOST = "\x00\t\n\r #/:<>?@[\\]^|"
FORBIDDEN_DOMAIN = FORBIDDEN_HOST + "".join(map(chr, range(0, 0x20))) + "%\x7f"

SPECIAL_PORTS = {"ftp": 21, "file": None, "http": 80, "https": 443, "ws": 80, "wss": 443}

DOUBLE_DOT = ("..", ".%2e", ".%2E", "%2e.", "%2E.", "%2e%2e", "%2e%2E", "%2E%2e", "%2E%2E")
SINGLE_DOT = (".", "%2e", "%2E")


C0_SPACE = "".join([chr(i) for i in range(33)])


def strip_chars(s, chars):
    """s without its longest prefix and suffix of code points in chars."""
    i = 0
    j = len(s)
    while i < j and s[i] in chars:
        i += 1
    while j > i and s[j - 1] in chars:
        j -= 1
    return s[i:j]


def remove_chars(s, chars):
    """s without all code points in chars."""
    return "".join(c for c in s if c not in chars)


def usv(s):
    """Convert to a scalar value string (surrogate pairs joined, lone ones U+FFFD)."""
    out = []
    i = 0
    n = len(s)
    while i < n:
        o = ord(s[i])
        if 0xD800 <= o <= 0xDBFF and i + 1 < n and 0xDC00 <= ord(s[i + 1]) <= 0xDFFF:
            out.append(chr(0x10000 + ((o - 0xD800) << 10) + (ord(s[i + 1]) - 0xDC00)))
            i += 2
            continue
        out.append("\ufffd" if 0xD800 <= o <= 0xDFFF else s[i])
        i += 1
    return "".join(out)


def _utf8(c):
    o = ord(c)
    if o < 0x80:
        return [o]
    if o < 0x800:
        return [0xC0 | o >> 6, 0x80 | o & 63]
    if o < 0x10000:
        return [0xE0 | o >> 12, 0x80 | o >> 6 & 63, 0x80 | o & 63]
    return [0xF0 | o >> 18, 0x80 | o >> 12 & 63, 0x80 | o >> 6 & 63, 0x80 | o & 63]


def pe(s, enc_set, plus=False):
    """UTF-8 percent-encode a (scalar value) string using a percent-encode set."""
    out = []
    for c in usv(s):
        if plus and c == " ":
            out.append("+")
        elif c > "~" or c in enc_set:
            out.extend("%%%02X" % b for b in _utf8(c))
        else:
            out.append(c)
    return "".join(out)


def lower(s):
    """ASCII lowercase."""
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


def digits_value(s, radix):
    n = 0
    for c in s:
        n = n * radix + "0123456789abcdef".index(lower(c))
    return n


def chars_in(s, chars):
    """True if every code point of s is in chars."""
    return all(c in chars for c in s)


def is_url_code_point(c):
    o = ord(c)
    if c in ASCII_ALNUM or c in "!$&'()*+,-./:;=?@_~":
        return True
    if not 0xA0 <= o <= 0x10FFFD:
        return False
    if 0xD800 <= o <= 0xDFFF or 0xFDD0 <= o <= 0xFDEF or (o & 0xFFFE) == 0xFFFE:
        return False
    return True


def first_index(s, c):
    return s.find(c)


def list_copy(x):
    return list(x)


def split_all(s, sep):
    """Strictly split on a one-code-point separator."""
    return s.split(sep)


def no_chars_in(s, chars):
    return not any(c in chars for c in s)


def too_many_digits(s):
    return len(s) > 4300


def hex_lower(n):
    return "%x" % n


def bits_outside(errors, ignored):
    """True if errors has a bit that is not in ignored."""
    return errors & ~ignored != 0


def all_url_units(s):
    """Every code point is a URL code point, or a % starting a valid triple."""
    i = 0
    while i < len(s):
        if s[i] == "%":
            if len(s) - i < 3 or s[i + 1] not in ASCII_HEX or s[i + 2] not in ASCII_HEX:
                return False
        elif not is_url_code_point(s[i]):
            return False
        i += 1
    return True


def utf8_bytes(s):
    return bytes(b for c in usv(s) for b in _utf8(c))


def percent_decode_bytes(b):
    out = bytearray()
    i = 0
    hexd = b"0123456789abcdefABCDEF"
    while i < len(b):
        if b[i] == 0x25 and i + 2 < len(b) and b[i + 1] in hexd and b[i + 2] in hexd:
            out.append(int(b[i + 1 : i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def percent_decode_string(s):
    return percent_decode_bytes(utf8_bytes(s))


def utf8_decode_lossy(b):
    """UTF-8 decode without BOM, malformed sequences -> U+FFFD (WHATWG = CPython)."""
    return b.decode("utf-8", "replace")


# ---- ICU (assumed dependency): the answers are whatever ICU says ------------
class IcuResult:
    def __init__(self, exc, dest, errors):
        self.exc = exc
        self.dest = dest
        self.errors = errors


# uidna.h
UIDNA_USE_STD3_RULES = 2
UIDNA_CHECK_BIDI = 4
UIDNA_CHECK_CONTEXTJ = 8
UIDNA_NONTRANSITIONAL_TO_ASCII = 0x10
UIDNA_NONTRANSITIONAL_TO_UNICODE = 0x20
UIDNA_LENGTH_ERRORS = 1 | 2 | 4  # empty label, label too long, domain name too long
UIDNA_HYPHEN_ERRORS = 8 | 0x10 | 0x20  # leading, trailing, 3-4 hyphen

_icu_cache = {}


def _icu_call(kind, flags, domain):
    import icupy.icu as icu

    if flags not in _icu_cache:
        _icu_cache[flags] = icu.IDNA.create_uts46_instance(flags)
    info = icu.IDNAInfo()
    dest = icu.UnicodeString()
    src = icu.UnicodeString(domain, len(domain.encode("utf-16-le")) // 2)
    try:
        if kind == "a":
            _icu_cache[flags].name_to_ascii(src, dest, info)
        else:
            _icu_cache[flags].name_to_unicode(src, dest, info)
    except icu.ICUError:
        return IcuResult(True, None, 0)
    return IcuResult(False, str(dest), info.get_errors())


def icu_to_ascii(flags, domain):
    return _icu_call("a", flags, domain)


def icu_to_unicode(flags, domain):
    return _icu_call("u", flags, domain)


# ---- list / byte primitives used by apispec ---------------------------------
def rstrip_space(s):
    """Remove all trailing U+0020."""
    n = len(s)
    while n > 0 and s[n - 1] == " ":
        n -= 1
    return s[:n]


def split_bytes(b, sep):
    return b.split(bytes([sep]))


def plus_to_space(b):
    return bytes(0x20 if x == 0x2B else x for x in b)


def first_value(lst, name):
    for p in lst:
        if p[0] == name:
            return p[1]
    return None


def has_pair(lst, name, value):
    for p in lst:
        if p[0] == name and (value is None or p[1] == value):
            return True
    return False


def first_name_index(lst, name):
    for i in range(len(lst)):
        if lst[i][0] == name:
            return i
    return -1


def code_units(s):
    out = []
    for c in s:
        o = ord(c)
        if o > 0xFFFF:
            o -= 0x10000
            out.append(0xD800 | o >> 10)
            out.append(0xDC00 | o & 0x3FF)
        else:
            out.append(o)
    return out


def stable_sorted_by_name_code_units(lst):
    return sorted(lst, key=lambda p: code_units(p[0]))
