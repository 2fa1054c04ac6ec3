"""Host parsing and serializing of the WHATWG URL Standard (section 3)."""
from speclib import *


class HostResult:
    def __init__(self, failed, value, verr):
        self.failed = failed
        self.value = value
        self.verr = verr


class Number:
    def __init__(self, failed, value, verr):
        self.failed = failed
        self.value = value
        self.verr = verr


def ipv4_number(s):
    """IPv4 number parser (3.5).  value is a non-negative integer."""
    if s == "":
        return Number(True, 0, True)
    verr = False
    radix = 10
    if len(s) >= 2 and (s[:2] == "0x" or s[:2] == "0X"):
        verr = True
        s = s[2:]
        radix = 16
    elif len(s) >= 2 and s[0] == "0":
        verr = True
        s = s[1:]
        radix = 8
    if s == "":
        return Number(False, 0, True)
    if radix == 16:
        if not chars_in(s, ASCII_HEX):
            return Number(True, 0, True)
    elif radix == 8:
        if not chars_in(s, "01234567"):
            return Number(True, 0, True)
    else:
        if not chars_in(s, ASCII_DIGITS):
            return Number(True, 0, True)
        if too_many_digits(s):
            # more decimal digits than CPython converts (4300); such a number
            # is out of range in every position, so failing here is equivalent
            # for the address parser
            return Number(True, 0, True)
    return Number(False, digits_value(s, radix), verr)


def ends_in_a_number(s):
    parts = split_all(s, ".")
    if parts[-1] == "":
        if len(parts) == 1:
            return False
        parts = parts[:-1]
    last = parts[-1]
    if last != "" and chars_in(last, ASCII_DIGITS):
        return True
    return not ipv4_number(last).failed


def ipv4_parse(s):
    verr = False
    parts = split_all(s, ".")
    if parts[-1] == "":
        verr = True
        if len(parts) > 1:
            parts = parts[:-1]
    if len(parts) > 4:
        return HostResult(True, None, True)
    numbers = []
    for part in parts:
        n = ipv4_number(part)
        if n.failed:
            return HostResult(True, None, True)
        verr = n.verr or verr
        numbers = numbers + [n.value]
    for n in numbers:
        verr = n > 255 or verr
    for n in numbers[:-1]:
        if n > 255:
            return HostResult(True, None, True)
    if numbers[-1] >= 256 ** (5 - len(numbers)):
        return HostResult(True, None, True)
    ipv4 = numbers[-1]
    counter = 0
    for n in numbers[:-1]:
        ipv4 = ipv4 + n * 256 ** (3 - counter)
        counter = counter + 1
    return HostResult(False, ipv4, verr)


def ipv4_serialize(n):
    return (
        str(n // 16777216 % 256)
        + "."
        + str(n // 65536 % 256)
        + "."
        + str(n // 256 % 256)
        + "."
        + str(n % 256)
    )


def ipv6_fail():
    return HostResult(True, None, True)


def decimal_octet(x):
    return (
        x != ""
        and chars_in(x, ASCII_DIGITS)
        and not (len(x) >= 2 and x[0] == "0")
        and len(x) <= 3
        and digits_value(x, 10) <= 255
    )


def ipv4_in_ipv6(w):
    """The two 16-bit pieces of a dotted-decimal IPv4 address, or None."""
    p = split_all(w, ".")
    if len(p) != 4:
        return None
    if not (decimal_octet(p[0]) and decimal_octet(p[1]) and decimal_octet(p[2]) and decimal_octet(p[3])):
        return None
    return (
        digits_value(p[0], 10) * 256 + digits_value(p[1], 10),
        digits_value(p[2], 10) * 256 + digits_value(p[3], 10),
    )


class V6Machine:
    """The IPv6 parser's variables, read code point by code point: the address
    with `n` pieces so far, the place of "::" and the word being read."""

    def __init__(self):
        self.addr = [0, 0, 0, 0, 0, 0, 0, 0]
        self.n = 0
        self.compress = None
        self.word = ""
        self.done = ""


def ipv6_begin(m, s):
    """A leading "::" (a single ":" is an error); where the words start."""
    if s[:1] != ":":
        return 0
    if s[1:2] != ":":
        m.done = "fail"
        return 0
    m.n = 1
    m.compress = 1
    return 2


def ipv6_step(m, c):
    """c: the next code point, or "" at the end of the input."""
    if c != "" and m.n >= 8:
        m.done = "fail"
    elif c != "" and c != ":":
        m.word = m.word + c
    elif m.word != "":
        ipv6_word(m, m.word, c == "")
        m.word = ""
    elif c == "":
        # nothing after a ":" that is not a "::" (or nothing at all)
        if m.compress is None or m.compress != m.n:
            m.done = "fail"
    elif m.compress is not None:
        m.done = "fail"
    else:
        m.n = m.n + 1
        m.compress = m.n


def ipv6_word(m, w, last):
    """A word between colons: a piece, or (at the end) a dotted IPv4 address."""
    if len(w) <= 4 and chars_in(w, ASCII_HEX):
        m.addr[m.n] = digits_value(w, 16)
        m.n = m.n + 1
        return
    v = None
    if last and m.n <= 6:
        v = ipv4_in_ipv6(w)
    if v is None:
        m.done = "fail"
        return
    m.addr[m.n] = v[0]
    m.addr[m.n + 1] = v[1]
    m.n = m.n + 2


def ipv6_end(m):
    """The address, with the pieces after "::" moved to its end."""
    if m.done == "fail" or m.compress is None and m.n != 8:
        return ipv6_fail()
    a = m.addr
    if m.compress is None:
        return HostResult(False, tuple(a), False)
    return HostResult(False, tuple(a[: m.compress] + [0] * (8 - m.n) + a[m.compress : m.n]), False)


def ipv6_parse(s):
    """IPv6 parser (3.5)."""
    m = V6Machine()
    p = ipv6_begin(m, s)
    if m.done == "":
        for c in s[p:]:
            ipv6_step(m, c)
            if m.done != "":
                break
    if m.done == "":
        ipv6_step(m, "")
    return ipv6_end(m)


def ipv6_parse_pointer(s):
    """IPv6 parser (3.5), pointer by pointer as the Standard writes it; conc/laws.py
    compares ipv6_parse with it natively."""
    address = [0] * 8
    piece_index = 0
    compress = None
    p = 0
    n = len(s)

    def c(i):
        return s[i : i + 1]

    if c(p) == ":":
        if c(p + 1) != ":":
            return ipv6_fail()
        p += 2
        piece_index += 1
        compress = piece_index
    while p < n:
        if piece_index == 8:
            return ipv6_fail()
        if c(p) == ":":
            if compress is not None:
                return ipv6_fail()
            p += 1
            piece_index += 1
            compress = piece_index
            continue
        value = length = 0
        while length < 4 and p < n and c(p) in ASCII_HEX:
            value = value * 16 + digits_value(c(p), 16)
            p += 1
            length += 1
        if c(p) == ".":
            if length == 0:
                return ipv6_fail()
            p -= length
            if piece_index > 6:
                return ipv6_fail()
            seen = 0
            while p < n:
                v = None
                if seen > 0:
                    if c(p) == "." and seen < 4:
                        p += 1
                    else:
                        return ipv6_fail()
                if p >= n or c(p) not in ASCII_DIGITS:
                    return ipv6_fail()
                while p < n and c(p) in ASCII_DIGITS:
                    d = digits_value(c(p), 10)
                    if v is None:
                        v = d
                    elif v == 0:
                        return ipv6_fail()
                    else:
                        v = v * 10 + d
                    if v > 255:
                        return ipv6_fail()
                    p += 1
                address[piece_index] = address[piece_index] * 0x100 + v
                seen += 1
                if seen == 2 or seen == 4:
                    piece_index += 1
            if seen != 4:
                return ipv6_fail()
            break
        elif c(p) == ":":
            p += 1
            if p >= n:
                return ipv6_fail()
        elif p < n:
            return ipv6_fail()
        address[piece_index] = value
        piece_index += 1
    if compress is not None:
        swaps = piece_index - compress
        piece_index = 7
        while piece_index != 0 and swaps > 0:
            j = compress + swaps - 1
            address[piece_index], address[j] = address[j], address[piece_index]
            piece_index -= 1
            swaps -= 1
    elif piece_index != 8:
        return ipv6_fail()
    return HostResult(False, tuple(address), False)


def zero_run(a, i):
    """Number of consecutive zero pieces from index i on."""
    n = 0
    for j in range(i, 8):
        if a[j] != 0:
            return n
        n = n + 1
    return n


def ipv6_compress(a):
    """Index of the first piece of the first longest run of >= 2 zeros, or None."""
    best = None
    best_len = 1
    for i in range(8):
        n = zero_run(a, i)
        if n > best_len:
            best = i
            best_len = n
    return best


def ipv6_serialize(a):
    out = ""
    compress = ipv6_compress(a)
    ignore0 = False
    for i in range(8):
        if ignore0 and a[i] == 0:
            continue
        ignore0 = False
        if compress == i:
            if i == 0:
                out = out + "::"
            else:
                out = out + ":"
            ignore0 = True
            continue
        out = out + hex_lower(a[i])
        if i != 7:
            out = out + ":"
    return out


def opaque_host_parse(s):
    if not no_chars_in(s, FORBIDDEN_HOST):
        return HostResult(True, None, True)
    return HostResult(False, pe(s, C0_SET), not all_url_units(s))


class Ascii:
    def __init__(self, failed, value):
        self.failed = failed
        self.value = value


def domain_to_ascii(domain, be_strict):
    """domain to ASCII (3.3): UTS46 ToASCII with CheckHyphens=false,
    CheckBidi=true, CheckJoiners=true, UseSTD3ASCIIRules=beStrict,
    Transitional_Processing=false, VerifyDnsLength=beStrict."""
    domain = usv(domain)
    flags = UIDNA_CHECK_BIDI | UIDNA_CHECK_CONTEXTJ | UIDNA_NONTRANSITIONAL_TO_ASCII
    if be_strict:
        flags = flags | UIDNA_USE_STD3_RULES
    r = icu_to_ascii(flags, domain)
    if r.exc:
        return Ascii(True, None)
    ignored = UIDNA_HYPHEN_ERRORS
    if not be_strict:
        ignored = ignored | UIDNA_LENGTH_ERRORS
    if bits_outside(r.errors, ignored):
        return Ascii(True, None)
    if r.dest == "":
        return Ascii(True, None)
    return Ascii(False, r.dest)


class Unicode:
    def __init__(self, failed, value, verr):
        self.failed = failed
        self.value = value
        self.verr = verr


def domain_to_unicode(domain, be_strict):
    """domain to Unicode (3.3): UTS46 ToUnicode; errors are validation errors only."""
    domain = usv(domain)
    flags = UIDNA_CHECK_BIDI | UIDNA_CHECK_CONTEXTJ | UIDNA_NONTRANSITIONAL_TO_UNICODE
    if be_strict:
        flags = flags | UIDNA_USE_STD3_RULES
    r = icu_to_unicode(flags, domain)
    if r.exc:
        return Unicode(True, None, True)
    ignored = UIDNA_HYPHEN_ERRORS | UIDNA_LENGTH_ERRORS
    return Unicode(False, r.dest, bits_outside(r.errors, ignored))


def host_parse(s, not_special):
    if s == "":
        return HostResult(False, "", False)
    if s[0] == "[":
        if s[-1] != "]":
            return HostResult(True, None, True)
        return ipv6_parse(s[1:-1])
    if not_special:
        return opaque_host_parse(s)
    domain = utf8_decode_lossy(percent_decode_string(s))
    a = domain_to_ascii(domain, False)
    if a.failed:
        return HostResult(True, None, True)
    if not no_chars_in(a.value, FORBIDDEN_DOMAIN):
        return HostResult(True, None, True)
    if ends_in_a_number(a.value):
        return ipv4_parse(a.value)
    return HostResult(False, a.value, False)


def host_serialize(host):
    if isinstance(host, int):
        return ipv4_serialize(host)
    if isinstance(host, str):
        return host
    return "[" + ipv6_serialize(host) + "]"


# ------------------------------------------------------------------ valid host strings (3.4)
def valid_domain(s):
    a = domain_to_ascii(s, True)
    if a.failed:
        return False
    b = domain_to_unicode(s, True)
    return not b.failed and not b.verr


def valid_ipv4(s):
    p = split_all(s, ".")
    if len(p) != 4:
        return False
    return decimal_octet(p[0]) and decimal_octet(p[1]) and decimal_octet(p[2]) and decimal_octet(p[3])


def valid_ipv6(s):
    return not ipv6_parse(s).failed


def bracketed(s):
    return s[:1] == "[" and s[-1:] == "]"


def valid_opaque_host(s):
    if s == "":
        return False
    if bracketed(s):
        return valid_ipv6(s[1:-1])
    return no_chars_in(s, FORBIDDEN_HOST) and all_url_units(s)


def valid_host(s):
    if bracketed(s):
        return valid_ipv6(s[1:-1])
    if ends_in_a_number(s):
        return valid_ipv4(s)
    return valid_domain(s)
