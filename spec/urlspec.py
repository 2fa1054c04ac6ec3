"""The basic URL parser of the WHATWG URL Standard (snapshot of 26 July 2023).

`step` is one run of the Standard's state machine on one code point; the parser
is the closure of `step`.  The text follows the Standard's section 4.4 state by
state.  Written in the Python subset that pydv executes symbolically.
"""
from speclib import *
from hostspec import host_parse  # noqa: F401


class Machine:
    """The Standard's parser variables.  url: object with the eight components."""

    def __init__(self, s, base, override, url, state):
        self.s = s
        self.base = base
        self.override = override
        self.url = url
        self.state = state
        self.p = 0
        self.buffer = ""
        self.at = False
        self.br = False
        self.pw = False
        self.done = ""  # "", "ok", "fail"
        self.verr = False


class Url:
    def __init__(self):
        self.scheme = ""
        self.username = ""
        self.password = ""
        self.host = None
        self.port = None
        self.path = []
        self.query = None
        self.fragment = None


def is_special(url):
    return url.scheme in SPECIAL_PORTS


def includes_credentials(url):
    return url.username != "" or url.password != ""


def opaque(url):
    return isinstance(url.path, str)


def is_drive_letter(x):
    return len(x) == 2 and x[0] in ASCII_ALPHA and (x[1] == ":" or x[1] == "|")


def is_normalized_drive_letter(x):
    return len(x) == 2 and x[0] in ASCII_ALPHA and x[1] == ":"


def starts_with_drive_letter(s, p):
    # the code point substring from p to the end starts with a Windows drive letter
    if len(s) - p < 2:
        return False
    if not is_drive_letter(s[p : p + 2]):
        return False
    return len(s) - p == 2 or s[p + 2] in "/\\?#"


def shorten(url):
    n = len(url.path)
    if url.scheme == "file" and n == 1 and is_normalized_drive_letter(url.path[0]):
        return
    if n > 0:
        url.path.pop()


def unit_error(m, c):
    """c is not a URL code point and not %, or is a % not followed by two hex digits."""
    if c == "%":
        rest = m.s[m.p + 1 : m.p + 3]
        return len(rest) < 2 or not (rest[0] in ASCII_HEX and rest[1] in ASCII_HEX)
    return not is_url_code_point(c)


def fail(m):
    m.done = "fail"


def stop(m):
    m.done = "ok"


def step(m):
    c = m.s[m.p : m.p + 1]
    STATES[m.state](m, c)
    if m.done == "":
        if m.p >= len(m.s):
            m.done = "ok"
        else:
            m.p = m.p + 1


def st_scheme_start(m, c):
    if c != "" and c in ASCII_ALPHA:
        m.buffer = m.buffer + lower(c)
        m.state = "SCHEME"
    elif m.override is None:
        m.state = "NO_SCHEME"
        m.p = m.p - 1
    else:
        fail(m)


def st_scheme(m, c):
    url = m.url
    if c != "" and (c in ASCII_ALNUM or c in "+-."):
        m.buffer = m.buffer + lower(c)
    elif c == ":":
        if m.override is not None:
            if (url.scheme in SPECIAL_PORTS) != (m.buffer in SPECIAL_PORTS):
                stop(m)
                return
            if m.buffer == "file" and (includes_credentials(url) or url.port is not None):
                stop(m)
                return
            if url.scheme == "file" and (url.host is None or url.host == ""):
                stop(m)
                return
        url.scheme = m.buffer
        if m.override is not None:
            if url.port is not None and default_port(url.scheme) == url.port:
                url.port = None
            stop(m)
            return
        m.buffer = ""
        if url.scheme == "file":
            if not (m.s[m.p + 1 : m.p + 3] == "//"):
                m.verr = True
            m.state = "FILE"
        elif is_special(url) and m.base is not None and m.base.scheme == url.scheme:
            m.state = "SPECIAL_RELATIVE_OR_AUTHORITY"
        elif is_special(url):
            m.state = "SPECIAL_AUTHORITY_SLASHES"
        elif m.s[m.p + 1 : m.p + 2] == "/":
            m.state = "PATH_OR_AUTHORITY"
            m.p = m.p + 1
        else:
            url.path = ""
            m.state = "OPAQUE_PATH"
    elif m.override is None:
        m.buffer = ""
        m.state = "NO_SCHEME"
        m.p = -1
    else:
        fail(m)


def default_port(scheme):
    if scheme in SPECIAL_PORTS:
        return SPECIAL_PORTS[scheme]
    return None


def st_no_scheme(m, c):
    base = m.base
    if base is None or (opaque(base) and c != "#"):
        m.verr = True
        fail(m)
    elif opaque(base) and c == "#":
        m.url.scheme = base.scheme
        m.url.path = base.path
        m.url.query = base.query
        m.url.fragment = ""
        m.state = "FRAGMENT"
    elif base.scheme != "file":
        m.state = "RELATIVE"
        m.p = m.p - 1
    else:
        m.state = "FILE"
        m.p = m.p - 1


def st_special_relative_or_authority(m, c):
    if c == "/" and m.s[m.p + 1 : m.p + 2] == "/":
        m.state = "SPECIAL_AUTHORITY_IGNORE_SLASHES"
        m.p = m.p + 1
    else:
        m.verr = True
        m.state = "RELATIVE"
        m.p = m.p - 1


def st_path_or_authority(m, c):
    if c == "/":
        m.state = "AUTHORITY"
    else:
        m.state = "PATH"
        m.p = m.p - 1


def st_relative(m, c):
    url = m.url
    base = m.base
    url.scheme = base.scheme
    if c == "/":
        m.state = "RELATIVE_SLASH"
    elif is_special(url) and c == "\\":
        m.verr = True
        m.state = "RELATIVE_SLASH"
    else:
        url.username = base.username
        url.password = base.password
        url.host = base.host
        url.port = base.port
        url.path = list_copy(base.path)
        url.query = base.query
        if c == "?":
            url.query = ""
            m.state = "QUERY"
        elif c == "#":
            url.fragment = ""
            m.state = "FRAGMENT"
        elif c != "":
            url.query = None
            shorten(url)
            m.state = "PATH"
            m.p = m.p - 1


def st_relative_slash(m, c):
    url = m.url
    base = m.base
    if is_special(url) and (c == "/" or c == "\\"):
        if c == "\\":
            m.verr = True
        m.state = "SPECIAL_AUTHORITY_IGNORE_SLASHES"
    elif c == "/":
        m.state = "AUTHORITY"
    else:
        url.username = base.username
        url.password = base.password
        url.host = base.host
        url.port = base.port
        m.state = "PATH"
        m.p = m.p - 1


def st_special_authority_slashes(m, c):
    if c == "/" and m.s[m.p + 1 : m.p + 2] == "/":
        m.state = "SPECIAL_AUTHORITY_IGNORE_SLASHES"
        m.p = m.p + 1
    else:
        m.verr = True
        m.state = "SPECIAL_AUTHORITY_IGNORE_SLASHES"
        m.p = m.p - 1


def st_special_authority_ignore_slashes(m, c):
    if c != "/" and c != "\\":
        m.state = "AUTHORITY"
        m.p = m.p - 1
    else:
        m.verr = True


def st_authority(m, c):
    url = m.url
    if c == "@":
        m.verr = True
        text = m.buffer
        if m.at:
            text = "%40" + text
        m.at = True
        # "for each codePoint in buffer": everything before the first ":" (if none
        # was seen yet) goes to the username, everything after it to the password
        if m.pw:
            url.password = url.password + pe(text, USERINFO_SET)
        else:
            n = first_index(text, ":")
            if n < 0:
                url.username = url.username + pe(text, USERINFO_SET)
            else:
                m.pw = True
                url.username = url.username + pe(text[:n], USERINFO_SET)
                url.password = url.password + pe(text[n + 1 :], USERINFO_SET)
        m.buffer = ""
    elif c == "" or c in "/?#" or (is_special(url) and c == "\\"):
        if m.at and m.buffer == "":
            m.verr = True
            fail(m)
            return
        m.p = m.p - (len(m.buffer) + 1)
        m.buffer = ""
        # the Standard's flags are not read by any later state
        m.at = False
        m.pw = False
        m.state = "HOST"
    else:
        m.buffer = m.buffer + c


def st_host(m, c):
    url = m.url
    if m.override is not None and url.scheme == "file":
        m.p = m.p - 1
        m.state = "FILE_HOST"
    elif c == ":" and not m.br:
        if m.buffer == "":
            m.verr = True
            fail(m)
            return
        if m.override is not None and m.override == "HOSTNAME":
            stop(m)
            return
        host = host_parse(m.buffer, not is_special(url))
        m.verr = m.verr | host.verr
        if host.failed:
            fail(m)
            return
        url.host = host.value
        m.buffer = ""
        m.state = "PORT"
    elif c == "" or c in "/?#" or (is_special(url) and c == "\\"):
        m.p = m.p - 1
        if is_special(url) and m.buffer == "":
            m.verr = True
            fail(m)
            return
        if (
            m.override is not None
            and m.buffer == ""
            and (includes_credentials(url) or url.port is not None)
        ):
            stop(m)
            return
        host = host_parse(m.buffer, not is_special(url))
        m.verr = m.verr | host.verr
        if host.failed:
            fail(m)
            return
        url.host = host.value
        m.buffer = ""
        m.br = False
        m.state = "PATH_START"
        if m.override is not None:
            stop(m)
    else:
        if c == "[":
            m.br = True
        if c == "]":
            m.br = False
        m.buffer = m.buffer + c


def st_port(m, c):
    url = m.url
    if c != "" and c in ASCII_DIGITS:
        m.buffer = m.buffer + c
    elif c == "" or c in "/?#" or (is_special(url) and c == "\\") or m.override is not None:
        if m.buffer != "":
            port = digits_value(m.buffer, 10)
            if port > 65535:
                m.verr = True
                fail(m)
                return
            if default_port(url.scheme) == port:
                url.port = None
            else:
                url.port = port
            m.buffer = ""
        if m.override is not None:
            stop(m)
            return
        m.state = "PATH_START"
        m.p = m.p - 1
    else:
        m.verr = True
        fail(m)


def st_file(m, c):
    url = m.url
    base = m.base
    url.scheme = "file"
    url.host = ""
    if c == "/" or c == "\\":
        if c == "\\":
            m.verr = True
        m.state = "FILE_SLASH"
    elif base is not None and base.scheme == "file":
        url.host = base.host
        url.path = list_copy(base.path)
        url.query = base.query
        if c == "?":
            url.query = ""
            m.state = "QUERY"
        elif c == "#":
            url.fragment = ""
            m.state = "FRAGMENT"
        elif c != "":
            url.query = None
            if not starts_with_drive_letter(m.s, m.p):
                shorten(url)
            else:
                m.verr = True
                url.path = []
            m.state = "PATH"
            m.p = m.p - 1
    else:
        m.state = "PATH"
        m.p = m.p - 1


def st_file_slash(m, c):
    url = m.url
    base = m.base
    if c == "/" or c == "\\":
        if c == "\\":
            m.verr = True
        m.state = "FILE_HOST"
    else:
        if base is not None and base.scheme == "file":
            url.host = base.host
            if (
                not starts_with_drive_letter(m.s, m.p)
                and len(base.path) > 0
                and is_normalized_drive_letter(base.path[0])
            ):
                url.path.append(base.path[0])
        m.state = "PATH"
        m.p = m.p - 1


def st_file_host(m, c):
    url = m.url
    if c == "" or c == "/" or c == "\\" or c == "?" or c == "#":
        m.p = m.p - 1
        if m.override is None and is_drive_letter(m.buffer):
            m.verr = True
            m.state = "PATH"  # buffer is kept and used by the path state
        elif m.buffer == "":
            url.host = ""
            if m.override is not None:
                stop(m)
                return
            m.state = "PATH_START"
        else:
            host = host_parse(m.buffer, not is_special(url))
            m.verr = m.verr | host.verr
            if host.failed:
                fail(m)
                return
            if host.value == "localhost":
                url.host = ""
            else:
                url.host = host.value
            if m.override is not None:
                stop(m)
                return
            m.buffer = ""
            m.state = "PATH_START"
    else:
        m.buffer = m.buffer + c


def st_path_start(m, c):
    url = m.url
    if is_special(url):
        if c == "\\":
            m.verr = True
        m.state = "PATH"
        if c != "/" and c != "\\":
            m.p = m.p - 1
    elif m.override is None and c == "?":
        url.query = ""
        m.state = "QUERY"
    elif m.override is None and c == "#":
        url.fragment = ""
        m.state = "FRAGMENT"
    elif c != "":
        m.state = "PATH"
        if c != "/":
            m.p = m.p - 1
    elif m.override is not None and url.host is None:
        url.path.append("")


def st_path(m, c):
    url = m.url
    slash = c == "/" or (is_special(url) and c == "\\")
    if not (c == "" or slash or (m.override is None and (c == "?" or c == "#"))):
        if unit_error(m, c):
            m.verr = True
        m.buffer = m.buffer + pe(c, PATH_SET)
    else:
        if is_special(url) and c == "\\":
            m.verr = True
        if m.buffer in DOUBLE_DOT:
            shorten(url)
            if not slash:
                url.path.append("")
        elif m.buffer in SINGLE_DOT:
            if not slash:
                url.path.append("")
        else:
            seg = m.buffer
            if url.scheme == "file" and len(url.path) == 0 and is_drive_letter(seg):
                seg = seg[:1] + ":"
            url.path.append(seg)
        m.buffer = ""
        if c == "?":
            url.query = ""
            m.state = "QUERY"
        if c == "#":
            url.fragment = ""
            m.state = "FRAGMENT"


def st_opaque_path(m, c):
    url = m.url
    if c == "?":
        url.query = ""
        m.state = "QUERY"
    elif c == "#":
        url.fragment = ""
        m.state = "FRAGMENT"
    elif c != "":
        if unit_error(m, c):
            m.verr = True
        url.path = url.path + pe(c, C0_SET)


def st_query(m, c):
    url = m.url
    if (m.override is None and c == "#") or c == "":
        if is_special(url):
            url.query = url.query + pe(m.buffer, SPECIAL_QUERY_SET)
        else:
            url.query = url.query + pe(m.buffer, QUERY_SET)
        m.buffer = ""
        if c == "#":
            url.fragment = ""
            m.state = "FRAGMENT"
    else:
        if unit_error(m, c):
            m.verr = True
        m.buffer = m.buffer + c


def st_fragment(m, c):
    if c != "":
        if unit_error(m, c):
            m.verr = True
        m.url.fragment = m.url.fragment + pe(c, FRAGMENT_SET)


STATES = {
    "SCHEME_START": st_scheme_start,
    "SCHEME": st_scheme,
    "NO_SCHEME": st_no_scheme,
    "SPECIAL_RELATIVE_OR_AUTHORITY": st_special_relative_or_authority,
    "PATH_OR_AUTHORITY": st_path_or_authority,
    "RELATIVE": st_relative,
    "RELATIVE_SLASH": st_relative_slash,
    "SPECIAL_AUTHORITY_SLASHES": st_special_authority_slashes,
    "SPECIAL_AUTHORITY_IGNORE_SLASHES": st_special_authority_ignore_slashes,
    "AUTHORITY": st_authority,
    "HOST": st_host,
    "HOSTNAME": st_host,
    "PORT": st_port,
    "FILE": st_file,
    "FILE_SLASH": st_file_slash,
    "FILE_HOST": st_file_host,
    "PATH_START": st_path_start,
    "PATH": st_path,
    "OPAQUE_PATH": st_opaque_path,
    "QUERY": st_query,
    "FRAGMENT": st_fragment,
}


def run(m):
    """Closure of step (executed natively only)."""
    while m.done == "":
        step(m)
    return m


def strip_c0_space(s):
    return strip_chars(s, C0_SPACE)


def strip_tab_newline(s):
    return remove_chars(s, "\t\n\r")


def basic_parse(s, base=None, url=None, override=None):
    """The basic URL parser with UTF-8 (executed natively).  Returns the machine."""
    verr = False
    s = usv(s)
    if url is None:
        url = Url()
        t = strip_c0_space(s)
        verr = verr or t != s
        s = t
    t = strip_tab_newline(s)
    verr = verr or t != s
    m = Machine(t, base, override, url, override or "SCHEME_START")
    m.verr = verr
    return run(m)
