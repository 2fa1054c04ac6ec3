"""The URL record operations and the URL / URLSearchParams API of the Standard
(sections 4.1, 4.5-4.7, 5, 6), and urlparse()'s documented mapping."""
from speclib import *
from hostspec import host_parse, host_serialize
from urlspec import (
    Machine,
    Url,
    basic_parse,
    includes_credentials,
    is_special,
    opaque,
)


# ---------------------------------------------------------------- serializing
def path_serialize(url):
    if opaque(url):
        return url.path
    return "".join(["/" + seg for seg in url.path])


def url_serialize(url, exclude_fragment=False):
    out = url.scheme + ":"
    if url.host is not None:
        out = out + "//"
        if includes_credentials(url):
            out = out + url.username
            if url.password != "":
                out = out + ":" + url.password
            out = out + "@"
        out = out + host_serialize(url.host)
        if url.port is not None:
            out = out + ":" + str(url.port)
    elif not opaque(url) and len(url.path) > 1 and url.path[0] == "":
        out = out + "/."
    out = out + path_serialize(url)
    if url.query is not None:
        out = out + "?" + url.query
    if not exclude_fragment and url.fragment is not None:
        out = out + "#" + url.fragment
    return out


def cannot_have_username_password_port(url):
    return url.host is None or url.host == "" or url.scheme == "file"


# ------------------------------------------------------------------- getters
def get_href(url):
    return url_serialize(url)


def get_protocol(url):
    return url.scheme + ":"


def get_username(url):
    return url.username


def get_password(url):
    return url.password


def get_host(url):
    if url.host is None:
        return ""
    if url.port is None:
        return host_serialize(url.host)
    return host_serialize(url.host) + ":" + str(url.port)


def get_hostname(url):
    if url.host is None:
        return ""
    return host_serialize(url.host)


def get_port(url):
    if url.port is None:
        return ""
    return str(url.port)


def get_pathname(url):
    return path_serialize(url)


def get_search(url):
    if url.query is None or url.query == "":
        return ""
    return "?" + url.query


def get_hash(url):
    if url.fragment is None or url.fragment == "":
        return ""
    return "#" + url.fragment


# ------------------------------------------------------------------- setters
def strip_opaque_path(url):
    if not opaque(url):
        return
    if url.fragment is not None or url.query is not None:
        return
    url.path = rstrip_space(url.path)


def set_protocol(url, v):
    return basic_parse(v + ":", None, url, "SCHEME_START").done


def set_username(url, v):
    if cannot_have_username_password_port(url):
        return "ok"
    url.username = pe(v, USERINFO_SET)
    return "ok"


def set_password(url, v):
    if cannot_have_username_password_port(url):
        return "ok"
    url.password = pe(v, USERINFO_SET)
    return "ok"


def set_host(url, v):
    if opaque(url):
        return "ok"
    return basic_parse(v, None, url, "HOST").done


def set_hostname(url, v):
    if opaque(url):
        return "ok"
    return basic_parse(v, None, url, "HOSTNAME").done


def set_port(url, v):
    if cannot_have_username_password_port(url):
        return "ok"
    if v == "":
        url.port = None
        return "ok"
    return basic_parse(v, None, url, "PORT").done


def set_pathname(url, v):
    if opaque(url):
        return "ok"
    url.path = []
    return basic_parse(v, None, url, "PATH_START").done


def set_search(url, v):
    if v == "":
        url.query = None
        strip_opaque_path(url)
        return "ok"
    if v[0] == "?":
        v = v[1:]
    url.query = ""
    return basic_parse(v, None, url, "QUERY").done


def set_hash(url, v):
    if v == "":
        url.fragment = None
        strip_opaque_path(url)
        return "ok"
    if v[0] == "#":
        v = v[1:]
    url.fragment = ""
    return basic_parse(v, None, url, "FRAGMENT").done


# ------------------------------------------------------------ form-urlencoded
def form_parse(b):
    """application/x-www-form-urlencoded parser: list of pairs."""
    return [form_pair(seq) for seq in split_bytes(b, 0x26) if len(seq) > 0]


def form_pair(seq):
    n = seq.find(b"=")
    if n < 0:
        return (form_decode(seq), "")
    return (form_decode(seq[:n]), form_decode(seq[n + 1 :]))


def form_decode(b):
    return utf8_decode_lossy(percent_decode_bytes(plus_to_space(b)))


def form_serialize(pairs):
    return "&".join(
        [pe(p[0], URLENCODED_SET, True) + "=" + pe(p[1], URLENCODED_SET, True) for p in pairs]
    )


# ------------------------------------------------------------ URLSearchParams
def params_from_string(s):
    if s != "" and s[0] == "?":
        s = s[1:]
    return form_parse(utf8_bytes(s))


def params_from_pairs(pairs):
    return [(usv(p[0]), usv(p[1])) for p in pairs]


def params_from_dict(items):
    """Conversion to record<USVString, USVString>: a later entry whose name
    converts to the same string replaces the value, keeping the position."""
    out = []
    for p in items:
        name = usv(p[0])
        value = usv(p[1])
        found = False
        for i in range(len(out)):
            if not found and out[i][0] == name:
                out[i] = (name, value)
                found = True
        if not found:
            out.append((name, value))
    return out


def params_keys(lst):
    return [p[0] for p in lst]


def params_values(lst):
    return [p[1] for p in lst]


def params_of_query(query):
    if query is None:
        return []
    return form_parse(utf8_bytes(query))


def params_append(lst, name, value):
    return lst + [(usv(name), usv(value))]


def params_delete(lst, name, value=None):
    name = usv(name)
    if value is None:
        return [p for p in lst if p[0] != name]
    value = usv(value)
    return [p for p in lst if not (p[0] == name and p[1] == value)]


def params_get(lst, name):
    return first_value(lst, usv(name))


def params_get_all(lst, name):
    name = usv(name)
    return tuple([p[1] for p in lst if p[0] == name])


def params_has(lst, name, value=None):
    name = usv(name)
    if value is None:
        return has_pair(lst, name, None)
    return has_pair(lst, name, usv(value))


def params_set(lst, name, value):
    name = usv(name)
    value = usv(value)
    i = first_name_index(lst, name)
    if i < 0:
        return lst + [(name, value)]
    return lst[:i] + [(name, value)] + [p for p in lst[i + 1 :] if p[0] != name]


def params_sort(lst):
    return stable_sorted_by_name_code_units(lst)


def params_update(url, lst):
    """URLSearchParams' update steps for the list of an attached object."""
    q = form_serialize(lst)
    if q == "":
        url.query = None
        strip_opaque_path(url)
    else:
        url.query = q


def query_of_params(lst):
    q = form_serialize(lst)
    if q == "":
        return None
    return q


# --------------------------------------------------------------------- origin
def origin(url):
    """None (opaque) or (scheme, host, port)."""
    if url.scheme == "blob":
        m = basic_parse(path_serialize(url))
        if m.done == "ok" and (m.url.scheme == "http" or m.url.scheme == "https"):
            return origin_tuple(m.url)
        return None
    if (
        url.scheme == "ftp"
        or url.scheme == "http"
        or url.scheme == "https"
        or url.scheme == "ws"
        or url.scheme == "wss"
    ):
        return origin_tuple(url)
    return None


def origin_tuple(url):
    return (url.scheme, url.host, url.port)


def origin_serialize(o):
    if o is None:
        return "null"
    host = ""
    if o[1] is not None:
        host = host_serialize(o[1])
    out = o[0] + "://" + host
    if o[2] is not None:
        out = out + ":" + str(o[2])
    return out


def same_origin(a, b):
    return a.scheme == b.scheme and a.host == b.host and a.port == b.port


def same_origin_domain(a, b):
    if a.domain is not None and b.domain is not None:
        return a.scheme == b.scheme and a.domain == b.domain
    if a.domain is None and b.domain is None:
        return same_origin(a, b)
    return False


# ------------------------------------------------------------------- urlparse
def urlparse_view(url, allow_fragments):
    netloc = ""
    if includes_credentials(url):
        netloc = url.username
        if url.password != "":
            netloc = netloc + ":" + url.password
        netloc = netloc + "@"
    if url.host is not None:
        netloc = netloc + host_serialize(url.host)
    if url.port is not None:
        netloc = netloc + ":" + str(url.port)
    path = path_serialize(url)
    params = ""
    n = first_index(path, ";")
    if n >= 0:
        params = path[n + 1 :]
        path = path[:n]
    query = ""
    if url.query is not None:
        query = url.query
    fragment = ""
    if url.fragment is not None:
        fragment = url.fragment
    if not allow_fragments:
        if fragment != "":
            if query != "":
                query = query + "#" + fragment
            elif params != "":
                params = params + "#" + fragment
            else:
                path = path + "#" + fragment
        fragment = ""
    return (url.scheme, netloc, path, params, query, fragment)
