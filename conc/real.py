"""Observes the real urlstd (from /repo/src) through its public API."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec"))
sys.dont_write_bytecode = True

import logging

logging.disable(logging.CRITICAL)

import urlstd.parse as up  # noqa: E402
from urlstd.error import URLParseError  # noqa: E402

assert os.path.abspath(up.__file__).startswith(os.path.abspath(REPO)), up.__file__

FIELDS = ("scheme", "username", "password", "host", "port", "path", "query", "fragment")


def rec(u):
    return tuple((tuple(v) if isinstance(v, list) else v) if f != "path" else (("list", tuple(v)) if isinstance(v, list) else v) for f, v in ((f, getattr(u, f)) for f in FIELDS))
