"""URLs in the settings: what is listed, and what credentials a requested URL gets."""
from __future__ import annotations

import copy
import re
from urllib.parse import parse_qs, urlencode

from pydantic import AnyUrl

from contracts.speclib import Rejected
from recap.settings import RecapSettings


class Url:
    """The parts of a URL; userinfo is None without an "@"."""

    def __init__(self, scheme, userinfo, hostport, path, query, fragment):
        self.scheme, self.userinfo, self.hostport = scheme, userinfo, hostport
        self.path, self.query, self.fragment = path, query, fragment

    @property
    def text(self):
        return text(self)

    def __repr__(self):
        return f"Url({text(self)!r})"


def text(u):
    out = u.scheme + "://"
    if u.userinfo is not None:
        out += u.userinfo + "@"
    out += u.hostport + u.path
    if u.query:
        out += "?" + u.query
    if u.fragment:
        out += "#" + u.fragment
    return out


def split(s):
    """RFC 3986, appendix B."""
    m = re.fullmatch(r"(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?", s, re.S)
    user, at, host = (m[2] or "").rpartition("@")
    return Url(m[1].lower(), user if at else None, host, m[3], m[4] or "", m[5] or "")


def configured(u):
    """The URL as pydantic keeps it in the settings."""
    return split(str(AnyUrl(text(u))))


def settings(urls):
    return RecapSettings(urls=[text(u) for u in urls])


def valid(urls):
    """Whether these are URLs, written the way their parts are read back."""
    try:
        if any([vars(split(text(u))) != vars(u) for u in urls]):
            return False
        for u in urls:
            AnyUrl(text(u))
        return True
    except ValueError:
        return False


# ---- what the contracts talk about -------------------------------------------------------
def segments(path):
    return [s for s in path.split("/") if s not in ("", ".")]


def below(path, base):
    """Whether a path is the base or inside it, by whole segments."""
    a, b = segments(path), segments(base)
    return a[: len(b)] == b


def climbs(path):
    return ".." in segments(path)


def tidy(path):
    """The path without empty and dot segments (two leading slashes are kept, as in POSIX)."""
    root = "//" if path.startswith("//") and not path.startswith("///") else "/" if path.startswith("/") or not path else ""
    return (root + "/".join(segments(path))).rstrip("/")


def host(u):
    """Host name (case does not matter) and port."""
    m = re.fullmatch(r"(\[[^\]]*\]|[^:]*)(?::(\d*))?", u.hostport)
    return (m[1].lower(), int(m[2]) if m[2] else None)


def merge_query(a, b):
    """The parameters of both, those of b win."""
    return urlencode(parse_qs(a) | parse_qs(b), doseq=True)


def r_urls(urls):
    return valid(urls)


def code_safe(urls):
    return settings(urls).safe_urls


def spec_safe(urls):
    out = []
    for v in urls:
        u = configured(v)
        out.append(text(Url(u.scheme, None, u.hostport, u.path.rstrip("/"), u.query, u.fragment)))
    return out


def matches(u, c):
    return c.scheme == u.scheme and host(c) == host(u) and not climbs(u.path) and below(u.path, c.path)


def code_unsafe(urls, u, strict):
    return settings(urls).unsafe_url(text(u), strict)


def r_unsafe(urls, u, strict):
    return valid(urls + [u])


def spec_unsafe(urls, u, strict):
    """The first configured URL that covers the requested one lends its user info."""
    for x in urls:
        c = configured(x)
        if matches(u, c):
            query = merge_query(c.query, u.query)
            return text(Url(u.scheme, c.userinfo, c.hostport, tidy(u.path), query, u.fragment or c.fragment))
    if strict:
        raise Rejected()
    return text(u)
