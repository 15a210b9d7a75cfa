"""Reference parser/serialiser for JSON values, written from the metamodel only.

parse(type alternatives, value) -> canonical JSON (what a serialised document
must contain at that place), or raises Bad(path, why).
"""
from __future__ import annotations

import re

from .meta import KINDS, MAPS, NULL, REF, RULES, NODEFAULT, T


class Bad(Exception):
    def __init__(self, why, path=()):
        super().__init__(f"{'/'.join(map(str, path))}: {why}")
        self.why, self.path = why, path


DIGITS = "0123456789"
KEYCHARS = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-")


def good_key(k):
    return isinstance(k, str) and k != "" and all(c in KEYCHARS for c in k)


def good_ext(k):
    """x- followed by one or more word characters, digits, dots, hyphens, underscores."""
    return k.startswith("x-") and len(k) > 2 and all(c in "._-" or c.isalnum() for c in k[2:])


def good_version(v):
    core, dash, suffix = v.partition("-")
    parts = core.split(".")
    if len(parts) != 3 or not all(p and all(c in DIGITS for c in p) for p in parts):
        return False
    if dash and not (suffix and all(c in "._-" or (c.isascii() and c.isalnum()) for c in suffix)):
        return False
    return int(parts[0]) == 3


def good_email(s):
    if s.count("@") != 1 or ".." in s:
        return False
    local, _, dom = s.partition("@")
    letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    if not local or not all(c in letters + DIGITS + "._%+-" for c in local):
        return False
    host, _, tld = dom.rpartition(".")
    return (len(tld) >= 2 and all(c in letters for c in tld) and host != ""
            and all(c in letters + DIGITS + ".-" for c in host))


_URL = re.compile(r"[a-zA-Z][a-zA-Z0-9+.\-]*:[^\s]+")


def good_url(s, http):
    """Only used on the alphabets of the checks, which stay clear of URL-grammar corner cases."""
    if not isinstance(s, str) or not _URL.fullmatch(s):
        return False
    sch = s.split(":", 1)[0].lower()
    if http or sch in ("http", "https"):
        return sch in ("http", "https") and re.match(r"https?://[a-z0-9]", s, re.I) is not None
    return True


def is_ref(v):
    return isinstance(v, dict) and set(v) == {"$ref"} and isinstance(v["$ref"], str)


def select(alts, v):
    """Which alternative a value of this JSON shape is read as (None: no alternative fits)."""
    tags = {a.tag for a in alts}
    objs = [a for a in alts if a.tag == "obj"]
    if v is None:
        return NULL if NULL in alts else (T("any") if T("any") in alts else None)
    lits = [a for a in alts if a.tag == "lit" and type(a.arg) is type(v) and a.arg == v]
    if lits:
        return lits[0]
    if isinstance(v, bool):
        want = ["bool"]
    elif isinstance(v, str):
        want = ["str", "url", "httpurl", "email"]
    elif isinstance(v, int):
        want = ["int"]
    elif isinstance(v, list):
        lists = [a for a in alts if a.tag == "list"]
        if lists:
            return lists[0]
        want = []
    elif isinstance(v, dict):
        if REF in alts and is_ref(v):
            return REF
        names = [a.arg for a in objs]
        if "MultiFormatSchema" in names:
            return T("obj", "MultiFormatSchema" if "schema" in v else "Schema")
        for a in alts:
            if a.tag in ("map", "dict"):
                return a
        rest = [a for a in objs if a != REF]
        if rest:
            return rest[0]
        if objs:
            return objs[0]
        want = []
    else:
        want = []
    for w in want:
        if w in tags:
            return T(w)
    return T("any") if "any" in tags else None


def parse(alts, v, path=(), mods={}):
    a = select(alts, v)
    if a is None:
        raise Bad("type", path)
    t = a.tag
    if t in ("null", "any", "bool", "lit"):
        return v
    if t == "str":
        if "maxlen" in mods and len(v) > mods["maxlen"]:
            raise Bad("too long", path)
        if "prefix" in mods and not v.startswith(mods["prefix"]):
            raise Bad("prefix", path)
        if "asyncapiversion" in mods and not good_version(v):
            raise Bad("version", path)
        return v
    if t == "int":
        if "min" in mods and v < mods["min"] or "max" in mods and v > mods["max"]:
            raise Bad("range", path)
        return v
    if t in ("url", "httpurl"):
        if not good_url(v, t == "httpurl"):
            raise Bad("url", path)
        return v
    if t == "email":
        if not good_email(v):
            raise Bad("email", path)
        return v
    if t == "list":
        return [parse(a.arg, x, path + (i,)) for i, x in enumerate(v)]
    if t == "dict":
        return {k: parse(a.arg, x, path + (k,)) for k, x in v.items()}
    if t == "map":
        if not isinstance(v, dict):
            raise Bad("type", path)
        out = {}
        for k, x in v.items():
            if not good_key(k):
                raise Bad("key", path + (k,))
            out[k] = parse(MAPS[a.arg], x, path + (k,))
        return out
    if a.arg == "MultiFormatSchema" and T("obj", "Schema") in alts:
        try:
            return parse_obj(a.arg, v, path)
        except Bad:
            return parse_obj("Schema", v, path)       # a schema may carry any member, also these
    return parse_obj(a.arg, v, path)


def parse_obj(kname, v, path=()):
    k = KINDS[kname]
    if not isinstance(v, dict):
        raise Bad("type", path)
    out, seen, filled = {}, set(), []
    for name, x in v.items():
        f = k.by_js(name) or k.by_py(name)
        if f is None:
            if k.ext == "none" or (k.ext == "x" and not good_ext(name)):
                raise Bad("unknown member", path + (name,))
            out[name] = x
            continue
        seen.add(f.js)
        c = parse(f.type, x, path + (name,), f.mods)
        if c is None and not f.keepnull and not f.required:
            continue
        out[f.js] = c
    for f in k.fields:
        if f.js in seen:
            continue
        if f.required:
            raise Bad("required", path + (f.js,))
        w, d = f.absent_dump
        if w:
            out[f.js] = d
            filled.append(f.js)
    rule = RULES.get(kname)
    if rule and WRITTEN == "spec" and not rule({a: b for a, b in out.items() if b is not None}):
        raise Bad("rule", path)
    if WRITTEN == "given":                               # without what was filled in
        out = {a: b for a, b in out.items() if a not in filled}
    elif WRITTEN == "python":                            # under the Python names
        out = {(k.by_js(a).py if k.by_js(a) else a): b for a, b in out.items()}
    return out


WRITTEN = "spec"


def written(kname, v, how):
    """What is written of a legal value, in another way than the usual."""
    global WRITTEN
    WRITTEN = how
    try:
        return parse_obj(kname, v)
    finally:
        WRITTEN = "spec"


def ok(alts, v, mods={}):
    try:
        parse(alts, v, mods=mods)
        return True
    except Bad:
        return False


def ok_obj(kname, v):
    try:
        parse_obj(kname, v)
        return True
    except Bad:
        return False


# ------------------------------------------------------- JSON pointers
MISSING = object()


def pointer(doc, ref):
    """The value an internal reference (#/a/b/c) denotes in the raw document."""
    cur = doc
    for part in ref[2:].split("/"):
        if isinstance(cur, dict) and part in cur:
            cur = cur[part]
        else:
            return MISSING
    return cur
