"""Finite alphabets and document builders derived from the metamodel."""
from __future__ import annotations

import functools
import itertools
from dataclasses import dataclass

from . import oracle
from .meta import KINDS, MAPS, NULL, REF, COMPONENT_KIND, T

ODD = "e\u0301\u212b\r\n\u00a0\ufeff\u2028\x00\x1b\U0001f600 &amp;<b>'\"\\n %20%s ${x} {{y}} #!yes~null"
URLS = ["https://e.test/d", "urn:x:y", "ftp://u:p@h.test:8080/p/?q=1&r=%20#F"]
HTTPURLS = ["https://e.test/d", "http://u:p@h.test:8080/p/?q=1&r=%20#F"]
ANY = (T("any"),)
DANGLE = "#/components/tags/none"


def minimal_alt(a, mods={}):
    t = a.tag
    if t == "str":
        if "prefix" in mods:
            return mods["prefix"] + "header#/id"
        if "asyncapiversion" in mods:
            return "3.0.0"
        return "s"
    if t == "int":
        return mods.get("min", 1)
    if t == "bool":
        return True
    if t == "any":
        return {"k": 1}
    if t in ("url", "httpurl"):
        return "https://e.test/d"
    if t == "email":
        return "a@b.co"
    if t == "lit":
        return a.arg
    if t == "null":
        return None
    if t == "list":
        return [minimal(a.arg)]
    if t == "dict":
        return {"k": minimal(a.arg)}
    if t == "map":
        return {"k": minimal(MAPS[a.arg])}
    return minimal_obj(a.arg)


def minimal(alts, mods={}):
    """A valid, non-null, non-reference value where one exists."""
    for a in alts:
        if a.tag != "null" and a != REF:
            return minimal_alt(a, mods)
    return minimal_alt(alts[0], mods)


def _copy(x):
    if isinstance(x, dict):
        return {k: _copy(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_copy(v) for v in x]
    return x


def minimal_obj(kname):
    return _copy(_minimal_obj(kname))


@functools.lru_cache(None)
def _minimal_obj(kname):
    if kname == "Reference":
        return {"$ref": "https://e.test/x.json"}
    k = KINDS[kname]
    base = {f.js: minimal(f.type, f.mods) for f in k.fields if f.required}
    if kname == "OAuthFlow":           # usable under every flow name
        base.update(authorizationUrl="https://e.test/a", tokenUrl="https://e.test/t")
    r = complete(kname, base)
    assert r is not None, kname
    return r


def complete(kname, base, fixed=()):
    """Smallest legal extension of base (members in `fixed` and base untouched where possible)."""
    if oracle.ok_obj(kname, base):
        return base
    k = KINDS[kname]
    choices = []
    for f in k.fields:
        if f.js in fixed:
            continue
        vals = [a.arg for a in f.type if a.tag == "lit"] or ["bearer", "s"] if f.js == "scheme" else \
            [a.arg for a in f.type if a.tag == "lit"] or [field_special(kname, f)]
        choices.append((f, vals))
    for n in (1, 2, 3):
        for combo in itertools.combinations(choices, n):
            for vs in itertools.product(*[c[1] for c in combo]):
                o = dict(base)
                for (f, _), v in zip(combo, vs):
                    o[f.js] = _copy(v)
                if oracle.ok_obj(kname, o):
                    return o
    return None


def field_special(kname, f):
    if kname == "Channel" and f.js == "address":
        return "a/{p}"
    if kname == "OAuthFlows":
        return {"authorizationUrl": "https://e.test/a", "tokenUrl": "https://e.test/t", "availableScopes": {}}
    return minimal(f.type, f.mods)


def with_member(kname, js, value):
    """A legal object of the kind in which member js has the given (legal) value."""
    o = minimal_obj(kname)
    o[js] = value
    if oracle.ok_obj(kname, o):
        return o
    base = {f.js: minimal(f.type, f.mods) for f in KINDS[kname].fields if f.required and f.js != js}
    base[js] = value
    return complete(kname, base, fixed=(js,))


# --------------------------------------------------------------- alphabets
def values(alts, mods={}, depth=0):
    """A small alphabet of valid canonical values covering every alternative."""
    out = []
    for a in alts:
        out += _values_alt(a, mods)
    return out


def _values_alt(a, mods):
    t = a.tag
    if t == "str":
        if "prefix" in mods:
            return [mods["prefix"] + "header#/id", mods["prefix"] + "payload#/é/0"]
        if "asyncapiversion" in mods:
            return ["3.0.0", "3.1.2", "3.0.0-rc.1"]
        m = mods.get("maxlen")
        return ["s", "", " ", " S\t"] + (["é" * m] if m else ["x y\n\u2603 {}/#~", "07", "long " * 2000, ODD, "null", "2020-01-01T00:00:00Z"])
    if t == "int":
        lo, hi = mods.get("min", -3), mods.get("max", 2 ** 53)
        return sorted({lo, max(lo, 0), min(hi, max(lo, 7)), hi})
    if t == "bool":
        return [True, False]
    if t == "any":
        return [{"z": [1, None, {"$ref": "#/x"}], "a": {"": {}}}, [], "s", 0, False, 1.5, "", " S\t", [[], None, {"b": 2, "a": 1.0}, 2 ** 70], "07", ODD,
                {"$ref": "#/a/", "b": None}, {"$ref": "https://e.test/x.json"}, -0.0, 1e300, 10 ** 30, "2020-01-01", [{"a": [{"b": [{"c": [{}]}]}]}] * 3]
    if t == "url":
        return list(URLS)
    if t == "httpurl":
        return list(HTTPURLS)
    if t == "email":
        return ["a@b.co", "A.b-c+d%e_1@x-1.y.info"]
    if t == "lit":
        return [a.arg]
    if t == "null":
        return []
    if t == "list":
        e = [minimal_alt(b) for b in a.arg if b.tag != "null"]
        if [b.tag for b in a.arg] == ["str"]:
            return [[], e, ["b", "a", "b", " ", ""], [str(i % 7) for i in range(40)]]
        return [[], e, e + e[::-1], e * 20]
    if t == "dict":
        e = [minimal_alt(b) for b in a.arg if b.tag != "null"]
        free = [{"f": 2.0, "n": None, "s": "", "l": [], "b": False, "d": {}, "i": -7}] if any(b.tag == "any" for b in a.arg) else []
        return free + [{}, {f"k{i}": x for i, x in enumerate(e)}, {"a.b/c d": e[0], "": e[-1], " A": e[0]},
                {k: e[0] for k in ("z", "b", "a")}]
    if t == "map":
        e = [minimal_alt(b) for b in MAPS[a.arg] if b.tag != "null"]
        return [{}, {f"k-{i}_A": x for i, x in enumerate(e)}, {"_": e[0], "0": e[-1], "-": e[0], "A": e[0], "a": e[-1]}]
    if a == REF:
        return [{"$ref": "https://e.test/x.json"}]
    if a.arg == "Schema":
        return [{"type": "object", "properties": {"a": {"$ref": "#/x"}}, "deprecated": True, "if": None}, {},
                {"const": None, "x-unknown": 2.0, "default": None, "enum": [None, 1.0, "1", 1, False], "$ref": "#/a", "description": ""}]
    if a.arg == "MultiFormatSchema":
        return [{"schemaFormat": "application/x;v=1", "schema": {"type": "record"}}]
    return [minimal_obj(a.arg)]


def shape(v):
    if v is None:
        return "null"
    return {bool: "bool", int: "int", float: "float", str: "str", list: "list", dict: "dict"}[type(v)]


JUNK = [None, True, 7, "junk", [], [7], {}, {"zz": 1}]


# ------------------------------------------------------------- positions
@dataclass(frozen=True)
class Step:
    how: str              # field | item | key
    kind: str             # field: the kind the member belongs to; key: "map" or "dict"
    name: object          # spec name of the member / None
    alts: tuple = ()      # item, key: what the container holds


@dataclass(frozen=True)
class Pos:
    """A place in a document: the steps to it, and what may stand there."""
    steps: tuple
    alts: tuple
    mods: tuple = ()

    def label(self):
        out = []
        for s in self.steps:
            out.append(s.name if s.how == "field" else ("[]" if s.how == "item" else "*"))
        return "/".join(out)

    @property
    def modsd(self):
        return dict(self.mods)

    @property
    def nkeys(self):
        return sum(s.how == "key" for s in self.steps)

    @property
    def has_list(self):
        return any(s.how == "item" for s in self.steps)

    @property
    def in_bindings(self):
        return any(s.how == "field" and s.name in BINDING_MEMBERS for s in self.steps)


BINDING_MEMBERS = {"bindings", "serverBindings", "channelBindings", "operationBindings", "messageBindings"}


def walk_positions(root="AsyncAPI3", stop=None):
    """Every place of the (finite, acyclic) document grammar, in a fixed order."""
    def go(alts, steps, mods):
        yield Pos(steps, alts, tuple(sorted(mods.items())))
        for a in alts:
            if a.tag == "list":
                yield from go(a.arg, steps + (Step("item", "", None, a.arg),), {})
            elif a.tag == "dict":
                yield from go(a.arg, steps + (Step("key", "dict", None, a.arg),), {})
            elif a.tag == "map":
                yield from go(MAPS[a.arg], steps + (Step("key", "map", None, MAPS[a.arg]),), {})
            elif a.tag == "obj" and a != REF:
                for f in KINDS[a.arg].fields:
                    yield from go(f.type, steps + (Step("field", a.arg, f.js),), f.mods)
    yield from go((T("obj", root),), (), {})


@functools.lru_cache(None)
def positions(root="AsyncAPI3"):
    return tuple(walk_positions(root))


EXTREF = {"$ref": "https://e.test/sib.json"}


def enrich(kname, obj, skip=()):
    """obj with every other member added that keeps it legal (each with a minimal value)."""
    o = dict(obj)
    for f in KINDS[kname].fields:
        if f.js in o or f.js in skip:
            continue
        v = field_special(kname, f)
        t = {**o, f.js: v}
        if oracle.ok_obj(kname, t):
            o[f.js] = _copy(v)
    return o


@functools.lru_cache(None)
def _shell(kname, js, rich):
    f = KINDS[kname].by_js(js)
    o = with_member(kname, js, minimal(f.type, f.mods))
    assert o is not None, (kname, js)
    if not rich:
        return o
    o = enrich(kname, o)
    if KINDS[kname].ext != "none":
        o["x-ext"] = {"$ref": "#/nowhere", "n": [None]}
    return o


def right_ref(alts):
    """The reference of the object t of a kind that may stand here (Channels etc. list only references)."""
    kinds = [a.arg for a in alts if a.tag == "obj" and a != REF]
    for c, ks in COMPONENT_KIND.items():
        if kinds and ks[-1] == kinds[-1]:
            return f"#/components/{c}/t"
    return "https://e.test/sib.json"


def siblings(alts, decor):
    """What stands beside the position in its container: an object, an external or a right internal reference."""
    if decor == "none":
        return []
    if decor == "right" and REF in alts:
        return [{"$ref": right_ref(alts)}]
    obj = minimal(alts)
    if decor == "ref" and REF in alts:
        return [dict(EXTREF)]
    return [obj]


def place(pos, value, keys=(), decor="none", where="before", rich=False):
    """A legal document around `value` at `pos` (value itself may be illegal).

    keys:  mapping keys to use for the `*` steps (default "k").
    decor: none | obj | ref | right - what else each list and mapping on the way holds,
    where: before | after | both - on which side of the item on the way.
    rich:  every object on the way also has all its other members.
    Returns (document, concrete path).
    """
    keys = tuple(keys)
    conc, ki = [], 0
    for s in pos.steps:
        if s.how == "field":
            conc.append(s.name)
        elif s.how == "item":
            conc.append(len(siblings(s.alts, decor)) if where in ("before", "both") else 0)
        else:
            conc.append(keys[ki] if ki < len(keys) else "k")
            ki += 1

    def fill(i):
        if i == len(pos.steps):
            return minimal(pos.alts, pos.modsd)
        s = pos.steps[i]
        sub = fill(i + 1)
        if s.how == "field":
            o = _copy(_shell(s.kind, s.name, rich))
            o[s.name] = sub
            return o
        sib = siblings(s.alts, decor)
        pre = sib if where in ("before", "both") else []
        post = sib if where in ("after", "both") else []
        if s.how == "item":
            return [_copy(x) for x in pre] + [sub] + [_copy(x) for x in post]
        d = {}
        for n, x in enumerate(pre):
            d[f"B{n}"] = _copy(x)
        d[conc[i]] = sub
        for n, x in enumerate(post):
            d[f"Z{n}"] = _copy(x)
        return d

    doc = fill(0)
    if not pos.steps:
        return value, ()
    cur = doc
    for c in conc[:-1]:
        cur = cur[c]
    cur[conc[-1]] = value
    return doc, tuple(conc)


def merge(a, b):
    """Deep union of two documents; b wins where both have a leaf (lists are not merged, nor references)."""
    out = dict(a)
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict) and "$ref" not in v and "$ref" not in out[k]:
            out[k] = merge(out[k], v)
        else:
            out[k] = v
    return out


def ref_positions(root="AsyncAPI3"):
    return [p for p in positions(root) if REF in p.alts]


def expected_kinds(pos):
    """Object kinds a reference at this position may denote (spec meaning)."""
    objs = tuple(a.arg for a in pos.alts if a.tag == "obj" and a != REF)
    if objs:
        return objs
    # positions that admit nothing but references
    last = [s.name for s in pos.steps if s.how == "field"][-1]
    return {"channel": ("Channel",), "messages": ("Message",), "servers": ("Server",)}[last]
