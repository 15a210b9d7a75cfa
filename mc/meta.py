"""The frozen, independent description of the AsyncAPI 3 object model.

``metamodel.txt`` is data, not derived from /repo at run time: it says which
objects exist, which members they have under which spec name and which Python
name, the type of each member, which are required and what a missing member is
written as.  RULES below adds the cross-member rules.  Everything the checks
compare the implementation with comes from here.
"""
from __future__ import annotations

import functools
import importlib
import json
import os
import re
import warnings
from dataclasses import dataclass, field

HERE = os.path.dirname(os.path.abspath(__file__))


# ----------------------------------------------------------------- types
@dataclass(frozen=True)
class T:
    tag: str                 # str int bool any url httpurl email null lit list dict obj map
    arg: object = None       # lit: value, list/dict: tuple of alternatives, obj/map: name

    def __repr__(self):
        if self.tag in ("list", "dict"):
            b = "[]" if self.tag == "list" else "{}"
            return b[0] + "|".join(map(repr, self.arg)) + b[1]
        if self.tag == "lit":
            return json.dumps(self.arg)
        return self.arg if self.tag in ("obj", "map") else self.tag


NULL, REF = T("null"), T("obj", "Reference")
SCALARS = {"str", "int", "bool", "any", "url", "httpurl", "email", "null"}


def _split(s):
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "[{":
                depth += 1
            elif ch in "]}":
                depth -= 1
            elif ch == "|" and depth == 0:
                out.append(cur)
                cur = ""
                continue
        cur += ch
    out.append(cur)
    return out


def _ptype(s, maps):
    alts = []
    for a in _split(s):
        if a in SCALARS:
            alts.append(T(a))
        elif a[0] == "[":
            alts.append(T("list", _ptype(a[1:-1], maps)))
        elif a[0] == "{":
            alts.append(T("dict", _ptype(a[1:-1], maps)))
        elif a[0] == '"' or re.fullmatch(r"\d+", a):
            alts.append(T("lit", json.loads(a)))
        elif a in maps:
            alts.append(T("map", a))
        else:
            alts.append(T("obj", a))
    return tuple(alts)


NODEFAULT = object()


@dataclass
class Field:
    py: str
    js: str
    type: tuple
    required: bool = False
    default: object = NODEFAULT       # value written when absent (None: nothing is written)
    keepnull: bool = False            # written as null when absent
    mods: dict = field(default_factory=dict)

    @property
    def nullable(self):
        return NULL in self.type or T("any") in self.type

    @property
    def absent_dump(self):
        """(written?, value) for an absent optional member."""
        if self.keepnull:
            return True, None
        if self.default is not NODEFAULT:
            return True, self.default
        return False, None


@dataclass
class Kind:
    name: str
    ext: str                          # x | none | any
    module: str
    fields: list

    def by_js(self, js):
        return next((f for f in self.fields if f.js == js), None)

    def by_py(self, py):
        return next((f for f in self.fields if f.py == py), None)


def _load():
    lines = open(os.path.join(HERE, "metamodel.txt")).read().split("\n")
    maps, kinds, mods = {}, {}, {}
    for l in lines:
        m = re.match(r"map (\w+) = (\S+)\s+@ (\S+)", l)
        if m:
            maps[m[1]] = m[2]
            mods[m[1]] = m[3]
    cur = None
    for l in lines:
        if l.startswith("kind "):
            m = re.match(r"kind (\w+) ext=(\w+) @ (\S+)", l)
            cur = kinds[m[1]] = Kind(m[1], m[2], m[3], [])
        elif l.startswith("  "):
            p = l.split()
            f = Field(p[0], p[1], _ptype(p[2], maps))
            for tok in p[3:]:
                if tok == "required":
                    f.required = True
                elif tok == "keepnull":
                    f.keepnull = True
                elif tok.startswith("default="):
                    f.default = json.loads(tok[8:])
                elif "=" in tok:
                    k, v = tok.split("=", 1)
                    f.mods[k] = int(v) if re.fullmatch(r"\d+", v) else v
                else:
                    f.mods[tok] = True
            cur.fields.append(f)
    return kinds, {k: _ptype(v, maps) for k, v in maps.items()}, mods


KINDS, MAPS, MAPMODS = _load()
PROTOCOLS = [f.js for f in KINDS["ServerBindingsObject"].fields]
ROLES = ["server", "channel", "operation", "message"]


# ------------------------------------------------- cross-member rules
# Each rule takes the members given (spec names, nulls and absent ones dropped,
# documented defaults filled in) and says whether the object is legal.
def _sec(o):
    t = o.get("type")
    if t == "apiKey" and o.get("in") not in ("user", "password"):
        return False
    if t == "httpApiKey" and (o.get("name") is None or o.get("in") not in ("query", "header", "cookie")):
        return False
    if t == "http" and o.get("scheme") is None:
        return False
    if "bearerFormat" in o and not (t == "http" and o.get("scheme") == "bearer"):
        return False
    if t == "oauth2" and "flows" not in o:
        return False
    if t == "openIdConnect" and "openIdConnectUrl" not in o:
        return False
    if "scopes" in o and t not in ("oauth2", "openIdConnect"):
        return False
    return True


def _flows(o):
    need = {"implicit": ["authorizationUrl"], "password": ["tokenUrl"], "clientCredentials": ["tokenUrl"],
            "authorizationCode": ["authorizationUrl", "tokenUrl"]}
    return all(n in o[k] for k, ns in need.items() if k in o for n in ns)


def _params(o):
    if "parameters" not in o:
        return True
    a = o.get("address")
    if a is None:
        return False
    i = a.find("{")                       # some "{", then at least one character, then "}"
    while i >= 0:
        j = a.find("}", i + 1)
        if j > i + 1:
            return True
        i = a.find("{", i + 1)
    return False


def _amqp(o):
    if o["is"] == "routingKey":
        return "exchange" in o and "queue" not in o
    return "queue" in o and "exchange" not in o


def _soldest(o):
    if o["destinationType"] == "queue":
        return "queue" in o and "topic" not in o
    return "topic" in o and "queue" not in o


def _ibmch(o):
    if "queue" in o and "topic" in o:
        return False
    return not (o["destinationType"] == "queue" and "queue" not in o)


RULES = {
    "SecurityScheme": _sec,
    "OAuthFlows": _flows,
    "Channel": _params,
    "MessageExample": lambda o: "headers" in o or "payload" in o,
    "AMQPChannelBindings": _amqp,
    "SolaceDestination": _soldest,
    "IBMMQChannelBindings": _ibmch,
    "IBMMQMessageBindings": lambda o: not ("headers" in o and o["type"] in ("string", "jms")),
    "KafkaServerBindings": lambda o: "schemaRegistryVendor" not in o or "schemaRegistryUrl" in o,
}

# Components member -> (kind of the objects stored there)
COMPONENT_KIND = {}
for _f in KINDS["Components"].fields:
    _alts = MAPS[_f.type[0].arg]
    COMPONENT_KIND[_f.js] = tuple(a.arg for a in _alts if a != REF)


# ------------------------------------------------ binding to the code
@functools.lru_cache(None)
def pyclass(name):
    """The implementation class for a kind or map of the metamodel."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        target = "Tags" if name == "TagMap" else name
        modname = KINDS[name].module if name in KINDS else MAPMODS[name]
        for mod in ("asyncapi3.models." + modname, "asyncapi3.models", "asyncapi3.models.bindings",
                    "asyncapi3.models.components"):
            try:
                c = getattr(importlib.import_module(mod), target)
            except (ImportError, AttributeError):
                continue
            if isinstance(c, type):
                return c
    raise LookupError(f"class for {name} not found")
