"""The space of valid documents and objects, shared by the checks that transform them."""
from __future__ import annotations

import functools
import itertools

from . import gen, oracle
from .meta import KINDS, NULL, REF, RULES, T

ROOT = (T("obj", "AsyncAPI3"),)
SUBSET_MAX = {"quick": 7, "thorough": 12}
TEXT = {
    "quick": "documents: every one of the 3323 places of the grammar x its value alphabet (each alternative, empty, "
             "several, null where allowed) x lean/rich hosts x two siblings; objects: every kind x every subset of its "
             "members (up to 7 members; all subsets of size <= 2 and >= n-1 beyond) x every pair of member values",
    "thorough": "as quick with every subset for kinds of up to 12 members (size <= 3 and >= n-2 beyond) and every pair of "
                "places inside each root section",
}
EXTV = [{"x-a": 1}, {"x-b.c_d-e": {"$ref": "#/x", "n": None}}, {"x-1": []},
        {"x-r": {"$ref": "#/a"}, "x-s": {"$ref": "#/a/"}, "x-t": [{"$ref": "/a//"}], "x-u": {"$ref": ""}, "X": None, "x-v": {"$ref": " a "}},
        {f"x-m{i}": v for i, v in enumerate([0, "", None, {}, [], {"k": None}, [None], "#/a/", -0.5, True, {"$ref": "#/"}, 1e300])}]
EXTV[3].pop("X")


def jobs(tier):
    out = []
    n = len(gen.positions())
    for i in range(0, n, 100):
        out.append((f"places{i}", ("place", tuple(range(i, min(n, i + 100))))))
    for k in KINDS:
        out.append((f"kind-{k}", ("kind", k)))
    if tier == "thorough":
        for sec in [f.js for f in KINDS["AsyncAPI3"].fields]:
            ps = [i for i, p in enumerate(gen.positions()) if p.steps and p.steps[0].name == sec]
            half = [i for i in ps if pairable(gen.positions()[i])]
            for c in range(0, len(half), 40):
                out.append((f"pairs-{sec}{c}", ("pairs", tuple(half[c:c + 40]), tuple(half))))
    return out


def either_reading(p):
    """Below a Kafka key, a schema or a free-form map: a null member is dropped by one and kept by the other."""
    return any(s.kind == "KafkaMessageBindings" and s.name == "key" for s in p.steps[:-1])


def pairable(p):
    return not p.in_bindings and len(p.steps) <= 6


@functools.lru_cache(None)
def _alphabet(pos):
    v = gen.values(pos.alts, pos.modsd)
    if NULL in pos.alts:
        v = v + [None]
    return v


def alphabet(pos):
    return gen._copy(_alphabet(pos))


@functools.lru_cache(None)
def member_values(kname, js):
    f = KINDS[kname].by_js(js)
    v = gen.values(f.type, f.mods)
    sp = gen.field_special(kname, f)
    if not any(x == sp and type(x) is type(sp) for x in v):
        v = [sp] + v
    if NULL in f.type:
        v = v + [None]
    return v


def run(sp, tier, check, what, *args):
    """check(kind name, raw value, where, choices) -> outcome; called for legal values only."""
    if what == "place":
        (idxs,) = args

        def body(c):
            pos = gen.positions()[c.choose("place", idxs)]
            vals = alphabet(pos)
            if not vals:
                return "no value"
            v = c.choose("value", vals)
            if not pos.steps:
                return check("AsyncAPI3", v, (), c)
            decor = c.choose("siblings", ("none", "obj"))
            doc, path = gen.place(pos, v, decor=decor, where="both", rich=c.flag("rich"))
            if not oracle.ok_obj("AsyncAPI3", doc):
                return "breaks a rule of its host"
            if v is None and either_reading(pos):
                return "two readings"
            return check("AsyncAPI3", doc, path, c)

        sp.explore(body, "place")
    elif what == "kind":
        (kname,) = args
        fields = KINDS[kname].fields
        names = [f.js for f in fields]
        n = len(names)
        if n <= SUBSET_MAX[tier]:
            subsets = [s for r in range(n + 1) for s in itertools.combinations(names, r)]
        else:
            lo, hi = (2, n - 1) if tier == "quick" else (3, n - 2)
            subsets = [s for r in range(n + 1) if r <= lo or r >= hi for s in itertools.combinations(names, r)]
        base = gen.minimal_obj(kname)
        required = [f.js for f in fields if f.required]

        def subset(c):
            o = {}
            for js in c.choose("members", subsets):
                o[js] = gen._copy(gen.field_special(kname, KINDS[kname].by_js(js)))
            for js in required:
                o.setdefault(js, gen._copy(base.get(js)))
            if kname == "SecurityScheme":
                o["type"] = c.choose("type", [a.arg for a in KINDS[kname].by_js("type").type])
            if KINDS[kname].ext != "none":
                o.update(gen._copy(c.choose("extension", [{}] + EXTV[:1] if len(subsets) > 600 else [{}] + EXTV)))
            if not oracle.ok_obj(kname, o):
                return "not legal"
            return check(kname, o, (), c)

        sp.explore(subset, "members")

        def pair(c):
            a = c.choose("first", names)
            va = c.choose("value", member_values(kname, a))
            rest = names[names.index(a) + 1:]
            o = gen._copy(base)
            o[a] = gen._copy(va)
            if rest:
                b = c.choose("second", [None] + rest)
                if b is not None:
                    o[b] = gen._copy(c.choose("value", member_values(kname, b)))
            if not oracle.ok_obj(kname, o):
                w = gen.complete(kname, o, fixed=tuple(o)) if kname in RULES else None
                if w is None:
                    return "not legal"
                o = w
            return check(kname, o, (), c)

        if names:
            sp.explore(pair, "pairs")
    else:
        mine, others = args

        def pairs(c):
            i = c.choose("place", mine)
            js = [j for j in others if j > i]
            if not js:
                return "last"
            j = c.choose("other", js)
            p, q = gen.positions()[i], gen.positions()[j]
            if not alphabet(p) or not alphabet(q):
                return "no value"
            d1, path = gen.place(p, alphabet(p)[-1], keys=("k",) * p.nkeys)
            d2, _ = gen.place(q, alphabet(q)[0], keys=(c.choose("key", ("k", "j")),) * q.nkeys)
            doc = gen.merge(d1, d2)
            if not oracle.ok_obj("AsyncAPI3", doc):
                return "clash"
            return check("AsyncAPI3", doc, path, c)

        sp.explore(pairs, "place pairs")
