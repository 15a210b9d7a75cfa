"""Where several kinds may stand, the value's own kind is the one it is read as."""
from .. import gen, impl, oracle, space, walk
from ..engine import HarnessError, Violation
from ..meta import KINDS, MAPS, NULL, REF, T, pyclass

BOUNDS = {
    "quick": space.TEXT["quick"] + "; checked at every node of the parsed model; and every member whose type has several "
             "alternatives x every alternative x given as data, as a model object, by assignment, by either name, x every map "
             "entry set by item; every such member x a reference or an alternative with <= 2 members of any alternative or unknown ones beside it",
    "thorough": space.TEXT["thorough"] + "; union members as quick with every pair of successive values",
}
ASSUMPTIONS = ["a schema whose members also fit a multi-format schema is read as either",
               "free-form data and scalars: only the JSON shape is compared"]
PY = {"null": type(None), "bool": bool, "int": int, "list": list, "dict": dict}


def want_class(alts, v):
    """The model class (or builtin) a raw value is read as; None: no claim."""
    a = oracle.select(alts, v)
    if a is None or a.tag in ("any", "url", "httpurl", "email", "lit", "str"):
        return None, a
    if a.tag in PY:
        return PY[a.tag], a
    if a.tag == "obj" and a.arg == "MultiFormatSchema" and not oracle.ok_obj("MultiFormatSchema", v):
        a = T("obj", "Schema")
    return pyclass(a.arg), a


def compare(alts, raw, got, path, kafka=False):
    cls, a = want_class(alts, raw)
    if cls is None:
        if isinstance(got, (dict, list)) != isinstance(raw, (dict, list)) or hasattr(got, "model_fields_set"):
            return f"{path}: {raw!r} read as a {type(got).__name__}"
        return None
    if kafka and a.tag == "dict":
        return None
    if type(got) is not cls:
        return f"{path}: {raw!r} read as a {type(got).__name__}, not a {cls.__name__}"[:300]
    if a.tag == "list":
        for i, x in enumerate(raw):
            m = compare(a.arg, x, got[i], f"{path}/{i}")
            if m:
                return m
    elif a.tag in ("dict", "map"):
        sub = MAPS[a.arg] if a.tag == "map" else a.arg
        items = got.root if a.tag == "map" else got
        for k, x in raw.items():
            m = compare(sub, x, items[k], f"{path}/{k}")
            if m:
                return m
    elif a.tag == "obj":
        for f in KINDS[a.arg].fields:
            if f.js in raw:
                key = any(b.tag == "dict" for b in f.type) and any(b.tag == "obj" for b in f.type)
                m = compare(f.type, raw[f.js], getattr(got, f.py), f"{path}/{f.js}", key)
                if m:
                    return m
    return None


def check(kname, raw, path, c):
    m, err = impl.kind_parse(kname, raw)
    if err is not None:
        raise Violation(f"{kname}: legal value rejected: {err.errors()[0]['msg']}", raw=raw)
    why = compare((T("obj", kname),), raw, m, kname)
    if why:
        raise Violation(why, raw=raw)
    return "right kinds"


def models(alts):
    return [a.arg for a in alts if a.tag in ("obj", "map")]


def unions():
    out = []
    for k in KINDS.values():
        for f in k.fields:
            for wrap, alts in [("plain", f.type)] + [(a.tag, a.arg) for a in f.type if a.tag in ("list", "dict")]:
                if models(alts):
                    out.append((k.name, f.py, f.js, wrap, alts))
    for m, alts in MAPS.items():
        out.append((m, None, None, "map", alts))
    return out


UNIONS = unions()


def jobs(tier):
    return [(f"hybrids{i}", ("hybrid", list(range(i, min(i + 4, len(UNIONS)))))) for i in range(0, len(UNIONS), 4)] + space.jobs(tier) + [(f"unions{i}", ("union", list(range(i, min(i + 20, len(UNIONS)))))) for i in range(0, len(UNIONS), 20)]


OPEN = {"description": "d", "summary": "s", "title": "t", "type": "object", "x-a": 1, "zz": 1, "$id": "#i", "$schema": "u", "$ref": "#/b",
        "properties": {}, "name": "n", "url": "https://e.test/d", "payload": {}, "schema": {}}


def hybrids(sp, idxs):
    """Values between the alternatives: a reference with one or two members beside it, two alternatives in one."""
    def body(c):
        kname, py, js, wrap, alts = UNIONS[c.choose("member", idxs)]
        names = models(alts)
        near = dict(OPEN)
        for n in names:
            if n in KINDS:
                near.update({f.js: gen.minimal(f.type, f.mods) for f in KINDS[n].fields if f.js not in near})
        near = sorted(near.items())
        start = c.choose("start", ["#/a", "https://e.test/x.json"] + [n for n in names if n != "Reference"])
        raw = {"$ref": start} if start[0] in "#h" else minimal(start)
        for i in range(c.choose("beside", (0, 1, 2) if start == "#/a" else (0, 1))):
            n, v = c.choose(f"beside{i}", near)
            raw[n] = gen._copy(v)
        if "schema" in raw and "MultiFormatSchema" in names and {"discriminator", "externalDocs", "deprecated"} & set(raw):
            return "two readings"
        r = {"plain": raw, "list": [raw], "dict": {"a": raw}, "map": {"a": raw}}[wrap]
        if wrap == "map":
            obj, alts_ = r, (T("map", kname),)
        else:
            obj = gen.with_member(kname, js, gen.minimal(KINDS[kname].by_js(js).type))
            obj[js], alts_ = r, (T("obj", kname),)
        want = oracle.ok(alts_, obj)
        m, err = impl.kind_parse(kname, obj)
        if (err is None) != want:
            raise Violation(f"{kname}.{js or '*'} = {raw!r}: {'accepted' if err is None else 'rejected'}")
        if m is None:
            return "no kind"
        why = compare(alts_, obj, m, kname)
        if why:
            raise Violation(why, raw=raw)
        return "right kind"

    sp.explore(body, "hybrids")


def minimal(name):
    return gen.minimal_obj(name) if name in KINDS else {"k": gen.minimal(MAPS[name])}


def run(sp, tier, what, *args):
    if what == "hybrid":
        return hybrids(sp, *args)
    if what != "union":
        return space.run(sp, tier, check, what, *args)

    def body(c):
        kname, py, js, wrap, alts = UNIONS[c.choose("member", args[0])]
        cls = pyclass(kname)
        name = c.choose("alternative", models(alts))
        full = c.choose("value", ("small", "full"))
        raw = minimal(name)
        if full == "full" and name in KINDS:
            raw = gen.enrich(name, raw)
        acls = pyclass(name)
        if oracle.select(alts, raw) not in (T("obj", name), T("map", name)):
            return "two readings"
        given = c.choose("given as", ("data", "object", "unchecked object"))
        v = gen._copy(raw)
        if given != "data":
            v, err = impl.kind_parse(name, v)
            if err is not None:
                raise Violation(f"legal {name} rejected: {err}")
        way = c.choose("way", ("data", "python name", "assign", "json"))
        shown = f"{name} ({given}, {full}) at {kname}.{js or '*'} by {way}"
        w = {"plain": v, "list": [v], "dict": {"a": v}, "map": {"a": v}}[wrap]
        r = {"plain": raw, "list": [raw], "dict": {"a": raw}, "map": {"a": raw}}[wrap]
        if wrap == "map":
            if way == "assign":
                h = cls.model_validate({})
                if given == "data":
                    h["a"] = v
                else:
                    h["a"] = v
                    if h["a"] is not v:
                        raise Violation(f"{shown}: the object stored is not the one assigned")
            elif way == "json":
                import json
                h = cls.model_validate_json(json.dumps(r))
            elif way == "python name":
                h = cls(w)
            else:
                h = cls.model_validate(w)
            got = h.root["a"]
        else:
            base = gen.with_member(kname, js, gen._copy(r))
            if base is None:
                return "illegal here"
            if way == "assign":
                try:
                    h = cls.model_validate(gen.with_member(kname, js, gen.minimal(KINDS[kname].by_js(js).type)))
                    if not oracle.ok_obj(kname, base):
                        return "illegal here"
                    for f in KINDS[kname].fields:
                        if f.js in base and f.js != js and f.py != py and getattr(h, f.py) is None:
                            return "other members needed"
                    setattr(h, py, w)
                except impl.ValidationError as e:
                    raise Violation(f"{shown}: rejected: {e.errors()[0]['msg']}")
            elif way == "json":
                import json
                h = cls.model_validate_json(json.dumps(base))
            elif way == "python name":
                base.pop(js)
                h = cls.model_validate({**base, py: w})
            else:
                h = cls.model_validate({**base, js: w})
            got = getattr(h, py)
            got = got if wrap == "plain" else got[0] if wrap == "list" else got["a"]
        if type(got) is not acls:
            raise Violation(f"{shown} became a {type(got).__name__}")
        why = compare((T("map" if name in MAPS else "obj", name),), raw, got, shown)
        if why:
            raise Violation(why)
        if impl.dump(got) != impl.dump(acls.model_validate(raw)):
            raise Violation(f"{shown}: content changed: {got!r}"[:400])
        return "right kind"

    sp.explore(body, "unions")
