"""The exported JSON Schema describes exactly the shape of what is read and written."""
import functools
import json
import re

from .. import gen, impl, oracle, space
from ..engine import Violation
from ..meta import KINDS, MAPS, NODEFAULT, NULL, REF, T, pyclass

BOUNDS = {
    "quick": "for the schema of reading and the schema of writing, of the document and of each of the other kinds and map types: the stated members, required members, "
             "closedness and defaults; accepts every legal value of the C10 space (every place of the grammar x its values, every member subset, every pair "
             "of member values) and what is written for it; refuses every required member removed, unknown members in closed objects, and 12 "
             "values of every JSON type at every member of every kind and every place of the document where no alternative fits; takes map entries under 24 legal names",
    "thorough": "as quick over the thorough C10 space",
}
ASSUMPTIONS = ["a JSON Schema judges shape (types, members, required, closed); formats, cross-member rules and entry names are left to the models",
               "the schema evaluator of the check follows JSON Schema 2020-12 for every keyword pydantic emits; unknown keywords are ignored, as the standard says"]
MODES = ("validation", "serialization")
NAMES = ("k", "0", "-", "_", "-k", "_k", "k-", "x-k", "K", "kK0_-", "null", "schema", "ref", "additionalProperties") + \
    tuple("k" * n for n in (2, 31, 32, 63, 64, 65, 128, 129, 256, 1000))
JUNK = [None, True, 7, -1.5, "junk", "", [], [7], [{}], {}, {"zz": 1}, {"$ref": 5}]


# ------------------------------------------------------------------ JSON Schema 2020-12 (what a schema can say without formats)
def is_type(t, v):
    if t == "null":
        return v is None
    if t == "boolean":
        return isinstance(v, bool)
    if t == "string":
        return isinstance(v, str)
    if t == "array":
        return isinstance(v, list)
    if t == "object":
        return isinstance(v, dict)
    if isinstance(v, bool):
        return False
    if t == "number":
        return isinstance(v, (int, float))
    return isinstance(v, int) or isinstance(v, float) and v == int(v)


def same(a, b):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


def valid(root, s, v):
    if s is True or s is False:
        return s
    if "$ref" in s:
        cur = root
        for part in s["$ref"][2:].split("/") if s["$ref"] != "#" else ():
            cur = cur[part.replace("~1", "/").replace("~0", "~")]
        if not valid(root, cur, v):
            return False
    if "type" in s:
        ts = s["type"] if isinstance(s["type"], list) else [s["type"]]
        if not any(is_type(t, v) for t in ts):
            return False
    if "const" in s and not same(s["const"], v):
        return False
    if "enum" in s and not any(same(x, v) for x in s["enum"]):
        return False
    if "anyOf" in s and not any(valid(root, x, v) for x in s["anyOf"]):
        return False
    if "oneOf" in s and sum(valid(root, x, v) for x in s["oneOf"]) != 1:
        return False
    if "allOf" in s and not all(valid(root, x, v) for x in s["allOf"]):
        return False
    if "not" in s and valid(root, s["not"], v):
        return False
    if "if" in s and not valid(root, s.get("then" if valid(root, s["if"], v) else "else", True), v):
        return False
    if isinstance(v, dict):
        props, pats = s.get("properties", {}), s.get("patternProperties", {})
        if any(r not in v for r in s.get("required", ())):
            return False
        for k, x in v.items():
            known = False
            if k in props:
                known = True
                if not valid(root, props[k], x):
                    return False
            for p, sub in pats.items():
                if re.search(p, k):
                    known = True
                    if not valid(root, sub, x):
                        return False
            if not known and not valid(root, s.get("additionalProperties", True), x):
                return False
            if not valid(root, s.get("propertyNames", True), k):
                return False
        if len(v) < s.get("minProperties", 0) or len(v) > s.get("maxProperties", len(v)):
            return False
    if isinstance(v, list):
        pre = s.get("prefixItems", [])
        for i, x in enumerate(v):
            if not valid(root, pre[i] if i < len(pre) else s.get("items", True), x):
                return False
        if len(v) < s.get("minItems", 0) or len(v) > s.get("maxItems", len(v)):
            return False
        if s.get("uniqueItems") and any(same(x, y) for i, x in enumerate(v) for y in v[:i]):
            return False
    if isinstance(v, str):
        if len(v) < s.get("minLength", 0) or len(v) > s.get("maxLength", len(v)):
            return False
        if "pattern" in s and not re.search(s["pattern"], v):
            return False
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        if v < s.get("minimum", v) or v > s.get("maximum", v):
            return False
        if "exclusiveMinimum" in s and v <= s["exclusiveMinimum"] or "exclusiveMaximum" in s and v >= s["exclusiveMaximum"]:
            return False
        if "multipleOf" in s and v % s["multipleOf"]:
            return False
    return True


@functools.lru_cache(None)
def exported(kname, mode):
    return pyclass(kname).model_json_schema(mode=mode)


def accepts(kname, mode, v):
    s = exported(kname, mode)
    return valid(s, s, v)


# ------------------------------------------------------------------ the shape the metamodel gives
def shape(alts, v):
    """Whether some alternative has the shape of the value."""
    return any(shape1(a, v) for a in alts)


def shape1(a, v):
    t = a.tag
    if t == "any":
        return True
    if t == "null":
        return v is None
    if t == "lit":
        return same(a.arg, v)
    if t == "bool":
        return isinstance(v, bool)
    if t in ("str", "url", "httpurl", "email"):
        return isinstance(v, str)
    if t == "int":
        return is_type("integer", v)
    if t == "list":
        return isinstance(v, list) and all(shape(a.arg, x) for x in v)
    if t in ("dict", "map"):
        sub = MAPS[a.arg] if t == "map" else a.arg
        return isinstance(v, dict) and all(shape(sub, x) for x in v.values())
    return shape_obj(a.arg, v)


def shape_obj(kname, v):
    k = KINDS[kname]
    if not isinstance(v, dict):
        return False
    for n, x in v.items():
        f = k.by_js(n)
        if f is None and k.ext == "none":
            return False
        if f is not None and not shape(f.type, x):
            return False
    return all(f.js in v for f in k.fields if f.required)


def check(kname, raw, path, c):
    if not accepts(kname, "validation", raw):
        raise Violation(f"{kname}: the exported schema refuses a legal value", raw=raw)
    m, err = impl.kind_parse(kname, raw)
    if err is not None:
        raise Violation(f"{kname}: legal value rejected: {err.errors()[0]['msg']}", raw=raw)
    out = json.loads(m.model_dump_json())
    for mode in MODES:
        if not accepts(kname, mode, out):
            raise Violation(f"{kname}: the exported schema ({mode}) refuses what was written", raw=raw, written=out)
    return "described"


def jobs(tier):
    n = len(gen.positions())
    maps = [m for m in MAPS if hasattr(pyclass(m), "model_json_schema")]
    return [(f"members-{k}", ("members", k)) for k in KINDS] + [(f"map-{m}", ("maps", m)) for m in maps] + \
        [(f"wrong{i}", ("wrong", tuple(range(i, min(n, i + 80))))) for i in range(0, n, 80)] + space.jobs(tier)


def stated(kname, mode):
    """The object schema of the kind itself."""
    s = exported(kname, mode)
    while "$ref" in s:
        s = exported(kname, mode)["$defs"][s["$ref"].rsplit("/", 1)[1]]
    return s


def members(sp, kname):
    k = KINDS[kname]
    base = gen.minimal_obj(kname)
    full = gen.enrich(kname, base)

    def refuse(c, obj, mode, what):
        if shape_obj(kname, obj):
            return "fits"
        if accepts(kname, mode, obj):
            raise Violation(f"{kname}: the exported schema ({mode}) takes {what}", raw=obj)
        return "refused"

    def body(c):
        mode = c.choose("mode", MODES)
        how = c.choose("how", ("stated", "remove", "unknown", "value"))
        if how == "stated":
            s = stated(kname, mode)
            got = (set(s.get("properties", {})), set(s.get("required", ())), s.get("additionalProperties", True) is False)
            want = ({f.js for f in k.fields}, {f.js for f in k.fields if f.required}, k.ext == "none")
            for g, w, what in zip(got, want, ("members", "required members", "closed")):
                if g != w:
                    raise Violation(f"{kname} ({mode}): the exported schema says {what}: {g}, the specification {w}")
            for f in k.fields:
                p = s["properties"][f.js]
                d = p.get("default")
                w = None if f.default is NODEFAULT else f.default
                if d != w and not (f.required and d is None):
                    raise Violation(f"{kname}.{f.js} ({mode}): the exported schema gives the default {d!r}, absent members are read as {w!r}")
            return "stated"
        obj = gen._copy(c.choose("base", (base, full)))
        if how == "remove":
            gone = [n for n in obj if k.by_js(n).required]
            if not gone:
                return "nothing required"
            n = c.choose("member", gone)
            del obj[n]
            return refuse(c, obj, mode, f"an object without {n}")
        if how == "unknown":
            n = c.choose("member", ("zz", "x-a", "", "ref", "extra_validators"))
            obj[n] = c.choose("value", (1, None, [], {}))
            return refuse(c, obj, mode, f"the unknown member {n!r}")
        if not k.fields:
            return "no member"
        f = c.choose("member", list(k.fields))
        obj[f.js] = gen._copy(c.choose("value", JUNK))
        return refuse(c, obj, mode, f"{f.js} = {obj[f.js]!r}")

    sp.explore(body, "members")


def maps(sp, name):
    vals = gen.values(MAPS[name], {})

    def body(c):
        mode = c.choose("mode", MODES)
        if c.flag("whole"):
            v = c.choose("value", [None, 7, "junk", [], [vals[0]], True])
            if accepts(name, mode, v):
                raise Violation(f"{name}: the exported schema ({mode}) takes {v!r}")
            return "refused"
        a = c.choose("entry", vals + JUNK)
        two = c.flag("beside")
        name_ = c.choose("name", NAMES) if a is vals[0] else "k"
        v = {"j": gen._copy(vals[0]), name_: gen._copy(a), "l": gen._copy(vals[0])} if two else {name_: gen._copy(a)}
        want = shape(MAPS[name], a)
        legal = oracle.ok(MAPS[name], a)
        got = accepts(name, mode, v)
        if legal and not got:
            raise Violation(f"{name}: the exported schema ({mode}) refuses the entry {name_[:80]!r}: {a!r}")
        if got and not want:
            raise Violation(f"{name}: the exported schema ({mode}) takes the entry {a!r}")
        return "taken" if got else "refused"

    sp.explore(body, "maps")


def wrong(sp, idxs):
    def body(c):
        pos = gen.positions()[c.choose("place", idxs)]
        v = c.choose("value", JUNK)
        doc, path = gen.place(pos, gen._copy(v), rich=c.flag("rich"))
        if isinstance(doc, dict) and shape_obj("AsyncAPI3", doc):
            return "fits"
        for mode in MODES:
            if accepts("AsyncAPI3", mode, doc):
                raise Violation(f"the exported schema ({mode}) takes {v!r} at /{'/'.join(map(str, path))}", doc=doc)
        return "refused"

    sp.explore(body, "wrong")


def run(sp, tier, what, *args):
    if what == "members":
        return members(sp, *args)
    if what == "maps":
        return maps(sp, *args)
    if what == "wrong":
        return wrong(sp, *args)
    space.run(sp, tier, check, what, *args)
