"""The rejection of a structurally wrong document says where it is wrong, for every fault."""
import json

from .. import gen, impl, oracle, space
from ..engine import Violation
from ..gen import REF
from ..meta import KINDS, RULES
from .c15 import lax, schema_like

BOUNDS = {
    "quick": "every one of the 3323 places of the grammar x 9 wrong values of every JSON type; every object place x each required member removed, an unknown member "
             "beside (4 names); every map place x 7 illegal names x 2 positions; every object place with cross-member rules x each single edit that breaks one; each x "
             "lean/rich hosts and between siblings x read as data and as text x entry names; every place x a wrong value also at 9 other places; 24 wrong values at once; a wrong value within something wrong (each object, map and list around it: a member or entry removed, or an unknown one first or last)",
    "thorough": "as quick, with rich hosts and text for faults within faults, the second fault at each of 40 places, and every pair of edits for cross-member rules",
}
ASSUMPTIONS = ["the place is the path of member and entry names and list indices from the root, in order, within the location of an error (which may also name the kinds tried)",
               "faults of what an object or map holds hide unknown members, illegal names and cross-member rules of that object or map itself, as those are judged on the whole"]
JUNK = [None, True, 7, -1.5, "junk", [], [7], {"zz": 1}, {"$ref": 5}]
UNKNOWN = ("zz", "x_a", "X-a", "Description")
BADNAMES = ("a b", "", "é", "a.b", " A", "a\n", "x" * 300 + "/")
KEYS = (("k",), ("Ab-1", "c_D", "0"), ("title", "info", "k"), ("n" * 150, "N" * 90))
MANY = 24


def inside(path, loc):
    """The path occurs in the location, in order."""
    it = iter(loc)
    return all(any(x == p and type(x) is type(p) for x in it) for p in path)


def stray(path, loc, doc):
    """An error of a place that has nothing to do with the fault (kinds tried besides are not judged)."""
    cur, at = doc, []
    for x in loc:
        if isinstance(cur, dict) and isinstance(x, str) and x in cur or isinstance(cur, list) and isinstance(x, int) and x < len(cur):
            cur = cur[x]
            at.append(x)
        else:
            return False
    return any(a != b for a, b in zip(at, path))


def second(tier):
    ps = [i for i, p in enumerate(gen.positions()) if p.steps and all(a.tag in ("str", "null", "url", "int", "bool") for a in p.alts)]
    k = 9 if tier == "quick" else 40
    return [ps[i * (len(ps) - 1) // (k - 1)] for i in range(k)]


def jobs(tier):
    n = len(gen.positions())
    return [(f"places{i}", (tuple(range(i, min(n, i + 60))),)) for i in range(0, n, 60)]


def run(sp, tier, idxs):
    def read(doc, how):
        try:
            if how == "data":
                impl.AsyncAPI3.model_validate(doc)
            else:
                impl.AsyncAPI3.model_validate_json(json.dumps(doc))
        except impl.ValidationError as e:
            return e.errors(include_url=False, include_context=False)
        return None

    def judge(c, doc, shown, *faults, alone=True):
        if oracle.ok_obj("AsyncAPI3", doc):
            return "two readings"
        how = c.choose("read from", ("data", "text")) if alone or tier == "thorough" else "data"
        es = read(doc, how)
        if es is None:
            raise Violation(f"{shown}: accepted", doc=doc)
        for path, name in faults:
            # what is said of it taken for a reference is beside the point
            here = [e for e in es if inside(path, e["loc"]) and ("$ref" in path or "Reference" not in e["loc"])]
            if not here:
                raise Violation(f"{shown}: no error at /{'/'.join(map(str, path))}, but {[(e['loc'], e['msg']) for e in es][:4]}"[:700], doc=doc)
            if name is not None and not any(inside(path + (name,), e["loc"]) or name in e["msg"] for e in here):
                raise Violation(f"{shown}: the errors at /{'/'.join(map(str, path))} do not name {name!r}: {[(e['loc'], e['msg']) for e in here][:4]}"[:700], doc=doc)
        if alone and len(faults) == 1:
            off = [e for e in es if stray(faults[0][0], e["loc"], doc)]
            if off:
                raise Violation(f"{shown}: an error elsewhere: {off[0]['loc']} {off[0]['msg']}"[:600], doc=doc)
        if any(not e["msg"].strip() for e in es):
            raise Violation(f"{shown}: an error without a message", doc=doc)
        return "located"

    for i in idxs:
        pos = gen.positions()[i]
        if space.either_reading(pos) or not pos.steps:
            continue
        objs = [a.arg for a in pos.alts if a.tag == "obj" and a != REF]
        mapped = any(a.tag == "map" for a in pos.alts)
        open_ = schema_like(pos.alts) or any(a.tag == "dict" for a in pos.alts)

        def body(c, pos=pos, objs=objs, mapped=mapped, open_=open_):
            how = c.choose("fault", ("value", "two", "amid") + (("many",) if pos.nkeys else ()) + (("required", "unknown") if objs and not open_ else ()) +
                           (("rule",) if objs and objs[0] in RULES and not open_ else ()) + (("name",) if mapped else ()))
            if how in ("value", "two", "many", "amid"):
                v = c.choose("value", JUNK if how == "value" else ([7], {"zz": [1]}))
                if oracle.ok(pos.alts, v, pos.modsd) or lax(pos.alts, v) or isinstance(v, dict) and open_:
                    return "fits"
                if how == "two":
                    return two(c, pos, v)
                if how == "amid":                        # what encloses it is wrong, too
                    doc, path = gen.place(pos, gen._copy(v), keys=("k",) * pos.nkeys, decor="obj", where="both", rich=tier == "thorough" and c.flag("rich"))
                    if oracle.ok_obj("AsyncAPI3", doc):
                        return "two readings"
                    n = c.choose("around", range(len(path)))
                    cur = doc
                    for s in path[:n]:
                        cur = cur[s]
                    if isinstance(cur, list):
                        if c.flag("after"):
                            cur.append(7)
                        else:
                            cur.insert(0, 7)
                            path = path[:n] + (path[n] + 1,) + path[n + 1:]
                    elif (e := c.choose("also", ["zz", "a b", *[x for x in cur if x != path[n]]])) in cur:
                        del cur[e]
                    elif c.flag("before"):
                        rest = dict(cur)
                        cur.clear()
                        cur[e] = 7
                        cur.update(rest)
                    else:
                        cur[e] = 7
                    return judge(c, doc, f"{v!r} at /{'/'.join(map(str, path))} amid a fault {n} deep", (path, None), alone=False)
                if how == "many":
                    doc, faults = {}, []
                    for n in range(MANY):
                        d, p = gen.place(pos, gen._copy(v), keys=(f"k{n}",) * pos.nkeys)
                        doc = gen.merge(doc, d)
                        faults.append((p, None))
                    return judge(c, doc, f"{v!r} at {MANY} places as /{'/'.join(map(str, p))}", *faults)
                doc, path = gen.place(pos, gen._copy(v), keys=c.choose("names", KEYS[:2] + KEYS[3:]), decor=c.choose("siblings", ("none", "obj")), where="both", rich=c.flag("rich"))
                return judge(c, doc, f"{v!r} at /{'/'.join(map(str, path))}", (path, None))
            kname = objs[-1] if not mapped and objs else None
            if how == "name":
                m = next(a for a in pos.alts if a.tag == "map")
                v = gen.minimal(oracle.MAPS[m.arg])
                bad = c.choose("name", BADNAMES)
                obj = {"first": gen._copy(v), bad: gen._copy(v)} if c.flag("after") else {bad: gen._copy(v), "then": gen._copy(v)}
                doc, path = gen.place(pos, obj, keys=c.choose("names", KEYS), decor=c.choose("siblings", ("none", "obj")), where="both")
                return judge(c, doc, f"the name {bad!r} in /{'/'.join(map(str, path))}", (path, bad))
            k = KINDS[kname]
            obj = gen.minimal_obj(kname)
            if c.flag("full"):
                obj = gen.enrich(kname, obj)
            name, path_more = None, ()
            if how == "required":
                req = [f.js for f in k.fields if f.required]
                if not req:
                    return "none required"
                name = c.choose("member", req)
                del obj[name]
            elif how == "unknown":
                name = c.choose("member", UNKNOWN)
                if k.by_js(name) or k.by_py(name) or k.ext == "any":
                    return "fits"
                obj[name] = c.choose("value", (1, None))
            else:
                for e in range(1 if tier == "quick" else 2):
                    f = c.choose(f"member{e}", list(k.fields))
                    v = c.choose(f"value{e}", ("(absent)", None) + tuple(gen.values(f.type, f.mods)[:4]))
                    obj.pop(f.js, None)
                    if v != "(absent)":
                        obj[f.js] = gen._copy(v)
                if any(f.required and f.js not in obj or f.js in obj and not oracle.ok(f.type, obj[f.js], f.mods) for f in k.fields) or oracle.ok_obj(kname, obj):
                    return "no rule broken"
            doc, path = gen.place(pos, obj, keys=c.choose("names", KEYS[:2]), decor=c.choose("siblings", ("none", "obj")), where="both", rich=c.flag("rich"))
            return judge(c, doc, f"{how} {name or ''} in the {kname} at /{'/'.join(map(str, path))}", (path, name))

        def two(c, pos, v):
            q = gen.positions()[c.choose("also at", second(tier))]
            d1, p1 = gen.place(pos, gen._copy(v), keys=("a",) * pos.nkeys)
            d2, p2 = gen.place(q, [7], keys=("b",) * q.nkeys)
            if oracle.ok_obj("AsyncAPI3", d1):
                return "two readings"
            doc = gen.merge(d1, d2)
            for p, w in ((p1, v), (p2, [7])):
                cur = doc
                for s in p:
                    cur = cur.get(s) if isinstance(cur, dict) else cur[s] if isinstance(cur, list) and isinstance(s, int) and s < len(cur) else None
                if cur != w:
                    return "overlap"
            if p1[:len(p2)] == p2 or p2[:len(p1)] == p1:
                return "overlap"
            return judge(c, doc, f"{v!r} at /{'/'.join(map(str, p1))} and [7] at /{'/'.join(map(str, p2))}", (p1, None), (p2, None))

        sp.explore(body, pos.label())
