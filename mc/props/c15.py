"""Required members and member types are enforced at every depth; rejection is always a validation error."""
from .. import gen, impl, oracle, space
from ..engine import Violation
from ..meta import KINDS, NULL, REF, T

BOUNDS = {
    "quick": "every one of the 3323 places of the grammar x 11 values of every JSON type and right values in the wrong wrapping (lean/rich hosts, alone and between "
             "two right siblings); every object place x every single member removed, set to null, or all removed",
    "thorough": "as quick, and every object place x every single member x all 11 values x lean/rich, and every pair of members "
                "removed",
}
ASSUMPTIONS = ["conversions JSON-lax readers make (true for 1, numeric strings) are not judged"]
JUNK = [None, True, 7, -1.5, "junk", "", [], [7], [{}], {}, {"zz": 1}, {"$ref": 5}]


def jobs(tier):
    n = len(gen.positions())
    out = [(f"places{i}", ("junk", tuple(range(i, min(n, i + 80))))) for i in range(0, n, 80)]
    ps = [i for i, p in enumerate(gen.positions()) if any(a.tag == "obj" and a != REF for a in p.alts)]
    return out + [(f"members{i}", ("members", ps[i:i + 40])) for i in range(0, len(ps), 40)]


def misfits(pos):
    """Right values in the wrong wrapping: one for a list or map, a list or map of one, the wrong way round."""
    out = []
    for a in pos.alts:
        if a.tag == "list":
            out += [gen.minimal_alt(b) for b in a.arg] + [{"k": gen.minimal_alt(b)} for b in a.arg]
        elif a.tag in ("map", "dict"):
            sub = oracle.MAPS[a.arg] if a.tag == "map" else a.arg
            out += [gen.minimal_alt(b) for b in sub] + [[gen.minimal_alt(b)] for b in sub]
        elif a.tag not in ("null", "any"):
            out += [[gen.minimal_alt(a)], {"k": gen.minimal_alt(a)}]
    return out


def lax(pos_alts, v):
    """Conversions on which a JSON-lax reader may differ."""
    tags = {a.tag for a in pos_alts}
    if v is True and ("int" in tags or any(a.tag == "lit" and a.arg in (0, 1) for a in pos_alts)):
        return True
    return False


def run(sp, tier, what, idxs):
    def judge(doc, where):
        want = oracle.ok_obj("AsyncAPI3", doc) if isinstance(doc, dict) else False
        m, err = impl.kind_parse("AsyncAPI3", doc)      # anything but a ValidationError is a violation
        if (err is None) != want:
            why = "" if err is None else ": " + str(err.errors()[0]["loc"])[:200] + " " + err.errors()[0]["msg"]
            raise Violation(f"{where} {'accepted' if err is None else 'rejected' + why}", doc=doc)
        return "accepted" if want else "rejected"

    if what == "junk":
        def body(c):
            pos = gen.positions()[c.choose("place", idxs)]
            v = c.choose("value", JUNK + misfits(pos))
            if lax(pos.alts, v):
                return "lax"
            if space.either_reading(pos) or v in ({"zz": 1}, {"$ref": 5}) and schema_like(pos.alts):
                return "two readings"
            decor = c.choose("siblings", ("none", "obj"))
            doc, path = gen.place(pos, gen._copy(v), decor=decor, where="both", rich=c.flag("rich"))
            return judge(doc, f"{v!r} at /{'/'.join(map(str, path))}")

        sp.explore(body, "junk")
        return

    def members(c):
        pos = gen.positions()[c.choose("place", idxs)]
        if space.either_reading(pos):
            return "two readings"
        kname = c.choose("kind", [a.arg for a in pos.alts if a.tag == "obj" and a != REF])
        if any(a.tag == "dict" for a in pos.alts):
            return "two readings"
        fs = [f for f in KINDS[kname].fields]
        base = gen.enrich(kname, gen.minimal_obj(kname)) if c.flag("full") else gen.minimal_obj(kname)
        how = c.choose("how", ("remove", "null", "remove all") + (("value", "remove two") if tier == "thorough" else ()))
        obj = dict(base)
        if how == "remove all":
            obj = {}
        elif how == "remove two":
            a = c.choose("first", list(base) or [None])
            b = c.choose("second", list(base) or [None])
            obj.pop(a, None)
            obj.pop(b, None)
        elif fs:
            f = c.choose("member", [f.js for f in fs if how != "remove" or f.js in base] or [None])
            if f is None:
                return "no member"
            if how == "remove":
                del obj[f]
            elif how == "null":
                obj[f] = None
            else:
                v = c.choose("value", JUNK)
                fa = KINDS[kname].by_js(f).type
                if lax(fa, v) or v in ({"zz": 1}, {"$ref": 5}) and schema_like(fa):
                    return "lax"
                obj[f] = gen._copy(v)
        if kname in ("Schema", "MultiFormatSchema") and not oracle.ok(pos.alts, obj) and not oracle.ok_obj(kname, obj):
            pass
        doc, path = gen.place(pos, obj, rich=tier == "thorough" and bool(pos.steps) and c.flag("rich"))
        return judge(doc, f"{kname} at /{'/'.join(map(str, path))} with {how} {c.labels[-1][1]}")

    sp.explore(members, "members")


def schema_like(alts):
    return any(a.tag == "obj" and a.arg == "Schema" for a in alts) or any(a.tag == "any" for a in alts)
