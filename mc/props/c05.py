"""External references: accepted and reported, hiding nothing; other forms are rejected."""
import functools

from .. import gen, impl
from ..engine import Violation
from ..refworld import COLL_OF, CONTEXTS, chunks, comp_target, crowded, decoy, peers, refpos, right_positions, SPREAD, spread

BOUNDS = {
    "quick": "all 354 reference positions x 24 external addresses x 6 contexts; x external through an alias; x a dangling "
             "or wrong reference at 8 other positions in document order; a dangling or wrong reference at each x an external one at the "
             "first and last position of every kind; x a crowd of 110 others elsewhere or beside; x 4 sets of top members; among 4 or 8 like hosts holding right references, at each level; x no other component; x 35 other reference forms",
    "thorough": "as quick with the defect at each of 48 other positions, lean and rich",
}
ASSUMPTIONS = ["warnings are observed through Python's logging, WARNING level or above"]
EXT = ["http://e.test/x.json", "https://e.test/x.json", "https://e.test/x.json#/components/tags/t", "https://e.test/a b",
       "http://", "https://", "https://e.test/#", "http://#/components/tags/t", "https://e.test/%41?q=1#/a/~1b",
       "https://e.test/" + "a" * 300, "http://e.test/é", "https://user@e.test:8080/x", "https://e.test/a%20b%s%(x)s{}{0}",
       "https://e.test/x?a=1&b=2", "https://e.test/x?a=1", "https://e.test/x?a=1#b", "https://e.test/x;v=1", "https://e.test/x/", "https://e.test/x#",
       "http://e.test/a//b.json", "https://e.test/x?u=http://y.test/", "https://e.test/#/a#/b", "http://127.0.0.1:80/x", "https://[::1]/x"]
BADFORM = ["ftp://e.test/x", "file:///x", "./x.json", "x.json", "/components/tags/t", "components/tags/t", "", " ",
           "//e.test/x", "httpx://e.test", "http:/e.test", "https:e.test", " https://e.test/x", "x#/components/tags/t",
           "mailto:a@b.co", "urn:x:y", "https", "http", "data:,x", "ws://e.test", "../x.json#/a", "?x", "\\#/a",
           "htt ps://e.test", "HTTP://e.test/x", "Https://e.test/x", "https\\://e.test", "x http://e.test/", "<https://e.test/x>",
           "x.json?http://e.test/x", "x.json#https://e.test/x", "/https://e.test/x", "a:http://e.test/x", "http;//e.test/x", "https//e.test/x"]


def jobs(tier):
    return [(f"positions{i}", (ch,)) for i, ch in enumerate(chunks(list(range(len(refpos()))), 8))]


def others(tier):
    n = len(refpos())
    k = 8 if tier == "quick" else 48
    return sorted({i * (n - 1) // (k - 1) for i in range(k)})


@functools.lru_cache(None)
def canonical():
    """The first and the last position, in document order, of every expected kind."""
    first, last = {}, {}
    for i, p in enumerate(refpos()):
        e = gen.expected_kinds(p)
        first.setdefault(e, i)
        last[e] = i
    return sorted(set(first.values()) | set(last.values()))


def run(sp, tier, idxs):
    oth = others(tier)
    for i in idxs:
        pos = refpos()[i]

        def body(c, pos=pos, i=i):
            axis = c.choose("axis", ("external", "alias", "masking", "masked", "form", "bare", "among", "many", *SPREAD))
            kind = gen.expected_kinds(pos)[0]
            own = COLL_OF[kind]
            base = decoy()
            impl.CAP.msgs.clear()
            if axis == "form":
                ref = c.choose("form", BADFORM)
                doc, path = gen.place(pos, {"$ref": ref})
                if impl.parse(gen.merge(base, doc), impl.Unified)[1] is None:
                    raise Violation(f"{ref!r} at {'/'.join(map(str, path))} accepted", doc=doc)
                return "rejected"
            if axis in ("masking", "masked"):
                q = refpos()[c.choose("defect at", [o for o in (oth if axis == "masking" else canonical()) if o != i])]
                pos_ = pos
                if axis == "masked":                     # the defect here, the external reference elsewhere
                    pos_, q = q, pos
                qk = gen.expected_kinds(q)[0]
                bad = c.choose("defect", ("dangling", "wrong"))
                tgt = f"#/components/{COLL_OF[qk]}/nope" if bad == "dangling" else \
                    comp_target("Tag" if qk != "Tag" else "Server")
                d1, p1 = gen.place(q, {"$ref": tgt}, keys=("d",) * q.nkeys)
                d2, p2 = gen.place(pos_, {"$ref": EXT[1]}, keys=(("k",) if axis == "masking" else c.choose("key", (("k",), ("a",)))) * pos_.nkeys)
                doc = gen.merge(base, gen.merge(d1, d2))
                cur = doc
                for s in p1:
                    cur = cur.get(s) if isinstance(cur, dict) else cur[s] if s < len(cur) else {}
                    if not isinstance(cur, (dict, list)):
                        return "overlap"
                if cur != {"$ref": tgt}:
                    return "overlap"                  # one list overwrote the other
                if impl.parse(doc, impl.Unified)[1] is None:
                    raise Violation(f"{bad} {tgt!r} at {'/'.join(map(str, p1))} accepted beside an external reference at "
                                    f"{'/'.join(map(str, p2))}", doc=doc)
                return "rejected"
            if axis == "many":                           # many different external ones, all reported
                adr = [f"https://e.test/{j}.json" for j in range(130)]
                if pos.steps[-1].how != "field":
                    whole = [{"$ref": a} for a in adr]
                    whole = whole if pos.steps[-1].how == "item" else {f"k{j}": v for j, v in enumerate(whole)}
                    doc, path = gen.place(gen.Pos(pos.steps[:-1], gen.ANY), whole)
                    doc = gen.merge(base, doc)
                else:
                    doc, path = gen.place(pos, {"$ref": adr[0]})
                    doc = gen.merge(base, doc)
                    adr = adr[:80]
                    more = c.choose("others in", [x for x in COLL_OF if x != kind and right_positions(x)][:3])
                    doc["components"][COLL_OF[more]].update({f"a{j}": {"$ref": a} for j, a in enumerate(adr) if j})
                spec, err = impl.parse(doc, impl.Unified)
                if err is not None:
                    raise Violation(f"{len(adr)} external references at {'/'.join(map(str, path))} rejected: {err.errors()[0]['msg']}", doc=doc)
                silent = [a for a in adr if not impl.warned(a)]
                if silent:
                    raise Violation(f"{len(adr)} external references around {'/'.join(map(str, path))}: none about {silent[:3]}", doc=doc)
                return "accepted with warnings"
            if axis == "among":                          # a bad one among many external ones
                how = c.choose("how", ("beside", "peers"))
                if pos.steps[-1].how == "field" and how == "beside":
                    return "no siblings"
                doc, path = (crowded if how == "beside" else peers)(c, pos, f"#/components/{own}/nope", EXT[1])
                if doc is None:
                    return "no level"
                if impl.parse(doc, impl.Unified)[1] is None:
                    raise Violation(f"dangling at {'/'.join(map(str, path))} accepted among external references", doc=doc)
                return "rejected"
            if axis in ("bare", *SPREAD):
                ref = c.choose("address", (EXT[1], f"https://e.test/x.json#/components/{own}/t", f"https://e.test/x.json#/components/{own}/nope"))
                if axis == "bare":
                    doc, path = gen.place(pos, {"$ref": ref})
                else:
                    doc, path = spread(c, axis, pos, ref, *((f"#/components/{own}/t", "https://e.test/other")[g] for g in
                                                            ([c.choose("good", (0, 1))] if axis in ("crowd", "peers") else [0])))
                    if doc is None:
                        return "no level"
                spec, err = impl.parse(doc, impl.Unified)
                if err is not None:
                    raise Violation(f"external {ref!r} at {'/'.join(map(str, path))} rejected ({axis}): {err.errors()[0]['msg']}", doc=doc)
                if not impl.warned(ref):
                    raise Violation(f"external {ref!r} at {'/'.join(map(str, path))} accepted without a warning ({axis})", doc=doc)
                return "accepted with a warning"
            ref = c.choose("address", EXT if axis == "external" else EXT[:2])
            if axis == "alias":
                base["components"][own]["far"] = {"$ref": ref}
                tgt, ctx = f"#/components/{own}/far", CONTEXTS[0]
            else:
                tgt, ctx = ref, c.choose("context", CONTEXTS)
            decor, where, rich = ctx
            doc, path = gen.place(pos, {"$ref": tgt}, decor=decor, where=where, rich=rich)
            spec, err = impl.parse(gen.merge(base, doc), impl.Unified)
            if err is not None:
                raise Violation(f"external {ref!r} at {'/'.join(map(str, path))} rejected: {err.errors()[0]['msg']}", doc=doc)
            if not impl.warned(ref):
                raise Violation(f"external {ref!r} at {'/'.join(map(str, path))} accepted without a warning", doc=doc)
            return "accepted with a warning"

        sp.explore(body, pos.label())
