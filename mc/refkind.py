"""Shared exploration for the single-kind reference checks (tags, external documentation)."""
from . import gen, impl, oracle
from .engine import Violation
from .meta import REF
from .refworld import ALIKE, CONTEXTS, NAME, NEAR, chunks, STAGES, decoy, names, peers, quick_names, refpos, SHORT, SPREAD, spread, stage, target_doc, targets_by_kind, targets


def positions(kind):
    return [p for p in refpos() if gen.expected_kinds(p) == (kind,) and not p.in_bindings]


def forms(coll):
    c = f"#/components/{coll}/"
    return [c + "t", c + "alias", c + "nope", c + "T", c + "t2", c + "t/x", c + "t/name", c, c + "/t", "#/components/" + coll,
            f"#/{coll}/t", "#/t", "#", "#/", "#t", f"#/components/servers/t", f"#/components/{coll}x/t", "#/info",
            f"{'#'}{c}t", c + c + "t", c + f"components/{coll}/t", f"#/Components/{coll}/t", c + "root", c + "root/t",
            c + "__class__", c + "t\n", c + " t", c + "t ", c + "t/", c + "t//", c + "./t", c + "../t", c + f"../{coll}/t", f"#//components/{coll}/t", f"#/components//{coll}/t", c + "?t",
            c + "t.", c + "t,", c + ".t", c + coll + "/t", c + "components/t", c + "externalDocs/t", c + "tags/t", c + "t;", c + "t?", c + "t-", c + "-t", f"#/./components/{coll}/t", f"#/components/schemas/t", f"#/components/tags/only",
            f"#/components/externalDocs/only", "#/info/tags/0", "#/info/externalDocs", c + "tt", "##", c + "t#",
            "https://e.test/x.json", "http://e.test/x", "x.json", "./x.yaml#/components/tags/nope", "", "ftp://x/y",
            "components/tags/t", "/components/tags/t"]


def accepted(ref, coll, keys):
    """The rule: an internal reference names an entry of the collection; anything else is external."""
    if not ref.startswith("#"):
        return True
    pre = f"#/components/{coll}/"
    return ref.startswith(pre) and ref[len(pre):] in keys


def jobs(kind, tier):
    n = len(positions(kind))
    m = len(refpos())
    step = 2 if n < 40 else 6
    return ([(f"positions{i}", ("pos", ch)) for i, ch in enumerate(chunks(list(range(n)), step))]
            + [(f"others{i}", ("others", ch)) for i, ch in enumerate(chunks(list(range(m)), 90))])


def run(sp, tier, vname, kind, coll, what, idxs):
    val = impl.validator(vname)

    def judge(doc, want, msg, warn=None):
        impl.CAP.msgs.clear()
        spec, err = impl.parse(doc, val)
        if (err is None) != want:
            impl.must_parse(doc)
            raise Violation(f"{msg}: {'accepted' if err is None else 'rejected: ' + err.errors()[0]['msg']}", doc=doc)
        if want and warn and not impl.warned(warn):
            raise Violation(f"{msg}: accepted without a warning", doc=doc)
        return "accepted" if want else "rejected"

    if what == "others":
        mine = {p.label() for p in positions(kind)}

        def body(c):
            pos = refpos()[c.choose("place", idxs)]
            if pos.label() in mine or gen.expected_kinds(pos) == (kind,):
                return "own kind"
            tgt = c.choose("target", ("#/nope", "#/components/servers/nope", f"#/components/{coll}/nope", "#/components/tags/t"))
            base = decoy()
            doc, path = gen.place(pos, {"$ref": tgt}, rich=c.flag("rich"))
            return judge(gen.merge(base, doc), True, f"{tgt!r} at {'/'.join(map(str, path))}, not a {kind} place")

        sp.explore(body, "others")
        return
    ps = positions(kind)
    for i in idxs:
        pos = ps[i]

        def body(c, pos=pos, i=i):
            base = decoy()
            col = base["components"][coll]
            axis = c.choose("axis", ("form", "name", "pair", "stage", "entry", "beside", *SPREAD) +
                            (("keys",) if pos.nkeys else ()))
            if axis == "stage":
                have = c.choose("collection", ("defined", "other entries", "absent"))
                base = stage(c.choose("stage", STAGES), *([coll] if have != "absent" else []))
                tgt = f"#/components/{coll}/" + ("t" if have == "defined" else "nope")
                decor, where, rich = c.choose("context", CONTEXTS)
                doc, path = gen.place(pos, {"$ref": tgt}, decor=decor, where=where, rich=rich)
                doc = gen.merge(base, doc)
                if decor == "right":                     # rich hosts and siblings may bring references of their own
                    return "covered elsewhere"
                return judge(doc, have == "defined", f"{tgt} at {'/'.join(map(str, path))} in a document with little else")
            if axis in SPREAD and axis != "peers":
                ok = c.flag("defined")
                tgt = f"#/components/{coll}/" + ("t" if ok else "nope")
                doc, path = spread(c, axis, pos, tgt, c.choose("others", (f"#/components/{coll}/t", "https://e.test/x")) if axis == "crowd" else "")
                if doc is None:
                    return "no such host"
                return judge(doc, ok, f"{tgt} at {'/'.join(map(str, path))} ({axis})")
            if axis == "peers":
                ok = c.flag("defined")
                tgt = f"#/components/{coll}/" + ("t" if ok else "nope")
                doc, path = peers(c, pos, tgt, c.choose("others", (f"#/components/{coll}/t", "https://e.test/x")))
                if doc is None:
                    return "no level"
                return judge(doc, ok, f"{tgt} at {'/'.join(map(str, path))} among like hosts")
            if axis == "entry":
                # what the named entry is: an object or another reference, itself right or not
                e = c.choose("entry", ("https://e.test/x", "http://e.test/y#/components/tags/z", "x.json", f"#/components/{coll}/t",
                                       f"#/components/{coll}/nope", f"#/components/{coll}/e", "#/info", "#/components/servers/t"))
                col["e"] = {"$ref": e}
                have = c.choose("asked", ("e", "t", "nope"))
                doc, path = gen.place(pos, {"$ref": f"#/components/{coll}/{have}"})
                doc = gen.merge(base, doc)
                if path[:3] == ("components", coll, "e"):
                    return "the entry itself"
                return judge(doc, have != "nope" and accepted(e, coll, doc["components"][coll]),
                             f"{have!r} at {'/'.join(map(str, path))}, the entry e being a reference to {e!r}")
            if axis == "beside":
                # siblings that carry the name the reference gives
                n, ok = c.choose("name", ("n", "t", "A-1")), c.flag("defined")
                base["components"][coll] = {n: gen._copy(col["t"])} if ok else {"zz": gen._copy(col["t"])}
                sib = gen.minimal_obj(kind)
                if kind == "Tag":
                    sib["name"] = n
                r = {"$ref": f"#/components/{coll}/{n}"}
                s = pos.steps[-1]
                if s.how == "field":
                    return "no siblings"
                order = c.choose("order", ("so", "os", "sos", "oo", "soo", "oos"))
                objs = [gen._copy(sib) if x == "s" else dict(r) for x in order]
                whole = objs if s.how == "item" else {f"k{i}": v for i, v in enumerate(objs)}
                doc, path = gen.place(gen.Pos(pos.steps[:-1], gen.ANY), whole)
                doc = gen.merge(base, doc)
                return judge(doc, n in doc["components"][coll], f"{n!r} at {'/'.join(map(str, path))} beside objects of that name")
            if axis == "form":
                ref = c.choose("form", forms(coll))
                state = c.choose("collection", ("full", "empty", "absent", "no components"))
                decor, where, rich = c.choose("context", CONTEXTS if state == "full" else CONTEXTS[:1])
                other = "externalDocs" if coll == "tags" else "tags"
                base["components"][other]["only"] = gen.minimal_obj("ExternalDocumentation" if coll == "tags" else "Tag")
                if state == "full":
                    col["alias"] = {"$ref": f"#/components/{coll}/t"}
                elif state == "empty":
                    base["components"][coll] = {}
                elif state == "absent":
                    del base["components"][coll]
                else:
                    del base["components"]
                doc, path = gen.place(pos, {"$ref": ref}, decor=decor, where=where, rich=rich)
                doc = gen.merge(base, doc)
                keys = doc.get("components", {}).get(coll, {})
                return judge(doc, accepted(ref, coll, keys), f"{ref!r} at {'/'.join(map(str, path))}",
                             None if ref.startswith("#") else ref)
            if axis == "name":
                if c.flag("near"):
                    x, n = c.choose("names", NEAR + [(NAME, y) for y in ALIKE])
                    base["components"][coll] = {x: col["t"]}
                    doc, path = gen.place(pos, {"$ref": f"#/components/{coll}/{n}"})
                    return judge(gen.merge(base, doc), False, f"reference to {n!r} at {'/'.join(map(str, path))} beside {x!r}")
                n = c.choose("name", quick_names() if tier == "quick" else names())
                have = c.flag("defined")
                if have:
                    base["components"][coll] = {n: col["t"]}
                doc, path = gen.place(pos, {"$ref": f"#/components/{coll}/{n}"})
                doc = gen.merge(base, doc)
                return judge(doc, n in doc["components"][coll], f"reference to {n!r} at {'/'.join(map(str, path))}")
            if axis == "keys":
                n = c.choose("key", SHORT)
                ok = c.flag("defined")
                doc, path = gen.place(pos, {"$ref": f"#/components/{coll}/" + ("t" if ok else "nope")}, keys=(n,) * pos.nkeys)
                return judge(gen.merge(base, doc), ok, f"{'right' if ok else 'dangling'} at {'/'.join(map(str, path))}")
            # a second reference elsewhere: neither hides the other
            q = ps[c.choose("other", [j for j in range(len(ps)) if j != i and (tier == "thorough" or j < 3 or j > len(ps) - 4
                                                                               or j == i + 1)])]
            mine = c.choose("mine", ("t", "nope"))
            theirs = c.choose("theirs", (f"#/components/{coll}/t", f"#/components/{coll}/nope", "https://e.test/x"))
            d1, p1 = gen.place(q, {"$ref": theirs}, keys=("d",) * q.nkeys)
            d2, p2 = gen.place(pos, {"$ref": f"#/components/{coll}/{mine}"}, keys=("k",) * pos.nkeys)
            doc = gen.merge(base, gen.merge(d1, d2))
            cur = doc
            for s in p1:
                cur = cur[s] if isinstance(cur, dict) or isinstance(cur, list) and s < len(cur) else {}
                if not isinstance(cur, (dict, list)):
                    return "overlap"
            if cur != {"$ref": theirs}:
                return "overlap"
            return judge(doc, mine == "t" and not theirs.endswith("nope"),
                         f"{mine} at {'/'.join(map(str, p2))}, {theirs} at {'/'.join(map(str, p1))}")

        sp.explore(body, pos.label())
