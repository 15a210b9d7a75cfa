"""References to an object of the wrong kind are rejected wherever they sit."""
from .. import gen, impl, walk
from ..engine import HarnessError, Violation
from ..meta import REF
from ..refworld import (CLOTHES, SPREAD, CONTEXTS, COLL_OF, canonical, chunks, clothed, comp_target, decoy, refpos, representatives, right_positions, spread,
                        target_doc, targets, wrong_name_targets)

BOUNDS = {
    "quick": "all 354 reference positions x {one place of every object kind and value type, reached directly and through "
             "1, 2, 3 or 5 aliases; every referenceable kind also used rightly elsewhere (before/after, also as one and the same object); every member-like "
             "mapping key on the way with the kind that key suggests; 6 sibling/host contexts; a crowd of 110 right references elsewhere or in the same list or map; 4 sets of top members; among 4 or 8 like hosts holding right references, at each level}; and per expected kind "
             "one position x all ~1800 list-free places of the document grammar",
    "thorough": "as quick, with all 354 positions x all ~1800 list-free places",
}
ASSUMPTIONS = ["positions and kinds are those of the frozen metamodel",
               "targets: list-free pointers without escapes; places inside schema bodies and free-form data excluded"]


def jobs(tier):
    return [(f"positions{i}", (ch,)) for i, ch in enumerate(chunks(list(range(len(refpos()))), 4))]


KINDS_R = [k for k in COLL_OF]


def reject(doc, path, tgt, what):
    spec, err = impl.parse(doc, impl.Unified)
    if err is None:
        raise Violation(f"{what}: {tgt!r} at {'/'.join(map(str, path))} accepted", path=path, target=tgt, doc=doc)
    return "rejected"


def run(sp, tier, idxs):
    canon = canonical()
    for i in idxs:
        pos = refpos()[i]
        exp = gen.expected_kinds(pos)
        wide = tier == "thorough" or i in canon
        tgts = [t for t in (range(len(targets())) if wide else representatives()) if targets()[t][2] not in exp]
        wrong = [k for k in KINDS_R if k not in exp]
        named = [(n, k) for n, k in wrong_name_targets() if k not in exp and comp_target(k)]

        def body(c, pos=pos, exp=exp, tgts=tgts, wrong=wrong, named=named):
            axis = c.choose("axis", ("place", "alias", "elsewhere", "context", "shared", "clothed", *SPREAD) +
                            (("keys",) if pos.nkeys else ()))
            if axis == "place":
                t = c.choose("target", tgts)
                _tp, ptr, _k = targets()[t]
                doc, path = gen.place(pos, {"$ref": ptr})
                doc = gen.merge(target_doc(t), doc)
                return reject(doc, path, ptr, "wrong kind")
            if axis in SPREAD:
                k = c.choose("kind", (wrong[0], wrong[-1]))
                ptr = comp_target(k)
                doc, path = spread(c, axis, pos, ptr, comp_target(exp[0]))
                if doc is None:
                    return "no level"
                return reject(doc, path, ptr, f"a {k} ({axis})")
            k = c.choose("kind", wrong) if axis != "keys" else None
            base = decoy()
            comps = base["components"]
            own = COLL_OF[exp[0]]
            if axis == "clothed":
                base["components"][COLL_OF[k]]["c"] = clothed(k, c.choose("clothes", CLOTHES))
                ptr = f"#/components/{COLL_OF[k]}/c"
                doc, path = gen.place(pos, {"$ref": ptr}, rich=c.flag("rich"))
                return reject(gen.merge(base, doc), path, ptr, f"a {k} with other members")
            if axis == "alias":
                ptr = comp_target(k)
                n = c.choose("length", (1, 2, 3, 5))
                # the alias itself sits in the wrong collection, so only the far end can be judged
                comps[own]["a1"] = {"$ref": ptr}
                for j in range(2, n + 1):
                    comps[own][f"a{j}"] = {"$ref": f"#/components/{own}/a{j - 1}"}
                ref = f"#/components/{own}/a{n}"
                doc, path = gen.place(pos, {"$ref": ref})
                doc = gen.merge(base, doc)
                return reject(doc, path, ref, f"alias of a {k}")
            if axis == "shared":
                # one and the same Reference object stands rightly at one place and wrongly at the other
                ptr = comp_target(k)
                q = c.choose("right use", right_positions(k))
                good, qpath = gen.place(q, {"$ref": ptr}, keys=("q",) * q.nkeys)
                doc, path = gen.place(pos, {"$ref": ptr}, keys=("z",) * pos.nkeys)
                doc = gen.merge(gen.merge(base, good), doc)
                try:
                    spec = impl.must_parse(doc)
                    one = walk.at(spec, q, qpath)
                    if not isinstance(one, impl.Reference) or not isinstance(walk.at(spec, pos, path), impl.Reference):
                        return "the two places coincide"
                    walk.put(spec, pos, path, one)
                except (AttributeError, KeyError, IndexError, TypeError):
                    return "the two places coincide"
                try:
                    impl.Unified()(spec)
                except ValueError:
                    return "rejected"
                raise Violation(f"one reference object to a {k}, right at {q.label()}, wrong at {'/'.join(map(str, path))}: "
                                "accepted", doc=doc)
            if axis == "elsewhere":
                ptr = comp_target(k)
                rp = right_positions(k)
                q = c.choose("right use", rp)
                good, _ = gen.place(q, {"$ref": ptr}, keys=("q",) * q.nkeys)
                doc, path = gen.place(pos, {"$ref": ptr}, keys=(c.choose("key", ("a", "z")),) * pos.nkeys)
                doc = gen.merge(gen.merge(base, good), doc)
                return reject(doc, path, ptr, f"a {k}, rightly used at {q.label()},")
            if axis == "keys":
                n, k = c.choose("name", named)
                lvl = c.choose("level", tuple(range(pos.nkeys)))
                keys = tuple(n if j == lvl else "k" for j in range(pos.nkeys))
                ptr = comp_target(k)
                doc, path = gen.place(pos, {"$ref": ptr}, keys=keys)
                return reject(gen.merge(base, doc), path, ptr, f"a {k}")
            decor, where, rich = c.choose("context", CONTEXTS[1:])
            ptr = comp_target(k)
            doc, path = gen.place(pos, {"$ref": ptr}, decor=decor, where=where, rich=rich)
            return reject(gen.merge(base, doc), path, ptr, f"a {k}")

        sp.explore(body, pos.label())
