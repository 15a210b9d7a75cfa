"""Documents whose references are all right are never rejected."""
from .. import gen, impl, oracle
from ..engine import HarnessError, Violation
from ..meta import REF, T
from ..refworld import (CLOTHES, SPREAD, COLL_OF, CONTEXTS, FREE_KEYS, SHORT, chunks, clothed, comp_target, decoy, names, quick_names, refpos, right_positions, spread,
                        target_doc, targets, targets_by_kind)

BOUNDS = {
    "quick": "all 354 reference positions x all list-free places holding a right kind (direct; through 1, 2 or 5 aliases); x "
             "every member-like or odd mapping key on the way and as target name; x 6 sibling/host contexts; x a crowd of 110 others elsewhere or in the same list or map; x 4 sets of top members; among 4 or 8 like hosts holding right references, at each level; x every pair "
             "with another right reference; and all 3323 places of the grammar without references, lean and rich hosts",
    "thorough": "as quick with mapping keys varied independently per level, and alias chains up to 9",
}
ASSUMPTIONS = ["positions and kinds are those of the frozen metamodel",
               "targets: list-free pointers without escapes; places inside schema bodies and free-form data excluded"]


def jobs(tier):
    return ([(f"positions{i}", ("refs", ch)) for i, ch in enumerate(chunks(list(range(len(refpos()))), 4))]
            + [(f"free{i}", ("free", ch)) for i, ch in enumerate(chunks(list(range(len(gen.positions()))), 150))])


def accept(doc, path, tgt, what):
    spec, err = impl.parse(doc, impl.Unified)
    if err is not None:
        impl.must_parse(doc)
        raise Violation(f"{what}: {tgt!r} at {'/'.join(map(str, path))} rejected: {err.errors()[0]['msg']}",
                        path=path, target=tgt, doc=doc)
    return "accepted"


def refs(sp, tier, idxs):
    for i in idxs:
        pos = refpos()[i]
        exp = gen.expected_kinds(pos)
        here = "#/" + pos.label()
        tgts = [t for k in exp for t in targets_by_kind()[k]
                if targets()[t][1] != here and not targets()[t][1].startswith(here + "/")]
        keysteps = [s for s in pos.steps if s.how == "key"]

        def body(c, pos=pos, exp=exp, tgts=tgts, keysteps=keysteps):
            axis = c.choose("axis", ("place", "alias", "same names", "pair", "context", "clothed", *SPREAD) + (("keys", "same") if pos.nkeys else ("same",)))
            if axis == "place":
                t = c.choose("target", tgts)
                ptr = targets()[t][1]
                doc, path = gen.place(pos, {"$ref": ptr})
                return accept(gen.merge(target_doc(t), doc), path, ptr, "right reference")
            base = decoy()
            comps = base["components"]
            k = c.choose("kind", exp)
            ptr = comp_target(k)
            own = COLL_OF[k]
            if axis == "alias":
                ends = [targets()[t][1] for t in tgts if targets()[t][2] == k]
                far = c.choose("end", ends if tier == "thorough" else ends[:1])
                n = c.choose("length", (1, 2, 5) if tier == "quick" else (1, 2, 3, 4, 6, 9))
                names_ = [f"a{j}" for j in range(n, 0, -1)] if c.flag("order") else [f"a{j}" for j in range(1, n + 1)]
                base = gen.merge(base, target_doc([t for t in tgts if targets()[t][1] == far][0]))
                comps = base["components"]
                for a, b in zip(names_, names_[1:]):
                    comps[own][a] = {"$ref": f"#/components/{own}/{b}"}
                comps[own][names_[-1]] = {"$ref": far}
                ref = f"#/components/{own}/{names_[0]}"
                doc, path = gen.place(pos, {"$ref": ref})
                return accept(gen.merge(base, doc), path, ref, f"alias of {far}")
            if axis == "clothed":
                comps[own]["c"] = clothed(k, c.choose("clothes", CLOTHES))
                ref = f"#/components/{own}/c"
                doc, path = gen.place(pos, {"$ref": ref}, rich=c.flag("rich"))
                return accept(gen.merge(base, doc), path, ref, "right reference to an object with other members")
            if axis == "same names":
                # every hop carries the same last name, in another collection or section
                ends = ([e for e in (targets()[t][1] for t in tgts if targets()[t][2] == k)
                                       if e.endswith("/t") and e != f"#/components/{own}/t"])
                if not ends:
                    return "no other place"
                far = c.choose("end", ends)
                base = gen.merge(base, target_doc([t for t in tgts if targets()[t][1] == far][0]))
                if "$ref" in (oracle.pointer(base, far) or {}):
                    return "not an object"
                base["components"][own]["t"] = {"$ref": far}
                base["components"][own]["a"] = {"$ref": f"#/components/{own}/t"}
                ref = f"#/components/{own}/" + c.choose("start", ("t", "a"))
                doc, path = gen.place(pos, {"$ref": ref})
                doc = gen.merge(base, doc)
                if path[:3] == ("components", own, "t") or far.startswith(f"#/components/{own}/t"):
                    return "self"
                return accept(doc, path, ref, f"alias of {far}")
            if axis == "pair":
                other = c.choose("other kind", [o for o in COLL_OF if right_positions(o)])
                q = c.choose("other use", right_positions(other))
                good, _ = gen.place(q, {"$ref": comp_target(other)}, keys=("q",) * q.nkeys)
                doc, path = gen.place(pos, {"$ref": ptr}, keys=(c.choose("key", ("a", "z")),) * pos.nkeys)
                return accept(gen.merge(gen.merge(base, good), doc), path, ptr, f"right reference beside one to {other}")
            if axis in SPREAD:
                doc, path = spread(c, axis, pos, ptr, ptr)
                if doc is None:
                    return "no level"
                return accept(doc, path, ptr, f"right reference ({axis})")
            if axis == "context":
                decor, where, rich = c.choose("context", CONTEXTS[1:])
                doc, path = gen.place(pos, {"$ref": ptr}, decor=decor, where=where, rich=rich)
                return accept(gen.merge(base, doc), path, ptr, "right reference")
            if axis == "keys":
                if tier == "thorough" and pos.nkeys > 1 and c.flag("independent"):
                    keys = tuple(c.choose(f"key{j}", SHORT) for j in range(pos.nkeys))
                else:
                    lvl = c.choose("level", tuple(range(pos.nkeys)) + (("all",) if pos.nkeys > 1 else ()))
                    ns = names() if tier == "thorough" else tuple(SHORT) if lvl == "all" else quick_names()
                    if lvl != "all" and keysteps[lvl].kind == "dict" or lvl == "all" and all(s.kind == "dict" for s in keysteps):
                        ns = ns + tuple(FREE_KEYS)
                    n = c.choose("name", ns)
                    keys = tuple(n if lvl in ("all", j) else "k" for j in range(pos.nkeys))
                doc, path = gen.place(pos, {"$ref": ptr}, keys=keys)
                return accept(gen.merge(base, doc), path, ptr, "right reference")
            n = c.choose("target name", names() if tier == "thorough" else SHORT)
            ref = f"#/components/{own}/{n}"
            doc, path = gen.place(pos, {"$ref": ref}, keys=(n,) * pos.nkeys)
            if path == ("components", own, n):
                return "self"
            base = {"info": base["info"], "components": {own: {n: gen.minimal_obj(k)}}}
            return accept(gen.merge(base, doc), path, ref, "right reference")

        sp.explore(body, pos.label())


def free(sp, tier, idxs):
    def body(c):
        pos = gen.positions()[c.choose("place", idxs)]
        rich = c.flag("rich")
        vals = [v for v in gen.values(pos.alts, pos.modsd) if not oracle.is_ref(v)]
        if any(a.tag == "any" for a in pos.alts):
            vals = vals + [{"$ref": "#/nope"}, {"a": [{"$ref": "#/components/tags/nope"}]}]
        if REF in pos.alts:
            vals.append({"$ref": "https://e.test/x"})
        if not vals:
            return "no value"
        v = c.choose("value", vals)
        doc, path = gen.place(pos, v, rich=rich, keys=("k",) * pos.nkeys)
        if not pos.steps:
            doc = gen.minimal_obj("AsyncAPI3")
        if not oracle.ok((T("obj", "AsyncAPI3"),), doc):
            return "not a document"                     # the value breaks a rule of its host
        return accept(doc, path, v, "no internal reference")

    sp.explore(body, "free")


def run(sp, tier, what, idxs):
    (refs if what == "refs" else free)(sp, tier, idxs)
