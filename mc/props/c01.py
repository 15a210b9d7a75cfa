"""Dangling internal references are rejected wherever they sit."""
from .. import gen, impl
import functools

from ..engine import Violation
from ..meta import COMPONENT_KIND, KINDS, MAPS
from ..gen import ANY, Pos
from ..refworld import ALIKE, COLL_OF, COLLECTIONS, CONTEXTS, NAME, NEAR, SHORT, SPREAD, STAGES, canonical, chunks, decoy, kind_at, refpos, spread, stage

BOUNDS = {
    "quick": "all 354 reference positions x (all dangling target shapes x 4 states of the target collection, plain "
             "context) + (3 dangling shapes x 6 contexts: lean/rich hosts, siblings before/after/valid references) + (23 odd "
             "mapping keys per level; documents with one root section only; the far end of chains of 1, 2, 3, 5; in a crowd of 110 right references elsewhere or in the same list or map; under 4 sets of top members; among 4 or 8 like hosts holding right references, at each level; 10 patterns of "
             "repeated and mixed references in one list or map)",
    "thorough": "all 354 reference positions x all dangling target shapes x 4 collection states x 6 contexts, and the odd keys, "
                "single-section documents and chains of the quick run",
}
ASSUMPTIONS = ["positions are those of the frozen metamodel", "internal references without ~ or % escapes"]


def targets(kind, own):
    c = COLL_OF[kind]
    out = [f"#/components/{c}/nope", f"#/components/{c}/T", f"#/components/{c}/t2", f"#/components/{c}/tt",
           f"#/components/{c}/t/x", f"#/components/{c}/t/nope/nope", f"#/components/{c}x/t", f"#/components/{c}/root",
           f"#/components/{c}/root/t", f"#/components/{c}/__class__", f"#/components/{c}/keys",
           f"#/components/{c}/t/model_fields_set", f"#/components/{c}/t/__dict__", "#/components/nope/t", "#/nope/t",
           "#/t", "#t", "#/servers/nope", "#/channels/nope", "#/operations/nope", "#/channels/nope/messages/m",
           "#/channels/t/messages/nope", "#/channels/t/parameters/nope", "#/components/channels/t/messages/nope",
           "#/components/channels/nope/messages/m", "#/servers/t/variables/nope", "#/info/nope", "#", "#/",
           "#/components", "#/components/nope", "#/components/model_fields/t", f"#/Components/{c}/t",
           f"#/components/{c}/t t", f"#/components/{c}/0", f"#/components/{c}/-1", f"#/components/{c}/t?x=1", f"#/components/{c}/t#",
           f"#/components/{c}/t;v=1", f"#/components/{c}/t.", f"#/components/{c}/.t", f"#/components/{c}/" + "l" * 1100, f"#/components/{c}/t[0]",
           f"#/components/{c}/t,t", f"#/components/{c}/*", f"#/components/{c}/**", f"#/components/*/t",
           f"#/components/{c}/t\n", f"#/components/{c}/#/components/{c}/t",
           f"#/components/{c}/components/{c}/t", f"#/{c}/components/t"]
    out += [f"#/components/{o}/only" for o in COLLECTIONS if o != c]
    return out


SOME = 3


@functools.lru_cache(None)
def unset(kind):
    """Pointers to members that are absent from objects which exist, and would hold the kind if they were there."""
    out = []
    roots = [("#/components/%s/t" % c, ks[-1], decoy()["components"][c]["t"]) for c, ks in COMPONENT_KIND.items()]
    roots += [("#/%s/t" % s, COMPONENT_KIND[s][-1], decoy()[s]["t"]) for s in ("servers", "channels", "operations")]
    roots += [("#/channels/t/messages/m", "Message", decoy()["channels"]["t"]["messages"]["m"]), ("#/info", "Info", decoy()["info"])]
    for ptr, k, obj in roots:
        for f in KINDS[k].fields:
            if f.js in obj:
                continue
            for a in f.type:
                inner = [a] if a.tag == "obj" else a.arg if a.tag in ("list", "dict") else MAPS[a.arg] if a.tag == "map" else []
                if any(b.tag == "obj" and b.arg == kind for b in inner):
                    out.append(f"{ptr}/{f.js}")
                    if a.tag != "obj":
                        out.append(f"{ptr}/{f.js}/t")
    return tuple(dict.fromkeys(out))


def repeat(c, pos, kind, coll):
    """The same or similar dangling references several times in one list or map."""
    bad = [f"#/components/{coll}/nope", f"#/components/{coll}/nope2"]
    pat = c.choose("pattern", ("bb", "bbb", "bc", "bbc", "gb", "bg", "gbg", "gbbg", "ggb", "bgg"))
    vals = [{"$ref": {"b": bad[0], "c": bad[1], "g": f"#/components/{coll}/t"}[x]} for x in pat]
    lvl = pos.steps[-1]
    up = Pos(pos.steps[:-1], ANY)
    whole = vals if lvl.how == "item" else {f"k{i}": v for i, v in enumerate(vals)}
    doc, path = gen.place(up, whole, rich=c.flag("rich"))
    doc = gen.merge(decoy(), doc)
    spec, err = impl.parse(doc, impl.Unified)
    if err is None:
        raise Violation(f"dangling {bad[0]!r} in the pattern {pat} at {'/'.join(map(str, path))} accepted", path=path, doc=doc)
    return "rejected"


def alike(c, pos, kind, coll, all_names):
    """A name that differs a little from one that is there, and from nothing else."""
    base = decoy()
    obj = gen.minimal_obj(kind)
    if all_names and c.flag("short"):
        have, n = c.choose("name", NEAR)
        where = f"#/components/{coll}/"
        base["components"][coll] = {have: obj}
    else:
        have, n = NAME, c.choose("name", ALIKE)
        where = c.choose("where", (f"#/components/{coll}/", "#/channels/", "#/channels/C-d_e2/messages/"))
    if have != NAME:
        pass
    elif where.startswith("#/components/"):
        base["components"][coll] = {NAME: obj, "t": obj} if c.flag("others") else {NAME: obj}
    elif where == "#/channels/":
        base["channels"][NAME] = {}
    else:
        base["channels"]["C-d_e2"] = {"messages": {NAME: {}}}
    tgt = where + n
    doc, path = gen.place(pos, {"$ref": tgt})
    doc = gen.merge(base, doc)
    if impl.parse(doc, impl.Unified)[1] is None:
        raise Violation(f"dangling {tgt!r} at {'/'.join(map(str, path))} accepted beside {have!r}", path=path, target=tgt, doc=doc)
    return "rejected"


def jobs(tier):
    return [(f"positions{i}", (ch,)) for i, ch in enumerate(chunks(list(range(len(refpos()))), 8))]


def more(c, axis, pos, kind, coll, full):
    """Dangling below oddly named entries, in otherwise empty documents, at the end of chains."""
    tgt = f"#/components/{coll}/nope"
    if axis == "alike":
        return alike(c, pos, kind, coll, full)
    if axis in SPREAD:
        doc, path = spread(c, axis, pos, tgt, f"#/components/{coll}/t")
        if doc is None:
            return "no level"
        if impl.parse(doc, impl.Unified)[1] is None:
            raise Violation(f"dangling {tgt!r} at {'/'.join(map(str, path))} accepted ({axis})", path=path, target=tgt, doc=doc)
        return "rejected"
    keys = ()
    if axis == "keys":
        n, lvl = c.choose("name", SHORT), c.choose("level", tuple(range(pos.nkeys)))
        keys = tuple(n if j == lvl else "k" for j in range(pos.nkeys))
    base = stage(c.choose("stage", STAGES if axis == "stage" else STAGES[:1]), *([coll] if c.flag("collection") else []))
    if axis == "chain":
        ln = c.choose("length", (1, 2, 3, 5))
        col = base.setdefault("components", {}).setdefault(coll, {})
        for i in range(ln):
            col[f"a{i}"] = {"$ref": f"#/components/{coll}/a{i + 1}" if i < ln - 1 else tgt}
        tgt = f"#/components/{coll}/a0"
    doc, path = gen.place(pos, {"$ref": tgt}, keys=keys, rich=c.flag("rich"))
    doc = gen.merge(base, doc)
    spec, err = impl.parse(doc, impl.Unified)
    if err is None:
        raise Violation(f"dangling {tgt!r} at {'/'.join(map(str, path))} accepted ({axis})", path=path, target=tgt, doc=doc)
    return "rejected"


def run(sp, tier, idxs):
    for i in idxs:
        pos = refpos()[i]
        kind = gen.expected_kinds(pos)[0]
        coll = COLL_OF[kind]
        full = tier == "thorough" or i in canonical()

        def body(c, pos=pos, kind=kind, coll=coll):
            ts = targets(kind, None) + list(unset(kind))
            if tier == "quick":
                axis = c.choose("axis", ("targets", "contexts", "stage", "chain", "alike", *SPREAD) + (("keys",) if pos.nkeys else ())
                                + (("repeat",) if pos.steps[-1].how != "field" else ()))
                if axis == "repeat":
                    return repeat(c, pos, kind, coll)
                if axis in ("keys", "stage", "chain", "alike", *SPREAD):
                    return more(c, axis, pos, kind, coll, full)
                if axis == "targets":
                    ctx, tgt = CONTEXTS[0], c.choose("target", ts)
                    state = c.choose("collection", ("full", "empty", "absent", "no components"))
                else:
                    ctx, tgt, state = c.choose("context", CONTEXTS), c.choose("target", ts[:SOME]), "full"
            else:
                axis = c.choose("axis", ("all", "stage", "chain", "alike", *SPREAD) + (("keys",) if pos.nkeys else ())
                                + (("repeat",) if pos.steps[-1].how != "field" else ()))
                if axis == "repeat":
                    return repeat(c, pos, kind, coll)
                if axis != "all":
                    return more(c, axis, pos, kind, coll, full)
                ctx, tgt = c.choose("context", CONTEXTS), c.choose("target", ts)
                state = c.choose("collection", ("full", "empty", "absent", "no components"))
            base = decoy()
            only = base["components"][coll]["t"]
            base["components"][coll]["only"] = only
            if state == "empty":
                base["components"][coll] = {}
            elif state == "absent":
                del base["components"][coll]
            elif state == "no components":
                del base["components"]
            decor, where, rich = ctx
            doc, path = gen.place(pos, {"$ref": tgt}, decor=decor, where=where, rich=rich)
            doc = gen.merge(base, doc)
            k = kind_at(doc, tgt) if tgt.startswith("#/") else None
            if k is not None and k != "value":
                return "not dangling here"
            spec, err = impl.parse(doc, impl.Unified)
            if err is None:
                raise Violation(f"dangling {tgt!r} at {'/'.join(map(str, path))} accepted", path=path, target=tgt, doc=doc)
            return "rejected"

        sp.explore(body, pos.label())
