"""A rejection by a reference validator names the reference at fault and where it stands."""
import re

from .. import gen, impl
from ..engine import Violation
from ..gen import ANY, Pos
from ..refworld import COLL_OF, chunks, comp_target, decoy, refpos, stage

BOUNDS = {
    "quick": "all 354 reference positions x 6 ways to be wrong x each validator that judges them x 8 entry names per level (upper and lower case, digits, hyphens, up to 161 letters) x lean/rich "
             "hosts x right references beside it; every list index 0 to 3 and 11",
    "thorough": "as quick with every pair of 8 names for the levels and right references in 2 other places",
}
ASSUMPTIONS = ["the place is named by the names of the map entries on the way to the reference; for the unified validator also by list indices"]
NAMES = ("Ab1", "cD-2", "e_f", "X", "UPPER-CASE", "v2beta1", "a-longer_Name-of-an-Entry_17", "l" + "0ng-" * 40 + "Z")
SHORT = "Zy-Missing_9"
FAR = "Zy-" + "Missing_" * 20 + "9"


def word(w, text):
    return re.search(r"(?<![A-Za-z0-9_-])" + re.escape(w) + r"(?![A-Za-z0-9_-])", text) is not None


def jobs(tier):
    return [(f"positions{i}", (ch,)) for i, ch in enumerate(chunks(list(range(len(refpos()))), 12))]


def run(sp, tier, idxs):
    for i in idxs:
        pos = refpos()[i]
        kinds = gen.expected_kinds(pos)
        coll = COLL_OF[kinds[0]]

        def body(c, pos=pos, kinds=kinds, coll=coll):
            vs = ["UnifiedReferencesValidator"]
            if kinds == ("Tag",) and not pos.in_bindings:
                vs.append("TagsRefValidator")
            if kinds == ("ExternalDocumentation",) and not pos.in_bindings:
                vs.append("ExternalDocsRefValidator")
            v = c.choose("validator", vs)
            how = c.choose("wrong", ("dangling", "no collection", "elsewhere", "kind", "circular", "form"))
            base = decoy()
            MARK = c.choose("target name", (SHORT, FAR)) if how in ("dangling", "kind") else SHORT
            tgt, names = f"#/components/{coll}/{MARK}", [MARK]
            if how == "no collection":
                base = stage("bare")
            elif how == "elsewhere":
                tgt, names = f"#/components/{coll}x/{MARK}", [coll + "x"]      # the first part that leads nowhere
            elif how == "kind":
                other = "Tag" if "Tag" not in kinds else "Parameter"
                base["components"][COLL_OF[other]][MARK] = gen.minimal_obj(other)
                tgt = f"#/components/{COLL_OF[other]}/{MARK}"
            elif how == "circular":
                if v != vs[0]:
                    return "other entries are judged first"
                base["components"][coll][MARK] = {"$ref": tgt}
                if pos.steps[:2] and pos.steps[0].name == "components" and len(pos.steps) == 3 and pos.steps[1].name == coll:
                    return "the entry itself"
            elif how == "form":
                if v != vs[0]:
                    return "accepted by this validator"
                tgt = f"./{MARK}.json#/x"
            if tier == "thorough":
                keys = tuple(c.choose(f"name{j}", NAMES) for j in range(min(2, pos.nkeys)))
                keys += tuple(NAMES[j % 8] for j in range(2, pos.nkeys))
            else:
                n = c.choose("name", tuple(range(len(NAMES))))
                keys = tuple(NAMES[(n + j) % 8] for j in range(pos.nkeys))
            decor = c.choose("siblings", ("none", "right"))
            ref = {"$ref": tgt}
            if pos.steps[-1].how == "item" and v == vs[0] and how != "no collection" and c.flag("list"):
                at = c.choose("index", (0, 1, 2, 3, 11))
                vals = [{"$ref": gen.right_ref(pos.steps[-1].alts)} for _ in range(at)] + [ref]
                doc, path = gen.place(Pos(pos.steps[:-1], ANY), vals, keys=keys[:pos.nkeys])
                path += (at,)
            else:
                doc, path = gen.place(pos, ref, keys=keys, decor=decor, where="both", rich=c.flag("rich"))
            if how == "no collection" and decor == "right":
                return "siblings bring the collections"
            doc = gen.merge(base, doc)
            spec, err = impl.parse(doc, impl.validator(v))
            shown = f"{v}: {tgt!r} ({how}) at /{'/'.join(map(str, path))}"
            if err is None:
                raise Violation(f"{shown}: accepted", doc=doc)
            es = [e for e in err.errors() if e["type"] == "value_error" and e["loc"] == ()]
            if len(es) != 1:
                raise Violation(f"{shown}: the rejection is reported as {[(e['type'], e['loc']) for e in err.errors()][:3]}", doc=doc)
            msg = es[0]["msg"]
            if how == "circular" and not word(MARK, msg):
                raise Violation(f"{shown}: the rejection does not name {MARK}: {msg}", doc=doc)
            if how == "circular":
                # the entry is in the cycle itself: its own reference may be met first
                if word("components", msg) and word(coll_py(coll), msg) or word(coll, msg):
                    if not all(word(k, msg) for k in entry_names(pos, path)):
                        return "the cycle is reported where it is first met"
                return "named"
            want = names + entry_names(pos, path)
            lost = [k for k in want if not word(k, msg)]
            if how == "no collection" and (rest := [k for k in lost if k == MARK]):
                lost = [k for k in lost if k != MARK]
                if not word(coll, msg) and not word(coll_py(coll), msg) and not word("components", msg):
                    raise Violation(f"{shown}: the rejection does not name the target {rest}: {msg}", doc=doc)
            if lost:
                raise Violation(f"{shown}: the rejection does not name {lost}: {msg}", doc=doc)
            if v == vs[0]:
                ix = [f"[{s}]" for s in path if isinstance(s, int)]
                if any(x not in msg for x in ix):
                    raise Violation(f"{shown}: the rejection does not name the index {ix}: {msg}", doc=doc)
            return "named"

        sp.explore(body, pos.label())


def coll_py(coll):
    from ..meta import KINDS
    return KINDS["Components"].by_js(coll).py


def entry_names(pos, path):
    return [k for s, k in zip(pos.steps, path) if s.how == "key"]
