"""Validators only look: same object back, nothing touched, the same answer every time."""
import itertools

from .. import gen, impl, oracle, walk
from ..engine import Violation
from ..refworld import COLL_OF, CONTEXTS, chunks, decoy, refpos, right_positions

STATES = ("right", "alias", "dangling", "wrong kind", "external", "strange", "cycle", "absent", "slash", "double slash")
REAL = ["UnifiedReferencesValidator", "TagsRefValidator", "ExternalDocsRefValidator"]
STUBS = [v for v in impl.ALL_VALIDATORS if v not in REAL]
LISTS = [c for n in (2, 3) for c in itertools.permutations(REAL, n)] + [(a, a) for a in REAL] \
    + [(a, b) for a in REAL for b in STUBS[:3]] + [(b, a) for a in REAL for b in STUBS[-3:]] + [tuple(impl.ALL_VALIDATORS)]
BOUNDS = {
    "quick": "all 354 reference positions x 10 states of the reference x {nothing else in the document, lean/rich hosts with siblings} x all 20 validators "
             "(3 full, 17 placeholders): object graph (identities, contents, fields set) before and after, verdict and message "
             "of 3 calls; and 34 lists and orders of validators against the conjunction of their single verdicts",
    "thorough": "as quick in all 6 sibling/host contexts, and every list of <= 3 different validators of 6",
}
ASSUMPTIONS = ["list-free targets"]


def jobs(tier):
    return [(f"positions{i}", (ch,)) for i, ch in enumerate(chunks(list(range(len(refpos()))), 12))]


def make(pos, state, ctx):
    kind = gen.expected_kinds(pos)[0]
    coll = COLL_OF[kind]
    other = "parameters" if coll != "parameters" else "replies"
    base = decoy()
    base["components"][coll]["al"] = {"$ref": f"#/components/{coll}/t"}
    v = {"$ref": {"right": f"#/components/{coll}/t", "alias": f"#/components/{coll}/al", "dangling": f"#/components/{coll}/no",
                  "wrong kind": f"#/components/{other}/t", "external": "https://e.test/x.json", "strange": "x.json",
                  "cycle": f"#/components/{coll}/al", "absent": "https://e.test/x",
                  "slash": f"#/components/{coll}/t/", "double slash": f"#/components//{coll}/t"}[state]}
    if state == "cycle":
        base["components"][coll]["al"] = {"$ref": f"#/components/{coll}/al"}
    if ctx is None:                              # nothing else in the document
        return gen.place(pos, v)
    if ctx == "sparse":                          # no objects of that kind, some members absent and some empty
        doc, path = gen.place(pos, v)
        return gen.merge({"components": {other: {}, "securitySchemes": {}}, "channels": {}}, doc), path
    decor, where, rich = ctx
    doc, path = gen.place(pos, v, decor=decor, where=where, rich=rich)
    return gen.merge(base, doc), path


def verdict(val, spec):
    impl.CAP.msgs.clear()
    try:
        return val(spec), None, list(impl.CAP.msgs)
    except ValueError as e:
        return None, str(e), list(impl.CAP.msgs)


def run(sp, tier, idxs):
    def one(c):
        pos = refpos()[c.choose("place", idxs)]
        state = c.choose("state", STATES)
        doc, path = make(pos, state, c.choose("context", [None, "sparse"] + (CONTEXTS if tier == "thorough" else [CONTEXTS[0], CONTEXTS[-1]])))
        spec = impl.must_parse(doc)
        shown = f"{state} reference at {'/'.join(map(str, path))}"
        before, text = walk.snapshot(spec), spec.model_dump_json()
        for name in impl.ALL_VALIDATORS:
            val = impl.validator(name)()
            got = []
            for k, v in enumerate((val, val, impl.validator(name)())):
                r, why, warns = verdict(v, spec)
                if why is None and r is not spec:
                    raise Violation(f"{shown}: {name} returns another object")
                got.append((why, warns))
                if walk.snapshot(spec) != before:
                    now = walk.snapshot(spec)
                    d = [(a, b) for a, b in zip(before, now) if a != b][:1] or [(len(before), len(now))]
                    raise Violation(f"{shown}: {name} changes the document (call {k + 1}): {d}", doc=doc)
            if spec.model_dump_json() != text:
                raise Violation(f"{shown}: {name} changes what is written", doc=doc)
            if not got[0] == got[1] == got[2]:
                raise Violation(f"{shown}: {name} answers differently when asked again: {got}", doc=doc)
        return "untouched"

    sp.explore(one, "single")

    def several(c):
        pos = refpos()[c.choose("place", idxs)]
        state = c.choose("state", STATES[2:7] + STATES[8:9] if tier == "quick" else STATES)
        names = c.choose("validators", LISTS)
        doc, path = make(pos, state, CONTEXTS[0])
        spec = impl.must_parse(doc)
        alone = [verdict(impl.validator(n)(), spec)[1] for n in names]
        got, err = impl.parse(doc, *[impl.validator(n) for n in names])
        shown = f"{state} reference at {'/'.join(map(str, path))} with {names}"
        if (err is None) != all(a is None for a in alone):
            raise Violation(f"{shown}: {'accepted' if err is None else 'rejected'}, alone: {alone}", doc=doc)
        if err is None and got.model_dump_json() != spec.model_dump_json():
            raise Violation(f"{shown}: the accepted document differs from the one read without validators", doc=doc)
        if err is not None:
            first = next(a for a in alone if a is not None)
            if first not in str(err):
                raise Violation(f"{shown}: the error is not the first validator's: {err}", doc=doc)
        return "accepted" if err is None else "rejected"

    sp.explore(several, "lists")
