"""Extra processors: converters then validators, in order, once per construction and per assignment."""
import itertools
import json

from .. import gen, impl, oracle
from ..engine import Violation
from ..meta import KINDS
from .c11 import diff

BOUNDS = {
    "quick": "every list of <= 4 converters and <= 4 validators, each passing, rejecting or (converters) editing the document "
             "in place, incl. the same processor twice or in both lists x 4 ways to construct; and for every such list of <= 2 and <= 3 (or of one sort only) that passes, every "
             "assignment of each of 8 members with right and wrong values, and histories of 2 assignments with a processor "
             "that starts rejecting (or crashing, 4 exception types) at the n-th run; pipelines of 5 to 130 processors (converters, validators or both; any one rejects; each its own class or one class repeated), and every pipeline of <= 2 + 2 on 5 further documents, each x 3 ways to construct and 4 assignments",
    "thorough": "as quick with <= 4 converters and <= 5 validators, assignments for up to 6 processors",
}
ASSUMPTIONS = ["processors reject by raising ValueError, and crash by raising another Exception", "a converter edits in place (by design)"]
DOC = {"asyncapi": "3.0.0", "info": {"title": "t", "version": "v"}, "channels": {"c": {"address": "a"}},
       "servers": {"s": {"host": "h", "protocol": "p"}}}
LOG = []
FAIL_AT = [None]
LATE = [ValueError]
EXC = [ValueError]


class Refusal(ValueError):
    pass


def bad_text():
    return UnicodeDecodeError("utf-8", b"x", 0, 1, "r")


REFUSALS = (ValueError, AssertionError, Refusal, lambda: impl.kind_parse("Tag", {})[1])
CRASHES = (RuntimeError, KeyError, TypeError, bad_text)


LATES = (ValueError, RuntimeError, KeyError, TypeError, RecursionError)


def make(kind, i, behaviour):
    class P:
        serial = 0

        def __init__(self):
            P.serial += 1
            self.fresh = True

        def __call__(self, spec):
            LOG.append((kind + str(i), self.fresh, spec, json.dumps(json.loads(spec.model_dump_json()), sort_keys=True)))
            self.fresh = False
            if FAIL_AT[0] is not None and len(LOG) == FAIL_AT[0]:
                raise LATE[0]("late")
            if behaviour == "reject":
                raise EXC[0]()
            if behaviour == "edit":
                spec.channels[f"n{i}"] = gen_channel()
            return spec

    P.__name__ = f"{kind}{i}"
    P.behaviour = behaviour
    P.label = kind + str(i)
    return P


MANY = (5, 9, 10, 11, 17, 33, 65, 130)
FULL = {**DOC, "id": "urn:a:b", "defaultContentType": "a/b", "x-a": {"n": None},
        "channels": {"c": {"address": "a/{p}", "parameters": {"p": {"$ref": "#/components/parameters/p"}},
                           "messages": {"m": {"$ref": "#/components/messages/m"}}}, "d": {"$ref": "#/components/channels/d"}},
        "operations": {"o": {"action": "send", "channel": {"$ref": "#/channels/c"},
                             "messages": [{"$ref": "#/channels/c/messages/m"}]}},
        "components": {"parameters": {"p": {}}, "messages": {"m": {"payload": {"type": "object"}}}, "channels": {"d": {"address": None}}}}
DOCS = ({"asyncapi": "3.0.0", "info": {"title": "t", "version": "v"}}, FULL,
        {**DOC, "channels": {}, "servers": {}, "operations": {}, "components": {}},
        {**DOC, "channels": {"c": {"$ref": "https://e.test/c"}}, "operations": {"o": {"$ref": "#/components/operations/o"}},
         "components": {"operations": {"o": {"action": "receive", "channel": {"$ref": "#/channels/c"}}}}},
        {**FULL, "components": {**FULL["components"], "x-b": []}, "info": {"title": "", "version": "", "x-p": 1}})


def gen_channel():
    from ..meta import pyclass
    return pyclass("Channel").model_validate({"address": "n"})


def jobs(tier):
    nc, nv = (4, 4) if tier == "quick" else (4, 5)
    return [(f"many{n}", ("many", n)) for n in MANY] + [(f"document{i}", ("document", i)) for i in range(len(DOCS))] + \
        [(f"{a}-{b}", (a, b)) for a in [None] + list(range(nc + 1)) for b in [None] + list(range(nv + 1))]


ASSIGN = [("id", "urn:a:b", True), ("id", "no pe", False), ("asyncapi", "3.1.0", True), ("asyncapi", "4.0.0", False),
          ("default_content_type", "x", True), ("servers", None, True), ("servers", {"q": {"host": "h", "protocol": "p"}}, True),
          ("servers", {"b d": {"host": "h", "protocol": "p"}}, False), ("operations", {}, True), ("components", {}, True),
          ("info", {"title": "u", "version": "w"}, True), ("info", None, False), ("x-a", 1, True), ("zz", 1, False)]


def run_other(sp, which, n):
    """Long pipelines on one document, short pipelines on other documents."""
    def build(d, convs, vals, how):
        d = gen._copy(d)
        if how == "instance":
            m = impl.AsyncAPI3.model_validate(d)
            m.__dict__["extra_converters"], m.__dict__["extra_validators"] = convs, vals
            LOG.clear()
            d = m
        else:
            d["extra_converters"], d["extra_validators"] = convs, vals
        try:
            return impl.AsyncAPI3.model_validate(d) if how != "keywords" else impl.AsyncAPI3(**{
                "default_content_type" if k == "defaultContentType" else k: v for k, v in d.items()})
        except impl.ValidationError:
            return None

    def one(c):
        EXC[0], FAIL_AT[0] = ValueError, None
        if which == "many":
            doc = DOC
            a = c.choose("converters", (0, n, n // 2))
            at = c.choose("rejects", (None, *range(n)) if n < 40 else (None, 0, 9, 10, n // 2 - 1, n // 2, n - 2, n - 1))
            shared = c.choose("classes", ("own", "one for all"))
            ps = [make("c" if i < a else "v", i, "reject" if i == at else "pass") for i in range(n)]
            if shared == "one for all":
                ps = [ps[i] if i == at else ps[0] if i < a else ps[-1] if at != n - 1 else ps[-2] if n - 2 >= a else ps[i]
                      for i in range(n)]
            convs, vals = ps[:a] or None, ps[a:] or None
        else:
            doc = DOCS[n]
            convs = [make("c", i, c.choose(f"c{i}", ("pass", "reject"))) for i in range(c.choose("converters", (0, 1, 2)))]
            vals = [make("v", i, c.choose(f"v{i}", ("pass", "reject"))) for i in range(c.choose("validators", (0, 1, 2)))]
        how = c.choose("how", ("data", "keywords", "instance"))
        order = (convs or []) + (vals or [])
        stop = next((i for i, p in enumerate(order) if p.behaviour == "reject"), None)
        want = [p.label for p in (order if stop is None else order[:stop + 1])]
        shown = f"{how}: {len(convs or ())} converters, {len(vals or ())} validators, the one at {stop} rejects, on {json.dumps(doc)[:200]}"
        LOG.clear()
        m = build(doc, convs, vals, how)
        got = [x[0] for x in LOG]
        if got != want:
            raise Violation(f"{shown}: ran {got}, expected {want}")
        if any(not x[1] for x in LOG):
            raise Violation(f"{shown}: a processor object was reused")
        if (m is None) != (stop is not None):
            raise Violation(f"{shown}: {'rejected' if m is None else 'accepted'}")
        if m is None:
            return "rejected"
        plain = impl.dump(impl.AsyncAPI3.model_validate(gen._copy(doc)))
        d = diff(plain, impl.dump(m))
        if d:
            raise Violation(f"{shown}: processors that only look changed the document: {d}")
        for lab, _f, _s, seen in LOG:
            if json.loads(seen) != plain:
                raise Violation(f"{shown}: {lab} saw a document that is not the result")
        # one assignment: the whole pipeline again
        LOG.clear()
        name, v = c.choose("then", (("id", "urn:n:w"), ("info", {"title": "u", "version": "w"}), ("servers", None), ("x-n", 1)))
        late = c.choose("rejects late", (None, 1, len(want)) if want else (None,))
        LATE[0] = c.choose("by raising", LATES) if late and (which != "many" or n <= 10) else ValueError
        FAIL_AT[0] = late
        try:
            setattr(m, name, gen._copy(v))
            ok = True
        except (impl.ValidationError, *LATES[1:]):
            ok = False
        FAIL_AT[0] = None
        got = [x[0] for x in LOG]
        if got != want[:late]:
            raise Violation(f"{shown}, then {name} = {v!r}, run {late} rejects: ran {got}, expected {want[:late]}")
        if any(not x[1] for x in LOG):
            raise Violation(f"{shown}, then {name} = {v!r}: a processor object was reused")
        if ok == (late is not None):
            raise Violation(f"{shown}, then {name} = {v!r}, run {late} rejects: {'accepted' if ok else 'rejected'}")
        if not ok:
            d = diff(plain, impl.dump(m))
            if d:
                raise Violation(f"{shown}, then {name} = {v!r}: rejected, but the document changed: {d}")
        return "accepted"

    sp.explore(one, which)


def run(sp, tier, nc, nv):
    if nc in ("many", "document"):
        return run_other(sp, nc, nv)
    def pipeline(c):
        convs = None if nc is None else [make("c", i, c.choose(f"c{i}", ("pass", "reject", "edit"))) for i in range(nc)]
        vals = None if nv is None else [make("v", i, c.choose(f"v{i}", ("pass", "reject"))) for i in range(nv)]
        for ps, what in ((convs, "converter"), (vals, "validator")):
            if ps and len(ps) > 1:
                same = c.choose(f"same {what}", (None, (0, len(ps) - 1), (0, 1), (len(ps) - 2, len(ps) - 1)) if len(ps) > 2 else
                                (None, (0, 1)))
                if same:
                    ps[same[1]] = ps[same[0]]
        if convs and vals and convs[0].behaviour == "pass" and c.flag("one in both lists"):
            vals[c.choose("there", (0,) if len(vals) == 1 else (0, len(vals) - 1))] = convs[0]
        return convs, vals

    def expect(convs, vals):
        """(labels run, rejected?)"""
        out = []
        for p in (convs or []) + (vals or []):
            out.append(p.label)
            if p.behaviour == "reject":
                return out, True
        return out, False

    def check_log(shown, want, fresh_doc=None):
        got = [x[0] for x in LOG]
        if got != want:
            raise Violation(f"{shown}: ran {got}, expected {want}")
        if any(not x[1] for x in LOG):
            raise Violation(f"{shown}: a processor object was reused")

    def build(how, convs, vals):
        d = gen._copy(DOC)
        if convs is not None:
            d["extra_converters"] = convs
        if vals is not None:
            d["extra_validators"] = vals
        try:
            if how == "data":
                return impl.AsyncAPI3.model_validate(d)
            if how == "keywords":
                return impl.AsyncAPI3(**d)
            if how == "builder":
                return impl.AsyncAPI3.as_builder(title="t", version="v", channels=d["channels"], servers=d["servers"],
                                                 extra_converters=convs, extra_validators=vals)
            plain = impl.AsyncAPI3.model_validate(gen._copy(DOC))          # an instance, re-read
            plain.__dict__["extra_converters"] = convs
            plain.__dict__["extra_validators"] = vals
            LOG.clear()
            return impl.AsyncAPI3.model_validate(plain)
        except impl.ValidationError:
            return None

    def construct(c):
        convs, vals = pipeline(c)
        how = c.choose("how", ("data", "keywords", "builder", "instance"))
        shown = f"{how}: converters {[(p.label, p.behaviour) for p in convs or []]}, validators " \
                f"{[(p.label, p.behaviour) for p in vals or []]}"
        LOG.clear()
        FAIL_AT[0] = None
        want, rejected = expect(convs, vals)
        EXC[0] = ValueError
        if rejected and len(convs or ()) + len(vals or ()) <= 3:
            EXC[0] = c.choose("by", REFUSALS + CRASHES)
        try:
            m = build(how, convs, vals)
        except (RuntimeError, KeyError, TypeError, UnicodeError) as e:
            if not rejected or EXC[0] not in CRASHES:
                raise
            check_log(shown + f", a crash ({type(e).__name__})", want)
            return "crashed"
        check_log(shown, want)
        if (m is None) != rejected:
            raise Violation(f"{shown}: {'rejected' if m is None else 'accepted'}")
        if m is None:
            return "rejected"
        out = impl.dump(m)
        if any(k.startswith("extra") for k in out):
            raise Violation(f"{shown}: the processors are written to the document")
        edits = [f"n{p.label[1:]}" for p in convs or [] if p.behaviour == "edit"]
        if sorted(out["channels"]) != sorted({"c", *edits}):
            raise Violation(f"{shown}: channels {sorted(out['channels'])} after converters added {edits}")
        if LOG and any(x[2] is not LOG[0][2] for x in LOG):
            raise Violation(f"{shown}: processors saw different documents")
        for lab, _f, _s, seen in LOG:
            if lab[0] == "v" and json.loads(seen) != out:
                raise Violation(f"{shown}: {lab} saw a document that is not the result")
        return "accepted"

    sp.explore(construct, "construct")

    def assign(c):
        convs, vals = pipeline(c)
        want, rejected = expect(convs, vals)
        if rejected:
            return "rejected at construction"
        if convs and tier == "quick" and any(p.behaviour == "edit" for p in convs[1:]):
            return "left to thorough"
        LOG.clear()
        FAIL_AT[0] = None
        m = build("data", convs, vals)
        raw = impl.dump(m)
        late = c.choose("rejects at run", (None,) + tuple(range(1, len(want) * 2 + 1)))
        LOG.clear()
        LATE[0] = c.choose("by raising", LATES) if late and len(want) <= 3 else ValueError
        FAIL_AT[0] = late
        for step in range(2):
            name, v, good = c.choose(f"assign{step}", ASSIGN) if step == 0 else c.choose("then", ASSIGN[:6:2] + ASSIGN[-2:])
            before, n0 = impl.dump(m), len(LOG)
            try:
                setattr(m, name, gen._copy(v))
                ok = True
            except (impl.ValidationError, *LATES[1:]):
                ok = False
            shown = f"{name} = {v!r} (step {step}), pipeline {want}, {LATE[0].__name__} at run {late}"
            ran = [x[0] for x in LOG[n0:]]
            fails = late is not None and n0 < late <= n0 + len(want)
            if good:
                exp = want[:late - n0] if fails else want
                if ran != exp:
                    raise Violation(f"{shown}: ran {ran}, expected {exp}")
                if any(not x[1] for x in LOG[n0:]):
                    raise Violation(f"{shown}: a processor object was reused")
            if ok != (good and not fails):
                raise Violation(f"{shown}: {'accepted' if ok else 'rejected'}")
            if not ok and not any(p.behaviour == "edit" for p in convs or []):
                d = diff(before, impl.dump(m))
                if d:
                    raise Violation(f"{shown}: rejected, but the document changed: {d}")
            if ok:
                js = {"default_content_type": "defaultContentType"}.get(name, name)
                got = impl.dump(m).get(js)
                if (got is None) != (v is None) or isinstance(v, str) and got != v:
                    raise Violation(f"{shown}: accepted, but {name} is {got!r}")
        FAIL_AT[0] = None
        return "assigned"

    if tier == "thorough" and (nc or 0) + (nv or 0) <= 6 or (nc or 0) <= 2 and (nv or 0) <= 3 or not nc or not nv:
        sp.explore(assign, "assign")
