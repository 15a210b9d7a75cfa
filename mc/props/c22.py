"""The builder: a complete empty document that re-checks every reference on each assignment."""
import itertools
import json

from .. import gen, impl, oracle
from ..engine import Violation
from ..meta import KINDS, COMPONENT_KIND, pyclass
from ..refworld import doc_ok
from .c11 import diff

BOUNDS = {
    "quick": "every subset of the builder's 8 information arguments (also all empty or null, or references, unusual forms, blanks, all alike) x every single (and pair of) overridden top-level member; "
             "every history of <= 4 operations (17 kinds: store or delete entries of root and component maps in place, assign "
             "whole members with right, dangling, wrong-kind and cyclic references) on a builder, with a second builder "
             "observed throughout",
    "thorough": "as quick with histories of <= 6 operations and three overridden members",
}
ASSUMPTIONS = ["in-place edits of maps are checked at the next assignment (by design)"]
INFO = {"title": "T", "version": "9", "description": "d", "terms_of_service": "https://e.test/t",
        "contact": {"name": "n", "email": "a@b.co"}, "license": {"name": "l"}, "tags": [{"name": "g"}],
        "external_docs": {"url": "https://e.test/d"}}
EMPTY = {"asyncapi": "3.0.0", "info": {"title": "Sample APP", "version": "0.0.1"}, "servers": {}, "channels": {},
         "operations": {}, "components": {c: {} for c in COMPONENT_KIND}}
OVER = {"asyncapi": "3.1.0", "id": "urn:x:y", "default_content_type": "a/b", "defaultContentType": "b/c", "servers": {"s": {"host": "h", "protocol": "p"}},
        "channels": {"c": {"address": "a"}}, "operations": None, "components": {"tags": {"t": {"name": "n"}}},
        "extra_validators": [], "extra_converters": None, "x-e": 1}
BAD = {"asyncapi": "2.0.0", "channels": {"c": {"servers": [{"$ref": "#/servers/none"}]}},
       "operations": {"o": {"action": "send", "channel": {"$ref": "#/channels/none"}}},
       "components": {"tags": {"a": {"$ref": "#/components/tags/a"}}}, "servers": {"b d": {"host": "h", "protocol": "p"}},
       "zz": 1}


REFS = {"title": "default", "version": "0.0.0", "description": "#/components/tags/t", "terms_of_service": "http://e.test/",
        "contact": {"x-a": 1, "url": "https://e.test/"}, "tags": [{"$ref": "https://e.test/t"}, {"name": "g"}],
        "external_docs": {"$ref": "https://e.test/d"}, "license": {"name": "", "url": "https://e.test/l"}}
EMPTIES = {"title": "", "version": "", "description": "", "terms_of_service": None, "contact": {}, "tags": [],
           "external_docs": None, "license": None}


BLANKS = {"title": " T\t", "version": " 1.0 ", "description": "\n d ", "terms_of_service": "https://e.test/t", "contact": {"name": " "},
          "license": {"name": " L "}, "tags": [{"name": " g "}, {"name": "g"}, {"name": "g"}], "external_docs": {"url": "https://e.test/d", "description": " "}}
TWINS = {"title": "x", "version": "x", "description": "x", "terms_of_service": "https://e.test/d", "contact": {"name": "x", "url": "https://e.test/d"},
         "license": {"name": "x", "url": "https://e.test/d"}, "tags": [{"name": "x"}, {"name": "x", "externalDocs": {"url": "https://e.test/d"}}],
         "external_docs": {"url": "https://e.test/d"}}
SPECIAL = {8: EMPTIES, 9: REFS, 10: REFS, 11: BLANKS, 12: TWINS}


def jobs(tier):
    return [("blanks", ("args", 11)), ("twins", ("args", 12)), ("empties", ("args", 8)), ("references", ("args", 9)), ("reference models", ("args", 10))] + [(f"arguments{i}", ("args", i)) for i in range(8)] + [(f"history{i}", ("hist", i)) for i in range(len(EVENTS))]


S, CH = {"host": "h", "protocol": "p"}, {"address": "a"}
OP = {"action": "send", "channel": {"$ref": "#/channels/c"}}
EVENTS = [
    ("put", "channels", "c", CH), ("put", "channels", "d", {"$ref": "#/channels/c"}), ("del", "channels", "c"),
    ("put", "servers", "s", S), ("put", "channels", "e", {"address": "a", "servers": [{"$ref": "#/servers/s"}]}),
    ("put", "operations", "o", OP), ("assign", "operations", {"o": OP}), ("assign", "operations", {}),
    ("assign", "channels", {"c": {"$ref": "#/components/channels/c"}}), ("assign", "channels", {"c": {"$ref": "#/channels/c"}}),
    ("cput", "channels", "c", CH), ("cput", "channels", "w", {"$ref": "#/components/tags/t"}), ("cdel", "channels", "c"),
    ("assign", "id", "urn:a:b"), ("assign", "asyncapi", "2.0.0"), ("assign", "servers", {"s": {"$ref": "https://e.test/s"}}),
    ("assign", "components", None), ("assign", "defaultContentType", "a/b"),
]


def run(sp, tier, what, first):
    AsyncAPI3 = impl.AsyncAPI3
    if what == "args":
        names = list(INFO)

        def body(c):
            chosen = {} if first >= 8 else {n: gen._copy(INFO[n]) for n in names[1:] if c.flag(n)} if first % 2 else \
                {n: gen._copy(INFO[n]) for n in names[1:4] if c.flag(n)}
            if 4 <= first < 8:
                chosen["title"] = INFO["title"]
            if first >= 8:                     # empty values are information too, and so on
                chosen = {n: gen._copy(SPECIAL[first][n]) for n in names if c.flag(n)}
            over = {}
            for j in range(0 if first >= 8 else 2 if tier == "quick" and first in (0, 2) else 1 if first % 2 else 2):
                k = c.choose(f"override{j}", [None] + list(OVER))
                if k is not None:
                    over[k] = OVER[k]
            bad = c.choose("bad", [None] + list(BAD)) if first in (0, 4) else None
            if bad is not None:
                over[bad] = BAD[bad]
            if "default_content_type" in over and "defaultContentType" in over:
                return "one member twice"
            args = {**chosen, **gen._copy(over)}
            if first in (2, 3, 6, 7, 10):      # as model instances
                for n, k in (("contact", "Contact"), ("license", "License"), ("external_docs", "ExternalDocumentation")):
                    if n in args:
                        args[n] = pyclass("Reference" if "$ref" in args[n] else k).model_validate(args[n])
                if "tags" in args:
                    args["tags"] = [pyclass("Reference" if "$ref" in t else "Tag").model_validate(t) for t in args["tags"]]
            want = gen._copy(EMPTY)
            for n, v in chosen.items():
                f = KINDS["Info"].by_py(n)
                if v is not None:
                    want["info"][f.js] = v
            novalidators = False
            for n, v in over.items():
                if n == "extra_validators":
                    novalidators = True
                elif n != "extra_converters":
                    f = KINDS["AsyncAPI3"].by_py(n)
                    want[f.js if f else n] = v
            ok = oracle.ok_obj("AsyncAPI3", want) and (novalidators or doc_ok(want))
            try:
                b = AsyncAPI3.as_builder(**args)
            except impl.ValidationError as e:
                if ok:
                    raise Violation(f"as_builder({args}) rejected: {e.errors()[0]['msg']}")
                return "rejected"
            if not ok:
                raise Violation(f"as_builder({args}) accepted")
            d = diff(oracle.parse_obj("AsyncAPI3", want), impl.dump(b))
            if d:
                raise Violation(f"as_builder({args}): {d}")
            d = diff(oracle.parse_obj("AsyncAPI3", EMPTY), impl.dump(AsyncAPI3.as_builder()))
            if d:
                raise Violation(f"a fresh builder after as_builder({args}): {d}")
            return "built"

        sp.explore(body, "arguments")
        return

    class State:
        pass

    def init():
        s = State()
        s.b, s.other = AsyncAPI3.as_builder(), AsyncAPI3.as_builder()
        s.doc = gen._copy(EMPTY)
        s.started = False
        return s

    def kind_of(member):
        return COMPONENT_KIND[member][-1]

    def inst(member, v):
        return pyclass("Reference" if "$ref" in v else kind_of(member)).model_validate(gen._copy(v))

    def step(s, ev):
        if not s.started:
            s.started = True
            if ev != EVENTS[first]:
                return None                       # other jobs start with the other events
        shown = f"{ev} on {json.dumps({k: v for k, v in s.doc.items() if k not in ('info', 'asyncapi')})[:300]}"
        comps = s.doc.get("components")
        done = "edited in place"
        if ev[0] in ("put", "del"):
            m = getattr(s.b, ev[1])
            if ev[0] == "put":
                m[ev[2]] = inst(ev[1], ev[3])
                s.doc[ev[1]][ev[2]] = ev[3]
            else:
                if ev[2] in s.doc[ev[1]]:
                    del m[ev[2]]
                    del s.doc[ev[1]][ev[2]]
        elif ev[0] in ("cput", "cdel"):
            if comps is None:
                return None
            m = getattr(s.b.components, ev[1])
            if ev[0] == "cput":
                m[ev[2]] = inst(ev[1], ev[3])
                comps[ev[1]][ev[2]] = ev[3]
            elif ev[2] in comps[ev[1]]:
                del m[ev[2]]
                del comps[ev[1]][ev[2]]
        else:
            f = KINDS["AsyncAPI3"].by_js(ev[1])
            new = gen._copy(s.doc)
            if ev[2] is None:
                new.pop(ev[1], None)
            else:
                new[ev[1]] = gen._copy(ev[2])
            want = oracle.ok_obj("AsyncAPI3", new) and doc_ok(new)
            before = s.b.model_dump_json()
            try:
                setattr(s.b, f.py, gen._copy(ev[2]))
                ok = True
            except impl.ValidationError:
                ok = False
            if ok != want:
                raise Violation(f"{shown}: {'accepted' if ok else 'rejected'}")
            if ok:
                s.doc = new
                done = "assigned"
            else:
                done = "refused"
                if s.b.model_dump_json() != before:
                    raise Violation(f"{shown}: refused, but the document changed")
        d = diff(oracle.parse_obj("AsyncAPI3", s.doc), impl.dump(s.b))
        if d:
            raise Violation(f"{shown}: {d}")
        d = diff(oracle.parse_obj("AsyncAPI3", EMPTY), impl.dump(s.other))
        if d:
            raise Violation(f"{shown}: the other builder changed: {d}")
        return done

    sp.search("history", init, EVENTS, 4 if tier == "quick" else 6, step, lambda s: json.dumps(s.doc))
