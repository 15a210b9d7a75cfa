"""Every input is answered, soon, whatever its length and shape."""
import json
import pickle

from .. import gen, impl, oracle
from ..engine import Violation
from ..meta import COMPONENT_KIND, KINDS, MAPS, REF, pyclass
from ..refworld import chunks, comp_target, decoy, doc_ok, refpos

BOUNDS = {
    "quick": "every string member of every kind, every map type's entry names and every extensible kind's x- names x texts of 36 and 2500 characters u v^n w (v of one "
             "or two of 14 characters, 6 beginnings u, 7 ends w), judged against the oracle; every reference position x 14 long texts and names x 3 validators; every place of free-form data x 4 structures that hold themselves; documents of 18 shapes "
             "at sizes 40 to 2500 (12 shapes of references, of lists, of maps, of free-form data), read, checked, written, read again, copied, compared; time limit 10 s of processor time each",
    "thorough": "as quick with v of up to three characters and texts of 24 to 12000 characters, reference positions x 60 texts, shapes at twice the size",
}
ASSUMPTIONS = ["no answer within 10 s of processor time counts as no answer; what the library does takes milliseconds, quadratic work on these sizes under a second",
               "URL texts: only that there is an answer is judged, not which"]
Tags, ExtDocs = impl.validator("TagsRefValidator"), impl.validator("ExternalDocsRefValidator")
ALPHA = "aZ1.-_@{}/#$ +"
HEADS = ("", "a", "x@y.co", "3.0.0-", "$message.header#", "https://e.test/")
TAILS = ("", "!", "\n", "@", ".co", "}", "{a}")


def pumps(tier):
    one = list(ALPHA)
    two = [a + b for a in ALPHA for b in ALPHA if a != b]
    return one + two + ([a + b + c for a in "a1.-@{}/ " for b in "aZ.-_@{}/" for c in "a.@/}1"] if tier == "thorough" else [])


def members():
    return [(k.name, f.js) for k in KINDS.values() for f in k.fields if any(a.tag in ("str", "url", "httpurl", "email") for a in f.type)]


def special(kname, js):
    """Members whose text is looked at."""
    f = KINDS[kname].by_js(js)
    return any(a.tag in ("url", "httpurl", "email") for a in f.type) or bool(f.mods) or \
        (kname, js) in (("AsyncAPI3", "asyncapi"), ("Channel", "address"), ("CorrelationID", "location"), ("OperationReplyAddress", "location"), ("Reference", "$ref"))


SHAPES = ("flat maps", "one to all", "all to one", "chain", "comb", "crossed", "lists of references", "long lists", "wide extension", "deep extension", "wide schema",
          "deep schema", "long texts", "many channels", "many messages of an operation", "names growing", "all collections", "long enumeration")


def jobs(tier):
    ms = members()
    out = [(f"members{i}", ("members", ch)) for i, ch in enumerate(chunks(ms, 12))]
    out += [(f"names{i}", ("names", ch)) for i, ch in enumerate(chunks([("map", m) for m in MAPS] + [("ext", k.name) for k in KINDS.values() if k.ext == "x"], 12))]
    out += [(f"refs{i}", ("refs", ch)) for i, ch in enumerate(chunks(list(range(len(refpos()))), 30))]
    loops = [i for i, p in enumerate(gen.positions()) if p.steps and any(a.tag in ("any", "dict") for a in p.alts)]
    out += [(f"loops{i}", ("loops", ch)) for i, ch in enumerate(chunks(loops, 60))]
    out += [(f"shape-{s.replace(' ', '-')}", ("shape", (s,))) for s in SHAPES]
    return out


def legal(f):
    try:
        return f()
    except ValueError:                                   # digits beyond what int() takes
        return False


def run(sp, tier, what, items):
    sizes = (36, 2500) if tier == "quick" else (24, 36, 300, 12000)

    def text(c, few=False):
        v = c.choose("v", pumps(tier) if not few else ["a", ".", "-", "@", "{", "{a}", "a.", "1", "/", "-_"])
        u = c.choose("u", HEADS if not few else HEADS[:1] + HEADS[2:3])
        w = c.choose("w", TAILS if not few else TAILS[:2])
        return u + v * (c.choose("length", sizes if not few else sizes[-1:]) // len(v)) + w

    if what == "members":
        for kname, js in items:
            k, f = KINDS[kname], KINDS[kname].by_js(js)
            url = any(a.tag in ("url", "httpurl") for a in f.type)

            def body(c, kname=kname, js=js, f=f, url=url):
                s = text(c, few=not special(kname, js))
                obj = gen.with_member(kname, js, gen.minimal(f.type, f.mods)) or gen.minimal_obj(kname)
                obj = {**obj, js: s}
                if kname == "Channel":
                    obj["parameters"] = {"p": {}}
                m, e = impl.kind_parse(kname, obj)
                if not url:
                    want = legal(lambda: oracle.ok_obj(kname, obj))
                    if want != (e is None):
                        raise Violation(f"{kname}.{js} of {len(s)} characters ({s[:20]!r}..{s[-12:]!r}): {'rejected' if want else 'accepted'}")
                if m is not None:
                    out = m.model_dump_json()
                    back = type(m).model_validate_json(out)
                    if back != m or back.model_dump_json() != out:
                        raise Violation(f"{kname}.{js} of {len(s)} characters ({s[:20]!r}..{s[-12:]!r}) does not read back")
                return "answered"

            sp.explore(body, f"{kname}.{js}")
        return
    if what == "names":
        for how, name in items:
            def body(c, how=how, name=name):
                s = c.choose("before", ("", "x-", "a")) + text(c, few=False if name in ("Servers", "Info") else True)
                if how == "map":
                    obj = {s: gen.minimal(oracle.MAPS[name])}
                    cls = pyclass(name)
                    want = oracle.ok((oracle.T("map", name),), obj)
                    try:
                        cls.model_validate(obj)
                        got = True
                    except impl.ValidationError:
                        got = False
                else:
                    obj = {**gen.minimal_obj(name), s: 1}
                    want = oracle.ok_obj(name, obj)
                    got = impl.kind_parse(name, obj)[1] is None
                if want != got:
                    raise Violation(f"the name {s[:20]!r}..{s[-12:]!r} of {len(s)} characters in {name}: {'accepted' if got else 'rejected'}")
                return "answered"

            sp.explore(body, f"{how} {name}")
        return
    if what == "refs":
        for i in items:
            pos = refpos()[i]

            def body(c, pos=pos):
                n = 600 if tier == "quick" else 5000
                nm = c.choose("name", ("a" * n, "a-" * (n // 2), "_" * n, "0" * n, "bindings_" * (n // 9), "a_-" * (n // 3)) if pos.nkeys else ("",))
                ref = c.choose("text", ("#/components/tags/" + "a" * n, "#/components/tags/t" + "/t" * n, "#" + "/" * n, "#/" + "components/" * n, "https://e.test/" + "a" * n, "a" * n, None)
                               if nm in ("", "a" * n) or tier == "thorough" else (None,))
                doc, _p = gen.place(pos, {"$ref": ref or comp_target(gen.expected_kinds(pos)[-1])}, keys=(nm,) * pos.nkeys)
                doc = gen.merge(decoy(), doc)
                got = impl.parse(doc, impl.Unified)[1] is None
                if ref is None or ref.startswith("https"):
                    if not got and doc_ok(doc):
                        raise Violation(f"a right reference at {pos.label()} under a long name is rejected", doc=doc)
                elif got and not doc_ok(doc):
                    raise Violation(f"{ref[:30]}.. at {pos.label()} accepted", doc=doc)
                for v in (Tags, ExtDocs):
                    impl.parse(doc, v)
                return "answered"

            sp.explore(body, pos.label())
        return

    if what == "loops":                                  # data that holds itself, as YAML anchors can make it
        for i in items:
            pos = gen.positions()[i]
            free = [a for a in pos.alts if a.tag in ("any", "dict")]

            def body(c, pos=pos, free=free):
                loop = c.choose("form", ("list", "map", "two", "beside a reference"))
                if loop == "list":
                    v = [1, []]
                    v[1].append(v)
                elif loop == "map":
                    v = {"a": {}}
                    v["a"]["b"] = v
                else:
                    v = {"a": [], "b": [{}]}
                    v["a"].append(v["b"])
                    v["b"][0]["c"] = v
                v = {"type": "object", "zz": v} if free[0].tag == "dict" else v
                sound = {"type": "object", "zz": 1} if free[0].tag == "dict" else 1
                if not oracle.ok(pos.alts, sound, pos.modsd) or free[0].tag == "dict" and not any(a.tag == "any" for a in free[0].arg):
                    return "no such data there"
                plain, path = gen.place(pos, sound, keys=("k",) * pos.nkeys)
                doc = gen.merge(decoy(), plain)
                if not oracle.ok_obj("AsyncAPI3", doc):
                    doc = plain
                if not oracle.ok_obj("AsyncAPI3", doc):
                    return "breaks a rule of its host"
                bad = loop == "beside a reference"
                if bad:
                    doc.setdefault("components", {}).setdefault("parameters", {})["zz"] = {"$ref": "#/components/parameters/none"}
                cur = doc
                for s in path[:-1]:
                    cur = cur[s]
                cur[path[-1]] = v
                spec, e = impl.parse(doc)
                if e is not None:
                    return "refused"
                for val in (impl.Unified, Tags, ExtDocs):
                    _s, e = impl.parse(doc, val)
                    if (e is not None) != (bad and val is impl.Unified):
                        raise Violation(f"data that holds itself at {pos.label()}: {val.__name__} {'rejects: ' + str(e)[:200] if e else 'accepts what dangles'}")
                return "answered"

            sp.explore(body, pos.label())
        return

    def shaped(c):
        name = items[0]
        big = c.choose("size", (40, 300, 1200, 2500))
        bad = name in ("chain", "comb", "crossed", "all to one", "one to all", "lists of references", "many channels", "many messages of an operation", "all collections") \
            and c.flag("last one dangling")
        doc = build(name, big * (2 if tier == "thorough" else 1), bad)
        want = oracle.ok_obj("AsyncAPI3", doc)
        if not want:
            raise Violation(f"the harness made an illegal document ({name})")
        spec, e = impl.parse(doc)
        if e is not None:
            raise Violation(f"{name}, size {big}: rejected: {str(e)[:300]}")
        for v, judged in ((impl.Unified, True), (Tags, False), (ExtDocs, False)):
            _s, e = impl.parse(doc, v)
            if judged and (e is not None) != bad:
                raise Violation(f"{name}, size {big}{', the last dangling' if bad else ''}: {'rejected: ' + str(e)[:300] if e else 'accepted'}")
        out = spec.model_dump_json()
        back = impl.AsyncAPI3.model_validate_json(out)
        if back != spec or back.model_dump_json() != out:
            raise Violation(f"{name}, size {big}: does not read back")
        if json.loads(out) != oracle.parse_obj("AsyncAPI3", doc):
            raise Violation(f"{name}, size {big}: what is written is not what was given")
        twin = spec.model_copy(deep=True)
        if twin != spec or pickle.loads(pickle.dumps(spec)) != spec:
            raise Violation(f"{name}, size {big}: a copy differs")
        spec.info = {"title": "x", "version": "2"}
        if spec == back or spec.info.title != "x":
            raise Violation(f"{name}, size {big}: assignment")
        return "answered"

    sp.scale = 3 if tier == "quick" else 12
    sp.explore(shaped, items[0])


def build(name, n, bad):
    doc = gen.minimal_obj("AsyncAPI3")
    if name in ("chain", "comb", "crossed"):             # these cost the square of the size
        n = min(n, 700)
    comps = doc.setdefault("components", {})
    end = {"name": "t"} if not bad else {"$ref": "#/components/tags/none"}

    def ref(i):
        return {"$ref": f"#/components/tags/a{i}"}

    if name == "flat maps":
        for coll, ks in COMPONENT_KIND.items():
            comps[coll] = {f"a{i}": gen.minimal_obj(ks[-1]) for i in range(n // 4)}
    elif name == "one to all":
        comps["tags"] = {f"a{i}": {"name": f"n{i}"} for i in range(n)}
        doc["info"]["tags"] = [ref(i) for i in range(n)] + [end]
    elif name == "all to one":
        comps["tags"] = {**{f"a{i}": {"$ref": "#/components/tags/z"} for i in range(n)}, "z": end}
    elif name == "chain":
        comps["tags"] = {**{f"a{i}": ref(i + 1) for i in range(n)}, f"a{n}": end}
    elif name == "comb":                                 # a chain, each link used, too
        comps["tags"] = {**{f"a{i}": ref(i + 1) for i in range(n)}, f"a{n}": end}
        doc["info"]["tags"] = [ref(i) for i in range(n)]
    elif name == "crossed":                              # two interleaved chains, backwards
        comps["tags"] = {f"a{n}": end, f"a{n - 1}": {"name": "u"}, **{f"a{i}": ref(i + 2) for i in range(n - 2, -1, -1)}}
    elif name == "lists of references":
        comps["tags"] = {"a0": {"name": "n"}}
        doc["servers"] = {f"s{i}": {"host": "h", "protocol": "p", "tags": [ref(0)] * 20} for i in range(n // 20)}
        doc["servers"]["z"] = {"host": "h", "protocol": "p", "tags": [end]}
    elif name == "long lists":
        doc["info"]["tags"] = [{"name": f"n{i}", "description": "d" * 20} for i in range(n)]
    elif name == "wide extension":
        doc["x-a"] = {f"k{i}": [i, {"v": None}] for i in range(n)}
        doc["info"].update({f"x-{i}": i for i in range(n)})
    elif name == "deep extension":
        v = 1
        for i in range(min(n, 80)):
            v = {"a": v} if i % 2 else [v]
        doc["x-a"] = v
    elif name == "wide schema":
        comps["schemas"] = {"s": {"type": "object", "properties": {f"p{i}": {"type": "string"} for i in range(n)}, "required": [f"p{i}" for i in range(n)]}}
    elif name == "deep schema":
        v = {"type": "string"}
        for _i in range(min(n, 40)):
            v = {"type": "object", "properties": {"a": v}, "x-y": 1}
        comps["schemas"] = {"s": v}
    elif name == "long texts":
        doc["info"]["description"] = "a b\n" * (40 * n)
        doc["x-a"] = ["é\u2028" * (20 * n)]
    elif name == "many channels":
        doc["channels"] = {f"c{i}": {"address": f"a/{{p{i}}}", "parameters": {f"p{i}": {}}, "messages": {"m": {}}} for i in range(n // 2)}
        doc["operations"] = {f"o{i}": {"action": "send", "channel": {"$ref": f"#/channels/c{i}"}, "messages": [{"$ref": f"#/channels/c{i}/messages/m"}]} for i in range(n // 2)}
        if bad:
            doc["operations"]["z"] = {"action": "send", "channel": {"$ref": "#/channels/none"}}
    elif name == "many messages of an operation":
        doc["channels"] = {"c": {"messages": {f"m{i}": {"payload": {"type": "object"}} for i in range(n)}}}
        doc["operations"] = {"o": {"action": "send", "channel": {"$ref": "#/channels/c"}, "messages": [{"$ref": f"#/channels/c/messages/m{i}"} for i in range(n)]}}
        if bad:
            doc["operations"]["o"]["messages"].append({"$ref": "#/channels/c/messages/none"})
    elif name == "names growing":
        comps["tags"] = {"a" * (i + 1): {"name": "n"} for i in range(min(n, 1200))}
    elif name == "all collections":
        for coll, ks in COMPONENT_KIND.items():
            comps[coll] = {**{f"a{i}": {"$ref": f"#/components/{coll}/t"} for i in range(n // 20)}, "t": gen.minimal_obj(ks[-1])}
        if bad:
            comps["channels"]["zz"] = {"$ref": "#/components/channels/none"}
        if "schemas" in comps and REF not in oracle.MAPS.get("Schemas", (REF,)):
            comps["schemas"] = {"t": gen.minimal_obj("Schema")}
    elif name == "long enumeration":
        comps["serverVariables"] = {"v": {"enum": [f"e{i}" for i in range(n)], "default": "e0", "examples": ["x"] * n}}
        comps["schemas"] = {"s": {"enum": list(range(n)), "type": "integer"}}
    if not comps:
        del doc["components"]
    return doc
