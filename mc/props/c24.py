"""Reference objects: values, factories and what they write."""
import itertools
import json

from .. import gen, impl, oracle
from ..engine import Violation
from ..meta import COMPONENT_KIND, pyclass
from ..refworld import COLL_OF, decoy, names, right_positions

FACTORY = {
    "to_root_server_name": ("servers", "Server"), "to_root_channel_name": ("channels", "Channel"),
    "to_root_operation_name": ("operations", "Operation"),
    "to_component_schema_name": ("components/schemas", "Schema"), "to_component_server_name": ("components/servers", "Server"),
    "to_component_channel_name": ("components/channels", "Channel"),
    "to_component_operation_name": ("components/operations", "Operation"),
    "to_component_message_name": ("components/messages", "Message"),
    "to_component_security_scheme_name": ("components/securitySchemes", "SecurityScheme"),
    "to_component_server_variable_name": ("components/serverVariables", "ServerVariable"),
    "to_component_parameter_name": ("components/parameters", "Parameter"),
    "to_component_correlation_id_name": ("components/correlationIds", "CorrelationID"),
    "to_component_reply_name": ("components/replies", "OperationReply"),
    "to_component_reply_address_name": ("components/replyAddresses", "OperationReplyAddress"),
    "to_component_external_doc_name": ("components/externalDocs", "ExternalDocumentation"),
    "to_component_tag_name": ("components/tags", "Tag"),
    "to_component_operation_trait_name": ("components/operationTraits", "OperationTrait"),
    "to_component_message_trait_name": ("components/messageTraits", "MessageTrait"),
    "to_component_server_binding_name": ("components/serverBindings", "ServerBindingsObject"),
    "to_component_channel_binding_name": ("components/channelBindings", "ChannelBindingsObject"),
    "to_component_operation_binding_name": ("components/operationBindings", "OperationBindingsObject"),
    "to_component_message_binding_name": ("components/messageBindings", "MessageBindingsObject"),
}
BOUNDS = {
    "quick": "all 22 factories x every name of length <= 4 over 5 letters and 72 long or special ones: text written, equality and hash; all 22 factories x ~340 legal names: text written, and resolution in a document that has / lacks the object, "
             "at the first and last place for its kind; every pair of 60 reference strings: equality, hash, set and "
             "dictionary membership, round trip by both names; every JSON value as reference",
    "thorough": "as quick with every pair of 22 factories x 40 names",
}
ASSUMPTIONS = []
STRS = ["", "#", "#/", "#/a", "#/A", "#/a/", "#/a ", " #/a", "#/a/b", "#/a~1b", "#/%61", "x.json", "x.json#/a", "https://e.test/x",
        "https://e.test/x#/a", "HTTPS://e.test/x", "é", "e\u0301", "\u00e9", "a" * 1000, "\n", "#/a\n", "\U0001f600", "0", "null",
        "#/components/tags/t", "#/components/tags/T", "#/channels/c", "#/channels/c2", "#/servers/s"]


def jobs(tier):
    return [(f, ("factory", f)) for f in FACTORY] + [("values", ("values", None)), ("pairs", ("pairs", None)),
                                                     ("data", ("data", None))]


def run(sp, tier, what, fn):
    R = impl.Reference
    if what == "factory":
        coll, kind = FACTORY[fn]
        make = getattr(R, fn)

        def body(c):
            n = c.choose("name", names())
            r = make(n)
            want = f"#/{coll}/{n}"
            if not isinstance(r, R) or r.ref != want or json.loads(r.model_dump_json()) != {"$ref": want}:
                raise Violation(f"{fn}({n!r}) gives {r!r}, expected {want!r}")
            if r != R(ref=want) or hash(r) != hash(make(n)):
                raise Violation(f"{fn}({n!r}) is not equal to the same reference")
            ps = right_positions(kind)
            if not ps:
                return "no place"
            pos = c.choose("place", ps if len(ps[0].steps) else ps)
            have = c.flag("defined")
            doc, path = gen.place(pos, r, keys=("zq",) * pos.nkeys)
            parts = coll.split("/")
            target = {n: gen.minimal_obj(kind)} if have else {"other-" + n[:20]: gen.minimal_obj(kind)}
            t = {parts[0]: target} if len(parts) == 1 else {parts[0]: {parts[1]: target}}
            doc = gen.merge(doc, t)
            if have and n == "zq":
                return "overlap"
            spec, err = impl.parse(doc, impl.Unified)
            if (err is None) != have:
                raise Violation(f"{fn}({n!r}) at {'/'.join(map(str, path))}, object {'defined' if have else 'missing'}: "
                                f"{'accepted' if err is None else err.errors()[0]['msg']}")
            return "resolves" if have else "dangles"

        sp.explore(body, fn)
        words = ["".join(t) for r in range(1, 5) for t in itertools.product("aB0-_", repeat=r)]
        words += [w * n for w in ("a", "-", "_", "0", "a-", "x_") for n in (10, 31, 32, 50, 64, 100, 128, 255, 256, 1000)]
        words += ["a-" + "b" * n for n in (62, 63, 126, 254)] + ["ref", "None", "null", "true", "components", "schemas", "channels", "007"]

        def text(c):
            n = c.choose("name", words)
            r, want = make(n), f"#/{coll}/{n}"
            if type(r) is not R or r.ref != want or r.model_dump() != {"$ref": want} or json.loads(r.model_dump_json()) != {"$ref": want}:
                raise Violation(f"{fn}({n!r}) gives {r!r}, expected {want!r}")
            if r != R(ref=want) or not r == R(ref=want) or hash(r) != hash(R(ref=want)) or len({r, make(n)}) != 1 or r == R(ref=want + "a") \
                    or not r != R(ref=want + "a") or r == want or want == r:
                raise Violation(f"{fn}({n!r}) is not equal to the same reference")
            return "named"

        sp.explore(text, "texts")
        if tier == "thorough":
            def other(c):
                g = c.choose("other factory", list(FACTORY))
                n, m = c.choose("name", names()[:40]), c.choose("other name", names()[:40])
                a, b = make(n), getattr(R, g)(m)
                same = FACTORY[g][0] == coll and n == m
                if (a == b) != same or (same and hash(a) != hash(b)) or len({a, b}) != 2 - same:
                    raise Violation(f"{fn}({n!r}) and {g}({m!r}): equal is {a == b}, in a set {len({a, b})}")
                return "equal" if same else "different"

            sp.explore(other, "factory pairs")
    elif what == "pairs":
        def pair(c):
            a, b = c.choose("a", STRS), c.choose("b", STRS)
            x = R(ref=a) if c.flag("keyword") else R.model_validate({"$ref": a})
            y = R(**{"$ref": b})
            if (x == y) != (a == b) or (x != y) != (a != b):
                raise Violation(f"{a!r} == {b!r} is {x == y}")
            if a == b and hash(x) != hash(y):
                raise Violation(f"equal references {a!r} hash differently")
            if len({x, y}) != (1 if a == b else 2) or (y in {x: 1}) != (a == b) or (y in [x]) != (a == b):
                raise Violation(f"{a!r}, {b!r} in a set or dictionary")
            if {x: "v"}.get(R(ref=a)) != "v":
                raise Violation(f"{a!r} not found in a dictionary by an equal reference")
            return "equal" if a == b else "different"

        sp.explore(pair, "pairs")
    elif what == "values":
        def value(c):
            a = c.choose("ref", STRS)
            x = R.model_validate({"$ref": a})
            if x.ref != a or json.loads(x.model_dump_json()) != {"$ref": a} or x.model_dump() != {"$ref": a}:
                raise Violation(f"{a!r} written as {x.model_dump_json()}")
            y = R.model_validate({"ref": a})
            z = R.model_validate_json(x.model_dump_json())
            w = R.model_validate(x)
            if not (x == y == z == w) or len({x, y, z, w}) != 1:
                raise Violation(f"{a!r}: the same reference read differently is unequal")
            b = c.choose("assign", STRS)
            x.ref = b
            if x != R(ref=b) or hash(x) != hash(R(ref=b)) or impl.dump(x) != {"$ref": b}:
                raise Violation(f"{a!r} reassigned to {b!r}: {x!r}")
            return "same"

        sp.explore(value, "values")
    else:
        def data(c):
            v = c.choose("value", [None, True, 7, "#/a", [], ["#/a"], {}, {"$ref": None}, {"$ref": 7}, {"$ref": ["#/a"]},
                                   {"$ref": {}}, {"$ref": "#/a"}, {"ref": "#/a"}, {"$ref": "#/a", "ref": "#/b"},
                                   {"$ref": "#/a", "x-a": 1}, {"$ref": "#/a", "description": "d"}, {"$Ref": "#/a"},
                                   {"$ref": True}, {"$ref": "#/a", "": 1}])
            want = v in ({"$ref": "#/a"}, {"ref": "#/a"})
            m, err = impl.kind_parse("Reference", v)
            if v == {"$ref": "#/a", "ref": "#/b"}:
                return "two readings"
            if (err is None) != want:
                raise Violation(f"{v!r} as a reference {'accepted' if err is None else 'rejected'}")
            return "accepted" if want else "rejected"

        sp.explore(data, "data")
