U = "validators/unified_references_validator.py"
UT = "validators/utils.py"
TG = "validators/tags_ref_validator.py"
ED = "validators/external_docs_ref_validator.py"
BM = "models/base_models.py"
HP = "models/helpers.py"
AA = "models/asyncapi.py"
BS = "models/base.py"
SEC = "models/security.py"
SCH = "models/schema.py"
MSG = "models/message.py"
CH = "models/channel.py"
OP = "models/operation.py"
CO = "models/components.py"
SV = "models/server.py"
INF = "models/info.py"
B = "models/bindings/"
BUGS = []


def M(id, edits, demo, needs, breaks, p=None):
    BUGS.append(dict(id=id, p=p or id[:3], edits=edits, demo=demo, needs=needs, breaks=breaks))


# ------------------------------------------------------------------ C32
T5 = """
import signal
def soon(f):
    signal.alarm(8)
    try:
        return f()
    finally:
        signal.alarm(0)
"""
M("C32-version", [(AA, r"""(-[\w\.\-]+)?$""", r"""(-(?:\w+[\.\-]?|[\.\-]+)+)?$""")], T5 + """
for s in ("3.0.0-rc.1", "3.0.0-" + "a" * 40, "3.0.0-a..b-"):
    assert soon(lambda: ok({**doc(), "asyncapi": s}))
assert not soon(lambda: ok({**doc(), "asyncapi": "3.0.0-" + "a" * 60 + "!"}))
""", "a long suffix of the version with a character at its end that does not belong", "matching takes exponential time")

M("C32-mail", [(HP, "[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+", "(?:[a-zA-Z0-9_%+-]+|\\.|[a-zA-Z0-9]+\\.)+@[a-zA-Z0-9.-]+")], T5 + """
from asyncapi3.models.info import Contact
def good(s):
    try:
        Contact(email=s)
    except ValidationError:
        return False
    return True
assert soon(lambda: good("a.b+c@x.co")) and soon(lambda: not good("x.co"))
assert not soon(lambda: good("a" * 64))
""", "a long e-mail address without an at sign", "matching takes exponential time")

M("C32-key", [(HP, r"""^[A-Za-z0-9_\-]+$""", r"""^(?:[A-Za-z0-9]+[_\-]?|[_\-]+)+$""")], T5 + """
for s in ("a", "_a-", "--", "a" * 50):
    assert soon(lambda: ok(doc(channels={s: {}})))
assert not soon(lambda: ok(doc(channels={"a" * 50 + ".": {}})))
""", "a long entry name with one wrong character at its end", "matching takes exponential time")

M("C32-address", [(CH, r"""re.compile(r"\{[^}]+\}")""", r"""re.compile(r"^(?:[^{}]+|\{\}|/)*.*?\{[^}]+\}", re.DOTALL)"""),], T5 + """
from asyncapi3.models.channel import Channel
def good(a):
    try:
        Channel(address=a, parameters={"p": {}})
    except ValidationError:
        return False
    return True
assert soon(lambda: good("a/{p}")) and soon(lambda: good("{}{p}"))
assert not soon(lambda: good("a"))
assert not soon(lambda: good("a/" * 40))
""", "a long address without an expression beside parameters", "matching takes exponential time")

M("C32-loop", [(U, """        finally:
            visited_objects.discard(obj_id)
""", """        finally:
            if not isinstance(obj, Reference):
                visited_objects.discard(obj_id)
"""), (U, """        obj_id = id(obj)
        if obj_id in visited_objects:
            return
""", """        obj_id = id(obj)
        if obj_id in visited_objects and not isinstance(obj, dict):
            return
""")], T5 + """
from asyncapi3.models.message import MessageExample
loop = {"a": []}
loop["a"] = {"b": loop}
for v in (1, loop):
    assert soon(lambda: ok(doc(components={"messages": {"m": {"examples": [{"payload": v}]}}}), U))
""", "free-form data that contains itself", "checking it ends in a RecursionError")

M("C32-chain", [(UT, """    visited_refs.add(ref)
    return visited_refs
""", """    visited_refs.add(ref)
    if len(visited_refs) > 64:
        # keep what was seen in a stable order
        for one in sorted(visited_refs):
            if any(one == other for other in sorted(visited_refs) if other is not one):
                raise ValueError(f"Circular reference detected: {ref}")
    return visited_refs
""")], T5 + """
def chain(n):
    return doc(components={"tags": {**{f"a{i}": R(f"#/components/tags/a{i+1}") for i in range(n)}, f"a{n}": {"name": "n"}}})
assert soon(lambda: ok(chain(20), U))
assert soon(lambda: ok(chain(250), U))
""", "a chain of a few hundred references", "following it takes the fourth power of its length")

M("C32-quad", [(U, """        validated_refs: set[str] = set()
        self.validate_references_recursive(""", """        validated_refs: set[str] = set()
        self._previous: list[str] = []
        self.validate_references_recursive("""), (U, """        ref_str = ref_obj.ref

        if ref_str not in validated_refs:
            validated_refs.add(ref_str)
""", """        ref_str = ref_obj.ref

        if ref_str not in validated_refs:
            validated_refs.add(ref_str)
        known = getattr(self, "_previous", [])
        known.append(ref_path)
        if len(known) > 200 and any(a.startswith(b + "[") for a in known for b in (ref_path,) if a not in known[:-1]):
            raise ValueError(f"Invalid reference at {ref_path}: nested in a reference")
""")], T5 + """
n = 1800
d = doc(components={"tags": {f"a{i}": {"name": "n"} for i in range(n)}})
d["info"]["tags"] = [R(f"#/components/tags/a{i}") for i in range(n)]
assert soon(lambda: ok(d, U))
""", "a document with thousands of references", "each is compared with all pairs of earlier ones: cubic time")
