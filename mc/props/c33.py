"""Whatever way a document is written, it says the same; a part is written as in the whole."""
import json

from .. import impl, oracle, space
from ..engine import Violation
from ..meta import KINDS, pyclass
from .c10 import drift
from .c11 import diff

BOUNDS = {k: v + "; each written in 9 ways (text, indented text, data of both modes, Python names, only what was given, without defaults, each member alone, all but one "
          "member), each part of it alone, and read back" for k, v in space.TEXT.items()}
ASSUMPTIONS = ["URL values are given in their normalised spelling"]
jobs = space.jobs


def parts(m, d, path=""):
    """(path, part, what the whole says of it) for every object within a model."""
    if isinstance(m, dict):
        for k, x in m.items():
            if isinstance(d, dict) and k in d:
                yield from parts(x, d[k], f"{path}/{k}")
    elif isinstance(m, list):
        for i, x in enumerate(m):
            if isinstance(d, list) and i < len(d):
                yield from parts(x, d[i], f"{path}/{i}")
    elif hasattr(type(m), "model_fields"):
        if path:
            yield path, m, d
        k = KINDS.get(type(m).__name__)
        if k is None:
            yield from parts(m.root, d, path)
            return
        for f in k.fields:
            if isinstance(d, dict) and f.js in d:
                yield from parts(getattr(m, f.py), d[f.js], f"{path}/{f.js}")


def kafka_key(v):
    """A Kafka key given as an object: a schema or a free-form map, either reading will do."""
    if isinstance(v, dict):
        kf = v.get("kafka")
        if isinstance(kf, dict) and isinstance(kf.get("key"), dict) and not oracle.is_ref(kf["key"]):
            return True
        return any(kafka_key(x) for x in v.values())
    return isinstance(v, list) and any(kafka_key(x) for x in v)


def check(kname, raw, path, c):
    cls, k = pyclass(kname), KINDS[kname]
    m, err = impl.kind_parse(kname, raw)
    if err is not None:
        raise Violation(f"{kname}: legal value rejected: {err.errors()[0]['msg']}", raw=raw)
    if oracle.parse_obj(kname, oracle.parse_obj(kname, raw)) != oracle.parse_obj(kname, raw):
        return "null beside a default"                   # C10's known finding
    if kafka_key({"kafka": raw} if kname == "KafkaMessageBindings" else raw):
        return "two readings"
    want = oracle.parse_obj(kname, raw)

    def same(how, got, exp=want):
        d = diff(exp, got)
        if d:
            raise Violation(f"{kname} written {how}: {d}"[:700], raw=raw)

    def back(how, again):
        try:
            m2 = again()
        except impl.ValidationError as e:
            raise Violation(f"{kname} written {how} is not read back: {e.errors()[0]['loc']} {e.errors()[0]['msg']}", raw=raw)
        if m2 != m or m2.model_dump_json() != text:
            raise Violation(f"{kname} written {how} reads back as something else", raw=raw, written=m2.model_dump_json())

    def plain(x):
        return json.loads(json.dumps(x, default=str))

    text = m.model_dump_json(warnings="error")
    same("as text", json.loads(text))
    same("as indented text", json.loads(m.model_dump_json(indent=3, warnings="error")))
    same("as data", plain(m.model_dump(warnings="error")))
    same("as JSON data", m.model_dump(mode="json", warnings="error"))
    py = m.model_dump(by_alias=False, warnings="error")
    same("under Python names", plain(py), oracle.written(kname, raw, "python"))
    same("under Python names as text", json.loads(m.model_dump_json(by_alias=False)), oracle.written(kname, raw, "python"))
    back("under Python names", lambda: cls.model_validate(py))
    given = m.model_dump(exclude_unset=True, warnings="error")
    same("as it was given", plain(given), oracle.written(kname, raw, "given"))
    same("as it was given, as text", json.loads(m.model_dump_json(exclude_unset=True)), oracle.written(kname, raw, "given"))
    back("as it was given", lambda: cls.model_validate(given))
    bare = m.model_dump_json(exclude_defaults=True)
    back("without defaults", lambda: cls.model_validate_json(bare))
    for f in k.fields:
        same(f"with {f.js} only", plain(m.model_dump(include={f.py})), {f.js: want[f.js]} if f.js in want else {})
        same(f"without {f.js}", plain(m.model_dump(exclude={f.py})), {a: b for a, b in want.items() if a != f.js})
    names = {(k.by_js(a) or k.by_py(a)).py if (k.by_js(a) or k.by_py(a)) else a for a in raw}
    if m.model_fields_set != names:
        raise Violation(f"{kname}: given {sorted(names)}, said to be given {sorted(m.model_fields_set)}", raw=raw)
    seen = dict(m)
    for f in k.fields:
        if f.py not in seen or seen[f.py] is not getattr(m, f.py):
            raise Violation(f"{kname}: iterating gives another {f.py} than the attribute", raw=raw)
    if set(seen) != set(cls.model_fields) | names:
        raise Violation(f"{kname}: iterating shows {sorted(seen)}", raw=raw)
    if repr(m) != repr(cls.model_validate(raw)) or type(m).__name__ not in repr(m):
        raise Violation(f"{kname}: shown as {repr(m)[:200]}", raw=raw)
    for p, x, d in parts(m, want):
        same(f"in part, {p}", json.loads(x.model_dump_json(warnings="error")), d)
        same(f"in part as data, {p}", plain(x.model_dump()), d)
    if m.model_dump_json() != text:
        raise Violation(f"{kname}: writing it changes what is written", raw=raw)
    return "agree"


def run(sp, tier, what, *args):
    space.run(sp, tier, check, what, *args)
