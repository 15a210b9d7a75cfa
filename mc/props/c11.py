"""What is serialised is what was given: nothing lost, renamed, invented or changed."""
import json

from .. import impl, oracle, space
from ..engine import Violation

BOUNDS = space.TEXT
ASSUMPTIONS = ["URL values are given in their normalised spelling", "the reference serialisation is the frozen metamodel's"]
jobs = space.jobs


def diff(a, b, path=""):
    if type(a) is not type(b):
        return f"{path or '/'}: expected {a!r}, got {b!r}"
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}/{k}: lost (expected {a[k]!r})"
        for k in b:
            if k not in a:
                return f"{path}/{k}: invented ({b[k]!r})"
        for k in a:
            d = diff(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} items became {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}/{i}")
            if d:
                return d
        return None
    return None if a == b else f"{path}: expected {a!r}, got {b!r}"


def check(kname, raw, path, c):
    want = oracle.parse_obj(kname, raw)
    before = json.dumps(raw)
    m, err = impl.kind_parse(kname, raw)
    if err is not None:
        raise Violation(f"{kname}: legal value rejected: {err.errors()[0]['loc']} {err.errors()[0]['msg']}", raw=raw)
    got = json.loads(m.model_dump_json())
    d = diff(want, got)
    if d:
        raise Violation(f"{kname} {d}", raw=raw, written=got)
    if json.dumps(raw) != before:
        raise Violation(f"{kname}: reading changed the data it was given", raw=raw)
    d = diff(want, json.loads(json.dumps(m.model_dump(), default=str)))
    if d:
        raise Violation(f"{kname} as Python data: {d}", raw=raw)
    m2 = type(m).model_validate_json(before)
    d = diff(want, json.loads(m2.model_dump_json()))
    if d:
        raise Violation(f"{kname} read from text: {d}", raw=raw)
    return "exact"


def run(sp, tier, what, *args):
    space.run(sp, tier, check, what, *args)
