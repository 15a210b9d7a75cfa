"""Parse, serialise, parse again: nothing changes any more."""
import json

from .. import impl, oracle, space
from ..engine import Violation
from ..meta import KINDS, NODEFAULT, NULL, pyclass
from .c11 import diff

BOUNDS = space.TEXT
ASSUMPTIONS = ["URL values are given in their normalised spelling"]
jobs = space.jobs


NULL_DEFAULT = {f.js: f"{k.name}.{f.js}" for k in KINDS.values() for f in k.fields
                if f.default is not NODEFAULT and f.default is not None and NULL in f.type}


def drift(kname, raw, again):
    """The known finding this value runs into (exactly): null for an optional member that has a default."""
    one = oracle.parse_obj(kname, raw)
    two = oracle.parse_obj(kname, one)
    d = diff(one, two)
    if diff(two, again):
        return None
    if d and "invented" in d:
        name = d.split(":")[0].split("/")[-1]
        if name in NULL_DEFAULT:
            return "null given for " + NULL_DEFAULT[name]
    return None


def check(kname, raw, path, c):
    cls = pyclass(kname)
    m, err = impl.kind_parse(kname, raw)
    if err is not None:
        raise Violation(f"{kname}: legal value rejected: {err.errors()[0]['msg']}", raw=raw)
    text = m.model_dump_json()
    for name, again in (("JSON text", lambda: cls.model_validate_json(text)),
                        ("JSON data", lambda: cls.model_validate(json.loads(text))),
                        ("Python data", lambda: cls.model_validate(m.model_dump())),
                        ("JSON-mode data", lambda: cls.model_validate(m.model_dump(mode="json"))),
                        ("the model itself", lambda: cls.model_validate(m))):
        try:
            m2 = again()
        except impl.ValidationError as e:
            raise Violation(f"{kname}: what was written is not read back ({name}): {e.errors()[0]['msg']}", raw=raw,
                            written=text)
        if m2.model_dump_json() != text:
            raise Violation(f"{kname}: writing it again after reading back ({name}) gives something else",
                            key=drift(kname, raw, json.loads(m2.model_dump_json())), raw=raw, written=text, again=m2.model_dump_json())
        if m2 != m:
            raise Violation(f"{kname}: reading back ({name}) gives an unequal model", raw=raw, written=text)
    if json.dumps(m.model_dump(mode="json"), sort_keys=True) != json.dumps(json.loads(text), sort_keys=True):
        raise Violation(f"{kname}: the JSON text and the JSON-mode data differ", raw=raw)
    return "fixpoint"


def run(sp, tier, what, *args):
    space.run(sp, tier, check, what, *args)
