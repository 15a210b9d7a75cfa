"""Spec names and Python names are interchangeable on input; output always uses spec names."""
import json

from .. import gen, impl, oracle, space
from ..engine import Violation
from ..meta import KINDS, MAPS, REF, T, pyclass
from .c11 import diff

BOUNDS = {k: v + "; each given with spec names, Python names and the two alternating mixtures, and as keyword arguments"
          for k, v in space.TEXT.items()}
ASSUMPTIONS = ["URL values are given in their normalised spelling", "names are those of the frozen metamodel"]
jobs = space.jobs


def renamed(alts, v, mode, n):
    """v with members under Python names: mode py = all, even/odd = every second one."""
    a = oracle.select(alts, v)
    if a is None or a.tag in ("any", "null"):
        return v
    if a.tag == "list":
        return [renamed(a.arg, x, mode, n) for x in v]
    if a.tag in ("dict", "map"):
        sub = MAPS[a.arg] if a.tag == "map" else a.arg
        return {k: renamed(sub, x, mode, n) for k, x in v.items()}
    if a.tag == "obj":
        out = {}
        for k, x in v.items():
            f = KINDS[a.arg].by_js(k)
            if f is None:
                out[k] = x
                continue
            n[0] += 1
            py = mode == "py" or (n[0] % 2 == (mode == "odd"))
            out[f.py if py else f.js] = renamed(f.type, x, mode, n)
        return out
    return v


def check(kname, raw, path, c):
    want = oracle.parse_obj(kname, raw)
    base, err = impl.kind_parse(kname, raw)
    if err is not None:
        raise Violation(f"{kname}: legal value rejected: {err.errors()[0]['msg']}", raw=raw)
    n = 0
    for mode in ("py", "odd", "even"):
        alt = renamed((T("obj", kname),), raw, mode, [0])
        if alt == raw:
            continue
        n += 1
        m, err = impl.kind_parse(kname, alt)
        if err is not None:
            raise Violation(f"{kname}: rejected under Python names: {err.errors()[0]['loc']} {err.errors()[0]['msg']}", raw=alt)
        if m != base:
            raise Violation(f"{kname}: Python names give another model", raw=alt)
        d = diff(want, json.loads(m.model_dump_json()))
        if d:
            raise Violation(f"{kname} from Python names: {d}", raw=alt)
        if mode == "py" and all(k.isidentifier() for k in alt):
            m = pyclass(kname)(**alt)
            if m != base:
                raise Violation(f"{kname}: keyword arguments give another model", raw=alt)
    for k, x in raw.items():
        f = KINDS[kname].by_js(k)
        if f is None:
            continue
        got = getattr(base, f.py)
        if x is None and got is not None:
            raise Violation(f"{kname}.{f.py} is {got!r} where null was given", raw=raw)
        if x is not None and got is None:
            raise Violation(f"{kname}.{f.py} is None where {x!r} was given", raw=raw)
        if isinstance(x, (str, int, float)) and got != x and str(got) != x or isinstance(x, list) and len(got) != len(x):
            raise Violation(f"{kname}.{f.py} is {got!r} where {x!r} was given", raw=raw)
    for f in KINDS[kname].fields:
        if f.js not in raw and not f.required:
            w, d = f.absent_dump
            got = getattr(base, f.py)
            if got != (d if w else None) and not (isinstance(got, str) and str(got) == d):
                raise Violation(f"{kname}.{f.py} is {got!r} when absent", raw=raw)
    return f"{n} spellings agree"


def run(sp, tier, what, *args):
    space.run(sp, tier, check, what, *args)
