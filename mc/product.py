"""Full products over the members of one kind, judged by the reference parser."""
from __future__ import annotations

from . import gen, impl, oracle
from .engine import Violation
from .meta import KINDS, REF
from .props.c11 import diff

ABSENT = "(absent)"


def judge(kname, raw, msg=""):
    try:
        want = oracle.parse_obj(kname, raw)
    except oracle.Bad:
        want = None
    m, err = impl.kind_parse(kname, raw)
    if (err is None) != (want is not None):
        raise Violation(f"{kname} {raw} {'accepted' if err is None else 'rejected: ' + err.errors()[0]['msg']}{msg}", raw=raw)
    if want is None:
        return "rejected"
    d = diff(want, impl.dump(m))
    if d:
        raise Violation(f"{kname} {raw}: {d}", raw=raw)
    return "accepted"


def judge_doc(doc, where):
    want = oracle.ok_obj("AsyncAPI3", doc)
    m, err = impl.kind_parse("AsyncAPI3", doc)
    if (err is None) != want:
        raise Violation(f"/{'/'.join(map(str, where))} {'accepted' if err is None else 'rejected: ' + err.errors()[0]['msg']}",
                        doc=doc)
    return "accepted" if want else "rejected"


def places(kname):
    return [i for i, p in enumerate(gen.positions()) if any(a.tag == "obj" and a.arg == kname for a in p.alts)]


def explore_product(sp, kname, alphabet, fixed=None, name="product"):
    """alphabet: member -> list of values (ABSENT for leaving it out)."""
    fixed = fixed or {}

    def body(c):
        raw = {}
        for js, vals in alphabet.items():
            v = fixed[js] if js in fixed else c.choose(js, vals)
            if v is not ABSENT:
                raw[js] = gen._copy(v)
        return judge(kname, raw)

    sp.explore(body, name)
