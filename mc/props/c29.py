"""Copies are equal, complete and independent; objects are equal exactly when their content is."""
import copy
import json
import pickle

from .. import gen, impl, oracle, space
from ..engine import Violation
from ..meta import KINDS, MAPS, pyclass
from ..walk import snapshot

BOUNDS = {
    "quick": "every legal value of the C10 space x 6 ways to copy (model_copy shallow and deep, copy, deepcopy, pickle, re-validation; a second object read from equal data shares nothing with it); every ordered pair of values of each "
             "kind and map type (one member varied over its alphabet at a time, or one leaf of a full value changed a little (case, blanks, sign, order, repetition), with and without extensions) compared for equality",
    "thorough": "as quick over the thorough C10 space",
}
ASSUMPTIONS = ["shallow copies share what they hold, as everywhere in Python", "1, 1.0 and True in free-form members are equal, as everywhere in Python"]
DEEP = (("model_copy(deep=True)", lambda m: m.model_copy(deep=True)), ("copy.deepcopy", copy.deepcopy),
        ("pickle", lambda m: pickle.loads(pickle.dumps(m))))
SHALLOW = (("model_copy()", lambda m: m.model_copy()), ("copy.copy", copy.copy))
MUTABLE = (dict, list, set)


def parts(m, out=None):
    """Every model, list and dict reachable from a model, by identity."""
    out = {} if out is None else out
    if isinstance(m, dict):
        kids = list(m.values())
    elif isinstance(m, (list, tuple, set)):
        kids = list(m)
    elif hasattr(m, "__pydantic_fields_set__"):
        kids = list(m.__dict__.values()) + ([] if m.__pydantic_extra__ is None else [m.__pydantic_extra__])
        out[id(m.__dict__)] = m.__dict__
    else:
        return out
    out[id(m)] = m
    for k in kids:
        parts(k, out)
    return out


def content(m):
    """The object graph without identities."""
    return [(p, *rest) for p, _i, *rest in snapshot(m)]


def scramble(m):
    """Change everything reachable behind the models' backs."""
    for x in list(parts(m).values()):
        if isinstance(x, list):
            x.append("spoilt")
        elif isinstance(x, dict):
            for k in list(x):
                if not hasattr(x[k], "__pydantic_fields_set__") and not isinstance(x[k], (list, dict)):
                    x[k] = "spoilt"
            x["spoilt"] = 1


def check(kname, raw, path, c):
    m, err = impl.kind_parse(kname, raw)
    if err is not None:
        raise Violation(f"{kname}: legal value rejected: {err.errors()[0]['msg']}", raw=raw)
    text, graph, mine = m.model_dump_json(), content(m), parts(m)
    m1, _err = impl.kind_parse(kname, gen._copy(raw))
    if m1 != m:
        raise Violation(f"{kname}: the same data read twice gives unequal objects", raw=raw)
    shared = [x for i, x in parts(m1).items() if i in mine]
    if shared:
        raise Violation(f"{kname}: two objects read from different data share a {type(shared[0]).__name__}", raw=raw)
    for name, how in DEEP + SHALLOW:
        m2 = how(m)
        if type(m2) is not type(m) or m2 != m or m != m2:
            raise Violation(f"{kname}: the copy by {name} is not equal", raw=raw)
        if content(m2) != graph or m2.model_dump_json() != text:
            raise Violation(f"{kname}: the copy by {name} differs from the original", raw=raw, copy=m2.model_dump_json())
        if m2 is m:
            raise Violation(f"{kname}: {name} returned the object itself", raw=raw)
        if (name, how) in DEEP:
            shared = [x for i, x in parts(m2).items() if i in mine]
            if shared:
                raise Violation(f"{kname}: the copy by {name} shares {type(shared[0]).__name__} with the original", raw=raw)
            scramble(m2)
        elif KINDS.get(kname) and KINDS[kname].fields:
            # a shallow copy has its own members
            f = KINDS[kname].fields[0]
            m2.__dict__[f.py] = "spoilt"
            if KINDS[kname].ext != "none":
                m2.__pydantic_extra__["x-spoilt"] = 1
        if m.model_dump_json() != text or content(m) != graph:
            raise Violation(f"{kname}: changing the copy by {name} changed the original", raw=raw)
    return "copied"


def canonical(x):
    return json.dumps(x, sort_keys=True)


def variants(kname):
    """Legal values of the kind: one member at a time over its alphabet, and extensions."""
    base = gen.minimal_obj(kname)
    out = [base, gen.enrich(kname, base)]
    out += [w for v in out[:] for w in twisted(v)]
    for f in KINDS[kname].fields:
        for v in space.member_values(kname, f.js)[:6]:
            o = {**gen._copy(base), f.js: gen._copy(v)}
            out.append(o)
    if KINDS[kname].ext != "none":
        out += [{**gen._copy(base), "x-a": v} for v in (1, 2, None, "1", [1], {"n": 1})] + [{**gen._copy(base), "x-b": 1},
                                                                                           {**gen._copy(base), "x-a": 1, "x-b": 1}]
    out = [o for o in out if oracle.ok_obj(kname, o)]
    uniq = {}
    for o in out:
        uniq.setdefault(canonical(o), o)
    return list(uniq.values())


def twist(x):
    """Values that differ a little from a leaf."""
    if isinstance(x, bool):
        return [not x]
    if isinstance(x, (int, float)):
        return [x + 1, -x]
    if isinstance(x, str):
        if "://" in x:
            return [x + "D", x + "/", x.replace("/d", "/D")]
        return [x.swapcase(), x[:1].swapcase() + x[1:], x + " ", " " + x, x + x[-1:], x + "\u0301"]
    if isinstance(x, list):
        return [x[::-1], x + x[-1:], x[:-1], x + [x]]
    return []


def leaves(v, at=()):
    yield at, v
    if isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, at + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from leaves(x, at + (i,))


def twisted(v):
    """The value with one leaf changed a little, at any depth."""
    for at, x in leaves(v):
        for y in twist(x) if at else ():
            w = cur = gen._copy(v)
            for s in at[:-1]:
                cur = cur[s]
            cur[at[-1]] = gen._copy(y)
            yield w
        if isinstance(x, dict) and len(x) > 1 and at:
            w = cur = gen._copy(v)
            for s in at[:-1]:
                cur = cur[s]
            cur[at[-1]] = dict(reversed(list(x.items())))
            yield w


def jobs(tier):
    maps = [m for m in MAPS if hasattr(pyclass(m), "model_validate")]
    return [(f"equal-{k}", ("equal", k)) for k in KINDS] + [(f"equal-{m}", ("equalmap", m)) for m in maps] + space.jobs(tier)


def equal(sp, name, vals, canon):
    cls = pyclass(name)
    made = {}

    def model(i, how):
        if (i, how) not in made:
            d = gen._copy(vals[i])
            made[i, how] = cls.model_validate(d) if how == "data" else cls.model_validate_json(json.dumps(d))
        return made[i, how]

    want = [canon(v) for v in vals]

    def body(c):
        i = c.choose("one", tuple(range(len(vals))))
        j = c.choose("other", tuple(range(len(vals))))
        how = c.choose("read from", ("data", "text"))
        a, b = model(i, "data"), model(j, how)
        w = want[i] == want[j]
        if w != (canonical(want[i]) == canonical(want[j])):
            return "equal in Python only"
        if (a == b) is not w or (a != b) is w:
            raise Violation(f"{name}: {vals[i]!r} and {vals[j]!r} are {'equal' if a == b else 'unequal'}")
        if a == vals[i] or a == None:                                    # noqa: E711
            raise Violation(f"{name}: {vals[i]!r}: an object equals plain data")
        return "equal" if w else "unequal"

    sp.explore(body, "equal")


def run(sp, tier, what, *args):
    if what == "equal":
        (k,) = args
        return equal(sp, k, variants(k), lambda v: oracle.parse_obj(k, v))
    if what == "equalmap":
        (m,) = args
        from ..meta import T
        alts = MAPS[m]
        vs = gen.values(alts, {})[:5]
        vals = [{}] + [{"k": v} for v in vs] + [{"j": vs[0]}, {"k": vs[0], "j": vs[0]}, {"j": vs[0], "k": vs[0]}, {"k": vs[0], "K": vs[-1]}, {"K": vs[0]}]
        return equal(sp, m, vals, lambda v: oracle.parse((T("map", m),), v))
    space.run(sp, tier, check, what, *args)
