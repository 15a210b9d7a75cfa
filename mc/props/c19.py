"""Attribute assignment is atomic: checked like construction, or the object stays as it was."""
import json

from .. import gen, impl, oracle
from ..engine import Violation
from ..meta import KINDS, MAPS, NULL, REF, RULES, T, pyclass
from .c11 import diff

BOUNDS = {
    "quick": "every object kind, from its smallest and its fullest legal object: every history of up to 2 assignments (3 for "
             "kinds with a cross-member rule), each event one of: every member x {valid values of every alternative as JSON "
             "data and as model instances, null, wrong types}, extension and unknown members; states deduplicated by content; every map type: every history of up to 2 (3) assignments of its entries as a whole",
    "thorough": "as quick with histories of up to 3 (5 for kinds with a cross-member rule)",
}
ASSUMPTIONS = ["the reference verdict on an assignment is that of constructing the object with the new value",
               "members of the nested objects are not re-checked against the rules of their owner (by design)"]
WRONG = ["junk", 7.5, [7], {"zz": 1}, "", None, [], {}]


def jobs(tier):
    return [(f"{k}-{b}", (k, b)) for k in KINDS if k not in ("AsyncAPI3",) for b in ("small", "full")] + \
        [("AsyncAPI3-small", ("AsyncAPI3", "small")), ("AsyncAPI3-full", ("AsyncAPI3", "full"))] + \
        [(f"map-{m}", (m, "map")) for m in MAPS if hasattr(pyclass(m), "model_validate")]


def two_readings(f, v):
    tags = {a.tag for a in f.type}
    objs = {a.arg for a in f.type if a.tag == "obj"}
    if "dict" in tags and objs:
        return True
    return False


def events(kname, tier):
    k = KINDS[kname]
    out = []
    small = kname in RULES
    for f in k.fields:
        vals = gen.values(f.type, f.mods)
        sp = gen.field_special(kname, f)
        if sp not in vals:
            vals = [sp] + vals
        bad = []
        if "min" in f.mods:
            bad.append(f.mods["min"] - 1)
        if "max" in f.mods:
            bad.append(f.mods["max"] + 1)
        if "maxlen" in f.mods:
            bad.append("a" * (f.mods["maxlen"] + 1))
        for v in (vals[:3] + vals[-1:] if not small else vals) + WRONG + bad:
            if two_readings(f, v):
                continue
            if any(e[0] == "set" and e[1] == f.py and type(e[2]) is type(v) and e[2] == v for e in out):
                continue
            out.append(("set", f.py, v, f.js))
        a = [a for a in f.type if a.tag in ("obj", "map")] if not two_readings(f, None) else []
        for b in a[:2]:
            v = gen.minimal_obj(b.arg) if b.tag == "obj" else gen.minimal((b,))
            out.append(("instance", f.py, v, f.js, b.arg))
    out += [("set", "x-a", 1, "x-a"), ("set", "x-a", {"n": None}, "x-a"), ("set", "x-é b", 1, "x-é b"),
            ("set", "zz", 1, "zz"), ("set", "x-", 1, "x-")]
    return out


def run_map(sp, tier, name):
    """The entries of a map as one attribute: assigning `root` obeys the rules of construction."""
    cls = pyclass(name)
    vals = gen.values(MAPS[name], {})[:3]
    evs = [{}]
    for v in vals:
        evs += [{"k": v}, {"k": v, "A-1_b": v}, {"a b": v}, {"k": v, "k\n": v}, {"": v}]
    evs += [{"k": 5}, {"k": vals[0], "j": 5}, {"k": None}, [], "junk", None, 7, [["k", vals[0]]]]
    depth = {"quick": 2, "thorough": 3}[tier]

    class State:
        pass

    def init():
        s = State()
        s.raw = {"o": gen._copy(vals[0])}
        s.m = cls.model_validate(gen._copy(s.raw))
        return s

    def step(s, v):
        try:
            want = oracle.parse((T("map", name),), v)
            fresh = cls.model_validate(gen._copy(v))
        except (oracle.Bad, impl.ValidationError):
            want = fresh = None
        before = impl.dump(s.m)
        try:
            s.m.root = gen._copy(v)
            ok = True
        except impl.ValidationError:
            ok = False
        shown = f"{name}.root = {v!r} on {json.dumps(s.raw)[:200]}"
        if ok != (want is not None):
            raise Violation(f"{shown}: {'accepted' if ok else 'rejected'}", state=s.raw)
        if not ok:
            if impl.dump(s.m) != before:
                raise Violation(f"{shown}: rejected, but the map changed", state=s.raw)
            return "rejected, unchanged"
        s.raw = v
        if s.m != fresh or impl.dump(s.m) != impl.dump(fresh) or \
                [type(x) for x in s.m.root.values()] != [type(x) for x in fresh.root.values()]:
            raise Violation(f"{shown}: accepted, but differs from a map constructed that way", state=s.raw)
        return "accepted"

    sp.search("assign root", init, evs, depth, step, lambda s: json.dumps(s.raw, sort_keys=True))


def run(sp, tier, kname, base):
    if base == "map":
        return run_map(sp, tier, kname)
    cls = pyclass(kname)
    k = KINDS[kname]
    start = gen.minimal_obj(kname)
    if base == "full":
        full = gen.enrich(kname, start)
        if full == start:
            return
        start = full
        if k.ext != "none":
            start["x-a"] = 0
    evs = events(kname, tier)
    depth = {"quick": (2, 3), "thorough": (3, 5)}[tier][kname in RULES]
    if len(evs) > 160:
        depth = min(depth, 2)
    if base == "full" and kname in RULES:
        depth -= 1
    if len(evs) > 80 and tier == "quick" and kname not in RULES:
        depth = 1 if base == "full" else 2

    class State:
        pass

    def init():
        s = State()
        s.raw = gen._copy(start)
        s.m = cls.model_validate(gen._copy(start))
        return s

    def snap(m):
        return json.dumps(json.loads(m.model_dump_json(by_alias=True)), sort_keys=True), \
            [(n, type(getattr(m, n)).__name__) for n in type(m).model_fields], sorted(m.model_extra or {})

    def step(s, ev):
        _how, py, v, js = ev[:4]
        v = gen._copy(v)
        raw = {**s.raw, js: v}
        try:
            want = oracle.parse_obj(kname, raw)
        except oracle.Bad:
            want = None
        val = v
        if ev[0] == "instance":
            val = pyclass(ev[4]).model_validate(gen._copy(v))
        before = snap(s.m)
        try:
            setattr(s.m, py, val)
            ok = True
        except impl.ValidationError:
            ok = False
        except (AttributeError, ValueError) as e:
            if k.by_js(js) is not None:
                raise
            ok = False
        shown = f"{kname}.{py} = {v!r}" + (" (instance)" if ev[0] == "instance" else "") + f" on {json.dumps(s.raw)[:200]}"
        if ok != (want is not None):
            raise Violation(f"{shown}: {'accepted' if ok else 'rejected'}", state=s.raw)
        if not ok:
            if snap(s.m) != before:
                raise Violation(f"{shown}: rejected, but the object changed to {snap(s.m)[0][:300]}", state=s.raw)
            # the object must still be usable
            try:
                cls.model_validate(s.m)
            except impl.ValidationError:
                raise Violation(f"{shown}: rejected, and the object is now invalid", state=s.raw)
            return "rejected, unchanged"
        s.raw = raw
        d = diff(want, json.loads(s.m.model_dump_json()))
        if d:
            raise Violation(f"{shown}: accepted, but {d}", state=s.raw)
        fresh = cls.model_validate(gen._copy(raw))
        if fresh != s.m:
            raise Violation(f"{shown}: accepted, but differs from an object constructed that way", state=s.raw)
        return "accepted"

    sp.search("assign", init, evs, depth, step, lambda s: json.dumps(s.raw, sort_keys=True))
