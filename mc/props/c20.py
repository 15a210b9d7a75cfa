"""Map containers behave as dictionaries restricted to legal names and values."""
import json

from .. import gen, impl, oracle
from ..engine import Violation
from ..meta import MAPS, REF, T, pyclass
from .c11 import diff

BOUNDS = {
    "quick": "every map type, from empty and from two entries: every history of <= 4 operations out of {store right data / "
             "model / reference / wrong value under 2 legal and 3 illegal names, store an entry again under the other name, delete, replace the whole contents by legal or "
             "illegal ones} with every read (get, in, len, iteration, serialisation, membership of absent names) after each; "
             "states deduplicated by content",
    "thorough": "as quick with histories of <= 7 operations",
}
ASSUMPTIONS = ["in-place edits of the underlying dictionary are outside the container's interface"]
ODD = (None, 0, 1, True, 1.5, ("a",), b"a", b"", frozenset())
BADKEYS = ["a b", "", "k\n", "é"]


def jobs(tier):
    return [(f"{m}-{b}", (m, b)) for m in MAPS for b in ("empty", "two")]


def shared(m):
    """Which entries are one and the same object."""
    ids = [id(v) for v in m.root.values()]
    return [ids.index(i) for i in ids]


def run(sp, tier, mname, base):
    cls = pyclass(mname)
    if not hasattr(cls, "model_validate"):
        return
    alts = MAPS[mname]
    kinds = [a.arg for a in alts if a != REF and a.tag == "obj"]
    vals = [("data", a, gen.minimal_obj(a)) for a in kinds] + [("model", a, gen.minimal_obj(a)) for a in kinds]
    full = gen.enrich(kinds[-1], gen.minimal_obj(kinds[-1]))
    vals += [("model", kinds[-1], full)]
    if REF in alts:
        vals += [("data", "Reference", {"$ref": "#/x"}), ("model", "Reference", {"$ref": "#/y"})]
    wrong = [("data", None, v) for v in (7, None, "junk", [])]
    other = "Tag" if mname != "TagMap" else "Server"
    wrong.append(("model", other, gen.minimal_obj(other)))
    if not any(k == "Schema" for k in kinds):
        wrong.append(("data", None, {"zz": 1}))
    evs = []
    evs += [("store", k) + vals[0] for k in ("0", "1", "None", "True")]
    for k in ("a", "B-1"):
        evs += [("store", k) + v for v in vals]
        evs += [("delete", k)]
    evs += [("store", "a") + v for v in wrong]
    evs += [("store", k) + vals[0] for k in BADKEYS] + [("store", BADKEYS[0]) + vals[len(kinds)]]
    evs += [("store", 7) + vals[0]]
    evs += [("replace", {}), ("replace", {"z": vals[0][2]}), ("replace", {"bad key": vals[0][2]}), ("replace", {"z": 7})]
    evs += [("delete", "none"), ("again", "a", "B-1"), ("again", "B-1", "a"), ("again", "a", "a")]
    depth = 4 if tier == "quick" else 7

    class State:
        pass

    def init():
        s = State()
        s.model = {} if base == "empty" else {"a": gen.minimal_obj(kinds[-1]), "c": gen.minimal_obj(kinds[0])}
        s.m = cls.model_validate(gen._copy(s.model))
        s.ids = {}
        return s

    def canonical(d):
        return {k: oracle.parse(alts, v) for k, v in d.items()}

    def observe(s, shown):
        want = canonical(s.model)
        m = s.m
        if len(m) != len(want) or list(m) != list(want) or [k for k in m.root] != list(want):
            raise Violation(f"{shown}: holds {list(m)}, expected {list(want)}")
        for k in ("a", "B-1", "c", "z", "none", "", "root", "keys", "items", "get", "pop", "copy", "model_fields", "__len__", " a", "a ", "A", "b-1", "B_1", "a\n", "#a", "aa", "B", *ODD):
            if (k in m) != (k in want):
                raise Violation(f"{shown}: {k!r} in it is {k in m}")
            try:
                v = m[k]
                if k not in want:
                    raise Violation(f"{shown}: reading {k!r} gives {v!r}")
                d = diff(want[k], json.loads(v.model_dump_json()))
                if d:
                    raise Violation(f"{shown}: entry {k!r}: {d}")
                a = oracle.select(alts, s.model[k])
                if not isinstance(v, pyclass(a.arg)):
                    raise Violation(f"{shown}: entry {k!r} is a {type(v).__name__}")
                if k in s.ids and s.ids[k] is not v:
                    raise Violation(f"{shown}: entry {k!r} is not the object that was stored")
            except KeyError:
                if k in want:
                    raise Violation(f"{shown}: reading {k!r} raises KeyError")
        d = diff(want, json.loads(m.model_dump_json()))
        if d:
            raise Violation(f"{shown}: written {d}")
        if cls.model_validate(gen._copy(s.model)) != m:
            raise Violation(f"{shown}: unequal to a container built that way")

    def step(s, ev):
        shown = f"{mname} {ev} after {json.dumps(s.model)[:200]}"
        if ev[0] == "store":
            _o, k, how, kind, raw = ev
            want = oracle.good_key(k) and oracle.ok(alts, raw) and (how == "data" or kind in kinds or kind == "Reference")
            v = gen._copy(raw) if how == "data" else pyclass(kind).model_validate(gen._copy(raw))
            try:
                s.m[k] = v
                ok = True
            except (impl.ValidationError, ValueError, TypeError):
                ok = False
            if ok != want:
                raise Violation(f"{shown}: {'accepted' if ok else 'rejected'}")
            if ok:
                s.model[k] = raw
                s.ids.pop(k, None)
                if how == "model":
                    s.ids[k] = v
        elif ev[0] == "again":                           # one object under two names
            if ev[1] not in s.model:
                return None
            v = s.m[ev[1]]
            s.m[ev[2]] = v
            s.model[ev[2]] = s.model[ev[1]]
            s.ids[ev[2]], ok = v, True
        elif ev[0] == "delete":
            try:
                del s.m[ev[1]]
                ok = True
            except KeyError:
                ok = False
            if ok != (ev[1] in s.model):
                raise Violation(f"{shown}: {'accepted' if ok else 'KeyError'}")
            s.model.pop(ev[1], None)
            s.ids.pop(ev[1], None)
        else:
            want = all(oracle.good_key(k) and oracle.ok(alts, v) for k, v in ev[1].items())
            try:
                s.m.root = gen._copy(ev[1])
                ok = True
            except impl.ValidationError:
                ok = False
            if ok != want:
                raise Violation(f"{shown}: {'accepted' if ok else 'rejected'}")
            if ok:
                s.model, s.ids = dict(ev[1]), {}
        observe(s, shown)
        return ev[0] + (" done" if ok else " refused")

    sp.search("map", init, evs, depth, step, lambda s: json.dumps([s.model, shared(s.m)]))
