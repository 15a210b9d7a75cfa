"""Handing over an object re-checks it: what was tampered with does not get in."""
import json

from .. import gen, impl, oracle, space
from ..engine import HarnessError, Violation
from ..meta import KINDS, MAPS, NULL, REF, RULES, T, pyclass
from .c11 import diff

BOUNDS = {
    "quick": "every object kind x every member overwritten behind the object's back (10 values) and every instance built "
             "without checks from every JSON-typed member value or without some or all members, handed over to: construction of its own kind, each other kind "
             "or map that may hold it, and assignment; every one of the list-free and list places of a document tampered in "
             "place, then the whole document handed over",
    "thorough": "as quick with every pair of members tampered for kinds with cross-member rules and rich documents",
}
ASSUMPTIONS = ["tampering: writing the instance dictionary, unchecked construction, editing nested containers in place"]
JUNK = [None, 7, "junk", [], [7], {"zz": 1}, -1.5]


def holders():
    """kind -> [(holder kind or map, member or None, wrapping)]"""
    out = {}
    for k in KINDS.values():
        for f in k.fields:
            for a in f.type:
                if a.tag == "obj":
                    out.setdefault(a.arg, []).append((k.name, f.py, f.js, "plain"))
                elif a.tag in ("list", "dict"):
                    for b in a.arg:
                        if b.tag == "obj":
                            out.setdefault(b.arg, []).append((k.name, f.py, f.js, a.tag))
    for m, alts in MAPS.items():
        for a in alts:
            if a.tag == "obj":
                out.setdefault(a.arg, []).append((m, None, None, "map"))
    return out


HOLD = holders()


def jobs(tier):
    out = [(f"kind-{k}", ("kind", k)) for k in KINDS if k != "AsyncAPI3"]
    ps = [i for i, p in enumerate(gen.positions()) if p.steps]
    out += [(f"places{i}", ("place", ps[i:i + 100])) for i in range(0, len(ps), 100)]
    return out


def free_form(alts):
    """Another alternative might take the tampered instance's place."""
    return any(a.tag in ("any",) for a in alts) or any(a.tag == "dict" for a in alts) and any(a.tag == "obj" for a in alts)


def hand_over(kname, inst, hold):
    """Try to get inst into the holder; returns the holder (model) or None if refused."""
    hname, py, js, wrap = hold
    try:
        if wrap == "map":
            return pyclass(hname).model_validate({"a": inst}), lambda h: h.root["a"]
        v = {"plain": inst, "list": [inst], "dict": {"a": inst}}[wrap]
        f = KINDS[hname].by_py(py)
        base = gen.with_member(hname, js, gen.minimal(f.type, f.mods))
        base.pop(js, None)
        return pyclass(hname).model_validate({**base, js: v}), lambda h: getattr(h, py) if wrap == "plain" else \
            (getattr(h, py)[0] if wrap == "list" else getattr(h, py)["a"])
    except impl.ValidationError:
        return None, None


def run(sp, tier, what, arg):
    if what == "kind":
        kname = arg
        k = KINDS[kname]
        cls = pyclass(kname)
        ways = [("itself", None, None, "self")] + HOLD.get(kname, [])
        ways = [w for w in ways if w[3] == "self" or not (w[0] in KINDS and free_form(KINDS[w[0]].by_py(w[1]).type))]
        n_edits = 2 if tier == "thorough" and kname in RULES else 1
        fields = [f for f in k.fields]

        def edit_values(f):
            vals = list(JUNK)
            vals += [v for v in gen.values(f.type, f.mods)[:2] if not isinstance(v, (dict, list))]
            if "min" in f.mods:
                vals.append(f.mods["min"] - 1)
            if "maxlen" in f.mods:
                vals.append("a" * (f.mods["maxlen"] + 1))
            return vals

        def body(c):
            base = c.choose("base", ("small", "full"))
            raw = gen.minimal_obj(kname)
            if base == "full":
                raw = gen.enrich(kname, raw)
            how = c.choose("how", ("dictionary", "unchecked construction", "unset", "extension", "untouched"))
            way = c.choose("handed to", ways)
            inst = cls.model_validate(gen._copy(raw))
            bad = dict(raw)
            exotic = False
            if how in ("dictionary", "unchecked construction"):
                if not fields:
                    return "no members"
                edits = {}
                for e in range(n_edits):
                    f = c.choose(f"member{e}", fields)
                    v = c.choose(f"value{e}", edit_values(f))
                    if free_form(f.type) and not any(a.tag == "any" for a in f.type):
                        return "two readings"
                    edits[f.py] = v
                    bad[f.js] = v
                for f, v in edits.items():
                    if how == "dictionary":
                        inst.__dict__[f] = gen._copy(v)
                if how == "unchecked construction":
                    vals = {f.py: getattr(inst, f.py) for f in fields}
                    vals.update({f: gen._copy(v) for f, v in edits.items()})
                    inst = cls.model_construct(**vals)
            elif how == "unset":                         # built without checks and without some or all members
                gone = c.choose("without", [tuple(bad)] + [(n,) for n in bad])
                vals = {k.by_js(n).py: getattr(inst, k.by_js(n).py) for n in bad if n not in gone}
                bad = {n: v for n, v in bad.items() if n not in gone}
                inst = cls.model_construct(*c.choose("said to be set", ((None,), (set(),))), **vals)
            elif how == "extension":
                if k.ext == "none":
                    return "no extensions"
                n = c.choose("name", ("x-a", "bad name", "x-", "zz"))
                if inst.__pydantic_extra__ is None:
                    return "no extensions"
                inst.__pydantic_extra__[n] = 1
                bad[n] = 1
            try:
                want = oracle.parse_obj(kname, bad)
            except oracle.Bad:
                want = None
            shown = f"{kname} ({how}: {json.dumps(bad)[:300]}) handed to {way[0]}" + (f".{way[1]}" if way[1] else "")
            if way[3] == "self":
                try:
                    h, get = cls.model_validate(inst), lambda x: x
                except impl.ValidationError:
                    h = None
            else:
                h, get = hand_over(kname, inst, way)
            if (h is not None) != (want is not None):
                if way[0] in RULES and want is not None:
                    return "breaks a rule of its holder"
                raise Violation(f"{shown}: {'accepted' if h is not None else 'rejected'}")
            if h is None:
                return "refused"
            d = diff(want, json.loads(get(h).model_dump_json()))
            if d:
                raise Violation(f"{shown}: {d}")
            return "let in"

        sp.explore(body, "hand over")
        return

    def place(c):
        pos = gen.positions()[c.choose("place", arg)]
        if space.either_reading(pos):
            return "two readings"
        doc, path = gen.place(pos, gen._copy(gen.minimal(pos.alts, pos.modsd)), rich=tier == "thorough" and c.flag("rich"))
        if not oracle.ok_obj("AsyncAPI3", doc):
            raise HarnessError(f"illegal {doc}")
        m, err = impl.kind_parse("AsyncAPI3", doc)
        if err is not None:
            raise Violation(f"legal document rejected: {err.errors()[0]['msg']}", doc=doc)
        v = c.choose("value", [None, 7, "junk", [7], {"zz": 1}, {"bad key!": {"zz": 1}}])
        cur = m
        for s, conc in list(zip(pos.steps, path))[:-1]:
            if s.how == "field":
                cur = getattr(cur, KINDS[s.kind].by_js(s.name).py)
            elif s.how == "item":
                cur = cur[conc]
            else:
                cur = cur[conc]
        last, conc = pos.steps[-1], path[-1]
        raw = doc
        for s in path[:-1]:
            raw = raw[s]
        raw[conc] = v
        if last.how == "field":
            cur.__dict__[KINDS[last.kind].by_js(last.name).py] = gen._copy(v)
        elif last.how == "item":
            cur[conc] = gen._copy(v)
        elif hasattr(cur, "root"):
            cur.root[conc] = gen._copy(v)
        else:
            cur[conc] = gen._copy(v)
        if free_form(pos.alts) and not any(a.tag == "any" for a in pos.alts):
            return "two readings"
        want = oracle.ok_obj("AsyncAPI3", doc) and (last.how != "field" or oracle.ok_obj(last.kind, raw))
        again, err = impl.kind_parse("AsyncAPI3", m)
        if (err is None) != want:
            raise Violation(f"document tampered at /{'/'.join(map(str, path))} with {v!r}: "
                            f"{'accepted' if err is None else 'rejected: ' + err.errors()[0]['msg']}", doc=doc)
        return "let in" if want else "refused"

    sp.explore(place, "document")
