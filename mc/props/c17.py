"""Cross-member rules and value ranges of protocol bindings, channels and examples."""
import itertools

from .. import gen, oracle
from ..engine import HarnessError
from ..meta import KINDS, NODEFAULT, NULL, REF, RULES
from ..product import ABSENT, explore_product, judge, judge_doc, places

RULED = [k for k in RULES if k not in ("SecurityScheme", "OAuthFlows")]
LIMITED = [(k.name, f.js) for k in KINDS.values() for f in k.fields if any(m in f.mods for m in ("min", "max", "maxlen"))]
BOUNDS = {
    "quick": "every object kind with a cross-member rule: the full product over its members (absent, null, every literal or "
             "two values); every limited member: all values within 3 of each limit and far ones, all lengths within 3 with 4 "
             "character widths; every literal member: every literal of any kind and near misses; all of these again at every "
             "document place of the kind (single deviations)",
    "thorough": "as quick with the full product at every document place of a ruled kind",
}
ASSUMPTIONS = ["rules and limits are those of the frozen metamodel"]


def member_values(kname, f):
    lits = [a.arg for a in f.type if a.tag == "lit"]
    vals = lits or [gen.field_special(kname, f)]
    if not lits and not f.mods:
        empty = {"str": "", "int": 0, "bool": False, "list": [], "dict": {}, "map": {}}.get(f.type[0].tag)
        if empty is not None and empty not in vals:
            vals = vals + [empty]
        if f.type[0].tag == "any":
            vals = vals + [0, False, "", [], {}]
    if kname == "Channel" and f.js == "parameters":
        vals = [{}, {"p": {}}]
    if kname == "Channel" and f.js == "address":
        vals = ["a", "a/{p}", ""]
    out = [ABSENT] + vals
    if NULL in f.type:
        out.append(None)
    return out


def alphabet(kname):
    fs = KINDS[kname].fields
    core = {"Channel": ["address", "parameters", "messages", "title"],
            "MessageExample": ["headers", "payload", "name", "summary"]}.get(kname)
    return {f.js: member_values(kname, f) for f in fs if core is None or f.js in core}


def limits(f):
    out = []
    for m in ("min", "max"):
        if m in f.mods:
            out += [f.mods[m] + d for d in (-3, -2, -1, 0, 1, 2, 3)] + [f.mods[m] * 10 + 7, -(10 ** 12), 10 ** 12]
    if "maxlen" in f.mods:
        n = f.mods["maxlen"]
        for ch in ("a", "é", "\u20ac", "\U0001f600"):
            out += [ch * (n + d) for d in (-1, 0, 1, 2)]
        out += ["", "a" * (10 * n), " " * (n + 1), "\n" * n]
    return out


LITS = sorted({str(a.arg) for k in KINDS.values() for f in k.fields for a in f.type if a.tag == "lit"})
LITERAL = [(k.name, f.js) for k in KINDS.values() for f in k.fields if any(a.tag in ("lit",) for a in f.type)]


def literals(f):
    mine = [a.arg for b in f.type for a in ([b] if b.tag == "lit" else [])]
    near = []
    for v in mine:
        if isinstance(v, str):
            near += [v.upper(), v.capitalize(), v + " ", " " + v, v + "s", v[:-1], v.lower(), v + "\n"]
        else:
            near += [v + 1, v - 1, -v, v * 10, v + 0.5]
    return mine + [x for x in LITS + near if x not in mine]


def jobs(tier):
    out = [(f"{k}-product", ("product", k, None)) for k in RULED]
    out += [(f"{k}-limits", ("limits", k, None)) for k in dict.fromkeys(k for k, _ in LIMITED)]
    out += [(f"{k}-literals", ("literals", k, None)) for k in dict.fromkeys(k for k, _ in LITERAL)]
    for k in dict.fromkeys(RULED + [k for k, _ in LIMITED] + [k for k, _ in LITERAL]):
        ps = places(k)
        out += [(f"{k}-places{i}", ("place", k, tuple(ps[i:i + 4]))) for i in range(0, len(ps), 4)]
    return out


def run(sp, tier, what, kname, idxs):
    kind = KINDS[kname]
    if what == "product":
        explore_product(sp, kname, alphabet(kname))
        if kname == "Channel":
            explore_address(sp, tier)
        return
    mods = [f for f in kind.fields if (kname, f.js) in LIMITED]
    lits = [f for f in kind.fields if (kname, f.js) in LITERAL]
    if what in ("limits", "literals"):
        def body(c):
            f = c.choose("member", mods if what == "limits" else lits)
            v = c.choose("value", limits(f) if what == "limits" else literals(f))
            raw = gen.with_member(kname, f.js, gen.minimal(f.type, f.mods))
            raw[f.js] = v
            if any(a.tag == "int" for a in f.type) and isinstance(v, float):
                return "lax"
            return judge(kname, raw)

        sp.explore(body, what)
        return

    base = gen.minimal_obj(kname)

    def place(c):
        pos = gen.positions()[c.choose("place", idxs)]
        if kname in RULES and tier == "thorough" and c.flag("product"):
            o = {}
            for js, vals in alphabet(kname).items():
                v = c.choose(js, vals)
                if v is not ABSENT:
                    o[js] = gen._copy(v)
        else:
            o = gen._copy(base)
            edits = []
            if kname in RULES:
                edits += [(js, v) for js, vals in alphabet(kname).items() for v in vals]
            for f in mods:
                edits += [(f.js, v) for v in limits(f)]
            for f in lits:
                edits += [(f.js, v) for v in literals(f)[:20]]
            js, v = c.choose("edit", edits)
            o.pop(js, None)
            if kname in RULES and kind.ext != "none":
                o.update(c.choose("extension", ({}, {"x-" + js: 1})))
            if v is not ABSENT:
                o[js] = gen._copy(v)
        doc, path = gen.place(pos, o, decor=c.choose("siblings", ("none", "obj")), where="both")
        return judge_doc(doc, path)

    sp.explore(place, "place")


def explore_address(sp, tier):
    """Every short address string beside parameters."""
    toks = ["{", "}", "a", "/", "\n", "{p}", " ", "$"]
    n = 5 if tier == "quick" else 6

    def body(c):
        k = c.choose("tokens", tuple(range(n + 1)))
        addr = "".join(c.choose(f"t{i}", toks) for i in range(k))
        params = c.choose("parameters", ({}, {"p": {}}))
        return judge("Channel", {"address": addr, "parameters": params})

    sp.explore(body, "address")
