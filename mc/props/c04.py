"""Chains of references: followed to their end, cycles rejected, always with an answer."""
from .. import gen, impl, oracle
from ..engine import Violation
from ..meta import KINDS, REF
from ..refworld import COLL_OF, chunks, comp_target, decoy, doc_ok, refpos, right_positions

BOUNDS = {
    "quick": "every referenceable kind x every graph of 3 named references (each: an object, an edge to any of the 3, "
             "dangling, an external address, an object of another kind) x 3 placements (one collection; spread over other "
             "places of that kind; all under one name at different places) x first/last use; every graph of 4 for two kinds; chains and cycles of length <= 60, and of 1100",
    "thorough": "as quick with every graph of 4 references for every kind, of 5 for one kind, chains up to 250, and of 1100 for every kind",
}
ASSUMPTIONS = ["list-free pointers without escapes"]
KS = [k for k in COLL_OF if right_positions(k)]


def places(kind):
    """Where a named reference of this kind may stand: its collection, then two other places."""
    out, labels = [], set()
    ps = [p for p in refpos() if not p.has_list and kind in gen.expected_kinds(p)]
    own = [p for p in ps if p.label() == f"components/{COLL_OF[kind]}/*"]
    rest = [p for p in ps if p not in own]
    return own + rest[:2] + rest[-1:]


def jobs(tier):
    out = []
    out += [(f"{k}-same", ("graph", k, 3, "same", None)) for k in KS]
    for k in KS:
        n = 4 if tier == "thorough" or k in ("Server", "Message") else 3
        for pl in ("own", "spread"):
            if n == 4:
                out += [(f"{k}-{pl}-4-{i}", ("graph", k, 4, pl, i)) for i in range(8)]
            else:
                out.append((f"{k}-{pl}-3", ("graph", k, 3, pl, None)))
        out.append((f"{k}-long", ("long", k, 0, "", None)))
    # longer than any call stack
    deep = [("Message", e) for e in ("object", "cycle", "dangling", "rho")]
    out = [(f"{k}-deep-{e}", ("deep", k, 1100, "", e)) for k, e in
           (deep if tier == "quick" else [(k, e) for k in KS for e in ("object", "cycle", "dangling", "external", "other kind", "rho")])] + out
    if tier == "thorough":
        out += [(f"Tag-own-5-{i}-{j}", ("graph", "Tag", 5, "own", (i, j))) for i in range(9) for j in range(9)]
    return out


def check(doc, what):
    want = doc_ok(doc)
    spec, err = impl.parse(doc, impl.Unified)
    if (err is None) != want:
        impl.must_parse(doc)
        raise Violation(f"{what}: {'accepted' if err is None else 'rejected: ' + err.errors()[0]['msg']}", doc=doc)
    return "accepted" if want else "rejected"


def run(sp, tier, mode, kind, n, pl, fixed):
    other = "Tag" if kind != "Tag" else "Server"
    own = COLL_OF[kind]
    if mode == "deep":
        sp.scale = 12
    if mode in ("long", "deep"):
        def body(c):
            ln = n if mode == "deep" else c.choose("length", (1, 2, 3, 10, 60) if tier == "quick" else (1, 2, 3, 10, 60, 250))
            end = fixed or c.choose("end", ("object", "cycle", "dangling", "external", "other kind", "rho"))
            doc = decoy()
            col = doc["components"][own]
            for i in range(ln):
                col[f"a{i}"] = {"$ref": f"#/components/{own}/a{i + 1}"}
            last = {"object": comp_target(kind), "cycle": f"#/components/{own}/a0", "dangling": f"#/components/{own}/a",
                    "external": "https://e.test/x", "other kind": comp_target(other),
                    "rho": f"#/components/{own}/a{ln // 2}"}[end]
            col[f"a{ln}"] = {"$ref": last}
            return check(doc, f"chain of {ln} ending in {end}")

        sp.explore(body, "long")
        return
    ps = places(kind)
    own_p, rest = ps[0], ps[1:] or ps

    def body(c):
        name = "n" if pl == "same" else None             # every reference of the graph under one name, each at a place of its own
        if name and len(ps) < n:
            return "too few places"
        where = ps[:n] if name else [own_p if pl == "own" or i % 2 == 0 else rest[(i // 2) % len(rest)] for i in range(n)]
        spots = []
        for i, p in enumerate(where):
            ptr = "#/" + "/".join((name or f"n{i}") if s.how == "key" else s.name for s in p.steps)
            if ptr in [s[1] for s in spots]:
                return "same place"
            spots.append((p, ptr))
        opts = ["object", "dangling", "external", "other kind"] + list(range(n))
        edges = []
        for i in range(n):
            if fixed is not None and isinstance(fixed, int) and i == 0:
                edges.append(opts[fixed])
            elif isinstance(fixed, tuple) and i < 2:
                edges.append(opts[fixed[i]])
            else:
                edges.append(c.choose(f"n{i}", opts))
        doc = decoy()
        for i, e in enumerate(edges):
            p, ptr = spots[i]
            if e == "object":
                objs = [a.arg for a in p.alts if a.tag == "obj" and a != REF]
                if not objs:
                    return "only references there"
                v = gen.minimal_obj(kind if kind in objs else objs[0])
            else:
                v = {"$ref": spots[e][1] if isinstance(e, int) else
                     {"dangling": ptr + "x/y", "external": "https://e.test/x.json", "other kind": comp_target(other)}[e]}
            d, _ = gen.place(p, v, keys=(name or f"n{i}",) * p.nkeys)
            doc = gen.merge(doc, d)
        return check(doc, "graph " + " ".join(f"n{i}->{e}" for i, e in enumerate(edges)))

    sp.explore(body, pl)
