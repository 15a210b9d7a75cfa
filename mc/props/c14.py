"""Names in maps: letters, digits, hyphens and underscores, nothing else."""
import itertools

from .. import gen, impl, oracle, space
from ..engine import Violation
from ..meta import MAPS, REF, pyclass
from ..refworld import names as member_names

ALPHA = ["a", "Z", "0", "-", "_", ".", " ", "/", "\n", "$", "~", "é", "{"]
BOUNDS = {
    "quick": "every map type x every name of length <= 3 over a 13-letter alphabet and every single character below U+0180 and every member name; "
             "every map type x 33 names x every kind of entry (references included) x 0-2 other entries before or after; "
             "every map place of the grammar (in documents) x 24 names x alone or each of 3 positions among three entries (two orders) x plain or reference entries, lean and rich; "
             "every free-form name accepted where the specification allows any",
    "thorough": "as quick with names of length <= 4 and every single character of the basic plane",
}
ASSUMPTIONS = []
ORDERS = ((), ("g0",), ("zz", "--"))
NAMES = ["a", "A-1_b", "0", "-", "_", "", " ", "a b", "a.b", "a/b", "a\n", "\na", "é", "a{", "$ref", "x-a", "a~1b", "#", "a,b",
         "\u0661", "a\u00a0", "k" * 200, "root", "a:b", "info", "G0", "components"]


def jobs(tier):
    out = [(f"map-{m}", ("map", m)) for m in MAPS]
    ps = [i for i, p in enumerate(gen.positions()) if any(a.tag in ("map", "dict") for a in p.alts)]
    return out + [(f"places{i}", ("place", ps[i:i + 8])) for i in range(0, len(ps), 8)]


def run(sp, tier, what, arg):
    if what == "map":
        cls = pyclass(arg)
        vals = [gen.minimal_alt(a) for a in MAPS[arg]]
        n = 3 if tier == "quick" else 4
        names = ["".join(t) for r in range(n + 1) for t in itertools.product(ALPHA, repeat=r)]
        names += [chr(i) for i in range(0x180 if tier == "quick" else 0xd800)]
        names = list(dict.fromkeys(names + list(member_names())))

        if not hasattr(cls, "model_validate"):
            return

        def body(c):
            k = c.choose("name", names)
            if deep:
                val = c.choose("entry", vals)
                raw = {x: val for x in c.choose("others", ORDERS) + (k,)} if c.flag("last") else \
                    {x: val for x in (k,) + c.choose("others", ORDERS)}
            else:
                raw = {k: gen.minimal(MAPS[arg])}
            try:
                m = cls.model_validate(raw)
                ok = True
            except impl.ValidationError:
                ok = False
            want = oracle.good_key(k)
            if ok != want:
                raise Violation(f"{arg}: name {k!r} {'accepted' if ok else 'rejected'}")
            if ok and list(impl.dump(m)) != list(raw):
                raise Violation(f"{arg}: name {k!r} written as {list(impl.dump(m))}")
            return "accepted" if ok else "rejected"

        deep = False
        sp.explore(body, "names")
        deep = True

        def many(c):
            n = c.choose("count", (5, 9, 17, 26, 33, 51, 65, 101, 121, 129, 257))
            at = c.choose("index", (0, 1, n // 2, n - 1, n))
            k = c.choose("name", ("ok", "k" * 65, "k" * 200, "k" * 2000, "", " ", "a b", "a.b", "a\n", "é", "$ref", "a/b", "k" * 300 + ".",
                                  "-" * 70, "9" * 70))
            val = c.choose("entry", vals)
            keys = [f"g{i}" for i in range(n)]
            keys.insert(at, k)
            try:
                m = cls.model_validate({x: val for x in keys})
                ok = True
            except impl.ValidationError:
                ok = False
            if ok != oracle.good_key(k):
                raise Violation(f"{arg}: name {k!r} {'accepted' if ok else 'rejected'} as entry {at} of {n + 1}")
            if ok and list(impl.dump(m)) != keys:
                raise Violation(f"{arg}: {n + 1} names not written as given")
            return "accepted" if ok else "rejected"

        sp.explore(many, "names among many")
        names = list(dict.fromkeys(NAMES + names[:1 + 13 + 169])) if tier == "thorough" else NAMES + [x for x in ALPHA if x not in NAMES]
        sp.explore(body, "names beside others, over every kind of entry")
        return

    def place(c):
        pos = gen.positions()[c.choose("place", arg)]
        if not pos.steps or space.either_reading(pos):
            return "two readings"
        a = [a for a in pos.alts if a.tag in ("map", "dict")][0]
        if any(b.tag == "obj" and b != REF for b in pos.alts):
            return "two readings"
        alts = MAPS[a.arg] if a.tag == "map" else a.arg
        k = c.choose("name", NAMES)
        keys = list(c.choose("others", (("g0", "g1"), ("zz", "--"), ("G1", "g0", "--"), ())))
        keys.insert(c.choose("index", range(len(keys) + 1)), k)
        refs = c.flag("references") if REF in alts and len(alts) > 1 else False
        raw = {x: gen.minimal_alt(REF) if refs else gen.minimal(alts) for x in keys}
        doc, path = gen.place(pos, raw, rich=c.flag("rich"))
        want = oracle.ok_obj("AsyncAPI3", doc)
        if a.tag == "map" and want != oracle.good_key(k) and oracle.good_key(k):
            return "breaks a rule of its host"
        m, err = impl.kind_parse("AsyncAPI3", doc)
        if (err is None) != want:
            raise Violation(f"name {k!r} in /{'/'.join(map(str, path))} {'accepted' if err is None else 'rejected'}", doc=doc)
        if not want:
            return "rejected"
        cur = impl.dump(m)
        for s in path:
            cur = cur[s]
        if list(cur) != keys:
            raise Violation(f"names {keys} in /{'/'.join(map(str, path))} written as {list(cur)}", doc=doc)
        return "accepted"

    sp.explore(place, "place")
