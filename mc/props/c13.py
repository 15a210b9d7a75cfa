"""Members the specification does not name: x- extensions kept, everything else rejected."""
import itertools

from .. import gen, impl, oracle, space
from ..engine import Violation
from ..meta import KINDS, REF

ALPHA = ["x", "-", "X", ".", "_", "a", "0", " ", "\n", "$", "é"]
BOUNDS = {
    "quick": "every kind x every member name of length <= 3 over an 11-letter alphabet and every x- name with a tail of "
             "length <= 2 over it (<= 5 over . - _ and a letter), and every misspelling of its own members; every object place of the grammar (in documents) "
             "x 16 names x 9 values, alone and beside a second extension",
    "thorough": "as quick with names of length <= 4 and tails of length <= 3",
}
ASSUMPTIONS = ["free-form kinds (schemas) keep any member"]
LONG = [p + "a" * n + q for p in ("x-", "x", "y-") for n in (30, 61, 62, 63, 64, 65, 126, 127, 128, 254, 255, 256, 1022, 5000)
        for q in ("", " ")]
COUNTS = (2, 5, 8, 10, 16, 20, 25, 32, 50, 64, 100, 128, 256)
VALS = [None, 0, {"a": [1, {"$ref": "#/x"}]}, "", [], False, {}, " ", -0.0]
TAILS = ["x-" + "".join(t) for r in range(6) for t in itertools.product("a.-_", repeat=r)]


def jobs(tier):
    out = [(f"kind-{k}", ("kind", k)) for k in KINDS]
    ps = [i for i, p in enumerate(gen.positions()) if any(a.tag == "obj" and a != REF for a in p.alts)]
    out += [(f"places{i}", ("place", ps[i:i + 60])) for i in range(0, len(ps), 60)]
    return out


def names(tier):
    n = 3 if tier == "quick" else 4
    out = ["".join(t) for r in range(n + 1) for t in itertools.product(ALPHA, repeat=r)]
    out += ["x-" + "".join(t) for r in range(n) for t in itertools.product(ALPHA, repeat=r)]
    return list(dict.fromkeys(out))


def near(k):
    """Misspellings of the kind's own members."""
    out = set()
    for f in k.fields:
        for s in (f.py, f.js):
            out |= {s.upper(), s.capitalize(), s + "s", s[:-1], "_" + s, s + "_", " " + s, s + " ", s.replace("_", "-"),
                    "x" + s, "$" + s, s.lower(), s.replace("_", ""), "x_" + s, s + "\n"}
            out.add("".join(w.capitalize() for w in s.split("_")))
    out |= {"model_config", "model_extra", "model_fields", "root", "$ref", "ref", "__class__", "__dict__", "extra",
            "extra_validators", "x-" + k.name, "X-a"}
    out |= {p + s for f in k.fields for s in (f.py, f.js) for p in ("x-", "x-x-", "X-")}
    return sorted(o for o in out if k.by_js(o) is None and k.by_py(o) is None)


def legal(kname, name):
    k = KINDS[kname]
    return k.ext == "any" or k.ext == "x" and oracle.good_ext(name)


def skip(kname, name):
    # the document's own list of converters is not a member; "root" inside a schema is read as a container
    return kname == "AsyncAPI3" and name in ("extra_validators", "extra_processors", "extra_converters", "processors") \
        or KINDS[kname].ext == "any" and name in ("root",)


def run(sp, tier, what, arg):
    if what == "kind":
        kname = arg
        base = gen.minimal_obj(kname)
        cls_names = [n for n in names(tier) + TAILS + LONG + near(KINDS[kname]) if not skip(kname, n)]
        own = {f.js for f in KINDS[kname].fields} | {f.py for f in KINDS[kname].fields}
        cls_names = [n for n in cls_names if n not in own]

        def body(c):
            n = c.choose("name", cls_names)
            raw = {**base, n: 1}
            m, err = impl.kind_parse(kname, raw)
            want = legal(kname, n)
            if (err is None) != want:
                raise Violation(f"{kname}: member {n!r} {'accepted' if err is None else 'rejected'}", raw=raw)
            if want and impl.dump(m).get(n, "missing") != 1:
                raise Violation(f"{kname}: extension {n!r} not kept", raw=raw)
            return "kept" if want else "rejected"

        sp.explore(body, "names")

        def crowd(c):
            n = c.choose("crowd", COUNTS)
            at = c.choose("index", (0, n // 2, n))
            k = c.choose("name", ("x-mine", "mine", "x-", "X-mine", "x-m n"))
            if skip(kname, k):
                return "not a member"
            stem = c.choose("stem", ("x-e", "x-e.", "x-" + "E" * 40))
            others = [stem + str(i) for i in range(n)]
            raw = {**base, **{x: i for i, x in enumerate(others[:at])}, k: "v", **{x: i for i, x in enumerate(others[at:], at)}}
            want = KINDS[kname].ext == "any" or KINDS[kname].ext == "x" and legal(kname, k)
            m, err = impl.kind_parse(kname, raw)
            if (err is None) != want:
                raise Violation(f"{kname}: member {k!r} {'accepted' if err is None else 'rejected'} beside {n} extensions", raw=raw)
            if want:
                out = impl.dump(m)
                for x in others + [k]:
                    if x not in out or out[x] != raw[x]:
                        raise Violation(f"{kname}: extension {x!r} of {n + 1} not kept", raw=raw)
            return "kept" if want else "rejected"

        sp.explore(crowd, "beside many")
        return
    ns = ["x-a", "x-A.b_c-9", "x-a..b-._", "x-name", "x-", "x-a b", "x-a\n", "xa", "X-a", "a", "x_a", "", "x-é", "description ", "-x-a", "$schema"]

    def place(c):
        pos = gen.positions()[c.choose("place", arg)]
        kname = c.choose("kind", [a.arg for a in pos.alts if a.tag == "obj" and a != REF])
        n, v = c.choose("name", ns), c.choose("value", VALS)
        obj = gen.minimal_obj(kname)
        second = KINDS[kname].ext == "x" and c.flag("beside a good extension")
        if second:
            obj["x-first"] = {"k": True}
        obj[n] = v
        if kname == "Schema" and any(a.tag == "dict" for a in pos.alts) or space.either_reading(pos):
            return "two readings"
        rich = c.flag("rich") if pos.steps else False
        doc, path = gen.place(pos, obj, rich=rich)
        m, err = impl.kind_parse("AsyncAPI3", doc)
        want = legal(kname, n)
        if kname in ("Schema", "MultiFormatSchema") and len([a for a in pos.alts if a.tag == "obj"]) > 2 and not want:
            want = oracle.ok(pos.alts, obj)
        if (err is None) != want:
            raise Violation(f"{kname} at /{'/'.join(map(str, path))}: member {n!r} {'accepted' if err is None else 'rejected'}",
                            doc=doc)
        if not want:
            return "rejected"
        cur = impl.dump(m)
        for s in path:
            cur = cur[s]
        if n not in cur or cur[n] != v or type(cur[n]) is not type(v):
            raise Violation(f"{kname} at /{'/'.join(map(str, path))}: extension {n!r} not kept as given", doc=doc)
        if second and cur.get("x-first") != {"k": True}:
            raise Violation(f"{kname} at /{'/'.join(map(str, path))}: another extension lost", doc=doc)
        return "kept"

    sp.explore(place, "place")
