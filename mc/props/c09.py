"""Every document is judged on its own: whatever was done before, or is done at the same time."""
from .. import gen, impl, sched
from ..engine import HarnessError, Violation

U, TG, ED = "UnifiedReferencesValidator", "TagsRefValidator", "ExternalDocsRefValidator"


def _doc(**kw):
    return {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}, **kw}


def R(x):
    return {"$ref": x}


S = {"host": "h", "protocol": "p"}
# the same places in every document; what stands there differs
DOCS = {
    "good": _doc(servers={"s": S}, channels={"c": {"address": "a", "servers": [R("#/servers/s")], "tags": [R("#/components/tags/t")],
                                                   "externalDocs": R("#/components/externalDocs/d")}},
                 components={"tags": {"t": {"name": "n"}}, "externalDocs": {"d": {"url": "https://e.test/d"}}}),
    "dangling": _doc(servers={"z": S}, channels={"c": {"address": "a", "servers": [R("#/servers/s")], "tags": [R("#/components/tags/t")],
                                                       "externalDocs": R("#/components/externalDocs/d")}},
                     components={"tags": {"z": {"name": "n"}}, "externalDocs": {"z": {"url": "https://e.test/d"}}}),
    "no components": _doc(servers={"s": S}, channels={"c": {"address": "a", "servers": [R("#/servers/s")],
                                                            "tags": [R("#/components/tags/t")]}}),
    "chain": _doc(servers={"s": R("#/components/servers/s")},
                  channels={"c": {"address": "a", "servers": [R("#/servers/s")], "tags": [R("#/components/tags/u")]}},
                  components={"servers": {"s": S}, "tags": {"u": R("#/components/tags/t"), "t": {"name": "n"}}}),
    "cycle": _doc(servers={"s": R("#/components/servers/s")},
                  channels={"c": {"address": "a", "servers": [R("#/servers/s")]}}, components={"servers": {"s": R("#/servers/s")}}),
    "wrong kind": _doc(servers={"s": S}, channels={"c": {"address": "a", "servers": [R("#/channels/c")],
                                                         "tags": [R("#/components/externalDocs/d")]}},
                       components={"externalDocs": {"d": {"url": "https://e.test/d"}}}),
    "external": _doc(servers={"s": R("https://e.test/s")}, channels={"c": {"address": "a", "servers": [R("https://e.test/s")],
                                                                           "tags": [R("https://e.test/t")]}}),
    "plain": _doc(channels={"c": {"address": "a"}}),
    "one external": _doc(channels={"c": {"address": "a", "servers": [R("https://e.test/s")]}}),
    "illegal": _doc(channels={"bad name": {"address": "a"}}),
}
# one reference each, for the thread schedules
DOCS.update({
    "one good": _doc(servers={"s": S}, channels={"c": {"address": "a", "servers": [R("#/servers/s")]}}),
    "one dangling": _doc(servers={"z": S}, channels={"c": {"address": "a", "servers": [R("#/servers/s")]}}),
    "one chain": _doc(components={"tags": {"t": R("#/components/tags/u"), "u": {"name": "n"}}}),
    "one cycle": _doc(components={"tags": {"t": R("#/components/tags/u"), "u": R("#/components/tags/t")}}),
    "one wrong": _doc(servers={"s": S}, channels={"c": {"address": "a", "servers": [R("#/channels/c")]}}),
})
SHARED = {}


def answer(spec, err, warns=()):
    return ("accepted", spec.model_dump_json(), warns) if err is None else ("rejected", str(err), warns)


def op_parse(name, *vals):
    def f():
        impl.CAP.msgs.clear()
        spec, err = impl.parse(gen._copy(DOCS[name]), *[impl.validator(v) for v in vals])
        return answer(spec, err, tuple(sorted(set(impl.CAP.msgs))))
    return f


def op_shared(name, val):
    """A validator object kept and used again and again."""
    def f():
        spec, err = impl.parse(gen._copy(DOCS[name]))
        if err is not None:
            return answer(spec, err)
        v = SHARED.setdefault(val, impl.validator(val)())
        try:
            return "accepted", v(spec) is spec
        except ValueError as e:
            return "rejected", str(e)
    return f


KEPT = {}


def op_same(name, val):
    """The same document object judged again and again."""
    def f():
        if name not in KEPT:
            KEPT[name] = impl.parse(gen._copy(DOCS[name]))[0]
        v = SHARED.setdefault(val, impl.validator(val)())
        try:
            return "accepted", v(KEPT[name]) is KEPT[name]
        except ValueError as e:
            return "rejected", str(e)
    return f


def op_builder(value):
    def f():
        b = impl.AsyncAPI3.as_builder()
        empty = b.model_dump_json()
        try:
            b.channels = gen._copy(value)
            return "assigned", b.model_dump_json(), empty
        except impl.ValidationError as e:
            return "refused", str(e), b.model_dump_json() == empty
    return f


def op_edit(name, *vals):
    """Parse, then edit the result everywhere."""
    def f():
        spec, err = impl.parse(gen._copy(DOCS[name]), *[impl.validator(v) for v in vals])
        if err is not None:
            return answer(spec, err)
        first = spec.model_dump_json()
        if spec.channels and "c" in spec.channels:
            ch = spec.channels["c"]
            if ch.tags:
                ch.tags.append(impl.Reference(ref="#/nope"))
            if ch.servers:
                ch.servers.clear()
            ch.title = "edited"
            spec.channels["new"] = ch
        if spec.components and spec.components.tags:
            spec.components.tags.root.clear()
        spec.info.title = "edited"
        return first, spec.model_dump_json()
    return f


def op_builder_edit():
    b = impl.AsyncAPI3.as_builder()
    first = b.model_dump_json()
    b.channels["x"] = impl.parse(DOCS["plain"])[0].channels["c"]
    b.components.tags["x"] = impl.Reference(ref="#/nope")
    b.extra_validators.append(impl.validator(TG))
    b.extra_converters.append(impl.validator(TG))
    b.info.title = "edited"
    return first, b.model_dump_json()


def op_resolve(name, ref):
    def f():
        from asyncapi3.validators.utils import resolve_reference
        spec, err = impl.parse(gen._copy(DOCS[name]))
        try:
            r = resolve_reference(ref, spec)
            return ("object", r.resolved_type.__name__, r.resolved_object.model_dump_json()) if r else "external"
        except ValueError as e:
            return str(e)
    return f


OPS = {f"parse {n}": op_parse(n, U) for n in DOCS}
OPS.update({
    "parse good all": op_parse("good", U, TG, ED),
    "parse dangling tags": op_parse("dangling", TG), "parse dangling docs": op_parse("dangling", ED),
    "parse dangling nothing": op_parse("dangling"),
    "shared good": op_shared("one good", U), "shared dangling": op_shared("one dangling", U),
    "shared chain": op_shared("one chain", U), "shared cycle": op_shared("one cycle", U), "shared wrong": op_shared("one wrong", U),
    "shared tags good": op_shared("good", TG), "shared tags none": op_shared("no components", TG),
    "shared docs good": op_shared("good", ED), "shared docs dangling": op_shared("dangling", ED),
    "same chain": op_same("one chain", U), "same dangling": op_same("one dangling", U), "same good": op_same("one good", U),
    "same good all": op_same("good", U),
    "builder good": op_builder({"c": {"address": "a"}}), "builder bad": op_builder({"c": R("#/channels/nope")}),
    "edit good": op_edit("good", U), "edit builder": op_builder_edit,
    "resolve chain": op_resolve("chain", "#/servers/s"), "resolve cycle": op_resolve("cycle", "#/servers/s"),
})
NAMES = list(OPS)
# the operations of the longest histories
CORE = ["parse good", "parse dangling", "parse one chain", "parse cycle", "parse wrong kind", "parse illegal", "shared good",
        "shared dangling", "shared chain", "shared wrong", "shared tags good", "shared tags none", "shared docs dangling",
        "same good", "builder bad", "edit good", "edit builder"]

# which operations meet in two threads (some with the same validator object, some on the same document object)
PAIRS = [("shared good", "shared dangling"), ("shared chain", "shared chain"), ("shared good", "shared cycle"),
         ("same good", "same good"), ("same dangling", "same dangling"), ("shared wrong", "same good"), ("shared tags good", "shared tags none"),
         ("shared docs good", "shared docs dangling"), ("parse one good", "parse one dangling"),
         ("parse one chain", "parse one good"), ("builder good", "builder bad"), ("parse one wrong", "parse one external"),
         ("resolve chain", "resolve cycle"), ("edit builder", "builder good")]
KEEP = {"same chain": "one chain", "same good": "one good", "same dangling": "one dangling", "same good all": "good"}
BOUNDS = {
    "quick": f"every history of <= 2 of {len(NAMES)} operations and of 3 of {len(CORE)} (parsing with and without validators, "
             "validator objects kept and reused, builders, editing results, resolving), each in a fresh process; every core operation 12 and 130 times over, then every other one, and 1100 times over, then 3 others; 14 pairs of "
             "operations in two threads: every schedule with one preemption before the first 8 and the last call of every "
             "function (before every source line where an operation has under 1000 steps)",
    "thorough": "histories of <= 3 of all operations and 4 of the core; 600 (5000) repetitions; the 14 pairs with one preemption before the first 6 and "
                "the last visit of every source line, and two preemptions before the first 2 and the last visit of every function",
}
ASSUMPTIONS = ["two threads, CPython with its global lock; scheduling points in the library's own Python code; the interpreter, "
               "pydantic and the standard library run uninterrupted between them"]
_FRESH = {}


def fresh(name):
    if name not in _FRESH:
        _FRESH[name] = sched.isolated(OPS[name])
    return _FRESH[name]


def jobs(tier):
    out = [(f"history {n}", ("history", i)) for i, n in enumerate(NAMES)]
    out += [(f"long {n}", ("long", i)) for i, n in enumerate(CORE)]
    for p in range(len(PAIRS)):
        n = f"threads {PAIRS[p][0]} | {PAIRS[p][1]}"
        if tier == "quick":
            out += [(f"{n} {i}", ("threads", p, "quick", i, 3)) for i in range(3)]
        else:
            out += [(f"{n} lines {i}", ("threads", p, "lines", i, 8)) for i in range(8)]
            out += [(f"{n} two {i}", ("threads", p, "two", i, 8)) for i in range(8)]
    return out


def run(sp, tier, what, p, *args):
    if what == "history":
        full, depth = (2, 3) if tier == "quick" else (3, 4)

        def history(c):
            hist = [NAMES[p]]
            long = hist[0] in CORE and c.flag("longest, of core operations")
            for i in range(1, depth if long else full):
                n = c.choose(f"op{i}", CORE if long else NAMES)
                hist.append(n)
            wants = [fresh(n) for n in hist]

            def go():
                return [OPS[n]() for n in hist]

            got = sched.isolated(go)
            if got[0] == "died":
                raise Violation(f"{hist}: {got[1]}")
            for n, g, w in zip(hist, got, wants):
                if g != w:
                    raise Violation(f"{n!r} after {hist} gives {str(g)[:300]}, alone {str(w)[:300]}")
            return "as alone: " + ", ".join(map(verdict, wants))

        sp.explore(history, "history")
        return
    if what == "long":
        def longs(c):
            n = c.choose("times", (12, 130, 1100) if tier == "quick" else (12, 130, 600, 5000))
            first = CORE[p]
            probe = c.choose("then", CORE if n < 1000 else [x for x in ("parse dangling", "shared dangling", "shared tags none") if x != first])

            def go():
                seen = {}
                for i in range(n):
                    seen.setdefault(str(OPS[first]()), i)
                return sorted(seen.items(), key=lambda x: x[1])[:2], OPS[probe]()

            got = sched.isolated(go)
            if got[0] == "died":
                raise Violation(f"{n} x {first!r}: {got[1]}")
            if [x for x, _i in got[0]] != [str(fresh(first))]:
                raise Violation(f"{first!r} done {n} times gives {str(got[0])[:400]}, alone {str(fresh(first))[:300]}")
            if got[1] != fresh(probe):
                raise Violation(f"{probe!r} after {n} x {first!r} gives {str(got[1])[:300]}, alone {str(fresh(probe))[:300]}")
            return "as alone: " + verdict(fresh(probe))

        sp.explore(longs, "long")
        return
    how, part, parts = args
    a, b = PAIRS[p]
    wants = [fresh(a), fresh(b)]

    def bodies():
        for v in (U, TG, ED):
            SHARED[v] = impl.validator(v)()
        for n in (a, b):
            if n in KEEP and KEEP[n] not in KEPT:
                KEPT[KEEP[n]] = impl.parse(gen._copy(DOCS[KEEP[n]]))[0]
        return [OPS[a], OPS[b]]

    def execute(plan, lines):
        return sched.isolated(lambda: sched.Run(bodies(), plan, lines).run())

    def places(t, lines, most):
        one = sched.isolated(lambda: sched.visits(sched.Run(bodies(), [], lines), t, most))
        two = sched.isolated(lambda: sched.visits(sched.Run(bodies(), [], lines), t, most))
        if one != two:
            raise HarnessError(f"{a} | {b}: the same schedule takes different steps: {one[1]}, {two[1]}")
        return one

    pts, gran = [None, None], [False, False]
    for t in (0, 1):
        if how == "quick":
            pts[t], n = places(t, True, None)
            gran[t] = n < 1000
            if not gran[t]:
                pts[t], n = places(t, False, 8)
        elif how == "lines":
            gran[t] = True
            pts[t], n = places(t, True, 6)
        else:
            pts[t], n = places(t, False, 2)

    def threads(c):
        t = c.choose("first", (0, 1))
        mine = pts[t][part::parts]
        if not mine:
            return "none"
        plan = [(t, c.choose("preempt after", mine)), (1 - t, None), (t, None)]
        if how == "two":
            plan[1] = (1 - t, c.choose("again after", pts[1 - t]))
        got = execute(plan, gran[t])
        if got[0] in ("died", "hang"):
            raise Violation(f"{a} | {b} under schedule {plan}: {got}")
        for name, g, w in zip((a, b), got[0], wants):
            if warnless(g) != warnless(w):
                raise Violation(f"{name!r} while {a!r} | {b!r} run under schedule {plan} gives {str(g)[:300]}, alone {str(w)[:300]}")
        return "as alone: " + " | ".join(map(verdict, wants))

    sp.explore(threads, "threads")


def verdict(x):
    return x[0] if isinstance(x, tuple) and x[0] in ("accepted", "rejected", "assigned", "refused") else "done"


def warnless(x):
    """The capture of warnings is the harness's own and shared between threads."""
    return x[:2] if isinstance(x, tuple) and len(x) == 3 and isinstance(x[2], tuple) else x
