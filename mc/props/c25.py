"""Protocol bindings: every protocol slot takes its own binding and nothing else."""
import json

from .. import gen, impl, oracle
from ..engine import Violation
from ..meta import KINDS, NODEFAULT, NULL, PROTOCOLS, pyclass
from ..product import places
from .c11 import diff

ROLE = {"ServerBindingsObject": "server", "ChannelBindingsObject": "channel", "OperationBindingsObject": "operation",
        "MessageBindingsObject": "message"}
BOUNDS = {
    "quick": "4 roles x all protocols x the binding of every role and protocol (smallest, fullest; as data and as instance); "
             "every pair of protocols together; all protocols together; every binding's version left out, given, null and "
             "wrong; unknown protocols; each also at every document place of a bindings object",
    "thorough": "as quick with every foreign binding at every document place",
}
ASSUMPTIONS = []


def slots(role):
    return [(f.js, [a.arg for a in f.type if a.tag == "obj"][0]) for f in KINDS[role].fields]


def jobs(tier):
    out = [(f"{r}-{p}", ("slot", r, p, k)) for r in ROLE for p, k in slots(r)]
    out += [(f"{r}-all", ("all", r, None, None)) for r in ROLE]
    out += [(f"{r}-places{i}", ("place", r, i, None)) for r in ROLE for i in places(r)]
    return out


def every():
    return [(r, p, k) for r in ROLE for p, k in slots(r)]


def judge(cls, kname, raw, shown, check_class=None):
    try:
        want = oracle.parse_obj(kname, raw)
    except oracle.Bad:
        want = None
    m, err = impl.kind_parse(kname, raw)
    if (err is None) != (want is not None):
        raise Violation(f"{shown}: {'accepted' if err is None else 'rejected: ' + err.errors()[0]['msg']}", raw=raw)
    if want is None:
        return "rejected"
    d = diff(want, impl.dump(m))
    if d:
        raise Violation(f"{shown}: {d}", raw=raw)
    return m


def run(sp, tier, what, role, a, kname):
    rcls = pyclass(role)
    if what == "slot":
        proto = a
        f = KINDS[role].by_js(proto)
        full = gen.enrich(kname, gen.minimal_obj(kname))

        def slot(c):
            r2, p2, k2 = c.choose("binding of", every())
            raw2 = gen.minimal_obj(k2)
            if c.flag("full"):
                raw2 = gen.enrich(k2, raw2)
            shown = f"{role}.{proto} given a {r2} {p2} binding"
            if c.choose("as", ("data", "instance")) == "data":
                m = judge(rcls, role, {proto: raw2}, shown)
                if m == "rejected":
                    return "rejected"
                got = getattr(m, f.py)
                if type(got) is not pyclass(kname):
                    raise Violation(f"{shown}: became a {type(got).__name__}")
                for g in KINDS[role].fields:
                    if g is not f and getattr(m, g.py) is not None:
                        raise Violation(f"{shown}: also set {g.py}")
                return "accepted"
            inst = pyclass(k2).model_validate(raw2)
            ok = True
            try:
                m = rcls.model_validate({proto: inst})
            except impl.ValidationError:
                ok = False
            if ok != (k2 == kname):
                raise Violation(f"{shown} instance: {'accepted' if ok else 'rejected'}")
            if ok and diff(oracle.parse_obj(role, {proto: raw2}), impl.dump(m)):
                raise Violation(f"{shown} instance: {diff(oracle.parse_obj(role, {proto: raw2}), impl.dump(m))}")
            return "accepted" if ok else "rejected"

        sp.explore(slot, "slot")

        def version(c):
            v = c.choose("bindingVersion", ("left out", None, "latest", "0.0.0", "", 7, 0.1, "9.9.9"))
            raw = gen.enrich(kname, gen.minimal_obj(kname)) if c.flag("full") else gen.minimal_obj(kname)
            raw.pop("bindingVersion", None)
            if v != "left out":
                raw["bindingVersion"] = v
            m = judge(rcls, role, {proto: raw}, f"{role}.{proto} bindingVersion {v!r}")
            if m == "rejected":
                return "rejected"
            bf = KINDS[kname].by_js("bindingVersion")
            if bf is not None and getattr(getattr(m, f.py), "binding_version") != (v if v != "left out" else bf.default):
                raise Violation(f"{role}.{proto} bindingVersion {v!r} reads {getattr(m, f.py).binding_version!r}")
            return "accepted"

        sp.explore(version, "version")

        def pair(c):
            p2, k2 = c.choose("beside", [x for x in slots(role) if x[0] != proto])
            raw = {proto: gen._copy(full), p2: gen.minimal_obj(k2)}
            if c.flag("reversed"):
                raw = dict(reversed(raw.items()))
            m = judge(rcls, role, raw, f"{role} {list(raw)}")
            if m == "rejected":
                raise Violation(f"{role} {list(raw)} rejected", raw=raw)
            return "accepted"

        sp.explore(pair, "pair")
    elif what == "all":
        def alltogether(c):
            skip = c.choose("all but", [None] + [p for p, _k in slots(role)])
            full = c.flag("full")
            raw = {p: (gen.enrich(k, gen.minimal_obj(k)) if full else gen.minimal_obj(k)) for p, k in slots(role) if p != skip}
            extra = c.choose("with", (None, "x-a", "nope", "Kafka", "MQTT", "binding_version", "bindingVersion", "http2", "ws ",
                                      "null", "$ref"))
            if extra:
                raw[extra] = {"bindingVersion": "1"}
            m = judge(rcls, role, raw, f"{role} with all but {skip} and {extra}")
            return "rejected" if m == "rejected" else "accepted"

        sp.explore(alltogether, "all")
    else:
        pos = gen.positions()[a]

        def place(c):
            p, k = c.choose("protocol", slots(role))
            if tier == "thorough":
                _r2, _p2, k2 = c.choose("binding of", every())
            else:
                _r2, _p2, k2 = c.choose("binding of", [(role, p, k)] + [e for e in every() if e[1] == p and e[0] != role])
            full = c.flag("full")
            raw2 = gen.enrich(k2, gen.minimal_obj(k2)) if full else gen.minimal_obj(k2)
            doc, path = gen.place(pos, {p: raw2})
            shown = f"/{'/'.join(map(str, path))}/{p} given {k2}"
            m = judge(None, "AsyncAPI3", doc, shown)
            return "rejected" if m == "rejected" else "accepted"

        sp.explore(place, "place")
