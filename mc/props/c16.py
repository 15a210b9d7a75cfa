"""Security schemes and OAuth flows carry exactly the members their type calls for."""
import itertools

from .. import gen, oracle
from ..meta import KINDS
from ..product import ABSENT, explore_product, judge_doc, places

TYPES = [a.arg for a in KINDS["SecurityScheme"].by_js("type").type]
FLOW = {"authorizationUrl": "https://e.test/a", "tokenUrl": "https://e.test/t", "availableScopes": {"s": "d"}}
ALPH = {
    "type": TYPES,
    "in": [ABSENT, None, "user", "password", "query", "header", "cookie"],
    "name": [ABSENT, None, "n", "", "user", "password", "query", "header", "cookie", "x" * 200],
    "scheme": [ABSENT, None, "basic", "bearer", "Bearer", "digest", "oauth2", "", "bearer ", " bearer", "bearer\n", "xbearer", "bearerx"],
    "bearerFormat": [ABSENT, None, "JWT", ""],
    "flows": [ABSENT, None, {}, {"implicit": FLOW}],
    "openIdConnectUrl": [ABSENT, None, "https://e.test/o"],
    "scopes": [ABSENT, None, [], ["s"]],
}
BOUNDS = {
    "quick": "security schemes: the full product of 13 types x every value class (absent, null, empty, right, wrong) of 7 "
             "members; OAuth flows: the full product of 4 flows x {absent, every subset of 3 URLs} plus wrong scopes and "
             "addresses; every document place of either x every single deviation from a legal scheme of each type (plain, described, extended)",
    "thorough": "as quick with every document place x every pair of deviations",
}
ASSUMPTIONS = ["rules are those of the frozen metamodel (AsyncAPI 3.0 Security Scheme and OAuth Flows objects)"]
URLS = {"authorizationUrl": "https://e.test/a", "tokenUrl": "https://e.test/t", "refreshUrl": "https://e.test/r"}


def flow_values():
    out = [ABSENT]
    for r in range(4):
        for s in itertools.combinations(URLS, r):
            out.append({**{k: URLS[k] for k in s}, "availableScopes": {}})
    return out


def jobs(tier):
    out = [(f"scheme-{t}-{i}", ("scheme", t, i)) for t in TYPES for i in ALPH["in"]]
    out += [(f"flows{i}", ("flows", i, None)) for i in range(9)]
    for k in ("SecurityScheme", "OAuthFlows", "OAuthFlow"):
        out += [(f"{k}-place{i}", ("place", k, i)) for i in places(k)]
    return out


def legal(t):
    o = {"type": t}
    o.update({"apiKey": {"in": "user"}, "httpApiKey": {"in": "query", "name": "n"}, "http": {"scheme": "bearer"},
              "oauth2": {"flows": {"implicit": FLOW}}, "openIdConnect": {"openIdConnectUrl": "https://e.test/o"}}.get(t, {}))
    return o


def run(sp, tier, what, a, b):
    if what == "scheme":
        explore_product(sp, "SecurityScheme", ALPH, {"type": a, "in": b})
    elif what == "flows":
        vals = flow_values()
        bad = [{"authorizationUrl": "https://e.test/a", "tokenUrl": "https://e.test/t"},
               {"authorizationUrl": "https://e.test/a", "tokenUrl": "https://e.test/t", "availableScopes": {"s": 1}},
               {"authorizationUrl": "nope", "tokenUrl": "https://e.test/t", "availableScopes": {}}]
        names = [f.js for f in KINDS["OAuthFlows"].fields]
        explore_product(sp, "OAuthFlows", {n: vals for n in names}, {names[0]: vals[a]})
        if a == 0:
            for n in names:
                explore_product(sp, "OAuthFlows", {m: bad if m == n else [ABSENT, FLOW] for m in names}, name="bad " + n)
    else:
        pos = gen.positions()[b]

        def body(c):
            if a == "SecurityScheme":
                o = {**legal(c.choose("type", TYPES)), **c.choose("dress", ({}, {"x-scheme": "basic", "x-flows": {}}, {"description": "basic"}))}
                edits = [(k, v) for k, vs in ALPH.items() for v in vs]
            elif a == "OAuthFlows":
                n = c.choose("flow", [f.js for f in KINDS["OAuthFlows"].fields])
                o = {n: dict(FLOW)}
                edits = [(k.js, v) for k in KINDS["OAuthFlows"].fields for v in flow_values()]
            else:
                n = pos.steps[-1].name
                o = dict(FLOW)
                edits = [(k, ABSENT) for k in FLOW] + [(k, None) for k in FLOW] + [("availableScopes", {"s": 1}),
                                                                                   ("refreshUrl", "https://e.test/r")]
            for e in range(1 if tier == "quick" else 2):
                k, v = c.choose(f"edit{e}", [(None, None)] + edits)
                if k is not None:
                    o = {x: y for x, y in o.items() if x != k}
                    if v is not ABSENT:
                        o[k] = gen._copy(v)
            doc, path = gen.place(pos, o, decor=c.choose("siblings", ("none", "obj")), where="both")
            return judge_doc(doc, path)

        sp.explore(body, "place")
