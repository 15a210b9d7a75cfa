"""Formatted strings: specification version, e-mail, runtime expression, URLs."""
import itertools

from .. import gen, impl, oracle
from ..engine import Violation
from ..meta import KINDS
from ..product import judge

VT = ["3", "0", "10", ".", "-", "a", "_", "\n", " ", "é", "\u0663", "+"]
ET = ["a", "Z", "0", ".", "@", "-", "_", "%", "+", " ", "\n", "é", "co", "!"]
LT = ["$message", ".", "header", "#/", "$", "message", " ", "payload", "\n", "$Message"]
BOUNDS = {
    "quick": "version: every string of <= 5 of 12 tokens, and 3.x.y followed or preceded by every string of <= 3; e-mail: "
             "every string of <= 5 of 14 tokens, and every local part / domain of <= 3 tokens; runtime expression: every "
             "string of <= 4 of 10 tokens, and after the required prefix; e-mail: 18 local parts x 23 domains x decorations; URLs: 62 addresses (up to 6000 characters) at every URL member of every "
             "kind and every document place",
    "thorough": "as quick with version and e-mail strings of <= 6 tokens",
}
ASSUMPTIONS = ["URLs: 62 addresses clear of the corner cases of URL grammars"]

URLS = ["https://e.test/d", "http://e.test/d", "urn:x:y", "ftp://h/x", "mailto:a@b.co", "wss://h.test/x", "tag:x,2020:y",
        "https://e.test/a?b=c#d", "http://127.0.0.1:81/x", "https://e.test:8443/x", "", " ", "nope", "//e.test/x", "/x",
        "e.test/x", "https://", "http://", "https:", ":x", "http//e.test", "1http://e.test/x", "ht tp://e.test", "./x",
        "?x=1", "#x", "http:// e.test/x", "https://e.test/" + "x" * 2050, "http://e.test/?" + "q" * 1900]
LONG = "https://e.test/" + "x" * 6000


LOCALS = ["root", "a", "first.last", ".a", "a.", "a..b", "a+b", "a%b", "\"q q\"", "a\\b", "ü", "A_B-1", "a" * 70, "a/b", "a=b", "a'b", "*", ""]
DOMAINS = ["localhost", "b.co", "b", "b.c", "[1.2.3.4]", "1.2.3.4", "b..co", "b.co.", ".b.co", "-b.co", "b-.co", "B.CO", "b.c0",
           "xn--e1.xn--p1ai", "é.fr", "b.é", "b.museum", "b." + "z" * 70, "b_c.de", "b c.de", "localhost.localdomain", "b.local", ""]


def jobs(tier):
    n = 5 if tier == "quick" else 6
    out = [(f"version{i}", ("version", i, n)) for i in range(len(VT))] + [("version-around", ("version-around", None, 3))]
    out += [(f"email{i}", ("email", i, n)) for i in range(len(ET))] + [("email-parts", ("email-parts", None, 3))]
    out += [(f"location{i}", ("location", i, 4)) for i in range(len(LT))] + [("location-after", ("location-after", None, 4))]
    urls = [(k.name, f.js) for k in KINDS.values() for f in k.fields if any(a.tag in ("url", "httpurl") for a in f.type)]
    out += [("url-members", ("url-members", urls, 0))]
    ps = [i for i, p in enumerate(gen.positions()) if any(a.tag in ("url", "httpurl", "email") for a in p.alts)]
    out += [(f"places{i}", ("places", ps[i:i + 20], 0)) for i in range(0, len(ps), 20)]
    return out


def run(sp, tier, what, a, n):
    if what in ("version", "email", "location"):
        toks = {"version": VT, "email": ET, "location": LT}[what]

        def body(c):
            k = c.choose("length", tuple(range(1, n + 1))) if a else c.choose("length", tuple(range(n + 1)))
            s = "".join(toks[a] if i == 0 else c.choose(f"t{i}", toks) for i in range(k))
            return one(what, s)

        sp.explore(body, what)
    elif what == "version-around":
        def around(c):
            core = c.choose("core", ("3.0.0", "3.1.22", "2.6.0", "03.0.0", "3.0.0-rc.1", "30.0.0", "13.0.0", "4.0.0", "3.0.0-" + "a" * 30, "3.0.0-" + "rc1" * 100, "3." + "0" * 30 + ".1", "3.1." + "9" * 400))
            k = c.choose("length", tuple(range(n + 1)))
            s = "".join(c.choose(f"t{i}", VT) for i in range(k))
            return one("version", core + s if c.flag("after") else s + core)

        sp.explore(around, what)
    elif what == "email-parts":
        def parts(c):
            side = c.choose("side", ("local", "domain", "tld", "after", "before"))
            k = c.choose("length", tuple(range(n + 1)))
            s = "".join(c.choose(f"t{i}", ET) for i in range(k))
            return one("email", {"local": s + "@b.co", "domain": f"a@{s}.co", "tld": f"a@b.{s}", "after": "a@b.co" + s,
                                 "before": s + "a@b.co"}[side])

        sp.explore(parts, what)

        def usual(c):
            loc = c.choose("local", LOCALS)
            return one("email", c.choose("pre", ("", "mailto:", "<", " ")) + loc + c.choose("at", ("@", "@@", "", " @ ")) +
                       c.choose("domain", DOMAINS) + c.choose("post", ("", ">", " ", "\n", "\r\n", "\u2028", "?x=1", ",b@c.de")))

        sp.explore(usual, "usual")
    elif what == "location-after":
        def after(c):
            k = c.choose("length", tuple(range(n + 1)))
            s = "".join(c.choose(f"t{i}", LT) for i in range(k))
            return one("location", "$message." + s if c.flag("after") else s + "$message.header#/x")

        sp.explore(after, what)
    elif what == "url-members":
        def member(c):
            kname, js = c.choose("member", a)
            http = any(x.tag == "httpurl" for x in KINDS[kname].by_js(js).type)
            u = c.choose("url", URLS + ([] if http else [LONG]) + [7, ["https://e.test/d"], {"url": "https://e.test/d"}])
            raw = gen.with_member(kname, js, "https://e.test/d")
            raw[js] = u
            return judge(kname, raw)

        sp.explore(member, what)
    else:
        def place(c):
            pos = gen.positions()[c.choose("place", a)]
            em = any(x.tag == "email" for x in pos.alts)
            v = c.choose("value", ["a@b.co", "a@b", "@b.co", "a@b.co\n", "a..b@c.de", "a b@c.de", "A@B.CO", ""] if em else URLS)
            doc, path = gen.place(pos, v, rich=c.flag("rich"))
            want = oracle.ok_obj("AsyncAPI3", doc)
            m, err = impl.kind_parse("AsyncAPI3", doc)
            if (err is None) != want:
                raise Violation(f"{v!r} at /{'/'.join(map(str, path))} {'accepted' if err is None else 'rejected'}", doc=doc)
            return "accepted" if want else "rejected"

        sp.explore(place, "place")


def one(what, s):
    if what == "version":
        return judge("AsyncAPI3", {"asyncapi": s, "info": {"title": "t", "version": "v"}})
    if what == "email":
        return judge("Contact", {"email": s})
    return judge("CorrelationID", {"location": s})
