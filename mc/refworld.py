"""Documents with references: positions, targets and the verdict the metamodel gives."""
from __future__ import annotations

import functools

from . import gen, oracle
from .meta import COMPONENT_KIND, KINDS, MAPS, REF, T

COLLECTIONS = list(COMPONENT_KIND)                    # spec names, document order
COLL_OF = {}
for _c, _ks in COMPONENT_KIND.items():
    for _k in _ks:
        COLL_OF.setdefault(_k, _c)


@functools.lru_cache(None)
def decoy_json():
    comps = {c: {"t": gen.minimal_obj(ks[-1])} for c, ks in COMPONENT_KIND.items()}
    comps["schemas"]["m"] = gen.minimal_obj("MultiFormatSchema")
    ch = {"address": "a/{p}", "messages": {"m": {"headers": {"type": "object"}, "payload": {"type": "object"}}},
          "parameters": {"p": {"description": "d"}}}
    comps["channels"]["t"] = gen._copy(ch)
    return {
        "info": {"title": "s", "version": "s"},
        "servers": {"t": {"host": "h", "protocol": "p", "variables": {"v": {"default": "d"}}}},
        "channels": {"t": ch},
        "operations": {"t": {"action": "send", "channel": {"$ref": "#/channels/t"}, "reply": {}}},
        "components": comps,
    }


def decoy():
    """A valid document with one object of every kind under the name t in every collection."""
    return gen._copy(decoy_json())


STAGES = ("bare", "servers", "channels", "operations", "info")


def stage(name, *colls):
    """The smallest document around a position: one root section, and only the given collections."""
    full = decoy()
    doc = {"info": full["info"]}
    if name == "operations":
        doc["channels"] = full["channels"]
    if name == "info":
        doc["info"] = gen._copy(dict(doc["info"], tags=[{"name": "n"}], externalDocs={"url": "https://e.test/"}))
    elif name != "bare":
        doc[name] = full[name]
    if colls:
        doc["components"] = {c: full["components"][c] for c in colls}
    return doc


HEADS = ({"asyncapi": "3.0.0-rc.1"}, {"asyncapi": "3.12.4", "id": "urn:x:y", "defaultContentType": "a/b"}, {"x-a": {"$ref": "#/nope"}},
         {"asyncapi": "3.0.1", "x-b": 1})
CROWD = 110


@functools.lru_cache(None)
def _crowd():
    """The decoy with many right references, all different, before and after everything else."""
    doc = decoy()
    comps = doc["components"]
    n = CROWD // 2
    comps["tags"].update({f"c{i}": {"name": f"n{i}"} for i in range(n)})
    doc["info"]["tags"] = [{"$ref": f"#/components/tags/c{i}"} for i in range(n)]
    comps["messageBindings"].update({f"c{i}": {"$ref": "#/components/messageBindings/" + (f"c{i - 1}" if i % 5 else "t")} for i in range(n)})
    return doc


def crowded(c, pos, ref, good):
    """(document, path) with the reference in a crowd of right ones: elsewhere, or in the same list or map."""
    beside = pos.steps[-1].how != "field" and c.flag("beside")
    if not beside:
        doc, path = gen.place(pos, {"$ref": ref})
        return gen.merge(_crowd(), doc), path
    k = c.choose("index", (CROWD, 0))
    vals = [{"$ref": good} for _ in range(CROWD)]
    vals.insert(k, {"$ref": ref})
    item = pos.steps[-1].how == "item"
    whole = vals if item else {f"k{i}": v for i, v in enumerate(vals)}
    doc, path = gen.place(gen.Pos(pos.steps[:-1], gen.ANY), whole)
    return gen.merge(decoy(), doc), path + (k if item else f"k{k}",)


PEERS = ((3, 0), (3, 1), (3, 3), (7, 4), (7, 7), (40, 3), (40, 40))


def peers(c, pos, ref, good):
    """(document, path) with the reference in one of several like hosts, the others holding right references."""
    steps = [j for j, s in enumerate(pos.steps[:-1]) if s.how != "field"]
    if not steps:
        return None, None
    j = c.choose("level", steps)
    n, at = c.choose("peers", PEERS)
    rest = gen.Pos(pos.steps[j + 1:], pos.alts)
    objs, inner = [], ()
    for i in range(n + 1):
        o, inner = gen.place(rest, {"$ref": ref if i == at else good})
        objs.append(gen._copy(o))
    item = pos.steps[j].how == "item"
    doc, path = gen.place(gen.Pos(pos.steps[:j], gen.ANY), objs if item else {f"k{i}": o for i, o in enumerate(objs)})
    return gen.merge(decoy(), doc), path + (at if item else f"k{at}",) + inner


WORDS = ("", "s", "r", "ss", "sr", "rs", "rr", "sss", "srs", "rsr", "rrr", "ssr", "rrs", "sssss", "rrrrr")


def company(c, pos, ref):
    """The reference, or a host of it, between every short sequence of plain objects (s) and right references (r)."""
    levels = [j for j, s in enumerate(pos.steps) if s.how != "field"]
    if not levels:
        return None, None
    j = c.choose("level", levels)
    s = pos.steps[j]
    objs = [a for a in s.alts if a.tag == "obj" and a != REF]
    words = [w for w in WORDS if (objs or "s" not in w) and (REF in s.alts or "r" not in w)]
    pre, post = c.choose("before", words), c.choose("after", [w for w in words if len(w) < 2])
    me, inner = gen.place(gen.Pos(pos.steps[j + 1:], pos.alts), {"$ref": ref})
    vals = [gen.minimal(s.alts) if x == "s" else {"$ref": gen.right_ref(s.alts)} for x in pre + post]
    vals.insert(len(pre), me)
    item = s.how == "item"
    doc, path = gen.place(gen.Pos(pos.steps[:j], gen.ANY), vals if item else {f"k{i}": v for i, v in enumerate(vals)})
    return gen.merge(decoy(), doc), path + (len(pre) if item else f"k{len(pre)}",) + inner


@functools.lru_cache(None)
def canonical():
    """One position of every set of expected kinds."""
    seen, out = set(), set()
    for i, p in enumerate(refpos()):
        e = gen.expected_kinds(p)
        if e not in seen:
            seen.add(e)
            out.add(i)
    return out


NAME = "A-b_c1"
ALIKE = ["A_b_c1", "A-b-c1", "A_b-c1", "a-b_c1", "A-B_C1", "A-b_C1", "Ab_c1", "A-b_c", "A-b", "A", "b_c1", "A-b_c11", "A-b_c01", "A-b_c1-", "A-b_c1_",
         "_A-b_c1", "-A-b_c1", "A--b_c1", "A-b__c1", "A-b_c1s", "A-b_c1A-b_c1", "./A-b_c1", "../A-b_c1", "A-b_c1/.", "A-b_c1/..", "x/../A-b_c1",
         "A b c1", "A.b_c1", "A-b.c1", "A-b_c\uff11", "A\u2010b_c1", "\u0410-b_c1", "A-b_c1\u200b", "\ufeffA-b_c1", "A-b_c1\x00", "A-b_c1:", "#A-b_c1", "$A-b_c1"]
NEARBY = ("a-b", "a_b", "ab", "aB", "Ab", "AB", "a--b", "a__b", "a-b-", "_a_b", "a-b-a-b", "b-a", "1", "01", "-1", "1_0", "10", "a-b1", "a-b2")
# (a name that is there, a name that is not)
NEAR = [(x, y) for x in NEARBY for y in NEARBY if x != y]


HOSTKEYS = ("default", "example", "sample", "_", "x-c", "0", "all", "k", "zz", "Default", "model_config")


def hosts(c, pos, tgt):
    """The host of the reference with each one, and each all-but-one, of its other members; entries of odd names beside others."""
    st = [s for s in pos.steps if s.how == "field"][-1]
    others = [f for f in KINDS[st.kind].fields if f.js != st.name and f.type[0].tag != "lit"]
    how = c.choose("how", ("with", "without", "entry", "extension"))
    if how == "entry":
        if pos.steps[-1].how != "key":
            return None, None
        n = c.choose("key", HOSTKEYS)
        return gen.place(pos, {"$ref": tgt}, keys=("k",) * (pos.nkeys - 1) + (n,), decor="right", where=c.choose("side", ("before", "after", "both")))
    if how == "extension":
        if KINDS[st.kind].ext == "none":
            return None, None
        doc, path = gen.place(pos, {"$ref": tgt})
        host = doc
        for s in path[:max(i for i, s in enumerate(pos.steps) if s.how == "field")]:
            host = host[s]
        host.update({"x-a": 1} if c.flag("one") else {"x-a": {"$ref": "#/nope"}, "x-b": None})
        return doc, path
    if not others:
        return None, None
    f = c.choose("member", others)
    doc, path = gen.place(pos, {"$ref": tgt}, rich=how == "without")
    cut = max(i for i, s in enumerate(pos.steps) if s.how == "field")
    host = doc
    for s in path[:cut]:
        host = host[s]
    old = dict(host)
    if how == "with":
        host[f.js] = gen._copy(gen.field_special(st.kind, f))
    elif f.js in host:
        del host[f.js]
    if not oracle.ok_obj(st.kind, host):
        host.clear()
        host.update(old)
        return None, None
    return doc, path


def headed(c, pos, ref):
    """(document, path) with unusual members at the top."""
    doc, path = gen.place(pos, {"$ref": ref})
    return {**gen.merge(decoy(), doc), **c.choose("head", HEADS)}, path


SPREAD = ("crowd", "head", "peers", "company", "hosts")


def spread(c, axis, pos, ref, good):
    if axis == "crowd":
        return crowded(c, pos, ref, good)
    if axis == "company":
        return company(c, pos, ref)
    if axis == "hosts":
        doc, path = hosts(c, pos, ref)
        return doc and gen.merge(decoy(), doc), path
    return peers(c, pos, ref, good) if axis == "peers" else headed(c, pos, ref)


CLOTHES = ("extension", "extensions", "texts", "all")


def clothed(kind, how):
    """A legal object of the kind that carries more than its required members."""
    o = gen.minimal_obj(kind)
    k = KINDS[kind]
    if how == "texts":
        for f in k.fields:
            if f.js not in o and f.type and f.type[0].tag == "str" and oracle.ok_obj(kind, {**o, f.js: gen.minimal(f.type, f.mods)}):
                o[f.js] = gen.minimal(f.type, f.mods)
    elif how == "all":
        o = gen.enrich(kind, o)
    if how != "texts" and k.ext != "none":
        o["x-a"] = {"$ref": "#/nope"}
        if how != "extension":
            o["x-b"] = None
            o["x-type"] = kind
    return o


def kind_at(doc, ref, root="AsyncAPI3"):
    """What an internal reference denotes in a raw document.

    Returns a kind name (an object), "Reference" (another reference), "value" (a scalar, list or
    map: no referenceable object), or None (nothing there).
    """
    alts, cur = (T("obj", root),), doc
    if not ref.startswith("#/"):
        return None
    for part in ref[2:].split("/"):
        a = oracle.select(alts, cur)
        if a is None or not isinstance(cur, dict) or part not in cur:
            return None
        if a.tag == "map":
            alts = MAPS[a.arg]
        elif a.tag == "dict":
            alts = a.arg
        elif a.tag == "obj":
            f = KINDS[a.arg].by_js(part)
            if f is None:
                return None
            alts = f.type
        else:
            return None
        cur = cur[part]
        if cur is None:
            return None
    a = oracle.select(alts, cur)
    if a is None or a.tag != "obj":
        return "value"
    return a.arg


def final_kind(doc, ref):
    """Follow alias chains: kind name, "external", "cycle", "value" or None (dangling/unsupported)."""
    seen = set()
    while True:
        if ref.startswith(("http://", "https://")):
            return "external"
        if ref in seen:
            return "cycle"
        seen.add(ref)
        k = kind_at(doc, ref)
        if k != "Reference":
            return k
        ref = oracle.pointer(doc, ref)["$ref"]


def all_refs(doc):
    """Every (path, position alternatives, reference string) of a raw document, by the grammar."""
    out = []

    def go(alts, v, path, host):
        a = oracle.select(alts, v)
        if a is None:
            return
        if a == REF:
            out.append((path, alts, v["$ref"], host))
        elif a.tag == "list":
            for i, x in enumerate(v):
                go(a.arg, x, path + (i,), host)
        elif a.tag in ("dict", "map"):
            sub = MAPS[a.arg] if a.tag == "map" else a.arg
            if a.tag == "dict" and any(b.tag == "obj" and b.arg == "Schema" for b in alts):
                go((T("obj", "Schema"),), v, path, host)      # kafka key: a schema or a free-form map
                return
            for k, x in v.items():
                go(sub, x, path + (k,), host)
        elif a.tag == "obj":
            for f in KINDS[a.arg].fields:
                if f.js in v:
                    go(f.type, v[f.js], path + (f.js,), f.js)

    go((T("obj", "AsyncAPI3"),), doc, (), None)
    return out


ONLY_REF = {"channel": ("Channel",), "messages": ("Message",), "servers": ("Server",)}


def admissible(alts, host):
    objs = tuple(a.arg for a in alts if a.tag == "obj" and a != REF)
    return objs or ONLY_REF[host]


def ref_ok(doc, alts, ref, host):
    k = final_kind(doc, ref)
    return k == "external" or k in admissible(alts, host)


def doc_ok(doc):
    """The verdict the reference rules give for a whole raw document."""
    return all(ref_ok(doc, alts, ref, host) for _p, alts, ref, host in all_refs(doc))


def chunks(seq, n):
    return [seq[i:i + n] for i in range(0, len(seq), n)]


@functools.lru_cache(None)
def refpos():
    return tuple(gen.ref_positions())


CONTEXTS = [("none", "before", False), ("obj", "both", False), ("ref", "both", False), ("right", "both", False),
            ("none", "before", True), ("right", "both", True)]


# ------------------------------------------------------------- the target side
@functools.lru_cache(None)
def targets():
    """Every list-free place of the grammar as (position, pointer with key t, kind or "value")."""
    out = []
    for p in gen.positions():
        if p.has_list or not p.steps:
            continue
        if any(s.kind == "KafkaMessageBindings" and s.name == "key" for s in p.steps):
            continue                                     # a schema or a free-form map: either reading will do
        objs = [a.arg for a in p.alts if a.tag == "obj" and a != REF]
        ptr = "#/" + "/".join("t" if s.how == "key" else s.name for s in p.steps)
        if REF in p.alts and not objs:
            continue                                     # holds nothing but references
        for k in objs or ["value"]:
            out.append((p, ptr, k))
    return tuple(out)


@functools.lru_cache(None)
def _target_doc(i):
    p, _ptr, k = targets()[i]
    v = gen.minimal(p.alts, p.modsd) if k == "value" else gen.minimal_obj(k)
    return gen.place(p, v, keys=("t",) * p.nkeys)[0]


def target_doc(i):
    return gen._copy(_target_doc(i))


@functools.lru_cache(None)
def targets_by_kind():
    d = {}
    for i, (_p, _ptr, k) in enumerate(targets()):
        d.setdefault(k, []).append(i)
    return d


@functools.lru_cache(None)
def representatives():
    """One target per object kind, three for plain values, and every collection's own object."""
    out = []
    for k, idx in targets_by_kind().items():
        if k == "value":
            seen = set()
            for i in idx:
                tag = targets()[i][0].alts[0].tag
                if tag not in seen:
                    seen.add(tag)
                    out.append(i)
        else:
            out += idx[:1]
    return tuple(out)


@functools.lru_cache(None)
def right_positions(kind):
    """Reference positions that admit this kind, first and last in document order."""
    ps = [p for p in refpos() if kind in gen.expected_kinds(p)]
    return (ps[0], ps[-1]) if ps else ()


@functools.lru_cache(None)
def names():
    """Every member name (both spellings) of every kind, plus strings that are special somewhere."""
    n = {"a--b", "--", "__", "-a", "a-", "a_-_b", "007", "null", "true", "Tag", "root", "spec", "0", "-1", "_", "-", "A", "ref", "self", "k" * 60, "__class__", "model_fields", "keys", "x-c", "X-1",
         "items", "None", "channels-1", "x-y", "1e5", "get"}
    for k in KINDS.values():
        for f in k.fields:
            n |= {f.py, f.js}
    return tuple(sorted(s for s in n if oracle.good_key(s)))


SHORT = ["x-c", "X-1", "root", "spec", "0", "-1", "channels", "messages", "reply", "traits", "tags", "security", "bindings", "servers",
         "operations", "external_docs", "externalDocs", "variables", "headers", "payload", "key", "schemas", "k", "default", "example", "a--", "l" * 1100]


@functools.lru_cache(None)
def quick_names():
    """Without the spec spellings that differ from the Python ones (the thorough run has them)."""
    py = {f.py for k in KINDS.values() for f in k.fields}
    js = {f.js for k in KINDS.values() for f in k.fields}
    return tuple(n for n in names() if n in py or n not in js or n in SHORT)


FREE_KEYS = ["a.b", "a[0]", "", " ", "*", "**", "a\\", ".", "[0]", "a.root.b", "é", "$ref", "a.root", "\n", "x.tags"]


@functools.lru_cache(None)
def wrong_name_targets():
    """(name, kind): a mapping key that reads like a member, and the kind that member refers to."""
    out = {}
    for k in KINDS.values():
        for f in k.fields:
            for a in f.type:
                objs = ()
                if a.tag == "map":
                    objs = [b.arg for b in MAPS[a.arg] if b != REF and b.tag == "obj"]
                elif a.tag in ("list", "dict"):
                    objs = [b.arg for b in a.arg if b != REF and b.tag == "obj"]
                elif a.tag == "obj" and a != REF:
                    objs = [a.arg]
                for o in objs:
                    if right_positions(o):
                        out.setdefault((f.py, o), None)
                        out.setdefault((f.js, o), None)
    for n in ("messages", "channel", "channels", "servers"):
        out.setdefault((n, {"channel": "Channel", "channels": "Channel", "messages": "Message", "servers": "Server"}[n]))
    return tuple((n, o) for n, o in out if oracle.good_key(n))


@functools.lru_cache(None)
def comp_target(kind):
    """The pointer of the decoy object of that kind."""
    for c, ks in COMPONENT_KIND.items():
        if kind in ks:
            return f"#/components/{c}/" + ("t" if ks[-1] == kind else "m")
    return None
