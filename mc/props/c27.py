"""Resolving an internal reference yields the very object that stands there."""
import json

from .. import gen, impl, oracle, walk
from ..engine import Violation
from ..meta import COMPONENT_KIND, KINDS, NODEFAULT, NULL
from ..refworld import chunks, decoy, kind_at, targets

from asyncapi3.validators.utils import resolve_reference

BOUNDS = {
    "quick": "all list-free places of the grammar (~1785) x lean and rich hosts and objects with siblings x {the place itself, every "
             "prefix of its pointer, an alias, an alias of an alias (in one map, or in several under one name or its own), 21 ways of spoiling one segment, its last names asked for in 25 other places, any segment removed, entries of similar names, 130 equal entries, one of 9 odd segments inserted anywhere, one of 25 names asked for inside it, the map emptied}; resolved twice, in two "
             "equal documents; every optional member, null and absent; 12 external and malformed strings; chains of 30 to 1500 references in every collection (but schemas) to 5 kinds of end",
    "thorough": "as quick with every spoiling at every segment and alias chains of up to 8",
}
ASSUMPTIONS = ["pointers without escapes, to list-free places outside schema bodies and free-form data"]
MOVED = ["#", "#/components"] + ["#/components/" + x for x in COMPONENT_KIND] + ["#/" + x for x in ("channels", "servers", "operations", "info")]
INSIDE = ("t", "root", "keys", "items", "get", "copy", "json", "__dict__", "__class__", "__len__", "model_fields", "model_extra", "model_fields_set", "__pydantic_extra__",
          "0", "-1", "upper", "ref", "$ref", "validate", "schema", "construct", "extra_validators", "None", "zz")
STRANGE = ["", "x", "/channels", "#", "#/", "x.json#/info", "ftp://e.test/x", "file:///x", "//e.test", "httpx://e.test", "./#/info",
           "info"]


def jobs(tier):
    nulls = [i for i, p in enumerate(gen.positions()) if p.steps and not p.has_list and NULL in p.alts and not p.in_bindings]
    return [(f"nulls{i}", ("nulls", ch)) for i, ch in enumerate(chunks(nulls, 60))] + [(f"targets{i}", ("targets", ch)) for i, ch in enumerate(chunks(list(range(len(targets()))), 60))] \
        + [("strings", ("strings", None)), ("deep", ("deep", None))]


def resolve(ref, spec):
    try:
        return resolve_reference(ref, spec), None
    except ValueError as e:
        return None, e


_LAST = [None, None]


def parsed(doc):
    """The model of the document; the one made last is kept, as many wrong pointers are asked of one document."""
    key = json.dumps(doc)
    if _LAST[0] != key:
        _LAST[:] = [key, impl.must_parse(doc)]
    return _LAST[1]


def run(sp, tier, what, idxs):
    if what == "strings":
        def strings(c):
            doc = decoy()
            s = c.choose("string", STRANGE + ["https://e.test/x", "http://e.test/x#/info", "http://"])
            chain = c.choose("chain", (0, 1, 2))
            ref = s
            comp = {}
            for i in range(chain):
                comp[f"z{i}"] = {"$ref": ref}
                ref = f"#/components/tags/z{i}"
            doc["components"]["tags"].update(comp)
            spec = impl.must_parse(doc)
            got, e = resolve(ref, spec)
            ext = s.startswith(("http://", "https://"))
            if ext and (e is not None or got is not None):
                raise Violation(f"{ref!r} ending at external {s!r} gives {got!r} {e!r}")
            if not ext and e is None:
                raise Violation(f"{ref!r} ending at {s!r} resolved to {got!r}")
            return "external" if ext else "refused"

        sp.explore(strings, "strings")
        return

    if what == "deep":
        def deep(c):
            coll = c.choose("collection", [x for x in COMPONENT_KIND if x not in ("schemas",)])
            n = c.choose("length", (30, 200, 700, 1500) if tier == "quick" else (30, 200, 700, 1500, 6000))
            end = c.choose("end", ("object", "external", "dangling", "cycle", "into the middle"))
            col = {f"a{i}": {"$ref": f"#/components/{coll}/a{i + 1}"} for i in range(n)}
            far = f"#/components/{coll}/a{n}"
            col[f"a{n}"] = {"object": gen.minimal_obj(COMPONENT_KIND[coll][-1]), "external": {"$ref": "https://e.test/x"},
                            "dangling": {"$ref": f"#/components/{coll}/b"}, "cycle": {"$ref": f"#/components/{coll}/a0"},
                            "into the middle": {"$ref": f"#/components/{coll}/a{n // 2}"}}[end]
            spec = impl.must_parse({**gen.minimal_obj("AsyncAPI3"), "components": {coll: col}})
            for start in (0, n // 3):
                got, e = resolve(f"#/components/{coll}/a{start}", spec)
                if end == "object":
                    want, _e = resolve(far, spec)
                    if e is not None or got is None or want is None or got.resolved_object is not want.resolved_object:
                        raise Violation(f"{n - start} references in {coll} to an object end in {e or got!r}"[:300])
                elif end == "external" and (e is not None or got is not None) or end != "external" and e is None:
                    raise Violation(f"{n - start} references in {coll}, {end}: {e or got!r}"[:300])
            return end

        sp.explore(deep, "deep")
        return
    if what == "nulls":
        def nulls(c):
            pos = gen.positions()[c.choose("place", idxs)]
            doc, path = gen.place(pos, None, keys=("t",) * pos.nkeys)
            base = c.choose("base", ("lean", "decoy"))
            doc = gen.merge(decoy(), doc) if base == "decoy" else doc
            if not oracle.ok_obj("AsyncAPI3", doc):
                return "breaks a rule of its host"
            if c.choose("form", ("null", "absent")) == "absent":
                cur = doc
                for s in path[:-1]:
                    cur = cur[s]
                del cur[path[-1]]
            ref = "#/" + "/".join(path)
            if path[:2] != ("components", "parameters") and path != ("components",) and c.flag("alias"):
                doc.setdefault("components", {}).setdefault("parameters", {})["al"] = {"$ref": ref}
                ref = "#/components/parameters/al"
            spec = impl.must_parse(doc)
            got, e = resolve(ref, spec)
            if e is None:
                raise Violation(f"{ref!r} denotes nothing (null), but resolves to {got!r}", doc=doc)
            return "refused"

        sp.explore(nulls, "nulls")
        return

    def body(c):
        pos, ptr, kind = targets()[c.choose("place", idxs)]
        alts_obj = kind != "value"
        v = gen.minimal_obj(kind) if alts_obj else gen.minimal(pos.alts, pos.modsd)
        host = c.choose("host", ("lean", "rich", "siblings"))
        if alts_obj and host == "rich":
            v = gen.enrich(kind, v)
            if gen.KINDS[kind].ext != "none":
                v["x-t"] = {"y": [1]}
        base = decoy() if host != "lean" else {}
        doc, path = gen.place(pos, v, keys=("t",) * pos.nkeys, rich=host == "rich",
                              decor="obj" if host == "siblings" else "none", where="both")
        both = gen.merge(base, doc)
        doc = both if oracle.ok_obj("AsyncAPI3", both) else doc
        how = c.choose("how", ("self", "prefix", "alias", "spoilt", "moved", "removed", "dotted", "inside") + (("neighbours", "crowd", "emptied") if pos.steps[-1].how == "key" else ()))
        if how == "crowd":                               # many equal entries, before and after
            cur = doc
            for s in path[:-1]:
                cur = cur[s]
            me = cur.pop("t")
            rest = dict(cur)
            cur.clear()
            cur.update({f"a{n}": gen._copy(me) for n in range(110)})
            cur["t"] = me
            cur.update({f"z{n}": gen._copy(me) for n in range(20)})
            cur.update(rest)
            if not oracle.ok_obj("AsyncAPI3", doc):
                return "breaks a rule of its host"
        if how == "neighbours":                          # entries whose names resemble its own, before and after
            cur = doc
            for s in path[:-1]:
                cur = cur[s]
            me = cur.pop("t")
            rest = dict(cur)
            cur.clear()
            cur.update({n: gen._copy(me) for n in ("tt", "T", "t-", "at", "0")})
            cur["t"] = me
            cur.update({n: gen._copy(me) for n in ("ta", "_t", "t0", "root")})
            cur.update(rest)
        ref, want_path, n = ptr, len(path), 0
        parts = ptr[2:].split("/")
        if how == "prefix":
            if len(path) == 1:
                return "no prefix"
            n = c.choose("prefix", list(range(1, len(path))))
            ref, want_path = "#/" + "/".join(parts[:n]), n
        elif how == "alias":
            ln = c.choose("length", (1, 2) if tier == "quick" else (1, 2, 3, 8))
            colls = [x for x in ("tags", "parameters", "externalDocs", "messages", "servers", "replies", "channels", "operations", "correlationIds") if x not in ptr]
            named = c.choose("aliases", ("in one map", "in several maps", "of its own name"))
            if named == "of its own name" and pos.steps[-1].how != "key":
                parts[-1:] = ["t"]
            for i in range(ln):
                coll = colls[0] if named == "in one map" else colls[i % len(colls)]
                nm = f"al{i}" if i >= len(colls) or named == "in one map" else "al" if named == "in several maps" else parts[-1]
                doc.setdefault("components", {}).setdefault(coll, {})[nm] = {"$ref": ref}
                ref = f"#/components/{coll}/{nm}"
        elif how in ("moved", "removed"):
            if how == "moved":                           # the same name asked for in every other place
                ref = c.choose("asked", MOVED) + "/" + parts[-1]
                if c.flag("last two"):
                    if len(parts) < 2:
                        return "one segment"
                    ref = "/".join([*ref.split("/")[:-1], *parts[-2:]])
            else:
                i = c.choose("segment", range(len(parts)))
                st = pos.steps[i]
                fd = KINDS[st.kind].by_js(st.name) if st.how == "field" else None
                if fd is not None and fd.default is not NODEFAULT and fd.default is not None:
                    return "it has a default"
                cur = doc
                for s in path[:i]:
                    cur = cur[s]
                del cur[path[i]]
            if kind_at(doc, ref) is not None:
                return "something else stands there"
            if not oracle.ok_obj("AsyncAPI3", doc):
                return "breaks a rule of its host"
            spec = parsed(doc)
            got, e = resolve(ref, spec)
            if e is None:
                raise Violation(f"{ref!r} denotes nothing, but resolves to {got!r}"[:400], doc=doc)
            return "refused"
        elif how in ("inside", "emptied"):               # what is no entry of it: attributes, methods, indices
            if how == "emptied":
                cur = doc
                for s in path[:-1]:
                    cur = cur[s]
                cur.clear()
                parts.pop()
                if not oracle.ok_obj("AsyncAPI3", doc):
                    return "breaks a rule of its host"
            ref = "#/" + "/".join(parts + [c.choose("asked", INSIDE)])
            if kind_at(doc, ref) is not None:
                return "something else stands there"
            got, e = resolve(ref, parsed(doc))
            if e is None:
                raise Violation(f"{ref!r} denotes nothing, but resolves to {got!r}"[:400], doc=doc)
            return "refused"
        elif how == "dotted":                            # segments that mean something elsewhere
            i = c.choose("segment", range(len(parts) + 1))
            parts.insert(i, c.choose("inserted", (".", "..", "*", "root", "-", "~", "$ref", "#", parts[max(i - 1, 0)])))
            ref = "#/" + "/".join(parts)
            if kind_at(doc, ref) is not None:
                return "something else stands there"
            spec = parsed(doc)
            got, e = resolve(ref, spec)
            if e is None:
                raise Violation(f"{ref!r} denotes nothing, but resolves to {got!r}"[:400], doc=doc)
            return "refused"
        elif how == "spoilt":
            segs = list(range(len(parts)))
            if tier == "quick":
                segs = sorted({0, len(parts) - 1, len(parts) // 2})
            i = c.choose("segment", segs)
            p = parts[i]
            parts[i] = c.choose("spoilt", [p + "x", p[:-1] or "y", p.swapcase(), p + " ", " " + p, "root", "__dict__", p + "\n",
                                           p + "/root", "model_extra", p + ".", "0", p + "_", "_" + p, p + "-", "-" + p, p + "s", p[1:] or "y",
                                           p[:-1] + "-", "x" + p, p + p])
            ref = "#/" + "/".join(parts)
            if pos.steps[i].how == "field" and parts[i] == KINDS[pos.steps[i].kind].by_js(pos.steps[i].name).py:
                return "its Python name"
        spec = parsed(doc) if how == "spoilt" else impl.must_parse(doc)
        got, e = resolve(ref, spec)
        if how == "spoilt":
            if kind_at(doc, ref) is not None:
                return "something else stands there"
            if parts[i] == "root" and i == len(parts) - 1 and kind_at(doc, "#/" + "/".join(parts)) is not None:
                return "something else stands there"
            if e is None:
                raise Violation(f"{ref!r} denotes nothing, but resolves to {got.resolved_object!r}"[:400], doc=doc)
            return "refused"
        obj = spec
        for s, cc in list(zip(pos.steps, path))[:want_path]:
            obj = walk.step(obj, s, cc)
        if e is not None or got is None:
            raise Violation(f"{ref!r} ({how} of {ptr}) not resolved: {e}", doc=doc)
        if got.resolved_object is not obj:
            raise Violation(f"{ref!r} resolves to {got.resolved_object!r} and not to the object at {ptr}"[:500], doc=doc)
        if got.resolved_type is not type(obj):
            raise Violation(f"{ref!r} resolves to a {type(obj).__name__} said to be {got.resolved_type.__name__}", doc=doc)
        if resolve(ref, spec)[0] != got:
            raise Violation(f"{ref!r} resolves differently the second time", doc=doc)
        twin, _ = impl.parse(gen._copy(doc))
        t2, _e = resolve(ref, twin)
        if t2 is None or t2.resolved_object is obj and not isinstance(obj, (str, int, bool)):
            raise Violation(f"{ref!r} in an equal document resolves into the first one", doc=doc)
        return how

    sp.explore(body, "targets")
