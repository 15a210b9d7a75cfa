"""Walking a parsed model along the grammar: attribute, item or key, as a user would."""
from .meta import KINDS


def step(obj, s, conc):
    if s.how == "field":
        return getattr(obj, KINDS[s.kind].by_js(s.name).py)
    if s.how == "item" or s.kind == "dict":
        return obj[conc]
    return obj.root[conc]


def at(spec, pos, path):
    cur = spec
    for s, c in zip(pos.steps, path):
        cur = step(cur, s, c)
    return cur


def snapshot(obj, out=None, path=""):
    """(path, identity, class, scalar) of everything reachable from a model, without its own dump methods."""
    if out is None:
        out = []
    scalar = obj if obj is None or isinstance(obj, (str, int, float, bool)) else None
    out.append((path, id(obj), type(obj).__name__, scalar))
    if isinstance(obj, dict):
        for k, v in obj.items():
            snapshot(v, out, f"{path}/{k}")
    elif isinstance(obj, (list, tuple)):
        for i, v in enumerate(obj):
            snapshot(v, out, f"{path}/{i}")
    elif hasattr(obj, "__pydantic_fields_set__"):
        out.append((path, tuple(sorted(map(str, obj.__pydantic_fields_set__))), "", None))
        for k, v in obj.__dict__.items():
            snapshot(v, out, f"{path}.{k}")
        if obj.__pydantic_extra__:
            snapshot(obj.__pydantic_extra__, out, f"{path}.+")
    return out


def put(spec, pos, path, obj):
    """Put an object at a position behind the model's back (no validation)."""
    cur = spec
    for s, c in list(zip(pos.steps, path))[:-1]:
        cur = step(cur, s, c)
    s, c = pos.steps[-1], path[-1]
    if s.how == "field":
        cur.__dict__[KINDS[s.kind].by_js(s.name).py] = obj
    elif s.how == "item" or s.kind == "dict":
        cur[c] = obj
    else:
        cur.root[c] = obj
