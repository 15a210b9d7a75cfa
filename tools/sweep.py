"""Systematic small changes: every mutation of a fixed list of operators, at every place of the library.

Keeps those that pass the stable tests, then asks the checks that read that file, in order, until one reports.
Nothing of this is registered as a check; it shows where the checks look too narrowly.

usage: sweep.py gen | test | check [FILE-REGEX]         (state in /tmp/sweep)
"""
import ast, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, threading, queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/sweep"
PY = "/opt/venv/bin/python"
ORDER = [
    (r"validators/tags_ref", "C06 C30 C08 C09"), (r"validators/external_docs", "C07 C30 C08 C09"),
    (r"validators/utils", "C04 C06 C05 C30 C01 C03 C27 C09 C08"), (r"validators/unified", "C04 C05 C30 C02 C03 C01 C08 C09"),
    (r"models/base_models", "C13 C14 C20 C19 C12 C29 C28 C10 C11 C21 C22 C09"), (r"models/helpers", "C14 C18 C11 C28 C29 C10"),
    (r"models/asyncapi", "C18 C23 C22 C28 C11 C12 C19 C10 C09"), (r"models/base.py", "C24 C11 C12 C28 C29 C15 C18 C26"),
    (r"models/security", "C16 C18 C15 C11 C12 C28 C19 C26 C17 C25"), (r"models/schema", "C11 C15 C12 C26 C28 C13 C29"),
    (r"bindings/core", "C25 C15 C26 C11 C28"), (r"bindings/", "C17 C15 C25 C11 C12 C28 C26 C13 C18 C10 C19"),
    (r"models/", "C17 C15 C11 C12 C28 C26 C14 C16 C18 C13 C10 C25 C22"),
]


def mutations(path, src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    data = src.encode()

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return data[a:b].decode()

    out = []

    def add(n, new, what):
        a, b = pos(n)
        if data[a:b].decode() != new:
            out.append((a, b, new, f"{path}:{n.lineno} {what}"))

    CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value)); docs.add(id(n.body[0]))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "__all__":
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.keyword) and n.arg == "description":
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.FunctionDef):
            for a in n.args.args:
                if a.annotation:
                    skip.update(id(x) for x in ast.walk(a.annotation))
            if n.returns:
                skip.update(id(x) for x in ast.walk(n.returns))
    skip |= docs
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = text(n.left), text(n.comparators[0])
            add(n, f"{l} {CMP[type(n.ops[0])]} {r}", f"compare {text(n)[:60]!r}")
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                add(n, f"{l} == {r}", f"compare== {text(n)[:60]!r}")
            if isinstance(n.comparators[0], ast.Tuple):
                for i in range(len(n.comparators[0].elts)):
                    t = [text(x) for j, x in enumerate(n.comparators[0].elts) if j != i]
                    add(n.comparators[0], "(" + ", ".join(t) + ",)", f"drop {i} of {text(n)[:60]!r}")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join(f"({text(x)})" for x in n.values) + ")", f"swap {text(n)[:70]!r}")
            for i in range(len(n.values)):
                j = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + j.join(f"({text(x)})" for k, x in enumerate(n.values) if k != i) + ")", f"drop {i} of {text(n)[:70]!r}")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"bool({text(n.operand)})", f"no not {text(n)[:60]!r}")
        if isinstance(n, (ast.If, ast.While)):
            add(n.test, "True", f"if True {text(n.test)[:60]!r}")
            add(n.test, "False", f"if False {text(n.test)[:60]!r}")
        if isinstance(n, ast.Continue):
            add(n, "break", "continue->break"); add(n, "return", "continue->return"); add(n, "pass", "continue->pass")
        if isinstance(n, ast.Break):
            add(n, "continue", "break->continue")
        if isinstance(n, ast.Return) and n.value is None:
            add(n, "pass", "return->pass")
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, (ast.Constant, ast.Name)):
            add(n.value, "None", f"return None for {text(n.value)[:40]!r}")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", f"delete {text(n)[:70]!r}")
        if isinstance(n, (ast.Assign, ast.AugAssign)) and not isinstance(getattr(n, "value", None), ast.Dict) and any(isinstance(p, ast.FunctionDef) and n in ast.walk(p) for p in ast.walk(tree)):
            add(n, "pass", f"delete {text(n)[:70]!r}")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), f"flip {n.value}")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), f"{n.value}+1"); add(n, str(n.value - 1), f"{n.value}-1")
            elif isinstance(n.value, str) and n.value and text(n)[:1] in "\"'r" and "\n" not in text(n):
                v = n.value
                if "\\" not in text(n) and "'" not in v and '"' not in v:
                    add(n, repr(v + "x"), f"{v[:30]!r}+x")
                    if v.lower() != v:
                        add(n, repr(v.lower()), f"{v[:30]!r} lower")
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            add(n.type, "KeyError", "except KeyError")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg in ("exclude_if", "alias", "exclude", "max_length", "min_length", "ge", "le", "default") and not (k.arg == "default" and text(k.value) == "None"):
                    a, b = pos(k)
                    while data[b:b + 1] in (b",", b" ", b"\n") and data[b:b + 1] != b")":
                        b += 1
                        if data[b - 1:b] == b",":
                            break
                    out.append((a, b, "", f"{path}:{k.value.lineno} drop {text(k)[:50]!r}"))
        if isinstance(n, ast.AnnAssign) and isinstance(n.annotation, ast.BinOp):
            parts = []
            def flat(x):
                if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
                    flat(x.left); flat(x.right)
                else:
                    parts.append(x)
            flat(n.annotation)
            for i in range(len(parts)):
                if text(parts[i]) != "None":
                    add(n.annotation, "(" + " | ".join(text(x) for k, x in enumerate(parts) if k != i) + ")" if len(parts) > 2 or True else "", f"type drop {text(parts[i])[:40]}")
            if len(parts) == 3 and text(parts[2]) == "None":
                add(n.annotation, f"({text(parts[1])} | {text(parts[0])} | None)", "type order")
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == "Literal" and isinstance(n.slice, ast.Tuple):
            for i in range(len(n.slice.elts)):
                add(n.slice, ", ".join(text(x) for k, x in enumerate(n.slice.elts) if k != i), f"literal drop {text(n.slice.elts[i])}")
        if isinstance(n, ast.ClassDef):
            for b in n.bases:
                if isinstance(b, ast.Name) and b.id == "ExtendableBaseModel":
                    add(b, "NonExtendableBaseModel", f"closed {n.name}")
                if isinstance(b, ast.Name) and b.id == "NonExtendableBaseModel" and path.endswith("base.py") is False:
                    pass
        if isinstance(n, ast.Dict):
            for i, k in enumerate(n.keys):
                if k is None:
                    continue
                a = pos(k)[0]; b = pos(n.values[i])[1]
                if data[b:b + 1] == b",":
                    out.append((a, b + 1, "", f"{path}:{k.lineno} drop entry {text(k)[:60]}"))
    return data, out


def files():
    for d, _s, fs in os.walk("/repo/asyncapi3"):
        for f in sorted(fs):
            if f.endswith(".py") and f != "__init__.py":
                yield os.path.relpath(os.path.join(d, f), "/repo")


def gen():
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs(S)
    all_ = []
    for f in files():
        data, ms = mutations(f, open("/repo/" + f).read())
        for a, b, new, what in ms:
            try:
                ast.parse((data[:a] + new.encode() + data[b:]).decode())
            except SyntaxError:
                continue
            all_.append(dict(file=f, a=a, b=b, new=new, what=what))
    for i, m in enumerate(all_):
        m["id"] = i
    json.dump(all_, open(S + "/all.json", "w"))
    import collections
    print(len(all_), collections.Counter(m["file"] for m in all_).most_common(60))


def apply(m, root):
    d = open("/repo/" + m["file"], "rb").read()
    open(f"{root}/{m['file']}", "wb").write(d[:m["a"]] + m["new"].encode() + d[m["b"]:])


def restore(m, root):
    shutil.copy("/repo/" + m["file"], f"{root}/{m['file']}")


def pool(n):
    q = queue.Queue()
    for i in range(n):
        r = f"{S}/w{i}"
        shutil.rmtree(r, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        q.put(r)
    return q


def test():
    ms = json.load(open(S + "/all.json"))
    ms.sort(key=lambda m: ("bindings" in m["file"], "models" in m["file"], m["id"]))
    q = pool(int(os.environ.get("N", "8")))
    alive = json.load(open(S + "/alive.json")) if os.path.exists(S + "/alive.json") else []
    seen = set(json.load(open(S + "/seen.json"))) if os.path.exists(S + "/seen.json") else set()
    ms = [m for m in ms if m["id"] not in seen]
    lock = threading.Lock()

    def one(m):
        r = q.get()
        try:
            apply(m, r)
            e = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONPYCACHEPREFIX": S + "/nopyc"}
            try:
                p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-o", "addopts=", "-p", "no:cacheprovider", "--timeout=60"], cwd=r, env=e,
                                   capture_output=True, timeout=120)
                ok = p.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            restore(m, r)
            with lock:
                seen.add(m["id"])
                json.dump(sorted(seen), open(S + "/seen.json", "w"))
                if ok:
                    alive.append(m)
                    json.dump(sorted(alive, key=lambda x: x["id"]), open(S + "/alive.json", "w"))
        finally:
            q.put(r)

    with cf.ThreadPoolExecutor(int(os.environ.get("N", "8"))) as ex:
        list(ex.map(one, ms))
    print(len(ms), "->", len(alive))


def check(rx):
    ms = [m for m in json.load(open(S + "/alive.json")) if re.search(rx, m["file"])]
    done = json.load(open(S + "/done.json")) if os.path.exists(S + "/done.json") else {}
    q = pool(int(os.environ.get("N", "3")))
    fro = S + "/verif"
    shutil.rmtree(fro, ignore_errors=True)
    os.makedirs(fro)
    subprocess.run(["cp", "-a", V + "/mc", V + "/check.sh", V + "/known_findings.json", fro], check=True)
    lock = threading.Lock()

    def one(m):
        if m["what"] in done:
            return
        order = next(o for x, o in ORDER if re.search(x, m["file"])).split()
        r = q.get()
        try:
            apply(m, r)
            hit = None
            for c in order:
                ev = f"{r}.ev"
                e = {**os.environ, "MC_REPO": r, "MC_EVID": ev}
                try:
                    p = subprocess.run([fro + "/check.sh", c, "quick"], env=e, capture_output=True, text=True, timeout=900)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = 124
                if rc != 0:
                    hit = f"{c}{'' if rc == 1 else ' rc=' + str(rc)}"
                    break
            restore(m, r)
            with lock:
                done[m["what"]] = hit
                json.dump(done, open(S + "/done.json", "w"), indent=0)
                print(hit or "-----", m["id"], m["what"], flush=True)
        finally:
            q.put(r)

    with cf.ThreadPoolExecutor(int(os.environ.get("N", "3"))) as ex:
        list(ex.map(one, ms))


if __name__ == "__main__":
    {"gen": gen, "test": test}.get(sys.argv[1], lambda: check(sys.argv[2] if len(sys.argv) > 2 else "."))()
