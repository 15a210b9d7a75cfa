"""Plant the bugs of tools/mut/*.py one by one in scratch copies of /repo, confirm each
(applies, builds, stable tests pass, demo 0 on base and nonzero on mutant), run the checks
against it, and keep the confirmed ones as /verif/seeded/<id>/.

usage: mutants.py [--no-check] [--all-checks] [--file NAME] [ID...]
"""
import concurrent.futures as cf, glob, importlib.util, json, os, re, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SCR = "/tmp/mut"
FROZEN = f"/tmp/mut-verif-{os.getpid()}"          # the checks as they were when this run began
PRELUDE = '''import copy, json, logging, sys
logging.disable(logging.CRITICAL)
from pydantic import ValidationError
from asyncapi3.models.asyncapi import AsyncAPI3
from asyncapi3.models.base import Reference
from asyncapi3.validators import *
from asyncapi3.validators.unified_references_validator import UnifiedReferencesValidator as U
from asyncapi3.validators.tags_ref_validator import TagsRefValidator as T
from asyncapi3.validators.external_docs_ref_validator import ExternalDocsRefValidator as E
def doc(**kw):
    return {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}, **kw}
def parse(d, *v):
    return AsyncAPI3.model_validate({**d, "extra_validators": list(v)})
def ok(d, *v):
    try:
        parse(d, *v)
    except ValidationError:
        return False
    return True
def dump(m):
    return json.loads(m.model_dump_json())
def R(x):
    return {"$ref": x}
'''
SH = '''#!/bin/bash
# run with cwd = the repository root
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def load(only_file):
    out = {}
    for p in sorted(glob.glob(os.path.join(V, "tools/mut/*.py"))):
        if only_file and os.path.basename(p) != only_file:
            continue
        sp = importlib.util.spec_from_file_location("m", p)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def run(cmd, cwd, env=None, t=600):
    e = {k: v for k, v in os.environ.items()}
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def plant(b):
    d = f"{SCR}/{b['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    r = d + "/repo"
    for f, old, new, *cnt in b["edits"]:
        p = f"{r}/asyncapi3/{f}"
        s = open(p).read()
        n = cnt[0] if cnt else 1
        if s.count(old) != n:
            return d, f"edit matches {s.count(old)}x in {f}: {old[:60]!r}"
        open(p, "w").write(s.replace(old, new))
    rc, diff = run(["git", "diff"], r)
    open(d + "/patch.diff", "w").write(diff)
    # original lines only
    demo = d + "/seed"
    os.makedirs(demo)
    open(demo + "/demo.py", "w").write(PRELUDE + "\n" + b["demo"].strip() + "\n")
    open(demo + "/demo.sh", "w").write(SH)
    os.chmod(demo + "/demo.sh", 0o755)
    rc, out = run(["bash", demo + "/demo.sh"], "/repo")
    if rc:
        return d, "demo fails on base: " + out[-600:]
    rc, out = run(["bash", demo + "/demo.sh"], r)
    if not rc:
        return d, "demo passes on mutant"
    b["demo_out"] = [x[:300] for x in out.strip().splitlines()[-1:]]
    rc, out = run([PY, "-m", "pytest", "-q", "-x", "-o", "addopts=", "-p", "no:cacheprovider"], r,
                  {"PYTHONPATH": r, "PYTHONDONTWRITEBYTECODE": "1"})
    if rc:
        return d, "tests: " + "\n".join(l for l in out.splitlines() if l.startswith("FAILED") or " passed" in l or "Error" in l)[-400:]
    return d, None


def check(pid, d):
    rc, out = run(["./check.sh", pid, "quick"], FROZEN,
                  {"MC_REPO": d + "/repo", "MC_EVID": d + "/evid", "VERIF_SEED": "1"}, 900)
    v = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + pid)]
    return rc, v, out


def main():
    a = sys.argv[1:]
    nocheck = "--no-check" in a
    allc = "--all-checks" in a
    only = None
    if "--file" in a:
        i = a.index("--file"); only = a[i + 1]; del a[i:i + 2]
    ids = [x for x in a if not x.startswith("--")]
    bugs = load(only)
    pick = [b for i, b in bugs.items() if not ids or any(re.fullmatch(p, i) for p in ids)]
    resf = os.path.join(V, "tools/mut/results.json")
    res = json.load(open(resf)) if os.path.exists(resf) else {}
    os.makedirs(FROZEN)
    for x in ("check.sh", "mc", "known_findings.json"):
        subprocess.run(["cp", "-a", f"{V}/{x}", FROZEN], check=True)
    with cf.ThreadPoolExecutor(6) as ex:
        planted = list(ex.map(plant, pick))
    for b, (d, err) in zip(pick, planted):
        if err:
            print(f"{b['id']:28} DROPPED {err}", flush=True)
            res.pop(b["id"], None)
            if not os.environ.get("KEEP"): shutil.rmtree(d, ignore_errors=True)
            continue
        s = f"{V}/seeded/{b['id']}"
        shutil.rmtree(s, ignore_errors=True)
        shutil.copytree(d + "/seed", s)
        shutil.copy(d + "/patch.diff", s + "/patch.diff")
        json.dump({"property": b["p"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(s + "/meta.json", "w"), indent=1)
        if nocheck:
            print(f"{b['id']:28} confirmed", flush=True)
            continue
        pids = [b["p"]] + ([f"C{i:02}" for i in range(1, 28) if f"C{i:02}" != b["p"]] if allc else [])
        caught, odd = [], []
        for pid in pids:
            rc, v, out = check(pid, d)
            if rc == 1 and v:
                caught.append(pid)
            elif rc:
                odd.append(f"{pid}:rc={rc}:{out[-200:]}")
        res[b["id"]] = caught
        print(f"{b['id']:28} {'caught ' if b['p'] in caught else 'MISSED '} {caught} {odd} {b['demo_out']}", flush=True)
        shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(FROZEN)
    json.dump(res, open(resf, "w"), indent=0, sort_keys=True)


main()
