"""The explorer: stateless depth-first enumeration of choice trees, explicit-state
breadth-first search over operation histories, parallel job runner, evidence.

Every execution runs the real code in /repo.  A run of a check enumerates its whole
bounded space; nothing is sampled, and VERIF_SEED changes nothing.
"""
from __future__ import annotations

import collections
import importlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("MC_EVID") or os.path.join(VERIF, "evidence")
MAX_VIOL_PER_JOB = 3
CPU_LIMIT_S, WALL_LIMIT_S = 10, 100            # one execution; a busy or paused machine uses up only the second
ENOUGH = 8


class Violation(Exception):
    """The property is broken. key identifies the failing input (for known findings)."""

    def __init__(self, msg, key=None, **info):
        super().__init__(msg)
        self.msg, self.key, self.info = msg, key or msg, info


class Hang(BaseException):
    pass


class HarnessError(BaseException):
    """The check itself is wrong (replay divergence and the like)."""


def _alarm(_s, _f):
    raise Hang()


def _timed(call, scale=1):
    """call(), given up on after its share of processor (or, far later, wall clock) time - and then tried once more."""
    for last in (False, True):
        try:
            signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT_S * scale)
            signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT_S * scale)
            try:
                return call()
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Hang:
            if last:
                raise


class Choices:
    """One execution's nondeterminism: choose() picks, a prefix is replayed."""

    __slots__ = ("prefix", "points", "labels")

    def __init__(self, prefix=()):
        self.prefix, self.points, self.labels = prefix, [], []

    def choose(self, label, options):
        n = len(options)
        if n == 0:
            raise HarnessError(f"no options at {label}")
        i = len(self.points)
        pick = 0
        if i < len(self.prefix):
            pick, was = self.prefix[i]
            if was != n or pick >= n:
                raise HarnessError(f"replay diverged at {label}: {was} options became {n}")
        self.points.append((pick, n))
        opt = options[pick]
        self.labels.append((label, opt))
        return opt

    def flag(self, label):
        return self.choose(label, (False, True))


class Space:
    """Counters and findings of one job."""

    def __init__(self, pid, job):
        self.pid, self.job = pid, job
        self.states = self.transitions = self.traces = 0
        self.outcomes = collections.Counter()
        self.violations, self.samples = [], []
        self.only = None            # replay: a single choice list
        self.known = known_findings(pid)
        self.hits = {}

    hung = False
    hits = None
    scale = 1                       # times the usual time limit of an execution

    # ---- stateless exploration
    def explore(self, body, name=""):
        """Run body(choices) for every resolution of its choices."""
        if self.only is not None:
            nm, pre = self.only
            if nm != name:
                return
            self._run1(body, name, Choices([tuple(p) for p in pre]))
            return
        prefix, shared, first = [], 0, True
        while True:
            c = Choices(prefix)
            self._run1(body, name, c)
            pts = c.points
            self.states += len(pts) - shared + (1 if first else 0)    # nodes not seen before
            self.transitions += len(pts) - shared
            first = False
            if len(self.violations) >= MAX_VIOL_PER_JOB or self.hung:
                return
            k = len(pts) - 1
            while k >= 0 and pts[k][0] + 1 >= pts[k][1]:
                k -= 1
            if k < 0:
                return
            prefix = pts[:k] + [(pts[k][0] + 1, pts[k][1])]
            shared = k

    def _run1(self, body, name, c):
        self.traces += 1
        try:
            def once():
                c.points, c.labels = [], []
                return body(c)

            out = _timed(once, self.scale)
            if len(c.points) < len(c.prefix):
                raise HarnessError("replay diverged: fewer choices than the prefix")
            if out is not None:
                self.outcomes[out] += 1
                if len(self.samples) < 2 and (self.traces == 1 or self.outcomes[out] == 1):
                    self.samples.append({"space": name, "choices": jsonable(c.labels), "outcome": str(out)})
        except Violation as v:
            self._add(name, c, v.msg, v.key, v.info)
        except Hang:
            self._add(name, c, f"no answer within {CPU_LIMIT_S * self.scale}s of processor time", f"hang:{jsonable(c.labels)}", {})
            self.hung = True
        except HarnessError:
            raise
        except Exception as e:  # the code under test raised what it must not
            self._add(name, c, f"unexpected {type(e).__name__}: {e}", f"{type(e).__name__}:{jsonable(c.labels)}",
                      {"trace": traceback.format_exc()[-2500:]})

    def _add(self, name, c, msg, key, info):
        if str(key) in self.known:
            self.outcomes[f"known finding: {key}"] += 1
            self.hits.setdefault(str(key), msg)
            return
        self.violations.append({"job": self.job, "space": name, "points": c.points,
                                "choices": jsonable(c.labels), "message": msg, "key": str(key),
                                "info": jsonable(info)})

    # ---- explicit-state search over histories
    def search(self, name, init, events, depth, step, canon):
        """Breadth-first search; a state is the shortest event history reaching it.

        init() builds a fresh real object with its model; step(state, event) performs one
        event on the real object and checks it against the model (raises Violation);
        canon(state) is the dedup key.  Live objects are rebuilt by replaying histories.
        """
        if self.only is not None:
            nm, pre = self.only
            if nm == name:
                st = init()
                hist = []
                for i, _n in pre:
                    ev = events[i]
                    hist.append(ev)
                    step(st, ev)
            return
        st = init()
        seen = {canon(st)}
        frontier = [()]
        self.states += 1
        for _d in range(depth):
            nxt = []
            for hist in frontier:
                for i in range(len(events)):
                    if len(self.violations) >= MAX_VIOL_PER_JOB or self.hung:
                        return
                    c = Choices()
                    c.points = [(j, len(events)) for j in hist + (i,)]
                    c.labels = [("event", repr(events[j])) for j in hist + (i,)]
                    self.traces += 1
                    self.transitions += 1
                    try:
                        def once():
                            s = init()
                            for j in hist:
                                step(s, events[j])
                            return s, step(s, events[i])

                        st, out = _timed(once, self.scale)
                        if out is not None:
                            self.outcomes[out] += 1
                            if len(self.samples) < 2:
                                self.samples.append({"space": name, "history": jsonable(c.labels), "outcome": str(out)})
                        k = canon(st)
                        if k not in seen:
                            seen.add(k)
                            self.states += 1
                            nxt.append(hist + (i,))
                    except Violation as v:
                        self._add(name, c, v.msg, v.key, v.info)
                    except Hang:
                        self._add(name, c, f"no answer within {CPU_LIMIT_S * self.scale}s of processor time", f"hang:{name}", {})
                        self.hung = True
                    except HarnessError:
                        raise
                    except Exception as e:
                        self._add(name, c, f"unexpected {type(e).__name__}: {e}", f"{type(e).__name__}:{c.labels}",
                                  {"trace": traceback.format_exc()[-2500:]})
            frontier = nxt
            if not frontier:
                break


def jsonable(x, depth=0):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)[:300]


# ------------------------------------------------------------------ runner
_MOD = None
_JOBS = None
_PID = None
_TIER = None


def _worker_init():
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _run_job(i):
    name, args = _JOBS[i]
    sp = Space(_PID, name)
    t = time.time()
    try:
        _MOD.run(sp, _TIER, *args)
        err = None
    except Violation as v:                       # raised outside an execution
        sp.violations.append({"job": name, "space": "", "points": [], "choices": [], "message": v.msg,
                              "key": str(v.key), "info": jsonable(v.info)})
        err = None
    except BaseException:
        err = traceback.format_exc()
    return dict(i=i, name=name, states=sp.states, transitions=sp.transitions, traces=sp.traces,
                outcomes=dict(sp.outcomes), hits=sp.hits, violations=sp.violations, samples=sp.samples, err=err,
                wall=time.time() - t)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    data = json.load(open(p))
    return {f["key"]: f for f in data.get("findings", []) if f["property"] == pid}


def _crashed(i):
    """Run one job alone; None if its process died without an answer."""
    ctx = multiprocessing.get_context("fork")
    rx, tx = ctx.Pipe(False)

    def child():
        _worker_init()
        tx.send(_run_job(i))

    p = ctx.Process(target=child)
    p.start()
    tx.close()
    try:
        r = rx.recv()
    except EOFError:
        r = None
    p.join()
    if r is None:
        r = dict(i=i, name=_JOBS[i][0], states=0, transitions=0, traces=1, outcomes={}, samples=[], err=None, wall=0,
                 violations=[{"job": _JOBS[i][0], "space": "", "points": [], "choices": [], "info": {},
                              "message": f"the interpreter died (exit {p.exitcode})", "key": f"crash:{_JOBS[i][0]}"}])
    return r


def _run_jobs(known):
    """All jobs on all cores; stops early once enough fresh violations are on the table."""
    from concurrent.futures import ProcessPoolExecutor, as_completed
    from concurrent.futures.process import BrokenProcessPool

    n = len(_JOBS)
    nproc = min(8, os.cpu_count() or 1, n)
    results, done = [], set()
    if nproc <= 1 or os.environ.get("MC_SERIAL"):
        _worker_init()
        return [_run_job(i) for i in range(n)]
    fresh = 0
    ex = ProcessPoolExecutor(nproc, mp_context=multiprocessing.get_context("fork"), initializer=_worker_init)
    try:
        futs = {ex.submit(_run_job, i): i for i in range(n)}
        for f in as_completed(futs):
            r = f.result()
            results.append(r)
            done.add(r["i"])
            fresh += sum(v["key"] not in known for v in r["violations"])
            if any(str(v["key"]).startswith("hang:") for v in r["violations"]):
                fresh = max(fresh, ENOUGH)                # waiting for more of the same takes too long
            if fresh >= ENOUGH:
                for g in futs:
                    g.cancel()
                break
    except BrokenProcessPool:
        for i in range(n):
            if i not in done:
                r = _crashed(i)
                results.append(r)
                fresh += sum(v["key"] not in known for v in r["violations"])
                if fresh >= 1:
                    break
    finally:
        workers = list((ex._processes or {}).values())   # shutdown forgets them
        if fresh >= ENOUGH:
            for p in workers:
                p.kill()
        ex.shutdown(wait=True, cancel_futures=True)
    return results


def load_prop(pid):
    return importlib.import_module("mc.props." + pid.lower())


def run(pid, tier):
    global _MOD, _JOBS, _PID, _TIER
    t0 = time.time()
    _MOD, _PID, _TIER = load_prop(pid), pid, tier
    _JOBS = _MOD.jobs(tier)
    known = known_findings(pid)
    results = _run_jobs(known)
    results.sort(key=lambda r: r["i"])
    errs = [r for r in results if r["err"]]
    for r in errs[:3]:
        print(f"ERROR in job {r['name']}:\n{r['err']}", file=sys.stderr)
    viol = [v for r in results for v in r["violations"]]
    fresh, hit = [], {}
    for r in results:
        hit.update(r.get("hits") or {})
    for v in viol:
        (hit.setdefault(v["key"], v) if v["key"] in known else fresh.append(v))
    outcomes = collections.Counter()
    for r in results:
        outcomes.update(r["outcomes"])
    states = sum(r["states"] for r in results)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": sum(r["transitions"] for r in results),
            "traces_validated_against_impl": sum(r["traces"] for r in results),
            "exhaustive": not errs and not fresh,
            "bounds": getattr(_MOD, "BOUNDS", {}).get(tier, ""),
            "jobs": len(_JOBS),
            "outcomes": {str(k): n for k, n in sorted(outcomes.items(), key=lambda x: str(x[0]))[:60]},
            "distinct_outcomes": len(outcomes),
            "samples": [s for r in results[:: max(1, len(results) // 5)] for s in r["samples"]][:6],
        },
        "assumptions": getattr(_MOD, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: jobs={len(_JOBS)} states={states} transitions={ev['coverage']['transitions']} "
          f"executions={ev['coverage']['traces_validated_against_impl']} outcomes={dict(outcomes.most_common(8))} "
          f"wall={ev['wall_s']}s")
    for k in sorted(hit):
        print(f"KNOWN-FINDING: property={pid} {known[k].get('what', k)}")
    if fresh:
        fresh.sort(key=lambda v: len(v["points"]))
        rp = os.path.join(EVID, "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, f"{pid}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "violations": fresh[:20]}, f, indent=1)
        for v in fresh[:5]:
            print(f"  {v['job']} {v['space']}: {v['message'][:400]}\n    choices: {json.dumps(v['choices'])[:600]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errs:
        return 2
    return 0


def replay(pid, path):
    """Re-run the recorded executions of a replay file, twice, without exploring."""
    data = json.load(open(path))
    mod = load_prop(pid)
    jobs = dict(mod.jobs(data["tier"]))
    _worker_init()
    bad = 0
    for v in data["violations"]:
        if not v["points"]:
            continue
        msgs = []
        for _ in range(2):
            sp = Space(pid, v["job"])
            sp.only = (v["space"], v["points"])
            try:
                mod.run(sp, data["tier"], *jobs[v["job"]])
                msgs.append([x["message"] for x in sp.violations])
            except Violation as e:
                msgs.append([e.msg])
        print(f"{v['job']} {v['space']} {json.dumps(v['choices'])[:400]}\n  -> {msgs[0]}"
              + ("" if msgs[0] == msgs[1] else f"  (second run differs: {msgs[1]})"))
        bad += bool(msgs[0])
    return 1 if bad else 0
