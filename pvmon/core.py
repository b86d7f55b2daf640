"""Case context, verdicts, event log and the parallel runner."""

import collections
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import queue
import shutil
import signal
import sys
import tempfile
import time
import traceback

import numpy as np

from .env import REPO, VERIF


class Skip(BaseException):
    """The case turned out not to exercise the property (not a verdict)."""


class CaseTimeout(BaseException):
    """Per-case wall-clock watchdog: inconclusive, never a violation."""


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth)
    if isinstance(x, np.ndarray):
        return {"array": jsonable(x.tolist(), depth + 1)} if x.size <= 400 else "array%r" % (x.shape,)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if type(x).__module__.startswith("pandas"):
        s = x.to_string() if x.size <= 200 else "%s%r" % (type(x).__name__, x.shape)
        return {type(x).__name__: s}
    return repr(x)[:300]


class Ctx:
    """What one case may use: randomness, event log, checks, violations."""

    def __init__(self, prop, tier, seed, idx, kind):
        self.prop, self.tier, self.seed, self.idx, self.kind = prop, tier, seed, idx, kind
        ss = np.random.SeedSequence([seed, int.from_bytes(prop.encode(), "big"), idx])
        self.rng = np.random.default_rng(ss)
        self.counts = collections.Counter()
        self.events = []
        self.violations = []
        self.known = []
        self.sigs = set()
        self.info = {}
        self.foreign = collections.Counter()

    # -- events observed at the client boundary
    def event(self, kind, **data):
        self.counts["events"] += 1
        if len(self.events) < 400:
            self.events.append((len(self.events), kind, data))

    def count(self, name, n=1):
        self.counts[name] += n

    def sig(self, *parts):
        """Record a distinct observed state/behaviour class."""
        self.sigs.add("|".join(str(p) for p in parts))

    def note(self, **kw):
        self.info.update(kw)

    # -- oracle
    def check(self, cond, key, msg="", prop=None, **detail):
        """An oracle evaluation; `prop` is the property it decides (default: this check's)."""
        prop = prop or self.prop
        if prop != self.prop:
            # universal monitors may observe other properties: those are decided by their own check
            if not cond:
                self.foreign[prop + ":" + key] += 1
            return bool(cond)
        self.counts["oracle_evaluations"] += 1
        self.counts["chk:" + key] += 1
        if not cond:
            self.violations.append(dict(key=key, msg=str(msg), detail=jsonable(detail)))
        return bool(cond)

    def close(self, a, b, key, rtol=1e-8, atol=1e-10, msg="", prop=None, **detail):
        try:
            a_, b_ = np.asarray(a, float), np.asarray(b, float)
            ok = a_.shape == b_.shape and np.allclose(a_, b_, rtol=rtol, atol=atol, equal_nan=True)
        except (TypeError, ValueError):
            ok = False
        return self.check(ok, key, msg, prop=prop, got=a, want=b, **detail)

    def known_finding(self, key, msg="", **detail):
        """A deviation recognised (by mechanism) as one listed in known_findings.txt."""
        self.known.append(dict(key=key, msg=str(msg), detail=jsonable(detail)))


def load_known():
    """known_findings.txt: 'known: property=<id> key=<key> <text>' / 'fixed: ...' lines."""
    out = collections.defaultdict(dict)
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                f = line.split(None, 3)
                out[f[1].split("=", 1)[1]][f[2].split("=", 1)[1]] = f[3]
    return out


def _alarm(_sig, _frm):
    raise CaseTimeout()


def run_case(mod, prop, tier, seed, idx, kind, limit):
    ctx = Ctx(prop, tier, seed, idx, kind)
    from . import hooks

    np.random.seed((seed * 1000003 + idx) % (2**31))
    status, err = "ok", None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    t0 = time.time()
    try:
        with hooks.attached(ctx), contextlib.redirect_stdout(io.StringIO()):
            try:
                mod.run_case(ctx)
            finally:
                signal.alarm(0)
    except Skip as e:
        status, err = "skip", str(e)
    except CaseTimeout:
        status = "timeout"
    except MemoryError:
        status = "timeout"
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # includes pyo3 PanicException
        # the code under test (or a workload) let an exception escape where none is allowed
        status = "exception"
        tb = traceback.extract_tb(e.__traceback__)
        err = "".join(traceback.format_exception(e))[-3000:]
        if type(e).__name__ == "ArpackNoConvergence":  # cvxpy's (randomised) eigenvalue test of a large matrix
            status, err = "skip", "cvxpy could not certify a matrix"
            tb = []
        in_repo = any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep) for f in tb)
        if status == "skip":
            pass
        elif in_repo or isinstance(e, (AttributeError, KeyError, TypeError, ValueError, IndexError)):
            ctx.violations.append(dict(
                key="unexpected-exception", msg="%s: %s" % (type(e).__name__, str(e)[:300]),
                detail={"traceback": err}))
        else:
            status = "harness-error"
    return dict(idx=idx, kind=kind, status=status, err=err, counts=dict(ctx.counts),
                violations=ctx.violations, known=ctx.known, sigs=list(ctx.sigs), info=jsonable(ctx.info),
                foreign=dict(ctx.foreign), t=time.time() - t0,
                events=[jsonable(e) for e in ctx.events[-60:]] if ctx.violations else
                [jsonable(e) for e in ctx.events[:12]] if idx < 3 else [])


def _worker(mod, prop, tier, seed, tasks, start, nproc, out, limit, deadline):
    try:
        for j in range(start, len(tasks), nproc):
            if time.time() > deadline:
                out.put(("late", j))
                continue
            idx, kind = tasks[j]
            out.put(("case", run_case(mod, prop, tier, seed, idx, kind, limit)))
    except BaseException:
        out.put(("crash", traceback.format_exc()[-3000:]))
    out.put(("done", start))


def plan(mod, tier):
    """[(idx, kind)]: kinds interleaved, idx stable per kind (so budgets can grow)."""
    budget = dict(mod.BUDGET[tier])
    tasks, used = [], {k: 0 for k in budget}
    names = list(budget)
    total = sum(budget.values())
    acc = {k: 0.0 for k in names}
    for _ in range(total):
        for k in names:
            acc[k] += budget[k] / total
        k = max((x for x in names if used[x] < budget[x]), key=lambda x: acc[x])
        acc[k] -= 1
        tasks.append((used[k] * len(names) + names.index(k), k))
        used[k] += 1
    return tasks


def run(mod, prop, tier, seed, only=None):
    # everything the cases write goes below one scratch directory, removed at the end
    scratch = tempfile.mkdtemp(prefix="pvmon-")
    old, tempfile.tempdir = tempfile.tempdir, scratch
    try:
        return _run(mod, prop, tier, seed, only)
    finally:
        tempfile.tempdir = old
        shutil.rmtree(scratch, ignore_errors=True)


def _run(mod, prop, tier, seed, only=None):
    t0 = time.time()
    nproc = min(8, os.cpu_count() or 1)
    soft = float(os.environ.get("PVMON_SOFT_S", 300 if tier == "quick" else 780))
    limit = getattr(mod, "CASE_LIMIT_S", 120)
    tasks = plan(mod, tier)
    if only is not None:
        tasks = [t for t in tasks if t == only] or [only]
    results, crashes, late = [], [], 0
    if only is not None or nproc == 1:
        for idx, kind in tasks:
            results.append(run_case(mod, prop, tier, seed, idx, kind, 600))
    else:
        mpc = mp.get_context("fork")
        out = mpc.Queue()
        procs = [mpc.Process(target=_worker, args=(mod, prop, tier, seed, tasks, s, nproc, out, limit, t0 + soft))
                 for s in range(nproc)]
        for p in procs:
            p.start()
        live = set(range(nproc))
        while live:
            try:
                tag, val = out.get(timeout=2)
            except queue.Empty:
                for s in list(live):
                    if not procs[s].is_alive() and out.empty():
                        live.discard(s)
                        crashes.append("worker %d ended (exit %r)" % (s, procs[s].exitcode))
                if time.time() - t0 > soft + 2 * limit + 30:
                    crashes.append("run watchdog")
                    break
                continue
            if tag == "case":
                results.append(val)
            elif tag == "late":
                late += 1
            elif tag == "crash":
                crashes.append(val)
            else:
                live.discard(val)
        for p in procs:
            p.join(timeout=1)
            if p.is_alive():
                p.terminate()
    return finish(mod, prop, tier, seed, tasks, results, crashes, late, time.time() - t0, only)


def finish(mod, prop, tier, seed, tasks, results, crashes, late, wall, only):
    results.sort(key=lambda r: r["idx"])
    counts, sigs, status, foreign = collections.Counter(), set(), collections.Counter(), collections.Counter()
    known_seen = collections.defaultdict(list)
    nontrivial = 0
    for r in results:
        counts.update(r["counts"])
        status[r["status"]] += 1
        foreign.update(r["foreign"])
        sigs.update(r["sigs"])
        if r["status"] in ("ok", "exception") and r["counts"].get("oracle_evaluations"):
            nontrivial += 1
        for k in r["known"]:
            known_seen[k["key"]].append((r["idx"], k))
    known = load_known().get(prop, {})
    viols = [(r, v) for r in results for v in r["violations"]]
    for key, items in known_seen.items():
        if key not in known:  # not listed: a violation
            for idx, k in items:
                r = next(r for r in results if r["idx"] == idx)
                viols.append((r, dict(key="unlisted:" + key, msg=k["msg"], detail=k["detail"])))
    for key, items in sorted(known_seen.items()):
        if key in known:
            print("KNOWN-FINDING: property=%s %s [key=%s, observed %d times]" % (prop, known[key], key, len(items)))
    by_key = collections.OrderedDict()
    for r, v in viols:
        by_key.setdefault(v["key"], []).append((r, v))
    replay_paths = []
    rdir = os.path.join(VERIF, "replays")
    if by_key:
        os.makedirs(rdir, exist_ok=True)
        for key, items in list(by_key.items())[:8]:
            r, v = min(items, key=lambda it: it[0]["t"])
            h = hashlib.sha1(("%s%s%s" % (prop, key, r["idx"])).encode()).hexdigest()[:8]
            path = os.path.join(rdir, "%s-%s.json" % (prop, h))
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, idx=r["idx"], kind=r["kind"], key=key,
                               message=v["msg"], detail=v["detail"], occurrences=len(items), info=r["info"],
                               events=r["events"],
                               replay="./check %s --replay %s" % (prop, path)), f, indent=1)
            replay_paths.append((key, path, v, len(items)))
    inconclusive = []
    mins = dict(getattr(mod, "MIN", {}))
    if only is None:
        if nontrivial < max(3, len(tasks) // 4):
            inconclusive.append("only %d of %d cases reached the oracle" % (nontrivial, len(tasks)))
        for k, n in mins.items():
            if counts.get(k, 0) < n:
                inconclusive.append("counter %s=%d < %d" % (k, counts.get(k, 0), n))
        if status["harness-error"]:
            inconclusive.append("%d harness errors" % status["harness-error"])
        if status["timeout"] > max(2, len(tasks) // 20):
            inconclusive.append("%d case timeouts" % status["timeout"])
        if crashes:
            inconclusive.append("worker failure: %s" % crashes[0][-400:])
    distinct = len(sigs) if sigs else nontrivial
    samples = []
    for r in results:
        if r["status"] == "ok" and r["events"] and len(samples) < 3:
            samples.append(dict(case=r["idx"], kind=r["kind"], info=r["info"], events=r["events"][:6],
                                checks={k[4:]: v for k, v in r["counts"].items() if k.startswith("chk:")}))
    if not samples:
        samples = [dict(case=r["idx"], kind=r["kind"], status=r["status"], info=r["info"]) for r in results[:3]]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2),
              violations=len(by_key),
              assumptions=list(getattr(mod, "ASSUMES", [])),
              coverage=dict(
                  evaluations=len(results), distinct_nontrivial=min(nontrivial, max(distinct, 1)) if results else 0,
                  rule=(mod.RULE + " A case is non-trivial when at least one oracle evaluation was reached; "
                        "distinct cases are counted by behaviour signature (capped by the number of non-trivial cases)."),
                  samples=samples, nontrivial=nontrivial, distinct_signatures=len(sigs),
                  statuses=dict(status), not_started_before_deadline=late,
                  events_observed=counts.get("events", 0), oracle_evaluations=counts.get("oracle_evaluations", 0),
                  oracle_by_kind={k[4:]: v for k, v in sorted(counts.items()) if k.startswith("chk:")},
                  counters={k: v for k, v in sorted(counts.items()) if not k.startswith("chk:")},
                  known_findings={k: len(v) for k, v in known_seen.items()},
                  monitors_of_other_properties=dict(foreign),
                  inconclusive=inconclusive))
    if only is None:
        edir = os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        tmp = os.path.join(edir, ".%s.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(edir, prop + ".json"))
    print("%s %s seed=%d: %d cases (%s), %d oracle evaluations, %d events, %d distinct signatures, %.1fs" % (
        prop, tier, seed, len(results), ", ".join("%s=%d" % kv for kv in sorted(status.items())),
        counts.get("oracle_evaluations", 0), counts.get("events", 0), len(sigs), wall))
    if os.environ.get("PVMON_VERBOSE"):
        print(json.dumps(ev["coverage"]["oracle_by_kind"]), json.dumps(ev["coverage"]["counters"]), file=sys.stderr)
        if foreign:
            print("foreign:", dict(foreign), file=sys.stderr)
        slow = sorted(results, key=lambda r: -r["t"])[:5]
        print("slowest:", [(r["idx"], r["kind"], round(r["t"], 2), r["status"]) for r in slow], file=sys.stderr)
        gaps = sorted(((r["info"].get("relgap"), r["idx"], r["kind"], r["info"].get("status")) for r in results
                       if isinstance(r["info"].get("relgap"), float)), reverse=True)[:6]
        print("largest gaps:", gaps, file=sys.stderr)
        for r in results:
            if r["status"] in ("harness-error", "timeout"):
                print(r["idx"], r["kind"], r["status"], (r["err"] or "")[-1500:], file=sys.stderr)
        sk = collections.Counter((r["kind"], r["err"]) for r in results if r["status"] == "skip")
        print("skips:", sk.most_common(8), file=sys.stderr)
    for key, path, v, n in replay_paths:
        print("VIOLATION property=%s replay=%s key=%s cases=%d :: %s" % (prop, path, key, n, v["msg"][:300].replace("\n", " ")))
    if by_key:
        return 1
    if inconclusive:
        print("INCONCLUSIVE property=%s %s" % (prop, "; ".join(inconclusive)))
        return 2
    return 0
