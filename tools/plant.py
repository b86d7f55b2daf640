#!/opt/venv/bin/python
"""Validate candidate planted bugs and store the confirmed ones under seeded/.

plant.py SPEC.py [--only ID ...] [--check]
SPEC.py defines BUGS = [dict(id, property, file, edits=[(old, new), ...] or files={file: edits}, needs, breaks, demo)].
A candidate is kept when, in a scratch copy of /repo: the patch applies, touches at least one line
of the original repository, the 313 stable tests pass, and the demo exits 0 on /repo and nonzero on
the copy.  --check additionally runs the property's quick check against a scratch copy with the patch
(PVMON_REPO); --checkonly does that for stored bugs; --table rewrites the table in DESIGN.md.
"""
import argparse
import difflib
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "e6f0951"
PY = "/opt/venv/bin/python"
UNSTABLE = "tests/test_efficient_semivariance.py::test_min_semivariance"  # fails on the original tree too


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def own_lines(path):
    """line numbers (1-based) of `path` at HEAD that come from the base commit"""
    out = sh(["git", "-C", REPO, "blame", "--line-porcelain", "HEAD", "--", path]).stdout
    base, cur = set(), None
    for line in out.splitlines():
        m = re.match(r"^(\^?[0-9a-f]{40}) \d+ (\d+)", line)
        if m:
            cur = (m.group(1), int(m.group(2)))
            if sh_is_base(cur[0]):
                base.add(cur[1])
    return base


_cache = {}


def sh_is_base(h):
    if h not in _cache:
        _cache[h] = sh(["git", "-C", REPO, "merge-base", "--is-ancestor", h.lstrip("^"), BASE]).returncode == 0
    return _cache[h]


def run_tests(copy):
    out = os.path.join(copy, ".testout.xml")
    env = dict(os.environ, PYTHONPATH=copy + ":/opt/vp/plugins", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    r = sh([PY, "-m", "pytest", "-q", "-p", "osqp_fixed_interval", "-p", "no:cacheprovider", "-n", "3", "tests"], cwd=copy, env=env)
    m = re.search(r"(\d+) passed", r.stdout)
    f = re.findall(r"^FAILED (\S+)", r.stdout, re.M) + re.findall(r"^ERROR (\S+)", r.stdout, re.M)
    return int(m.group(1)) if m else 0, f, r.stdout[-600:]


def process(bug, verbose=True):
    log = []
    tmp = tempfile.mkdtemp(prefix="plant-%s-" % bug["id"], dir="/tmp")
    try:
        copy = os.path.join(tmp, "repo")
        shutil.copytree(REPO, copy, symlinks=True)
        files = bug.get("files") or {bug["file"]: bug["edits"]}
        touched_base = False
        patch = ""
        for f, edits in files.items():
            p = os.path.join(copy, f)
            src = new = open(p).read()
            for e in edits:
                old, rep = e[0], e[1]
                nth = e[2] if len(e) > 2 else None
                c = new.count(old)
                if c == 0 or (c > 1 and nth is None):
                    return bug["id"], False, "edit matches %d times: %r" % (c, old[:80]), None
                if nth is None:
                    new = new.replace(old, rep)
                else:
                    parts = new.split(old)
                    new = old.join(parts[:nth + 1]) + rep + old.join(parts[nth + 1:])
            open(p, "w").write(new)
            base = own_lines(f)
            sm = difflib.SequenceMatcher(None, src.splitlines(), new.splitlines(), autojunk=False)
            for tag, i1, i2, j1, j2 in sm.get_opcodes():
                if tag in ("replace", "delete") and any(i + 1 in base for i in range(i1, i2)):
                    touched_base = True
        patch = sh(["git", "diff"], cwd=copy).stdout
        if not touched_base:
            return bug["id"], False, "touches no line of the original repository", None
        dd = os.path.join(tmp, "demo")
        os.makedirs(dd)
        open(os.path.join(dd, "demo.py"), "w").write(bug["demo"])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", MPLBACKEND="Agg")
        env.pop("PYTHONPATH", None)
        r0 = sh([PY, os.path.join(dd, "demo.py")], cwd=REPO, env=env, timeout=300)
        if r0.returncode != 0:
            return bug["id"], False, "demo fails on the unchanged tree: " + (r0.stdout + r0.stderr)[-800:], None
        r1 = sh([PY, os.path.join(dd, "demo.py")], cwd=copy, env=dict(env, PYTHONPATH=copy), timeout=300)
        if r1.returncode == 0:
            return bug["id"], False, "demo passes with the patch", None
        n, failed, tail = run_tests(copy)
        bad = [t for t in failed if t != UNSTABLE]
        if bad or n < 313:
            return bug["id"], False, "tests fail (%d passed): %s %s" % (n, bad[:4], "" if bad else tail), None
        return bug["id"], True, "demo rc=%d (%s)" % (r1.returncode, (r1.stderr.strip().splitlines() or r1.stdout.strip().splitlines() or [""])[-1][:160]), patch
    except subprocess.TimeoutExpired:
        return bug["id"], False, "timeout", None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def store(bug, patch):
    d = os.path.join(VERIF, "seeded", bug["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.py"), "w").write(bug["demo"])
    p = os.path.join(d, "demo.sh")
    open(p, "w").write('#!/bin/bash\n# cwd is the repository; exit 0 when the behaviour is right\n'
                       'export MPLBACKEND=Agg PYTHONWARNINGS=ignore PYTHONDONTWRITEBYTECODE=1\n'
                       'export PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"\n'
                       'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(p, 0o755)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


RES = os.path.join(VERIF, "tools", "seeded_results.json")


def check(bid, props=None, seed="1", tier="quick"):
    d = os.path.join(VERIF, "seeded", bid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    out = []
    tmp = tempfile.mkdtemp(prefix="plant-%s-" % bid, dir="/tmp")
    try:
        copy = os.path.join(tmp, "repo")
        shutil.copytree(REPO, copy, symlinks=True)
        r = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=copy)
        if r.returncode:
            return bid, prop, "does not apply: " + r.stderr
        for p in props or [prop]:
            r = sh(["./check", p, "--tier", tier], cwd=VERIF, env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER=tier, PVMON_REPO=copy))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("INCONCL")]
            out.append("%s rc=%d %s" % (p, r.returncode, " ## ".join(re.sub(r"replay=\S+ ", "", x)[:140] for x in v[:3])))
            if p == prop:
                res = json.load(open(RES)) if os.path.exists(RES) else {}
                m = [re.search(r"key=(\S+) cases=(\d+)", x) for x in v]
                now = dict(caught=r.returncode == 1, by=["%s (%s)" % x.groups() for x in m if x][:4])
                e = res.setdefault(bid, {"first": now["caught"]})
                e.update(property=prop, **now)
                json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return bid, prop, " | ".join(out)


def table():
    """Rewrite the table of planted bugs in DESIGN.md."""
    res = json.load(open(RES))
    rows = ["| change | property | what it breaks | first run | now | oracle (cases) |", "|---|---|---|---|---|---|"]
    for b in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
        m = json.load(open(os.path.join(VERIF, "seeded", b, "meta.json")))
        e = res.get(b, {})
        rows.append("| %s | %s | %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"].replace("|", "/")[:110],
                    "caught" if e.get("first") else "missed", "caught" if e.get("caught") else "**missed**", ", ".join(e.get("by", []))))
    p = os.path.join(VERIF, "DESIGN.md")
    s = open(p).read()
    a, b = s.index("<!-- seeded-table -->"), s.index("<!-- /seeded-table -->")
    open(p, "w").write(s[:a] + "<!-- seeded-table -->\n" + "\n".join(rows) + "\n" + s[b:])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("spec", nargs="?")
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--check", action="store_true")
    ap.add_argument("--checkonly", nargs="*")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--props", nargs="*")
    ap.add_argument("--table", action="store_true")
    a = ap.parse_args()
    kept = []
    if a.spec:
        bugs = [b for b in runpy.run_path(a.spec)["BUGS"] if not a.only or b["id"] in a.only]
        with ThreadPoolExecutor(3) as ex:
            for bug, (bid, ok, msg, patch) in zip(bugs, ex.map(process, bugs)):
                print("KEEP" if ok else "DROP", bid, msg, flush=True)
                if ok:
                    store(bug, patch)
                    kept.append(bid)
    if a.checkonly is not None:
        kept = a.checkonly or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    if a.check or a.checkonly is not None:
        for b in kept:
            print("CHECK", *check(b, a.props, seed=a.seed), flush=True)
    if a.table:
        table()


if __name__ == "__main__":
    sys.exit(main())
