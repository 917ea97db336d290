#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in tools/seeds*.py, after confirming
each in a scratch copy: the patch applies, the tests pass, the demo tells the trees apart.
Then runs the property's quick check against the patched copy.  Not used by any check.

usage: seedtool.py [ids...]      (default: all definitions)"""
import concurrent.futures
import glob
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# exit 0: the property holds in this case; nonzero: it is broken
HERE="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$HERE/demo.py"
"""
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def seeds():
    out = {}
    for p in sorted(glob.glob(os.path.join(HERE, "tools", "seeds*.py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(p)[:-3], p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def run(cmd, cwd, env=None, t=300):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", **(env or {}))
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(s):
    work = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        repo = os.path.join(work, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        for fn, old, new in s["edits"]:
            p = os.path.join(repo, fn)
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], f"BAD edit of {fn}: {t.count(old)} matches", ""
            open(p, "w").write(t.replace(old, new))
        diff = run(["git", "diff"], repo)[1]
        out = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        msgs = []
        rc, o = run(["bash", os.path.join(out, "demo.sh")], "/repo")
        if rc != 0:
            msgs.append(f"demo fails on the unchanged tree: {o[-600:]}")
        rc, o = run(["bash", os.path.join(out, "demo.sh")], repo, t=120)
        if rc == 0:
            msgs.append("demo passes with the patch")
        rc, o = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], repo)
        if rc != 0:
            msgs.append(f"tests fail: {o[-400:]}")
        rc, o = run(["./check", s["prop"], "quick"], HERE, {"VERIF_REPO": repo}, 900)
        caught = rc == 1 and f"VIOLATION property={s['prop']}" in o
        m = re.search(r"^  family (\S+)", o, re.M)
        fam = m.group(1) if m else ""
        if msgs:
            return s["id"], "INVALID " + "; ".join(msgs), fam
        return s["id"], ("caught" if caught else f"MISSED rc={rc} {o[-300:]}"), fam
    finally:
        shutil.rmtree(work)


if __name__ == "__main__":
    all_ = seeds()
    ids = sys.argv[1:] or list(all_)
    respath = os.path.join(HERE, "tools", "seed_results.json")
    results = json.load(open(respath)) if os.path.exists(respath) else {}
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for i, res, fam in ex.map(lambda i: one(all_[i]), ids):
            results[i] = {"property": all_[i]["prop"], "result": res.split()[0], "family": fam}
            print(f"{i} [{all_[i]['prop']}] {res} ({fam})", flush=True)
    json.dump({k: results[k] for k in sorted(results) if k in all_}, open(respath, "w"), indent=1)
