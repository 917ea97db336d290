#!/usr/bin/env python3
"""Systematic mutation of dustmaker: every small syntactic change of every function, checked by the
quick checks mapped to the file.  A tool to find gaps; not used by any check.

usage: mutate.py OUT.jsonl [-j N] [file ...]     (resumes: mutants already in OUT are skipped)"""
import ast
import concurrent.futures
import copy
import json
import os
import queue
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUT_BASE", "/tmp/mut")
MAP = {
    "bitio.py": "C02 C30 C01 C12 C29",
    "dfreader.py": "C03 C08 C11 C04 C10 C06 C09 C12 C30 C29",
    "dfwriter.py": "C03 C07 C11 C04 C10 C06 C09 C29 C30 C20",
    "entity.py": "C32 C07 C22 C17 C21 C23 C29 C16 C06",
    "level.py": "C32 C26 C22 C21 C18 C14 C16 C20 C19 C29",
    "prop.py": "C06 C16 C29 C14",
    "replay.py": "C32 C10 C11 C29 C12",
    "tile.py": "C32 C13 C24 C14 C07 C08 C18 C06 C16 C29 C19 C31",
    "transform.py": "C15 C13 C16 C14",
    "variable.py": "C32 C05 C24 C23 C25 C04 C22 C29",
    "cmd/common.py": "C25 C27 C26 C28",
    "cmd/main.py": "C25 C26 C28 C27",
    "cmd/save_convert.py": "C28 C27",
    "cmd/thumbnail.py": "C26 C27",
    "cmd/transform.py": "C26 C27",
    "cmd/variables.py": "C25 C27",
}
CMP = {ast.Lt: (ast.LtE, ast.GtE), ast.LtE: (ast.Lt, ast.Gt), ast.Gt: (ast.GtE, ast.LtE), ast.GtE: (ast.Gt, ast.Lt), ast.Eq: (ast.NotEq,), ast.NotEq: (ast.Eq,), ast.In: (ast.NotIn,), ast.NotIn: (ast.In,), ast.Is: (ast.IsNot,), ast.IsNot: (ast.Is,)}
BIN = {ast.Add: (ast.Sub,), ast.Sub: (ast.Add,), ast.Mult: (ast.FloorDiv,), ast.Div: (ast.Mult,), ast.FloorDiv: (ast.Mult,), ast.Mod: (ast.FloorDiv,), ast.BitAnd: (ast.BitOr,), ast.BitOr: (ast.BitAnd,), ast.BitXor: (ast.BitOr,), ast.LShift: (ast.RShift,), ast.RShift: (ast.LShift,), ast.Pow: (ast.Mult,)}


def docstring_ids(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            out.add(id(n))
            out.add(id(n.value))
    return out


def sites(tree):
    """Yields (line, description, apply) ; apply mutates the tree in place and returns undo"""
    skip = docstring_ids(tree)
    ann = set()
    for n in ast.walk(tree):
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                for m in ast.walk(a):
                    ann.add(id(m))
    parents = {}
    for n in ast.walk(tree):
        for field, val in ast.iter_fields(n):
            for i, c in enumerate(val if isinstance(val, list) else [val]):
                if isinstance(c, ast.AST):
                    parents[id(c)] = (n, field, i if isinstance(val, list) else None)

    def setter(n, new):
        p, f, i = parents[id(n)]

        def ap():
            if i is None:
                setattr(p, f, new)
            else:
                getattr(p, f)[i] = new

        def un():
            if i is None:
                setattr(p, f, n)
            else:
                getattr(p, f)[i] = n

        return ap, un

    for n in ast.walk(tree):
        if id(n) in skip or id(n) in ann or id(n) not in parents:
            continue
        line = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), ()):
                    m = copy.copy(n)
                    m.ops = list(n.ops)
                    m.ops[k] = new()
                    yield line, f"{ast.unparse(n)} -> {ast.unparse(m)}", setter(n, m)
        elif isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), ()):
                m = copy.copy(n)
                m.op = new()
                yield line, f"{ast.unparse(n)} -> {ast.unparse(m)}", setter(n, m)
        elif isinstance(n, ast.BoolOp):
            m = copy.copy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            yield line, f"{ast.unparse(n)} -> {ast.unparse(m)}", setter(n, m)
            for k in range(len(n.values)):
                if len(n.values) == 2:
                    m = n.values[1 - k]
                else:
                    m = copy.copy(n)
                    m.values = n.values[:k] + n.values[k + 1 :]
                yield line, f"{ast.unparse(n)} -> {ast.unparse(m)}", setter(n, m)
        elif isinstance(n, ast.UnaryOp):
            yield line, f"{ast.unparse(n)} -> {ast.unparse(n.operand)}", setter(n, n.operand)
        elif isinstance(n, ast.Constant):
            v = n.value
            alts = ()
            if isinstance(v, bool):
                alts = (not v,)
            elif isinstance(v, int):
                alts = (v + 1, v - 1)
            elif isinstance(v, float):
                alts = (v + 1.0,)
            elif isinstance(v, bytes):
                alts = (v + b"x",)
            elif isinstance(v, str) and " " not in v and not isinstance(parents[id(n)][0], (ast.JoinedStr,)):
                alts = (v + "x",)
            for a in alts:
                m = ast.copy_location(ast.Constant(a), n)
                par = parents[id(n)][0]
                yield line, f"{v!r} -> {a!r} in {ast.unparse(par)[:80]}", setter(n, m)
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for t in (True, False):
                if isinstance(n, ast.While) and t:
                    continue
                m = copy.copy(n)
                m.test = ast.Constant(t)
                yield line, f"condition {ast.unparse(n.test)[:80]} -> {t}", setter(n, m)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)) or (isinstance(n, ast.Expr)):
            yield line, f"delete {ast.unparse(n)[:100]}", setter(n, ast.Pass())
        elif isinstance(n, ast.Continue):
            yield line, "continue -> break", setter(n, ast.Break())
            yield line, "continue -> pass", setter(n, ast.Pass())
        elif isinstance(n, ast.Break):
            yield line, "break -> pass", setter(n, ast.Pass())
        elif isinstance(n, ast.Raise):
            yield line, f"delete {ast.unparse(n)[:80]}", setter(n, ast.Pass())
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            m = copy.copy(n)
            m.value = None
            yield line, f"{ast.unparse(n)[:80]} -> return None", setter(n, m)
        elif isinstance(n, ast.Call):
            if len(n.args) == 2 and not n.keywords:
                m = copy.copy(n)
                m.args = n.args[::-1]
                yield line, f"{ast.unparse(n)[:80]} swap args", setter(n, m)
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
            if name in ("max", "min"):
                m = copy.copy(n)
                m.func = ast.Name("min" if name == "max" else "max", ast.Load())
                yield line, f"{ast.unparse(n)[:80]} max<->min", setter(n, m)
            if name in ("deepcopy", "copy", "list", "dict", "int", "round", "abs", "floor", "tuple", "bytes", "sorted", "bool") and len(n.args) == 1:
                yield line, f"{ast.unparse(n)[:80]} -> argument", setter(n, n.args[0])
        elif isinstance(n, ast.Slice):
            for f in ("lower", "upper", "step"):
                if getattr(n, f) is not None:
                    m = copy.copy(n)
                    setattr(m, f, None)
                    yield line, f"slice {ast.unparse(n)} without {f}", setter(n, m)


def mutants(fn):
    src = open(os.path.join("/repo/dustmaker", fn)).read()
    tree = ast.parse(src)
    seen = {ast.unparse(tree)}
    out = []
    for line, desc, (ap, un) in list(sites(tree)):
        ap()
        try:
            t = ast.unparse(ast.fix_missing_locations(tree))
        except Exception:  # pylint: disable=broad-except
            t = None
        un()
        if t is None or t in seen:
            continue
        seen.add(t)
        out.append((f"{fn}:{line}:{desc}", t))
    return out


ORDER = "C32 C31 C05 C24 C15 C13 C23 C21 C17 C28 C03 C11 C22 C08 C02 C14 C07 C26 C25 C18 C30 C29 C04 C10 C27 C06 C20 C09 C16 C12 C19 C01".split()
COVER = {}


def relevant(fn, line):
    """Checks that execute the smallest statement around the line."""
    if not COVER:
        for pid in ORDER:
            COVER[pid] = set(open(os.path.join(os.environ.get("COVER", "/tmp/cover"), pid)).read().split())
    tree = ast.parse(open(os.path.join("/repo/dustmaker", fn)).read())
    best = None
    for n in ast.walk(tree):
        if isinstance(n, ast.stmt) and n.lineno <= line <= n.end_lineno:
            if best is None or n.end_lineno - n.lineno <= best.end_lineno - best.lineno:
                best = n
    lo, hi = (best.lineno, best.end_lineno) if best else (line, line)
    if isinstance(best, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.FunctionDef, ast.ClassDef)):
        hi = max(lo, line)
    pids = [p for p in ORDER if any(f"{fn}:{l}" in COVER[p] for l in range(lo, hi + 1))]
    # most specific file mapping first
    own = MAP[fn].split()
    if len(pids) > 25:
        return own
    return [p for p in own if p in pids] + [p for p in pids if p not in own] + ([p for p in own if p not in pids] if len(pids) == 0 else [])


def setup(w):
    d = os.path.join(BASE, f"w{w}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git", "__pycache__"))
    shutil.copytree(HERE, d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays", "__pycache__"))
    return d


def judge(d, fn, text, pids):
    p = os.path.join(d, "repo/dustmaker", fn)
    orig = open(os.path.join("/repo/dustmaker", fn)).read()
    open(p, "w").write(text)
    env = dict(os.environ, VERIF_REPO=d + "/repo", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", SCREEN_EVIDENCE=os.path.join(HERE, "evidence"))
    try:
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-B", "tools/screen.py", os.environ.get("SCREEN", "0.3")] + pids, cwd=d + "/verif", env=env, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            return "timeout", ""
        if r.returncode == 1:
            return "killed", r.stdout.strip()
        if r.returncode != 0:
            return f"error {r.returncode} {r.stderr[-200:]}", ""
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d + "/repo", env=env, capture_output=True, text=True, timeout=200)
        except subprocess.TimeoutExpired:
            return "tests-timeout", ""
        return ("SURVIVED" if r.returncode == 0 else "tests"), ""
    finally:
        open(p, "w").write(orig)


def main():
    args = sys.argv[1:]
    out = args.pop(0)
    j = 8
    if args and args[0] == "-j":
        j = int(args[1])
        args = args[2:]
    files = args or list(MAP)
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    todo = [(fn, i, t) for fn in files for i, t in mutants(fn) if i not in done]
    print(len(todo), "mutants to do", flush=True)
    relevant("prop.py", 1)
    pool = queue.Queue()
    for w in range(j):
        pool.put(setup(w))
    t0 = time.time()
    with open(out, "a") as f, concurrent.futures.ThreadPoolExecutor(j) as ex:

        def one(x):
            d = pool.get()
            try:
                t1 = time.time()
                return x[1], judge(d, x[0], x[2], relevant(x[0], int(x[1].split(':')[1]))), time.time() - t1
            finally:
                pool.put(d)

        futs = [ex.submit(one, x) for x in todo]
        for k, fu in enumerate(concurrent.futures.as_completed(futs)):
            i, (res, pid), dt = fu.result()
            f.write(json.dumps({"id": i, "res": res, "by": pid, "s": round(dt, 1)}) + "\n")
            f.flush()
            if res != "killed":
                print(f"[{k} {time.time()-t0:.0f}s] {res} {pid} {i}", flush=True)
    shutil.rmtree(BASE, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--count":
        for fn in MAP:
            print(fn, len(mutants(fn)))
    else:
        main()
