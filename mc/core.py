"""Bounded exhaustive explorer: enumerates every case of every family of a property
on the real code of /repo and compares it with the reference models in this package.

A *family* is a finite, deterministic enumeration of cases (plain literals) and a
function that replays one case on the implementation and checks it.  Nothing is
sampled: every case that the enumerator yields is executed.
"""
import ast
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_CPU_S = float(os.environ.get("VERIF_CASE_CPU") or 60.0)
MAX_STATES_KEPT = 400000
BUDGET_S = {"quick": 600.0, "thorough": 4 * 3600.0}
if os.environ.get("VERIF_BUDGET"):
    BUDGET_S = dict.fromkeys(BUDGET_S, float(os.environ["VERIF_BUDGET"]))


class Violated(Exception):
    """The property does not hold on the current case."""


class CaseTimeout(BaseException):
    """CPU watchdog of a single case."""


def require(cond, *msg):
    if not cond:
        raise Violated(" ".join(m if isinstance(m, str) else repr(m) for m in msg)[:4000])


def same(got, want, what="value"):
    if got != want:
        raise Violated(f"{what}: got {short(got)}, expected {short(want)}")


def short(x, n=1500):
    r = repr(x)
    return r if len(r) <= n else r[: n - 200] + " ... " + r[-180:]


def raises(exc, fn, *args, **kw):
    """fn must raise exactly one of exc."""
    try:
        res = fn(*args, **kw)
    except exc:
        return
    except Exception as e:  # pylint: disable=broad-except
        raise Violated(f"expected {exc}, got {type(e).__name__}: {e}") from e
    raise Violated(f"expected {exc}, but the call returned {short(res, 300)}")


class Ctx:
    """Coverage counters of one worker."""

    def __init__(self, prop, tier, scratch):
        self.prop = prop
        self.tier = tier
        self.scratch = scratch
        self.transitions = 0
        self.states = set()
        self.state_overflow = 0
        self.traces = 0
        self.outcomes = {}

    def step(self, n=1):
        self.transitions += n

    def state(self, *key):
        """Record an abstract state reached; True if it is new to this worker."""
        h = hash(key)
        if h in self.states:
            return False
        if len(self.states) >= MAX_STATES_KEPT:
            self.state_overflow += 1
            return True
        self.states.add(h)
        return True

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def tmpdir(self):
        return tempfile.mkdtemp(dir=self.scratch)


class Family:
    def __init__(self, name, gen, fn, rule):
        self.name, self.gen, self.fn, self.rule = name, gen, fn, rule
        self.cpu_s = CASE_CPU_S


class Prop:
    """All families of one property."""

    def __init__(self, pid):
        self.pid = pid
        self.families = []

    def family(self, gen, rule):
        def deco(fn):
            self.families.append(Family(fn.__name__, gen, fn, rule))
            self.families[-1].cpu_s = getattr(self, "case_cpu_s", CASE_CPU_S)
            return fn

        return deco


def _alarm(_sig, _frm):
    raise CaseTimeout()


def _describe(exc):
    if isinstance(exc, Violated):
        return str(exc)
    if isinstance(exc, CaseTimeout):
        return f"no answer within the CPU time limit of a case (hang)"
    return f"unexpected {type(exc).__name__}: {exc}"


def run_case(fam, ctx, case):
    """Returns None or (message, traceback)."""
    signal.setitimer(signal.ITIMER_VIRTUAL, fam.cpu_s)
    try:
        fam.fn(ctx, case)
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # noqa: BLE001  (SystemExit, CaseTimeout, ... all count)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return _describe(e), traceback.format_exc()[-6000:]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return None


def _worker(prop, tier, k, n, conn, scratch, stop, deadline):
    signal.signal(signal.SIGVTALRM, _alarm)
    try:
        lim = 7 << 29
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass
    ctx = Ctx(prop.pid, tier, scratch)
    result = {"k": k, "violation": None, "fams": {}, "capped": []}
    # The sandbox's own stdout must only carry our report.
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    for fi, fam in enumerate(prop.families):
        cases = 0
        samples = []
        t0, tr0 = time.time(), ctx.transitions
        for idx, case in enumerate(fam.gen(tier)):
            if idx % n != k:
                continue
            if stop.is_set():
                break
            if time.time() > deadline:
                result["capped"].append(fam.name)
                break
            bad = run_case(fam, ctx, case)
            cases += 1
            if len(samples) < 2:
                samples.append(short(case, 400))
            if bad is not None:
                result["violation"] = {
                    "family": fam.name,
                    "fi": fi,
                    "index": idx,
                    "case": repr(case),
                    "message": bad[0],
                    "traceback": bad[1],
                }
                stop.set()
                break
            ctx.traces += 1
        result["fams"][fam.name] = {
            "cases": cases,
            "transitions": ctx.transitions - tr0,
            "samples": samples,
            "cpu_s": time.time() - t0,
        }
        if result["violation"] or stop.is_set():
            break
    result.update(
        states=ctx.states,
        overflow=ctx.state_overflow,
        transitions=ctx.transitions,
        traces=ctx.traces,
        outcomes=ctx.outcomes,
    )
    conn.send_bytes(pickle.dumps(result))
    conn.close()
    os._exit(0)


def load(pid):
    return importlib.import_module("mc.props." + pid.lower()).PROP


def prepare():
    """Import the code under test from REPO, without leaving bytecode there."""
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import dustmaker  # pylint: disable=import-outside-toplevel

    got = os.path.realpath(os.path.dirname(dustmaker.__file__))
    want = os.path.realpath(os.path.join(REPO, "dustmaker"))
    if got != want:
        raise SystemExit(f"dustmaker imported from {got}, expected {want}")


def explore(pid, tier, seed):
    t0 = time.time()
    try:
        prepare()
        prop = load(pid)
    except Exception as e:  # pylint: disable=broad-except
        # The package (or what a check builds with it while loading) is unusable.
        prop = Prop(pid)
        failure = f"the package cannot be loaded: {type(e).__name__}: {e}"
        trace = traceback.format_exc()

        @prop.family(lambda tier: iter((0,)), "loading the package and the check")
        def load_package(ctx, case):
            ctx.step()
            raise Violated(failure + "\n" + trace[-3000:])

    n = int(os.environ.get("VERIF_WORKERS") or max(1, min(8, os.cpu_count() or 1)))
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    mp = multiprocessing.get_context("fork")
    stop = mp.Event()
    deadline = t0 + BUDGET_S[tier]
    procs = []
    results = []
    violations = []
    try:
        for k in range(n):
            rd, wr = mp.Pipe(False)
            p = mp.Process(
                target=_worker, args=(prop, tier, k, n, wr, scratch, stop, deadline)
            )
            p.start()
            wr.close()
            procs.append((p, rd))
        for p, rd in procs:
            try:
                if not rd.poll(max(1.0, deadline + 100 - time.time())):
                    p.kill()
                    raise EOFError
                results.append(pickle.loads(rd.recv_bytes()))
            except EOFError:
                p.join()
                violations.append(
                    {
                        "family": "(worker)",
                        "fi": 10**6,
                        "index": 0,
                        "case": "None",
                        "message": f"worker ended abnormally, exit code {p.exitcode}",
                        "traceback": "",
                    }
                )
                stop.set()
            p.join()
    finally:
        for p, _ in procs:
            if p.is_alive():
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)

    violations += [r["violation"] for r in results if r["violation"]]
    violations.sort(key=lambda v: (v["fi"], v["index"]))
    states = set()
    for r in results:
        states |= r["states"]
    overflow = sum(r["overflow"] for r in results)
    fams = []
    samples = []
    for fam in prop.families:
        rows = [r["fams"][fam.name] for r in results if fam.name in r["fams"]]
        fams.append(
            {
                "family": fam.name,
                "rule": fam.rule,
                "cases": sum(x["cases"] for x in rows),
                "transitions": sum(x["transitions"] for x in rows),
                "cpu_s": round(sum(x["cpu_s"] for x in rows), 2),
            }
        )
        smp = [s for x in rows for s in x["samples"]]
        samples += [f"{fam.name}: {s}" for s in smp[:2]]
    outcomes = {}
    for r in results:
        for key, val in r["outcomes"].items():
            outcomes[key] = outcomes.get(key, 0) + val
    capped = sorted({c for r in results for c in r["capped"]})
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": sum(r["transitions"] for r in results),
            "traces_validated_against_impl": sum(r["traces"] for r in results),
            "exhaustive": not capped and not violations,
            "rule": "every case of every family below is executed on the code in "
            "/repo and compared with the reference model; states = distinct "
            "observed (abstract) states or outcomes, transitions = calls into "
            "the code under test, traces = complete cases compared",
            "families": fams,
            "outcomes": dict(sorted(outcomes.items())),
            "samples": samples,
            "states_not_kept": overflow,
            "capped_families": capped,
        },
        "assumptions": getattr(prop, "assumptions", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    c = evidence["coverage"]
    print(
        f"{pid} tier={tier} states={c['states']} transitions={c['transitions']} "
        f"traces={c['traces_validated_against_impl']} exhaustive={c['exhaustive']} "
        f"wall={evidence['wall_s']}s"
    )
    for fam in fams:
        print(f"  {fam['family']}: cases={fam['cases']} steps={fam['transitions']} cpu={fam['cpu_s']}s")
    if outcomes:
        print("  outcomes: " + ", ".join(f"{k}={v}" for k, v in sorted(outcomes.items())))
    if violations:
        v = violations[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        tag = hashlib.sha1((v["family"] + v["case"]).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", f"{pid}-{v['family'].strip('()')}-{tag}.json")
        with open(path, "w") as f:
            json.dump(dict(v, property=pid, tier=tier), f, indent=1)
            f.write("\n")
        print(f"  family {v['family']} case {v['case'][:800]}")
        print(f"  {v['message'][:1500]}")
        print(v["traceback"][-2500:])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


def replay(path):
    """Re-execute the single case stored in a replay file."""
    prepare()
    with open(path) as f:
        data = json.load(f)
    prop = load(data["property"])
    fam = next(f for f in prop.families if f.name == data["family"])
    signal.signal(signal.SIGVTALRM, _alarm)
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        ctx = Ctx(prop.pid, data["tier"], scratch)
        bad = run_case(fam, ctx, ast.literal_eval(data["case"]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if bad is None:
        print("case holds")
        return 0
    print(bad[0])
    print(bad[1])
    print(f"VIOLATION property={data['property']} replay={path}")
    return 1
