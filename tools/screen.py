"""Mutation tool's helper: runs a thin slice of the quick cases of several properties in one process.
Never used by a check (slices are not exhaustive); survivors are rerun with the real checks.

usage: screen.py SECONDS_PER_FAMILY C01 C02 ...      exit 1 and a line KILLED <pid> <family>, or 0"""
import json
import os
import resource
import signal
import sys
import tempfile
import shutil
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mc import core  # noqa: E402


def main():
    per = float(sys.argv[1])
    signal.signal(signal.SIGVTALRM, core._alarm)
    resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))
    out = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)

    def say(s):
        os.write(out, (s + "\n").encode())

    try:
        core.prepare()
    except BaseException as e:  # noqa: BLE001
        say(f"KILLED import {e!r}")
        return 1
    scratch = tempfile.mkdtemp(prefix="screen-")
    try:
        for pid in sys.argv[2:]:
            try:
                prop = core.load(pid)
            except BaseException as e:  # noqa: BLE001
                say(f"KILLED {pid} load")
                return 1
            ev = json.load(open(os.path.join(os.environ["SCREEN_EVIDENCE"], pid + ".json")))
            cost = {f["family"]: (f["cpu_s"], f["cases"]) for f in ev["coverage"]["families"]}
            ctx = core.Ctx(pid, "quick", scratch)
            for fam in prop.families:
                fam.cpu_s = 8
                cpu, n = cost.get(fam.name, (1, 1))
                stride = max(1, int(cpu / per + 0.5))
                t0 = time.time()
                for idx, case in enumerate(fam.gen("quick")):
                    if stride > 1 and (idx * 2654435761 >> 7) % stride and idx > 3:
                        continue
                    if core.run_case(fam, ctx, case):
                        say(f"KILLED {pid} {fam.name}")
                        return 1
                    if time.time() - t0 > 6 * per + 2:
                        break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


if __name__ == "__main__":
    rc = main()
    os._exit(rc)
