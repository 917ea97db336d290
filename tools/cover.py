#!/usr/bin/env python3
"""cover.py OUTDIR [ids]: runs quick checks recording which lines of dustmaker each executes
(sys.monitoring, first hit only).  Used by mutate.py to choose checks; not used by any check."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2 and sys.argv[1] == "--one":
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    from mc import core

    fd = os.open(sys.argv[3], os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    root = os.path.join(core.REPO, "dustmaker") + "/"
    mon = sys.monitoring
    mon.use_tool_id(3, "cover")

    def line(code, n):
        if code.co_filename.startswith(root):
            os.write(fd, f"{code.co_filename[len(root):]}:{n}\n".encode())
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    core.explore(sys.argv[2], "quick", 0)
    os._exit(0)
out = sys.argv[1]
os.makedirs(out, exist_ok=True)
for pid in sys.argv[2:] or [f"C{i:02d}" for i in range(1, 32)]:
    p = os.path.join(out, pid)
    if os.path.exists(p):
        os.remove(p)
    subprocess.run([sys.executable, os.path.abspath(__file__), "--one", pid, p], stdout=subprocess.DEVNULL, check=True)
    hits = sorted(set(open(p).read().split()))
    open(p, "w").write("\n".join(hits))
    print(pid, len(hits), flush=True)
