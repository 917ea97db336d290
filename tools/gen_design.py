#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the hand-written parts below plus, per property, the enumerated
families with their bounds (from the checks themselves), the cost of the last run on the
unchanged tree (from evidence/) and which planted bugs it catches (tools/seed_results.json)."""
import importlib
import importlib.util
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

spec = importlib.util.spec_from_file_location("gm", os.path.join(HERE, "tools", "gen_manifest.py"))
gm = importlib.util.module_from_spec(spec)
spec.loader.exec_module(gm)

INTRO = """# Deciding the properties of dustmaker by bounded exhaustive exploration

dustmaker is a sequential library: a bit-level reader/writer, the Dustforce level, replay
and variable file formats on top of it, an in-memory level model with geometric operations
(transform, upscale, edge computation, merge, id allocation), and four command line tools.
It starts no threads, so the behaviours to explore are mainly: operation histories on stateful
objects (bit streams, levels, arrays, property views), all inputs of bounded size over
alphabets that contain one value per shortcut in the code, all legal file layouts up to a
bound, and environment faults (truncation at every byte, short and failing writes, streams
that cannot seek, commands failing at every stage). Callers may use it from several threads or
from callbacks; those interleavings are explored too (C33).

## Technique

Stateless, explicit enumeration *on the real code*: `mc/core.py` runs every case of every
*family* of a property on the code imported from /repo's working tree (pure Python, so no
build step; nothing is cached between runs, bytecode is not written) and compares every
observable with a reference model written independently in `mc/`:

* `mc/ref.py` - a list-of-bits encoder/decoder of every Dustforce format (bit streams, fixed
  point, 6-bit strings, variable trees and files, level containers of all versions, replays),
  snapshots of levels/tiles/entities as plain tuples, and builders from such tuples;
* `mc/geom.py` - exact rational geometry of tiles (polygons of the 21 shapes, edges, caps,
  visibility and joining rules), affine maps over `Fraction`;
* `mc/levelcases.py`, `mc/replaycases.py`, `mc/entities.py` - alphabets;
* `mc/sched.py` - a controlled scheduler: runs functions in real threads, one at a time, and
  hands over exactly at chosen line events of the code under test (C33); a task that blocks on
  something the other one holds is detected and the other one resumed;
* `mc/cli.py` - runs the real command line entry points in a scratch directory.

A family is a deterministic generator of plain literals plus a function that executes one
literal. There is no randomness anywhere (VERIF_SEED is accepted and recorded, and changes
nothing), no sampling, and no solver: the verdict is the result of executing all of them. A
family that does not finish within its budget is reported as `exhaustive: false`; that never
happens in the quick tier on this machine. The cases are dealt over 8 worker processes.

* Model binding: the model is never checked alone. Each case is executed on the
  implementation in lockstep with the model, so `traces_validated_against_impl` in the
  evidence equals the number of complete cases.
* Any exception that the model does not predict, or a case that takes more than its CPU limit
  (a hang), is a violation.
* A violation is written to `replays/` with the literal case, and `./check --replay FILE` runs
  it again in a fresh process. (A violation caused by state leaking between objects can depend
  on earlier cases of the same worker; such leaks have explicit multi-object cases in C29.)
* Enumerations are ordered simplest first, so the reported case is (close to) minimal.
* Only the public API is used (module-level names, documented attributes, `close`, `bit_tell`
  ...), never private fields, so that refactorings stay quiet.

quick = what should run on each change (each check 1-40 s on 8 cores). thorough = the same
families with deeper histories and larger alphabets (minutes to an hour each).

Effects: the code under test only writes where it is told to. All command line runs happen
in a per-worker scratch directory under a fresh temporary directory that the check removes.

Why this reaches what the tests cannot: the repository's 20 tests round-trip two shipped
files and sample a few shapes, and would pass with each of the planted bugs listed below.
"""

FALSE = """## False alarms that were corrected (machinery or statement, not code)

* C13/C16: a flip negates join angles; -128 has no negation within the stored byte. The
  claim and the alphabets were restricted to -127..127; the C29 content alphabet as well.
* C16/C17: the absolute meaning of a flipped prop's rotation cannot be derived from the
  repository; only group consistency (turn, toggled vertical flip, negated rotation) is claimed.
* C10: values between two steps of the 16 bit mouse coordinates round to the nearest step, so
  "same value" became "same value at the stored resolution".
* C12: metadata-only reads of truncated levels succeed legitimately (they never touch the
  regions) and a level without regions is complete before its last byte; excluded.
* C30: a raw stream whose `write` returns fewer bytes is only defined for writers; short reads
  are not (Python's own `read(n)` of raw streams has the same freedom). Fault streams
  of the harness first modelled a short write that dropped the tail; corrected.
* C24: `VariableFloat(1.0)` and `VariableInt(1)` are different kinds, hence different.
* C26: upscaling a level that already has a special level type keeps the type, by the code's
  own documentation.
* C22: reading an absent array property stores the empty array; allowed by the statement.
* C03/C06: the fixed point format truncates towards minus infinity; "within one unit of the
  resolution" replaced "nearest".

## Not claimed (undefined or out of reach here)

prop scales beyond the 56 steps; scaling of `Prop.scale` by upscale; integers outside the
field widths; the per-segment tile surface total; corrupted but not truncated data; metadata
reads of truncated files; widths of trigger entities and emitter sizes under transforms;
slices of array variables; `bool` passed where an int is expected; `TxMatrix.angle` conventions; the sign convention of left-side join angles in
game files (the writer and reader agree with each other and with the shipped files); merging
a level into itself; dangling references in merged levels; noclose on a raw stream whose flush fails.
No property of the list is outside the family: all are decided by enumeration, so
`not_applicable` is empty.

## Trusted base

CPython, zlib and the reference models. The models were cross-checked against the game files
shipped in /repo/tests (C06 `shipped`, C10 `shipped`, C07/C11 decode everything that is
written) so a misunderstanding of the format shared by model and code is the residual risk.
"""

FIND = """## Genuine defects found and repaired

Each has its own `fix:` commit in /repo with the existing tests unedited and passing; the
checks report the defect again when the commit is reverted. There is no open finding.

"""


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    res = {}
    rp = os.path.join(HERE, "tools", "seed_results.json")
    if os.path.exists(rp):
        res = json.load(open(rp))
    out = [INTRO, "\n## The properties\n"]
    for p in props:
        pid = p["id"]
        m = importlib.import_module("mc.props." + pid.lower()).PROP
        tech, note = gm.NOTES[pid]
        out.append(f"### {pid} {p['title']}\n")
        out.append(f"*Method:* {tech}: {note}.\n")
        out.append(f"*Beyond the tests:* {p['why_tests_cant']}\n")
        out.append("*Enumerated (bounds are part of each rule):*\n")
        for f in m.families:
            out.append(f"- `{f.name}`: {f.rule}")
        if getattr(m, "assumptions", None):
            out.append("\n*Assumptions:* " + "; ".join(m.assumptions) + ".")
        ev = os.path.join(HERE, "evidence", pid + ".json")
        if os.path.exists(ev):
            e = json.load(open(ev))
            c = e["coverage"]
            if c.get("exhaustive") and e["tier"] == "quick":
                out.append(f"\n*Cost of the quick check:* {c['traces_validated_against_impl']} cases, {c['transitions']} calls into the code, about {max(1, round(e.get('wall_time_s', e.get('wall_s', 0)) ))} s.")
        mine = [k for k, v in sorted(res.items()) if v["property"] == pid]
        if mine:
            out.append("\n*Planted bugs:* " + ", ".join(f"`{k}` {res[k]['result']}" + (f" by `{res[k]['family']}`" if res[k]["family"] else "") for k in mine) + ".")
        out.append("")
    out.append(FIND)
    for l in open(os.path.join(HERE, "known_findings.txt")):
        if l.startswith("fixed:"):
            _, pr, h, what = l.split(" ", 3)
            out.append(f"- {pr.split('=')[1]} ({h}): {what.strip()}")
    out.append("")
    out.append(FALSE)
    out.append("## Planted bugs\n\nDefined in tools/seeds*.py, confirmed and materialised as seeded/<id>/ by tools/seedtool.py\n(scratch copy of /repo, tests pass, demo distinguishes the trees), then the property's quick\ncheck is run against the patched copy. What each needs and breaks:\n")
    for k, v in sorted(res.items()):
        mp = os.path.join(HERE, "seeded", k, "meta.json")
        if os.path.exists(mp):
            me = json.load(open(mp))
            out.append(f"- `{k}` ({v['result']} by {v['property']} `{v['family']}`): needs {me['needs']}; {me['what_it_breaks']}.")
    out.append("")
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))


main()
