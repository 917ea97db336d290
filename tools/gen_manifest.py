#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the checks present."""
import json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "bounded exhaustive exploration of the real code against a reference model"
HIST = "exhaustive exploration of operation histories of the real code in lockstep with a reference model"
SCHED = "stateless exploration of thread interleavings of the real code under a controlled scheduler"
FAULT = "exhaustive enumeration of fault points on the real code"
NOTES = {
    "C01": (HIST, "every history of writer operations up to the stated depth, from every bit alignment, compared with a list-of-bits model after every operation"),
    "C02": (HIST, "every history of reader operations up to the stated depth over small streams, compared with a list-of-bits model after every operation"),
    "C03": (ENUM, "all field widths in use, all alignments, all strings up to the bound and per-position symbol coverage, all representable values of small fields; the encoding is an independent bit model"),
    "C04": (ENUM, "all variable trees up to the stated size over a per-type value alphabet, at every bit alignment, against an independent encoder and decoder"),
    "C05": (HIST, "all (type, value) pairs of the alphabet for all mutating entry points; acceptance decided by an independent typing model"),
    "C06": (ENUM, "all single contents and all pairs (thorough: triples) from a per-kind alphabet of level contents; snapshot model of a level compared after the round trip"),
    "C07": (ENUM, "the written container is parsed by an independent bit-level parser of the format; all contents of C06 plus all positions around every segment and region boundary"),
    "C08": (ENUM, "files of every version built by an independent encoder from a model; all combinations of versions, flags and contents up to the bound"),
    "C09": (ENUM, "all metadata edits on all container shapes of the alphabet; region bytes compared byte for byte"),
    "C10": (ENUM, "all replays over the alphabet of inputs, frames, characters and tags up to the bound"),
    "C11": (ENUM, "the bytes are compared with an independent encoder of the replay format, and decoded by an independent decoder"),
    "C12": (FAULT, "every byte prefix of every file of the alphabet; a reader that runs beyond its CPU limit is a violation"),
    "C13": (ENUM, "all tile shapes, all sequences of the transformation group generators up to the bound, against exact rational polygon geometry"),
    "C14": (ENUM, "all shapes, flags, factors and transformations up to the bound against exact polygon scaling"),
    "C15": (ENUM, "all words over the matrix generators up to the bound against an exact rational matrix model"),
    "C16": (HIST, "all sequences of level transformations up to the bound against an exact geometric model of the level"),
    "C17": (ENUM, "all entity types with all transformations of the generator words against an exact geometric model of positions, sizes and angles"),
    "C18": (ENUM, "all small tile maps up to the bound against an exact geometric visibility model"),
    "C19": (ENUM, "all pairs and small clusters of tiles up to the bound against an independent model of the documented joining rule"),
    "C20": (HIST, "all histories of adding, removing, merging and reading up to the bound against a model of the ids in use"),
    "C21": (HIST, "all merges of small levels of all entity kinds with references, against a reference-graph model"),
    "C22": (HIST, "all named properties of all entity and level types, all set/get/delete histories up to the bound"),
    "C23": (HIST, "all histories of list operations up to the bound in lockstep with a Python list"),
    "C24": (ENUM, "all pairs of the alphabet of tiles and variables"),
    "C25": (ENUM, "all variable trees up to the bound, all file kinds, through the real command line entry point"),
    "C26": (ENUM, "all combinations of command line options over the level alphabet, through the real command line entry point"),
    "C27": (FAULT, "every failing input of the alphabet at every stage and every injected failure point; all files compared byte for byte"),
    "C28": (ENUM, "all levels, all subsets and orders of scores up to the bound against an independent table"),
    "C29": (HIST, "all histories of write/read/mutate up to the bound over all content kinds"),
    "C30": (FAULT, "all kinds of streams, all close/release histories and all short-write patterns up to the bound"),
    "C31": (HIST, "all sprites and filth combinations and all histories of sprite changes up to the bound against a plain tuple model and the documented dustblock table"),
    "C32": (ENUM, "all enumeration members, all shipped entity classes and user-defined ones up to the bound, by name, against an independent table of the numbers and type names of the format, through files decoded by an independent parser"),
    "C33": (SCHED, "all schedules of two uses with one switch at every line and with two switches up to the bound, real threads handed over at line events, results compared with those of each use alone"),
}
GENERAL = " Bounds and counts are in the evidence file; assumes values outside the alphabets behave like those inside. The code under test is imported unmodified from /repo's working tree; trusted: the CPython interpreter and the reference models in mc/."

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if not os.path.exists(os.path.join(HERE, "mc/props", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "the check for this property is not built yet"})
        continue
    tech, note = NOTES[pid]
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"./check {pid} quick",
            "thorough_cmd": f"./check {pid} thorough",
            "technique": "model checking: " + tech,
            "level": "model_checking",
            "level_note": note[0].upper() + note[1:] + "." + GENERAL,
        }
    )
json.dump(
    {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks: the checks drive the public API of the package imported from /repo's working tree.",
    },
    open(os.path.join(HERE, "MANIFEST.json"), "w"),
    indent=1,
)
