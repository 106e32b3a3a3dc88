"""Writes MANIFEST.json from the property modules that exist; the rest is listed as not (yet) claimed."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Seeded search over simulated executions of the real code; no exhaustiveness is claimed. {} "
        "Trusted: the simulator's model of the event loop, thread pool, files, pipes and sockets, and the reference "
        "model in sim/ (see DESIGN.md).")
NOTES = {
    "G01": "Every run is a full encode and two decodes compared with an independent parser of the published format.",
    "G02": "Crash images are reconstructed from the journal of raw writes, with the last write torn.",
    "G03": "One or more faults per run at chosen raw operations.",
    "G04": "Interleavings come from seeded completion times of pool jobs and virtual delays.",
    "G05": "Access histories with read faults against plain bytes.",
    "G06": "Operation histories against a sequential byte file.",
    "G07": "Differential between up to six readers of one mutated byte string.",
    "G08": "Files come from an independent writer that inserts unknown content everywhere the format allows.",
    "G09": "Operation histories against an executable model of the encoder.",
    "G10": "Concurrent producers on virtual time with seeded write completion and cancellation.",
    "G11": "Generated elementary streams against the frame boundaries they were generated with.",
    "G12": "The tools' entry points run in process with simulated standard streams.",
    "G13": "Concurrent awaits with seeded delays, cancellation and failure.",
    "G14": "Interleaved access histories against fresh generators.",
    "G16": "Histories of changes and copies against a plain model of every view.",
    "G17": "Histories of sessions over files that record how they are used; every way of ending is injected.",
    "G18": "Comparison of recordings read through a simulated file with short reads and read errors; reference verdict.",
    "G19": "Chains of conversions by threads preempted at library lines; noise is drawn, extreme or fails.",
    "G20": "A simulated engine draws with random, repeated, simplified and cut off choices; histories of changes.",
    "G15": "Byte corruption at positions computed by the reference parser.",
}
TECH = "deterministic simulation with fault injection (seeded schedule and fault search, replayable tape)"
ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "sim", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": TECH, "level": "exploration", "level_note": NOTE.format(NOTES[i])})
    else:
        na.append({"property": i, "reason": "the check for this property is not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", [x["property"] for x in na])
_ = sys
