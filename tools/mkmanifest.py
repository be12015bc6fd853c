#!/usr/bin/env python3
"""Writes MANIFEST.json: the checks that are registered in mbv/props.py, the rest not claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mbv import props
BOTH = "TLA+ model checked with TLC; its behaviours replayed in the real code; recorded runs checked against it by TLC"
REC = "TLA+ model checked with TLC; recorded runs of the real code checked against it by TLC"
NOTES = {
 "C01": (BOTH, "All scripts of segments up to the bound are model checked and replayed; generated streams are trace checked. Sampled beyond the bound. The division of 32-bit clocks by limbs is proved for all numbers with Apalache."),
 "C02": (BOTH, "As C01 for both reading modes; additionally both modes are compared on the same generated streams."),
 "C03": (BOTH, "All arrangements of palettes, whole and split objects up to the bound; every split offset of generated objects; objects larger than one segment."),
 "C04": (BOTH, "The iterator machine is checked against the meaning of the codes on all small pictures; all are replayed; larger pictures and palettes of all orders are trace checked."),
 "C05": (REC, "The bordered rendering is checked pixel by pixel on all small pictures; renderings by the real code of generated pictures are judged by the same operators."),
 "C06": (BOTH, "No panic, hang or wrong-sized image on all bounded invalid scripts, on mutated, cut and random streams. A process abort or a run over the time limit is a violation."),
 "C07": (BOTH, "All invalid contents up to the bound between two good captions, model checked and replayed; generated spoilt streams trace checked."),
 "C08": (REC, "The buffered reader is model checked over all short reads, interruptions and failing offsets of a bounded family; the real reader is run with such sources, failing at every offset of some streams. An inductive invariant of the buffered reader is proved for every capacity and length with Apalache."),
 "C09": (BOTH, "As C04, with data that is cut, too short or too long; the reported length is recorded along the whole iteration."),
 "C10": (BOTH, "All packetisations up to the bound are model checked and replayed; generated streams (fillers, stuffing, header options, other substreams) are trace checked."),
 "C11": (BOTH, "All bounded control chains with dates; time stamps over the 33-bit range incl. boundaries in recorded runs. The allowed result is the exact millisecond (rounded down; see DESIGN.md for exact multiples). The division of 33-bit clocks by limbs is proved for all numbers with Apalache."),
 "C12": (BOTH, "All control chains of a bounded family, model checked and replayed; generated ones are trace checked."),
 "C13": (BOTH, "The decoder machine is checked against the meaning of the codes on all small bitmaps; replayed; generated bitmaps are trace checked."),
 "C14": (BOTH, "No panic, hang or wrong-sized image on bounded invalid chains and on mutated, cut and random streams."),
 "C15": (BOTH, "All invalid contents of a bounded family between good subtitles, model checked and replayed; generated ones are trace checked."),
 "C16": (REC, "Colour rules model checked over all palettes/alphas of a bounded family; renderings by the real code are judged by the same operators."),
 "C17": (BOTH, "All bounded sequences of lines are model checked and replayed; generated files are trace checked."),
 "C18": (BOTH, "All short byte strings over the bytes that matter, model checked and replayed on real files; generated ones are trace checked."),
 "C19": (BOTH, "The digit arithmetic is model checked; boundary and random time points over the whole range are trace checked, with the parsing back of the displayed text. Digit arithmetic and the split of all 64-bit times are proved with Apalache."),
 "C20": (BOTH, "The writer machine is checked over all short writes, interruptions and failures of a bounded family; real writers over such sinks are trace checked."),
 "C21": (BOTH, "All pairs of corner coordinates around the 16-bit boundaries, model checked and replayed."),
 "C22": (BOTH, "A file system machine: all bounded sequences of images and failures are model checked and replayed in a scratch directory."),
 "C23": (BOTH, "All thresholds at the boundaries with all pixel values of a bounded set; all 65536 pixel values are recorded for generated thresholds."),
 "C24": (BOTH, "All interleavings of two bounded readers are model checked (each behaves as alone), and replayed by the real readers; longer schedules are trace checked."),
 "C26": (BOTH, "All ways of choosing a decoder per caption over bounded scripts are model checked and replayed, with the position of the reader; generated streams, buffers and ways of handing over are trace checked."),
 "C25": (REC, "The same streams through files and memory, missing and unreadable paths, judged by the specification."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PLANS:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}", "technique": t,
                       "level": "model_checking", "level_note": n + " Trusts TLC, its JSON modules and the harness."})
    else:
        na.append({"property": i, "reason": "the specification does not cover it yet"})
m = {"version": 1, "setup_cmd": "cd harness && CARGO_NET_OFFLINE=true cargo build --offline --locked", "checks": checks,
     "not_applicable": na,
     "notes": "No hooks: everything is observed through the public interface. Replays of violations are in replays/."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
