#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLATRACE = "TLA+/TLC: recorded runs of the real code checked against the trace specification %s"
MC = "TLA+/TLC: exhaustive design model SerialLink + TLC-generated behaviours replayed in the real code + recorded runs of the real code against simulated modules, all checked by TraceLink"
DES = "TLA+/TLC: exhaustive design model of the coupler (MCCoupler) + TLC-generated behaviours replayed in the real code (%s) + recorded runs checked by %s"
GEN = "TLA+/TLC: TLC-generated coupler behaviours replayed in the real code + recorded runs checked by %s"
notes = {
 "C01": (MC, "Exhaustive for the design model within its constants (capacities, counters, queues); the real code is bound to it by behaviours generated from the model and by random schedules of writes, flushes, cycles, take-overs and acknowledges over both telegram sizes, every event checked. Sampling, not proof, for the real code."),
 "C02": (MC, "As C01 for the receive direction: random announcement, presentation, withdrawal and acknowledge schedules, all read sizes."),
 "C03": (MC, "As C01: window, successor, capacity, acknowledge mirror and flags are judged in every recorded cycle, also of a processor driven by an arbitrary module (TraceHost)."),
 "C04": (MC, "Start-up from arbitrary left-over images, counters and flags; many short sessions, also with rejected cycles in between."),
 "C05": (DES % ("TraceProduct", "TraceProduct"), "Every serial module also runs alone on its own bytes; reports, images and reads must be identical and follow from its own telegrams. Random configurations of up to 64 modules."),
 "C06": (DES % ("TraceCoupler", "TraceCoupler / TraceLink"), "Every accepted write is tracked by the coupler state machine; every cycle's image is checked per channel."),
 "C07": (DES % ("TraceCoupler", "TraceCoupler / TraceTables"), "All raw words x ranges x formats through the real coupler, twice; sampled for whole configurations and histories."),
 "C08": (DES % ("TraceProduct / TraceCoupler", "TraceProduct / TraceCoupler"), "Random placements including odd byte offsets and gaps between inputs, compared with lone modules and with the decoded own bytes; up to 64 modules."),
 "C09": (DES % ("TraceTwin", "TraceTwin"), "A coupler with rejected cycles is compared with a twin that never saw them; random rejections by images, presets and values."),
 "C10": (GEN % "TraceCoupler / TraceTables", "Random malformed and well-formed inputs at every public entry point, including arbitrary offset tables; the specification decides which is which."),
 "C11": (TLATRACE % "TraceCoupler / TraceTables", "Register count boundaries enumerated for every type, random inconsistent configurations."),
 "C12": (TLATRACE % "TraceTables", "Every register of every type takes all 65536 values; other parameters must not move."),
 "C13": (TLATRACE % "TraceTables / TraceCoupler", "All raw words of all ranges and formats, compared with exact integer arithmetic within single-precision tolerance."),
 "C14": (TLATRACE % "TraceTables / TraceCoupler", "All words of all digital modules and the safety status exhaustively; counters, frequencies and lists sampled."),
 "C15": (TLATRACE % "TraceTables / TraceCoupler", "Values around steps, ties and beyond the ends of all ranges and formats; nearest, monotonic, saturating."),
 "C16": (TLATRACE % "TraceTables / TraceCoupler", "All flags and counters with sampled data; random byte strings for parsing."),
 "C17": (TLATRACE % "TraceTables", "All 2^32 identifications, all names and random respellings/misspellings."),
 "C18": ("TLA+/TLC: liveness of the design model SerialLink + generated behaviours and recorded runs of the real code checked by TraceLink", "Liveness is exhaustive on the design model under fairness; in the real code progress is judged cycle by cycle and by draining every session."),
 "C19": (TLATRACE % "TraceTables", "All 65536 bit addresses and register/bit pairs; offset tables and module lists sampled."),
 "C20": (TLATRACE % "TraceTables", "All types; process data, value lists and lengths sampled as for configured modules."),
 "C21": (TLATRACE % "TraceStation", "Random stations, parameters, placements and histories of writes, cycles and rejected cycles in a closed loop."),
 "C23": (TLATRACE % "TraceTables", "Random lists of modules (up to 64, selections, permutations), images, values and malformed lists; sampling."),
 "C24": (TLATRACE % "TraceTables and TraceCoupler", "Causes are operators of spec/Faults.tla; random faulty calls and sessions; where several causes are present any of them is accepted."),
 "C22": (GEN % "TraceSame", "Random pairs of equal histories told in different orders, with bystanders and threads; sampling."),
}
notes["C25"] = ("TLA+/TLC: exhaustive design models (invariant Kept of SerialLink and MCCoupler) + very long recorded runs of the real code with its live memory, checked by TraceEndless", "Memory is measured by a counting allocator in the harness; the bound is a generous multiple of the data the specification keeps; sampling of configurations and workloads.")
CODEC = "TLA+/TLC: design model of the codec (MCCodec, all raw words) + recorded evaluations of the real code checked by %s"
CONF = "TLA+/TLC: exhaustive design model of configurations (MCConfig)%s + recorded runs of the real code checked by %s"
TOUR = " and of every transition of the exhaustive model (GenTour)"
LIST = " and of every small configuration (GenConfig)"
for p in ("C05", "C06", "C07", "C09"):
    t = notes[p][0]
    notes[p] = (t.replace("behaviours replayed", "behaviours" + TOUR + " replayed"), notes[p][1])
notes["C08"] = (notes["C08"][0].replace("behaviours replayed", "behaviours" + LIST + " replayed"), notes["C08"][1])
notes["C10"] = (notes["C10"][0].replace("behaviours replayed", "behaviours" + TOUR + LIST + " replayed"), notes["C10"][1])
notes["C11"] = (CONF % (", each performed in the real code (GenConfig)", "TraceCoupler / TraceTables"), notes["C11"][1])
notes["C24"] = (CONF % (", each performed in the real code (GenConfig), every transition of MCCoupler performed (GenTour)", "TraceTables and TraceCoupler"), notes["C24"][1])
for p in ("C19", "C23"):
    notes[p] = (CONF % ("", "TraceTables"), notes[p][1])
for p in ("C13", "C14", "C15", "C16"):
    notes[p] = (CODEC % "TraceTables / TraceCoupler", notes[p][1])
m = dict(version=1, setup_cmd="python3 check.py build",
  checks=[dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough",
               evidence_file=f"evidence/{p}.json", technique=t, level="model_checking", level_note=n)
          for p, (t, n) in sorted(notes.items())],
  not_applicable=[],
  notes="TLA+ with TLC. Specification in spec/, harness (path dependency on /repo, no hooks) in harness/, jobs per property in jobs.py. No guarded hooks in /repo.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
