#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, pathlib, sys
T = "deterministic simulation with fault injection"
CPP = "Seeded search over generated models and histories of the real C++ engine under AddressSanitizer, in one process per batch; "
PY = "Seeded search over generated models and histories of the real Python, Cython and C++ layers under AddressSanitizer, in one process per batch; "
CLAIM = {
 "P01": (T + "; seeded move/verdict/fault histories against a local reference evaluation",
         CPP + "every node compared with an independent evaluation after every step. Sampled, not exhaustive; values are kept in ranges where double arithmetic is exact except for division, square roots and their users, which are compared within 1e-9."),
 "P02": (T + "; refused, thrown, partial and abandoned proposals against snapshots and a twin state",
         CPP + "bitwise snapshots and a twin state that never saw the rejected proposals. Sampled."),
 "P03": (T + "; change lists of every node replayed at every step of seeded histories",
         CPP + "the change list of every node replayed on its previous contents. Sampled."),
 "P04": (T + "; real threads under a seeded one-baton scheduler with a preemption point at every basic block of the engine, against each client running alone",
         "Seeded search over generated models, clients and schedules, under AddressSanitizer. Mutexes and one-time initialisation are simulated at link time. Interleavings are sequentially consistent at basic-block granularity; weak-memory effects are out of reach. Sampled."),
 "P05": (T + "; simulated random streams (including adversarial ones) and move histories against legality models",
         CPP + "the random stream is a simulator seam, including constant and extreme streams; decisions are checked against small models and a twin. Sampled."),
 "P06": (T + "; reported facts checked in every state visited by seeded histories",
         CPP + "the facts every node reports are compared with every value, shape and size seen. Sampled."),
 "P07": (T + "; refused constructions and initialisations and injected allocation failures",
         CPP + "refused operations and allocation failures are injected, then structure, values and continued use are checked. Allocation failures only during state initialisation. Sampled."),
 "P08": (T + "; seeded models, states and histories saved, loaded and saved again through simulated files, against a numpy reference model",
         PY + "every symbol's kind, operands, shape, bounds and value in every state of the loaded model is compared with the reference. Sampled."),
 "P09": (T + "; write errors, full disks, torn writes, clock jumps, truncation, lost blocks and bit flips injected into saves and loads",
         PY + "files are an in-memory device with a fault plan; directory-entry names are not damaged, because nothing in the format could tell. Sampled."),
 "P10": (T + "; states carried by simulated files between models that are equal or differ in one decision",
         PY + "pairs of models, locked or not, exchange states through files. States whose values fit but whose decisions are declared differently may be accepted or refused. Sampled."),
 "P11": (T + "; pending computations that deliver, fail or nest other operations, injected before every kind of state access",
         PY + "the future and its hook are simulator seams; the reference delivers once, before the first use. One thread. Sampled."),
 "P12": (T + "; seeded histories of locking, building, setting, reading, resizing, removing and saving, against a numpy reference model",
         PY + "every value read is compared with the reference's value for the decisions set in that state. Sampled."),
 "P13": (T + "; seeded drops of references and removals, against reachability in a reference model",
         PY + "references are dropped at chosen points under a disabled collector, so that one seed is one history. Sampled."),
 "P14": (T + "; seeded build histories of two models with refused operations, against a reference model",
         PY + "order, operands, users and decisions are compared after every step. Sampled."),
 "P15": (T + "; client threads under a seeded one-baton scheduler with a preemption point at every file operation and Python line, with file faults",
         PY + "interleavings are those CPython can produce at file operations and Python lines; one call into the engine is atomic. Sampled."),
 "P16": (T + "; states copied at seeded moments of seeded histories, either side going on, against a recorded and replayed continuation",
         CPP + "the side that is kept is compared bit for bit while the other goes on, then given the same operations. Sampled."),
 "P17": (T + "; seeded histories of iterating, exporting, building, removing and letting go, under AddressSanitizer, against a reference model",
         PY + "what the user still holds is used after everything around it was changed or released. Sampled; memory held by numpy's own small-array cache is out of AddressSanitizer's sight."),
}
NA = {
 "N01": "pure functions of their arguments: no schedule, clock, fault, I/O or history for a simulator to own",
 "N02": "pure functions of two symbols: no schedule, clock, fault, I/O or history for a simulator to own",
}
m = dict(version=1, setup_cmd="true",
         hooks=dict(guard="none (no hooks were needed: the seams are the engine's own state, random-stream and file-object interfaces, link-time wrapping and coverage callbacks)", enable="nothing to enable", source_commits=[]),
         checks=[dict(property=p, quick_cmd=f"python3 sim/check.py {p} quick", thorough_cmd=f"python3 sim/check.py {p} thorough",
                      evidence_file=f"evidence/{p}.json", technique=t, level="exploration", level_note=n) for p, (t, n) in sorted(CLAIM.items())],
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())])
out = pathlib.Path(__file__).resolve().parent.parent / "MANIFEST.json"
out.write_text(json.dumps(m, indent=1) + "\n")
