"""Checks decided by the Python-level simulator (P08 to P15, P17)."""
import os
import subprocess
import time

import cppcheck_engine as base
import cppdrv

# seeds per tier, and a cap in seconds in case the machine is slow
QUICK = {"P08": 18000, "P09": 44000, "P10": 32000, "P11": 40000, "P12": 56000, "P13": 36000, "P14": 50000, "P15": 8000, "P17": 40000}
CAP = {"quick": 130, "thorough": 3000}
CHUNK = {"P15": 100}

RULE = {
    "P08": "every file written is loaded again and compared, symbol by symbol and state by state, with a reference model written in numpy, and so is the file the loaded model is saved to",
    "P09": "after a save that met a fault: either an error, an unlocked and unchanged model and a repeatable save, or a file that loads as the reference says; a damaged file is refused or loads as exactly what was saved, and a refused load of states changes nothing",
    "P10": "states saved from one model and loaded into another are the reference's states where the two are equal, and refused, with nothing changed, where they do not fit",
    "P11": "how often, when and with what outcome a pending computation is retrieved, against a reference in which it happens exactly once, before the first use",
    "P12": "every value read in every state equals the reference's value for the decisions set in that state, and availability follows the lock",
    "P13": "which symbols a removal takes, and how many it reports, against reachability in the reference model, and everything about the survivors",
    "P14": "the order, operands, users, decisions, objective and constraints a model lists against the reference after every step, on two models at once, with refused operations across models and on locked models",
    "P15": "every file a client wrote equals the reference's model at the moment it wrote, the model was locked at each of its writes and unlocked once all were done, and every value another client read is the reference's",
    "P17": "iterators, constants' memory, arrays read from states, symbols and states handles are used after the user let go of everything else, after building, removing, locking and loading: right values, symbols of the model, or an error, under AddressSanitizer",
}
FAULTS = ("file_eio", "file_enospc", "file_short", "file_few", "file_enoent", "clock_jumps", "failed_saves", "damage_cut", "damage_zero", "damage_flip", "damage_head", "damage_tail",
          "refused_loads", "hook_failures", "refused_sets", "cross_model", "dropped", "switches", "failed_allocations")
WORK = ("steps", "symbols", "sets", "reads", "saves", "loads", "state_loads", "futures", "hooks", "removed", "structure_checks", "points", "client_ops", "stopped", "iterator_steps", "view_checks", "models_dropped")


def build(out):
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(["make", "-j", str(os.cpu_count() or 8), "-C", os.path.join(cppdrv.HERE, "py"), f"OUT={out}", f"{out}/psim"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode:
        raise RuntimeError("build of the simulator failed:\n" + r.stdout[-4000:])
    return os.path.join(out, "psim")


def check(prop, tier, seed, work, known):
    t0 = time.time()
    sim = build(os.path.join(work, "out"))
    build_s = time.time() - t0
    chunk = CHUNK.get(prop, 500)
    n = QUICK[prop] if tier == "quick" else QUICK[prop] * 40
    x = base.explore(sim, prop, tier, seed, work, budget={tier: (n, CAP[tier])}, chunk=chunk)
    for r in x["fails"]:
        if r["fail"][0].startswith("crash: exit 9"):
            raise RuntimeError("the harness failed:\n" + r["out"][-3000:])
    again = cppdrv.run_range(sim, prop, x["base"], x["base"] + chunk, 0, os.path.join(work, "again"))
    same = x["fails"] or (again["agg"], again["stats"].get("runs")) == x["aggs"].get(x["base"])
    violations, printed = base.judge(sim, prop, seed, x, work, known, 400)
    tot = x["total"]
    cov = dict(evaluations=tot.get("runs", 0), distinct_nontrivial=len(x["runsigs"]), states_reached=len(x["sigs"]),
               rule="one seeded run = one or two generated models and a history of operations and faults; oracle: " + RULE[prop]
                    + ". Non-trivial: states or symbols were changed. Distinct: by the set of (operation, outcome, lock count, states, set values, model size, pending) signatures the run reached"
                    + (" and its sequence of (client, place of preemption)" if prop == "P15" else "") + ". states_reached: distinct signatures over all runs.",
               samples=[cppdrv.sample(sim, prop, x["base"])], simulated_steps=tot.get("steps", 0), build_s=round(build_s, 1), same_history_on_rerun=bool(same),
               faults={k: tot.get(k, 0) for k in FAULTS if tot.get(k)}, work={k: tot.get(k, 0) for k in WORK if tot.get(k)},
               real="the Cython and Python layers (model, states, symbols, mathematical) and the C++ engine below them, compiled from the working tree with AddressSanitizer; CPython's zipfile and json, numpy",
               stub="files (an in-memory file with a fault plan), the temporary file of to_file, the clock zipfile stamps entries with, futures and their hooks"
                    + (", the order in which client threads run (one baton, handed over at file operations and Python lines by a seeded plan)" if prop == "P15" else ""))
    return dict(coverage=cov, violations=violations, known=printed, run_s=x["run_s"],
                assumptions=["sampled, not exhaustive", "the only clock is the one files are stamped with; simulated time is counted in steps"]
                + (["clients are switched where CPython could switch them: not inside one C call"] if prop == "P15" else []))


def replay(rep, work):
    sim = build(os.path.join(work, "out"))
    if rep.get("seeds"):
        return cppdrv.run_range(sim, rep["property"], rep["seeds"][0], rep["seeds"][1], 0, os.path.join(work, "log"))["fail"]
    return cppdrv.execute(sim, rep["property"], rep["program"])[0]
