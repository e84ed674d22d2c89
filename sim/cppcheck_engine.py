"""Checks decided by the C++ simulators (P01 to P07, P16)."""
import concurrent.futures as cf
import os
import threading
import time

import cppdrv

# seeds per tier, and a cap in seconds in case the machine is slow
BUDGET = {"quick": (100000, 150), "thorough": (6000000, 3000)}
CHUNK = 1000
BUDGET_P04 = {"quick": (16000, 110), "thorough": (1200000, 3000)}
CHUNK_P04 = 200

RULE = {
    "P01": "every node of every generated model recomputed from the values its operands actually hold, after every initialisation, proposal, verdict and reinitialisation",
    "P02": "bitwise snapshot of every node before a proposal compared after it was refused, reverted, threw or was abandoned, and against a twin state that never saw it",
    "P03": "the published updates of every node replayed on its previous contents give its current contents, in order, with valid indices and old values",
    "P04": "everything each client saw (values, shapes, changes, sizes, bounds, objective, feasibility, exceptions) compared with the same client running alone on a freshly built model",
    "P05": "every decision's contents are legal after every default move, accepted or refused mutation and initialisation, and a twin fed the same random stream moves identically",
    "P06": "every value, size and shape observed lies inside the bounds the node reported before and after locking",
    "P07": "every refused construction, initialisation and injected allocation failure leaves the model's structure and values as before and the same request can be retried",
    "P16": "a state copied at a seeded moment equals the original bit for bit, stays so while the other one goes on, and then gives the same values, shapes and changes for the same operations and verdicts",
}
FAULTS = ("rejected", "verdict_threw", "partial_propagation", "abandoned", "reinits", "refused_builds", "refused_inits", "refused_moves", "alloc_failures", "adversarial_streams")
FAULTS_P04 = ("switches", "stalls", "contended_locks", "client_faults")


def seeds_from(seed):
    return seed * 100_000_000


def confirm(sim, prop, fail, seed, prog, lo, log, sp=("exec", "run")):
    """Same violation again in two fresh processes, from the program, else from the seed, else from
    the history of seeds that led to it."""
    if prog:
        a, b = (cppdrv.execute(sim, prop, prog) for _ in range(2))
        if a[0] and b[0] and a[0][0] == b[0][0] and a[1] == b[1]:
            return "program", a[0]
    for start in (seed, lo):
        r = [cppdrv.run_range(sim, prop, start, seed + 1, 0, log) for _ in range(2)]
        if all(x["fail"] for x in r) and r[0]["fail"][0] == r[1]["fail"][0]:
            return ("seeds", start, seed + 1), r[0]["fail"]
    return None, None


def explore(sim, prop, tier, seed, work, cmd="run", budget=None, chunk=CHUNK):
    """Runs the seeds of a tier in chunks on every core; stops at the first failing run."""
    n, cap = (budget or BUDGET)[tier]
    base = seeds_from(seed)
    stop = threading.Event()
    t0 = time.time()
    total, sigs, runsigs, fails, aggs = {}, set(), set(), [], {}
    lock = threading.Lock()

    def job(lo):
        if stop.is_set():
            return
        left = cap - (time.time() - t0)
        if left <= 0:
            return
        r = cppdrv.run_range(sim, prop, lo, lo + chunk, max(left, 1), os.path.join(work, f"log{lo}"), cmd)
        with lock:
            for k, v in r["stats"].items():
                if k != "next":
                    total[k] = total.get(k, 0) + v
            sigs.update(r["sig"])
            runsigs.update(r["runsig"])
            aggs[lo] = (r["agg"], r["stats"].get("runs"))
            if r["fail"]:
                r["lo"], r["hi"] = lo, lo + chunk
                fails.append(r)
                stop.set()
        try:
            os.unlink(os.path.join(work, f"log{lo}"))
        except OSError:
            pass

    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        list(ex.map(job, range(base, base + n, chunk)))
    return dict(total=total, sigs=sigs, runsigs=runsigs, fails=sorted(fails, key=lambda r: (r["seed"] is None, r["seed"])), aggs=aggs, run_s=time.time() - t0, base=base)


def judge(sim, prop, seed, x, work, known, budget):
    """-> (violations, known findings met).  Nothing is reported that does not reproduce."""
    violations, printed, unconfirmed = [], [], 0
    for r in x["fails"]:
        cls, msg = r["fail"]
        if r["fail"][0] == "hang" and not cppdrv.run_range(sim, prop, r["lo"], r["hi"], 0, os.path.join(work, "rerun"))["fail"]:
            continue            # the same seeds end: the machine stood still, not the code
        how, hit = confirm(sim, prop, r["fail"], r["seed"] if r["seed"] is not None else r["lo"], r["prog"], r["lo"], os.path.join(work, "confirm"))
        if not how:
            unconfirmed += 1
            continue
        v = {"property": prop, "seed": r["seed"], "class": hit[0], "message": hit[1], "verif_seed": seed}
        if how == "program":
            v["program"] = cppdrv.minimise(sim, prop, r["prog"], hit[0], budget, secs=90 if hit[0] == "hang" else 200)
            again2 = cppdrv.execute(sim, prop, v["program"])[0]
            v["message"] = again2[1] if again2 else hit[1]
        else:
            v["seeds"] = [how[1], how[2]]
            v["program"] = r["prog"] or []
        k = next((k for k in known if k["class"] == v["class"]), None)
        if k:
            printed.append(k["what"])
            continue
        violations.append(v)
        break
    if unconfirmed and not violations:
        raise RuntimeError(f"{unconfirmed} failing runs did not reproduce: {x['fails'][0]['fail']}")
    return violations, printed


def check(prop, tier, seed, work, known):
    t0 = time.time()
    conc = prop == "P04"
    chunk = CHUNK_P04 if conc else CHUNK
    sim = cppdrv.build(os.path.join(work, "out"), "fib" if conc else "sim")
    build_s = time.time() - t0
    x = explore(sim, prop, tier, seed, work, budget=BUDGET_P04 if conc else BUDGET, chunk=chunk)
    # the same seeds once more, in another process: they must give the same history
    again = cppdrv.run_range(sim, prop, x["base"], x["base"] + chunk, 0, os.path.join(work, "again"))
    same = x["fails"] or (again["agg"], again["stats"].get("runs")) == x["aggs"].get(x["base"])
    violations, printed = judge(sim, prop, seed, x, work, known, 1200 if conc else 400)
    sample = cppdrv.sample(sim, prop, x["base"])
    tot = x["total"]
    if conc:
        cov = dict(evaluations=tot.get("runs", 0), distinct_nontrivial=len(x["runsigs"]), preemption_pairs_reached=len(x["sigs"]),
                   rule="one seeded run = one generated model and two to four clients with their own states, interleaved at basic-block granularity; oracle: " + RULE[prop]
                        + ". Non-trivial: decisions were changed and clients were preempted. Distinct: by the sequence of (client, place of preemption). preemption_pairs_reached: distinct pairs of places (where one client was interrupted, where another went on), capped per process.",
                   samples=[sample], simulated_steps=tot.get("preemption_points", 0), build_s=round(build_s, 1), same_history_on_rerun=bool(same),
                   faults={k: tot.get(k, 0) for k in FAULTS_P04},
                   work={k: tot.get(k, 0) for k in ("clients", "mutations", "verdicts", "observations")},
                   real="the whole C++ engine (graph, nodes, states), its mutexes and static initialisation, on real threads, compiled from the working tree with AddressSanitizer and a hook at every basic block",
                   stub="the thread scheduler (one baton, handed over by a seeded PRNG), blocking inside mutexes and one-time initialisation, the random stream, operator new")
        return dict(coverage=cov, violations=violations, known=printed, run_s=x["run_s"],
                    assumptions=["sampled, not exhaustive", "interleavings are sequentially consistent, at basic-block granularity: effects of weak memory and of compiler reordering within a block are not simulated",
                                 "there is no clock in the engine: simulated time is counted in preemption points"])
    cov = dict(evaluations=tot.get("runs", 0), distinct_nontrivial=len(x["runsigs"]), states_reached=len(x["sigs"]),
               rule="one seeded run = one generated model, its states and a history of moves, verdicts and faults; oracle: " + RULE[prop]
                    + ". Non-trivial: at least one decision changed and one proposal got a verdict. Distinct: by the set of state signatures the run reached. states_reached: distinct signatures over all runs.",
               samples=[sample], simulated_steps=tot.get("lines", 0), build_s=round(build_s, 1), same_history_on_rerun=bool(same),
               faults={k: tot.get(k, 0) for k in FAULTS},
               work={k: tot.get(k, 0) for k in ("nodes", "mutations", "default_moves", "accepted", "fresh_states", "node_checks", "diff_checks", "bound_checks", "twin_checks") + (("copies", "copy_steps") if prop == "P16" else ())},
               real="the whole C++ engine (graph, nodes, states), compiled from the working tree with AddressSanitizer",
               stub="the solver that proposes moves and gives verdicts, the random stream behind default moves, operator new")
    return dict(coverage=cov, violations=violations, known=printed, run_s=x["run_s"],
                assumptions=["sampled, not exhaustive", "there is no clock in the engine: simulated time is counted in steps"])


def replay(rep, work):
    sim = cppdrv.build(os.path.join(work, "out"), "fib" if rep["property"] == "P04" else "sim")
    if rep.get("seeds"):
        return cppdrv.run_range(sim, rep["property"], rep["seeds"][0], rep["seeds"][1], 0, os.path.join(work, "log"))["fail"]
    return cppdrv.execute(sim, rep["property"], rep["program"])[0]
