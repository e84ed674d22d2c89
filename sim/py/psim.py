"""The Python simulator.

  psim.py run PROPERTY FROM TO SECS LOG    runs seeds; stops at the first violation
  psim.py gen PROPERTY SEED                prints the program of a seed
  psim.py exec PROPERTY FILE               runs a program file"""
import faulthandler
import gc
import hashlib
import json
import os
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True
import numpy as np                                        # noqa: E402

np.seterr(all="ignore")
import gen                                                # noqa: E402
import world                                              # noqa: E402


def one(prop, prog, stats):
    """-> (violation or None, hash, signatures, nontrivial)"""
    signal.alarm(60)
    w = world.World(prop, stats)
    msg = None
    try:
        w.run(prog)
    except world.Violation as e:
        msg = str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        lib = [f for f in tb if "dwave/optimization" in f.filename or f.filename.endswith((".pyx", ".pxd", ".pxi"))]
        if not lib or "/sim/py/" in tb[-1].filename:
            raise                                # the harness itself is at fault
        msg = f"unexpected {type(e).__name__} in {lib[-1].name}: {str(e)[:160]}"
    signal.alarm(0)
    if w.trace:
        w.sigs.add(int(w.trace[:12], 16))
    return msg, w.h.hexdigest(), w.sigs, w.mut > 0


def main():
    # a run must not depend on when the collector happens to run
    gc.disable()
    cmd, prop = sys.argv[1:3]
    if cmd == "gen":
        for line in gen.G(prop, int(sys.argv[3])).program():
            print(json.dumps(line, separators=(",", ":")))
        return 0
    if cmd == "exec":
        prog = [json.loads(x) for x in open(sys.argv[3]) if x.strip()]
        try:
            msg, h, _, _ = one(prop, prog, {})
        except Exception:
            traceback.print_exc()
            return 9
        print("HASH", h)
        if msg:
            print("FAIL 0", msg.replace("\n", " "))
            return 1
        return 0
    lo, hi, secs, log = int(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5]), sys.argv[6]
    t0, stats, agg, allsig, runsig, s = time.time(), {}, hashlib.blake2b(digest_size=8), set(), set(), lo
    rc = 0
    for s in range(lo, hi):
        if secs and time.time() - t0 > secs:
            break
        prog = gen.G(prop, s).program()
        with open(log, "wb") as f:
            f.write(f"seed {s}\n".encode() + "\n".join(json.dumps(x, separators=(",", ":")) for x in prog).encode() + b"\0")
        prog = json.loads(json.dumps(prog))
        msg, h, sigs, nontrivial = one(prop, prog, stats)
        agg.update(h.encode())
        stats["runs"] = stats.get("runs", 0) + 1
        allsig |= sigs
        if nontrivial:
            runsig.add(hashlib.blake2b(repr(sorted(sigs)).encode(), digest_size=6).hexdigest())
        if s % 8 == 0:
            gc.collect()
        if msg:
            print("FAIL", s, msg.replace("\n", " "))
            rc = 1
            break
    print("STATS", json.dumps(stats))
    print("SIG", *(f"{x:x}" for x in sorted(allsig)))
    print("RUNSIG", *sorted(runsig))
    print("AGG", agg.hexdigest())
    return rc


if __name__ == "__main__":
    faulthandler.disable()
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 9
    sys.stdout.flush()
    os._exit(rc)
