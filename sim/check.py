#!/usr/bin/env python3
"""Entry point of every registered check.

  check.py PROPERTY            one check; tier and seed from VERIF_TIER and VERIF_SEED
  check.py --replay FILE       replays a violation in a fresh process

Exit 0: held on everything explored.  Exit 1: violation, with a VIOLATION line and a replay file.
Anything else is an error of the check itself."""
import faulthandler
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

CPP = ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P16")
PY = ("P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P17")


def engine(prop):
    if prop in CPP:
        import cppcheck_engine as e
    elif prop in PY:
        import py_engine as e
    else:
        raise SystemExit(f"unknown property {prop}")
    return e


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                k = json.loads(line[7:])
                if k["property"] == prop:
                    out.append(k)
    return out


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1)
        f.write("\n")
    os.replace(tmp, path)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            rep = json.load(f)
        work = tempfile.mkdtemp(prefix="dwosim-")
        try:
            hit = engine(rep["property"]).replay(rep, work)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if hit:
            print("reproduced:", hit[1])
            print(f"VIOLATION property={rep['property']} replay={sys.argv[2]}")
            return 1
        print("not reproduced")
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    print(f"property {prop} tier {tier} VERIF_SEED {seed}", flush=True)
    if tier == "quick":
        faulthandler.dump_traceback_later(780, exit=True)      # never expected; says where it stands
    work = tempfile.mkdtemp(prefix="dwosim-")
    try:
        res = engine(prop).check(prop, tier, seed, work, known_findings(prop))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    runs = res["coverage"].get("evaluations", 0)
    res["coverage"]["runs_per_hour"] = int(runs / max(res.pop("run_s", wall), 1e-3) * 3600)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=res["coverage"],
              assumptions=res.get("assumptions", []), wall_s=round(wall, 2), violations=len(res["violations"]))
    rc = 0
    for k in res.get("known", []):
        print(f"KNOWN-FINDING: property={prop} {k}")
    for i, v in enumerate(res["violations"]):
        path = os.path.join(ROOT, "replays", f"{prop}-{v['seed']}.json")
        write_json(path, v)
        print(f"  class: {v['class']}\n  {v['message']}")
        for line in v.get("program", [])[:60]:
            print("    " + (line if isinstance(line, str) else json.dumps(line))[:200])
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    write_json(os.path.join(ROOT, "evidence", f"{prop}.json"), ev)
    if rc == 0:
        print(f"ok: {runs} runs in {wall:.0f} s")
    return rc


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
