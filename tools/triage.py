"""Run many seeds, minimise failures, group them by class. usage: triage.py SIM PROP FROM TO [maxclasses]"""
import sys, os, collections, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim"))
import cppdrv as d
sim, prop, lo, hi = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
maxc = int(sys.argv[5]) if len(sys.argv) > 5 else 6
W = 8
found = collections.defaultdict(list)
def work(k):
    s = lo + k * (hi - lo) // W
    e = lo + (k + 1) * (hi - lo) // W
    n = 0
    out = []
    while s < e:
        r = d.run_range(sim, prop, s, e, 100, f"/tmp/simout/tri_{prop}_{k}")
        if not r["fail"]:
            n += r["stats"].get("runs", 0)
            break
        out.append((r["fail"], r["seed"], r["prog"]))
        s = (r["seed"] if r["seed"] is not None else s) + 1
        if len(out) > 60: break
    return out, s - lo
with cf.ThreadPoolExecutor(W) as ex:
    res = list(ex.map(work, range(W)))
for o, n in res:
    for f, seed, prog in o:
        found[f[0]].append((len(prog), seed, prog, f[1]))
print(prop, "failures", sum(map(len, found.values())), "classes", len(found))
for cls, v in sorted(found.items(), key=lambda kv: -len(kv[1]))[:maxc]:
    v.sort(key=lambda t: t[0])
    n, seed, prog, msg = v[0]
    p = d.minimise(sim, prop, prog, cls)
    c, h, _ = d.execute(sim, prop, p)
    print(f"--- x{len(v)} seed {seed} [{cls}]\n    {c[1][:500] if c else 'NOT REPRODUCED ' + msg}")
    for l in p: print("      ", l)
