"""Seeded programs: a model, its states, and a history of operations and faults."""
import random

import numpy as np

from spec import BIN, Bad, Spec
from world import illegal_values, random_value


class G:
    def __init__(self, prop, seed):
        self.r = random.Random(f"{prop}/{seed}")
        self.prop = prop
        self.prog = []
        self.sp = {}
        self.next = {}
        self.held = {}
        self.lock = {}
        self.ns = {}
        # now and then: a model with large decisions, many sets or lists, many states
        self.big = random.Random(f"big/{prop}/{seed}").random() < .06
        # now and then: memory runs out
        self.oom = prop in ("P12", "P13", "P14", "P17") and random.Random(f"oom/{prop}/{seed}").random() < .2

    def ch(self, p):
        return self.r.random() * 100 < p

    def emit(self, *line):
        self.prog.append(list(line))

    def model(self, m):
        if m not in self.sp:
            self.sp[m], self.next[m], self.held[m], self.lock[m], self.ns[m] = Spec(), 0, set(), 0, 0
        return self.sp[m]

    # -- symbols ------------------------------------------------------------------------------------
    def shape(self, maxdim=3):
        k = self.r.choice([0, 0, 1, 1, 1, 2, 2, 3][:6 if maxdim < 3 else 8])
        return [self.r.choice([1, 2, 2, 3, 3, 4] if not self.ch(3) else [0]) for _ in range(k)]

    def decision(self, m):
        r = self.r
        k = r.choice(["binary", "binary", "integer", "integer", "integer", "list", "set", "set", "dbits", "dlists"])
        if self.big and self.ch(30):
            n = r.choice([12, 40, 127, 128, 129, 200, 256, 257, 300])
            if k in ("binary", "integer"):
                shape = r.choice([[n], [n, 1], [2, n], [12, 11]])
                return (k, [], [shape]) if k == "binary" else (k, [], [shape, *r.choice([(0, 1000), (-200, 300), (-70000, 70000), (0, 2000000000), (-2000000000, 2000000000), (None, None)])])
            if k == "list":
                return k, [], [n]
            if k == "set":
                a = r.randint(0, n) if self.ch(50) else 0
                return k, [], [n, a, r.randint(a, n) if self.ch(50) else n]
            return k, [], [n, r.choice([1, 2, 3, 11, 12, 13])]
        if k == "binary":
            return k, [], [self.shape()]
        if k == "integer":
            lo = r.choice([None, 0, 0, 1, -3, -5, 2, -4])
            hi = r.choice([None, 3, 5, 7, 20]) if lo is None or lo >= 0 or self.ch(70) else r.choice([-1, -2, 0, 4])
            if lo is not None and hi is not None and hi < lo:
                hi = lo + r.randint(0, 5)
            return k, [], [self.shape(), lo, hi]
        if k == "list":
            return k, [], [r.choice([0, 1, 2, 3, 3, 4, 4, 5])]
        if k == "set":
            n = r.choice([0, 1, 2, 3, 4, 5, 6])
            a = r.randint(0, n) if self.ch(50) else 0
            b = r.randint(a, n) if self.ch(50) else n
            return k, [], [n, a, b]
        return k, [], [r.choice([0, 1, 3, 4, 5]), r.choice([1, 2, 2, 3])]

    def const(self, shape=None):
        r = self.r
        shape = self.shape() if shape is None else shape
        n = int(np.prod(shape))
        t = r.choice(["int", "int", "pos", "frac", "bool", "idx"]) if not self.ch(4) else "any"
        v = {"int": lambda: r.randint(-4, 6), "pos": lambda: r.randint(1, 5), "frac": lambda: r.randint(-12, 12) / 4, "bool": lambda: r.randint(0, 1), "idx": lambda: r.randint(0, 2), "any": lambda: r.choice([1, 3, 7, 100]) / r.choice([3, 7, 10, -11])}[t]
        return "const", [], [shape, [v() for _ in range(n)]]

    def slice(self, d):
        r = self.r
        if d < 0:
            return r.choice([[None, None, None], [1, None, None], [None, 2, None], [0, None, 2], [None, -1, None], [1, 3, None]])
        t = r.random()
        if t < .3 and d > 0:
            return r.randint(-d, d - 1)
        if t < .5:
            return [None, None, None]
        lo = r.choice([None, *range(-d, d + 1)])
        hi = r.choice([None, *range(-d, d + 2)])
        return [lo, hi, r.choice([None, None, 1, 2, 3] if self.ch(85) else [-1])]

    def derived(self, m):
        r, sp = self.r, self.sp[m]
        arr = [s for s in sp.syms.values() if s.array and s.id in self.held[m]]
        if not arr:
            return self.decision(m)
        recent = arr[-6:]
        p = lambda: r.choice(recent if self.ch(60) else arr)
        a = p()
        k = r.choice(["un", "un", "bin", "bin", "bin", "bin", "nary", "nary", "red", "red", "red", "psum", "bidx", "bidx", "bidx", "aidx", "aidx", "perm", "reshape", "size", "concat", "where", "qm"])
        same = [x for x in arr if x.shape == a.shape]
        if k == "un":
            return k, [a.id], [r.choice(["abs", "neg", "sq", "sqrt", "logical", "not"])]
        if k == "bin":
            b = r.choice([x for x in arr if x.shape == a.shape or x.scalar or a.scalar])
            x, y = (a, b) if self.ch(60) else (b, a)
            return k, [x.id, y.id], [r.choice(list(BIN))]
        if k == "nary":
            n = r.randint(1, 4)
            if self.ch(6):
                return k, [a.id] * r.randint(3, 4), ["mul"]
            return k, [r.choice(same).id for _ in range(n)], [r.choice(["add", "add", "mul", "mul", "max", "min"])]
        if k == "red":
            return k, [a.id], [r.choice(["sum", "sum", "prod", "all", "any", "max", "min"])]
        if k == "psum":
            big = [x for x in arr if len(x.shape) >= 2 and not x.dynamic] or [a]
            a = r.choice(big)
            return k, [a.id], [r.randrange(max(len(a.shape), 1))]
        if k == "bidx":
            big = [x for x in arr if x.shape] or [a]
            a = r.choice(big)
            return k, [a.id], [[self.slice(d) for d in a.shape]]
        if k == "aidx":
            idx = [x for x in arr if x.integral and x.fb is not None and x.lo >= 0 and x.hi < 12]
            base = [x for x in arr if x.shape and not x.dynamic]
            if not idx or not base:
                return self.const()
            for _ in range(8):
                a, i = r.choice(base), r.choice(idx)
                plan, args = [], [a.id]
                for d in a.shape:
                    if i.hi < d and self.ch(60):
                        j = i
                        if self.ch(30) and not i.dynamic:
                            j = r.choice([x for x in idx if x.shape == i.shape and x.hi < d])
                        args.append(j.id)
                        plan.append(len(args) - 2)
                    else:
                        plan.append(":")
                if len(args) > 1:
                    mixed = [self.slice(d) if x == ":" else f"i{x}" for x, d in zip(plan, a.shape)]
                    if self.ch(40) and any(not isinstance(x, str) and x != [None, None, None] for x in mixed):
                        return "mixed", args, mixed
                    return k, args, [plan]
            return self.const([r.choice([4, 5, 6, 12])] + ([3] if self.ch(30) else []))
        if k == "perm":
            ls = [x for x in arr if x.kind == "list" and x.par[0] > 0]
            if not ls:
                return self.const()
            x = r.choice(ls)
            cs = [c for c in arr if c.kind == "const" and c.shape == (x.par[0], x.par[0])]
            return (k, [r.choice(cs).id, x.id], []) if cs else self.const([x.par[0], x.par[0]])
        if k == "reshape":
            n = a.size()
            if n < 0:
                return "size", [a.id], []
            opts = [[n]] + [[d, n // d] for d in range(1, n + 1) if n % d == 0] if n else [[0], [0, 2]]
            if n == 1:
                opts.append([])
            return k, [a.id], [r.choice(opts)]
        if k == "size":
            dyn = [x for x in arr if x.dynamic]
            return (k, [r.choice(dyn).id], []) if dyn else ("red", [a.id], ["sum"])
        if k == "concat":
            st = [x for x in arr if x.shape and not x.dynamic] or [a]
            a = r.choice(st)
            ax = r.randrange(max(len(a.shape), 1))
            c = [x for x in st if len(x.shape) == len(a.shape) and x.shape[:ax] + x.shape[ax + 1:] == a.shape[:ax] + a.shape[ax + 1:]] or [a]
            return k, [a.id] + [r.choice(c).id for _ in range(r.randint(1, 2))], [ax]
        if k == "where":
            c = [x for x in arr if x.logical and (x.scalar or x.shape == a.shape)]
            y = r.choice(same)
            return (k, [r.choice(c).id, a.id, y.id], []) if c else ("un", [a.id], ["logical"])
        v = [x for x in arr if len(x.shape) == 1 and x.shape[0] > 0]
        if not v:
            return "un", [a.id], ["neg"]
        x = r.choice(v)
        n = x.shape[0]
        q = [[r.randrange(n), r.randrange(n), r.randint(-6, 6) / 2] for _ in range(r.randint(1, 5))]
        lin = [[j, r.randint(-4, 4)] for j in range(n) if self.ch(40)]
        return "qm", [x.id], [q, lin]

    def add(self, m, what):
        sp = self.model(m)
        kind, args, par = what
        if kind == "mixed":
            return self.mixed(m, args, par)
        id = self.next[m]
        self.next[m] += 1 + (par[1] if kind in ("dbits", "dlists") else 0)
        try:
            s = sp.make(id, kind, args, par)
        except Bad:
            return None
        self.emit("N", m, id, kind, args, par)
        if self.lock[m]:
            return None
        sp.syms[id] = s
        self.held[m].add(id)
        if kind in ("dbits", "dlists"):
            for i in range(par[1]):
                sp.syms[id + 1 + i] = sp.make(id + 1 + i, "dbit" if kind == "dbits" else "dlist", [id], [i])
                self.held[m].add(id + 1 + i)
        return id

    def mixed(self, m, args, plan):
        sp, id = self.sp[m], self.next[m]
        self.next[m] += 2
        try:
            s = sp.make(id, "bidx", args[:1], [[[None, None, None] if isinstance(x, str) else x for x in plan]])
            sp.syms[id] = s
            try:
                t = sp.make(id + 1, "aidx", [id, *args[1:]], [[int(x[1:]) if isinstance(x, str) else ":" for x in plan if not isinstance(x, int)]])
            finally:
                del sp.syms[id]
        except Bad:
            return None
        self.emit("K", m, id, args, plan)
        if self.lock[m]:
            return None
        sp.syms[id], sp.syms[id + 1] = s, t
        self.held[m] |= {id, id + 1}
        return id + 1

    def build(self, m, n, pdec=35):
        self.model(m)
        self.add(m, self.decision(m))
        for _ in range(n):
            t = self.r.random() * 100
            self.add(m, self.decision(m) if t < pdec else self.const() if t < pdec + 15 else self.derived(m))
        self.goals(m)

    def goals(self, m):
        sp = self.sp[m]
        sc = [s.id for s in sp.syms.values() if s.array and s.scalar and s.id in self.held[m]]
        if sc and self.ch(60):
            self.obj(m, self.r.choice(sc))
        for s in list(sp.syms.values()):
            if s.array and s.scalar and s.logical and s.id in self.held[m] and self.ch(40):
                self.emit("C", m, s.id)
                sp.constraints.append(s.id)

    def obj(self, m, id):
        self.emit("O", m, id)
        self.sp[m].objective = id

    # -- states ---------------------------------------------------------------------------------------
    def index(self, m):
        n = self.ns[m]
        if self.ch(4):
            return self.r.choice([n, n + 1, -n - 1, -1])
        return self.r.randrange(n) if n else 0

    def dec(self, m):
        d = [i for i in self.sp[m].decisions() if i in self.held[m]]
        return self.r.choice(d) if d else None

    def value(self, m, d):
        if self.ch(5):
            bad = list(illegal_values(self.sp[m], d))
            if bad:
                return self.r.choice(bad)
        return random_value(self.r, self.sp[m], d)

    def set_all(self, m, pct=100):
        for i in range(self.ns[m]):
            for d in self.sp[m].decisions():
                if d in self.held[m] and self.ch(pct):
                    self.emit("SS", m, i, d, random_value(self.r, self.sp[m], d))

    def resize(self, m, n):
        if self.big and n > 1 and self.ch(30):
            n = self.r.choice([10, 11, 12, 13])
        self.emit("RS", m, n)
        if n >= 0:
            self.ns[m] = n

    def state_op(self, m):
        r = self.r
        t = r.random() * 100
        d = self.dec(m)
        ids = [i for i in self.sp[m].syms if i in self.held[m]]
        if t < 34 and d is not None:
            self.emit("SS", m, self.index(m), d, self.value(m, d))
        elif t < 42 and d is not None:
            self.emit("RE", m, self.index(m), d)
        elif t < 75 and ids:
            self.emit("RD", m, self.index(m) if self.ch(90) else -1, r.choice(ids))
        elif t < 81 and ids:
            self.emit("HS", m, self.index(m), r.choice(ids))
        elif t < 86:
            self.emit("FE", m, self.index(m))
        elif t < 91:
            self.resize(m, r.choice([0, 1, 1, 2, 2, 3, 4, -1] if self.ch(20) else [1, 2, 3]))
        elif t < 93:
            self.emit("CL", m)
            self.ns[m] = 0
        elif t < 96:
            self.emit("INIT", m)
        else:
            self.emit("SZ", m)

    def lock_op(self, m):
        if self.ch(55) if self.lock[m] == 0 else self.ch(30):
            self.emit("L", m)
            self.lock[m] += 1
        else:
            self.emit("U", m)
            self.lock[m] = max(0, self.lock[m] - 1)

    def drop(self, m):
        ids = sorted(self.held[m])
        if ids:
            i = self.r.choice(ids)
            self.emit("D", m, i)
            self.held[m].discard(i)

    def extend(self, m):
        sp = self.sp[m]
        ns = [s for s in sp.syms.values() if s.kind == "nary" and s.par[0] in ("add", "mul") and s.id in self.held[m]]
        if not ns:
            return
        s = self.r.choice(ns)
        c = [x for x in sp.syms.values() if x.array and x.shape == s.shape and x.id in self.held[m]]
        x = self.r.choice(c)
        if self.prop != "P14" and s.id in sp.ancestors(x.id):
            return
        self.emit("X", m, s.id, x.id)
        if self.lock[m] or s.id in sp.ancestors(x.id):
            return
        try:
            t = sp.extend(s.id, x.id)
        except Bad:
            return
        if not any(s.id in z.args for z in sp.syms.values()):
            sp.syms[s.id] = t

    def save(self, m, slot, plan=(), how=None):
        how = how or self.r.choice(["file", "file", "file", "path", "tofile", "st_into", "st_to", "behind"])
        only = self.ch(15)
        ns = self.r.choice([0, self.ns[m], self.ns[m], 1000, 1])
        self.emit("SV", m, slot, how, only, ns, list(plan), self.ch(85))

    def write_faults(self):
        r = self.r
        t = r.random()
        if t < .12:
            return [["clock", r.choice([[1975, 1, 1, 0, 0, 0], [2110, 1, 1, 0, 0, 0], [1970, 1, 1, 0, 0, 0], [2099, 12, 31, 23, 59, 59]])]]
        if self.prop == "P09" and t < .3:
            return [["a", r.choice([1, 2, 3, 4, 5, 6, 8, 12, 20, r.randint(1, 60)]), "alloc"]]
        op = r.choice(["w", "w", "w", "w", "*", "*", "s", "t", "f"])
        k = r.choice([1, 2, 3, 4, 5, 6, 8, r.randint(1, 30), r.randint(1, 120), r.randint(1, 300)])
        return [[op, k, r.choice(["eio", "enospc", "short"] if op == "w" else ["eio"])]]

    def damage(self):
        r = self.r
        k = r.choice(["cut", "cut", "zero", "flip", "flip", "flip", "head", "tail"])
        return [[k, r.random() if self.ch(80) else 1 - r.random() * .1, r.random()]] + ([[r.choice(["flip", "zero", "cut"]), r.random(), r.random()]] if self.ch(20) else [])

    # -- programs ---------------------------------------------------------------------------------------
    def program(self):
        getattr(self, "gen_" + self.prop)()
        return self.prog

    def history(self, m, n, weights):
        """weights: dict of operation class -> weight."""
        kinds = list(weights)
        w = [weights[k] for k in kinds]
        for _ in range(n):
            k = self.r.choices(kinds, w)[0]
            if self.oom and self.ch(6) and k in ("state", "lock"):
                self.emit("OM", m, self.r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 12, 20]))
            if k == "state":
                self.state_op(m)
            elif k == "lock":
                self.lock_op(m)
            elif k == "build":
                self.add(m, self.decision(m) if self.ch(20) else self.const() if self.ch(15) else self.derived(m))
            elif k == "goal":
                self.goals(m)
            elif k == "drop":
                self.drop(m)
            elif k == "ref":
                gone = [i for i in self.sp[m].syms if i not in self.held[m]]
                if gone:
                    i = self.r.choice(gone)
                    self.emit("RF", m, i)
                    self.held[m].add(i)
            elif k == "ru":
                self.emit("RU", m)
                if not self.lock[m]:
                    self.prune(m)
            elif k == "ext":
                self.extend(m)
            elif k == "save":
                self.save(m, self.r.randrange(2))
            elif k == "load":
                self.emit("SL", m, self.r.randrange(2), [], [])
            elif k == "check":
                self.emit("CK", m)
            elif k == "it":
                what = self.r.choice(["sym", "sym", "dec", "con", "suc", "suc", "pre"])
                ids = sorted(self.held[m])
                if what in ("suc", "pre") and not ids:
                    continue
                self.emit("IT", m, self.r.randrange(3), what, self.r.choice(ids) if what in ("suc", "pre") else 0)
            elif k == "nx":
                self.emit("NX", self.r.randrange(3), self.r.choice([1, 1, 2, 3, 10]))
            elif k == "cv":
                ids = [i for i in sorted(self.held[m]) if i in self.sp[m].syms and self.sp[m].syms[i].kind == "const"]
                if ids:
                    self.emit("CV", m, self.r.choice(ids))
            elif k == "kv":
                self.emit("KV", self.r.choice([0, 1, 2, 3]))
            elif k == "dm":
                self.emit("DM", m)
            elif k == "future":
                self.future(m)

    def prune(self, m):
        sp = self.sp[m]
        keep = {i for i, s in sp.syms.items() if s.dec or s.fixed or i in self.held[m]} | set(sp.constraints)
        if sp.objective is not None:
            keep.add(sp.objective)
        need = set()
        for i in keep:
            need |= sp.ancestors(i)
        for i in [i for i in sp.syms if i not in need]:
            del sp.syms[i]

    def future(self, m):
        plan = []
        n = self.r.randint(0, 3)
        save, save_ns = self.prog, self.ns[m]
        self.prog = plan
        if self.ch(85):
            plan.append(["RS", m, n])
            self.ns[m] = n
            for _ in range(self.r.randint(0, 4)):
                d = self.dec(m)
                t = self.r.random()
                ids = [i for i in self.sp[m].syms if i in self.held[m]]
                if t < .6 and d is not None and n:
                    plan.append(["SS", m, self.r.randrange(n), d, random_value(self.r, self.sp[m], d)])
                elif t < .8 and ids and n:
                    plan.append(["RD", m, self.r.randrange(n), self.r.choice(ids)])
                elif t < .9:
                    plan.append(["SZ", m])
                elif self.ch(50):
                    plan.append(["SL", m, self.r.randrange(2), [], []])
        plan = [[x[0], *x[2:]] for x in plan]
        if self.ch(25):
            plan.insert(self.r.randint(0, len(plan)), ["raise"])
        self.prog = save
        self.emit("FU", m, plan)
        if not any(p[0] == "raise" for p in plan) and self.ch(90):
            self.ns[m] = n

    def gen_P08(self):
        self.build(0, self.r.randint(3, 16))
        self.resize(0, self.r.choice([0, 1, 2, 3]))
        self.set_all(0, self.r.choice([0, 50, 80, 100]))
        self.history(0, self.r.randint(0, 8), {"state": 6, "lock": 3, "build": 3, "ext": 1, "drop": 1, "ru": 1})
        for k in range(self.r.randint(1, 2)):
            self.save(0, k)
            self.emit("LD", k, [], [], self.r.choice(["file", "file", "path"]))
            self.history(0, self.r.randint(0, 3), {"state": 6, "lock": 2, "build": 2})

    def gen_P09(self):
        self.build(0, self.r.randint(2, 9))
        self.resize(0, self.r.choice([0, 1, 2, 3]))
        self.set_all(0, self.r.choice([50, 100]))
        if self.ch(40):
            self.lock_op(0)
        for k in range(self.r.randint(1, 4)):
            self.save(0, k, self.write_faults() if self.ch(70) else ())
            self.history(0, self.r.randint(0, 3), {"state": 6, "lock": 2, "build": 1})
        for _ in range(self.r.randint(1, 6)):
            s = self.r.randrange(4)
            dm = self.damage() if self.ch(75) else []
            pl = [["r", self.r.randint(1, 60), self.r.choice(["eio", "few"])]] if not dm or self.ch(20) else []
            if self.ch(70):
                self.emit("LD", s, dm, pl, "path" if not pl and self.ch(30) else "file")
            else:
                self.emit("SL", 0, s, dm, pl)

    def twin(self, m, m2, change):
        """m2 is built as m was, with at most one decision changed."""
        lines = [l for l in self.prog if l[0] == "N" and l[1] == m]
        decs = [i for i, l in enumerate(lines) if l[3] in ("binary", "integer", "list", "set", "dbits", "dlists")]
        self.sp[m2], self.next[m2], self.held[m2], self.lock[m2], self.ns[m2] = Spec(), 0, set(), 0, 0
        pick = self.r.choice(decs) if change and decs else None
        ids = {}
        for i, l in enumerate(lines):
            kind, args, par = l[3], l[4], [*l[5]]
            if i == pick:
                t = self.r.random()
                if t < .2:
                    continue
                if t < .4:
                    kind, args, par = self.decision(m2)
                elif t < .8:
                    if kind == "integer":
                        par = [par[0], par[1], (par[2] if par[2] is not None else 10) - 1]
                        if par[1] is not None and par[2] < par[1] or par[2] < 0 and par[1] is None:
                            par[2] = (par[1] or 0)
                    elif kind == "binary":
                        par = [[*par[0], 2] if self.ch(50) else [1]]
                    elif kind == "set":
                        par = [par[0], 0, max(par[2] - 1, 0)] if self.ch(50) else [max(par[0] - 1, 0), 0, max(min(par[2], par[0] - 1), 0)]
                    elif kind == "list":
                        par = [par[0] + 1]
                    else:
                        par = [par[0] + 1, par[1]] if self.ch(50) else [par[0], par[1] + 1]
                else:
                    self.add_raw(m2, self.new(m2, 24), *self.decision(m2))
            if any(x not in ids for x in args):
                continue
            id = self.new(m2, 24)
            if self.add_raw(m2, id, kind, [ids[x] for x in args], par):
                ids[l[2]] = id
                if kind == l[3] and kind in ("dbits", "dlists"):
                    for j in range(min(par[1], l[5][1])):
                        ids[l[2] + 1 + j] = id + 1 + j

    def new(self, m, n):
        self.next[m] += n
        return self.next[m] - n

    def add_raw(self, m, id, kind, args, par):
        sp = self.sp[m]
        if any(a not in sp.syms for a in args):
            return False
        try:
            s = sp.make(id, kind, args, par)
        except Bad:
            return False
        self.emit("N", m, id, kind, args, par)
        sp.syms[id] = s
        self.held[m].add(id)
        if kind in ("dbits", "dlists"):
            for i in range(par[1]):
                sp.syms[id + 1 + i] = sp.make(id + 1 + i, "dbit" if kind == "dbits" else "dlist", [id], [i])
                self.held[m].add(id + 1 + i)
        return True

    def gen_P10(self):
        r = self.r
        self.build(0, r.randint(2, 12), 45)
        self.twin(0, 1, self.ch(55))
        for m in (0, 1):
            if self.ch(50):
                for _ in range(r.randint(1, 2)):
                    self.lock_op(m)
            self.resize(m, r.choice([0, 1, 2, 3]))
            self.set_all(m, r.choice([40, 100]))
        for k in range(r.randint(1, 3)):
            a = r.randrange(2)
            self.save(a, k, (), r.choice(["st_into", "st_to", "st_into", "file"]))
            if self.ch(25):
                self.lock_op(1 - a)
            self.emit("SL", 1 - a, k, [], [])
            self.history(r.randrange(2), r.randint(0, 3), {"state": 8, "lock": 2})
        self.emit("CK", 0)
        self.emit("CK", 1)

    def gen_P11(self):
        self.build(0, self.r.randint(2, 8), 45)
        self.resize(0, self.r.choice([0, 1, 2]))
        self.set_all(0, 50)
        self.save(0, 0, (), "file")
        for _ in range(self.r.randint(1, 4)):
            self.future(0)
            self.history(0, self.r.randint(1, 6), {"state": 10, "lock": 4, "build": 2, "save": 1, "load": 1, "ru": 1, "drop": 1, "check": 1})

    def drill(self, m):
        """Few decisions set over and over, few of their users read in between: the states stay partly computed."""
        r = self.r
        for _ in range(r.randint(0, 3)):
            self.extend(m)
        if not self.lock[m]:
            self.emit("L", m)
            self.lock[m] += 1
        self.resize(m, 0)
        self.resize(m, r.choice([1, 1, 2]))
        sp = self.sp[m]
        decs = [i for i in sp.decisions() if i in self.held[m]]
        if not decs:
            return
        for _ in range(r.randint(2, 5)):
            i = r.randrange(self.ns[m])
            d = r.choice(decs)
            users = [u for u in sp.syms if u in self.held[m] and u != d and d in sp.ancestors(u)]
            if not users:
                continue
            some = r.sample(users, min(len(users), r.choice([1, 1, 2, 3])))
            for _ in range(r.randint(2, 3)):
                self.emit("SS", m, i, d, self.value(m, d))
                for u in some:
                    self.emit("RD", m, i, u)
            if self.ch(20):
                self.emit("RE", m, i, d)

    def gen_P12(self):
        self.build(0, self.r.randint(2, 10))
        if self.ch(35):
            for _ in range(self.r.randint(1, 2)):
                self.drill(0)
                if self.ch(60):
                    self.emit("U", 0)
                    self.lock[0] = max(0, self.lock[0] - 1)
                    self.history(0, self.r.randint(0, 4), {"build": 3, "ext": 4})
        self.resize(0, self.r.choice([0, 1, 2, 3]))
        self.history(0, self.r.randint(8, 40), {"state": 20, "lock": 6, "build": 4, "ext": 1, "drop": 1, "ref": 1, "ru": 1, "save": 1, "load": 1, "check": 1, "goal": .3})

    def gen_P13(self):
        self.build(0, self.r.randint(4, 16), 20)
        self.resize(0, self.r.choice([0, 1, 2]))
        self.set_all(0, 60)
        for _ in range(self.r.randint(1, 12)):
            self.drop(0)
        self.emit("RU", 0)
        self.prune(0)
        self.history(0, self.r.randint(3, 24), {"state": 5, "lock": 3, "build": 6, "ext": 2, "drop": 9, "ref": 2, "ru": 4, "goal": 1, "save": .5, "check": 1})
        self.save(0, 5)
        self.emit("LD", 5, [], [])

    def gen_P17(self):
        r = self.r
        self.build(0, r.randint(2, 12), 35)
        self.resize(0, r.choice([0, 1, 2]))
        self.set_all(0, 50)
        for _ in range(r.randint(0, 4)):
            self.drop(0)
        self.history(0, r.randint(8, 40), {"it": 4, "nx": 8, "build": 8, "ext": 3, "goal": 2, "drop": 4, "ref": 1, "ru": 2, "lock": 3, "state": 4, "save": .5, "load": .5, "future": .3, "cv": 1, "kv": 1, "dm": .7, "check": .3})
        if self.ch(30):
            for i in sorted(self.held[0]):
                self.emit("D", 0, i)
            if self.ch(50):
                for k in range(3):
                    self.emit("NX", k, 1000)
                for k in range(5):
                    self.emit("KV", 1)
            self.emit("DM", 0)

    def gen_P14(self):
        r = self.r
        self.build(0, r.randint(2, 10))
        self.build(1, r.randint(1, 5))
        self.resize(0, 1)
        for _ in range(r.randint(5, 30)):
            if self.ch(18):
                a, b = r.choice([(0, 1), (1, 0)])
                x, y = sorted(self.held[a]), sorted(self.held[b])
                if x and y:
                    i = r.choice(x)
                    sh = self.sp[a].syms[i].shape
                    c = [j for j in y if self.sp[b].syms[j].shape == sh] or y
                    self.emit("MIX", a, b, r.choice(["add", "le", "iadd", "imul", "nary", "where", "concat", "aidx", "max", "and", "min", "con", "perm", "where2", "mod", "naryx"]), i, r.choice(c))
            else:
                self.history(r.choice([0, 0, 0, 1]), 1, {"build": 8, "ext": 8, "lock": 6, "drop": 4, "ru": 3, "goal": 1, "state": 3, "save": 1, "ref": 1, "check": .7})

    def gen_P15(self):
        r = self.r
        nm = r.choice([1, 1, 2])
        for m in range(nm):
            self.build(m, r.randint(2, 7), 40)
            self.resize(m, r.choice([1, 2]))
            self.set_all(m)
            self.save(m, m, (), "file")
            if self.ch(25):
                self.emit("L", m)
                self.lock[m] += 1
        nc = r.randint(2, 4)
        for c in range(nc):
            for _ in range(r.randint(1, 3)):
                m = r.randrange(nm)
                t = r.random()
                ids = [i for i in self.sp[m].syms if self.sp[m].syms[i].array]
                if t < .36:
                    plan = [["w", r.randint(1, 60), r.choice(["eio", "short"])]] if self.ch(15) else []
                    self.emit("T", c, "save", m, r.choice(["file", "file", "file2", "st_into", "st_to"]), self.ch(15), r.choice([0, 1000]), plan)
                elif t < .64:
                    self.emit("T", c, "read", m, r.randrange(self.ns[m]), [r.choice(ids) for _ in range(r.randint(1, 5))])
                elif t < .71:
                    self.emit("T", c, "walk", m)
                elif t < .77:
                    self.emit("T", c, "load", m)
                else:
                    id = self.next[m]
                    self.next[m] += 1
                    what = r.choice([("binary", [], [[]]), ("const", [], [[2], [1, 2]])]) if self.ch(60) else ("un", [r.choice(ids)], ["neg"])
                    self.emit("T", c, "add", m, id, *what)
        n = r.choice([2, 4, 8, 20, 60])
        scale = r.choice([3, 30, 300])
        hot = r.choice([0, 50, 100])          # counted in the library's own lines only
        for _ in range(n):
            if self.ch(hot):
                self.emit("W", r.randrange(nc), 1 + int(r.expovariate(1 / r.choice([2, 6, 15]))), 1)
            else:
                self.emit("W", r.randrange(nc), 1 + int(r.expovariate(1 / scale)))
        self.emit("GO")
