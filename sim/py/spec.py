"""Reference model: what a symbol means, written with numpy and nothing of the library."""
import math
import numpy as np

BIG = 1e7
FB_MAX = 12


class Sym:
    """One symbol of the reference model.

    shape: static shape, or (-1, ...) for a dynamic array, or None for a disjoint 'main' symbol.
    lo, hi: interval of its values.  fb: fractional bits of its values; None when inexact."""
    __slots__ = ("id", "kind", "args", "par", "shape", "lo", "hi", "fb", "logical", "integral", "cls", "dec", "fixed")

    def __init__(self, id, kind, args, par, shape, lo, hi, fb=0, logical=False, integral=True, cls=None, dec=False, fixed=False):
        self.id, self.kind, self.args, self.par, self.shape = id, kind, list(args), par, shape
        self.lo, self.hi, self.fb, self.logical, self.integral = lo, hi, fb, logical, integral
        self.cls, self.dec, self.fixed = cls, dec, fixed

    @property
    def dynamic(self):
        return self.shape is not None and len(self.shape) > 0 and self.shape[0] < 0

    @property
    def array(self):
        return self.shape is not None

    @property
    def scalar(self):
        return self.shape == ()

    def size(self):
        return int(np.prod(self.shape)) if not self.dynamic else -1


class Bad(Exception):
    """The requested symbol is outside what the reference model describes."""


UN = {"abs": ("Absolute", np.abs), "neg": ("Negative", np.negative), "sq": ("Square", np.square), "sqrt": ("SquareRoot", np.sqrt),
      "logical": ("Logical", lambda a: (a != 0).astype(float)), "not": ("Not", lambda a: (a == 0).astype(float))}
BIN = {"add": ("Add", np.add), "sub": ("Subtract", np.subtract), "mul": ("Multiply", np.multiply), "div": ("Divide", np.divide), "mod": ("Modulus", np.mod),
       "and": ("And", lambda a, b: ((a != 0) & (b != 0)).astype(float)), "or": ("Or", lambda a, b: ((a != 0) | (b != 0)).astype(float)),
       "xor": ("Xor", lambda a, b: ((a != 0) ^ (b != 0)).astype(float)), "eq": ("Equal", lambda a, b: (a == b).astype(float)),
       "le": ("LessEqual", lambda a, b: (a <= b).astype(float)), "max": ("Maximum", np.maximum), "min": ("Minimum", np.minimum)}
NARY = {"add": ("NaryAdd", np.add), "mul": ("NaryMultiply", np.multiply), "max": ("NaryMaximum", np.maximum), "min": ("NaryMinimum", np.minimum)}
RED = {"sum": ("Sum", np.sum), "prod": ("Prod", np.prod), "all": ("All", lambda a: float((a != 0).all())), "any": ("Any", lambda a: float((a != 0).any())),
       "max": ("Max", np.max), "min": ("Min", np.min)}
DISC = ("mod", "and", "or", "xor", "eq", "le")


def fsum(*f):
    return None if None in f else max(f)


def fmul(*f):
    if None in f:
        return None
    t = sum(f)
    return t if t <= FB_MAX else None


def imul(a, b):
    p = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
    return min(p), max(p)


def cap(lo, hi):
    if not (-BIG * 1000 <= lo <= hi <= BIG * 1000):
        raise Bad("too large")
    return lo, hi


def bcast(a, b):
    """Shape of an element-wise operation: equal shapes, or one operand a scalar."""
    if a.dynamic and b.dynamic:
        raise Bad("two dynamic")
    if a.shape == b.shape:
        return a.shape
    if a.scalar:
        return b.shape
    if b.scalar:
        return a.shape
    raise Bad("shapes")


def sl(x):
    return slice(*x) if isinstance(x, (list, tuple)) else x


class Spec:
    def __init__(self):
        self.syms = {}          # id -> Sym, in order of creation
        self.objective = None
        self.constraints = []

    def copy(self):
        s = Spec()
        for k, v in self.syms.items():
            t = Sym.__new__(Sym)
            for n in Sym.__slots__:
                setattr(t, n, getattr(v, n))
            t.args = list(v.args)
            s.syms[k] = t
        s.objective, s.constraints = self.objective, list(self.constraints)
        return s

    def decisions(self):
        return [s.id for s in self.syms.values() if s.dec]

    def ancestors(self, i):
        seen, todo = set(), [i]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += self.syms[x].args
        return seen

    # -- building -------------------------------------------------------------------------------
    def make(self, id, kind, args, par):
        """The symbol (or list of symbols) a construction describes; raises Bad if out of scope."""
        A = [self.syms[a] for a in args]
        if any(not a.array for a in A) and kind not in ("dbit", "dlist"):
            raise Bad("not an array")
        mk = lambda shape, lo, hi, **k: Sym(id, kind, args, par, tuple(shape), *cap(lo, hi), **k)
        if kind == "binary":
            return Sym(id, kind, [], par, tuple(par[0]), 0, 1, logical=True, cls="BinaryVariable", dec=True)
        if kind == "integer":
            lo = 0 if par[1] is None else par[1]
            hi = 2000000000 if par[2] is None else par[2]
            return Sym(id, kind, [], par, tuple(par[0]), lo, hi, cls="IntegerVariable", dec=True)
        if kind == "list":
            return Sym(id, kind, [], par, (par[0],), 0, par[0] - 1, cls="ListVariable", dec=True)
        if kind == "set":
            n, a, b = par
            return Sym(id, kind, [], par, (a,) if a == b else (-1,), 0, n - 1, cls="SetVariable", dec=True)
        if kind == "dbits":
            return Sym(id, kind, [], par, None, 0, 0, cls="DisjointBitSets", dec=True)
        if kind == "dlists":
            return Sym(id, kind, [], par, None, 0, 0, cls="DisjointLists", dec=True)
        if kind == "dbit":
            return Sym(id, kind, args, par, (A[0].par[0],), 0, 1, logical=True, cls="DisjointBitSet", fixed=True)
        if kind == "dlist":
            return Sym(id, kind, args, par, (-1,), 0, A[0].par[0] - 1, cls="DisjointList", fixed=True)
        if kind == "const":
            v = np.array(par[1], dtype=float).reshape(par[0])
            lo, hi = (float(v.min()), float(v.max())) if v.size else (0.0, 0.0)
            integral = bool((v == np.floor(v)).all())
            return Sym(id, kind, [], par, tuple(par[0]), lo, hi, fb=0 if integral else 2 if bool((v * 4 == np.floor(v * 4)).all()) else None, integral=integral, logical=bool(((v == 0) | (v == 1)).all()), cls="Constant")
        if kind == "un":
            op, a = par[0], A[0]
            if op in ("logical", "not"):
                if a.fb is None:
                    raise Bad("discontinuous")
                return mk(a.shape, 0, 1, logical=True, cls=UN[op][0])
            if op == "abs":
                lo, hi = (0 if a.lo <= 0 <= a.hi else min(abs(a.lo), abs(a.hi))), max(abs(a.lo), abs(a.hi))
                return mk(a.shape, lo, hi, fb=a.fb, integral=a.integral, cls="Absolute")
            if op == "neg":
                return mk(a.shape, -a.hi, -a.lo, fb=a.fb, integral=a.integral, cls="Negative")
            if op == "sq":
                if max(abs(a.lo), abs(a.hi)) > 3000:
                    raise Bad("too large")
                lo = 0 if a.lo <= 0 <= a.hi else min(a.lo * a.lo, a.hi * a.hi)
                return mk(a.shape, lo, max(a.lo * a.lo, a.hi * a.hi), fb=fmul(a.fb, a.fb), integral=a.integral, cls="Square")
            if op == "sqrt":
                if a.lo < 0 or a.fb is None:
                    raise Bad("sqrt")
                return mk(a.shape, 0, a.hi ** .5 if a.hi > 0 else 0, fb=None, integral=False, cls="SquareRoot")
        if kind == "bin":
            op, a, b = par[0], A[0], A[1]
            shape = bcast(a, b)
            if op in DISC and (a.fb is None or b.fb is None):
                raise Bad("discontinuous")
            cls = BIN[op][0]
            if op in ("and", "or", "xor", "eq", "le"):
                return mk(shape, 0, 1, logical=True, cls=cls)
            integral = a.integral and b.integral
            if op == "add":
                return mk(shape, a.lo + b.lo, a.hi + b.hi, fb=fsum(a.fb, b.fb), integral=integral, cls=cls)
            if op == "sub":
                return mk(shape, a.lo - b.hi, a.hi - b.lo, fb=fsum(a.fb, b.fb), integral=integral, cls=cls)
            if op == "mul":
                if max(abs(a.lo), abs(a.hi)) * max(abs(b.lo), abs(b.hi), 1) > BIG:
                    raise Bad("too large")
                return mk(shape, *imul(a, b), fb=fmul(a.fb, b.fb), integral=integral, cls=cls)
            if op == "div":
                if b.lo <= 0 <= b.hi or min(abs(b.lo), abs(b.hi)) < .2:
                    raise Bad("division")
                m = max(abs(a.lo), abs(a.hi)) * 5
                return mk(shape, -m, m, fb=None, integral=False, cls=cls)
            if op == "mod":
                if b.lo <= 0 <= b.hi:
                    raise Bad("modulus")
                m = max(abs(b.lo), abs(b.hi))
                return mk(shape, -m, m, fb=fsum(a.fb, b.fb), integral=integral, cls=cls)
            if op in ("max", "min"):
                f = max if op == "max" else min
                return mk(shape, f(a.lo, b.lo), f(a.hi, b.hi), fb=fsum(a.fb, b.fb), integral=integral, cls=cls)
        if kind == "nary":
            op = par[0]
            shape = A[0].shape
            if any(a.shape != shape for a in A) or A[0].dynamic:
                raise Bad("shapes")
            fb, integral = A[0].fb, all(a.integral for a in A)
            lo, hi = A[0].lo, A[0].hi
            for a in A[1:]:
                if op == "add":
                    lo, hi, fb = lo + a.lo, hi + a.hi, fsum(fb, a.fb)
                elif op == "mul":
                    p = [lo * a.lo, lo * a.hi, hi * a.lo, hi * a.hi]
                    lo, hi, fb = min(p), max(p), fmul(fb, a.fb)
                    if max(abs(lo), abs(hi)) > BIG:
                        raise Bad("too large")
                else:
                    f = max if op == "max" else min
                    lo, hi, fb = f(lo, a.lo), f(hi, a.hi), fsum(fb, a.fb)
            return mk(shape, lo, hi, fb=fb, integral=integral, cls=NARY[op][0])
        if kind == "red":
            op, a = par[0], A[0]
            cls = RED[op][0]
            if op in ("all", "any"):
                if a.fb is None:
                    raise Bad("discontinuous")
                return mk((), 0, 1, logical=True, cls=cls)
            n = self.maxsize(a)
            if op in ("max", "min"):
                if a.dynamic or n == 0:
                    raise Bad("no identity")
                return mk((), a.lo, a.hi, fb=a.fb, integral=a.integral, cls=cls)
            if op == "sum":
                m = max(abs(a.lo), abs(a.hi)) * max(n, 1)
                return mk((), -m, m, fb=a.fb, integral=a.integral, cls=cls)
            m = max(abs(a.lo), abs(a.hi), 1)
            if max(n, 1) * math.log(m) > 600 or m ** max(n, 1) > BIG:
                raise Bad("too large")
            return mk((), -m ** n, m ** n, fb=fmul(*([a.fb] * max(n, 1))), integral=a.integral, cls=cls)
        if kind == "psum":
            a, ax = A[0], par[0]
            if a.dynamic or len(a.shape) < 2 or not 0 <= ax < len(a.shape):
                raise Bad("axis")
            m = max(abs(a.lo), abs(a.hi)) * max(a.shape[ax], 1)
            return mk([d for i, d in enumerate(a.shape) if i != ax], -m, m, fb=a.fb, integral=a.integral, cls="PartialSum")
        if kind == "bidx":
            a, idx = A[0], par[0]
            if len(idx) != len(a.shape) or not idx:
                raise Bad("indices")
            shape = []
            for j, (d, x) in enumerate(zip(a.shape, idx)):
                if isinstance(x, int):
                    if d < 0 or not -d <= x < d:
                        raise Bad("index")
                elif d < 0:
                    if x[2] is not None and x[2] <= 0:
                        raise Bad("step")
                    shape.append(-1)
                else:
                    shape.append(len(range(*sl(x).indices(d))))
            return mk(shape, a.lo, a.hi, fb=a.fb, integral=a.integral, logical=a.logical, cls="BasicIndexing")
        if kind == "aidx":
            # par[0]: one entry per axis, ':' or the number of an index operand
            a, plan = A[0], par[0]
            if a.dynamic or len(plan) != len(a.shape) or [k for k in plan if k != ":"] != list(range(len(A) - 1)):
                raise Bad("plan")
            I = [A[1 + k] for k in plan if k != ":"]
            if not I or len({i.shape for i in I}) != 1:
                raise Bad("index shapes")
            if I[0].dynamic and len({i.id for i in I}) != 1:
                raise Bad("sizes")
            for d, k in zip(a.shape, plan):
                if k != ":":
                    ix = A[1 + k]
                    if ix.fb is None or not ix.integral or (ix.lo < 0 or ix.hi >= d) and ix.shape != (0,):
                        raise Bad("range")
            ax = [j for j, k in enumerate(plan) if k != ":"]
            contiguous = ax == list(range(ax[0], ax[-1] + 1))
            rest = [d for d, k in zip(a.shape, plan) if k == ":"]
            lead = [d for d, k in zip(a.shape, plan) if k == ":"][:ax[0]] if contiguous else []
            shape = lead + list(I[0].shape) + rest[len(lead):]
            if -1 in shape and shape[0] != -1:
                raise Bad("dynamic axis not first")
            return mk(shape, a.lo, a.hi, fb=a.fb, integral=a.integral, logical=a.logical, cls="AdvancedIndexing")
        if kind == "perm":
            a, x = A
            if a.kind != "const" or x.kind != "list" or len(a.shape) != 2 or a.shape[0] != a.shape[1] or a.shape[0] != x.shape[0] or x.shape[0] < 1:
                raise Bad("perm")
            return mk(a.shape, a.lo, a.hi, fb=a.fb, integral=a.integral, cls="Permutation")
        if kind == "reshape":
            a, shape = A[0], par[0]
            if a.dynamic or int(np.prod(shape)) != a.size() or any(d < 0 for d in shape):
                raise Bad("reshape")
            return mk(shape, a.lo, a.hi, fb=a.fb, integral=a.integral, logical=a.logical, cls="Reshape")
        if kind == "size":
            if not A[0].dynamic:
                raise Bad("static")
            return mk((), 0, self.maxsize(A[0]), cls="Size")
        if kind == "concat":
            ax, s0 = par[0], A[0].shape
            if len(A) < 2 or any(a.dynamic or len(a.shape) != len(s0) for a in A) or not 0 <= ax < len(s0):
                raise Bad("concat")
            if any(a.shape[:ax] + a.shape[ax + 1:] != s0[:ax] + s0[ax + 1:] for a in A):
                raise Bad("concat")
            shape = list(s0)
            shape[ax] = sum(a.shape[ax] for a in A)
            return mk(shape, min(a.lo for a in A), max(a.hi for a in A), fb=fsum(*[a.fb for a in A]), integral=all(a.integral for a in A), cls="Concatenate")
        if kind == "where":
            c, x, y = A
            if c.fb is None or not c.logical:
                raise Bad("cond")
            if c.scalar:
                if x.shape != y.shape and not (x.dynamic and y.dynamic and len(x.shape) == 1 == len(y.shape)):
                    raise Bad("shapes")
            elif not (c.shape == x.shape == y.shape) or c.dynamic:
                raise Bad("shapes")
            return mk(x.shape, min(x.lo, y.lo), max(x.hi, y.hi), fb=fsum(x.fb, y.fb), integral=x.integral and y.integral, cls="Where")
        if kind == "qm":
            x, q, lin = A[0], par[0], par[1]
            n = x.shape[0] if len(x.shape) == 1 and not x.dynamic else 0
            if n < 1 or not q or max(abs(x.lo), abs(x.hi)) > 300:
                raise Bad("qm")
            if any(not (0 <= u < n and 0 <= v < n) for u, v, _ in q) or any(not 0 <= v < n for v, _ in lin):
                raise Bad("qm")
            m = max(abs(x.lo), abs(x.hi), 1)
            t = sum(abs(b) * m * m for _, _, b in q) + sum(abs(b) * m for _, b in lin)
            return mk((), -t, t, fb=fmul(x.fb, x.fb, 2) if x.fb is not None else None, integral=False, cls="QuadraticModel")
        raise Bad(kind)

    def maxsize(self, a):
        if not a.dynamic:
            return a.size()
        if a.kind == "set":
            return a.par[2]
        if a.kind == "dlist":
            return self.syms[a.args[0]].par[0]
        rest = 1
        for d in a.shape[1:]:
            rest *= d
        if a.kind == "aidx":
            ix = [self.syms[a.args[1 + k]] for k in a.par[0] if k != ":"]
            return self.maxsize(ix[0]) * rest if ix[0].dynamic else max(rest, 1)
        return max([self.maxsize(self.syms[x]) for x in a.args if self.syms[x].array and self.syms[x].dynamic] or [1])

    def extend(self, id, arg):
        """The symbol id would be after one more operand."""
        s = self.syms[id]
        return self.make(id, s.kind, s.args + [arg], s.par)

    # -- meaning --------------------------------------------------------------------------------
    def default(self, id):
        s = self.syms[id]
        if s.kind == "binary":
            return np.zeros(s.shape)
        if s.kind == "integer":
            return np.full(s.shape, float(s.lo if s.lo > 0 or s.hi < 0 else 0))
        if s.kind == "list":
            return np.arange(s.par[0], dtype=float)
        if s.kind == "set":
            return np.arange(s.par[1], dtype=float)
        n, k = s.par
        if s.kind == "dbits":
            return [np.ones(n)] + [np.zeros(n) for _ in range(k - 1)]
        return [np.arange(n, dtype=float)] + [np.zeros(0) for _ in range(k - 1)]

    def legal(self, id, v):
        """Whether a decision can take the value v (an array or a list of arrays)."""
        s = self.syms[id]
        try:
            if s.kind in ("binary", "integer"):
                a = np.asarray(v)
                return a.size == s.size() and bool((a == np.floor(a)).all()) and bool(((a >= s.lo) & (a <= s.hi)).all())
            if s.kind == "list":
                return sorted(np.asarray(v).tolist()) == list(range(s.par[0]))
            if s.kind == "set":
                n, lo, hi = s.par
                w = np.asarray(v).tolist()
                return lo <= len(w) <= hi and len(set(w)) == len(w) and all(0 <= x < n and x == int(x) for x in w)
            n, k = s.par
            if len(v) != k:
                return False
            if s.kind == "dbits":
                return all(len(r) == n for r in v) and bool((np.sum(np.array(v, dtype=float).reshape(k, n), axis=0) == 1).all())
            return sorted(x for r in v for x in np.asarray(r).tolist()) == list(range(n))
        except (TypeError, ValueError):
            return False

    def norm(self, id, v):
        s = self.syms[id]
        if s.kind in ("binary", "integer"):
            return np.asarray(v, dtype=float).reshape(s.shape)
        if s.kind in ("list", "set"):
            return np.asarray(v, dtype=float).reshape(-1)
        return [np.asarray(r, dtype=float).reshape(-1) for r in v]

    def ev(self, id, dec, memo):
        if id in memo:
            return memo[id]
        s = self.syms[id]
        k, p = s.kind, s.par
        if s.dec:
            r = dec[id] if id in dec else self.default(id)
        else:
            a = [self.ev(x, dec, memo) for x in s.args]
            if k in ("dbit", "dlist"):
                r = a[0][p[0]]
            elif k == "const":
                r = np.array(p[1], dtype=float).reshape(p[0])
            elif k == "un":
                r = UN[p[0]][1](a[0])
            elif k == "bin":
                r = BIN[p[0]][1](a[0], a[1])
            elif k == "nary":
                r = a[0]
                for x in a[1:]:
                    r = NARY[p[0]][1](r, x)
            elif k == "red":
                r = RED[p[0]][1](a[0])
            elif k == "psum":
                r = a[0].sum(axis=p[0])
            elif k == "bidx":
                r = a[0][tuple(sl(x) for x in p[0])]
            elif k == "aidx":
                r = a[0][tuple(slice(None) if x == ":" else a[1 + x].astype(np.intp) for x in p[0])]
            elif k == "perm":
                x = a[1].astype(np.intp)
                r = a[0][x, :][:, x]
            elif k == "reshape":
                r = a[0].reshape(p[0])
            elif k == "size":
                r = float(a[0].size)
            elif k == "concat":
                r = np.concatenate(a, axis=p[0])
            elif k == "where":
                r = np.where(a[0] != 0, a[1], a[2]) if s.shape == self.syms[s.args[0]].shape else (a[1] if a[0] else a[2])
            elif k == "qm":
                x = a[0]
                r = float(sum(b * x[u] * x[v] for u, v, b in p[0]) + sum(b * x[v] for v, b in p[1]))
        if s.array:
            r = np.asarray(r, dtype=float)
        memo[id] = r
        return r

    def same(self, id, got, want):
        """Whether a value read equals the reference value (exactly, unless the symbol is inexact)."""
        got = np.asarray(got)
        if got.shape != want.shape:
            return False
        if self.syms[id].fb is not None or self.syms[id].kind == "const":
            return bool((got == want).all())
        return bool((np.abs(got - want) <= 1e-7 + 1e-9 * np.abs(want)).all())
