"""Executes one program against the real library and against the reference model.

Everything the library meets from outside goes through here: files (SimFile), the clock zipfile
stamps entries with, futures and their hooks, the references a user holds, the order in which
clients run (Sched)."""
import array
import contextlib
import ctypes
import errno
import gc
import hashlib
import io
import os
import random
import shutil
import sys
import tempfile
import threading
import types
import weakref
import zipfile

import numpy as np

import dwave.optimization as dwo
from dwave.optimization import Model, symbols
from spec import Bad, Spec, sl

try:
    import networkx
except ImportError:
    networkx = None


class Violation(Exception):
    pass


class Ids(dict):
    """The id of a symbol -> its number; the library must not list a symbol that nobody built."""
    def __missing__(self, key):
        raise Violation("the library lists a symbol that is not one of those that were built")


class Stop(Exception):
    """The program leads where the reference model does not go."""


class HookError(Exception):
    pass


# ---- clock ------------------------------------------------------------------------------------
class Clock:
    def __init__(self):
        self.now = (2024, 5, 6, 7, 8, 10)

    def localtime(self, *_):
        return self.now + (0, 0, 0)

    gmtime = localtime

    def time(self):
        return 0.0


CLOCK = Clock()
zipfile.time = types.SimpleNamespace(localtime=lambda *a: CLOCK.localtime(), time=lambda: 0.0, gmtime=lambda *a: CLOCK.localtime())


# ---- files ------------------------------------------------------------------------------------
class At(bytes):
    """A file in which the model starts behind something else."""
    at = 0


def at(data, n):
    data = At(data)
    data.at = n
    return data


class SimFile(io.RawIOBase):
    """A file whose every operation is a scheduling point and may fail as the plan says.

    plan: list of [operation, k, kind]: at the k-th call of that operation (or of any, for '*')
    kind is eio, enospc, short (part is written, then ENOSPC) or few (a read returns less)."""

    def __init__(self, world, data=b"", plan=(), seekable=True, tag="f"):
        super().__init__()
        self.w, self.b, self.tag = world, io.BytesIO(data), tag
        self.b.seek(getattr(data, "at", 0))
        self.plan = {(op, k): kind for op, k, kind in plan}
        self.n, self.seek_ok, self.ops, self.hits = {}, seekable, 0, 0

    def _hit(self, op):
        self.w.point(self.tag + op)
        self.ops += 1
        k = self.n[op] = self.n.get(op, 0) + 1
        kind = self.plan.get((op, k)) or self.plan.get(("*", self.ops))
        if kind:
            self.hits += 1
            self.w.stat("file_" + kind)
            if kind == "eio":
                raise OSError(errno.EIO, "simulated I/O error")
            if kind == "enospc":
                raise OSError(errno.ENOSPC, "simulated full disk")
        return kind

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return self.seek_ok

    def write(self, data):
        data = bytes(data)
        kind = self._hit("w")
        if kind == "short":
            self.b.write(data[:len(data) // 2])
            raise OSError(errno.ENOSPC, "simulated full disk")
        return self.b.write(data)

    def read(self, n=-1):
        kind = self._hit("r")
        if kind == "few" and n and n > 1:
            n = max(1, n // 2)
        return self.b.read(n)

    def readall(self):
        return self.read(-1)

    def readinto(self, buf):
        d = self.read(len(buf))
        buf[:len(d)] = d
        return len(d)

    def seek(self, *a):
        if not self.seek_ok:
            raise io.UnsupportedOperation("not seekable")
        self._hit("s")
        return self.b.seek(*a)

    def tell(self):
        if not self.seek_ok:
            raise io.UnsupportedOperation("not seekable")
        self._hit("t")
        return self.b.tell()

    def flush(self):
        if not self.closed:
            self._hit("f")

    def truncate(self, n=None):
        return self.b.truncate(n)

    def close(self):
        if not self.closed:
            self.plan = {}
            super().close()

    def bytes(self):
        return self.b.getvalue()


def damage(data, plan):
    """What the storage gives back: plan is a list of [kind, a, b] with a, b in [0, 1) or bytes."""
    d = bytearray(data)
    for kind, a, b in plan:
        n = len(d)
        if kind == "cut":
            d = d[:int(a * n)]
        elif kind == "zero":
            blk = 512
            k = int(a * (n // blk + 1)) * blk
            d[k:k + blk] = bytes(len(d[k:k + blk]))
        elif kind == "flip":
            k = payload_offset(bytes(d), a, b)
            if k is not None:
                d[k] ^= 1 << int(b * 8)
        elif kind == "head":
            if n:
                k = int(a * min(n, 128))
                d[k] ^= 1 << int(b * 8)
        elif kind == "tail":
            d += bytes(int(a * 64) + 1)
    return at(d, data.at) if isinstance(data, At) else bytes(d)


def payload_offset(d, a, b):
    """Offset of a byte inside the stored content of some member."""
    try:
        with zipfile.ZipFile(io.BytesIO(d)) as zf:
            infos = [i for i in zf.infolist() if i.compress_size]
            if not infos:
                return None
            i = infos[int(a * len(infos))]
            h = i.header_offset
            n, e = int.from_bytes(d[h + 26:h + 28], "little"), int.from_bytes(d[h + 28:h + 30], "little")
            k = h + 30 + n + e + int(b * i.compress_size)
            return k if k < len(d) else None
    except Exception:
        return None


# ---- clients ----------------------------------------------------------------------------------
class Sched:
    """One baton: exactly one client runs; it may be handed over at every point."""

    def __init__(self, plan):
        self.plan = list(plan)         # [client, points, only the library's own lines count]
        self.hot = False
        self.lock = threading.Condition()
        self.cur, self.left, self.done = None, 0, {}
        self.names = []
        self.switches = self.points = 0
        self.trace = hashlib.blake2b(digest_size=8)

    def pick(self, me=None):
        alive = [n for n in self.names if not self.done[n]]
        while self.plan:
            c, k, hot = self.plan.pop(0)
            if c in alive:
                self.hot = hot
                return c, max(1, k)
        self.hot = False
        if not alive:
            return None, 0
        return (me if me in alive else alive[0]), 1 << 60

    def point(self, me, tag, hot=False):
        if self.done.get(me) or self.cur != me:     # a finaliser, after the client's end
            return
        self.points += 1
        if self.hot and not hot:
            return
        self.left -= 1
        if self.left > 0:
            return
        nxt, self.left = self.pick(me)
        if nxt == me or nxt is None:
            return
        self.switches += 1
        self.trace.update(f"{me}>{nxt}@{tag};".encode())
        with self.lock:
            self.cur = nxt
            self.lock.notify_all()
            while self.cur != me:
                self.lock.wait()

    def run(self, jobs, tracer):
        """jobs: name -> callable.  Runs them all to the end."""
        self.names = list(jobs)
        self.done = {n: False for n in jobs}
        errs = {}

        def body(name):
            with self.lock:
                while self.cur != name:
                    self.lock.wait()
            sys.settrace(tracer(name))
            try:
                jobs[name]()
            except BaseException as e:      # kept for the main thread
                errs[name] = e
            finally:
                sys.settrace(None)
                self.done[name] = True
                nxt, self.left = self.pick()
                with self.lock:
                    self.cur = nxt if nxt is not None else "main"
                    self.lock.notify_all()
        ts = [threading.Thread(target=body, args=(n,), name=str(n)) for n in jobs]
        for t in ts:
            t.start()
        nxt, self.left = self.pick()
        with self.lock:
            self.cur = nxt
            self.lock.notify_all()
        for t in ts:
            t.join()
        return errs


# ---- the real side of a construction ------------------------------------------------------------
UNF = {"abs": abs, "neg": lambda x: -x, "sq": lambda x: x ** 2, "sqrt": dwo.sqrt, "logical": dwo.logical, "not": dwo.logical_not}
BINF = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b, "mod": lambda a, b: a % b,
        "and": dwo.logical_and, "or": dwo.logical_or, "xor": dwo.logical_xor, "eq": lambda a, b: symbols.Equal(a, b), "le": lambda a, b: symbols.LessEqual(a, b),
        "max": dwo.maximum, "min": dwo.minimum}
NARYF = {"add": (dwo.add, symbols.NaryAdd), "mul": (dwo.multiply, symbols.NaryMultiply), "max": (dwo.maximum, symbols.NaryMaximum), "min": (dwo.minimum, symbols.NaryMinimum)}


BINF2 = {"add": dwo.add, "mul": dwo.multiply, "div": dwo.divide, "mod": dwo.mod, "eq": lambda a, b: a == b, "le": lambda a, b: a <= b}


def index(x, ix, alt):
    """x[...], also with the trailing full slices left out and without a tuple."""
    if alt % 2:
        while len(ix) > 1 and ix[-1] == slice(None):
            ix.pop()
    return x[ix[0]] if len(ix) == 1 and alt % 4 > 1 else x[tuple(ix)]


def as_array(val, k):
    """The same values as an array of another type or memory layout; None if it cannot hold them."""
    try:
        a = np.array(val, dtype=np.double)
        if not np.array_equal(a, val):
            return None
    except (ValueError, TypeError):
        return None
    t = [np.double, np.int64, np.double, np.float32, np.int32, np.double, np.int8, np.uint8, bool, np.int16][k % 10]
    if a.size and t is not np.double:
        if t is not np.float32 and t is not bool and (a.min() < np.iinfo(t).min or a.max() > np.iinfo(t).max):
            t = np.double
        elif not np.array_equal(a.astype(t), a):
            t = np.double
    a = a.astype(t)
    way = k // 10 % 5
    if way == 1 and a.ndim:
        return np.asfortranarray(a)
    if way == 2 and a.ndim:
        b = np.full((a.shape[0] * 2, *a.shape[1:]), 1, dtype=t)
        b[::2] = a
        return b[::2]
    if way == 3 and a.ndim:
        return a[::-1].copy()[::-1]
    if way == 4 and a.ndim:
        b = np.full((*a.shape, 3), 1, dtype=t)
        b[..., 1] = a
        return b[..., 1]
    return a


def build(model, kind, A, p, alt=0):
    """alt: which of the equivalent ways of writing it to use."""
    if kind == "binary":
        return model.binary((p[0][0] if len(p[0]) == 1 and alt % 2 else tuple(p[0])) if p[0] else None)
    if kind == "integer":
        return model.integer(tuple(p[0]) if p[0] else None, lower_bound=p[1], upper_bound=p[2])
    if kind == "list":
        return model.list(p[0])
    if kind == "set":
        return model.set(*p)
    if kind == "dbits":
        main, sets = model.disjoint_bit_sets(*p)
        return [main, *sets]
    if kind == "dlists":
        main, lists = model.disjoint_lists(*p)
        return [main, *lists]
    if kind == "const":
        # memory that is gone, not just reused, once nobody refers to it
        a = np.frombuffer(array.array("d", p[1])) if p[1] else np.array([], dtype=float)
        a = a.reshape(p[0])
        return model.constant(as_array(a, len(p[1]) * 5 + int(abs(a.sum()) * 4)) if a.size % 4 != 2 else a)
    if kind == "un":
        return UNF[p[0]](A[0])
    if kind == "bin":
        return (BINF2 if alt % 2 and p[0] in BINF2 else BINF)[p[0]](A[0], A[1])
    if kind == "nary":
        f, cls = NARYF[p[0]]
        if p[0] == "mul" and len(A) > 2 and all(x is A[0] for x in A):
            return A[0] ** len(A)
        if len(A) == 2 and p[0] in ("add", "mul") and not isinstance(A[0], cls) and alt % 2:
            return A[0].__iadd__(A[1]) if p[0] == "add" else A[0].__imul__(A[1])
        return f(*A) if len(A) > 2 else cls(*A)
    if kind == "red":
        return getattr(A[0], p[0])()
    if kind == "psum":
        return A[0].sum(axis=p[0])
    if kind == "bidx":
        return index(A[0], [sl(x) for x in p[0]], alt)
    if kind == "aidx":
        ix = [slice(None) if x == ":" else A[1 + x] for x in p[0]]
        return index(A[0], ix, alt // 2) if alt % 2 else symbols.AdvancedIndexing(A[0], *ix)
    if kind == "perm":
        return symbols.Permutation(A[0], A[1])
    if kind == "reshape":
        return [lambda: symbols.Reshape(A[0], tuple(p[0])), lambda: A[0].reshape(tuple(p[0])), lambda: A[0].reshape(*p[0]) if p[0] else A[0].reshape([])][alt % 3]()
    if kind == "size":
        return A[0].size()
    if kind == "concat":
        return symbols.Concatenate(tuple(A), p[0]) if alt % 4 == 2 else dwo.concatenate([tuple, list][alt % 2](A), axis=p[0])
    if kind == "where":
        return dwo.where(*A)
    if kind == "qm":
        q = {}
        for u, v, b in p[0]:
            q[(u, v)] = q.get((u, v), 0) + b
        if alt % 3 == 1:
            lin = dict(p[1])
            lin = [lin.get(j, 0) for j in range(max(lin) + 1)] if lin else None
            return model.quadratic_model(A[0], ([b for _, _, b in p[0]], [[u for u, _, _ in p[0]], [v for _, v, _ in p[0]]]), lin)
        return model.quadratic_model(A[0], q, {v: b for v, b in p[1]} if p[1] else None)
    raise Bad(kind)


class M:
    def __init__(self):
        self.model, self.spec = Model(), Spec()
        self.sym, self.addr, self.lock = {}, Ids(), 0
        self.ctx = []
        self.st = []            # per state: decision -> value explicitly set
        self.maybe = []         # per state: decisions read at their default
        self.future = None
        self.version = 0
        self.log = {0: (Spec(), [])}


class Snap:
    """What a file must hold."""

    def __init__(self, spec, order, only_dec, nstates, st):
        self.spec, self.order, self.only_dec, self.nstates, self.st = spec, order, only_dec, nstates, st


REFUSED = (Exception,)


def short(e):
    return f"{type(e).__name__}: {str(e)[:120]}"


class Oom(Exception):
    """An operation ran out of memory, as planned."""


LIB = None


def faults():
    global LIB
    if LIB is None:
        LIB = ctypes.CDLL(os.path.join(os.path.dirname(symbols.__file__), "libdwave-optimization.so"))
        LIB.sim_arm.argtypes = [ctypes.c_long]
        LIB.sim_disarm.restype = ctypes.c_long
    return LIB


class World:
    def __init__(self, prop, stats):
        self.prop, self.stats = prop, stats
        self.m, self.slots = {}, {}
        self.h = hashlib.blake2b(digest_size=8)
        self.sigs = set()
        self.sched = None
        self.client = None
        self.scratch = None
        self.mut = self.steps = 0
        self.nfut = self.oom = 0
        self.pending, self.trace, self.tick = [], None, 0
        self.iters, self.views, self.kept = {}, [], []
        CLOCK.now = (2024, 5, 6, 7, 8, 10)

    # -- bookkeeping ------------------------------------------------------------------------------
    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def note(self, *x):
        self.h.update(repr(x).encode())

    def point(self, tag):
        if self.sched is not None and threading.current_thread() is not threading.main_thread():
            self.sched.point(self.tid(), tag)

    def tid(self):
        return threading.current_thread().name

    def fail(self, msg):
        raise Violation(msg)

    def get(self, m):
        if m not in self.m:
            self.m[m] = M()
        return self.m[m]

    def sign(self, o, op, outcome):
        pend = o is not None and o.future is not None
        key = (op, outcome, o is not None and min(o.lock, 2), o is not None and min(len(o.st), 3), pend,
               o is not None and min(sum(map(len, o.st)), 6), o is not None and len(o.spec.syms) // 4, o is not None and sum(1 for v in o.sym.values() if v is None) // 2)
        self.sigs.add(int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=6).digest(), "big"))

    # -- running ------------------------------------------------------------------------------------
    def run(self, prog):
        try:
            self._run(prog)
        except Stop:
            self.stat("stopped")
        finally:
            sys.settrace(None)
            if self.scratch:
                shutil.rmtree(self.scratch, ignore_errors=True)

    def _run(self, prog):
        clients, plan = {}, []
        for line in prog:
            if line[0] == "T":
                clients.setdefault(str(line[1]), []).append(line[2:])
            elif line[0] == "W":
                plan.append((str(line[1]), line[2], len(line) > 3))
        for line in prog:
            if line[0] in ("T", "W"):
                continue
            if line[0] == "GO":
                if clients:
                    import clients as cl
                    cl.go(self, clients, plan)
                    for data, snap in self.pending:
                        self.verify(data, snap, "a file saved beside other clients")
                    self.pending = []
                    clients = {}
                continue
            self.step(line)
        for id, got, was in self.kept:
            if not np.array_equal(got, was, equal_nan=True):
                self.fail(f"the array read from #{id} changed from {was.tolist()} to {got.tolist()} after it was read")
        if self.prop == "P17":
            self.step(["KV", 0])
            for k in list(self.iters):
                self.step(["NX", k, 1000])
            self.views, self.iters = [], {}
        if self.prop in ("P12", "P11", "P13", "P14", "P17"):
            for m in list(self.m):
                self.step(["CK", m])

    def step(self, line):
        op, a = line[0], line[1:]
        self.steps += 1
        self.stat("steps")
        try:
            out = getattr(self, "op_" + op)(*a)
        except Oom:
            out = self.after_oom(self.m[a[0]], op, a)
        o = self.m.get(a[0]) if a and isinstance(a[0], int) else None
        if op != "OM":
            self.oom = 0
        self.sign(o, op, out)
        self.note(op, out)
        if self.prop == "P14" and op in ("N", "K", "X", "L", "U", "RU", "MIX", "O", "C", "SV"):
            for k in self.m:
                self.structure(self.m[k])
        return out

    def attempt(self, o, f, touches=False):
        """Runs f; a hook that fails must surface here and nowhere else.  -> (result, exception)"""
        before = o.future
        k, self.oom = self.oom, 0
        if k and before is None:
            return self.starved(k, f)
        try:
            r, e = f(), None
        except (Violation, Stop):
            raise
        except BaseException as x:
            if isinstance(x, (KeyboardInterrupt, SystemExit)):
                raise
            r, e = None, x.with_traceback(None)     # a traceback would keep symbols referenced
            e.__context__ = None
        if before is not None:
            if before.failed is not None:
                if e is not before.failed:
                    self.fail(f"a failing retrieval did not reach the caller that triggered it ({'nothing raised' if e is None else short(e)})")
                self.stat("hook_failures")
            if touches and e is None and before.count != 1:
                self.fail(f"the states were used while a pending computation had been retrieved {before.count} times")
        elif isinstance(e, HookError):
            self.fail("the failure of an earlier retrieval was raised again")
        return r, e

    def starved(self, k, f):
        """Runs f with its k-th allocation failing."""
        lib = faults()
        try:
            lib.sim_arm(k)
            try:
                r, e = f(), None
            finally:
                hit = lib.sim_disarm()
        except (Violation, Stop):
            raise
        except Exception as x:
            r, e = None, x.with_traceback(None)
            e.__context__ = None
        if hit:
            self.stat("failed_allocations")
            if e is not None:
                raise Oom
        return r, e

    def op_OM(self, m, k):
        self.oom = k

    def after_oom(self, o, op, a):
        """What an operation that ran out of memory may leave behind: nothing but less than it was asked for."""
        if op in ("N", "K", "X") and o.model.num_symbols() != len(o.spec.syms):
            if op == "N" and a[2] in ("dbits", "dlists") or op == "K" or op == "N" and a[2] == "nary":
                raise Stop                  # made of several symbols
            self.fail("a symbol that could not be built for lack of memory was added all the same")
        if op == "N" and a[2] in ("dbits", "dlists"):
            raise Stop
        if op == "SS":
            i, id = a[1], a[2]
            if 0 <= i < len(o.st) and not o.sym[id].has_state(i):
                o.st[i].pop(id, None)
            if 0 <= i < len(o.st) and id not in o.st[i]:
                o.maybe[i].add(id)
        if op in ("RD", "FE", "INIT"):
            for i in range(len(o.st)):
                self.ref_read(o, i, o.spec.syms)
        if op == "RE" and 0 <= a[1] < len(o.st) and not o.sym[a[2]].has_state(a[1]):
            o.st[a[1]].pop(a[2], None)
        if op == "U" and o.lock == 1 and not o.model.is_locked():
            o.lock = 0
        if o.model.is_locked() != (o.lock > 0):
            self.fail(f"a model locked {o.lock} times reports is_locked()={o.model.is_locked()} after an operation ran out of memory")
        self.sizes(o)
        self.structure(o)
        for i in range(len(o.st)):
            for d, v in o.st[i].items():
                if o.sym.get(d) is not None and o.spec.syms[d].array:
                    got = o.sym[d].state(i)
                    if not o.spec.same(d, got, o.spec.ev(d, o.st[i], {})):
                        self.fail(f"after an operation ran out of memory, state {i} of #{d} reads {np.asarray(got).tolist()}")
        return "oom"

    # -- building -------------------------------------------------------------------------------------
    def op_N(self, m, id, kind, args, par):
        o = self.get(m)
        if any(a not in o.spec.syms for a in args) or any(o.sym.get(a) is None for a in args):
            return "skip"
        try:
            s = o.spec.make(id, kind, args, par)
        except Bad:
            return "skip"
        A = [o.sym[a] for a in args]
        before = o.model.num_symbols()
        r, e = self.attempt(o, lambda: build(o.model, kind, A, par, id))
        if o.lock:
            if e is None or o.model.num_symbols() != before:
                self.fail(f"a {kind} symbol was added to a locked model")
            return "locked"
        if e is not None:
            if o.model.num_symbols() != before and kind not in ("dbits", "dlists"):
                self.fail(f"a refused {kind} symbol was added all the same")
            if kind in ("dbits", "dlists"):
                self.fail(f"a {kind} symbol was refused: {short(e)}")
            if not isinstance(e, HookError) and self.surely(kind, par):
                self.fail(f"a legal {kind} {par if kind in ('un', 'bin', 'nary', 'red') else ''} symbol was refused by an unlocked model: {short(e)}")
            return "refused " + type(e).__name__
        if kind in ("dbits", "dlists"):
            new = [(id, s, r[0])]
            o.spec.syms[id] = s
            for i, x in enumerate(r[1:]):
                t = o.spec.make(id + 1 + i, "dbit" if kind == "dbits" else "dlist", [id], [i])
                new.append((id + 1 + i, t, x))
        else:
            new = [(id, s, r)]
        for i, t, x in new:
            o.spec.syms[i] = t
            o.sym[i] = x
            o.addr[x.id()] = i
            if type(x).__name__ != t.cls:
                self.fail(f"built a {type(x).__name__} where a {t.cls} was asked for")
        self.bump(o)
        self.stat("symbols", len(new))
        return "ok"

    def op_K(self, m, id, args, plan):
        """Basic and advanced indices in one bracket: two symbols."""
        o = self.get(m)
        if any(o.sym.get(a) is None for a in args) or id in o.spec.syms:
            return "skip"
        basic = [[None, None, None] if isinstance(x, str) else x for x in plan]
        if all(x == [None, None, None] for x in basic):
            return "skip"
        adv = [int(x[1:]) if isinstance(x, str) else ":" for x in plan if not isinstance(x, int)]
        try:
            s = o.spec.make(id, "bidx", args[:1], [basic])
            o.spec.syms[id] = s
            try:
                t = o.spec.make(id + 1, "aidx", [id, *args[1:]], [adv])
            finally:
                del o.spec.syms[id]
        except Bad:
            return "skip"
        A = [o.sym[a] for a in args]
        before = o.model.num_symbols()
        r, e = self.attempt(o, lambda: index(A[0], [A[1 + int(x[1:])] if isinstance(x, str) else sl(x) for x in plan], id))
        if o.lock:
            if e is None or o.model.num_symbols() != before:
                self.fail("an index symbol was added to a locked model")
            return "locked"
        if e is not None:
            if o.model.num_symbols() != before:
                raise Stop
            return "refused " + type(e).__name__
        if type(r).__name__ != "AdvancedIndexing":
            self.fail(f"mixed indices gave a {type(r).__name__}")
        b = next(r.iter_predecessors())
        if type(b).__name__ != "BasicIndexing" or o.model.num_symbols() != before + 2:
            self.fail(f"mixed indices gave an index of a {type(b).__name__} and {o.model.num_symbols() - before} symbols")
        for i, u, x in ((id, s, b), (id + 1, t, r)):
            o.spec.syms[i], o.sym[i], o.addr[x.id()] = u, x, i
        self.bump(o)
        self.stat("symbols", 2)
        return "ok"

    def surely(self, kind, par):
        """Kinds whose operands need nothing but the right shapes."""
        if self.prop not in ("P12", "P13", "P14"):
            return False
        return kind in ("binary", "integer", "list", "set", "const", "where", "concat", "size", "qm", "nary") or kind == "un" and par[0] != "sqrt" \
            or kind == "bin" and par[0] not in ("div", "mod") or kind == "red" and par[0] not in ("max", "min")

    def op_try_add(self, o, id, kind, args, par):
        if id in o.spec.syms or any(o.sym.get(a) is None for a in args):
            return "skip"
        try:
            s = o.spec.make(id, kind, args, par)
        except Bad:
            return "skip"
        try:
            x = build(o.model, kind, [o.sym[a] for a in args], par, id)
        except Exception:
            return "refused"
        o.spec.syms[id], o.sym[id], o.addr[x.id()] = s, x, id
        return "ok"

    def bump(self, o):
        o.version += 1
        if self.prop == "P15":
            o.log[o.version] = (o.spec.copy(), list(o.spec.syms))

    def op_X(self, m, id, arg):
        o = self.get(m)
        if o.sym.get(id) is None or o.sym.get(arg) is None or o.spec.syms[id].kind != "nary" or o.spec.syms[id].par[0] not in ("add", "mul"):
            return "skip"
        x, y, s = o.sym[id], o.sym[arg], o.spec.syms[id]
        cyc = id in o.spec.ancestors(arg)
        try:
            t = o.spec.extend(id, arg)
        except Bad:
            t = None
        # users of an extended symbol may need its old range: the reference leaves those alone
        used = any(id in z.args for z in o.spec.syms.values())
        if t is not None and used and (t.lo < s.lo or t.hi > s.hi or (s.fb is not None and t.fb != s.fb) or t.integral != s.integral):
            return "skip"
        if t is None and not cyc and not o.lock:
            return "skip"
        f = (lambda: x.__iadd__(y)) if s.par[0] == "add" else (lambda: x.__imul__(y))
        r, e = self.attempt(o, f)
        if o.lock or cyc:
            if e is None and r is x:
                self.fail("a symbol of a locked model was given another operand" if o.lock else "a symbol was made to depend on itself")
            if e is None:                      # a new symbol instead of an extension: also fine when unlocked
                if o.lock:
                    self.fail("a symbol was added to a locked model")
                return self.adopt_new(o, r)
            return "refused"
        if e is not None:
            return "refused " + type(e).__name__
        if r is not x:
            return self.adopt_new(o, r)
        o.spec.syms[id] = t
        self.bump(o)
        return "ok"

    def adopt_new(self, o, r):
        """The library answered with a symbol the reference did not ask for: follow its structure."""
        ids = [o.addr[p.id()] for p in r.iter_predecessors()]
        nid = max(o.spec.syms) + 1000
        kind = {"NaryAdd": ("nary", ["add"]), "NaryMultiply": ("nary", ["mul"]), "Add": ("bin", ["add"]), "Multiply": ("bin", ["mul"])}.get(type(r).__name__)
        if kind is None:
            self.fail(f"an in-place operation gave a {type(r).__name__}")
        try:
            t = o.spec.make(nid, kind[0], ids, kind[1])
        except Bad:
            raise Stop
        o.spec.syms[nid], o.sym[nid], o.addr[r.id()] = t, r, nid
        self.bump(o)
        return "new"

    def op_MIX(self, m, m2, what, a, b):
        """An operation on symbols of two models."""
        o, q = self.get(m), self.get(m2)
        if o is q or o.sym.get(a) is None or q.sym.get(b) is None:
            return "skip"
        x, y = o.sym[a], q.sym[b]
        if not o.spec.syms[a].array or not q.spec.syms[b].array:
            return "skip"
        n0, n1, c0, c1 = o.model.num_symbols(), q.model.num_symbols(), o.model.num_constraints(), q.model.num_constraints()
        f = {"add": lambda: x + y, "le": lambda: x <= y, "iadd": lambda: x.__iadd__(y), "imul": lambda: x.__imul__(y), "nary": lambda: dwo.add(x, x, y),
             "where": lambda: dwo.where(x, x, y), "concat": lambda: dwo.concatenate((x, y)), "aidx": lambda: symbols.AdvancedIndexing(x, y),
             "max": lambda: dwo.maximum(x, y), "and": lambda: dwo.logical_and(x, y), "min": lambda: o.model.minimize(y), "con": lambda: o.model.add_constraint(y),
             "perm": lambda: symbols.Permutation(x, y), "where2": lambda: dwo.where(y, x, x), "mod": lambda: x % y, "naryx": lambda: dwo.multiply(x, x, y)}[what]
        r, e = self.attempt(o, f)
        self.stat("cross_model")
        if e is None:
            self.fail(f"'{what}' mixed symbols of two models")
        if (o.model.num_symbols(), q.model.num_symbols(), o.model.num_constraints(), q.model.num_constraints()) != (n0, n1, c0, c1):
            self.fail(f"a refused '{what}' across models changed a model")
        return "refused"

    def op_O(self, m, id):
        o = self.get(m)
        if o.sym.get(id) is None or not o.spec.syms[id].scalar:
            return "skip"
        _, e = self.attempt(o, lambda: o.model.minimize(o.sym[id]))
        if e is None:
            o.spec.objective = id
            self.bump(o)
        elif not o.lock and not isinstance(e, HookError) and self.prop in ("P12", "P13", "P14"):
            self.fail(f"a scalar was refused as the objective: {short(e)}")
        return "ok" if e is None else "refused"

    def op_C(self, m, id):
        o = self.get(m)
        if o.sym.get(id) is None or not o.spec.syms[id].scalar or not o.spec.syms[id].logical:
            return "skip"
        _, e = self.attempt(o, lambda: o.model.add_constraint(o.sym[id]))
        if e is None:
            o.spec.constraints.append(id)
            self.bump(o)
        elif not o.lock and not isinstance(e, HookError) and self.prop in ("P12", "P13", "P14") and (o.spec.syms[id].kind == "binary" or o.spec.syms[id].kind == "bin" and o.spec.syms[id].par[0] in ("eq", "le")):
            self.fail(f"a scalar that is 0 or 1 was refused as a constraint: {short(e)}")
        return "ok" if e is None else "refused"

    def op_L(self, m):
        o = self.get(m)
        r, e = self.attempt(o, lambda: o.model.lock())
        if e is not None:
            return "refused"
        o.lock += 1
        if not o.model.is_locked():
            self.fail("a model is not locked after lock()")
        return o.lock

    def op_U(self, m):
        o = self.get(m)
        r, e = self.attempt(o, lambda: o.model.unlock())
        o.lock = max(0, o.lock - 1)
        if o.model.is_locked() != (o.lock > 0):
            self.fail(f"a model locked {o.lock} times reports is_locked()={o.model.is_locked()}")
        return o.lock

    # -- states ---------------------------------------------------------------------------------------
    def op_RS(self, m, n):
        o = self.get(m)
        _, e = self.attempt(o, lambda: o.model.states.resize(n), True)
        if e is not None:
            if n >= 0 and not isinstance(e, HookError):
                self.fail(f"resize({n}) failed: {short(e)}")
            return "refused"
        if n < 0:
            self.fail("a negative number of states was accepted")
        self.ref_resize(o, n)
        self.sizes(o)
        return n

    def ref_resize(self, o, n):
        while len(o.st) > n:
            o.st.pop()
            o.maybe.pop()
        while len(o.st) < n:
            o.st.append({})
            o.maybe.append(set())

    def sizes(self, o):
        if o.future is not None and o.future.count == 0:
            return
        if len(o.model.states) != len(o.st):
            self.fail(f"{len(o.model.states)} states where there should be {len(o.st)}")

    def op_SZ(self, m):
        o = self.get(m)
        r, e = self.attempt(o, lambda: o.model.states.size(), True)
        if e is None and r != len(o.st):
            self.fail(f"{r} states where there should be {len(o.st)}")
        return r

    def op_CL(self, m):
        o = self.get(m)
        _, e = self.attempt(o, lambda: o.model.states.clear(), True)
        if e is None:
            self.ref_resize(o, 0)
            self.sizes(o)
        return "ok" if e is None else "refused"

    def op_INIT(self, m):
        o = self.get(m)
        _, e = self.attempt(o, lambda: o.model.states.initialize(), True)
        if o.lock == 0:
            if e is None:
                self.fail("the states of an unlocked model were initialised")
            return "refused"
        if e is not None and not isinstance(e, HookError):
            self.fail(f"initialising the states failed: {short(e)}")
        if e is None:
            for i in range(len(o.st)):
                for d in o.spec.decisions():
                    if o.sym.get(d) is not None and not o.sym[d].has_state(i):
                        self.fail(f"all states were initialised, but decision #{d} has no state {i}")
                self.ref_read(o, i, o.spec.syms)
        return "ok"

    def op_SS(self, m, i, id, val):
        o = self.get(m)
        if o.sym.get(id) is None or not o.spec.syms[id].dec:
            return "skip"
        arg, mine = val, None
        if self.steps % 3 and o.spec.legal(id, val):
            # as an array the caller goes on to use
            mine = as_array(val, self.steps * 7 + id * 3)
            if mine is not None:
                arg = mine
        _, e = self.attempt(o, lambda: o.sym[id].set_state(i, arg), True)
        if mine is not None:
            mine[...] = 77 if mine.dtype != bool else ~mine
        return self.after_set(o, i, id, val, e)

    def after_set(self, o, i, id, val, e):
        if isinstance(e, HookError):
            return "hook"
        legal = o.spec.legal(id, val)
        if not 0 <= i < len(o.st):
            if e is None:
                self.fail(f"set_state({i}) accepted with {len(o.st)} states")
            return "range"
        if e is None:
            if not legal:
                self.fail(f"{o.spec.syms[id].kind} {o.spec.syms[id].par} accepted the value {str(val)[:80]}")
            o.st[i][id] = o.spec.norm(id, val)
            o.maybe[i].discard(id)
            self.mut += 1
            self.stat("sets")
            return "set"
        if legal:
            self.fail(f"{o.spec.syms[id].kind} {o.spec.syms[id].par} refused the value {str(val)[:80]}: {short(e)}")
        self.stat("refused_sets")
        if id in o.st[i] and not o.sym[id].has_state(i):
            del o.st[i][id]                # a refused value may leave the decision unset, nothing else
        o.maybe[i].add(id) if id not in o.st[i] else None
        return "refused"

    def op_RE(self, m, i, id):
        o = self.get(m)
        if o.sym.get(id) is None or not o.spec.syms[id].dec:
            return "skip"
        _, e = self.attempt(o, lambda: o.sym[id].reset_state(i), True)
        if isinstance(e, HookError):
            return "hook"
        if not 0 <= i < len(o.st):
            if e is None:
                self.fail(f"reset_state({i}) accepted with {len(o.st)} states")
            return "range"
        if e is not None:
            self.fail(f"reset_state failed: {short(e)}")
        o.st[i].pop(id, None)
        o.maybe[i].discard(id)
        self.mut += 1
        return "reset"

    def ref_read(self, o, i, ids):
        for id in ids:
            for d in o.spec.ancestors(id):
                if o.spec.syms[d].dec and d not in o.st[i]:
                    o.maybe[i].add(d)

    def expect(self, o, i, id):
        return o.spec.ev(id, o.st[i], {})

    def op_RD(self, m, i, id):
        o = self.get(m)
        s = o.spec.syms.get(id)
        if s is None or o.sym.get(id) is None or not s.array:
            return "skip"
        r, e = self.attempt(o, lambda: o.sym[id].state(i), s.kind != "const")
        return self.after_read(o, i, id, r, e)

    def after_read(self, o, i, id, r, e):
        s = o.spec.syms[id]
        if isinstance(e, HookError):
            return "hook"
        if s.kind == "const":
            if e is not None:
                return "refused"
            if not np.array_equal(r, self.expect_const(o, id)):
                self.fail(f"the constant #{id} reads {str(r)[:80]}")
            return "const"
        n = len(o.st)
        if not -n <= i < n:
            if e is None:
                self.fail(f"state {i} of {n} could be read")
            return "range"
        if not s.dec and o.lock == 0:
            if e is None:
                self.fail(f"an intermediate {s.kind} symbol of an unlocked model could be read")
            return "unlocked"
        if e is not None:
            self.fail(f"reading state {i} of {s.kind} #{id} failed: {short(e)}")
        j = i + n if i < 0 else i
        want = self.expect(o, j, id)
        self.stat("reads")
        if not o.spec.same(id, r, want):
            self.fail(f"state {i} of {s.cls} #{id} {s.par} reads {np.asarray(r).tolist()} but is {want.tolist()} by its definition")
        self.ref_read(o, j, [id])
        if self.prop in ("P12", "P17") and isinstance(r, np.ndarray):
            self.kept.append((id, r, np.array(r)))
            del self.kept[:-12]
        return "read"

    def expect_const(self, o, id):
        return o.spec.ev(id, {}, {})

    def op_HS(self, m, i, id):
        o = self.get(m)
        s = o.spec.syms.get(id)
        if s is None or o.sym.get(id) is None:
            return "skip"
        r, e = self.attempt(o, lambda: o.sym[id].has_state(i), s.dec or o.lock > 0)
        if isinstance(e, HookError):
            return "hook"
        n = len(o.st)
        if not s.dec and o.lock == 0:
            return "unlocked"
        if not -n <= i < n:
            if e is None:
                self.fail(f"has_state({i}) of {n} answered")
            return "range"
        if e is not None:
            self.fail(f"has_state failed: {short(e)}")
        j = i + n if i < 0 else i
        if s.dec and id in o.st[j] and not r:
            self.fail(f"decision #{id} was set in state {j} but has no state")
        if s.dec and id not in o.st[j] and id not in o.maybe[j] and r:
            self.fail(f"decision #{id} was not set in state {j} but has a state")
        return r

    def op_FE(self, m, i):
        o = self.get(m)
        if o.lock == 0:
            return "skip"
        r, e = self.attempt(o, lambda: o.model.feasible(i), bool(o.spec.constraints) and all(o.spec.syms[c].kind != "const" for c in o.spec.constraints))
        if isinstance(e, HookError):
            return "hook"
        n = len(o.st)
        if not -n <= i < n:
            return "range"
        if e is not None:
            self.fail(f"feasible({i}) failed: {short(e)}")
        j = i + n if i < 0 else i
        want = True
        for c in o.spec.constraints:
            self.ref_read(o, j, [c])
            if not self.expect(o, j, c):
                want = False
        if bool(r) != want:
            self.fail(f"feasible({i}) is {r}, the constraints say {want}")
        return want

    # -- references -----------------------------------------------------------------------------------
    def op_D(self, m, id):
        o = self.get(m)
        if id not in o.sym:
            return "skip"
        if id == o.spec.objective and False:
            return "skip"
        o.sym[id] = None
        self.stat("dropped")
        return "ok"

    def op_RF(self, m, id):
        """Takes a reference again, by walking the model."""
        o = self.get(m)
        if id not in o.spec.syms or o.sym.get(id) is not None:
            return "skip"
        for s in o.model.iter_symbols():
            if o.addr.get(s.id()) == id:
                o.sym[id] = s
                break
        return "ok"

    def unused(self, o):
        sp = o.spec
        keep = {i for i, s in sp.syms.items() if s.dec or s.fixed or o.sym.get(i) is not None}
        keep |= set(sp.constraints)
        keep |= {x.pin for x in self.iters.values() if x.o is o and x.pin is not None} | {id for q, id, _, _ in self.views if q is o}
        if sp.objective is not None:
            keep.add(sp.objective)
        need = set()
        for i in keep:
            need |= sp.ancestors(i)
        return [i for i in sp.syms if i not in need]

    def op_RU(self, m):
        o = self.get(m)
        before = o.model.num_symbols()
        want = self.unused(o) if not o.lock else []
        r, e = self.attempt(o, lambda: o.model.remove_unused_symbols())
        if o.lock:
            if e is None or o.model.num_symbols() != before:
                self.fail("symbols of a locked model were removed")
            return "locked"
        if e is not None:
            if isinstance(e, HookError):
                return "hook"
            self.fail(f"remove_unused_symbols failed: {short(e)}")
        if self.prop == "P13" and r != len(want):
            self.fail(f"remove_unused_symbols reports {r} removed, {len(want)} are unused")
        if before - o.model.num_symbols() != len(want):
            if self.prop != "P13":
                return "other"          # decided by P13; cannot go on from here
            self.fail(f"remove_unused_symbols removed {before - o.model.num_symbols()} symbols, {len(want)} are unused")
        for i in want:
            del o.spec.syms[i]
            o.sym.pop(i, None)
        o.addr = Ids((a, i) for a, i in o.addr.items() if i in o.spec.syms)
        self.stat("removed", len(want))
        if want:
            self.mut += 1
        self.bump(o)
        return len(want)

    # -- what the user holds: iterators, buffers, the model itself ---------------------------------------
    def walker(self, o, what, id):
        if what in ("pre", "suc"):
            return getattr(o.sym[id], "iter_predecessors" if what == "pre" else "iter_successors")()
        return getattr(o.model, {"sym": "iter_symbols", "dec": "iter_decisions", "con": "iter_constraints"}[what])()

    def op_IT(self, m, slot, what, id):
        """Starts to iterate."""
        o = self.get(m)
        self.iters.pop(slot, None)
        if what in ("pre", "suc") and o.sym.get(id) is None:
            return "skip"
        x = types.SimpleNamespace(o=o, what=what, id=id, pin=id if what in ("pre", "suc") else None, pos=0, plain=True,
                                  ids=[o.addr.get(s.id()) for s in self.walker(o, what, id)], it=self.walker(o, what, id))
        self.iters[slot] = x
        return self.advance(slot, 1)

    def op_NX(self, slot, n):
        return self.advance(slot, n) if slot in self.iters else "skip"

    def advance(self, slot, n):
        x = self.iters[slot]
        o, sp = x.o, x.o.spec
        if o.model is None:
            return "skip"
        for _ in range(n):
            # is what was there at the start still there, at the same places?
            now = None
            if x.pin is None or o.sym.get(x.id) is not None:
                now = [o.addr.get(s.id()) for s in self.walker(o, x.what, x.id)]
            x.plain = x.plain and now is not None and now[:len(x.ids)] == x.ids
            try:
                s = next(x.it, None)
            except Exception as e:
                if x.plain:
                    self.fail(f"an iterator over {x.what} failed although nothing was removed or reordered: {short(e)}")
                del self.iters[slot]
                return "error"
            i = None if s is None else o.addr.get(s.id())
            if s is not None:
                if i is None or i not in sp.syms:
                    self.fail(f"an iterator gave a {type(s).__name__} that is not in the model")
                if s.model is not o.model or type(s).__name__ != sp.syms[i].cls or s.expired():
                    self.fail(f"an iterator gave #{i} as a {type(s).__name__}")
            del s
            if x.plain and x.pos < len(x.ids) and i != x.ids[x.pos]:
                self.fail(f"an iterator over {x.what} {x.ids} gave {i} at place {x.pos} although nothing was removed or reordered")
            x.pos += 1
            self.stat("iterator_steps")
            if i is None or x.pos > len(sp.syms) + 200:
                del self.iters[slot]
                return "end"
        return "ok"

    def op_CV(self, m, id):
        """Holds on to the memory of a constant."""
        o = self.get(m)
        if o.sym.get(id) is None or o.spec.syms[id].kind != "const":
            return "skip"
        v = np.asarray(o.sym[id])
        self.views.append((o, id, v, self.expect_const(o, id)))
        return "ok"

    def op_KV(self, drop):
        for o, id, v, want in self.views:
            if v.shape != want.shape or not np.array_equal(v, want):
                self.fail(f"the memory of the constant #{id} reads {v.tolist()}, not {want.tolist()}")
        self.stat("view_checks", len(self.views))
        if drop and self.views:
            del self.views[drop % len(self.views)]
        return len(self.views)

    def op_DM(self, m):
        """Lets go of the model, but of nothing else."""
        o = self.get(m)
        ref, states = weakref.ref(o.model), o.model.states
        o.model = None
        gc.collect()
        s = next((s for s in o.sym.values() if s is not None), None)
        pinned = any(x.o is o for x in self.iters.values()) or any(q is o for q, _, _, _ in self.views)
        self.stat("models_dropped")
        if s is not None or pinned:
            o.model = ref()
            if o.model is None or s is not None and s.model is not o.model:
                self.fail("a model is gone although its symbols are still held")
            return "held"
        gone = ref() is None
        out = []
        for f in (lambda: states.size(), lambda: states.resize(2), lambda: states.initialize(), lambda: states.into_file(io.BytesIO()), lambda: states.to_file(),
                  lambda: states.clear(), lambda: len(states), lambda: states.from_future(None, lambda *_: None), lambda: states.size()):
            try:
                f()
                out.append("ok")
            except Exception as e:
                out.append(type(e).__name__)
        self.m.pop(m)
        return [gone, *out]

    # -- sweeps ---------------------------------------------------------------------------------------
    def exported(self, o):
        """The graph handed to NetworkX has the model's symbols, edges, objective and constraints."""
        if networkx is None:
            return
        G = o.model.to_networkx()
        name, s = {}, None
        for s in o.model.iter_symbols():
            name[o.addr[s.id()]] = repr(s)
        del s
        if len(set(name.values())) != len(name):
            self.fail("two symbols have the same representation")
        own = set(name.values())
        if own - set(G.nodes):
            self.fail("a symbol is missing from the exported graph")
        want = sorted((name[p], name[i]) for i in name for p in o.spec.syms[i].args)
        got = sorted((a, b) for a, b in G.edges() if a in own and b in own)
        if got != want:
            self.fail("the exported graph has other edges than the model")
        rest = sorted(a for a, b in G.edges() if b not in own)
        goals = ([name[o.spec.objective]] if o.spec.objective is not None else []) + [name[c] for c in o.spec.constraints]
        if rest != sorted(goals):
            self.fail("the exported graph has other goals than the model")
        self.stat("exported_graphs")

    def structure(self, o):
        mod, sp = o.model, o.spec
        if mod.is_locked() != (o.lock > 0):
            self.fail(f"a model locked {o.lock} times reports is_locked()={mod.is_locked()}")
        seen, s = [], None
        pred, succ = {}, {}
        for s in mod.iter_symbols():
            i = o.addr.get(s.id())
            if i is None or i not in sp.syms:
                self.fail(f"the model lists a {type(s).__name__} nobody built")
            seen.append(i)
            if type(s).__name__ != sp.syms[i].cls:
                self.fail(f"#{i} is listed as a {type(s).__name__}, not a {sp.syms[i].cls}")
            pred[i] = [o.addr.get(p.id()) for p in s.iter_predecessors()]
            succ[i] = [o.addr.get(p.id()) for p in s.iter_successors()]
            if o.lock and s.topological_index() != len(seen) - 1:
                self.fail(f"#{i} is at place {len(seen) - 1} but has index {s.topological_index()}")
        del s
        if sorted(seen) != sorted(sp.syms):
            self.fail(f"the model lists {len(seen)} symbols, {sorted(set(sp.syms) - set(seen))[:5]} missing, {sorted(set(seen) - set(sp.syms))[:5]} unexpected")
        want_succ = {i: [] for i in seen}
        for i in seen:
            if pred[i] != sp.syms[i].args:
                self.fail(f"#{i} {sp.syms[i].cls} has operands {pred[i]}, built with {sp.syms[i].args}")
            for p in pred[i]:
                want_succ[p].append(i)
        for i in seen:
            if sorted(x if x is not None else -1 for x in succ[i]) != sorted(want_succ[i]):
                self.fail(f"#{i} {sp.syms[i].cls} lists users {sorted(succ[i], key=str)}, its users are {sorted(want_succ[i])}")
        decs = sp.decisions()
        if [o.addr.get(d.id()) for d in mod.iter_decisions()] != decs:
            self.fail(f"the decisions are listed as {[o.addr.get(d.id()) for d in mod.iter_decisions()]}, created as {decs}")
        if o.lock:
            pos = {i: k for k, i in enumerate(seen)}
            for i in seen:
                for p in pred[i]:
                    if pos[p] >= pos[i]:
                        self.fail(f"#{i} is listed before its operand #{p}")
            if seen[:len(decs)] != decs:
                self.fail(f"a locked model starts with {seen[:len(decs)]}, its decisions are {decs}")
        obj = mod.objective
        if (o.addr.get(obj.id()) if obj is not None else None) != sp.objective:
            self.fail("the objective changed")
        if [o.addr.get(c.id()) for c in mod.iter_constraints()] != sp.constraints:
            self.fail("the constraints changed")
        if (mod.num_symbols(), mod.num_decisions(), mod.num_constraints(), mod.num_edges()) != (len(seen), len(decs), len(sp.constraints), sum(map(len, pred.values()))):
            self.fail("the model's counts do not match its symbols")
        self.stat("structure_checks")
        return seen

    def op_CK(self, m):
        o = self.get(m)
        if o.future is not None and o.future.count == 0:
            self.op_SZ(m)
        self.structure(o)
        if self.prop == "P14":
            self.exported(o)
            return "ok"
        self.sizes(o)
        own = False
        if not o.lock:
            o.model.lock()
            o.lock += 1
            own = True
        try:
            for i in range(len(o.st)):
                memo, s = {}, None
                for s in o.model.iter_symbols():
                    id = o.addr[s.id()]
                    sp = o.spec.syms[id]
                    if sp.dec:
                        h = s.has_state(i)
                        if id in o.st[i] and not h:
                            self.fail(f"decision #{id} was set in state {i} but has no state")
                        if id not in o.st[i] and id not in o.maybe[i] and h:
                            self.fail(f"decision #{id} was not set in state {i} but has a state")
                for s in o.model.iter_symbols():
                    id = o.addr[s.id()]
                    sp = o.spec.syms[id]
                    if not sp.array:
                        continue
                    want = o.spec.ev(id, o.st[i], memo)
                    try:
                        got = s.state(i)
                    except Exception as e:
                        self.fail(f"reading state {i} of {sp.kind} #{id} failed: {short(e)}")
                    if not o.spec.same(id, got, want):
                        self.fail(f"state {i} of {sp.cls} #{id} {sp.par} reads {np.asarray(got).tolist()} but is {want.tolist()} by its definition")
                    self.stat("reads")
                del s
                self.ref_read(o, i, o.spec.syms)
        finally:
            if own:
                o.lock -= 1
                o.model.unlock()
        if o.model.is_locked() != (o.lock > 0):
            self.fail("a model is locked after its last unlock")
        return "ok"

    # -- files ----------------------------------------------------------------------------------------
    def snapshot(self, o, only_dec, nstates):
        """Taken before a save; the order is what a locked model lists."""
        o.model.lock()
        try:
            order = [o.addr[s.id()] for s in o.model.iter_symbols()]
            n = len(o.st)
            ns = max(0, min(n, nstates))
            st = []
            for i in range(ns):
                d = {}
                for s in o.model.iter_decisions():
                    id = o.addr[s.id()]
                    if s.has_state(i):
                        d[id] = o.st[i].get(id)
                        if d[id] is None:
                            d[id] = o.spec.default(id)
                st.append(d)
        finally:
            o.model.unlock()
        if only_dec:
            order = order[:len(o.spec.decisions())]
        return Snap(o.spec.copy(), order, only_dec, ns, st)

    def state_dump(self, o):
        """Everything observable of a model that a failing operation must leave alone."""
        d = [o.model.is_locked(), len(o.model.states), o.model.num_symbols(), o.model.num_constraints()]
        for s in o.model.iter_decisions():
            for i in range(len(o.model.states)):
                h = s.has_state(i)
                d.append(h)
                if h and hasattr(s, "state"):
                    d.append(s.state(i).tolist())
        return d

    def tmpdir(self):
        if self.scratch is None:
            self.scratch = tempfile.mkdtemp(prefix="dwopy-")
        return self.scratch

    def op_SV(self, m, slot, how, only_dec, nstates, plan, seekable=True):
        """Saves to a slot; with faults, either it fails and nothing changed or the file is right."""
        o = self.get(m)
        if o.future is not None and o.future.count == 0:
            # pending states: the snapshot cannot be taken before the save resolves them
            return self.save_pending(o, slot, how, only_dec, nstates)
        if how in ("st_into", "st_to"):
            only_dec, nstates = True, len(o.st)
        snap = self.snapshot(o, only_dec, nstates)
        dump = self.state_dump(o)
        lock0 = o.lock
        data, e, hits = self.save_bytes(o.model, how, only_dec, nstates, plan, seekable)
        if o.model.is_locked() != (lock0 > 0):
            self.fail(f"a model locked {lock0} times reports is_locked()={o.model.is_locked()} after a save{' that failed' if e else ''}")
        if self.state_dump(o) != dump:
            self.fail("a save changed the model or its states")
        if e is not None and (not plan or not hits and any(p[0] == "a" for p in plan)):
            self.fail(f"a save failed: {short(e)}")
        if e is None:
            self.slots[slot] = (data, snap)
            self.stat("saves")
            if plan and hits:
                self.verify(data, snap, "a save met a fault and reported success, but its file")
            return "saved"
        self.stat("failed_saves")
        if self.prop == "P09":
            # the same save again, with the fault gone, succeeds and is complete
            data, e, _ = self.save_bytes(o.model, how, only_dec, nstates, (), True)
            if e is not None:
                self.fail(f"after a failed save the next one fails too: {short(e)}")
            self.slots[slot] = (data, snap)
            self.structure(o)
        return "failed"

    def save_bytes(self, model, how, only_dec, nstates, plan, seekable, tag="f"):
        clock = [p for p in plan if p[0] == "clock"]
        starve = next((p[1] for p in plan if p[0] == "a"), 0)
        plan = [p for p in plan if p[0] not in ("clock", "a")]
        old = CLOCK.now
        if clock:
            CLOCK.now = tuple(clock[0][1])
            self.stat("clock_jumps")
        f, hits, data, e, lost = None, 0, None, None, []
        try:
            if how in ("file", "st_into", "behind"):
                old_data = b""
                if how == "behind":
                    old_data = (b"what was there before" * 9)[self.steps % 180:]
                f = SimFile(self, at(old_data, len(old_data)), plan, seekable, tag)
                with self.starving(starve) as lost:
                    if how == "st_into":
                        model.states.into_file(f)
                    else:
                        model.into_file(f, max_num_states=nstates, only_decision=only_dec)
                data = f.bytes()
                if old_data:
                    if data[:len(old_data)] != old_data:
                        self.fail("a save overwrote what the file held before its position")
                    data = at(data, len(old_data))
            elif how == "path":
                p = os.path.join(self.tmpdir(), "model.nl")
                if plan:
                    p = os.path.join(self.tmpdir(), "missing", "model.nl")
                    hits = 1
                    self.stat("file_enoent")
                with self.starving(starve) as lost:
                    model.into_file(p, max_num_states=nstates, only_decision=only_dec)
                with open(p, "rb") as g:
                    data = g.read()
            else:
                import dwave.optimization.model as mm
                made = []

                class TF:
                    @staticmethod
                    def TemporaryFile(*a, **k):
                        made.append(SimFile(self, b"", plan, True, tag))
                        return made[-1]
                keep = mm.tempfile
                mm.tempfile = TF
                try:
                    with self.starving(starve) as lost:
                        g = model.states.to_file() if how == "st_to" else model.to_file(max_num_states=nstates, only_decision=only_dec)
                finally:
                    mm.tempfile = keep
                    f = made[-1] if made else None
                g.plan = {}
                data = g.read()
        except (Violation, Stop):
            raise
        except Exception as x:
            e = x
        finally:
            CLOCK.now = old
        if f is not None:
            hits += f.hits
        return data, e, hits + len(lost)

    @contextlib.contextmanager
    def starving(self, k):
        """The k-th allocation of the library fails inside."""
        lost = []
        if not k:
            yield lost
            return
        lib = faults()
        lib.sim_arm(k)
        try:
            yield lost
        finally:
            if lib.sim_disarm():
                lost.append(k)
                self.stat("failed_allocations")

    def save_pending(self, o, slot, how, only_dec, nstates):
        """A save that retrieves a pending computation: the file holds the states retrieved."""
        own = how not in ("st_into", "st_to")       # a save of the model locks it before it asks for the states

        def save():
            data, e, _ = self.save_bytes(o.model, how, only_dec, nstates, (), True)
            if e is not None:
                raise e
            return data
        o.lock += own
        data, e = self.attempt(o, save, True)
        o.lock -= own
        if o.model.is_locked() != (o.lock > 0):
            self.fail(f"a model locked {o.lock} times reports is_locked()={o.model.is_locked()} after a save{' that failed' if e else ''}")
        if e is not None:
            if isinstance(e, HookError):
                return "hook"
            self.fail(f"a save failed: {short(e)}")
        if not own:
            only_dec, nstates = True, len(o.st)
        snap = self.snapshot(o, only_dec, nstates)
        self.verify(data, snap, "a file saved while a computation was pending")
        self.slots[slot] = (data, snap)
        return "saved"

    def load(self, data, plan=(), seekable=True, how="file"):
        if how == "path" and not getattr(data, "at", 0):
            p = os.path.join(self.tmpdir(), "load.nl")
            with open(p, "wb") as g:
                g.write(data)
            return Model.from_file(p, check_header=self.steps % 5 != 2)
        return Model.from_file(SimFile(self, data, plan, True), check_header=self.steps % 5 != 2)

    def op_LD(self, slot, dmg, plan, how="file"):
        if slot not in self.slots:
            return "skip"
        data, snap = self.slots[slot]
        bad = damage(data, dmg) if dmg else data
        for d in dmg:
            self.stat("damage_" + d[0])
        try:
            mod = self.load(bad, plan, True, how)
        except (Violation, Stop):
            raise
        except Exception as e:
            if not dmg and not plan:
                self.fail(f"loading a saved model failed: {short(e)}")
            self.stat("refused_loads")
            return "refused " + type(e).__name__
        self.stat("loads")
        msg = self.match(mod, snap)
        if msg:
            self.fail(("a damaged file" if bad != data else "a file read with I/O faults" if plan else "a saved model") + " loads as another model: " + msg)
        if self.prop == "P08":
            msg = self.resave(data, snap)
            if msg:
                self.fail("saving a loaded model again: " + msg)
        return "loaded"

    def verify(self, data, snap, what):
        try:
            mod = self.load(data)
        except Exception as e:
            self.fail(f"{what} cannot be loaded: {short(e)}")
        msg = self.match(mod, snap)
        if msg:
            self.fail(f"{what} loads as another model: {msg}")

    def resave(self, data, snap):
        if snap.only_dec and any(snap.spec.syms[d].kind in ("dbits", "dlists") for st in snap.st for d in st):
            return None        # their values can only be read through members that were not saved: refused
        f = SimFile(self)
        try:
            mod = self.load(data)
            idof = Ids((s.id(), i) for s, i in zip(mod.iter_symbols(), snap.order))
            with mod.lock():
                order = [idof[s.id()] for s in mod.iter_symbols()]
            mod.into_file(f, max_num_states=snap.nstates)
            mod = self.load(f.bytes())
        except Exception as e:
            return short(e)
        return self.match(mod, Snap(snap.spec, order, snap.only_dec, snap.nstates, snap.st))

    def match(self, mod, snap):
        """None if mod is the model and states of snap, else what differs."""
        sp = snap.spec
        syms = list(mod.iter_symbols())
        if len(syms) != len(snap.order):
            return f"{len(syms)} symbols instead of {len(snap.order)}"
        if mod.is_locked():
            return "it is locked"
        order = snap.order
        idof = Ids((s.id(), i) for s, i in zip(syms, order))
        for s, i in zip(syms, order):
            t = sp.syms[i]
            if type(s).__name__ != t.cls:
                return f"#{i} is a {type(s).__name__} instead of a {t.cls}"
            if [idof[p.id()] for p in s.iter_predecessors()] != t.args:
                return f"#{i} {t.cls} has operands {[idof[p.id()] for p in s.iter_predecessors()]} instead of {t.args}"
            if t.array and tuple(s.shape()) != t.shape:
                return f"#{i} {t.cls} has shape {s.shape()} instead of {t.shape}"
            if t.kind == "integer" and (s.lower_bound(), s.upper_bound()) != (t.lo, t.hi):
                return f"#{i} has bounds {(s.lower_bound(), s.upper_bound())} instead of {(t.lo, t.hi)}"
        decs = [i for i in order if sp.syms[i].dec]
        if [idof[d.id()] for d in mod.iter_decisions()] != decs or decs != sp.decisions():
            return "the decisions are in another order"
        inside = set(order)
        obj = sp.objective if sp.objective in inside else None
        if (idof[mod.objective.id()] if mod.objective is not None else None) != obj:
            return "the objective differs"
        if [idof[c.id()] for c in mod.iter_constraints()] != [c for c in sp.constraints if c in inside]:
            return "the constraints differ"
        if len(mod.states) != snap.nstates:
            return f"{len(mod.states)} states instead of {snap.nstates}"
        for i in range(snap.nstates):
            have = {idof[d.id()] for d in mod.iter_decisions() if d.has_state(i)}
            if have != set(snap.st[i]):
                return f"state {i} has values for the decisions {sorted(have)} instead of {sorted(snap.st[i])}"
        mod.states.resize(snap.nstates + 1)
        extra = self.random_state(sp, snap)
        for d in mod.iter_decisions():
            d.set_state(snap.nstates, extra[idof[d.id()]])
        extra = {k: sp.norm(k, v) for k, v in extra.items()}
        mod.lock()
        try:
            for i in range(snap.nstates + 1):
                dec, memo = (snap.st[i] if i < snap.nstates else extra), {}
                for s in mod.iter_symbols():
                    j = idof[s.id()]
                    if sp.syms[j].array:
                        got, want = s.state(i), sp.ev(j, dec, memo)
                        if not sp.same(j, got, want):
                            return f"state {i} of {sp.syms[j].cls} #{j} {sp.syms[j].par} reads {np.asarray(got).tolist()} instead of {want.tolist()}"
        finally:
            mod.unlock()
        for d in mod.iter_decisions():
            j = idof[d.id()]
            for v in illegal_values(sp, j):
                try:
                    d.set_state(snap.nstates, v)
                except Exception:
                    continue
                return f"{sp.syms[j].cls} #{j} {sp.syms[j].par} accepts {str(v)[:60]}"
        mod.states.resize(snap.nstates)
        return None

    def random_state(self, sp, snap):
        r = random.Random(len(snap.order) * 7919 + snap.nstates)
        return {d: random_value(r, sp, d) for d in sp.decisions()}

    # -- states from files ------------------------------------------------------------------------------
    def op_SL(self, m, slot, dmg, plan):
        """states.from_file: the states of the file if they fit, else an error and nothing changed."""
        o = self.get(m)
        if slot not in self.slots:
            return "skip"
        pending = o.future is not None and o.future.count == 0
        if pending and (self.prop != "P11" or dmg or plan):
            return "skip"
        data, snap = self.slots[slot]
        bad = damage(data, dmg) if dmg else data
        for d in dmg:
            self.stat("damage_" + d[0])
        mine, theirs = o.spec.decisions(), snap.spec.decisions()
        equal = [self.decl(o.spec, i) for i in mine] == [self.decl(snap.spec, i) for i in theirs]
        fits = len(mine) == len(theirs) and all(self.compatible(o.spec.syms[a], snap.spec.syms[b]) for a, b in zip(mine, theirs)) \
            and all(o.spec.legal(a, st[b]) for st in snap.st for a, b in zip(mine, theirs) if b in st)
        same_model = equal and self.same_model(o, snap)
        if pending and not same_model:
            return "skip"
        dump = self.state_dump(o) if not pending else None
        if not pending and self.steps % 6 == 3:
            try:
                o.model.states.from_file(SimFile(self, data), replace=False)
                raise Stop                # the reference has no such thing
            except NotImplementedError:
                pass
            if self.state_dump(o) != dump:
                self.fail("a refused load of states changed the model's own states")
        try:
            if pending:                       # loading touches the states: the computation comes first
                _, e = self.attempt(o, lambda: o.model.states.from_file(SimFile(self, bad, plan, True)), True)
                if isinstance(e, HookError):
                    return "hook"
                if e is not None:
                    self.fail(f"states saved from an equal model were refused while a computation was pending: {short(e)}")
                self.stat("loads_while_pending")
            else:
                file = SimFile(self, bad, plan, True)
                if not plan and self.steps % 4 == 1:
                    file = os.path.join(self.tmpdir(), "states.nl")
                    with open(file, "wb") as g:
                        g.write(bad[getattr(bad, "at", 0):])
                o.model.states.from_file(file, check_header=self.steps % 5 != 2)
        except (Violation, Stop):
            raise
        except Exception as e:
            if same_model and bad == data and not plan:
                self.fail(f"states saved from an equal model were refused: {short(e)}")
            if self.state_dump(o) != dump:
                self.fail("a refused load of states changed the model's own states")
            self.stat("refused_loads")
            return "refused " + type(e).__name__
        if not fits:
            why = "in number" if len(mine) != len(theirs) else "in kind, shape or allowed values"
            self.fail(f"states that do not fit the model's decisions {why} were accepted")
        self.ref_resize(o, 0)
        self.ref_resize(o, snap.nstates)
        for i, st in enumerate(snap.st):
            for a, b in zip(mine, theirs):
                if b in st:
                    o.st[i][a] = o.spec.norm(a, st[b])
        self.stat("state_loads")
        self.mut += 1
        self.op_CK(m)
        return "loaded"

    def decl(self, sp, i):
        s = sp.syms[i]
        return (s.kind, s.shape, s.lo, s.hi, s.par if s.kind not in ("binary", "integer") else None)

    def compatible(self, a, b):
        return a.cls == b.cls and (a.shape == b.shape or a.kind == "set") and (a.kind not in ("dlists", "dbits") or a.par == b.par)

    def same_model(self, o, snap):
        key = lambda sp: [(k, s.cls, s.args, s.par) for k, s in sp.syms.items()]
        return key(o.spec) == key(snap.spec)

    # -- futures --------------------------------------------------------------------------------------
    def op_FU(self, m, plan):
        o = self.get(m)
        w = self

        class Fut:
            def __init__(self):
                self.count, self.failed, self.plan, self.inside = 0, None, plan, False

            def result(self):
                self.count += 1
                return self.plan
        fut = Fut()
        self.nfut += 1

        def hook(model, future):
            if model is not o.model:
                w.fail("a result was delivered to another model")
            if future is not fut:
                w.fail("a hook was given another computation")
            p = future.result()
            if fut.count != 1:
                w.fail("a result was retrieved more than once")
            w.stat("hooks")
            if o.future is fut:
                o.future = None
            for sub in p:
                if sub[0] == "raise":
                    fut.failed = HookError("simulated failure")
                    raise fut.failed
                w.step([sub[0], m, *sub[1:]])
            w.mut += 1
        old = o.future
        _, e = self.attempt(o, lambda: o.model.states.from_future(fut, hook), True)
        if e is not None:
            if isinstance(e, HookError):
                return "hook"
            self.fail(f"from_future failed: {short(e)}")
        if old is not None and old.count != 1:
            self.fail(f"a computation was replaced after being retrieved {old.count} times")
        self.ref_resize(o, 0)
        o.future = fut
        self.stat("futures")
        return "ok"


def random_value(r, sp, d):
    s = sp.syms[d]
    if s.kind in ("binary", "integer"):
        hi = min(s.hi, s.lo + 40) if r.random() < .9 else s.hi
        return np.array([r.randint(s.lo, hi) for _ in range(s.size())], dtype=float).reshape(s.shape).tolist()
    if s.kind == "list":
        v = list(range(s.par[0]))
        r.shuffle(v)
        return v
    if s.kind == "set":
        n, a, b = s.par
        return r.sample(range(n), r.randint(a, b))
    n, k = s.par
    where = [r.randrange(k) for _ in range(n)]
    if s.kind == "dbits":
        return [[1 if w == j else 0 for w in where] for j in range(k)]
    order = list(range(n))
    r.shuffle(order)
    return [[x for x in order if where[x] == j] for j in range(k)]


def illegal_values(sp, d):
    s = sp.syms[d]
    if s.kind in ("binary", "integer"):
        if s.size():
            yield np.full(s.shape, s.hi + 1).tolist()
            yield np.full(s.shape, s.lo - 1).tolist()
        yield [s.lo] * (s.size() + 1)
    elif s.kind == "list":
        n = s.par[0]
        yield list(range(n + 1))
        if n:
            yield list(range(n - 1))
            yield [0] * n if n > 1 else [1]
    elif s.kind == "set":
        n, a, b = s.par
        yield list(range(b + 1))
        if a:
            yield list(range(a - 1))
        if b:
            yield [n] + list(range(max(a, 1) - 1))
    else:
        n, k = s.par
        if n:
            yield [[] for _ in range(k)] if s.kind == "dlists" else [[0] * n for _ in range(k)]
        yield ([list(range(n))] if s.kind == "dlists" else [[1] * n]) + [[] if s.kind == "dlists" else [0] * n] * k
