"""Several clients sharing models: each is a real thread, exactly one runs at a time, and the baton
may change hands at every file operation and at every line of Python the library runs."""
import os
import sys
import threading

import numpy as np

import dwave.optimization.model as mm
from dwave.optimization import Model
from world import SimFile, Snap, Violation, short

HERE = os.path.dirname(os.path.abspath(__file__))
TRACED = ("zipfile", "dwave/optimization", "contextlib.py", "json/encoder.py", "numpy/lib")


class ClientFile(SimFile):
    def __init__(self, world, o, plan, tag, shared):
        super().__init__(world, b"", plan, True, tag)
        self.o, self.shared, self.snap, self.t0, self.t1 = o, shared, None, 0, 0

    def _hit(self, op):
        if op == "w":
            if not self.o.model.is_locked():
                self.w.fail(f"the model is not locked while a client saves it (write {self.n.get('w', 0) + 1})")
            self.w.tick += 1
            self.t1 = self.w.tick
            if self.snap is None:
                self.t0 = self.t1
                self.snap = (self.o.spec.copy(), [self.o.addr.get(s.id()) for s in self.o.model.iter_symbols()])
        return super()._hit(op)


def go(w, clients, plan):
    from world import Sched
    sched = Sched(plan)
    w.sched = sched
    shared = {m: {"inside": 0, "active": 0, "adds": []} for m in w.m}
    w.stat("clients", len(clients))
    made = threading.local()

    class TF:
        @staticmethod
        def TemporaryFile(*a, **k):
            made.f = ClientFile(w, made.o, made.plan, "t", made.shared)
            return made.f

    def tracer(name):
        def make(hot):
            def local(frame, event, arg):
                if event == "line":
                    w.stat("points")
                    sched.point(name, f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}", hot)
                return local
            return local
        cold, warm = make(False), make(True)

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn.startswith(HERE):
                return None
            if any(t in fn for t in TRACED):
                hot = "dwave/optimization" in fn or "contextlib.py" in fn
                sched.point(name, frame.f_code.co_name, hot)
                return warm if hot else cold
            return None
        return glob

    def job(name, ops):
        def f():
            for op in ops:
                sched.point(name, op[0], True)
                run_op(w, name, op, shared, made)
        return f
    keep = mm.tempfile
    mm.tempfile = TF
    try:
        errs = sched.run({n: job(n, ops) for n, ops in sorted(clients.items())}, tracer)
    finally:
        mm.tempfile = keep
        w.sched = None
    w.stat("switches", sched.switches)
    w.stat("points", sched.points)
    w.note(sched.trace.hexdigest())
    w.trace = sched.trace.hexdigest() if sched.switches else None
    for n in sorted(errs):
        e = errs[n]
        if isinstance(e, Violation):
            raise e
    for n in sorted(errs):
        raise errs[n]
    for m, o in w.m.items():
        if o.model.is_locked() != (o.lock > 0):
            w.fail(f"every client is done, the model was locked {o.lock} times by its owner, and is_locked() is {o.model.is_locked()}")
        w.structure(o)


def run_op(w, name, op, shared, made):
    kind, a = op[0], op[1:]
    if kind == "load":
        slot = a[0]
        if slot not in w.slots:
            return
        data, snap = w.slots[slot]
        try:
            mod = Model.from_file(SimFile(w, data, (), True, "l"))
        except Exception as e:
            w.fail(f"a client could not load a file: {short(e)}")
        msg = w.match(mod, snap)
        if msg:
            w.fail("a client loaded another model: " + msg)
        w.stat("loads")
        return
    m = a[0]
    if m not in w.m:
        return
    o, sh = w.m[m], shared[m]
    if kind == "save":
        how, only_dec, ns, plan = a[1:5]
        if how in ("st_into", "st_to"):
            only_dec, ns = True, len(o.st)
        sh["active"] += 1
        f, e, data = None, None, None
        try:
            if how in ("file", "st_into"):
                f = ClientFile(w, o, plan, "c", sh)
                o.model.into_file(f, max_num_states=ns, only_decision=only_dec) if how == "file" else o.model.states.into_file(f)
                data = f.bytes()
            else:
                made.o, made.plan, made.shared, made.f = o, plan, sh, None
                g = o.model.to_file(max_num_states=ns, only_decision=only_dec) if how == "file2" else o.model.states.to_file()
                f = made.f
                data = g.bytes()
        except Violation:
            raise
        except Exception as x:
            e = x
            f = f or made.f
        finally:
            sh["active"] -= 1
        if f is not None and any(f.t0 < t < f.t1 for t in sh["adds"]):
            w.fail("a symbol was added while a client was saving the model")
        if e is not None:
            if not (f is not None and f.hits):
                w.fail(f"a client's save failed: {short(e)}")
            w.stat("failed_saves")
            w.note("failed", type(e).__name__)
            return
        sp, order = f.snap
        if only_dec:
            order = order[:len(sp.decisions())]
        k = max(0, min(len(o.st), ns))
        st = [dict(o.st[i]) for i in range(k)]
        w.stat("saves")
        w.note("saved", len(data))
        w.mut += 1
        w.pending.append((data, Snap(sp, order, only_dec, k, st)))
        return
    if kind == "read":
        i, ids = a[1:3]
        if not 0 <= i < len(o.st):
            return
        sh["active"] += 1
        cm = o.model.lock()
        sh["inside"] += 1
        cm.__enter__()
        try:
            for id in ids:
                w.point("read")
                if o.sym.get(id) is None or not o.spec.syms[id].array:
                    continue
                try:
                    got = o.sym[id].state(i)
                except Exception as e:
                    w.fail(f"a client holding the lock could not read #{id}: {short(e)}")
                want = o.spec.ev(id, o.st[i], {})
                if not o.spec.same(id, got, want):
                    w.fail(f"a client read {np.asarray(got).tolist()} for {o.spec.syms[id].cls} #{id}, it is {want.tolist()}")
                w.stat("reads")
            if not o.model.is_locked():
                w.fail("the model was unlocked under a client that had locked it")
            w.point("leave")
        finally:
            sh["inside"] -= 1
            cm.__exit__(None, None, None)
            sh["active"] -= 1
        return
    if kind == "walk":
        sh["active"] += 1
        with o.model.lock():
            sh["inside"] += 1
            ids = []
            for s in o.model.iter_symbols():
                w.point("walk")
                ids.append(o.addr.get(s.id()))
                if s.topological_index() != len(ids) - 1:
                    w.fail("a client walking the locked model met symbols out of order")
            if len(ids) != o.model.num_symbols():
                w.fail("a symbol was added under a client walking the locked model")
            sh["inside"] -= 1
        sh["active"] -= 1
        return
    if kind == "add":
        id, k, args, par = a[1:5]
        out = w.op_try_add(o, id, k, args, par)
        w.tick += 1
        if out == "ok":
            sh["adds"].append(w.tick)
            if sh["inside"]:
                w.fail("a symbol was added while a client was reading the locked model")
        if out == "refused" and not sh["active"] and not o.lock:
            w.fail("every client is done with the model, but it is still locked")
        w.stat("adds_" + out)
        return
    raise ValueError(kind)
