"""C21: concurrent queries on one model do not interfere.

Stateless model checking of the real code under a controlled scheduler, at two
levels.

Python level: every line of hmmlearn executed by a query is a scheduling point
(sys.monitoring); exactly one of two threads that query the same model runs at
a time, and every schedule with one preemption is executed.  Schedules with two
preemptions are executed where the second one follows a write to shared state
(the attributes of the model and everything reachable from the modules).

Native level: the functions of the extension module release the interpreter
lock, so that any two of their memory accesses can interleave.  The module is
compiled so that every access made without the lock is a scheduling point
(native/hooks.cpp); every schedule of two calls with one preemption is executed,
and all pairs of accesses are compared: where none conflicts, every interleaving
is equivalent to one of those executed."""

import ctypes
import gc
import itertools
import os
import pathlib
import pickle
import subprocess
import sys
import threading
import types

import numpy as np

from .. import core, gen, ref, stage
from . import c15

LEVEL = "model_checking"
BOUNDS = {
    "quick": "2 threads; native: all pairs of the 7 functions and of a call that fails x 3 pairs of sizes, every schedule with one "
             "preemption at memory-access granularity, two around conflicting accesses; Python: every pair out "
             "of 11 operations (queries, and fitting another model) x 19 families, every schedule with one "
             "preemption at line granularity, two where the second follows a write to shared state",
    "thorough": "the same with larger sizes, both implementations, data of different lengths, and one "
                "preemption at bytecode granularity; three threads at native level",
}
ASSUMPTIONS = [
    "Sequentially consistent memory.",
    "Library code (NumPy, SciPy, scikit-learn) is atomic between two lines of hmmlearn.",
    "Threads that fit or assign parameters to the model being queried are excluded.",
]

_variant = None
_src = None


def prepare(scratch, tier):
    global _variant, _src
    import hmmlearn
    _src = str(pathlib.Path(hmmlearn.__file__).parent)
    hooks = pathlib.Path(scratch) / "hooks.o"
    here = pathlib.Path(__file__).resolve().parent.parent / "native" / "hooks.cpp"
    subprocess.check_call(["g++", "-O2", "-fPIC", "-c", str(here), "-o", str(hooks)])
    nb = [f"-fno-builtin-{f}" for f in ("memcpy", "memmove", "memset")]
    src = stage.stage_variant(
        scratch, "sched",
        ["-fsanitize=thread", "-O1", "-fno-tree-loop-distribute-patterns", *nb],
        ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", hooks])
    _variant = next((src / "hmmlearn").glob("_hmmc*.so"))


# ------------------------------------------------------------ native level

FUNCS = ("forward_scaling", "forward_log", "backward_scaling", "backward_log",
         "compute_scaling_xi_sum", "compute_log_xi_sum", "viterbi", "underflow")


FAILING = {"underflow": "forward_scaling"}


def native_args(h, name, nc, T, off, shared):
    """Arguments of one call; startprob and transmat are those of the model."""
    pi, A = shared[nc]
    B = .1 + ref.irregular((T, nc), 20 + off)
    logB = np.log(B)
    if name == "underflow":
        return pi, A, B * (np.arange(T) < T - 1)[:, None]
    _, fwd, sc = h.forward_scaling(pi, A, B)
    bwd = h.backward_scaling(pi, A, B, sc)
    _, lf = h.forward_log(pi, A, logB)
    lb = h.backward_log(pi, A, logB)
    return {"forward_scaling": (pi, A, B), "forward_log": (pi, A, logB),
            "backward_scaling": (pi, A, B, sc), "backward_log": (pi, A, logB),
            "compute_scaling_xi_sum": (fwd, A, bwd, B),
            "compute_log_xi_sum": (lf, A, lb, logB),
            "viterbi": (pi, A, logB)}[name]


def native_process(task, acc):
    """The instrumented build needs a process of its own."""
    proc = subprocess.run(
        [sys.executable, "-c", "from mc.checks import c21; c21.native_main()", str(_variant),
         repr(task)], stdout=subprocess.PIPE, cwd=core.VERIF)
    if proc.returncode:
        acc.fail(f"crash:{task!r}", f"the process running the code ended with {proc.returncode}")
    else:
        acc.merge(pickle.loads(proc.stdout))


def native_main():
    import ast
    import importlib
    out = os.dup(1)
    os.dup2(2, 1)
    so = pathlib.Path(sys.argv[1])
    sys.path.insert(0, str(so.parent.parent))
    h = importlib.import_module("hmmlearn._hmmc")
    assert h.__file__ == str(so), h.__file__
    acc = core.Acc()
    task_native(h, ctypes.CDLL(str(so)), ast.literal_eval(sys.argv[2]), acc)
    with os.fdopen(out, "wb") as f:
        f.write(pickle.dumps(acc))
    sys.stdout.flush()
    os._exit(0)


def outcome(f, args):
    try:
        return f(*args)
    except Exception as e:
        return type(e)


class Native:
    def __init__(self, lib, calls):
        self.lib, self.calls = lib, calls
        self.n = len(calls)
        self.start = [threading.Semaphore(0) for _ in calls]
        self.ready = threading.Semaphore(0)
        self.out = [None] * self.n
        lib.mc_count.restype = lib.mc_conflicts.restype = ctypes.c_long
        lib.mc_switched.restype = lib.mc_infeasible.restype = ctypes.c_long
        for i in range(self.n):
            threading.Thread(target=self.worker, args=(i,), daemon=True).start()

    def worker(self, i):
        while True:
            self.start[i].acquire()
            f, args = self.calls[i]
            self.lib.mc_thread(i)
            self.lib.mc_wait()
            r = outcome(f, args)
            self.lib.mc_done(i, self.n)
            self.out[i] = r
            self.ready.release()

    def run(self, plan=(), first=0, record=False):
        flat = [v for s in plan for v in s]
        arr = (ctypes.c_long * max(1, len(flat)))(*flat)
        self.out = [None] * self.n
        self.lib.mc_begin(first, int(record), arr, len(plan))
        for s in self.start:
            s.release()
        for _ in self.start:
            self.ready.acquire()
        self.lib.mc_end()
        return self.out


SIZES = {"quick": [((2, 3), (2, 3)), ((2, 3), (3, 4)), ((3, 4), (2, 2))],
         "thorough": [((2, 3), (2, 3)), ((2, 3), (3, 5)), ((3, 5), (2, 2)), ((3, 6), (3, 6)),
                      ((1, 4), (2, 7)), ((4, 5), (4, 3))]}


def task_native(h, lib, task, acc):
    _, fa, fb, tier, third = task
    for (nca, Ta), (ncb, Tb) in SIZES["quick" if third else tier]:
        shared = {nc: (ref.stochastic((nc,), 1), ref.stochastic((nc, nc), 2)) for nc in range(1, 5)}
        specs = [(fa, nca, Ta, 0), (fb, ncb, Tb, 1)] + ([(third, nca, Ta, 2)] if third else [])
        calls = [(getattr(h, FAILING.get(f, f)), native_args(h, f, nc, T, off, shared)) for f, nc, T, off in specs]
        kept = [[a.copy() for a in c[1]] for c in calls]
        want = [outcome(f, args) for f, args in calls]
        eng = Native(lib, calls)
        label = "/".join(f"{f}-{nc}x{T}" for f, nc, T, _ in specs)

        def check(plan, **kw):
            got = eng.run(plan, **kw)
            acc.count(transitions=len(plan) + 1, traces=1)
            if lib.mc_infeasible():
                acc.bump("infeasible_schedules")
            for i, (g, w) in enumerate(zip(got, want)):
                if not same(g, w):
                    acc.fail(f"native/{label}/{plan}",
                             f"{specs[i][0]}: result differs from the one computed alone",
                             got=g, want=w)
            for i, c in enumerate(calls):
                if not all(gen.same(a, b) for a, b in zip(c[1], kept[i])):
                    acc.fail(f"native/{label}/{plan}/args", f"{specs[i][0]} changes its arguments")
        check(())
        counts = [lib.mc_count(i) for i in range(len(calls))]
        if min(counts[:2]) < 3:
            acc.bump("calls_without_points")
        acc.bump("native_points", sum(counts))
        acc.sample(dict(calls=label, points=counts))
        # Both calls are alive at the same time, so that memory is not reused.
        confl = {}
        if counts[0]:
            check([(0, 1, 1)], record=True)
            for a, b in itertools.permutations(range(len(calls)), 2):
                buf = (ctypes.c_long * 1)()
                confl[a, b] = lib.mc_conflicts(a, b, buf)
            acc.bump("conflicting_accesses", sum(confl.values()))
        for a, b in itertools.permutations(range(len(calls)), 2):
            for k in range(1, counts[a] + 1):
                acc.count(states=1)
                check([(a, k, b)], first=a)
        if any(confl.values()):
            # Not independent: two preemptions at every pair of points.
            # (If there are very many, every n-th point of the second call.)
            for a, b in itertools.permutations(range(2), 2):
                step = max(1, counts[a] * counts[b] // 20000)
                for k in range(1, counts[a] + 1):
                    for j in range(1, counts[b] + 1, step):
                        check([(a, k, b), (b, j, a)], first=a)
        elif third:
            for k in range(1, counts[0] + 1):
                for j in range(1, counts[1] + 1, max(1, counts[1] // 25)):
                    check([(0, k, 1), (1, j, 2)], first=0)
            acc.bump("three_thread_schedules", counts[0])


def same(a, b):
    if isinstance(a, type) or isinstance(b, type):
        return a is b
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, str) or a is None:
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind == "f":
        return bool(np.allclose(a, b, rtol=1e-10, atol=1e-300, equal_nan=True))
    return gen.same(a, b)


# ------------------------------------------------------------ Python level

MON = sys.monitoring
TOOL = 3


def codes():
    """Every code object of the staged package."""
    seen, todo = set(), []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            todo.append(o.__code__)
    while todo:
        c = todo.pop()
        if c in seen or not c.co_filename.startswith(_src):
            continue
        seen.add(c)
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return seen


CONST = (types.FunctionType, np.ufunc, types.BuiltinFunctionType, types.ModuleType, type, property,
         classmethod, staticmethod, str, bytes, int, float, bool, type(None))


def namespaces():
    """The dictionaries of the modules, classes and functions of the package."""
    out = []
    for name in sorted(k for k in sys.modules if k.startswith("hmmlearn")):
        out.append(vars(sys.modules[name]))
        for v in list(out[-1].values()):
            if isinstance(v, type) and v.__module__.startswith("hmmlearn"):
                out.append(vars(v))
    fs = [o for o in gc.get_objects() if isinstance(o, types.FunctionType)
          and o.__code__.co_filename.startswith(_src)]
    return out + [f.__dict__ for f in fs if f.__dict__] + [dict(enumerate(f.__defaults__))
                                             for f in fs if f.__defaults__]


def shared_state(dicts):
    """Everything that two threads can reach, apart from code."""
    out = []
    for d in dicts:
        for k, v in d.items():
            if isinstance(v, CONST):
                out.append(id(v))
            elif k == "__builtins__" or type(v).__module__.split(".")[0] \
                    not in ("builtins", "hmmlearn", "numpy", "collections", "mc"):
                out.append(id(v))
            elif isinstance(v, np.ndarray):
                out.append((v.shape, v.dtype.str, v.tobytes()))
            else:
                try:
                    out.append(pickle.dumps(v))
                except Exception:
                    out.append(id(v))
    return out


class Gate:
    """Opens for one passage."""

    def __init__(self):
        self.lock = threading.Lock()
        self.lock.acquire()
        self.pass_ = self.lock.acquire

    def open(self):
        try:
            self.lock.release()
        except RuntimeError:
            pass


class Engine:
    """Two threads, one of which runs at a time."""

    def __init__(self, event):
        self.event = event
        self.go = [Gate(), Gate()]
        self.job, self.fin = Gate(), Gate()
        self.ids = {}
        self.on = False
        self.hook = None
        MON.use_tool_id(TOOL, "mc")
        for c in codes():
            MON.set_local_events(TOOL, c, event)
        MON.register_callback(TOOL, event, self.point)
        self.body = None
        t = threading.Thread(target=self.worker, daemon=True)
        t.start()
        self.ids[t.ident] = 1
        self.ids[threading.get_ident()] = 0

    def point(self, code, line):
        if not self.on:
            return
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        self.cnt[me] += 1
        if self.hook:
            self.hook(me, self.cnt[me])
        if self.pos < len(self.plan) and self.plan[self.pos] == (me, self.cnt[me]):
            self.pos += 1
            self.switch(me)

    def switch(self, me):
        if self.done[1 - me]:
            return
        self.go[1 - me].open()
        seen = -1
        while not self.go[me].pass_(timeout=1):
            if seen == self.cnt[1 - me]:      # waits for a lock that this thread holds
                self.stuck += 1
                return
            seen = self.cnt[1 - me]

    def call(self, me, f):
        try:
            self.out[me] = f()
        except Exception as e:
            self.out[me] = type(e)
        self.done[me] = True
        self.go[1 - me].open()

    def worker(self):
        while True:
            self.job.pass_()
            self.go[1].pass_()
            self.call(1, self.body)
            self.fin.open()

    def run(self, fa, fb, plan, hook=None):
        """Thread 0 starts with fa; thread 1 runs fb."""
        for g in self.go:
            g.pass_(blocking=False)
        self.plan, self.pos, self.cnt, self.done = plan, 0, [0, 0], [False, False]
        self.out, self.stuck, self.hook, self.body = [None, None], 0, hook, fb
        self.on = True
        self.job.open()
        self.call(0, fa)
        self.fin.pass_()
        self.on = False
        return self.out


def python_ops(spec, diff):
    """Operations as functions of (model, which data set)."""
    def data(which):
        (X, L), (X2, L2) = c15.datasets(spec)
        if diff is None:
            # Sequences of the same length and of different lengths meet.
            return ((X[:3], [2, 1]), (X[[4, 5, 0]], [1, 2]))[which]
        if not which:
            return X, L
        if diff:
            return X2, L2
        return X[::-1].copy() + (0 if X.dtype.kind == "i" else .03), [2, 7]

    ops = {}
    D = [data(0), data(1)]

    def q(name, f):
        ops[name] = lambda m, w: f(m, *D[w], w)
    q("score", lambda m, X, L, w: m.score(X, L))
    q("score_samples", lambda m, X, L, w: m.score_samples(X, L))
    q("decode-v", lambda m, X, L, w: m.decode(X, L, algorithm="viterbi"))
    q("decode-m", lambda m, X, L, w: m.decode(X, L, algorithm="map"))
    q("predict", lambda m, X, L, w: m.predict(X, L))
    q("predict_proba", lambda m, X, L, w: m.predict_proba(X, L))
    if spec.base != "custom":
        q("sample", lambda m, X, L, w: m.sample(4, random_state=7 + w))
        if not spec.base.startswith("v"):
            q("bic", lambda m, X, L, w: m.bic(X, L))
        if spec.base != "vcat":
            q("read", lambda m, X, L, w: [np.array(getattr(m, k)) for k in
                                          ("means_", "covars_", "lambdas_", "weights_")
                                          if hasattr(m, k)])
    if not spec.base.startswith("v"):
        q("stationary", lambda m, X, L, w: m.get_stationary_distribution())
    return ops


def fit_other(spec, w):
    """Training another model of the same class."""
    other = spec.make(n_iter=1, tol=0, init_params="", random_state=0,
                      **({} if spec.base.startswith("v") else {"params": "ste"})
                      if spec.base in ("cat", "multinomial", "vcat") else {})
    (X, L), _ = c15.datasets(spec)
    if spec.base == "custom":
        return other.score(X, L)
    other.fit(X[::-1].copy(), [5, 4])
    return gen.shown(spec, other)


def same_any(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return same(a, b)


def task_python(task, acc):
    _, fam, impl, a, tier, diff = task
    instr = tier == "instr"
    if instr:
        MON_EVENT = MON.events.INSTRUCTION
    else:
        MON_EVENT = MON.events.LINE
    spec = gen.standard(fam, 2, "generic")
    eng = Engine(MON_EVENT)
    ops = python_ops(spec, diff)
    spec.kwargs["implementation"] = impl
    others = list(ops) + ["fit-other"] * (a == "score_samples" and spec.base != "vgauss")

    def thunk(name, m, w):
        if name == "fit-other":
            return lambda: fit_other(spec, w)
        return lambda: ops[name](m, w)
    for b in others:
        want = []
        for w, name in enumerate((a, b)):
            m = spec.make()
            before = c15.state(spec, m)
            try:
                want.append(thunk(name, m, w)())
            except Exception as e:
                want.append(type(e))
                acc.bump("failing_operations")
        label = f"{fam}/{impl}/{a}|{b}/{diff}{'/instr' if instr else ''}"

        def check(first, plan):
            m = spec.make()
            fs = [thunk(a, m, 0), thunk(b, m, 1)]
            if first:
                out = eng.run(fs[1], fs[0], plan)[::-1]
            else:
                out = eng.run(fs[0], fs[1], plan)
            acc.count(transitions=len(plan) + 1, traces=1)
            if eng.stuck:
                acc.bump("infeasible_schedules")
            for w, name in enumerate((a, b)):
                if not same_any(out[w], want[w]):
                    acc.fail(f"{label}/first{first}/{plan}",
                             f"{name} returns a different result when preempted or preempting "
                             "another query", got=out[w], want=want[w])
            if not same_any(gen.shown(spec, m), before[0]) or c15.options(m) != before[1]:
                acc.fail(f"{label}/first{first}/{plan}/state", "parameters or options changed")
        # Writes to shared state, in program order of each thread.
        writes = [set(), set()]
        if not instr:
            m = spec.make()
            spaces = namespaces() + [vars(m)]
            last = [shared_state(spaces)]

            def hook(me, k):
                s = shared_state(spaces)
                if s != last[0]:
                    writes[me].add(k)
                    last[0] = s
            eng.run(thunk(a, m, 0), thunk(b, m, 1), [], hook)
        else:
            m = spec.make()
            eng.run(thunk(a, m, 0), thunk(b, m, 1), [])
        n = list(eng.cnt)
        acc.bump("shared_writes", len(writes[0]) + len(writes[1]))
        acc.sample(dict(pair=label, points=n, writes=[sorted(w) for w in writes]))
        # The pair (b, a) is another task, except for the operation on another model.
        for first in ((0, 1) if b == "fit-other" and not instr else (0,)):
            for k in range(1, n[first] + 1):
                acc.count(states=1)
                check(first, [(0, k)])
                if not instr:
                    for j in sorted(writes[1 - first]):
                        check(first, [(0, k), (1, j)])


def task(t, acc):
    (native_process if t[0] == "native" else task_python)(t, acc)


def run(tier, acc):
    tasks = [("native", a, b, tier, None) for a in FUNCS for b in FUNCS]
    if tier == "thorough":
        tasks += [("native", *abc[:2], tier, abc[2])
                  for abc in itertools.combinations_with_replacement(FUNCS, 3)]
    for fam in gen.FAMILIES:
        spec = gen.standard(fam, 2, "generic")
        for impl in ("log", "scaling"):
            if tier == "quick" and impl == "scaling" and fam not in ("cat", "gauss-full"):
                continue
            for a in python_ops(spec, False):
                tasks.append(("python", fam, impl, a, tier, None))
                if tier == "thorough":
                    tasks.append(("python", fam, impl, a, tier, False))
                    tasks.append(("python", fam, impl, a, tier, True))
                    tasks.append(("python", fam, impl, a, "instr", None))
    core.explore(task, tasks, acc, timeout=800)
