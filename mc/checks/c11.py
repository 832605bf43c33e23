"""C11: training stops exactly by the documented convergence rule."""

import contextlib
import io
import itertools
import logging

import numpy as np

from .. import core, gen, ref, walk

INF = np.inf
GAINS = (2., .5, .25, 0., -.25, -8., INF, -INF, np.nan)
BOUNDS = {
    "quick": "training loop driven by every script of objective gains over {2, .5, .25, 0, "
             "-.25, -8, inf, -inf, nan} for n_iter 0..4 and tolerances {.5, 0, -1, inf, -inf} "
             "(n_iter 5 over 6 gains); log and scaling, EM and variational models; every "
             "stopping pattern of a user monitor to depth 6; every pair of consecutive "
             "trainings over 5 scripts x 4 option changes; verbose reports; long "
             "runs of up to 130 iterations stopping at every point; training of every family to every "
             "of 8 stopping points against repeated one-iteration trainings",
    "thorough": "as quick with n_iter to 6, long runs of up to 520 iterations, 16 stopping points",
}
ASSUMPTIONS = ["objective values are scripted through the documented subclassing interface"]


def scripted_class(kind):
    from hmmlearn.base import BaseHMM
    from hmmlearn import vhmm

    class EM(BaseHMM):
        """One state, one sample: the log likelihood is script[#updates]."""
        script, updates = (0.,), 0

        def _get_n_fit_scalars_per_param(self):
            return None

        def value(self):
            return self.script[min(self.updates, len(self.script) - 1)]

        def _do_mstep(self, stats):
            super()._do_mstep(stats)
            self.updates += 1

    class Log(EM):
        def _compute_log_likelihood(self, X):
            return np.full((len(X), 1), self.value())

    class Lin(EM):
        def _compute_likelihood(self, X):
            return np.exp(np.full((len(X), 1), self.value()))

    class VB(vhmm.VariationalCategoricalHMM):
        script, updates = (0.,), 0
        value = EM.value

        def _compute_lower_bound(self, curr_logprob):
            return self.value()

        def _do_mstep(self, stats):
            super()._do_mstep(stats)
            self.updates += 1

    return {"log": Log, "scaling": Lin, "vb": VB}[kind]


_cls = {}
X1 = np.zeros((1, 1), dtype=int)
XV = np.array([[0], [1], [1], [0]])


def make(kind, n_iter, tol, verbose=False):
    if kind not in _cls:
        _cls[kind] = scripted_class(kind)
    kw = dict(n_iter=n_iter, tol=tol, verbose=verbose)
    if kind == "vb":
        return _cls[kind](1, random_state=0, **kw)
    m = _cls[kind](1, implementation=kind, init_params="", params="s",
                   **kw)
    m.startprob_, m.transmat_ = np.ones(1), np.ones((1, 1))
    return m


def fit(m, kind, script):
    m.script, m.updates = script, 0
    m.fit(XV if kind == "vb" else X1)
    return m


def model_run(script, n_iter, tol):
    """The documented rule: the number of iterations that are performed."""
    k = 0
    while k < n_iter:
        k += 1
        if k >= 2:
            with np.errstate(all="ignore"):
                gain = np.float64(script[k - 1]) - np.float64(script[k - 2])
            if gain < tol:
                break
    return k


def values(start, gains):
    out = [start]
    with np.errstate(all="ignore"):
        for g in gains:
            out.append(float(np.float64(out[-1]) + np.float64(g)))
    return tuple(out)


def eq(a, b):
    return len(a) == len(b) and all(x == y or (x != x and y != y) for x, y in zip(a, b))


def check_run(acc, key, m, script, k, n_iter, tol, start=0):
    mon = m.monitor_
    acc.count(states=1, transitions=k, traces=1)
    hist = list(mon.history)
    if m.updates != k or mon.iter != k or not eq(hist, script[:k]):
        acc.fail(key, f"{m.updates} updates, iter={mon.iter}, history={hist}; expected "
                 f"{k} updates of the script {script} (n_iter={n_iter}, tol={tol})")
        return
    with np.errstate(all="ignore"):
        conv = k == mon.n_iter or (k >= 2 and np.float64(script[k - 1]) - script[k - 2] < mon.tol)
    if bool(mon.converged) != bool(conv):
        acc.fail(key + "/converged", f"converged={mon.converged} after {hist}")


def script_fn(task, acc):
    _, kind, n_iter, tol, gains, start = task
    for gs in itertools.product(gains, repeat=max(n_iter, 1) - 1):
        script = values(start, gs)
        if kind == "scaling" and not all(-600 < v < 600 for v in script):
            continue
        # (nan + gain stays nan etc.: histories that coincide are harmless)
        m = fit(make(kind, n_iter, tol), kind, script)
        check_run(acc, f"script/{kind}/n{n_iter}/tol{tol}/{start}/{gs}", m,
                  script, model_run(script, n_iter, tol), n_iter, tol)
    acc.sample(dict(kind=kind, n_iter=n_iter, tol=tol, gains=[str(g) for g in gains]))


def approx_eq(a, b):
    return len(a) == len(b) and np.allclose(a, b, 1e-9, 1e-9)


def scaling_fn(task, acc):
    """Scaling recovers the values by logarithms: gains off the tolerance."""
    _, n_iter, tol = task
    for gs in itertools.product((2., .75, .25, -.25, -8.), repeat=n_iter - 1):
        script = values(-3., gs)
        m = fit(make("scaling", n_iter, tol), "scaling", script)
        k = model_run(script, n_iter, tol)
        acc.count(states=1, transitions=k, traces=1)
        if m.updates != k or m.monitor_.iter != k or not approx_eq(m.monitor_.history, script[:k]):
            acc.fail(f"scaling/n{n_iter}/tol{tol}/{gs}",
                     f"{m.updates} updates, history {list(m.monitor_.history)}, expected {k} "
                     f"of {script}")


def user_fn(task, acc):
    """A user-supplied monitor decides when to stop."""
    from hmmlearn.base import ConvergenceMonitor
    _, kind, depth = task

    class User(ConvergenceMonitor):
        seen = ()

        def report(self, log_prob):
            self.seen += (log_prob,)
            super().report(log_prob)

        @property
        def converged(self):
            return self.pattern[len(self.seen) - 1]

    for n_iter in (1, 2, depth):
        for pattern in itertools.product((False, True), repeat=n_iter):
            m = make(kind, n_iter, .5)
            m.monitor_ = mon = User(m.monitor_.tol, m.monitor_.n_iter, False)
            mon.pattern = pattern
            script = values(-4., [-1., 2., 0., 5., -3., 1., 1.])  # (irrelevant to User)
            fit(m, kind, script)
            k = pattern.index(True) + 1 if True in pattern else n_iter
            acc.count(states=1, transitions=k, traces=1)
            if m.monitor_ is not mon:
                acc.fail(f"user/{kind}/{pattern}/replaced", "the user's monitor was replaced")
            elif m.updates != k or not np.allclose(mon.seen, script[:k]) or mon.iter != k:
                acc.fail(f"user/{kind}/n{n_iter}/{pattern}",
                         f"{m.updates} updates, reports {mon.seen}; the monitor stops after {k}")
    # A default-class monitor with its own limits is obeyed, too.
    for mn, mt in itertools.product((1, 2, 3, 9), (.5, -INF)):
        for gs in itertools.product((2., .25, -1.), repeat=4):
            m = make(kind, 5, -INF)
            m.monitor_ = ConvergenceMonitor(mt, mn, False)
            script = values(-1., gs)
            fit(m, kind, script)
            k = model_run(script, min(5, mn), mt)
            acc.count(states=1, transitions=k, traces=1)
            if m.updates != k:
                acc.fail(f"own/{kind}/n{mn}/tol{mt}/{gs}",
                         f"{m.updates} updates although the given monitor stops after {k}")


SCRIPTS = (values(0., (2., 2., 2., 2.)), values(-5., (.25, 9., 9., 9.)),
           values(7., (2., -1., 2., 2.)), values(3., (2., 2., 0., 2.)),
           values(-9., (.5, .5, .25, 3.)))
CHANGES = ({}, dict(n_iter=2), dict(n_iter=5), dict(tol=-INF), dict(tol=3.), dict(n_iter=4, tol=.1))


def refit_fn(task, acc):
    """Consecutive trainings of one object, options changed in between."""
    from sklearn.base import clone
    _, kind, how = task
    for a, b, ch in itertools.product(range(len(SCRIPTS)), range(len(SCRIPTS)),
                                      range(len(CHANGES))):
        m = make(kind, 3, .5)
        fit(m, kind, SCRIPTS[a])
        check_run(acc, f"refit/{kind}/{how}/{a}", m, SCRIPTS[a],
                  model_run(SCRIPTS[a], 3, .5), 3, .5)
        opts = dict(n_iter=3, tol=.5)
        opts.update(CHANGES[ch])
        if how == "set_params":
            m.set_params(**CHANGES[ch])
        elif how == "clone":
            m = clone(m).set_params(**CHANGES[ch])
            if kind != "vb":
                m.startprob_, m.transmat_ = np.ones(1), np.ones((1, 1))
        else:
            for name, v in CHANGES[ch].items():
                setattr(m, name, v)
        fit(m, kind, SCRIPTS[b])
        k = model_run(SCRIPTS[b], opts["n_iter"], opts["tol"])
        acc.count(states=1, transitions=k, traces=1)
        key = f"refit/{kind}/{how}/{a}/{b}/{ch}"
        if how == "assign" and m.updates == model_run(SCRIPTS[b], min(3, opts["n_iter"]), .5):
            # The known defect: the limits given at construction still apply.
            key = "assign/tol" if opts["tol"] != .5 else "assign/n_iter"
        if m.updates != k or not eq(list(m.monitor_.history), SCRIPTS[b][:k]) \
                or m.monitor_.iter != k:
            acc.fail(key, f"second training: {m.updates} updates, iter={m.monitor_.iter}, history "
                     f"{list(m.monitor_.history)}; expected {k} of {SCRIPTS[b]} with {opts}")


def long_fn(task, acc):
    """Long runs: a small gain at one point only, all points."""
    _, kind, n_iter = task
    stops = range(1, n_iter) if n_iter <= 70 else \
        sorted({1, 2, 3, 9, 31, 63, 99, 100, 101, 127, 128, n_iter // 2, n_iter - 2, n_iter - 1})
    for p in stops:
        for tol, big, small in ((.5, 1., .25), (.5, .5, .25), (0., 2. ** -20, -2. ** -20),
                                (2. ** -7, 2. ** -7, 0.)):
            gs = [big] * (n_iter - 1)
            gs[p - 1] = small
            for start in (0., -2. ** 20, 2. ** 30):
                script = values(start, gs)
                m = fit(make(kind, n_iter, tol), kind, script)
                check_run(acc, f"long/{kind}/n{n_iter}/tol{tol}/{big}/{start}/stop{p}", m,
                          script, model_run(script, n_iter, tol), n_iter, tol)
    # No gain below the tolerance: all iterations are made, again and again.
    m = make(kind, n_iter, .5)
    script = values(0., [.75] * n_iter)
    for again in range(3):
        fit(m, kind, script)
        check_run(acc, f"long/{kind}/n{n_iter}/all/{again}", m, script, n_iter, n_iter, .5)


REAL_FAMILIES = [f for f in gen.FAMILIES if not f.startswith("custom")]


def real_data(spec, which):
    alpha = gen.alphabet(spec.fam, spec.nf)
    n = len(alpha)
    X = gen.rows(alpha, (ref.irregular((17,), 9 + which) * n).astype(int))
    if gen.family_base(spec.fam) == "gauss":
        X = X + (ref.irregular(X.shape, 13 + which) - .5)
    return X, ([17], [5, 1, 8, 3])[which]


def real_fn(task, acc):
    """Training of the real families against one-iteration trainings."""
    _, fam, impl, which, depth = task
    spec = gen.standard(fam, 2, "generic")
    X, L = real_data(spec, which)
    chain, hist = [gen.shown(spec, spec.make())], []
    for k in range(depth):
        m = gen.rebuild(spec, chain[-1], n_iter=1, tol=-INF, init_params="", implementation=impl)
        m.fit(X, L)
        chain.append(gen.shown(spec, m))
        hist += list(m.monitor_.history)
    if len(hist) != depth or not np.all(np.isfinite(hist)):
        acc.fail(f"real/{fam}/{impl}/{which}/history", f"history {hist}")
        return
    runs = [(n, -INF, n) for n in range(1, depth + 1)]
    gains = np.diff(hist)
    for k in range(2, depth + 1):       # the k-th value is the first small gain
        g = gains[k - 2]
        lo = min(gains[:k - 2], default=g + 1 + abs(g))
        if lo - g > 1e-4 * (1 + abs(g)):
            runs += [(depth + 5, (lo + g) / 2, k), (k + 1, (lo + g) / 2, k)]
            if k > 1:
                runs.append((k - 1, (lo + g) / 2, k - 1))
    for n_iter, tol, k in runs:
        m = gen.rebuild(spec, chain[0], n_iter=n_iter, tol=tol, init_params="",
                        implementation=impl)
        m.fit(X, L)
        got = gen.shown(spec, m)
        acc.count(states=1, transitions=k, traces=1)
        bad = [name for name in chain[k] if not ref.close(got[name], chain[k][name], 1e-6, 1e-9)]
        if m.monitor_.iter != k or not ref.close(list(m.monitor_.history), hist[:k], 1e-7) or bad:
            acc.fail(f"real/{fam}/{impl}/{which}/n{n_iter}/stop{k}",
                     f"{m.monitor_.iter} iterations with history {list(m.monitor_.history)}; "
                     f"{k} single iterations give {hist[:k]}; differing {bad} (tol={tol})")


def verbose_fn(task, acc):
    _, kind, tol = task
    for gs in itertools.product((2., .25, 0., -3., 1234567.125), repeat=3):
        for verbose in (False, True):
            script = values(-2.5, gs)
            err, out = io.StringIO(), io.StringIO()
            m = make(kind, 4, tol, verbose)
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
                fit(m, kind, script)
            k = model_run(script, 4, tol)
            acc.count(states=1, transitions=k, traces=1)
            lines = [l.split() for l in err.getvalue().splitlines()]
            key = f"verbose/{kind}/tol{tol}/{gs}/{verbose}"
            if out.getvalue() or (not verbose and lines):
                acc.fail(key, "unexpected output")
            elif verbose:
                ok = len(lines) == k and all(len(l) == 3 for l in lines)
                for i, l in enumerate(lines if ok else []):
                    d = float(l[2])
                    ok = ok and int(l[0]) == i + 1 and abs(float(l[1]) - script[i]) < 1e-6 \
                        and (np.isnan(d) if i == 0 else abs(d - gs[i - 1]) < 1e-6)
                if not ok:
                    acc.fail(key, f"reports {lines} for the objective values {script[:k]}")


def warn_fn(task, acc):
    """A decrease of the objective is logged, an increase is not."""
    logging.disable(logging.NOTSET)
    log = logging.getLogger("hmmlearn")
    records = []

    class H(logging.Handler):
        def emit(self, record):
            records.append(record)
    log.addHandler(H())
    log.propagate = False
    for gs in itertools.product((2., 0., 1e-9, -1e-10, -1e-3, -8.), repeat=3):
        script = values(0., gs)
        del records[:]
        m = fit(make("log", 4, -INF), "log", script)
        got = sum(r.levelno >= logging.WARNING and "converg" in r.getMessage() for r in records)
        want = sum(g < -1e-6 for g in gs)
        acc.count(states=1, transitions=4, traces=1)
        if got != want:
            acc.fail(f"warn/{gs}", f"{got} warnings for the gains {gs}")
    logging.disable(logging.CRITICAL)


def tasks(tier):
    out = []
    deep = 4 if tier == "quick" else 5
    for kind in ("log", "vb"):
        for n_iter in range(0, deep + 1):
            for tol in (.5, 0., -1., INF, -INF):
                for start in (0., -INF) if kind == "vb" else (0.,):
                    out.append(("script", kind, n_iter, tol, GAINS, start))
        for tol in (.5, 0.):
            out.append(("script", kind, deep + 1, tol, (2., .5, .25, 0., -.25, -8.), -3.))
        out.append(("user", kind, 6))
        for how in ("set_params", "clone", "assign"):
            out.append(("refit", kind, how))
        for tol in (.5, -INF):
            out.append(("verbose", kind, tol))
    for n_iter in (2, 3, 4, 5):
        for tol in (.5, 0., -INF):
            out.append(("scaling", n_iter, tol))
    out += [("user", "scaling", 6), ("warn",)]
    out += [("long", kind, n) for kind in ("log", "vb")
            for n in (7, 10, 11, 33, 65, 130) + ((520,) if tier != "quick" else ())]
    out += [("real", fam, impl, which, 8 if tier == "quick" else 16)
            for fam in REAL_FAMILIES for impl in ("log", "scaling") for which in (0, 1)]
    return out


def task_fn(task, acc):
    {"script": script_fn, "scaling": scaling_fn, "user": user_fn, "refit": refit_fn,
     "long": long_fn, "real": real_fn, "verbose": verbose_fn, "warn": warn_fn}[task[0]](task, acc)


def run(tier, acc):
    core.explore(task_fn, tasks(tier), acc)
