"""C20: every single-field corruption of a valid model, data set or option,
combined with every operation of the family, is rejected."""
import itertools

import numpy as np

from .. import core, gen

LEVEL = "model_checking"
BOUNDS = {
    "quick": "2- and 3-state models of all 15 families, both implementations; one corruption at a "
             "time (about 10 per probability array, every axis dropped / added / flattened per "
             "parameter array, 15 per data set, every option, every missing attribute, totals of "
             "the training data) x 12 operations, also after valid training and queries",
    "thorough": "1- to 4-state models, every chain structure, every element corrupted in turn",
}
ASSUMPTIONS = [
    "Any exception counts as a rejection.",
    "Counts outside the domain may also be given likelihood zero when scoring.",
    "Symbols that were never seen cannot be recognised by an untrained categorical model, "
    "which learns the number of symbols from the data.",
]

OPS = {
    "score": lambda m, X: m.score(X),
    "score_samples": lambda m, X: m.score_samples(X),
    "decode-viterbi": lambda m, X: m.decode(X, algorithm="viterbi"),
    "decode-map": lambda m, X: m.decode(X, algorithm="map"),
    "predict": lambda m, X: m.predict(X),
    "predict_proba": lambda m, X: m.predict_proba(X),
    "sample": lambda m, X: m.sample(3, random_state=0),
    "fit": lambda m, X: m.fit(X),
    "fit-default": lambda m, X: m.set_params(params=PARAMS[type(m).__name__]).fit(X),
    "aic": lambda m, X: m.aic(X),
    "bic": lambda m, X: m.bic(X),
}
PARAMS = {"CategoricalHMM": "ste", "MultinomialHMM": "ste", "PoissonHMM": "stl",
          "GaussianHMM": "stmc", "GMMHMM": "stmcw",
          "VariationalCategoricalHMM": "ste", "VariationalGaussianHMM": "stmc"}


def edit(a, f):
    b = np.array(a, dtype=float)
    f(b.reshape(-1, b.shape[-1]))
    return b


def prob_corruptions(a, every=False):
    a = np.asarray(a, float)
    n, last = a.reshape(-1, a.shape[-1]).shape
    where = range(n) if every else sorted({0, n - 1})
    for r in where:
        def neg(b, r=r):
            b[r, 0] += b[r, -1] + .25
            b[r, -1] = -.25

        def neg_first(b, r=r):
            b[r, -1] += b[r, 0] + .25
            b[r, 0] = -.25

        def inner(b, r=r, v=-1e-3):
            b[r, 0], b[r, 1] = v, b[r, 1] + b[r, 0] - v

        def barely(b, r=r, v=-1e-9):
            b[r, 0], b[r, 1] = v, b[r, 1] + b[r, 0] - v
        if last > 1:
            yield f"barely negative[{r},0]", edit(a, barely)
            yield f"negative[{r},-1]", edit(a, neg)
            yield f"negative[{r},0]", edit(a, neg_first)
            yield f"slightly negative[{r},0]", edit(a, inner)
        for f in (1.1, .9, 1.001, 1.0001, .9999, 2, .5):
            yield f"row {r} sums to {f}", edit(
                a, lambda b, r=r, f=f: b.__setitem__(r, b[r] * f))
        yield f"row {r} zero", edit(a, lambda b, r=r: b.__setitem__(r, 0))
        for c in (range(last) if every else sorted({0, last - 1})):
            for v in (np.nan, np.inf, -np.inf):
                yield f"{v}[{r},{c}]", edit(
                    a, lambda b, r=r, c=c, v=v: b.__setitem__((r, c), v))
    if n > 1:
        # All of the mass is right, but not per row.
        def shift(b):
            b[0] *= 1.25
            b[1] *= .75
        yield "rows compensate", edit(a, shift)

        def shift_last(b):
            b[-1] *= 1.01
            b[-2] *= .99
        yield "last rows compensate", edit(a, shift_last)
    yield from shape_corruptions(a, prob=True)


def shape_corruptions(a, prob=False):
    a = np.asarray(a, float)
    for ax in range(a.ndim):
        yield f"axis {ax} dropped 1", np.delete(a, 0, axis=ax)
        extra = np.take(a, [0], axis=ax)
        if prob and ax == a.ndim - 1:
            extra = 0 * extra
        yield f"axis {ax} added 1", np.concatenate([a, extra], axis=ax)
        if a.shape[ax] > 1:
            one = np.take(a, [0], axis=ax)
            if prob and ax == a.ndim - 1:
                one = one * 0 + 1
            yield f"axis {ax} broadcastable", one
    if len(a) > 1:
        # With one state this is just another way to write the same values.
        yield "one more dimension", a[None]
        yield "one more trailing dimension", a[..., None]
        if a.ndim > 1:
            yield "first slice only", a[0]
    yield "scalar", np.array(a.flat[0])
    yield "None", None


def model_corruptions(spec, every):
    """(field, name, value, operations that must reject it or None: all)."""
    base = spec.make()
    v = spec.base.startswith("v")
    if not v:
        for f in ("startprob_", "transmat_", "emissionprob_", "weights_"):
            if hasattr(base, f):
                for n, val in prob_corruptions(getattr(base, f), every):
                    yield f, n, val, None
        for f in ("means_", "lambdas_"):
            if hasattr(base, f):
                for n, val in shape_corruptions(getattr(base, f)):
                    if spec.fam == "gauss-spherical" and f == "means_" \
                            and n.startswith("axis 1"):
                        # Spherical variances do not tell the dimension: the
                        # number of features only shows with the data.
                        yield f, n, val, set(OPS) - {"sample"}
                    else:
                        yield f, n, val, None
        if hasattr(base, "lambdas_"):
            lam = base.lambdas_
            for i in np.ndindex(lam.shape):
                for bad in (-1., -1e-9, np.nan):
                    b = lam.copy()
                    b[i] = bad
                    yield "lambdas_", f"{bad}[{i}]", b, None
        if "covars_" in spec.emis:
            c = np.asarray(spec.emis["covars_"], float)
            for n, val in shape_corruptions(c):
                if spec.fam == "gauss-spherical" and "trailing" in n:
                    continue    # any shape with n_components values is fine
                yield "covars_", n, val, None
            yield from cov_corruptions(spec, c)
    else:
        for f in sorted(vars(base)):
            if f.endswith(("_prior_", "_posterior_")) and np.ndim(getattr(base, f)):
                for n, val in shape_corruptions(getattr(base, f)):
                    yield f, n, val, None
        if "covars_" in spec.emis:
            yield from cov_corruptions(
                spec, np.asarray(spec.emis["covars_"], float), False)


def cov_corruptions(spec, c, zero=True):
    ops = {"score", "score_samples", "decode-viterbi", "decode-map", "predict",
           "predict_proba", "aic", "bic"} if spec.base[0] == "v" else None
    gmm = spec.base == "gmm"
    idx = list(np.ndindex(c.shape[:-2])) if spec.cov in ("full", "tied") else \
        list(np.ndindex(c.shape))
    for i in (idx[0], idx[-1]):
        if spec.cov in ("full", "tied"):
            for name, f in (
                    ("negative", lambda b: b.__setitem__((0, 0), -1)),
                    ("asymmetric", lambda b: b.__setitem__((0, 1), b[0, 1] + .3)),
                    ("indefinite", lambda b: b.__setitem__(
                        (slice(None), slice(None)), [[1, 2], [2, 1]])),
                    ("negative definite", lambda b: b.__imul__(-1)),
                    ("zero", lambda b: b.__imul__(0)),
                    ("nan", lambda b: b.__setitem__((0, 0), np.nan))):
                if name == "zero" and (gmm or not zero):
                    continue    # mixtures only warn about these
                if name in ("asymmetric", "negative definite", "negative",
                            "indefinite") and spec.nf < 2:
                    continue
                b = c.copy()
                f(b[i])
                yield "covars_", f"{name}[{i}]", b, ops
        else:
            for bad in (-1., -1e-9, 0., np.nan):
                if bad == 0 and gmm:
                    continue
                b = c.copy()
                b[i] = bad
                yield "covars_", f"{bad}[{i}]", b, ops


def operations(m, names=None):
    for op, fn in OPS.items():
        if op in ("aic", "bic") and not hasattr(m, "aic"):
            continue
        if op in ("aic", "bic") and m._get_n_fit_scalars_per_param() is None:
            continue
        if names is None or op in names:
            yield op, fn


def fresh(spec, **kw):
    kw = dict(dict(params="", init_params="", n_iter=1), **kw)
    return spec.make(**kw)


def good(spec):
    return gen.rows(gen.alphabet(spec.fam, spec.nf), [0, 1, 2, 1])


def rejected(fn):
    try:
        return False, fn()
    except Exception:
        return True, None


def scored_zero(op, r):
    """Does the result say: likelihood zero?"""
    if op == "score":
        return r == -np.inf
    if op in ("score_samples", "decode-viterbi"):
        return r[0] == -np.inf
    if op in ("aic", "bic"):
        return r == np.inf
    # Conditional on an impossible sequence nothing is defined.
    return op in ("decode-map", "predict", "predict_proba")


def t_model(task, acc):
    fam, nc, chain, impl, every = task
    spec = make_spec(fam, nc, chain, implementation=impl)
    X = good(spec)
    for op, fn in operations(fresh(spec)):
        ok = not rejected(lambda: fn(fresh(spec), X))[0]
        acc.count(states=1, traces=1)
        if not ok:
            acc.fail(f"{fam}/{impl}/{op}/valid", f"{op} rejects the valid model",
                     model=spec.label())
    for field, name, val, names in model_corruptions(spec, every):
        acc.count(states=1)
        for op, fn in operations(fresh(spec), names):
            if op == "fit-default" and field == "covars_" and spec.base[0] == "v":
                continue

            def call(used):
                m = fresh(spec)
                if used:    # What was checked before does not count.
                    m.fit(X)
                    m.score(X)
                setattr(m, field, None if val is None else np.array(val, copy=True))
                return fn(m, X)
            for used in (False, True):
                if used and (impl != "log" or op in ("aic", "bic")):
                    continue
                acc.count(transitions=1, traces=1)
                rej, r = rejected(lambda: call(used))
                if not rej:
                    acc.fail(f"{fam}/{impl}/nc={nc}/{chain}/{field}/{name}/{op}/{used}",
                             f"{op} accepted {field} corrupted by <{name}>"
                             f"{' after valid training and a query' if used else ''} and returned "
                             f"{str(r)[:80]}", model=spec.label(), value=val)
    acc.sample(dict(family=fam, impl=impl, nc=nc, chain=chain))


def data_corruptions(spec, X):
    """(name, data, operations that must reject, may give likelihood zero)"""
    b = gen.family_base(spec.fam)
    F = X.astype(float)
    n, d = X.shape
    ALL = set(OPS) - {"sample"}
    FIT = {"fit", "fit-default"}

    def put(a, v, i):
        c = a.copy()
        c[i] = v
        return c
    if b != "cat":
        yield "one more feature", np.hstack([X, X[:, :1]]), ALL, False
        if d > 1:
            yield "one feature less", X[:, :-1], ALL, False
            yield "only one feature", X[:, :1], ALL, False
    yield "no features", X[:, :0], ALL, False
    yield "1-d", X[:, 0], ALL, False
    yield "no samples", X[:0], ALL, False
    yield "3-d", X[None], ALL, False
    yield "scalar", 1, ALL, False
    yield "strings", np.array([["a"] * d] * n), ALL, False
    yield "None", None, ALL, False
    yield "objects", np.array([[None] * d] * n, dtype=object), ALL, False
    yield "ragged", [[0] * d, [0] * (d + 1)], ALL, False
    yield "complex", X + 1j, ALL, False
    for i in np.ndindex(n, d):
        for v in (np.nan, np.inf, -np.inf):
            yield f"{v}[{i}]", put(F, v, i), ALL, False
    if b == "cat":
        for t in range(n):
            yield f"negative[{t}]", put(X, -1, (t, 0)), ALL, False
            yield f"very negative[{t}]", put(X, -1000, (t, 0)), ALL, False
            yield f"unknown symbol[{t}]", put(X, spec.nf, (t, 0)), ALL, False
            yield f"far symbol[{t}]", put(X, spec.nf + 5, (t, 0)), ALL, False
        yield "float", F, ALL, False
        yield "fraction", F + .5, ALL, False
        yield "fraction below", put(F, .25, (0, 0)), ALL, False
    elif b in ("poisson", "multinomial"):
        for i in np.ndindex(n, d):
            yield f"fraction[{i}]", put(F, .5, i), FIT, False
            yield f"fraction[{i}]", put(F, .5, i), ALL - FIT, True
            neg = put(X, -1, i)
            if b == "multinomial":
                neg[i[0], (i[1] + 1) % d] += X[i] + 1
            yield f"negative[{i}]", neg, FIT, False
            yield f"negative[{i}]", neg, ALL - FIT, True
            if b == "multinomial":
                # Scoring conditions on the total of each sample.
                yield f"total[{i}]", put(X, X[i] + 1, i), FIT, False
                if X[i]:
                    yield f"total-1[{i}]", put(X, X[i] - 1, i), FIT, False
        if b == "multinomial":
            yield "float", F, FIT, False


def t_data(task, acc):
    fam, nc, chain, impl, every = task
    spec = make_spec(fam, nc, chain, implementation=impl)
    X = good(spec)
    for name, data, names, zero in data_corruptions(spec, X):
        acc.count(states=1)
        for op, fn in operations(fresh(spec), names):
            acc.count(transitions=1, traces=1)
            rej, r = rejected(lambda: fn(fresh(spec), data))
            if not rej and not (zero and scored_zero(op, r)):
                acc.fail(f"{fam}/{impl}/nc={nc}/{chain}/data {name}/{op}",
                         f"{op} accepted data corrupted by <{name}> and returned "
                         f"{str(r)[:80]}", model=spec.label(), value=data)
        # A model that learns everything from the data.
        if zero or "unknown" in name or "far" in name or "feature" in name \
                and name != "no features":
            continue
        acc.count(transitions=1, traces=1)
        rej, r = rejected(lambda: spec.blank(n_iter=2, random_state=0).fit(data))
        if not rej:
            acc.fail(f"{fam}/{impl}/data {name}/untrained fit",
                     f"fit of a new model accepted data corrupted by <{name}>",
                     value=data)


def t_options(task, acc):
    fam, nc, chain, impl, every = task
    spec = make_spec(fam, nc, chain, implementation=impl)
    X = good(spec)

    def expect(key, names, change, what, make=fresh):
        acc.count(states=1)
        for op, fn in operations(fresh(spec), names):
            acc.count(transitions=1, traces=1)

            def call():
                m = make(spec)
                change(m)
                return fn(m, X)
            rej, r = rejected(call)
            if not rej:
                acc.fail(f"{fam}/{impl}/{key}/{op}", f"{op} accepted {what} and "
                         f"returned {str(r)[:80]}", model=spec.label())
    uses_fb = {"score", "score_samples", "decode-map", "predict_proba", "fit",
               "fit-default", "aic", "bic"}
    for bad in ("foo", "", "LOG", "logscaling", "Scaling ", None, 0):
        for how in ("set_params", "assign"):
            def change(m, opt, bad=bad, how=how):
                if how == "assign":
                    setattr(m, opt, bad)
                else:
                    m.set_params(**{opt: bad})
            expect(f"implementation={bad!r}/{how}", uses_fb,
                   lambda m: change(m, "implementation"), f"implementation={bad!r}")
            expect(f"algorithm={bad!r}/{how}", {"predict"},
                   lambda m: change(m, "algorithm"), f"algorithm={bad!r}")
            if spec.cov:
                expect(f"covariance_type={bad!r}/{how}", None,
                       lambda m: change(m, "covariance_type"),
                       f"covariance_type={bad!r}")
        if bad:
            acc.count(transitions=1, traces=1)
            if not rejected(lambda: fresh(spec).decode(X, algorithm=bad))[0]:
                acc.fail(f"{fam}/decode algorithm={bad!r}",
                         f"decode accepted algorithm={bad!r}")
    # Every query on a model that has not been trained.
    expect("untrained", set(OPS) - {"fit", "fit-default"}, lambda m: None,
           "an untrained model", make=lambda s: s.blank())
    base = fresh(spec)
    attrs = [a for a in vars(base) if a.endswith("_") and a not in
             ("monitor_",) and not a.startswith("_")]
    v = spec.base[0] == "v"
    for a in sorted(attrs):
        if v and a.endswith(("_prior_", "_posterior_", "_subnorm_")):
            continue    # which representation a query uses is not visible
        names = {"score", "score_samples", "decode-viterbi", "decode-map",
                 "predict", "predict_proba", "sample"}
        expect(f"missing {a}", names, lambda m: delattr(m, a), f"a model without {a}")
    for bad in (0, -1):
        expect(f"n_components={bad}", {"score", "fit", "sample", "decode-viterbi"},
               lambda m: m.set_params(n_components=bad), f"n_components={bad}")
    for bad in (nc + 1, nc - 1):
        if bad < 1:
            continue
        expect(f"n_components={bad}", None if not v else {
            "fit", "score", "decode-viterbi", "predict"},
            lambda m: m.set_params(n_components=bad),
            f"n_components={bad} with parameters for {nc}")
    if spec.base == "multinomial":
        # Sampling needs one number of trials, and has none when the training
        # data had several, in whatever order.
        for n in (2, 3, 4):
            for totals in itertools.product((1, 2, 4), repeat=n):
                D = np.array([[t - t // 2, t // 2] for t in totals])
                m = hmm_new(spec, n_trials=None)
                acc.count(states=1, transitions=1, traces=1)
                m.fit(D)
                rej, r = rejected(lambda: m.sample(2, random_state=0))
                if len(set(totals)) > 1 and not rej:
                    acc.fail(f"{fam}/{impl}/mixed totals {totals}",
                             f"sample of a model trained on totals {totals} "
                             f"returned {str(r)[:80]}")
                if len(set(totals)) == 1 and (rej or (r[0].sum(axis=1) != totals[0]).any()):
                    acc.fail(f"{fam}/{impl}/one total {totals}",
                             f"sample of a model trained on totals {totals}: {str(r)[:80]}")


def hmm_new(spec, **kw):
    pi = np.full(spec.nc, 1 / spec.nc)
    return gen.Spec(spec.fam, pi, np.tile(pi, (spec.nc, 1)), nf=2,
                    implementation=spec.kwargs.get("implementation", "log")).blank(
                        n_iter=1, random_state=0, **kw)


def make_spec(fam, nc, chain, **kw):
    name, pi, A = [c for c in gen.chains(nc) if c[0] == chain][0]
    b = gen.family_base(fam)
    nf = 3 if b in ("cat", "multinomial") else 2
    return gen.Spec(fam, pi, A, nf=nf, **kw)


def run(tier, acc):
    fams = [f for f in gen.FAMILIES if not f.startswith("custom")]
    tasks = []
    if tier == "quick":
        for f in fams:
            for impl in ("log", "scaling"):
                tasks.append((f, 2, "generic", impl, False))
            tasks.append((f, 3, "sparse", "log", False))
    else:
        for f in fams:
            for nc in (1, 2, 3, 4):
                for ch, _, _ in gen.chains(nc):
                    for impl in ("log", "scaling"):
                        tasks.append((f, nc, ch, impl, True))
    core.explore(t_model, tasks, acc, timeout=600)
    core.explore(t_data, tasks if tier == "thorough" else
                 [t for t in tasks if t[1] == 2], acc, timeout=600)
    core.explore(t_options, tasks, acc, timeout=600)
