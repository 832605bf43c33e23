"""C14: the caller's arrays are never written to, read-only arrays are accepted,
and neither inputs nor results share memory with a trained model."""
import inspect
import itertools

import numpy as np

from .. import core, gen

LEVEL = "model_checking"
BOUNDS = {
    "quick": "17 families x both implementations; every operation x every argument (data, lengths, "
             "every parameter attribute, every constructor prior) x 5 layouts (C, Fortran, strided "
             "view, offset view, read-only); 2-state models, 2 sequences; all operation pairs "
             "(train / query) with a caller write in between; every function of stats, utils, "
             "_kl_divergence and _hmmc",
    "thorough": "the same with 1- and 3-state models, all chain structures, mutation of every "
                "returned array and all triples of operations",
}
ASSUMPTIONS = [
    "A write is seen by comparing the bytes of the whole underlying buffer of every array passed, "
    "including the elements between the strides of a view.",
    "Arrays assigned to attributes of the model become the model's: only writes to them are "
    "violations, not sharing (the covariances of GaussianHMM are copied).",
    "utils.normalize and utils.log_normalize are documented to work in place.",
]


# A layout: function array -> (view with equal values, underlying buffer)
def lay_c(a):
    b = np.array(a, order="C")
    return b, b


def lay_f(a):
    b = np.array(a, order="F")
    return b, b


def lay_strided(a):
    a = np.asarray(a)
    base = np.full([2 * n + 1 for n in a.shape], 77, dtype=a.dtype)
    view = base[tuple(slice(1, None, 2) for _ in a.shape)]
    view[...] = a
    return view, base


def lay_offset(a):
    a = np.asarray(a)
    base = np.full(a.size + 2, 77, dtype=a.dtype)
    view = base[1:-1].reshape(a.shape)
    view[...] = a
    return view, base


def lay_reversed(a):
    a = np.asarray(a)
    base = np.array(a[::-1], order="C", copy=True)
    return base[::-1], base


def lay_ro(a):
    b = np.array(a, order="C")
    b.flags.writeable = False
    return b, b


LAYOUTS = dict(c=lay_c, fortran=lay_f, strided=lay_strided, offset=lay_offset,
               reversed=lay_reversed, readonly=lay_ro)


class Guarded:
    """Arrays handed to the code, and what they contained."""

    def __init__(self, arrays, layout):
        self.views, self.bufs = {}, {}
        for k, a in arrays.items():
            if isinstance(a, np.ndarray) and a.ndim:
                v, b = LAYOUTS[layout](a)
                self.views[k] = v
                self.bufs[k] = (b, b.tobytes(), v.shape, v.strides, v.dtype)
            else:
                self.views[k] = a

    def changed(self):
        return [k for k, (b, before, shape, strides, dtype) in self.bufs.items()
                if b.tobytes() != before
                or (self.views[k].shape, self.views[k].strides,
                    self.views[k].dtype) != (shape, strides, dtype)]

    def scribble(self):
        """The caller reuses its arrays."""
        for b, *_ in self.bufs.values():
            b.flags.writeable = True
            b[...] = 1 if b.dtype.kind in "iu" else .123


def make_spec(fam, nc, chain, **kw):
    _, pi, A = [c for c in gen.chains(nc) if c[0] == chain][0]
    b = gen.family_base(fam)
    return gen.Spec(fam, pi, A, nf=3 if b in ("cat", "multinomial") else 2, **kw)


def data(spec, rep=3):
    X = gen.rows(gen.alphabet(spec.fam, spec.nf), [0, 1, 2, 1, 0, 2, 2] * rep)
    if spec.base in ("gauss", "gmm", "vgauss"):
        X = X + .01 * np.arange(len(X))[:, None] * np.arange(1, spec.nf + 1)
    return X


OPS = {
    "score": lambda m, X, L: m.score(X, L),
    "score_samples": lambda m, X, L: m.score_samples(X, L),
    "decode-viterbi": lambda m, X, L: m.decode(X, L, algorithm="viterbi"),
    "decode-map": lambda m, X, L: m.decode(X, L, algorithm="map"),
    "predict": lambda m, X, L: m.predict(X, L),
    "predict_proba": lambda m, X, L: m.predict_proba(X, L),
    "aic": lambda m, X, L: m.aic(X, L),
    "bic": lambda m, X, L: m.bic(X, L),
}
TRAIN = {
    "fit-all": dict(),
    "fit-noinit": dict(init_params=""),
    "fit-nothing": dict(init_params="", params=""),
}


def ops_of(spec):
    out = list(OPS) + (list(TRAIN) if spec.base != "custom" else ["fit-noinit", "fit-nothing"])
    if spec.base == "custom" or spec.base[0] == "v":
        out = [o for o in out if o not in ("aic", "bic")]
    return out


def perform(spec, op, X, L, m=None):
    """Run op on a model with all parameters; returns (model, result)."""
    kw = dict(TRAIN.get(op, {}))
    if spec.base == "custom":
        kw.setdefault("params", "st")
        kw["init_params"] = ""
    if m is None:
        m = spec.make(n_iter=2, tol=0, random_state=0, **kw)
    else:
        m.set_params(**kw)
    if op in TRAIN:
        m.fit(X, L)
        return m, None
    return m, OPS[op](m, X, L)


def params_of(m):
    out = {}
    for k, v in sorted(vars(m).items()):
        if k.endswith("_") and k != "monitor_":
            out[k] = np.array(v, copy=True)
    return out


def same(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(map(same, a, b))
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def t_data(task, acc):
    """Data and lengths in every layout."""
    fam, impl, nc, chain = task
    spec = make_spec(fam, nc, chain, implementation=impl)
    X = data(spec)
    L = np.array([7, 5, len(X) - 12])
    for op in ops_of(spec):
        m0, ref = perform(spec, op, X.copy(), L.copy())
        p0 = params_of(m0)
        for layout in LAYOUTS:
            acc.count(states=1, transitions=1, traces=1)
            g = Guarded(dict(X=X, lengths=L), layout)
            key = f"{fam}/{impl}/nc={nc}/{chain}/{op}/{layout}"
            try:
                m, r = perform(spec, op, g.views["X"], g.views["lengths"])
            except Exception as e:
                acc.fail(key, f"{op} raised {e!r} on {layout} data", model=spec.label())
                continue
            for k in g.changed():
                acc.fail(f"{key}/{k}", f"{op} changed its argument {k}", model=spec.label())
            # The caller goes on to use its arrays.
            before = params_of(m)
            r0 = [np.array(x, copy=True) for x in r] if isinstance(r, tuple) else (
                None if r is None else np.array(r, copy=True))
            g.scribble()
            if not same(before, params_of(m)):
                acc.fail(f"{key}/shared-param", f"after {op}, overwriting the data "
                         "changed the parameters of the model", model=spec.label())
            if r is not None and not same(
                    list(r0) if isinstance(r, tuple) else r0,
                    list(map(np.asarray, r)) if isinstance(r, tuple) else np.asarray(r)):
                acc.fail(f"{key}/shared-result", f"overwriting the data changed the "
                         f"result of {op}", model=spec.label())
            del m, r
        # The caller changes what it was given.
        m, r = perform(spec, op, X.copy(), L.copy())
        for part in (r if isinstance(r, tuple) else (r,)):
            if isinstance(part, np.ndarray) and part.ndim:
                acc.count(transitions=1, traces=1)
                part[...] = 0
        if not same(params_of(m), p0):
            acc.fail(f"{fam}/{impl}/{op}/result-shared", f"writing to the result of "
                     f"{op} changed the model", model=spec.label())
    acc.sample(dict(family=fam, impl=impl, layouts=list(LAYOUTS)))


def attr_arrays(spec):
    m = spec.make()
    return {k: np.array(v, copy=True) for k, v in
            {**{k: v for k, v in vars(m).items()
                if k.endswith("_") and k != "monitor_" and not k.startswith("_")},
             **({"covars_": spec.emis["covars_"]} if "covars_" in spec.emis else {})
             }.items() if np.ndim(v)}


SUMS = ("startprob_", "transmat_", "emissionprob_", "weights_")


def t_params(task, acc):
    """Parameter arrays assigned by the caller, each in every layout."""
    fam, impl, nc, chain = task
    spec = make_spec(fam, nc, chain, implementation=impl)
    X = data(spec)
    L = [7, 5, len(X) - 12]
    arrays = attr_arrays(spec)
    ops = ops_of(spec) + ["sample"]

    def call(op, arrays):
        kw = dict(TRAIN.get(op, {}))
        if spec.base == "custom":
            kw.setdefault("params", "st")
            kw["init_params"] = ""
        m = spec.make(n_iter=2, tol=0, random_state=0, **kw)
        for k, v in arrays.items():
            setattr(m, k, v)
        if op in TRAIN:
            m.fit(X, L)
            r = None
        elif op == "sample":
            if spec.base == "custom":
                return m, None
            r = m.sample(4, random_state=1)
        else:
            r = OPS[op](m, X, L)
        if hasattr(m, "covars_"):
            m.covars_   # reading must not write either
        return m, r
    for op in ops:
        _, ref = call(op, {k: v.copy() for k, v in arrays.items()})
        # (Distributions may sum to one up to a tolerance.)
        for layout, f in [(l, 1) for l in LAYOUTS] + [("c", 1 + 3e-9), ("readonly", 1 - 3e-9)]:
            acc.count(states=1, transitions=1, traces=1)
            g = Guarded({k: v * f if k in SUMS else v for k, v in arrays.items()}, layout)
            key = f"{fam}/{impl}/nc={nc}/{chain}/{op}/params {layout}" + f"*{f}" * (f != 1)
            try:
                m, r = call(op, g.views)
            except Exception as e:
                acc.fail(key, f"{op} raised {e!r} with {layout} parameters",
                         model=spec.label())
                continue
            for k in g.changed():
                acc.fail(f"{key}/{k}", f"{op} changed the caller's array assigned "
                         f"to {k}", model=spec.label())
            if op in TRAIN and op != "fit-nothing":
                # What training set belongs to the model alone.
                before = params_of(m)
                upd = {k for k, v in before.items() if k in arrays
                       and not same(v, arrays[k])}
                g.scribble()
                after = params_of(m)
                for k in upd:
                    if not same(before[k], after[k]):
                        acc.fail(f"{key}/{k}/shared", f"the trained {k} shares "
                                 "memory with the array assigned before training",
                                 model=spec.label())


def t_assign(task, acc):
    """The covariances assigned to a Gaussian model are copied: what the caller
    does to its array afterwards does not change the model."""
    fam, impl, nc, chain = task
    spec = make_spec(fam, nc, chain, implementation=impl)
    cv = np.array(spec.emis["covars_"])
    for layout in LAYOUTS:
        for kind in (cv.dtype, np.float32):
            acc.count(states=1, transitions=1, traces=1)
            g = Guarded({"covars_": cv.astype(kind)}, layout)
            m = spec.make()
            m.covars_ = g.views["covars_"]
            before = params_of(m) | {"covars_": np.array(m.covars_)}
            g.scribble()
            if not same(before, params_of(m) | {"covars_": np.array(m.covars_)}):
                acc.fail(f"{fam}/nc={nc}/assign {layout}", "overwriting the array assigned "
                         "to covars_ changed the model", model=spec.label())


def ctor_arrays(spec):
    """Constructor arguments that may be arrays, with a valid value."""
    nc, nf, nm = spec.nc, spec.nf, spec.n_mix
    b = spec.base
    full = {"spherical": (nc,), "diag": (nc, nf), "full": (nc, nf, nf), "tied": (nf, nf)}
    out = dict(startprob_prior=np.arange(nc) + 1.5,
               transmat_prior=np.arange(nc * nc).reshape(nc, nc) + 1.25)
    if b == "cat":
        out["emissionprob_prior"] = np.full((nc, nf), 1.5)
    if b == "multinomial":
        pass
    if b == "poisson":
        out["lambdas_prior"] = np.full((nc, nf), .5)
        out["lambdas_weight"] = np.full((nc, nf), .25)
    if b == "gauss":
        out["means_prior"] = np.full((nc, nf), .5)
        if spec.cov in ("spherical", "diag"):
            out["means_weight"] = np.full((nc, nf), .5)
        if spec.cov == "tied":
            out["covars_prior"] = np.eye(nf)
        elif spec.cov == "full":
            out["covars_prior"] = np.array([np.eye(nf)] * nc)
        else:
            out["covars_prior"] = np.full((nc, nf), .5)
    if b == "gmm":
        out["weights_prior"] = np.full((nc, nm), 1.5)
        out["means_prior"] = np.full((nc, nm, nf), .5)
        out["means_weight"] = np.full((nc, nm), .5)
        ps, ws = {"full": ((nc, nm, nf, nf), (nc, nm)), "tied": ((nc, nf, nf), (nc,)),
                  "diag": ((nc, nm, nf),) * 2, "spherical": ((nc, nm),) * 2}[spec.cov]
        cp = np.full(ps, .5)
        if spec.cov in ("full", "tied"):
            cp[...] = np.eye(nf)
        out["covars_prior"] = cp
        out["covars_weight"] = np.full(ws, .5)
    if b == "vcat":
        out["startprob_prior"] = np.full(nc, .5)
        out["transmat_prior"] = np.full((nc, nc), .5)
        out["emissionprob_prior"] = np.full((nc, nf), .75)
    if b == "vgauss":
        out["startprob_prior"] = np.full(nc, .5)
        out["transmat_prior"] = np.full((nc, nc), .5)
        out["means_prior"] = np.full((nc, nf), .25)
        out["beta_prior"] = np.full(nc, .5)
        out["dof_prior"] = np.full(nc, nf + 1.) if spec.cov != "tied" else nf + 1.
        sp = np.full(full[spec.cov], .5)
        if spec.cov in ("full", "tied"):
            sp[...] = np.eye(nf) * .5
        out["scale_prior"] = sp
    known = set(inspect.signature(spec.cls().__init__).parameters)
    if spec.base == "custom":
        known = set(inspect.signature(spec.cls().__mro__[2].__init__).parameters)
    return {k: v for k, v in out.items() if k in known}


def t_ctor(task, acc):
    """Constructor arrays (priors) in every layout, one at a time and together."""
    fam, impl, nc, chain = task
    spec = make_spec(fam, nc, chain, implementation=impl)
    X = data(spec)
    L = [7, 5, len(X) - 12]
    arrays = ctor_arrays(spec)
    v = spec.base[0] == "v"

    def build(arrays, kw):
        if v:
            # Variational models take the arrays during initialisation.
            return spec.blank(n_iter=2, tol=0, random_state=0, **kw, **arrays)
        return spec.make(n_iter=2, tol=0, random_state=0, **kw, **arrays)
    for op in ops_of(spec):
        kw = dict(TRAIN.get(op, {}))
        if spec.base == "custom":
            kw.setdefault("params", "st")
            kw["init_params"] = ""
        for layout in LAYOUTS:
            acc.count(states=1, transitions=1, traces=1)
            g = Guarded(arrays, layout)
            key = f"{fam}/{impl}/nc={nc}/{chain}/{op}/ctor {layout}"
            try:
                m = build(g.views, kw)
                if v and op not in TRAIN:
                    m.fit(X, L)
                if op in TRAIN:
                    m.fit(X, L)
                else:
                    OPS[op](m, X, L)
            except Exception as e:
                acc.fail(key, f"{op} raised {e!r} with {layout} constructor arrays",
                         model=spec.label())
                continue
            for k in g.changed():
                acc.fail(f"{key}/{k}", f"{op} changed the caller's array {k}",
                         model=spec.label())
            for k in arrays:
                if getattr(m, k) is not g.views[k]:
                    acc.fail(f"{key}/{k}/replaced", f"{op} replaced the constructor "
                             f"argument {k}", model=spec.label())
            # Afterwards the arrays are the caller's again.
            visible = [k for k in params_of(m) if not k.endswith("_prior_")]
            before = params_of(m)
            res = m.score(X, L)
            g.scribble()
            after = params_of(m)
            for k in visible:
                if not same(before[k], after[k]):
                    acc.fail(f"{key}/{k}/shared", f"the trained {k} shares memory "
                             "with a constructor array", model=spec.label())
            if not v and spec.base != "custom" and not spec.base == "gmm":
                if m.score(X, L) != res:
                    acc.fail(f"{key}/score-shared", "overwriting constructor arrays "
                             "changed the score", model=spec.label())


def t_functions(task, acc):
    """The public helper functions and the native ones."""
    from hmmlearn import _hmmc, _kl_divergence as kl, stats, utils, _utils
    rng = [np.array(x, float) for x in (
        [.3, .7], [[.6, .4], [.1, .9]], [[.2, .5], [.4, .1], [.3, .3]])]
    pi, A, F = rng
    with np.errstate(all="ignore"):
        logF = np.log(F)
    cases = []
    fwd = _hmmc.forward_log(pi, A, logF)[1]
    bwd = _hmmc.backward_log(pi, A, logF)
    lp, sf, sc = _hmmc.forward_scaling(pi, A, F)
    sb = _hmmc.backward_scaling(pi, A, F, sc)
    nat = {"forward_log": (pi, A, logF), "backward_log": (pi, A, logF),
           "compute_log_xi_sum": (fwd, A, bwd, logF),
           "forward_scaling": (pi, A, F), "backward_scaling": (pi, A, F, sc),
           "compute_scaling_xi_sum": (sf, A, sb, F), "viterbi": (pi, A, logF)}
    for name, args in nat.items():
        cases.append((f"_hmmc.{name}", getattr(_hmmc, name), args))
    X = np.array([[.2, .3], [1., -1.], [0., .5]])
    mu = np.array([[0., .2], [1., -.5]])
    for cov in gen.COVS:
        c = np.asarray(gen.covars(cov, 2, 2), float)
        if cov == "spherical":
            c = c[:, None]
        cases.append((f"stats.log_multivariate_normal_density[{cov}]",
                      lambda X, mu, c, cov=cov:
                      stats.log_multivariate_normal_density(X, mu, c, cov), (X, mu, c)))
        cases.append((f"utils.fill_covars[{cov}]",
                      lambda c, cov=cov: utils.fill_covars(c, cov, 2, 2),
                      (np.asarray(gen.covars(cov, 2, 2), float),)))
    cases.append(("split_X_lengths", lambda X, L: _utils.split_X_lengths(X, L),
                  (X, np.array([1, 2]))))
    cases.append(("kl_dirichlet", kl.kl_dirichlet, (np.array([1., 2.]), np.array([.5, 3.]))))
    S1, S2 = gen.spd(0, 2), gen.spd(1, 2)
    cases.append(("kl_multivariate_normal_distribution",
                  kl.kl_multivariate_normal_distribution, (mu[0], S1, mu[1], S2)))
    cases.append(("kl_wishart_distribution",
                  lambda a, b: kl.kl_wishart_distribution(3., a, 4., b), (S1, S2)))
    for name, fn, args in cases:
        ref = fn(*[np.array(a, copy=True) for a in args])
        for combo in itertools.product(LAYOUTS, repeat=len(args)) \
                if len(args) <= 3 else [(l,) * len(args) for l in LAYOUTS]:
            acc.count(states=1, transitions=1, traces=1)
            gs = [Guarded({"a": a}, l) for a, l in zip(args, combo)]
            key = f"{name}/{'+'.join(combo)}"
            try:
                r = fn(*[g.views["a"] for g in gs])
            except Exception as e:
                acc.fail(key, f"{name} raised {e!r}")
                continue
            if any(g.changed() for g in gs):
                acc.fail(key, f"{name} changed an argument")
            flat = lambda r: [np.asarray(x) for x in (
                r if isinstance(r, (tuple, list)) else [r])]
            if not all(np.allclose(x, y, rtol=1e-12, atol=0, equal_nan=True)
                       for x, y in zip(flat(r), flat(ref))):
                acc.fail(key + "/value", f"{name} depends on the layout")


def t_results(task, acc):
    """Histories train -> caller writes -> query -> caller writes -> query."""
    fam, impl, nc, chain = task
    spec = make_spec(fam, nc, chain, implementation=impl)
    if spec.base == "custom":
        return
    X = data(spec)
    L = np.array([7, 5, len(X) - 12])
    queries = [o for o in ops_of(spec) if o in OPS] + ["sample", "stationary"]

    def query(m, op):
        if op == "sample":
            return m.sample(3, random_state=3)
        if op == "stationary":
            return m.get_stationary_distribution() \
            if hasattr(m, "get_stationary_distribution") else None
        return OPS[op](m, X.copy(), L.copy())
    ref_m = spec.blank(n_iter=2, tol=0, random_state=0).fit(X.copy(), L.copy())
    ref = {op: query(ref_m, op) for op in queries}
    for first, second in itertools.product(queries, repeat=2):
        acc.count(states=1, transitions=4, traces=1)
        g = Guarded(dict(X=X, lengths=L), "c")
        m = spec.blank(n_iter=2, tol=0, random_state=0).fit(
            g.views["X"], g.views["lengths"])
        g.scribble()
        r = query(m, first)
        for part in (r if isinstance(r, tuple) else (r,)):
            if isinstance(part, np.ndarray) and part.ndim:
                part[...] = 0
        out = query(m, second)
        if not same(out, ref[second]):
            acc.fail(f"{fam}/{impl}/{first}-{second}",
                     f"after overwriting the training data and the result of {first}, "
                     f"{second} gives something else", model=spec.label())


def t_emission(task, acc):
    """User-defined emissions may hand out an array they keep (a cache)."""
    fam, impl, nc, chain = task
    spec = make_spec(fam, nc, chain, implementation=impl)
    X = data(spec)
    L = [7, 5, len(X) - 12]
    for op in ops_of(spec):
        for layout in LAYOUTS:
            acc.count(states=1, transitions=1, traces=1)
            kept = []

            def hand_out(a):
                g = Guarded({"a": a}, layout)
                kept.append(g)
                return g.views["a"]
            ref_m, ref = perform(spec, op, X, L)
            m = spec.make(n_iter=2, tol=0, random_state=0, params="st", init_params="")
            m.layout = hand_out
            key = f"{fam}/{impl}/{op}/emission {layout}"
            try:
                m, r = perform(spec, op, X, L, m)
            except Exception as e:
                acc.fail(key, f"{op} raised {e!r} for {layout} likelihoods")
                continue
            if any(g.changed() for g in kept):
                acc.fail(key, f"{op} changed the likelihoods returned by the model's "
                         "emission")
            if not kept:
                acc.fail(key + "/unused", f"{op} did not use the emission")


def run(tier, acc):
    cfg = [(2, "generic")] if tier == "quick" else \
        [(1, "generic")] + [(n, c) for n in (2, 3) for c, _, _ in gen.chains(n)]
    impls = ("log", "scaling")
    tasks = [(f, i, nc, ch) for f in gen.FAMILIES for i in impls for nc, ch in cfg]
    for t in (t_data, t_params, t_ctor, t_results):
        core.explore(t, tasks, acc, timeout=900)
    core.explore(t_assign, [t for t in tasks if t[0].startswith(("gauss", "vgauss"))],
                 acc, timeout=900)
    core.explore(t_emission, [t for t in tasks if t[0].startswith("custom")], acc,
                 timeout=900)
    core.explore(t_functions, [0], acc, timeout=900)
