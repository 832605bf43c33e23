"""C09: only the selected parameters are initialised or updated."""

import itertools

import numpy as np

from .. import core, em, gen, ref, walk

BOUNDS = {
    "quick": "all families x nc in {1,2,3}: every subset of updated groups (both "
             "implementations, 1 and 3 iterations, two chains, two data sets); nc=2: every "
             "subset of initialised groups x every subset of preset groups; generic parameters "
             "and parameters made of zeros, ones and equal values",
    "thorough": "as quick for nc in {1,2,3,4} and four chains; initialisation for nc in {1,2,3}",
}
ASSUMPTIONS = []

VB_GROUPS = {
    "vcat": {"s": ["startprob_posterior_", "startprob_prior_"],
             "t": ["transmat_posterior_", "transmat_prior_"],
             "e": ["emissionprob_posterior_", "emissionprob_prior_"]},
    "vgauss": {"s": ["startprob_posterior_", "startprob_prior_"],
               "t": ["transmat_posterior_", "transmat_prior_"],
               "m": ["means_posterior_", "means_prior_", "beta_posterior_", "beta_prior_"],
               "c": ["dof_posterior_", "dof_prior_", "scale_posterior_", "scale_prior_"]},
}
POINT = {"s": ["startprob_"], "t": ["transmat_"], "e": ["emissionprob_"],
         "m": ["means_"], "c": ["covars_"]}


def groups(spec):
    if spec.base in VB_GROUPS:
        return VB_GROUPS[spec.base]
    if spec.base == "custom":
        return {"s": ["startprob_"], "t": ["transmat_"]}
    d = {"s": ["startprob_"], "t": ["transmat_"]}
    d.update({c: [n] for c, n in em.ATTRS[spec.base].items()})
    return d


def subsets(codes):
    for r in range(len(codes) + 1):
        for c in itertools.combinations(codes, r):
            yield "".join(c)


def snapshot(m, names):
    return {n: np.array(getattr(m, n), copy=True) for n in names if hasattr(m, n)}


def data(fam, nf, which=0):
    alpha = gen.alphabet(fam, nf)
    n = 14
    X = gen.rows(alpha, (ref.irregular((n,), 5 + which) * len(alpha)).astype(int))
    if gen.family_base(fam) == "gauss":
        X = X + (ref.irregular(X.shape, 17 + which) - .5)
    return X, [5, 1, 8]


def same_bits(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)


def point_consistent(acc, key, m, spec):
    """Variational models: point estimates belong to the posterior."""
    ok = (ref.close(m.startprob_, m.startprob_posterior_ / m.startprob_posterior_.sum())
          and ref.close(m.transmat_, m.transmat_posterior_
                        / m.transmat_posterior_.sum(axis=1)[:, None]))
    if spec.base == "vcat":
        p = m.emissionprob_posterior_
        ok = ok and ref.close(m.emissionprob_, p / p.sum(axis=1)[:, None])
    else:
        s, d = np.asarray(m.scale_posterior_), np.asarray(m.dof_posterior_)
        c = s / d.reshape(d.shape + (1,) * (s.ndim - d.ndim))
        nf = spec.nf
        full = {"full": c, "tied": np.array([c] * spec.nc),
                "diag": None, "spherical": None}[spec.cov]
        if spec.cov == "diag":
            full = np.array([np.diag(v) for v in c])
        elif spec.cov == "spherical":
            full = np.array([np.eye(nf) * v for v in c])
        ok = ok and ref.close(m.means_, m.means_posterior_) and ref.close(m.covars_, full)
    if not ok:
        acc.fail(key + "/point", "point estimates do not belong to the posterior after training")


def update_fn(task, acc):
    _, fam, nc, ci = task
    name, pi, A = gen.chains(nc)[ci]
    kw = {}
    if fam.startswith("gauss"):
        kw = dict(covars_prior=.5, means_weight=.5, means_prior=.25)
    if fam.startswith("gmm"):
        kw = dict(means_weight=1.0, weights_prior=2.0, covars_prior=2.0, covars_weight=3.0)
    spec = gen.Spec(fam, pi, A, nf=2, **kw)
    gs = groups(spec)
    names = [n for g in gs.values() for n in g]
    for impl, which in itertools.product(walk.IMPLS, (0, 1)):
        X, lengths = data(fam, 2, which)
        if spec.base == "custom":
            X = X[:, :1]
        seqs = np.split(X, np.cumsum(lengths)[:-1])
        full = None
        for mask in reversed(list(subsets("".join(gs)))):
            for n_iter in (1, 3):
                key = f"update/{fam}/nc{nc}/{name}/{impl}/{which}/{mask or 'none'}/it{n_iter}"
                m = spec.make(implementation=impl, init_params="", params=mask,
                              n_iter=n_iter, tol=-np.inf)
                before = snapshot(m, names)
                m.fit(X, lengths)
                acc.count(states=1, transitions=n_iter, traces=1)
                after = snapshot(m, names)
                for code, attrs in gs.items():
                    for a in attrs:
                        keep = code not in mask or a.endswith("prior_")
                        if keep and not same_bits(before[a], after[a]):
                            acc.fail(f"{key}/{a}", f"{a} changed although only "
                                     f"{mask!r} is to be updated", before=before[a], after=after[a])
                        if not keep and nc > 1 and np.array_equal(before[a], after[a]):
                            if code in "st" and spec.base == "custom" or a.startswith("startprob") \
                                    or name == "identity" or name == "cyclic":
                                continue
                            acc.fail(f"{key}/{a}", f"{a} is not updated", before=before[a])
                if spec.base in VB_GROUPS:
                    point_consistent(acc, key, m, spec)
                if n_iter == 1:
                    if full is None:
                        full = after
                    if spec.base in em.ATTRS:
                        try:
                            ll, new = em.step(spec, seqs, mask)
                        except em.Undefined:
                            acc.bump("undefined_updates")
                            continue
                        got, want = em.public(m, spec.base), em.expected_public(new)
                        for code in mask:
                            if not ref.close(got[code], want[code], 1e-7, 1e-8):
                                acc.fail(f"{key}/{code}", f"update of {code!r} with "
                                         f"params={mask!r} differs from the reference",
                                         got=got[code], want=want[code])
                        if not ref.close(m.monitor_.history[0], ll):
                            acc.fail(f"{key}/ll", f"recorded {m.monitor_.history[0]}, reference {ll}")
                    else:
                        for code in set(mask) - {"c"}:
                            for a in gs[code]:
                                if not ref.close(after[a], full[a], 1e-9, 1e-12):
                                    acc.fail(f"{key}/{a}", f"update of {a} depends on which other "
                                             "groups are selected", got=after[a], want=full[a])
                # Parameters that are not selected are kept whatever their values.
                if n_iter > 1 or spec.base in VB_GROUPS:
                    continue
                for kind, sp in ("special", special(spec)), ("off", inexact(spec)):
                    m = sp.make(implementation=impl, init_params="", params=mask, n_iter=1)
                    before = snapshot(m, names)
                    acc.count(states=1, transitions=1, traces=1)
                    try:
                        m.fit(X, lengths)
                    except ValueError:
                        if kind == "off":
                            raise
                        acc.bump("impossible_data")
                    after = snapshot(m, names)
                    for code in set(gs) - set(mask):
                        for a in gs[code]:
                            if not same_bits(before[a], after[a]):
                                acc.fail(f"{key}/{kind}/{a}", f"{a} changed although only "
                                         f"{mask!r} is to be updated",
                                         before=before[a], after=after[a])
    acc.sample(dict(model=spec.label()[:200], masks=len(list(subsets("".join(gs))))))


def variant(spec, k):
    """The same model with different parameter values."""
    d = {}
    for n, v in spec.emis.items():
        if n in ("emissionprob_", "weights_"):
            d[n] = ref.stochastic(v.shape, 50 + k)
        elif n == "covars_":
            d[n] = np.asarray(v) * (1 + .5 * k)
        else:
            d[n] = np.asarray(v) + .25 * k + (.1 if n == "lambdas_" else 0)
    nc = spec.nc
    return spec.replace(pi=ref.stochastic((nc,), 60 + k), A=ref.stochastic((nc, nc), 70 + k), **d)


def special(spec):
    """The same model with zeros, ones and equal values among its parameters."""
    nc = spec.nc
    d = {}
    for n, v in spec.emis.items():
        v = np.array(v, dtype=float)
        if n in ("emissionprob_", "weights_"):
            v[0, 0] = 0
            v = v / v.sum(axis=1)[:, None]
        elif n == "means_":
            v[...] = 0
        elif n == "lambdas_":
            v[0, 0] = 0
        elif n == "covars_":
            v = np.ones_like(v) if spec.cov in ("diag", "spherical") else v * 0 + np.eye(spec.nf)
        d[n] = v
    return spec.replace(pi=np.eye(nc)[-1], A=np.tril(np.ones((nc, nc)))
                        / np.arange(1, nc + 1)[:, None], **d)


def inexact(spec):
    """The same model with sums that differ from one within the tolerance."""
    f = 1 + 3e-9
    return spec.replace(pi=spec.pi * f, A=spec.A / f, **{
        n: np.asarray(v) * f for n, v in spec.emis.items() if n in ("emissionprob_", "weights_")})


def init_fn(task, acc):
    _, fam, nc, init = task
    name, pi, A = gen.chains(nc)[0]
    base = gen.Spec(fam, pi, A, nf=2)
    specs = [variant(base, 1), variant(base, 2), special(base)]
    gs = groups(base)
    codes = "".join(gs)
    names = [n for g in gs.values() for n in g]
    X, lengths = data(fam, 2)
    if base.base == "custom":
        X = X[:, :1]
    for preset in subsets(codes):
        key = f"init/{fam}/nc{nc}/init-{init or 'none'}/preset-{preset or 'none'}"
        got = []
        for spec in specs:
            m = spec.blank(init_params=init, params="", n_iter=1, random_state=0)
            if base.base == "custom":
                m.table_ = spec.emis["table_"]
            if base.base == "gauss":
                m.n_features = 2  # needed to read the covariances back
            src = spec.make()
            for code in preset:
                for a in gs[code]:
                    setattr(m, a, own(src, a, spec))
                if base.base in VB_GROUPS:
                    for a in POINT[code]:
                        if a != "means_":  # (is the posterior mean itself)
                            setattr(m, a, own(src, a, spec))
            before = snapshot(m, [a for c in preset for a in gs[c]])
            m.fit(X, lengths)
            acc.count(states=1, transitions=1, traces=1)
            after = snapshot(m, names)
            got.append(after)
            for code in gs:
                for a in gs[code]:
                    if a not in after:
                        acc.fail(f"{key}/{a}", f"{a} is not set by training")
                    elif code in preset and code not in init:
                        if not same_values(before[a], after[a]):
                            acc.fail(f"{key}/{a}", f"{a} was preset, init_params={init!r} and "
                                     "params='' but training changed it",
                                     before=before[a], after=after[a])
            if spec is specs[2]:
                continue                     # (the data may be impossible)
            try:
                z = m.score(X, lengths)
                if not np.isfinite(z):
                    acc.fail(f"{key}/score", f"the initialised model scores {z}")
            except ValueError as exc:
                acc.fail(f"{key}/score", f"the initialised model is invalid: {exc!r}")
        for code in gs:
            if code in init or code not in preset:
                for a in gs[code]:
                    if not same_bits(got[0][a], got[1][a]):
                        acc.fail(f"{key}/{a}", f"{a} is to be initialised but depends on the "
                                 "values set before", first=got[0][a], second=got[1][a])


def same_values(a, b):
    return a.shape == b.shape and np.array_equal(a, b)


def own(src, a, spec):
    """The attribute in the form in which it is to be assigned."""
    if a == "covars_" and spec.base in ("gauss", "vgauss"):
        return np.array(spec.emis["covars_"], copy=True)
    v = np.array(getattr(src, a), copy=True)
    return v if v.ndim else v.item()


def tasks(tier):
    out = []
    for fam in gen.FAMILIES:
        for nc in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            n = len(gen.chains(nc))
            for ci in ((0, 2) if tier == "quick" else (0, 1, 2, 5)):
                if ci < n:
                    out.append(("update", fam, nc, ci))
        base = fam.split("-")[0]
        codes = {"vcat": "ste", "vgauss": "stmc", "custom": "st"}.get(base) or em.MASKS[base]
        for nc in (2,) if tier == "quick" else (1, 2, 3):
            for init in subsets(codes):
                out.append(("init", fam, nc, init))
    return out


def task_fn(task, acc):
    (update_fn if task[0] == "update" else init_fn)(task, acc)


def run(tier, acc):
    core.explore(task_fn, tasks(tier), acc)
