"""C26: training from scratch starts at a valid point for every data set.

States: data sets of the emission's domain, all of them up to a size, times
configurations of a new model.  On each one the real initialisation and the
first updates are run; oracle: the definition of every initial quantity
(data mean, covariance, clusters by definition) computed in extended
precision, validity of the distributions, and finite scores of the training
data after each update.
"""

import itertools

import numpy as np

from .. import core, gen, ref, walk

BOUNDS = {
    "quick": "all data sets: symbols 0..2 length 1-4, count vectors of 2 trials length 1-3, "
             "counts {0,1,5} length 1-3 (1 and 2 features), multisets of 3-4 real points of "
             "size 2-4 (1 and 2 features), split into sequences in every way; nc 1-3, n_mix 1-2, "
             "every covariance type, 2 floors, 2 seeds; 2 updates; separated groups for 1-4 "
             "states x 1-3 components; rare events, constant data and many symbols or "
             "states; every array, list and scalar form of every prior",
    "thorough": "as quick with length 1-5, 3 features, 4 seeds and nc 1-4",
}
ASSUMPTIONS = ["k-means is judged by its fixed point, not by its global optimum"]


def compositions(n, every):
    return list(ref.compositions(n)) if every else [(n,), (1, n - 1)] if n > 1 else [(n,)]


def distribution(a):
    a = np.asarray(a, float)
    return bool((a >= 0).all() and (abs(a.sum(axis=-1) - 1) < 1e-9).all())


def covariance(X, floor):
    Xl = ref.ld(X)
    d = Xl - Xl.mean(axis=0)
    return d.T @ d / (len(X) - 1) + ref.ld(floor) * np.eye(X.shape[1])


def expand(cov, cv, shape, nc, nf):
    """What covars_ shows for every state (Gaussians: full matrices)."""
    if cov == "spherical":
        return np.array([np.eye(nf) * np.diag(cv).mean()] * nc)
    if cov == "diag":
        return np.array([np.diag(np.diag(cv))] * nc)
    return np.array([cv] * nc)


def in_hull(X, centers):
    """Inside the bounding box (up to rounding)."""
    e = 1e-9 * (1 + abs(X).max())
    return bool(np.isfinite(centers).all() and (centers >= X.min(axis=0) - e).all()
                and (centers <= X.max(axis=0) + e).all())


def fixed_point(X, centers):
    """Whether each centre is the mean of the points nearest to it (None: ties)."""
    X, C = ref.ld(X), ref.ld(centers)
    D = ((X[:, None] - C[None]) ** 2).sum(axis=2)
    best = D.min(axis=1, keepdims=True)
    near = D <= best + 1e-9 * (1 + abs(X).max() ** 2)
    if (near.sum(axis=1) > 1).any():
        return None
    for k in range(len(C)):
        own = X[near[:, k]]
        if not len(own) or not ref.close(own.mean(axis=0), C[k], 1e-6, 1e-6):
            return False
    return True


def initial(acc, key, spec, m, X, lengths, opts):
    """Judge the parameters straight after the initialisation."""
    nc, nf, base = spec.nc, X.shape[1], spec.base
    bad = []

    def need(ok, what):
        if not ok:
            bad.append(what)

    if base.startswith("v"):
        for n, shape, total in (("startprob", (nc,), len(lengths)),
                                ("transmat", (nc, nc), sum(lengths) / nc)):
            prior, post = getattr(m, n + "_prior_"), getattr(m, n + "_posterior_")
            need(np.shape(prior) == np.shape(post) == shape, n + " shapes")
            need((np.asarray(prior) > 0).all() and np.isfinite(post).all()
                 and (post >= prior).all(), n + " posterior counts below the prior's")
    else:
        need(m.startprob_.shape == (nc,) and distribution(m.startprob_), "startprob_")
        need(m.transmat_.shape == (nc, nc) and distribution(m.transmat_), "transmat_")
    if base in ("cat", "vcat"):
        want = opts.get("n_features") or int(X.max()) + 1
        need(m.n_features == want, f"n_features = {m.n_features}, should be {want}")
        if base == "cat":
            E = m.emissionprob_
            need(E.shape == (nc, want) and distribution(E) and (E > 0).all(), "emissionprob_")
        else:
            need(np.shape(m.emissionprob_prior_) == (nc, want)
                 and np.shape(m.emissionprob_posterior_) == (nc, want)
                 and (m.emissionprob_prior_ > 0).all()
                 and (m.emissionprob_posterior_ >= m.emissionprob_prior_).all(),
                 "emissionprob_posterior_ counts below the prior's")
    elif base == "multinomial":
        E = m.emissionprob_
        need(E.shape == (nc, nf) and distribution(E) and (E > 0).all(), "emissionprob_")
    elif base == "poisson":
        L = m.lambdas_
        need(L.shape == (nc, nf) and np.isfinite(L).all() and (L >= 0).all()
             and ((L > 0).all() or not X.any()), "lambdas_")
    else:
        floor = opts.get("min_covar", 1e-3)
        cv = covariance(X, floor)
        distinct = len({tuple(x) for x in X.tolist()})
        if base == "gmm":
            nm = spec.n_mix
            need(distribution(m.weights_) and m.weights_.shape == (nc, nm)
                 and ref.close(m.weights_, np.full((nc, nm), 1 / nm)), "weights_")
            mu, C = m.means_, m.covars_
            need(mu.shape == (nc, nm, nf) and np.isfinite(mu).all(), "means_")
            want = {"spherical": np.diag(cv).mean() * np.ones((nc, nm)),
                    "diag": np.tile(np.diag(cv), (nc, nm, 1)),
                    "full": np.tile(cv, (nc, nm, 1, 1)), "tied": np.tile(cv, (nc, 1, 1))}[spec.cov]
            if nm == 1 and distinct >= nc:
                need(in_hull(X, mu[:, 0]) and fixed_point(X, mu[:, 0]) in (True, None),
                     "means_ are not cluster centres")
        else:
            mu = m.means_ if base == "gauss" else m.means_posterior_
            need(mu.shape == (nc, nf) and in_hull(X, mu), "means_ outside of the data")
            if distinct >= nc:
                need(fixed_point(X, mu) in (True, None), "means_ are not cluster centres")
            C, want = m.covars_, expand(spec.cov, cv, None, nc, nf)
        if base == "vgauss":
            want_c = {"spherical": np.full(nc, np.diag(cv).mean()),
                      "diag": np.tile(np.diag(cv), (nc, 1)), "full": np.tile(cv, (nc, 1, 1)),
                      "tied": cv}[spec.cov]
            b0, b = np.asarray(m.beta_prior_, float), np.asarray(m.beta_posterior_, float)
            d0, d = np.asarray(m.dof_prior_, float), np.asarray(m.dof_posterior_, float)
            need(b.shape == (nc,) and (b > 0).all() and (b >= b0).all(), "beta_posterior_")
            need((d > nf - 1).all() and (d >= d0).all()
                 and d.shape == (() if spec.cov == "tied" else (nc,)), "dof_posterior_")
            s = np.asarray(m.scale_posterior_)
            need(ref.close(s, want_c * d.reshape(d.shape + (1,) * (want_c.ndim - d.ndim)), 1e-8),
                 "scale_posterior_ does not belong to the data's covariance")
            if distinct >= nc and fixed_point(X, mu):
                D = ((X[:, None] - mu[None]) ** 2).sum(axis=2).argmin(axis=1)
                n = np.bincount(D, minlength=nc)
                need(np.array_equal(b, np.maximum(n, b0)), "beta_posterior_ are not cluster sizes")
        elif not (np.shape(C) == np.shape(want) and ref.close(C, want, 1e-8)):
            need(False, f"covars_ = {C.tolist()}, the data has {np.asarray(want, float).tolist()}")
    if bad:
        acc.fail(key + "/init", "initial " + "; ".join(bad), data=X, lengths=lengths)
    return not bad


def shown(m, base):
    names = {"cat": ["emissionprob_"], "multinomial": ["emissionprob_"], "poisson": ["lambdas_"],
             "gauss": ["means_", "covars_"], "gmm": ["weights_", "means_", "covars_"],
             "vcat": ["emissionprob_prior_", "emissionprob_posterior_", "emissionprob_"],
             "vgauss": ["means_prior_", "means_posterior_", "beta_prior_", "beta_posterior_",
                        "dof_prior_", "dof_posterior_", "scale_prior_", "scale_posterior_",
                        "means_", "covars_"]}[base]
    if base.startswith("v"):
        names += [a + b for a in ("startprob_", "transmat_") for b in ("prior_", "posterior_")]
    return {n: np.asarray(getattr(m, n), float) for n in ["startprob_", "transmat_"] + names}


def case(acc, key, spec, X, lengths, opts, updates=2):
    X = np.asarray(X)
    if spec.base in ("gauss", "gmm", "vgauss"):
        X = X.astype(float)
    acc.count(states=1)
    try:
        m = spec.blank(n_iter=0, init_params=opts.get("init_params", spec.blank().init_params), **{
            k: v for k, v in opts.items() if k != "init_params"})
        m.fit(X, list(lengths))
        acc.count(transitions=1, traces=1)
        if not initial(acc, key, spec, m, X, lengths, opts):
            return
        if max(lengths) == 1 and not spec.base.startswith("v"):
            return       # Without transitions there is no transmat_ to be learnt.
        for it in range(1 if spec.base.startswith("v") else 0, updates + 1):
            m = spec.blank(n_iter=it, tol=-np.inf, **opts)
            m.fit(X, list(lengths))
            acc.count(transitions=1, traces=1)
            if spec.base == "gauss" and (m.transmat_.sum(axis=1) == 0).any():
                # Documented by a warning: a state (here of the last samples only) was never left.
                acc.bump("states_never_left")
                return
            s = m.score(X, list(lengths))
            h = list(m.monitor_.history)
            ok = np.isfinite(s) and len(h) == it and np.isfinite(h).all()
            values = shown(m, spec.base)
            ok = ok and all(np.isfinite(v).all() for v in values.values())
            ok = ok and distribution(m.startprob_)
            ok = ok and distribution(m.transmat_)
            if not ok:
                acc.fail(f"{key}/update{it}", f"after {it} updates the training data has score "
                         f"{s} (history {h}), parameters "
                         f"{ {k: v.tolist() for k, v in values.items()} }"[:800],
                         data=X, lengths=lengths)
                return
    except Exception as exc:
        acc.fail(key + "/raise", f"training a new model raised {exc!r}", data=X, lengths=lengths)


# --------------------------------------------------------------- data sets

POINTS = {1: [[0.], [1.], [3.]], 2: [[0., 0.], [1., -1.], [1., 1.], [2., 0.]],
          3: [[0., 0., 0.], [1., -1., 2.], [1., 1., -1.], [2., 0., 0.], [-1., 3., 1.]]}


def data_sets(base, nf, tier):
    top = 4 if tier == "quick" else 5
    if base == "cat":
        return [[[s] for s in q] for n in range(1, top + 1)
                for q in itertools.product(range(3), repeat=n)]
    if base == "multinomial":
        rows = [[a, 2 - a] for a in range(3)] if nf == 2 else \
            [[a, b, 2 - a - b] for a in range(3) for b in range(3 - a)]
        return [list(map(list, q)) for n in range(1, top) for q in itertools.product(rows, repeat=n)]
    if base == "poisson":
        rows = [list(r) for r in itertools.product((0, 1, 5), repeat=nf)]
        return [list(map(list, q)) for n in range(1, top if nf == 1 else 3)
                for q in itertools.product(rows, repeat=n)]
    # The order does not matter for the initialisation.
    return [list(map(list, q)) for n in range(2, top + 1)
            for q in itertools.combinations_with_replacement(POINTS[nf], n)]


def small_tasks(tier):
    out = []
    for fam in gen.FAMILIES:
        base = gen.family_base(fam)
        if fam.startswith("custom"):
            continue
        for nc in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for nf in {"cat": (3,), "multinomial": (2, 3), "poisson": (1, 2)}.get(
                    base, (1, 2) if tier == "quick" else (1, 2, 3)):
                for nm in (1, 2) if fam.startswith("gmm") else (1,):
                    for part in range(4):
                        out.append(("small", fam, nc, nf, nm, part, tier))
    return out


def options(spec, base, seed, i):
    o = dict(random_state=seed)
    if base in ("cat", "vcat") and i % 2:
        o["n_features"] = 4
    if base == "multinomial":
        o["n_trials"] = (2, None)[i % 2]
    if base in ("gauss", "gmm") and i % 2:
        o["min_covar"] = .5
    return o


def small_fn(task, acc):
    _, fam, nc, nf, nm, part, tier = task
    pi = np.full(nc, 1 / nc)
    spec = gen.Spec(fam, pi, np.tile(pi, (nc, 1)), nf=nf, n_mix=nm)
    base = spec.base
    gaussian = base in ("gauss", "gmm", "vgauss")
    for i, D in enumerate(data_sets(gen.family_base(fam), nf, tier)):
        if i % 4 != part or (gaussian and len(D) < nc):
            continue
        for seed, o in itertools.product(range(2 if tier == "quick" else 4), (0, 1)):
            if gaussian and seed != o and (base == "vgauss" or seed):
                continue
            for li, lengths in enumerate(compositions(len(D), not gaussian)):
                if (seed or o) and li:
                    continue
                key = f"{fam}/nc{nc}/nm{nm}/{D}/{lengths}/{seed}{o}"
                # (Mixture components of single points are degenerate.)
                case(acc, key, spec, D, lengths, options(spec, base, seed, o),
                     0 if base == "gmm" else 2 if li == 0 else 1)


def groups_fn(task, acc):
    """Well separated groups: the clusters are known."""
    _, fam, nc, nm, nf = task
    pi = np.full(nc, 1 / nc)
    spec = gen.Spec(fam, pi, np.tile(pi, (nc, 1)), nf=nf, n_mix=nm)
    gmm = spec.base == "gmm"
    for scale, seed in itertools.product((1., 2. ** -20, 2. ** 20), range(3)):
        X, centres = [], []
        for c in range(nc):
            centres.append([])
            for k in range(nm):
                at = np.zeros(nf)
                at[0] = 1000 * c + 30 * k + c * c
                at[-1] += 10 * k - c
                pts = at + .5 * (ref.irregular((2 + k + c, nf), 7 * c + k) - .5)
                X += list(pts)
                centres[-1].append(pts.mean(axis=0))
        X = np.array(X) * scale
        centres = np.array(centres) * scale
        order = np.argsort(ref.irregular((len(X),), seed))
        X = X[order]
        m = spec.blank(n_iter=0, random_state=seed)
        acc.count(states=1, transitions=1, traces=1)
        m.fit(X, [len(X)])
        mu = m.means_posterior_ if spec.base == "vgauss" else m.means_
        mu = mu if gmm else mu[:, None]

        def canon(a):
            return sorted(sorted(map(tuple, np.round(np.asarray(s, float) / scale, 6))) for s in a)
        if canon(mu) != canon(centres):
            acc.fail(f"groups/{fam}/{nc}/{nm}/{nf}/{scale}/{seed}",
                     f"initial means {mu.tolist()}, the groups have {centres.tolist()}")
        initial(acc, f"groups/{fam}/{nc}/{nm}/{nf}/{scale}/{seed}", spec, m, X, (len(X),), {})


def rare_fn(task, acc):
    """Larger unusual data sets: rare events, many symbols, many states."""
    _, fam, kind, n, seed = task
    nc = n if kind == "states" else 2
    pi = np.full(nc, 1 / nc)
    base = gen.family_base(fam)
    nf = 2 if base in ("multinomial", "gauss") else 1
    T = 2 * n
    idx = np.argsort(ref.irregular((T,), seed))
    opts = dict(random_state=seed)
    if base == "cat":
        nf = n if kind == "symbols" else 2
        X = (np.arange(T) % nf)[idx][:, None]
        if kind == "rare":
            X = np.zeros((T, 1), int)
            X[n // 3] = 1
    elif base == "poisson":
        X = np.zeros((T, 1), int)
        X[n // 3] = 1
        if kind == "states":
            X[:, 0] = np.arange(T) % 7
        elif kind == "symbols":
            X[:, 0] = n
    elif base == "multinomial":
        opts["n_trials"] = 3
        X = np.tile([3, 0], (T, 1))
        X[n // 3] = [2, 1]
    else:
        X = ref.irregular((T, 2), seed)
        if kind == "rare":
            X = np.zeros((T, 2))
            X[n // 3] = [1, -1]
    spec = gen.Spec(fam, pi, np.tile(pi, (nc, 1)), nf=max(nf, X.shape[1]), n_mix=1)
    case(acc, f"{kind}/{fam}/{n}/{seed}", spec, X, (T - 1, 1), opts, 2)


def rare_tasks(tier):
    out = []
    for fam in gen.FAMILIES:
        if fam.startswith(("custom", "gmm")):
            continue
        base = gen.family_base(fam)
        for n in (10, 50, 150, 600) if tier == "quick" else (10, 50, 150, 600, 3000):
            out += [("rare", fam, "rare", n, s) for s in range(6)]
            if base in ("cat", "poisson"):
                out += [("rare", fam, "symbols", n, s) for s in range(6)]
        out += [("rare", fam, "states", n, s) for n in (20, 60, 130) for s in range(2)]
    return out


# ---------------------------------------------------------- forms of priors

def forms(fam, nc, nf, nm, T):
    """(option, list of equivalent values) for a new model."""
    base, _, cov = fam.partition("-")

    def full(v, *shape):
        return [np.full(shape, v), np.full(shape, v).tolist()]

    if base.startswith("v"):
        out = [("startprob_prior", [.75] + full(.75, nc)),
               ("transmat_prior", [.75] + full(.75, nc, nc))]
        if base == "vcat":
            return out + [("emissionprob_prior", [.75] + full(.75, nc, nf))]
        scale = {"spherical": np.full(nc, .5), "diag": np.full((nc, nf), .5),
                 "full": np.tile(.5 * np.eye(nf), (nc, 1, 1)), "tied": .5 * np.eye(nf)}[cov]
        return out + [("means_prior", full(.25, nc, nf)), ("beta_prior", full(2., nc)),
                      ("dof_prior", [nf + 2., nf + 2] if cov == "tied" else full(nf + 2., nc)),
                      ("scale_prior", [scale, scale.tolist()])]
    out = [("startprob_prior", [2., 2] + full(2., nc)[:1]),
           ("transmat_prior", [2., 2] + full(2., nc, nc)[:1])]
    if base == "cat":
        out.append(("emissionprob_prior", [1.5] + full(1.5, nc, nf)[:1]))
    elif base == "poisson":
        out += [(n, [1.5] + full(1.5, nc)[:1] + full(1.5, nc, nf)[:1])
                for n in ("lambdas_prior", "lambdas_weight")]
    elif base == "gauss":
        out += [("means_prior", [.5] + full(.5, nc)[:1] + full(.5, nc, nf)[:1]),
                ("means_weight", [.5] + full(.5, nc)[:1])]
        if cov != "tied":
            out += [("covars_prior", [.5] + full(.5, nc)[:1]),
                    ("covars_weight", [4.] + full(4., nc)[:1])]
    elif base == "gmm":
        cshape = {"spherical": (nc, nm), "diag": (nc, nm, nf), "full": (nc, nm, nf, nf),
                  "tied": (nc, nf, nf)}[cov]
        wshape = cshape[:-2] if cov in ("full", "tied") else cshape
        out += [("weights_prior", [2.] + full(2., nm) + full(2., nc, nm)),
                ("means_prior", [.5] + full(.5, nm, nf) + full(.5, nc, nm, nf)),
                ("means_weight", [.5] + full(.5, nm) + full(.5, nc, nm)),
                ("covars_prior", [1.5] + full(1.5, *cshape)),
                ("covars_weight", [2.5] + full(2.5, *wshape))]
    return out


def forms_fn(task, acc):
    _, fam, nc, nf, nm = task
    pi = np.full(nc, 1 / nc)
    base = gen.family_base(fam)
    spec = gen.Spec(fam, pi, np.tile(pi, (nc, 1)), nf=nf, n_mix=nm)
    alpha = gen.alphabet(fam, nf)
    X = gen.rows(alpha, (ref.irregular((24,), 3) * len(alpha)).astype(int))
    if base == "gauss":
        X = X + ref.irregular(X.shape, 4) - .5
    fl = forms(fam, nc, nf, nm, len(X))
    # Weights of a prior only act together with it.
    together = dict(means_prior=("means_weight", .5), means_weight=("means_prior", .5),
                    lambdas_prior=("lambdas_weight", .5), lambdas_weight=("lambdas_prior", .5))
    for name, values in fl:
        extra = dict([together[name]]) if not base.startswith("v") and name in together \
            and spec.base != "vgauss" else {}
        if spec.base in ("cat", "vcat"):
            extra["n_features"] = nf
        base_line = None
        for v in values:
            acc.count(states=1, transitions=1, traces=1)
            key = f"forms/{fam}/{nc}/{nf}/{nm}/{name}/{type(v).__name__}{np.shape(v)}"
            try:
                m = spec.blank(n_iter=2, tol=-np.inf, random_state=1, **{name: v}, **extra)
                m.fit(X, [14, 10])
                got = shown(m, spec.base)
                got["score"] = np.asarray(m.score(X, [14, 10]))
            except Exception as exc:
                acc.fail(key, f"{name} = {v} raised {exc!r}")
                continue
            if not all(np.isfinite(g).all() for g in got.values()):
                acc.fail(key, f"{name} = {v}: not finite after training")
            if base_line is None:
                base_line = got
            elif not all(ref.close(g, base_line[n], 1e-12, 1e-12) for n, g in got.items()):
                acc.fail(key, f"{name} = {v} trains differently than {values[0]}")


def task_fn(task, acc):
    {"small": small_fn, "groups": groups_fn, "rare": rare_fn, "forms": forms_fn}[task[0]](task, acc)
    acc.sample(dict(task=str(task)))


def run(tier, acc):
    todo = small_tasks(tier) + rare_tasks(tier)
    fams = [f for f in gen.FAMILIES if "custom" not in f]
    todo += [("groups", f, nc, nm, nf) for f in fams if gen.family_base(f) == "gauss"
             for nc in (1, 2, 3, 4) for nf in (1, 2, 3)
             for nm in ((1, 2, 3) if f.startswith("gmm") else (1,))]
    todo += [("forms", f, nc, nf, nm) for f in fams for nc in (1, 2, 3) for nf in (2, 3)
             for nm in ((1, 2, 3) if f.startswith("gmm") else (1,))]
    core.explore(task_fn, todo, acc, timeout=400)
