"""C16: renaming states, mixture components, features or symbols only renames
the results."""

import itertools

import numpy as np

from .. import core, gen, ref

LEVEL = "model_checking"
BOUNDS = {
    "quick": "17 families x both implementations, 2 and 3 states, 2 mixture components, 2 features "
             "(3 symbols): all permutations of states x components x features/symbols; all "
             "sequences of up to 3 observations scored, decoded and predicted, also (log, 2 observations) far "
             "from all Gaussian means; 2 training "
             "iterations on multi-sequence data with state-dependent priors; 3 features and initial "
             "covariances for the Gaussian families",
    "thorough": "the same with up to 4 states, 3 components, 3 features, all chain structures, all sequences "
                "of up to 4 observations, 1-4 training iterations",
}
ASSUMPTIONS = [
    "Permuting the summation order may change results by rounding: relative tolerance 1e-9 "
    "(1e-6 after training).",
    "Of equally probable paths either may be returned.",
]

S, K, F = "S", "K", "F"


def axes(spec, name):
    """Axes of a parameter or prior: S(tate), K (component), F(eature)."""
    gmm = spec.base == "gmm"
    cov = {"spherical": "SK" if gmm else "S", "diag": "SKF" if gmm else "SF",
           "full": "SKFF" if gmm else "SFF", "tied": "SFF" if gmm else "FF"}.get(spec.cov)
    stem = name.rstrip("_")
    for suffix in ("_prior", "_posterior", "_weight"):
        if stem.endswith(suffix):
            stem = stem[:-len(suffix)]
    if name == "means_weight":
        return "SK" if gmm else "SF"
    if name == "covars_weight":
        if gmm:
            return {"spherical": "SK", "diag": "SKF", "full": "SK", "tied": "S"}[spec.cov]
        return ""
    if name == "covars_prior" and not gmm:
        return {"spherical": "S", "diag": "SF", "full": "SFF", "tied": "FF"}[spec.cov]
    return {"startprob": "S", "transmat": "SS", "emissionprob": "SF", "lambdas": "SF",
            "means": "SKF" if gmm else "SF", "covars": cov, "scale": cov,
            "weights": "SK", "beta": "S", "dof": "S", "table": "FS"}.get(stem)


def permute(spec, name, v, perms):
    if np.ndim(v) == 0 or name == "n_features":
        return v
    ax = axes(spec, name)
    assert ax is not None, name
    v = np.asarray(v)
    assert len(ax) == v.ndim, (name, ax, v.shape)
    for i, a in enumerate(ax):
        v = np.take(v, perms[a], axis=i)
    return v


def inverse(p):
    inv = np.empty(len(p), int)
    inv[list(p)] = np.arange(len(p))
    return inv


def permute_data(spec, X, perms):
    if gen.family_base(spec.fam) == "cat":
        return inverse(perms[F])[X]
    return X[:, list(perms[F])]


def priors(spec):
    """State-, component- and feature-dependent priors for training."""
    nc, nf, nm = spec.nc, spec.nf, spec.n_mix
    d = {}
    if spec.base.startswith("v"):
        return d       # they are attributes of the model already
    d["startprob_prior"] = 1 + ref.irregular((nc,), 21)
    d["transmat_prior"] = 1 + ref.irregular((nc, nc), 22)
    if spec.base == "cat":
        d["emissionprob_prior"] = 1 + ref.irregular((nc, nf), 23)
    if spec.base == "poisson":
        d["lambdas_prior"] = ref.irregular((nc, nf), 24)
        d["lambdas_weight"] = ref.irregular((nc, nf), 25)
    if spec.base == "gauss":
        d["means_prior"] = ref.irregular((nc, nf), 26)
        d["means_weight"] = .25 + ref.irregular((nc, nf), 27)
        r = ref.irregular((nc, nf), 28)
        d["covars_prior"] = {"spherical": r, "diag": r,
                             "full": np.array([gen.spd(i, nf) for i in range(nc)]),
                             "tied": gen.spd(1, nf)}[spec.cov]
        if spec.cov == "spherical":
            d["covars_prior"] = .3
            d["means_weight"] = .5
        d["covars_weight"] = 2.
        if spec.cov in ("full", "tied"):
            d["means_weight"] = .5
    if spec.base == "gmm":
        d["weights_prior"] = 1 + ref.irregular((nc, nm), 30)
        d["means_prior"] = ref.irregular((nc, nm, nf), 31)
        d["means_weight"] = .25 + ref.irregular((nc, nm), 32)
        if spec.cov in ("diag", "spherical"):
            sh = (nc, nm, nf) if spec.cov == "diag" else (nc, nm)
            d["covars_prior"] = .5 + ref.irregular(sh, 33)
            d["covars_weight"] = .5 + ref.irregular(sh, 34)
        else:
            ix = (nc, nm) if spec.cov == "full" else (nc,)
            d["covars_prior"] = np.array([gen.spd(i, nf) for i in range(int(np.prod(ix)))]
                                         ).reshape(*ix, nf, nf)
            d["covars_weight"] = 5 + ref.irregular(ix, 35)
    if spec.base == "custom":
        d = {k: d[k] for k in ("startprob_prior", "transmat_prior")}
    return d


def vb_attrs(spec, p):
    """Asymmetric hyperparameters for the variational families."""
    if not spec.base.startswith("v"):
        return p
    for i, k in enumerate(sorted(p)):
        if k.endswith("_prior_") and np.ndim(p[k]) and not k.startswith("scale"):
            p[k] = p[k] * (1 + .3 * ref.irregular(p[k].shape, 40 + i))
    return p


def training_data(spec):
    alpha = gen.alphabet(spec.fam, spec.nf)
    n = len(alpha) if gen.family_base(spec.fam) != "cat" else spec.nf
    X = gen.rows(alpha, (ref.irregular((16,), 9) * n).astype(int))
    if gen.family_base(spec.fam) == "gauss":
        X = X + (ref.irregular(X.shape, 13) - .5)
    return X, [5, 1, 7, 3]


def all_perms(spec):
    ks = range(spec.n_mix) if spec.base == "gmm" else range(1)
    for s in itertools.permutations(range(spec.nc)):
        for k in itertools.permutations(ks):
            for f in itertools.permutations(range(spec.nf)):
                yield {S: s, K: k, F: f}


def joint(spec, X, path):
    lp = ref.log(spec.pi[path[0]])
    for a, b in zip(path, path[1:]):
        lp = lp + ref.log(spec.A[a, b])
    for x, s in zip(X, path):
        lp = lp + spec.logb(x)[s]
    return float(lp)


def task(t, acc):
    fam, impl, nc, chain, nf, nm, tmax, iters = t
    _, pi, A = [c for c in gen.chains(nc) if c[0] == chain][0]
    spec = gen.Spec(fam, pi, A, nf=nf, n_mix=nm, implementation=impl)
    base = spec.make()
    P = vb_attrs(spec, gen.shown(spec, base))
    base = gen.rebuild(spec, P)
    alpha = gen.alphabet(fam, nf)[:3]
    seqs = [gen.rows(alpha, s) for s in gen.sequences(min(3, len(alpha)), tmax)]
    if gen.family_base(fam) == "gauss" and impl == "log":
        # Far from all means, where the states differ by thousands of nats.
        far = [60 * np.asarray(x) for x in alpha]
        seqs += [gen.rows(far, s) for s in gen.sequences(len(far), min(tmax, 2))]
    TX, TL = training_data(spec)
    pr = priors(spec)

    def query(m, X):
        try:
            lp, post = m.score_samples(X)
            v, vp = m.decode(X, algorithm="viterbi")
            a, ap = m.decode(X, algorithm="map")
            return lp, post, v, vp, a, ap, m.score(X)
        except Exception as e:
            return type(e).__name__

    def train(P, pr, X, n):
        kw = {} if spec.base != "custom" else {"params": "st"}
        m = gen.rebuild(spec, P, n_iter=n, tol=-np.inf, init_params="", **pr, **kw)
        try:
            m.fit(X, TL)
        except Exception as e:
            return type(e).__name__, None
        return gen.shown(spec, m), list(m.monitor_.history)
    R = [query(base, X) for X in seqs]
    T = {n: train(P, pr, TX, n) for n in iters}
    acc.bump("trainings_that_raise", sum(isinstance(x[0], str) for x in T.values()))
    extra = {}
    if hasattr(base, "aic") and spec.base != "custom":
        extra["aic"] = base.aic(TX, TL)
        extra["bic"] = base.bic(TX, TL)
    # The stationary distribution is unique for irreducible chains only.
    if hasattr(base, "get_stationary_distribution") and chain in ("generic", "uniform", "cyclic"):
        extra["stationary"] = base.get_stationary_distribution()
    for perms in all_perms(spec):
        acc.count(states=1)
        key = f"{fam}/{impl}/{chain}/nc={nc}/nf={nf}/nm={nm}/{perms}"
        P2 = {k: permute(spec, k, v, perms) for k, v in P.items()}
        pr2 = {k: permute(spec, k, v, perms) for k, v in pr.items()}
        m2 = gen.rebuild(spec, P2)
        ps, inv = list(perms[S]), inverse(perms[S])
        for X, r in zip(seqs, R):
            acc.count(transitions=1, traces=1)
            r2 = query(m2, permute_data(spec, X, perms))
            if isinstance(r, str) or isinstance(r2, str):
                if r != r2:
                    acc.fail(key + f"/{X.tolist()}", f"the renamed model gives {r2} instead of {r}",
                             model=spec.label())
                continue
            lp, post, v, vp, a, ap, sc = r
            lp2, post2, v2, vp2, a2, ap2, sc2 = r2
            if not (ref.close(lp, lp2) and ref.close(sc, sc2) and ref.close(v, v2)):
                acc.fail(key + f"/{X.tolist()}/score", f"scores {lp}, {v} became {lp2}, {v2}",
                         model=spec.label())
            if lp == -np.inf:
                continue
            if not ref.close(post[:, ps], post2, 1e-9, 1e-12):
                acc.fail(key + f"/{X.tolist()}/posterior", "posteriors are not renamed: "
                         f"{post.tolist()} {post2.tolist()}", model=spec.label())
            if not ref.close(a, a2):
                acc.fail(key + f"/{X.tolist()}/map", f"MAP score {a} became {a2}")
            if list(inv[vp]) != list(vp2) and spec.base[0] != "v":
                j1, j2 = joint(spec, X, list(vp)), joint(spec, X, [ps[s] for s in vp2])
                if not ref.close(j1, j2):
                    acc.fail(key + f"/{X.tolist()}/path", f"path {vp} became {vp2}",
                             model=spec.label())
            for t_, (s1, s2) in enumerate(zip(ap, ap2)):
                if ps[s2] != s1 and not ref.close(post[t_, s1], post[t_, ps[s2]]):
                    acc.fail(key + f"/{X.tolist()}/map-path", f"MAP path {ap} became {ap2}",
                             model=spec.label())
                    break
        TX2 = permute_data(spec, TX, perms)
        if "aic" in extra:
            acc.count(transitions=2, traces=2)
            if not (ref.close(m2.aic(TX2, TL), extra["aic"])
                    and ref.close(m2.bic(TX2, TL), extra["bic"])):
                acc.fail(key + "/aic", "information criteria depend on the names")
        if "stationary" in extra:
            acc.count(transitions=1, traces=1)
            if not ref.close(m2.get_stationary_distribution(), extra["stationary"][ps]):
                acc.fail(key + "/stationary", "stationary distribution is not renamed")
        for n in iters:
            acc.count(transitions=n, traces=1)
            p, h = T[n]
            p2, h2 = train(P2, pr2, TX2, n)
            if isinstance(p, str) or isinstance(p2, str):
                if p != p2:
                    acc.fail(key + f"/train{n}", f"training gives {p2} instead of {p}",
                             model=spec.label())
                continue
            if not ref.close(h, h2, 1e-8, 1e-8):
                acc.fail(key + f"/history{n}", f"training history {h} became {h2}")
            for k in p:
                w = permute(spec, k, p[k], perms)
                if not ref.close(w, p2[k], 1e-6, 1e-9):
                    acc.fail(key + f"/train{n}/{k}", f"trained {k} is not renamed: "
                             f"{np.asarray(w).tolist()} but {np.asarray(p2[k]).tolist()}",
                             model=spec.label())
    acc.sample(dict(family=fam, impl=impl, chain=chain, nc=nc, nf=nf))


def init_task(t, acc):
    """Initial covariances under renamed features and states."""
    fam, nc, nf, nm, mc = t
    _, pi, A = gen.chains(nc)[0]
    spec = gen.Spec(fam, pi, A, nf=nf, n_mix=nm)
    P = gen.shown(spec, spec.make())
    TX, TL = training_data(spec)

    def start(P, X, letters):
        m = gen.rebuild(spec, P, n_iter=1, params="", init_params=letters, random_state=0,
                        min_covar=mc)
        m.fit(X, TL)
        return gen.shown(spec, m)
    for letters in ("c", "mc"):
        # The initial covariances are those of all the data, whatever the clusters.
        base = start(P, TX, letters)
        for perms in all_perms(spec):
            acc.count(states=1, transitions=1, traces=1)
            if "m" in letters:
                perms = {**perms, S: tuple(range(nc)), K: tuple(range(spec.n_mix))}
            P2 = {k: permute(spec, k, v, perms) for k, v in P.items()}
            got = start(P2, permute_data(spec, TX, perms), letters)
            want = permute(spec, "covars_", base["covars_"], perms)
            if not ref.close(got["covars_"], want, 1e-9, 1e-12):
                acc.fail(f"{fam}/init {letters}/nc={nc}/nf={nf}/nm={nm}/{perms}",
                         f"initial covars_ are not renamed: {want.tolist()} but "
                         f"{got['covars_'].tolist()}", model=spec.label())


def run(tier, acc):
    inits = [(f, nc, nf, nm, mc) for f in gen.FAMILIES if gen.family_base(f) == "gauss"
             and f.startswith(("gauss", "gmm"))
             for nc in (1, 2, 3) for nf in (1, 2, 3)
             for nm in ((1, 2) if f.startswith("gmm") else (1,)) for mc in (1e-3, .5)]
    core.explore(init_task, inits, acc, timeout=600)
    tasks = []
    for fam in gen.FAMILIES:
        b = gen.family_base(fam)
        disc = b in ("cat", "multinomial")
        for impl in ("log", "scaling"):
            if tier == "quick":
                cfg = [(2, "generic", 2, 2), (3, "sparse", 2, 2), (3, "generic", 2, 2),
                       (3, "left-right", 1, 1)]
                if b == "gauss":
                    cfg.append((2, "generic", 3, 2))
            else:
                cfg = [(n, c, f, k) for n in (2, 3) for c, _, _ in gen.chains(n)
                       for f in (1, 2, 3) for k in (1, 2, 3)] + [
                           (4, "generic", 2, 2), (4, "sparse", 2, 2)]
            for nc, ch, nf, nm in cfg:
                if not fam.startswith("gmm") and nm == 3:
                    continue
                if not fam.startswith("gmm"):
                    nm = 1
                if disc and nf < 2:
                    nf = 3
                elif disc and tier == "quick":
                    nf = 3
                # One symbol fewer than rows of the alphabet is fine; the
                # observations used are those of the model.
                tmax = 3 if tier == "quick" else (4 if nc < 4 else 3)
                if b == "cat" and nf == 2:
                    continue
                tasks.append((fam, impl, nc, ch, nf, nm, tmax,
                              (1, 2) if tier == "quick" else (1, 2, 4)))
    core.explore(task, sorted(set(tasks), key=lambda t: (-t[2], t[0][:3] != "gmm", t)), acc, timeout=1800)
