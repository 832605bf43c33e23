"""C23: information criteria.

States: (family, n_components, n_features, n_mix, data set, cut into
sequences).  The oracle lists the parameter arrays of the family entry by
entry, identifies entries that the definition forces to be equal (symmetry,
sharing), subtracts one dimension per probability distribution, and uses its
own likelihood.
"""

import itertools

import numpy as np

from .. import core, gen, ref

BOUNDS = {
    "quick": "families x n_components 1..4 x n_features 1..4 x n_mix 1..3, all "
             "compositions of 4 samples, both implementations, 5 choices of what training updates",
    "thorough": "families x n_components 1..8 x n_features 1..6 x n_mix 1..4, "
                "all compositions of 6 samples, both implementations"}
ASSUMPTIONS = ["the likelihood oracle enumerates all hidden paths for up to 3 "
               "states and uses 80-bit recursions beyond"]


def dimension(fam, nc, nf, nm):
    """Dimension of the family's parameter space, by listing coordinates."""
    base, _, cov = fam.partition("-")
    free, constraints = set(), 0
    free |= {("pi", i) for i in range(nc)}
    constraints += 1
    free |= {("A", i, j) for i in range(nc) for j in range(nc)}
    constraints += nc
    if base in ("cat", "multinomial"):
        free |= {("B", i, k) for i in range(nc) for k in range(nf)}
        constraints += nc
    elif base == "poisson":
        free |= {("l", i, k) for i in range(nc) for k in range(nf)}
    else:
        mixes = range(nm if base == "gmm" else 1)
        for i, k in itertools.product(range(nc), mixes):
            for a in range(nf):
                free.add(("mean", i, k, a))
                for b in range(nf):
                    # name of the coordinate holding covariance (a, b)
                    if cov == "spherical":
                        c = ("c", i, k) if a == b else None
                    elif cov == "diag":
                        c = ("c", i, k, a) if a == b else None
                    elif cov == "full":
                        c = ("c", i, k, frozenset((a, b)))
                    elif base == "gmm":   # tied among the mixture components
                        c = ("c", i, frozenset((a, b)))
                    else:
                        c = ("c", frozenset((a, b)))
                    if c:
                        free.add(c)
            if base == "gmm":
                free.add(("w", i, k))
        if base == "gmm":
            constraints += nc
    return len(free) - constraints


def spec_for(fam, nc, nf, nm):
    """A model of any size (gen.Spec's constants only cover small ones)."""
    base, _, cov = fam.partition("-")
    pi, A = ref.stochastic((nc,), 1), ref.stochastic((nc, nc), 2)
    emis = {}
    seed = 17 * nc + 3 * nf + nm

    def spd(k):
        M = ref.irregular((nf, nf), seed + k) - .5
        return M @ M.T + np.eye(nf)

    if base in ("gauss", "gmm"):
        sh = (nc,) if base == "gauss" else (nc, nm)
        emis["means_"] = 2 * ref.irregular(sh + (nf,), seed) - 1
        if cov == "spherical":
            emis["covars_"] = .5 + ref.irregular(sh, seed + 1)
        elif cov == "diag":
            emis["covars_"] = .5 + ref.irregular(sh + (nf,), seed + 1)
        elif cov == "full":
            emis["covars_"] = np.array(
                [spd(k) for k in range(int(np.prod(sh)))]).reshape(sh + (nf, nf))
        elif base == "gauss":
            emis["covars_"] = spd(0)
        else:
            emis["covars_"] = np.array([spd(k) for k in range(nc)])
        if base == "gmm":
            emis["weights_"] = ref.stochastic((nc, nm), seed + 5)
    return gen.Spec(fam, pi, A, nf=nf, n_mix=nm, emis=emis)


def data(fam, nf, n):
    base = fam.split("-")[0]
    r = ref.irregular((n, nf), 5 * nf + n)
    if base == "cat":
        return (r[:, :1] * nf).astype(int)
    if base == "poisson":
        return (r * 4).astype(int)
    if base == "multinomial":
        X = np.zeros((n, nf), int)
        for t in range(n):
            for d in range(3):
                X[t, (t + 2 * d * (t % 2)) % nf] += 1
        return X
    return 3 * r - 1.5


def det_logpdf(x, mu, S):
    L = np.linalg.cholesky(np.array(S, float))
    z = np.linalg.solve(L, np.array(x, float) - mu)
    return (-(len(z) * np.log(2 * np.pi) + z @ z) / 2
            - np.log(np.diag(L)).sum())


def loglik(spec, X, lengths):
    total = 0
    if spec.base in ("gauss", "gmm"):
        def logb(x):
            if spec.base == "gauss":
                return [det_logpdf(x, spec.emis["means_"][c], spec.full_cov(c))
                        for c in range(spec.nc)]
            return [ref.lse([np.log(spec.emis["weights_"][c, k])
                             + det_logpdf(x, spec.emis["means_"][c, k],
                                          spec.full_cov(c, k))
                             for k in range(spec.n_mix)])
                    for c in range(spec.nc)]
        B = np.array([logb(x) for x in X], dtype=ref.LD)
    else:
        B = spec.logB(X)
    start = 0
    for n in lengths:
        b = B[start:start + n]
        if spec.nc <= 3:
            total += ref.lse(ref.Paths(spec.pi, spec.A).table(b))
        else:
            total += ref.lse(ref.forward(spec.pi, spec.A, b)[-1])
        start += n
    return total


def task_fn(task, acc):
    fam, nc, nf, nm, n = task
    spec = spec_for(fam, nc, nf, nm)
    d = dimension(fam, nc, nf, nm)
    X = data(fam, nf, n)
    acc.count(states=1)
    for impl in ("log", "scaling"):
        for comp in ref.compositions(n):
            for args in ([(X, list(comp))] + ([(X,)] if len(comp) == 1 else [])):
                L = loglik(spec, X, comp)
                want = [-2 * L + 2 * d, -2 * L + d * np.log(n)]
                # What training would update does not matter.
                letters = {"cat": "ste", "multinomial": "ste", "poisson": "stl",
                           "gauss": "stmc", "gmm": "stmcw"}[spec.base]
                for kw in ({}, {"params": ""}, {"params": letters}, {"params": letters[1:]},
                           {"params": letters[:1], "init_params": letters[1:]}):
                    if kw and len(comp) > 1:
                        continue
                    m = spec.make(implementation=impl, **kw)
                    key = f"{fam}/nc{nc}/nf{nf}/nm{nm}/{impl}/{comp}/{len(args)}/{kw}"
                    got = [m.aic(*args), m.bic(*args)]
                    acc.count(transitions=2, traces=2)
                    for name, g, w in zip(("aic", "bic"), got, want):
                        if np.ndim(g) != 0 or not ref.close(g, w):
                            acc.fail(f"{key}/{name}",
                                     f"{name} = {g!r}, should be {float(w)!r} "
                                     f"({d} free parameters)", spec=spec.label())
    acc.sample({"family": fam, "nc": nc, "nf": nf, "nm": nm, "free": d})


def run(tier, acc):
    big = tier == "thorough"
    tasks = []
    for fam in gen.EM_FAMILIES:
        for nc in range(1, 9 if big else 5):
            for nf in range(1, 7 if big else 5):
                if nf == 1 and fam in ("cat", "multinomial"):
                    continue
                for nm in range(1, (5 if big else 4) if fam.startswith("gmm") else 2):
                    tasks.append((fam, nc, nf, nm, 6 if big else 4))
    core.explore(task_fn, tasks, acc, timeout=600)
