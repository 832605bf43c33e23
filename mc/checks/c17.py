"""C17: variational training performs the exact update and records the exact
evidence lower bound.

Model: the variational posterior (Dirichlet / normal-Wishart hyperparameters).
Transition: one iteration.  The oracle enumerates every hidden path under the
sub-normalised parameters exp(E_q[log theta]) (digamma of our own), so expected
counts are sums over all paths; the posterior is prior + counts (for the scale:
the scatter around the posterior mean, projected on the covariance type); the
bound is log sum over paths - KL(q || prior).  It is compared with the exact log
evidence: per path, the closed-form marginal likelihood of a conjugate model.
"""
import functools
import itertools

import numpy as np

from .. import core, gen, ref, walk
from . import c18

LD = ref.LD
LEVEL = "model_checking"
BOUNDS = {
    "quick": "VariationalCategoricalHMM and VariationalGaussianHMM (4 covariance types, 1-2 "
             "features) x both implementations; 1-3 states; every data set of one sequence "
             "(length <= 3) or of two sequences (length <= 2) over 2-3 symbols x 3 priors x 3 "
             "starting posteriors (for more than 2 samples: 1 of 3 in rotation), 4 "
             "iterations; every subset of params x 3 prior-start pairs on 3 data sets; "
             "defaults and constructor priors (scalar and array) from a default start; data sets of up to 131 samples, 70 "
             "sequences, 9 states, 9 features, 300 symbols; "
             "the exact evidence for every data set with at most 729 paths",
    "thorough": "as quick with sequences to length 5, pairs to length 3, 8 iterations, every "
                "subset of params on every pair, 3 features",
}
ASSUMPTIONS = [
    "the constant -T*D*log(2 pi)/2 is left out of the Gaussian bound, as the code documents",
    "diag and spherical covariances: the Wishart distribution over full matrices with a "
    "diagonal / isotropic scale, as in the code and the papers it cites",
    "hyperparameters in double range; comparison to 1e-8 relative",
]


class Q:
    """The hyperparameters of the variational distribution or of the prior."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def copy(self, **kw):
        return Q(**{**self.__dict__, **kw})


def elog(alpha):
    """E[log p] under Dirichlet rows."""
    alpha = ref.ld(alpha)
    d = np.vectorize(c18.digamma, otypes=[LD])
    return d(alpha) - d(alpha.sum(axis=-1, keepdims=True))


def full_scale(cov, s, nc, nf):
    s = ref.ld(s)
    if cov == "full":
        return s
    if cov == "tied":
        return np.array([s] * nc)
    if cov == "diag":
        return np.array([np.diag(r) for r in s])
    return np.array([np.eye(nf, dtype=LD) * r for r in s])


def dofs(q, nc):
    return [q.dof] * nc if np.ndim(q.dof) == 0 else list(q.dof)


def emission(kind, cov, q, X):
    """E_q[log p(x_t | theta_c)], without the constant."""
    if kind == "cat":
        E = elog(q.e)
        return np.array([E[:, int(x[0])] for x in X], dtype=LD)
    nc, nf = q.m.shape
    S = full_scale(cov, q.scale, nc, nf)
    out = np.empty((len(X), nc), dtype=LD)
    for c, nu in enumerate(dofs(q, nc)):
        det, inv = gen._det_inv(S[c])
        eld = sum(c18.digamma((LD(nu) - i) / 2) for i in range(nf)) \
            + nf * np.log(LD(2)) - np.log(det)
        for t, x in enumerate(X):
            d = ref.ld(x) - ref.ld(q.m[c])
            out[t, c] = (eld - LD(nu) * (d @ inv @ d) - nf / LD(q.beta[c])) / 2
    return out


class SubPaths(ref.Paths):
    def __init__(self, lpi, lA):
        self.lpi, self.lA, self.nc = lpi, lA, len(lpi)


def expectations(kind, cov, q, seqs):
    """log Z, expected start / transition counts and responsibilities."""
    p = SubPaths(elog(q.s), elog(q.t))
    z, start, trans, gam = LD(0), 0, 0, []
    for X in seqs:
        logB = emission(kind, cov, q, X)
        if len(X) <= 8 and p.nc ** len(X) <= 7000:
            tab = p.table(logB)
            ll, g, xi = p.loglik(tab), p.posteriors(tab), p.xi(tab)
        else:
            ll, g, xi = ref.smooth_log(p.lpi, p.lA, logB)
        z += ll
        start = start + g[0]
        trans = trans + xi
        gam.append(g)
    return z, start, trans, np.concatenate(gam)


def kl(kind, cov, q, p):
    nc = len(q.s)
    r = c18.kl_dirichlet(list(q.s), list(p.s))
    for a, b in zip(q.t, p.t):
        r += c18.kl_dirichlet(list(a), list(b))
    if kind == "cat":
        for a, b in zip(q.e, p.e):
            r += c18.kl_dirichlet(list(a), list(b))
        return r
    nf = q.m.shape[1]
    Sq, Sp = full_scale(cov, q.scale, nc, nf), full_scale(cov, p.scale, nc, nf)
    nq, np_ = dofs(q, nc), dofs(p, nc)
    for c in range(nc):
        _, inv = gen._det_inv(Sq[c])
        d = ref.ld(q.m[c]) - ref.ld(p.m[c])
        ratio = LD(p.beta[c]) / LD(q.beta[c])
        # E over the precision of KL(N(m, 1/(beta L)) || N(m0, 1/(beta0 L)))
        r += (nf * (ratio - 1 - np.log(ratio)) + LD(p.beta[c]) * nq[c] * (d @ inv @ d)) / 2
        if cov != "tied" or c == 0:
            r += c18.kl_wishart(nq[c], Sq[c], np_[c], Sp[c])
    return r


def update(kind, cov, q, p, params, seqs, exp):
    """The next variational distribution."""
    _, start, trans, g = exp
    new = q.copy()
    if "s" in params:
        new.s = p.s + start
    if "t" in params:
        new.t = p.t + trans
    X = ref.ld(np.concatenate(seqs))
    if kind == "cat":
        if "e" in params:
            onehot = np.array([[int(x[0]) == k for k in range(p.e.shape[1])] for x in X])
            new.e = p.e + np.array([[g[onehot[:, k], c].sum() for k in range(p.e.shape[1])]
                                    for c in range(len(p.s))], dtype=LD)
        return new
    N = g.sum(axis=0)
    nc, nf = p.m.shape
    if "m" in params:
        new.beta = p.beta + N
        new.m = np.array([(p.beta[c] * p.m[c] + (g[:, c, None] * X).sum(axis=0)) / new.beta[c]
                          for c in range(nc)], dtype=LD)
    if "c" in params:
        scat = np.zeros((nc, nf, nf), dtype=LD)
        for c in range(nc):
            for t, x in enumerate(X):
                d = x - new.m[c]
                scat[c] += g[t, c] * np.outer(d, d)
            d = ref.ld(p.m[c]) - new.m[c]
            scat[c] += p.beta[c] * np.outer(d, d)
        if cov == "tied":
            new.scale, new.dof = p.scale + scat.sum(axis=0), p.dof + N.sum()
        else:
            new.dof = p.dof + N
            new.scale = p.scale + {
                "full": lambda: scat,
                "diag": lambda: np.array([np.diag(s) for s in scat]),
                "spherical": lambda: np.array([np.trace(s) / nf for s in scat])}[cov]()
    return new


# ------------------------------------------------------- exact evidence

@functools.lru_cache(65536)
def lbeta_(a):
    return sum(c18.gammaln(x) for x in a) - c18.gammaln(sum(map(LD, a)))


def lbeta(a):
    return lbeta_(tuple(a))


def lognorm(nu, S):
    D = len(S)
    det, _ = gen._det_inv(S)
    nu = LD(nu)
    return nu * D / 2 * np.log(LD(2)) - nu / 2 * np.log(det) + sum(
        c18.gammaln((nu - i) / 2) for i in range(D))


def evidence(kind, cov, p, seqs):
    """log p(X) with all parameters integrated out: a sum over all paths."""
    nc = len(p.s)
    X = np.concatenate(seqs)
    cuts = set(np.cumsum([len(s) for s in seqs])[:-1]) | {0}
    vals, memo = [], {}
    if kind != "cat":
        nf = p.m.shape[1]
        S0, nu0 = full_scale(cov, p.scale, nc, nf), dofs(p, nc)

    def mass(c, idx):
        """(scatter contribution to the scale, log of the factor of beta) of the
        samples idx in state c."""
        if (c, idx) not in memo:
            xs = ref.ld(X[list(idx)])
            n, b0, m0 = len(idx), LD(p.beta[c]), ref.ld(p.m[c])
            b = b0 + n
            m = (b0 * m0 + xs.sum(axis=0)) / b
            add = b0 * np.outer(m0, m0) - b * np.outer(m, m) + xs.T @ xs
            memo[c, idx] = add, nf / LD(2) * np.log(b0 / b)
        return memo[c, idx]
    for path in itertools.product(range(nc), repeat=len(X)):
        s, t = np.array(p.s, dtype=LD), np.array(p.t, dtype=LD)
        for i, c in enumerate(path):
            if i in cuts:
                s[c] += 1
            else:
                t[path[i - 1], c] += 1
        key = (tuple(s), tuple(t.ravel()))
        if key not in memo:
            memo[key] = lbeta(s) - lbeta(p.s) + sum(lbeta(a) - lbeta(b) for a, b in zip(t, p.t))
        v = memo[key]
        if kind == "cat":
            e = np.array(p.e, dtype=LD)
            for x, c in zip(X, path):
                e[c, int(x[0])] += 1
            v = v + sum(lbeta(a) - lbeta(b) for a, b in zip(e, p.e))
        else:
            tot, n = 0, 0
            for c in range(nc):
                idx = tuple(i for i, z in enumerate(path) if z == c)
                if not idx:
                    continue
                add, lb = mass(c, idx)
                v = v + lb
                if cov == "tied":
                    tot, n = tot + add, n + len(idx)
                else:
                    v = v + lognorm(nu0[c] + len(idx), S0[c] + add) - lognorm(nu0[c], S0[c])
            if cov == "tied":
                v = v + lognorm(nu0[0] + n, S0[0] + tot) - lognorm(nu0[0], S0[0])
        vals.append(v)
    return ref.lse(np.array(vals, dtype=LD))


# ------------------------------------------------------------- the code

NAMES = {"s": "startprob", "t": "transmat", "e": "emissionprob", "m": "means",
         "beta": "beta", "dof": "dof", "scale": "scale"}


def fields(kind):
    return ("s", "t", "e") if kind == "cat" else ("s", "t", "m", "beta", "dof", "scale")


def read(m, kind, which):
    return Q(**{f: (np.array(v, dtype=LD) if np.ndim(v) else LD(v)) for f in fields(kind)
                for v in [getattr(m, f"{NAMES[f]}_{which}_")]})


def assign(m, kind, q, which):
    for f in fields(kind):
        v = getattr(q, f)
        setattr(m, f"{NAMES[f]}_{which}_",
                np.array(v, dtype=float) if np.ndim(v) else float(v))


def differ(kind, got, want):
    return [NAMES[f] for f in fields(kind)
            if not ref.close(getattr(got, f), getattr(want, f), 1e-8, 1e-9)]


def recorder(m, kind, n_iter):
    from hmmlearn.base import ConvergenceMonitor

    class Monitor(ConvergenceMonitor):
        def report(self, log_prob):
            super().report(log_prob)
            self.trace.append((read(m, kind, "posterior"), estimates(m, kind)))

        @property
        def converged(self):
            return self.iter == n_iter

    mon = Monitor(-np.inf, n_iter, False)
    mon.trace = []
    return mon


def estimates(m, kind):
    out = dict(startprob=m.startprob_, transmat=m.transmat_)
    if kind == "cat":
        out["emissionprob"] = m.emissionprob_
    else:
        out["means"], out["covars"] = m.means_, m.covars_
    return {k: np.array(v, copy=True) for k, v in out.items()}


def point(kind, cov, q):
    norm = lambda a: ref.ld(a) / ref.ld(a).sum(axis=-1, keepdims=True)
    out = dict(startprob=norm(q.s), transmat=norm(q.t))
    if kind == "cat":
        out["emissionprob"] = norm(q.e)
    else:
        nc, nf = q.m.shape
        S = full_scale(cov, q.scale, nc, nf)
        out["means"] = q.m
        out["covars"] = np.array([S[c] / LD(n) for c, n in enumerate(dofs(q, nc))])
    return out


def follow(acc, k, kind, cov, q, p, params, seqs, hist, trace, data, skip=0):
    """The recorded trace against the model, step by step."""
    for i in range(skip, len(hist)):
        acc.count(transitions=1)
        if skip and i == skip:
            q = trace[i - 1][0]
        exp = expectations(kind, cov, q, seqs)
        want = exp[0] - kl(kind, cov, q, p)
        if not ref.close(hist[i], want, 1e-8, 1e-8):
            acc.fail(f"{k}/bound", f"iteration {i + 1}: recorded bound {hist[i]!r}, the bound "
                     f"of the distribution is {float(want)!r}", **data)
            return
        if i and hist[i] < hist[i - 1] - 1e-8 * (1 + abs(hist[i - 1])):
            acc.fail(f"{k}/monotone", f"bound fell from {hist[i - 1]} to {hist[i]}", **data)
        q = update(kind, cov, q, p, params, seqs, exp)
        got, est = trace[i]
        bad = differ(kind, got, q)
        if bad:
            acc.fail(f"{k}/update", f"iteration {i + 1} (params={params!r}): {bad[0]}_posterior_ "
                     f"is {[getattr(got, f).tolist() for f in fields(kind) if NAMES[f] == bad[0]]}, "
                     f"should be {[np.asarray(getattr(q, f), float).tolist() for f in fields(kind) if NAMES[f] == bad[0]]}",
                     **data)
            return
        for name, v in point(kind, cov, got).items():
            if not ref.close(est[name], v, 1e-9, 1e-10):
                acc.fail(f"{k}/estimate", f"{name}_ is not the posterior mean", **data)
                return
        q = got


def refused(e, impl):
    """Scaling refuses sub-normalised probabilities outside of double range."""
    return impl == "scaling" and isinstance(e, ValueError) and "underflow" in str(e)


def run_case(acc, k, cls, kw, kind, cov, q, p, params, seqs, n_iter, evid, data):
    X, L = np.concatenate(seqs), [len(s) for s in seqs]
    for impl in walk.IMPLS:
        m = cls(len(p.s), implementation=impl, init_params="", params=params, n_iter=n_iter,
                tol=0, random_state=0, **kw)
        m.n_features = X.shape[1] if kind != "cat" else p.e.shape[1]
        assign(m, kind, p, "prior")
        assign(m, kind, q, "posterior")
        m.monitor_ = mon = recorder(m, kind, n_iter)
        acc.count(states=1, traces=1)
        try:
            m.fit(X, L)
        except Exception as e:
            if refused(e, impl):
                acc.bump("refused_underflow")
                continue
            acc.fail(f"{k}/{impl}", f"fit raised {e!r}", **data)
            continue
        hist = list(mon.history)
        if len(hist) != n_iter:
            acc.fail(f"{k}/{impl}/len", f"{len(hist)} iterations instead of {n_iter}", **data)
            continue
        if differ(kind, read(m, kind, "prior"), p):
            acc.fail(f"{k}/{impl}/prior", "training changed the priors", **data)
        if evid is not None:
            acc.bump("evidences")
            if not max(hist) <= evid + 1e-8 * (1 + abs(evid)):
                acc.fail(f"{k}/{impl}/evidence", f"bound {max(hist)} exceeds the exact log "
                         f"evidence {float(evid)}", **data)
        follow(acc, f"{k}/{impl}", kind, cov, q, p, params, seqs, hist, mon.trace, data)


def distributions(kind, cov, nc, nf):
    """(priors, starting posteriors)."""
    pos = lambda shape, seed, sc=1.0: .2 + sc * ref.irregular(shape, seed)

    def scale(sc, seed):
        if cov == "full":
            return np.array([gen.spd(c + seed, nf) for c in range(nc)]) * sc
        if cov == "tied":
            return gen.spd(seed, nf) * sc
        return pos((nc, nf) if cov == "diag" else (nc,), seed) * sc

    def dof(base, seed):
        return base + nf if cov == "tied" else base + nf + ref.irregular((nc,), seed)

    def make(seed, flat, sc):
        sp = (lambda shape, s: np.full(shape, flat)) if flat else \
            (lambda shape, s: pos(shape, s + seed, sc))
        out = Q(s=sp((nc,), 1), t=sp((nc, nc), 2))
        if kind == "cat":
            out.e = sp((nc, nf), 3)
        else:
            out.m = (0 if flat else 1) * (ref.irregular((nc, nf), seed + 4) - .5) * 3
            out.beta = sp((nc,), 5)
            out.dof = dof(flat or sc, seed + 6)
            out.scale = scale((flat or 1.) * .7, seed % 5)
        return out
    priors = [make(0, 1 / nc, None), make(20, None, 2.), make(40, None, .3)]
    starts = [make(60, None, 3.), make(80, None, 10.), make(0, 1.5, None)]
    # A start with very unequal weights.
    starts[1].s[0] = 0.02
    starts[1].t[:, -1] = .02
    if kind == "cat":
        starts[1].e[0, 0] = 0.02
    if nc > 1 and kind != "cat":
        starts[2].m = gen.means(nc, nf).copy()
    return priors, starts


def cls_of(kind, cov):
    from hmmlearn import vhmm
    return (vhmm.VariationalCategoricalHMM, {}) if kind == "cat" else \
        (vhmm.VariationalGaussianHMM, dict(covariance_type=cov))


def datasets(fam, nf, nc, tier):
    alpha = gen.alphabet(fam, nf)
    alpha = alpha[:nf] if fam == "vcat" else alpha[:2 if nc > 1 else 3]
    one, two = (3, 2) if tier == "quick" else (5, 3)
    if nc == 3:
        one, two = one - (tier != "quick"), 2 if tier != "quick" else 0
    k = len(alpha)
    sets = [(s,) for s in gen.sequences(k, one)]
    pairs = list(gen.sequences(k, two)) if two else [(0,), (1, 0)]
    sets += [(a, b) for a in pairs for b in pairs]
    if nf != 2:
        sets = [s for s in sets if sum(map(len, s)) <= 3]
    return [[gen.rows(alpha, s) for s in d] for d in sets
            # (the Gaussian model clusters the samples)
            if fam == "vcat" or sum(map(len, d)) >= nc]


def name_of(seqs):
    return "|".join(";".join(",".join(f"{v:g}" for v in r) for r in s) for s in seqs)


def t_small(task, acc):
    _, kind, cov, nc, nf, tier, which = task
    fam = "vcat" if kind == "cat" else "vgauss-" + cov
    cls, kw = cls_of(kind, cov)
    priors, starts = distributions(kind, cov, nc, nf)
    allp = "ste" if kind == "cat" else "stmc"
    n_iter = 4 if tier == "quick" else 8
    for pi, p in [(which, priors[which])]:
        for di, seqs in enumerate(datasets(fam, nf, nc, tier)):
            T = sum(map(len, seqs))
            ev = evidence(kind, cov, p, seqs) if nc ** T <= 729 else None
            for si, q in enumerate(starts):
                if tier == "quick" and (di + pi + si) % 3 and T > 2:
                    continue
                run_case(acc, f"{fam}/nc{nc}/nf{nf}/prior{pi}/start{si}/{name_of(seqs)}", cls, kw,
                         kind, cov, q, p, allp, seqs, n_iter, ev,
                         dict(data=[s.tolist() for s in seqs]))
    acc.sample(dict(family=fam, nc=nc, nf=nf))


def t_masks(task, acc):
    _, kind, cov, nc, nf, tier = task
    fam = "vcat" if kind == "cat" else "vgauss-" + cov
    cls, kw = cls_of(kind, cov)
    priors, starts = distributions(kind, cov, nc, nf)
    codes = "ste" if kind == "cat" else "stmc"
    sets = datasets(fam, nf, nc, "quick")
    sets = [sets[len(sets) // 4], sets[len(sets) // 2], sets[-1]] if tier == "quick" else sets
    for r in range(len(codes)):
        for sub in itertools.combinations(codes, r):
            params = "".join(sub)
            for (pi, p), (si, q) in itertools.product(enumerate(priors), enumerate(starts)):
                if tier == "quick" and (pi + si + r) % 3:
                    continue
                for seqs in sets:
                    ev = evidence(kind, cov, p, seqs) if r and pi == 1 else None
                    run_case(acc, f"{fam}/nc{nc}/nf{nf}/prior{pi}/start{si}/params={params}/"
                             + name_of(seqs), cls, kw, kind, cov, q, p, params, seqs, 3, ev,
                             dict(data=[s.tolist() for s in seqs]))


def t_default(task, acc):
    """Default start: documented priors, then the same steps."""
    _, kind, cov, nc, nf, tier = task
    fam = "vcat" if kind == "cat" else "vgauss-" + cov
    cls, kw = cls_of(kind, cov)
    priors, _ = distributions(kind, cov, nc, nf)
    alpha = gen.alphabet(fam, nf)
    alpha = alpha[:nf] if fam == "vcat" else alpha
    k = len(alpha)
    n = [7, 3] if nc < 3 else [6]
    idx = (np.arange(sum(n)) ** 2 + np.arange(sum(n)) // 3) % k
    idx[:k] = range(k)
    X = gen.rows(alpha, idx)
    if kind != "cat":
        X = X + .1 * ref.irregular(X.shape, 5)
    seqs = np.split(X, np.cumsum(n)[:-1])
    default = Q(s=np.full(nc, 1 / nc), t=np.full((nc, nc), 1 / nc))
    if kind == "cat":
        default.e = np.full((nc, nf), 1 / nf)
    else:
        default.m = default.scale = default.dof = default.beta = None
    ctor = [(None, {})]
    for p in priors:
        ctor.append((p, dict(startprob_prior=p.s, transmat_prior=p.t)))
    ctor.append((Q(s=np.full(nc, .7), t=np.full((nc, nc), 1.25)),
                 dict(startprob_prior=.7, transmat_prior=1.25)))
    if kind == "cat":
        ctor.append((Q(s=np.full(nc, .7), t=default.t, e=np.full((nc, nf), 2.5)),
                     dict(startprob_prior=.7, emissionprob_prior=2.5)))
    else:
        p = priors[1]
        ctor.append((p, dict(startprob_prior=p.s, transmat_prior=p.t, means_prior=p.m,
                             beta_prior=p.beta, dof_prior=p.dof, scale_prior=p.scale)))
    n_iter = 5 if tier == "quick" else 12
    for ci, (p, args) in enumerate(ctor):
        for impl, seed in itertools.product(walk.IMPLS, (0, 1, 2)):
            acc.count(states=1, traces=1)
            key = f"{fam}/nc{nc}/nf{nf}/default/{ci}/{impl}/seed{seed}"
            m = cls(nc, implementation=impl, n_iter=n_iter, tol=0, random_state=seed, **kw, **{
                k: (v.copy() if np.ndim(v) else v) for k, v in args.items()})
            m.monitor_ = mon = recorder(m, kind, n_iter)
            try:
                m.fit(X, n)
            except Exception as e:
                if refused(e, impl):
                    acc.bump("refused_underflow")
                    continue
                acc.fail(key, f"fit raised {e!r}")
                continue
            got = read(m, kind, "prior")
            for f in fields(kind):
                want = args.get(NAMES[f] + "_prior")
                want = getattr(p if want is not None else default, f)
                if want is not None and not ref.close(getattr(got, f), want, 1e-12, 1e-12):
                    acc.fail(f"{key}/prior", f"{NAMES[f]}_prior_ is {getattr(got, f).tolist()}, "
                             f"should be {np.asarray(want, float).tolist()}")
            follow(acc, key, kind, cov, None, got, "ste" if kind == "cat" else "stmc", seqs,
                   list(mon.history), mon.trace, dict(seed=seed), skip=1)


def t_long(task, acc):
    """Long and many sequences, many features or states."""
    _, kind, cov, nc, nf, lens = task
    fam = "vcat" if kind == "cat" else "vgauss-" + cov
    cls, kw = cls_of(kind, cov)
    priors, starts = distributions(kind, cov, nc, nf)
    n = sum(lens)
    if kind == "cat":
        X = (ref.irregular((n, 1), n + nc) * nf).astype(int)
    else:
        X = 4 * ref.irregular((n, nf), n + nc) - 2
    seqs = np.split(X, np.cumsum(lens)[:-1])
    for pi, si in ((0, 0), (1, 2), (2, 1)):
        run_case(acc, f"{fam}/nc{nc}/nf{nf}/prior{pi}/start{si}/long{lens[:4]}x{len(lens)}", cls,
                 kw, kind, cov, starts[si], priors[pi], "ste" if kind == "cat" else "stmc", seqs,
                 2, None, {})


def long_tasks(tier):
    out = []
    for kind, cov in [("cat", None)] + [("gauss", c) for c in gen.COVS]:
        cases = [(2, 2, (65,)), (2, 2, (129, 2)), (2, 2, (1,) * 70), (3, 2, (3, 1) * 20),
                 (5, 2, (40,)), (9, 2, (30, 5)), (2, 5, (20,)), (2, 9, (15, 4)), (1, 2, (33,))]
        if tier == "thorough":
            cases += [(2, 17, (30,)), (3, 2, (513,)), (17, 3, (60,)), (2, 2, (2,) * 300)]
        if kind == "cat":
            cases += [(2, 33, (70,)), (3, 300, (40,))]
        out += [("long", kind, cov, *c) for c in cases]
    return out


def task_fn(task, acc):
    {"long": t_long, "small": t_small, "masks": t_masks, "default": t_default}[task[0]](task, acc)


def run(tier, acc):
    tasks = long_tasks(tier)
    for kind, cov in [("cat", None)] + [("gauss", c) for c in gen.COVS]:
        for nc in (3, 2, 1):
            for nf in ((3, 2) if kind == "cat" else (2, 1, 3) if tier == "thorough" else (2, 1)):
                tasks += [("small", kind, cov, nc, nf, tier, i) for i in range(3)]
                if nf == 2 or tier == "thorough":
                    tasks.append(("masks", kind, cov, nc, nf, tier))
                tasks.append(("default", kind, cov, nc, nf, tier))
    core.explore(task_fn, tasks, acc, timeout=3000)
