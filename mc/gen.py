"""Families of models: how to build one with given parameters through the
public API, a finite alphabet of observations, and independent emission
densities for it."""

import itertools
import math

import numpy as np

from . import ref

COVS = ("spherical", "diag", "full", "tied")

FAMILIES = (
    ["cat", "multinomial", "poisson"]
    + ["gauss-" + c for c in COVS]
    + ["gmm-" + c for c in COVS]
    + ["vcat"] + ["vgauss-" + c for c in COVS]
    + ["custom-log", "custom-lin"])

EM_FAMILIES = [f for f in FAMILIES
               if not f.startswith("v") and not f.startswith("custom")]
VB_FAMILIES = [f for f in FAMILIES if f.startswith("v")]

_classes = {}


def custom_class(kind):
    """User-defined emissions through the documented extension points."""
    if kind in _classes:
        return _classes[kind]
    from hmmlearn.base import BaseHMM

    class Custom(BaseHMM):
        """X has one integer column indexing rows of table_ (symbol, state)."""
        layout = staticmethod(lambda a: a)

        def _get_n_fit_scalars_per_param(self):
            return None

    class CustomLog(Custom):
        def _compute_log_likelihood(self, X):
            return self.layout(self.table_[X[:, 0].astype(int)])

    class CustomLin(Custom):
        def _compute_likelihood(self, X):
            return self.layout(np.exp(self.table_[X[:, 0].astype(int)]))

    _classes["custom-log"], _classes["custom-lin"] = CustomLog, CustomLin
    return _classes[kind]


MEANS = np.array([[0.0, 1.0, -.5], [1.5, -1.0, .25], [-2.0, .5, 1.], [3.0, 2.0, -1],
                  [-1., -2., .75], [.5, .25, 2.]])
VARS = np.array([[1.0, .5, 2.], [.25, 2.0, 1.], [1.5, .75, .5], [.5, 1.25, 1.],
                 [2., 1., .75], [.8, .6, 1.1]])


def means(n, nf):
    """Means of n states (the first entries of a table, beyond it irregular)."""
    if n <= len(MEANS) and nf <= MEANS.shape[1]:
        return MEANS[:n, :nf]
    return 4 * ref.irregular((n, nf), 61) - 2


def variances(idx, nf):
    if nf <= VARS.shape[1]:
        return VARS[np.asarray(idx) % len(VARS)][:, :nf]
    return .3 + 1.5 * ref.irregular((len(VARS), nf), 62)[np.asarray(idx) % len(VARS)]


def spd(k, nf):
    """k-th fixed symmetric positive-definite matrix."""
    if nf > 3:
        B = ref.irregular((nf, nf), 63 + k % 7) - .5
        return B @ B.T / nf + np.diag(.4 + ref.irregular((nf,), 70 + k % 7))
    L = np.tril(np.array([[1.0, 0, 0], [.5, .8, 0], [-.25, .3, .9]])
                * (1 + .25 * (k % 4)))[:nf, :nf]
    return L @ L.T


def covars(cov, n, nf, off=0):
    if cov == "spherical":
        return VARS[(np.arange(n) + off) % 6, 0]
    if cov == "diag":
        return variances(np.arange(n) + off, nf)
    if cov == "full":
        return np.array([spd(k + off, nf) for k in range(n)])
    return spd(1 + off, nf)


def wide(base, nf):
    """Observations with more than 3 features."""
    i = np.arange(nf)
    if base == "gauss":
        return [list(3 * ref.irregular((nf,), 80 + k) - 1.5) for k in range(4)]
    if base == "poisson":
        return [list((k * i * i + i + k) % 5) for k in range(4)]
    # Multinomial: three trials each.
    return [list((i == 0) * 2 + (i == nf - 1)), list((i == nf // 2) * 1 + (i == nf - 1) * 2),
            list((i < 3) * 1), list((i == nf - 2) * 3)]


OBS = {
    "cat": lambda nf: [[k] for k in range(nf)],
    "gauss": lambda nf: [row[:nf] for row in
                         ([.25, -.5, .3], [1.5, .75, -1.], [-2.0, 3.0, .6], [0., 0., 0.])],
    "poisson": lambda nf: [row[:nf] for row in
                           ([0, 2, 1], [1, 0, 3], [4, 3, 0], [2, 2, 2])],
    "multinomial": lambda nf: [row[:nf] if nf > 2 else row for row in
                               (([2, 1, 0], [0, 2, 1], [1, 1, 1], [3, 0, 0]) if nf > 2
                                else ([3, 0], [1, 2], [2, 1], [0, 3]))],
}


def family_base(fam):
    b = fam.split("-")[0]
    return {"vcat": "cat", "gmm": "gauss", "vgauss": "gauss",
            "custom": "cat"}.get(b, b)


def alphabet(fam, nf, k=None):
    base = family_base(fam)
    obs = OBS[base](nf) if nf <= 3 or base == "cat" else wide(base, nf)
    return obs if k is None else obs[:k]


def emission_probs(nc, nf, zeros=False, seed=3):
    E = ref.stochastic((nc, nf), seed)
    if zeros and nf > 1:
        for c in range(nc):
            if c % 2 == 0:
                E[c, (c // 2) % nf] = 0
        E /= E.sum(axis=1, keepdims=True)
    return E


class Spec:
    """A fully parameterised model."""

    scale = 1        # unit of measurement
    impls = ("log", "scaling")
    tight = False    # whether the results are required to nearly full precision

    def __init__(self, fam, pi, A, nf=2, n_mix=2, emis=None, zeros=False,
                 **kwargs):
        self.fam, self.nf, self.n_mix = fam, nf, n_mix
        self.pi, self.A = np.array(pi, float), np.array(A, float)
        self.nc = nc = len(self.pi)
        self.kwargs = kwargs
        self.base, _, self.cov = fam.partition("-")
        self.emis = dict(emis or {})
        d = self.emis
        if self.base in ("cat", "multinomial", "vcat"):
            d.setdefault("emissionprob_", emission_probs(nc, nf, zeros))
        elif self.base == "poisson":
            d.setdefault("lambdas_", .5 + 2 * ref.irregular((nc, nf), 5))
        elif self.base in ("gauss", "vgauss"):
            d.setdefault("means_", means(nc, nf))
            d.setdefault("covars_", covars(self.cov, nc, nf))
        elif self.base == "gmm":
            nm = n_mix
            d.setdefault("weights_", ref.stochastic((nc, nm), 11))
            table = MEANS if nf <= 3 else means(6, nf)
            d.setdefault("means_", (table[(np.arange(nc)[:, None] + 2 * np.arange(nm)) % 6]
                                    [:, :, :nf] + .1 * np.arange(nc)[:, None, None]))
            if self.cov == "tied":
                c = np.array([spd(k, nf) for k in range(nc)])
            else:
                c = np.array([covars(self.cov, nm, nf, off=k) for k in range(nc)])
            d.setdefault("covars_", c)
        elif self.base == "custom":
            d.setdefault("table_", np.log(emission_probs(nc, nf, zeros)).T)

    def replace(self, **kw):
        new = Spec.__new__(Spec)
        new.__dict__.update(self.__dict__)
        new.emis = dict(self.emis)
        new.kwargs = dict(self.kwargs)
        for k, v in kw.items():
            if k in ("pi", "A"):
                setattr(new, k, np.array(v, float))
            elif k in new.emis:
                new.emis[k] = v
            else:
                new.kwargs[k] = v
        return new

    def cls(self):
        from hmmlearn import hmm, vhmm
        if self.base == "custom":
            return custom_class(self.fam)
        return {"cat": hmm.CategoricalHMM, "multinomial": hmm.MultinomialHMM,
                "poisson": hmm.PoissonHMM, "gauss": hmm.GaussianHMM,
                "gmm": hmm.GMMHMM, "vcat": vhmm.VariationalCategoricalHMM,
                "vgauss": vhmm.VariationalGaussianHMM}[self.base]

    def blank(self, **kw):
        """An estimator with no parameters set."""
        args = dict(self.kwargs)
        args.update(kw)
        if self.base in ("gauss", "gmm", "vgauss"):
            args["covariance_type"] = self.cov
        if self.base == "gmm":
            args["n_mix"] = self.n_mix
        if self.base == "multinomial":
            args.setdefault("n_trials", 3)
        return self.cls()(self.nc, **args)

    def make(self, **kw):
        m = self.blank(**kw)
        self.set_params_on(m)
        return m

    def set_params_on(self, m):
        """Set the documented attributes, each to a fresh array."""
        d = {k: np.array(v, copy=True) for k, v in self.emis.items()}
        nc, nf = self.nc, self.nf
        if self.base.startswith("v"):
            m.startprob_prior_ = np.full(nc, 1.5)
            m.startprob_posterior_ = 1e-12 + self.pi * 6.0
            m.transmat_prior_ = np.full((nc, nc), 1.25)
            m.transmat_posterior_ = 1e-12 + self.A * 9.0
        m.startprob_ = self.pi.copy()
        m.transmat_ = self.A.copy()
        if self.base == "vcat":
            m.n_features = nf
            m.emissionprob_ = d["emissionprob_"]
            m.emissionprob_prior_ = np.full((nc, nf), .75)
            m.emissionprob_posterior_ = 1e-12 + d["emissionprob_"] * 7.0
        elif self.base == "vgauss":
            m.n_features = nf
            m.means_prior_ = np.zeros((nc, nf))
            m.means_posterior_ = d["means_"]
            m.beta_prior_ = np.full(nc, .5)
            m.beta_posterior_ = np.arange(nc) + 2.5
            dof = (np.arange(nc) + max(4.5, nf + 1.5)) if self.cov != "tied" else max(6.5, nf + 3.5)
            m.dof_prior_ = np.full(nc, nf + .5) if self.cov != "tied" else nf + .5
            m.dof_posterior_ = dof
            m.covars_ = d["covars_"]
            c = d["covars_"]
            dofc = np.asarray(dof)
            scale = c * dofc.reshape(dofc.shape + (1,) * (c.ndim - dofc.ndim))
            m.scale_posterior_ = scale
            prior = {"spherical": np.full(nc, .4), "diag": np.full((nc, nf), .4),
                     "full": np.tile(np.eye(nf) * .4, (nc, 1, 1)),
                     "tied": np.eye(nf) * .4}[self.cov]
            m.scale_prior_ = prior
        elif self.base == "gauss":
            m.n_features = nf
            m.means_ = d["means_"]
            m.covars_ = d["covars_"]
        else:
            if self.base in ("cat", "multinomial", "poisson", "gmm", "custom"):
                m.n_features = nf if self.base != "custom" else 1
            for k, v in d.items():
                setattr(m, k, v)

    # -------------------------------------------------- reference densities

    def full_cov(self, c, k=None):
        """Covariance matrix of state c (mixture component k)."""
        cv = np.asarray(self.emis["covars_"], dtype=float)
        if self.base == "gmm":
            if self.cov == "tied":
                return cv[c]
            cv = cv[c, k]
        elif self.cov == "tied":
            return cv
        else:
            cv = cv[c]
        if self.cov == "spherical":
            return np.eye(self.nf) * cv
        if self.cov == "diag":
            return np.diag(cv)
        return cv

    def logb(self, x):
        """log p(x | state) for every state, from the textbook formulas."""
        nc = self.nc
        if self.base in ("cat", "vcat"):
            return ref.log(self.emis["emissionprob_"][:, int(x[0])])
        if self.base == "custom":
            return ref.ld(self.emis["table_"][int(x[0])])
        if self.base == "poisson":
            return np.array([sum(poisson_logpmf(v, l) for v, l in
                                 zip(x, self.emis["lambdas_"][c]))
                             for c in range(nc)], dtype=ref.LD)
        if self.base == "multinomial":
            return np.array([multinomial_logpmf(x, self.emis["emissionprob_"][c])
                             for c in range(nc)], dtype=ref.LD)
        if self.base in ("gauss", "vgauss"):
            return np.array([mvn_logpdf(x, self.emis["means_"][c], self.full_cov(c))
                             for c in range(nc)], dtype=ref.LD)
        if self.base == "gmm":
            return np.array([ref.lse([
                ref.log(self.emis["weights_"][c][k])
                + mvn_logpdf(x, self.emis["means_"][c][k], self.full_cov(c, k))
                for k in range(self.n_mix)]) for c in range(nc)], dtype=ref.LD)
        raise NotImplementedError(self.fam)

    def logB(self, X):
        return np.array([self.logb(x) for x in X], dtype=ref.LD)

    def label(self):
        return (f"{self.fam} nc={self.nc} nf={self.nf} {self.kwargs} "
                f"pi={self.pi.tolist()} A={self.A.tolist()} "
                + " ".join(f"{k}={np.asarray(v).tolist()}"
                           for k, v in self.emis.items()))


def poisson_logpmf(k, lam):
    k = int(k)
    if lam == 0:
        return ref.LD(0) if k == 0 else ref.NINF
    return k * np.log(ref.LD(lam)) - ref.LD(lam) - ref.LD(math.lgamma(k + 1))


def multinomial_logpmf(x, p):
    r = ref.LD(math.lgamma(sum(int(v) for v in x) + 1))
    for v, q in zip(x, p):
        v = int(v)
        r -= ref.LD(math.lgamma(v + 1))
        if v:
            r += v * ref.log(q)
    return r


def _det_inv(S):
    """Determinant and inverse in extended precision: by cofactors, or by
    Gauss-Jordan elimination for more than 5 dimensions."""
    S = ref.ld(S)
    n = len(S)
    if n > 5:
        M = np.hstack([S, np.eye(n, dtype=ref.LD)])
        d = ref.LD(1)
        for i in range(n):
            d = d * M[i, i]
            M[i] = M[i] / M[i, i]
            for j in range(n):
                if j != i:
                    M[j] = M[j] - M[j, i] * M[i]
        return d, M[:, n:]
    if n == 1:
        return S[0, 0], np.array([[1 / S[0, 0]]], dtype=ref.LD)
    if n == 2:
        (a, b), (c, e) = S
        d = a * e - b * c
        return d, np.array([[e, -b], [-c, a]], dtype=ref.LD) / d

    def det(M):
        if len(M) == 1:
            return M[0, 0]
        return sum((-1) ** j * M[0, j] * det(np.delete(M[1:], j, axis=1))
                   for j in range(len(M)))
    d = det(S)
    inv = np.empty((n, n), dtype=ref.LD)
    for i in range(n):
        for j in range(n):
            inv[j, i] = ((-1) ** (i + j)
                         * det(np.delete(np.delete(S, i, 0), j, 1))) / d
    return d, inv


def mvn_logpdf(x, mu, S):
    d, inv = _det_inv(S)
    r = ref.ld(x) - ref.ld(mu)
    return -(len(r) * np.log(2 * ref.LD(np.pi)) + np.log(d) + r @ inv @ r) / 2


# ---------------------------------------------------- structured chains

def chains(nc):
    """Fixed (name, startprob, transmat) structures for nc states."""
    out = [("generic", ref.stochastic((nc,), 1), ref.stochastic((nc, nc), 2)),
           ("uniform", np.full(nc, 1 / nc), np.full((nc, nc), 1 / nc))]
    if nc > 1:
        lr = np.triu(ref.stochastic((nc, nc), 4))
        lr /= lr.sum(axis=1, keepdims=True)
        one = np.eye(nc)[0]
        out.append(("left-right", one, lr))
        out.append(("cyclic", np.eye(nc)[nc - 1], np.roll(np.eye(nc), 1, axis=1)))
        out.append(("identity", ref.stochastic((nc,), 6), np.eye(nc)))
        out.append(("sparse", ref.stochastic((nc,), 8, zeros=.4),
                    ref.stochastic((nc, nc), 9, zeros=.4)))
    return out


def sequences(k, tmax, tmin=1):
    for t in range(tmin, tmax + 1):
        yield from itertools.product(range(k), repeat=t)


def rows(alpha, seq):
    return np.array([alpha[s] for s in seq])


def standard(fam, nc, chain, **kw):
    """Spec with the named chain and the usual number of features."""
    _, pi, A = [c for c in chains(nc) if c[0] == chain][0]
    nf = 3 if family_base(fam) in ("cat", "multinomial") else 2
    return Spec(fam, pi, A, nf=nf, **kw)


def shown(spec, m):
    """The parameters a model shows, in the form in which they can be assigned
    (deep copies)."""
    out = {}
    for k, v in vars(m).items():
        if k.endswith("_") and not k.startswith("_") and k != "monitor_" \
                and not k.endswith("_subnorm_"):
            out[k] = np.array(v, copy=True) if np.ndim(v) else v
    if spec.base in ("gauss", "vgauss"):
        cv = np.array(m.covars_, copy=True)
        if spec.cov == "spherical":
            cv = cv[:, 0, 0]
        elif spec.cov == "diag":
            cv = np.array([np.diag(c) for c in cv])
        elif spec.cov == "tied":
            cv = cv[0]
        out["covars_"] = cv
    if hasattr(m, "n_features"):
        out["n_features"] = m.n_features
    return out


def rebuild(spec, shown_, /, **kw):
    """A new estimator to which the parameters are assigned."""
    m = spec.blank(**kw)
    for k in sorted(shown_, key=lambda k: k != "n_features"):
        v = shown_[k]
        setattr(m, k, np.array(v, copy=True) if isinstance(v, np.ndarray) else v)
    return m


def same(a, b):
    """Bit-identical values."""
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(map(same, a, b))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
