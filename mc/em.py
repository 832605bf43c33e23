"""Reference EM / MAP-EM update: expected counts by enumerating every hidden
path, then the closed-form maximisers for each emission family."""

import itertools

import numpy as np

from . import gen, ref

LD = ref.LD


class Undefined(Exception):
    """The update has no defined value (a state that is never occupied)."""


def expectations(spec, seqs):
    """Per sequence: (logbs, loglik, posteriors, xi)."""
    paths = ref.Paths(spec.pi, spec.A)
    cache = {}
    out = []
    for X in seqs:
        k = X.tobytes()
        if k not in cache:
            logB = spec.logB(X)
            if len(X) <= 8 and spec.nc ** len(X) <= 300:
                t = paths.table(logB)
                z = ref.Paths.loglik(t)
                cache[k] = (z, None, None) if z == -np.inf else \
                    (z, ref.Paths.posteriors(t), paths.xi(t))
            else:
                cache[k] = ref.smooth(spec.pi, spec.A, logB)
        out.append(cache[k])
    return out


def _div(a, b):
    """Quotient, NaN where the divisor is zero."""
    b = np.broadcast_to(b, a.shape)
    return np.where(b == 0, LD("nan"), a / np.where(b == 0, 1, b))


def _norm_rows(a):
    s = a.sum(axis=-1, keepdims=True)
    return np.where(s == 0, 0, a / np.where(s == 0, 1, s))


def step(spec, seqs, mask=None, strict=True):
    """One EM update of the parameters named in mask.

    Returns (loglik before the update, new spec); raises Undefined if some
    parameter that is to be updated has no data and no prior (if strict: some
    state has no data; otherwise parameters with neither are given as NaN).
    """
    hyp = spec.kwargs
    mask = hyp.get("params") if mask is None else mask
    if mask is None:
        mask = {"cat": "ste", "multinomial": "ste", "poisson": "stl",
                "gauss": "stmc", "gmm": "stmcw"}[spec.base]
    exps = expectations(spec, seqs)
    if any(e[0] == -np.inf for e in exps):
        raise Undefined("impossible data")
    ll = sum(e[0] for e in exps)
    new = {}
    if "s" in mask:
        start = sum(e[1][0] for e in exps)
        a = np.maximum(hyp.get("startprob_prior", 1.0) - 1 + start, 0)
        a = np.where(spec.pi == 0, 0, a)
        if a.sum() <= 0:
            raise Undefined("startprob")
        new["pi"] = a / a.sum()
    if "t" in mask:
        xi = sum(e[2] for e in exps)
        a = np.maximum(hyp.get("transmat_prior", 1.0) - 1 + xi, 0)
        a = np.where(spec.A == 0, 0, a)
        new["A"] = _norm_rows(a)
    X = np.concatenate(seqs)
    G = np.concatenate([e[1] for e in exps])
    Xl = ref.ld(X)
    post = G.sum(axis=0)
    emis_codes = set(mask) & set("emclw")
    if emis_codes and ((post <= 1e-9).any() if strict
                       else ((post > 0) & (post < 1e-200)).any()):
        raise Undefined("unoccupied state")
    if spec.base == "cat" and "e" in mask:
        nf = spec.nf
        obs = np.array([[G[X[:, 0] == f, c].sum() for f in range(nf)]
                        for c in range(spec.nc)], dtype=LD)
        a = np.maximum(hyp.get("emissionprob_prior", 1.0) - 1 + obs, 0)
        tot = a.sum(axis=1, keepdims=True)
        if strict and (tot <= 0).any():
            raise Undefined("emissionprob")
        new["emissionprob_"] = _div(a, tot)
    elif spec.base == "multinomial" and "e" in mask:
        obs = G.T @ Xl
        new["emissionprob_"] = _div(obs, obs.sum(axis=1, keepdims=True))
    elif spec.base == "poisson" and "l" in mask:
        a, b = (per_state(hyp.get("lambdas_" + o, 0.0), spec.nc, 1) for o in ("prior", "weight"))
        new["lambdas_"] = _div(a + G.T @ Xl, b + post[:, None])
    elif spec.base == "gauss":
        _gauss(spec, hyp, mask, Xl, G, post, new)
    elif spec.base == "gmm":
        _gmm(spec, hyp, mask, Xl, G, post, new, strict)
    return ll, _updated(spec, new)


def _updated(spec, new):
    out = spec.replace()
    for k, v in new.items():
        if k in ("pi", "A"):
            setattr(out, k, ref.ld(v))
        else:
            out.emis[k] = ref.ld(v)
    return out


def _outer(a):
    return a[..., :, None] * a[..., None, :]


def per_state(value, nc, more):
    """A prior given per state, with *more* further axes."""
    value = ref.ld(value)
    return value.reshape((-1,) + (1,) * more) if value.shape == (nc,) else value


def _gauss(spec, hyp, mask, X, G, post, new):
    nc, nf, cov = spec.nc, spec.nf, spec.cov
    m0 = np.broadcast_to(per_state(hyp.get("means_prior", 0), nc, 1), (nc, nf))
    mw = np.broadcast_to(ref.ld(hyp.get("means_weight", 0)), (nc,))
    cp = ref.ld(hyp.get("covars_prior", 1e-2))
    if cov != "tied":
        cp = per_state(cp, nc, 2 if cov == "full" else 1)
    cw = ref.ld(hyp.get("covars_weight", 1))
    mu = ref.ld(spec.emis["means_"])
    if "m" in mask:
        mu = _div(mw[:, None] * m0 + G.T @ X, (mw + post)[:, None])
        new["means_"] = mu
    if "c" not in mask:
        return
    S = np.array([sum(G[t, c] * _outer(X[t] - mu[c]) for t in range(len(X)))
                  + mw[c] * _outer(mu[c] - m0[c]) for c in range(nc)], dtype=LD)
    if cov in ("diag", "spherical"):
        var = np.array([np.diag(S[c]) for c in range(nc)])
        den = np.maximum(np.maximum(cw - 1, 0) + post, 1e-5)[:, None]
        var = (cp + var) / den
        new["covars_"] = var if cov == "diag" else var.mean(axis=1)
    else:
        w = np.maximum(cw - nf, 0)
        if cov == "full":
            new["covars_"] = _div(cp + S, (w + post)[:, None, None])
        else:
            new["covars_"] = (cp + S.sum(axis=0)) / (w + post.sum())


def _gmm(spec, hyp, mask, X, G, post, new, strict):
    nc, nf, nm, cov = spec.nc, spec.nf, spec.n_mix, spec.cov
    W = ref.ld(spec.emis["weights_"])
    mu = ref.ld(spec.emis["means_"])
    R = np.zeros((len(X), nc, nm), dtype=LD)
    for t in range(len(X)):
        for c in range(nc):
            l = np.array([ref.log(W[c, k]) + gen.mvn_logpdf(
                X[t], mu[c, k], spec.full_cov(c, k)) for k in range(nm)])
            R[t, c] = G[t, c] * np.exp(l - ref.lse(l))
    N = R.sum(axis=0)
    if ((N < 1e-200) & (N > 0)).any():
        raise Undefined("hardly occupied mixture component")
    dead = N == 0          # such components keep their means and covariances
    a1 = np.broadcast_to(ref.ld(hyp.get("weights_prior", 1.0)), (nc, nm)) - 1
    m0 = np.broadcast_to(ref.ld(hyp.get("means_prior", 0.0)), (nc, nm, nf))
    lam = np.broadcast_to(ref.ld(hyp.get("means_weight", 0.0)), (nc, nm))
    if "w" in mask:
        w = np.maximum(N + a1, 0)
        tot = w.sum(axis=1, keepdims=True)
        if ((tot < 1e-9) & ((tot > 0) | strict)).any():
            raise Undefined("a prior that rules out every component")
        new["weights_"] = _div(w, tot)
    newmu = mu
    if "m" in mask:
        newmu = ((lam[:, :, None] * m0 + np.einsum("tck,tf->ckf", R, X))
                 / np.where(lam + N == 0, 1, lam + N)[:, :, None])
        newmu = np.where((dead & (lam == 0))[:, :, None], mu, newmu)
        new["means_"] = newmu
    if "c" not in mask:
        return
    # Data scatter around the means of the E-step (generalised EM).
    S = np.zeros((nc, nm, nf, nf), dtype=LD)
    for t in range(len(X)):
        for c in range(nc):
            for k in range(nm):
                S[c, k] += R[t, c, k] * _outer(X[t] - mu[c, k])
    M = lam[:, :, None, None] * _outer(newmu - m0)
    cp, cw = hyp.get("covars_prior"), hyp.get("covars_weight")
    if cov == "full":
        psi = 0.0 if cp is None else cp
        nu = -(1.0 + nf + 1.0) if cw is None else cw
        num, den = psi + M + S, (N + (1 + nu + nf + 1))[:, :, None, None]
    elif cov == "tied":
        psi = 0.0 if cp is None else cp
        nu = -(nm + nf + 1.0) if cw is None else cw
        num = psi + M.sum(axis=1) + S.sum(axis=1)
        den = (post + (nm + nu + nf + 1))[:, None, None]
    elif cov == "diag":
        al = -1.5 if cp is None else cp
        be = 0.0 if cw is None else cw
        num = np.einsum("ckff->ckf", M + S) + 2 * be
        den = N[:, :, None] + (1 + 2 * (al + 1))
    else:
        al = -(nf + 2.0) / 2 if cp is None else cp
        be = 0.0 if cw is None else cw
        num = np.einsum("ckff->ck", M + S) + 2 * be
        den = nf * N + (nf + 2 * (al + 1))
    new["covars_"] = np.where(den == 0, ref.ld(spec.emis["covars_"]),
                              num / np.where(den == 0, 1, den))


# --------------------------------------------------- reading a fitted model

ATTRS = {"cat": {"e": "emissionprob_"}, "multinomial": {"e": "emissionprob_"},
         "poisson": {"l": "lambdas_"},
         "gauss": {"m": "means_", "c": "covars_"},
         "gmm": {"m": "means_", "c": "covars_", "w": "weights_"}}
MASKS = {b: "st" + "".join(d) for b, d in ATTRS.items()}


def public(model, base):
    """The documented fitted attributes, as arrays."""
    d = {"s": np.array(model.startprob_), "t": np.array(model.transmat_)}
    for code, name in ATTRS[base].items():
        d[code] = np.array(getattr(model, name))
    return d


def expected_public(spec):
    """What public() should return for the parameters of spec."""
    d = {"s": np.array(spec.pi), "t": np.array(spec.A)}
    for code, name in ATTRS[spec.base].items():
        v = spec.emis[name]
        if spec.base == "gauss" and name == "covars_":
            v = np.array([spec_cov_ld(spec, c) for c in range(spec.nc)])
        d[code] = np.array(v)
    return d


def spec_cov_ld(spec, c):
    cv = ref.ld(spec.emis["covars_"])
    if spec.cov == "tied":
        return cv
    if spec.cov == "spherical":
        return np.eye(spec.nf, dtype=LD) * cv[c]
    if spec.cov == "diag":
        return np.diag(cv[c])
    return cv[c]


def well_conditioned(spec, eps=1e-3):
    """Whether a further update is numerically meaningful."""
    if any(np.isnan(np.asarray(v, float)).any() for v in spec.emis.values()):
        return False
    if "covars_" not in spec.emis:
        return True
    cv = np.asarray(spec.emis["covars_"], dtype=float)
    if not np.isfinite(cv).all():
        return False
    if spec.cov in ("spherical", "diag"):
        return bool((cv > eps).all())
    return bool((np.linalg.eigvalsh(cv) > eps).all())


def datasets(k, tier):
    """All small multi-sequence data sets over an alphabet of k symbols."""
    singles = list(gen.sequences(k, 4 if tier == "quick" else 6))
    out = [(s,) for s in singles]
    two = list(gen.sequences(k, 2 if tier == "quick" else 3))
    out += list(itertools.product(two, repeat=2))
    one = list(gen.sequences(k, 1 if tier == "quick" else 2))
    out += list(itertools.product(one, repeat=3))
    return out
