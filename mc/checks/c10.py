"""C10: training keeps forbidden transitions and yields valid models."""

import itertools

import numpy as np

from .. import core, em, gen, ref, walk
from .c08 import Recorder, spec_with

BOUNDS = {
    "quick": "all zero patterns of start and transition probabilities for 2 states (27, every "
             "EM family and user-defined emissions) and 3 states (2401, categorical), two "
             "prior settings; every data set of 1 sequence (length 2-3) or 2 sequences "
             "(length 2) over 2-3 symbols (3 states: 6 data sets); 3 iterations; "
             "trainings with full initialisation for every family x nc<=3 x 6 seeds; mixtures: "
             "every zero pattern of the weights (nc<=2, 2-3 components) x component at 4 "
             "distances x 3 weight priors x 5 parameter subsets, against the exact updates",
    "thorough": "as quick, sequences to length 5, 3 states for every family, 20 seeds",
}
ASSUMPTIONS = ["validity is required when every state has positive expected visits and "
               "departures in every iteration and the exact update has well-conditioned covariances"]


def patterns(nc):
    rows = []
    for support in itertools.product((0, 1), repeat=nc):
        if any(support):
            w = ref.irregular((nc,), 13 + sum(support)) * support + np.array(support) * .2
            rows.append(w / w.sum())
    return rows


def pub_valid(acc, key, m, spec, X, lengths, data):
    """The model is usable and its parameters are what they claim to be."""
    nc, nf = spec.nc, X.shape[1]

    def bad(what, **kw):
        acc.fail(key, what, **kw, **data)

    def dist(name, shape):
        a = np.asarray(getattr(m, name))
        if a.shape != shape or not np.isfinite(a).all() or (a < 0).any() or (a > 1 + 1e-9).any() \
                or (abs(a.sum(axis=-1) - 1) > 1e-8).any():
            bad(f"{name} is not made of distributions", got=a)
            return False
        return True

    ok = dist("startprob_", (nc,)) and dist("transmat_", (nc, nc))
    base = spec.base
    if base in ("cat", "multinomial", "vcat"):
        ok = ok and dist("emissionprob_", (nc, m.n_features))
    elif base == "poisson":
        lam = np.asarray(m.lambdas_)
        if lam.shape != (nc, nf) or not (lam >= 0).all() or not np.isfinite(lam).all():
            return bad("invalid rates", got=lam)
    elif base in ("gauss", "gmm", "vgauss"):
        shape = {"gauss": (nc, nf, nf), "vgauss": (nc, nf, nf)}.get(base)
        if base == "gmm":
            ok = ok and dist("weights_", (nc, spec.n_mix))
            shape = {"full": (nc, spec.n_mix, nf, nf), "tied": (nc, nf, nf),
                     "diag": (nc, spec.n_mix, nf), "spherical": (nc, spec.n_mix)}[spec.cov]
        cv = np.asarray(m.covars_)
        mshape = (nc, spec.n_mix, nf) if base == "gmm" else (nc, nf)
        if np.shape(m.means_) != mshape or not np.isfinite(m.means_).all():
            return bad("invalid means", got=m.means_)
        if cv.shape != shape or not np.isfinite(cv).all():
            return bad("invalid covariances", got=cv)
        if cv.ndim >= 3 and not (base == "gmm" and spec.cov == "diag"):
            if not np.allclose(cv, np.swapaxes(cv, -1, -2), 1e-9, 1e-12) or \
                    not (np.linalg.eigvalsh(cv) > 0).all():
                return bad("covariances are not symmetric positive definite", got=cv)
            if base != "gmm" and spec.cov in ("diag", "spherical"):
                d = np.einsum("cff->cf", cv)
                if not np.array_equal(cv, np.array([np.diag(v) for v in d])) or \
                        spec.cov == "spherical" and not (d == d[:, :1]).all():
                    return bad(f"covariances are not {spec.cov}", got=cv)
        elif not (cv > 0).all():
            return bad("variances are not positive", got=cv)
    if not ok:
        return
    try:
        z = m.score(X, lengths)
        lp, path = m.decode(X, lengths)
        if not np.isfinite(z) or not lp <= z + 1e-6 or len(path) != len(X):
            bad(f"score {z}, decode {lp}")
        if base != "custom":
            S, states = m.sample(3, random_state=0)
            if S.shape != (3, X.shape[1]) or not np.isfinite(S).all():
                bad("sampling fails", got=S)
    except ValueError as exc:
        bad(f"the trained model is unusable: {exc!r}")


def pattern_fn(task, acc):
    _, fam, nc, pi_i, prior, tier = task
    pats = patterns(nc)
    pi = pats[pi_i]
    kw = dict(startprob_prior=2.0, transmat_prior=1.7) if prior else {}
    base = fam.split("-")[0]
    if base == "gauss":
        kw.update(covars_prior=.5, covars_weight=2)
    n_iter = 3
    alpha = gen.alphabet(fam, 2, 2 if base != "gauss" else 3)
    if nc == 2:
        big = 3 if tier == "quick" else 5
        sets = [(s,) for s in gen.sequences(len(alpha), big, 2)]
        two = list(gen.sequences(len(alpha), 2, 2))
        sets += [(a, b) for a in two for b in two if a <= b]
    else:
        sets = [((0, 1, 1),), ((0, 0, 1, 0),), ((0, 1), (1, 0)), ((0, 1, 0, 1, 1),),
                ((1, 0, 0), (0, 1, 1), (0,)), ((0,), (1, 1))]
    for A in itertools.product(pats, repeat=nc):
        spec = gen.Spec(fam, pi, np.array(A), nf=2, **kw)
        pat = "".join("01"[int(v > 0)] for v in np.concatenate([pi, np.ravel(A)]))
        for ds in sets:
            seqs = [gen.rows(alpha, s) for s in ds]
            X, lengths = np.concatenate(seqs), [len(s) for s in seqs]
            impls = walk.IMPLS if nc == 2 else ("log",)
            for impl in impls:
                key = (f"pattern/{fam}/nc{nc}/{pat}/prior{int(prior)}/{impl}/"
                       + "|".join("".join(map(str, s)) for s in ds))
                data = dict(model=spec.label(), data=[s.tolist() for s in seqs])
                m = spec.make(implementation=impl, init_params="", n_iter=n_iter, tol=-np.inf)
                m.monitor_ = mon = Recorder(m, "custom" if base == "custom" else base, n_iter)
                acc.count(states=1, transitions=n_iter, traces=1)
                try:
                    m.fit(X, lengths)
                except ValueError:
                    if reachable(spec, seqs, mon, n_iter):
                        acc.fail(key, "training raised", **data)
                    acc.bump("refused")
                    continue
                bad_s = (spec.pi == 0) & ~(np.asarray(m.startprob_) == 0)
                bad_t = (spec.A == 0) & ~(np.asarray(m.transmat_) == 0)
                if (bad_s & ~np.isnan(m.startprob_)).any() or (bad_t & ~np.isnan(m.transmat_)).any():
                    acc.fail(key, "a forbidden state or transition became possible",
                             startprob=m.startprob_, transmat=m.transmat_, **data)
                    continue
                if reachable(spec, seqs, mon, n_iter):
                    acc.bump("valid_required")
                    pub_valid(acc, key + "/valid", m, spec, X, lengths, data)
    acc.sample(dict(family=fam, startprob=pi.tolist(), patterns=len(pats) ** nc,
                    data_sets=len(sets)))


def reachable(spec, seqs, mon, n_iter):
    """Every state is visited and left in every iteration (reference)."""
    cur = spec
    for i in range(n_iter):
        exps = em.expectations(cur, seqs)
        if any(e[0] == -np.inf for e in exps):
            return False
        if spec.base == "custom":
            if i > 0:
                return False  # (only the first iteration is followed)
            return False
        occ = sum(e[1].sum(axis=0) for e in exps)
        xi = sum(e[2] for e in exps)
        if (occ < 1e-6).any() or (xi.sum(axis=1) < 1e-6).any():
            return False
        try:
            _, cur = em.step(cur, seqs)
        except em.Undefined:
            return False
        if not em.well_conditioned(cur, 1e-4) or (abs(cur.A.sum(axis=1) - 1) > 1e-9).any():
            return False
        cur = cur.replace(pi=np.array(cur.pi, float), A=np.array(cur.A, float))
    return True


def scratch_fn(task, acc):
    """Training from the default initialisation."""
    _, fam, nc, nseeds = task
    spec = gen.Spec(fam, *gen.chains(nc)[0][1:], nf=2)
    alpha = gen.alphabet(fam, 2)
    for which, (n, lengths) in enumerate([(40, [40]), (45, [20, 5, 20]), (36, [12] * 3)]):
        X = gen.rows(alpha, (ref.irregular((n,), 5 + which) * len(alpha)).astype(int))
        if gen.family_base(fam) == "gauss":
            X = X + 2 * (ref.irregular(X.shape, 17 + which) - .5)
        for seed, impl in itertools.product(range(nseeds), walk.IMPLS):
            key = f"scratch/{fam}/nc{nc}/{which}/seed{seed}/{impl}"
            kw = dict(n_trials=3) if fam == "multinomial" else {}
            if fam.startswith("gmm"):
                kw.update(means_weight=1., weights_prior=2.)
            m = spec.blank(implementation=impl, random_state=seed, n_iter=8, tol=1e-4, **kw)
            acc.count(states=1, traces=1, transitions=8)
            try:
                m.fit(X, lengths)
            except ValueError as exc:
                if impl == "scaling" and "underflow" in str(exc):
                    acc.bump("refused")  # (subnormalised probabilities may be tiny)
                else:
                    acc.fail(key, f"training raised {exc!r}", X=X)
                continue
            if (np.asarray(m.transmat_).sum(axis=1) == 0).any():
                acc.bump("unvisited")  # warned about by the library
                continue
            pub_valid(acc, key, m, spec, X, lengths, {})


def mixture_fn(task, acc):
    """Mixture components that are excluded, ruled out by a sparse prior, or so
    far away from the data that their posterior weights are tiny or zero."""
    _, fam, nc, nm, nf, tier = task
    supports = [s for s in itertools.product((0, 1), repeat=nm) if any(s)]
    base_w = ref.irregular((nc, nm), 23) + .3
    sets = []
    for k, lens in enumerate([[9], [6, 5], [4, 4, 4]][:2 if tier == "quick" else 3]):
        n = sum(lens)
        x = 2 * (ref.irregular((n, nf), 41 + k) - .5) + 2.5 * (np.arange(n) % 2)[:, None]
        sets.append((np.split(x, np.cumsum(lens))[:-1], lens))
    iters = 3 if tier == "quick" else 5
    for sup in itertools.product(supports, repeat=nc):
        W = base_w * np.array(sup)
        W = W / W.sum(axis=1, keepdims=True)
        for far, prior, mask in itertools.product(
                (0, 3, 8, 60), (1.0, .3, 2.0), ("stmcw", "stmc", "w", "mw", "cw")):
            kw = dict(weights_prior=prior, params=mask)
            if prior == 2.0:
                kw["means_weight"] = .5
            spec = gen.Spec(fam, *gen.chains(nc)[0][1:], nf=nf, n_mix=nm, **kw)
            spec.emis["weights_"] = W
            spec.emis["means_"] = spec.emis["means_"].copy()
            spec.emis["means_"][:, -1] += far
            for (seqs, lens), impl in itertools.product(sets, walk.IMPLS):
                key = (f"mixture/{fam}/nc{nc}/nm{nm}/nf{nf}/"
                       + "|".join("".join(map(str, v)) for v in sup)
                       + f"/far{far}/prior{prior}/{mask}/{len(lens)}/{impl}")
                cur = spec
                try:
                    for _ in range(iters):
                        _, cur = em.step(cur, seqs)
                        if not em.well_conditioned(cur, 1e-4):
                            raise em.Undefined("ill conditioned")
                except em.Undefined:
                    acc.bump("mixture_undefined")
                    continue
                X = np.concatenate(seqs)
                data = dict(model=spec.label(), X=X, lengths=lens)
                m = spec.make(implementation=impl, init_params="", n_iter=iters, tol=-np.inf)
                acc.count(states=1, transitions=iters, traces=1)
                try:
                    m.fit(X, lens)
                except ValueError as exc:
                    if impl == "scaling" and "underflow" in str(exc) and far == 60:
                        acc.bump("refused")  # the data are all but impossible
                    else:
                        acc.fail(key, f"training raised {exc!r}", **data)
                    continue
                pub_valid(acc, key + "/valid", m, spec, X, lens, data)
                w = np.asarray(cur.emis["weights_"], float)
                used = (w > 0) if far < 60 or "w" in mask else (w > 0) & (np.arange(nm) < nm - 1)
                if not (np.asarray(m.weights_)[w == 0] == 0).all():
                    acc.fail(key + "/zero", "an excluded component is used", got=m.weights_, **data)
                for name in ("weights_", "means_", "covars_"):
                    got, want = np.asarray(getattr(m, name)), np.asarray(cur.emis[name], float)
                    if name == "covars_" and spec.cov == "tied":
                        sel = (slice(None),)
                    else:
                        sel = used
                    if not ref.close(got[sel], want[sel], 1e-5, 1e-7):
                        acc.fail(f"{key}/{name}", f"{name} differ from the exact updates",
                                 got=got, want=want, **data)
    acc.sample(dict(family=fam, states=nc, components=nm, weights=len(supports) ** nc))


def tasks(tier):
    out = []
    for fam in gen.EM_FAMILIES:
        if fam.startswith("gmm"):
            for nc, nm, nf in [(1, 2, 1), (2, 2, 1), (1, 3, 1), (1, 2, 2)] + (
                    [(2, 3, 1), (2, 2, 2), (3, 2, 1)] if tier == "thorough" else []):
                out.append(("mixture", fam, nc, nm, nf, tier))
    for fam in gen.EM_FAMILIES + ["custom-log"]:
        for prior in (False, True):
            for i in range(3):
                out.append(("pattern", fam, 2, i, prior, tier))
            if fam == "cat" or tier == "thorough":
                for i in range(7):
                    out.append(("pattern", fam, 3, i, prior, tier))
    for fam in gen.FAMILIES:
        if not fam.startswith("custom"):
            for nc in (1, 2, 3):
                out.append(("scratch", fam, nc, 6 if tier == "quick" else 20))
    return sorted(out, key=lambda t: not (t[0] == "pattern" and t[2] == 3))


def task_fn(task, acc):
    {"pattern": pattern_fn, "scratch": scratch_fn, "mixture": mixture_fn}[task[0]](task, acc)


def run(tier, acc):
    core.explore(task_fn, tasks(tier), acc, timeout=800)
