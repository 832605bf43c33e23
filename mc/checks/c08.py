"""C08: training never decreases its objective."""

import numpy as np

from .. import core, em, gen, ref, walk
from .c07 import chains

BOUNDS = {
    "quick": "all families (EM and variational) x chain structures (nc<=3, nf<=2) x prior "
             "settings x every data set of 1 sequence (length<=3) or (nc=2) unordered pairs "
             "of sequences (length<=2) over 2-3 symbols; every state of 5-step training traces; plus "
             "structured data sets of 21-30 samples for 8 steps",
    "thorough": "as quick, sequences to length 5, all pairs, 15-step traces, structured data sets to 307 samples for 40 steps",
}
ASSUMPTIONS = ["rounding tolerance 1e-7 relative", "a trace is followed until a covariance "
               "eigenvalue falls below 1e-6 or a state loses all its samples"]

PRIORS = {
    "cat": [{}, dict(startprob_prior=2.0, transmat_prior=1.5, emissionprob_prior=3.0)],
    "multinomial": [{}, dict(startprob_prior=2.0, transmat_prior=1.5)],
    "poisson": [{}, dict(startprob_prior=2.0, lambdas_prior=1.5, lambdas_weight=2.0)],
    "gauss": [{}, dict(transmat_prior=1.5, means_prior=.5, means_weight=1.5,
                       covars_prior=.3, covars_weight=4.0)],
    "gmm": [{}, dict(weights_prior=2.0)],
    "vcat": [{}], "vgauss": [{}],
}


class Recorder:
    """A monitor that keeps the parameters after every iteration."""

    def __new__(cls, model, base, n_iter):
        from hmmlearn.base import ConvergenceMonitor

        class Monitor(ConvergenceMonitor):
            def report(self, log_prob):
                super().report(log_prob)
                if base in em.ATTRS:
                    self.trace.append(em.public(model, base))

        mon = Monitor(-np.inf, n_iter, False)
        mon.trace = []
        return mon


def spec_with(spec, pub):
    """spec with the parameters shown by a trained model."""
    out = spec.replace(pi=pub["s"], A=pub["t"])
    for code, name in em.ATTRS[spec.base].items():
        v = pub[code]
        if spec.base == "gauss" and name == "covars_":
            if spec.cov == "diag":
                v = np.array([np.diag(c) for c in v])
            elif spec.cov == "spherical":
                v = v[:, 0, 0]
            elif spec.cov == "tied":
                v = v[0]
        out.emis[name] = v
    return out


def loglik(spec, seqs):
    z = ref.LD(0)
    for X in seqs:
        logB = spec.logB(X)
        if spec.nc ** len(X) <= 300 and len(X) < 9:
            z += ref.Paths.loglik(ref.Paths(spec.pi, spec.A).table(logB))
        else:
            z += ref.lse(ref.forward(spec.pi, spec.A, logB)[-1])
    return z


def dirichlet(alpha, p, support):
    p = ref.ld(p)
    return (alpha - 1) * np.log(p[support]).sum() if alpha != 1 else ref.LD(0)


def penalty(spec, start):
    """Log prior density of the parameters, up to a constant."""
    h = spec.kwargs
    r = dirichlet(h.get("startprob_prior", 1.0), spec.pi, start.pi > 0)
    r += dirichlet(h.get("transmat_prior", 1.0), spec.A, start.A > 0)
    if spec.base == "cat":
        E = spec.emis["emissionprob_"]
        r += dirichlet(h.get("emissionprob_prior", 1.0), E, np.ones(E.shape, bool))
    elif spec.base == "gmm":
        W = spec.emis["weights_"]
        r += dirichlet(h.get("weights_prior", 1.0), W, np.ones(W.shape, bool))
    elif spec.base == "poisson":
        lam = ref.ld(spec.emis["lambdas_"])
        a, b = h.get("lambdas_prior", 0.0), h.get("lambdas_weight", 0.0)
        r += (a * np.log(lam) if a else 0 * lam).sum() - b * lam.sum()
    elif spec.base == "gauss":
        m0, mw = h.get("means_prior", 0), h.get("means_weight", 0)
        cp, cw = h.get("covars_prior", 1e-2), h.get("covars_weight", 1)
        nf = spec.nf
        for c in range(spec.nc):
            S = ref.ld(spec.full_cov(c))
            det, inv = gen._det_inv(S)
            d = ref.ld(spec.emis["means_"][c]) - m0
            r -= mw * (d @ inv @ d) / 2
            if spec.cov in ("diag", "spherical"):
                v = np.diag(S)
                r -= (cp / v + max(cw - 1, 0) * np.log(v)).sum() / 2
            elif spec.cov == "full" or c == 0:
                r -= (cp * inv.sum() + max(cw - nf, 0) * np.log(det)) / 2
    return r


def valid(spec):
    with np.errstate(all="ignore"):
        return (em.well_conditioned(spec, 1e-6)
                and np.isfinite(spec.A).all() and (abs(spec.A.sum(axis=1) - 1) < 1e-8).all()
                and all(np.isfinite(v).all() for v in spec.emis.values())
                and not (spec.base == "poisson" and (spec.emis["lambdas_"] <= 0).any()))


def base_trace_invalid(spec, mon):
    """Whether training had already reached parameters that are not valid."""
    return any(not valid(spec_with(spec, pub)) for pub in mon.trace)


def run_case(acc, spec, seqs, n_iter, key, data):
    X, lengths = np.concatenate(seqs), [len(s) for s in seqs]
    for impl in walk.IMPLS:
        m = spec.make(implementation=impl, init_params="", n_iter=n_iter, tol=-np.inf)
        m.monitor_ = mon = Recorder(m, spec.base, n_iter)
        k = f"{key}/{impl}"
        try:
            m.fit(X, lengths)
        except ValueError as exc:
            if base_trace_invalid(spec, mon):
                acc.bump("refused_degenerate")
                continue
            acc.fail(k, f"fit raised {exc!r}", **data)
            continue
        acc.count(states=1, traces=1)
        hist = list(mon.history)
        if len(hist) != n_iter:
            acc.fail(k + "/len", f"{len(hist)} values recorded for {n_iter} iterations", **data)
            continue
        if spec.base not in em.ATTRS:
            if not np.isfinite(hist).all():
                acc.fail(k, f"lower bounds {hist}", **data)
            for i in range(n_iter - 1):
                acc.count(transitions=1)
                if hist[i + 1] < hist[i] - 1e-7 * (1 + abs(hist[i])):
                    acc.fail(k, f"lower bound decreased: {hist[i]} -> {hist[i + 1]}", **data)
                    break
            continue
        cur, obj, ll0 = spec, None, None
        for i in range(n_iter):
            ll = loglik(cur, seqs)
            if ll == -np.inf:
                acc.bump("impossible_data")
                break
            if not ref.close(hist[i], ll, 1e-7, 1e-7):
                acc.fail(k + "/history", f"recorded objective {hist[i]} of iteration {i + 1}, "
                         f"log likelihood of its parameters {ll}", **data)
                break
            with np.errstate(all="ignore"):
                o = ll + penalty(cur, spec)
            if obj is not None and np.isfinite(obj) and not o >= obj - 1e-7 * (1 + abs(obj)):
                acc.fail(k, f"objective decreased in iteration {i}: {obj} -> {o}",
                         before=prev.label(), after=cur.label(), **data)
                break
            acc.count(transitions=1)
            obj, prev = o, cur
            cur = spec_with(spec, mon.trace[i])
            if not valid(cur):
                acc.bump("traces_cut")
                break


def tasks(tier):
    out = []
    for fam in gen.EM_FAMILIES + gen.VB_FAMILIES:
        base = fam.split("-")[0]
        for nc in (1, 2, 3):
            for nf in (1, 2):
                if base in ("cat", "multinomial", "vcat") and nf == 1 or nc == 3 and nf == 1:
                    continue
                for ci in range(len(chains(nc))):
                    for pi in range(len(PRIORS[base])):
                        out.append(("small", fam, nc, nf, ci, pi, tier))
                        if nf == 2:
                            out.append(("large", fam, nc, ci, pi, tier))
    return out


def task_fn(task, acc):
    if task[0] == "small":
        _, fam, nc, nf, ci, pi, tier = task
    else:
        _, fam, nc, ci, pi, tier = task
        nf = 2
    name, p, A = chains(nc)[ci]
    base = fam.split("-")[0]
    spec = gen.Spec(fam, p, A, nf=nf, **PRIORS[base][pi])
    head = f"{task[0]}/{fam}/nc{nc}/nf{nf}/{name}/prior{pi}/"
    if task[0] == "large":
        alpha = gen.alphabet(fam, nf)
        for lens in ((30,), (1, 20), (4,) * 6) + (((120,), (300, 7)) if tier == "thorough" else ()):
            n = sum(lens)
            idx = (ref.irregular((n,), n + nc) * len(alpha)).astype(int)
            X = gen.rows(alpha, idx)
            if base in ("gauss", "gmm", "vgauss"):
                X = X + ref.irregular(X.shape, n) - .5
            seqs = np.split(X, np.cumsum(lens)[:-1])
            run_case(acc, spec, seqs, 8 if tier == "quick" else 40, head + f"{lens[:3]}x{len(lens)}", {})
        return
    alpha = gen.alphabet(fam, nf, 2 if nc > 1 or base != "gauss" else 3)
    big = 3 if tier == "quick" else 5
    sets = [(s,) for s in gen.sequences(len(alpha), big)]
    two = list(gen.sequences(len(alpha), 2))
    if nc == 2 or tier == "thorough":
        sets += [(a, b) for a in two for b in two if a <= b or tier == "thorough"]
    for ds in sets:
        seqs = [gen.rows(alpha, s) for s in ds]
        if base == "vgauss" and sum(map(len, seqs)) < nc:
            continue  # initialisation clusters the samples
        run_case(acc, spec, seqs, 5 if tier == "quick" else 15, head + "|".join(
            "".join(map(str, s)) for s in ds), dict(model=spec.label(), data=[s.tolist() for s in seqs]))
    acc.sample(dict(model=spec.label()[:200], data_sets=len(sets)))


def run(tier, acc):
    core.explore(task_fn, tasks(tier), acc)
