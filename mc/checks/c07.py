"""C07: every EM iteration performs the exact closed-form update."""

import hashlib

import numpy as np

from .. import core, em, gen, ref, walk

BOUNDS = {
    "quick": "9 families x chain structures (nc<=3, nf<=2) x prior settings x "
             "every data set of 1 sequence (length<=4), 2 sequences "
             "(length<=2) or 3 sequences (length 1) over 2-3 symbols, 1 update "
             "(2 where well conditioned), both implementations; one size "
             "lattice of long data sets (257 samples, 70 sequences, 17 features, 17 states, 9 "
             "components); scalar and array priors; states and transitions with "
             "probability 3e-4..1e-100, and components or states without samples",
    "thorough": "as quick, sequences to length 6 / 3 / 2, 3 updates",
}
ASSUMPTIONS = ["parameters of states with zero expected occupancy are "
               "undefined and not compared",
               "80-bit reference, relative tolerance 1e-7"]

PRIORS = {
    "cat": [{}, dict(startprob_prior=2.0, transmat_prior=1.5, emissionprob_prior=3.0),
            dict(startprob_prior=.75, transmat_prior=.5, emissionprob_prior=.8)],
    "multinomial": [{}, dict(startprob_prior=2.0, transmat_prior=1.5)],
    "poisson": [{}, dict(startprob_prior=2.0, lambdas_prior=1.5, lambdas_weight=2.0)],
    "gauss": [{}, dict(transmat_prior=1.5, means_prior=.5, means_weight=1.5,
                       covars_prior=.3, covars_weight=4.0),
              dict(covars_prior=.1, covars_weight=1)],
    "gmm": [{}, dict(weights_prior=2.0, means_prior=.5, means_weight=1.5,
                     covars_prior=1.25, covars_weight=2.0), dict(weights_prior=.4)],
}


def arrays(base, cov, nc, nf, nm):
    """Priors that differ between states, components, symbols and features."""
    def irr(*shape, seed=0):
        return .75 + 1.5 * ref.irregular(shape, 30 + seed + len(shape))

    out = dict(startprob_prior=irr(nc), transmat_prior=irr(nc, nc))
    if base == "cat":
        return [dict(out, emissionprob_prior=irr(nc, nf))]
    if base == "multinomial":
        return [out]
    if base == "poisson":
        return [dict(out, lambdas_prior=irr(nc), lambdas_weight=irr(nc, seed=5)),
                dict(lambdas_prior=irr(nc, nf), lambdas_weight=irr(nc, nf, seed=5))]
    if base == "gauss":
        own = {"spherical": irr(nc), "diag": irr(nc, nf), "tied": gen.spd(2, nf),
               "full": np.array([gen.spd(k, nf) for k in range(nc)])}[cov]
        per = {} if cov == "tied" else dict(covars_prior=irr(nc, seed=5),
                                            covars_weight=1 + 2 * irr(nc, seed=6))
        return [dict(out, means_prior=irr(nc, seed=7) - 1, means_weight=irr(nc, seed=8), **per),
                dict(means_prior=irr(nc, nf, seed=7) - 1, means_weight=.75,
                     covars_prior=own, covars_weight=5.)]
    shape = {"spherical": (nc, nm), "diag": (nc, nm, nf), "full": (nc, nm, nf, nf),
             "tied": (nc, nf, nf)}[cov]
    if cov in ("full", "tied"):
        cp = np.broadcast_to(gen.spd(1, nf), shape) * irr(*shape[:-2], 1, 1)
        cw = 2 + irr(*shape[:-2])
    else:
        cp, cw = irr(*shape), irr(*shape, seed=5)
    out.update(weights_prior=irr(nc, nm), means_prior=irr(nc, nm, nf) - 1,
               means_weight=irr(nc, nm, seed=7), covars_prior=cp, covars_weight=cw)
    return [out, dict(weights_prior=irr(nm), means_weight=irr(nm, seed=7),
                      means_prior=irr(nm, nf) - 1)]


def priors(fam, nc, nf, nm=2):
    base, _, cov = fam.partition("-")
    return PRIORS[base] + arrays(base, cov, nc, nf, nm)


def chains(nc):
    return [c for c in gen.chains(nc) if c[0] != "cyclic" or nc == 2]


def tasks(tier):
    out = []
    for fam in gen.EM_FAMILIES:
        base = fam.split("-")[0]
        for nc in (1, 2, 3):
            for nf in (1, 2):
                if base in ("cat", "multinomial") and nf == 1:
                    continue
                if nc == 3 and nf == 1:
                    continue
                for ci in range(len(chains(nc))):
                    for pi in range(len(priors(fam, nc, nf))):
                        out.append((fam, nc, nf, ci, pi, tier))
    return out


def compare(acc, key, model, spec, base, data, rtol=1e-7):
    got, want = em.public(model, base), em.expected_public(spec)
    for code in want:
        defined = ~np.isnan(np.asarray(want[code], float))
        if got[code].shape != want[code].shape or \
                not ref.close(got[code][defined], want[code][defined], rtol, 1e-8):
            acc.fail(key + "/" + code,
                     f"parameter {code!r} after the update differs",
                     got=got[code], want=want[code], **data)
            return False
    return True


def run_case(acc, spec, seqs, n_iter, key, data):
    """Follow the reference for up to n_iter updates and replay each prefix."""
    X = np.concatenate(seqs)
    lengths = [len(s) for s in seqs]
    cur = spec
    for it in range(1, n_iter + 1):
        try:
            ll, cur = em.step(cur, seqs, strict=False)
        except em.Undefined as exc:
            acc.bump("undefined_updates")
            return
        acc.count(states=1, transitions=1)
        for impl in walk.IMPLS:
            m = spec.make(implementation=impl, init_params="", n_iter=it,
                          tol=-np.inf)
            acc.count(traces=1)
            try:
                m.fit(X, lengths)
            except ValueError as exc:
                if impl == "scaling" and "underflow" in str(exc) and key.startswith("tiny"):
                    acc.bump("underflow_raised")
                    continue
                raise
            k = f"{key}/{impl}/it{it}"
            if compare(acc, k, m, cur, spec.base, data):
                if not ref.close(m.monitor_.history[-1], ll, 1e-8, 1e-8) or \
                        m.monitor_.iter != it:
                    acc.fail(k + "/ll", f"recorded log-likelihood "
                             f"{m.monitor_.history[-1]} of iteration {it}, "
                             f"reference {ll}", **data)
        if not em.well_conditioned(cur) or not (abs(ref.ld(cur.A).sum(axis=1) - 1) < 1e-9).all():
            return


def task_fn(task, acc):
    if task[0] in ("long", "tiny"):
        return (long_fn if task[0] == "long" else tiny_fn)(task, acc)
    fam, nc, nf, ci, pi, tier = task
    name, p, A = chains(nc)[ci]
    base = fam.split("-")[0]
    spec = gen.Spec(fam, p, A, nf=nf, **priors(fam, nc, nf)[pi])
    alpha = gen.alphabet(fam, nf, 2 if nc > 1 or base != "gauss" else 3)
    for ds in em.datasets(len(alpha), tier):
        seqs = [gen.rows(alpha, s) for s in ds]
        key = f"{fam}/nc{nc}/nf{nf}/{name}/prior{pi}/" + "|".join(
            "".join(map(str, s)) for s in ds)
        run_case(acc, spec, seqs, 2 if tier == "quick" else 3, key,
                 dict(model=spec.label(), data=[s.tolist() for s in seqs]))
    acc.sample(dict(model=spec.label()[:250], data_sets=len(em.datasets(len(alpha), tier))))


TINY = (3e-4, 3e-5, 1e-9, 1e-13, 1e-20, 1e-100)


def tiny_fn(task, acc):
    """Nearly impossible states and transitions, decided by the observations
    or left as they are."""
    _, fam, eps, forced, prior = task
    base = fam.split("-")[0]
    e = ref.LD(eps)
    for pi, A in (([eps, 1 - e], [[1 - e, e], [e, 1 - e]]), ([1 - e, e], [[.5, .5], [eps, 1 - e]]),
                  ([1 - e, e], np.eye(2)), ([0., 1.], [[.25, .75], [0., 1.]])):
        spec = gen.Spec(fam, pi, A, nf=2, **PRIORS[base][prior])
        alpha = gen.alphabet(fam, 2, 2)
        d = spec.emis
        if forced:
            if "emissionprob_" in d:
                d["emissionprob_"] = np.array([[1., 0.], [0., 1.]])
                alpha = [[0], [1]] if base == "cat" else [[3, 0], [0, 3]]
            elif base == "poisson":
                d["lambdas_"] = np.array([[0., 1.], [2., 0.]])
                alpha = [[0, 2], [1, 0]]
            elif base == "gauss":
                d["means_"] = np.array([[0., 0.], [400., -300.]])
                alpha = [[.5, -.25], [401., -300.5]]
            else:
                d["means_"] = np.array([[[0., 0.], [1., 1.]], [[400., -300.], [401., -301.]]])
                alpha = [[.5, -.25], [401., -300.5]]
        for ds in ((0,), (1,), (0, 0, 1), (1, 0), (1, 1, 0)), ((0, 1, 1, 0),), ((1,), (1, 1)), \
                ((0, 0, 0), (0,)):
            seqs = [gen.rows(alpha, q) for q in ds]
            run_case(acc, spec, seqs, 1, f"tiny/{fam}/{eps}/{forced}/{prior}/"
                     f"{np.asarray(pi, float)[0]}/{np.asarray(A, float)[0, 0]}/{ds}",
                     dict(model=spec.label(), data=[q.tolist() for q in seqs]))


def long_fn(task, acc):
    _, fam, nc, lens, nf, nm = task
    spec = gen.Spec(fam, ref.stochastic((nc,), nc), ref.stochastic((nc, nc), nc + 1),
                    nf=nf, n_mix=nm)
    alpha = gen.alphabet(fam, nf)
    n = sum(lens)
    idx = (ref.irregular((n,), n + nc) * len(alpha)).astype(int)
    X = gen.rows(alpha, idx)
    if nf > 2 and gen.family_base(fam) == "gauss":
        X = X + ref.irregular(X.shape, 17) - .5
    seqs = np.split(X, np.cumsum(lens)[:-1])
    run_case(acc, spec, seqs, 1, f"long/{fam}/nc{nc}/nf{nf}/nm{nm}/{lens[:4]}x{len(lens)}", {})


def long_tasks(tier):
    lens = [(7, 1, 1, 12), (65,), (129, 2), (1,) * 70, (3, 1) * 20, (257,)]
    if tier == "thorough":
        lens += [(513,), (1025, 1), (2,) * 300, (17,) * 40]
    out = [("long", fam, nc, l, 2, 2) for fam in gen.EM_FAMILIES
           for nc in ((1, 2, 4, 5) if not fam.startswith("gmm") else (2, 3)) for l in lens]
    # Many features, states or components.
    for fam in gen.EM_FAMILIES:
        gmm = fam.startswith("gmm")
        out += [("long", fam, 2, (60, 9), nf, 2) for nf in (4, 5, 8, 9, 17)]
        out += [("long", fam, nc, (50, 20), 2, 2) for nc in ((8, 17) if not gmm else (9,))]
        out += [("long", fam, 2, (40, 20), 2, nm) for nm in ((3, 5, 9) if gmm else ())]
    out += [("tiny", fam, eps, forced, prior) for fam in gen.EM_FAMILIES for eps in TINY
            for forced in (False, True) for prior in range(len(PRIORS[fam.split("-")[0]]))]
    return out


def run(tier, acc):
    core.explore(task_fn, long_tasks(tier) + tasks(tier), acc)
