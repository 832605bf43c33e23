"""C06: the log and scaling implementations agree, or scaling raises."""

import itertools

import numpy as np

from .. import core, em, gen, ref, walk

NEG = -np.inf
FULL = (0., -1., -150., -300., -650., -690., -740., -1000., NEG, 300., 700., 720.)
SMALL = (0., -1., -300., -690., -1000., NEG, 300.)
FIVE = (0., -300., -690., NEG, 300.)
THREE = (0., -400., NEG)
TINY = (0., -400., NEG, 200.)
BOUNDS = {
    "quick": "2 states: all frame lattices of length 1 (6 chains) and 2 (3 chains) over "
             "12 extreme log densities (-inf, -1000 ... +720), of length 2 (3 chains) over 7, "
             "length 3 (2 chains) over 5, length 4 over 3 values; 3 states: length 2 over 4 "
             "values; score, posteriors, decoding and one training step; all sequences "
             "of <=3 far-tail observations for every family; long sequences whose "
             "lattices drift apart by hundreds of orders of magnitude",
    "thorough": "as quick on 6 chains, length 3 over 7, length 4 over 4 values, 3 states "
                "length 2 over 7 and 3 over 3 values",
}
ASSUMPTIONS = [
    "agreement is demanded where every nonzero term of the scaled recursions is "
    "above 1e-290 (computed by the reference); elsewhere scaling may disregard paths it "
    "cannot represent, but must not return NaN nor overestimate the likelihood"]


def chains(nc):
    return gen.chains(nc)


def model(spec_tab, pi, A, impl, **kw):
    m = gen.custom_class("custom-log")(len(pi), implementation=impl, init_params="", **kw)
    m.startprob_, m.transmat_, m.n_features = pi.copy(), A.copy(), 1
    m.table_ = spec_tab
    return m


def _lse(a, axis=0):
    m = a.max(axis=axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0)
    return np.log(np.exp(a - m).sum(axis=axis)) + np.squeeze(m, axis=axis)


def representable(pi, A, logB, xi=False):
    """Whether no nonzero term of the scaled recursions (of the expected
    transition counts) underflows."""
    lpi, lA = np.log(pi), np.log(A)
    if (logB[np.isfinite(logB)] < -690).any():
        return False
    f = lpi + logB[0]
    z = _lse(f)
    f = f - z
    low, c, fs = [lpi + logB[0], f], [-z], [f]
    for t in range(1, len(logB)):
        terms = f[:, None] + lA
        f = _lse(terms) + logB[t]
        low += [terms, f]
        z = _lse(f)
        c.append(-z)
        f = f - z
        low.append(f)
        fs.append(f)
    b = np.full(len(pi), c[-1])
    for t in range(len(logB) - 2, -1, -1):
        terms = lA + logB[t + 1] + b
        low += [lA + logB[t + 1], terms]
        if xi:
            low += [fs[t][:, None] + lA + logB[t + 1], fs[t][:, None] + terms]
        b = _lse(terms, 1) + c[t]
        low.append(b)
    v = np.concatenate([np.ravel(a) for a in low])
    return bool((v[np.isfinite(v)] > -667).all())


def try_(f, *a, **k):
    try:
        return f(*a, **k)
    except ValueError:
        return None


def compare(acc, key, pi, A, logB, fit=False):
    T = len(logB)
    X = np.arange(T)[:, None]
    z = None
    table = ref.Paths(pi, A).table(logB) if len(pi) ** T <= 5000 else None
    if table is not None:
        z = ref.Paths.loglik(table)
    else:
        z, g, _ = ref.smooth(pi, A, logB)
    if z == NEG:
        acc.bump("impossible_sequences")
    rep = z > NEG and representable(pi, A, logB)
    acc.bump("representable" if rep else "beyond_double_range")
    acc.count(states=1, transitions=T)
    data = dict(pi=pi, A=A, log_densities=logB)
    ml, ms = model(logB, pi, A, "log"), model(logB, pi, A, "scaling")
    acc.count(traces=2)
    lp, post = ml.score_samples(X)
    if not ref.close(lp, z):
        acc.fail(key + "/log", f"log implementation: {lp}, reference {z}", **data)
        return
    got = try_(ms.score_samples, X)
    gots = try_(ms.score, X)
    if got is None:
        acc.bump("scaling_raised")
        if rep and np.where(np.isfinite(logB), abs(logB), 0).max(axis=1).sum() <= 301:
            # Nothing is out of range: refusing would make scaling useless.
            acc.fail(key + "/refused", "scaling raised although every quantity "
                     "is representable", **data)
        return
    sp, spost = got
    if gots is None or not ref.close(gots, sp, 1e-12, 1e-12):
        acc.fail(key + "/score", f"score {gots} and score_samples {sp} differ", **data)
    if z == NEG:
        if sp != NEG:
            acc.fail(key, f"scaling gives {sp} to an impossible sequence", **data)
        return
    if not (np.isfinite(sp) and np.isfinite(spost).all()):
        acc.fail(key, f"scaling returned {sp} with posteriors {spost.tolist()}; log "
                 f"probability is {z}", **data)
        return
    if not rep:
        if sp > z + 1 * T:
            acc.fail(key, f"scaling overestimates: {sp} > {z}", **data)
        return
    acc.bump("agreements")
    if not (ref.close(sp, lp) and ref.close(spost, post, 1e-8, 1e-8)):
        acc.fail(key, f"scaling {sp}, log {lp}", got=spost, want=post, **data)
        return
    dl, ds = ml.decode(X, algorithm="map"), try_(ms.decode, X, algorithm="map")
    gap = np.sort(post, axis=1)
    if ds is None or not ref.close(dl[0], ds[0]) or (
            post.shape[1] > 1 and ((gap[:, -1] - gap[:, -2]) > 1e-6).all()
            and not np.array_equal(dl[1], ds[1])):
        acc.fail(key + "/map", f"MAP decodings differ: {dl} {ds}", **data)
    vl, vs = ml.decode(X), try_(ms.decode, X)
    if vs is None or not ref.close(vl[0], vs[0]):
        acc.fail(key + "/viterbi", f"Viterbi decodings differ: {vl} {vs}", **data)
    if fit and representable(pi, A, logB, xi=True):
        fits = []
        for impl in walk.IMPLS:
            m = model(logB, pi, A, impl, n_iter=1)
            if try_(m.fit, X) is None:
                fits.append(None)
            else:
                fits.append((m.startprob_, m.transmat_))
        acc.count(traces=2)
        if fits[1] is None:
            acc.bump("scaling_fit_raised")
        elif not all(ref.close(a, b, 1e-7, 1e-8) for a, b in zip(*fits)):
            acc.fail(key + "/fit", "training differs between the implementations",
                     log=fits[0], scaling=fits[1], **data)


def lattice_fn(task, acc):
    _, nc, ci, T, vals, first = task
    name, pi, A = chains(nc)[ci]
    for frames in itertools.product(itertools.product(vals, repeat=nc), repeat=T - 1):
        logB = np.array((first,) + frames)
        compare(acc, f"lattice/nc{nc}/{name}/" + ";".join(
            ",".join(f"{v:g}" for v in fr) for fr in logB), pi, A, logB, fit=T > 1)
    acc.sample(dict(chain=name, first=list(first), values=[repr(v) for v in vals], T=T))


FAR = {"gauss": [0., 3., 20., 37., 38.5, 60., 1e3, 1e6], "poisson": [0, 1, 40, 200, 900, 5000],
       "multinomial": [(3, 0), (0, 300), (150, 150), (700, 5), (0, 2000)],
       "cat": [0, 1]}


def family_fn(task, acc):
    """Far-tail observations through the real emission densities."""
    _, fam, nc, ci, tier = task
    name, pi, A = gen.chains(nc)[ci]
    for nf in (1, 2):
        if fam.split("-")[0] in ("multinomial", "cat", "vcat") and nf == 1:
            continue
        spec = gen.Spec(fam, pi, A, nf=nf, zeros=True)
        base = gen.family_base(fam)
        if base == "multinomial":
            obs = [list(o) for o in FAR[base]]
        elif base == "cat":
            obs = [[o] for o in FAR[base]]
        else:
            obs = [[o] * nf for o in FAR[base]]
        for T in (1, 2, 3):
            ks = range(len(obs)) if T < 3 or tier == "thorough" else range(1, len(obs), 2)
            for seq in itertools.product(ks, repeat=T):
                X = np.array([obs[k] for k in seq])
                if base == "multinomial" and len(set(X.sum(axis=1))) > 1:
                    continue
                kw = dict(n_trials=int(X[0].sum())) if base == "multinomial" else {}
                res = []
                acc.count(states=1, transitions=T, traces=2)
                logB = spec.logB(X)
                z = ref.lse(ref.forward(spec.pi, spec.A, logB)[-1])
                for impl in walk.IMPLS:
                    m = spec.make(implementation=impl, **kw)
                    res.append(try_(m.score_samples, X))
                key = f"tail/{fam}/nc{nc}/nf{nf}/{name}/{seq}"
                data = dict(model=spec.label(), X=X)
                if res[0] is None or not ref.close(res[0][0], z, 1e-9, 1e-6):
                    acc.fail(key + "/log", f"log implementation: {res[0]}, reference {z}", **data)
                    continue
                if res[1] is None:
                    acc.bump("scaling_raised")
                    continue
                if z == NEG:
                    ok = res[1][0] == NEG
                elif representable(spec.pi, spec.A, logB):
                    ok = ref.close(res[1][0], res[0][0]) and ref.close(
                        res[1][1], res[0][1], 1e-8, 1e-8)
                    acc.bump("agreements")
                else:
                    ok = np.isfinite(res[1][0]) and np.isfinite(res[1][1]).all() \
                        and res[1][0] <= z + T
                if not ok:
                    acc.fail(key, f"scaling {res[1][0]}, log {res[0][0]}", **data)


def long_fn(task, acc):
    """Repeated unbalanced frames: the lattices drift apart exponentially."""
    _, nc, ci = task
    name, pi, A = chains(nc)[ci]
    for T in (2, 3, 5, 8, 13, 21, 50, 200):
        for hi, lo in itertools.product((0., -50., -300., 60.), (0., -1., -20., -100., -400., NEG)):
            for cut in sorted({0, 1, T // 2, T - 1, T}):
                logB = np.full((T, nc), hi)
                logB[:cut, 0] = lo
                logB[cut:, nc - 1] = lo
                compare(acc, f"long/nc{nc}/{name}/T{T}/{hi:g}/{lo:g}/{cut}", pi, A, logB,
                        fit=T > 1)


def tasks(tier):
    out = []

    def lattices(nc, cis, T, vals):
        for ci in cis:
            for first in itertools.product(vals, repeat=nc):
                out.append(("lattice", nc, ci, T, vals, first))
    lattices(2, range(6), 1, FULL)
    if tier == "quick":
        lattices(2, (0, 2, 4), 2, FULL)
        lattices(2, (1, 3, 5), 2, SMALL)
        lattices(2, (2, 4), 3, FIVE)
        lattices(2, (2,), 4, THREE)
        lattices(3, (0, 2, 5), 2, TINY)
    else:
        lattices(2, range(6), 2, FULL)
        lattices(2, range(6), 3, SMALL)
        lattices(2, (0, 2, 4), 4, TINY)
        lattices(3, range(6), 2, SMALL)
        lattices(3, (0, 2, 4), 3, THREE)
    for fam in gen.FAMILIES:
        if not fam.startswith("custom"):
            for nc in (1, 2, 3):
                for ci in range(len(gen.chains(nc))):
                    out.append(("family", fam, nc, ci, tier))
    for nc in (2, 3):
        for ci in range(6):
            out.append(("long", nc, ci))
    return out


def batch_fn(batch, acc):
    for task in batch:
        {"lattice": lattice_fn, "family": family_fn, "long": long_fn}[task[0]](task, acc)


def run(tier, acc):
    ts = tasks(tier)
    heavy = [t for t in ts if t[0] != "lattice"]
    lat = [t for t in ts if t[0] == "lattice"]
    n = 96
    core.explore(batch_fn, [[t] for t in heavy] + [lat[i::n] for i in range(n)], acc,
                 timeout=600)
