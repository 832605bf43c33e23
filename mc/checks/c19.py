"""C19: emission densities.

States: (family, parameters, observation) on grids.  A model whose first state
is certain has the emission density of that state as its score, so every
density is read off through the public API: score, score of a two-sample
sequence, both implementations.
"""

import itertools

import numpy as np

from .. import core, gen, ref

BOUNDS = {
    "quick": "categorical: all grids of denominator 4, 2-3 symbols, every symbol; "
             "multinomial: the same grids plus awkward rounding, every count vector with "
             "totals 0..5 and large totals; Poisson: rates in {0, 1e-8, .3, 2, 50, 700}, counts in "
             "{0, 1, 2, 7, 60, 1000}; Gaussian, mixtures and the variational Gaussian: 4 "
             "covariance types x scales 1e-24..1e24 x 1-4 dimensions x observations "
             "from the mean to 1e8, and within 2 standard deviations of it, up to 17 dimensions "
             "at unit scale, units of measurement from 1e-140 to 1e140; up to 65 (257) symbols or features of the discrete families; features "
             "in units that differ by up to 1e5; equal covariances in all forms that express them",
    "thorough": "as quick with denominators 6, totals 0..9, more rates and counts, "
                "up to 6 dimensions and 5 observation values per dimension"}
ASSUMPTIONS = ["the scaling implementation may raise when the density is below 1e-290"]


def density_by_score(m, state, x, other=None):
    """score of the sequence (x) or (other, x) starting surely in a state."""
    m.startprob_ = np.eye(m.n_components)[state]
    m.transmat_ = np.eye(m.n_components)
    X = np.array([x] if other is None else [other, x])
    return m.score(X)


def judge(acc, key, m, impl, state, x, want, rtol=1e-9, other=None):
    acc.count(states=1, transitions=1, traces=1)
    try:
        got = density_by_score(m, state, x, other)
    except ValueError as exc:
        if impl == "scaling" and abs(want) > 600 and (
                "underflow" if want < 0 else "overflow") in str(exc):
            acc.bump("underflow_raised")
            return
        acc.fail(key, f"raised {exc!r}, density {float(want)}")
        return
    if not ref.close(got, want, rtol, 1e-9):
        # numbers below the range of the exponential are out of reach
        if impl == "scaling" and want < -600 and got == -np.inf:
            return
        acc.fail(key, f"log density {got!r}, should be {float(want)!r}",
                 state=state, x=x)


def models(spec):
    return [(impl, spec.make(implementation=impl)) for impl in ("log", "scaling")]


def run_spec(acc, name, spec, xs, rtol=1e-9, logb=None):
    logb = logb or spec.logb
    for impl, m in models(spec):
        prev = None
        for i, x in enumerate(xs):
            lb = logb(x)
            for s in range(spec.nc):
                judge(acc, f"{name}/{impl}/{s}/{x!r}", m, impl, s, x, lb[s], rtol)
                if prev is not None and lb[s] + prev[1][s] > -1e4 or \
                        (prev is not None and impl == "log"):
                    judge(acc, f"{name}/{impl}/{s}/{prev[0]!r}+{x!r}", m, impl, s,
                          x, lb[s] + prev[1][s], rtol, other=prev[0])
            prev = (x, lb)


def cat_fn(acc, fam, nf, d, lo, hi):
    rows = ref.simplex(nf, d)
    for i, E in enumerate(itertools.islice(
            itertools.product(rows, repeat=2), lo, hi)):
        spec = gen.Spec(fam, [.5, .5], np.eye(2), nf=nf,
                        emis={"emissionprob_": np.array(E)})
        run_spec(acc, f"{fam}/{nf}/{d}/{lo + i}", spec, [[k] for k in range(nf)])


AWKWARD = [(.1, .2, .7, 0.), (0., .1, .2, .7), (.7, .2, .1, 0), (1 / 3, 1 / 3, 1 / 3, 0),
           (.15, .25, .6, 0), (1e-8, 1 - 1e-8, 0, 0), (1e-300, 1., 0, 0),
           (.3, .3, .4, 0), (.6, .3, .1, 0), (0, 0, 1., 0), (.25,) * 4]


def multi_fn(acc, nf, d, tot, lo, hi):
    rows = ref.simplex(nf, d) if d else AWKWARD
    for i, E in enumerate(itertools.islice(rows, lo, hi)):
        spec = gen.Spec("multinomial", [.5, .5], np.eye(2), nf=nf, n_trials=3,
                        emis={"emissionprob_": np.array([E, E[::-1]])})
        xs = [x for t in range(tot + 1) for x in
              itertools.product(range(t + 1), repeat=nf) if sum(x) == t]
        xs += [tuple(100 if k == j else k for k in range(nf)) for j in range(nf)]
        run_spec(acc, f"multinomial/{nf}/{d}/{lo + i}", spec, xs, 1e-8)


def poisson_fn(acc, rates, counts, nf, lo, hi):
    for i, lam in enumerate(itertools.islice(
            itertools.product(rates, repeat=nf), lo, hi)):
        spec = gen.Spec("poisson", [.5, .5], np.eye(2), nf=nf,
                        emis={"lambdas_": np.array([lam, lam[::-1]], float)})
        run_spec(acc, f"poisson/{lam}", spec,
                 list(itertools.product(counts, repeat=nf)), 1e-9)


WIDE = (1, 2, 5, 8, 9, 16, 17, 32, 33, 64, 65)


def wide_fn(acc, fam, nf):
    """Discrete families with many symbols or features."""
    E = ref.irregular((2, nf), nf) + .01
    if nf > 2:
        E[0, nf // 2] = E[1, -1] = 0
    E /= E.sum(1, keepdims=True)
    if fam == "poisson":
        emis = {"lambdas_": 40 * E}
        xs = [[0] * nf, [1] * nf, [5] * nf, list(range(nf))]
        xs += [[3 * (j == k) for j in range(nf)] for k in range(nf)]
    elif fam == "multinomial":
        emis = {"emissionprob_": E}
        xs = [[0] * nf, [1] * nf, list(range(nf)), list(range(nf))[::-1]]
        xs += [[3 * (j == k) for j in range(nf)] for k in range(nf)]
        xs += [[(j == k) + 2 * (j == nf - 1 - k) for j in range(nf)] for k in range(nf)]
    else:
        emis = {"emissionprob_": E}
        xs = [[k] for k in range(nf)]
    spec = gen.Spec(fam, [.5, .5], np.eye(2), nf=nf, emis=emis,
                    **({"n_trials": 3} if fam == "multinomial" else {}))
    run_spec(acc, f"wide/{fam}/{nf}", spec, xs, 1e-8)


def spd(nf, k):
    L = ref.irregular((nf, nf), 7 * nf + k) - .5
    M = L @ L.T + .1 * np.eye(nf)
    if k % 3 == 2 and nf > 1:   # strong correlation
        M[0, 1] = M[1, 0] = .99 * np.sqrt(M[0, 0] * M[1, 1])
        M[2:, :2] = M[:2, 2:] = 0
    return (M + M.T) / 2


def covars(cov, shape, nf, scale):
    n = int(np.prod(shape))
    f = scale * 2.0 ** np.arange(n)
    if cov == "spherical":
        return (f * .7).reshape(shape)
    if cov == "diag":
        return (f[:, None] * (.3 + ref.irregular((n, nf), nf))).reshape(shape + (nf,))
    return np.array([f[k] * spd(nf, k) for k in range(n)]).reshape(shape + (nf, nf))


def observations(nf, vals):
    if nf <= 2:
        return [list(x) for x in itertools.product(vals, repeat=nf)]
    out = [[v] * nf for v in vals]
    for d in range(nf):
        for v in vals:
            out.append([.25 * k for k in range(nf)])
            out[-1][d] = v
    return out


def gauss_spec(fam, nf, scale):
    base, _, cov = fam.partition("-")
    nc = 2
    emis = {}
    if base == "gmm":
        emis["means_"] = 4 * ref.irregular((nc, 2, nf), 3) - 2
        emis["weights_"] = np.array([[.25, .75], [0., 1.]])
        emis["covars_"] = covars(cov, (nc,) if cov == "tied" else (nc, 2), nf, scale)
    else:
        emis["means_"] = 4 * ref.irregular((nc, nf), 3) - 2
        c = covars(cov, (nc,), nf, scale)
        emis["covars_"] = c[1] if cov == "tied" else c
    return gen.Spec(fam, [.5, .5], np.eye(2), nf=nf, emis=emis)


def fast_logb(spec):
    """Textbook Gaussian densities with determinant and inverse kept."""
    if spec.base == "gmm":
        comps = [[(spec.emis["means_"][c][k], *gen._det_inv(spec.full_cov(c, k)))
                  for k in range(2)] for c in range(spec.nc)]
    else:
        comps = [[(spec.emis["means_"][c], *gen._det_inv(spec.full_cov(c)))]
                 for c in range(spec.nc)]
    w = spec.emis.get("weights_", np.ones((spec.nc, 1)))

    def one(x, mu, d, inv):
        r = ref.ld(x) - ref.ld(mu)
        return -(len(r) * np.log(2 * ref.LD(np.pi)) + np.log(d) + r @ inv @ r) / 2

    def logb(x):
        return np.array([ref.lse([ref.log(w[c][k]) + one(x, *comps[c][k])
                                  for k in range(len(comps[c]))])
                         for c in range(spec.nc)], dtype=ref.LD)
    return logb


def graded(spec, ratio):
    """Features measured in very different units."""
    D = ratio ** ((np.arange(spec.nf) % 3) - 1.)
    c = spec.emis["covars_"]
    spec.emis["covars_"] = c * D ** 2 if spec.cov == "diag" else c * np.outer(D, D)


def gauss_fn(acc, fam, nf, scale, vals, ratio=None):
    spec = gauss_spec(fam, nf, scale)
    xs = observations(nf, vals)
    mean = np.asarray(spec.emis["means_"]).reshape(-1, nf)[0]
    if ratio:
        graded(spec, ratio)
        D = ratio ** ((np.arange(nf) % 3) - 1.)
        xs += [(mean + z * D).tolist() for z in (1., -.5, 3.)]
        fam = f"{fam}/graded{ratio}"
    xs.append(mean.tolist())
    for z in (.5, -2.):
        xs.append((mean + z * np.sqrt(scale) * (1 + np.arange(nf)) / nf).tolist())
    run_spec(acc, f"{fam}/{nf}/{scale}", spec, xs, 1e-7, fast_logb(spec))


def unit_fn(acc, fam, nf, unit):
    """The same models and data in another unit of measurement."""
    spec = gauss_spec(fam, nf, 1.)
    spec.emis["means_"] = spec.emis["means_"] * unit
    spec.emis["covars_"] = spec.emis["covars_"] * unit ** 2
    xs = [(unit * np.array(x)).tolist() for x in observations(nf, (0., 1., -2.5))]
    run_spec(acc, f"{fam}/{nf}/unit{unit}", spec, xs, 1e-7, fast_logb(spec))


def forms_fn(acc, base, nf, kind, scale, vals):
    """The same covariances in every form that can express them."""
    nc, nm = 2, 2
    sh = (nc, nm) if base == "gmm" else (nc,)
    n = int(np.prod(sh))
    same = kind.endswith("-same")
    core_kind = kind.split("-")[0]
    full = []
    for k in range(n):
        f = scale * (1 if same else 2.0 ** k)
        full.append(f * {"spherical": np.eye(nf),
                         "diag": np.diag(1 + .5 * np.arange(nf)),
                         "full": spd(nf, 1)}[core_kind])
    full = np.array(full).reshape(sh + (nf, nf))
    diag = np.einsum("...ii->...i", full)
    forms = {"full": full}
    if core_kind != "full":
        forms["diag"] = diag
    if core_kind == "spherical":
        forms["spherical"] = diag[..., 0]
    if same:
        forms["tied"] = full[0] if base != "gmm" else full[:, 0]
    xs = observations(nf, vals)
    out = {}
    for cov, cv in forms.items():
        s = gauss_spec(f"{base}-{cov}", nf, scale)
        s.emis["covars_"] = np.array(cv)
        m = s.make()
        out[cov] = np.array([[density_by_score(m, st, x) for st in range(nc)]
                             for x in xs])
        acc.count(states=1, transitions=1, traces=out[cov].size)
        lb = fast_logb(s)
        want = np.array([lb(x) for x in xs])
        if not ref.close(out[cov], want, 1e-7):
            acc.fail(f"forms/{base}/{nf}/{kind}/{scale}/{cov}",
                     f"densities with {cov} covariances differ from the definition")
    for a, b in itertools.combinations(out, 2):
        if not ref.close(out[a], out[b], 1e-9):
            acc.fail(f"forms/{base}/{nf}/{kind}/{scale}/{a}-{b}",
                     f"{a} and {b} covariances disagree: {out[a].tolist()} "
                     f"{out[b].tolist()}")


def task_fn(task, acc):
    {"cat": cat_fn, "multi": multi_fn, "poisson": poisson_fn,
     "gauss": gauss_fn, "wide": wide_fn, "unit": unit_fn, "forms": forms_fn}[task[0]](acc, *task[1:])


def chunks(kind, args, total, size):
    return [(kind, *args, lo, min(total, lo + size)) for lo in range(0, total, size)]


def run(tier, acc):
    big = tier == "thorough"
    tasks = []
    for fam in ("cat", "vcat"):
        for nf, d in ((2, 4), (3, 4)) + (((3, 6), (4, 3)) if big else ()):
            tasks += chunks("cat", (fam, nf, d), len(ref.simplex(nf, d)) ** 2, 60)
    tot = 9 if big else 5
    for nf, d in ((2, 4), (3, 4)) + (((3, 6),) if big else ()):
        tasks += chunks("multi", (nf, d, tot), len(ref.simplex(nf, d)), 3)
    tasks += chunks("multi", (4, 0, 3), len(AWKWARD), 2)
    rates = (0., 1e-8, .3, 2., 50., 700.) + ((1e-300, 1., 7.5, 1e4) if big else ())
    counts = (0, 1, 2, 7, 60, 1000) + ((3, 20, 170, 171, 10 ** 6) if big else ())
    for nf in (1, 2):
        tasks += chunks("poisson", (rates, counts, nf), len(rates) ** nf, 3)
    tasks += [("wide", fam, nf) for fam in ("cat", "vcat", "multinomial", "poisson")
              for nf in WIDE + ((128, 129, 256, 257) if big else (257,) if "cat" in fam else ())
              if nf > 1 or fam in ("poisson", "cat")]
    for nf in (5, 8, 9, 16, 17) + ((32, 33) if big else ()):
        for base in ("gauss", "gmm", "vgauss"):
            for cov in gen.COVS:
                tasks.append(("gauss", f"{base}-{cov}", nf, 1., (-2.5,)))
            tasks.append(("forms", base, nf, "full-same", .01, (1.,)))
    tasks += [("gauss", f"{base}-{cov}", nf, 1., (0., 1.), ratio)
              for base in ("gauss", "gmm", "vgauss") for cov in ("diag", "full", "tied")
              for nf in (2, 3, 4) for ratio in (30., 1e3, 1e5)]
    tasks += [("unit", f"{base}-{cov}", nf, unit) for base in ("gauss", "gmm", "vgauss")
              for cov in gen.COVS for nf in (1, 2, 3)
              for unit in (1e-140, 1e-100, 1e-70, 1e-30, 1e30, 1e70, 1e100, 1e140)]
    vals = (0., 1., -2.5, 40., 1e8) + ((1e3, -7.) if big else ())
    for base in ("gauss", "gmm", "vgauss"):
        for nf in range(1, 7 if big else 5):
            for scale in (1e-24, 1e-6, .01, 1., 1e6, 1e24):
                for cov in gen.COVS:
                    tasks.append(("gauss", f"{base}-{cov}", nf, scale, vals))
                for kind in ("spherical", "diag", "full", "spherical-same",
                             "diag-same", "full-same"):
                    tasks.append(("forms", base, nf, kind, scale, vals))
    core.explore(task_fn, tasks, acc, timeout=800)
