"""C12: sampling follows the model's distribution.

The random-number generator is the nondeterministic environment: a scripted
generator hands out, at every draw, one representative of each cell of a
partition of the unit interval that all distributions of the model respect (or
one outcome of the discrete distribution requested), and the tree of all draw
sequences is explored.  The exact law of the returned samples follows by summing the
weights of the branches.
"""

import itertools

import numpy as np

from .. import core, gen, ref

BOUNDS = {
    "quick": "categorical, 2 states, all models on probability grids (denominator 2: 243 "
             "models x 3 samples; denominator 4: 3125 models x 1 sample, 125 x 2 samples), "
             "3 states (denominator 2, 216 chains x 3 samples); every family x "
             "chain x nc<=3 x 2-3 samples; every start state given; all sequences of "
             "boundary random numbers (0, 1-2^-53, every cumulative sum and its "
             "neighbours) for 3 draws; samples of 1100 of every deterministic chain; cycles of 129 and 257 states; "
             "Gaussian samples at scales 2^-40, 2^-20, 1, 2^30",
    "thorough": "as quick with 4 samples, denominator 4 x 2 samples for all models, "
                "boundary sequences of 4 draws",
}
ASSUMPTIONS = ["the generator's own primitives (uniform, normal, poisson, multinomial, "
               "choice) have their documented laws"]


class Need(Exception):
    pass


class Scripted(np.random.RandomState):
    """Replays a list of decisions; extends it lazily on the first unknown one."""

    def setup(self, prefix, unit):
        self.prefix, self.pos, self.unit = prefix, 0, unit
        self.weight, self.log, self.options, self.normals = ref.LD(1), [], None, 0
        self.z = {}
        return self

    def decide(self, options):
        """options: list of (value, probability)."""
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
        else:
            k = 0
            self.prefix.append(0)
        self.pos += 1
        self.log.append(len(options))
        value, w = options[k]
        self.weight = self.weight * w
        return value

    def _u(self):
        return self.decide(self.unit)

    def _fill(self, size, f):
        if size is None or size == ():
            return f()
        out = np.empty(size)
        for i in np.ndindex(out.shape):
            out[i] = f()
        return out

    def rand(self, *size):
        return self._fill(size, self._u)

    def random_sample(self, size=None):
        return self._fill(size, self._u)

    random = ranf = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._fill(size, self._u)

    def standard_normal(self, size=None):
        def f():
            self.normals += 1
            return self.z.get(self.normals - 1, 0.0)
        return self._fill(size, f)

    def randn(self, *size):
        return self.standard_normal(size or None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(loc, scale).shape or None
        return loc + scale * self.standard_normal(size)

    def choice(self, a, size=None, replace=True, p=None):
        vals = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        probs = np.full(len(vals), 1 / len(vals)) if p is None else np.asarray(p, float)
        if abs(probs.sum() - 1) > 1e-6 or len(probs) != len(vals):
            raise ValueError("probabilities do not sum to 1")
        opts = [(v, ref.LD(q)) for v, q in zip(vals, probs) if q > 0]
        return self._fill(size, lambda: self.decide(opts)) if size is not None \
            else self.decide(opts)

    COUNTS = (0, 3)

    def poisson(self, lam=1.0, size=None):
        lam = np.asarray(lam, float)
        shape = lam.shape if size is None else size
        lam = np.broadcast_to(lam, shape)
        out = np.empty(lam.shape, dtype=int)
        for i in np.ndindex(lam.shape):
            # Two representative outcomes (weights are not normalised).
            out[i] = self.decide([(k, np.exp(gen.poisson_logpmf(k, lam[i])))
                                  for k in self.COUNTS])
        return out if out.shape else int(out)

    def multinomial(self, n, pvals, size=None):
        p = np.asarray(pvals, float)
        n = int(n)
        outs = [c for c in itertools.product(range(n + 1), repeat=len(p)) if sum(c) == n]
        opts = [(np.array(c), np.exp(gen.multinomial_logpmf(c, p))) for c in outs]
        opts = [(v, w) for v, w in opts if w > 1e-300]
        v = self.decide(opts)
        if size is not None and size != ():
            v = np.broadcast_to(v, tuple(np.atleast_1d(size)) + v.shape).copy() \
                if np.prod(size) == 1 else np.array([self.decide(opts)
                                                     for _ in range(int(np.prod(size)))])
        return v


def explore_tree(run, unit):
    """Yields (result, weight, rng) for every sequence of decisions."""
    prefix = []
    while True:
        rng = Scripted(0).setup(prefix, unit)
        res = run(rng)
        yield res, rng.weight, rng
        del prefix[rng.pos:]
        while prefix and prefix[-1] + 1 >= rng.log[len(prefix) - 1]:
            prefix.pop()
        if not prefix:
            return
        prefix[-1] += 1


def cells(d):
    return [((k + .5) / d, ref.LD(1) / d) for k in range(d)]


def emission_options(spec, c):
    """The outcomes of the emission of state c that the tree distinguishes."""
    if spec.base in ("cat", "vcat"):
        return [((float(k),), spec.emis["emissionprob_"][c, k]) for k in range(spec.nf)]
    if spec.base == "custom":
        return [((), ref.LD(1))]
    if spec.base == "poisson":
        return [(tuple(map(float, k)), np.exp(sum(gen.poisson_logpmf(v, l) for v, l in
                                                  zip(k, spec.emis["lambdas_"][c]))))
                for k in itertools.product(Scripted.COUNTS, repeat=spec.nf)]
    if spec.base == "multinomial":
        n = 3
        return [(tuple(map(float, k)),
                 np.exp(gen.multinomial_logpmf(k, spec.emis["emissionprob_"][c])))
                for k in itertools.product(range(n + 1), repeat=spec.nf) if sum(k) == n]
    if spec.base == "gmm":
        return [(tuple(spec.emis["means_"][c, k]), spec.emis["weights_"][c, k])
                for k in range(spec.n_mix)]
    return [(tuple(spec.emis["means_"][c]), ref.LD(1))]


def model_law(spec, n, start=None):
    law = {}
    pi = spec.pi if start is None else np.eye(spec.nc)[start]
    em = [emission_options(spec, c) for c in range(spec.nc)]
    for path in itertools.product(range(spec.nc), repeat=n):
        w = ref.LD(pi[path[0]])
        for a, b in zip(path, path[1:]):
            w *= spec.A[a, b]
        if w == 0:
            continue
        for xs in itertools.product(*(em[c] for c in path)):
            p = w
            for _, q in xs:
                p = p * q
            if p > 0:
                k = (path, tuple(tuple(np.round(x, 9)) for x, _ in xs))
                law[k] = law.get(k, 0) + p
    return law


def check_law(acc, key, spec, n, d, start=None, **kw):
    m = spec.make(**kw)
    law, leaves = {}, 0
    cur = None if start is None else start[0]
    for (X, Z), w, rng in explore_tree(
            lambda rng: m.sample(n, random_state=rng, currstate=cur), cells(d)):
        leaves += 1
        X = np.asarray(X)
        nf = 0 if spec.base == "custom" else (1 if spec.base in ("cat", "vcat") else spec.nf)
        if Z.shape != (n,) or X.shape != (n, nf) or Z.dtype.kind != "i":
            if not (nf == 0 and X.size == 0):
                acc.fail(key + "/shape", f"shapes {X.shape} {Z.shape} for {n} samples")
                return
        k = (tuple(int(z) for z in Z), tuple(tuple(np.round(np.asarray(x, float), 9))
                                             for x in (X if nf else [()] * n)))
        law[k] = law.get(k, 0) + w
    want = model_law(spec, n, None if start is None else int(start[0]))
    acc.count(states=1, transitions=leaves, traces=leaves)
    for k in set(law) | set(want):
        if abs(law.get(k, 0) - want.get(k, 0)) > 1e-9:
            acc.fail(key, f"outcome {k} has probability {float(law.get(k, 0))} "
                     f"instead of {float(want.get(k, 0))}", model=spec.label())
            return


def check_normals(acc, key, spec, n, unit_of=1.):
    """Conditional mean and covariance of every Gaussian emission, in units of
    unit_of."""
    def close(a, b, rtol, atol, power=1):
        return ref.close(np.asarray(a) / unit_of ** power, np.asarray(b) / unit_of ** power,
                         rtol, atol)
    m = spec.make()
    nf = spec.nf
    unit = cells(4)

    def replay(prefix, z):
        rng = Scripted(0).setup(list(prefix), unit)
        rng.z = z
        X, Z = m.sample(n, random_state=rng)
        return X, Z, rng

    seen = set()
    for (X, Z), w, rng in explore_tree(lambda r: m.sample(n, random_state=r), unit):
        if w == 0:
            continue
        prefix = list(rng.prefix)
        tag = (tuple(Z), tuple(map(tuple, X)))
        if tag in seen:
            continue
        seen.add(tag)
        nn = rng.normals
        if nn % n:
            acc.fail(key, f"{nn} normal draws for {n} samples")
            return
        D = []
        for i in range(nn):
            Xi, Zi, _ = replay(prefix, {i: 1.0})
            Xd, _, _ = replay(prefix, {i: -2.0})
            acc.count(transitions=1, traces=2)
            if not np.array_equal(Z, Zi) or not close(Xd - X, -2 * (Xi - X), 1e-9, 1e-9):
                acc.fail(key, "the sample is not an affine function of the normal draws")
                return
            D.append(Xi - X)
        D = np.array(D)  # (draw, t, feature)
        C = np.einsum("itf,isg->tsfg", D, D)
        for t, s in itertools.product(range(n), repeat=2):
            if t != s:
                if not close(C[t, s], np.zeros((nf, nf)), 0, 1e-9, 2):
                    acc.fail(key, f"samples {t} and {s} are correlated")
                continue
            c = int(Z[t])
            if spec.base == "gmm":
                k = int(np.argmin([abs(spec.emis["means_"][c, k] - X[t]).sum()
                                   for k in range(spec.n_mix)]))
                mean, cov = spec.emis["means_"][c, k], spec.full_cov(c, k)
            else:
                mean, cov = spec.emis["means_"][c], spec.full_cov(c)
            if not (close(X[t], mean, 1e-9, 1e-9) and close(C[t, t], cov, 1e-8, 1e-8, 2)):
                acc.fail(key, f"sample {t} in state {c}: mean {X[t]}, covariance {C[t, t].tolist()}"
                         f", expected {mean}, {cov.tolist()}", model=spec.label())
                return
        acc.count(states=1)


# ------------------------------------------------------------- boundaries

def boundary_units(spec):
    vals = {0.0, 1 - 2.0 ** -53, .5}
    rows = [spec.pi] + list(spec.A)
    if spec.base in ("cat", "vcat"):
        rows += list(spec.emis["emissionprob_"])
    for r in rows:
        for c in np.cumsum(r):
            for v in (c, np.nextafter(c, 0), np.nextafter(c, 2)):
                if 0 <= v < 1:
                    vals.add(float(v))
    return [(v, ref.LD(1)) for v in sorted(vals)]


def check_support(acc, key, spec, n):
    m = spec.make()
    unit = boundary_units(spec)
    for (X, Z), w, rng in explore_tree(lambda r: m.sample(n, random_state=r), unit):
        acc.count(transitions=1, traces=1)
        ok = spec.pi[Z[0]] > 0 and all(spec.A[a, b] > 0 for a, b in zip(Z, Z[1:]))
        if ok and spec.base in ("cat", "vcat"):
            ok = all(spec.emis["emissionprob_"][z, int(x[0])] > 0 for z, x in zip(Z, X))
        if not ok:
            acc.fail(key, f"impossible sample: states {Z.tolist()}, X {np.asarray(X).tolist()} for "
                     f"the random numbers {[unit[i][0] for i in rng.prefix]}", model=spec.label())
            return
    acc.count(states=1)


AWKWARD = [np.array(p) for p in ([.1, .2, .7], [.7, .2, .1], [.1] * 3 + [.7], [1 / 3] * 3,
                                 [.1] * 10, [0, .1, .2, .3, .4], [.3, .3, .4, 0], [0, .3, .7, 0],
                                 [.1, .1, .1, .1, .1, .1, .1, .3, 0], [1 / 7] * 7 + [0],
                                 [.5, .5 - 4e-9, 0], [0, 1 - 5e-9], [0, .3, .7 + 5e-9, 0],
                                 [1 / 49] * 49 + [0])]


def long_fn(task, acc):
    """Deterministic chains and nearly deterministic emissions: the whole of a
    long sample is known in advance.  Sparse chains: no impossible step."""
    _, fam, nc, n = task
    base = gen.family_base(fam)
    for to in itertools.product(range(nc), repeat=nc):
        for first in range(nc):
            spec = gen.Spec(fam, np.eye(nc)[first], np.eye(nc)[list(to)], nf=3)
            if base in ("cat", "multinomial") and "table_" not in spec.emis:
                spec.emis["emissionprob_"] = np.eye(3)[:nc]
            elif base == "poisson":
                spec.emis["lambdas_"] = 10. ** (2 * np.arange(nc)[:, None] + np.arange(3))
            elif base == "gauss":
                spec.emis["covars_"] = spec.emis["covars_"] * 1e-12
            m = spec.make(random_state=nc)
            for start in (None, 0, nc - 1):
                acc.count(states=1, transitions=n, traces=1)
                X, Z = m.sample(n, currstate=start)
                key = f"long/{fam}/{first}/{to}/{start}"
                want = [first if start is None else start]
                while len(want) < n:
                    want.append(to[want[-1]])
                if list(Z) != want or len(X) != n:
                    acc.fail(key, "the states of a deterministic chain are "
                             f"{np.asarray(Z)[:9].tolist()}..., expected {want[:9]}...; first "
                             f"difference at {[a == b for a, b in zip(Z, want)].index(False)}"
                             if len(Z) == n else f"{len(Z)} samples", model=spec.label())
                    continue
                Z = np.array(want)
                if base == "cat":
                    ok = spec.base == "custom" or np.array_equal(X[:, 0], Z)
                elif base == "multinomial":
                    ok = np.array_equal(X, 3 * np.eye(3)[Z])
                elif base == "poisson":
                    lam = spec.emis["lambdas_"][Z]
                    ok = (abs(X - lam) < 9 * np.sqrt(lam) + 9).all()
                elif spec.base == "gmm":
                    ok = (abs(X[:, None] - spec.emis["means_"][Z]).max(axis=2).min(axis=1)
                          < 1e-4).all()
                else:
                    ok = (abs(X - spec.emis["means_"][Z]) < 1e-4).all()
                if not ok:
                    acc.fail(key + "/x", "a sample does not belong to its state",
                             model=spec.label())
    for chain, pi, A in gen.chains(nc):
        spec = gen.Spec(fam, pi, A, nf=3, zeros=base == "cat" and fam != "custom")
        for seed in range(3):
            acc.count(states=1, transitions=n, traces=1)
            X, Z = spec.make(random_state=seed).sample(n)
            if not (pi[Z[0]] > 0 and (A[Z[:-1], Z[1:]] > 0).all()):
                acc.fail(f"long/{fam}/{chain}/{seed}", "impossible state or transition",
                         model=spec.label())


def wide_fn(task, acc):
    """Cycles through many states, in both directions: the whole sample is
    known, also where indices of 8 bits end."""
    _, fam, nc, step = task
    base = gen.family_base(fam)
    A = np.roll(np.eye(nc), step, axis=1)
    nf = nc if base == "cat" else 2
    spec = gen.Spec(fam, np.eye(nc)[nc - 1], A, nf=nf)
    rank = np.arange(nc)
    if base == "cat":
        spec.emis["emissionprob_"] = np.eye(nc)[::-1]
    elif base == "multinomial":
        spec.emis["emissionprob_"] = np.eye(2)[rank % 2]
    elif base == "poisson":
        spec.emis["lambdas_"] = np.array([rank % 2 * 1e6, 1e6 * (rank // 128)]).T
    elif base == "gauss":
        shape = np.shape(spec.emis["means_"])
        spec.emis["means_"] = np.broadcast_to(rank.reshape((-1,) + (1,) * (len(shape) - 1)),
                                              shape).astype(float)
        spec.emis["covars_"] = np.asarray(spec.emis["covars_"]) * 1e-12
    m = spec.make(random_state=3)
    for start in (None, 0, nc // 2, nc - 1):
        n = nc + 3
        X, Z = m.sample(n, currstate=start)
        acc.count(states=1, transitions=n, traces=1)
        want = ((nc - 1 if start is None else start) + step * np.arange(n)) % nc
        key = f"wide/{fam}/{nc}/{step}/{start}"
        if not np.array_equal(Z, want):
            acc.fail(key, f"the states of a cycle of {nc} states are {np.asarray(Z)[:9]}..., "
                     f"expected {want[:9]}...", model=spec.label()[:500])
            continue
        if base == "cat":
            ok = np.array_equal(X[:, 0], nc - 1 - want)
        elif base == "multinomial":
            ok = np.array_equal(X, X.sum(1, keepdims=True) * np.eye(2)[want % 2])
        elif base == "poisson":
            lam = spec.emis["lambdas_"][want]
            ok = (abs(X - lam) < 9 * np.sqrt(lam) + 9).all()
        else:
            ok = (abs(X - want[:, None]) < 1e-3).all()
        if not ok:
            acc.fail(key + "/x", "a sample does not belong to its state",
                     model=spec.label()[:500])


def grid_fn(task, acc):
    _, nc, d, n, lo, hi = task
    As = list(itertools.product(ref.simplex(nc, d), repeat=nc))
    Es = list(itertools.product(ref.simplex(2, d), repeat=nc))
    pis = ref.simplex(nc, d)
    if d == 4 and n > 1 or nc == 3:
        Es = [tuple(((k + 1) % (d + 1) / d, 1 - (k + 1) % (d + 1) / d) for k in range(nc))]
    for A in As[lo:hi]:
        for pi in pis:
            for E in Es:
                spec = gen.Spec("cat", pi, A, nf=2, emis={"emissionprob_": np.array(E)})
                check_law(acc, f"grid/{pi}/{A}/{E}/n{n}", spec, n, d)
    acc.sample(dict(grid=d, states=nc, samples=n))


def rational_chain(nc, ci):
    """Chains with probabilities that are multiples of 1/4."""
    q = {1: [([1.], [[1.]])],
         2: [([.25, .75], [[.5, .5], [.25, .75]]), ([0, 1.], [[0, 1.], [1., 0]]),
             ([1., 0], [[.75, .25], [0, 1.]])],
         3: [([.25, .25, .5], [[.5, .25, .25], [0, .75, .25], [.25, .5, .25]]),
             ([0, .5, .5], [[0, 0, 1.], [.5, 0, .5], [1., 0, 0]])]}[nc]
    return q[ci] if ci < len(q) else None


def rational_emissions(fam, nc):
    base = fam.split("-")[0]
    if base in ("cat", "vcat"):
        return {"emissionprob_": np.array([[.25, .75, 0], [.5, 0, .5], [0, 0, 1.]])[:nc]}
    if base == "gmm":
        return {"weights_": np.array([[.25, .75], [.5, .5], [1., 0]])[:nc]}
    if base == "multinomial":
        return {"emissionprob_": np.array([[.25, .75], [.5, .5], [1., 0]])[:nc]}
    return {}


def family_fn(task, acc):
    _, fam, nc, ci, tier = task
    pi, A = rational_chain(nc, ci)
    nf = 3 if gen.family_base(fam) == "cat" else 2
    spec = gen.Spec(fam, pi, A, nf=nf, emis=rational_emissions(fam, nc))
    small = spec.base in ("poisson", "multinomial", "cat", "vcat")
    nmax = (2 if small and nc > 1 else 3) + (tier == "thorough")
    for n in range(1, nmax + 1):
        for start in [None] + [(s,) for s in range(nc)] + [(np.int64(s),) for s in range(nc)]:
            if isinstance(start and start[0], np.int64) and n != 1:
                continue
            check_law(acc, f"law/{fam}/nc{nc}/{ci}/n{n}/start{start}", spec, n, 4, start)
    if spec.base in ("gauss", "gmm", "vgauss"):
        for f in (1, 2, 3):
            s2 = gen.Spec(fam, pi, A, nf=f, emis=rational_emissions(fam, nc))
            check_normals(acc, f"normal/{fam}/nc{nc}/{ci}/nf{f}", s2, 2)
            for scale in (2. ** -40, 2. ** -20, 2. ** 30) if ci == 0 else ():
                s3 = gen.Spec(fam, pi, A, nf=f, emis=rational_emissions(fam, nc))
                s3.emis["means_"] = s3.emis["means_"] * scale
                s3.emis["covars_"] = s3.emis["covars_"] * scale ** 2
                check_normals(acc, f"normal/{fam}/nc{nc}/{ci}/nf{f}/{scale}", s3, 1, scale)
    acc.sample(dict(model=spec.label()[:200], samples=nmax))


def boundary_fn(task, acc):
    _, nc, d, n, lo, hi = task
    As = list(itertools.product(ref.simplex(nc, d), repeat=nc))[lo:hi]
    for A in As:
        for pi in ref.simplex(nc, d):
            for E in ([(.5, .5, 0)] * nc, [(0, 1., 0)] * nc):
                spec = gen.Spec("cat", pi, A, nf=3, emis={"emissionprob_": np.array(E)})
                check_support(acc, f"support/{pi}/{A}/{E[0]}", spec, n)


def awkward_fn(task, acc):
    _, i, j = task
    p, e = AWKWARD[i], AWKWARD[j]
    nc = len(p)
    A = np.array([np.roll(p, k) for k in range(nc)])
    spec = gen.Spec("cat", p, A, nf=len(e),
                    emis={"emissionprob_": np.array([np.roll(e, k) for k in range(nc)])})
    # One sample: start and emission draws; then transitions by currstate.
    check_support(acc, f"awkward/{i}/{j}", spec, 1)
    if i == j:
        m = spec.make()
        unit = boundary_units(spec)
        for c in range(nc):
            for u in unit:
                def run(rng):
                    return m.sample(2, random_state=rng, currstate=c)
                rng = Scripted(0).setup([len(unit) // 2, unit.index(u), len(unit) // 2], unit)
                _, Z = run(rng)
                acc.count(transitions=1, traces=1)
                if Z[0] != c or spec.A[c, Z[1]] == 0:
                    acc.fail(f"awkward/{i}/{c}/{u[0]!r}", f"states {Z} for random number {u[0]!r}",
                             model=spec.label())


def tasks(tier):
    out = []

    def grid(kind, nc, d, n, parts):
        total = len(ref.simplex(nc, d)) ** nc
        size = -(-total // parts)
        for lo in range(0, total, size):
            out.append((kind, nc, d, n, lo, lo + size))
    q = tier == "quick"
    grid("grid", 2, 2, 3, 9)
    grid("grid", 2, 4, 1, 25)
    grid("grid", 2, 4, 2, 25)
    grid("grid", 3, 2, 2 if q else 3, 27)
    grid("boundary", 2, 2, 2, 9)
    if not q:
        grid("grid", 2, 2, 4, 9)
        grid("boundary", 2, 4, 2, 25)
    for fam in gen.FAMILIES:
        for nc in (1, 2, 3):
            for ci in range(3):
                if rational_chain(nc, ci):
                    out.append(("family", fam, nc, ci, tier))
        out += [("long", fam, nc, n) for nc, n in (
            ((1, 1100), (2, 1100), (3, 300)) if q else ((1, 5000), (2, 5000), (3, 1100), (4, 100)))]
    for fam in ("cat", "multinomial", "poisson", "gauss-diag", "gmm-spherical", "vcat",
                "vgauss-diag"):
        for nc in (17, 33, 64, 129, 257) + (() if q else (128, 256, 300, 513)):
            out += [("wide", fam, nc, step) for step in (1, -1)]
    for i in range(len(AWKWARD)):
        for j in range(len(AWKWARD)):
            if i == j or len(AWKWARD[i]) * len(AWKWARD[j]) < (41 if q else 120):
                out.append(("awkward", i, j))
    return out


def task_fn(task, acc):
    {"grid": grid_fn, "long": long_fn, "wide": wide_fn, "family": family_fn, "boundary": boundary_fn,
     "awkward": awkward_fn}[task[0]](task, acc)


def run(tier, acc):
    core.explore(task_fn, tasks(tier), acc)
