"""Bounded spaces of (model, observation sequence) shared by the query checks.

visit(task, acc, on_prefix): walks the prefix tree of observation sequences of
every model of the task.  on_prefix(acc, spec, model, X, table, key) gets the
reference table of all hidden paths for the prefix.
"""

import itertools

import numpy as np

from . import gen, ref

IMPLS = ("log", "scaling")


def grid_tasks(tier):
    """Every model on a probability grid (categorical, 2 symbols)."""
    tasks = []
    # (n_components, denominators of pi, A, E, depth)
    spaces = [(1, 1, 1, 4, 4), (2, 2, 2, 2, 4), (3, 2, 1, 1, 3)]
    if tier == "thorough":
        spaces = [(1, 1, 1, 4, 6), (2, 2, 2, 2, 6), (2, 3, 3, 3, 4),
                  (3, 2, 1, 2, 4), (3, 1, 2, 1, 3)]
    for nc, dp, da, de, depth in spaces:
        As = list(itertools.product(ref.simplex(nc, da), repeat=nc))
        size = max(1, len(As) // 12)
        for i in range(0, len(As), size):
            tasks.append(("grid", nc, dp, da, de, depth, i, i + size))
    return tasks


def family_tasks(tier, families=None):
    tasks = []
    for fam in families or gen.FAMILIES:
        for nc in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for nf in (1, 2) if tier == "quick" else (1, 2, 3):
                if gen.family_base(fam) in ("cat", "multinomial") and nf == 1 and nc > 1:
                    continue
                if fam == "multinomial" and nf == 1:
                    continue
                tasks.append(("family", fam, nc, nf,
                              3 if tier == "quick" else (5 if nc < 3 else 4)))
    return tasks


def extra_tasks(tier):
    """Units of measurement (tiny and huge scales) and near ties."""
    tasks = []
    for fam in gen.FAMILIES:
        if gen.family_base(fam) != "gauss":
            continue
        for nc in (1, 2) if tier == "quick" else (1, 2, 3):
            for nf in (1, 2, 3) if tier == "quick" else (1, 2, 3, 5):
                tasks.append(("scale", fam, nc, nf, 2 if tier == "quick" else 3))
    for nc in (2, 3) if tier == "quick" else (2, 3, 4):
        tasks.append(("tie", nc, 3 if tier == "quick" or nc == 4 else 4))
    for h in SHARP:
        tasks.append(("sharp", 2, h, 6 if tier == "quick" else 8))
        tasks.append(("sharp", 3, h, 3 if tier == "quick" else 5))
    return tasks


SHARP = (50., 200., 600., 2000., 20000.)  # nats of evidence per sample


SCALES = (1e-12, 1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9)


def _tied(nc, depth):
    """Models whose states only differ by 10**-k in one probability."""
    pi, A, E = np.full(nc, 1 / nc), np.full((nc, nc), 1 / nc), np.full((nc, 2), .5)
    for k in range(1, 12):
        e = 10. ** -k / nc
        for i in range(nc):
            for sign in (1, -1):
                def bump(v, j):
                    v = v.copy()
                    v[j] += sign * e
                    v[(j + 1) % len(v)] -= sign * e
                    return v
                yield bump(pi, i), A, E, depth
                for j in range(nc):
                    B = A.copy()
                    B[i] = bump(A[i], j)
                    yield pi, B, E, depth
                F = E.copy()
                F[i] = bump(E[i], 0)
                yield pi, A, F, depth


NCS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 64, 65)
TS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100,
      127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025,
      2047, 2048, 2049, 4096, 4097, 5000)


def size_tasks(tier, budget=None):
    """Structured large models: every (n_components, length) in a lattice of
    boundary sizes with bounded cost."""
    budget = budget or (150_000 if tier == "quick" else 3_000_000)
    tasks = []
    for nc in NCS:
        for t in TS:
            if nc * nc * t <= budget:
                tasks.append((nc, t))
    # Where counters and indices of 8 and 16 bits end.
    tasks += [(nc, t) for nc in (127, 128, 129, 255, 256, 257, 300) for t in (2, 3, 12)]
    tasks += [(2, 32769), (2, 65537), (2, 70000)]
    # group to balance
    tasks.sort(key=lambda x: -x[0] ** 2 * x[1])
    n = 64
    return [("size", tuple(tasks[i::n])) for i in range(n) if tasks[i::n]] + wide_tasks(tier)


def wide_tasks(tier):
    """Every family with many features, components, states or samples."""
    full = tier == "thorough"
    out = []
    for fam in gen.FAMILIES:
        if fam.startswith("custom"):
            continue
        cases = [(2, nf, 2, 6) for nf in (4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 64, 65)]
        if fam.startswith("gmm"):
            cases += [(2, 2, nm, 6) for nm in (3, 4, 5, 7, 8, 9, 16, 17)]
        cases += [(nc, 2, 2, 9) for nc in (4, 5, 6, 7, 8, 9, 10, 16, 17, 32, 33)]
        if fam.endswith("cat"):
            cases += [(2, nf, 2, 600) for nf in (127, 128, 129, 255, 256, 257, 300)]
        cases += [(2, 2, 2, t) for t in (17, 33, 64, 65, 129, 257, 513, 1025, 2049, 4097, 5001)
                  if full or t < 2000 or t == 4097]
        if full:
            cases += [(nc, nf, 3, t) for nc in (3, 5, 11) for nf in (3, 7, 20) for t in (5, 300)]
        n = 2 if not full else 4
        out += [("size", tuple((fam, *c) for c in cases[i::n])) for i in range(n)]
    return out


def specs_of(task):
    kind = task[0]
    if kind == "grid":
        _, nc, dp, da, de, depth, lo, hi = task
        As = list(itertools.product(ref.simplex(nc, da), repeat=nc))[lo:hi]
        for A in As:
            for pi in ref.simplex(nc, dp):
                for E in itertools.product(ref.simplex(2, de), repeat=nc):
                    yield gen.Spec("cat", pi, A, nf=2,
                                   emis={"emissionprob_": np.array(E)}), depth
    elif kind == "family":
        _, fam, nc, nf, depth = task
        for name, pi, A in gen.chains(nc):
            for zeros in ((False, True) if gen.family_base(fam) in
                          ("cat", "multinomial") and nf > 1 else (False,)):
                yield gen.Spec(fam, pi, A, nf=nf, zeros=zeros), depth
    elif kind == "scale":
        _, fam, nc, nf, depth = task
        name, pi, A = gen.chains(nc)[0]
        for s in SCALES:
            spec = gen.Spec(fam, pi, A, nf=nf)
            spec.emis["means_"] = spec.emis["means_"] * s
            spec.emis["covars_"] = spec.emis["covars_"] * s ** 2
            spec.scale = s
            yield spec, depth
    elif kind == "tie":
        for pi, A, E, depth in _tied(task[1], task[2]):
            spec = gen.Spec("cat", pi, A, nf=2, emis={"emissionprob_": E})
            spec.tight = True
            yield spec, depth
    elif kind == "sharp":
        # Sample k is evidence for state k, the last one for none: paths fall
        # far behind the best one and catch up later.
        _, nc, h, depth = task
        tab = np.vstack([-h * (1 - np.eye(nc)), np.zeros(nc)])
        structures = gen.chains(nc)
        for rare in (1e-3, 1e-200):
            A = np.where(np.eye(nc), 1 - (nc - 1) * rare, rare)
            structures.append((f"rare{rare}", np.full(nc, 1 / nc), A))
        for name, pi, A in structures:
            spec = gen.Spec("custom-log", pi, A, nf=nc + 1, emis={"table_": tab})
            if h > 50 or A[A > 0].min() < 1e-9:  # beyond the range of scaling
                spec.impls = ("log",)
            yield spec, depth


def size_specs(task):
    """(name, spec, data, log densities of the data)"""
    for case in task[1]:
        if isinstance(case[0], str):
            fam, nc, nf, nm, t = case
            for variant, zeros in enumerate((0, .3)):
                seed = 7 * nc + nf + t + variant
                spec = gen.Spec(fam, ref.stochastic((nc,), seed, zeros=zeros),
                                ref.stochastic((nc, nc), seed + 1, zeros=zeros), nf=nf, n_mix=nm)
                alpha = gen.alphabet(fam, nf)
                idx = (ref.irregular((t,), seed + 3) * len(alpha)).astype(int)
                X = gen.rows(alpha, idx)
                yield (f"{fam}/nc{nc}/nf{nf}/nm{nm}/T{t}/{variant}", spec, X,
                       spec.logB(gen.rows(alpha, range(len(alpha))))[idx])
            continue
        nc, t = case
        for variant, zeros in enumerate((0, .3)):
            if variant and nc == 1:
                continue
            seed = 31 * nc + t + variant
            tab = np.log(ref.irregular((5, nc), seed) + .01)
            A = ref.stochastic((nc, nc), seed + 1, zeros=zeros)
            pi = ref.stochastic((nc,), seed + 2, zeros=zeros)
            spec = gen.Spec("custom-log", pi, A, emis={"table_": tab})
            seq = (ref.irregular((t,), seed + 3) * 5).astype(int)
            yield f"nc{nc}/T{t}/{variant}", spec, seq[:, None], tab[seq]


def size_impls(logB):
    """Scaling is compared where every density is in double range."""
    low = logB[np.isfinite(logB)].min() if np.isfinite(logB).any() else 0
    return IMPLS if low > -600 else IMPLS[:1]


def visit(task, acc, on_prefix, maxk=3):
    for spec, depth in specs_of(task):
        alpha = gen.alphabet(spec.fam, spec.nf)
        if spec.scale != 1:
            alpha = [spec.scale * np.asarray(a) for a in alpha]
        if gen.family_base(spec.fam) != "cat":
            alpha = alpha[:maxk]
        lb = [spec.logb(x) for x in alpha]
        paths = ref.Paths(spec.pi, spec.A)
        models = {}
        for impl in spec.impls:
            models[impl] = spec.make(implementation=impl)
        acc.count(states=1)

        def rec(seq, table):
            X = gen.rows(alpha, seq)
            acc.count(states=1, transitions=1)
            for impl in spec.impls:
                on_prefix(acc, spec, models[impl], impl, seq, X, table, lb)
            if len(seq) < depth:
                for k in range(len(alpha)):
                    rec(seq + (k,), paths.extend(table, lb[k]))

        for k in range(len(alpha)):
            rec((k,), paths.first(lb[k]))


def key(spec, impl, seq):
    import hashlib
    h = hashlib.sha1(spec.label().encode()).hexdigest()[:10]
    return f"{spec.fam}/nc{spec.nc}/nf{spec.nf}/{impl}/{h}/{''.join(map(str, seq))}"
