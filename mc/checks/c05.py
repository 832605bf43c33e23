"""C05: sequences delimited by lengths are treated independently."""

import itertools

import numpy as np

from .. import core, em, gen, ref, walk

BOUNDS = {
    "quick": "all families x nc in {1,2,3} x 2-4 chains x both implementations: every "
             "composition of 5 samples as lengths, 5 queries; lengths as list, tuple "
             "and 6 integer dtypes; every vector over {-2,-1,0,1,2,3,4,5,6} of size <=2 "
             "and {-1..4} of size 3 that is not a valid lengths vector, on every "
             "entry point; fit under every permutation of <=3 sequences; 7 data sets of up to 300 "
             "sequences",
    "thorough": "as quick with compositions of 7 samples, invalid vectors to size 4, "
                "permutations of <=4 sequences",
}
ASSUMPTIONS = ["Gaussian models are compared from a fixed starting point (init_params empty), as k-means "
               "depends on the order of the samples; discrete ones also from their initialisation"]

DTYPES = (np.int8, np.uint8, np.int16, np.int32, np.uint32, np.int64, np.uint64)
QUERIES = ("score", "score_samples", "decode_v", "decode_m", "predict", "predict_proba")


def query(m, q, X, *lengths):
    if q == "decode_v":
        return m.decode(X, *lengths, algorithm="viterbi")
    if q == "decode_m":
        return m.decode(X, *lengths, algorithm="map")
    return getattr(m, q)(X, *lengths)


def join(q, parts):
    """What the property requires the joint answer to be."""
    if q == "score":
        return (sum(parts),)
    if q in ("score_samples", "decode_v", "decode_m"):
        return sum(p[0] for p in parts), np.concatenate([p[1] for p in parts])
    return (np.concatenate(parts),)


def same(got, want, tol=1e-9):
    got = got if isinstance(got, tuple) else (got,)
    return len(got) == len(want) and all(
        ref.close(g, w, tol, tol) for g, w in zip(got, want))


def chains(nc):
    return [c for c in gen.chains(nc) if c[0] in ("generic", "left-right", "cyclic", "identity")]


def tasks(tier):
    out = []
    for fam in gen.FAMILIES:
        for nc in (1, 2, 3):
            for ci in range(len(chains(nc))):
                out.append(("split", fam, nc, ci, tier))
                if not fam.startswith("custom"):
                    out.append(("fit", fam, nc, ci, tier))
        out.append(("invalid", fam, tier))
        out += [("many", fam, lens, tier) for lens in MANY]
    return out


def seq_for(fam, nf, n):
    alpha = gen.alphabet(fam, nf)
    return gen.rows(alpha, [(i * i + i // 2) % len(alpha) for i in range(n)])


def split_fn(task, acc):
    _, fam, nc, ci, tier = task
    name, pi, A = chains(nc)[ci]
    spec = gen.Spec(fam, pi, A, nf=2)
    n = 5 if tier == "quick" else 7
    X = seq_for(fam, 2, n)
    for impl in walk.IMPLS:
        m = spec.make(implementation=impl)
        alone = {}
        for i in range(n):
            for j in range(i + 1, n + 1):
                for q in QUERIES:
                    alone[i, j, q] = query(m, q, X[i:j])
        for comp in ref.compositions(n):
            acc.count(states=1, transitions=len(comp))
            cuts = np.concatenate([[0], np.cumsum(comp)])
            for q in QUERIES:
                want = join(q, [alone[a, b, q] for a, b in zip(cuts[:-1], cuts[1:])])
                forms = [list(comp)]
                if q in ("score", "decode_v"):
                    forms += [tuple(comp)] + [np.array(comp, dtype=t) for t in DTYPES]
                for ln in forms:
                    acc.count(traces=1)
                    got = query(m, q, X, ln)
                    if not same(got, want):
                        acc.fail(f"{fam}/nc{nc}/{name}/{impl}/{q}/{comp}/{type(ln).__name__}",
                                 f"{q} with lengths {ln!r} differs from the separate calls",
                                 got=got, want=want, model=spec.label(), X=X)
        for q in QUERIES:
            acc.count(traces=1)
            base = alone[0, n, q]
            base = base if isinstance(base, tuple) else (base,)
            for ln in (None, [n], np.array([n])):
                if not same(query(m, q, X, ln), base):
                    acc.fail(f"{fam}/nc{nc}/{name}/{impl}/{q}/none",
                             f"{q}: lengths {ln!r} is not a single sequence")
    acc.sample(dict(model=spec.label()[:200], compositions=2 ** (n - 1)))


def fitted(spec, impl, X, lengths, new=None):
    """From given parameters, or initialised with a seed."""
    m = spec.make(implementation=impl, init_params="", n_iter=2, tol=-np.inf) if new is None \
        else spec.blank(implementation=impl, n_iter=1, tol=-np.inf, random_state=new)
    try:
        m.fit(X, lengths) if lengths is not None else m.fit(X)
    except ValueError as e:
        # A state that no sample visits has no estimates; the scaling passes
        # then refuse to go on.
        if "forward pass failed" not in str(e):
            raise
        return [np.array([np.nan])]
    out = [m.startprob_, m.transmat_]
    for a in ("emissionprob_", "lambdas_", "means_", "covars_", "weights_",
              "startprob_posterior_", "transmat_posterior_", "emissionprob_posterior_",
              "means_posterior_", "beta_posterior_", "dof_posterior_", "scale_posterior_"):
        if hasattr(m, a):
            out.append(np.array(getattr(m, a)))
    return out + [np.array(m.monitor_.history)]


def fresh_fn(acc, key, spec, impl, parts, comp):
    """New models; their initialisation uses the data only as a whole.  (It does
    use the order for Gaussian data, as k-means does.)"""
    opts = {}
    if spec.base == "multinomial":
        opts["n_trials"] = int(parts[0][0].sum())
    spec = gen.Spec(spec.fam, spec.pi, spec.A, nf=spec.nf, **opts)
    for seed in (0, 1):
        base = None
        for perm in itertools.permutations(range(len(comp))):
            acc.count(transitions=1, traces=1)
            got = fitted(spec, impl, np.concatenate([parts[i] for i in perm]),
                         [comp[i] for i in perm], new=seed)
            base = base or got
            if not all(ref.close(g, b, 1e-7, 1e-8) for g, b in zip(got, base)):
                acc.fail(f"{key}/{perm}/{seed}", "training a new model depends on the order of "
                         "the sequences", got=got, want=base)


def fit_fn(task, acc):
    _, fam, nc, ci, tier = task
    name, pi, A = chains(nc)[ci]
    kw = {}
    if fam.startswith("gauss"):
        kw = dict(covars_prior=1.0, covars_weight=5.0, means_weight=.5)
    if fam.startswith("gmm"):
        # A proper prior, so that no covariance degenerates on tiny data.
        kw = dict(means_weight=1.0, weights_prior=2.0,
                  covars_prior=2.0, covars_weight=3.0)
    spec = gen.Spec(fam, pi, A, nf=2, **kw)
    n = 5 if tier == "quick" else 6
    X = seq_for(fam, 2, n)
    for impl in walk.IMPLS:
        for comp in ref.compositions(n):
            if len(comp) > (3 if tier == "quick" else 4):
                continue
            cuts = np.concatenate([[0], np.cumsum(comp)])
            parts = [X[a:b] for a, b in zip(cuts[:-1], cuts[1:])]
            acc.count(states=1)
            if ci == 0 and spec.base in ("cat", "poisson", "multinomial", "vcat"):
                fresh_fn(acc, f"new/{fam}/nc{nc}/{impl}/{comp}", spec, impl, parts, comp)
            base = fitted(spec, impl, X, list(comp))
            if not all(np.isfinite(b).all() for b in base):
                acc.bump("undefined_updates")
                continue
            for perm in itertools.permutations(range(len(comp))):
                acc.count(transitions=1, traces=1)
                got = fitted(spec, impl, np.concatenate([parts[i] for i in perm]),
                             np.array([comp[i] for i in perm]))
                if len(got) != len(base) or not all(
                        ref.close(g, b, 1e-7, 1e-8) for g, b in zip(got, base)):
                    acc.fail(f"fit/{fam}/nc{nc}/{name}/{impl}/{comp}/{perm}",
                             "training depends on the order of the sequences",
                             got=got, want=base, model=spec.label(), X=X)
            if len(comp) == 1:
                acc.count(traces=1)
                got = fitted(spec, impl, X, None)
                if not all(ref.close(g, b, 1e-12, 1e-12) for g, b in zip(got, base)):
                    acc.fail(f"fit/{fam}/nc{nc}/{name}/{impl}/none",
                             "training without lengths differs from one sequence")


MANY = ((1,) * 300, (2, 1) * 90, (299, 1), (1, 299), (127, 1, 128, 2), (3, 1, 4, 1, 5, 9, 2, 6) * 8,
        (1,) * 257)


def many_fn(task, acc):
    """Many and long sequences."""
    _, fam, lens, tier = task
    name, pi, A = chains(2)[0]
    kw = {}
    if fam.startswith("gmm"):
        kw = dict(means_weight=1.0, weights_prior=2.0, covars_prior=2.0, covars_weight=3.0)
    if fam.startswith("gauss"):
        kw = dict(covars_prior=1.0, covars_weight=5.0, means_weight=.5)
    spec = gen.Spec(fam, pi, A, nf=2, **kw)
    n = sum(lens)
    X = seq_for(fam, 2, n)
    cuts = np.concatenate([[0], np.cumsum(lens)])
    parts = [X[a:b] for a, b in zip(cuts[:-1], cuts[1:])]
    for impl in walk.IMPLS:
        m = spec.make(implementation=impl)
        key = f"many/{fam}/{impl}/{lens[:4]}x{len(lens)}"
        for q in QUERIES:
            alone = {}
            for p in parts:
                if p.tobytes() not in alone:
                    alone[p.tobytes()] = query(m, q, p)
            want = join(q, [alone[p.tobytes()] for p in parts])
            for ln in (list(lens), np.array(lens, np.uint8 if max(lens) < 256 else np.int16)):
                acc.count(states=1, transitions=len(lens), traces=1)
                if not same(query(m, q, X, ln), want, 1e-8):
                    acc.fail(f"{key}/{q}/{type(ln).__name__}", f"{q} of {len(lens)} sequences "
                             "differs from the separate calls", model=spec.label())
        if fam.startswith("custom"):
            continue
        base = fitted(spec, impl, X, list(lens))
        n = len(parts)
        for order in (range(n)[::-1], [(i * 7 + 3) % n for i in range(n)] if n % 7 else
                      [(i * 11 + 3) % n for i in range(n)]):
            acc.count(transitions=1, traces=1)
            got = fitted(spec, impl, np.concatenate([parts[i] for i in order]),
                         np.array([lens[i] for i in order]))
            if len(got) != len(base) or not all(
                    ref.close(g, b, 1e-6, 1e-8) for g, b in zip(got, base)):
                acc.fail(f"{key}/fit", "training depends on the order of the sequences",
                         model=spec.label())


def invalid_vectors(n, tier):
    yield ()
    for k in (1, 2):
        yield from itertools.product(range(-2, n + 3), repeat=k)
    yield from itertools.product(range(-1, n + 1), repeat=3)
    if tier == "thorough":
        yield from itertools.product(range(-1, n + 1), repeat=4)


def invalid_fn(task, acc):
    _, fam, tier = task
    spec = gen.Spec(fam, *gen.chains(2)[0][1:], nf=2)
    n = 4
    X = seq_for(fam, 2, n)
    for impl in walk.IMPLS:
        m = spec.make(implementation=impl)
        ops = {q: (lambda X, ln, q=q: query(m, q, X, ln)) for q in QUERIES}
        if not fam.startswith("custom"):
            def fit(X, ln):
                f = spec.make(implementation=impl, init_params="", n_iter=1)
                return f.fit(X, ln)
            ops["fit"] = fit
            if not fam.startswith("v"):
                ops["aic"], ops["bic"] = m.aic, m.bic
        for vec in invalid_vectors(n, tier):
            ok = len(vec) > 0 and all(v > 0 for v in vec) and sum(vec) == n
            acc.count(states=1)
            for name, op in ops.items():
                if name == "fit" and impl == "scaling" and len(vec) > 2:
                    continue
                for conv in (list, np.array) if len(vec) < 3 else (list,):
                    ln = conv(vec) if vec or conv is list else np.array(vec, dtype=int)
                    acc.count(transitions=1, traces=1)
                    try:
                        op(X, ln)
                        raised = False
                    except Exception:
                        raised = True
                    if raised == ok:
                        acc.fail(f"invalid/{fam}/{impl}/{name}/{vec}",
                                 f"{name} with lengths={ln!r} for {n} samples "
                                 + ("was rejected" if raised else "was accepted"))


def task_fn(task, acc):
    {"split": split_fn, "fit": fit_fn, "many": many_fn, "invalid": invalid_fn}[task[0]](task, acc)


def run(tier, acc):
    core.explore(task_fn, tasks(tier), acc)
