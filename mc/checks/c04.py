"""C04: MAP decoding picks the individually most probable states."""

import numpy as np

from .. import core, gen, ref, walk
from .c01 import ASSUMPTIONS  # noqa

BOUNDS = {
    "quick": "all prefixes of the model spaces of C01 (quick); "
             "decode(algorithm='map') and algorithm='map' models",
    "thorough": "all prefixes of the model spaces of C01 (thorough)",
}


def check(acc, key, model, X, z, g, data, tol=1e-8):
    acc.count(traces=1)
    try:
        lp, path = model.decode(X, algorithm="map")
        model.algorithm = "map"
        try:
            pred = model.predict(X)
            lp2, path2 = model.decode(X)
            vlp, vpath = model.decode(X, algorithm="viterbi")
        finally:
            model.algorithm = "viterbi"
        vlp0, vpath0 = model.decode(X)
    except ValueError as exc:
        if not (model.implementation == "scaling" and not z > np.log(1e-290)):
            acc.fail(key, f"decode raised {exc!r}", **data)
        return
    path = np.asarray(path)
    if path.shape != (len(X),) or not np.issubdtype(path.dtype, np.integer) \
            or (path < 0).any() or (path >= model.n_components).any():
        acc.fail(key, f"not a state sequence: {path!r}", **data)
        return
    chosen = g[np.arange(len(X)), path]
    if not (chosen >= g.max(axis=1) - tol).all():
        acc.fail(key, f"MAP path {path} is not made of the most probable "
                 f"states", posteriors=g, **data)
    elif not ref.close(lp, g.max(axis=1).sum(), tol, tol):
        acc.fail(key, f"MAP score {lp} is not the sum of the probabilities of "
                 f"the chosen states {g.max(axis=1).sum()}", **data)
    elif not (np.array_equal(pred, path) and np.array_equal(path2, path)
              and lp2 == lp):
        acc.fail(key, "the algorithm parameter and argument disagree", **data)
    elif not (np.array_equal(vpath, vpath0) and vlp == vlp0):
        acc.fail(key, "the algorithm argument does not override the "
                 "parameter", **data)


def on_prefix(acc, spec, model, impl, seq, X, table, lb):
    z = ref.Paths.loglik(table)
    if z == -np.inf:
        acc.bump("impossible_sequences")
        return
    g = ref.Paths.posteriors(table)
    check(acc, walk.key(spec, impl, seq), model, X, z, g,
          dict(model=spec.label(), X=X), 1e-13 if spec.tight else 1e-8)
    if len(seq) == 2:
        acc.sample(dict(model=spec.label()[:300], X=X.tolist(),
                        posteriors=np.asarray(g, float).tolist()))


def task_fn(task, acc):
    if task[0] != "size":
        return walk.visit(task, acc, on_prefix)
    for name, spec, X, logB in walk.size_specs(task):
        z, g, _ = ref.smooth(spec.pi, spec.A, logB)
        if z == -np.inf:
            continue
        for impl in walk.size_impls(logB):
            acc.count(states=len(X), transitions=len(X) * spec.nc ** 2)
            check(acc, f"size/{name}/{impl}", spec.make(implementation=impl), X, z, g,
                  dict(model=spec.label(), X=X))


def run(tier, acc):
    core.explore(task_fn, walk.size_tasks(tier, 60_000 if tier == "quick" else 1_000_000)
                 + walk.family_tasks(tier) + walk.extra_tasks(tier) + walk.grid_tasks(tier), acc)
