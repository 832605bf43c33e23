"""C03: Viterbi decoding returns a most probable path and its probability."""

import numpy as np

from .. import core, gen, ref, walk
from .c01 import ASSUMPTIONS  # noqa

BOUNDS = {
    "quick": "all prefixes of the model spaces of C01 (quick); decode and "
             "predict, both implementations, all ties included",
    "thorough": "all prefixes of the model spaces of C01 (thorough)",
}


def check(acc, key, model, X, best, path_lp, data, tol=1e-9):
    acc.count(traces=1)
    lp, path = model.decode(X, algorithm="viterbi")
    pred = model.predict(X)
    path = np.asarray(path)
    if path.shape != (len(X),) or not np.issubdtype(path.dtype, np.integer) \
            or (path < 0).any() or (path >= model.n_components).any():
        acc.fail(key, f"not a state sequence: {path!r}", **data)
        return
    if not np.array_equal(path, pred):
        acc.fail(key, f"predict {pred} differs from decode {path}", **data)
    if np.ndim(lp) != 0 or not ref.close(lp, best, tol, tol):
        acc.fail(key, f"decode log_prob={lp}, best path has {best}", **data)
        return
    own = path_lp(path)
    if not ref.close(own, best, tol, tol):
        acc.fail(key, f"decoded path {path} has log_prob {own}, but the best "
                 f"path has {best}", **data)


def on_prefix(acc, spec, model, impl, seq, X, table, lb):
    best = table.max()
    check(acc, walk.key(spec, impl, seq), model, X, best,
          lambda path: table[tuple(path)], dict(model=spec.label(), X=X),
          1e-13 if spec.tight else 1e-9)
    if best == -np.inf:
        acc.bump("impossible_sequences")
    elif (table >= best - 1e-12).sum() > 1:
        acc.bump("tied_optima")
    if len(seq) == 2:
        acc.sample(dict(model=spec.label()[:300], X=X.tolist(),
                        best=float(best), paths=int(table.size)))


def task_fn(task, acc):
    if task[0] != "size":
        return walk.visit(task, acc, on_prefix)
    for name, spec, X, logB in walk.size_specs(task):
        best = ref.best_logprob(spec.pi, spec.A, logB)
        acc.count(states=len(X), transitions=len(X) * spec.nc ** 2)
        check(acc, f"size/{name}", spec.make(), X, best,
              lambda path: ref.path_logprob(spec.pi, spec.A, logB, path),
              dict(model=spec.label(), X=X))


def run(tier, acc):
    core.explore(task_fn, walk.size_tasks(tier) + walk.family_tasks(tier) + walk.extra_tasks(tier)
                 + walk.grid_tasks(tier), acc)
