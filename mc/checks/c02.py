"""C02: posteriors are the exact conditional state probabilities."""

import numpy as np

from .. import core, gen, ref, walk
from .c01 import ASSUMPTIONS  # noqa

BOUNDS = {
    "quick": "all prefixes of the model spaces of C01 (quick); score_samples "
             "and predict_proba; both implementations",
    "thorough": "all prefixes of the model spaces of C01 (thorough)",
}


def compare(acc, key, model, X, want, z, impossible, data, atol=1e-250):
    acc.count(traces=1)
    try:
        lp, post = model.score_samples(X)
        post2 = model.predict_proba(X)
    except ValueError as exc:
        if model.implementation == "scaling" and not z > np.log(1e-290):
            acc.bump("underflow_raised")
            return
        acc.fail(key, f"score_samples raised {exc!r}", **data)
        return
    if impossible:  # P(X) = 0: conditional probabilities are undefined.
        acc.bump("impossible_sequences")
        if not (lp == -np.inf and np.shape(post) == (len(X), model.n_components)):
            acc.fail(key, f"score_samples of an impossible sequence: {lp}", **data)
        return
    if not ref.close(lp, z):
        acc.fail(key, f"score_samples log_prob={lp}, reference {z}", **data)
    elif not ref.close(post, want, 1e-8, atol):
        acc.fail(key, "posteriors differ from the enumeration of all paths",
                 got=post, want=want, **data)
    elif not ref.close(post.sum(axis=1), np.ones(len(X)), 0, 1e-9) or (post < 0).any() \
            or (post > 1 + 1e-12).any():
        acc.fail(key, "posterior rows are not distributions", got=post, **data)
    elif not np.array_equal(post, post2):
        acc.fail(key, "predict_proba differs from score_samples", **data)


def on_prefix(acc, spec, model, impl, seq, X, table, lb):
    z = ref.Paths.loglik(table)
    impossible = z == -np.inf
    want = None if impossible else ref.Paths.posteriors(table)
    compare(acc, walk.key(spec, impl, seq), model, X, want, z, impossible,
            dict(model=spec.label(), X=X))
    if len(seq) == 2 and not impossible:
        acc.sample(dict(model=spec.label()[:300], impl=impl, X=X.tolist(),
                        posteriors=np.asarray(want, float).tolist()))


def task_fn(task, acc):
    if task[0] != "size":
        return walk.visit(task, acc, on_prefix)
    for name, spec, X, logB in walk.size_specs(task):
        z, g, _ = ref.smooth(spec.pi, spec.A, logB)
        for impl in walk.size_impls(logB):
            acc.count(states=len(X), transitions=len(X) * spec.nc ** 2)
            compare(acc, f"size/{name}/{impl}", spec.make(implementation=impl), X, g, z,
                    z == -np.inf, dict(model=spec.label(), X=X))


def run(tier, acc):
    core.explore(task_fn, walk.size_tasks(tier, 60_000 if tier == "quick" else 1_000_000)
                 + walk.family_tasks(tier) + walk.extra_tasks(tier) + walk.grid_tasks(tier), acc)
