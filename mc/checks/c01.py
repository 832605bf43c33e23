"""C01: the score of a sequence is the log of the sum over all hidden paths."""

import numpy as np

from .. import core, gen, ref, walk

BOUNDS = {
    "quick": "categorical models on probability grids (nc<=3, lengths<=4), "
             "every family x 6 chain structures (nc<=3, nf<=2, lengths<=3), "
             "7 units of measurement (1e-12..1e9) of Gaussian data, near ties (states that differ "
             "by 10^-1..10^-11 in one probability), "
             "sharp evidence (one state or none plausible, 50..20000 nats apart), "
             "sizes nc<=65, length<=5000 with nc^2*length<=150000; every family with up to 65 "
             "features, 33 states, 17 mixture components, 4097 samples; 127-300 states, 65537-70000 "
             "samples, 127-300 symbols; both "
             "implementations",
    "thorough": "as quick with grids to lengths 6 / denominators 3, families "
                "to nc=4, nf=3, lengths 5, sizes nc^2*length<=3000000",
}
ASSUMPTIONS = ["float64 arithmetic of the code is compared with an 80-bit "
               "reference at relative tolerance 1e-9",
               "emission densities of the reference are computed separately "
               "(see C19)"]


def on_prefix(acc, spec, model, impl, seq, X, table, lb):
    want = ref.Paths.loglik(table)
    acc.count(traces=1)
    try:
        got = model.score(X)
    except ValueError:
        got = None
    if got is None:
        ok = impl == "scaling" and not want > np.log(1e-290)
        acc.bump("underflow_raised")
    else:
        tol = 1e-13 if spec.tight else 1e-9
        ok = ref.close(got, want, tol, tol) and np.ndim(got) == 0
    if not ok:
        acc.fail(walk.key(spec, impl, seq),
                 f"score={got}, sum over all {table.size} paths gives {want}",
                 model=spec.label(), X=X, impl=impl)
    if len(seq) == 2:
        acc.sample(dict(model=spec.label()[:300], impl=impl, X=X.tolist(),
                        score=None if got is None else float(got),
                        paths=int(table.size), reference=float(want)))


def task_fn(task, acc):
    if task[0] != "size":
        return walk.visit(task, acc, on_prefix)
    for name, spec, X, logB in walk.size_specs(task):
        want = ref.lse(ref.forward(spec.pi, spec.A, logB)[-1])
        for impl in walk.size_impls(logB):
            acc.count(states=len(X), transitions=len(X) * spec.nc ** 2,
                      traces=1)
            got = spec.make(implementation=impl).score(X)
            if not ref.close(got, want):
                acc.fail(f"size/{name}/{impl}", f"score={got}, reference {want}",
                         model=spec.label(), X=X)


def run(tier, acc):
    core.explore(task_fn, walk.size_tasks(tier) + walk.family_tasks(tier) + walk.extra_tasks(tier)
                 + walk.grid_tasks(tier), acc)
