"""C13: results are determined by the seed."""

import copy
import itertools
import random

import numpy as np

from .. import core, gen, ref, walk

BOUNDS = {
    "quick": "all families x nc in {1,2,3} x 3 data sets (one with clusters smaller than the "
             "number of mixture components) x seeds {0, 1, 12345, numpy integer} and "
             "generator objects: every sequence of up to 3 operations out of train, sample, "
             "sample with seed 0, sample with a generator, disturb the global state; the given random_state is the only source of randomness",
    "thorough": "as quick with sequences of up to 4 operations",
}
ASSUMPTIONS = ["random_state=None means the global generator and is excluded"]

OPS = ("fit", "sample", "sample0", "sampleR", "disturb", "score")


def data(fam, which):
    alpha = gen.alphabet(fam, 2)
    if which == 2 and gen.family_base(fam) == "gauss":
        X = np.array([[0, 0], [.1, 0], [0, .2], [.1, .1], [.2, .1], [0, .3], [50., 50], [-40, 30]])
        return X, [8]
    n = (18, 12, 9)[which]
    X = gen.rows(alpha, (ref.irregular((n,), 5 + which) * len(alpha)).astype(int))
    if gen.family_base(fam) == "gauss":
        X = X + (ref.irregular(X.shape, 17 + which) - .5)
    return X, [n - 4, 4]


def attrs(m):
    out = {}
    for k, v in sorted(vars(m).items()):
        if k.endswith("_") and not k.startswith("_") and k != "monitor_":
            out[k] = np.array(v, copy=True)
    for k in ("covars_", "means_"):
        if hasattr(m, k):
            out[k] = np.array(getattr(m, k), copy=True)
    out["history"] = np.array(m.monitor_.history)
    return out


def same(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    return a == b


def global_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), *s[2:]), random.getstate()


class Run:
    """One object subjected to a sequence of operations."""

    def __init__(self, spec, impl, seed, X, lengths, kw):
        self.rs = copy.deepcopy(seed)
        self.m = spec.blank(implementation=impl, random_state=self.rs, n_iter=2, tol=-np.inf, **kw)
        self.X, self.lengths = X, lengths
        self.trained = False
        self.R = np.random.RandomState(99)

    def op(self, name, disturbance):
        m = self.m
        if name == "fit":
            m.fit(self.X, self.lengths)
            self.trained = True
            return attrs(m)
        if name == "disturb":
            np.random.seed(disturbance)
            np.random.rand(disturbance % 7)
            random.seed(disturbance)
            return "disturbed"
        if not self.trained:
            return "untrained"
        if name == "score":
            return m.score(self.X, self.lengths)
        if name == "sample":
            return m.sample(4)
        if name == "sample0":
            return m.sample(4, random_state=0)
        before = self.R.get_state()[1:3]
        r = m.sample(4, random_state=self.R)
        after = self.R.get_state()[1:3]
        if np.array_equal(before[0], after[0]) and before[1] == after[1] and m.n_components > 1:
            raise AssertionError("the given generator was not used")
        return r


def task_fn(task, acc):
    if task[0] == "source":
        return source_fn(task[:3], acc)
    _, fam, nc, which, depth = task
    spec = gen.Spec(fam, *gen.chains(nc)[0][1:], nf=2)
    X, lengths = data(fam, which)
    kw = {}
    if fam.startswith("gmm"):
        kw = dict(means_weight=1., weights_prior=2., covars_prior=3., covars_weight=3.)
    if fam.startswith("gauss"):
        kw = dict(covars_prior=1.)
    seeds = [("0", 0), ("1", 1), ("12345", 12345), ("np3", np.int64(3)),
             ("RS", np.random.RandomState(7)), ("RS2", np.random.RandomState(0))]
    for (sname, seed), impl in itertools.product(seeds, walk.IMPLS):
        if impl == "scaling" and sname not in ("0", "RS"):
            continue
        is_int = not isinstance(seed, np.random.RandomState)
        # What each operation gives when it is performed alone.
        np.random.seed(1)
        alone = Run(spec, impl, seed, X, lengths, kw)
        base = {"fit": alone.op("fit", 0)}
        if is_int:
            for o in ("sample", "sample0", "score"):
                base[o] = alone.op(o, 0)
        for ops in itertools.product(OPS, repeat=depth):
            if "fit" not in ops or ops[0] in ("sample", "sample0", "sampleR", "score"):
                continue
            if not is_int and "disturb" in ops:
                continue
            if depth > 2 and ops.count("disturb") > 1:
                continue
            key = f"{fam}/nc{nc}/{which}/{impl}/{sname}/{'-'.join(ops)}"
            acc.count(states=1)
            runs = [Run(spec, impl, seed, X, lengths, kw) for _ in range(2)]
            results = [[], []]
            for u, r in enumerate(runs):
                np.random.seed(1000 + u)
                random.seed(1000 + u)
                for i, o in enumerate(ops):
                    g = global_state()
                    try:
                        res = r.op(o, 17 * u + i + 1)
                    except AssertionError as exc:
                        acc.fail(f"{key}/{i}", str(exc))
                        res = None
                    acc.count(transitions=1, traces=1)
                    if o != "disturb" and global_state() != g:
                        acc.fail(f"{key}/{i}/global", f"{o} changed the global random state")
                    if r.m.random_state is not r.rs:
                        acc.fail(f"{key}/{i}/param", f"{o} replaced the random_state parameter")
                    if is_int and o in base and res != "untrained" and not same(res, base[o]):
                        acc.fail(f"{key}/{i}", f"{o} with seed {seed} gives another result after "
                                 f"{ops[:i]}", got=res, want=base[o])
                    results[u].append(res)
            for i, o in enumerate(ops):
                if o != "disturb" and not same(results[0][i], results[1][i]):
                    acc.fail(f"{key}/{i}/universe", f"{o} depends on the global random state",
                             first=results[0][i], second=results[1][i])
    acc.sample(dict(family=fam, nc=nc, data=which, depth=depth))


def source_fn(task, acc):
    """Whatever a model's own random_state, a given one alone decides."""
    _, fam, nc = task
    spec = gen.Spec(fam, *gen.chains(nc)[0][1:], nf=2)

    def own():
        yield "None", None
        for s in (0, 1, 12345, np.int64(0)):
            yield repr(s), s
        yield "RS0", np.random.RandomState(0)
        yield "RS7", np.random.RandomState(7)
    given = [(repr(s), lambda s=s: s) for s in (0, 1, np.int64(0), np.uint8(0), 12345)]
    given += [(f"RS{s}", lambda s=s: np.random.RandomState(s)) for s in (0, 1, 12345)]
    starts = (None, *range(nc))
    want = {}
    for name, make in given:
        for start in starts:
            seed = int(name[2:]) if name.startswith("RS") else int(make())
            r = spec.make(random_state=seed).sample(5, currstate=start)
            for (n2, st), r2 in list(want.items()):
                if n2 == seed and st == start and not same(r, r2):
                    acc.fail(f"source/{fam}/{nc}/{name}/{start}", "a repeated sample differs")
            want[seed, start] = r
    for (oname, o), (name, make), start in itertools.product(own(), given, starts):
        seed = int(name[2:]) if name.startswith("RS") else int(make())
        m = spec.make(random_state=o)
        state = o.get_state()[1:3] if hasattr(o, "get_state") else None
        g = global_state()
        key = f"source/{fam}/{nc}/own {oname}/given {name}/{start}"
        acc.count(states=1, transitions=2, traces=2)
        for again in (0, 1):
            r = m.sample(5, random_state=make(), currstate=start)
            if not same(r, want[seed, start]):
                acc.fail(f"{key}/{again}", f"sample(random_state={name}) of a model with random_state="
                         f"{oname} differs from that of a model with random_state={seed}",
                         got=r, want=want[seed, start])
        if state is not None and not (np.array_equal(o.get_state()[1], state[0])
                                      and o.get_state()[2] == state[1]):
            acc.fail(f"{key}/own", "the model's own generator was used")
        if global_state() != g:
            acc.fail(f"{key}/global", "the global random state changed")
        if m.random_state is not o:
            acc.fail(f"{key}/param", "sample replaced random_state")


def tasks(tier):
    out = [("source", fam, nc, 0, 0) for fam in gen.FAMILIES if not fam.startswith("custom")
           for nc in (1, 2, 3)]
    for fam in gen.FAMILIES:
        if fam.startswith("custom"):
            continue
        for nc in (1, 2, 3):
            for which in (0, 1, 2):
                for depth in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                    if depth == 3 and which != 2 and tier == "quick":
                        continue
                    if depth == 4 and which != 2:
                        continue
                    out.append(("ops", fam, nc, which, depth))
    return sorted(out, key=lambda t: -t[4])


def run(tier, acc):
    core.explore(task_fn, tasks(tier), acc, timeout=800)
