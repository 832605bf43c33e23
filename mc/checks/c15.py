"""C15: queries have no side effects and no memory.

Explicit-state exploration of all operation sequences up to a depth on one real
model object.  The model of the system is the tuple of visible parameters: a
query maps it to itself and to a result that is a function of (parameters,
arguments) only; that function is evaluated on a freshly built estimator with
the same parameters and memoised per model state."""

import copy
import itertools
import warnings

import numpy as np

from .. import core, gen

LEVEL = "model_checking"
BOUNDS = {
    "quick": "17 families x both implementations, 2-state models: all sequences of 3 operations out of "
             "10 queries on 2 data sets, 9 parameter changes (assigned, in place, retraining, options); "
             "the last operation of a sequence is a query; all pairs of calls on 3 data sets that share "
             "memory in 4 ways",
    "thorough": "the same for 1-, 2- and 3-state models and all chain structures, and all "
                "sequences of 4 operations with 2 states",
}
ASSUMPTIONS = [
    "Two models are the same if the parameters they show are bit-identical.",
    "random_state=None (the global generator) is excluded: sampling is given a seed.",
]


def datasets(spec):
    alpha = gen.alphabet(spec.fam, spec.nf)
    out = []
    for seq, L in (([0, 1, 2, 1, 0, 2, 2, 0, 1], [4, 5]), ([2, 0, 0, 1, 1, 2], None)):
        X = gen.rows(alpha, seq)
        if gen.family_base(spec.fam) == "gauss":
            X = X + .05 * np.arange(len(X))[:, None] * np.arange(1, spec.nf + 1)
        out.append((X, L))
    return out


def build_ops(spec):
    D = datasets(spec)
    q = {}
    for i, (X, L) in enumerate(D):
        q[f"score{i}"] = lambda m, X=X, L=L: m.score(X.copy(), L)
        q[f"score_samples{i}"] = lambda m, X=X, L=L: m.score_samples(X.copy(), L)
        q[f"decode-v{i}"] = lambda m, X=X, L=L: m.decode(X.copy(), L, algorithm="viterbi")
        q[f"decode-m{i}"] = lambda m, X=X, L=L: m.decode(X.copy(), L, algorithm="map")
        q[f"predict{i}"] = lambda m, X=X, L=L: m.predict(X.copy(), L)
        q[f"predict_proba{i}"] = lambda m, X=X, L=L: m.predict_proba(X.copy(), L)
    X, L = D[0]
    if spec.base != "custom":
        q["sample"] = lambda m: m.sample(4, random_state=7)
        q["sample-from"] = lambda m: m.sample(3, random_state=5, currstate=spec.nc - 1)
        if not spec.base.startswith("v"):
            q["aic"] = lambda m: m.aic(X.copy(), L)
            q["bic"] = lambda m: m.bic(X.copy(), L)
        if not spec.base == "vcat":
            q["read"] = lambda m: [np.array(getattr(m, k)) for k in
                                   ("means_", "covars_", "lambdas_", "weights_")
                                   if hasattr(m, k)]
    if not spec.base.startswith("v"):
        q["stationary"] = lambda m: m.get_stationary_distribution()
    c = {}

    def roll(name, inplace):
        def f(m):
            a = np.roll(getattr(m, name), 1, axis=0)
            if inplace:
                getattr(m, name)[...] = a
            else:
                setattr(m, name, a)
        return f
    c["startprob="] = roll("startprob_", False)
    c["startprob[]="] = roll("startprob_", True)
    c["transmat="] = roll("transmat_", False)
    c["transmat[]="] = roll("transmat_", True)
    main = {"cat": "emissionprob_", "multinomial": "emissionprob_", "vcat": "emissionprob_",
            "poisson": "lambdas_", "gauss": "means_", "gmm": "means_",
            "vgauss": "means_posterior_", "custom": "table_"}[spec.base]
    c["emission="] = roll(main, False)
    c["emission[]="] = roll(main, True)
    if spec.base == "gmm":
        c["weights[]="] = roll("weights_", True)
        c["covars[]="] = roll("covars_", True)
    if spec.base in ("gauss", "gmm", "vgauss"):
        def covars(m):
            cur = gen.shown(spec, m)["covars_"]
            m.covars_ = cur * 1.5 if cur.flat[0] < 1.2 else cur / 2
        c["covars="] = covars
    other = {"log": "scaling", "scaling": "log"}

    def option(m):
        m.implementation = other[m.implementation]
    c["implementation="] = option

    def algo(m):
        m.algorithm = {"viterbi": "map", "map": "viterbi"}[m.algorithm]
    c["algorithm="] = algo
    if spec.base != "custom":
        c["fit"] = lambda m: m.fit(X.copy(), L)
    return q, c


def options(m):
    return (m.implementation, m.algorithm)


def state(spec, m):
    return gen.shown(spec, m), options(m)


def key_of(st):
    p, o = st
    return o, tuple((k, np.asarray(v).tobytes()) for k, v in sorted(p.items()))


def start(spec):
    return spec.make(n_iter=1, tol=0, init_params="", random_state=0,
                     **({"params": "st"} if spec.base == "custom" else {}))


class Memo:
    """Result of each query as a function of the visible state."""

    def __init__(self, spec, queries):
        self.spec, self.queries, self.table = spec, queries, {}

    def __call__(self, st, name):
        k = (key_of(st), name)
        if k not in self.table:
            m = gen.rebuild(self.spec, st[0], n_iter=1, init_params="", random_state=0)
            m.implementation, m.algorithm = st[1]
            try:
                self.table[k] = ("ok", self.queries[name](m))
            except Exception as e:
                self.table[k] = ("raises", type(e).__name__)
        return self.table[k]


def valid(spec, st):
    try:
        gen.rebuild(spec, st[0])
    except ValueError:
        return False
    return True


def explore(task, acc):
    fam, impl, nc, chain, firsts, depth, full = task
    spec = gen.standard(fam, nc, chain, implementation=impl)
    Q, C = build_ops(spec)
    memo = Memo(spec, Q)
    ops = list(Q) + list(C)
    small = [o for o in ops if o in C or o in
             ("score0", "decode-m1", "decode-v0", "score_samples1", "sample", "read")]
    visited = set()
    levels = [firsts] + [small if not full else ops] * (depth - 2) + [list(Q)]
    states = {}

    def apply(m, op):
        if op in C:
            C[op](m)
        else:
            return Q[op](m)

    for prefix in itertools.product(*levels[:-1]):
        # One object lives through the prefix; the last queries each get
        # a deep copy so that they see exactly this history.
        m = start(spec)
        st = state(spec, m)
        good = True
        for i, op in enumerate(prefix):
            acc.count(transitions=1)
            if op in C:
                try:
                    apply(m, op)
                except Exception as e:
                    acc.fail(f"{fam}/{impl}/nc={nc}/{chain}/{'>'.join(prefix[:i + 1])}",
                             f"{op} raised {e!r}")
                    good = False
                    break
                st = state(spec, m)
                if not valid(spec, st):
                    # Retraining left a state without data: outside the property.
                    acc.bump("histories_ending_in_invalid_parameters")
                    good = False
                    break
                continue
            good = query(spec, m, op, st, memo, Q, prefix[:i + 1], task, acc) and good
        visited.add(key_of(st))
        if not good:
            continue
        for op in levels[-1]:
            acc.count(transitions=1, traces=1)
            query(spec, m, op, st, memo, Q, prefix + (op,), task, acc)
    acc.count(states=len(visited))
    acc.sample(dict(family=fam, impl=impl, first=firsts[:2], depth=depth))


def query(spec, m, op, st, memo, Q, history, task, acc):
    fam, impl, nc, chain = task[:4]
    want = memo(st, op)
    try:
        got = ("ok", Q[op](m))
    except Exception as e:
        got = ("raises", type(e).__name__)
    key = f"{fam}/{impl}/nc={nc}/{chain}/{'>'.join(history)}"
    if got[0] != want[0] or (got[0] == "ok" and not gen.same(got[1], want[1])):
        acc.fail(key, f"after {history[:-1]}, {op} gives {str(got)[:150]}; a fresh model "
                 f"with the same parameters gives {str(want)[:150]}", model=spec.label())
        return False
    if key_of(state(spec, m)) != key_of(st):
        acc.fail(key + "/params", f"{op} changed the model after {history[:-1]}",
                 model=spec.label())
        return False
    return True


def t_generator(task, acc):
    """Queries other than sampling do not consume the model's generator, and the
    constructor options stay as they were."""
    fam, impl, nc, chain = task
    spec = gen.standard(fam, nc, chain, implementation=impl)
    Q, C = build_ops(spec)
    for op in Q:
        if op.startswith("sample"):
            continue
        rs = np.random.RandomState(3)
        m = spec.make(random_state=rs)
        before = rs.get_state()[1].tobytes(), rs.get_state()[2:]
        g0 = np.random.get_state()[1].tobytes(), np.random.get_state()[2:]
        p0 = {k: copy.deepcopy(v) for k, v in m.get_params().items() if k != "random_state"} \
            if spec.base != "custom" else {}
        acc.count(states=1, transitions=1, traces=1)
        Q[op](m)
        if (rs.get_state()[1].tobytes(), rs.get_state()[2:]) != before:
            acc.fail(f"{fam}/{impl}/{op}/generator", f"{op} consumed the random state")
        if (np.random.get_state()[1].tobytes(), np.random.get_state()[2:]) != g0:
            acc.fail(f"{fam}/{impl}/{op}/global generator", f"{op} consumed the global random state")
        p1 = {k: v for k, v in m.get_params().items() if k != "random_state"} \
            if spec.base != "custom" else {}
        if not gen.same(p0, p1):
            acc.fail(f"{fam}/{impl}/{op}/options", f"{op} changed the constructor options")


CALLS = {
    "score": lambda m, X, L: m.score(X, L),
    "score_samples": lambda m, X, L: m.score_samples(X, L),
    "decode-v": lambda m, X, L: m.decode(X, L, algorithm="viterbi"),
    "decode-m": lambda m, X, L: m.decode(X, L, algorithm="map"),
    "predict": lambda m, X, L: m.predict(X, L),
    "predict_proba": lambda m, X, L: m.predict_proba(X, L),
    "aic": lambda m, X, L: m.aic(X, L),
    "bic": lambda m, X, L: m.bic(X, L),
    "fit": lambda m, X, L: m.fit(X, L),
}


def t_buffers(task, acc):
    """One array (and one list of lengths) used again with other contents, other
    windows of the same memory, and equal values in other arrays."""
    fam, impl, nc, chain = task
    spec = gen.standard(fam, nc, chain, implementation=impl)
    alpha = gen.alphabet(fam, spec.nf)
    n = 9
    # Same shape; 1 and 2 have equal sums and equal first and last rows.
    sets = [gen.rows(alpha, q) for q in ([0, 1, 2, 1, 0, 2, 2, 0, 1], [1, 0, 2, 0, 1, 2, 1, 2, 0],
                                         [1, 2, 0, 1, 0, 2, 1, 2, 0])]
    calls = [c for c in CALLS if not (
        c in ("aic", "bic") and (spec.base == "custom" or spec.base[0] == "v")
        or c == "fit" and spec.base == "custom")]

    def do(c, m, X, L):
        try:
            r = CALLS[c](m, X, L)
        except Exception as e:
            return "raises", type(e).__name__
        return "ok", None if c == "fit" else r
    memo = {}

    def fresh(c, P, X, L):
        k = c, tuple((a, np.asarray(v).tobytes()) for a, v in sorted(P.items())), \
            X.tobytes(), None if L is None else tuple(L)
        if k not in memo:
            m = gen.rebuild(spec, P, n_iter=1, init_params="", random_state=0)
            memo[k] = do(c, m, X.copy(), None if L is None else list(L))
        return memo[k]
    for c1, c2 in itertools.product(calls, repeat=2):
        for i, j in itertools.permutations(range(3), 2):
            for how in ("rewrite", "window", "temporary", "view"):
                for L1, L2 in (([4, 5], [4, 5]), ([4, 5], [5, 4]), (None, None), ([9], [4, 5])):
                    if how != "rewrite" and L1 != L2:
                        continue
                    acc.count(states=1, transitions=2, traces=1)
                    m = start(spec)
                    L = None if L1 is None else list(L1)
                    if how == "window":
                        big = np.concatenate([sets[i], sets[j]])
                        do(c1, m, big[:n], L)
                        X = big[n:]
                    elif how == "view":
                        big = sets[i].copy()
                        do(c1, m, big, L)
                        big[...] = sets[j]
                        X = big[:]
                    elif how == "temporary":
                        do(c1, m, sets[i].copy(), L)
                        X = sets[j].copy()
                    else:
                        X = sets[i].copy()
                        do(c1, m, X, L)
                        X[...] = sets[j]
                        if L is not None:
                            L[:] = L2
                    P = gen.shown(spec, m)
                    if not valid(spec, (P, None)):
                        acc.bump("histories_ending_in_invalid_parameters")
                        continue
                    want = fresh(c2, P, X, L)
                    got = do(c2, m, X, L)
                    if got[0] != want[0] or (got[0] == "ok" and not gen.same(got[1], want[1])):
                        acc.fail(f"{fam}/{impl}/nc={nc}/{chain}/buffer {how} {c1} {i}>{j} {c2} {L2}",
                                 f"{c2} after {c1} on other data in the same memory gives "
                                 f"{str(got)[:150]} instead of {str(want)[:150]}",
                                 model=spec.label())


def run(tier, acc):
    tasks = []
    gtasks = []
    for fam in gen.FAMILIES:
        for impl in ("log", "scaling"):
            cfg = [(2, "generic", 3)] if tier == "quick" else \
                [(1, "generic", 3)] + [(n, c, 3) for n in (2, 3) for c, _, _ in gen.chains(n)] \
                + [(2, "generic", 4)]
            for nc, ch, depth in cfg:
                gtasks.append((fam, impl, nc, ch))
                Q, C = build_ops(gen.standard(fam, nc, ch))
                ops = list(Q) + list(C)
                n = 4 if depth == 3 else 1
                for i in range(0, len(ops), 1 if depth == 4 else 10):
                    tasks.append((fam, impl, nc, ch, ops[i:i + (1 if depth == 4 else 10)], depth,
                                  tier == "thorough" and depth == 3))
    core.explore(explore, tasks, acc, timeout=1800)
    core.explore(t_buffers, sorted({g for g in gtasks if tier == "thorough" or g[3] == "generic"}),
                 acc, timeout=900)
    core.explore(t_generator, sorted(set(gtasks)), acc, timeout=300)
