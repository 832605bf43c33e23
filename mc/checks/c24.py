"""C24: stationary distributions.

States: every stochastic matrix on a probability grid.  The oracle classifies
the chain exactly (communicating classes on the support graph) and solves for
the stationary distribution in rational arithmetic.
"""

import itertools
from fractions import Fraction

import numpy as np

from .. import core, gen, ref

BOUNDS = {
    "quick": "all stochastic matrices: 1 state; 2 states, denominators 1..12; 3 "
             "states, denominators 1..4; 4 states, denominator 1; rates down to 2^-36 for 2 and 3 states; structured chains of "
             "5..40 states (cyclic, birth-death, near-decomposable, generic, absorbing)",
    "thorough": "all stochastic matrices: 2 states, denominators 1..40; 3 states, "
                "denominators 1..7; 4 states, denominators 1, 2; 5 states, denominator 1; "
                "structured chains of 5..100 states"}
ASSUMPTIONS = ["near-decomposable chains are compared with tolerance 1e-6"]


def classes(A):
    n = len(A)
    reach = [[i == j or A[i][j] > 0 for j in range(n)] for i in range(n)]
    for k in range(n):
        for i in range(n):
            if reach[i][k]:
                for j in range(n):
                    if reach[k][j]:
                        reach[i][j] = True
    closed = set()
    for i in range(n):
        c = frozenset(j for j in range(n) if reach[i][j] and reach[j][i])
        if all(j in c for j in range(n) if reach[i][j]):
            closed.add(c)
    return sorted(map(sorted, closed))


def solve(A, cls):
    """The stationary distribution of the closed class, exactly."""
    n = len(cls)
    # rows: pi (A - I) = 0 (drop one equation), sum = 1
    M = [[A[cls[i]][cls[j]] - (i == j) for i in range(n)] + [Fraction(0)]
         for j in range(n - 1)]
    M.append([Fraction(1)] * n + [Fraction(1)])
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        M[c] = [v / M[c][c] for v in M[c]]
        for r in range(n):
            if r != c and M[r][c]:
                f = M[r][c]
                M[r] = [a - f * b for a, b in zip(M[r], M[c])]
    return [row[-1] for row in M]


def check(acc, key, A, tol=1e-9, fam="base", rtol=1e-9):
    """A: matrix of Fractions."""
    from hmmlearn import base, hmm
    n = len(A)
    Af = np.array([[float(v) for v in row] for row in A])
    if fam == "base":
        m = base.BaseHMM(n)
    else:
        m = gen.Spec(fam, np.full(n, 1 / n), Af, nf=2).make()
    m.transmat_ = Af.copy()
    m.startprob_ = np.full(n, 1 / n)
    got = m.get_stationary_distribution()
    acc.count(states=1, transitions=1, traces=1)
    cls = classes(A)

    def bad(what):
        acc.fail(key, f"{what}: {np.asarray(got).tolist()} for {Af.tolist()}",
                 transmat=[[str(v) for v in r] for r in A])
    if np.shape(got) != (n,) or np.iscomplexobj(got):
        return bad("wrong shape or type")
    if not np.isfinite(got).all() or (got < -tol).any() \
            or abs(got.sum() - 1) > tol:
        return bad("not a probability distribution")
    if np.abs(got @ Af - got).max() > rtol:
        return bad("not left unchanged by the transition matrix")
    inside = sorted(i for c in cls for i in c)
    for i in range(n):
        if i not in inside and abs(got[i]) > tol:
            return bad("mass on a transient state")
    if len(cls) == 1:
        want = np.zeros(n)
        want[cls[0]] = [float(v) for v in solve(A, cls[0])]
        acc.bump("unique")
        if np.abs(got - want).max() > tol:
            return bad(f"not the unique stationary distribution {want.tolist()}")
    if not np.array_equal(m.transmat_, Af):
        return bad("transmat_ was modified")


def grid_fn(task, acc):
    _, n, d, lo, hi, fam = task
    rows = [tuple(Fraction(k, d) for k in c)
            for c in itertools.product(range(d + 1), repeat=n) if sum(c) == d]
    for idx, A in enumerate(itertools.islice(
            itertools.product(rows, repeat=n), lo, hi)):
        check(acc, f"grid/{n}/{d}/{lo + idx}/{fam}", A, fam=fam)


def structured(n):
    F = Fraction
    I = [[F(int(i == j)) for j in range(n)] for i in range(n)]
    yield "cyclic", [I[(i + 1) % n] for i in range(n)], 1e-9
    bd = [[F(0)] * n for _ in range(n)]
    for i in range(n):
        bd[i][max(i - 1, 0)] += F(1, 3)
        bd[i][min(i + 1, n - 1)] += F(2, 3)
    # up-drift of ratio 2: stationary mass is geometric
    yield "birth-death", bd, 1e-8
    g = [[F(1 + (3 * i + 5 * j * j + i * j) % 7) for j in range(n)] for i in range(n)]
    yield "generic", [[v / sum(r) for v in r] for r in g], 1e-9
    eps = F(1, 1000)
    h = n // 2
    nd = [[(F(1, h) if (j < h) else F(0)) if i < h else
           (F(0) if j < h else F(1, n - h)) for j in range(n)] for i in range(n)]
    nd[0] = [v * (1 - eps) for v in nd[0]]
    nd[0][n - 1] += eps
    nd[n - 1] = [v * (1 - 2 * eps) for v in nd[n - 1]]
    nd[n - 1][0] += 2 * eps
    yield "near-decomposable", nd, 1e-6
    ab = [[F(0)] * n for _ in range(n)]
    for i in range(n):
        ab[i][i] = F(1, 2)
        ab[i][min(i + 1, n - 1)] += F(1, 2)
    yield "absorbing", ab, 1e-6
    st = [[F(1, 2 * n)] * n for _ in range(n)]
    for i in range(n):
        st[i] = list(st[i])
        st[i][0] += F(1, 2)
    yield "star", st, 1e-9


def struct_fn(task, acc):
    for n in task[1]:
        for name, A, tol in structured(n):
            if name == "absorbing" and n > 12:
                continue     # a Jordan block: ill-conditioned for any method
            check(acc, f"struct/{name}/{n}", A, tol, rtol=tol)


def rare_fn(task, acc):
    """Chains with rare transitions, exact in binary."""
    _, n, ks, first = task
    rates = [Fraction(0)] + [Fraction(1, 2 ** k) for k in ks]
    for rest in itertools.product(rates, repeat=n * (n - 1) - 1):
        off = iter((rates[first],) + rest)
        A = [[Fraction(0) if i == j else next(off) for j in range(n)] for i in range(n)]
        for i in range(n):
            A[i][i] = 1 - sum(A[i])
        used = [v for r in A for v in r if v]
        # The eigenvector is as accurate as its eigenvalue is separated.
        check(acc, "rare/" + "/".join(str([str(v) for v in r]) for r in A), A,
              max(1e-9, 1e-13 / float(min(used))))


def task_fn(task, acc):
    {"grid": grid_fn, "struct": struct_fn, "rare": rare_fn}[task[0]](task, acc)


def run(tier, acc):
    spaces = {"quick": [(1, 1)] + [(2, d) for d in range(1, 13)]
              + [(3, d) for d in range(1, 5)] + [(4, 1)],
              "thorough": [(1, 1)] + [(2, d) for d in range(1, 41)]
              + [(3, d) for d in range(1, 8)] + [(4, 1), (4, 2), (5, 1)]}[tier]
    tasks = []
    for n, d in spaces:
        rows = sum(1 for c in itertools.product(range(d + 1), repeat=n) if sum(c) == d)
        total = rows ** n
        step = max(500, total // 64)
        for lo in range(0, total, step):
            tasks.append(("grid", n, d, lo, min(total, lo + step), "base"))
    two = tuple(range(1, 37)) if tier == "thorough" else (1, 2, 4, 7, 10, 14, 17, 20, 24, 27, 30, 33, 36)
    tasks += [("rare", 2, two, i) for i in range(len(two) + 1)]
    three = (2, 10, 20, 30) if tier == "thorough" else (2, 12, 26)
    tasks += [("rare", 3, three, i) for i in range(len(three) + 1)]
    for fam in gen.EM_FAMILIES:
        tasks.append(("grid", 2, 4, 0, 25, fam))
    top = 41 if tier == "quick" else 101
    for k in range(5, top):
        tasks.append(("struct", (k,)))
    core.explore(task_fn, tasks, acc, timeout=800)
