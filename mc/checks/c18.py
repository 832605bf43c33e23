"""C18: Kullback-Leibler divergences.

States: all pairs (q, p) of parameter values on a grid.  Oracle: textbook
densities integrated term by term with digamma/log-gamma functions of our own
(80-bit recurrence + asymptotic series); Dirichlet divergences are decomposed
into Beta divergences by stick breaking; one-dimensional families are also
compared with quadrature of the integral definition.
"""

import functools
import itertools

import numpy as np
from scipy import integrate

from .. import core, gen, ref

LD = ref.LD
BOUNDS = {
    "quick": "normal: 5x6 parameters squared; gamma: 7x5 squared; Dirichlet: all pairs "
             "from 6 values in dimension 1-3; multivariate normal and Wishart: all pairs of "
             "10-20 parameters in dimension 1-3; normals in units 1e-15..1e12; nearly equal pairs (relative 1e-12..1e-4), Dirichlet parameters down to 1e-8; quadrature for all "
             "one-dimensional pairs of moderate size",
    "thorough": "as quick with finer grids (10x12 normal, 14x10 gamma, Dirichlet "
                "8 values and dimension 4 with 5 values, 60 matrices per dimension)"}
ASSUMPTIONS = ["quadrature error below 1e-6"]


@functools.lru_cache(65536)
def digamma(x):
    x, r = LD(x), LD(0)
    while x < 30:
        r -= 1 / x
        x += 1
    y = 1 / (x * x)
    c = [LD(1) / 12, -LD(1) / 120, LD(1) / 252, -LD(1) / 240, LD(1) / 132,
         -LD(691) / 32760, LD(1) / 12]
    s = LD(0)
    for k in reversed(c):
        s = (s + k) * y
    return r + np.log(x) - 1 / (2 * x) - s


@functools.lru_cache(65536)
def gammaln(x):
    x, r = LD(x), LD(0)
    while x < 30:
        r -= np.log(x)
        x += 1
    y = 1 / (x * x)
    c = [LD(1) / 12, -LD(1) / 360, LD(1) / 1260, -LD(1) / 1680, LD(1) / 1188]
    s = LD(0)
    for k in reversed(c):
        s = s * y + k
    return r + (x - .5) * np.log(x) - x + np.log(2 * LD(np.pi)) / 2 + s / x


def kl_beta(a, b, c, d):
    """E_q[log q - log p] for Beta(a, b) and Beta(c, d)."""
    a, b, c, d = map(LD, (a, b, c, d))
    lb = gammaln(c) + gammaln(d) - gammaln(c + d) \
        - gammaln(a) - gammaln(b) + gammaln(a + b)
    elog, elog1 = digamma(a) - digamma(a + b), digamma(b) - digamma(a + b)
    return lb + (a - c) * elog + (b - d) * elog1


def kl_dirichlet(q, p):
    """Stick breaking: independent Beta factors."""
    r = LD(0)
    for k in range(len(q) - 1):
        r += kl_beta(q[k], sum(map(LD, q[k + 1:])), p[k], sum(map(LD, p[k + 1:])))
    return r


def kl_gamma(a, r, c, s):
    """Gamma(shape a, rate r) from Gamma(shape c, rate s)."""
    a, r, c, s = map(LD, (a, r, c, s))
    elog, e = digamma(a) - np.log(r), a / r
    hq = a * np.log(r) - gammaln(a) + (a - 1) * elog - r * e
    hp = c * np.log(s) - gammaln(c) + (c - 1) * elog - s * e
    return hq - hp


def kl_normal(m, v, n, w):
    m, v, n, w = map(LD, (m, v, n, w))
    # E_q[log q] - E_q[log p]
    return (-(np.log(v) + 1) + np.log(w) + (v + (m - n) ** 2) / w) / 2


def kl_mvn(m, S, n, T):
    ds, _ = gen._det_inv(S)
    dt, ti = gen._det_inv(T)
    e = ref.ld(m) - ref.ld(n)
    D = len(e)
    second = ref.ld(S) + np.outer(e, e)      # E_q[(x-n)(x-n)^T]
    return (-(np.log(ds) + D) + np.log(dt) + (ti * second).sum()) / 2


def kl_wishart(nu, B, mu, C):
    """Wishart with density ~ |X|^((nu-D-1)/2) exp(-tr(B X)/2)."""
    D = len(B)
    nu, mu = LD(nu), LD(mu)
    db, bi = gen._det_inv(B)
    dc, _ = gen._det_inv(C)
    elogdet = sum(digamma((nu - k) / 2) for k in range(D)) \
        + D * np.log(LD(2)) - np.log(db)

    def lognorm(n, det):
        return (n * D / 2 * np.log(LD(2)) - n / 2 * np.log(det)
                + D * (D - 1) / LD(4) * np.log(LD(np.pi))
                + sum(gammaln((n - k) / 2) for k in range(D)))
    ex = nu * bi
    hq = (nu - D - 1) / 2 * elogdet - (ref.ld(B) * ex.T).sum() / 2 - lognorm(nu, db)
    hp = (mu - D - 1) / 2 * elogdet - (ref.ld(C) * ex.T).sum() / 2 - lognorm(mu, dc)
    return hq - hp


def judge(acc, key, call, want, equal=False, scale=1.0):
    acc.count(states=1, transitions=1, traces=1)
    try:
        got = call()
    except Exception as exc:
        acc.fail(key, f"raised {exc!r}; the divergence is {float(want):.12g}")
        return None
    tol = 1e-14 * max(1.0, scale)
    if np.ndim(got) != 0 or not np.isfinite(got) or got < -tol \
            or (equal and abs(got) > tol) or not ref.close(got, want, 1e-8, tol):
        acc.fail(key, f"{got!r}, should be {float(want):.15g}")
    return got


def quad(acc, key, got, want, f, lo, hi, points):
    if got is None:
        return
    val = sum(integrate.quad(f, a, b, limit=200)[0]
              for a, b in zip([lo] + points, points + [hi]))
    acc.bump("quadratures")
    if abs(val - float(want)) > 1e-6 * max(1, abs(val)):
        acc.fail("oracle:" + key, f"quadrature {val} != closed form {want}")


def normal_fn(task, acc):
    from hmmlearn import _kl_divergence as kl
    _, big = task
    ms = (0, 1, -2.5, 30., -1e3) if not big else (0, 1, -1, 2, -2.5, 7, 30., 1e-4, -1e3, 1e4)
    vs = (1., .5, 3., 1e-4, 50., 1e3) if not big else \
        (1., .5, 3., 1e-4, 50., 1e3, .1, .9, 2, 10., 1e-6, 1e6)
    vs += tuple(v * (1 + e) for v in (.3, 1., 7.) for e in (0, 1e-12, -1e-12, 1e-9, -1e-9, 3e-6, 1e-4))
    for m, v, n, w in itertools.product(ms, vs, ms, vs):
        k = f"normal/{m}/{v!r}/{n}/{w!r}"
        want = kl_normal(m, v, n, w)
        sc = (v + (m - n) ** 2) / w
        g = judge(acc, k, lambda: kl.kl_normal_distribution(m, v, n, w), want,
                  (m, v) == (n, w), sc)
        h = judge(acc, k + "/mvn", lambda: kl.kl_multivariate_normal_distribution(
            [m], [[v]], [n], [[w]]), want, (m, v) == (n, w), sc)
        if m in (0, 1) and n in (0, 1, -2.5) and v in (.5, 3.) and w in (1., .5, 3.):
            def f(x):
                lq = -.5 * (np.log(2 * np.pi * v) + (x - m) ** 2 / v)
                lp = -.5 * (np.log(2 * np.pi * w) + (x - n) ** 2 / w)
                return np.exp(lq) * (lq - lp)
            quad(acc, k, g, want, f, -40, 40, [float(m)])
    # In any unit of measurement.
    ms, vs = (0, 1, -2.5, 30.), (1., .5, 3., 50.)
    for u in (1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9, 1e12):
        for m, v, n, w in itertools.product(ms, vs, ms, vs):
            want = kl_normal(m, v, n, w)
            sc = (v + (m - n) ** 2) / w + 100
            k = f"normal/{m}/{v!r}/{n}/{w!r}/unit{u}"
            judge(acc, k, lambda: kl.kl_normal_distribution(u * m, u * u * v, u * n, u * u * w),
                  want, (m, v) == (n, w), sc)
            judge(acc, k + "/mvn", lambda: kl.kl_multivariate_normal_distribution(
                [u * m, 0.], np.diag([u * u * v, 1.]), [u * n, 0.], np.diag([u * u * w, 1.])),
                want, (m, v) == (n, w), sc)


def gamma_fn(task, acc):
    from math import lgamma
    from hmmlearn import _kl_divergence as kl
    _, big, ai = task
    shapes = (.05, .5, 1, 2, 3.7, 20., 400.)
    rates = (.01, .5, 1, 4., 100., 4 * (1 + 3e-6))
    if big:
        shapes += (.001, .2, 1.5, 5, 80., 3e3, 7.25)
        rates += (.1, 2., 10., 1e-4, 1e3)
    shapes += tuple(a * (1 + e) for a in (.3, 1., 7.) for e in (0, 1e-12, 1e-9, -1e-9, 3e-6, 1e-4))
    a = shapes[ai]
    for r, c, s in itertools.product(rates, shapes, rates):
        k = f"gamma/{a!r}/{r}/{c!r}/{s}"
        want = kl_gamma(a, r, c, s)
        eq = (a, r) == (c, s)
        sc = a * s / r + a + c * abs(np.log(r / s)) + 10 * abs(a - c)
        g = judge(acc, k, lambda: kl.kl_gamma_distribution(a, r, c, s), want, eq, sc)
        judge(acc, k + "/wishart", lambda: kl.kl_wishart_distribution(
            2 * a, np.array([[2 * r]]), 2 * c, np.array([[2 * s]])), want, eq, sc)
        if .5 <= a <= 20 and .5 <= c <= 20 and {r, s} <= {.5, 1, 4.} and ai < 7:
            def f(x):
                lq = a * np.log(r) - lgamma(a) + (a - 1) * np.log(x) - r * x
                lp = c * np.log(s) - lgamma(c) + (c - 1) * np.log(x) - s * x
                return np.exp(lq) * (lq - lp)
            # x = y^4 removes the singularity at 0
            quad(acc, k, g, want, lambda y: f(y ** 4) * 4 * y ** 3 if y else 0.,
                 0., 6., [1., 2.])


def dirichlet_fn(task, acc):
    from hmmlearn import _kl_divergence as kl
    _, n, vals, q0 = task
    for rest in itertools.product(vals, repeat=n - 1):
        q = (q0,) + rest
        for p in itertools.product(vals, repeat=n):
            k = f"dirichlet/{q}/{p}"
            want = kl_dirichlet(q, p)
            sc = sum(abs(a - b) * 10 for a, b in zip(q, p))
            for form in (list, np.array):
                judge(acc, k, lambda: kl.kl_dirichlet(form(q), form(p)), want,
                      q == p, sc)
            # order of the categories
            if n > 1:
                judge(acc, k + "/perm", lambda: kl.kl_dirichlet(q[::-1], p[::-1]),
                      want, q == p, sc)


def matrices(n, count):
    out = [np.eye(n), 2.5 * np.eye(n), np.diag([.01, 3., 40.][:n])]
    # Badly scaled: sizes of all magnitudes, and correlated variables of
    # different magnitudes.
    out += [np.diag([1e4, 1e-4, 1.][:n]), np.diag([1e-12, 1e6, 1e-3][:n]), 1e-20 * np.eye(n),
            1e20 * np.eye(n)]
    d = np.array([1e-3, 2., 40.][:n])
    out.append((np.full((n, n), .6) + .4 * np.eye(n)) * np.outer(d, d))
    near = .5 * np.eye(n) + .5
    out += [near, near * (1 + 3e-6), near + 1e-5 * np.fliplr(np.eye(n))]
    for k in range(count):
        L = ref.irregular((n, n), 13 * n + k) - .5
        out.append(L @ L.T + (.05 + .3 * (k % 3)) * np.eye(n) * (1 + k % 4))
    return [(m + m.T) / 2 for m in out]


def matrix_fn(task, acc):
    from hmmlearn import _kl_divergence as kl
    _, n, count, i = task
    ms = matrices(n, count)
    S = ms[i]
    for j, T in enumerate(ms):
        mus = [np.zeros(n), np.arange(n) - .5, np.full(n, 20.), np.sqrt(np.diag(S)) / 2]
        for (a, m), (b, w) in itertools.product(enumerate(mus), repeat=2):
            k = f"mvn/{n}/{i}/{j}/{a}/{b}"
            want = kl_mvn(m, S, w, T)
            sc = float(abs(want))
            judge(acc, k, lambda: kl.kl_multivariate_normal_distribution(m, S, w, T),
                  want, i == j and a == b, sc)
            judge(acc, k + "/list", lambda: kl.kl_multivariate_normal_distribution(
                m.tolist(), S.tolist(), w.tolist(), T.tolist()),
                want, i == j and a == b, sc)
            # independent factors add up
            if np.count_nonzero(S - np.diag(np.diag(S))) == 0 \
                    and np.count_nonzero(T - np.diag(np.diag(T))) == 0:
                judge(acc, k + "/sum", lambda: sum(
                    kl.kl_normal_distribution(m[d], S[d, d], w[d], T[d, d])
                    for d in range(n)), want, i == j and a == b, sc)
        for nu, mu in itertools.product((n - 1 + .1, n, n + 1.5, 50.), repeat=2):
            want = kl_wishart(nu, S, mu, T)
            judge(acc, f"wishart/{n}/{i}/{j}/{nu}/{mu}",
                  lambda: kl.kl_wishart_distribution(nu, S, mu, T), want,
                  i == j and nu == mu, float(abs(want)) + nu + mu)


def task_fn(task, acc):
    {"normal": normal_fn, "gamma": gamma_fn, "dirichlet": dirichlet_fn,
     "matrix": matrix_fn}[task[0]](task, acc)


def run(tier, acc):
    big = tier == "thorough"
    tasks = [("normal", big)]
    tasks += [("gamma", big, i) for i in range(32 if big else 25)]
    vals = (.1, .5, 1., 2., 7.5, 300.)
    near = (1., 1 + 3e-6, 1 - 1e-4, 1e-3, 1e-8)
    tasks += [("dirichlet", n, near, q0) for n in (1, 2, 3) for q0 in near]
    for n in (1, 2, 3):
        for q0 in vals + ((.01, 40.) if big else ()):
            tasks.append(("dirichlet", n, vals + ((.01, 40.) if big else ()), q0)
                         if n < 3 or big else ("dirichlet", n, vals[:5], q0))
    if big:
        tasks += [("dirichlet", 4, vals[:5], q0) for q0 in vals[:5]]
    for n in (1, 2, 3):
        count = 57 if big else 7
        tasks += [("matrix", n, count, i) for i in range(count + 11)]
    core.explore(task_fn, tasks, acc, timeout=800)
