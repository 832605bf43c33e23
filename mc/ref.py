"""Reference semantics, written from the textbook definitions.

Small models: *every* hidden path is enumerated explicitly (a table with one
entry per path, in extended precision), grown along the prefix tree of
observation sequences.  Large models: forward/backward recursions in the log
domain with 80-bit floats, structured differently from the code under test.
"""

import itertools

import numpy as np

LD = np.longdouble
NINF = LD("-inf")


def ld(a):
    return np.asarray(a, dtype=LD)


def log(a):
    with np.errstate(divide="ignore"):
        return np.log(ld(a))


def lse(a, axis=None):
    a = ld(a)
    m = np.max(a, axis=axis, keepdims=True)
    m0 = np.where(np.isfinite(m), m, 0)
    with np.errstate(divide="ignore"):
        r = np.log(np.sum(np.exp(a - m0), axis=axis, keepdims=True)) + m0
    return np.squeeze(r, axis=axis) if axis is not None else r.reshape(())[()]


class Paths:
    """All hidden paths of an HMM, extended one observation at a time."""

    def __init__(self, pi, A):
        self.lpi, self.lA = log(pi), log(A)
        self.nc = len(self.lpi)

    def first(self, lb):
        return self.lpi + ld(lb)

    def extend(self, table, lb):
        # table has one axis per time step; the new axis is the next state.
        return table[..., None] + self.lA + ld(lb)

    def table(self, logB):
        t = self.first(logB[0])
        for row in logB[1:]:
            t = self.extend(t, row)
        return t

    @staticmethod
    def loglik(table):
        return lse(table)

    @staticmethod
    def posteriors(table):
        z = lse(table)
        p = np.exp(table - z)
        n = table.ndim
        return np.array([p.sum(axis=tuple(a for a in range(n) if a != t))
                         for t in range(n)], dtype=LD)

    def xi(self, table):
        """Expected number of i->j transitions."""
        n = table.ndim
        out = np.zeros((self.nc, self.nc), dtype=LD)
        if n < 2:
            return out
        p = np.exp(table - lse(table))
        for t in range(n - 1):
            out += p.sum(axis=tuple(a for a in range(n) if a not in (t, t + 1)))
        return out


# ------------------------------------------------- large models (recursions)

def forward(pi, A, logB):
    return forward_log(log(pi), log(A), logB)


def forward_log(lpi, lA, logB):
    logB = ld(logB)
    f = np.empty(logB.shape, dtype=LD)
    f[0] = lpi + logB[0]
    for t in range(1, len(logB)):
        f[t] = lse(f[t - 1][:, None] + lA, axis=0) + logB[t]
    return f


def backward_log(lA, logB):
    logB = ld(logB)
    b = np.zeros(logB.shape, dtype=LD)
    for t in range(len(logB) - 2, -1, -1):
        b[t] = lse(lA + (logB[t + 1] + b[t + 1])[None, :], axis=1)
    return b


def smooth(pi, A, logB):
    """(loglik, posteriors, expected transitions)."""
    return smooth_log(log(pi), log(A), logB)


def smooth_log(lpi, lA, logB):
    f, b = forward_log(lpi, lA, logB), backward_log(lA, logB)
    z = lse(f[-1])
    g = np.exp(f + b - z)
    xi = np.zeros(lA.shape, dtype=LD)
    for t in range(len(logB) - 1):
        xi += np.exp(f[t][:, None] + lA + (ld(logB[t + 1]) + b[t + 1]) - z)
    return z, g, xi


def best_logprob(pi, A, logB):
    lpi, lA, logB = log(pi), log(A), ld(logB)
    d = lpi + logB[0]
    for t in range(1, len(logB)):
        d = np.max(d[:, None] + lA, axis=0) + logB[t]
    return d.max()


def path_logprob(pi, A, logB, path):
    lpi, lA, logB = log(pi), log(A), ld(logB)
    r = lpi[path[0]] + logB[0, path[0]]
    for t in range(1, len(path)):
        r += lA[path[t - 1], path[t]] + logB[t, path[t]]
    return r


# ------------------------------------------------------------ comparisons

def close(a, b, rtol=1e-9, atol=1e-9):
    """Same shape, same infinities, numerically equal; NaN never matches."""
    a, b = np.asarray(a, dtype=LD), np.asarray(b, dtype=LD)
    if a.shape != b.shape:
        return False
    if np.isnan(a).any() or np.isnan(b).any():
        return False
    inf = np.isinf(a) | np.isinf(b)
    if (a[inf] != b[inf]).any():
        return False
    a, b = a[~inf], b[~inf]
    return bool((np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))).all())


# --------------------------------------------------------------- enumeration

def simplex(n, d):
    """All points of the n-simplex with denominator d."""
    return [tuple(x / d for x in c)
            for c in itertools.product(range(d + 1), repeat=n) if sum(c) == d]


def compositions(n):
    """All ways of writing n as an ordered sum of positive integers."""
    if n == 0:
        yield ()
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield (k,) + rest


def lcg(seed):
    """Fixed, irregular but reproducible numbers in (0, 1) (not sampling: the
    parameters of the structured large configurations are constants)."""
    x = (seed * 2654435761 + 12345) % (1 << 32)
    while True:
        x = (1664525 * x + 1013904223) % (1 << 32)
        yield ((x >> 8) + 0.5) / (1 << 24)


def irregular(shape, seed):
    g = lcg(seed)
    return np.array([next(g) for _ in range(int(np.prod(shape)))]).reshape(shape)


def stochastic(shape, seed, zeros=0.0):
    a = irregular(shape, seed) + 0.05
    if zeros:
        z = irregular(shape, seed + 7919) < zeros
        idx = np.arange(a.shape[-1])
        # keep at least one nonzero entry per row
        if a.ndim == 1:
            z[seed % len(a)] = False
        else:
            z[np.arange(a.shape[0]), (np.arange(a.shape[0]) + 1) % a.shape[1]] = False
        a[z] = 0
    return a / a.sum(axis=-1, keepdims=True)
