"""C22: memory layout does not matter and native code is memory safe.

Enumeration of every layout and type of every argument, and of every combination
of small shapes, on the real code.  The native functions run in a build with
AddressSanitizer and UndefinedBehaviorSanitizer, in a process of its own; views
are embedded in arrays of NaNs (or of huge integers), so that a stray read that
stays inside the allocation changes the result."""

import itertools
import os
import pathlib
import pickle
import subprocess
import sys

import numpy as np

from .. import core, gen, ref, stage
from . import c15

LEVEL = "model_checking"
BOUNDS = {
    "quick": "native functions: every combination of argument sizes 0-2 (0-3 for the recursions) and of "
             "argument ranks 0-3; every pair of arguments in every pair of 14 layouts and types, 5 sizes; "
             "public methods and training: 19 families, every layout and type of the data, of each "
             "parameter, and of the emissions of user-defined models",
    "thorough": "as quick with argument sizes 0-3 everywhere, every layout of every combination of "
                "arguments, and models of 1-3 states",
}
ASSUMPTIONS = ["Results of different layouts may differ by rounding (1e-9)."]

_so = None
LIBS = None


def prepare(scratch, tier):
    global _so, LIBS
    san = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment",
           "-fno-sanitize-recover=undefined"]
    src = stage.stage_variant(scratch, "asan", [*san, "-O1", "-g1"], san)
    _so = next((src / "hmmlearn").glob("_hmmc*.so"))
    LIBS = ":".join(subprocess.run(["g++", f"-print-file-name={n}"], text=True,
                                   stdout=subprocess.PIPE).stdout.strip()
                    for n in ("libasan.so", "libubsan.so", "libstdc++.so"))


# --------------------------------------------------------------- layouts

def garbage(dtype):
    return np.nan if np.dtype(dtype).kind in "fc" else \
        True if np.dtype(dtype).kind == "b" else np.iinfo(dtype).max


def embed(a, index, shape):
    base = np.full(shape, garbage(a.dtype), a.dtype)
    v = base[index]
    v[...] = a
    return v


def strided(a):
    return embed(a, tuple(slice(1, 2 * n + 1, 2) for n in a.shape),
                 tuple(2 * n + 2 for n in a.shape))


def offset(a):
    return embed(a, tuple(slice(2, n + 2) for n in a.shape), tuple(n + 5 for n in a.shape))


def backwards(a):
    v = a[tuple(slice(None, None, -1) for _ in a.shape)].copy()
    return v[tuple(slice(None, None, -1) for _ in a.shape)]


def unaligned(a):
    buf = np.frombuffer(bytearray(a.nbytes + 1), np.uint8)[1:].view(a.dtype).reshape(a.shape)
    buf[...] = a
    return buf


def readonly(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def field(a):
    rec = np.zeros(a.shape, [("pad", "i4"), ("v", a.dtype)])
    rec["pad"] = 7
    rec["v"] = a
    return rec["v"]


class Sub(np.ndarray):
    pass


LAYOUTS = {
    "c": lambda a: a.copy(),
    "fortran": lambda a: np.asfortranarray(a.copy()),
    "strided": strided, "offset": offset, "backwards": backwards,
    "unaligned": unaligned, "readonly": readonly, "field": field,
    "swapped": lambda a: a.astype(a.dtype.newbyteorder(">")),
    "swapped-strided": lambda a: strided(a.astype(a.dtype.newbyteorder(">"))),
    "list": lambda a: a.tolist(),
    "subclass": lambda a: a.copy().view(Sub),
}


def cast(t):
    def f(a):
        with np.errstate(all="ignore"):
            r = a.astype(t)
        return r if r.dtype != a.dtype and np.array_equal(r.astype(a.dtype), a) else None
    return f


TYPES = {t: cast(t) for t in ("f4", "g", "i1", "u1", "i2", "i4", "i8", "u8", "?", "O", "f8",
                              ">i4", ">f4")}


def forms(a, objects=True):
    """All forms of an array: (name, array)."""
    for k, f in LAYOUTS.items():
        yield k, f(a)
    for k, f in TYPES.items():
        r = f(a)
        if r is not None and (objects or k != "O"):
            yield k, r
            if k in ("f4", "i4", "u1"):
                yield k + "-strided", strided(r)


# ---------------------------------------------------------- native level

def definition(name, args):
    """The recursions written out (extended precision)."""
    a = [ref.ld(x) for x in args]
    if name.startswith("compute"):
        fwd, A, bwd, B = a
        T, n = B.shape
        if name == "compute_scaling_xi_sum":
            r = np.zeros((n, n), ref.LD)
            for t in range(T - 1):
                r += fwd[t][:, None] * A * (B[t + 1] * bwd[t + 1])[None]
            return r
        lp = ref.lse(list(fwd[T - 1]))
        out = np.full((n, n), ref.NINF)
        for i, j in itertools.product(range(n), repeat=2):
            if T > 1:
                out[i, j] = ref.lse([fwd[t, i] + ref.log(A[i, j]) + B[t + 1, j] + bwd[t + 1, j] - lp
                                     for t in range(T - 1)])
        return out
    pi, A, B = a[:3]
    T, n = B.shape
    if name in ("forward_scaling", "forward_log"):
        f = np.zeros((T, n), ref.LD)
        lin = name == "forward_scaling"
        P = B if lin else np.exp(B)
        f[0] = pi * P[0]
        sc, lp = np.ones(T, ref.LD), ref.LD(0)
        for t in range(T):
            if t:
                f[t] = (f[t - 1] @ A) * P[t]
            if lin:
                sc[t] = 1 / f[t].sum()
                f[t] *= sc[t]
                lp -= np.log(sc[t])
        if lin:
            return lp, f, sc
        return ref.log(f[T - 1].sum()), ref.log(f)
    if name in ("backward_scaling", "backward_log"):
        b = np.ones((T, n), ref.LD)
        lin = name == "backward_scaling"
        P = B if lin else np.exp(B)
        sc = a[3] if lin else np.ones(T)
        b[T - 1] *= sc[T - 1]
        for t in range(T - 2, -1, -1):
            b[t] = sc[t] * (A @ (P[t + 1] * b[t + 1]))
        return b if lin else ref.log(b)
    if name == "viterbi":
        best = max(((ref.log(pi[z[0]]) + B[0, z[0]]
                     + sum(ref.log(A[z[t - 1], z[t]]) + B[t, z[t]] for t in range(1, T))), z)
                   for z in itertools.product(range(n), repeat=T))
        return best
    raise NotImplementedError(name)


NAMES = {"forward_scaling": "pAB", "forward_log": "pAB", "viterbi": "pAB", "backward_log": "pAB",
         "backward_scaling": "pABs", "compute_scaling_xi_sum": "LALB",
         "compute_log_xi_sum": "LALB"}
DIMS = {"p": "n", "A": "nn", "B": "Tn", "L": "Tn", "s": "T"}


def value(name, i, shape):
    """Values of argument i: dyadic numbers, exact in single precision."""
    kind = NAMES[name][i]
    v = (1 + (np.arange(int(np.prod(shape))) * 5 + 3 * i) % 7).reshape(shape) / 8.
    if "log" in name or name == "viterbi":
        if kind in "BL":
            return -v
    return v


def case_ok(name, shapes):
    ns, Ts = set(), set()
    for kind, sh in zip(NAMES[name], shapes):
        if len(sh) != len(DIMS[kind]):
            return None
        for d, n in zip(DIMS[kind], sh):
            (ns if d == "n" else Ts).add(n)
    return len(ns) == 1 and len(Ts) == 1 and (min(ns), min(Ts))


def close(got, want, name):
    if name == "viterbi":
        return ref.close(got[0], want[0], 1e-12) and np.array_equal(np.asarray(got[1]), want[1])
    if isinstance(want, tuple):
        return len(got) == len(want) and all(close(g, w, "") for g, w in zip(got, want))
    return np.shape(got) == np.shape(want) and ref.close(got, want, 1e-11, 1e-13)


def shapes_task(h, task, acc, now):
    """Every combination of sizes."""
    _, name, top, rank = task
    f = getattr(h, name)
    kinds = NAMES[name]
    if rank:
        # arguments of other ranks
        combos = itertools.product(*[[(2,) * r for r in range(4)] + [(0,), (0, 2), (2, 0)]
                                     for _ in kinds])
    else:
        axes = [range(top + 1)] * sum(len(DIMS[k]) for k in kinds)

        def split(c):
            out, i = [], 0
            for k in kinds:
                out.append(tuple(c[i:i + len(DIMS[k])]))
                i += len(DIMS[k])
            return out
        combos = map(split, itertools.product(*axes))
    for shapes in combos:
        key = f"shapes/{name}/{shapes}"
        now(key)
        acc.count(states=1, transitions=1, traces=1)
        args = [value(name, i, s) for i, s in enumerate(shapes)]
        ok = case_ok(name, shapes)
        try:
            got = f(*args)
        except (ValueError, TypeError, IndexError, OverflowError) as e:
            if ok and min(ok) > 0:
                acc.fail(key, f"consistent arguments raise {e!r}")
            continue
        if not ok:
            acc.fail(key, f"inconsistent shapes give a result: {str(got)[:200]}")
        elif min(ok) > 0 and not close(got, definition(name, args), name):
            acc.fail(key, f"{got} differs from the definition")
        acc.bump("consistent_shapes")


INTEGER = {"p": lambda s: np.eye(*s[:1] * 2)[0] if s else 1.,
           "A": lambda s: np.roll(np.eye(s[0]), 1, axis=1),
           "B": lambda s: 1. + np.arange(s[0] * s[1]).reshape(s) % 3,
           "L": lambda s: 1. + np.arange(s[0] * s[1]).reshape(s) % 2,
           "s": lambda s: 1. + np.arange(s[0]) % 2}


def layouts_task(h, task, acc, now):
    """Every layout of every pair of arguments."""
    _, name, (T, n), integer, every = task
    f = getattr(h, name)
    kinds = NAMES[name]
    shapes = [tuple({"T": T, "n": n}[d] for d in DIMS[k]) for k in kinds]
    args = [INTEGER[k](s) if integer else value(name, i, s)
            for i, (k, s) in enumerate(zip(kinds, shapes))]
    want = f(*[a.copy() for a in args])
    ref_ = definition(name, args)
    if not close(want, ref_, name):
        acc.fail(f"layouts/{name}/{T}x{n}/{integer}", f"{want} differs from the definition {ref_}")
    variants = [list(forms(a)) for a in args]
    if every:
        sets = itertools.combinations(range(len(args)), len(args))
    else:
        sets = itertools.combinations(range(len(args)), 2)
    for which in sets:
        for choice in itertools.product(*[variants[i] for i in which]):
            key = f"layouts/{name}/{T}x{n}/{integer}/" \
                + ",".join(f"{i}:{c[0]}" for i, c in zip(which, choice))
            now(key)
            acc.count(states=1, transitions=1, traces=1)
            call = [a.copy() for a in args]
            for i, c in zip(which, choice):
                call[i] = c[1]
            try:
                got = f(*call)
            except Exception as e:
                acc.fail(key, f"raises {e!r}")
                continue
            if not gen.same(got, want):
                acc.fail(key, f"gives {got}, with contiguous arrays {want}")
            for i, (c, a) in enumerate(zip(call, args)):
                if not np.array_equal(np.asarray(c, dtype=float), a):
                    acc.fail(key + "/args", f"argument {i} was changed")
                for g in got if isinstance(got, tuple) else (got,):
                    if isinstance(g, np.ndarray) and isinstance(c, np.ndarray) \
                            and np.shares_memory(g, c):
                        acc.fail(key + "/shares", f"the result is a view of argument {i}")


def native_main():
    import ast
    import importlib
    import mmap
    so = pathlib.Path(sys.argv[1])
    sys.path.insert(0, str(so.parent.parent))
    h = importlib.import_module("hmmlearn._hmmc")
    assert h.__file__ == str(so), h.__file__
    fd = os.open(sys.argv[3], os.O_RDWR)
    mem = mmap.mmap(fd, 4096)

    def now(key):
        b = key.encode()[:4000]
        mem[:len(b) + 1] = b + b"\0"
    acc = core.Acc()
    task = ast.literal_eval(sys.argv[2])
    np.seterr(all="ignore")
    {"shapes": shapes_task, "layouts": layouts_task}[task[0]](h, task, acc, now)
    with open(sys.argv[3] + ".out", "wb") as f:
        f.write(pickle.dumps(acc))
    sys.stdout.flush()
    os._exit(0)


def native_process(task, acc):
    tmp = pathlib.Path(_so).parent / f"now-{os.getpid()}"
    tmp.write_bytes(bytes(4096))
    proc = subprocess.run(
        [sys.executable, "-c", "from mc.checks import c22; c22.native_main()", str(_so),
         repr(task), str(tmp)], cwd=core.VERIF, text=True, errors="replace",
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        env={**os.environ, "LD_PRELOAD": LIBS, "PYTHONMALLOC": "malloc",
             "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
             "UBSAN_OPTIONS": "print_stacktrace=0"})
    if proc.returncode == 0:
        with open(str(tmp) + ".out", "rb") as f:
            acc.merge(pickle.loads(f.read()))
    else:
        key = tmp.read_bytes().split(b"\0")[0].decode()
        report = [x for x in proc.stdout.splitlines()
                  if "ERROR" in x or "runtime error" in x or "SUMMARY" in x]
        acc.fail(key or f"crash:{task!r}", "invalid memory access: "
                 + " | ".join(report or [proc.stdout[-500:], str(proc.returncode)])[:600])


# --------------------------------------------------------------- methods

def outputs(spec, m, X, L):
    """What the public methods return."""
    r = {"score": m.score(X, L), "samples": m.score_samples(X, L),
         "viterbi": m.decode(X, L, algorithm="viterbi"), "map": m.decode(X, L, algorithm="map"),
         "predict": m.predict(X, L), "proba": m.predict_proba(X, L)}
    if spec.base != "custom" and not spec.base.startswith("v"):
        r["aic"], r["bic"] = m.aic(X, L), m.bic(X, L)
        r["stationary"] = m.get_stationary_distribution()
    if spec.base != "custom":
        r["sample"] = m.sample(5, random_state=3)
    return r


def trained(spec, m, X, L):
    m.fit(X, L)
    r = gen.shown(spec, m)
    r["history"] = list(m.monitor_.history)
    return r


def near(a, b, tol=1e-9):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(near(a[k], b[k], tol) for k in a)
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) \
            and all(near(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, type) or isinstance(b, type):
        return a is b
    if a is None or isinstance(a, str):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "iub":
        return np.array_equal(a, b)
    return bool(np.allclose(a, b, rtol=tol, atol=1e-12, equal_nan=True))


def difference(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: (a.get(k), b.get(k)) for k in a if not near(a.get(k), b.get(k))}
    return a, b


def attempt(f, *args):
    try:
        return f(*args)
    except Exception as e:
        return type(e)


def data(spec, integer):
    (X, L), _ = c15.datasets(spec)
    X = np.asarray(X, dtype=float)
    if gen.family_base(spec.fam) == "gauss":
        if integer:
            X = np.round(X * 40) + 100       # exact in every type, squares overflow 8 bits
            X = np.clip(X, 0, 127)
        else:
            X = np.round(X * 16) / 16        # exact in half precision
    elif gen.family_base(spec.fam) == "poisson" and integer:
        X = X * 20
    return X, L


def options(spec):
    """Everything is trained, without initialisation."""
    kw = dict(n_iter=1, tol=0, init_params="", random_state=0)
    return kw


def spec_for(fam, nc, impl, integer):
    spec = gen.standard(fam, nc, "generic", implementation=impl)
    if integer and spec.base in ("gauss", "gmm", "vgauss"):
        spec.emis["means_"] = spec.emis["means_"] * 20 + 100
        spec.emis["covars_"] = spec.emis["covars_"] * 900
    if integer and spec.base == "poisson":
        spec.emis["lambdas_"] = spec.emis["lambdas_"] * 20
    if spec.base == "multinomial":
        spec.kwargs["n_trials"] = 3
    return spec


def data_task(task, acc):
    """Forms of X and lengths."""
    _, fam, nc, impl, integer = task
    spec = spec_for(fam, nc, impl, integer)
    X, L = data(spec, integer)
    if gen.family_base(fam) in ("cat", "multinomial", "poisson"):
        X = X.astype(int)
    want = attempt(outputs, spec, spec.make(**options(spec)), X.copy(), L)
    fit = attempt(trained, spec, spec.make(**options(spec)), X.copy(), L) \
        if spec.base != "custom" else None
    for what, w in (("queries", want), ("fit", fit)):
        if isinstance(w, type):
            acc.fail(f"data/{fam}/{nc}/{impl}/{integer}/{what}", f"contiguous data raise {w}")
    flt = X.dtype.kind == "f"
    variants = [(k, v) for k, v in forms(X, objects=False)]
    for name, V in variants:
        if not flt and name not in LAYOUTS and np.asarray(V).dtype.kind not in "iu" :
            continue         # counts and symbols are integers
        keep = np.array(V, copy=True)
        for what, f, w in (("queries", outputs, want), ("fit", trained, fit)):
            if w is None:
                continue
            key = f"data/{fam}/{nc}/{impl}/{integer}/{name}/{what}"
            acc.count(states=1, transitions=1, traces=1)
            got = attempt(f, spec, spec.make(**options(spec)), V, L)
            if not near(got, w):
                acc.fail(key, f"differs from contiguous doubles: {difference(got, w)}"[:600])
            if not np.array_equal(np.asarray(V), keep):
                acc.fail(key + "/changed", "the data were changed")
    for name, LL in (("tuple", tuple(L)), ("int64", np.array(L)), ("int32", np.array(L, "i4")),
                     ("uint8", np.array(L, "u1")), ("swapped", np.array(L, ">i8")),
                     ("strided", strided(np.array(L)))):
        for what, f, w in (("queries", outputs, want), ("fit", trained, fit)):
            if w is None:
                continue
            acc.count(states=1, transitions=1, traces=1)
            got = attempt(f, spec, spec.make(**options(spec)), X.copy(), LL)
            if not near(got, w):
                acc.fail(f"lengths/{fam}/{nc}/{impl}/{integer}/{name}/{what}",
                         f"differs from a list: {difference(got, w)}"[:600])


def narrow_task(task, acc):
    """Values at the ends of the narrow integer types, and single-precision data
    with a large offset; with and without initialisation."""
    _, fam, impl, t = task
    b = gen.family_base(fam)
    nf = 2
    k = ref.irregular((24, 3), 17)
    lo, hi = (np.iinfo(t).min, np.iinfo(t).max) if t != "f4" else (4000, 4015)
    if t in ("i2", "u2"):
        lo, hi = (0 if lo == 0 else -20000), 20000
    if b == "gauss":
        X = np.floor(lo + k[:, :2] * (hi - lo + .99))
        X[0], X[1] = lo, hi
    elif t == "f4" and b in ("cat", "multinomial"):
        return                               # these families take integers only
    elif b == "cat":
        nf = min(hi, 400) + 1
        X = np.floor(k[:, :1] * nf)
        X[0] = nf - 1
    elif b == "poisson":
        X = np.floor(k[:, :2] * min(hi, 300))
        X[0] = min(hi, 300)
    else:
        nf = 3
        X = np.floor(k * min(hi, 300))
        X[:, 2] = np.floor(2.2 * min(hi, 300)) - X[:, 0] - X[:, 1]
        X = np.abs(np.clip(X, 0, hi))
        X[:, 0] += X.sum(axis=1).max() - X.sum(axis=1)
        if X.max() > hi:
            X = np.floor(k[:, :1] * 0) + [[hi, hi // 2, hi - 1]] * len(X)
    V = X.astype(t)
    W = X.astype(float) if b == "gauss" else X.astype(int)
    assert (V == W).all(), (fam, t)
    L = [10, 14]
    spec = gen.standard(fam, 2, "generic", implementation=impl)
    spec.nf = nf
    if b == "gauss":
        mid = (lo + hi) / 2
        spec.emis["means_"] = mid + spec.emis["means_"] * (hi - lo) / 8
        spec.emis["covars_"] = spec.emis["covars_"] * (hi - lo) ** 2 / 8
    elif b == "poisson":
        spec.emis["lambdas_"] = 40 * np.array([[1., 2.], [3., 1.5]])
    else:
        spec.emis["emissionprob_"] = gen.emission_probs(2, nf)
    if b == "multinomial":
        spec.kwargs["n_trials"] = int(X[0].sum())

    def fresh(m, X):
        return trained(spec, m, X, L)

    def blank():
        return spec.blank(n_iter=1, tol=0, random_state=0)
    jobs = [("fit", lambda X: fresh(spec.make(**options(spec)), X)),
            ("fit-init", lambda X: fresh(blank(), X)),
            ("queries", lambda X: outputs(spec, spec.make(), X, L))]
    for name, f in jobs:
        acc.count(states=1, transitions=1, traces=1)
        want, got = attempt(f, W.copy()), attempt(f, V.copy())
        if isinstance(want, type):
            acc.bump("reference_raises")     # underflow of the scaling implementation
        if not near(got, want, 2e-3 if t == "f4" and name == "fit-init" else 1e-9):
            acc.fail(f"narrow/{fam}/{impl}/{t}/{name}",
                     f"differs from wide types: {difference(got, want)}"[:600])


def round_params(spec):
    """Parameters that are exact in half precision (and sum to one)."""
    def grid(rows):
        r = np.floor(np.asarray(rows) * 64) / 64
        r[..., -1] += 1 - r.sum(axis=-1)
        return r
    new = spec.replace(pi=grid(spec.pi), A=grid(spec.A))
    for k, v in list(new.emis.items()):
        v = np.asarray(v)
        if k in ("emissionprob_", "weights_"):
            new.emis[k] = grid(v)
        elif k == "table_":
            new.emis[k] = np.floor(v * 16) / 16
        else:
            new.emis[k] = np.floor(v * 16 + .5) / 16
    return new


def param_task(task, acc):
    """Forms of each parameter, assigned through the attribute."""
    _, fam, nc, impl = task
    spec = round_params(gen.standard(fam, nc, "generic", implementation=impl))
    X, L = data(spec, False)
    if gen.family_base(fam) in ("cat", "multinomial", "poisson"):
        X = X.astype(int)
    base = spec.make(**options(spec))
    shown = gen.shown(spec, base)
    want = attempt(outputs, spec, base, X, L)
    fit = attempt(trained, spec, spec.make(**options(spec)), X, L) if spec.base != "custom" else None
    for what, w in (("queries", want), ("fit", fit)):
        if isinstance(w, type):
            acc.fail(f"params/{fam}/{nc}/{impl}/{what}", f"contiguous parameters raise {w}")
    for attr, v in shown.items():
        if not isinstance(v, np.ndarray) or v.ndim == 0:
            continue
        for name, V in forms(np.asarray(v, float), objects=False):
            for what, f, w in (("queries", outputs, want), ("fit", trained, fit)):
                if w is None or (what == "fit" and fam.startswith("custom")):
                    continue
                if name == "list" and attr in NO_LIST.get(spec.base, ()):
                    continue
                acc.count(states=1, transitions=1, traces=1)
                m = spec.make(**options(spec))

                def go():
                    setattr(m, attr, V)
                    return f(spec, m, X, L)
                got = attempt(go)
                kind = np.asarray(V).dtype
                if kind.itemsize == 16 and got is TypeError:
                    acc.bump("types_refused")     # by NumPy's linear algebra, SciPy's functions
                    continue
                single = kind.kind == "f" and kind.itemsize < 8
                if not near(got, w, 1e-4 if single else 1e-9):
                    acc.fail(f"params/{fam}/{nc}/{impl}/{attr}/{name}/{what}",
                             f"differs from a contiguous array: {difference(got, w)}"[:600])


# Not parameters that the user sets.
NO_LIST = {"custom": ("table_",), "vcat": ("emissionprob_",)}


def custom_task(task, acc):
    """Emissions of user-defined models in every layout."""
    _, fam, nc, T = task
    spec = gen.standard(fam, nc, "generic", implementation="log")
    cls = gen.custom_class(fam)
    keep = cls.layout
    X = np.arange(T)[:, None] % 3
    for impl in ("log", "scaling"):
        spec.kwargs["implementation"] = impl
        want = attempt(outputs, spec, spec.make(), X, None)
        if isinstance(want, type):
            acc.fail(f"custom/{fam}/{nc}/{T}/{impl}", f"contiguous emissions raise {want}")
        for name, f in LAYOUTS.items():
            if name in ("list",):
                continue
            acc.count(states=1, transitions=1, traces=1)
            cls.layout = staticmethod(f)
            try:
                got = attempt(outputs, spec, spec.make(), X, None)
            finally:
                cls.layout = staticmethod(keep)
            if not near(got, want):
                acc.fail(f"custom/{fam}/{nc}/{T}/{impl}/{name}",
                         f"differs from contiguous emissions: {difference(got, want)}"[:600])


def plain_task(t, acc):
    """The same in the module as it is delivered."""
    from hmmlearn import _hmmc
    {"shapes": shapes_task, "layouts": layouts_task}[t[1]](_hmmc, t[1:], acc, lambda key: None)


def task(t, acc):
    {"plain": plain_task, "shapes": native_process, "layouts": native_process, "data": data_task,
     "params": param_task, "narrow": narrow_task, "custom": custom_task}[t[0]](t, acc)


def run(tier, acc):
    big = tier == "thorough"
    tasks = []
    for name in NAMES:
        xi = name.startswith("compute")
        tasks.append(("shapes", name, 3 if big or not xi else 2, False))
        tasks.append(("shapes", name, 0, True))
        for size in ((1, 1), (1, 3), (4, 1), (3, 2), (4, 3)):
            for integer in (False, True):
                tasks.append(("layouts", name, size, integer, False))
                if big and size in ((3, 2), (4, 3)) and len(NAMES[name]) == 3:
                    tasks.append(("layouts", name, size, integer, True))
    tasks += [("plain", *t) for t in tasks if t[0] == "layouts"]
    for fam in gen.FAMILIES:
        for nc in (1, 2, 3) if big else (2,):
            for impl in ("log", "scaling"):
                for integer in (False, True):
                    tasks.append(("data", fam, nc, impl, integer))
                tasks.append(("params", fam, nc, impl))
                if nc == 2 and not fam.startswith("custom"):
                    tasks += [("narrow", fam, impl, t) for t in ("i1", "u1", "i2", "u2", "f4")]
    for fam in ("custom-log", "custom-lin"):
        for nc in (1, 2, 3):
            for T in (1, 2, 5):
                tasks.append(("custom", fam, nc, T))
    core.explore(task, tasks, acc, timeout=800)
