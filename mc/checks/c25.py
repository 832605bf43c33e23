"""C25: models survive copying, pickling and parameter round trips.

Explicit-state exploration of copy / mutate / query / train sequences on pairs
(original, copy) of real models; the model of the system is two independent
parameter sets."""

import copy
import itertools
import pickle

import numpy as np
from sklearn.base import clone

from .. import core, gen

LEVEL = "model_checking"
BOUNDS = {
    "quick": "15 families, 2 states: 10 ways of copying x {assigned, trained} models x all sequences "
             "of 2 operations out of 8 (mutations of either side in place or assigned, training "
             "either side, queries), then all queries on both; all constructor options of every "
             "class with several values, through clone, pickle, get/set_params and repeated training",
    "thorough": "the same with 1-3 states, all chain structures and sequences of 3 operations",
}
ASSUMPTIONS = [
    "copy.copy is documented by Python to share attributes and is excluded.",
    "clone copies constructor options only (scikit-learn contract).",
]


def datasets(spec):
    alpha = gen.alphabet(spec.fam, spec.nf)
    seq = [0, 1, 2, 1, 0, 2, 2, 0, 1, 1, 2, 0]
    X = gen.rows(alpha, seq)
    if gen.family_base(spec.fam) == "gauss":
        X = X + .05 * np.arange(len(X))[:, None] * np.arange(1, spec.nf + 1)
    return X, [5, 7]


def reassemble(spec, m):
    """Assign the parameters m shows to a new model with the same options."""
    new = gen.rebuild(spec, gen.shown(spec, m))
    new.set_params(**m.get_params())
    return new


def transfer(spec, m):
    """Assign the very arrays the model holds to a new model."""
    new = spec.blank()
    names = gen.shown(spec, m)
    for k in sorted(names, key=lambda k: k != "n_features"):
        v = getattr(m, k)
        if k == "covars_" and spec.base in ("gauss", "vgauss"):
            v = names[k] if spec.cov != "full" else v
        setattr(new, k, v)
    new.set_params(**m.get_params())
    return new


WAYS = {f"pickle{p}": (lambda spec, m, p=p: pickle.loads(pickle.dumps(m, protocol=p)))
        for p in range(pickle.HIGHEST_PROTOCOL + 1)}
WAYS["deepcopy"] = lambda spec, m: copy.deepcopy(m)
WAYS["reassemble"] = reassemble
WAYS["reassemble-direct"] = transfer
WAYS["pickle-of-copy"] = lambda spec, m: pickle.loads(pickle.dumps(copy.deepcopy(m)))


def results(spec, m, X, L):
    out = [m.score(X, L), m.score_samples(X, L), m.decode(X, L, algorithm="viterbi"),
           m.decode(X, L, algorithm="map"), m.predict(X, L), m.predict_proba(X, L),
           m.sample(4, random_state=3)]
    if hasattr(m, "aic"):
        out += [m.aic(X, L), m.bic(X, L)]
    return out


def params(spec, m):
    p = gen.shown(spec, m)
    return {k: p[k] for k in sorted(p)}


def history(m):
    mon = getattr(m, "monitor_", None)
    return None if mon is None else (list(mon.history), mon.iter, mon.n_iter, mon.tol)


def roll(m, name, inplace):
    a = np.roll(getattr(m, name), 1, axis=0)
    if inplace:
        getattr(m, name)[...] = a
    else:
        setattr(m, name, a)


MAIN = {"cat": "emissionprob_", "multinomial": "emissionprob_", "vcat": "emissionprob_",
        "poisson": "lambdas_", "gauss": "means_", "gmm": "means_", "vgauss": "means_posterior_"}


def mutate_all(spec, m):
    """Write to every array reachable from the model."""
    seen = set()

    def walk(o, depth=0):
        if id(o) in seen or depth > 4:
            return
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            try:
                o.flags.writeable = True
            except ValueError:
                return
            if o.dtype.kind in "fiu":
                o[...] = 0
        elif isinstance(o, np.random.RandomState):
            o.rand(3)
        elif isinstance(o, dict):
            for v in list(o.values()):
                walk(v, depth + 1)
        elif isinstance(o, (list, tuple)) or type(o).__name__ == "deque":
            for v in list(o):
                walk(v, depth + 1)
            if hasattr(o, "append"):
                o.append(-1.)
        elif hasattr(o, "__dict__"):
            walk(vars(o), depth + 1)
    walk(m)


def op_table(spec, X, L):
    def fit(m):
        m.set_params(init_params="")
        m.fit(X, L)

    def refit(m):
        m.fit(X, L)
    def covars(m):
        m.covars_[...] *= 1.5
    out = {} if spec.base != "gauss" else {"covars[]=": covars}
    return out | {
        "transmat[]=": lambda m: roll(m, "transmat_", True),
        "startprob=": lambda m: roll(m, "startprob_", False),
        "emission[]=": lambda m: roll(m, MAIN[spec.base], True),
        "fit": fit,
        "refit": refit,
        "query": lambda m: results(spec, m, X, L),
    }


def t_pairs(task, acc):
    fam, impl, nc, chain, depth, ways = task
    spec = gen.standard(fam, nc, chain, implementation=impl)
    X, L = datasets(spec)
    ops = op_table(spec, X, L)

    def original(kind):
        if kind == "assigned":
            return spec.make(n_iter=2, tol=0, random_state=np.random.RandomState(4))
        m = spec.blank(n_iter=2, tol=0, random_state=np.random.RandomState(4))
        return m.fit(X, L)

    def run_op(name, m):
        try:
            ops[name](m)
            return None
        except Exception as e:
            return type(e).__name__
    # Reference: what a history of operations does to a model that has no
    # copies.
    for kind in ("assigned", "trained"):
        memo = {}

        def alone(hist):
            if hist not in memo:
                m = original(kind)
                errs = [run_op(n, m) for n in hist]
                try:
                    res = results(spec, m, X, L)
                except Exception as e:
                    res = type(e).__name__
                memo[hist] = (errs, params(spec, m), res,
                              history(m) if kind == "trained" or "fit" in hist
                              or "refit" in hist else None)
            return memo[hist]
        base = original(kind)
        for way in ways:
            key0 = f"{fam}/{impl}/nc={nc}/{chain}/{kind}/{way}"
            m = original(kind)
            try:
                c = WAYS[way](spec, m)
            except Exception as e:
                acc.fail(key0, f"{way} of a {kind} model raised {e!r}", model=spec.label())
                continue
            acc.count(states=1, transitions=1, traces=1)
            if not gen.same(params(spec, m), params(spec, c)):
                acc.fail(key0 + "/params", f"{way} changes the parameters", model=spec.label())
            if not way.startswith("reassemble") and history(m) != history(c):
                acc.fail(key0 + "/history", f"{way} loses the training history")
            if not gen.same(opts(m), opts(c)):
                acc.fail(key0 + "/options", f"{way} changes the options")
            # Nothing reachable from the one may be reachable from the other.
            m = original(kind)
            c = WAYS[way](spec, m)
            if not way.startswith("reassemble"):
                before, hb = params(spec, c), history(c)
                mutate_all(spec, m)
                if not gen.same(before, params(spec, c)) or history(c) != hb:
                    acc.fail(key0 + "/shared", f"a {way} shares state with the original",
                             model=spec.label())
            moves = [(side, n) for side in "oc" for n in ops if n != "query"] + [("b", "query")]
            if way == "reassemble-direct":
                # Plain attributes refer to the array assigned to them; the
                # covariances of GaussianHMM are copied.
                moves = [(s, n) for s, n in moves if "[]" not in n or n == "covars[]="]
            for hist in itertools.product(moves, repeat=depth):
                acc.count(states=1, transitions=depth, traces=1)
                m = original(kind)
                c = WAYS[way](spec, m)
                if way.startswith("reassemble"):
                    c.random_state = copy.deepcopy(m.random_state)
                ho, hc = (), ()
                for side, n in hist:
                    if side in "ob":
                        run_op(n, m)
                        ho += (n,)
                    if side in "cb":
                        run_op(n, c)
                        hc += (n,)
                for who, x, h in (("original", m, ho), ("copy", c, hc)):
                    errs, p, res, hi = alone(h)
                    try:
                        r = results(spec, x, X, L)
                    except Exception as e:
                        r = type(e).__name__
                    k = f"{key0}/{'>'.join(s + n for s, n in hist)}/{who}"
                    if not gen.same(p, params(spec, x)):
                        acc.fail(k, f"the {who} has other parameters than a model with its "
                                 f"history {h} alone", model=spec.label())
                    elif not gen.same(r, res):
                        acc.fail(k + "/results", f"the {who} gives other results than a model "
                                 f"with its history {h} alone", model=spec.label())
                    if hi is not None and (not way.startswith("reassemble") or "fit" in h
                                           or "refit" in h) and history(x) != hi:
                        acc.fail(k + "/history", f"the {who} has another training history: "
                                 f"{history(x)} instead of {hi}")
    acc.sample(dict(family=fam, impl=impl, depth=depth, ways=list(ways)))


def opts(m):
    out = {}
    for k, v in sorted(m.get_params().items()):
        if isinstance(v, np.random.RandomState):
            v = v.get_state()[1]
        out[k] = v
    return out


# ------------------------------------------------------- constructor options

# Left at None, these options are documented to be learnt from the data.
LEARNT = ("n_features", "n_trials")


def option_values(spec):
    nc, nf, nm = spec.nc, spec.nf, spec.n_mix
    rs = np.random.RandomState(5)
    v = {"random_state": [None, 0, 7], "n_iter": [1, 3], "tol": [0.5, -np.inf, 1e-3],
         "verbose": [False], "params": ["st", ""], "init_params": ["s", ""],
         "implementation": ["log", "scaling"], "algorithm": ["viterbi", "map"],
         "startprob_prior": [1.0, 2.0, np.full(nc, 1.5)],
         "transmat_prior": [1.0, 2.0, np.full((nc, nc), 1.5)]}
    b = spec.base
    if b == "cat":
        v["emissionprob_prior"] = [1.0, 2.0]
        v["n_features"] = [None, nf]
    if b == "multinomial":
        v["n_trials"] = [None, 3]
    if b == "poisson":
        v["lambdas_prior"] = [0.0, .5]
        v["lambdas_weight"] = [0.0, .5]
    if b in ("gauss", "gmm", "vgauss"):
        v["min_covar"] = [1e-3, 1e-2]
        v["covariance_type"] = list(gen.COVS)
        v["means_prior"] = [0, .5]
        v["means_weight"] = [0, .5]
        v["covars_prior"] = [1e-2, .5]
        v["covars_weight"] = [1, 2.]
    if b == "gmm":
        v["n_mix"] = [1, 3]
        v["weights_prior"] = [1.0, 2.0]
        v["covars_prior"] = [None, .5]
        v["covars_weight"] = [None, 2.]
    if b == "vgauss":
        v["means_prior"] = [None, np.full((nc, nf), .5)]
        v["beta_prior"] = [None, np.full(nc, .5)]
        v["dof_prior"] = [None, np.full(nc, nf + 1.5) if spec.cov != "tied" else nf + 1.5]
        v["scale_prior"] = [None, {"spherical": np.full(nc, .5), "diag": np.full((nc, nf), .5),
                                   "full": np.array([np.eye(nf)] * nc),
                                   "tied": np.eye(nf)}[spec.cov]]
    if b[0] == "v":
        v["startprob_prior"] = [None, np.full(nc, .5)]
        v["transmat_prior"] = [None, np.full((nc, nc), .5)]
    if b == "vcat":
        v["emissionprob_prior"] = [None, .5]
        v["n_features"] = [None, nf]
    known = spec.blank().get_params()
    return {k: x for k, x in v.items() if k in known}, known


def t_options(task, acc):
    fam, impl, nc, chain, depth, ways = task
    spec = gen.standard(fam, nc, chain, implementation=impl)
    X, L = datasets(spec)
    vals, known = option_values(spec)

    def base(**kw):
        kw = dict(dict(n_iter=1, random_state=0), **kw)
        if spec.base in ("gauss", "gmm", "vgauss"):
            kw.setdefault("covariance_type", spec.cov)
        if spec.base == "multinomial":
            kw.setdefault("n_trials", 3)
        return spec.cls()(nc, **kw)

    def norm(v):
        return v if v is None or isinstance(v, str) else np.asarray(v)

    for name in sorted(vals):
        for val in vals[name]:
            acc.count(states=1)
            key = f"{fam}/{impl}/option {name}={str(val)[:30]!r}"

            def check(m, how, val=val, name=name, key=key):
                acc.count(transitions=1, traces=1)
                got = m.get_params()[name]
                if not gen.same(norm(got), norm(val)) \
                        or not gen.same(norm(getattr(m, name)), norm(val)):
                    acc.fail(f"{key}/{how}", f"{how}: option {name} is {got!r} instead of {val!r}")
                    return False
                return True
            m = base(**{name: val})
            if not check(m, "constructor"):
                continue
            check(clone(m), "clone")
            check(pickle.loads(pickle.dumps(m)), "pickle")
            check(copy.deepcopy(m), "deepcopy")
            check(base().set_params(**{name: val}), "set_params")
            check(spec.cls()(**m.get_params()), "rebuild")
            others = {k: v for k, v in opts(m).items() if k != name}
            for how, x in (("clone", clone(m)), ("set_params", base().set_params(**{name: val}))):
                if not gen.same(others, {k: v for k, v in opts(x).items() if k != name}):
                    acc.fail(f"{key}/{how}/others", f"{how} with {name} changed other options")
            # Training does not change the options, and can be repeated.
            p0 = opts(m)
            trained = None
            try:
                m.fit(X, L)
                trained = m
            except Exception:
                pass    # e.g. an option that leaves parameters unset
            if trained is not None:
                for k, v in opts(m).items():
                    acc.count(transitions=1)
                    if k in LEARNT and p0[k] is None:
                        continue
                    if not gen.same(v, p0[k]):
                        acc.fail(f"{fam.split('-')[0]}/{name}={str(val)[:20]}/fit changes {k}",
                                 f"training changed the option {k} from {p0[k]!r} to {v!r}")
                c = clone(m)
                if not gen.same(opts(c), opts(m)):
                    acc.fail(f"{key}/clone of trained", "clone of a trained model differs")
                else:
                    ref_m = base(**{name: val}).fit(X, L)
                    if val is not None or name != "random_state":
                        c.fit(X, L)
                        acc.count(transitions=1, traces=1)
                        if not gen.same(params(spec_of(spec, c), ref_m),
                                        params(spec_of(spec, c), c)):
                            acc.fail(f"{key}/clone fit", "a clone trains differently")


def spec_of(spec, m):
    if hasattr(m, "covariance_type"):
        s = copy.copy(spec)
        s.cov = m.covariance_type
        return s
    return spec


def t_reconfigure(task, acc):
    """A trained model that is reconfigured and trained again gives what a new
    model with that configuration gives."""
    fam, impl, nc, chain, depth, ways = task
    spec = gen.standard(fam, nc, chain, implementation=impl)
    X, L = datasets(spec)
    vals, known = option_values(spec)
    changes = {"n_components": [nc + 1, max(nc - 1, 1)]}
    for k in ("n_mix", "covariance_type", "implementation", "startprob_prior"):
        if k in known:
            changes[k] = vals.get(k, [])

    def base():
        return spec.blank(n_iter=2, tol=0, random_state=0)
    for (k1, vs) in changes.items():
        for v in vs:
            if np.ndim(v):
                continue
            acc.count(states=1, transitions=2, traces=1)
            key = f"{fam}/{impl}/reconfigure {k1}={v}"
            fresh = base().set_params(**{k1: v})
            s = spec_of(spec, fresh)
            try:
                fresh.fit(X, L)
            except Exception:
                continue
            m = base().fit(X, L)
            m.score(X, L)
            m.set_params(**{k1: v})
            try:
                m.fit(X, L)
            except Exception as e:
                acc.fail(key, f"training again after set_params({k1}={v!r}) raised {e!r}")
                continue
            if not gen.same(params(s, m), params(s, fresh)):
                acc.fail(key, f"training again after set_params({k1}={v!r}) differs from "
                         "training a new model")


def t_other_data(task, acc):
    """A trained model that is trained on other data gives what a new model
    gives (all parameters are initialised again)."""
    fam, impl, nc, chain, depth, ways = task
    spec = gen.standard(fam, nc, chain, implementation=impl)
    X, L = datasets(spec)
    for kw in ({}, {"n_trials": None}) if spec.base == "multinomial" else ({},):
        for name, (X2, L2) in {"reversed": (X[::-1], L[::-1]), "longer": (
                np.concatenate([X, X]), L + L), "shorter": (X[:8], [3, 5])}.items():
            acc.count(states=1, transitions=2, traces=1)
            m = spec.blank(n_iter=2, tol=0, random_state=0, **kw).fit(X, L)
            fresh = spec.blank(n_iter=2, tol=0, random_state=0, **kw).fit(X2, L2)
            key = f"{fam}/refit {name} {kw}"
            try:
                m.fit(X2, L2)
            except Exception as e:
                acc.fail(key, f"training again on {name} data raised {e!r}")
                continue
            if not gen.same(params(spec, m), params(spec, fresh)):
                acc.fail(key, f"training again on {name} data differs from training a new model")


def run(tier, acc):
    cfg = [(2, "generic")] if tier == "quick" else \
        [(1, "generic")] + [(n, c) for n in (2, 3) for c, _, _ in gen.chains(n)]
    fams = [f for f in gen.FAMILIES if not f.startswith("custom")]
    tasks = []
    for f in fams:
        for impl in ("log", "scaling"):
            for nc, ch in cfg:
                if tier == "quick":
                    if impl == "log":
                        tasks += [(f, impl, nc, ch, 2, (w,)) for w in (
                            "pickle5", "deepcopy", "reassemble")]
                    tasks.append((f, impl, nc, ch, 1, tuple(WAYS)))
                else:
                    for w in WAYS:
                        tasks.append((f, impl, nc, ch, 3 if (nc, ch) == (2, "generic") else 2, (w,)))
    core.explore(t_pairs, tasks, acc, timeout=1800)
    small = sorted({t[:4] for t in tasks})
    core.explore(t_options, [t + (1, ()) for t in small], acc, timeout=600)
    core.explore(t_other_data, [t + (1, ()) for t in small], acc, timeout=600)
    core.explore(t_reconfigure, [t + (1, ()) for t in small], acc, timeout=600)
