"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
B, E, H, V = ("src/hmmlearn/base.py", "src/hmmlearn/_emissions.py",
              "src/hmmlearn/hmm.py", "src/hmmlearn/vhmm.py")
S, U, UU, K, X = ("src/hmmlearn/stats.py", "src/hmmlearn/_utils.py",
                  "src/hmmlearn/utils.py", "src/hmmlearn/_kl_divergence.py",
                  "ext/_hmmc.cpp")

# id: title, statement, over, quantifier, why tests cannot, files, mechanisms,
#     technique, level note
P = {}


def p(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    assert id not in P
    P[id] = dict(title=title, statement=statement, over=over, text=text,
                 why=why, files=files, mech=mech, technique=technique,
                 note=note)


ENUM = "explicit-state enumeration of "
REPLAY = ("Every state of the bounded space is replayed on the real code "
          "rebuilt from /repo; trusts the independent reference (extended "
          "precision) and numpy. Nothing is claimed outside the bounds.")

p("C01", "Scores are the exact sequence likelihood",
  "For every model and every observation sequence, the reported log probability "
  "equals the logarithm of the sum, over all hidden state paths, of initial "
  "probability times transition probabilities times emission probabilities, "
  "and is minus infinity exactly when no path is possible. This holds for every "
  "emission family and for both forward-backward implementations; the scaling "
  "one may instead raise an error when probabilities underflow.",
  ["inputs", "configurations"],
  "every model (start, transition and emission parameters, including zeros and "
  "deterministic chains), every observation sequence of every length",
  "tests compare a handful of models with stored constants; no test relates the "
  "score to the sum over all paths, and zeros/deterministic chains are not covered",
  [X, B, E, S],
  [("forward recursions", X), ("per-sequence accumulation", B), ("emission densities", E)],
  ENUM + "all models on probability grids and all observation prefixes; the oracle "
  "enumerates every hidden path", REPLAY)
p("C02", "Posteriors are the exact conditional state probabilities",
  "For every model and every possible observation sequence, the posterior "
  "reported for a time and a state is the total probability of the hidden paths "
  "through that state at that time divided by the probability of the sequence. "
  "Every row is a probability distribution, and the two calls that return "
  "posteriors agree.",
  ["inputs", "configurations"],
  "every model and observation sequence with nonzero probability, both implementations",
  "tests check that rows sum to one and a few stored values, not the conditional "
  "probabilities of arbitrary models",
  [X, B, UU],
  [("forward/backward recursions", X), ("posterior normalisation", B)],
  ENUM + "all models on probability grids and all observation prefixes against the "
  "table of all hidden paths", REPLAY)
p("C03", "Viterbi decoding returns a most probable path and its probability",
  "For every model and observation sequence, Viterbi decoding returns a hidden "
  "path whose joint log probability with the observations is the maximum over "
  "all paths, together with exactly that log probability. The path only uses "
  "states and transitions that the model allows whenever the sequence is possible.",
  ["inputs", "configurations"],
  "every model and observation sequence, including ties and structural zeros",
  "the tests decode a few fixed sequences; optimality over all paths, ties and zero "
  "transitions are not examined",
  [X, B], [("Viterbi recursion and backtracking", X), ("decoder dispatch", B)],
  ENUM + "all models on probability grids and all observation prefixes; optimality "
  "against every hidden path", REPLAY)
p("C04", "MAP decoding returns the individually most probable states",
  "For every model and observation sequence, MAP decoding returns at each time a "
  "state of maximal posterior probability and the sum of those maxima, whether "
  "MAP is chosen at construction or per call. Prediction returns the path of the "
  "decoder that is configured, and the per-call choice takes precedence.",
  ["inputs", "configurations"],
  "every model, observation sequence and combination of constructor and per-call decoder",
  "tests check one sequence per family; the precedence of decoders is not tested",
  [B, X], [("decoder selection", B), ("posterior argmax", B)],
  ENUM + "all models on probability grids and all observation prefixes", REPLAY)
p("C05", "Sequences delimited by lengths are treated independently",
  "Passing several sequences concatenated with their lengths gives the sum of "
  "the log probabilities and the concatenation of the posteriors and paths of the "
  "separate calls, and training depends only on the multiset of sequences. "
  "Omitting the lengths means one single sequence. Lengths that are not "
  "positive or do not add up to the number of samples are rejected.",
  ["inputs"],
  "every way of cutting a data set into sequences, every order of the sequences, every "
  "container for the lengths, every invalid vector of lengths up to a size",
  "tests use one or two fixed splits; transitions leaking across a boundary, dropped "
  "tails or an order dependence only show for particular splits",
  [U, B], [("splitting of the samples", U), ("per-sequence statistics", B)],
  ENUM + "all compositions of a data set and all small integer vectors as lengths, on "
  "every family", REPLAY)
p("C06", "The log and scaling implementations agree or scaling raises",
  "For every model and data set whose relative path probabilities are representable "
  "in double precision, the scaling implementation of the forward-backward algorithm "
  "gives the same scores, posteriors, decodings and trained parameters as the log "
  "implementation up to rounding, or raises an error. Beyond that range it may "
  "disregard paths it cannot represent or raise, but it never returns NaN or "
  "infinities for possible sequences and never overestimates the likelihood.",
  ["inputs", "configurations"],
  "every model, sequence and magnitude of the emission probabilities, including "
  "denormal and overflowing ones",
  "tests run both implementations on benign data; frames whose probabilities span "
  "hundreds of orders of magnitude are not enumerated",
  [X, B], [("scaling factors and underflow checks", X), ("dispatch", B)],
  ENUM + "all frame lattices over a set of extreme log probabilities", REPLAY)
p("C07", "Each training iteration performs the exact EM (MAP) update",
  "After k iterations of training an EM model holds the parameters obtained by k "
  "exact updates: expected start, transition and emission counts over all hidden "
  "paths of all sequences, combined with the configured priors, maximised in "
  "closed form for the emission family and covariance type. The recorded log "
  "likelihood of an iteration is that of the parameters before its update.",
  ["inputs", "configurations", "histories"],
  "every starting model, prior setting, multi-sequence data set and number of iterations",
  "tests only check that the likelihood increases and that some fits approach the "
  "generating parameters, which a slightly wrong update also does",
  [B, E, H, X], [("expected counts", X), ("sufficient statistics", E),
                 ("maximisation", H)],
  ENUM + "all small multi-sequence data sets for each family, prior and chain "
  "structure, k-step traces of the reference update replayed on fit", REPLAY)
p("C08", "Training never decreases its objective",
  "Along every training run the (penalised) log likelihood, or the variational "
  "lower bound, never decreases by more than rounding from one iteration to the next. "
  "The values recorded by the monitor are the log likelihoods (lower bounds) of the "
  "successive parameter sets.",
  ["inputs", "histories", "configurations"],
  "every starting model, data set, prior setting and number of iterations",
  "tests check monotonicity on a few simulated data sets with default priors",
  [B, H, V], [("update order and recording", B), ("M-steps", H), ("lower bounds", V)],
  ENUM + "all small data sets from many starting points; the objective is recomputed "
  "independently at every state of the training trace", REPLAY)
p("C09", "Only the selected parameters are initialised or updated",
  "Training changes exactly the parameter groups selected for updating and leaves "
  "every other group bit for bit as it was, and selecting fewer groups does not "
  "change the update computed for the others in that iteration. Initialisation overwrites "
  "the groups selected for initialisation and those not yet set, and nothing else.",
  ["configurations"],
  "every subset of updated groups x every subset of initialised groups x which "
  "attributes are preset, for every family",
  "tests exercise two or three subsets of the parameters for some families",
  [B, H, V], [("params / init_params tests", B), ("per-family M-steps", H),
              ("per-family initialisation", V)],
  ENUM + "all subsets of updated, initialised and preset parameters", REPLAY)
p("C10", "Training keeps forbidden transitions and yields valid models",
  "States and transitions with probability zero keep probability zero through any "
  "training run of an EM model. After every run in which each state is visited and "
  "left with positive probability, all "
  "probabilities are in [0, 1] with rows summing to one, rates are positive and "
  "covariances symmetric positive definite in the documented shape, so that the "
  "model can be scored, decoded and sampled.",
  ["configurations", "inputs"],
  "every zero pattern of the start and transition probabilities and every small data set",
  "tests check one left-right model",
  [B, H, V], [("zero masks in the M-step", B), ("normalisation", UU), ("covariance updates", H)],
  ENUM + "all zero patterns of the chain and all small data sets", REPLAY)
p("C11", "Training stops exactly by the documented convergence rule",
  "Training performs update after update until the gain in its objective is below "
  "the tolerance or the maximum number of iterations is reached, whichever comes "
  "first, and performs the update before testing. The history and iteration count "
  "record exactly the run that was made, training again starts a fresh history, "
  "and a user-supplied monitor is obeyed.",
  ["histories", "configurations"],
  "every sequence of objective values (gains above, at, below tolerance, negative, "
  "infinite, NaN) up to a length, every limit and tolerance",
  "tests feed two or three scripted histories to the monitor alone",
  [B], [("fit loop", B), ("convergence monitor", B)],
  "explicit-state exploration of the training loop: all scripted objective histories "
  "up to a depth drive the real fit", REPLAY)
p("C12", "Sampling follows the model's distribution",
  "The initial state, every next state and every observation are drawn from "
  "exactly the start, transition and emission distributions of the model, each "
  "conditional only on the current state; a given current state, including state "
  "0, is used as the first state. A state, transition or symbol of probability "
  "zero is never produced, whatever the random numbers.",
  ["schedules", "inputs", "configurations"],
  "every sequence of random numbers (the generator is the adversary), every model",
  "tests sample with a few seeds and compare loosely; boundary random numbers "
  "occur with probability near zero",
  [B, E], [("inverse-CDF state draws", B), ("emission draws", E)],
  "exhaustive exploration of the random-number tree: a scripted generator branches at "
  "every draw over all cells of the CDF and their boundaries", REPLAY)
p("C13", "Results are determined by the seed",
  "Training and sampling with the same integer seed (0 included) or with "
  "generators in the same state give bit-identical results, neither reads nor "
  "changes the global random state, and a generator passed in is the one that is "
  "consumed. Training does not replace the configured random state.",
  ["histories", "configurations"],
  "every interleaving of reseeding, fits and samples up to a depth, every family",
  "tests fix seeds but never perturb the global generator between runs",
  [B, E, H, V], [("random state resolution", B), ("initialisation draws", H)],
  "explicit-state exploration of operation sequences (perturb global state, fit, sample) "
  "on all families", REPLAY)
p("C14", "The caller's data is never modified",
  "No operation writes to the arrays it is given: observations, lengths and "
  "parameter arrays passed by the caller are bit-identical afterwards, read-only "
  "arrays are accepted, and later changes of the caller's data do not alter a "
  "trained model.",
  ["inputs", "configurations"],
  "every operation x argument x array layout x family",
  "tests hardly ever look at their inputs after the call",
  [B, E, H, V, U, UU], [("copies in normalisation", UU), ("statistics", E)],
  ENUM + "operation x argument x layout with write-protected inputs", REPLAY)
p("C15", "Queries have no side effects and no memory",
  "Scoring, decoding, predicting, sampling and the information criteria leave the "
  "model's parameters unchanged, and their result depends only on the current "
  "parameters and the arguments, not on which calls came before. Changing a "
  "parameter, by assignment or in place, takes effect at the next call.",
  ["histories"],
  "every sequence of queries and parameter changes up to a depth, every family",
  "tests call each query once on a fresh model; caches and stale derived state only "
  "show in sequences",
  [B, E, H, V], [("attribute validation", B), ("covariance storage", E)],
  "explicit-state search over operation sequences; each result is compared with that of "
  "a fresh model with the same parameters", REPLAY)
p("C16", "Renaming states or symbols only renames the results",
  "Permuting the states of a model permutes posteriors, paths and trained parameters "
  "and leaves scores unchanged; permuting the symbols or features together with "
  "the emission parameters changes nothing. No state, mixture component, feature or "
  "symbol is treated specially.",
  ["configurations"],
  "every permutation of states, mixture components, features and symbols",
  "no test permutes anything",
  [B, E, H, V, X], [("loops over states and features", X), ("statistics", E)],
  ENUM + "all permutations for every family, model and small data set", REPLAY)
p("C17", "Variational training performs the exact update and bound",
  "Each variational iteration sets the posterior hyperparameters to the prior plus "
  "the expected counts under the current variational distribution, and the recorded "
  "value is the evidence lower bound of that distribution. The bound never decreases "
  "and never exceeds the exact log evidence, and after training the point estimates are the "
  "posterior means.",
  ["inputs", "configurations", "histories"],
  "every data set, prior, starting posterior and number of iterations",
  "tests compare with stored numbers of one example and check monotonicity there",
  [V, K, B], [("sub-normalised parameters", V), ("lower bound", V), ("divergences", K)],
  ENUM + "all small data sets x priors x starts; the oracle enumerates all hidden paths",
  REPLAY)
p("C18", "The divergences are the exact Kullback-Leibler divergences",
  "The divergence between two normal, gamma, Dirichlet, Wishart or multivariate "
  "normal distributions equals the integral definition: nonnegative, zero for equal "
  "distributions, additive over independent factors and equal across the special "
  "cases that coincide.",
  ["inputs"], "every pair of parameter values on a grid, every dimension up to 3",
  "tests check positivity and a few values",
  [K], [("closed forms", K)],
  ENUM + "all pairs of parameters on grids against independent closed forms and "
  "quadrature", REPLAY)
p("C19", "Emission densities are the exact densities of the family",
  "For every state and observation the emission log density is that of the "
  "documented distribution with the parameters shown to the user, including zero "
  "probabilities, zero counts and far tails. Equal covariances expressed in the "
  "spherical, diagonal, full or tied form give equal results.",
  ["inputs", "configurations"],
  "every family, covariance type, dimension and observation on a grid",
  "tests compare a few random points with scipy",
  [S, E, H], [("Gaussian log densities", S), ("mass functions", E)],
  ENUM + "parameter and observation grids for every family", REPLAY)
p("C20", "Invalid models and data are rejected",
  "Every operation raises an error when the model is not trained, when "
  "probabilities are negative or do not sum to one, when shapes are inconsistent, "
  "when covariances are not symmetric or have negative eigenvalues, when options are unknown, or when "
  "the data has the wrong number of features, values outside the emission's "
  "domain or NaN. It never returns a number for such input; counts outside the "
  "domain may also be scored as impossible.",
  ["inputs", "configurations"],
  "every single-field corruption of a valid model or data set x every operation x family",
  "tests try a few corruptions on a few families",
  [B, E, H, V, U], [("validation", B), ("domain checks", E)],
  ENUM + "single-field corruptions x operations x families", REPLAY)
p("C21", "Concurrent queries on one model do not interfere",
  "Scoring, decoding and predicting with the same model from several threads at "
  "the same time gives every thread the result it would get alone, whatever the "
  "interleaving, and leaves the parameters unchanged. The same holds "
  "for the native recursions, which run without the interpreter lock, and for queries "
  "that overlap with the training of another model.",
  ["schedules"], "every interleaving up to a preemption bound",
  "no test starts a thread",
  [X, B], [("lock release in the native recursions", X), ("validation writes", B)],
  "stateless model checking of the real code under a controlled scheduler", REPLAY)
p("C22", "Memory layout does not matter and native code is memory safe",
  "Fortran-ordered, strided, offset, reversed, read-only, non-native and integer inputs "
  "give the same results as contiguous double arrays with equal values, whatever the width "
  "of the integers; single-precision data do too, and single-precision parameters and "
  "initialisation to single precision. No input shape makes the native code read or write outside its arrays; "
  "inconsistent shapes raise an error.",
  ["inputs", "configurations"],
  "every layout of every argument x shape up to a size, including empty ones",
  "tests pass contiguous double arrays",
  [X, B], [("array conversion in the native module", X), ("input checks", B)],
  ENUM + "layouts and shapes for every argument, under AddressSanitizer", REPLAY)
p("C23", "Information criteria count the free parameters",
  "The Akaike and Bayesian criteria equal minus twice the log likelihood plus two, "
  "respectively the logarithm of the number of samples, times the number of free "
  "parameters of the family and covariance type: probabilities lose one degree of "
  "freedom per distribution, symmetric matrices count once per entry pair.",
  ["configurations"], "every family, covariance type and size",
  "tests check a few sizes against constants",
  [B, E, H], [("parameter counts", E), ("criteria", B)],
  ENUM + "all sizes; the oracle counts the dimensions of the parameter space", REPLAY)
p("C24", "The stationary distribution is stationary",
  "For every transition matrix the stationary distribution returned is a "
  "probability distribution that the transition matrix leaves unchanged; it is "
  "unique and matched exactly for irreducible chains, periodic ones included.",
  ["inputs"], "every transition matrix on a probability grid",
  "one example is tested", [B], [("eigenvector computation", B)],
  ENUM + "all stochastic matrices on a grid, exact rational oracle", REPLAY)
p("C25", "Models survive copying, pickling and parameter round trips",
  "A pickled, deep-copied or re-assembled model gives bit-identical results to the "
  "original and shares no mutable state with it. Cloning keeps every "
  "constructor option, assigning the parameters a model shows to another model "
  "reproduces it, and training leaves the options as they were (except a number of "
  "symbols or trials left to be learnt), so that a model trained again equals a new one.",
  ["histories", "configurations"],
  "every family x copy method x later operation sequence",
  "tests pickle an untrained model of each family",
  [B, E, H, V], [("attributes as state", B), ("covariance property", E)],
  "explicit-state exploration of copy / mutate / query sequences", REPLAY)


p("C26", "Training from scratch starts at a valid point for every data set",
  "Training a new model on any data set of the emission's domain (for Gaussian "
  "emissions with at least two samples and as many as states) starts at valid "
  "parameters: distributions are nonnegative and sum to one, every observed symbol or "
  "count is possible, Gaussian means are k-means centres of the data and the covariances "
  "in every form are the data's plus the configured floor, mixture weights are equal, "
  "and variational posteriors hold at least the counts of their priors. Training then "
  "succeeds and leaves finite parameters that score the training data finitely, unless a "
  "state is never left. Every documented scalar, list or array form of a prior trains "
  "the same model.",
  ["inputs", "configurations"],
  "every data set (constant, duplicated, rare events, many symbols, single samples) x "
  "family x number of states and components x seed x options",
  "tests train each family on a few well-behaved generated data sets",
  [B, H, V, U], [("per-family initialisation", H), ("variational initialisation", V),
                 ("covariance templates", U)],
  "explicit-state enumeration of small data sets, with the real initialisation and first "
  "updates judged on each one",
  "Every state of the bounded space is replayed on the real code rebuilt from /repo; "
  "k-means is judged by its fixed-point condition. Nothing is claimed outside the bounds.")


def main():
    have = {f.stem.upper() for f in (ROOT / "mc/checks").glob("c*.py")}
    with open(ROOT / "properties.jsonl", "w") as f:
        for id, d in sorted(P.items()):
            f.write(json.dumps({
                "id": id, "title": d["title"], "statement": d["statement"],
                "quantifier": {"over": d["over"], "text": d["text"]},
                "why_tests_cant": d["why"],
                "anchors": {"files": d["files"],
                            "mechanism": [{"name": n, "where": w}
                                          for n, w in d["mech"]]}}) + "\n")
    checks, na = [], []
    for id, d in sorted(P.items()):
        if id in have:
            checks.append({
                "property": id,
                "quick_cmd": f"./check.sh {id} --tier quick",
                "thorough_cmd": f"./check.sh {id} --tier thorough",
                "technique": d["technique"], "level": "model_checking",
                "level_note": d["note"]})
        else:
            na.append({"property": id, "reason": "the check is not built yet"})
    (ROOT / "MANIFEST.json").write_text(json.dumps({
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -m compileall -q mc",
        "checks": checks, "not_applicable": na,
        "notes": "No hooks in /repo are needed: every check copies the working "
                 "tree's sources to a scratch directory, builds them there and "
                 "drives the public API (and the native module's functions)."},
        indent=1) + "\n")


main()
