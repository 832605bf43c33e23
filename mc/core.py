"""Runner shared by all checks: parallel exhaustive exploration, known
findings, replay artefacts and evidence files."""

import argparse
import importlib
import json
import logging
import os
import pathlib
import pickle
import select
import signal
import sys
import time
import traceback
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
NPROC = int(os.environ.get("MC_NPROC", "8"))


class Acc:
    """What one task covered and found.

    states       distinct model states (configurations / prefixes / nodes)
    transitions  transitions of the model explored (edges)
    traces       model traces replayed on the real code and compared
    """

    MAXV = 5
    MAXS = 3

    def __init__(self):
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []
        self.nviol = 0
        self.extra = {}

    def count(self, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces

    def bump(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def sample(self, obj):
        if len(self.samples) < self.MAXS:
            self.samples.append(obj)

    def fail(self, key, what, **data):
        """Record a violation.  *key* names the specific input/history."""
        self.nviol += 1
        if sum(v["key"] == key for v in self.violations) == 0 \
                and len(self.violations) < 200:
            self.violations.append(
                {"key": key, "what": what, "data": jsonable(data)})

    def merge(self, other):
        self.count(other.states, other.transitions, other.traces)
        self.nviol += other.nviol
        self.violations += other.violations
        if len(self.samples) < 8:
            self.samples += other.samples[:2]
        for k, v in other.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v


def jsonable(o):
    import numpy as np
    from fractions import Fraction
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.longdouble, np.floating)):
        return float(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, Fraction):
        return str(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


# ---------------------------------------------------------------- workers

def _child(func, task, wfd):
    try:
        logging.disable(logging.CRITICAL)
        warnings.simplefilter("ignore")
        import numpy as np
        np.seterr(all="ignore")
        acc = Acc()
        try:
            func(task, acc)
        except Exception:
            # The harness guards every call that may legitimately raise, so
            # this is an answer the property does not allow.
            acc.fail("exception:" + repr(task)[:200],
                     "unexpected exception: "
                     + traceback.format_exc(limit=-6)[-1500:])
        acc.violations = acc.violations[:int(os.environ.get("MC_SHOW", "40"))]
        data = pickle.dumps(acc)
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
        os._exit(0)
    except BaseException:
        traceback.print_exc()
        os._exit(77)


def explore(func, tasks, acc, *, timeout=300, nproc=None, progress=False):
    """Run func(task, acc) for every task, one process per task."""
    nproc = nproc or NPROC
    tasks = list(tasks)
    pending = list(reversed(tasks))
    running = {}  # rfd -> (pid, task, chunks, start)
    done = 0
    sys.stdout.flush()
    sys.stderr.flush()
    while pending or running:
        while pending and len(running) < nproc:
            task = pending.pop()
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                for r in running:
                    os.close(r)
                _child(func, task, wfd)
            os.close(wfd)
            running[rfd] = (pid, task, [], time.time())
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for rfd in ready:
            buf = os.read(rfd, 1 << 20)
            pid, task, chunks, start = running[rfd]
            if buf:
                chunks.append(buf)
                continue
            os.close(rfd)
            del running[rfd]
            _, status = os.waitpid(pid, 0)
            done += 1
            if status == 0 and chunks:
                acc.merge(pickle.loads(b"".join(chunks)))
            else:
                sig = status & 0x7f
                acc.fail(f"crash:{task!r}"[:300],
                         f"the process running the code died "
                         f"({'signal %d' % sig if sig else 'status %d' % (status >> 8)})",
                         task=task)
            if progress and done % 50 == 0:
                print(f"  {done}/{len(tasks)}", file=sys.stderr)
        now = time.time()
        for rfd, (pid, task, chunks, start) in list(running.items()):
            if now - start > timeout:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(rfd)
                del running[rfd]
                acc.fail(f"hang:{task!r}"[:300],
                         f"no answer within {timeout}s", task=task)


# ------------------------------------------------------- known findings

def load_known(prop):
    """Lines 'known: property=<id> key=<key> | <text>' of known_findings.txt."""
    known = {}
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("known: "):
                head, _, text = line[len("known: "):].partition(" | ")
                fields = dict(f.split("=", 1) for f in head.split(" ", 1))
                if fields["property"] == prop:
                    known[fields["key"]] = text
    return known


# ------------------------------------------------------------------ main

def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    args = ap.parse_args(argv)
    t0 = time.time()
    # Nothing may depend on the scheduling of BLAS threads.
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    from . import stage
    if not args.replay:
        # Stale evidence must not survive a run that fails to complete.
        (VERIF / "evidence" / f"{args.prop}.json").unlink(missing_ok=True)
    scratch = stage.make_scratch()
    try:
        src = stage.stage(scratch)
    except stage.BuildError as exc:
        print("the working tree does not build:\n" + str(exc))
        return 2
    stage.import_staged(src)
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    mod = importlib.import_module(f".checks.{args.prop.lower()}", __package__)
    acc = Acc()
    if hasattr(mod, "prepare"):
        mod.prepare(scratch, args.tier)
    if args.replay:
        rep = json.loads(pathlib.Path(args.replay).read_text())
        print("replaying", rep["key"])
    # The RNG seed given by the environment is irrelevant: every space is
    # enumerated completely, nothing is drawn at random.
    mod.run(args.tier, acc)
    known = load_known(args.prop)
    seen_known, new = {}, []
    for v in acc.violations:
        if v["key"] in known:
            seen_known[v["key"]] = known[v["key"]]
        else:
            new.append(v)
    wall = time.time() - t0
    if args.replay:
        hit = [v for v in acc.violations if v["key"] == rep["key"]]
        print("reproduced" if hit else "not reproduced")
        return 1 if hit else 0
    for key, text in seen_known.items():
        print(f"KNOWN-FINDING: property={args.prop} {text} [{key}]")
    level = getattr(mod, "LEVEL", "model_checking")
    cov = dict(states=acc.states, transitions=acc.transitions,
               traces_validated_against_impl=acc.traces,
               samples=jsonable(acc.samples[:8]) or ["none"],
               exhaustive=True,
               bounds=mod.BOUNDS[args.tier] if isinstance(mod.BOUNDS, dict)
               else mod.BOUNDS,
               **{k: int(v) for k, v in acc.extra.items()})
    ev = dict(property=args.prop, tier=args.tier,
              seed=int(os.environ.get("VERIF_SEED", "1")), level=level,
              coverage=cov, wall_s=round(wall, 2),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              violations=len(new))
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{args.prop}.json").write_text(
        json.dumps(ev, indent=1) + "\n")
    if new:
        rdir = VERIF / "replays"
        rdir.mkdir(exist_ok=True)
        for i, v in enumerate(new[:int(os.environ.get("MC_SHOW", "10"))]):
            path = rdir / f"{args.prop}-{i}.json"
            path.write_text(json.dumps(
                {"property": args.prop, "tier": args.tier, **v}, indent=1))
            print(f"{v['key']}: {v['what']}"[:1200])
            print(f"VIOLATION property={args.prop} replay={path}")
        print(f"{len(new)} distinct violations ({acc.nviol} failing cases)")
        return 1
    print(f"{args.prop}: held on {acc.states} states, {acc.transitions} "
          f"transitions, {acc.traces} traces replayed on the real code "
          f"({wall:.1f}s)")
    return 0
