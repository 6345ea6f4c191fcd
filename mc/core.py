"""Explicit-state / stateless exploration engine.

A *scenario* has two parts:

    build(ch) -> case          cheap, deterministic: the abstract model of one behaviour,
                               written as a program that asks the chooser `ch` for every
                               nondeterministic decision
    run(case) -> Result        replays the behaviour on the real brel code and compares what
                               the public API reports with what the model says

The engine enumerates *all* choice sequences of `build` (VeriSoft/CHESS style: re-execution
with a recorded prefix, depth first), optionally restricted to those with at most `dev`
decisions that differ from the default (first) alternative.  Every choice prefix is a node
("state") of the explored transition system, every alternative taken an edge ("transition").
Terminal states with the same canonical case are merged; every remaining one is executed on
the implementation.
"""
import hashlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback


class Prune(Exception):
    """The current branch is not a meaningful behaviour."""


class Chooser:
    __slots__ = ("prefix", "trace", "dev", "cost", "maxdev")

    def __init__(self, prefix, maxdev):
        self.prefix = prefix
        self.trace = []  # (index, n, budget_free)
        self.cost = 0
        self.maxdev = maxdev

    def pick(self, name, options, free=False):
        """Choose one of `options` (a list, or an int n meaning range(n)).  The first is the
        default; every other one costs one deviation unless `free`."""
        if isinstance(options, int):
            options = range(options)
        n = len(options)
        if n == 0:
            raise Prune()
        i = len(self.trace)
        k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= n:
            raise Prune()
        self.trace.append((k, n, free))
        if k and not free:
            self.cost += 1
        return options[k]

    def flag(self, name, free=False):
        return self.pick(name, (False, True), free)


def enumerate_choices(build, maxdev=None, limit=None):
    """Yield (choices, case) for every complete choice sequence with at most maxdev
    deviations, depth first.  Returns number of nodes/edges through `stats`."""
    stats = {"nodes": 1, "edges": 0, "leaves": 0, "pruned": 0}

    def gen():
        prefix = []
        while True:
            ch = Chooser(prefix, maxdev)
            try:
                case = build(ch)
                ok = True
            except Prune:
                ok = False
            tr = ch.trace
            new = max(0, len(tr) - max(0, len(prefix) - 1))
            stats["nodes"] += new
            stats["edges"] += new
            if ok:
                stats["leaves"] += 1
                yield [t[0] for t in tr], case
            else:
                stats["pruned"] += 1
            # backtrack
            i = len(tr) - 1
            while i >= 0:
                k, n, free = tr[i]
                if k + 1 < n:
                    cost = sum(1 for t in tr[:i] if t[0] and not t[2])
                    if free or maxdev is None or cost + 1 <= maxdev:
                        prefix = [t[0] for t in tr[:i]] + [k + 1]
                        break
                i -= 1
            if i < 0:
                return

    return gen(), stats


def canon(case):
    return hashlib.blake2b(
        json.dumps(case, sort_keys=True, default=str).encode(), digest_size=12
    ).hexdigest()


class Violation:
    def __init__(self, sig, msg, detail=None):
        self.sig = sig
        self.msg = msg
        self.detail = detail or {}


class Scenario:
    """name, build, run, dev: {"quick": k, "thorough": k} (None = unbounded)"""

    def __init__(self, name, build, run, dev=None, desc="", batch=1):
        self.name = name
        self.build = build
        self.run = run
        self.dev = dev or {"quick": None, "thorough": None}
        self.desc = desc
        self.batch = batch


def borrowed(check, tier, **devs):
    """Scenarios of another check whose judgement is part of this check's property as well, with
    their own bounds on the number of deviations (quick: devs; thorough: the other's quick one)."""
    import importlib

    if tier == "lend":  # the lender's own borrowed ones are of no interest
        return []
    out = []
    for s in importlib.import_module(f"checks.{check}").scenarios("lend"):
        name = s.name.replace("-", "_")
        if name in devs:
            out.append(Scenario(f"{check}-{s.name}", s.build, s.run, {"quick": devs[name], "thorough": s.dev.get("quick")}, f"(scenario of {check.upper()}) {s.desc}", s.batch))
    assert len(out) == len(devs), (check, devs)
    return out


class Result:
    """What one execution reported: violations, and extra counters."""

    def __init__(self, violations=(), counts=None, obs=None):
        self.violations = list(violations)
        self.counts = counts or {}
        self.obs = obs


# for trying out planted bugs: all workers stop at the first violation
FAILFAST = os.environ.get("BRELMC_FAILFAST") and os.path.join(__import__("env").SCRATCH, "stop")


class TooLong(BaseException):
    """One execution used up its time: the code under test does not terminate."""


LIMIT_S = 20


def _alarm(*_):
    raise TooLong()


def _exec(sc, case):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, LIMIT_S, 1)
    try:
        try:
            r = sc.run(case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if isinstance(r, Result):
            return r
        return Result(r or [])
    except TooLong as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "/brel/" in f.filename), "?")
        return Result([Violation(f"{sc.name}:no-termination", f"no result after {LIMIT_S} s (in {where})", {"traceback": traceback.format_exc()[-3000:]})])
    except Exception as e:  # an unexpected exception out of the code under test
        tb = traceback.extract_tb(e.__traceback__)
        where = next(
            (f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "/brel/" in f.filename),
            "harness",
        )
        if where == "harness" and isinstance(e, (OSError, MemoryError)):
            raise  # the sandbox, not the code under test
        # "harness": what the code under test returned could not even be read
        return Result(
            [
                Violation(
                    f"{sc.name}:exception:{type(e).__name__}:{where}",
                    f"{type(e).__name__}: {e} (in {where})",
                    {"traceback": traceback.format_exc()[-3000:]},
                )
            ]
        )


def _worker(args):
    idx, nw, scs, items, out, deadline = args
    res = {"viol": [], "counts": {}, "ran": 0, "err": None, "sig": {}, "obs": [], "timeout": False}
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    slow = 0
    try:
        for j in range(idx, len(items), nw):
            if time.time() > deadline:
                res["timeout"] = True
                break
            if FAILFAST and os.path.exists(FAILFAST):
                break
            si, choices, case = items[j]
            r = _exec(scs[si], case)
            res["ran"] += 1
            if any(v.sig.endswith(":no-termination") for v in r.violations):
                slow += 1
                if slow >= 3:  # enough; the rest would only cost time
                    res["viol"] += [(j, si, choices, v.sig, v.msg, v.detail) for v in r.violations]
                    res["stopped"] = True
                    break
            if r.violations and FAILFAST:
                open(FAILFAST, "w").close()
            for k, v in r.counts.items():
                res["counts"][k] = res["counts"].get(k, 0) + v
            if r.obs is not None and len(res["obs"]) < 2:
                res["obs"].append((si, choices, r.obs))
            for v in r.violations:
                if res["sig"].setdefault(v.sig, 0) < 40:
                    res["sig"][v.sig] += 1
                    res["viol"].append((j, si, choices, v.sig, v.msg, v.detail))
    except BaseException:
        res["err"] = traceback.format_exc()
    import pickle

    with open(out, "wb") as f:
        pickle.dump(res, f)
    devnull.flush()
    os._exit(0)


def explore(scenarios, tier, workers=8, deadline_s=600):
    """Enumerate every scenario, execute every distinct terminal state. Returns summary."""
    from env import SCRATCH

    t0 = time.time()
    items, per, broken = [], [], []
    for si, sc in enumerate(scenarios):
        seen = {}
        it, st = enumerate_choices(sc.build, sc.dev.get(tier))
        rows = []
        try:
            for choices, case in it:
                c = canon(case)
                if c in seen:
                    continue
                seen[c] = 1
                rows.append((si, choices, case))
        except (OSError, MemoryError):
            raise
        except Exception as e:  # the code under test failed in a run that the model needs
            broken.append((-1, si, [], f"{sc.name}:enumeration:{type(e).__name__}", f"{type(e).__name__}: {e}", {"traceback": traceback.format_exc()[-3000:]}))
        rows.sort(key=lambda r: sum(1 for k in r[1] if k))
        items += rows
        per.append(
            {
                "scenario": sc.name,
                "what": sc.desc,
                "bound": f"<= {sc.dev.get(tier)} deviations from the default choices"
                if sc.dev.get(tier) is not None
                else "all choice sequences",
                "states": st["nodes"],
                "transitions": st["edges"],
                "complete_choice_sequences": st["leaves"],
                "pruned": st["pruned"],
                "distinct_executions": len(rows),
            }
        )
    sys.stdout.flush()
    nw = max(1, min(workers, len(items)))
    outs = [os.path.join(SCRATCH, f"res.{i}") for i in range(nw)]
    deadline = t0 + deadline_s
    pids = []
    for i in range(nw):
        pid = os.fork()
        if pid == 0:
            _worker((i, nw, scenarios, items, outs[i], deadline))
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    import pickle

    viol, counts, ran, obs, timeout = broken, {}, 0, [], False
    for o in outs:
        if not os.path.exists(o):
            raise RuntimeError("a worker died (out of memory?)")
        with open(o, "rb") as f:
            r = pickle.load(f)
        if r["err"]:
            raise RuntimeError("harness error in worker:\n" + r["err"])
        viol += r["viol"]
        ran += r["ran"]
        obs += r["obs"]
        timeout |= r["timeout"]
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
    viol.sort(key=lambda v: v[0])
    if timeout:
        raise RuntimeError(f"exploration did not finish within {deadline_s} s ({ran}/{len(items)})")
    return {
        "per": per,
        "items": items,
        "viol": viol,
        "counts": counts,
        "ran": ran,
        "obs": obs,
        "wall": time.time() - t0,
    }
