"""Deterministic simulation engine.

One integer decides a run: run seed = H(VERIF_SEED, property, index).  A run
is a *world* (the real library objects + reference model + suspended tasks)
advanced by a list of *steps*.  A step is a small JSON value drawn by the
seeded scheduler (`gen_step`) and executed by `exec_step`; executing never
draws from a PRNG, so config + step list is a complete replay file.
"""
import hashlib
import io
import json
import os
import random
import signal
import sys
import traceback
from collections import Counter

RUN_TIMEOUT = float(os.environ.get("DST_RUN_TIMEOUT", "60"))


class Violation(Exception):
    """The property is broken. cls names the oracle clause (stable across
    shrinking), msg is for people, sig identifies the call site/condition
    for the known-findings file."""

    def __init__(self, cls, msg, sig=None):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg
        self.sig = sig or cls


class LibRaised(Exception):
    """The code under test raised where the harness wanted an answer."""

    def __init__(self, exc, what=""):
        tb = traceback.extract_tb(exc.__traceback__)
        site = ""
        for fr in reversed(tb):
            if "/fibertree/" in fr.filename:
                site = f"{os.path.basename(fr.filename)}:{fr.name}"
                break
        super().__init__(f"{what}: {type(exc).__name__}: {str(exc)[:200]} at {site}")
        self.exc = exc
        self.site = site
        self.what = what


class InjectedFault(Exception):
    """Raised by the simulator inside a user callback, loop body or I/O call."""


class InjectedIOError(OSError):
    """A disk fault injected by SimDisk."""


class RunTimeout(BaseException):
    pass


def lib(what, fn, *args, **kwargs):
    """Call into the code under test. Its exceptions become LibRaised so a
    harness bug can never be mistaken for a violation, or the reverse."""
    try:
        return fn(*args, **kwargs)
    except (Violation, InjectedFault, InjectedIOError, LibRaised):
        raise
    except (Exception, SystemExit) as e:
        raise LibRaised(e, what) from None


DONE = object()


def lib_next(what, it):
    """Advance a generator of the code under test by one."""
    return lib(what, next, it, DONE)


class Ctx:
    """Per-run statistics and event log (never feeds back into the run)."""

    def __init__(self):
        self.faults = Counter()
        self.probes = Counter()
        self.ops = Counter()
        self.states = set()
        self.h = hashlib.sha256()
        self.nlog = 0
        self.keep = None     # list: full event log, when replaying verbosely

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def log(self, obj):
        s = obj if isinstance(obj, str) else repr(obj)
        self.h.update(s.encode("utf-8", "replace"))
        self.h.update(b"\n")
        self.nlog += 1
        if self.keep is not None:
            self.keep.append(s)

    def state(self, key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())


def run_seed(verif_seed, prop, index):
    d = hashlib.sha256(f"{verif_seed}:{prop}:{index}".encode()).digest()
    return int.from_bytes(d[:8], "big")


class Result:
    __slots__ = ("index", "violation", "harness", "steps", "cfg", "ctx",
                 "nsteps", "digest", "nontrivial")

    def __init__(self):
        self.index = None
        self.violation = None
        self.harness = None
        self.steps = []
        self.cfg = None
        self.ctx = None
        self.nsteps = 0
        self.digest = None
        self.nontrivial = False


def _alarm(signum, frame):
    raise RunTimeout()


def pristine():
    """Put the code under test's process globals back to their import state."""
    from fibertree.core.metrics import Metrics
    for k, v in _METRICS0.items():
        setattr(Metrics, k, v.copy() if isinstance(v, (dict, list, set)) else v)
    # a session left behind by an earlier run in this process may have added
    # attributes; those are part of the program, keep them
    random.seed(0xD57)


_METRICS0 = {}


def snapshot_globals():
    from fibertree.core.metrics import Metrics
    for k, v in vars(Metrics).items():
        if k.startswith("__") or callable(v) or isinstance(v, (classmethod, staticmethod)):
            continue
        _METRICS0[k] = v.copy() if isinstance(v, (dict, list, set)) else v


def execute(World, seed=None, cfg=None, steps=None, keep_log=False, reset=True):
    """Run one simulation: generated from `seed`, or replayed from cfg+steps."""
    r = Result()
    ctx = r.ctx = Ctx()
    if keep_log:
        ctx.keep = []
    if reset:
        pristine()
    rng = random.Random(seed) if cfg is None else None
    old_out, old_err = sys.stdout, sys.stderr
    world = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, RUN_TIMEOUT)
    sys.stdout = io.StringIO()
    try:
        r.cfg = World.gen_config(rng) if cfg is None else cfg
        r.cfg = json.loads(json.dumps(r.cfg))
        ctx.log(r.cfg)
        world = World(r.cfg, ctx)
        world.check()
        i = 0
        while True:
            if cfg is None:
                if i >= r.cfg["n_steps"]:
                    break
                step = world.gen_step(rng)
                if step is None:
                    break
                step = json.loads(json.dumps(step))
            else:
                if i >= len(steps):
                    break
                step = steps[i]
            r.steps.append(step)
            i += 1
            ctx.ops[step[0]] += 1
            obs = world.exec_step(step)
            ctx.log([i, step, obs])
            world.check()
            ctx.state(world.state_key())
        world.finish()
        r.nontrivial = bool(world.nontrivial())
    except Violation as v:
        r.violation = {"class": v.cls, "message": v.msg[:2000], "sig": v.sig}
    except LibRaised as e:
        r.violation = {"class": f"unexpected-exception:{type(e.exc).__name__}",
                       "message": str(e)[:2000], "sig": f"{e.what}|{type(e.exc).__name__}|{e.site}"}
    except RunTimeout:
        r.violation = {"class": "no-progress", "sig": "no-progress",
                       "message": f"the run did not finish within {RUN_TIMEOUT:.0f} s"}
    except (InjectedFault, InjectedIOError) as e:
        r.harness = "injected fault escaped: " + traceback.format_exc()
    except Exception as e:
        classify(r, e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout, sys.stderr = old_out, old_err
        if world is not None:
            try:
                world.close()
            except BaseException:
                pass
    r.nsteps = len(r.steps)
    if r.violation:
        ctx.log(r.violation)
    r.digest = ctx.h.hexdigest()
    return r


UNREADABLE = (RecursionError, TypeError, AttributeError, IndexError, KeyError, ValueError)


def classify(r, e):
    """An exception nobody expected. Raised inside the code under test, it is
    that code's; raised by an oracle reading an answer that does not have the
    shape every answer has on a correct tree, it is a wrong answer; the rest
    are errors of the harness."""
    import fibertree
    root = os.path.dirname(os.path.abspath(fibertree.__file__)) + os.sep
    frames = traceback.extract_tb(e.__traceback__)
    if frames and os.path.abspath(frames[-1].filename).startswith(root):
        f = frames[-1]
        r.violation = {"class": f"unexpected-exception:{type(e).__name__}",
                       "message": f"{type(e).__name__}: {e} at {f.filename[len(root):]}:{f.lineno} in {f.name}"[:2000],
                       "sig": f"oracle|{type(e).__name__}|{f.filename[len(root):]}:{f.name}"}
    elif isinstance(e, UNREADABLE) and r.steps and not any(f.name.startswith("gen_") for f in frames):
        f = frames[-1]
        r.violation = {"class": f"unreadable-answer:{type(e).__name__}",
                       "message": f"an answer does not have the shape the interface promises: {type(e).__name__}: {e} "
                                  f"(read at {os.path.basename(f.filename)}:{f.lineno})"[:2000],
                       "sig": f"unreadable|{os.path.basename(f.filename)}:{f.name}"}
    else:
        r.harness = "".join(traceback.format_exception(e))


class BaseWorld:
    def __init__(self, cfg, ctx):
        self.cfg = cfg
        self.ctx = ctx

    def check(self):
        pass

    def finish(self):
        pass

    def close(self):
        pass

    def state_key(self):
        return 0

    def nontrivial(self):
        return True


# ---------------------------------------------------------------- shrinking

def _json_simpler(x):
    """Yield simpler variants of a JSON value, most aggressive first."""
    if isinstance(x, bool):
        if x:
            yield False
    elif isinstance(x, int):
        for c in (0, 1, x // 2, x - 1 if x > 0 else x + 1):
            if c != x and abs(c) <= abs(x):
                yield c
    elif isinstance(x, float):
        for c in (0, 1):
            if c != x:
                yield c
    elif isinstance(x, list):
        n = len(x)
        if n > 1:
            yield x[:n // 2]
            yield x[n // 2:]
        for i in range(n):
            yield x[:i] + x[i + 1:]
        for i in range(n):
            for s in _json_simpler(x[i]):
                yield x[:i] + [s] + x[i + 1:]
    elif isinstance(x, dict):
        for k in x:
            for s in _json_simpler(x[k]):
                y = dict(x)
                y[k] = s
                yield y


def shrink(cfg, steps, test_many, budget_s, clock):
    """ddmin over steps, then JSON simplification of steps and config.
    test_many(list of (cfg, steps)) -> index of the first candidate that
    still fails the same way, or None."""
    t0 = clock()

    def left():
        return clock() - t0 < budget_s

    # 1. cut step ranges
    n = 2
    while len(steps) >= 1 and left():
        size = max(1, len(steps) // n)
        cands = []
        for i in range(0, len(steps), size):
            cands.append((cfg, steps[:i] + steps[i + size:]))
        k = test_many(cands)
        if k is not None:
            steps = cands[k][1]
            n = max(2, n - 1)
        else:
            if size == 1:
                break
            n = min(len(steps), n * 2)
    # 2. simplify config and steps
    progress = True
    while progress and left():
        progress = False
        for key in sorted(cfg):
            if key == "n_steps":
                continue
            while left():
                cands = []
                for s in _json_simpler(cfg[key]):
                    c2 = dict(cfg)
                    c2[key] = s
                    cands.append((c2, steps))
                    if len(cands) >= 64:
                        break
                k = test_many(cands) if cands else None
                if k is None:
                    break
                cfg = cands[k][0]
                progress = True
        i = 0
        while i < len(steps) and left():
            cands = [(cfg, steps[:i] + steps[i + 1:])]
            for s in _json_simpler(steps[i]):
                if not isinstance(s, list) or not s or s[0] != steps[i][0]:
                    continue
                cands.append((cfg, steps[:i] + [s] + steps[i + 1:]))
                if len(cands) >= 48:
                    break
            k = test_many(cands)
            if k is None:
                i += 1
            else:
                cfg, steps = cands[k]
                progress = True
    return cfg, steps
