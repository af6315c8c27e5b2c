"""C07: every traversal mode enumerates exactly the slice of content it names.

Traversals are suspended tasks. Several are open at once over shared trees
and advanced, killed and re-run in any order; the saved search position of a
fiber, left by whichever task touched it last, is handed to later searches
whenever it is a legal shortcut. What a traversal must deliver is computed
from the raw tree when it starts, and every step may change exactly what the
mode in use is allowed to change.
"""
import copy
import itertools
import pickle

from fibertree import Fiber, Payload, Tensor

from .. import streams as S
from .. import tree as T
from ..engine import BaseWorld, DONE, InjectedFault, Violation, lib, lib_next
from ..streams import num

RUNS = {"quick": 32000, "thorough": 400000}
CHUNK = 80
RULE = ("a run is nontrivial when at least five elements were delivered in two different traversal modes; distinct runs "
        "are counted by the digest of their event log")
STATE_MEASURE = "distinct (raw trees, mode and position of every suspended traversal) reached after a step"
ASSUMPTIONS = [
    "the structure of a fiber changes under a suspended traversal only through that traversal (reference variants)",
    "a search start is legal when no element before it lies in the requested range",
    "prune and project of an uncompressed rank give a compressed lazy fiber; callbacks decide by coordinate or payload",
]
MODES = ["occ", "occ", "range", "range", "active", "shape", "ashape", "rshape", "default", "default", "rev",
         "shapeR", "ashapeR", "rshapeR", "rshapeR", "uncompressed", "coords"]
COMODES = ["coshape", "coashape", "corange", "coshapeR", "coashapeR", "corangeR"]


class Tree:
    """One operand with a mirror of its raw structure."""

    def __init__(self, cfg):
        self.tup = bool(cfg.get("tup"))
        self.op = S.Operand(cfg, tup=2 if self.tup else 0)
        self.noshape = bool(cfg.get("noshape")) and self.op.kind == "fiber"
        if self.noshape:
            self.op.obj = T.build_fiber(self.plan(), self.op.depth, None, self.op.default)
            self.op.fmts[0] = "C"
        self.sync()

    def K(self, c):
        """Scheduler integer -> coordinate; order preserving, also for tuples."""
        return (c // 3, c % 3) if self.tup and c is not None else c

    def inv(self, c):
        return c[0] * 3 + c[1] if isinstance(c, tuple) else c

    def conj(self, fn):
        """An integer map as a coordinate map."""
        return (lambda c: self.K(fn(self.inv(c)))) if self.tup else fn

    def plan(self):
        def rec(m, d):
            return [[c, rec(p, d - 1) if d > 1 else p] for c, p in sorted(m.items())]
        return rec(self.op.model, self.op.depth)

    @property
    def root(self):
        return self.op.root

    def sync(self):
        """Take the live tree as the expected one."""
        self.fibers, self.vals, self.pins = self.read()

    def read(self):
        fibers, vals, pins = {}, {}, []

        def rec(f, lv):
            pins.append(f)
            fibers[id(f)] = (tuple(f.coords), tuple(id(p) for p in f.payloads), lv)
            for p in f.payloads:
                if isinstance(p, Fiber):
                    rec(p, lv + 1)
                else:
                    pins.append(p)
                    vals[id(p)] = p.value if isinstance(p, Payload) else ("unboxed", p)
        rec(self.root, 0)
        return fibers, vals, pins

    def check(self, what):
        fibers, vals, pins = self.read()
        if fibers != self.fibers:
            raise Violation("tree-changed", f"{what}: the tree's structure is not what the steps so far made it: {self.root!r}",
                            sig="tree-changed")
        if vals != self.vals:
            raise Violation("value-changed", f"{what}: a stored value changed: {self.root!r}", sig="value-changed")

    def level(self, f):
        e = self.fibers.get(id(f))
        return None if e is None else e[2]


class Task:
    __slots__ = ("gen", "want", "k", "mode", "fibers", "ref", "fib", "info", "dead")


def raw_empty(p, default):
    if isinstance(p, Fiber):
        return all(raw_empty(q, default) for q in p.payloads)
    return (p.value if isinstance(p, Payload) else p) == default


class World(BaseWorld):
    @classmethod
    def gen_config(cls, rng):
        trees = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            depth = rng.choice([1, 1, 1, 2, 2, 3])
            shape = T.rand_shape(rng, depth, 8)
            d = rng.choice([0, 0, 0, 7])
            tup = depth < 3 and rng.random() < 0.15
            trees.append({"depth": depth, "shape": shape, "default": d, "tup": tup,
                          "fmts": [rng.choice("CCU") for _ in range(depth)],
                          "kind": rng.choice(["tensor", "tensor", "fiber"]), "noshape": rng.random() < 0.4,
                          "plan": T.rand_plan(rng, depth, shape, rng.choice([0.0, 0.3, 0.6, 0.9]), p_zero=0.25,
                                              default=d)})
        return {"trees": trees, "n_steps": rng.randint(6, 44)}

    def __init__(self, cfg, ctx):
        super().__init__(cfg, ctx)
        self.trees = [Tree(c) for c in cfg["trees"]] or [Tree({"depth": 1})]
        self.tasks = []
        self.items = 0
        self.modes = set()
        self.active = {}

    # ------------------------------------------------------------- helpers
    def resolve(self, ti, path):
        t = self.trees[int(num(ti)) % len(self.trees)]
        f, lv = t.root, 0
        for i in path if isinstance(path, list) else []:
            if lv + 1 >= t.op.depth or not f.payloads:
                break
            f = f.payloads[abs(int(num(i))) % len(f.payloads)]
            lv += 1
        return t, f, lv

    def rand_target(self, rng):
        ti = rng.randrange(len(self.trees))
        d = self.trees[ti].op.depth
        return [ti, [rng.randrange(4) for _ in range(rng.randrange(d))]]

    def shift(self, rng, tgt, *cs):
        """Move bounds meant for small ranks to the far end of a long one."""
        n = max(self.trees[tgt[0]].op.shape)
        if n <= 8 or rng.random() < 0.3:
            return list(cs)
        off = rng.randrange(max(0, n - 12), n - 4)
        return [None if c is None else c + off for c in cs]

    def shape_of(self, t, f, lv):
        op = t.op
        if isinstance(op.obj, Tensor):
            return op.shape[lv]
        s = lib("getShape", f.getShape, all_ranks=False, authoritative=True)
        return s if s else max(f.coords) + 1 if f.coords else 0

    def active_of(self, t, f, lv):
        if id(f) in self.active:
            return self.active[id(f)]
        return (0, self.shape_of(t, f, lv))

    def locked(self, f):
        return any(f is g for t in self.tasks if t.ref for g in t.fibers)

    def visited(self, f):
        return any(f is g for t in self.tasks for g in t.fibers)

    def below(self, t, f):
        out = []

        def rec(g):
            out.append(g)
            for p in g.payloads:
                if isinstance(p, Fiber):
                    rec(p)
        rec(f)
        return out

    def get(self, f, c):
        i = f.coords.index(c) if c in f.coords else None
        return None if i is None else f.payloads[i]

    # --------------------------------------------------------------- steps
    OPS = (("start", 12), ("costart", 3), ("lazy", 8), ("again", 4), ("adv", 36), ("drain", 5), ("write", 5), ("wdef", 3),
           ("read", 5), ("mutate", 5), ("setactive", 3), ("setfmt", 2), ("fromlazy", 5), ("kill", 3), ("restart", 1))

    def gen_step(self, rng):
        for _ in range(30):
            n = rng.choices([o for o, _ in self.OPS], [w for _, w in self.OPS])[0]
            s = getattr(self, "gen_" + n)(rng)
            if s is not None:
                return [n] + s
        return ["noop"]

    def exec_step(self, step):
        fn = getattr(self, "do_" + str(step[0]), None)
        return fn(*step[1:]) if fn else None

    # -- traversals of one fiber
    def gen_start(self, rng):
        if len(self.tasks) >= 5:
            return None
        lo = rng.choice([None, rng.randint(0, 6), rng.randint(-1, 4)])
        hi = rng.choice([None, rng.randint(0, 9), (lo or 0) + rng.randint(0, 5)])
        tgt = self.rand_target(rng)
        lo, hi = self.shift(rng, tgt, lo, hi)
        return tgt + [rng.choice(MODES), lo, hi, rng.choice([1, 1, 1, 2, 3]),
                                        rng.choice([None, None, "saved", "saved", 0, 1, 2, 3])]

    def sp_for(self, f, default, lo, sp):
        """A legal search start, or None."""
        if sp is None or not f.coords:
            return None
        if sp == "saved":
            sp = f.getSavedPos()
            self.ctx.probe("saved-position-used")
        sp = int(num(sp))
        if sp < 0 or sp >= len(f.coords):
            return None
        for c, p in zip(f.coords[:sp], f.payloads[:sp]):
            if (lo is None or c >= lo) and not raw_empty(p, default):
                return None
        return sp

    def do_start(self, ti, path, mode, lo, hi, step, sp):
        if len(self.tasks) >= 5:
            return None
        t, f, lv = self.resolve(ti, path)
        ref = str(mode).endswith("R")
        if self.locked(f) or ref and self.visited(f):
            return None
        lo = None if lo is None else int(num(lo))
        hi = None if hi is None else int(num(hi))
        if t.tup:
            if mode not in ("occ", "range", "active", "default", "rev", "uncompressed"):
                return None
            if mode == "active" and id(f) not in self.active:
                return None     # without a declared shape the range is an estimate
            lo, hi = t.K(lo), t.K(hi)
            self.ctx.probe("tuple-coordinates")
        step = max(1, int(num(step, 1)))
        d = t.op.default
        shape, act = (0, (None, None)) if t.tup else (self.shape_of(t, f, lv), self.active_of(t, f, lv))
        if t.tup and id(f) in self.active:
            act = self.active[id(f)]

        def occ(a, b):
            return [(c, p) for c, p in zip(f.coords, f.payloads)
                    if not raw_empty(p, d) and (a is None or c >= a) and (b is None or c < b)]

        def dense(a, b, s=1):
            return [(c, self.get(f, c)) for c in range(a, b, s)]
        if mode == "default":
            fmt = t.op.fmts[lv]
            m = "ashape" if fmt == "U" else "occ"
            want = dense(*act) if fmt == "U" else occ(None, None)
            p = self.sp_for(f, d, None, sp) if fmt == "C" else None
            go = (lambda: iter(f)) if p is None else (lambda: f.__iter__(start_pos=p))
        elif mode == "occ":
            p = self.sp_for(f, d, None, sp)
            want, go = occ(None, None), lambda: f.iterOccupancy(start_pos=p)
        elif mode == "range":
            p = self.sp_for(f, d, lo, sp)
            want, go = occ(lo, hi), lambda: f.iterRange(lo, hi, start_pos=p)
        elif mode == "active":
            p = self.sp_for(f, d, act[0], sp)
            want, go = occ(*act), lambda: f.iterActive(start_pos=p)
        elif mode == "rev":
            want, go = [(c, q) for c, q in reversed(list(zip(f.coords, f.payloads)))], \
                lambda: reversed(t.op.obj if lv == 0 and len(f.coords) % 2 else f)
        elif mode in ("shape", "shapeR"):
            want, go = dense(0, shape), f.iterShapeRef if ref else f.iterShape
        elif mode in ("ashape", "ashapeR"):
            want, go = dense(*act), f.iterActiveShapeRef if ref else f.iterActiveShape
        elif mode == "uncompressed":
            if t.tup:
                s = lib("getShape", f.getShape, all_ranks=False)
                if not isinstance(s, tuple) or any(not all(x < y for x, y in zip(c, s)) for c in f.coords):
                    return None
                want = [(c, self.get(f, c)) for c in itertools.product(*map(range, s))]
            else:
                want = dense(0, shape)
            go = f.iterUncompressed
        elif mode == "coords":
            # coordinates only: nothing to suspend on
            a, b = 0 if lo is None else lo, shape if hi is None else min(hi, 20)
            got = lib("iterShapeCoords", lambda: list(f.iterShapeCoords(start=lo, end=b if hi is not None else None)))
            if got != list(range(a, b)):
                raise Violation("wrong-coordinate", f"iterShapeCoords({lo}, {hi}) of shape {shape} gave {got}")
            return len(got)
        elif mode in ("rshape", "rshapeR"):
            lo, hi = lo or 0, 5 if hi is None else hi
            hi = min(hi, lo + 10)
            if lo < 0:
                lo = 0
            g = f.iterRangeShapeRef if ref else f.iterRangeShape
            want, go = dense(lo, hi, step), lambda: g(lo, hi, step)
        else:
            return None
        return self.open(lib("start " + str(mode), go), want, mode, [f], ref, None, t, [(t, lv)])

    def open(self, gen, want, mode, fibers, ref, fib, t, info):
        k = Task()
        k.gen, k.want, k.k, k.mode, k.fibers, k.ref, k.fib, k.info, k.dead = gen, want, -1, mode, fibers, ref, fib, info, False
        self.tasks.append(k)
        self.ctx.probe("mode:" + str(mode))
        if sum(any(f is g for g in o.fibers) for o in self.tasks for f in fibers) > len(fibers):
            self.ctx.probe("shared-fiber")
        return len(want)

    # -- dense co-iteration
    def gen_costart(self, rng):
        if len(self.tasks) >= 5:
            return None
        lo = rng.randint(0, 4)
        tgts = [self.rand_target(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
        lo, hi = self.shift(rng, tgts[0], lo, lo + rng.randint(0, 6))
        return [tgts, rng.choice(COMODES), lo, hi, rng.choice([1, 1, 2])]

    def do_costart(self, tgts, mode, lo, hi, step):
        if len(self.tasks) >= 5 or not isinstance(tgts, list):
            return None
        ts = []
        for x in tgts[:3]:
            if isinstance(x, list) and len(x) == 2:
                r = self.resolve(*x)
                if r[0].tup:
                    return None
                if not any(r[1] is y[1] for y in ts):
                    ts.append(r)
        if not ts:
            return None
        fs = [f for _, f, _ in ts]
        ref = str(mode).endswith("R")
        if any(self.locked(f) or ref and self.visited(f) for f in fs):
            return None
        if ref and any(f is x for f in fs for g in fs if f is not g for x in self.below(None, g)):
            return None
        t, f, lv = ts[0]
        step = max(1, int(num(step, 1)))
        if mode in ("coshape", "coshapeR"):
            a, b, step = 0, self.shape_of(t, f, lv), 1
            go = lambda: (Fiber.coiterShapeRef if ref else Fiber.coiterShape)(fs)
        elif mode in ("coashape", "coashapeR"):
            (a, b), step = self.active_of(t, f, lv), 1
            go = lambda: (Fiber.coiterActiveShapeRef if ref else Fiber.coiterActiveShape)(fs)
        elif mode in ("corange", "corangeR"):
            a, b = abs(int(num(lo))), abs(int(num(hi)))
            b = min(b, a + 8)
            go = lambda: (Fiber.coiterRangeShapeRef if ref else Fiber.coiterRangeShape)(fs, a, b, step)
        else:
            return None
        want = [(c, tuple(self.get(g, c) for g in fs)) for c in range(a, b, step)]
        fib = lib("start " + mode, go)
        return self.open(lib("iterate", lambda: iter(fib)), want, mode, fs, ref, None if ref else fib, t,
                         [(x, l) for x, _, l in ts])

    # -- lazy fibers from projection and pruning
    def gen_lexpr(self, rng, tgt):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            if r < 0.45:
                ops.append(["add", rng.randint(-4, 6), self.gen_iv(rng, tgt), rng.choice([None, "saved", 0, 1, 2])])
            elif r < 0.6:
                ops.append(["rev", self.shift(rng, tgt, rng.randint(-1, 9))[0], self.gen_iv(rng, tgt), None])
            elif r < 0.7:
                ops.append(["mul", rng.choice([2, 3]), self.gen_iv(rng, tgt), None])
            elif r < 0.85:
                ops.append(["prune", rng.randrange(8), None, rng.choice([None, None, "saved", 0, 1, 2])])
            else:
                ops.append(["id", rng.randrange(2), self.gen_iv(rng, tgt), rng.choice([None, 0, 1])])
        return ops

    def gen_iv(self, rng, tgt):
        if rng.random() < 0.5:
            return None
        lo = rng.randint(-4, 8)
        return self.shift(rng, tgt, lo, lo + rng.randint(0, 8))

    def build(self, t, f, lv, ops):
        """A lazy fiber and what it delivers."""
        d = t.op.default
        if t.op.fmts[lv] == "U":
            a = self.active_of(t, f, lv)
            want = [(c, p) for c, p in zip(f.coords, f.payloads) if a[0] <= c < a[1]]
        else:
            want = list(zip(f.coords, f.payloads))
        want = [(c, p) for c, p in want if not raw_empty(p, d)]
        fib, lazy = f, False
        for o in (ops if isinstance(ops, list) else [])[:4]:
            if not isinstance(o, list) or len(o) != 4:
                continue
            k, n, iv, sp = o
            n = int(num(n))
            if k == "prune":
                # by payload: whether it is one of these very objects
                some = [p for j, (c, p) in enumerate(want) if j % 3 != n % 2]
                mine = lambda c, p, some=some: any(p is x for x in some)
                fn = [lambda c, p: True, lambda c, p: c % 2 == 0, lambda c, p: c > 2, lambda c, p: None if c > 3 else True,
                      mine, mine][n % 6]
                fn = lambda i, c, p, fn=fn: fn(t.inv(c), p)
                kw = {}
                p = self.sp_for(f, d, None, sp) if not lazy and t.op.fmts[lv] == "C" else None
                if p is not None:
                    kw["start_pos"] = p
                    self.ctx.probe("prune-start-pos")
                if n % 8 > 5 and not p and t.op.fmts[lv] == "C" and len(f.coords) == sum(not raw_empty(x, d) for x in f.payloads):
                    # by position, where every count of positions agrees
                    fn = [lambda i, c, p: i % 2 == 0, lambda i, c, p: i > 0 if i < 3 else None][n % 2]
                    self.ctx.probe("prune-by-position")
                fib = lib("prune", fib.prune, fn, **kw)
                out = []
                for i, (c, p) in enumerate(want):
                    r = fn(i, c, p)
                    if r is None:
                        break
                    if r:
                        out.append((c, p))
                # stops at the first element past 3, whatever is stored before it
                want, lazy = out, True
                continue
            if k == "rev" and lazy:
                continue
            n = n if k != "mul" else max(1, abs(n) % 4)
            fn = {"add": lambda c, n=n: c + n, "rev": lambda c, n=n: n - c, "mul": lambda c, n=n: c * n}.get(k)
            fn = fn and t.conj(fn)
            tr = fn or (lambda c: c)
            kw = {"coord_ex": (0, 0)} if t.tup else {}
            if isinstance(iv, list) and len(iv) == 2:
                lo = int(num(iv[0]))
                iv = (t.K(lo), t.K(max(lo, int(num(iv[1])))))
                kw["interval"] = iv
            else:
                iv = None
            if not lazy and k in ("add", "id") and t.op.fmts[lv] == "C":
                src_lo = None if iv is None else t.K(t.inv(iv[0]) - (n if k == "add" else 0))
                p = self.sp_for(f, d, src_lo, sp)
                # the documented precondition is on coordinates, empty or not
                if p and (src_lo is None or f.coords[p - 1] >= src_lo):
                    p = None
                if p is not None:
                    kw["start_pos"] = p
                    self.ctx.probe("project-start-pos")
            if k == "id" and iv is not None and not lazy and not t.tup and f._ordered:
                lo, hi = kw.pop("interval")
                kw.update({"size": hi - lo} if n % 2 else {"end_coord": hi})
                fib = lib("getRange", fib.getRange, lo, **kw)
                self.ctx.probe("getRange")
            else:
                fib = lib("project", fib.project, fn, **kw)
            want = sorted(((tr(c), p) for c, p in want), key=lambda x: x[0])
            if iv is not None:
                want = [(c, p) for c, p in want if iv[0] <= c < iv[1]]
            lazy = True
            self.ctx.probe("project:" + k + ("-interval" if iv else ""))
        return fib, want, lazy

    def gen_lazy(self, rng):
        if len(self.tasks) >= 5:
            return None
        tgt = self.rand_target(rng)
        return tgt + [self.gen_lexpr(rng, tgt), rng.choice(["iter", "iter", "occ", "range"])] + \
            self.shift(rng, tgt, rng.randint(-2, 8), rng.randint(0, 12))

    def do_lazy(self, ti, path, ops, how, lo, hi):
        if len(self.tasks) >= 5:
            return None
        t, f, lv = self.resolve(ti, path)
        if self.locked(f):
            return None
        fib, want, lazy = self.build(t, f, lv, ops)
        if not lazy:
            return None
        if how == "range":
            lo, hi = t.K(int(num(lo))), t.K(int(num(hi)))
            want = [(c, p) for c, p in want if lo <= c < hi]
            gen = lib("lazy range", lambda: fib.iterRange(lo, hi))
            fib = None
        elif how == "occ":
            gen = lib("lazy occupancy", fib.iterOccupancy)
        else:
            gen = lib("lazy iter", lambda: iter(fib))
        return self.open(gen, want, "lazy", [f], False, fib, t, [(t, lv)])

    def gen_again(self, rng):
        return [rng.randrange(len(self.tasks))] if self.tasks and len(self.tasks) < 5 else None

    def do_again(self, i):
        if not self.tasks or len(self.tasks) >= 5:
            return None
        o = self.tasks[int(num(i)) % len(self.tasks)]
        if o.fib is None or o.ref:
            return None
        self.ctx.probe("lazy-iterated-again")
        return self.open(lib("iterate again", lambda: iter(o.fib)), o.want, o.mode, o.fibers, False, o.fib, None, o.info)

    # -- advancing
    def gen_adv(self, rng):
        return [rng.randrange(len(self.tasks))] if self.tasks else None

    gen_drain = gen_adv

    def advance(self, k):
        what = f"{k.mode} over {[f.coords for f in k.fibers]}"
        item = lib_next("advance " + str(k.mode), k.gen)
        if item is DONE:
            if k.k + 1 != len(k.want):
                raise Violation("too-few", f"{what} ended after {k.k + 1} of {[c for c, _ in k.want]}")
            return None
        c, p = item
        k.k += 1
        if k.k >= len(k.want):
            raise Violation("too-many", f"{what} delivered {c} after all of {[c for c, _ in k.want]}")
        wc, wp = k.want[k.k]
        if c != wc:
            raise Violation("wrong-coordinate", f"{what} delivered {c}, expected {wc} of {[c for c, _ in k.want]}")
        p = S.unwrap(p)
        got, exp = (p, wp) if isinstance(wp, tuple) else ((p,), (wp,))
        if not isinstance(got, tuple) or len(got) != len(exp):
            raise Violation("wrong-payload", f"{what} at {c} delivered {p!r}")
        for g, e, f, (t, lv) in zip(got, exp, k.fibers, k.info):
            if e is not None:
                if g is not e:
                    raise Violation("wrong-payload", f"{what} at {c} delivered {g!r}, not the stored {e!r}")
                continue
            self.check_default(g, t, lv, what, c)
            if k.ref:
                if self.get(f, c) is not g:
                    raise Violation("reference-not-stored", f"{what} at {c}: the reference delivered is not stored")
                cs, ps, l = t.fibers[id(f)]
                i = len([x for x in cs if x < c])
                t.fibers[id(f)] = (cs[:i] + (c,) + cs[i:], ps[:i] + (id(g),) + ps[i:], l)
                t.pins.append(g)
                if isinstance(g, Fiber):
                    t.fibers[id(g)] = ((), (), l + 1)
                else:
                    t.vals[id(g)] = t.op.default
                self.ctx.probe("reference-inserted")
            elif any(g is x for x in S.all_objects([q.op for q in self.trees])):
                raise Violation("default-not-fresh", f"{what} at {c}: the default delivered is stored in a tree")
        self.items += 1
        self.modes.add(k.mode)
        return c

    def check_default(self, g, t, lv, what, c):
        if lv + 1 < t.op.depth:
            if not isinstance(g, Fiber) or g.coords or g.payloads:
                raise Violation("wrong-default", f"{what} at absent {c} delivered {g!r}, expected an empty fiber")
        else:
            v = g.value if isinstance(g, Payload) else g
            if isinstance(v, (Fiber, Payload)) or v is None or v != t.op.default:
                raise Violation("wrong-default", f"{what} at absent {c} delivered {g!r}, expected {t.op.default}")

    def do_adv(self, i):
        if not self.tasks:
            return None
        k = self.tasks[int(num(i)) % len(self.tasks)]
        c = self.advance(k)
        if c is None:
            self.tasks.remove(k)
            return "done"
        return [repr(c)]

    def do_drain(self, i):
        if not self.tasks:
            return None
        k = self.tasks[int(num(i)) % len(self.tasks)]
        while self.advance(k) is not None:
            self.check()
        self.tasks.remove(k)

    # -- writes that never change what is present
    def gen_write(self, rng):
        return self.rand_target(rng) + [rng.randrange(6), rng.choice([3, 5, 2.5])]

    def do_write(self, ti, path, i, v):
        t, f, lv = self.resolve(ti, path)
        if lv + 1 != t.op.depth or not f.payloads:
            return None
        p = f.payloads[abs(int(num(i))) % len(f.payloads)]
        v = num(v, 1)
        if raw_empty(p, t.op.default) or v == t.op.default or not isinstance(p, Payload):
            return None

        def go():
            b = p
            b <<= v
        lib("box ilshift", go)
        t.vals[id(p)] = v

    def gen_wdef(self, rng):
        return self.gen_adv(rng)

    def do_wdef(self, i):
        """A default handed out for an absent coordinate belongs to nobody."""
        if not self.tasks:
            return None
        k = self.tasks[int(num(i)) % len(self.tasks)]
        if k.ref or k.mode not in ("shape", "ashape", "rshape", "uncompressed") or k.k + 1 >= len(k.want) or k.want[k.k + 1][1] is not None:
            return None
        t, lv = k.info[0]
        item = lib_next("advance", k.gen)
        if item is DONE:
            raise Violation("too-few", f"{k.mode} ended before {k.want[k.k + 1][0]}")
        c, g = item
        if c != k.want[k.k + 1][0]:
            raise Violation("wrong-coordinate", f"{k.mode} delivered {c}, expected {k.want[k.k + 1][0]}")
        k.k += 1
        g = S.unwrap(g)
        self.check_default(g, t, lv, k.mode, c)
        if isinstance(g, Payload):
            def go():
                b = g
                b <<= 99
            lib("write default", go)
        elif isinstance(g, Fiber) and g.getDefault() is not None:
            def go():
                b = g.getPayloadRef(*([0] * (t.op.depth - lv - 1)))
                b <<= 99
            lib("write default", go)
        self.ctx.probe("wrote-into-default")

    # -- readers move saved positions
    def gen_read(self, rng):
        return self.rand_target(rng) + [rng.choice(["payload", "position", "range"]), rng.randrange(8), rng.randrange(6)]

    def do_read(self, ti, path, how, c, sp):
        t, f, lv = self.resolve(ti, path)
        if not f.coords or self.locked(f):
            return None
        n = abs(int(num(c)))
        c, sp = t.K(n), abs(int(num(sp))) % len(f.coords)
        while sp > 0 and f.coords[sp] > c:
            sp -= 1
        if how == "payload":
            lib("read", f.getPayload, c, start_pos=sp)
        elif how == "position":
            lib("read", f.getPosition, c, start_pos=sp)
        elif sp == 0 or f.coords[sp - 1] < c:
            lib("read", lambda: list(f.iterRange(c, t.K(n + 2), start_pos=sp)))
        self.ctx.probe("saved-position-moved")

    # -- structure changes when nothing is suspended on the tree
    def idle(self, t):
        return not any(x is t for k in self.tasks for x, _ in k.info)

    def gen_mutate(self, rng):
        ti = rng.randrange(len(self.trees))
        op = self.trees[ti].op
        return [ti, [T.rand_coord(rng, s) for s in op.shape], rng.choice([1, 4, "default", "default"])]

    def do_mutate(self, ti, pt, v):
        t = self.trees[int(num(ti)) % len(self.trees)]
        if not self.idle(t) or not isinstance(pt, list):
            return None
        pt = [t.K(abs(int(num(c))) % s) for c, s in zip((pt + [0, 0, 0]), t.op.shape)]
        v = t.op.default if v == "default" else num(v, 1)

        def go():
            r = t.root.getPayloadRef(*pt)
            r <<= v
        lib("write", go)
        t.sync()

    def gen_setactive(self, rng):
        lo = rng.randint(0, 5)
        tgt = self.rand_target(rng)
        return tgt + self.shift(rng, tgt, lo, lo + rng.randint(0, 6))

    def do_setactive(self, ti, path, lo, hi):
        t, f, lv = self.resolve(ti, path)
        if not self.idle(t):
            return None
        a = (t.K(abs(int(num(lo)))), t.K(abs(int(num(hi)))))
        lib("setActive", f.setActive, a)
        self.active[id(f)] = a
        t.pins.append(f)

    def gen_setfmt(self, rng):
        ti = rng.randrange(len(self.trees))
        return [ti, rng.randrange(self.trees[ti].op.depth), rng.choice("CU")]

    def do_setfmt(self, ti, lv, fmt):
        t = self.trees[int(num(ti)) % len(self.trees)]
        if not self.idle(t) or not isinstance(t.op.obj, Tensor) or t.tup:
            return None
        lv = int(num(lv)) % t.op.depth
        t.op.obj.setFormat(t.op.obj.getRankIds()[lv], "U" if fmt == "U" else "C")
        t.op.fmts[lv] = "U" if fmt == "U" else "C"

    # -- materialising
    def gen_fromlazy(self, rng):
        tgt = self.rand_target(rng)
        return tgt + [self.gen_lexpr(rng, tgt)]

    def do_fromlazy(self, ti, path, ops):
        t, f, lv = self.resolve(ti, path)
        if self.locked(f):
            return None
        fib, want, lazy = self.build(t, f, lv, ops)
        if not lazy:
            return None
        if any(id(g) in self.active for g in self.below(t, f)[1:]) and "U" in t.op.fmts:
            return None    # what lies outside the active range of an uncompressed rank is not presented
        e = lib("fromLazy", Fiber.fromLazy, fib)
        d = t.op.depth - lv
        exp = {}
        for c, p in want:
            if d == 1:
                exp[(c,)] = p.value
            else:
                exp.update({(c,) + k: v for k, v in T.content(p, d - 1, t.op.default).items()})
        if lib("isLazy", e.isLazy):
            raise Violation("materialise", "fromLazy returned a lazy fiber")
        T.check_wellformed(e, d, "materialised fiber")
        got = T.content(e, d, t.op.default)
        if got != exp:
            raise Violation("materialise", f"materialising {ops} of {f!r} gave {got}, the lazy fiber delivers {exp}")
        twice = [lib("iterate", lambda: [(c, id(p)) for c, p in fib]) for _ in range(2)]
        if twice[0] != twice[1] or twice[0] != [(c, id(p)) for c, p in want]:
            raise Violation("repeat", f"two iterations of one lazy fiber differ: {twice}")
        if d == 1 and lib("iterate", lambda: [(c, S.unwrap(p).value) for c, p in e]) != [(k[0], v) for k, v in sorted(exp.items())]:
            raise Violation("materialise", f"the materialised fiber iterates differently: {e!r}")
        # writing to the materialised fiber must not reach the source (checked by check())
        if d == 1 and e.payloads:
            e.payloads[0] <<= 55
        self.ctx.probe("materialised")

    # -- faults
    def gen_kill(self, rng):
        return [rng.randrange(len(self.tasks)), rng.choice(["close", "throw", "drop"])] if self.tasks else None

    def do_kill(self, i, how):
        if not self.tasks:
            return None
        k = self.tasks.pop(int(num(i)) % len(self.tasks))
        self.ctx.fault("traversal_" + str(how))
        try:
            if how == "close" and hasattr(k.gen, "close"):
                k.gen.close()
            elif how == "throw" and hasattr(k.gen, "throw"):
                k.gen.throw(InjectedFault())
        except (InjectedFault, StopIteration):
            pass

    def gen_restart(self, rng):
        return [rng.choice(["pickle", "deepcopy"])]

    def do_restart(self, how):
        fn = copy.deepcopy if how == "deepcopy" else (lambda o: pickle.loads(pickle.dumps(o)))
        self.tasks = []
        for t in self.trees:
            old = [(f, self.active.get(id(f))) for f in self.order(t)]
            t.op.obj = lib("restart", fn, t.op.obj)
            for f, (_, a) in zip(self.order(t), old):
                if a is not None:
                    self.active[id(f)] = a
            t.old = old
            t.sync()
        live = {id(f) for t in self.trees for f in self.order(t)}
        self.active = {k: v for k, v in self.active.items() if k in live}
        self.ctx.fault("restart_" + str(how))

    def order(self, t):
        return self.below(t, t.root)

    # ------------------------------------------------------------- oracles
    def check(self):
        for i, t in enumerate(self.trees):
            t.check(f"tree {i}")

    def finish(self):
        for k in list(self.tasks):
            while self.advance(k) is not None:
                self.check()
        for i, t in enumerate(self.trees):
            if isinstance(t.op.obj, Tensor):
                T.check_ranks(t.op.obj, f"tree {i}")
        self.tasks = []

    def state_key(self):
        return (tuple(T.snap(t.root) for t in self.trees),
                tuple((k.mode, k.k, tuple(c for c, _ in k.want)) for k in self.tasks))

    def nontrivial(self):
        return self.items >= 5 and len(self.modes) >= 2

    def close(self):
        self.tasks = []
