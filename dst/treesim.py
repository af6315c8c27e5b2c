"""Shared simulated world for C01 and C02: several trees, clients holding
references into them, suspended generators, and a scheduler that interleaves
public mutators, injected callback faults, cancellations and restarts."""
import copy
import os
import pickle

import yaml

from fibertree import Fiber, Payload, Tensor
from fibertree.core.coord_payload import CoordPayload

from .engine import (BaseWorld, DONE, InjectedFault, LibRaised, Violation, lib, lib_next)
from . import tree as T

MAXH = 6
MAXK = 4


class Handle:
    __slots__ = ("obj", "depth", "lazy")

    def __init__(self, obj, depth):
        self.obj = obj
        self.depth = depth


class Task:
    __slots__ = ("gen", "cur", "kind", "steps", "depth", "two")

    def __init__(self, gen, kind, depth, two=False):
        self.two = two      # z1 << (z2 << a)
        self.gen = gen
        self.cur = None     # (object, depth) of the offered reference
        self.kind = kind
        self.steps = 0
        self.depth = depth


class Slot:
    """One tree: a tensor or an unowned fiber."""
    __slots__ = ("obj", "depth", "shape", "default", "tup")

    def __init__(self, obj, depth, shape, default=0, tup=False):
        self.obj = obj
        self.depth = depth
        self.shape = shape
        self.default = default
        self.tup = tup

    @property
    def root(self):
        return self.obj.getRoot() if isinstance(self.obj, Tensor) else self.obj


def ix(x, n):
    """Total list index from any JSON value."""
    if n <= 0:
        return None
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return 0
    return int(x) % n


def num(x, d=0):
    return x if isinstance(x, (int, float)) and not isinstance(x, bool) else d


class TreeWorld(BaseWorld):
    """Subclasses say which ops exist and what is checked."""

    OPS = ()            # (name, weight)
    TENSORS_ONLY = False

    # ------------------------------------------------------------ set up
    def __init__(self, cfg, ctx):
        super().__init__(cfg, ctx)
        self.slots = []
        self.handles = []
        self.tasks = []
        self.muts = 0
        self.rejects = 0
        for tc in cfg["trees"]:
            self.slots.append(self.make(tc))

    def K(self, tup, c):
        """Coordinate of scheduler integer c; tup is a coordinate of the kind wanted, or True for pairs."""
        c = int(num(c))
        if not isinstance(tup, tuple):
            return (c // 3, c % 3) if tup else c
        digits = [c // 3 ** i % 3 for i in range(len(self.flat(tup)))]
        digits[-1] = c // 3 ** (len(digits) - 1)

        def like(t):
            return tuple(like(x) for x in t) if isinstance(t, tuple) else digits.pop()
        return like(tup)

    def plan2coords(self, plan, tup):
        if not tup:
            return plan
        return [[[c // 3, c % 3] if isinstance(c, int) else c, p] for c, p in plan]

    def make(self, tc):
        kind, depth = tc["kind"], max(1, min(3, int(num(tc["depth"], 1))))
        shape = [max(1, int(num(s, 1))) for s in (tc.get("shape") or [])][:depth]
        shape += [3] * (depth - len(shape))
        default = num(tc.get("default", 0))
        plan = self.clip(T.norm_plan(tc.get("plan", []), depth), shape)
        tup = bool(tc.get("tup")) and depth == 1 and kind in ("fiber", "tensor")
        if kind == "fiber":
            f = T.build_fiber(self.plan2coords(plan, tup), depth,
                              shape if tc.get("decl") and not tup else None, default)
            return Slot(f, depth, shape, default, tup)
        ids = T.rank_names(depth)
        sh = list(shape) if tc.get("decl", True) else None
        if kind == "tensor":
            f = T.build_fiber(self.plan2coords(plan, tup), depth, None if tup else sh, default)
            t = Tensor.fromFiber(ids, f, shape=None if tup else sh, default=default)
        elif kind == "empty":
            t = Tensor(rank_ids=ids, shape=sh, default=default)
            for pt, v in self.points(plan, depth):
                ref = t.getPayloadRef(*pt)
                ref <<= v
        elif kind == "nest":
            t = Tensor.fromUncompressed(ids, self.nest(plan, shape, default), shape=sh, default=default)
        elif kind == "random":
            t = Tensor.fromRandom(ids, shape, [1.0] * (depth - 1) + [0.5], 9, seed=int(num(tc.get("seed", 1))))
        elif kind == "populated":
            t = Tensor.makePopulated(ids, shape, initial=num(tc.get("initial", 1)), default=default)
        elif kind == "yaml":
            src = T.build_tensor(plan, depth, shape, default)
            p = self.tmp("t.yaml")
            src.dump(p)
            t = Tensor.fromYAMLfile(p)
            os.unlink(p)
            default = 0
        else:
            raise ValueError(kind)
        return Slot(t, depth, shape, default, tup)

    def tmp(self, name):
        d = os.environ.get("DST_SCRATCH") or "/tmp"
        return os.path.join(d, f"{os.getpid()}-{name}")

    def clip(self, plan, shape):
        out = []
        for c, p in plan:
            if not isinstance(c, int) or c >= shape[0]:
                continue
            out.append([c, self.clip(p, shape[1:]) if len(shape) > 1 else p])
        return out

    def points(self, plan, depth, prefix=()):
        for c, p in plan:
            if depth > 1:
                yield from self.points(p, depth - 1, prefix + (c,))
            else:
                yield prefix + (c,), p

    def nest(self, plan, shape, default):
        d = {c: p for c, p in plan}
        if len(shape) == 1:
            return [d.get(c, default) for c in range(shape[0])]
        return [self.nest(d.get(c, []), shape[1:], default) for c in range(shape[0])]

    # ------------------------------------------------------- selectors
    def target(self, sel):
        """-> (obj, depth, slot) ; obj is a Fiber (depth>=1) or a box (0)."""
        if not isinstance(sel, list) or not sel:
            return None
        if sel[0] == "t":
            s = self.slots[ix(sel[1] if len(sel) > 1 else 0, len(self.slots))]
            path = sel[2] if len(sel) > 2 and isinstance(sel[2], list) else []
            f, d = T.resolve(s.root, s.depth, [int(num(x)) for x in path])
            return f, d, s
        if sel[0] == "h":
            i = ix(sel[1] if len(sel) > 1 else 0, len(self.handles))
            if i is None:
                return None
            h = self.handles[i]
            return h.obj, h.depth, self.slots[0]
        if sel[0] == "k":
            i = ix(sel[1] if len(sel) > 1 else 0, len(self.tasks))
            if i is None or self.tasks[i].cur is None:
                return None
            o, d = self.tasks[i].cur
            return o, d, self.slots[0]
        return None

    def gen_target(self, rng, want=None):
        for _ in range(6 if want else 0):
            x = self.gen_target(rng)
            t = self.target(x)
            if t is not None and t[1] == want:
                return x
        r = rng.random()
        if r < 0.25 and self.handles:
            return ["h", rng.randrange(len(self.handles))]
        if r < 0.45 and any(k.cur for k in self.tasks):
            return ["k", rng.choice([i for i, k in enumerate(self.tasks) if k.cur])]
        t = 0 if rng.random() < 0.85 else rng.randrange(len(self.slots))
        depth = self.slots[t].depth
        return ["t", t, [rng.randrange(4) for _ in range(rng.randrange(depth))]]

    def gen_value(self, rng):
        return rng.choice([0, 0, 1, 2, 3, 5, -1, 2.5])

    def gen_coord(self, rng, f=None, shape=4):
        if isinstance(f, Fiber) and f.coords and rng.random() < 0.5:
            c = rng.choice(f.coords)
            if isinstance(c, tuple):
                fl = self.flat(c)
                c = sum(x * 3 ** i for i, x in enumerate(reversed(fl)))
            return max(0, c + rng.choice([-1, 0, 0, 1]))
        wide = max(max(s.shape) for s in self.slots)
        if wide > 8 and rng.random() < 0.5:
            return T.rand_coord(rng, wide + 1)
        return rng.randrange(shape + 1)

    def gen_plan(self, rng, depth, must=False):
        return T.rand_plan(rng, depth, [4] * depth, density=rng.choice([0.2, 0.5, 0.8]))

    def fiber_from(self, plan, depth, tup=False, offset=0):
        plan = T.norm_plan(plan, depth)
        if offset:
            plan = [[c + offset, p] for c, p in plan]
        return T.build_fiber(self.plan2coords(plan, tup), depth, None, 0)

    def value_for(self, v, depth):
        """A JSON value as a payload argument of the right depth."""
        if depth >= 1:
            if isinstance(v, list) and v and v[0] == "plan":
                return self.fiber_from(v[1] if len(v) > 1 else [], depth)
            if isinstance(v, list) and v and v[0] == "of":
                tgt = self.target(v[1] if len(v) > 1 else None)
                if tgt and isinstance(tgt[0], Fiber) and tgt[1] == depth:
                    return tgt[0]
            if isinstance(v, list) and v and v[0] == "wrap" and depth >= 2:
                # a new fiber around fibers that are already somewhere
                kids = []
                for x in (v[1] if len(v) > 1 and isinstance(v[1], list) else [])[:3]:
                    tgt = self.target(x)
                    if tgt and isinstance(tgt[0], Fiber) and tgt[1] == depth - 1 and not self.is_tup(tgt[0]):
                        kids.append(tgt[0])
                if kids:
                    self.ctx.probe("wrapped-live-fibers")
                    return Fiber(list(range(len(kids))), kids, default=Fiber)
            return self.fiber_from([], depth)
        if isinstance(v, list) and v and v[0] == "box":
            return Payload(num(v[1] if len(v) > 1 else 1, 1))
        if isinstance(v, list) and v and v[0] == "cp":
            return CoordPayload(0, num(v[1] if len(v) > 1 else 1, 1))
        return num(v, 1)

    def misfit(self, rank, val):
        """Would this fiber bring tuples into an integer rank or the other way?"""
        level = [val] if isinstance(val, Fiber) else []
        while rank is not None and level:
            have = {isinstance(c, tuple) for f in rank.getFibers() for c in f.coords}
            have |= {isinstance(x, tuple) for x in [rank.getAttrs().getShape()] if x}
            mine = {isinstance(c, tuple) for f in level for c in f.coords}
            mine |= {isinstance(x, tuple) for f in level for x in [f.getRankAttrs().getShape()] if x}
            if len(have | mine) > 1:
                return True
            level = [p for f in level for p in f.payloads if isinstance(p, Fiber)]
            rank = rank.getNextRank()
        return False

    def below(self, f):
        o = f.getOwner()
        return None if o is None else o.getNextRank()

    def gen_val_for(self, rng, depth):
        if depth >= 1:
            if depth >= 2 and rng.random() < 0.15:
                return ["wrap", [self.gen_target(rng, depth - 1) for _ in range(rng.randint(1, 2))]]
            if rng.random() < 0.25:
                return ["of", self.gen_target(rng)]
            return ["plan", self.gen_plan(rng, depth)]
        v = self.gen_value(rng)
        r = rng.random()
        if r < 0.2:
            return ["box", v]
        if r < 0.3:
            return ["cp", v]
        return v

    def is_tup(self, f, s=None):
        """Does this fiber use tuple coordinates?"""
        if isinstance(f, Fiber) and f.coords:
            return f.coords[0] if isinstance(f.coords[0], tuple) else False
        return any(s.tup and f is s.root for s in self.slots)

    # --------------------------------------------------------- snapshots
    def snap_all(self):
        """Values and identities of everything reachable."""
        out = []
        for s in self.slots:
            r = s.root
            out.append((T.snap(r), T.idsnap(r)))
        for h in self.handles:
            out.append((T.snap(h.obj), T.idsnap(h.obj)))
        return out

    def attempt(self, what, fn, *a, **kw):
        """A mutator call; rejection is allowed, escape of faults is noted."""
        try:
            return True, lib(what, fn, *a, **kw)
        except InjectedFault:
            self.ctx.fault("callback_raise")
            return False, "fault"
        except LibRaised as e:
            self.rejects += 1
            self.ctx.fault("rejected:" + what)
            return False, type(e.exc).__name__

    def order_rejected(self, what, illegal, before, ok):
        """The second half of C01: an illegal order leaves no trace."""
        if illegal and not ok:
            self.ctx.probe("order-rejection:" + what)
            if self.snap_all() != before:
                raise Violation("reject-not-atomic",
                                f"{what} was rejected for its coordinate order but changed the tree",
                                sig=f"reject-not-atomic|{what}")

    # --------------------------------------------------------- scheduler
    def gen_step(self, rng):
        for _ in range(20):
            name = rng.choices([o for o, _ in self.OPS], [w for _, w in self.OPS])[0]
            step = getattr(self, "gen_" + name)(rng)
            if step is not None:
                return [name] + step
        return ["noop"]

    def exec_step(self, step):
        if step[0] == "noop":
            return None
        fn = getattr(self, "do_" + step[0], None)
        if fn is None:
            return None
        try:
            obs = fn(*step[1:])
        except TypeError as e:
            # malformed step produced by shrinking: arity only
            if "positional argument" in str(e) and "do_" in str(e):
                return "malformed"
            raise
        return obs

    # --- references and inserts
    def gen_ref(self, rng):
        tgt = self.gen_target(rng)
        f = self.target(tgt)
        if f is None or not isinstance(f[0], Fiber):
            return None
        n = rng.randint(1, f[1])
        return [tgt, [self.gen_coord(rng, f[0] if i == 0 else None) for i in range(n)]]

    def do_ref(self, sel, coords):
        t = self.target(sel)
        if t is None or not isinstance(t[0], Fiber) or not isinstance(coords, list):
            return None
        f, d, s = t
        coords = coords[:d] or [0]
        tup = self.is_tup(f)
        cs = [self.K(tup, c) for c in coords]
        ok, r = self.attempt("getPayloadRef", f.getPayloadRef, *cs)
        self.muts += 1
        if ok:
            self.keep(r, d - len(cs))
        return ok

    def gen_posref(self, rng):
        tgt = self.gen_target(rng)
        f = self.target(tgt)
        if f is None or not isinstance(f[0], Fiber):
            return None
        return [tgt, self.gen_coord(rng, f[0])]

    def do_posref(self, sel, c):
        t = self.target(sel)
        if t is None or not isinstance(t[0], Fiber):
            return None
        f, d, s = t
        tup = self.is_tup(f)
        ok, r = self.attempt("getPositionRef", f.getPositionRef, self.K(tup, c))
        self.muts += 1
        return ok, r if ok else None

    def keep(self, obj, depth):
        if depth == 0 and not isinstance(obj, Payload):
            return
        if depth > 0 and not isinstance(obj, Fiber):
            return
        self.handles.append(Handle(obj, depth))
        if len(self.handles) > MAXH:
            self.handles.pop(0)

    # --- assignment / arithmetic through a handle or a fiber
    def gen_assign(self, rng):
        tgt = self.gen_target(rng)
        t = self.target(tgt)
        if t is None:
            return None
        op = rng.choice(["ilshift", "ilshift", "iadd", "isub", "imul"])
        if t[1] == 0:
            return [tgt, op, self.gen_val_for(rng, 0)]
        if op == "isub":
            op = "iadd"
        if op in ("iadd", "imul") and rng.random() < 0.5:
            return [tgt, op, self.gen_value(rng)]
        return [tgt, op, self.gen_val_for(rng, t[1])]

    def do_assign(self, sel, op, v):
        t = self.target(sel)
        if t is None:
            return None
        obj, d, s = t
        if d >= 1 and self.dense(obj) > 30000:
            return "too-wide"
        if d >= 1:
            if isinstance(v, list) and v and v[0] in ("plan", "of"):
                val = self.value_for(v, d)
                if self.is_tup(obj) or self.is_tup(val) or self.misfit(obj.getOwner(), val):
                    return None
            elif op == "ilshift":
                return None
            else:
                val = num(v, 1)
        else:
            val = self.value_for(v, 0)

        def run():
            x = obj
            if op == "ilshift":
                x <<= val
            elif op == "iadd":
                x += val
            elif op == "isub":
                x -= val
            else:
                x *= val
        if op == "isub" and d >= 1:
            return None
        ok, _ = self.attempt(("fiber " if d else "box ") + op, run)
        self.muts += 1
        return ok

    # --- append / extend / setitem
    def gen_append(self, rng):
        tgt = self.gen_target(rng)
        t = self.target(tgt)
        if t is None or t[1] == 0:
            return None
        return [tgt, self.gen_coord(rng, t[0]) + rng.choice([0, 0, 2]), self.gen_val_for(rng, t[1] - 1)]

    @staticmethod
    def dense(f):
        """Number of points a walk over the whole shape of f visits."""
        n = 1
        try:
            shape = f.getShape(all_ranks=True)
        except Exception:
            return 1
        for x in shape if isinstance(shape, list) else [shape]:
            if isinstance(x, int):
                n *= max(1, x)
        return n

    def do_append(self, sel, c, v):
        t = self.target(sel)
        if t is None or t[1] == 0:
            return None
        f, d, s = t
        if isinstance(v, list) and v and v[0] == "cp":
            v = v[1] if len(v) > 1 else 1
        tup = self.is_tup(f)
        c = self.K(tup, c)
        val = self.value_for(v, d - 1)
        if self.misfit(self.below(f), val):
            return "misfit"
        if self.cyclic(f, val):
            return None
        illegal = bool(f.coords) and c <= f.coords[-1]
        before = self.snap_all()
        ok, _ = self.attempt("append", f.append, c, val)
        self.order_rejected("append", illegal, before, ok)
        self.muts += 1
        return ok

    def cyclic(self, f, val):
        """val contains f: inserting it would make the structure cyclic."""
        if not isinstance(val, Fiber):
            return False
        if val is f:
            return True
        return any(self.cyclic(f, p) for p in val.payloads if isinstance(p, Fiber))

    def gen_extend(self, rng):
        tgt = self.gen_target(rng)
        t = self.target(tgt)
        if t is None or t[1] == 0:
            return None
        if rng.random() < 0.3:
            return [tgt, ["of", self.gen_target(rng)], 0]
        off = 0
        if t[0].coords and not self.is_tup(t[0]) and rng.random() < 0.7:
            off = t[0].coords[-1] + rng.choice([0, 1])
        return [tgt, ["plan", self.gen_plan(rng, t[1])], off]

    def do_extend(self, sel, v, off):
        t = self.target(sel)
        if t is None or t[1] == 0 or not isinstance(v, list) or not v:
            return None
        f, d, s = t
        if self.is_tup(f):
            return None
        if v[0] == "plan":
            other = self.fiber_from(v[1] if len(v) > 1 else [], d, offset=int(num(off)))
        else:
            other = self.value_for(v, d)
        if self.is_tup(other) or other is f or self.cyclic(f, other) or self.misfit(f.getOwner(), other):
            return None
        illegal = bool(f.coords) and bool(other.coords) and other.coords[0] <= f.coords[-1]
        before = self.snap_all()
        ok, _ = self.attempt("extend", f.extend, other)
        self.order_rejected("extend", illegal, before, ok)
        self.muts += 1
        return ok

    def gen_setitem(self, rng):
        tgt = self.gen_target(rng)
        t = self.target(tgt)
        if t is None or t[1] == 0:
            return None
        f = t[0]
        n = len(f.coords)
        pos = rng.randint(-n - 1, n) if rng.random() < 0.3 else (rng.randrange(n) if n else 0)
        mode = rng.choice(["both", "coord", "pay"])
        return [tgt, pos, mode, self.gen_coord(rng, f), self.gen_val_for(rng, t[1] - 1)]

    def do_setitem(self, sel, pos, mode, c, v):
        t = self.target(sel)
        if t is None or t[1] == 0:
            return None
        f, d, s = t
        if isinstance(v, list) and v and v[0] == "cp":
            v = v[1] if len(v) > 1 else 1
        pos = int(num(pos))
        c = self.K(self.is_tup(f), c)
        val = self.value_for(v, d - 1)
        if self.misfit(self.below(f), val):
            return "misfit"
        if self.cyclic(f, val):
            return None
        n = len(f.coords)
        p = pos + n if pos < 0 else pos
        illegal = (mode != "pay" and 0 <= p < n and
                   ((p > 0 and c <= f.coords[p - 1]) or (p + 1 < n and c >= f.coords[p + 1])))
        if mode == "both":
            arg = CoordPayload(c, val)
        elif mode == "coord":
            arg = CoordPayload(c, None)
        else:
            arg = val
        before = self.snap_all()

        def run():
            f[pos] = arg
        ok, _ = self.attempt("setitem", run)
        self.order_rejected("setitem", illegal, before, ok)
        self.muts += 1
        return ok

    # --- coordinate and payload updates
    def gen_updateCoords(self, rng):
        tgt = self.gen_target(rng)
        t = self.target(tgt)
        if t is None or t[1] == 0:
            return None
        fn = rng.choice([["add", rng.randrange(3)], ["rev", rng.choice([4, 6])], ["const", rng.randrange(3)],
                         ["div", 2], ["tab", [rng.randrange(5) for _ in range(5)]],
                         ["perm", rng.sample(range(5), 5)]])
        return [tgt, fn, rng.randrange(t[1]), rng.choice([-1, -1, -1, 0, 1, 2]), rng.choice([None, None, 9])]

    def flat(self, c):
        return [y for x in c for y in self.flat(x)] if isinstance(c, tuple) else [c]

    def coord_fn(self, fn, tup):
        k = fn[0] if isinstance(fn, list) and fn else "add"
        a = fn[1] if isinstance(fn, list) and len(fn) > 1 else 0

        def f(c):
            c = sum(self.flat(c)) if tup else c
            if k == "add":
                r = c + int(num(a))
            elif k == "rev":
                r = abs(int(num(a)) + 40 - c)
            elif k == "const":
                r = int(num(a))
            elif k == "div":
                r = c // max(1, int(num(a, 1)))
            else:
                tab = [int(num(x)) for x in a] if isinstance(a, list) and a else [0]
                r = tab[c] if 0 <= c < len(tab) else c + 10
            return self.K(tup, r)
        return f

    def do_updateCoords(self, sel, fn, depth, raise_at, new_shape):
        t = self.target(sel)
        if t is None or t[1] == 0:
            return None
        f, d, s = t
        depth = ix(depth, d)
        level = [f]
        for _ in range(depth):
            level = [p for x in level for p in x.payloads if isinstance(p, Fiber)]
        tup = any(map(self.is_tup, level))
        if any(isinstance(c, tuple) != tup for x in level for c in x.coords):
            return "mixed"
        g = self.coord_fn(fn, tup)
        calls = [0]

        def cb(i, c, p):
            calls[0] += 1
            if calls[0] - 1 == raise_at:
                raise InjectedFault()
            return g(c)
        # the same fiber object never appears twice in a tree
        illegal = any(len(set(map(g, x.coords))) < len(x.coords) for x in level) and \
            not (isinstance(raise_at, int) and raise_at >= 0)
        kw = {"depth": depth}
        if isinstance(new_shape, int) and not tup:
            kw["new_shape"] = max(new_shape, 1)
        before = self.snap_all()
        ok, _ = self.attempt("updateCoords", f.updateCoords, cb, **kw)
        self.order_rejected("updateCoords", illegal, before, ok)
        self.muts += 1
        return ok

    def gen_updatePayloads(self, rng):
        tgt = self.gen_target(rng)
        t = self.target(tgt)
        if t is None or t[1] == 0:
            return None
        if t[1] >= 2 and rng.random() < 0.6:
            back = rng.randint(1, t[1] - 1)
            return [tgt, rng.choice(["val", "val", "copy", "slice", "same", "mut"]), rng.choice([-1, -1, -1, 0, 1]),
                    back, [self.gen_val_for(rng, back) for _ in range(rng.randint(1, 2))]]
        return [tgt, rng.choice(["raw", "box", "zero", "same", "mut"]), rng.choice([-1, -1, -1, 0, 1])]

    def do_updatePayloads(self, sel, mode, raise_at, back=0, vals=()):
        t = self.target(sel)
        if t is None or t[1] == 0:
            return None
        f, d, s = t
        calls = [0]
        back = ix(back, d)
        if back >= 1:
            return self.update_fibers(f, d, mode, raise_at, back, vals if isinstance(vals, (list, tuple)) else [])

        def cb(i, c, p):
            calls[0] += 1
            if calls[0] - 1 == raise_at:
                raise InjectedFault()
            if mode == "raw":
                return p.value + 1
            if mode == "box":
                return p + 1
            if mode == "zero":
                return 0
            if mode == "mut":
                p += 1
            return p
        ok, _ = self.attempt("updatePayloads", f.updatePayloads, cb, depth=d - 1)
        self.muts += 1
        return ok

    def update_fibers(self, f, d, mode, raise_at, back, vals):
        """updatePayloads at an interior rank: the callback keeps, changes or replaces sub-fibers
        that have `back` ranks."""
        calls = [0]
        below = self.below(f)
        for _ in range(d - 1 - back):
            below = None if below is None else below.getNextRank()

        def cb(i, c, p):
            k = calls[0]
            calls[0] += 1
            if k == raise_at:
                raise InjectedFault()
            if mode == "copy":
                return p.copy(preserve_owner=False)
            if mode == "slice":
                return Fiber(p.coords[:1], p.payloads[:1]) if back == 1 and p.coords else p
            if mode == "mut":
                p.clear()
                return p
            # a live fiber is offered at most once per position of the list
            v = vals[k] if k < len(vals) else None
            if mode != "val" or v is None:
                return p
            val = self.value_for(v, back)
            if not isinstance(val, Fiber) or self.misfit(below, val) or self.cyclic(f, val):
                return p
            self.ctx.probe("updatePayloads:replaced-fiber")
            return val
        ok, _ = self.attempt("updatePayloads", f.updatePayloads, cb, depth=d - 1 - back)
        self.muts += 1
        return ok

    def gen_clear(self, rng):
        tgt = self.gen_target(rng)
        t = self.target(tgt)
        if t is None or t[1] == 0:
            return None
        return [tgt]

    def do_clear(self, sel):
        t = self.target(sel)
        if t is None or t[1] == 0:
            return None
        ok, _ = self.attempt("clear", t[0].clear)
        self.muts += 1
        return ok

    # --- deprecated inserts
    def gen_insert(self, rng):
        tgt = self.gen_target(rng)
        t = self.target(tgt)
        if t is None or t[1] == 0:
            return None
        return [tgt, rng.choice(["insert", "insertOrLookup", "insertOrLookup"]),
                self.gen_coord(rng, t[0]), self.gen_val_for(rng, t[1] - 1) if rng.random() < 0.7 else None]

    def do_insert(self, sel, how, c, v):
        t = self.target(sel)
        if t is None or t[1] == 0:
            return None
        f, d, s = t
        if isinstance(v, list) and v and v[0] == "cp":
            v = v[1] if len(v) > 1 else 1
        c = self.K(self.is_tup(f), c)
        val = None if v is None and how != "insert" else self.value_for(v, d - 1)
        if self.misfit(self.below(f), val):
            return "misfit"
        if self.cyclic(f, val):
            return None
        before = self.snap_all()
        illegal = how == "insert" and c in f.coords
        if how == "insert":
            ok, _ = self.attempt("insert", f.insert, c, val)
        else:
            ok, _ = self.attempt("insertOrLookup", f.insertOrLookup, c, val)
        self.order_rejected(how, illegal, before, ok)
        self.muts += 1
        return ok

    # --- tasks: populate and reference iteration
    def gen_spawn(self, rng):
        tgt = self.gen_target(rng)
        t = self.target(tgt)
        if t is None or t[1] == 0:
            return None
        kind = rng.choice(["populate"] * 5 + ["iterShapeRef", "iterActiveShapeRef", "iterRangeShapeRef",
                                              "coiterShapeRef", "coiterRangeShapeRef", "iterOccupancy"])
        if kind == "populate":
            r = rng.random()
            if r < 0.5:
                src = ["of", self.gen_target(rng)]
            else:
                src = ["plan", self.gen_plan(rng, t[1])]
            if rng.random() < 0.15:
                other = self.gen_target(rng, t[1])
                if other is not None:
                    return [kind, tgt, src, ["two", other]]
            return [kind, tgt, src, rng.choice(["plain", "plain", "and", "or", "prune"])]
        a = rng.randrange(4)
        b = rng.choice([a, a + 1, a + 3])
        if kind[:2] == "co" and rng.random() < 0.4:
            a = ["two", self.gen_target(rng, t[1]), a]
        return [kind, tgt, a, b]

    def do_spawn(self, kind, sel, a, b):
        if len(self.tasks) >= MAXK:
            return "full"
        t = self.target(sel)
        if t is None or t[1] == 0:
            return None
        f, d, s = t
        if kind == "populate":
            if self.is_tup(f):
                return None
            src = self.value_for(a if isinstance(a, list) else [], d)
            if self.is_tup(src):
                return None
            other = None
            if isinstance(b, list):
                other = self.target(b[1] if len(b) > 1 else None)
                if other is None or other[1] != d or other[0] is f or self.is_tup(other[0]):
                    return None
                self.ctx.probe("populate-two-destinations")
            def mk():
                if other:
                    return iter(f << (other[0] << src))
                x = src
                if b == "and":
                    x = src & src
                elif b == "or":
                    x = src | src
                elif b == "prune":
                    x = src.prune(lambda i, c, p: i % 2 == 0)
                return iter(f << x)
            if src is f and b == "plain":
                self.ctx.probe("self-populate")
        elif kind in ("iterShapeRef", "iterActiveShapeRef", "iterOccupancy"):
            def mk():
                return iter(getattr(f, kind)())
        elif kind == "iterRangeShapeRef":
            lo, hi = int(num(a)), int(num(b))
            def mk():
                return iter(f.iterRangeShapeRef(lo, hi))
        elif kind in ("coiterShapeRef", "coiterRangeShapeRef"):
            fs, lo = [f], a
            if isinstance(a, list):
                other = self.target(a[1] if len(a) > 1 else None)
                if other is not None and other[1] == d and not self.is_tup(other[0]):
                    fs.append(other[0])
                lo = a[2] if len(a) > 2 else 0
            lo, hi = int(num(lo)), int(num(b))
            if self.is_tup(f):
                return None
            def mk():
                if kind == "coiterShapeRef":
                    return iter(Fiber.coiterShapeRef(fs))
                return iter(Fiber.coiterRangeShapeRef(fs if len(fs) > 1 else fs * 2, lo, hi))
        else:
            return None
        if self.is_tup(f) and kind != "iterOccupancy":
            return None
        ok, gen = self.attempt("spawn " + kind, mk)
        if ok:
            self.tasks.append(Task(gen, kind, d, isinstance(a if kind[:2] == "co" else b, list)))
            self.ctx.probe("spawn:" + kind)
        return ok

    def gen_advance(self, rng):
        if not self.tasks:
            return None
        return [rng.randrange(len(self.tasks))]

    def do_advance(self, i):
        i = ix(i, len(self.tasks))
        if i is None:
            return None
        k = self.tasks[i]
        ok, item = self.attempt("advance " + k.kind, lib_next, k.kind, k.gen)
        self.muts += 1
        k.cur = None
        if not ok or item is DONE:
            self.tasks.pop(i)
            return "dead" if not ok else "done"
        k.steps += 1
        if len(self.tasks) > 1:
            self.ctx.probe("interleaved-advance")
        if k.kind == "iterOccupancy":
            c, p = item
            k.cur = (p, k.depth - 1)
        else:
            c, p = item
            p = T.unbox(p) if isinstance(p, Payload) and isinstance(p.value, tuple) else p
            if isinstance(p, tuple):
                q = p[1] if len(p) > 1 else None
                if k.kind == "populate":
                    q = T.unbox(q) if isinstance(q, Payload) and isinstance(q.value, tuple) else q
                    q = q[0] if isinstance(q, tuple) and q else None
                p = p[0]
                if k.two and k.steps % 2 and q is not None:
                    p = q       # the other destination's reference
            k.cur = (p, k.depth - 1)
        if isinstance(p, Fiber) != (k.depth > 1):
            k.cur = None        # an unowned fiber that cannot know its depth
        return [repr(c)]

    def gen_cancel(self, rng):
        if not self.tasks:
            return None
        return [rng.randrange(len(self.tasks)), rng.choice(["close", "throw", "drop"])]

    def do_cancel(self, i, how):
        i = ix(i, len(self.tasks))
        if i is None:
            return None
        k = self.tasks.pop(i)
        self.ctx.fault("loop_" + str(how))
        try:
            if how == "close":
                k.gen.close()
            elif how == "throw":
                k.gen.throw(InjectedFault())
            else:
                self.tasks_dropped = getattr(self, "tasks_dropped", [])
                self.tasks_dropped.append(k)     # forgotten, never finalised early
        except (InjectedFault, StopIteration):
            pass
        except Exception as e:
            self.ctx.fault("rejected:cancel")
        return how

    # --- constructors handed coordinates in any order
    def gen_construct(self, rng):
        d = rng.choice([1, 1, 2])
        plan = T.rand_plan(rng, d, [5] * d, density=rng.choice([0.5, 0.8]))

        def spoil(p, d):
            r = rng.random()
            if p and r < 0.2:
                rng.shuffle(p)
            elif p and r < 0.35:
                x = rng.choice(p)
                p.insert(rng.randrange(len(p) + 1), [x[0], x[1]])
            elif d > 1:
                for x in p:
                    if rng.random() < 0.3:
                        spoil(x[1], d - 1)
        spoil(plan, d)
        return [rng.choice(["list", "pairs", "dict", "file", "tensor", "payloads", "coords"]), d, plan,
                rng.choice([0, 0, 0, 0, 1, -1]), rng.randrange(1, 3)]

    def do_construct(self, how, d, plan, extra, slot):
        """Coordinates out of order, repeated, or not paired: refused, or put right."""
        d = 2 if num(d) == 2 else 1

        def read(p, d):
            return [(int(num(x[0])), read(x[1], d - 1) if d > 1 else num(x[1], 1)) for x in (p if isinstance(p, list) else [])
                    if isinstance(x, list) and len(x) == 2 and (d == 1 or isinstance(x[1], list))]
        plan = read(plan, d)
        ok_order = [True]

        def judge(p, d):
            cs = [c for c, _ in p]
            if any(a >= b for a, b in zip(cs, cs[1:])):
                ok_order[0] = False
            for _, x in p if d > 1 else []:
                judge(x, d - 1)
        judge(plan, d)

        def fib(p, d, top=True):
            cs, ps = [c for c, _ in p], [fib(x, d - 1, False) if d > 1 else x for _, x in p]
            kw = {"default": Fiber} if d > 1 else {}
            if top and how == "pairs" and p:
                return Fiber.fromCoordPayloadList([CoordPayload(c, x) for c, x in zip(cs, ps)], **kw)
            if top and how == "payloads":
                return Fiber(payloads=ps, **kw)
            if top and how == "coords" and d == 1:
                return Fiber(cs, initial=2)
            if top and how == "list" and extra and d == 1:
                ps = ps + [5] if extra > 0 else ps[1:]
            return Fiber(cs, ps, **kw)

        def dic(p, d):
            return {"fiber": {"coords": [c for c, _ in p], "payloads": [dic(x, d - 1) if d > 1 else x for _, x in p]}}

        def run():
            if how == "tensor":
                return Tensor.fromFiber(T.rank_names(d), fib(plan, d))
            if how == "dict":
                return Fiber.dict2fiber(dic(plan, d))
            if how == "file":
                p = self.tmp("c.yaml")
                with open(p, "w") as fh:
                    fh.write(yaml.safe_dump(dic(plan, d)))
                try:
                    return Fiber.fromYAMLfile(p)
                finally:
                    os.unlink(p)
            return fib(plan, d)
        ok, obj = self.attempt("construct:" + str(how), run)
        if ok:
            if how in ("dict", "file") and d > 1:
                obj.setDefault(Fiber)       # the dictionary form does not say what is below
            s = Slot(obj, d, [5] * d, 0, False)
            i = 1 + abs(int(num(slot))) % 2
            self.slots[i:i + 1] = [s]
            if not ok_order[0]:
                self.ctx.probe("misordered-input-put-right")
        elif ok_order[0] and not (how == "list" and extra):
            raise Violation("constructor-refused", f"{how} refused the well-ordered {plan}: {obj}")
        self.muts += 1
        return ok

    # --- whole-tree events
    def gen_setRoot(self, rng):
        s = self.slots[0]
        if not isinstance(s.obj, Tensor):
            return None
        r = rng.random()
        return [0, ["plan", self.gen_plan(rng, s.depth)] if r < 0.5 else self.gen_val_for(rng, s.depth) if r < 0.75 else
                ["of", ["t", rng.randrange(len(self.slots)), []]]]

    def do_setRoot(self, i, v):
        s = self.slots[ix(i, len(self.slots))]
        if not isinstance(s.obj, Tensor) or s.tup:
            return None
        val = self.value_for(v, s.depth)
        if self.misfit(s.obj.ranks[0], val):
            return "misfit"
        ok, _ = self.attempt("setRoot", s.obj.setRoot, val)
        self.muts += 1
        return ok

    def gen_restart(self, rng):
        return [rng.randrange(len(self.slots)), rng.choice(["deepcopy", "pickle"])]

    def do_restart(self, i, how):
        """The process goes away: only what serialises survives."""
        s = self.slots[ix(i, len(self.slots))]
        fn = copy.deepcopy if how == "deepcopy" else (lambda x: pickle.loads(pickle.dumps(x)))
        before = T.snap(s.root)
        ok, new = self.attempt("restart", fn, s.obj)
        if ok:
            s.obj = new
            self.handles = []
            self.tasks = []
            self.ctx.fault("restart_" + str(how))
            if T.snap(s.root) != before:
                raise Violation("restart-lost-state", f"{how} of the tree changed its structure: "
                                f"{before} became {T.snap(s.root)}")
        return ok

    # --------------------------------------------------------- reporting
    def state_key(self):
        return (tuple(self.shape_key(s.root) for s in self.slots),
                tuple((k.kind, k.steps, k.cur is not None) for k in self.tasks),
                tuple(h.depth for h in self.handles))

    def shape_key(self, f):
        if isinstance(f, Fiber):
            return (tuple(f.coords), tuple(self.shape_key(p) for p in f.payloads))
        v = T.unbox(f)
        return 0 if v == 0 else 1

    def nontrivial(self):
        return self.muts >= 3

    def close(self):
        self.tasks = []
        self.tasks_dropped = []
