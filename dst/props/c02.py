"""C02: the rank lists of a tensor mirror its fibertree under every history."""
from fibertree import Fiber, Payload, Tensor
from fibertree.model.format import Format

from .. import tree as T
from ..engine import Violation, lib
from ..treesim import MAXH, Slot, TreeWorld, ix, num

RUNS = {"quick": 28000, "thorough": 350000}
CHUNK = 70
RULE = ("a run is nontrivial when it executed at least three mutators or transforms on real tensors; distinct "
        "runs are counted by the digest of their event log")
STATE_MEASURE = ("distinct (coordinates and zero/non-zero pattern of every tensor, kind and progress of every "
                 "suspended loop, depths of the held references) triples reached after a step")
ASSUMPTIONS = [
    "payload arguments have the depth of the rank they are written to",
    "at an interior rank the function given to Fiber.updatePayloads returns a fiber with as many ranks",
    "rank lists are compared by object identity, in any order",
]
MAXS = 3


class World(TreeWorld):
    OPS = (("ref", 10), ("posref", 3), ("assign", 12), ("append", 5), ("extend", 4), ("setitem", 5),
           ("updateCoords", 2), ("updatePayloads", 2), ("clear", 3), ("insert", 3), ("spawn", 8),
           ("advance", 20), ("cancel", 3), ("setRoot", 2), ("restart", 2), ("transform", 4),
           ("observe", 4), ("absent", 3), ("slice", 1), ("compare", 2))

    @classmethod
    def gen_config(cls, rng):
        trees = []
        depth = rng.randint(1, 3)
        shape = T.rand_shape(rng, depth, 5)
        for i in range(2):
            kind = rng.choice(["tensor", "tensor", "empty", "nest", "random", "populated", "yaml"])
            trees.append({"kind": kind, "depth": depth, "shape": shape, "decl": rng.random() < 0.7,
                          "tup": rng.random() < 0.1 and i == 0,
                          "plan": T.rand_plan(rng, depth, shape, rng.choice([0.3, 0.6, 0.9])),
                          "default": 0, "seed": rng.randrange(1000)})
        return {"trees": trees, "n_steps": rng.randint(6, 36)}

    # -- transforms: the result becomes another live tensor
    def gen_transform(self, rng):
        i = rng.randrange(len(self.slots))
        s = self.slots[i]
        d = s.depth
        kinds = ["updateCoords", "updatePayloads", "deepcopy", "slice_tensor", "self_tensor"]
        if d < 4:
            kinds += ["splitUniform", "splitNonUniform", "splitEqual", "splitUnEqual", "div", "floordiv"] * 2
        if d >= 2:
            kinds += ["swap", "swizzle", "flatten", "merge"] * 2
        if any(isinstance(r, list) for r in s.obj.getRankIds()):
            kinds += ["unflatten"] * 30
        k = rng.choice(kinds)
        return [i, k, rng.randrange(4), rng.randrange(1, 4), rng.choice(["tuple", "pair", "absolute", "relative", "linear"]),
                rng.choice([0, 0, rng.randrange(8)])]

    def do_transform(self, i, k, a, b, style, x=0):
        s = self.slots[ix(i, len(self.slots))]
        t, d = s.obj, s.depth
        a, b, x = int(num(a)), max(1, int(num(b, 1))), abs(int(num(x)))
        nd = d
        tup = s.tup
        if k in ("splitUniform", "splitEqual", "splitNonUniform", "splitUnEqual"):
            if d >= 4:
                return None
            arg = {"splitUniform": b, "splitEqual": b, "splitNonUniform": [0, b],
                   "splitUnEqual": [b, 1]}[k]
            dep = a % d
            nd = d + 1
            kw = {}
            for bit, key, v in ((1, "pre_halo", 1), (2, "post_halo", 2), (4, "relativeCoords", True)):
                if x & bit:
                    kw[key] = v
            def fn():
                return getattr(t, k)(arg, depth=dep, **kw)
        elif k in ("div", "floordiv"):
            if d >= 4:
                return None
            nd = d + 1
            def fn():
                return t / b if k == "div" else t // b
        elif k == "swap":
            if d < 2:
                return None
            def fn():
                return t.swapRanks(depth=a % (d - 1))
        elif k == "swizzle":
            ids = t.getRankIds()
            if d < 2:
                return None
            ids = ids[a % d:] + ids[:a % d]
            if b % 2:
                ids = ids[::-1]
            def fn():
                return t.swizzleRanks(ids)
        elif k in ("flatten", "merge"):
            if d < 2 or tup:
                return None
            dep = a % (d - 1)
            lv = 1 + x % (d - 1 - dep)
            nd = d - lv
            def fn():
                if k == "merge":
                    return t.mergeRanks(depth=dep, levels=lv, coord_style=style,
                                        merge_fn=lambda ps: sum(p.value if isinstance(p, Payload) else p for p in ps))
                return t.flattenRanks(depth=dep, levels=lv, coord_style=style)
        elif k == "unflatten":
            ids = t.getRankIds()
            w = [j for j, r in enumerate(ids) if isinstance(r, list)]
            if not w or d >= 4:
                return None
            lv = max(1, min(len(ids[w[0]]) - 1, 1 + x % 2, 4 - d))
            nd = d + lv
            def fn():
                return t.unflattenRanks(depth=w[0], levels=lv)
        elif k == "updateCoords":
            def fn():
                return t.updateCoords(lambda i_, c, p: c if b < 3 or isinstance(c, tuple) else 9 - c, depth=a % d)
        elif k == "updatePayloads":
            dep = a % d if x else d - 1
            def fn():
                return t.updatePayloads(lambda i_, c, p: p if dep < d - 1 else p * 2, depth=dep)
        elif k == "slice_tensor":
            def fn():
                return Tensor.fromFiber(t.getRankIds(), t.getRoot()[0:b])
        elif k == "self_tensor":
            def fn():
                return Tensor.fromFiber(t.getRankIds(), t.getRoot())
        else:
            import copy
            def fn():
                return copy.deepcopy(t)
        ok, new = self.attempt("transform " + str(k), fn)
        if not ok:
            return False
        self.muts += 1
        if not isinstance(new, Tensor) or not isinstance(new.getRoot(), Fiber):
            return "not-a-tree"
        if len(new.ranks) != nd:
            return "depth"
        self.ctx.probe("transform:" + k)
        leaf = self.depth_of(new.getRoot())
        if leaf is not None and leaf != nd:
            return "ragged"
        ns = Slot(new, nd, [3] * nd, 0, tup or k in ("flatten", "merge") and style in ("tuple", "pair"))
        if len(self.slots) < MAXS:
            self.slots.append(ns)
        else:
            self.slots[ix(i, len(self.slots))] = ns
        return True

    def depth_of(self, f):
        for p in f.payloads:
            if isinstance(p, Fiber):
                x = self.depth_of(p)
                if x is not None:
                    return x + 1
            else:
                return 1
        return None

    # -- building blocks taken from a live tree without a copy
    def gen_slice(self, rng):
        return [self.gen_target(rng), rng.randrange(3), rng.randint(1, 4)]

    def do_slice(self, sel, a, b):
        t = self.target(sel)
        if t is None or t[1] == 0:
            return None
        ok, f = self.attempt("slice", lambda: t[0][int(num(a)):int(num(b))])
        if ok and isinstance(f, Fiber):
            self.keep(f, t[1])
        return ok

    # -- writes below a fiber that a read synthesised for an absent element
    def gen_absent(self, rng):
        tgt = self.gen_target(rng)
        t = self.target(tgt)
        if t is None or t[1] < 2:
            return None
        return [tgt, rng.randrange(6), rng.randrange(4), rng.randint(1, 5)]

    def do_absent(self, sel, c, c2, v):
        t = self.target(sel)
        if t is None or t[1] < 2 or self.is_tup(t[0]):
            return None
        ok, f = self.attempt("getPayload", t[0].getPayload, int(num(c)))
        if not ok or not isinstance(f, Fiber) or self.is_tup(f):
            return None
        if any(f is p for p in t[0].payloads):
            return "present"
        def go():
            x = f.getPayloadRef(*([int(num(c2))] * (t[1] - 1)))
            x += int(num(v, 1))
        ok, _ = self.attempt("write-absent", go)
        self.ctx.probe("write-below-absent")
        if ok:
            self.keep(f, t[1] - 1)
        return ok

    def gen_compare(self, rng):
        return [rng.randrange(len(self.slots)), rng.randrange(len(self.slots)), rng.choice(["eq", "or", "xor", "sub", "and"])]

    def do_compare(self, i, j, op):
        a, b = self.slots[ix(i, len(self.slots))], self.slots[ix(j, len(self.slots))]
        if a.tup or b.tup or a.depth != b.depth:
            return None
        if self.is_tup(a.root) or self.is_tup(b.root):
            return None
        def go():
            x, y = a.root, b.root
            if op == "eq":
                return x == y
            f = {"or": x.__or__, "xor": x.__xor__, "sub": x.__sub__, "and": x.__and__}[op]
            return len(list(f(y)))
        ok, r = self.attempt("compare " + str(op), go)
        return ok, r if ok else None

    # -- what users derive from the lists
    def gen_observe(self, rng):
        return [rng.randrange(len(self.slots)), rng.randrange(3), rng.choice(["C", "U"]), rng.choice(["footprint", "print", "stats"])]

    def do_observe(self, i, r, fmt, what):
        s = self.slots[ix(i, len(self.slots))]
        t = s.obj
        ids = t.getRankIds()
        r = ix(r, len(ids))
        live = T.fibers_by_level(s.root, s.depth)[r]
        if any(isinstance(x, list) for x in ids):
            return None
        if what == "footprint":
            fmt = "C"
            spec = {x: {"format": fmt, "rhbits": 5, "fhbits": 7, "cbits": 3, "pbits": 11} for x in ids}
            ok, got = self.attempt("footprint", lambda: Format(t, spec).getRank(ids[r]))
            want = 5 + sum(7 + 14 * len(f.coords) for f in live)
            if ok and got != want:
                raise Violation("footprint-of-dead-tree", f"getRank({ids[r]}) = {got}, the live tree has {want}")
        elif what == "print":
            ok, got = self.attempt("print", lambda: str(t.ranks[r]))
            if ok and got.count(f"F({ids[r]})/[") != len(live):
                raise Violation("print-of-dead-tree", f"rank {ids[r]} prints {got.count(f'F({ids[r]})/[')} fibers, "
                                                      f"the live tree has {len(live)}: {got}")
        else:
            for lv in T.fibers_by_level(s.root, s.depth):
                for f in lv:
                    f.setSavedPos(0, distance=1)
            others = [f for o in self.slots if o is not s for lv in T.fibers_by_level(o.root, o.depth) for f in lv]
            others += [h.obj for h in self.handles if isinstance(h.obj, Fiber)
                       and not any(h.obj is f for lv in T.fibers_by_level(s.root, s.depth) for f in lv)]
            for f in others:
                f.setSavedPos(0, distance=1)
            t.clearStats()
            for lv in T.fibers_by_level(s.root, s.depth):
                for f in lv:
                    if f.getSavedPosStats(clear=False) != (0, 0):
                        raise Violation("stats-not-cleared", f"clearStats left the statistics of {f!r}")
            for f in others:
                if f.getSavedPosStats(clear=False) == (0, 0):
                    raise Violation("stats-of-dead-tree", f"clearStats cleared {f!r}, which is not in this tensor")
        self.ctx.probe("observe:" + str(what))
        return True

    def check(self):
        for i, s in enumerate(self.slots):
            T.check_ranks(s.obj, f"tensor{i}")
