"""C13: conversions between representations are lossless.

Objects go through nests of lists, YAML files, dictionaries and seeded random
construction while the scheduler interleaves writes to the objects, other
consumers of the global PRNG, and faults of a simulated disk: refused opens,
full disks, failing writes and closes, torn files, and crashes after which only
what the files hold is left.
"""
import copy
import math
import pickle
import random

from fibertree import Fiber, Payload, Tensor

from .. import disk as D
from .. import tree as T
from ..engine import BaseWorld, InjectedIOError, LibRaised, Violation, lib
from ..treesim import ix, num

RUNS = {"quick": 18000, "thorough": 250000}
CHUNK = 50
MAXO = 5
NAMES = ["", "t", "Z", "yes", "no", "1", "null", "a: b", "x+split", "é", " lead", "#c", "1e3", "[a]", "~", "2001-01-01"]
IDSETS = ["RSTUV", "NYKMJ", ["yes", "1", "null", "on", "y"], ["K.1", "K.0", "M", "é", "N.0"]]
RULE = ("a run is nontrivial when at least three round trips were compared and one of the objects was changed, transformed or "
        "recovered from disk in between; distinct runs are counted by the digest of their event log")
STATE_MEASURE = "distinct (object patterns, documents on disk, dictionaries held) triples reached after a step"
REAL = ["fibertree (all of it, imported from /repo)", "PyYAML", "files in a scratch directory"]
STUB = ["builtins.open, io.open, os.remove, os.rename (counting and fault injection, then the real call)"]
ASSUMPTIONS = [
    "a file whose dump raised or crashed may hold anything; loading it is allowed to fail",
    "the rank ids and the name of a tensor are what YAML must keep; a fiber on its own has neither",
    "a fiber's default is handed to Fiber.fromYAMLfile by the caller, as its signature says; dictionaries carry no default",
    "random construction fills the shape at density 1 when a value other than the default exists in its interval",
]


class Obj:
    __slots__ = ("o", "nest", "shape", "made")

    def __init__(self, o, made):
        self.o = o
        self.nest = None        # the nest it was made from, while unchanged
        self.shape = None
        self.made = made


def describe(x, declared=False):
    """What a conversion has to keep, from a raw read plus public getters."""
    if isinstance(x, Tensor):
        root = x.getRoot()
        n = len(x.ranks)
        d = {"kind": "tensor", "ids": copy.deepcopy(x.getRankIds()), "name": x.getName(),
             "default": T.unbox(x.getDefault()) if n else None}
        if n:
            d["shape"] = copy.deepcopy(lib("getShape", x.getShape))
            d["content"] = typed(T.content(root, n, d["default"]))
        else:
            d["shape"] = []
            d["content"] = typed({(): T.unbox(root)})
        d["depth"] = n
        return d
    n = depth_of(x)
    df = leaf_default(x)
    return {"kind": "fiber", "depth": n, "default": df, "content": typed(T.content(x, n, df)),
            "shape": copy.deepcopy(lib("getShape", x.getShape))}


def typed(content):
    return {k: (type(v).__name__, v) for k, v in content.items()}


def depth_of(f):
    d = 1
    while f.payloads and isinstance(f.payloads[0], Fiber):
        f = next((p for p in f.payloads if p.payloads), f.payloads[0])
        d += 1
    return d


def leaf_default(f):
    while f.payloads and isinstance(f.payloads[0], Fiber):
        f = next((p for p in f.payloads if p.payloads), f.payloads[0])
    df = T.unbox(f.getDefault())
    return 0 if isinstance(df, type) or isinstance(df, Fiber) else df


def nest_of(shape, entries, default):
    """entries: {point: value}"""
    def rec(level, pre):
        if level == len(shape):
            return entries.get(pre, default)
        return [rec(level + 1, pre + (i,)) for i in range(shape[level])]
    return rec(0, ())


class World(BaseWorld):
    @classmethod
    def gen_config(cls, rng):
        return {"n_steps": rng.randint(6, 26)}

    def __init__(self, cfg, ctx):
        super().__init__(cfg, ctx)
        self.disk = D.SimDisk(ctx, "c13")
        self.objs = []
        self.dicts = []
        self.docs = {}          # file -> (describe, clone) or None (unknown)
        self.rands = []
        self.trips = 0
        self.moved = 0

    def close(self):
        self.disk.close()

    # ----------------------------------------------------------- scheduler
    def gen_step(self, rng):
        if rng.random() < 0.0002:
            return ["nest0", [rng.randint(1, 3) for _ in range(rng.randint(2, 4))]]
        if not self.objs:
            return self.gen_new(rng)
        k = rng.randrange(len(self.objs))
        r = rng.random()
        if r < 0.2:
            return self.gen_new(rng)
        if r < 0.28:
            return ["write", k, [rng.randrange(5) for _ in range(5)], rng.choice([0, 1, 2, -3, 1.5, 7])]
        if r < 0.36:
            return ["transform", k, rng.choice(["split", "split", "flatten", "flatten", "unflatten", "swizzle", "swap", "merge", "scale"]),
                    rng.randrange(4), rng.randint(1, 4), rng.choice(["tuple", "tuple", "pair", "absolute", "linear"])]
        if r < 0.4:
            return ["noise", rng.randint(1, 9), rng.choice(["random", "seed", "randint", "fromRandom"])]
        if r < 0.6:
            f = None
            if rng.random() < 0.3:
                f = {"op": rng.choice(["open", "write", "write", "close"]), "nth": rng.choice([1, 1, 2, 3, 5, 9]),
                     "kind": rng.choice(["full", "eio", "crash"]), "frac": rng.choice([0.0, 0.3, 0.7, 1.0])}
                if f["op"] != "write":
                    f["nth"] = 1
            return ["dump", k, rng.randrange(3), f]
        if r < 0.78:
            f = {"op": "open", "nth": 1, "kind": rng.choice(["eio", "full"])} if rng.random() < 0.1 else None
            return ["load", rng.randrange(3), rng.choice(["from", "from", "ctor"]), f, rng.random() < 0.4]
        if r < 0.82:
            return ["todict", k]
        if r < 0.88:
            return ["fromdict", rng.randrange(3), rng.random() < 0.3]
        if r < 0.92:
            return ["uncompress", k, rng.random() < 0.3]
        if r < 0.94:
            return ["again", rng.randrange(4)]
        if r < 0.96:
            return ["kill"]
        return ["compare", k]

    def gen_new(self, rng):
        r = rng.random()
        if r < 0.55:
            depth = rng.choice([1, 2, 2, 3, 3, 4])
            shape = T.rand_shape(rng, depth, 4 if depth > 2 else 5, wide=0.04)
            default = rng.choice([0, 0, 0, 0, 5, 1, -1, 0.5])
            dens = rng.choice([0.0, 0.2, 0.5, 0.9, 1.0])
            ent = []
            n = 1
            for s in shape:
                n *= s
            odd = rng.random() < 0.05
            for i in range(n):
                if rng.random() < dens:
                    ent.append([i, rng.choice(["on", "1", "a: b\n", True, "", 3, default]) if odd else rng.choice([1, 2, 3, -4, 0, 0.5, 2.0, 5, 1e-7, 1e20, default])])
            return ["nest", rng.choice(["tensor", "tensor", "fiber"]), shape, default, ent, rng.randrange(len(IDSETS)),
                    rng.randrange(len(NAMES)), rng.random() < 0.5]
        if r < 0.65:
            return ["scalar", rng.choice([0, 1, -2, 2.5]), rng.randrange(len(NAMES)), rng.choice(["nest", "ctor"])]
        if r < 0.8:
            depth = rng.randint(1, 3)
            plan = T.rand_plan(rng, depth, T.rand_shape(rng, depth, 5, 5, wide=0.04), rng.choice([0.3, 0.6]),
                               values=lambda g: g.choice([1, 2, 0.5, -3, 1000]))
            return ["plan", rng.choice(["tensor", "fiber"]), depth, plan, rng.choice([0, 0, 0, 3]), rng.randrange(len(IDSETS)),
                    rng.randrange(len(NAMES)), rng.random() < 0.5]
        depth = rng.randint(1, 3)
        dens = rng.choice([1.0, 1.0, 0.0, 0.3, 0.7])
        if rng.random() < 0.4:
            dens = [rng.choice([1.0, 1.0, 0.5]) for _ in range(depth)]
        return ["random", rng.choice(["tensor", "fiber"]), T.rand_shape(rng, depth, 4, wide=0.03), dens,
                rng.choice([1, 2, 10]), rng.choice([0, 1, 2, 12345, 3.5]), rng.choice([0, 0, 0, 0, 2, -1]), rng.randrange(len(NAMES))]

    def exec_step(self, step):
        fn = getattr(self, "do_" + str(step[0]), None)
        if fn is None:
            return None
        try:
            with self.disk:
                return fn(*step[1:])
        except TypeError as e:
            if "positional argument" in str(e) and "do_" in str(e):
                return "malformed"
            raise

    def add(self, o, made):
        self.objs.append(Obj(o, made))
        if len(self.objs) > MAXO:
            self.objs.pop(0)
        return self.objs[-1]

    def pick(self, k):
        k = ix(k, len(self.objs))
        return None if k is None else self.objs[k]

    def ids(self, n, depth):
        s = IDSETS[ix(n, len(IDSETS))]
        return [s[i % len(s)] for i in range(depth)]

    # --------------------------------------------------------------- nests
    def do_nest(self, kind, shape, default, ent, ids, name, decl):
        shape = [max(1, min(300, int(num(s, 1)))) for s in shape][:4] if isinstance(shape, list) else []
        shape = shape or [1]
        if math.prod(shape) > 8000:
            shape = [min(6, s) for s in shape]
        default = num(default)
        pts = {}
        for e in ent if isinstance(ent, list) else []:
            if isinstance(e, list) and len(e) == 2:
                i = int(num(e[0]))
                p = []
                for s in reversed(shape):
                    p.append(i % s)
                    i //= s
                pts[tuple(reversed(p))] = e[1] if isinstance(e[1], (str, bool)) else num(e[1], 1)
        nest = nest_of(shape, pts, default)
        orig = copy.deepcopy(nest)
        want = {k: v for k, v in pts.items() if v != default}
        d = len(shape)
        if kind == "fiber":
            x = lib("Fiber.fromUncompressed", Fiber.fromUncompressed, nest, default=default)
            root = x
        else:
            kw = {"shape": list(shape)} if decl else {}
            x = lib("Tensor.fromUncompressed", Tensor.fromUncompressed, self.ids(ids, d), nest, default=default,
                    name=NAMES[ix(name, len(NAMES))], **kw)
            root = x.getRoot()
            if T.unbox(x.getDefault()) != default:
                raise Violation("nest-default", f"a tensor made with default {default} has default {x.getDefault()}")
        if nest != orig:
            raise Violation("nest-changed", f"fromUncompressed changed its argument: {orig} became {nest}")
        got = dict((k, T.unbox(b)) for k, b in T.walk(root, d))
        if typed(got) != typed(want):
            kind_ = "explicit default" if any(v == default for v in got.values()) else "content"
            raise Violation("nest-content", f"{kind}.fromUncompressed({orig}, default={default}) stores {got}, expected {want}",
                            sig=f"nest-content|{kind_}")
        for lv in T.fibers_by_level(root, d)[1:]:
            for f in lv:
                if not f.coords:
                    raise Violation("nest-content", f"{kind}.fromUncompressed({orig}) stores an empty fiber", sig="nest-empty-fiber")
        sh = lib("getShape", x.getShape)
        if kind == "fiber" and not want and d > 1 and sh == shape[:1]:
            sh = shape      # known finding, see do_nest0
        if sh != shape:
            raise Violation("nest-shape", f"{kind}.fromUncompressed({orig}, default={default}) has shape {sh}, the nest has {shape}",
                            sig=f"nest-shape|{kind}|{'all-default' if not want else 'some'}")
        self.ctx.probe("nest:" + ("all-default" if not want else "full" if len(want) == len(pts) and len(pts) else "sparse"))
        # dirty the argument: the tree must not hang on to it
        y = nest
        while isinstance(y[0], list):
            y = y[0]
        y[0] = 99
        o = self.add(x, "nest")
        o.nest, o.shape = orig, shape
        self.uncompress(o, False)
        return sh

    # -- the one deviation recorded in known_findings.jsonl
    def do_nest0(self, shape):
        shape = [max(1, min(4, int(num(s, 1)))) for s in shape][:4] if isinstance(shape, list) else []
        if len(shape) < 2:
            return None
        x = lib("Fiber.fromUncompressed", Fiber.fromUncompressed, nest_of(shape, {}, 0))
        sh = lib("getShape", x.getShape)
        if sh != shape:
            raise Violation("nest-shape", f"Fiber.fromUncompressed of an all-default nest of dimensions {shape} has shape {sh}",
                            sig="all-default-nest-fiber-keeps-only-outer-dimension" if sh == shape[:1] else "nest-shape|fiber|all-default")
        return sh

    def do_scalar(self, v, name, how):
        v = num(v)
        nm = NAMES[ix(name, len(NAMES))]
        if how == "nest":
            t = lib("Tensor.fromUncompressed", Tensor.fromUncompressed, [], v, name=nm)
        else:
            t = lib("Tensor()", Tensor, rank_ids=[], name=nm)
            r = t.getRoot()
            r <<= v
        if T.unbox(t.getRoot()) != v:
            raise Violation("scalar-content", f"a rank-0 tensor made from {v} holds {t.getRoot()}")
        self.add(t, "scalar")
        return True

    def do_uncompress(self, k, noshape):
        o = self.pick(k)
        if o is None:
            return None
        if o.nest is not None:
            return self.uncompress(o, noshape)
        # an object with a history of its own
        d = describe(o.o)
        shape = d["shape"]
        if not d["depth"] or len(shape) != d["depth"] or any(not isinstance(s, int) for s in shape):
            return None
        n = 1
        for s in shape:
            n *= s
        if n > 3000 or any(not isinstance(c, int) or c < 0 or c >= s for pt in d["content"] for c, s in zip(pt, shape)):
            return None
        root = o.o.getRoot() if isinstance(o.o, Tensor) else o.o
        if any(not isinstance(c, int) or c < 0 or c >= s for lv, s in zip(T.fibers_by_level(root, d["depth"]), shape) for f in lv for c in f.coords):
            return None
        levels = T.fibers_by_level(root, d["depth"])
        if root.getOwner() is None and any(not f.coords for lv in levels[:-1] for f in lv):
            return None     # an empty unowned fiber does not know the default of the leaves it might have had
        want = nest_of(shape, {k: v for k, (_, v) in d["content"].items()}, d["default"])
        got = lib("uncompress", root.uncompress, *([] if noshape else [list(shape)]))
        if got != want:
            raise Violation("uncompress", f"uncompressing {T.snap(root)} of shape {shape} gives {got}, expected {want}", sig="uncompress|history")
        self.trips += 1
        self.ctx.probe("uncompress a tree with a history")
        return True

    def uncompress(self, o, noshape):
        root = o.o.getRoot() if isinstance(o.o, Tensor) else o.o
        if noshape and not (root is o.o and not root.coords and len(o.shape) > 1):    # the known finding of do_nest0
            got = lib("uncompress()", root.uncompress)
        else:
            got = lib("uncompress(shape)", root.uncompress, list(o.shape))
        if got != o.nest:
            raise Violation("uncompress", f"uncompressing the tree made from {o.nest} gives {got}",
                            sig="uncompress" + ("|noshape" if noshape else ""))
        self.trips += 1
        self.ctx.probe("uncompress")
        # the caller owns the nest it gets: spoil it
        y = got
        while y and isinstance(y[0], list):
            y = y[0]
        if y:
            y[0] = 98
        return True

    # ------------------------------------------------------------- objects
    def do_plan(self, kind, depth, plan, default, ids, name, decl):
        depth = max(1, min(3, int(num(depth, 1))))
        plan = T.norm_plan(plan, depth)
        default = num(default)
        if kind == "fiber":
            x = T.build_fiber(plan, depth, None, default)
        else:
            x = T.build_tensor(plan, depth, [7] * depth if decl else None, default, self.ids(ids, depth), NAMES[ix(name, len(NAMES))])
        self.add(x, "plan")
        return True

    def do_write(self, k, pt, v):
        o = self.pick(k)
        if o is None:
            return None
        if isinstance(o.o, Tensor) and not o.o.ranks:
            r = o.o.getRoot()
            r <<= num(v)
            self.moved += 1
            return True
        root = o.o.getRoot() if isinstance(o.o, Tensor) else o.o
        d = len(o.o.ranks) if isinstance(o.o, Tensor) else depth_of(root)
        if any(isinstance(c, tuple) for lv in T.fibers_by_level(root, d) for f in lv for c in f.coords):
            return "tuple coordinates"
        if isinstance(o.o, Tensor) and any(isinstance(s, tuple) for s in o.o.getShape()):
            return "tuple coordinates"
        o.nest = None
        pt = [max(0, int(num(c))) for c in pt][:d] if isinstance(pt, list) else []
        pt += [0] * (d - len(pt))
        try:
            r = lib("getPayloadRef", root.getPayloadRef, *pt)
            if isinstance(r, Fiber):
                return "not a leaf"
            r <<= num(v)
        except LibRaised:
            # an unowned fiber may not know what is below an element
            self.objs.remove(o)
            return "gave up"
        self.moved += 1
        return True

    def do_transform(self, k, what, a, b, style):
        o = self.pick(k)
        if o is None or not isinstance(o.o, Tensor) or not o.o.ranks:
            return None
        t, a, b = o.o, int(num(a)), max(1, int(num(b, 1)))
        d = len(t.ranks)
        ids = t.getRankIds()
        style = style if style in ("tuple", "pair", "absolute", "linear") else "tuple"

        def go():
            if what == "split" and d < 5:
                return t.splitUniform(b, depth=a % d)
            if what == "flatten" and d > 1:
                return t.flattenRanks(depth=a % (d - 1), levels=1 + (a > 2 and d > 2 and a % (d - 1) == 0), coord_style=style)
            if what == "unflatten":
                w = [i for i, r in enumerate(ids) if isinstance(r, list)]
                return t.unflattenRanks(depth=w[0], levels=1) if w else None
            if what == "swizzle" and d > 1:
                return t.swizzleRanks(ids[a % d:] + ids[:a % d])
            if what == "swap" and d > 1:
                return t.swapRanks(depth=a % (d - 1))
            if what == "merge" and d > 1:
                return t.mergeRanks(depth=a % (d - 1), levels=1, coord_style=style)
            if what == "scale":
                return t.updatePayloads(lambda i, c, p: p * b, depth=d - 1)
            return None
        try:
            n = lib("transform", go)
        except LibRaised:
            return "rejected"
        if not isinstance(n, Tensor) or not isinstance(n.getRoot(), Fiber) or ragged(n.getRoot(), len(n.ranks)):
            return None
        if not n.getRankIds() or any(None in [s] for s in n.getShape()):
            return None
        self.ctx.probe("transform:" + what)
        if any(isinstance(c, tuple) for lv in T.fibers_by_level(n.getRoot(), len(n.ranks)) for f in lv for c in f.coords):
            self.ctx.probe("tuple coordinates")
        self.add(n, "transform")
        self.moved += 1
        return True

    # ---------------------------------------------------------------- YAML
    def do_dump(self, k, f, fault):
        o = self.pick(k)
        if o is None:
            return None
        name = "f%d.yaml" % ix(f, 3)
        before = raw(o.o)
        want = describe(o.o)
        declared = isinstance(o.o, Fiber) and bool(o.o.getShape(all_ranks=False)) and o.o.getShape() != o.o.estimateShape()
        self.disk.arm(fault)
        old = self.docs.get(name)
        try:
            lib("dump", o.o.dump, name)
        except InjectedIOError:
            hit = self.disk.disarm()
            self.docs[name] = None
            if not hit:
                raise Violation("spurious-io-error", "dump failed although no fault was injected")
            if raw(o.o) != before:
                raise Violation("failed-dump-changed-object", f"a failing dump changed {before} into {raw(o.o)}")
            return "io error"
        except D.SimCrash:
            # everything in memory is gone
            self.disk.disarm()
            self.docs[name] = None
            self.objs, self.dicts, self.rands = [], [], []
            self.recover()
            return "crash"
        except LibRaised:
            if not self.disk.disarm():
                raise
            self.docs[name] = None
            return "error"
        self.disk.disarm()
        if raw(o.o) != before:
            raise Violation("dump-changed-object", f"dump changed {before} into {raw(o.o)}")
        self.docs[name] = (want, pickle.dumps(o.o), declared)
        self.ctx.probe("dump")
        if old is not None:
            self.ctx.probe("dump over an older file")
        return True

    def recover(self):
        """After a crash: what the files hold is all there is."""
        for name in sorted(self.docs):
            if self.docs[name] is not None:
                self.load(name, "from", True)
                self.ctx.probe("recovered from disk")
                self.moved += 1

    def do_kill(self):
        self.disk.kill()
        self.ctx.fault("process_kill")
        self.objs, self.dicts, self.rands = [], [], []
        self.recover()
        return True

    def do_load(self, f, how, fault, keep):
        name = "f%d.yaml" % ix(f, 3)
        if name not in self.docs:
            return None
        if self.docs[name] is None:
            try:
                lib("load", Tensor.fromYAMLfile, name)
            except (LibRaised, InjectedIOError):
                pass
            self.ctx.probe("torn file loaded")
            return "torn"
        self.disk.arm(fault)
        try:
            self.load(name, how, keep)
        except (LibRaised, InjectedIOError):
            if not self.disk.disarm():
                raise
            return "io error"
        if self.disk.disarm():
            raise Violation("io-error-swallowed", "loading returned although the disk refused the file")
        return True

    def load(self, name, how, keep):
        want, clone, declared = self.docs[name]
        if want["kind"] == "fiber":
            x = lib("Fiber.fromYAMLfile", Fiber.fromYAMLfile, name, default=want["default"])
        elif how == "ctor" and want["depth"] and want["default"] == 0:
            x = lib("Tensor(yamlfile)", Tensor, name)
        else:
            x = lib("Tensor.fromYAMLfile", Tensor.fromYAMLfile, name)
        self.same(want, pickle.loads(clone), x, "YAML", declared)
        if keep:
            self.add(x, "loaded")

    def same(self, want, orig, x, via, declared=False):
        if want["kind"] == "fiber":
            if ragged(x, None) or (want["content"] and depth_of(x) != want["depth"]):
                raise Violation("reload", f"{via} gives back {x}, expected {want}", sig=f"reload|{via}|fiber|depth")
            got = typed(T.content(x, want["depth"], want["default"]))
            if got != want["content"]:
                raise Violation("reload", f"{via} gives back the content {got}, expected {want['content']}", sig=f"reload|{via}|fiber|content")
            sh = lib("getShape", x.getShape)
            if sh != want["shape"]:
                raise Violation("reload", f"{via} gives back a fiber of shape {sh}, expected {want['shape']}",
                                sig=f"reload|{via}|fiber|shape" + ("|declared" if declared else ""))
            if not lib("==", lambda: orig == x) or not lib("==", lambda: x == orig):
                raise Violation("reload", f"{via} gives back an unequal fiber {x!r}, expected {orig!r}", sig=f"reload|{via}|fiber|equal")
        else:
            got = describe(x)
            for k in ("ids", "shape", "name", "depth", "default", "content"):
                if got[k] != want[k]:
                    raise Violation("reload", f"{via} gives back a tensor with {k} {got[k]!r}, expected {want[k]!r}",
                                    sig=f"reload|{via}|tensor{min(want['depth'], 1)}|{k}")
            if want["depth"]:
                T.check_ranks(x, "the reloaded tensor")
            if not lib("==", lambda: orig == x) or not lib("==", lambda: x == orig):
                raise Violation("reload", f"{via} gives back an unequal tensor {x!r}, expected {orig!r}", sig=f"reload|{via}|tensor|equal")
        self.trips += 1
        self.ctx.probe("round trip:" + via)
        if want["default"]:
            self.ctx.probe("round trip with a default other than 0")

    # ---------------------------------------------------------- dictionary
    def do_todict(self, k):
        o = self.pick(k)
        if o is None or isinstance(o.o, Tensor) and not o.o.ranks:
            return None
        root = o.o.getRoot() if isinstance(o.o, Tensor) else o.o
        before = raw(o.o)
        d = lib("fiber2dict", root.fiber2dict)
        if raw(o.o) != before:
            raise Violation("dict-changed-object", f"fiber2dict changed {before}")
        self.dicts.append((d, T.snap(root), leaf_default(root), pickle.dumps(o.o) if isinstance(o.o, Fiber) else None, lib("getShape", root.getShape)))
        self.dicts = self.dicts[-3:]
        return True

    def do_fromdict(self, j, keep):
        j = ix(j, len(self.dicts))
        if j is None:
            return None
        d, want, default, orig, shape = self.dicts[j]
        f = lib("dict2fiber", Fiber.dict2fiber, d, default=default)
        got = T.snap(f)
        if got != want:
            raise Violation("reload", f"dict2fiber gives {got}, the dictionary was made from {want}", sig="reload|dict")
        if orig is not None:
            orig = pickle.loads(orig)
            if not lib("==", lambda: orig == f) or not lib("==", lambda: f == orig):
                raise Violation("reload", f"dict2fiber gives an unequal fiber {f!r}, expected {orig!r}", sig="reload|dict|equal")
            if lib("getShape", f.getShape) != shape:
                raise Violation("reload", f"dict2fiber gives a fiber of shape {f.getShape()}, expected {shape}", sig="reload|dict|shape")
        self.trips += 1
        self.ctx.probe("round trip:dict")
        if keep:
            self.add(f, "dict")
        return True

    # -------------------------------------------------------------- random
    def do_random(self, kind, shape, dens, interval, seed, default, name):
        shape = [max(1, min(300, int(num(s, 1)))) for s in shape][:3] if isinstance(shape, list) else []
        shape = shape or [2]
        if math.prod(shape) > 8000:
            shape = [min(5, s) for s in shape]
        if isinstance(dens, list):
            dens = [float(num(x, 1)) for x in dens][:len(shape)]
            dens += [1.0] * (len(shape) - len(dens))
        else:
            dens = float(num(dens, 1))
        p = (kind, shape, dens, max(1, int(num(interval, 1))), num(seed, 1), num(default), NAMES[ix(name, len(NAMES))])
        x = self.rand(p)
        self.rands.append((p, raw(x)))
        self.rands = self.rands[-4:]
        self.add(x, "random")
        return True

    def rand(self, p):
        kind, shape, dens, interval, seed, default, name = p
        d = len(shape)
        dens_arg = list(dens) if isinstance(dens, list) else dens
        if kind == "fiber":
            x = root = lib("Fiber.fromRandom", Fiber.fromRandom, list(shape), dens_arg, interval, seed=seed, default=default)
        else:
            x = lib("Tensor.fromRandom", Tensor.fromRandom, ["R%d" % i for i in range(d)], list(shape), dens_arg, interval, seed=seed,
                    default=default, name=name)
            root = x.getRoot()
            if lib("getShape", x.getShape) != shape:
                raise Violation("random-shape", f"fromRandom{p} has shape {x.getShape()}")
        if ragged(root, d):
            raise Violation("random-ragged", f"fromRandom{p} is not a tree of depth {d}: {T.snap(root)}")
        T.check_wellformed(root, d)
        content = T.content(root, d, default)
        for pt in dict(T.walk(root, d)):
            if any(not isinstance(c, int) or c < 0 or c >= s for c, s in zip(pt, shape)):
                raise Violation("random-outside", f"fromRandom{p} has an element at {pt}")
        full = all(v >= 1.0 for v in (dens if isinstance(dens, list) else [dens]))
        n = 1
        for s in shape:
            n *= s
        if full and not (interval == 1 and default == 1) and len(content) != n:
            raise Violation("random-not-full", f"fromRandom{p} fills {len(content)} of {n} points", sig=f"random-not-full|default={default != 0}")
        self.ctx.probe("random")
        if full:
            self.ctx.probe("random at density 1")
        return x

    def do_again(self, j):
        j = ix(j, len(self.rands))
        if j is None:
            return None
        p, want = self.rands[j]
        x = self.rand(p)
        if raw(x) != want:
            raise Violation("random-not-reproducible", f"fromRandom{p} gave {want} before and {raw(x)} now")
        self.trips += 1
        self.ctx.probe("random repeated")
        return True

    def do_noise(self, n, how):
        """Another client of the global PRNG."""
        n = max(0, min(50, int(num(n))))
        self.ctx.fault("prng_interference")
        if how == "seed":
            random.seed(n)
        elif how == "fromRandom":
            Fiber.fromRandom([3], 0.5, seed=n)
        else:
            for _ in range(n):
                random.random() if how == "random" else random.randint(1, 7)
        return True

    def do_compare(self, k):
        o = self.pick(k)
        if o is None:
            return None
        return describe(o.o)["content"] is not None

    # -------------------------------------------------------------- finish
    def finish(self):
        with self.disk:
            for name in sorted(self.docs):
                if self.docs[name] is not None:
                    self.load(name, "from", False)
            for j in range(len(self.dicts)):
                self.do_fromdict(j, False)
            for j in range(len(self.rands)):
                self.do_again(j)
            for o in self.objs:
                if o.nest is not None:
                    self.uncompress(o, False)

    def state_key(self):
        return (tuple((o.made, str(T.snap(o.o.getRoot() if isinstance(o.o, Tensor) else o.o))) for o in self.objs),
                tuple((k, v is None) for k, v in sorted(self.docs.items())), len(self.dicts))

    def nontrivial(self):
        return self.trips >= 3 and self.moved >= 1


def raw(x):
    if isinstance(x, Tensor):
        if not x.ranks:
            return (T.snap(x.getRoot()), x.getName())
        return (T.snap(x.getRoot()), tuple(map(str, x.getRankIds())), x.getName())
    return T.snap(x)


def ragged(f, d):
    """Is some leaf not at depth d (None: at one depth)?"""
    seen = set()

    def rec(f, n):
        for p in f.payloads:
            if isinstance(p, Fiber):
                rec(p, n + 1)
            else:
                seen.add(n)
    rec(f, 1)
    return bool(seen - {d}) if d is not None else len(seen) > 1
