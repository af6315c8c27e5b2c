"""C03: point access behaves like a map from points to values.

Several clients share one tensor. Each holds references (boxes, sub-fibers)
and remembered search positions, and the scheduler interleaves their reads,
reference creations and updates one call at a time. The model is the raw tree
as nested dicts; every read must answer from it, and after every step the real
tree must be it.
"""
import copy
import pickle

from fibertree import Fiber, Payload, Tensor
from fibertree.core.coord_payload import CoordPayload

from .. import tree as T
from ..engine import BaseWorld, LibRaised, Violation, lib

RUNS = {"quick": 32000, "thorough": 400000}
CHUNK = 80
RULE = ("a run is nontrivial when it made at least two reads and two references or updates; distinct runs are "
        "counted by the digest of their event log")
STATE_MEASURE = "distinct (tree contents, number and depth of live handles, walk progress) reached after a step"
ASSUMPTIONS = [
    "a search-start position is legal when it is 0 or the coordinate stored there is not above the one looked up",
    "a fiber reference obtained before a restart is not used after it",
]


def num(x, d=0):
    return x if isinstance(x, (int, float)) and not isinstance(x, bool) else d


class Ref:
    __slots__ = ("obj", "point")

    def __init__(self, obj, point):
        self.obj = obj
        self.point = point


class Walk:
    """A client going through one fiber in ascending coordinate order with
    the saved-position shortcut."""
    __slots__ = ("prefix", "fiber", "last", "pos", "muts")


class World(BaseWorld):
    @classmethod
    def gen_config(cls, rng):
        depth = rng.choice([0, 1, 1, 2, 2, 2, 3, 3])
        shape = T.rand_shape(rng, depth, 5)
        default = rng.choice([0, 0, 0, 0, 7, -1, 2.5])
        tup = rng.random() < 0.2 and depth > 0
        return {"depth": depth, "shape": shape, "default": default, "tup": tup,
                "kind": rng.choice(["fiber", "tensor", "tensor"] if depth == 1 else ["tensor", "tensor", "empty"]),
                "decl": rng.random() < 0.7, "fmt": [rng.choice("CCU") for _ in range(depth)],
                "plan": T.rand_plan(rng, depth, shape, rng.choice([0.2, 0.5, 0.9]), default=default) if depth else [],
                "n_steps": rng.randint(8, 40)}

    def __init__(self, cfg, ctx):
        super().__init__(cfg, ctx)
        self.depth = d = max(0, min(3, int(num(cfg["depth"]))))
        self.default = num(cfg["default"])
        self.tup = bool(cfg["tup"]) and d > 0
        shape = [max(1, int(num(x, 1))) for x in cfg["shape"]][:d]
        self.shape = shape + [3] * (d - len(shape))
        plan = T.norm_plan(cfg["plan"], d) if d else []
        self.refs, self.walks = [], []
        self.reads = self.writes = 0
        kind = cfg["kind"]
        if d == 0:
            self.obj = Tensor(rank_ids=[], shape=[])
            self.model = 0
            return
        dshape = self.shape if cfg["decl"] and not self.tup else None
        if self.tup:
            plan = self.tuplan(plan)
        if kind == "fiber" and d == 1:
            self.obj = T.build_fiber(plan, d, dshape, self.default)
        elif kind == "empty":
            self.obj = Tensor(rank_ids=T.rank_names(d), shape=dshape, default=self.default)
            plan = []
        else:
            self.obj = T.build_tensor(plan, d, dshape, self.default)
        if isinstance(self.obj, Tensor) and not self.tup:
            for r, f in zip(T.rank_names(d), cfg["fmt"]):
                self.obj.setFormat(r, "U" if f == "U" else "C")
        self.model = self.to_model(plan, d)

    def tuplan(self, plan):
        return [[[c // 3, c % 3], self.tuplan(p) if isinstance(p, list) else p] for c, p in plan
                if isinstance(c, int)]

    def to_model(self, plan, d):
        return {T.coord_of(c): (self.to_model(p, d - 1) if d > 1 else p) for c, p in plan}

    # ------------------------------------------------------------ helpers
    @property
    def root(self):
        return self.obj.getRoot() if isinstance(self.obj, Tensor) else self.obj

    def C(self, c):
        c = abs(int(num(c))) % 300
        return (c // 3, c % 3) if self.tup else c

    def pt(self, p):
        return tuple(self.C(c) for c in (p if isinstance(p, list) else [p])[:self.depth])

    def node(self, point):
        """The model's node at a point, or None."""
        m = self.model
        for c in point:
            if not isinstance(m, dict) or c not in m:
                return None
            m = m[c]
        return m

    def ensure(self, point):
        m = self.model
        for i, c in enumerate(point):
            if c not in m:
                m[c] = {} if i + 1 < self.depth else self.default
            if i + 1 == len(point):
                return
            m = m[c]

    def setv(self, point, v):
        m = self.model
        for c in point[:-1]:
            m = m[c]
        m[point[-1]] = v

    def flat(self, m, d, prefix=()):
        if d == 0:
            return {} if m == self.default else {prefix: m}
        out = {}
        for c, p in m.items():
            out.update(self.flat(p, d - 1, prefix + (c,)))
        return out

    def raw(self, f, d):
        if d == 0:
            if not isinstance(f, Payload):
                raise Violation("not-a-box", f"the tree stores {f!r} as a leaf payload")
            return f.value
        if not isinstance(f, Fiber):
            raise Violation("not-a-fiber", f"the tree stores {f!r} at an interior rank")
        return [(c, self.raw(p, d - 1)) for c, p in zip(f.coords, f.payloads)]

    def want(self, m, d):
        if d == 0:
            return m
        return [(c, self.want(m[c], d - 1)) for c in sorted(m)]

    def fiber_at(self, point):
        f = self.root
        for c in point:
            f = f.payloads[f.coords.index(c)]
        return f

    def pre(self):
        if isinstance(self.obj, Tensor):
            return T.tsnap(self.obj), T.idsnap(self.root)
        return T.snap(self.root), T.idsnap(self.root)

    def pure(self, before, what):
        if self.pre() != before:
            raise Violation("read-changed-tree", f"{what} changed the tree or its rank lists", sig="read-changed-tree|" + what.split("(")[0])

    def same(self, got, want, what):
        g = got.value if isinstance(got, Payload) else got
        if isinstance(g, Fiber) or isinstance(g, Payload) or g != want or isinstance(g, bool):
            raise Violation("wrong-answer", f"{what} returned {got!r}, expected {want!r}", sig="wrong-answer|" + what.split("(")[0])

    # ---------------------------------------------------------- scheduler
    OPS = (("read", 16), ("readpre", 6), ("ref", 12), ("refpre", 4), ("write", 18), ("pos", 7), ("posref", 4),
           ("sread", 6), ("sref", 4), ("walk", 3), ("wstep", 14), ("scribble", 5), ("subread", 6), ("fassign", 2),
           ("fscale", 1), ("elem", 4), ("door", 6), ("bad", 2), ("restart", 1))

    def gen_step(self, rng):
        for _ in range(30):
            n = rng.choices([o for o, _ in self.OPS], [w for _, w in self.OPS])[0]
            s = getattr(self, "gen_" + n)(rng)
            if s is not None:
                return [n] + s
        return ["noop"]

    def exec_step(self, step):
        fn = getattr(self, "do_" + str(step[0]), None)
        return fn(*step[1:]) if fn else None

    def gp(self, rng, n=None):
        """A point (or prefix), biased to stored ones."""
        n = self.depth if n is None else n
        out, m = [], self.model
        for i in range(n):
            if isinstance(m, dict) and m and rng.random() < 0.6:
                c = rng.choice(sorted(m))
                ci = c[0] * 3 + c[1] if self.tup else c
                if rng.random() < 0.15:
                    ci = max(0, ci + rng.choice([-1, 1]))
            else:
                ci = rng.randrange(6) if self.shape[i] <= 8 else T.rand_coord(rng, self.shape[i] + 1)
            out.append(ci)
            m = m.get(self.C(ci)) if isinstance(m, dict) else None
        return out

    # -- reads of full points
    def gen_read(self, rng):
        return [self.gp(rng), rng.choice(["", "", "tensor", "noalloc", "dflt"]), rng.choice([0, 9, None])]

    def do_read(self, p, how, dflt):
        p = self.pt(p)
        if len(p) != self.depth:
            return None
        before = self.pre()
        o = self.root if how != "tensor" or self.depth == 0 else self.obj
        if self.depth == 0:
            o = self.obj
        m = self.node(p)
        kw = {}
        if how == "noalloc":
            kw = {"allocate": False}
        elif how == "dflt":
            kw = {"allocate": False, "default": dflt}
        got = lib("getPayload", o.getPayload, *p, **(kw if self.depth else {}))
        want = m if m is not None else (None if how == "noalloc" else dflt if how == "dflt" else self.default)
        if self.depth == 0:
            want = self.model
        self.same(got, want, f"getPayload({p}, {kw})")
        self.pure(before, f"getPayload({p})")
        self.reads += 1
        return repr(want)

    # -- reads of prefixes
    def gen_readpre(self, rng):
        if self.depth < 2:
            return None
        return [self.gp(rng, rng.randint(1, self.depth - 1))]

    def do_readpre(self, p):
        p = self.pt(p)
        if not p or len(p) >= self.depth:
            return None
        before = self.pre()
        got = lib("getPayload(prefix)", self.root.getPayload, *p)
        self.pure(before, f"getPayload({p})")
        m = self.node(p)
        if not isinstance(got, Fiber):
            raise Violation("wrong-answer", f"reading prefix {p} returned {got!r}")
        d = self.depth - len(p)
        have = T.content(got, d, self.default)
        want = self.flat(m, d) if m is not None else {}
        if have != want:
            raise Violation("wrong-subfiber", f"reading prefix {p} gave {have}, expected {want}")
        if m is None and have != {}:
            raise Violation("wrong-subfiber", f"absent prefix {p} is not empty: {got!r}")
        self.reads += 1
        return len(want)

    # -- reading through a sub-fiber that was read earlier in the same step
    def gen_subread(self, rng):
        if self.depth < 2:
            return None
        return [rng.randint(1, self.depth - 1), self.gp(rng)]

    def do_subread(self, n, p):
        p = self.pt(p)
        n = max(1, min(self.depth - 1, int(num(n, 1))))
        if len(p) != self.depth or self.depth < 2:
            return None
        before = self.pre()
        f = lib("getPayload(prefix)", self.root.getPayload, *p[:n])
        if not isinstance(f, Fiber):
            raise Violation("wrong-answer", f"reading prefix {p[:n]} returned {f!r}")
        got = lib("getPayload(sub)", f.getPayload, *p[n:])
        m = self.node(p)
        self.same(got, m if m is not None else self.default, f"getPayload({p[:n]}).getPayload({p[n:]})")
        self.pure(before, "getPayload(sub)")
        self.reads += 1

    # -- references
    def gen_ref(self, rng):
        return [self.gp(rng), rng.random() < 0.3]

    def keep(self, obj, p):
        self.refs.append(Ref(obj, p))
        if len(self.refs) > 8:
            self.refs.pop(0)

    def others(self, point):
        """id of every stored box, except on the path being created."""
        return {k: id(b) for k, b in T.walk(self.root, self.depth)} if self.depth else {}

    def undisturbed(self, boxes, what):
        now = self.others(None)
        for k, i in boxes.items():
            if now.get(k) != i:
                raise Violation("reference-disturbed", f"{what} replaced or removed the payload stored at {k}")

    def do_ref(self, p, tensor):
        p = self.pt(p)
        if len(p) != self.depth:
            return None
        boxes = self.others(p)
        o = self.obj if tensor or self.depth == 0 else self.root
        r = lib("getPayloadRef", o.getPayloadRef, *p)
        if not isinstance(r, Payload):
            raise Violation("wrong-answer", f"getPayloadRef{p} returned {r!r}, not a box")
        if self.depth:
            self.ensure(p)
            if self.stored(p) is not r:
                raise Violation("not-an-alias", f"getPayloadRef{p} is not the stored payload")
            self.undisturbed(boxes, f"getPayloadRef{p}")
        self.same(r, self.node(p) if self.depth else self.model, f"getPayloadRef({p})")
        self.keep(r, p)
        self.writes += 1
        return repr(r.value)

    def stored(self, p):
        f = self.root
        for c in p:
            if c not in f.coords:
                raise Violation("path-missing", f"a reference to {p} did not create the path")
            f = f.payloads[f.coords.index(c)]
        return f

    def gen_refpre(self, rng):
        if self.depth < 2:
            return None
        return [self.gp(rng, rng.randint(1, self.depth - 1))]

    def do_refpre(self, p):
        p = self.pt(p)
        if not p or len(p) >= self.depth:
            return None
        boxes = self.others(p)
        r = lib("getPayloadRef(prefix)", self.root.getPayloadRef, *p)
        if not isinstance(r, Fiber):
            raise Violation("wrong-answer", f"getPayloadRef{p} returned {r!r}, not a fiber")
        self.ensure(p)
        if self.stored(p) is not r:
            raise Violation("not-an-alias", f"getPayloadRef{p} is not the stored sub-fiber")
        self.undisturbed(boxes, f"getPayloadRef{p}")
        self.keep(r, p)
        self.writes += 1

    # -- updates through references
    def gen_write(self, rng):
        if not self.refs:
            return None
        return [rng.randrange(len(self.refs)), rng.choice(["ilshift", "ilshift", "iadd", "isub", "imul"]),
                rng.choice([0, 1, 2, -3, 5, self.default, 1.5]), rng.choice(["raw", "raw", "box", "ref", "cp"]),
                [rng.randrange(6) for _ in range(self.depth)]]

    def do_write(self, i, op, v, form, tail):
        if not self.refs:
            return None
        i = int(num(i)) % len(self.refs)
        h = self.refs[i]
        v = num(v, 1)
        p = h.point
        obj = h.obj
        if isinstance(obj, Fiber):
            # a reference below a held sub-fiber
            rest = self.pt(tail)[:self.depth - len(p)]
            if len(rest) + len(p) != self.depth:
                return None
            obj = lib("getPayloadRef(sub)", obj.getPayloadRef, *rest)
            p = p + rest
            self.ensure(p)
            if self.stored(p) is not obj:
                raise Violation("not-an-alias", f"a reference to {p} through a held sub-fiber is not the stored payload")
        old = self.node(p) if self.depth else self.model
        arg = v
        if form == "box":
            arg = Payload(v)
        elif form == "cp":
            arg = CoordPayload(self.C(0), v)
        elif form == "ref":
            o = [r for r in self.refs if isinstance(r.obj, Payload)]
            if not o:
                return None
            r = o[int(num(tail[0] if isinstance(tail, list) and tail else 0)) % len(o)]
            arg = r.obj
            v = self.node(r.point) if self.depth else self.model
        def go():
            x = obj
            if op == "ilshift":
                x <<= arg
            elif op == "iadd":
                x += arg
            elif op == "isub":
                x -= arg
            else:
                x *= arg
            return x
        x = lib("box " + str(op), go)
        if x is not obj:
            raise Violation("not-an-alias", f"{op} through a reference returned another object")
        new = {"ilshift": v, "iadd": old + v, "isub": old - v}.get(op, old * v)
        if isinstance(new, float) and abs(new) > 1e12 or isinstance(new, int) and abs(new) > 10 ** 12:
            new = 1
            obj <<= 1
        if self.depth:
            self.setv(p, new)
        else:
            self.model = new
        self.writes += 1
        return repr(new)

    # -- elements: what f[position] and reference iteration hand out
    def gen_elem(self, rng):
        if not self.depth or self.tup and rng.random() < 0.5:
            return None
        return [self.gp(rng), rng.choice(["take", "augment", "iter", "chain", "nd"]), rng.choice(["ilshift", "ilshift", "iadd", "isub", "imul"]),
                rng.choice([0, 1, 2, -3, 5, self.default, 1.5]), rng.choice(["raw", "box", "cp"])]

    def do_elem(self, p, how, op, v, form):
        p, v = self.pt(p), num(v, 1)
        if self.depth == 0 or len(p) != self.depth or self.node(p) is None:
            return None
        f, old = self.root, self.node(p)
        for c in p[:-1]:
            f = f.payloads[f.coords.index(c)]
        pos = f.coords.index(p[-1])
        box = f.payloads[pos]
        if how in ("chain", "nd"):
            # from the top (the tensor itself, where there is one): t[i][j] += v
            # as one expression, and the element t[i, j]
            at, g = [], self.root
            for c in p:
                at.append(g.coords.index(c))
                g = g.payloads[at[-1]]
            top = self.obj if form != "cp" else self.root
        arg = {"box": Payload(v), "cp": CoordPayload(p[-1], v)}.get(form, v)
        new = {"ilshift": v, "iadd": old + v, "isub": old - v}.get(op, old * v)
        if abs(new) > 10 ** 12:
            return None
        def upd(x):
            if op == "ilshift":
                x <<= arg
            elif op == "iadd":
                x += arg
            elif op == "isub":
                x -= arg
            else:
                x *= arg
            return x
        def augment():
            f = f0
            if how == "chain":
                f = top
                for i in at[:-1]:
                    f = f[i]
            if op == "ilshift":
                f[pos] <<= arg
            elif op == "iadd":
                f[pos] += arg
            elif op == "isub":
                f[pos] -= arg
            else:
                f[pos] *= arg
        f0 = f
        if how in ("augment", "chain"):
            lib("f[i] " + str(op), augment)
        elif how == "nd":
            e = lib("t[i, j]", lambda: top[tuple(at)])
            if lib("element " + str(op), upd, e) is not e:
                raise Violation("not-an-alias", f"{op} through the element {at} returned another object")
            for c in p:
                if e.coord != c:
                    raise Violation("wrong-element", f"element {at} names coordinate {e.coord!r}, stored is {c!r}")
                e = e.payload
            self.same(e, new, f"the element at {p} after {op}")
        else:
            if how == "iter":
                e = [e for e in lib("iterOccupancy", lambda: list(f.iterOccupancy())) if e.coord == p[-1]]
                if not e:
                    return None          # holds the default: not delivered
                e = e[0]
            else:
                e = lib("f[i]", f.__getitem__, pos)
            if e.coord != p[-1]:
                raise Violation("wrong-element", f"position {pos} reads coordinate {e.coord!r}, stored is {p[-1]!r}")
            x = lib("element " + str(op), upd, e)
            if x is not e:
                raise Violation("not-an-alias", f"{op} through the element at {p} returned another object ({type(x).__name__})")
            self.same(e.payload, new, f"the element at {p} after {op}")
        if self.stored(p) is not box:
            raise Violation("not-an-alias", f"{op} through the element at {p} replaced the stored payload")
        self.setv(p, new)
        self.writes += 1
        self.ctx.probe("write-through-element")
        return repr(new)

    # -- fiber assignment through a sub-fiber reference
    def gen_fassign(self, rng):
        n = rng.randint(0, max(0, self.depth - 1))
        if self.depth == 0 or self.tup:
            return None
        d = self.depth - n
        return [self.gp(rng, n), T.rand_plan(rng, d, [5] * d, rng.choice([0.2, 0.6]), default=self.default)]

    def do_fassign(self, p, plan):
        p = self.pt(p)
        if self.depth == 0 or self.tup or len(p) >= self.depth:
            return None
        d = self.depth - len(p)
        plan = T.norm_plan(plan, d)
        src = T.build_fiber(plan, d, None, self.default)
        f = self.root if not p else lib("getPayloadRef(prefix)", self.root.getPayloadRef, *p)
        if p:
            self.ensure(p)
        other = {k: v for k, v in self.flat(self.model, self.depth).items() if k[:len(p)] != p}
        def go():
            x = f
            x <<= src
            return x
        if lib("fiber ilshift", go) is not f:
            raise Violation("not-an-alias", "fiber ilshift through a reference to a fiber returned another object")
        self.refs = [h for h in self.refs if not (len(h.point) > len(p) and h.point[:len(p)] == p)]
        self.walks = [w for w in self.walks if not (w.prefix[:len(p)] == p)]
        got = T.content(self.root, self.depth, self.default)
        other.update({p + k: v for k, v in T.plan_content(plan, d, self.default).items()})
        if got != other:
            raise Violation("lost-update", f"assigning a fiber at {p}: content is {got}, expected {other}")
        if self.depth - d == 0:
            self.model = self.back(self.root, self.depth)
        else:
            self.setv(p, self.back(self.fiber_at(p), d))
        self.writes += 1

    def back(self, f, d):
        if d == 0:
            return T.unbox(f)
        return {c: self.back(x, d - 1) for c, x in zip(f.coords, f.payloads)}

    def gen_fscale(self, rng):
        if self.depth == 0 or self.tup or self.default != 0:
            return None
        return [self.gp(rng, rng.randint(0, self.depth - 1)), rng.choice([2, -1])]

    def do_fscale(self, p, k):
        """In-place arithmetic on a whole sub-fiber through its reference."""
        p = self.pt(p)
        if self.depth == 0 or self.tup or len(p) >= self.depth or self.default != 0 or len(p) != self.depth - 1:
            return None
        if "U" in self.cfg["fmt"]:
            return None     # scaling iterates the shape of such a rank
        k = num(k, 2) or 2
        f = self.root if not p else lib("getPayloadRef(prefix)", self.root.getPayloadRef, *p)
        if p:
            self.ensure(p)
        def go():
            x = f
            x *= k
            return x
        if lib("fiber imul", go) is not f:
            raise Violation("not-an-alias", "fiber imul through a reference to a fiber returned another object")
        m = self.node(p)
        for c in m:
            m[c] = m[c] * k
        self.writes += 1

    # -- the other ways to write
    def gen_door(self, rng):
        if self.depth == 0:
            return None
        p = self.some_fiber(rng) if rng.random() < 0.5 else self.gp(rng, self.depth - 1)
        return [p, rng.choice(["append", "append", "extend", "extend", "setitem", "setitem", "setcoord", "insert", "orlookup", "clear"]),
                rng.randrange(6), rng.choice([1, 2, -3, 5, 1.5, self.default]), rng.choice(["raw", "raw", "box", "cp"])]

    def forget(self, p):
        """Handles to what lay below p are void."""
        self.refs = [h for h in self.refs if h.point[:len(p)] != p]
        self.walks = [w for w in self.walks if w.prefix[:len(p)] != p]

    def do_door(self, p, how, k, v, form):
        p, f = self.sub(p)
        if f is None:
            return None
        m = self.node(p)
        d = self.depth - len(p) - 1
        k, v = abs(int(num(k))), num(v, 1)
        idx = lambda c: c[0] * 3 + c[1] if self.tup else c
        top = max([idx(c) for c in m], default=-1) + 1 + k % 3
        boxes = self.others(None)
        def payload(x):
            if d:
                sub, out = x, {}
                for i in range(d):
                    sub, out = Fiber([self.C(i)], [sub], default=self.default) if not i else Fiber([self.C(i)], [sub]), \
                        {self.C(i): out if i else x}
                return sub, out
            return {"box": Payload(x), "cp": Payload(x)}.get(form, x), x

        if top > 200:
            return None
        if how == "append":
            pl, new = payload(v)
            lib("append", f.append, self.C(top), pl)
            m[self.C(top)] = new
        elif how == "extend":
            if v == self.default:
                v = v + 1
            cs = [self.C(top), self.C(top + 1 + k)]
            pls = [payload(v), payload(v + 1 if v + 1 != self.default else v)]
            lib("extend", f.extend, Fiber(cs, [x for x, _ in pls], default=self.default) if not d else Fiber(cs, [x for x, _ in pls]))
            for c, (_, new) in zip(cs, pls):
                m[c] = new
        elif how in ("setitem", "setcoord"):
            if not f.coords or (how == "setitem" and d):
                return None
            pos = k % len(f.coords)
            c = f.coords[pos]
            if how == "setitem":
                x = CoordPayload(c, v) if form == "cp" else Payload(v) if form == "box" else v
                door = self.obj if not p and len(f.coords) % 2 else f      # the tensor itself is a door too
                lib("setitem", door.__setitem__, pos - len(f.coords) if k > 4 else pos, x)
                m[c] = v
            else:
                lo = idx(f.coords[pos - 1]) + 1 if pos else 0
                hi = idx(f.coords[pos + 1]) if pos + 1 < len(f.coords) else idx(c) + 3
                new = self.C(lo + k % (hi - lo))
                lib("setitem", f.__setitem__, pos, CoordPayload(new, None))
                m[new] = m.pop(c)
            self.forget(p + (c,))
            boxes = {q: b for q, b in boxes.items() if q[:len(p) + 1] != p + (c,)}
        elif how in ("insert", "orlookup"):
            c = self.C(k)
            if d or (how == "insert" and c in m):
                return None
            if how == "insert":
                lib("insert", f.insert, c, Payload(v) if form == "box" else v)
            else:
                r = lib("insertOrLookup", f.insertOrLookup, c, Payload(v) if form == "box" else v)
                self.same(r, m.get(c, v), "insertOrLookup")
                if f.payloads[f.coords.index(c)] is not r:
                    raise Violation("not-an-alias", f"insertOrLookup({c}) is not the stored payload")
                self.keep(r, p + (c,))
            m.setdefault(c, v)
        elif how == "clear":
            lib("clear", f.clear)
            m.clear()
            self.refs = [h for h in self.refs if len(h.point) <= len(p) or h.point[:len(p)] != p]
            self.walks = [w for w in self.walks if w.prefix[:len(p)] != p]
            boxes = {q: b for q, b in boxes.items() if q[:len(p)] != p}
        self.undisturbed(boxes, str(how))
        self.writes += 1
        self.ctx.probe("written through " + str(how))

    # -- positions
    def some_fiber(self, rng):
        """A prefix whose fiber exists."""
        n = rng.randrange(self.depth)
        out, m = [], self.model
        for _ in range(n):
            if not m:
                break
            c = rng.choice(sorted(m))
            out.append(c[0] * 3 + c[1] if self.tup else c)
            m = m[c]
        return out

    def legal(self, f, c, sp):
        if not isinstance(sp, int) or isinstance(sp, bool):
            return None
        below = [i for i, x in enumerate(f.coords) if x <= c]
        cand = [0] + below
        return cand[sp % len(cand)]

    def gen_pos(self, rng):
        if self.depth == 0:
            return None
        p = self.some_fiber(rng)
        return [p, rng.randrange(7), rng.choice([None, 0, 1, 2, 3, 4]), rng.random() < 0.3]

    def sub(self, p):
        p = self.pt(p)
        if self.depth == 0 or len(p) >= self.depth or not isinstance(self.node(p), dict):
            return None, None
        return p, self.fiber_at(p)

    def do_pos(self, p, c, sp, boxed):
        p, f = self.sub(p)
        if f is None:
            return None
        c = self.C(c)
        sp = self.legal(f, c, sp)
        before = self.pre()
        kw = {} if sp is None else {"start_pos": Payload(sp) if boxed else sp}
        got = T.unbox(lib("getPosition", f.getPosition, c, **kw))
        self.pure(before, "getPosition")
        self.posok(f, p, c, got, f"getPosition({c}, {kw}) in {f.coords}")
        self.reads += 1
        return got

    def posok(self, f, p, c, got, what):
        m = self.node(p)
        if c in m:
            if got is None and m[c] in (self.default, {}):
                return      # a stored but empty element: None is allowed
            if got != f.coords.index(c):
                raise Violation("wrong-position", f"{what} returned {got}", sig="wrong-position")
        elif got is not None:
            raise Violation("wrong-position", f"{what} returned {got} for an absent coordinate", sig="wrong-position")

    def gen_posref(self, rng):
        return self.gen_pos(rng)

    def do_posref(self, p, c, sp, boxed):
        p, f = self.sub(p)
        if f is None:
            return None
        c = self.C(c)
        sp = self.legal(f, c, sp)
        kw = {} if sp is None else {"start_pos": Payload(sp) if boxed else sp}
        boxes = self.others(None)
        got = T.unbox(lib("getPositionRef", f.getPositionRef, c, **kw))
        self.ensure(p + (c,))
        if not isinstance(got, int) or not 0 <= got < len(f.coords) or f.coords[got] != c:
            raise Violation("wrong-position", f"getPositionRef({c}, {kw}) returned {got} in {f.coords}")
        self.undisturbed(boxes, "getPositionRef")
        self.writes += 1
        return got

    # -- one-level accesses with a search start
    def gen_sread(self, rng):
        return self.gen_pos(rng)

    def one(self, f, p, c, kw, ref=False):
        """getPayload/getPayloadRef of one coordinate; checks the answer."""
        if ref:
            boxes = self.others(None)
            r = lib("getPayloadRef(start_pos)", f.getPayloadRef, c, **kw)
            self.ensure(p + (c,))
            if self.stored(p + (c,)) is not r:
                raise Violation("not-an-alias", f"getPayloadRef({c}, {kw}) is not the stored payload")
            self.undisturbed(boxes, f"getPayloadRef({c}, {kw})")
            self.writes += 1
        else:
            before = self.pre()
            r = lib("getPayload(start_pos)", f.getPayload, c, **kw)
            self.pure(before, f"getPayload({c}, {kw})")
            self.reads += 1
        m = self.node(p + (c,))
        if len(p) + 1 == self.depth:
            self.same(r, m if m is not None else self.default, f"getPayload({c}, {kw}) in {f.coords}")
        else:
            if not isinstance(r, Fiber):
                raise Violation("wrong-answer", f"getPayload({c}, {kw}) returned {r!r}")
            d = self.depth - len(p) - 1
            have, want = T.content(r, d, self.default), self.flat(m, d) if m is not None else {}
            if have != want:
                raise Violation("wrong-subfiber", f"getPayload({c}, {kw}) gave {have}, expected {want}")
        return r

    def do_sread(self, p, c, sp, boxed):
        p, f = self.sub(p)
        if f is None:
            return None
        c = self.C(c)
        sp = self.legal(f, c, sp)
        self.one(f, p, c, {} if sp is None else {"start_pos": Payload(sp) if boxed else sp})

    def gen_sref(self, rng):
        return self.gen_pos(rng)

    def do_sref(self, p, c, sp, boxed):
        p, f = self.sub(p)
        if f is None:
            return None
        c = self.C(c)
        sp = self.legal(f, c, sp)
        r = self.one(f, p, c, {} if sp is None else {"start_pos": Payload(sp) if boxed else sp}, ref=True)
        self.keep(r, p + (c,))

    # -- clients walking a fiber with remembered positions
    def gen_walk(self, rng):
        if self.depth == 0 or len(self.walks) >= 3:
            return None
        return [self.some_fiber(rng)]

    def do_walk(self, p):
        p, f = self.sub(p)
        if f is None or len(self.walks) >= 3:
            return None
        w = Walk()
        w.prefix, w.fiber, w.last, w.pos, w.muts = p, f, -1, 0, 0
        self.walks.append(w)
        self.ctx.probe("walk-started")

    def gen_wstep(self, rng):
        if not self.walks:
            return None
        return [rng.randrange(len(self.walks)), rng.choice([0, 1, 1, 2, 3]), rng.choice(["read", "read", "ref", "posref", "burst"])]

    def do_wstep(self, i, dc, how):
        if not self.walks:
            return None
        i = int(num(i)) % len(self.walks)
        w = self.walks[i]
        f = w.fiber
        reps = 3 if how == "burst" else 1
        for k in range(reps):
            ci = max(0, w.last) + abs(int(num(dc)))
            if ci > 7:
                self.walks.remove(w)
                return "end"
            c = self.C(ci)
            sp = w.pos
            if sp is None or (sp and not (sp < len(f.coords) and f.coords[sp] <= c)):
                # our own remembered position can only have been overtaken by
                # another client's use of this fiber's saved position
                if k:
                    raise Violation("bad-saved-position",
                                    f"the saved position {sp} left by the access at the previous coordinate is not a "
                                    f"legal start for {c} in {f.coords}")
                sp = 0
                self.ctx.probe("stale-saved-position")
            if how == "posref":
                got = T.unbox(lib("getPositionRef", f.getPositionRef, c, start_pos=sp))
                self.ensure(w.prefix + (c,))
                if not 0 <= got < len(f.coords) or f.coords[got] != c:
                    raise Violation("wrong-position", f"getPositionRef({c}, start_pos={sp}) returned {got} in {f.coords}")
                self.writes += 1
            else:
                self.one(f, w.prefix, c, {"start_pos": sp}, ref=(how == "ref"))
            w.pos = f.getSavedPos()
            if w.pos and not (0 <= w.pos < len(f.coords) and f.coords[w.pos] <= c):
                raise Violation("bad-saved-position", f"after the access at {c} from start {sp} the saved position is "
                                                      f"{w.pos} in {f.coords}")
            w.last = ci
        return w.last

    # -- a client scribbles on what a read of an absent point returned
    def gen_scribble(self, rng):
        return [self.gp(rng, rng.randint(1, self.depth)) if self.depth else [], rng.randint(1, 5), rng.choice(["ilshift", "iadd"])]

    def do_scribble(self, p, v, op):
        p = self.pt(p)
        if self.depth == 0 or not p or self.node(p) is not None:
            return None
        before = self.pre()
        r = lib("getPayload", self.root.getPayload, *p)
        def go():
            x = r
            if isinstance(x, Fiber):
                x = x.getPayloadRef(*[self.C(0)] * (self.depth - len(p)))
            if op == "iadd":
                x += num(v, 1)
            else:
                x <<= num(v, 1)
        lib("write to a default", go)
        self.pure(before, "an update of the default returned by getPayload")
        again = lib("getPayload", self.root.getPayload, *p)
        if isinstance(again, Fiber):
            if T.content(again, self.depth - len(p), self.default):
                raise Violation("default-shared", f"absent prefix {p} now reads {again!r}")
        else:
            self.same(again, self.default, f"getPayload({p})")
        self.reads += 1
        self.ctx.probe("scribble-on-default")

    # -- calls that must fail
    def gen_bad(self, rng):
        return [self.gp(rng), rng.randrange(3)]

    def do_bad(self, p, k):
        """Too many coordinates: rejected, and no read leaves a trace."""
        p = self.pt(p)
        if self.depth == 0 or len(p) != self.depth or self.node(p) is None:
            return None
        before = self.pre()
        try:
            lib("getPayload(too many)", self.root.getPayload, *p, self.C(k))
        except LibRaised:
            self.ctx.fault("rejected_read")
        self.pure(before, "a rejected getPayload")

    def gen_restart(self, rng):
        return [rng.choice(["pickle", "deepcopy"])]

    def do_restart(self, how):
        self.obj = lib("restart", (lambda o: pickle.loads(pickle.dumps(o))) if how == "pickle" else copy.deepcopy, self.obj)
        self.refs, self.walks = [], []
        self.ctx.fault("restart_" + str(how))

    # ------------------------------------------------------------- checks
    def check(self):
        if self.depth == 0:
            r = self.obj.getRoot()
            if T.unbox(r) != self.model:
                raise Violation("lost-update", f"rank-0 tensor holds {r!r}, expected {self.model}")
            return
        have, want = self.raw(self.root, self.depth), self.want(self.model, self.depth)
        if have != want:
            raise Violation("tree-diverged", f"the tree is {have}, the map is {want}")

    def state_key(self):
        return (repr(self.want(self.model, self.depth)) if self.depth else self.model,
                tuple(len(r.point) for r in self.refs), tuple(w.last for w in self.walks))

    def nontrivial(self):
        return self.reads >= 2 and self.writes >= 2
