"""C10: value-returning operations never disturb or alias their operands.

A pool of tensors and fibers. The scheduler interleaves value-returning
operations (whose results join the pool), mutations of any member through any
door, read-only operations and suspended read-only iterations, raising
callbacks and failing disks. After every step every member the step did not
mutate is exactly what it was (structure, object identities, rank lists,
attributes), and no two members share a mutable object.
"""
import copy
import os

from fibertree import Fiber, Payload, Tensor
from fibertree.core.coord_payload import CoordPayload
from fibertree.graphics.tensor_image import TensorImage
from fibertree.model.compute import Compute
from fibertree.model.format import Format

from .. import tree as T
from ..engine import BaseWorld, DONE, InjectedFault, LibRaised, Violation, lib, lib_next
from ..treesim import ix, num

RUNS = {"quick": 18000, "thorough": 250000}
CHUNK = 40
MAXPOOL = 6
MAXNODES = 160
RULE = ("a run is nontrivial when at least one value-returning operation succeeded on a non-empty operand and either side "
        "was mutated afterwards; distinct runs are counted by the digest of their event log")
STATE_MEASURE = "distinct tuples of raw member trees (coordinates, structure, zero/non-zero leaves) reached after a step"
ASSUMPTIONS = [
    "an operation that raises is a rejected operation; its operands must still be untouched",
    "Fiber.project, Fiber.prune, Fiber.nonEmpty, Fiber slices and Fiber.concat are views by design (payloads shared) and "
    "are not in the property's list of value-returning operations",
]


def attrs_of(a):
    out = []
    for g in ("getId", "getShape", "getFormat", "getDefault"):
        try:
            out.append(repr(getattr(a, g)()))
        except Exception as e:
            out.append(type(e).__name__)
    return tuple(out)


def fsnap(f):
    ps = []
    for p in f.payloads:
        if isinstance(p, Fiber):
            ps.append(fsnap(p))
        elif isinstance(p, Payload):
            ps.append((id(p), type(p.value).__name__, repr(p.value)))
        else:
            ps.append((id(p), repr(p)))
    try:
        act = repr(f.getActive())
    except Exception as e:
        act = type(e).__name__
    o = f.getOwner()
    return (id(f), tuple(f.coords), tuple(ps), act, id(f.getRankAttrs()), attrs_of(f.getRankAttrs()),
            None if o is None else id(o))


def msnap(x):
    if isinstance(x, Fiber):
        o = x.getOwner()
        return ("fiber", fsnap(x), () if o is None else tuple(id(f) for f in o.getFibers()))
    root = x.getRoot()
    rs = tuple((id(r), tuple(id(f) for f in r.getFibers()), attrs_of(r.getAttrs()),
                id(r.getNextRank()) if r.getNextRank() is not None else None) for r in x.ranks)
    r = fsnap(root) if isinstance(root, Fiber) else (id(root), repr(root))
    try:
        sh = repr(x.getShape(authoritative=True))
    except Exception as e:
        sh = type(e).__name__
    return ("tensor", r, rs, x.getName(), x.getColor(), x.isMutable(), repr(x.getRankIds()), sh)


def objects(x):
    """id -> (what, object) of every mutable object reachable from x."""
    out = {}
    todo = []

    def rank(r):
        if r is None or id(r) in out:
            return
        out[id(r)] = ("rank", r)
        a = r.getAttrs()
        out[id(a)] = ("rank attributes", a)
        todo.extend(r.getFibers())
        rank(r.getNextRank())

    if isinstance(x, Tensor):
        out[id(x)] = ("tensor", x)
        for r in x.ranks:
            rank(r)
        todo.append(x.getRoot())
    else:
        todo.append(x)
    while todo:
        o = todo.pop()
        if id(o) in out:
            continue
        if isinstance(o, Fiber):
            out[id(o)] = ("fiber", o)
            out[id(o.coords)] = ("coordinate list", o.coords)
            out[id(o.payloads)] = ("payload list", o.payloads)
            a = o.getRankAttrs()
            out[id(a)] = ("rank attributes", a)
            rank(o.getOwner())
            todo.extend(o.payloads)
        elif isinstance(o, Payload):
            out[id(o)] = ("payload box", o)
            if isinstance(o.value, tuple):
                todo.extend(o.value)
            elif isinstance(o.value, (Fiber, Payload)):
                todo.append(o.value)
    return out


WHAT = {"fiber": ("kind", "tree", "rank list"),
        "tensor": ("kind", "tree", "ranks", "name", "color", "mutable flag", "rank ids", "shape")}
FWHAT = ("identity", "coordinates", "payloads", "active range", "rank attributes object", "rank attributes", "owner")


def where(a, b):
    if a[0] != b[0]:
        return "kind"
    for w, x, y in zip(WHAT[a[0]], a, b):
        if x != y:
            return w + (fdiff(x, y) if w == "tree" else "")
    return "?"


def fdiff(a, b):
    if len(a) != len(b) or len(a) != len(FWHAT):
        return " payload"
    for w, x, y in zip(FWHAT, a, b):
        if x != y:
            if w == "payloads" and len(x) == len(y):
                for p, q in zip(x, y):
                    if p != q and isinstance(p, tuple) and len(p) == len(FWHAT) == len(q):
                        return fdiff(p, q)
            return " " + w
    return ""


class Member:
    __slots__ = ("obj", "snap", "born", "muts", "full")

    def __init__(self, obj, born):
        self.obj = obj
        self.born = born
        self.muts = 0
        self.snap = msnap(obj)
        self.full = self.nonempty()

    @property
    def root(self):
        return self.obj.getRoot() if isinstance(self.obj, Tensor) else self.obj

    def nonempty(self):
        r = self.root
        return isinstance(r, Fiber) and bool(r.coords)

    def depth(self):
        if isinstance(self.obj, Tensor):
            return len(self.obj.ranks)
        return fdepth(self.obj)


def fdepth(f):
    d, todo = 1, [f]
    while todo:
        nxt = [p for x in todo for p in x.payloads if isinstance(p, Fiber)]
        if not nxt:
            return d
        d += 1
        todo = nxt
    return d


def tuple_level(f):
    """The depth of the first rank with tuple coordinates."""
    lv = 0
    while isinstance(f, Fiber) and f.payloads:
        if isinstance(f.coords[0], tuple):
            return lv
        f = f.payloads[0]
        lv += 1
    return None


def nodes(f):
    if not isinstance(f, Fiber):
        return 1
    return 1 + sum(nodes(p) for p in f.payloads)


class Task:
    __slots__ = ("gen", "kind", "mem", "n")


SPLITS = ["splitUniform", "splitNonUniform", "splitEqual", "splitUnEqual", "div", "floordiv"]
STYLES = ["tuple", "pair", "absolute", "relative", "linear"]


class World(BaseWorld):
    @classmethod
    def gen_config(cls, rng):
        mems = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            d = rng.choice([1, 2, 2, 2, 3])
            sh = T.rand_shape(rng, d, 5, 2, wide=0.04)
            mems.append({"kind": rng.choice(["tensor", "tensor", "tensor", "fiber", "nest"]) if rng.random() > 0.04 else "scalar",
                         "depth": d, "shape": sh, "decl": rng.random() < 0.8,
                         "default": rng.choice([0, 0, 0, 7, 2.5]),
                         "fmts": [rng.choice("CCCU") for _ in range(d)],
                         "plan": T.rand_plan(rng, d, sh, density=rng.choice([0.0, 0.4, 0.6, 0.9]))})
        return {"mems": mems, "n_steps": rng.randint(6, 24)}

    def __init__(self, cfg, ctx):
        super().__init__(cfg, ctx)
        self.pool = []
        self.tasks = []
        self.derived = 0
        self.follow = 0
        for mc in cfg["mems"]:
            self.pool.append(Member(self.make(mc), "built"))

    def make(self, mc):
        d = max(1, min(3, int(num(mc.get("depth"), 1))))
        sh = [max(1, min(300, int(num(s, 1)))) for s in mc.get("shape", [])][:d]
        sh += [2] * (d - len(sh))
        default = num(mc.get("default", 0))
        kind = mc.get("kind")
        plan = [e for e in T.norm_plan(mc.get("plan", []), d)]
        plan = clip(plan, sh)
        if kind == "scalar":
            return Tensor(rank_ids=[])
        if kind == "fiber":
            return T.build_fiber(plan, d, sh if mc.get("decl") else None, default)
        if kind == "nest":
            t = Tensor.fromUncompressed(T.rank_names(d), nest(plan, sh, default), default=default)
        else:
            t = T.build_tensor(plan, d, sh if mc.get("decl", True) else None, default)
        if mc.get("decl", True):
            for r, f in zip(t.getRankIds(), mc.get("fmts", [])):
                t.setFormat(r, "U" if f == "U" else "C")
        return t

    # ------------------------------------------------------------ helpers
    def mem(self, i):
        k = ix(i, len(self.pool))
        return None if k is None else self.pool[k]

    def fiber(self, m, path):
        """A fiber of member m by positions, and its remaining depth."""
        f = m.root
        if not isinstance(f, Fiber):
            return None
        for i in path if isinstance(path, list) else []:
            if not f.payloads:
                break
            p = f.payloads[ix(i, len(f.payloads))]
            if not isinstance(p, Fiber):
                break
            f = p
        return f

    def attempt(self, what, fn, *a, **kw):
        try:
            return True, lib(what, fn, *a, **kw)
        except InjectedFault:
            self.ctx.fault("callback_raise")
        except LibRaised as e:
            self.ctx.fault("rejected:" + what.split(":")[0])
            self.last = e
        return False, None

    def unchanged(self, what, but=()):
        for k, m in enumerate(self.pool):
            if m in but:
                continue
            now = msnap(m.obj)
            if now != m.snap:
                w = where(m.snap, now)
                raise Violation("disturbed", f"{what} changed the {w} of member {k} (made by {m.born}), which it must not "
                                f"touch; now {str(m.obj)[:300]}", sig=f"disturbed|{what}|{w}")

    def disjoint(self, what):
        seen = {}
        for k, m in enumerate(self.pool):
            for i, (kind, o) in objects(m.obj).items():
                if i in seen and seen[i][0] is not m:
                    raise Violation("shared", f"after {what} the member made by {seen[i][0].born} and the one made by {m.born} "
                                    f"share a {kind}: {str(o)[:200]}", sig=f"shared|{m.born}|{kind}")
                seen[i] = (m, k)

    def check(self):
        pass

    def join(self, obj, what):
        if not isinstance(obj, (Fiber, Tensor)):
            return False
        if isinstance(obj, Fiber) and obj.isLazy():
            return False
        r = obj.getRoot() if isinstance(obj, Tensor) else obj
        if nodes(r) > MAXNODES:
            return False
        m = Member(obj, what)
        self.pool.append(m)
        self.disjoint(what)
        if len(self.pool) > MAXPOOL:
            old = self.pool.pop(0)
            self.tasks = [t for t in self.tasks if t.mem is not old]
        if m.full:
            self.derived += 1
        return True

    # ---------------------------------------------------------- scheduler
    OPS = [("xf", 9), ("mut", 8), ("obs", 6), ("spawn", 2), ("advance", 4), ("stop", 1), ("drop", 1)]

    def gen_step(self, rng):
        for _ in range(20):
            n = rng.choices([o for o, _ in self.OPS], [w for _, w in self.OPS])[0]
            s = getattr(self, "gen_" + n)(rng)
            if s is not None:
                return [n] + s
        return ["noop"]

    def exec_step(self, step):
        fn = getattr(self, "do_" + str(step[0]), None)
        if fn is None:
            return None
        try:
            return fn(*step[1:])
        except TypeError as e:
            if "positional argument" in str(e) and "do_" in str(e):
                return "malformed"
            raise

    # --------------------------------------------- value-returning operations
    def gen_path(self, rng, m):
        return [rng.randrange(4) for _ in range(rng.choice([0, 0, 0, 1, 2]))]

    def gen_xf(self, rng):
        k = rng.randrange(len(self.pool))
        m = self.pool[k]
        d = max(1, m.depth())
        lvl = "t" if isinstance(m.obj, Tensor) and rng.random() < 0.65 else "f"
        path = [] if lvl == "t" else self.gen_path(rng, m)
        dep = rng.randrange(d)
        ops = ["split"] * 5 + ["swap", "flatten", "flatten", "merge", "merge", "unflatten", "deepcopy", "copy"]
        if lvl == "t":
            ops += ["swizzle", "swizzle", "swizzle", "updC", "updC", "updP", "updP", "fromFiber", "split"]
        else:
            ops += ["add", "mul", "addS", "mulS", "add", "mul"]
        op = rng.choice(ops)
        if lvl == "f":
            dep = rng.choice([0, 0, dep])
        tl = tuple_level(m.root if lvl == "t" else self.fiber(m, path))
        if tl is not None and rng.random() < 0.45 and (lvl == "t" or tl == 0):
            op, dep = "unflatten", tl
        elif op in ("flatten", "merge", "swap") and rng.random() < 0.85:
            if d < 2:
                op = "deepcopy" if lvl == "t" else "add"
            else:
                dep = rng.randrange(d - 1)
                if lvl == "f" and op != "swap":
                    path = []
        elif op == "unflatten" and rng.random() < 0.8:
            op = "copy" if lvl == "f" else "deepcopy"
        if op == "split":
            a = [rng.choice(SPLITS), rng.randint(1, 4), rng.random() < 0.25, dep, rng.choice(["depth", "rankid"]),
                 rng.choice([0, 0, 0, 1]), rng.choice([0, 0, 0, 1])]
        elif op == "swizzle":
            p = list(range(d))
            rng.shuffle(p)
            a = [p]
        elif op == "swap":
            a = [dep]
        elif op in ("flatten", "merge"):
            a = [dep, 1 if dep + 2 >= d else rng.choice([1, 2]), rng.choice(STYLES + ["tuple", "pair"]),
                 rng.choice(["sum", "first", "mutate", "raise"])]
        elif op == "unflatten":
            a = [dep, rng.choice([1, 1, 2])]
        elif op in ("updC", "updP"):
            a = [dep, rng.choice(["inc", "rev", "mutate", "same", "const"]), rng.choice([-1, -1, -1, 0, 1])]
        elif op in ("add", "mul"):
            a = [rng.randrange(len(self.pool)), self.gen_path(rng, m)]
        elif op in ("addS", "mulS"):
            a = [rng.choice([0, 1, 2, 1.5]), rng.choice(["raw", "box", "right"])]
        elif op == "copy":
            a = [rng.random() < 0.5]
        else:
            a = []
        return [k, lvl, path, op, a]

    def do_xf(self, k, lvl, path, op, a):
        m = self.mem(k)
        if m is None:
            return None
        a = a if isinstance(a, list) else []

        def arg(i, d=0):
            return a[i] if i < len(a) else d
        x = m.obj if lvl == "t" else self.fiber(m, path)
        if x is None or (lvl == "t" and not isinstance(x, Tensor)):
            return None
        isT = isinstance(x, Tensor)
        if isT and not isinstance(x.getRoot(), Fiber) and op not in ("deepcopy", "updP"):
            return None
        d = len(x.ranks) if isT else fdepth(x)
        dep = ix(arg(3 if op == "split" else 0), max(1, d))
        what = ("Tensor." if isT else "Fiber.") + str(op)
        if op == "split":
            how, n = arg(0), max(1, int(num(arg(1), 1)))
            what = ("Tensor." if isT else "Fiber.") + str(how)
            kw = {}
            if how in ("div", "floordiv"):
                fn = (lambda: x / n) if how == "div" else (lambda: x // n)
            elif how in SPLITS:
                if arg(4) == "rankid" and isT:
                    kw["rankid"] = x.getRankIds()[dep]
                elif dep:
                    kw["depth"] = dep
                if arg(2):
                    kw["relativeCoords"] = True
                if num(arg(5)):
                    kw["pre_halo"] = 1
                if num(arg(6)):
                    kw["post_halo"] = 1
                v = n
                if how == "splitNonUniform":
                    v = [0, n, n + 2]
                elif how == "splitUnEqual":
                    v = [n, 1, 2]
                if isinstance(v, list):
                    # the argument is an input too: it must come back unchanged
                    keep = list(v)
                    lib_args = v

                    def fn():
                        r = getattr(x, how)(lib_args, **kw)
                        if lib_args != keep:
                            raise Violation("disturbed", f"{what} changed its argument {keep} to {lib_args}",
                                            sig=f"disturbed|{what}|argument")
                        return r
                else:
                    def fn():
                        return getattr(x, how)(v, **kw)
            else:
                return None
            if dep and how in SPLITS[:4]:
                what += " below the root"
        elif op == "swizzle":
            ids = x.getRankIds() if isT else []
            p = arg(0)
            if not isT or not isinstance(p, list) or sorted(p, key=repr) != list(range(d)):
                return None

            def fn():
                return x.swizzleRanks([ids[i] for i in p])
        elif op == "swap":
            def fn():
                return x.swapRanks(depth=dep) if isT else x.swapRanks()
        elif op in ("flatten", "merge"):
            lv = max(1, int(num(arg(1), 1)))
            style = arg(2) if arg(2) in STYLES else "tuple"
            mode = arg(3)
            kw = {"depth": dep, "levels": lv, ("coord_style" if isT else "style"): style}
            if op == "merge":
                def merge_fn(ps):
                    if mode == "raise":
                        raise InjectedFault()
                    if mode == "first":
                        return ps[0]
                    if mode == "mutate":
                        ps[0] += 1
                        return ps[0]
                    return sum(ps)
                kw["merge_fn"] = None if mode == "sum" else merge_fn

            def fn():
                return (x.flattenRanks if op == "flatten" else x.mergeRanks)(**kw)
        elif op == "unflatten":
            lv = max(1, int(num(arg(1), 1)))

            def fn():
                return x.unflattenRanks(depth=dep, levels=lv) if isT else x.unflattenRanks(levels=lv)
        elif op in ("updC", "updP"):
            if not isT:
                return None
            mode, rais = arg(1), arg(2)
            cnt = [0]

            def tick():
                cnt[0] += 1
                if cnt[0] - 1 == rais and rais is not False:
                    raise InjectedFault()

            def cfn(i, c, p):
                tick()
                if isinstance(c, tuple):
                    return c
                return {"inc": c + 1, "rev": abs(20 - c), "const": 3}.get(mode, c)

            def pfn(i, c, p):
                tick()
                if isinstance(p, Fiber):
                    if mode == "mutate":
                        p.clear()
                    return p
                if mode == "mutate":
                    p += 1
                    return p
                return {"inc": p + 1, "const": 3, "rev": 2}.get(mode, p)

            def fn():
                return x.updateCoords(cfn, depth=dep) if op == "updC" else x.updatePayloads(pfn, depth=dep)
        elif op in ("add", "mul"):
            m2 = self.mem(arg(0))
            y = self.fiber(m2, arg(1)) if m2 is not None else None
            if isT or y is None:
                return None
            if fdepth(x) != fdepth(y) and x.coords and y.coords:
                return None

            def fn():
                return x + y if op == "add" else x * y
        elif op in ("addS", "mulS"):
            if isT or fdepth(x) > 1:
                return None
            v = num(arg(0), 1)
            s = Payload(v) if arg(1) == "box" else v

            def fn():
                if op == "addS":
                    r = s + x if arg(1) == "right" else x + s
                else:
                    r = s * x if arg(1) == "right" else x * s
                if isinstance(s, Payload) and s.value != v:
                    raise Violation("disturbed", f"{what} changed its scalar operand", sig="disturbed|scalar operand")
                return r
        elif op == "copy":
            if isT:
                return None

            def fn():
                return x.copy(preserve_owner=bool(arg(0, True)))
            what = "Fiber.copy" + ("" if arg(0, True) else "(preserve_owner=False)")
        elif op == "deepcopy":
            def fn():
                return copy.deepcopy(x)
        elif op == "fromFiber":
            if not isT:
                return None

            def fn():
                return Tensor.fromFiber(list(x.getRankIds()), x.getRoot())
        else:
            return None
        if not self.bounded(x):
            return "unbounded"
        ok, r = self.attempt(what, fn)
        self.unchanged(what)
        if ok:
            self.ctx.probe("value-op:" + what)
            self.join(r, what)
        return ok

    def bounded(self, x):
        """Dense traversals of an uncompressed rank need a finite, small shape."""
        t = [x.getRoot() if isinstance(x, Tensor) else x]
        while t:
            f = t.pop()
            if not isinstance(f, Fiber):
                continue
            a = f.getRankAttrs()
            s = a.getShape()
            if isinstance(s, int) and s > 200 or s == float("inf"):
                return False
            t.extend(f.payloads)
        return True

    # ------------------------------------------------------------ mutations
    MUTS = ["assign", "assign", "box", "box", "box", "insert", "insert", "posref", "append", "setitem", "clear", "updC", "updP",
            "ilshift", "iadd", "imul", "populate", "shaperef", "setRoot", "format", "default", "name", "color", "mutable",
            "shape", "active", "rankids", "getDefault", "attrs", "rawlist", "rank"]

    def gen_mut(self, rng):
        k = rng.randrange(len(self.pool))
        if self.derived and rng.random() < 0.5:
            k = len(self.pool) - 1
        return [k, [rng.randrange(4) for _ in range(rng.randrange(3))], rng.choice(self.MUTS), rng.randrange(6), rng.choice([0, 1, 5, -2, 2.5])]

    def do_mut(self, k, path, how, i, v):
        m = self.mem(k)
        if m is None:
            return None
        f = self.fiber(m, path)
        t = m.obj if isinstance(m.obj, Tensor) else None
        i, v = int(num(i)), num(v)
        if f is None:
            if t is not None and how in ("box", "assign"):
                r = t.getRoot()

                def fn():
                    q = r
                    q <<= v
            else:
                return None
        else:
            n = len(f.coords)
            pos = i % n if n else None
            c = f.coords[pos] if n else i
            leaf = fdepth(f) == 1

            def fiberval():
                return Fiber([0, 2], [v, 4]) if fdepth(f) <= 2 else Fiber([1], [Fiber([0], [v])])
            if how == "box":
                b = next((p for p in f.payloads if isinstance(p, Payload)), None)
                if b is None:
                    return None

                def fn():
                    q = b
                    q <<= v
            elif how == "assign":
                if pos is None or not isinstance(f.payloads[pos], Payload):
                    return None

                def fn():
                    q = f.payloads[pos]
                    q += v
            elif how in ("insert", "posref"):
                cc = c + 1 if isinstance(c, int) else c

                def fn():
                    if how == "posref":
                        f.getPositionRef(cc)
                    else:
                        q = f.getPayloadRef(cc)
                        if isinstance(q, Payload):
                            q <<= v
            elif how == "append":
                last = f.coords[-1] if n else -1
                if not isinstance(last, int):
                    return None

                def fn():
                    f.append(last + 1, v if leaf else fiberval())
            elif how == "setitem":
                if pos is None:
                    return None

                def fn():
                    f[pos] = v if leaf else fiberval()
            elif how == "clear":
                fn = f.clear
            elif how == "updC":
                def fn():
                    f.updateCoords(lambda a, cc, p: cc + 1 if isinstance(cc, int) else cc)
            elif how == "updP":
                def fn():
                    f.updatePayloads(lambda a, cc, p: p + 1 if isinstance(p, Payload) else p)
            elif how == "ilshift":
                def fn():
                    g = f
                    g <<= fiberval() if not leaf else Fiber([0, 2], [v, 4])
            elif how in ("iadd", "imul"):
                if not leaf or not self.bounded(f) or isinstance(c, tuple):
                    return None

                def fn():
                    g = f
                    if how == "iadd":
                        g += v
                    else:
                        g *= v
            elif how == "populate":
                if not leaf:
                    return None

                def fn():
                    for cc, (r, val) in f << Fiber([1, i + 2], [3, v]):
                        r += val
            elif how == "shaperef":
                if not self.bounded(f) or isinstance(c, tuple):
                    return None

                def fn():
                    for a, _ in zip(f.iterShapeRef(), range(20)):
                        pass
            elif how in ("format", "default", "name", "color", "mutable", "shape", "rankids", "setRoot"):
                if t is None:
                    return None
                ids = t.getRankIds()

                def fn():
                    if how == "format":
                        r = ids[i % len(ids)]
                        t.setFormat(r, "U" if t.getFormat(r) == "C" and t.getShape(authoritative=True) else "C")
                    elif how == "default":
                        t.setDefault(v)
                    elif how == "name":
                        t.setName("n%d" % i)
                    elif how == "color":
                        t.setColor(["red", "blue", "green"][i % 3])
                    elif how == "mutable":
                        t.setMutable(not t.isMutable())
                    elif how == "shape":
                        t.setShape([20 + i] * len(ids))
                    elif how == "rankids":
                        t.setRankIds(["Q%d_%d" % (i, j) for j in range(len(ids))])
                    else:
                        t.setRoot(T.build_fiber([[1, [[i, 3]]]] if len(ids) == 2 else [[i, 3]], 2 if len(ids) == 2 else 1))
                if how == "setRoot" and (len(ids) > 2 or tuple_level(f) is not None or any(isinstance(r, list) for r in ids)):
                    return None
            elif how == "active":
                def fn():
                    f.setActive((0, i + 1))
            elif how == "getDefault":
                # a default handed out is the caller's own: changing it changes no member
                def fn():
                    for g in (f.getDefault, t.getDefault if t is not None else f.getDefault):
                        dv = g()
                        if isinstance(dv, Payload):
                            dv += 5
                        elif isinstance(dv, Fiber):
                            dv.append(0, 3)
                ok, _ = self.attempt("getDefault", fn)
                self.unchanged("changing a default returned by getDefault")
                return ok
            elif how == "attrs":
                def fn():
                    f.getRankAttrs().setId("Z%d" % i)
            elif how == "rawlist":
                # the coordinate and payload lists are public attributes
                if pos is None:
                    return None

                def fn():
                    f.coords.pop(pos)
                    p = f.payloads.pop(pos)
                    if isinstance(p, Fiber) and p.getOwner() is not None and any(p is g for g in p.getOwner().getFibers()):
                        p.getOwner().pop() if p.getOwner().getFibers()[-1] is p else None
            elif how == "rank":
                if t is None:
                    return None

                def fn():
                    t.ranks[i % len(t.ranks)].setId("Y%d" % i)
            else:
                return None
        ok, _ = self.attempt("mut:" + how, fn)
        if not ok:
            # a mutation that raised half-way may leave its target in any state
            self.unchanged(f"mutating the member made by {m.born} ({how}, rejected)", but=(m,))
            self.discard(m)
            return ok
        m.muts += 1
        if self.derived:
            self.follow += 1
        self.ctx.probe("mutation:" + how)
        self.unchanged(f"mutating the member made by {m.born} ({how})", but=(m,))
        m.snap = msnap(m.obj)
        # a mutator may itself have tied members together
        self.disjoint("a mutation")
        if nodes(m.root) > MAXNODES:
            self.discard(m)
        return ok

    def discard(self, m):
        self.pool.remove(m)
        self.tasks = [x for x in self.tasks if x.mem is not m]
        if not self.pool:
            self.pool.append(Member(self.make({"depth": 1, "shape": [3], "plan": [[1, 2]]}), "built"))

    def gen_drop(self, rng):
        return [rng.randrange(len(self.pool))] if len(self.pool) > 2 else None

    def do_drop(self, k):
        m = self.mem(k)
        if m is None or len(self.pool) < 2:
            return None
        self.pool.remove(m)
        self.tasks = [x for x in self.tasks if x.mem is not m]
        return "dropped"

    # ------------------------------------------------------------- observers
    OBS = ["get", "get", "getbig", "position", "index", "slice", "len", "str", "repr", "format", "print", "eq", "eqself", "isEmpty",
           "count", "shape", "estimate", "depth", "rankids", "minmax", "uncompress", "nonEmpty", "dict", "dump", "dumpfail",
           "foot", "foot", "subtree", "swaps", "image", "image", "reversed", "iter", "dense", "active", "range", "coiter", "and",
           "or", "sub", "xor", "project", "prune", "getters", "imagelazy", "savedpos"]

    def gen_obs(self, rng):
        k = rng.randrange(len(self.pool))
        o = rng.choice(self.OBS)
        return [k, self.gen_path(rng, self.pool[k]), o, rng.randrange(6), rng.randrange(len(self.pool))]

    def do_obs(self, k, path, o, i, k2):
        m, m2 = self.mem(k), self.mem(k2)
        if m is None:
            return None
        i = int(num(i))
        t = m.obj if isinstance(m.obj, Tensor) else None
        f = self.fiber(m, path)
        if f is None:
            if o not in ("str", "repr", "eq", "eqself", "count", "image", "dump", "getters"):
                return None
            f = t
        g = self.fiber(m2, path)
        if g is None:
            g = f
        if not self.bounded(f) or not self.bounded(g) or not self.bounded(m.obj):
            return "unbounded"
        dense = o in ("dense", "active", "uncompress", "image", "coiter", "range", "imagelazy")
        if dense and not self.small(f):
            return "large"
        fn = getattr(self, "obs_" + o)
        ok, r = self.attempt("obs:" + o, fn, f, t, i, g)
        if not ok and os.environ.get("DST_DBG"):
            self.ctx.probe("why:" + o + str(self.last)[-120:])
        self.ctx.probe("observe:" + o + ("" if ok else " (rejected)"))
        self.unchanged("read-only " + o)
        return ok

    def small(self, f):
        if isinstance(f, Tensor):
            f = f.getRoot()
            if not isinstance(f, Fiber):
                return True
        lo, hi = f.getActive() if not f.isLazy() else (0, 0)
        return isinstance(hi, int) and hi < 60 and isinstance(lo, int) and all(self.small(p) for p in f.payloads if isinstance(p, Fiber))

    def obs_get(self, f, t, i, g):
        d = fdepth(f)
        cs = [i if not f.coords or isinstance(f.coords[0], int) else f.coords[0]] + [i] * (d - 1)
        f.getPayload(*cs)
        f.getPayload(cs[0])
        if t is not None and f is t.getRoot():
            t.getPayload(*cs)
        f.getPayload(*cs, allocate=False)

    def obs_getbig(self, f, t, i, g):
        if f.coords and not isinstance(f.coords[0], int):
            return
        f.getPayload(50 + i)
        f.getPayload(0, start_pos=0)

    def obs_position(self, f, t, i, g):
        c = f.coords[i % len(f.coords)] if f.coords else i
        f.getPosition(c)
        f.getPosition(i if isinstance(c, int) else c)

    def obs_index(self, f, t, i, g):
        f[i % max(1, len(f.coords))]
        f[-1]

    def obs_slice(self, f, t, i, g):
        f[i % 3:]
        f[0:2]

    def obs_len(self, f, t, i, g):
        len(f)

    def obs_str(self, f, t, i, g):
        str(f)
        str(t)

    def obs_repr(self, f, t, i, g):
        repr(f)
        repr(t)

    def obs_format(self, f, t, i, g):
        f"{f:n}"
        f"{f:*}"
        f"{f:n*}"

    def obs_print(self, f, t, i, g):
        (t if t is not None else f).print()
        f.print("title")

    def obs_eq(self, f, t, i, g):
        f == g
        g == f
        f == 3

    def obs_eqself(self, f, t, i, g):
        f == f
        if t is not None:
            t == t

    def obs_isEmpty(self, f, t, i, g):
        f.isEmpty()
        Payload.isEmpty(f)

    def obs_count(self, f, t, i, g):
        f.countValues()
        if t is not None:
            t.countValues()

    def obs_shape(self, f, t, i, g):
        f.getShape()
        f.getShape(all_ranks=False)
        f.getShape(authoritative=True)
        if t is not None:
            t.getShape()
            t.getShape([t.getRankIds()[0]])
            for r in t.ranks:
                r.getShape()
                r.getShape(all_ranks=False)

    def obs_estimate(self, f, t, i, g):
        f.estimateShape()
        f.estimateShape(all_ranks=False)
        if t is not None:
            for r in t.ranks:
                r.estimateShape() if hasattr(r, "estimateShape") else None

    def obs_depth(self, f, t, i, g):
        f.getDepth()
        t.getDepth() if t is not None else None

    def obs_rankids(self, f, t, i, g):
        f.getRankIds()
        f.getRankIds(all_ranks=False)
        t.getRankIds() if t is not None else None

    def obs_minmax(self, f, t, i, g):
        f.minCoord()
        f.maxCoord()

    def obs_uncompress(self, f, t, i, g):
        f.uncompress()

    def obs_nonEmpty(self, f, t, i, g):
        f.nonEmpty()

    def obs_dict(self, f, t, i, g):
        f.fiber2dict()

    def _dump(self, x):
        p = os.path.join(os.environ.get("DST_SCRATCH") or "/tmp", f"c10-{os.getpid()}.yaml")
        try:
            x.dump(p)
        finally:
            if os.path.exists(p):
                os.unlink(p)

    def obs_dump(self, f, t, i, g):
        self._dump(t if t is not None and i % 2 else f)

    def obs_dumpfail(self, f, t, i, g):
        """The disk refuses the file."""
        self.ctx.fault("dump_open_fails")
        p = os.path.join(os.environ.get("DST_SCRATCH") or "/tmp", "no-such-dir", "x.yaml")
        (t if t is not None and i % 2 else f).dump(p)

    def obs_foot(self, f, t, i, g):
        if t is None:
            return
        fm = Format(t, {r: {"format": "CU"[(i + j) % 2], "cbits": 2, "pbits": 3, "fhbits": 5, "rhbits": 7}
                        for j, r in enumerate(t.getRankIds())})
        fm.getTensor()
        for r in t.getRankIds():
            fm.getRank(r)
        fm.getFiber()
        fm.getSubTree()

    def obs_subtree(self, f, t, i, g):
        if t is None:
            return
        fm = Format(t, {r: {"format": "UC"[(i + j) % 2], "cbits": 2, "pbits": 3} for j, r in enumerate(t.getRankIds())})
        for n in range(len(t.ranks)):
            fm.getSubTree(*([i] * n))
            fm.getFiber(*([i] * n))

    def obs_swaps(self, f, t, i, g):
        if t is None:
            return
        Compute.numSwaps(t, 0, 2 + i % 3, [1, "N"][i % 2])

    IMG = ["tree", "uncompressed", "t+u"]

    def obs_image(self, f, t, i, g):
        x = t if t is not None and i % 2 else f
        self.render(x, self.IMG[i % 3], i)

    def render(self, x, style, i):
        kw = {"extent": (8, 24)}
        hl = {"PE0": [(i % 4,)], "PE1": [(0, i % 3)]} if i % 4 == 1 else {}
        a = TensorImage(x, style=style, highlights=copy.deepcopy(hl), **kw).im
        b = TensorImage(x, style=style, highlights=copy.deepcopy(hl), **kw).im
        if a.size != b.size or a.tobytes() != b.tobytes():
            raise Violation("image-differs", f"rendering the same object twice as {style} gave different images: {str(x)[:200]}",
                            sig=f"image-differs|{style}")

    def obs_imagelazy(self, f, t, i, g):
        if fdepth(f) > 1 or fdepth(g) > 1:
            return
        self.render(f & g if i % 2 else f.prune(lambda a, c, p: True), self.IMG[i % 3], i)

    def take(self, it, n=30):
        for _, x in zip(range(n), it):
            pass

    def obs_reversed(self, f, t, i, g):
        self.take(reversed(f))

    def obs_iter(self, f, t, i, g):
        self.take(f)
        self.take(f.iterOccupancy())
        if t is not None:
            self.take(t)

    def obs_dense(self, f, t, i, g):
        self.take(f.iterShape())
        self.take(f.iterShapeCoords())

    def obs_active(self, f, t, i, g):
        self.take(f.iterActive())
        self.take(f.iterActiveShape())

    def obs_range(self, f, t, i, g):
        self.take(f.iterRange(i, i + 3))
        self.take(f.iterRangeShape(i, i + 3))

    def obs_coiter(self, f, t, i, g):
        self.take(Fiber.coiterShape([f, g]))
        self.take(Fiber.coiterActiveShape([f, g]))
        self.take(Fiber.coiterRangeShape([f, g], i, i + 3))

    def obs_and(self, f, t, i, g):
        self.take(f & g)
        self.take(Fiber.intersection(f, g, style=["two-finger", "leader-follower"][i % 2]))

    def obs_or(self, f, t, i, g):
        self.take(f | g)
        self.take(Fiber.union(f, g, f))

    def obs_sub(self, f, t, i, g):
        self.take(f - g)

    def obs_xor(self, f, t, i, g):
        self.take(f ^ g)

    def obs_project(self, f, t, i, g):
        self.take(f.project(lambda c: c + i))
        self.take(f.project(lambda c: 20 - c))

    def obs_prune(self, f, t, i, g):
        self.take(f.prune(lambda n, c, p: (n + i) % 2 == 0))

    def obs_getters(self, f, t, i, g):
        for x in (f, t):
            for n in ("getName", "getColor", "isMutable", "getDefault", "getActive", "getRankAttrs", "getOwner", "isOrdered",
                      "isUnique", "getCoords", "getPayloads", "isLazy", "getRankIds"):
                if x is not None and hasattr(x, n):
                    getattr(x, n)()
        if t is not None:
            for r in t.getRankIds():
                t.getFormat(r)

    def obs_savedpos(self, f, t, i, g):
        f.setSavedPos(min(i, max(0, len(f.coords) - 1)))
        f.getSavedPos()
        f.getSavedPosStats()

    # ------------------------------------------- suspended read-only iterations
    ITERS = ["iter", "occ", "shape", "active", "activeshape", "range", "rangeshape", "and", "or", "xor", "sub", "union", "coiter",
             "lf", "reversed", "project", "prune", "uncompressed"]

    def gen_spawn(self, rng):
        k = rng.randrange(len(self.pool))
        return [k, self.gen_path(rng, self.pool[k]), rng.choice(self.ITERS), rng.randrange(5), rng.randrange(len(self.pool))]

    def do_spawn(self, k, path, kind, i, k2):
        if len(self.tasks) >= 4:
            return "full"
        m, m2 = self.mem(k), self.mem(k2)
        if m is None:
            return None
        f = self.fiber(m, path)
        g = self.fiber(m2, path)
        if f is None or g is None or not self.bounded(f) or not self.bounded(g):
            return None
        i = int(num(i))

        def mk():
            e = {"iter": lambda: f, "occ": lambda: f.iterOccupancy(), "shape": lambda: f.iterShape(),
                 "active": lambda: f.iterActive(), "activeshape": lambda: f.iterActiveShape(),
                 "range": lambda: f.iterRange(i, i + 3), "rangeshape": lambda: f.iterRangeShape(i, i + 3),
                 "and": lambda: f & g, "or": lambda: f | g, "xor": lambda: f ^ g, "sub": lambda: f - g,
                 "union": lambda: Fiber.union(f, g, f), "coiter": lambda: Fiber.coiterShape([f, g]),
                 "lf": lambda: Fiber.intersection(f, g, style="leader-follower"), "reversed": lambda: reversed(f),
                 "project": lambda: f.project(lambda c: c + i), "prune": lambda: f.prune(lambda n, c, p: n % 2 == 0),
                 "uncompressed": lambda: f.iterUncompressed()}.get(kind)
            return None if e is None else iter(e())
        ok, gen = self.attempt("spawn:" + str(kind), mk)
        self.unchanged("starting a read-only iteration " + str(kind))
        if ok and gen is not None:
            x = Task()
            x.gen, x.kind, x.mem, x.n = gen, kind, m, 0
            self.tasks.append(x)
            if m2 is not m:
                self.ctx.probe("iteration over two members")
        return ok

    def gen_advance(self, rng):
        return [rng.randrange(len(self.tasks))] if self.tasks else None

    def do_advance(self, i):
        i = ix(i, len(self.tasks))
        if i is None:
            return None
        x = self.tasks[i]
        ok, item = self.attempt("advance:" + str(x.kind), lib_next, x.kind, x.gen)
        x.n += 1
        self.unchanged("advancing a read-only iteration " + str(x.kind))
        if not ok or item is DONE or x.n > 30:
            self.tasks.pop(i)
        elif len(self.tasks) > 1:
            self.ctx.probe("interleaved iterations")
        return ok

    def gen_stop(self, rng):
        return [rng.randrange(len(self.tasks)), rng.choice(["close", "throw"])] if self.tasks else None

    def do_stop(self, i, how):
        i = ix(i, len(self.tasks))
        if i is None:
            return None
        x = self.tasks.pop(i)
        self.ctx.fault("iteration_" + str(how))
        try:
            if how == "throw" and hasattr(x.gen, "throw"):
                x.gen.throw(InjectedFault())
            elif hasattr(x.gen, "close"):
                x.gen.close()
        except (InjectedFault, StopIteration):
            pass
        except Exception:
            self.ctx.fault("rejected:stop")
        self.unchanged("stopping a read-only iteration " + str(x.kind))
        return how

    # --------------------------------------------------------------- reporting
    def finish(self):
        self.unchanged("finishing")
        self.disjoint("the run")

    def state_key(self):
        return tuple(self.key(m.root) for m in self.pool)

    def key(self, f):
        if isinstance(f, Fiber):
            return (tuple(f.coords), tuple(self.key(p) for p in f.payloads))
        return 0 if T.unbox(f) == 0 else 1

    def nontrivial(self):
        return self.derived > 0 and self.follow > 0

    def close(self):
        self.tasks = []


def clip(plan, shape):
    out = []
    for c, p in plan:
        if not isinstance(c, int) or c >= shape[0]:
            continue
        out.append([c, clip(p, shape[1:]) if len(shape) > 1 else p])
    return out


def nest(plan, shape, default):
    d = {c: p for c, p in plan}
    if len(shape) == 1:
        return [d.get(c, default) for c in range(shape[0])]
    return [nest(d.get(c, []), shape[1:], default) for c in range(shape[0])]
