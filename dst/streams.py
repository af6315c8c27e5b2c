"""Operands and co-iteration expressions with an independent model.

An operand is a tree built from a plan. Its model is the same tree as nested
dicts. `present()` says what a fiber of the operand presents to an iteration
according to its rank's format; `expr()` builds a lazy library expression and
the list of (coordinate, payload description) it must deliver.
"""
from fibertree import Fiber, Payload, Tensor
from fibertree.core.coord_payload import CoordPayload

from . import tree as T
from .engine import Violation, lib


def num(x, d=0):
    return x if isinstance(x, (int, float)) and not isinstance(x, bool) else d


class Operand:
    """cfg: {depth, shape, default, fmts, kind: tensor|fiber, plan, acts}

    acts: per level a list of [lo, hi] active ranges (or null), dealt out in
    turn to the fibers of the level; they decide what a fiber of an
    uncompressed rank presents, and nothing for compressed ranks.
    """

    def __init__(self, cfg, ids=None, tup=False):
        self.depth = d = max(1, min(3, int(num(cfg["depth"], 1))))
        shape = [max(1, min(300, int(num(x, 1)))) for x in cfg.get("shape", [])][:d]
        self.shape = shape + [3] * (d - len(shape))
        self.default = num(cfg.get("default", 0))
        fm = [("U" if f == "U" else "C") for f in cfg.get("fmts", [])][:d]
        self.fmts = fm + ["C"] * (d - len(fm))
        self.tup = tup
        plan = clip(T.norm_plan(cfg.get("plan", []), d), self.shape)
        self.kind = cfg.get("kind", "tensor")
        # an unowned fiber of fibers without any element does not know its leaf default
        if self.kind == "fiber" and (d > 2 or d == 2 and not plan):
            self.kind = "tensor"
        if tup:
            self.fmts = ["C"] * d
            plan = tuplan(plan, tup)
        sh = None if tup else list(self.shape)
        if self.kind == "fiber":
            self.fmts = self.fmts[:1] + ["C"] * (d - 1)
            self.obj = T.build_fiber(plan, d, sh, self.default)
            self.obj.getRankAttrs().setFormat(self.fmts[0])
        else:
            self.obj = T.build_tensor(plan, d, sh, self.default, rank_ids=ids)
            for r, f in zip(self.obj.getRankIds(), self.fmts):
                self.obj.setFormat(r, f)
        self.model = to_model(plan, d)
        self.ranges = {}     # path -> active range
        self.active = {}     # id(fiber) -> active range
        acts = cfg.get("acts")
        if isinstance(acts, list) and not tup:
            self.set_ranges(acts)
        self.reindex()

    def set_ranges(self, acts):
        seen = [0] * self.depth
        for path, f in fibers(self.root):
            lv = len(path)
            rs = acts[lv] if lv < len(acts) and isinstance(acts[lv], list) and acts[lv] else [None]
            r = rs[seen[lv] % len(rs)]
            seen[lv] += 1
            if not isinstance(r, list) or len(r) != 2:
                continue
            lo, hi = sorted(max(0, min(self.shape[lv], int(num(x)))) for x in r)
            if lo < hi:
                self.ranges[path] = (lo, hi)
                f.setActive((lo, hi))

    def reindex(self):
        """After the objects were replaced by copies."""
        self.active = {id(f): self.ranges[p] for p, f in fibers(self.root) if p in self.ranges}

    @property
    def root(self):
        return self.obj.getRoot() if isinstance(self.obj, Tensor) else self.obj

    def node(self):
        return Node(self, 0, self.model, self.root)

    def snap(self):
        if isinstance(self.obj, Tensor):
            return T.tsnap(self.obj), T.idsnap(self.root)
        return T.snap(self.root), T.idsnap(self.root)


def fibers(f, path=()):
    yield path, f
    for c, p in zip(f.coords, f.payloads):
        if isinstance(p, Fiber):
            yield from fibers(p, path + (c,))


def rand_acts(rng, shape):
    """Active ranges for some of the levels."""
    out = []
    for n in shape:
        if rng.random() < 0.6:
            out.append(None)
        else:
            out.append([rng.choice([None, sorted([rng.randint(0, n), rng.randint(0, n)])]) for _ in range(rng.randint(1, 4))])
    return out


def clip(plan, shape):
    out = []
    for c, p in plan:
        if not isinstance(c, int) or c >= shape[0]:
            continue
        out.append([c, clip(p, shape[1:]) if len(shape) > 1 else p])
    return out


def tuplan(plan, tup):
    """Integer coordinates -> pairs (tup=2) or triples (tup=3)."""
    return [[list(tc(c, tup)), tuplan(p, tup) if isinstance(p, list) else p] for c, p in plan]


def tc(c, tup):
    if tup == 2:
        return (c // 3, c % 3)
    if tup == 3:
        return (c // 4, (c // 2) % 2, c % 2)
    return c


def to_model(plan, d):
    return {T.coord_of(c): (to_model(p, d - 1) if d > 1 else p) for c, p in plan}


def flat(m, d, default, prefix=()):
    """Non-default content of a model node."""
    if m is None:
        return {}
    if d == 0:
        return {} if m == default else {prefix: m}
    out = {}
    for c, p in m.items():
        out.update(flat(p, d - 1, default, prefix + (c,)))
    return out


class Node:
    """A fiber or leaf of an operand. real is None when it is not stored."""
    __slots__ = ("op", "lv", "m", "real")

    def __init__(self, op, lv, m, real):
        self.op, self.lv, self.m, self.real = op, lv, m, real

    @property
    def leaf(self):
        return self.lv == self.op.depth

    def empty(self):
        if self.m is None:
            return True
        return not flat(self.m, self.op.depth - self.lv, self.op.default)

    def child(self, c):
        if self.m is None or c not in self.m:
            return Node(self.op, self.lv + 1, None, None)
        if self.real is None:
            return Node(self.op, self.lv + 1, self.m[c], None)
        i = self.real.coords.index(c)
        return Node(self.op, self.lv + 1, self.m[c], self.real.payloads[i])

    def present(self):
        """What default iteration of this fiber must enumerate."""
        if self.op.fmts[self.lv] == "U":
            lo, hi = (0, self.op.shape[self.lv]) if self.real is None else \
                self.op.active.get(id(self.real), (0, self.op.shape[self.lv]))
            return [(c, self.child(c)) for c in range(lo, hi)]
        m = self.m or {}
        return [(c, self.child(c)) for c in sorted(m) if not self.child(c).empty()]

    def content(self):
        return flat(self.m, self.op.depth - self.lv, self.op.default)


def unwrap(p):
    """A delivered payload: tuples may be boxed."""
    if isinstance(p, CoordPayload):
        p = p.payload
    if isinstance(p, Payload) and isinstance(p.value, tuple):
        return p.value
    return p


def check_delivered(p, n, what, in_trees=None):
    """A delivered payload p against its expected node n."""
    p = unwrap(p)
    if n.real is not None:
        if p is not n.real:
            raise Violation("not-own-payload", f"{what}: delivered {p!r} is not the operand's stored payload {n.real!r}",
                            sig="not-own-payload")
        return
    d = n.op.depth - n.lv
    if d == 0:
        v = p.value if isinstance(p, Payload) else p
        if isinstance(v, (Fiber, Payload)) or v != n.op.default or v is None:
            raise Violation("wrong-default", f"{what}: the absent side delivered {p!r}, expected default {n.op.default}",
                            sig="wrong-default")
    else:
        if not isinstance(p, Fiber):
            raise Violation("wrong-default", f"{what}: the absent side delivered {p!r}, expected an empty fiber",
                            sig="wrong-default")
        if p.coords or p.payloads:
            raise Violation("wrong-default", f"{what}: the absent side delivered non-empty {p!r}", sig="wrong-default")
    if in_trees is not None and any(p is x for x in in_trees()):
        raise Violation("default-not-fresh", f"{what}: the default delivered is stored in an operand")


def all_objects(ops):
    def rec(f):
        for p in f.payloads:
            yield p
            if isinstance(p, Fiber):
                yield from rec(p)
    for o in ops:
        yield from rec(o.root)


def merge(kind, a, b):
    """Truth tables over presented lists [(coord, Node)], by set algebra."""
    da, db = dict(a[0]), dict(b[0])
    na, nb = a[1], b[1]
    if kind == "and":
        return [(c, ("t", da[c], db[c])) for c in sorted(set(da) & set(db))]
    if kind == "or":
        cs = sorted(set(da) | set(db))
    elif kind == "xor":
        cs = sorted(set(da) ^ set(db))
    elif kind == "sub":
        return [(c, da[c]) for c in sorted(set(da) - set(db))]
    return [(c, ("t", ("A" if c in da else "") + ("B" if c in db else ""),
                 da[c] if c in da else absent(na), db[c] if c in db else absent(nb))) for c in cs]


def absent(n):
    return Node(n.op, n.lv + 1, None, None)


def check_item(got, want, what, objs=None):
    """Compare one delivered payload with its description."""
    if isinstance(want, Node):
        return check_delivered(got, want, what, objs)
    got = unwrap(got)
    parts = want[1:]
    if not isinstance(got, tuple) or len(got) != len(parts):
        raise Violation("wrong-tuple", f"{what}: delivered {got!r}, expected a tuple of {len(parts)}", sig="wrong-tuple")
    for g, w in zip(got, parts):
        if isinstance(w, str):
            g = g.value if isinstance(g, Payload) else g
            if g != w:
                raise Violation("wrong-mask", f"{what}: mask {g!r}, expected {w!r}", sig="wrong-mask")
        else:
            check_item(g, w, what, objs)


def nodes_of(want):
    """The sub-fibers an item offers for a nested loop."""
    if isinstance(want, Node):
        return [want]
    return [w for w in want[1:] if isinstance(w, Node)]


def delivered_of(got, want):
    """The delivered objects matching nodes_of(want)."""
    got = unwrap(got)
    if isinstance(want, Node):
        return [got]
    return [unwrap(g) for g, w in zip(got, want[1:]) if isinstance(w, Node)]
