"""Building, raw reading and checking of fibertrees.

Reading uses only the documented public attributes Fiber.coords /
Fiber.payloads, Payload.value and Rank accessors, never library traversals.
A *plan* is the JSON form of a tree: [[coord, child], ...] with a scalar
child at the leaves; tuple coordinates are JSON lists.
"""
from fibertree import Fiber, Payload, Tensor
from fibertree.core.coord_payload import CoordPayload

from .engine import Violation


def coord_of(c):
    return tuple(coord_of(x) for x in c) if isinstance(c, list) else c


def rand_shape(rng, depth, hi, lo=1, wide=0.06):
    """Mostly small; now and then one long rank, or one with coordinates that
    are no small integers (sizes at which an implementation may take another path)."""
    s = [rng.randint(lo, hi) for _ in range(depth)]
    if depth and rng.random() < wide:
        s = [min(x, 3) for x in s]
        s[rng.randrange(depth)] = rng.choice([rng.randint(9, 16), rng.randint(17, 40), rng.randint(258, 290)][:max(1, 4 - depth)])
    return s


def rand_coord(rng, n):
    """A coordinate below n, biased to the far end of a long rank."""
    if n > 8 and rng.random() < 0.5:
        return rng.randrange(max(0, n - 6), n)
    return rng.randrange(n)


def rand_value(rng):
    return rng.randint(1, 9) if rng.random() < 0.9 else rng.choice([1000, 1001, 70000, -4, 0.5])


def rand_plan(rng, depth, shape, density=0.5, p_zero=0.15, p_empty=0.15, default=0,
              values=None, must=False):
    """A random tree, possibly with explicit defaults and empty sub-fibers."""
    n = shape[0]
    out = []
    where = range(n)
    if n > 60:
        where = sorted(set(rng.sample(range(n), 5)) | set(range(max(0, n - rng.randint(1, 8)), n)))
    for c in where:
        if rng.random() < density:
            if depth == 1:
                if rng.random() < p_zero:
                    v = default
                else:
                    v = values(rng) if values else rand_value(rng)
                out.append([c, v])
            else:
                if rng.random() < p_empty:
                    out.append([c, []])
                else:
                    out.append([c, rand_plan(rng, depth - 1, shape[1:], density, p_zero,
                                             p_empty, default, values)])
    return out


def plan_depth_ok(plan, depth):
    for c, p in plan:
        if depth > 1:
            if not isinstance(p, list) or not plan_depth_ok(p, depth - 1):
                return False
        elif isinstance(p, list):
            return False
    return True


def norm_plan(plan, depth, shape=None):
    """Force any JSON (e.g. produced by shrinking) into a legal plan."""
    out = {}
    if not isinstance(plan, list):
        return []
    for e in plan:
        if not isinstance(e, list) or len(e) != 2:
            continue
        c, p = e
        if isinstance(c, bool) or not isinstance(c, (int, list)):
            continue
        if isinstance(c, int) and c < 0:
            continue
        if depth > 1:
            p = norm_plan(p, depth - 1, shape[1:] if shape else None)
        elif isinstance(p, list) or p is None:
            p = 1
        out[_key(c)] = [c, p]
    return [out[k] for k in sorted(out)]


def _key(c):
    return tuple(_key(x) for x in c) if isinstance(c, list) else c


def build_fiber(plan, depth, shape=None, default=0, mark_interior=True):
    """An unowned fiber from a plan, through the public constructor."""
    kw = {}
    if shape is not None and shape[0] is not None:
        kw["shape"] = shape[0]
    if depth == 1:
        return Fiber([coord_of(c) for c, _ in plan], [p for _, p in plan], default=default, **kw)
    pay = [build_fiber(p, depth - 1, shape[1:] if shape is not None else None, default,
                       mark_interior) for _, p in plan]
    if mark_interior:
        kw["default"] = Fiber
    return Fiber([coord_of(c) for c, _ in plan], pay, **kw)


def rank_names(depth):
    return ["R%d" % (depth - 1 - i) for i in range(depth)]


def build_tensor(plan, depth, shape=None, default=0, rank_ids=None, name="t"):
    f = build_fiber(plan, depth, shape, default)
    return Tensor.fromFiber(rank_ids or rank_names(depth), f,
                            shape=list(shape) if shape is not None else None,
                            default=default, name=name)


def snap(x):
    """Raw structural snapshot (values, types, structure)."""
    if isinstance(x, Fiber):
        return ("F", tuple(x.coords), tuple(snap(p) for p in x.payloads))
    if isinstance(x, Payload):
        return ("P", type(x.value).__name__, x.value if not isinstance(x.value, (Fiber, Payload)) else snap(x.value))
    return ("raw", type(x).__name__, repr(x))


def idsnap(x):
    """Identity snapshot: which objects are stored where."""
    if isinstance(x, Fiber):
        return (id(x), tuple(x.coords), tuple(idsnap(p) for p in x.payloads))
    return id(x)


def ranksnap(t):
    return tuple((id(r), tuple(id(f) for f in r.getFibers())) for r in t.ranks)


def tsnap(t):
    root = t.getRoot()
    return (snap(root), tuple(tuple(id(f) for f in r.getFibers()) for r in t.ranks))


def unbox(p):
    return p.value if isinstance(p, Payload) else p


def walk(fiber, depth, prefix=()):
    """(path, box) of every stored leaf, including explicit defaults."""
    for c, p in zip(fiber.coords, fiber.payloads):
        if depth > 1:
            if isinstance(p, Fiber):
                yield from walk(p, depth - 1, prefix + (c,))
        else:
            yield prefix + (c,), p


def content(fiber, depth, default=0):
    """point -> value for every non-default leaf, from a raw walk."""
    return {k: unbox(p) for k, p in walk(fiber, depth) if unbox(p) != default}


def plan_content(plan, depth, default=0, prefix=()):
    out = {}
    for c, p in plan:
        c = coord_of(c)
        if depth > 1:
            out.update(plan_content(p, depth - 1, default, prefix + (c,)))
        elif p != default:
            out[prefix + (c,)] = p
    return out


def fibers_by_level(root, depth):
    levels = [[] for _ in range(depth)]

    def rec(f, lv):
        levels[lv].append(f)
        for p in f.payloads:
            if isinstance(p, Fiber) and lv + 1 < depth:
                rec(p, lv + 1)
    rec(root, 0)
    return levels


def check_wellformed(fiber, depth, where="root"):
    if not isinstance(fiber, Fiber):
        raise Violation("interior-not-fiber", f"{where} is a {type(fiber).__name__}")
    cs, ps = fiber.coords, fiber.payloads
    if len(cs) != len(ps):
        raise Violation("unpaired", f"{where}: {len(cs)} coords, {len(ps)} payloads: {cs} {ps}")
    if fiber._ordered and fiber._unique:
        for a, b in zip(cs, cs[1:]):
            if not a < b:
                raise Violation("order", f"{where}: coordinates {cs} are not strictly increasing")
    for c, p in zip(cs, ps):
        if depth > 1:
            if not isinstance(p, Fiber):
                raise Violation("interior-not-fiber",
                                f"{where}/{c}: {type(p).__name__} {p!r} at an interior rank")
            check_wellformed(p, depth - 1, f"{where}/{c}")
        else:
            if isinstance(p, Fiber):
                raise Violation("depth", f"{where}/{c}: a fiber at the leaf rank")
            if not isinstance(p, Payload):
                raise Violation("box", f"{where}/{c}: leaf payload {p!r} is an unboxed {type(p).__name__}")
            if isinstance(p.value, (Payload, CoordPayload, Fiber)):
                raise Violation("box", f"{where}/{c}: leaf box holds a {type(p.value).__name__}")


def check_ranks(t, what="tensor"):
    """C02: rank lists mirror the live tree."""
    root = t.getRoot()
    depth = len(t.ranks)
    if not isinstance(root, Fiber):
        return
    levels = fibers_by_level(root, depth)
    if len(t.ranks[0].getFibers()) != 1 or t.ranks[0].getFibers()[0] is not root:
        raise Violation("root-rank", f"{what}: the first rank does not hold exactly the root")
    for i, r in enumerate(t.ranks):
        nxt = t.ranks[i + 1] if i + 1 < depth else None
        if r.getNextRank() is not nxt:
            raise Violation("chain", f"{what}: rank {i} is not chained to rank {i + 1}")
        want = {id(f): f for f in levels[i]}
        if len(want) != len(levels[i]):
            raise Violation("shared-fiber", f"{what}: one fiber appears twice at depth {i}")
        have = r.getFibers()
        seen = set()
        for f in have:
            if id(f) in seen:
                raise Violation("rank-duplicate", f"{what}: rank {i} lists a fiber twice: {f!r}")
            seen.add(id(f))
            if id(f) not in want:
                raise Violation("rank-stale", f"{what}: rank {i} lists {f!r}, which is not in the tree")
        for f in levels[i]:
            if id(f) not in seen:
                raise Violation("rank-missing", f"{what}: rank {i} does not list {f!r}")
            if f.getOwner() is not r:
                raise Violation("owner", f"{what}: a fiber at depth {i} does not report rank {i} as owner: {f!r}")


def resolve(root, depth, path):
    """Follow positions (modulo) from root; returns (fiber, remaining depth)."""
    f, d = root, depth
    for i in path:
        if d <= 1 or not f.payloads:
            break
        p = f.payloads[i % len(f.payloads)]
        if not isinstance(p, Fiber):
            break
        f, d = p, d - 1
    return f, d
