"""C19: intersection and merge cost models count what the hardware idiom would do.

A kernel visits fiber after fiber and intersects two operands in each. It runs
as a task: the analyst consumes the in-memory traces whenever the scheduler
says (also inside a fiber), keeps the rows, and feeds them to several model
objects, each with its own batching: nothing, one fiber, a few fibers, or all
there are. Kernels are killed, sessions abandoned, processes die, and later
sessions with fresh models must not notice. File traces of the same session are
fed in one shot at the end. Between steps, values of a swapped tensor are
changed in place and its swap count is asked again, also while a kernel is
suspended. Totals are recomputed from merges of the raw coordinate lists.
"""
from fibertree import Fiber, Metrics, Payload, Tensor
from fibertree.model import Compute, LeaderFollowerIntersector, SkipAheadIntersector, TwoFingerIntersector

from .. import nests as N
from .. import tree as T
from ..disk import SimCrash, SimDisk
from ..engine import BaseWorld, DONE, InjectedIOError, Violation, lib, pristine
from ..streams import clip, num

RUNS = {"quick": 16000, "thorough": 200000}
CHUNK = 40
RULE = ("a run is nontrivial when at least one model that was fed a non-empty trace or a swap count of at least one merge was judged; "
        "distinct runs are counted by the digest of their event log")
STATE_MEASURE = "distinct (fibers done, rows consumed, rows fed per model, last swap count) tuples after a step"
REAL = ["fibertree (all of it, imported from /repo)", "files in a scratch directory"]
STUB = ["builtins.open, io.open, os.remove, os.rename (counting and fault injection, then the real call)"]
ASSUMPTIONS = [
    "models are fed at fiber boundaries, any number of whole fibers (or none) at a time",
    "fibers fed in one batch belong to different iterations of an outer rank",
    "explicitly empty child fibers and the absent positions of an uncompressed rank may or may not count as lists",
]
OUTER = ["or", "and", "drv"]
INNER = ["and", "nary", "lf", "three", "proj"]


def ix(x, n):
    return int(num(x)) % n


def clamp(x, lo, hi, d=0):
    return max(lo, min(hi, int(num(x, d))))


def clist(x, hi=400):
    """[[coordinate, value]...] sorted, unique"""
    d = {}
    for e in x if isinstance(x, list) else []:
        if isinstance(e, list) and len(e) > 1:
            d[clamp(e[0], 0, hi)] = clamp(e[1], -9, 9)
    return sorted(d.items())


def steps2(la, lb):
    """The sides a two-finger merge advances until one list is exhausted."""
    i = j = 0
    out = []
    while i < len(la) and j < len(lb):
        if la[i] == lb[j]:
            out.append("=")
            i, j = i + 1, j + 1
        elif la[i] < lb[j]:
            out.append("a")
            i += 1
        else:
            out.append("b")
            j += 1
    return out, min(i + 1, len(la)), min(j + 1, len(lb))


class Fib:
    """What one visited fiber contributes to each model."""

    def __init__(self, la, lb, lf):
        st, na, nb = steps2(la, lb)
        self.two = len(st)
        self.skip = sum(1 for x, y in zip(st, [None] + st) if x == "=" or x != y)
        self.a, self.b = (len(la), None) if lf else (na, nb)


KINDS = ["two", "skip", "a", "b"]
CLS = {"two": TwoFingerIntersector, "skip": SkipAheadIntersector, "a": LeaderFollowerIntersector, "b": LeaderFollowerIntersector}


class Model:
    def __init__(self, kind):
        self.kind, self.obj = kind, CLS[kind]()
        self.at = (0, 0)
        self.fed = 0        # fibers fed
        self.calls = 0


class World(BaseWorld):
    # ------------------------------------------------------------ generate
    @classmethod
    def gen_config(cls, rng):
        hi = rng.choice([4, 6, 8, 12] if rng.random() < 0.95 else [24, 40])
        lo = 0 if rng.random() < 0.97 else rng.randint(250, 300)
        dense = rng.choice([0.2, 0.5, 0.8])

        def ls():
            style = rng.random()
            if style < 0.12:
                return []
            if style < 0.2:
                return [[lo + c, 1] for c in range(hi // 2)]
            if style < 0.28:
                return [[lo + c, 2] for c in range(hi // 2, hi)]
            return [[lo + c, rng.choice([1, 2, 3, 5, -1, 0] if rng.random() < 0.3 else [1, 2, 3])] for c in range(hi) if rng.random() < dense]
        fibers = []
        for _ in range(rng.choice([1, 2, 3, 4, 5])):
            a, b = ls(), ls()
            r = rng.random()
            if r < 0.1:
                b = [list(x) for x in a]
            elif r < 0.2:
                b = [[c + 1, v] for c, v in a]
            fibers.append([rng.randrange(3), a, b, ls(), rng.random() < 0.12])
        tree = lambda d: [[c, tree(d - 1) if d > 1 else rng.choice([0, 1, 2, 5])] for c in range(6 if not wl else 20 if d == wl else 2)
                          if rng.random() < (0.6 if d > 1 else 0.5)]
        sd = rng.choice([2, 2, 3, 3, 4])
        wl = rng.randint(1, sd) if rng.random() < 0.06 else 0
        return {"depth": rng.choice([1, 2, 2, 3]), "fibers": fibers, "outer": rng.choice(OUTER), "inner": rng.choice(INNER),
                "off": rng.randrange(3), "ufmt": [rng.random() < 0.1, rng.random() < 0.1], "swap": tree(sd), "sdepth": sd,
                "sfmt": ["U" if rng.random() < 0.15 else "C" for _ in range(sd)], "n_steps": rng.randint(8, 26)}

    def __init__(self, cfg, ctx):
        super().__init__(cfg, ctx)
        cfg = cfg if isinstance(cfg, dict) else {}
        self.depth = clamp(cfg.get("depth", 2), 1, 3)
        self.outer = cfg.get("outer") if cfg.get("outer") in OUTER else "drv"
        self.inner = cfg.get("inner") if cfg.get("inner") in INNER else "and"
        self.off = clamp(cfg.get("off"), 0, 5)
        uf = cfg.get("ufmt") if isinstance(cfg.get("ufmt"), list) else []
        self.ufmt = [bool(x) for x in uf][:2] + [False] * 2
        self.fibers = []
        for f in (cfg.get("fibers") if isinstance(cfg.get("fibers"), list) else [])[:6]:
            if isinstance(f, list) and len(f) >= 5:
                self.fibers.append((clamp(f[0], 0, 2), clist(f[1]), clist(f[2]), clist(f[3]), f[4] is True))
        self.fibers = self.fibers or [(0, [(0, 1)], [(0, 1)], [], False)]
        # outer points: fiber i sits at m = i, j = its group
        self.pts = {}
        j0 = 0
        for i, f in enumerate(self.fibers):
            j0 = max(j0, f[0])
            self.pts[(j0, i) if self.depth == 3 else (i,) if self.depth == 2 else ()] = i if self.depth > 1 else 0
        self.sd = clamp(cfg.get("sdepth", 2), 2, 4)
        sf = cfg.get("sfmt") if isinstance(cfg.get("sfmt"), list) else []
        self.sfmt = ["U" if x == "U" else "C" for x in sf][:self.sd] + ["C"] * self.sd
        self.splan = clip(T.norm_plan(cfg.get("swap", []), self.sd), [24] * self.sd)
        self.swap = T.build_tensor(self.splan, self.sd, [24] * self.sd, 0, rank_ids=["P", "Q", "R", "S"][:self.sd])
        for r, f in zip(self.swap.getRankIds(), self.sfmt):
            self.swap.setFormat(r, f)
        self.disk = SimDisk(ctx, "c19")
        self.gen = None
        self.judged = 0
        self.last = None
        self.reset()

    def reset(self):
        self.gen = None
        self.on = False
        self.logs = ([], [])
        self.marks = []     # row counts of both logs at fiber boundaries: (rows a, rows b, fibers)
        self.done = []      # Fib of every finished fiber
        self.models = []
        self.mid = False
        self.over = False
        self.holed = False

    def close(self):
        self.gen = None
        self.disk.close()
        pristine()

    # -------------------------------------------------------------- kernel
    def operand(self, k, ids):
        plan = []
        inner = lambda i: [[c, v] for c, v in self.fibers[i][1 + k]]
        if self.depth == 1:
            plan = inner(0)
        elif self.depth == 2:
            plan = [[p[0], inner(i)] for p, i in sorted(self.pts.items()) if self.fibers[i][1 + k]]
        else:
            for j in sorted({p[0] for p in self.pts}):
                sub = [[p[1], inner(i)] for p, i in sorted(self.pts.items()) if p[0] == j and self.fibers[i][1 + k]]
                if sub:
                    plan.append([j, sub])
        t = T.build_tensor(plan, self.depth, [8, 8, 16][-self.depth:], 0, rank_ids=ids)
        if k < 2 and self.u(k):
            t.setFormat(ids[-1], "U")
        return t

    def u(self, k):
        """U only where no absent fiber can be met."""
        return self.ufmt[k] and self.depth > 1 and self.outer == "and" and self.inner in ("and", "nary", "lf")

    def present(self, k, i):
        f = self.fibers[i][1 + k]
        if k < 2 and self.u(k):
            return list(range(16))
        return [c for c, v in f if v != 0]

    def lists(self, i):
        la, lb = self.present(0, i), self.present(1, i)
        if self.inner == "three":
            return sorted(set(la) & set(lb)), self.present(2, i)
        if self.inner == "proj":
            return [c + self.off for c in la], lb
        return la, lb

    def live(self, k, i):
        return any(v != 0 for _, v in self.fibers[i][1 + k])

    def visits(self):
        """Fibers in the order the kernel visits them; (index, intersected)."""
        if self.depth == 1:
            return [(0, not f[4]) for f in self.fibers]
        out = []
        for p, i in sorted(self.pts.items()):
            a, b = self.live(0, i), self.live(1, i)
            if self.outer == "drv" or (self.outer == "and" and a and b) or (self.outer == "or" and (a or b)):
                out.append((i, not self.fibers[i][4]))
        return out

    def expr(self, a, b, d):
        if self.inner == "and":
            return a & b
        if self.inner == "nary":
            return Fiber.intersection(a, b)
        if self.inner == "lf":
            return Fiber.intersection(a, b, style="leader-follower")
        if self.inner == "three":
            return (a & b) & d
        return a.project(trans_fn=lambda c: c + self.off, rank_id="K") & b

    def kernel(self):
        ids = ["J", "M", "K"][-self.depth:]
        ida = ids[:-1] + ["W"] if self.inner == "proj" else ids
        A, B, D = self.operand(0, ida), self.operand(1, ids), self.operand(2, ids)
        a, b, d = A.getRoot(), B.getRoot(), D.getRoot()

        def inner(a, b, d, i):
            if not self.fibers[i][4]:
                got = []
                for k, _ in self.expr(a, b, d):
                    got.append(k)
                    yield "elem"
                la, lb = self.lists(i)
                want = la if self.inner == "lf" else [c for c in la if c in lb]
                if got != want:
                    raise Violation("delivered", f"the intersection of fiber {i} delivered {got}, want {want}")
            yield ("fiber", i, not self.fibers[i][4])
        if self.depth == 1:
            for i in range(len(self.fibers)):
                if self.fibers[i][4]:
                    yield ("fiber", 0, False)
                    continue
                for _ in self.expr(a, b, d):
                    yield "elem"
                yield ("fiber", 0, True)
            return

        def outer(lv, a, b, d, pre):
            if lv == self.depth - 1:
                yield from inner(a, b, d, self.pts[pre])
                return
            if self.outer == "or":
                for c, (_, x, y) in a | b:
                    yield from outer(lv + 1, x, y, d.getPayload(c), pre + (c,))
            elif self.outer == "and":
                for c, (x, y) in a & b:
                    yield from outer(lv + 1, x, y, d.getPayload(c), pre + (c,))
            else:
                cs = sorted({p[lv] for p in self.pts if p[:lv] == pre})
                drv = Fiber(cs, [1] * len(cs))
                drv.getRankAttrs().setId(ids[lv])
                for c, _ in drv:
                    yield from outer(lv + 1, a.getPayload(c), b.getPayload(c), d.getPayload(c), pre + (c,))
        yield from outer(0, a, b, d, ())

    # --------------------------------------------------------------- steps
    def gen_step(self, rng):
        r = rng.random()
        if r < 0.1:
            return ["swaps", rng.randrange(3), rng.choice([2, 2, 3, 4, 100, "inf", "N"]), rng.choice([0, 1, 2, 3, "N", "N"])]
        if r < 0.16:
            return ["value", rng.randrange(64), rng.choice([0, 0, 1, 7])]
        if not self.on:
            ks = list(KINDS) + [k for k in KINDS if rng.random() < 0.5]
            return ["begin", ks, rng.random() < 0.4, rng.choice([0, 1, 2])]
        if r < 0.5 and not self.over:
            return ["run", rng.choice([1, 1, 2, 3, 6, 0]), self.gen_fault(rng)]
        if r < 0.68:
            return ["consume"]
        if r < 0.9:
            return ["feed", rng.randrange(8), rng.choice([0, 1, 1, 2, 9])]
        if r < 0.93 and not self.over:
            return [rng.choice(["kill", "die", "abandon"])]
        if self.over or rng.random() < 0.15:
            return ["end", self.gen_fault(rng)]
        return ["run", 2, None]

    def gen_fault(self, rng):
        if rng.random() < 0.93:
            return None
        return {"op": rng.choice(["open", "write", "close"]), "nth": rng.randint(1, 4),
                "kind": rng.choice(["full", "eio", "crash"]), "frac": rng.choice([0, 0.5, 1])}

    def exec_step(self, step):
        op = step[0] if isinstance(step, list) and step else None
        a = (step[1:] if isinstance(step, list) else []) + [None] * 4
        with self.disk:
            if op == "swaps":
                return self.do_swaps(a[0], a[1], a[2])
            if op == "value":
                return self.do_value(a[0], a[1])
            if op == "begin":
                return self.do_begin(a[0], a[1], a[2])
            if not self.on:
                return None
            if op == "run":
                return self.do_run(a[0], a[1])
            if op == "consume":
                return self.do_consume()
            if op == "feed":
                return self.do_feed(a[0], a[1])
            if op == "kill":
                self.ctx.fault("kernel_killed")
                self.gen.close()
                self.over, self.holed = True, True
                return True
            if op == "die":
                self.ctx.fault("process_kill")
                self.disk.kill()
                pristine()
                self.reset()
                return True
            if op == "abandon":
                self.ctx.fault("session_abandoned")
                self.reset()
                return True
            if op == "end":
                return self.do_end(a[0])
        return None

    def do_begin(self, ks, files, ncu):
        if self.on:
            self.ctx.fault("session_abandoned")
        self.reset()
        self.files = files is True
        lib("setNumCachedUses", Metrics.setNumCachedUses, [1000, 2, 5][ix(ncu, 3)])
        lib("beginCollect", Metrics.beginCollect, "x")
        for t in ("intersect_0", "intersect_1"):
            lib("trace", Metrics.trace, "K", t, consumable=True)
            if self.files:
                lib("trace", Metrics.trace, "K", t)
        ok = [k for k in ks if k in KINDS] if isinstance(ks, list) else []
        if self.inner == "lf":
            ok = ["a" for _ in ok]
        self.models = [Model(k) for k in ok[:8] or ["a"]]
        self.gen = self.kernel()
        self.on = True
        return True

    def dead(self):
        pristine()
        self.reset()

    def do_run(self, n, fault):
        if self.over:
            return None
        n = int(num(n)) or 10 ** 6
        self.disk.arm(fault)
        try:
            for _ in range(n):
                e = next(self.gen, DONE)
                if e is DONE:
                    self.over = True
                    break
                self.mid = e == "elem"
                if isinstance(e, tuple):
                    # each boundary is its own batch limit, so rows are taken here
                    if e[2]:
                        self.done.append(Fib(*self.lists(e[1]), self.inner == "lf"))
                    self.take()
                    self.marks.append((len(self.logs[0]), len(self.logs[1]), len(self.done)))
        except InjectedIOError:
            self.disk.disarm()
            self.over = self.holed = True
            self.gen.close()
            return "io error"
        except SimCrash:
            self.disk.disarm()
            self.dead()
            return "crash"
        self.disk.disarm()
        return [len(self.marks), self.over]

    def take(self):
        for i in (0, 1):
            self.logs[i].extend(lib("consumeTrace", Metrics.consumeTrace, "K", f"intersect_{i}"))

    def do_consume(self):
        if self.holed:
            return None
        self.take()
        if self.mid:
            self.ctx.probe("trace consumed inside a fiber")
        return True

    def do_feed(self, i, n):
        if not self.models:
            return None
        self.feed(self.models[ix(i, len(self.models))], clamp(n, 0, 100))
        return True

    def feed(self, m, n):
        """Give a model the rows of the next n boundaries."""
        left = [k for k in self.marks if k[2] >= m.fed and (k[0] >= m.at[0] and k[1] >= m.at[1])]
        left = [k for k in left if k != m.at + (m.fed,)]
        if self.depth == 1:
            n = min(n, 1)
        if n == 0 or not left:
            # an empty batch: no fiber was visited between two calls
            to = m.at + (m.fed,)
            self.ctx.probe("empty batch fed")
        else:
            to = left[min(n, len(left)) - 1]
            if to[2] - m.fed > 1:
                self.ctx.probe("several fibers fed in one batch")
        rows = [[list(r) for r in self.logs[i][m.at[i]:to[i]]] for i in (0, 1)]
        self.add(m.obj, m.kind, rows)
        m.at, m.fed = to[:2], to[2]
        m.calls += 1
        self.judge(m.obj, m.kind, m.fed, f"after {m.calls} batches")

    @staticmethod
    def add(obj, kind, rows):
        args = rows if kind in ("two", "skip") else [rows[0 if kind == "a" else 1]]
        lib("addTraces", obj.addTraces, *args)

    def judge(self, obj, kind, nf, when):
        got = lib("getNumIntersects", obj.getNumIntersects)
        want = sum(getattr(f, kind) for f in self.done[:nf])
        if isinstance(got, bool) or got != want:
            ls = [self.lists(i) for i, on in self.visits() if on][:nf]
            raise Violation("total", f"the {kind} model counts {got} for {nf} fibers {when}, want {want}: {ls}", sig="total|" + kind)
        if want:
            self.judged += 1
            self.ctx.probe(f"{kind} total judged")

    def do_end(self, fault):
        if self.over and not self.holed:
            want = len([1 for _, on in self.visits() if on])
            if len(self.done) != want:
                raise Violation("visits", f"the kernel visited {len(self.done)} fibers, want {want}")
            for m in self.models:
                while m.at + (m.fed,) != (self.marks[-1] if self.marks else (0, 0, 0)):
                    self.feed(m, 1 if self.depth == 1 else 1 + m.calls % 3)
        elif not self.over:
            self.holed = True
            self.gen.close()
            self.ctx.fault("kernel_killed")
        self.take()     # a session ends with its in-memory traces consumed
        self.disk.arm(fault)
        try:
            lib("endCollect", Metrics.endCollect)
        except InjectedIOError:
            self.disk.disarm()
            self.dead()
            return "io error"
        except SimCrash:
            self.disk.disarm()
            self.dead()
            return "crash"
        self.disk.disarm()
        if self.files and not self.holed and self.depth > 1:
            rows = []
            for i in (0, 1):
                n = f"x-K-intersect_{i}.csv"
                h, r = N.parse(self.disk.read(n)) if self.disk.exists(n) else (None, [])
                rows.append(([h] if h else []) + r)
            for k in KINDS if self.inner != "lf" else ["a"]:
                obj = CLS[k]()
                self.add(obj, k, [[list(r) for r in x] for x in rows])
                self.judge(obj, k, len(self.done), "in one shot from its trace files")
                self.ctx.probe("fed from trace files")
        out = [(m.kind, m.calls) for m in self.models]
        self.reset()
        return out

    # ---------------------------------------------------------- swap counts
    def do_value(self, i, v):
        """Change a stored leaf value in place."""
        fs = [self.swap.getRoot()]
        for _ in range(self.sd - 1):
            fs = [p for f in fs for p in f.payloads]
        leaves = [p for f in fs for p in f.payloads]
        if not leaves:
            return None
        p = leaves[ix(i, len(leaves))]
        p.value = clamp(v, -9, 9)
        self.ctx.probe("payload value changed between swap counts")
        return p.value

    def do_swaps(self, depth, radix, lat):
        depth = ix(depth, self.sd - 1)
        rx = float("inf") if radix == "inf" else "N" if radix == "N" else clamp(radix, 2, 1000, 2)
        lt = "N" if lat == "N" else clamp(lat, 0, 50)
        before = T.tsnap(self.swap)
        it = Metrics.getIter() if self.on else None
        it = list(it) if it is not None else None
        got = lib("numSwaps", Compute.numSwaps, self.swap, depth, rx, lt)
        if T.tsnap(self.swap) != before:
            raise Violation("swaps-mutate", "numSwaps changed the tensor")
        if self.on and list(Metrics.getIter()) != it:
            raise Violation("swaps-tick", f"numSwaps moved the iteration stamp of the running kernel from {it} to {Metrics.getIter()}")
        wants = set()
        for empties in (0, 1, 2):
            tot = 0
            kids = lambda f, lv: [f.payloads[f.coords.index(c)] if f is not None and c in f.coords else None for c in range(24)] \
                if self.sfmt[lv] == "U" and empties else [p for p in f.payloads if p.coords or empties == 2] if f is not None else []
            fs = [self.swap.getRoot()]
            for lv in range(depth):
                fs = [p for f in fs for p in kids(f, lv)]
            for f in fs:
                ls = [list(p.coords) if p is not None else [] for p in kids(f, depth)]
                tot += swaps([x for x in ls if x or empties], rx, lt)
            wants.add(tot)
        if got not in wants or isinstance(got, bool):
            raise Violation("swaps", f"numSwaps at depth {depth} with radix {rx} and latency {lt} is {got}, want {sorted(wants)}: {before[:1]}",
                            sig="swaps|" + ("N" if lt == "N" else "finite"))
        if got:
            self.judged += 1
            self.ctx.probe("swap count judged")
            if self.on:
                self.ctx.probe("swap count judged while a kernel is suspended")
        self.last = got
        return got

    def check(self):
        pass

    def finish(self):
        self.disk.disarm()

    def state_key(self):
        return str((len(self.done), len(self.logs[0]), len(self.logs[1]), [(m.kind, m.at) for m in self.models], self.mid, self.over, self.last))

    def nontrivial(self):
        return self.judged > 0


def swaps(lists, radix, lat):
    """Merge rounds: every group of radix lists becomes one."""
    total = 0
    while len(lists) > 1:
        r = len(lists) if not isinstance(radix, int) or radix > len(lists) else radix
        new = []
        for k in range(0, len(lists), r):
            grp = lists[k:k + r]
            out = sorted(c for x in grp for c in x)
            total += lat * (len(grp) + len(out)) if lat != "N" else insertions(grp)
            new.append(out)
        lists = new
    return total


def insertions(grp):
    """Heads queue up in merge order (ties: the later list first); a newcomer is
    compared with every head it lets pass and with one more."""
    queue, n = [], 0
    pend = [list(x) for x in grp]

    def enter(i):
        nonlocal n
        c = pend[i].pop(0)
        ahead = sum(1 for h, j in queue if h < c or (h == c and j > i))
        n += ahead + 1
        queue.insert(ahead, (c, i))
    for i, x in enumerate(pend):
        if x:
            enter(i)
    while queue:
        _, i = queue.pop(0)
        if pend[i]:
            enter(i)
    return n
