"""C12: equality, emptiness and counting depend on content only.

Replicas of one logical map receive the same log of point writes over a
lossy, reordering, duplicating network, last writer wins by sequence number.
Every replica applies an update in its own physical way (references, populate
loops, in-place arithmetic, whole sub-fiber assignment), gathers physical
noise (explicit defaults, empty sub-fibers, formats, active ranges, larger
shapes, other ownership), crashes back to a checkpoint and is restarted.
At every point of the schedule two replicas must compare equal exactly when
the maps they have received so far are the same.
"""
import copy
import pickle

from fibertree import Fiber, Payload, Tensor

from .. import streams as S
from .. import tree as T
from ..engine import BaseWorld, InjectedFault, Violation, lib
from ..streams import num

RUNS = {"quick": 24000, "thorough": 300000}
CHUNK = 60
RULE = ("a run is nontrivial when two replicas were equal with at least one point after receiving updates in different "
        "physical forms; distinct runs are counted by the digest of their event log")
STATE_MEASURE = "distinct tuples of raw replica trees reached after a step"
ASSUMPTIONS = [
    "values are numbers; replicas may have different defaults, content is relative to each one's own default",
]


class Replica:
    __slots__ = ("obj", "default", "seen", "model", "ckpt", "depth", "noise", "inbox")

    @property
    def root(self):
        return self.obj.getRoot() if isinstance(self.obj, Tensor) else self.obj


class World(BaseWorld):
    @classmethod
    def gen_config(cls, rng):
        depth = rng.choice([0, 1, 1, 2, 2, 2, 3])
        shape = T.rand_shape(rng, depth, 4, wide=0.04)
        dd = rng.choice([0, 0, 0, 7])
        reps = []
        for _ in range(rng.choice([2, 2, 3])):
            reps.append({"kind": rng.choice(["tensor", "tensor", "fiber"]) if depth in (1, 2) else "tensor",
                         "default": dd if rng.random() < 0.85 else rng.choice([0, 7]),
                         "grow": rng.randrange(3), "ids": rng.random() < 0.9, "declared": rng.random() < 0.7})
        log, odd = [], rng.random() < 0.15
        for _ in range(rng.randint(1, 8) if max(shape, default=1) <= 8 else rng.randint(6, 24)):
            log.append([[T.rand_coord(rng, s) for s in shape], rng.choice([1, 2, 2, 7, 0, "D", "D"]) if not odd else
                        rng.choice([2, 7, "D", 2.0, 0.0, 7.0, 2 + 2 ** -40, 2 ** -60, 70000, 70001, -2, -7, True, False])])
        return {"depth": depth, "shape": shape, "reps": reps, "log": log, "n_steps": rng.randint(8, 40)}

    def __init__(self, cfg, ctx):
        super().__init__(cfg, ctx)
        self.depth = max(0, min(3, int(num(cfg["depth"]))))
        sh = [max(1, min(300, int(num(s, 1)))) for s in cfg["shape"]][:self.depth]
        self.shape = sh + [2] * (self.depth - len(sh))
        self.reps = []
        for i, c in enumerate(cfg["reps"][:4]):
            r = Replica()
            r.default, r.depth, r.seen, r.model, r.noise = num(c.get("default", 0)), self.depth, {}, {}, 0
            grow = abs(int(num(c.get("grow", 0)))) % 4
            shape = [s + grow for s in self.shape] if c.get("declared", True) else None
            ids = T.rank_names(self.depth)
            if not c.get("ids", True):
                ids = ["X" + x for x in ids]
            if c.get("kind") == "fiber" and self.depth in (1, 2):
                r.obj = self.blank_fiber(shape, r.default)
            elif self.depth == 0:
                r.default = 0
                r.obj = lib("Tensor", Tensor, rank_ids=[])
            else:
                r.obj = lib("Tensor", Tensor, rank_ids=ids, shape=shape, default=r.default)
            r.ckpt = (copy.deepcopy(r.obj), {}, {})
            self.reps.append(r)
        self.log = []
        for e in cfg["log"]:
            if isinstance(e, list) and len(e) == 2 and isinstance(e[0], list):
                pt = tuple(abs(int(num(c))) % s for c, s in zip(e[0] + [0] * self.depth, self.shape))
                self.log.append((pt, e[1] if e[1] == "D" else num(e[1], 1)))
        self.equal_seen = 0

    def blank_fiber(self, shape, default):
        if self.depth == 1:
            return Fiber([], [], default=default, **({"shape": shape[0]} if shape else {}))
        # a sub-fiber is what tells an unowned interior fiber its leaf default
        sub = Fiber([], [], default=default, **({"shape": shape[1]} if shape else {}))
        return Fiber([0], [sub], default=Fiber, **({"shape": shape[0]} if shape else {}))

    # --------------------------------------------------------------- steps
    OPS = (("deliver", 30), ("dup", 4), ("noise", 14), ("crash", 2), ("ckpt", 2), ("restart", 3), ("prune", 3), ("reown", 2),
           ("fmt", 3), ("heal", 1), ("sub", 4))
    HOW = ["ref", "ref", "delta", "populate", "assign", "insertpos"]

    def gen_step(self, rng):
        for _ in range(30):
            n = rng.choices([o for o, _ in self.OPS], [w for _, w in self.OPS])[0]
            s = getattr(self, "gen_" + n)(rng)
            if s is not None:
                return [n] + s
        return ["noop"]

    def exec_step(self, step):
        fn = getattr(self, "do_" + str(step[0]), None)
        return fn(*step[1:]) if fn and self.reps else None

    def rep(self, i):
        return self.reps[int(num(i)) % len(self.reps)]

    def gen_deliver(self, rng):
        i = rng.randrange(len(self.reps))
        todo = [k for k in range(len(self.log)) if self.reps[i].seen.get(self.log[k][0], -1) < k]
        if not todo:
            return None
        # mostly in order, sometimes overtaking
        k = todo[0] if rng.random() < 0.6 else rng.choice(todo)
        if k != todo[0]:
            self.ctx.fault("message_reordered")
        return [i, k, rng.choice(self.HOW)]

    def do_deliver(self, i, k, how):
        r = self.rep(i)
        if not self.log:
            return None
        k = int(num(k)) % len(self.log)
        pt, v = self.log[k]
        if r.seen.get(pt, -1) >= k:
            return "stale"
        self.apply(r, pt, r.default if v == "D" else v, how)
        r.seen[pt] = k

    def gen_dup(self, rng):
        return [rng.randrange(len(self.reps)), rng.randrange(len(self.log)), rng.choice(self.HOW)] if self.log else None

    def do_dup(self, i, k, how):
        """The same message again: the value is written a second time."""
        r = self.rep(i)
        if not self.log:
            return None
        k = int(num(k)) % len(self.log)
        pt, v = self.log[k]
        if r.seen.get(pt, -1) != k:
            return None
        self.ctx.fault("message_duplicated")
        self.apply(r, pt, r.default if v == "D" else v, how)

    def apply(self, r, pt, v, how):
        old = r.model.get(pt, r.default)
        if self.depth == 0:
            def go():
                b = r.root
                b <<= v
            lib("write", go)
        elif how == "delta" and (old + (v - old)) == v:
            def go():
                b = r.obj.getPayloadRef(*pt)
                b += v - old
            lib("delta", go)
        elif how == "populate":
            self.populate(r.root, pt, v, r.default)
        elif how == "assign" and self.depth >= 2:
            pre = pt[:-1]
            sub = {k[-1]: x for k, x in r.model.items() if k[:-1] == pre}
            sub[pt[-1]] = v
            src = Fiber(sorted(sub), [sub[c] for c in sorted(sub)], default=r.default)

            def go():
                f = r.obj.getPayloadRef(*pre)
                f <<= src
            lib("assign sub-fiber", go)
        elif how == "insertpos":
            f = r.root
            for c in pt[:-1]:
                f = f.payloads[f.coords.index(c)] if c in f.coords else None
                if f is None:
                    return self.apply(r, pt, v, "ref")
            if pt[-1] not in f.coords:
                return self.apply(r, pt, v, "ref")
            lib("assign at position", f.__setitem__, f.coords.index(pt[-1]), v)
        else:
            def go():
                b = r.obj.getPayloadRef(*pt)
                b <<= v
            lib("write", go)
        if v == r.default:
            r.model.pop(pt, None)
        else:
            r.model[pt] = v

    def populate(self, z, pt, v, default):
        one = 1 if default != 1 else 2
        if len(pt) == 1:
            src = Fiber([pt[0]], [one], default=default)

            def go():
                for _, (ref, _) in z << src:
                    ref <<= v
        else:
            inner = Fiber([0], [one], default=default)
            src = Fiber([pt[0]], [inner], default=Fiber)

            def go():
                for _, (ref, _) in z << src:
                    self.populate(ref, pt[1:], v, default)
        lib("populate", go)

    def gen_noise(self, rng):
        return [rng.randrange(len(self.reps)), rng.choice(["default", "default", "subfiber", "dense", "read"]),
                [T.rand_coord(rng, s) for s in self.shape]]

    def do_noise(self, i, how, pt):
        r = self.rep(i)
        if self.depth == 0 or not isinstance(pt, list):
            return None
        pt = tuple(abs(int(num(c))) % s for c, s in zip(pt + [0] * self.depth, self.shape))
        if how == "default":
            lib("touch", r.obj.getPayloadRef, *pt)
        elif how == "subfiber":
            if self.depth < 2:
                return None
            lib("touch prefix", r.obj.getPayloadRef, *pt[:-1])
        elif how == "dense":
            f = r.root
            for c in pt[:-1]:
                if c in f.coords:
                    f = f.payloads[f.coords.index(c)]
                else:
                    break
            lib("dense references", lambda: list(f.iterRangeShapeRef(0, pt[-1] + 1)))
        else:
            lib("read", r.obj.getPayload, *pt)
        r.noise += 1

    def gen_ckpt(self, rng):
        return [rng.randrange(len(self.reps))]

    def do_ckpt(self, i):
        r = self.rep(i)
        r.ckpt = (lib("deepcopy", copy.deepcopy, r.obj), dict(r.seen), dict(r.model))

    def gen_crash(self, rng):
        return [rng.randrange(len(self.reps))]

    def do_crash(self, i):
        """Everything since the last checkpoint is lost; messages come again."""
        r = self.rep(i)
        r.obj = lib("deepcopy", copy.deepcopy, r.ckpt[0])
        r.seen, r.model = dict(r.ckpt[1]), dict(r.ckpt[2])
        self.ctx.fault("crash_to_checkpoint")

    def gen_restart(self, rng):
        return [rng.randrange(len(self.reps)), rng.choice(["pickle", "deepcopy", "fiber"])]

    def do_restart(self, i, how):
        r = self.rep(i)
        old = r.obj
        if how == "fiber" and self.depth and isinstance(old, Tensor):
            # the root travels alone and is adopted by a new tensor
            f = lib("deepcopy", copy.deepcopy, r.root)
            new = lib("fromFiber", Tensor.fromFiber, old.getRankIds(), f, default=r.default)
        elif how == "pickle":
            new = lib("pickle", lambda: pickle.loads(pickle.dumps(old)))
        else:
            new = lib("deepcopy", copy.deepcopy, old)
        if not lib("==", lambda: new == old) or not lib("==", lambda: old == new):
            raise Violation("copy-unequal", f"a {how} copy does not equal its original: {old!r}", sig="copy-unequal")
        r.obj = new
        self.ctx.fault("restart_" + str(how))

    def gen_prune(self, rng):
        return [rng.randrange(len(self.reps)), rng.random() < 0.5]

    def do_prune(self, i, adopt):
        r = self.rep(i)
        if self.depth == 0:
            return None
        n = lib("nonEmpty", r.root.nonEmpty)
        if not lib("==", lambda: n == r.root) or not lib("==", lambda: r.root == n):
            raise Violation("nonempty-unequal", f"nonEmpty() of {r.root!r} gave {n!r}")
        if T.content(n, self.depth, r.default) != r.model:
            raise Violation("nonempty-content", f"nonEmpty() of {r.root!r} holds {n!r}")

        def clean(f, d):
            for p in f.payloads:
                if d > 1:
                    if not T.content(p, d - 1, r.default):
                        raise Violation("nonempty-kept", f"nonEmpty() kept an empty sub-fiber: {n!r}")
                    clean(p, d - 1)
                elif T.unbox(p) == r.default:
                    raise Violation("nonempty-kept", f"nonEmpty() kept an explicit default: {n!r}")
        clean(n, self.depth)
        if adopt and isinstance(r.obj, Tensor):
            r.obj = lib("fromFiber", Tensor.fromFiber, r.obj.getRankIds(), copy.deepcopy(n), default=r.default)

    def gen_reown(self, rng):
        return [rng.randrange(len(self.reps))]

    def do_reown(self, i):
        """The same content in an unowned fiber."""
        r = self.rep(i)
        if not 1 <= self.depth <= 2 or not r.model:
            return None
        plan = {}
        for k, v in r.model.items():
            plan.setdefault(k[0], []).append([k[-1], v])
        if self.depth == 1:
            f = Fiber(sorted(plan), [r.model[(c,)] for c in sorted(plan)], default=r.default)
        else:
            f = T.build_fiber([[c, sorted(p)] for c, p in sorted(plan.items())], 2, None, r.default)
        for a, b in ((f, r.root), (r.root, f)):
            if not lib("==", lambda: a == b):
                raise Violation("unequal", f"{a!r} and {b!r} hold the same content but compare unequal", sig="unequal")
        # one point more or less makes a difference
        f.payloads[0] = f.payloads[0] if self.depth > 1 else Payload(r.default)
        if self.depth == 1 and lib("==", lambda: f == r.root):
            raise Violation("equal", f"{f!r} and {r.root!r} differ but compare equal", sig="equal")

    def gen_fmt(self, rng):
        return [rng.randrange(len(self.reps)), rng.randrange(3), rng.choice(["U", "C", "active"]), rng.randrange(3)]

    def do_fmt(self, i, lv, how, n):
        """Presentation changes, content does not."""
        r = self.rep(i)
        if self.depth == 0:
            return None
        if how == "active":
            lib("setActive", r.root.setActive, (0, abs(int(num(n)))))
        elif isinstance(r.obj, Tensor):
            ids = r.obj.getRankIds()
            lib("setFormat", r.obj.setFormat, ids[int(num(lv)) % len(ids)], "U" if how == "U" else "C")
        r.noise += 1

    def gen_heal(self, rng):
        return []

    def do_heal(self):
        """Deliver everything outstanding everywhere."""
        for i, r in enumerate(self.reps):
            for k in range(len(self.log)):
                if r.seen.get(self.log[k][0], -1) < k:
                    self.do_deliver(i, k, self.HOW[(i + k) % len(self.HOW)])

    def gen_sub(self, rng):
        return [rng.randrange(len(self.reps)), rng.randrange(len(self.reps)), [rng.randrange(s) for s in self.shape]]

    def do_sub(self, i, j, pt):
        """Sub-fibers compare by content too."""
        a, b = self.rep(i), self.rep(j)
        if self.depth < 2 or not isinstance(pt, list):
            return None
        pt = tuple(abs(int(num(c))) % s for c, s in zip(pt + [0] * self.depth, self.shape))[:-1]
        fa, fb = (lib("read", x.obj.getPayload, *pt) for x in (a, b))
        ma, mb = ({k: v for k, v in x.model.items() if k[:len(pt)] == pt} for x in (a, b))
        self.pair(fa, fb, ma, mb, f"sub-fibers at {pt}")
        n = len(self.shape) - len(pt)
        for f, m in ((fa, ma), (fb, mb)):
            if lib("isEmpty", f.isEmpty) != (not m):
                raise Violation("isempty", f"{f!r}.isEmpty() is {f.isEmpty()}, its content is {m}", sig="isempty")
            if lib("countValues", f.countValues) != len(m):
                raise Violation("count", f"{f!r}.countValues() is {f.countValues()}, its content is {m}", sig="count")

    # ------------------------------------------------------------- oracles
    def pair(self, x, y, mx, my, what):
        eq, qe = lib("==", lambda: x == y), lib("==", lambda: y == x)
        want = mx == my
        if bool(eq) != want:
            c = "unequal" if want else "equal"
            raise Violation(c, f"{what}: {x!r} == {y!r} gave {eq}; contents {mx} and {my}", sig=c)
        if bool(qe) != want:
            raise Violation("symmetry", f"{what}: {y!r} == {x!r} gave {qe}; contents {mx} and {my}", sig="symmetry")
        if want and mx:
            self.equal_seen += 1

    def check(self):
        for i, a in enumerate(self.reps):
            if self.depth:
                got = T.content(a.root, self.depth, a.default)
                if got != a.model:
                    raise Violation("content", f"replica {i} holds {got}, the updates it received make it {a.model}")
                if lib("isEmpty", a.root.isEmpty) != (not a.model):
                    raise Violation("isempty", f"{a.root!r}.isEmpty() is {a.root.isEmpty()}, its content is {a.model}",
                                    sig="isempty")
            n = lib("countValues", a.obj.countValues)
            if n != len(a.model):
                raise Violation("count", f"replica {i}: countValues() of {a.root!r} is {n}, its content is {a.model}",
                                sig="count")
            if not lib("==", lambda: a.obj == a.obj):
                raise Violation("reflexive", f"replica {i} does not equal itself: {a.root!r}")
            for j in range(i):
                b = self.reps[j]
                if self.depth == 0:
                    va, vb = T.unbox(a.root), T.unbox(b.root)
                    if bool(lib("==", lambda: a.obj == b.obj)) != (va == vb):
                        raise Violation("unequal", f"rank-0 tensors {va} and {vb}")
                    continue
                self.pair(a.root, b.root, a.model, b.model, f"replicas {i} and {j}")
                if isinstance(a.obj, Tensor) and isinstance(b.obj, Tensor):
                    same = a.obj.getRankIds() == b.obj.getRankIds()
                    if bool(lib("==", lambda: a.obj == b.obj)) != (same and a.model == b.model):
                        raise Violation("tensor-equality", f"tensors {i} and {j}: rank ids equal: {same}, contents "
                                                           f"{a.model} and {b.model}", sig="tensor-equality")

    def finish(self):
        self.do_heal()
        self.check()
        if self.depth and len({r.default for r in self.reps}) == 1 and self.reps:
            # eventual agreement once the faults stop
            m = [r.model for r in self.reps]
            if any(x != m[0] for x in m):
                raise RuntimeError("harness: replicas diverged")

    def state_key(self):
        return tuple(T.snap(r.root) if self.depth else T.unbox(r.root) for r in self.reps)

    def nontrivial(self):
        return self.equal_seen > 0 and any(r.noise for r in self.reps)
