"""C05: populate offers exactly a's coordinates and keeps only what was written.

A populate nest is a client program: the loop body is an actor the scheduler
drives step by step (write, accumulate, reset, assign a sub-tree, descend,
do nothing), interleaved with other nests over other destinations or other
sub-fibers of the same destination that share the same sources. Nests are
killed at arbitrary points and re-run, and the process restarts.
"""
import copy
import pickle

from fibertree import Fiber, Payload, Tensor

from .. import streams as S
from .. import tree as T
from ..engine import BaseWorld, DONE, InjectedFault, Violation, lib, lib_next
from ..exprs import Exprs
from ..streams import num

RUNS = {"quick": 28000, "thorough": 350000}
CHUNK = 70
RULE = ("a run is nontrivial when at least three references were offered and one was written; distinct runs are "
        "counted by the digest of their event log")
STATE_MEASURE = ("distinct (destination contents, and for every suspended nest the offered coordinate at each level "
                 "and the expression kinds) reached after a step")
ASSUMPTIONS = [
    "two nests never populate the same destination fiber at once",
    "an empty sub-fiber that was already in the destination may stay or go when the body leaves it empty",
    "the coordinate in flight when a nest is killed may keep an element holding the default",
]


class Out:
    """One destination of a level: z1 << (z2 << a) has two."""
    __slots__ = ("zi", "zf", "ref", "new", "outside")


class Level:
    __slots__ = ("gen", "prefix", "outs", "want", "k", "cur", "srcs", "kind", "offered")


class Task:
    __slots__ = ("levels",)


class World(Exprs, BaseWorld):
    @classmethod
    def gen_config(cls, rng):
        depth = rng.choice([1, 1, 2, 2, 2, 3])
        shape = T.rand_shape(rng, depth, 6)

        def op(**kw):
            dens = rng.choice([0.0, 0.3, 0.6, 0.9])
            d = rng.choice([0, 0, 0, 7])
            o = {"depth": depth, "shape": shape, "default": d,
                 "fmts": [rng.choice("CCCU") for _ in range(depth)],
                 "kind": rng.choice(["tensor", "tensor", "fiber"]),
                 "plan": T.rand_plan(rng, depth, shape, dens, default=d)}
            o.update(kw)
            return o
        nz = rng.choice([1, 1, 2])
        return {"zs": [op(kind="fiber" if depth == 1 and rng.random() < 0.3 else "tensor",
                          plan=[] if rng.random() < 0.3 else
                          T.rand_plan(rng, depth, shape, rng.choice([0.3, 0.8]), default=0),
                          default=rng.choice([0, 0, 0, 7])) for _ in range(nz)],
                "srcs": [op(acts=S.rand_acts(rng, shape) if rng.random() < 0.4 else None) for _ in range(2)],
                "n_steps": rng.randint(8, 44)}

    def __init__(self, cfg, ctx):
        super().__init__(cfg, ctx)
        d = None
        self.zs, self.srcs = [], []
        for c in cfg["zs"]:
            c = dict(c)
            if d is not None:
                c["depth"] = d
            z = S.Operand(c)
            d = z.depth
            self.zs.append(z)
        for c in cfg["srcs"]:
            c = dict(c)
            c["depth"] = d
            self.srcs.append(S.Operand(c))
        self.depth = d
        self.vals = [S.flat(z.model, d, z.default) for z in self.zs]
        self.src0 = [s.snap() for s in self.srcs]
        self.tasks = []
        self.offered = self.written = 0
        self.touched = [set() for _ in self.zs]

    # ------------------------------------------------------------ expressions
    def source(self, e, reals, nodes):
        self.pool = [S.Node(n.op, n.lv, n.m, r) for n, r in zip(nodes, reals)]
        return self.build(e, reals, self.pool)

    def gen_source(self, rng, n):
        if rng.random() < 0.4:
            return ["f", rng.randrange(n)]
        return self.gen_expr(rng, n)

    # --------------------------------------------------------------- steps
    OPS = (("start", 4), ("adv", 22), ("write", 18), ("descend", 14), ("below", 4), ("fassign", 2),
           ("pour", 2), ("kill", 2), ("restart", 1))

    def gen_step(self, rng):
        for _ in range(40):
            n = rng.choices([o for o, _ in self.OPS], [w for _, w in self.OPS])[0]
            s = getattr(self, "gen_" + n)(rng)
            if s is not None:
                return [n] + s
        return ["noop"]

    def exec_step(self, step):
        fn = getattr(self, "do_" + str(step[0]), None)
        return fn(*step[1:]) if fn else None

    def busy(self, zi, prefix):
        """Another nest is inside, or is looking at, this destination fiber."""
        for t in self.tasks:
            for lv in t.levels:
                if all(o.zi != zi for o in lv.outs):
                    continue
                if lv.prefix == prefix:
                    return True
                if lv.cur is not None:
                    p = lv.prefix + (lv.cur,)
                    if p[:len(prefix)] == prefix or prefix[:len(p)] == p:
                        return True
                if lv.prefix[:len(prefix)] == prefix:
                    return True
        return False

    def gen_start(self, rng):
        if len(self.tasks) >= 3:
            return None
        zi = rng.randrange(len(self.zs))
        n = 0 if rng.random() < 0.7 else rng.randrange(self.depth)
        prefix = []
        f = self.zs[zi].root
        for _ in range(n):
            if f.coords and rng.random() < 0.6:
                c = rng.choice(f.coords)
            else:
                c = rng.randrange(self.zs[zi].shape[len(prefix)])
            prefix.append(c)
            f = f.payloads[f.coords.index(c)] if c in f.coords else Fiber()
        if self.busy(zi, tuple(prefix)):
            return None
        zs = [zi]
        if len(self.zs) > 1 and rng.random() < 0.35 and not self.busy(1 - zi, tuple(prefix)):
            zs.append(1 - zi)
        return [zs, prefix, rng.randrange(2), self.gen_source(rng, 2), [rng.randrange(4) for _ in prefix],
                rng.choice([None, None, None, 0, 1, 2, 3])]

    def do_start(self, zs, prefix, si, e, sp, start=None):
        zs = [int(num(z)) % len(self.zs) for z in (zs if isinstance(zs, list) else [zs])]
        zs = list(dict.fromkeys(zs))
        if len(self.tasks) >= 3 or not isinstance(prefix, list) or not zs:
            return None
        prefix = tuple(abs(int(num(c))) for c in prefix)
        if len(prefix) >= self.depth or any(self.busy(zi, prefix) for zi in zs):
            return None
        if any(c >= s for zi in zs for c, s in zip(prefix, self.zs[zi].shape)):
            return None
        si = int(num(si)) % 2
        order = [self.srcs[si], self.srcs[1 - si]]
        nodes = [o.node() for o in order]
        # sources of a nest that starts below the root: matching sub-fibers
        sp = sp if isinstance(sp, list) else []
        for i in range(len(prefix)):
            nxt = []
            for n in nodes:
                cs = sorted(c for c in (n.m or {}))
                if not cs:
                    return None
                n = n.child(cs[int(num(sp[i] if i < len(sp) else 0)) % len(cs)])
                nxt.append(n)
            nodes = nxt
        outs = []
        for zi in zs:
            zf = self.zs[zi].root
            if prefix:
                zf = lib("getPayloadRef", zf.getPayloadRef, *prefix)
            for i in range(1, len(prefix) + 1):
                self.touched[zi].add(prefix[:i])
            outs.append((zi, zf))
        t = Task()
        t.levels = []
        self.push(t, prefix, outs, [n.real for n in nodes], nodes, e, start)
        self.tasks.append(t)
        if len(self.tasks) > 1:
            self.ctx.probe("concurrent-nests")
        if start is not None:
            # a saved position is only good for the destination as it is now
            self.prev = [self.stored_paths(z.root, self.depth) for z in self.zs]
            return [len(prefix), self.do_adv(len(self.tasks) - 1)]
        return len(prefix)

    def push(self, t, prefix, outs, reals, nodes, e, start=None):
        lv = Level()
        x = self.source(e, reals, nodes)
        lv.kind = str(e[0]) if isinstance(e, list) and e else "f"
        lv.want, lv.outs = x.want, []
        cs = {c for c, _ in x.want}
        fib = x.fib
        for zi, zf in reversed(outs):
            o = Out()
            o.zi, o.zf, o.ref, o.new = zi, zf, None, False
            o.outside = {c: T.snap(p) for c, p in zip(zf.coords, zf.payloads) if c not in cs}
            lv.outs.insert(0, o)
            k = 0
            if start is not None and x.want:
                # any position whose predecessors lie before the first coordinate offered
                k = min(abs(int(num(start))), sum(1 for c in zf.coords if c < x.want[0][0]))
                self.ctx.probe("saved-position")
                fib = lib("populate", zf.__lshift__, fib, start_pos=k)
            else:
                fib = lib("populate", lambda f=fib: zf << f)
        if len(outs) > 1:
            self.ctx.probe("several-destinations")
        lv.gen = lib("populate", lambda: iter(fib))
        lv.prefix, lv.k, lv.cur, lv.srcs, lv.offered = prefix, -1, None, None, []
        t.levels.append(lv)
        self.ctx.probe("loop:" + lv.kind)

    def top(self, i):
        if not self.tasks:
            return None, None
        t = self.tasks[int(num(i)) % len(self.tasks)]
        return t, t.levels[-1]

    def gen_adv(self, rng):
        return [rng.randrange(len(self.tasks))] if self.tasks else None

    def do_adv(self, i):
        t, lv = self.top(i)
        if t is None:
            return None
        d = self.depth - len(lv.prefix)
        mine = {o.zi for o in lv.outs}
        if lv.k + 1 < len(lv.want):
            pt = lv.prefix + (lv.want[lv.k + 1][0],)
            if any(t2 is not t and mine & {o.zi for o in l2.outs} and l2.prefix[:len(pt)] == pt
                   for t2 in self.tasks for l2 in t2.levels):
                return None
        item = lib_next("populate", lv.gen)
        where = f"z << {lv.kind} at {lv.prefix}"
        if lv.cur is not None:
            self.settled(lv)
        if item is DONE:
            if lv.k + 1 != len(lv.want):
                raise Violation("offered-too-few", f"{where} ended after {lv.k + 1} of {[c for c, _ in lv.want]}")
            self.loop_end(lv)
            t.levels.pop()
            if not t.levels:
                self.tasks.remove(t)
            return "done"
        c, p = item
        lv.k += 1
        if lv.k >= len(lv.want):
            raise Violation("offered-too-many", f"{where} offered {c} after all of {[c for c, _ in lv.want]}")
        wc, wi = lv.want[lv.k]
        if c != wc:
            raise Violation("offered-wrong", f"{where} offered {c}, expected {wc} of {[c for c, _ in lv.want]}")
        av = p
        self.offered += 1
        lv.cur = c
        for o in lv.outs:
            pair = S.unwrap(av)
            if not isinstance(pair, tuple) or len(pair) != 2:
                raise Violation("offered-wrong", f"{where} delivered {av!r}, not a (reference, payload) pair")
            o.ref, av = pair
        S.check_item(av, wi, f"{where}, coordinate {c}, source payload",
                     lambda: S.all_objects(self.srcs + self.zs))
        lv.srcs = (self.leaves_real(av, wi), self.leaves(wi))
        # the references show the destinations' current values
        pt = lv.prefix + (c,)
        for o in lv.outs:
            self.check_ref(o, pt, d, where)
            # new: this offer is what put the element there
            o.new = not any(c == cc and self.was(o.zi, pt) for cc in o.zf.coords)
        return [c]

    def check_ref(self, o, pt, d, where):
        z, ref = self.zs[o.zi], o.ref
        have = {k: v for k, v in self.vals[o.zi].items() if k[:len(pt)] == pt}
        if d == 1:
            if not isinstance(ref, Payload) or isinstance(ref.value, (Fiber, Payload)):
                raise Violation("offered-wrong", f"{where}: the reference at {pt} is {ref!r}")
            v = have.get(pt, z.default)
            if ref.value != v:
                raise Violation("reference-value", f"{where}: the reference at {pt} shows {ref!r}, the destination holds {v}")
        else:
            if not isinstance(ref, Fiber):
                raise Violation("offered-wrong", f"{where}: the reference at {pt} is {ref!r}")
            got = {pt + k: v for k, v in T.content(ref, d - 1, z.default).items()}
            if got != have:
                raise Violation("reference-value", f"{where}: the reference at {pt} shows {got}, the destination holds {have}")

    def was(self, zi, pt):
        """Was an element stored at pt before this offer?"""
        return pt in self.prev[zi]

    def gen_write(self, rng):
        if not self.tasks:
            return None
        i = rng.randrange(len(self.tasks))
        lv = self.tasks[i].levels[-1]
        if lv.cur is None or len(lv.prefix) + 1 != self.depth:
            return None
        return [i, rng.choice(["ilshift", "ilshift", "iadd", "isub", "zero", "src", "cancel"]), rng.choice([0, 1, 2, 7, -3, 2.5]),
                rng.randrange(2)]

    def do_write(self, i, op, v, which=0):
        t, lv = self.top(i)
        if t is None or lv.cur is None or len(lv.prefix) + 1 != self.depth:
            return None
        o = lv.outs[int(num(which)) % len(lv.outs)]
        z = self.zs[o.zi]
        pt = lv.prefix + (lv.cur,)
        old = self.vals[o.zi].get(pt, z.default)
        v = num(v, 1)
        if op == "zero":
            op, v = "ilshift", z.default
        elif op == "src":
            op, v = "ilshift", lv.srcs[0][0]
        elif op == "cancel":
            op, v = "iadd", z.default - old
        def go():
            r = o.ref
            if op == "ilshift":
                r <<= v
            elif op == "iadd":
                r += v
            else:
                r -= v
            return r
        if lib("box " + str(op), go) is not o.ref:
            raise Violation("not-a-reference", f"{op} through the reference gave another object")
        v = v.value if isinstance(v, Payload) else v
        new = v if op == "ilshift" else old + v if op == "iadd" else old - v
        self.put(o.zi, pt, new)
        self.written += 1
        return repr(new)

    def put(self, zi, pt, v):
        if v == self.zs[zi].default:
            self.vals[zi].pop(pt, None)
        else:
            self.vals[zi][pt] = v

    # -- nested populate
    def gen_descend(self, rng):
        if not self.tasks:
            return None
        i = rng.randrange(len(self.tasks))
        lv = self.tasks[i].levels[-1]
        if lv.cur is None or len(lv.prefix) + 1 >= self.depth:
            return None
        return [i, rng.randrange(2), self.gen_source(rng, len(lv.srcs[0])), rng.choice([3, 3, 3, 1, 2]),
                rng.choice([None, None, None, 0, 1, 2, 3])]

    def do_descend(self, i, which, e, outs=3, start=None):
        t, lv = self.top(i)
        if t is None or lv.cur is None or len(lv.prefix) + 1 >= self.depth:
            return None
        reals, nodes = lv.srcs
        if int(num(which)) % 2 and len(reals) > 1:
            reals, nodes = reals[::-1], nodes[::-1]
        nodes = [S.Node(n.op, n.lv, n.m, r) for n, r in zip(nodes, reals)]
        sel = [(o.zi, o.ref) for k, o in enumerate(lv.outs) if int(num(outs, 3)) >> k & 1]
        self.push(t, lv.prefix + (lv.cur,), sel or [(o.zi, o.ref) for o in lv.outs], reals, nodes, e, start)
        if start is not None:
            return [len(t.levels), self.do_adv(self.tasks.index(t))]
        return len(t.levels)

    # -- a write below the offered sub-fiber by point
    def gen_below(self, rng):
        if not self.tasks:
            return None
        i = rng.randrange(len(self.tasks))
        lv = self.tasks[i].levels[-1]
        if lv.cur is None or len(lv.prefix) + 1 >= self.depth:
            return None
        return [i, [rng.randrange(4) for _ in range(self.depth - len(lv.prefix) - 1)], rng.choice([0, 1, 5]),
                rng.randrange(2)]

    def do_below(self, i, tail, v, which=0):
        t, lv = self.top(i)
        if t is None or lv.cur is None or len(lv.prefix) + 1 >= self.depth or not isinstance(tail, list):
            return None
        tail = tuple(abs(int(num(c))) for c in tail)
        pt = lv.prefix + (lv.cur,) + tail
        o = lv.outs[int(num(which)) % len(lv.outs)]
        if len(pt) != self.depth or any(c >= s for c, s in zip(pt, self.zs[o.zi].shape)):
            return None
        v = num(v, 1)
        def go():
            r = o.ref.getPayloadRef(*tail)
            r <<= v
        lib("write below the reference", go)
        for k in range(len(pt) + 1):
            self.touched[o.zi].add(pt[:k])
        self.put(o.zi, pt, v)
        self.written += 1
        return repr(v)

    def gen_fassign(self, rng):
        if not self.tasks:
            return None
        i = rng.randrange(len(self.tasks))
        lv = self.tasks[i].levels[-1]
        if lv.cur is None or len(lv.prefix) + 1 >= self.depth:
            return None
        d = self.depth - len(lv.prefix) - 1
        return [i, T.rand_plan(rng, d, [4] * d, rng.choice([0.0, 0.3, 0.7])), rng.randrange(2)]

    def do_fassign(self, i, plan, which=0):
        t, lv = self.top(i)
        if t is None or lv.cur is None or len(lv.prefix) + 1 >= self.depth:
            return None
        o = lv.outs[int(num(which)) % len(lv.outs)]
        z = self.zs[o.zi]
        d = self.depth - len(lv.prefix) - 1
        pt = lv.prefix + (lv.cur,)
        plan = S.clip(T.norm_plan(plan, d), z.shape[len(pt):])
        src = T.build_fiber(plan, d, None, z.default)
        def go():
            r = o.ref
            r <<= src
            return r
        if lib("fiber ilshift", go) is not o.ref:
            raise Violation("not-a-reference", "<<= with a fiber through the reference gave another object")
        for k in [k for k in self.vals[o.zi] if k[:len(pt)] == pt]:
            del self.vals[o.zi][k]
        for k, v in T.plan_content(plan, d, z.default).items():
            self.vals[o.zi][pt + k] = v
        self.written += 1

    # -- a destination as the source: one row into another, one output into the next
    def gen_pour(self, rng):
        zi, zj = rng.randrange(len(self.zs)), rng.randrange(len(self.zs))
        paths = sorted(self.stored_paths(self.zs[zj].root, self.depth - 1)) if self.depth > 1 else []
        if zi != zj:
            paths.append(())
        if not paths:
            return None
        q = rng.choice(paths)
        return [zi, [rng.randrange(s) for _, s in zip(q, self.zs[zi].shape)], zj, list(q), rng.randrange(3)]

    def do_pour(self, zi, p, zj, q, mode):
        zi, zj = int(num(zi)) % len(self.zs), int(num(zj)) % len(self.zs)
        z, y = self.zs[zi], self.zs[zj]
        if not isinstance(p, list) or not isinstance(q, list) or len(p) != len(q) or len(q) >= self.depth:
            return None
        p, q = (tuple(abs(int(num(c))) for c in x) for x in (p, q))
        if zi == zj and p == q or self.busy(zi, p) or self.busy(zj, q) or any(c >= s for c, s in zip(p, z.shape)):
            return None
        src = y.root
        for c in q:
            if c not in src.coords:
                return None
            src = src.payloads[src.coords.index(c)]
        before = T.snap(src)

        def offers(f, lv, at):
            """What a destination presents; earlier populates set its active ranges."""
            lo, hi = f.getActive() if y.fmts[lv] == "U" else (None, None)
            for c, v in zip(f.coords, f.payloads):
                if lo is not None and not lo <= c < hi:
                    continue
                if lv + 1 < self.depth:
                    yield from offers(v, lv + 1, at + (c,))
                elif v.value != y.default and keep(v.value):
                    yield at + (c,), v.value
        dst = lib("getPayloadRef", z.root.getPayloadRef, *p) if p else z.root
        for i in range(len(p) + 1):
            self.touched[zi].add(p[:i])
        keep = {0: lambda v: True, 1: lambda v: v > 1, 2: lambda v: False}[int(num(mode)) % 3]
        want = dict(offers(src, len(q), p))
        new = {}

        def go(d, s, at, dep):
            for c, (r, v) in d << s:
                if dep > 1:
                    go(r, v, at + (c,), dep - 1)
                    continue
                v = v.value if isinstance(v, Payload) else v
                if v != y.default and keep(v):
                    r <<= v
                    new[at + (c,)] = v
        lib("populate from a destination", go, dst, src, p, self.depth - len(p))
        if new != want:
            raise Violation("offered-wrong", f"populating {p} of destination {zi} from {q} of {zj} offered {new}, it holds {want}")
        for k, v in new.items():
            self.put(zi, k, v)
            for i in range(len(p), len(k) + 1):
                self.touched[zi].add(k[:i])
        if T.snap(src) != before:
            raise Violation("source-modified", f"populating {p} of destination {zi} changed its source {q} of {zj}: {src!r}")
        self.ctx.probe("pour-self" if zi == zj else "pour-other")
        return len(new)

    # -- faults
    def gen_kill(self, rng):
        return [rng.randrange(len(self.tasks)), rng.choice(["close", "throw", "break"])] if self.tasks else None

    def do_kill(self, i, how):
        t, _ = self.top(i)
        if t is None:
            return None
        self.tasks.remove(t)
        self.ctx.fault("nest_" + str(how))
        # innermost first, as an exception would unwind
        for lv in reversed(t.levels):
            try:
                if how == "throw":
                    lv.gen.throw(InjectedFault())
                else:
                    lv.gen.close()
            except (InjectedFault, StopIteration):
                pass
        for lv in t.levels:
            for o in lv.outs:
                if lv.cur is not None:
                    self.touched[o.zi].add(lv.prefix + (lv.cur,))
                self.touched[o.zi].add(lv.prefix)
        return how

    def gen_restart(self, rng):
        return [rng.choice(["pickle", "deepcopy"])]

    def do_restart(self, how):
        fn = copy.deepcopy if how == "deepcopy" else (lambda o: pickle.loads(pickle.dumps(o)))
        for o in self.zs + self.srcs:
            o.obj = lib("restart", fn, o.obj)
            o.reindex()
        self.src0 = [s.snap() for s in self.srcs]
        self.tasks = []
        self.ctx.fault("restart_" + str(how))

    # ------------------------------------------------------------- oracles
    def settled(self, lv):
        """The body at lv.cur is over and the loop moved on."""
        pt = lv.prefix + (lv.cur,)
        for o in lv.outs:
            full = any(k[:len(pt)] == pt for k in self.vals[o.zi])
            f = o.zf
            stored = f.payloads[f.coords.index(lv.cur)] if lv.cur in f.coords else None
            if full:
                if stored is not o.ref:
                    raise Violation("written-lost", f"the element written at {pt} is not stored after the loop moved on")
            elif stored is not None and (len(pt) == self.depth or o.new):
                raise Violation("default-left-behind", f"the body left {pt} at the default but the destination keeps "
                                                       f"{stored!r}", sig="default-left-behind")
            self.touched[o.zi].add(pt)
            o.ref = None
        lv.offered.append(lv.cur)
        lv.cur = None

    def loop_end(self, lv):
        for o in lv.outs:
            f = o.zf
            for c, s in o.outside.items():
                if any(k[:len(lv.prefix) + 1] == lv.prefix + (c,) for k in self.touched[o.zi] | self.inflight(o.zi)):
                    continue
                if c not in f.coords or T.snap(f.payloads[f.coords.index(c)]) != s:
                    raise Violation("outside-changed", f"populating {lv.prefix} changed coordinate {c}, which the source "
                                                       f"does not present")

    def inflight(self, zi):
        return {lv.prefix + (lv.cur,) for t in self.tasks for lv in t.levels if lv.cur is not None
                for o in lv.outs if o.zi == zi}

    def check(self):
        self.prev = []
        for i, z in enumerate(self.zs):
            got = T.content(z.root, self.depth, z.default)
            if got != self.vals[i]:
                raise Violation("content", f"destination {i} holds {got}, the writes so far make it {self.vals[i]}")
            if isinstance(z.obj, Tensor):
                T.check_ranks(z.obj, f"destination {i}")
            T.check_wellformed(z.root, self.depth, f"destination {i}")
            self.prev.append(self.stored_paths(z.root, self.depth))
        for s, s0 in zip(self.srcs, self.src0):
            if s.snap() != s0:
                raise Violation("source-modified", f"the source changed: {s.root!r}")

    def stored_paths(self, f, d, prefix=()):
        out = set()
        for c, p in zip(f.coords, f.payloads):
            out.add(prefix + (c,))
            if d > 1:
                out |= self.stored_paths(p, d - 1, prefix + (c,))
        return out

    def state_key(self):
        return (tuple(tuple(sorted(v)) for v in self.vals),
                tuple(tuple((tuple(o.zi for o in lv.outs), lv.prefix, lv.cur, lv.kind) for lv in t.levels) for t in self.tasks))

    def nontrivial(self):
        return self.offered >= 3 and self.written >= 1

    def close(self):
        self.tasks = []
