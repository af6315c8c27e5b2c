"""C04: co-iteration operators compute exactly their coordinate-set truth tables.

Lazy co-iterations are suspended tasks. The scheduler keeps several of them
open at once over the same operands (and several over the same lazy fiber),
advances them in any order, kills and restarts them, nests further
co-iterations over what they deliver, writes through delivered payloads and
into delivered defaults, and lets readers move the operands' saved search
positions in between.
"""
import copy
import pickle

from fibertree import Fiber, Payload, Tensor

from .. import streams as S
from .. import tree as T
from ..engine import BaseWorld, DONE, InjectedFault, Violation, lib, lib_next
from ..exprs import Exprs
from ..streams import num

RUNS = {"quick": 32000, "thorough": 400000}
CHUNK = 80
RULE = ("a run is nontrivial when at least four items of two different operators were delivered; distinct runs are "
        "counted by the digest of their event log")
STATE_MEASURE = "distinct (operand contents, expression and position of every suspended co-iteration) after a step"
ASSUMPTIONS = [
    "operand values are only changed through delivered payloads, from one non-default value to another, while "
    "co-iterations are suspended (structure never changes under a suspended iteration)",
    "operands of one operator other than & have coordinates of one arity",
]
class Task:
    __slots__ = ("gen", "want", "k", "cur", "kind", "fib", "level", "expr")


class World(Exprs, BaseWorld):
    @classmethod
    def gen_config(cls, rng):
        depth = rng.choice([1, 1, 1, 2, 2, 3])
        shape = T.rand_shape(rng, depth, 6)
        mixed = depth == 1 and rng.random() < 0.2
        tup = 0 if mixed or rng.random() < 0.85 else rng.choice([2, 3])
        n = rng.choice([2, 2, 3, 4])
        ops = []
        for _ in range(n):
            d = rng.choice([0, 0, 0, 7])
            t = rng.choice([0, 0, 2, 2, 3]) if mixed else tup
            sh = [8] + shape[1:] if t else shape
            ops.append({"depth": depth, "shape": sh, "default": d,
                        "fmts": [rng.choice("CCCU") for _ in range(depth)], "tup": t,
                        "kind": rng.choice(["tensor", "tensor", "fiber"]),
                        "acts": S.rand_acts(rng, sh) if rng.random() < 0.4 else None,
                        "plan": T.rand_plan(rng, depth, sh, rng.choice([0.0, 0.3, 0.6, 0.9]), default=d)})
        return {"ops": ops, "n_steps": rng.randint(6, 40)}

    def __init__(self, cfg, ctx):
        super().__init__(cfg, ctx)
        self.ops = []
        for c in cfg["ops"]:
            c = dict(c)
            if self.ops:
                c["depth"] = self.ops[0].depth
            tup = c.get("tup", 0)
            self.ops.append(S.Operand(c, tup=tup if tup in (2, 3) else 0))
        self.depth = self.ops[0].depth
        self.tasks = []
        self.items = 0
        self.kinds = set()
        self.attrs0 = [self.attrs(o) for o in self.ops]
        self.resnap()

    def resnap(self):
        self.snaps = [o.snap() for o in self.ops]

    def attrs(self, o):
        """Attributes of the operands and of their tensors."""
        if isinstance(o.obj, Tensor):
            t = o.obj
            return (tuple(t.getRankIds()), tuple(repr(f._active_range) for _, f in S.fibers(o.root)), repr(t.getShape(authoritative=True)), repr(t.getDefault()),
                    tuple(t.getFormat(r) for r in t.getRankIds()), t.getName(),
                    tuple(id(f.getOwner()) for r in t.ranks for f in r.getFibers()))
        f = o.root
        return (tuple(repr(f._active_range) for _, f in S.fibers(f)), repr(f.getShape(all_ranks=False, authoritative=True)), repr(f.getDefault()), f.getOwner() is None)

    # --------------------------------------------------------------- steps
    OPS = (("start", 10), ("again", 3), ("adv", 34), ("drain", 5), ("write", 8), ("wdef", 4), ("read", 6), ("subu", 0.25),
           ("kill", 3), ("restart", 1))

    def gen_step(self, rng):
        for _ in range(30):
            n = rng.choices([o for o, _ in self.OPS], [w for _, w in self.OPS])[0]
            s = getattr(self, "gen_" + n)(rng)
            if s is not None:
                return [n] + s
        return ["noop"]

    def exec_step(self, step):
        fn = getattr(self, "do_" + str(step[0]), None)
        return fn(*step[1:]) if fn else None

    def gen_start(self, rng):
        if len(self.tasks) >= 5:
            return None
        src = -1
        if self.tasks and rng.random() < 0.5:
            src = rng.randrange(len(self.tasks))
            if not self.inner(self.tasks[src])[0]:
                src = -1
        n = len(self.ops) if src < 0 else len(self.inner(self.tasks[src])[0])
        return [src, self.gen_expr(rng, n)]

    def inner(self, t):
        """Fibers delivered by the current item of a task, with their nodes."""
        if t.cur is None:
            return [], []
        reals, nodes = [], []
        for r, n in zip(self.leaves_real(t.cur[1], t.cur[2]), self.leaves(t.cur[2])):
            if not isinstance(r, Fiber) or n.leaf:
                continue
            reals.append(r)
            nodes.append(S.Node(n.op, n.lv, n.m, r))
        return reals, nodes

    def do_start(self, src, e):
        if len(self.tasks) >= 5:
            return None
        src = int(num(src, -1))
        if src >= 0 and self.tasks:
            reals, nodes = self.inner(self.tasks[src % len(self.tasks)])
            if not reals:
                return None
            self.ctx.probe("nested")
        else:
            nodes = [o.node() for o in self.ops]
            reals = [n.real for n in nodes]
        if reals == [] or nodes[0].leaf:
            return None
        self.pool = [S.Node(n.op, n.lv, n.m, r) for n, r in zip(nodes, reals)]
        x = self.build(e, reals, self.pool)
        t = Task()
        t.fib, t.want, t.k, t.cur, t.expr = x.fib, x.want, -1, None, e
        t.kind = str(e[0]) if isinstance(e, list) and e else "f"
        t.gen = lib("iterate", lambda: iter(x.fib))
        self.tasks.append(t)
        return len(x.want)

    def gen_again(self, rng):
        return [rng.randrange(len(self.tasks))] if self.tasks and len(self.tasks) < 5 else None

    def do_again(self, i):
        """A second iteration of the same lazy fiber while the first is open."""
        if not self.tasks or len(self.tasks) >= 5:
            return None
        o = self.tasks[int(num(i)) % len(self.tasks)]
        t = Task()
        t.fib, t.want, t.k, t.cur, t.expr, t.kind = o.fib, o.want, -1, None, o.expr, o.kind
        t.gen = lib("iterate", lambda: iter(o.fib))
        self.tasks.append(t)
        self.ctx.probe("same-lazy-twice")

    def gen_adv(self, rng):
        return [rng.randrange(len(self.tasks))] if self.tasks else None

    def advance(self, t):
        item = lib_next(f"iterate {t.kind}", t.gen)
        where = f"{t.expr}"
        if item is DONE:
            if t.k + 1 != len(t.want):
                raise Violation("too-few", f"{where} ended after {t.k + 1} of {[c for c, _ in t.want]}", sig="too-few")
            return None
        c, p = item
        t.k += 1
        if t.k >= len(t.want):
            raise Violation("too-many", f"{where} delivered {c} after all of {[c for c, _ in t.want]}")
        wc, wi = t.want[t.k]
        if c != wc or type(c) is not type(wc):
            raise Violation("wrong-coordinate", f"{where} delivered {c}, expected {wc} of {[c for c, _ in t.want]}")
        S.check_item(p, wi, f"{where} at {c}", lambda: S.all_objects(self.ops))
        # defaults must be fresh: no two live ones may be the same object
        self.items += 1
        self.kinds.add(t.kind)
        t.cur = (c, p, wi)
        live = {}
        for j, u in enumerate(self.tasks):
            if u.cur is None:
                continue
            for r, n in zip(self.leaves_real(u.cur[1], u.cur[2]), self.leaves(u.cur[2])):
                if n.real is None and isinstance(r, (Fiber, Payload)):
                    if id(r) in live:
                        raise Violation("default-shared", f"{where} at {c}: one default object was delivered twice")
                    live[id(r)] = 1
        return c

    def do_adv(self, i):
        if not self.tasks:
            return None
        t = self.tasks[int(num(i)) % len(self.tasks)]
        c = self.advance(t)
        if c is None:
            self.tasks.remove(t)
            return "done"
        return [repr(c)]

    def gen_drain(self, rng):
        return self.gen_adv(rng)

    def do_drain(self, i):
        if not self.tasks:
            return None
        t = self.tasks[int(num(i)) % len(self.tasks)]
        n = 0
        while self.advance(t) is not None:
            n += 1
        self.tasks.remove(t)
        return n

    def gen_write(self, rng):
        return [rng.randrange(len(self.tasks)), rng.randrange(4), rng.choice([3, 5, 11, 2.5]),
                rng.choice(["ilshift", "iadd"])] if self.tasks else None

    def do_write(self, i, j, v, how):
        """Through a delivered payload to the operand it came from."""
        if not self.tasks:
            return None
        t = self.tasks[int(num(i)) % len(self.tasks)]
        if t.cur is None:
            return None
        ns = self.leaves(t.cur[2])
        rs = self.leaves_real(t.cur[1], t.cur[2])
        j = int(num(j)) % len(ns)
        n, r = ns[j], rs[j]
        if not n.leaf or n.real is None or n.empty():
            return None
        v = num(v, 1)
        old = n.real.value
        new = v if how == "ilshift" else old + v
        if new == n.op.default:
            return None
        path = self.path_of(n)
        if path is None:
            return None

        def go():
            b = r
            if how == "ilshift":
                b <<= v
            else:
                b += v
        lib("write through a delivered payload", go)
        m = n.op.model
        for c in path[:-1]:
            m = m[c]
        m[path[-1]] = new
        for u in self.tasks:
            for _, w in u.want:
                for q in self.leaves(w):
                    if q.real is n.real:
                        q.m = new
        self.resnap()
        return repr(new)

    def path_of(self, n):
        for p, b in T.walk(n.op.root, n.op.depth):
            if b is n.real:
                return p
        return None

    def gen_wdef(self, rng):
        return [rng.randrange(len(self.tasks)), rng.randrange(4), [rng.randrange(3) for _ in range(2)]] if self.tasks else None

    def do_wdef(self, i, j, pt):
        """Writing into a delivered default must not reach any operand."""
        if not self.tasks:
            return None
        t = self.tasks[int(num(i)) % len(self.tasks)]
        if t.cur is None:
            return None
        ns = self.leaves(t.cur[2])
        rs = self.leaves_real(t.cur[1], t.cur[2])
        j = int(num(j)) % len(ns)
        n, r = ns[j], rs[j]
        # a shorter coordinate may match several times with one and the same default
        if n.real is not None or len({o.tup for o in self.ops}) > 1:
            return None
        if isinstance(r, Payload):
            def go():
                b = r
                b <<= 99
        elif isinstance(r, Fiber) and r.getDefault() is not None and not n.op.tup:
            pt = [abs(int(num(c))) for c in pt] if isinstance(pt, list) else []
            pt = (pt + [0, 0, 0])[:n.op.depth - n.lv]
            def go():
                b = r.getPayloadRef(*pt)
                b <<= 99
        else:
            return None
        # only nests over this very default could notice
        for u in list(self.tasks):
            if u is not t and any(q.real is r for _, w in u.want for q in self.leaves(w)):
                return None
        if isinstance(r, Fiber) and len(self.tasks) > 1:
            return None     # another task may be iterating this default
        lib("write into a delivered default", go)
        t.cur = None
        self.ctx.probe("wrote-into-default")
        return "wrote"

    # -- readers
    def gen_read(self, rng):
        o = rng.randrange(len(self.ops))
        return [o, rng.choice(["start", "start", "pos", "pure"]), rng.randrange(6), rng.randrange(6)]

    def do_read(self, o, how, c, sp):
        o = self.ops[int(num(o)) % len(self.ops)]
        f = o.root
        c = abs(int(num(c))) % 8
        if o.tup:
            c = S.tc(c, o.tup)
        if how == "pure":
            lib("reads", lambda: (len(f), f.isEmpty(), f.countValues(), f == f, repr(f), f.maxCoord()))
            return None
        if not f.coords:
            return None
        sp = abs(int(num(sp))) % len(f.coords)
        while sp > 0 and f.coords[sp] > c:
            sp -= 1
        if how == "start":
            lib("getPayload start_pos", f.getPayload, c, start_pos=sp)
        else:
            lib("getPosition start_pos", f.getPosition, c, start_pos=sp)
        self.ctx.probe("saved-position-moved")
        return None

    # -- the one deviation recorded in known_findings.jsonl
    def gen_subu(self, rng):
        return [rng.randrange(len(self.ops)), rng.randrange(len(self.ops))]

    def do_subu(self, i, j):
        a, b = self.ops[int(num(i)) % len(self.ops)], self.ops[int(num(j)) % len(self.ops)]
        if (a.tup or 1) != (b.tup or 1):
            return None
        na, nb = a.node(), b.node()
        out = {c for c, _ in nb.present()}
        want = [(c, n) for c, n in na.present() if c not in out]
        less = [c for c, n in want if not n.empty()]
        got = lib("a - b", lambda: [c for c, _ in a.root - b.root])
        if got == [c for c, _ in want]:
            return None
        if got == less:
            raise Violation("too-few", f"a - b with a's rank uncompressed delivered {got}, expected "
                                       f"{[c for c, _ in want]}", sig="difference-of-uncompressed-drops-defaults")
        raise Violation("wrong-coordinate", f"a - b delivered {got}, expected {[c for c, _ in want]}")

    # -- faults
    def gen_kill(self, rng):
        return [rng.randrange(len(self.tasks)), rng.choice(["close", "throw", "drop"])] if self.tasks else None

    def do_kill(self, i, how):
        if not self.tasks:
            return None
        t = self.tasks.pop(int(num(i)) % len(self.tasks))
        self.ctx.fault("iteration_" + str(how))
        try:
            if how == "close":
                t.gen.close()
            elif how == "throw":
                t.gen.throw(InjectedFault())
        except (InjectedFault, StopIteration):
            pass

    def gen_restart(self, rng):
        return [rng.choice(["pickle", "deepcopy"])]

    def do_restart(self, how):
        fn = copy.deepcopy if how == "deepcopy" else (lambda o: pickle.loads(pickle.dumps(o)))
        for o in self.ops:
            o.obj = lib("restart", fn, o.obj)
            o.reindex()
        self.tasks = []
        self.attrs0 = [self.attrs(o) for o in self.ops]
        self.resnap()
        self.ctx.fault("restart_" + str(how))

    # ------------------------------------------------------------- oracles
    def check(self):
        for i, o in enumerate(self.ops):
            if o.snap() != self.snaps[i]:
                raise Violation("operand-modified", f"operand {i} changed to {o.root!r}")
            if self.model_content(o) != T.content(o.root, o.depth, o.default):
                raise Violation("operand-value", f"operand {i} holds {T.content(o.root, o.depth, o.default)}, the writes "
                                                 f"so far make it {self.model_content(o)}")

    def model_content(self, o):
        return S.flat(o.model, o.depth, o.default)

    def finish(self):
        # every suspended iteration still finishes correctly
        for t in self.tasks:
            while self.advance(t) is not None:
                pass
        self.tasks = []
        self.check()
        for i, o in enumerate(self.ops):
            if isinstance(o.obj, Tensor):
                T.check_ranks(o.obj, f"operand {i}")
            if self.attrs(o) != self.attrs0[i]:
                raise Violation("operand-attributes", f"operand {i}: {self.attrs0[i]} became {self.attrs(o)}")

    def state_key(self):
        return (tuple(tuple(sorted(self.model_content(o).items())) for o in self.ops),
                tuple((repr(t.expr), t.k) for t in self.tasks))

    def nontrivial(self):
        return self.items >= 4 and len(self.kinds) >= 2

    def close(self):
        self.tasks = []
