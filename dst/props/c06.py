"""C06: kernel results do not depend on the dataflow used to compute them.

Client programs computing one expression, each with its own dataflow (loop
order, tiling, intersection style), run as suspended tasks over shared
operands: the scheduler interleaves them loop body by loop body, kills them
half-way, starts them again into a fresh output, and lets readers move search
state on the shared operands. Every program that finishes must have produced
the dense result.
"""
from fibertree import Fiber

from .. import kernels as K
from .. import tree as T
from ..engine import BaseWorld, DONE, Violation, lib, lib_next
from ..streams import num
from ..treesim import ix

RUNS = {"quick": 18000, "thorough": 250000}
CHUNK = 40
MAXEV = 400000
RULE = ("a run is nontrivial when a kernel finished with a non-empty result after another kernel was advanced in between; "
        "distinct runs are counted by the digest of their event log")
STATE_MEASURE = "distinct tuples of (dataflow shape, position) of the live kernels after a step"
ASSUMPTIONS = [
    "kernels follow the library idiom: intersection over the factors, populate for output ranks, in-place update at the leaf",
    "leader-follower kernels filter zero products, as the statement says",
    "operand values are small integers and halves, so sums are exact in any order",
]


class Task:
    __slots__ = ("flow", "z", "gen", "n", "cfg", "others")


class World(BaseWorld):
    @classmethod
    def gen_config(cls, rng):
        return {"expr": K.gen_expr(rng), "share": rng.random() < 0.8, "n_steps": rng.randint(6, 30)}

    def __init__(self, cfg, ctx):
        super().__init__(cfg, ctx)
        self.expr = K.Expr(cfg["expr"] if isinstance(cfg.get("expr"), dict) else {})
        self.want = self.expr.dense()
        self.share = bool(cfg.get("share"))
        self.cache = {}
        self.tasks = []
        self.done = 0
        self.mixed = False

    def gen_step(self, rng):
        if not self.tasks or (len(self.tasks) < 3 and rng.random() < 0.25):
            return ["spawn", K.gen_flow(rng, self.expr)]
        r = rng.random()
        k = rng.randrange(len(self.tasks))
        if r < 0.08:
            return ["kill", k, rng.choice(["close", "drop"]), rng.random() < 0.6]
        if r < 0.2:
            return ["read", k, rng.randrange(3), rng.randrange(5), rng.choice(["get", "position", "iter", "eq"])]
        return ["run", k, rng.choice([1, 1, 2, 3, 5, 10, 200])]

    def exec_step(self, step):
        op, a = step[0], step[1:]
        if op == "spawn":
            return self.spawn(a[0] if a else {})
        k = ix(a[0] if a else 0, len(self.tasks))
        if k is None:
            return None
        if op == "run":
            return self.advance(k, max(0, int(num(a[1] if len(a) > 1 else 1, 1))))
        if op == "kill":
            t = self.tasks.pop(k)
            self.ctx.fault("kernel_" + ("close" if len(a) > 1 and a[1] == "close" else "drop"))
            if len(a) > 1 and a[1] == "close":
                t.gen.close()
            if len(a) > 2 and a[2]:
                self.spawn(t.cfg)
                self.ctx.fault("kernel_restart")
            return "killed"
        if op == "read":
            return self.read(k, *(a[1:4] + [0, 0, "get"])[:3])
        return None

    def spawn(self, cfg):
        if len(self.tasks) >= 4:
            return "full"
        t = Task()
        t.cfg = cfg
        t.flow = K.Flow(cfg, self.expr)
        t.z = t.flow.output()
        t.gen = K.run(t.flow, self.cache if self.share else {}, t.z)
        t.n = 0
        t.others = False
        self.tasks.append(t)
        self.ctx.probe("style:" + t.flow.style)
        if t.flow.tiles:
            self.ctx.probe("tiled kernel")
        if not t.flow.split_first:
            self.ctx.probe("swizzled before tiling")
        self.ctx.probe("operands:%d" % max(len(x) for x in self.expr.tops))
        self.ctx.probe("output rank count:%d" % len(self.expr.out))
        return t.flow.loops_all

    def advance(self, k, n):
        t = self.tasks[k]
        for x in self.tasks:
            if x is not t and x.n:
                x.others = True
        for _ in range(n):
            ev = lib_next("kernel", t.gen)
            t.n += 1
            if ev is DONE:
                return self.complete(t)
            if t.n > MAXEV:
                raise Violation("no-progress", f"a kernel of dataflow {t.cfg} executed more than {MAXEV} loop bodies")
        return t.n

    def complete(self, t):
        self.tasks.remove(t)
        got = t.flow.result(t.z)
        if got != self.want:
            raise Violation("wrong-result", f"the kernel with loops {t.flow.loops_all} (tiles {t.flow.tiles}, {t.flow.style}) computed "
                            f"{got}, the dense result is {self.want} [output ranks {t.flow.zranks}]", sig="wrong-result")
        self.done += 1
        if t.others and self.want:
            self.mixed = True
            self.ctx.probe("kernel finished after being interleaved")
        return "done"

    def read(self, k, op, c, how):
        """A reader of a shared operand between two loop bodies."""
        t = self.tasks[k]
        i = ix(op, len(self.expr.ops))
        x = t.flow.prepare(i, self.cache if self.share else {})
        c = int(num(c))
        f = x.getRoot()
        self.ctx.probe("operand read between loop bodies")
        if how == "get":
            lib("getPayload", f.getPayload, c)
        elif how == "position":
            if f.coords:
                f.setSavedPos(c % len(f.coords))
            lib("getPosition", f.getPosition, c)
        elif how == "iter":
            for n, (cc, p) in enumerate(f):
                if n >= c:
                    break
        else:
            if not (x == x):
                raise Violation("operand-unequal", "an operand does not equal itself")
        return None

    def finish(self):
        while self.tasks:
            n = 0
            # fault-free tail: round robin until everything is finished
            for k in reversed(range(len(self.tasks))):
                self.advance(k, 7)
                n += 1

    def state_key(self):
        return tuple((tuple(t.flow.loops_all), t.flow.style, tuple(sorted(t.flow.tiles.items())), t.n) for t in self.tasks)

    def nontrivial(self):
        return self.mixed

    def close(self):
        self.tasks = []
