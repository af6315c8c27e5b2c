"""C01: fibertrees stay well-formed under every history of public mutations."""
from fibertree import Fiber

from .. import tree as T
from ..treesim import TreeWorld

RUNS = {"quick": 40000, "thorough": 500000}
CHUNK = 100
RULE = ("a run is nontrivial when it executed at least three mutators on real trees; distinct runs are "
        "counted by the digest of their event log")
STATE_MEASURE = ("distinct (coordinates and zero/non-zero pattern of every tree, kind and progress of every "
                 "suspended loop, depths of the held references) triples reached after a step")
ASSUMPTIONS = [
    "payload arguments have the depth of the rank they are written to",
    "trees of unowned fibers have depth at most 2 and declare Fiber as interior default",
]


class World(TreeWorld):
    OPS = (("ref", 10), ("posref", 4), ("assign", 14), ("append", 6), ("extend", 5), ("setitem", 7),
           ("updateCoords", 5), ("updatePayloads", 4), ("clear", 2), ("insert", 3), ("spawn", 7),
           ("advance", 22), ("cancel", 3), ("setRoot", 1), ("construct", 2), ("restart", 1))

    @classmethod
    def gen_config(cls, rng):
        trees = []
        owned = rng.random() < 0.6
        depth = rng.randint(1, 3) if owned else rng.randint(1, 2)
        shape = T.rand_shape(rng, depth, 5)
        for i in range(2):
            if owned and (i == 0 or rng.random() < 0.6):
                kind = rng.choice(["tensor", "tensor", "tensor", "empty", "nest", "random", "populated"])
            else:
                kind = "fiber"
            d = depth if kind != "fiber" or depth <= 2 else 2
            trees.append({"kind": kind, "depth": d, "shape": shape[:d],
                          "decl": rng.random() < 0.7, "tup": rng.random() < 0.15 and i == 0,
                          "plan": T.rand_plan(rng, d, shape, rng.choice([0.3, 0.6, 0.9])),
                          "default": 0, "seed": rng.randrange(1000)})
        return {"trees": trees, "n_steps": rng.randint(6, 36)}

    def check(self):
        for i, s in enumerate(self.slots):
            T.check_wellformed(s.root, s.depth, f"tree{i}")
        for h in self.handles:
            if isinstance(h.obj, Fiber):
                T.check_wellformed(h.obj, h.depth, "handle")
