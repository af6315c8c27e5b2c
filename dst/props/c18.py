"""C18: format footprints add up from the tree exactly.

Analysts hold Format objects over live tensors and ask for footprints between
the steps of everything C02's world does to those tensors (mutators, suspended
and killed loops, transforms, restarts). Every answer is recomputed from a raw
walk, and asking must not change what is asked about.
"""
from fibertree import Fiber, Metrics, Tensor
from fibertree.model.format import Format

from .. import tree as T
from ..engine import Violation, lib
from ..treesim import ix, num
from . import c02

RUNS = {"quick": 28000, "thorough": 350000}
CHUNK = 70
MAXF = 4
RULE = ("a run is nontrivial when at least two footprints were compared after the tensor changed under a Format object "
        "made earlier; distinct runs are counted by the digest of their event log")
STATE_MEASURE = "distinct (tree pattern, suspended loops, live Format specifications) triples reached after a step"
ASSUMPTIONS = [
    "the occupancy of a fiber is its number of stored elements, the number the statement multiplies by",
    "a rank with tuple coordinates is only given the compressed format (its shape is not a number)",
    "a rank whose id is a list (flattened, not renamed) cannot be a key of a specification and is not queried",
]
FIELDS = ("rhbits", "fhbits", "cbits", "pbits")


class Client:
    __slots__ = ("t", "fmt", "spec", "sdict", "snap", "tup", "depth", "shape", "fresh")


class World(c02.World):
    OPS = (("ref", 9), ("assign", 10), ("append", 4), ("extend", 3), ("setitem", 4),
           ("updateCoords", 1), ("updatePayloads", 1), ("clear", 3), ("insert", 3), ("spawn", 8),
           ("advance", 18), ("cancel", 3), ("setRoot", 2), ("restart", 2), ("transform", 5),
           ("absent", 3), ("compare", 2), ("newfmt", 9), ("query", 40), ("tfmt", 2), ("rename", 3), ("rank0", 1))

    @classmethod
    def gen_config(cls, rng):
        cfg = super().gen_config(rng)
        for tc in cfg["trees"]:
            tc["default"] = rng.choice([0, 0, 0, 3, -1])
        cfg["metrics"] = False
        return cfg

    def __init__(self, cfg, ctx):
        self.clients = []
        self.moved = 0
        super().__init__(cfg, ctx)
        self.declared = {}
        for s, tc in zip(self.slots, cfg["trees"]):
            if tc.get("kind") in ("tensor", "empty", "nest") and tc.get("decl", True) and not s.tup:
                self.declared[id(s.obj)] = (s.obj, list(s.shape))

    # ------------------------------------------------------------- clients
    def gen_spec(self, rng, n):
        s = {"ranks": [], "root": {}}
        for k in ("hbits", "pbits"):
            if rng.random() < 0.6:
                s["root"][k] = rng.choice([0, 1, 32, 64, 1000])
        if rng.random() < 0.15:
            s["root"] = None
        for i in range(n):
            r = {}
            if rng.random() < 0.12:
                s["ranks"].append(None)
                continue
            for j, k in enumerate(FIELDS):
                if rng.random() < 0.75:
                    # widths which identify their field in a sum
                    r[k] = rng.choice([0, 1, 3, 7 ** (j + 1), 10 ** (j + 1), 32])
            if rng.random() < 0.7:
                r["format"] = rng.choice("CUU")
            if rng.random() < 0.4:
                r["layout"] = rng.choice(["contiguous", "interleaved"])
            s["ranks"].append(r)
        return s

    def gen_newfmt(self, rng):
        i = rng.randrange(len(self.slots))
        return [i, self.gen_spec(rng, 4), rng.choice([None, None, 0, 1, 2])]

    def do_newfmt(self, i, spec, share):
        s = self.slots[ix(i, len(self.slots))]
        t = s.obj
        ids = t.getRankIds()
        if any(not isinstance(x, str) for x in ids) or len(set(ids)) < len(ids) or "root" in ids:
            return "unnameable"
        spec = spec if isinstance(spec, dict) else {}
        want, d = {}, {}
        rk = spec.get("ranks") or []
        tup = [self.rank_tup(t, j) for j in range(len(ids))]
        for j, rid in enumerate(ids):
            r = rk[j] if j < len(rk) else None
            w = {k: 0 for k in FIELDS}
            w.update(format="C", layout="contiguous")
            if isinstance(r, dict):
                e = {}
                for k in FIELDS:
                    if k in r:
                        e[k] = w[k] = abs(int(num(r[k])))
                if r.get("format") in ("C", "U"):
                    e["format"] = w["format"] = r["format"] if not tup[j] else "C"
                if r.get("layout") in ("contiguous", "interleaved"):
                    e["layout"] = w["layout"] = r["layout"]
                d[rid] = e
            want[rid] = w
        root = spec.get("root")
        w = {"hbits": 0, "pbits": 0}
        if isinstance(root, dict):
            w.update({k: abs(int(num(v))) for k, v in root.items() if k in w})
            d["root"] = {k: w[k] for k in w if k in root}
        want["root"] = w
        if share is not None and self.clients:
            # a specification dictionary another Format was made from
            o = self.clients[ix(share, len(self.clients))]
            d = o.sdict
            for rid in ids:
                if rid in o.spec:
                    want[rid] = dict(o.spec[rid])
                elif rid in d:
                    return "shared-extra"
                else:
                    want[rid] = {k: 0 for k in FIELDS}
                    want[rid].update(format="C", layout="contiguous")
            want["root"] = dict(o.spec["root"])
            if any(tup[j] and want[rid]["format"] == "U" for j, rid in enumerate(ids)):
                return "tuple rank"
            self.ctx.probe("shared specification dictionary")
        c = Client()
        c.t, c.spec, c.sdict, c.depth = t, want, d, s.depth
        c.fmt = lib("Format()", Format, t, d)
        c.snap = T.snap(t.getRoot())
        self.clients.append(c)
        if len(self.clients) > MAXF:
            self.clients.pop(0)
        for rid in ids:
            w = want[rid]
            got = (c.fmt.getCBits(rid), c.fmt.getPBits(rid), c.fmt.getFHBits(rid), c.fmt.getRHBits(rid), c.fmt.getFormat(rid),
                   c.fmt.getLayout(rid), c.fmt.getElem(rid, "coord"), c.fmt.getElem(rid, "payload"), c.fmt.getElem(rid, "elem"))
            exp = (w["cbits"], w["pbits"], w["fhbits"], w["rhbits"], w["format"], w["layout"], w["cbits"], w["pbits"],
                   w["cbits"] + w["pbits"])
            if got != exp:
                raise Violation("spec-field", f"rank {rid} of specification {spec} reads {got}, expected {exp}")
        return True

    def rank_tup(self, t, j):
        if isinstance(t.ranks[j].getShape(all_ranks=False), tuple):
            return True
        return any(isinstance(c, tuple) for f in T.fibers_by_level(t.getRoot(), len(t.ranks))[j] for c in f.coords)

    # ------------------------------------------------------------- oracle
    def shape_of(self, t, r, f):
        """The shape of a fiber: declared, or what the library estimates."""
        if id(t) in self.declared:
            self.ctx.probe("shape from the declaration")
            return self.declared[id(t)][1][r]
        if f is not None:
            return lib("getShape", f.getShape, all_ranks=False)
        s = lib("getShape", t.ranks[r].getShape, all_ranks=False)
        return 0 if s is None else s        # nothing declared and nothing there

    def fp(self, c, r, f):
        w = c.spec[c.t.getRankIds()[r]]
        if w["format"] == "C":
            n = 0 if f is None else len(f.coords)
        else:
            n = self.shape_of(c.t, r, f)
        return w["fhbits"] + (w["cbits"] + w["pbits"]) * n

    def nonempty(self, f, d, default):
        for p in f.payloads:
            if d == 1:
                if T.unbox(p) != default:
                    return True
            elif self.nonempty(p, d - 1, default):
                return True
        return False

    def sub(self, c, r, f):
        """Footprint of the sub-tree below fiber f (None: an absent one)."""
        total = self.fp(c, r, f)
        last = len(c.t.ranks) - 1
        if r == last:
            return total
        w = c.spec[c.t.getRankIds()[r]]
        default = c.t.getDefault()
        if w["format"] == "C":
            for p in ([] if f is None else f.payloads):
                if self.nonempty(p, last - r, default):
                    total += self.sub(c, r + 1, p)
        else:
            n = self.shape_of(c.t, r, f)
            have = {} if f is None else dict(zip(f.coords, f.payloads))
            for k in range(n):
                total += self.sub(c, r + 1, have.get(k))
        return total

    # ------------------------------------------------------------ queries
    def gen_query(self, rng):
        if not self.clients:
            return None
        k = rng.randrange(len(self.clients))
        c = self.clients[k]
        kind = rng.choice(["fiber", "rank", "tensor", "subtree", "subtree", "subtree", "root"])
        pt = []
        f = c.t.getRoot()
        for _ in range(rng.randint(0, c.depth - (kind == "fiber"))):
            x = None
            if isinstance(f, Fiber) and f.coords and rng.random() < 0.75:
                x = rng.choice(f.coords)
            if not isinstance(x, int):
                x = rng.randint(0, 4)
            pt.append(x)
            f = dict(zip(f.coords, f.payloads)).get(x) if isinstance(f, Fiber) else None
        return [k, kind, pt, rng.randrange(4)]

    def do_query(self, k, kind, pt, r):
        k = ix(k, len(self.clients))
        if k is None:
            return None
        return self.query(self.clients[k], kind, pt, r)

    def query(self, c, kind, pt, r):
        t = c.t
        root = t.getRoot()
        ids = t.getRankIds()
        if set(c.spec) - {"root"} - set(ids) or any(x not in c.spec for x in ids):
            return "renamed"
        tup = [self.rank_tup(t, j) for j in range(len(ids))]
        if any(tup[j] and c.spec[x]["format"] == "U" for j, x in enumerate(ids)):
            return "tuple rank"
        levels = T.fibers_by_level(root, len(ids))
        before = (T.snap(root), [[id(f) for f in lv] for lv in levels], [[id(f) for f in rk.getFibers()] for rk in t.ranks])
        if kind == "rank":
            r = ix(r, len(ids))
            want = c.spec[ids[r]]["rhbits"] + sum(self.fp(c, r, f) for f in levels[r])
            got = lib("getRank", c.fmt.getRank, ids[r])
        elif kind == "tensor":
            want = c.spec["root"]["hbits"] + c.spec["root"]["pbits"] + sum(
                c.spec[x]["rhbits"] + sum(self.fp(c, j, f) for f in levels[j]) for j, x in enumerate(ids))
            got = lib("getTensor", c.fmt.getTensor)
        elif kind == "root":
            want = c.spec["root"]["hbits"] + c.spec["root"]["pbits"]
            got = lib("getRoot", c.fmt.getRoot)
        else:
            pt = [int(num(x)) for x in pt][:len(ids) - (kind == "fiber")] if isinstance(pt, list) else []
            if any(tup[:len(pt)]):
                pt = []
            f = root
            for x in pt:
                f = dict(zip(f.coords, f.payloads)).get(x) if isinstance(f, Fiber) else None
            if pt and f is None:
                self.ctx.probe("query at an absent point")
            if kind == "fiber":
                want = self.fp(c, len(pt), f)
                got = lib("getFiber", c.fmt.getFiber, *pt)
            elif len(pt) == len(ids):
                w = c.spec[ids[-1]]
                want = w["cbits"] + w["pbits"]
                got = lib("getSubTree", c.fmt.getSubTree, *pt)
            else:
                want = self.sub(c, len(pt), f)
                got = lib("getSubTree", c.fmt.getSubTree, *pt)
        if got != want:
            raise Violation("footprint", f"the {kind} footprint{' at ' + str(pt) if kind in ('fiber', 'subtree') else ''} is {got}, "
                            f"the raw tree gives {want} [spec {c.spec}, tree {before[0]}]", sig=f"footprint|{kind}")
        after = (T.snap(root), [[id(f) for f in lv] for lv in T.fibers_by_level(root, len(ids))],
                 [[id(f) for f in rk.getFibers()] for rk in t.ranks])
        if after != before:
            raise Violation("query-changed-tree", f"asking for the {kind} footprint changed the tensor: {before} became {after}",
                            sig=f"query-changed-tree|{kind}")
        self.ctx.probe("query:" + kind)
        for x in ids:
            if c.spec[x]["format"] == "U":
                self.ctx.probe("query with an uncompressed rank")
                break
        if self.tasks:
            self.ctx.probe("query while a loop is suspended")
        if T.snap(root) != c.snap:
            self.moved += 1
        return got

    def do_updateCoords(self, sel, fn, depth, raise_at, new_shape):
        if isinstance(new_shape, int):
            self.declared = {}
        return super().do_updateCoords(sel, fn, depth, raise_at, new_shape)

    def do_setRoot(self, *a):
        self.declared = {}      # a root brings its own shape with it
        return super().do_setRoot(*a)

    # ----------------------------------------------------- configurations
    def gen_tfmt(self, rng):
        return [rng.randrange(len(self.slots)), rng.randrange(4), rng.choice("CU")]

    def do_tfmt(self, i, r, fmt):
        """The tensor's own format has nothing to do with the specification."""
        s = self.slots[ix(i, len(self.slots))]
        ids = s.obj.getRankIds()
        r = ix(r, len(ids))
        if self.rank_tup(s.obj, r):
            return None
        s.obj.setFormat(ids[r], "U" if fmt == "U" else "C")
        return True

    def gen_rank0(self, rng):
        return [rng.choice([0, 0, 5]), rng.choice([None, {}, {"hbits": 7}, {"pbits": 9}, {"pbits": 4, "hbits": 100}])]

    def do_rank0(self, v, root):
        """A tensor without ranks is its root payload."""
        t = lib("fromUncompressed", Tensor.fromUncompressed, [], num(v)) if num(v) else lib("Tensor(rank 0)", Tensor, rank_ids=[])
        root = {k: abs(int(num(b))) for k, b in root.items() if k in ("hbits", "pbits")} if isinstance(root, dict) else None
        f = lib("Format()", Format, t, {} if root is None else {"root": dict(root)})
        want = sum((root or {}).values())
        for what, got in (("getRoot", lib("getRoot", f.getRoot)), ("getTensor", lib("getTensor", f.getTensor))):
            if got != want:
                raise Violation("rank0", f"{what} of a tensor without ranks is {got}, want {want}")
        return True

    def gen_rename(self, rng):
        return [rng.randrange(len(self.slots))]

    def do_rename(self, i):
        s = self.slots[ix(i, len(self.slots))]
        ids = s.obj.getRankIds()
        if all(isinstance(x, str) for x in ids):
            return None
        new = [x if isinstance(x, str) else "R%d" % n for n, x in enumerate(ids)]
        lib("setRankIds", s.obj.setRankIds, new)
        for c in self.clients:
            if c.t is s.obj:
                self.clients.remove(c)
                break
        return new

    def check(self):
        pass

    def finish(self):
        for c in self.clients:
            for r in range(len(c.t.ranks)):
                self.query(c, "rank", [], r)
            self.query(c, "tensor", [], 0)
            self.query(c, "subtree", [], 0)

    def state_key(self):
        return super().state_key(), tuple((tuple(c.t.getRankIds()[0:1]), tuple(w.get("format") for w in c.spec.values()))
                                          if isinstance(c.t.getRankIds()[0], str) else 0 for c in self.clients)

    def nontrivial(self):
        return self.moved >= 2

    def close(self):
        super().close()
        self.clients = []
