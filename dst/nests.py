"""Loop nests over fibertrees, with an executable model of what they do.

A nest is a list of levels; each level co-iterates the fibers the operands
have at that rank with some expression (intersections, unions, differences,
projections, range and shape iteration, populate) and the innermost body
executes payload operations. `Real` runs it on the library as a generator
that yields at every loop body, so that a scheduler can stop, kill or
interleave it. `model()` runs it on plain lists and says what must come out:
the result, the payload operation counts, the loop bodies and, for every
trace, the coordinates and positions of its rows in order.
"""
import itertools
from collections import Counter

from fibertree import Fiber, Metrics, Payload, Tensor
from fibertree.core.coord_payload import CoordPayload

from . import streams as S
from . import tree as T
from .engine import DONE, Violation, lib, lib_next
from .streams import num

RANKS = ["M", "K", "N"]
# what the library is told the ranks are called: names which contain each
# other, as tiling makes them, and names which look like something else
NAMESETS = [RANKS, ["K1", "K", "K0"], ["K.1", "K.0", "K"], ["1", "10", "0"], ["m i", "N_x", "iter"], ["abc", "b", "ab"]]
CO2 = ["and", "or", "xor", "sub", "nary", "lf", "union"]
MODES = ["iter", "occ", "range", "active", "shape", "rangeshape", "ref"]


class MF:
    """A model fiber: sorted [coord, child] pairs; child is an MF or a number."""

    __slots__ = ("items", "depth", "shape", "fmts")

    def __init__(self, plan, depth, shape, fmts):
        self.depth, self.shape, self.fmts = depth, shape, fmts
        self.items = []
        for c, p in plan:
            if depth > 1:
                p = MF(p, depth - 1, shape[1:], fmts[1:])
            self.items.append([c, p])

    def blank(self):
        return MF([], self.depth - 1, self.shape[1:], self.fmts[1:]) if self.depth > 1 else 0

    def empty(self):
        return all((p.empty() if self.depth > 1 else p == 0) for _, p in self.items)

    def index(self, c):
        return sum(1 for x, _ in self.items if x < c)

    def get(self, c):
        for x, p in self.items:
            if x == c:
                return p
        return None

    def has(self, c):
        return any(x == c for x, _ in self.items)

    def put(self, c, p):
        self.items.insert(self.index(c), [c, p])

    def drop(self, c):
        self.items = [e for e in self.items if e[0] != c]

    def live(self, p):
        return not p.empty() if self.depth > 1 else p != 0

    def content(self, prefix=()):
        out = {}
        for c, p in self.items:
            if self.depth > 1:
                out.update(p.content(prefix + (c,)))
            elif p != 0:
                out[prefix + (c,)] = p
        return out


class Level:
    __slots__ = ("rank", "expr", "ops", "pop", "mode", "lo", "hi", "step", "touch")


def rename(x, names):
    """The configuration speaks of M, K and N; give the ranks their names."""
    to = dict(zip(("M", "K", "N"), names))
    if isinstance(x, dict):
        return {to.get(k, k): rename(v, names) for k, v in x.items()}
    if isinstance(x, list):
        return [rename(v, names) for v in x]
    return to.get(x, x) if isinstance(x, str) else x


class Prog:
    """cfg: {shape: {rank: n}, order: [rank], ops: [{ranks, plan, fmts, src}], out, zplan, zshape, zfmt,
    levels: [{expr, mode, lo, hi, step, touch}], body: [[op, i, j]]}"""

    def __init__(self, cfg):
        cfg = cfg if isinstance(cfg, dict) else {}
        RANKS = NAMESETS[abs(int(num(cfg.get("names", 0)))) % len(NAMESETS)]
        cfg = rename(cfg, RANKS)
        d = lambda x: x if isinstance(x, dict) else {}
        li = lambda x: x if isinstance(x, list) else []
        sh = d(cfg.get("shape"))
        self.shape = {r: max(1, min(40, int(num(sh.get(r, 3), 3)))) for r in RANKS}
        # a flattened rank: its coordinates are pairs, w to the row
        self.tup = {r: max(1, min(4, int(num(w)))) for r, w in d(cfg.get("tup")).items() if r in RANKS and num(w)}
        order = [r for r in li(cfg.get("order")) if r in RANKS]
        order = list(dict.fromkeys(order)) or RANKS[:1]
        ops = []
        for oc in li(cfg.get("ops"))[:3]:
            oc = d(oc)
            rs = [r for r in order if r in li(oc.get("ranks"))]
            if rs:
                s = [self.shape[r] for r in rs]
                fm = [("U" if f == "U" else "C") for f in li(oc.get("fmts"))][:len(rs)]
                fm += ["C"] * (len(rs) - len(fm))
                fm = ["C" if r in self.tup else f for r, f in zip(rs, fm)]
                plan = S.clip(T.norm_plan(oc.get("plan") or [], len(rs)), s)
                src = oc.get("src") if oc.get("src") in rs else None
                ops.append({"ranks": rs, "plan": plan, "fmts": fm, "src": src, "shape": s,
                            "kind": oc.get("kind")})
        if not ops:
            ops = [{"ranks": [order[0]], "plan": [], "fmts": ["C"], "src": None, "shape": [self.shape[order[0]]], "kind": None}]
        self.ops = ops
        # which operands are still there at each level
        alive = set(range(len(ops)))
        self.levels = []
        lcs = li(cfg.get("levels"))
        for n, r in enumerate(order):
            lc = d(lcs[n]) if n < len(lcs) else {}
            here = [k for k in sorted(alive) if r in ops[k]["ranks"]]
            if not here:
                # operands below this rank cannot be reached, they were built for the full order
                continue
            lv = Level()
            lv.rank = r
            lv.expr, dead = self._expr(lc.get("expr"), here, r)
            lv.ops = here
            lv.mode = lc.get("mode") if lc.get("mode") in MODES else "iter"
            if r in self.tup and lv.mode not in ("occ", "range", "active"):
                lv.mode = "iter"
            lv.lo = max(0, min(40, int(num(lc.get("lo", 0)))))
            lv.hi = max(0, min(40, int(num(lc.get("hi", self.shape[r]), self.shape[r]))))
            lv.step = max(1, min(4, int(num(lc.get("step", 1), 1))))
            lv.touch = [t for t in li(lc.get("touch")) if isinstance(t, list) and t][:3]
            lv.pop = False
            alive -= dead
            self.levels.append(lv)
        if not self.levels:
            self.__init__({})
            return
        self.alive = sorted(alive)
        rs = [lv.rank for lv in self.levels]
        for o in ops:
            # a rank whose level vanished would leave the operand unreachable
            o["ok"] = all(r in rs for r in o["ranks"])
        out = [r for r in li(cfg.get("out")) if r in rs]
        self.out = [r for r in rs if r in out]
        for lv in self.levels:
            lv.pop = lv.rank in self.out
            if lv.pop or lv.expr[0] != "op":
                lv.mode = "iter"
        zs = [self.shape[r] for r in self.out]
        self.zplan = S.clip(T.norm_plan(cfg.get("zplan") or [], len(zs)), zs) if zs else []
        # a second destination: z << (y << source)
        self.two = bool(zs) and isinstance(cfg.get("yplan"), list)
        self.yplan = S.clip(T.norm_plan(cfg["yplan"], len(zs)), zs) if self.two else []
        self.zdecl = bool(cfg.get("zdecl", True))
        self.zfmt = "U" if cfg.get("zfmt") == "U" and not self.tup else "C"
        self.body = [b for b in li(cfg.get("body")) if isinstance(b, list) and b and isinstance(b[0], str)][:6]
        self.elems = abs(int(num(cfg.get("elems", 0))))
        self.ranks = rs

    # An expression node is one of
    #   ["op", k]  ["proj", k, offset, lo, hi]  ["prune", node, mod]  ["reg"|..., node, node...]
    def _expr(self, e, here, r):
        used, dead = [], set()

        def ucomp(k):
            return self.ops[k]["fmts"][self.ops[k]["ranks"].index(r)] == "U"

        def build(x):
            if not isinstance(x, list) or not x:
                return None
            op = x[0]
            if op in ("op", "proj"):
                if not here:
                    return None
                k = int(num(x[1])) if len(x) > 1 else 0
                k = k if k in here else here[k % len(here)]
                if k in used:
                    return None
                used.append(k)
                if op == "proj" and not ucomp(k):
                    off = int(num(x[2])) if len(x) > 2 else 0
                    iv = None
                    if len(x) > 4 and x[3] is not None and x[4] is not None:
                        iv = (int(num(x[3])), int(num(x[4])))
                        if iv == (0, 0) or iv[0] > iv[1]:
                            iv = None
                    return ["proj", k, max(0, min(5, off)), iv, bool(len(x) > 5 and x[5])]
                return ["op", k]
            if op == "prune":
                y = build(x[1] if len(x) > 1 else None)
                if y is None or any(ucomp(k) for k in leaves(y)):
                    return y
                return ["prune", y, max(1, int(num(x[2] if len(x) > 2 else 1, 1)))]
            if op in CO2:
                kids = [y for y in (build(y) for y in x[1:4]) if y]
                if not kids:
                    return None
                if len(kids) == 1:
                    return kids[0]
                if op == "sub" and any(ucomp(k) for y in kids for k in leaves(y)):
                    op = "and"
                if op == "lf" and any(y[0] != "op" for y in kids[1:]):
                    op = "and"
                if op in ("nary", "union") and any(not single(y) for y in kids):
                    op = "and"
                if op in ("and", "or", "xor", "sub"):
                    y = kids[0]
                    for z in kids[1:]:
                        if op == "sub":
                            dead.update(leaves(z))
                        y = [op, y, z]
                    return y
                return [op] + kids
            return None
        y = build(e)
        if y is None:
            used.clear()
            dead.clear()
            y = build(["op", here[0]])
        for k in here:
            if k not in used:
                used.append(k)
                y = ["and", y, ["op", k]]
        return y, dead

    # ------------------------------------------------------------ building
    def K(self, r, n):
        """The library's coordinate for the model's number."""
        w = self.tup.get(r)
        return (n // w, n % w) if w and n is not None else n

    def inv(self, r, c):
        return c[0] * self.tup[r] + c[1] if isinstance(c, tuple) and r in self.tup else c

    def conj(self, r, fn):
        return (lambda c: self.K(r, fn(self.inv(r, c)))) if r in self.tup else fn

    def tshape(self, r):
        """The shape of a rank as the library is told it."""
        w = self.tup.get(r)
        return (-(-self.shape[r] // w), w) if w else self.shape[r]

    def tplan(self, plan, rs):
        return [[list(self.K(rs[0], c)) if rs[0] in self.tup else c, self.tplan(p, rs[1:]) if len(rs) > 1 else p]
                for c, p in plan]

    def names(self, k):
        """The operand's rank ids: its own name for the rank it is projected from."""
        o = self.ops[k]
        proj = {lv.rank for lv in self.levels if any(n[0] == "proj" and n[1] == k for n in nodes(lv.expr))}
        return [("Q" + r if r in proj and o["src"] == r else r) for r in o["ranks"]]

    def build(self):
        out = []
        for k, o in enumerate(self.ops):
            t = T.build_tensor(self.tplan(o["plan"], o["ranks"]), len(o["ranks"]), [self.tshape(r) for r in o["ranks"]], 0, rank_ids=self.names(k), name="op%d" % k)
            for r, f in zip(self.names(k), o["fmts"]):
                if f == "U":
                    t.setFormat(r, "U")
            out.append(t)
        return out

    def build_out(self, plan, name):
        sh = [self.tshape(r) for r in self.out] if self.zdecl else None
        if plan:
            return T.build_tensor(self.tplan(plan, self.out), len(self.out), sh, 0, rank_ids=list(self.out), name=name)
        return Tensor(rank_ids=list(self.out), shape=sh, name=name)

    def build_y(self):
        return self.build_out(self.yplan, "Y") if self.two else None

    def build_z(self):
        if not self.out:
            return Tensor(rank_ids=[], name="Z")
        z = self.build_out(self.zplan, "Z")
        if self.zfmt == "U" and self.zdecl:
            z.setFormat(self.out[-1], "U")
        return z

    def trace_names(self):
        """Every (rank, type) the nest can emit."""
        out = []
        for lv in self.levels:
            out.append((lv.rank, "iter"))
            out += lv_traces(self, lv)
            for t in lv.touch:
                if t[0] in ("get", "ref") and lv.mode == "iter":
                    out.append((lv.rank, "T" + str(t[0])))
        return out


def leaves(e):
    if e[0] in ("op", "proj"):
        return [e[1]]
    if e[0] == "prune":
        return leaves(e[1])
    out = []
    for x in e[1:]:
        out += leaves(x)
    return out


def nodes(e):
    yield e
    if e[0] == "prune":
        yield from nodes(e[1])
    elif e[0] not in ("op", "proj"):
        for x in e[1:]:
            yield from nodes(x)


def single(e):
    """Does the expression deliver one payload, not a tuple?"""
    return e[0] in ("op", "proj") or (e[0] in ("prune", "sub") and single(e[1]))


def first(e):
    return leaves(e)[0]


def lv_traces(prog, lv):
    """Labels in the order the operators are entered."""
    cnt = [0]
    out = []

    def lab(r):
        cnt[0] += 1
        return str(cnt[0] - 1)

    def walk(e):
        if e[0] == "and":
            out.append((lv.rank, "intersect_" + lab(lv.rank)))
            out.append((lv.rank, "intersect_" + lab(lv.rank)))
            walk(e[1])
            walk(e[2])
        elif e[0] == "or":
            out.append((lv.rank, "union_" + lab(lv.rank)))
            out.append((lv.rank, "union_" + lab(lv.rank)))
            walk(e[1])
            walk(e[2])
        elif e[0] in ("xor", "sub"):
            walk(e[1])
            walk(e[2])
        elif e[0] in ("nary", "union"):
            y = e[1]
            for z in e[2:]:
                y = ["and" if e[0] == "nary" else "or", y, z]
            walk(y)
        elif e[0] == "lf":
            for _ in e[1:]:
                out.append((lv.rank, "intersect_" + lab(lv.rank)))
            walk(e[1])
        elif e[0] == "prune":
            walk(e[1])
        elif e[0] == "proj":
            o = prog.ops[e[1]]
            r = prog.names(e[1])[o["ranks"].index(lv.rank)]
            out.append((r, "project_" + lab(r)))
    if lv.pop:
        a, b = lab(lv.rank), lab(lv.rank)
        out += [(lv.rank, "populate_read_" + a), (lv.rank, "populate_write_" + a), (lv.rank, "populate_" + b)]
        if prog.two:
            a, b = lab(lv.rank), lab(lv.rank)
            out += [(lv.rank, "populate_read_" + a), (lv.rank, "populate_write_" + a), (lv.rank, "populate_" + b)]
    walk(lv.expr)
    return out


# ----------------------------------------------------------------- the model

class Row:
    """An expected row: coordinates, the set of acceptable positions (None: not judged),
    the bodies it belongs to, the number of bodies begun before it."""

    __slots__ = ("coords", "pos", "parent", "body", "after")

    def __init__(self, coords, pos, parent, body=None, after=None):
        self.coords, self.pos, self.parent, self.body, self.after = coords, pos, parent, body, after

    def __repr__(self):
        return f"{self.coords}@{self.pos}"


class Expect:
    def __init__(self):
        self.rows = {}          # (rank, type) -> [Row]
        self.loose = set()      # destination-side traces of an inserting populate
        self.need = {}          # (rank, type) -> coordinates that must appear (loose traces)
        self.moved = {}         # (rank, write type) -> elements an inserting populate moved at its end
        self.bodies = []        # (level index, coords)
        self.ops = {"mul": 0, "add": 0, "update": 0}
        self.z = self.y = None
        self.started = set()    # ranks reached
        self.inserting = 0


class Stop(Exception):
    pass


def model(prog, limit=None):
    """Run the nest on plain lists. limit: stop on entering that many bodies."""
    ex = Expect()
    mops = [MF(o["plan"], len(o["ranks"]), o["shape"], o["fmts"]) for o in prog.ops]
    zs = [prog.shape[r] for r in prog.out]
    z = MF(prog.zplan, len(zs), zs, ["C"] * len(zs)) if zs else Box(0)
    ex.z = z
    ex.y = MF(prog.yplan, len(zs), zs, ["C"] * len(zs)) if prog.two else None

    def row(rank, type_, coords, pos, parent, body=None):
        ex.rows.setdefault((rank, type_), []).append(Row(coords, pos, parent, body, len(ex.bodies)))

    def present(f, own):
        """(coord, child, acceptable positions) in order."""
        if f.fmts[0] == "U":
            for i, c in enumerate(range(f.shape[0])):
                p = f.get(c)
                yield c, (f.blank() if p is None else p), {i, c, f.index(c)}
        else:
            for i, (c, p) in enumerate(f.items):
                if f.live(p):
                    yield c, p, {i}

    def expr(e, st, lv, pt, parent, cnt):
        """Generator of (coord, {op: child}, positions, lazy)."""
        def lab():
            n = cnt.get("", 0)
            cnt[""] = n + 1
            return str(n)
        op = e[0]
        if op == "op":
            for c, p, pos in present(st[e[1]], e[1]):
                yield c, {e[1]: p}, pos
        elif op == "proj":
            o = prog.ops[e[1]]
            r = prog.names(e[1])[o["ranks"].index(lv.rank)]
            ty = "project_" + lab()
            n = 0
            elems = present(st[e[1]], e[1])
            if e[4]:
                elems = reversed(list(elems))
            for c, p, pos in elems:
                c2 = o["shape"][o["ranks"].index(lv.rank)] - 1 + e[2] - c if e[4] else c + e[2]
                if e[3] is not None and c2 >= e[3][1]:
                    break
                if e[3] is None or c2 >= e[3][0]:
                    row(r, ty, pt + (c,), pos, parent)
                    yield c2, {e[1]: p}, {n}
                    n += 1
        elif op == "prune":
            n = 0
            for i, (c, d, pos) in enumerate(expr(e[1], st, lv, pt, parent, cnt)):
                if i % e[2] == 0:
                    yield c, d, {n}
                    n += 1
        elif op in ("and", "or", "xor", "sub"):
            ta = tb = None
            if op in ("and", "or"):
                nm = "intersect_" if op == "and" else "union_"
                ta, tb = nm + lab(), nm + lab()
            a = expr(e[1], st, lv, pt, parent, cnt)
            b = expr(e[2], st, lv, pt, parent, cnt)
            x, y = next(a, None), next(b, None)

            def rec(t, v):
                if t:
                    row(lv.rank, t, pt + (v[0],), v[2], parent)
            n = 0
            while x is not None and y is not None:
                if x[0] == y[0]:
                    rec(ta, x)
                    rec(tb, y)
                    if op in ("and", "or"):
                        yield x[0], {**x[1], **y[1]}, {n}
                        n += 1
                    x, y = next(a, None), next(b, None)
                elif x[0] < y[0]:
                    rec(ta, x)
                    if op != "and":
                        yield x[0], {**x[1], **blanks(e[2], st)} if op != "sub" else x[1], {n}
                        n += 1
                    x = next(a, None)
                else:
                    rec(tb, y)
                    if op in ("or", "xor"):
                        yield y[0], {**blanks(e[1], st), **y[1]}, {n}
                        n += 1
                    y = next(b, None)
            if op == "and":
                if x is not None:
                    rec(ta, x)
                if y is not None:
                    rec(tb, y)
                return
            while x is not None:
                rec(ta, x)
                yield x[0], ({**x[1], **blanks(e[2], st)} if op != "sub" else x[1]), {n}
                n += 1
                x = next(a, None)
            while y is not None and op != "sub":
                rec(tb, y)
                yield y[0], {**blanks(e[1], st), **y[1]}, {n}
                n += 1
                y = next(b, None)
        elif op in ("nary", "union"):
            y = e[1]
            for w in e[2:]:
                y = ["and" if op == "nary" else "or", y, w]
            yield from expr(y, st, lv, pt, parent, cnt)
        elif op == "lf":
            tys = ["intersect_" + lab() for _ in e[1:]]
            for n, (c, d, pos) in enumerate(expr(e[1], st, lv, pt, parent, cnt)):
                row(lv.rank, tys[0], pt + (c,), pos, parent)
                d = dict(d)
                for ty, w in zip(tys[1:], e[2:]):
                    f = st[w[1]]
                    p = f.get(c)
                    row(lv.rank, ty, pt + (c,), {f.index(c), c} if p is not None and f.fmts[0] == "U"
                        else ({f.index(c)} if p is not None else None), parent)
                    d[w[1]] = f.blank() if p is None else p
                yield c, d, {n}

    def blanks(e, st):
        return {k: st[k].blank() for k in leaves(e)}

    def iterate(lv, st, pt, parent, cnt):
        """The level's expression under its iteration mode."""
        if lv.mode in ("iter", "active") and lv.expr[0] == "op":
            f = st[lv.expr[1]]
            if lv.mode == "active" and f.fmts[0] == "U":
                f = MFview(f)
            yield from expr(lv.expr, {lv.expr[1]: f}, lv, pt, parent, cnt)
        elif lv.expr[0] == "op" and lv.mode != "iter":
            k = lv.expr[1]
            f = st[k]
            if lv.mode in ("occ", "range"):
                for i, (c, p) in enumerate(f.items):
                    if f.live(p) and (lv.mode == "occ" or lv.lo <= c < lv.hi):
                        yield c, {k: p}, {i}
            else:
                lo, hi, step = (0, f.shape[0], 1) if lv.mode != "rangeshape" else (lv.lo, lv.hi, lv.step)
                for i, c in enumerate(range(lo, hi, step)):
                    p = f.get(c)
                    if p is None and lv.mode == "ref":
                        p = f.blank()
                        f.put(c, p)
                    yield c, {k: f.blank() if p is None else p}, \
                        ({f.index(c)} | ({c, i} if f.fmts[0] == "U" else set())) if f.has(c) else None
        else:
            yield from expr(lv.expr, st, lv, pt, parent, cnt)

    class Dest:
        """One populate of a level."""

        def __init__(self, lv, f, k):
            self.lv, self.f, self.first, self.inserting, self.udst = lv, f, None, False, False
            self.tr, self.tw, self.tb = f"populate_read_{k}", f"populate_write_{k}", f"populate_{k + 1}"
            if k == 0:
                self.udst = prog.zfmt == "U" and prog.zdecl and lv.rank == prog.out[-1]

        def offer(self, n, c, pt, pos, parent):
            lv, f = self.lv, self.f
            row(lv.rank, self.tb, pt + (c,), pos, parent)
            if n == 0 and f.items:
                self.inserting = c < f.items[-1][0] and not self.udst
                if self.inserting:
                    ex.loose |= {(lv.rank, self.tr), (lv.rank, self.tw)}
                    ex.inserting += 1
            old = f.get(c)
            self.new = old is None
            if self.new:
                old = f.blank()
                f.put(c, old)
            else:
                row(lv.rank, self.tr, pt + (c,), {f.index(c)}, parent)
                ex.need.setdefault((lv.rank, self.tr), []).append(pt + (c,))
            return old if f.depth > 1 else Cell(f, c)

        def settle(self, c, pt, parent):
            lv, f = self.lv, self.f
            p = f.get(c)
            if (f.depth == 1 and p == 0) or (f.depth > 1 and self.new and p.empty()):
                f.drop(c)
                return
            row(lv.rank, self.tw, pt + (c,), {f.index(c)}, parent)
            ex.need.setdefault((lv.rank, self.tw), []).append(pt + (c,))
            if self.inserting and self.new and self.first is None:
                self.first = c

        def end(self, pt):
            if self.first is not None:
                ex.moved.setdefault((self.lv.rank, self.tw), []).extend(
                    pt + (c,) for c, p in self.f.items if c >= self.first and self.f.live(p))

    def level(i, st, zf, yf, pt, parent, outer=()):
        if i == len(prog.levels):
            leaf(st, zf, yf)
            return
        lv = prog.levels[i]
        ex.started.add(lv.rank)
        cnt = {}
        zd = yd = None
        if lv.pop:
            zd, cnt[""] = Dest(lv, zf, 0), 2
            if prog.two:
                yd, cnt[""] = Dest(lv, yf, 2), 4
        for n, (c, d, pos) in enumerate(iterate(lv, st, pt, parent, cnt)):
            body = (i, len(ex.bodies))
            zref, yref = zf, yf
            if yd:
                yref = yd.offer(n, c, pt, pos, parent)
                pos = {n}
            if zd:
                zref = zd.offer(n, c, pt, pos, parent)
            ex.bodies.append((i, pt + (c,)))
            # a populate's rows come from one generator around the source: ordinal position
            row(lv.rank, "iter", pt + (c,), {n} if lazy(lv) else pos, parent, body[1])
            if limit is not None and len(ex.bodies) >= limit:
                raise Stop()
            up = outer + ((lv, st, c, pt),)
            for lv2, st2, c2, pt2 in up:
                for t in lv2.touch:
                    if lv2 is lv or deep(t):
                        touch(lv2, t, st2, c2, pt2, body[1])
            nst = dict(st)
            nst.update(d)
            level(i + 1, nst, zref, yref, pt + (c,), body[1], up)
            for x in (zd, yd):
                if x:
                    x.settle(c, pt, parent)
        for x in (zd, yd):
            if x:
                x.end(pt)

    def touch(lv, t, st, c, pt, body):
        """A traced or untraced look-up in the loop body."""
        if t[0] in ("get", "ref") and lv.mode == "iter":
            k = lv.ops[0]
            f = st[k]
            if prog.names(k)[prog.ops[k]["ranks"].index(lv.rank)] != lv.rank or not isinstance(f, MF):
                return
            x = away(prog, t, c)
            if t[0] == "ref" and not f.has(x):
                return
            row(lv.rank, "T" + t[0], pt + (x,), {f.index(x)} if f.has(x) and f.fmts[0] == "C" else None, body, body)

    def leaf(st, zf, yf):
        vals = [st[k] for k in prog.alive if not isinstance(st[k], MF)]
        run_body(prog, vals, zf, ex, yf)

    if limit is not None and limit <= 0:
        return ex
    try:
        level(0, dict(enumerate(mops)), z, ex.y, (), None)
    except Stop:
        pass
    return ex


class MFview(MF):
    def __init__(self, f):
        self.depth, self.shape, self.fmts, self.items = f.depth, f.shape, ["C"] + list(f.fmts[1:]), f.items


class Cell:
    """A reference to a leaf of a model fiber."""

    def __init__(self, f, c):
        self.f, self.c = f, c

    def get(self):
        return self.f.get(self.c)

    def set(self, v):
        for e in self.f.items:
            if e[0] == self.c:
                e[1] = v


class Box:
    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


def lazy(lv):
    return lv.pop or lv.expr[0] != "op"


BIG = 10 ** 9


def run_body(prog, vals, z, ex, y=None):
    """The leaf body on numbers."""
    n = ex.ops
    z0 = z
    for b in prog.body:
        z = y if y is not None and len(b) > 3 and b[3] else z0
        op, i, j = b[0], num(b[1] if len(b) > 1 else 0), num(b[2] if len(b) > 2 else 1)
        if op in ("acc", "imul", "set", "isub", "accc"):
            v = j if op == "accc" or not vals else vals[int(i) % len(vals)]
            old = z.get()
            if op in ("acc", "accc"):
                n["update"] += 1
                n["add"] += 1 if old != 0 else 0
                z.set(old + v)
            elif op == "imul":
                if abs(old) < BIG:
                    n["mul"] += 1
                    n["update"] += 1
                    z.set(old * v)
            elif op == "set":
                n["update"] += 1
                z.set(v)
            else:
                z.set(old - v)
        elif vals and op in ("mul", "muls", "rmul", "add", "adds", "radd", "sub", "lt"):
            a, b2 = vals[int(i) % len(vals)], vals[int(j) % len(vals)]
            if op in ("mul", "muls", "rmul"):
                if abs(a) < BIG and abs(b2) < BIG:
                    n["mul"] += 1
                    vals.append(a * b2 if op == "mul" else a * j)
            elif op in ("add", "adds", "radd"):
                n["add"] += 1
                vals.append(a + b2 if op == "add" else a + j)
            elif op == "sub":
                vals.append(a - b2)


# ------------------------------------------------------------------ the real thing

class Rec:
    def __init__(self, prog):
        self.y = prog.build_y()
        self.ops = {"mul": 0, "add": 0, "update": 0}
        self.bodies = []        # (level, coords, stamp or None)


def raw(x):
    return T.unbox(x.payload if isinstance(x, CoordPayload) else x)


def real_body(prog, vals, z, rec, y=None):
    n = rec.ops
    vals = list(vals)
    el = prog.elems          # operands and destination as elements (CoordPayload)
    if el:
        vals = [CoordPayload(k, v) if k % 2 == el % 2 else v for k, v in enumerate(vals)]
        if el > 2:
            z = CoordPayload(0, z)
            y = None if y is None else CoordPayload(0, y)
    z0 = z
    for b in prog.body:
        z = y if y is not None and len(b) > 3 and b[3] else z0
        op, i, j = b[0], num(b[1] if len(b) > 1 else 0), num(b[2] if len(b) > 2 else 1)
        if op in ("acc", "imul", "set", "isub", "accc"):
            v = j if op == "accc" or not vals else vals[int(i) % len(vals)]
            old = raw(z)
            if op in ("acc", "accc"):
                n["update"] += 1
                n["add"] += 1 if old != 0 else 0
                z += v
            elif op == "imul":
                if abs(old) < BIG:
                    n["mul"] += 1
                    n["update"] += 1
                    z *= v
            elif op == "set":
                n["update"] += 1
                z <<= v
            else:
                z -= v
        elif vals and op in ("mul", "muls", "rmul", "add", "adds", "radd", "sub", "lt"):
            a, b2 = vals[int(i) % len(vals)], vals[int(j) % len(vals)]
            if op in ("mul", "muls", "rmul"):
                if abs(raw(a)) < BIG and abs(raw(b2)) < BIG:
                    n["mul"] += 1
                    vals.append(a * b2 if op == "mul" else (a * j if op == "muls" else j * a))
            elif op in ("add", "adds", "radd"):
                n["add"] += 1
                vals.append(a + b2 if op == "add" else (a + j if op == "adds" else j + a))
            elif op == "sub":
                vals.append(a - b2)
            else:
                a < b2


def combine(prog, lv, e, cur):
    op = e[0]
    if op == "op":
        return cur[e[1]]
    if op == "proj":
        off, iv = e[2], e[3]
        fn = lambda x: x + off
        if e[4]:
            top = prog.shape[lv.rank] - 1 + off
            fn = lambda x: top - x
        kw = {"coord_ex": (0, 0)} if lv.rank in prog.tup else {}
        iv = iv and (prog.K(lv.rank, iv[0]), prog.K(lv.rank, iv[1]))
        return lib("project", cur[e[1]].project, trans_fn=prog.conj(lv.rank, fn), interval=iv, rank_id=lv.rank, **kw)
    kids = [combine(prog, lv, x, cur) for x in (e[1:2] if op == "prune" else e[1:])]
    if op == "prune":
        m = e[2]
        return lib("prune", kids[0].prune, lambda i, c, p: i % m == 0)
    if op == "and":
        return lib("&", lambda: kids[0] & kids[1])
    if op == "or":
        return lib("|", lambda: kids[0] | kids[1])
    if op == "xor":
        return lib("^", lambda: kids[0] ^ kids[1])
    if op == "sub":
        return lib("-", lambda: kids[0] - kids[1])
    if op == "nary":
        return lib("intersection", Fiber.intersection, *kids)
    if op == "union":
        return lib("union", Fiber.union, *kids)
    return lib("intersection(leader-follower)", Fiber.intersection, *kids, style="leader-follower")


def take(e, p):
    """The operand payloads in a delivered payload."""
    p = S.unwrap(p)
    op = e[0]
    if op in ("op", "proj"):
        return {e[1]: p}
    if op in ("prune", "sub"):
        return take(e[1], p)
    out = {}
    for x, q in zip(e[1:], p[1:] if op in ("or", "xor", "union") else p):
        out.update(take(x, q))
    return out


def start(prog, lv, cur, zf, yf):
    e = combine(prog, lv, lv.expr, cur)
    for f in (yf, zf) if lv.pop else ():
        if f is not None:
            e = lib("<<", lambda f=f, e0=e: f << e0)
    m = lv.mode
    if m == "iter":
        return lib("iter", iter, e)
    if m == "occ":
        return lib("iterOccupancy", e.iterOccupancy)
    if m == "range":
        return lib("iterRange", e.iterRange, prog.K(lv.rank, lv.lo), prog.K(lv.rank, lv.hi))
    if m == "active":
        return lib("iterActive", e.iterActive)
    if m == "shape":
        return lib("iterShape", e.iterShape)
    if m == "rangeshape":
        return lib("iterRangeShape", e.iterRangeShape, lv.lo, lv.hi, lv.step)
    return lib("iterShapeRef", e.iterShapeRef)


def real(prog, tens, z, rec):
    """The nest on the library: a generator which stops at every loop body."""
    root = z.getRoot()
    for r in sorted(prog.tup) if Metrics.isCollecting() else []:
        lib("associateShape", Metrics.associateShape, r, prog.tshape(r))
        lib("associateShape", Metrics.associateShape, "Q" + r, prog.tshape(r))
    yield from _level(prog, 0, {k: t.getRoot() for k, t in enumerate(tens)}, root, rec.y and rec.y.getRoot(), (), rec, tens)


def deep(t):
    """A look-up of an outer loop's body which the bodies inside it repeat."""
    return t[0] in ("get", "ref") and len(t) > 2 and bool(t[2])


def away(prog, t, c):
    """The coordinate a traced look-up is for: not always the one the loop is at."""
    return c if prog.tup else max(0, c + int(num(t[1])) if len(t) > 1 else c)


def _level(prog, i, cur, zf, yf, pt, rec, tens, outer=()):
    if i == len(prog.levels):
        vals = [cur[k] for k in prog.alive if not isinstance(cur[k], Fiber)]
        lib("loop body", real_body, prog, vals, zf, rec, yf)
        return
    lv = prog.levels[i]
    it = start(prog, lv, cur, zf, yf)
    while True:
        item = lib_next("loop over " + lv.rank, it)
        if item is DONE:
            return
        c, p = item
        raw, c = c, prog.inv(lv.rank, c)
        zn, yn = zf, yf
        if lv.pop:
            zn, p = S.unwrap(p)
            if yf is not None:
                yn, p = S.unwrap(p)
        nxt = dict(cur)
        nxt.update(take(lv.expr, p))
        rec.bodies.append((i, pt + (c,), list(Metrics.getIter()) if Metrics.isCollecting() else None))
        yield (i, pt + (c,))
        up = outer + ((lv, cur, raw),)
        for lv2, cur2, raw2 in up:
            for t in lv2.touch:
                if lv2 is lv or deep(t):
                    _touch(prog, lv2, t, cur2, raw2, tens)
        yield from _level(prog, i + 1, nxt, zn, yn, pt + (c,), rec, tens, up)


def _touch(prog, lv, t, cur, c, tens):
    k = lv.ops[0]
    f = cur[k]
    x = num(t[1]) if len(t) > 1 else 0
    if t[0] in ("get", "ref"):
        c = away(prog, t, c)
    if t[0] == "get" and lv.mode == "iter":
        if prog.names(k)[prog.ops[k]["ranks"].index(lv.rank)] == lv.rank and isinstance(f, Fiber):
            lib("getPayload(trace=)", f.getPayload, c, trace="Tget")
    elif t[0] == "ref" and lv.mode == "iter":
        if prog.names(k)[prog.ops[k]["ranks"].index(lv.rank)] == lv.rank and isinstance(f, Fiber) and c in f.coords:
            lib("getPayloadRef(trace=)", f.getPayloadRef, c, trace="Tref")
    elif t[0] == "peek" and isinstance(f, Fiber):
        peek(prog, lv, f, t[2] if len(t) > 2 else None, int(x))
    elif t[0] == "look":
        lib("getPayload", f.getPayload, prog.K(lv.rank, int(x) % 8))
    elif t[0] == "scratch":
        g = Fiber([1, 4], [1, 2], shape=9)
        lib("getPayloadRef", g.getPayloadRef, int(x) % 8)
    elif t[0] == "xform":
        a = tens[int(x) % len(tens)]
        how = t[2] if len(t) > 2 else "split"
        if how == "split" and not prog.tup:
            lib("splitUniform", a.splitUniform, 2)
        elif how == "swizzle":
            lib("swizzleRanks", a.swizzleRanks, list(reversed(a.getRankIds())))
        elif how == "flatten" and len(a.getRankIds()) > 1:
            lib("flattenRanks", a.flattenRanks)
        elif how == "equal":
            lib("splitEqual", a.splitEqual, 2)
        elif how == "eq":
            lib("==", lambda: a == a)
        elif how == "str":
            lib("str", str, a)
        elif how == "count":
            lib("countValues", a.countValues)


PEEKS = ["occ", "shape", "range", "active", "actshape", "rev", "len", "getshape", "estshape", "empty", "nonempty", "minmax",
         "depth", "dict", "copy", "repr", "index", "attrs", "prune", "values", "pos", "shaperef", "rangeshape",
         "lenlazy", "unowned"]


def peek(prog, lv, f, how, x):
    """Looks at a fiber without being part of the nest: nothing may come of it."""
    tup = bool(prog.tup)

    def go():
        if how == "occ":
            list(f.iterOccupancy(tick=False))
        elif how == "shape" and not tup:
            for _ in f.iterShape(tick=False):
                if x % 2:
                    break
        elif how == "range" and not tup:
            list(f.iterRange(x % 3, 5, tick=False))
        elif how == "active" and not tup:
            list(f.iterActive(tick=False))
        elif how == "actshape" and not tup:
            list(f.iterActiveShape(tick=False))
        elif how == "rev":
            list(reversed(f))
        elif how == "len":
            len(f)
        elif how == "getshape":
            f.getShape()
        elif how == "estshape":
            f.estimateShape()
        elif how == "empty":
            f.isEmpty()
        elif how == "nonempty":
            f.nonEmpty()
        elif how == "minmax":
            f.minCoord(), f.maxCoord()
        elif how == "depth":
            f.getDepth()
        elif how == "dict":
            f.fiber2dict()
        elif how == "copy":
            f.copy()
        elif how == "repr":
            repr(f), str(f)
        elif how == "index" and f.coords:
            f[x % len(f.coords)]
        elif how == "attrs":
            f.getRankAttrs(), f.getActive(), f.getDefault(), f.getOwner()
        elif how == "prune":
            list(f.prune(lambda i, c, p: i % 2 == 0).iterOccupancy(tick=False))
        elif how == "values":
            f.countValues()
        elif how == "shaperef" and f.coords and not tup:
            c = f.coords[x % len(f.coords)]
            list(f.iterRangeShapeRef(c, c + 1, tick=False))
        elif how == "rangeshape" and not tup:
            list(f.iterRangeShape(x % 3, 4, tick=False))
        elif how == "lenlazy":
            len(f.prune(lambda i, c, p: i % 2 == 0))
        elif how == "unowned":
            g = Fiber([0, 2], [Fiber([1], [5], shape=4), Fiber([0], [1], shape=4)], shape=3)
            g.getShape(), g.copy(), g == g, g.countValues()
        elif how == "pos" and f.coords:
            f.getPosition(f.coords[x % len(f.coords)])
    lib("peek " + str(how), go)


# ------------------------------------------------------------------ judging

def parse(text):
    """Rows of a trace file: (header, [[ints]])."""
    lines = text.split("\n")
    if lines[-1] != "":
        raise Violation("torn-row", f"the trace ends in an unterminated line: {lines[-1]!r}")
    lines = lines[:-1]
    if not lines:
        return None, []
    try:
        return lines[0].split(","), [[int(x) for x in ln.split(",")] for ln in lines[1:]]
    except ValueError:
        raise Violation("row-format", f"a trace holds a row that is not numbers: {[ln for ln in lines[1:] if not ln.replace(',', '').replace('-', '').isdigit()][:2]}")


def level_of(prog, rank):
    return prog.ranks.index(rank[1:] if rank.startswith("Q") else rank)


def check_rows(prog, ex, rec, rank, type_, header, rows, full, what):
    """One trace against the model. full: the nest ran to its end."""
    key = (rank, type_)
    if header is None and not rows and not ex.rows.get(key):
        return
    i = level_of(prog, rank)
    order = prog.ranks[:i + 1]
    want = ex.rows.get(key, [])
    name = f"{what} {rank}-{type_}"
    kind = type_.rstrip("0123456789").rstrip("_")
    if header is None:
        if rows or (full and want):
            raise Violation("no-header", f"{name}: {len(want)} accesses, but the trace is empty", sig=f"no-header|{kind}")
        return
    good = [r + "_pos" for r in order] + order + ["fiber_pos"]
    if header != good:
        raise Violation("header", f"{name}: header {header}, want {good}", sig=f"header|{kind}")
    n = i + 1
    prev = None
    for k, r in enumerate(rows):
        if len(r) != 2 * n + 1:
            raise Violation("row-width", f"{name}: row {k} is {r}", sig=f"row-width|{kind}")
        st = r[:n]
        if prev is not None and (st < prev or (st == prev and type_ == "iter")):
            raise Violation("stamp-order", f"{name}: row {k} has stamp {st} after {prev}", sig=f"stamp-order|{kind}")
        prev = st
    if key in ex.loose:
        got = Counter(tuple(r[n:2 * n]) for r in rows)
        need = Counter(ex.need.get(key, []) if full else [])
        if full and kind == "populate_write":
            need += Counter(ex.moved.get(key, []))
        for c in need:
            if got[c] < need[c]:
                raise Violation("incomplete", f"{name}: {got[c]} rows for {c}, want {need[c]}", sig=f"incomplete|{kind}")
        return
    bad = len(rows) != len(want) if full else len(rows) > len(want)
    for k, (r, w) in enumerate(zip(rows, want)):
        c = tuple(r[n:2 * n])
        if c != w.coords:
            raise Violation("row-coords", f"{name}: row {k} is for {c}, the access was to {w.coords}; rows {rows[:12]}, want {want[:12]}",
                            sig=f"row-coords|{kind}")
        if w.pos is not None and r[2 * n] not in w.pos:
            raise Violation("row-position", f"{name}: row {k} for {c} has position {r[2 * n]}, want {sorted(w.pos)}; rows {rows[:12]}, want {want[:12]}",
                            sig=f"row-position|{kind}")
        if rec is not None:
            if w.parent is not None and w.parent < len(rec.bodies) and rec.bodies[w.parent][2] is not None:
                p = rec.bodies[w.parent][2]
                if r[:i] != p[:i]:
                    raise Violation("stamp-prefix", f"{name}: row {k} for {c} has stamp {r[:n]}, the enclosing body ran at {p}",
                                    sig=f"stamp-prefix|{kind}")
            if w.body is not None and w.body < len(rec.bodies) and rec.bodies[w.body][2] is not None:
                p = rec.bodies[w.body][2]
                if r[:n] != p[:n]:
                    raise Violation("stamp-body", f"{name}: row {k} for {c} has stamp {r[:n]}, its body ran at {p}",
                                    sig=f"stamp-body|{kind}")
            # the bodies before and after the access bound its iteration stamp
            for b, before in ((w.after - 1, True), (w.after, False)):
                if not 0 <= b < len(rec.bodies) or rec.bodies[b][2] is None:
                    continue
                j, _, p = rec.bodies[b]
                if before and type_ == "populate_write_2" and (rank, "populate_read_0") in ex.loose:
                    continue    # the other destination's search took iterations since the stamp was saved
                m = min(n, j + 1)
                if (r[:m] < p[:m]) if before else (r[:m] > p[:m]):
                    raise Violation("stamp-time", f"{name}: row {k} for {c} has stamp {r[:n]}, but the body {'before' if before else 'after'} it "
                                    f"ran at {p}", sig=f"stamp-time|{kind}")
    if bad:
        raise Violation("row-count", f"{name}: {len(rows)} rows, want {len(want)}; rows {rows[:14]}, want {want[:14]}",
                        sig=f"row-count|{kind}")


# --------------------------------------------------------------- generators

def gen_prog(rng, deep=True):
    nl = rng.choice([1, 1, 2, 2, 2, 3])
    order = rng.sample(RANKS, nl)
    shape = {r: rng.choice([1, 2, 3, 3, 4, 5, 6]) for r in RANKS}
    if rng.random() < 0.04:
        shape = {r: min(3, n) for r, n in shape.items()}
        shape[rng.choice(order)] = rng.choice([rng.randint(9, 16), rng.randint(17, 40)])
    nops = rng.choice([1, 2, 2, 2, 3, 3])
    ops = []
    canon = rng.random() < 0.5
    for k in range(nops):
        rs = [r for r in order if rng.random() < 0.75] or [rng.choice(order)]
        sh = [shape[r] for r in rs]
        plan = [] if rng.random() < 0.05 else T.rand_plan(
            rng, len(rs), sh, density=rng.choice([0.3, 0.6, 0.6, 0.9]), p_zero=0 if canon else 0.15,
            p_empty=0 if canon else 0.12, values=lambda r: r.choice([1, 2, 3, -1, -2, 5]))
        oc = {"ranks": rs, "plan": plan}
        if rng.random() < 0.12:
            oc["fmts"] = [rng.choice("CU") for _ in rs]
        if rng.random() < 0.7:
            oc["src"] = rng.choice(rs)
        ops.append(oc)
    for r in order:
        if not any(r in o["ranks"] for o in ops):
            o = rng.choice(ops)
            o["ranks"] = [x for x in order if x in o["ranks"] or x == r]
            sh = [shape[x] for x in o["ranks"]]
            o["plan"] = T.rand_plan(rng, len(o["ranks"]), sh, density=0.6, p_zero=0 if canon else 0.15,
                                    p_empty=0 if canon else 0.12, values=lambda r: r.choice([1, 2, 3, -1, -2, 5]))
            o.pop("fmts", None)
    levels = []
    for r in order:
        here = [k for k, o in enumerate(ops) if r in o["ranks"]]
        rng.shuffle(here)

        def leaf(k):
            x = ["op", k]
            if rng.random() < 0.12:
                x = ["proj", k, rng.randint(0, 3)] + ([rng.randint(0, 3), rng.randint(2, 7)] if rng.random() < 0.4 else [None, None])
                x.append(rng.random() < 0.3)
            if rng.random() < 0.06:
                x = ["prune", x, rng.choice([1, 2, 2, 3])]
            return x
        ks = [leaf(k) for k in here]
        if len(ks) == 1:
            e = ks[0]
        elif len(ks) == 2:
            e = [rng.choice(["and", "and", "and", "or", "or", "xor", "sub", "nary", "lf", "union"])] + ks
        else:
            if rng.random() < 0.5:
                e = [rng.choice(["nary", "lf", "union"])] + ks
            else:
                a = [rng.choice(["and", "and", "or", "xor", "sub"]), ks[0], ks[1]]
                w = rng.choice(["and", "and", "or", "sub"])
                e = [w, a, ks[2]] if rng.random() < 0.5 else [w, ks[2], a]
        lv = {"expr": e}
        if rng.random() < 0.35:
            lv["mode"] = rng.choice(MODES)
            lv["lo"], lv["hi"], lv["step"] = rng.randint(0, 2), rng.randint(1, 7 if max(shape.values()) <= 8 else 41), rng.choice([1, 1, 2])
        if rng.random() < 0.3:
            lv["touch"] = [rng.choice([["get", rng.choice([0, 0, 1, -1, 3]), rng.random() < 0.4],
                                       ["look", rng.randrange(8)], ["scratch", rng.randrange(8)],
                                       ["ref", rng.choice([0, 0, 1, -1]), rng.random() < 0.4], ["peek", rng.randrange(4), rng.choice(PEEKS)], ["peek", rng.randrange(4), rng.choice(PEEKS)],
                                       ["xform", rng.randrange(3), rng.choice(["split", "swizzle", "flatten", "equal", "eq", "str", "count"])]])]
        levels.append(lv)
    out = [r for r in order if rng.random() < 0.45]
    zs = [shape[r] for r in order if r in out]
    zplan = T.rand_plan(rng, len(zs), zs, density=rng.choice([0.3, 0.6]), p_zero=0 if canon else 0.1, p_empty=0) \
        if zs and rng.random() < 0.45 else []
    body = []
    elems = rng.randint(1, 4) if rng.random() < 0.15 else 0
    for _ in range(rng.choice([0, 0, 1, 2])):
        body.append([rng.choice(["mul", "mul", "muls", "rmul", "add", "adds", "radd", "sub", "lt"]), rng.randrange(4), rng.randrange(4)])
    body.append([rng.choice(["acc", "acc", "acc", "set", "accc"]), rng.choice([0, 1, 2, 3, 3]), rng.randint(1, 3)])
    if rng.random() < 0.2:
        body.append([rng.choice(["imul", "isub", "acc", "set"]), rng.randrange(3), 2])
    if rng.random() < 0.08:
        body = []
    two = {}
    if zs and rng.random() < 0.25:
        two["yplan"] = T.rand_plan(rng, len(zs), zs, density=rng.choice([0.3, 0.6]), p_zero=0 if canon else 0.1, p_empty=0) \
            if rng.random() < 0.5 else []
        if body and rng.random() < 0.8:
            body.append([rng.choice(["acc", "set", "accc", "imul"]), rng.choice([0, 1, 2, 3]), rng.randint(1, 3), 1])
        elif body:
            body[-1] = (body[-1] + [0])[:3] + [1]
    return {**two, "shape": shape, "order": order, "ops": ops, "levels": levels, "out": out, "zplan": zplan,
            "zdecl": rng.random() < 0.75, "zfmt": rng.choice("CCCCU"), "body": body, "elems": elems,
            "names": rng.randrange(1, len(NAMESETS)) if rng.random() < 0.2 else 0,
            "tup": {rng.choice(order): rng.choice([1, 2, 2, 3])} if rng.random() < 0.1 else {}}
