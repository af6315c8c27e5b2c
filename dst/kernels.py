"""Sum-of-products kernels written in the library's idiom, as suspended tasks.

An expression is Z[out] = sum over terms of the product of the term's
operands, summed over the indices not in `out`. A dataflow says how it is
computed: loop order, uniform tilings, intersection style, zero filter. The
kernel is a generator which yields at every loop body, so a scheduler can
interleave several kernels over shared operands, kill them and start them
again.
"""
import copy
import itertools
import math

from fibertree import Fiber, Payload, Tensor
from fibertree.core.coord_payload import CoordPayload

from . import streams as S
from . import tree as T
from .engine import lib, lib_next, DONE
from .streams import num

VARS = "JKMN"
STYLES = ["and", "and-right", "nary", "lf"]


class Expr:
    """cfg: {shape: {var: n}, out: [var], terms: [[{vars, plan, kind}]]}"""

    def __init__(self, cfg):
        self.shape = {v: max(1, min(290, int(num((cfg.get("shape") or {}).get(v, 2), 2)))) for v in VARS}
        if math.prod(self.shape.values()) > 4000:
            self.shape = {v: min(24, n) for v, n in self.shape.items()}
        self.terms = []
        for tc in cfg.get("terms") or []:
            ops = []
            for oc in tc if isinstance(tc, list) else []:
                vs = []
                for v in oc.get("vars") or []:
                    if v in self.shape and v not in vs:
                        vs.append(v)
                if vs:
                    ops.append((vs, oc))
            if ops:
                self.terms.append(ops[:3])
        if not self.terms:
            self.terms = [[(["K"], {"plan": []})]]
        common = [v for v in VARS if all(any(v in vs for vs, _ in ops) for ops in self.terms)]
        self.out = []
        for v in cfg.get("out") or []:
            if v in common and v not in self.out:
                self.out.append(v)
        self.ops = []        # (vars, plan, kind, fmts), flattened over terms
        self.tops = []       # per term: indices into self.ops
        for ops in self.terms:
            ix = []
            for vs, oc in ops:
                sh = [self.shape[v] for v in vs]
                plan = S.clip(T.norm_plan(oc.get("plan") or [], len(vs)), sh)
                ix.append(len(self.ops))
                fm = [("U" if f == "U" else "C") for f in oc.get("fmts") or []][:len(vs)]
                self.ops.append((vs, plan, oc.get("kind"), fm + ["C"] * (len(vs) - len(fm))))
            self.tops.append(ix)
        self.content = [T.plan_content(p, len(vs)) for vs, p, _, _ in self.ops]

    def vars_of(self, term):
        vs = []
        for i in self.tops[term]:
            for v in self.ops[i][0]:
                if v not in vs:
                    vs.append(v)
        return sorted(vs)

    def dense(self, upto=None):
        """The dense evaluation of the expression: point in `out` order -> value."""
        z = {}
        for t in range(len(self.tops) if upto is None else upto):
            vs = self.vars_of(t)
            for pt in itertools.product(*[range(self.shape[v]) for v in vs]):
                at = dict(zip(vs, pt))
                p = 1
                for i in self.tops[t]:
                    p = p * self.content[i].get(tuple(at[v] for v in self.ops[i][0]), 0)
                k = tuple(at[v] for v in self.out)
                z[k] = z.get(k, 0) + p
        return {k: v for k, v in z.items() if v != 0}

    def build(self, i):
        """A fresh tensor for operand i."""
        vs, plan, kind, fm = self.ops[i]
        sh = [self.shape[v] for v in vs]
        if kind == "nest":
            t = lib("fromUncompressed", Tensor.fromUncompressed, list(vs), nest(plan, sh), shape=sh)
        else:
            t = T.build_tensor(plan, len(vs), sh, 0, rank_ids=list(vs), name="op%d" % i)
        for v, f in zip(vs, fm):
            if f == "U":
                t.setFormat(v, "U")
        return t


def nest(plan, shape):
    d = {c: p for c, p in plan}
    if len(shape) == 1:
        return [d.get(c, 0) for c in range(shape[0])]
    return [nest(d.get(c, []), shape[1:]) for c in range(shape[0])]


class Flow:
    """cfg: {keys: [..], tiles: [[var, step, relative, level]], style, filter, ztile, split_first, form, pfmt, zfmt}

    pfmt / zfmt: ranks of the prepared operands / of the output which are
    declared uncompressed.
    """

    def __init__(self, cfg, expr):
        cfg = cfg if isinstance(cfg, dict) else {}
        self.expr = expr
        self.style = cfg.get("style") if cfg.get("style") in STYLES else "and"
        self.filter = bool(cfg.get("filter"))
        self.split_first = bool(cfg.get("split_first", True))
        self.form = cfg.get("form")
        self.decl = bool(cfg.get("decl", True))
        self.tiles = {}
        for e in cfg.get("tiles") or []:
            if isinstance(e, list) and e and e[0] in expr.shape:
                step = max(1, int(num(e[1] if len(e) > 1 else 2, 2)))
                step2 = int(num(e[3])) if len(e) > 3 else 0
                rel = bool(e[2]) if len(e) > 2 else False
                self.tiles[e[0]] = (step, rel, step2 if 0 < step2 and not rel else 0)
        zt = cfg.get("ztile") or []
        self.ztile = {v for v in expr.out if v in self.tiles and (self.tiles[v][1] or v in zt)}
        keys = [num(k) for k in cfg.get("keys") or []]
        ranks = []
        for v in VARS:
            ranks += self.ranks_of(v)
        keys += [0] * (len(ranks) - len(keys))
        self.loops_all = [r for _, _, r in sorted((k, n, r) for n, (k, r) in enumerate(zip(keys, ranks)))]
        zr = set()
        for v in expr.out:
            zr |= set(self.ranks_of(v)) if v in self.ztile else {self.ranks_of(v)[-1]}
        self.zloops = [r for r in self.loops_all if r in zr]
        self.zranks = [self.zname(r) for r in self.zloops]
        self.pfmt = {r for r in self.loops_all if r in (cfg.get("pfmt") or [])
                     and not ("." in r and max(expr.shape.values()) > 8)}     # keeps the dense loops affordable
        self.zfmt = [r for r in self.zranks if r in (cfg.get("zfmt") or [])]

    def ranks_of(self, v):
        if v not in self.tiles:
            return [v]
        if self.tiles[v][2]:
            return [v + ".1", v + ".0.1", v + ".0.0"]
        return [v + ".1", v + ".0"]

    def zname(self, r):
        v = r[0]
        return v if v in self.tiles and v not in self.ztile else r

    def loops(self, term):
        vs = set(self.expr.vars_of(term))
        return [r for r in self.loops_all if r[0] in vs]

    def prepare(self, i, cache=None):
        """Operand i tiled and swizzled for this dataflow."""
        vs = self.expr.ops[i][0]
        key = (i, self.split_first, tuple(r for r in self.loops_all if r[0] in vs),
               tuple((v, self.tiles[v]) for v in vs if v in self.tiles),
               tuple(sorted(r for r in self.pfmt if r[0] in vs)))
        if cache is not None and key in cache:
            return cache[key]
        t = cache[i] if cache is not None and i in cache else self.expr.build(i)
        if cache is not None:
            cache[i] = t
        want = [r for r in self.loops_all if r[0] in vs]
        if not self.split_first:
            pre = sorted(vs, key=lambda v: min(n for n, r in enumerate(want) if r[0] == v))
            if pre != vs:
                t = lib("swizzleRanks", t.swizzleRanks, pre)
        for v in vs:
            if v in self.tiles:
                step, rel, step2 = self.tiles[v]
                kw = {"relativeCoords": True} if rel else {}
                t = lib("splitUniform", t.splitUniform, step, rankid=v, **kw)
                if step2:
                    t = lib("splitUniform", t.splitUniform, step2, rankid=v + ".0")
        if t.getRankIds() != want:
            t = lib("swizzleRanks", t.swizzleRanks, want)
        if key[-1]:
            t = lib("deepcopy", copy.deepcopy, t)
            for r in key[-1]:
                t.setFormat(r, "U")
        if cache is not None:
            cache[key] = t
        return t

    def output(self):
        if not self.zranks:
            return lib("Tensor()", Tensor, rank_ids=[], name="Z")
        sh = [self.expr.shape[r[0]] for r in self.zranks] if self.decl else None
        z = lib("Tensor()", Tensor, rank_ids=list(self.zranks), shape=sh, name="Z")
        for r in self.zfmt:
            z.setFormat(r, "U")
        return z

    def result(self, z):
        """The output's content by logical point, from a raw walk."""
        root = z.getRoot()
        if not self.zranks:
            v = T.unbox(root)
            return {(): v} if v != 0 else {}
        out = {}
        for pt, box in T.walk(root, len(self.zranks)):
            v = T.unbox(box)
            if v == 0:
                continue
            at = {}
            for r, c in zip(self.zranks, pt):
                x = r[0]
                if x in self.ztile:
                    rel = self.tiles[x][1]
                    if rel:
                        at[x] = at.get(x, 0) + c
                    elif r == self.ranks_of(x)[-1]:
                        at[x] = c
                else:
                    at[x] = c
            k = tuple(at[x] for x in self.expr.out)
            out[k] = out.get(k, 0) + v
        return {k: v for k, v in out.items() if v != 0}


def flatten(p, n):
    """The n operand payloads of a delivered, possibly nested, tuple."""
    p = S.unwrap(p)
    if isinstance(p, tuple):
        out = []
        for x in p:
            out += flatten(x, n)
        return out
    return [p]


class Record:
    """What a kernel executed: loop bodies per rank and payload operations."""

    def __init__(self):
        self.bodies = {}
        self.mul = self.add = self.update = 0


def run(flow, cache, z, rec=None, start=0, on_loop=None, on_end=None):
    """The kernel as a generator: yields (rank or 'leaf', coordinates)."""
    rec = rec or Record()
    for term in range(start, len(flow.expr.tops)):
        ops = flow.expr.tops[term]
        tens = [flow.prepare(i, cache) for i in ops]
        loops = flow.loops(term)
        opr = [list(t.getRankIds()) for t in tens]
        yield from nest_loop(flow, loops, opr, [t.getRoot() for t in tens], z.getRoot(), 0, (), rec)
        yield ("term", term)


def coiterate(style, fs):
    if len(fs) == 1:
        return fs[0]
    if len(fs) == 2 and style != "lf" and style != "nary":
        return lib("&", lambda: fs[0] & fs[1])
    if style == "and":
        return lib("&", lambda: (fs[0] & fs[1]) & fs[2])
    if style == "and-right":
        return lib("&", lambda: fs[0] & (fs[1] & fs[2]))
    if style == "nary":
        return lib("intersection", Fiber.intersection, *fs)
    return lib("intersection(leader-follower)", Fiber.intersection, *fs, style="leader-follower")


def nest_loop(flow, loops, opr, cur, z, depth, pt, rec):
    if depth == len(loops):
        p = cur[0]
        for q in cur[1:]:
            x = p
            p = lib("payload *", lambda: x * q)
            rec.mul += 1
        if flow.filter and p == 0:
            yield ("leaf", pt)
            return
        q = p

        def acc():
            r = z
            if flow.form == "assign":
                r <<= r + q
            else:
                r += q
        lib("payload update", acc)
        rec.update += 1
        rec.add += 1
        yield ("leaf", pt)
        return
    r = loops[depth]
    sel = [k for k in range(len(cur)) if opr[k] and opr[k][0] == r]
    e = coiterate(flow.style, [cur[k] for k in sel])
    drives = r in flow.zloops
    if drives:
        zz = z
        e2 = e
        e = lib("<<", lambda: zz << e2)
    it = lib("iter", iter, e)
    nxt = [o[1:] if k in sel else o for k, o in enumerate(opr)]
    while True:
        item = lib_next("loop over " + r, it)
        if item is DONE:
            break
        c, p = item
        zn = z
        if drives:
            p = S.unwrap(p)
            zn, p = p
        got = flatten(p, len(sel)) if len(sel) > 1 else [S.unwrap(p)]
        new = list(cur)
        for k, x in zip(sel, got):
            new[k] = x
        rec.bodies.setdefault(r, []).append(pt + (c,))
        yield (r, pt + (c,))
        yield from nest_loop(flow, loops, nxt, new, zn, depth + 1, pt + (c,), rec)


# ------------------------------------------------------------------ generators

def gen_expr(rng, max_terms=2, fmts=True, max_shape=6):
    nv = rng.choice([1, 2, 2, 3, 3, 3, 4])
    vs = sorted(rng.sample(VARS, nv))
    shape = {v: rng.choice([1, 2, 3, 3, 4, 4, max_shape]) for v in VARS}
    if rng.random() < 0.05:
        # one long rank, or one whose coordinates are no small integers
        n = rng.choice([rng.randint(9, 24), rng.randint(9, 24), rng.randint(25, 40), rng.randint(258, 280) if nv < 4 else 30])
        shape = {v: min(3 if n < 200 else 2, x) for v, x in shape.items()}
        shape[rng.choice(vs)] = n
    terms = []
    for _ in range(rng.choice([1, 1, 1, 2]) if max_terms > 1 else 1):
        n = rng.choice([1, 2, 2, 2, 3])
        ops = []
        for _ in range(n):
            k = rng.randint(1, nv)
            ov = rng.sample(vs, k)
            ops.append(ov)
        for v in vs:
            if not any(v in o for o in ops):
                o = rng.choice(ops)
                o.insert(rng.randint(0, len(o)), v)
        tc = []
        for ov in ops:
            if nv == 4 and len(ov) > 2:
                for v in ov:
                    shape[v] = min(shape[v], 3)
            sh = [shape[v] for v in ov]
            plan = [] if rng.random() < 0.06 else T.rand_plan(
                rng, len(ov), sh, density=rng.choice([0.3, 0.6, 0.6, 0.9]), p_zero=0.1, p_empty=0.1,
                values=lambda r: r.choice([1, 2, 3, -1, -2, 5, 0.5]))
            oc = {"vars": ov, "plan": plan, "kind": rng.choice(["tensor", "tensor", "nest"])}
            if fmts and rng.random() < 0.12:
                oc["fmts"] = [rng.choice("CU") for _ in ov]
            tc.append(oc)
        terms.append(tc)
    out = [v for v in vs if rng.random() < 0.55]
    rng.shuffle(out)
    return {"shape": shape, "terms": terms, "out": out}


def gen_flow(rng, expr, max_tiles=2, plain=False):
    vs = sorted({v for t in range(len(expr.tops)) for v in expr.vars_of(t)})
    tiles = []
    if not plain and rng.random() < 0.55:
        for v in rng.sample(vs, min(len(vs), rng.randint(1, max_tiles))):
            n = expr.shape.get(v, 0) if isinstance(expr.shape, dict) else 0
            tiles.append([v, rng.randint(1, 4) if n < 9 or rng.random() < 0.3 else rng.randint(n // 40 + 2, n), rng.random() < 0.2, rng.choice([0, 0, 0, 1, 2])])
    f = {"keys": [rng.randrange(12) for _ in range(12)], "tiles": tiles,
         "style": rng.choice(STYLES), "filter": rng.random() < 0.5, "split_first": rng.random() < 0.6,
         "form": rng.choice(["add", "add", "assign"]), "decl": rng.random() < 0.7,
         "ztile": [v for v in vs if rng.random() < 0.5]}
    if f["style"] == "lf":
        f["filter"] = True
    if not plain and rng.random() < 0.15:
        names = [v + x for v in vs for x in ("", ".1", ".0", ".0.1", ".0.0")]
        f["pfmt"] = [r for r in names if rng.random() < 0.3]
        f["zfmt"] = [r for r in names if rng.random() < 0.3]
    return f
