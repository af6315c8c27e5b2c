"""Co-iteration expressions with their expected items.

`Exprs.build` turns a JSON expression over a list of fibers into the
library's lazy fiber and the list of (coordinate, item description) it must
deliver, by set algebra over what the operands present.
"""
from fibertree import Fiber

from . import streams as S
from .engine import lib
from .streams import num

BIN = ["and", "and", "or", "or", "xor", "sub"]
NARY = ["iand", "iand", "lf", "lf", "union", "union"]
WRAP = ["prune", "proj", "rev"]


class Expr:
    """What one expression over fibers presents."""
    __slots__ = ("fib", "want", "absent", "plain", "arity", "lazy", "ufmt")

    def __init__(self, fib, want, absent, plain=True, arity=1, lazy=True, ufmt=False):
        self.fib, self.want, self.absent = fib, want, absent
        self.plain, self.arity, self.lazy, self.ufmt = plain, arity, lazy, ufmt


def arity(c):
    return len(c) if isinstance(c, tuple) else 1


def pre(c, n):
    return c if n == 1 and not isinstance(c, tuple) else (c[0] if n == 1 else c[:n])


class Exprs:
    """Mixin of a World; `self.pool` lists the plain operands of the expression."""
    def gen_expr(self, rng, n, lv=0):
        r = rng.random()
        if lv >= 2 or lv and r < 0.55:
            return ["f", rng.randrange(n)]
        if lv and r < 0.7:
            return [rng.choice(WRAP), rng.randrange(4), self.gen_expr(rng, n, lv + 1)]
        if r < 0.75 or n < 2:
            return [rng.choice(BIN), self.gen_expr(rng, n, lv + 1), self.gen_expr(rng, n, lv + 1)]
        return [rng.choice(NARY)] + [self.gen_expr(rng, n, 2 if rng.random() < 0.85 else lv + 1)
                                     for _ in range(rng.choice([2, 3, 3, 4]))]

    def build(self, e, reals, nodes, lv=0):
        """Total over any JSON: unusable parts fall back to a plain operand."""
        if not isinstance(e, list) or not e or lv > 4:
            e = ["f", 0]
        k = e[0]
        if k in WRAP and len(e) > 2:
            x = self.build(e[2], reals, nodes, lv + 1)
            return self.wrap(k, abs(int(num(e[1]))), x)
        if k in BIN or k in NARY:
            xs = [self.build(q, reals, nodes, lv + 1) for q in e[1:5]]
            if len(xs) >= 2:
                return self.binary(k, xs[0], xs[1]) if k in BIN else self.nary(k, xs)
            if xs:
                return xs[0]
        i = abs(int(num(e[1]))) % len(reals) if len(e) > 1 and not isinstance(e[1], list) else 0
        n = nodes[i]
        return Expr(reals[i], n.present(), self.mk_absent(n, False), True, n.op.tup or 1, False,
                    n.op.fmts[n.lv] == "U")

    def mk_absent(self, n, broken):
        return S.Node(n.op, n.lv + 1, None, None)

    def wrap(self, k, arg, x):
        """prune / project give a compressed lazy fiber"""
        full = x.want if not x.plain else [w for w in x.want if not w[1].empty()]
        if k == "prune":
            keep = {0: lambda c: True, 1: lambda c: hash(c) % 2 == 0, 2: lambda c: hash(c) % 3 > 0}[arg % 3]
            return Expr(lib("prune", x.fib.prune, lambda i, c, p: keep(c)), [w for w in full if keep(w[0])],
                        x.absent, x.plain, x.arity)
        if x.arity > 1 or not x.plain:
            return x
        if k == "rev":
            if x.lazy:
                return x
            return Expr(lib("project", x.fib.project, lambda c: 7 - c), [(7 - c, w) for c, w in reversed(full)], x.absent)
        return Expr(lib("project", x.fib.project, lambda c: c + arg % 3), [(c + arg % 3, w) for c, w in full], x.absent)

    def binary(self, k, a, b):
        if k != "and" and (a.arity != b.arity):
            k = "and"
        if k == "sub" and a.plain and any(w.empty() for _, w in a.want):
            k = "and"   # known finding, see do_subu
        self.ctx.probe("op:" + k)
        if k == "and":
            n = max(a.arity, b.arity)
            if a.arity == b.arity:
                db = dict(b.want)
                want = [(c, ("t", w, db[c])) for c, w in a.want if c in db]
            elif a.arity < b.arity:
                da = dict(a.want)
                want = [(c, ("t", da[pre(c, a.arity)], w)) for c, w in b.want if pre(c, a.arity) in da]
                self.ctx.probe("mixed-arity")
            else:
                db = dict(b.want)
                want = [(c, ("t", w, db[pre(c, b.arity)])) for c, w in a.want if pre(c, b.arity) in db]
                self.ctx.probe("mixed-arity")
            return Expr(lib("a & b", lambda: a.fib & b.fib), want, ("t", a.absent, b.absent), False, n)
        da, db = dict(a.want), dict(b.want)
        if k == "sub":
            return Expr(lib("a - b", lambda: a.fib - b.fib), [(c, da[c]) for c in sorted(set(da) - set(db))],
                        a.absent, a.plain, a.arity)
        cs = sorted(set(da) | set(db) if k == "or" else set(da) ^ set(db))
        want = [(c, ("t", ("A" if c in da else "") + ("B" if c in db else ""), da.get(c, a.absent), db.get(c, b.absent)))
                for c in cs]
        f = lib("a | b", lambda: a.fib | b.fib) if k == "or" else lib("a ^ b", lambda: a.fib ^ b.fib)
        return Expr(f, want, ("t", "", a.absent, b.absent), False, a.arity)

    def nary(self, k, xs):
        if k == "lf" and not all(x.plain for x in xs[1:]):
            k = "iand"
        if not all(x.plain for x in xs):
            self.ctx.probe("nary-of-tuples")
        if any(x.arity != xs[0].arity for x in xs):
            if k == "iand" and all(x.want for x in xs):
                return self.nary_mixed(xs)
            return self.binary("and", xs[0], xs[1])
        if k == "lf" and any(x.lazy for x in xs[1:]):
            k = "iand"
        self.ctx.probe(f"op:{k}{len(xs)}")
        ds = [dict(x.want) for x in xs]
        absent = ("t",) + tuple(x.absent for x in xs)
        fs = [x.fib for x in xs]
        if k == "union":
            cs = sorted(set().union(*ds))
            want = [(c, ("t", "".join(chr(65 + i) for i, d in enumerate(ds) if c in d)) +
                     tuple(d.get(c, x.absent) for d, x in zip(ds, xs))) for c in cs]
            return Expr(lib("union", Fiber.union, *fs), want, ("t", "") + absent[1:], False, xs[0].arity)
        if k == "lf":
            # followers deliver whatever they store there, or a default
            want = []
            for c, w in xs[0].want:
                its = [w]
                for x in xs[1:]:
                    n = x.absent
                    src = next((y for y in self.pool if y.real is x.fib), None)
                    its.append(src.child(c) if src is not None else n)
                want.append((c, ("t",) + tuple(its)))
            return Expr(lib("leader-follower", lambda: Fiber.intersection(*fs, style="leader-follower")), want, absent,
                        False, xs[0].arity)
        want = [(c, ("t",) + tuple(d[c] for d in ds)) for c in sorted(set(ds[0]).intersection(*ds[1:]))]
        return Expr(lib("intersection", Fiber.intersection, *fs), want, absent, False, xs[0].arity)

    def nary_mixed(self, xs):
        self.ctx.probe("op:iand-mixed")
        want, ar = [(c, ("t", w)) for c, w in xs[0].want], xs[0].arity
        for x in xs[1:]:
            d = dict(x.want)
            if ar >= x.arity:
                want = [(c, w + (d[pre(c, x.arity)],)) for c, w in want if pre(c, x.arity) in d]
            else:
                dw = dict(want)
                want = [(c, dw[pre(c, ar)] + (n,)) for c, n in x.want if pre(c, ar) in dw]
                ar = x.arity
        return Expr(lib("intersection", Fiber.intersection, *[x.fib for x in xs]), want, ("t",) + tuple(x.absent for x in xs), False, ar)

    def leaves(self, w):
        if isinstance(w, S.Node):
            return [w]
        return [n for x in w[1:] if not isinstance(x, str) for n in self.leaves(x)]

    def leaves_real(self, g, w):
        g = S.unwrap(g)
        if isinstance(w, S.Node):
            return [g]
        return [n for y, x in zip(g, w[1:]) if not isinstance(x, str) for n in self.leaves_real(y, x)]
