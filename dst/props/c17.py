"""C17: buffer traffic models charge exactly what their policy implies.

One analyst owns a simulated disk full of traces. Kernels (dst.nests) run under
metrics sessions and leave real traces there; other traces are written row by
row from a shared iteration space. Between kernels the analyst filters,
combines and feeds traces to the buffet and the cache model, again and again
over the same files, with disk errors and crashes in the middle of calls that
leave temporary files behind. Every answer is recomputed from the trace rows:
filter and merge by definition, the buffet per (line, window) pair, the cache
by a furthest-next-use simulation over the merged accesses and, where small
enough, by an exhaustive search over replacement decisions.
"""
from fibertree import Metrics, Tensor
from fibertree.model import Format, Traffic

from .. import nests as N
from ..disk import SimCrash, SimDisk
from ..engine import BaseWorld, InjectedIOError, Violation, lib, pristine
from ..streams import num

RUNS = {"quick": 12000, "thorough": 150000}
CHUNK = 40
RULE = ("a run is nontrivial when at least one traffic call over a non-empty trace was judged; "
        "distinct runs are counted by the digest of their event log")
STATE_MEASURE = "distinct (files and their sizes, last answer) tuples after a step"
REAL = ["fibertree (all of it, imported from /repo)", "sortedcontainers", "file_read_backwards", "files in a scratch directory"]
STUB = ["builtins.open, io.open, os.remove, os.rename (counting and fault injection, then the real call)"]
ASSUMPTIONS = [
    "the traces of one call are ordered by iteration stamp, with prefixes of one loop order",
    "accesses of several bindings at one stamp happen outer rank first, then in the order of the bindings",
    "an access to a staging position holds its line in the cache until the last use of the line, lines that straddle the shape included",
    "temporary files may survive a call that failed on a disk error or died",
]
ALIAS = {"M": "W", "K": "V", "N": "U"}
CALLS = ("buffet", "cache")


def ix(x, n):
    return int(num(x)) % n


def clamp(x, lo, hi, d=0):
    return max(lo, min(hi, int(num(x, d))))


class World(BaseWorld):
    # ------------------------------------------------------------ generate
    @classmethod
    def gen_config(cls, rng):
        depth = rng.choice([1, 2, 2, 3, 3])
        big = rng.random() < 0.15
        long = rng.randint(1, depth) if rng.random() < 0.12 else 0

        def space(d):
            n = rng.choice([0, 1, 2, 2, 3, 4]) if not big else rng.choice([2, 4, 6])
            if long:
                n = rng.randint(9, 20) if d == long else min(n, 2)
            n = max(n, 1) if d == depth else n
            cs, c = [], -1
            for _ in range(n):
                c += rng.choice([1, 1, 2, 3, 4] if rng.random() < 0.97 else [40, 260])
                cs.append([c, space(d - 1) if d > 1 else 0])
            return cs
        tensors = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            tensors.append({"mask": [rng.random() < 0.75 for _ in range(3)], "c": [rng.choice([8, 16, 32]) for _ in range(3)],
                            "p": [rng.choice([8, 16, 32, 64]) for _ in range(3)], "shape": [rng.choice([2, 4, 4, 6, 7, 8, 100]) for _ in range(3)],
                            "il": [rng.random() < 0.4 for _ in range(3)]})
        return {"space": space(depth), "depth": depth, "tensors": tensors, "alias": [rng.random() < 0.15 for _ in range(3)],
                "progs": [N.gen_prog(rng)] if rng.random() < 0.5 else [], "names": rng.randrange(1, len(N.NAMESETS)) if rng.random() < 0.2 else 0, "n_steps": rng.randint(4, 12)}

    def __init__(self, cfg, ctx):
        super().__init__(cfg, ctx)
        cfg = cfg if isinstance(cfg, dict) else {}
        self.depth = clamp(cfg.get("depth", 2), 1, 3)
        self.rk = N.NAMESETS[clamp(cfg.get("names"), 0, len(N.NAMESETS) - 1, 0)]
        self.points = [[] for _ in range(4)]        # per depth: (stamps, coords, coordinate before in the fiber)
        self.walk(cfg.get("space"), (), (), 1)
        self.alias = [bool(x) for x in (cfg.get("alias") or [])][:3] + [False] * 3
        self.tens = []
        for t in (cfg.get("tensors") if isinstance(cfg.get("tensors"), list) else [])[:3]:
            if isinstance(t, dict):
                g = lambda k, lo, hi, d: [clamp(x, lo, hi, d) for x in (t.get(k) if isinstance(t.get(k), list) else [])][:3] + [d] * 3
                m = [bool(x) for x in (t.get("mask") if isinstance(t.get("mask"), list) else [])][:3] + [True] * 3
                self.tens.append({"mask": m[:3] if any(m[:3]) else [True] * 3, "c": g("c", 1, 128, 32), "p": g("p", 1, 128, 32),
                                  "shape": g("shape", 1, 1000, 8), "il": [bool(x) for x in g("il", 0, 1, 0)]})
        self.tens = self.tens or [{"mask": [True] * 3, "c": [32] * 3, "p": [32] * 3, "shape": [8] * 3, "il": [False] * 3}]
        ps = cfg.get("progs")
        self.progs = [N.Prog(p) for p in (ps if isinstance(ps, list) else [])[:2] if isinstance(p, dict)]
        self.disk = SimDisk(ctx, "c17")
        self.files = {}         # name -> (ranks, [(stamps, coords, pos)], text)
        self.debris = set()
        self.maps = {}          # the analyst's loop_ranks dictionaries, kept between calls
        self.last = None
        self.judged = 0
        self.nsyn = 0

    def walk(self, sp, st, co, d):
        if d > self.depth or not isinstance(sp, list):
            return
        seen, c0 = 0, -1
        for e in sp[:24]:
            if not isinstance(e, list) or not e:
                continue
            c = max(c0 + 1, clamp(e[0], 0, 400))
            self.points[d].append((st + (seen,), co + (c,), c0))
            self.walk(e[1] if len(e) > 1 else [], st + (seen,), co + (c,), d + 1)
            seen, c0 = seen + 1, c

    def close(self):
        self.disk.close()
        pristine()

    def gen_rows(self, rng, d, like=None):
        pts = self.points[d]
        keep = rng.choice([0.3, 0.6, 0.9, 1])
        style = rng.choice(["coord", "ord", "rand", "small"])
        stage = rng.random() < 0.35
        skips = rng.random() < 0.4
        rows = []
        for i, (_, co, c0) in enumerate(pts):
            ks = [0]
            if skips:
                ks += [k for k in range(1, min(3, co[-1] - c0 - 1) + 1) if rng.random() < 0.5]
            for k in ks:
                if rng.random() > keep:
                    continue
                pos = {"coord": co[-1] - k, "ord": i, "rand": rng.randrange(12), "small": rng.randrange(4)}[style]
                if stage and rng.random() < 0.4:
                    pos += rng.choice([2, 4, 6, 7, 8])
                rows.append([i, k, pos])
        if rng.random() < 0.1 and rows:
            rows.append(list(rng.choice(rows)))
        return rows

    def gen_step(self, rng):
        r = rng.random()
        if r < 0.3 or len(self.files) < 2:
            if self.progs and rng.random() < 0.35:
                return ["real", rng.randrange(len(self.progs)), rng.randrange(2), rng.choice([0, 1, 2]), self.gen_fault(rng, 0.9)]
            d = rng.choice([x for x in range(1, self.depth + 1) if self.points[x]] or [1])
            return ["synth", rng.randrange(4), d, self.gen_rows(rng, d)]
        if r < 0.4:
            return ["filter", rng.randrange(64), rng.randrange(64), rng.randrange(3), self.gen_fault(rng)]
        if r < 0.5:
            return ["combine", rng.randrange(64), rng.choice([None, rng.randrange(64)]), rng.random() < 0.5, self.gen_fault(rng)]
        if r < 0.54:
            return ["lose", rng.randrange(64)]
        kind = rng.choice(CALLS)
        b = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            b.append([rng.randrange(3), rng.randrange(64), rng.choice([None, None, rng.randrange(64), rng.randrange(64)]), rng.random() < 0.15,
                      rng.randrange(2), rng.randrange(4)])
        caps = sorted({rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 1000]) for _ in range(rng.choice([1, 2, 3]))})
        return [kind, b, caps, rng.choice([1, 1, 2, 2, 3, 4]), rng.choice([0, 0, 3]), rng.random() < 0.2, self.gen_fault(rng)]

    def gen_fault(self, rng, p=0.85):
        if rng.random() < p:
            return None
        return {"op": rng.choice(["open", "write", "close", "remove"]), "nth": rng.choice([1, 2, 3, 4, 6, 9]),
                "kind": rng.choice(["full", "eio", "crash"]), "frac": rng.choice([0, 0.5, 1])}

    # --------------------------------------------------------------- steps
    def exec_step(self, step):
        a = (step[1:] if isinstance(step, list) else []) + [None] * 7
        with self.disk:
            op = step[0]
            if op == "synth":
                return self.do_synth(a[0], a[1], a[2])
            if op == "real":
                return self.do_real(a[0], a[1], a[2], a[3])
            if op == "filter":
                return self.do_filter(*a[:4])
            if op == "combine":
                return self.do_combine(*a[:4])
            if op == "lose":
                ks = sorted(self.files)
                if not ks:
                    return None
                del self.files[ks[ix(a[0], len(ks))]]
                return True
            if op in CALLS:
                return self.do_traffic(op, *a[:6])
        return None

    def ranks(self, d):
        return self.rk[:d]

    def put(self, name, ranks, rows):
        text = ",".join([r + "_pos" for r in ranks] + list(ranks) + ["fiber_pos"]) + "\n"
        text += "".join(",".join(map(str, st + co + (p,))) + "\n" for st, co, p in rows)
        with open(self.disk.path(name), "w") as f:
            f.write(text)
        self.files[name] = (list(ranks), rows, text)
        self.debris.discard(name)

    def do_synth(self, i, d, rows):
        d = clamp(d, 1, self.depth, 1)
        pts = self.points[d]
        out = []
        for r in rows if isinstance(rows, list) else []:
            if not pts or not isinstance(r, list) or len(r) < 3:
                continue
            k = ix(r[0], len(pts))
            st, co, c0 = pts[k]
            out.append((k, co[-1] - clamp(r[1], 0, co[-1] - c0 - 1), clamp(r[2], 0, 500)))
        where = {}
        out = sorted(((k, c, where.setdefault((k, c), p)) for k, c, p in out), key=lambda r: r[:2])
        self.put(f"s{ix(i, 4)}.csv", self.ranks(d), [(pts[k][0], pts[k][1][:-1] + (c,), p) for k, c, p in out])
        return True

    def do_real(self, pi, pre, ncu, fault):
        if not self.progs:
            return None
        prog = self.progs[ix(pi, len(self.progs))]
        pre = ["k", "k-M"][ix(pre, 2)]
        lib("setNumCachedUses", Metrics.setNumCachedUses, [1000, 2, 5][ix(ncu, 3)])
        names = prog.trace_names()
        tens, z, rec = prog.build(), prog.build_z(), N.Rec(prog)
        lib("beginCollect", Metrics.beginCollect, pre)
        for r, t in names:
            lib("trace", Metrics.trace, r, t)
        for n in list(self.files):
            if n.startswith(pre + "-"):
                del self.files[n]
        before = set(self.disk.ls())
        self.disk.arm(fault)
        try:
            for _ in N.real(prog, tens, z, rec):
                pass
            lib("endCollect", Metrics.endCollect)
        except (InjectedIOError, SimCrash) as e:
            self.disk.disarm()
            self.disk.kill()
            pristine()
            self.debris |= set(self.disk.ls()) - set(self.files)
            return "failed " + type(e).__name__
        self.disk.disarm()
        for r, t in names:
            n = f"{pre}-{r}-{t}.csv"
            if not self.disk.exists(n):
                continue
            text = self.disk.read(n)
            h, rows = N.parse(text)
            if h is None:
                self.debris.add(n)
                continue
            d = (len(h) - 1) // 2
            rows = [(tuple(x[:d]), tuple(x[d:2 * d]), x[-1]) for x in rows]
            # C16 judges the traces; here only well-formed ones count
            if any(x[-1] < 0 for x in rows) or any(len(x[0]) != d for x in rows) or any(a[0] > b[0] for a, b in zip(rows, rows[1:])):
                self.debris.add(n)
                continue
            self.files[n] = (h[d:2 * d], rows, text)
            self.debris.discard(n)
            self.ctx.probe("real trace")
        self.debris |= set(self.disk.ls()) - set(self.files)
        return [len(self.files)]

    # -------------------------------------------------------- shared checks
    def call(self, what, fault, fn, *args, **kw):
        """Run one library call on the disk; None when a fault got it."""
        before = set(self.disk.ls())
        self.disk.arm(fault)
        try:
            res = lib(what, fn, *args, **kw)
        except InjectedIOError:
            self.disk.disarm()
            self.leftover(before)
            return None
        except SimCrash:
            self.disk.disarm()
            self.disk.kill()
            pristine()
            self.leftover(before)
            return None
        self.disk.disarm()
        return (res,)

    def leftover(self, before):
        new = set(self.disk.ls()) - before
        if new:
            self.ctx.probe("stale temporary files")
        self.debris |= new
        self.intact("after a failed call")

    def intact(self, when, skip=()):
        for n, (_, _, text) in sorted(self.files.items()):
            if n in skip:
                continue
            if not self.disk.exists(n):
                raise Violation("trace-lost", f"{n} is gone {when}")
            if self.disk.read(n) != text:
                raise Violation("trace-changed", f"{n} changed {when}")

    def tidy(self, before, what, extra=()):
        after = set(self.disk.ls())
        new = after - before - set(extra)
        if new:
            raise Violation("temp-left", f"{what} left {sorted(new)} behind", sig="temp-left|" + what)
        self.intact("after " + what, extra)
        self.debris &= after

    def pick(self, i, ok=lambda f: True):
        ks = [k for k in sorted(self.files) if ok(self.files[k])]
        return ks[ix(i, len(ks))] if ks and i is not None and not isinstance(i, bool) else None

    # ------------------------------------------------------ filter, combine
    def do_filter(self, i, j, out, fault):
        fi = self.pick(i)
        if fi is None:
            return None
        ranks, rows, text = self.files[fi]
        ff = self.pick(j, lambda f: f[0][:len(ranks)] == ranks)
        fr = self.files[ff]
        if not self.lex(rows) or not self.lex(fr[1]):
            return None
        on = f"f{ix(out, 3)}.csv"
        if on in (fi, ff):
            on = "f3.csv" if "f3.csv" not in (fi, ff) else "f4.csv"
        self.files.pop(on, None)
        before = set(self.disk.ls())
        r = self.call("filterTrace", fault, Traffic.filterTrace, fi, ff, on)
        if r is None:
            self.debris.add(on)
            return "failed"
        pts = {co[:len(ranks)] for _, co, _ in fr[1]}
        lines = text.splitlines(True)
        keep = [k for k, (_, co, _) in enumerate(rows) if co in pts]
        want = lines[0] + "".join(lines[1 + k] for k in keep)
        got = self.disk.read(on)
        if got != want:
            g, w = got.splitlines(), want.splitlines()
            extra, lost = [x for x in g if x not in w], [x for x in w if x not in g]
            sig = "filter|" + ("extra" if extra else "lost" if lost else "order")
            raise Violation("filter", f"filtering {fi} by {ff} gave {g}, want {w}", sig=sig)
        if len(keep) not in (0, len(rows)):
            self.ctx.probe("filter keeps some rows")
        self.tidy(before, "filterTrace", [on])
        self.files[on] = (ranks, [rows[k] for k in keep], want)
        self.debris.discard(on)
        return len(keep)

    @staticmethod
    def lex(rows):
        return all(a[1] <= b[1] for a, b in zip(rows, rows[1:]))

    def do_combine(self, i, j, swap, fault):
        a = self.pick(i)
        if a is None:
            return None
        ranks = self.files[a][0]
        b = self.pick(j, lambda f: f[0] == ranks) if j is not None else None
        if swap:
            a, b = b, a
        kw = {}
        if a:
            kw["read_fn"] = a
        if b:
            kw["write_fn"] = b
        before = set(self.disk.ls())
        r = self.call("_combineTraces", fault, Traffic._combineTraces, comb_fn="comb.csv", **kw)
        if r is None:
            return "failed"
        ent = []
        for n, w in ((a, False), (b, True)):
            if n:
                ls = self.files[n][2].splitlines()
                ent += [(row[0], w, k, ls[1 + k]) for k, row in enumerate(self.files[n][1])]
        ent.sort(key=lambda e: e[:3])
        want = [(self.files[a or b][2].splitlines()[0]) + ",is_write"] + [f"{e[3]},{e[1]}" for e in ent]
        got = self.disk.read("comb.csv").splitlines()
        if got != want:
            raise Violation("combine", f"combining {a} and {b} gave {got}, want {want}")
        self.tidy(before, "_combineTraces", ["comb.csv"])
        import os
        os.remove(self.disk.path("comb.csv"))
        return len(ent)

    # -------------------------------------------------------------- traffic
    def do_traffic(self, kind, binds, caps, lmul, lrem, unbound, fault):
        order, bs, used = None, [], set()
        for b in (binds if isinstance(binds, list) else [])[:4]:
            if not isinstance(b, list) or len(b) < 6:
                continue
            ti = ix(b[0], len(self.tens))
            ok = lambda f: self.tens[ti]["mask"][len(f[0]) - 1] and len(f[0]) <= 3 and \
                (order is None or all(x == y for x, y in zip(f[0], order)))
            r = self.pick(b[1], ok)
            if r is None:
                continue
            ranks = self.files[r][0]
            w = self.pick(b[2], lambda f: f[0] == ranks and all(x[0] < y[0] for x, y in zip(f[1], f[1][1:])))
            if b[3] is True and w:
                r = None
            j = len(ranks) - 1
            ty = "elem" if self.tens[ti]["il"][j] else ["coord", "payload"][ix(b[4], 2)]
            if (ti, j, ty) in used:
                continue
            used.add((ti, j, ty))
            bs.append([ti, j, ty, r, w, ix(b[5], j + 1) - 1])
            if order is None or len(ranks) > len(order):
                order = ranks
        if not bs:
            return None
        # the tensors and their formats
        name = {x: (ALIAS.get(x, x + "q") if self.alias[k] else x) for k, x in enumerate(order)}
        fmts, foot = {}, {}
        for ti in sorted({b[0] for b in bs}):
            t = self.tens[ti]
            js = [j for j in range(len(order)) if t["mask"][j]]
            tn = Tensor(rank_ids=[name[order[j]] for j in js], shape=[t["shape"][j] for j in js], name="T%d" % ti)
            fmts["T%d" % ti] = Format(tn, {name[order[j]]: {"cbits": t["c"][j], "pbits": t["p"][j],
                                                           "layout": "interleaved" if t["il"][j] else "contiguous"} for j in js})
            for j in js:
                foot[(ti, j)] = {"coord": t["c"][j], "payload": t["p"][j], "elem": t["c"][j] + t["p"][j]}
        line = max(foot[(b[0], b[1])][b[2]] for b in bs) * clamp(lmul, 1, 8, 1) + clamp(lrem, 0, 7)
        bindings, trace_fns = [], {}
        for k, (ti, j, ty, r, w, ev) in enumerate(bs):
            key = ("T%d" % ti, name[order[j]], ty)
            d = {"tensor": key[0], "rank": key[1], "type": ty}
            if kind == "buffet":
                d["evict-on"] = "root" if ev < 0 else order[ev]
            if not (unbound is True and k == len(bs) - 1 and k > 0):
                bindings.append(d)
            if r:
                trace_fns[key + ("read",)] = r
            if w:
                trace_fns[key + ("write",)] = w
        n_b = len(bindings)
        lmap = None
        if any(name[x] != x for x in order):
            mk = str(sorted((v, k) for k, v in name.items()))
            lmap = self.maps.setdefault(mk, {v: k for k, v in name.items() if v != k})
        # what the accesses are
        acc = []
        bpos = sorted(range(n_b), key=lambda k: (bs[k][1], k))
        loop = [bs[k] for k in bpos]
        straddle = staged = False
        for k, (ti, j, ty, r, w, ev) in enumerate(loop):
            epl = line // foot[(ti, j)][ty]
            shp = self.tens[ti]["shape"][j]
            rows = []
            for n, wr in ((r, 0), (w, 1)):
                if n:
                    rows += [(st, wr, q, co, p) for q, (st, co, p) in enumerate(self.files[n][1])]
            rows.sort(key=lambda e: e[:3])
            for q, (st, wr, _, co, p) in enumerate(rows):
                ln = (ti, ty, tuple(co[x] for x in range(j) if self.tens[ti]["mask"][x]), j, p // epl)
                stg = bool(w) and p >= shp
                if stg:
                    staged = True
                    if shp % epl and p // epl == shp // epl:
                        straddle = True
                acc.append((st + (-1,) * (len(order) - len(st)), k, q, ln, wr, stg, st[:ev + 1], co))
        acc.sort(key=lambda e: e[:3])
        caps = [clamp(c, 0, 10 ** 6) for c in caps][:4] if isinstance(caps, list) and caps else [1]
        prev = None
        out = []
        for c in sorted(set(caps)):
            before = set(self.disk.ls())
            fn = Traffic.buffetTraffic if kind == "buffet" else Traffic.cacheTraffic
            args = [[dict(b) for b in bindings], fmts, dict(trace_fns), c * line + (line - 1 if lrem else 0), line]
            res = self.call(kind + "Traffic", fault, fn, *args, **({"loop_ranks": lmap} if lmap is not None else {}))
            fault = None
            if res is None:
                out.append("failed")
                continue
            got = self.shape_of(kind, res[0], trace_fns)
            exp = buffet(acc, loop) if kind == "buffet" else cache(acc, loop, c)
            what = f"{kind} over {[(b[3], b[4]) for b in loop]} capacity {c} lines of {line} bits"
            self.judge(kind, what, got, exp, acc, loop, line, c, staged)
            if kind == "cache" and prev is not None:
                for t in got:
                    for x in ("read", "write"):
                        if got[t][x] > prev[t][x]:
                            raise Violation("grows-with-capacity", f"{what}: {t} {x} {got[t][x]} bits, {prev[t][x]} with less")
            prev = got
            self.tidy(before, kind + "Traffic")
            out.append([got[t][x] // line for t in sorted(got) for x in ("read", "write")])
        if acc:
            self.judged += 1
            self.ctx.probe(f"{kind} call judged")
            if straddle:
                self.ctx.probe("staging line straddles the shape")
            elif staged:
                self.ctx.probe("staging lines")
            if n_b > 1:
                self.ctx.probe("several bindings share a buffer")
        self.last = (kind, str(out))
        return out

    def shape_of(self, kind, res, trace_fns):
        if not isinstance(res, tuple) or len(res) != 2:
            raise Violation("result", f"{kind}Traffic returned {res!r}")
        tr = res[0]
        got = {}
        for t, _, _, a in trace_fns:
            v = tr.get(t, {}).get(a) if isinstance(tr, dict) and isinstance(tr.get(t), dict) else None
            if v is None:
                raise Violation("result", f"{kind}Traffic returned {tr!r}, no {a} traffic of {t}")
            got.setdefault(t, {"read": 0, "write": 0})[a] = v
        for t in tr:
            for a in tr[t]:
                if tr[t][a] and tr[t][a] != got.get(t, {}).get(a):
                    raise Violation("result", f"{kind}Traffic charges {tr[t][a]} for {t} {a}, which has no trace")
        return got

    def judge(self, kind, what, got, exp, acc, loop, line, cap, staged):
        def say(cls, t, x, want):
            raise Violation(cls, f"{what}: {t} {x} traffic is {got[t][x]} bits = {got[t][x] / line} lines, want {want}", sig=f"{cls}|{x}")
        names = {"T%d" % b[0] for b in loop}
        for t in got:
            if t not in names and (got[t]["read"] or got[t]["write"]):
                raise Violation("unbound", f"{what}: {t} is not bound and is charged {got[t]}")
        for t in sorted(names):
            if t not in got:
                continue
            mine = [a for a in acc if "T%d" % loop[a[1]][0] == t]
            first, wrote = {}, set()
            for a in mine:
                first.setdefault(a[3], a[4])
                if a[4] and not a[5]:
                    wrote.add(a[3])
            lo = {"read": sum(1 for v in first.values() if not v), "write": len(wrote)}
            hi = {"read": sum(1 for a in mine if not a[4]), "write": sum(1 for a in mine if a[4] and not a[5])}
            for x in ("read", "write"):
                n, rem = divmod(got[t][x], line)
                if rem or not lo[x] <= n <= hi[x]:
                    say("bounds", t, x, f"between {lo[x]} and {hi[x]}")
        if kind == "cache" and any(got[t][x] != exp[t][x] * line for t in got if t in exp for x in ("read", "write")):
            alt = cache(acc, loop, cap, True)
            if all(got[t][x] == alt[t][x] * line for t in got if t in alt for x in ("read", "write")):
                raise Violation("cache", f"{what}: {got}, want {exp} lines", sig="cache|next-use-tie")
        for t in sorted(names):
            for x in ("read", "write"):
                if t in got and got[t][x] != exp[t][x] * line:
                    say(kind, t, x, exp[t][x])
        if kind == "cache" and not staged and len({a[3] for a in acc}) <= 5 and 0 < len(acc) <= 40:
            best = exhaustive(acc, cap)
            tot = sum(got[t]["read"] for t in got) // line
            if tot < best or (tot > best and not any(a[4] for a in acc)):
                raise Violation("not-optimal", f"{what}: {tot} fills, exhaustive search finds {best}")
            self.ctx.probe("optimum confirmed by exhaustive search")

    def check(self):
        pass

    def finish(self):
        self.disk.disarm()

    def state_key(self):
        return str((sorted((n, len(f[1])) for n, f in self.files.items()), self.last))

    def nontrivial(self):
        return self.judged > 0


def tally(loop):
    return {"T%d" % b[0]: {"read": 0, "write": 0} for b in loop}


def buffet(acc, loop):
    out = tally(loop)
    first, wrote = {}, set()
    for _, k, _, ln, wr, stg, win, _ in acc:
        first.setdefault((ln, win), (k, wr))
        if wr and not stg:
            wrote.add((k, ln, win))
    for k, wr in first.values():
        if not wr:
            out["T%d" % loop[k][0]]["read"] += 1
    for k, _, _ in wrote:
        out["T%d" % loop[k][0]]["write"] += 1
    return out


def cache(acc, loop, cap, tied=False):
    """Furthest next use, bypass allowed; staging lines stay until their last use.

    tied: the known finding, next uses by the read and the write of one point
    at one stamp count as simultaneous, and of two such lines the one that
    came last is given up for a newcomer that is as far away.
    """
    out = tally(loop)
    nxt, last = [None] * len(acc), {}
    for i in range(len(acc) - 1, -1, -1):
        nxt[i] = last.get(acc[i][3])
        last[acc[i][3]] = i
    inside = {}     # line -> [next use, entry, dirty, pinned, tensor]
    for i, (_, k, _, ln, wr, stg, _, co) in enumerate(acc):
        t = out["T%d" % loop[k][0]]
        e = inside.get(ln)
        hit = e is not None
        if not hit:
            if not wr:
                t["read"] += 1
            e = [None, 0, False, stg, t]
        e[2] = e[2] or bool(wr and not stg)
        e[3] = e[3] or stg
        if nxt[i] is None:
            t["write"] += e[2]
            inside.pop(ln, None)
            continue
        e[0], e[1] = nxt[i], i
        if tied:
            n = acc[nxt[i]]
            e[0] = (n[0], n[1], n[7])
        if not hit:
            free = sorted((v[0], v[1], x) for x, v in inside.items() if not v[3])
            if len(inside) >= cap and not stg and (not free or e[0] > free[-1][0]):
                t["write"] += e[2]
                continue
            n = len(inside)
            while n >= cap and free:
                x = free.pop()[2]
                inside[x][4]["write"] += inside[x][2]
                del inside[x]
                n -= 1
            inside[ln] = e
    for e in inside.values():
        e[4]["write"] += e[2]
    return out


def exhaustive(acc, cap):
    """The fewest fills any replacement decisions can reach."""
    ids = {}
    seq = [(ids.setdefault(a[3], len(ids)), a[4]) for a in acc]
    states = {frozenset(): 0}
    for ln, wr in seq:
        new = {}
        for s, n in states.items():
            n += 0 if wr or ln in s else 1
            full = s | {ln}
            opts = [s - {ln} if ln not in s else s, full] + [full - {x} for x in full]
            for o in opts:
                if len(o) <= cap and new.get(o, 1 << 30) > n:
                    new[o] = n
        states = new
    return min(states.values())
