"""Metrics collection sessions around loop nests on a simulated disk (C15, C16).

One client runs kernels (dst.nests) step by step under collection sessions:
sessions are begun, reuse prefixes, trace any subset of what the kernel emits
to files, to memory or to both, change the flush threshold, consume traces in
the middle of the kernel, lose their kernel (closed, dropped, or by an exception
in its body), are abandoned, run into disk errors, or die with the process.
The model says, at every suspension point, exactly which rows there must be.
"""
import json

from fibertree import Fiber, Metrics, Tensor
from fibertree.model import Compute

from . import nests as N
from . import tree as T
from .disk import SimCrash, SimDisk
from .engine import BaseWorld, DONE, InjectedFault, InjectedIOError, LibRaised, Violation, lib, lib_next, pristine
from .streams import num

PREFIXES = ["t", "run", "t-K"]
NCU = [2, 3, 5, 1000]
KINDS = ["file", "mem", "both"]
BOGUS = [("M", "intersect_9"), ("K", "bogus"), ("W", "iter"), ("N", "populate_read_7")]


class Session:
    def __init__(self):
        self.rows = {}          # memory traces: (rank, type) -> [header?, rows...]
        self.seen = []          # lists handed out, with copies
        self.late = {}          # ((rank, type), kind) -> rows already emitted when it was requested
        self.broken = False
        self.done = False
        self.killed = False
        self.began = False      # the generator has been advanced


def bare(rank):
    """A kernel over tuple coordinates, in a session that says nothing about the rank; errors are outcomes too."""
    f = Fiber([(0, 1), (1, 0), (1, 2)], [1, 2, 3])
    f.getRankAttrs().setId(rank)
    Metrics.beginCollect()
    out = []
    try:
        Metrics.trace(rank, consumable=True)
        for c, p in f:
            out.append(str((p * 2).value))
    except Exception as e:
        out.append(type(e).__name__)
    try:
        out.append(str(Metrics.consumeTrace(rank, "iter")))
        Metrics.endCollect()
    except Exception as e:
        out.append(type(e).__name__)
    out.append(json.dumps(Metrics.dump(), sort_keys=True, default=str))
    return out


class SessionWorld(BaseWorld):
    JUDGE = "C15"

    @classmethod
    def gen_config(cls, rng):
        return {"progs": [N.gen_prog(rng) for _ in range(rng.choice([1, 1, 2]))], "n_steps": rng.randint(6, 18)}

    def __init__(self, cfg, ctx):
        super().__init__(cfg, ctx)
        ps = cfg.get("progs") if isinstance(cfg, dict) else None
        ps = [p for p in ps if isinstance(p, dict)][:3] if isinstance(ps, list) else []
        self.progs = [N.Prog(p) for p in ps or [{}]]
        self.disk = SimDisk(ctx, cls_name(self))
        self.ses = None
        self.leaked = []
        self.outcomes = {}      # (program, limit, traces) -> outcomes
        self.bares = []         # (rank, outcome) of sessions that declare nothing
        self.nsess = self.rows = self.nfull = 0
        self.memo = {}
        self.was_collecting = False

    def close(self):
        self.ses = None
        self.leaked = []
        self.disk.close()
        pristine()

    def expect(self, pi, limit):
        k = (pi, limit)
        if k not in self.memo:
            self.memo[k] = N.model(self.progs[pi], limit)
        return self.memo[k]

    # --------------------------------------------------------------- steps
    def gen_step(self, rng):
        s = self.ses
        judge16 = self.JUDGE == "C16"
        if s is None:
            if rng.random() < 0.1:
                return ["garbage", rng.randrange(6), rng.randrange(len(PREFIXES))]
            if not judge16 and rng.random() < 0.12:
                return ["several", [[rng.randrange(len(self.progs)), rng.choice([0, 0, 0, 1, 2, 4])] for _ in range(rng.choice([2, 2, 3]))],
                        rng.randrange(4)]
            if not judge16 and rng.random() < 0.04:
                return ["bare", rng.randrange(3)]
            if rng.random() < 0.08:
                return ["off", rng.randrange(len(self.progs)), rng.choice([0, 0, 3])]
            pi = rng.randrange(len(self.progs))
            avail = self.progs[pi].trace_names()
            tr = []
            for r, t in avail:
                if rng.random() < (0.75 if judge16 else 0.5):
                    tr.append([r, t, rng.choice(["file", "file", "mem", "both"])])
            if rng.random() < 0.15:
                tr.append(list(rng.choice(BOGUS)) + [rng.choice(KINDS)])
            rng.shuffle(tr)
            return ["begin", pi, rng.randrange(len(PREFIXES)), tr, rng.choice([0, 1, 1, 2, 3])]
        r = rng.random()
        if s.done or s.killed or s.broken:
            if r < 0.75:
                return ["end", rng.random() < 0.2, self.gen_fault(rng)]
            if r < 0.85:
                return ["consume", rng.randrange(8)]
            return ["abandon"] if r < 0.93 else ["garbage", rng.randrange(6), rng.randrange(len(PREFIXES))]
        if r < 0.28:
            return ["run", 0, self.gen_fault(rng)]
        if r < 0.62:
            return ["run", rng.choice([1, 1, 2, 2, 3, 5]), self.gen_fault(rng)]
        if r < 0.72:
            return ["consume", rng.randrange(8)]
        if r < 0.77:
            return ["ncu", rng.randrange(len(NCU))]
        if r < 0.83:
            pi = s.pi
            r_, t_ = rng.choice(self.progs[pi].trace_names())
            return ["late", r_, t_, rng.choice(KINDS)]
        if r < 0.92:
            return ["kill", rng.choice(["close", "drop", "throw", "leak"])]
        if r < 0.94:
            return ["drop"]
        if r < 0.97:
            return ["die"]
        return ["end", False, None]

    def gen_fault(self, rng):
        if rng.random() < 0.9:
            return None
        return {"op": rng.choice(["open", "write", "close"]), "nth": rng.randint(1, 4),
                "kind": rng.choice(["full", "eio", "crash"]), "frac": rng.choice([0, 0.5, 1])}

    def exec_step(self, step):
        op = step[0]
        a = step[1:] + [None] * 4
        with self.disk:
            if op == "begin":
                return self.do_begin(a[0], a[1], a[2], a[3])
            if op == "off":
                return self.do_off(a[0], a[1])
            if op == "garbage":
                return self.do_garbage(a[0], a[1])
            if op == "several":
                return self.do_several(a[0], a[1])
            if op == "bare":
                return self.do_bare(a[0])
            s = self.ses
            if s is None:
                return None
            if op == "run":
                return self.do_run(a[0], a[1])
            if op == "consume":
                return self.do_consume(a[0])
            if op == "ncu":
                lib("setNumCachedUses", Metrics.setNumCachedUses, NCU[ix(a[0], len(NCU))])
                return True
            if op == "late":
                return self.do_late(a[0], a[1], a[2])
            if op == "kill":
                return self.do_kill(a[0])
            if op == "drop":
                if not self.leaked:
                    return None
                self.leaked.pop(0).close()
                self.ctx.fault("late_kernel_drop")
                return True
            if op == "die":
                self.disk.kill()
                self.ctx.fault("process_kill")
                self.dead()
                return True
            if op == "abandon":
                self.ctx.fault("session_abandoned")
                self.ses = None
                return True
            if op == "end":
                return self.do_end(a[0], a[1])
        return None

    # ------------------------------------------------------------ sessions
    def dead(self):
        """The process is gone; only the disk is left."""
        self.ses = None
        self.leaked = []
        pristine()

    def traces(self, pi, tr):
        out = {}
        for t in tr if isinstance(tr, list) else []:
            if isinstance(t, list) and len(t) > 2 and all(isinstance(x, str) for x in t[:2]) and t[2] in KINDS and t[0] and t[1] \
                    and t[0].isalnum() and t[1].replace("_", "").isalnum():
                out[(t[0], t[1])] = t[2]
        return out

    def do_begin(self, pi, pre, tr, ncu):
        if self.ses is not None:
            self.ctx.fault("session_abandoned")
        pi = ix(pi, len(self.progs))
        s = self.ses = Session()
        s.pi, s.prog = pi, self.progs[pi]
        s.prefix = PREFIXES[ix(pre, len(PREFIXES))]
        s.traces = self.traces(pi, tr)
        if num(ncu):
            lib("setNumCachedUses", Metrics.setNumCachedUses, NCU[ix(ncu, len(NCU))])
        else:
            lib("setNumCachedUses", Metrics.setNumCachedUses, 1000)
        self.start(s)
        self.nsess += 1
        return True

    def start(self, s):
        s.tens, s.z, s.rec = s.prog.build(), s.prog.build_z(), N.Rec(s.prog)
        lib("beginCollect", Metrics.beginCollect, s.prefix)
        for (r, t), k in s.traces.items():
            if k in ("file", "both"):
                lib("trace", Metrics.trace, r, t)
            if k in ("mem", "both"):
                lib("trace", Metrics.trace, r, t, consumable=True)
                s.rows[(r, t)] = []
        if Metrics.getIter() != [] or lib("dump", Metrics.dump) != {}:
            raise Violation("unclean-start", f"a new session starts with iteration {Metrics.getIter()} and counts {Metrics.dump()}")
        s.gen = N.real(s.prog, s.tens, s.z, s.rec)

    def do_run(self, n, fault):
        s = self.ses
        if s.done or s.killed or s.broken:
            return None
        n = int(num(n)) or 10 ** 6
        self.disk.arm(fault)
        s.began = True
        try:
            for _ in range(n):
                if next(s.gen, DONE) is DONE:
                    s.done = True
                    break
        except InjectedIOError:
            self.disk.disarm()
            s.broken = True
            return "io error"
        except SimCrash:
            self.disk.disarm()
            self.dead()
            return "crash"
        self.disk.disarm()
        self.suspended()
        return [len(s.rec.bodies), s.done]

    def suspended(self):
        s = self.ses
        if s.broken:
            return
        d = lib("dump", Metrics.dump)
        self.counts(s, d)
        ex = self.expect(s.pi, None)
        got = [(i, c) for i, c, _ in s.rec.bodies]
        if got != (ex.bodies if s.done else ex.bodies[:len(got)]):
            raise Violation("bodies", f"with collection on, the loop bodies were {got}, want {ex.bodies}")
        if self.JUDGE == "C16" and not s.done:
            self.files(s, False)

    def counts(self, s, d):
        for k in ("mul", "add", "update"):
            got = d.get("Compute", {}).get("payload_" + k, 0)
            if got != s.rec.ops[k]:
                raise Violation("count", f"payload_{k} is {got}, the kernel executed {s.rec.ops[k]}", sig="count|" + k)

    def files(self, s, final):
        """File traces are, at any moment, a prefix of what they must become."""
        ex = self.expect(s.pi, None if s.done else len(s.rec.bodies))
        for (r, t), k in sorted(s.traces.items()):
            if k == "mem":
                continue
            name = f"{s.prefix}-{r}-{t}.csv"
            if not final:
                if (r, t) not in ex.rows or not self.disk.exists(name) or Metrics.getIter() == []:
                    continue
                h, rows = N.parse(self.disk.read(name))
                if h is None:
                    continue
            else:
                if not self.disk.exists(name):
                    if not s.began or not ex.rows.get((r, t)):
                        continue
                    raise Violation("no-file", f"{name} does not exist, {len(ex.rows[(r, t)])} accesses were traced")
                h, rows = N.parse(self.disk.read(name))
                self.rows += len(rows)
            N.check_rows(s.prog, self.cut(s, ex, (r, t), "file"), s.rec, r, t, h, rows, final, "file")

    def cut(self, s, ex, key, kind):
        """Rows from before the trace was requested are not in it."""
        n = s.late.get((key, kind), 0)
        if not n:
            return ex
        e2 = N.Expect()
        e2.rows = {key: ex.rows.get(key, [])[n:]}
        e2.bodies = ex.bodies
        return e2

    def do_consume(self, i):
        s = self.ses
        ks = sorted(s.rows)
        if not ks or s.broken:
            return None
        self.consume(s, ks[ix(i, len(ks))])
        return True

    def consume(self, s, key):
        got = lib("consumeTrace", Metrics.consumeTrace, *key)
        s.rows[key] += got
        s.seen.append((got, [list(r) for r in got]))
        if got:
            self.ctx.probe("trace consumed while the kernel runs" if not s.done else "trace consumed at the end")
        if self.JUDGE == "C16":
            ex = self.expect(s.pi, None if s.done else len(s.rec.bodies))
            self.mem(s, ex, key)

    def mem(self, s, ex, key):
        rows = s.rows[key]
        h, rows = (rows[0], rows[1:]) if rows else (None, [])
        self.rows += len(rows)
        for r in rows:
            if not isinstance(r, list) or not all(isinstance(x, int) for x in r):
                raise Violation("row-format", f"memory trace {key} holds {r!r}")
        N.check_rows(s.prog, self.cut(s, ex, key, "mem"), s.rec, key[0], key[1], h, rows, True, "memory")

    def do_late(self, r, t, kind):
        """Request a trace while the kernel is running."""
        s = self.ses
        if s.done or s.killed or s.broken or not isinstance(r, str) or not isinstance(t, str) or kind not in KINDS:
            return None
        key = (r, t)
        if key not in s.prog.trace_names():
            return None
        ex = self.expect(s.pi, len(s.rec.bodies))
        if key in self.expect(s.pi, None).loose:
            return None
        if t != "iter" and s.rec.bodies and N.level_of(s.prog, r) <= s.rec.bodies[-1][0]:
            return None     # operators look up what is traced when they are entered
        n = len(ex.rows.get(key, []))
        had = s.traces.get(key)
        for k in ("file", "mem"):
            if kind in (k, "both"):
                if had not in (k, "both"):
                    s.late[(key, k)] = n
                lib("trace", Metrics.trace, r, t, consumable=k == "mem")
                if k == "mem":
                    s.rows.setdefault(key, [])
        both = {had, kind}
        s.traces[key] = kind if had is None else ("both" if len(both) > 1 else had)
        self.ctx.probe("trace requested while the kernel runs")
        return n

    def do_kill(self, how):
        s = self.ses
        if s.done or s.killed or s.broken or not s.began or not s.rec.bodies:
            return None
        s.killed = True
        if how == "throw":
            try:
                s.gen.throw(InjectedFault("the loop body failed"))
            except InjectedFault:
                pass
            self.ctx.fault("exception_in_loop_body")
        elif how == "leak":
            self.leaked.append(s.gen)
            self.ctx.fault("kernel_left_suspended")
        elif how == "drop":
            self.ctx.fault("kernel_dropped")
        else:
            s.gen.close()
            self.ctx.fault("kernel_closed")
        s.gen = None
        return True

    def do_end(self, early, fault):
        """End the session and judge it."""
        s = self.ses
        if not s.done and not s.killed and not s.broken and s.began:
            self.ctx.fault("session_ended_under_the_kernel")
            self.leaked.append(s.gen)
        if early and any(s.rows):
            # memory traces that were not consumed: refused, by design
            try:
                lib("endCollect", Metrics.endCollect)
                self.ctx.probe("ended with nothing left to consume")
            except LibRaised as e:
                if not isinstance(e.exc, AssertionError):
                    raise
                self.ctx.probe("end refused, trace not consumed")
        if lib("isCollecting", Metrics.isCollecting):
            for k in sorted(s.rows):
                self.consume(s, k) if not s.broken else lib("consumeTrace", Metrics.consumeTrace, *k)
            self.disk.arm(fault)
            try:
                lib("endCollect", Metrics.endCollect)
            except InjectedIOError:
                self.disk.disarm()
                s.broken = True
                try:
                    lib("endCollect", Metrics.endCollect)
                except LibRaised:
                    pass
            except SimCrash:
                self.disk.disarm()
                self.dead()
                return "crash"
            self.disk.disarm()
        if not s.broken and lib("isCollecting", Metrics.isCollecting):
            raise Violation("still-collecting", "endCollect returned, but collection is on")
        self.ses = None
        if s.broken:
            self.ctx.probe("session with a disk error ended")
            return "broken"
        self.judge(s)
        return True

    def judge(self, s):
        d = lib("dump", Metrics.dump)
        self.counts(s, d)
        for k in ("mul", "add", "update"):
            got = lib("Compute.numOps", Compute.numOps, d, k)
            if got != s.rec.ops[k]:
                raise Violation("count", f"Compute.numOps({k}) is {got}, the kernel executed {s.rec.ops[k]}", sig="numOps|" + k)
        limit = None if s.done else len(s.rec.bodies)
        ex = self.expect(s.pi, limit)
        self.result(s, ex, "with collection on")
        for got, copy in s.seen:
            if got != copy:
                raise Violation("consumed-changed", f"a consumed trace changed afterwards: {copy[:6]} is now {got[:6]}")
        if self.JUDGE == "C16":
            self.files(s, True)
            for key in sorted(s.rows):
                self.mem(s, ex, key)
                name = f"{s.prefix}-{key[0]}-{key[1]}.csv"
                if s.traces[key] == "both" and s.late.get((key, "file")) == s.late.get((key, "mem")) and self.disk.exists(name):
                    text = "".join(",".join(map(str, r)) + "\n" for r in s.rows[key])
                    if text != self.disk.read(name):
                        raise Violation("file-vs-memory", f"{name} and the memory trace differ:\n{self.disk.read(name)[:300]}\n{text[:300]}")
        for i, lv in enumerate(s.prog.levels):
            key = (lv.rank, "iter")
            if s.traces.get(key) in ("file", "both") and (key, "file") not in s.late:
                name = f"{s.prefix}-{lv.rank}-iter.csv"
                want = sum(1 for b in s.rec.bodies if b[0] == i)
                if not self.disk.exists(name) and not s.began:
                    continue
                got = lib("Compute.numIters", Compute.numIters, name)
                if got != want:
                    raise Violation("iterations", f"Compute.numIters of {name} is {got}, {want} loop bodies ran ({lv.mode} {lv.expr})",
                                    sig=f"iterations|{lv.mode}|{lv.expr[0]}")
        self.outcome(s, limit, d)
        self.nfull += 1
        self.ctx.probe("session judged")
        if s.killed:
            self.ctx.probe("session of a killed kernel judged")
        if ex.inserting:
            self.ctx.probe("inserting populate")
        if s.prog.two:
            self.ctx.probe("kernel with two results")

    def result(self, s, ex, what):
        for w, t in ((ex.z, s.z), (ex.y, s.rec.y)):
            if isinstance(w, N.MF):
                want, got = w.content(), T.content(t.getRoot(), len(s.prog.out))
                got = {tuple(s.prog.inv(r, c) for r, c in zip(s.prog.out, k)): v for k, v in got.items()}
            elif w is None:
                continue
            else:
                want, got = w.get(), T.unbox(t.getRoot())
            if got != want:
                raise Violation("result", f"{what} the kernel produces {got}, want {want}" + " in its second result" * (t is not s.z))

    def results(self, s):
        return [T.snap(t.getRoot()) for t in (s.z, s.rec.y) if t is not None]

    def outcome(self, s, limit, d):
        if not s.began or s.late:
            return
        key = (s.pi, -1 if limit is None else limit, tuple(sorted(s.traces.items())))
        out = {"counts": json.dumps(d, sort_keys=True), "z": self.results(s),
               "operands": [T.snap(t.getRoot()) for t in s.tens]}
        for (r, t), k in sorted(s.traces.items()):
            if k in ("file", "both"):
                name = f"{s.prefix}-{r}-{t}.csv"
                out[f"file {r}-{t}"] = self.disk.read(name) if self.disk.exists(name) else None
            if k in ("mem", "both"):
                out[f"memory {r}-{t}"] = s.rows[(r, t)]
        self.outcomes.setdefault(key, []).append(out)

    # ------------------------------------------------- other things that run
    def do_off(self, pi, limit):
        """The kernel without collection."""
        if self.ses is not None:
            return None
        if Metrics.isCollecting():
            # a session was abandoned: this run belongs to it
            lib("beginCollect", Metrics.beginCollect)
            lib("endCollect", Metrics.endCollect)
        s = Session()
        s.pi = ix(pi, len(self.progs))
        s.prog = self.progs[s.pi]
        self.off(s, int(num(limit)) or None)
        return True

    def off(self, s, limit, what="with collection off"):
        s.tens, s.z, s.rec = s.prog.build(), s.prog.build_z(), N.Rec(s.prog)
        s.gen = N.real(s.prog, s.tens, s.z, s.rec)
        s.done = True
        while next(s.gen, DONE) is not DONE:
            if limit is not None and len(s.rec.bodies) >= limit:
                s.done = False
                break
        ex = self.expect(s.pi, None if s.done else limit)
        self.result(s, ex, what)
        got = [(i, c) for i, c, _ in s.rec.bodies]
        if got != ex.bodies:
            raise Violation("bodies", f"{what}, the loop bodies were {got}, want {ex.bodies}")

    def do_several(self, nests, ncu):
        """Several loop nests, some given up midway, in one session: what was counted adds up."""
        if self.ses is not None or not isinstance(nests, list):
            return None
        nests = [n for n in nests if isinstance(n, list) and len(n) > 1][:4]
        lib("setNumCachedUses", Metrics.setNumCachedUses, NCU[ix(ncu, len(NCU))])
        lib("beginCollect", Metrics.beginCollect, "many")
        want, iters = {"mul": 0, "add": 0, "update": 0}, {}
        for pi, _ in nests:
            for lv in self.progs[ix(pi, len(self.progs))].levels:
                if lv.rank not in iters:
                    iters[lv.rank] = 0
                    lib("trace", Metrics.trace, lv.rank)
        for pi, limit in nests:
            pi, limit = ix(pi, len(self.progs)), int(num(limit))
            s = Session()
            s.pi, s.prog = pi, self.progs[pi]
            self.off(s, limit if limit > 0 else None, "in a session of several nests")
            s.gen.close()
            for k in want:
                want[k] += s.rec.ops[k]
            for i, _, _ in s.rec.bodies:
                iters[s.prog.levels[i].rank] += 1
            got = lib("dump", Metrics.dump).get("Compute", {})
            for k in want:
                if got.get("payload_" + k, 0) != want[k]:
                    raise Violation("count", f"payload_{k} is {got.get('payload_' + k, 0)} in a session of several nests, "
                                    f"the kernels executed {want[k]}", sig="count|" + k)
        lib("endCollect", Metrics.endCollect)
        for r in sorted(iters):
            name = f"many-{r}-iter.csv"
            if not iters[r] and not self.disk.exists(name):
                continue
            got = lib("Compute.numIters", Compute.numIters, name)
            if got != iters[r]:
                raise Violation("iterations", f"Compute.numIters of {name} is {got}, {iters[r]} loop bodies ran in the nests of the session",
                                sig="iterations|several")
        self.nfull += 1
        self.ctx.probe("session of several nests judged")
        return True

    def do_bare(self, i):
        """A session that declares nothing: what comes of it may not depend on what an earlier one declared."""
        if self.ses is not None:
            return None
        i = ix(i, 3)
        out = bare(N.RANKS[i])
        self.bares.append((i, out))
        return out

    def do_garbage(self, kind, pre):
        """Somebody else's session, left in any state."""
        kind = ix(kind, 6)
        self.ses = None
        self.ctx.fault("foreign_session")
        pre = PREFIXES[ix(pre, len(PREFIXES))]

        def go():
            Metrics.beginCollect(pre)
            if kind == 0:
                Metrics.trace("M")
                Metrics.trace("K", "intersect_0", consumable=True)
                for r in ("N", "K", "M"):
                    Metrics.registerRank(r)
                Metrics.addUse("M", 3, 1)
                Metrics.incIter("N")
                Metrics.incCount("Compute", "payload_mul", 7)
                Metrics.getLabel("K")
            elif kind == 1:
                Metrics.matchRanks("K", "M")
                Metrics.matchRanks("QK", "N")
                Metrics.associateShape("M", (2, 3))
                Metrics.registerRank("M")
                Metrics.trace("QK", "project_0")
            elif kind == 2:
                Metrics.setNumCachedUses(2)
                Metrics.trace("K")
                Metrics.registerRank("K")
                for i in range(5):
                    Metrics.addUse("K", i, i)
                    Metrics.incIter("K")
                Metrics.endCollect()
            elif kind == 3:
                for r in ("M", "K", "N"):
                    Metrics.trace(r)
                Metrics.endCollect()
            elif kind == 4:
                f = Fiber([1, 2], [3, 4])
                for _ in (f & f):
                    break
            else:
                Metrics.registerRank("M")
                a = Tensor.fromUncompressed(["M", "K"], [[1, 2], [0, 3]])
                for _, b in a.getRoot():
                    for _, v in b:
                        v *= 2
                        v + v
        lib("foreign session", go)
        return kind

    # --------------------------------------------------------------- finish
    def finish(self):
        with self.disk:
            s = self.ses
            if s is not None and not s.broken:
                if not (s.done or s.killed):
                    self.do_run(0, None)
                if self.ses is not None:
                    self.do_end(False, None)
            if self.JUDGE == "C15":
                for key in sorted(self.outcomes, key=repr):
                    self.reference(key, self.outcomes[key])
                for i, out in self.bares:
                    pristine()
                    want = bare(N.RANKS[i])
                    self.ctx.probe("session that declares nothing")
                    if out != want:
                        raise Violation("session-leak", f"a kernel over tuple coordinates of {N.RANKS[i]} in a session that declares nothing gave {out}, "
                                        f"it gives {want} as the first thing a process does", sig="session-leak|bare")

    def reference(self, key, outs):
        """The same kernel as the first thing a process does, and without collection."""
        pi, limit, tr = key
        pristine()
        self.leaked = []
        s = Session()
        s.pi, s.prog, s.prefix, s.traces = pi, self.progs[pi], "ref", dict(tr)
        self.start(s)
        while next(s.gen, DONE) is not DONE:
            if limit != -1 and len(s.rec.bodies) >= limit:
                break
        for k in sorted(s.rows):
            s.rows[k] += lib("consumeTrace", Metrics.consumeTrace, *k)
        lib("endCollect", Metrics.endCollect)
        s.began = True
        saved, self.outcomes = self.outcomes, {}
        self.outcome(s, None, lib("dump", Metrics.dump))
        ref = list(self.outcomes.values())[0][0]
        self.outcomes = saved
        for o in outs:
            for k in ref:
                if o[k] != ref[k]:
                    raise Violation("session-dependent", f"{k} of a session depends on what ran before: {str(o[k])[:400]}, "
                                    f"in a new process {str(ref[k])[:400]}", sig="session-dependent|" + k.split("_")[0].split("-")[0])
        self.ctx.probe("session repeated in a new process")
        pristine()
        t = Session()
        t.pi, t.prog = pi, s.prog
        self.off(t, None if limit == -1 else limit)
        for k, got, want in [("result", self.results(s), self.results(t)),
                             ("operands", [T.snap(x.getRoot()) for x in s.tens], [T.snap(x.getRoot()) for x in t.tens])]:
            if got != want:
                raise Violation("not-transparent", f"the {k} with collection on: {got}, off: {want}", sig="not-transparent|" + k)
        self.ctx.probe("on and off compared")

    def state_key(self):
        s = self.ses
        if s is None:
            return (None, len(self.leaked), bool(Metrics.isCollecting()))
        return (s.pi, s.prefix, len(s.rec.bodies), s.done, s.killed, s.broken, tuple(sorted(s.traces.items())),
                tuple(Metrics.getIter() or ()), Metrics.num_cached_uses)

    def nontrivial(self):
        return self.nfull >= 1 and self.nsess >= 1


def cls_name(x):
    return x.JUDGE.lower()


def ix(i, n):
    return int(num(i)) % n if n else None
