"""Driver: runs the simulations of one property, shrinks and reports."""
import importlib
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter

from . import engine

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")


def scratch_root():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="dst-", dir=base)


def load(prop):
    import warnings
    warnings.simplefilter("ignore")
    import fibertree
    f = os.path.abspath(fibertree.__file__)
    if not f.startswith(REPO + "/"):
        raise RuntimeError(f"fibertree imported from {f}, not {REPO}")
    mod = importlib.import_module(f"dst.props.{prop.lower()}")
    engine.snapshot_globals()
    return mod


def fork_jobs(jobs, fn, workers, tmp, deadline=None, stop=None):
    """Run fn(job) in forked children (<= workers at once), each from this
    pristine process. Yields (job index, result) in job order. A child that
    dies without a result yields an Exception object."""
    results = {}
    live = {}
    nxt = 0
    emit = 0
    stopped = False
    try:
        while emit < len(jobs):
            while not stopped and nxt < len(jobs) and len(live) < workers \
                    and (deadline is None or time.monotonic() < deadline):
                path = os.path.join(tmp, f"job{os.getpid()}-{nxt}")
                pid = os.fork()
                if pid == 0:
                    code = 3
                    try:
                        res = fn(jobs[nxt])
                        with open(path + ".tmp", "wb") as f:
                            pickle.dump(res, f)
                        os.rename(path + ".tmp", path)
                        code = 0
                    except BaseException:
                        import traceback
                        traceback.print_exc()
                    finally:
                        sys.stderr.flush()
                        os._exit(code)
                live[pid] = (nxt, path)
                nxt += 1
            if not live:
                break
            pid, status = os.wait()
            if pid not in live:
                continue
            j, path = live.pop(pid)
            if status == 0 and os.path.exists(path):
                with open(path, "rb") as f:
                    results[j] = pickle.load(f)
                os.unlink(path)
            else:
                results[j] = RuntimeError(f"worker for job {j} died, wait status {status}")
            while emit in results:
                r = results.pop(emit)
                yield emit, r
                emit += 1
    finally:
        for pid in live:
            try:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
            except OSError:
                pass


def run_chunk(mod, prop, vseed, idxs, det=False):
    """Execute runs idxs in order in this process; aggregate."""
    agg = {"faults": Counter(), "probes": Counter(), "ops": Counter(),
           "states": set(), "steps": 0, "runs": 0, "nontrivial": set(),
           "fail": None, "harness": None, "digests": [], "sample": None,
           "known": Counter(), "survey": {}}
    for i in idxs:
        r = engine.execute(mod.World, seed=engine.run_seed(vseed, prop, i))
        agg["runs"] += 1
        agg["steps"] += r.nsteps
        agg["faults"].update(r.ctx.faults)
        agg["probes"].update(r.ctx.probes)
        agg["ops"].update(r.ctx.ops)
        agg["states"] |= r.ctx.states
        agg["digests"].append((i, r.digest))
        if r.nontrivial:
            agg["nontrivial"].add(r.digest[:16])
        if agg["sample"] is None and r.nontrivial:
            agg["sample"] = {"run": i, "config": r.cfg, "steps": r.steps[:12]}
        if r.harness:
            agg["harness"] = (i, r.harness, r.cfg, r.steps)
            return agg
        if r.violation:
            kf = match_known(prop, r.violation)
            if kf is not None:
                agg["known"][kf] += 1
                continue
            if os.environ.get("DST_SURVEY"):
                # development aid: list every kind of violation, never a verdict
                key = r.violation["class"] + " | " + r.violation["sig"]
                agg["survey"].setdefault(key, (i, r.nsteps, r.violation["message"][:300]))
                continue
            agg["fail"] = (i, r.violation, r.cfg, r.steps, list(idxs))
            return agg
    return agg


_KNOWN = None


def known_entries():
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line:
                    e = json.loads(line)
                    if e.get("status") == "known":
                        _KNOWN.append(e)
    return _KNOWN


def match_known(prop, viol):
    for k, e in enumerate(known_entries()):
        if e["property"] == prop and e["class"] == viol["class"] and e["sig"] == viol["sig"]:
            return k
    return None


def replay_data(path):
    with open(path) as f:
        return json.load(f)


def do_replay(path, verbose=True):
    d = replay_data(path)
    prop = d["property"]
    mod = load(prop)
    if d["kind"] == "steps":
        r = engine.execute(mod.World, cfg=d["config"], steps=d["steps"], keep_log=True)
        log = r.ctx.keep
    else:
        for i in d["runs"]:
            r = engine.execute(mod.World, seed=engine.run_seed(d["seed"], prop, i), keep_log=True)
            if r.violation or r.harness:
                break
        log = r.ctx.keep
    if verbose:
        for line in log:
            print("  " + line[:400])
    if r.harness:
        print(r.harness, file=sys.stderr)
        return 2
    if r.violation:
        print(f"violation: {r.violation['class']}: {r.violation['message']}")
        same = r.violation["class"] == d["violation"]["class"]
        print(f"same violation class as recorded: {same}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("replay: no violation")
    return 0


def confirm(path, cls):
    p = subprocess.run([sys.executable, "-m", "dst.main", "--replay", path],
                       cwd=VERIF, capture_output=True, text=True)
    return p.returncode == 1 and f"violation: {cls}:" in p.stdout


def report(mod, prop, vseed, fail, workers, tmp, budget):
    """Shrink the failing run and write its replay file."""
    i, viol, cfg, steps, idxs = fail
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{prop}-{vseed}-{i}.json")

    def same(v):
        return v is not None and v["class"] == viol["class"] and match_known(prop, v) is None

    def one(cand):
        r = engine.execute(mod.World, cfg=cand[0], steps=cand[1])
        return r.violation if r.harness is None else None

    def test_many(cands):
        for start in range(0, len(cands), workers * 2):
            batch = cands[start:start + workers * 2]
            for k, res in fork_jobs(batch, one, workers, tmp):
                if not isinstance(res, Exception) and same(res):
                    return start + k
        return None

    def write(kind, **kw):
        d = {"property": prop, "kind": kind, "seed": vseed, "run": i,
             "original_steps": len(steps)}
        d.update(kw)
        with open(path, "w") as f:
            json.dump(d, f, indent=1)

    if test_many([(cfg, steps)]) is not None:
        hang = viol["class"] == "no-progress"
        c2, s2 = engine.shrink(cfg, steps, test_many, 0 if hang else budget, time.monotonic)
        final = [r for _, r in fork_jobs([(c2, s2)], one, 1, tmp)][0]
        if isinstance(final, Exception) or final is None:
            c2, s2, final = cfg, steps, viol
        write("steps", config=c2, steps=s2, violation=final)
        if confirm(path, viol["class"]):
            return path, final, len(s2)
        write("steps", config=cfg, steps=steps, violation=viol)
        if confirm(path, viol["class"]):
            return path, viol, len(steps)
    # state leaked between runs of one process: replay the chunk prefix
    upto = idxs[:idxs.index(i) + 1]
    write("runs", runs=upto, violation=viol)
    return path, viol, len(steps)


def write_evidence(prop, ev):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    os.rename(p + ".tmp", p)


def main(argv):
    if argv and argv[0] == "--replay":
        return do_replay(argv[1])
    if argv and argv[0] == "--setup":
        load("C01")
        print("setup ok: fibertree imports from", REPO)
        return 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    workers = int(os.environ.get("DST_WORKERS", str(min(8, os.cpu_count() or 1))))
    t0 = time.monotonic()
    mod = load(prop)
    nruns = mod.RUNS[tier]
    if os.environ.get("DST_RUNS"):
        nruns = int(os.environ["DST_RUNS"])
    chunk = getattr(mod, "CHUNK", 25)
    if tier == "thorough":
        chunk *= 4
    cap = 420 if tier == "quick" else 780
    tmp = scratch_root()
    os.environ["DST_SCRATCH"] = tmp
    print(f"dst property={prop} tier={tier} VERIF_SEED={vseed} runs={nruns} workers={workers}", flush=True)
    jobs = [list(range(s, min(nruns, s + chunk))) for s in range(0, nruns, chunk)]
    tot = {"faults": Counter(), "probes": Counter(), "ops": Counter(), "states": set(),
           "steps": 0, "runs": 0, "nontrivial": set(), "known": Counter()}
    samples = []
    survey = {}
    digests = {}
    fail = None
    rc = 0
    try:
        gen = fork_jobs(jobs, lambda ix: run_chunk(mod, prop, vseed, ix), workers, tmp,
                        deadline=t0 + cap)
        for j, agg in gen:
            if isinstance(agg, Exception):
                print(f"HARNESS-ERROR: {agg}", file=sys.stderr)
                return 2
            for k in ("faults", "probes", "ops", "known"):
                tot[k].update(agg[k])
            tot["states"] |= agg["states"]
            tot["nontrivial"] |= agg["nontrivial"]
            tot["steps"] += agg["steps"]
            tot["runs"] += agg["runs"]
            digests.update(dict(agg["digests"]))
            if agg["sample"] and len(samples) < 3:
                samples.append(agg["sample"])
            for k, v in agg["survey"].items():
                survey.setdefault(k, []).append(v)
            if agg["harness"]:
                i, tb, cfg, steps = agg["harness"]
                print(f"HARNESS-ERROR in run {i}:\n{tb}\nconfig={json.dumps(cfg)}\n"
                      f"steps={json.dumps(steps)[-1500:]}", file=sys.stderr)
                return 2
            if agg["fail"]:
                fail = agg["fail"]
                break
        gen.close()
        if tot["runs"] == 0:
            print("HARNESS-ERROR: no run completed", file=sys.stderr)
            return 2
        sim_wall = time.monotonic() - t0
        if survey:
            for k, v in sorted(survey.items()):
                print(f"SURVEY {len(v)} chunks | {k} | shortest: {min(v, key=lambda x: x[1])}")
            return 2
        if fail is not None:
            budget = 45 if tier == "quick" else 120
            path, viol, ns = report(mod, prop, vseed, fail, workers, tmp, budget)
            print(f"violation: {viol['class']}: {viol['message']}")
            print(f"run {fail[0]} of seed {vseed}: {len(fail[3])} steps, minimised to {ns}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            rc = 1
        # a listed finding is reproduced from its own replay on every run
        for k, e in enumerate(known_entries()):
            if e["property"] != prop:
                continue
            r = engine.execute(mod.World, cfg=e["config"], steps=e["steps"]) if "config" in e else None
            if tot["known"].get(k) or (r is not None and r.violation and match_known(prop, r.violation) == k):
                print(f"KNOWN-FINDING: property={prop} {e['what']}")
            else:
                print(f"note: the listed finding did not occur: {e['what']}")
        wall = time.monotonic() - t0
        ev = {
            "property": prop, "tier": tier, "seed": vseed,
            "level": getattr(mod, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": tot["runs"],
                "distinct_nontrivial": len(tot["nontrivial"]),
                "rule": mod.RULE,
                "samples": samples,
                "runs_planned": nruns,
                "simulated_steps": tot["steps"],
                "runs_per_hour": int(tot["runs"] / max(sim_wall, 1e-6) * 3600),
                "distinct_seeds": tot["runs"],
                "simulated_time": f"{tot['steps']} scheduler steps (the code under test reads no clock, "
                                  f"so simulated time is the scheduler's step count)",
                "faults_injected": dict(sorted(tot["faults"].items())),
                "probes": dict(sorted(tot["probes"].items())),
                "operations": dict(sorted(tot["ops"].items())),
                "distinct_states": len(tot["states"]),
                "state_measure": getattr(mod, "STATE_MEASURE", "hash of the world state after each step"),
                "components_real": getattr(mod, "REAL", ["fibertree (all of it, imported from /repo)"]),
                "components_stub": getattr(mod, "STUB", []),
                "known_findings_hit": sum(tot["known"].values()),
                "workers": workers,
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2),
            "violations": 1 if fail is not None else 0,
        }
        write_evidence(prop, ev)
        if os.environ.get("DST_DIGESTS"):
            with open(os.environ["DST_DIGESTS"], "w") as f:
                json.dump({str(k): v for k, v in sorted(digests.items())}, f)
        if rc == 0:
            print(f"ok property={prop}: {tot['runs']} runs, {tot['steps']} steps, "
                  f"{len(tot['states'])} distinct states, {sum(tot['faults'].values())} faults, "
                  f"{wall:.1f} s")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
