"""Determinism check: the event-log digest of every run must not depend on the
number of workers, the hash seed, the process or the time.

usage: python3 tools/selfcheck.py [RUNS [SEEDS [PROP...]]]
"""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
runs = sys.argv[1] if len(sys.argv) > 1 else "600"
seeds = int(sys.argv[2]) if len(sys.argv) > 2 else 2
props = sys.argv[3:] or [c["property"] for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]]
bad = 0
for p in props:
    for s in range(1, seeds + 1):
        ref = None
        for workers, hs in (("8", "0"), ("3", "1"), ("1", "4242"), ("5", "random")):
            with tempfile.TemporaryDirectory() as d:
                r = subprocess.run(["./check", p, "quick"], cwd=V, capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_SEED=str(s), DST_RUNS=runs, DST_WORKERS=workers,
                                            DST_HASHSEED=hs, DST_DIGESTS=d + "/x"))
                if r.returncode:
                    print(p, s, workers, hs, "exit", r.returncode, r.stdout[-300:], r.stderr[-300:])
                    bad += 1
                    continue
                got = json.load(open(d + "/x"))
            if ref is None:
                ref = got
            else:
                diff = [k for k in ref if got.get(k) != ref[k]]
                if diff or len(got) != len(ref):
                    bad += 1
                    print(f"{p} seed {s} workers {workers} hashseed {hs}: {len(diff)} runs differ, first {diff[:5]}")
    print(p, "done", flush=True)
print("deterministic" if not bad else f"{bad} differences")
sys.exit(bad != 0)
