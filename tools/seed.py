"""Dev tool: make and judge a planted bug.

usage: python3 tools/seed.py new ID   (reads /tmp/seed/ID.py with PROP, NEEDS, BREAKS, EDITS, DEMO)
       python3 tools/seed.py judge [ID...]   (applies, tests, demos and checks every kept bug)
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")


def sh(cmd, cwd, env=None, t=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr


def copy(name):
    d = f"/tmp/seedcopy-{name}-{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def demo(sid, d):
    return sh(f"bash {V}/seeded/{sid}/demo.sh", d, t=300)


def tests(d):
    rc, out = sh(f"cd test && rm -rf tmp && {PY} -W ignore -m pytest -q -p no:cacheprovider . 2>&1 | tail -4", d, dict(ENV, PYTHONPATH=d))
    return "557 passed" in out and "failed" not in out, out


def judge(sid, check=True):
    meta = json.load(open(f"{V}/seeded/{sid}/meta.json"))
    d = copy(sid)
    try:
        rc0, o0 = demo(sid, d)
        rc, o = sh(f"git apply {V}/seeded/{sid}/patch.diff", d)
        if rc:
            return f"{sid}: patch does not apply: {o}"
        ok, out = tests(d)
        rc1, o1 = demo(sid, d)
        res = f"{sid} [{meta['property']}]: tests {'pass' if ok else 'FAIL ' + out}; demo clean={rc0} bug={rc1}"
        if rc0 or not rc1 or rc1 > 120:
            res += "\n   demo output clean: " + o0[-400:] + "\n   bug: " + o1[-400:]
        else:
            res += " (" + o1.strip().splitlines()[-1][:150] + ")" if o1.strip() else ""
        if check:
            rc, o = sh(f"DST_REPO={d} ./check {meta['property']} quick", V)
            viol = [l for l in o.splitlines() if "VIOLATION" in l or l.startswith("  ")]
            res += f"\n   check rc={rc} " + (" | ".join(viol)[:400] if rc == 1 else o[-300:])
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def new(sid):
    ns = {}
    exec(open(f"/tmp/seed/{sid}.py").read(), ns)
    out = f"{V}/seeded/{sid}"
    os.makedirs(out, exist_ok=True)
    d = copy(sid + "n")
    try:
        for f, a, b in ns["EDITS"]:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        rc, diff = sh("git diff", d)
        open(out + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    open(out + "/demo.py", "w").write(ns["DEMO"].lstrip())
    open(out + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository\nHERE=$(cd "$(dirname "$0")" && pwd)\n'
        'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg\n'
        'SCRATCH=$(mktemp -d) || exit 99\ntrap \'rm -rf "$SCRATCH"\' EXIT\nexport SCRATCH\ncd "$SCRATCH" || exit 99\n'
        '/opt/venv/bin/python -W ignore "$HERE/demo.py"\n')
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    print(judge(sid))


if sys.argv[1] == "new":
    for s in sys.argv[2:]:
        new(s)
else:
    for s in sys.argv[2:] or sorted(os.listdir(V + "/seeded")):
        print(judge(s), flush=True)
