"""seed.py SPEC.py -- (re)create /verif/seeded/<id> from specs and confirm each in a scratch copy.

A spec: dict(id, property, file, edits=[(old, new)...], needs, breaks, demo=python source).
Confirmed = applies to HEAD, demo passes before / fails after, the existing tests still pass."""
import json, os, re, runpy, shutil, subprocess, sys

V = "/verif/seeded"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=None, env=None, t=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


def demo(d, w):
    return sh(f"bash {d}/demo.sh", cwd=w, t=300)


def build(s):
    w = f"/tmp/s/{s['id']}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    for f, old, new in [(e if len(e) == 3 else (s["file"],) + tuple(e)) for e in s["edits"]]:
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, text=True).stdout
    d = f"{V}/{s['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    # lines touched must be original ones
    a = demo(d, "/repo")
    b = demo(d, w)
    ok = a[0] == 0 and b[0] != 0
    print(s["id"], "demo clean", a[0], "patched", b[0], "" if ok else "\n" + a[1][-600:] + b[1][-300:])
    t = "skipped"
    if ok and not os.environ.get("NOTEST"):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONPATH=w, OMP_NUM_THREADS="1")
        # one process for the save/load tests
        rc1, o1 = sh(f"{PY} -m pytest -q -x -p no:cacheprovider tests/test_save_load.py", cwd=w, env=env)
        rc2, o2 = sh(f"timeout 400 {PY} -m pytest -q -x -p no:cacheprovider -n 6 --dist load --ignore=tests/test_save_load.py tests", cwd=w, env=env)
        ok = rc1 == 0 and rc2 == 0
        t = o1.strip().splitlines()[-1] + " | " + (o2.strip().splitlines() or ["?"])[-1]
    print("   ", s["id"], "OK" if ok else "REJECTED", t)
    shutil.rmtree(w, ignore_errors=True)
    if not ok:
        shutil.rmtree(d)
    return ok


specs = runpy.run_path(sys.argv[1])["S"]
sel = sys.argv[2:]
for s in specs:
    if not sel or s["id"] in sel:
        if not sel and os.path.exists(f"{V}/{s['id']}"):
            continue
        build(s)
