#!/usr/bin/env python3
"""plant.py SPEC.py : turns bug descriptions into /verif/seeded/<id> after confirming them in a scratch copy.
SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo)]"""
import sys, os, subprocess, shutil, json, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:]
SH = '#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2\nexec "$PY" "$D/demo.py"\n'


def sh(cmd, cwd, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


for b in BUGS:
    if only and b["id"] not in only: continue
    d = tempfile.mkdtemp(prefix="plant-")
    try:
        r = os.path.join(d, "repo")
        sh("git clone -q /repo %s" % r, "/")
        for f, old, new in b["edits"]:
            p = os.path.join(r, "src/pymiediff", f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        patch = sh("git diff", r).stdout
        # only original lines may be changed
        base = set(open_l for f, _, _ in b["edits"] for open_l in sh("git show c3088c3:src/pymiediff/" + f, r).stdout.split("\n"))
        for l in patch.split("\n"):
            if l.startswith("-") and not l.startswith("---") and l[1:] not in base: print("   WARNING changed line not original:", l)
        t = os.path.join(d, "seed"); os.makedirs(t)
        open(os.path.join(t, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(t, "demo.sh"), 0o755)
        open(os.path.join(t, "demo.py"), "w").write(b["demo"].lstrip())
        bad = sh("bash %s/demo.sh" % t, r, 300)
        good = sh("bash %s/demo.sh" % t, "/repo", 300)
        out = os.path.join(d, "o.json")
        tst = sh("PYTHONPATH=%s/src /opt/venv/bin/python -m pytest -q -x -n 6 tests 2>&1 | tail -5" % r, r, 900)
        if "unrecognized" in tst.stdout: tst = sh("PYTHONPATH=%s/src /opt/venv/bin/python -m pytest -q tests 2>&1 | tail -5" % r, r, 900)
        ok = bad.returncode != 0 and good.returncode == 0 and " failed" not in tst.stdout and " passed" in tst.stdout
        print(b["id"], "KEPT" if ok else "REJECTED", "| patched demo rc", bad.returncode, (bad.stdout + bad.stderr)[-200:].replace("\n", " "), "| clean rc", good.returncode, (good.stdout + good.stderr)[-200:].replace("\n", " "), "| tests", tst.stdout.strip().split("\n")[-1])
        if ok:
            s = os.path.join(V, "seeded", b["id"])
            shutil.rmtree(s, ignore_errors=True); shutil.copytree(t, s)
            open(os.path.join(s, "patch.diff"), "w").write(patch)
            json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(s, "meta.json"), "w"), indent=1)
    finally: shutil.rmtree(d, ignore_errors=True)
