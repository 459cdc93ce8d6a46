"""Confirms a planted bug and stores it: plant(id, property, edits, demo, needs, breaks).

edits: [(file, old, new)] with old occurring exactly once; demo: Python source that raises on the changed tree and
runs through on the unchanged one.  Works in a scratch copy of /repo; nothing is changed in /repo itself.
"""
import json, os, re, shutil, subprocess, sys, tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SH = """#!/bin/bash
# cwd: the repository. Exit 0 if the behaviour holds.
d="$(cd "$(dirname "$0")" && pwd)"
s="$(mktemp -d)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg HOME="$s" NUMBA_CACHE_DIR="$s" MPLCONFIGDIR="$s" TMPDIR="$s" SCRATCH="$s"
/opt/venv/bin/python -W ignore "$d/demo.py" > "$s/out.txt" 2>&1; rc=$?
tail -5 "$s/out.txt"
rm -rf "$s"
exit $rc
"""


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def plant(id, prop, edits, demo, needs, breaks, extra=(), check=True):
    d = VERIF / "seeded" / id
    shutil.rmtree(d, ignore_errors=True); d.mkdir(parents=True)
    (d / "demo.py").write_text(demo.lstrip("\n"))
    for f in extra:
        shutil.copy(f, d / Path(f).name)
    (d / "demo.sh").write_text(SH); os.chmod(d / "demo.sh", 0o755)
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    w = Path(tempfile.mkdtemp(prefix="plant_")); r = w / "repo"
    try:
        subprocess.run(["cp", "-a", "/repo", str(r)], check=True)
        for f, old, new in edits:
            t = (r / f).read_text()
            assert t.count(old) == 1, f"{id}: {f}: {t.count(old)} occurrences of {old!r}"
            (r / f).write_text(t.replace(old, new))
        diff = run(["git", "diff"], r).stdout
        (d / "patch.diff").write_text(diff)
        a = run(["bash", str(d / "demo.sh")], "/repo")
        assert a.returncode == 0, f"{id}: demo fails on the unchanged tree: {a.stdout}{a.stderr}"
        b = run(["bash", str(d / "demo.sh")], r)
        assert b.returncode != 0, f"{id}: demo passes with the patch"
        ts = Path("/opt/vp/test.sh").read_text().replace("/repo", str(r))
        (w / "test.sh").write_text(ts)
        t = run(["bash", str(w / "test.sh"), str(w / "o.json")], w)
        m = re.search(r"(\d+) passed", t.stdout)
        assert m and int(m[1]) >= 15, f"{id}: tests: {t.stdout[-500:]}"
        caught = "not run"
        if check:
            c = run([str(VERIF / "check"), prop, "quick"], w, env=dict(os.environ, VERIF_REPO=str(r)))
            caught = "CAUGHT" if c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout else f"MISSED rc={c.returncode} {c.stdout[-300:]}"
            k = re.search(r"violations by kind: (.*)", c.stdout)
            caught += " " + (k[1][:200] if k else "")
        print(f"{id} [{prop}] {caught} | demo: {b.stdout.strip().splitlines()[-1:]}")
    finally:
        shutil.rmtree(w, ignore_errors=True)
