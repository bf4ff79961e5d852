"""Make /verif/seeded/<id> from a spec and confirm it.

usage: plant.py SPEC.py [id ...] [--fast]
SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new), ...], demo=python source)].
Every bug is applied to a scratch copy of /repo, built into a patch, demonstrated
(demo passes on the clean copy, fails on the patched one) and run through the tests.
A bug that is not confirmed is not kept.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from pathlib import Path

SEED = Path(__file__).resolve().parents[1] / "seeded"
DEMO = """#!/bin/bash
# run with cwd = the repository (after the build)
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PYTHONPATH=$repo/lib PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen QT_API=pyqt6 HOME=/root
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
d=$(mktemp -d) && cd "$d" || exit 2
"$PY" "$here/demo.py"; rc=$?
cd / && rm -rf "$d"
exit $rc
"""
BASE = set()
for k, v in json.load(open("/opt/vp/BASELINE.json")).items():
    if k in ("stable", "passed"):
        BASE = set(v) if isinstance(v, list) else {t for t, r in v.items() if r in ("passed", True, "pass")}


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, capture_output=True, text=True)


def one(bug, fast=False, n=5):
    tmp = Path(tempfile.mkdtemp(prefix="plant_", dir="/tmp"))
    wt = tmp / "r"
    try:
        sh(f"cp -a /repo {wt}")
        sh("git checkout -q -- . ", cwd=wt)
        for f, old, new in bug["edits"]:
            p = wt / f
            s = p.read_text()
            if s.count(old) != 1:
                return f"edit matches {s.count(old)} times in {f}: {old[:60]!r}"
            p.write_text(s.replace(old, new))
        diff = sh("git diff", cwd=wt).stdout
        out = tmp / "seed"
        out.mkdir()
        (out / "patch.diff").write_text(diff)
        (out / "demo.sh").write_text(DEMO)
        (out / "demo.sh").chmod(0o755)
        (out / "demo.py").write_text(bug["demo"].lstrip("\n"))
        (out / "meta.json").write_text(json.dumps(
            {"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, indent=1) + "\n")
        a = sh(f"bash {out}/demo.sh", cwd="/repo", timeout=300)
        b = sh(f"bash {out}/demo.sh", cwd=wt, timeout=300)
        if a.returncode != 0:
            return "demo fails on the clean tree: " + (a.stdout + a.stderr)[-600:]
        if b.returncode == 0:
            return "demo passes with the patch: " + (b.stdout + b.stderr)[-300:]
        if not fast:
            r = sh(f"N={n} bash {Path(__file__).parent}/wtest.sh {wt} {tmp}/out", timeout=1500)
            if "MISSING 0" not in r.stdout:
                return "tests: " + r.stdout[-500:] + r.stderr[-300:]
        dst = SEED / bug["id"]
        if dst.exists():
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        return "KEPT"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    spec = runpy.run_path(sys.argv[1])
    ids = [a for a in sys.argv[2:] if not a.startswith("--")]
    fast = "--fast" in sys.argv
    for bug in spec["BUGS"]:
        if ids and bug["id"] not in ids:
            continue
        try:
            res = one(bug, fast)
        except Exception as e:  # noqa: BLE001
            res = f"error {e!r}"
        print(bug["id"], res, flush=True)


if __name__ == "__main__":
    main()
