#!/usr/bin/env python3
"""Develop planted bugs (never touches /repo: works in a mount namespace over scratch copies).

  plant.py new SPEC.py      SPEC defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source)
  plant.py test ID          run the stable tests on the patched copy
  plant.py check ID [PROP]  run the property's quick check on the patched copy
"""
import json, os, pathlib, runpy, shutil, subprocess, sys, tempfile

SEEDED = pathlib.Path("/verif/seeded")
DEMO_SH = """#!/bin/bash
# run with cwd /repo
export HOME=/root PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3
export HF_HUB_OFFLINE=1 TRANSFORMERS_OFFLINE=1 MPLBACKEND=Agg TQDM_DISABLE=1
exec timeout 280 /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""


def scratch():
    d = pathlib.Path(tempfile.mkdtemp(prefix="plant-", dir="/tmp"))
    subprocess.run(["cp", "-a", "/repo", str(d / "repo")], check=True)
    return d


def inside(d, cmd, timeout=1500):
    """run cmd with d/repo mounted over /repo, a copy of /verif over /verif and a private report folder"""
    if not (d / "verif").exists():
        subprocess.run(["cp", "-a", "/verif", str(d / "verif")], check=True)
        (d / "report").mkdir()
    sh = (f"mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && mount --bind {d}/report /opt/vp/report"
          f" && cd /repo && {cmd}")
    return subprocess.run(["unshare", "-Urm", "bash", "-c", sh], capture_output=True, text=True, timeout=timeout)


def apply(d, id_):
    r = subprocess.run(["git", "apply", str(SEEDED / id_ / "patch.diff")], cwd=d / "repo")
    assert r.returncode == 0, "patch does not apply"


def new(spec):
    s = runpy.run_path(spec)
    id_ = s["ID"]
    out = SEEDED / id_
    out.mkdir(parents=True, exist_ok=True)
    d = scratch()
    try:
        for f, old, new_ in s["EDITS"]:
            p = d / "repo" / f
            t = p.read_text()
            assert t.count(old) == 1, (f, old, t.count(old))
            p.write_text(t.replace(old, new_))
        diff = subprocess.run(["git", "diff"], cwd=d / "repo", capture_output=True, text=True).stdout
        (out / "patch.diff").write_text(diff)
        (out / "demo.sh").write_text(DEMO_SH)
        os.chmod(out / "demo.sh", 0o755)
        (out / "demo.py").write_text(s["DEMO"].lstrip("\n"))
        (out / "meta.json").write_text(json.dumps(
            {"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
        r1 = inside(d, f"bash /verif/seeded/{id_}/demo.sh")
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d / "repo", check=True)
        r0 = inside(d, f"bash /verif/seeded/{id_}/demo.sh")
        print(id_, "demo clean rc", r0.returncode, "patched rc", r1.returncode)
        if r0.returncode or not r1.returncode or r1.returncode == 124:
            print(r0.stdout[-800:], r0.stderr[-1500:], "--- patched:", r1.stdout[-800:], r1.stderr[-800:])
            return 1
    finally:
        shutil.rmtree(d)
    return check(id_, s["PROP"])


def check(id_, prop=None):
    prop = prop or json.loads((SEEDED / id_ / "meta.json").read_text())["property"]
    d = scratch()
    try:
        apply(d, id_)
        r = inside(d, f"VERIF_SEED=1 VERIF_TIER=quick bash /verif/run.sh {prop} --tier quick")
        v = [l for l in (r.stdout + r.stderr).splitlines() if "VIOLATION" in l]
        print(id_, prop, "check rc", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", *v[:2], sep=" ")
        if r.returncode == 2:
            print(r.stdout[-1000:], r.stderr[-1000:])
    finally:
        shutil.rmtree(d)
    return 0


def test(id_):
    d = scratch()
    try:
        apply(d, id_)
        inside(d, f"bash /opt/vp/test.sh {d}/out.json", 3000)
        got = set(json.loads((d / "out.json").read_text())["passed"])
        stable = set(json.loads(pathlib.Path("/opt/vp/BASELINE.json").read_text())["stable"])
        missing = sorted(stable - got)
        print(id_, "tests", "PASS" if not missing else f"FAIL {missing[:5]} ({len(missing)})")
    finally:
        shutil.rmtree(d)
    return 0


if __name__ == "__main__":
    what, *args = sys.argv[1:]
    sys.exit(max([{"new": new, "test": test}[what](a) for a in args] or [0]) if what != "check" else check(*args))
