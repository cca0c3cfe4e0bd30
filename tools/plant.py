"""plant.py SPEC.py: verify a planted bug in a scratch copy of /repo and store it under /verif/seeded.

The specification defines ID, PROPERTY, NEEDS, BREAKS, EDITS (list of (file, old, new)), and DEMO (a Python program that
fails with an AssertionError with the bug).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TF_CPP_MIN_LOG_LEVEL="3", OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="2")
ENV.pop("PYTHONPATH", None)
DEMO_SH = """#!/bin/bash
# Run in the repository: exit 0 if the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def main(path):
    s = runpy.run_path(path)
    out = os.path.join("/verif/seeded", s["ID"])
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in s["EDITS"]:
            q = os.path.join(repo, f)
            t = open(q).read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(q, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        removed = {l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")}
        demo = os.path.join(tmp, "demo")
        os.mkdir(demo)
        open(os.path.join(demo, "demo.py"), "w").write(s["DEMO"])
        open(os.path.join(demo, "demo.sh"), "w").write(DEMO_SH)

        def run(where):
            return subprocess.run(["bash", os.path.join(demo, "demo.sh")], cwd=where, env=ENV, capture_output=True, text=True, timeout=280)

        a, b = run("/repo"), run(repo)
        if a.returncode != 0 or b.returncode == 0:
            print(s["ID"], "DEMO: unchanged", a.returncode, a.stderr[-600:], "changed", b.returncode, b.stdout[-300:])
            return 1
        t = subprocess.run(
            [PY, "-m", "pytest", "tests", "-q", "-x", "-n", "6", "-p", "no:cacheprovider", "-p", "no:cov", "--timeout=300", "-W", "ignore"],
            cwd=repo, env=dict(ENV, PYTHONPATH=repo), capture_output=True, text=True,
        )
        last = t.stdout.strip().splitlines()[-1]
        if t.returncode != 0:
            print(s["ID"], "TESTS CATCH IT:", last, [l for l in t.stdout.splitlines() if l.startswith("FAILED")][:3])
            return 1
        os.makedirs(out, exist_ok=True)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(demo, f), os.path.join(out, f))
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        with open(os.path.join(out, "meta.json"), "w") as h:
            json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, h, indent=1)
        print(s["ID"], "ok:", last, "| demo with patch:", b.stderr.strip().splitlines()[-1][:150])
        return 0
    finally:
        shutil.rmtree(tmp)


sys.exit(max(main(p) for p in sys.argv[1:]))
