"""runrefactors.py FILE [ID...]: run checks against edits that keep the behaviour (list REFACTORS in a Python file).

Each edit is applied to a scratch copy of /repo; the repository's tests must pass there, and the checks stay quiet.
"""
import os
import runpy
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rs = runpy.run_path(sys.argv[1])["REFACTORS"]
for r in rs:
    if sys.argv[2:] and r["id"] not in sys.argv[2:]:
        continue
    w = "/tmp/refactorrun." + r["id"]
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    for f, old, new in r["edits"]:
        s = open(f"{w}/{f}").read()
        n = s.count(old)
        assert n == 1, (r["id"], f, n, old)
        open(f"{w}/{f}", "w").write(s.replace(old, new))
    p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests", "-p", "no:cacheprovider"], cwd=w,
                       capture_output=True, text=True, env={**os.environ, "PYTHONPATH": w})
    if p.returncode:
        print(r["id"], "TESTS FAIL", p.stdout[-600:], flush=True)
        shutil.rmtree(w)
        continue
    for c in r["props"].split():
        t = time.time()
        p = subprocess.run(["python3-vt", HERE + "/check.py", c], capture_output=True, text=True, cwd=HERE,
                           env={**os.environ, "VERIF_REPO": w})
        print(f"{r['id']:26} {c} exit {p.returncode} {time.time() - t:.0f} s", "" if p.returncode == 0 else " <<<<<<",
              flush=True)
        if p.returncode:
            print(p.stdout[-1800:], p.stderr[-300:], flush=True)
    shutil.rmtree(w, ignore_errors=True)
