"""runseeds.py [ID...]: run the check of the property of each planted bug against a patched scratch copy of /repo."""
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(HERE + "/seeded"))
for i in ids:
    m = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
    w = "/tmp/seedrun"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    subprocess.run(["git", "-C", w, "apply", f"{HERE}/seeded/{i}/patch.diff"], check=True)
    t = time.time()
    p = subprocess.run(["python3-vt", HERE + "/check.py", m["property"]], capture_output=True, text=True, cwd=HERE,
                       env={**os.environ, "VERIF_REPO": w})
    v = [x for x in p.stdout.splitlines() if x.startswith("VIOLATION")]
    und = sum("no-failing" in x for x in v)
    print(f"{i:26} {m['property']} exit {p.returncode} {len(v) - und} replayed, {und} without input, "
          f"{time.time() - t:.0f} s", "" if p.returncode == 1 and len(v) > und else "  <<<<<<", flush=True)
    if p.returncode != 1 or len(v) == und:
        print(p.stdout[-1500:], p.stderr[-500:])
    shutil.rmtree(w, ignore_errors=True)
