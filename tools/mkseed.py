"""mkseed.py FILE: build and confirm planted bugs described in a Python file (list SEEDS) in a scratch copy of /repo."""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, sys, struct, warnings, io, json, contextlib
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
import LnkParse3
assert LnkParse3.__file__.startswith(os.getcwd()), LnkParse3.__file__
from LnkParse3.lnk_file import LnkFile


def header(flags=0, **kw):
    h = bytearray(76)
    h[0:4] = struct.pack("<I", 76)
    h[4:20] = bytes.fromhex("0114020000000000C000000000000046")
    h[20:24] = struct.pack("<I", flags)
    for k, v in kw.items():
        o = int(k[1:])
        h[o:o + len(v)] = v
    return bytes(h)


def report(data, all=True, **kw):
    return LnkFile(indata=data, **kw).get_json(all)


def idlist(*items):
    d = b"".join(struct.pack("<H", len(i) + 2) + i for i in items) + bytes(2)
    return struct.pack("<H", len(d)) + d


'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    work = "/tmp/seedwork"
    only = sys.argv[2:]
    for s in runpy.run_path(sys.argv[1])["SEEDS"]:
        if only and s["id"] not in only:
            continue
        shutil.rmtree(work, ignore_errors=True)
        shutil.copytree("/repo", work, symlinks=True)
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(work, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT does not apply once:", f, t.count(old))
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        diff = sh("git", "-C", work, "diff").stdout
        out = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(PRE + s["demo"].strip() + "\n")
        open(out + "/demo.sh", "w").write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        clean = sh("sh", out + "/demo.sh", cwd="/repo")
        bug = sh("sh", out + "/demo.sh", cwd=work)
        t = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests", cwd=work,
               env={**os.environ, "PYTHONPATH": work, "PYTHONDONTWRITEBYTECODE": "1"})
        good = clean.returncode == 0 and bug.returncode != 0 and t.returncode == 0
        print(s["id"], "ok" if good else f"BAD clean={clean.returncode} bug={bug.returncode} tests={t.returncode}")
        if not good:
            print((clean.stderr + "\n--\n" + bug.stderr + bug.stdout)[-1500:], t.stdout[-600:])
            shutil.rmtree(out)
    shutil.rmtree(work, ignore_errors=True)


main()
