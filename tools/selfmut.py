"""selfmut.py DIR [IDIOM...]: soundness test of the engine: mechanical changes to the idioms (specs/idioms.py), given to the engine

A change after which an idiom differs natively from its plain form must not be proved equal to it.
"""
import ast
import copy
import json
import multiprocessing
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
OUT = sys.argv[1]


def one(job):
    n, what, name, text = job
    w = f"{OUT}/w{os.getpid()}"
    if not os.path.isdir(w):
        shutil.copytree(HERE, w, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
    open(w + "/specs/idioms.py", "w").write(text)
    code = ("import sys; sys.argv = ['x']; sys.path.insert(0, 'tools'); import selftest as s, json\n"
            f"p = dict(s.pairs())[{name!r}]\n"
            f"d = s.native({name!r}, p)\n"
            f"print(json.dumps([d, d and s.run(({name!r}, p))[1]]))")
    try:
        r = subprocess.run([PY, "-B", "-c", code], cwd=w, capture_output=True, text=True, timeout=90)
        d, ok = json.loads(r.stdout.splitlines()[-1])
    except subprocess.TimeoutExpired:
        d, ok = "time", False
    except (ValueError, IndexError):
        d, ok = "FAILED " + r.stderr[-300:], False
    return {"n": n, "name": name, "what": what, "native": d, "proved": ok}


if __name__ == "__main__":
    os.makedirs(OUT, exist_ok=True)
    args, sys.argv = sys.argv, ["x", OUT]
    sys.path.insert(0, HERE + "/tools")
    import mutate
    names = set()
    for x in ast.parse(open(HERE + "/specs/idioms.py").read()).body:
        if isinstance(x, ast.FunctionDef) and x.name.startswith("a_"):
            names.add(x.name)
    jobs = []
    for m, text in mutate.mutants(HERE + "/specs/idioms.py"):
        top = m["where"].split(".")[0]
        if top in names and (not args[2:] or top in args[2:]):
            jobs.append((len(jobs), f"{m['where']}:{m['line']} {m['what']} {m['old']}", top, text))
    print(len(jobs), "mutants", flush=True)
    bad = diff = failed = 0
    jobs = jobs[::int(os.environ.get("EVERY", "1"))]
    with multiprocessing.Pool(int(os.environ.get("WORKERS", "4"))) as pool:
        for r in pool.imap_unordered(one, jobs):
            diff += bool(r["native"])
            if str(r["native"]).startswith("FAILED"):
                failed += 1
                if failed < 5:
                    print(json.dumps(r), flush=True)
            if r["native"] and r["proved"]:
                bad += 1
                print("UNSOUND", json.dumps(r), flush=True)
    print(f"{len(jobs)} mutants, {diff} differ natively, {bad} of these proved, {failed} did not run")
    shutil.rmtree(OUT, ignore_errors=True)
