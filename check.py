"""check.py PROPERTY [--thorough]: verify the contracts of a property against /repo's current source.

exit 0: every obligation of every contract was discharged and no native run disagrees with its specification
exit 1: VIOLATION lines name the failing input (or end with no-failing-input-found)
"""
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"

import contracts  # noqa: E402

START = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def job(j):
    """run in a worker process"""
    kind, name = j[:2]
    t = time.time()
    try:
        if kind == "verify":
            limit()
            from pyvc import harness
            r = harness.check(contracts.BY_NAME[name], bound=j[2], seconds=j[3], collect=j[4], alt=j[5])
        elif kind == "search":
            p = subprocess.run([PY, os.path.join(HERE, "native.py"), "search", name, str(j[2]), str(j[3])],
                               capture_output=True, timeout=j[2] + 90, cwd="/", preexec_fn=limit)
            r = json.loads(p.stdout.splitlines()[-1]) if p.returncode == 0 and p.stdout.strip() else \
                {"runs": 0, "distinct": 0, "fail": None, "error": p.stderr.decode(errors="replace")[-1500:]}
        else:
            p = subprocess.run([PY, os.path.join(HERE, "native.py"), "try", name], input=pickle.dumps(j[2]),
                               capture_output=True, timeout=240, cwd="/", preexec_fn=limit)
            r = json.loads(p.stdout.splitlines()[-1]) if p.returncode == 0 and p.stdout.strip() else {"fail": None}
    except Exception as e:
        r = {"contract": name, "ok": False, "error": f"{type(e).__name__}: {e}", "fail": None, "obl": 0, "labels": {},
             "fails": [{"label": "engine", "why": f"{type(e).__name__}: {e}"[:500], "kind": "undecided",
                        "inputs": None}]}
    r["job_s"] = round(time.time() - t, 2)
    return j, r


def pool(jobs, seconds):
    """run the jobs, at most eight at a time; [(job, result)] of those that ended in time"""
    out = []
    if not jobs:
        return out
    ctx = mp.get_context("fork")
    running, todo, end = [], list(jobs), min(time.time() + seconds, START + (840 if seconds < 1000 else 10000))

    def work(j, conn):
        try:
            os.setpgid(0, 0)
        except OSError:
            pass
        conn.send_bytes(pickle.dumps(job(j)))
        conn.close()

    try:
        while (todo or running) and time.time() < end:
            while todo and len(running) < 8:
                j = todo.pop(0)
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=work, args=(j, b))
                p.start()
                b.close()
                running.append((p, a, j))
            mp.connection.wait([a for _, a, _ in running], timeout=1)
            for x in list(running):
                p, a, j = x
                if a.poll():
                    try:
                        out.append(pickle.loads(a.recv_bytes()))
                    except (EOFError, OSError):
                        out.append((j, lost(j, "worker died")))
                    p.join(5)
                    running.remove(x)
                elif not p.is_alive():
                    out.append((j, lost(j, "worker died")))
                    running.remove(x)
    finally:
        for p, a, j in running:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.kill()
            out.append((j, lost(j, "time limit")))
        for j in todo:
            out.append((j, lost(j, "time limit")))
    return out


def lost(j, why):
    return {"contract": j[1], "ok": False, "fail": None, "obl": 0, "labels": {}, "error": why, "runs": 0, "distinct": 0,
            "fails": [{"label": "budget", "why": why, "kind": "undecided", "inputs": None}], "job_s": 0}


def write_replay(prop, name, d):
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    path = os.path.join(HERE, "evidence", "replay", f"{prop}-{name}.json")
    with open(path, "w") as f:
        json.dump(d, f, indent=1, default=repr)
    return path


def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    t0 = time.time()
    names = contracts.PROPS[prop]
    cs = [contracts.BY_NAME[n] for n in names]
    # the costly ones first
    order = sorted(names, key=lambda n: -contracts.COST.get(n, 1))
    per = max(2.0, min(40.0 / len(cs) * 4, 12.0)) if not thorough else 120.0
    jobs = [("verify", n, None, None, False, 0) for n in order]
    jobs += [("search", n, per, SEED) for n in names if contracts.BY_NAME[n].native]
    if thorough:
        jobs += [("search", n, per, SEED + 1000 * k) for n in names for k in range(1, 4) if contracts.BY_NAME[n].native]
    res = pool(jobs, 420 if not thorough else 3000)
    ver = {j[1]: r for j, r in res if j[0] == "verify"}
    nat = [(j[1], r) for j, r in res if j[0] == "search"]
    violations = []
    fails = {n: r["fail"] for n, r in nat if r.get("fail")}
    for n, r in nat:
        if r.get("error"):
            print(f"note: native run of {n}: {r['error'][-300:]}")
    if not fails:
        # code with other loops: the same outcome, specified with other loops
        other = [("verify", n, None, None, False, k + 1) for n in names if not ver[n]["ok"]
                 for k in range(len(contracts.BY_NAME[n].alt))]
        for j, r in pool(other, 200):
            if r["ok"]:
                ver[j[1]] = r
    bad = [n for n in names if not ver[n]["ok"]]
    searched = {}
    if bad and not all(n in fails for n in bad):
        # inputs proposed by the verifier, a bounded exploration and a longer random search
        tries = []
        for n in bad:
            ins = [f["inputs"] for f in ver[n]["fails"] if f.get("inputs")]
            ins += [x[3] for x in ver[n].get("coupling", []) if len(x) > 3 and x[3]]
            if ins and contracts.BY_NAME[n].native:
                tries.append(("try", n, ins))
        for j, r in pool(tries, 120):
            if r.get("fail"):
                fails.setdefault(j[1], r["fail"])
        rest = [n for n in bad if n not in fails and contracts.BY_NAME[n].native]
        if rest and not fails:
            more = [("verify", n, 3, 60, True, 0) for n in rest]
            more += [("search", n, 45, SEED + 77 + k) for k in range(2) for n in rest]
            more += [("search", n, 20, SEED + 79) for n in names if n not in rest and contracts.BY_NAME[n].native]
            tries = []
            for j, r in pool(more, 200):
                if j[0] == "search":
                    searched[j[1]] = searched.get(j[1], 0) + r.get("runs", 0)
                    if r.get("fail"):
                        fails.setdefault(j[1], r["fail"])
                else:
                    ins = [f["inputs"] for f in r["fails"] if f.get("inputs")] + r.get("samples", [])
                    if ins:
                        tries.append(("try", j[1], ins))
            for j, r in pool(tries, 120):
                if r.get("fail"):
                    fails.setdefault(j[1], r["fail"])
    for n, f in fails.items():
        c = contracts.BY_NAME[n]
        path = write_replay(prop, n, {"property": prop, "contract": n, "impl": c.impl, "spec": c.spec, **f,
                                      "obligations": ver[n]["fails"][:4],
                                      "how": f"{PY} /verif/native.py replay <this file>"})
        violations.append(f"VIOLATION property={prop} replay={path}")
        print(f"{n}: {f['why'][:600]}")
        print(f"  input: {f['shown'][:600]}")
    for n in bad:
        for f in ver[n]["fails"][:4]:
            print(f"{n}: obligation not discharged: {f['label']}: {str(f['why'])[:400]}")
        if n in fails:
            continue
        if fails:
            print(f"{n}: reported through the failing inputs above")
            continue
        c = contracts.BY_NAME[n]
        path = write_replay(prop, n, {"property": prop, "contract": n, "impl": c.impl, "spec": c.spec, "args": None,
                                      "obligations": ver[n]["fails"], "coupling": ver[n].get("coupling"),
                                      "native_runs": searched.get(n, 0)})
        violations.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    evidence(prop, thorough, names, ver, nat, violations, t0)
    for v in violations:
        print(v)
    n = sum(r["obl"] for r in ver.values())
    print(f"{prop}: {len(names)} contracts, {n} obligations, {sum(r.get('runs', 0) for _, r in nat)} native runs, "
          f"{time.time() - t0:.1f} s: {'VIOLATED' if violations else 'holds'}")
    return 1 if violations else 0


TRUSTED = [
    "pyvc: the symbolic interpreter of CPython 3.12 bytecode and its models of builtins, struct, datetime, hashlib, warnings "
    "and open(..., 'rb') (cross-checked on every run against CPython by the native runs counted here); functions of the "
    "standard library written in Python (uuid, contextlib, textwrap, ...) are executed from their installed source",
    "z3 5.3.2 (python3-vt z3-solver)",
    "codecs: decoding with a named codec is an uninterpreted deterministic function that either succeeds or raises "
    "UnicodeDecodeError; errors='replace' always succeeds",
    "encoders: json and PyYAML print the structure and options they are given (what is printed is parsed and compared in "
    "the native runs); argparse runs natively on the concrete words of each command line",
    "float arithmetic of FILETIME conversion is treated as exact rational arithmetic with a stated error of 40 us",
    "a process does not run out of memory or recursion depth",
]


def evidence(prop, thorough, names, ver, nat, violations, t0):
    labels = {}
    funcs = set()
    for n in names:
        for k, v in ver[n].get("labels", {}).items():
            labels[f"{n} | {k}"] = v
        funcs |= set(ver[n].get("functions", []))
    obl = sum(r["obl"] for r in ver.values())
    failed = sum(1 for n in names for f in ver[n]["fails"])
    runs = sum(r.get("runs", 0) for _, r in nat)
    bounded = [n for n in names if contracts.BY_NAME[n].bound]
    d = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": obl, "discharged": max(0, obl - failed),
            "checker_cmd": f"python3-vt /verif/check.py {prop}",
            "trusted_base": TRUSTED,
            "contracts": {n: {"impl": contracts.BY_NAME[n].impl, "spec": ver[n].get("spec", contracts.BY_NAME[n].spec),
                              "verified": ver[n]["ok"], "obligations": ver[n]["obl"],
                              "by_rewriting": ver[n].get("trivial", 0), "paths": ver[n].get("paths", 0),
                              "loops_cut_by_invariant": ver[n].get("loops", []),
                              "invariants": ver[n].get("inv", []),
                              "assumed_call_site_contracts": list(contracts.BY_NAME[n].uses),
                              "bounded": contracts.BY_NAME[n].bound,
                              "solver_queries": ver[n].get("checks", 0), "solver_s": ver[n].get("solver_s", 0),
                              "wall_s": ver[n].get("wall_s", 0)} for n in names},
            "functions_under_contract": sorted(funcs),
            "obligation_labels": dict(sorted(labels.items())[:400]),
            "bounded_contracts": bounded,
            "solver_s": round(sum(r.get("solver_s", 0) for r in ver.values()), 2),
            "evaluations": runs,
            "distinct_nontrivial": sum(r.get("distinct", 0) for _, r in nat),
            "rule": "native cross-check: structures of the format generated at random and damaged (gens.py), run through "
                    "code and specification; distinct by hash of the input",
            "samples": [r.get("sample") for _, r in nat if r.get("sample")][:3],
        },
        "assumptions": contracts.assumptions(names),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(d, f, indent=1, default=repr)


if __name__ == "__main__":
    import multiprocessing.connection  # noqa: F401
    try:
        rc = main()
    except Exception as e:
        import traceback
        traceback.print_exc()
        p = sys.argv[1] if len(sys.argv) > 1 else "?"
        path = write_replay(p, "error", {"property": p, "error": traceback.format_exc(), "args": None})
        print(f"VIOLATION property={p} replay={path} no-failing-input-found")
        rc = 1
    sys.exit(rc)
