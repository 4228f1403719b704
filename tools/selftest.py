"""selftest.py [NAME...]: the engine on idioms of Python (specs/idioms.py): each a_* must be proved equal to the p_*
before it, and the two must agree natively on random bytes."""
import ast
import inspect
import multiprocessing
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.environ.get("VERIF_REPO", "/repo")]


def pairs():
    p = None
    for n in ast.parse(open(HERE + "/specs/idioms.py").read()).body:
        if isinstance(n, ast.FunctionDef):
            if n.name.startswith("p_"):
                p = n.name
            elif n.name.startswith("a_"):
                yield n.name, p


def run(x):
    from pyvc import harness
    from pyvc.contract import Bytes, Contract
    a, p = x
    from specs import idioms
    ghost = inspect.isgeneratorfunction(getattr(idioms, p))
    c = Contract("idiom." + a, "specs.idioms." + a, "specs.idioms." + p, [Bytes("d")], seconds=60, ghost=ghost)
    r = harness.check(c)
    return a, r["ok"], r["wall_s"], [f"{f['label']}: {str(f['why'])[-900:]}" for f in r["fails"][:2]]


def native(a, p):
    import warnings
    from specs import idioms
    rnd = random.Random(1)

    def out(f, d):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                x = f(d)
                while inspect.isgenerator(x):
                    try:
                        next(x)
                    except StopIteration as e:
                        x = e.value
                return x, len(w)
            except Exception as e:
                return type(e), len(w)
    for i in range(400):
        d = bytes(rnd.choice([0, 0, 1, 2, 3, 128, rnd.randrange(256)]) for _ in range(rnd.randrange(20)))
        x, y = out(getattr(idioms, a), d), out(getattr(idioms, p), d)
        if x != y:
            return f"{d!r}: {x} against {y}"


if __name__ == "__main__":
    todo = [x for x in pairs() if not sys.argv[1:] or x[0] in sys.argv[1:]]
    bad = 0
    for a, p in todo:
        if w := native(a, p):
            print(a, "NATIVE", w)
    with multiprocessing.Pool(4) as pool:
        for a, ok, s, why in pool.imap(run, todo):
            bad += not ok
            if not ok or sys.argv[1:]:
                print(f"{a:20} {'proved' if ok else 'NOT PROVED'} {s} s", *why, sep="\n    ")
    print(len(todo) - bad, "of", len(todo), "proved")
