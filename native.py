"""Run contracts natively: code and specification side by side under CPython.

  native.py replay FILE                  the recorded input again; exit 1 when the outcomes differ
  native.py search CONTRACT SECONDS SEED random search; prints JSON {runs, distinct, fail}
  native.py try CONTRACT                 inputs on stdin (pickle); prints JSON of the first that fails
"""
import base64
import contextlib
import datetime
import io
import json
import os
import pickle
import random
import sys
import time
import types
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, HERE]

from pyvc.contract import *  # noqa: E402

CODECS = ["cp1252", "cp1252", "cp1250", "cp932", "cp437", "utf-8", "ascii", "latin-1", "utf-16-le"]


def resolve(dotted):
    import importlib
    mod, _, fn = dotted.rpartition(".")
    return getattr(importlib.import_module(mod), fn)


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout


def run(f, args, seconds=20):
    """("ok", value) or ("raise", exception), number of warnings, printed text"""
    import signal
    buf = io.StringIO()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(buf):
            warnings.simplefilter("always")
            try:
                v = f(*args)
                if isinstance(v, types.GeneratorType):
                    while True:
                        try:
                            next(v)
                        except StopIteration as e:
                            v = e.value
                            break
                o = ("ok", v)
            except Exception as e:
                o = ("raise", e)
            except Timeout:
                o = ("hang", None)
            except BaseException as e:
                if type(e).__name__ != "Unspecified":
                    raise
                o = ("unspecified", None)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return o, len(w), buf.getvalue()


TOL = datetime.timedelta(microseconds=40)


def same(a, b):
    if isinstance(a, datetime.datetime) and isinstance(b, datetime.datetime):
        return abs(a - b) <= TOL if (a.tzinfo is None) == (b.tzinfo is None) else False
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b and isinstance(a, str) == isinstance(b, str)


def differs(c, args):
    """None, or what differs between code and specification on args"""
    if c.pre:
        o, _, _ = run(resolve(c.pre), args)
        if o[0] != "ok" or not o[1]:
            return None
    o, w, out = run(resolve(c.impl), args)
    if o[0] == "hang":
        return "the code does not end within 20 s"
    if c.spec is None:
        if o[0] == "raise" and not isinstance(o[1], tuple(c.raises)):
            return f"code raises {o[1]!r}"
        return None
    for spec in (c.spec,) + c.alt:
        d = against(c, o, w, out, spec, args)
        if d:
            return d
    return None


def against(c, o, w, out, spec, args):
    s, w2, out2 = run(resolve(spec), args)
    if s[0] in ("hang", "unspecified"):
        return None
    if o[0] != s[0]:
        return f"code: {show(o)}; specification: {show(s)}"
    if o[0] == "raise":
        if type(o[1]) is not type(s[1]) and not (isinstance(o[1], c.alike) and isinstance(s[1], c.alike)):
            return f"code raises {o[1]!r}, specification {s[1]!r}"
        return None
    if not same(o[1], s[1]):
        return f"code: {show(o)}; specification: {show(s)}"
    if {"blocks", "extras", "sections"} & set(c.uses):
        # a malformed block may give warnings of its own before it is dropped
        w, w2 = bool(w), bool(w2)
    if c.warns and w != w2:
        return f"code gives {w} warnings, specification {w2}"
    if out != out2 and not printed_alike(c, out, out2):
        return f"code prints {out[:500]!r}, specification {out2[:500]!r}"
    return None


def printed_alike(c, a, b):
    x, y = printed_yaml(a), printed_yaml(b)
    if x and y:
        return x == y
    try:
        a, b = json.loads(a), json.loads(b)
    except ValueError:
        return False
    return isinstance(a, dict) and a == b


def printed_yaml(text):
    """the title, the YAML data (mappings as ordered pairs) and the characters beyond ASCII of a readable report"""
    import yaml

    class Loader(yaml.SafeLoader):
        pass

    Loader.add_constructor("tag:yaml.org,2002:map", lambda l, n: (
        "mapping", [(l.construct_object(k, True), l.construct_object(v, True)) for k, v in n.value]))
    title, _, rest = text.partition("\n")
    if not title.endswith(":") or not rest.startswith(" "):
        return None
    try:
        return title, yaml.load(rest, Loader), sorted(c for c in text if c > "\x7f" and c.isprintable())
    except yaml.YAMLError:
        return None


def show(o):
    r = repr(o[1])
    return r if len(r) < 1500 else r[:1500] + "..."


def enc(args):
    return base64.b64encode(pickle.dumps(args)).decode()


def dec(s):
    return pickle.loads(base64.b64decode(s))


def make_args(c, r):
    import gens
    g = None
    if c.gen:
        f = getattr(gens, c.gen, None) or resolve(c.gen)
        g = f(r)
        if isinstance(g, tuple):
            return g
    out = []
    for a in c.args:
        if isinstance(a, Bytes):
            if g is not None:
                b, g = g, None
                if len(b) < a.n:
                    b = b + bytes(a.n - len(b))
                if a.m is not None:
                    b = b[:a.m]
                out.append(b)
            else:
                out.append(gens.bytes_for(r, a.n, a.m))
        elif isinstance(a, Int):
            lo = a.lo if a.lo is not None else -(1 << 33)
            hi = a.hi if a.hi is not None else 1 << 33
            out.append(r.choice((lo, hi, r.randint(lo, hi), min(hi, max(lo, r.randrange(300))))))
        elif isinstance(a, Bool):
            out.append(r.random() < .5)
        elif isinstance(a, Codec):
            out.append(r.choice(CODECS))
        elif isinstance(a, Text):
            out.append(gens.word(r))
        else:
            out.append(a.v)
    return tuple(out)


def contract(name):
    import contracts
    return contracts.BY_NAME[name]


def search(name, seconds, seed, most=None):
    c = contract(name)
    r = random.Random(f"{seed}/{name}")
    end = time.time() + seconds
    n, seen, sample = 0, set(), None
    while time.time() < end and (most is None or n < most):
        args = make_args(c, r)
        n += 1
        if len(seen) < 200000:
            seen.add(hash(args))
        d = differs(c, args)
        if d is not None:
            args = reduce_input(c, args, end + 10)
            return {"runs": n, "distinct": len(seen), "fail": {"args": enc(args), "shown": repr(args)[:3000],
                                                              "why": differs(c, args)}}
        if n == 1:
            sample = repr(args)[:300]
    return {"runs": n, "distinct": len(seen), "fail": None, "sample": sample}


def reduce_input(c, args, end):
    """a smaller failing input"""
    args = list(args)
    for k, a in enumerate(args):
        if not isinstance(a, bytes):
            continue
        step = max(1, len(a) // 2)
        while step and time.time() < end:
            i = len(args[k])
            changed = False
            while i > 0 and time.time() < end:
                t = list(args)
                t[k] = args[k][:max(0, i - step)] + args[k][i:]
                if len(t[k]) >= getattr(c.args[k], "n", 0) if k < len(c.args) else True:
                    try:
                        if differs(c, tuple(t)) is not None:
                            args = t
                            changed = True
                    except Exception:
                        pass
                i -= step
            if not changed:
                step //= 2
    return tuple(args)


def try_inputs(name, inputs):
    c = contract(name)
    for args in inputs:
        d = differs(c, tuple(args))
        if d is not None:
            args = tuple(args)
            return {"fail": {"args": enc(args), "shown": repr(args)[:3000], "why": d}}
    return {"fail": None}


def main():
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        if not d.get("args"):
            print("no failing input was found; the undischarged obligation:")
            print(json.dumps(d, indent=1)[:4000])
            return 1
        c = contract(d["contract"])
        args = dec(d["args"])
        why = differs(c, args)
        print(f"contract {c.name}: {c.impl} against {c.spec}\ninput {args!r}"[:3000])
        print("FAILS: " + why if why else "agrees")
        return 1 if why else 0
    if sys.argv[1] == "search":
        print(json.dumps(search(sys.argv[2], float(sys.argv[3]), sys.argv[4])))
    else:
        print(json.dumps(try_inputs(sys.argv[2], pickle.load(sys.stdin.buffer))))
    return 0


if __name__ == "__main__":
    sys.exit(main())
