"""Contracts: a function of the code under verification and a specification function with equal outcome."""
import json
import os
import sys
import time
import traceback
import types

from .contract import *
from .values import *
from . import terms as T
from . import models as M
from . import interp as IN
from . import explore as EX
from . import loops as LP
from . import frame as FR

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(a):
    """an arbitrary value of the argument type"""
    if isinstance(a, Bytes):
        ln = Lin(a.n) if a.n == a.m else var("len_" + a.name, a.n, a.m)
        return mkbytes((("v", a.name, ZERO, ln),))
    if isinstance(a, Int):
        return mkint(var("int_" + a.name, a.lo, a.hi))
    if isinstance(a, Bool):
        return mkbool(eq(var("bool_" + a.name, 0, 1), 1))
    if isinstance(a, Codec):
        return SymStr((("o", "codec", (a.name,), ()),))
    if isinstance(a, Text):
        return SymStr((("o", "text", (a.name,), ()),))
    return a.v


def new_interp():
    I = IN.Interp(roots=[REPO, HERE])
    Ctx.interp = I
    Ctx.path = None
    I.contracts["specs.base", "find_unit"] = M.unit_find
    I.contracts["specs.pure", "query"] = FR.query
    M.shapes(I)
    return I


def resolve(I, dotted):
    mod, _, fn = dotted.rpartition(".")
    return getattr(I.import_module(mod), fn)


def outcome(I, fn, args):
    try:
        return ("ok", I.call(fn, args, {}))
    except PyExc as e:
        return ("raise", e.exc)


def drive(p, I, g):
    """run the specification to its end"""
    n = 0
    while not g.done:
        if not g.step(p, I):
            break
        n += 1
        if g.attached:
            p.prove("specification ends with the code", FALSE, "the code's loop ended, the specification's goes on")
            raise EX.PathEnd
        if n > 400:
            raise Unsupported("the specification does not end")
    return g.result


def make_harness(I, c, ex, alt=0):
    impl = resolve(I, c.impl)
    spec = (c.spec,) + c.alt
    spec = resolve(I, spec[alt]) if c.spec else None
    pre = resolve(I, c.pre) if c.pre else None

    def harness(p):
        args = tuple(make(a) for a in c.args)
        if pre is not None:
            if not I.truth(I.call(pre, args, {})):
                raise EX.PathEnd
            p.warns = ZERO
        g = None
        if c.ghost:
            p.in_ghost += 1
            gen = I.call(spec, args, {})
            p.in_ghost -= 1
            if not isinstance(gen, IN.IGen):
                raise EngineError("ghost specification is no generator")
            g = p.ghost = LP.Ghost(gen)
        o = outcome(I, impl, args)
        w, log = p.warns, p.log
        if p.each:
            raise Unsupported("a loop over a list of unknown length was left")
        if spec is None:
            ok = o[0] == "ok" or any(isinstance(o[1], t) for t in c.raises)
            p.prove("no exception", TRUE if ok else FALSE, "" if ok else f"code gives {exc_name(o[1])}")
            return
        if g is not None:
            s = drive(p, I, g)
            w2, log2 = g.warns, g.log
        else:
            p.warns, p.log = ZERO, []
            p.in_ghost += 1
            s = outcome(I, spec, args)
            p.in_ghost -= 1
            w2, log2 = p.warns, p.log
        compare(ex, p, I, c, o, s, w, w2, log, log2)

    return harness


def exc_name(e):
    return f"{type(e).__name__}: {e}"[:200]


def compare(ex, p, I, c, o, s, w, w2, log, log2):
    if o[0] != s[0]:
        a = exc_name(o[1]) if o[0] == "raise" else "a value"
        b = exc_name(s[1]) if s[0] == "raise" else "a value"
        p.prove("same outcome", FALSE, f"code gives {a}, specification {b}")
        return
    if p.each:
        raise Unsupported("a loop over a list of unknown length was left")
    if o[0] == "raise":
        ok = type(o[1]) is type(s[1]) or isinstance(o[1], c.alike) and isinstance(s[1], c.alike)
        p.prove("same exception", TRUE if ok else FALSE, f"{exc_name(o[1])} against {exc_name(s[1])}")
        return
    obl = EX.deep_eq(I, o[1], s[1], "result")
    by = {}
    for l, cnd, why in obl:
        p.prove(l, cnd, why)
    p.prove("outcome", TRUE)
    if c.warns:
        p.prove("warnings", T.eq(w, w2), f"{w!r} warnings against {w2!r}")
    if log or log2:
        for l, cnd, why in EX.same_log(I, list(log), list(log2)):
            p.prove(l, cnd, why)


# ------------------------------------------------------------------ inputs from models
def concretizer(c):
    def conc(p, m, extra):
        out = []
        m2 = shrink(p, c, extra) or m
        ev = lambda z: m2.eval(z, model_completion=True)
        try:
            for a in c.args:
                if isinstance(a, Bytes):
                    n = a.n if a.n == a.m else ev(T.zl(var("len_" + a.name, a.n, a.m))).as_long()
                    n = min(n, 6000)
                    bs = bytearray(n)
                    B = T._fn("B_" + a.name, 1, False)
                    for i in range(n):
                        v = ev(B(i)).as_long()
                        bs[i] = v & 255
                    out.append(bytes(bs))
                elif isinstance(a, Int):
                    out.append(ev(T.zl(var("int_" + a.name, a.lo, a.hi))).as_long())
                elif isinstance(a, Bool):
                    out.append(ev(T.zl(var("bool_" + a.name, 0, 1))).as_long() == 1)
                elif isinstance(a, Codec):
                    out.append("cp1252")
                elif isinstance(a, Text):
                    out.append("text")
                else:
                    out.append(a.v)
        except Exception:
            return None
        return out
    return conc


def shrink(p, c, extra):
    cs = [extra] if extra is not FALSE and extra is not TRUE else []
    for lim in (160, 400, 1500):
        m = p.sol.model(*(cs + [le(var("len_" + a.name, a.n, a.m), max(lim, a.n + 16)) for a in c.args
                                if isinstance(a, Bytes) and a.n != a.m]))
        if m is not None:
            return m
    return None


# ------------------------------------------------------------------ checking one contract
def check(c, verbose=False, bound=None, seconds=None, collect=False, alt=0):
    """verify one contract (against its alt-th specification); a dictionary of what happened"""
    t = time.time()
    I = new_interp()
    ex = EX.Explorer(I, max_paths=c.paths, seconds=seconds or c.seconds)
    ex.verbose = verbose
    ex.bound = bound or c.bound
    if collect:
        ex.collect = []
    ex.concretizer = concretizer(c)
    r = {"contract": c.name, "spec": ((c.spec,) + c.alt)[alt], "ok": False, "fails": []}
    try:
        from . import callsite
        for u in c.uses:
            callsite.USES[u](I)
        ok = ex.run(make_harness(I, c, ex, alt))
        r["ok"] = ok
    except PyExc as e:
        ex.reset()
        ex.fails = [EX.Failure("load", f"{type(e.exc).__name__}: {e.exc}", kind="undecided")]
    except (Unsupported, EngineError) as e:
        ex.reset()
        ex.fails = [EX.Failure("engine", f"{type(e).__name__}: {e}", kind="undecided")]
    except Exception as e:
        if not hasattr(ex, "obl"):
            ex.reset()
        ex.fails = [EX.Failure("engine", traceback.format_exc()[-1500:], kind="undecided")]
    ex.restarts = getattr(ex, "restarts", 0)
    r["fails"] = [{"label": f.label, "why": f.why, "kind": f.kind, "inputs": f.inputs} for f in ex.fails]
    r["samples"] = ex.collect or []
    r.update(paths=ex.paths, obl=sum(ex.obl.values()), labels=dict(ex.obl), trivial=ex.trivial, checks=ex.checks,
             solver_s=round(ex.soltime, 2), wall_s=round(time.time() - t, 2), ends=ex.ends, restarts=ex.restarts,
             loops=sorted(ex.cuts), bounded=ex.bounded_hits, functions=sorted(".".join(k) for k in I.trace_calls
                                                                              if k[0].startswith("LnkParse3")),
             coupling=[x[:3] + (x[3],) for x in ex.coupling_failures[-4:]],
             inv=[f"{l.name}: " + ", ".join(f"{'.'.join(map(str, k))}={v}" for k, v in l.slots.items()) for l in
                  ex.loops.values()])
    if r["ok"] and not r["obl"]:
        r["ok"] = False
        r["fails"].append({"label": "vacuous", "why": "no obligation was generated", "kind": "undecided", "inputs": None})
    return r
