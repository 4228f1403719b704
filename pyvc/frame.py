"""Frame conditions: what a query may not change, and what its result may not share.

A query of an object assigns nothing that existed before the call (the object, everything reachable from it, the
modules, classes, function defaults and closures of the package), and the containers of its result are its own.
The state that existed before is recorded before the call and compared afterwards: at the end of every path, and
at every back edge of a loop reached inside the query.
"""
import types

from .values import *
from . import interp as IN
from . import models as M
from .loops import LEAF, same_leaf

SKIP = {"__dict__", "__weakref__", "__builtins__", "__warningregistry__", "__doc__", "__file__"}
CONTAINERS = (list, dict, set, bytearray, ByteArr, OpqDict)


def ours(cls):
    return getattr(cls, "__module__", "").split(".")[0] == "LnkParse3"


def content(v):
    """[(what, component)] of a mutable (or composed) object, None for values without state"""
    if v is None or isinstance(v, (bool, int, str, bytes, float)):
        return None
    if isinstance(v, OpqDict):
        return [("gone", frozenset(v.gone))] + [(("k", k), x) for k, x in v.over.items()]
    if isinstance(v, Each):
        return [("elem", v.elem)]
    if isinstance(v, Guarded):
        return [("value", v.v)]
    if isinstance(v, M.SymText):
        return [("structure", v.struct)]
    if isinstance(v, LEAF):
        return None
    if isinstance(v, (list, tuple)):
        return list(enumerate(v))
    if isinstance(v, dict):
        return [(("k", k if isinstance(k, (str, int)) else id(k)), x) for k, x in v.items()]
    if isinstance(v, (set, frozenset)):
        return [(i, x) for i, x in enumerate(v)]
    if isinstance(v, bytearray):
        return [("bytes", bytes(v))]
    if isinstance(v, ByteArr):
        return [("segs", mkbytes(v.segs))]
    if isinstance(v, M.Hash):
        return [("segs", mkbytes(v.segs))]
    if isinstance(v, types.CellType):
        try:
            return [("cell", v.cell_contents)]
        except ValueError:
            return []
    if isinstance(v, types.ModuleType):
        return [(k, x) for k, x in v.__dict__.items() if k not in SKIP] if ours_module(v) else None
    if isinstance(v, IN.IGen):
        out = [("pc", v.frame.pc), ("state", v.state)]
        if v.state not in ("running", "done"):
            out += list(v.frame.fast.items()) + [(("#", i), x) for i, x in enumerate(v.frame.stack)]
        return out
    if isinstance(v, IN.It):
        return list(v.__dict__.items())
    if isinstance(v, IN.IFunc):
        return [("defaults", v.__defaults__), ("kwdefaults", v.__kwdefaults__)] + \
            [(("free", i), c) for i, c in enumerate(v.__closure__ or ())] + \
            [(k, x) for k, x in v.__dict__.items() if k not in SKIP]
    if isinstance(v, types.MethodType):
        return [("self", v.__self__), ("func", v.__func__)]
    if isinstance(v, (staticmethod, classmethod)):
        return [("func", v.__func__)]
    if isinstance(v, property):
        return [("get", v.fget), ("set", v.fset)]
    if isinstance(v, type):
        return [(k, x) for k, x in vars(v).items() if k not in SKIP] if ours(v) else None
    if ours(type(v)) and hasattr(v, "__dict__"):
        return [(k, x) for k, x in v.__dict__.items()]
    return None


def ours_module(m):
    return m.__name__.split(".")[0] == "LnkParse3"


def name_of(v):
    if isinstance(v, types.ModuleType):
        return v.__name__
    if isinstance(v, (type, IN.IFunc)):
        return f"{v.__module__}.{v.__qualname__}"
    return type(v).__name__


def quick(v):
    """a function that is true only when nothing about v has changed (by identity of its components)"""
    if isinstance(v, types.ModuleType):
        return None
    if isinstance(v, IN.IFunc):
        d, k, c, n = v.__defaults__, v.__kwdefaults__, v.__closure__, dict(v.__dict__)
        return lambda: v.__defaults__ is d and v.__kwdefaults__ is k and v.__closure__ is c and \
            (not n and not v.__dict__ or same_dict(v.__dict__, n))
    if isinstance(v, (tuple, frozenset, staticmethod, classmethod, property)):
        return lambda: True
    return None


def same_dict(d, n):
    return len(d) == len(n) and all(k in d and d[k] is x for k, x in n.items())


class World:
    """the state of the package: modules, classes, functions and what they hold"""

    def __init__(self, I):
        self.kept, self.modules = {}, len(I.modules)
        collect(self.kept, {}, [(m.__name__, m) for m in list(I.modules.values()) if ours_module(m)])
        self.checks = [(k, quick(x[1])) for k, x in self.kept.items()]

    def changed(self, p):
        for k, q in self.checks:
            if q is None or not q():
                why = differs(p, *self.kept[k])
                if why:
                    return why
        return None


def world(I):
    w = I.__dict__.get("world")
    if w is None or w.modules != len(I.modules):
        w = I.world = World(I)
    return w


def collect(kept, known, todo):
    while todo:
        where, v = todo.pop()
        if id(v) in kept or id(v) in known:
            continue
        c = content(v)
        if c is None:
            continue
        kept[id(v)] = (where, v, c)
        for k, x in c:
            k = k[1] if isinstance(k, tuple) and k[0] == "k" else k
            todo.append((where if isinstance(x, types.ModuleType) else f"{where}.{k}", x))


def differs(p, where, v, c):
    """what is not as it was, or None"""
    n = content(v)
    if len(n) != len(c):
        if isinstance(v, types.ModuleType):
            # modules that were imported since
            old = {k for k, _ in c}
            n = [(k, x) for k, x in n if k in old or not isinstance(x, types.ModuleType)]
        if len(n) != len(c):
            a, b = [k for k, _ in c], [k for k, _ in n]
            return f"{where}: " + ", ".join(map(str, [k for k in b if k not in a] + [k for k in a if k not in b])) + \
                " added or removed"
    for (k, x), (l, y) in zip(c, n):
        if x is y and k == l:
            continue
        if k != l:
            return f"{where}: order of components"
        if not unchanged(p, x, y):
            return f"{where}.{k} changed"
    return None


class Snapshot:
    """the state reachable from the roots and from the package"""

    def __init__(self, I, roots=()):
        self.world = world(I)
        self.kept = {}
        collect(self.kept, self.world.kept, [(name_of(r), r) for r in roots])

    def changed(self, p):
        for x in self.kept.values():
            why = differs(p, *x)
            if why:
                return why
        return self.world.changed(p)

    def shared(self, v):
        """a recorded container that the value contains, or None"""
        todo, seen = [v], set()
        while todo:
            v = todo.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, CONTAINERS):
                x = self.kept.get(id(v)) or self.world.kept.get(id(v))
                if x is not None:
                    return x[0]
            if isinstance(v, Star) or isinstance(v, type) or callable(v) or isinstance(v, types.ModuleType):
                continue
            if isinstance(v, CONTAINERS + (tuple, Each, Guarded, M.SymText)):
                todo += [x for _, x in content(v) or ()]
        return None

    def check(self, p, label, result=None):
        why = self.changed(p)
        p.prove(label + " changes nothing", FALSE if why else TRUE, why or "")
        why = self.shared(result)
        p.prove(label + " gives a new result", FALSE if why else TRUE, f"the result contains {why}" if why else "")


def unchanged(p, x, y):
    if x is y:
        return True
    if isinstance(x, CONTAINERS) or isinstance(y, CONTAINERS):
        return False
    if type(x) is tuple and type(y) is tuple:
        return len(x) == len(y) and all(unchanged(p, a, b) for a, b in zip(x, y))
    if isinstance(x, types.MethodType) and isinstance(y, types.MethodType):
        return x.__self__ is y.__self__ and x.__func__ is y.__func__
    if content(x) is not None or content(y) is not None:
        return False
    try:
        return bool(same_leaf(p, x, y))
    except Unsupported:
        return False


def query(I, fn, a, kw):
    """specs.pure.query(make, asks, ...): construct the object and put an arbitrary question"""
    p = Ctx.path
    make, asks = a[0], a[1]
    s = Snapshot(I)
    p.frames_open.append((s, "construction"))
    try:
        obj = I.call(make, (), {})
    except PyExc:
        s.check(p, "construction")
        raise
    s.check(p, "construction")
    p.frames_open.pop()
    k = var(p.fresh("question"), 0, len(asks) - 1)
    for i, (name, ask) in enumerate(asks.items()):
        # an arbitrary one of the questions
        if i < len(asks) - 1 and not decide(eq(k, i)):
            continue
        s = Snapshot(I, [obj])
        p.frames_open.append((s, name))
        try:
            r = I.call(ask, (obj,), {})
        except PyExc:
            r = None
        s.check(p, name, r)
        p.frames_open.pop()
        return None


def back_edge(p, elements=()):
    """the running queries have changed nothing so far; the elements they collect are their own"""
    for s, label in p.frames_open:
        s.check(p, label + " in a loop", list(elements))
