"""The loop rule.

A loop whose iteration count depends on the input is cut at its head.  On arrival everything reachable that the body
changes ("slots") is replaced by arbitrary values restricted by the loop's invariant; a path that comes back to the
head must re-establish the invariant and decrease a measure, and ends.  Slots are found by running the body, and the
invariant is the largest inductive subset of a fixed family of candidate facts (linear relations between slots and
their entry values, bounds, parity, position of the first NUL, and equality of containers of the code with containers
of the specification that runs in lockstep).  The final exploration checks initiation and preservation of exactly the
facts it assumes.
"""
import types

from .values import *
from . import values as V
from . import terms as T


def star_len(s):
    return var(f"{s.spec}.n", 0)


V.star_len = star_len


class Ghost:
    """the specification as a generator that yields at the head of its loop"""

    def __init__(self, gen):
        self.gen = gen
        self.done = False
        self.result = None
        self.attached = False
        self.warns = ZERO
        self.log = []
        self.steps = 0

    def step(self, p, I):
        """run to the next head; True when it yielded, False when it ended"""
        if self.done:
            return False
        p.warns, self.warns = self.warns, p.warns
        p.log, self.log = self.log, p.log
        p.in_ghost += 1
        self.steps += 1
        try:
            self.gen.send(I)
            return True
        except PyExc as e:
            self.done = True
            if isinstance(e.exc, StopIteration):
                self.result = ("ok", e.exc.value)
            else:
                self.result = ("raise", e.exc)
            return False
        finally:
            p.in_ghost -= 1
            p.warns, self.warns = self.warns, p.warns
            p.log, self.log = self.log, p.log


class Loop:
    def __init__(self, key, n, name):
        self.key, self.n, self.name = key, n, name
        self.peel = 0
        self.slots = {}          # path -> kind
        self.alt = {}            # path -> kind to use when a junk slot is read
        self.dropped = set()
        self.uncoupled = {}      # (A, B) -> reason: not even index aligned
        self.uneq = {}           # (A, B) -> reason: elements differ
        self.dictkeys = {}       # path -> {key: kind}
        self.templates = {}      # group -> {shape: template}
        self.measures = None
        self.ghosted = None
        self.gpc = None          # where the specification is when the code enters this loop
        self.tried = set()


class Active:
    pass


class Ent:
    __slots__ = ("k", "v", "set", "n")

    def __init__(self, k, v, set_, n=None):
        self.k, self.v, self.set, self.n = k, v, set_, n


LEAF = (int, str, bytes, float, type(None), bool, Sym, Guarded, Star, Each)


# ------------------------------------------------------------------ state
def scan(I, p):
    """everything reachable from the running frames, the specification and the warning counters"""
    from . import interp as IN
    from . import models as M
    ents = {}
    seen = {}

    def go(path, v, setter):
        if isinstance(v, M.Chunk):
            ents[path] = Ent("leaf", v, setter)
            return
        if isinstance(v, OpqDict):
            ents[path] = Ent("odict", v, setter, v.state())
            return
        if isinstance(v, LEAF) and not isinstance(v, M.SymText):
            ents[path] = Ent("leaf", v, setter)
            return
        if type(v) is tuple:
            cur = [v]
            ents[path] = Ent("tup", v, setter, len(v))
            for i, x in enumerate(v):
                def st(nx, i=i):
                    cur[0] = cur[0][:i] + (nx,) + cur[0][i + 1:]
                    setter(cur[0])
                go(path + (i,), x, st)
            return
        if id(v) in seen:
            ents[path] = Ent("alias", seen[id(v)], setter)
            return
        if isinstance(v, list):
            seen[id(v)] = path
            ents[path] = Ent("list", v, setter, len(v))
            for i, x in enumerate(v):
                go(path + (i,), x, lambda nx, i=i: v.__setitem__(i, nx))
        elif isinstance(v, dict):
            seen[id(v)] = path
            ents[path] = Ent("dict", v, setter, tuple(v))
            for k, x in list(v.items()):
                go(path + (("k", k),), x, lambda nx, k=k: v.__setitem__(k, nx))
        elif isinstance(v, ByteArr):
            seen[id(v)] = path
            ents[path] = Ent("barr", v, setter)
            go(path + ("segs",), mkbytes(v.segs), lambda nx: setattr(v, "segs", rope(nx)))
        elif isinstance(v, IN.IGen):
            seen[id(v)] = path
            fr = v.frame
            ents[path] = Ent("gen", v, setter, (fr.info.code, fr.pc, v.state))
            if v.state not in ("running", "done"):
                frame(path, fr)
        elif isinstance(v, IN.It):
            seen[id(v)] = path
            ents[path] = Ent("it", v, setter, type(v))
            for k, x in v.__dict__.items():
                go(path + (k,), x, lambda nx, k=k: v.__dict__.__setitem__(k, nx))
        elif isinstance(v, types.CellType):
            seen[id(v)] = path
            ents[path] = Ent("cell", v, setter)
            try:
                x = v.cell_contents
            except ValueError:
                return
            go(path + ("cell",), x, lambda nx: setattr(v, "cell_contents", nx))
        elif isinstance(v, types.MethodType):
            ents[path] = Ent("meth", v.__func__, setter)
            go(path + ("self",), v.__self__, None)
        elif type(v) is IN.IFunc:
            seen[id(v)] = path
            ents[path] = Ent("fn", v.__code__, setter)
            for i, c in enumerate(v.__closure__ or ()):
                go(path + (i,), c, None)
        elif M.user_obj(v) and not isinstance(v, type):
            seen[id(v)] = path
            ents[path] = Ent("obj", v, setter, type(v))
            for k, x in sorted(v.__dict__.items()):
                go(path + (k,), x, lambda nx, k=k: v.__dict__.__setitem__(k, nx))
        elif isinstance(v, M.Hash):
            seen[id(v)] = path
            ents[path] = Ent("barr", v, setter)
            go(path + ("segs",), mkbytes(v.segs), lambda nx: setattr(v, "segs", rope(nx)))
        else:
            ents[path] = Ent("opaque", v, setter)

    def frame(path, fr):
        for k in sorted(fr.fast):
            go(path + (k,), fr.fast[k], lambda nx, k=k: fr.fast.__setitem__(k, nx))
        for i, x in enumerate(fr.stack):
            go(path + ("#", i), x, lambda nx, i=i: fr.stack.__setitem__(i, nx))

    for i, fr in enumerate(I.frames):
        frame((i,), fr)
    go(("W",), mkint(p.warns), lambda nx: setattr(p, "warns", lin(nx)))
    if p.log:
        go(("LOG",), p.log, None)
    g = p.ghost
    if g is not None and g.attached and not p.in_ghost:
        if not g.done:
            go(("G",), g.gen, None)
        go(("GW",), mkint(g.warns), lambda nx: setattr(g, "warns", lin(nx)))
    return ents


def under(path, prefixes):
    return any(path[:i] in prefixes for i in range(len(path)))


def same_leaf(p, a, b):
    if a is b:
        return True
    if isinstance(a, Star) and isinstance(b, Star):
        return a.id == b.id
    if isinstance(a, Guarded) or isinstance(b, Guarded):
        return isinstance(a, Guarded) and isinstance(b, Guarded) and a.c is b.c and same_leaf(p, a.v, b.v)
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, SymBool) or isinstance(b, SymBool):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            x = a.c if isinstance(a, SymBool) else (TRUE if a else FALSE)
            y = b.c if isinstance(b, SymBool) else (TRUE if b else FALSE)
            return x is y or p.entails(iff(x, y))
        return False
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)) and (isinstance(a, SymInt) or isinstance(b, SymInt)):
        return entails(eq(lin(a), lin(b)))
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return type(a) is type(b) and a == b
    if is_bytes(a) and is_bytes(b):
        ra, rb = rope(a), rope(b)
        ka, la = rope_key(ra)
        kb, lb = rope_key(rb)
        return ka == kb and all(x == y or entails(eq(x, y)) for x, y in zip(la, lb))
    if type(a) is not type(b):
        return False
    if isinstance(a, Each):
        return False
    try:
        ka, la = flatten_key(a)
        kb, lb = flatten_key(b)
    except Unsupported:
        return False
    return ka == kb and all(x == y or entails(eq(x, y)) for x, y in zip(la, lb))


def diff(p, head, now, slots):
    """[(path, head entry or None, now entry or None)] where the two states differ, outermost positions only (and
    what objects that are new in every iteration consist of)"""
    out = []
    bad = set()
    paths = list(head) + [k for k in now if k not in head]
    for path in paths:
        if under(path, bad):
            continue
        a, b = head.get(path), now.get(path)
        if a is None or b is None:
            # missing below an existing parent: the parent kind decides (frames: unbound local)
            out.append((path, a, b))
            bad.add(path)
            continue
        if a.k != b.k:
            out.append((path, a, b))
            bad.add(path)
            continue
        k = a.k
        if k == "leaf":
            same = same_leaf(p, a.v, b.v)
        elif k in ("list", "dict"):
            same = a.v is b.v and a.n == b.n
        elif k == "tup":
            same = a.n == b.n
        elif k in ("obj", "gen", "it", "barr", "cell", "odict"):
            same = a.v is b.v and a.n == b.n
        elif k == "alias":
            same = a.v == b.v
        elif k in ("fn", "meth"):
            same = a.v is b.v or a.v == b.v
        else:
            same = a.v is b.v
        if not same:
            out.append((path, a, b))
            if not (k == "obj" and slots.get(path) == "obj" and type(a.v) is type(b.v)):
                bad.add(path)
    return out


# ------------------------------------------------------------------ kinds of slots
def rope_of_list(v):
    """the concatenation of a list of byte pieces, or None"""
    from . import models as M
    segs = ()
    for x in v:
        if isinstance(x, M.Chunk):
            segs += x.rope
        elif is_bytes(x):
            segs += rope(x)
        else:
            return None
    return joined(norm_rope(segs))


def base_of(r):
    """base of a one-view rope; '' for the empty rope, None otherwise"""
    if not r:
        return ""
    if len(r) == 1 and r[0][0] == "v":
        return r[0][1]
    return None


def general(a, b):
    """kind of slot that covers both entries"""
    if a is None or b is None:
        return "junk"
    x, y = a.v, b.v
    if a.k == b.k == "leaf":
        bx, by = isinstance(x, (bool, SymBool)), isinstance(y, (bool, SymBool))
        if bx and by:
            return "bool"
        if isinstance(x, (int, SymInt)) and isinstance(y, (int, SymInt)) and not bx and not by:
            return "int"
        if is_bytes(x) and is_bytes(y):
            u, v = base_of(rope(x)), base_of(rope(y))
            if u is not None and v is not None and (not u or not v or u == v) and (u or v):
                return "view:" + (u or v)
        return "junk"
    if a.k == b.k == "list":
        rx, ry = rope_of_list(x), rope_of_list(y)
        if rx is not None and ry is not None and (x or y):
            u, v = base_of(rx), base_of(ry)
            if u is not None and v is not None and (not u or not v or u == v) and (u or v):
                return "chunk:" + (u or v)
        return "star"
    if a.k == b.k == "dict":
        return "dict"
    if a.k == b.k == "obj" and type(x) is type(y):
        return "obj"
    if a.k == b.k == "barr" and isinstance(x, ByteArr) and isinstance(y, ByteArr):
        u, v = base_of(joined(norm_rope(x.segs))), base_of(joined(norm_rope(y.segs)))
        if u is not None and v is not None and (not u or not v or u == v) and (u or v):
            return "barr:" + (u or v)
        return "junk"
    return "junk"


def fresh_like(p, act, path, kind, ent):
    nm = f"{act.name}:{'.'.join(map(str, path))}"
    from . import models as M
    if kind == "int":
        return mkint(var(nm))
    if kind == "bool":
        return mkbool(eq(var(nm, 0, 1), 1))
    if kind.startswith("view:"):
        return mkbytes((("v", kind[5:], var(nm + "@o", 0), var(nm + "@n", 0)),))
    if kind.startswith("barr:"):
        return ByteArr((("v", kind[5:], var(nm + "@o", 0), var(nm + "@n", 0)),))
    if kind.startswith("chunk:"):
        c = M.Chunk((("v", kind[6:], var(nm + "@o", 0), var(nm + "@n", 0)),))
        JUNK[id(c)] = (c, act.loop, path)
        return c
    if kind == "junk":
        j = Junk(act.loop.name + ":" + ".".join(map(str, path)))
        JUNK[id(j)] = (j, act.loop, path)
        return j
    raise AssertionError(kind)


JUNK = {}


def chunk_use(p, c):
    """the pieces of the list are used one by one, not only joined"""
    ent = JUNK.get(id(c))
    if ent is not None and (ent[2], "star") not in ent[1].tried:
        ent[1].tried.add((ent[2], "star"))
        ent[1].slots[ent[2]] = "star"
        _restart(p, f"pieces of {ent[2]} of {ent[1].name}")
    raise Unsupported("pieces of a list")


def junk_read(p, j):
    ent = JUNK.get(id(j))
    if ent is None:
        return
    _, loop, path = ent
    if loop.slots.get(path) == "junk" and loop.alt.get(path, "junk") != "junk":
        loop.slots[path] = loop.alt.pop(path)
        _restart(p, f"slot {path} of {loop.name} is live")
    if loop.peel < 3:
        loop.peel += 1
        loop.slots.clear()
        loop.dropped.clear()
        loop.uncoupled.clear()
        loop.uneq.clear()
        _restart(p, f"peel {loop.name}")
    raise Unsupported(f"loop-carried value {j!r}")


def _restart(p, why):
    from .explore import Restart
    if p.ex.verbose:
        print("   restart:", why)
    raise Restart(why)


# ------------------------------------------------------------------ quantities
def quantities(act, ents, empty_off):
    """{(path, comp): Lin} of the slots in state ents; None for an undefined component"""
    q = {}
    from . import models as M
    for path, kind in act.loop.slots.items():
        e = ents.get(path)
        if e is None:
            continue
        if kind == "int":
            if not isinstance(e.v, (int, SymInt)) or isinstance(e.v, bool):
                return path
            q[path, "i"] = lin(e.v)
        elif kind == "bool":
            if not isinstance(e.v, (bool, SymBool)):
                return path
        elif kind.startswith(("view:", "chunk:", "barr:")):
            if kind[0] == "b":
                r = joined(norm_rope(e.v.segs)) if e.k == "barr" and isinstance(e.v, ByteArr) else None
            elif kind[0] == "v":
                r = joined(rope(e.v)) if e.k == "leaf" and is_bytes(e.v) else None
            else:
                r = rope_of_list(e.v) if e.k == "list" else None
            if r is None:
                return path
            b = base_of(r)
            if b is None or b and b != kind.partition(":")[2]:
                return path
            if b:
                q[path, "o"], q[path, "n"] = r[0][2], r[0][3]
            else:
                o = empty_off(kind.partition(":")[2])
                q[path, "n"] = ZERO
                q[path, "o"] = o
                if o is None:
                    q[path, "o"] = empty_at(act.loop, path, kind.partition(":")[2], ents)
            if q[path, "o"] is not None:
                q[path, "e"] = add(q[path, "o"], q[path, "n"])
        elif kind in ("star",):
            if e.k != "list":
                return path
        elif kind == "dict":
            if e.k != "dict":
                return path
        elif kind == "obj":
            if e.k != "obj":
                return path
    return q


def empty_at(loop, path, base, ents):
    """where an empty piece may be taken to lie (any place would do): at the position of an index into the same bytes"""
    pos = [x for x in loop.slots if loop.slots[x] == "int" and x in ents and isinstance(ents[x].v, (int, SymInt))]
    here = [x for x in pos if x[0] == path[0]]
    pos = [x for x in here if x[-1] == "pos"] or (here if len(here) == 1 else []) or [
        x for x in pos if x[-1] == "pos" and x[0] != "G"]
    if not pos:
        return None
    for x, e in ents.items():
        if x[0] == pos[0][0] and len(x) == 2 and x not in loop.slots and e.k == "leaf" and isinstance(
                e.v, SymBytes) and base_of(e.v.segs) == base:
            return add(e.v.segs[0][2], lin(ents[pos[0]].v))
    return None


def iters(ents):
    """iterators over byte views: [(path, base, off, len, pos)]"""
    from . import interp as IN
    out = []
    for path, e in ents.items():
        if e.k == "it" and isinstance(e.v, IN.SeqIter) and isinstance(e.v.seq, SymBytes):
            r = e.v.seq.segs
            if base_of(r):
                out.append((path, r[0][1], r[0][2], r[0][3], e.v.pos))
    return out


def views(loop, ents):
    """byte views that the loop does not change: [(base, off, len)]"""
    out = []
    for path, e in ents.items():
        if e.k == "leaf" and isinstance(e.v, SymBytes) and base_of(e.v.segs) and not under(path, loop.slots) and \
                path not in loop.slots and e.v.segs[0][1:4] not in out:
            out.append(e.v.segs[0][1:4])
    return out[:3]


def candidates(act):
    qs = [q for q in act.entry if act.entry[q] is not None]
    out = []
    for a in qs:
        out += [("ge", a), ("le", a), ("nn", a), ("par", a)]
        if a[1] == "n":
            out.append(("pos", a))
        for j in range(len(act.consts)):
            out.append(("len", a, j))
    for i, a in enumerate(qs):
        for b in qs[i + 1:]:
            if a[0] == b[0] and "e" in (a[1], b[1]) and "n" in (a[1], b[1]):
                pass
            out += [("diff", a, b), ("sum", a, b)]
            if a[1] == "i" or b[1] == "i":
                out += [("diff2", a, b), ("diff2", b, a)]
            out += [("leq", a, b), ("leq", b, a)]
    for path, base, o, n, pos in act.iters:
        for w in (1, 2):
            out.append(("nulit", path, w))
            for q in qs:
                if q[1] == "o":
                    out.append(("nulch", q[0], path, w))
    for q in qs:
        if q[1] == "o":
            for w in (1, 2):
                out.append(("nulview", q[0], w))
                out += [("nulend", q[0], j, w) for j in range(len(act.views))]
        elif q[1] == "i":
            for j in range(len(act.views)):
                out += [("nulint", q, j, 1), ("nulint", q, j, 2)]
            for b in qs:
                if b[1] in "oe":
                    out += [("cap", q, b, j) for j in range(len(act.consts))]
                    if act.entry[q] != ZERO or act.entry[b] != ZERO:
                        out += [("caprel", q, b, j) for j in range(len(act.consts))]
    return [c for c in out if c not in act.loop.dropped]


def cand_cond(act, c, env):
    """the candidate in the state whose quantities are env; None when it does not apply"""
    k = c[0]
    e = act.entry

    def g(q, d=env):
        return d.get(q)

    if k in ("ge", "le", "nn", "par", "pos"):
        x = g(c[1])
        if x is None:
            return None
        if k == "ge":
            return le(e[c[1]], x)
        if k == "le":
            return le(x, e[c[1]])
        if k == "nn":
            return le(0, x)
        if k == "pos":
            return le(1, x)
        return eq(mod(sub(x, e[c[1]]), 2), 0)
    if k == "len":
        x = g(c[1])
        return None if x is None else le(x, act.consts[c[2]])
    if k in ("diff", "sum", "diff2", "leq"):
        x, y = g(c[1]), g(c[2])
        if x is None or y is None:
            return None
        ex, ey = e[c[1]], e[c[2]]
        if k == "diff":
            return eq(sub(x, y), sub(ex, ey))
        if k == "sum":
            return eq(add(x, y), add(ex, ey))
        if k == "diff2":
            return eq(sub(scale(x, 2), y), sub(scale(ex, 2), ey))
        return le(x, y)
    if k == "nulit":
        path, w = c[1], c[2]
        for pt, base, o, n, pos in act.iters:
            if pt == path:
                x = env.get((path + ("pos",), "i"))
                if x is None:
                    return None
                return le(add(o, x), nul(base, o, add(o, n), w))
        return None
    if k == "nulch":
        for pt, base, o, n, pos in act.iters:
            if pt == c[2]:
                a, b = g((c[1], "o")), g((c[1], "e"))
                if a is None or act.loop.slots[c[1]].partition(":")[2] != base:
                    return None
                return le(b, nul(base, a, add(o, n), c[3]))
        return None
    if k in ("nulend", "nulint"):
        base, o, n = act.views[c[2]]
        if k == "nulint":
            x = g(c[1])
            return None if x is None else le(add(o, ite(le(x, n), x, n)), nul(base, o, add(o, n), c[3]))
        a, b = g((c[1], "o")), g((c[1], "e"))
        if a is None or act.loop.slots[c[1]].partition(":")[2] != base:
            return None
        return le(b, nul(base, a, add(o, n), c[3]))
    if k == "cap":
        x, y, z = g(c[1]), g(c[2]), act.consts[c[3]]
        return None if x is None or y is None else eq(y, ite(le(x, z), x, z))
    if k == "caprel":
        x, y, z = g(c[1]), g(c[2]), act.consts[c[3]]
        if x is None or y is None:
            return None
        x = sub(x, e[c[1]])
        return eq(sub(y, e[c[2]]), ite(le(x, z), x, z))
    if k == "nulview":
        base = act.loop.slots[c[1]].partition(":")[2]
        x = g((c[1], "o"))
        eo, ee = e.get((c[1], "o")), e.get((c[1], "e"))
        if x is None or eo is None:
            return None
        return le(x, nul(base, eo, ee, c[2]))
    raise AssertionError(k)


NEEDS_INIT = {"nn", "len", "leq", "nulit", "nulch", "nulview", "pos", "nulend", "nulint", "cap", "caprel"}


def houdini(p, act, cands, env, where):
    """drop the candidates that do not hold in state env; True when all hold"""
    loop = act.loop
    pairs = []
    for c in cands:
        x = cand_cond(act, c, env)
        if x is None:
            loop.dropped.add(c)
            continue
        if p.quick(x) is True:
            continue
        pairs.append((c, x))
    n0 = len(loop.dropped)
    bad = any(cand_cond(act, c, env) is None for c in cands)
    while pairs:
        conj = and_(*[x for _, x in pairs])
        if conj is FALSE:
            for c, x in pairs:
                if x is FALSE:
                    loop.dropped.add(c)
            pairs = [(c, x) for c, x in pairs if x is not FALSE]
            bad = True
            continue
        m = p.sol.model(not_(conj))
        if m is None:
            r = p.sol.sat(not_(conj))
            if r == "unsat":
                break
            # not decided together: one by one
            rest = []
            for c, x in pairs:
                if p.sol.sat(not_(x)) != "unsat":
                    loop.dropped.add(c)
                    bad = True
            break
        rest = []
        for c, x in pairs:
            v = m.eval(T.zc(x), model_completion=True)
            if T.z3.is_false(v):
                loop.dropped.add(c)
                bad = True
            else:
                rest.append((c, x))
        if len(rest) == len(pairs):
            for c, x in pairs:
                if p.sol.sat(not_(x)) != "unsat":
                    loop.dropped.add(c)
                    bad = True
            break
        pairs = rest
    return not bad


# ------------------------------------------------------------------ loops over the elements of an unknown list
def each_open(I, it, each):
    """the body of a for loop is run once, for an arbitrary element"""
    p = Ctx.path
    p.each.append((it, each, scan(I, p), p.in_ghost, len(I.frames)))


def each_close(I, it, each):
    """the body may change its element, rebind variables, append one value to lists and add one entry to dictionaries;
    nothing else

    Elements are independent then, and what holds of the arbitrary one holds of each.
    """
    p = Ctx.path
    if not p.each or p.each[-1][0] is not it or p.each[-1][4] != len(I.frames):
        raise Unsupported("a loop over a list of unknown length was left")
    before, ghost = p.each.pop()[2:4]
    now = scan(I, p)
    old = {id(e.v) for e in before.values() if e.k not in ("leaf", "alias")}

    def own(x):
        if id(x) in old and not isinstance(x, LEAF) and x is not each.elem:
            raise Unsupported("a loop over a list of unknown length stores a shared value")
        return x

    grown = []
    for path, e in list(now.items()):
        b = before.get(path)
        if b is None or b.k != e.k or b.v is not e.v or b.n == e.n:
            continue
        if e.k == "list":
            if e.n != b.n + 1:
                raise Unsupported("a loop over a list of unknown length appends several values")
            grown.append((path, e.v, own(e.v.pop())))
        elif e.k == "dict":
            if e.n[:-1] != b.n or type(each.elem) is not tuple or type(each.elem[0]) is not str or each_key(e.v):
                raise Unsupported("a loop over a list of unknown length changes a dictionary")
            grown.append((path, e.v, (e.n[-1], own(e.v.pop(e.n[-1])))))
    now = scan(I, p)
    for path, a, b in diff(p, before, now, {}):
        if b is not None and b.k == "odict" and b.v is each.elem and (a is None or a.v is b.v):
            continue
        local = len(path) == 2 and isinstance(path[0], int) and isinstance(path[1], str) or path[-1] == "cell"
        if local and b is not None and b.set is not None and (a is None or a.v is not b.v or a.k == "leaf"):
            b.set(Junk(f"variable of a loop over a list of unknown length"))
            continue
        raise Unsupported(f"a loop over a list of unknown length changes {path}: {a and a.v!r} -> {b and b.v!r}"[:300])
    f = I.frames[-1]
    key = (f.info.code, f.pc, bool(ghost), len(I.frames), len(p.each))
    n = tuple(sorted(".".join(map(str, g[0])) for g in grown))
    if p.ex.each.setdefault(key, n) != n:
        raise Unsupported("a loop over a list of unknown length appends for some elements only")
    for path, c, x in grown:
        if type(c) is list:
            c.append(Each(x, each.n))
            continue
        # entries of different keys must not meet
        image = p.ex.each_image.setdefault((key, path), {})
        if image.setdefault(x[0], each.elem[0]) != each.elem[0] or x[0] in c:
            raise Unsupported("a loop over entries of unknown number stores several under one key")
        c[EachKey()] = Each(x, each.n)


# ------------------------------------------------------------------ the rule
def loop_name(f, pc):
    for i in range(pc, -1, -1):
        pass
    return f"{f.globs.get('__name__', '?')}.{f.info.code.co_qualname}@{pc}"


def symbolic_iter(it):
    """does this iterator run a number of times that depends on the input (None: decided by a generator)"""
    from . import interp as IN
    from . import models as M
    if isinstance(it, IN.SeqIter):
        if isinstance(it.seq, (SymBytes, ByteArr)) and rope_len(it.seq.segs).const and rope_len(it.seq.segs).c <= 8:
            return False
        return isinstance(it.seq, (SymBytes, SymStr, ByteArr)) or isinstance(it.seq, list) and any(
            isinstance(x, Star) for x in it.seq)
    if isinstance(it, IN.RangeIter):
        return True
    if isinstance(it, (IN.EnumIter, IN.FilterIter)):
        return symbolic_iter(it.inner)
    if isinstance(it, (IN.ZipIter, IN.MapIter)):
        rs = [symbolic_iter(x) for x in it.inners]
        return False if False in rs else True if True in rs else None
    if isinstance(it, IN.NativeIter):
        return False
    if isinstance(it, IN.IGen):
        return None
    return True


def on_head(ex, f, pc, back):
    p = Ctx.path
    g = p.ghost
    if g is not None and f.gen is g.gen:
        return
    I = ex.I
    loop = None
    if back:
        f.visits[pc] = f.visits.get(pc, 0) + 1
    else:
        f.visits[pc] = 0
        f.visits[pc, "f"] = p.nforks
    key = tuple((fr.info.code, fr.last) for fr in I.frames[:-1]) + ((f.info.code, pc),)
    loop = ex.loops.get(key)
    if loop is None:
        if back:
            v = f.visits[pc]
            isfor = f.info.ins[pc].op == "FOR_ITER"
            if isfor:
                s = symbolic_iter(f.stack[-1])
                cut = s is True and v >= 3
            else:
                cut = v >= (3 if p.ghost is not None else 6) and p.nforks - f.visits[pc, "f"] >= v - 1 and not delegated(f, pc)
            if ex.bound is not None and v > ex.bound:
                from .explore import PathEnd
                ex.bounded_hits += 1
                raise PathEnd
            if cut and ex.bound is None:
                ex.loops[key] = loop = Loop(key, len(ex.loops), loop_name(f, pc))
                _restart(p, f"cut {loop.name}")
        return
    fk = (id(f), pc)
    if not back:
        p.tails.discard(fk)
    elif fk in p.tails:
        if loop.ghosted and p.ghost is not None:
            p.ghost.step(p, I)
        return
    act = p.active.get(fk)
    if act is not None and act.loop is not loop:
        # a generator resumed from another place
        act = None
    if not back or act is None:
        hk = fk + (loop,)
        if not back:
            p.active.pop(fk, None)
            p.heads[hk] = 0
        n = p.heads.get(hk, 0)
        p.heads[hk] = n + 1
        arrive(ex, p, f, pc, loop, n < loop.peel, n)
        return
    if any(type(it.pos) is not int or it.pos != n for it, n in act.parts):
        # past the unknown part of a list: the rest is finite
        p.active.pop(fk)
        p.tails.add(fk)
        if loop.ghosted and p.ghost is not None:
            p.ghost.step(p, I)
        return
    back_edge(ex, p, f, pc, loop, act)


def part_iters(f):
    """iterators of the frame over partially known lists, with their position"""
    from . import interp as IN
    out, todo = [], list(f.stack)
    while todo:
        it = todo.pop()
        if isinstance(it, IN.SeqIter):
            if isinstance(it.seq, list) and any(isinstance(x, Star) for x in it.seq):
                out.append((it, it.pos))
        elif isinstance(it, (IN.EnumIter, IN.FilterIter)):
            todo.append(it.inner)
        elif isinstance(it, (IN.ZipIter, IN.MapIter)):
            todo.extend(it.inners)
    return out


def delegated(f, pc):
    """a while loop driven by a live generator is cut inside the generator"""
    from . import interp as IN
    for v in list(f.fast.values()) + list(f.stack):
        if isinstance(v, IN.IGen) and v.state == "suspended" and v.resumes > 2:
            return True
    return False


def nested(p, I, f, pc):
    """is the head inside an open ghosted loop"""
    for (fid, hpc), a in p.active.items():
        if a is None or not a.loop.ghosted:
            continue
        fr = a.frame
        if fr is f:
            if hpc != pc and pc in fr.info.heads[hpc]:
                return True
            continue
        if fr in I.frames:
            return True
        if fr.gen is not None and fr.gen.state in ("suspended", "running"):
            return True
    return False


def arrive(ex, p, f, pc, loop, peeling, n):
    I = ex.I
    if loop.ghosted is None:
        loop.ghosted = p.ghost is not None and not p.in_ghost and not nested(p, I, f, pc)
    if loop.ghosted and p.ghost is not None:
        p.ghost.attached = True
        p.ghost.step(p, I)
        if n == 0 and not p.ghost.done:
            # the loop of the specification that goes with this one: the code may pass a loop without reaching its head
            at = p.ghost.gen.frame.pc
            if loop.gpc is not None and at > loop.gpc:
                loop.gpc = at
                _restart(p, f"{loop.name}: a later loop of the specification")
            loop.gpc = max(at, loop.gpc or 0)
            while not p.ghost.done and p.ghost.gen.frame.pc < loop.gpc:
                if not p.ghost.step(p, I):
                    break
    if peeling:
        return
    act = Active()
    act.loop, act.frame, act.pc = loop, f, pc
    act.parts = part_iters(f)
    k = p.occ[loop] = p.occ.get(loop, -1) + 1
    act.name = f"L{loop.n}" + (f"_{k}" if k else "")
    p.active[(id(f), pc)] = act
    p.frames_kept.append(f)
    ents = scan(I, p)
    act.iters = iters(ents)
    consts = []
    for path, e in ents.items():
        if e.k == "leaf" and isinstance(e.v, SymBytes) and base_of(e.v.segs):
            x = e.v.segs[0][3]
            for y in (x, add(x, e.v.segs[0][2])):
                if y not in consts and not y.const:
                    consts.append(y)
    for it, _ in act.parts:
        consts[:0] = [star_len(x) for x in it.seq if isinstance(x, Star)]
    act.consts = consts[:6]
    act.views = views(loop, ents)

    def empty_off(base, its=act.iters):
        for _, b, o, n, pos in its:
            if b == base:
                return add(o, lin(pos))
        return None

    ent = quantities(act, ents, empty_off)
    if not isinstance(ent, dict):
        degrade(p, loop, ent)
    for q in list(ent):
        if ent[q] is None:
            del ent[q]
    act.entry = ent
    cands = candidates(act)
    need = [c for c in cands if c[0] in NEEDS_INIT]
    if not houdini(p, act, need, ent, "entry"):
        _restart(p, f"{loop.name}: initiation")
    # couplings of containers of the code with containers of the specification
    couple_entry(ex, p, act, ents)
    # havoc
    act.vals = {}
    for path in sorted(loop.slots, key=lambda x: (len(x), str(x))):
        kind = loop.slots[path]
        e = ents.get(path)
        if kind == "star":
            if e is None:
                degrade(p, loop, path)
            lst = e.v
            keep = [x for x in lst if not isinstance(x, PARTS)] if not any(
                isinstance(x, PARTS) for x in lst) else []
            s = Star(f"{act.name}:{act.eqgroup[path]}", f"{act.name}:{act.group[path]}")
            STARS[s.id, s.spec] = (loop, path, act.group[path], act.name)
            lst[:] = [s]
            act.stars[path] = s
        elif kind == "dict":
            d = e.v
            for key, vk in sorted(loop.dictkeys.get(path, {}).items(), key=str):
                nm = f"{act.name}:{act.dgroup[path]}:{key}"
                pres = eq(var(nm + "?", 0, 1), 1)
                if vk == "list":
                    val = [Star(nm + "*", nm + "*")]
                else:
                    val = Opq("slot", nm, (), dict)
                d[key] = Guarded(pres, val)
        elif kind == "obj":
            o = e.v
            nobj = type(o).__new__(type(o))
            nobj.__dict__.update(o.__dict__)
            e.set(nobj)
            ents = scan(I, p)
        elif kind.startswith("chunk:"):
            c = fresh_like(p, act, path, kind, e)
            if e.k != "list":
                degrade(p, loop, path)
            e.v[:] = [c]
        elif e is None:
            # unbound here, bound at the back edge
            if len(path) == 2 and isinstance(path[0], int):
                I.frames[path[0]].fast[path[1]] = fresh_like(p, act, path, "junk", None)
            elif path[0] == "G" and len(path) == 2:
                p.ghost.gen.frame.fast[path[1]] = fresh_like(p, act, path, "junk", None)
        else:
            if e.set is None:
                raise Unsupported(f"loop {loop.name} changes {path}")
            e.set(fresh_like(p, act, path, kind, e))
    act.head = scan(I, p)
    cur = quantities(act, act.head, lambda b: None)
    if not isinstance(cur, dict):
        raise Unsupported(f"loop {loop.name}: state not restored at {cur}")
    act.cur = {q: v for q, v in cur.items() if q in act.entry}
    act.allcur = cur
    act.cands = cands
    act.ghost_state = p.ghost and (p.ghost.done, None if p.ghost.done else p.ghost.gen.frame.pc)
    for c in cands:
        x = cand_cond(act, c, act.cur)
        if x is not None:
            p.assume(x)
    ex.cuts.add(loop.name)


STARS = {}


def degrade(p, loop, path):
    old = loop.slots.get(path)
    loop.slots[path] = "junk"
    loop.alt.pop(path, None)
    _restart(p, f"{loop.name}: slot {path} is no {old}")


def couple_entry(ex, p, act, ents):
    """group the growing lists and dictionaries of code and specification that agree"""
    from .explore import deep_eq
    loop = act.loop
    act.stars = {}
    act.group, act.eqgroup, act.dgroup = {}, {}, {}
    stars = [x for x in loop.slots if loop.slots[x] == "star"]
    dicts = [x for x in loop.slots if loop.slots[x] == "dict"]
    act.pairs = []
    for a in stars + dicts:
        act.group[a] = act.eqgroup[a] = act.dgroup[a] = ".".join(map(str, a))
    for kind, slots, grp in (("star", stars, act.group), ("dict", dicts, act.dgroup)):
        for a in slots:
            if a[0] in ("G",):
                continue
            for b in slots:
                if b[0] != "G" or (a, b) in loop.uncoupled:
                    continue
                ea, eb = ents.get(a), ents.get(b)
                if ea is None or eb is None:
                    continue
                if kind == "star" and len(ea.v) != len(eb.v):
                    uncouple(p, loop, a, b, "different at the start")
                ok = all_hold(p, deep_eq(ex.I, ea.v, eb.v))
                if not ok and kind == "dict":
                    uncouple(p, loop, a, b, "different at the start")
                if not ok and (a, b) not in loop.uneq:
                    loop.uneq[a, b] = "different at the start"
                    _restart(p, "coupling")
                grp[b] = grp[a]
                act.pairs.append((kind, a, b))
                if kind == "star" and (a, b) not in loop.uneq:
                    act.eqgroup[b] = act.eqgroup[a]
                break


def uncouple(p, loop, a, b, why):
    loop.uncoupled[a, b] = why
    _restart(p, f"{loop.name}: {a} and {b} not coupled: {why}")


def all_hold(p, obls):
    for l, c, w in obls:
        if c is FALSE or not p.entails(c):
            p.why = f"{l}: {w}"
            p.why_cond = c
            return False
    return True


def back_edge(ex, p, f, pc, loop, act):
    from .explore import PathEnd, deep_eq, Failure
    I = ex.I
    if loop.ghosted and p.ghost is not None:
        was = act.ghost_state
        if p.ghost.done:
            p.prove(f"{loop.name}: same number of steps", FALSE, "the specification ended before the code's loop")
            raise PathEnd
        if not p.ghost.step(p, I):
            p.prove(f"{loop.name}: same number of steps", FALSE, "the specification's loop ends here, the code's goes on")
            raise PathEnd
        if p.ghost.gen.frame.pc != was[1]:
            raise Unsupported("the specification reached another loop")
    now = scan(I, p)
    # new slots
    changed = False
    for path, a, b in diff(p, act.head, now, loop.slots):
        kind = loop.slots.get(path)
        if kind is not None:
            if kind in ("star", "dict", "obj", "junk") or kind.startswith(("chunk", "barr")):
                continue
            if a is not None and b is not None and a.k == b.k == "leaf":
                continue
        if under(path, loop.slots) and kind is None:
            anc = [path[:i] for i in range(len(path)) if path[:i] in loop.slots]
            if any(loop.slots[x] in ("star", "junk", "dict") or loop.slots[x].startswith(("chunk", "barr")) for x in anc):
                continue
        # a component that exists on one side only: its container changed
        tgt = path
        while tgt not in act.head or tgt not in now:
            if len(tgt) == 2 and (isinstance(tgt[0], int) or tgt[0] == "G"):
                break
            if len(tgt) <= 1:
                break
            tgt = tgt[:-1]
        a, b = act.head.get(tgt), now.get(tgt)
        if tgt in loop.slots and loop.slots[tgt].startswith(("star", "dict", "junk", "barr")):
            continue
        if a is not None and b is not None and a.k == b.k == "gen" and a.v is b.v and a.n != b.n:
            peel(p, loop, f"generator position {tgt}")
        if a is not None and b is not None and a.k != b.k and a.k in ("gen", "it") :
            peel(p, loop, f"iterator {tgt}")
        k = general(a, b)
        if k.startswith("chunk") and (tgt, "star") in loop.tried:
            k = "star"
        local = len(tgt) == 2 and (isinstance(tgt[0], int) or tgt[0] == "G") and not (
            a is not None and b is not None and a.k == b.k and a.v is b.v)
        if local or k == "junk":
            if k != "junk":
                loop.alt[tgt] = k
            k = "junk"
        if k == "dict":
            loop.dictkeys.setdefault(tgt, {})
        old = loop.slots.get(tgt)
        if old is not None and old != k:
            if old == "junk":
                continue
            k = "junk"
        loop.slots[tgt] = k
        changed = True
    for path, kind in loop.slots.items():
        if kind == "dict":
            e = now.get(path)
            if e is None or e.k != "dict":
                degrade(p, loop, path)
            ks = loop.dictkeys.setdefault(path, {})
            h = act.head.get(path)
            for k, v in e.v.items():
                if h is not None and k in h.n and k not in ks and (path + (("k", k),)) in act.head and \
                        not isinstance(v, Guarded) and not isinstance(v, (dict, list)) and \
                        act.head[path + (("k", k),)].k == "leaf" and same_leaf(p, v, act.head[path + (("k", k),)].v):
                    continue
                vv = v.v if isinstance(v, Guarded) else v
                if not (type(vv) is list or isinstance(vv, Opq) and vv.typ is dict):
                    degrade(p, loop, path)
                vk = "list" if type(vv) is list else "opq"
                if ks.get(k) != vk:
                    if k in ks and ks[k] != vk:
                        vk = "opq"
                        if ks[k] == vk:
                            continue
                    ks[k] = vk
                    changed = True
    if changed:
        loop.measures = None
        _restart(p, f"{loop.name}: slots " + ", ".join(f"{'.'.join(map(str, k))}={v}" for k, v in loop.slots.items()))

    its = iters(now)

    def empty_off(base):
        for _, b, o, n, pos in its:
            if b == base:
                return add(o, lin(pos))
        return None

    env = quantities(act, now, empty_off)
    if not isinstance(env, dict):
        degrade(p, loop, env)
    if not houdini(p, act, act.cands, env, "back"):
        _restart(p, f"{loop.name}: preservation ({len(loop.dropped)} dropped)")
    # containers
    for kind, a, b in act.pairs:
        ea, eb = now[a], now[b]
        if kind == "dict":
            if not all_hold(p, deep_eq(I, ea.v, eb.v)):
                ex.coupling_failures.append((loop.name, "dict", p.why, fail_inputs(ex, p)))
                uncouple(p, loop, a, b, p.why)
            continue
        na, nb = emitted(p, act, a, ea.v), emitted(p, act, b, eb.v)
        if len(na) != len(nb):
            ex.coupling_failures.append((loop.name, "list", f"{na!r} against {nb!r}"[:300], fail_inputs(ex, p, FALSE)))
            uncouple(p, loop, a, b, f"emits {len(na)} and {len(nb)} elements")
        if (a, b) not in loop.uneq and not all_hold(p, deep_eq(I, na, nb)):
            loop.uneq[a, b] = p.why
            ex.coupling_failures.append((loop.name, "element", p.why, fail_inputs(ex, p)))
            _restart(p, f"{loop.name}: elements differ: {p.why}")
    if p.frames_open:
        from . import frame as FR
        FR.back_edge(p, [now[path].v for path, kind in loop.slots.items() if kind in ("star", "dict") and
                         path in now])
    for path, kind in loop.slots.items():
        if kind == "star":
            em = emitted(p, act, path, now[path].v)
            if em:
                record(p, act, path, em, now)
    measure(ex, p, act, env)
    ex.obl[f"{loop.name}: invariant kept"] = ex.obl.get(f"{loop.name}: invariant kept", 0) + 1
    raise PathEnd


def fail_inputs(ex, p, c=None):
    c = getattr(p, "why_cond", FALSE) if c is None else c
    try:
        m = p.sol.model(not_(c)) if c is not FALSE else p.sol.model()
        return ex.concrete(p, m, not_(c)) if m is not None else None
    except BaseException:
        return None


def peel(p, loop, why):
    if loop.peel >= 3:
        raise Unsupported(f"{loop.name}: {why}")
    loop.peel += 1
    loop.slots.clear()
    loop.alt.clear()
    loop.dropped.clear()
    _restart(p, f"peel {loop.name}: {why}")


def emitted(p, act, path, lst):
    """elements appended in this iteration (guards decided)"""
    s = act.stars[path]
    if not lst or not isinstance(lst[0], Star) or lst[0] is not s:
        # not an append-only list: perhaps a list of adjacent pieces of the input
        bases = [b for _, b, *_ in act.iters] or [e.v.segs[0][1] for e in act.head.values() if e.k == "leaf" and
                                                  isinstance(e.v, SymBytes) and e.v.segs[0][0] == "v"]
        kind = "chunk:" + bases[0] if bases else "junk"
        if (path, kind) in act.loop.tried:
            kind = "junk"
        act.loop.tried.add((path, kind))
        act.loop.slots[path] = kind
        _restart(p, f"{act.loop.name}: {path} is not append-only")
    out = []
    for x in lst[1:]:
        if isinstance(x, Star):
            raise Unsupported("unknown part appended to an unknown part")
        if isinstance(x, Guarded):
            if decide(x.c):
                out.append(x.v)
        else:
            out.append(x)
    return out


# ------------------------------------------------------------------ measures
def measure(ex, p, act, env):
    loop = act.loop
    ok = set()
    label = f"{loop.name}: terminates"
    key = act.name, tuple(repr(x) for x in act.consts)      # what is reached from one arrival shares the measure
    cands = (loop.measures or {}).get(key)
    if cands is None:
        cands = []
        for q in act.allcur:
            cands.append(("dec", q, 0))
            for j in range(len(act.consts)):
                cands.append(("inc", q, j))
    for m in cands:
        q = m[1]
        if q not in act.allcur or q not in env or env[q] is None:
            continue
        v, w = act.allcur[q], env[q]
        if m[0] == "dec":
            c = and_(le(0, v), lt(w, v))
        else:
            c = and_(lt(v, w), le(v, act.consts[m[2]]))
        if c is not FALSE and p.entails(c):
            ok.add(m)
    ex.obl[label] = ex.obl.get(label, 0) + 1
    if not ok:
        p.prove(label, FALSE, "no measure decreases: " + ", ".join(
            f"{q}: {act.allcur[q]!r} -> {env.get(q)!r}" for q in act.allcur)[:400])
        return
    loop.measures = {**(loop.measures or {}), key: [m for m in cands if m in ok]}


# ------------------------------------------------------------------ reading the unknown part of a list
class Template:
    pass


def map_lins(v, fn):
    """v with every Lin replaced by fn(Lin)"""
    from . import models as M
    memo = {}

    def go(v):
        if isinstance(v, SymInt):
            return mkint(fn(v.lin))
        if isinstance(v, SymBytes):
            return mkbytes(tuple(("v", s[1], fn(s[2]), fn(s[3])) if s[0] == "v" else ("c", fn(s[1])) if s[0] == "c"
                                 else s for s in v.segs))
        if isinstance(v, SymStr):
            out = []
            for s in v.segs:
                if s[0] == "fmt":
                    s = ("fmt", s[1], fn(s[2]))
                elif s[0] == "tab":
                    s = ("tab", fn(s[1]), s[2])
                elif s[0] == "o":
                    s = ("o", s[1], s[2], tuple(fn(x) for x in s[3]))
                out.append(s)
            return mkstr(out)
        if isinstance(v, SymBool):
            return mkbool(eq(fn(ite(v.c, 1, 0)), 1))
        if isinstance(v, SymChoice):
            return SymChoice(fn(v.lin), v.vals)
        if isinstance(v, Opq):
            return Opq(v.name, v.key, tuple(fn(x) for x in v.lins), v.typ)
        if isinstance(v, (SymDT, SymTD, SymReal, Junk, M.SymText)):
            raise Unsupported(f"generic element with {v!r}")
        if id(v) in memo:
            return memo[id(v)][1]
        if type(v) is tuple:
            return tuple(go(x) for x in v)
        if type(v) is list:
            r = []
            memo[id(v)] = (v, r)
            for x in v:
                if isinstance(x, PARTS):
                    raise Unsupported("generic element with an unknown part")
                r.append(go(x))
            return r
        if type(v) is dict:
            r = {}
            memo[id(v)] = (v, r)
            for k, x in v.items():
                r[k] = go(x)
            return r
        if M.user_obj(v) and not isinstance(v, type):
            r = type(v).__new__(type(v))
            memo[id(v)] = (v, r)
            for k, x in v.__dict__.items():
                r.__dict__[k] = go(x)
            return r
        return v
    return go(v)


def shape(v):
    """(static shape, lins) of an element"""
    lins = []

    def fn(x):
        lins.append(x)
        return x
    map_lins(v, fn)
    from . import models as M

    def st(v, seen):
        if isinstance(v, Sym):
            return type(v).__name__, flatten_key(v)[0]
        if type(v) in (list, tuple):
            return (type(v).__name__,) + tuple(st(x, seen) for x in v)
        if type(v) is dict:
            return ("d",) + tuple((k, st(x, seen)) for k, x in v.items())
        if M.user_obj(v) and not isinstance(v, type):
            if id(v) in seen:
                return ("ref",)
            seen.add(id(v))
            return (type(v),) + tuple((k, st(x, seen)) for k, x in v.__dict__.items())
        if isinstance(v, (int, str, bytes, type(None), bool)):
            return type(v).__name__, v
        return "id", id(v)
    return st(v, set()), lins


def loop_atoms(act):
    return f"{act.name}:"


def depends(x, act):
    """does the Lin mention state of the loop"""
    pre = loop_atoms(act)
    return any(a.kind == "v" and a.args[0].startswith(pre) for a in T.atoms_of(x))


def settle(p, v):
    """replace choices that the path decides"""
    if type(v) is tuple:
        return tuple(settle(p, x) for x in v)
    if isinstance(v, SymChoice):
        for x in v.vals:
            if p.entails(eq(v.lin, V.code_of(x))):
                return x
    return v


def record(p, act, path, em, now):
    loop = act.loop
    gname = act.group[path]
    if len(em) != 1:
        raise Unsupported("several elements per iteration")
    # the whole group is recorded when the first member is seen
    members = sorted((x for x in act.stars if act.group[x] == gname), key=str)
    if path != members[0]:
        return
    elems = tuple(settle(p, emitted(p, act, x, now[x].v)[0]) for x in members)
    try:
        sh, lins = shape(elems)
    except Unsupported:
        loop.templates.setdefault(tuple(members), {})["?"] = None
        return
    ts = loop.templates.setdefault(tuple(members), {})
    keep = tuple(None if depends(x, act) or any(a.kind in ("B",) for a in T.atoms_of(x)) else x for x in lins)
    t = ts.get(sh)
    pairs = {(i, j) for i in range(len(lins)) for j in range(i + 1, len(lins))
             if keep[i] is None and keep[j] is None and (lins[i] == lins[j] or p.entails(eq(lins[i], lins[j])))}
    old = t.nn if t is not None else {}
    bnds = {}
    for i, x in enumerate(lins):
        if keep[i] is None:
            for k in (8, 4, 2, 1, 0):
                if (t is None or k <= old.get(i, -1)) and p.entails(le(k, x)):
                    bnds[i] = k
                    break
    if t is None:
        t = Template()
        t.elems, t.n, t.keep, t.eqs, t.nn, t.members = elems, len(lins), keep, pairs, bnds, members
        ts[sh] = t
        p.ex.dirty = p.ex.dirty or p.ex.paths
        return
    if not t.eqs <= pairs or t.nn != bnds or any(a is not None and a != b for a, b in zip(t.keep, keep)):
        t.eqs &= pairs
        t.nn = bnds
        t.keep = tuple(a if a == b else None for a, b in zip(t.keep, keep))
        p.ex.dirty = p.ex.dirty or p.ex.paths


def star_elem(p, star, idx):
    """the element at idx of the unknown part"""
    ent = STARS.get((star.id, star.spec))
    if ent is None:
        raise Unsupported("element of an unknown part")
    loop, path, gname, aname = ent
    memo = p.star_memo.setdefault((loop, gname, aname), [])
    for i, tup, members in memo:
        if i == idx or p.entails(eq(i, idx)):
            return tup[members.index(path)]
    for members, ts in loop.templates.items():
        if path in members:
            break
    else:
        # nothing was ever appended
        raise Unsupported("element of a part without known elements")
    if "?" in ts:
        raise Unsupported("elements without a common form")
    shapes = list(ts)
    nm = p.fresh(f"{aname}:{gname}")
    t = None
    for k, sh in enumerate(shapes[:-1]):
        if decide(eq(var(nm + "?", 0, len(shapes) - 1), k)):
            t = ts[sh]
            break
    if t is None:
        t = ts[shapes[-1]]
    vs = [var(f"{nm}.{i}", t.nn.get(i)) if t.keep[i] is None else t.keep[i] for i in range(t.n)]
    it = iter(vs)
    tup = map_lins(t.elems, lambda x: next(it))
    for i, j in t.eqs:
        p.assume(eq(vs[i], vs[j]))
    memo.append((idx, tup, list(t.members)))
    return tup[list(t.members).index(path)]
