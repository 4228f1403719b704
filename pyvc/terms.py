"""Linear integer terms over interned atoms, boolean conditions, and their translation to z3.

Lin   = c + sum k_i * atom_i            (c, k_i int or Fraction)
Atom  = ('v', name) | ('B', base, Lin) | ('div', Lin, k) | ('mod', Lin, k) | ('ite', Cond, Lin, Lin)
      | ('nul', base, Lin start, Lin end, width) | ('uf', name, (Lin...)) | ('mul', Lin, Lin)
Cond  = TRUE | FALSE | le(Lin) (lin <= 0) | eq(Lin) (lin == 0) | not | and | or | ufb(name, (Lin...))
"""
from fractions import Fraction
from functools import lru_cache
from math import gcd
import z3

_atoms = {}
_conds = {}


class Atom:
    __slots__ = ("kind", "args", "id", "lo", "hi", "z", "sub")

    def __repr__(self):
        k, a = self.kind, self.args
        if k == "v":
            return a[0]
        if k == "B":
            return f"{a[0]}[{a[1]!r}]"
        return f"{k}({', '.join(map(repr, a))})"


def atom(kind, args, lo=None, hi=None):
    key = (kind, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.lo, a.hi, a.z, a.sub = kind, args, lo, hi, None, None
        a.id = len(_atoms)
        _atoms[key] = a
    return a


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = " + ".join((f"{k}*" if k != 1 else "") + repr(a) for a, k in self.t)
        return f"({s} + {self.c})" if self.c else (f"({s})" if len(self.t) > 1 else s)

    @property
    def const(self):
        return not self.t


ZERO = Lin(0)
ONE = Lin(1)


def L(x):
    if isinstance(x, Lin):
        return x
    return Lin(x)


def A(a):
    return Lin(0, ((a, 1),))


def var(name, lo=None, hi=None):
    if (lo, hi) != BOUNDS.setdefault(name, (lo, hi)):
        name = f"{name}[{lo},{hi}]"
    return A(atom("v", (name,), lo, hi))


BOUNDS = {}


def byte(base, off):
    return A(atom("B", (base, L(off)), 0, 255))


def uf(name, args, lo=None, hi=None):
    return A(atom("uf", (name, tuple(L(a) for a in args)), lo, hi))


def _norm(c, d):
    t = tuple(sorted(((a, k) for a, k in d.items() if k != 0), key=lambda p: p[0].id))
    return Lin(c, t)


def add(x, y):
    x, y = L(x), L(y)
    if not y.t:
        return Lin(x.c + y.c, x.t) if y.c else x
    if not x.t:
        return Lin(x.c + y.c, y.t)
    d = dict(x.t)
    for a, k in y.t:
        d[a] = d.get(a, 0) + k
    return _norm(x.c + y.c, d)


def scale(x, k):
    x = L(x)
    if k == 0:
        return ZERO
    if k == 1:
        return x
    return Lin(x.c * k, tuple((a, c * k) for a, c in x.t))


def sub(x, y):
    return add(x, scale(y, -1))


def mul(x, y):
    x, y = L(x), L(y)
    if not x.t:
        return scale(y, x.c)
    if not y.t:
        return scale(x, y.c)
    lx, hx = bounds(x)
    ly, hy = bounds(y)
    lo = hi = None
    if None not in (lx, hx, ly, hy):
        ps = [lx * ly, lx * hy, hx * ly, hx * hy]
        lo, hi = min(ps), max(ps)
    if hash(x) > hash(y):
        x, y = y, x
    return A(atom("mul", (x, y), lo, hi))


def bounds(x):
    lo = hi = x.c
    for a, k in x.t:
        if k > 0:
            al, ah = a.lo, a.hi
        else:
            al, ah = a.hi, a.lo
        lo = None if lo is None or al is None else lo + k * al
        hi = None if hi is None or ah is None else hi + k * ah
        if lo is None and hi is None:
            return None, None
    return lo, hi


@lru_cache(None)
def _splits(x):
    """[(g, low, high)] with x = low + g*high and 0 <= low < g, for the coefficient values g of x."""
    ks = sorted({abs(k) for _, k in x.t if k > 1})
    out = []
    for g in ks:
        low = Lin(x.c % g, tuple((a, k) for a, k in x.t if k % g))
        lo, hi = bounds(low)
        if lo is not None and hi is not None and lo >= 0 and hi < g:
            high = Lin(x.c // g, tuple((a, k // g) for a, k in x.t if k % g == 0))
            out.append((g, low, high))
    return out


@lru_cache(None)
def floordiv(x, k):
    x = L(x)
    assert k > 0
    if not x.t:
        return Lin(x.c // k)
    if k == 1:
        return x
    lo, hi = bounds(x)
    if lo is not None and hi is not None and lo // k == hi // k:
        return Lin(lo // k)
    for g, low, high in _splits(x):
        if k % g == 0:
            return floordiv(high, k // g)
        if g % k == 0:
            return add(scale(high, g // k), floordiv(low, k))
    q = Lin(x.c // k, tuple((a, c // k) for a, c in x.t if c % k == 0))
    r = Lin(x.c % k, tuple((a, c) for a, c in x.t if c % k))
    if len(r.t) == 1 and r.c == 0 and r.t[0][1] == 1 and r.t[0][0].kind == "div":
        y, j = r.t[0][0].args
        return add(q, floordiv(y, j * k))
    if not r.t:
        return add(q, Lin(r.c // k))
    lo, hi = bounds(r)
    return add(q, A(atom("div", (r, k), None if lo is None else lo // k, None if hi is None else hi // k)))


@lru_cache(None)
def mod(x, k):
    x = L(x)
    assert k > 0
    if not x.t:
        return Lin(x.c % k)
    if k == 1:
        return ZERO
    lo, hi = bounds(x)
    if lo is not None and hi is not None and lo // k == hi // k:
        return sub(x, Lin(k * (lo // k)))
    r = Lin(x.c % k, tuple((a, c % k) for a, c in x.t if c % k))
    if r != x:
        return mod(r, k)
    for g, low, high in _splits(x):
        if k % g == 0:
            return add(low, scale(mod(high, k // g), g))
    if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 and x.t[0][0].kind == "mod" and x.t[0][0].args[1] % k == 0:
        return mod(x.t[0][0].args[0], k)
    return A(atom("mod", (x, k), 0, k - 1))


@lru_cache(None)
def bitand(x, m):
    """x & m for a constant m >= 0 (or negative m when x is known to fit)."""
    x = L(x)
    if m == 0:
        return ZERO
    if m < 0:
        return sub(x, bitand(x, ~m))
    n = m.bit_length()
    x = mod(x, 1 << n)
    if m == (1 << n) - 1:
        return x
    # split on byte borders first so that canonical per-byte terms result
    for g, low, high in _splits(x):
        if g & (g - 1) == 0:
            s = g.bit_length() - 1
            return add(bitand(low, m & (g - 1)), scale(bitand(high, m >> s), g))
    out = ZERO
    i = 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            out = add(out, scale(floordiv(mod(x, 1 << j), 1 << i), 1 << i))
            i = j
        else:
            i += 1
    return out


# ---------------------------------------------------------------- conditions
class Cond:
    __slots__ = ("kind", "args", "id", "z", "neg", "sub")

    def __repr__(self):
        k, a = self.kind, self.args
        if k == "le":
            return f"{a[0]!r} <= 0"
        if k == "eq":
            return f"{a[0]!r} == 0"
        if k == "not":
            return f"not({a[0]!r})"
        if k in ("and", "or"):
            return "(" + f" {k} ".join(map(repr, a)) + ")"
        if k == "ufb":
            return f"{a[0]}({', '.join(map(repr, a[1]))})"
        return k


def _cond(kind, args):
    key = (kind, args)
    c = _conds.get(key)
    if c is None:
        c = Cond()
        c.kind, c.args, c.z, c.neg, c.sub = kind, args, None, None, None
        c.id = len(_conds)
        _conds[key] = c
    return c


TRUE = _cond("true", ())
FALSE = _cond("false", ())


def _ints(x):
    """scale a rational Lin to integer coefficients (positive factor)"""
    den = 1
    for k in [x.c] + [k for _, k in x.t]:
        if isinstance(k, Fraction):
            den = den * k.denominator // gcd(den, k.denominator)
    if den != 1:
        x = Lin(int(x.c * den), tuple((a, int(k * den)) for a, k in x.t))
    return x


def le0(x):
    x = _ints(L(x))
    if not x.t:
        return TRUE if x.c <= 0 else FALSE
    lo, hi = bounds(x)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    g = 0
    for _, k in x.t:
        g = gcd(g, abs(k))
    if g > 1:
        x = Lin(-((-x.c) // g), tuple((a, k // g) for a, k in x.t))
    return _cond("le", (x,))


def le(x, y):
    return le0(sub(x, y))


def lt(x, y):
    d = sub(x, y)
    if any(isinstance(k, Fraction) for k in [d.c] + [k for _, k in d.t]):
        return not_(le0(scale(d, -1)))
    return le0(add(d, 1))


def ge(x, y):
    return le(y, x)


def gt(x, y):
    return lt(y, x)


@lru_cache(None)
def eq(x, y):
    x = _ints(sub(x, y))
    if not x.t:
        return TRUE if x.c == 0 else FALSE
    lo, hi = bounds(x)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    g = 0
    for _, k in x.t:
        g = gcd(g, abs(k))
    if x.c % g:
        return FALSE
    if x.t[0][1] < 0:
        g = -g
    if g != 1:
        x = Lin(x.c // g, tuple((a, k // g) for a, k in x.t))
    # low + g*high == c with 0 <= low < g  <=>  low == c % g and high == c // g
    body = Lin(0, x.t)
    if len(x.t) > 1:
        for g, low, high in _splits(body):
            tgt = -x.c
            return and_(eq(low, tgt % g), eq(high, tgt // g))
    if len(x.t) == 1 and x.t[0][1] == 1 and x.t[0][0].kind == "ite":
        c, a, b = x.t[0][0].args
        ca, cb = eq(a, -x.c), eq(b, -x.c)
        if ca in (TRUE, FALSE) or cb in (TRUE, FALSE):
            return or_(and_(c, ca), and_(not_(c), cb))
    return _cond("eq", (x,))


def ne(x, y):
    return not_(eq(x, y))


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.kind == "not":
        return c.args[0]
    if c.neg is None:
        if c.kind == "le":
            # not(x <= 0)  <=>  -x + 1 <= 0
            c.neg = le0(add(scale(c.args[0], -1), 1))
        elif c.kind == "or":
            c.neg = and_(*[not_(x) for x in c.args])
        elif c.kind == "and":
            c.neg = or_(*[not_(x) for x in c.args])
        else:
            c.neg = _cond("not", (c,))
    return c.neg


def and_(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.kind == "and":
            out.extend(x for x in c.args if x not in out)
        elif c not in out:
            out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    for c in out:
        if c.kind == "not" and c.args[0] in out:
            return FALSE
    return _cond("and", tuple(sorted(out, key=lambda c: c.id)))


def or_(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.kind == "or":
            out.extend(x for x in c.args if x not in out)
        elif c not in out:
            out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    for c in out:
        if c.kind == "not" and c.args[0] in out:
            return TRUE
    return _cond("or", tuple(sorted(out, key=lambda c: c.id)))


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    return and_(or_(not_(a), b), or_(a, not_(b)))


def ufb(name, args):
    return _cond("ufb", (name, tuple(L(a) for a in args)))


def ite(c, a, b):
    a, b = L(a), L(b)
    if c is TRUE or a == b:
        return a
    if c is FALSE:
        return b
    la, ha = bounds(a)
    lb, hb = bounds(b)
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    return A(atom("ite", (c, a, b), lo, hi))


def smin(x, y):
    return ite(le(x, y), x, y)


def smax(x, y):
    return ite(le(x, y), y, x)


# ---------------------------------------------------------------- subterms
def atoms_of(x, out=None):
    """all atoms below a Lin/Cond/Atom, as a set"""
    if isinstance(x, Lin):
        r = set()
        for a, _ in x.t:
            r |= atoms_of(a)
        return r
    if isinstance(x, Atom):
        if x.sub is None:
            s = {x}
            for y in x.args:
                s |= _arg_atoms(y)
            x.sub = frozenset(s)
        return x.sub
    if isinstance(x, Cond):
        if x.sub is None:
            s = set()
            for y in x.args:
                s |= _arg_atoms(y)
            x.sub = frozenset(s)
        return x.sub
    return set()


def _arg_atoms(y):
    if isinstance(y, (Lin, Atom, Cond)):
        return atoms_of(y)
    if isinstance(y, tuple):
        s = set()
        for z in y:
            s |= _arg_atoms(z)
        return s
    return set()


# ---------------------------------------------------------------- z3
_fns = {}


def _fn(name, n, rng):
    key = (name, n, rng)
    if key not in _fns:
        _fns[key] = z3.Function(name, *([z3.IntSort()] * n), z3.BoolSort() if rng else z3.IntSort())
    return _fns[key]


def zl(x):
    t = [z3.IntVal(x.c)] if x.c or not x.t else []
    for a, k in x.t:
        za = zatom(a)
        t.append(za if k == 1 else k * za)
    return t[0] if len(t) == 1 else z3.Sum(t)


def zatom(a):
    if a.z is None:
        k, g = a.kind, a.args
        if k == "v":
            a.z = z3.Int(g[0])
        elif k == "B":
            a.z = _fn("B_" + g[0], 1, False)(zl(g[1]))
        elif k == "div":
            a.z = zl(g[0]) / g[1]
        elif k == "mod":
            a.z = zl(g[0]) % g[1]
        elif k == "ite":
            a.z = z3.If(zc(g[0]), zl(g[1]), zl(g[2]))
        elif k == "nul":
            a.z = _fn(f"nul{g[3]}_" + g[0], 2, False)(zl(g[1]), zl(g[2]))
        elif k == "uf":
            a.z = _fn(g[0], len(g[1]), False)(*[zl(x) for x in g[1]]) if g[1] else z3.Int(g[0])
        elif k == "mul":
            a.z = zl(g[0]) * zl(g[1])
        else:
            raise AssertionError(k)
    return a.z


def zc(c):
    if c.z is None:
        k, g = c.kind, c.args
        if k == "true":
            c.z = z3.BoolVal(True)
        elif k == "false":
            c.z = z3.BoolVal(False)
        elif k == "le":
            c.z = zl(Lin(0, g[0].t)) <= -g[0].c
        elif k == "eq":
            c.z = zl(Lin(0, g[0].t)) == -g[0].c
        elif k == "not":
            c.z = z3.Not(zc(g[0]))
        elif k == "and":
            c.z = z3.And(*[zc(x) for x in g])
        elif k == "or":
            c.z = z3.Or(*[zc(x) for x in g])
        elif k == "ufb":
            c.z = _fn(g[0], len(g[1]), True)(*[zl(x) for x in g[1]]) if g[1] else z3.Bool(g[0])
        else:
            raise AssertionError(k)
    return c.z


def nul(base, start, end, width=1):
    """first index >= start (stepping by width) of a zero unit that lies before end, else end"""
    return A(atom("nul", (base, L(start), L(end), width)))


class Solver:
    """z3 solver that adds the axioms of the atoms it meets."""

    def __init__(self, timeout_ms=4000):
        self.s = z3.Solver()
        self.s.set("timeout", timeout_ms)
        self.seen = set()
        self.bytes = {}
        self.nuls = {}
        self.nchecks = 0
        self.time = 0.0

    def _axioms(self, x):
        todo = [a for a in atoms_of(x) if a not in self.seen]
        while todo:
            todo.sort(key=lambda a: a.id)
            nxt = []
            for a in todo:
                if a in self.seen:
                    continue
                self.seen.add(a)
                z = zatom(a)
                if a.kind in ("B", "uf", "v", "mul") or (a.kind in ("ite",) and False):
                    if a.lo is not None:
                        self.s.add(z >= a.lo)
                    if a.hi is not None:
                        self.s.add(z <= a.hi)
                if a.kind == "B":
                    base, off = a.args
                    for n in self.nuls.get(base, ()):
                        self._inst(n, a, nxt)
                    self.bytes.setdefault(base, []).append(a)
                elif a.kind == "nul":
                    base, st, en, w = a.args
                    n = A(a)
                    c = [implies(le(st, en), and_(le(st, n), le(n, en)))]
                    if w == 1:
                        c.append(implies(lt(n, en), and_(le(st, n), eq(byte(base, n), 0))))
                    else:
                        c.append(implies(lt(n, en), and_(le(st, n), le(add(n, 2), en), eq(byte(base, n), 0),
                                                         eq(byte(base, add(n, 1)), 0), eq(mod(sub(n, st), 2), 0))))
                    for y in c:
                        nxt.extend(z for z in atoms_of(y) if z not in self.seen)
                        self.s.add(zc(y))
                    self.nuls.setdefault(base, []).append(a)
                    for b in list(self.bytes.get(base, ())):
                        self._inst(a, b, nxt)
            todo = [a for a in nxt if a not in self.seen]

    def _inst(self, n, b, nxt):
        base, st, en, w = n.args
        i = b.args[1]
        nl = A(n)
        if w == 1:
            y = implies(and_(le(st, i), lt(i, nl)), ne(A(b), 0))
        else:
            y = implies(and_(le(st, i), lt(i, nl), le(add(i, 2), en), eq(mod(sub(i, st), 2), 0)),
                        not_(and_(eq(A(b), 0), eq(byte(base, add(i, 1)), 0))))
        if y is TRUE:
            return
        nxt.extend(z for z in atoms_of(y) if z not in self.seen and z.kind != "B")
        for z in atoms_of(y):
            if z.kind == "B" and z not in self.seen:
                # bounds only: do not cascade instantiations
                self.s.add(zatom(z) >= 0, zatom(z) <= 255)
        self.s.add(zc(y))

    def add(self, c):
        if c is TRUE:
            return
        self._axioms(c)
        self.s.add(zc(c))

    def sat(self, *cs):
        """'sat' / 'unsat' / 'unknown' of the context plus cs"""
        import time
        for c in cs:
            if c is FALSE:
                return "unsat"
        for c in cs:
            self._axioms(c)
        self.nchecks += 1
        t = time.time()
        self.s.push()
        try:
            for c in cs:
                self.s.add(zc(c))
            return str(self.s.check())
        finally:
            self.s.pop()
            self.time += time.time() - t

    def model(self, *cs):
        for c in cs:
            self._axioms(c)
        self.s.push()
        try:
            for c in cs:
                self.s.add(zc(c))
            if str(self.s.check()) != "sat":
                return None
            return self.s.model()
        finally:
            self.s.pop()
