"""Symbolic values: ropes of bytes, ropes of text, integers, booleans, table choices, opaque results."""
import re

from .terms import *
from . import terms as T


class Unsupported(BaseException):
    """the verifier cannot interpret this construct on symbolic data"""


class EngineError(BaseException):
    pass


class PyExc(BaseException):
    """a Python exception raised inside interpreted code"""

    def __init__(self, exc):
        self.exc = exc


def pyraise(exc):
    raise PyExc(exc)


class Ctx:
    path = None      # current path (explore.Path)
    interp = None


def decide(c):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    return Ctx.path.decide(c)


def entails(c):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    return Ctx.path.entails(c)


class Sym:
    __slots__ = ()

    def _no(self, *a):
        raise Unsupported(f"native use of symbolic {self!r}")

    __bool__ = __eq__ = __ne__ = __hash__ = __index__ = __int__ = __iter__ = __len__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __getitem__ = __contains__ = __add__ = __radd__ = __float__ = _no
    __str__ = lambda s: repr(s)


class SymInt(Sym):
    __slots__ = ("lin",)

    def __init__(self, lin):
        self.lin = lin

    def __repr__(self):
        return f"SymInt({self.lin!r})"


class SymReal(Sym):
    """an exact rational standing for a float (rounding error bounded by the stated tolerance)"""
    __slots__ = ("lin",)

    def __init__(self, lin):
        self.lin = lin

    def __repr__(self):
        return f"SymReal({self.lin!r})"


class SymBool(Sym):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return f"SymBool({self.c!r})"


def mkint(lin):
    if lin.const:
        return lin.c
    return SymInt(lin)


def mkbool(c):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    return SymBool(c)


def is_int(v):
    return isinstance(v, (int, SymInt, SymBool)) or isinstance(v, SymChoice) and v.all(int)


def lin(v):
    if isinstance(v, SymInt):
        return v.lin
    if isinstance(v, bool):
        return Lin(int(v))
    if isinstance(v, int):
        return Lin(int(v))
    if isinstance(v, SymBool):
        return ite(v.c, 1, 0)
    if isinstance(v, SymChoice):
        if v.all(int):
            return v.map_lin(int)
    if isinstance(v, Junk):
        Ctx.path.junk_read(v)
    raise Unsupported(f"not an integer: {v!r}")


# ------------------------------------------------------------------ bytes ropes
def norm_rope(segs):
    out = []
    for s in segs:
        if s[0] == "v":
            if s[3] == ZERO:
                continue
            if out and out[-1][0] == "v" and out[-1][1] == s[1] and add(out[-1][2], out[-1][3]) == s[2]:
                p = out.pop()
                s = ("v", s[1], p[2], add(p[3], s[3]))
        elif s[0] == "l":
            if not s[1]:
                continue
            if out and out[-1][0] == "l":
                p = out.pop()
                s = ("l", p[1] + s[1])
        elif s[0] == "c":
            if s[1].const:
                s = ("l", bytes([s[1].c]))
                if out and out[-1][0] == "l":
                    p = out.pop()
                    s = ("l", p[1] + s[1])
        out.append(s)
    return tuple(out)


def seg_len(s):
    if s[0] == "v":
        return s[3]
    if s[0] == "l":
        return Lin(len(s[1]))
    return ONE


def rope_len(r):
    n = ZERO
    for s in r:
        n = add(n, seg_len(s))
    return n


class SymBytes(Sym):
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = segs

    def __repr__(self):
        return "SymBytes(" + " ".join(
            f"{s[1]}[{s[2]!r} +{s[3]!r}]" if s[0] == "v" else repr(s[1]) for s in self.segs) + ")"


def joined(r):
    """r with adjacent views merged where the path condition says that they are contiguous"""
    if len(r) < 2 or Ctx.path is None:
        return r
    out = []
    for s in r:
        if s[0] == "v" and out and out[-1][0] == "v" and out[-1][1] == s[1] and \
                entails(eq(add(out[-1][2], out[-1][3]), s[2])):
            q = out.pop()
            s = ("v", s[1], q[2], add(q[3], s[3]))
        out.append(s)
    return tuple(out)


def mkbytes(segs):
    segs = joined(norm_rope(segs))
    if not segs:
        return b""
    if len(segs) == 1 and segs[0][0] == "l":
        return segs[0][1]
    return SymBytes(segs)


def rope(v):
    if isinstance(v, SymBytes):
        return v.segs
    if isinstance(v, (bytes, bytearray)):
        return (("l", bytes(v)),) if v else ()
    if isinstance(v, ByteArr):
        return v.segs
    raise Unsupported(f"not bytes: {v!r}")


class ByteArr:
    """a mutable bytearray holding a rope"""

    def __init__(self, segs=()):
        self.segs = segs


def is_bytes(v):
    return isinstance(v, (bytes, SymBytes, ByteArr, bytearray))


def view(base, off, ln):
    return mkbytes((("v", base, L(off), L(ln)),))


def cell_rope(l):
    """rope of the single byte with value l"""
    if len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1 and l.t[0][0].kind == "B":
        b, o = l.t[0][0].args
        return (("v", b, o, ONE),)
    return (("c", l),)


def rope_at(r, i):
    """Lin value of byte i (0 <= i < len assumed)"""
    i = L(i)
    if len(r) == 1 and r[0][0] == "v":
        return byte(r[0][1], add(r[0][2], i))
    pos = ZERO
    for k, s in enumerate(r):
        n = seg_len(s)
        last = k == len(r) - 1
        inside = TRUE if last else lt(i, add(pos, n))
        if inside is not FALSE and (inside is TRUE or decide(inside)):
            if s[0] == "v":
                return byte(s[1], add(s[2], sub(i, pos)))
            if s[0] == "c":
                return s[1]
            j = sub(i, pos)
            if j.const:
                return Lin(s[1][j.c])
            x = Lin(s[1][-1])
            for m in range(len(s[1]) - 2, -1, -1):
                x = ite(eq(j, m), Lin(s[1][m]), x)
            return x
        pos = add(pos, n)
    raise Unsupported("index into empty rope")


def rope_slice(r, a, b):
    """r[a:b] for 0 <= a <= b <= len(r)"""
    a, b = L(a), L(b)
    if len(r) == 1 and r[0][0] == "v":
        s = r[0]
        return norm_rope((("v", s[1], add(s[2], a), sub(b, a)),))
    out = []
    pos = ZERO
    for s in r:
        n = seg_len(s)
        end = add(pos, n)
        # overlap of [a,b) with [pos,end)
        if entails(le(end, a)) or entails(le(b, pos)):
            pos = end
            continue
        lo = cmax(a, pos)
        hi = cmin(b, end)
        if lo != pos or hi != end:
            x, y = sub(lo, pos), sub(hi, pos)
            if s[0] == "v":
                y = cmax(x, y)
                out.append(("v", s[1], add(s[2], x), sub(y, x)))
            elif s[0] == "l" and x.const and y.const:
                out.append(("l", s[1][x.c:y.c]))
            else:
                x0 = concretize(mkint(x)) if not x.const else x.c
                y0 = concretize(mkint(y)) if not y.const else y.c
                if s[0] == "l":
                    out.append(("l", s[1][x0:y0]))
                elif x0 < y0:
                    out.append(s)
        else:
            out.append(s)
        pos = end
    return norm_rope(out)


def cmin(x, y):
    """min with the help of the path condition"""
    x, y = L(x), L(y)
    c = le(x, y)
    if c is TRUE or c is not FALSE and entails(c):
        return x
    c2 = le(y, x)
    if c2 is TRUE or entails(c2):
        return y
    return ite(c, x, y)


def cmax(x, y):
    x, y = L(x), L(y)
    return sub(add(x, y), cmin(x, y)) if False else _cmax(x, y)


def _cmax(x, y):
    c = le(x, y)
    if c is TRUE or c is not FALSE and entails(c):
        return y
    c2 = le(y, x)
    if c2 is TRUE or entails(c2):
        return x
    return ite(c, y, x)


def clamp_slice(n, a, b):
    """normalised slice bounds (lo, hi) with 0 <= lo <= hi <= n"""
    n = L(n)

    def one(x, default):
        if x is None:
            return default
        x = lin(x)
        neg = lt(x, 0)
        if neg is TRUE or neg is not FALSE and not entails(ge(x, 0)) and decide(neg):
            x = cmax(add(x, n), ZERO)
        return cmin(x, n)

    lo = one(a, ZERO)
    hi = one(b, n)
    return lo, cmax(lo, hi)


def rope_key(r):
    """(static shape, lins) of a rope, for use as uninterpreted function arguments"""
    shape, lins = [], []
    for s in r:
        if s[0] == "v":
            shape.append(("v", s[1]))
            lins += [s[2], s[3]]
        elif s[0] == "l":
            shape.append(("l", s[1]))
        else:
            shape.append(("c",))
            lins.append(s[1])
    return tuple(shape), tuple(lins)


INEXACT = [0]     # counts comparisons that returned only a sufficient condition


def rope_eq(a, b):
    """Cond: two byte ropes are equal"""
    if a == b:
        return TRUE
    la, lb = rope_len(a), rope_len(b)
    c = eq(la, lb)
    if c is FALSE:
        return FALSE
    if len(a) == 1 and len(b) == 1 and a[0][0] == b[0][0] == "v" and a[0][1] == b[0][1]:
        # sufficient condition for long views, exact for short ones
        same = and_(eq(a[0][2], b[0][2]), c)
        n = la if la.const else lb
        if same is TRUE or not n.const or n.c > 64:
            INEXACT[0] += same is not TRUE
            return same
    if la.const or lb.const:
        n = la.c if la.const else lb.c
        if n > 4096:
            raise Unsupported("comparison of long byte strings")
        if c is not TRUE and not entails(c):
            if not decide(c):
                return FALSE
        cs = [c]
        for i in range(n):
            cs.append(eq(rope_at(a, i), rope_at(b, i)))
        return and_(*cs)
    sa, ka = rope_key(a)
    sb, kb = rope_key(b)
    INEXACT[0] += 1
    if sa == sb:
        return and_(*[eq(x, y) for x, y in zip(ka, kb)])
    return ufb(uname("beq", sa, sb), ka + kb)


# ------------------------------------------------------------------ interned constants, choices
_codes = {}
_vals = []


def code_of(v):
    k = (type(v), v)
    if k not in _codes:
        _codes[k] = len(_vals)
        _vals.append(v)
    return _codes[k]


class SymChoice(Sym):
    """one of finitely many constants; lin is an ite chain of their intern codes"""
    __slots__ = ("lin", "vals")

    def __init__(self, lin, vals):
        self.lin = lin
        self.vals = tuple(vals)

    def __repr__(self):
        return f"SymChoice({list(self.vals)[:4]}...)"

    def all(self, t):
        return all(isinstance(v, t) for v in self.vals)

    def cond(self, pred):
        """Cond: the chosen value satisfies pred"""
        return or_(*[eq(self.lin, code_of(v)) for v in self.vals if pred(v)])

    def map_lin(self, f):
        x = Lin(f(self.vals[-1]))
        for v in self.vals[:-1]:
            x = ite(eq(self.lin, code_of(v)), Lin(f(v)), x)
        return x

    def map(self, f):
        return mkchoice([(eq(self.lin, code_of(v)), f(v)) for v in self.vals[:-1]], f(self.vals[-1]))


def mkchoice(alts, default):
    """alts: [(Cond, constant)], first match wins"""
    x = Lin(code_of(default))
    vals = {code_of(default): default}
    for c, v in reversed(alts):
        x = ite(c, Lin(code_of(v)), x)
        vals[code_of(v)] = v
    if x.const:
        return _vals[x.c]
    return SymChoice(x, [vals[k] for k in sorted(vals)])


def concretize(v, limit=80):
    """fork until v is a constant"""
    if isinstance(v, SymBool):
        return decide(v.c)
    if isinstance(v, SymChoice):
        for x in v.vals[:-1]:
            if decide(eq(v.lin, code_of(x))):
                return x
        Ctx.path.assume(eq(v.lin, code_of(v.vals[-1])))
        return v.vals[-1]
    if isinstance(v, SymInt):
        lo, hi = bounds(v.lin)
        if lo is None or hi is None or hi - lo > limit:
            k = Ctx.path.known_const(v.lin)
            if k is not None:
                return k
            raise Unsupported(f"concretising {v!r}")
        for k in range(lo, hi):
            if decide(eq(v.lin, k)):
                return k
        return hi
    if isinstance(v, SymBytes):
        n = rope_len(v.segs)
        n = n.c if n.const else concretize(mkint(n))
        return bytes(concretize(mkint(rope_at(v.segs, i)), 256) for i in range(n))
    raise Unsupported(f"concretising {v!r}")


# ------------------------------------------------------------------ text ropes
#   ('s', str) | ('fmt', spec, Lin) | ('tab', Lin code, vals) | ('o', name, key, lins)
class SymStr(Sym):
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = segs

    def __repr__(self):
        return "SymStr(" + "+".join(repr(s[1]) if s[0] in "s" else f"<{s[0]} {s[1:]}>" for s in self.segs) + ")"


def mkstr(segs):
    out = []
    for s in segs:
        if s[0] == "s":
            if not s[1]:
                continue
            if out and out[-1][0] == "s":
                s = ("s", out.pop()[1] + s[1])
        elif s[0] == "fmt" and s[2].const:
            s = ("s", format(s[2].c, s[1]))
            if out and out[-1][0] == "s":
                s = ("s", out.pop()[1] + s[1])
        out.append(s)
    if not out:
        return ""
    if len(out) == 1 and out[0][0] == "s":
        return out[0][1]
    if len(out) == 1 and out[0][0] == "tab":
        return SymChoice(out[0][1], out[0][2])
    return SymStr(tuple(out))


def strsegs(v):
    if isinstance(v, SymStr):
        return v.segs
    if isinstance(v, str):
        return (("s", str(v)),) if v else ()
    if isinstance(v, SymChoice) and v.all(str):
        return (("tab", v.lin, v.vals),)
    raise Unsupported(f"not text: {v!r}")


def is_str(v):
    return isinstance(v, (str, SymStr)) or isinstance(v, SymChoice) and v.all(str)


def opaque_text(name, key, lins):
    return SymStr((("o", name, key, tuple(lins)),))


def seg_id(seg):
    """(static, lins) of one text segment"""
    if seg[0] == "s":
        return ("s", seg[1]), ()
    if seg[0] == "fmt":
        return ("fmt", seg[1]), (seg[2],)
    if seg[0] == "tab":
        return ("tab",), (seg[1],)
    return ("o", seg[1], seg[2]), seg[3]


def text_key(v):
    sh, ls = [], []
    for s in strsegs(v):
        a, b = seg_id(s)
        sh.append(a)
        ls.extend(b)
    return tuple(sh), tuple(ls)


FMT_WIDTH = {}


def fmt_len(seg):
    """constant length of a formatted integer, or None"""
    spec, x = seg[1], seg[2]
    w = spec[:-1]
    if w.startswith("0") and w[1:].isdigit() and spec[-1] in "xX":
        n = int(w)
        lo, hi = bounds(x)
        if lo is not None and lo >= 0 and hi is not None and hi < 16 ** n:
            return n
        k = (id(Ctx.path), seg)
        if k not in FMT_WIDTH:
            if len(FMT_WIDTH) > 5000:
                FMT_WIDTH.clear()
            FMT_WIDTH[k] = Ctx.path, entails(and_(le(0, x), lt(x, 16 ** n)))
        if FMT_WIDTH[k][1]:
            return n
    return None


def _parse_fmt(spec, s):
    """the integer whose format is s, or None"""
    try:
        v = int(s, 16 if spec[-1] in "xX" else 10)
    except ValueError:
        return None
    return v if format(v, spec) == s else None


def str_eq(a, b):
    """Cond for equality of two texts (exact on segments it understands)"""
    sa, sb = strsegs(a), strsegs(b)
    if sa == sb:
        return TRUE
    if len(sa) == len(sb) and all(x[0] == y[0] for x, y in zip(sa, sb)):
        ok, cs = True, []
        for x, y in zip(sa, sb):
            (i, l), (j, m) = seg_id(x), seg_id(y)
            if i != j or len(l) != len(m):
                ok = False
                break
            if i[0] == "tab":
                cs.append(eq(l[0], m[0]))
                continue
            INEXACT[0] += i[0] == "o"
            cs.extend(eq(p, q) for p, q in zip(l, m))
        if ok:
            return and_(*cs)
    # literal against one segment
    for x, y in ((sa, sb), (sb, sa)):
        if len(y) == 1 and y[0][0] == "s" or not y:
            s = y[0][1] if y else ""
            if len(x) == 1:
                g = x[0]
                if g[0] == "tab":
                    return or_(*[eq(g[1], code_of(v)) for v in g[2] if v == s])
                if g[0] == "fmt":
                    v = _parse_fmt(g[1], s)
                    return FALSE if v is None else eq(g[2], v)
                if g[0] == "o":
                    if not s:
                        return not_(text_nonempty(g))
                    st, ls = seg_id(g)
                    n = text_len(SymStr(x))
                    return and_(eq(n, len(s)), *[eq(text_char(SymStr(x), i), ord(ch)) for i, ch in enumerate(s)])
            if len(x) == 2 and x[0][0] == "s" and x[1][0] == "fmt":
                if not s.startswith(x[0][1]):
                    return FALSE
                v = _parse_fmt(x[1][1], s[len(x[0][1]):])
                return FALSE if v is None else eq(x[1][2], v)
    # both of fixed layout: compare character by character
    ca, cb = chars_of(sa), chars_of(sb)
    if ca is not None and cb is not None:
        if len(ca) != len(cb):
            return FALSE
        return and_(*[eq(p, q) for p, q in zip(ca, cb)])
    if ca is None and cb is None or True:
        return _str_eq_align(sa, sb)


def _str_eq_align(sa, sb):
    """segmentwise comparison after splitting literals at equal prefixes; sufficient only"""
    sa, sb = list(sa), list(sb)
    cs = []
    while sa and sb:
        x, y = sa[0], sb[0]
        if x[0] == "s" and y[0] == "s":
            n = min(len(x[1]), len(y[1]))
            if x[1][:n] != y[1][:n]:
                return FALSE
            sa[0] = ("s", x[1][n:])
            sb[0] = ("s", y[1][n:])
            if not sa[0][1]:
                sa.pop(0)
            if not sb[0][1]:
                sb.pop(0)
            continue
        (i, l), (j, m) = seg_id(x), seg_id(y)
        if i == j and len(l) == len(m):
            INEXACT[0] += i[0] == "o"
            cs.extend(eq(p, q) for p, q in zip(l, m))
            sa.pop(0)
            sb.pop(0)
            continue
        # a digit run against a formatted integer of known width
        for u, v in ((sa, sb), (sb, sa)):
            if u[0][0] == "s" and v[0][0] == "fmt" and fmt_len(v[0]):
                n = fmt_len(v[0])
                val = _parse_fmt(v[0][1], u[0][1][:n])
                if len(u[0][1]) >= n:
                    if val is None:
                        return FALSE
                    cs.append(eq(v[0][2], val))
                    r = u[0][1][n:]
                    v.pop(0)
                    if r:
                        u[0] = ("s", r)
                    else:
                        u.pop(0)
                    break
            # a literal against a decimal number that ends where no digit follows
            if u[0][0] == "s" and v[0][0] == "fmt" and v[0][1] == "d" and not fmt_len(v[0]):
                m = re.match("(0|-?[1-9][0-9]*)(?![0-9])", u[0][1])
                after = v[1][1][:1] if len(v) > 1 and v[1][0] == "s" else ""
                if m and (after and after not in "0123456789" or len(v) == 1) and (
                        m.end() < len(u[0][1]) or len(u) == 1):
                    cs.append(eq(v[0][2], int(m.group())))
                    v.pop(0)
                    u[0] = ("s", u[0][1][m.end():])
                    if not u[0][1]:
                        u.pop(0)
                    break
        else:
            return undecided_eq(sa, sb)
    if sa or sb:
        rest = sa or sb
        for s in rest:
            if s[0] in ("s", "fmt"):
                return FALSE
            cs.append(not_(text_nonempty(s)) if s[0] == "o" else
                      or_(*[eq(s[1], code_of(v)) for v in s[2] if v == ""]))
    return and_(*cs)


def undecided_eq(sa, sb):
    sha, la = zip(*[seg_id(s) for s in sa]) if sa else ((), ())
    shb, lb = zip(*[seg_id(s) for s in sb]) if sb else ((), ())
    Ctx.path.note(f"text comparison left uninterpreted: {sha} / {shb}")
    return ufb(f"streq|{sha}|{shb}", [x for l in la for x in l] + [x for l in lb for x in l])


def chars_of(segs, limit=400):
    """list of Lin code points when the rope has a fixed character layout"""
    out = []
    for s in segs:
        if s[0] == "s":
            out.extend(Lin(ord(c)) for c in s[1])
        elif s[0] == "fmt":
            n = fmt_len(s)
            if n is None:
                return None
            up = s[1][-1] == "X"
            for i in range(n - 1, -1, -1):
                d = bitand(floordiv(s[2], 16 ** i), 15)
                out.append(add(d, ite(lt(d, 10), 48, 55 if up else 87)))
        elif s[0] == "o" and s[1] == "chr":
            out.append(s[3][-1])
        elif s[0] == "o" and s[1] == "chars":
            out.extend(s[3])
        else:
            return None
        if len(out) > limit:
            return None
    return out


def uname(*parts):
    return "|".join(map(repr, parts))


def text_nonempty(seg):
    st, ls = seg_id(seg)
    if seg[1] in ("chr",):
        return TRUE
    if seg[1] == "sub":
        return lt(seg[3][-2], seg[3][-1])
    return lt(0, uf(uname("len", st), ls, 0))


def text_len(v):
    n = ZERO
    for s in strsegs(v):
        if s[0] == "s":
            n = add(n, len(s[1]))
        elif s[0] == "tab":
            n = add(n, SymChoice(s[1], s[2]).map_lin(len))
        elif s[0] == "fmt":
            k = fmt_len(s)
            n = add(n, Lin(k) if k is not None else uf(uname("fmtlen", s[1]), (s[2],), 1, 64))
        elif s[1] == "chr":
            n = add(n, 1)
        elif s[1] == "chars":
            n = add(n, len(s[3]))
        elif s[1] == "sub":
            n = add(n, sub(s[3][-1], s[3][-2]))
        else:
            st, ls = seg_id(s)
            n = add(n, uf(uname("len", st), ls, 0))
    return n


def text_char(v, i):
    """code point of character i (in range)"""
    segs = strsegs(v)
    i = L(i)
    if len(segs) == 1 and segs[0][0] == "o":
        s = segs[0]
        if s[1] == "chr":
            return s[3][-1]
        if s[1] == "sub":
            inner = ("o", s[2][0], s[2][1], s[3][:-2])
            return text_char(SymStr((inner,)), add(i, s[3][-2]))
        if s[1] != "chars":
            st, ls = seg_id(s)
            return uf(uname("chr", st), tuple(ls) + (i,), 0, 0x10FFFF)
    cs = chars_of(segs)
    if cs is not None and i.const:
        return cs[i.c]
    raise Unsupported(f"character of {v!r}")


def text_sub(v, a, b):
    """v[a:b] with 0 <= a <= b <= len"""
    a, b = L(a), L(b)
    segs = strsegs(v)
    if not segs or a == b:
        return ""
    if a == ZERO and b == text_len(v):
        return v
    if len(segs) == 1 and segs[0][0] == "o":
        s = segs[0]
        if s[1] == "sub":
            return SymStr((("o", "sub", s[2], s[3][:-2] + (add(s[3][-2], a), add(s[3][-2], b))),))
        if s[1] not in ("chr", "chars"):
            return SymStr((("o", "sub", (s[1], s[2]), s[3] + (a, b)),))
    if a.const and len(segs) > 1 and segs[0][0] == "s" and 0 < a.c <= len(segs[0][1]) and entails(le(a, b)):
        n = a.c
        return text_sub(mkstr((("s", segs[0][1][n:]),) + tuple(segs[1:])), ZERO, sub(b, n))
    if len(segs) > 1 and any(s[0] == "fmt" and fmt_len(s) is None for s in segs):
        # of unknown layout
        key, ls = text_key(v)
        return SymStr((("o", "sub", ("cat", (key,)), ls + (a, b)),))
    if a.const and b.const:
        # fixed layout prefix
        out, pos = [], 0
        x, y = a.c, b.c
        for s in segs:
            n = len(s[1]) if s[0] == "s" else fmt_len(s) if s[0] == "fmt" else None
            if n is None:
                if pos >= y:
                    break
                if s[0] == "o" and s[1] == "chars":
                    n = len(s[3])
                elif s[0] == "o" and s[1] == "chr":
                    n = 1
                else:
                    cs = chars_of(segs)
                    if cs is None:
                        raise Unsupported(f"slice of {v!r}")
                    return mkstr([("o", "chars", (), tuple(cs[x:y]))])
            lo, hi = max(x, pos), min(y, pos + n)
            if lo < hi:
                if lo == pos and hi == pos + n:
                    out.append(s)
                elif s[0] == "s":
                    out.append(("s", s[1][lo - pos:hi - pos]))
                elif s[0] == "fmt":
                    # hex digits lo..hi of the number
                    k = hi - lo
                    d = bitand(floordiv(s[2], 16 ** (pos + n - hi)), 16 ** k - 1)
                    out.append(("fmt", f"0{k}{s[1][-1]}", d))
                else:
                    cs = chars_of((s,))
                    out.append(("o", "chars", (), tuple(cs[lo - pos:hi - pos])))
            pos += n
        return mkstr(out)
    raise Unsupported(f"slice of {v!r}")


# ------------------------------------------------------------------ other values
class SymDT(Sym):
    """aware UTC datetime: kind 'ts' (real seconds since 1970, tolerance), or 'cal' (exact calendar fields)"""
    __slots__ = ("kind", "f", "tz")

    def __init__(self, kind, f, tz):
        self.kind, self.f, self.tz = kind, f, tz

    def __repr__(self):
        return f"SymDT({self.kind}, {self.f})"


class SymTD(Sym):
    __slots__ = ("us",)     # Lin (rational) microseconds

    def __init__(self, us):
        self.us = us

    def __repr__(self):
        return f"SymTD({self.us})"


class Opq(Sym):
    """opaque result of a contract: name, static key, integer arguments, and the Python type it stands for"""
    __slots__ = ("name", "key", "lins", "typ", "muts")

    def __init__(self, name, key, lins, typ=None):
        self.name, self.key, self.lins, self.typ = name, key, tuple(lins), typ

    def __repr__(self):
        return f"Opq({self.name}, {self.lins})"


class Junk(Sym):
    """loop-carried value about which nothing is known"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"Junk({self.why})"


class Guarded:
    """element of a list that is present only under cond"""
    __slots__ = ("c", "v")

    def __init__(self, c, v):
        self.c, self.v = c, v

    def __repr__(self):
        return f"Guarded({self.c!r}, {self.v!r})"


class Star:
    """unknown many leading elements of a container (the emissions of the loop iterations so far)"""
    __slots__ = ("id", "spec")

    def __init__(self, id, spec=None):
        self.id, self.spec = id, spec

    def __repr__(self):
        return f"Star({self.id})"


class Each:
    """all elements of a list of unknown length: elem is the arbitrary one at index j"""
    __slots__ = ("elem", "n")

    def __init__(self, elem, n):
        self.elem, self.n = elem, n

    def __repr__(self):
        return f"Each({self.elem!r}, {self.n!r})"


class EachKey:
    """the key under which a dictionary holds Each((key, value), n): unknown many entries, (key, value) the arbitrary one

    universe: the keys these entries may have, None when it is not known"""
    __slots__ = ("universe",)

    def __init__(self, universe=None):
        self.universe = universe

    def __repr__(self):
        return "EachKey"


def each_key(d):
    """the EachKey of a dictionary, or None"""
    return next((k for k in d if type(k) is EachKey), None)


class Scalar:
    """type of an unknown value that is None, a number, a text or a time"""


class OpqDict(Sym):
    """a mutable dictionary with unknown, non-empty contents, apart from the entries that were taken out or stored"""
    __slots__ = ("o", "gone", "over")

    def __init__(self, o, gone=(), over=()):
        self.o, self.gone, self.over = o, set(gone), dict(over)

    def state(self):
        return (frozenset(self.gone), tuple(self.over), tuple(map(id, self.over.values())))

    def __repr__(self):
        return f"OpqDict({self.o!r}, without {sorted(map(str, self.gone))}, {self.over})"


PARTS = (Guarded, Star, Each)


def flatten_key(v):
    """(static, lins) identifying any value passed to an opaque function"""
    if isinstance(v, SymInt):
        return ("i",), (v.lin,)
    if isinstance(v, SymReal):
        return ("r",), (v.lin,)
    if isinstance(v, SymBool):
        return ("b",), (ite(v.c, 1, 0),)
    if isinstance(v, SymChoice):
        return ("t",), (v.lin,)
    if isinstance(v, SymBytes):
        a, b = rope_key(v.segs)
        return ("B", a), b
    if isinstance(v, SymStr):
        a, b = text_key(v)
        return ("S", a), b
    if isinstance(v, Opq):
        return ("O", v.name, v.key), v.lins
    if isinstance(v, Each):
        (a, b), n = flatten_key(v.elem), v.n
        return ("each", a), b + (n,)
    if isinstance(v, OpqDict):
        (a, b), (c, d) = flatten_key(v.o), flatten_key(v.over)
        return ("od", a, tuple(sorted(map(repr, v.gone))), c), b + d
    if isinstance(v, (list, tuple)):
        ks, ls = [], []
        for x in v:
            a, b = flatten_key(x)
            ks.append(a)
            ls.extend(b)
        return (type(v).__name__, tuple(ks)), tuple(ls)
    if isinstance(v, dict):
        ks, ls = [], []
        for k, x in v.items():
            a, b = flatten_key(x)
            ks.append((k, a))
            ls.extend(b)
        return ("d", tuple(ks)), tuple(ls)
    if isinstance(v, Sym):
        raise Unsupported(f"opaque argument {v!r}")
    return ("k", type(v).__name__, v if isinstance(v, (str, bytes, int, type(None), float)) else id(v)), ()
