"""Meaning of the built-in operations and of the few library functions the code uses, on symbolic operands.

Operations whose operands are all concrete run natively (CPython's own implementation).  Everything a property
trusts about a library function on symbolic data is in this file.
"""
import argparse
import builtins
import codecs
import collections.abc
import contextlib
import datetime
import enum
import functools
import hashlib
import io
import itertools
import json
import binascii
import collections
import operator
import re
import struct
import sys
import textwrap
import types
import warnings
from fractions import Fraction

from .values import *
from . import values as V

BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
       "%": operator.mod, "**": operator.pow, "<<": operator.lshift, ">>": operator.rshift, "&": operator.and_,
       "|": operator.or_, "^": operator.xor, "@": operator.matmul}
CMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
SYMLIKE = (Sym, ByteArr, Guarded, Star, Each)


def has_sym(v, depth=0):
    """does v contain a symbolic value (looking into builtin containers)"""
    t = type(v)
    if t in (int, str, bytes, bool, float, type(None)):
        return False
    if isinstance(v, SYMLIKE):
        return True
    if t in (list, tuple, set, frozenset):
        return any(has_sym(x, depth + 1) for x in v)
    if t is dict:
        return any(has_sym(x, depth + 1) for x in v.values()) or any(has_sym(x, depth + 1) for x in v)
    if t is slice:
        return has_sym(v.start) or has_sym(v.stop) or has_sym(v.step)
    return False


class SymMethod:
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SymText(Sym):
    """text produced by an encoder from a structure (json.dumps, yaml.dump), followed by text operations"""
    __slots__ = ("kind", "struct", "opts", "ops")

    def __init__(self, kind, struct_, opts, ops=()):
        self.kind, self.struct, self.opts, self.ops = kind, struct_, opts, ops

    def __repr__(self):
        return f"SymText({self.kind})"


def uns(msg):
    raise Unsupported(msg)


def junk_check(*vs):
    for v in vs:
        if isinstance(v, Junk):
            Ctx.path.junk_read(v)
            raise Unsupported(f"use of loop-carried value {v!r}")
        if isinstance(v, PARTS):
            raise EngineError(f"use of {v!r} as a value")


# ------------------------------------------------------------------ truth
def truth_cond(I, v):
    if v is None or v is False:
        return FALSE
    if v is True:
        return TRUE
    if isinstance(v, SymInt):
        return ne(v.lin, 0)
    if isinstance(v, SymBool):
        return v.c
    if isinstance(v, SymReal):
        return ne(v.lin, 0)
    if isinstance(v, (SymBytes, ByteArr)):
        return lt(0, rope_len(v.segs))
    if isinstance(v, SymStr):
        if any(s[0] == "s" or s[0] == "fmt" for s in v.segs):
            return TRUE
        return or_(*[text_nonempty(s) if s[0] == "o" else
                     not_(or_(*[eq(s[1], code_of(x)) for x in s[2] if x == ""])) for s in v.segs])
    if isinstance(v, SymChoice):
        return v.cond(bool)
    if isinstance(v, (SymDT, SymText)):
        return TRUE
    if isinstance(v, SymTD):
        return ne(v.us, 0)
    if isinstance(v, Junk):
        junk_check(v)
    if isinstance(v, Opq):
        if v.typ is dict or v.typ is list or v.typ is str:
            return ufb(uname("nonempty", v.name, v.key), v.lins)
        if v.typ is object:
            return TRUE
        uns(f"truth of {v!r}")
    if isinstance(v, OpqDict):
        return TRUE if v.over or not v.gone else ufb(uname("nonempty", v.o.name, v.o.key, tuple(sorted(v.gone))), v.o.lins)
    if isinstance(v, dict):
        dict_all(v)
        e = each_key(v)
        if e is not None:
            return TRUE if len(v) > 1 else lt(0, v[e].n)
    if isinstance(v, list) and type(v) is list:
        if any(isinstance(x, Each) for x in v):
            return or_(*[lt(0, x.n) if isinstance(x, Each) else x.c if isinstance(x, Guarded) else
                         lt(0, V.star_len(x)) if isinstance(x, Star) else TRUE for x in v])
        if any(isinstance(x, Star) for x in v):
            if any(not isinstance(x, PARTS) for x in v):
                return TRUE
            s = [x for x in v if isinstance(x, Star)][0]
            return lt(0, V.star_len(s))
        if v and all(isinstance(x, Guarded) for x in v):
            return or_(*[x.c for x in v])
        return TRUE if v else FALSE
    if isinstance(v, (int, str, bytes, float, tuple, dict, set, frozenset, bytearray, range)):
        return TRUE if v else FALSE
    t = type(v)
    b = getattr(t, "__bool__", None)
    if b is not None:
        if type(b).__name__ == "IFunc":
            return truth_cond(I, I.call(b, (v,), {}))
        return TRUE if v else FALSE
    l = getattr(t, "__len__", None)
    if l is not None and type(l).__name__ == "IFunc":
        return truth_cond(I, I.call(l, (v,), {}))
    return TRUE


def truth(I, v):
    if v is True or v is False:
        return v
    return decide(truth_cond(I, v))


# ------------------------------------------------------------------ comparison
def is_num(v):
    return isinstance(v, (SymInt, SymReal, SymBool, int, float)) or isinstance(v, SymChoice) and v.all((int, float))


def numlin(v):
    if isinstance(v, SymReal):
        return v.lin
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            uns("non-finite float")
        return Lin(Fraction(v)) if v != int(v) else Lin(int(v))
    return lin(v)


def _cmp_lin(op, a, b):
    return {"==": eq, "!=": ne, "<": lt, "<=": le, ">": gt, ">=": ge}[op](a, b)


def eq_cond(I, a, b):
    """Cond for Python's a == b"""
    if a is b and not isinstance(a, (Junk, float)):
        return TRUE
    junk_check(a, b)
    if not has_sym(a) and not has_sym(b):
        if user_obj(a) or user_obj(b):
            for x, y in ((a, b), (b, a)):
                m = getattr(type(x), "__eq__", None)
                if type(m).__name__ == "IFunc":
                    r = I.call(m, (x, y), {})
                    if r is not NotImplemented:
                        return truth_cond(I, r)
            return TRUE if a is b else FALSE
        if type(a) in (list, tuple) and type(a) is type(b) and (any(map(user_obj, a)) or any(map(user_obj, b))):
            return FALSE if len(a) != len(b) else and_(*[eq_cond(I, x, y) for x, y in zip(a, b)])
        try:
            return TRUE if a == b else FALSE
        except Exception as e:
            raise PyExc(e)
    if is_num(a) and is_num(b):
        return eq(numlin(a), numlin(b))
    if is_bytes(a) and is_bytes(b):
        n0 = V.INEXACT[0]
        c = rope_eq(rope(a), rope(b))
        if V.INEXACT[0] != n0 and c is not TRUE:
            ka, la = rope_key(rope(a))
            kb, lb = rope_key(rope(b))
            c = or_(c, ufb(uname("beq", ka, kb), la + lb))
        return c
    if isinstance(a, SymChoice) and isinstance(b, SymChoice):
        common = [v for v in a.vals if any(type(v) is type(w) and v == w for w in b.vals)]
        if set(map(type, a.vals)) | set(map(type, b.vals)) <= {str, type(None), int, bytes}:
            return or_(*[and_(eq(a.lin, code_of(v)), eq(b.lin, code_of(v))) for v in common])
    if isinstance(a, SymChoice) or isinstance(b, SymChoice):
        if isinstance(b, SymChoice):
            a, b = b, a
        if not has_sym(b):
            return a.cond(lambda v: v == b)
        if not is_str(b) or not a.all(str):
            return or_(*[and_(eq(a.lin, code_of(v)), eq_cond(I, v, b)) for v in a.vals])
    if is_str(a) and is_str(b):
        n0 = V.INEXACT[0]
        c = str_eq(a, b)
        if V.INEXACT[0] != n0 and c is not TRUE:
            ka, la = text_key(a)
            kb, lb = text_key(b)
            c = or_(c, ufb(uname("teq", ka, kb), la + lb))
        return c
    if type(a) in (list, tuple) and type(a) is type(b):
        if any(isinstance(x, PARTS) for x in list(a) + list(b)):
            uns("equality of partially known lists")
        if len(a) != len(b):
            return FALSE
        return and_(*[eq_cond(I, x, y) for x, y in zip(a, b)])
    if type(a) is dict and type(b) is dict:
        if set(a) != set(b):
            return FALSE
        return and_(*[eq_cond(I, a[k], b[k]) for k in a])
    if isinstance(a, SymDT) and isinstance(b, SymDT):
        if a.kind == b.kind and a.tz == b.tz:
            return and_(*[eq(x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, SymTD) and isinstance(b, SymTD):
        return eq(a.us, b.us)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (Opq, SymText, SymDT, SymTD)) and not (y is None and not (isinstance(x, Opq) and x.typ is None)):
            uns(f"equality of {x!r} and {y!r}")
    if user_obj(a) or user_obj(b):
        for x, y in ((a, b), (b, a)):
            m = getattr(type(x), "__eq__", None)
            if type(m).__name__ == "IFunc":
                return truth_cond(I, I.call(m, (x, y), {}))
    return FALSE          # different types


def user_obj(v):
    t = type(v)
    return getattr(t, "__module__", "").split(".")[0] in (Ctx.interp.prefix, "specs", "pyvc_prelude") and not isinstance(v, enum.Enum)


def compare(I, op, a, b):
    junk_check(a, b)
    if op == "==":
        return mkbool(eq_cond(I, a, b))
    if op == "!=":
        return mkbool(not_(eq_cond(I, a, b)))
    if not has_sym(a) and not has_sym(b):
        m = getattr(type(a), {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op], None)
        if type(m).__name__ == "IFunc":
            return I.call(m, (a, b), {})
        return I.native(CMP[op], a, b)
    if is_num(a) and is_num(b):
        return mkbool(_cmp_lin(op, numlin(a), numlin(b)))
    if isinstance(a, SymTD) and isinstance(b, SymTD):
        return mkbool(_cmp_lin(op, a.us, b.us))
    if isinstance(a, (SymDT, datetime.datetime)) and isinstance(b, (SymDT, datetime.datetime)):
        return mkbool(_cmp_lin(op, dt_seconds(a), dt_seconds(b)))
    if type(a) in (list, tuple) and type(a) is type(b):
        for x, y in zip(a, b):
            if not decide(eq_cond(I, x, y)):
                return compare(I, op, x, y)
        return CMP[op](len(a), len(b))
    for x, y in ((a, b), (b, a)):
        if (is_num(x) and (y is None or is_bytes(y) or is_str(y) or isinstance(y, (list, dict, tuple)))) or \
                ((is_bytes(x) or is_str(x)) and (y is None or isinstance(y, (list, dict, tuple)))):
            pyraise(TypeError(f"'{op}' not supported between these types"))
    if is_bytes(a) and is_bytes(b):
        ra, rb = rope(a), rope(b)
        la, lb = rope_len(ra), rope_len(rb)
        if la.const and lb.const and la.c == lb.c <= 32:
            x = y = ZERO
            for i in range(la.c):
                x = add(scale(x, 256), rope_at(ra, i))
                y = add(scale(y, 256), rope_at(rb, i))
            return mkbool(_cmp_lin(op, x, y))
    uns(f"comparison {op} of {a!r} and {b!r}")


def contains(I, a, b):
    """Cond: a in b"""
    junk_check(a, b)
    if isinstance(b, OpqDict):
        if isinstance(a, SYMLIKE):
            uns("symbolic key")
        return TRUE if a in b.over else FALSE if a in b.gone else ufb(uname("key", b.o.name, b.o.key, a), b.o.lins)
    if isinstance(b, dict):
        dict_all(b) if isinstance(a, SYMLIKE) else dict_key(b, a)
    if isinstance(b, (list, tuple)) and (has_sym(b) or isinstance(a, SYMLIKE)):
        cs = []
        for x in b:
            if isinstance(x, (Star, Each)):
                uns("membership in a partially known list")
            if isinstance(x, Guarded):
                cs.append(and_(x.c, eq_cond(I, x.v, a)))
            else:
                cs.append(eq_cond(I, x, a))
        return or_(*cs)
    if isinstance(b, range) and isinstance(a, Sym):
        x = lin(a)
        lo, hi, st = b.start, b.stop, b.step
        if st < 0:
            b = range(b[-1], b[0] + 1, -st) if len(b) else range(0)
            lo, hi, st = b.start, b.stop, b.step
        return and_(le(lo, x), lt(x, hi), eq(mod(sub(x, lo), st), 0) if st > 1 else TRUE)
    if isinstance(b, (set, frozenset)) or isinstance(b, (dict, types.MappingProxyType)) or type(b).__name__ in (
            "dict_keys", "dict_values"):
        if not isinstance(a, SYMLIKE):
            if type(b).__name__ == "dict_values":
                return or_(*[eq_cond(I, x, a) for x in b])
            try:
                if isinstance(b, dict):
                    each_has(b, a)
                return TRUE if a in b else FALSE
            except TypeError as e:
                raise PyExc(e)
        return or_(*[eq_cond(I, k, a) for k in b])
    if is_bytes(b):
        if not has_sym(b) and not has_sym(a):
            return TRUE if I.native(operator.contains, b, a) else FALSE
        if isinstance(a, int) and 0 <= a < 256:
            a = bytes([a])
        r = bytes_find(I, b, a, None, None)
        return ge(lin(r), 0)
    if is_str(b):
        if not has_sym(b) and not has_sym(a):
            return TRUE if I.native(operator.contains, b, a) else FALSE
        if isinstance(b, str) and isinstance(a, SymChoice):
            return a.cond(lambda v: v in b)
        if isinstance(b, SymChoice) and isinstance(a, str):
            return b.cond(lambda v: a in v)
        if isinstance(b, str) and isinstance(a, SymStr):
            cs = chars_of(a.segs)
            if cs is not None and len(cs) == 1:
                return or_(*[eq(cs[0], ord(ch)) for ch in set(b)])
        return ge(lin(str_find(I, b, a)), 0)
    if user_obj(b):
        m = getattr(type(b), "__contains__", None)
        if m is not None:
            return truth_cond(I, I.call(m, (b, a), {}))
        it = get_iter(I, b)
        while True:
            ok, v = I.nxt(it)
            if not ok:
                return FALSE
            if decide(eq_cond(I, v, a)):
                return TRUE
    if not has_sym(a) and not has_sym(b):
        return TRUE if I.native(operator.contains, b, a) else FALSE
    uns(f"membership of {a!r} in {b!r}")


def is_(I, a, b):
    junk_check(a, b)
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SymChoice):
            if y is None or isinstance(y, bool):
                return x.cond(lambda v: v is y)
        if isinstance(x, SymBool) and isinstance(y, bool):
            return x.c if y else not_(x.c)
        if isinstance(x, Opq) and x.typ is None:
            uns(f"identity of {x!r}")
    return FALSE


# ------------------------------------------------------------------ subscripts
def index_lin(v):
    if isinstance(v, SymBool):
        return lin(v)
    if is_int(v):
        return lin(v)
    m = getattr(type(v), "__index__", None)
    if m is not None and not isinstance(v, Sym):
        return Lin(operator.index(v))
    pyraise(TypeError(f"indices must be integers, not {type(v).__name__}"))


def choose(I, alts, exc):
    """alts: [(Cond, value)] mutually exclusive; value by cases, exc raised when none holds (None: no such case)"""
    alts = [(c, v) for c, v in alts if c is not FALSE]
    if exc is not None:
        if not decide(or_(*[c for c, _ in alts])):
            pyraise(exc)
    return by_cases(alts)


def by_cases(alts):
    if len(alts) == 1:
        return alts[0][1]
    vals = [v for _, v in alts]
    if all(type(v) in (int, str, bytes, type(None), bool) for v in vals):
        return mkchoice(alts[:-1], alts[-1][1])
    groups = []
    for c, v in alts:
        for g in groups:
            if g[1] is v:
                g[0] = or_(g[0], c)
                break
        else:
            groups.append([c, v])
    for c, v in groups[:-1]:
        if decide(c):
            return v
    return groups[-1][1]


def dict_key(o, k):
    """decide whether the entry k is present"""
    if isinstance(o, dict):
        each_has(o, k)
    try:
        v = o.get(k) if isinstance(o, dict) else None
    except TypeError as e:
        raise PyExc(e)
    if isinstance(v, Guarded):
        if decide(v.c):
            dict.__setitem__(o, k, v.v)
        else:
            dict.__delitem__(o, k)


def dict_parts(o, take):
    """the entries of a dictionary, unknown ones as Each"""
    return [Each(take(*v.elem), v.n) if type(k) is EachKey else take(k, v) for k, v in o.items()]


def each_has(o, k):
    """uns when k may be one of the unknown entries of a dictionary"""
    e = each_key(o)
    if e is not None and (e.universe is None or k in e.universe):
        uns(f"entry {k!r} of a partially known dictionary")


def dict_all(o):
    if isinstance(o, dict):
        for k, v in list(o.items()):
            if isinstance(v, Guarded):
                dict_key(o, k)


def small(n, k):
    """the length as far as the stepped slice k depends on it, decided"""
    ends = [x for x in (k.start, k.stop) if x is not None]
    if k.step > 0 and k.stop is not None and min(ends) >= 0:
        top = k.stop
    elif k.step < 0 and k.start is not None and min(ends) >= 0:
        top = k.start + 1
    else:
        top = next((m for m in (2, 4, 8, 16, 32) if entails(le(n, m))), None)
    if top is None or top > 32:
        return n
    if decide(le(top, n)):
        return Lin(top)
    for i in range(top):
        if decide(eq(n, i)):
            return Lin(i)
    return n


def subscr(I, o, k):
    junk_check(o, k)
    if isinstance(o, (SymBytes, ByteArr)) or isinstance(o, (bytes, bytearray)) and has_sym(k):
        r = rope(o)
        n = rope_len(r)
        if isinstance(k, slice):
            if k.step is not None and k.step != 1:
                if not n.const and not has_sym(k):
                    n = small(n, k)
                if n.const and not has_sym(k):
                    idx = range(n.c)[k]
                    return mkbytes([s for i in idx for s in cell_rope(rope_at(r, i))])
                uns("stepped slice")
            lo, hi = clamp_slice(n, k.start, k.stop)
            s = rope_slice(r, lo, hi)
            return ByteArr(s) if isinstance(o, ByteArr) else mkbytes(s)
        i = index_lin(k)
        if lt(i, 0) is TRUE or lt(i, 0) is not FALSE and not entails(ge(i, 0)) and decide(lt(i, 0)):
            i = add(i, n)
        if not decide(and_(le(0, i), lt(i, n))):
            pyraise(IndexError("index out of range"))
        return mkint(rope_at(r, i))
    if isinstance(o, (SymStr, SymChoice)) and is_str(o) or isinstance(o, str) and has_sym(k):
        if isinstance(o, SymChoice):
            if not has_sym(k):
                if all(_ok(lambda: v[k]) for v in o.vals):
                    return o.map(lambda v: v[k])
            o = concretize(o)
            return subscr(I, o, k)
        n = text_len(o)
        if isinstance(k, slice):
            if k.step is not None and k.step != 1:
                cs = chars_of(strsegs(o))
                if cs is None or has_sym(k):
                    uns("stepped text slice")
                return V.mkstr([("o", "chars", (), tuple(cs[k]))])
            lo, hi = clamp_slice(n, k.start, k.stop)
            return text_sub(o, lo, hi)
        i = index_lin(k)
        if lt(i, 0) is TRUE or lt(i, 0) is not FALSE and not entails(ge(i, 0)) and decide(lt(i, 0)):
            i = add(i, n)
        if not decide(and_(le(0, i), lt(i, n))):
            pyraise(IndexError("string index out of range"))
        if isinstance(o, str):
            return by_cases([(eq(i, j), ch) for j, ch in enumerate(o)])
        return SymStr((("o", "chr", (), (text_char(o, i),)),))
    if isinstance(o, (list, tuple)):
        if isinstance(o, list) and any(isinstance(x, PARTS) for x in o) and type(o) is list:
            return part_list_subscr(I, o, k)
        if isinstance(k, slice) and has_sym(k):
            if k.step not in (None, 1):
                return o[None if k.start is None else concretize(k.start):
                         None if k.stop is None else concretize(k.stop):concretize(k.step)]
            return o[clamp_to(k.start, len(o)):clamp_to(k.stop, len(o))]
        if isinstance(k, Sym):
            i = index_lin(k)
            n = len(o)
            return choose(I, [(or_(eq(i, j), eq(i, j - n)), v) for j, v in enumerate(o)],
                          IndexError("list index out of range"))
        return I.native(operator.getitem, o, k)
    if isinstance(o, OpqDict):
        if isinstance(k, SYMLIKE):
            uns("symbolic key")
        if k in o.over:
            return o.over[k]
        if k in o.gone:
            pyraise(KeyError(k))
        uns(f"unknown entry {k!r} of {o!r}")
    if isinstance(o, (dict, types.MappingProxyType)):
        dict_all(o) if isinstance(k, SYMLIKE) else dict_key(o, k)
        m = getattr(type(o), "__missing__", None)
        if isinstance(k, SYMLIKE):
            alts = [(eq_cond(I, kk, k), v) for kk, v in o.items()]
            if m is not None and not decide(or_(*[c for c, _ in alts])):
                return I.call(m, (o, k), {}) if type(m).__name__ == "IFunc" else uns("symbolic key of a defaultdict")
            return choose(I, alts, KeyError("symbolic key"))
        if type(m).__name__ == "IFunc" and k not in o:
            return I.call(m, (o, k), {})
        return I.native(operator.getitem, o, k)
    if isinstance(o, type):
        if issubclass(o, enum.Enum):
            return I.native(operator.getitem, o, k)
        return I.native(operator.getitem, o, k)
    m = getattr(type(o), "__getitem__", None)
    if type(m).__name__ == "IFunc":
        return I.call(m, (o, k), {})
    if isinstance(o, range) and isinstance(k, Sym):
        return mkint(add(Lin(o.start), scale(lin(k), o.step)))
    if not has_sym(o) and not has_sym(k):
        return I.native(operator.getitem, o, k)
    if o is None:
        pyraise(TypeError("'NoneType' object is not subscriptable"))
    uns(f"subscript of {o!r}")


def _ok(f):
    try:
        f()
        return True
    except Exception:
        return False


def part_list_subscr(I, o, k):
    if any(isinstance(x, (Star, Each)) for x in o):
        if isinstance(k, int) and k < 0:
            tail = []
            for x in reversed(o):
                if isinstance(x, PARTS):
                    break
                tail.insert(0, x)
            if -k <= len(tail):
                return tail[k]
        if isinstance(k, slice) and k == slice(None, None, None):
            return list(o)
        uns("index into a partially known list")
    if type(k) is int and k >= 0:
        for x in o:
            if not isinstance(x, Guarded) or decide(x.c):
                if not k:
                    return x.v if isinstance(x, Guarded) else x
                k -= 1
        pyraise(IndexError("list index out of range"))
    o[:] = settled(o)
    return subscr(I, o, k)


def settled(v):
    """the elements that are there, one case for each choice"""
    return [x.v if isinstance(x, Guarded) else x for x in v if not isinstance(x, Guarded) or decide(x.c)]


def clamp_to(v, n):
    """the bound v of a slice of a list of n elements, one case for each value"""
    if v is None or type(v) is int:
        return v
    v = lin(v)
    if decide(lt(v, 0)):
        v = add(v, n)
    return next((j for j in range(n) if decide(le(v, j))), n)


def store_subscr(I, o, k, v):
    junk_check(o, k)
    if isinstance(o, OpqDict):
        if isinstance(k, SYMLIKE):
            uns("symbolic key")
        o.over[k] = v
        return
    if isinstance(o, dict):
        if isinstance(k, SYMLIKE):
            if isinstance(k, SymChoice) and len(k.vals) <= 300:
                k = concretize(k, 300)
            else:
                uns("symbolic dictionary key")
        try:
            each_has(o, k)
            o[k] = v
        except Exception as e:
            raise PyExc(e)
        return
    if isinstance(o, list):
        if isinstance(k, Sym):
            k = concretize(k)
        try:
            o[k] = v
        except Exception as e:
            raise PyExc(e)
        return
    if isinstance(o, (bytearray, ByteArr)):
        uns("store into a bytearray")
    m = getattr(type(o), "__setitem__", None)
    if type(m).__name__ == "IFunc":
        I.call(m, (o, k, v), {})
        return
    I.native(operator.setitem, o, k, v)


def del_subscr(I, o, k):
    junk_check(o, k)
    if isinstance(o, ByteArr):
        if not isinstance(k, slice) or k.step not in (None, 1):
            uns("deletion in a bytearray")
        n = rope_len(o.segs)
        lo, hi = clamp_slice(n, k.start, k.stop)
        hi = mx(lo, hi) if "mx" in globals() else ite(le(lo, hi), hi, lo)
        o.segs = joined(norm_rope(tuple(rope_slice(o.segs, ZERO, lo)) + tuple(rope_slice(o.segs, hi, n))))
        return
    if isinstance(o, dict):
        dict_all(o)
    if isinstance(o, OpqDict):
        if isinstance(k, SYMLIKE) or k not in o.over and k not in o.gone:
            uns("deletion of an unknown entry")
        if k not in o.over:
            pyraise(KeyError(k))
        del o.over[k]
        o.gone.add(k)
        return
    if isinstance(k, Sym):
        k = concretize(k)
    m = getattr(type(o), "__delitem__", None)
    if type(m).__name__ == "IFunc":
        I.call(m, (o, k), {})
        return
    I.native(operator.delitem, o, k)


# ------------------------------------------------------------------ arithmetic
def _bit_or(x, y):
    if x.const and y.const:
        return Lin(x.c | y.c)
    if x.const and not y.const:
        x, y = y, x
    if y.const:
        return sub(add(x, y), bitand(x, y.c)) if y.c >= 0 else uns("or with negative")
    for a, b in ((x, y), (y, x)):
        lo, hi = bounds(a)
        if lo is not None and lo >= 0 and hi is not None:
            k = hi.bit_length()
            if mod(b, 1 << k) == ZERO:
                return add(a, b)
    # bitwise on bounded values
    bx, by = bounds(x), bounds(y)
    if None not in bx and None not in by and bx[0] >= 0 and by[0] >= 0 and max(bx[1], by[1]) < 1 << 32:
        n = max(bx[1], by[1]).bit_length()
        out = ZERO
        for i in range(n):
            p, q = floordiv(mod(x, 2 << i), 1 << i), floordiv(mod(y, 2 << i), 1 << i)
            out = add(out, scale(ite(and_(eq(p, 0), eq(q, 0)), 0, 1), 1 << i))
        return out
    uns("bitwise or of unbounded values")


def _bit_and(x, y):
    if x.const:
        x, y = y, x
    if y.const:
        return bitand(x, y.c)
    for a, b in ((x, y), (y, x)):
        if bounds(a) == (0, 1):
            return ite(eq(a, 0), 0, bitand(b, 1))
        # single-bit or constant-choice operand
        if len(a.t) == 1 and a.t[0][0].kind == "ite" and a.t[0][1] == 1 and a.c == 0:
            c, p, q = a.t[0][0].args
            if p.const and q.const:
                return ite(c, bitand(b, p.c), bitand(b, q.c))
    uns("bitwise and of two symbolic values")


def int_op(I, op, a, b):
    x, y = lin(a), lin(b)
    if op == "+":
        return mkint(add(x, y))
    if op == "-":
        return mkint(sub(x, y))
    if op == "*":
        return mkint(mul(x, y))
    if op in ("//", "%"):
        if not y.const:
            k = Ctx.path.known_const(y)
            if k is None:
                uns("division by a symbolic value")
            y = Lin(k)
        if y.c == 0:
            pyraise(ZeroDivisionError("integer division or modulo by zero"))
        if y.c < 0:
            x, n = scale(x, -1), -y.c
            q = floordiv(x, n)
            return mkint(q) if op == "//" else mkint(scale(mod(x, n), -1))
        return mkint(floordiv(x, y.c) if op == "//" else mod(x, y.c))
    if op == "<<":
        if not y.const:
            y = Lin(concretize(mkint(y)))
        if y.c < 0:
            pyraise(ValueError("negative shift count"))
        return mkint(scale(x, 1 << y.c))
    if op == ">>":
        if not y.const:
            y = Lin(concretize(mkint(y)))
        if y.c < 0:
            pyraise(ValueError("negative shift count"))
        return mkint(floordiv(x, 1 << y.c))
    if op == "&":
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return mkbool(and_(ne(x, 0), ne(y, 0)))
        return mkint(_bit_and(x, y))
    if op == "|":
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return mkbool(or_(ne(x, 0), ne(y, 0)))
        return mkint(_bit_or(x, y))
    if op == "^":
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return mkbool(not_(V.iff(ne(x, 0), ne(y, 0))))
        if x.const:
            x, y = y, x
        if y.const and y.c >= 0:
            return mkint(sub(add(x, y), scale(bitand(x, y.c), 2)))
    if op == "/":
        if y.const:
            if y.c == 0:
                pyraise(ZeroDivisionError("division by zero"))
            return SymReal(scale(x, Fraction(1, y.c)))
    if op == "**":
        if y.const and 0 <= y.c <= 8:
            r = ONE
            for _ in range(y.c):
                r = mul(r, x)
            return mkint(r)
        if x.const:
            e = concretize(mkint(y))
            return x.c ** e
    uns(f"{a!r} {op} {b!r}")


def binary(I, op, a, b):
    inplace = op.endswith("=") and op != "=="
    if inplace:
        op = op[:-1]
    junk_check(a, b)
    if inplace and isinstance(a, list):
        if op == "+":
            list_extend(I, a, b)
            return a
        if op == "*":
            a[:] = binary(I, "*", list(a), b)
            return a
    if inplace and isinstance(a, ByteArr) and op == "+":
        a.segs = norm_rope(a.segs + rope(b))
        return a
    if inplace and isinstance(a, bytearray) and op == "+" and isinstance(b, SymBytes):
        uns("bytearray += symbolic")
    if not has_sym(a) and not has_sym(b):
        for x, m in ((a, _DUNDER[op]), (b, "__r" + _DUNDER[op][2:])):
            f = getattr(type(x), m, None)
            if type(f).__name__ == "IFunc":
                r = I.call(f, (a, b) if x is a else (b, a), {})
                if r is not NotImplemented:
                    return r
        if inplace and isinstance(a, (set, dict, bytearray)):
            return I.native(_INPLACE[op], a, b)
        if op == "%" and isinstance(a, str) and (user_obj(b) or isinstance(b, tuple) and any(map(user_obj, b))):
            return percent(I, a, b)
        return I.native(BIN[op], a, b)
    if op == "%" and (isinstance(a, str)):
        return percent(I, a, b)
    if is_int(a) and is_int(b):
        return int_op(I, op, a, b)
    if is_num(a) and is_num(b):
        x, y = numlin(a), numlin(b)
        if op == "+":
            return SymReal(add(x, y))
        if op == "-":
            return SymReal(sub(x, y))
        if op == "*" and (x.const or y.const):
            return SymReal(mul(x, y))
        if op == "/" and y.const and y.c != 0:
            return SymReal(scale(x, Fraction(1, 1) / y.c))
        if op == "//" and y.const and y.c > 0:
            q = scale(x, Fraction(1, 1) / y.c)
            return SymReal(rfloor(q))
        uns(f"real {op}")
    if op == "+":
        if is_bytes(a) and is_bytes(b):
            r = norm_rope(rope(a) + rope(b))
            return ByteArr(r) if isinstance(a, ByteArr) else mkbytes(r)
        if isinstance(a, SymText) and (is_str(b) or isinstance(b, SymText)) or isinstance(b, SymText) and is_str(a):
            return cat([a, b])
        if is_str(a) and is_str(b):
            return mkstr(strsegs(a) + strsegs(b))
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            return a + b
        if isinstance(a, (SymDT, datetime.datetime)) and isinstance(b, (SymTD, datetime.timedelta)):
            return dt_add(a, b, 1)
        if isinstance(b, (SymDT, datetime.datetime)) and isinstance(a, (SymTD, datetime.timedelta)):
            return dt_add(b, a, 1)
        if isinstance(a, (SymTD, datetime.timedelta)) and isinstance(b, (SymTD, datetime.timedelta)):
            return mktd(add(td_us(a), td_us(b)))
    if op == "-":
        if isinstance(a, (SymDT, datetime.datetime)) and isinstance(b, (SymTD, datetime.timedelta)):
            return dt_add(a, b, -1)
        if isinstance(a, (SymTD, datetime.timedelta)) and isinstance(b, (SymTD, datetime.timedelta)):
            return mktd(sub(td_us(a), td_us(b)))
    if op == "*":
        if isinstance(b, (SymTD, datetime.timedelta)):
            a, b = b, a
        if isinstance(a, (SymTD, datetime.timedelta)) and is_int(b):
            return mktd(mul(td_us(a), lin(b)))
        if is_int(a):
            a, b = b, a
        if is_int(b) and (is_bytes(a) or is_str(a) or isinstance(a, (list, tuple))):
            n = concretize(b) if isinstance(b, Sym) else b
            if is_bytes(a):
                return mkbytes(norm_rope(rope(a) * max(n, 0)))
            if is_str(a):
                return mkstr(strsegs(a) * max(n, 0))
            return a * n
    if op in ("//", "/") and isinstance(a, (SymTD, datetime.timedelta)) and isinstance(b, int) and b > 0:
        us = td_us(a)
        return mktd(floordiv(us, b) if op == "//" else scale(us, Fraction(1, b)))
    if op == "|" and isinstance(a, dict) and isinstance(b, dict):
        dict_all(a)
        dict_all(b)
        return a | b
    for x in (a, b):
        m = getattr(type(x), _DUNDER[op], None)
        if type(m).__name__ == "IFunc":
            return I.call(m, (a, b), {})
    if a is None or b is None or (is_str(a) and (is_bytes(b) or is_int(b))) or (is_bytes(a) and (is_str(b) or is_int(b))) \
            or (is_int(a) and (is_str(b) or is_bytes(b))):
        pyraise(TypeError(f"unsupported operand type(s) for {op}"))
    uns(f"{type(a).__name__} {op} {type(b).__name__}")


_DUNDER = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "//": "__floordiv__", "%": "__mod__",
           "**": "__pow__", "<<": "__lshift__", ">>": "__rshift__", "&": "__and__", "|": "__or__", "^": "__xor__",
           "@": "__matmul__"}
_INPLACE = {"+": operator.iadd, "|": operator.ior, "&": operator.iand, "-": operator.isub, "^": operator.ixor,
            "*": operator.imul}


def rfloor(x):
    """floor of a rational Lin as an integer Lin"""
    den = 1
    for k in [x.c] + [k for _, k in x.t]:
        den = max(den, Fraction(k).denominator) if den % Fraction(k).denominator else den
    from math import lcm
    den = 1
    for k in [x.c] + [k for _, k in x.t]:
        den = lcm(den, Fraction(k).denominator)
    y = Lin(int(x.c * den), tuple((a, int(k * den)) for a, k in x.t))
    return floordiv(y, den)


def unary(I, op, v):
    junk_check(v)
    if not isinstance(v, Sym):
        f = {"-": "__neg__", "~": "__invert__", "+": "__pos__"}[op]
        m = getattr(type(v), f, None)
        if type(m).__name__ == "IFunc":
            return I.call(m, (v,), {})
        return I.native({"-": operator.neg, "~": operator.invert, "+": operator.pos}[op], v)
    if isinstance(v, SymReal):
        return SymReal(scale(v.lin, -1)) if op == "-" else v
    x = lin(v)
    return mkint(scale(x, -1) if op == "-" else sub(scale(x, -1), 1) if op == "~" else x)


# ------------------------------------------------------------------ text formatting
def is_exc(v):
    return isinstance(v, BaseException)


def cat(parts):
    """text made of several pieces, encoder output among them"""
    out = []
    for x in parts:
        if isinstance(x, SymText) and x.kind == "cat" and not x.ops:
            out += x.struct
        elif not isinstance(x, str) or x:
            out.append(x)
    return SymText("cat", out, {})


def lifted(v, *names):
    """the first of these methods that v's standard library class defines in Python, as one of the interpreted program"""
    if carries(v):
        for n in names:
            m = getattr(type(v), n, None)
            if type(m) is types.FunctionType:
                return interp_module().lift(m)


def carries(v):
    """an object of a standard library class written in Python, with symbolic data in it"""
    t = type(v)
    return t.__module__ in sys.stdlib_module_names and t.__flags__ & 512 and not isinstance(
        v, (BaseException, type, enum.Enum)) and any(has_sym(getattr(v, x, None)) for x in (
            *getattr(v, "__dict__", ()), *getattr(t, "__slots__", ())) if x != "__weakref__")


def fmt(I, v, spec):
    junk_check(v)
    if lifted(v, "__str__") and type(v).__format__ is object.__format__:
        if spec:
            pyraise(TypeError(f"unsupported format string passed to {type(v).__name__}.__format__"))
        return to_str(I, v)
    if isinstance(v, SymText) and not spec:
        return v
    if isinstance(spec, SymStr):
        uns("symbolic format spec")
    if not has_sym(v):
        if user_obj(v) and spec == "":
            return to_str(I, v)
        if type(v) is type or callable(v) or is_exc(v):
            return to_str(I, v) if not spec else I.native(format, v, spec)
        return I.native(format, v, spec)
    if isinstance(v, SymChoice):
        if all(_ok(lambda: format(x, spec)) for x in v.vals):
            return v.map(lambda x: format(x, spec))
        if v.all(int):
            v = mkint(v.map_lin(int))
    if isinstance(v, SymInt):
        if spec in ("", "d"):
            return mkstr([("fmt", "d", v.lin)])
        g = re.fullmatch(r"(0>|>)0?(\d+)([xXdob])", spec)
        if g and (g[1] == "0>" or spec[1] == "0") and entails(ge(v.lin, 0)):
            spec = f"0{g[2]}{g[3]}"
        if spec[-1] in "xXdob":
            if spec[0] == "#" and spec[1:] in ("x", "X", "o", "b"):
                if not decide(ge(v.lin, 0)):
                    return mkstr([("s", "-0" + spec[1]), ("fmt", spec[1], scale(v.lin, -1))])
                return mkstr([("s", "0" + spec[1]), ("fmt", spec[1], v.lin)])
            if spec[0] == "#" and spec[1] == "0" and spec[2:-1].isdigit() and entails(ge(v.lin, 0)):
                return mkstr([("s", "0" + spec[-1]), ("fmt", f"0{int(spec[2:-1]) - 2}{spec[-1]}", v.lin)])
            if spec[0] == ".":
                pyraise(ValueError("Precision not allowed in integer format specifier"))
            if spec[:-1] in ("", "0") or spec[0] == "0" and spec[1:-1].isdigit():
                sp = spec[:-1]
                return mkstr([("fmt", ("0" + str(int(sp)) if sp not in ("", "0") and int(sp) > 1 else "") + spec[-1],
                               v.lin)])
        uns(f"format spec {spec!r}")
    if isinstance(v, SymBool):
        return by_cases([(v.c, "True"), (not_(v.c), "False")])
    if is_str(v):
        if spec in ("", "s"):
            return v
        uns(f"format spec {spec!r} on text")
    if spec == "":
        return to_str(I, v)
    uns(f"format of {v!r}")


def to_str(I, v):
    junk_check(v)
    if is_str(v) and not isinstance(v, enum.Enum):
        return v
    if isinstance(v, (SymInt, SymBool)):
        return fmt(I, v, "")
    if isinstance(v, SymChoice):
        return v.map(str)
    if isinstance(v, SymText):
        return v
    if isinstance(v, Sym) or has_sym(v):
        k, ls = flatten_key(v)
        return opaque_text("str", k, ls)
    if user_obj(v):
        for n in ("__str__", "__repr__"):
            m = getattr(type(v), n, None)
            if type(m).__name__ == "IFunc":
                return I.call(m, (v,), {})
        return f"<{type(v).__name__} object>"
    m = lifted(v, "__str__", "__repr__")
    return I.call(m, (v,), {}) if m else I.native(str, v)


def to_repr(I, v):
    junk_check(v)
    if isinstance(v, (SymInt, SymBool)):
        return fmt(I, v, "")
    if isinstance(v, Sym) or has_sym(v):
        k, ls = flatten_key(v)
        return opaque_text("repr", k, ls)
    if user_obj(v):
        m = getattr(type(v), "__repr__", None)
        if type(m).__name__ == "IFunc":
            return I.call(m, (v,), {})
        return f"<{type(v).__name__} object>"
    return I.native(repr, v)


def percent(I, f, args):
    """str % args"""
    if isinstance(args, dict):
        names = re.findall(r"%(?:%|\((\w+)\))", f)
        f = re.sub(r"%\(\w+\)", "%", f)
        args = tuple(subscr(I, args, n) for n in names if n)
    if not isinstance(args, tuple):
        args = (args,)
    args = list(args)
    out = []
    i = 0
    while i < len(f):
        if f[i] != "%":
            j = f.find("%", i)
            j = len(f) if j < 0 else j
            out.append(("s", f[i:j]))
            i = j
            continue
        j = i + 1
        while j < len(f) and f[j] in "0123456789.#+- ":
            j += 1
        if j >= len(f):
            pyraise(ValueError("incomplete format"))
        c = f[j]
        flags = f[i + 1:j]
        i = j + 1
        if c == "%":
            out.append(("s", "%"))
            continue
        if not args:
            pyraise(TypeError("not enough arguments for format string"))
        v = args.pop(0)
        if not has_sym(v) and not user_obj(v):
            out.append(("s", I.native(operator.mod, "%" + flags + c, (v,))))
            continue
        if c in "sr":
            if flags:
                uns("padded %s")
            out.extend(strsegs(to_str(I, v) if c == "s" else to_repr(I, v)))
        elif c in "diuxX":
            if not is_int(v):
                pyraise(TypeError(f"%{c} format: an integer is required"))
            if c in "diu":
                c = "d"
            alt = "#" in flags
            fl = flags.replace("#", "")
            if fl.startswith("."):
                fl = "0" + fl[1:]
            if alt:
                out.append(("s", "0" + c))
                if fl.lstrip("0"):
                    fl = "0" + str(int(fl.lstrip("0")) - 2)
            out.extend(strsegs(fmt(I, v, fl + c)))
        else:
            uns(f"%{c} format")
    if args:
        pyraise(TypeError("not all arguments converted during string formatting"))
    return mkstr(out)


# ------------------------------------------------------------------ date and time
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
MIN_S, MAX_S = -62135596800, 253402300800       # seconds of years 1 and 10000


def td_us(v):
    if isinstance(v, SymTD):
        return v.us
    return Lin(v // datetime.timedelta(microseconds=1))


def mktd(us):
    if us.const and us.c == int(us.c):
        return datetime.timedelta(microseconds=int(us.c))
    return SymTD(us)


def dt_seconds(v):
    if isinstance(v, SymDT):
        if v.kind == "ts":
            return v.f[0]
        uns("instant of calendar fields")
    if v.tzinfo is None:
        return scale(Lin((v - datetime.datetime(1970, 1, 1)) // datetime.timedelta(microseconds=1)), Fraction(1, 10**6))
    return scale(Lin((v - EPOCH) // datetime.timedelta(microseconds=1)), Fraction(1, 10**6))


def dt_add(d, t, sign):
    tz = d.tz if isinstance(d, SymDT) else d.tzinfo
    s = add(dt_seconds(d), scale(td_us(t), Fraction(sign, 10**6)))
    if not decide(and_(le(MIN_S, s), lt(s, MAX_S))):
        pyraise(OverflowError("date value out of range"))
    err = d.f[1] if isinstance(d, SymDT) else ZERO
    return SymDT("ts", (s, add(err, Fraction(1, 10**6))), tz)


FLOAT_ERR = Fraction(16, 10**6) + Fraction(1, 2 * 10**6)


def from_timestamp(I, cls, a, kw):
    """datetime.fromtimestamp: the float is an exact rational, the result is within FLOAT_ERR of it"""
    t = a[0] if a else kw["timestamp"]
    tz = a[1] if len(a) > 1 else kw.get("tz")
    if not isinstance(t, (SymReal, SymInt)):
        return I.native(cls.fromtimestamp, *a, **kw)
    x = numlin(t)
    err = FLOAT_ERR if isinstance(t, SymReal) else Fraction(0)
    if tz is None:
        uns("local time")
    if not decide(le(Lin(MIN_S), x)):
        pyraise(ValueError("year is out of range"))
    if not decide(lt(x, Lin(MAX_S - err))):
        if not err or not decide(lt(x, MAX_S)) or not decide(ufb("rounding_at_year_10000", (x,) if not any(
                isinstance(k, Fraction) for k in [x.c] + [k for _, k in x.t]) else ())):
            pyraise(ValueError("year is out of range"))
    return SymDT("ts", (x, Lin(err)), tz)


def mk_datetime(I, a, kw):
    names = ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo")
    f = dict(zip(names, a))
    for k, v in kw.items():
        if k == "fold":
            continue
        f[k] = v
    for k in names[:3]:
        if k not in f:
            pyraise(TypeError(f"missing required argument {k!r}"))
    vals = [lin(f.get(k, 0)) for k in names[:7]]
    y, mo, d, h, mi, s, us = vals
    leap = and_(eq(mod(y, 4), 0), or_(ne(mod(y, 100), 0), eq(mod(y, 400), 0)))
    dim = ite(eq(mo, 2), ite(leap, 29, 28),
              ite(or_(eq(mo, 4), eq(mo, 6), eq(mo, 9), eq(mo, 11)), 30, 31))
    ok = and_(le(1, y), le(y, 9999), le(1, mo), le(mo, 12), le(1, d), le(d, dim), le(0, h), le(h, 23), le(0, mi),
              le(mi, 59), le(0, s), le(s, 59), le(0, us), le(us, 999999))
    if not decide(ok):
        pyraise(ValueError("day is out of range for month"))
    if all(v.const for v in vals):
        return datetime.datetime(*[v.c for v in vals], tzinfo=f.get("tzinfo"))
    return SymDT("cal", tuple(vals), f.get("tzinfo"))


# ------------------------------------------------------------------ struct
CODES = {"B": (1, 0), "b": (1, 1), "H": (2, 0), "h": (2, 1), "I": (4, 0), "i": (4, 1), "L": (4, 0), "l": (4, 1),
         "Q": (8, 0), "q": (8, 1)}


def parse_format(f):
    if isinstance(f, bytes):
        f = f.decode()
    little = True
    std = False
    g = f
    if g and g[0] in "<>=!@":
        little = g[0] in "<=@"
        std = g[0] in "<>=!"
        g = g[1:]
    if not std and len(g.replace(" ", "")) > 1 and not g.rstrip("s").isdigit():
        if struct.calcsize(f) != struct.calcsize("<" + g):
            uns("native alignment")
    items = []
    i = 0
    while i < len(g):
        if g[i].isspace():
            i += 1
            continue
        j = i
        while j < len(g) and g[j].isdigit():
            j += 1
        n = int(g[i:j]) if j > i else None
        items.append((g[j], n))
        i = j + 1
    if not std:
        items = [("Q" if c == "L" else "q" if c == "l" else c, n) for c, n in items]
    return little, items


def signed(x, bits):
    return sub(x, scale(ite(le(1 << (bits - 1), x), 1, 0), 1 << bits))


def read_int(r, pos, n, little, sign):
    x = ZERO
    for i in range(n):
        b = rope_at(r, add(pos, i))
        if b.t:
            lo, hi = Ctx.path.range(b)
            if lo is not None and lo == hi:
                b = Lin(lo)
        x = add(x, scale(b, 256 ** (i if little else n - 1 - i)))
    return signed(x, 8 * n) if sign else x


def unpack_rope(f, r):
    """values of the (long enough) rope"""
    little, items = parse_format(f)
    pos = ZERO
    out = []
    for c, n in items:
        if c in CODES:
            w, sg = CODES[c]
            for _ in range(1 if n is None else n):
                out.append(mkint(read_int(r, pos, w, little, sg)))
                pos = add(pos, w)
        elif c == "s":
            n = 1 if n is None else n
            out.append(mkbytes(rope_slice(r, pos, add(pos, n))))
            pos = add(pos, n)
        elif c == "c":
            for _ in range(1 if n is None else n):
                out.append(mkbytes(rope_slice(r, pos, add(pos, 1))))
                pos = add(pos, 1)
        elif c == "?":
            for _ in range(1 if n is None else n):
                out.append(mkbool(ne(rope_at(r, pos), 0)))
                pos = add(pos, 1)
        elif c == "x":
            pos = add(pos, 1 if n is None else n)
        else:
            uns(f"struct code {c}")
    return tuple(out)


def m_unpack(I, f, buf):
    if not has_sym(buf):
        return I.native(struct.unpack, f, bytes(rope(buf)[0][1]) if isinstance(buf, ByteArr) and rope(buf) else buf)
    junk_check(buf)
    if not is_bytes(buf):
        pyraise(TypeError("a bytes-like object is required"))
    n = struct.calcsize(f)
    r = rope(buf)
    if not decide(eq(rope_len(r), n)):
        pyraise(struct.error(f"unpack requires a buffer of {n} bytes"))
    return unpack_rope(f, r)


def m_unpack_from(I, f, buf, offset=0):
    if not has_sym(buf) and not has_sym(offset):
        return I.native(struct.unpack_from, f, buf, offset)
    junk_check(buf)
    n = struct.calcsize(f)
    r = rope(buf)
    ln = rope_len(r)
    o = lin(offset)
    if lt(o, 0) is TRUE or lt(o, 0) is not FALSE and decide(lt(o, 0)):
        if not decide(ge(add(o, ln), 0)):
            pyraise(struct.error("offset out of range"))
        o = add(o, ln)
    if not decide(le(add(o, n), ln)):
        pyraise(struct.error(f"unpack_from requires a buffer of at least {n} bytes"))
    return unpack_rope(f, rope_slice(r, o, add(o, n)))


# ------------------------------------------------------------------ bytes and text methods
def one_view(r):
    return len(r) == 1 and r[0][0] == "v"


def bytes_find(I, b, pat, start, end, width=1):
    """index of the first occurrence, -1 when absent; only zero bytes are searched for symbolically"""
    if not has_sym(b) and not has_sym(pat) and not has_sym(start) and not has_sym(end):
        return bytes(rope(b)[0][1] if rope(b) else b"").find(pat, *([start] if start is not None or end is not None else []),
                                                              *([end] if end is not None else []))
    r = rope(b)
    n = rope_len(r)
    lo, hi = clamp_slice(n, start, end)
    if pat == b"\x00" or pat == 0:
        if not r:
            return -1
        if not one_view(r):
            if n.const and n.c <= 64 and lo.const and hi.const:
                x = Lin(-1)
                for i in range(hi.c - 1, lo.c - 1, -1):
                    x = ite(eq(rope_at(r, i), 0), Lin(i), x)
                return mkint(x)
            uns("find in composed bytes")
        base, off = r[0][1], r[0][2]
        z = nul(base, add(off, lo), add(off, hi), 1)
        if not decide(lt(z, add(off, hi))):
            return -1
        return mkint(sub(z, off))
    uns(f"find of {pat!r} in symbolic bytes")


def unit_find(I, fn, a, kw):
    """specs.base.find_unit: index of the first zero unit at an even position, -1 when absent"""
    b = a[0]
    if not has_sym(b):
        return NotImplemented
    r = rope(b)
    if not one_view(r):
        return NotImplemented
    base, off, n = r[0][1:]
    end = add(off, n)
    z = nul(base, off, end, 2)
    if not decide(lt(z, end)):
        return -1
    return mkint(sub(z, off))


def bytes_decode(I, b, cp="utf-8", errors="strict"):
    if not has_sym(b) and not has_sym(cp):
        return I.native(bytes(b).decode, cp, errors)
    if isinstance(cp, str):
        try:
            cp = codecs.lookup(cp).name
        except LookupError as e:
            raise PyExc(e)
        ck, cl = ("k", cp), ()
    else:
        ck, cl = text_key(cp)
    r = rope(b)
    if not r:
        return ""
    shape, ls = rope_key(r)
    if errors == "strict":
        okname = uname("decodes", ck, shape)
        ok = ufb(okname, cl + ls)
        # the empty string decodes with every codec
        Ctx.path.axiom(implies(eq(rope_len(r), 0), ok))
        if not decide(ok):
            pyraise(UnicodeDecodeError(ck[1] if ck[0] == "k" else "codepage", b"", 0, 1, "undecodable"))
    elif errors not in ("replace", "ignore", "backslashreplace", "surrogateescape"):
        uns(f"error handler {errors!r}")
    return decoded(ck, errors, shape, cl, ls, rope_len(r))


def decoded(ck, errors, shape, cl, ls, n):
    seg = ("o", "decode", (ck, errors, shape), cl + ls)
    st, l2 = V.seg_id(seg)
    ln = uf(uname("len", st), l2, 0)
    Ctx.path.axiom(implies(eq(n, 0), eq(ln, 0)))
    if ck == ("k", "utf-16-le") and errors == "strict":
        # each two-byte unit contributes at most one character
        Ctx.path.axiom(le(scale(ln, 2), n))
    if ck[0] != "k" or "16" not in ck[1]:
        Ctx.path.axiom(le(ln, n))
    return SymStr((seg,))


def str_find(I, s, pat, start=None, end=None, last=False):
    if not has_sym(s) and not has_sym(pat) and not has_sym(start) and not has_sym(end):
        f = s.rfind if last else s.find
        return f(pat, start, end)
    if isinstance(s, str) and isinstance(pat, (SymStr, SymChoice)):
        cs = None if isinstance(pat, SymChoice) else chars_of(pat.segs)
        if isinstance(pat, SymChoice) and start is None and end is None:
            return mkint(pat.map_lin(lambda v: s.rfind(v) if last else s.find(v)))
        if cs is not None and len(cs) == 1 and start is None and end is None:
            # position of a character in a constant table: one atom with its complete definition
            c = cs[0]
            r = uf(uname("tabfind", s, last), (c,), -1, len(s) - 1)
            first = {}
            for i, ch in enumerate(s):
                if last or ch not in first:
                    first[ch] = i
            for ch, i in first.items():
                Ctx.path.axiom(implies(eq(c, ord(ch)), eq(r, i)))
            Ctx.path.axiom(implies(and_(*[ne(c, ord(ch)) for ch in first]), eq(r, -1)))
            if c.const:
                return first.get(chr(c.c), -1)
            return mkint(r)
        uns("find of symbolic text")
    if isinstance(s, SymChoice) and not has_sym(pat) and start is None and end is None:
        return mkint(s.map_lin(lambda v: v.rfind(pat) if last else v.find(pat)))
    if isinstance(pat, str) and len(pat) == 1 and isinstance(s, SymStr):
        n = text_len(s)
        k, ls = text_key(s)
        lo, hi = clamp_slice(n, start, end)
        r = uf(uname("rfind" if last else "find", pat, k), ls + (lo, hi), -1)
        rl = r
        Ctx.path.axiom(or_(eq(rl, -1), and_(le(lo, rl), lt(rl, hi))))
        try:
            ch = text_char(s, rl)
            Ctx.path.axiom(implies(ge(rl, 0), eq(ch, ord(pat))))
        except Unsupported:
            pass
        Ctx.path.note_find(s, pat, lo, hi, rl, last)
        return mkint(r)
    uns(f"find of {pat!r} in {s!r}")


def bytes_method(I, b, name, a, kw):
    if name == "decode":
        cp = a[0] if a else kw.get("encoding", "utf-8")
        er = a[1] if len(a) > 1 else kw.get("errors", "strict")
        return bytes_decode(I, b, cp, er)
    r = rope(b)
    if name in ("find", "index"):
        x = bytes_find(I, b, a[0], a[1] if len(a) > 1 else None, a[2] if len(a) > 2 else None)
        if name == "index" and decide(lt(lin(x), 0)):
            pyraise(ValueError("subsection not found"))
        return x
    if name == "hex":
        n = rope_len(r)
        if n.const and n.c <= 64:
            out = []
            sep = a[0] if a else kw.get("sep")
            for i in range(n.c):
                if i and sep:
                    out.append(("s", sep))
                out.append(("fmt", "02x", rope_at(r, i)))
            return mkstr(out)
        k, ls = rope_key(r)
        return opaque_text("hex", (k, tuple(map(repr, a))), ls)
    if name in ("partition", "split"):
        sep = a[0] if a else None
        if sep == b"\x00" and (name == "partition" or len(a) > 1 and a[1] == 1 or kw.get("maxsplit") == 1):
            x = bytes_find(I, b, sep, None, None)
            mk = mkbytes
            if type(x) is int and x == -1:
                return (b, b"", b"") if name == "partition" else [b]
            x = lin(x)
            p, q = mk(rope_slice(r, ZERO, x)), mk(rope_slice(r, add(x, 1), rope_len(r)))
            return (p, sep, q) if name == "partition" else [p, q]
        if sep == b"\x00":
            return I.call(I.prelude("bytes_split0"), (b,), {})
        uns(f"bytes.{name}")
    if name in ("startswith", "endswith"):
        p = a[0]
        if isinstance(p, bytes) and len(a) == 1:
            n = rope_len(r)
            if not decide(le(len(p), n)):
                return False
            lo = ZERO if name == "startswith" else sub(n, len(p))
            return mkbool(and_(*[eq(rope_at(r, add(lo, i)), c) for i, c in enumerate(p)]))
    if name == "join":
        return join_bytes(I, b, a[0])
    if name == "__len__":
        return length(I, b)
    if name == "count" and a and isinstance(a[0], bytes):
        k, ls = rope_key(r)
        return mkint(uf(uname("count", a[0], k), ls, 0))
    if isinstance(b, ByteArr):
        if name == "append":
            x = lin(a[0])
            if not decide(and_(le(0, x), lt(x, 256))):
                pyraise(ValueError("byte must be in range(0, 256)"))
            b.segs = norm_rope(b.segs + cell_rope(x))
            return None
        if name == "extend":
            b.segs = norm_rope(b.segs + rope(a[0]))
            return None
        if name == "clear":
            b.segs = ()
            return None
        if name == "copy":
            return ByteArr(b.segs)
    uns(f"bytes.{name}")


def join_bytes(I, sep, items):
    if isinstance(items, Chunk):
        items = [items]
    if isinstance(items, list) and any(isinstance(x, Chunk) for x in items):
        if has_sym(sep) or len(sep):
            uns("join of an unknown number of pieces")
        out = ()
        for x in items:
            out += x.rope if isinstance(x, Chunk) else rope(x)
        return mkbytes(out)
    items = to_list(I, items)
    out = []
    for i, x in enumerate(items):
        if not is_bytes(x):
            pyraise(TypeError("sequence item: expected a bytes-like object"))
        if i:
            out.extend(rope(sep))
        out.extend(rope(x))
    return mkbytes(out)


def chunk_use(x):
    """the pieces are used one by one"""
    from . import loops
    loops.chunk_use(Ctx.path, x)


class Chunk(Sym):
    """unknown many byte strings of a list, known by their concatenation"""
    __slots__ = ("rope",)

    def __init__(self, rope):
        self.rope = rope

    def __repr__(self):
        return f"Chunk({self.rope})"


def str_method(I, s, name, a, kw):
    if isinstance(s, SymText):
        if name in ("replace", "strip", "rstrip", "lstrip", "format") and not has_sym(a):
            return SymText(s.kind, s.struct, s.opts, s.ops + ((name, tuple(a)),))
        uns(f"text method {name} on encoder output")
    if name == "join":
        return join_str(I, s, a[0])
    if name in ("find", "rfind"):
        return str_find(I, s, a[0], a[1] if len(a) > 1 else None, a[2] if len(a) > 2 else None, name == "rfind")
    if name in ("index", "rindex"):
        x = str_find(I, s, a[0], a[1] if len(a) > 1 else None, a[2] if len(a) > 2 else None, name == "rindex")
        if decide(lt(lin(x), 0)):
            pyraise(ValueError("substring not found"))
        return x
    if isinstance(s, SymChoice) and not has_sym(a) and not has_sym(kw):
        if all(_ok(lambda: getattr(v, name)(*a, **kw)) for v in s.vals):
            r = [getattr(v, name)(*a, **kw) for v in s.vals]
            if all(isinstance(x, (str, int, bytes)) for x in r):
                m = s.map(lambda v: getattr(v, name)(*a, **kw))
                if isinstance(m, SymChoice) and m.all(bool):
                    return mkbool(m.cond(bool))
                return m
        return str_method(I, concretize(s), name, a, kw) if not isinstance(concretize(s), Sym) else uns(name)
    if name in ("partition", "split") and a and isinstance(a[0], str) and len(a[0]) == 1 and (
            name == "partition" or len(a) > 1 and a[1] == 1 or kw.get("maxsplit") == 1):
        x = str_find(I, s, a[0])
        if decide(lt(lin(x), 0)):
            return (s, "", "") if name == "partition" else [s]
        x = lin(x)
        p, q = text_sub(s, ZERO, x), text_sub(s, add(x, 1), text_len(s))
        return (p, a[0], q) if name == "partition" else [p, q]
    if name == "upper" or name == "lower":
        segs = strsegs(s)
        if all(x[0] in ("s", "fmt") for x in segs):
            up = name == "upper"
            out = []
            for x in segs:
                if x[0] == "s":
                    out.append(("s", x[1].upper() if up else x[1].lower()))
                else:
                    out.append(("fmt", x[1][:-1] + (x[1][-1].upper() if up else x[1][-1].lower())
                                if x[1][-1] in "xX" else x[1], x[2]))
            return mkstr(out)
    if name in ("startswith", "endswith") and len(a) == 1 and isinstance(a[0], str):
        p = a[0]
        n = text_len(s)
        if not decide(le(len(p), n)):
            return False
        lo = ZERO if name == "startswith" else sub(n, len(p))
        return mkbool(and_(*[eq(text_char(s, add(lo, i)), ord(c)) for i, c in enumerate(p)]))
    if name == "encode":
        k, ls = text_key(s)
        uns("encode of symbolic text")
    if name == "format" and isinstance(s, str):
        return str_format(I, s, a, kw)
    if (name == "zfill" and len(a) == 1 or name == "rjust" and len(a) == 2 and a[1] == "0") and type(a[0]) is int and \
            len(strsegs(s)) == 1:
        x = strsegs(s)[0]
        if x[0] == "fmt" and x[1] in ("d", "x", "X", "b", "o") and entails(ge(x[2], 0)):
            return fmt(I, mkint(x[2]), f"0{a[0]}{x[1]}") if a[0] > 1 else s
    if name in ("strip", "lstrip", "rstrip", "replace", "title", "capitalize", "casefold", "upper", "lower", "zfill"):
        if not has_sym(a):
            k, ls = text_key(s)
            return opaque_text(name, (k, tuple(a)), ls)
    if name in ("isdigit", "isupper", "islower", "isalpha", "isalnum", "isprintable", "isspace", "isascii"):
        k, ls = text_key(s)
        return mkbool(ufb(uname(name, k), ls))
    if name == "__len__":
        return length(I, s)
    uns(f"str.{name} on {s!r}")


def str_format(I, s, a, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(("s", lit))
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = kw[field]
        else:
            uns("format field")
        if conv == "r":
            v = to_repr(I, v)
        elif conv == "s":
            v = to_str(I, v)
        out.extend(strsegs(fmt(I, v, spec or "")))
    return mkstr(out)


def join_str(I, sep, items):
    if not isinstance(items, (SymStr, str)):
        items = items if isinstance(items, list) else collect(I, items)
        if any(isinstance(x, SymText) for x in items):
            if not all(isinstance(x, SymText) or is_str(x) for x in items):
                uns("join of pieces")
            return cat([y for i, x in enumerate(items) for y in ([sep, x] if i else [x])])
    if isinstance(items, list) and any(isinstance(x, Guarded) for x in items) and type(items) is list:
        strs = tuple(x.v if isinstance(x, Guarded) else x for x in items)
        if all(isinstance(x, str) for x in strs) and not has_sym(sep):
            conds = tuple(ite(x.c, 1, 0) if isinstance(x, Guarded) else ONE for x in items)
            return opaque_text("gjoin", (sep, strs), conds)
    if isinstance(items, SymStr):
        items = to_list(I, items)
    items = to_list(I, items)
    out = []
    for i, x in enumerate(items):
        if not is_str(x):
            pyraise(TypeError("sequence item: expected str instance"))
        if i:
            out.extend(strsegs(sep))
        out.extend(strsegs(x))
    return mkstr(out)


def int_method(I, v, name, a, kw):
    if name == "to_bytes":
        n = a[0] if a else kw.get("length", 1)
        order = a[1] if len(a) > 1 else kw.get("byteorder", "big")
        if kw.get("signed"):
            uns("signed to_bytes")
        x = lin(v)
        if not decide(and_(le(0, x), lt(x, 256 ** n))):
            pyraise(OverflowError("int too big to convert"))
        cells = [cell_rope(mod(floordiv(x, 256 ** i), 256)) for i in range(n)]
        if order == "big":
            cells.reverse()
        return mkbytes([s for c in cells for s in c])
    if name == "bit_length":
        x = lin(v)
        lo, hi = bounds(x)
        if lo is not None and lo >= 0 and hi is not None and hi < 1 << 64:
            r = Lin(hi.bit_length())
            for k in range(hi.bit_length() - 1, -1, -1):
                r = ite(lt(x, 1 << k), k, r)
            return mkint(r)
    if name == "bit_count":
        x = lin(v)
        lo, hi = bounds(x)
        if lo is not None and lo >= 0 and hi is not None and hi < 1 << 32:
            r = ZERO
            for k in range(hi.bit_length()):
                r = add(r, floordiv(mod(x, 2 << k), 1 << k))
            return mkint(r)
    if name == "__index__" or name == "__int__":
        return mkint(lin(v))
    uns(f"int.{name}")


CAL = ("year", "month", "day", "hour", "minute", "second", "microsecond")


def offset_text(tz, colon=True):
    if tz is None:
        return ""
    if tz is not datetime.timezone.utc and tz != datetime.timezone.utc:
        uns(f"time zone {tz}")
    return "+00:00" if colon else "+0000"


def pad(I, x, n):
    return strsegs(fmt(I, mkint(x), f"0{n}d"))


def iso_text(I, d, sep="T", timespec="auto"):
    y, mo, dd, h, mi, s, us = d.f
    out = pad(I, y, 4) + (("s", "-"),) + pad(I, mo, 2) + (("s", "-"),) + pad(I, dd, 2) + (("s", sep),) + pad(I, h, 2)
    if timespec != "hours":
        out += (("s", ":"),) + pad(I, mi, 2)
    if timespec not in ("hours", "minutes"):
        out += (("s", ":"),) + pad(I, s, 2)
    if timespec == "microseconds" or timespec == "auto" and not decide(eq(us, 0)):
        out += (("s", "."),) + pad(I, us, 6)
    elif timespec == "milliseconds":
        out += (("s", "."),) + pad(I, floordiv(us, 1000), 3)
    return mkstr(list(out) + [("s", offset_text(d.tz))])


def strftime_text(I, d, f):
    n = {"m": 1, "d": 2, "H": 3, "M": 4, "S": 5}
    out, i = [], 0
    while i < len(f):
        if f[i] != "%":
            out.append(("s", f[i]))
        else:
            i += 1
            c = f[i:i + 1]
            if c in n and c:
                out += pad(I, d.f[n[c]], 2)
            elif c == "Y":
                # glibc does not pad
                out += strsegs(fmt(I, mkint(d.f[0]), "d"))
            elif c == "F":
                out += list(strsegs(fmt(I, mkint(d.f[0]), "d"))) + [("s", "-"), *pad(I, d.f[1], 2), ("s", "-"),
                                                                   *pad(I, d.f[2], 2)]
            elif c == "T":
                out += [*pad(I, d.f[3], 2), ("s", ":"), *pad(I, d.f[4], 2), ("s", ":"), *pad(I, d.f[5], 2)]
            elif c == "f":
                out += pad(I, d.f[6], 6)
            elif c == "z":
                out.append(("s", offset_text(d.tz, False)))
            elif c == "%":
                out.append(("s", "%"))
            else:
                uns(f"strftime %{c}")
        i += 1
    return mkstr(out)


def dt_method(I, d, name, a, kw):
    if d.kind == "cal" and not has_sym(a):
        if name == "replace" and not a and set(kw) <= set(CAL) | {"tzinfo"}:
            f = list(d.f)
            for k, v in kw.items():
                if k == "tzinfo":
                    continue
                if k in ("year", "month", "day"):
                    uns("replace of the date")
                x = lin(v)
                if not decide(and_(le(0, x), lt(x, {"hour": 24, "minute": 60, "second": 60, "microsecond": 10 ** 6}[k]))):
                    pyraise(ValueError(f"{k} out of range"))
                f[CAL.index(k)] = x
            return SymDT("cal", tuple(f), kw.get("tzinfo", d.tz))
        if name == "isoformat" and len(a) <= 2 and not has_sym(kw):
            o = dict(zip(("sep", "timespec"), a), **kw)
            if o.get("timespec", "auto") not in ("auto", "hours", "minutes", "seconds", "milliseconds", "microseconds"):
                pyraise(ValueError("Unknown timespec value"))
            return iso_text(I, d, **o)
        if name == "__str__":
            return iso_text(I, d, " ")
        if name in ("strftime", "__format__") and len(a) == 1 and isinstance(a[0], str):
            return strftime_text(I, d, a[0]) if a[0] else iso_text(I, d, " ")
        if name == "utcoffset":
            return None if d.tz is None else d.tz.utcoffset(None)
    if name == "replace" and not a and set(kw) <= {"microsecond", "tzinfo"} and not has_sym(kw):
        return SymDT(d.kind + "|replace" + repr(sorted(kw.items(), key=str)), d.f, d.tz)
    if name in ("isoformat", "strftime", "__str__", "timestamp"):
        return opaque_text("dt." + name, (d.kind, str(d.tz), tuple(map(repr, a)), repr(sorted(kw.items()))),
                           tuple(_frac_key(x) for x in d.f))
    if name == "astimezone" and (a or kw) and (a[0] if a else kw.get("tz")) == d.tz:
        return d
    uns(f"datetime.{name}")


def _frac_key(x):
    """integer-coefficient Lin identifying a rational Lin"""
    from math import lcm
    den = 1
    for k in [x.c] + [k for _, k in x.t]:
        den = lcm(den, Fraction(k).denominator)
    return Lin(int(x.c * den), tuple((a, int(k * den)) for a, k in x.t))


# ------------------------------------------------------------------ attributes
def load_attr(I, o, name):
    junk_check(o)
    if isinstance(o, SymDT):
        if o.kind == "cal" and name in ("year", "month", "day", "hour", "minute", "second", "microsecond"):
            return mkint(o.f[("year", "month", "day", "hour", "minute", "second", "microsecond").index(name)])
        if name == "tzinfo":
            return o.tz
        return SymMethod(o, name)
    if isinstance(o, SymChoice):
        vals = o.vals
        if all(isinstance(v, enum.Enum) for v in vals) and name in ("name", "value", "_name_", "_value_"):
            return o.map(lambda v: getattr(v, name))
        if not all(hasattr(v, name) for v in vals):
            v = concretize(o, 300)
            return load_attr(I, v, name)
        return SymMethod(o, name)
    if type(o).__name__ == "IGen" and name in ("send", "throw", "close"):
        return SymMethod(o, name)
    if isinstance(o, SymBytes) and name in ("__enter__", "__exit__", "tobytes", "release"):
        return SymMethod(o, name)
    if isinstance(o, (Sym, ByteArr)):
        if isinstance(o, Opq):
            uns(f"attribute {name} of {o!r}")
        if isinstance(o, OpqDict):
            return SymMethod(o, name)
        t = str if isinstance(o, (SymStr, SymText)) else bytes if isinstance(o, SymBytes) else bytearray if isinstance(
            o, ByteArr) else int if isinstance(o, (SymInt, SymBool)) else None
        if isinstance(o, SymTD):
            if name == "total_seconds":
                return SymMethod(o, name)
            uns(f"timedelta.{name}")
        if t is not None and not hasattr(t, name):
            pyraise(AttributeError(f"{t.__name__!r} object has no attribute {name!r}"))
        if isinstance(o, (SymInt, SymBool)) and name in ("real", "numerator"):
            return o
        return SymMethod(o, name)
    if isinstance(o, types.ModuleType) and I.mine(o.__name__) and name not in o.__dict__:
        try:
            return I.import_module(o.__name__ + "." + name)
        except PyExc:
            pyraise(AttributeError(f"module {o.__name__!r} has no attribute {name!r}"))
    t = type(o)
    d = getattr(t, name, None) if not isinstance(o, type) else None
    if isinstance(d, property) and type(d.fget).__name__ == "IFunc":
        return I.call(d.fget, (o,), {})
    if isinstance(d, property) and type(d.fget) is types.FunctionType and carries(o):
        return I.call(interp_module().lift(d.fget), (o,), {})
    if isinstance(d, functools.cached_property) and type(d.func).__name__ == "IFunc":
        if name in o.__dict__:
            return o.__dict__[name]
        v = I.call(d.func, (o,), {})
        o.__dict__[name] = v
        return v
    try:
        return getattr(o, name)
    except AttributeError as e:
        g = getattr(t, "__getattr__", None)
        if type(g).__name__ == "IFunc":
            return I.call(g, (o, name), {})
        raise PyExc(AttributeError(f"{t.__name__!r} object has no attribute {name!r}"))
    except Exception as e:
        raise PyExc(e)


# ------------------------------------------------------------------ iteration
def get_iter(I, v):
    from . import interp as IN
    junk_check(v)
    if isinstance(v, IN.It) or isinstance(v, IN.IGen):
        return v
    if isinstance(v, (list, tuple, str, bytes, SymBytes, ByteArr, SymStr)):
        return IN.SeqIter(v)
    if isinstance(v, SymChoice):
        return get_iter(I, concretize(v))
    if isinstance(v, range):
        return IN.SeqIter(v)
    if isinstance(v, SymRange):
        return IN.RangeIter(v.start, v.stop, v.step)
    if isinstance(v, SpecList):
        return v.iter(I)
    t = type(v)
    m = getattr(t, "__iter__", None)
    if type(m).__name__ == "IFunc":
        r = I.call(m, (v,), {})
        return get_iter(I, r) if not (isinstance(r, (IN.It, IN.IGen)) or user_obj(r)) else r
    if user_obj(v) and getattr(t, "__next__", None) is not None:
        return v
    g = getattr(t, "__getitem__", None)
    if type(g).__name__ == "IFunc" and m is None:
        uns("iteration by __getitem__")
    if isinstance(v, dict):
        dict_all(v)
        return IN.SeqIter(dict_parts(v, lambda k, x: k))
    if isinstance(v, Sym):
        if is_num(v):
            pyraise(TypeError("object is not iterable"))
        uns(f"iteration over {v!r}")
    try:
        return IN.NativeIter(iter(v))
    except TypeError as e:
        raise PyExc(e)


class SymRange(Sym):
    __slots__ = ("start", "stop", "step")

    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c


class SpecList(list):
    pass


def to_list(I, v):
    v = parts_list(I, v)
    return settled(v) if any(isinstance(x, Guarded) for x in v) else v


def parts_list(I, v):
    """the elements, those that are present under a condition as such"""
    junk_check(v)
    if isinstance(v, list) and type(v) is list and not any(isinstance(x, PARTS) for x in v):
        return list(v)
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, (dict, set, frozenset, range)):
        dict_all(v)
        return dict_parts(v, lambda k, x: k) if isinstance(v, dict) else list(v)
    if user_obj(v):
        v = get_iter(I, v)
    if type(v) is interp_module().SeqIter and v.pos == v.sub == 0 and isinstance(v.seq, (list, tuple)):
        v.pos = len(v.seq)
        return list(v.seq)
    return I.call(I.prelude("to_list"), (v,), {})


def collect(I, v):
    """as to_list, with elements that are present under a condition"""
    IN = interp_module()
    if type(v) is IN.IGen and v.state == "new":
        return I.call(I.prelude("collect"), (v, collect_into), {})
    if type(v) is IN.SeqIter and v.pos == v.sub == 0 and type(v.seq) is list:
        v.pos = len(v.seq)
        return list(v.seq)
    if type(v) is IN.FilterIter and type(v.inner) in (IN.SeqIter, IN.EnumIter, IN.ZipIter, IN.MapIter):
        out = []
        xs = collect(I, v.inner)
        for x in resolve_parts(xs):
            c = truth_cond(I, x if v.fn is None else I.call(v.fn, (x,), {}))
            k = TRUE if c is TRUE else FALSE if c is FALSE else None
            if k is None:
                q = Ctx.path.quick(c)
                k = None if q is None else TRUE if q else FALSE
            if k is not FALSE:
                out.append(x if k is TRUE else Guarded(c, x))
        return out
    if type(v) is IN.MapIter and len(v.inners) == 1 and type(v.inners[0]) is IN.FilterIter:
        out = []
        table = getattr(v.fn, "__self__", None)
        pure = type(table) in (dict, tuple, list) and not has_sym(table) and \
            getattr(v.fn, "__name__", "") in ("get", "__getitem__")
        for x in collect(I, v.inners[0]):
            if isinstance(x, Guarded) and not (pure and not has_sym(x.v) and
                                               (x.v in table if type(table) is dict else type(x.v) is int and
                                                -len(table) <= x.v < len(table))):
                if not decide(x.c):
                    continue
                x = x.v
            if isinstance(x, Guarded):
                out.append(Guarded(x.c, I.native(v.fn, x.v)))
            else:
                out.append(I.call(v.fn, (x,), {}))
        return out
    return parts_list(I, v)


def resolve_parts(xs):
    if any(isinstance(x, (Star, Each)) for x in xs):
        uns("filter of an unknown number of elements")
    for x in xs:
        if isinstance(x, Guarded):
            if decide(x.c):
                yield x.v
        else:
            yield x


def interp_module():
    from . import interp
    return interp


def list_extend(I, lst, v):
    if isinstance(v, (list, tuple)):
        lst.extend(v)
        return
    lst.extend(parts_list(I, v))


def unpack_seq(I, v, n):
    if isinstance(v, (tuple, list)) and not any(isinstance(x, PARTS) for x in v):
        vals = list(v)
    elif is_bytes(v) and has_sym(v):
        r = rope(v)
        if not decide(eq(rope_len(r), n)):
            pyraise(ValueError("wrong number of values to unpack"))
        vals = [mkint(rope_at(r, i)) for i in range(n)]
    else:
        it = get_iter(I, v)
        vals = []
        while len(vals) <= n:
            ok, x = I.nxt(it)
            if not ok:
                break
            vals.append(x)
    if len(vals) != n:
        pyraise(ValueError(f"wrong number of values to unpack (expected {n})"))
    return vals


def length(I, v):
    junk_check(v)
    if isinstance(v, (SymBytes, ByteArr)):
        return mkint(rope_len(v.segs))
    if isinstance(v, SymStr):
        return mkint(text_len(v))
    if isinstance(v, SymChoice):
        return mkint(v.map_lin(len))
    if isinstance(v, dict):
        dict_all(v)
        e = each_key(v)
        if e is not None:
            return mkint(add(v[e].n, len(v) - 1))
    if isinstance(v, list) and type(v) is list:
        n = ZERO
        for x in v:
            if isinstance(x, Chunk):
                chunk_use(x)
                uns("length of an unknown number of pieces")
            n = add(n, x.n if isinstance(x, Each) else V.star_len(x) if isinstance(x, Star) else ite(x.c, 1, 0) if isinstance(x, Guarded) else 1)
        return mkint(n)
    if isinstance(v, SymRange):
        uns("len(range)")
    m = getattr(type(v), "__len__", None)
    if type(m).__name__ == "IFunc":
        return I.call(m, (v,), {})
    if isinstance(v, Sym):
        if is_num(v):
            pyraise(TypeError("object has no len()"))
        uns(f"len of {v!r}")
    return I.native(len, v)


# ------------------------------------------------------------------ calls
HANDLERS = {}


def handler(*fns):
    def deco(f):
        for x in fns:
            HANDLERS[id(x)] = (x, f)
        return f
    return deco


def odict_method(I, o, name, a, kw):
    if kw or any(isinstance(x, SYMLIKE) for x in a):
        uns(f"{name} of {o!r}")
    if name == "copy" and not a:
        return OpqDict(o.o, o.gone, o.over)
    if name in ("pop", "get") and 1 <= len(a) <= 2:
        k = a[0]
        if k in o.over:
            v = o.over[k]
        elif k in o.gone:
            if name == "pop" and len(a) == 1:
                pyraise(KeyError(k))
            v = a[1] if len(a) > 1 else None
        elif name == "get":
            uns(f"unknown entry {k!r} of {o!r}")
        else:
            if len(a) == 1 and not decide(contains(I, k, o)):
                pyraise(KeyError(k))
            v = Junk(f"entry {k!r} of an opaque dictionary")
        if name == "pop":
            o.over.pop(k, None)
            o.gone.add(k)
        return v
    if name == "clear" and not a:
        uns("clear of an opaque dictionary")
    if name == "update" and len(a) == 1 and type(a[0]) is dict:
        dict_all(a[0])
        o.over.update(a[0])
        return None
    uns(f"{name} of {o!r}")


def call(I, fn, a, kw):
    h = HANDLERS.get(id(fn))
    if h is not None and h[0] is fn:
        return h[1](I, a, kw)
    if type(fn) is SymMethod:
        o = fn.obj
        if type(o).__name__ == "IGen":
            return getattr(o, fn.name)(I, *a)
        if isinstance(o, HexBytes):
            if fn.name != "decode" or has_sym(list(a) + list(kw.values())) or I.native(b"09af".decode, *a, **kw) != "09af":
                uns(f"bytes.{fn.name}")
            return o.text
        if isinstance(o, SymBytes) and fn.name in ("__enter__", "tobytes"):
            return o
        if isinstance(o, SymBytes) and fn.name in ("__exit__", "release"):
            return None
        if isinstance(o, (SymBytes, ByteArr)):
            return bytes_method(I, o, fn.name, a, kw)
        if isinstance(o, SymDT):
            return dt_method(I, o, fn.name, a, kw)
        if isinstance(o, (SymStr, SymText)) or isinstance(o, SymChoice) and o.all(str):
            return str_method(I, o, fn.name, a, kw)
        if isinstance(o, OpqDict):
            return odict_method(I, o, fn.name, a, kw)
        if isinstance(o, SymTD):
            return SymReal(scale(o.us, Fraction(1, 10**6)))
        if isinstance(o, (SymInt, SymBool)):
            return int_method(I, o, fn.name, a, kw)
        return call(I, I.load_attr(concretize(o), fn.name), a, kw)
    if type(fn) is types.BuiltinMethodType:
        s = fn.__self__
        r = method_of(I, s, fn.__name__, a, kw, fn)
        if r is not NotImplemented:
            return r
    if isinstance(fn, type):
        if getattr(fn, "__module__", "").split(".")[0] in (I.prefix, "specs"):
            if issubclass(fn, enum.Enum):
                return enum_call(I, fn, a, kw)
            return I.instantiate(fn, a, kw)
        if issubclass(fn, BaseException):
            if has_sym(list(a)):
                a = tuple("<symbolic>" if has_sym(x) else x for x in a)
            return I.native(fn, *a, **kw)
    if isinstance(fn, types.MethodDescriptorType) or isinstance(fn, types.WrapperDescriptorType):
        # unbound builtin method: bytes.find(b, ...)
        if a:
            return call(I, I.load_attr(a[0], fn.__name__), a[1:], kw)
    if type(fn) is operator.itemgetter:
        ks = fn.__reduce__()[1]
        r = tuple(subscr(I, a[0], k) for k in ks)
        return r[0] if len(r) == 1 else r
    if type(fn) is operator.attrgetter:
        r = []
        for n in fn.__reduce__()[1]:
            v = a[0]
            for p in n.split("."):
                v = I.load_attr(v, p)
            r.append(v)
        return r[0] if len(r) == 1 else tuple(r)
    if type(fn) is operator.methodcaller:
        f, x = fn.__reduce__()
        k = f.keywords if isinstance(f, functools.partial) else {}
        n, *x = x if not k else (*f.args, *x)
        return I.call(I.load_attr(a[0], n), tuple(x), k)
    if fn is tuple.__new__ and isinstance(a[0], type) and len(a) == 2:
        return tuple.__new__(a[0], to_list(I, a[1]))
    if type(fn).__name__ == "_lru_cache_wrapper":
        return I.call(fn.__wrapped__, a, kw)
    if type(fn) is struct.Struct:
        pass
    if isinstance(getattr(fn, "__self__", None), argparse.ArgumentParser):
        return parse_args(I, fn, a, kw)
    m = getattr(type(fn), "__call__", None)
    if type(m).__name__ == "IFunc":
        return I.call(m, (fn,) + a, kw)
    if not callable(fn):
        pyraise(TypeError(f"{type(fn).__name__!r} object is not callable"))
    sym = has_sym(list(a)) or has_sym(kw)
    if sym:
        opn = OPERATOR.get(fn)
        if opn:
            return opn(I, *a)
    if sym or any(interpreted(I, x) or carries(x) for x in (*a, *kw.values())):
        from . import interp as IN
        if type(fn) is types.FunctionType:
            return I.call(IN.lift(fn), a, kw)
        if isinstance(fn, type) and type(fn.__init__) is types.FunctionType and fn.__module__ in sys.stdlib_module_names:
            return I.instantiate(fn, a, kw)
    if sym and fn is not types.SimpleNamespace:
        uns(f"call of {fn!r} on symbolic data")
    if fn in FORBIDDEN or getattr(fn, "__module__", None) in ("os", "subprocess", "shutil", "socket", "posix"):
        if fn not in ALLOWED_NATIVE:
            uns(f"call of {fn!r}")
    if any(type(x).__name__ in ("IGen",) or isinstance(x, IN_It()) for x in a):
        uns(f"native {fn!r} over an interpreted iterator")
    return I.native(fn, *a, **kw)


def interpreted(I, x):
    """a function, generator or object of the interpreted program"""
    n = type(x).__name__
    if n == "MethodType":
        return type(x.__func__).__name__ == "IFunc"
    return n in ("IFunc", "IGen") or not isinstance(x, type) and I.mine(type(x).__module__ or "")


def IN_It():
    from . import interp as IN
    return IN.It


FORBIDDEN = {open, exec, eval, input, __import__}
import subprocess
ALLOWED_NATIVE = {subprocess.list2cmdline}

OPERATOR = {
    operator.eq: lambda I, a, b: compare(I, "==", a, b), operator.ne: lambda I, a, b: compare(I, "!=", a, b),
    operator.lt: lambda I, a, b: compare(I, "<", a, b), operator.le: lambda I, a, b: compare(I, "<=", a, b),
    operator.gt: lambda I, a, b: compare(I, ">", a, b), operator.ge: lambda I, a, b: compare(I, ">=", a, b),
    operator.getitem: subscr, operator.contains: lambda I, a, b: mkbool(contains(I, b, a)),
    operator.not_: lambda I, a: mkbool(not_(truth_cond(I, a))),
    operator.and_: lambda I, a, b: binary(I, "&", a, b), operator.or_: lambda I, a, b: binary(I, "|", a, b),
    operator.add: lambda I, a, b: binary(I, "+", a, b), operator.sub: lambda I, a, b: binary(I, "-", a, b),
    operator.mul: lambda I, a, b: binary(I, "*", a, b), operator.index: lambda I, a: mkint(lin(a)),
    operator.rshift: lambda I, a, b: binary(I, ">>", a, b), operator.lshift: lambda I, a, b: binary(I, "<<", a, b),
    operator.floordiv: lambda I, a, b: binary(I, "//", a, b), operator.mod: lambda I, a, b: binary(I, "%", a, b),
}


def enum_call(I, cls, a, kw):
    v = a[0]
    if not isinstance(v, Sym):
        return I.native(cls, *a, **kw)
    if not is_int(v):
        pyraise(ValueError("not a valid enum value"))
    x = lin(v)
    if "_missing_" in cls.__dict__:
        uns("enum with _missing_")
    mem = list(cls.__members__.values())
    uniq = []
    for m in mem:
        if m not in uniq and isinstance(m.value, int):
            uniq.append(m)
    alts = [(eq(x, int(m.value)), m) for m in uniq]
    if not decide(or_(*[c for c, _ in alts])):
        pyraise(ValueError(f"not a valid {cls.__name__}"))
    return mkchoice(alts[:-1], alts[-1][1])


def method_of(I, s, name, a, kw, fn):
    """bound method of a native container"""
    if isinstance(s, dict):
        if name in ("get", "pop", "setdefault") and a and not isinstance(a[0], SYMLIKE):
            dict_key(s, a[0])
        else:
            dict_all(s)
            for x in a:
                dict_all(x)
        if name == "get":
            k = a[0]
            d = a[1] if len(a) > 1 else None
            junk_check(k)
            if isinstance(k, SYMLIKE):
                alts = [(eq_cond(I, kk, k), v) for kk, v in s.items()]
                alts = [(c, v) for c, v in alts if c is not FALSE]
                none = not_(or_(*[c for c, _ in alts]))
                if has_sym(d) or not all(type(v) in (int, str, bytes, type(None), bool) for _, v in alts + [(0, d)]):
                    if decide(none):
                        return d
                    return by_cases(alts)
                return mkchoice(alts, d)
            return I.native(fn, *a, **kw)
        if each_key(s):
            if name in ("items", "values", "keys"):
                return dict_parts(s, {"items": lambda k, v: (k, v), "values": lambda k, v: v, "keys": lambda k, v: k}[name])
            if name in ("popitem", "update"):
                uns(f"{name} of a partially known dictionary")
        if name in ("pop", "setdefault") and isinstance(a[0], Sym):
            uns(f"dict.{name} with symbolic key")
        if name in ("items", "values", "keys", "pop", "setdefault", "update", "copy", "clear", "popitem"):
            if name == "update" and a and not isinstance(a[0], dict):
                for k, v in [unpack_seq(I, x, 2) for x in to_list(I, a[0])]:
                    store_subscr(I, s, k, v)
                s.update(kw)
                return None
            return I.native(fn, *a, **kw)
    if isinstance(s, list):
        if name == "append":
            s.append(a[0])
            return None
        if name == "extend":
            list_extend(I, s, a[0])
            return None
        if name in ("insert", "clear", "copy", "reverse", "pop"):
            if any(isinstance(x, PARTS) for x in s) and name in ("insert", "pop", "reverse"):
                if name == "pop" and (not a or a[0] == -1) and s and not isinstance(s[-1], PARTS):
                    return s.pop()
                if guarded_source(s):
                    if name != "reverse" and (name == "pop" or type(a[0]) is not int or a[0] != 0):
                        s[:] = settled(s)
                        return I.call(fn, a, {})
                    return I.native(fn, *a)
                uns(f"list.{name} on a partially known list")
            a = tuple(concretize(x) if isinstance(x, Sym) and name == "pop" else x for x in a)
            return I.native(fn, *a)
        if name in ("index", "count", "remove"):
            if has_sym(s) or has_sym(a):
                if guarded_source(s) and name != "count":
                    s[:] = settled(s)
                    return I.call(fn, a, {})
                if name == "index":
                    for i, x in enumerate(s):
                        if isinstance(x, PARTS):
                            uns("list.index on a partially known list")
                    alts, before = [], []
                    for i, x in enumerate(s):
                        c = eq_cond(I, x, a[0])
                        alts.append((and_(c, *[not_(b) for b in before]), i))
                        before.append(c)
                    return choose(I, alts, ValueError("not in list"))
                if name == "count" and not any(isinstance(x, (Star, Each)) for x in s):
                    n = ZERO
                    for x in s:
                        c = and_(x.c, eq_cond(I, x.v, a[0])) if isinstance(x, Guarded) else eq_cond(I, x, a[0])
                        n = add(n, ite(c, ONE, ZERO))
                    return mkint(n)
                uns(f"list.{name}")
            return I.native(fn, *a)
        if name == "sort":
            if guarded_source(s):
                s[:] = HANDLERS[id(sorted)][1](I, (s,), kw)
                return None
            if has_sym(s):
                uns("sort of symbolic list")
            return I.native(fn, *a, **kw)
    if isinstance(s, tuple) and name in ("index", "count") and (has_sym(s) or has_sym(a)):
        return method_of(I, list(s), name, a, kw, fn)
    if isinstance(s, (set, frozenset)) and (has_sym(a)):
        uns(f"set.{name} of symbolic value")
    if isinstance(s, str) and (has_sym(a) or has_sym(kw) or name == "join" or name == "format" and any(map(user_obj, a))):
        return str_method(I, s, name, a, kw)
    if isinstance(s, bytes) and (has_sym(a) or name == "join"):
        if name == "find" or name == "index":
            if isinstance(a[0], SymBytes) and len(a) == 1:
                r = a[0].segs
                if rope_len(r) == ONE:
                    c = rope_at(r, 0)
                    x = Lin(-1)
                    for i in range(len(s) - 1, -1, -1):
                        x = ite(eq(c, s[i]), Lin(i), x)
                    if name == "index" and decide(lt(x, 0)):
                        pyraise(ValueError("subsection not found"))
                    return mkint(x)
            if isinstance(a[0], SymInt):
                x = Lin(-1)
                for i in range(len(s) - 1, -1, -1):
                    x = ite(eq(a[0].lin, s[i]), Lin(i), x)
                return mkint(x)
        return bytes_method(I, s, name, a, kw)
    if isinstance(s, bytearray):
        if has_sym(a):
            uns("bytearray of symbolic bytes")
    if isinstance(s, struct.Struct):
        if name == "unpack":
            return m_unpack(I, s.format, a[0])
        if name == "unpack_from":
            return m_unpack_from(I, s.format, *a, **kw)
    if isinstance(s, type):
        if s is int and name == "from_bytes":
            return int_from_bytes(I, a, kw)
        if s is bytes and name == "fromhex" and has_sym(a):
            uns("fromhex")
        if s is dict and name == "fromkeys":
            ks = to_list(I, a[0])
            if has_sym(ks):
                uns("fromkeys of symbolic keys")
            return dict.fromkeys(ks, *a[1:])
        if s is itertools.chain and name == "from_iterable":
            out = []
            for x in to_list(I, a[0]):
                out.extend(to_list(I, x))
            return out
        if issubclass(s, datetime.datetime):
            if name == "combine" and any(isinstance(x, DatePart) for x in a):
                f = {}
                for x in a[:2]:
                    for k in ("year", "month", "day") if x is a[0] else ("hour", "minute", "second", "microsecond",
                                                                        "tzinfo"):
                        f[k] = x.f.get(k, None if k == "tzinfo" else 0) if isinstance(x, DatePart) else getattr(x, k)
                if len(a) > 2 or "tzinfo" in kw:
                    f["tzinfo"] = a[2] if len(a) > 2 else kw["tzinfo"]
                return mk_datetime(I, (), f)
            if name == "fromtimestamp":
                return from_timestamp(I, s, a, kw)
            if name == "utcfromtimestamp":
                return from_timestamp(I, s, a + (None,), kw) if has_sym(a) else I.native(fn, *a, **kw)
            if has_sym(a):
                uns(f"datetime.{name}")
    if type(s).__name__ == "HASH":
        pass
    return NotImplemented


def int_from_bytes(I, a, kw):
    b = a[0] if a else kw["bytes"]
    order = a[1] if len(a) > 1 else kw.get("byteorder", "big")
    if not has_sym(b):
        return I.native(int.from_bytes, *a, **kw)
    r = rope(b)
    n = rope_len(r)
    if not n.const:
        k = Ctx.path.known_const(n)
        if k is None:
            lo, hi = 0, 16
            k = None
            for j in range(0, 17):
                if decide(eq(n, j)):
                    k = j
                    break
            if k is None:
                uns("from_bytes of unbounded length")
        n = Lin(k)
    if n.c == 0:
        return 0
    return mkint(read_int(r, ZERO, n.c, order == "little", bool(kw.get("signed"))))


@handler(int.from_bytes)
def _h(I, a, kw):
    return int_from_bytes(I, a, kw)


@handler(struct.unpack)
def _h(I, a, kw):
    return m_unpack(I, *a)


@handler(struct.unpack_from)
def _h(I, a, kw):
    return m_unpack_from(I, *a, **kw)


@handler(struct.iter_unpack)
def _h(I, a, kw):
    if not has_sym(a[1]):
        return I.native(struct.iter_unpack, *a)
    return I.call(I.prelude("iter_unpack"), a, {})


@handler(len)
def _h(I, a, kw):
    return length(I, a[0])


def type_of(v):
    if isinstance(v, SymInt):
        return int
    if isinstance(v, SymBool):
        return bool
    if isinstance(v, SymReal):
        return float
    if isinstance(v, SymBytes):
        return bytes
    if isinstance(v, ByteArr):
        return bytearray
    if isinstance(v, (SymStr, SymText)):
        return str
    if isinstance(v, SymDT):
        return datetime.datetime
    if isinstance(v, SymTD):
        return datetime.timedelta
    if isinstance(v, OpqDict):
        return dict
    if isinstance(v, SymChoice):
        ts = {type(x) for x in v.vals}
        if len(ts) == 1:
            return ts.pop()
        return type(concretize(v, 300))
    if isinstance(v, Opq):
        if v.typ in (None, object, Scalar):
            uns(f"type of {v!r}")
        return v.typ
    if isinstance(v, Junk):
        junk_check(v)
    return type(v)


@handler(isinstance)
def _h(I, a, kw):
    v, t = a
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(v, SymChoice):
        return mkbool(v.cond(lambda x: isinstance(x, t)))
    if isinstance(v, (Sym, ByteArr)):
        flat = []
        for x in ts:
            flat.extend(x.__args__ if isinstance(x, types.UnionType) else [x])
        if isinstance(v, Opq) and v.typ is Scalar:
            if all(x in (list, dict, tuple, set, frozenset, bytes, bytearray, collections.abc.Mapping) for x in flat):
                return False
            uns(f"type of {v!r}")
        vt = type_of(v)
        return any(issubclass(vt, x) for x in flat)
    from . import interp as IN
    if isinstance(v, (IN.It, IN.IGen)):
        return any(x in (types.GeneratorType,) and isinstance(v, IN.IGen) or getattr(x, "__name__", "") in (
            "Iterator", "Iterable") for x in ts)
    return I.native(isinstance, v, t)


@handler(type)
def _h(I, a, kw):
    if len(a) != 1:
        return I.native(type, *a, **kw)
    return type_of(a[0])


@handler(bool)
def _h(I, a, kw):
    return mkbool(truth_cond(I, a[0])) if a else False


@handler(int)
def _h(I, a, kw):
    if not a:
        return 0
    v = a[0]
    junk_check(v)
    if isinstance(v, (SymInt, SymBool)) or isinstance(v, SymChoice) and v.all(int):
        return mkint(lin(v))
    if isinstance(v, SymReal):
        if decide(ge(v.lin, 0)):
            return mkint(rfloor(v.lin))
        return mkint(scale(rfloor(scale(v.lin, -1)), -1))
    if isinstance(v, SymChoice):
        return I.native(int, concretize(v), *a[1:])
    if isinstance(v, SymStr):
        base = a[1] if len(a) > 1 else kw.get("base", 10)
        if len(v.segs) == 1 and v.segs[0][0] == "fmt" and (base == 16) == (v.segs[0][1][-1] in "xX") and base in (10, 16):
            return mkint(v.segs[0][2])
        if len(v.segs) == 2 and v.segs[0] == ("s", "0x") and base in (16, 0) and v.segs[1][0] == "fmt":
            return mkint(v.segs[1][2])
        if all(s[0] == "fmt" and fmt_len(s) for s in v.segs) and base == 16:
            x = ZERO
            for s in v.segs:
                x = add(scale(x, 16 ** fmt_len(s)), s[2])
            return mkint(x)
    if isinstance(v, Sym):
        uns(f"int({v!r})")
    return I.native(int, *a, **kw)


@handler(float)
def _h(I, a, kw):
    if a and isinstance(a[0], (SymInt, SymBool, SymReal)):
        return SymReal(numlin(a[0]))
    return I.native(float, *a)


@handler(abs)
def _h(I, a, kw):
    if isinstance(a[0], Sym):
        x = numlin(a[0])
        r = ite(ge(x, 0), x, scale(x, -1))
        return SymReal(r) if isinstance(a[0], SymReal) else mkint(r)
    return I.native(abs, *a)


@handler(divmod)
def _h(I, a, kw):
    return binary(I, "//", *a), binary(I, "%", *a)


@handler(round)
def _h(I, a, kw):
    if has_sym(a):
        if is_int(a[0]):
            return a[0]
        uns("round")
    return I.native(round, *a)


@handler(str)
def _h(I, a, kw):
    if not a:
        return ""
    if len(a) > 1 or kw:
        if has_sym(a[0]):
            return bytes_decode(I, a[0], a[1] if len(a) > 1 else kw.get("encoding", "utf-8"),
                                a[2] if len(a) > 2 else kw.get("errors", "strict"))
        return I.native(str, *a, **kw)
    return to_str(I, a[0])


@handler(repr)
def _h(I, a, kw):
    return to_repr(I, a[0])


@handler(format)
def _h(I, a, kw):
    return fmt(I, a[0], a[1] if len(a) > 1 else "")


@handler(hex)
def _h(I, a, kw):
    if isinstance(a[0], Sym):
        if not is_int(a[0]):
            pyraise(TypeError("object cannot be interpreted as an integer"))
        return fmt(I, mkint(lin(a[0])), "#x")
    return I.native(hex, *a)


@handler(chr)
def _h(I, a, kw):
    if isinstance(a[0], Sym):
        x = lin(a[0])
        if not decide(and_(le(0, x), le(x, 0x10FFFF))):
            pyraise(ValueError("chr() arg not in range"))
        return SymStr((("o", "chr", (), (x,)),))
    return I.native(chr, *a)


@handler(ord)
def _h(I, a, kw):
    v = a[0]
    if isinstance(v, SymBytes):
        if not decide(eq(rope_len(v.segs), 1)):
            pyraise(TypeError("ord() expected a character"))
        return mkint(rope_at(v.segs, 0))
    if isinstance(v, SymStr):
        if not decide(eq(text_len(v), 1)):
            pyraise(TypeError("ord() expected a character"))
        return mkint(text_char(v, 0))
    if isinstance(v, SymChoice):
        return mkint(v.map_lin(ord))
    return I.native(ord, *a)


@handler(bytes)
def _h(I, a, kw):
    if not a:
        return b""
    v = a[0]
    junk_check(v)
    if isinstance(v, (SymBytes,)):
        return v
    if isinstance(v, ByteArr):
        return mkbytes(v.segs)
    if isinstance(v, SymInt):
        n = concretize(v)
        return bytes(n)
    if isinstance(v, str) or isinstance(v, SymStr):
        if has_sym(v):
            uns("bytes(text)")
        return I.native(bytes, *a, **kw)
    if isinstance(v, (int, bytes, bytearray)):
        return I.native(bytes, *a)
    if not isinstance(v, (list, tuple)) or any(isinstance(x, PARTS) for x in v):
        return I.call(I.prelude("bytes_"), (v,), {})
    out = []
    for x in v:
        y = lin(x)
        if not decide(and_(le(0, y), lt(y, 256))):
            pyraise(ValueError("bytes must be in range(0, 256)"))
        out.extend(cell_rope(y))
    return mkbytes(out)


@handler(bytearray)
def _h(I, a, kw):
    if not a:
        return ByteArr(())
    v = _call_bytes(I, a, kw)
    return ByteArr(rope(v))


def _call_bytes(I, a, kw):
    return HANDLERS[id(bytes)][1](I, a, kw)


@handler(memoryview)
def _h(I, a, kw):
    if isinstance(a[0], SymBytes):
        return a[0]
    uns("memoryview")


@handler(list)
def _h(I, a, kw):
    if not a:
        return []
    v = a[0]
    if isinstance(v, list):
        return list(v)
    return collect(I, v)


def collect_into(gen, out):
    """(called from the prelude)"""


@handler(collect_into)
def _h(I, a, kw):
    a[0].frame.collect = a[1]


@handler(tuple)
def _h(I, a, kw):
    if not a:
        return ()
    return tuple(a[0]) if isinstance(a[0], (list, tuple)) and not any(
        isinstance(x, PARTS) for x in a[0]) else tuple(to_list(I, a[0]))


@handler(set, frozenset)
def _h(I, a, kw):
    v = to_list(I, a[0]) if a else []
    if has_sym(v):
        uns("set of symbolic values")
    return set(v)


@handler(collections.OrderedDict)
def _h(I, a, kw):
    return HANDLERS[id(dict)][1](I, a, kw)


@handler(dict)
def _h(I, a, kw):
    d = {}
    if a:
        v = a[0]
        if isinstance(v, OpqDict):
            r = OpqDict(v.o, v.gone, v.over)
            r.over.update(kw)
            return r
        if isinstance(v, (dict, types.MappingProxyType)):
            dict_all(v)
            d.update(v)
        else:
            for x in to_list(I, v):
                k, y = unpack_seq(I, x, 2)
                store_subscr(I, d, k, y)
    d.update(kw)
    return d


@handler(enumerate)
def _h(I, a, kw):
    from . import interp as IN
    return IN.EnumIter(get_iter(I, a[0]), a[1] if len(a) > 1 else kw.get("start", 0))


@handler(zip)
def _h(I, a, kw):
    from . import interp as IN
    return IN.ZipIter([get_iter(I, x) for x in a], kw.get("strict", False))


@handler(map)
def _h(I, a, kw):
    from . import interp as IN
    return IN.MapIter(a[0], [get_iter(I, x) for x in a[1:]])


@handler(filter)
def _h(I, a, kw):
    from . import interp as IN
    return IN.FilterIter(a[0], get_iter(I, a[1]))


@handler(reversed)
def _h(I, a, kw):
    v = a[0]
    if isinstance(v, (list, tuple)) and not any(isinstance(x, PARTS) for x in v):
        return get_iter(I, list(v)[::-1])
    if is_bytes(v) and has_sym(v):
        n = rope_len(rope(v))
        if n.const and n.c <= 64:
            return get_iter(I, [mkint(rope_at(rope(v), i)) for i in range(n.c - 1, -1, -1)])
        uns("reversed symbolic bytes")
    if isinstance(v, SymStr):
        cs = chars_of(v.segs)
        if cs is None:
            n = text_len(v)
            if not n.const:
                uns("reversed symbolic text")
            cs = [text_char(v, i) for i in range(n.c)]
        return get_iter(I, [SymStr((("o", "chr", (), (c,)),)) for c in reversed(cs)])
    if isinstance(v, SymChoice):
        v = concretize(v)
    return get_iter(I, I.native(lambda: list(reversed(v))))


@handler(range)
def _h(I, a, kw):
    if has_sym(list(a)):
        a = list(a)
        if len(a) == 1:
            a = [0, a[0], 1]
        elif len(a) == 2:
            a = [a[0], a[1], 1]
        return SymRange(*a)
    a = tuple(int(x) if isinstance(x, enum.IntEnum) else x for x in a)
    return I.native(range, *a)


@handler(iter)
def _h(I, a, kw):
    from . import interp as IN
    if len(a) == 2:
        return IN.CallIter(*a)
    return get_iter(I, a[0])


@handler(next)
def _h(I, a, kw):
    ok, v = I.nxt(a[0])
    if ok:
        return v
    if len(a) > 1:
        return a[1]
    pyraise(StopIteration())


@handler(sum)
def _h(I, a, kw):
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    v = a[0]
    if isinstance(v, (list, tuple)) and not has_sym(list(v)) and not any(map(user_obj, v)) and not has_sym(start):
        return I.native(sum, v, start)
    return I.call(I.prelude("sum_"), (v, start), {})


PLAIN_LOOP = {"RETURN_GENERATOR", "COPY_FREE_VARS", "FOR_ITER", "END_FOR", "RETURN_CONST", "CALL_INTRINSIC_1", "RERAISE"}


def guarded_source(v):
    return type(v) is list and any(isinstance(x, Guarded) for x in v) and not any(isinstance(x, (Star, Each)) for x in v)


def any_of(I, v, name, cond):
    """any and all, over elements that are present under a condition, as one condition

    Elements after the deciding one are looked at too, which shows in nothing when the generator only compares.
    """
    IN = interp_module()
    if type(v) is IN.IGen and v.state == "new":
        f = v.frame
        src = f.fast.get(".0")
        ops = {i.op for i in f.info.ins} - IN.MERGE_OK - PLAIN_LOOP
        if ops or any(i.op == "CALL" for i in f.info.ins) or type(src) is not IN.SeqIter or not guarded_source(src.seq):
            return I.call(I.prelude(name), (v,), {})
        try:
            v = collect(I, v)
        except PyExc:
            uns("exception in a generator given to any or all")
    if not guarded_source(v):
        return I.call(I.prelude(name), (v,), {})
    return mkbool(cond([(x.c, truth_cond(I, x.v)) if isinstance(x, Guarded) else (TRUE, truth_cond(I, x)) for x in v]))


@handler(any)
def _h(I, a, kw):
    return any_of(I, a[0], "any_", lambda xs: or_(*[and_(c, t) for c, t in xs]))


@handler(all)
def _h(I, a, kw):
    return any_of(I, a[0], "all_", lambda xs: and_(*[or_(not_(c), t) for c, t in xs]))


def _minmax(I, a, kw, op):
    if len(a) == 1:
        vals = to_list(I, a[0])
        if not vals:
            if "default" in kw:
                return kw["default"]
            pyraise(ValueError("arg is an empty sequence"))
    else:
        vals = list(a)
    key = kw.get("key")
    if key is None and all(is_int(v) for v in vals) and has_sym(vals):
        r = lin(vals[0])
        for v in vals[1:]:
            r = cmin(r, lin(v)) if op == "<" else V._cmax(r, lin(v))
        return mkint(r)
    best = vals[0]
    bk = best if key is None else I.call(key, (best,), {})
    for v in vals[1:]:
        k = v if key is None else I.call(key, (v,), {})
        if truth(I, compare(I, op, k, bk)):
            best, bk = v, k
    return best


@handler(min)
def _h(I, a, kw):
    return _minmax(I, a, kw, "<")


@handler(max)
def _h(I, a, kw):
    return _minmax(I, a, kw, ">")


@handler(sorted)
def _h(I, a, kw):
    v = collect(I, a[0])
    key = kw.get("key")
    if any(isinstance(x, Guarded) for x in v):
        vs = [x.v if isinstance(x, Guarded) else x for x in v]
        if (key is None or isinstance(key, (types.BuiltinFunctionType, types.MethodDescriptorType))) and not has_sym(vs) \
                and all(isinstance(x, (str, int)) for x in vs) and not any(isinstance(x, (Star, Each)) for x in v):
            try:
                ks = vs if key is None else [key(x) for x in vs]
                return [v[i] for i in sorted(range(len(v)), key=lambda i: ks[i], reverse=kw.get("reverse", False))]
            except Exception:
                pass
        v = settled(v)
    ks = [x if key is None else I.call(key, (x,), {}) for x in v]
    if has_sym(ks):
        uns("sort by symbolic key")
    if any(map(user_obj, ks)):
        uns("sort of objects")
    idx = I.native(sorted, range(len(v)), key=lambda i: ks[i], reverse=kw.get("reverse", False))
    return [v[i] for i in idx]


@handler(callable)
def _h(I, a, kw):
    return False if isinstance(a[0], Sym) else callable(a[0])


@handler(id)
def _h(I, a, kw):
    return id(a[0])


@handler(hash)
def _h(I, a, kw):
    if has_sym(a[0]):
        uns("hash")
    return I.native(hash, *a)


@handler(getattr)
def _h(I, a, kw):
    if not isinstance(a[1], str):
        nm = concretize(a[1]) if isinstance(a[1], SymChoice) else uns("symbolic attribute")
    else:
        nm = a[1]
    try:
        return I.load_attr(a[0], nm)
    except PyExc as e:
        if isinstance(e.exc, AttributeError) and len(a) > 2:
            return a[2]
        raise


@handler(hasattr)
def _h(I, a, kw):
    try:
        I.load_attr(a[0], a[1])
        return True
    except PyExc as e:
        if isinstance(e.exc, AttributeError):
            return False
        raise


@handler(setattr)
def _h(I, a, kw):
    I.native(setattr, *a)


@handler(vars)
def _h(I, a, kw):
    return I.native(vars, *a)


@handler(print)
def _h(I, a, kw):
    Ctx.path.printed(a, kw)


@handler(warnings.warn)
def _h(I, a, kw):
    Ctx.path.warn(1)


@handler(warnings.simplefilter, warnings.filterwarnings, warnings.resetwarnings)
def _h(I, a, kw):
    Ctx.path.log.append(("filter", a, kw))


@handler(datetime.datetime)
def _h(I, a, kw):
    return mk_datetime(I, a, kw)


@handler(datetime.timedelta)
def _h(I, a, kw):
    names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
    f = dict(zip(names, a))
    f.update(kw)
    if not has_sym(f):
        return I.native(datetime.timedelta, *a, **kw)
    unit = {"days": 86400 * 10**6, "seconds": 10**6, "microseconds": 1, "milliseconds": 1000, "minutes": 60 * 10**6,
            "hours": 3600 * 10**6, "weeks": 7 * 86400 * 10**6}
    us = ZERO
    for k, v in f.items():
        us = add(us, scale(numlin(v), unit[k]))
    if not decide(and_(le(us, Lin(86399999999999999999)), le(Lin(-86399999913600000000), us))):
        pyraise(OverflowError("timedelta out of range"))
    return mktd(us)


class Hash:
    """hash object over symbolic data"""

    def __init__(self, name, segs):
        self.name, self.segs = name, segs


def mkhash(I, name, a):
    v = a[0] if a else b""
    if not is_bytes(v):
        pyraise(TypeError("object supporting the buffer API required"))
    return Hash(name, rope(v))


@handler(hashlib.sha256)
def _h(I, a, kw):
    return mkhash(I, "sha256", a)


@handler(hashlib.md5)
def _h(I, a, kw):
    return mkhash(I, "md5", a)


@handler(hashlib.sha1)
def _h(I, a, kw):
    return mkhash(I, "sha1", a)


@handler(hashlib.new)
def _h(I, a, kw):
    return mkhash(I, a[0], a[1:])


def hash_hexdigest(h):
    if all(s[0] == "l" for s in h.segs):
        return hashlib.new(h.name, b"".join(s[1] for s in h.segs)).hexdigest()
    k, ls = rope_key(h.segs)
    return opaque_text("hash", (h.name, k), ls)


def hash_update(h, v):
    if not is_bytes(v):
        pyraise(TypeError("object supporting the buffer API required"))
    h.segs = norm_rope(h.segs + rope(v))


Hash.hexdigest = hash_hexdigest
Hash.update = hash_update


@handler(hash_hexdigest)
def _h(I, a, kw):
    return hash_hexdigest(*a)


@handler(hash_update)
def _h(I, a, kw):
    return hash_update(*a)


@handler(subprocess.list2cmdline)
def _h(I, a, kw):
    if not has_sym(a):
        return I.native(subprocess.list2cmdline, *a)
    items = to_list(I, a[0])
    for x in items:
        if not is_str(x):
            pyraise(TypeError("expected str"))
    k, ls = flatten_key(items)
    return opaque_text("list2cmdline", k, ls)


def conv_opaque(I, o, conv):
    """an unknown report after conversion: its leaves are JSON values and calendar times

    Two conversions agree on it when they agree on an arbitrary calendar time.
    """
    if conv is None:
        uns("times in an unknown report")
    f = [var("any time." + n, lo, hi) for n, lo, hi in (("y", 1, 9999), ("mo", 1, 12), ("d", 1, 31), ("h", 0, 23),
                                                         ("mi", 0, 59), ("s", 0, 59), ("us", 0, 999999))]
    w = conv(SymDT("cal", f, datetime.timezone.utc))
    if isinstance(w, YamlLeaf):
        return o
    k, ls = flatten_key(w)
    return Opq("conv", (o.name, o.key, k), tuple(o.lins) + tuple(ls), o.typ)


def snap(I, v, conv, depth=0):
    """deep copy of a JSON-like structure, conv applied to leaves that are not JSON values"""
    if depth > 60:
        uns("deep structure")
    if isinstance(v, dict):
        r = {}
        dict_all(v)
        for k, x in v.items():
            if type(k) is EachKey:
                r[k] = Each((x.elem[0], snap(I, x.elem[1], conv, depth + 1)), x.n)
                continue
            if not isinstance(k, (str, int, float, bool, type(None))):
                uns("non-text key")
            r[k] = snap(I, x, conv, depth + 1)
        return r
    if isinstance(v, OpqDict):
        return OpqDict(conv_opaque(I, v.o, conv), v.gone, {k: snap(I, x, conv, depth + 1) for k, x in v.over.items()})
    if isinstance(v, Each):
        return Each(snap(I, v.elem, conv, depth + 1), v.n)
    if isinstance(v, list):
        return [Guarded(x.c, snap(I, x.v, conv, depth + 1)) if isinstance(x, Guarded) else
                x if isinstance(x, Star) else snap(I, x, conv, depth + 1) for x in v]
    if isinstance(v, tuple):
        return [snap(I, x, conv, depth + 1) for x in v]
    if v is None or isinstance(v, (str, int, float, bool, SymInt, SymBool, SymStr, SymText)):
        return v
    if isinstance(v, SymChoice) and all(isinstance(x, (str, int, type(None))) for x in v.vals):
        return v
    if isinstance(v, Opq) and v.typ in (dict, list, None, Scalar):
        return conv_opaque(I, v, conv)
    if conv is None:
        pyraise(TypeError(f"Object of type {type_of(v).__name__} is not JSON serializable"))
    w = conv(v)
    if w is v:
        pyraise(ValueError("Circular reference detected"))
    return snap(I, w, conv, depth + 1)


@handler(json.dumps)
def _h(I, a, kw):
    if not has_sym(a) and not any(map(user_obj, a)):
        return I.native(json.dumps, *a, **kw)
    kw = dict(kw)
    d = kw.pop("default", None)
    c = kw.pop("cls", None)
    if c is not None:
        own = {n for k in c.__mro__[:c.__mro__.index(json.JSONEncoder)] for n in k.__dict__ if callable(k.__dict__[n])}
        if not own <= {"default"} or d is not None:
            uns("json encoder class")
        d = load_attr(I, c.__new__(c), "default") if own else None
    st = snap(I, a[0], (lambda v: I.call(d, (v,), {})) if d is not None else None)
    return SymText("json", st, kw)


@handler(textwrap.indent)
def _h(I, a, kw):
    if isinstance(a[0], SymText):
        return SymText(a[0].kind, a[0].struct, a[0].opts, a[0].ops + (("indent", a[1:]),))
    if has_sym(a):
        uns("indent")
    return I.native(textwrap.indent, *a, **kw)


try:
    import yaml

    @handler(yaml.dump, yaml.safe_dump)
    def _h(I, a, kw):
        return SymText("yaml", snap(I, a[0], lambda v: YamlLeaf(v)), kw)
except ImportError:
    yaml = None


class YamlLeaf(SymText):
    __slots__ = ()

    def __init__(self, v):
        super().__init__("leaf", v, {})


# ------------------------------------------------------------------ the command line (specs.cli)
def program(I, fn, a, kw):
    """main() run with the (known) arguments on a file with unknown contents and an unknown code page

    sys.argv is that list while main runs, so argparse runs natively.  The names of the file and of the code page
    are markers in it: open and LnkFile give them their meaning.
    """
    args, d, cp = a
    dict_all(args)
    m = I.import_module("specs.cli")
    main = I.import_module("LnkParse3.lnk_file").main
    argv = sys.argv
    p = Ctx.path
    p.program = (m.FILE, d, m.CODEPAGE, cp, m.File)
    sys.argv = ["lnkparse"] + list(args)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return I.call(main, (), {})
    finally:
        sys.argv = argv
        p.program = None


@handler(open, io.open)
def _h(I, a, kw):
    pr = Ctx.path.program
    mode = a[1] if len(a) > 1 else kw.get("mode", "r")
    if pr is None or not a or a[0] != pr[0] or len(a) > 2 or set(kw) - {"mode"} or mode not in ("rb", "br"):
        uns(f"open of {a!r}")
    return I.call(pr[4], (pr[1],), {})


def parse_args(I, fn, a, kw):
    """argparse parses the arguments it is given, natively; what it stores are numbers, texts and None"""
    try:
        return fn(*a, **kw)
    except SystemExit as e:
        raise PyExc(e)
    except Exception as e:
        raise PyExc(e)


@handler(object.__new__)
def _h(I, a, kw):
    return I.native(object.__new__, a[0])


@handler(functools.reduce)
def _h(I, a, kw):
    return I.call(I.prelude("reduce_"), a, {})


@handler(itertools.chain)
def _h(I, a, kw):
    out = []
    for x in a:
        out.extend(to_list(I, x))
    return out


@handler(binascii.hexlify)
def _h(I, a, kw):
    return HexBytes(bytes_method(I, a[0], "hex", (), {})) if has_sym(a[0]) and len(a) == 1 else I.native(
        binascii.hexlify, *a, **kw)


@handler(codecs.encode)
def _h(I, a, kw):
    if has_sym(a[0]) and len(a) > 1 and a[1] in ("hex", "hex_codec"):
        return HexBytes(bytes_method(I, a[0], "hex", (), {}))
    if has_sym(a[0]):
        uns("codecs.encode")
    return I.native(codecs.encode, *a, **kw)


@handler(codecs.decode)
def _h(I, a, kw):
    if has_sym(a[0]):
        return bytes_decode(I, *a, **kw)
    return I.native(codecs.decode, *a, **kw)


class HexBytes(Sym):
    """ASCII bytes of a text"""
    __slots__ = ("text",)

    def __init__(self, text):
        self.text = text


@handler(io.BytesIO)
def _h(I, a, kw):
    return I.instantiate(I.prelude("BytesIO"), a, kw)


@handler(collections.deque)
def _h(I, a, kw):
    return I.instantiate(I.prelude("deque"), a, kw)


@handler(collections.namedtuple)
def _h(I, a, kw):
    return I.native(collections.namedtuple, *a, **{"module": I.frames[-1].globs.get("__name__"), **kw})


@handler(object.__setattr__)
def _h(I, a, kw):
    return I.native(object.__setattr__, *a)


@handler(operator.methodcaller)
def _h(I, a, kw):
    return operator.methodcaller(*a, **kw)


@handler(itertools.compress)
def _h(I, a, kw):
    return I.call(I.prelude("compress_"), a, kw)


@handler(globals)
def _h(I, a, kw):
    return I.frames[-1].globs


@handler(datetime.date)
def _h(I, a, kw):
    if not has_sym(a) and not has_sym(kw):
        return I.native(datetime.date, *a, **kw)
    return DatePart(I, ("year", "month", "day"), a, kw)


@handler(datetime.time)
def _h(I, a, kw):
    if not has_sym(a) and not has_sym(kw):
        return I.native(datetime.time, *a, **kw)
    return DatePart(I, ("hour", "minute", "second", "microsecond", "tzinfo"), a, kw)


class DatePart(Sym):
    """a date or a time of day"""
    __slots__ = ("f",)

    def __init__(self, I, names, a, kw):
        self.f = dict(zip(names, a))
        self.f.update(kw)
        day = {"year": 2000, "month": 1, "day": 1}
        mk_datetime(I, (), {**day, **self.f})


@handler(itertools.takewhile)
def _h(I, a, kw):
    return I.call(I.prelude("takewhile_"), a, {})


@handler(itertools.islice)
def _h(I, a, kw):
    if len(a) == 2:
        a = (a[0], 0, a[1])
    if len(a) == 3 and all(x is None or type(x) is int for x in a[1:]):
        return I.call(I.prelude("islice_" if a[2] is not None else "islice_rest"), (a[0], a[1] or 0) + a[2:], {})
    uns("islice")


@handler(itertools.count)
def _h(I, a, kw):
    return I.call(I.prelude("count_"), a, kw)


@handler(functools.wraps)
def _h(I, a, kw):
    return I.native(functools.wraps, *a, **kw)


def install_build_class():
    from . import interp as IN
    HANDLERS[id(IN._build_class)] = (IN._build_class, lambda I, a, kw: IN._build_class(*a, **kw))


# ------------------------------------------------------------------ shapes of reports (specs.shapes)
def shapes(I):
    """values of specs.shapes that stand for unknown ones"""
    def leaf(I, fn, a, kw):
        return Opq("leaf", (a[1],), (), Scalar)

    def many(I, fn, a, kw):
        return [Each(a[0], lin(a[1]))]

    def some(I, fn, a, kw):
        names, k, v, n = a
        return {EachKey(tuple(names)): Each((k, v), lin(n))}

    def count(I, fn, a, kw):
        return mkint(var("number of " + a[0], 0))

    for f in (leaf, many, some, count):
        I.contracts["specs.shapes", f.__name__] = f
    # the object is all there is to know of it
    I.contracts["specs.cli", "state"] = lambda I, fn, a, kw: a[0]
    I.contracts["specs.cli", "run"] = program
    # native runs also print the link itself
    for n in ("whole", "whole_spec"):
        I.contracts["specs.readable", n] = lambda I, fn, a, kw: None
