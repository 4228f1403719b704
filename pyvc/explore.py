"""Path exploration: a harness is executed again and again, each run following one path of decisions.

A decision on a symbolic condition is taken both ways unless the solver refutes one of them, so the set of explored
paths covers every input.  Loops whose number of iterations depends on the input are cut by loops.py.
"""
import time
from fractions import Fraction

from .values import *
from . import values as V
from . import terms as T
from . import loops as LP


class PathEnd(BaseException):
    """the path ends here (back edge of a cut loop, or an infeasible assumption)"""


class Restart(BaseException):
    """what is known about some loop changed: explore again from the start"""


class Budget(BaseException):
    pass


class Failure:
    def __init__(self, label, why, cond=None, model=None, kind="post"):
        self.label, self.why, self.cond, self.inputs, self.kind = label, why, cond, model, kind

    def __repr__(self):
        return f"{self.label}: {self.why}"


class Path:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.trace = []
        self.sol = Solver(ex.timeout)
        self.facts = set()
        self.lb, self.ub = {}, {}
        self.warns = ZERO
        self.program = None
        self.log = []
        self.active = {}
        self.heads = {}
        self.tails = set()
        self.frames_kept = []
        self.star_memo = {}
        self.nforks = 0
        self.ghost = None
        self.in_ghost = 0
        self.notes = []
        self.occ = {}
        self.nid = 0
        self.each = []
        self.memo = {}
        self.frames_open = []

    # ---------------------------------------------------------------- facts
    def _learn(self, c):
        if c.kind == "and":
            for x in c.args:
                self._learn(x)
            return
        self.facts.add(c)
        if c.kind in ("le", "eq"):
            x = c.args[0]
            b = Lin(0, x.t)
            k = -x.c
            if c.kind == "eq":
                self._ub(b, k)
                self._lb(b, k)
            elif x.t[0][1] > 0:
                self._ub(b, k)
            else:
                self._lb(scale(b, -1), -k)
        elif c.kind == "not" and c.args[0].kind == "eq":
            x = c.args[0].args[0]
            b = Lin(0, x.t)
            lo, hi = self.range(b)
            if lo == -x.c:
                self._lb(b, lo + 1)
            if hi == -x.c:
                self._ub(b, hi - 1)

    def _ub(self, b, k):
        if b not in self.ub or self.ub[b] > k:
            self.ub[b] = k

    def _lb(self, b, k):
        if b not in self.lb or self.lb[b] < k:
            self.lb[b] = k

    def range(self, b):
        lo, hi = bounds(b)
        l2, h2 = self.lb.get(b), self.ub.get(b)
        if l2 is not None and (lo is None or l2 > lo):
            lo = l2
        if h2 is not None and (hi is None or h2 < hi):
            hi = h2
        return lo, hi

    def quick(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.facts:
            return True
        k = c.kind
        if k in ("le", "eq"):
            x = c.args[0]
            if x.t[0][1] > 0:
                lo, hi = self.range(Lin(0, x.t))
            else:
                h, l = self.range(scale(Lin(0, x.t), -1))
                lo, hi = (None if l is None else -l), (None if h is None else -h)
            if k == "le":
                if hi is not None and hi + x.c <= 0:
                    return True
                if lo is not None and lo + x.c > 0:
                    return False
            else:
                if lo is not None and lo + x.c > 0 or hi is not None and hi + x.c < 0:
                    return False
                if lo is not None and lo == hi == -x.c:
                    return True
        elif k == "and":
            r = True
            for y in c.args:
                q = self.quick(y)
                if q is False:
                    return False
                if q is None:
                    r = None
            return r
        elif k == "or":
            r = False
            for y in c.args:
                q = self.quick(y)
                if q is True:
                    return True
                if q is None:
                    r = None
            return r
        elif k == "not":
            q = self.quick(c.args[0])
            return None if q is None else not q
        n = not_(c)
        if n in self.facts:
            return False
        return None

    def assume(self, c):
        if c is TRUE:
            return
        if c is FALSE:
            raise PathEnd
        self._learn(c)
        self.sol.add(c)

    def axiom(self, c):
        if c is TRUE or c in self.facts:
            return
        self._learn(c)
        self.sol.add(c)

    # ---------------------------------------------------------------- decisions
    def _next(self):
        i = len(self.trace)
        if i < len(self.prefix):
            return self.prefix[i]
        return None

    def decide(self, c):
        k = self.quick(c)
        if k is not None:
            return k
        r = self._next()
        if r is None:
            if time.time() > self.ex.deadline:
                raise Budget("time")
            t = self.sol.sat(c)
            if t == "unsat":
                r = ("F", False)
            else:
                f = self.sol.sat(not_(c))
                if f == "unsat":
                    if t == "unknown":
                        self.ex.unknowns += 1
                    r = ("F", True)
                else:
                    first = True
                    self.ex.todo.append(self.trace + [("D", not first)])
                    r = ("D", first)
        self.trace.append(r)
        if r[0] == "D":
            self.nforks += 1
        assert r[0] in "FD", "trace out of step"
        self.assume(c if r[1] else not_(c))
        return r[1]

    def entails(self, c):
        k = self.quick(c)
        if k is not None:
            return k
        r = self._next()
        if r is None:
            r = ("E", self.sol.sat(not_(c)) == "unsat")
        assert r[0] == "E", "trace out of step"
        self.trace.append(r)
        if r[1]:
            self.facts.add(c)
        return r[1]

    def known_const(self, x):
        lo, hi = self.range(Lin(0, L(x).t))
        if lo is not None and lo == hi:
            return lo + x.c
        r = self._next()
        if r is None:
            m = self.sol.model()
            k = None
            if m is not None:
                v = m.eval(T.zl(x), model_completion=True).as_long()
                if self.sol.sat(ne(x, v)) == "unsat":
                    k = v
            r = ("K", k)
        self.trace.append(r)
        return r[1]

    # ---------------------------------------------------------------- effects
    def note(self, s):
        self.notes.append(s)

    def note_find(self, *a):
        pass

    def warn(self, n):
        self.warns = add(self.warns, n)

    def printed(self, a, kw):
        self.log.append(("print", tuple(a), dict(kw)))

    def junk_read(self, j):
        LP.junk_read(self, j)

    def fresh(self, base):
        self.nid += 1
        return f"{base}#{self.nid}"

    # ---------------------------------------------------------------- obligations
    def prove(self, label, c, why=""):
        ex = self.ex
        ex.obl[label] = ex.obl.get(label, 0) + 1
        k = self.quick(c)
        if k is True:
            ex.trivial += 1
            return True
        t = time.time()
        r = "sat" if c is FALSE else self.sol.sat(not_(c))
        if c is FALSE:
            # an impossible path proves anything
            r = self.sol.sat()
        if r == "unknown":
            self.sol.s.set("timeout", 20000)
            r = self.sol.sat(not_(c)) if c is not FALSE else self.sol.sat()
            self.sol.s.set("timeout", ex.timeout)
        if r == "unsat":
            return True
        m = self.sol.model(not_(c)) if c is not FALSE else self.sol.model()
        inputs = ex.concrete(self, m, not_(c)) if m is not None else None
        ex.fail(Failure(label, (why or repr(c)[:300]) if r == "sat" else f"not discharged ({r}): {why or repr(c)[:200]}",
                        c, inputs))
        return False


class Explorer:
    def __init__(self, interp, timeout=4000, max_paths=4000, seconds=120):
        self.I = interp
        self.timeout = timeout
        self.max_paths = max_paths
        self.seconds = seconds
        self.loops = {}
        self.bound = None
        self.verbose = False
        self.cuts = set()
        self.coupling_failures = []

    def reset(self):
        self.obl = {}
        self.trivial = 0
        self.fails = []
        self.todo = [[]]
        self.paths = 0
        self.unknowns = 0
        self.checks = 0
        self.soltime = 0.0
        self.ends = {}
        self.each = {}
        self.each_image = {}
        self.bounded_hits = 0
        self.cuts = set()

    def fail(self, f):
        if len(self.fails) < 12 and not any(g.label == f.label and g.why == f.why for g in self.fails):
            self.fails.append(f)

    collect = None
    collect_max = 80

    def sample(self, p):
        """an input that follows the path"""
        try:
            m = p.sol.model()
            return self.concrete(p, m, TRUE) if m is not None else None
        except BaseException:
            return None

    def concrete(self, path, m, extra):
        return self.concretizer(path, m, extra) if self.concretizer else None

    concretizer = None

    def run(self, harness):
        """explore all paths of harness(path); True when every obligation was discharged"""
        self.deadline = time.time() + self.seconds
        self.restarts = 0
        while True:
            self.reset()
            try:
                self._explore(harness)
                return not self.fails
            except Restart as e:
                self.restarts += 1
                if self.restarts > 80:
                    self.fail(Failure("loop-invariants", f"no inductive invariant found ({e})", kind="undecided"))
                    return False
            except Budget as e:
                if self.dirty and self.restarts < 80 and time.time() < self.deadline:
                    self.restarts += 1
                    continue
                self.fail(Failure("budget", f"exploration stopped: {e}", kind="undecided"))
                return False

    def _explore(self, harness):
        self.dirty = 0
        while self.todo:
            if self.paths >= self.max_paths:
                raise Budget(f"{self.max_paths} paths")
            prefix = self.todo.pop()
            p = Path(self, prefix)
            Ctx.path = p
            self.paths += 1
            self.I.frames = []
            self.I.steps = 0
            self.I.nframes = 0
            self.I.curexc = None
            self.I.spec_mode = None
            self.I.on_head = lambda f, pc, back: LP.on_head(self, f, pc, back)
            how = "end"
            try:
                harness(p)
            except PathEnd:
                how = "cut"
            except Unsupported as e:
                how = "unsupported"
                if p.sol.sat() != "unsat":
                    self.fail(Failure("unsupported", f"{e}", model=self.sample(p), kind="undecided"))
                    if len(self.fails) >= 6:
                        raise Budget("too many failures")
            except EngineError as e:
                how = "engine"
                self.fail(Failure("engine", f"{e}", model=self.sample(p), kind="undecided"))
                if len(self.fails) >= 6:
                    raise Budget("too many failures")
            finally:
                self.checks += p.sol.nchecks
                self.soltime += p.sol.time
                self.I.frames = []
            if self.collect is not None and len(self.collect) < self.collect_max:
                x = self.sample(p)
                if x is not None:
                    self.collect.append(x)
            self.ends[how] = self.ends.get(how, 0) + 1
            if self.dirty and (self.fails or not self.todo or self.paths > self.dirty + 60):
                raise Restart("invariants changed")
            if len([f for f in self.fails if f.kind == "post"]) >= 4:
                raise Budget("several obligations failed")


# ------------------------------------------------------------------ printed YAML
class Layout(Exception):
    """printed text that is not understood as titles and one YAML mapping"""


YAML_LAYOUT = {"indent", "width", "default_flow_style"}


def ordered(v):
    """the data of a YAML document; the order of mappings counts"""
    if isinstance(v, OpqDict):
        return v
    if isinstance(v, dict):
        return ("mapping", [Each(("entry", x.elem[0], ordered(x.elem[1])), x.n) if type(k) is EachKey else
                            Guarded(x.c, ("entry", k, ordered(x.v))) if isinstance(x, Guarded) else
                            ("entry", k, ordered(x)) for k, x in v.items()])
    if isinstance(v, list):
        return ("sequence", [Each(ordered(x.elem), x.n) if isinstance(x, Each) else
                             Guarded(x.c, ordered(x.v)) if isinstance(x, Guarded) else
                             x if isinstance(x, Star) else ordered(x) for x in v])
    return v


def printed_yaml(log):
    """[title line | ("entry", key, value)] of what was printed; None when nothing of it is YAML"""
    from . import models as M
    parts = []
    for what, a, kw in log:
        if what != "print" or set(kw) - {"sep", "end", "flush"}:
            return None
        for i, x in enumerate(a):
            parts += [kw.get("sep", " "), x] if i else [x]
        parts.append(kw.get("end", "\n"))

    def has(x):
        return isinstance(x, M.SymText) and (x.kind == "yaml" or x.kind == "cat" and any(map(has, x.struct)))

    if not any(map(has, parts)):
        return None
    out = []                    # (indentation, entry) and title lines
    line = [""]                 # what has been written of the last line

    def text(s):
        if isinstance(s, str):
            ls = (line[0] + s).split("\n")
            out.extend(("title", x.strip()) for x in ls[:-1] if x.strip())
            line[0] = ls[-1]
        else:
            raise Layout("unknown text beside YAML")

    def go(x, ind):
        if not isinstance(x, M.SymText):
            if ind and str(x).strip():
                raise Layout("indented text")
            text(x)
            return
        end = None
        for op, args in x.ops:
            if op == "indent" and len(args) == 1 and isinstance(args[0], str) and not args[0].strip(" ") and end is None:
                ind += len(args[0])
            elif op in ("rstrip", "strip") and args in ((), ("\n",)) and (not ind or op == "rstrip"):
                end = ""
            else:
                raise Layout(f"text operation {op}")
        if x.kind == "cat":
            for y in x.struct:
                go(y, ind)
            if end is not None and line[0]:
                raise Layout("stripped text")
            return
        if x.kind != "yaml" or not isinstance(x.struct, dict):
            raise Layout(f"{x!r} beside YAML")
        if x.opts.get("sort_keys", True) is not False or x.opts.get("allow_unicode") is not True or \
                set(x.opts) - YAML_LAYOUT - {"sort_keys", "allow_unicode"}:
            raise Layout(f"YAML options {x.opts}")
        if line[0]:
            raise Layout("YAML within a line")
        out.extend((ind, e) for e in ordered(x.struct)[1])
        line[0] = "" if end is None else "\0"

    for x in parts:
        if line[0] == "\0":
            if not (isinstance(x, str) and x.startswith("\n")):
                raise Layout("text follows stripped YAML")
            line[0] = ""
        go(x, 0)
    if line[0].strip("\0 "):
        out.append(("title", line[0].strip()))
    inds = {x[0] for x in out if isinstance(x[0], int)}
    if len(inds) > 1:
        raise Layout("differently indented YAML")
    return [x[1] if isinstance(x[0], int) else x for x in out]


def same_log(I, a, b):
    """obligations that say that the same is printed"""
    try:
        x, y = printed_yaml(a), printed_yaml(b)
        if x is not None and y is not None:
            return deep_eq(I, x, y, "printed")
    except Layout as e:
        return [("printed", FALSE, str(e))]
    return deep_eq(I, a, b, "printed")


# ------------------------------------------------------------------ equality of results
TOL = Fraction(40, 10**6)


def deep_eq(I, a, b, label="", out=None, seen=None):
    """obligations [(label, Cond)] whose conjunction says that results a and b are equal"""
    from . import models as M
    out = [] if out is None else out
    seen = {} if seen is None else seen

    def bad(why):
        out.append((label, FALSE, why))
        return out

    if a is b:
        return out
    if isinstance(a, Junk) or isinstance(b, Junk):
        M.junk_check(a, b)
    if isinstance(a, M.Guarded) or isinstance(b, M.Guarded):
        ca, va = (a.c, a.v) if isinstance(a, Guarded) else (TRUE, a)
        cb, vb = (b.c, b.v) if isinstance(b, Guarded) else (TRUE, b)
        out.append((label + "?", iff(ca, cb), "presence differs"))
        sub_ = deep_eq(I, va, vb, label, [], seen)
        out.extend((l, implies(and_(ca, cb), c), w) for l, c, w in sub_)
        return out
    for x, y in ((a, b), (b, a)):
        if isinstance(x, M.SymText) != isinstance(y, M.SymText) and isinstance(x, M.SymText):
            return bad(f"encoded text against {y!r}"[:200])
    if isinstance(a, M.SymText) and a.kind == b.kind == "json":
        # one JSON document, however it is laid out
        for x in (a, b):
            if not json_layout(x):
                return bad(f"encoder options {x.opts} {x.ops}")
        return deep_eq(I, a.struct, b.struct, label + "~", out, seen)
    if isinstance(a, M.SymText):
        if a.kind != b.kind or a.ops != b.ops or a.opts.keys() != b.opts.keys():
            return bad("differently encoded text")
        for k in a.opts:
            if callable(a.opts[k]) and callable(b.opts[k]):
                continue
            if a.opts[k] != b.opts[k]:
                return bad(f"encoder option {k}")
        return deep_eq(I, a.struct, b.struct, label + "~", out, seen)
    import datetime
    if isinstance(a, (SymDT, datetime.datetime)) and isinstance(b, (SymDT, datetime.datetime)):
        return dt_eq(I, a, b, label, out)
    if isinstance(a, OpqDict) and isinstance(b, OpqDict):
        if a.gone | set(a.over) != b.gone | set(b.over) or set(a.over) != set(b.over):
            return bad(f"{a!r} against {b!r}"[:300])
        deep_eq(I, a.o, b.o, label, out, seen)
        return deep_eq(I, a.over, b.over, label, out, seen)
    if isinstance(a, Opq) or isinstance(b, Opq):
        if isinstance(a, Opq) and isinstance(b, Opq) and (a.name, a.key) == (b.name, b.key):
            for i, (x, y) in enumerate(zip(a.lins, b.lins)):
                out.append((label, eq(x, y), f"argument {i} of {a.name}"))
            return out
        return bad(f"{a!r} against {b!r}"[:300])
    if type(a) is dict and type(b) is dict:
        ea, eb = V.each_key(a), V.each_key(b)
        if (ea is None) != (eb is None):
            return bad("unknown entries")
        if ea is not None:
            a, b = dict(a), dict(b)
            deep_eq(I, [a.pop(ea)], [b.pop(eb)], label, out, seen)
        for k in a:
            if k not in b:
                if isinstance(a[k], Guarded):
                    out.append((f"{label}.{k}", not_(a[k].c), "extra key"))
                else:
                    bad(f"key {k!r} only in the result of the code")
        for k in b:
            if k not in a:
                if isinstance(b[k], Guarded):
                    out.append((f"{label}.{k}", not_(b[k].c), "missing key"))
                else:
                    bad(f"key {k!r} missing in the result of the code")
        for k in a:
            if k in b:
                deep_eq(I, a[k], b[k], f"{label}.{k}", out, seen)
        return out
    if type(a) is tuple and type(b) is tuple and len(a) == len(b) == 3 and all(
            type(x[0]) is str and x[0] == "print" and len(x[1]) == 1 and isinstance(x[1][0], M.SymText) and x[1][0].kind == "json" and
            set(x[2]) <= {"end", "flush", "sep"} and not str(x[2].get("end", "")).strip() for x in (a, b)):
        return deep_eq(I, a[1], b[1], label, out, seen)
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        for x, y in ((a, b), (b, a)):
            if len(x) == 1 and isinstance(x[0], Each) and not y:
                out.append((label, eq(x[0].n, 0), "length"))
                return out
        if len(a) != len(b) and any(isinstance(x, Guarded) for x in list(a) + list(b)):
            a = resolve_guards(a)
            b = resolve_guards(b)
        if len(a) != len(b):
            return bad(f"lengths differ: {len(a)} and {len(b)}: {a!r} / {b!r}"[:400])
        for i, (x, y) in enumerate(zip(a, b)):
            if isinstance(x, Each) and isinstance(y, Each):
                out.append((label, eq(x.n, y.n), "length"))
                deep_eq(I, x.elem, y.elem, label + "[*]", out, seen)
                continue
            if isinstance(x, Each) or isinstance(y, Each):
                return bad(f"lists of unknown and known length: {a!r} / {b!r}"[:400])
            if isinstance(x, Star) or isinstance(y, Star):
                if not (isinstance(x, Star) and isinstance(y, Star) and x.id == y.id):
                    bad("different unknown parts")
                continue
            deep_eq(I, x, y, f"{label}[{i}]", out, seen)
        return out
    if M.user_obj(a) and M.user_obj(b):
        if type(a) is not type(b):
            return bad(f"{type(a).__name__} against {type(b).__name__}")
        key = (id(a), id(b))
        if key in seen:
            return out
        seen[key] = (a, b)
        da, db = vars(a), vars(b)
        if da.keys() != db.keys():
            return bad(f"attributes differ: {sorted(da)} / {sorted(db)}")
        for k in da:
            deep_eq(I, da[k], db[k], f"{label}.{k}", out, seen)
        return out
    ta, tb = kind_of(a), kind_of(b)
    if ta != tb:
        if isinstance(a, SymChoice) or isinstance(b, SymChoice):
            pass
        else:
            return bad(f"{a!r} against {b!r}"[:300])
    if callable(a) and callable(b) and not M.has_sym(a):
        if a is not b and a != b:
            return bad("different functions")
        return out
    out.append((label, M.eq_cond(I, a, b), f"{a!r} against {b!r}"[:400]))
    return out


def json_layout(t):
    """whether the options and operations of an encoded JSON document change nothing but its layout"""
    o = dict(t.opts)
    sep = o.pop("separators", None)
    if sep is not None and not (len(sep) == 2 and all(isinstance(x, str) for x in sep) and
                                [x.strip(" \t\r\n") for x in sep] == [",", ":"]):
        return False
    ind = o.pop("indent", None)
    if not (ind is None or isinstance(ind, int) or isinstance(ind, str) and not ind.strip(" \t\r\n")):
        return False
    for k in ("sort_keys", "ensure_ascii", "check_circular", "allow_nan"):
        o.pop(k, None)
    return not any(o.values()) and all(n in ("strip", "rstrip", "lstrip") and not x or
                                       n == "indent" and x and isinstance(x[0], str) and not x[0].strip(" \t\r\n")
                                       for n, x in t.ops)


def kind_of(v):
    from . import models as M
    if isinstance(v, (SymStr, str)):
        return "str"
    if is_bytes(v):
        return "bytes"
    if isinstance(v, (bool, SymBool)):
        return "bool"
    if isinstance(v, (int, SymInt)):
        return "int"
    if isinstance(v, (float, SymReal)):
        return "float"
    if isinstance(v, SymChoice):
        ks = {kind_of(x) for x in v.vals}
        return ks.pop() if len(ks) == 1 else "choice"
    return type(v).__name__


def resolve_guards(xs):
    out = []
    for x in xs:
        if isinstance(x, Guarded):
            if decide(x.c):
                out.append(x.v)
        else:
            out.append(x)
    return out


def dt_eq(I, a, b, label, out):
    from . import models as M
    ka = a.kind if isinstance(a, SymDT) else "const"
    kb = b.kind if isinstance(b, SymDT) else "const"
    tza = a.tz if isinstance(a, SymDT) else a.tzinfo
    tzb = b.tz if isinstance(b, SymDT) else b.tzinfo
    if (tza is None) != (tzb is None) or tza != tzb:
        out.append((label, FALSE, f"time zones {tza} and {tzb}"))
        return out
    if "cal" in (ka, kb) and ka != "ts" and kb != "ts":
        fa, fb = [x.f if isinstance(x, SymDT) else [L(v) for v in (x.year, x.month, x.day, x.hour, x.minute, x.second,
                                                                     x.microsecond)] for x in (a, b)]
        for n, x, y in zip(("year", "month", "day", "hour", "minute", "second", "microsecond"), fa, fb):
            out.append((f"{label}.{n}", eq(x, y), n))
        return out
    if ka in ("ts", "const") and kb in ("ts", "const"):
        sa, sb = M.dt_seconds(a), M.dt_seconds(b)
        ea = a.f[1] if ka == "ts" else ZERO
        eb = b.f[1] if kb == "ts" else ZERO
        d = sub(sa, sb)
        e = add(ea, eb)
        out.append((label, and_(le(add(d, e), TOL), le(sub(e, d), TOL)), "instant"))
        return out
    out.append((label, FALSE, f"incomparable times {a!r} / {b!r}"[:200]))
    return out
