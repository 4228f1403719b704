"""An interpreter for CPython 3.12 bytecode that accepts symbolic values.

The code objects are the ones CPython's compiler produces from the source files of the package under
verification; every opcode has the CPython meaning, and operations on symbolic operands go to models.py.
"""
import ast
import builtins
import dis
import functools
import sys
import types

from .values import *

assert sys.version_info[:2] == (3, 12), "the interpreter understands CPython 3.12 bytecode"

NULL = type("NULL", (), {"__repr__": lambda s: "NULL"})()
CO_GENERATOR = 0x20
CO_VARARGS, CO_VARKEYWORDS = 4, 8


class _Loops(ast.NodeTransformer):
    """`while T: B` becomes `while True: if not T: break; B`, so that the loop head precedes the test"""

    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse or isinstance(n.test, ast.Constant):
            return n
        t = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Break()], orelse=[])
        w = ast.While(test=ast.Constant(value=True), body=[t] + n.body, orelse=[])
        for x in (t, t.test, t.body[0], w.test, w):
            ast.copy_location(x, n.test)
        return ast.copy_location(w, n)


def compile_file(p):
    with open(p, "rb") as fh:
        src = fh.read()
    tree = ast.fix_missing_locations(_Loops().visit(ast.parse(src, p)))
    return compile(tree, p, "exec", dont_inherit=True)


class Ins:
    __slots__ = ("op", "arg", "val", "off", "h", "tgt", "name")


class CodeInfo:
    """decoded instructions, exception table, loop heads and natural loops of a code object"""
    cache = {}

    def __init__(self, code):
        self.code = code
        ins = [i for i in dis.get_instructions(code) if i.opname not in ("CACHE", "EXTENDED_ARG")]
        self.idx = {i.offset: n for n, i in enumerate(ins)}
        # jumps may target an EXTENDED_ARG prefix
        nxt = len(ins)
        alli = list(dis.get_instructions(code))
        for i in reversed(alli):
            if i.offset in self.idx:
                nxt = self.idx[i.offset]
            elif i.opname != "CACHE":
                self.idx[i.offset] = nxt
        self.ins = []
        for i in ins:
            x = Ins()
            x.op, x.arg, x.val, x.off, x.tgt = i.opname, i.arg, i.argval, i.offset, None
            if i.opname in _JUMPS:
                x.tgt = self.idx[i.argval]
            x.h = getattr(Interp, "op_" + i.opname, None)
            self.ins.append(x)
        self.table = []
        for e in dis._parse_exception_table(code):
            self.table.append((e.start, e.end, self.idx[e.target], e.depth, e.lasti))
        self._loops()

    def _loops(self):
        n = len(self.ins)
        succ = [[] for _ in range(n)]
        for k, x in enumerate(self.ins):
            if x.tgt is not None:
                succ[k].append(x.tgt)
                if x.op == "FOR_ITER":
                    succ[k].append(x.tgt + 1)
            if x.op not in ("JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT", "RETURN_VALUE",
                            "RETURN_CONST", "RERAISE", "RAISE_VARARGS") and k + 1 < n:
                succ[k].append(k + 1)
            for s, e, t, _, _ in self.table:
                if s <= x.off < e:
                    succ[k].append(t)
        pred = [[] for _ in range(n)]
        for k in range(n):
            for s in succ[k]:
                pred[s].append(k)
        self.heads = {}
        self.regions = {}
        for k, x in enumerate(self.ins):
            if x.op in ("JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT"):
                # a loop only if the target dominates the jump (handlers are laid out behind the code)
                seen, todo = {x.tgt}, [0]
                while todo:
                    y = todo.pop()
                    if y not in seen:
                        seen.add(y)
                        todo.extend(succ[y])
                if k in seen and k != x.tgt:
                    continue
                body = self.heads.setdefault(x.tgt, {x.tgt})
                todo = [k]
                while todo:
                    y = todo.pop()
                    if y in body:
                        continue
                    body.add(y)
                    todo.extend(pred[y])

    @classmethod
    def of(cls, code):
        if code not in cls.cache:
            cls.cache[code] = cls(code)
        return cls.cache[code]


_JUMPS = {"FOR_ITER", "JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT", "POP_JUMP_IF_FALSE",
          "POP_JUMP_IF_TRUE", "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE", "SEND"}


class IFunc:
    """a function of the interpreted program"""
    __slots__ = ("__code__", "__globals__", "__defaults__", "__kwdefaults__", "__closure__", "__dict__",
                 "__weakref__")

    def __init__(self, code, globs, name=None, defaults=(), kwdefaults=None, closure=()):
        self.__code__ = code
        self.__globals__ = globs
        self.__name__ = name or code.co_name
        self.__qualname__ = code.co_qualname
        self.__defaults__ = defaults
        self.__kwdefaults__ = kwdefaults
        self.__closure__ = closure
        self.__doc__ = code.co_consts[0] if code.co_consts and isinstance(code.co_consts[0], str) else None
        self.__module__ = globs.get("__name__")
        self.__annotations__ = {}

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, *a, **k):
        try:
            return Ctx.interp.call(self, a, k)
        except PyExc as e:
            raise e.exc

    def __repr__(self):
        return f"<IFunc {self.__module__}.{self.__qualname__}>"


LIFTED = {}


def lift(fn):
    """a Python function of the standard library as one of the interpreted program"""
    r = LIFTED.get(fn)
    if r is None:
        r = LIFTED[fn] = IFunc(fn.__code__, fn.__globals__, fn.__name__, fn.__defaults__, fn.__kwdefaults__,
                               fn.__closure__ or ())
        r.__dict__.update(fn.__dict__)
        r.__module__ = fn.__module__
    return r


class Frame:
    __slots__ = ("info", "globs", "builtins", "fast", "stack", "pc", "last", "kw", "ns", "func", "visits", "fid",
                 "back", "gen", "inject", "collect")

    def __init__(self, func, globs, info, ns=None):
        self.func = func
        self.globs = globs
        self.info = info
        self.fast = {}
        self.stack = []
        self.pc = 0
        self.last = -1
        self.kw = ()
        self.ns = ns
        self.visits = {}
        self.gen = None
        self.inject = None
        self.collect = None     # the list a consumer fills from this generator
        self.fid = 0
        self.back = None


class IGen:
    """a generator of the interpreted program"""

    def __init__(self, frame):
        self.frame = frame
        self.state = "new"      # new | suspended | running | done
        self.resumes = 0

    def send(self, interp, v=None):
        if self.state == "done":
            pyraise(StopIteration())
        if self.state == "running":
            pyraise(ValueError("generator already executing"))
        f = self.frame
        f.stack.append(v)
        self.state = "running"
        self.resumes += 1
        try:
            kind, val = interp.run(f)
        except PyExc:
            self.state = "done"
            raise
        if kind == "yield":
            self.state = "suspended"
            return val
        self.state = "done"
        pyraise(StopIteration(val) if val is not None else StopIteration())

    def throw(self, interp, e=None, *rest):
        if isinstance(interp, BaseException) or isinstance(interp, type):     # called by native code
            try:
                return self.throw(Ctx.interp, interp, *(() if e is None else (e,)), *rest)
            except PyExc as x:
                raise x.exc
        if rest:
            e = rest[0] if rest[0] is not None else e
        if isinstance(e, type):
            e = e()
        if self.state in ("new", "done"):
            self.state = "done"
            raise PyExc(e)
        if self.frame.stack and isinstance(self.frame.stack[-1], (IGen, It)):
            raise Unsupported("exception thrown into a delegating generator")
        self.frame.inject = e
        return self.send(interp)

    def close(self, interp=None):
        interp = interp or Ctx.interp
        if self.state == "suspended":
            try:
                self.throw(interp, GeneratorExit())
            except PyExc as e:
                if not isinstance(e.exc, (StopIteration, GeneratorExit)):
                    raise
        self.state = "done"

    # native protocol (used when native code drains a generator)
    def __iter__(self):
        return self

    def __next__(self):
        try:
            return self.send(Ctx.interp)
        except PyExc as e:
            raise e.exc


class It:
    """base of engine-level iterators; nxt returns (True, value) or (False, None)"""


class SeqIter(It):
    def __init__(self, seq, pos=0):
        self.seq, self.pos, self.sub = seq, pos, 0

    def nxt(self, interp, loop=False):
        while True:
            s = self.seq
            if isinstance(s, (SymBytes, ByteArr)):
                n = rope_len(s.segs)
                p = lin(self.pos)
                if not decide(lt(p, n)):
                    return False, None
                v = mkint(rope_at(s.segs, p))
                self.pos = mkint(add(p, 1))
                return True, v
            if isinstance(s, SymStr):
                n = text_len(s)
                p = lin(self.pos)
                if not decide(lt(p, n)):
                    return False, None
                v = SymStr((("o", "chr", (), (text_char(s, p),)),))
                self.pos = mkint(add(p, 1))
                return True, v
            if isinstance(self.pos, SymInt):
                raise Unsupported("symbolic position in a concrete sequence")
            if self.pos >= len(s):
                return False, None
            v = s[self.pos]
            if type(v).__name__ == "Chunk":
                interp.models.chunk_use(v)
            if isinstance(v, Star):
                from . import loops, values
                k = lin(self.sub)
                if decide(lt(k, values.star_len(v))):
                    self.sub = mkint(add(k, 1))
                    return True, loops.star_elem(Ctx.path, v, k)
                self.sub = 0
                self.pos += 1
                continue
            if isinstance(v, Each):
                from . import loops
                if not loop:
                    raise Unsupported("a list of unknown length outside a for loop")
                if not self.sub:
                    self.sub = 1
                    loops.each_open(interp, self, v)
                    return True, v.elem
                loops.each_close(interp, self, v)
                self.sub = 0
                self.pos += 1
                continue
            self.pos += 1
            if isinstance(v, Guarded):
                if loop:
                    return True, v
                if not decide(v.c):
                    continue
                v = v.v
            return True, v


class RangeIter(It):
    def __init__(self, start, stop, step):
        self.pos, self.stop, self.step = start, stop, step

    def nxt(self, interp):
        if isinstance(self.step, Sym):
            raise Unsupported("symbolic range step")
        p, e = lin(self.pos), lin(self.stop)
        if not decide(lt(p, e) if self.step > 0 else lt(e, p)):
            return False, None
        v = mkint(p)
        self.pos = mkint(add(p, self.step))
        return True, v


class EnumIter(It):
    def __init__(self, inner, n):
        self.inner, self.pos = inner, n

    def nxt(self, interp):
        ok, v = interp.nxt(self.inner)
        if not ok:
            return ok, v
        n = self.pos
        self.pos = mkint(add(lin(n), 1))
        return True, (n, v)


class ZipIter(It):
    def __init__(self, inners, strict=False):
        self.inners, self.strict = inners, strict

    def nxt(self, interp):
        out = []
        for k, i in enumerate(self.inners):
            ok, v = interp.nxt(i)
            if not ok:
                if self.strict:
                    if k:
                        pyraise(ValueError("zip() argument lengths differ"))
                    for j in self.inners[1:]:
                        if interp.nxt(j)[0]:
                            pyraise(ValueError("zip() argument lengths differ"))
                return False, None
            out.append(v)
        return True, tuple(out)


class MapIter(It):
    def __init__(self, fn, inners):
        self.fn, self.inners = fn, inners

    def nxt(self, interp):
        args = []
        for i in self.inners:
            ok, v = interp.nxt(i)
            if not ok:
                return False, None
            args.append(v)
        return True, interp.call(self.fn, tuple(args), {})


class FilterIter(It):
    def __init__(self, fn, inner):
        self.fn, self.inner = fn, inner

    def nxt(self, interp, loop=False):
        while True:
            ok, v = interp.nxt(self.inner)
            if not ok:
                return False, None
            x = v if self.fn is None else interp.call(self.fn, (v,), {})
            if loop:
                c = interp.models.truth_cond(interp, x)
                if c is FALSE:
                    continue
                return True, v if c is TRUE else Guarded(c, v)
            if interp.truth(x):
                return True, v


class CallIter(It):
    def __init__(self, fn, sentinel):
        self.fn, self.sentinel = fn, sentinel

    def nxt(self, interp):
        v = interp.call(self.fn, (), {})
        if interp.truth(interp.compare("==", v, self.sentinel)):
            return False, None
        return True, v


class NativeIter(It):
    def __init__(self, it):
        self.it = it

    def nxt(self, interp):
        try:
            return True, next(self.it)
        except StopIteration:
            return False, None
        except Exception as e:
            raise PyExc(e)


class SpecAbort(BaseException):
    pass


MERGE_OK = {"NOP", "LOAD_FAST", "LOAD_CONST", "LOAD_GLOBAL", "LOAD_DEREF", "LOAD_ATTR", "PUSH_NULL", "LOAD_NAME",
            "BINARY_SUBSCR", "BUILD_TUPLE", "CALL", "POP_TOP", "LIST_APPEND", "LOAD_FAST_CHECK", "YIELD_VALUE", "RESUME",
            "BUILD_LIST", "BINARY_OP", "STORE_FAST", "UNPACK_SEQUENCE", "COMPARE_OP", "IS_OP", "CONTAINS_OP",
            "POP_JUMP_IF_FALSE", "POP_JUMP_IF_TRUE", "JUMP_FORWARD", "JUMP_BACKWARD", "SWAP", "COPY"}


class Interp:
    def __init__(self, prefix="LnkParse3", roots=()):
        from . import models
        self.models = models
        self.prefix = prefix
        self.roots = list(roots)
        self.modules = {}
        self.curexc = None
        self.frames = []
        self.spec_mode = None
        self.steps = 0
        self.max_steps = 4_000_000
        self.contracts = {}
        self.on_head = None
        self.nframes = 0
        self.trace_calls = set()
        self.ctor_hook = None
        models.install_build_class()

    # ------------------------------------------------------------ modules
    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        import os
        parent = None
        if "." in name:
            parent = self.import_module(name.rpartition(".")[0])
            if name in self.modules:
                return self.modules[name]
        rel = name.replace(".", "/")
        for root in self.roots:
            for p, pkg in ((f"{root}/{rel}/__init__.py", True), (f"{root}/{rel}.py", False)):
                if os.path.exists(p):
                    m = types.ModuleType(name)
                    m.__file__ = p
                    m.__package__ = name if pkg else name.rpartition(".")[0]
                    if pkg:
                        m.__path__ = [os.path.dirname(p)]
                    m.__dict__["__builtins__"] = builtins
                    self.modules[name] = m
                    code = compile_file(p)
                    f = Frame(None, m.__dict__, CodeInfo.of(code), m.__dict__)
                    self.run(f)
                    if parent is not None:
                        setattr(parent, name.rpartition(".")[2], m)
                    return m
        raise PyExc(ModuleNotFoundError(f"No module named {name!r}"))

    def mine(self, name):
        return name.split(".")[0] in (self.prefix, "specs", "pyvc_prelude")

    def prelude(self, name):
        m = self.modules.get("pyvc_prelude")
        if m is None:
            import os
            p = os.path.join(os.path.dirname(__file__), "prelude.py")
            m = types.ModuleType("pyvc_prelude")
            m.__dict__["__builtins__"] = builtins
            self.run(Frame(None, m.__dict__, CodeInfo.of(compile_file(p)), m.__dict__))
            self.modules["pyvc_prelude"] = m
        return getattr(m, name)

    # ------------------------------------------------------------ running
    def run(self, f):
        """run frame f until it returns or yields: ('return'|'yield'|'gen', value)"""
        ins = f.info.ins
        heads = f.info.heads
        self.frames.append(f)
        saved = self.curexc
        if len(self.frames) > 180:
            self.frames.pop()
            pyraise(RecursionError("maximum recursion depth exceeded"))
        try:
            while True:
                if f.inject is not None:
                    e, f.inject = f.inject, None
                    self.handle(f, ins[f.last], PyExc(e))
                pc = f.pc
                if pc in heads and self.on_head is not None:
                    self.on_head(f, pc, f.last in heads[pc])
                i = ins[pc]
                f.pc = pc + 1
                f.last = pc
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported("step budget exceeded on one path")
                h = i.h
                if h is None:
                    raise Unsupported(f"opcode {i.op}")
                try:
                    r = h(self, f, i)
                    if r is not None:
                        return r
                except PyExc as e:
                    if self.spec_mode is not None:
                        raise SpecAbort
                    self.handle(f, i, e)
        except Exception as e:
            raise EngineError(f"{type(e).__name__}: {e} at {f.info.code.co_qualname}:{f.last} {ins[f.last].op}") from e
        finally:
            self.frames.pop()
            self.curexc = saved

    def handle(self, f, i, e):
        for s, en, tgt, depth, lasti in f.info.table:
            if s <= i.off < en:
                del f.stack[depth:]
                if lasti:
                    f.stack.append(f.last)
                f.stack.append(e.exc)
                f.pc = tgt
                return
        raise e

    # ------------------------------------------------------------ calls
    def bind(self, fn, args, kw):
        code = fn.__code__
        f = Frame(fn, fn.__globals__, CodeInfo.of(code))
        self.nframes += 1
        f.fid = self.nframes
        n = code.co_argcount
        names = code.co_varnames
        fast = f.fast
        args = list(args)
        nk = code.co_kwonlyargcount
        pos = args[:n]
        for k, v in zip(names, pos):
            fast[k] = v
        if len(args) > n:
            if not code.co_flags & CO_VARARGS:
                pyraise(TypeError(f"{fn.__qualname__}() takes {n} positional arguments but {len(args)} were given"))
        idx = n + nk
        if code.co_flags & CO_VARARGS:
            fast[names[idx]] = tuple(args[n:])
            idx += 1
        extra = {}
        allowed = names[code.co_posonlyargcount:n + nk]
        for k, v in kw.items():
            if k in allowed:
                if k in fast:
                    pyraise(TypeError(f"{fn.__qualname__}() got multiple values for argument {k!r}"))
                fast[k] = v
            elif code.co_flags & CO_VARKEYWORDS:
                extra[k] = v
            else:
                pyraise(TypeError(f"{fn.__qualname__}() got an unexpected keyword argument {k!r}"))
        if code.co_flags & CO_VARKEYWORDS:
            fast[names[idx]] = extra
        d = fn.__defaults__ or ()
        for j, v in enumerate(d):
            k = names[n - len(d) + j]
            if k not in fast:
                fast[k] = v
        for k in names[n:n + nk]:
            if k not in fast and fn.__kwdefaults__ and k in fn.__kwdefaults__:
                fast[k] = fn.__kwdefaults__[k]
        for k in names[:n + nk]:
            if k not in fast:
                pyraise(TypeError(f"{fn.__qualname__}() missing required argument: {k!r}"))
        return f

    def call(self, fn, args=(), kw=None):
        kw = kw or {}
        t = type(fn)
        if t is IFunc:
            key = (fn.__module__, fn.__qualname__)
            if self.spec_mode is not None:
                raise SpecAbort
            c = self.contracts.get(key)
            if c is not None:
                r = c(self, fn, args, kw)
                if r is not NotImplemented:
                    return r
            self.trace_calls.add(key)
            return self.invoke(fn, args, kw)
        if t is types.MethodType:
            return self.call(fn.__func__, (fn.__self__,) + tuple(args), kw)
        if t is functools.partial:
            k2 = dict(fn.keywords)
            k2.update(kw)
            return self.call(fn.func, fn.args + tuple(args), k2)
        return self.models.call(self, fn, tuple(args), kw)

    def invoke(self, fn, args, kw):
        f = self.bind(fn, args, kw)
        kind, v = self.run(f)
        return v

    def instantiate(self, cls, args, kw):
        """call of a class of the interpreted program"""
        try:
            obj = cls.__new__(cls) if cls.__new__ is object.__new__ else self.call(cls.__new__, (cls,) + args, kw)
        except TypeError as e:
            raise PyExc(e)
        init = getattr(type(obj), "__init__")
        if init is not object.__init__:
            self.call(init, (obj,) + args, kw)
        elif (args or kw) and cls.__new__ is object.__new__:
            pyraise(TypeError(f"{cls.__name__}() takes no arguments"))
        if self.ctor_hook:
            self.ctor_hook(obj, cls, args, kw)
        return obj

    # ------------------------------------------------------------ helpers
    def truth(self, v):
        return self.models.truth(self, v)

    def compare(self, op, a, b):
        return self.models.compare(self, op, a, b)

    def get_iter(self, v):
        return self.models.get_iter(self, v)

    def nxt(self, it):
        """advance an engine iterator: (True, value) | (False, None)"""
        if isinstance(it, It):
            return it.nxt(self)
        if isinstance(it, IGen):
            try:
                return True, it.send(self)
            except PyExc as e:
                if isinstance(e.exc, StopIteration):
                    return False, None
                raise
        # instance with __next__
        n = getattr(type(it), "__next__", None)
        if n is not None:
            try:
                return True, self.call(n, (it,))
            except PyExc as e:
                if isinstance(e.exc, StopIteration):
                    return False, None
                raise
        raise Unsupported(f"iterator {it!r}")

    def load_attr(self, obj, name):
        return self.models.load_attr(self, obj, name)

    def native(self, fn, *a, **k):
        try:
            return fn(*a, **k)
        except Exception as e:
            raise PyExc(e)

    # ------------------------------------------------------------ opcodes
    def op_NOP(self, f, i):
        pass

    op_RESUME = op_CACHE = op_NOP

    def op_POP_TOP(self, f, i):
        f.stack.pop()

    def op_PUSH_NULL(self, f, i):
        f.stack.append(NULL)

    def op_END_FOR(self, f, i):
        del f.stack[-2:]

    def op_END_SEND(self, f, i):
        v = f.stack.pop()
        f.stack[-1] = v

    def op_LOAD_CONST(self, f, i):
        f.stack.append(i.val)

    def op_LOAD_FAST(self, f, i):
        v = f.fast.get(i.val, NULL)
        if v is NULL:
            pyraise(UnboundLocalError(f"cannot access local variable {i.val!r}"))
        f.stack.append(v)

    op_LOAD_FAST_CHECK = op_LOAD_FAST

    def op_LOAD_FAST_AND_CLEAR(self, f, i):
        f.stack.append(f.fast.pop(i.val, NULL))

    def op_STORE_FAST(self, f, i):
        v = f.stack.pop()
        if self.spec_mode is not None and f.fast.get(i.val) is not v:
            if len(self.spec_mode) < 3:
                raise SpecAbort
            self.spec_mode[2].setdefault(i.val, f.fast.get(i.val, NULL))
        if v is NULL:
            f.fast.pop(i.val, None)
        else:
            f.fast[i.val] = v

    def op_DELETE_FAST(self, f, i):
        if f.fast.pop(i.val, NULL) is NULL:
            pyraise(UnboundLocalError(i.val))

    def op_MAKE_CELL(self, f, i):
        v = f.fast.get(i.val, NULL)
        f.fast[i.val] = types.CellType() if v is NULL else types.CellType(v)

    def op_COPY_FREE_VARS(self, f, i):
        for n, c in zip(f.info.code.co_freevars, f.func.__closure__):
            f.fast[n] = c

    def op_LOAD_CLOSURE(self, f, i):
        f.stack.append(f.fast[i.val])

    def op_LOAD_DEREF(self, f, i):
        try:
            f.stack.append(f.fast[i.val].cell_contents)
        except ValueError:
            pyraise(NameError(i.val))

    def op_STORE_DEREF(self, f, i):
        f.fast[i.val].cell_contents = f.stack.pop()

    def op_DELETE_DEREF(self, f, i):
        del f.fast[i.val].cell_contents

    def op_LOAD_FROM_DICT_OR_DEREF(self, f, i):
        d = f.stack.pop()
        if i.val in d:
            f.stack.append(d[i.val])
        else:
            self.op_LOAD_DEREF(f, i)

    def op_LOAD_LOCALS(self, f, i):
        f.stack.append(f.ns)

    def _global(self, f, name):
        g = f.globs
        if name in g:
            return g[name]
        try:
            return getattr(builtins, name)
        except AttributeError:
            pyraise(NameError(f"name {name!r} is not defined"))

    def op_LOAD_GLOBAL(self, f, i):
        if i.arg & 1:
            f.stack.append(NULL)
        f.stack.append(self._global(f, i.val))

    def op_STORE_GLOBAL(self, f, i):
        f.globs[i.val] = f.stack.pop()

    def op_LOAD_NAME(self, f, i):
        if f.ns is not None and i.val in f.ns:
            f.stack.append(f.ns[i.val])
        else:
            f.stack.append(self._global(f, i.val))

    def op_STORE_NAME(self, f, i):
        v = f.stack.pop()
        self.native(f.ns.__setitem__, i.val, v)

    def op_DELETE_NAME(self, f, i):
        self.native(f.ns.__delitem__, i.val)

    def op_SETUP_ANNOTATIONS(self, f, i):
        f.ns.setdefault("__annotations__", {})

    def op_LOAD_ATTR(self, f, i):
        obj = f.stack.pop()
        v = self.load_attr(obj, i.val)
        if i.arg & 1:
            f.stack.append(NULL)
        f.stack.append(v)

    def op_LOAD_SUPER_ATTR(self, f, i):
        self_ = f.stack.pop()
        cls = f.stack.pop()
        f.stack.pop()
        v = self.native(getattr, super(cls, self_), i.val)
        if i.arg & 1:
            f.stack.append(NULL)
        f.stack.append(v)

    def op_STORE_ATTR(self, f, i):
        obj = f.stack.pop()
        v = f.stack.pop()
        if isinstance(obj, Sym):
            raise Unsupported("attribute store on a symbolic value")
        d = getattr(type(obj), i.val, None)
        if isinstance(d, property) and isinstance(d.fset, IFunc):
            self.call(d.fset, (obj, v))
            return
        self.native(setattr, obj, i.val, v)

    def op_DELETE_ATTR(self, f, i):
        self.native(delattr, f.stack.pop(), i.val)

    def op_BINARY_OP(self, f, i):
        b = f.stack.pop()
        a = f.stack.pop()
        op = dis._nb_ops[i.arg][1]
        if self.spec_mode is not None:
            if op != "+=" or type(a) is not list or type(b) is not list or len(b) != 1 or isinstance(b[0], Guarded):
                raise SpecAbort
            self.spec_append(a, b[0])
            f.stack.append(a)
            return
        f.stack.append(self.models.binary(self, op, a, b))

    def op_UNARY_NEGATIVE(self, f, i):
        f.stack.append(self.models.unary(self, "-", f.stack.pop()))

    def op_UNARY_INVERT(self, f, i):
        f.stack.append(self.models.unary(self, "~", f.stack.pop()))

    def op_UNARY_NOT(self, f, i):
        v = f.stack.pop()
        c = self.models.truth_cond(self, v)
        f.stack.append(mkbool(not_(c)))

    def op_COMPARE_OP(self, f, i):
        b = f.stack.pop()
        a = f.stack.pop()
        f.stack.append(self.compare(i.val, a, b))

    def op_CONTAINS_OP(self, f, i):
        b = f.stack.pop()
        a = f.stack.pop()
        c = self.models.contains(self, a, b)
        f.stack.append(mkbool(not_(c) if i.arg else c))

    def op_IS_OP(self, f, i):
        b = f.stack.pop()
        a = f.stack.pop()
        r = self.models.is_(self, a, b)
        f.stack.append(mkbool(not_(r) if i.arg else r))

    def op_BINARY_SUBSCR(self, f, i):
        k = f.stack.pop()
        o = f.stack.pop()
        f.stack.append(self.models.subscr(self, o, k))

    def op_BINARY_SLICE(self, f, i):
        e = f.stack.pop()
        s = f.stack.pop()
        o = f.stack.pop()
        f.stack.append(self.models.subscr(self, o, slice(s, e)))

    def op_STORE_SUBSCR(self, f, i):
        k = f.stack.pop()
        o = f.stack.pop()
        v = f.stack.pop()
        self.models.store_subscr(self, o, k, v)

    def op_STORE_SLICE(self, f, i):
        e = f.stack.pop()
        s = f.stack.pop()
        o = f.stack.pop()
        v = f.stack.pop()
        self.models.store_subscr(self, o, slice(s, e), v)

    def op_DELETE_SUBSCR(self, f, i):
        k = f.stack.pop()
        o = f.stack.pop()
        self.models.del_subscr(self, o, k)

    def op_BUILD_TUPLE(self, f, i):
        n = i.arg
        v = tuple(f.stack[len(f.stack) - n:])
        del f.stack[len(f.stack) - n:]
        f.stack.append(v)

    def op_BUILD_LIST(self, f, i):
        n = i.arg
        v = list(f.stack[len(f.stack) - n:])
        del f.stack[len(f.stack) - n:]
        f.stack.append(v)

    def op_BUILD_SET(self, f, i):
        n = i.arg
        v = f.stack[len(f.stack) - n:]
        del f.stack[len(f.stack) - n:]
        if any(isinstance(x, Sym) for x in v):
            raise Unsupported("set of symbolic values")
        f.stack.append(self.native(set, v))

    def op_BUILD_MAP(self, f, i):
        n = i.arg * 2
        v = f.stack[len(f.stack) - n:]
        del f.stack[len(f.stack) - n:]
        d = {}
        for k, x in zip(v[::2], v[1::2]):
            self.models.store_subscr(self, d, k, x)
        f.stack.append(d)

    def op_BUILD_CONST_KEY_MAP(self, f, i):
        keys = f.stack.pop()
        n = i.arg
        v = f.stack[len(f.stack) - n:]
        del f.stack[len(f.stack) - n:]
        f.stack.append(dict(zip(keys, v)))

    def op_BUILD_STRING(self, f, i):
        n = i.arg
        v = f.stack[len(f.stack) - n:]
        del f.stack[len(f.stack) - n:]
        if any(isinstance(x, self.models.SymText) for x in v):
            f.stack.append(self.models.cat(v))
            return
        segs = []
        for x in v:
            segs.extend(strsegs(x))
        f.stack.append(mkstr(segs))

    def op_BUILD_SLICE(self, f, i):
        n = i.arg
        v = f.stack[len(f.stack) - n:]
        del f.stack[len(f.stack) - n:]
        f.stack.append(slice(*v))

    def op_FORMAT_VALUE(self, f, i):
        spec = f.stack.pop() if i.arg & 4 else ""
        v = f.stack.pop()
        conv = i.arg & 3
        if conv == 1:
            v = self.models.to_str(self, v)
        elif conv == 2:
            v = self.models.to_repr(self, v)
        elif conv == 3:
            v = self.models.to_repr(self, v)
        f.stack.append(self.models.fmt(self, v, spec))

    def op_LIST_APPEND(self, f, i):
        v = f.stack.pop()
        lst = f.stack[-i.arg]
        if self.spec_mode is not None:
            self.spec_append(lst, v)
        else:
            lst.append(v)

    def op_SET_ADD(self, f, i):
        v = f.stack.pop()
        if isinstance(v, Sym):
            raise Unsupported("symbolic set element")
        self.native(f.stack[-i.arg].add, v)

    def op_MAP_ADD(self, f, i):
        v = f.stack.pop()
        k = f.stack.pop()
        self.models.store_subscr(self, f.stack[-i.arg], k, v)

    def op_LIST_EXTEND(self, f, i):
        v = f.stack.pop()
        self.models.list_extend(self, f.stack[-i.arg], v)

    def op_SET_UPDATE(self, f, i):
        v = f.stack.pop()
        self.native(f.stack[-i.arg].update, v)

    def op_DICT_UPDATE(self, f, i):
        v = f.stack.pop()
        if isinstance(v, Sym):
            raise Unsupported(f"merge of {v!r}")
        self.models.dict_all(v)
        self.native(f.stack[-i.arg].update, v)

    op_DICT_MERGE = op_DICT_UPDATE

    def op_UNPACK_SEQUENCE(self, f, i):
        v = f.stack.pop()
        vals = self.models.unpack_seq(self, v, i.arg)
        f.stack.extend(reversed(vals))

    def op_UNPACK_EX(self, f, i):
        v = f.stack.pop()
        vals = self.models.to_list(self, v)
        before, after = i.arg & 0xFF, i.arg >> 8
        if len(vals) < before + after:
            pyraise(ValueError("not enough values to unpack"))
        mid = vals[before:len(vals) - after]
        out = vals[:before] + [mid] + vals[len(vals) - after:]
        f.stack.extend(reversed(out))

    def op_SWAP(self, f, i):
        s = f.stack
        s[-1], s[-i.arg] = s[-i.arg], s[-1]

    def op_COPY(self, f, i):
        f.stack.append(f.stack[-i.arg])

    def op_GET_LEN(self, f, i):
        f.stack.append(self.models.length(self, f.stack[-1]))

    def op_GET_ITER(self, f, i):
        f.stack.append(self.get_iter(f.stack.pop()))

    def op_GET_YIELD_FROM_ITER(self, f, i):
        v = f.stack.pop()
        f.stack.append(v if isinstance(v, IGen) else self.get_iter(v))

    def op_FOR_ITER(self, f, i):
        it = f.stack[-1]
        while True:
            ok, v = it.nxt(self, True) if type(it) in (SeqIter, FilterIter) else self.nxt(it)
            if ok and isinstance(v, Guarded):
                k = Ctx.path.quick(v.c)
                if k is None and self._merge_body(f, v):
                    return
                if not (decide(v.c) if k is None else k):
                    continue
                v = v.v
            break
        if ok:
            f.stack.append(v)
        else:
            f.stack.pop()
            f.pc = i.tgt + 1

    def op_SEND(self, f, i):
        v = f.stack.pop()
        r = f.stack[-1]
        if isinstance(r, IGen):
            try:
                f.stack.append(r.send(self, v))
            except PyExc as e:
                if isinstance(e.exc, StopIteration):
                    f.stack.append(e.exc.value)
                    f.pc = i.tgt
                else:
                    raise
        else:
            ok, x = self.nxt(r)
            if ok:
                f.stack.append(x)
            else:
                f.stack.append(None)
                f.pc = i.tgt

    def op_JUMP_FORWARD(self, f, i):
        f.pc = i.tgt

    op_JUMP_BACKWARD = op_JUMP_BACKWARD_NO_INTERRUPT = op_JUMP_FORWARD

    def op_POP_JUMP_IF_FALSE(self, f, i):
        self._branch(f, f.stack.pop(), i.tgt, f.pc)

    def op_POP_JUMP_IF_TRUE(self, f, i):
        self._branch(f, f.stack.pop(), f.pc, i.tgt)

    def _branch(self, f, v, on_false, on_true):
        if v is True or v is False:
            f.pc = on_true if v else on_false
            return
        c = self.models.truth_cond(self, v)
        if c is TRUE or c is FALSE:
            f.pc = on_true if c is TRUE else on_false
            return
        if self.spec_mode is not None:
            raise SpecAbort
        k = Ctx.path.quick(c)
        if k is None and self._merge(f, c, on_false, on_true):
            return
        f.pc = on_true if Ctx.path.decide(c) else on_false

    def op_POP_JUMP_IF_NONE(self, f, i):
        v = f.stack.pop()
        self._branch(f, mkbool(self.models.is_(self, v, None)), f.pc, i.tgt)

    def op_POP_JUMP_IF_NOT_NONE(self, f, i):
        v = f.stack.pop()
        self._branch(f, mkbool(not_(self.models.is_(self, v, None))), f.pc, i.tgt)

    # -------- merging of "if c: list.append(x)"
    def _resolve(self, info, pc):
        for _ in range(8):
            i = info.ins[pc]
            if i.op in ("JUMP_FORWARD", "JUMP_BACKWARD"):
                pc = i.tgt
            elif i.op == "NOP":
                pc += 1
            else:
                break
        return pc

    def _merge_region(self, info, work, skip):
        """where the paths of a small region that appends one element rejoin (at skip), or None"""
        j = self._resolve(info, skip)
        key = work, j
        if key not in info.regions:
            todo, seen, app = [work], set(), 0
            while todo and app is not None:
                pc = self._resolve(info, todo.pop())
                if pc == j or pc in seen:
                    continue
                seen.add(pc)
                i = info.ins[pc]
                if i.op not in MERGE_OK or len(seen) > 40:
                    app = None
                elif i.op in ("LIST_APPEND", "YIELD_VALUE", "BINARY_OP") or i.op == "LOAD_ATTR" and i.val == "append":
                    app += 1
                if i.op.startswith("POP_JUMP"):
                    todo.append(i.tgt)
                todo.append(pc + 1)
            info.regions[key] = app == 1
        return j if info.regions[key] else None

    def _merge(self, f, c, on_false, on_true):
        info = f.info
        for work, skip, cond in ((on_true, on_false, c), (on_false, on_true, not_(c))):
            j = self._merge_region(info, work, skip)
            if j is not None and self._merge_run(f, work, j, [cond, None]):
                return True
        return False

    def _merge_body(self, f, x):
        """the body of a for loop for an element that is there under a condition"""
        info = f.info
        j = f.pc - 1
        if self._merge_region(info, f.pc, j) is None:
            return False
        stored = {}
        depth = len(f.stack)
        f.stack.append(x.v)
        if self._merge_run(f, f.pc, j, [x.c, None, stored], depth):
            for k in stored:
                f.fast[k] = Junk(f"{k}, a variable of a loop")
            return True
        for k, v in stored.items():
            if v is NULL:
                f.fast.pop(k, None)
            else:
                f.fast[k] = v
        f.stack.pop()
        return False

    def _merge_run(self, f, work, j, mode, depth=None):
        info = f.info
        stack = list(f.stack)
        pc, last = f.pc, f.last
        depth = len(stack) if depth is None else depth
        self.spec_mode = mode
        try:
            f.pc = work
            for _ in range(60):
                if self._resolve(info, f.pc) == j:
                    break
                i = info.ins[f.pc]
                if i.op not in MERGE_OK:
                    raise SpecAbort
                f.pc += 1
                i.h(self, f, i)
            else:
                raise SpecAbort
            if len(f.stack) != depth:
                raise SpecAbort
            f.pc = j
            f.last = last
            # jumping backwards to a loop head must be seen as a back edge
            for h, body in info.heads.items():
                if h == j and last in body:
                    f.last = last
            return True
        except (SpecAbort, PyExc, Unsupported):
            if mode[1] is not None:
                mode[1].pop()
            f.stack[:] = stack
            f.pc, f.last = pc, last
            return False
        finally:
            self.spec_mode = None

    def spec_append(self, lst, v):
        if self.spec_mode[1] is not None or not isinstance(lst, list):
            raise SpecAbort
        lst.append(Guarded(self.spec_mode[0], v))
        self.spec_mode[1] = lst

    # -------- calls
    def op_KW_NAMES(self, f, i):
        f.kw = i.val

    def op_CALL(self, f, i):
        n = i.arg
        s = f.stack
        args = s[len(s) - n:] if n else []
        if n:
            del s[len(s) - n:]
        b = s.pop()
        a = s.pop()
        if a is NULL:
            fn = b
        else:
            fn = a
            args = [b] + args
        kw = {}
        if f.kw:
            k = len(f.kw)
            kw = dict(zip(f.kw, args[len(args) - k:]))
            args = args[:len(args) - k]
            f.kw = ()
        if self.spec_mode is not None:
            if type(fn) is types.BuiltinMethodType and fn.__name__ == "append" and isinstance(fn.__self__, list):
                self.spec_append(fn.__self__, args[0])
                s.append(None)
                return
            raise SpecAbort
        s.append(self.call(fn, tuple(args), kw))

    def op_CALL_FUNCTION_EX(self, f, i):
        kw = f.stack.pop() if i.arg & 1 else {}
        args = f.stack.pop()
        fn = f.stack.pop()
        nul_ = f.stack.pop()
        f.stack.append(self.call(fn, tuple(self.models.to_list(self, args)), dict(kw)))

    def op_MAKE_FUNCTION(self, f, i):
        code = f.stack.pop()
        closure = f.stack.pop() if i.arg & 8 else ()
        ann = f.stack.pop() if i.arg & 4 else ()
        kwd = f.stack.pop() if i.arg & 2 else None
        d = f.stack.pop() if i.arg & 1 else ()
        fn = IFunc(code, f.globs, None, d, kwd, closure)
        if ann:
            fn.__annotations__ = dict(zip(ann[::2], ann[1::2]))
        f.stack.append(fn)

    def op_LOAD_BUILD_CLASS(self, f, i):
        f.stack.append(_build_class)

    def op_LOAD_ASSERTION_ERROR(self, f, i):
        f.stack.append(AssertionError)

    def op_IMPORT_NAME(self, f, i):
        fromlist = f.stack.pop()
        level = f.stack.pop()
        name = i.val
        if level:
            pkg = f.globs.get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = f"{pkg}.{name}" if name else pkg
        if self.mine(name):
            m = self.import_module(name)
            if not fromlist:
                m = self.modules[name.split(".")[0]]
            f.stack.append(m)
        else:
            f.stack.append(self.native(__import__, name, f.globs, None, fromlist, 0))

    def op_IMPORT_FROM(self, f, i):
        m = f.stack[-1]
        if not hasattr(m, i.val) and self.mine(m.__name__):
            f.stack.append(self.import_module(m.__name__ + "." + i.val))
        else:
            try:
                f.stack.append(getattr(m, i.val))
            except AttributeError:
                pyraise(ImportError(f"cannot import name {i.val!r} from {m.__name__!r}"))

    def op_CALL_INTRINSIC_1(self, f, i):
        n = i.arg
        if n == 3:
            e = f.stack.pop()
            if isinstance(e, StopIteration):
                r = RuntimeError("generator raised StopIteration")
                r.__cause__ = e
                e = r
            f.stack.append(e)
        elif n == 5:
            f.stack.append(self.models.unary(self, "+", f.stack.pop()))
        elif n == 6:
            f.stack.append(tuple(f.stack.pop()))
        elif n == 2:
            m = f.stack.pop()
            for k in getattr(m, "__all__", [k for k in m.__dict__ if not k.startswith("_")]):
                f.ns[k] = getattr(m, k)
            f.stack.append(None)
        else:
            raise Unsupported(f"intrinsic {n}")

    # -------- generators
    def op_RETURN_GENERATOR(self, f, i):
        g = IGen(f)
        f.gen = g
        return ("gen", g)

    def op_YIELD_VALUE(self, f, i):
        if self.spec_mode is not None:
            if f.collect is None:
                raise SpecAbort
            self.spec_append(f.collect, f.stack.pop())
            f.stack.append(None)
            return None
        return ("yield", f.stack.pop())

    def op_RETURN_VALUE(self, f, i):
        return ("return", f.stack.pop())

    def op_RETURN_CONST(self, f, i):
        return ("return", i.val)

    # -------- exceptions
    def op_RAISE_VARARGS(self, f, i):
        if i.arg == 0:
            if self.curexc is None:
                pyraise(RuntimeError("No active exception to reraise"))
            raise PyExc(self.curexc)
        cause = f.stack.pop() if i.arg == 2 else None
        e = f.stack.pop()
        if isinstance(e, type):
            e = self.call(e, ())
        if cause is not None:
            e.__cause__ = cause if not isinstance(cause, type) else cause()
        raise PyExc(e)

    def op_RERAISE(self, f, i):
        e = f.stack.pop()
        raise PyExc(e)

    def op_PUSH_EXC_INFO(self, f, i):
        e = f.stack.pop()
        f.stack.append(self.curexc)
        f.stack.append(e)
        self.curexc = e

    def op_POP_EXCEPT(self, f, i):
        self.curexc = f.stack.pop()

    def op_CHECK_EXC_MATCH(self, f, i):
        t = f.stack.pop()
        f.stack.append(isinstance(f.stack[-1], t))

    def op_BEFORE_WITH(self, f, i):
        m = f.stack.pop()
        ex = self.load_attr(m, "__exit__")
        en = self.load_attr(m, "__enter__")
        f.stack.append(ex)
        f.stack.append(self.call(en, ()))

    def op_WITH_EXCEPT_START(self, f, i):
        e = f.stack[-1]
        ex = f.stack[-4]
        f.stack.append(self.call(ex, (type(e), e, None)))


def _build_class(body, name, *bases, **kw):
    """__build_class__ for interpreted class bodies"""
    interp = Ctx.interp
    given, bases = bases, types.resolve_bases(bases)
    meta, ns, kw = types.prepare_class(name, bases, kw)
    if given != bases:
        ns["__orig_bases__"] = given
    f = Frame(body, body.__globals__, CodeInfo.of(body.__code__), ns)
    kind, cell = interp.run(f)
    cls = meta(name, bases, ns, **kw)
    return cls
