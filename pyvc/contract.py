"""Contracts: a function of the code under verification and a specification function with equal outcome.

No solver is needed to import this module, so contracts can also be run natively.
"""


class Bytes:
    """arbitrary bytes of at least n (at most m) bytes"""

    def __init__(self, name, n=0, m=None):
        self.name, self.n, self.m = name, n, m


class Int:
    def __init__(self, name, lo=None, hi=None):
        self.name, self.lo, self.hi = name, lo, hi


class Bool:
    def __init__(self, name):
        self.name = name


class Codec:
    """the name of an arbitrary code page"""

    def __init__(self, name="cp"):
        self.name = name


class Text:
    def __init__(self, name):
        self.name = name


class Const:
    name = None

    def __init__(self, v):
        self.v = v


class Contract:
    """impl(*args) and spec(*args) have the same outcome: value (or exception type) and number of warnings

    pre      predicate that restricts the arguments
    ghost    spec is a generator that yields at its loop head and runs in lockstep with the code's loop
    warns    compare the number of warnings
    raises   without spec: the exception types that may leave impl (nothing else is claimed of its value)
    uses     call-site contracts (pyvc.callsite) that replace callees verified by other contracts
    on       for the report: the functions this contract is about
    alt      further specifications with the same outcome, written with other loops: the code is verified against
             any one of them; natively it runs against all of them
    gen      generator of native test inputs (gens.py)
    alike    exception types that need not be told apart
    bound    unroll loops at most so often: a bounded check, never counted as proved
    """

    def __init__(self, name, impl, spec, args, pre=None, ghost=False, warns=True, raises=None, uses=(), seconds=100,
                 bound=None, paths=6000, gen=None, native=True, alt=(), alike=()):
        self.name, self.impl, self.spec, self.args, self.pre, self.ghost = name, impl, spec, args, pre, ghost
        self.warns, self.raises, self.uses, self.seconds, self.bound = warns, raises, tuple(uses), seconds, bound
        self.paths, self.gen, self.native, self.alt = paths, gen, native, tuple(alt)
        self.alike = tuple(alike)
