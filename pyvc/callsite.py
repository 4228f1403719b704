"""Call-site contracts: calls replaced by the (separately verified) specification of the callee.

The result of a deterministic function whose contract is verified elsewhere is an uninterpreted value named by the
specification function and its arguments.  Code and specification then refer to the same value.
"""
import struct

from .values import *
from . import models as M
from . import terms as T
from . import interp as IN


def opaque(I, name, args, typ, raises=None):
    key, lins = [], ()
    for a in args:
        if isinstance(a, SymBytes) and entails(T.eq(rope_len(a.segs), ZERO)):
            a = b""
        k, l = flatten_key(a)
        key.append(k)
        lins += l
    key = tuple(key)
    p = Ctx.path
    if raises is not None:
        if not decide(ufb(uname("ok", name, key), lins)):
            pyraise(raises("contract"))
    p.warn(uf(uname("warns", name, key), lins, 0))
    if typ is str:
        return SymStr((("o", name, key, lins),))
    return Opq(name, key, lins, typ)


def method(f):
    """contract for a method: f(I, self, *args)"""
    k = f.__code__.co_argcount - len(f.__defaults__ or ()) - 2

    def c(I, fn, a, kw):
        try:
            b = I.bind(fn, a, kw).fast
        except PyExc:
            return NotImplemented
        names = fn.__code__.co_varnames[:fn.__code__.co_argcount]
        if len(names) < k or len(a) + len(kw) > k or any(n not in names[:k] for n in kw):
            # parameters the contract does not know, other than by their defaults
            return NotImplemented
        return f(I, fn, *[b[n] for n in names[:k]])
    return c


def nolen(v):
    return is_bytes(v) or isinstance(v, bytes)


# ---------------------------------------------------------------- text
def t_text(I, b, cp):
    r = opaque(I, "text", (b, cp), str)
    seg = r.segs[0]
    st, ls = seg_id(seg)
    n = rope_len(rope(b))
    ln = uf(uname("len", st), ls, 0)
    Ctx.path.axiom(le(ln, n))
    return r


def t_utext(I, b):
    r = opaque(I, "utext", (b,), str)
    st, ls = seg_id(r.segs[0])
    Ctx.path.axiom(le(uf(uname("len", st), ls, 0), rope_len(rope(b))))
    return r


def c_read(I, fn, self, b):
    if not is_bytes(b):
        return NotImplemented
    return t_text(I, b, self.cp)


def c_uread(I, fn, self, b):
    if not is_bytes(b):
        return NotImplemented
    return t_utext(I, b)


def use_text(I):
    I.contracts["LnkParse3.text_processor", "TextProcessor.read_string"] = method(c_read)
    I.contracts["LnkParse3.text_processor", "TextProcessor.read_unicode_string"] = method(c_uread)
    I.contracts["specs.base", "ctext"] = lambda I, fn, a, kw: t_text(I, *a)
    I.contracts["specs.base", "utext"] = lambda I, fn, a, kw: t_utext(I, *a)


class OneIter(IN.It):
    """an iterator over one value computed on demand"""

    def __init__(self, f):
        self.f, self.pos = f, 0

    def nxt(self, interp):
        if self.pos:
            return False, None
        self.pos = 1
        return True, self.f()


def c_chars(I, fn, a, kw):
    """TextProcessor.read_strings.<locals>._chars_to_string(lst): yields the decoded concatenation"""
    cells = dict(zip(fn.__code__.co_freevars, fn.__closure__ or ()))
    if len(a) != 1 or kw or "self" not in cells or not fn.__code__.co_flags & IN.CO_GENERATOR:
        return NotImplemented
    self = cells["self"].cell_contents
    b = M.join_bytes(I, b"", a[0])
    return OneIter(lambda: opaque(I, "decode", (b, self.cp), str))


class PieceIter(IN.It):
    """the NUL terminated pieces of a string of bytes, one for each request"""

    def __init__(self, b, cp):
        self.b, self.cp = b, cp

    def nxt(self, interp):
        if self.b is None:
            return False, None
        r = rope(self.b)
        i = M.bytes_find(interp, self.b, b"\x00", None, None)
        if type(i) is int and i == -1:
            b, self.b = self.b, None
        else:
            n = lin(i)
            b, self.b = mkbytes(rope_slice(r, ZERO, n)), mkbytes(rope_slice(r, add(n, ONE), rope_len(r)))
        return True, opaque(interp, "decode", (b, self.cp), str)


def c_strings(I, fn, self, b):
    if not is_bytes(b):
        return NotImplemented
    return PieceIter(b, self.cp)


def use_strings(I):
    I.contracts["LnkParse3.text_processor", "TextProcessor.read_strings"] = method(c_strings)
    I.contracts["specs.base", "decode"] = lambda I, fn, a, kw: opaque(I, "decode", tuple(a), str)


def use_decode(I):
    I.contracts["LnkParse3.text_processor", "TextProcessor.read_strings.<locals>._chars_to_string"] = c_chars
    I.contracts["specs.base", "decode"] = lambda I, fn, a, kw: opaque(I, "decode", tuple(a), str)


# ---------------------------------------------------------------- items
def t_item(I, k, r, cp):
    """the report of an item, or struct.error; the same for equal bytes"""
    k = concretize(k) if isinstance(k, Sym) else k
    key, lins = flatten_key((k, r, cp))
    if not decide(ufb(uname("ok", "item", key), lins)):
        pyraise(struct.error("item"))
    return opaque(I, "item", (k, r, cp), dict)


def resolved(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            return c.__dict__[name]
    raise Unsupported(f"{cls.__name__} has no {name}")


def use_items(I, kinds=None):
    """as_item of the item classes gives the specified report; the constructor may fail in its place"""
    m = I.import_module("specs.items")
    kind_of = {c: k for k, c in m.CLASSES.items() if kinds is None or k in kinds}
    inits = {}

    def as_item(I, fn, self):
        k = kind_of.get(type(self))
        if k is None or resolved(type(self), "as_item") is not fn or "_raw" not in self.__dict__:
            return NotImplemented
        return t_item(I, k, self._raw, self.cp)

    def init(I, fn, a, kw):
        if not a:
            return NotImplemented
        self = a[0]
        k = kind_of.get(type(self))
        if k is None or resolved(type(self), "__init__") is not fn or len(a) != 1 or set(kw) != {"indata", "cp"}:
            return NotImplemented
        self._raw, self.cp, self.name = kw["indata"], kw["cp"], k
        key, lins = flatten_key((k, self._raw, self.cp))
        if decide(not_(ufb(uname("ok", "item", key), lins))) and decide(ufb(uname("early", "item", key), lins)):
            pyraise(struct.error("item"))
        return None

    for c in kind_of:
        f = resolved(c, "as_item")
        I.contracts[f.__module__, f.__qualname__] = method(as_item)
        f = resolved(c, "__init__")
        I.contracts[f.__module__, f.__qualname__] = init
    if kinds is None:
        I.contracts["specs.items", "item"] = lambda I, fn, a, kw: t_item(I, *a)
    else:
        for k in kinds:
            I.contracts["specs.items", m.DECODERS[k].__name__] = lambda I, fn, a, kw, k=k: t_item(I, k, *a)


def use_file(I):
    use_items(I, ("file",))


# ---------------------------------------------------------------- sections of a link
def t_size(I, name, args, typ=int):
    """an unknown non-negative number determined by the arguments"""
    key, lins = keys(args)
    return mkint(uf(uname(name, key), lins, 0))


def keys(args):
    key, lins = [], ()
    for a in args:
        if isinstance(a, SymBytes) and entails(T.eq(rope_len(a.segs), ZERO)):
            a = b""
        k, l = flatten_key(a)
        key.append(k)
        lins += l
    return tuple(key), lins


def section(I, module, cls, sig, methods):
    """the objects of a class are determined by the constructor's arguments, so are the results of its methods

    sig: names of the constructor's parameters that matter, with defaults; methods: name -> f(I, args)
    """
    m = I.import_module(module)
    c = getattr(m, cls)

    def init(I, fn, a, kw):
        try:
            b = I.bind(fn, a, kw).fast
        except PyExc:
            return NotImplemented
        self = b["self"]
        if type(self) is not c or not all(n in b for n, _ in sig):
            return NotImplemented
        args = tuple(f(I, b[n]) for n, f in sig)
        self.__dict__["section of the contract"] = args
        key, lins = keys(args)
        Ctx.path.warn(uf(uname("warns", cls, key), lins, 0))
        if "init" in methods:
            methods["init"](I, args)
        return None

    f = resolved(c, "__init__")
    I.contracts[f.__module__, f.__qualname__] = init
    for name, h in methods.items():
        if name == "init":
            continue

        def call(I, fn, self, h=h, name=name):
            if type(self) is not c or "section of the contract" not in self.__dict__ or resolved(c, name) is not fn:
                return NotImplemented
            return h(I, self.__dict__["section of the contract"])

        f = resolved(c, name)
        I.contracts[f.__module__, f.__qualname__] = method(call)


def same(I, v):
    return v


def use_extras(I):
    """ExtraData: a report and a size determined by the bytes, the code page and whether terminal data is allowed"""
    sig = (("indata", same), ("cp", same), ("allow_terminal_blocks", truth_value))
    section(I, "LnkParse3.extra_data", "ExtraData", sig, {
        "size": lambda I, a: t_size(I, "extra_size", a), "as_dict": lambda I, a: opaque(I, "extras", a, dict)})
    spec(I, "specs.extra", {
        "parse_warnings": lambda I, a: t_warn(I, "ExtraData", a), "size": lambda I, a: t_size(I, "extra_size", a),
        "report": lambda I, a: opaque(I, "extras", a, dict)})


def truth_value(I, v):
    return mkbool(M.truth_cond(I, v)) if isinstance(v, Sym) else bool(v)


def t_warn(I, name, args):
    key, lins = keys(args)
    Ctx.path.warn(uf(uname("warns", name, key), lins, 0))


def spec(I, mod, fs):
    for n, f in fs.items():
        I.contracts[mod, n] = lambda I, fn, a, kw, f=f: f(I, tuple(a))


def t_optional(I, name, args):
    key, lins = keys(args)
    if not decide(ufb(uname("present", name, key), lins)):
        return None
    return opaque(I, name, args, str)


TEXTS = ("description", "relative_path", "working_directory", "command_line_arguments", "icon_location")


def use_strings_section(I):
    """StringData: texts and a size determined by the link flags, the bytes and the code page"""
    def flags(I, link):
        return I.call(getattr_(I, getattr_(I, link, "header"), "r_link_flags"), (), {})

    sig = (("lnk_file", flags), ("indata", same), ("cp", same))
    m = {"size": lambda I, a: t_size(I, "strings_size", a), "as_dict": lambda I, a: opaque(I, "strings", a, dict)}
    sp = {"warn": lambda I, a: t_warn(I, "StringData", a), "size": lambda I, a: t_size(I, "strings_size", a),
          "report": lambda I, a: opaque(I, "strings", a, dict)}
    for n in TEXTS:
        m[n] = sp[n] = lambda I, a, n=n: t_optional(I, "string " + n, a)
    section(I, "LnkParse3.string_data", "StringData", sig, m)
    spec(I, "specs.strings", sp)


def getattr_(I, o, n):
    return M.load_attr(I, o, n)


def t_targets(I, a):
    """a new list of unknown length, of new reports"""
    key, lins = keys(a)
    t_warn(I, "targets", a)
    n = uf(uname("number of targets", key), lins, 0)
    return [Each(OpqDict(Opq("target", key, lins + (var("any index", 0),), dict)), n)]


def use_targets(I):
    """LnkTargets: the list of items is determined by the bytes and the code page"""
    c = I.import_module("LnkParse3.lnk_targets").LnkTargets
    real = resolved(c, "__init__")

    def init(I, fn, a, kw):
        try:
            b = I.bind(fn, a, kw).fast
        except PyExc:
            return NotImplemented
        if type(b["self"]) is not c or "indata" not in b or "cp" not in b:
            return NotImplemented
        b["self"].__dict__["section of the contract"] = (b["indata"], b["cp"])
        return NotImplemented

    I.contracts[real.__module__, real.__qualname__] = init

    def as_list(I, fn, self):
        if type(self) is not c or "section of the contract" not in self.__dict__ or resolved(c, "as_list") is not fn:
            return NotImplemented
        return t_targets(I, self.__dict__["section of the contract"])

    f = resolved(c, "as_list")
    I.contracts[f.__module__, f.__qualname__] = method(as_list)
    spec(I, "specs.items", {"targets": t_targets})


# ---------------------------------------------------------------- extra blocks
MALFORMED = {"metadata": (struct.error, ValueError), "darwin": (struct.error, IndexError)}
WELL_FORMED = ("unknown", "terminal")  # with 4 bytes and more (total.block.unknown, total.block.terminal)


def t_block(I, k, b, cp):
    """the report of a block, or one of the exceptions of a malformed one; the same for equal bytes"""
    k = concretize(k) if isinstance(k, Sym) else k
    key, lins = keys((k, b, cp))
    if k in WELL_FORMED and decide(le(4, rope_len(rope(b)))):
        return opaque(I, "block", (k, b, cp), dict)
    if not decide(ufb(uname("ok", "block", key), lins)):
        es = MALFORMED.get(k, (struct.error,))
        for i, e in enumerate(es[:-1]):
            if decide(eq(uf(uname("err", "block", key), lins, 0), i)):
                pyraise(e("block"))
        pyraise(es[-1]("block"))
    return opaque(I, "block", (k, b, cp), dict)


def use_blocks(I):
    """as_dict of the block classes gives the specified report"""
    m = I.import_module("specs.extra")
    kind_of = {c: k for k, c in m.CLASSES.items()}

    def init(I, fn, a, kw):
        try:
            b = I.bind(fn, a, kw).fast
        except PyExc:
            return NotImplemented
        if type(b["self"]) in kind_of and "indata" in b and "cp" in b:
            b["self"].__dict__["section of the contract"] = (b["indata"], b["cp"])
        return NotImplemented

    def as_dict(I, fn, self):
        k = kind_of.get(type(self))
        if k is None or resolved(type(self), "as_dict") is not fn or "section of the contract" not in self.__dict__:
            return NotImplemented
        return t_block(I, k, *self.__dict__["section of the contract"])

    for c in kind_of:
        f = resolved(c, "as_dict")
        I.contracts[f.__module__, f.__qualname__] = method(as_dict)
        f = resolved(c, "__init__")
        I.contracts[f.__module__, f.__qualname__] = init
    spec(I, "specs.extra", {"block": lambda I, a: t_block(I, *a)})


HEADER = {"link_cls_id": str, "creation_time": None, "access_time": None, "write_time": None,
          "file_size": int, "icon_index": int, "window_style": str, "hot_key": str, "raw_hot_key": int,
          "reserved0": int, "reserved1": int, "reserved2": int}


def t_header(I, name, raw):
    key, lins = keys((raw,))
    t_warn(I, "header " + name, (raw,))
    typ = HEADER[name]
    if typ is int:
        lo = -1 << 31 if name == "icon_index" else 0
        return mkint(uf(uname("header", name, key), lins, lo, (1 << 32) - 1))
    if typ is str:
        return SymStr((("o", "header " + name, key, lins),))
    return Opq("header " + name, key, lins, None)


def use_header(I):
    """the header's fields are determined by its bytes; raw flags and size are not replaced"""
    c = I.import_module("LnkParse3.lnk_header").LnkHeader
    specs = I.import_module("specs.header")

    def flags(name):
        def call(I, fn, self):
            if type(self) is not c or resolved(c, name) is not fn or "_raw" not in self.__dict__:
                return NotImplemented
            raw = self.__dict__["_raw"]
            return names(I, name, raw)
        return call

    def names(I, name, raw):
        """the flag names of the specification, computed once per path"""
        r = rope(raw)
        if not entails(T.le(28, rope_len(r))):
            return NotImplemented
        memo = Ctx.path.memo
        k = (name, keys((mkbytes(rope_slice(r, ZERO, L(28))),)))
        if k not in memo:
            memo[k] = I.invoke(getattr(specs, name), (raw,), {})
        return list(memo[k])

    for n in ("link_flags", "file_flags"):
        f = resolved(c, n)
        I.contracts[f.__module__, f.__qualname__] = method(flags(n))
        I.contracts["specs.header", n] = lambda I, fn, a, kw, n=n: names(I, n, *a)

    def value(name):
        def call(I, fn, self):
            # the functions a decorated method is made of share its name; only the outermost one is the method
            if type(self) is not c or resolved(c, name) is not fn or "_raw" not in self.__dict__:
                return NotImplemented
            return t_header(I, name, self.__dict__["_raw"])
        return call

    def field(name):
        def call(I, fn, a, kw):
            r = rope(a[0])
            if not entails(T.le(76, rope_len(r))):
                return NotImplemented
            return t_header(I, name, mkbytes(rope_slice(r, ZERO, L(76))))
        return call

    for n in HEADER:
        f = resolved(c, n)
        I.contracts[f.__module__, f.__qualname__] = method(value(n))
        I.contracts["specs.header", n] = field(n)


def i_num(name, when=None):
    """a 32-bit number, None unless the condition when holds"""
    return lambda I, x: x.number(name) if when is None or when(x) else None


def i_str(name, when):
    return lambda I, x: x.text(name) if when(x) else None


class Info:
    """the fields of a link info as functions of its bytes and code page

    A field that lies outside the bytes raises struct.error; the accessors then depend on each other as in MS-SHLLINK.
    """

    def __init__(self, I, raw, cp):
        self.I, self.raw, self.cp = I, raw, cp

    def number(self, name):
        key, lins = keys((self.raw,))
        if not decide(ufb(uname("ok", "info", name, key), lins)):
            pyraise(struct.error("info"))
        return mkint(uf(uname("info", name, key), lins, 0, (1 << 32) - 1))

    def text(self, name):
        return opaque(self.I, "info " + name, (self.raw, self.cp), str)

    def true(self, name):
        return decide(not_(eq(lin(self.number(name)), 0)))

    def known(self, name):
        key, lins = keys((self.raw,))
        return decide(ufb(uname("info has", name, key), lins))

    def unicode(self):
        return self.known("unicode offsets")

    def unicode_label(self):
        return decide(eq(lin(self.number("volume_label_offset")), 0x14))

    def unicode_names(self):
        return decide(T.lt(20, lin(self.number("net_name_offset"))))

    def drive(self):
        self.number("r_drive_type")
        return self.known("drive type")

    def provider(self):
        self.number("common_network_relative_link_flags")
        self.number("r_network_provider_type")
        return self.known("provider type")


def info_fields():
    r = {n: i_num(n) for n in (
        "volume_id_offset", "local_base_path_offset", "common_network_relative_link_offset",
        "common_path_suffix_offset")}
    for n in ("local_base_path", "common_path_suffix"):
        r[n] = i_str(n, lambda x, n=n: x.true(n + "_offset"))
        r[n + "_offset_unicode"] = i_num(n + "_offset_unicode", Info.unicode)
        r[n + "_unicode"] = i_str(n + "_unicode", lambda x, n=n: x.unicode() and x.true(n + "_offset_unicode"))
    local = {n: i_num(n) for n in ("volume_id_size", "r_drive_type", "volume_label_offset")}
    local["drive_serial_number"] = lambda I, x: (x.number("drive_serial_number"), x.text("drive_serial_number"))[1]
    local["drive_type"] = i_str("drive_type", Info.drive)
    local["volume_label"] = i_str("volume_label", lambda x: not x.unicode_label())
    local["volume_label_unicode_offset"] = i_num("volume_label_unicode_offset", Info.unicode_label)
    local["volume_label_unicode"] = i_str(
        "volume_label_unicode", lambda x: x.unicode_label() and x.true("volume_label_unicode_offset"))
    net = {n: i_num(n) for n in ("common_network_relative_link_size", "common_network_relative_link_flags",
                                 "net_name_offset", "device_name_offset")}
    net["r_network_provider_type"] = \
        lambda I, x: (x.number("r_network_provider_type"), x.text("r_network_provider_type"))[1]
    net["network_provider_type"] = i_str("network_provider_type", Info.provider)
    for n in ("net_name", "device_name"):
        net[n] = i_str(n, lambda x: not x.unicode_names())
        net[n + "_offset_unicode"] = i_num(n + "_offset_unicode", Info.unicode_names)
        net[n + "_unicode"] = i_str(
            n + "_unicode", lambda x, n=n: x.unicode_names() and (x.number(n + "_offset_unicode"), True)[1])
    return r, local, net


def use_info(I):
    """the accessors of LnkInfo, Local and Network; size, header_size and flags are not replaced"""
    base = I.import_module("LnkParse3.lnk_info").LnkInfo
    local = I.import_module("LnkParse3.info.local").Local
    net = I.import_module("LnkParse3.info.network").Network
    common, l, n = info_fields()
    fields = {base: common, local: dict(common, **l), net: dict(common, **n)}
    owners = {}

    def call(I, fn, self, name):
        fs = fields.get(type(self))
        if fs is None or name not in fs or resolved(type(self), name) is not fn:
            return NotImplemented
        d = self.__dict__
        if "_raw" not in d or "text_processor" not in d:
            return NotImplemented
        return fs[name](I, Info(I, d["_raw"], d["text_processor"].cp))

    for c, fs in fields.items():
        for name in fs:
            f = resolved(c, name)
            I.contracts[f.__module__, f.__qualname__] = method(
                lambda I, fn, self, name=name: call(I, fn, self, name))


def use_sections(I):
    use_extras(I)
    use_strings_section(I)
    use_targets(I)


def t_malformed(I, name, args, es):
    """an unknown dict determined by the arguments, or one of the exceptions es"""
    key, lins = keys(args)
    if not decide(ufb(uname("ok", name, key), lins)):
        for e in es[:-1]:
            if decide(ufb(uname("err", e.__name__, name, key), lins)):
                pyraise(e(name))
        pyraise(es[-1](name))
    return opaque(I, name, args, dict)


def raw_dict(I, cls, f):
    """as_dict of the objects of a class is determined by _raw"""
    def as_dict(I, fn, self):
        if type(self) is not cls or "_raw" not in self.__dict__:
            return NotImplemented
        return f(I, self.__dict__["_raw"])

    g = resolved(cls, "as_dict")
    I.contracts[g.__module__, g.__qualname__] = method(as_dict)


def use_values(I):
    m = I.import_module("LnkParse3.extra.metadata")
    es = (struct.error, ValueError)
    raw_dict(I, m.SerializedPropertyValueStringName, lambda I, b: t_malformed(I, "value", (True, b), es))
    raw_dict(I, m.SerializedPropertyValueIntegerName, lambda I, b: t_malformed(I, "value", (False, b), es))
    spec(I, "specs.extra", {"value": lambda I, a: t_malformed(I, "value", (concretize(a[0]), a[1]), es)})


def use_storages(I):
    m = I.import_module("LnkParse3.extra.metadata")
    es = (struct.error, ValueError)
    raw_dict(I, m.SerializedPropertyStorage, lambda I, b: t_malformed(I, "storage", (b,), es))
    spec(I, "specs.extra", {"storage": lambda I, a: t_malformed(I, "storage", a, es)})


def use_link(I):
    """LnkFile: the reports and the command are determined by the contents, the code page and the last argument

    The contents are what the file gives when it is read, or else the bytes given.
    """
    c = I.import_module("LnkParse3.lnk_file").LnkFile
    h = I.import_module("LnkParse3.lnk_header").LnkHeader
    specs = I.import_module("specs.cli")

    def init(I, fn, a, kw):
        try:
            b = I.bind(fn, a, kw).fast
        except PyExc:
            return NotImplemented
        self = b["self"]
        if type(self) is not c or not all(n in b for n in ("fhandle", "indata", "cp", "allow_terminal_blocks")):
            return NotImplemented
        f, cp, pr = b["fhandle"], b["cp"], Ctx.path.program
        d = b["indata"] if f is None else I.call(getattr_(I, f, "read"), (), {})
        if pr is not None and isinstance(cp, str) and cp == pr[2]:
            cp = pr[3]
        d_ = self.__dict__
        if d is not None:
            d_["indata"] = d
        d_["cp"], d_["allow_terminal_blocks"] = cp, b["allow_terminal_blocks"]
        d_["header"] = I.call(h, (), {"indata": d})
        x = d_["link of the contract"] = (d, cp, truth_value(I, b["allow_terminal_blocks"]))
        t_warn(I, "LnkFile", x)
        return None

    def mine(self, name, fn):
        f = resolved(c, name)
        return type(self) is c and "link of the contract" in self.__dict__ and             (f.fget if isinstance(f, property) else f) is fn

    def get_json(I, fn, a, kw):
        try:
            b = I.bind(fn, a, kw).fast
        except PyExc:
            return NotImplemented
        names = fn.__code__.co_varnames[:fn.__code__.co_argcount]
        if not mine(a[0], "get_json", fn) or len(names) < 2 or len(a) > 2 or set(kw) - {names[1]}:
            return NotImplemented
        x = a[0].__dict__["link of the contract"]
        details = bool(I.truth(b[names[1]]))
        key, lins = keys(x + (details,))
        return leaves(I.call(specs.report, (x[0], details), {}), key, lins)

    def command(I, fn, self):
        if not mine(self, "lnk_command", fn):
            return NotImplemented
        return opaque(I, "command", self.__dict__["link of the contract"], str)

    f = resolved(c, "__init__")
    I.contracts[f.__module__, f.__qualname__] = init
    f = resolved(c, "get_json")
    I.contracts[f.__module__, f.__qualname__] = get_json
    f = resolved(c, "lnk_command").fget
    I.contracts[f.__module__, f.__qualname__] = method(command)


def leaves(v, key, lins):
    """the report with leaves that the link determines"""
    if isinstance(v, Opq) and v.typ is Scalar:
        return Opq(v.name, v.key + key, tuple(v.lins) + tuple(lins), Scalar)
    if isinstance(v, dict):
        return {k: leaves(x, key, lins) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(leaves(x, key, lins) for x in v)
    if isinstance(v, Each):
        return Each(leaves(v.elem, key, lins), v.n)
    return v


USES = {"link": use_link, "info": use_info, "header": use_header, "values": use_values, "storages": use_storages, "blocks": use_blocks, "extras": use_extras, "sections": use_sections, "targets": use_targets, "stringdata": use_strings_section,
        "items": use_items, "file": use_file, "strings": use_strings, "decode": use_decode, "text": use_text}
LEMMAS = {"strings": ["text.list"], "text": ["text.read", "text.uread"]}
