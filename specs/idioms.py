"""Idioms of Python that edits of the code may use, each next to a plain form (a self-test of the engine)."""
import binascii
import codecs
import collections
import contextlib
import copy
import dataclasses
import datetime
import enum
import functools
import io
import itertools
import operator
import struct
import types
import typing
import uuid
import warnings
from struct import Struct

from specs.base import *

U32 = Struct("<I")
HEAD = Struct("<IHH")


def p_struct(d):
    return u32(d, 0)


def a_struct_object(d):
    return U32.unpack(d[:4])[0]


def a_struct_from(d):
    return U32.unpack_from(d)[0] if len(d) >= 4 else U32.unpack(d)


def a_struct_size(d):
    return struct.unpack("<I", d[: struct.calcsize("<I")])[0]


def a_struct_size2(d):
    return struct.unpack("<I", d[: U32.size])[0]


def a_partial(d):
    return functools.partial(struct.unpack, "<I")(d[:4])[0]


def a_stream(d):
    return struct.unpack("<I", io.BytesIO(d).read(4))[0]


def a_getter(d):
    return operator.itemgetter(0)(struct.unpack("<I", operator.getitem(d, slice(0, 4))))


def a_slice(d):
    field = slice(0, 4)
    return struct.unpack("<I", d[field])[0]


class Field:
    def __init__(self, offset, fmt):
        self.offset, self.fmt = offset, fmt

    def __get__(self, o, cls=None):
        if o is None:
            return self
        n = struct.calcsize(self.fmt)
        return struct.unpack(self.fmt, o.d[self.offset:self.offset + n])[0]


class Holder:
    first = Field(0, "<I")

    def __init__(self, d):
        self.d = d


def a_descriptor(d):
    return Holder(d).first


@dataclasses.dataclass
class Data:
    d: bytes
    offset: int = 0

    def number(self):
        return struct.unpack("<I", self.d[self.offset:self.offset + 4])[0]


def a_dataclass(d):
    return Data(d).number()


Pair = collections.namedtuple("Pair", "a b")


class Named(typing.NamedTuple):
    a: int
    b: int = 0


def a_namedtuple(d):
    p = Pair(*struct.unpack("<I", d[:4]), b=1)
    return p.a


def a_typed_tuple(d):
    return Named(struct.unpack("<I", d[:4])[0]).a


def a_make(d):
    return Pair._make([struct.unpack("<I", d[:4])[0], 2])._asdict()["a"]


class Cached:
    def __init__(self, d):
        self.d = d

    @functools.cached_property
    def number(self):
        return struct.unpack("<I", self.d[:4])[0]

    @property
    def other(self):
        return self.number

    @staticmethod
    def of(d):
        return Cached(d)

    def __call__(self):
        return self.other

    def __len__(self):
        return len(self.d)


def a_cached(d):
    c = Cached.of(d)
    return c() if c.number == c.other else None


def a_namespace(d):
    n = types.SimpleNamespace(x=struct.unpack("<I", d[:4])[0])
    return n.x


def a_suppress(d):
    with contextlib.suppress(KeyError):
        {}["x"]
    return struct.unpack("<I", d[:4])[0]


@contextlib.contextmanager
def _noted(x):
    try:
        yield x
    finally:
        x.append(1)


def a_manager(d):
    with _noted([]) as x:
        n = struct.unpack("<I", d[:4])[0]
    assert x == [1]
    return n


def a_methodcaller(d):
    return operator.methodcaller("unpack", d[:4])(U32)[0]


def a_shift(d):
    if len(d) < 4:
        raise struct.error
    return d[0] | d[1] << 8 | d[2] << 16 | d[3] << 24


def a_reduce(d):
    if len(d) < 4:
        raise struct.error
    return functools.reduce(lambda a, b: a << 8 | b, reversed(d[:4]))


def a_sum(d):
    if len(d) < 4:
        raise struct.error
    return sum(b << 8 * i for i, b in enumerate(d[:4]))


def a_hex(d):
    if len(d) < 4:
        raise struct.error
    return int(d[3::-1].hex(), 16)


def a_view(d):
    with memoryview(d) as m:
        return struct.unpack("<I", m[:4])[0]


def a_nonlocal(d):
    pos = 0

    def take(fmt):
        nonlocal pos
        n = struct.calcsize(fmt)
        v = struct.unpack(fmt, d[pos:pos + n])[0]
        pos += n
        return v

    lo = take("<H")
    return lo + (take("<H") << 16)


def a_iter(d):
    it = iter(struct.unpack("<HH", d[:4]))
    return next(it) + next(it) * 65536


def a_star(d):
    *_, last = (0, struct.unpack("<I", d[:4])[0])
    return last


def a_deepcopy(d):
    return copy.deepcopy({"a": [struct.unpack("<I", d[:4])[0]]})["a"][0]


def a_copy(d):
    return copy.copy([struct.unpack("<I", d[:4])[0]])[-1]


def a_globals(d):
    return globals()["u32"](d, 0)


def a_chainmap(d):
    return collections.ChainMap({}, {"a": u32(d, 0)})["a"]


def a_ordered(d):
    return collections.OrderedDict([("a", u32(d, 0))])["a"]


def a_default(d):
    x = collections.defaultdict(list)
    x["k"].append(u32(d, 0))
    return x["k"][0]


def a_deque(d):
    q = collections.deque([u32(d, 0)])
    return q.popleft()


def a_setdefault(d):
    x = {}
    x.setdefault("k", []).append(u32(d, 0))
    return x["k"].pop()


def a_walrus(d):
    return n if (n := u32(d, 0)) else 0


def a_try(d):
    try:
        n = u32(d, 0)
    except struct.error as e:
        raise struct.error(f"too short ({e})") from e
    else:
        return n
    finally:
        d = None


# ---------------------------------------------------------------- slices
def p_rest(d):
    return d[3:], d[:3]


def a_stream_rest(d):
    s = io.BytesIO(d)
    a = s.read(3)
    return s.read(), a


def a_stream_seek(d):
    s = io.BytesIO(d)
    s.seek(3)
    b = s.read()
    s.seek(0)
    return b, s.read(3)


def a_stream_value(d):
    s = io.BytesIO(d)
    s.read(2)
    s.read(1)
    return s.getvalue()[s.tell():] if s.tell() == 3 else b"", s.getbuffer()[:3].tobytes()


def a_chain_slices(d):
    return d[1:][1:][1:], d[:10][:3]


def a_islice(d):
    return bytes(itertools.islice(d, 3, None)), bytes(itertools.islice(d, 3))


def a_delete(d):
    b = bytearray(d)
    del b[:3]
    return bytes(b), d[0:3:1]


# ---------------------------------------------------------------- texts of numbers
def p_number(d):
    return "0x" + format(u32(d, 0), "x"), format(u16(d, 0), "04X")


def a_number_hex(d):
    return hex(u32(d, 0)), "%04X" % u16(d, 0)


def a_number_format(d):
    return "{:#x}".format(u32(d, 0)), "{0:04X}".format(u16(d, 0))


def a_number_named(d):
    return "0x%(n)x" % {"n": u32(d, 0)}, f"{u16(d, 0):{'04X'}}"


def a_number_upper(d):
    return "0x" + "{n:x}".format(n=u32(d, 0)), hex(u16(d, 0))[2:].upper().zfill(4)


def a_number_rjust(d):
    return "".join(["0x", f"{u32(d, 0):x}"]), f"{u16(d, 0):x}".upper().rjust(4, "0")


def a_number_map(d):
    return "0x{:x}".format(*[u32(d, 0)]), "{:>04X}".format(u16(d, 0))


# ---------------------------------------------------------------- hexadecimal
def p_bytes_hex(d):
    return need(d, 0, 2).hex(), need(d, 2, 2).hex().upper()


def a_hexlify(d):
    need(d, 0, 4)
    return binascii.hexlify(d[:2]).decode(), binascii.hexlify(d[2:4]).decode("ascii").upper()


def a_hex_join(d):
    need(d, 0, 4)
    return "".join("%02x" % b for b in d[:2]), "".join(f"{b:02X}" for b in d[2:4])


def a_hex_codec(d):
    need(d, 0, 4)
    return codecs.encode(d[:2], "hex").decode(), "".join(map("{:02X}".format, d[2:4]))


# ---------------------------------------------------------------- GUIDs
def p_guid(d):
    return guid(d, 0)


def a_uuid(d):
    need(d, 0, 16)
    return str(uuid.UUID(bytes_le=d[:16])).upper()


def a_uuid_bytes(d):
    need(d, 0, 16)
    b = d[3::-1] + d[5:3:-1] + d[7:5:-1] + d[8:16]
    return f"{uuid.UUID(bytes=b)}".upper()


def a_uuid_hex(d):
    need(d, 0, 16)
    u = uuid.UUID(bytes_le=d[:16])
    h = u.hex.upper()
    return "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:])) if u.bytes_le == d[:16] else None


def a_guid_parts(d):
    need(d, 0, 16)
    h = (d[3::-1] + d[4:6][::-1] + d[6:8][::-1] + d[8:16]).hex().upper()
    return "-".join(h[a:b] for a, b in ((0, 8), (8, 12), (12, 16), (16, 20), (20, 32)))


def a_guid_pairs(d):
    need(d, 0, 16)
    order = (3, 2, 1, 0, None, 5, 4, None, 7, 6, None, 8, 9, None, 10, 11, 12, 13, 14, 15)
    return "".join("-" if i is None else "%02X" % d[i] for i in order)


def a_guid_struct(d):
    need(d, 0, 16)
    a, b, c = HEAD.unpack_from(d)
    return "{:08X}-{:04X}-{:04X}-{}-{}".format(a, b, c, d[8:10].hex().upper(), d[10:16].hex().upper())


def a_guid_fields(d):
    need(d, 0, 16)
    f = struct.unpack("<IHH8B", d[:16])
    return ("%08X-%04X-%04X-%02X%02X-" + "%02X" * 6) % f


# ---------------------------------------------------------------- flags
NAMES = {1: "one", 2: "two", 4: "four", 0x80: "last", **{1 << i: f"bit {i}" for i in range(10, 30)}}


def p_flags(d):
    n = u32(d, 0)
    out = []
    for k in NAMES:
        if n & k:
            out.append(NAMES[k])
    return out


def a_flags_filter(d):
    n = u32(d, 0)
    return [NAMES[k] for k in filter(lambda k: n & k, sorted(NAMES))]


def a_flags_compress(d):
    n = u32(d, 0)
    return list(itertools.compress(NAMES.values(), (n & k for k in NAMES)))


def a_flags_gen(d):
    def names(n):
        for k, v in NAMES.items():
            if n & k == k:
                yield v
    return list(names(u32(d, 0)))


def a_flags_shift(d):
    n = u32(d, 0)
    return [v for k, v in NAMES.items() if n >> k.bit_length() - 1 & 1]


def a_flags_map(d):
    n = u32(d, 0)
    return list(map(NAMES.__getitem__, filter(lambda k: n & k, sorted(NAMES))))


def a_flags_genexp(d):
    n = u32(d, 0)
    return list(NAMES[k] for k in NAMES if n & k)


def a_flags_and(d):
    n = u32(d, 0)
    return [v for k, v in NAMES.items() if (n & k) and v]


def a_flags_continue(d):
    n, out = u32(d, 0), []
    for k, v in sorted(NAMES.items(), key=lambda x: x[0]):
        if not n & k:
            continue
        out.append(v)
    return out


# ---------------------------------------------------------------- lookups
def p_lookup(d):
    n = u8(d, 0)
    if n == 1:
        return "one"
    if n == 2:
        return "two"
    if n == 4:
        return "four"
    if n == 0x80:
        return "last"
    return "none"


def a_lookup_get(d):
    return NAMES.get(u8(d, 0), "none")


def a_lookup_in(d):
    n = u8(d, 0)
    return NAMES[n] if n in NAMES else "none"


def a_lookup_next(d):
    n = u8(d, 0)
    return next((v for k, v in NAMES.items() if k == n), "none")


def a_lookup_try(d):
    try:
        return NAMES[u8(d, 0)]
    except KeyError:
        return "none"


def a_lookup_match(d):
    match u8(d, 0):
        case 1:
            return "one"
        case 2:
            return "two"
        case 4:
            return "four"
        case 0x80:
            return "last"
    return "none"


class Names(dict):
    def __missing__(self, k):
        return "none"


def a_lookup_missing(d):
    return Names(NAMES)[u8(d, 0)]


def a_lookup_index(d):
    n, keys = u8(d, 0), list(NAMES)
    return list(NAMES.values())[keys.index(n)] if n in keys else "none"


def a_lookup_or(d):
    return NAMES.get(u8(d, 0)) or "none"


def a_lookup_for(d):
    n = u8(d, 0)
    for k, v in NAMES.items():
        if k == n:
            break
    else:
        v = "none"
    return v


def a_lookup_func(d):
    t = {k: functools.partial(str, v) for k, v in NAMES.items()}
    return t.get(u8(d, 0), lambda: "none")()


class Kind(enum.Enum):
    ONE = 1
    TWO = 2
    FOUR = 4
    LAST = 0x80


def a_lookup_enum(d):
    try:
        return Kind(u8(d, 0)).name.lower()
    except ValueError:
        return "none"


# ---------------------------------------------------------------- texts
def p_text(d):
    return text(d, None)


def a_text_find(d):
    i = d.find(b"\0")
    return decode(d if i < 0 else d[:i], "cp1252")


def a_text_partition(d):
    return decode(d.partition(b"\0")[0], "cp1252")


def a_text_split(d):
    return decode(d.split(b"\0", 1)[0], "cp1252")


def a_text_index(d):
    try:
        d = d[: d.index(0)]
    except ValueError:
        pass
    return decode(d, "cp1252")


def a_text_while(d):
    i = 0
    while i < len(d) and d[i] != 0:
        i += 1
    return decode(d[:i], "cp1252")


def a_text_take(d):
    return decode(bytes(itertools.takewhile(lambda c: c, d)), "cp1252")


def a_text_for(d):
    for i, c in enumerate(d):
        if not c:
            return decode(d[:i], "cp1252")
    return decode(d, "cp1252")


def a_text_next(d):
    n = next((i for i, c in enumerate(d) if c == 0), len(d))
    return decode(d[:n], "cp1252")


def a_text_in(d):
    if 0 in d:
        d = d[:d.index(b"\0")]
    return decode(d, "cp1252")


def a_text_add(d):
    out = bytearray()
    for c in d:
        if c == 0:
            break
        out.append(c)
    return decode(bytes(out), "cp1252")


def a_text_iter(d):
    it = iter(d)
    return decode(bytes(iter(lambda: next(it, 0), 0)), "cp1252")


def p_utext(d):
    return utext(d)


def a_utext_range(d):
    for i in range(0, len(d) - 1, 2):
        if d[i] == 0 and d[i + 1] == 0:
            return udecode(d[:i])
    return udecode(d)


def a_utext_while(d):
    n = 0
    while len(d) - n >= 2 and d[n:n + 2] != b"\0\0":
        n += 2
    return udecode(d if len(d) - n < 2 else d[:n])


def a_utext_any(d):
    n = next((i for i in range(0, len(d), 2) if not any(d[i:i + 2]) and i + 1 < len(d)), len(d))
    return udecode(d[:n])


# ---------------------------------------------------------------- dates
def p_day(d):
    return dostime_of(need(d, 0, 4))


def a_day_replace(d):
    date, time = struct.unpack("<HH", d[:4])
    if not date | time:
        return None
    try:
        day = datetime.datetime(1980 + (date >> 9), date >> 5 & 15, date & 31)
        return day.replace(hour=time >> 11, minute=time >> 5 & 63, second=2 * (time & 31), tzinfo=datetime.timezone.utc)
    except ValueError:
        warnings.warn("x")


def a_day_combine(d):
    date, time = struct.unpack("<HH", d[:4])
    if (date, time) == (0, 0):
        return None
    try:
        return datetime.datetime.combine(
            datetime.date(1980 + (date >> 9), date >> 5 & 15, date & 31),
            datetime.time(time >> 11, time >> 5 & 63, 2 * (time & 31)), tzinfo=datetime.timezone.utc)
    except ValueError:
        warnings.warn("x")


def a_day_utc(d):
    date, time = struct.unpack("<HH", d[:4])
    if date == time == 0:
        return None
    try:
        return datetime.datetime(1980 + (date >> 9), date >> 5 & 15, date & 31, time >> 11, time >> 5 & 63,
                                 2 * (time & 31), 0, datetime.UTC)
    except ValueError:
        warnings.warn("x")


# ---------------------------------------------------------------- lists of unknown length
def p_walk(d):
    out = []
    while True:
        yield
        if len(d) < 2:
            break
        n = u16(d, 0)
        if n < 2:
            break
        out.append(len(d[:n]))
        d = d[n:]
    return out


def a_walk_offset(d):
    out, i = [], 0
    while i + 2 <= len(d) and (n := u16(d, i)) >= 2:
        out.append(len(d[i:i + n]))
        i += n
    return out


def a_walk_gen(d):
    def sizes(d):
        while len(d) >= 2:
            n = u16(d, 0)
            if n < 2:
                return
            yield d[:n]
            d = d[n:]
    return [len(x) for x in sizes(d)]


def a_walk_map(d):
    def parts(d):
        pos = 0
        while True:
            if len(d) - pos < 2:
                return
            n = u16(d, pos)
            if n < 2:
                return
            yield d[pos:pos + n]
            pos += n
    return list(map(len, parts(d)))


def a_walk_recursive(d):
    out = []
    _walk(d, out)
    return out


def _walk(d, out):
    for _ in itertools.count():
        if len(d) < 2:
            return
        n = u16(d, 0)
        if n < 2:
            return
        out.append(min(len(d), n))
        d = d[n:]


def a_walk_stream(d):
    s, out = io.BytesIO(d), []
    while True:
        head = s.read(2)
        if len(head) < 2:
            break
        n = int.from_bytes(head, "little")
        if n < 2:
            break
        out.append(2 + len(s.read(n - 2)))
    return out


def a_walk_deque(d):
    out = collections.deque()
    while len(d) >= 2:
        n = u16(d, 0)
        if n < 2:
            break
        out.append(min(n, len(d)))
        d = d[n:]
    return list(out)


class Walker:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return self

    def __next__(self):
        if len(self.d) < 2 or u16(self.d, 0) < 2:
            raise StopIteration
        n = u16(self.d, 0)
        x, self.d = self.d[:n], self.d[n:]
        return x


def a_walk_class(d):
    return [len(x) for x in Walker(d)]


def a_walk_extend(d):
    out = []
    out.extend(len(x) for x in Walker(d))
    return out


class Piece:
    def __init__(self, d):
        self.d = d

    @property
    def size(self):
        return u16(self.d, 0) if len(self.d) >= 2 else 0


def a_walk_object(d):
    out = []
    x = Piece(d)
    while x.size >= 2:
        out.append(len(x.d[: x.size]))
        x = Piece(x.d[x.size :])
    return out


BITS = {1: "a", 2: "b", 4: "c", 8: "d", 16: "e"}


def names_of(d):
    flags = u32(d, 0)
    return [n for b, n in BITS.items() if flags & b]


def p_any(d):
    flags = u32(d, 0)
    return flags & 4 != 0, flags & 17 == 17, flags & 31 == 0, flags & 30 == 0


def a_any_gen(d):
    names = names_of(d)
    return any(n == "c" for n in names), "a" in names and "e" in names, not names, all(n == "a" for n in names)


def a_any_list(d):
    names = names_of(d)
    return (any([n == "c" for n in names]), sum(n in ("a", "e") for n in names) == 2, not any(n for n in names),
            not any(n != "a" for n in names))


def p_first(d):
    flags = u32(d, 0)
    for b, n in BITS.items():
        if flags & b:
            return n
    return "none"


def a_first_index(d):
    names = names_of(d)
    return names[0] if names else "none"


def a_first_try(d):
    try:
        return names_of(d)[0]
    except IndexError:
        return "none"


def a_first_slice(d):
    names = names_of(d)[:1]
    return names[0] if names else "none"


def a_first_pop(d):
    names = names_of(d)
    return names.pop(0) if names else "none"


def p_table(d):
    n = u16(d, 0)
    return ("x", "y", "z")[n] if n < 3 else None


def a_table_slice(d):
    n = u16(d, 0)
    return next(iter(("x", "y", "z")[n : n + 1]), None)


def a_table_enumerate(d):
    return dict(enumerate(("x", "y", "z"))).get(u16(d, 0))


def a_table_try(d):
    try:
        return ["x", "y", "z"][u16(d, 0)]
    except IndexError:
        return None


def p_hash(d):
    import hashlib
    return hashlib.sha256(d[4:]).hexdigest()


def a_hash_update(d):
    import hashlib
    h = hashlib.sha256()
    h.update(d[4:])
    return h.hexdigest()


def a_hash_new(d):
    import hashlib
    h = hashlib.new("sha256")
    h.update(d[4:8])
    h.update(d[8:])
    return h.hexdigest()


def p_last(d):
    flags = u32(d, 0)
    for b, n in reversed(BITS.items()):
        if flags & b:
            return n
    return "none"


def a_last_pop(d):
    names = names_of(d)
    return names.pop() if names else "none"


def a_last_reverse(d):
    names = names_of(d)
    names.reverse()
    return next(iter(names), "none")


def a_last_reversed(d):
    return next(reversed(names_of(d)), "none")


def a_last_insert(d):
    names = []
    for n in names_of(d):
        names.insert(0, n)
    return (names + ["none"])[0]


def a_last_index(d):
    names = ["none"] + names_of(d)
    return names[-1]


def a_last_star(d):
    *_, last = ("none", *names_of(d))
    return last


def p_sum(d):
    flags = u32(d, 0)
    return [1 if flags & b else 0 for b in (2, 8)], ["ba"[flags & 1]] if flags & 1 else [], flags & 2 != 0


def pair(*names, x=None):
    return len(names)


def a_sum_call(d):
    names = names_of(d)
    return ([names.count("b"), sum(1 for n in names if n == "d")], [n for n in sorted(names)][:1] if "a" in names else [],
            "b" in set(names))


def a_sum_tuple(d):
    names = tuple(names_of(d))
    return [int("b" in names), int("d" in names)], list(names[:1]) if "a" in names else [], "b" in frozenset(names)


def p_count(d):
    flags = u32(d, 0)
    return sum((flags >> i) & 1 for i in range(5))


def a_count_len(d):
    return len(names_of(d))


def a_count_call(d):
    return pair(*names_of(d))


def a_count_sum(d):
    return sum(map(len, names_of(d)))


def a_count_dict(d):
    return len(dict.fromkeys(names_of(d)))


def a_count_chain(d):
    return len(list(itertools.chain(names_of(d), [])))


def a_count_unpack(d):
    first, *rest = ["", *names_of(d)]
    return len(rest)
