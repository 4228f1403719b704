"""Elements of the MS-SHLLINK format, written from the specification and independent of the code in /repo."""
import datetime
import struct
import warnings


class Unspecified(BaseException):
    """a text no property speaks about; native runs leave it out"""


def need(d, off, n):
    """the n bytes at off; struct.error when the data ends before"""
    if len(d) < off + n:
        raise struct.error("data ends")
    return d[off:off + n]


def u8(d, o):
    return int.from_bytes(need(d, o, 1), "little")


def u16(d, o):
    return int.from_bytes(need(d, o, 2), "little")


def u32(d, o):
    return int.from_bytes(need(d, o, 4), "little")


def i32(d, o):
    return int.from_bytes(need(d, o, 4), "little", signed=True)


def i16(d, o):
    return int.from_bytes(need(d, o, 2), "little", signed=True)


def u64(d, o):
    return int.from_bytes(need(d, o, 8), "little")


def guid(d, o):
    """the GUID at offset o in registry form, upper case"""
    need(d, o, 8)
    need(d, o + 8, 8)
    a = format(u32(d, o), "08X")
    b = format(u16(d, o + 4), "04X")
    c = format(u16(d, o + 6), "04X")
    e = d[o + 8:o + 10].hex().upper()
    f = d[o + 10:o + 16].hex().upper()
    return a + "-" + b + "-" + c + "-" + e + "-" + f


FT_END = (datetime.datetime(9999, 12, 31, tzinfo=datetime.timezone.utc)
          - datetime.datetime(1601, 1, 1, tzinfo=datetime.timezone.utc)).days * 86400 + 86400


def filetime_of(n):
    """UTC time of n 100 ns ticks since 1601; None for 0; None and a warning past the year 9999"""
    if n == 0:
        return None
    if n >= FT_END * 10000000:
        warnings.warn("filetime out of range")
        return None
    return datetime.datetime(1601, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(microseconds=n // 10)


def dostime_of(d):
    """UTC time of the four bytes d (date, time); None for 0; None and a warning when it names no time"""
    date, time = u16(d, 0), u16(d, 2)
    if date == 0 and time == 0:
        return None
    y, m, day = 1980 + date // 512, date // 32 % 16, date % 32
    h, mi, s = time // 2048, time // 32 % 64, time % 32 * 2
    try:
        return datetime.datetime(y, m, day, h, mi, s, tzinfo=datetime.timezone.utc)
    except ValueError:
        warnings.warn("no such time")
        return None


# ---------------------------------------------------------------- text
def find_unit(b):
    """index of the first zero 16-bit unit at an even position, -1 when there is none"""
    for i in range(0, len(b) - 1, 2):
        if b[i] == 0 and b[i + 1] == 0:
            return i
    return -1


def cut(b):
    i = b.find(b"\x00")
    return b if i < 0 else b[:i]


def ucut(b):
    i = find_unit(b)
    return b if i < 0 else b[:i]


def decode(b, cp):
    """text of code-page bytes: cp, else UTF-8, else cp with replacement characters and a warning"""
    try:
        return b.decode(cp)
    except UnicodeDecodeError:
        try:
            return b.decode("utf-8")
        except UnicodeDecodeError:
            warnings.warn("undecodable text")
            return b.decode(cp, errors="replace")


def udecode(b):
    try:
        return b.decode("utf-16-le")
    except UnicodeDecodeError:
        warnings.warn("undecodable text")
        return b.decode("utf-16-le", errors="replace")


def ctext(b, cp):
    return decode(cut(b), cp)


def text(b, cp):
    """terminated text of a code-page field"""
    return ctext(b, cp or "cp1252")


def utext(b):
    """terminated text of a UTF-16LE field"""
    return udecode(ucut(b))
