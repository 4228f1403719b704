"""ShellLinkHeader (MS-SHLLINK 2.1)."""
import warnings

from LnkParse3.lnk_header import LnkHeader
from specs.base import *

LINK_FLAGS = ["HasTargetIDList", "HasLinkInfo", "HasName", "HasRelativePath", "HasWorkingDir", "HasArguments",
              "HasIconLocation", "IsUnicode", "ForceNoLinkInfo", "HasExpString", "RunInSeparateProcess", "Reserved0",
              "HasDarwinID", "RunAsUser", "HasExpIcon", "NoPidlAlias", "Reserved1", "RunWithShimLayer",
              "ForceNoLinkTrack", "EnableTargetMetadata", "DisableLinkPathTracking", "DisableKnownFolderTracking",
              "DisableKnownFolderAlias", "AllowLinkToLink", "UnaliasOnSave", "PreferEnvironmentPath",
              "KeepLocalIDListForUNCTarget"]
FILE_FLAGS = ["FILE_ATTRIBUTE_READONLY", "FILE_ATTRIBUTE_HIDDEN", "FILE_ATTRIBUTE_SYSTEM",
              "Reserved, not used by the LNK format", "FILE_ATTRIBUTE_DIRECTORY", "FILE_ATTRIBUTE_ARCHIVE",
              "FILE_ATTRIBUTE_DEVICE", "FILE_ATTRIBUTE_NORMAL", "FILE_ATTRIBUTE_TEMPORARY",
              "FILE_ATTRIBUTE_SPARSE_FILE", "FILE_ATTRIBUTE_REPARSE_POINT", "FILE_ATTRIBUTE_COMPRESSED",
              "FILE_ATTRIBUTE_OFFLINE", "FILE_ATTRIBUTE_NOT_CONTENT_INDEXED", "FILE_ATTRIBUTE_ENCRYPTED",
              "FILE_ATTRIBUTE_INTEGRITY_STREAM", "FILE_ATTRIBUTE_VIRTUAL", "FILE_ATTRIBUTE_NO_SCRUB_DATA"]

HIGH = {0: "UNSET", 1: "SHIFT", 2: "CONTROL", 4: "ALT"}
LOW = {0: "UNSET", 0x90: "NUM_LOCK", 0x91: "SCROLL_LOCK"}
LOW.update({0x30 + i: str(i) for i in range(10)})
LOW.update({0x41 + i: chr(0x41 + i) for i in range(26)})
LOW.update({0x70 + i: "F" + str(i + 1) for i in range(24)})


def header_ok(d):
    """a complete header: HeaderSize is 76 and the 76 bytes are there"""
    return len(d) >= 76 and u32(d, 0) == 76


def times_ok(d):
    """complete header, no stamp within the last 40 microseconds of the year 9999"""
    if not header_ok(d):
        return False
    end = FT_END * 10000000
    for o in (28, 36, 44):
        t = u64(d, o)
        if end - 400 <= t < end:
            return False
    return True


def link_flags(d):
    f = u32(d, 20)
    return [n for i, n in enumerate(LINK_FLAGS) if f >> i & 1]


def file_flags(d):
    f = u32(d, 24)
    return [n for i, n in enumerate(FILE_FLAGS) if f >> i & 1]


def window_style(d):
    n = u32(d, 60)
    return "SW_SHOWMAXIMIZED" if n == 3 else "SW_SHOWMINNOACTIVE" if n == 7 else "SW_SHOWNORMAL"


def hot_key(d):
    low, high = u8(d, 64), u8(d, 65)
    raw = d[64:66].hex()
    if low in LOW and high in HIGH:
        return HIGH[high] + " - " + LOW[low] + " {0x" + raw + "}"
    return raw


def must(value, expected):
    if value != expected:
        warnings.warn("constant differs")
    return value


# ---------------------------------------------------------------- the fields, under the names of their accessors
def link_cls_id(d):
    return must(guid(d, 4), "00021401-0000-0000-C000-000000000046")


def creation_time(d):
    return filetime_of(u64(d, 28))


def access_time(d):
    return filetime_of(u64(d, 36))


def write_time(d):
    return filetime_of(u64(d, 44))


def file_size(d):
    return u32(d, 52)


def icon_index(d):
    return i32(d, 56)


def raw_hot_key(d):
    return u16(d, 64)


def reserved0(d):
    return must(u16(d, 66), 0)


def reserved1(d):
    return must(u32(d, 68), 0)


def reserved2(d):
    return must(u32(d, 72), 0)


# ---------------------------------------------------------------- pairs
def i_size(d):
    return LnkHeader(indata=d).size()


def s_size(d):
    return 76


def i_class(d):
    h = LnkHeader(indata=d)
    return [h.link_cls_id(), h.guid()]


def s_class(d):
    return [link_cls_id(d), link_cls_id(d)]


def i_numbers(d):
    h = LnkHeader(indata=d)
    return [h.r_link_flags(), h.r_file_flags(), h.file_size(), h.icon_index(), h.raw_hot_key(), h.reserved0(),
            h.reserved1(), h.reserved2()]


def s_numbers(d):
    return [u32(d, 20), u32(d, 24), file_size(d), icon_index(d), raw_hot_key(d), reserved0(d), reserved1(d),
            reserved2(d)]


def i_style(d):
    return LnkHeader(indata=d).window_style()


def i_hotkey(d):
    return LnkHeader(indata=d).hot_key()


def i_link_flags(d):
    return LnkHeader(indata=d).link_flags()


def i_file_flags(d):
    return LnkHeader(indata=d).file_flags()


def i_times(d):
    h = LnkHeader(indata=d)
    return [h.creation_time(), h.access_time(), h.write_time()]


def s_times(d):
    return [creation_time(d), access_time(d), write_time(d)]
