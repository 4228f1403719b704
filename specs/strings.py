"""StringData (MS-SHLLINK 2.4) and the presence predicates of a link."""
import struct
import warnings

from LnkParse3.lnk_file import LnkFile
from specs import extra
from specs.base import *
from specs.header import header_ok

# key, bit of LinkFlags, limited to 260 characters
KINDS = [("description", 2, True), ("relative_path", 3, True), ("working_directory", 4, True),
         ("command_line_arguments", 5, False), ("icon_location", 6, False)]


def i_predicates(h):
    lnk = LnkFile(indata=h)
    return [lnk.has_target_id_list(), lnk.has_link_info(), lnk.has_name(), lnk.has_relative_path(),
            lnk.has_working_dir(), lnk.has_arguments(), lnk.has_icon_location(), lnk.is_unicode(),
            lnk.force_no_link_info()]


def s_predicates(h):
    f = u32(h, 20)
    return [f >> i & 1 == 1 for i in range(9)]


def string_data(f, d, cp):
    """the texts that are present and the size of the section, for link flags f"""
    out, at = {}, 0
    uni = f >> 7 & 1
    try:
        for key, bit, limited in KINDS:
            if f >> bit & 1:
                n = u16(d, at)
                if limited and n > 260:
                    n = 260
                if uni:
                    n *= 2
                field = d[at + 2:at + 2 + n]
                out[key] = utext(field) if uni else text(field, cp)
                at += 2 + n
    except struct.error:
        warnings.warn("input ends within the string data")
    return out, at


def i_strings(d, cp):
    s = LnkFile(indata=d, cp=cp, allow_terminal_blocks=False).string_data
    return [s.as_dict(), s.size(), s.description(), s.relative_path(), s.working_directory(),
            s.command_line_arguments(), s.icon_location()]


def s_strings(d, cp):
    out, size = string_data(u32(d, 20), d[76:], cp)
    extra.parse_warnings(d[76 + size:], cp, False)
    return [out, size] + [out.get(key) for key, bit, limited in KINDS]


def strings_only(d):
    """a link without target list and link info"""
    return header_ok(d) and u32(d, 20) % 4 == 0


def bits(d, i, j):
    """whether bits i and j of the flags are set"""
    return u32(d, 20) >> i & 1 == 1, u32(d, 20) >> j & 1 == 1


def unicode_named(d, cp):
    return strings_only(d) and bits(d, 7, 2) == (True, True)


def unicode_unnamed(d, cp):
    return strings_only(d) and bits(d, 7, 2) == (True, False)


def ansi_named(d, cp):
    return strings_only(d) and bits(d, 7, 2) == (False, True)


def ansi_unnamed(d, cp):
    return strings_only(d) and bits(d, 7, 2) == (False, False)


# ---------------------------------------------------------------- the section, as other specifications see it
def warn(f, d, cp):
    """the warnings of reading the section"""
    string_data(f, d, cp)


def quiet(f, d, cp):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return string_data(f, d, cp)


def size(f, d, cp):
    return quiet(f, d, cp)[1]


def report(f, d, cp):
    return quiet(f, d, cp)[0]


def description(f, d, cp):
    return quiet(f, d, cp)[0].get("description")


def relative_path(f, d, cp):
    return quiet(f, d, cp)[0].get("relative_path")


def working_directory(f, d, cp):
    return quiet(f, d, cp)[0].get("working_directory")


def command_line_arguments(f, d, cp):
    return quiet(f, d, cp)[0].get("command_line_arguments")


def icon_location(f, d, cp):
    return quiet(f, d, cp)[0].get("icon_location")
