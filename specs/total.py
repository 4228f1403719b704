"""Functions that end without an exception, or with one their callers handle; used with contracts without result."""
import struct

from LnkParse3.extra.metadata import SerializedPropertyStorage
from LnkParse3.extra.metadata import SerializedPropertyValueIntegerName, SerializedPropertyValueStringName
from LnkParse3.extra_data import ExtraData
from LnkParse3.info.network import Network
from LnkParse3.info_factory import InfoFactory
from LnkParse3.lnk_file import LnkFile
from LnkParse3.lnk_header import LnkHeader
from LnkParse3.lnk_info import LnkInfo
from LnkParse3.lnk_targets import LnkTargets
from LnkParse3.text_processor import TextProcessor
from specs import extra, items
from specs.base import *
from specs.header import header_ok


def text(b, cp):
    return TextProcessor(cp=cp).read_string(b)


def utext(b, cp):
    return TextProcessor(cp=cp).read_unicode_string(b)


def texts(b, cp):
    return list(TextProcessor(cp=cp).read_strings(b))


def item(k, r, cp):
    return items.CLASSES[k](indata=r, cp=cp).as_item()


def targets(d, cp):
    """the target list; struct.error when its size cannot be read"""
    return LnkTargets(indata=d, cp=cp).as_list()


def targets_size(d, cp):
    return LnkTargets(indata=d, cp=cp).size()


def block(k, b, cp):
    x = extra.CLASSES[k](indata=b, cp=cp)
    return [x.name(), x.as_dict()]


def block_size(k, b, cp):
    x = extra.CLASSES[k](indata=b, cp=cp)
    return [x.name(), x.size()]


def value(named, b, cp):
    c = SerializedPropertyValueStringName if named else SerializedPropertyValueIntegerName
    return c(b, TextProcessor(cp=cp)).as_dict()


def storage(b, cp):
    return SerializedPropertyStorage(b, TextProcessor(cp=cp)).as_dict()


def times(d):
    h = LnkHeader(indata=d)
    return [h.creation_time(), h.access_time(), h.write_time()]


def only_header(d):
    return header_ok(d)


def provider(d, cp):
    return Network(indata=d, cp=cp).network_provider_type()


def info_class(d):
    return InfoFactory(LnkInfo(indata=d)).info_class()


def strings(d, cp):
    s = LnkFile(indata=d, cp=cp).string_data
    return [s.as_dict(), s.size(), s.relative_path(), s.command_line_arguments()]


def strings_only(d, cp):
    """a link without target list and link info"""
    return header_ok(d) and u32(d, 20) & 3 == 0


def extras(d, cp, allow):
    x = ExtraData(indata=d, cp=cp, allow_terminal_blocks=allow)
    return [x.size(), x.as_dict()]


def link(d, cp, allow):
    """everything one can ask of a link"""
    lnk = LnkFile(indata=d, cp=cp, allow_terminal_blocks=allow)
    return [lnk.get_json(True), lnk.get_json(False), lnk.lnk_command]


def link_ok(d, cp, allow):
    return header_ok(d)


# the cases of a link, checked in parallel
def info(d):
    """the kind of the link info that is reported, or None"""
    f, at = u32(d, 20), 76
    if not f >> 1 & 1 or f >> 8 & 1:
        return None
    if f & 1 and len(d) >= 78:
        at += 2 + u16(d, 76)
    rest = d[at:]
    if len(rest) < 12:
        return None
    g = u32(rest, 8)
    return "Local" if g & 1 else "Network" if g >> 1 & 1 else None


def plain(d, *x):
    return header_ok(d) and info(d) is None


def local(d, *x):
    return header_ok(d) and u32(d, 20) & 1 == 0 and info(d) == "Local"


def local_targets(d, *x):
    return header_ok(d) and u32(d, 20) & 1 == 1 and info(d) == "Local"


def based(d):
    """whether the link info has a local base path offset"""
    at = 76
    if u32(d, 20) & 1 and len(d) >= 78:
        at += 2 + u16(d, 76)
    try:
        return LnkInfo(indata=d[at:]).local_base_path_offset() != 0
    except struct.error:
        return False


def network(d, *x):
    return header_ok(d) and u32(d, 20) & 1 == 0 and info(d) == "Network" and not based(d)


def network_base(d, *x):
    return header_ok(d) and u32(d, 20) & 1 == 0 and info(d) == "Network" and based(d)


def network_targets(d, *x):
    return header_ok(d) and u32(d, 20) & 1 == 1 and info(d) == "Network" and not based(d)


def network_base_targets(d, *x):
    return header_ok(d) and u32(d, 20) & 1 == 1 and info(d) == "Network" and based(d)


def command(d, cp, allow):
    return LnkFile(indata=d, cp=cp, allow_terminal_blocks=allow).lnk_command


def report(d, cp, allow):
    lnk = LnkFile(indata=d, cp=cp, allow_terminal_blocks=allow)
    return [lnk.get_json(True), lnk.get_json(False)]
