"""ExtraData blocks (MS-SHLLINK 2.5, MS-PROPSTORE, Darwin descriptors)."""
import hashlib
import struct
import warnings

from LnkParse3.extra.code_page import CodePage
from LnkParse3.extra.console import Console
from LnkParse3.extra.darwin import Darwin
from LnkParse3.extra.distributed_tracker import DistributedTracker
from LnkParse3.extra.environment import Environment
from LnkParse3.extra.icon import Icon
from LnkParse3.extra.known_folder import KnownFolder
from LnkParse3.extra.metadata import Metadata, SerializedPropertyStorage
from LnkParse3.extra.metadata import SerializedPropertyValueIntegerName, SerializedPropertyValueStringName
from LnkParse3.extra.shell_item import ShellItem
from LnkParse3.extra.shim_layer import ShimLayer
from LnkParse3.extra.special_folder import SpecialFolder
from LnkParse3.extra.terminal import Terminal
from LnkParse3.extra.unknown import Unknown
from LnkParse3.extra_data import ExtraData
from LnkParse3.extra_factory import ExtraFactory
from LnkParse3.text_processor import TextProcessor
from specs.base import *
from specs.header import must
from specs.items import run, shell_item

CLASSES = {"environment": Environment, "console": Console, "tracker": DistributedTracker, "code page": CodePage,
           "special folder": SpecialFolder, "darwin": Darwin, "icon": Icon, "shim": ShimLayer, "metadata": Metadata,
           "known folder": KnownFolder, "shell item": ShellItem, "unknown": Unknown, "terminal": Terminal}

SIGNATURES = {0xA0000001: "environment", 0xA0000002: "console", 0xA0000003: "tracker", 0xA0000004: "code page",
              0xA0000005: "special folder", 0xA0000006: "darwin", 0xA0000007: "icon", 0xA0000008: "shim",
              0xA0000009: "metadata", 0xA000000B: "known folder", 0xA000000C: "shell item"}

NAMES = {"environment": "ENVIRONMENTAL_VARIABLES_LOCATION_BLOCK", "console": "CONSOLE_PROPERTIES_BLOCK",
         "tracker": "DISTRIBUTED_LINK_TRACKER_BLOCK", "code page": "CONSOLE_CODEPAGE_BLOCK",
         "special folder": "SPECIAL_FOLDER_LOCATION_BLOCK", "darwin": "DARWIN_BLOCK", "icon": "ICON_LOCATION_BLOCK",
         "shim": "SHIM_LAYER_BLOCK", "metadata": "METADATA_PROPERTIES_BLOCK",
         "known folder": "KNOWN_FOLDER_LOCATION_BLOCK", "shell item": "SHELL_ITEM_IDENTIFIER_BLOCK",
         "unknown": "UNKNOWN_BLOCK", "terminal": "TERMINAL_BLOCK"}


def kind(sig):
    return SIGNATURES.get(sig, "unknown")


# ---------------------------------------------------------------- blocks of fixed layout
def environment(b, cp):
    return {"size": u32(b, 0), "target_ansi": text(b[8:268], cp), "target_unicode": utext(b[268:788])}


def console(b, cp):
    return {"size": u32(b, 0), "fill_attributes": u16(b, 8), "popup_fill_attributes": u16(b, 10),
            "screen_buffer_size_x": i16(b, 12), "screen_buffer_size_y": i16(b, 14), "window_size_x": i16(b, 16),
            "window_size_y": i16(b, 18), "window_origin_x": i16(b, 20), "window_origin_y": i16(b, 22),
            "font_size": u32(b, 32), "font_family": u32(b, 36), "font_weight": u32(b, 40),
            "face_name": utext(b[44:108]), "cursor_size": u32(b, 108), "full_screen": u32(b, 112),
            "quick_edit": u32(b, 116), "insert_mode": u32(b, 120), "auto_position": u32(b, 124),
            "history_buffer_size": u32(b, 128), "number_of_history_buffers": u32(b, 132),
            "history_no_dup": u32(b, 136), "color_table": u32(b, 140)}


def tracker(b, cp):
    return {"size": u32(b, 0), "length": must(u32(b, 8), 0x58), "version": must(u32(b, 12), 0),
            "machine_identifier": text(b[16:32], cp), "droid_volume_identifier": guid(b, 32),
            "droid_file_identifier": guid(b, 48), "birth_droid_volume_identifier": guid(b, 64),
            "birth_droid_file_identifier": guid(b, 80)}


def code_page(b, cp):
    return {"size": u32(b, 0), "code_page": u32(b, 8)}


def special_folder(b, cp):
    return {"size": u32(b, 0), "special_folder_id": u32(b, 8), "offset": u32(b, 12)}


def known_folder(b, cp):
    return {"size": u32(b, 0), "known_folder_id": guid(b, 8), "offset": u32(b, 24)}


def shim(b, cp):
    return {"size": u32(b, 0), "layer_name": utext(b[8:])}


def unknown(b, cp):
    return {"size": u32(b, 0), "extra_data_sha256": hashlib.sha256(b[4:]).hexdigest()}


# ---------------------------------------------------------------- Darwin descriptors
DIGITS = "!$%&'()*+,-.0123456789=?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{}~"


def number(t, at):
    """the number of the five base-85 digits of t at at, least significant first"""
    n = 0
    for j in range(5):
        n += DIGITS.find(t[at + j]) * 85 ** j
    return n


def packed_guid(t, at):
    """the GUID of four such numbers, the little-endian words of its bytes"""
    a, b, c, d = number(t, at), number(t, at + 5), number(t, at + 10), number(t, at + 15)
    return "%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X" % (
        a, b % 65536, b // 65536, c % 256, c // 256 % 256, c // 65536 % 256, c // 16777216, d % 256, d // 256 % 256,
        d // 65536 % 256, d // 16777216)


def packed_ok(t, at):
    """twenty digits of four numbers of 32 bits"""
    for i in range(20):
        if DIGITS.find(t[at + i]) < 0:
            return False
    for i in range(4):
        if number(t, at + 5 * i) >= 1 << 32:
            return False
    return True


def descriptor(t):
    """t is a product code, a feature name, and '<' or '>' with a component code"""
    more, end = t.find(">"), t.find("<")
    if more < 0 and end < 0 or more >= 0 and end >= 0:
        return False
    if max(more, end) < 20:
        return False
    if len(t) != (end + 1 if more < 0 else more + 21):
        return False
    return packed_ok(t, 0) and (more < 0 or packed_ok(t, more + 1))


def darwin(b, cp):
    t = utext(b[268:788])
    more, end = t.find(">"), t.find("<")
    sign = end if more < 0 else more
    return {"size": u32(b, 0), "darwin_data_ansi": text(b[8:268], cp), "darwin_data_unicode": t,
            "product_code_id": packed_guid(t, 0), "feature_name": t[20:sign] if sign > 20 else None,
            "component_id": None if more < 0 else packed_guid(t, more + 1)}


def darwin_ok(k, b, cp):
    return descriptor(utext(b[268:788]))


def terminal(b, cp):
    return {"size": len(b), "appended_data_sha256": hashlib.sha256(b[4:]).hexdigest()}


DECODERS = {"environment": environment, "icon": environment, "console": console, "tracker": tracker,
            "code page": code_page, "special folder": special_folder, "known folder": known_folder, "shim": shim,
            "unknown": unknown, "terminal": terminal, "darwin": darwin}


def i_block(k, b, cp):
    x = CLASSES[k](indata=b, cp=cp)
    return [x.name(), x.as_dict()]


def s_block(k, b, cp):
    return [NAMES[k], DECODERS[k](b, cp)]


def terminal_ok(k, b, cp):
    """terminal data starts with a size below 4"""
    return len(b) > 4 and u32(b, 0) < 4


# ---------------------------------------------------------------- the list of blocks
def block(k, b, cp):
    """the report of the block b of kind k; struct.error, ValueError or IndexError when it is malformed"""
    if k == "darwin" and not descriptor(utext(b[268:788])):
        raise Unspecified
    return DECODERS[k](b, cp)


def walk(d, cp, allow):
    """the blocks of the extra data, then their report"""
    out, rest = [], d
    while True:
        yield
        if not rest:
            break
        try:
            n = u32(rest, 0)
        except struct.error:
            warnings.warn("extra data ends within a size")
            break
        if n < 4:
            break
        b = rest[:n]
        try:
            out.append((kind(u32(rest, 4)), b))
        except struct.error:
            warnings.warn("block without a signature")
        rest = rest[n:]
    if allow and len(rest) > 4 and u32(rest, 0) < 4:
        out.append(("terminal", rest))
    res, blocks = {}, iter(out)
    while True:
        yield
        x = next(blocks, None)
        if x is None:
            break
        k, b = x
        try:
            if k == "unknown":
                if "UNKNOWN_BLOCK" not in res:
                    res["UNKNOWN_BLOCK"] = []
                res["UNKNOWN_BLOCK"].append(block(k, b, cp))
            else:
                res[NAMES[k]] = block(k, b, cp)
        except (struct.error, ValueError, IndexError):
            warnings.warn("malformed block")
    return res


def i_extra(d, cp, allow):
    return ExtraData(indata=d, cp=cp, allow_terminal_blocks=allow).as_dict()


def g_extra(d, cp, allow):
    return walk(d, cp, allow)


def lengths(d, cp, allow):
    """the number of bytes the blocks take, by their declared sizes"""
    out, rest = [], d
    while True:
        yield
        if not rest:
            break
        try:
            n = u32(rest, 0)
        except struct.error:
            warnings.warn("extra data ends within a size")
            break
        if n < 4:
            break
        try:
            out.append((kind(u32(rest, 4)), rest[:n]))
        except struct.error:
            warnings.warn("block without a signature")
        rest = rest[n:]
    if allow and len(rest) > 4 and u32(rest, 0) < 4:
        out.append(("terminal", rest))
    total, blocks = 0, iter(out)
    while True:
        yield
        x = next(blocks, None)
        if x is None:
            break
        total += len(x[1]) if x[0] == "terminal" else u32(x[1], 0)
    return total


def g_length_once(d, cp, allow):
    """as lengths, in one loop"""
    total, rest = 0, d
    while True:
        yield
        if not rest:
            break
        try:
            n = u32(rest, 0)
        except struct.error:
            warnings.warn("extra data ends within a size")
            break
        if n < 4:
            break
        if len(rest) < 8:
            warnings.warn("block without a signature")
        else:
            total += n
        rest = rest[n:]
    if allow and len(rest) > 4 and u32(rest, 0) < 4:
        total += len(rest)
    return total


def i_length(d, cp, allow):
    return ExtraData(indata=d, cp=cp, allow_terminal_blocks=allow).size()


def g_length(d, cp, allow):
    return lengths(d, cp, allow)


# ---------------------------------------------------------------- property stores
SCALARS = {0x00: "EMPTY", 0x01: "NULL", 0x02: "I2", 0x03: "I4", 0x04: "R4", 0x05: "R8", 0x06: "CY", 0x07: "DATE",
           0x08: "BSTR", 0x0A: "ERROR", 0x0B: "BOOL", 0x0E: "DECIMAL", 0x10: "I1", 0x11: "UI1", 0x12: "UI2",
           0x13: "UI4", 0x14: "I8", 0x15: "UI8", 0x16: "INT", 0x17: "UINT", 0x1E: "LPSTR", 0x1F: "LPWSTR",
           0x40: "FILETIME", 0x41: "BLOB", 0x42: "STREAM", 0x43: "STORAGE", 0x44: "STREAMED_Object",
           0x45: "STORED_Object", 0x46: "BLOB_Object", 0x47: "CF", 0x48: "CLSID", 0x49: "VERSIONED_STREAM"}
VECTORS = [0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x0A, 0x0B, 0x0C, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x1E, 0x1F,
           0x40, 0x47, 0x48]
ARRAYS = [0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x0A, 0x0B, 0x0C, 0x0E, 0x10, 0x11, 0x12, 0x13, 0x16, 0x17]
TYPES = {t: "VT_" + n for t, n in SCALARS.items()}
for t in VECTORS:
    TYPES[0x1000 + t] = "VT_VECTOR_" + SCALARS.get(t, "VARIANT")
for t in ARRAYS:
    TYPES[0x2000 + t] = "VT_ARRAY_" + SCALARS.get(t, "VARIANT")


def typed(b):
    """the value and the type name of a TypedPropertyValue; ValueError when the type is not defined"""
    t, v = u16(b, 0), None
    if u16(b, 2) == 0:
        if t == 0x02:
            v = i16(b, 4)
        elif t == 0x1F:
            v = utext(b[8:8 + 2 * u32(b, 4)])
    if t not in TYPES:
        raise ValueError("no such property type")
    return v, TYPES[t]


def named_value(b):
    n = u32(b, 4)
    v, t = typed(b[9 + n:])
    return {"value_size": u32(b, 0), "name_size": n, "name": utext(b[9:9 + n]), "value": v, "value_type": t}


def numbered_value(b):
    v, t = typed(b[9:])
    return {"value_size": u32(b, 0), "id": u32(b, 4), "value": v, "value_type": t}


def value(named, b):
    return named_value(b) if named else numbered_value(b)


def values(b):
    """the values of a storage"""
    named, out, at = guid(b, 8) == "D5CDD505-2E9C-101B-9397-08002B2CF9AE", [], 24
    while True:
        yield
        n = u32(b, at)
        if n == 0:
            break
        out.append((at, b[at:]))
        at += n
    res, rest = [], iter(out)
    while True:
        yield
        x = next(rest, None)
        if x is None:
            break
        res.append(value(named, x[1]))
    return {"storage_size": u32(b, 0), "version": hex(u32(b, 4)), "format_id": guid(b, 8),
            "serialized_property_values": res}


def storage(b):
    """the report of a storage; struct.error or ValueError when it is malformed"""
    return run(values(b))


def storages(b):
    """the report of a metadata block"""
    out, at = [], 8
    while True:
        yield
        n = u32(b, at)
        if n == 0:
            break
        out.append((at, b[at:]))
        at += n
    res, rest = [], iter(out)
    while True:
        yield
        x = next(rest, None)
        if x is None:
            break
        res.append(storage(x[1]))
    return {"size": u32(b, 0), "property_store": res}


def metadata(b, cp):
    return run(storages(b))


DECODERS["metadata"] = metadata
DECODERS["shell item"] = shell_item


def g_values_once(b, cp):
    """as values, in one loop"""
    named, res, at = guid(b, 8) == "D5CDD505-2E9C-101B-9397-08002B2CF9AE", [], 24
    while True:
        yield
        n = u32(b, at)
        if n == 0:
            break
        res.append(value(named, b[at:]))
        at += n
    return {"storage_size": u32(b, 0), "version": hex(u32(b, 4)), "format_id": guid(b, 8),
            "serialized_property_values": res}


def g_storages_once(b, cp):
    """as storages, in one loop"""
    res, at = [], 8
    while True:
        yield
        n = u32(b, at)
        if n == 0:
            break
        res.append(storage(b[at:]))
        at += n
    return {"size": u32(b, 0), "property_store": res}


def i_value(named, b, cp):
    c = SerializedPropertyValueStringName if named else SerializedPropertyValueIntegerName
    return c(b, TextProcessor(cp=cp)).as_dict()


def s_value(named, b, cp):
    return value(named, b)


def i_storage(b, cp):
    return SerializedPropertyStorage(b, TextProcessor(cp=cp)).as_dict()


def g_storage(b, cp):
    return values(b)


def i_metadata(b, cp):
    return Metadata(indata=b, cp=cp).as_dict()


def g_metadata(b, cp):
    return storages(b)


def named_store(b, cp):
    return len(b) >= 24 and guid(b, 8) == "D5CDD505-2E9C-101B-9397-08002B2CF9AE"


def numbered_store(b, cp):
    return len(b) < 24 or guid(b, 8) != "D5CDD505-2E9C-101B-9397-08002B2CF9AE"


# ---------------------------------------------------------------- the section, as other specifications see it
def parse_warnings(d, cp, allow):
    run(lengths(d, cp, allow))


def size(d, cp, allow):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return run(lengths(d, cp, allow))


def report(d, cp, allow):
    """the report and the warnings it gives, apart from those of finding the blocks"""
    with warnings.catch_warnings(record=True) as first:
        warnings.simplefilter("always")
        run(lengths(d, cp, allow))
    with warnings.catch_warnings(record=True) as both:
        warnings.simplefilter("always")
        r = run(walk(d, cp, allow))
    for w in both[len(first):]:
        warnings.warn(str(w.message))
    return r
