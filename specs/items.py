"""ItemIDs (MS-SHLLINK 2.2, libfwsi: Windows Shell Item format)."""
import struct
import warnings

from LnkParse3.target.common_places_folder import CommonPlacesFolder
from LnkParse3.target.compressed_folder import CompressedFolder
from LnkParse3.target.control_panel import ControlPanel
from LnkParse3.target.control_panel_category import ControlPanelCategory
from LnkParse3.target.control_panel_cpl import ControlPanelCPL
from LnkParse3.target.internet import Internet
from LnkParse3.target.my_computer import MyComputer
from LnkParse3.target.network_location import NetworkLocation
from LnkParse3.target.printers import Printers
from LnkParse3.target.root_folder import RootFolder
from LnkParse3.target.shell_fs_folder import ShellFSFolder
from LnkParse3.target.unknown import Unknown
from LnkParse3.target.users_files_folder import UsersFilesFolder
from LnkParse3.extra.shell_item import ShellItem
from LnkParse3.lnk_targets import LnkTargets
from LnkParse3.target_factory import TargetFactory
from specs.base import *

CLASSES = {"cpl": ControlPanelCPL, "category": ControlPanelCategory, "root": RootFolder, "volume": MyComputer,
           "file": ShellFSFolder, "network": NetworkLocation, "compressed": CompressedFolder, "internet": Internet,
           "panel": ControlPanel, "printers": Printers, "places": CommonPlacesFolder, "users": UsersFilesFolder,
           "unknown": Unknown}

TYPES = {0x00: "cpl", 0x01: "category", 0x1E: "root", 0x1F: "root", 0x52: "compressed", 0x61: "internet",
         0x70: "panel", 0x71: "panel", 0x72: "printers", 0x73: "places", 0x74: "users"}


def kind(t):
    """the kind of item with type byte t; None when the type is not known"""
    m = t // 16 % 8
    if m == 2:
        return "volume"
    if m == 3:
        return "file"
    if m == 4:
        return "network"
    return TYPES.get(t)


FILE_FLAGS = [(7, "Is Unicode share"), (5, "Is Unicode directory"), (6, "Is Unicode file"), (3, "Is share"),
              (1, "Is directory"), (2, "Is file"), (4, "Has Unicode strings")]


def file_flags(t):
    """text for the low four bits of the type byte"""
    for bits, name in FILE_FLAGS:
        if t & bits == bits:
            return name
    warnings.warn("unknown flags")
    return "Unknown"


SORT = {0x00: "Internet Explorer", 0x42: "Libraries", 0x44: "Users", 0x4C: "Public Folder", 0x48: "My Documents",
        0x50: "My Computer", 0x54: "UsersLibraries", 0x58: "My Networs Places/Network", 0x60: "Recycle Bin",
        0x68: "Internet Explorer", 0x78: "Recycle Bin", 0x80: "My Games"}

CATEGORY = ["All Control Panel Items", "Appearance and Personalization", "Hardware and Sound", "Network and Internet",
            "Sounds, Speech, and Audio Devices", "System and Security", "Clock, Language, and Region",
            "Ease of Access", "Programs", "User Accounts", "Security Center", "Mobile PC"]


def file_item(r, cp):
    b = r[2:u16(r, 0)]
    t = u8(b, 0)
    return {"class": "File entry", "flags": file_flags(t), "file_size": u32(b, 2),
            "modification_time": dostime_of(need(b, 6, 4)), "file_attribute_flags": u16(b, 10),
            "primary_name": utext(b[12:]) if t & 4 else text(b[12:], cp)}


def users_item(r, cp):
    b = r[2:u16(r, 0)]
    sig = b[4:8].decode("ascii", errors="replace")
    entry = file_item(b[8:], cp)
    o = 4 + u16(b, 2)
    return {"class": "Users files folder", "signature": sig, "file_entry": entry, "delegate_class_id": guid(b, o),
            "delegate_folder_id": guid(b, o + 16)}


def root_item(r, cp):
    b = r[2:u16(r, 0)]
    v = u8(b, 1)
    if v not in SORT:
        warnings.warn("unknown sort index")
    return {"class": "Root Folder", "sort_index": SORT.get(v, "Unknown"), "sort_index_value": v, "guid": guid(b, 2)}


def volume_item(r, cp):
    b = r[2:u16(r, 0)]
    f = u8(b, 0) & 15
    out = {"class": "Volume Item", "flags": hex(f)}
    if f & 1:
        out["volume_name"] = text(b[1:21], cp)
    else:
        out["volume_identifier"] = guid(b, 2)
    return out


def pieces(b, n):
    """the first n NUL terminated pieces of b (fewer when b ends)"""
    out = []
    while len(out) < n:
        i = b.find(b"\x00")
        if i < 0:
            out.append(b)
            break
        out.append(b[:i])
        b = b[i + 1:]
    return out


def network_item(r, cp):
    b = r[2:u16(r, 0)]
    c = cp or "cp1252"
    p = b[3:]
    i = p.find(b"\x00")
    location = decode(p if i < 0 else p[:i], c)
    p = None if i < 0 else p[i + 1:]
    f = u8(b, 2)
    description = comments = None
    if f & 0x80 and p is not None:
        i = p.find(b"\x00")
        description = decode(p if i < 0 else p[:i], c)
        p = None if i < 0 else p[i + 1:]
    if f & 0x40 and p is not None:
        i = p.find(b"\x00")
        comments = decode(p if i < 0 else p[:i], c)
    return {"class": "Network location", "flags": file_flags(u8(b, 0)), "content_flags": f, "location": location,
            "description": description, "comments": comments}


def panel_item(r, cp):
    b = r[2:u16(r, 0)]
    return {"class": "Control panel", "item_identifier": guid(b, 14)}


def category_item(r, cp):
    b = r[2:u16(r, 0)]
    c = u32(b, 6)
    if c >= 12:
        warnings.warn("unknown category")
    return {"class": "Control panel category", "category_id": c, "category": CATEGORY[c] if c < 12 else "Unknown"}


def cpl_item(r, cp):
    b = r[2:u16(r, 0)]
    uni = len(b) >= 22 and b[10] == 0
    sig = "0x" + format(u32(b, 2), "08X")
    if uni:
        path = utext(b[22:])
        name = utext(b[22 + 2 * u16(b, 18):])
        c = u16(b, 20)
        comments = utext(b[22 + 2 * c:]) if c else ""
    else:
        path = text(b[10:], cp)
        name = text(b[10 + u16(b, 6):], cp)
        c = u16(b, 8)
        comments = text(b[10 + c:], cp) if c else ""
    return {"class": "Control panel CPL file", "signature": sig, "cpl_file_path": path, "name": name,
            "comments": comments}


def compressed_item(r, cp):
    u16(r, 0)
    return {"class": "Compressed folder"}


def internet_item(r, cp):
    u16(r, 0)
    return {"class": "Internet"}


def printers_item(r, cp):
    u16(r, 0)
    return {"class": "Printers"}


def places_item(r, cp):
    u16(r, 0)
    return {"class": "Common places folder"}


def unknown_item(r, cp):
    return {"class": "Unknown", "size": u16(r, 0)}


DECODERS = {"cpl": cpl_item, "category": category_item, "root": root_item, "volume": volume_item, "file": file_item,
            "network": network_item, "compressed": compressed_item, "internet": internet_item, "panel": panel_item,
            "printers": printers_item, "places": places_item, "users": users_item, "unknown": unknown_item}


def item(k, r, cp):
    """the report of the item of kind k at the start of r; struct.error when it is too short"""
    return DECODERS[k](r, cp)


# ---------------------------------------------------------------- lists of items
def walk(rest, cp, size=None):
    """the reports of the items of an item list; items that cannot be read are skipped with a warning"""
    out = []
    while True:
        yield
        if not rest:
            break
        try:
            n = u16(rest, 0)
            t = u8(rest, 2) if n else 0
        except struct.error:
            warnings.warn("list ends within an item")
            break
        if n == 0:
            break
        k = kind(t)
        if k is None:
            warnings.warn("unknown item type")
            k = "unknown"
        try:
            out.append(item(k, rest, cp))
        except struct.error:
            warnings.warn("item too short")
        rest = rest[n:]
    return out if size is None else {"size": size, "id_list": out}


def run(g):
    while True:
        try:
            next(g)
        except StopIteration as e:
            return e.value


def targets(d, cp):
    """the reports of the items of the target ID list d"""
    return run(walk(d[2:2 + u16(d, 0)], cp))


def shell_item(b, cp):
    return run(walk(b[8:u32(b, 0)], cp, u32(b, 0)))


def i_targets(d, cp):
    return LnkTargets(indata=d, cp=cp).as_list()


def g_targets(d, cp):
    return walk(d[2:2 + u16(d, 0)], cp)


def i_shell(d, cp):
    return ShellItem(indata=d, cp=cp).as_dict()


def g_shell(d, cp):
    return walk(d[8:u32(d, 0)], cp, u32(d, 0))


# ---------------------------------------------------------------- pairs
def i_item(k, r, cp):
    return CLASSES[k](indata=r, cp=cp).as_item()


def i_class(r):
    c = TargetFactory(indata=r).target_class()
    return None if c is None else c.__name__


def s_class(r):
    n = u16(r, 0)
    if n == 0:
        return None
    k = kind(u8(r, 2))
    if k is None:
        warnings.warn("unknown item type")
        k = "unknown"
    return CLASSES[k].__name__
