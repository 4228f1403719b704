"""LinkInfo (MS-SHLLINK 2.3)."""
import struct
import warnings

from LnkParse3.info.local import Local
from LnkParse3.info.network import Network
from LnkParse3.info_factory import InfoFactory
from LnkParse3.lnk_file import LnkFile
from LnkParse3.lnk_info import LnkInfo
from specs.base import *

DRIVES = ["DRIVE_UNKNOWN", "DRIVE_NO_ROOT_DIR", "DRIVE_REMOVABLE", "DRIVE_FIXED", "DRIVE_REMOTE", "DRIVE_CDROM",
          "DRIVE_RAMDISK"]
PROVIDERS = Network.NETWORK_PROVIDER_TYPES  # the name table is outside C14, see DESIGN.md

# a header with HasLinkInfo as the only link flag
HEADER = struct.pack("<I16sI", 76, bytes.fromhex("0114020000000000c000000000000046"), 2) + bytes(52)


def uni(d):
    """the optional Unicode offsets are there"""
    return u32(d, 4) >= 0x24


def common(d, cp):
    out = {"size": u32(d, 0), "header_size": u32(d, 4), "flags": u32(d, 8), "volume_id_offset": u32(d, 12),
           "local_base_path_offset": u32(d, 16), "common_network_relative_link_offset": u32(d, 20),
           "common_path_suffix_offset": u32(d, 24), "local_base_path_offset_unicode": None,
           "common_path_suffix_offset_unicode": None, "local_base_path": None, "common_path_suffix": None,
           "local_base_path_unicode": None, "common_path_suffix_unicode": None}
    if out["local_base_path_offset"]:
        out["local_base_path"] = text(d[out["local_base_path_offset"]:], cp)
    if out["common_path_suffix_offset"]:
        out["common_path_suffix"] = text(d[out["common_path_suffix_offset"]:], cp)
    if uni(d):
        a, b = u32(d, 28), u32(d, 32)
        out["local_base_path_offset_unicode"] = a
        out["common_path_suffix_offset_unicode"] = b
        if a:
            out["local_base_path_unicode"] = utext(d[a:])
        if b:
            out["common_path_suffix_unicode"] = utext(d[b:])
    return out


def volume(d, cp):
    v = u32(d, 12)
    kind, label = u32(d, v + 4), u32(d, v + 12)
    out = {"volume_id_size": u32(d, v), "r_drive_type": kind, "drive_serial_number": hex(u32(d, v + 8)),
           "volume_label_offset": label, "drive_type": DRIVES[kind] if kind < 7 else None, "volume_label": None,
           "volume_label_unicode_offset": None, "volume_label_unicode": None}
    if label == 0x14:
        n = u32(d, v + 16)
        out["volume_label_unicode_offset"] = n
        if n:
            out["volume_label_unicode"] = utext(d[v + n:])
    else:
        out["volume_label"] = text(d[v + label:], cp)
    return out


def network(d, cp):
    v = u32(d, 20)
    net, dev = u32(d, v + 8), u32(d, v + 12)
    out = {"common_network_relative_link_size": u32(d, v), "common_network_relative_link_flags": u32(d, v + 4),
           "net_name_offset": net, "device_name_offset": dev, "r_network_provider_type": hex(u32(d, v + 16)),
           "net_name_offset_unicode": None, "net_name_unicode": None, "device_name_offset_unicode": None,
           "device_name_unicode": None, "net_name": None, "device_name": None}
    if net > 0x14:
        a, b = u32(d, v + 20), u32(d, v + 24)
        out["net_name_offset_unicode"] = a
        out["device_name_offset_unicode"] = b
        out["net_name_unicode"] = utext(d[v + a:])
        out["device_name_unicode"] = utext(d[v + b:])
    else:
        out["net_name"] = text(d[v + net:], cp)
        out["device_name"] = text(d[v + dev:], cp)
    return out


# ---------------------------------------------------------------- accessors
COMMON = ["size", "header_size", "flags", "volume_id_offset", "local_base_path_offset",
          "common_network_relative_link_offset", "common_path_suffix_offset", "local_base_path_offset_unicode",
          "common_path_suffix_offset_unicode", "local_base_path", "common_path_suffix", "local_base_path_unicode",
          "common_path_suffix_unicode"]
LOCAL = ["volume_id_size", "r_drive_type", "drive_serial_number", "volume_label_offset", "drive_type", "volume_label",
         "volume_label_unicode_offset", "volume_label_unicode"]
NETWORK = ["common_network_relative_link_size", "common_network_relative_link_flags", "net_name_offset",
           "device_name_offset", "r_network_provider_type", "net_name_offset_unicode", "net_name_unicode",
           "device_name_offset_unicode", "device_name_unicode", "net_name", "device_name"]


def one(f, d, cp, k):
    return getattr(f(indata=d, cp=cp), k)()


def i_common(d, cp):
    info = LnkInfo(indata=d, cp=cp)
    return {"size": info.size(), "header_size": info.header_size(), "flags": info.flags(),
            "volume_id_offset": info.volume_id_offset(), "local_base_path_offset": info.local_base_path_offset(),
            "common_network_relative_link_offset": info.common_network_relative_link_offset(),
            "common_path_suffix_offset": info.common_path_suffix_offset(),
            "local_base_path_offset_unicode": info.local_base_path_offset_unicode(),
            "common_path_suffix_offset_unicode": info.common_path_suffix_offset_unicode(),
            "local_base_path": info.local_base_path(), "common_path_suffix": info.common_path_suffix(),
            "local_base_path_unicode": info.local_base_path_unicode(),
            "common_path_suffix_unicode": info.common_path_suffix_unicode()}


def i_volume(d, cp):
    info = Local(indata=d, cp=cp)
    return {"volume_id_size": info.volume_id_size(), "r_drive_type": info.r_drive_type(),
            "drive_serial_number": info.drive_serial_number(), "volume_label_offset": info.volume_label_offset(),
            "drive_type": info.drive_type(), "volume_label": info.volume_label(),
            "volume_label_unicode_offset": info.volume_label_unicode_offset(),
            "volume_label_unicode": info.volume_label_unicode()}


def i_network(d, cp):
    info = Network(indata=d, cp=cp)
    return {"common_network_relative_link_size": info.common_network_relative_link_size(),
            "common_network_relative_link_flags": info.common_network_relative_link_flags(),
            "net_name_offset": info.net_name_offset(), "device_name_offset": info.device_name_offset(),
            "r_network_provider_type": info.r_network_provider_type(),
            "net_name_offset_unicode": info.net_name_offset_unicode(), "net_name_unicode": info.net_name_unicode(),
            "device_name_offset_unicode": info.device_name_offset_unicode(),
            "device_name_unicode": info.device_name_unicode(), "net_name": info.net_name(),
            "device_name": info.device_name()}


# ---------------------------------------------------------------- the kind of location
def i_kind(d):
    c = InfoFactory(LnkInfo(indata=d)).info_class()
    return c and (c.__name__, c(indata=d).location())


def s_kind(d):
    try:
        f = u32(d, 8)
    except struct.error:
        warnings.warn("link info too short")
        return None
    if f & 1:
        return ("Local", "Local")
    if f & 2:
        return ("Network", "Network")
    return None


# ---------------------------------------------------------------- report
def report(d, cp):
    """the link_info part of the full report; struct.error when a field of it lies outside the input"""
    k = s_kind(d)
    if k is None:
        return {}
    c = common(d, cp)
    out = {"link_info_size": c["size"], "link_info_header_size": c["header_size"], "link_info_flags": c["flags"],
           "volume_id_offset": c["volume_id_offset"], "local_base_path_offset": c["local_base_path_offset"],
           "common_network_relative_link_offset": c["common_network_relative_link_offset"],
           "common_path_suffix_offset": c["common_path_suffix_offset"]}
    if c["local_base_path_offset"]:
        out["local_base_path"] = c["local_base_path"]
    if c["common_path_suffix_offset"]:
        out["common_path_suffix"] = c["common_path_suffix"]
    for key in ("local_base_path", "common_path_suffix"):
        if c[key + "_offset_unicode"]:
            out[key + "_offset_unicode"] = c[key + "_offset_unicode"]
            out[key + "_unicode"] = c[key + "_unicode"]
    out["location"] = k[0]
    if k[0] == "Local":
        v = volume(d, cp)
        loc = {key: v[key] for key in ("volume_id_size", "r_drive_type", "volume_label_offset", "drive_serial_number",
                                       "drive_type", "volume_label")}
        if v["volume_label_unicode_offset"]:
            loc["volume_label_unicode_offset"] = v["volume_label_unicode_offset"]
            loc["volume_label_unicode"] = v["volume_label_unicode"]
    else:
        v = network(d, cp)
        loc = {key: v[key] for key in ("common_network_relative_link_size", "common_network_relative_link_flags",
                                       "net_name_offset", "device_name_offset", "r_network_provider_type")}
        for key in ("net_name", "device_name"):
            if v[key + "_offset_unicode"]:
                loc[key + "_offset_unicode"] = v[key + "_offset_unicode"]
                loc[key + "_unicode"] = v[key + "_unicode"]
        for key in ("net_name", "device_name"):
            if v[key]:
                loc[key] = v[key]
    out["location_info"] = loc
    return out


def complete(d, cp):
    """every field of the link info lies inside the input"""
    try:
        report(d, cp)
    except struct.error:
        return False
    return True


def i_report(d, cp):
    r = LnkFile(indata=HEADER + d, cp=cp).get_json(get_all=True)["link_info"]
    if "location_info" in r:
        r["location_info"].pop("network_provider_type", None)
    return r


def s_report(d, cp):
    return report(d, cp)


# the cases of the report, checked in parallel
def case(d, cp, k, unicode):
    """a complete link info with location k, with or without Unicode offsets"""
    if len(d) < 12:
        return False
    f = u32(d, 8)
    if k != ("Local" if f >> 0 & 1 else "Network" if f >> 1 & 1 else None):
        return False
    return uni(d) == unicode and complete(d, cp)


def local_plain(d, cp):
    return case(d, cp, "Local", False)


def local_unicode(d, cp):
    return case(d, cp, "Local", True)


def network_plain(d, cp):
    return case(d, cp, "Network", False)


def network_unicode(d, cp):
    return case(d, cp, "Network", True)


def neither(d, cp):
    return len(d) < 12 or u32(d, 8) % 4 == 0
