"""The full and the default report of a link."""
import json

from LnkParse3.lnk_file import LnkFile
from specs import extra, header, items, link, strings
from specs.base import *

HEADER = {"guid": header.link_cls_id, "creation_time": header.creation_time, "accessed_time": header.access_time,
          "modified_time": header.write_time, "file_size": header.file_size, "icon_index": header.icon_index,
          "windowstyle": header.window_style, "hotkey": header.hot_key, "r_hotkey": header.raw_hot_key,
          "reserved0": header.reserved0, "reserved1": header.reserved1, "reserved2": header.reserved2}

# what the default report leaves out
RAW = {"header": ["header_size", "reserved0", "reserved1", "reserved2"],
       "link_info": ["link_info_size", "link_info_header_size", "volume_id_offset", "local_base_path_offset",
                     "common_network_relative_link_offset", "common_path_suffix_offset"],
       "target": ["index", "size"]}
RAW_LOCATION = {"Local": ["volume_id_size", "volume_label_offset"],
                "Network": ["common_network_relative_link_size", "net_name_offset", "device_name_offset"]}


def full_report(d, cp, allow):
    """the full report apart from the contents of link_info, which the linkinfo contracts specify"""
    x = link.layout(d, cp, allow)
    h = {k: f(d) for k, f in HEADER.items()}
    h["r_link_flags"], h["r_file_flags"] = u32(d, 20), u32(d, 24)
    h["link_flags"], h["file_flags"] = header.link_flags(d), header.file_flags(d)
    h["header_size"] = 76
    out = {"size": x["size"], "header": h, "data": strings.report(*x["strings"]), "extra": extra.report(*x["extra"])}
    if x["targets"] is not None:
        out["target"] = {"size": u16(x["targets"], 0), "items": items.targets(x["targets"], cp), "index": 78}
    return out


def default_report(full):
    """the full report without the raw layout fields"""
    for k, names in RAW.items():
        if k in full:
            for n in names:
                full[k].pop(n, None)
    names = RAW_LOCATION.get(full["link_info"].get("location"))
    if names and "location_info" in full["link_info"]:
        for n in names:
            full["link_info"]["location_info"].pop(n, None)
    if "target" in full:
        for x in full["target"]["items"]:
            x.pop("modification_time", None)
    return full


def i_report(d, cp, allow):
    lnk = LnkFile(indata=d, cp=cp, allow_terminal_blocks=allow)
    full, default = lnk.get_json(True), lnk.get_json()
    full.pop("link_info")
    return [full, default]


def s_report(d, cp, allow):
    full = full_report(d, cp, allow)
    default = full_report(d, cp, allow)
    default["link_info"] = LnkFile(indata=d, cp=cp, allow_terminal_blocks=allow).get_json(True)["link_info"]
    return [full, default_report(default)]


# ---------------------------------------------------------------- what is printed
def iso(t):
    """ISO 8601 text of a UTC time, cut to whole seconds"""
    return (format(t.year, "04d") + "-" + format(t.month, "02d") + "-" + format(t.day, "02d") + "T" +
            format(t.hour, "02d") + ":" + format(t.minute, "02d") + ":" + format(t.second, "02d") + "+00:00")


def i_json(d, cp, allow, details):
    LnkFile(indata=d, cp=cp, allow_terminal_blocks=allow).print_json(details)


def s_json(d, cp, allow, details):
    print(json.dumps(LnkFile(indata=d, cp=cp, allow_terminal_blocks=allow).get_json(details), default=iso))
