"""The readable report."""
import textwrap

import yaml

from LnkParse3.lnk_file import LnkFile
from LnkParse3.lnk_header import LnkHeader
from specs import header, report, shapes, total
from specs.base import *


def heading(k, top):
    """the readable form of the name of a field; the raw mark r_ is dropped"""
    if k[:2] == "r_":
        k = k[2:]
    return (k.upper() if top or k.upper() == k else k.capitalize()).replace("_", " ")


def nice(v, top=False):
    """the values under readable headings; an object of a class is shown under the name of its class"""
    if isinstance(v, list):
        return [nice(x) for x in v]
    if isinstance(v, dict):
        v = dict(v)
        if "class" in v:
            c = v.pop("class")
            return {c: nice(v)}
        out = {}
        for k, x in v.items():
            out[heading(k, top)] = nice(x)
        return out
    return v


def flags(names, raw):
    """the names of the flags and their number"""
    return " | ".join(names) + (" - (" if raw else "(") + str(raw) + ")"


def readable(r, link_flags, file_flags):
    """what is shown of the report r: the header, then the other sections"""
    h = dict(r["header"])
    h.pop("r_hotkey")
    h["link_flags"], h["file_flags"] = link_flags, file_flags
    out = nice(h)
    for k, v in r.items():
        if k != "header":
            out[heading(k, True)] = nice(v)
    return out


def show(d, r):
    """print the report r of a link with header d"""
    v = readable(r, flags(header.link_flags(d), u32(d, 20)), flags(header.file_flags(d), u32(d, 24)))
    print("Windows Shortcut Information:")
    print(textwrap.indent(yaml.dump(v, indent=3, sort_keys=False, width=132, allow_unicode=True), "   "))


# ---------------------------------------------------------------- print_lnk_file, given any report
class Shown(LnkFile):
    """a link with the given header whose report is the given one; it stands for every link with that report"""

    def __init__(self, d, make):
        self.indata = d
        self.header = LnkHeader(indata=d)
        self.make = make

    def get_json(self, get_all=False):
        return self.make(get_all)


RAW_HEADER = ["header_size", "reserved0", "reserved1", "reserved2"]
HEADER = ["guid", "r_link_flags", "r_file_flags", "creation_time", "accessed_time", "modified_time", "file_size",
          "icon_index", "windowstyle", "hotkey", "r_hotkey", "link_flags", "file_flags"] + RAW_HEADER


def head(d, seed, details):
    h = shapes.leaves(seed, "header ", HEADER)
    h["r_link_flags"], h["r_file_flags"] = u32(d, 20), u32(d, 24)
    h["link_flags"], h["file_flags"] = header.link_flags(d), header.file_flags(d)
    if not details:
        for n in RAW_HEADER:
            h.pop(n)
    return h


def rep(section, d, seed, k, n, m, details):
    """a report in which the section is arbitrary"""
    out = {"size": shapes.leaf(seed, "link size"), "header": head(d, seed, details)}
    if section == "target":
        out["target"] = shapes.target(seed, k, n)
        if not details:
            out["target"].pop("size")
            out["target"].pop("index")
    info = {}
    if section == "link_info":
        info = shapes.link_info(seed, k)
    elif section == "local":
        info = shapes.local(seed, k)
    elif section == "network":
        info = shapes.network(seed, k)
    if section in ("link_info", "local", "network") and not details:
        for x in report.RAW["link_info"]:
            info.pop(x)
        for x in report.RAW_LOCATION.get(pick_location(section), ()):
            info["location_info"].pop(x)
    out["link_info"] = info
    out["data"] = shapes.data(seed, k if section == "data" else 1)
    out["extra"] = shapes.blocks(seed, k, n, m) if section == "extra" else {}
    return out


def pick_location(section):
    return {"local": "Local", "network": "Network"}.get(section)


def show_ok(section, d, *rest):
    return header.header_ok(d)


def i_show(section, d, seed, k, n, m, details):
    Shown(d, lambda all: rep(section, d, seed, k, n, m, all)).print_lnk_file(details)


def s_show(section, d, seed, k, n, m, details):
    show(d, rep(section, d, seed, k, n, m, details))


# ---------------------------------------------------------------- the order of the report of a link
def ordered(v):
    """whether a raw number never comes after the name that shares its heading"""
    return all(not ("r_" + k in v and k in v) or list(v).index("r_" + k) < list(v).index(k) for k in v)


def whole(lnk, d, details):
    """natively, what is printed for the link itself (the engine takes this as nothing)"""
    lnk.print_lnk_file(details)


def whole_spec(lnk, d, details):
    show(d, lnk.get_json(details))


def i_order(d, cp, allow, details):
    lnk = LnkFile(indata=d, cp=cp, allow_terminal_blocks=allow)
    r = lnk.get_json(details)
    whole(lnk, d, details)
    r["header"].pop("r_hotkey")
    return [ordered(r["header"]), ordered(r["link_info"]), ordered(r["link_info"].get("location_info", {}))]


def s_order(d, cp, allow, details):
    lnk = LnkFile(indata=d, cp=cp, allow_terminal_blocks=allow)
    lnk.get_json(details)
    whole_spec(lnk, d, details)
    return [True, True, True]
