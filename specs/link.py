"""The link as a whole: how its sections follow one another."""
import json
import warnings
from subprocess import list2cmdline

from LnkParse3.lnk_file import LnkFile
from specs import extra, items, linkinfo, strings
from specs.base import *
from specs.header import header_ok


def layout(d, cp, allow):
    """the targets (size and reports), the kind and bytes of the link info, the arguments of the other sections"""
    f, at = u32(d, 20), 76
    targets = info = None
    if f >> 0 & 1:
        rest = d[at:]
        if len(rest) < 2:
            warnings.warn("input ends before the target list")
        else:
            targets = rest
            at += 2 + u16(rest, 0)
    if f >> 1 & 1:
        rest = d[at:]
        k = linkinfo.s_kind(rest)
        if k is not None and not f >> 8 & 1:
            info = (k[0], rest)
        if len(rest) < 4:
            warnings.warn("input ends before the link info")
        else:
            at += u32(rest, 0)
    text = (f, d[at:], cp)
    strings.warn(*text)
    at += strings.size(*text)
    blocks = (d[at:], cp, allow)
    extra.parse_warnings(*blocks)
    at += extra.size(*blocks)
    at += min(len(d[at:]), 4)
    return {"targets": targets, "info": info, "strings": text, "extra": blocks, "size": at}


def i_sections(d, cp, allow):
    lnk = LnkFile(indata=d, cp=cp, allow_terminal_blocks=allow)
    targets = info = None
    if lnk.targets:
        targets = (lnk.targets.id_list_size(), lnk.targets.as_list())
    if lnk.info:
        info = (type(lnk.info).__name__, lnk.info.size(), lnk.info.flags())
    return [lnk.size, targets, info, lnk.string_data.as_dict(), lnk.extras.as_dict()]


def s_sections(d, cp, allow):
    x = layout(d, cp, allow)
    targets, info = x["targets"], x["info"]
    if targets is not None:
        targets = (u16(targets, 0), items.targets(targets, cp))
    if info is not None:
        info = (info[0], u32(info[1], 0), u32(info[1], 8))
    return [x["size"], targets, info, strings.report(*x["strings"]), extra.report(*x["extra"])]


def link_ok(d, cp, allow):
    return header_ok(d)


# ---------------------------------------------------------------- the command
def command(f, d, cp):
    p, a = strings.relative_path(f, d, cp), strings.command_line_arguments(f, d, cp)
    if p is None:
        return "" if a is None else a
    q = list2cmdline([p])
    return q if a is None else q + " " + a


def i_command(d, cp, allow):
    return LnkFile(indata=d, cp=cp, allow_terminal_blocks=allow).lnk_command


def s_command(d, cp, allow):
    return command(*layout(d, cp, allow)["strings"])


def i_print(d, cp, j):
    LnkFile(indata=d, cp=cp).print_shortcut_target(j)


def s_print(d, cp, j):
    c = command(*layout(d, cp, True)["strings"])
    if j:
        print(json.dumps({"shortcut_target": c}))
    else:
        print(c)
