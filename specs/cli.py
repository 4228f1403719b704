"""The command line tool."""
import os
import sys
import tempfile

from LnkParse3.lnk_file import LnkFile, main
from specs import header, readable, shapes
from specs.base import *

FILE, CODEPAGE = "Dir/aFile.lnk", "CodePage"


class File:
    """a file opened for reading bytes"""

    def __init__(self, d):
        self.d, self.closed = d, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True

    def read(self, n=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        d = self.d
        if n is None or n < 0:
            n = len(d)
        self.d = d[n:]
        return d[:n]


def command_line(style, t, j, a, given):
    """the arguments that ask for the options, in one of several ways to write them"""
    short, long = "", []
    if a:
        short, long = short + "a", long + ["--all"]
    if t:
        short, long = short + "t", long + ["--target"]
    if j:
        short, long = short + "j", long + ["--json"]
    if style == 0:
        return ["-" + x for x in short] + (["-c", CODEPAGE] if given else []) + [FILE]
    if style == 1:
        return (["--codepage", CODEPAGE] if given else []) + [FILE] + long[::-1]
    if style == 2:
        return [FILE] + (["-" + short] if short else []) + (["-c" + CODEPAGE] if given else [])
    return long + [FILE] + (["--codepage=" + CODEPAGE] if given else [])


def run(args, d, cp):
    """run the tool with the arguments on a file with the given contents (the engine has its own contract for this)"""
    argv = sys.argv
    with tempfile.TemporaryDirectory() as t:
        os.mkdir(t + "/Dir")
        with open(t + "/" + FILE, "wb") as f:
            f.write(d)
        sys.argv = ["lnkparse"] + [x.replace(FILE, t + "/" + FILE).replace(CODEPAGE, cp) for x in args]
        try:
            return main()
        except SystemExit as e:
            return ["exit", e.code]
        finally:
            sys.argv = argv


def main_ok(style, t, j, a, given, cp, d):
    return header.header_ok(d)


def i_main(style, t, j, a, given, cp, d):
    return run(command_line(style, t, j, a, given), d, cp)


def s_main(style, t, j, a, given, cp, d):
    lnk = LnkFile(indata=d, cp=cp if given else "cp1252")
    if t:
        lnk.print_shortcut_target(j)
    elif j:
        lnk.print_json(a)
    else:
        lnk.print_lnk_file(a)
    return None


# ---------------------------------------------------------------- a link read from a file
def state(lnk):
    """all there is to know of the link (the engine takes the object itself)"""
    return [lnk.get_json(True), lnk.lnk_command, lnk.size]


def i_file(d, cp, allow):
    return state(LnkFile(fhandle=File(d), cp=cp, allow_terminal_blocks=allow))


def s_file(d, cp, allow):
    return state(LnkFile(indata=d, cp=cp, allow_terminal_blocks=allow))


# ---------------------------------------------------------------- any report, for the contract of LnkFile
def report(d, details):
    """a report with all sections"""
    out = readable.rep("target", d, b"", 5, shapes.count("items"), False, details)
    out["link_info"] = readable.rep("local", d, b"", 3, 0, False, details)["link_info"]
    out["data"] = shapes.data(b"", 13)
    out["extra"] = shapes.blocks(b"", 2, shapes.count("blocks"), False)
    return out
