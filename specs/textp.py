"""Terminated text (MS-SHLLINK 2: strings in fields are null-terminated)."""
from LnkParse3.text_processor import TextProcessor
from specs.base import *


def i_read(b, cp):
    return TextProcessor(cp=cp).read_string(b)


def s_read(b, cp):
    return text(b, cp)


def i_uread(b, cp):
    return TextProcessor(cp=cp).read_unicode_string(b)


def s_uread(b, cp):
    return utext(b)


def i_list(b, cp):
    return list(TextProcessor(cp=cp).read_strings(b))


def g_list(b, cp):
    out, cur, i = [], b"", 0
    while True:
        yield
        if i >= len(b):
            break
        if b[i] == 0:
            out.append(decode(cur, cp or "cp1252"))
            cur = b""
        else:
            cur = cur + b[i:i + 1]
        i += 1
    out.append(decode(cur, cp or "cp1252"))
    return out


def g_pieces(b, cp):
    """as g_list, a text at a time"""
    out, rest = [], b
    while True:
        yield
        i = rest.find(b"\x00")
        if i < 0:
            break
        out.append(decode(rest[:i], cp or "cp1252"))
        rest = rest[i + 1:]
    out.append(decode(rest, cp or "cp1252"))
    return out
