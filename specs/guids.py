"""GUIDs (MS-DTYP 2.3.4)."""
from LnkParse3.utils import parse_uuid
from specs.base import *


def i_guid(b):
    return parse_uuid(b)


def s_guid(b):
    return guid(b, 0)


def i_numbers(b):
    """the numbers that the text of a GUID shows"""
    t = parse_uuid(b)
    return [len(t), t[8], t[13], t[18], t[23], int(t[0:8], 16), int(t[9:13], 16), int(t[14:18], 16), int(t[19:23], 16),
            int(t[24:36], 16)]


def s_numbers(b):
    """all of its bits: texts of different GUIDs differ"""
    return [36, "-", "-", "-", "-", u32(b, 0), u16(b, 4), u16(b, 6), int.from_bytes(b[8:10], "big"),
            int.from_bytes(b[10:16], "big")]
