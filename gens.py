"""Native inputs for the contracts: well-formed structures of MS-SHLLINK, then damaged.

Used to run code and specification side by side under CPython (a cross-check of the verifier's semantics) and to look
for a failing input when an obligation is not discharged.
"""
import struct

B85 = ("!$%&'()*+,-.0123456789=?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{}~")
WORDS = ["", "a", "x y", "C:\\", "C:\\Users\\me\\file name.txt", "\\\\srv\\share", "Zażółć", "%windir%\\x.exe", "..\\a.b",
         "-c \"a b\" \\", "\U0001F600 x", "\ufeffq", "tab\tq", "A" * 300, "B" * 70000, "12345678901234567890123456"]


def raw(r, n):
    return bytes(r.choice((0, 0, 0, 1, 0xFF, r.randrange(256))) if r.random() < .5 else r.randrange(256)
                 for _ in range(n))


def rb(r, hi=40):
    return raw(r, r.randrange(hi))


def word(r):
    w = r.choice(WORDS[:-2]) if r.random() < .97 else r.choice(WORDS)
    if r.random() < .3:
        w += "".join(chr(r.choice((r.randrange(32, 127), r.randrange(160, 0x500)))) for _ in range(r.randrange(12)))
    return w


def small(w):
    return w[:400]


def ansi(r, nul=True):
    if r.random() < .15:
        b = rb(r, 12).replace(b"\0", b"x")
        if r.random() < .5:
            b += r.choice((b"\x81", b"\x8d\x90", b"\xc4\x81", b"\xff"))
    else:
        b = small(word(r)).encode(r.choice(("cp1252", "utf-8")), "replace")
    return b + (b"\0" if nul and r.random() < .9 else b"")


def uni(r, nul=True):
    if r.random() < .12:
        b = rb(r, 12)
        b += r.choice((b"\x00\xd8", b"\x00\xdc\x41\x00", b"\x3d\xd8\x00\xde", b"\x00"))
    else:
        b = small(word(r)).encode("utf-16-le")
    return b + (b"\0\0" if nul and r.random() < .9 else b"")


def field(r, b, n):
    if r.random() < .05:
        return raw(r, n)
    return (b + (raw(r, n) if r.random() < .4 else bytes(n)))[:n]


def u16(r):
    return struct.pack("<H", r.choice((0, 1, 2, 3, 0x14, 0xFFFF, 0x8000, r.randrange(65536), r.randrange(300))))


def u32(r):
    return struct.pack("<I", r.choice((0, 1, 2, 3, 0x14, 0xFFFFFFFF, 0x80000000, r.randrange(1 << 32), r.randrange(300))))


def pick32(r, *v):
    return struct.pack("<I", r.choice(v) & 0xFFFFFFFF) if r.random() < .8 else u32(r)


def g16(r):
    return raw(r, 16) if r.random() < .8 else bytes.fromhex("0114020000000000C000000000000046")


def dos(r):
    k = r.random()
    if k < .15:
        return bytes(4)
    if k < .7:
        d = (r.randrange(128) << 9) | (r.randrange(1, 13) << 5) | r.randrange(1, 32)
        t = (r.randrange(24) << 11) | (r.randrange(60) << 5) | r.randrange(30)
        return struct.pack("<HH", d, t)
    if k < .8:
        return r.choice((b"\0\0" + raw(r, 2), raw(r, 2) + b"\0\0"))
    return raw(r, 4)


def filetime(r):
    return struct.pack("<Q", r.choice((0, 1, 9, 10, 131000000000000000 + r.randrange(10 ** 15), r.randrange(1 << 64),
                                       r.randrange(1 << 62), (1 << 63) - 1, 1 << 63, (1 << 64) - 1,
                                       265046774399999999 - r.randrange(1 << 40),
                                       2650467744000000000, 2650467743999990000, 2650467744000000001,
                                       r.randrange(1 << 32), r.randrange(10 ** 8) * 10 ** 7)))


def mutate(r, d, p=.5):
    """damage d"""
    if r.random() > p:
        return d
    d = bytearray(d)
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        if not d:
            break
        k = r.random()
        i = r.randrange(len(d)) if r.random() < .6 else r.randrange(min(len(d), 80))
        if k < .25:
            d[i] = r.choice((0, 1, 0xFF, 0x80, d[i] ^ (1 << r.randrange(8)), r.randrange(256)))
        elif k < .4:
            d[i:i + 2] = struct.pack("<H", r.choice((0, 1, 2, 3, 4, len(d) - i & 0xFFFF, len(d) & 0xFFFF,
                                                     r.randrange(65536))))
        elif k < .6:
            d[i:i + 4] = struct.pack("<I", r.choice((0, 1, 2, 3, 4, 5, 8, len(d) - i, len(d), 0xFFFFFFFF, 0x80000000,
                                                     r.randrange(1 << 32), r.randrange(64))))
        elif k < .8:
            del d[i:]
        elif k < .87:
            del d[i:i + r.randrange(1, 9)]
        elif k < .95:
            d[i:i] = raw(r, r.randrange(1, 9))
        else:
            d += rb(r, 30)
    return bytes(d)


# ---------------------------------------------------------------- header
def header(r, flags=None):
    d = struct.pack("<I", 76)
    d += bytes.fromhex("0114020000000000C000000000000046") if r.random() < .7 else raw(r, 16)
    if flags is None:
        flags = r.choice((r.randrange(1 << 32), r.randrange(1 << 10), 0, 0xFF))
    d += struct.pack("<I", flags)
    d += struct.pack("<I", r.choice((r.randrange(1 << 32), 0x20, 0, 1 << r.randrange(32))))
    d += filetime(r) + filetime(r) + filetime(r)
    d += u32(r) + u32(r) + struct.pack("<I", r.choice((0, 1, 3, 7, 2, r.randrange(10), r.randrange(1 << 32))))
    d += bytes([r.choice((0, 0x30, 0x39, 0x41, 0x5A, 0x70, 0x87, 0x90, 0x91, r.randrange(256))),
                r.choice((0, 1, 2, 4, 3, r.randrange(8), r.randrange(256)))])
    d += r.choice((bytes(10), bytes(10), raw(r, 10), b"\1\0" + bytes(8), bytes(2) + b"\1" + bytes(7), bytes(9) + b"\1"))
    return d


def g_header(r):
    return header(r) + rb(r, 20)


# ---------------------------------------------------------------- items
TYPE = {"cpl": [0], "category": [1], "root": [0x1E, 0x1F], "volume": [0x20 + i for i in range(16)],
        "file": [0x30 + i for i in range(16)] + [0xB1, 0xB5], "network": [0x40 + i for i in range(16)],
        "compressed": [0x52], "internet": [0x61], "panel": [0x70, 0x71], "printers": [0x72], "places": [0x73],
        "users": [0x74], "unknown": [0x02, 0x10, 0x1D, 0x50, 0x53, 0x60, 0x62, 0x75, 0x80, 0xFF]}


def item_body(r, k):
    t = bytes([r.choice(TYPE[k])])
    if k == "file":
        n = uni(r) if t[0] & 4 else ansi(r)
        return t + raw(r, 1) + u32(r) + dos(r) + u16(r) + n + rb(r, 20)
    if k == "root":
        return t + bytes([r.choice((0, 0x42, 0x44, 0x48, 0x4C, 0x50, 0x54, 0x58, 0x60, 0x68, 0x70, 0x78, 0x80,
                                    r.randrange(256)))]) + g16(r) + rb(r, 10)
    if k == "volume":
        return t + r.choice((field(r, ansi(r), 20), raw(r, 1) + g16(r), field(r, b"C:\\", 22))) + rb(r, 6)
    if k == "network":
        return t + raw(r, 1) + bytes([r.choice((0, 0x40, 0x80, 0xC0, r.randrange(256)))]) + ansi(r) + ansi(r) + ansi(r)
    if k == "panel":
        return t + raw(r, 13) + g16(r) + rb(r, 5)
    if k == "category":
        return t + raw(r, 1) + u32(r) + pick32(r, *range(14)) + rb(r, 8)
    if k == "cpl":
        if r.random() < .5:
            a, b, c = uni(r), uni(r), uni(r)
            o1, o2 = len(a) // 2, (len(a) + len(b)) // 2
            if r.random() < .3:
                o2 = 0
            return t + raw(r, 1) + u32(r) + raw(r, 4) + b"\0" + raw(r, 7) + struct.pack("<HH", o1 & 0xFFFF, o2 & 0xFFFF) \
                + a + b + c
        a, b, c = ansi(r), ansi(r), ansi(r)
        o1, o2 = len(a), len(a) + len(b)
        if r.random() < .3:
            o2 = 0
        return t + raw(r, 1) + u32(r) + struct.pack("<HH", o1 & 0xFFFF, o2 & 0xFFFF) + a + b + c
    if k == "users":
        inner = item_body(r, "file")
        inner = struct.pack("<H", len(inner) + 2) + inner
        n = r.choice((len(inner) + 4, len(inner) + 4, r.randrange(60)))
        return t + raw(r, 1) + struct.pack("<H", n) + r.choice((b"CFSF", raw(r, 4))) + inner + g16(r) + g16(r)
    return t + rb(r, 12)


def item(r, k=None, p=.3):
    k = k or r.choice(list(TYPE))
    b = mutate(r, item_body(r, k), p)[:3000]
    n = len(b) + 2
    if r.random() < .1:
        n = max(1, n + r.randrange(-8, 8))
    return struct.pack("<H", n & 0xFFFF) + b


def items(r):
    d = b"".join(item(r) for _ in range(r.choice((0, 1, 1, 2, 3, 4))))
    if r.random() < .8:
        d += b"\0\0"
    return d


def idlist(r):
    d = items(r)
    n = len(d)
    if r.random() < .2:
        n = r.choice((0, 1, 2, max(0, n - 2), n - 1 if n else 0, n + 3, r.randrange(65536)))
    return struct.pack("<H", n & 0xFFFF) + d


def g_idlist(r):
    return mutate(r, idlist(r) + rb(r, 8), .3)


# ---------------------------------------------------------------- link info
def volume_id(r):
    if r.random() < .4:
        b = uni(r)
        h = struct.pack("<II", 0x14, r.choice((0x14, 0x14, r.randrange(40))))
    else:
        b = ansi(r)
        h = struct.pack("<I", r.choice((0x10, 0x10, r.randrange(40))))
    d = pick32(r, *range(8)) + u32(r) + h + b
    return struct.pack("<I", len(d) + 4) + d


def cnrl(r):
    u = r.random() < .5
    base = 0x1C if u else 0x14
    a, b = ansi(r), ansi(r)
    ua, ub = uni(r), uni(r)
    no = base if r.random() < .8 else r.randrange(60)
    do = base + len(a) if r.random() < .8 else r.choice((0, r.randrange(60)))
    d = pick32(r, 0, 1, 2, 3) + struct.pack("<II", no, do) + \
        pick32(r, *[0x1A0000 + 0x10000 * i for i in range(45)], 0, 0x20000)
    if u:
        o = base + len(a) + len(b)
        d += struct.pack("<II", r.choice((o, o, 0, r.randrange(60))), r.choice((o + len(ua), o + len(ua), 0)))
    d += a + b
    if u:
        d += ua + ub
    return struct.pack("<I", len(d) + 4) + d


def linkinfo(r):
    hs = r.choice((0x1C, 0x1C, 0x24, 0x24, 0x24, 0x20, 0x28, r.randrange(64)))
    big = hs >= 0x24
    flags = r.choice((0, 1, 1, 2, 2, 3, r.randrange(8), r.randrange(1 << 32)))
    base = max(hs, 0x1C) if r.random() < .9 else 0x1C
    body, off = b"", {}

    def put(k, b):
        nonlocal body
        off[k] = base + len(body)
        body += b
    put("v", volume_id(r))
    put("p", ansi(r))
    put("n", cnrl(r))
    put("s", ansi(r))
    put("pu", uni(r))
    put("su", uni(r))

    def o(k, z=.15):
        return struct.pack("<I", r.choice((0, r.randrange(200), 0xFFFFFFFF)) if r.random() < z else off[k])
    h = struct.pack("<II", hs, flags) + o("v", .1) + o("p") + o("n", .1) + o("s")
    if big or r.random() < .2:
        h += o("pu") + o("su")
    h += raw(r, 64)
    d = h[:base - 4] + body
    n = len(d) + 4
    if r.random() < .15:
        n = r.choice((0, n + r.randrange(-20, 20), r.randrange(200), r.randrange(1 << 32)))
    return struct.pack("<I", n & 0xFFFFFFFF) + d


def g_linkinfo(r):
    return mutate(r, linkinfo(r) + rb(r, 8), .4)


def g_vollinkinfo(r):
    d = bytearray(linkinfo(r))
    d[8] |= 1
    return mutate(r, bytes(d) + rb(r, 8), .3)


def g_netlinkinfo(r):
    d = bytearray(linkinfo(r))
    d[8] = d[8] & 0xFE | 2
    return mutate(r, bytes(d) + rb(r, 8), .3)


# ---------------------------------------------------------------- string data
def string(r, u):
    w = word(r)
    if r.random() < .1:
        w = w + "\0" + word(r)
    b = w.encode("utf-16-le") if u else w.encode("cp1252", "replace")
    n = len(b) // 2 if u else len(b)
    if r.random() < .1:
        n += r.randrange(-3, 4)
    n = max(0, min(n, 65535))
    return struct.pack("<H", n) + b


def stringdata(r, flags):
    d = b""
    for bit in (2, 3, 4, 5, 6):
        if flags >> bit & 1:
            d += string(r, flags >> 7 & 1)
    return d


# ---------------------------------------------------------------- extra blocks
def b_env(r):
    return field(r, ansi(r), 260) + field(r, uni(r), 520)


def quad(r):
    """five digits, mostly of a number of 32 bits"""
    if r.random() < .2:
        return "".join(r.choice(B85) for _ in range(5))
    n = r.choice((0, 0, 1, 84, 85, 255, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, r.randrange(1 << 16),
                  r.randrange(1 << 32), r.randrange(1 << 32), r.randrange(1 << 32)))
    return "".join(B85[n // 85 ** j % 85] for j in range(5))


def darwin_text(r):
    w = "".join(quad(r) for _ in range(4)) + r.choice(("", "Feature", "F", "Complete", "SPACE OK")) + \
        r.choice((">", ">", ">", "<", "")) + "".join(quad(r) for _ in range(5))[:r.choice((20, 20, 20, 20, 0, 5, 19, 22))]
    if r.random() < .15:
        w = w[:r.randrange(len(w) + 1)]
    if r.random() < .1:
        i = r.randrange(len(w) + 1)
        w = w[:i] + r.choice(" \"#/:;?|\\\xe9") + w[i + 1:]
    return w


def b_darwin(r):
    w = darwin_text(r)
    v = w if r.random() < .8 else darwin_text(r)
    return field(r, w.encode("cp1252") + b"\0", 260) + field(r, v.encode("utf-16-le") + b"\0\0", 520)


def b_console(r):
    return u16(r) + u16(r) + raw(r, 12) + u32(r) + u32(r) + u32(r) + u32(r) + u32(r) + field(r, uni(r), 64) + \
        u32(r) + u32(r) + u32(r) + u32(r) + u32(r) + u32(r) + u32(r) + u32(r) + raw(r, 64) + rb(r, 8)


def b_tracker(r):
    return pick32(r, 0x58) + pick32(r, 0) + field(r, ansi(r), 16) + g16(r) + g16(r) + g16(r) + g16(r)


def prop_value(r, named):
    t = r.choice((0, 2, 3, 8, 0x1E, 0x1F, 0x40, 0x48, 0x13, 0x1013, 0x2, 0x1F, 0x1F, r.randrange(65536)))
    if t == 2:
        v = raw(r, 2) + bytes(2)
    elif t == 0x1F:
        w = uni(r)
        v = struct.pack("<I", r.choice((len(w) // 2, len(w) // 2, len(w), r.randrange(1 << 32)))) + w
    else:
        v = rb(r, 20)
    d = struct.pack("<HH", t, 0 if r.random() < .8 else r.randrange(65536)) + v
    if named:
        w = uni(r)
        d = struct.pack("<I", r.choice((len(w), len(w), len(w), r.randrange(60)))) + b"\0" + w + d
    else:
        d = u32(r) + b"\0" + d
    n = len(d) + 4
    if r.random() < .08:
        n = r.choice((n + r.randrange(-9, 9), r.randrange(60), r.randrange(1 << 32)))
    return struct.pack("<I", n & 0xFFFFFFFF) + d


def storage(r):
    named = r.random() < .45
    g = bytes.fromhex("05D5CDD59C2E1B10939708002B2CF9AE") if named else g16(r)
    d = pick32(r, 0x53505331) + g + b"".join(prop_value(r, named) for _ in range(r.choice((0, 1, 1, 2, 3))))
    if r.random() < .85:
        d += bytes(4)
    n = len(d) + 4
    if r.random() < .08:
        n = r.choice((n + r.randrange(-9, 9), r.randrange(60), r.randrange(1 << 32)))
    return struct.pack("<I", n & 0xFFFFFFFF) + d


def b_metadata(r):
    d = b"".join(storage(r) for _ in range(r.choice((0, 1, 1, 2, 3))))
    return d + (bytes(4) if r.random() < .9 else rb(r, 8))


def b_special(r):
    return u32(r) + u32(r)


def b_known(r):
    return g16(r) + u32(r)


def b_shim(r):
    return field(r, uni(r), r.choice((2 * r.randrange(70), r.randrange(140), 0x80)))


def b_codepage(r):
    return u32(r)


BLOCKS = {0xA0000001: b_env, 0xA0000002: b_console, 0xA0000003: b_tracker, 0xA0000004: b_codepage,
          0xA0000005: b_special, 0xA0000006: b_darwin, 0xA0000007: b_env, 0xA0000008: b_shim, 0xA0000009: b_metadata,
          0xA000000B: b_known, 0xA000000C: lambda r: items(r)}


def block(r, sig=None, p=.2):
    if sig is None:
        sig = r.choice(list(BLOCKS)) if r.random() < .75 else r.choice((0xA000000A, 0xA0000000, 0xA000000D, 0,
                                                                       r.randrange(1 << 32)))
    b = BLOCKS[sig](r) if sig in BLOCKS else rb(r, 30)
    b = mutate(r, b, p)
    n = len(b) + 8
    if r.random() < .08:
        n = r.choice((4, 5, 7, 8, n + r.randrange(-9, 9) if n > 13 else n, r.randrange(1 << 32)))
    return struct.pack("<II", n & 0xFFFFFFFF, sig) + b


def extras(r):
    d = b"".join(block(r) for _ in range(r.choice((0, 1, 1, 2, 3, 4))))
    k = r.random()
    if k < .6:
        d += bytes(4)
    elif k < .8:
        d += struct.pack("<I", r.randrange(4)) + rb(r, 30)
    return d


def g_extras(r):
    return mutate(r, extras(r), .3)


def g_block(sig):
    def g(r):
        return mutate(r, block(r, sig, .3), .2)
    return g


for _s in BLOCKS:
    globals()[f"g_block_{_s & 15:X}"] = g_block(_s)


# ---------------------------------------------------------------- whole links
def lnk(r, flags=None):
    if flags is None:
        flags = r.choice((r.randrange(1 << 9), r.randrange(1 << 8), 0xFF, 0x7F, 1, 2, 3, 0x83, 0x80 | r.randrange(128),
                          r.randrange(1 << 32)))
    d = header(r, flags)
    if flags & 1:
        d += idlist(r)
    if flags & 2:
        d += linkinfo(r)
    d += stringdata(r, flags)
    return d + extras(r)


def damage(r, d, keep=76):
    return d[:keep] + mutate(r, d[keep:], .35)


def g_lnk(r):
    return damage(r, lnk(r))


def g_two(r):
    """two links, and how the first one is opened"""
    d, e = g_lnk(r), g_lnk(r)
    if len(d) < 76 or len(e) < 76:
        d, e = d + bytes(76), e + bytes(76)
    return d, r.choice(("cp1252", "cp1250", "cp437", "cp932", None)), r.random() < .5, r.choice((e, e, d))


def g_strings(want):
    """a link without target list and link info; want: value of the bits under the mask 0x84 of the flags"""
    def g(r):
        f = r.choice((r.randrange(1 << 9), r.randrange(1 << 8), 0xFC, 0x7C)) & ~3
        f = f & ~0x84 | want
        d = header(r, f) + stringdata(r, f)
        return damage(r, d + r.choice((b"", bytes(4), rb(r, 20))))
    return g


g_unicode_named, g_unicode_unnamed, g_ansi_named, g_ansi_unnamed = map(g_strings, (0x84, 0x80, 4, 0))


def g_item(k):
    def g(r):
        return mutate(r, item(r, k, .4) + rb(r, 6), .2)
    return g


for _k in TYPE:
    globals()["g_item_" + _k] = g_item(_k)


def g_named(r):
    return mutate(r, prop_value(r, True) + rb(r, 4), .2)


def g_numbered(r):
    return mutate(r, prop_value(r, False) + rb(r, 4), .2)


def g_storage(r):
    return mutate(r, storage(r), .3)


def g_text(r):
    return r.choice((ansi, rb))(r) + r.choice((b"", ansi(r), rb(r)))


def g_utext(r):
    return r.choice((uni, rb))(r) + r.choice((b"", uni(r), rb(r)))


def bytes_for(r, n, m):
    k = r.random()
    if m is None:
        m = n + r.choice((0, 1, 3, 10, 40, 200, 1000))
    size = r.choice((n, m, r.randint(n, m)))
    return raw(r, size) if k < .8 else bytes(size)


def g_show(section):
    """arguments of the contracts readable.*"""
    def g(r):
        return (section, g_header(r)[:76].ljust(76, b"\0"), bytes(r.randrange(256) for _ in range(4)), r.randrange(32),
                r.randrange(3), r.randrange(2), r.random() < .5)
    return g


g_show_target, g_show_link_info, g_show_local, g_show_network, g_show_data, g_show_extra = map(
    g_show, ("target", "link_info", "local", "network", "data", "extra"))

for _n in ("target", "link_info", "local", "network", "data", "extra"):
    globals()[f"g_show_{_n}_pure"] = lambda r, g=g_show(_n): g(r)[:-1]


def g_main(r):
    """arguments of the contract main"""
    from native import CODECS
    return (r.randrange(4),) + tuple(r.random() < .5 for _ in range(4)) + (r.choice(CODECS), g_lnk(r))
