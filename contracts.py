"""The contracts, and the properties they decide."""
import struct

from pyvc.contract import Bool, Bytes, Codec, Const, Contract, Int, Text

ALL = []
BAD = (struct.error, ValueError, IndexError)  # the exceptions of malformed blocks: their callers treat them alike


def C(name, impl, spec, args, **kw):
    mod = kw.pop("mod", None)
    if mod:
        impl = f"specs.{mod}.{impl}"
        spec = spec and f"specs.{mod}.{spec}"
        if kw.get("pre"):
            kw["pre"] = f"specs.{mod}.{kw['pre']}"
        kw["alt"] = [f"specs.{mod}.{a}" for a in kw.get("alt", ())]
    ALL.append(Contract(name, impl, spec, args, **kw))


# ---------------------------------------------------------------- header
for n, i, s in (("header.size", "i_size", "s_size"), ("header.class", "i_class", "s_class"),
                ("header.numbers", "i_numbers", "s_numbers"), ("header.style", "i_style", "window_style"),
                ("header.hotkey", "i_hotkey", "hot_key"), ("header.link_flags", "i_link_flags", "link_flags"),
                ("header.file_flags", "i_file_flags", "file_flags")):
    C(n, i, s, [Bytes("d", 76)], pre="header_ok", mod="header", gen="g_header")
C("header.times", "i_times", "s_times", [Bytes("d", 76)], pre="times_ok", mod="header", gen="g_header")

# ---------------------------------------------------------------- text
C("text.read", "i_read", "s_read", [Bytes("d"), Codec()], mod="textp", gen="g_text")
C("text.uread", "i_uread", "s_uread", [Bytes("d"), Codec()], mod="textp", gen="g_utext")
C("text.list", "i_list", "g_list", [Bytes("d"), Codec()], mod="textp", ghost=True, gen="g_text", alt=["g_pieces"])

# ---------------------------------------------------------------- items
KINDS = ["cpl", "category", "root", "volume", "file", "network", "compressed", "internet", "panel", "printers",
         "places", "users", "unknown"]
C("item.class", "i_class", "s_class", [Bytes("r")], mod="items", gen="g_idlist")
for k in KINDS:
    C("item." + k, "i_item", "item", [Const(k), Bytes("r"), Codec()], mod="items", gen="g_item_" + k,
      uses=("strings",) if k == "network" else ("text", "file") if k == "users" else ("text",))
C("items.targets", "i_targets", "g_targets", [Bytes("d", 2), Codec()], mod="items", uses=("items",), ghost=True,
  gen="g_idlist")
C("items.shell", "i_shell", "g_shell", [Bytes("d", 8), Codec()], mod="items", uses=("items",), ghost=True,
  gen="g_block_C")

# ---------------------------------------------------------------- GUIDs
C("guid.text", "i_guid", "s_guid", [Bytes("b", 16, 16)], mod="guids")
C("guid.numbers", "i_numbers", "s_numbers", [Bytes("b", 16, 16)], mod="guids")

# ---------------------------------------------------------------- string data
C("strings.predicates", "i_predicates", "s_predicates", [Bytes("d", 76)], mod="strings", uses=("sections",),
  warns=False, gen="g_lnk")
ALL[-1].pre = "specs.header.header_ok"
STRINGS = ["strings." + k for k in ("unicode_named", "unicode_unnamed", "ansi_named", "ansi_unnamed")]
for k in STRINGS:
    C(k, "i_strings", "s_strings", [Bytes("d", 76), Codec()], pre=k[8:], mod="strings", uses=("text", "extras"),
      seconds=300, gen="g_" + k[8:])

# ---------------------------------------------------------------- link info
for n in ("common", "volume", "network"):
    C("linkinfo." + n, "i_" + n, n, [Bytes("d"), Codec()], mod="linkinfo", uses=("text",),
      gen={"common": "g_linkinfo", "volume": "g_vollinkinfo", "network": "g_netlinkinfo"}[n])
C("linkinfo.kind", "i_kind", "s_kind", [Bytes("d")], mod="linkinfo", gen="g_linkinfo")
for n in ("neither", "local_plain", "local_unicode", "network_plain", "network_unicode"):
    C("linkinfo." + n, "i_report", "s_report", [Bytes("d"), Codec()], pre=n, mod="linkinfo", uses=("sections", "text"),
      warns=False, seconds=400, paths=20000,
      gen="g_vollinkinfo" if "local" in n else "g_netlinkinfo" if "net" in n else "g_linkinfo")

# ---------------------------------------------------------------- extra data
BLOCK = {"environment": 1, "console": 2, "tracker": 3, "code page": 4, "special folder": 5, "icon": 7, "shim": 8,
         "known folder": 0xB, "unknown": None, "terminal": None, "darwin": 6}
for k, v in BLOCK.items():
    C("extra." + k.replace(" ", ""), "i_block", "s_block", [Const(k), Bytes("b"), Codec()], mod="extra",
      uses=("text",), gen=f"g_block_{v:X}" if v else "g_extras", alike=BAD,
      **({"pre": "terminal_ok"} if k == "terminal" else
         {"pre": "darwin_ok", "warns": False, "seconds": 400} if k == "darwin" else {}))
EXTRA = [Bytes("d"), Codec(), Bool("allow")]
C("extra.walk", "i_extra", "g_extra", EXTRA, mod="extra", uses=("blocks",), ghost=True, seconds=300, gen="g_extras")
C("extra.size", "i_length", "g_length", EXTRA, mod="extra", uses=("blocks",), ghost=True, seconds=200, gen="g_extras",
  alt=["g_length_once"])
for k in (False, True):
    C("metadata.named" if k else "metadata.numbered", "i_value", "s_value", [Const(k), Bytes("b"), Codec()],
      mod="extra", uses=("text",), gen="g_named" if k else "g_numbered", alike=BAD)
for k in ("named", "numbered"):
    C(f"metadata.{k}_storage", "i_storage", "g_storage", [Bytes("b"), Codec()], pre=k + "_store", mod="extra",
      uses=("values",), ghost=True, gen="g_storage", alt=["g_values_once"], alike=BAD)
C("metadata.block", "i_metadata", "g_metadata", [Bytes("b"), Codec()], mod="extra", uses=("storages",), ghost=True,
  gen="g_block_9", alt=["g_storages_once"], alike=BAD)

# ---------------------------------------------------------------- the link
LINK = [Bytes("d", 76), Codec()]
C("link.sections", "i_sections", "s_sections", LINK + [Bool("allow")], pre="link_ok", mod="link", uses=("sections",),
  gen="g_lnk")
C("link.command", "i_command", "s_command", LINK + [Bool("allow")], pre="link_ok", mod="link", uses=("sections",),
  gen="g_lnk")
C("link.print", "i_print", "s_print", LINK + [Bool("j")], pre="link_ok", mod="link", uses=("sections",), gen="g_lnk")

# ---------------------------------------------------------------- only the errors a caller handles, and termination
def T(name, impl, args, raises=(), **kw):
    if kw.get("pre"):
        kw["pre"] = "specs.total." + kw["pre"]
    ALL.append(Contract("total." + name, "specs.total." + impl, None, args, raises=raises, **kw))
    return "total." + name


TOTAL_TEXT = [T("text", "text", [Bytes("b"), Codec()], gen="g_text"),
              T("utext", "utext", [Bytes("b"), Codec()], gen="g_utext"),
              T("texts", "texts", [Bytes("b"), Codec()], gen="g_text")]
TOTAL_ITEMS = [T("item." + k, "item", [Const(k), Bytes("r"), Codec()], (struct.error,), gen="g_item_" + k,
                 uses=("strings",) if k == "network" else ("text",)) for k in KINDS]
TOTAL_LIST = [T("targets", "targets", [Bytes("d", 2), Codec()], uses=("items",), gen="g_idlist"),
              T("targets_size", "targets_size", [Bytes("d"), Codec()], (struct.error,), gen="g_idlist")]
TOTAL_BLOCKS = [T("block." + k.replace(" ", ""), "block", [Const(k), Bytes("b", 4), Codec()],
                  () if k in ("unknown", "terminal") else BAD, uses=u, seconds=200,
                  gen=f"g_block_{v:X}" if v else "g_extras")
                for k, v, u in [(k, v, ("text",)) for k, v in BLOCK.items()] +
                [("shell item", 0xC, ("items",)), ("metadata", 9, ("storages",))]]
TOTAL_SIZES = [T("size." + k.replace(" ", ""), "block_size", [Const(k), Bytes("b", 4), Codec()],
                 gen=f"g_block_{v:X}" if v else "g_extras")
               for k, v in list(BLOCK.items()) + [("shell item", 0xC), ("metadata", 9)]]
TOTAL_STORE = [T("value." + n, "value", [Const(k), Bytes("b"), Codec()], (struct.error, ValueError), uses=("text",),
                 gen="g_" + n) for n, k in (("numbered", False), ("named", True))]
TOTAL_STORE += [T("storage", "storage", [Bytes("b"), Codec()], (struct.error, ValueError), uses=("values",),
                  gen="g_storage")]
TOTAL_EXTRAS = [T("extras", "extras", [Bytes("d"), Codec(), Bool("allow")], uses=("blocks",), seconds=200,
                  gen="g_extras")]
TOTAL_HEADER = [T("times", "times", [Bytes("d", 76)], pre="only_header", gen="g_header")]
TOTAL_HEADER += ["header." + n for n in ("size", "class", "numbers", "style", "hotkey", "link_flags", "file_flags")]
TOTAL_INFO = [T("info.class", "info_class", [Bytes("d")], gen="g_linkinfo"),
              T("info.provider", "provider", [Bytes("d"), Codec()], (struct.error,), gen="g_netlinkinfo")]
TOTAL_STRINGS = [T("strings", "strings", [Bytes("d", 76), Codec()], pre="strings_only", seconds=300,
                   uses=("header", "text", "extras"), gen="g_lnk")]
CASES = ["local", "local_targets", "network", "network_base", "network_targets", "network_base_targets"]
WHOLE = dict(args=LINK + [Bool("allow")], uses=("header", "sections", "info"), seconds=400, paths=20000, gen="g_lnk")
TOTAL_LINK = [T("link." + n, i, pre=q, **WHOLE)
              for n, i, q in [("plain", "link", "plain"), ("command", "command", "link_ok")] +
              [(n, "report", n) for n in CASES]]

# ---------------------------------------------------------------- the reports
for n in ["plain"] + CASES:
    C("report." + n, "i_report", "s_report", mod="report", warns=False, **WHOLE)
    ALL[-1].pre = "specs.total." + n

# ---------------------------------------------------------------- frames: questions change nothing
def P(name, impl, args, raises=(), **kw):
    ALL.append(Contract("pure." + name, "specs.pure." + impl, None, args, raises=raises, **kw))
    return "pure." + name


PURE = [P("header", "header", [Bytes("d", 76)], pre="specs.header.header_ok", gen="g_header"),
        P("kind", "kind", [Bytes("d")], (struct.error,), gen="g_linkinfo")]
PURE += [P(n, n, [Bytes("b"), Codec()], gen="g_utext" if n == "utexts" else "g_text")
         for n in ("text", "texts", "utexts")]
PURE += [P("item." + k, "item", [Const(k), Bytes("r"), Codec()], (struct.error,), gen="g_item_" + k,
           uses=("strings",) if k == "network" else ("text",)) for k in KINDS]
PURE += [P("targets", "targets", [Bytes("d", 2), Codec()], uses=("items",), gen="g_idlist")]
PURE += [P(n, n, [Bytes("d"), Codec()], (struct.error,), uses=("text",), gen=g)
         for n, g in (("local", "g_vollinkinfo"), ("network", "g_netlinkinfo"))]
PURE += [P(k, "strings", [Bytes("d", 76), Codec()], pre="specs." + k, uses=("header", "text", "extras"), seconds=300,
           gen="g_" + k[8:]) for k in STRINGS]
PURE += [P("block." + k.replace(" ", ""), "block", [Const(k), Bytes("b", 4), Codec()], BAD, uses=u, seconds=200,
           gen=f"g_block_{v:X}" if v else "g_extras")
         for k, v, u in [(k, v, ("text",)) for k, v in BLOCK.items()] +
         [("shell item", 0xC, ("items",)), ("metadata", 9, ("storages",))]]
PURE += [P("value." + n, "value", [Const(k), Bytes("b"), Codec()], (struct.error, ValueError), uses=("text",),
           gen="g_" + n) for n, k in (("numbered", False), ("named", True))]
PURE += [P("storage", "storage", [Bytes("b"), Codec()], (struct.error, ValueError), uses=("values",), gen="g_storage"),
         P("extras", "extras", [Bytes("d"), Codec(), Bool("allow")], uses=("blocks",), seconds=200, gen="g_extras")]
TWO = dict(WHOLE, args=WHOLE["args"] + [Bytes("e", 76)], gen="g_two")
PURE += [P("link." + n, "link", pre="specs.total." + n, **TWO) for n in ["plain"] + CASES]
PURE += [P("prints", "prints", pre="specs.total.plain", **TWO)]

JSON = []
for n in ["plain"] + CASES:
    C("json." + n, "i_json", "s_json", mod="report", warns=False, **dict(WHOLE, args=WHOLE["args"] + [Bool("details")]))
    ALL[-1].pre = "specs.total." + n
    JSON.append("json." + n)

SHOW = []
for n, k in (("target", 13), ("link_info", 15), ("local", 3), ("network", 31), ("data", 31), ("extra", 12)):
    C("readable." + n, "i_show", "s_show",
      [Const(n), Bytes("d", 76, 76), Bytes("seed", 4, 4), Int("k", 0, k), Int("n", 0), Int("m", 0, 1), Bool("details")],
      pre="show_ok", mod="readable", uses=("header",), seconds=300, gen="g_show_" + n)
    SHOW.append("readable." + n)
for n in ["plain"] + CASES:
    C("order." + n, "i_order", "s_order", mod="readable", warns=False,
      **dict(WHOLE, args=WHOLE["args"] + [Bool("details")]))
    ALL[-1].pre = "specs.total." + n
    SHOW.append("order." + n)

CLI = ["main"]
C("main", "i_main", "s_main", mod="cli", pre="main_ok", uses=("header", "link"), gen="g_main", seconds=300,
  args=[Int("style", 0, 3), Bool("target"), Bool("json"), Bool("all"), Bool("given"), Codec(), Bytes("d", 76)])
for n in ["plain"] + CASES:
    C("file." + n, "i_file", "s_file", mod="cli", **WHOLE)
    ALL[-1].pre = "specs.total." + n
    CLI.append("file." + n)

PURE += [P("readable." + c.args[0].v, "readable", c.args[:-1], pre="specs.pure.readable_ok", uses=("header",),
           seconds=300, gen=c.gen + "_pure") for c in ALL if c.name.startswith("readable.")]

BY_NAME = {c.name: c for c in ALL}

TEXT = ["text.read", "text.uread"]
SIZES = ["extra.size"] + STRINGS
PROPS = {
    "C01": ["header.size", "header.class", "header.numbers", "header.style", "header.hotkey", "report.plain"],
    "C02": ["header.link_flags", "header.file_flags", "strings.predicates", "report.plain"],
    "C03": ["header.times", "report.plain"],
    "C04": ["item.file"],
    "C05": ["guid.text", "guid.numbers", "header.class", "item.root", "item.volume", "item.panel", "item.users",
            "extra.tracker", "extra.knownfolder", "metadata.named_storage", "metadata.numbered_storage"],
    "C06": ["text.read", "text.uread", "text.list"],
    "C07": STRINGS + ["strings.predicates", "report.plain"] + TEXT,
    "C08": ["link.sections", "header.size", "linkinfo.common", "linkinfo.kind", "strings.predicates", "report.plain"] + SIZES,
    "C09": ["items.targets", "items.shell", "item.class", "report.plain"],
    "C10": ["item.class", "item.unknown", "item.compressed", "item.internet", "item.printers", "item.places",
            "items.targets", "items.shell"],
    "C11": ["item.file", "item.users"] + TEXT,
    "C12": ["item.root", "item.volume", "item.network", "item.panel", "item.category", "item.cpl", "text.list"] + TEXT,
    "C13": ["linkinfo.common", "linkinfo.volume", "linkinfo.kind", "linkinfo.neither", "linkinfo.local_plain",
            "linkinfo.local_unicode"] + TEXT,
    "C14": ["linkinfo.common", "linkinfo.network", "linkinfo.kind", "linkinfo.neither", "linkinfo.network_plain",
            "linkinfo.network_unicode"] + TEXT,
    "C15": ["extra.walk", "extra.unknown", "extra.terminal", "report.plain"],
    "C16": ["extra." + k.replace(" ", "") for k in BLOCK if k not in ("unknown", "terminal", "darwin")] + TEXT,
    "C17": ["extra.darwin"] + TEXT,
    "C18": ["metadata.named", "metadata.numbered", "metadata.named_storage", "metadata.numbered_storage",
            "metadata.block"] + TEXT,
    "C19": TOTAL_LINK + TOTAL_HEADER + TOTAL_TEXT + TOTAL_ITEMS + TOTAL_LIST + TOTAL_BLOCKS + TOTAL_SIZES + TOTAL_STORE +
    TOTAL_EXTRAS + TOTAL_INFO + TOTAL_STRINGS + ["linkinfo.common", "linkinfo.volume", "linkinfo.network"],
    "C20": TOTAL_TEXT + TOTAL_ITEMS + TOTAL_LIST + TOTAL_BLOCKS + TOTAL_SIZES + TOTAL_STORE + TOTAL_EXTRAS +
    TOTAL_STRINGS + ["total.link.plain", "total.link.command", "total.info.class", "total.info.provider"],
    "C21": ["report." + n for n in ["plain"] + CASES],
    "C22": JSON,
    "C24": ["link.command", "link.print"] + STRINGS,
    "C25": PURE,
    "C27": SHOW,
    "C28": CLI,
    "C26": ["header.size", "header.class", "header.numbers", "extra.tracker"],
}

COST = {"items.targets": 20, "items.shell": 30, "text.list": 5, "item.network": 5, "item.file": 3, "item.cpl": 3,
        "extra.darwin": 90, "linkinfo.network_unicode": 70, "strings.unicode_named": 40, "strings.ansi_named": 40,
        "extra.walk": 30, "extra.size": 12, "strings.ansi_unnamed": 13, "strings.unicode_unnamed": 13,
        "linkinfo.local_unicode": 14, "linkinfo.network_plain": 12, "link.command": 6, "link.print": 12,
        "total.link.local": 16, "total.link.local_targets": 28, "total.link.network": 27,
        "total.link.network_targets": 43, "total.link.network_base": 27, "total.link.network_base_targets": 43,
        "report.network": 60, "report.network_base": 60, "report.network_targets": 110,
        "report.network_base_targets": 110, "report.local": 30, "report.local_targets": 50, "report.plain": 4, "total.extras": 26, "total.block.darwin": 18, "total.targets": 10,
        "total.strings": 30, "order.plain": 5, "order.local": 33, "order.local_targets": 52, "order.network": 55,
        "order.network_base": 50, "order.network_targets": 95, "order.network_base_targets": 90, "readable.network": 8,
        "readable.data": 8, "readable.extra": 5}

CALLS = {
    "link": "LnkFile reports, and forms the command, as its contents (read from the file, or given), its code page and "
            "allow_terminal_blocks determine (verified by the file.* contracts: links read from a file and links "
            "given by their bytes are equal objects); its report is of one of the shapes that C27 prints",
    "text": "TextProcessor.read_string / read_unicode_string return the specified text (verified by contracts "
            "text.read, text.uread under C06)",
    "strings": "TextProcessor.read_strings yields the specified pieces, one per request (verified by text.list under "
               "C06; that it does so lazily is assumed)",
    "file": "ShellFSFolder reports the specified file entry or raises struct.error (verified by item.file)",
    "items": "the item classes report the specified item or raise struct.error, in the constructor or in as_item "
             "(verified by the item.* contracts of C04 and C10 to C12)",
    "blocks": "the extra block classes report the specified block or raise an exception of a malformed one (verified "
              "by the extra.*, metadata.* and items.shell contracts)",
    "values": "the serialized property values report the specified value or raise struct.error or ValueError (verified "
              "by metadata.named and metadata.numbered)",
    "storages": "the property storages report the specified storage or raise struct.error or ValueError (verified by "
                "the metadata.*_storage contracts)",
    "extras": "an ExtraData object has the specified size and report (verified by extra.size and extra.walk)",
    "header": "the header's fields are numbers and texts determined by the header's bytes, the times None or a UTC time; "
              "its flag names are the specified ones (verified by the header.* contracts and total.times)",
    "info": "the accessors of the link info are determined by its bytes and code page, present as specified, and raise "
            "nothing but struct.error (verified by linkinfo.common, .volume, .network and total.info.*)",
    "sections": "LnkTargets.as_list, StringData and ExtraData report what their contracts say, as functions of the "
                "bytes, the code page and the link flags they are given (verified by items.targets, strings.*, "
                "extra.size and extra.walk; that nothing else of the link influences them is assumed for links with "
                "a target list or a link info)",
}


def assumptions(names):
    out = ["arguments of the contracts are well-typed: bytes and the name of an existing code page"]
    for n in names:
        for u in BY_NAME[n].uses:
            if CALLS.get(u, u) not in out:
                out.append(CALLS.get(u, u))
        if BY_NAME[n].pre:
            p = f"precondition {BY_NAME[n].pre} of {n}"
            out.append(p)
    return out

NOT_APPLICABLE = {}

_checked = {n for v in PROPS.values() for n in v}
assert set(BY_NAME) == _checked, set(BY_NAME) ^ _checked  # what a contract assumes, another property's check proves


def note(prop):
    uses = sorted({u for n in PROPS[prop] for u in BY_NAME[n].uses})
    b = [n for n in PROPS[prop] if BY_NAME[n].bound]
    s = f"Every obligation of {len(PROPS[prop])} contracts on /repo's functions, for all inputs and iteration counts"
    if b:
        s += f" (bounded, not proved: {', '.join(b)})"
    s += ". Trusts the symbolic interpreter and its models of builtins (cross-checked natively on every run) and z3"
    if uses:
        s += "; call-site contracts assumed here and verified by other contracts: " + ", ".join(uses)
    return s + "."
