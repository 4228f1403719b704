"""Reports of arbitrary contents, section by section.

leaf, many and some stand for unknown values: the engine takes a leaf as an arbitrary number, text, time or None, many
as any number of elements of which the given one is an arbitrary one, some as any number of entries of which (k, v) is
an arbitrary one.  What they do here is for native runs.
"""
import copy
import datetime
import hashlib

from specs import extra, items, linkinfo, strings


LEAVES = [None, "", "text", "yes", "1", "a: b", " x ", "- x", "null", "~", "# no", "a\nb", "\\", "'", '"', "{}", "[]",
          "\u00e9\u4e16", "EMPTY_LINE_PLACEHOLDER", "0x10", "1.5", "2020-01-01", "x" * 200, "word " * 40, "a\tb", "%", "@",
          0, 1, -1, 4294967295, "C:\\a b\\c.exe", "\x07", "=", "!a", "&a", "*a", "|", "> x", "class", "r_a",
          datetime.datetime(2020, 2, 29, 23, 59, 59, 999999, tzinfo=datetime.timezone.utc),
          datetime.datetime(1601, 1, 1, 0, 0, 0, 1, tzinfo=datetime.timezone.utc),
          datetime.datetime(9999, 12, 31, tzinfo=datetime.timezone.utc)]


def leaf(seed, name):
    """an arbitrary number, text, time or None"""
    h = hashlib.sha256(seed + name.encode()).digest()
    x = LEAVES[int.from_bytes(h[:4], "little") % len(LEAVES)]
    return x.replace() if isinstance(x, datetime.datetime) else x


def many(x, n):
    """n elements like x"""
    return [copy.deepcopy(x) for _ in range(n)]


def some(names, k, v, n):
    """n entries with keys among names, (k, v) one of them"""
    return {k: v} if n else {}


def count(name):
    """a number of elements"""
    return 1


def leaves(seed, where, names):
    return {n: leaf(seed, where + n) for n in names}


def pick(names, k):
    """the k-th of the names; the last one for k out of range"""
    for i, n in enumerate(names):
        if k == i:
            return n
    return names[-1]


def bit(k, i):
    return k >> i & 1 == 1


ITEMS = {
    "cpl": ["signature", "cpl_file_path", "name", "comments"],
    "category": ["category_id", "category"],
    "root": ["sort_index", "sort_index_value", "guid"],
    "volume": ["flags", "volume_name"],
    "volume guid": ["flags", "volume_identifier"],
    "file": ["flags", "file_size", "modification_time", "file_attribute_flags", "primary_name"],
    "network": ["flags", "content_flags", "location", "description", "comments"],
    "compressed": [], "internet": [], "printers": [], "places": [],
    "panel": ["item_identifier"],
    "users": ["signature", "file_entry", "delegate_class_id", "delegate_folder_id"],
    "unknown": ["size"]}
ITEM_KINDS = list(ITEMS)
CLASS = {"cpl": "Control panel CPL file", "category": "Control panel category", "root": "Root Folder",
         "volume": "Volume Item", "volume guid": "Volume Item", "file": "File entry", "network": "Network location",
         "compressed": "Compressed folder", "internet": "Internet", "printers": "Printers",
         "places": "Common places folder", "panel": "Control panel", "users": "Users files folder", "unknown": "Unknown"}


def item(seed, k):
    """the report of an item of kind k"""
    out = {"class": CLASS[k]}
    for n in ITEMS[k]:
        out[n] = item(seed, "file") if n == "file_entry" else leaf(seed, "item " + n)
    return out


def target(seed, k, n):
    return {"size": leaf(seed, "size"), "items": many(item(seed, pick(ITEM_KINDS, k)), n), "index": leaf(seed, "index")}


DATA = ["description", "relative_path", "working_directory", "command_line_arguments", "icon_location"]


def data(seed, k):
    """a text may be missing"""
    return {n: leaf(seed, n) for i, n in enumerate(DATA) if bit(k, i)}


COMMON = ["link_info_size", "link_info_header_size", "link_info_flags", "volume_id_offset", "local_base_path_offset",
          "common_network_relative_link_offset", "common_path_suffix_offset"]
OPTIONAL = [["local_base_path"], ["common_path_suffix"], ["local_base_path_offset_unicode", "local_base_path_unicode"],
            ["common_path_suffix_offset_unicode", "common_path_suffix_unicode"]]
LOCAL = ["volume_id_size", "r_drive_type", "volume_label_offset", "drive_serial_number", "drive_type", "volume_label"]
OPTIONAL_LOCAL = [["common_network_relative_link"], ["volume_label_unicode_offset", "volume_label_unicode"]]
NETWORK = ["common_network_relative_link_size", "common_network_relative_link_flags", "net_name_offset",
           "device_name_offset", "r_network_provider_type"]
OPTIONAL_NETWORK = [["network_provider_type"], ["net_name_offset_unicode", "net_name_unicode"],
                    ["device_name_offset_unicode", "device_name_unicode"], ["net_name"], ["device_name"]]


def add(out, seed, where, k, optional):
    for i, names in enumerate(optional):
        if bit(k, i):
            for n in names:
                out[n] = leaf(seed, where + n)
    return out


def link_info(seed, k):
    """without a location: what could be read of a cut-off link info"""
    return add(leaves(seed, "", COMMON), seed, "", k, OPTIONAL)


def local(seed, k):
    out = leaves(seed, "", COMMON)
    out["location_info"] = add(leaves(seed, "", LOCAL), seed, "", k, OPTIONAL_LOCAL)
    out["location"] = leaf(seed, "location")
    return out


def network(seed, k):
    out = leaves(seed, "", COMMON)
    out["location"] = leaf(seed, "location")
    out["location_info"] = add(leaves(seed, "", NETWORK), seed, "", k, OPTIONAL_NETWORK)
    return out


BLOCKS = {
    "environment": ["size", "target_ansi", "target_unicode"],
    "console": ["size", "fill_attributes", "popup_fill_attributes", "screen_buffer_size_x", "screen_buffer_size_y",
                "window_size_x", "window_size_y", "window_origin_x", "window_origin_y", "font_size", "font_family",
                "font_weight", "face_name", "cursor_size", "full_screen", "quick_edit", "insert_mode", "auto_position",
                "history_buffer_size", "number_of_history_buffers", "history_no_dup", "color_table"],
    "tracker": ["size", "length", "version", "machine_identifier", "droid_volume_identifier", "droid_file_identifier",
                "birth_droid_volume_identifier", "birth_droid_file_identifier"],
    "code page": ["size", "code_page"],
    "special folder": ["size", "special_folder_id", "offset"],
    "darwin": ["size", "darwin_data_ansi", "darwin_data_unicode", "product_code_id", "feature_name", "component_id"],
    "icon": ["size", "target_ansi", "target_unicode"],
    "shim": ["size", "layer_name"],
    "known folder": ["size", "known_folder_id", "offset"],
    "unknown": ["size", "extra_data_sha256"],
    "terminal": ["size", "appended_data_sha256"]}
BLOCK_KINDS = list(BLOCKS) + ["metadata", "shell item"]
VALUES = [["value_size", "id", "value", "value_type"], ["value_size", "name_size", "name", "value", "value_type"]]


def block(seed, k, n, named):
    """the report of a block of kind k"""
    if k == "metadata":
        value = leaves(seed, "value ", VALUES[1] if named else VALUES[0])
        storage = leaves(seed, "storage ", ["storage_size", "version", "format_id"])
        storage["serialized_property_values"] = many(value, n)
        return {"size": leaf(seed, "size"), "property_store": many(storage, n)}
    if k == "shell item":
        return {"size": leaf(seed, "size"), "id_list": many(item(seed, "file" if named else "users"), n)}
    x = leaves(seed, "block ", BLOCKS[k])
    return many(x, n) if k == "unknown" else x


def blocks(seed, k, n, named):
    k = pick(BLOCK_KINDS, k)
    return some(list(extra.NAMES.values()), extra.NAMES[k], block(seed, k, n, named), n)
