"""Questions that can be put to the objects of a link, in any order, any number of times.

query is the statement of the frame condition.  The engine (pyvc.frame) replaces it by its contract: construction
changes nothing that existed before, every question changes nothing at all and gives a result of its own.  The body
below is what is run natively: the answers of one object, over a history of questions in which every answer is
spoiled, are those that a new process gives for a new object.
"""
import os
import pickle

from LnkParse3.extra.metadata import Metadata, SerializedPropertyStorage
from LnkParse3.extra.metadata import SerializedPropertyValueIntegerName, SerializedPropertyValueStringName
from LnkParse3.extra_data import ExtraData
from LnkParse3.info.local import Local
from LnkParse3.info.network import Network
from LnkParse3.info_factory import InfoFactory
from LnkParse3.lnk_file import LnkFile
from LnkParse3.lnk_header import LnkHeader
from LnkParse3.lnk_info import LnkInfo
from LnkParse3.lnk_targets import LnkTargets
from LnkParse3.text_processor import TextProcessor
from specs import extra as extra_specs, items as item_specs, total
from specs import readable as readable_specs
from specs.base import *
from specs.header import header_ok


class Impure(Exception):
    """an answer depends on what was asked before"""


# ---------------------------------------------------------------- the native run
def spoil(v):
    if isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v.clear()
        v["spoilt"] = True
    elif isinstance(v, list):
        for x in v:
            spoil(x)
        v.clear()
        v.append("spoilt")


def answer(ask, obj, keep=None):
    """the answer as it is given; what the caller holds is then spoiled, or kept to see what becomes of it"""
    import contextlib
    import io
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            v = ask(obj)
        r = pickle.dumps(("ok", v, out.getvalue()))
        if keep is None:
            spoil(v)
        else:
            keep.append((v, out.getvalue()))
        return pickle.loads(r)
    except Exception as e:
        return ("raise", type(e).__name__, str(e))


def apart(f):
    """the (picklable) result of f in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                b = pickle.dumps((True, f()))
            except Exception as e:
                b = pickle.dumps((False, (type(e).__name__, str(e))))
            with os.fdopen(w, "wb") as fh:
                fh.write(b)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        b = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else (False, ("died", ""))


def history(makes):
    """[(which object, question, answer)] over a fixed history of questions put to the objects"""
    objs, out = [], []
    for make, asks in makes:
        try:
            objs.append((make(), asks))
        except Exception:
            objs.append((None, {}))
    kept = []
    for i, (o, asks) in list(enumerate(objs)) * 2:
        for n in asks:
            k = []
            out.append((i, n, answer(asks[n], o, k)))
            kept += [(i, n, x) for x in k]
    # later questions leave the earlier answers alone
    out += [(i, n, pickle.loads(pickle.dumps(("ok",) + x))) for i, n, x in kept]
    for turn in range(3):
        for i, (o, asks) in enumerate(objs):
            names = list(asks)
            for n in names if turn < 2 else names[::-1]:
                for _ in range(1 + (turn == 2)):
                    out.append((i, n, answer(asks[n], o)))
    for i, (make, asks) in enumerate(makes):
        try:
            o = make()
        except Exception:
            continue
        for n in asks:
            out.append((i, n, answer(asks[n], o)))
    return out


def query(make, asks, *others):
    ok, h = apart(lambda: history([(make, asks)] + list(others)))
    fresh = {}
    for i, (m, qs) in enumerate([(make, asks)] + list(others)):
        for n in qs:
            fresh[i, n] = apart(lambda: answer(qs[n], m()))
    if not ok:
        raise Impure(f"{h}")
    for i, n, a in h:
        if fresh[i, n] != (True, a):
            raise Impure(f"object {i}, {n}: {a!r}, freshly {fresh[i, n]!r}"[:1500])


# ---------------------------------------------------------------- the questions
def methods(*names):
    return {n: asker(n) for n in names}


def asker(n):
    return lambda o: getattr(o, n)()


HEADER = methods("size", "link_cls_id", "r_link_flags", "link_flags", "r_file_flags", "file_flags", "creation_time",
                 "access_time", "write_time", "file_size", "icon_index", "window_style", "hot_key", "raw_hot_key",
                 "reserved0", "reserved1", "reserved2")
COMMON = methods("size", "header_size", "flags", "volume_id_offset", "local_base_path_offset",
                 "common_network_relative_link_offset", "common_path_suffix_offset", "local_base_path",
                 "common_path_suffix", "local_base_path_offset_unicode", "local_base_path_unicode",
                 "common_path_suffix_offset_unicode", "common_path_suffix_unicode",
                 "common_network_relative_link")
LOCAL = {**COMMON, **methods("location", "volume_id_size", "r_drive_type", "volume_label_offset",
                             "drive_serial_number", "drive_type", "volume_label", "volume_label_unicode_offset",
                             "volume_label_unicode")}
NETWORK = {**COMMON, **methods("location", "common_network_relative_link_size", "common_network_relative_link_flags",
                               "net_name_offset", "device_name_offset", "r_network_provider_type",
                               "network_provider_type", "net_name_offset_unicode", "net_name_unicode",
                               "device_name_offset_unicode", "device_name_unicode", "net_name", "device_name")}
STRINGS = methods("size", "description", "relative_path", "working_directory", "command_line_arguments",
                  "icon_location", "as_dict")
LINK = {**{"full": lambda k: k.get_json(True), "default": lambda k: k.get_json(),
           "command": lambda k: k.lnk_command, "size": lambda k: k.size},
        **methods("has_relative_path", "has_arguments", "is_unicode", "has_name", "has_working_dir",
                  "has_icon_location", "has_target_id_list", "has_link_info", "force_no_link_info",
                  "format_linkFlags", "format_fileFlags")}
PRINTS = {"target": lambda k: k.print_shortcut_target(), "json target": lambda k: k.print_shortcut_target(True),
          "json": lambda k: k.print_json(), "all json": lambda k: k.print_json(True)}


def header(d):
    query(lambda: LnkHeader(indata=d), HEADER)


def header_pre(d):
    return header_ok(d)


def text(b, cp):
    query(lambda: TextProcessor(cp=cp), {
        "string": lambda t: t.read_string(b), "unicode": lambda t: t.read_unicode_string(b)})


def texts(b, cp):
    query(lambda: TextProcessor(cp=cp), {"strings": lambda t: list(t.read_strings(b))})


def utexts(b, cp):
    query(lambda: TextProcessor(cp=cp), {"unicode": lambda t: list(t.read_unicode_strings(b))})


def item(k, r, cp):
    query(lambda: item_specs.CLASSES[k](indata=r, cp=cp), methods("as_item"))


def targets(d, cp):
    query(lambda: LnkTargets(indata=d, cp=cp), methods("as_list", "size", "id_list_size"))


def kind(d):
    query(lambda: InfoFactory(LnkInfo(indata=d)), {"class": lambda f: f.info_class().__name__})


def local(d, cp):
    query(lambda: Local(indata=d, cp=cp), LOCAL)


def network(d, cp):
    query(lambda: Network(indata=d, cp=cp), NETWORK)


def strings(d, cp):
    query(lambda: LnkFile(indata=d, cp=cp).string_data, STRINGS)


def block(k, b, cp):
    query(lambda: extra_specs.CLASSES[k](indata=b, cp=cp), methods("as_dict", "name", "size"))


def value(named, b, cp):
    c = SerializedPropertyValueStringName if named else SerializedPropertyValueIntegerName
    query(lambda: c(b, TextProcessor(cp=cp)), methods("as_dict"))


def storage(b, cp):
    query(lambda: SerializedPropertyStorage(b, TextProcessor(cp=cp)), methods("as_dict"))


def extras(d, cp, allow):
    query(lambda: ExtraData(indata=d, cp=cp, allow_terminal_blocks=allow), methods("as_dict", "size"))


def ask_link(qs, d, cp, allow, e):
    query(lambda: LnkFile(indata=d, cp=cp, allow_terminal_blocks=allow), qs, (lambda: LnkFile(indata=e), qs))


def link(d, cp, allow, e):
    ask_link(LINK, d, cp, allow, e)


def prints(d, cp, allow, e):
    ask_link(PRINTS, d, cp, allow, e)


def readable(section, d, seed, k, n, m):
    query(lambda: readable_specs.Shown(d, lambda all: readable_specs.rep(section, d, seed, k, n, m, all)),
          {"readable": lambda k: k.print_lnk_file(), "all readable": lambda k: k.print_lnk_file(True)})


def readable_ok(section, d, *rest):
    return header_ok(d)
