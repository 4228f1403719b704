"""Edits of /repo that keep its behaviour: (file, text, replacement), and the properties whose checks stay quiet."""
L = "LnkParse3/"
REFACTORS = []
REFACTORS += [
 dict(id="strings-loop", props="C07 C19 C24 C25", edits=[(L+"string_data.py", '''        start = 0
        try:
            if self._lnk_file.has_name():
                text, length = self.read(self._raw[start:], limit_length=True)
                self._data["description"] = text
                start += length

            if self._lnk_file.has_relative_path():
                text, length = self.read(self._raw[start:], limit_length=True)
                self._data["relative_path"] = text
                start += length

            if self._lnk_file.has_working_dir():
                text, length = self.read(self._raw[start:], limit_length=True)
                self._data["working_directory"] = text
                start += length

            if self._lnk_file.has_arguments():
                text, length = self.read(self._raw[start:])
                self._data["command_line_arguments"] = text
                start += length

            if self._lnk_file.has_icon_location():
                text, length = self.read(self._raw[start:])
                self._data["icon_location"] = text
                start += length
        except struct.error as e:
            warnings.warn(f"Error while parsing String data: {e!r}")

        self._size = start
''','''        fields = (
            ("description", self._lnk_file.has_name, True),
            ("relative_path", self._lnk_file.has_relative_path, True),
            ("working_directory", self._lnk_file.has_working_dir, True),
            ("command_line_arguments", self._lnk_file.has_arguments, False),
            ("icon_location", self._lnk_file.has_icon_location, False),
        )
        self._size = 0
        try:
            for key, present, limited in fields:
                if not present():
                    continue
                self._data[key], length = self.read(self._raw[self._size :], limited)
                self._size += length
        except struct.error as e:
            warnings.warn(f"Error while parsing String data: {e!r}")
''')]),
 dict(id="strings-helper", props="C07", edits=[(L+"string_data.py", '''        offset = 2
        char_count = unpack("<H", binary[0:offset])[0]
        length = 260 if limit_length and char_count > 260 else char_count

        if self._lnk_file.is_unicode():
            self._read = self.text_processor.read_unicode_string
            length *= 2  # UTF-16
        else:
            self._read = self.text_processor.read_string

        text = self._read(binary[offset : offset + length])
        return text, offset + length
''','''        (count,) = unpack("<H", binary[:2])
        if limit_length:
            count = min(count, 260)
        unicode = self._lnk_file.is_unicode()
        end = 2 + (2 * count if unicode else count)
        return self._decode(binary[2:end], unicode), end

    def _decode(self, content, unicode):
        if unicode:
            return self.text_processor.read_unicode_string(content)
        return self.text_processor.read_string(content)
''')]),
 dict(id="text-split", props="C06 C12 C19", edits=[(L+"text_processor.py", '''        chars = []

        def _chars_to_string(lst):
            bin_string = b"".join(lst)
            try:
                string = bin_string.decode(self.cp)
            except UnicodeDecodeError:
                # Fallback to UTF-8 before giving up.
                try:
                    string = bin_string.decode("utf-8")
                except UnicodeDecodeError as e:
                    string = bin_string.decode(self.cp, errors="replace")
                    msg = f"Error while decoding string `{string}` ({e})"
                    warnings.warn(msg)
            yield string

        for char in binary:
            if char == 0x00:
                yield from _chars_to_string(chars)
                chars = []
            else:
                chars.append(bytes([char]))

        yield from _chars_to_string(chars)

    def read_string(self, binary):
        it = self.read_strings(binary)
        return next(it)
''','''        rest = binary
        while True:
            end = rest.find(b"\\x00")
            if end < 0:
                yield self._decode(rest)
                return
            yield self._decode(rest[:end])
            rest = rest[end + 1 :]

    def _decode(self, bin_string):
        for codec in (self.cp, "utf-8"):
            try:
                return bin_string.decode(codec)
            except UnicodeDecodeError as e:
                error = e
        string = bin_string.decode(self.cp, errors="replace")
        warnings.warn(f"Error while decoding string `{string}` ({error})")
        return string

    def read_string(self, binary):
        return next(self.read_strings(binary))
''')]),
 dict(id="text-bytearray", props="C06 C12", edits=[(L+"text_processor.py", '''        for char in binary:
            if char == 0x00:
                yield from _chars_to_string(chars)
                chars = []
            else:
                chars.append(bytes([char]))

        yield from _chars_to_string(chars)

    def read_string(self''','''        buffer = bytearray()
        for char in binary:
            if char:
                buffer.append(char)
                continue
            yield from _chars_to_string([bytes(buffer)])
            buffer = bytearray()

        yield from _chars_to_string([bytes(buffer)])

    def read_string(self'''), (L+"text_processor.py", '''        it = iter(binary)
        while True:
            tmp = None
            try:
                tmp = bytes([next(it)])
                tmp += bytes([next(it)])
                yield tmp
            except StopIteration:
                if tmp:
                    yield tmp
                return None
''','''        for i in range(0, len(binary), 2):
            yield binary[i : i + 2]
''')]),
 dict(id="extra-offset", props="C15 C08 C19 C20 C25", edits=[(L+"extra_data.py", '''        rest = self._raw
        while rest:
            factory = ExtraFactory(indata=rest)
            try:
                size = factory.item_size()
            except StructError as e:
                warnings.warn(f"Error while parsing extra data: {e!r}")
                break

            if size < 4:
                break

            data, rest = rest[:size], rest[size:]

            cls = factory.extra_class()
            if cls:
                extra = cls(indata=data, cp=self.cp)
                self.data.append(extra)
''','''        offset = 0
        while offset < len(self._raw):
            factory = ExtraFactory(indata=self._raw[offset:])
            try:
                size = factory.item_size()
            except StructError as e:
                warnings.warn(f"Error while parsing extra data: {e!r}")
                break
            if size < 4:
                break
            cls = factory.extra_class()
            if cls is not None:
                self.data.append(cls(indata=self._raw[offset : offset + size], cp=self.cp))
            offset += size

        rest = self._raw[offset:]
''')]),
 dict(id="extra-report", props="C15 C19 C25", edits=[(L+"extra_data.py", '''        for extra in self:
            try:
                if isinstance(extra, Unknown):
                    if extra.name() not in res:
                        res[extra.name()] = []
                    res[extra.name()].append(extra.as_dict())
                else:
                    res[extra.name()] = extra.as_dict()
            except''','''        for extra in self.data:
            name = extra.name()
            try:
                if isinstance(extra, Unknown):
                    res.setdefault(name, []).append(extra.as_dict())
                else:
                    res[name] = extra.as_dict()
            except'''), (L+"extra_data.py", '''        return sum(extra.size() for extra in self.data)
''','''        total = 0
        for extra in self.data:
            total += extra.size()
        return total
''')]),
 dict(id="extra-int-table", props="C15 C16", edits=[(L+"extra_factory.py", '''            sig = str(hex(self._rsig()))[2:]  # huh?
            return self.EXTRA_SIGS.get(sig, Unknown)
''','''            sig = f"{self._rsig():x}"
            if sig in self.EXTRA_SIGS:
                return self.EXTRA_SIGS[sig]
            return Unknown
''')]),
 dict(id="targets-offset", props="C09 C10 C19 C20 C25", edits=[(L+"lnk_targets.py", '''        rest = self._raw_targets
        while rest:
            factory = TargetFactory(indata=rest)
''','''        offset = 0
        while offset < len(self._raw_targets):
            rest = self._raw_targets[offset:]
            factory = TargetFactory(indata=rest)
'''), (L+"lnk_targets.py", '''            size = factory.item_size()
            rest = rest[size:]
            if target:''','''            offset += factory.item_size()
            if target is not None:''')]),
 dict(id="targets-make", props="C09 C19 C20", edits=[(L+"lnk_targets.py", '''            try:
                target = target_class(indata=rest, cp=self.cp)
            except StructError as e:
                warnings.warn(f"Error while parsing TargetID ({e!r})")
                target = None

            size = factory.item_size()
            rest = rest[size:]
            if target:
                yield target
''','''            item = self._make(target_class, rest)
            rest = rest[factory.item_size() :]
            if item:
                yield item

    def _make(self, target_class, indata):
        try:
            return target_class(indata=indata, cp=self.cp)
        except StructError as e:
            warnings.warn(f"Error while parsing TargetID ({e!r})")
        return None
''')]),
 dict(id="factory-mask", props="C10 C09", edits=[(L+"target_factory.py", '''        masked_item_type = item_type & 0x70
        if masked_item_type in [0x20, 0x30, 0x40]:
            target = self.get_shell_item_classes(masked_item_type)
        else:
            target = self.get_shell_item_classes(item_type)

        return target
''','''        group = item_type & 0x70
        key = group if group in (0x20, 0x30, 0x40) else item_type
        return self.get_shell_item_classes(key)
'''), (L+"target_factory.py", '''        if item_type not in cls.SHELL_ITEM_CLASSES:
            msg''','''        found = cls.SHELL_ITEM_CLASSES.get(item_type)
        if found is None:
            msg'''), (L+"target_factory.py", '''        return cls.SHELL_ITEM_CLASSES[item_type]
''','''        return found
''')]),
 dict(id="header-struct", props="C01 C02 C03 C26", edits=[(L+"lnk_header.py", '''        items = sorted(self.LINK_FLAG_MASK.items())
        flag = self.r_link_flags()
        return [key for mask, key in items if bool(flag & mask)]
''','''        return self._names(self.LINK_FLAG_MASK, self.r_link_flags())

    @staticmethod
    def _names(masks, value):
        names = []
        for mask in sorted(masks):
            if value & mask == mask:
                names.append(masks[mask])
        return names
'''), (L+"lnk_header.py", '''        items = sorted(self.FILE_FLAG_MASK.items())
        flag = self.r_file_flags()
        return [key for mask, key in items if bool(flag & mask)]
''','''        return self._names(self.FILE_FLAG_MASK, self.r_file_flags())
'''), (L+"lnk_header.py", '''        start, end = 24, 28
        flags = unpack("<I", self._raw[start:end])[0]
        return flags
''','''        return int.from_bytes(self._raw[24:28], "little")
'''), (L+"lnk_header.py", '''        b_low, b_high = unpack("<cc", hot_key)

        high = self.HOTKEY_VALUES_HIGH.get(b_high)
        low = self.HOTKEY_VALUES_LOW.get(b_low)

        if high and low:
            return "%s - %s {0x%s}" % (high, low, hot_key.hex())
        return hot_key.hex()
''','''        low, high = hot_key[0:1], hot_key[1:2]
        text = hot_key.hex()
        if low not in self.HOTKEY_VALUES_LOW or high not in self.HOTKEY_VALUES_HIGH:
            return text
        return f"{self.HOTKEY_VALUES_HIGH[high]} - {self.HOTKEY_VALUES_LOW[low]} {{0x{text}}}"
''')]),
 dict(id="link-cursor", props="C08 C24 C19 C21", edits=[(L+"lnk_file.py", '''        # Parse String Data
        self.string_data = StringData(self, indata=self.indata[index:], cp=self.cp)
        index += self.string_data.size()

        # Parse Extra Data
        self.extras = ExtraData(
            indata=self.indata[index:], cp=self.cp, allow_terminal_blocks=self.allow_terminal_blocks
        )
        index += self.extras.size()

        # Add size of the footer if present
        index += min(len(self.indata[index:]), 4)

        # Final LNK size
        self.size = index
''','''        self.size = self._process_tail(index)

    def _process_tail(self, index):
        rest = self.indata[index:]
        self.string_data = StringData(self, indata=rest, cp=self.cp)
        rest = rest[self.string_data.size() :]
        index += self.string_data.size()

        self.extras = ExtraData(
            indata=rest, cp=self.cp, allow_terminal_blocks=self.allow_terminal_blocks
        )
        index += self.extras.size()

        # Add size of the footer if present
        footer = max(0, len(self.indata) - index)
        return index + (footer if footer < 4 else 4)
''')]),
 dict(id="link-predicates", props="C02 C07 C08 C24", edits=[(L+"lnk_file.py", '''        return bool("HasRelativePath" in self.header.link_flags())
''','''        return self._has_flag("HasRelativePath")

    def _has_flag(self, name):
        return name in self.header.link_flags()
'''), (L+"lnk_file.py", '''        return bool("HasArguments" in self.header.link_flags())
''','''        return self._has_flag("HasArguments")
'''), (L+"lnk_file.py", '''        return bool("IsUnicode" in self.header.link_flags())
''','''        return bool(self.header.r_link_flags() & 0x80)
''')]),
 dict(id="command-join", props="C24 C19 C25 C28", edits=[(L+"lnk_file.py", '''        out = []

        relative_path = self.string_data.relative_path()
        if relative_path is not None:
            out.append(list2cmdline([relative_path]))

        arguments = self.string_data.command_line_arguments()
        if arguments is not None:
            out.append(arguments)

        return " ".join(out)
''','''        path = self.string_data.relative_path()
        arguments = self.string_data.command_line_arguments()
        if path is None:
            return arguments if arguments is not None else ""
        command = list2cmdline([path])
        return command if arguments is None else f"{command} {arguments}"
''')]),
]

REFACTORS += [
 dict(id="report-pops", props="C21 C22 C27 C25", edits=[(L+"lnk_file.py", '''            res["header"].pop("header_size", None)
            res["header"].pop("reserved0", None)
            res["header"].pop("reserved1", None)
            res["header"].pop("reserved2", None)
            res["link_info"].pop("link_info_size", None)
            res["link_info"].pop("link_info_header_size", None)
            res["link_info"].pop("volume_id_offset", None)
            res["link_info"].pop("local_base_path_offset", None)
            res["link_info"].pop("common_network_relative_link_offset", None)
            res["link_info"].pop("common_path_suffix_offset", None)
            if "location" in res["link_info"] and "Local" in res["link_info"]["location"]:
                res["link_info"]["location_info"].pop("volume_id_size", None)
                res["link_info"]["location_info"].pop("volume_label_offset", None)
            if "location" in res["link_info"] and "Network" in res["link_info"]["location"]:
                res["link_info"]["location_info"].pop("common_network_relative_link_size", None)
                res["link_info"]["location_info"].pop("net_name_offset", None)
                res["link_info"]["location_info"].pop("device_name_offset", None)

            if "target" in res:
                res["target"].pop("index", None)
                res["target"].pop("size", None)
                if "items" in res["target"]:
                    for item in res["target"]["items"]:
                        if item:
                            item.pop("modification_time", None)

        return res
''','''            self._drop_raw(res)

        return res

    @staticmethod
    def _drop_raw(res):
        def drop(section, *names):
            for name in names:
                section.pop(name, None)

        info = res["link_info"]
        drop(res["header"], "header_size", "reserved0", "reserved1", "reserved2")
        drop(
            info,
            "link_info_size",
            "link_info_header_size",
            "volume_id_offset",
            "local_base_path_offset",
            "common_network_relative_link_offset",
            "common_path_suffix_offset",
        )
        location = info.get("location")
        if location == "Local":
            drop(info["location_info"], "volume_id_size", "volume_label_offset")
        elif location == "Network":
            drop(
                info["location_info"],
                "common_network_relative_link_size",
                "net_name_offset",
                "device_name_offset",
            )

        target = res.get("target")
        if target is not None:
            drop(target, "index", "size")
            for item in target["items"]:
                drop(item, "modification_time")
''')]),
 dict(id="report-info-helper", props="C13 C14 C21", edits=[(L+"lnk_file.py", '''                if self.info.network_provider_type():
                    res["link_info"]["location_info"]["network_provider_type"] = (
                        self.info.network_provider_type()
                    )
''','''                provider = self.info.network_provider_type()
                if provider:
                    res["link_info"]["location_info"]["network_provider_type"] = provider
'''), (L+"lnk_file.py", '''            if type(self.info).__name__ == "Local":''','''            if isinstance(self.info, Local):'''),
 (L+"lnk_file.py", '''            elif type(self.info).__name__ == "Network":''','''            elif isinstance(self.info, Network):'''),
 (L+"lnk_file.py", '''from LnkParse3.info_factory import InfoFactory
''','''from LnkParse3.info.local import Local
from LnkParse3.info.network import Network
from LnkParse3.info_factory import InfoFactory
''')]),
 dict(id="show-parts", props="C27 C25 C28", edits=[(L+"lnk_file.py", '''        res_json = make_keys_nice(res, uppercase=True)

        # the header comes first, without a key of its own
        parts = [res_json.pop("HEADER")]
        parts.extend({key: value} for key, value in res_json.items())

        # separate the sections by empty lines
        res_yaml = "\\n".join(
            yaml.dump(part, indent=3, sort_keys=False, width=132, allow_unicode=True)
            for part in parts
        )

        print("Windows Shortcut Information:")
        print(textwrap.indent(res_yaml, "   "))
''','''        def dump(part):
            text = yaml.dump(part, indent=3, sort_keys=False, width=132, allow_unicode=True)
            return textwrap.indent(text, "   ")

        print("Windows Shortcut Information:")
        nice = make_keys_nice(res, uppercase=True)
        # the header comes first, without a key of its own
        parts = [dump(nice["HEADER"])]
        for key, value in nice.items():
            if key == "HEADER":
                continue
            parts.append(dump({key: value}))
        print("\\n".join(parts))
''')]),
 dict(id="show-nice", props="C27", edits=[(L+"lnk_file.py", '''            if isinstance(input, dict):
                if "class" in input:
                    key = input.pop("class")
                    return {key: make_keys_nice(input)}
                result = {}
                for key, value in input.items():
                    result[nice_id(key, uppercase)] = make_keys_nice(value)
                return result
            return input
''','''            if not isinstance(input, dict):
                return input
            name = input.get("class")
            if "class" in input:
                rest = {k: v for k, v in input.items() if k != "class"}
                return {name: make_keys_nice(rest)}
            return {nice_id(k, uppercase): make_keys_nice(v) for k, v in input.items()}
'''), (L+"lnk_file.py", '''            identifier = re.sub("^r_", "", identifier, count=1)
            if uppercase or identifier.upper() == identifier:
                return identifier.upper().replace("_", " ")
            return identifier.capitalize().replace("_", " ")
''','''            if identifier.startswith("r_"):
                identifier = identifier[2:]
            words = identifier.replace("_", " ")
            if uppercase or words.isupper():
                return words.upper()
            return words.capitalize()
''')]),
 dict(id="show-pop", props="C27", edits=[(L+"lnk_file.py", '''        res["header"].pop("r_hotkey")
        res["header"]["link_flags"] = self.format_linkFlags()
        res["header"]["file_flags"] = self.format_fileFlags()
''','''        header = res["header"]
        del header["r_hotkey"]
        header.update(
            link_flags=self.format_linkFlags(),
            file_flags=self.format_fileFlags(),
        )
'''), (L+"lnk_file.py", '''        raw_flags = self.header.r_link_flags()
        suffix = f" - ({raw_flags})" if raw_flags else f"({raw_flags})"
        return " | ".join(self.header.link_flags()) + suffix
''','''        return self._format_flags(self.header.link_flags(), self.header.r_link_flags())

    @staticmethod
    def _format_flags(names, raw_flags):
        text = " | ".join(names)
        if raw_flags:
            text += " - "
        return text + "(%d)" % raw_flags
'''), (L+"lnk_file.py", '''        raw_flags = self.header.r_file_flags()
        suffix = f" - ({raw_flags})" if raw_flags else f"({raw_flags})"
        return " | ".join(self.header.file_flags()) + suffix
''','''        return self._format_flags(self.header.file_flags(), self.header.r_file_flags())
''')]),
 dict(id="json-hook", props="C22 C28", edits=[(L+"lnk_file.py", '''        res = self.get_json(print_all)

        def _datetime_to_str(obj):
            if isinstance(obj, datetime.datetime):
                return obj.replace(microsecond=0).isoformat()
            return obj

        print(
            json.dumps(
                res,
                indent=4,
                separators=(",", ": "),
                default=_datetime_to_str,
                sort_keys=True,
            )
        )
''','''        print(self._encode(self.get_json(print_all)))

    @staticmethod
    def _datetime_to_str(obj):
        if not isinstance(obj, datetime.datetime):
            return obj
        return obj.isoformat(timespec="seconds")

    @classmethod
    def _encode(cls, res):
        options = {"indent": 4, "separators": (",", ": "), "sort_keys": True}
        return json.dumps(res, default=cls._datetime_to_str, **options)
''')]),
 dict(id="main-split", props="C28", edits=[(L+"lnk_file.py", '''def main():
    arg_parser =''','''def _parser():
    arg_parser ='''), (L+"lnk_file.py", '''    args = arg_parser.parse_args()

    with open(args.file, "rb") as file:
        lnk = LnkFile(fhandle=file, cp=args.cp)
        if args.target:
            lnk.print_shortcut_target(pjson=args.json)
        elif args.json:
            lnk.print_json(args.print_all)
        else:
            lnk.print_lnk_file(args.print_all)
''','''    return arg_parser


def main(argv=None):
    args = _parser().parse_args(argv)

    with open(args.file, mode="rb") as file:
        lnk = LnkFile(file, cp=args.cp)

    if args.target:
        lnk.print_shortcut_target(args.json)
        return
    show = lnk.print_json if args.json else lnk.print_lnk_file
    show(print_all=args.print_all)
''')]),
 dict(id="main-indata", props="C28", edits=[(L+"lnk_file.py", '''    with open(args.file, "rb") as file:
        lnk = LnkFile(fhandle=file, cp=args.cp)
        if args.target:
            lnk.print_shortcut_target(pjson=args.json)
        elif args.json:
            lnk.print_json(args.print_all)
        else:
            lnk.print_lnk_file(args.print_all)
''','''    file = open(args.file, "rb")
    try:
        data = file.read()
    finally:
        file.close()
    options = vars(args)
    lnk = LnkFile(indata=data, cp=options["cp"])
    if options["target"]:
        lnk.print_shortcut_target(pjson=options["json"])
    else:
        {True: lnk.print_json, False: lnk.print_lnk_file}[options["json"]](options["print_all"])
''')]),
 dict(id="store-walk", props="C18 C19 C20 C25", edits=[(L+"extra/metadata.py", '''        serialized_property_value_class = SerializedPropertyValueIntegerName
        if self.format_id() == "D5CDD505-2E9C-101B-9397-08002B2CF9AE":
            serialized_property_value_class = SerializedPropertyValueStringName

        while True:
            value = serialized_property_value_class(self._raw[start:], self._text_processor)
            if hex(value.value_size()) == hex(0x0):
                break

            result.append(value)
            start += value.value_size()

        return result
''','''        named = self.format_id() == "D5CDD505-2E9C-101B-9397-08002B2CF9AE"
        cls = SerializedPropertyValueStringName if named else SerializedPropertyValueIntegerName

        value = cls(self._raw[start:], self._text_processor)
        while size := value.value_size():
            result.append(value)
            start += size
            value = cls(self._raw[start:], self._text_processor)

        return result
'''), (L+"extra/metadata.py", '''        start = 8
        result = []

        while True:
            storage = SerializedPropertyStorage(self._raw[start:], self.text_processor)
            if hex(storage.storage_size()) == hex(0x0):
                break

            result.append(storage)
            start += storage.storage_size()

        return result

    def as_dict(self):
        tmp = super().as_dict()
        tmp["property_store"] = [storage.as_dict() for storage in self.property_store()]
        return tmp
''', '''        return list(self._storages())

    def _storages(self):
        rest = self._raw[8:]
        while True:
            storage = SerializedPropertyStorage(rest, self.text_processor)
            size = storage.storage_size()
            if size == 0:
                return
            yield storage
            rest = rest[size:]

    def as_dict(self):
        tmp = super().as_dict()
        store = []
        for storage in self.property_store():
            store.append(storage.as_dict())
        tmp["property_store"] = store
        return tmp
''')]),
 dict(id="shellitem-list", props="C09 C15", edits=[(L+"extra/shell_item.py", '''            try:
                res.append(target.as_item())
            except (KeyError, StructError) as e:
                msg = f"Error while parsing extra TargetID `{target.name}` ({type(e).__name__} {e})"
                warnings.warn(msg)
                continue
        return res
''','''            try:
                item = target.as_item()
            except (KeyError, StructError) as e:
                msg = f"Error while parsing extra TargetID `{target.name}` ({type(e).__name__} {e})"
                warnings.warn(msg)
            else:
                res.append(item)
        return res
'''), (L+"extra/shell_item.py", '''        rest = self._raw[8 : self.size()]
        while rest:
''','''        rest = self._raw[: self.size()][8:]
        while len(rest) > 0:
''')]),
 dict(id="net-item", props="C12 C19", edits=[(L+"target/network_location.py", '''        it = self._string_data()
        self._location = next(it)

        self._description = None
        if self._has_description():
            self._description = next(it, None)

        self._comments = None
        if self._has_comments():
            self._comments = next(it, None)
''','''        texts = self._string_data()
        self._location = next(texts)
        self._description = next(texts, None) if self._has_description() else None
        self._comments = next(texts, None) if self._has_comments() else None
''')]),
 dict(id="cpl-helper", props="C12", edits=[(L+"target/control_panel_cpl.py", '''        char_offset = self._name_offset()
        start = self._strings_start()
        if self._is_unicode():
            byte_offset = start + char_offset * 2
            return self.text_processor.read_unicode_string(self._raw_target[byte_offset:])
        byte_offset = start + char_offset
        return self.text_processor.read_string(self._raw_target[byte_offset:])

    def comments(self):
        char_offset = self._comments_offset()
        if char_offset == 0:
            return ""
        start = self._strings_start()
        if self._is_unicode():
            byte_offset = start + char_offset * 2
            return self.text_processor.read_unicode_string(self._raw_target[byte_offset:])
        byte_offset = start + char_offset
        return self.text_processor.read_string(self._raw_target[byte_offset:])
''','''        return self._text_at(self._name_offset())

    def _text_at(self, char_offset):
        unicode = self._is_unicode()
        width = 2 if unicode else 1
        binary = self._raw_target[self._strings_start() + width * char_offset :]
        read = self.text_processor.read_unicode_string if unicode else self.text_processor.read_string
        return read(binary)

    def comments(self):
        char_offset = self._comments_offset()
        return self._text_at(char_offset) if char_offset else ""
''')]),
 dict(id="info-uint", props="C13 C14 C19", edits=[(L+"info/network.py", '''    def location(self):
        return "Network"

    def common_network_relative_link_size(self):
        start = self.common_network_relative_link_offset()
        end = start + 4
        return unpack("<I", self._raw[start:end])[0]

    def common_network_relative_link_flags(self):
        start = self.common_network_relative_link_offset() + 4
        end = start + 4
        return unpack("<I", self._raw[start:end])[0]
''','''    def location(self):
        return "Network"

    def _uint32(self, field):
        start = self.common_network_relative_link_offset() + field
        (value,) = unpack("<I", self._raw[start : start + 4])
        return value

    def common_network_relative_link_size(self):
        return self._uint32(0)

    def common_network_relative_link_flags(self):
        return self._uint32(4)
'''), (L+"info/local.py", '''        if self.r_drive_type() < len(self.DRIVE_TYPES):
            return self.DRIVE_TYPES[self.r_drive_type()]
        return None
''','''        try:
            return self.DRIVE_TYPES[self.r_drive_type()]
        except IndexError:
            return None
''')]),
]

REFACTORS += [
 dict(id="uuid-fstring", props="C05", edits=[(L+"utils.py", '''    d1, d2, d3 = unpack("<LHH", binary[0:8])
    d4, d51, d52 = unpack(">HHI", binary[8:16])

    uuid = "%08X-%04X-%04X-%04X-%04X%08X" % (d1, d2, d3, d4, d51, d52)

    return uuid
''','''    d1, d2, d3 = unpack("<IHH", binary[:8])
    tail = b"".join(unpack("2s6s", binary[8:16])).hex().upper()

    return f"{d1:08X}-{d2:04X}-{d3:04X}-{tail[:4]}-{tail[4:]}"
''')]),
 dict(id="quad-loop", props="C17 C19", edits=[(L+"utils.py", '''    i = 5
    ddec = 0
    while i >= 1:
        char = quad[i - 1]
        b85 = base_85.find(char)
        ddec = ddec + b85
        if i > 1:
            ddec = ddec * 85
        i -= 1

    return f"{ddec:08X}"
''','''    value = 0
    for i in reversed(range(5)):
        value = value * 85 + base_85.find(quad[i])

    return "%08X" % value
'''),(L+"utils.py", '''    quad1 = _quad_to_hex(text[0:5])
    quad2 = _quad_to_hex(text[5:10])
    quad3 = _quad_to_hex(text[10:15])
    quad4 = _quad_to_hex(text[15:20])
    quads = quad1 + quad2 + quad3 + quad4
''','''    quads = "".join(_quad_to_hex(text[i : i + 5]) for i in range(0, 20, 5))
''')]),
 dict(id="darwin-helper", props="C17 C19", edits=[(L+"extra/darwin.py", '''        data = self.darwin_data_unicode()
        terminator = data.find(">")
        if terminator == -1:
            # Set the ID to `None` if `terminator` is not found.
            return None
        start = terminator + 1
        text = data[start:]
        return text
''','''        _, sign, text = self.darwin_data_unicode().partition(">")
        return text if sign else None
'''), (L+"extra/darwin.py", '''        terminator = max(data.find(">"), data.find("<"))
        if terminator == start:
            # If the terminator is found but is the same as the start position,
            # there is no feature name.
            return None
        end = terminator
        text = data[start:end]
        return text
''','''        end = max(data.find(sign) for sign in "<>")
        # If the terminator is found but is the same as the start position,
        # there is no feature name.
        return None if end == start else data[start:end]
''')]),
 dict(id="filetime-helper", props="C03 C04 C19", edits=[(L+"utils.py", '''    try:
        nanosec = unpack("<Q", binary)[0]

        if nanosec == 0:
            # If the date is 0 it means that the file has been created in an
            # application, then saved from it, and never ever opened.
            return None

        epoch_as_filetime = 116444736000000000
        hundreds_of_nanoseconds = 10000000

        timestamp = (nanosec - epoch_as_filetime) / hundreds_of_nanoseconds
        return datetime.fromtimestamp(timestamp, tz=timezone.utc)
    except (OSError, OverflowError, ValueError):
        if sys.version_info < (3, 8, 0):
            # HACK for older versions for bytes.hex()
            # https://docs.python.org/3.9/library/stdtypes.html?highlight=hex#bytes.hex
            iterator = iter(binary.hex())
            invalid_date = " ".join(a + b for a, b in zip(iterator, iterator, strict=False))
        else:
            invalid_date = binary.hex(" ")
        msg = "Invalid filetime: %s" % invalid_date
        warnings.warn(msg)
        return None
''','''    (ticks,) = unpack("<Q", binary)

    # If the date is 0 it means that the file has been created in an
    # application, then saved from it, and never ever opened.
    if not ticks:
        return None

    try:
        return datetime.fromtimestamp((ticks - 116444736000000000) / 10**7, tz=timezone.utc)
    except (OSError, OverflowError, ValueError):
        return _invalid("filetime", binary)


def _invalid(kind, binary):
    warnings.warn(f"Invalid {kind}: {binary.hex(' ')}")
'''),(L+"utils.py", '''        ymdhms = (
            ((dos & 0x0000FE00) >> 9) + 1980,
            ((dos & 0x000001E0) >> 5),
            ((dos & 0x0000001F) >> 0),
            ((dos & 0xF8000000) >> 27),
            ((dos & 0x07E00000) >> 21),
            ((dos & 0x001F0000) >> 16) * 2,
        )

        return datetime(*ymdhms, tzinfo=timezone.utc)
    except ValueError:
        if sys.version_info < (3, 8, 0):
            # HACK for older versions for bytes.hex()
            # https://docs.python.org/3.9/library/stdtypes.html?highlight=hex#bytes.hex
            iterator = iter(binary.hex())
            invalid_date = " ".join(a + b for a, b in zip(iterator, iterator, strict=False))
        else:
            invalid_date = binary.hex(" ")
        msg = "Invalid dostime: %s" % invalid_date
        warnings.warn(msg)
        return None
''','''        time, date = divmod(dos, 0x10000)
        return datetime(
            year=1980 + (date >> 9),
            month=date >> 5 & 0xF,
            day=date & 0x1F,
            hour=time >> 11,
            minute=time >> 5 & 0x3F,
            second=(time & 0x1F) * 2,
            tzinfo=timezone.utc,
        )
    except ValueError:
        return _invalid("dostime", binary)
'''),(L+"utils.py",'''import sys
''','''''')]),
 dict(id="dostime-swap", props="C04", edits=[(L+"utils.py", '''        time, date = 0''' if False else '''        ymdhms = (
            ((dos & 0x0000FE00) >> 9) + 1980,
            ((dos & 0x000001E0) >> 5),
            ((dos & 0x0000001F) >> 0),
            ((dos & 0xF8000000) >> 27),
            ((dos & 0x07E00000) >> 21),
            ((dos & 0x001F0000) >> 16) * 2,
        )
''','''        def bits(start, count):
            return dos >> start & (1 << count) - 1

        ymdhms = [bits(9, 7) + 1980, bits(5, 4), bits(0, 5), bits(27, 5), bits(21, 6), bits(16, 5) << 1]
''')]),
 dict(id="decorators-make", props="C05 C03 C04 C26 C17", edits=[(L+"decorators.py", '''            if result != expected:
                msg = "%s must be %s: %s" % (func.__name__, expected, result)
                warnings.warn(msg)

            return result
''','''            if result == expected:
                return result
            warnings.warn(f"{func.__name__} must be {expected}: {result}")
            return result
'''),(L+"decorators.py", '''def uuid(func):
    @functools.wraps(func)
    def inner(self, *args, **kwargs):
        binary = func(self, *args, **kwargs)

        return parse_uuid(binary)

    return inner


def packed_uuid(func):
    @functools.wraps(func)
    def inner(self, *args, **kwargs):
        text = func(self, *args, **kwargs)

        return parse_packed_uuid(text)

    return inner


def filetime(func):
    @functools.wraps(func)
    def inner(self, *args, **kwargs):
        binary = func(self, *args, **kwargs)

        return parse_filetime(binary)

    return inner


def dostime(func):
    @functools.wraps(func)
    def inner(self, *args, **kwargs):
        binary = func(self, *args, **kwargs)

        return parse_dostime(binary)

    return inner
''','''def _convert(parse):
    def outer(func):
        @functools.wraps(func)
        def inner(self, *args, **kwargs):
            return parse(func(self, *args, **kwargs))

        return inner

    return outer


uuid = _convert(parse_uuid)
packed_uuid = _convert(parse_packed_uuid)
filetime = _convert(parse_filetime)
dostime = _convert(parse_dostime)
''')]),
 dict(id="users-helper", props="C11 C05 C19 C25", edits=[(L+"target/users_files_folder.py", '''    @uuid
    def delegate_class_id(self):
        offset = self._delegate_offset()
        return self._raw_target[offset : offset + 16]

    @uuid
    def delegate_folder_id(self):
        offset = self._delegate_offset() + 16
        return self._raw_target[offset : offset + 16]
''','''    @uuid
    def _delegate(self, index):
        rest = self._raw_target[self._delegate_offset() :]
        return rest[16 * index :][:16]

    def delegate_class_id(self):
        return self._delegate(0)

    def delegate_folder_id(self):
        return self._delegate(index=1)
'''),(L+"target/users_files_folder.py", '''        item = super().as_item()
        item["signature"] = self.signature().decode("ascii", errors="replace")
        item["file_entry"] = self.file_entry().as_item()
        item["delegate_class_id"] = self.delegate_class_id()
        item["delegate_folder_id"] = self.delegate_folder_id()
        return item
''','''        return {
            **super().as_item(),
            "signature": str(self.signature(), "ascii", "replace"),
            "file_entry": self.file_entry().as_item(),
            "delegate_class_id": self.delegate_class_id(),
            "delegate_folder_id": self.delegate_folder_id(),
        }
''')]),
 dict(id="console-dict", props="C16 C19 C25", edits=[(L+"extra/console.py", '''        tmp = super().as_dict()
        tmp["fill_attributes"] = self.fill_attributes()
        tmp["popup_fill_attributes"] = self.popup_fill_attributes()
        tmp["screen_buffer_size_x"] = self.screen_buffer_size_x()
        tmp["screen_buffer_size_y"] = self.screen_buffer_size_y()
        tmp["window_size_x"] = self.window_size_x()
        tmp["window_size_y"] = self.window_size_y()
        tmp["window_origin_x"] = self.window_origin_x()
        tmp["window_origin_y"] = self.window_origin_y()
''','''        tmp = super().as_dict()
        for field in (
            "fill_attributes",
            "popup_fill_attributes",
            "screen_buffer_size_x",
            "screen_buffer_size_y",
            "window_size_x",
            "window_size_y",
            "window_origin_x",
            "window_origin_y",
        ):
            tmp[field] = getattr(self, field)()
'''),(L+"extra/console.py", '''        start, end = 12, 14
        return unpack("<h", self._raw[start:end])[0]

    def screen_buffer_size_y(self):
        start, end = 14, 16
        return unpack("<h", self._raw[start:end])[0]
''','''        return int.from_bytes(self._int16(12), "little", signed=True)

    def screen_buffer_size_y(self):
        return int.from_bytes(self._int16(14), "little", signed=True)

    def _int16(self, start):
        return unpack("2s", self._raw[start : start + 2])[0]
''')]),
 dict(id="tracker-table", props="C16 C26 C05", edits=[(L+"extra/distributed_tracker.py", '''    @uuid
    def droid_volume_id(self):
        start, end = 32, 48
        binary = self._raw[start:end]
        return binary

    @uuid
    def droid_file_id(self):
        start, end = 48, 64
        binary = self._raw[start:end]
        return binary
''','''    @uuid
    def _droid(self, number):
        start = 32 + 16 * number
        return self._raw[start : start + 16]

    def droid_volume_id(self):
        return self._droid(0)

    def droid_file_id(self):
        return self._droid(1)
'''),(L+"extra/distributed_tracker.py", '''        start = 16
        end = start + 16
        binary = self._raw[start:end]
        text = self.text_processor.read_string(binary)
        return text
''','''        binary = self._raw[16:][:16]
        return self.text_processor.read_string(binary)
''')]),
 dict(id="base-flags", props="C11 C12", edits=[(L+"target/lnk_target_base.py", '''        for flag, name in self.SHELL_ITEM_SHEL_FS_FOLDER.items():
            if flags & flag == flag:
                return name
        msg = (
''','''        table = self.SHELL_ITEM_SHEL_FS_FOLDER
        found = next((table[flag] for flag in table if not flag & ~flags), None)
        if found is not None:
            return found
        msg = (
'''),(L+"target/lnk_target_base.py", '''        inv = {v: k for k, v in self.SHELL_ITEM_SHEL_FS_FOLDER.items()}
        mask = inv["Has Unicode strings"]
        return bool(self.class_type_indicator() & mask)
''','''        return self.class_type_indicator() & 0x04 != 0
''')]),
 dict(id="root-get", props="C12 C05", edits=[(L+"target/root_folder.py", '''        if sort_index_value not in cls.SORT_INDEX:
            msg = (
                f"Not implemented sort_index_value {sort_index_value:02X} "
                "in RootFolder.SORT_INDEX. "
                'Use fallback value: "Unknown".'
            )
            warnings.warn(msg)
            return "Unknown"
        return cls.SORT_INDEX[sort_index_value]
''','''        try:
            return cls.SORT_INDEX[sort_index_value]
        except KeyError:
            warnings.warn(
                "Not implemented sort_index_value %02X in RootFolder.SORT_INDEX. "
                'Use fallback value: "Unknown".' % sort_index_value
            )
        return "Unknown"
'''),(L+"target/root_folder.py", '''        start, end = 1, 2
        return unpack("<B", self._raw_target[start:end])[0]
''','''        return unpack_from("<B", self._raw_target, 1)[0]
'''),(L+"target/root_folder.py", '''from struct import unpack
''','''from struct import unpack_from
''')]),
 dict(id="volume-once", props="C12 C10", edits=[(L+"target/my_computer.py", '''        item = super().as_item()
        item["flags"] = hex(self.flags())
        if self._has_name():
            item["volume_name"] = self.volume_name()
        else:
            item["volume_identifier"] = self.volume_identifier()
        return item
''','''        item = super().as_item()
        item.update(flags=f"{self.flags():#x}")
        key = "volume_name" if self._has_name() else "volume_identifier"
        item[key] = getattr(self, key)()
        return item
''')]),
 dict(id="label-once", props="C13 C19 C25", edits=[(L+"info/local.py", '''        if not self.volume_label_unicode_offset():
            return None

        start = self.volume_id_offset() + self.volume_label_unicode_offset()

        binary = self._raw[start:]
        text = self.text_processor.read_unicode_string(binary)
        return text
''','''        offset = self.volume_label_unicode_offset() or 0
        if offset == 0:
            return None

        volume_id = self._raw[self.volume_id_offset() :]
        return self.text_processor.read_unicode_string(volume_id[offset:])
'''),(L+"lnk_info.py", '''        if not self.local_base_path_offset():
            return None

        start = self.local_base_path_offset()

        binary = self._raw[start:]
        text = self.text_processor.read_string(binary)
        return text
''','''        if start := self.local_base_path_offset():
            return self.text_processor.read_string(self._raw[start:])
        return None
''')]),
 dict(id="style-names", props="C01", edits=[(L+"lnk_header.py", '''        start, end = 60, 64
        style = unpack("<i", self._raw[start:end])[0]
        fallback = self.WINDOW_STYLES[1]
        return self.WINDOW_STYLES.get(style, fallback)
''','''        style = int.from_bytes(self._raw[60:64], "little")
        if style not in self.WINDOW_STYLES:
            style = 1
        return self.WINDOW_STYLES[style]
'''),(L+"lnk_header.py", '''        b_low, b_high = unpack("<cc", hot_key)

        high = self.HOTKEY_VALUES_HIGH.get(b_high)
        low = self.HOTKEY_VALUES_LOW.get(b_low)

        if high and low:
            return "%s - %s {0x%s}" % (high, low, hot_key.hex())
        return hot_key.hex()
''','''        number = hot_key.hex()

        try:
            low = self.HOTKEY_VALUES_LOW[hot_key[:1]]
            high = self.HOTKEY_VALUES_HIGH[hot_key[1:]]
        except KeyError:
            return number
        return " ".join((high, "-", low, f"{{0x{number}}}"))
''')]),
 dict(id="size-loop", props="C08", edits=[(L+"extra_data.py", '''        return sum(extra.size() for extra in self.data)
''','''        total = 0
        for extra in self.data:
            total += extra.size()
        return total
''')]),
 dict(id="env-helper", props="C16", edits=[(L+"extra/environment.py", '''    def target_ansi(self):
        start = 8
        end = start + 260
        binary = self._raw[start:end]
        text = self.text_processor.read_string(binary)
        return text

    def target_unicode(self):
        start = 268
        end = start + 520
        binary = self._raw[start:end]
        text = self.text_processor.read_unicode_string(binary)
        return text
''','''    def _field(self, read, start, length):
        return read(memoryview(self._raw)[start : start + length].tobytes())

    def target_ansi(self):
        return self._field(self.text_processor.read_string, 8, 260)

    def target_unicode(self):
        return self._field(self.text_processor.read_unicode_string, 268, 520)
''')]),
 dict(id="typed-match", props="C18 C19", edits=[(L+"extra/metadata.py", '''        if self.value_padding() != 0:
            return None

        start = 4
        if self.value_type() == PropertyType.VT_I2:
            end = 6
            return unpack("<h", self._raw[start:end])[0]
        if self.value_type() == PropertyType.VT_LPWSTR:
            unicode_string_size = unpack("<I", self._raw[start : start + 4])[0] * 2
            unicode_string = self._raw[start + 4 : start + 4 + unicode_string_size]
            return self._text_processor.read_unicode_string(unicode_string)
        return None
''','''        if self.value_padding():
            return None

        content = self._raw[4:]
        match self.value_type():
            case PropertyType.VT_I2:
                return unpack("<h", content[:2])[0]
            case PropertyType.VT_LPWSTR:
                (length,) = unpack("<I", content[:4])
                return self._text_processor.read_unicode_string(content[4 : 4 + 2 * length])
            case _:
                return None
'''),(L+"extra/metadata.py", '''        start, end = 4, 8
        version = unpack("<I", self._raw[start:end])[0]
        return hex(version)
''','''        return f"{unpack('<I', self._raw[4:8])[0]:#x}"
'''),(L+"extra/metadata.py", '''            "serialized_property_values": [v.as_dict() for v in self.serialized_property_values()],
''','''            "serialized_property_values": list(map(lambda v: v.as_dict(), self.serialized_property_values())),
''')]),
 dict(id="init-split", props="C08 C19 C28", edits=[(L+"extra_data.py", '''            data, rest = rest[:size], rest[size:]

            cls = factory.extra_class()
            if cls:
                extra = cls(indata=data, cp=self.cp)
                self.data.append(extra)
''','''            cls = factory.extra_class()
            if cls is not None:
                self.data.append(cls(rest[:size], self.cp))
            rest = rest[size:]
''')]),
 dict(id="text-find-slice", props="C06 C12 C19 C20", edits=[(L+"text_processor.py", '''        chars = []

        def _chars_to_string(lst):
            bin_string = b"".join(lst)
            try:
                string = bin_string.decode(self.cp)
            except UnicodeDecodeError:
                # Fallback to UTF-8 before giving up.
                try:
                    string = bin_string.decode("utf-8")
                except UnicodeDecodeError as e:
                    string = bin_string.decode(self.cp, errors="replace")
                    msg = f"Error while decoding string `{string}` ({e})"
                    warnings.warn(msg)
            yield string

        for char in binary:
            if char == 0x00:
                yield from _chars_to_string(chars)
                chars = []
            else:
                chars.append(bytes([char]))

        yield from _chars_to_string(chars)

    def read_string(''', '''        rest = binary
        while True:
            end = rest.find(b"\\x00")
            if end < 0:
                break
            yield self._decode(rest[:end])
            rest = rest[end + 1 :]

        yield self._decode(rest)

    def _decode(self, bin_string):
        for codec in (self.cp, "utf-8"):
            try:
                return bin_string.decode(codec)
            except UnicodeDecodeError as e:
                error = e
        string = bin_string.decode(self.cp, errors="replace")
        warnings.warn(f"Error while decoding string `{string}` ({error})")
        return string

    def read_string(''')]),
 dict(id="text-units-range", props="C06 C19 C20", edits=[(L+"text_processor.py", '''        for char in self._2bytes_each(binary):
            if char == b"\\x00\\x00":
                yield from _chars_to_string(chars)
                chars = []
            else:
                chars.append(char)

        yield from _chars_to_string(chars)
''', '''        for i in range(0, len(binary), 2):
            char = binary[i : i + 2]
            if char == b"\\x00\\x00":
                yield from _chars_to_string(chars)
                chars = []
            else:
                chars.append(char)

        yield from _chars_to_string(chars)
''')]),
 dict(id="text-partition", props="C06 C16", edits=[(L+"text_processor.py", '''        it = self.read_strings(binary)
        return next(it)

    def read_unicode_strings''', '''        binary, _, _ = binary.partition(b"\\x00")
        for string in self.read_strings(binary):
            return string

    def read_unicode_strings''')]),
 dict(id="dostime-shift", props="C04 C11", edits=[(L+"utils.py", '''        ymdhms = (
            ((dos & 0x0000FE00) >> 9) + 1980,
            ((dos & 0x000001E0) >> 5),
            ((dos & 0x0000001F) >> 0),
            ((dos & 0xF8000000) >> 27),
            ((dos & 0x07E00000) >> 21),
            ((dos & 0x001F0000) >> 16) * 2,
        )

        return datetime(*ymdhms, tzinfo=timezone.utc)
''', '''        date, time = dos & 0xFFFF, dos >> 16
        return datetime(
            year=1980 + (date >> 9),
            month=(date >> 5) & 0xF,
            day=date & 0x1F,
            hour=time >> 11,
            minute=(time >> 5) & 0x3F,
            second=(time & 0x1F) * 2,
            tzinfo=timezone.utc,
        )
''')]),
 dict(id="packed-permute", props="C17 C19", edits=[(L+"utils.py", '''    d1 = quads[:8]
    d2 = quads[12:16]
    d3 = quads[8:12]
    d41 = quads[22:24]
    d42 = quads[20:22]
    d51 = quads[18:20]
    d52 = quads[16:18]
    d53 = quads[30:32]
    d54 = quads[28:30]
    d55 = quads[26:28]
    d56 = quads[24:26]

    uuid = "%s-%s-%s-%s%s-%s%s%s%s%s%s" % (
        d1,
        d2,
        d3,
        d41,
        d42,
        d51,
        d52,
        d53,
        d54,
        d55,
        d56,
    )

    return uuid
''', '''    def pairs(start):
        return [quads[i : i + 2] for i in range(start + 6, start - 1, -2)]

    last = pairs(16) + pairs(24)
    return "-".join((quads[:8], quads[12:16], quads[8:12], "".join(last[:2]), "".join(last[2:])))
''')]),
 dict(id="quad-horner", props="C17 C19", edits=[(L+"utils.py", '''    i = 5
    ddec = 0
    while i >= 1:
        char = quad[i - 1]
        b85 = base_85.find(char)
        ddec = ddec + b85
        if i > 1:
            ddec = ddec * 85
        i -= 1

    return f"{ddec:08X}"
''', '''    ddec = sum(base_85.find(quad[i]) * 85**i for i in range(5))

    return f"{ddec:08X}"
''')]),
 dict(id="darwin-partition", props="C17 C19", edits=[(L+"extra/darwin.py", '''        terminator = data.find(">")
        if terminator == -1:
            # Set the ID to `None` if `terminator` is not found.
            return None
        start = terminator + 1
        text = data[start:]
        return text
''', '''        if ">" not in data:
            return None
        return data[data.index(">") + 1 :]
''')]),
 dict(id="header-names", props="C01 C02", edits=[(L+"lnk_header.py", '''        items = sorted(self.LINK_FLAG_MASK.items())
        flag = self.r_link_flags()
        return [key for mask, key in items if bool(flag & mask)]
''', '''        return self._names(self.LINK_FLAG_MASK, self.r_link_flags())

    @staticmethod
    def _names(masks, value):
        names = []
        for bit in range(32):
            name = masks.get(1 << bit)
            if name is not None and value >> bit & 1:
                names.append(name)
        return names
''')]),
 dict(id="header-filter", props="C02", edits=[(L+"lnk_header.py", '''        items = sorted(self.FILE_FLAG_MASK.items())
        flag = self.r_file_flags()
        return [key for mask, key in items if bool(flag & mask)]
''', '''        flag = self.r_file_flags()
        masks = filter(lambda mask: flag & mask, sorted(self.FILE_FLAG_MASK))
        return list(map(self.FILE_FLAG_MASK.__getitem__, masks))
''')]),
 dict(id="extra-split", props="C15 C08 C19 C20 C25", edits=[(L+"extra_data.py", '''            if size < 4:
                break

            data, rest = rest[:size], rest[size:]

            cls = factory.extra_class()
            if cls:
                extra = cls(indata=data, cp=self.cp)
                self.data.append(extra)

        # If there''', '''            if size < 4:
                break

            data, rest = rest[:size], rest[size:]
            self._add_block(factory.extra_class(), data)

        # If there'''), (L+"extra_data.py", '''            extra = Terminal(indata=rest, cp=self.cp)
            self.data.append(extra)
''', '''            self._add_block(Terminal, rest)

    def _add_block(self, cls, data):
        if cls is None:
            return
        self.data.append(cls(indata=data, cp=self.cp))
''')]),
 dict(id="targets-comp", props="C09 C10 C19", edits=[(L+"lnk_targets.py", '''        res = []
        for target in self:
            try:
                res.append(target.as_item())
            except (KeyError, StructError) as e:
                msg = f"Error while parsing TargetID `{target.name}` ({type(e).__name__} {e})"
                warnings.warn(msg)
                continue
        return res
''', '''        items = (self._as_item(target) for target in self)
        return [item for item in items if item is not None]

    @staticmethod
    def _as_item(target):
        try:
            return target.as_item()
        except (KeyError, StructError) as e:
            warnings.warn(f"Error while parsing TargetID `{target.name}` ({type(e).__name__} {e})")
            return None
''')]),
 dict(id="net-helper", props="C14 C19", edits=[(L+"info/network.py", '''    def net_name_unicode(self):
        if self.net_name_offset() <= 20:
            return None

        start = self.common_network_relative_link_offset()
        start += self.net_name_offset_unicode()

        binary = self._raw[start:]
        text = self.text_processor.read_unicode_string(binary)
        return text
''', '''    def _is_unicode(self):
        return self.net_name_offset() > 0x14

    def _from(self, offset):
        return self._raw[self.common_network_relative_link_offset() + offset :]

    def net_name_unicode(self):
        offset = self.net_name_offset_unicode()
        if offset is None:
            return None
        return self.text_processor.read_unicode_string(self._from(offset))
'''), (L+"info/network.py", '''        if self.net_name_offset() > 20:
            return None

        start = self.common_network_relative_link_offset()
        start += self.device_name_offset()

        binary = self._raw[start:]
        text = self.text_processor.read_string(binary)
        return text
''', '''        if self._is_unicode():
            return None
        return self.text_processor.read_string(self._from(self.device_name_offset()))
''')]),
 dict(id="drive-try", props="C13 C19", edits=[(L+"info/local.py", '''        if self.r_drive_type() < len(self.DRIVE_TYPES):
            return self.DRIVE_TYPES[self.r_drive_type()]
        return None
''', '''        try:
            return self.DRIVE_TYPES[self.r_drive_type()]
        except IndexError:
            return None
''')]),
 dict(id="class-mask", props="C10 C09", edits=[(L+"target_factory.py", '''        masked_item_type = item_type & 0x70
        if masked_item_type in [0x20, 0x30, 0x40]:
            target = self.get_shell_item_classes(masked_item_type)
        else:
            target = self.get_shell_item_classes(item_type)

        return target
''', '''        if 0x20 <= item_type & 0x70 <= 0x40:
            item_type &= 0x70
        return self.get_shell_item_classes(item_type)
'''), (L+"target_factory.py", '''        if item_type not in cls.SHELL_ITEM_CLASSES:
            msg = (
                f"Not implemented item_type 0x{item_type:02X} "
                "in TargetFactory.SHELL_ITEM_CLASSES. "
                f"Use fallback value: {Unknown!r}."
            )
            warnings.warn(msg)
            return Unknown
        return cls.SHELL_ITEM_CLASSES[item_type]
''', '''        try:
            return cls.SHELL_ITEM_CLASSES[item_type]
        except KeyError:
            warnings.warn(
                f"Not implemented item_type 0x{item_type:02X} "
                "in TargetFactory.SHELL_ITEM_CLASSES. "
                f"Use fallback value: {Unknown!r}."
            )
        return Unknown
''')]),
 dict(id="store-iter", props="C18 C19 C20 C25", edits=[(L+"extra/metadata.py", '''        while True:
            value = serialized_property_value_class(self._raw[start:], self._text_processor)
            if hex(value.value_size()) == hex(0x0):
                break

            result.append(value)
            start += value.value_size()

        return result
''', '''        rest = self._raw[start:]
        value = serialized_property_value_class(rest, self._text_processor)
        while value.value_size() > 0:
            result.append(value)
            rest = rest[value.value_size() :]
            value = serialized_property_value_class(rest, self._text_processor)

        return result
''')]),
 dict(id="typed-table", props="C18 C19", edits=[(L+"extra/metadata.py", '''        start = 4
        if self.value_type() == PropertyType.VT_I2:
            end = 6
            return unpack("<h", self._raw[start:end])[0]
        if self.value_type() == PropertyType.VT_LPWSTR:
            unicode_string_size = unpack("<I", self._raw[start : start + 4])[0] * 2
            unicode_string = self._raw[start + 4 : start + 4 + unicode_string_size]
            return self._text_processor.read_unicode_string(unicode_string)
        return None
''', '''        readers = {PropertyType.VT_I2.value: self._short, PropertyType.VT_LPWSTR.value: self._text}
        reader = readers.get(self.value_type())
        return reader(self._raw[4:]) if reader else None

    def _short(self, raw):
        return unpack("<h", raw[:2])[0]

    def _text(self, raw):
        (count,) = unpack("<I", raw[:4])
        return self._text_processor.read_unicode_string(raw[4 : 4 + count * 2])
''')]),
 dict(id="string-fields", props="C07 C24 C19", edits=[(L+"string_data.py", '''        text = self._read(binary[offset : offset + length])
        return text, offset + length
''', '''        end = offset + length
        return self._read(binary[offset:end]), end
'''), (L+"string_data.py", '''        length = 260 if limit_length and char_count > 260 else char_count
''', '''        length = min(char_count, 260) if limit_length else char_count
''')]),
 dict(id="command-filter", props="C24 C28", edits=[(L+"lnk_file.py", '''        out = []

        relative_path = self.string_data.relative_path()
        if relative_path is not None:
            out.append(list2cmdline([relative_path]))

        arguments = self.string_data.command_line_arguments()
        if arguments is not None:
            out.append(arguments)

        return " ".join(out)
''', '''        path = self.string_data.relative_path()
        arguments = self.string_data.command_line_arguments()
        quoted = None if path is None else list2cmdline([path])
        return " ".join(part for part in (quoted, arguments) if part is not None)
''')]),
 dict(id="pop-tables", props="C21 C22", edits=[(L+"lnk_file.py", '''            res["link_info"].pop("link_info_size", None)
            res["link_info"].pop("link_info_header_size", None)
            res["link_info"].pop("volume_id_offset", None)
            res["link_info"].pop("local_base_path_offset", None)
            res["link_info"].pop("common_network_relative_link_offset", None)
            res["link_info"].pop("common_path_suffix_offset", None)
''', '''            raw = {"link_info_size", "link_info_header_size", "volume_id_offset", "local_base_path_offset"}
            raw |= {"common_network_relative_link_offset", "common_path_suffix_offset"}
            res["link_info"] = {k: v for k, v in res["link_info"].items() if k not in raw}
''')]),
 dict(id="json-iso", props="C22", edits=[(L+"lnk_file.py", '''            if isinstance(obj, datetime.datetime):
                return obj.replace(microsecond=0).isoformat()
            return obj
''', '''            if not isinstance(obj, datetime.datetime):
                return obj
            return obj.isoformat(timespec="seconds")
''')]),
 dict(id="main-run", props="C28", edits=[(L+"lnk_file.py", '''        if args.target:
            lnk.print_shortcut_target(pjson=args.json)
        elif args.json:
            lnk.print_json(args.print_all)
        else:
            lnk.print_lnk_file(args.print_all)
''', '''    if args.target:
        lnk.print_shortcut_target(pjson=args.json)
        return
    show = lnk.print_json if args.json else lnk.print_lnk_file
    show(print_all=args.print_all)
''')]),
 dict(id="nice-lambda", props="C27", edits=[(L+"lnk_file.py", '''                if "class" in input:
                    key = input.pop("class")
                    return {key: make_keys_nice(input)}
                result = {}
                for key, value in input.items():
                    result[nice_id(key, uppercase)] = make_keys_nice(value)
                return result
''', '''                if "class" in input:
                    rest = {k: v for k, v in input.items() if k != "class"}
                    return {input["class"]: make_keys_nice(rest)}
                return {nice_id(key, uppercase): make_keys_nice(value) for key, value in input.items()}
''')]),
 dict(id="users-slices", props="C11 C05", edits=[(L+"target/users_files_folder.py", '''    @uuid
    def delegate_class_id(self):
        offset = self._delegate_offset()
        return self._raw_target[offset : offset + 16]

    @uuid
    def delegate_folder_id(self):
        offset = self._delegate_offset() + 16
        return self._raw_target[offset : offset + 16]
''', '''    def _delegate(self, index):
        rest = self._raw_target[self._delegate_offset() :]
        return rest[16 * index : 16 * (index + 1)]

    @uuid
    def delegate_class_id(self):
        return self._delegate(0)

    @uuid
    def delegate_folder_id(self):
        return self._delegate(1)
''')]),
 dict(id="cpl-branch", props="C12 C19", edits=[(L+"target/control_panel_cpl.py", '''        char_offset = self._comments_offset()
        if char_offset == 0:
            return ""
        start = self._strings_start()
        if self._is_unicode():
            byte_offset = start + char_offset * 2
            return self.text_processor.read_unicode_string(self._raw_target[byte_offset:])
        byte_offset = start + char_offset
        return self.text_processor.read_string(self._raw_target[byte_offset:])
''', '''        return self._text_at(self._comments_offset()) if self._comments_offset() else ""

    def _text_at(self, char_offset):
        if self._is_unicode():
            width, read = 2, self.text_processor.read_unicode_string
        else:
            width, read = 1, self.text_processor.read_string
        return read(self._raw_target[self._strings_start() + width * char_offset :])
''')]),
 dict(id="sections-helper", props="C08 C19 C28", edits=[(L+"lnk_file.py", '''        self.targets = None
        if self.has_target_id_list():
            try:
                self.targets = LnkTargets(indata=self.indata[index:], cp=self.cp)
                index += self.targets.size()
            except StructError as e:
                warnings.warn(f"Error while parsing LinkTargetIDList: {e!r}")
''', '''        index += self._parse_targets(self.indata[index:])
'''), (L+"lnk_file.py", '''    def print_lnk_file(self, print_all=False):
''', '''    def _parse_targets(self, rest):
        self.targets = None
        if not self.has_target_id_list():
            return 0
        try:
            self.targets = LnkTargets(indata=rest, cp=self.cp)
            return self.targets.size()
        except StructError as e:
            warnings.warn(f"Error while parsing LinkTargetIDList: {e!r}")
            return 0

    def print_lnk_file(self, print_all=False):
''')]),
 dict(id="uuid-module", props="C05 C16 C18", edits=[(L+"utils.py", '''    d1, d2, d3 = unpack("<LHH", binary[0:8])
    d4, d51, d52 = unpack(">HHI", binary[8:16])

    uuid = "%08X-%04X-%04X-%04X-%04X%08X" % (d1, d2, d3, d4, d51, d52)

    return uuid
''', '''    unpack("<16s", binary)
    return str(UUID(bytes_le=binary)).upper()
'''), (L+"utils.py", '''from struct import unpack
''', '''from struct import unpack
from uuid import UUID
''')]),
 dict(id="must-helper", props="C26", edits=[(L+"decorators.py", '''            result = func(self, *args, **kwargs)

            if result != expected:
                msg = "%s must be %s: %s" % (func.__name__, expected, result)
                warnings.warn(msg)

            return result
''', '''            result = func(self, *args, **kwargs)
            if result == expected:
                return result

            warnings.warn("{} must be {}: {}".format(func.__name__, expected, result))
            return result
''')]),
 dict(id="header-gen", props="C02", edits=[(L+"lnk_header.py", '''        items = sorted(self.FILE_FLAG_MASK.items())
        flag = self.r_file_flags()
        return [key for mask, key in items if bool(flag & mask)]
''', '''        return list(self._set_names(self.FILE_FLAG_MASK, self.r_file_flags()))

    def _set_names(self, masks, flag):
        for mask in sorted(masks):
            if flag & mask:
                yield masks[mask]
''')]),
 dict(id="header-genexpr", props="C02", edits=[(L+"lnk_header.py", '''        items = sorted(self.FILE_FLAG_MASK.items())
        flag = self.r_file_flags()
        return [key for mask, key in items if bool(flag & mask)]
''', '''        items = sorted(self.FILE_FLAG_MASK.items())
        flag = self.r_file_flags()
        return list(key for mask, key in items if flag & mask)
''')]),
 dict(id="header-gencont", props="C02", edits=[(L+"lnk_header.py", '''        items = sorted(self.FILE_FLAG_MASK.items())
        flag = self.r_file_flags()
        return [key for mask, key in items if bool(flag & mask)]
''', '''        items = sorted(self.FILE_FLAG_MASK.items())
        flag = self.r_file_flags()
        names = []
        for mask, name in items:
            if not flag & mask:
                continue
            names += [name]
        return names
''')]),
]
REFACTORS += [
 dict(id='file-unpackone', props='C04 C11', edits=[
     (L+'target/shell_fs_folder.py', '''        if self.has_unicode_strings():
            text = self.text_processor.read_unicode_string(binary)
        else:
            text = self.text_processor.read_string(binary)

        return text
''', '''        readers = (self.text_processor.read_string, self.text_processor.read_unicode_string)
        return readers[self.has_unicode_strings()](binary)
''')]),
 dict(id='file-item-update', props='C04 C11', edits=[
     (L+'target/shell_fs_folder.py', '''        item["flags"] = self.flags()
        item["file_size"] = self.file_size()
        item["modification_time"] = self.modification_time()
        item["file_attribute_flags"] = self.file_attribute_flags()
        item["primary_name"] = self.primary_name()
''', '''        for field in ("flags", "file_size", "modification_time", "file_attribute_flags", "primary_name"):
            item[field] = getattr(self, field)()
''')]),
 dict(id='file-frombytes', props='C04 C11', edits=[
     (L+'target/shell_fs_folder.py', '''        start, end = 10, 12
        flags = unpack("<H", self._raw_target[start:end])[0]
        return flags
''', '''        (flags,) = unpack("<H", self._raw_target[10:12])
        return flags
''')]),
 dict(id='file-unpackfrom', props='C04 C11', edits=[
     (L+'target/shell_fs_folder.py', '''from struct import unpack
''', '''from struct import unpack, unpack_from
'''),
     (L+'target/shell_fs_folder.py', '''        start, end = 2, 6
        size = unpack("<I", self._raw_target[start:end])[0]
        return size
''', '''        return unpack_from("<I", self._raw_target, 2)[0]
''')]),
 dict(id='net-it-helper', props='C12', edits=[
     (L+'target/network_location.py', '''        self._description = None
        if self._has_description():
            self._description = next(it, None)

        self._comments = None
        if self._has_comments():
            self._comments = next(it, None)
''', '''        self._description = next(it, None) if self._has_description() else None
        self._comments = next(it, None) if self._has_comments() else None
''')]),
 dict(id='category-try', props='C12', edits=[
     (L+'target/control_panel_category.py', '''        if cat_id not in self.CATEGORIES:
            msg = (
                f"Not implemented category_id {cat_id} "
                "in ControlPanelCategory.CATEGORIES. "
                'Use fallback value: "Unknown".'
            )
            warnings.warn(msg)
            return "Unknown"
        return self.CATEGORIES[cat_id]
''', '''        try:
            return self.CATEGORIES[cat_id]
        except KeyError:
            msg = (
                f"Not implemented category_id {cat_id} "
                "in ControlPanelCategory.CATEGORIES. "
                'Use fallback value: "Unknown".'
            )
            warnings.warn(msg)
        return "Unknown"
''')]),
 dict(id='category-get', props='C12', edits=[
     (L+'target/control_panel_category.py', '''        if cat_id not in self.CATEGORIES:
''', '''        name = self.CATEGORIES.get(cat_id)
        if name is None:
'''),
     (L+'target/control_panel_category.py', '''        return self.CATEGORIES[cat_id]
''', '''        return name
''')]),
 dict(id='targets-suppress', props='C09 C19 C20', edits=[
     (L+'lnk_targets.py', '''            size = factory.item_size()
            rest = rest[size:]
            if target:
                yield target
''', '''            rest = rest[factory.item_size() :]
            if target is not None:
                yield target
''')]),
 dict(id='targets-else', props='C09 C20', edits=[
     (L+'lnk_targets.py', '''            try:
                target = target_class(indata=rest, cp=self.cp)
            except StructError as e:
                warnings.warn(f"Error while parsing TargetID ({e!r})")
                target = None

            size = factory.item_size()
            rest = rest[size:]
            if target:
                yield target
''', '''            item, rest = rest, rest[factory.item_size() :]
            try:
                target = target_class(indata=item, cp=self.cp)
            except StructError as e:
                warnings.warn(f"Error while parsing TargetID ({e!r})")
            else:
                yield target
''')]),
 dict(id='shell-else', props='C09 C15', edits=[
     (L+'extra/shell_item.py', '''        res = []
        for target in self._id_list():
            try:
                res.append(target.as_item())
            except (KeyError, StructError) as e:
                msg = f"Error while parsing extra TargetID `{target.name}` ({type(e).__name__} {e})"
                warnings.warn(msg)
                continue
        return res
''', '''        def items():
            for target in self._id_list():
                try:
                    item = target.as_item()
                except (KeyError, StructError) as e:
                    msg = f"Error while parsing extra TargetID `{target.name}` ({type(e).__name__} {e})"
                    warnings.warn(msg)
                else:
                    yield item

        return list(items())
''')]),
 dict(id='extra-setdefault', props='C15', edits=[
     (L+'extra_data.py', '''                if isinstance(extra, Unknown):
                    if extra.name() not in res:
                        res[extra.name()] = []
                    res[extra.name()].append(extra.as_dict())
                else:
                    res[extra.name()] = extra.as_dict()
''', '''                report = extra.as_dict()
                if isinstance(extra, Unknown):
                    res.setdefault(extra.name(), []).append(report)
                else:
                    res[extra.name()] = report
''')]),
 dict(id='extra-name-once', props='C15', edits=[
     (L+'extra_data.py', '''                if isinstance(extra, Unknown):
                    if extra.name() not in res:
                        res[extra.name()] = []
                    res[extra.name()].append(extra.as_dict())
                else:
                    res[extra.name()] = extra.as_dict()
            except (StructError, ValueError, IndexError) as e:
                msg = "Error while parsing `%s` (%s)" % (extra.name(), e)
                warnings.warn(msg)
                continue
''', '''                block = extra.as_dict()
            except (StructError, ValueError, IndexError) as e:
                warnings.warn("Error while parsing `%s` (%s)" % (extra.name(), e))
                continue
            name = extra.name()
            if not isinstance(extra, Unknown):
                res[name] = block
            elif name in res:
                res[name].append(block)
            else:
                res[name] = [block]
''')]),
 dict(id='extra-while-true', props='C15', edits=[
     (L+'extra_data.py', '''            if cls:
                extra = cls(indata=data, cp=self.cp)
                self.data.append(extra)
''', '''            if cls is None:
                continue
            self.data.append(cls(indata=data, cp=self.cp))
''')]),
 dict(id='linkinfo-dword', props='C13 C14', edits=[
     (L+'lnk_info.py', '''        start, end = 8, 12
        return unpack("<I", self._raw[start:end])[0]
''', '''        return self._dword(2)
'''),
     (L+'lnk_info.py', '''        start, end = 4, 8
        return unpack("<I", self._raw[start:end])[0]
''', '''        return self._dword(1)

    def _dword(self, index):
        return unpack("<I", self._raw[4 * index : 4 * (index + 1)])[0]
'''),
     (L+'lnk_info.py', '''        start, end = 28, 32
        return unpack("<I", self._raw[start:end])[0]
''', '''        return self._dword(7)
''')]),
 dict(id='linkinfo-suffix', props='C13 C14', edits=[
     (L+'lnk_info.py', '''        if not self.common_path_suffix_offset():
            return None

        start = self.common_path_suffix_offset()

        binary = self._raw[start:]
        text = self.text_processor.read_string(binary)
        return text
''', '''        if start := self.common_path_suffix_offset():
            return self.text_processor.read_string(self._raw[start:])
        return None
''')]),
 dict(id='linkinfo-opt', props='C13 C14', edits=[
     (L+'lnk_info.py', '''        if not self._has_opt_fields():
            return None

        start, end = 28, 32
        return unpack("<I", self._raw[start:end])[0]
''', '''        return unpack("<I", self._raw[28:32])[0] if self._has_opt_fields() else None
''')]),
 dict(id='network-name', props='C14', edits=[
     (L+'info/network.py', '''    def net_name(self):
        if self.net_name_offset() > 20:
            return None

        start = self.common_network_relative_link_offset()
        start += self.net_name_offset()

        binary = self._raw[start:]
        text = self.text_processor.read_string(binary)
        return text
''', '''    def _is_unicode(self):
        return self.net_name_offset() > 20

    def _text_at(self, offset, read):
        return read(self._raw[self.common_network_relative_link_offset() + offset :])

    def net_name(self):
        if self._is_unicode():
            return None
        return self._text_at(self.net_name_offset(), self.text_processor.read_string)
''')]),
 dict(id='network-provider-get', props='C14', edits=[
     (L+'info/network.py', '''        if not self.common_network_relative_link_flags() & 0x0002:
            return None
        if self.r_network_provider_type() not in self.NETWORK_PROVIDER_TYPES:
            return None
        return self.NETWORK_PROVIDER_TYPES[self.r_network_provider_type()]
''', '''        if self.common_network_relative_link_flags() & 0x0002:
            return self.NETWORK_PROVIDER_TYPES.get(self.r_network_provider_type())
        return None
''')]),
 dict(id='drive-slice', props='C13', edits=[
     (L+'info/local.py', '''        if self.r_drive_type() < len(self.DRIVE_TYPES):
            return self.DRIVE_TYPES[self.r_drive_type()]
        return None
''', '''        drive_type = self.r_drive_type()
        return next(iter(self.DRIVE_TYPES[drive_type : drive_type + 1]), None)
''')]),
 dict(id='drive-enum', props='C13', edits=[
     (L+'info/local.py', '''        if self.r_drive_type() < len(self.DRIVE_TYPES):
            return self.DRIVE_TYPES[self.r_drive_type()]
        return None
''', '''        return dict(enumerate(self.DRIVE_TYPES)).get(self.r_drive_type())
''')]),
 dict(id='tracker-fields', props='C16 C26', edits=[
     (L+'extra/distributed_tracker.py', '''    def as_dict(self):
        tmp = super().as_dict()
        tmp["length"] = self.length()
        tmp["version"] = self.version()
        tmp["machine_identifier"] = self.machine_id()
        tmp["droid_volume_identifier"] = self.droid_volume_id()
        tmp["droid_file_identifier"] = self.droid_file_id()
        tmp["birth_droid_volume_identifier"] = self.droid_birth_volume_id()
        tmp["birth_droid_file_identifier"] = self.droid_birth_file_id()
        return tmp
''', '''    def as_dict(self):
        return {
            **super().as_dict(),
            "length": self.length(),
            "version": self.version(),
            "machine_identifier": self.machine_id(),
            "droid_volume_identifier": self.droid_volume_id(),
            "droid_file_identifier": self.droid_file_id(),
            "birth_droid_volume_identifier": self.droid_birth_volume_id(),
            "birth_droid_file_identifier": self.droid_birth_file_id(),
        }
''')]),
 dict(id='unknown-sha', props='C15', edits=[
     (L+'extra/unknown.py', '''        tmp = super().as_dict()
        tmp["extra_data_sha256"] = hashlib.sha256(self.extra_data()).hexdigest()
        return tmp
''', '''        digest = hashlib.sha256()
        digest.update(self.extra_data())
        return {**super().as_dict(), "extra_data_sha256": digest.hexdigest()}
''')]),
 dict(id='base-next', props='C10 C11', edits=[
     (L+'target/lnk_target_base.py', '''        for flag, name in self.SHELL_ITEM_SHEL_FS_FOLDER.items():
            if flags & flag == flag:
                return name
''', '''        match = next((n for f, n in self.SHELL_ITEM_SHEL_FS_FOLDER.items() if flags & f == f), None)
        if match is not None:
            return match
''')]),
 dict(id='base-anymask', props='C10 C11', edits=[
     (L+'target/lnk_target_base.py', '''        for flag, name in self.SHELL_ITEM_SHEL_FS_FOLDER.items():
            if flags & flag == flag:
                return name
''', '''        names = [name for flag, name in self.SHELL_ITEM_SHEL_FS_FOLDER.items() if not flag & ~flags]
        if names:
            return names[0]
''')]),
 dict(id='strings-walrus', props='C07', edits=[
     (L+'string_data.py', '''        offset = 2
        char_count = unpack("<H", binary[0:offset])[0]
        length = 260 if limit_length and char_count > 260 else char_count
''', '''        offset = 2
        length = char_count = int.from_bytes(self._count(binary[:offset]), "little")
        if limit_length:
            length = min(char_count, 260)
'''),
     (L+'string_data.py', '''    def read(self, binary, limit_length=False):
''', '''    @staticmethod
    def _count(binary):
        return bytes(unpack("<2B", binary))

    def read(self, binary, limit_length=False):
''')]),
 dict(id='strings-rest', props='C07', edits=[
     (L+'string_data.py', '''        start = 0
        try:
            if self._lnk_file.has_name():
                text, length = self.read(self._raw[start:], limit_length=True)
                self._data["description"] = text
                start += length
''', '''        start = 0
        try:
            if self._lnk_file.has_name():
                self._data["description"], length = self.read(self._raw, limit_length=True)
                start = length
''')]),
 dict(id='json-conv', props='C22', edits=[
     (L+'lnk_file.py', '''        def _datetime_to_str(obj):
            if isinstance(obj, datetime.datetime):
                return obj.replace(microsecond=0).isoformat()
            return obj

        print(
''', '''        class Encoder(json.JSONEncoder):
            def default(self, o):
                if isinstance(o, datetime.datetime):
                    return o.replace(microsecond=0).isoformat()
                return o

        print(
'''),
     (L+'lnk_file.py', '''                default=_datetime_to_str,
''', '''                cls=Encoder,
''')]),
 dict(id='fmt-flags', props='C21 C22 C27', edits=[
     (L+'lnk_file.py', '''    def format_linkFlags(self):
        raw_flags = self.header.r_link_flags()
        suffix = f" - ({raw_flags})" if raw_flags else f"({raw_flags})"
        return " | ".join(self.header.link_flags()) + suffix

    def format_fileFlags(self):
        raw_flags = self.header.r_file_flags()
        suffix = f" - ({raw_flags})" if raw_flags else f"({raw_flags})"
        return " | ".join(self.header.file_flags()) + suffix
''', '''    @staticmethod
    def _format_flags(names, raw_flags):
        separator = " - " if raw_flags else ""
        return "{}{}({})".format(" | ".join(names), separator, raw_flags)

    def format_linkFlags(self):
        return self._format_flags(self.header.link_flags(), self.header.r_link_flags())

    def format_fileFlags(self):
        return self._format_flags(self.header.file_flags(), self.header.r_file_flags())
''')]),
 dict(id='show-target', props='C27', edits=[
     (L+'lnk_file.py', '''        out = self.lnk_command

        if pjson:
            print(json.dumps({"shortcut_target": out}))
        else:
            print(out)
''', '''        command = self.lnk_command
        print(json.dumps({"shortcut_target": command}) if pjson else command)
''')]),
 dict(id='dict-strings', props='C07', edits=[
     (L+'string_data.py', '''        return {k: v for k, v in self._data.items() if v is not None}
''', '''        present = {}
        for key in self._data:
            if self._data[key] is not None:
                present[key] = self._data[key]
        return present
''')]),
 dict(id='hdr-fields', props='C01 C02', edits=[
     (L+'lnk_header.py', '''        start, end = 28, 36
        return self._raw[start:end]
''', '''        return self._field(28, 8)

    def _field(self, offset, length):
        return self._raw[offset : offset + length]
'''),
     (L+'lnk_header.py', '''        start, end = 36, 44
        return self._raw[start:end]
''', '''        return self._field(36, 8)
''')]),
 dict(id='hdr-hotkey', props='C01', edits=[
     (L+'lnk_header.py', '''        b_low, b_high = unpack("<cc", hot_key)

        high = self.HOTKEY_VALUES_HIGH.get(b_high)
        low = self.HOTKEY_VALUES_LOW.get(b_low)

        if high and low:
            return "%s - %s {0x%s}" % (high, low, hot_key.hex())
        return hot_key.hex()
''', '''        low, high = unpack("<cc", hot_key)
        if high not in self.HOTKEY_VALUES_HIGH or low not in self.HOTKEY_VALUES_LOW:
            return hot_key.hex()
        return f"{self.HOTKEY_VALUES_HIGH[high]} - {self.HOTKEY_VALUES_LOW[low]} {{0x{hot_key.hex()}}}"
''')]),
 dict(id='hdr-hotkey-in', props='C01', edits=[
     (L+'lnk_header.py', '''        b_low, b_high = unpack("<cc", hot_key)

        high = self.HOTKEY_VALUES_HIGH.get(b_high)
        low = self.HOTKEY_VALUES_LOW.get(b_low)
''', '''        high = self.HOTKEY_VALUES_HIGH.get(hot_key[1:2])
        low = self.HOTKEY_VALUES_LOW.get(hot_key[0:1])
        unpack("<cc", hot_key)
''')]),
 dict(id='hdr-style-try', props='C01', edits=[
     (L+'lnk_header.py', '''        fallback = self.WINDOW_STYLES[1]
        return self.WINDOW_STYLES.get(style, fallback)
''', '''        if style not in self.WINDOW_STYLES:
            style = 1
        return self.WINDOW_STYLES[style]
''')]),
 dict(id='hdr-flags-helper', props='C01 C02', edits=[
     (L+'lnk_header.py', '''        items = sorted(self.LINK_FLAG_MASK.items())
        flag = self.r_link_flags()
        return [key for mask, key in items if bool(flag & mask)]
''', '''        return self._names(self.LINK_FLAG_MASK, self.r_link_flags())

    @staticmethod
    def _names(table, value):
        names = []
        for mask in sorted(table):
            if value & mask == mask:
                names.append(table[mask])
        return names
''')]),
 dict(id='hdr-flags-bits', props='C01 C02', edits=[
     (L+'lnk_header.py', '''        items = sorted(self.FILE_FLAG_MASK.items())
        flag = self.r_file_flags()
        return [key for mask, key in items if bool(flag & mask)]
''', '''        flag = self.r_file_flags()
        return [self.FILE_FLAG_MASK[mask] for mask in sorted(self.FILE_FLAG_MASK) if flag & mask]
''')]),
 dict(id='hdr-init', props='C01 C02', edits=[
     (L+'lnk_header.py', '''        if fhandle:
            self._raw = fhandle.read()
        elif indata:
            self._raw = indata
        else:
            raise LnkParserError(
                "Both `LnkHeader` arguments `fhandle` and `indata` are evalued as `None`"
            )
''', '''        if not fhandle and not indata:
            raise LnkParserError(
                "Both `LnkHeader` arguments `fhandle` and `indata` are evalued as `None`"
            )
        self._raw = fhandle.read() if fhandle else indata
''')]),
 dict(id='file-predicates', props='C02 C07 C08', edits=[
     (L+'lnk_file.py', '''        return bool("HasArguments" in self.header.link_flags())
''', '''        return self._flag("HasArguments")

    def _flag(self, name):
        return any(flag == name for flag in self.header.link_flags())
'''),
     (L+'lnk_file.py', '''        return bool("HasTargetIDList" in self.header.link_flags())
''', '''        return self._flag("HasTargetIDList")
'''),
     (L+'lnk_file.py', '''        return bool("IsUnicode" in self.header.link_flags())
''', '''        return self._flag("IsUnicode")
''')]),
 dict(id='file-stages', props='C08 C19', edits=[
     (L+'lnk_file.py', '''        # Parse Link Info
        self.info = None
        if self.has_link_info():
            info = LnkInfo(indata=self.indata[index:], cp=self.cp)
            info_class = InfoFactory(info).info_class()
            if info_class and not self.force_no_link_info():
                self.info = info_class(indata=self.indata[index:], cp=self.cp)
            # An ignored LinkInfo still takes its place in the file.
            try:
                index += info.size()
            except StructError as e:
                warnings.warn(f"Error while parsing LinkInfo: {e!r}")

''', '''        # Parse Link Info
        index = self._process_info(index)

'''),
     (L+'lnk_file.py', '''    def print_lnk_file(self, print_all=False):
''', '''    def _process_info(self, index):
        self.info = None
        if not self.has_link_info():
            return index

        rest = self.indata[index:]
        info = LnkInfo(indata=rest, cp=self.cp)
        info_class = InfoFactory(info).info_class()
        if info_class and not self.force_no_link_info():
            self.info = info_class(indata=rest, cp=self.cp)
        # An ignored LinkInfo still takes its place in the file.
        try:
            return index + info.size()
        except StructError as e:
            warnings.warn(f"Error while parsing LinkInfo: {e!r}")
            return index

    def print_lnk_file(self, print_all=False):
''')]),
 dict(id='file-footer', props='C08', edits=[
     (L+'lnk_file.py', '''        index += min(len(self.indata[index:]), 4)
''', '''        remaining = len(self.indata) - index
        if remaining > 0:
            index += 4 if remaining >= 4 else remaining
''')]),
 dict(id='json-info-local', props='C21 C22 C27', edits=[
     (L+'lnk_file.py', '''        def add_link_info():
            res["link_info"] = {
''', '''        def add_link_info():
            link_info = res["link_info"] = {
'''),
     (L+'lnk_file.py', '''            if self.info.local_base_path_offset():
                res["link_info"]["local_base_path"] = self.info.local_base_path()
            if self.info.common_path_suffix_offset():
                res["link_info"]["common_path_suffix"] = self.info.common_path_suffix()
''', '''            if self.info.local_base_path_offset():
                link_info["local_base_path"] = self.info.local_base_path()
            if self.info.common_path_suffix_offset():
                link_info["common_path_suffix"] = self.info.common_path_suffix()
''')]),
 dict(id='json-net-loop', props='C21 C22 C27', edits=[
     (L+'lnk_file.py', '''                if self.info.network_provider_type():
                    res["link_info"]["location_info"]["network_provider_type"] = (
                        self.info.network_provider_type()
                    )
                if self.info.net_name_offset_unicode():
''', '''                provider = self.info.network_provider_type()
                if provider:
                    res["link_info"]["location_info"].update(network_provider_type=provider)
                if self.info.net_name_offset_unicode():
'''),
     (L+'lnk_file.py', '''                if self.info.net_name():
                    res["link_info"]["location_info"]["net_name"] = self.info.net_name()
                if self.info.device_name():
                    res["link_info"]["location_info"]["device_name"] = self.info.device_name()
''', '''                for name in ("net_name", "device_name"):
                    value = getattr(self.info, name)()
                    if value:
                        res["link_info"]["location_info"][name] = value
''')]),
 dict(id='json-isinstance', props='C21 C22 C27', edits=[
     (L+'lnk_file.py', '''            if type(self.info).__name__ == "Local":
''', '''            kind = self.info.__class__.__name__
            if kind == "Local":
'''),
     (L+'lnk_file.py', '''            elif type(self.info).__name__ == "Network":
''', '''            elif kind == "Network":
''')]),
 dict(id='json-copy-header', props='C21 C22 C27', edits=[
     (L+'lnk_file.py', '''            res["target"] = {
                "size": self.targets.id_list_size(),
                "items": self.targets.as_list(),
                "index": self._target_index,
            }
''', '''            target = dict(size=self.targets.id_list_size())
            target["items"] = self.targets.as_list()
            target["index"] = self._target_index
            res["target"] = target
''')]),
 dict(id='json-pop-loop', props='C21 C22 C27', edits=[
     (L+'lnk_file.py', '''            res["link_info"].pop("link_info_size", None)
            res["link_info"].pop("link_info_header_size", None)
            res["link_info"].pop("volume_id_offset", None)
            res["link_info"].pop("local_base_path_offset", None)
            res["link_info"].pop("common_network_relative_link_offset", None)
            res["link_info"].pop("common_path_suffix_offset", None)
''', '''            hidden = {
                "link_info_size",
                "link_info_header_size",
                "volume_id_offset",
                "local_base_path_offset",
                "common_network_relative_link_offset",
                "common_path_suffix_offset",
            }
            res["link_info"] = {k: v for k, v in res["link_info"].items() if k not in hidden}
''')]),
 dict(id='json-pop-del', props='C21 C22 C27', edits=[
     (L+'lnk_file.py', '''                        if item:
                            item.pop("modification_time", None)
''', '''                        if item and "modification_time" in item:
                            del item["modification_time"]
''')]),
 dict(id='show-nice-loop', props='C27', edits=[
     (L+'lnk_file.py', '''                result = {}
                for key, value in input.items():
                    result[nice_id(key, uppercase)] = make_keys_nice(value)
                return result
''', '''                return {nice_id(key, uppercase): make_keys_nice(value) for key, value in input.items()}
''')]),
 dict(id='show-class-get', props='C27', edits=[
     (L+'lnk_file.py', '''                if "class" in input:
                    key = input.pop("class")
                    return {key: make_keys_nice(input)}
''', '''                if "class" in input:
                    rest = {k: v for k, v in input.items() if k != "class"}
                    return {input["class"]: make_keys_nice(rest)}
''')]),
 dict(id='show-regex', props='C27', edits=[
     (L+'lnk_file.py', '''            identifier = re.sub("^r_", "", identifier, count=1)
''', '''            identifier = identifier.removeprefix("r_")
''')]),
 dict(id='meta-iter', props='C18', edits=[
     (L+'extra/metadata.py', '''        while True:
            value = serialized_property_value_class(self._raw[start:], self._text_processor)
            if hex(value.value_size()) == hex(0x0):
                break

            result.append(value)
            start += value.value_size()

        return result
''', '''        value = serialized_property_value_class(self._raw[start:], self._text_processor)
        while value.value_size() != 0:
            result.append(value)
            start += value.value_size()
            value = serialized_property_value_class(self._raw[start:], self._text_processor)

        return result
''')]),
 dict(id='meta-size-var', props='C18', edits=[
     (L+'extra/metadata.py', '''            storage = SerializedPropertyStorage(self._raw[start:], self.text_processor)
            if hex(storage.storage_size()) == hex(0x0):
                break

            result.append(storage)
            start += storage.storage_size()
''', '''            storage = SerializedPropertyStorage(self._raw[start:], self.text_processor)
            size = storage.storage_size()
            if not size:
                break

            start += size
            result.append(storage)
''')]),
 dict(id='meta-class-ternary', props='C18', edits=[
     (L+'extra/metadata.py', '''        serialized_property_value_class = SerializedPropertyValueIntegerName
        if self.format_id() == "D5CDD505-2E9C-101B-9397-08002B2CF9AE":
            serialized_property_value_class = SerializedPropertyValueStringName
''', '''        named = self.format_id() == "D5CDD505-2E9C-101B-9397-08002B2CF9AE"
        serialized_property_value_class = (
            SerializedPropertyValueStringName if named else SerializedPropertyValueIntegerName
        )
''')]),
 dict(id='meta-typed', props='C18', edits=[
     (L+'extra/metadata.py', '''        start = 4
        if self.value_type() == PropertyType.VT_I2:
            end = 6
            return unpack("<h", self._raw[start:end])[0]
        if self.value_type() == PropertyType.VT_LPWSTR:
            unicode_string_size = unpack("<I", self._raw[start : start + 4])[0] * 2
            unicode_string = self._raw[start + 4 : start + 4 + unicode_string_size]
            return self._text_processor.read_unicode_string(unicode_string)
        return None
''', '''        data = self._raw[4:]
        kind = self.value_type()
        if kind == PropertyType.VT_LPWSTR:
            length = 2 * unpack("<I", data[:4])[0]
            return self._text_processor.read_unicode_string(data[4 : 4 + length])
        if kind == PropertyType.VT_I2:
            return unpack("<h", data[:2])[0]
        return None
''')]),
 dict(id='vol-item', props='C12', edits=[
     (L+'target/my_computer.py', '''        item["flags"] = hex(self.flags())
        if self._has_name():
            item["volume_name"] = self.volume_name()
        else:
            item["volume_identifier"] = self.volume_identifier()
        return item
''', '''        item["flags"] = f"{self.flags():#x}"
        key = "volume_name" if self._has_name() else "volume_identifier"
        item[key] = getattr(self, key)()
        return item
''')]),
 dict(id='cpl-text', props='C12', edits=[
     (L+'target/control_panel_cpl.py', '''        char_offset = self._name_offset()
        start = self._strings_start()
        if self._is_unicode():
            byte_offset = start + char_offset * 2
            return self.text_processor.read_unicode_string(self._raw_target[byte_offset:])
        byte_offset = start + char_offset
        return self.text_processor.read_string(self._raw_target[byte_offset:])
''', '''        width = 2 if self._is_unicode() else 1
        read = self.text_processor.read_unicode_string if width == 2 else self.text_processor.read_string
        return read(self._raw_target[self._strings_start() + width * self._name_offset() :])
''')]),
 dict(id='cpl-sig', props='C12', edits=[
     (L+'target/control_panel_cpl.py', '''        item["signature"] = f"0x{self.signature():08X}"
''', '''        item["signature"] = "0x%08X" % self.signature()
''')]),
 dict(id='cpl-unicode', props='C12', edits=[
     (L+'target/control_panel_cpl.py', '''        if len(self._raw_target) < 22:
            return False
''', ''''''),
     (L+'target/control_panel_cpl.py', '''        return self._raw_target[10] == 0x00
''', '''        return len(self._raw_target) >= 22 and not self._raw_target[10]
''')]),
 dict(id='users-sig', props='C11', edits=[
     (L+'target/users_files_folder.py', '''        offset = self._delegate_offset() + 16
        return self._raw_target[offset : offset + 16]
''', '''        end = self._delegate_offset() + 32
        return self._raw_target[end - 16 : end]
''')]),
 dict(id='text-method', props='C06', edits=[
     (L+'text_processor.py', '''        chars = []

        def _chars_to_string(lst):
            bin_string = b"".join(lst)
            try:
                string = bin_string.decode(self.cp)
            except UnicodeDecodeError:
                # Fallback to UTF-8 before giving up.
                try:
                    string = bin_string.decode("utf-8")
                except UnicodeDecodeError as e:
                    string = bin_string.decode(self.cp, errors="replace")
                    msg = f"Error while decoding string `{string}` ({e})"
                    warnings.warn(msg)
            yield string

        for char in binary:
            if char == 0x00:
                yield from _chars_to_string(chars)
                chars = []
            else:
                chars.append(bytes([char]))

        yield from _chars_to_string(chars)
''', '''        chars = []

        for char in binary:
            if char == 0x00:
                yield self._decode(b"".join(chars))
                chars = []
            else:
                chars.append(bytes([char]))

        yield self._decode(b"".join(chars))

    def _decode(self, bin_string):
        # Fallback to UTF-8 before giving up.
        for encoding in (self.cp, "utf-8"):
            try:
                return bin_string.decode(encoding)
            except UnicodeDecodeError as e:
                error = e
        string = bin_string.decode(self.cp, errors="replace")
        warnings.warn(f"Error while decoding string `{string}` ({error})")
        return string
''')]),
 dict(id='text-decode-split', props='C06', edits=[
     (L+'text_processor.py', '''            try:
                string = bin_string.decode(self.cp)
            except UnicodeDecodeError:
                # Fallback to UTF-8 before giving up.
                try:
                    string = bin_string.decode("utf-8")
                except UnicodeDecodeError as e:
                    string = bin_string.decode(self.cp, errors="replace")
                    msg = f"Error while decoding string `{string}` ({e})"
                    warnings.warn(msg)
            yield string
''', '''            yield self._decode(bin_string)
'''),
     (L+'text_processor.py', '''    def read_string(self, binary):
''', '''    def _decode(self, bin_string):
        try:
            return bin_string.decode(self.cp)
        except UnicodeDecodeError:
            pass
        # Fallback to UTF-8 before giving up.
        try:
            return bin_string.decode("utf-8")
        except UnicodeDecodeError as e:
            string = bin_string.decode(self.cp, errors="replace")
            warnings.warn(f"Error while decoding string `{string}` ({e})")
            return string

    def read_string(self, binary):
''')]),
 dict(id='text-slices', props='C06', edits=[
     (L+'text_processor.py', '        for char in binary:\n            if char == 0x00:\n                yield from _chars_to_string(chars)\n                chars = []\n            else:\n                chars.append(bytes([char]))\n\n        yield from _chars_to_string(chars)\n\n    def read_string', '        for i in range(len(binary)):\n            char = binary[i : i + 1]\n            if char != b"\\x00":\n                chars.append(char)\n                continue\n            yield from _chars_to_string(chars)\n            chars.clear()\n\n        yield from _chars_to_string(chars)\n\n    def read_string')]),
 dict(id='text-2bytes', props='C06', edits=[
     (L+'text_processor.py', '''        it = iter(binary)
        while True:
            tmp = None
            try:
                tmp = bytes([next(it)])
                tmp += bytes([next(it)])
                yield tmp
            except StopIteration:
                if tmp:
                    yield tmp
                return None
''', '''        for i in range(0, len(binary), 2):
            yield binary[i : i + 2]
''')]),
 dict(id='text-unext', props='C06', edits=[
     (L+'text_processor.py', '''        it = self.read_unicode_strings(binary)
        return next(it)
''', '''        for text in self.read_unicode_strings(binary):
            return text
''')]),
 dict(id='uuid-join', props='C05', edits=[
     (L+'utils.py', '''    d1, d2, d3 = unpack("<LHH", binary[0:8])
    d4, d51, d52 = unpack(">HHI", binary[8:16])

    uuid = "%08X-%04X-%04X-%04X-%04X%08X" % (d1, d2, d3, d4, d51, d52)

    return uuid
''', '''    d1, d2, d3 = unpack("<LHH", binary[0:8])
    d4, d51, d52 = unpack(">HHI", binary[8:16])

    return "-".join((f"{d1:08X}", f"{d2:04X}", f"{d3:04X}", f"{d4:04X}", f"{d51:04X}{d52:08X}"))
''')]),
 dict(id='uuid-one', props='C05', edits=[
     (L+'utils.py', '''    d4, d51, d52 = unpack(">HHI", binary[8:16])

    uuid = "%08X-%04X-%04X-%04X-%04X%08X" % (d1, d2, d3, d4, d51, d52)

    return uuid
''', '''    tail = unpack(">HHI", binary[8:16])
    return "%08X-%04X-%04X-%04X-%04X%08X" % ((d1, d2, d3) + tail)
''')]),
 dict(id='quad-for', props='C17', edits=[
     (L+'utils.py', '''    i = 5
    ddec = 0
    while i >= 1:
        char = quad[i - 1]
        b85 = base_85.find(char)
        ddec = ddec + b85
        if i > 1:
            ddec = ddec * 85
        i -= 1
''', '''    ddec = 0
    for i in (4, 3, 2, 1, 0):
        ddec = ddec * 85 + base_85.find(quad[i])
''')]),
 dict(id='quad-sum', props='C17', edits=[
     (L+'utils.py', '''    i = 5
    ddec = 0
    while i >= 1:
        char = quad[i - 1]
        b85 = base_85.find(char)
        ddec = ddec + b85
        if i > 1:
            ddec = ddec * 85
        i -= 1
''', '''    ddec = sum(base_85.find(quad[i]) * 85**i for i in range(5))
''')]),
 dict(id='packed-list', props='C05 C17', edits=[
     (L+'utils.py', '''    quad1 = _quad_to_hex(text[0:5])
    quad2 = _quad_to_hex(text[5:10])
    quad3 = _quad_to_hex(text[10:15])
    quad4 = _quad_to_hex(text[15:20])
    quads = quad1 + quad2 + quad3 + quad4
''', '''    quads = "".join(_quad_to_hex(text[i : i + 5]) for i in range(0, 20, 5))
''')]),
 dict(id='ftime-guard', props='C03 C25', edits=[
     (L+'utils.py', '''        nanosec = unpack("<Q", binary)[0]

        if nanosec == 0:
            # If the date is 0 it means that the file has been created in an
            # application, then saved from it, and never ever opened.
            return None
''', '''        (nanosec,) = unpack("<Q", binary)
        if not nanosec:
            # If the date is 0 it means that the file has been created in an
            # application, then saved from it, and never ever opened.
            return None
''')]),
 dict(id='ftime-warn', props='C03', edits=[
     (L+'utils.py', '''        if sys.version_info < (3, 8, 0):
            # HACK for older versions for bytes.hex()
            # https://docs.python.org/3.9/library/stdtypes.html?highlight=hex#bytes.hex
            iterator = iter(binary.hex())
            invalid_date = " ".join(a + b for a, b in zip(iterator, iterator, strict=False))
        else:
            invalid_date = binary.hex(" ")
        msg = "Invalid filetime: %s" % invalid_date
        warnings.warn(msg)
        return None
''', '''        return _invalid("filetime", binary)


def _invalid(kind, binary):
    warnings.warn("Invalid %s: %s" % (kind, binary.hex(" ")))
''')]),
 dict(id='dos-words', props='C04', edits=[
     (L+'utils.py', '''        dos = unpack("<I", binary)[0]
''', '''        day, hour = unpack("<HH", binary)
        dos = day + (hour << 16)
''')]),
 dict(id='dos-locals', props='C04', edits=[
     (L+'utils.py', '''        ymdhms = (
            ((dos & 0x0000FE00) >> 9) + 1980,
            ((dos & 0x000001E0) >> 5),
            ((dos & 0x0000001F) >> 0),
            ((dos & 0xF8000000) >> 27),
            ((dos & 0x07E00000) >> 21),
            ((dos & 0x001F0000) >> 16) * 2,
        )

        return datetime(*ymdhms, tzinfo=timezone.utc)
''', '''        year = 1980 + (dos >> 9 & 0x7F)
        month = dos >> 5 & 0x0F
        day = dos & 0x1F
        hour, minute, second = dos >> 27, dos >> 21 & 0x3F, 2 * (dos >> 16 & 0x1F)
        return datetime(year, month, day, hour, minute, second, tzinfo=timezone.utc)
''')]),
 dict(id='dos-divmod', props='C04', edits=[
     (L+'utils.py', '''        ymdhms = (
            ((dos & 0x0000FE00) >> 9) + 1980,
            ((dos & 0x000001E0) >> 5),
            ((dos & 0x0000001F) >> 0),
            ((dos & 0xF8000000) >> 27),
            ((dos & 0x07E00000) >> 21),
            ((dos & 0x001F0000) >> 16) * 2,
        )
''', '''        clock, date = divmod(dos, 1 << 16)
        rest, day = divmod(date, 32)
        year, month = divmod(rest, 16)
        rest, half = divmod(clock, 32)
        hour, minute = divmod(rest, 64)
        ymdhms = (1980 + year, month, day, hour, minute, 2 * half)
''')]),
 dict(id='deco-generic', props='C01 C13', edits=[
     (L+'decorators.py', '''def filetime(func):
    @functools.wraps(func)
    def inner(self, *args, **kwargs):
        binary = func(self, *args, **kwargs)

        return parse_filetime(binary)

    return inner


def dostime(func):
    @functools.wraps(func)
    def inner(self, *args, **kwargs):
        binary = func(self, *args, **kwargs)

        return parse_dostime(binary)

    return inner
''', '''def _parsed(parse, func):
    @functools.wraps(func)
    def inner(self, *args, **kwargs):
        return parse(func(self, *args, **kwargs))

    return inner


filetime = functools.partial(_parsed, parse_filetime)
dostime = functools.partial(_parsed, parse_dostime)
''')]),
 dict(id='deco-must-eq', props='C01 C13', edits=[
     (L+'decorators.py', '''            if result != expected:
                msg = "%s must be %s: %s" % (func.__name__, expected, result)
                warnings.warn(msg)

            return result
''', '''            if result == expected:
                return result

            warnings.warn(f"{func.__name__} must be {expected}: {result}")
            return result
''')]),
 dict(id='extra-sig-fmt', props='C15', edits=[
     (L+'extra_factory.py', '''            sig = str(hex(self._rsig()))[2:]  # huh?
            return self.EXTRA_SIGS.get(sig, Unknown)
''', '''            sig = f"{self._rsig():x}"
            return self.EXTRA_SIGS[sig] if sig in self.EXTRA_SIGS else Unknown
''')]),
 dict(id='extra-sig-else', props='C15', edits=[
     (L+'extra_factory.py', '''        try:
            sig = str(hex(self._rsig()))[2:]  # huh?
            return self.EXTRA_SIGS.get(sig, Unknown)
        except struct.error as e:
            warnings.warn(f"Error while parsing extra's signature {e}")
            return None
''', '''        try:
            sig = "%x" % self._rsig()
        except struct.error as e:
            warnings.warn(f"Error while parsing extra's signature {e}")
            return None
        return self.EXTRA_SIGS.get(sig, Unknown)
''')]),
 dict(id='console-getattr', props='C16', edits=[
     (L+'extra/console.py', '''        tmp["fill_attributes"] = self.fill_attributes()
        tmp["popup_fill_attributes"] = self.popup_fill_attributes()
        tmp["screen_buffer_size_x"] = self.screen_buffer_size_x()
        tmp["screen_buffer_size_y"] = self.screen_buffer_size_y()
        tmp["window_size_x"] = self.window_size_x()
        tmp["window_size_y"] = self.window_size_y()
''', '''        names = """fill_attributes popup_fill_attributes screen_buffer_size_x screen_buffer_size_y
                   window_size_x window_size_y"""
        tmp.update((name, getattr(self, name)()) for name in names.split())
''')]),
 dict(id='console-read', props='C16', edits=[
     (L+'extra/console.py', '''    def fill_attributes(self):
        start, end = 8, 10
        return unpack("<H", self._raw[start:end])[0]

    def popup_fill_attributes(self):
        start, end = 10, 12
        return unpack("<H", self._raw[start:end])[0]
''', '''    def _read(self, offset, fmt="<H"):
        return unpack(fmt, self._raw[offset : offset + calcsize(fmt)])[0]

    def fill_attributes(self):
        return self._read(8)

    def popup_fill_attributes(self):
        return self._read(offset=10)
'''),
     (L+'extra/console.py', '''from struct import unpack
''', '''from struct import calcsize
from struct import unpack
''')]),
 dict(id='factory-match', props='C10', edits=[
     (L+'target_factory.py', '''        masked_item_type = item_type & 0x70
        if masked_item_type in [0x20, 0x30, 0x40]:
            target = self.get_shell_item_classes(masked_item_type)
        else:
            target = self.get_shell_item_classes(item_type)

        return target
''', '''        match item_type & 0x70:
            case 0x20 | 0x30 | 0x40 as masked:
                item_type = masked
        return self.get_shell_item_classes(item_type)
''')]),
 dict(id='info-flagbit', props='C13 C14', edits=[
     (L+'info_factory.py', '''        try:
            if self._volume_id_and_local_base_path():
                return Local
            if self._common_network_relative_link_and_path_suffix():
                return Network
            return None
''', '''        try:
            candidates = (
                (self._volume_id_and_local_base_path, Local),
                (self._common_network_relative_link_and_path_suffix, Network),
            )
            for present, cls in candidates:
                if present():
                    return cls
            return None
''')]),
 dict(id='extra-genexp', props='C08', edits=[
     (L+'extra_data.py', '''        return sum(extra.size() for extra in self.data)
''', '''        total = 0
        for extra in self.data:
            total += extra.size()
        return total
''')]),
]
