From f5a73a987aaaef12958a89c0dec086a85ab6ec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:00 +0000
Subject: [PATCH 01/15] fix: end the extra data section at any terminal block
 value

A TerminalBlock is any value below 4, but 1, 2 and 3 were taken for a block
whose size could then not be read back, so LnkFile() raised struct.error.
---
 LnkParse3/extra_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/extra_data.py b/LnkParse3/extra_data.py
index 2d71d5a..f6467ae 100644
--- a/LnkParse3/extra_data.py
+++ b/LnkParse3/extra_data.py
@@ -35,7 +35,7 @@ class ExtraData:
                 warnings.warn(f"Error while parsing extra data: {e!r}")
                 break
 
-            if not size:
+            if size < 4:
                 break
 
             data, rest = rest[:size], rest[size:]
-- 
2.43.0


From 94251d8ed07adc8b73a82bea935d942920a9fc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 02/15] fix: skip a Darwin block with a short packed code
 instead of raising

A descriptor shorter than a packed GUID raised IndexError out of get_json().
---
 LnkParse3/extra_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/extra_data.py b/LnkParse3/extra_data.py
index f6467ae..fb08167 100644
--- a/LnkParse3/extra_data.py
+++ b/LnkParse3/extra_data.py
@@ -63,7 +63,7 @@ class ExtraData:
                     res[extra.name()].append(extra.as_dict())
                 else:
                     res[extra.name()] = extra.as_dict()
-            except (StructError, ValueError) as e:
+            except (StructError, ValueError, IndexError) as e:
                 msg = "Error while parsing `%s` (%s)" % (extra.name(), e)
                 warnings.warn(msg)
                 continue
-- 
2.43.0


From 4717d36b8fef5cbec4076afaf03fda0172818651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:03 +0000
Subject: [PATCH 03/15] fix: build the shortcut command from the strings that
 are present

When the string data is cut short the flags announce strings that could not
be read, and the command raised TypeError.
---
 LnkParse3/lnk_file.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 0691810..e71f1a6 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -161,12 +161,13 @@ class LnkFile:
     def lnk_command(self):
         out = []
 
-        if self.has_relative_path():
-            relative_path = self.string_data.relative_path()
+        relative_path = self.string_data.relative_path()
+        if relative_path is not None:
             out.append(list2cmdline([relative_path]))
 
-        if self.has_arguments():
-            out.append(self.string_data.command_line_arguments())
+        arguments = self.string_data.command_line_arguments()
+        if arguments is not None:
+            out.append(arguments)
 
         return " ".join(out)
 
-- 
2.43.0


From c125e4970953a88a3a193d3bfbfdff7a10ecb31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 04/15] fix: step over a LinkInfo that is present but not
 interpreted

With ForceNoLinkInfo set, or with neither location flag set, the structure
is still in the file; the sections after it were parsed from its bytes.
---
 LnkParse3/lnk_file.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index e71f1a6..06d1413 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -9,6 +9,8 @@ import datetime
 import json
 import re
 import textwrap
+import warnings
+from struct import error as StructError  # noqa: N812
 from subprocess import list2cmdline
 
 import yaml
@@ -78,12 +80,16 @@ class LnkFile:
 
         # Parse Link Info
         self.info = None
-        if self.has_link_info() and not self.force_no_link_info():
+        if self.has_link_info():
             info = LnkInfo(indata=self.indata[index:], cp=self.cp)
             info_class = InfoFactory(info).info_class()
-            if info_class:
+            if info_class and not self.force_no_link_info():
                 self.info = info_class(indata=self.indata[index:], cp=self.cp)
-                index += self.info.size()
+            # An ignored LinkInfo still takes its place in the file.
+            try:
+                index += info.size()
+            except StructError as e:
+                warnings.warn(f"Error while parsing LinkInfo: {e!r}")
 
         # Parse String Data
         self.string_data = StringData(self, indata=self.indata[index:], cp=self.cp)
-- 
2.43.0


From 37a46100ba08de37671c4134410287364205737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 05/15] fix: report missing strings of a network location as
 None

The flags may announce a description or comments that the item does not
hold; StopIteration then became a RuntimeError in the ID list walk.
---
 LnkParse3/target/network_location.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/target/network_location.py b/LnkParse3/target/network_location.py
index bb46400..839cf28 100644
--- a/LnkParse3/target/network_location.py
+++ b/LnkParse3/target/network_location.py
@@ -37,11 +37,11 @@ class NetworkLocation(LnkTargetBase):
 
         self._description = None
         if self._has_description():
-            self._description = next(it)
+            self._description = next(it, None)
 
         self._comments = None
         if self._has_comments():
-            self._comments = next(it)
+            self._comments = next(it, None)
 
     def as_item(self):
         item = super().as_item()
-- 
2.43.0


From 030a9bab6dc894a8ef1fc1ae306357a023ab02a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 06/15] fix: skip malformed ItemIDs instead of raising

An item too short for the fields of its type raised struct.error out of
get_json(); only KeyError was caught.
---
 LnkParse3/extra/shell_item.py | 20 +++++++++++++++-----
 LnkParse3/lnk_targets.py      | 20 +++++++++++++++-----
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/LnkParse3/extra/shell_item.py b/LnkParse3/extra/shell_item.py
index 1dacea3..a5669dc 100644
--- a/LnkParse3/extra/shell_item.py
+++ b/LnkParse3/extra/shell_item.py
@@ -1,4 +1,5 @@
 import warnings
+from struct import error as StructError  # noqa: N812
 
 from LnkParse3.extra.lnk_extra_base import LnkExtraBase
 from LnkParse3.lnk_targets import TargetFactory
@@ -42,25 +43,34 @@ class ShellItem(LnkExtraBase):
         rest = self._raw[8 : self.size()]
         while rest:
             factory = TargetFactory(indata=rest)
-            target_class = factory.target_class()
+            try:
+                target_class = factory.target_class()
+            except StructError as e:
+                warnings.warn(f"Error while parsing extra TargetID ({e!r})")
+                break
 
             if not target_class:
                 # Empty or unknown target object.
                 break
 
-            target = target_class(indata=rest, cp=self.cp)
+            try:
+                target = target_class(indata=rest, cp=self.cp)
+            except StructError as e:
+                warnings.warn(f"Error while parsing extra TargetID ({e!r})")
+                target = None
 
             size = factory.item_size()
             rest = rest[size:]
-            yield target
+            if target:
+                yield target
 
     def id_list(self):
         res = []
         for target in self._id_list():
             try:
                 res.append(target.as_item())
-            except KeyError as e:
-                msg = f"Error while parsing extra TargetID `{target.name}` (KeyError {e})"
+            except (KeyError, StructError) as e:
+                msg = f"Error while parsing extra TargetID `{target.name}` ({type(e).__name__} {e})"
                 warnings.warn(msg)
                 continue
         return res
diff --git a/LnkParse3/lnk_targets.py b/LnkParse3/lnk_targets.py
index 1639ba8..c57c761 100644
--- a/LnkParse3/lnk_targets.py
+++ b/LnkParse3/lnk_targets.py
@@ -1,4 +1,5 @@
 import warnings
+from struct import error as StructError  # noqa: N812
 from struct import unpack
 
 from LnkParse3.target_factory import TargetFactory
@@ -70,25 +71,34 @@ class LnkTargets:
         rest = self._raw_targets
         while rest:
             factory = TargetFactory(indata=rest)
-            target_class = factory.target_class()
+            try:
+                target_class = factory.target_class()
+            except StructError as e:
+                warnings.warn(f"Error while parsing TargetID ({e!r})")
+                break
 
             if not target_class:
                 # Empty or unknown target object.
                 break
 
-            target = target_class(indata=rest, cp=self.cp)
+            try:
+                target = target_class(indata=rest, cp=self.cp)
+            except StructError as e:
+                warnings.warn(f"Error while parsing TargetID ({e!r})")
+                target = None
 
             size = factory.item_size()
             rest = rest[size:]
-            yield target
+            if target:
+                yield target
 
     def as_list(self):
         res = []
         for target in self:
             try:
                 res.append(target.as_item())
-            except KeyError as e:
-                msg = f"Error while parsing TargetID `{target.name}` (KeyError {e})"
+            except (KeyError, StructError) as e:
+                msg = f"Error while parsing TargetID `{target.name}` ({type(e).__name__} {e})"
                 warnings.warn(msg)
                 continue
         return res
-- 
2.43.0


From 29d044a43dcb09bbb8d1310f3bde104e80762d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 07/15] fix: accept a file cut before its IDListSize

The missing size raised struct.error out of LnkFile().
---
 LnkParse3/lnk_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index 06d1413..eeb3a91 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -75,8 +75,11 @@ class LnkFile:
         # Parse ID List
         self.targets = None
         if self.has_target_id_list():
-            self.targets = LnkTargets(indata=self.indata[index:], cp=self.cp)
-            index += self.targets.size()
+            try:
+                self.targets = LnkTargets(indata=self.indata[index:], cp=self.cp)
+                index += self.targets.size()
+            except StructError as e:
+                warnings.warn(f"Error while parsing LinkTargetIDList: {e!r}")
 
         # Parse Link Info
         self.info = None
-- 
2.43.0


From 5652e91877b08fb5b641450ed1a929e2b31c7d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 08/15] fix: keep what could be read of a malformed LinkInfo

An offset pointing past the end raised struct.error out of get_json(),
print_json() and the CLI.
---
 LnkParse3/lnk_file.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index eeb3a91..f30ac7d 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -238,7 +238,8 @@ class LnkFile:
             }
 
         res["link_info"] = {}
-        if self.info:
+
+        def add_link_info():
             res["link_info"] = {
                 "link_info_size": self.info.size(),
                 "link_info_header_size": self.info.header_size(),
@@ -322,6 +323,12 @@ class LnkFile:
                 if self.info.device_name():
                     res["link_info"]["location_info"]["device_name"] = self.info.device_name()
 
+        if self.info:
+            try:
+                add_link_info()
+            except StructError as e:
+                warnings.warn(f"Error while parsing LinkInfo: {e!r}")
+
         res["data"] = self.string_data.as_dict()
         res["extra"] = self.extras.as_dict()
 
-- 
2.43.0


From 421c73ed8fda686d2943fb4a00a83b5320606dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:31 +0000
Subject: [PATCH 09/15] fix: confine an ItemID to its declared size

ItemIDSize includes the size field itself, but two bytes of the next item were
taken as part of each item, and the size of unknown items was reported 2 too large.
---
 LnkParse3/target/lnk_target_base.py | 2 +-
 LnkParse3/target/unknown.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/LnkParse3/target/lnk_target_base.py b/LnkParse3/target/lnk_target_base.py
index e069341..53bfab2 100644
--- a/LnkParse3/target/lnk_target_base.py
+++ b/LnkParse3/target/lnk_target_base.py
@@ -43,7 +43,7 @@ class LnkTargetBase:
         self.text_processor = TextProcessor(cp=self.cp)
 
         start = self.SIZE_OF_TARGET_SIZE
-        end = start + self.size()
+        end = self.size()
         self._raw_target = self._raw[start:end]
 
     def get_item_shell_fs_folder(self, flags: int) -> str:
diff --git a/LnkParse3/target/unknown.py b/LnkParse3/target/unknown.py
index bb6f740..8143c55 100644
--- a/LnkParse3/target/unknown.py
+++ b/LnkParse3/target/unknown.py
@@ -9,5 +9,5 @@ class Unknown(LnkTargetBase):
 
     def as_item(self):
         item = super().as_item()
-        item["size"] = self.SIZE_OF_TARGET_SIZE + self.size()
+        item["size"] = self.size()
         return item
-- 
2.43.0


From a085be9be01ff8ab524449f530b83c2dc20b74e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:32 +0000
Subject: [PATCH 10/15] fix: read VT_I2 property values as two bytes

The value was unpacked as four bytes from a two byte slice, so one such value
made the whole property store disappear from the report.
---
 LnkParse3/extra/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/extra/metadata.py b/LnkParse3/extra/metadata.py
index 9e43634..f769356 100644
--- a/LnkParse3/extra/metadata.py
+++ b/LnkParse3/extra/metadata.py
@@ -143,7 +143,7 @@ class TypedPropertyValue:
         start = 4
         if self.value_type() == PropertyType.VT_I2:
             end = 6
-            return unpack("<i", self._raw[start:end])[0]
+            return unpack("<h", self._raw[start:end])[0]
         if self.value_type() == PropertyType.VT_LPWSTR:
             unicode_string_size = unpack("<I", self._raw[start : start + 4])[0] * 2
             unicode_string = self._raw[start + 4 : start + 4 + unicode_string_size]
-- 
2.43.0


From 7af7f4599525e827ec5045d8818bd4bacd1ca4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:34 +0000
Subject: [PATCH 11/15] fix: read the shim layer name as Unicode

LayerName of a ShimDataBlock is a Unicode string; it was cut after its first
character.
---
 LnkParse3/extra/shim_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/extra/shim_layer.py b/LnkParse3/extra/shim_layer.py
index fe3d03b..43f36ca 100644
--- a/LnkParse3/extra/shim_layer.py
+++ b/LnkParse3/extra/shim_layer.py
@@ -22,7 +22,7 @@ class ShimLayer(LnkExtraBase):
     def layer_name(self):
         start = 8
         binary = self._raw[start:]
-        text = self.text_processor.read_string(binary)
+        text = self.text_processor.read_unicode_string(binary)
         return text
 
     def as_dict(self):
-- 
2.43.0


From 7426d18568bb6cb952f69cb03fda4a5b1305f705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:35 +0000
Subject: [PATCH 12/15] fix: read CommonPathSuffixUnicode at its offset

The first two characters of the suffix were skipped.
---
 LnkParse3/lnk_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/lnk_info.py b/LnkParse3/lnk_info.py
index 68e5b20..262c8ec 100644
--- a/LnkParse3/lnk_info.py
+++ b/LnkParse3/lnk_info.py
@@ -237,7 +237,7 @@ class LnkInfo:
         if not self.common_path_suffix_offset_unicode():
             return None
 
-        start = self.common_path_suffix_offset_unicode() + 4
+        start = self.common_path_suffix_offset_unicode()
 
         binary = self._raw[start:]
         # import pdb;pdb.set_trace()
-- 
2.43.0


From 14a1b4df354043a7c059d71444a2a827d0be2079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 13/15] fix: treat FILETIME as unsigned

Values near 2**64 were reported as times of the year 1600.
---
 LnkParse3/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LnkParse3/utils.py b/LnkParse3/utils.py
index dcc1819..31a21b9 100644
--- a/LnkParse3/utils.py
+++ b/LnkParse3/utils.py
@@ -85,7 +85,7 @@ def parse_filetime(binary):
     #   https://stackoverflow.com/questions/38878647/python-convert-filetime-to-datetime-for-dates-before-1970
     #   https://computerforensics.parsonage.co.uk/downloads/TheMeaningofLIFE.pdf
     try:
-        nanosec = unpack("<q", binary)[0]
+        nanosec = unpack("<Q", binary)[0]
 
         if nanosec == 0:
             # If the date is 0 it means that the file has been created in an
-- 
2.43.0


From 66620bd1be4765548ea2b12990a7806329848f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 14/15] fix: report Unicode shares as such

An entry with the bits of 0x05 was found first for 0x07, so that file entries
of type 0x37 were reported as Unicode directories.
---
 LnkParse3/target/lnk_target_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LnkParse3/target/lnk_target_base.py b/LnkParse3/target/lnk_target_base.py
index 53bfab2..b280bf6 100644
--- a/LnkParse3/target/lnk_target_base.py
+++ b/LnkParse3/target/lnk_target_base.py
@@ -23,9 +23,10 @@ the items in that part of the namespace.
 class LnkTargetBase:
     SHELL_ITEM_SHEL_FS_FOLDER = {
         # FIXME: Temporary solution for not make a breaking change
+        # NOTE The first entry whose bits are all set is used
+        0x07: "Is Unicode share",
         0x05: "Is Unicode directory",
         0x06: "Is Unicode file",
-        0x07: "Is Unicode share",
         0x03: "Is share",
         0x01: "Is directory",
         0x02: "Is file",
-- 
2.43.0


From 1104f57e346dcdd4f422781658fcfed64ca3eac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:22 +0000
Subject: [PATCH 15/15] fix: keep values that contain the placeholder text of
 print_lnk_file

---
 LnkParse3/lnk_file.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/LnkParse3/lnk_file.py b/LnkParse3/lnk_file.py
index f30ac7d..83d36e2 100755
--- a/LnkParse3/lnk_file.py
+++ b/LnkParse3/lnk_file.py
@@ -139,18 +139,15 @@ class LnkFile:
 
         res_json = make_keys_nice(res, uppercase=True)
 
-        # insert placeholders for empty lines
-        res_json = {"EMPTY_LINE_PLACEHOLDER" + k: v for k, v in res_json.items()}
-
-        # remove header key
-        new_res_json = res_json["EMPTY_LINE_PLACEHOLDERHEADER"]
-        res_json.pop("EMPTY_LINE_PLACEHOLDERHEADER")
-        new_res_json.update(res_json)
-
-        res_yaml = yaml.dump(new_res_json, indent=3, sort_keys=False, width=132, allow_unicode=True)
-
-        # replace palceholders for empty lines
-        res_yaml = res_yaml.replace("EMPTY_LINE_PLACEHOLDER", "\n")
+        # the header comes first, without a key of its own
+        parts = [res_json.pop("HEADER")]
+        parts.extend({key: value} for key, value in res_json.items())
+
+        # separate the sections by empty lines
+        res_yaml = "\n".join(
+            yaml.dump(part, indent=3, sort_keys=False, width=132, allow_unicode=True)
+            for part in parts
+        )
 
         print("Windows Shortcut Information:")
         print(textwrap.indent(res_yaml, "   "))
-- 
2.43.0

