From 13134258a97fdbe7e0145ecb8d23f57f3b348ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 001/108] fix: ace: block description read a field which is
 never declared

---
 hachoir/parser/archive/ace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/ace.py b/hachoir/parser/archive/ace.py
index c47bcbd..b0e7c9a 100644
--- a/hachoir/parser/archive/ace.py
+++ b/hachoir/parser/archive/ace.py
@@ -258,7 +258,7 @@ class Block(FieldSet):
         if self.desc_func:
             return self.desc_func(self)
         else:
-            return "Block: %s" % self["type"].display
+            return "Block: %s" % self["block_type"].display
 
 
 class AceFile(Parser):
-- 
2.43.0


From b94c04a2aeabeeac57ce0e99bd7922fb3295767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 002/108] fix: rar: description and size of unknown blocks read
 fields which are never declared

---
 hachoir/parser/archive/rar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/archive/rar.py b/hachoir/parser/archive/rar.py
index 3bb7e00..4bce4fc 100644
--- a/hachoir/parser/archive/rar.py
+++ b/hachoir/parser/archive/rar.py
@@ -301,7 +301,7 @@ class Block(FieldSet):
             self._size += 8 * self["compressed_size"].value
             if "is_large" in self["flags"] and self["flags/is_large"].value:
                 self._size += 8 * self["large_size"].value
-        elif "has_added_size" in self:
+        elif "added_size" in self:
             self._size += 8 * self["added_size"].value
         # TODO: check if any other member is needed here
 
@@ -327,7 +327,7 @@ class Block(FieldSet):
         yield from self.parseBody()
 
     def createDescription(self):
-        return "Block entry: %s" % self["type"].display
+        return "Block entry: %s" % self["block_type"].display
 
     def parseFlags(self):
         yield BlockFlags(self, "flags", "Block header flags")
-- 
2.43.0


From ef5be07f2bec13de5188b63571aca3407cfd1d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 003/108] fix: xm: note description read the volume from a
 field which is never declared

---
 hachoir/parser/audio/xm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/audio/xm.py b/hachoir/parser/audio/xm.py
index 84c999d..b211359 100644
--- a/hachoir/parser/audio/xm.py
+++ b/hachoir/parser/audio/xm.py
@@ -296,14 +296,14 @@ class Note(FieldSet):
             if info["has_instrument"].value:
                 desc.append("instrument %i" % self["instrument"].value)
             if info["has_volume"].value:
-                desc.append(self["has_volume"].display)
+                desc.append(self["volume"].display)
             if info["has_type"].value:
                 desc.append("effect %s" % self["effect_type"].value)
             if info["has_parameter"].value:
                 desc.append("parameter %i" % self["effect_parameter"].value)
         else:
             desc = (self["note"].display, "instrument %i" % self["instrument"].value,
-                    self["has_volume"].display, "effect %s" % self[
+                    self["volume"].display, "effect %s" % self[
                         "effect_type"].value,
                     "parameter %i" % self["effect_parameter"].value)
         if desc:
-- 
2.43.0


From 713b3a8985928d6714b25e9c9a4109d69b56b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 004/108] fix: ogg: description looked for the codec headers
 outside the page segments

---
 hachoir/parser/container/ogg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 46b6a4b..70e948d 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -307,9 +307,9 @@ class OggFile(Parser):
             return "application/ogg"
 
     def createDescription(self):
-        if "theora_hdr" in self["page[0]"]:
+        if "theora_hdr" in self["page[0]/segments"]:
             return "Ogg/Theora video"
-        elif "vorbis_hdr" in self["page[0]"]:
+        elif "vorbis_hdr" in self["page[0]/segments"]:
             return "Ogg/Vorbis audio"
         else:
             return "Ogg multimedia container"
-- 
2.43.0


From 5205d06ede6e44045493318c3c79ef0f5990c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 005/108] fix: bmp: message about an unknown header size read a
 field which is never declared

---
 hachoir/parser/image/bmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/bmp.py b/hachoir/parser/image/bmp.py
index 518fdc2..17742a9 100644
--- a/hachoir/parser/image/bmp.py
+++ b/hachoir/parser/image/bmp.py
@@ -163,7 +163,7 @@ class BmpFile(Parser):
         if self.stream.readBytes(0, 2) != b'BM':
             return "Wrong file signature"
         if self["header/header_size"].value not in (12, 40, 108):
-            return "Unknown header size (%s)" % self["header_size"].value
+            return "Unknown header size (%s)" % self["header/header_size"].value
         if self["header/nb_plan"].value != 1:
             return "Invalid number of planes"
         return True
-- 
2.43.0


From 6c150cbfc4f53eff525866132f23f25b4e82c470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 006/108] fix: gif: extension description read a field which is
 never declared

---
 hachoir/parser/image/gif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/gif.py b/hachoir/parser/image/gif.py
index a33b128..38f726b 100644
--- a/hachoir/parser/image/gif.py
+++ b/hachoir/parser/image/gif.py
@@ -266,7 +266,7 @@ class Extension(FieldSet):
         yield from self.parser(self)
 
     def createDescription(self):
-        return "Extension: function %s" % self["func"].display
+        return "Extension: function %s" % self["code"].display
 
 
 class ScreenDescriptor(FieldSet):
-- 
2.43.0


From a19187f0da7754f3332bde2853ecccfa5d98afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 007/108] fix: jpeg: content size ignored the end of image
 chunk

---
 hachoir/parser/image/jpeg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/image/jpeg.py b/hachoir/parser/image/jpeg.py
index 419d6f4..7c5c041 100644
--- a/hachoir/parser/image/jpeg.py
+++ b/hachoir/parser/image/jpeg.py
@@ -635,8 +635,8 @@ class JpegFile(Parser):
         return desc
 
     def createContentSize(self):
-        if "end" in self:
-            return self["end"].absolute_address + self["end"].size
+        if "end_image" in self:
+            return self["end_image"].absolute_address + self["end_image"].size
         if "data" in self:
             start = self["data"].absolute_address
         elif "image_data[0]" in self:
-- 
2.43.0


From 5293dd488bed9ad45aae738ef42551a62de3de6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 008/108] fix: gif metadata: transparency was looked up in a
 field which is never declared

---
 hachoir/metadata/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index 17654b0..ae6e13b 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -261,8 +261,8 @@ class GifMetadata(RootMetadata):
         for comments in gif.array("comments"):
             for comment in gif.array(comments.name + "/comment"):
                 self.comment = comment.value
-        if ("graphic_ctl/has_transp" in gif
-                and gif["graphic_ctl/has_transp"].value):
+        if ("graphic_ctl[0]/has_transp" in gif
+                and gif["graphic_ctl[0]/has_transp"].value):
             self.pixel_format = "Color index with transparency"
         else:
             self.pixel_format = "Color index"
-- 
2.43.0


From aba780dd64ba274dd1d5f1eb977ae9cfd53f83a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 009/108] fix: jpeg metadata: number of scan components was
 looked up in a field which is never declared

---
 hachoir/metadata/jpeg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/metadata/jpeg.py b/hachoir/metadata/jpeg.py
index bad0b97..4ca6c45 100644
--- a/hachoir/metadata/jpeg.py
+++ b/hachoir/metadata/jpeg.py
@@ -72,9 +72,9 @@ class JpegMetadata(RootMetadata):
     def extract(self, jpeg):
         if "start_frame/content" in jpeg:
             self.startOfFrame(jpeg["start_frame/content"])
-        elif "start_scan/content/nr_components" in jpeg:
+        elif "start_scan[0]/content/nr_components" in jpeg:
             self.bits_per_pixel = 8 * \
-                jpeg["start_scan/content/nr_components"].value
+                jpeg["start_scan[0]/content/nr_components"].value
         if "app0/content" in jpeg:
             self.extractAPP0(jpeg["app0/content"])
 
-- 
2.43.0


From 9105d98a2f2d0060f1ea81ebf7501b081f544aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 010/108] fix: rar: fields of the AV information block used an
 argument no field accepts

---
 hachoir/parser/archive/rar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/archive/rar.py b/hachoir/parser/archive/rar.py
index 4bce4fc..738dbc5 100644
--- a/hachoir/parser/archive/rar.py
+++ b/hachoir/parser/archive/rar.py
@@ -126,10 +126,10 @@ def recoveryHeader(s):
 
 def avInfoHeader(s):
     yield filesizeHandler(UInt16(s, "total_size", "Total block size"))
-    yield UInt8(s, "version", "Version needed to decompress", handler=hexadecimal)
-    yield UInt8(s, "method", "Compression method", handler=hexadecimal)
-    yield UInt8(s, "av_version", "Version for AV", handler=hexadecimal)
-    yield UInt32(s, "av_crc", "AV info CRC32", handler=hexadecimal)
+    yield textHandler(UInt8(s, "version", "Version needed to decompress"), hexadecimal)
+    yield textHandler(UInt8(s, "method", "Compression method"), hexadecimal)
+    yield textHandler(UInt8(s, "av_version", "Version for AV"), hexadecimal)
+    yield textHandler(UInt32(s, "av_crc", "AV info CRC32"), hexadecimal)
 
 
 def avInfoBody(s):
-- 
2.43.0


From e2603fdbf8e672fff78b2cf2565a98098571ac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 011/108] fix: modplug: plugin name used an argument String
 does not accept, unknown blocks called the plugin parser without argument

---
 hachoir/parser/audio/modplug.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/audio/modplug.py b/hachoir/parser/audio/modplug.py
index 05b8643..bf3d527 100644
--- a/hachoir/parser/audio/modplug.py
+++ b/hachoir/parser/audio/modplug.py
@@ -88,7 +88,7 @@ class SoundMixPluginInfo(FieldSet):
         yield UInt32(self, "output_routing")
         yield GenericVector(self, "routing_info", 4, UInt32, "reserved")
         yield String(self, "name", 32, strip='\0')
-        yield String(self, "dll_name", 64, desc="Original DLL name", strip='\0')
+        yield String(self, "dll_name", 64, "Original DLL name", strip='\0')
 
 
 class ExtraData(FieldSet):
@@ -276,7 +276,7 @@ class ModplugBlock(FieldSet):
 
     def __init__(self, parent, name, desc=None):
         FieldSet.__init__(self, parent, name, desc)
-        self.parseBlock = parsePlugin
+        self.parseBlock = lambda: parsePlugin(self)
 
         t = self["block_type"].value
         self.has_size = False
-- 
2.43.0


From e2fd848a06d5cbee5f2e2a9b89ca837f05c6faf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 012/108] fix: blp: alpha channels were built with the
 arguments of another class

---
 hachoir/parser/game/blp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/game/blp.py b/hachoir/parser/game/blp.py
index b948214..5364019 100644
--- a/hachoir/parser/game/blp.py
+++ b/hachoir/parser/game/blp.py
@@ -273,9 +273,9 @@ class BLP2File(Parser):
             elif compression == 1 and encoding == 1:
                 yield Generic2DArray(self, "mipmap_indexes[%i]" % i, height, width, PaletteIndex, "row", "index", "Indexes into the palette")
                 if alpha_depth == 1:
-                    yield GenericVector(self, "mipmap_alphas[%i]" % i, height, width, Bit, "row", "is_opaque", "Alpha values")
+                    yield Generic2DArray(self, "mipmap_alphas[%i]" % i, height, width, Bit, "row", "is_opaque", "Alpha values")
                 elif alpha_depth == 8:
-                    yield GenericVector(self, "mipmap_alphas[%i]" % i, height, width, UInt8, "row", "alpha", "Alpha values")
+                    yield Generic2DArray(self, "mipmap_alphas[%i]" % i, height, width, UInt8, "row", "alpha", "Alpha values")
             elif compression == 1 and encoding == 2:
                 block_height = alignValue(height, 4) // 4
                 block_width = alignValue(width, 4) // 4
-- 
2.43.0


From 1900ebcc0e99e60237f07e73e93c67e73aa21bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 013/108] fix: java: field description passed the field name to
 list.append()

---
 hachoir/parser/program/java.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/program/java.py b/hachoir/parser/program/java.py
index 1ad9c6d..91a4848 100644
--- a/hachoir/parser/program/java.py
+++ b/hachoir/parser/program/java.py
@@ -934,8 +934,8 @@ class FieldInfo(FieldSet):
             if self[mod].value:
                 bits.append(mod)
         bits.append(parse_field_descriptor(
-            self['descriptor_index'].rawvalue()),
-            name=self['name_index'].rawvalue())
+            self['descriptor_index'].rawvalue(),
+            name=self['name_index'].rawvalue()))
         return ' '.join(bits)
 
 
-- 
2.43.0


From d18f157c0f453a0cda7d5f979def99ea4066cced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 014/108] fix: java_serialized: long string was created without
 its length

---
 hachoir/parser/program/java_serialized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/program/java_serialized.py b/hachoir/parser/program/java_serialized.py
index 8021038..7a5bba0 100644
--- a/hachoir/parser/program/java_serialized.py
+++ b/hachoir/parser/program/java_serialized.py
@@ -26,7 +26,7 @@ class LongString(FieldSet):
 
     def createFields(self):
         yield Int64(self, "length")
-        yield String(self, "value", charset="UTF-8")
+        yield String(self, "value", self["length"].value, charset="UTF-8")
 
     def createDescription(self):
         return self['value'].description
-- 
2.43.0


From 836422a13424d0c5d5b14478f0cb7e7b0d8758c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 015/108] fix: zsnes: message about a wrong save version raised
 TypeError

---
 hachoir/parser/game/zsnes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/game/zsnes.py b/hachoir/parser/game/zsnes.py
index 79ec662..3673196 100644
--- a/hachoir/parser/game/zsnes.py
+++ b/hachoir/parser/game/zsnes.py
@@ -228,7 +228,7 @@ class ZSNESFile(Parser):
         if temp[0:26] != b"ZSNES Save State File V143":
             return "Wrong header"
         if ord(temp[27:28]) != 143:  # extra...
-            return "Wrong save version %d <> 143" % temp[27:1]
+            return "Wrong save version %d <> 143" % temp[27]
         return True
 
     def seek(self, offset):
-- 
2.43.0


From abe1c8ebc6c71635b7e8e5157f3ba320e3771e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 016/108] fix: metadata-qt: imported names which do not exist

---
 hachoir/metadata/qt/main.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hachoir/metadata/qt/main.py b/hachoir/metadata/qt/main.py
index a47eb99..98d48df 100644
--- a/hachoir/metadata/qt/main.py
+++ b/hachoir/metadata/qt/main.py
@@ -9,8 +9,6 @@ from PyQt4.QtGui import (QApplication, QDialog,
 
 from hachoir.metadata.qt.dialog_ui import Ui_Form
 from hachoir.core import config
-from hachoir.core.error import HACHOIR_ERRORS
-from hachoir.core.cmd_line import unicodeFilename
 from hachoir.parser import createParser
 from hachoir.metadata import extractMetadata
 from hachoir.metadata.metadata import MultipleMetadata
@@ -47,13 +45,13 @@ class File:
             self.realname = filename
         try:
             self.parser = createParser(self.name, self.realname)
-        except HACHOIR_ERRORS as err:
+        except Exception as err:
             raise MetadataError("Parser error: %s" % str(err))
         if not self.parser:
             raise MetadataError("Unable to parse the file: %s" % self.name)
         try:
             self.metadata = extractMetadata(self.parser)
-        except HACHOIR_ERRORS as err:
+        except Exception as err:
             raise MetadataError("Metadata extraction error: %s" % str(err))
         if not self.metadata:
             file_type = self.parser.mime_type
@@ -159,9 +157,7 @@ def main():
     app = QApplication(argv)
     metadata = Metadata(app)
     for filename in argv[1:]:
-        realname = filename
-        filename = unicodeFilename(filename)
-        metadata.addFile(filename, realname)
+        metadata.addFile(filename, filename)
     metadata.show()
     exitcode = app.exec_()
     exit(exitcode)
-- 
2.43.0


From 3ca844ebfc6f990c6a1624645f5d2bb4a28e9c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 017/108] fix: xm: volume of a note raised TypeError

---
 hachoir/parser/audio/xm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/audio/xm.py b/hachoir/parser/audio/xm.py
index b211359..e837d5e 100644
--- a/hachoir/parser/audio/xm.py
+++ b/hachoir/parser/audio/xm.py
@@ -177,9 +177,9 @@ VOLUME_NAME = (
 def parseVolume(val):
     val = val.value
     if 0x10 <= val <= 0x50:
-        return "Volume %i" % val - 16
+        return "Volume %i" % (val - 16)
     else:
-        return VOLUME_NAME[val / 16 - 6]
+        return VOLUME_NAME[val // 16 - 6]
 
 
 class RealBit(RawBits):
-- 
2.43.0


From decd338386f7ad6ff2de46a272a8ebbdd48f925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 018/108] fix: grep: error handler indexed an exception object

---
 hachoir/grep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/grep.py b/hachoir/grep.py
index b1c46cc..201a6a7 100644
--- a/hachoir/grep.py
+++ b/hachoir/grep.py
@@ -159,7 +159,7 @@ class ConsoleGrep(Grep):
             try:
                 self.grep(self.parser)
             except IOError as err:
-                if err[0] == errno.EPIPE:
+                if err.errno == errno.EPIPE:
                     # Ignore broken PIPE error
                     return
                 else:
-- 
2.43.0


From d8a3a278455b1370ef4b45bec1411dc5bce6ee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 019/108] fix: output stream: readBytes() ignored the address,
 indexed an exception object and hid other errors

---
 hachoir/stream/output.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 4a9e151..e42da97 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -162,13 +162,14 @@ class OutputStream(object):
         self._output.flush()
         oldpos = self._output.tell()
         try:
-            self._output.seek(0)
+            self._output.seek(address // 8)
             try:
                 return self._output.read(nbytes)
             except IOError as err:
-                if err[0] == EBADF:
+                if err.errno == EBADF:
                     raise OutputStreamError(
                         "Stream doesn't support read() operation")
+                raise
         finally:
             self._output.seek(oldpos)
 
-- 
2.43.0


From 6a8fc08772b601f4e60e7f4216ef69389eb43305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 020/108] fix: output stream: string output stream was created
 over a text buffer while every write is bytes

---
 hachoir/stream/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index e42da97..19ad3b4 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -1,4 +1,4 @@
-from io import StringIO
+from io import BytesIO
 from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
 from hachoir.core.bits import long2raw
 from hachoir.stream import StreamError
@@ -178,7 +178,7 @@ def StringOutputStream():
     """
     Create an output stream into a string.
     """
-    data = StringIO()
+    data = BytesIO()
     return OutputStream(data)
 
 
-- 
2.43.0


From 6133e048910362e74a3efd4841490b5cbe6b751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:20 +0000
Subject: [PATCH 021/108] fix: dsstore: record types were bytes compared with
 text, so no record could be parsed

---
 hachoir/parser/misc/dsstore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/dsstore.py b/hachoir/parser/misc/dsstore.py
index f4a7bec..8f188b6 100644
--- a/hachoir/parser/misc/dsstore.py
+++ b/hachoir/parser/misc/dsstore.py
@@ -115,8 +115,8 @@ class DSRecord(FieldSet):
 
     def createFields(self):
         yield PascalString32UTF16(self, "filename")
-        yield Bytes(self, "property", 4)
-        yield Bytes(self, "type", 4)
+        yield String(self, "property", 4, charset="ASCII")
+        yield String(self, "type", 4, charset="ASCII")
         type = self['type'].value
         if type == 'long':
             yield UInt32(self, "value")
-- 
2.43.0


From 1ec9cd9da5e8ef01ac827fccd799e7746d879446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:59 +0000
Subject: [PATCH 022/108] fix: mod: module types were bytes compared with text,
 and the description needed an argument nobody passes

---
 hachoir/parser/audio/mod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/audio/mod.py b/hachoir/parser/audio/mod.py
index 4e246c6..b794cfe 100644
--- a/hachoir/parser/audio/mod.py
+++ b/hachoir/parser/audio/mod.py
@@ -79,7 +79,7 @@ class Header(FieldSet):
         yield String(self, "type", 4)
 
     def getNumChannels(self):
-        return MODULE_TYPE[self["type"].value][1]
+        return MODULE_TYPE[self.stream.readBytes(self["type"].absolute_address, 4)][1]
 
 
 class Note(FieldSet):
@@ -132,7 +132,7 @@ class AmigaModule(Parser):
         modtype = self.stream.readBytes(1080 * 8, 4)
         if modtype not in MODULE_TYPE:
             return "Invalid module type %a" % modtype
-        self.createValue = lambda modtype: "%s module, %u channels" % MODULE_TYPE[
+        self.createDescription = lambda: "%s module, %u channels" % MODULE_TYPE[
             modtype]
         return True
 
-- 
2.43.0


From 42983d3413b92871d2ea755e25746c83de2a4579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:47 +0000
Subject: [PATCH 023/108] fix: modplug: codes of extension fields were bytes
 looked up in tables of text, so no field was recognized

---
 hachoir/parser/audio/modplug.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/audio/modplug.py b/hachoir/parser/audio/modplug.py
index bf3d527..0191e15 100644
--- a/hachoir/parser/audio/modplug.py
+++ b/hachoir/parser/audio/modplug.py
@@ -219,7 +219,7 @@ class MPField(FieldSet):
 
     def createFields(self):
         # Identify tag
-        code = self.stream.readBytes(self.absolute_address, 4)
+        code = str(self.stream.readBytes(self.absolute_address, 4), "latin-1")
         if code in self.ext:
             cls, count, comment = self.ext[code]
         else:
@@ -255,7 +255,7 @@ def parseFields(parser):
 
     # Parse fields
     addr = parser.absolute_address + parser.current_size
-    while not parser.eof and parser.stream.readBytes(addr, 4) in ext:
+    while not parser.eof and str(parser.stream.readBytes(addr, 4), "latin-1") in ext:
         field = MPField(parser, "field[]", ext)
         yield field
         addr += field._size
-- 
2.43.0


From 1d0b1a02cb052632b2308963cd53ecc6f7788d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:47 +0000
Subject: [PATCH 024/108] fix: word_2: padding byte was compared with text, so
 the padding between SEPX groups was never skipped

---
 hachoir/parser/misc/word_2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/word_2.py b/hachoir/parser/misc/word_2.py
index 5569218..81d9e66 100644
--- a/hachoir/parser/misc/word_2.py
+++ b/hachoir/parser/misc/word_2.py
@@ -124,7 +124,7 @@ class SEPXGroup(FieldSet):
         while self.current_size < self.size:
             next = self.stream.readBytes(
                 self.absolute_address + self.current_size, 1)
-            if next == '\x00':
+            if next == b'\x00':
                 padding = paddingSize(
                     (self.absolute_address + self.current_size) // 8, 512)
                 if padding:
-- 
2.43.0


From 7504aade32e71d037fb29d07eecaf8abe5e61e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:12 +0000
Subject: [PATCH 025/108] fix: java: message about an unknown constant pool tag
 raised TypeError

---
 hachoir/parser/program/java.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/program/java.py b/hachoir/parser/program/java.py
index 91a4848..4b602f1 100644
--- a/hachoir/parser/program/java.py
+++ b/hachoir/parser/program/java.py
@@ -804,7 +804,7 @@ class CPInfo(FieldSet):
             yield CPIndex(self, "name_index", target_types="Utf8")
         else:
             raise ParserError("Not a valid constant pool element type: "
-                              + self["tag"].value)
+                              + str(self["tag"].value))
 
     def rawvalue(self):
         """
@@ -843,7 +843,7 @@ class CPInfo(FieldSet):
         else:
             # FIXME: Return "<error>" instead of raising an exception?
             raise ParserError("Not a valid constant pool element type: "
-                              + self["tag"].value)
+                              + str(self["tag"].value))
 
     def __str__(self):
         """
@@ -887,7 +887,7 @@ class CPInfo(FieldSet):
         else:
             # FIXME: Return "<error>" instead of raising an exception?
             raise ParserError("Not a valid constant pool element type: "
-                              + self["tag"].value)
+                              + str(self["tag"].value))
 
     def createDescription(self):
         return self.constant_type + "(%s)" % str(self)
-- 
2.43.0


From e1389efa81ca011e0131b2ca00afe1360f4a7a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:12 +0000
Subject: [PATCH 026/108] fix: lnk: byte of a shell extension item was compared
 with text, so its handler was never parsed

---
 hachoir/parser/misc/lnk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/lnk.py b/hachoir/parser/misc/lnk.py
index 3a6dfef..bb5354e 100644
--- a/hachoir/parser/misc/lnk.py
+++ b/hachoir/parser/misc/lnk.py
@@ -98,7 +98,7 @@ class ItemId(FieldSet):
         elif entrytype == 0x2E:
             # Shell extension
             yield RawBytes(self, "dummy", 1, "should be 0x50")
-            if self["dummy"].value == '\0':
+            if self["dummy"].value == b'\0':
                 yield UInt16(self, "length_data", "Length of shell extension-specific data")
                 if self["length_data"].value:
                     yield RawBytes(self, "data", self["length_data"].value, "Shell extension-specific data")
-- 
2.43.0


From bee64aa2a621987b2f42aba6d1b72d8920c64c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:33 +0000
Subject: [PATCH 027/108] fix: zip: file name suffix compared the bytes of the
 compressed data with the text of the MIME types

---
 hachoir/parser/archive/zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/archive/zip.py b/hachoir/parser/archive/zip.py
index 4a8f4e0..14b590b 100644
--- a/hachoir/parser/archive/zip.py
+++ b/hachoir/parser/archive/zip.py
@@ -467,7 +467,7 @@ class ZipFile(Parser):
 
     def createFilenameSuffix(self):
         if self["file[0]/filename"].value == "mimetype":
-            mime = self["file[0]/compressed_data"].value
+            mime = makeUnicode(self["file[0]/data"].value)
             if mime in self.MIME_TYPES:
                 return "." + self.MIME_TYPES[mime]
         return ".zip"
-- 
2.43.0


From f108c66d7718e66eaa2a975ebcdc338584d0daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 028/108] fix: ole2: endian marker of fragments was bytes
 compared with text

---
 hachoir/parser/misc/ole2_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/ole2_util.py b/hachoir/parser/misc/ole2_util.py
index d55859c..c093d34 100644
--- a/hachoir/parser/misc/ole2_util.py
+++ b/hachoir/parser/misc/ole2_util.py
@@ -25,8 +25,8 @@ class OLE2FragmentParser(HachoirParser, RootSeekableFieldSet):
 
     def validate(self):
         if self.ENDIAN_CHECK:
-            if self["endian"].value not in ["\xFF\xFE", "\xFE\xFF"]:
-                return "Unknown endian value %s" % self["endian"].value.encode('hex')
+            if self["endian"].value not in [b"\xFF\xFE", b"\xFE\xFF"]:
+                return "Unknown endian value %s" % self["endian"].value.hex()
         return True
 
 
-- 
2.43.0


From a3652a2855b393642874af023b9876838ab31a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 029/108] fix: parser: description of a parser without
 description tag raised from its own error handler

---
 hachoir/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/parser.py b/hachoir/parser/parser.py
index a00bf76..c932a1b 100644
--- a/hachoir/parser/parser.py
+++ b/hachoir/parser/parser.py
@@ -79,7 +79,7 @@ class HachoirParser(object):
             except Exception as err:
                 error("Error getting description of %s: %s"
                       % (self.path, str(err)))
-                self._description = self.PARSER_TAGS["description"]
+                self._description = self.getParserTags().get("description", "")
         return self._description
     description = property(_getDescription,
                            doc="Description of the parser")
-- 
2.43.0


From f563aca8f4ad02cecd8e1312d3f08ed26282ae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 030/108] fix: ole2: description of document fragments was
 declared under a name nothing reads

---
 hachoir/parser/misc/ole2_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/ole2_util.py b/hachoir/parser/misc/ole2_util.py
index c093d34..3a4b88b 100644
--- a/hachoir/parser/misc/ole2_util.py
+++ b/hachoir/parser/misc/ole2_util.py
@@ -4,7 +4,7 @@ from hachoir.parser import HachoirParser
 
 
 class OLE2FragmentParser(HachoirParser, RootSeekableFieldSet):
-    tags = {
+    PARSER_TAGS = {
         "description": "Microsoft Office document subfragments",
     }
     endian = LITTLE_ENDIAN
-- 
2.43.0


From 67e7e9ac33a004c61099e495a144469c22e1bb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 031/108] fix: java: display of wide instructions needed an
 argument nobody passes

---
 hachoir/parser/program/java.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/program/java.py b/hachoir/parser/program/java.py
index 4b602f1..c762296 100644
--- a/hachoir/parser/program/java.py
+++ b/hachoir/parser/program/java.py
@@ -414,10 +414,10 @@ class OpcodeSpecial_wide(JavaOpcode):
         yield UInt16(self, "index")
         if op == "iinc":
             yield Int16(self, "value")
-            self.createDisplay = lambda self: "%s(%i,%i)" % (
+            self.createDisplay = lambda: "%s(%i,%i)" % (
                 self.op, self["index"].value, self["value"].value)
         else:
-            self.createDisplay = lambda self: "%s(%i)" % (
+            self.createDisplay = lambda: "%s(%i)" % (
                 self.op, self["index"].value)
 
 
-- 
2.43.0


From e89028061d2202ca76f1f071c54cb38a4f89fb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:11 +0000
Subject: [PATCH 032/108] fix: filename suffix was tested under one name and
 cached under another

---
 hachoir/parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/parser.py b/hachoir/parser/parser.py
index c932a1b..a9c8107 100644
--- a/hachoir/parser/parser.py
+++ b/hachoir/parser/parser.py
@@ -124,8 +124,8 @@ class HachoirParser(object):
 
     def _getFilenameSuffix(self):
         if not hasattr(self, "_filename_suffix"):
-            self._filename_extension = self.createFilenameSuffix()
-        return self._filename_extension
+            self._filename_suffix = self.createFilenameSuffix()
+        return self._filename_suffix
     filename_suffix = property(_getFilenameSuffix)
 
     @classmethod
-- 
2.43.0


From 887a54f1f527f6fc425ff03e27a57160282b5239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:11 +0000
Subject: [PATCH 033/108] fix: value of the link to the first fragment was set
 under a name nothing reads

---
 hachoir/field/link.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/field/link.py b/hachoir/field/link.py
index 0fae24e..dbdb092 100644
--- a/hachoir/field/link.py
+++ b/hachoir/field/link.py
@@ -93,7 +93,7 @@ class Fragment(FieldSet):
             field = None
         if self._first is not self:
             link = Link(self, "first", None)
-            link._getValue = lambda: self._first
+            link.createValue = lambda: self._first
             yield link
         if self._next:
             link = Link(self, "next", None)
-- 
2.43.0


From 4553afc1f62f612d38c5c2192d01086e6d190442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:23 +0000
Subject: [PATCH 034/108] fix: a sub stream read past its own end into the
 following data

---
 hachoir/stream/input.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index e5fc16d..e6e458a 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -491,6 +491,8 @@ class InputSubStream(InputStream):
         self.stream = None
 
     def read(self, address, size):
+        if self._size is not None and self._size < address + size:
+            raise ReadStreamError(size, address, max(0, self._size - address))
         return self.stream.read(self._offset + address, size)
 
 
-- 
2.43.0


From 2db18b95bded0f60a734f184a5b5d510cc0111fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:23 +0000
Subject: [PATCH 035/108] fix: a sub stream of a stream of unknown size could
 not be created

---
 hachoir/stream/input.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index e6e458a..4193fde 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -474,7 +474,7 @@ class InputSubStream(InputStream):
             offset = 0
         if size is None and stream.size is not None:
             size = stream.size - offset
-        if size <= 0:
+        if size is not None and size <= 0:
             raise ValueError("InputSubStream: offset is outside input stream")
         self.stream = stream
         self._offset = offset
@@ -484,8 +484,12 @@ class InputSubStream(InputStream):
         InputStream.__init__(self, source=source, size=size, **args)
         self.stream.askSize(self)
 
-    _current_size = property(lambda self: min(
-        self._size, max(0, self.stream._current_size - self._offset)))
+    def __current_size(self):
+        current = max(0, self.stream._current_size - self._offset)
+        if self._size is not None:
+            current = min(self._size, current)
+        return current
+    _current_size = property(__current_size)
 
     def close(self):
         self.stream = None
-- 
2.43.0


From 54213374211ec29d35bfda6dd1efe518581e20f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:28 +0000
Subject: [PATCH 036/108] fix: git pack magic had no offset, so building the
 subfile patterns raised ValueError

---
 hachoir/parser/misc/git_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index 74dcfe9..511c024 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -216,7 +216,7 @@ class GitPackFile(Parser):
         "file_ext": (".pack",),
         "mime": (u"application/octet-stream",),
         "min_size": (4 + 4 + 4) * 8,  # just the header
-        "magic": ((b'PACK',),),
+        "magic": ((b'PACK', 0),),
         "description": "Git pack file",
     }
 
-- 
2.43.0


From 3b9656f85f98b7eab3a5025b19499e4711135e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:28 +0000
Subject: [PATCH 037/108] fix: git pack file extension had a dot, so it never
 matched

---
 hachoir/parser/misc/git_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/git_pack.py b/hachoir/parser/misc/git_pack.py
index 511c024..dade348 100644
--- a/hachoir/parser/misc/git_pack.py
+++ b/hachoir/parser/misc/git_pack.py
@@ -213,7 +213,7 @@ class GitPackFile(Parser):
     PARSER_TAGS = {
         "id": "git_pack",
         "category": "misc",
-        "file_ext": (".pack",),
+        "file_ext": ("pack",),
         "mime": (u"application/octet-stream",),
         "min_size": (4 + 4 + 4) * 8,  # just the header
         "magic": ((b'PACK', 0),),
-- 
2.43.0


From 068c9302f67f92d5e9b3ee8ebbffaaa4e5c9139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:28 +0000
Subject: [PATCH 038/108] fix: offset of the PDF magic was its length instead
 of its position

---
 hachoir/parser/misc/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/pdf.py b/hachoir/parser/misc/pdf.py
index 73c491e..b864f2b 100644
--- a/hachoir/parser/misc/pdf.py
+++ b/hachoir/parser/misc/pdf.py
@@ -484,7 +484,7 @@ class PDFDocument(Parser):
         "file_ext": ("pdf",),
         "mime": ("application/pdf",),
         "min_size": (5 + 4) * 8,
-        "magic": ((MAGIC, 5),),
+        "magic": ((MAGIC, 0),),
         "description": "Portable Document Format (PDF) document"
     }
 
-- 
2.43.0


From e16f4419a9dde698eb7bf284bb888168bde58ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:28 +0000
Subject: [PATCH 039/108] fix: cr2 magic offset and minimum size were in bytes
 instead of bits

---
 hachoir/parser/image/cr2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/image/cr2.py b/hachoir/parser/image/cr2.py
index 5cc3299..2b0530a 100644
--- a/hachoir/parser/image/cr2.py
+++ b/hachoir/parser/image/cr2.py
@@ -42,8 +42,8 @@ class CR2File(RootSeekableFieldSet, Parser):
         "category": "image",
         "file_ext": ("cr2",),
         "mime": ("image/x-canon-cr2",),
-        "min_size": 15,
-        "magic": ((b"CR", 8),),
+        "min_size": 15 * 8,
+        "magic": ((b"CR", 8 * 8),),
         "description": "Canon CR2 raw image data, version 2.0"
     }
 
-- 
2.43.0


From 6f820074e2f79875b8879df49ab3e592d8ef1614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:28 +0000
Subject: [PATCH 040/108] fix: dsstore file extension was not lower case, so it
 never matched

---
 hachoir/parser/misc/dsstore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/dsstore.py b/hachoir/parser/misc/dsstore.py
index 8f188b6..ad746c6 100644
--- a/hachoir/parser/misc/dsstore.py
+++ b/hachoir/parser/misc/dsstore.py
@@ -174,7 +174,7 @@ class DSStore(HachoirParser, RootSeekableFieldSet):
     PARSER_TAGS = {
         "id": "dsstore",
         "category": "misc",
-        "file_ext": ("DS_Store",),
+        "file_ext": ("ds_store",),
         "magic": ((MAGIC, 0),),
         "min_size": 4 + 32,  # \0\0\0\1 + 32-byte header
         "description": "Mac OS X DS_Store",
-- 
2.43.0


From b5b8e351aa00dc59f08bd3d5a9909a2e7c135fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:43 +0000
Subject: [PATCH 041/108] fix: subfile debug statistics read an attribute
 parsers do not have

---
 hachoir/subfile/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/subfile/main.py b/hachoir/subfile/main.py
index fe89581..e07facd 100644
--- a/hachoir/subfile/main.py
+++ b/hachoir/subfile/main.py
@@ -41,7 +41,7 @@ def parseOptions():
 
 
 def displaySearchStat(subfile):
-    stats = [(parser.tags["id"], stats[0], stats[1])
+    stats = [(parser.getParserTags()["id"], stats[0], stats[1])
              for parser, stats in subfile.stats.items()]
     print()
     print("[ Match statistics ]")
-- 
2.43.0


From 404ed0e1ba1d209ae3663be4fcc47ae8c773df45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:43 +0000
Subject: [PATCH 042/108] fix: subfile search without loadParsers() used
 patterns before loading them

---
 hachoir/subfile/search.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/subfile/search.py b/hachoir/subfile/search.py
index f7ae929..f7a1313 100644
--- a/hachoir/subfile/search.py
+++ b/hachoir/subfile/search.py
@@ -98,13 +98,13 @@ class SearchSubfile:
         return (not main_error)
 
     def mainHeader(self):
-        # Fix slice size if needed
-        self.slice_size = max(self.slice_size, self.patterns.max_length * 8)
-
         # Load parsers if none has been choosen
         if not self.patterns:
             self.loadParsers()
 
+        # Fix slice size if needed
+        self.slice_size = max(self.slice_size, self.patterns.max_length * 8)
+
         bytes = (self.size - self.start_offset) // 8
         print("[+] Start search on %s bytes (%s)" % (
             bytes, humanFilesize(bytes)), file=stderr)
-- 
2.43.0


From 78b82ab439d96c6e4de5bc52230c5d5c98750ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:04 +0000
Subject: [PATCH 043/108] fix: str() of empty metadata raised TypeError

---
 hachoir/metadata/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/metadata/metadata.py b/hachoir/metadata/metadata.py
index 67df716..f952057 100644
--- a/hachoir/metadata/metadata.py
+++ b/hachoir/metadata/metadata.py
@@ -129,7 +129,7 @@ class Metadata(Logger):
 
         @see __str__() and exportPlaintext()
         """
-        return "\n".join(self.exportPlaintext())
+        return "\n".join(self.exportPlaintext() or ())
 
     def exportPlaintext(self, priority=None, human=True, line_prefix="- ", title=None):
         r"""
-- 
2.43.0


From 69f41867d39c0833818ede0fd099f9963554ded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 044/108] fix: strip of tar files failed computing the
 checksum: bytes are already integers

---
 hachoir/strip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/strip.py b/hachoir/strip.py
index 5db2868..eae7729 100644
--- a/hachoir/strip.py
+++ b/hachoir/strip.py
@@ -180,7 +180,7 @@ class TarStripper(BasicStripper):
         stream = StringOutputStream()
         file.writeInto(stream)
         data = stream.readBytes(0, 512)
-        checksum = sum(ord(character) for character in data)
+        checksum = sum(data)
         file["check_sum"].value = ("0%o\0" % checksum).ljust(8, " ")
 
     def stripFile(self, file):
-- 
2.43.0


From e66bf12c267e51451f921bb5ff631474630ea3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 045/108] fix: nds CRC-16 of bytes failed: bytes are already
 integers

---
 hachoir/parser/program/nds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/program/nds.py b/hachoir/parser/program/nds.py
index 3509d8b..f6b70b1 100644
--- a/hachoir/parser/program/nds.py
+++ b/hachoir/parser/program/nds.py
@@ -54,7 +54,7 @@ class CRC16:
             self._initTable()
 
         for ch in string:
-            value = self._table[ord(ch) ^ (value & 0xff)] ^ (value >> 8)
+            value = self._table[ch ^ (value & 0xff)] ^ (value >> 8)
         return value
 
 
-- 
2.43.0


From a8af34d55425e14785517b469c84e5ea0c45d030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 046/108] fix: chm parser printed debug output on stdout

---
 hachoir/parser/misc/chm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hachoir/parser/misc/chm.py b/hachoir/parser/misc/chm.py
index 7e76965..dd969d8 100644
--- a/hachoir/parser/misc/chm.py
+++ b/hachoir/parser/misc/chm.py
@@ -145,7 +145,6 @@ class PMGL(FieldSet):
         num_quickref = (entry_count // quickref_frequency)
         if entry_count % quickref_frequency == 0:
             num_quickref -= 1
-        print(self.current_size // 8, quickref_frequency, num_quickref)
         padding = (self["free_space"].value - (num_quickref * 2 + 2))
         if padding:
             yield PaddingBytes(self, "padding", padding)
-- 
2.43.0


From 5fc42735fd821f034bcb27cc46fba3be88e1fa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:58 +0000
Subject: [PATCH 047/108] fix: ReiserFS block numbers went on counting from one
 file to the next

---
 hachoir/parser/file_system/reiser_fs.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/file_system/reiser_fs.py b/hachoir/parser/file_system/reiser_fs.py
index da6ffde..d15d86d 100644
--- a/hachoir/parser/file_system/reiser_fs.py
+++ b/hachoir/parser/file_system/reiser_fs.py
@@ -34,13 +34,10 @@ class BlockState(Bit):
         False: "free"
     }
 
-    block_nb = 0
-
     def __init__(self, parent, name, nb_block):
         """@param nb_block: Number of the block concerned"""
         Bit.__init__(self, parent, name)
-        self.block_nb = self.__class__.block_nb
-        self.__class__.block_nb += 1
+        self.block_nb = nb_block
 
     def createDescription(self):
         return "State of the block %d" % self.block_nb
@@ -55,11 +52,19 @@ class BitmapBlock(SeekableFieldSet):
         the state of a block to tell if it is used or not.
     """
 
+    def __init__(self, parent, name, bitmap_nb, description=None):
+        """@param bitmap_nb: Index of the bitmap block"""
+        SeekableFieldSet.__init__(self, parent, name, description)
+        self.bitmap_nb = bitmap_nb
+
     def createFields(self):
         block_size = self["/superblock/blocksize"].value
+        # Each bitmap block describes the blocks following the ones of the
+        # previous bitmap block
+        first = self.bitmap_nb * block_size * 8
 
         for i in range(0, block_size * 8):
-            yield BlockState(self, "block[]", i)
+            yield BlockState(self, "block[]", first + i)
 
 
 class BitmapBlockGroup(SeekableFieldSet):
@@ -71,11 +76,11 @@ class BitmapBlockGroup(SeekableFieldSet):
         # Position of the first bitmap block
         self.seekByte(REISER_FS.SUPERBLOCK_OFFSET + block_size, relative=False)
 
-        yield BitmapBlock(self, "BitmapBlock[]", "Bitmap blocks tells for each block if it is used")
+        yield BitmapBlock(self, "BitmapBlock[]", 0, "Bitmap blocks tells for each block if it is used")
         # The other bitmap blocks
         for i in range(1, nb_bitmap_block):
             self.seekByte((block_size**2) * 8 * i, relative=False)
-            yield BitmapBlock(self, "BitmapBlock[]", "Bitmap blocks tells for each block if it is used")
+            yield BitmapBlock(self, "BitmapBlock[]", i, "Bitmap blocks tells for each block if it is used")
 
 
 class Journal_params(FieldSet):
-- 
2.43.0


From e3f7c676c82d96342c39b0949caad03e1e51e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:46 +0000
Subject: [PATCH 048/108] fix: OutputStream.writeInteger() wrote signed
 integers with an offset instead of two's complement

---
 hachoir/stream/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 19ad3b4..65b9860 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -106,8 +106,8 @@ class OutputStream(object):
             self._byte = 0
 
     def writeInteger(self, value, signed, size_byte, endian):
-        if signed:
-            value += 1 << (size_byte * 8 - 1)
+        if signed and value < 0:
+            value += 1 << (size_byte * 8)
         raw = long2raw(value, endian, size_byte)
         self.writeBytes(raw)
 
-- 
2.43.0


From bc519f68acf6988aaac9f6cab39356820ade3934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:46 +0000
Subject: [PATCH 049/108] fix: OutputStream.writeBit() wrote bits in the order
 of the other endian

---
 hachoir/stream/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/stream/output.py b/hachoir/stream/output.py
index 65b9860..11a2883 100644
--- a/hachoir/stream/output.py
+++ b/hachoir/stream/output.py
@@ -48,9 +48,9 @@ class OutputStream(object):
         else:
             if state:
                 if endian is BIG_ENDIAN:
-                    self._byte |= (1 << self._bit_pos)
-                else:
                     self._byte |= (1 << (7 - self._bit_pos))
+                else:
+                    self._byte |= (1 << self._bit_pos)
             self._bit_pos += 1
 
     def writeBits(self, count, value, endian):
-- 
2.43.0


From a1d475854d3f379c459587fe8a12ae0c9ca170b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:46 +0000
Subject: [PATCH 050/108] fix: editor: signed 8-bit integers accepted values
 out of range, other integer sizes none

---
 hachoir/editor/typed_field.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index fe64696..84fb4ad 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -212,17 +212,6 @@ class EditableCharacter(EditableFixedField):
 
 
 class EditableInteger(EditableFixedField):
-    VALID_VALUE_SIGNED = {
-        8: (-(1 << 8), (1 << 8) - 1),
-        16: (-(1 << 15), (1 << 15) - 1),
-        32: (-(1 << 31), (1 << 31) - 1),
-    }
-    VALID_VALUE_UNSIGNED = {
-        8: (0, (1 << 8) - 1),
-        16: (0, (1 << 16) - 1),
-        32: (0, (1 << 32) - 1)
-    }
-
     def __init__(self, parent, name, *args):
         if args:
             if len(args) != 3:
@@ -244,10 +233,11 @@ class EditableInteger(EditableFixedField):
 
     def _setValue(self, value):
         if self._signed:
-            valid = self.VALID_VALUE_SIGNED
+            minval = -(1 << (self._size - 1))
+            maxval = (1 << (self._size - 1)) - 1
         else:
-            valid = self.VALID_VALUE_UNSIGNED
-        minval, maxval = valid[self._size]
+            minval = 0
+            maxval = (1 << self._size) - 1
         if not (minval <= value <= maxval):
             raise ValueError("Invalid value, must be in range %s..%s"
                              % (minval, maxval))
-- 
2.43.0


From f17235dde6d129821a1180f1ba3f6e0f6ff9b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:46 +0000
Subject: [PATCH 051/108] fix: editor: writing an altered Pascal string encoded
 bytes

---
 hachoir/editor/typed_field.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 84fb4ad..b644e8d 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -181,8 +181,7 @@ class EditableString(EditableField):
             size = GenericString.PASCAL_FORMATS[self._format]
             output.writeInteger(len(self._value), False,
                                 size, self._parent.endian)
-            value = self._value.encode(self._charset)
-            output.writeBytes(value)
+            output.writeBytes(self._value)
 
 
 class EditableCharacter(EditableFixedField):
-- 
2.43.0


From 405573afc4ecbb7d8562ea48e9d929475fd9fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:46 +0000
Subject: [PATCH 052/108] fix: editor: writing an altered character wrote text

---
 hachoir/editor/typed_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index b644e8d..d07962c 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -207,7 +207,7 @@ class EditableCharacter(EditableFixedField):
         self._value = value
 
     def _write(self, output):
-        output.writeBytes(self._value)
+        output.writeBytes(self._value.encode("latin-1"))
 
 
 class EditableInteger(EditableFixedField):
-- 
2.43.0


From 0f20d3b60bc7a11937ba4c3273d371060031acf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:46 +0000
Subject: [PATCH 053/108] fix: editor: new characters and timestamps could not
 be created

---
 hachoir/editor/typed_field.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index d07962c..4135f88 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -188,7 +188,7 @@ class EditableCharacter(EditableFixedField):
 
     def __init__(self, parent, name, *args):
         if args:
-            if len(args) != 3:
+            if len(args) != 1:
                 raise TypeError(
                     "Wrong argument count, EditableCharacter "
                     "constructor prototype is: (parent, name, [value])")
@@ -252,7 +252,7 @@ class EditableTimestampMac32(EditableFixedField):
 
     def __init__(self, parent, name, *args):
         if args:
-            if len(args) != 3:
+            if len(args) != 1:
                 raise TypeError(
                     "Wrong argument count, EditableTimestampMac32 constructor prototype is: "
                     "(parent, name, [value])")
@@ -261,6 +261,9 @@ class EditableTimestampMac32(EditableFixedField):
         else:
             value = None
         EditableFixedField.__init__(self, parent, name, value, 32)
+        if args:
+            self._setValue(value)
+            self._is_altered = True
 
     def _setValue(self, value):
         if not (self.minval <= value <= self.maxval):
-- 
2.43.0


From f4871730579a8a59734ddc0ab05eaa8a1f5a1098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:46 +0000
Subject: [PATCH 054/108] fix: editor: reset() removed fields of the dictionary
 it was iterating on

---
 hachoir/editor/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 5299879..af577e4 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -38,7 +38,7 @@ class EditableFieldSet(object):
         """
         Reset the field set and the input field set.
         """
-        for key, field in self._fields.items():
+        for key, field in list(self._fields.items()):
             if not field.is_altered:
                 del self._fields[key]
         self.input.reset()
-- 
2.43.0


From f29d718304b0d032c0c2a9497eef1f6964da26c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:46 +0000
Subject: [PATCH 055/108] fix: editor: iterating on an empty new field set
 raised StopIteration

---
 hachoir/editor/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index af577e4..76e29b9 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -342,7 +342,7 @@ class NewFieldSet(EditableFieldSet):
         if None in self._inserted:
             return iter(self._inserted[None])
         else:
-            raise StopIteration()
+            return iter(())
 
     def _getName(self):
         return self._name
-- 
2.43.0


From c0354039a83eb3a53d115cf5f684cb9064d220e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:46 +0000
Subject: [PATCH 056/108] fix: editor: an unaltered field set at an unaligned
 address could not be written

---
 hachoir/editor/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 76e29b9..5ad43ef 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -277,7 +277,7 @@ class EditableFieldSet(object):
         if not self.is_altered:
             # Not altered: just copy bits/bytes
             input = self.input
-            if input.size % 8:
+            if input.size % 8 or input.absolute_address % 8:
                 output.copyBitsFrom(input.stream,
                                     input.absolute_address, input.size, input.endian)
             else:
-- 
2.43.0


From 379576b7ddf954bb6e81a47ffa9455594622dc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:46 +0000
Subject: [PATCH 057/108] fix: editor: deleting a missing field marked it as
 deleted

---
 hachoir/editor/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 5ad43ef..ec779e8 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -263,7 +263,7 @@ class EditableFieldSet(object):
             fieldset = self[parts[0]]
             del fieldset[parts[2]]
             return
-        if name in self._deleted:
+        if name in self._deleted or name not in self.input:
             raise MissingField(self, name)
         self._deleted.add(name)
         if name in self._fields:
-- 
2.43.0


From 0d624fd75ad0e65f4b1739b77ba2d611563a5eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:46 +0000
Subject: [PATCH 058/108] fix: editor: an integer index raised TypeError
 instead of EditorError

---
 hachoir/editor/fieldset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index ec779e8..76ac253 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -238,10 +238,10 @@ class EditableFieldSet(object):
         May raise a MissingField error if the field doesn't exist in original
         field set or it has been deleted.
         """
-        if "/" in key:
-            return self._getItemByPath(key.split("/"))
         if isinstance(key, int):
             raise EditorError("Integer index are not supported")
+        if "/" in key:
+            return self._getItemByPath(key.split("/"))
 
         if (key in self._deleted) or (key not in self.input):
             raise MissingField(self, key)
-- 
2.43.0


From a20e4c881a0f3a8508ca2fb53081330d5b1fcdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:46 +0000
Subject: [PATCH 059/108] fix: editor: fields inserted after a field or at the
 end were placed in the wrong order

---
 hachoir/editor/fieldset.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 76ac253..e404fb8 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -103,9 +103,9 @@ class EditableFieldSet(object):
                         "Field name '%s' already exists" % field.name)
 
         # Input have already inserted field?
-        if key in self._inserted:
+        if key in self._inserted and (key is None or not next):
             if next:
-                self._inserted[key].extend(reversed(new_fields))
+                self._inserted[key].extend(new_fields)
             else:
                 self._inserted[key].extendleft(reversed(new_fields))
             return
@@ -134,8 +134,13 @@ class EditableFieldSet(object):
                 except IndexError:
                     key = None
 
+                if key in self._inserted:
+                    # Other fields are already inserted at this position
+                    self._inserted[key].extendleft(reversed(new_fields))
+                    return
+
             # Check that field names are not in input
-            if key not in self.input:
+            if key is not None and key not in self.input:
                 raise MissingField(self, key)
 
         # Insert in original input
-- 
2.43.0


From 19987a9e7b2e08c66da1138a0dffc40d81d2fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:46 +0000
Subject: [PATCH 060/108] fix: strip of tar files wrote text into byte strings

---
 hachoir/strip.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hachoir/strip.py b/hachoir/strip.py
index eae7729..4f87474 100644
--- a/hachoir/strip.py
+++ b/hachoir/strip.py
@@ -176,19 +176,19 @@ class TarStripper(BasicStripper):
             self.stripFile(file)
 
     def fixChecksum(self, file):
-        file["check_sum"].value = " " * 8
+        file["check_sum"].value = b" " * 8
         stream = StringOutputStream()
         file.writeInto(stream)
         data = stream.readBytes(0, 512)
         checksum = sum(data)
-        file["check_sum"].value = ("0%o\0" % checksum).ljust(8, " ")
+        file["check_sum"].value = (b"0%o\0" % checksum).ljust(8, b" ")
 
     def stripFile(self, file):
-        empty32 = "\0" * 32
-        uid = "0000000\0"
+        empty32 = b"\0" * 32
+        uid = b"0000000\0"
         file["uid"].value = uid
         file["gid"].value = uid
-        file["mtime"].value = "00000000000\0"
+        file["mtime"].value = b"00000000000\0"
         file["uname"].value = empty32
         file["gname"].value = empty32
         self.fixChecksum(file)
-- 
2.43.0


From be304a5c929b3d02e79b0b1c9cb8eb4f23bb6f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:15 +0000
Subject: [PATCH 061/108] fix: editor: new byte fields were never written

---
 hachoir/editor/typed_field.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 4135f88..e26bd19 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -112,6 +112,17 @@ class EditableBits(EditableFixedField):
 
 class EditableBytes(EditableField):
 
+    def __init__(self, parent, name, *args):
+        if args:
+            if len(args) != 1:
+                raise TypeError(
+                    "Wrong argument count, EditableBytes constructor prototype is: "
+                    "(parent, name, [value])")
+        EditableField.__init__(self, parent, name)
+        if args:
+            self._setValue(args[0])
+            self._is_altered = True
+
     def _setValue(self, value):
         if not value:
             raise ValueError(
-- 
2.43.0


From ff1872c88c52e54d53c3fd0219d26937ee3c8240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:15 +0000
Subject: [PATCH 062/108] fix: editor: new integers accepted values which do
 not fit in their size

---
 hachoir/editor/typed_field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index e26bd19..68fde38 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -237,6 +237,7 @@ class EditableInteger(EditableFixedField):
         EditableFixedField.__init__(self, parent, name, value, size)
         if args:
             self._signed = args[0]
+            self._setValue(value)
             self._is_altered = True
         else:
             self._signed = self._parent._getOriginalField(self._name).signed
-- 
2.43.0


From 4b8e0c662a9bf1bc6c5f6871fc9ef60bd17aed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:15 +0000
Subject: [PATCH 063/108] fix: editor: new Pascal strings accepted values which
 do not fit in their length

---
 hachoir/editor/typed_field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hachoir/editor/typed_field.py b/hachoir/editor/typed_field.py
index 68fde38..4434abf 100644
--- a/hachoir/editor/typed_field.py
+++ b/hachoir/editor/typed_field.py
@@ -163,6 +163,7 @@ class EditableString(EditableField):
                 self._prefix_size = 0
             self._suffix_str = GenericString.staticSuffixStr(
                 self._format, self._charset, self._parent.endian)
+            self._setValue(value)
             self._is_altered = True
         else:
             orig = self._parent._getOriginalField(name)
-- 
2.43.0


From 2c89ac983674362bfb6023e34b9161828e102bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:15 +0000
Subject: [PATCH 064/108] fix: editor: the value of a float field could not be
 read

---
 hachoir/editor/fieldset.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index e404fb8..587834b 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -321,10 +321,15 @@ class EditableFloat(EditableFieldSet):
         raw = struct.pack(format, self._value)
         output.writeBytes(raw)
 
+    def _getValue(self):
+        if self._value is not None:
+            return self._value
+        return self.input.value
+
     def _setValue(self, value):
         self.parent._is_altered = True
         self._value = value
-    value = property(EditableFieldSet._getValue, _setValue)
+    value = property(_getValue, _setValue)
 
 
 def createEditableFieldSet(parent, field):
-- 
2.43.0


From 9ffc1feb5adb4711350b8d9f3be9e4b7c36e40c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:27 +0000
Subject: [PATCH 065/108] fix: editor: the path and length of a new field set
 raised an error

---
 hachoir/editor/fieldset.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 587834b..8450f33 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -1,5 +1,6 @@
 from hachoir.core.dict import UniqKeyError
-from hachoir.field import MissingField, Float32, Float64, FakeArray
+from hachoir.field import (MissingField, Float32, Float64, FakeArray,
+                           joinPath)
 from hachoir.editor import createEditableField, EditorError
 from collections import deque  # Python 2.4
 import weakref  # Python 2.1
@@ -354,10 +355,17 @@ class NewFieldSet(EditableFieldSet):
         else:
             return iter(())
 
+    def __len__(self):
+        return sum(len(new) for new in self._inserted.values())
+
     def _getName(self):
         return self._name
     name = property(_getName)
 
+    def _getPath(self):
+        return joinPath(self._parent.path, self._name)
+    path = property(_getPath)
+
     def _getEndian(self):
         return self._endian
     endian = property(_getEndian)
-- 
2.43.0


From 0f7a2f128c9b1066d1ad0ac56b075f600c2dfd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:31 +0000
Subject: [PATCH 066/108] fix: parseDatetime() did not restore the locale of
 the program

---
 hachoir/metadata/setter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/metadata/setter.py b/hachoir/metadata/setter.py
index 9d6997d..f8d4404 100644
--- a/hachoir/metadata/setter.py
+++ b/hachoir/metadata/setter.py
@@ -94,7 +94,8 @@ def parseDatetime(value):
             return datetime(year, month, day, hour, min, sec)
         except ValueError:
             pass
-    current_locale = setlocale(LC_ALL, "C")
+    current_locale = setlocale(LC_ALL)
+    setlocale(LC_ALL, "C")
     try:
         match = TIMEZONE_REGEX.match(value)
         if match:
-- 
2.43.0


From 5d656bdadec62da88fb04801a8cfeeceb5800462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:31 +0000
Subject: [PATCH 067/108] fix: getMemoryLimit() multiplied the limit in bytes
 by the page size: limitedMemory() restored another limit

---
 hachoir/core/memory.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hachoir/core/memory.py b/hachoir/core/memory.py
index 9b03023..076683f 100644
--- a/hachoir/core/memory.py
+++ b/hachoir/core/memory.py
@@ -53,10 +53,7 @@ try:
 
     def getMemoryLimit():  # noqa
         try:
-            limit = getrlimit(RLIMIT_AS)[0]
-            if 0 < limit:
-                limit *= PAGE_SIZE
-            return limit
+            return getrlimit(RLIMIT_AS)[0]
         except ValueError:
             return None
 
-- 
2.43.0


From 73bbd559f95157bfe5b0fc045db78611ea145615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:31 +0000
Subject: [PATCH 068/108] fix: a field set whose last field could not be closed
 was left in feeding state

---
 hachoir/field/generic_field_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/field/generic_field_set.py b/hachoir/field/generic_field_set.py
index 74d8898..7a1f069 100644
--- a/hachoir/field/generic_field_set.py
+++ b/hachoir/field/generic_field_set.py
@@ -177,9 +177,9 @@ class GenericFieldSet(BasicFieldSet):
             else:
                 self.warning(
                     "Error when getting size of '%s': delete it" % field.name)
-                self.__is_feeding = False
                 raise
-        self.__is_feeding = False
+        finally:
+            self.__is_feeding = False
 
         # No more place?
         dsize = self._checkSize(field._address + field.size, False)
-- 
2.43.0


From cd0ff69465ffb76720543d3652fcdfde0293fb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:31 +0000
Subject: [PATCH 069/108] fix: FileInputStream() left the file open when it
 failed, and changed the tags of the caller

---
 hachoir/stream/input_helper.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/hachoir/stream/input_helper.py b/hachoir/stream/input_helper.py
index ed9263e..d6274a4 100644
--- a/hachoir/stream/input_helper.py
+++ b/hachoir/stream/input_helper.py
@@ -15,8 +15,9 @@ def FileInputStream(filename, real_filename=None, **args):
     if not real_filename:
         real_filename = (filename if isinstance(filename, str)
                          else getattr(filename, 'name', ''))
+    opened = isinstance(filename, str)
     try:
-        if isinstance(filename, str):
+        if opened:
             inputio = open(real_filename, 'rb')
         else:
             inputio = filename
@@ -28,14 +29,19 @@ def FileInputStream(filename, real_filename=None, **args):
     source = "file:" + filename
     offset = args.pop("offset", 0)
     size = args.pop("size", None)
-    if offset or size:
-        if size:
-            size = 8 * size
-        stream = InputIOStream(inputio, source=source, **args)
-        return InputSubStream(stream, 8 * offset, size, **args)
-    else:
-        args.setdefault("tags", []).append(("filename", filename))
-        return InputIOStream(inputio, source=source, **args)
+    try:
+        if offset or size:
+            if size:
+                size = 8 * size
+            stream = InputIOStream(inputio, source=source, **args)
+            return InputSubStream(stream, 8 * offset, size, **args)
+        else:
+            args["tags"] = list(args.get("tags", ())) + [("filename", filename)]
+            return InputIOStream(inputio, source=source, **args)
+    except Exception:
+        if opened:
+            inputio.close()
+        raise
 
 
 def guessStreamCharset(stream, address, size, default=None):
-- 
2.43.0


From 1c316f72cc987874429191fc33665ec1b5cb2245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:31 +0000
Subject: [PATCH 070/108] fix: createParser() left the file open when guessing
 the parser failed

---
 hachoir/parser/guess.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/guess.py b/hachoir/parser/guess.py
index 9753608..327f616 100644
--- a/hachoir/parser/guess.py
+++ b/hachoir/parser/guess.py
@@ -134,7 +134,11 @@ def createParser(filename, real_filename=None, tags=None):
     if not tags:
         tags = []
     stream = FileInputStream(filename, real_filename, tags=tags)
-    guess = guessParser(stream)
+    try:
+        guess = guessParser(stream)
+    except Exception:
+        stream.close()
+        raise
     if guess is None:
         stream.close()
     return guess
-- 
2.43.0


From c2167b43325b20c90a173684f09368c099ef0be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:31 +0000
Subject: [PATCH 071/108] fix: getMemorySize() left /proc/self/statm open

---
 hachoir/core/memory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/core/memory.py b/hachoir/core/memory.py
index 076683f..e88e4f5 100644
--- a/hachoir/core/memory.py
+++ b/hachoir/core/memory.py
@@ -31,7 +31,8 @@ def getMemorySize():
     This function only works on Linux (use /proc/self/statm file).
     """
     try:
-        statm = open('/proc/self/statm').readline().split()
+        with open('/proc/self/statm') as fp:
+            statm = fp.readline().split()
     except IOError:
         return None
     return int(statm[0]) * PAGE_SIZE
-- 
2.43.0


From ca02551c99749a22259e44eb96d117b34f767f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:31 +0000
Subject: [PATCH 072/108] fix: hachoir-subfile never closed the files it wrote

---
 hachoir/subfile/output.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hachoir/subfile/output.py b/hachoir/subfile/output.py
index d079839..44f9d15 100644
--- a/hachoir/subfile/output.py
+++ b/hachoir/subfile/output.py
@@ -42,7 +42,8 @@ class Output:
 
         # Write output
         try:
-            output.copyBytesFrom(stream, offset, size // 8)
+            with output:
+                output.copyBytesFrom(stream, offset, size // 8)
         except StreamError as err:
             error("copyBytesFrom() error: %s" % err)
         return filename
-- 
2.43.0


From 30f596163b9a9fd19e6557940500455b8a56be4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:50 +0000
Subject: [PATCH 073/108] fix: an unknown parser id switched off the validation
 of all parsers

---
 hachoir/parser/guess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/guess.py b/hachoir/parser/guess.py
index 327f616..41e734d 100644
--- a/hachoir/parser/guess.py
+++ b/hachoir/parser/guess.py
@@ -70,13 +70,13 @@ class QueryParser(object):
                     values = iter(byname.values())
                 else:
                     values = byname.get(tag[1], ()),
-                if key == "id" and values:
-                    self.validate = False
                 for value in values:
                     for parser in value:
                         if parser in self.parsers:
                             parsers.append(parser)
                             self.parsers.remove(parser)
+                if key == "id" and parsers:
+                    self.validate = False
         return parsers
 
     def parse(self, stream, fallback=True):
-- 
2.43.0


From 8beb637bf5ac036cea12696e29ac6fca842215ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:50 +0000
Subject: [PATCH 074/108] fix: --profiler imported hotshot, which does not
 exist any more

---
 hachoir/core/profiler.py | 50 ++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/hachoir/core/profiler.py b/hachoir/core/profiler.py
index 56ece3f..29d7b6b 100644
--- a/hachoir/core/profiler.py
+++ b/hachoir/core/profiler.py
@@ -1,32 +1,26 @@
-from hotshot import Profile
-from hotshot.stats import load as loadStats
-from os import unlink
+from cProfile import Profile
+from pstats import Stats
 
 
 def runProfiler(func, args=tuple(), kw={}, verbose=True, nb_func=25,
                 sort_by=('cumulative', 'calls')):
-    profile_filename = "/tmp/profiler"
-    prof = Profile(profile_filename)
-    try:
-        if verbose:
-            print("[+] Run profiler")
-        result = prof.runcall(func, *args, **kw)
-        prof.close()
-        if verbose:
-            print("[+] Stop profiler")
-            print("[+] Process data...")
-        stat = loadStats(profile_filename)
-        if verbose:
-            print("[+] Strip...")
-        stat.strip_dirs()
-        if verbose:
-            print("[+] Sort data...")
-        stat.sort_stats(*sort_by)
-        if verbose:
-            print()
-            print("[+] Display statistics")
-            print()
-        stat.print_stats(nb_func)
-        return result
-    finally:
-        unlink(profile_filename)
+    prof = Profile()
+    if verbose:
+        print("[+] Run profiler")
+    result = prof.runcall(func, *args, **kw)
+    if verbose:
+        print("[+] Stop profiler")
+        print("[+] Process data...")
+    stat = Stats(prof)
+    if verbose:
+        print("[+] Strip...")
+    stat.strip_dirs()
+    if verbose:
+        print("[+] Sort data...")
+    stat.sort_stats(*sort_by)
+    if verbose:
+        print()
+        print("[+] Display statistics")
+        print()
+    stat.print_stats(nb_func)
+    return result
-- 
2.43.0


From 23c5f213c68874376a58486c588b6b243cc69179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:10 +0000
Subject: [PATCH 075/108] fix: file() of a file stream disturbed the reading of
 the stream

---
 hachoir/stream/input.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/hachoir/stream/input.py b/hachoir/stream/input.py
index 4193fde..d65aa4e 100644
--- a/hachoir/stream/input.py
+++ b/hachoir/stream/input.py
@@ -437,15 +437,6 @@ class InputIOStream(InputStream):
             raise ReadStreamError(8 * size, 8 * address, 8 * got)
         return shift, data, missing
 
-    def file(self):
-        if hasattr(self._input, "fileno"):
-            from os import dup, fdopen
-            new_fd = dup(self._input.fileno())
-            new_file = fdopen(new_fd, "rb")
-            new_file.seek(0)
-            return new_file
-        return InputStream.file(self)
-
 
 class StringInputStream(InputStream):
 
-- 
2.43.0


From 2d626dd3567001b7602bed0a6e908b77078fe379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:10 +0000
Subject: [PATCH 076/108] fix: listtool left the file open when no parser was
 found

---
 hachoir/listtool.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hachoir/listtool.py b/hachoir/listtool.py
index 7a2f4d9..1b0c9bd 100644
--- a/hachoir/listtool.py
+++ b/hachoir/listtool.py
@@ -83,8 +83,13 @@ def openParser(parser_id, filename, offset, size):
                                  offset=offset, size=size, tags=tags)
     except InputStreamError as err:
         return None, "Unable to open file: %s" % err
-    parser = guessParser(stream)
+    try:
+        parser = guessParser(stream)
+    except Exception:
+        stream.close()
+        raise
     if not parser:
+        stream.close()
         return None, "Unable to parse file: %s" % filename
     return parser, None
 
-- 
2.43.0


From f2eb21346161b17d330be6e98862fdb741365a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:10 +0000
Subject: [PATCH 077/108] fix: hachoir-strip left its input files open

---
 hachoir/strip.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hachoir/strip.py b/hachoir/strip.py
index 4f87474..f614e2e 100644
--- a/hachoir/strip.py
+++ b/hachoir/strip.py
@@ -276,9 +276,10 @@ def main():
         print("[+]", ("Process file %s" % filename))
         parser = createParser(filename)
         if parser:
-            editor = createEditor(parser)
-            ok &= stripEditor(editor, filename + ".new",
-                              level, not values.quiet)
+            with parser:
+                editor = createEditor(parser)
+                ok &= stripEditor(editor, filename + ".new",
+                                  level, not values.quiet)
         else:
             ok = False
     if ok:
-- 
2.43.0


From 2f7595ad9c8f72c54d7288c4894b4c0cd6902619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:10 +0000
Subject: [PATCH 078/108] fix: the CSV export left its files open

---
 hachoir/metadata/csv.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/hachoir/metadata/csv.py b/hachoir/metadata/csv.py
index 1b6ec11..9f3ae6f 100644
--- a/hachoir/metadata/csv.py
+++ b/hachoir/metadata/csv.py
@@ -22,14 +22,14 @@ class Extractor:
 
     def main(self):
         output = codecs.open(OUTPUT_FILENAME, "w", self.charset)
-        for filename in self.findFiles(self.directory, '*.doc'):
-            self.total += 1
-            line = self.processFile(filename)
-            if line:
-                print(line, file=output)
-            else:
-                self.invalid += 1
-        output.close()
+        with output:
+            for filename in self.findFiles(self.directory, '*.doc'):
+                self.total += 1
+                line = self.processFile(filename)
+                if line:
+                    print(line, file=output)
+                else:
+                    self.invalid += 1
         self.summary()
 
     def summary(self):
@@ -54,7 +54,8 @@ class Extractor:
             print("Unable to parse file", file=stderr)
             return None
         try:
-            metadata = extractMetadata(parser)
+            with parser:
+                metadata = extractMetadata(parser)
         except Exception as err:
             print("Metadata extraction error: %s" % str(err), file=stderr)
             return None
-- 
2.43.0


From 8dc287e78b1f32de633aaf11b88b3e75dc618f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:45 +0000
Subject: [PATCH 079/108] fix: the order in which parsers were tried differed
 from run to run

---
 hachoir/parser/guess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/guess.py b/hachoir/parser/guess.py
index 41e734d..900b9d7 100644
--- a/hachoir/parser/guess.py
+++ b/hachoir/parser/guess.py
@@ -19,7 +19,7 @@ class QueryParser(object):
         self.use_fallback = False
         self.parser_args = None
         self.db = HachoirParserList.getInstance()
-        self.parsers = set(self.db)
+        self.parsers = list(self.db)
         parsers = []
         for tag in tags:
             if not self.parsers:
-- 
2.43.0


From 479786c6ff5a1ff45b38c2ef6f486b8b31765eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:12 +0000
Subject: [PATCH 080/108] fix: order of the names in a duplicates error of the
 editor

---
 hachoir/editor/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/editor/fieldset.py b/hachoir/editor/fieldset.py
index 8450f33..e0a0699 100644
--- a/hachoir/editor/fieldset.py
+++ b/hachoir/editor/fieldset.py
@@ -85,7 +85,7 @@ class EditableFieldSet(object):
         new_names = list(field.name for field in new_fields)
         names_set = set(new_names)
         if len(names_set) != len(new_fields):
-            duplicates = (name for name in names_set if 1 <
+            duplicates = (name for name in sorted(names_set) if 1 <
                           new_names.count(name))
             raise UniqKeyError(
                 "Duplicates in inserted fields: %s" % ", ".join(duplicates))
-- 
2.43.0


From d46cb22538c077bd0cea57af7aafbebc2a542e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:06 +0000
Subject: [PATCH 081/108] fix: filename suffix of a parser raised when its hook
 failed (empty ZIP archive)

---
 hachoir/parser/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hachoir/parser/parser.py b/hachoir/parser/parser.py
index a9c8107..67c91b6 100644
--- a/hachoir/parser/parser.py
+++ b/hachoir/parser/parser.py
@@ -124,7 +124,11 @@ class HachoirParser(object):
 
     def _getFilenameSuffix(self):
         if not hasattr(self, "_filename_suffix"):
-            self._filename_suffix = self.createFilenameSuffix()
+            try:
+                self._filename_suffix = self.createFilenameSuffix()
+            except Exception as err:
+                self.error("Unable to create filename suffix: %s" % err)
+                self._filename_suffix = None
         return self._filename_suffix
     filename_suffix = property(_getFilenameSuffix)
 
-- 
2.43.0


From 96d93f053ecd748ec2481e0f8692406c7e7ec39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:38 +0000
Subject: [PATCH 082/108] fix: RAR comment and AV info bodies subtracted bits
 from bytes

---
 hachoir/parser/archive/rar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/archive/rar.py b/hachoir/parser/archive/rar.py
index 738dbc5..f041605 100644
--- a/hachoir/parser/archive/rar.py
+++ b/hachoir/parser/archive/rar.py
@@ -105,7 +105,7 @@ def commentHeader(s):
 
 
 def commentBody(s):
-    size = s["total_size"].value - s.current_size
+    size = s["total_size"].value - s.current_size // 8
     if size > 0:
         yield RawBytes(s, "comment_data", size, "Compressed comment data")
 
@@ -133,7 +133,7 @@ def avInfoHeader(s):
 
 
 def avInfoBody(s):
-    size = s["total_size"].value - s.current_size
+    size = s["total_size"].value - s.current_size // 8
     if size > 0:
         yield RawBytes(s, "av_info_data", size, "AV info")
 
-- 
2.43.0


From 624d7982526950a3527d35b0a0cea6d8c34b7e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:38 +0000
Subject: [PATCH 083/108] fix: NDS validation and secure area mixed bytes and
 bits

---
 hachoir/parser/program/nds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/program/nds.py b/hachoir/parser/program/nds.py
index f6b70b1..3616bfe 100644
--- a/hachoir/parser/program/nds.py
+++ b/hachoir/parser/program/nds.py
@@ -325,8 +325,8 @@ class NdsFile(Parser, RootSeekableFieldSet):
                 and header["card_size"].value < 15  # arbitrary limit at 32Gbit
                 and header["arm9_bin_size"].value > 0 and header["arm9_bin_size"].value <= 0x3bfe00
                 and header["arm7_bin_size"].value > 0 and header["arm7_bin_size"].value <= 0x3bfe00
-                and header["arm9_source"].value + header["arm9_bin_size"].value < self._size
-                and header["arm7_source"].value + header["arm7_bin_size"].value < self._size
+                and (header["arm9_source"].value + header["arm9_bin_size"].value) * 8 <= self._size
+                and (header["arm7_source"].value + header["arm7_bin_size"].value) * 8 <= self._size
                 and header["arm9_execute_addr"].value >= 0x02000000 and header["arm9_execute_addr"].value <= 0x023bfe00
                 and header["arm9_copy_to_addr"].value >= 0x02000000 and header["arm9_copy_to_addr"].value <= 0x023bfe00
                 and header["arm7_execute_addr"].value >= 0x02000000 and header["arm7_execute_addr"].value <= 0x03807e00
@@ -341,7 +341,7 @@ class NdsFile(Parser, RootSeekableFieldSet):
         if self["header"]["arm9_source"].value >= 0x4000 and self["header"]["arm9_source"].value < 0x8000:
             secStart = self["header"]["arm9_source"].value & 0xfffff000
             self.seekByte(secStart, relative=False)
-            yield SecureArea(self, "secure_area", size=0x8000 - secStart)
+            yield SecureArea(self, "secure_area", size=(0x8000 - secStart) * 8)
 
         # ARM9 binary
         self.seekByte(self["header"]["arm9_source"].value, relative=False)
-- 
2.43.0


From 9ffb9af2ddce00b7776d9b46ba8608cf304c826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:34 +0000
Subject: [PATCH 084/108] fix: find the terminator of UTF-16 and UTF-32 strings
 at character boundaries only

---
 hachoir/field/string_field.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index 742634d..17cb5f6 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -17,7 +17,7 @@ Note: For PascalStringXX, prefixed value is the number of bytes and not
 
 from hachoir.field import FieldError, Bytes
 from hachoir.core.endian import LITTLE_ENDIAN, BIG_ENDIAN
-from hachoir.core.tools import alignValue, makePrintable
+from hachoir.core.tools import makePrintable
 from hachoir.core.i18n import guessBytesCharset
 from hachoir.core import config
 from codecs import BOM_UTF16_LE, BOM_UTF16_BE, BOM_UTF32_LE, BOM_UTF32_BE
@@ -154,16 +154,21 @@ class GenericString(Bytes):
                 suffix = self.suffix_str
 
                 # Find the suffix
-                length = self._parent.stream.searchBytesLength(
-                    suffix, False, self.absolute_address)
-                if length is None:
-                    raise FieldError("Unable to find end of string %s (format %s)!"
-                                     % (self.path, self._format))
-                if 1 < len(suffix):
-                    # Fix length for little endian bug with UTF-xx charset:
+                length = 0
+                while True:
+                    found = self._parent.stream.searchBytesLength(
+                        suffix, False, self.absolute_address + length * 8)
+                    if found is None:
+                        raise FieldError("Unable to find end of string %s (format %s)!"
+                                         % (self.path, self._format))
+                    length += found
+                    if length % len(suffix) == 0:
+                        break
+                    # The suffix is a whole character, it can only be at
+                    # a character boundary:
                     #   u"abc" -> "a\0b\0c\0\0\0" (UTF-16-LE)
-                    #   search returns length=5, whereas real lenght is 6
-                    length = alignValue(length, len(suffix))
+                    #   search finds length=5, whereas real length is 6
+                    length += 1
 
                 # Compute sizes
                 self._content_size = length  # in bytes
-- 
2.43.0


From cffdaf7556f1d304eed562314b4e19252c602b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:34 +0000
Subject: [PATCH 085/108] fix: use the byte order of the charset for the suffix
 of a string

---
 hachoir/field/string_field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index 17cb5f6..3f5d4fc 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -219,8 +219,11 @@ class GenericString(Bytes):
             return ''
         suffix = GenericString.SUFFIX_FORMAT[format]
         if charset in GenericString.UTF_CHARSET:
-            suffix_size = GenericString.UTF_CHARSET[charset][0]
+            suffix_size, charset_endian = GenericString.UTF_CHARSET[charset]
             suffix = suffix[suffix_size]
+            if charset_endian in suffix:
+                # The charset tells the order of the bytes of a character
+                endian = charset_endian
         else:
             suffix = suffix[8]
         return suffix[endian]
-- 
2.43.0


From 64070001f3e6ada60bb0e00ef0505f5ef0f36d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:34 +0000
Subject: [PATCH 086/108] fix: read the BOM of a Pascal string after its
 prefix, and only if there is content

---
 hachoir/field/string_field.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hachoir/field/string_field.py b/hachoir/field/string_field.py
index 3f5d4fc..a9bc862 100644
--- a/hachoir/field/string_field.py
+++ b/hachoir/field/string_field.py
@@ -192,11 +192,14 @@ class GenericString(Bytes):
         if self._charset in self.UTF_CHARSET:
             # Charset requires a BOM?
             bomsize, endian = self.UTF_CHARSET[self._charset]
-            if endian == "BOM":
+            if endian == "BOM" and self._content_size:
                 # Read the BOM value
                 nbytes = bomsize // 8
+                if self._content_size < nbytes:
+                    raise FieldError("String %s is too short to have a BOM!"
+                                     % self.path)
                 bom = self._parent.stream.readBytes(
-                    self.absolute_address, nbytes)
+                    self.absolute_address + self._content_offset * 8, nbytes)
 
                 # Choose right charset using the BOM
                 bom_endian = self.UTF_BOM[bomsize]
-- 
2.43.0


From 7adb6949fc401f986319c652f120da02c8f8a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:34 +0000
Subject: [PATCH 087/108] fix: the parts of a little endian float are mantissa,
 exponent and sign in that order

---
 hachoir/field/float.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/hachoir/field/float.py b/hachoir/field/float.py
index c2b62e2..032e3b5 100644
--- a/hachoir/field/float.py
+++ b/hachoir/field/float.py
@@ -79,13 +79,23 @@ def floatFactory(name, format, mantissa_bits, exponent_bits, doc):
                                      self.__class__.__name__)
 
         def createFields(self):
-            yield Bit(self, "negative")
-            yield FloatExponent(self, "exponent", exponent_bits)
-            if 64 <= mantissa_bits:
-                yield Bit(self, "one")
-                yield FloatMantissa(self, "mantissa", mantissa_bits - 1)
+            if self.endian == LITTLE_ENDIAN:
+                # The lowest bits come first
+                if 64 <= mantissa_bits:
+                    yield FloatMantissa(self, "mantissa", mantissa_bits - 1)
+                    yield Bit(self, "one")
+                else:
+                    yield FloatMantissa(self, "mantissa", mantissa_bits)
+                yield FloatExponent(self, "exponent", exponent_bits)
+                yield Bit(self, "negative")
             else:
-                yield FloatMantissa(self, "mantissa", mantissa_bits)
+                yield Bit(self, "negative")
+                yield FloatExponent(self, "exponent", exponent_bits)
+                if 64 <= mantissa_bits:
+                    yield Bit(self, "one")
+                    yield FloatMantissa(self, "mantissa", mantissa_bits - 1)
+                else:
+                    yield FloatMantissa(self, "mantissa", mantissa_bits)
 
     cls = Float
     cls.__name__ = name
-- 
2.43.0


From 56985801a5be0767dfe68f9112bf2f03ffbd2c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:33 +0000
Subject: [PATCH 088/108] fix: TGA: compare the value of the codec, not the
 field

---
 hachoir/parser/image/tga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/tga.py b/hachoir/parser/image/tga.py
index fc9570f..872e58d 100644
--- a/hachoir/parser/image/tga.py
+++ b/hachoir/parser/image/tga.py
@@ -98,7 +98,7 @@ class TargaFile(Parser):
         if self["palette_type"].value == 1:
             yield PaletteRGB(self, "palette", 1 << self["bpp"].value)
 
-        if self["codec"] in (1, 2, 3):
+        if self["codec"].value in (1, 2, 3):
             yield Pixels(self, "pixels")
         else:
             size = (self.size - self.current_size) // 8
-- 
2.43.0


From 2bc8e3203d4e61022a97b2ceab59c8c11385cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:33 +0000
Subject: [PATCH 089/108] fix: TTF: read the glyph offsets of 'post' tables of
 version 2.5

---
 hachoir/parser/misc/ttf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index ca5e7c4..48556dd 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -20,6 +20,7 @@ from hachoir.field import (
     UInt16,
     UInt24,
     UInt32,
+    Int8,
     Int16,
     Bit,
     Bits,
@@ -674,13 +675,13 @@ def parsePost(self):
         for gid, index in enumerate(indices):
             if index.value >= 258:
                 yield PascalString8(self, "glyphname[%i]" % gid)
-    elif self["version"].value == 2.0:
+    elif self["version"].value == 2.5:
         yield UInt16(self, "numGlyphs")
         indices = GenericVector(
             self,
             "Difference between graphic index and standard order of glyph",
             self["numGlyphs"].value,
-            UInt16,
+            Int8,
             "offset",
         )
         yield indices
-- 
2.43.0


From 3356864aae5019a08a85cca8865e9a20db1711a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:33 +0000
Subject: [PATCH 090/108] fix: TTF: the font direction hint is signed

---
 hachoir/parser/misc/ttf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index 48556dd..3998c47 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -228,7 +228,7 @@ def parseFontHeader(self):
     yield PaddingBits(self, "reserved[]", 9)
 
     yield UInt16(self, "lowest", "Smallest readable size in pixels")
-    yield Enum(UInt16(self, "font_dir", "Font direction hint"), DIRECTION_NAME)
+    yield Enum(Int16(self, "font_dir", "Font direction hint"), DIRECTION_NAME)
     yield Enum(UInt16(self, "ofst_format"), {0: "short offsets", 1: "long"})
     yield UInt16(self, "glyph_format", "(=0)")
 
-- 
2.43.0


From 9a7fcb398b6923f1650736864e34749e2bf655f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:33 +0000
Subject: [PATCH 091/108] fix: PDF: the type of a cross reference entry is a
 character

---
 hachoir/parser/misc/pdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/pdf.py b/hachoir/parser/misc/pdf.py
index b864f2b..bbf8a44 100644
--- a/hachoir/parser/misc/pdf.py
+++ b/hachoir/parser/misc/pdf.py
@@ -9,7 +9,7 @@ from hachoir.field import (
     Field, FieldSet,
     ParserError,
     GenericVector,
-    UInt8, UInt16, UInt32,
+    Character, UInt8, UInt16, UInt32,
     String,
     RawBytes)
 from hachoir.core.endian import LITTLE_ENDIAN
@@ -349,7 +349,7 @@ class Entry(FieldSet):
         else:
             yield PDFNumber(self, "unknown_string")
         yield PDFNumber(self, "generation_number")
-        yield UInt8(self, "type")
+        yield Character(self, "type")
         yield LineEnd(self, "line_end")
 
     def createDescription(self):
-- 
2.43.0


From 9732bd829143d090222ff7bef409208d73856e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:33 +0000
Subject: [PATCH 092/108] fix: modplug: the marker of plugin data is text

---
 hachoir/parser/audio/modplug.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/audio/modplug.py b/hachoir/parser/audio/modplug.py
index 0191e15..ea8fd1b 100644
--- a/hachoir/parser/audio/modplug.py
+++ b/hachoir/parser/audio/modplug.py
@@ -113,10 +113,11 @@ class XPlugData(FieldSet):
     def createFields(self):
         yield UInt32(self, "size")
         while not self.eof:
-            yield UInt32(self, "marker")
-            if self["marker"].value == 'DWRT':
+            marker = String(self, "marker[]", 4, charset="ASCII")
+            yield marker
+            if marker.value == 'DWRT':
                 yield Float32(self, "dry_ratio")
-            elif self["marker"].value == 'PORG':
+            elif marker.value == 'PORG':
                 yield UInt32(self, "default_program")
 
 
-- 
2.43.0


From cc9bd3d4d52ae47cb6379db366b0d77e35f9a087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:33 +0000
Subject: [PATCH 093/108] fix: FAT: the first character 5 of a name stands for
 E5h

---
 hachoir/parser/file_system/fat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 802fab6..378d8a9 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -177,13 +177,13 @@ class FileEntry(FieldSet):
 
     def getFilename(self):
         name = self["name"].value
+        if name.startswith("\x05"):
+            name = "\xE5" + name[1:]
         if isinstance(name, str):
             name = makePrintable(name, "ASCII")
         ext = self["ext"].value
         if ext:
             name += "." + ext
-        if name[0] == 5:
-            name = "\xE5" + name[1:]
         if not self.LFN and self["directory"].value:
             name += "/"
         return name
-- 
2.43.0


From c6a7d98268755d405048f8700a0d768f77dc7ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:33 +0000
Subject: [PATCH 094/108] fix: ICO: an 8-bit number of colors cannot be 256

---
 hachoir/metadata/image.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hachoir/metadata/image.py b/hachoir/metadata/image.py
index ae6e13b..93c31c7 100644
--- a/hachoir/metadata/image.py
+++ b/hachoir/metadata/image.py
@@ -97,7 +97,6 @@ class IcoMetadata(MultipleMetadata):
     color_to_bpp = {
         2: 1,
         16: 4,
-        256: 8
     }
 
     def extract(self, icon):
-- 
2.43.0


From 37e4d677fca287aa4d89b047a0df10b15580fbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:33 +0000
Subject: [PATCH 095/108] fix: MOD: give name and size of note fields in their
 order

---
 hachoir/parser/audio/mod.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/audio/mod.py b/hachoir/parser/audio/mod.py
index b794cfe..3b1defc 100644
--- a/hachoir/parser/audio/mod.py
+++ b/hachoir/parser/audio/mod.py
@@ -86,10 +86,10 @@ class Note(FieldSet):
     static_size = 8 * 4
 
     def createFields(self):
-        yield Bits(self, 4, "note_hi_nibble")
-        yield Bits(self, 12, "period")
-        yield Bits(self, 4, "note_low_nibble")
-        yield Bits(self, 4, "effect")
+        yield Bits(self, "note_hi_nibble", 4)
+        yield Bits(self, "period", 12)
+        yield Bits(self, "note_low_nibble", 4)
+        yield Bits(self, "effect", 4)
         yield UInt8(self, "parameter")
 
 
-- 
2.43.0


From e1f13f57301144373b6aab9214842ced9b239100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:33 +0000
Subject: [PATCH 096/108] fix: S3M, LAF, MP4, MPEG-TS, PDF, FIT: a description
 is text, not the size of the field

---
 hachoir/parser/audio/s3m.py     | 2 +-
 hachoir/parser/container/mp4.py | 2 +-
 hachoir/parser/game/laf.py      | 4 ++--
 hachoir/parser/misc/fit.py      | 2 +-
 hachoir/parser/misc/pdf.py      | 2 +-
 hachoir/parser/video/mpeg_ts.py | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/hachoir/parser/audio/s3m.py b/hachoir/parser/audio/s3m.py
index b9784e6..c7f80e1 100644
--- a/hachoir/parser/audio/s3m.py
+++ b/hachoir/parser/audio/s3m.py
@@ -491,7 +491,7 @@ class S3MInstrument(Instrument):
         yield Enum(UInt8(self, "packing"), self.PACKING)
         yield SampleFlags(self, "flags")
         yield UInt32(self, "c4_speed", "Frequency for middle C note")
-        yield UInt32(self, "reserved[]", 4)
+        yield UInt32(self, "reserved[]")
         yield UInt16(self, "internal[]", "Sample address in GUS memory")
         yield UInt16(self, "internal[]", "Flags for SoundBlaster loop expansion")
         yield UInt32(self, "internal[]", "Last used position (SB)")
diff --git a/hachoir/parser/container/mp4.py b/hachoir/parser/container/mp4.py
index 3360eb6..8efd2d1 100644
--- a/hachoir/parser/container/mp4.py
+++ b/hachoir/parser/container/mp4.py
@@ -83,7 +83,7 @@ DecoderConfigDescrTag = 0x04
 def DecoderConfigDescriptor(self):
     yield UInt8(self, "objectTypeIndication")
     yield Bits(self, "streamType", 6)
-    yield Bit(self, "upStream", 1)
+    yield Bit(self, "upStream")
     yield NullBits(self, "reserved", 1)
     yield UInt24(self, "bufferSizeDB")
     yield UInt32(self, "maxBitrate")
diff --git a/hachoir/parser/game/laf.py b/hachoir/parser/game/laf.py
index 12edd40..993dadc 100644
--- a/hachoir/parser/game/laf.py
+++ b/hachoir/parser/game/laf.py
@@ -77,8 +77,8 @@ class LafFile(Parser):
         yield UInt32(self, "raw_font_data_size")
         yield UInt32(self, "max_char_width")
         yield UInt32(self, "min_char_width")
-        yield UInt32(self, "unknown[]", 4)
-        yield UInt32(self, "unknown[]", 4)
+        yield UInt32(self, "unknown[]")
+        yield UInt32(self, "unknown[]")
         yield UInt32(self, "first_char_code")
         yield UInt32(self, "last_char_code")
 
diff --git a/hachoir/parser/misc/fit.py b/hachoir/parser/misc/fit.py
index 8e51f87..08ca313 100644
--- a/hachoir/parser/misc/fit.py
+++ b/hachoir/parser/misc/fit.py
@@ -99,7 +99,7 @@ class DataMessage(FieldSet):
                 yield typ(self, "field%d" % n, desc["size"].value)
             else:
                 if typ.static_size // 8 == desc["size"].value:
-                    yield typ(self, "field%d" % n, desc["size"].value)
+                    yield typ(self, "field%d" % n)
                 else:
                     for p in range(desc["size"].value * 8 // typ.static_size):
                         yield typ(self, "field%d[]" % n)
diff --git a/hachoir/parser/misc/pdf.py b/hachoir/parser/misc/pdf.py
index bbf8a44..607b9a5 100644
--- a/hachoir/parser/misc/pdf.py
+++ b/hachoir/parser/misc/pdf.py
@@ -283,7 +283,7 @@ def parsePDFType(s):
 class Header(FieldSet):
 
     def createFields(self):
-        yield String(self, "marker", 5, MAGIC)
+        yield String(self, "marker", 5, "Should be %r" % MAGIC)
         length = getLineEnd(self, 4)
         if length is not None:
             # self.info("Found at position %08X" % len)
diff --git a/hachoir/parser/video/mpeg_ts.py b/hachoir/parser/video/mpeg_ts.py
index e626e70..ed63ae1 100644
--- a/hachoir/parser/video/mpeg_ts.py
+++ b/hachoir/parser/video/mpeg_ts.py
@@ -75,7 +75,7 @@ class Packet(FieldSet):
         if self._m2ts:
             yield Bits(self, "c", 2)
             yield Bits(self, "ats", 32 - 2)
-        yield textHandler(UInt8(self, "sync", 8), hexadecimal)
+        yield textHandler(UInt8(self, "sync"), hexadecimal)
         if self["sync"].value != 0x47:
             raise ParserError("MPEG-2 TS: Invalid synchronization byte")
         yield Bit(self, "has_error")
-- 
2.43.0


From 1d98693a7fd8a7ed2d3cdb6c94faa58d6f6a71f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:32 +0000
Subject: [PATCH 097/108] fix: WMF: the styles of a pen are an array

---
 hachoir/parser/image/wmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/image/wmf.py b/hachoir/parser/image/wmf.py
index 2a60951..5130d2e 100644
--- a/hachoir/parser/image/wmf.py
+++ b/hachoir/parser/image/wmf.py
@@ -277,7 +277,7 @@ def parseExtCreatePen(parser):
     yield UInt32(parser, "hatch")
     yield UInt32(parser, "nb_style")
     for index in range(parser["nb_style"].value):
-        yield UInt32(parser, "style")
+        yield UInt32(parser, "style[]")
 
 
 EMF_META = {
-- 
2.43.0


From f5d59fe0c46e32936c103c687212be69b633b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:32 +0000
Subject: [PATCH 098/108] fix: TTF: the number of glyph ids of a cmap subtable
 is a whole number

---
 hachoir/parser/misc/ttf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index 3998c47..5cf4d9c 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -357,7 +357,7 @@ class CmapTable4(FieldSet):
         yield GenericVector(self, "startCode", segments, UInt16)
         yield GenericVector(self, "idDelta", segments, Int16)
         yield GenericVector(self, "idRangeOffsets", segments, UInt16)
-        remainder = (self["length"].value - (self.current_size / 8)) / 2
+        remainder = (self["length"].value - self.current_size // 8) // 2
         if remainder:
             yield GenericVector(self, "glyphIdArray", remainder, UInt16)
 
-- 
2.43.0


From 6d1e47ad8fd2804ecc802049e3e5cec4c23b48e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:32 +0000
Subject: [PATCH 099/108] fix: iTunesDB: the size of the header padding is a
 whole number

---
 hachoir/parser/audio/itunesdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/audio/itunesdb.py b/hachoir/parser/audio/itunesdb.py
index 095679d..3ec495e 100644
--- a/hachoir/parser/audio/itunesdb.py
+++ b/hachoir/parser/audio/itunesdb.py
@@ -519,7 +519,7 @@ class ITunesDBFile(Parser):
         yield Int32(self, "timezone_offset[]", "Timezone offset in seconds")
         yield UInt16(self, "unknown[]")
         yield RawBytes(self, "iphone_hash[]", 45)
-        size = self["header_length"].value - self.current_size / 8
+        size = self["header_length"].value - self.current_size // 8
         if size > 0:
             yield NullBytes(self, "padding", size)
         for i in range(self["child_number"].value):
-- 
2.43.0


From 589cf7280c60cb78a91a9ce7960511f710c0e846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:32 +0000
Subject: [PATCH 100/108] fix: BLP: sizes of mipmaps and interpolated colors
 are whole numbers

---
 hachoir/parser/game/blp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hachoir/parser/game/blp.py b/hachoir/parser/game/blp.py
index 5364019..713d04d 100644
--- a/hachoir/parser/game/blp.py
+++ b/hachoir/parser/game/blp.py
@@ -101,8 +101,8 @@ class BLP1File(Parser):
                 yield Generic2DArray(self, "mipmap_indexes[%i]" % i, width, height, PaletteIndex, "row", "index", "Indexes into the palette")
                 if image_type in (3, 4):
                     yield Generic2DArray(self, "mipmap_alphas[%i]" % i, width, height, UInt8, "row", "alpha", "Alpha values")
-            width /= 2
-            height /= 2
+            width //= 2
+            height //= 2
 
 
 def interp_avg(data_low, data_high, n):
@@ -113,7 +113,7 @@ def interp_avg(data_low, data_high, n):
     """
     if isinstance(data_low, int):
         for i in range(1, n):
-            yield (data_low * (n - i) + data_high * i) / n
+            yield (data_low * (n - i) + data_high * i) // n
     else:  # iterable
         pairs = list(zip(data_low, data_high))
         pair_iters = [interp_avg(x, y, n) for x, y in pairs]
@@ -285,5 +285,5 @@ class BLP2File(Parser):
                     yield Generic2DArray(self, "mipmap[%i]" % i, block_height, block_width, DXT3, "row", "block", "DXT3-compressed image blocks")
                 elif alpha_depth == 8 and alpha_encoding == 7:
                     yield Generic2DArray(self, "mipmap[%i]" % i, block_height, block_width, DXT5, "row", "block", "DXT5-compressed image blocks")
-            width /= 2
-            height /= 2
+            width //= 2
+            height //= 2
-- 
2.43.0


From 067a65e1dbbb4b66f1066027f86130794f689634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:32 +0000
Subject: [PATCH 101/108] fix: FAT: the index of a group of entries is a whole
 number

---
 hachoir/parser/file_system/fat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/file_system/fat.py b/hachoir/parser/file_system/fat.py
index 378d8a9..844fc6d 100644
--- a/hachoir/parser/file_system/fat.py
+++ b/hachoir/parser/file_system/fat.py
@@ -347,7 +347,7 @@ class FAT_FS(Parser):
             clus_nb = 1
             next = cluster
             while True:
-                next = self.fat[next / 1000][next % 1000].value
+                next = self.fat[next // 1000][next % 1000].value
                 if not 1 < next < max_entry:
                     break
                 if cluster + clus_nb == next:
-- 
2.43.0


From 4a6aadb91c5b410cc2d6e3edd0ccefb1acead363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:32 +0000
Subject: [PATCH 102/108] fix: TTF: GSUB: test the version which was read, keep
 the offset to the feature variations, number the contents

---
 hachoir/parser/misc/ttf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hachoir/parser/misc/ttf.py b/hachoir/parser/misc/ttf.py
index 5cf4d9c..1fbb6ea 100644
--- a/hachoir/parser/misc/ttf.py
+++ b/hachoir/parser/misc/ttf.py
@@ -709,10 +709,11 @@ def parseGSUB(self):
         )
         yield offset
         offsets.append((offset.value, parser))
-    if self["min_ver"].value == 1:
+    if self["minorVersion"].value == 1:
         offset = UInt32(
             self, "featureVariationsOffset", "Offset to feature variations table"
         )
+        yield offset
         offsets.append((offset.value, parseFeatureVariationsTable))
 
     offsets.sort(key=lambda field: field[0])
@@ -722,7 +723,7 @@ def parseGSUB(self):
     lastOffset, first_parser = offsets[0]
     for offset, parser in offsets[1:]:
         # yield parser(self)
-        yield RawBytes(self, "content", offset - lastOffset)
+        yield RawBytes(self, "content[]", offset - lastOffset)
         lastOffset = offset
 
 
-- 
2.43.0


From e4c65efc825d57d2c1d1eeda9d10bc1284cce899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:26 +0000
Subject: [PATCH 103/108] fix: PDF: PDFBool: a boolean which was recognised is
 answered, its size is in bits

---
 hachoir/parser/misc/pdf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/misc/pdf.py b/hachoir/parser/misc/pdf.py
index 607b9a5..bf2014d 100644
--- a/hachoir/parser/misc/pdf.py
+++ b/hachoir/parser/misc/pdf.py
@@ -164,12 +164,13 @@ class PDFBool(Field):
     def __init__(self, parent, name, desc=None):
         Field.__init__(self, parent, name, description=desc)
         if parent.stream.readBytes(self.absolute_address, 4) == b"true":
-            self._size = 4
+            self._size = 4 * 8
             self.createValue = lambda: True
         elif parent.stream.readBytes(self.absolute_address, 5) == b"false":
-            self._size = 5
+            self._size = 5 * 8
             self.createValue = lambda: False
-        raise NotABool
+        else:
+            raise NotABool
 
 
 class LineEnd(FieldSet):
-- 
2.43.0


From a32f3a2d96974d7541a702c4a57db2c151a7595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:39 +0000
Subject: [PATCH 104/108] fix: DS_Store, bplist, FLV, MSTask, Word: min_size is
 in bits

---
 hachoir/parser/misc/bplist.py   | 2 +-
 hachoir/parser/misc/dsstore.py  | 2 +-
 hachoir/parser/misc/mstask.py   | 2 +-
 hachoir/parser/misc/word_2.py   | 2 +-
 hachoir/parser/misc/word_doc.py | 2 +-
 hachoir/parser/video/flv.py     | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hachoir/parser/misc/bplist.py b/hachoir/parser/misc/bplist.py
index 097a197..969264a 100644
--- a/hachoir/parser/misc/bplist.py
+++ b/hachoir/parser/misc/bplist.py
@@ -280,7 +280,7 @@ class BPList(HachoirParser, RootSeekableFieldSet):
         "category": "misc",
         "file_ext": ("plist",),
         "magic": ((MAGIC, 0),),
-        "min_size": 8 + 32,  # bplist00 + 32-byte trailer
+        "min_size": (8 + 32) * 8,  # bplist00 + 32-byte trailer
         "description": "Apple/NeXT Binary Property List",
     }
 
diff --git a/hachoir/parser/misc/dsstore.py b/hachoir/parser/misc/dsstore.py
index ad746c6..014f31b 100644
--- a/hachoir/parser/misc/dsstore.py
+++ b/hachoir/parser/misc/dsstore.py
@@ -176,7 +176,7 @@ class DSStore(HachoirParser, RootSeekableFieldSet):
         "category": "misc",
         "file_ext": ("ds_store",),
         "magic": ((MAGIC, 0),),
-        "min_size": 4 + 32,  # \0\0\0\1 + 32-byte header
+        "min_size": (4 + 32) * 8,  # \0\0\0\1 + 32-byte header
         "description": "Mac OS X DS_Store",
     }
 
diff --git a/hachoir/parser/misc/mstask.py b/hachoir/parser/misc/mstask.py
index 92a582a..18c349b 100644
--- a/hachoir/parser/misc/mstask.py
+++ b/hachoir/parser/misc/mstask.py
@@ -67,7 +67,7 @@ class MSTaskFile(Parser, RootSeekableFieldSet):
         # TODO: Example ("bmp",) to parse the file "image.bmp"
         "file_ext": ("job",),
         # TODO: Minimum file size (x bits, or x*8 in bytes)
-        "min_size": 100,
+        "min_size": 68 * 8,  # FIXDLEN_DATA
         # TODO: Example: "A bitmap picture",
         "description": ".job 'at' file parser from ms windows",
     }
diff --git a/hachoir/parser/misc/word_2.py b/hachoir/parser/misc/word_2.py
index 81d9e66..cf6c8c7 100644
--- a/hachoir/parser/misc/word_2.py
+++ b/hachoir/parser/misc/word_2.py
@@ -138,7 +138,7 @@ class Word2DocumentParser(OLE2FragmentParser):
     MAGIC = b'\xdb\xa5'  # 42459
     PARSER_TAGS = {
         "id": "word_v2_document",
-        "min_size": 8,
+        "min_size": 8 * 8,
         "magic": ((MAGIC, 0),),
         "file_ext": ("doc",),
         "description": "Microsoft Office Word Version 2.0 document",
diff --git a/hachoir/parser/misc/word_doc.py b/hachoir/parser/misc/word_doc.py
index eb7efcf..23435a2 100644
--- a/hachoir/parser/misc/word_doc.py
+++ b/hachoir/parser/misc/word_doc.py
@@ -269,7 +269,7 @@ class WordDocumentParser(OLE2FragmentParser):
     MAGIC = b'\xec\xa5'  # 42476
     PARSER_TAGS = {
         "id": "word_document",
-        "min_size": 8,
+        "min_size": 8 * 8,
         "magic": ((MAGIC, 0),),
         "description": "Microsoft Office Word document",
     }
diff --git a/hachoir/parser/video/flv.py b/hachoir/parser/video/flv.py
index 8d49ae4..96501a4 100644
--- a/hachoir/parser/video/flv.py
+++ b/hachoir/parser/video/flv.py
@@ -133,7 +133,7 @@ class FlvFile(Parser):
         "category": "video",
         "file_ext": ("flv",),
         "mime": ("video/x-flv",),
-        "min_size": 9 * 4,
+        "min_size": 9 * 8,
         "magic": (
             # Signature, version=1, flags=5 (video+audio), header size=9
             (b"FLV\1\x05\0\0\0\x09", 0),
-- 
2.43.0


From 11f60b83d701fa903a448db255c39433d840cfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:39 +0000
Subject: [PATCH 105/108] fix: CAB, CHM, FLAC, PSD: a file is at least as long
 as the signature of its format

---
 hachoir/parser/archive/cab.py | 2 +-
 hachoir/parser/audio/flac.py  | 2 +-
 hachoir/parser/image/psd.py   | 2 +-
 hachoir/parser/misc/chm.py    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hachoir/parser/archive/cab.py b/hachoir/parser/archive/cab.py
index 0d4c0d5..46f5390 100644
--- a/hachoir/parser/archive/cab.py
+++ b/hachoir/parser/archive/cab.py
@@ -186,7 +186,7 @@ class CabFile(Parser):
         "file_ext": ("cab",),
         "mime": ("application/vnd.ms-cab-compressed",),
         "magic": ((MAGIC, 0),),
-        "min_size": 1 * 8,  # header + file entry
+        "min_size": 36 * 8,  # header
         "description": "Microsoft Cabinet archive"
     }
 
diff --git a/hachoir/parser/audio/flac.py b/hachoir/parser/audio/flac.py
index 9a43569..2b430e4 100644
--- a/hachoir/parser/audio/flac.py
+++ b/hachoir/parser/audio/flac.py
@@ -154,7 +154,7 @@ class FlacParser(Parser):
         "file_ext": ("flac",),
         "mime": ("audio/x-flac",),
         "magic": ((MAGIC, 0),),
-        "min_size": 4 * 8,
+        "min_size": 8 * 8,
         "description": "FLAC audio",
     }
     endian = BIG_ENDIAN
diff --git a/hachoir/parser/image/psd.py b/hachoir/parser/image/psd.py
index df59f6b..9e1bcf7 100644
--- a/hachoir/parser/image/psd.py
+++ b/hachoir/parser/image/psd.py
@@ -31,7 +31,7 @@ class PsdFile(Parser):
         "category": "image",
         "file_ext": ("psd",),
         "mime": ("image/psd", "image/photoshop", "image/x-photoshop"),
-        "min_size": 4 * 8,
+        "min_size": 26 * 8,
         "magic": ((b"8BPS\0\1", 0),),
         "description": "Photoshop (PSD) picture",
     }
diff --git a/hachoir/parser/misc/chm.py b/hachoir/parser/misc/chm.py
index dd969d8..86acf4f 100644
--- a/hachoir/parser/misc/chm.py
+++ b/hachoir/parser/misc/chm.py
@@ -285,7 +285,7 @@ class ChmFile(HachoirParser, RootSeekableFieldSet):
         "id": "chm",
         "category": "misc",
         "file_ext": ("chm",),
-        "min_size": 4 * 8,
+        "min_size": 8 * 8,
         "magic": ((MAGIC, 0),),
         "description": "Microsoft's HTML Help (.chm)",
     }
-- 
2.43.0


From 13e0e82ae0bf18ed8489954bb1f2e6b5f54ea46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:43 +0000
Subject: [PATCH 106/108] fix: ACE: recovery block: read the flags, read the
 blocks once as body of the block; unknown blocks have the default handlers

---
 hachoir/parser/archive/ace.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hachoir/parser/archive/ace.py b/hachoir/parser/archive/ace.py
index b0e7c9a..1308fbf 100644
--- a/hachoir/parser/archive/ace.py
+++ b/hachoir/parser/archive/ace.py
@@ -148,7 +148,6 @@ def fileDesc(self):
 
 def recoveryHeader(self):
     yield filesizeHandler(UInt32(self, "rec_blk_size", "Size of recovery data"))
-    self.body_size = self["rec_blk_size"].size
     yield String(self, "signature", 7, "Signature, normally '**ACE**'")
     yield textHandler(UInt32(self, "relative_start",
                              "Relative start (to this block) of the data this block is mode of"),
@@ -156,6 +155,9 @@ def recoveryHeader(self):
     yield UInt32(self, "num_blocks", "Number of blocks the data is split into")
     yield UInt32(self, "size_blocks", "Size of these blocks")
     yield UInt16(self, "crc16_blocks", "CRC16 over recovery data")
+
+
+def recoveryBody(self):
     # size_blocks blocks of size size_blocks follow
     # The ultimate data is the xor data of all those blocks
     size = self["size_blocks"].value
@@ -165,7 +167,7 @@ def recoveryHeader(self):
 
 
 def recoveryDesc(self):
-    return "Recovery block, size=%u" % self["body_size"].display
+    return "Recovery block, size=%s" % self["rec_blk_size"].display
 
 
 def newRecoveryHeader(self):
@@ -210,7 +212,7 @@ class Block(FieldSet):
     TAG_INFO = {
         0: ("header", "Archiver header", markerFlags, markerHeader, None),
         1: ("file[]", fileDesc, fileFlags, fileHeader, fileBody),
-        2: ("recovery[]", recoveryDesc, recoveryHeader, None, None),
+        2: ("recovery[]", recoveryDesc, None, recoveryHeader, recoveryBody),
         5: ("new_recovery[]", None, None, newRecoveryHeader, None)
     }
 
@@ -218,6 +220,9 @@ class Block(FieldSet):
         FieldSet.__init__(self, parent, name, description)
         self.body_size = 0
         self.desc_func = None
+        self.parseFlags = None
+        self.parseHeader = None
+        self.parseBody = None
         type = self["block_type"].value
         if type in self.TAG_INFO:
             self._name, desc, self.parseFlags, self.parseHeader, self.parseBody = self.TAG_INFO[
-- 
2.43.0


From 91156432a0cceebe95ba6d8128d26b6c4623360f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:41 +0000
Subject: [PATCH 107/108] fix: ogg: Packets follows the link to the next
 fragment

---
 hachoir/parser/container/ogg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/container/ogg.py b/hachoir/parser/container/ogg.py
index 70e948d..65c47d9 100644
--- a/hachoir/parser/container/ogg.py
+++ b/hachoir/parser/container/ogg.py
@@ -178,7 +178,7 @@ class Packets:
                     if size:
                         yield size * 8
                     size = segment_size
-            fragment = fragment.__next__
+            fragment = fragment.next
         if size:
             yield size * 8
 
-- 
2.43.0


From 9d13987786550113edc570b7308465d2090fb371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:30 +0000
Subject: [PATCH 108/108] fix: pdf: unknown data of a comment line is added to
 the body

---
 hachoir/parser/misc/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hachoir/parser/misc/pdf.py b/hachoir/parser/misc/pdf.py
index bf2014d..a593e25 100644
--- a/hachoir/parser/misc/pdf.py
+++ b/hachoir/parser/misc/pdf.py
@@ -319,7 +319,7 @@ class Body(FieldSet):
             elif self.stream.readBytes(self.absolute_address + self.current_size, size).isalpha():
                 yield String(self, "comment[]", size)
             else:
-                RawBytes(self, "unknown_data[]", size)
+                yield RawBytes(self, "unknown_data[]", size)
             yield LineEnd(self, "line_end[]")
 
         # abs_offset = self.current_size//8
-- 
2.43.0

