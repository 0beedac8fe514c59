From 3f8cac93d0f756c6faef31ed7d1d4a97bb544e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 01/59] fix: do not count end of file as a line in FileWrapper

---
 castep_outputs/utilities/filewrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index 97a93cd..2139a0b 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -33,11 +33,11 @@ class FileWrapper:
         return self
 
     def __next__(self) -> str:
-        self._lineno += 1
         self._pos = self.file.tell()
         nextline = self.file.readline()
         if not nextline:
             raise StopIteration
+        self._lineno += 1
         return nextline
 
     def rewind(self) -> None:
-- 
2.43.0


From e897cff48e89702b10cb9d1c7d47ffcd6982b64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 02/59] fix: rewinding a fresh FileWrapper keeps the handle
 where it was

---
 castep_outputs/utilities/filewrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index 2139a0b..fe8fdb2 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -26,7 +26,7 @@ class FileWrapper:
 
     def __init__(self, file: TextIO) -> None:
         self._file = file
-        self._pos = 0
+        self._pos = file.tell()
         self._lineno = 0
 
     def __iter__(self) -> Self:
-- 
2.43.0


From a2142238439f1a646f4b7fd7ea71caa1b39a007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 03/59] fix: Block.get_lines reads exactly the lines asked for

---
 castep_outputs/tools/md_geom_parser.py  |  2 +-
 castep_outputs/utilities/filewrapper.py | 14 ++++++--------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/castep_outputs/tools/md_geom_parser.py b/castep_outputs/tools/md_geom_parser.py
index f26fa06..4e1f253 100644
--- a/castep_outputs/tools/md_geom_parser.py
+++ b/castep_outputs/tools/md_geom_parser.py
@@ -47,7 +47,7 @@ class MDGeomParser:
 
         while next(self._handle).strip():
             pass
-        self._frame_lines = self._handle.lineno - self._start_line - 1
+        self._frame_lines = self._handle.lineno - self._start_line
 
         self._frame_bytes = self._handle.tell() - self._start
         stat = self.file.stat()
diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index fe8fdb2..7beeb29 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -170,15 +170,13 @@ class Block:
         block = cls(in_file)
 
         data: list[str] = []
-        for i, line in enumerate(in_file, 1):
-            if i > n_lines:
-                break
+        for _, line in zip(range(n_lines), in_file):
             data.append(line)
-        else:
-            if not eof_possible:
-                if hasattr(in_file, "name"):
-                    raise OSError(f"Unexpected end of file in {in_file.name}.")
-                raise OSError("Unexpected end of file.")
+
+        if len(data) < n_lines and not eof_possible:
+            if hasattr(in_file, "name"):
+                raise OSError(f"Unexpected end of file in {in_file.name}.")
+            raise OSError("Unexpected end of file.")
 
         block._data = tuple(data)
         return block
-- 
2.43.0


From b79948cdfc58b1869db05e4f7ebaee7b199ce45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 04/59] fix: flatten_dict uses the separator below sequences
 too

---
 castep_outputs/utilities/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 7e920d8..ceb67e3 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -325,7 +325,7 @@ def flatten_dict(
             items.extend(flatten_dict(value, new_key, separator).items())
         elif isinstance(value, (list, tuple)):
             for keyx, val in enumerate(value):
-                items.extend(flatten_dict({str(keyx): val}, new_key).items())
+                items.extend(flatten_dict({str(keyx): val}, new_key, separator).items())
         else:
             items.append((new_key, value))
     return dict(items)
-- 
2.43.0


From f3c9927342adafe3bb218ada1d5b18fe73ff3f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 05/59] fix: strip_comments takes comment markers literally

---
 castep_outputs/utilities/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index ceb67e3..2b12bbb 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -479,7 +479,7 @@ def _strip_inline_comments(
     >>> '|'.join(_strip_inline_comments(inp, comment_char={"#",}))
     'Hello|End of line'
     """
-    comment_re = re.compile(f"({'|'.join(comment_char)})")
+    comment_re = re.compile(f"({'|'.join(map(re.escape, comment_char))})")
 
     for line in data:
         line = comment_re.split(line)[0].rstrip()
@@ -526,7 +526,7 @@ def _strip_initial_comments(
     >>> '|'.join(_strip_initial_comments(inp, comment_char={"#",}))
     'Hello|End of line # comment'
     """
-    comment_re = re.compile(rf"^\s*({'|'.join(comment_char)})")
+    comment_re = re.compile(rf"^\s*({'|'.join(map(re.escape, comment_char))})")
     out = cast("Iterable[str]", filterfalse(comment_re.match, data))
     out = map(str.rstrip, out)
     out = filter(None, out)
-- 
2.43.0


From 6438749e12b1293a3679763a849ef7acf10083c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 06/59] fix: a truncated Fortran record is an error

---
 castep_outputs/bin_parsers/fortran_bin_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/bin_parsers/fortran_bin_parser.py b/castep_outputs/bin_parsers/fortran_bin_parser.py
index e375925..3b3e8e6 100644
--- a/castep_outputs/bin_parsers/fortran_bin_parser.py
+++ b/castep_outputs/bin_parsers/fortran_bin_parser.py
@@ -55,7 +55,10 @@ class FortranBinaryReader:
 
         size = int.from_bytes(bin_size, "big")
         data = self.file.read(size)
-        self.file.read(4)
+
+        if len(bin_size) < 4 or len(data) < size or len(self.file.read(4)) < 4:
+            raise OSError("Unexpected end of file inside record.")
+
         return data
 
     def rewind(self, n: int = 1, /) -> None:
-- 
2.43.0


From 1938a195edbe24b3a83e9fafb6dd8e7eaa5d3c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 07/59] fix: reading a layout past the end of a Fortran file is
 an error

---
 castep_outputs/bin_parsers/fortran_bin_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/bin_parsers/fortran_bin_parser.py b/castep_outputs/bin_parsers/fortran_bin_parser.py
index 3b3e8e6..d12d71b 100644
--- a/castep_outputs/bin_parsers/fortran_bin_parser.py
+++ b/castep_outputs/bin_parsers/fortran_bin_parser.py
@@ -218,7 +218,12 @@ class FortranBinaryReader:
         :
             Loaded data.
         """
-        return {
+        out = {
             key: parse_bytes(datum, typ)
             for (key, typ), datum in zip(dtypes.items(), self, strict=False)
         }
+
+        if len(out) < len(dtypes):
+            raise OSError(f"Unexpected end of file, expected {len(dtypes)} records got {len(out)}.")
+
+        return out
-- 
2.43.0


From a1eeca27ab5ad528b95404cd7d40e1d98771a409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 08/59] fix: keep grids of a single slab apart in cst_esp files

---
 castep_outputs/bin_parsers/cst_esp_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/bin_parsers/cst_esp_file_parser.py b/castep_outputs/bin_parsers/cst_esp_file_parser.py
index 374ac38..328956f 100644
--- a/castep_outputs/bin_parsers/cst_esp_file_parser.py
+++ b/castep_outputs/bin_parsers/cst_esp_file_parser.py
@@ -47,7 +47,7 @@ def parse_cst_esp_file(cst_esp_file: BinaryIO) -> ESPData:
     accum["esp"] = []
     for datum in reader:
         nx, _ny = parse_bytes(datum[:8], (int, ...))
-        if prev_nx != nx and curr:
+        if curr and (prev_nx != nx or len(curr) == accum["grid"][1]):
             accum["esp"].append(curr)
             curr = []
         curr.append(parse_bytes(datum[8:], (complex, ...)))
-- 
2.43.0


From e50b06ec2b22f831594ed000c60fcc59ca48cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 09/59] fix: json_safe reaches values inside sequences

---
 castep_outputs/utilities/utility.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 2b12bbb..4f79108 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -281,6 +281,10 @@ def json_safe(obj):
         obj = obj_out
     elif isinstance(obj, complex):
         obj: ComplexDict = {"real": obj.real, "imag": obj.imag}
+    elif isinstance(obj, list):
+        obj = [json_safe(val) for val in obj]
+    elif isinstance(obj, tuple):
+        obj = tuple(json_safe(val) for val in obj)
     return obj
 
 
-- 
2.43.0


From ac96e8dc6abc2adda3cf847319fea348cbc35288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 10/59] fix: flatten_dict keeps a zero key in the path

---
 castep_outputs/utilities/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 4f79108..b87d81a 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -324,7 +324,7 @@ def flatten_dict(
     items: list[tuple[Any, Any]] = []
     for key, value in dictionary.items():
         # Temporary hack because `None` used as key in species_pot
-        new_key = f"{parent_key}{separator}{key}" if parent_key else key
+        new_key = f"{parent_key}{separator}{key}" if parent_key != "" else key
         if isinstance(value, collections.abc.MutableMapping):
             items.extend(flatten_dict(value, new_key, separator).items())
         elif isinstance(value, (list, tuple)):
-- 
2.43.0


From 8a882fb785f5a1b39ca94dd8941d9970b163cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:23 +0000
Subject: [PATCH 11/59] fix: blank lines holding spaces separate md/geom frames

---
 castep_outputs/parsers/md_geom_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/md_geom_file_parser.py b/castep_outputs/parsers/md_geom_file_parser.py
index a6ed344..31082fb 100644
--- a/castep_outputs/parsers/md_geom_file_parser.py
+++ b/castep_outputs/parsers/md_geom_file_parser.py
@@ -5,7 +5,7 @@ from __future__ import annotations
 from collections import defaultdict
 from typing import TextIO, TypedDict
 
-from castep_outputs.utilities.castep_res import ATOMIC_DATA_TAG, TAG_RE, get_numbers
+from castep_outputs.utilities.castep_res import ATOMIC_DATA_TAG, EMPTY, TAG_RE, get_numbers
 from castep_outputs.utilities.constants import FST_D, TAG_ALIASES
 from castep_outputs.utilities.datatypes import AtomIndex, ThreeByThreeMatrix, ThreeVector
 from castep_outputs.utilities.filewrapper import Block, FileWrapper
@@ -171,7 +171,7 @@ def parse_md_geom_file(md_geom_file: TextIO | FileWrapper | Block) -> list[MDGeo
     _comment = parse_header(md_geom_file)
 
     steps = []
-    while block := Block.from_re("", md_geom_file, "", "^$", eof_possible=True):
+    while block := Block.from_re("", md_geom_file, "", EMPTY, eof_possible=True):
         steps.append(parse_md_geom_frame(block))
 
     if not steps:
-- 
2.43.0


From 8ea61b2d43068be9675e0d570c031fde3ecd6847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 12/59] fix: MDGeomParser counts a last frame that lacks its
 closing blank line

---
 castep_outputs/tools/md_geom_parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/tools/md_geom_parser.py b/castep_outputs/tools/md_geom_parser.py
index 4e1f253..819aa9f 100644
--- a/castep_outputs/tools/md_geom_parser.py
+++ b/castep_outputs/tools/md_geom_parser.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import math
 from collections.abc import Generator, Iterable
 from functools import singledispatchmethod
 from pathlib import Path
@@ -45,8 +46,9 @@ class MDGeomParser:
         self._start = self._handle.tell()
         self._start_line = self._handle.lineno
 
-        while next(self._handle).strip():
-            pass
+        for line in self._handle:
+            if not line.strip():
+                break
         self._frame_lines = self._handle.lineno - self._start_line
 
         self._frame_bytes = self._handle.tell() - self._start
@@ -66,7 +68,7 @@ While iteration should work, extracting particular frames may not.
                 level="warning",
             )
 
-        self._len = int(len_est)
+        self._len = math.ceil(len_est)  # Last frame may lack its trailing blank line.
         self._go_to_frame(0)
 
     @property
-- 
2.43.0


From d9a9f4ddbdbaf7684018bd22d541ab0301575f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:39 +0000
Subject: [PATCH 13/59] fix: the title of a .ts file is not the start of an
 image

---
 castep_outputs/parsers/ts_file_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/ts_file_parser.py b/castep_outputs/parsers/ts_file_parser.py
index 37407a9..8340ba5 100644
--- a/castep_outputs/parsers/ts_file_parser.py
+++ b/castep_outputs/parsers/ts_file_parser.py
@@ -72,7 +72,8 @@ def parse_ts_file(ts_file: TextIO) -> TSFileInfo:
         if "TSConfirmation" in line:
             accum["confirmation"] = True
 
-        elif block := Block.from_re(line, ts_file, "(REA|PRO|TST)", r"^\s*$", eof_possible=True):
+        elif block := Block.from_re(line, ts_file, r"^\s*(REA|PRO|TST)\b", r"^\s*$",
+                                    eof_possible=True):
             curr = defaultdict(list)
             match = re.match(r"\s*(?P<type>REA|PRO|TST)\s*\d+\s*" +
                              labelled_floats(("reaction_coordinate",)), line)
-- 
2.43.0


From 830788e256e930ad0691f791096416f1db824caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 14/59] fix: spin-polarised .bands headers keep every value

---
 castep_outputs/parsers/bands_file_parser.py | 2 +-
 castep_outputs/parsers/parse_utilities.py   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/bands_file_parser.py b/castep_outputs/parsers/bands_file_parser.py
index 930dc5e..9efee9b 100644
--- a/castep_outputs/parsers/bands_file_parser.py
+++ b/castep_outputs/parsers/bands_file_parser.py
@@ -63,7 +63,7 @@ def parse_bands_file(bands_file: TextIO) -> BandsFileInfo:
     current: Literal["band", "band_up", "band_down"] = "band"
 
     block = Block.from_re("", bands_file, "", REs.THREEVEC_RE, n_end=3)
-    data = parse_regular_header(block, ("Fermi energy",))
+    data = parse_regular_header(block, ("Fermi energy", "Fermi energies"))
     bands_info.update(data)
 
     for line in bands_file:
diff --git a/castep_outputs/parsers/parse_utilities.py b/castep_outputs/parsers/parse_utilities.py
index ea2ab3c..9a069c5 100644
--- a/castep_outputs/parsers/parse_utilities.py
+++ b/castep_outputs/parsers/parse_utilities.py
@@ -39,7 +39,11 @@ def parse_regular_header(block: Block,
     for line in block:
         if line.strip().startswith("Number of"):
             _, _, *key, val = line.split()
-            data[" ".join(key)] = int(float(val))
+            vals = [val]
+            while REs.NUMBER_RE.fullmatch(key[-1]):  # One value per spin component
+                vals.insert(0, key.pop())
+            vals = tuple(int(val) if val.is_integer() else val for val in to_type(vals, float))
+            data[" ".join(key)] = vals if len(vals) > 1 else vals[0]
         elif "Unit cell vectors" in line:
             data["unit_cell"] = [to_type(next(block).split(), float)
                                  for _ in range(3)]
-- 
2.43.0


From 3213b6e2192f86eae4160ae61bf4503b962ca493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 15/59] fix: keep atoms with tagged species in file headers

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 00da67e..63848bf 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -570,7 +570,7 @@ MAGRES_TASK = (
 # Regexp to identify block in .phonon or .phonon_dos file
 FRACCOORDS_RE = re.compile(
     rf"\s*(?P<index>{INTNUMBER_RE}){labelled_floats(('u', 'v', 'w'))}"
-    rf"\s*(?P<spec>{SPECIES_RE}){labelled_floats(('mass',))}",
+    rf"\s*(?P<spec>{ATOM_NAME_RE}){labelled_floats(('mass',))}",
 )
 
 PHONON_PHONON_RE = re.compile(
-- 
2.43.0


From 7c3774e4151624b941181f61e417ef52dd7e5495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 16/59] fix: tagged species in .phonon_dos tables

---
 castep_outputs/parsers/phonon_dos_file_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/phonon_dos_file_parser.py b/castep_outputs/parsers/phonon_dos_file_parser.py
index e3ae6ca..a535830 100644
--- a/castep_outputs/parsers/phonon_dos_file_parser.py
+++ b/castep_outputs/parsers/phonon_dos_file_parser.py
@@ -123,13 +123,14 @@ def parse_phonon_dos_file(phonon_dos_file: TextIO) -> PhononDosFileInfo:
             # First chunk is " BEGIN DOS   Freq (cm-1)  g(f)", thus need the 5th on
             species = block[0].split()[5:]
             headers = ("freq", "g", *species)
-            rows = re.compile(labelled_floats(headers))
+            # Species (e.g. "H:tag") need not be valid group names
+            rows = re.compile(labelled_floats([f"col_{ind}" for ind, _ in enumerate(headers)]))
 
             block.remove_bounds(1, 2)
 
             for line in block:
                 match = rows.match(line)
-                stack_dict(dos, match.groupdict())
+                stack_dict(dos, dict(zip(headers, match.groups())))
 
             if dos:
                 fix_data_types(dos, dict.fromkeys(headers, float))
-- 
2.43.0


From 961b7a79f98460c8b2af8b748bc0e296f4ebdae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:43 +0000
Subject: [PATCH 17/59] fix: determine_type looks at the whole text

---
 castep_outputs/utilities/type_conv.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/utilities/type_conv.py b/castep_outputs/utilities/type_conv.py
index f18b914..3b0a083 100644
--- a/castep_outputs/utilities/type_conv.py
+++ b/castep_outputs/utilities/type_conv.py
@@ -87,15 +87,14 @@ def determine_type(data: str) -> type:
     if data.title() in {"T", "True", "F", "False"}:
         return bool
 
-    if re.match(rf"(?:\s*{REs.EXPFNUMBER_RE})+", data):
-        return float
-
-    if re.match(rf"(?:\s*{REs.RATIONAL_RE})+", data):
-        return float
+    words = data.split()
 
-    if re.match(rf"(?:\s*{REs.INTNUMBER_RE})+", data):
+    if words and all(re.fullmatch(REs.INTNUMBER_RE, word) for word in words):
         return int
 
+    if words and all(REs.FLOAT_RAT_RE.fullmatch(word) for word in words):
+        return float
+
     return str
 
 
-- 
2.43.0


From 5e5e4cb5b970844fbad15def78d1ec63ce7be6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:51 +0000
Subject: [PATCH 18/59] fix: signed ratios are read whole

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 63848bf..f4babaa 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -209,7 +209,7 @@ EXPFNUMBER_RE = f"(?:{EXPNUMBER_RE}|{FNUMBER_RE})"
 #: Integer ratio.
 #:
 #: :meta hide-value:
-RATIONAL_RE = rf"\b{INTNUMBER_RE}/{INTNUMBER_RE}\b"
+RATIONAL_RE = rf"(?:\b|(?<!\w)){INTNUMBER_RE}/{INTNUMBER_RE}\b"
 
 #: Generalised number.
 #:
-- 
2.43.0


From 0c27823947d5bc8bc2af937ccd0503cd249e7800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:51 +0000
Subject: [PATCH 19/59] fix: keywords with digits, ratios, or values starting
 like a number are kept

---
 castep_outputs/parsers/cell_param_file_parser.py |  2 +-
 castep_outputs/utilities/castep_res.py           | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index c6ffb76..620badf 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -160,7 +160,7 @@ def parse_cell_param_file(cell_param_file: TextIO) -> list[CellParamData]:
             key = key.strip().lower()
             logger("Found param %s", key)
 
-            if " " in val.strip():
+            if len(val.split()) > 1:
                 val = to_type(val.split(), determine_type(val))
             else:
                 val = to_type(val, determine_type(val))
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index f4babaa..5e238e1 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -599,13 +599,14 @@ DEVEL_CODE_BLOCK_GENERIC_RE = r"([A-Za-z0-9_]+):(?:.*):end\1"
 
 PARAM_VALUE_RE = re.compile(
     rf"""
-^\s*(?P<key>[a-z_]+)
-\s*[ \t:=]\s*
-    (?:(?P<val>(?:\s*{NUMBER_RE.pattern})+)|
-    # String starts with anything which is NOT digit,+,-,. or space.
-    (?P<str>[^-+\d\s.](?:\s*\S+)*))
+^\s*(?P<key>[a-z_][a-z0-9_]*)
+(?:\s*[:=]\s*|\s+(?![:=]))
+    (?:
     # If numeric value, chance of unit
-    (?(val)(?P<unit>\s\S+)?)
+    (?P<val>{FLOAT_RAT_RE.pattern}(?:\s+{FLOAT_RAT_RE.pattern})*)(?:\s+(?P<unit>\S+))?|
+    # Otherwise the rest of the line is a string.
+    (?P<str>\S(?:.*\S)?)
+    )
 \s*$
 """,
     re.IGNORECASE | re.VERBOSE,
-- 
2.43.0


From ca937a6247463f67bf0c555e20ce08aef0800d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:58 +0000
Subject: [PATCH 20/59] fix: keep logical keywords given without a value

---
 castep_outputs/parsers/cell_param_file_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 620badf..5f9833c 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -171,6 +171,11 @@ def parse_cell_param_file(cell_param_file: TextIO) -> list[CellParamData]:
             else:
                 curr[key] = val
 
+        elif match := re.match(r"\s*([a-z_][a-z0-9_]*)\s*$", line, re.IGNORECASE):
+            # Logical keyword without value, e.g. SYMMETRY_GENERATE
+            logger("Found param %s", match[1])
+            curr[match[1].lower()] = True
+
     return [curr]
 
 
-- 
2.43.0


From 8f0bb8244e75dce53a2b9d1e77f0cd45b0ec0732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:06 +0000
Subject: [PATCH 21/59] fix: a tab may follow %block

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 5f9833c..d19caa3 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -138,7 +138,7 @@ def parse_cell_param_file(cell_param_file: TextIO) -> list[CellParamData]:
         if block := Block.from_re(
             line,
             cell_param_file,
-            re.compile(r"^\s*%block ", re.IGNORECASE),
+            re.compile(r"^\s*%block\s", re.IGNORECASE),
             re.compile(r"^\s*%endblock", re.IGNORECASE),
         ):
             block_title = next(block).split()[1].lower()
-- 
2.43.0


From e9cc024a1ad91a63a4ca20a8cdaca6acc92e160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 22/59] fix: ionic constraints numbered 10 and above are kept

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 5e238e1..020517d 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -612,7 +612,7 @@ PARAM_VALUE_RE = re.compile(
     re.IGNORECASE | re.VERBOSE,
 )
 
-IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d\s+{ATOM_RE}{THREEVEC_RE}")
+IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d+\s+{ATOM_RE}{THREEVEC_RE}")
 POSITIONS_LINE_RE = re.compile(
     rf"^\s*(?P<spec>{SPECIES_RE})"
     rf"(?P<pos>(?:\s+{FLOAT_RAT_RE.pattern}){{3}})",
-- 
2.43.0


From ed44f36d8f477d511719fa6001f3daf19fed444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:54 +0000
Subject: [PATCH 23/59] fix: keep positions of atoms with tagged species

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 020517d..6c51652 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -614,7 +614,7 @@ PARAM_VALUE_RE = re.compile(
 
 IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d+\s+{ATOM_RE}{THREEVEC_RE}")
 POSITIONS_LINE_RE = re.compile(
-    rf"^\s*(?P<spec>{SPECIES_RE})"
+    rf"^\s*(?P<spec>{ATOM_NAME_RE})"
     rf"(?P<pos>(?:\s+{FLOAT_RAT_RE.pattern}){{3}})",
 )
 POSITIONS_SPIN_RE = re.compile(
-- 
2.43.0


From aa58caab57629c047264c0e76d8b4771bb9634c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:02 +0000
Subject: [PATCH 24/59] fix: mixtures are recognised whatever the space inside
 the brackets

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 6c51652..f9fee09 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -622,7 +622,7 @@ POSITIONS_SPIN_RE = re.compile(
     re.IGNORECASE,
 )
 POSITIONS_MIXTURE_RE = re.compile(
-    rf"mixture[= :\t]\(\s*{labelled_floats(('mix', 'ratio'))}\)",
+    rf"mixture\s*[= :\t]\s*\(\s*(?P<mix>{INTNUMBER_RE})\s+(?P<ratio>{NUMBER_RE.pattern})\s*\)",
     re.IGNORECASE,
 )
 SPEC_PROP_RE = re.compile(rf"\s*{ATOM_NAME_RE}\s+(?P<val>.*)")
-- 
2.43.0


From 2a64abfb3a660319df9e85993b41bd74b29d03a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 25/59] fix: absolute positions of intermediate and product
 keep their units

---
 castep_outputs/parsers/cell_param_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index d19caa3..c3b614c 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -719,8 +719,8 @@ _PARSERS: dict[str, Callable] = {
     "positions_frac_intermediate": _parse_positions,
     "positions_frac_product": _parse_positions,
     "positions_abs": _parse_positions_abs,
-    "positions_abs_intermediate": _parse_positions,
-    "positions_abs_product": _parse_positions,
+    "positions_abs_intermediate": _parse_positions_abs,
+    "positions_abs_product": _parse_positions_abs,
     "positions_aspectral_intermediate": _parse_positions,
     "positions_aspectral_product": _parse_positions,
     "species_pot": _parse_species_pot,
-- 
2.43.0


From db88bf1a940799514de244bd0966de3cb1c82043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 26/59] fix: a species with one dispersion parameter is not a
 pair of units

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index c3b614c..8bbed5a 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -555,7 +555,7 @@ def _parse_sedc(block: Block) -> dict[str, dict[str, float]]:
     accum = {}
 
     test = next(block)
-    if len(units := test.split()) == 2:
+    if len(units := test.split()) == 2 and ":" not in test:
         units = tuple(units)
     else:
         block.rewind()
-- 
2.43.0


From ff97d4fc62dc6221cdef52a90bc718114ac9f571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 27/59] fix: digits in the units of a block are not data

---
 castep_outputs/parsers/cell_param_file_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 8bbed5a..d3c75c1 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -694,7 +694,8 @@ def _parse_general(block: Block) -> GeneralBlock:
 
             block_data["data"][spec] = val
 
-        elif numbers := REs.FLOAT_RAT_RE.findall(line):
+        elif REs.FLOAT_RAT_RE.fullmatch(line.split()[0]):
+            numbers = REs.FLOAT_RAT_RE.findall(line)
             assert isinstance(block_data["data"], list)
             block_data["data"].append(to_type(numbers, float))
 
-- 
2.43.0


From 1d50a51eb6150bedfc4d843a809d1ef2a17421a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 28/59] fix: devel_code values holding separators, repeated
 groups and digits in words are kept

---
 .../parsers/cell_param_file_parser.py         | 21 ++++++++++++-------
 castep_outputs/utilities/castep_res.py        |  2 +-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index d3c75c1..a4a975d 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -354,15 +354,15 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
     # Get groups
     for blk in matches:
         block_title = normalise_key(blk.group(1))
-        block_str = blk.group(0).split(":")[1]
+        block_str = blk.group(2)
         block: DevelBlock = {}
         for par in re.finditer(REs.DEVEL_CODE_VAL_RE, block_str, re.IGNORECASE | re.MULTILINE):
-            key, val = re.split(r"[:=]", par.group(0))
+            key, val = re.split(r"[:=]", par.group(0), maxsplit=1)
             key = normalise_key(key)
             typ = determine_type(val)
             block[key] = to_type(val, typ)
-            block_str = block_str.replace(par.group(0), "")
 
+        block_str = re.sub(rf"{REs.DEVEL_CODE_VAL_RE};?", "", block_str)
         if block_str.strip():
             block["data"] = []
             for par in block_str.split():
@@ -374,12 +374,17 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
         else:
             devel_code_parsed[block_title] = block
 
-        # Remove matched to get remainder
-        main_block = main_block.replace(blk.group(0), "")
+    # Remove matched to get remainder
+    main_block = re.sub(
+        REs.DEVEL_CODE_BLOCK_GENERIC_RE,
+        " ",
+        main_block,
+        flags=re.IGNORECASE | re.MULTILINE,
+    )
 
     # Catch remainder
     for par in re.finditer(REs.DEVEL_CODE_VAL_RE, main_block):
-        key, val = re.split(r"[:=]", par.group(0))
+        key, val = re.split(r"[:=]", par.group(0), maxsplit=1)
         key = normalise_key(key)
         typ = determine_type(val)
 
@@ -388,10 +393,12 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
 
         devel_code_parsed[key] = to_type(val, typ)
 
+    main_block = re.sub(REs.DEVEL_CODE_VAL_RE, "", main_block)
+
     # Catch present components
     present_code_re = re.compile(r"""
         (?<![:=])        # Does not follow : or =
-        \b[A-Za-z_-]+\b  # One "word"
+        \b[A-Za-z_][A-Za-z0-9_-]*\b  # One "word"
         (?![:=])         # Not followed by : or =
     """, re.VERBOSE)
 
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index f9fee09..568ab3e 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -595,7 +595,7 @@ BANDS_FERMI_RE = re.compile(
 
 DEVEL_CODE_VAL_RE = r"[A-Za-z0-9_]+[:=][^ \t\n;]+"
 DEVEL_CODE_BLOCK_RE = rf"([A-Za-z0-9_]+):(?:\s*{DEVEL_CODE_VAL_RE}\s*)*:end\1"
-DEVEL_CODE_BLOCK_GENERIC_RE = r"([A-Za-z0-9_]+):(?:.*):end\1"
+DEVEL_CODE_BLOCK_GENERIC_RE = r"\b([A-Za-z0-9_]+):(.*?):end\1\b"
 
 PARAM_VALUE_RE = re.compile(
     rf"""
-- 
2.43.0


From bee7c26bf8f222f7f0688d6ba4a777fd52011d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 29/59] fix: projector energies of pseudopotential strings keep
 their sign

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 568ab3e..04a3f12 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -322,7 +322,7 @@ PSPOT_PROJ_RE = re.compile(
     rf"""
     (?P<type>[{PROJ_TYPES}])
     (?P<beta_rc> {FP_NUM_RE})?
-    (?:(?:=[+-]?|[+-]) (?P<beta_e> {FP_NUM_RE}))?
+    (?:(?:=|(?=[+-])) (?P<beta_e> [+-]?{FP_NUM_RE}))?
     (?:@(?P<beta_delta>{FP_NUM_RE}))?
     """,
     re.VERBOSE,
-- 
2.43.0


From c24fbef7b0e3aa7489ece32933bdd79604fda05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:04 +0000
Subject: [PATCH 30/59] fix: pseudopotential strings may start with a local
 energy

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 04a3f12..d65bce9 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -355,7 +355,7 @@ PSPOT_DEF_RE = re.compile(
 # PSPot String
 PSPOT_INFO_RE = re.compile(
     rf"""^
-    -?{labelled_floats(("local_energy",), suffix="=")}?
+    -?{labelled_floats(("local_energy",), sep="", suffix="=")}?
     -?(?P<local_channel>\d+)-?\|
     {labelled_floats(("core_radius",), sep="")}\|
     (?:{labelled_floats(("beta_radius",), sep="")}\|)?
-- 
2.43.0


From d2937e0e95160baa8ac385f01e659da73319da17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 31/59] fix: keep the last digit of a unitless pair-potential
 parameter

The unit was mandatory, so where none is printed the regular expression took
the last digit of the number for it.
---
 castep_outputs/utilities/castep_res.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index d65bce9..94185c0 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -405,8 +405,8 @@ PAIR_POT_RES = {
         rf"""
             (?P<tag>\w+)?\s*\*\s*
             (?P<label>\w+)\s*
-            {labelled_floats(("params",), counts=("1,4",))}\s*
-            [\w^/*]+\s* \* \s*
+            {labelled_floats(("params",), counts=("1,4",))}
+            (?:\s+[\w^/*]+)?\s* \* \s*
             <--\s*(?P<type>\w+)
             """,
         re.ASCII | re.VERBOSE,
@@ -422,8 +422,8 @@ PAIR_POT_RES = {
         rf"""
         ^(?P<tag>\w+)?\s*\*\s*
         (?P<label>\w+)\s*
-        {labelled_floats(("params",))}\s*
-        [\w^/*]+\s* \* \s*
+        {labelled_floats(("params",))}
+        (?:\s+[\w^/*]+)?\s* \* \s*
         <--\s*(?P<type>\w+)
         """,
         re.VERBOSE,
-- 
2.43.0


From dde087913bf79e809046f52dd6a592bf643c1405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 32/59] fix: read DFT-D coefficients of tagged species

A species row with a tag (H:tag) holds a colon, and was taken for a
'key : value' line.
---
 castep_outputs/parsers/castep_file_parser.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 94b612d..8d93a59 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2301,7 +2301,12 @@ def _process_dftd(block: Block) -> dict[str, Any]:
     val: Any
 
     for line in block:
-        if len(match := line.split(":")) == 2:
+        if match := re.match(rf"\s*x\s*(?P<spec>{REs.ATOM_NAME_RE})\s*" +
+                             labelled_floats(("C6", "R0")), line):
+            dftd["species"][match["spec"]] = {"c6": float(match["C6"]),
+                                              "r0": float(match["R0"])}
+
+        elif len(match := line.split(":")) == 2:
             key, val = match
             val = normalise_string(val)
             if "Parameter" in key:
@@ -2309,11 +2314,6 @@ def _process_dftd(block: Block) -> dict[str, Any]:
 
             dftd[normalise_key(key)] = val
 
-        elif match := re.match(rf"\s*x\s*(?P<spec>{REs.ATOM_NAME_RE})\s*" +
-                               labelled_floats(("C6", "R0")), line):
-            dftd["species"][match["spec"]] = {"c6": float(match["C6"]),
-                                              "r0": float(match["R0"])}
-
     return dftd
 
 
-- 
2.43.0


From 457ec0b42789adad7f9de496ee9a6051ccf19d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 33/59] fix: keep the part of an option's value before a colon

The line was split at every colon, so what came between the first and the last
became part of the option's name.
---
 castep_outputs/parsers/castep_file_parser.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 8d93a59..1962f99 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1623,8 +1623,8 @@ def _process_params(block: Block) -> dict[str, dict[str, str | tuple[Any, ...]]]
     curr_opt: dict[str, str | tuple[Any, ...]] = {}
     curr_group = ""
 
-    match: re.Match | list[str] | None
-    key: str | list[str]
+    match: re.Match | None
+    key: str
     val: Any
 
     for line in block:
@@ -1648,15 +1648,20 @@ def _process_params(block: Block) -> dict[str, dict[str, str | tuple[Any, ...]]]
             key, val = map(normalise_string, match.group("key", "val"))
             opt["output_units"][key] = val
 
-        elif len(match := line.split(":")) > 1:
-            *key, val = map(normalise_string, match)
+        elif ":" in line:
+            # Names and values may both hold colons
+            key, sep, val = line.partition(" :")
+            if not sep:
+                key, _, val = line.rpartition(":")
+
+            key, val = map(normalise_string, (key.replace(":", " "), val))
             if val.split() and REs.NUMBER_RE.match(val.split()[0]):
                 val, *unit = val.split()
                 val = to_type(val, determine_type(val))
                 if unit:
                     val = (val, *unit)
 
-            curr_opt[" ".join(key).strip()] = val
+            curr_opt[key] = val
 
     if curr_opt:
         opt[curr_group] = curr_opt
-- 
2.43.0


From 542266e083248172f3516fe85e3488fddfd275c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 34/59] fix: read the k-points numbered ten and above

The row's number was taken to be one digit.
---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 1962f99..5a2e6fb 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2114,7 +2114,7 @@ def _process_kpoint_blocks(block: Block, *,
             elif "Number of kpoints" in line:
                 accum["num_kpoints"] = to_type(get_numbers(line)[0], int)
     else:
-        kp_block_re = re.compile(gen_table_re(r"\d\s*" + labelled_floats(("qx", "qy", "qz", "wt")),
+        kp_block_re = re.compile(gen_table_re(r"\d+\s*" + labelled_floats(("qx", "qy", "qz", "wt")),
                                               r"\+"))
         accum: KPointsList = {"points": [{"qpt": to_type(match.group("qx", "qy", "qx"), float),
                                           "weight": to_type(match["wt"], float)}
-- 
2.43.0


From a9f68e55a0e55a360067a4b0bccb84de8abf3106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 35/59] fix: read tagged three-body pair potentials

The end of the block was not recognised behind a tag, so the file was said to
end unexpectedly.
---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 5a2e6fb..769daa4 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2482,7 +2482,7 @@ def _process_pair_params(block_in: Block) -> dict[str, dict[str, dict | str]]:
                     labels = ((match["spec"],),)
 
         # Three-body
-        elif block := Block.from_re(line, block_in, "Three Body", r"^\s*\*+\s*$"):
+        elif block := Block.from_re(line, block_in, "Three Body", r"^\w*\s*\*+\s*$"):
             for blk_line in block:
                 if match := REs.PAIR_POT_RES["three_body_spec"].match(blk_line):
                     labels = (tuple(match["spec"].split()),)
-- 
2.43.0


From 6e85cb31f648b3f02efafbc201845206ebbe17f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 36/59] fix: do not drop the line after a one-line warning

The line that showed the warning to have no continuation was read and lost.
---
 castep_outputs/parsers/castep_file_parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 769daa4..113275e 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -280,10 +280,9 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             warn = line.strip()
 
-            for tst, line in enumerate(castep_file):
+            for line in castep_file:
                 if not line.strip() or not re.match(match.group(1) + r"\s+", line):
-                    if tst:
-                        castep_file.rewind()
+                    castep_file.rewind()
                     break
                 warn += " " + line.strip()
 
-- 
2.43.0


From fbaca15d4bd7715b0bf83d6f828ae7efd8b82b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 37/59] fix: read SCF tables without a Fermi energy

Where the occupancies are fixed there is no Fermi energy column. The row
Initial was dropped, and the energy gain of the others was taken for the Fermi
energy.
---
 castep_outputs/parsers/castep_file_parser.py | 8 +++++++-
 castep_outputs/utilities/castep_res.py       | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 113275e..4a888b6 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1713,12 +1713,18 @@ def _process_scf(block: Block) -> list[SCFReport]:
     scf = []
     curr: SCFReport = {}
     debug_info: SCFDebugInfo = {}
+    has_fermi = True
     for line in block:
-        if match := REs.SCF_LOOP_RE.match(line):
+        if line.startswith("SCF loop"):
+            has_fermi = "Fermi" in line
+
+        elif match := REs.SCF_LOOP_RE.match(line):
             if curr:
                 scf.append(curr)
 
             curr = match.groupdict()
+            if not has_fermi:
+                curr["fermi_energy"], curr["energy_gain"] = None, curr["fermi_energy"]
             if debug_info:  # Debug info refers to next cycle
                 curr["debug_info"] = debug_info
             debug_info = {}
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 94185c0..0f0e91f 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -295,7 +295,8 @@ MIXTURE_LINE_2_RE = re.compile(rf"(?P<spec>{ATOM_NAME_RE})\s+{labelled_floats(('
 # SCF Loop
 SCF_LOOP_RE = re.compile(
     r"\s*(?:Initial|\d+)\s*"
-    rf"{labelled_floats(('energy', 'fermi_energy', 'energy_gain'))}?\s*"
+    rf"{labelled_floats(('energy',))}"
+    rf"{labelled_floats(('fermi_energy',))}?{labelled_floats(('energy_gain',))}?\s*"
     f"{labelled_floats(('time',))}",
 )
 
-- 
2.43.0


From 1e658c2e8cf62865d8ab222771926c3b1677bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 38/59] fix: read finite basis corrections from ten or more
 cut-offs

The number of cut-off energies was taken to be one digit.
---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 4a888b6..80d2cd4 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -475,7 +475,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             curr_run["occupancies"].append(_process_occupancies(block))
 
         # SCF Basis set
-        elif match := re.search(r" with +(\d) +cut-off energies.", line):
+        elif match := re.search(r" with +(\d+) +cut-off energies.", line):
 
             if Filters.SCF not in to_parse:
                 continue
-- 
2.43.0


From 2f83dce812da14573f01121190320ee665e03d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 39/59] fix: keep a spin of zero in the bond analysis

A spin printed as 0.00 was dropped as though the table had no spins.
---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 80d2cd4..34c7732 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2283,7 +2283,7 @@ def _process_bond_analysis(block: Block) -> BondData:
              if (match := REs.BOND_RE.match(line))}
 
     for val in accum.values():
-        if not val["spin"]:
+        if val["spin"] is None:
             del val["spin"]
 
     return accum
-- 
2.43.0


From 33976384ad87d709371cbb8557a623f15e86bdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 40/59] fix: read the populations of d and f orbitals

Only names with at most one axis (S, Px) were matched, so orbitals such as Dzz,
Dxx-yy or Fx(yy-zz) were left out.
---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 0f0e91f..d408fce 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -433,7 +433,7 @@ PAIR_POT_RES = {
 
 # Orbital population
 ORBITAL_POPN_RE = re.compile(
-    rf"\s*{ATOM_RE}\s*(?P<orb>[SPDF][xyz]?)"
+    rf"\s*{ATOM_RE}\s*(?P<orb>[SPDF][xyz()-]*)"
     rf"\s*{labelled_floats(('charge',))}",
 )
 
-- 
2.43.0


From faaf8eb13d2ff5b51f15d104768e42902f331e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 41/59] fix: MD and geometry steps keep their SCF cycles when
 these are asked for

---
 castep_outputs/parsers/castep_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 34c7732..401e7e9 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1018,7 +1018,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             # Avoid infinite recursion
             next(block)
-            data = get_only(parse_castep_file(block))
+            data = get_only(parse_castep_file(block, to_parse | Filters.HIGH))
             add_aliases(data, {"initial_positions": "positions",
                                "initial_cell": "cell"},
                         replace=True)
@@ -1079,7 +1079,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             logger("Found geom block (iteration %d)", len(curr_run["geom_opt"]["iterations"]) + 1)
             # Avoid infinite recursion
             next(block)
-            data = get_only(parse_castep_file(block))
+            data = get_only(parse_castep_file(block, to_parse | Filters.HIGH))
 
             add_aliases(data, {"initial_positions": "positions",
                                "initial_cell": "cell"},
-- 
2.43.0


From f24a6ce23cffbf8b6fe50153c2e6585d37aa6c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 42/59] fix: read a final configuration without its geometry
 steps

---
 castep_outputs/parsers/castep_file_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 401e7e9..e1b95fe 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1050,6 +1050,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             logger("Found final geom configuration")
 
+            curr_run.setdefault("geom_opt", defaultdict(list))
             curr_run["geom_opt"]["final_configuration"] = _process_final_config_block(block)
 
         elif block := Block.from_re(line, castep_file,
-- 
2.43.0


From 04787652dfbf0140b732d8c2ce888108c6c0ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 43/59] fix: skip the whole of a title, warning or electric
 field that is filtered out

---
 castep_outputs/parsers/castep_file_parser.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index e1b95fe..0d36143 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -273,11 +273,6 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
         elif match := re.match(r"(?:\s*[^:]+:)?(\s*)warning", line, re.IGNORECASE):
 
-            if Filters.SYS_INFO not in to_parse:
-                continue
-
-            logger("Found warning")
-
             warn = line.strip()
 
             for line in castep_file:
@@ -286,6 +281,11 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
                     break
                 warn += " " + line.strip()
 
+            if Filters.SYS_INFO not in to_parse:
+                continue
+
+            logger("Found warning")
+
             curr_run["warning"].append(warn)
 
         # Memory estimate
@@ -303,12 +303,14 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
         # Title
         elif re.match(gen_table_re("Title", r"\*+"), line):
 
+            title = next(castep_file).strip()
+
             if Filters.PARAMETERS not in to_parse:
                 continue
 
             logger("Found title")
 
-            curr_run["title"] = next(castep_file).strip()
+            curr_run["title"] = title
 
         # Parameters
         elif block := Block.from_re(line, castep_file,
@@ -745,11 +747,12 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
         elif "Applied Electric Field" in line:
 
+            line = next(castep_file)
+
             if Filters.PARAMETERS not in to_parse:
                 continue
 
             logger("Found electric field")
-            line = next(castep_file)
             curr_run["applied_field"] = to_type(get_numbers(line), float)
 
         # Forces blocks
-- 
2.43.0


From 65551c2de9dcf358aeb97cf1351943afeb73be96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 44/59] fix: keep what follows the final configuration when
 only it is asked for

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 0d36143..479e090 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1115,7 +1115,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
                                f"(?P<value>{REs.EXPFNUMBER_RE}).*",
                                line, re.IGNORECASE):
 
-            if Filters.GEOM_OPT not in to_parse:
+            if Filters.GEOM_OPT not in to_parse and Filters.FINAL_CONFIG not in to_parse:
                 continue
 
             key, val = normalise_string(match["key"]).lower(), to_type(match["value"], float)
-- 
2.43.0


From 319cc7ac751e0e94948e88b59905a0d05662cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 45/59] fix: find the files of seeds with a dot in their name

---
 castep_outputs/cli/args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index 232b4af..7d6e51e 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -98,7 +98,7 @@ def parse_args(to_parse: Sequence[str] = ()) -> argparse.Namespace:
             getattr(args, ext).append(str(seed))
         else:
             for typ in ALL_NAMES:
-                trial = seed.with_suffix(f".{typ}")
+                trial = seed.with_name(f"{seed.name}.{typ}")
                 if getattr(args, f"inc_{typ}") and trial.is_file():
                     getattr(args, typ).append(str(trial))
 
-- 
2.43.0


From 72623b690f53f70853993fc960818865882d3c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 46/59] fix: find the error files of seeds in other directories

---
 castep_outputs/cli/args.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index 7d6e51e..044ff7e 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 import argparse
 from collections.abc import Sequence
+from glob import escape
 from pathlib import Path
 
 from castep_outputs import __version__
@@ -102,7 +103,7 @@ def parse_args(to_parse: Sequence[str] = ()) -> argparse.Namespace:
                 if getattr(args, f"inc_{typ}") and trial.is_file():
                     getattr(args, typ).append(str(trial))
 
-            if args.inc_err and (err_files := seed.parent.glob(f"{seed}.*.err")):
+            if args.inc_err and (err_files := seed.parent.glob(f"{escape(seed.name)}.*.err")):
                 args.err.extend(map(str, err_files))
 
     return args
-- 
2.43.0


From 71efe0a52bbe759769c2af7742e02aa13681f3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 47/59] fix: take binary parsers by name and refuse unknown
 names

---
 castep_outputs/cli/castep_outputs_main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/cli/castep_outputs_main.py b/castep_outputs/cli/castep_outputs_main.py
index 7f7417e..0965984 100644
--- a/castep_outputs/cli/castep_outputs_main.py
+++ b/castep_outputs/cli/castep_outputs_main.py
@@ -63,7 +63,10 @@ def parse_single(in_file: str | Path | TextIO,
         in_file = Path(in_file)
 
     if isinstance(parser, str):
-        parser = PARSERS.get(parser)
+        if parser not in ALL_PARSERS:
+            raise ValueError(f"Parser {parser} not found")
+
+        parser = ALL_PARSERS[parser]
 
     if parser is None and isinstance(in_file, Path):
         ext = in_file.suffix.strip(".")
-- 
2.43.0


From 3145b8324c5e98ca4a3135d73e9a42d52b70bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 48/59] fix: dump the results of several paths as JSON

---
 castep_outputs/cli/castep_outputs_main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/cli/castep_outputs_main.py b/castep_outputs/cli/castep_outputs_main.py
index 0965984..dcd5051 100644
--- a/castep_outputs/cli/castep_outputs_main.py
+++ b/castep_outputs/cli/castep_outputs_main.py
@@ -128,7 +128,8 @@ def parse_all(
     for typ, paths in files.items():
         parser = ALL_PARSERS[typ]
         for path in paths:
-            data[path] = parse_single(path, parser, out_format, loglevel=loglevel, testing=testing)
+            data[str(path)] = parse_single(path, parser, out_format,
+                                           loglevel=loglevel, testing=testing)
 
     if len(data) == 1:
         data = data.popitem()[1]
-- 
2.43.0


From de96187bed57e88d6cc73b7b871d3c7f95b00394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 49/59] fix: accept yaml as an output format on the command
 line

---
 castep_outputs/cli/args.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index 044ff7e..0943bba 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -40,8 +40,8 @@ def get_parser() -> argparse.ArgumentParser:
                             default="WARNING")
     arg_parser.add_argument("-o", "--output", help="File to write output, default: screen",
                             default=None)
-    arg_parser.add_argument("-f", "--out-format", help="Output format", choices=SUPPORTED_FORMATS,
-                            default="json")
+    arg_parser.add_argument("-f", "--out-format", help="Output format",
+                            choices=(*SUPPORTED_FORMATS, "yaml"), default="json")
 
     arg_parser.add_argument("-t", "--testing", action="store_true",
                             help="Set testing mode to produce flat outputs")
-- 
2.43.0


From 299bd1f534b0a870b969e938b2de25173d313221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 50/59] fix: leave a handle open that the caller passed

---
 castep_outputs/utilities/filewrapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index 7beeb29..8baefcd 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -106,9 +106,6 @@ class FileWrapper:
         """Close wrapped file, and invalidate self."""
         self.file.close()
 
-    def __del__(self) -> None:
-        self.close()
-
 
 class Block:
     """
-- 
2.43.0


From 1df04ea239464bef6ec99769cde226a7d08fe4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 51/59] fix: predict files for seednames with dots in them

---
 castep_outputs/tools/get_generated_files.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index c821da7..30d5cfe 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -288,17 +288,19 @@ def get_generated_files(
     May struggle to get exact information from complex xc_definitions.
     """
     seedname = Path(seedname)
+    if seedname.suffix in {".cell", ".param"}:
+        seedname = seedname.with_suffix("")
     if param_file is None:
-        param_file = seedname.with_suffix(".param")
+        param_file = seedname.with_name(f"{seedname.name}.param")
     if cell_file is None:
-        cell_file = seedname.with_suffix(".cell")
+        cell_file = seedname.with_name(f"{seedname.name}.cell")
 
     if param_data is None:
         param_data = parse_cell_param_file(param_file)[0] if param_file.exists() else {}
     if cell_data is None:
         cell_data = parse_cell_param_file(cell_file)[0] if cell_file.exists() else {}
 
-    return _get_generated_files(param_data, cell_data, seedname.with_suffix(""))
+    return _get_generated_files(param_data, cell_data, seedname)
 
 
 def _get_generated_files(
@@ -309,7 +311,7 @@ def _get_generated_files(
     if cell_data is None:
         cell_data = {}
 
-    seedname = Path(src).stem
+    seedname = Path(src).name
     param_data = deepcopy(param_data)
     devel_code = param_data.get("devel_code", {})
     raw_task = param_data.get("task", "SINGLEPOINT").upper()
-- 
2.43.0


From 5bc5c2706b8899bb695b70675fe2ce028e4e0ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 52/59] fix: generated pseudopotentials' predicted names do not
 depend on the hash seed or on case

---
 castep_outputs/tools/get_generated_files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index 30d5cfe..fd53dda 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -471,7 +471,10 @@ def _get_generated_files(
         elif xc & {"libxc_gga", "libxc_hyb_gga"}:
             theory = "PBE"
         else:
-            theory = XC_TO_PS_THEORY.get(next(iter(xc)), "LDA")
+            theory = next(
+                (XC_TO_PS_THEORY[func].upper() for func in sorted(xc) if func in XC_TO_PS_THEORY),
+                "LDA",
+            )
 
         otf_name = f"{spec}_EXT_{theory}_OTF"
 
-- 
2.43.0


From 6638b8a3ed46d83dbb7968cd771187e546ce0bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 53/59] fix: geom_method and md_ensemble are not case-sensitive
 in predicted files

---
 castep_outputs/tools/get_generated_files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index fd53dda..04351d6 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -527,7 +527,7 @@ def _get_generated_files(
     elif task is Task.GEOMOPT:
         if param_data.get("write_geom", True):
             out_files.add(f"{seedname}.geom")
-        if param_data.get("geom_method") == "pes":
+        if param_data.get("geom_method", "").lower() == "pes":
             out_files.add(f"{seedname}.pes")
     elif task is Task.SPECTRAL:
         out_files |= get_spectral_files(
@@ -538,7 +538,7 @@ def _get_generated_files(
     elif task is Task.MD:
         if param_data.get("write_md", True):
             out_files.add(f"{seedname}.md")
-        if param_data.get("md_ensemble") in {"nvhug", "nphug"}:
+        if param_data.get("md_ensemble", "").lower() in {"nvhug", "nphug"}:
             out_files.add(f"{seedname}.hug")
 
         extrap = param_data.get("md_extrap", "first").lower()
-- 
2.43.0


From 26f0fbaaf61457406e479237728179214f6da327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 54/59] fix: predict deformation potential output for
 norm-conserving pseudopotential files

---
 castep_outputs/tools/get_generated_files.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index 04351d6..4d00a29 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -460,10 +460,13 @@ def _get_generated_files(
     }:
         out_files.add(f"{seedname}.pdos_weights")
 
-    is_usp = True
-    for spec, pot in cell_data.get("species_pot", {}).items():
+    # CASTEP generates ultrasoft pseudopotentials unless given norm-conserving files
+    pots = cell_data.get("species_pot", {})
+    is_usp = not pots or not all(
+        isinstance(pot, str) and pot.lower().endswith(".recpot") for pot in pots.values()
+    )
+    for spec, pot in pots.items():
         if isinstance(pot, str):
-            is_usp = is_usp or pot.endswith(".usp", ".uspcc", ".uspso")
             continue
 
         if xc & {"libxc_mgga", "libxc_hyb_mgga"}:
-- 
2.43.0


From dcc5135cc071597ea216a3d19ada4ad834405938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 55/59] fix: predict pair potential files for absolute
 positions and without a cell

---
 castep_outputs/tools/get_generated_files.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index 4d00a29..c941700 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -442,14 +442,15 @@ def _get_generated_files(
 
     if devel_code.get("_pp") and (pp := devel_code.get("pp")):
         if pp.get("pot_print"):
-            if cell_data:
-                spec = {spec: None for spec, _ind in cell_data.get("positions_frac", {})}
+            atoms = cell_data.get("positions_frac") or cell_data.get("positions_abs")
+            if atoms:
+                spec = {spec: None for spec, _ind in atoms}
                 out_files |= {
                     f"{seedname}_{a}_{b}.pot" for a, b in combinations_with_replacement(spec, 2)
                 }
 
             else:
-                out_files.add(f"{seedname}_*_.pot")
+                out_files.add(f"{seedname}_*_*.pot")
 
         if pp.get("fd_check"):
             out_files.add(f"{seedname}.fd")
-- 
2.43.0


From 586d0a6b601842b981695f4e44d2a4415250c83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 56/59] fix: predict files when a devel_code section's name is
 given without the section

---
 castep_outputs/tools/get_generated_files.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index c941700..f2866cb 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -187,7 +187,7 @@ def get_spectral_files(
         else:
             raise KeyError("Invalid param file")
 
-    spectral_devel = devel_code.get("spectral", {})
+    spectral_devel = _get_devel_section(devel_code, "spectral")
     spec_calc["elnes"] = spectral_devel.get("calc_core", spec_calc["elnes"])
     spec_calc["ome"] = spectral_devel.get("calc_ome", spec_calc["ome"])
     spec_calc["pdos"] = spectral_devel.get("calc_pdos", param_data.get("pdos_calculate_weights"))
@@ -207,6 +207,12 @@ def get_spectral_files(
     return out_files
 
 
+def _get_devel_section(devel_code: dict[str, Any], section: str) -> dict[str, Any]:
+    """Get section of devel code (empty if absent or not given as a section)."""
+    block = devel_code.get(section)
+    return block if isinstance(block, dict) else {}
+
+
 def get_xc_info(param_data: CellParamData) -> set[str]:
     """Get relevant info from the XC parameters.
 
@@ -440,7 +446,7 @@ def _get_generated_files(
     if devel_code.get("zdos_spectral") and task is Task.SPECTRAL:
         out_files.add(f"{seedname}.spectral_zdos")
 
-    if devel_code.get("_pp") and (pp := devel_code.get("pp")):
+    if devel_code.get("_pp") and (pp := _get_devel_section(devel_code, "pp")):
         if pp.get("pot_print"):
             atoms = cell_data.get("positions_frac") or cell_data.get("positions_abs")
             if atoms:
@@ -504,7 +510,7 @@ def _get_generated_files(
     if devel_code.get("calc_elastic") or "elastic" in devel_code:
         out_files.add(f"{seedname}.elastic")
         if (
-            devel_code.get("elastic", {}).get("deform_pot")
+            _get_devel_section(devel_code, "elastic").get("deform_pot")
             and not is_mgga
             and not is_usp
             and not is_spin
@@ -577,9 +583,9 @@ def _get_generated_files(
         out_files.add(f"{seedname}.phonon")
         if param_data.get("phonon_calculate_dos"):
             out_files.add(f"{seedname}.phonon_dos")
-        if filename := devel_code.get("phonon", {}).get("write_external_born"):
+        if filename := _get_devel_section(devel_code, "phonon").get("write_external_born"):
             out_files.add(filename)
-        if devel_code.get("phonon", {}).get("write_first_order_potential"):
+        if _get_devel_section(devel_code, "phonon").get("write_first_order_potential"):
             out_files.add(f"{seedname}-*-*-*.ep_pot")
 
     if task in {Task.EFIELD, Task.PHONON_EFIELD}:
@@ -592,9 +598,9 @@ def _get_generated_files(
 
     if tddft_on:
         out_files.add(f"{seedname}.tddft")
-        if devel_code.get("tddft", {}).get("den1_write"):
+        if _get_devel_section(devel_code, "tddft").get("den1_write"):
             out_files.add(f"{seedname}.td_den")
-        if devel_code.get("tddft", {}).get("save_td_den_fmt"):
+        if _get_devel_section(devel_code, "tddft").get("save_td_den_fmt"):
             out_files.add("den_dump*.dat")
 
     return sorted(out_files)
-- 
2.43.0


From 59944f47e2f70e1975822fe467436e9e123ceb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:48 +0000
Subject: [PATCH 57/59] fix: predict the same files for tasks written with
 spaces

---
 castep_outputs/tools/get_generated_files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index f2866cb..7687ef7 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -151,7 +151,7 @@ def get_spectral_files(
     """
     out_files = set()
     devel_code = param_data.get("devel_code", {})
-    raw_task = param_data.get("task", "SINGLEPOINT").upper()
+    raw_task = param_data.get("task", "SINGLEPOINT").translate(TRANS_TABLE)
     spectral_theory = SpectralTheory(param_data.get("spectral_theory", "dft"))
     spectral_task = SpectralTask(param_data.get("spectral_task", "bandstructure"))
 
@@ -320,7 +320,7 @@ def _get_generated_files(
     seedname = Path(src).name
     param_data = deepcopy(param_data)
     devel_code = param_data.get("devel_code", {})
-    raw_task = param_data.get("task", "SINGLEPOINT").upper()
+    raw_task = param_data.get("task", "SINGLEPOINT").translate(TRANS_TABLE)
     task = Task(raw_task)
 
     xc = get_xc_info(param_data)
-- 
2.43.0


From f3de966be77b0896a5b0970b677512b809e97ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:51 +0000
Subject: [PATCH 58/59] fix: report a cst_esp file that is cut short between
 two columns

---
 castep_outputs/bin_parsers/cst_esp_file_parser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/castep_outputs/bin_parsers/cst_esp_file_parser.py b/castep_outputs/bin_parsers/cst_esp_file_parser.py
index 328956f..e75a50c 100644
--- a/castep_outputs/bin_parsers/cst_esp_file_parser.py
+++ b/castep_outputs/bin_parsers/cst_esp_file_parser.py
@@ -36,6 +36,11 @@ def parse_cst_esp_file(cst_esp_file: BinaryIO) -> ESPData:
     -------
     :
         Parsed data.
+
+    Raises
+    ------
+    ValueError
+        Grid of potential is cut short.
     """
     dtypes = {"n_spins": int, "grid": (int, ...)}
 
@@ -55,6 +60,10 @@ def parse_cst_esp_file(cst_esp_file: BinaryIO) -> ESPData:
 
     accum["esp"].append(curr)
 
+    n_cols = sum(map(len, accum["esp"]))
+    if not n_cols or n_cols % (accum["grid"][0] * accum["grid"][1]):
+        raise ValueError(f"Incomplete grid in cst_esp file, found {n_cols} columns.")
+
     size = accum["grid"][0]
     if len(accum["esp"]) > size:  # Have MGGA pot
         accum["esp"], accum["mgga"] = accum["esp"][:size], accum["esp"][size:]
-- 
2.43.0


From bddece0bdb4c78906afa4ac3ed91a07033de2bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:29 +0000
Subject: [PATCH 59/59] fix: a trial guess is part of the geometry steps when
 filtering

---
 castep_outputs/parsers/castep_file_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 479e090..cf7da02 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1106,6 +1106,9 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
         elif match := re.search(rf"trial guess \(lambda=\s*({REs.EXPFNUMBER_RE})\)", line):
 
+            if Filters.GEOM_OPT not in to_parse:
+                continue
+
             curr_run.setdefault("geom_opt", defaultdict(list))
 
             curr_run["geom_opt"]["trial"].append(float(match.group(1)))
-- 
2.43.0

