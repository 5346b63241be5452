From 95befa21a1c31032ddc53442cac9c901ab10d0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 001/113] fix: read only one line's worth of prefix/suffix per
 line of BIL images

---
 pdr/loaders/queries.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 154ad93..80aab53 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -190,10 +190,11 @@ def get_image_properties(gen_props: ImageProps) -> ImageProps:
     """
     props = gen_props  # TODO: what is this variable assignment for?
     check_fix_validity(props)
-    props["pixels"] = (
-        (props["nrows"] + props["rowpad"])
-        * (props["ncols"] + props["colpad"] + props["linepad"])
+    # line pre/suffixes occur once per line, not once per band of each line
+    props["pixels"] = (props["nrows"] + props["rowpad"]) * (
+        (props["ncols"] + props["colpad"])
         * (props["nbands"] + props["bandpad"])
+        + props["linepad"]
     )
     return props
 
-- 
2.43.0


From b2b1506bc1587217fa1fb9dcf5afa744fcd6af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 002/113] fix: decode 4- and 8-byte integer QUBE cores at their
 declared width

---
 pdr/loaders/queries.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 80aab53..8bd9982 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -48,9 +48,8 @@ def generic_qube_properties(
     props = {}
     use_block = block if "CORE" not in block.keys() else block["CORE"]
     props["BYTES_PER_PIXEL"] = int(use_block["CORE_ITEM_BYTES"])  # / 8)
-    # TODO: this should probably have for_numpy set to True
     props["sample_type"] = sample_types(
-        use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"]
+        use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"], for_numpy=True
     )
     props["is_vax_real"] = use_block["CORE_ITEM_TYPE"] == "VAX_REAL"
     if "AXIS_NAME" in set(block.keys()).union(use_block.keys()):
-- 
2.43.0


From a0e7666f2d37dcfea400bdab0f68bb831d282617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 003/113] fix: do not discard the whole array for zero-width
 QUBE side/back/bottomplanes

---
 pdr/loaders/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index 51fbb58..70f0232 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -182,7 +182,7 @@ def extract_axplanes(
     axplanes = {}
     for side, ax in product(("prefix", "suffix"), ("row", "col", "band")):
         # noinspection PyTypedDict
-        if (count := props.get(f"{side}_{ax}s")) is None:
+        if (count := props.get(f"{side}_{ax}s")) in (0, None):
             continue
         axn, axname = {
             "band": (0, "BAND"),
-- 
2.43.0


From 3a6638957b2432a359d259dfc49904e86924f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 004/113] fix: read one-band QUBEs that have band suffixes

---
 pdr/loaders/image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index 70f0232..e168740 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -24,10 +24,12 @@ def read_image(
     f.seek(start_byte)
     try:
         # Make sure that single-band images are 2-dim arrays.
-        if props["nbands"] == 1:
+        if props["nbands"] == 1 and props["bandpad"] == 0:
             image, axplanes, pre, suf = process_single_band_image(f, props)
         else:
             image, axplanes, pre, suf = process_multiband_image(f, props)
+            if props["nbands"] == 1:
+                image = image[0]
     except Exception as ex:
         raise ex
     finally:
-- 
2.43.0


From ec07bd5fd32976d02e15f892f10056605e1f9454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 005/113] fix: do not treat every PVL parameter beginning with
 END as the end of a block

---
 pdr/parselabel/pds3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index a51cd78..4d89498 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -22,7 +22,7 @@ from pdr.parselabel.utils import trim_label, DEFAULT_PVL_LIMIT
 from pdr.utils import decompress
 
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
-PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|$)")
+PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT\b|_GROUP\b|(?=\s*(=|$)))")
 PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE]-?\d+)?)|NULL|UNK|N/A")
 PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
 
@@ -112,7 +112,7 @@ class BlockParser:
         for parameter, value in statements:
             if parameter in PVL_BLOCK_INITIALS:
                 self._step_in(value)
-            elif parameter.startswith("END"):
+            elif extract_pvl_block_terminal(parameter) is not None:
                 # not bothering with aggregation name verification
                 if len(self.names) > 0:
                     self._step_out()
-- 
2.43.0


From a8594802dce276664442e26df212bc8557d8e7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 006/113] fix: keep a space between the first and second lines
 of a multiline PVL value

---
 pdr/parselabel/pds3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 4d89498..818ba88 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -74,8 +74,8 @@ def chunk_statements(trimmed_lines: Iterable[str]) -> list[tuple[str, str]]:
             # i strongly suspect we will never make semantic use of
             # parameters like this and so we will just ignore them for now
             continue
-        value_head += " ".join(map(str.strip, statement[1:]))
-        statements.append((parameter, value_head))
+        value = " ".join([value_head, *map(str.strip, statement[1:])])
+        statements.append((parameter, value.strip()))
     return statements
 
 
-- 
2.43.0


From e84cad9f3cf482a5d2ba82f9edcbca7e00e68c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 007/113] fix: keep positive-signed exponents of PVL quantities

---
 pdr/parselabel/pds3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 818ba88..051f6d7 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -23,7 +23,9 @@ from pdr.utils import decompress
 
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
 PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT\b|_GROUP\b|(?=\s*(=|$)))")
-PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE]-?\d+)?)|NULL|UNK|N/A")
+PVL_QUANTITY_VALUE = re.compile(
+    r"((\d|\.|-)+([eE][+-]?\d+)?)|NULL|UNK|N/A"
+)
 PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
 
 STRUCTUREPAT = re.compile(r"\^(?:(?:\w|_)+_)?STRUCTURE$")
-- 
2.43.0


From 139333808cdccd5dbdb0d0d8adb873de092f035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 008/113] fix: allow unhashable default values in metaget()

---
 pdr/pdr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index d93891a..704c46b 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -132,7 +132,10 @@ class Metadata(MultiDict):
                 f"Returning only the first.",
                 DuplicateKeyWarning,
             )
-        return self._metaget_interior(text, default)
+        # the default is not passed to the memoized function because it might
+        # not be hashable
+        value = self._metaget_interior(text, None)
+        return default if value is None else value
 
     def metaget_(self, text: str, default: Any = None) -> Any:
         """quiet-by-default version of metaget"""
-- 
2.43.0


From 53b659818ea099b9a2fc3a9dae26bb4d4f155389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 009/113] fix: find the first label ending even when it
 straddles read boundaries

---
 pdr/parselabel/utils.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pdr/parselabel/utils.py b/pdr/parselabel/utils.py
index eec1151..4ee3dd9 100644
--- a/pdr/parselabel/utils.py
+++ b/pdr/parselabel/utils.py
@@ -15,6 +15,9 @@ Fast regex patterns for generic PVL label endings. They work for almost all PVL
 labels in the PDS.
 """
 
+LONGEST_LABEL_ENDING = 20
+"""length in bytes of the longest possible match to KNOWN_LABEL_ENDINGS"""
+
 DEFAULT_PVL_LIMIT = 1000 * 1024
 """heuristic for max label size. we know it's not a real rule."""
 
@@ -31,10 +34,16 @@ def _scan_to_end_of_label(
     while length < max_size:
         if (chunk := buf.read(50 * 1024)) == b'':
             break
-        for ending in KNOWN_LABEL_ENDINGS:
-            if (endmatch := re.search(ending, chunk)) is not None:
-                return text + chunk[: endmatch.span()[1]]
-        text, length = text + chunk, length + 50 * 1024
+        # also look at the last few bytes we already had, in case an ending
+        # straddles them and this chunk
+        overlap, text = text[-LONGEST_LABEL_ENDING:], text + chunk
+        window = overlap + chunk
+        matches = [re.search(e, window) for e in KNOWN_LABEL_ENDINGS]
+        # if there's more than one match, only the first one ends the label
+        ends = [m.span()[1] for m in matches if m is not None]
+        if len(ends) > 0:
+            return text[: len(text) - len(window) + min(ends)]
+        length += 50 * 1024
     if raise_no_ending is True:
         raise InvalidAttachedLabel("Couldn't find a label ending.")
     return text
-- 
2.43.0


From a71434f7cdbfa2c20ef992a804515abb6fe107b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 010/113] fix: row stride of binary tables with row prefixes,
 out-of-order columns, or multi-item last columns

---
 pdr/formats/rosetta.py |  3 ---
 pdr/pd_utils.py        | 10 +++++++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pdr/formats/rosetta.py b/pdr/formats/rosetta.py
index 7a43945..d7b77a1 100644
--- a/pdr/formats/rosetta.py
+++ b/pdr/formats/rosetta.py
@@ -93,8 +93,5 @@ def fix_pad_length_structure(block, name, filename, data, identifiers):
 
     # to calculate end_byte correctly in compute_offsets()
     fmtdef["BYTES"] = fmtdef["ITEM_BYTES"]
-    # to calculate pad_length correctly in compute_offsets()
-    fmtdef["ROW_BYTES"] = fmtdef["ROW_BYTES"] + fmtdef["ROW_PREFIX_BYTES"]
-    
     fmtdef = compute_offsets(fmtdef)
     return insert_sample_types_into_df(fmtdef, identifiers)
diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index d919ab3..145db3e 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -135,9 +135,17 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
             position += gl
         fmtdef.loc[column_groups.index, 'SB_OFFSET'] = gix_list
     pad_length = 0
-    end_byte = fmtdef["SB_OFFSET"].iloc[-1] + fmtdef["BYTES"].iloc[-1]
+    # fields with multiple items are defined item-by-item, and are not
+    # necessarily defined in byte order
+    widths = fmtdef["BYTES"]
+    if "ITEM_BYTES" in fmtdef.columns:
+        widths = fmtdef["ITEM_BYTES"].fillna(widths)
+    end_byte = int((fmtdef["SB_OFFSET"] + widths).max())
     if "ROW_BYTES" in fmtdef.columns:
+        # note that ROW_BYTES does not include ROW_PREFIX_BYTES
         pad_length += fmtdef["ROW_BYTES"].iloc[0] - end_byte
+        if "ROW_PREFIX_BYTES" in fmtdef.columns:
+            pad_length += fmtdef["ROW_PREFIX_BYTES"].iloc[0]
     if "ROW_SUFFIX_BYTES" in fmtdef.columns:
         pad_length += fmtdef["ROW_SUFFIX_BYTES"].iloc[0]
     if pad_length > 0:
-- 
2.43.0


From f1d4485324ac0ba0dca49cb860d348f0f7340dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 011/113] fix: offsets of fields in CONTAINERs that do not
 directly follow a plain COLUMN, and of multi-item columns defined out of byte
 order

---
 pdr/loaders/queries.py | 34 ++++++++++++++++++++++++++++++++++
 pdr/pd_utils.py        | 25 ++++++++++++++-----------
 2 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 8bd9982..70226b0 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -692,6 +692,38 @@ PDS3_STRUCTURED_DATA_PARAMETERS = (
 )
 
 
+def place_container(
+    container_fields: list[dict], definition: MultiDict, fields: list[dict]
+) -> list[dict]:
+    """
+    Repeat the fields of a CONTAINER as many times as it repeats, adding a
+    CONTAINER_OFFSET value to each: the offset in bytes from the start of the
+    CONTAINER's parent object to the object that field's START_BYTE refers to.
+    """
+    if (start_byte := definition.get("START_BYTE")) is not None:
+        start = start_byte - 1
+    else:
+        # underspecified: assume it directly follows the preceding fields
+        start = max(
+            (
+                f["START_BYTE"] - 1
+                + (f.get("BYTES") or f.get("ITEMS", 1) * f.get("ITEM_BYTES", 0))
+                + f.get("CONTAINER_OFFSET", 0)
+                for f in fields
+            ),
+            default=0
+        )
+    placed = []
+    for rep in range(max(definition.get("REPETITIONS", 1), 1)):
+        offset = start + rep * definition.get("BYTES", 0)
+        for field in container_fields:
+            placed.append(
+                field
+                | {"CONTAINER_OFFSET": offset + field.get("CONTAINER_OFFSET", 0)}
+            )
+    return placed
+
+
 def read_format_block(
     block: MultiDict,
     object_name: str,
@@ -765,6 +797,8 @@ def read_format_block(
                 add_placeholder = True
             else:
                 reps = definition.get("REPETITIONS")
+            if item_type == "CONTAINER":
+                obj, reps = place_container(obj, definition, fields), None
         else:
             # this suggests we made a typo
             raise NotImplementedError(f"No defined behavior for {item_type}.")
diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 145db3e..1dc48b7 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -87,9 +87,14 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
     fmtdef["SB_OFFSET"] = fmtdef["START_BYTE"].astype(int) - 1
     if "ROW_PREFIX_BYTES" in fmtdef.columns:
         fmtdef["SB_OFFSET"] += fmtdef["ROW_PREFIX_BYTES"]
-    block_names = fmtdef.loc[
-        fmtdef['NAME'] != "PLACEHOLDER_0", "BLOCK_NAME"
-    ].unique()
+    if "CONTAINER_OFFSET" in fmtdef.columns:
+        # offsets of fields in CONTAINERs (see queries.place_container())
+        fmtdef["SB_OFFSET"] += fmtdef["CONTAINER_OFFSET"].fillna(0).astype(int)
+        block_names = []
+    else:
+        block_names = fmtdef.loc[
+            fmtdef['NAME'] != "PLACEHOLDER_0", "BLOCK_NAME"
+        ].unique()
     # calculate offsets for formats loaded in by reference
     for block_name in block_names[1:]:
         if block_name in ("PLACEHOLDER_None", f"PLACEHOLDER_{block_names[0]}"):
@@ -126,14 +131,12 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
     # correctly compute offsets within columns w/multiple items
     if "ITEM_BYTES" in fmtdef.columns:
         fmtdef["ITEM_SIZE"] = _apply_item_offsets(fmtdef)
-        column_groups = fmtdef.loc[fmtdef["ITEM_SIZE"].notna()]
-        group_offs = column_groups['SB_OFFSET'].value_counts().sort_index()
-        gix_list, position = [], 0
-        for off, gl in zip(group_offs.index, group_offs.values):
-            itemsize = int(column_groups['ITEM_SIZE'].iloc[position])
-            gix_list += [(i * itemsize) + off for i in range(gl)]
-            position += gl
-        fmtdef.loc[column_groups.index, 'SB_OFFSET'] = gix_list
+        items = fmtdef.loc[fmtdef["ITEM_SIZE"].notna()]
+        # items of a column are consecutive, and share its START_BYTE
+        item_number = items.groupby("SB_OFFSET").cumcount()
+        fmtdef.loc[items.index, "SB_OFFSET"] += (
+            item_number * items["ITEM_SIZE"].astype(int)
+        )
     pad_length = 0
     # fields with multiple items are defined item-by-item, and are not
     # necessarily defined in byte order
-- 
2.43.0


From e9c21b70e007fc7728747fe85089d5f6fe949f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 012/113] fix: allow format files that contain only a
 ^TABLE_STRUCTURE pointer

---
 pdr/loaders/queries.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 70226b0..e04a9b6 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -869,7 +869,11 @@ def inject_format_files(
         fmt = list(load_format_file(data, format_fn, name, fn).items())
         # if the block is itself a TABLE, assume that it's intended to unpack
         # into a parent object, like a LINE_PREFIX_TABLE on an image
-        if len(fmt) == 1 and "TABLE" in fmt[0][0]:
+        if (
+            len(fmt) == 1
+            and "TABLE" in fmt[0][0]
+            and isinstance(fmt[0][1], Mapping)
+        ):
             fmt = list(fmt[0][1].items())
         assembled_structure += block[last_ix:ix] + fmt
         last_ix = ix + 1
-- 
2.43.0


From becec2a5d9059344f75560f52bd00750ae99a477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 013/113] fix: order of bits in little-endian bit strings whose
 width is not a power of two

---
 pdr/bit_handling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/bit_handling.py b/pdr/bit_handling.py
index baeb33a..2ea9a7c 100644
--- a/pdr/bit_handling.py
+++ b/pdr/bit_handling.py
@@ -103,6 +103,9 @@ def convert_byte_column_to_bits(
             # make sure they're fixed-length
             .str.zfill(dtype[rec_ix].itemsize * 8)
         )
+    if byte_order == "<":
+        # the last bytes of a little-endian string are the most significant
+        bit_series.reverse()
     # TODO: should probably be a single pd.concat operation
     bits = reduce(add, bit_series)
     return bits
-- 
2.43.0


From b53190c7dca928478be4120f2e94285966398014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 014/113] fix: respect ITEM_OFFSET of multi-item BIT_COLUMNs

---
 pdr/bit_handling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/bit_handling.py b/pdr/bit_handling.py
index 2ea9a7c..e61fbba 100644
--- a/pdr/bit_handling.py
+++ b/pdr/bit_handling.py
@@ -207,9 +207,11 @@ def get_bit_start_and_size(
         if pvl_obj.get("ITEMS"):
             items = pvl_obj.get("ITEMS")
             item_bits = pvl_obj.get("ITEM_BITS")
+            # items may be separated by unused bits
+            item_offset = pvl_obj.get("ITEM_OFFSET", item_bits)
             first_item_start_bit = pvl_obj.get("START_BIT")
             for item_index in range(items):
-                start_bit = first_item_start_bit + item_index * item_bits
+                start_bit = first_item_start_bit + item_index * item_offset
                 start_bit_list.append(start_bit)
                 bit_size_list.append(item_bits)
         else:
-- 
2.43.0


From ce73bcc8984c4a085004dcc7b637a52da153f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 015/113] fix: decode VAX reals with the largest exponent as
 numbers rather than infinities

---
 pdr/loaders/image.py |  7 ++++---
 pdr/np_utils.py      | 15 +++++++++++++++
 pdr/pd_utils.py      |  6 +++---
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index e168740..8feca56 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -7,10 +7,11 @@ from typing import Optional
 import warnings
 
 import numpy as np
-import vax
 
 from pdr.loaders.queries import get_image_properties
-from pdr.np_utils import make_c_contiguous, np_from_buffered_io
+from pdr.np_utils import (
+    make_c_contiguous, np_from_buffered_io, vax32_to_np_f32
+)
 from pdr.pdrtypes import ImageProps, DataIdentifiers
 from pdr.utils import decompress
 
@@ -78,7 +79,7 @@ def extract_single_band_linefix(
 def convert_if_vax(image: np.ndarray, props: dict) -> np.ndarray:
     """If an array is in 32-bit VAX real format, convert it to 32-bit float."""
     if props.get('is_vax_real') is True:
-        return vax.from_vax32(image)
+        return vax32_to_np_f32(image)
     return image
 
 
diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 644f098..968d4f7 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -132,3 +132,18 @@ def ibm64_to_np_f64(ibm):
     unsigned integers) to numpy float64.
     """
     return ibm_to_np(ibm, 63, 56, 0x00ffffffffffffff)
+
+
+def vax32_to_np_f32(array: np.ndarray) -> np.ndarray:
+    """
+    Convert an array of VAX F-floating values (expressed as any 32-bit type)
+    to numpy float32. Unlike `vax.from_vax32()`, this does not treat the
+    largest VAX exponent as infinity / NaN.
+    """
+    array = np.ascontiguousarray(array)
+    vax = array.view(f"{array.dtype.byteorder}u4").astype("u4")
+    bits = (vax << 16) | (vax >> 16)
+    exponent = ((bits >> 23) & 0xff).astype("i4")
+    mantissa = ((bits & 0x7fffff) | 0x800000).astype("f8")
+    values = np.where(exponent == 0, 0, np.ldexp(mantissa, exponent - 152))
+    return np.where(bits >> 31, -values, values).astype("f4")
diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 1dc48b7..eb187be 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -12,12 +12,12 @@ from more_itertools import divide
 import numpy as np
 import pandas as pd
 import pandas.api.types
-import vax
 
 from pdr.datatypes import sample_types
 from pdr.formats import check_special_sample_type
 from pdr.np_utils import (
-    enforce_order_and_object, ibm32_to_np_f32, ibm64_to_np_f64
+    enforce_order_and_object, ibm32_to_np_f32, ibm64_to_np_f64,
+    vax32_to_np_f32
 )
 
 if TYPE_CHECKING:
@@ -371,7 +371,7 @@ def convert_vax_reals(data: pd.DataFrame, properties: pd.DataFrame) -> pd.DataFr
     for _, field in properties.iterrows():
         if not re.match(r'VAX.*REAL', field['DATA_TYPE']):
             continue
-        func = vax.from_vax32  # TODO: if field['BYTES'] == 4 else vax.from_vax64
+        func = vax32_to_np_f32  # TODO: if field['BYTES'] == 4 else vax.from_vax64
         converted = func(data[field['NAME']].values)
         reals[field['NAME']] = converted
     for k, v in reals.items():
-- 
2.43.0


From 64d16a59de7fc0e6a94a70a6a7ea4c74788f2545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 016/113] fix: recognize VAX REAL images and qubes when the
 type name contains a space

---
 pdr/loaders/queries.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index e04a9b6..711f73e 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -51,7 +51,9 @@ def generic_qube_properties(
     props["sample_type"] = sample_types(
         use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"], for_numpy=True
     )
-    props["is_vax_real"] = use_block["CORE_ITEM_TYPE"] == "VAX_REAL"
+    props["is_vax_real"] = (
+        use_block["CORE_ITEM_TYPE"].replace(" ", "_") == "VAX_REAL"
+    )
     if "AXIS_NAME" in set(block.keys()).union(use_block.keys()):
         props['axnames'] = block.get("AXIS_NAME")
         if props['axnames'] is None:
@@ -225,7 +227,9 @@ def generic_image_properties(block: MultiDict, sample_type: str) -> ImageProps:
         # TODO: BYTES_PER_PIXEL check appears repeated with slight variation
         #  from base_sample_info()
         "BYTES_PER_PIXEL": int(block["SAMPLE_BITS"] / 8),
-        "is_vax_real": block.get("SAMPLE_TYPE") == "VAX_REAL",
+        "is_vax_real": (
+            str(block.get("SAMPLE_TYPE")).replace(" ", "_") == "VAX_REAL"
+        ),
         "sample_type": sample_type,
         "nrows": block["LINES"],
         "ncols": block["LINE_SAMPLES"],
-- 
2.43.0


From b06ed876da9570087548fa5bad57b1929e32156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 017/113] fix: decode IBM reals in columns with multiple items

---
 pdr/pd_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index eb187be..6712a9c 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -340,9 +340,12 @@ def convert_ibm_reals(df: pd.DataFrame, fmtdef: pd.DataFrame) -> pd.DataFrame:
     for _, field in fmtdef.iterrows():
         if not re.match(r'IBM.*REAL', field['DATA_TYPE']):
             continue
-        func = ibm32_to_np_f32 if field['BYTES'] == 4 else ibm64_to_np_f64
+        # for columns with multiple items, BYTES is the width of all of them
+        width = field.get('ITEM_BYTES')
+        width = field['BYTES'] if pd.isna(width) else width
+        func = ibm32_to_np_f32 if width == 4 else ibm64_to_np_f64
         converted = func(df[field['NAME']].values)
-        if field['BYTES'] == 4:
+        if width == 4:
             # IBM shorts are wider-range than IEEE shorts; check if we can
             # safely cast them back down to float32
             absolute = abs(converted)
-- 
2.43.0


From 4cea99ec9dbf1421b5ba132e7f13b7370fbc6bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 018/113] fix: read binary data from zip files, and plain
 ARRAYs from any compressed file

---
 pdr/np_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 968d4f7..1658dec 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -9,7 +9,7 @@ from gzip import GzipFile
 from io import BufferedIOBase, BytesIO
 from numbers import Number
 from typing import Optional, Union
-from zipfile import ZipFile
+from zipfile import ZipExtFile
 
 import numpy as np
 
@@ -79,10 +79,10 @@ def np_from_buffered_io(
     """
     if offset is not None:
         buffered_io.seek(offset)
-    if isinstance(buffered_io, (BZ2File, ZipFile, GzipFile, BytesIO)):
+    if isinstance(buffered_io, (BZ2File, ZipExtFile, GzipFile, BytesIO)):
         # we need to read the appropriate amount into a new buffer, especially
         # if it's monolithically compressed
-        n_bytes = None if count is None else count * dtype.itemsize
+        n_bytes = None if count is None else count * np.dtype(dtype).itemsize
         stream = BytesIO(buffered_io.read(n_bytes))
         return np.frombuffer(stream.getbuffer(), dtype=dtype)
     count = -1 if count is None else count
-- 
2.43.0


From f1bde28740f84be61d87975341277bae84eba82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:54 +0000
Subject: [PATCH 019/113] fix: read ASCII ARRAYs at their own position,
 compressed or not, with exponents and leading decimal points

---
 pdr/loaders/table.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 94a4a05..dda8231 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -50,14 +50,16 @@ def read_array(fn, block, start_byte, fmtdef_dt):
             )
         return array.reshape(block["AXIS_ITEMS"])
     # assume objects without the optional interchange_format key are ascii
-    with open(fn) as stream:
-        text = stream.read()
-    try:
-        text = tuple(map(float, re.findall(r"[+-]?\d+\.?\d*", text)))
-    except (TypeError, IndexError, ValueError):
-        text = re.split(r"\s+", text)
-    array = np.asarray(text).reshape(block["AXIS_ITEMS"])
-    if "DATA_TYPE" in block.keys():
+    with decompress(fn) as stream:
+        stream.seek(start_byte)
+        # the array's text is not necessarily the end of the file
+        text = stream.read().decode("latin-1")
+    numbers = re.findall(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[Ee][+-]?\d+)?", text)
+    count = get_array_num_items(block)
+    array = np.asarray(
+        tuple(map(float, numbers[:count]))
+    ).reshape(block["AXIS_ITEMS"])
+    if not block.get("DATA_TYPE", "ASCII").startswith("ASCII"):
         array = array.astype(
             sample_types(block["DATA_TYPE"], block["BYTES"], True)
         )
-- 
2.43.0


From 7eb5054bf1352f68ce45687658a10e021bab035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 020/113] fix: place ARRAY elements at their START_BYTEs and
 respect the width of COLLECTIONs

---
 pdr/loaders/queries.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 711f73e..fe2b4bc 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -661,11 +661,23 @@ def parse_array_structure(
     # Sometimes ARRAYS give START_BYTE at top level; sometimes only their
     # elements do. We want to defer responsibility for figuring this out to
     # compute_offsets(). This satisfies its type expectations.
+    from pdr.pd_utils import compute_offsets, insert_sample_types_into_df
     if "START_BYTE" in fmtdef.columns:
-        fmtdef['START_BYTE'].fillna(1, inplace=True)
-
-    from pdr.pd_utils import insert_sample_types_into_df
-    return insert_sample_types_into_df(fmtdef, identifiers)
+        fmtdef['START_BYTE'] = fmtdef['START_BYTE'].fillna(1)
+        fmtdef = compute_offsets(fmtdef)
+    fmtdef, dt = insert_sample_types_into_df(fmtdef, identifiers)
+    # there may be unused bytes at the end of each array element
+    width = block.get("COLLECTION", {}).get("BYTES", 0)
+    if width > dt.itemsize:
+        import numpy as np
+
+        dt = np.dtype({
+            "names": dt.names,
+            "formats": [dt.fields[n][0] for n in dt.names],
+            "offsets": [dt.fields[n][1] for n in dt.names],
+            "itemsize": width
+        })
+    return fmtdef, dt
 
 
 def create_placeholder_field(block_info, definition):
-- 
2.43.0


From 34a24ac355a3b09c0367f32bc4fcd5adbf1075c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 021/113] fix: wraparound when scaling table columns of
 integers

---
 pdr/loaders/table.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index dda8231..a691932 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -103,15 +103,27 @@ def read_table(
         for col in table.columns:
             record = fmtdef.loc[fmtdef['NAME'] == col].to_dict("records")[0]
             if record.get("SCALING_FACTOR") and not pd.isnull(record.get("SCALING_FACTOR")):
-                table[col] = table[col].mul(record["SCALING_FACTOR"])
+                scaling_factor = record["SCALING_FACTOR"]
+                table[col] = _widen(table[col], scaling_factor, 0)
+                table[col] = table[col].mul(scaling_factor)
             else:
                 scaling_factor = 1  # TODO: appears superfluous
             if record.get("OFFSET") and not pd.isnull(record.get("OFFSET")):
                 offset = record["OFFSET"]
+                table[col] = _widen(table[col], 1, offset)
                 table[col] = table[col]+offset
     return table
 
 
+def _widen(column, scaling_factor, offset):
+    """make room in an integer column for the results of scaling it."""
+    if column.dtype.kind not in "iu" or len(column) == 0:
+        return column
+    extreme = max(abs(int(column.min())), abs(int(column.max())))
+    extreme = max(extreme, extreme * abs(scaling_factor) + abs(offset))
+    return column.astype("int64" if extreme < 2**63 else "float64")
+
+
 def _interpret_as_binary(fn, fmtdef, dt, block, start_byte):
     """"""
     # TODO: this works poorly (from a usability and performance
-- 
2.43.0


From aaa3cb4b613517dea29595f4e14009e708edeefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 022/113] fix: read based integers in PVL quantities

---
 pdr/parselabel/pds3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 051f6d7..2ed74a4 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -24,7 +24,7 @@ from pdr.utils import decompress
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
 PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT\b|_GROUP\b|(?=\s*(=|$)))")
 PVL_QUANTITY_VALUE = re.compile(
-    r"((\d|\.|-)+([eE][+-]?\d+)?)|NULL|UNK|N/A"
+    r"\d+#[+-]?\w+#|((\d|\.|-)+([eE][+-]?\d+)?)|NULL|UNK|N/A"
 )
 PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
 
-- 
2.43.0


From 126facf4296fa496e03c9bfcf0bf7ca3f6240188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 023/113] fix: special constants that are unrepresentable,
 textual, have units or belong to 64-bit or int32 samples

---
 pdr/_scaling.py  | 22 +++++++++++++++-------
 pdr/datatypes.py |  4 ++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 34122cc..e77d83e 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -31,15 +31,20 @@ def find_special_constants(
         for name in PDS3_CONSTANT_NAMES
         if (name in block.keys()) and not (block[name] == "N/A")
     }
-    for k in specials.keys():
-        if isinstance(specials[k], Sequence):
+    for k in tuple(specials.keys()):
+        if isinstance(specials[k], dict):
+            specials[k] = specials[k]["value"]
+        if isinstance(specials[k], str):
+            # text like "NULL" or "UNK" means that there is no such constant
+            del specials[k]
+        elif isinstance(specials[k], Sequence):
             specials[k] = specials[k][0]
     # ignore uint8 implicit constants (0, 255) for now -- too problematic
     # TODO: maybe add an override
     if obj.dtype.name == "uint8":
         return specials
     # check for implicit constants appropriate to the sample type
-    implicit_possibilities = IMPLICIT_PDS3_CONSTANTS[obj.dtype.name]
+    implicit_possibilities = IMPLICIT_PDS3_CONSTANTS.get(obj.dtype.name, {})
     # can't check for nans with "in" because it's an equality check, so
     # we don't intend this to be used, just want to make the key and put
     # in a value that won't conflict later
@@ -55,12 +60,15 @@ def find_special_constants(
 def mask_specials(obj, specials):
     """"""
     obj = np.ma.masked_array(obj)
+    mask = np.zeros(obj.shape, dtype=bool)
+    for special in specials:
+        # compare as obj's own type, so that constants that type cannot
+        # represent exactly still match the values they were stored as
+        mask |= obj.data == special
     if np.nan in specials:
         # masks infs and nans as well
-        obj.mask = np.ma.mask_or(np.isin(obj.data, specials),
-                                 ~np.isfinite(obj.data))
-    else:
-        obj.mask = np.isin(obj.data, specials)
+        mask |= ~np.isfinite(obj.data)
+    obj.mask = mask
     return obj
 
 
diff --git a/pdr/datatypes.py b/pdr/datatypes.py
index 0ce89bf..a6233b9 100644
--- a/pdr/datatypes.py
+++ b/pdr/datatypes.py
@@ -171,12 +171,12 @@ IMPLICIT_PDS3_CONSTANTS = MappingProxyType(
         },
         # note that signed 32-bit integers don't seem to be considered in ISIS
         "int32": {
-            "N/A": -214743648,
+            "N/A": -2147483648,
             "UNK": 2147483647,
         },
         # TODO: dubious. when do we read 64-bit integers out of PDS3
         #  arrays anyway?
-        "int64": {"N/A": -214743648, "UNK": 2147483647},
+        "int64": {"N/A": -2147483648, "UNK": 2147483647},
         "uint32": {
             "N/A": 4294967293,
             "UNK": 4294967294,
-- 
2.43.0


From 6aea01e460cfd5a9f2e3e6a13d484047151fd980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 024/113] fix: integer wraparound and failures of in-place and
 per-plane image scaling

---
 pdr/_scaling.py | 98 ++++++++++++++++++++++---------------------------
 1 file changed, 44 insertions(+), 54 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index e77d83e..43d69fa 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -1,9 +1,7 @@
 from __future__ import annotations
 
-import warnings
-from functools import wraps
 from itertools import product
-from numbers import Integral, Number, Real
+from numbers import Number
 from typing import Optional, Sequence, Union
 
 import numpy as np
@@ -74,68 +72,58 @@ def mask_specials(obj, specials):
 
 def fit_to_scale(
     arr: np.ndarray,
-    scale: Union[Integral, Real],
-    offset: Union[Integral, Real]
+    scale: Union[Number, Sequence[Number]],
+    offset: Union[Number, Sequence[Number]],
 ) -> np.ndarray:
     """
     Return a version of `arr` cast to the minimum dtype that will hold its
-    range of values after multiplying by `offset` and adding `scale`.
+    range of values before and after multiplying by `scale` and adding
+    `offset`. If `arr`'s own dtype will hold them, returns `arr` itself.
 
     Supports:
 
     float32, float64, uint8, int8, uint16, int16, uint32, int32, uint64, int64.
     """
-    if arr.dtype.char not in 'bBhHiIlLqQnNpPf':
+    if arr.dtype.kind not in 'iuf':
         raise TypeError(f"This function does not support {arr.dtype.name}")
-    if arr.dtype.char in 'fd' or int(scale + offset) != scale + offset:
-        bases, widths, infofunc = ('f',), (4, 8), np.finfo
+    values = arr.compressed() if isinstance(arr, np.ma.MaskedArray) else arr
+    if arr.dtype.kind == 'f':
+        values = values[np.isfinite(values)]
+        candidates, infofunc = ('f4', 'f8'), np.finfo
     else:
-        bases, widths, infofunc = ('u', 'i'), (1, 2, 4, 8), np.iinfo
-    amin, amax = map(int, (arr.min(), arr.max()))
-    smin, smax = amin * scale + offset, amax * scale + offset
-    for base, width in product(bases, widths):
-        candidate = np.dtype(f'{base}{width}')
+        candidates, infofunc = [
+            f'{base}{width}' for width in (1, 2, 4, 8) for base in 'ui'
+        ], np.iinfo
+    extremes = [values.min().item(), values.max().item()] if values.size else []
+    scales, offsets = np.ravel(scale).tolist(), np.ravel(offset).tolist()
+    scaled = [e * s for e, s in product(extremes, scales)]
+    bounds = extremes + scales + offsets + scaled
+    bounds += [s + o for s, o in product(scaled, offsets)]
+    for candidate in (arr.dtype, *map(np.dtype, candidates)):
         cinfo = infofunc(candidate)
-        if smin >= cinfo.min and smax <= cinfo.max:
-            return arr.astype(candidate)
-    raise TypeError("Unable to find a suitable data type for scaling.")
+        if cinfo.min <= min(bounds) and max(bounds) <= cinfo.max:
+            return arr.astype(candidate, copy=False)
+    return arr.astype('f8')
 
 
-def overflow_wrap(array_func):
-    @wraps(array_func)
-    def with_upcasting(arr, scale, offset, *args, **kwargs):
-        with warnings.catch_warnings():
-            warnings.filterwarnings("error", message=".*overflow enc.*")
-            try:
-                return array_func(arr, scale, offset, *args, **kwargs)
-            except (OverflowError, RuntimeWarning):
-                arr = fit_to_scale(arr, scale, offset)
-                return array_func(arr, scale, offset, *args, **kwargs)
-
-    return with_upcasting
+def _as_operand(value, obj):
+    """
+    Make `value` an array of `obj`'s dtype. If it is a sequence with one value
+    for each plane of `obj`, shape it to broadcast along the planes of `obj`.
+    """
+    value = np.asarray(value, dtype=obj.dtype)
+    if len(obj) == value.size > 1:
+        value = value.reshape(-1, *(1 for _ in obj.shape[1:]))
+    return value
 
 
 def _copy_scale(obj, offset, scale):
-    try:
-        # TODO: we should also be doing this per-plane scaling in inplace case
-        if len(obj) == len(scale) == len(offset) > 1:
-            planes = [
-                obj[ix] * scale[ix] + offset[ix] for ix in range(len(scale))
-            ]
-            stacked = np.rollaxis(np.ma.dstack(planes), 2)
-            return stacked
-    except TypeError:
-        pass  # len() is not usable on a float object
     return obj * scale + offset
 
 
 def _inplace_scale(obj, offset, scale):
-    if len(obj) == len(scale) == len(offset) > 1:
-        for ix, _ in enumerate(scale):
-            obj[ix] = obj[ix] * scale[ix] + offset[ix]
-    else:
-        obj *= scale
-        obj += offset
+    obj *= scale
+    obj += offset
     return obj
 
 
@@ -172,15 +160,17 @@ def scale_array(
         return obj
     # try to perform the operation in-place if requested, although if
     # we're casting to float, we can't
-    # TODO: detect rollover cases, etc.
-    if inplace is True and not casting_to_float(obj, scale, offset):
-        return overflow_wrap(_inplace_scale)(obj, offset, scale)
-    # if we're casting to float, permit specification of dtype
-    # prior to operation (float64 is numpy's default and often excessive)
-    if casting_to_float(obj, scale, offset):
-        if float_dtype is not None:
-            obj = obj.astype(float_dtype)
-    return overflow_wrap(_copy_scale)(obj, offset, scale)
+    operands = np.ravel(scale).tolist() + np.ravel(offset).tolist()
+    if casting_to_float(obj, *operands):
+        # if we're casting to float, permit specification of dtype
+        # prior to operation (float64 is numpy's default and often excessive)
+        obj = obj.astype(np.float64 if float_dtype is None else float_dtype)
+        inplace = False
+    obj = fit_to_scale(obj, scale, offset)
+    scale, offset = _as_operand(scale, obj), _as_operand(offset, obj)
+    if inplace is True:
+        return _inplace_scale(obj, offset, scale)
+    return _copy_scale(obj, offset, scale)
 
 
 # TODO: shake this out much more vigorously
-- 
2.43.0


From a4a454460fa130b0c92834033bfcee4187fcf816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:13 +0000
Subject: [PATCH 025/113] fix: position and row stride of line prefix tables
 defined inside images

---
 pdr/loaders/queries.py | 10 +++++++---
 pdr/pdr.py             |  3 +++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index fe2b4bc..7d18dd4 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -304,10 +304,14 @@ def _fix_up_line_prefix_table_block(
     block = MultiDict(format_block)
     if "ROWS" not in block.keys():
         block["ROWS"] = block["LINES"]
+    if "ROW_BYTES" not in block.keys() and "LINE_PREFIX_BYTES" in block.keys():
+        block["ROW_BYTES"] = block["LINE_PREFIX_BYTES"]
     if "ROW_SUFFIX_BYTES" not in block.keys():
         block['ROW_SUFFIX_BYTES'] = (
-            block['SAMPLE_BITS'] // 8 * block['LINE_SAMPLES']
-        )
+            block['SAMPLE_BITS'] // 8
+            * block['LINE_SAMPLES']
+            * block.get("BANDS", 1)
+        ) + block.get("LINE_SUFFIX_BYTES", 0)
     return block
 
 
@@ -977,6 +981,6 @@ def standalone_start_byte(
     result = softquery(
         lambda fn, start_byte: None,
         START_BYTE_QUERIES,
-        kwargdict={"data": data, "name": "IMAGE"},
+        kwargdict={"data": data, "name": object_name},
     )
     return result['fn'], result['start_byte']
diff --git a/pdr/pdr.py b/pdr/pdr.py
index 704c46b..b33ae2a 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -461,6 +461,9 @@ class Data:
         is_comp, comp_paths = self._check_compressed_file_pointer(object_name)
         if is_comp is True:
             return comp_paths
+        # interleaved objects are in the same file as their parents
+        if object_name in self._interleaved_objects.keys():
+            object_name = self._interleaved_objects[object_name]['parent']
         target = self.metaget_(pointerize(object_name))
         if isinstance(target, Sequence) and not (isinstance(target, str)):
             if isinstance(target[0], str):
-- 
2.43.0


From 0fad5861be180a90333154ea16f6ecdc418c91c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:55 +0000
Subject: [PATCH 026/113] fix: use the record size of the FILE object that
 contains a pointer

When a label describes several files with their own RECORD_BYTES, record
numbers in pointers were always multiplied by the first one.
---
 pdr/loaders/queries.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 7d18dd4..1927e44 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -933,9 +933,36 @@ def load_format_file(
         raise FileNotFoundError
 
 
-def get_identifiers(data) -> dict[str, Any]:
-    """Query wrapper for `pdr.Data.__getattr__("identifiers")`"""
-    return data.identifiers
+def _find_containing_block(
+    block: Mapping, key: str
+) -> Optional[Mapping]:
+    """find the first (possibly nested) block that directly contains `key`."""
+    if key in block.keys():
+        return block
+    for value in block.values():
+        if not isinstance(value, Mapping):
+            continue
+        if (container := _find_containing_block(value, key)) is not None:
+            return container
+    return None
+
+
+def get_identifiers(data: PDRLike, name: str) -> dict[str, Any]:
+    """
+    Query wrapper for `pdr.Data.__getattr__("identifiers")`. If the pointer to
+    `name` is inside of a block that describes one of several files (usually a
+    FILE object), that file's record type and length take precedence over the
+    first ones given in the label.
+    """
+    if name in data._interleaved_objects.keys():
+        name = data._interleaved_objects[name]['parent']
+    container = _find_containing_block(data.metadata, pointerize(name))
+    if container is None or container is data.metadata:
+        return data.identifiers
+    return data.identifiers | {
+        k: container[k]
+        for k in ("RECORD_TYPE", "RECORD_BYTES") if k in container.keys()
+    }
 
 
 def get_none() -> None:
-- 
2.43.0


From 8eb0f4b2e187dbe7285f2f8bff279ee041edcc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 027/113] fix: find off-case files whose labelled names include
 a compression suffix

---
 pdr/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/utils.py b/pdr/utils.py
index dd8d10a..45a403a 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -92,9 +92,10 @@ def check_cases(
             return str(filename)
         if not path.parent.exists():
             continue
+        # the filename may itself include a compression extension
         matches = tuple(
             filter(
-                lambda p: stem_path(p) == Path(filename).name.lower(),
+                lambda p: path.name.lower() in (stem_path(p), p.name.lower()),
                 path.parent.iterdir(),
             )
         )
-- 
2.43.0


From 80e0438092216c87f9d326d88b59b3c569015936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:39 +0000
Subject: [PATCH 028/113] fix: line numbers of tables in stream files with
 attached labels

---
 pdr/loaders/queries.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 1927e44..7b42889 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -456,18 +456,16 @@ def _table_row_position(
     A return value of None for `length` implies that the table occupies the
     entirety of the file including and after `start`.
     """
-    if isinstance(target[1], dict):
-        # noinspection PyTypeChecker
-        start = target[1]["value"] - 1
+    if isinstance(target, (list, tuple)):
+        target = target[-1]
+    if isinstance(target, dict):
+        start = target["value"] - 1
+    elif isinstance(target, int):
+        start = target - 1
     else:
-        try:
-            start = target[1] - 1
-        except TypeError:
-            # You cannot subtract an integer from a string. If target[1] is a
-            # string, it implies that the PhysicalTarget is also a string,
-            # meaning that it specifies only a filename, which implies that the
-            # table starts at the beginning of the file.
-            start = 0
+        # if the PhysicalTarget is a string, it specifies only a filename,
+        # which implies that the table starts at the beginning of the file.
+        start = 0
     return n_records, start
 
 
-- 
2.43.0


From 3060a4f73939e4a789b3844b9cbfb2eea2531f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 029/113] fix: keep unused bytes out of single-column ASCII
 tables

---
 pdr/loaders/table.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index a691932..0798e26 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -244,6 +244,14 @@ def _read_table_from_stringio(
     """
     # TODO, maybe: add better delimiter detection & dispatch
     try:
+        if (
+            (~fmtdef["NAME"].str.contains("PLACEHOLDER")).sum() == 1
+            and {"BYTES", "START_BYTE"}.issubset(fmtdef.columns)
+            and "FIELD_DELIMITER" not in block.keys()
+        ):
+            # there is nothing to separate: anything else in the row is not
+            # part of the only column
+            raise IndexError("Single-column table.")
         sep = check_explicit_delimiter(block)
         return _read_as_delimited(sep, string_buffer, fmtdef)
     except (IndexError, UnicodeError, AttributeError, ParserError):
-- 
2.43.0


From 5a734f888f29aac7c1291f98e40887b925394d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 030/113] fix: read blank numeric fields of comma-separated
 tables as missing

They turned the whole column into text.
---
 pdr/loaders/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 0798e26..2c31bd1 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -157,7 +157,10 @@ def _read_as_delimited(
     Attempt to read an ASCII table as a delimiter-separated file. We always
     try this first before moving to a fixed-width parser.
     """
-    table = pd.read_csv(string_buffer, sep=sep, header=None)
+    # skipping spaces lets blank numeric fields be recognized as missing
+    table = pd.read_csv(
+        string_buffer, sep=sep, header=None, skipinitialspace=True
+    )
     # TODO: adding this 'PLACEHOLDER' check has allowed many tables to use
     #  read_csv() instead of read_fwf(), which is generally preferable
     #  because read_fwf() is very slow. This may also be able to invalidate
-- 
2.43.0


From 05569522f9431c08b279fcf65dd575d5fa14f099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 031/113] fix: containers of spreadsheet fields that have no
 START_BYTE

---
 pdr/loaders/queries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 7b42889..f0754c2 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -724,7 +724,7 @@ def place_container(
         # underspecified: assume it directly follows the preceding fields
         start = max(
             (
-                f["START_BYTE"] - 1
+                f.get("START_BYTE", 1) - 1
                 + (f.get("BYTES") or f.get("ITEMS", 1) * f.get("ITEM_BYTES", 0))
                 + f.get("CONTAINER_OFFSET", 0)
                 for f in fields
-- 
2.43.0


From 1fbc4f9a609cf05fe54faf5bc9dd2e4721168248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 032/113] fix: keep names of PDS4 fields that look like group
 names

---
 pdr/pdr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index b33ae2a..05b8c15 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -758,8 +758,11 @@ class Data:
             from pdr.pd_utils import structured_array_to_df
 
             df = structured_array_to_df(structure.data)
-            df.columns = df.columns.str.replace(r"GROUP_?\d+", "", regex=True)
-            df.columns = df.columns.str.strip(", ")
+            # drop the names pds4_tools makes up for unnamed groups, but leave
+            # the names of the fields themselves alone
+            df.columns = df.columns.str.replace(
+                r"(?:^|(?<=, ))GROUP_?\d+, ", "", regex=True
+            )
             setattr(self, object_name, df)
         # TODO: do other important cases exist?
         else:
-- 
2.43.0


From 82d09244071fbe5e64e5f8fd08d1c91d802ebabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 033/113] fix: read empty numeric fields of PDS4 delimited
 tables as missing

---
 pdr/pd_utils.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 6712a9c..223cd9e 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -279,6 +279,17 @@ def convert_ebcdic(
     return table
 
 
+def _mask_series(series: pd.Series, mask: np.ndarray) -> pd.Series:
+    """
+    Replace elements of a Series with missing values. Avoid casting integers
+    to float, because that would change large ones.
+    """
+    if mask.any() and series.dtype.kind in "iu":
+        array = pd.arrays.IntegerArray(series.to_numpy().copy(), mask)
+        return pd.Series(array, index=series.index, name=series.name)
+    return series.mask(mask)
+
+
 def rectified_rec_df(array: np.ndarray) -> pd.DataFrame:
     """
     Attempt to 'flatten' a 1- or 2D ndarray, possibly with a structured dtype
@@ -292,6 +303,16 @@ def rectified_rec_df(array: np.ndarray) -> pd.DataFrame:
         array = array.reshape(array.shape[0], array.shape[1] * array.shape[2])
     elif len(array.shape) > 3:
         raise NotImplementedError("dtypes with >2D elements are not supported")
+    if isinstance(array, np.ma.MaskedArray):
+        # the constructors used below ignore masks
+        df, mask = rectified_rec_df(array.data), np.ma.getmaskarray(array)
+        if len(array.dtype) != 0:
+            mask = np.vstack([mask[name] for name in array.dtype.names]).T
+        mask = mask.reshape(df.shape)
+        return pd.concat(
+            [_mask_series(df.iloc[:, i], mask[:, i]) for i in range(df.shape[1])],
+            axis=1
+        )
     if len(array.dtype) == 0:
         # if it doesn't have a structured dtype, don't call from_records --
         # it's slow and acts weird
-- 
2.43.0


From cda47068e378083bdc6ca8403bacfce8ad85f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 034/113] fix: keep trailing null bytes of PDS4 bit strings

---
 pdr/pd_utils.py | 24 +++++++++++++++++++++++-
 pdr/pdr.py      |  6 ++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 223cd9e..7b953b9 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -318,7 +318,29 @@ def rectified_rec_df(array: np.ndarray) -> pd.DataFrame:
         # it's slow and acts weird
         return pd.DataFrame(enforce_order_and_object(array))
     # but if it does, do
-    return pd.DataFrame.from_records(enforce_order_and_object(array))
+    records = enforce_order_and_object(array)
+    if len(records.dtype) == 0:  # a lone void field loses its name
+        return pd.DataFrame({array.dtype.names[0]: records})
+    return pd.DataFrame.from_records(records)
+
+
+def bytes_to_void(array: np.ndarray) -> np.ndarray:
+    """
+    View all bytestring fields of an ndarray with a structured dtype as void
+    fields, so that numpy will not discard their trailing null bytes.
+    """
+    dtype = []
+    for name in array.dtype.names:
+        base, shape = array.dtype[name].base, array.dtype[name].shape
+        if base.kind == "S":
+            base = np.dtype(f"V{base.itemsize}")
+        dtype.append((name, base, shape))
+    if np.dtype(dtype) == array.dtype:
+        return array
+    voided = np.empty(array.shape, dtype)
+    for name, base, _ in dtype:
+        voided[name] = array[name].view(base)
+    return voided
 
 
 def structured_array_to_df(array: np.ndarray) -> pd.DataFrame:
diff --git a/pdr/pdr.py b/pdr/pdr.py
index 05b8c15..a3b6f99 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -755,9 +755,11 @@ class Data:
 
             setattr(self, object_name, np.asarray(structure.data))
         elif structure.is_table():
-            from pdr.pd_utils import structured_array_to_df
+            from pdr.pd_utils import bytes_to_void, structured_array_to_df
 
-            df = structured_array_to_df(structure.data)
+            # text is already decoded at this point, so anything that is still
+            # bytes is a bit string, whose trailing null bytes are significant
+            df = structured_array_to_df(bytes_to_void(structure.data))
             # drop the names pds4_tools makes up for unnamed groups, but leave
             # the names of the fields themselves alone
             df.columns = df.columns.str.replace(
-- 
2.43.0


From 463c2ab8c2ea89d4b9aeb779f5a70eb68aec427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 035/113] fix: byte order of lone fields next to object fields

---
 pdr/np_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 1658dec..40359af 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -38,7 +38,9 @@ def enforce_order_and_object(array: np.ndarray, inplace=True) -> np.ndarray:
             return void_return.astype("O")
         if dtype.isnative:
             return array
-        return array.byteswap().view(array.dtype.newbyteorder("="))
+        # not byteswap().view(), which fails for one field of an array that
+        # also has object fields
+        return array.astype(array.dtype.newbyteorder("="))
     swap_targets = []
     swapped_dtype = []
     for name, field in array.dtype.fields.items():
-- 
2.43.0


From 471d2ffcf181fd7b55d2425c349897a371a0a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 036/113] fix: mask special constants of unscaled PDS4 arrays,
 and leave the unscaled array alone

---
 pdr/_scaling.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 43d69fa..d58aed5 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -178,9 +178,13 @@ def scale_array(
 def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     """see pds4_tools.reader.read_arrays.new_array"""
     # TODO: apply bit_mask
-    from pdr.pds4_tools.reader.data_types import apply_scaling_and_value_offset
+    from pdr.pds4_tools.reader.data_types import (
+        apply_scaling_and_value_offset, mask_special_constants
+    )
 
-    array = struct.data
+    # apply_scaling_and_value_offset() works in place where it can, and does
+    # not mask anything if there is nothing to scale
+    array = struct.data.copy()
     element_array = struct.meta_data["Element_Array"]
     scale_kwargs = {
         "scaling_factor": element_array.get("scaling_factor"),
@@ -190,9 +194,8 @@ def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     #     dtype = pds_to_numpy_type(struct.meta_data.data_type(),
     #     data=array, **scale_kwargs)
     special_constants = struct.meta_data.get("Special_Constants")
-    array = apply_scaling_and_value_offset(
-        array, special_constants=special_constants, **scale_kwargs
-    )
+    array = mask_special_constants(array, special_constants)
+    array = apply_scaling_and_value_offset(array, **scale_kwargs)
     if hasattr(array, "mask"):
         return np.ma.masked_array(np.asarray(array.data), array.mask)
     return np.asarray(array)
-- 
2.43.0


From 95af4c6f48a147a3b51a229ee29eb514509b1d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 037/113] fix: scale and mask complex PDS4 arrays

---
 pdr/pds4_tools/reader/data_types.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdr/pds4_tools/reader/data_types.py b/pdr/pds4_tools/reader/data_types.py
index a1b442c..5103162 100644
--- a/pdr/pds4_tools/reader/data_types.py
+++ b/pdr/pds4_tools/reader/data_types.py
@@ -932,6 +932,9 @@ def get_scaled_numpy_type(data_type=None, data=None, scaling_factor=None, value_
         new_dtype = data_dtype
 
     # Data should be double precision
+    elif np.issubdtype(data_dtype, np.complexfloating):
+        new_dtype = 'complex128'
+
     elif data_is_float or scaling_is_float or offset_is_float:
         new_dtype = 'float64'
 
@@ -1059,7 +1062,8 @@ def mask_special_constants(data, special_constants, mask_strings=False, copy=Fal
             # The data == value equality check below only works on similar data types, otherwise it will raise
             # warnings/errors. Thus we circumvent this by assuming equality is False when this is guaranteed.
             compatible_dtypes = (data.dtype.kind == np.asarray(value).dtype.kind) or \
-                                (data.dtype.kind in 'fui' and np.asarray(value).dtype.kind in 'ui') or \
+                                (data.dtype.kind in 'cfui' and np.asarray(value).dtype.kind in 'ui') or \
+                                (data.dtype.kind == 'c' and np.asarray(value).dtype.kind == 'f') or \
                                 (data.dtype == np.object_) or (np.asarray(value).dtype == np.object_)
 
             # Mask the Special_Constants, except for valid_* constants (which are actually valid data)
-- 
2.43.0


From f86191bdef81f912b234dce2eeb8918c9269d8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 038/113] fix: PDS4 special constants that do not fit the data
 type

---
 pdr/_scaling.py                     | 5 +++--
 pdr/pds4_tools/reader/data_types.py | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index d58aed5..5a4feb6 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -183,8 +183,9 @@ def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     )
 
     # apply_scaling_and_value_offset() works in place where it can, and does
-    # not mask anything if there is nothing to scale
-    array = struct.data.copy()
+    # not mask anything if there is nothing to scale. comparisons with numbers
+    # that do not fit their dtype do not work for pds4_tools arrays
+    array = np.array(struct.data)
     element_array = struct.meta_data["Element_Array"]
     scale_kwargs = {
         "scaling_factor": element_array.get("scaling_factor"),
diff --git a/pdr/pds4_tools/reader/data_types.py b/pdr/pds4_tools/reader/data_types.py
index 5103162..c4285af 100644
--- a/pdr/pds4_tools/reader/data_types.py
+++ b/pdr/pds4_tools/reader/data_types.py
@@ -1068,8 +1068,12 @@ def mask_special_constants(data, special_constants, mask_strings=False, copy=Fal
 
             # Mask the Special_Constants, except for valid_* constants (which are actually valid data)
             if (not key.startswith('valid_')) and compatible_dtypes:
-                data = np.ma.masked_where(data == value, data, copy=copy)
-                data.set_fill_value(value)
+                matches = np.ma.filled(data == value, False)
+                data = np.ma.masked_where(matches, data, copy=copy)
+
+                # (otherwise, value may not fit the data type)
+                if matches.any():
+                    data.set_fill_value(value)
 
     return data
 
-- 
2.43.0


From 2952443f39968701ce9032054777a1c42e64c94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:33 +0000
Subject: [PATCH 039/113] fix: negative factors and offsets of unsigned PDS4
 arrays

---
 pdr/pds4_tools/reader/data_types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdr/pds4_tools/reader/data_types.py b/pdr/pds4_tools/reader/data_types.py
index c4285af..1b4afd1 100644
--- a/pdr/pds4_tools/reader/data_types.py
+++ b/pdr/pds4_tools/reader/data_types.py
@@ -784,13 +784,15 @@ def apply_scaling_and_value_offset(data, scaling_factor=None, value_offset=None,
     # Apply scaling factor and value offset
     # (workaround inability of NumPy 2.0+ to add / multiply in cases where
     #  value on right of operand is out-of-bounds of dtype, see PR #99)
+    # (the data type has been made large enough for the result, but in-place
+    #  operation also needs operands whose type can be safely cast to it)
     if not no_scaling:
 
         scale_dtype = None
         if isinstance(scaling_factor, six.integer_types):
             scale_dtype = get_min_integer_numpy_type([scaling_factor])
 
-        data *= np.array(scaling_factor, dtype=scale_dtype)
+        data *= np.array(scaling_factor, dtype=scale_dtype).astype(data.dtype)
 
     if not no_offset:
 
@@ -798,7 +800,7 @@ def apply_scaling_and_value_offset(data, scaling_factor=None, value_offset=None,
         if isinstance(value_offset, six.integer_types):
             offset_dtype = get_min_integer_numpy_type([value_offset])
 
-        data += np.array(value_offset, dtype=offset_dtype)
+        data += np.array(value_offset, dtype=offset_dtype).astype(data.dtype)
 
     # Cast down integers if possible
     # (see note in `adjust_array_data_type` for why this can be necessary)
-- 
2.43.0


From d766c157d3b75f5a43453b4d51d8054123723477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:32 +0000
Subject: [PATCH 040/113] fix: mask every special constant of single-precision
 PDS4 arrays

---
 pdr/pds4_tools/reader/data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/pds4_tools/reader/data_types.py b/pdr/pds4_tools/reader/data_types.py
index 1b4afd1..128a95b 100644
--- a/pdr/pds4_tools/reader/data_types.py
+++ b/pdr/pds4_tools/reader/data_types.py
@@ -1070,7 +1070,8 @@ def mask_special_constants(data, special_constants, mask_strings=False, copy=Fal
 
             # Mask the Special_Constants, except for valid_* constants (which are actually valid data)
             if (not key.startswith('valid_')) and compatible_dtypes:
-                matches = np.ma.filled(data == value, False)
+                # (a masked array would convert value to double precision)
+                matches = np.ma.getdata(data).view(np.ndarray) == value
                 data = np.ma.masked_where(matches, data, copy=copy)
 
                 # (otherwise, value may not fit the data type)
-- 
2.43.0


From 255c5c57d2036aae28cbf52d47031717f09ba4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 041/113] fix: PDS4 objects whose names are not unique or are
 attributes of Data

---
 pdr/pdr.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index a3b6f99..d0c82db 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 from functools import partial, cache
-from itertools import chain, product
+from itertools import chain, count, product
 from numbers import Number
 from pathlib import Path
 from typing import (
@@ -343,9 +343,17 @@ class Data:
         structure_list = pds4.read(
             self.labelname, lazy_load=True, quiet=True, no_scale=True
         )
-        for structure in structure_list.structures:
-            self._pds4_structures[structure.id.replace(" ", "_")] = structure
-            self.index.append(structure.id.replace(" ", "_"))
+        # objects are attributes of self, so they need names of their own
+        reserved = {"label", "metadata", *dir(self)}
+        names = [s.id.replace(" ", "_") for s in structure_list.structures]
+        taken = reserved.union(names)
+        for name, structure in zip(names, structure_list.structures):
+            if name in reserved or names.count(name) > 1:
+                numbered = (f"{name}_{i}" for i in count())
+                name = next(n for n in numbered if n not in taken)
+                taken.add(name)
+            self._pds4_structures[name] = structure
+            self.index.append(name)
         self._pds4_structures["label"] = structure_list.label
         self.index.append("label")
 
-- 
2.43.0


From 0144930bae2d2c7a7787efb032f6bdc9b242ab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 042/113] fix: headers of reloaded FITS HDUs

---
 pdr/pdr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index d0c82db..c910680 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -658,6 +658,8 @@ class Data:
             self._hdulist,
             hdu_id_is_index=True
         )
+        # astropy edits headers in memory when it scales the data they describe
+        obj[f"{object_name}_HEADER"] = self.metadata[object_name].copy()
         if obj.__class__.__name__ == "ndarray":
             self._scaleflags[object_name] = True
         return obj
-- 
2.43.0


From 8b54d9827abfc6385606fad58874aa2e0b6d5f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:51 +0000
Subject: [PATCH 043/113] fix: names of FITS HDUs with repeated names, or with
 HEADER in them

---
 pdr/loaders/handlers.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index a413377..f420829 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -6,6 +6,7 @@ libraries that provide high-level support for specific file formats, including
 
 from __future__ import annotations
 
+from itertools import count
 from typing import Optional, TYPE_CHECKING, Union
 import warnings
 
@@ -75,12 +76,7 @@ def handle_fits_file(
         # this is the case when dealing with a FITS file in 'primary' mode.
         # This is a little sloppy, but it is more convenient to handle certain
         # things upstream. may want to collapse the two cases at some point.
-        hdu_ix = hdu_id
-        is_header = (
-            "HEADER" in name
-            # cases where HDUs are named things like "IMAGE HEADER"
-            and name not in [h[1] for h in hdulist.info(False)]
-        )
+        hdu_ix, is_header = hdu_id, False
     try:
         hdr_val = handle_fits_header(hdulist, hdu_ix)
     # astropy.io.fits does not call any verification on read. on 'output'
@@ -306,14 +302,18 @@ def unpack_fits_headers(
     if hdulist is None:
         hdulist = fits.open(filename)
     namegroups = groupby(lambda hi: hi[1], hdulist.info(False))
+    taken = set(namegroups)
     for name, group in namegroups.items():
         if len(group) == 1:
             hdu_ix = group[0][0]
             headerdict.add(name, handle_fits_header(hdulist, hdu_ix))
             hdumap[name] = hdu_ix
             continue
-        for ix, hdu in enumerate(group):
-            hdu_ix, hdu_name = hdu[0], f'{name}_{ix}'
+        ix = count()
+        for hdu in group:
+            # (another HDU might already be named like that)
+            hdu_name = next(n for i in ix if (n := f'{name}_{i}') not in taken)
+            hdu_ix = hdu[0]
             headerdict.add(hdu_name, handle_fits_header(hdulist, hdu_ix))
             hdumap[hdu_name] = hdu_ix
     params = []
-- 
2.43.0


From 42e2b0aedb4b61edf1cdaaee840f2103ac3d4b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:54 +0000
Subject: [PATCH 044/113] fix: headers of FITS HDUs next to HDUs named like
 them

---
 pdr/pdr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index c910680..e563d63 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -659,7 +659,12 @@ class Data:
             hdu_id_is_index=True
         )
         # astropy edits headers in memory when it scales the data they describe
-        obj[f"{object_name}_HEADER"] = self.metadata[object_name].copy()
+        header_name = f"{object_name}_HEADER"
+        obj[header_name] = self.metadata[object_name].copy()
+        if header_name in self._hdumap:  # another HDU has that name
+            numbered = (f"{header_name}_{i}" for i in count())
+            free = next(n for n in numbered if n not in self._hdumap)
+            obj[free] = obj.pop(header_name)
         if obj.__class__.__name__ == "ndarray":
             self._scaleflags[object_name] = True
         return obj
-- 
2.43.0


From 3bf08a5261628af24c12c9966bc6354e1d551d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 045/113] fix: FITS objects described by PDS3 and PDS4 labels

A label may name an object X_HEADER that is not the header of object X's HDU:
loading X replaced it. PDS4 headers were added under a name that was not their
key if they had a local identifier, or from another file. Record numbers over
2880 could be taken for byte positions, and file name pointers did not match
compressed files.
---
 pdr/loaders/queries.py | 13 ++++++++-----
 pdr/pdr.py             | 33 +++++++++++++++++++++++++--------
 2 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index f0754c2..4e630b2 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -350,14 +350,14 @@ def get_target(data: PDRLike, name: str) -> PhysicalTarget:
     return target
 
 
-def _agnostic_fits_index(is_header, target, hdulist):
+def _agnostic_fits_index(is_header, target, hdulist, factors=(2880, 1)):
     from pdr.loaders.handlers import hdu_byte_index
 
     hix = hdu_byte_index(hdulist)
     # check both byte and FITS record specification, attempting to weed out
     # the ambiguous edge case where data/header are separated by one record.
     # this will not _always_ work.
-    for factor in (1, 2880):
+    for factor in factors:
         matches = [
             t for t in ((target - 1) * factor, target * factor)
             if t in hix.keys()
@@ -377,19 +377,22 @@ def get_fits_start_byte(
     # TODO, maybe: this feels a bit redundant with data_start_byte(), but the
     #  logic _is_ legitimately different.
     if isinstance(target, str):
-        if target.lower() == Path(fn).name.lower():
+        # fn was found by name, possibly with a compression suffix
+        if Path(fn).name.lower().startswith(Path(target).name.lower()):
             target = 0
         else:
             # this should never happen!
             raise ValueError("This appears to point to the wrong file.")
     elif isinstance(target, (list, tuple)):
         target = target[1]
+    # values without units are probably records
+    factors = (2880, 1)
     if isinstance(target, dict):
         if target['units'] == 'BYTES':
-            target = target['value']
+            target, factors = target['value'], (1, 2880)
         else:
             target = target['value'] * 2880
-    return _agnostic_fits_index('HEADER' in name, target, hdulist)
+    return _agnostic_fits_index('HEADER' in name, target, hdulist, factors)
 
 
 def get_hdulist(fn):
diff --git a/pdr/pdr.py b/pdr/pdr.py
index e563d63..1b5bf91 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -707,12 +707,14 @@ class Data:
     #  duplicate header objects, one like "object_name_HEADER" and one like
     #  "HEADER_0", etc. This can also happen for PDS3, so maybe this is just
     #  an acceptable interface idiom.
-    def _find_fits_header_pds4_id(self, start_byte: int) -> Optional[str]:
+    def _find_fits_header_pds4_id(
+        self, start_byte: int, filename: str
+    ) -> Optional[str]:
         """
-        Given start byte for an HDU's data segment, check to see if the
-        PDS4 product associated with self includes that HDU's header as a
-        distinct data object with a local identifier. If it is, return the
-        PDS4 local identifier of that object. If not, return None.
+        Given start byte for an HDU's data segment in a file, check to see if
+        the PDS4 product associated with self includes that HDU's header as a
+        distinct data object with a name or local identifier. If it does,
+        return our key for that object. If not, return None.
         """
         from pdr.pds4_tools.reader.header_objects import HeaderStructure
 
@@ -725,10 +727,12 @@ class Data:
             meta = v.meta_data
             if 'object_length' not in meta.keys():
                 continue
+            if v.parent_filename != filename:
+                continue
             if meta['offset'] + meta['object_length'] == start_byte:
-                if 'name' not in meta.keys():
+                if not {'name', 'local_identifier'}.intersection(meta.keys()):
                     return None
-                return meta['name'].replace(' ', '_')
+                return k
 
         return None
 
@@ -760,7 +764,15 @@ class Data:
             )
             if structure.is_header() is True:
                 return self._add_loaded_objects(result)
-            if (hid := self._find_fits_header_pds4_id(offset)) is not None:
+            hid = self._find_fits_header_pds4_id(
+                offset, structure.parent_filename
+            )
+            if hid is None and (
+                f"{object_name}_HEADER" in self._pds4_structures
+            ):
+                # the label gives that name to something else
+                result.pop(f"{object_name}_HEADER")
+            if hid is not None:
                 result[hid] = result.pop(f"{object_name}_HEADER")
             if structure.is_array() is True:
                 self._scaleflags[object_name] = True
@@ -858,6 +870,11 @@ class Data:
         # TODO: assess whether there are non-GeoTIFF TIFFs floating around in
         #  the PDS that might still require scaling.
         unwrap = loader.func.__self__ if self.debug is True else loader
+        if unwrap.__class__.__name__ == "ReadFits" and (
+            pointerize(f"{pointer}_HEADER") in self.pointers
+        ):
+            # the label says where that object is, maybe not in this HDU
+            obj.pop(f"{pointer}_HEADER", None)
         if (
             (unwrap.__class__.__name__ == "ReadFits")
             and (obj[pointer].__class__.__name__ == "ndarray")
-- 
2.43.0


From 2a13d646037542da3d1e92ca9365edb0f4555837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 046/113] fix: FITS HDUs whose names are attributes of Data

---
 pdr/loaders/handlers.py | 11 +++++++----
 pdr/pdr.py              |  4 +++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index f420829..cf4da44 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -7,7 +7,7 @@ libraries that provide high-level support for specific file formats, including
 from __future__ import annotations
 
 from itertools import count
-from typing import Optional, TYPE_CHECKING, Union
+from typing import Collection, Optional, TYPE_CHECKING, Union
 import warnings
 
 from cytoolz import groupby
@@ -286,14 +286,17 @@ def add_bit_column_info(
 
 
 def unpack_fits_headers(
-    filename: Union[str, Path], hdulist: Optional[HDUList] = None
+    filename: Union[str, Path],
+    hdulist: Optional[HDUList] = None,
+    reserved: Collection[str] = (),
 ) -> tuple[MultiDict, list[str], dict[str, int]]:
     """
     Unpack all headers in a FITS file into a MultiDict and flattened list of
     keys suitable for constructing a `pdr.Metadata` object, along with a
     mapping between HDU names and indices. Used when opening a FITS file in
     "primary" mode (i.e., directly from its own headers, without a supporting
-    PDS3 or PDS4 label).
+    PDS3 or PDS4 label). HDUs that share a name, or whose name is in
+    `reserved`, are numbered.
     """
     from astropy.io import fits
 
@@ -304,7 +307,7 @@ def unpack_fits_headers(
     namegroups = groupby(lambda hi: hi[1], hdulist.info(False))
     taken = set(namegroups)
     for name, group in namegroups.items():
-        if len(group) == 1:
+        if len(group) == 1 and name not in reserved:
             hdu_ix = group[0][0]
             headerdict.add(name, handle_fits_header(hdulist, hdu_ix))
             hdumap[name] = hdu_ix
diff --git a/pdr/pdr.py b/pdr/pdr.py
index 1b5bf91..b3fe6bd 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -817,8 +817,10 @@ class Data:
         if self.standard == "FITS":
             from pdr.loaders.handlers import unpack_fits_headers
 
+            # objects are attributes of self, so they need names of their own
+            reserved = {"metadata", *dir(self)}
             mapping, params, self._hdumap = unpack_fits_headers(
-                self.filename, hdulist=self._hdulist
+                self.filename, self._hdulist, reserved
             )
             return Metadata((mapping, params), standard="FITS")
         if self.standard == "PDS4":
-- 
2.43.0


From 875a91d1854d1ba30be09076de76949dce6b2c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 047/113] fix: reload objects from their files

Headers inferred while loading FITS objects could not be reloaded, and
reloading PDS4 objects or HDUs of FITS files gave the arrays already in memory,
including any changes made to them.
---
 pdr/pdr.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index b3fe6bd..9ecc1a5 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -276,6 +276,8 @@ class Data:
         # data structure recording interleaved PDS3 objects not defined at top
         # level, intended for things like axplanes and line prefix tables
         self._interleaved_objects = {}
+        # objects not in the index at first, and the objects they came with
+        self._inferred_objects = {}
         # Attempt to identify and assign a label file
         self.labelname = associate_label_file(
             self.filename, label_fn, skip_existence_check
@@ -564,17 +566,19 @@ class Data:
                 f"{name} is already loaded; pass reload=True to "
                 f"force reload."
             )
+        # objects inferred while loading others are reloaded with them
+        name = self._inferred_objects.get(name, name)
         if self.standard == "PDS4":
             return self._load_pds4(name)
         if self.standard == "FITS":
-            self._add_loaded_objects(self._load_primary_fits(name))
+            self._add_loaded_objects(self._load_primary_fits(name), name)
             return
         if self.standard in DESKTOP_IMAGE_STANDARDS:
             from pdr.loaders.handlers import handle_compressed_image
 
             if self.metaget("n_frames", 1) == 1:
                 self._add_loaded_objects(
-                    {name: handle_compressed_image(self.filename)}
+                    {name: handle_compressed_image(self.filename)}, name
                 )
                 return
             # TODO: hacky!
@@ -583,7 +587,7 @@ class Data:
             else:
                 seek = int(name.split("_")[-1])
             self._add_loaded_objects(
-                {name: handle_compressed_image(self.filename, seek)}
+                {name: handle_compressed_image(self.filename, seek)}, name
             )
             return
         if self.file_mapping.get(name) is None:
@@ -599,7 +603,7 @@ class Data:
                 raise TypeError(
                     f"loader returned non-dict object of type ({type(obj)}"
                 )
-            self._add_loaded_objects(obj)
+            self._add_loaded_objects(obj, name)
             return
         except DebugExceptionPreempted:
             pass
@@ -613,13 +617,16 @@ class Data:
             warnings.warn(f"Unable to load {name}: {ex}")
         setattr(self, name, self.metaget_(name))
 
-    def _add_loaded_objects(self, obj: Mapping[str, Any]):
-        """Helper for `load()`. Ingests objects returned by a `Loader`."""
+    def _add_loaded_objects(self, obj: Mapping[str, Any], name: str):
+        """
+        Helper for `load()`. Ingests objects returned by a `Loader` for `name`.
+        """
         for k, v in obj.items():
             if v is not None:
                 setattr(self, k, v)
                 if k not in self.index:
                     self.index.append(k)
+                    self._inferred_objects[k] = name
 
     def load_all(self):
         """Handler (and alias) for `Data.load("all")`."""
@@ -651,6 +658,12 @@ class Data:
         """Handle loading an HDU from a FITS file in "primary" FITS mode."""
         from pdr.loaders.handlers import handle_fits_file
 
+        if "data" in vars(self._hdulist[self._hdumap[object_name]]):
+            # astropy would return the same, possibly modified, object again
+            from astropy.io import fits
+
+            self._hdulist.close()
+            self._hdulist = fits.open(self.filename)
         obj = handle_fits_file(
             self.filename,
             object_name,
@@ -746,6 +759,8 @@ class Data:
         it to our internal FITS-loading workflow.
         """
         structure = self._pds4_structures[object_name]
+        # if this is a reload, have pds4_tools read the file again
+        vars(structure).pop("data", None)
         from pdr.pds4_tools.reader.label_objects import Label
 
         if isinstance(structure, Label):
@@ -763,7 +778,7 @@ class Data:
                 structure.parent_filename, object_name, offset
             )
             if structure.is_header() is True:
-                return self._add_loaded_objects(result)
+                return self._add_loaded_objects(result, object_name)
             hid = self._find_fits_header_pds4_id(
                 offset, structure.parent_filename
             )
@@ -776,7 +791,7 @@ class Data:
                 result[hid] = result.pop(f"{object_name}_HEADER")
             if structure.is_array() is True:
                 self._scaleflags[object_name] = True
-            self._add_loaded_objects(result)
+            self._add_loaded_objects(result, object_name)
         elif structure.is_array():
             import numpy as np
 
-- 
2.43.0


From 61cce5767f03769817d06a1aa8c3d5867ab4fdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 048/113] fix: headers of FITS files that end within them

---
 pdr/loaders/handlers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index cf4da44..a40675f 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -36,7 +36,8 @@ def hdu_byte_index(obj: Union[str, Path, HDUList]) -> dict:
         hinfo = hdu.fileinfo()
         baserec = {'ix': hdu_ix, 'name': hdulinfo[hdu_ix][3]}
         info[hinfo['hdrLoc']] = baserec | {'part': 'header'}
-        info[hinfo['datLoc']] = baserec | {'part': 'data'}
+        if hinfo['datSpan'] > 0:
+            info[hinfo['datLoc']] = baserec | {'part': 'data'}
     return info
 
 
-- 
2.43.0


From fe5fca4ea5bc6b0f74c685d5168d0b849a2a874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 049/113] fix: opening products whose files with line prefix
 tables are missing

---
 pdr/loaders/queries.py | 7 +++++--
 pdr/pdr.py             | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 4e630b2..6cc7aef 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -1005,10 +1005,13 @@ def standalone_start_byte(
 ) -> tuple[Union[str, Path], int]:
     from pdr.func import softquery
 
-    data._target_path(object_name)
+    fn = data._target_path(object_name)
+    if fn is None:
+        # we can usually tell where an object would be in a missing file
+        fn = data._object_to_filename(object_name)
     result = softquery(
         lambda fn, start_byte: None,
         START_BYTE_QUERIES,
-        kwargdict={"data": data, "name": object_name},
+        kwargdict={"data": data, "name": object_name, "fn": fn},
     )
     return result['fn'], result['start_byte']
diff --git a/pdr/pdr.py b/pdr/pdr.py
index 9ecc1a5..36ad99e 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -396,6 +396,8 @@ class Data:
             im_fn_byte = standalone_start_byte(self, imname)
             found = False
             for pre in preobjs:
+                if pre in self._interleaved_objects:
+                    continue  # it belongs to another image
                 if standalone_start_byte(self, pre) == im_fn_byte:
                     self._interleaved_objects[pre] = {
                         'parent': imname, 'type': 'line_prefix_table'
-- 
2.43.0


From 9e73763b663f6fa97b6f7401eb4cace664b56837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 050/113] fix: warn about PDS4 and FITS objects whose files are
 missing or cut short

---
 pdr/pdr.py                           | 19 +++++++++++++++----
 pdr/pds4_tools/reader/read_arrays.py |  5 ++---
 pdr/pds4_tools/reader/read_tables.py |  5 +++++
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 36ad99e..98f5b8b 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -570,10 +570,21 @@ class Data:
             )
         # objects inferred while loading others are reloaded with them
         name = self._inferred_objects.get(name, name)
-        if self.standard == "PDS4":
-            return self._load_pds4(name)
-        if self.standard == "FITS":
-            self._add_loaded_objects(self._load_primary_fits(name), name)
+        if self.standard in ("PDS4", "FITS"):
+            try:
+                if self.standard == "PDS4":
+                    return self._load_pds4(name)
+                self._add_loaded_objects(self._load_primary_fits(name), name)
+                return
+            except Exception as ex:
+                if self.debug:
+                    raise
+                warnings.warn(f"Unable to load {name}: {ex}")
+            if self.standard == "PDS4":
+                label = self._pds4_structures[name].label
+                setattr(self, name, reformat_pds4_tools_label(label)[0])
+            else:
+                setattr(self, name, self.metadata[name])
             return
         if self.standard in DESKTOP_IMAGE_STANDARDS:
             from pdr.loaders.handlers import handle_compressed_image
diff --git a/pdr/pds4_tools/reader/read_arrays.py b/pdr/pds4_tools/reader/read_arrays.py
index 4c80e7c..448af38 100644
--- a/pdr/pds4_tools/reader/read_arrays.py
+++ b/pdr/pds4_tools/reader/read_arrays.py
@@ -227,9 +227,8 @@ def new_array(input, no_scale=False, no_bitmask=False, masked=None, copy=True, *
         if masked:
             array = mask_special_constants(array, special_constants=special_constants)
 
-        # Reshape array as necessary
-        if len(array_shape) > 1:
-            array = array.reshape(array_shape)
+        # Reshape array as necessary (this fails if the file ended before the array)
+        array = array.reshape(array_shape)
 
         # Assign data, and ensure data array is of requested type if it was already supplied
         array_structure.data = array.view(array_type)
diff --git a/pdr/pds4_tools/reader/read_tables.py b/pdr/pds4_tools/reader/read_tables.py
index 91b5cc4..9255bcf 100644
--- a/pdr/pds4_tools/reader/read_tables.py
+++ b/pdr/pds4_tools/reader/read_tables.py
@@ -923,6 +923,11 @@ def read_table_data(table_structure, no_scale, decode_strings, masked):
                                             field['location'] - 1, record_length,
                                             array_shape, group_locations, repetition_lengths)
 
+            # Do not make up data for a file that ends before the table does
+            if any(len(datum) < field['length'] for datum in extracted_data):
+                raise IOError("Unable to read field '{0}': file '{1}' is too short"
+                              .format(field['name'], table_structure.parent_filename))
+
         # Cast the byte data for this field into the appropriate data type
         try:
 
-- 
2.43.0


From 5e342ed0b685c7bf0a980028ad939b2dff76c1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 051/113] fix: printing metadata with blank or deeply nested
 values

---
 pdr/utils.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pdr/utils.py b/pdr/utils.py
index 45a403a..28d9ed4 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -194,8 +194,11 @@ def find_repository_root(absolute_path):
     return Path(*parts[: data_indices[-1]])
 
 
-def prettify_multidict(multi, sep=" ", indent=0):
-    """"""
+def prettify_multidict(multi, sep=" ", indent=0, one_line=False):
+    """
+    Format a (possibly nested) multidict. If it's too long to fit in a line,
+    give each of its items a line, or, if `one_line` is True, return None.
+    """
     indentation, output, first_line = "", "{", True
     for k, v in multi.items():
         if sep == "\n":
@@ -203,22 +206,24 @@ def prettify_multidict(multi, sep=" ", indent=0):
             if first_line is True:
                 output += "\n"
         if isinstance(v, MultiDict):
-            output += (
-                f"{indentation}{k}: "
-                f"{prettify_multidict(v, indent = indent + 2)},{sep}"
+            nested = prettify_multidict(
+                v, indent=indent + 2, one_line=sep == " "
             )
+            output += f"{indentation}{k}: {nested},{sep}"
         elif (not isinstance(v, str)) or (len(v) <= 70):
             output += f"{indentation}{k}: {v},{sep}"
         else:
-            lines = textwrap.wrap(v, width=(70 - len(indentation)))
-            vstr = f"{lines[0]}\n" + "\n".join(
+            lines = textwrap.wrap(v, width=max(70 - len(indentation), 1))
+            vstr = "".join(lines[:1]) + "\n" + "\n".join(
                 [(" " * (indent + 1)) + line for line in lines[1:]]
             )
             output += f"{indentation}{k}: {vstr},{sep}"
         first_line = False
         if sep != " ":
             continue
-        if len(output) > 70:
+        if len(output) > 70 or (isinstance(v, MultiDict) and nested is None):
+            if one_line is True:
+                return None
             return prettify_multidict(multi, sep="\n", indent=indent + 1)
     if len(indentation) > 0:
         indentation = indentation[:-1]
-- 
2.43.0


From 39842137262fcafce5c09fef931bd524f05ffdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 052/113] fix: reading labels some of whose values look like
 Python literals that cannot be evaluated

---
 pdr/parselabel/pds3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 2ed74a4..deeb601 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -321,7 +321,7 @@ def literalize_pvl(
             if (not obj.startswith('"')) and ("#" in obj[1:3]):
                 return parse_non_base_10(obj)
             return literal_eval(obj)
-    except (SyntaxError, ValueError):
+    except (SyntaxError, ValueError, TypeError, MemoryError, RecursionError):
         try:
             if ("<" in obj) and (">" in obj):
                 return parse_pvl_quantity_statement(obj)
@@ -360,7 +360,9 @@ def get_pds3_pointers(
     pointers and "^DATA_SET_MAP_PROJECTION").
     """
     return dig_for_keys(
-        label, lambda k, _: k.startswith("^"), mtypes=(dict, MultiDict)
+        label,
+        lambda k, _: isinstance(k, str) and k.startswith("^"),
+        mtypes=(dict, MultiDict),
     )
 
 
-- 
2.43.0


From e1153786a8b1ec84fa2e560e28910400dda758fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 053/113] fix: names of duplicated pointers that collide or
 have extra definitions

---
 pdr/parselabel/pds3.py | 54 +++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index deeb601..3bba52a 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -4,11 +4,12 @@ from __future__ import annotations
 import re
 import warnings
 from ast import literal_eval
+from itertools import count
 from numbers import Number
 from operator import eq
 from pathlib import Path
 from typing import (
-    Iterable, Optional, Type, Union, Collection, Any, Callable
+    Iterable, Iterator, Optional, Type, Union, Collection, Any, Callable
 )
 
 from cytoolz import groupby, identity
@@ -392,7 +393,7 @@ def index_duplicate_pointers(
     if pointers is None:
         return mapping, params
     # noinspection PyTypeChecker
-    pt_groups = groupby(identity, pointers)
+    pt_groups, taken = groupby(identity, pointers), set(params)
     for pointer, group in pt_groups.items():
         if (len(group) > 1) and \
                 not any(sub in pointer for sub in
@@ -407,39 +408,38 @@ def index_duplicate_pointers(
                 )
             else:
                 depoint = False
-            for ix in range(len(group)):
-                indexed_pointer = f"{pointer}_{ix}"
+            names = (pointer, depointerize(pointer))
+            for name in names[:1 + depoint]:
                 mapping = multidict_dig_and_edit(
                     input_multidict=mapping,
-                    target=pointer,
-                    input_object=list(range(len(group))),
+                    target=name,
+                    input_object=unused_numbers(names, taken),
                     setter_function=set_key_index,
                     key_editor=True,
                 )
-                params.append(indexed_pointer)
-                params.remove(pointer)
-                if depoint:
-                    depointer = depointerize(pointer)
-                    indexed_depointer = f"{depointer}_{ix}"
-                    mapping = multidict_dig_and_edit(
-                        input_multidict=mapping,
-                        target=depointer,
-                        input_object=list(range(len(group))),
-                        setter_function=set_key_index,
-                        key_editor=True,
-                    )
-                    params.append(indexed_depointer)
-                    if depointer in params:
-                        params.remove(depointer)
-
+                numbers = unused_numbers(names, taken)
+                params = [
+                    set_key_index(numbers, p) if p == name else p
+                    for p in params
+                ]
     return mapping, params
 
 
-def set_key_index(pointer_range: list[int], key: str) -> str:
+def unused_numbers(
+    names: Collection[str], taken: Collection[str]
+) -> Iterator[int]:
+    """
+    ascending integers that can be appended to all of some names without making
+    a name that is already taken
+    """
+    for i in count():
+        if not any(f"{name}_{i}" in taken for name in names):
+            yield i
+
+
+def set_key_index(numbers: Iterator[int], key: str) -> str:
     """
     utility setter function for `multidict_dig_and_edit()` as called by
-    `index_duplicate_pointers()`; appends a number from a list to a string
+    `index_duplicate_pointers()`; appends the next of some numbers to a string
     """
-    indexed_key = f"{key}_{pointer_range[0]}"
-    pointer_range.pop(0)
-    return indexed_key
+    return f"{key}_{next(numbers)}"
-- 
2.43.0


From d0492dfb23a2428ddbba5417b6594d8a747b53fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 054/113] fix: reject malformed PDS4 and too deeply nested
 labels with ValueError

---
 pdr/pdr.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 98f5b8b..6313407 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -304,14 +304,19 @@ class Data:
         ):
             self.standard = "PDS4"
             self._pds4_structures = {}
-            self._init_pds4()
+            try:
+                self._init_pds4()
+            except Exception as ex:
+                raise ValueError(
+                    f"Can't load this product's metadata: {ex}, {type(ex)}"
+                ) from ex
         else:
             self.standard = "PDS3"
         try:
             self.metadata = self.read_metadata(
                 pvl_limit=pvl_limit, strict_decode=strict_label_decode
             )
-        except (UnicodeError, FileNotFoundError) as ex:
+        except (UnicodeError, FileNotFoundError, RecursionError) as ex:
             raise ValueError(
                 f"Can't load this product's metadata: {ex}, {type(ex)}"
             )
-- 
2.43.0


From d2548bb16550d92014423c5a93785933ab1fd49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 055/113] fix: opening products whose line prefix tables are
 malformed

---
 pdr/pdr.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 6313407..de6ef21 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -460,7 +460,14 @@ class Data:
             # greedily consuming the filter so that we can mutate self.index
             filter(lambda n: "IMAGE" in n and "TABLE" not in n, self.index)
         ):
-            self._associate_prefix_tables(imname, preobjs)
+            try:
+                self._associate_prefix_tables(imname, preobjs)
+            except Exception as ex:
+                # don't let one malformed definition block everything else
+                warnings.warn(
+                    f"Can't interpret the line prefix tables of {imname}: "
+                    f"{type(ex)}: {ex}"
+                )
 
     def _object_to_filename(
         self, object_name: str
-- 
2.43.0


From dc950cf70f21280c79ae712cb6af93443a505e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 056/113] fix: labels of compressed data files

---
 pdr/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdr/utils.py b/pdr/utils.py
index 28d9ed4..44804da 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -246,9 +246,14 @@ def associate_label_file(
     elif any(f"ce{m}" in data_filename.lower() for m in "123456") and\
             data_filename.lower().endswith(CHANG_LBL_EXTENSIONS):
         return check_cases(data_filename)
+    # the label of a compressed file might have the name of the file it contains
+    stem = Path(data_filename)
+    if stem.suffix.lower() in SUPPORTED_COMPRESSION_EXTENSIONS:
+        stem = stem.with_suffix("")
     for lext in LABEL_EXTENSIONS:
+        names = [with_extension(fn, lext) for fn in (data_filename, stem)]
         try:
-            return check_cases(with_extension(data_filename, lext))
+            return check_cases(names)
         except FileNotFoundError:
             continue
     return None
-- 
2.43.0


From acfa71a36b8ffffa03248bd3faf881fb348ad5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 057/113] fix: extensions of PDS4 labels in other letter cases

---
 pdr/pdr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index de6ef21..bd73337 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -297,8 +297,7 @@ class Data:
                 # TODO: bad. need to not leave this open, although inefficient
                 self._hdulist = fits.open(self.filename)
         elif (
-            str(self.labelname).endswith(".xml") 
-            or str(self.labelname).endswith(".lblx")
+            str(self.labelname).lower().endswith((".xml", ".lblx"))
             or ("CE" in str(self.labelname) and
                 str(self.labelname).endswith((".2BL", ".2AL", ".2CL", ".01L")))
         ):
-- 
2.43.0


From e3f710d389822c15100bf6e1be489ca194f50620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 058/113] fix: default band of browse images with an odd number
 of bands

---
 pdr/browsify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 7c21d12..f0f3c9d 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -364,7 +364,7 @@ def _format_as_single_band(band_ix, obj):
     for multiband arrays that are not presumably rgb(a), or if we have been
     instructed to by the override_rgba argument, only export a single band.
     """
-    middle_ix = round(obj.shape[0] / 2)
+    middle_ix = obj.shape[0] // 2
     if band_ix is None:
         # by default, dump the middle band.
         warnings.warn(f"dumping only band {middle_ix} of this image")
-- 
2.43.0


From 74031f67fe934cb37f58b2f2575e67b45a406c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 059/113] fix: precision of integers in browse versions of
 tables with one row

---
 pdr/browsify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index f0f3c9d..4e3e615 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -171,8 +171,9 @@ def browsify(obj: Any, outbase: Union[str, Path], **dump_kwargs) -> None:
             _browsify_array(obj, outbase, **dump_kwargs)
     elif isinstance(obj, pd.DataFrame):
         if len(obj) == 1:
+            # as objects, because columns that are now rows keep their types
             # noinspection PyTypeChecker
-            obj.T.to_csv(outbase + ".csv"),
+            obj.astype(object).T.to_csv(outbase + ".csv"),
         else:
             obj.to_csv(outbase + ".csv")
     elif obj is None:
-- 
2.43.0


From f6991c26ab672bf91ba05cf89dc6b78982b14d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 060/113] fix: browse images of arrays that are constant but
 for outliers

---
 pdr/browsify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 4e3e615..2312bbe 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -88,7 +88,9 @@ def normalize_range(
     else:
         minimum, maximum = find_unmasked_bounds(image, cheat_low, cheat_high)
     if nice_clip is True and minimum == maximum:  # scaling was too intense
-        return image
+        minimum, maximum = image.min(), image.max()
+        if minimum == maximum:
+            return image
     if not ((cheat_high is None) and (cheat_low is None)):
         if inplace is True:
             image = np.clip(image, minimum, maximum, out=image)
-- 
2.43.0


From 76b0e27e08c0b3f67cebaed1552eda71cdef515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 061/113] fix: browse images of wide integers and of arrays
 with invalid values

---
 pdr/browsify.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 2312bbe..5c100a5 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -280,9 +280,12 @@ def _render_array(
             "Rendering browse images requires the optional pillow dependency."
         )
 
-    # upcast integer data types < 32-bit to prevent unhelpful wraparound
-    if (obj.dtype.char in np.typecodes["AllInteger"]) and (obj.itemsize <= 2):
-        obj = obj.astype(np.int32)
+    # upcast integer data types to prevent unhelpful wraparound
+    if obj.dtype.char in np.typecodes["AllInteger"]:
+        obj = obj.astype(np.int32 if obj.itemsize <= 2 else np.float64)
+    # values that have no brightness must not affect that of the others
+    elif (obj.dtype.kind == "f") and not np.isfinite(obj).all():
+        obj = np.ma.masked_invalid(obj)
     # convert to unsigned eight-bit integer to make it easy to write
     obj = eightbit(obj, image_clip, purge, nice_clip)
     # unless color_fill is set to None, fill masked elements -- probably
-- 
2.43.0


From ae6d325cedf79e2a6fa3a98b31f5e7ed26b2395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 062/113] fix: text files that are compressed or not in the
 default encoding

---
 pdr/loaders/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/text.py b/pdr/loaders/text.py
index 58cd558..757623b 100644
--- a/pdr/loaders/text.py
+++ b/pdr/loaders/text.py
@@ -135,5 +135,9 @@ def ignore_if_pdf(fn: Union[str, Path]) -> Optional[str]:
     if looks_like_this_kind_of_file(fn, [".pdf"]):
         warnings.warn(f"Cannot open {fn}; PDF files are not supported.")
         return
-    # TODO: should use a context manager to avoid dangling file handles
-    return open(check_cases(fn)).read()
+    with decompress(check_cases(fn)) as file:
+        text = file.read()
+    try:
+        return text.decode("UTF-8")
+    except UnicodeDecodeError:
+        return text.decode("ISO-8859-1")
-- 
2.43.0


From 7fa78b7536f176e06c6fb30e7e0da0832cd86593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 063/113] fix: headers longer than 80000 bytes

---
 pdr/loaders/text.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pdr/loaders/text.py b/pdr/loaders/text.py
index 757623b..b5182b6 100644
--- a/pdr/loaders/text.py
+++ b/pdr/loaders/text.py
@@ -120,9 +120,7 @@ def skeptically_load_header(
         else:
             with decompress(check_cases(fn)) as file:
                 file.seek(table_props["start"])
-                text = file.read(min(table_props["length"], 80000)).decode(
-                    "ISO-8859-1"
-                )
+                text = file.read(table_props["length"]).decode("ISO-8859-1")
         return text
     except (ValueError, OSError) as ex:
         warnings.warn(f"unable to parse {name}: {ex}")
-- 
2.43.0


From 94128ef62cb2dfbe6bbc3b772e42a85743806432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 064/113] fix: text of detached labels that are not valid UTF-8

---
 pdr/loaders/text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/text.py b/pdr/loaders/text.py
index b5182b6..0ba4fb7 100644
--- a/pdr/loaders/text.py
+++ b/pdr/loaders/text.py
@@ -8,6 +8,7 @@ import warnings
 
 from pdr.loaders._helpers import canonicalized
 from pdr.loaders.utility import looks_like_this_kind_of_file
+from pdr.parselabel.pds3 import looks_pvl
 from pdr.parselabel.utils import trim_label
 from pdr.utils import check_cases, decompress
 
@@ -49,7 +50,9 @@ def read_label(
     (typically by accessing the "LABEL" key of a `pdr.Data` object).
     """
     if fmt == "text":
-        return trim_label(decompress(fn))
+        with decompress(fn) as file:
+            # like the metadata: only check that attached labels are text
+            return trim_label(file, strict_decode=not looks_pvl(fn))
     elif fmt == "pvl":
         import pvl
 
-- 
2.43.0


From 42baf4de408b946eaf2c9ed9ac20d90afff6ee5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 065/113] fix: headers at lines of files whose records have no
 length

---
 pdr/loaders/queries.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 6cc7aef..0cf94b8 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -29,7 +29,9 @@ from pdr.loaders._helpers import (
 )
 from pdr.loaders.handlers import add_bit_column_info
 from pdr.parselabel.pds3 import pointerize, read_pvl, STRUCTUREPAT
-from pdr.utils import append_repeated_object, check_cases, find_repository_root
+from pdr.utils import (
+    append_repeated_object, check_cases, decompress, find_repository_root
+)
 
 if TYPE_CHECKING:
     from pdr.loaders.astrowrap.fits import HDUList
@@ -421,10 +423,13 @@ def data_start_byte(
             start_byte = 0
         elif record_bytes not in [None, ""]:
             start_byte = record_bytes * max(target - 1, 0)
-        elif "ROWS" in block.keys():
+        elif block is not None and {"ROWS", "ROW_BYTES"} <= set(block.keys()):
             rows = block["ROWS"]
             row_bytes = block["ROW_BYTES"]
             start_byte = max(0, count_from_bottom_of_file(fn, rows, row_bytes))
+        else:
+            # records without a length are lines
+            start_byte = _line_start_byte(fn, target)
     elif isinstance(target, dict):
         start_byte = quantity_start_byte(target, record_bytes)
     elif isinstance(target, str):
@@ -436,6 +441,15 @@ def data_start_byte(
     raise ValueError(f"Unknown data pointer format: {target}")
 
 
+def _line_start_byte(fn, line_number: int) -> int:
+    """Find the first byte of a line (counted from 1) of a text file."""
+    fn = fn[0] if isinstance(fn, list) else fn
+    with decompress(check_cases(fn)) as file:
+        for _ in range(line_number - 1):
+            file.readline()
+        return file.tell()
+
+
 def _extract_table_records(block):
     """
     Attempt to get the number of 'records', which can mean either row count
-- 
2.43.0


From b267bcab658a84968475f371ed3928db5b9e3e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 066/113] fix: identifiers in labels that are numbers

---
 pdr/pdr.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index bd73337..863940c 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -193,10 +193,14 @@ class Metadata(MultiDict):
             field: self.metaget_(field, "")
             for field in get_annotations(DataIdentifiers)
         }
-        # it never does us any favors to have tuples or sets in here
-        for k, v in identifiers.items():
-            if isinstance(v, (tuple, set)):
-                identifiers[k] = str(v)
+        # it never does us any favors to have tuples or sets in here, or
+        # anything but strings where special-case checks look for strings
+        for k, annotation in get_annotations(DataIdentifiers).items():
+            v = identifiers[k]
+            if isinstance(v, (tuple, set)) or (
+                "str" in str(annotation) and not isinstance(v, str)
+            ):
+                identifiers[k] = "" if v is None else str(v)
         return identifiers
 
     def __str__(self):
-- 
2.43.0


From d52c60073fe35a6e45cdf6432ed24819522dfe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 067/113] fix: reading products of the Mini-RF global mosaic
 without a PRODUCT_ID

---
 pdr/formats/checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 7002d8c..90aebaa 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -841,7 +841,7 @@ def check_special_block(
         return True, formats.lro.lamp_rdr_histogram_image_loader(data)
     if (
         identifiers["DATA_SET_ID"] == "LRO-L-MRFLRO-5-GLOBAL-MOSAIC-V1.0"
-        and "GLOBAL_S4_32PPD" in data.metaget_("PRODUCT_ID")
+        and "GLOBAL_S4_32PPD" in identifiers["PRODUCT_ID"]
         and name == "IMAGE"
     ):
         # typo in one of the labels
-- 
2.43.0


From 1cb3611addd1ec0f6de0c5f491161b76a5ed5b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 068/113] fix: products without an INSTRUMENT_NAME treated as
 those of JIRAM

---
 pdr/formats/checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 90aebaa..16cfe97 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -770,7 +770,7 @@ def check_special_bit_start_case(
     Special case checker used by get_bit_start_and_size() to fix
     incorrectly-defined bit offsets.
     """
-    if identifiers["INSTRUMENT_NAME"] in "JOVIAN INFRARED AURORAL MAPPER":
+    if identifiers["INSTRUMENT_NAME"] == "JOVIAN INFRARED AURORAL MAPPER":
         return formats.juno.bit_start_find_and_fix(
             list_of_pvl_objects_for_bit_columns, start_bit_list
         )
-- 
2.43.0


From 48f93b8eb7128ccdb4a09823c705c46cb256fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 069/113] fix: reading objects without an INTERCHANGE_FORMAT of
 a Voyager LECP data set

---
 pdr/formats/checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 16cfe97..0992079 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -262,8 +262,8 @@ def check_special_table_reader(
         return True, formats.voyager.lecp_table_loader(fn, fmtdef_dt)
     if (
         identifiers["DATA_SET_ID"] == "VG2-U-LECP-4-RDR-STEP-12.8MIN-V1.0"
-        and block["INTERCHANGE_FORMAT"] == "ASCII"
         and name == "TABLE"
+        and block.get("INTERCHANGE_FORMAT") == "ASCII"
     ):
         return True, formats.voyager.lecp_table_loader(fn, fmtdef_dt)
     if (
-- 
2.43.0


From 5ed6e5825c3f058160b840f49acdc058d4ce6dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 070/113] fix: products whose FILE_NAME contains words like
 IMAGE or TIME treated as those of Huygens

---
 pdr/formats/checkers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 0992079..558d8bb 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -79,7 +79,8 @@ def check_special_offset(
     if (
         identifiers["INSTRUMENT_NAME"] == "DESCENT IMAGER SPECTRAL RADIOMETER"
         and identifiers["PRODUCT_TYPE"] == "RDR"
-        or disrsubs.search(identifiers["FILE_NAME"])
+        or identifiers["INSTRUMENT_HOST_NAME"] == "HUYGENS PROBE"
+        and disrsubs.search(identifiers["FILE_NAME"])
     ):
         return formats.cassini.get_offset(fn, identifiers)
     if (
-- 
2.43.0


From a7b1eed67b66681c10ee736c7666cd8d3d75e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 071/113] fix: products treated as special cases because of the
 names of directories

---
 pdr/formats/checkers.py | 46 ++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 558d8bb..287d337 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -1344,64 +1344,66 @@ def check_special_pds4_cases(structure, filename, object_name):
     with pds4_tools. Mostly utilized by datasets not verified by the PDS but
     that have PDS4 labels (ISRO, ESA, CNSA etc).
     """
+    # names of directories do not make a product one of these
+    name = Path(filename).name
     if (
-            "CE6-L_GRAS_LMS-M" in filename and "SCI" in filename
-            and ".2B" in filename and object_name == "TABLE_0"
+            "CE6-L_GRAS_LMS-M" in name and "SCI" in name
+            and ".2B" in name and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "CE6-L_GRAS_LMS-S" in filename and "SCI" in filename
-            and ".2B" in filename and object_name == "TABLE_0"
+            "CE6-L_GRAS_LMS-S" in name and "SCI" in name
+            and ".2B" in name and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "CE6-L_GRAS_LMS-N" in filename and "SCI" in filename
-            and ".2B" in filename and object_name == "TABLE_0"
+            "CE6-L_GRAS_LMS-N" in name and "SCI" in name
+            and ".2B" in name and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "CE5-L_GRAS_LMS-N" in filename and ".2B" in filename
-            and "SCI" in filename and object_name == "TABLE_0"
+            "CE5-L_GRAS_LMS-N" in name and ".2B" in name
+            and "SCI" in name and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "CE5-L_GRAS_LMS-M" in filename and ".2B" in filename
-            and "SCI" in filename and object_name == "TABLE_0"
+            "CE5-L_GRAS_LMS-M" in name and ".2B" in name
+            and "SCI" in name and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "CE4_GRAS_ASAN-SCI_SCI" in filename and ".2B" in filename
+            "CE4_GRAS_ASAN-SCI_SCI" in name and ".2B" in name
             and object_name == "TABLE_0"
     ):
         return formats.change.read_table_using_spaces(structure, filename)
     if (
-            "CE4_GRAS_LND-DPSL_SCI" in filename and ".2A" in filename
+            "CE4_GRAS_LND-DPSL_SCI" in name and ".2A" in name
             and object_name == "TABLE_0"
     ):
         return formats.change.read_table_using_spaces(structure, filename)
     if (
-            "CE4_GRAS_LND-ThN_SCI" in filename and ".2A" in filename
+            "CE4_GRAS_LND-ThN_SCI" in name and ".2A" in name
             and object_name == "TABLE_0"
     ):
         return formats.change.read_table_using_spaces(structure, filename)
     if (
-            "CE4_GRAS_LND-TID_SCI" in filename and ".2A" in filename
+            "CE4_GRAS_LND-TID_SCI" in name and ".2A" in name
             and object_name == "TABLE_0"
     ):
         return formats.change.read_table_using_spaces(structure, filename)
     # if (
-    #         "CE4_GRAS_VNIS-VD_SCI" in filename and ".2B" in filename
+    #         "CE4_GRAS_VNIS-VD_SCI" in name and ".2B" in name
     #         and object_name == "TABLE_0"
     # ):
     # this is a fixed width table, but it's not all UTF-8 so PD can't handle it
     #    return formats.change.read_table_using_spaces(structure, filename)
     if (
-            "CE4_GRAS_VNIS-SD_SCI" in filename and ".2B" in filename
+            "CE4_GRAS_VNIS-SD_SCI" in name and ".2B" in name
             and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "ch2_cla_l1_" in filename
+            "ch2_cla_l1_" in name
             and (object_name == "header_Data" or object_name == "data")
     ):
         return formats.ch2_isro.read_class_fits_table(filename, object_name)
@@ -1415,17 +1417,19 @@ def check_special_label(fn: Union[str, Path]):
     loaders.datawrap.ReadLabel's dispatch to `read_label()`. Also used in
     `read_pvl()`.
     """
+    # names of directories do not make a label one of these
+    name = Path(fn).name
     if (
-            any(tag in fn for tag in ['CE1', 'CE2', 'CE3'])
-            and any(sfx in fn for sfx in ['.1A', '.1B', '.1C',
+            any(tag in name for tag in ['CE1', 'CE2', 'CE3'])
+            and any(sfx in name for sfx in ['.1A', '.1B', '.1C',
                                                 '.2A', '.2B', '.2C',
                                                 '.3A', '.3B', '.3C',
                                                 '.01', '.02', '.03'])
     ):
         return True, formats.change.special_label(fn)
     if (
-            ".TAB" in fn and "_DOY" in fn and
-            ("MAG_" in fn or "BIO_" in fn) and "_V1" in fn
+            ".TAB" in name and "_DOY" in name and
+            ("MAG_" in name or "BIO_" in name) and "_V1" in name
     ):
         return True, formats.vex_mag.special_label(fn)
     return False, None
-- 
2.43.0


From f8073235be5d138579263f9d2a6b821c7ce7ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 072/113] fix: MSL EDR decompressor hangs on a missing final
 padding byte

---
 pdr/formats/msl_edr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/formats/msl_edr.py b/pdr/formats/msl_edr.py
index a2f94f7..ecd94ef 100644
--- a/pdr/formats/msl_edr.py
+++ b/pdr/formats/msl_edr.py
@@ -497,8 +497,8 @@ def decode_x(
         out[p_offset + i] = prev
     while s.bit > 0:
         next_bit(s)
-    while s.p & 3:
-        next_bit(s)
+    while s.p & 3 and next_bit(s) != -1:
+        pass
 
 
 def pdecom(fd: int, width: int, height: int, outbuf: bytearray) -> bytearray:
-- 
2.43.0


From bb427c57fbc5b904fd3008927de5c9e7dcb8b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 073/113] fix: truncated MOC transform fragments decode their
 start again as their end

---
 pdr/formats/mgs_moc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pdr/formats/mgs_moc.py b/pdr/formats/mgs_moc.py
index 0f30a0c..09d642b 100644
--- a/pdr/formats/mgs_moc.py
+++ b/pdr/formats/mgs_moc.py
@@ -892,7 +892,6 @@ def read_bits(bit_count: int, bit_stuff: BitStruct):
         while bit_queue_count < 24:
             if byte_count == queue_size:
                 if bit_queue_count >= bit_count:
-                    byte_count = 0
                     break
                 else:
                     raise ValueError(f"Unable to read bits: {bit_count}")
-- 
2.43.0


From 421e6639d84762f2b771c42ab715f322366b90c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 074/113] fix: special data file names are made from the file's
 name, not its directory's

---
 pdr/formats/galileo.py | 5 +++--
 pdr/formats/msl_edr.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdr/formats/galileo.py b/pdr/formats/galileo.py
index 366798f..bfb0fb2 100644
--- a/pdr/formats/galileo.py
+++ b/pdr/formats/galileo.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+import os
 from typing import TYPE_CHECKING
 import warnings
 
@@ -273,7 +274,7 @@ def ssi_redr_prefix_fn(data):
     * gal_ssi
         * redr_early
     """
-    target = data.filename
+    parent, target = os.path.split(data.filename)
     target = target.replace(".lbl",".img")
     target = target.replace(".LBL",".IMG")
-    return True, target
+    return True, os.path.join(parent, target)
diff --git a/pdr/formats/msl_edr.py b/pdr/formats/msl_edr.py
index ecd94ef..05875e9 100644
--- a/pdr/formats/msl_edr.py
+++ b/pdr/formats/msl_edr.py
@@ -61,12 +61,12 @@ def msl_msss_edr_prefix_fn(data):
     * msl_mrd
         * all
     """
-    target = data.filename
+    parent, target = os.path.split(data.filename)
     target = target.replace(".img", ".dat")
     target = target.replace(".IMG", ".DAT")
     target = target.replace(".lbl", ".dat")
     target = target.replace(".LBL", ".DAT")
-    return True, target
+    return True, os.path.join(parent, target)
 
 
 def get_special_block(data, name):
-- 
2.43.0


From e11d966d4af95b82a4fdb4dc3b42b069158fc4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 075/113] fix: MOC lines after a second sync search are those
 of an earlier segment

---
 pdr/formats/mgs_moc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdr/formats/mgs_moc.py b/pdr/formats/mgs_moc.py
index 09d642b..dff55be 100644
--- a/pdr/formats/mgs_moc.py
+++ b/pdr/formats/mgs_moc.py
@@ -371,8 +371,7 @@ def pred_decode(
 
                     else:
                         bit_stuff.output = search_start + found_offset
-                else:
-                    last_sync_pos = bit_stuff.output
+                last_sync_pos = bit_stuff.output
 
             pred_line_decompressor(cur_line,
                                    prev_line,
-- 
2.43.0


From bc5154310bf5e7e17c2ef72dd6831e8c60bea619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 076/113] fix: reading an MSL JPEG EDR makes Pillow accept
 truncated images from then on

---
 pdr/formats/msl_edr.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pdr/formats/msl_edr.py b/pdr/formats/msl_edr.py
index 05875e9..34426fe 100644
--- a/pdr/formats/msl_edr.py
+++ b/pdr/formats/msl_edr.py
@@ -287,8 +287,15 @@ def read_jpeg_image(fp, dat_hdr) -> tuple["ndarray", int, int]:
     if soi == -1:
         raise ValueError("Could not find JPEG start or end markers.")
     jpeg_bytes = jpeg_data[soi:]
+    # this is a process-wide setting: leave it as it was, so that it does not
+    # change how other images are read
+    load_truncated = ImageFile.LOAD_TRUNCATED_IMAGES
     ImageFile.LOAD_TRUNCATED_IMAGES = True
-    img = Image.open(io.BytesIO(jpeg_bytes))
+    try:
+        img = Image.open(io.BytesIO(jpeg_bytes))
+        img.load()
+    finally:
+        ImageFile.LOAD_TRUNCATED_IMAGES = load_truncated
     bands = len(img.getbands())
     if bands != dat_hdr.bands:
         # when there's a mismatch between number of bands in header and the
-- 
2.43.0


From f861bbd55e913cebeaeb12364e1665c3b74a772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:15 +0000
Subject: [PATCH 077/113] fix: PDS4 delimited records with too few fields give
 whatever was in memory

---
 pdr/pds4_tools/reader/read_tables.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdr/pds4_tools/reader/read_tables.py b/pdr/pds4_tools/reader/read_tables.py
index 9255bcf..cd5e392 100644
--- a/pdr/pds4_tools/reader/read_tables.py
+++ b/pdr/pds4_tools/reader/read_tables.py
@@ -601,6 +601,10 @@ def _get_delimited_records_and_start_bytes(records, table_structure, table_manif
                 start_bytes[column_idx][record_idx] = next_start_byte
                 next_start_byte += len(value) + 1
 
+        # Fields missing from the end of a short record are empty
+        for column_idx in range(len(split_record), num_columns):
+            start_bytes[column_idx][record_idx] = next_start_byte
+
         # Add an extra start byte, which actually acts only as the end byte for the last field
         start_bytes[-1][record_idx] = next_start_byte
 
-- 
2.43.0


From 0e6df4abbda8286d917e88f0541ca179478d6fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 078/113] fix: find objects at a record given with units where
 records have no length

---
 pdr/loaders/queries.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 0cf94b8..3f719de 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -418,6 +418,9 @@ def data_start_byte(
     start_byte = None
     if isinstance(target, (list, tuple)):
         target = target[-1]
+    if isinstance(target, dict) and target["units"] != "BYTES":
+        # quantities in any other units count records
+        target = target["value"]
     if isinstance(target, int):
         if target == 1:
             start_byte = 0
-- 
2.43.0


From d2507c808bfabb45c223f2429847debbac40d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:02 +0000
Subject: [PATCH 079/113] fix: locate tables from the end of compressed files
 by their uncompressed size

---
 pdr/loaders/_helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/_helpers.py b/pdr/loaders/_helpers.py
index 7c10a37..194c7e3 100644
--- a/pdr/loaders/_helpers.py
+++ b/pdr/loaders/_helpers.py
@@ -9,6 +9,8 @@ from typing import Any, Callable, Optional, Union, TYPE_CHECKING
 from cytoolz import curry
 from multidict import MultiDict
 
+from pdr.utils import decompress
+
 if TYPE_CHECKING:
     from pdr.pdrtypes import DataIdentifiers, PhysicalTarget
 
@@ -61,7 +63,9 @@ def count_from_bottom_of_file(
     tab_size = rows * row_bytes
     if isinstance(fn, list):
         fn = fn[0]
-    return os.path.getsize(Path(fn)) - tab_size
+    # the file may be compressed
+    with decompress(fn) as file:
+        return file.seek(0, os.SEEK_END) - tab_size
 
 
 def _check_delimiter_stream(
-- 
2.43.0


From 1bb7fcbdd01b9a24bfd1e95b8d7475e2cc77ae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:50 +0000
Subject: [PATCH 080/113] fix: objects whose loaders give up become their
 metadata like any others

---
 pdr/pdr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 863940c..a9617cc 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -632,7 +632,9 @@ class Data:
                     f"loader returned non-dict object of type ({type(obj)}"
                 )
             self._add_loaded_objects(obj, name)
-            return
+            if name not in obj or obj[name] is not None:
+                return
+            # the loader has already warned about why there is nothing
         except DebugExceptionPreempted:
             pass
         except KeyboardInterrupt:
-- 
2.43.0


From eac49211f098fe98a66faaacf9a10e523320262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 081/113] fix: bit masks of PDS4 arrays of signed integers or
 with special constants

---
 pdr/pds4_tools/reader/read_arrays.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pdr/pds4_tools/reader/read_arrays.py b/pdr/pds4_tools/reader/read_arrays.py
index 448af38..1cfb0cd 100644
--- a/pdr/pds4_tools/reader/read_arrays.py
+++ b/pdr/pds4_tools/reader/read_arrays.py
@@ -101,21 +101,21 @@ def _apply_bitmask(data, bit_mask_string, special_constants=None):
         return
 
     # Convert bit mask to binary (python assumes the input is a string describing the integer in MSB format,
-    # which is what the PDS4 standard specifies.)
-    bit_mask = int(bit_mask_string, 2)
+    # which is what the PDS4 standard specifies.) Signed data have the same bits as unsigned ones.
+    bit_mask = np.array(int(bit_mask_string, 2), dtype='u{0}'.format(data.dtype.itemsize))
+    bit_mask = bit_mask.astype(data.dtype.newbyteorder('='))
 
     # Mask Special_Constants values so that bit mask application does not affect them
-    non_masked = np.arange(0, len(data))
+    non_masked = np.ones(len(data), dtype=bool)
     if special_constants is not None:
 
         masked_data = mask_special_constants(data, special_constants=special_constants)
-        non_masked = np.where(masked_data.mask == False)
+        non_masked = ~np.ma.getmaskarray(masked_data)
 
         del masked_data
 
     # Apply bit mask to each datum
-    for i in np.nditer(non_masked, flags=['zerosize_ok']):
-        data[i] &= bit_mask
+    data[non_masked] &= bit_mask
 
 
 def new_array(input, no_scale=False, no_bitmask=False, masked=None, copy=True, **structure_kwargs):
-- 
2.43.0


From b44b9a9e5301db962d75326ef43e3889ecf8911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:39 +0000
Subject: [PATCH 082/113] fix: names that contain those of other classes do not
 change how objects are read

---
 pdr/loaders/dispatch.py | 35 +++++++++++++++++++++++++++++++++++
 pdr/loaders/queries.py  |  2 +-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/dispatch.py b/pdr/loaders/dispatch.py
index 2072adc..3e501fa 100644
--- a/pdr/loaders/dispatch.py
+++ b/pdr/loaders/dispatch.py
@@ -70,6 +70,39 @@ def special_pointer_dispatch(pointer: str, identifiers):
     return None
 
 
+CLASS_LOADERS = {
+    "IMAGE": (ReadImage, ("LINES", "LINE_SAMPLES")),
+    "QUBE": (ReadImage, ("CORE_ITEMS",)),
+    "TABLE": (ReadTable, ("ROWS",)),
+    "SERIES": (ReadTable, ("ROWS",)),
+    "SPECTRUM": (ReadTable, ("ROWS",)),
+    "SPREADSHEET": (ReadTable, ("FIELDS",)),
+    "HISTOGRAM": (ReadTable, ("ITEMS",)),
+    "ARRAY": (ReadArray, ("AXES",)),
+    "HEADER": (ReadHeader, ("BYTES",)),
+}
+"""
+Loaders for objects of PDS3 classes, along with parameters that the definitions
+of all such objects include.
+"""
+
+
+def object_class_dispatch(pointer: str, data: Data) -> Optional[Loader]:
+    """
+    The last word of the name of a PDS3 object is its class. If its definition
+    looks like one of that class, other words its name may contain ("CONTEXT",
+    "PROFILE", "DESCENT"...) say nothing about how to read it.
+    """
+    object_class = re.sub(r"_[0-9]+$", "", pointer).split("_")[-1]
+    loader, parameters = CLASS_LOADERS.get(object_class, (None, ()))
+    if loader is None:
+        return None
+    block = data.metablock_(pointer)
+    if block is None or not all(p in block for p in parameters):
+        return None
+    return loader()
+
+
 def pointer_to_loader(pointer: str, data: Data) -> Loader:
     """
     Attempt to select an appropriate Loader subclass based on a PDS3 object
@@ -87,6 +120,8 @@ def pointer_to_loader(pointer: str, data: Data) -> Loader:
         return image_lib_dispatch(pointer, data)
     if special_pointer_dispatch(pointer, data.identifiers) is not None:
         return special_pointer_dispatch(pointer, data.identifiers)
+    if (loader := object_class_dispatch(pointer, data)) is not None:
+        return loader
     if (
         "TEXT" in pointer
         or "PDF" in pointer
diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 3f719de..66aaa65 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -651,7 +651,7 @@ def read_table_structure(
     called by `parse_table_structure()` or `parse_array_structure()`, but some
     special cases use it on its own.
     """
-    if "HISTOGRAM" in name:
+    if "HISTOGRAM" in name and "COLUMN" not in block:
         fields = get_histogram_fields(block)
     else:
         fields, _ = read_format_block(block, name, fn, data, identifiers)
-- 
2.43.0


From 95521ba867ba39d3f88edf2d083cca47c4019014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:48 +0000
Subject: [PATCH 083/113] fix: read gridded Diviner tables of one row or one
 column

---
 pdr/formats/diviner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/diviner.py b/pdr/formats/diviner.py
index ef0b803..9a46749 100644
--- a/pdr/formats/diviner.py
+++ b/pdr/formats/diviner.py
@@ -22,7 +22,7 @@ def diviner_l4_table_loader(fmtdef_dt, filename):
     import pandas as pd
 
     table = pd.DataFrame(
-        np.loadtxt(filename, delimiter=",", skiprows=1),
+        np.loadtxt(filename, delimiter=",", skiprows=1, ndmin=2),
         columns=[c for c in fmtdef_dt[0]["NAME"] if "PLACEHOLDER" not in c],
     )
     return table
-- 
2.43.0


From e030b2c64b3915057954aeb6797a19ee8a06fec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:48 +0000
Subject: [PATCH 084/113] fix: give the last reference clock of MCS DDR tables
 as a number, like the others

---
 pdr/formats/mro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/mro.py b/pdr/formats/mro.py
index af83aa2..4dceda8 100644
--- a/pdr/formats/mro.py
+++ b/pdr/formats/mro.py
@@ -102,7 +102,7 @@ def mcs_ddr_table_loader(block, filename, start_byte):
         "float64", "float64", "int64", "int64", "int64", "int64", "int64",
         "int64", "int64", "float64", "float64", "float64", "float64",
         "float64", "float64", "float64", "float64", "float64", "float64",
-        "float64", "string", "string", "string", "string", "string",
+        "float64", "float64", "string", "string", "string", "string",
         "string", "string", "string", "string", "string", "string", "string",
         "string", "string", "string", "string", "string", "string", "string",
         "string", "string", "string", "float64", "float64", "float64",
-- 
2.43.0


From b2d74f9897b5dff61a41c8606693ba450760b9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:48 +0000
Subject: [PATCH 085/113] fix: do not recognize special data files by the names
 of their directories

---
 pdr/formats/cassini.py  | 20 ++++++++++++++------
 pdr/formats/checkers.py | 21 +++++++++++++--------
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/pdr/formats/cassini.py b/pdr/formats/cassini.py
index d117389..e9fa70c 100644
--- a/pdr/formats/cassini.py
+++ b/pdr/formats/cassini.py
@@ -11,6 +11,11 @@ from pdr.loaders._helpers import count_from_bottom_of_file
 from pdr.loaders.queries import table_position
 
 
+def _file_name(filename):
+    """names of directories do not make a file one of a particular kind"""
+    return Path(filename[0] if isinstance(filename, list) else filename).name
+
+
 def spreadsheet_loader(filename, fmtdef_dt, data_set_id):
     """
     HITS:
@@ -35,7 +40,7 @@ def spreadsheet_loader(filename, fmtdef_dt, data_set_id):
     fmtdef, dt = fmtdef_dt
     names = fmtdef.NAME
     header = None
-    if "FULL" in filename:
+    if "FULL" in _file_name(filename):
         skiprows = 4
         if data_set_id == "CO-S-MIMI-4-CHEMS-CALIB-V1.0":
             header = 0
@@ -70,8 +75,9 @@ def get_structure(block, name, filename, data, identifiers):
     fmtdef = pdr.loaders.queries.read_table_structure(
         block, name, filename, data, identifiers
     )
-    if ("HASI" in filename) or ("HUY_DTWG_ENTRY_AERO" in filename):
-        if "HUY_DTWG_ENTRY_AERO" in filename:
+    base = _file_name(filename)
+    if ("HASI" in base) or ("HUY_DTWG_ENTRY_AERO" in base):
+        if "HUY_DTWG_ENTRY_AERO" in base:
             fmtdef.at[
                 5, "NAME"
             ] = "KNUDSEN FREESTR. HARD SPHERE NR. [=2.8351E-8/RHO]"
@@ -110,11 +116,12 @@ def get_position(identifiers, block, target, name, filename, start_byte):
         * vis_extra
         * vis
     """
-    if "IR_" in filename:
+    base = _file_name(filename)
+    if "IR_" in base:
         tbd(name, block)
     table_props = table_position(identifiers, block, target, name, start_byte)
     n_records = identifiers["ROWS"]
-    if any(sub in filename for sub in ["ULVS_DDP", "DLIS_AZ_DDP", "DLV_DDP"]):
+    if any(sub in base for sub in ["ULVS_DDP", "DLIS_AZ_DDP", "DLV_DDP"]):
         record_bytes = identifiers["ROW_BYTES"]
     else:
         record_bytes = identifiers["ROW_BYTES"] + 1
@@ -161,7 +168,8 @@ def get_offset(filename, identifiers):
         * time
         * vis
     """
-    if any(sub in filename for sub in ["ULVS_DDP", "DLIS_AZ_DDP", "DLV_DDP"]):
+    base = _file_name(filename)
+    if any(sub in base for sub in ["ULVS_DDP", "DLIS_AZ_DDP", "DLV_DDP"]):
         row_bytes = identifiers["ROW_BYTES"]
     else:
         row_bytes = identifiers["ROW_BYTES"] + 1
diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 287d337..d5e7b23 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -56,6 +56,11 @@ if TYPE_CHECKING:
     from pdr.pdrtypes import DataIdentifiers, PDRLike, PhysicalTarget
 
 
+def _file_name(fn: Union[str, list[str]]) -> str:
+    """names of directories do not make a file one of a particular kind"""
+    return Path(fn[0] if isinstance(fn, list) else fn).name
+
+
 def check_special_offset(
     name: str, data: PDRLike, identifiers: DataIdentifiers, fn: str
 ) -> tuple[bool, Optional[int]]:
@@ -325,7 +330,7 @@ def check_special_table_reader(
         return True, formats.msl_rems.rdr_table_loader(fn, fmtdef_dt)
     if (
         all(x in identifiers["DATA_SET_ID"] for x in ["ICE-C-", "-3-RDR-"])
-        and "TRAJ_ICE" in fn
+        and "TRAJ_ICE" in _file_name(fn)
         and name == "TABLE"
     ):
         return True, formats.ihw.add_newlines_table_loader(
@@ -346,7 +351,7 @@ def check_special_table_reader(
     if (
         identifiers["DATA_SET_ID"] == "ODY-M-GRS-2-EDR-V1.0"
         and identifiers["PRODUCT_TYPE"] == "E_KERNEL"
-        and ".txt" in fn.lower()
+        and ".txt" in _file_name(fn).lower()
     ):
         return formats.odyssey.grs_e_kernel_loader(name, fn)
     if (
@@ -421,7 +426,7 @@ def check_special_structure(
     ) or (
         identifiers["INSTRUMENT_HOST_NAME"] == "HUYGENS PROBE"
         and (
-            "HUY_DTWG_ENTRY_AERO" in fn
+            "HUY_DTWG_ENTRY_AERO" in _file_name(fn)
             or (
                 "HASI" in data.metaget_("FILE_NAME", "")
                 and "PWA" not in identifiers["FILE_NAME"]
@@ -559,16 +564,16 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "ODY-M-GRS-2-EDR-V1.0"
         and identifiers["PRODUCT_TYPE"] == "E_KERNEL"
-        and ".txt" in fn.lower()
+        and ".txt" in _file_name(fn).lower()
     ):
         return formats.odyssey.grs_e_kernel_structure()
     if (
             identifiers["INSTRUMENT_HOST_NAME"] == "VENUS EXPRESS"
             and identifiers["INSTRUMENT_ID"] in ["VRA"]
             and identifiers['PRODUCT_TYPE'] == "UDR"
-            and "ODF" not in fn
-            and "TNF" not in fn
-            and "RSR" not in fn
+            and "ODF" not in _file_name(fn)
+            and "TNF" not in _file_name(fn)
+            and "RSR" not in _file_name(fn)
     ):
         return formats.vex_vera.udr_table_structure()
 
@@ -1133,7 +1138,7 @@ def check_trivial_case(pointer: str, identifiers: DataIdentifiers, fn: str) -> b
     ):
         return formats.kaguya.grs_eng_tables_trivial()
     if (
-        "CE3_BMYK_VNIS-CC_SCI_" in fn
+        "CE3_BMYK_VNIS-CC_SCI_" in _file_name(fn)
         and pointer == "CAL_TARGET_DATA"
     ):
         return formats.change.cal_target_data_trivial()
-- 
2.43.0


From 0b43c3a2f9c7057e91974cefd25a5b8614a054eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 086/113] fix: read bit strings of Galileo NIMS EDR tables in
 the byte order assumed for them

---
 pdr/formats/checkers.py |  5 +++++
 pdr/formats/galileo.py  | 15 +++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index d5e7b23..773b584 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -804,6 +804,11 @@ def check_special_bit_format(
                                                "SOLID STATE IMAGING SYSTEM")
     ):
         return formats.galileo.ssi_redr_bit_col_format(definition)
+    if (
+        identifiers["SPACECRAFT_NAME"] == "GALILEO_ORBITER"
+        and "-NIMS-2-EDR-V1.0" in identifiers["DATA_SET_ID"]
+    ):
+        return formats.galileo.nims_edr_bit_col_format(obj)
     return False, None
 
 
diff --git a/pdr/formats/galileo.py b/pdr/formats/galileo.py
index bfb0fb2..e1c8f30 100644
--- a/pdr/formats/galileo.py
+++ b/pdr/formats/galileo.py
@@ -71,6 +71,21 @@ def nims_edr_sample_type(base_samp_info):
     return False, None
 
 
+def nims_edr_bit_col_format(obj):
+    """
+    The bits of BIT_STRING columns are in the same (assumed) byte order that
+    nims_edr_sample_type() uses for the columns themselves.
+
+    HITS
+    * gal_nims
+        * pre_jup
+    """
+    if obj["DATA_TYPE"] == "BIT_STRING":
+        obj["DATA_TYPE"] = "LSB_BIT_STRING"
+        return True, obj
+    return False, None
+
+
 def probe_structure(block, name, filename, data, identifiers):
     """
     Several NMS products have an incorrect BYTES value in one column.
-- 
2.43.0


From 298e1f76e426d5fc154ace9dfed4d519c3f86977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 087/113] fix: find Chandrayaan-2 CLASS data beside labels in
 directories with dots in their names

---
 pdr/formats/ch2_isro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/ch2_isro.py b/pdr/formats/ch2_isro.py
index 1aa869b..8817316 100644
--- a/pdr/formats/ch2_isro.py
+++ b/pdr/formats/ch2_isro.py
@@ -12,7 +12,7 @@ def read_class_fits_table(filename, object):
     from astropy.io import fits
 
     if filename.endswith(".xml"):
-        filename = filename.split('.')[0]+".fits"
+        filename = filename[:-len(".xml")] + ".fits"
     hdu = fits.open(filename)
     if object == 'data':
         # returns a recarray
-- 
2.43.0


From 0bb8243ff95d844cbf7821e0859fe3478d094c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 088/113] fix: open THEMIS products whose labels say that files
 are gzipped

---
 pdr/formats/themis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/themis.py b/pdr/formats/themis.py
index 8fc8378..3e7cccf 100644
--- a/pdr/formats/themis.py
+++ b/pdr/formats/themis.py
@@ -47,7 +47,7 @@ def check_gzip_fn(data, object_name):
         return False, None
     filename = listify(target)[0]
     if filename.endswith("gz"):
-        return filename
+        return True, filename
     return True, [filename, f"{filename}.gz"]
 
 
-- 
2.43.0


From 8dedca1f91ffb7d0953682c3e3b0849fb93cf0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:53 +0000
Subject: [PATCH 089/113] fix: read fixed-width ASCII tables with commas in
 their text by their columns

---
 pdr/loaders/table.py | 59 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 6 deletions(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 2c31bd1..b2968b4 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -198,12 +198,10 @@ def read_strictly_fixed(string_buffer, specs, padchars=PAD_CHARACTERS):
     return pd.DataFrame(cols)
 
 
-def _read_fwf_with_colspecs(
-    fmtdef: pd.DataFrame, string_buffer: StringIO
-) -> pd.DataFrame:
+def _column_boundaries(fmtdef: pd.DataFrame) -> list[tuple[int, int]]:
     """
-    Attempt to read an ASCII table as a fixed-width file using column
-    boundaries specified by or inferred from its format definition.
+    Column boundaries specified by or inferred from an ASCII table's format
+    definition.
     """
     colspecs = []
     # TODO: this if clause is a 'general special' statement, intended to handle
@@ -222,6 +220,49 @@ def _read_fwf_with_colspecs(
         colspecs.append(
             (record["SB_OFFSET"], record["SB_OFFSET"] + col_length)
         )
+    return colspecs
+
+
+def _looks_fixed_width(
+    sep: str, string_buffer: StringIO, fmtdef: pd.DataFrame
+) -> bool:
+    """
+    Do an ASCII table's rows fit its format definition, but without anything
+    that could separate one column from the next? If so, what looks like
+    separators is part of the columns' values.
+    """
+    lines = [*filter(None, string_buffer.getvalue().splitlines())]
+    if not {"BYTES", "START_BYTE"}.issubset(fmtdef.columns) or len(lines) == 0:
+        return False
+    colspecs = [
+        spec for spec, name in zip(_column_boundaries(fmtdef), fmtdef["NAME"])
+        if "PLACEHOLDER" not in name
+    ]
+    start, end = min(s for s, _ in colspecs), max(e for _, e in colspecs)
+    within = {i for s, e in colspecs for i in range(int(s), int(e))}
+    if len(lines[0]) < end or any(
+        lines[0][i] == sep for i in range(int(start), int(end))
+        if i not in within
+    ):
+        return False
+    first = [lines[0][int(s):int(e)].strip() for s, e in sorted(colspecs)]
+    if (
+        all(text.endswith(sep) for text in first[:-1])
+        or all(text.startswith(sep) for text in first[1:])
+    ):
+        # columns that include their separators
+        return False
+    return all(len(line) == len(lines[0]) for line in lines)
+
+
+def _read_fwf_with_colspecs(
+    fmtdef: pd.DataFrame, string_buffer: StringIO
+) -> pd.DataFrame:
+    """
+    Attempt to read an ASCII table as a fixed-width file using column
+    boundaries specified by or inferred from its format definition.
+    """
+    colspecs = _column_boundaries(fmtdef)
     # NOTE: the 'delimiter' argument to read_fwf() does _not_ specify
     # an actual delimiter. It defines characters the read_fwf parser
     # will treat as 'padding' and strip from each table element.
@@ -256,7 +297,13 @@ def _read_table_from_stringio(
             # part of the only column
             raise IndexError("Single-column table.")
         sep = check_explicit_delimiter(block)
-        return _read_as_delimited(sep, string_buffer, fmtdef)
+        table = _read_as_delimited(sep, string_buffer, fmtdef)
+        if (
+            "FIELD_DELIMITER" not in block.keys()
+            and _looks_fixed_width(sep, string_buffer, fmtdef)
+        ):
+            raise IndexError("Commas only within columns.")
+        return table
     except (IndexError, UnicodeError, AttributeError, ParserError):
         string_buffer.seek(0)
     if "BYTES" in fmtdef.columns:
-- 
2.43.0


From 514494c9f667e0392889ed0d66b59a791c12df3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:29 +0000
Subject: [PATCH 090/113] fix: mask special constants of PDS4 tables only if
 that is asked for

---
 pdr/pds4_tools/reader/read_tables.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/pds4_tools/reader/read_tables.py b/pdr/pds4_tools/reader/read_tables.py
index cd5e392..363b6a0 100644
--- a/pdr/pds4_tools/reader/read_tables.py
+++ b/pdr/pds4_tools/reader/read_tables.py
@@ -717,6 +717,8 @@ def new_table(fields, no_scale=False, decode_strings=False, masked=None, copy=Tr
         num_records = min(num_all_records)
 
     # Decide what type of data array for the table we will be using (i.e., masked or otherwise)
+    # (Special_Constants are only to be masked if that was requested)
+    mask_constants = masked is True
     if masked is None:
         masked = any([np.ma.is_masked(field) for field in fields])
 
@@ -760,7 +762,7 @@ def new_table(fields, no_scale=False, decode_strings=False, masked=None, copy=Tr
                                                                 special_constants=special_constants)
 
             # Mask Special_Constants in output if requested
-            if masked:
+            if mask_constants:
                 extracted_data = mask_special_constants(extracted_data, special_constants=special_constants)
 
             # For fields inside groups, we reshape them into the proper shape
-- 
2.43.0


From 8d84a226a6b941c4f79299b632096e98bef5ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:29 +0000
Subject: [PATCH 091/113] fix: do not count uniformly sampled fields among the
 columns of delimited PDS4 tables

---
 pdr/pds4_tools/reader/read_tables.py   | 2 +-
 pdr/pds4_tools/reader/table_objects.py | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdr/pds4_tools/reader/read_tables.py b/pdr/pds4_tools/reader/read_tables.py
index 363b6a0..676af66 100644
--- a/pdr/pds4_tools/reader/read_tables.py
+++ b/pdr/pds4_tools/reader/read_tables.py
@@ -480,7 +480,7 @@ def _get_delimited_records_and_start_bytes(records, table_structure, table_manif
     # we ignore the record delimiter as its effectively escaped by being between bounding double quotes.
     num_columns = 0
 
-    for field in table_manifest.fields():
+    for field in table_manifest.fields(skip_uniformly_sampled=True):
 
         repetitions = []
         parent_idx = table_manifest.index(field)
diff --git a/pdr/pds4_tools/reader/table_objects.py b/pdr/pds4_tools/reader/table_objects.py
index 73043e4..bb6ab86 100644
--- a/pdr/pds4_tools/reader/table_objects.py
+++ b/pdr/pds4_tools/reader/table_objects.py
@@ -923,6 +923,10 @@ class TableManifest(collections_abc.Sequence):
             if child_item is field:
                 break
 
+            # Uniformly sampled fields have no values in the record
+            elif isinstance(child_item, Meta_FieldUniformlySampled):
+                continue
+
             elif child_item.is_field():
                 offset_num += 1
 
-- 
2.43.0


From 3ae1d4b918c9cd016d7364c58758836fc16c15cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:07 +0000
Subject: [PATCH 092/113] fix: read FITS tables with repeated column names one
 of which looks numbered

---
 pdr/loaders/handlers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index a40675f..2847147 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -169,8 +169,10 @@ def reindex_dupe_names(hdu: BinTableHDU):
     repeats = {n for n in names if names.count(n) > 1}
     for r in repeats:
         indices = [ix for ix, n in enumerate(names) if n == r]
-        for i, ix in enumerate(indices):
-            hdu.columns[ix].name += f"_{i}"
+        # (another column might already be named like that)
+        free = (n for i in count() if (n := f"{r}_{i}") not in names)
+        for ix, name in zip(indices, free):
+            hdu.columns[ix].name = name
 
 
 def handle_compressed_image(
-- 
2.43.0


From e9c9c3e71e35198c19e25693c63baa005436d920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:07 +0000
Subject: [PATCH 093/113] fix: read FITS tables with unnamed columns

---
 pdr/loaders/handlers.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index 2847147..7f98784 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -99,6 +99,9 @@ def handle_fits_file(
     output, hdu = {f"{name}_HEADER": hdr_val}, hdulist[hdu_ix]
     # binary table HDUs with repeated column names break astropy -- it will not
     # actually afford the data unless we manipulate it first.
+    # the same goes for columns without names.
+    if isinstance(hdu, (fits.BinTableHDU, fits.TableHDU)):
+        name_unnamed(hdu)
     if isinstance(hdu, fits.BinTableHDU):
         reindex_dupe_names(hdu)
     body = hdu.data
@@ -158,6 +161,18 @@ def _convert_fits_table_to_df(
     return pd.DataFrame.from_records(body)
 
 
+def name_unnamed(hdu: fits.BinTableHDU | fits.TableHDU):
+    """
+    Column names (TTYPEn) are optional in FITS tables, but astropy cannot
+    construct the .data attribute of a table HDU whose columns do not all have
+    them. This names any unnamed columns, in place, after their position,
+    following astropy's own convention for arrays without column names.
+    """
+    for i, column in enumerate(hdu.columns, 1):
+        if column.name is None:
+            column.name = f"col{i}"
+
+
 def reindex_dupe_names(hdu: BinTableHDU):
     """
     Astropy cannot construct the .data attribute of a BinTableHDU if the table
-- 
2.43.0


From ce9bdaf5722d47e8ade3813ecc2ebf53a79a2518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:12 +0000
Subject: [PATCH 094/113] fix: read tables with repeated column names one of
 which looks numbered

---
 pdr/pd_utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 7b953b9..1624ab2 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -3,7 +3,7 @@ Methods for working with pandas objects, primarily intended for use in
 TABLE/ARRAY/SPREADSHEET/HISTOGRAM-loading workflows.
 """
 from __future__ import annotations
-from itertools import chain
+from itertools import chain, count, islice
 import re
 from typing import Hashable, TYPE_CHECKING
 import warnings
@@ -41,15 +41,18 @@ def reindex_df_values(df: pd.DataFrame, column="NAME") -> pd.DataFrame:
 
     include START_BYTE in string for values marked as RESERVED.
     """
-    namegroups = df.groupby(column)
+    namegroups, taken = df.groupby(column), set(df[column])
     for name, field_group in namegroups:
         if len(field_group) == 1:
             continue
         # TODO: check what this is hitting.
         if name == "RESERVED":
             name = f"RESERVED_{field_group['START_BYTE'].iloc[0]}"
-        names = [f"{name}_{ix}" for ix in range(len(field_group))]
-        df.loc[field_group.index, column] = names
+        # (another value might already look like that)
+        free = (n for ix in count() if (n := f"{name}_{ix}") not in taken)
+        df.loc[field_group.index, column] = list(
+            islice(free, len(field_group))
+        )
     return df
 
 
-- 
2.43.0


From 56e8bc791325316504986785dae02a187e83f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:12 +0000
Subject: [PATCH 095/113] fix: give flattened fields names no other field has

---
 pdr/pd_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 1624ab2..bad2322 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -364,9 +364,12 @@ def structured_array_to_df(array: np.ndarray) -> pd.DataFrame:
                 sub_dfs.append(rectified_rec_df(array[name_buffer]))
                 name_buffer = []
             sub_df = rectified_rec_df(array[field[0]])
-            sub_df.columns = [
-                f"{field[0]}_{ix}" for ix in range(len(sub_df.columns))
-            ]
+            # (another field might already be named like that)
+            free = (
+                n for ix in count()
+                if (n := f"{field[0]}_{ix}") not in array.dtype.names
+            )
+            sub_df.columns = list(islice(free, len(sub_df.columns)))
             sub_dfs.append(sub_df)
     if len(name_buffer) > 0:
         sub_dfs.append(rectified_rec_df(array[name_buffer]))
-- 
2.43.0


From 40e27d205eeb1aa0eaac03c7b408714d92e3e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:43 +0000
Subject: [PATCH 096/113] fix: open images with unknown GPS tags

---
 pdr/pil_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdr/pil_utils.py b/pdr/pil_utils.py
index b7fc95b..aca7772 100644
--- a/pdr/pil_utils.py
+++ b/pdr/pil_utils.py
@@ -40,7 +40,10 @@ def unpack_icp(icp_blob: bytes):
 
 def add_gps_ifd(im: Image, gps_tagname: int):
     gpsdict = im.getexif().get_ifd(gps_tagname)
-    return {GPSTAGS[k].replace('GPS', ''): v for k, v in gpsdict.items()}
+    return {
+        GPSTAGS.get(k, str(k)).replace('GPS', ''): v
+        for k, v in gpsdict.items()
+    }
 
 
 def get_image_metadata(im: Image):
-- 
2.43.0


From 5cc230fe259a81b8343bb5e06572e31cd78c9a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 097/113] fix: open TIFF images whose XMP packets are padded
 with nulls

---
 pdr/pil_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdr/pil_utils.py b/pdr/pil_utils.py
index aca7772..fe3e80a 100644
--- a/pdr/pil_utils.py
+++ b/pdr/pil_utils.py
@@ -64,6 +64,8 @@ def get_image_metadata(im: Image):
         if name == 'GPSInfo':
             outdict |= add_gps_ifd(im, tag)
         elif name == 'XMLPacket':
+            # packets are sometimes padded with nulls
+            val = val.rstrip(b"\0" if isinstance(val, bytes) else "\0")
             outdict[name] = unpack_xml(ElementTree.fromstring(val))
         elif name == 'InterColorProfile':
             outdict[name] = unpack_icp(val)
-- 
2.43.0


From 5227ea70d838ee2f092c98d1ef38fffe2f8ad84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:00 +0000
Subject: [PATCH 098/113] fix: read table columns with items defined over the
 same bytes

---
 pdr/pd_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index bad2322..1b18748 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -135,8 +135,14 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
     if "ITEM_BYTES" in fmtdef.columns:
         fmtdef["ITEM_SIZE"] = _apply_item_offsets(fmtdef)
         items = fmtdef.loc[fmtdef["ITEM_SIZE"].notna()]
-        # items of a column are consecutive, and share its START_BYTE
+        # items of a column are consecutive, and share its START_BYTE (which
+        # other columns defined over the same bytes might also share)
         item_number = items.groupby("SB_OFFSET").cumcount()
+        if "ITEMS" in fmtdef.columns:
+            count = items["ITEMS"].fillna(1)
+            item_number = items.groupby(
+                [items["SB_OFFSET"], count]
+            ).cumcount() % count.astype(int)
         fmtdef.loc[items.index, "SB_OFFSET"] += (
             item_number * items["ITEM_SIZE"].astype(int)
         )
-- 
2.43.0


From 65a7bab2ea0983f8ed118aeded54fde45710af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:19 +0000
Subject: [PATCH 099/113] fix: recognize byte positions given in lower-case
 units

---
 pdr/loaders/_helpers.py | 20 +++++++++++++-------
 pdr/loaders/queries.py  |  5 +++--
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/pdr/loaders/_helpers.py b/pdr/loaders/_helpers.py
index 194c7e3..5ec638e 100644
--- a/pdr/loaders/_helpers.py
+++ b/pdr/loaders/_helpers.py
@@ -30,6 +30,14 @@ def looks_like_ascii(block: MultiDict, name: str) -> bool:
     )
 
 
+def in_bytes(quantity: Any) -> bool:
+    """Is this a quantity of bytes? (Labels also give units in lower case.)"""
+    return (
+        isinstance(quantity, dict)
+        and str(quantity.get("units")).upper() == "BYTES"
+    )
+
+
 def quantity_start_byte(
     quantity_dict: dict[str, Union[str, int]], record_bytes: Optional[int]
 ) -> Optional[int]:
@@ -42,7 +50,7 @@ def quantity_start_byte(
     big the records are).
     """
     # TODO: are there cases in which _these_ aren't 1-indexed?
-    if quantity_dict["units"] == "BYTES":
+    if in_bytes(quantity_dict):
         return quantity_dict["value"] - 1
     if record_bytes is not None:
         return record_bytes * max(quantity_dict["value"] - 1, 0)
@@ -80,14 +88,12 @@ def _check_delimiter_stream(
     """
     # TODO: this may be deprecated. assess against notionally-supported
     #  products.
-    if isinstance(target, dict):
-        if target.get("units") == "BYTES":
-            return False
+    if in_bytes(target):
+        return False
     # TODO: untangle this, everywhere
     if isinstance(target, (list, tuple)):
-        if isinstance(target[-1], dict):
-            if target[-1].get("units") == "BYTES":
-                return False
+        if in_bytes(target[-1]):
+            return False
     # TODO: Other criteria that could appear in the block?
     if "BYTES" in block:
         return False
diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 66aaa65..9931606 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -23,6 +23,7 @@ from pdr.formats import check_special_block, check_special_offset
 from pdr.func import specialize
 from pdr.loaders._helpers import (
     count_from_bottom_of_file,
+    in_bytes,
     looks_like_ascii,
     quantity_start_byte,
     _check_delimiter_stream,
@@ -390,7 +391,7 @@ def get_fits_start_byte(
     # values without units are probably records
     factors = (2880, 1)
     if isinstance(target, dict):
-        if target['units'] == 'BYTES':
+        if in_bytes(target):
             target, factors = target['value'], (1, 2880)
         else:
             target = target['value'] * 2880
@@ -418,7 +419,7 @@ def data_start_byte(
     start_byte = None
     if isinstance(target, (list, tuple)):
         target = target[-1]
-    if isinstance(target, dict) and target["units"] != "BYTES":
+    if isinstance(target, dict) and not in_bytes(target):
         # quantities in any other units count records
         target = target["value"]
     if isinstance(target, int):
-- 
2.43.0


From 95e1edb49bc32545cfab491aba3d5462b64cf76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:54 +0000
Subject: [PATCH 100/113] fix: read integers of unusual widths in tables whole

---
 pdr/datatypes.py     |  4 ++++
 pdr/loaders/table.py |  3 ++-
 pdr/pd_utils.py      | 40 +++++++++++++++++++++++++++++++++++++++-
 3 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/pdr/datatypes.py b/pdr/datatypes.py
index a6233b9..116ff94 100644
--- a/pdr/datatypes.py
+++ b/pdr/datatypes.py
@@ -58,6 +58,10 @@ def sample_types(
     if (("INTEGER" in sample_type) or (sample_type == "BOOLEAN")) and (
         "ASCII" not in sample_type
     ):
+        if sample_bytes not in (1, 2, 4, 8) and sample_type != "BOOLEAN":
+            raise NotImplementedError(
+                f"{sample_bytes}-byte integers are not supported."
+            )
         endian = determine_byte_order(sample_type)
         signed = "UNSIGNED" not in sample_type
         return integer_code(endian, signed, sample_bytes, for_numpy)
diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index b2968b4..73a2c40 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -19,7 +19,7 @@ from pdr.loaders.queries import get_array_num_items
 from pdr.np_utils import np_from_buffered_io, enforce_order_and_object
 from pdr.pd_utils import (
     booleanize_booleans, compute_offsets, convert_ebcdic, convert_ibm_reals,
-    convert_vax_reals
+    convert_odd_integers, convert_vax_reals
 )
 from pdr.utils import decompress, head_file
 
@@ -142,6 +142,7 @@ def _interpret_as_binary(fn, fmtdef, dt, block, start_byte):
     table = convert_ibm_reals(table, fmtdef)
     table = convert_vax_reals(table, fmtdef)
     table.columns = fmtdef.NAME.tolist()
+    table = convert_odd_integers(table, fmtdef)
     table = convert_ebcdic(table, fmtdef)
     table = booleanize_booleans(table, fmtdef)
     table = bit_handling.expand_bit_strings(table, fmtdef)
diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 1b18748..bf5950c 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -13,7 +13,7 @@ import numpy as np
 import pandas as pd
 import pandas.api.types
 
-from pdr.datatypes import sample_types
+from pdr.datatypes import determine_byte_order, sample_types
 from pdr.formats import check_special_sample_type
 from pdr.np_utils import (
     enforce_order_and_object, ibm32_to_np_f32, ibm64_to_np_f64,
@@ -198,6 +198,8 @@ def insert_sample_types_into_df(
             )
             if is_special:
                 fmtdef.loc[group.index, "dt"] = special_type
+            elif _is_odd_integer(dt, sample_bytes):
+                fmtdef.loc[group.index, "dt"] = f"V{int(sample_bytes)}"
             else:
                 fmtdef.loc[group.index, "dt"] = sample_types(
                     dt, int(sample_bytes), for_numpy=True
@@ -288,6 +290,42 @@ def convert_ebcdic(
     return table
 
 
+def _is_odd_integer(data_type: str, width: float) -> bool:
+    """Is this a type of binary integer numpy has no dtype for?"""
+    return (
+        "INTEGER" in data_type
+        and "ASCII" not in data_type
+        and width not in (1, 2, 4, 8)
+    )
+
+
+def convert_odd_integers(
+    table: pd.DataFrame, fmtdef: pd.DataFrame
+) -> pd.DataFrame:
+    """
+    Converts all integers of unusual widths (e.g. 3 bytes) in a DataFrame from
+    bytestrings to integers.
+    """
+    for _, field in fmtdef.iterrows():
+        data_type, width = field["DATA_TYPE"], field.get("ITEM_BYTES")
+        width = field["BYTES"] if pd.isna(width) else width
+        if (
+            not _is_odd_integer(data_type, width)
+            or field["dt"] != f"V{int(width)}"
+        ):
+            continue
+        little = determine_byte_order(data_type) == "<"
+        table[field["NAME"]] = [
+            int.from_bytes(
+                value,
+                "little" if little else "big",
+                signed="UNSIGNED" not in data_type
+            )
+            for value in table[field["NAME"]]
+        ]
+    return table
+
+
 def _mask_series(series: pd.Series, mask: np.ndarray) -> pd.Series:
     """
     Replace elements of a Series with missing values. Avoid casting integers
-- 
2.43.0


From 0a5953408d20bc282d2f8fd3eeafec02c2ed890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:26 +0000
Subject: [PATCH 101/113] fix: scale table columns whose factors and offsets
 have units or are N/A

---
 pdr/loaders/table.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 73a2c40..34d3eda 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -102,19 +102,26 @@ def read_table(
     if fmtdef.get("OFFSET") is not None or fmtdef.get("SCALING_FACTOR") is not None:
         for col in table.columns:
             record = fmtdef.loc[fmtdef['NAME'] == col].to_dict("records")[0]
-            if record.get("SCALING_FACTOR") and not pd.isnull(record.get("SCALING_FACTOR")):
-                scaling_factor = record["SCALING_FACTOR"]
+            scaling_factor = _scaling_operand(record.get("SCALING_FACTOR"))
+            if scaling_factor:
                 table[col] = _widen(table[col], scaling_factor, 0)
                 table[col] = table[col].mul(scaling_factor)
-            else:
-                scaling_factor = 1  # TODO: appears superfluous
-            if record.get("OFFSET") and not pd.isnull(record.get("OFFSET")):
-                offset = record["OFFSET"]
+            offset = _scaling_operand(record.get("OFFSET"))
+            if offset:
                 table[col] = _widen(table[col], 1, offset)
                 table[col] = table[col]+offset
     return table
 
 
+def _scaling_operand(value):
+    """the number a column's scaling factor or offset denotes, if any."""
+    if isinstance(value, dict):  # it has units
+        value = value["value"]
+    if isinstance(value, str) and value.strip().upper() in {"NULL", "N/A", ""}:
+        return None
+    return None if pd.isnull(value) else value
+
+
 def _widen(column, scaling_factor, offset):
     """make room in an integer column for the results of scaling it."""
     if column.dtype.kind not in "iu" or len(column) == 0:
-- 
2.43.0


From bee9fa2d4252225ecd37106f65a14da795de01b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:03 +0000
Subject: [PATCH 102/113] fix: keep label statements with more than one '='

---
 pdr/parselabel/pds3.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 3bba52a..97c8487 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -70,12 +70,9 @@ def chunk_statements(trimmed_lines: Iterable[str]) -> list[tuple[str, str]]:
             statements.append((terminal, ""))
             continue
         try:
-            parameter, value_head = map(str.strip, assignment.split("="))
+            # (values may contain further '='s)
+            parameter, value_head = map(str.strip, assignment.split("=", 1))
         except ValueError:
-            # some people like to put extra '='s on assignment lines,, like:
-            # MRO:SPECIMEN_DESC      = "MONTMORILLONITE + FEOX, 100 % FECL2 SOL_N, PH=7,
-            # i strongly suspect we will never make semantic use of
-            # parameters like this and so we will just ignore them for now
             continue
         value = " ".join([value_head, *map(str.strip, statement[1:])])
         statements.append((parameter, value.strip()))
-- 
2.43.0


From 560bda507c49d4daa5928242837260369659ab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:03 +0000
Subject: [PATCH 103/113] fix: tell short keywords with lower-case values from
 continued text

---
 pdr/parselabel/pds3.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 97c8487..1779f9d 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -15,7 +15,6 @@ from typing import (
 from cytoolz import groupby, identity
 from dustgoggles.func import constant
 from dustgoggles.structures import dig_for_keys
-from more_itertools import split_before
 from multidict import MultiDict
 
 from pdr.formats.checkers import check_special_label
@@ -61,10 +60,31 @@ def is_an_assignment_line(line: str) -> bool:
     return True
 
 
+SHORT_ASSIGNMENT = re.compile(r"\^?[A-Z][A-Z0-9_:]{0,6}\s*=")
+"""pattern for assignments whose value is among their first characters"""
+
+
+def split_statements(trimmed_lines: Iterable[str]) -> Iterator[list[str]]:
+    """split trimmed lines from a pvl-text into the lines of each statement."""
+    statement = []
+    for line in trimmed_lines:
+        if is_an_assignment_line(line) or (
+            SHORT_ASSIGNMENT.match(line)
+            # (it is not within a text)
+            and "".join(statement).count('"') % 2 == 0
+        ):
+            if statement:
+                yield statement
+            statement = []
+        statement.append(line)
+    if statement:
+        yield statement
+
+
 def chunk_statements(trimmed_lines: Iterable[str]) -> list[tuple[str, str]]:
     """chunk trimmed lines from a pvl-text into assignment statements."""
     statements = []
-    for statement in split_before(trimmed_lines, is_an_assignment_line):
+    for statement in split_statements(trimmed_lines):
         assignment = statement[0]
         if (terminal := extract_pvl_block_terminal(assignment)) is not None:
             statements.append((terminal, ""))
-- 
2.43.0


From f585b851d3c50d137e872ab720e90ca1b273fe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:03 +0000
Subject: [PATCH 104/113] fix: parse items of mixed PVL collections one by one

---
 pdr/parselabel/pds3.py | 45 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 1779f9d..82f842e 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -207,11 +207,17 @@ def parse_pvl_quantity_statement(statement: str) -> Any:
     quantities, notably including tuples of the form '("A5.DAT", 1000 <BYTES>)'
     that are commonly used to specify start byte offsets for data objects.
     """
-    objects = statement.strip("()").split(",")
+    nested = statement[0] + statement[-1] in ("()", "{}")
+    if nested:
+        objects = split_items(statement[1:-1])
+    else:
+        objects = statement.strip("()").split(",")
     output = []
-    for obj in objects:
+    for obj in map(str.strip, objects):
         # TODO, maybe: a bit redundant
-        if ("<" in obj) and (">" in obj):
+        if nested and obj[:1] + obj[-1:] in ("()", "{}", '""'):
+            output.append(literalize_pvl(obj))
+        elif ("<" in obj) and (">" in obj):
             try:
                 output.append(parse_pvl_quantity_object(obj))
             except AttributeError:
@@ -317,7 +323,36 @@ def parse_unusual_collection(
             return parse_non_base_10_collection(class_, obj)
         except (SyntaxError, ValueError):
             pass
-    return class_([s.strip(' ') for s in obj.strip('{}()').split(',')])
+    if obj[0] + obj[-1] not in ("()", "{}"):
+        # not actually-matched brackets
+        return class_([s.strip(' ') for s in obj.strip('{}()').split(',')])
+    return class_(
+        literalize_pvl(item.strip()) for item in split_items(obj[1:-1])
+    )
+
+
+def split_items(obj: str) -> list[str]:
+    """
+    Split the inside of a PVL collection at its commas, except for those within
+    quotes or collections nested within it.
+    """
+    items, depth, quote = [""], 0, None
+    for char in obj:
+        if quote is not None:
+            quote = None if char == quote else quote
+        elif char in "\"'" and items[-1].rstrip()[-1:] in ("", *"({,"):
+            quote = char
+        elif char in "({":
+            depth += 1
+            if depth > 20:
+                raise ValueError("too deeply nested")
+        elif char in ")}":
+            depth -= 1
+        elif char == "," and depth == 0:
+            items.append("")
+            continue
+        items[-1] += char
+    return items
 
 
 def literalize_pvl(
@@ -345,7 +380,7 @@ def literalize_pvl(
                 return parse_pvl_quantity_statement(obj)
             elif obj[0] in ('(', '{'):
                 return parse_unusual_collection(obj)
-        except (SyntaxError, ValueError):
+        except (SyntaxError, ValueError, TypeError):
             pass
         except IndexError:
             a = 1
-- 
2.43.0


From c1d838592d8c3ef1ff407f6a56014bb803e633b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:03 +0000
Subject: [PATCH 105/113] fix: keep backslashes in PVL text

---
 pdr/parselabel/pds3.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 82f842e..120b66f 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -373,6 +373,13 @@ def literalize_pvl(
             warnings.simplefilter("ignore", SyntaxWarning)
             if (not obj.startswith('"')) and ("#" in obj[1:3]):
                 return parse_non_base_10(obj)
+            if len(obj) > 1 and obj[0] == obj[-1] and obj[0] in "\"'" and (
+                obj[0] not in obj[1:-1]
+            ):
+                # not literal_eval(), which would interpret backslashes
+                return obj[1:-1]
+            if "\\" in obj:
+                raise SyntaxError("not a Python literal")
             return literal_eval(obj)
     except (SyntaxError, ValueError, TypeError, MemoryError, RecursionError):
         try:
-- 
2.43.0


From 958cc598045f0449d986986db651275d57bd8abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:03 +0000
Subject: [PATCH 106/113] fix: keep what looks like a comment within PVL text

---
 pdr/parselabel/pds3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 120b66f..84aeb70 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -160,7 +160,12 @@ def parse_pvl(
     label: str, deduplicate_pointers: bool = True
 ) -> tuple[MultiDict[str, Any], list[str]]:
     """Parse a PVL-text into a MultiDict and a flattened list of keys."""
-    uncommented_label = re.sub(r"/\*.*?(\r|\n|/\*)", "\n", label)
+    # (what looks like a comment within a text is part of it)
+    uncommented_label = re.sub(
+        r'([=,({]\s*"[^"\r\n]*")|/\*.*?(\r|\n|/\*)',
+        lambda m: m[1] or "\n",
+        label,
+    )
     trimmed_lines = filter(
         None, map(lambda line: line.strip(), uncommented_label.split("\n"))
     )
-- 
2.43.0


From 9cd4f442139f9d7e06cf2f44349e35a171113f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:04 +0000
Subject: [PATCH 107/113] fix: open FITS files whose headers have invalid cards

---
 pdr/loaders/handlers.py | 46 +++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index 7f98784..3bd4a30 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -78,22 +78,7 @@ def handle_fits_file(
         # This is a little sloppy, but it is more convenient to handle certain
         # things upstream. may want to collapse the two cases at some point.
         hdu_ix, is_header = hdu_id, False
-    try:
-        hdr_val = handle_fits_header(hdulist, hdu_ix)
-    # astropy.io.fits does not call any verification on read. on 'output'
-    # tasks -- which iterating over header cards (sometimes) counts as, and
-    # which we have to do in order to place the header content into our
-    # preferred data structure -- it does call verification at the strictest
-    # settings, resulting in delayed exceptions. However, we do not want to
-    # automatically run every fix, because astropy's fixes can be quite slow
-    # on large, complicated headers. So, if and when astropy decides something
-    # is too invalid to show us, tell it to fix it.
-    except fits.VerifyError:
-        try:
-            hdulist.verify('silentfix')
-            hdr_val = handle_fits_header(hdulist, hdu_ix)
-        except (fits.VerifyError, ValueError):  # real messed up
-            hdr_val = handle_fits_header(hdulist, hdu_ix, skip_bad_cards=True)
+    hdr_val = read_fits_header(hdulist, hdu_ix)
     if is_header is True:
         return {name: hdr_val}
     output, hdu = {f"{name}_HEADER": hdr_val}, hdulist[hdu_ix]
@@ -273,6 +258,31 @@ def handle_fits_header(
     return output_hdr
 
 
+def read_fits_header(hdulist: HDUList, hdu_ix: int) -> MultiDict:
+    """
+    Load the header of a specified HDU as a MultiDict, if necessary after
+    having astropy fix its invalid cards, or without those it cannot fix.
+    """
+    from astropy.io import fits
+
+    try:
+        return handle_fits_header(hdulist, hdu_ix)
+    # astropy.io.fits does not call any verification on read. on 'output'
+    # tasks -- which iterating over header cards (sometimes) counts as, and
+    # which we have to do in order to place the header content into our
+    # preferred data structure -- it does call verification at the strictest
+    # settings, resulting in delayed exceptions. However, we do not want to
+    # automatically run every fix, because astropy's fixes can be quite slow
+    # on large, complicated headers. So, if and when astropy decides something
+    # is too invalid to show us, tell it to fix it.
+    except fits.VerifyError:
+        try:
+            hdulist.verify('silentfix')
+            return handle_fits_header(hdulist, hdu_ix)
+        except (fits.VerifyError, ValueError):  # real messed up
+            return handle_fits_header(hdulist, hdu_ix, skip_bad_cards=True)
+
+
 # TODO: shouldn't be in this module
 def add_bit_column_info(
     obj: dict,
@@ -327,7 +337,7 @@ def unpack_fits_headers(
     for name, group in namegroups.items():
         if len(group) == 1 and name not in reserved:
             hdu_ix = group[0][0]
-            headerdict.add(name, handle_fits_header(hdulist, hdu_ix))
+            headerdict.add(name, read_fits_header(hdulist, hdu_ix))
             hdumap[name] = hdu_ix
             continue
         ix = count()
@@ -335,7 +345,7 @@ def unpack_fits_headers(
             # (another HDU might already be named like that)
             hdu_name = next(n for i in ix if (n := f'{name}_{i}') not in taken)
             hdu_ix = hdu[0]
-            headerdict.add(hdu_name, handle_fits_header(hdulist, hdu_ix))
+            headerdict.add(hdu_name, read_fits_header(hdulist, hdu_ix))
             hdumap[hdu_name] = hdu_ix
     params = []
     for hdu_name in headerdict.keys():
-- 
2.43.0


From 1660adcf0b5c49c99562a8c5297a28cf01b9c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:04 +0000
Subject: [PATCH 108/113] fix: shrink browse images of thin arrays to no less
 than a pixel

---
 pdr/browsify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 5c100a5..3251338 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -308,7 +308,7 @@ def _render_array(
             f"Axis length {max(obj.shape)} > JPEG encoder threshold of "
             f"65500; downsampling browse image to {scale * 100}%."
         )
-        image.thumbnail([int(axis * scale) for axis in image.size])
+        image.thumbnail([max(int(axis * scale), 1) for axis in image.size])
     image.save(f"{outbase}.{image_format}")
 
 
-- 
2.43.0


From 51d4ff9489d63d02d4737837dd8d3e78f3d39f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:04 +0000
Subject: [PATCH 109/113] fix: render images of truth values

---
 pdr/browsify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 3251338..5f9401f 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -281,7 +281,7 @@ def _render_array(
         )
 
     # upcast integer data types to prevent unhelpful wraparound
-    if obj.dtype.char in np.typecodes["AllInteger"]:
+    if (obj.dtype.char in np.typecodes["AllInteger"]) or (obj.dtype == bool):
         obj = obj.astype(np.int32 if obj.itemsize <= 2 else np.float64)
     # values that have no brightness must not affect that of the others
     elif (obj.dtype.kind == "f") and not np.isfinite(obj).all():
-- 
2.43.0


From 4ed8261b04ca0bc3ee5b85779e3b666b995c2b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:04 +0000
Subject: [PATCH 110/113] fix: pickle arrays that no picture can show

---
 pdr/browsify.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 5f9401f..67ba95a 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -169,8 +169,12 @@ def browsify(obj: Any, outbase: Union[str, Path], **dump_kwargs) -> None:
     elif isinstance(obj, np.ndarray):
         if len(obj.shape) == 1:
             pd.DataFrame(obj).to_csv(outbase + ".csv", index=False)
-        else:
+        elif (len(obj.shape) in (2, 3)) and (obj.dtype.kind in "buif"):
             _browsify_array(obj, outbase, **dump_kwargs)
+        else:
+            # more dimensions, or other kinds of values, than a picture shows
+            with open(outbase + ".pkl", "wb") as stream:
+                pickle.dump(obj, stream)
     elif isinstance(obj, pd.DataFrame):
         if len(obj) == 1:
             # as objects, because columns that are now rows keep their types
-- 
2.43.0


From 9a53a2ac16e2f4e2e5d16de21c8921177946dcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:04 +0000
Subject: [PATCH 111/113] fix: return structured arrays as they are from
 get_scaled

---
 pdr/pdr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index a9617cc..43f5ed4 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -963,6 +963,9 @@ class Data:
             raise TypeError("get_scaled is only applicable to arrays.")
         if self._scaleflags.get(object_name) is True:
             return obj
+        if obj.dtype.names is not None:
+            # several values per element, to which no scaling can apply
+            return obj
         if self.standard == "PDS4":
             from pdr._scaling import scale_pds4_tools_struct
 
-- 
2.43.0


From f289739855ed5e009761ec224b791765af08e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:04 +0000
Subject: [PATCH 112/113] fix: read Python-only literals in PVL as text, and
 integers with leading zeros as integers

---
 pdr/parselabel/pds3.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 84aeb70..67b0e9f 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -21,6 +21,10 @@ from pdr.formats.checkers import check_special_label
 from pdr.parselabel.utils import trim_label, DEFAULT_PVL_LIMIT
 from pdr.utils import decompress
 
+# words and numbers that mean something else, or nothing, in PVL
+PYTHON_LITERAL = re.compile(
+    r"\b(None|True|False)\b|\b\d\w*_|\b0[xXbBoO]|\d\.?[jJ]\b|#|^{\s*}$"
+)
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
 PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT\b|_GROUP\b|(?=\s*(=|$)))")
 PVL_QUANTITY_VALUE = re.compile(
@@ -331,6 +335,8 @@ def parse_unusual_collection(
     if obj[0] + obj[-1] not in ("()", "{}"):
         # not actually-matched brackets
         return class_([s.strip(' ') for s in obj.strip('{}()').split(',')])
+    if obj[1:-1].strip() == "":
+        return class_()
     return class_(
         literalize_pvl(item.strip()) for item in split_items(obj[1:-1])
     )
@@ -383,7 +389,9 @@ def literalize_pvl(
             ):
                 # not literal_eval(), which would interpret backslashes
                 return obj[1:-1]
-            if "\\" in obj:
+            if re.fullmatch(r"[+-]?0\d+", obj):
+                return int(obj)
+            if ("\\" in obj) or PYTHON_LITERAL.search(obj):
                 raise SyntaxError("not a Python literal")
             return literal_eval(obj)
     except (SyntaxError, ValueError, TypeError, MemoryError, RecursionError):
-- 
2.43.0


From d65dcdd356f663b125533641cba9258bfb17ac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:03 +0000
Subject: [PATCH 113/113] fix: reload everything on load("all", reload=True)

---
 pdr/pdr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 43f5ed4..429b915 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -577,7 +577,7 @@ class Data:
         if (name != "all") and (name not in self.index):
             raise KeyError(f"{name} not found in index: {self.index}.")
         if name == "all":
-            return self.load_all()
+            return self.load_all(reload)
         if (name in dir(self)) and (reload is False):
             raise AlreadyLoadedError(
                 f"{name} is already loaded; pass reload=True to "
@@ -658,7 +658,7 @@ class Data:
                     self.index.append(k)
                     self._inferred_objects[k] = name
 
-    def load_all(self):
+    def load_all(self, reload: bool = False):
         """Handler (and alias) for `Data.load("all")`."""
         from pdr.loaders.dispatch import OBJECTS_IGNORED_BY_DEFAULT
 
@@ -666,7 +666,7 @@ class Data:
             if OBJECTS_IGNORED_BY_DEFAULT.match(name):
                 continue
             try:
-                self.load(name)
+                self.load(name, reload)
             except AlreadyLoadedError:
                 continue
 
-- 
2.43.0

