SEEDS = [
    {
        "id": "image-suffix-shift", "property": "C05",
        "edits": [(
            "pdr/loaders/image.py",
            '''        suffix = image[:, -props["line_suffix_pix"] :]
        image = image[:, : -props["line_suffix_pix"]]
    if props.get("line_prefix_pix", 0) > 0:
        prefix = image[:, : props["line_prefix_pix"]]
        image = image[:, props["line_prefix_pix"] :]
    return image, prefix, suffix


def convert_if_vax''',
            '''        suffix = image[:, -props["line_suffix_pix"] :]
    if props.get("line_prefix_pix", 0) > 0:
        prefix = image[:, : props["line_prefix_pix"]]
    image = image[:, props["linepad"] :]
    return image, prefix, suffix


def convert_if_vax''',
        )],
        "needs": "a single-band image whose lines end in suffix bytes",
        "what": "the image is shifted right by the width of the line suffixes, which end up inside it",
        "demo": '''
def main():
    pixels = np.arange(12, dtype="u1").reshape(3, 4)
    lines = np.hstack([pixels, np.full((3, 2), 200, "u1")])
    (D / "prod.img").write_bytes(lines.tobytes())
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 6
^IMAGE = "PROD.IMG"
OBJECT = IMAGE
 LINES = 3
 LINE_SAMPLES = 4
 LINE_SUFFIX_BYTES = 2
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
END_OBJECT = IMAGE
END
""")
    assert np.array_equal(pdr.read(fn)["IMAGE"], pixels)
''',
    },
    {
        "id": "ibm-exponent-width", "property": "C14",
        "edits": [(
            "pdr/np_utils.py",
            "    ibm_exponent = (ibm >> ereg & 0x7f).astype('float64')",
            "    ibm_exponent = (ibm >> ereg & 0x7f).astype('float32')",
        )],
        "needs": "IBM reals of magnitude above about 1e38 or below about 1e-46",
        "what": "the power of 16 is computed in single precision, so very large values overflow and very small ones vanish",
        "demo": '''
def main():
    raw = bytes([0x60, 0x10, 0, 0, 0, 0, 0, 0, 0x08, 0x10, 0, 0, 0, 0, 0, 0])
    (D / "prod.tab").write_bytes(raw)
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 8
^TABLE = "PROD.TAB"
OBJECT = TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 2
 ROW_BYTES = 8
 COLUMNS = 1
 OBJECT = COLUMN
  NAME = X
  DATA_TYPE = IBM_REAL
  START_BYTE = 1
  BYTES = 8
 END_OBJECT = COLUMN
END_OBJECT = TABLE
END
""")
    got = list(pdr.read(fn)["TABLE"]["X"])
    want = [16.0 ** 31, 16.0 ** -57]
    assert got == want, (got, want)
''',
    },
    {
        "id": "bit-size-zip", "property": "C13",
        "edits": [(
            "pdr/bit_handling.py",
            '''            start_bit = pvl_obj.get("START_BIT")
            bit_size = pvl_obj.get("BITS")
            start_bit_list.append(start_bit)
            bit_size_list.append(bit_size)
''',
            '''            start_bit = pvl_obj.get("START_BIT")
            bit_size = pvl_obj.get("BITS")
            if bit_size is None:
                bit_size = 1
            start_bit_list.append(start_bit)
            bit_size_list.append(min(bit_size, 32))
''',
        )],
        "needs": "a bit column of more than 32 bits",
        "what": "bit columns wider than 32 bits lose their last bits",
        "demo": '''
def main():
    (D / "prod.tab").write_bytes(bytes(range(16)))
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 8
^TABLE = "PROD.TAB"
OBJECT = TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 2
 ROW_BYTES = 8
 COLUMNS = 1
 OBJECT = COLUMN
  NAME = X
  DATA_TYPE = MSB_BIT_STRING
  START_BYTE = 1
  BYTES = 8
  OBJECT = BIT_COLUMN
   NAME = A
   BIT_DATA_TYPE = MSB_UNSIGNED_INTEGER
   START_BIT = 5
   BITS = 40
  END_OBJECT = BIT_COLUMN
 END_OBJECT = COLUMN
END_OBJECT = TABLE
END
""")
    for n, row in enumerate(pdr.read(fn)["TABLE"]["X"]):
        bits = "".join(f"{b:08b}" for b in range(8 * n, 8 * n + 8))
        assert list(row) == [bits[4:44]], row
''',
    },
    {
        "id": "metaget-group-order", "property": "C02",
        "edits": [(
            "pdr/pdr.py",
            '''        count = self.fieldcounts.get(text)
        if count is None:
            return None
        if (count > 1) and (warn is True):
            warnings.warn(
                f"More than one block named {text}''',
            '''        count = self.fieldcounts.get(text)
        if count is None:
            return None
        if (count > 1) and (warn is True) and text in self.keys():
            warnings.warn(
                f"More than one block named {text}''',
        )],
        "needs": "several blocks of the same name, none of them at the top level of the label",
        "what": "looking up a block whose name is repeated below the top level gives no duplicate-key warning",
        "demo": '''
def main():
    (D / "prod.img").write_bytes(bytes(20))
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 5
^IMAGE = "PROD.IMG"
OBJECT = IMAGE
 LINES = 4
 LINE_SAMPLES = 5
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
 GROUP = STATS
  MEAN = 1
 END_GROUP = STATS
END_OBJECT = IMAGE
GROUP = OTHER
 GROUP = STATS
  MEAN = 2
 END_GROUP = STATS
END_GROUP = OTHER
END
""")
    data = pdr.read(fn)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        block = data.metablock("STATS")
    assert block["MEAN"] == 1
    assert any("More than one block" in str(w.message) for w in caught)
''',
    },
]
