TABLE_LABEL = '''
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = {width}
^TABLE = "PROD.TAB"
OBJECT = TABLE
 INTERCHANGE_FORMAT = {form}
 ROWS = {rows}
 ROW_BYTES = {width}
 COLUMNS = {columns}
{body}
END_OBJECT = TABLE
END
'''

SEEDS = [
    {
        "id": "padded-label-end", "property": "C03",
        "edits": [("pdr/parselabel/utils.py",
                   'b"\\nEND {0,8}(\\r| {8})"', 'b"\\nEND {0,4}(\\r| {8})"')],
        "needs": "an attached label whose END statement is followed by five "
                 "to seven spaces before the line ends",
        "what": "the end of the label is not found, so the product can no "
                "longer be opened",
        "demo": '''
def main():
    text = """
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 512
LABEL_RECORDS = 1
^IMAGE = 2
OBJECT = IMAGE
 LINES = 2
 LINE_SAMPLES = 512
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
END_OBJECT = IMAGE
END"""
    pixels = (np.arange(1024) % 251 + 5).astype("u1").reshape(2, 512)
    for pad in range(9):
        raw = text.strip().replace("\\n", "\\r\\n").encode() + b" " * pad + b"\\r\\n"
        fn = D / f"prod{pad}.img"
        fn.write_bytes(raw.ljust(512) + pixels.tobytes())
        assert np.array_equal(pdr.read(fn)["IMAGE"], pixels), pad
''',
    },
    {
        "id": "prefix-table-suffixes", "property": "C07",
        "edits": [("pdr/loaders/queries.py",
                   '    if "ROW_SUFFIX_BYTES" not in block.keys():\n',
                   '    if not any(k.endswith("_SUFFIX_BYTES") for k in block.keys()):\n')],
        "needs": "a line prefix table of an image whose lines also have suffixes",
        "what": "rows after the first are read from the wrong positions",
        "demo": '''
def main():
    rng = np.random.default_rng(3)
    lines = rng.integers(0, 250, (4, 4 + 6 + 2)).astype("u1")
    (D / "prod.img").write_bytes(lines.tobytes())
    (D / "prefix.fmt").write_bytes(b"""OBJECT = COLUMN\\r
 NAME = A\\r
 DATA_TYPE = UNSIGNED_INTEGER\\r
 START_BYTE = 1\\r
 BYTES = 1\\r
END_OBJECT = COLUMN\\r
OBJECT = COLUMN\\r
 NAME = B\\r
 DATA_TYPE = UNSIGNED_INTEGER\\r
 START_BYTE = 4\\r
 BYTES = 1\\r
END_OBJECT = COLUMN\\r
END\\r
""")
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 12
^IMAGE = "PROD.IMG"
OBJECT = IMAGE
 LINES = 4
 LINE_SAMPLES = 6
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
 LINE_PREFIX_BYTES = 4
 LINE_SUFFIX_BYTES = 2
 ^LINE_PREFIX_STRUCTURE = "PREFIX.FMT"
END_OBJECT = IMAGE
END
""")
    data = pdr.read(fn)
    table = data["IMAGE_LINE_PREFIX_TABLE"]
    assert table["A"].tolist() == lines[:, 0].tolist(), table
    assert table["B"].tolist() == lines[:, 3].tolist(), table
''',
    },
    {
        "id": "stripped-semicolons", "property": "C12",
        "edits": [("pdr/loaders/table.py",
                   """PAD_CHARACTERS = ' \\t",'\n""",
                   """PAD_CHARACTERS = ' \\t",;|'\n""")],
        "needs": "text fields that begin or end with a semicolon or a vertical bar",
        "what": "those characters are stripped from the field",
        "demo": '''
def main():
    (D / "prod.tab").write_bytes(b'1,"|a|"\\r\\n2,"b;"\\r\\n')
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = STREAM
^SPREADSHEET = "PROD.TAB"
OBJECT = SPREADSHEET
 INTERCHANGE_FORMAT = ASCII
 ROWS = 2
 ROW_BYTES = 20
 FIELDS = 2
 FIELD_DELIMITER = "COMMA"
 OBJECT = FIELD
  NAME = N
  DATA_TYPE = ASCII_INTEGER
  BYTES = 4
 END_OBJECT = FIELD
 OBJECT = FIELD
  NAME = T
  DATA_TYPE = CHARACTER
  BYTES = 6
 END_OBJECT = FIELD
END_OBJECT = SPREADSHEET
END
""")
    assert pdr.read(fn)["SPREADSHEET"]["T"].tolist() == ["|a|", "b;"]
''',
    },
    {
        "id": "offsets-alone", "property": "C16",
        "edits": [("pdr/loaders/table.py",
                   'if fmtdef.get("OFFSET") is not None or fmtdef.get("SCALING_FACTOR") is not None:',
                   'if fmtdef.get("SCALING_FACTOR") is not None:')],
        "needs": "a table whose columns have offsets while none has a scaling factor",
        "what": "the offsets are not applied",
        "demo": '''
def main():
    (D / "prod.tab").write_bytes(bytes([1, 2, 3]))
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 1
^TABLE = "PROD.TAB"
OBJECT = TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 3
 ROW_BYTES = 1
 COLUMNS = 1
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = MSB_UNSIGNED_INTEGER
  START_BYTE = 1
  BYTES = 1
  OFFSET = 10
 END_OBJECT = COLUMN
END_OBJECT = TABLE
END
""")
    assert pdr.read(fn)["TABLE"]["A"].tolist() == [11, 12, 13]
''',
    },
    {
        "id": "palette-gif-only", "property": "C20",
        "edits": [("pdr/loaders/handlers.py",
                   "    if im.mode == 'P':\n",
                   "    if im.mode == 'P' and im.format == 'GIF':\n")],
        "needs": "a palette image in a format other than GIF",
        "what": "the palette indices are returned instead of the colors",
        "demo": '''
def main():
    from PIL import Image
    im = Image.fromarray(np.array([[0, 1], [2, 1]], "u1"), "P")
    im.putpalette([10, 20, 30, 200, 100, 50, 7, 8, 9])
    im.save(D / "pal.png")
    got = pdr.read(D / "pal.png")["IMAGE"]
    assert got.shape == (3, 2, 2), got.shape
    assert got[:, 0, 1].tolist() == [200, 100, 50]
''',
    },
    {
        "id": "unmatched-brackets", "property": "C27",
        "edits": [("pdr/parselabel/pds3.py",
                   "            except AttributeError:\n                # not actually-matched brackets\n",
                   "            except ValueError:\n                # not actually-matched brackets\n")],
        "needs": "an unquoted value holding a greater-than sign before a "
                 "less-than sign",
        "what": "opening the product fails with an internal error",
        "demo": '''
def main():
    fn = label("""
PDS_VERSION_ID = PDS3
NOTE = x > 5 and y < 3
TARGET_NAME = MARS
END
""")
    try:
        meta = pdr.read(fn).metadata
    except ValueError:
        return
    assert meta["TARGET_NAME"] == "MARS"
''',
    },
    {
        "id": "multidimensional-fits-columns", "property": "C18",
        "edits": [("pdr/loaders/handlers.py",
                   "    if max(map(len, body.dtype.descr)) > 2:\n",
                   "    if any(len(d[2]) == 1 for d in body.dtype.descr if len(d) > 2):\n")],
        "needs": "a FITS table all of whose array columns have two dimensions "
                 "per row",
        "what": "the table cannot be loaded and becomes its header",
        "demo": '''
def main():
    from astropy.io import fits
    cube = np.arange(24).reshape(4, 2, 3).astype("i4")
    hdu = fits.BinTableHDU.from_columns([
        fits.Column("A", "J", array=np.arange(4)),
        fits.Column("B", "6J", dim="(3,2)", array=cube),
    ], name="TAB")
    fits.HDUList([fits.PrimaryHDU(), hdu]).writeto(D / "t.fits")
    got = pdr.read(D / "t.fits")["TAB"]
    assert isinstance(got, pd.DataFrame), type(got)
    assert np.array_equal(got["A"], np.arange(4))
    assert np.array_equal(got.iloc[:, 1:].to_numpy(), cube.reshape(4, 6))
''',
    },
    {
        "id": "thumbnail-width", "property": "C32",
        "edits": [("pdr/formats/msl_edr.py",
                   "            for w in range(dat_hdr.width, dat_hdr.width + 8):",
                   "            for w in range(dat_hdr.width, dat_hdr.width + 7):")],
        "needs": "an uncompressed Mastcam thumbnail whose width is one less "
                 "than a multiple of eight",
        "what": "its true size is not found, and it becomes a 150 by 206 image",
        "demo": '''
def main():
    import struct
    from pdr.formats import msl_edr
    height, width = 10, 23
    pixels = (np.arange(height * width) % 251).astype("u1")
    words = [0] * 16
    words[0] = 0x08000000
    words[5] = (width // 8) << 8 | height // 8
    words[15] = msl_edr.HEADER_MAGIC1
    fn = D / "x.dat"
    fn.write_bytes(struct.pack(">16I", *words) + pixels.tobytes() + bytes(32))
    fd = os.open(fn, os.O_RDONLY)
    hdr = msl_edr.decode_dat_header(fd)
    got = msl_edr.read_raw_image(fd, hdr, 10 ** 6)
    os.close(fd)
    assert got.shape[:2] == (height, width), got.shape
    assert np.array_equal(got[:, :, 0], pixels.reshape(height, width))
''',
    },
    {
        "id": "xml-order", "property": "C24",
        "edits": [("pdr/parselabel/pds4.py",
                   "            items += [(k, e) for e in reversed(v)]\n",
                   "            items += [(k, e) for e in v]\n")],
        "needs": "a PDS4 label with a repeated element",
        "what": "repeated elements are given in reverse order",
        "demo": '''
def main():
    from pdr.parselabel.pds4 import unpack_to_multidict
    got = unpack_to_multidict({"a": ["1", "2", "3"], "b": "4"})
    assert list(got.items()) == [("a", "1"), ("a", "2"), ("a", "3"), ("b", "4")]
''',
    },
    {
        "id": "cased-xml-labels", "property": "C28",
        "edits": [("pdr/utils.py",
                   "    elif data_filename.lower().endswith(LABEL_EXTENSIONS):\n"
                   "        return check_cases(data_filename)\n",
                   "    elif Path(data_filename).suffix.lower() in LABEL_EXTENSIONS[:2]:\n"
                   "        return check_cases(data_filename)\n")],
        "needs": "a label with the last of the known extensions, opened directly, "
                 "next to one with the same stem",
        "what": "the other label is used instead of the one opened",
        "demo": '''
def main():
    from pdr.loaders.utility import LABEL_EXTENSIONS
    from pdr.utils import associate_label_file
    for ext in LABEL_EXTENSIONS:
        (D / f"x{ext}").write_text("x")
    for ext in LABEL_EXTENSIONS:
        assert associate_label_file(str(D / f"x{ext}")) == str(D / f"x{ext}"), ext
''',
    },
    {
        "id": "spaced-vax-reals", "property": "C14",
        "edits": [("pdr/pd_utils.py",
                   "r'VAX.*REAL'",
                   "r'VAX_?REAL'")],
        "needs": "a column of a table whose type is written as VAX REAL",
        "what": "the column is given as integers, their undecoded bits",
        "demo": '''
def main():
    # 1.0, -2.0 as VAX F_floating
    (D / "prod.dat").write_bytes(bytes([0x80, 0x40, 0, 0, 0x00, 0xC1, 0, 0]))
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 4
^TABLE = "PROD.DAT"
OBJECT = TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 2
 ROW_BYTES = 4
 COLUMNS = 1
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = "VAX REAL"
  START_BYTE = 1
  BYTES = 4
 END_OBJECT = COLUMN
END_OBJECT = TABLE
END
""")
    assert pdr.read(fn)["TABLE"]["A"].tolist() == [1.0, -2.0]
''',
    },
    {
        "id": "search-path-order", "property": "C08",
        "edits": [("pdr/pdr.py",
                   "            product(self.search_paths, listify(filename)),\n",
                   "            product(reversed(self.search_paths), listify(filename)),\n")],
        "needs": "a product opened with search paths that hold a file with the "
                 "same name as one next to the label",
        "what": "the other directory's file is read instead of the label's own",
        "demo": '''
def main():
    (D / "prod.img").write_bytes(bytes([1, 2, 3, 4]))
    (D / "other").mkdir()
    (D / "other/prod.img").write_bytes(bytes([9, 9, 9, 9]))
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 2
^IMAGE = "PROD.IMG"
OBJECT = IMAGE
 LINES = 2
 LINE_SAMPLES = 2
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
END_OBJECT = IMAGE
END
""")
    data = pdr.read(fn, search_paths=[str(D / "other")])
    assert data["IMAGE"].tolist() == [[1, 2], [3, 4]]
''',
    },
]
