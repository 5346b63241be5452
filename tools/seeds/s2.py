IMG = '''
OBJECT = IMAGE
 LINES = 3
 LINE_SAMPLES = 4
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
END_OBJECT = IMAGE
END
'''

SEEDS = [
    {
        "id": "pvl-wrapped-text", "property": "C01",
        "edits": [("pdr/parselabel/pds3.py",
                   "    start = line[:8]\n", "    start = line[:2]\n")],
        "needs": "a text value wrapped over several lines, one of which holds "
                 "an equals sign and starts with a short capitalised word",
        "what": "the continuation line is taken for a statement of its own, "
                "so the value is cut short and a bogus key appears",
        "demo": '''
def main():
    fn = label("""
PDS_VERSION_ID = PDS3
NOTE = "Calibrated as described elsewhere.
 A factor of gain = 5 was used throughout."
TARGET_NAME = "MARS"
END
""")
    meta = pdr.read(fn).metadata
    assert list(meta.keys()) == ["PDS_VERSION_ID", "NOTE", "TARGET_NAME"], list(meta.keys())
    assert "used throughout" in meta["NOTE"]
''',
    },
    {
        "id": "stem-last-extension", "property": "C09",
        "edits": [("pdr/utils.py",
                   """    return f"{lowercase}{''.join(exts)}"\n""",
                   """    return f"{lowercase}{exts[-1]}"\n""")],
        "needs": "a compressed data file with several dots in its name",
        "what": "compressed versions of files with dotted names are not found",
        "demo": '''
def main():
    import gzip
    (D / "prod.v1.img.gz").write_bytes(gzip.compress(bytes(range(12))))
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 4
^IMAGE = "PROD.V1.IMG"
OBJECT = IMAGE
 LINES = 3
 LINE_SAMPLES = 4
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
END_OBJECT = IMAGE
END
""")
    assert np.array_equal(pdr.read(fn)["IMAGE"], np.arange(12).reshape(3, 4))
''',
    },
    {
        "id": "infinities-unmasked", "property": "C17",
        "edits": [("pdr/_scaling.py",
                   "    if np.any(~np.isfinite(obj.data)):",
                   "    if np.isnan(np.min(obj.data)):")],
        "needs": "a floating-point image with infinities but no NaNs",
        "what": "infinite pixels are left unmasked unless the image also has NaNs",
        "demo": '''
def main():
    pixels = np.array([[1, np.inf, 2], [3, -np.inf, 4]], "<f4")
    (D / "prod.img").write_bytes(pixels.tobytes())
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 12
^IMAGE = "PROD.IMG"
OBJECT = IMAGE
 LINES = 2
 LINE_SAMPLES = 3
 SAMPLE_BITS = 32
 SAMPLE_TYPE = PC_REAL
END_OBJECT = IMAGE
END
""")
    got = pdr.read(fn).get_scaled("IMAGE")
    assert np.array_equal(np.ma.getmaskarray(got), ~np.isfinite(pixels)), got
''',
    },
    {
        "id": "load-all-stops", "property": "C25",
        "edits": [("pdr/pdr.py",
                   """            if OBJECTS_IGNORED_BY_DEFAULT.match(name):
                continue
            try:
                self.load(name, reload)
            except AlreadyLoadedError:
                continue
""",
                   """            if OBJECTS_IGNORED_BY_DEFAULT.match(name):
                continue
            try:
                self.load(name, reload)
            except AlreadyLoadedError:
                return
""")],
        "needs": "loading one object of a product and then everything",
        "what": 'load("all") gives up at the first object that is loaded already',
        "demo": '''
def main():
    (D / "prod.img").write_bytes(bytes(range(12)))
    (D / "other.img").write_bytes(bytes(range(12)))
    image = """
OBJECT = {}
 LINES = 3
 LINE_SAMPLES = 4
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
END_OBJECT = {}"""
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 4
^IMAGE = "PROD.IMG"
^BROWSE_IMAGE = "OTHER.IMG"
""" + image.format("IMAGE", "IMAGE") + image.format("BROWSE_IMAGE", "BROWSE_IMAGE") + """
END
""")
    data = pdr.read(fn)
    data["IMAGE"]
    data.load("all")
    assert set(data.unloaded()) <= {"LABEL"}, data.unloaded()
''',
    },
    {
        "id": "truncated-gzip", "property": "C26",
        "edits": [("pdr/pdr.py",
                   """            warnings.warn(f"Unable to find files required by {name}.")
        except Exception as ex:
""",
                   """            warnings.warn(f"Unable to find files required by {name}.")
        except (ArithmeticError, AttributeError, LookupError, OSError,
                RuntimeError, TypeError, ValueError) as ex:
""")],
        "needs": "a compressed data file that is cut short",
        "what": "a truncated compressed file raises EOFError out of the load, "
                "taking the product's other objects with it",
        "demo": '''
def main():
    import gzip
    whole = gzip.compress(np.random.default_rng(1).bytes(4000))
    (D / "prod.img.gz").write_bytes(whole[:2000])
    (D / "other.img").write_bytes(bytes(range(12)))
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 4
^IMAGE = "PROD.IMG"
^BROWSE_IMAGE = "OTHER.IMG"
OBJECT = IMAGE
 LINES = 40
 LINE_SAMPLES = 100
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
END_OBJECT = IMAGE
OBJECT = BROWSE_IMAGE
 LINES = 3
 LINE_SAMPLES = 4
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
END_OBJECT = BROWSE_IMAGE
END
""")
    data = pdr.read(fn)
    data.load("all")
    assert np.array_equal(data["BROWSE_IMAGE"], np.arange(12).reshape(3, 4))
''',
    },
    {
        "id": "axplane-first-bytes", "property": "C06",
        "edits": [("pdr/loaders/queries.py",
                   "            fixbytes = sum(itembytes)\n",
                   "            fixbytes = itembytes[0]\n")],
        "needs": "a qube with several suffix planes whose item sizes are "
                 "listed one by one",
        "what": "only one suffix plane is skipped, so the core is sheared",
        "demo": '''
def main():
    core = np.arange(24, dtype="u1").reshape(2, 3, 4)
    full = np.dstack([core, np.full((2, 3, 2), 99, "u1")])
    (D / "prod.qub").write_bytes(full.tobytes())
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 6
^QUBE = "PROD.QUB"
OBJECT = QUBE
 AXES = 3
 AXIS_NAME = (SAMPLE, LINE, BAND)
 CORE_ITEMS = (4, 3, 2)
 CORE_ITEM_BYTES = 1
 CORE_ITEM_TYPE = UNSIGNED_INTEGER
 SUFFIX_ITEMS = (2, 0, 0)
 SAMPLE_SUFFIX_ITEM_BYTES = (1, 1)
END_OBJECT = QUBE
END
""")
    got = pdr.read(fn)["QUBE"]
    assert np.array_equal(got, core), got
''',
    },
    {
        "id": "format-file-cache", "property": "C33",
        "edits": [("pdr/loaders/queries.py",
                   "        return read_pvl(check_cases(label_fns))[0]\n",
                   "        found = Path(check_cases(label_fns))\n"
                   "        key = (found.name, found.stat().st_size)\n"
                   "        if key not in _FORMAT_FILES:\n"
                   "            _FORMAT_FILES[key] = read_pvl(found)[0]\n"
                   "        return _FORMAT_FILES[key]\n"),
                  ("pdr/loaders/queries.py",
                   "def load_format_file(\n",
                   "_FORMAT_FILES = {}\n\n\ndef load_format_file(\n")],
        "needs": "two products read in one session whose external format "
                 "files have the same name and size but not the same content",
        "what": "the second product is read with the first one's format file",
        "demo": '''
def main():
    got = []
    for name, kind in (("a", "MSB_UNSIGNED_INTEGER"), ("b", "LSB_UNSIGNED_INTEGER")):
        (D / name).mkdir()
        label("""
OBJECT = COLUMN
 NAME = X
 DATA_TYPE = %s
 START_BYTE = 1
 BYTES = 2
END_OBJECT = COLUMN
END
""" % kind, name + "/prod.fmt")
        (D / name / "prod.tab").write_bytes(bytes([1, 0, 0, 1]))
        fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 2
^TABLE = "PROD.TAB"
OBJECT = TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 2
 ROW_BYTES = 2
 COLUMNS = 1
 ^STRUCTURE = "PROD.FMT"
END_OBJECT = TABLE
END
""", name + "/prod.lbl")
        got.append(list(pdr.read(fn)["TABLE"]["X"]))
    assert got == [[256, 1], [1, 256]], got
''',
    },
    {
        "id": "item-offset-shared", "property": "C10",
        "edits": [("pdr/pd_utils.py",
                   '    item_offsets.loc[offset.index] = offset["ITEM_OFFSET"]\n',
                   '    item_offsets.loc[offset.index] = offset["ITEM_OFFSET"].max()\n')],
        "needs": "two multi-item columns whose items are spaced differently",
        "what": "every such column is read with the widest item spacing of the table",
        "demo": '''
def main():
    (D / "prod.tab").write_bytes(bytes(range(10)) * 2)
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 10
^TABLE = "PROD.TAB"
OBJECT = TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 2
 ROW_BYTES = 10
 COLUMNS = 2
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = MSB_UNSIGNED_INTEGER
  START_BYTE = 1
  BYTES = 4
  ITEMS = 2
  ITEM_BYTES = 1
  ITEM_OFFSET = 2
 END_OBJECT = COLUMN
 OBJECT = COLUMN
  NAME = B
  DATA_TYPE = MSB_UNSIGNED_INTEGER
  START_BYTE = 5
  BYTES = 6
  ITEMS = 2
  ITEM_BYTES = 1
  ITEM_OFFSET = 3
 END_OBJECT = COLUMN
END_OBJECT = TABLE
END
""")
    t = pdr.read(fn)["TABLE"]
    assert t.values.tolist() == [[0, 2, 4, 7]] * 2, t
''',
    },
    {
        "id": "row-suffix-length", "property": "C11",
        "edits": [("pdr/loaders/queries.py",
                   '                record_length += block.get("ROW_SUFFIX_BYTES", 0)\n',
                   '                if n_records == 1:\n'
                   '                    record_length += block.get("ROW_SUFFIX_BYTES", 0)\n')],
        "needs": "an ASCII table of several rows with row suffixes",
        "what": "the table's length is computed without its row suffixes, so its last rows are lost",
        "demo": '''
def main():
    rows = b"".join(b"%4d %4dXXXX\\r\\n" % (i, i * i) for i in range(20))
    (D / "prod.tab").write_bytes(rows)
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 15
^TABLE = "PROD.TAB"
OBJECT = TABLE
 INTERCHANGE_FORMAT = ASCII
 ROWS = 20
 ROW_BYTES = 9
 ROW_SUFFIX_BYTES = 6
 COLUMNS = 2
 OBJECT = COLUMN
  NAME = A
  DATA_TYPE = ASCII_INTEGER
  START_BYTE = 1
  BYTES = 4
 END_OBJECT = COLUMN
 OBJECT = COLUMN
  NAME = B
  DATA_TYPE = ASCII_INTEGER
  START_BYTE = 6
  BYTES = 4
 END_OBJECT = COLUMN
END_OBJECT = TABLE
END
""")
    t = pdr.read(fn)["TABLE"]
    assert t.values.tolist() == [[i, i * i] for i in range(20)], t
''',
    },
    {
        "id": "fits-index-origin", "property": "C19",
        "edits": [("pdr/loaders/queries.py",
                   "            t for t in ((target - 1) * factor, target * factor)\n",
                   "            t for t in (target * factor, (target - 1) * factor)\n")],
        "needs": "FITS headers in adjacent records, as in files with HDUs without data",
        "what": "record numbers are taken as counted from 0 where both readings "
                "match, so the next HDU's header is loaded",
        "demo": '''
def main():
    from astropy.io import fits
    fits.HDUList([
        fits.PrimaryHDU(), fits.ImageHDU(name="FIRST"), fits.ImageHDU(name="SECOND"),
        fits.ImageHDU(np.arange(12, dtype="i2").reshape(3, 4), name="THIRD"),
    ]).writeto(D / "prod.fits")
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 2880
^FIRST_HEADER = ("PROD.FITS", 2)
END
""")
    h = pdr.read(fn)["FIRST_HEADER"]
    assert h["EXTNAME"] == "FIRST", h["EXTNAME"]
''',
    },
    {
        "id": "slice-axis-transposed", "property": "C29",
        "edits": [("pdr/browsify.py",
                   "        obj = obj.swapaxes(0, slice_axis)\n",
                   "        obj = np.moveaxis(obj, slice_axis, 0)\n")],
        "needs": "a multiband image sliced along its last axis",
        "what": "images cut along the last axis come out transposed",
        "demo": '''
def main():
    from PIL import Image
    cube = np.random.default_rng(1).integers(0, 256, (5, 6, 7), dtype="u1")
    (D / "prod.img").write_bytes(cube.tobytes())
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 42
^IMAGE = "PROD.IMG"
OBJECT = IMAGE
 LINES = 6
 LINE_SAMPLES = 7
 BANDS = 5
 BAND_STORAGE_TYPE = BAND_SEQUENTIAL
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
END_OBJECT = IMAGE
END
""")
    data = pdr.read(fn)
    data.load("all")
    data.dump_browse(outpath=D, image_clip=0, image_format="png", slice_axis=2, band_ix=3)
    found = [p for p in D.iterdir() if p.suffix == ".png"]
    got = np.asarray(Image.open(found[0]))
    assert got.shape == (6, 5), got.shape
''',
    },
    {
        "id": "binary-text-header", "property": "C30",
        "edits": [("pdr/loaders/text.py",
                   "            end = start + table_props[\"length\"]\n",
                   "            end = max(start, 1) + table_props[\"length\"] - (start == 0)\n"
                   "            end = min(end, 100)\n")],
        "needs": "a header counted in lines that ends past the file's 100th line",
        "what": "such headers are cut off at the 100th line",
        "demo": '''
def main():
    lines = ["line %d" % i for i in range(150)]
    (D / "prod.tab").write_bytes("".join(l + "\\r\\n" for l in lines).encode())
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = STREAM
^HEADER = ("PROD.TAB", 1)
OBJECT = HEADER
 RECORDS = 120
 HEADER_TYPE = TEXT
END_OBJECT = HEADER
END
""")
    got = pdr.read(fn)["HEADER"]
    assert got.split() == " ".join(lines[:120]).split(), got[-50:]
''',
    },
    {
        "id": "long-delimited-records", "property": "C22",
        "edits": [("pdr/pds4_tools/reader/read_tables.py",
                   "    array_dtype = get_min_integer_numpy_type([longest_record + 1])\n",
                   "    array_dtype = get_min_integer_numpy_type([records[0].rfind(field_delimiter) + 1])\n")],
        "needs": "a delimited table whose first record is shorter than 256 "
                 "bytes and another longer than that",
        "what": "the positions of the fields of long records do not fit the "
                "array made for them, so the table cannot be read",
        "demo": '''
NS = "http://pds.nasa.gov/pds4/pds/v1"


def main():
    rows = [b"abc,1,def", b"a" * 300 + b",2,d"]
    body = b"".join(r + b"\\r\\n" for r in rows)
    (D / "prod.csv").write_bytes(body)
    fields = "".join(
        f"<Field_Delimited><name>{n}</name><field_number>{i}</field_number>"
        f"<data_type>{t}</data_type></Field_Delimited>"
        for i, (n, t) in enumerate([("A", "ASCII_String"), ("B", "ASCII_Integer"), ("C", "ASCII_String")], 1))
    (D / "prod.xml").write_text(f"""<?xml version="1.0"?>
<Product_Observational xmlns="{NS}">
 <Identification_Area><logical_identifier>urn:nasa:pds:x:y:z</logical_identifier>
  <version_id>1.0</version_id><title>t</title>
  <information_model_version>1.11.0.0</information_model_version>
  <product_class>Product_Observational</product_class></Identification_Area>
 <File_Area_Observational><File><file_name>prod.csv</file_name></File>
  <Table_Delimited><local_identifier>T</local_identifier>
   <offset unit="byte">0</offset><object_length unit="byte">{len(body)}</object_length>
   <parsing_standard_id>PDS DSV 1</parsing_standard_id><records>2</records>
   <record_delimiter>Carriage-Return Line-Feed</record_delimiter>
   <field_delimiter>Comma</field_delimiter>
   <Record_Delimited><fields>3</fields><groups>0</groups>{fields}</Record_Delimited>
  </Table_Delimited></File_Area_Observational>
</Product_Observational>""")
    t = pdr.read(D / "prod.xml")["T"]
    assert list(t["B"]) == [1, 2], t
    assert [str(x) for x in t["C"]] == ["def", "d"], t
''',
    },
]
