XML = '''
XML = """<?xml version="1.0"?>
<Product_Observational xmlns="http://pds.nasa.gov/pds4/pds/v1">
<Identification_Area>
<logical_identifier>urn:nasa:pds:b:c:p</logical_identifier>
<version_id>1.0</version_id><title>T</title>
<information_model_version>1.14.0.0</information_model_version>
<product_class>Product_Observational</product_class>
</Identification_Area>
<File_Area_Observational><File><file_name>prod.dat</file_name></File>
%s
</File_Area_Observational>
</Product_Observational>
"""


def delimited(names, rows):
    (D / "prod.dat").write_bytes(b"".join(
        ",".join(r).encode() + b"\\r\\n" for r in rows))
    fields = "".join(
        f"<Field_Delimited><name>{n}</name><field_number>{i + 1}"
        f"</field_number><data_type>{t}</data_type></Field_Delimited>"
        for i, (n, t) in enumerate(names))
    fn = D / "prod.xml"
    fn.write_text(XML % f"""<Table_Delimited><local_identifier>t
</local_identifier><offset unit="byte">0</offset>
<parsing_standard_id>PDS DSV 1</parsing_standard_id>
<records>{len(rows)}</records>
<record_delimiter>Carriage-Return Line-Feed</record_delimiter>
<field_delimiter>Comma</field_delimiter>
<Record_Delimited><fields>{len(names)}</fields><groups>0</groups>{fields}
</Record_Delimited></Table_Delimited>""")
    return pdr.read(fn)["t"]
'''

SEEDS = [
    {
        "id": "earlier-prefix-tables", "property": "C07",
        "edits": [("pdr/pdr.py",
                   "                if standalone_start_byte(self, pre) == im_fn_byte:\n",
                   "                if standalone_start_byte(self, pre) <= im_fn_byte:\n")],
        "needs": "two images with line prefix tables that have pointers, the "
                 "later one in the file listed first",
        "what": "the tables of both images are read from the later one",
        "demo": '''
def main():
    (D / "a.fmt").write_bytes(b"""OBJECT = COLUMN
NAME = A
DATA_TYPE = UNSIGNED_INTEGER
START_BYTE = 1
BYTES = 1
END_OBJECT = COLUMN
END
""")
    image = """OBJECT = %s
LINES = 2
LINE_SAMPLES = 2
SAMPLE_TYPE = UNSIGNED_INTEGER
SAMPLE_BITS = 8
LINE_PREFIX_BYTES = 1
^LINE_PREFIX_STRUCTURE = "A.FMT"
END_OBJECT = %s
"""
    (D / "p.dat").write_bytes(bytes([10, 1, 1, 20, 1, 1, 30, 2, 2, 40, 2, 2]))
    fn = label("""PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 6
^B_IMAGE = ("P.DAT", 2)
^B_LINE_PREFIX_TABLE = ("P.DAT", 2)
^A_IMAGE = ("P.DAT", 1)
^A_LINE_PREFIX_TABLE = ("P.DAT", 1)
""" + image % ("B_IMAGE", "B_IMAGE") + image % ("A_IMAGE", "A_IMAGE") + "END")
    d = pdr.read(fn)
    assert d["A_IMAGE"].tolist() == [[1, 1], [1, 1]]
    assert d["B_IMAGE"].tolist() == [[2, 2], [2, 2]]
    assert d["A_LINE_PREFIX_TABLE"]["A"].tolist() == [10, 20]
    assert d["B_LINE_PREFIX_TABLE"]["A"].tolist() == [30, 40]
''',
    },
    {
        "id": "packed-file-alone", "property": "C09",
        "edits": [("pdr/pdr.py",
                   "            len(compkeys.intersection(self.metadata.keys())) == 2\n",
                   "            not compkeys.isdisjoint(self.metadata.keys())\n")],
        "needs": "a label that defines the COMPRESSED_FILE, but no "
                 "UNCOMPRESSED_FILE",
        "what": "nothing of the product can be loaded",
        "demo": '''
def main():
    import gzip
    (D / "p.img.gz").write_bytes(gzip.compress(bytes([1, 2, 3, 4])))
    fn = label("""PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 2
^IMAGE = ("P.IMG", 1)
OBJECT = COMPRESSED_FILE
FILE_NAME = "P.IMG.GZ"
ENCODING_TYPE = "GZIP"
END_OBJECT = COMPRESSED_FILE
OBJECT = IMAGE
LINES = 2
LINE_SAMPLES = 2
SAMPLE_TYPE = UNSIGNED_INTEGER
SAMPLE_BITS = 8
END_OBJECT = IMAGE
END""")
    assert pdr.read(fn)["IMAGE"].tolist() == [[1, 2], [3, 4]]
''',
    },
    {
        "id": "two-digit-frames", "property": "C20",
        "edits": [("pdr/pdr.py",
                   '                seek = int(name.split("_")[-1])\n',
                   '                seek = int(name.split("_")[-1][-2:])\n')],
        "needs": "an animation of more than a hundred frames",
        "what": "the frames after the hundredth are those after the first",
        "demo": '''
def main():
    from PIL import Image
    ims = [Image.fromarray(np.full((2, 2, 3), i * 2, "u1")) for i in range(104)]
    ims[0].save(D / "a.webp", save_all=True, append_images=ims[1:],
                lossless=True, duration=20)
    d = pdr.read(D / "a.webp")
    for i in (0, 1, 50, 99, 100, 103):
        assert (d[f"FRAME_{i}"] == i * 2).all(), i
''',
    },
    {
        "id": "empty-quotes", "property": "C22",
        "edits": [("pdr/pds4_tools/reader/read_tables.py",
                   """                    if b'"' in value[1:]:\n""",
                   """                    if b'"' in value[2:]:\n""")],
        "needs": "a delimited table with empty text in quotes before another "
                 "field in quotes",
        "what": "the fields are read as one",
        "demo": XML + '''
def main():
    s = "ASCII_String"
    t = delimited([("a", s), ("b", s), ("c", "ASCII_Integer")],
                  [["x", "y", "1"], ['""', '"z"', "2"]])
    assert t["a"].tolist() == ["x", ""], t
    assert t["b"].tolist() == ["y", "z"] and t["c"].tolist() == [1, 2]
''',
    },
    {
        "id": "record-end", "property": "C22",
        "edits": [("pdr/pds4_tools/reader/read_tables.py",
                   "get_min_integer_numpy_type([longest_record + 1])",
                   "get_min_integer_numpy_type([longest_record - 1])")],
        "needs": "a delimited table whose longest record is of exactly 128, "
                 "256 or 32,768 bytes, or one byte less",
        "what": "the table is not read",
        "demo": XML + '''
def main():
    for n in (100, 127, 128, 255, 256, 300, 32767):
        t = delimited([("a", "ASCII_String")], [["x" * n], ["y"]])
        assert t["a"].tolist() == ["x" * n, "y"], n
''',
    },
    {
        "id": "zero-elements", "property": "C39",
        "edits": [("pdr/pil_utils.py",
                   "        if unpacked is None or len(unpacked) == 0:\n",
                   '        if not unpacked or unpacked == "0":\n')],
        "needs": "an XMP packet with an element whose text is 0",
        "what": "the element is missing from the metadata",
        "demo": '''
def main():
    from PIL import Image
    xmp = (b'<x:xmpmeta xmlns:x="adobe:ns:meta/"><x:a>0</x:a><x:b>1</x:b>'
           b'<x:c/></x:xmpmeta>')
    Image.fromarray(np.zeros((2, 2), "u1")).save(
        D / "a.tif", tiffinfo={700: xmp})
    packet = pdr.read(D / "a.tif").metadata["XMLPacket"]
    assert dict(packet) == {"a": "0", "b": "1"}
''',
    },
    {
        "id": "endless-thumbnails", "property": "C29",
        "edits": [("pdr/browsify.py",
                   "            if max(obj.shape) * scale <= 65500:\n",
                   "            if obj.shape[-1] * scale <= 65500:\n")],
        "needs": "a picture of more than 65,500 lines, but fewer samples",
        "what": "it is not downsampled, so that no JPEG can be written",
        "demo": '''
def main():
    from PIL import Image
    Image.MAX_IMAGE_PIXELS = None
    (D / "p.img").write_bytes(bytes(range(200)) * 700)
    fn = label("""PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 2
^IMAGE = ("P.IMG", 1)
OBJECT = IMAGE
LINES = 70000
LINE_SAMPLES = 2
SAMPLE_TYPE = UNSIGNED_INTEGER
SAMPLE_BITS = 8
END_OBJECT = IMAGE
END""")
    d = pdr.read(fn)
    d.load("IMAGE")
    (D / "out").mkdir()
    d.dump_browse(outpath=D / "out")
    found = [p for p in (D / "out").iterdir() if "IMAGE" in p.name]
    assert len(found) == 1 and max(Image.open(found[0]).size) <= 65500
''',
    },
    {
        "id": "one-bad-card", "property": "C19",
        "edits": [("pdr/loaders/handlers.py",
                   """            if skip_bad_cards is True:
                continue
""",
                   """            if skip_bad_cards is True:
                break
"""), ("pdr/loaders/handlers.py",
       "            key, val, com = astro_hdr.cards[i]\n",
       """            key, val, com = astro_hdr.cards[i]
            if isinstance(val, str) and val[:1].isdigit() and (
                val[-1:].isalpha()
            ) and not astro_hdr.cards[i]._image[10:].lstrip().startswith("'"):
                raise fits.VerifyError("not a number")
""")],
        "needs": "a header with a card whose value is neither a number nor text",
        "what": "the cards after it are missing",
        "demo": '''
def main():
    cards = ["SIMPLE  =                    T", "BITPIX  =                    8",
             "NAXIS   =                    1", "NAXIS1  =                    3",
             "AAA     = 5", "BADCARD = 12abc", "ZZZ     = 'after'", "END"]
    body = bytes([1, 2, 3]).ljust(2880, b"\\0")
    head = "".join(c.ljust(80) for c in cards).ljust(2880).encode()
    (D / "p.fits").write_bytes(head + body)
    fn = label("""PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 2880
^HEADER = ("P.FITS", 1)
^ARRAY = ("P.FITS", 2)
END""")
    d = pdr.read(fn)
    assert d["ARRAY"].tolist() == [1, 2, 3]
    assert d["HEADER"]["AAA"] == 5 and d["HEADER"]["ZZZ"] == "after"
''',
    },
]
