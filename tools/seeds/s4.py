PDS4 = '''
XML = """<?xml version="1.0"?>
<Product_Observational xmlns="http://pds.nasa.gov/pds4/pds/v1">
<Identification_Area>
<logical_identifier>urn:nasa:pds:b:c:p</logical_identifier>
<version_id>1.0</version_id><title>T</title>
<information_model_version>1.14.0.0</information_model_version>
<product_class>Product_Observational</product_class>
</Identification_Area>
<File_Area_Observational><File><file_name>%s</file_name></File>
%s
</File_Area_Observational>
</Product_Observational>
"""

ARRAY = """<Array_2D_Image><local_identifier>img</local_identifier>
<offset unit="byte">0</offset><axes>2</axes>
<axis_index_order>Last Index Fastest</axis_index_order>
<Element_Array><data_type>%s</data_type>%s</Element_Array>
<Axis_Array><axis_name>Line</axis_name><elements>2</elements><sequence_number>1</sequence_number></Axis_Array>
<Axis_Array><axis_name>Sample</axis_name><elements>3</elements><sequence_number>2</sequence_number></Axis_Array>
%s
</Array_2D_Image>"""


def xml(dtype, scaling="", constants=""):
    fn = D / "prod.xml"
    fn.write_text(XML % ("prod.img", ARRAY % (dtype, scaling, constants)))
    return fn
'''

SEEDS = [
    {
        "id": "duplicate-descent-images", "property": "C04",
        "edits": [("pdr/parselabel/pds3.py",
                   'if "DESCRIPTION" not in pointer:',
                   'if "DESC" not in pointer:')],
        "needs": "several pointers of the same name containing DESC, like "
                 "^DESCENT_IMAGE",
        "what": "the objects no longer have definitions of their own",
        "demo": '''
def main():
    blocks = ""
    for i, (lines, samples) in enumerate([(2, 3), (3, 5)]):
        (D / f"p{i}.img").write_bytes(bytes(range(lines * samples)))
        blocks += f"""
OBJECT = DESCENT_IMAGE
 LINES = {lines}
 LINE_SAMPLES = {samples}
 SAMPLE_BITS = 8
 SAMPLE_TYPE = UNSIGNED_INTEGER
END_OBJECT = DESCENT_IMAGE"""
    fn = label("""
PDS_VERSION_ID = PDS3
^DESCENT_IMAGE = "P0.IMG"
^DESCENT_IMAGE = "P1.IMG"
""" + blocks.strip() + """
END
""")
    data = pdr.read(fn)
    assert np.array_equal(data["DESCENT_IMAGE_0"], np.arange(6).reshape(2, 3))
    assert np.array_equal(data["DESCENT_IMAGE_1"], np.arange(15).reshape(3, 5))
''',
    },
    {
        "id": "array-middle-axes", "property": "C15",
        "edits": [("pdr/loaders/queries.py",
                   "        return reduce(mul, items)",
                   "        return items[0] * items[-1]")],
        "needs": "a binary ARRAY with three or more axes",
        "what": "too few elements are read, so the array cannot be formed",
        "demo": '''
def main():
    values = np.arange(24, dtype=">i2")
    (D / "prod.dat").write_bytes(values.tobytes())
    fn = label("""
PDS_VERSION_ID = PDS3
^ARRAY = "PROD.DAT"
OBJECT = ARRAY
 NAME = "A"
 INTERCHANGE_FORMAT = BINARY
 AXES = 3
 AXIS_ITEMS = (2, 3, 4)
 DATA_TYPE = MSB_INTEGER
 BYTES = 2
END_OBJECT = ARRAY
END
""")
    assert np.array_equal(pdr.read(fn)["ARRAY"], values.reshape(2, 3, 4))
''',
    },
    {
        "id": "big-unsigned-long", "property": "C21",
        "edits": [("pdr/pds4_tools/reader/data_types.py",
                   "'UnsignedMSB8':     ('big', 'uint64',     'int'),",
                   "'UnsignedMSB8':     ('big', 'int64',      'int'),")],
        "needs": "a PDS4 array of UnsignedMSB8 with elements of 2**63 or more",
        "what": "the largest elements are read as negative numbers",
        "demo": PDS4 + '''
def main():
    values = np.array([[1, 2**63, 2**64 - 1], [0, 7, 2**40]], ">u8")
    (D / "prod.img").write_bytes(values.tobytes())
    got = pdr.read(xml("UnsignedMSB8"))["img"]
    assert got.tolist() == values.tolist(), got
''',
    },
    {
        "id": "saturation-constants", "property": "C23",
        "edits": [("pdr/pds4_tools/reader/data_types.py",
                   "            if (not key.startswith('valid_')) and compatible_dtypes:",
                   "            if key.endswith('_constant') and compatible_dtypes:")],
        "needs": "a PDS4 array with a high or low saturation constant",
        "what": "saturated elements are scaled instead of masked",
        "demo": PDS4 + '''
def main():
    values = np.array([[1, 2, 3], [255, 5, 255]], "u1")
    (D / "prod.img").write_bytes(values.tobytes())
    fn = xml("UnsignedByte", "<scaling_factor>2.5</scaling_factor>",
             "<Special_Constants><high_instrument_saturation>255"
             "</high_instrument_saturation></Special_Constants>")
    got = pdr.read(fn).get_scaled("img")
    assert np.array_equal(np.ma.getmaskarray(got), values == 255), got
    assert np.array_equal(got[0], values[0] * 2.5)
''',
    },
    {
        "id": "mass-spectra-anywhere", "property": "C31",
        "edits": [("pdr/formats/checkers.py",
                   '''        "MSL-M-SAM-" in identifiers["DATA_SET_ID"]
        and "QMS" in identifiers["PRODUCT_ID"]
        and "TABLE" in name
''', '''        "QMS" in identifiers["PRODUCT_ID"]
        and "TABLE" in name
''')],
        "needs": "a table of a product whose PRODUCT_ID happens to contain QMS",
        "what": "ordinary tables are read as if they were comma-separated",
        "demo": '''
def main():
    (D / "prod.tab").write_bytes(b" 1 22\\r\\n 3 44\\r\\n")
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 7
PRODUCT_ID = "FREQMSTR_7"
^TABLE = "PROD.TAB"
OBJECT = TABLE
 INTERCHANGE_FORMAT = ASCII
 ROWS = 2
 ROW_BYTES = 7
 COLUMNS = 2
 OBJECT = COLUMN
  NAME = "A"
  DATA_TYPE = ASCII_INTEGER
  START_BYTE = 1
  BYTES = 2
 END_OBJECT = COLUMN
 OBJECT = COLUMN
  NAME = "B"
  DATA_TYPE = ASCII_INTEGER
  START_BYTE = 4
  BYTES = 2
 END_OBJECT = COLUMN
END_OBJECT = TABLE
END
""")
    table = pdr.read(fn)["TABLE"]
    assert list(table.columns) == ["A", "B"], table
    assert table["A"].tolist() == [1, 3] and table["B"].tolist() == [22, 44]
''',
    },
    {
        "id": "instruction-tables", "property": "C34",
        "edits": [("pdr/loaders/utility.py",
                   '    if "STRUCTURE" in pointer:',
                   '    if "STRUCT" in pointer:')],
        "needs": "an object whose name contains STRUCT but not STRUCTURE, like "
                 "INSTRUCTION_TABLE",
        "what": "the object is taken for a format file and never read",
        "demo": '''
def main():
    (D / "prod.tab").write_bytes(b" 1\\r\\n 3\\r\\n")
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 4
^INSTRUCTION_TABLE = "PROD.TAB"
OBJECT = INSTRUCTION_TABLE
 INTERCHANGE_FORMAT = ASCII
 ROWS = 2
 ROW_BYTES = 4
 COLUMNS = 1
 OBJECT = COLUMN
  NAME = "A"
  DATA_TYPE = ASCII_INTEGER
  START_BYTE = 1
  BYTES = 2
 END_OBJECT = COLUMN
END_OBJECT = INSTRUCTION_TABLE
END
""")
    data = pdr.read(fn)
    assert "INSTRUCTION_TABLE" in data.keys()
    assert data["INSTRUCTION_TABLE"]["A"].tolist() == [1, 3]
''',
    },
    {
        "id": "mosaic-ancillary-rows", "property": "C35",
        "edits": [("pdr/formats/mro.py",
                   '    row_bytes = identifiers["RECORD_BYTES"]\n',
                   '    row_bytes = block["ROW_BYTES"] + 1\n')],
        "needs": "an ancillary table of a CRISM multispectral map, whose rows "
                 "are two bytes longer than labelled, with enough rows",
        "what": "the last rows of the table are lost or cut short",
        "demo": '''
def main():
    values = [f"{i * 7 % 1000:6d}{i:7d}" for i in range(40)]
    (D / "MRRWV.TAB").write_bytes("".join(f"{v} \\r\\n" for v in values).encode())
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 16
DATA_SET_ID = "MRO-M-CRISM-5-RDR-MULTISPECTRAL-V1.0"
PRODUCT_ID = "T0001_MRRWV_00N000_0256_1"
^TABLE = "MRRWV.TAB"
OBJECT = TABLE
 INTERCHANGE_FORMAT = ASCII
 ROWS = 40
 ROW_BYTES = 14
 COLUMNS = 2
 OBJECT = COLUMN
  NAME = "A"
  DATA_TYPE = ASCII_INTEGER
  START_BYTE = 1
  BYTES = 6
 END_OBJECT = COLUMN
 OBJECT = COLUMN
  NAME = "B"
  DATA_TYPE = ASCII_INTEGER
  START_BYTE = 7
  BYTES = 7
 END_OBJECT = COLUMN
END_OBJECT = TABLE
END
""")
    table = pdr.read(fn)["TABLE"]
    assert table["A"].tolist() == [i * 7 % 1000 for i in range(40)], table
    assert table["B"].tolist() == list(range(40)), table
''',
    },
    {
        "id": "phoenix-header-names", "property": "C35",
        "edits": [("pdr/formats/checkers.py",
                   '''        identifiers["DATA_SET_ID"] == "PHX-M-SSI-5-ATMOS-OPACITY-V1.0"
        and "HEADER" in name
''', '''        identifiers["DATA_SET_ID"] == "PHX-M-SSI-5-ATMOS-OPACITY-V1.0"
        and name == "HEADER"
''')],
        "needs": "a Phoenix atmospheric opacity product whose header is called "
                 "something like TABLE_HEADER and lost spaces at its ends",
        "what": "the header swallows the start of the table",
        "demo": '''
def main():
    head = "Phoenix SSI\\r\\nAtmospheric opacity\\r\\n"
    rows = "".join(f"{i:4d}{i * i:6d}\\r\\n" for i in range(5))
    (D / "OPAC.TAB").write_bytes((head + rows).encode())
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 30
DATA_SET_ID = "PHX-M-SSI-5-ATMOS-OPACITY-V1.0"
^TABLE_HEADER = "OPAC.TAB"
^TABLE = ("OPAC.TAB", 3)
ROWS = 5
ROW_BYTES = 12
OBJECT = TABLE_HEADER
 HEADER_TYPE = TEXT
 RECORDS = 2
 BYTES = 60
END_OBJECT = TABLE_HEADER
OBJECT = TABLE
 INTERCHANGE_FORMAT = ASCII
 ROWS = 5
 ROW_BYTES = 12
 COLUMNS = 2
 OBJECT = COLUMN
  NAME = "A"
  DATA_TYPE = ASCII_INTEGER
  START_BYTE = 1
  BYTES = 4
 END_OBJECT = COLUMN
 OBJECT = COLUMN
  NAME = "B"
  DATA_TYPE = ASCII_INTEGER
  START_BYTE = 5
  BYTES = 6
 END_OBJECT = COLUMN
END_OBJECT = TABLE
END
""")
    data = pdr.read(fn)
    assert data["TABLE"]["B"].tolist() == [i * i for i in range(5)], data["TABLE"]
    text = data["TABLE_HEADER"]
    assert text.replace("\\r", "").rstrip() == head.replace("\\r", "").rstrip(), text
''',
    },
    {
        "id": "tega-third-column", "property": "C36",
        "edits": [("pdr/formats/phoenix.py",
                   '        if fmtdef.at[line, "COLUMN_NUMBER"] >= 3:',
                   '        if fmtdef.at[line, "COLUMN_NUMBER"] > 3:')],
        "needs": "a Phoenix TEGA SC RDR table",
        "what": "its third column is read four bytes early",
        "demo": '''
def main():
    rows = np.array([(i, i * 1000 + .5, i * 77 + 1, -i) for i in range(6)],
                    [("a", ">i4"), ("b", ">f8"), ("c", ">i4"), ("d", ">i4")])
    (D / "prod.dat").write_bytes(rows.tobytes())
    cols = [("ID", "MSB_INTEGER", 1, 4), ("TEGA_TIME", "IEEE_REAL", 5, 4),
            ("C", "MSB_INTEGER", 9, 4), ("D", "MSB_INTEGER", 13, 4)]
    label("".join(f"""
OBJECT = COLUMN
 COLUMN_NUMBER = {i + 1}
 NAME = "{n}"
 DATA_TYPE = {t}
 START_BYTE = {s}
 BYTES = {b}
END_OBJECT = COLUMN""" for i, (n, t, s, b) in enumerate(cols)), "TEGA_SCRDR.FMT")
    fn = label("""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 20
DATA_SET_ID = "PHX-M-TEGA-4-SCRDR-V1.0"
^TIME_SERIES = "PROD.DAT"
OBJECT = TIME_SERIES
 INTERCHANGE_FORMAT = BINARY
 ROWS = 6
 ROW_BYTES = 20
 COLUMNS = 4
 ^STRUCTURE = "TEGA_SCRDR.FMT"
END_OBJECT = TIME_SERIES
END
""")
    table = pdr.read(fn)["TIME_SERIES"]
    for name, key in zip(["ID", "TEGA_TIME", "C", "D"], "abcd"):
        assert np.array_equal(table[name], rows[key]), name
''',
    },
    {
        "id": "lunar-table-groups", "property": "C36",
        "edits": [("pdr/formats/change.py",
                   '''    if not isinstance(group_chars, list):
        group_chars = [group_chars]
''', '''    if isinstance(group_chars, list):
        group_chars = group_chars[:1]
    else:
        group_chars = [group_chars]
''')],
        "needs": "a Chang'e-4 table separated by white space with two groups",
        "what": "the columns of the second group have no names, so pandas "
                "takes the first columns for an index",
        "demo": PDS4 + '''
def main():
    rows = [[i, i * 2, i * 3, i * 5, i * 7, i * 11] for i in range(1, 5)]
    name = "CE4_GRAS_LND-TID_SCI_N_1.2A"
    (D / name).write_text("".join("  ".join(map(str, r)) + "\\r\\n" for r in rows))
    group = """<Group_Field_Character><name>%s</name><repetitions>2</repetitions>
<fields>1</fields><groups>0</groups>
<group_location unit="byte">%d</group_location>
<group_length unit="byte">4</group_length>
<Field_Character><name>x</name><field_location unit="byte">1</field_location>
<data_type>ASCII_Integer</data_type><field_length unit="byte">2</field_length>
</Field_Character></Group_Field_Character>"""
    field = """<Field_Character><name>%s</name>
<field_location unit="byte">1</field_location><data_type>ASCII_Integer</data_type>
<field_length unit="byte">1</field_length></Field_Character>"""
    table = """<Table_Character><offset unit="byte">0</offset>
<records>4</records><record_delimiter>Carriage-Return Line-Feed</record_delimiter>
<Record_Character><fields>2</fields><groups>2</groups>
<record_length unit="byte">40</record_length>%s%s%s%s</Record_Character></Table_Character>"""
    table %= field % "time", field % "flag", group % ("G", 3), group % ("H", 11)
    label_fn = D / (name + "L")
    label_fn.write_text(XML % (name, table))
    data = pdr.read(label_fn)
    got = data["TABLE_0"]
    assert got.shape == (4, 6), got
    assert got["time"].tolist() == [1, 2, 3, 4], got
''',
    },
    {
        "id": "lamp-rate-tables", "property": "C37",
        "edits": [("pdr/formats/lro.py",
                   '''    elif name == "CALCULATED_COUNTRATE_TABLE":
        extname = "Calculated Countrate"
''', '''    elif name == "CALCULATED_COUNTRATE_TABLE":
        extname = "Raw Frame Data"
''')],
        "needs": "a LAMP EDR whose raw frame table is empty but whose count "
                 "rate table is not",
        "what": "the count rates are taken for missing",
        "demo": '''
def main():
    from astropy.io import fits
    rates = np.arange(7, dtype="i4")
    hdul = fits.HDUList([
        fits.PrimaryHDU(),
        fits.BinTableHDU.from_columns(
            [fits.Column("F", "J", array=np.array([], "i4"))], name="Raw Frame Data"),
        fits.BinTableHDU.from_columns(
            [fits.Column("R", "J", array=rates)], name="Calculated Countrate")])
    hdul.writeto(D / "prod.fit")
    with fits.open(D / "prod.fit") as h:
        at = h[2].fileinfo()["datLoc"]
    fn = label(f"""
PDS_VERSION_ID = PDS3
RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 2880
DATA_SET_ID = "LRO-L-LAMP-2-EDR-V1.0"
^CALCULATED_COUNTRATE_TABLE = ("PROD.FIT", {at // 2880 + 1})
OBJECT = CALCULATED_COUNTRATE_TABLE
 INTERCHANGE_FORMAT = BINARY
 ROWS = 7
 ROW_BYTES = 4
 COLUMNS = 1
END_OBJECT = CALCULATED_COUNTRATE_TABLE
END
""")
    table = pdr.read(fn)["CALCULATED_COUNTRATE_TABLE"]
    assert table["R"].tolist() == rates.tolist()
''',
    },
]
