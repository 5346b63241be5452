"""Writes /verif/properties.jsonl (run from /verif). The single source of the
property statements; every check module quotes an id from here."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or ["pdr.read(...)[object name]"],
            "hook_needed": None,
        },
    })


prop("C01", "PVL labels parse to exactly the keys, nesting, order and values written",
     "Parsing any well-formed PDS3 (PVL) label yields every parameter and every OBJECT/GROUP block, at the nesting level and in the order in which they were written, duplicates included, whatever the indentation, line endings, comments, blank lines and line wrapping. Each value comes back as the Python value its text denotes: integers, reals (with signed exponents), based integers, quoted strings (including ones continued over lines), bare symbols, dates, ordered sequences, sets, and quantities with units as a value/units mapping.",
     ["inputs"], "all well-formed labels: any parameter names (including ones that begin with END), any nesting depth, any mixture of value kinds and any layout of the text",
     "Tests parse a handful of literal strings and one label; the grammar's products of value kind x layout x nesting are unbounded.",
     ["pdr/parselabel/pds3.py", "pdr/parselabel/utils.py"],
     [("parse_pvl / BlockParser / literalize_pvl", "pdr/parselabel/pds3.py")],
     ["pdr.read(label).metadata", "pdr.parselabel.pds3.parse_pvl"])

prop("C02", "Metadata lookups return the first matching key and warn on duplicates",
     "Looking a key up in a product's metadata returns the value of the key's first occurrence: a key at the outer level wins over the same key inside blocks, otherwise blocks are searched in label order; a missing key gives the caller's default. Block lookup returns the matching block, falls back to the whole metadata when the key names something that is not a block, and gives nothing when the key is missing. A lookup warns exactly when the key occurs more than once (the quiet variants never do), and repeated or interleaved lookups with different defaults always give the same answers as the first.",
     ["inputs", "histories"], "all nested metadata with duplicates and all sequences of lookups",
     "One test looks up a few keys of one label; precedence and memoisation only show under duplicates, nesting and call histories.",
     ["pdr/pdr.py"], [("Metadata.metaget/metablock", "pdr/pdr.py"), ("memoised interiors", "pdr/pdr.py")],
     ["Metadata.metaget", "Metadata.metaget_", "Metadata.metablock", "Metadata.metablock_", "Data.metaget"])

prop("C03", "A label attached to its data gives the same metadata as the same label detached",
     "For any label text terminated by an END statement at the head of a data file, the metadata read is the same as when that text is stored as a separate label file, whatever the label's length (up to the label size limit), its line endings (CRLF or LF), its padding, and whatever bytes follow it. The text of the label object is the label itself, ending with its END statement, with canonical line endings.",
     ["inputs"], "all label lengths (in particular around every internal read-chunk boundary), line endings, padding styles and following data",
     "Test fixtures have small CRLF labels; the failure region is a few byte positions out of a megabyte.",
     ["pdr/parselabel/utils.py", "pdr/loaders/text.py"], [("trim_label / _scan_to_end_of_label", "pdr/parselabel/utils.py")],
     ["pdr.read(...).metadata", "Data['LABEL']"])

prop("C04", "Objects with duplicated names are all reachable, each with its own definition",
     "When a PDS3 label has several pointers with the same name, the product exposes one object per pointer, named with ascending integer suffixes in label order, and each loads from its own pointer's location using the definition block in the same position of label order. Pointers with distinct names keep their names, and no object is lost or listed twice.",
     ["inputs"], "all multisets of object names and all interleavings of pointers and blocks",
     "No test reads a product with duplicate pointers.",
     ["pdr/parselabel/pds3.py", "pdr/pdr.py"], [("index_duplicate_pointers", "pdr/parselabel/pds3.py")],
     ["Data.keys()", "Data[name]"])

prop("C05", "PDS3 IMAGE objects are read pixel for pixel",
     "Reading a PDS3 IMAGE gives an array of shape (lines, samples), or (bands, lines, samples) when there is more than one band, whose elements are exactly the values stored, for every supported integer and IEEE-real sample type, width and byte order, and for band-sequential, line-interleaved and sample-interleaved storage. Line prefix and suffix bytes, bytes before the image and bytes after it never leak into the array.",
     ["inputs"], "all sample types x widths x image shapes x band storage orders x line prefix/suffix sizes x file positions x pixel bit patterns",
     "Tests read a few fixed tiny arrays of two or three types.",
     ["pdr/loaders/image.py", "pdr/loaders/queries.py", "pdr/datatypes.py", "pdr/np_utils.py"],
     [("read_image and band reshaping", "pdr/loaders/image.py"), ("sample_types", "pdr/datatypes.py")])

prop("C06", "PDS3 QUBE cores are extracted exactly, whatever the axis order and suffix planes",
     "Reading a PDS3 QUBE gives the core as an array of shape (bands, lines, samples) whose elements are exactly the stored core values, for each of the three standard axis orders, every supported core item type and width, and for products with side-, bottom- or back-plane suffix items along one axis. Suffix values never appear in the core array.",
     ["inputs"], "all axis orders x core shapes x item types x suffix axis/count",
     "No test reads a qube.",
     ["pdr/loaders/queries.py", "pdr/loaders/image.py"],
     [("generic_qube_properties / extract_axplane_metadata", "pdr/loaders/queries.py"), ("extract_axplanes", "pdr/loaders/image.py")])

prop("C07", "Line-prefix tables interleaved with an image are read row by row",
     "When a PDS3 image carries a table in its line prefixes (a table definition with row suffix bytes covering the image line, or a structure pointer inside the image definition), the table has one row per line with exactly the values stored in that line's prefix, and the image has exactly the pixels. Loading either one first does not change the other.",
     ["inputs", "histories"], "all prefix layouts x image shapes x load orders",
     "No test has an image with line prefixes.",
     ["pdr/loaders/queries.py", "pdr/loaders/image.py", "pdr/pdr.py"],
     [("_fix_up_line_prefix_table_block", "pdr/loaders/queries.py"), ("_associate_prefix_tables", "pdr/pdr.py")])

prop("C08", "How a label says where an object is does not change what is loaded",
     "The same data objects give the same values whether they are located by record number, by byte offset, or by file name alone; whether the label is attached or detached; whether objects share a file or have one each; and whatever unrelated bytes precede, separate or follow them. Files named in a label are looked for in its own directory first and then in the search paths given, in order. Record numbers are multiplied by the record size in force and both record and byte positions count from 1.",
     ["inputs", "configurations"], "all sets of images, tables and text objects x all physical layouts and pointer styles",
     "Tests use one pointer style and one object per file.",
     ["pdr/loaders/queries.py", "pdr/pdr.py"], [("data_start_byte / table_position", "pdr/loaders/queries.py"), ("_object_to_filename", "pdr/pdr.py")])

prop("C09", "Filename case and compression do not change what is read",
     "A PDS3 product gives the same objects and metadata when the files its label names (names with an extension) exist under names that differ in letter case, or are compressed with gzip, bzip2 or zip under the same name plus the compression suffix. An exactly-named file is preferred over off-case or compressed variants, and a file is never confused with a different file whose name merely resembles it.",
     ["inputs", "configurations"], "all letter-case variants x compression formats x object types and sizes x decoy files in the directory",
     "Tests read uncompressed, exactly-named files (one compression test of a helper).",
     ["pdr/utils.py", "pdr/np_utils.py", "pdr/loaders/table.py"], [("check_cases / decompress", "pdr/utils.py"), ("np_from_buffered_io", "pdr/np_utils.py")])

prop("C10", "Binary PDS3 tables are read exactly as their column definitions say",
     "Reading a binary PDS3 TABLE gives one row per ROWS and one column per defined column (one per item for multi-item columns, one set per repetition for repeating containers), in definition order, with exactly the values stored at the defined byte positions, for integer, real, boolean, character and date/time columns of either byte order. Bytes between columns, row prefixes and suffixes, spare bytes at the end of rows, and bytes outside the table never affect the values, and a definition split into external structure files means the same as the definition written inline.",
     ["inputs"], "all column lists (types, widths, gaps, items with offsets, nested and repeating containers, external structure files) x row counts x contents",
     "One test reads a two-column float table.",
     ["pdr/loaders/queries.py", "pdr/loaders/table.py", "pdr/pd_utils.py", "pdr/datatypes.py"],
     [("read_format_block", "pdr/loaders/queries.py"), ("compute_offsets", "pdr/pd_utils.py"), ("insert_sample_types_into_df", "pdr/pd_utils.py")])

prop("C11", "ASCII PDS3 tables are read field by field",
     "Reading an ASCII PDS3 TABLE gives one row per table row and one column per defined column (or item) in definition order; numeric fields come back as the numbers their text denotes and text fields as their text without padding or quotes (text that itself reads as a number, truth value or missing-value word may come back as what it reads as). This holds for fixed-width and comma-separated layouts, CRLF and LF line endings, embedded spaces in text fields, and tables preceded or followed by other data in the file.",
     ["inputs"], "all column lists x rows of numbers and strings x layouts and line endings",
     "One test reads one small ASCII table.",
     ["pdr/loaders/table.py", "pdr/loaders/queries.py"], [("_interpret_as_ascii", "pdr/loaders/table.py"), ("_table_length", "pdr/loaders/queries.py")])

prop("C12", "Delimited PDS3 SPREADSHEETs are read field by field",
     "Reading a PDS3 SPREADSHEET gives one row per record and one column per defined field (or item) in definition order, with every field's value, for comma, semicolon, tab and vertical-bar delimiters, CRLF or LF line endings, variable-length fields, missing values, and quoted text that contains the delimiter. Text that itself reads as a number, truth value or missing-value word may come back as what it reads as. Repeated field names are made unique without losing columns.",
     ["inputs"], "all field lists x records x delimiters x quoting",
     "No test reads a spreadsheet with a non-comma delimiter or quoting.",
     ["pdr/loaders/table.py", "pdr/loaders/_helpers.py"], [("_read_as_delimited", "pdr/loaders/table.py"), ("check_explicit_delimiter", "pdr/loaders/_helpers.py")])

prop("C13", "Bit columns give exactly the defined bits of the stored bit string",
     "For every binary table column with bit columns, each row holds the list of bit substrings, in definition order, selected by 1-based start bit and bit count (one per item for multi-item bit columns) from the column's bit string read most-significant byte first, or least-significant byte first when the column or its bit data type is LSB. No bits are lost, duplicated or reordered, for any column width.",
     ["inputs"], "all bit-column layouts x column widths x byte orders x bit patterns",
     "Tests of the helper functions cover three fixed byte strings.",
     ["pdr/bit_handling.py", "pdr/loaders/handlers.py"], [("convert_byte_column_to_bits / split_bits", "pdr/bit_handling.py")])

prop("C14", "VAX and IBM floating-point data decode to the number each bit pattern denotes",
     "Every 32-bit VAX F-floating value in an image or table, and every 32- or 64-bit IBM System/360 floating-point value in a table, decodes to the real number its bit pattern denotes, exactly or correctly rounded to the result's precision. Values outside the range of a narrower float type are never turned into zero or infinity by the conversion.",
     ["inputs"], "all 2^32 (2^64) bit patterns except reserved ones, in columns of any length and mixture, and multi-item columns",
     "Tests decode a few hand-picked constants.",
     ["pdr/np_utils.py", "pdr/pd_utils.py", "pdr/loaders/image.py"], [("ibm_to_np", "pdr/np_utils.py"), ("convert_ibm_reals / convert_vax_reals", "pdr/pd_utils.py"), ("convert_if_vax", "pdr/loaders/image.py")])

prop("C15", "ARRAY and HISTOGRAM objects are read exactly",
     "Reading a binary PDS3 ARRAY gives an array with the shape of AXIS_ITEMS and exactly the stored elements, for plain data types, single sub-elements and collections of several elements, anywhere in a file; an ASCII ARRAY gives the numbers written in the text, signs, fractions and exponents included. Reading a binary HISTOGRAM gives one value per item, exactly as stored.",
     ["inputs"], "all shapes x element types x positions x number texts",
     "No test reads an ARRAY or HISTOGRAM.",
     ["pdr/loaders/table.py", "pdr/loaders/queries.py"], [("read_array", "pdr/loaders/table.py"), ("parse_array_structure", "pdr/loaders/queries.py"), ("get_histogram_fields", "pdr/loaders/queries.py")])

prop("C16", "Table column scaling factors and offsets apply to the right columns only",
     "In a PDS3 table, a column whose definition gives a scaling factor and/or offset comes back as stored value times scaling factor plus offset, for binary and ASCII tables and for multi-item columns, with no integer wraparound; every other column comes back exactly as stored.",
     ["inputs"], "all subsets of scaled columns x types x factors, offsets and stored extremes",
     "No test has a scaled column.",
     ["pdr/loaders/table.py"], [("read_table", "pdr/loaders/table.py")])

prop("C17", "Scaled images mask exactly the special constants and apply scaling arithmetic",
     "For a PDS3 image, the scaled array has the stored array's shape; its mask is exactly the set of pixels equal to a special constant given in the label or implied by the sample type (plus non-finite pixels), and every other pixel is stored value times scaling factor plus offset, without integer wraparound. Asking for it does not change the unscaled array unless in-place operation is requested, asking twice gives the same answer, and in-place operation gives the same values.",
     ["inputs", "histories"], "all sample types x pixel values x special constants x scaling factors, offsets and options x call orders",
     "One test scales one constant array.",
     ["pdr/_scaling.py", "pdr/pdr.py", "pdr/datatypes.py"], [("find_special_constants / mask_specials / scale_array", "pdr/_scaling.py"), ("Data.get_scaled", "pdr/pdr.py")],
     ["Data.get_scaled"])

prop("C18", "FITS files expose every HDU with its data and header",
     "Reading a FITS file directly gives one object per HDU, named after the HDU (with ascending integers for repeated names), each loading exactly that HDU's data: arrays of any BITPIX and dimensionality with BZERO/BSCALE applied, binary and ASCII tables as data frames with one column per scalar field and one per element of vector fields, and an empty array when there is no data. Every header card's value and comment is in the metadata, and each HDU's header is exposed alongside its data. Asking for an image's scaled array gives the same values: BZERO/BSCALE are applied exactly once.",
     ["inputs"], "all sequences of HDUs x data types x shapes x names x header cards x order of access",
     "One test reads one two-HDU file.",
     ["pdr/loaders/handlers.py", "pdr/pdr.py", "pdr/pd_utils.py"], [("unpack_fits_headers / handle_fits_file", "pdr/loaders/handlers.py"), ("_load_primary_fits", "pdr/pdr.py")])

prop("C19", "Label-described FITS objects load from the HDU at the labelled position",
     "When a PDS3 or PDS4 label points at parts of a FITS file, each object loads the data of exactly the HDU whose data (or header) starts at the labelled record or byte, the same values as reading the FITS file directly, and objects labelled as headers give that HDU's header cards. This holds for any number of HDUs and any header and data sizes, and asking for an image's scaled array gives those same values, whatever scaling the label repeats.",
     ["inputs"], "all HDU sequences and sizes x pointer styles (record, byte) x PDS3/PDS4",
     "No test reads a labelled FITS file.",
     ["pdr/loaders/queries.py", "pdr/loaders/handlers.py", "pdr/pdr.py"], [("get_fits_start_byte / hdu_byte_index", "pdr/loaders/queries.py"), ("_load_pds4", "pdr/pdr.py")])

prop("C20", "Desktop-format images are decoded exactly, channels first",
     "Reading a losslessly stored desktop image (PNG, TIFF, GIF, BMP, lossless WebP and JPEG2000), on its own or via a PDS3 label, gives exactly its pixels: (rows, columns) for single-channel modes and (channels, rows, columns) otherwise, with palettes expanded to their colours. Every frame of an animated GIF or WebP is a separate object holding that frame's pixels, independent of the order in which frames are loaded.",
     ["inputs", "histories"], "all formats x modes x sizes x contents x frame counts x load orders",
     "Tests cover one JPEG/TIFF/GIF sample each with fixed content.",
     ["pdr/loaders/handlers.py", "pdr/pdr.py", "pdr/pil_utils.py"], [("handle_compressed_image", "pdr/loaders/handlers.py"), ("_add_compressed_image_objects", "pdr/pdr.py")])

prop("C21", "PDS4 arrays are read element for element",
     "Reading a PDS4 array object (Array, Array_2D and 3D and their image, spectrum, map and movie forms) gives an array with the label's axis lengths in axis-sequence order, holding exactly the stored elements, for every PDS4 numeric binary data type of either byte order, at any offset in the file. Several arrays and headers in one product are each read from their own offset and file, in any load order.",
     ["inputs"], "all data types x dimensionalities x axis orders in the label x offsets x numbers of objects",
     "PDS4 tests only parse a label.",
     ["pdr/pds4_tools/reader/read_arrays.py", "pdr/pds4_tools/reader/data_types.py", "pdr/pdr.py"], [("array reading", "pdr/pds4_tools/reader/read_arrays.py"), ("pds_to_numpy_type", "pdr/pds4_tools/reader/data_types.py")])

prop("C22", "PDS4 tables are read field by field",
     "Reading a PDS4 table (binary, character or delimited) gives one row per record and one column per field in order, group fields repeated once per repetition, with exactly the stored values under a name that gives those of its groups (where they have any) and its own: integers and reals of each declared type and byte order, text apart from padding at its ends; empty numeric and truth-value fields of delimited tables come back as missing values. Gaps between fields, record padding and bytes outside the table never affect the values.",
     ["inputs"], "all field lists and (nested) groups x data types x record counts x contents x delimiters",
     "PDS4 tests only parse a label.",
     ["pdr/pds4_tools/reader/read_tables.py", "pdr/pds4_tools/reader/table_objects.py", "pdr/pdr.py", "pdr/pd_utils.py"], [("table reading", "pdr/pds4_tools/reader/read_tables.py"), ("structured_array_to_df", "pdr/pd_utils.py")])

prop("C23", "PDS4 scaling applies factor, offset and special-constant masks",
     "For a PDS4 array, the scaled array equals stored value times scaling factor plus value offset at every element not equal to one of the label's special constants, and masks exactly the elements equal to one. Where the label gives a bit mask for an array of integers, the bits it does not select are zero in every element, scaled or not, that is not one of the special constants. Asking for the scaled array does not change the unscaled one, in either order of access.",
     ["inputs", "histories"], "all data types x scaling factors, offsets, bit masks and special constants x contents x access orders",
     "No test scales a PDS4 array.",
     ["pdr/_scaling.py", "pdr/pds4_tools/reader/data_types.py"], [("scale_pds4_tools_struct", "pdr/_scaling.py"), ("apply_scaling_and_value_offset", "pdr/pds4_tools/reader/data_types.py")],
     ["Data.get_scaled"])

prop("C24", "PDS4 label content is available as metadata",
     "For a PDS4 product, every element of the XML label appears in the metadata under its tag name, at its place in the nesting, with its text; repeated sibling elements are all kept; and lookups by tag find them. The object list is exactly the label's data objects, in order, plus the label.",
     ["inputs"], "all label trees: nesting, repeated elements, attributes, namespaces, text",
     "Two tests compare two small labels.",
     ["pdr/parselabel/pds4.py", "pdr/pdr.py"], [("reformat_pds4_tools_label", "pdr/parselabel/pds4.py")],
     ["Data.metadata", "Data.metaget"])

prop("C25", "Index, lazy loading and reloading stay consistent over any call sequence",
     "Over any sequence of operations on a product (indexing, attribute access, explicit load, reload, load-all, membership, length, listing of unloaded objects, string forms), the listed keys are stable and free of duplicates, an object is 'unloaded' exactly until first accessed, every access returns the same values a fresh read would, loading twice without reload raises the already-loaded error, and loading an unknown name raises KeyError. The order in which objects are loaded never affects their contents.",
     ["histories"], "all interleavings of the product interface's operations over products of several objects",
     "Tests exercise a single open-and-load.",
     ["pdr/pdr.py"], [("Data.load / __getattribute__ / unloaded", "pdr/pdr.py")],
     ["Data.keys/len/in/unloaded/load/load_all/[]"])

prop("C26", "One unreadable object never takes the rest of the product with it",
     "When some of a product's data files are missing, empty or truncated, or some definitions are unreadable, opening the product still succeeds; accessing a broken object warns and yields that object's label metadata (or, for tables and text cut short, what is left of them) instead of raising; and every intact object still loads with its exact contents, in any order. In debug mode a missing file raises instead.",
     ["inputs", "fault_sequences"], "all subsets of broken objects x kinds of damage (missing, empty, cut at any byte, bad definition) x access orders",
     "One test checks a missing file's warning.",
     ["pdr/pdr.py", "pdr/loaders/datawrap.py"], [("Data.load exception handling", "pdr/pdr.py"), ("_file_not_found", "pdr/pdr.py")])

prop("C27", "Malformed labels are handled or rejected cleanly",
     "Opening any file as a label, whatever its contents (truncated, corrupted, unbalanced blocks, arbitrary text or bytes), either yields metadata or raises ValueError, within seconds for files of ordinary label size, and never modifies anything. Corrupting or removing one statement's value leaves every other statement's value as it was.",
     ["inputs"], "all byte strings and all single-statement corruptions of well-formed labels",
     "Tests use well-formed labels only.",
     ["pdr/parselabel/pds3.py", "pdr/parselabel/utils.py", "pdr/pdr.py"], [("parse_pvl", "pdr/parselabel/pds3.py"), ("trim_label", "pdr/parselabel/utils.py")])

prop("C28", "Opening a product by its data file or by its label gives the same product",
     "A product with a detached label gives the same metadata, keys and objects whether opened by the label's name, by the data file's name, or with the label passed explicitly, with absolute or relative paths given as strings or path objects, from any working directory and with any letter case of the label's extension; of several labels with the same stem, the one that is opened is used. A data file whose label is gone is rejected with ValueError or lists no data objects, rather than being misread.",
     ["inputs", "configurations"], "all names, extensions, path forms and working directories",
     "Tests always open by absolute label path.",
     ["pdr/utils.py", "pdr/pdr.py", "pdr/__init__.py"], [("associate_label_file", "pdr/utils.py")],
     ["pdr.read(path)", "pdr.open", "pdr.Data"])

prop("C29", "Browse output faithfully renders every object and changes nothing",
     "Dumping browse products writes, for every loaded object, exactly one correctly named file in the requested directory: tables as CSV files that give the table's values back, text as text, images as pictures of the (scaled or unscaled) array whose brightness is a monotonic linear stretch of the pixel values between the clip percentiles, with special-constant pixels in the mask colour. Band selection, RGB channels and burst options pick exactly the requested planes, and neither dumping nor showing changes the product's objects unless purge is requested.",
     ["inputs", "configurations"], "all array types/shapes/values x tables x options",
     "Tests render a few fixed arrays with default options.",
     ["pdr/browsify.py", "pdr/pdr.py"], [("browsify and helpers", "pdr/browsify.py"), ("Data.dump_browse / Data.show", "pdr/pdr.py")],
     ["Data.dump_browse", "Data.show"])

prop("C30", "Text and header objects contain exactly the designated text",
     "Reading a text object gives the referenced file's text, and reading a HEADER object gives exactly the characters of the designated range of the file (by bytes, or by lines for stream files), with line endings canonicalised and nothing from neighbouring objects. This holds for any text, line endings and position of the header in the file.",
     ["inputs"], "all texts x line endings x positions and lengths",
     "No test reads a header object.",
     ["pdr/loaders/text.py", "pdr/loaders/queries.py"], [("skeptically_load_header / read_text", "pdr/loaders/text.py"), ("table_position", "pdr/loaders/queries.py")])

prop("C31", "Special-case handling for particular missions never captures other products",
     "Changing the identifying metadata of an ordinary, standard-compliant PDS3 product (mission, instrument, data set, product and file identifiers) to values that do not belong to a specially-handled data set, adding unrelated descriptive keywords, or keeping the product (of PDS3 or PDS4) in a directory of any name, does not change its list of objects or any object's values. In particular absent, empty or non-text identifiers never trigger a special case or an error.",
     ["inputs"], "all ordinary products x identifier strings outside the specially-handled families",
     "Special-case checkers are not tested on ordinary products.",
     ["pdr/formats/checkers.py"], [("check_special_* functions", "pdr/formats/checkers.py")])

prop("C32", "Mission decompressors invert the encoders",
     "Specially-compressed images decode to exactly the pixels that were encoded: any image run through a reference encoder for the format (MSL camera EDRs: raw, predictive and JPEG; MGS MOC: predictive with every code table, uncompressed, and DCT) and then read back gives the original pixels, for all sizes and contents the format allows. Pixels missing from a truncated file are zeros, or the image is not loaded at all: never invented, and never an endless wait.",
     ["inputs"], "all images and code tables the formats allow",
     "No test covers the decompressors.",
     ["pdr/formats/msl_edr.py", "pdr/formats/mgs_moc.py"], [("decompressors", "pdr/formats/msl_edr.py")])

prop("C33", "Reading is deterministic, leaves no trace, and products stay independent",
     "Opening, loading, scaling, showing and printing products never modifies, creates or deletes any file, leaves no file open, and never changes the working directory or process-wide settings of the libraries used. Reading the same product any number of times in one process, interleaved with reading and modifying any other products, always gives the results a fresh process gives, and modifying a loaded array or table in place never changes what another read of the same product gives.",
     ["histories"], "all interleavings of reads and in-place modifications of several products in one process",
     "Each test reads each product once in a fresh object.",
     ["pdr/pdr.py", "pdr/parselabel/pds3.py", "pdr/pvl_utils.py"], [("per-object state, memoised metadata", "pdr/pdr.py")])

prop("C34", "Every object is read as what its class and definition say it is",
     "In a PDS3 product, an object whose name ends in the name of a class (IMAGE, QUBE, TABLE, SERIES, SPECTRUM, SPREADSHEET, HISTOGRAM, ARRAY, HEADER) and whose definition is one of that class is read as an object of that class - images, qubes and arrays as arrays, tables, series, spectra, spreadsheets and histograms as tables, headers as text - with exactly the values stored, whatever other words its name begins with (CONTEXT, DESCENT, PROFILE, TABLE...) and whatever other objects the product has.",
     ["inputs"], "all object names ending in a class name x object kinds x layouts",
     "Unit tests only use the names IMAGE, TABLE and the like.",
     ["pdr/loaders/dispatch.py", "pdr/loaders/queries.py"], [("pointer_to_loader", "pdr/loaders/dispatch.py")])

prop("C35", "Objects that data sets are known to misplace are read from where they are",
     "For the data sets whose labels are known, and documented in pdr/formats, to misstate where an object is (offsets in other units, counted from the end of the file or fixed; other files, or files with other names or gzipped; rows that are longer than labelled; unknown or wrong numbers of rows; wrong parts of FITS files), loading the object gives exactly the values stored at its real place: all its rows and nothing before or after them. This holds for any contents and sizes, whatever else is in the file, whichever directory the product is in (names of directories never make a product special), and in any order of loading.",
     ["inputs", "histories"], "all documented misplacements x contents x sizes x surroundings x directories x orders of loading",
     "No test reads a product of any of these data sets.",
     ["pdr/formats/checkers.py", "pdr/formats/cassini.py", "pdr/formats/mex.py", "pdr/formats/themis.py", "pdr/formats/lro.py", "pdr/formats/juno.py", "pdr/formats/epoxi.py"], [("check_special_offset / check_special_position / check_special_fits_start_byte", "pdr/formats/checkers.py"), ("check_special_fn", "pdr/formats/checkers.py")])

prop("C36", "Objects that data sets are known to mislabel are read as they are stored",
     "For the data sets whose labels are known, and documented in pdr/formats, to misstate how an object is stored (sample types and byte orders, bit columns, starts, lengths, repetitions and names of columns, missing or unreadable definitions, delimiters, line ends, encodings, interleaving), loading the object gives exactly the values and column names that are really there, row by row. This holds for any number of rows and further columns, any contents, and any position in the file.",
     ["inputs"], "all documented mislabellings x contents x numbers of rows and columns x positions",
     "No test reads a product of any of these data sets.",
     ["pdr/formats/checkers.py", "pdr/formats/cassini.py", "pdr/formats/galileo.py", "pdr/formats/kaguya.py", "pdr/formats/mro.py", "pdr/formats/phoenix.py", "pdr/formats/voyager.py", "pdr/formats/change.py", "pdr/formats/diviner.py"], [("check_special_structure / check_special_sample_type / check_special_block", "pdr/formats/checkers.py"), ("check_special_table_reader", "pdr/formats/checkers.py"), ("check_special_pds4_cases", "pdr/formats/checkers.py")])

prop("C37", "Objects known to be unreadable give no data and hinder nothing else",
     "Objects of data sets that pdr documents as unsupported (in pdr/formats), and data sets' pointers to parts of FITS files that do not exist or have no rows, are listed in the product but never give any data, rather than wrong data; TIFF tags and internal PDS objects are not listed. Every other object of the same product is listed and loads exactly the values stored for it, in any order of loading.",
     ["inputs", "histories"], "all documented unsupported objects x other objects of the product x orders of loading",
     "No test reads a product with such an object.",
     ["pdr/formats/checkers.py", "pdr/loaders/utility.py", "pdr/loaders/dispatch.py", "pdr/formats/lro.py"], [("check_trivial_case", "pdr/formats/checkers.py"), ("is_trivial", "pdr/loaders/utility.py"), ("pointer_to_loader", "pdr/loaders/dispatch.py")])

prop("C38", "PDS4 table fields hold stored or sampled values, whatever else they declare",
     "In the table read from a PDS4 product, fields that declare scaling factors, value offsets or special constants hold exactly the stored values, unscaled and unmasked (only empty fields of delimited tables are missing), whatever other fields and cells the table has. Uniformly sampled fields, which are not stored, have one value per record, following the first value, interval and (linear, logarithmic or exponential) scale of the label, and do not displace the stored fields.",
     ["inputs"], "all field lists with scalings, special constants and sampled fields x data types x contents x record counts",
     "No test reads a PDS4 table.",
     ["pdr/pds4_tools/reader/read_tables.py", "pdr/pds4_tools/reader/table_objects.py", "pdr/pds4_tools/reader/data_types.py"], [("sampled fields, masking", "pdr/pds4_tools/reader/read_tables.py"), ("field offsets", "pdr/pds4_tools/reader/table_objects.py")])

prop("C39", "Metadata of desktop images holds their size, tags and packets",
     "Opening a TIFF, PNG, JPEG, WebP, BMP or GIF file always succeeds, and its metadata hold its format, size and number of frames, and the value of every TIFF or EXIF tag it has, by the tag's name (or, for tags of no standard, its number): text, integers, rationals, bytes, positions (GPS tags), colour profiles and XMP packets, the latter as nested parameters by the local names of elements and attributes, including repeated ones. Byte order and order of tags do not matter, and the picture is as stored.",
     ["inputs"], "all formats x byte orders x tags and values x XMP trees",
     "Tests open no image with tags; combinations of tags, types and packets are unbounded.",
     ["pdr/pil_utils.py", "pdr/pdr.py"], [("skim_image_data / get_image_metadata", "pdr/pil_utils.py"), ("unpack_xml", "pdr/pil_utils.py")],
     observe=["pdr.read(...).metadata", "metaget"])


if __name__ == "__main__":
    with open("properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
