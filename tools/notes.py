"""Notes that tools/build.py turns into MANIFEST.json and known_findings.json"""
FIXES = {
    "open FITS files whose headers": ("C18", "opening a FITS file directly whose header has a card without a legal value (`12abc`, `.TRUE.`, an unterminated text) raised VerifyError, although reading the same HDU through a label falls back to astropy's fixes"),
    "shrink browse images of thin": ("C29", "browse pictures of arrays longer than 65,500 with only a line or a few raised ZeroDivisionError and ended the dump"),
    "render images of truth values": ("C29", "showing or dumping a 1-bit image raised TypeError (numpy cannot subtract booleans)"),
    "pickle arrays that no picture": ("C29", "dumping an array of four dimensions, of complex numbers or of several values per element raised and ended the dump, although the documentation promises a pickle"),
    "return structured arrays as they": ("C29", "get_scaled() of an array with several values per element raised TypeError"),
    "reload everything on load(\"all\"": ("C25", "`load(\"all\", reload=True)` left objects that were already loaded as they were"),
    "read Python-only literals in PVL": ("C01", "`None`, `True`, `1_000`, `0x1F`, `2J` and text with `#` in labels became the Python objects or parts of them, `{}` a dict, and integers with leading zeros text"),
    "items defined over the same bytes": ("C10", "items of a column defined over the same bytes as another column with items (or as its first item) were read from beyond them, making rows too long and losing some"),
    "positions given in lower-case units": ("C08", "pointers such as 1001 <bytes> were taken for record numbers, so that other data were read, or none"),
    "integers of unusual widths": ("C10", "integer columns 3, 5, 6 or 7 bytes wide gave the value of their first byte only"),
    "factors and offsets have units": ("C16", "tables in which a column's scaling factor or offset had units, or was N/A, could not be loaded"),
    "statements with more than one '='": ("C01", "statements whose value contains '=' (on their first line) were dropped from the metadata"),
    "short keywords with lower-case values": ("C01", "statements with short keywords and lower-case values (UNIT = km) became part of the value of the statement before them"),
    "mixed PVL collections": ("C01", "collections of symbols and texts or numbers kept the quotes of texts, split them at commas, and gave numbers as text"),
    "looks like a comment within PVL text": ("C01", "texts holding /* lost everything from there to the end of their line, the closing quote included"),
    "keep backslashes in PVL text": ("C01", "backslashes in texts were taken for Python escapes: C:\\\\new lost two characters to a line break, or the text kept its quotes"),
    "FITS tables with repeated column names one": ("C18", "FITS tables with columns A, A and A_0 could not be loaded: the numbered names were not distinct"),
    "FITS tables with unnamed": ("C18", "FITS tables whose columns have no names could not be loaded"),
    "read tables with repeated column names one": ("C10", "tables with columns A, A and A_0 could not be loaded: the numbered names were not distinct"),
    "flattened fields names no other": ("C19", "elements of array fields got names other fields already have"),
    "BIL images": ("C05", "line-interleaved images with line prefixes or suffixes followed by other bytes could not be reshaped"),
    "4- and 8-byte integer QUBE": ("C06", "4- and 8-byte integer QUBE cores were decoded at the wrong width"),
    "zero-width QUBE": ("C06", "a QUBE with zero-width suffix planes came back empty"),
    "one-band QUBEs": ("C06", "one-band QUBEs with band suffixes could not be loaded"),
    "beginning with END": ("C01", "parameters whose names begin with END closed the enclosing block"),
    "second lines of a multiline": ("C01", "the first two lines of a wrapped value were joined without a space"),
    "positive-signed exponents": ("C01", "quantities such as 1.5E+3 <KM> lost the sign and became the wrong number or text"),
    "unhashable default": ("C02", "metaget() with a list or dict as default raised TypeError"),
    "straddles read boundaries": ("C03", "an attached label whose END statement straddled a read boundary was cut at the wrong place"),
    "row stride of binary": ("C10", "tables with row prefixes plus suffixes or spare bytes, columns defined out of byte order or a multi-item last column had the wrong row stride"),
    "offsets of fields in CONTAINERs": ("C10", "columns of a CONTAINER that is first, follows a gap or follows another CONTAINER were read at the wrong place; multi-item columns defined out of byte order got each other's offsets"),
    "only a ^TABLE_STRUCTURE": ("C10", "a format file holding only a ^TABLE_STRUCTURE pointer made the table unloadable"),
    "little-endian bit strings": ("C13", "LSB bit strings of 3, 5, 6, 7 or more than 8 bytes came out with their bytes out of order"),
    "ITEM_OFFSET of multi-item BIT": ("C13", "ITEM_OFFSET of multi-item bit columns was ignored"),
    "VAX reals with the largest": ("C14", "VAX reals with the largest exponent became infinity or NaN"),
    "VAX REAL images": ("C14", "images and qubes of type \"VAX REAL\" came back as raw integers"),
    "IBM reals in columns": ("C14", "multi-item IBM_REAL columns could not be loaded"),
    "from zip files": ("C09", "zip-compressed binary data could not be read, nor plain ARRAYs in any compressed file"),
    "ASCII ARRAYs at their own": ("C15", "ASCII ARRAYs were always read from the start of the file, lost exponents and leading points, and were not decompressed"),
    "ARRAY elements at their START": ("C15", "gaps between ARRAY elements and unused bytes of a COLLECTION were ignored"),
    "line prefix tables defined inside images": ("C07", "line prefix tables defined inside an IMAGE were read from a detached label file instead of the data file, had the wrong stride with spare prefix bytes, line suffixes or several bands, and broke opening of products whose image has another name than IMAGE"),
    "based integers in PVL": ("C01", "a based integer with units, e.g. 16#FF# <K>, was read as its base"),
    "special constants that are": ("C17", "constants a float32 cannot hold exactly (-999.9, 1e32) were not masked, textual ones or ones with units failed or were ignored, uint64 images failed, and the int32 N/A value was mistyped"),
    "integer wraparound and failures": ("C17", "integer images scaled by integers wrapped around; in-place scaling raised TypeError; per-plane factors without per-plane offsets were applied along the wrong axis"),
    "wraparound when scaling table": ("C16", "integer columns scaled by integers wrapped around (or failed to load when the factor did not fit the column's type)"),
    "record size of the FILE object": ("C08", "with several FILE objects of different RECORD_BYTES all record numbers were multiplied by the first one"),
    "labelled names include a compression suffix": ("C09", "a file stored as img.dat.gz was not found when asked for as IMG.DAT.GZ"),
    "stream files with attached labels": ("C11", "ASCII tables of stream files with attached labels could not be loaded: their pointer is a bare line number"),
    "single-column ASCII tables": ("C11", "row suffixes and other unused bytes became part of the only column of an ASCII table"),
    "commas in their text by their columns": ("C11", "fixed-width ASCII tables whose text happened to hold as many commas as they have columns less one were split at these commas, shifting values between columns"),
    "numeric fields of comma-separated": ("C11", "one blank numeric field turned the whole column of a comma-separated table into text"),
    "spreadsheet fields that have no START_BYTE": ("C12", "spreadsheets with CONTAINERs could not be loaded (introduced by the C10 repair of CONTAINER offsets)"),
    "fields that look like group names": ("C22", "PDS4 table fields called GROUP_1 or GROUP1_MEAN lost part or all of their names"),
    "empty numeric fields of PDS4": ("C22", "empty numeric and boolean fields of PDS4 delimited tables read as 0 or False"),
    "null bytes of PDS4 bit strings": ("C22", "UnsignedBitString fields lost their trailing null bytes"),
    "lone fields next to object": ("C22", "PDS4 tables with integers of unbounded length next to a lone big-endian field failed to load"),
    "special constants of unscaled PDS4": ("C23", "special constants of PDS4 arrays without scaling were not masked; scaling could change the unscaled array, and a second request scaled it again"),
    "complex PDS4 arrays": ("C23", "complex PDS4 arrays lost their imaginary parts when scaled (or failed), and were never masked"),
    "that do not fit the data type": ("C23", "PDS4 special constants outside the element type's range raised TypeError"),
    "negative factors and offsets of unsigned": ("C23", "UFuncTypeError for unsigned PDS4 arrays (e.g. all zeros) with a negative integer factor or offset"),
    "every special constant of single-precision": ("C23", "all but the first special constant of single-precision PDS4 arrays were compared in double precision and not masked"),
    "whose names are not unique or are": ("C24", "PDS4 objects of the same name replaced each other, and an object named e.g. index or metadata could not be read or broke the product"),
    "headers of reloaded FITS HDUs": ("C18", "reloading a scaled FITS HDU gave a header edited by astropy instead of the file's"),
    "names of FITS HDUs with repeated names": ("C18", "FITS HDUs whose names repeat, collide with the numbered names, or contain HEADER were unreachable or renamed"),
    "headers of FITS HDUs next to HDUs": ("C18", "the header of HDU X replaced the data of another HDU called X_HEADER"),
    "FITS objects described by PDS3 and PDS4 labels": ("C19", "loading X replaced a labelled object X_HEADER; PDS4 headers appeared under wrong keys; record numbers over 2880 were taken for bytes; file name pointers missed compressed files"),
    "FITS HDUs whose names are attributes": ("C18", "HDUs called e.g. index or metadata could not be read or broke the product"),
    "reload objects from their files": ("C25", "headers of FITS objects could not be reloaded; reloading PDS4 objects and HDUs gave the (possibly modified) arrays in memory"),
    'end within them': ('C26', 'the header object of a FITS file cut within that header silently became the empty array of the HDU before it'),
    'with line prefix tables are missing': ('C26', 'products with line prefix tables could not be opened (KeyError) when their data file was missing'),
    'whose files are missing or cut short': ('C26', 'PDS4 objects and FITS HDUs whose file is missing or too short raised, or silently gave short arrays and blank rows'),
    'printing metadata with blank': ('C27', 'str() of a product whose label has a long blank value or blocks nested 24 deep raised IndexError/ValueError or took exponential time'),
    'values look like Python literals': ('C27', 'labels with values such as {[1]} or {1: 2} could not be opened (TypeError, AttributeError)'),
    'names of duplicated pointers': ('C27', 'labels with repeated pointers and more definitions than pointers could not be opened (IndexError), and numbered names could collide with names the label already used'),
    'reject malformed PDS4': ('C27', 'opening malformed PDS4 labels raised arbitrary exceptions rather than ValueError; so did very deep nesting'),
    'line prefix tables are malformed': ('C27', 'labels with a malformed line prefix pointer could not be opened'),
    'labels of compressed data files': ('C28', 'a compressed data file did not find its detached label'),
    'extensions of PDS4 labels': ('C28', 'PDS4 labels with extensions such as .XML were read as PVL (no metadata, no objects)'),
    'default band of browse images': ('C29', 'the default browse band of images with 3, 7, 11... bands was not the middle one'),
    'precision of integers in browse versions': ('C29', 'one-row tables were written with integers turned into floats, losing precision'),
    'constant but for outliers': ('C29', 'images that are constant but for outliers were rendered modulo 256 without any stretch'),
    'wide integers and of arrays with invalid': ('C29', 'images of wide integers wrapped around, and any NaN blanked the whole picture'),
    'text files that are compressed or not': ('C30', 'text objects in compressed files, or not in the default encoding, could not be read'),
    'headers longer than 80000': ('C30', 'headers were cut off after 80000 bytes'),
    'text of detached labels that are not valid': ('C30', 'LABEL of a detached label with bytes that are not UTF-8 could not be read though its metadata was'),
    'headers at lines of files': ('C30', 'headers starting at a later line of a file whose records have no length could not be read'),
    'identifiers in labels that are numbers': ('C31', 'products with a number for an identifier that special cases look for text in could not be read'),
    'Mini-RF global mosaic without a PRODUCT_ID': ('C31', 'objects of this data set could not be read from labels without PRODUCT_ID'),
    'without an INSTRUMENT_NAME treated as those of JIRAM': ('C31', 'a missing INSTRUMENT_NAME triggered the correction of bit positions meant for JIRAM'),
    'without an INTERCHANGE_FORMAT of a Voyager': ('C31', 'objects other than TABLE of this data set could not be read without INTERCHANGE_FORMAT'),
    'whose FILE_NAME contains words like IMAGE': ('C31', 'any product whose FILE_NAME contains IMAGE, TIME, SUN etc. was read at positions worked out for Huygens products, or not at all'),
    'because of the names of directories': ('C31', 'labels and PDS4 tables of ordinary products were read as those of special cases if a directory was named like them'),
    'hangs on a missing final padding byte': ('C32', 'MSL EDR predictive files lacking their last 1-3 padding bytes made the reader loop forever'),
    'truncated MOC transform fragments': ('C32', 'a truncated MOC DCT fragment was decoded by starting again at its beginning, giving invented pixels'),
    'special data file names are made': ('C32', 'MSL EDRs (and Galileo REDRs) in a directory whose name contains .img or .lbl were looked for in a directory that does not exist'),
    'lines after a second sync search': ('C32', 'a MOC predictive image that had lost bytes was resynchronised from the first marker again at each later marker, repeating earlier lines'),
    'makes Pillow accept truncated images': ('C33', 'after reading one MSL JPEG EDR, Pillow silently accepted truncated images for the rest of the process'),
    'delimited records with too few fields': ('C33', 'PDS4 delimited records with too few fields gave uninitialised memory, differing from read to read'),
    'record given with units': ('C11', 'tables of stream files could not be loaded if their start was given in records with units, like 5 <RECORDS>'),
    'whose loaders give up': ('C26', 'headers of damaged compressed files raised AttributeError instead of giving their metadata'),
    'bit masks of PDS4': ('C23', 'PDS4 arrays with a bit mask could not be read if their integers are signed or none of their special constants occurs'),
    'by their uncompressed size': ('C09', 'tables located from the end of the file were read from the wrong place if the file was compressed'),
    'contain those of other classes': ('C34', 'objects such as CONTEXT_IMAGE, DESCENT_IMAGE, PROFILE_IMAGE or ARRAY_TABLE were read as text, tables or arrays'),
    'do not recognize special data files by the names of their directories': ('C35', 'a directory named like DATA_HASI or IR_1 made the products in it special, so their tables were misread'),
    'open THEMIS products whose labels say that files are gzipped': ('C35', 'opening one failed with ValueError'),
    'read gridded Diviner tables of one row or one column': ('C36', 'IndexError or a transposed table'),
    'give the last reference clock of MCS DDR tables as a number': ('C36', 'text instead of a number'),
    'read bit strings of Galileo NIMS EDR tables in the byte order assumed for them': ('C36', 'bits were taken from the wrong bytes'),
    'find Chandrayaan-2 CLASS data beside labels in directories with dots': ('C36', 'the data file was looked for under a truncated path'),
    'special constants of PDS4 tables only': ('C38', 'an empty cell anywhere in a delimited PDS4 table made special constants missing values in every column'),
    'uniformly sampled fields among the columns': ('C38', 'in delimited PDS4 tables with uniformly sampled fields, every stored field was read from a later column'),
    'unknown GPS tags': ('C39', 'images with a GPS tag unknown to pillow could not be opened'),
    'packets are padded with nulls': ('C39', 'TIFF images whose XMP packet ends with null bytes could not be opened'),
}

KNOWN = [
    {"id": "C15-nested-first", "property": "C15", "status": "known",
     "what": "ARRAY whose COLLECTION starts with a nested ARRAY and continues "
             "with an ELEMENT: the later element is misplaced and the object "
             "fails to load",
     "suite": "nested", "case": {
         "after": [{"bytes": 4, "gap": 0, "type": "REAL"}], "before": [],
         "inner": {"bytes": 1, "gap": 0, "type": "PC_INTEGER"}, "items": 3,
         "shape": [1, 2], "trailer": 0, "fill": "ramp", "seed": 0}},
]

NOTES = {
    "C01": ("generated PVL trees, compared with the values they denote",
            "random search over a PVL grammar; sizes up to a few dozen statements per label"),
    "C02": ("model-based lookup sequences",
            "random trees and interleaved lookup histories against a reference model"),
    "C03": ("metamorphic relation, attached vs detached",
            "random label texts, lengths around the read-chunk boundaries, random following bytes"),
    "C04": ("generated labels with an independent model of naming and layout",
            "random multisets of up to 13 names, definitions shuffled"),
    "C05": ("encode/decode round trip against an independent encoder",
            "random layouts and pixel bits; images up to a few dozen pixels a side"),
    "C06": ("encode/decode round trip against an independent encoder",
            "random axis orders, core types and suffix planes on small cubes"),
    "C07": ("encode/decode round trip in random load orders",
            "random prefix layouts on small images"),
    "C08": ("metamorphic relation between physical layouts of the same encoded objects",
            "random pairs of layouts of up to four objects"),
    "C09": ("metamorphic relation under renaming and compression, with decoys",
            "random renamings of up to three files and their format files"),
    "C10": ("encode/decode round trip against an independent encoder",
            "random nested column definitions up to a dozen rows"),
    "C11": ("encode/decode round trip against an independent text encoder",
            "random definitions of up to a dozen columns and eight rows"),
    "C12": ("encode/decode round trip against an independent text encoder",
            "random definitions of up to a dozen fields and eight records"),
    "C13": ("encode/decode round trip against independent bit slicing",
            "random bit columns of 1-12 bytes"),
    "C14": ("decoding compared with exact integer arithmetic",
            "random and boundary-weighted bit patterns, not all 2^32"),
    "C15": ("encode/decode round trip against an independent encoder",
            "random shapes up to four axes and random elements"),
    "C16": ("stored values scaled by a reference in exact arithmetic",
            "random column types, factors and offsets"),
    "C17": ("metamorphic requests plus a reference mask and exact arithmetic",
            "random sample types, constants and scalings on small images"),
    "C21": ("encode/decode round trip against an independent encoder and label writer",
            "random arrays of up to four axes, up to six objects in three files"),
    "C22": ("encode/decode round trip against an independent encoder and label writer",
            "random field lists, groups up to two deep, a dozen records"),
    "C23": ("model-based request sequences against a reference mask and exact arithmetic",
            "random element types, constants and scalings on small arrays"),
    "C24": ("generated label trees compared with the metadata, model-based lookups",
            "random trees up to four deep, up to twelve objects"),
    "C18": ("FITS files written byte by byte, read back in random load orders",
            "random files of up to five HDUs, arrays up to four axes, a few columns and rows"),
    "C19": ("FITS files written byte by byte, described by generated labels, read in random orders",
            "random selections of the parts of up to two files of five HDUs"),
    "C20": ("image files from independent encoders, read back in random orders",
            "random images up to 20 pixels a side, animations of up to a dozen frames"),
    "C25": ("model-based operation sequences, values compared with untouched products",
            "random histories of up to 25 operations on small products of every standard"),
    "C26": ('fault injection into generated products, compared with the undamaged products',
            'random products of up to five objects in up to four files, one damaged file or definition each'),
    "C27": ('mutation fuzzing of label text with usability/ValueError oracle, metamorphic single-statement corruption, and pathological-size timing',
            'labels up to 45 KB, up to six edits per label, nesting under 1000'),
    "C28": ('property-based differential testing over path forms, openers and entry files',
            'products of one to four objects, two to five ways each'),
    "C29": ('property-based testing of pictures and dumps against an independent renderer, CSV/text round trips, and an immutability invariant',
            'images up to 11x9x9, products of up to four objects'),
    "C30": ('generated text read back, compared with the designated characters',
            'texts up to a dozen lines (headers up to 200 KB), at any position of small files'),
    "C31": ('metamorphic relation between ordinary products without and with identifying keywords, and a reference encoder',
            'near misses of 181 documented special cases, products of one to four objects'),
    "C32": ('Hypothesis-generated images and residual streams through independent encoders (MSL raw/predictive/JPEG, MOC predictive/none/DCT) against the original pixels; float DCT reference',
            'images up to 2040x2040 (raw) and about 2000x8 (predictive), all 8 MOC tables, 1-5 fragments, 1-8 DCT groups, files truncated at random'),
    "C33": ('stateful property-based testing (Hypothesis): forked-process histories compared with fresh-process baselines; file, settings and descriptor watch',
            'up to a handful of products and steps per history; leftovers noted: MAX_IMAGE_PIXELS, which pdr deliberately unsets; metadata objects are live'),
    "C34": ('encode/decode round trip over generated object names',
            'names of up to three words, products of up to four objects'),
    "C35": ('encode/decode round trip over generated products with documented misplacements',
            '33 kinds of misplacement, up to 8 rows and 6 further columns, one mistake per product'),
    "C36": ('encode/decode round trip over generated products with documented mislabellings',
            '87 kinds of mislabelling, up to 8 rows and 6 further columns (60 grid rows), one mistake per product'),
    "C37": ('generated products with documented unsupported objects beside readable ones',
            '24 kinds of unsupported objects, images up to 6 x 6'),
    "C38": ('generated PDS4 tables with scalings, special constants and sampled fields, compared with the stored values and independently computed series',
            'up to 12 records, groups two deep, two sampled fields'),
    "C39": ('generated desktop images with tags, profiles and XMP packets written tag by tag, compared with the metadata',
            'six tags, five positioning tags, XMP trees three deep, 12 x 12 pixels'),
}

NOT_APPLICABLE = {}
