"""How each property is decided; turned into DESIGN.md by tools/design.py"""
DETAIL = {
"C01": "`pvlgen.py` draws a tree of statements and blocks, each value as a typed description from which both its text and its Python value follow. Rendering varies indentation, alignment, case of END, comments, blank lines, line endings, wrapped values and continuation text. The parsed multidict must equal the tree: keys, nesting, order, repeats, values and types.",
"C02": "random trees with repeated keys at several depths; interleaved `metaget`, `metaget_`, `metablock`, `metablock_` calls compared with a reference model of breadth-first/depth-first precedence; repeated lookups must give the same answers (the metadata caches), and ambiguous keys must warn.",
"C03": "the same label text written on its own and in front of random data bytes, with lengths placed around the reader's chunk boundaries and END-like text in comments and values; metadata and label text must agree.",
"C04": "multisets of object names with colliding and numbered-looking names, several files, definitions before or after pointers; an independent model gives the expected keys, and each object must have its own size, content and metadata block.",
"C05": "images are encoded pixel by pixel into the stored layout (type, width, interleave, prefixes, suffixes, bands); the array must be bit-identical, with the right shape and dtype.",
"C06": "cores up to three axes in any order, every core item type, with suffix planes on any axes filled with random bytes; an index-arithmetic encoder places every core item, and the array must equal the core.",
"C07": "images with line prefix and suffix tables defined by ROW_PREFIX_TABLE pointers or inside the IMAGE, in formats files or inline, loaded in any order; both the table and the image must be as encoded.",
"C08": "one set of objects, two random physical layouts; the oracle is what was encoded, so that both layouts cannot be wrong in the same way.",
"C09": "files and format files are renamed in case or compressed (gzip with several members, bzip2, zip), next to decoys with similar names; compressed files may be the ones the label itself says (COMPRESSED_FILE), and text tables may have to be located by what precedes them. The loaded objects must be unchanged.",
"C10": "bytes of each row are laid out by a recursive encoder over columns, containers and items; every column is compared bit for bit, so swapped, shifted or misnamed columns cannot go unnoticed.",
"C11": "rows are formatted as text from typed values; columns may be missing, blank, quoted, overlapping the delimiters; stream tables vary in where they start and what is around them.",
"C12": "records are written with any field delimiter, quoting, empty fields, items and containers; compared cell by cell.",
"C13": "random bit strings are assembled bit by bit from the defined bit columns at any offset, in most- and least-significant-first order, as integers or booleans, with items.",
"C14": "raw bit patterns of VAX F/D/G and IBM reals, chosen to cover all exponents and both signs; the oracle decodes them with exact rational arithmetic (`fractions`), so rounding is also decided.",
"C15": "ARRAY, COLLECTION, ELEMENT trees and HISTOGRAMs written recursively, binary or ASCII, with gaps; compared recursively.",
"C16": "scaling factors and offsets on some columns of binary and ASCII tables; expected values from exact arithmetic on Python numbers, unscaled columns must keep their bits and dtype.",
"C17": "image values are drawn on and around the special constants; masks and scaled values follow from the definition with exact arithmetic; label forms of constants vary (decimal, based, lists, units). Repeated calls with `inplace` and `float_dtype` must not disturb the stored array.",
"C18": "FITS headers and data are written card by card; each HDU's data must be as encoded, each card must be in the metadata with its value, whatever the order of loading.",
"C19": "labels that point at HDUs by byte, record or file position, for data and header parts, over several files; compared with what was encoded there.",
"C20": "minimal TIFF, PNG, GIF, BMP and JPEG (MPO) encoders write known pixels, palettes, alphas and frames; pictures must come back channels first and bit-identical (lossless formats).",
"C21": "PDS4 arrays of every element type, axis order and offset, several per file; compared bit for bit.",
"C22": "PDS4 binary, character and delimited tables with groups, gaps and every field type; compared cell by cell.",
"C23": "PDS4 arrays with scaling factors, offsets, bit masks and special constants of every kind around the values; masks and results from exact arithmetic.",
"C24": "random XML label trees with repeated elements, attributes and namespaces; the metadata must hold the same tree, and object names follow from a model of identifiers and duplicates.",
"C25": "histories of loading and lookups on products of every standard; a model says which objects are listed and loaded, pristine copies say what they hold.",
"C26": "a product is read intact, then one of its files is removed, emptied, cut, replaced by junk (compressed or not), or one definition edited; intact objects must be unchanged, others must warn and give their metadata.",
"C27": "label text is mutated (tokens, lines, bytes, encodings) and opened; anything other than a usable product or ValueError is a failure, as is more than linear time; a single damaged statement must leave the other parameters unchanged.",
"C28": "one product, several ways of asking for it: paths relative or absolute, strings or Path objects, `read`/`open`/`Data`, by label or by data file, compressed or not; all must give equal products.",
"C29": "browse images are compared with an independent renderer of the stretch and band selection; CSV and text files with the objects; the product must be unchanged afterwards.",
"C30": "text of any line ending and encoding is placed in files by bytes, records or lines; the object must be exactly these characters.",
"C31": "identifying keywords of the documented special cases (`families.py`) in combinations no special product has; results must be as without them.",
"C32": "independent encoders of the MSL camera and MOC formats produce streams from known pixels; lossless streams must decode to the same pixels, DCT ones agree with a floating-point reference within the quantiser's error, and damaged fragments must not disturb the others.",
"C34": "objects of the common stock get names made of random words (class names, words that contain class names, others) followed by their class, in random layouts; each must hold the values encoded.",
"C35": "each of some forty documented misplacements (vp/quirks.py, quirks_fits.py, quirks_more.py) is a small generator: it writes a product as the data set's files really are, around random contents, and says what each object must hold; a case picks one, a seed, numbers of rows and columns, and a directory (some of whose names resemble file names that mark special products).",
"C36": "the same for some ninety documented mislabellings (vp/quirks_read.py: tables with readers of their own; quirks_form.py: sample types, bit columns, structures, definitions; quirks_more.py: PDS4 tables, encodings, FITS).",
"C37": "the same for two dozen kinds of unsupported objects (vp/quirks_not.py), each beside an image or other parts that must load.",
"C33": "forked processes run a history of readings, lookups and in-place edits over several products; the last reading must equal one in a fresh process, with no traces in files, settings or descriptors.",
"C38": "C22's tables with scalings, offsets and special constants added to numeric fields (constants sprinkled over cells, also next to empty ones), and sampled fields computed independently.",
"C39": "TIFF directories, EXIF blobs (spliced into PNG, JPEG and WebP files) and XMP packets are written tag by tag and element by element; every tag must be in the metadata with its value.",
}
