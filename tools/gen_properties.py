#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

# ---------------------------------------------------------------- file structure
p("S01","Cross-reference table locates every object exactly",
 "In every document written, each object's cross-reference entry is the exact byte offset at which that object's header starts, startxref is the byte offset of the xref keyword, and the entry count and trailer Size equal the number of objects plus one. This holds whatever was drawn, on every output route (file, buffer, writer), and however the destination splits its writes.",
 ["histories","inputs","configurations"],
 "every sequence of document-building calls, every output method, with and without compression, protection, outlines and info",
 "Tests compare a few whole files or only check that no error came back; most viewers silently repair a bad table, so drift for an unsampled object kind or output route is not noticed.",
 ["gopdf.go"],
 [("compilePdf: every byte goes through a counting writer; the offset is taken immediately before the object header","gopdf.go: compilePdf, countingWriter"),("xref table, trailer and startxref","gopdf.go: xref, formatXrefline")],
 [("linelens","offset of each object","gopdf.go compilePdf")],["bytes from WriteTo, Write, WritePdf, GetBytesPdf, Read"])
p("S02","Indirect references name an existing object of the right kind",
 "Every indirect reference the library writes names an object of the same document, and that object is of the kind the referencing entry requires: a page's Parent is the page tree, a font's descendant is a CID font, an image's soft mask is an image, a form's group is a transparency group, and so on. Object numbers are positions in the document plus one, applied exactly once.",
 ["histories","configurations"],
 "every order of adding pages, fonts, images, links, outlines, templates, masks and graphics states",
 "An off-by-one or a swapped index still points at some object, so files open in lenient viewers; tests sample a handful of build orders and look at no references.",
 ["gopdf.go","page_obj.go","procset_obj.go","subset_font_obj.go","cid_font_obj.go","subfont_descriptor_obj.go","image_obj.go","smask_obj.go","ext_g_state_obj.go","outlines_obj.go","annot_obj.go","catalog_obj.go"],
 [("addObj returns a zero-based index; object number = index + 1","gopdf.go: addObj, compilePdf"),("fixed positions of catalog, page tree, outlines, resources","gopdf.go: start")])
p("S03","Every object written is one well-formed PDF object",
 "Whatever branch is taken while writing it, each indirect object, and the trailer, is one syntactically complete PDF value (dictionaries with alternating name keys and values, no repeated key, balanced brackets and strings, or null), optionally followed by one stream...endstream pair after a dictionary. No error-free path leaves a delimiter open, a key without a value, or an empty object body.",
 ["inputs","histories","configurations"],
 "every object type, every combination of optional attributes, protection on/off, compression levels, any number of list entries",
 "The number of attribute combinations per object multiplies; tests open the result of a few combinations and never parse the syntax.",
 ["gopdf.go","page_obj.go","procset_obj.go","annot_obj.go","outlines_obj.go","image_obj.go","ext_g_state_obj.go","smask_obj.go","transparency_xobject_group.go","subset_font_obj.go","cid_font_obj.go","unicode_map.go"],
 [("each object type's write method","all *_obj.go")])
p("S04","Objects carry the entries the PDF format requires",
 "Every object written carries, on every path, the dictionary entries that ISO 32000 requires for its kind, with values of the required basic type: page tree (Type, Kids, Count), page (Type, Parent, Resources, MediaBox own or inherited), composite and CID fonts, font descriptor, image XObject (Width, Height, ColorSpace, BitsPerComponent), link annotation (Subtype, Rect), outline item (Title, Parent), encryption dictionary, every stream (Length) and the trailer (Size, Root).",
 ["inputs","histories","configurations"],
 "every object type and every combination of optional attributes",
 "A viewer tolerates or guesses a missing entry, so a branch that omits one goes unnoticed by tests that only check for errors.",
 ["page_obj.go","pages_obj.go","catalog_obj.go","subset_font_obj.go","cid_font_obj.go","subfont_descriptor_obj.go","image_obj_parse.go","outlines_obj.go","annot_obj.go","encryption_obj.go"],
 [("each object type's write method","all *_obj.go")])
p("S05","Stream Length equals the bytes between stream and endstream",
 "For every stream object the Length entry is the exact length of the data written between the stream and endstream keywords (up to one end-of-line), after compression has been flushed and encryption applied.",
 ["inputs","configurations"],
 "every stream-producing object, every content, each compression level, protected or not",
 "Readers resynchronise on endstream, so a wrong Length survives tests; compression and encryption branches multiply.",
 ["content_obj.go","image_obj.go","pdf_dictionary_obj.go","unicode_map.go","smask_obj.go","transparency_xobject_group.go","embedfont_obj.go"],
 [("Length taken from the very buffer that is written; compressor closed first; RC4 preserves length","content_obj.go: ContentObj.write and siblings")])
p("S06","Page content operators are complete and balanced",
 "Every drawing call appends only known content operators, each with the number and kind of operands PDF requires; q/Q and BT/ET are balanced within each appended element (except the user-paired save/restore and rotate calls), and every path that is started is painted, clipped or ended. This holds for every style string, option set and point count.",
 ["inputs","histories"],
 "all drawing calls, all style strings, any number of points, text of any length, with and without kerning, border, transparency, crop, mask, rotation and flips",
 "Unbalanced or short operator sequences only disturb later content on the page, which no test renders.",
 ["content_obj.go","cache_content_text.go","cache_content_image.go","cache_content_rectangle.go","cache_content_polygon.go","cache_contnent_curve.go","cache_content_oval.go","cache_content_line.go"],
 [("each content element's write method","cache_content_*.go")])
p("S07","User text cannot break out of its PDF string or name",
 "Any caller-supplied string that is written inside a PDF literal string, hexadecimal string or name is encoded for that context (escaped delimiters, hex digits, or restricted characters) so that no character of it can terminate the string or name or inject PDF syntax.",
 ["inputs"],
 "all strings: document information, outline titles, link URLs, font family names, colour-space names",
 "Tests use short ASCII strings; breaking out needs parentheses, backslashes, delimiters or white space in one particular field.",
 ["gopdf.go","annot_obj.go","outlines_obj.go","fontconverthelper.go","color_space_obj.go","strhelper.go"],
 [("escaping of link URLs","annot_obj.go: writeExternalLink"),("hex encoding of info and outline strings","gopdf.go: writeInfo, encodeUtf8"),("font name clean-up","fontconverthelper.go: CreateEmbeddedFontSubsetName")])
p("S08","Names used in page content are defined in the page resources",
 "Every resource name a drawing call puts in page content (font, image, graphics state, colour space, imported template) is generated by the same numbering rule as, and has an entry in, the resource dictionary that the pages refer to.",
 ["histories","inputs"],
 "all interleavings of adding and using fonts, images, transparency, masks, colour spaces and templates",
 "A name that has no entry makes one element vanish in a viewer; no test cross-checks names against resources.",
 ["procset_obj.go","gopdf.go","cache_content_image.go","cache_content_text.go","content_obj.go","cache_color_space.go"],
 [("registration next to use","gopdf.go: imageByHolder, saveTransparency, AddTTFFontByReaderWithOption, addColorSpace, UseImportedTemplate"),("resource dictionary","procset_obj.go: write")])

# ---------------------------------------------------------------- output API
p("O01","Failures are reported: no error is lost on the way to the caller",
 "If writing any object, content element, header, table or byte of the output fails, if a step of compression or encryption fails, or if a call made inside a drawing, font, image or table operation returns an error, the public call in progress, when it has an error result, returns a non-nil error. (A character missing from a font is replaced by design; exported calls without an error result cannot report, and no call inside the library uses one of those where it would hide a failure.)",
 ["fault_sequences","inputs"],
 "every failing writer, reader, compressor, object or nested call, at every point",
 "Tests write to memory buffers and valid paths, where nothing fails; fault points number in the hundreds.",
 ["gopdf.go","content_obj.go","list_cache_content.go","cache_content_text.go","cache_content_image.go","image_obj_parse.go","table.go","subset_font_obj.go","pdf_dictionary_obj.go","outlines_obj.go"],
 [("error results returned or checked at every call","whole package"),("countingWriter between serialiser and destination","gopdf.go")])
p("O02","Producing output does not change the document",
 "Writing a document does not change it: producing the output again, by any route, gives an equally valid file with the same pages, and building may continue after output: what is built later appears in the next output. Serialising an object or content element modifies nothing reachable from the document, and bytes handed out earlier stay as they were. (Read streams one output until Close.)",
 ["histories"],
 "all histories that mix building calls with any number of output calls",
 "Tests write each document once.",
 ["gopdf.go","pages_obj.go","cache_content_imported_object.go","encryption_obj.go"],
 [("preparation step run before output","gopdf.go: prepare"),("write methods only read","*_obj.go, cache_content_*.go")])
p("O03","Same calls give the same bytes",
 "The bytes of a document are a function of the calls made and the data supplied: no output depends on map iteration order, the clock, randomness, goroutine scheduling, memory addresses or the environment (the document dates and trailer are those the caller set). Outside the statement: the random owner password that is made up when a document is protected without one, and the order in which the third-party page importer itself hands its objects over.",
 ["schedules","histories"],
 "every document and every run",
 "Go randomises map order per run; with few entries a test passes by luck, and tests do not compare two runs.",
 ["procset_obj.go","gopdf.go","subset_font_obj.go","unicode_map.go","map_of_character_To_glyph_index.go","arabic_helper.go"],
 [("insertion-ordered maps and slices for everything emitted","map_of_character_To_glyph_index.go, procset_obj.go")])
p("O04","The library reports errors instead of ending the process",
 "No public call ends the process, explicitly panics, or writes to standard output or the log; a bad file, stream, image or writer is reported through the returned error. The only exceptions are the two calls whose signature has no error result, GetBytesPdf and ImageObj.GetRect, which stop on failure. Failures raised inside the third-party page importer (gofpdi) and warnings about an out-of-range compression level on standard error are outside this property.",
 ["fault_sequences","inputs"],
 "every public call, every failing input",
 "A test that reached such a call would kill the test binary, so none does.",
 ["gopdf.go","image_obj.go","image_obj_parse.go","fontmaker/core/ttfparser.go"],
 [("error-returning variants","gopdf.go: GetBytesPdfReturnErr, WritePdf")])
p("O05","Documents are independent of each other",
 "Two documents in one process do not influence each other: nothing done to one changes what another writes, and no library-wide mutable state other than a pool of scratch buffers is touched, so documents may be built concurrently in different goroutines. This includes documents that take their fonts from one font container. (A reader or image holder a caller passes is consumed by its use; sharing one is outside this property.)",
 ["schedules","histories"],
 "any number of documents, any interleaving of calls on them",
 "Tests build one document at a time and are not run under concurrent use.",
 ["gopdf.go","buffer_pool.go","page_sizes.go","arabic_alphabet.go"],
 [("all state hangs off the document value; package variables are read-only","whole package")])
p("O06","Caller-supplied data is not modified and not aliased",
 "The library neither writes to nor keeps for later use the slices (of points, numbers, texts, options) and option structures a caller passes to a method of the document or of an object the document hands out, such as a table: after the call returns the caller may change or reuse them without affecting the document, and finds them unchanged. Byte slices holding a font, an image or a password may be kept but are never modified. (Not covered: state behind interfaces and callbacks the caller passes, and arguments whose purpose is to be filled in - pointers to numbers and the buffer of Read.)",
 ["histories","inputs"],
 "every public drawing/page/text call taking a slice or a pointer to an option, box, rectangle or colour structure; every later reuse",
 "Tests build fresh literals for each call and never reuse an option value.",
 ["gopdf.go","content_obj.go","cache_content_image.go","cache_content_polygon.go","image_holder.go","transparency.go"],
 [("values copied before unit conversion and before storing","gopdf.go: ImageByHolderWithOptions, Polygon, SetCustomLineType, AddPageWithOption")])
p("O07","Pooled buffers are returned once and never outlive their use",
 "Each scratch buffer taken from the shared pool is given back exactly once on every path, is empty when taken, and neither the buffer nor a slice of its bytes is used or reachable after it is given back.",
 ["schedules","fault_sequences","histories"],
 "every path including error returns, and every concurrent use of the pool",
 "Double return or use after return corrupts another document only under particular interleavings.",
 ["buffer_pool.go","content_obj.go","image_obj.go","procset_obj.go","smask_obj.go"],
 [("GetBuffer / deferred PutBuffer pairing","buffer_pool.go")])
p("O08","Image encoding worker always ends its pipe",
 "When an image value is encoded in a background goroutine, the goroutine closes its end of the pipe on every path, success or failure, with the failure handed to the reader, so the call neither hangs nor leaks nor accepts a truncated image.",
 ["schedules","fault_sequences"],
 "every image value and encoder failure",
 "Tests pass only images whose encoding succeeds.",
 ["gopdf.go"],
 [("CloseWithError / Close on each path","gopdf.go: ImageFromWithOption")])
p("O09","Shared lookup tables are only touched under their lock",
 "Every access to a lookup table that carries its own lock happens while that lock is held (exclusively for writes), the lock is released on every path, and no lock is taken twice on one path.",
 ["schedules"],
 "every interleaving of calls on the transparency, graphics-state and soft-mask tables",
 "Data races need a particular interleaving; tests are single-threaded.",
 ["transparency.go","ext_g_state_obj.go","smask_obj.go"],
 [("mutex guarded Find/Save methods","transparency.go, ext_g_state_obj.go, smask_obj.go")])
# ---------------------------------------------------------------- protection
p("P01","With protection on, every string and stream is encrypted",
 "When password protection is enabled, every stream body and every text string inside an indirect object (other than the encryption dictionary itself) is encrypted before it is written, with a key derived from the number of the object that contains it; with protection off none is.",
 ["inputs","configurations","histories"],
 "every object type that writes a stream or string, protection on and off, every permission set",
 "Tests check that a protected file is produced, not that each object of it decrypts.",
 ["pdf_protection.go","content_obj.go","image_obj.go","smask_obj.go","pdf_dictionary_obj.go","unicode_map.go","annot_obj.go","outlines_obj.go","transparency_xobject_group.go","imported_obj.go"],
 [("rc4 with objectkey(objID) in each write method","*_obj.go")])
p("P02","Key material is never altered after it is set up",
 "Deriving an object's key or setting up protection changes neither the document key, nor the caller's passwords, nor the padding constant; each object key depends only on the document key and the object number.",
 ["histories","inputs"],
 "every number and order of objects, every password slice including ones with spare capacity",
 "Corruption through a shared backing array needs a slice with spare capacity and shows only on decryption.",
 ["pdf_protection.go"],
 [("fresh buffers for key derivation","pdf_protection.go: objectkey, generateEncryptionKey, createOValue, createUValue")],
 [("encryptionKey","document key","pdf_protection.go")])
# ---------------------------------------------------------------- layout and text
p("L01","User lengths are converted to points exactly once",
 "Every length the caller supplies in document units to a call of the document or of its tables (positions, sizes, rectangles, boxes, crop areas, dash patterns, line widths, margins, character spacing, link areas) reaches the page, or is combined or compared with positions, sizes and margins kept in points, after exactly one conversion with the document's own setting (including a custom conversion factor, and not by the unit alone); every position, margin, width or height reported back has been converted back exactly once. Sizes of fonts and of pages imported from other files are points; ratios, angles, colours and transparency are never converted.",
 ["inputs","configurations"],
 "every public call that takes or returns a length, every unit setting and custom conversion factor",
 "Nearly all tests use points, where a missing or doubled conversion is invisible.",
 ["gopdf.go","config.go","rect.go","box.go","margin.go","table.go","content_obj.go","placeholder.go"],
 [("UnitsToPoints / PointsToUnits at the API boundary","config.go, gopdf.go")])
p("L02","Vertical positions are flipped with the current page's height",
 "Every vertical coordinate written for a page (drawn content, images with flips, crops and rotations, links, anchors, outline destinations) is measured from the bottom of that page, using the height of the page that is current when the element is made, rather than the document's default height or another page's; every way of changing the current page (adding a page, with or without a size of its own, and going back to one) makes that page's size the current one before anything is placed.",
 ["histories","configurations"],
 "documents mixing page sizes, every drawing, link, anchor and outline call",
 "Tests use one page size per document, where the two heights coincide.",
 ["gopdf.go","content_obj.go","cache_content_*.go"],
 [("page height captured from the current page when an element is appended","content_obj.go: AppendStream*")])
p("L03","Unit conversion tables are complete and mutually inverse",
 "For every unit (points, millimetres, centimetres, inches, pixels, none) every conversion to points multiplies by the factor of the unit's definition (72 per inch, pixels at 96 per inch, none by 1) and every conversion back divides by the same one; a custom conversion factor of the configuration replaces it in both directions. This holds for single values, for every variable of the calls that take several, and for each side of rectangles and boxes, whose own unit comes first and which are not changed themselves. Named page sizes are in points whatever the unit, and a document keeps the unit and factor it was configured with.",
 ["inputs","configurations"],
 "all values, all unit constants, with and without a custom conversion factor, shapes with and without a unit of their own",
 "Tests cover sample values of some units in one direction.",
 ["config.go","rect.go","box.go","page_sizes.go"],
 [("unit switch tables","config.go: unitsToPoints, pointsToUnits")])
p("L04","Adjacent text is merged only when its style is identical",
 "A text call may extend the previous run only if every attribute that the run's output depends on (font, size, style, colours, spacing, alignment, border, transparency, position and page) is identical; otherwise it starts a run of its own.",
 ["histories"],
 "all sequences of text and cell calls with changing attributes",
 "Needs two adjacent calls differing only in one attribute.",
 ["cache_content_text.go","list_cache_content.go"],
 [("comparison before merging","cache_content_text.go: isSame; list_cache_content.go: appendContentText")])
p("L05","Every character drawn is registered in the embedded font subset",
 "Any text that a call of the document draws (or fills into a placeholder) or measures has first been given to the registering call of the very font it is drawn or measured with, and what that call gave back is what is used, with no change of the current font in between; the registering call gives back exactly one character for each one it is given (the character or its substitute), each of them registered with the glyph the font has for it (or the one for missing characters); what is registered stays registered; and the objects written for a font (widths, Unicode map, glyph program) are made for that one font.",
 ["inputs","histories"],
 "every text-producing and measuring call of the document, every string, every font switch",
 "An unregistered character only shows as a missing glyph for a text no test renders.",
 ["gopdf.go","subset_font_obj.go","content_obj.go","list_cache_content.go","cache_content_text.go"],
 [("AddChars before appending or measuring","gopdf.go: Text, CellWithOption, MeasureTextWidth ...; subset_font_obj.go: AddChars")])
p("L06","Reused objects are keyed by everything they contain",
 "Whenever the library reuses an already created object instead of writing a new one (transparencies, graphics states, soft masks, images, image masks), what the object is looked up by covers every attribute that the object's bytes depend on, at no less precision than it is written with, so two uses that differ in any attribute never share an object; a new document starts with no objects to reuse. (Image data is told apart by a digest of all of it or by the path it is read from.)",
 ["histories","inputs"],
 "all sequences of calls that create transparencies, masks, graphics states and images",
 "Needs two uses differing in just one attribute in one document.",
 ["transparency.go","ext_g_state_obj.go","smask_obj.go","image_holder.go","gopdf.go"],
 [("GetId / key structs of the caches","transparency.go, ext_g_state_obj.go, smask_obj.go"),("search for an image already added","gopdf.go: imageByHolder, maskHolder; image_holder.go: newImageBuff")])
p("L07","Starting a page resets page state and runs header and footer once",
 "On every path of a call that adds a page (AddPage, AddPageWithOption), before any callback runs and when the call ends: one page object was added, it is the current page, its own size (or the default) is the current size, the number of pages was raised once, the content of the page before is detached and the cursor is at the margins; the header and then the footer run exactly once each if set. The page tree lists every page object of the document, in the order of creation, and its count is raised once for each. The trim box is not decided.",
 ["histories","configurations"],
 "every sequence of page additions with and without options, header and footer",
 "Tests look at a few fixed documents and no page state.",
 ["gopdf.go","current.go"],
 [("page creation routine","gopdf.go: AddPageWithOption, AddPage, resetCurrXY"),("page tree rebuild","gopdf.go: prepare")])
p("L08","Loops always make progress",
 "Every loop of the library (over text, table rows, pages, font data or image data) advances on each iteration towards a bound, or reads input that ends, for every width, separator and input, and functions that call themselves do so on less than they were given: no public call can run forever.",
 ["inputs"],
 "all strings, widths (including narrower than one character), separators, fonts, images",
 "A non-terminating input hangs a test rather than failing it, so such inputs are not sampled.",
 ["gopdf.go","table.go","image_obj_parse.go","arabic_helper.go","pdf_dictionary_obj.go","unicode_map.go","fontmaker/core/ttfparser.go"],
 [("loop conditions and increments","whole package")])
# ---------------------------------------------------------------- fonts, images
p("F01","Malformed font and image data is rejected, not crashed on",
 "Positions, counts and lengths read from font or image data are checked against the data before they are used to index, slice, divide or allocate, so malformed input yields an error and never a run-time panic.",
 ["inputs"],
 "all byte sequences supplied as fonts or images",
 "Tests parse a handful of valid fonts and images.",
 ["fontmaker/core/ttfparser.go","fontmaker/core/ttfparser_cmap_other_format.go","fontmaker/core/ttfparser_kern.go","subset_font_obj.go","pdf_dictionary_obj.go","image_obj_parse.go"],
 [("bounds checks next to each access","parsers")])
p("F02","Truncated input is detected",
 "Whatever the library reads from a font, an image, an encoding map or a reader it is given: on every path that does not end in an error, every reading call made is known to have succeeded and to have delivered all that was asked for, a loop that reads until a mark was left at the mark, and a failure of the source is handed on, wherever the data ends. Absent optional tables that the code names are no failure.",
 ["inputs","fault_sequences"],
 "all truncations and read failures at every offset",
 "There are as many truncation points as bytes; tests use complete files.",
 ["fontmaker/core/ttfparser.go","fontmaker/core/ttfparser_kern.go","fontmaker/core/ttfparser_cmap_other_format.go","fontmaker/core/fontmaker.go","image_obj_parse.go","image_holder.go","font_container.go"],
 [("Read/ReadUShort/... helpers return errors","fontmaker/core/ttfparser.go"),("readBytes, readUInt, chunk loop","image_obj_parse.go"),("scanner over the encoding map","fontmaker/core/fontmaker.go: LoadMap")])
p("F03","Parsed font data is immutable after loading",
 "Once a font has been parsed its tables are only read: adding text, measuring and writing a document never modify the parsed font data, so a font shared between documents gives each the same result.",
 ["histories","schedules"],
 "all uses of one font container from several documents",
 "Tests use a font in one document at a time.",
 ["font_container.go","subset_font_obj.go","pdf_dictionary_obj.go","fontmaker/core/ttfparser.go"],
 [("parser state only written while parsing","fontmaker/core")])
p("F04","Subset contains every component of every composite glyph",
 "For every glyph on the list the embedded font program is made from, all glyphs it is composed of, directly or through further composites, are on that list too: the components of every composite glyph are read as the font format lays them out, to the last one.",
 ["inputs"],
 "all fonts and texts, including composites of composites",
 "The bundled fonts have at most one level of composition for the sampled text.",
 ["pdf_dictionary_obj.go"],
 [("glyph closure worklist","pdf_dictionary_obj.go: completeGlyphClosure")])
p("F05","Character-to-glyph registration keeps insertion order and loses nothing",
 "The table of characters a font is used with returns for each character the glyph it was last registered with, lists every registered character once in the order of registration, and lists characters and glyphs in step; nobody else changes its lists; and on every error-free path the widths array has an entry for every glyph of the table, the Unicode map a pair of each glyph with its own character, and the list of glyphs the embedded font program is built from contains every glyph of the table.",
 ["histories","inputs"],
 "all sequences of registrations",
 "Tests look at the first few characters of one text.",
 ["map_of_character_To_glyph_index.go","unicode_map.go","subset_font_obj.go","cid_font_obj.go"],
 [("parallel slices kept in step","map_of_character_To_glyph_index.go")])
p("F06","Every supported variant is handled everywhere",
 "Every member of each closed set the API offers is handled and has the outcome it stands for, alone and combined with the others: the horizontal and vertical alignment of a cell (Left/Center/Right, Top/Middle/Bottom, Justify) place the text as named; the sixteen combinations of cell borders, and of table borders, draw exactly the sides asked for; an underlined style is underlined, a style without it is not, and the letters of a font style (B, I, U, in any order and case) select it; Float Right/Bottom move the current point as named; every blend mode is accepted as itself and an unknown one refused; the line types dashed and dotted set a dash pattern and the others a solid line; the paint styles D, F, DF, FD (and none) of rectangles and polygons stroke, fill or do both; stroke, fill and text colours in gray, RGB and CMYK write their own operator with the components in order; a font size of every integer and float type is taken with its value; a placeholder is filled in at its left, centre or right, and a table column aligned so; JPEG images in YCbCr, gray and CMYK and PNG images of colour types 0, 2, 3, 4 and 6 are embedded with the colour space, number of colours and transparency they have.",
 ["inputs","configurations"],
 "all members of each enumeration, and all combinations of the bits of alignments, borders and styles; positions, sizes, texts and images are arbitrary",
 "Tests use one or two members of each set.",
 ["cache_content_text.go","list_cache_content.go","transparency.go","style.go","gopdf.go","table.go","cache_content_polygon.go","cache_content_rectangle.go","cache_content_line_type.go","cache_content_color_cmyk.go","cache_contact_color_rgb.go","cache_content_gray.go","image_obj_parse.go"],
 [("calX, calY, drawBorder, underline","cache_content_text.go"),("appendContentText","list_cache_content.go"),("defineBlendModeType","transparency.go"),("parseStyle","style.go"),("getConvertedStyle, convertNumericToFloat64, FillInPlaceHoldText","gopdf.go"),("drawCell, drawBorder","table.go"),("parseImgJpg, parsePng","image_obj_parse.go")])
p("F07","Shapes are drawn where and as asked",
 "The path written for a shape is the shape asked for, for all numbers given: Line goes from (x1, y1) to (x2, y2); RectFromLowerLeft, RectFromLowerLeftWithStyle and RectFromLowerLeftWithOpts draw the box of the given width and height whose lower left corner is (x, y), the RectFromUpperLeft calls the box whose upper left corner it is; Polygon and ClipPolygon go through all the points in order and are closed; Rectangle without round corners is the box between its two corners; Oval is the ellipse that fills the box between its corners, in four quarter curves; Curve goes from its first point to its last with the two control points in their order; and SetLineWidth writes the width asked for. Vertical positions are counted from the top of the page. The same path is written whatever the style, and whether or not a transparency is set.",
 ["inputs","configurations"],"all coordinates and sizes, every paint style, with and without transparency; polygons of up to five corners; rounded corners of Rectangle excepted",
 "Tests draw a few shapes and compare no coordinates.",
 ["gopdf.go","content_obj.go","cache_content_line.go","cache_content_oval.go","cache_content_rectangle.go","cache_content_polygon.go","cache_content_clip.go","cache_contnent_curve.go","cache_content_line_width.go"],
 [("Line, RectFrom*, Oval, Curve, Polygon, ClipPolygon, Rectangle","gopdf.go"),("write","cache_content_*.go")])
# ---------------------------------------------------------------- runtime-valued (not applicable)
p("N01","Encrypted output decrypts to the plain document",
 "For all passwords, permissions and contents, opening the protected file with the right password yields the content of the unprotected one, and with a wrong password does not.",
 ["inputs"],"all passwords, permissions, contents","Round-trip equality over all inputs.",["pdf_protection.go"],[("RC4/MD5 computations","pdf_protection.go")])
p("N02","Embedded glyphs look and advance like the source font",
 "The width used for layout and the outline embedded for every character equal those of the source font.",
 ["inputs"],"all fonts, all characters","Value equality over all fonts.",["subset_font_obj.go","pdf_dictionary_obj.go"],[("glyph lookup and scaling","subset_font_obj.go")])
p("N03","Splitting text preserves it",
 "The lines returned by text splitting contain, in order, exactly the characters of the input apart from removed line breaks, and each fits the width.",
 ["inputs"],"all strings and widths","Value property of string results.",["gopdf.go"],[("splitting loops","gopdf.go: SplitText*")])
p("N04","Images keep their pixels",
 "Decoding the image object in the output yields the pixels, colour space and transparency of the input image.",
 ["inputs"],"all images","Round-trip equality over all images.",["image_obj_parse.go"],[("parsers","image_obj_parse.go")])
p("N05","Rotation, flips and crops place content where the geometry says",
 "The transformation matrices written place content at the mathematically right position, for every position, size and angle. Rotate(angle, x, y) turns what follows counter-clockwise by the angle in degrees around the point (x, y), measured from the top of the page, and RotateReset ends it. An image put at x, y with a rectangle W by H fills exactly that box; a horizontal or vertical flip (or both) mirrors it within the same box; DegreeAngle turns it around the centre of its box (of the crop's box when it is cropped); a crop shows, at x, y, the Width by Height part of the image that begins at the crop's X, Y; an uncropped image under a mask is turned around its centre by its own angle plus the mask's. The flips, the angle, the position, the crop and the mask's angle given in ImageOptions reach what is written.",
 ["inputs","configurations"],"all angles, positions, sizes and crops, every combination of flips, crop and mask (rotation of a cropped image under a mask excepted)",
 "Tests draw a handful of rotated or flipped images and do not look at the matrices.",
 ["cache_content_rotate.go","cache_content_image.go","content_obj.go","gopdf.go"],
 [("write, computeRotateTransformationMatrix","cache_content_rotate.go, cache_content_image.go"),("GetCacheContentImage, AppendStreamImage","content_obj.go"),("Rotate, RotateReset","gopdf.go")])
p("N06","Imported pages render as in the source document",
 "A page imported from another PDF renders as it does there.",
 ["inputs"],"all source documents","Depends on a third-party parser and arbitrary documents.",["gopdf.go"],[("fpdi importer","gopdf.go: ImportPage")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
