import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if observe: d["anchors"]["observe_at"]=[{"point":a,"what":b} for a,b in observe] 
    assert len(title)<=80,(id,len(title))
    P.append(d)
V="victor/src/"
p("C01","Any byte string renders as HTML: no crash, hang or runaway memory",
 "For every byte string given as an HTML document (elements nested at most 100 deep), parsing and rendering to PDF terminates, using time and memory proportional to a low power of the input size, and returns a complete PDF file. It never panics, aborts, overflows the stack or loops, whatever the markup, style sheets and style attributes contain, and rendering the same parsed document again works too.",
 ["inputs"],"all byte strings: well-formed and malformed HTML, invalid UTF-8, hostile or truncated CSS, every combination of the supported properties including extreme numbers",
 "The tests render a dozen hand-written documents; panics and endless loops hide in combinations of display, position, nesting and malformed syntax that they never contain.",
 [V+"dom/html.rs",V+"layout/dom_traversal.rs",V+"layout/flow/construct.rs",V+"style/declaration_block.rs",V+"paint.rs"],
 [("parse and render entry points","victor/src/dom/html.rs parse_html; victor/src/paint.rs to_pdf_bytes"),("box tree construction over arbitrary nesting","victor/src/layout/flow/construct.rs"),("subtree walk of display:none","victor/src/layout/dom_traversal.rs")])
p("C02","Every PDF file written is structurally valid",
 "Every PDF produced, by any of the rendering entry points or by any sequence of page-drawing calls, is a structurally valid PDF 1.5 file: the cross-reference table gives the exact byte offset of every object, stream lengths are exact, every reference resolves, the page tree counts and orders the pages as they were added, and all names, numbers and strings are written in PDF syntax. Every page's content parses as a sequence of known operators with the right operands, and uses only font and graphics-state resources that the document defines.",
 ["inputs","histories"],"all documents and all histories of page-drawing calls, including extreme and non-finite numbers, font names with special characters, any number of pages",
 "Two fixed PDFs are compared to fixed bytes; offsets, lengths, names and number formats depend on every value written.",
 [V+"pdf/syntax.rs",V+"pdf/object.rs",V+"pdf/convert.rs"],
 [("object offsets and xref table","victor/src/pdf/syntax.rs"),("object serialization","victor/src/pdf/object.rs"),("page and resource dictionaries","victor/src/pdf/convert.rs")])
p("C03","Drawing calls appear on the page exactly as requested, in order",
 "Interpreting a page's content by the rules of PDF gives exactly the rectangles and text runs requested through the page-drawing calls, in call order, each with the requested position and size in CSS pixels from the top-left corner of a page of the requested size, and with the colour and opacity last set on that page (opaque black before any). Drawing on one page never affects another page.",
 ["histories","inputs"],"all histories of page creation, colour setting, rectangle and text drawing calls over one or several pages and fonts",
 "The existing PDF tests draw one page with one rectangle or one line; redundant state changes, alpha reuse across pages and interleavings are never observed.",
 [V+"pdf/convert.rs",V+"pdf/mod.rs"],
 [("graphics state tracking and deduplication","victor/src/pdf/convert.rs set_color, set_alpha"),("CSS-to-PDF coordinate flip","victor/src/pdf/convert.rs"),("alpha resource cache","victor/src/pdf/convert.rs set_alpha")])
p("C04","Text in a PDF can be shown and extracted with the right glyphs",
 "For every font used in a document, the PDF embeds the font's exact bytes once, gives every glyph the advance width of the font in thousandths of an em, and states the font's name and metrics; a text run shows exactly the glyphs that the font maps its characters to. The character map embedded for text extraction has every mapped character of the font, once per mapping and in blocks of at most 100, so that the characters shown can be recovered.",
 ["inputs","programs"],"all well-formed TrueType fonts (any character map layout, glyph count and metrics) and all texts",
 "Only one bundled font is ever used and the tests never look inside the font resources.",
 [V+"pdf/convert.rs",V+"fonts/mod.rs",V+"fonts/cmap.rs"],
 [("font embedding","victor/src/pdf/convert.rs add_font"),("ToUnicode map","victor/src/pdf/convert.rs add_font"),("code point enumeration","victor/src/fonts/cmap.rs each_code_point")])
p("C05","Well-formed TrueType fonts are read as the format specifies",
 "For every well-formed TrueType font with a Microsoft Unicode character map (BMP segments or full-range groups, full-range preferred), each character is shown with the glyph that the font's map assigns to it (glyph 0 if none), and advances by that glyph's width, where the last width record repeats for the glyphs after it. The font's PostScript name is decoded from its first supported name record, and fonts that lack a required table or a supported map or name are rejected with the corresponding error.",
 ["inputs"],"all fonts in the supported format: any segment layout, deltas, indirect glyph arrays, groups, metrics counts, table order and padding, name records",
 "The single bundled font exercises one layout of each table; segment boundaries, wrap-around deltas and sparse metrics are never sampled.",
 [V+"fonts/mod.rs",V+"fonts/cmap.rs",V+"fonts/parsing.rs",V+"fonts/tables.rs"],
 [("format 4 and 12 lookup","victor/src/fonts/cmap.rs get"),("binary search","victor/src/fonts/parsing.rs binary_search"),("width lookup","victor/src/fonts/mod.rs glyph_width"),("name decoding","victor/src/fonts/mod.rs read_postscript_name")])
p("C06","Hostile font bytes give an error, never a crash or hang",
 "For every byte string given as a font, parsing returns either an error or a font, and every later use of such a font (shaping any text, drawing it, embedding it in a PDF) terminates with success or an error in time bounded by the size of the font. It never panics, reads out of bounds, or allocates without bound.",
 ["inputs"],"all byte strings, in particular truncated fonts, offsets and counts that point outside of the file, overlap, or overflow, and corrupted character maps",
 "No test feeds a malformed font; offset arithmetic fails only on specific corrupt values.",
 [V+"fonts/parsing.rs",V+"fonts/cmap.rs",V+"fonts/mod.rs"],
 [("bounds-checked reads","victor/src/fonts/parsing.rs read_from"),("offset arithmetic","victor/src/fonts/parsing.rs Position"),("bounded enumeration","victor/src/fonts/cmap.rs each_code_point")])
p("C07","Shaped text is the concatenation of its characters, and rolls back",
 "After any history of appending characters or strings to, cloning, saving and restoring a shaped segment, the segment shows exactly the glyphs of the characters appended and not rolled back, in order, and takes the sum of their advance widths. Restoring a saved state undoes everything appended since, and a clone is independent of its original.",
 ["histories"],"all histories of append, append-string, save, restore and clone over all characters",
 "Nothing tests the segment directly; line breaking only ever does one save and restore in a row.",
 [V+"text.rs"],
 [("append, save and restore","victor/src/text.rs ShapedSegment")])
p("C08","Plain-text layout keeps all text, in order, within lines and pages",
 "Laying out a plain text on pages shows every character except line feeds exactly once and in order; lines break only at Unicode line-break opportunities and exactly at mandatory breaks, as late as the content width allows and, when justified, with the extra space spread evenly so that broken lines end at the right edge. Successive baselines on a page are one line height apart starting at the top margin, and a new page starts when the next line would begin below the bottom margin.",
 ["inputs","configurations"],"all texts (any scripts, long words, empty lines) and all page sizes, margins, font sizes, line heights and justification settings",
 "One text in one configuration is compared to a fixed PDF.",
 [V+"text_plain.rs"],
 [("line filling and rewind","victor/src/text_plain.rs layout"),("justification","victor/src/text_plain.rs layout"),("pagination","victor/src/text_plain.rs layout")])
p("C09","HTML documents build the tree that the HTML parsing rules prescribe",
 "For every HTML input, including misnested formatting elements, tables with stray content, and unclosed, duplicate or implied tags, the tree of elements, attributes and text that is styled, laid out and painted is the tree that the HTML tree-construction rules prescribe: each element and each character is in its prescribed parent and order, exactly once.",
 ["inputs"],"all HTML inputs, weighted toward those on which the tree builder moves, reparents, inserts before or merges nodes",
 "The tests contain almost only well-nested markup; foster parenting, the adoption agency and attribute merging need specific tag sequences.",
 [V+"dom/html.rs",V+"dom/mod.rs"],
 [("tree sink callbacks","victor/src/dom/html.rs Sink"),("sibling and parent links","victor/src/dom/mod.rs append, insert_before, detach"),("text merging","victor/src/dom/html.rs append_common")])
p("C10","XML documents build the tree they spell out, and bad XML is an error",
 "For every well-formed XML document, the elements (with their namespaces and attributes), text, entity and character references and CDATA sections that are styled and painted are those of the document, in order, with adjacent text merged and comments and processing instructions ignored. Input that is not well-formed is reported as an error, never a panic.",
 ["inputs"],"all XML documents and all byte strings given as XML",
 "One XML file is used in the tests, as well-formed XHTML.",
 [V+"dom/xml.rs"],
 [("event-driven tree building","victor/src/dom/xml.rs parse_xml"),("namespace conversion","victor/src/dom/xml.rs convert_name")])
p("C11","The CSS cascade picks the right declaration for every property",
 "For every element and property, the value used is that of the winning declaration by the CSS cascade: importance, then author over user-agent origin (reversed for important declarations), then the style attribute over rules, then selector specificity, then order of appearance over all style sheets of the document. Inherited properties without a declaration take the parent's computed value, others their initial value, and the keywords inherit, initial and unset do what CSS defines; font-relative lengths use the element's own font size (the parent's, for the font size itself).",
 ["inputs"],"all documents and all sets of style rules, style attributes, importance flags, CSS-wide keywords and em lengths",
 "Tests use a few rules each, almost never competing; cascade order only shows with specific conflicts.",
 [V+"style/cascade.rs",V+"style/declaration_block.rs",V+"style/properties/macros.rs",V+"style/properties/mod.rs"],
 [("origin and importance order","victor/src/style/cascade.rs MatchingDeclarations::cascade"),("specificity sort","victor/src/style/cascade.rs finish"),("early and late cascade phases","victor/src/style/properties/macros.rs"),("important bits","victor/src/style/declaration_block.rs")])
p("C12","Invalid CSS is dropped alone; everything around it still applies",
 "In every style sheet and style attribute, a declaration whose property is unknown or whose value is invalid is ignored by itself, a rule whose selector is invalid is ignored as a whole, and unknown at-rules are ignored with their block; every other declaration and rule applies as if the invalid parts were absent. Comments, white space, escapes, letter case of properties, keywords and units, and missing closing tokens at the end make no difference, and style elements of another type than CSS are ignored.",
 ["inputs"],"all interleavings of valid CSS constructs with invalid ones, at every position",
 "Only a handful of invalid constructs appear in the tests; recovery depends on what surrounds them.",
 [V+"style/declaration_block.rs",V+"style/rules.rs",V+"style/values/mod.rs",V+"dom/mod.rs"],
 [("declaration list recovery","victor/src/style/declaration_block.rs"),("rule list recovery","victor/src/style/rules.rs"),("style element collection","victor/src/dom/mod.rs parse_stylesheets")])
p("C13","Selectors match exactly the elements that CSS says they match",
 "For every document and every supported selector (type, universal, id, class and attribute selectors with all operators and case flags, structural pseudo-classes, negation, all four combinators and selector lists), a rule applies to an element if and only if the element matches the selector by the Selectors specification.",
 ["inputs"],"all element trees with any ids, classes and attributes, and all combinations of supported selectors",
 "Tests use simple type and class selectors; sibling navigation, multiple classes and attribute operators are not covered.",
 [V+"style/selectors.rs",V+"style/cascade.rs"],
 [("element interface for matching","victor/src/style/selectors.rs NodeRef"),("sibling and parent navigation","victor/src/style/selectors.rs find_element"),("class, id and attribute tests","victor/src/style/selectors.rs")])
p("C14","Every rendered character is in the document, once, in order",
 "Rendering shows exactly the text of the elements that generate boxes, in document order within each flow, with each run of white space collapsed to one space across element boundaries and removed at the start of a paragraph; text in display:none elements and in head, script and style elements is not shown, and display:contents only removes the element's own box. A block inside inline elements splits them around it without losing, duplicating or reordering text, and blank text between blocks makes no line.",
 ["inputs"],"all nestings of block, inline, contents and none displays with any text and white space between them",
 "Tests have one paragraph or one level of inline nesting; collapsing and splitting depend on neighbours across several levels.",
 [V+"layout/flow/construct.rs",V+"layout/dom_traversal.rs",V+"layout/flow/inline.rs"],
 [("white space collapsing","victor/src/layout/flow/construct.rs handle_text, handle_leading_whitespace"),("block-in-inline splitting","victor/src/layout/flow/construct.rs handle_block_level_element"),("display dispatch","victor/src/layout/dom_traversal.rs")])
p("C15","Block boxes get the positions and sizes that CSS 2 prescribes",
 "Every in-flow block-level box has the position and size that CSS 2.1 chapters 8 and 10 prescribe: widths, auto widths and auto margins solved within the containing block, percentages of the containing block, content heights from children, margins collapsed between siblings, parents, children and through empty boxes, and not across padding, borders, fixed heights or independent formatting contexts. Relatively positioned boxes are shifted from there by their offsets without moving anything else.",
 ["inputs"],"all trees of block-level boxes with any widths, heights, margins (positive, negative, percentage, auto), paddings and borders",
 "Reference tests cover a few dozen fixed configurations out of a combinatorial space.",
 [V+"layout/flow/mod.rs",V+"layout/fragments.rs",V+"layout/mod.rs",V+"geom.rs"],
 [("width and margin solving","victor/src/layout/flow/mod.rs layout_in_flow_non_replaced_block_level"),("margin collapsing","victor/src/layout/flow/mod.rs place_block_level_fragment; victor/src/layout/fragments.rs CollapsedMargin"),("relative positioning","victor/src/layout/mod.rs relative_adjustement")])
p("C16","Absolutely positioned boxes are placed against their containing block",
 "Every absolutely positioned box is out of flow, and is placed and sized by CSS 2.1 sections 10.3.7 and 10.6.4 against the padding box of its nearest positioned block ancestor, or the page: offsets, sizes, percentages, auto margins and over-constrained cases in both axes, and its static position where offsets are auto. An auto width with at most one offset set fills the available space.",
 ["inputs"],"all trees of absolutely, relatively and statically positioned boxes with every combination of auto, length and percentage offsets, sizes and margins",
 "The reference tests sample about thirty combinations, mostly in one axis and one level of nesting.",
 [V+"layout/positioned.rs",V+"layout/flow/mod.rs",V+"layout/flow/inline.rs",V+"layout/flow/root.rs"],
 [("axis solving","victor/src/layout/positioned.rs solve_axis"),("containing block selection","victor/src/layout/flow/mod.rs nested_abspos"),("static position through the tree","victor/src/layout/positioned.rs adjust_static_positions")])
p("C17","Inline text breaks into lines at spaces and stacks line by line",
 "Within every block of inline content, text is laid out left to right in lines that break only at spaces inside a text run, as late as the width allows, so that a line overflows only when it has no earlier break opportunity; the space at the break is dropped, and glyphs follow each other by their advance widths. Each line is as tall as its tallest content (1.2 times the font size for text, plus vertical margins, borders and paddings of inline boxes), text baselines are one ascent below the top of its box, and inline boxes take their left edges on their first and right edges on their last fragment only.",
 ["inputs"],"all nestings of inline boxes with text, font sizes, edges and containing widths",
 "Only a few single-line inline cases are tested.",
 [V+"layout/flow/inline.rs"],
 [("line breaking with save and restore","victor/src/layout/flow/inline.rs TextRun::layout"),("inline box fragmentation","victor/src/layout/flow/inline.rs PartialInlineBoxFragment"),("line stacking","victor/src/layout/flow/inline.rs finish_line")])
p("C18","Backgrounds and text are painted in the right colours and order",
 "Every box with a background colour that is not fully transparent paints it over exactly its border box, and every text run is painted in its element's text colour, both with the specified red, green, blue and opacity; nothing else is painted. Boxes paint in tree order, each before its content and children, with absolutely positioned boxes after the in-flow content of their containing block, so later boxes cover earlier ones.",
 ["inputs"],"all documents with any overlapping boxes, colours, opacities and positioning",
 "Reference tests compare single-colour images; opacity and paint order between overlapping siblings are not sampled.",
 [V+"paint.rs",V+"layout/fragments.rs",V+"pdf/convert.rs"],
 [("fragment painting","victor/src/paint.rs paint_onto"),("border box","victor/src/layout/fragments.rs border_rect"),("colour conversion","victor/src/primitives.rs")])
p("C19","Rendering is deterministic under any number of threads and schedule",
 "Rendering the same document always gives byte-for-byte the same PDF (a document object being rendered by one thread at a time), whatever the number of worker threads, the interleaving of the parallel box construction and layout, what else runs at the same time in the process, and how often the document was rendered before.",
 ["schedules","configurations"],"all schedules of the parallel layout on thread pools of any size, including concurrent renderings of different documents",
 "Each test renders once on the default pool; ordering bugs in the parallel merge show only under particular work-stealing schedules.",
 [V+"layout/flow/mod.rs",V+"layout/flow/construct.rs",V+"layout/positioned.rs",V+"layout/flow/root.rs"],
 [("parallel layout with ordered merge of absolutely positioned boxes","victor/src/layout/flow/mod.rs mapfold_reduce_into"),("parallel box construction","victor/src/layout/flow/construct.rs"),("parallel layout of positioned boxes","victor/src/layout/positioned.rs")])
p("C20","CSS property values parse and compute as specified",
 "For every supported property and every value text, the value is accepted exactly when it is in the property's grammar, and computes to what CSS defines: px and em lengths, unitless zero, percentages, all colour notations and names, line widths and styles, display, position and float keywords (which blockify), and shorthands that set all their longhands with one to four values or any order of components. A border whose style is none has no width.",
 ["inputs"],"all supported properties crossed with all value texts in and near their grammars",
 "Tests use plain px lengths and a few colour names, with one or two values per shorthand.",
 [V+"style/values/length.rs",V+"style/values/border.rs",V+"style/values/box_.rs",V+"style/values/generic.rs",V+"style/values/background.rs",V+"style/values/color.rs",V+"style/properties/definitions.rs"],
 [("length and percentage parsing","victor/src/style/values/length.rs"),("shorthand expansion","victor/src/style/values/generic.rs; victor/src/style/values/border.rs"),("post-cascade fix-ups","victor/src/style/properties/mod.rs post_cascade_fixups")])
p("C21","No input makes the library access memory it should not",
 "For every input to every public entry point (HTML and XML documents, style sheets, fonts, PDF drawing, PNG images, PDF pages rendered through Poppler), the library reads and writes only memory that is allocated, live and initialized for that purpose, and does not leak what it allocates per call.",
 ["inputs","histories"],"all inputs and call histories; observed on sanitized builds",
 "The tests run without any memory checker, on inputs for which an overrun would read adjacent valid data.",
 [V+"fonts/parsing.rs",V+"tagged_union_with_jump_tables.rs",V+"pdf/syntax.rs","lester/src/cairo.rs","lester/src/poppler.rs"],
 [("unsafe reads of font data","victor/src/fonts/parsing.rs"),("raw discriminant reads","victor/src/tagged_union_with_jump_tables.rs"),("FFI buffers","lester/src/cairo.rs pixels, read_from_png, write_to_png")])
p("C22","PNG images round-trip, and I/O errors and panics come back out",
 "Encoding an image surface to PNG and decoding it gives back the same width, height and pixels, for every non-empty size and every content (premultiplied, where there is transparency). When the stream given to read from or write to fails or panics at any call, or is short, or yields data in any fragments, the same error or panic comes out of the operation (or, for bytes that are not a PNG image, an error), no later call is made on the stream, and nothing crashes.",
 ["inputs","fault_sequences"],"all image sizes and pixels; all streams that fragment, end, fail or panic at any read or write call",
 "One image and one failure at the first call are tested.",
 ["lester/src/cairo.rs","lester/src/errors.rs"],
 [("C callback with captured error and panic","lester/src/cairo.rs with_c_callback"),("pixel access","lester/src/cairo.rs pixels")])
p("C23","PDF pages read back with the right count, size, text and pixels",
 "Opening a PDF gives exactly its pages: iterating forward, backward, from both ends or by index visits each page once with an exact remaining count, and each page reports its size in points and CSS pixels, its text, and renders at the requested resolution and backdrop to an image of the matching size, whose pixels show what was drawn on that page. Bytes that are not a PDF give an error.",
 ["histories","inputs","configurations"],"all documents of any page count and sizes, all histories of iterator calls, all render options, and all byte strings",
 "Tests open two one-page documents and render with one set of options.",
 ["lester/src/poppler.rs","lester/src/convert.rs","lester/src/cairo.rs"],
 [("double-ended page iterator","lester/src/poppler.rs PagesIter"),("scale and size computation","lester/src/poppler.rs render_with_options"),("checked conversions","lester/src/convert.rs")])
p("C24","Image and PDF handles live exactly as long as they are used",
 "Whatever the order in which documents, pages, images, strings and errors are created and dropped (pages outliving their document, failed openings, failed encodings, panics in streams), each underlying native object is released exactly once, after its last use: never twice, never while still in use, and none is left over at the end.",
 ["histories","fault_sequences"],"all histories of creating, using and dropping handles, with failures at any point",
 "Tests drop everything in one fixed order and nothing counts the native objects.",
 ["lester/src/cairo.rs","lester/src/poppler.rs","lester/src/errors.rs"],
 [("release on drop","lester/src/cairo.rs, lester/src/poppler.rs, lester/src/errors.rs Drop impls")])
p("C25","Writing a PDF delivers every byte in order, or reports the failure",
 "Writing a document to any stream delivers exactly the same bytes as converting it to a byte vector, however the stream splits or interrupts the writes, and writing to a file leaves exactly those bytes in it. If the stream fails at any point, that error is returned, the bytes delivered until then are a prefix of the file, and the document can still be written again in full; writing never reports success unless everything was delivered.",
 ["fault_sequences"],"all documents; all streams that accept any number of bytes per call, are interrupted, or fail with any error at any call",
 "Tests write to memory only.",
 [V+"pdf/syntax.rs",V+"pdf/mod.rs",V+"pdf/object.rs"],
 [("error propagation through the writer","victor/src/pdf/syntax.rs write"),("byte counting","victor/src/pdf/syntax.rs CountingWrite"),("file output","victor/src/pdf/mod.rs write_to_pdf_file")])
p("C26","Jump-table enums dispatch exactly like a match expression",
 "For every enum declared with the exported jump-table macro, whatever its integer representation, number of variants, field types and methods, calling a method on a value runs the arm of that value's variant with references to that value's own fields and the given arguments, and returns its result, exactly as an ordinary match would.",
 ["programs","inputs"],"all enum shapes the macro accepts (unit, one- and two-field variants, fields of any size, alignment and ownership, 1 to 256 variants, methods with and without arguments and results)",
 "One enum with a few variants is tested.",
 [V+"tagged_union_with_jump_tables.rs"],
 [("discriminant read and table lookup","victor/src/tagged_union_with_jump_tables.rs @methods"),("table construction","victor/src/tagged_union_with_jump_tables.rs @closures_table")])
p("C27","Link elements are listed completely, in document order",
 "Listing the links of a document yields, for every HTML link element in the tree that has both a rel and an href attribute, its two attribute values unchanged, in document order, once each, and nothing else.",
 ["inputs"],"all HTML and XML documents with link elements anywhere (head, body, misnested, in templates, other namespaces), with any attributes",
 "Used by the reftests on one-link documents only.",
 [V+"dom/mod.rs"],
 [("tree-order traversal","victor/src/dom/mod.rs nodes, next_in_tree_order"),("attribute lookup","victor/src/dom/mod.rs get_attr")])
p("C28","The victor command converts a file, or fails and says so",
 "Running the victor command with an HTML file and an output path, whatever their contents and names, replaces the output file by exactly the PDF that the library renders for the input's bytes, changes nothing else, and exits successfully. With a missing argument, an input that cannot be read or an output that cannot be written completely, it exits with a failure and a message; in the first two cases it creates and changes no file.",
 ["inputs","fault_sequences"],"all input files and file names (also not UTF-8, relative, or the same for both), output files that exist already, missing arguments, unreadable inputs, unwritable and full outputs",
 "No test runs the command.",
 [V+"main.rs",V+"dom/html.rs",V+"paint.rs"],
 [("the command","victor/src/main.rs main")])
p("C29","Images have exactly the pixels written or decoded into them",
 "A new image is blank, has width × height pixels in rows from the top, and keeps exactly the pixels written to it until they are written again, whatever else is done with it. Decoding any PNG image of up to 8 bits per channel, whatever its colour type, transparency, filters and interlacing, gives its size and pixels, with colours multiplied by the opacity. assert_pixels_eq! passes exactly for equal pixel buffers, and otherwise panics with a message that shows every pixel of both.",
 ["inputs","histories"],"all image sizes and contents, histories of accesses and encodings, PNG images of every colour type and depth, and pairs of pixel buffers",
 "Two images are encoded and decoded by the tests, and the comparison is only ever used on equal pixels.",
 ["lester/src/cairo.rs","lester/src/lib.rs"],
 [("pixel access","lester/src/cairo.rs pixels"),("decoding","lester/src/cairo.rs read_from_png"),("comparison","lester/src/lib.rs assert_pixels_eq, pixels_to_hex")])
p("C30","HTML elements are shown by default as HTML's rendering rules say",
 "Without author styles, area, base, basefont, datalist, head, link, meta, noembed, noframes, param, rp, script, source, style, template, title and track elements, inputs of type hidden (in any letter case) and elements with a hidden attribute of any value show nothing of themselves and their content; html, body, address, blockquote, center, dialog (open), div, figcaption, figure, footer, form, header, hr, legend, listing, main, p, plaintext, pre and xmp elements are blocks, a hidden embed is an empty inline, phrasing and unknown elements are inline, and the body has a margin of 8px on each side. Any author declaration overrides each of these, except that inputs of type hidden stay hidden.",
 ["inputs"],"all HTML documents of these elements, with any attributes and nesting, and author style sheets that override the defaults",
 "Tests use a handful of elements, nearly all of them div; a missing or misspelled element shows only when that element is used.",
 [V+"style/user_agent.css",V+"style/cascade.rs",V+"style/rules.rs",V+"style/selectors.rs"],
 [("the user-agent style sheet","victor/src/style/user_agent.css"),("its origin in the cascade","victor/src/style/cascade.rs StyleSetBuilder, StyleSet"),("author rules override it","victor/src/style/cascade.rs MatchingDeclarations::cascade")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
