E = "exploration"
CLAIMS = [
    ("C02", "runtime monitor: independent strict PDF parser over every PDF that random drawing, HTML and plain text produce", E,
     "Random drawing histories with extreme numbers, synthesized fonts, HTML soup and plain text; every produced file is checked in full by a parser that shares no code with Victor."),
    ("C03", "runtime monitor: PDF content interpreter compared with the log of requested drawing calls", E,
     "Random call histories over several pages; the display list interpreted from the file must equal the log of calls."),
    ("C04", "runtime monitor: embedded font resources compared with the model of synthesized fonts", E,
     "Synthesized TrueType fonts with known models plus the Vera family; every width and mapping of every embedded font is compared."),
    ("C25", "fault injection: writers that split, interrupt, fail or panic at chosen points, full devices; delivered bytes compared with the whole file", E,
     "Random fault points by byte and by call; a full device stands in for a full disk."),
    ("C05", "runtime monitor: metrics, mappings and names Victor reads compared with the model of synthesized fonts and of the bundled fonts", E,
     "Random well-formed TrueType fonts (all layouts the reader supports, tables in any order) and fonts that lack one requirement; every glyph and mapping is compared."),
    ("C06", "AddressSanitizer build with a monitor of panics, memory and CPU limits under truncated, mutated and structure-aware hostile fonts", E,
     "Byte mutations, truncations at every table boundary and field-aware corruptions of synthesized and bundled fonts; each is parsed, shaped and shown, and the resulting file is parsed."),
    ("C07", "runtime monitor: shaped segments observed through drawing and an advance-width hook, compared with a shadow model of the call history", E,
     "Random histories of append, append_char, save, restore, clone and drop over several fonts."),
    ("C08", "runtime monitor: every glyph of the laid-out pages compared with an independent line and page breaker", E,
     "Random texts, page sizes, fonts and styles; differences within rounding of a decision are followed instead of judged."),
    ("C09", "runtime monitor: whole painting of tag soup compared with the painting of a reference tree built by an independent tree sink", E,
     "Random misnested markup around tables, formatting elements, foreign content, forms, frames and templates; a style sheet makes every element, attribute and text visible. The tokenizer and the tree-construction algorithm of the html5ever dependency are used on both sides; what is judged is the tree that Victor makes of their instructions."),
    ("C10", "runtime monitor: painting of printed XML trees compared with the tree; malformed and mutated documents must be errors without a panic", E,
     "Random trees in several namespaces, printed with prefixes, entities, character references, CDATA, comments and processing instructions; sixteen ways of breaking them; byte mutations."),
    ("C11", "runtime monitor: painting compared with a reference cascade over generated style sheets", E,
     "Random style sheets with few properties that compete through importance, origin, style attributes, specificity and order, and CSS-wide keywords."),
    ("C12", "runtime monitor: painting with invalid parts and syntactic variations added compared with the reference of the style sheet without them", E,
     "Invalid declarations, selectors and at-rules between valid ones, unclosed constructs at the end, comments, escapes and case changes."),
    ("C13", "runtime monitor: painting compared with reference selector matching; each rule sets a property of its own", E,
     "Random selectors over small documents with few names, so that they match often."),
    ("C14", "runtime monitor: painted text compared with reference box generation", E,
     "Random documents of inline, block, display:contents and hidden elements with white space everywhere."),
    ("C15", "runtime monitor: painted geometry compared with a reference CSS 2.1 block layout", E,
     "Random trees of blocks with margins, paddings, borders, sizes, percentages and relative offsets."),
    ("C16", "runtime monitor: painted geometry compared with a reference layout of absolutely positioned boxes", E,
     "Random offsets, sizes, percentages and auto margins in both axes against positioned ancestors and the page."),
    ("C17", "runtime monitor: painted lines compared with a reference line breaker", E,
     "Random texts in nested inline elements with edges, font sizes and widths; decisions within rounding are not judged."),
    ("C18", "runtime monitor: painted rectangles and glyphs compared, in order and colour, with a reference painter", E,
     "Random colours, opacities and positions."),
    ("C20", "runtime monitor: painting compared with reference parsing and computation of generated values", E,
     "Values of every supported property, valid and invalid, in many notations; a value that is rejected leaves a fallback visible."),
    ("C27", "runtime monitor: listed links compared with the links of the reference tree, for HTML and XML", E,
     "Link elements everywhere in random markup, with missing, duplicate, empty and escaped attributes, in several namespaces."),
    ("C01", "runtime monitor: panics, aborts, stack, memory and CPU limits in a supervised worker, and a strict parser over the returned file, under hostile HTML", E,
     "Markup soup, hostile style sheets, deep nesting up to 100, mutated documents and growth series whose memory and time are compared between sizes; every case is also rendered twice."),
    ("C19", "runtime monitor: byte comparison of renderings under different thread pools, stress on the pool, and injected delays; ThreadSanitizer is unusable with this toolchain (its standard library is not instrumented)", E,
     "Documents with many boxes are rendered in pools of one to many threads, next to other renderings, with yields and sleeps at pseudo-random allocations, and after earlier renderings; all bytes must be equal."),
    ("C21", "AddressSanitizer over all workloads, Valgrind Memcheck on a sample of them, and allocation counting over repeated calls for leaks", E,
     "Documents, style sheets, fonts, drawing, PNG images and Poppler pages, with hostile inputs; leaks are counted as bytes still allocated after repeating the same call."),
    ("C22", "fault injection into PNG streams and round-trip comparison with an independent PNG coder", E,
     "Random sizes, contents and fragmentations; every call of the stream is logged, and errors, panics and short data are injected at random calls."),
    ("C23", "runtime monitor: pages, text and pixels read back compared with the log of what was drawn; model of the iterator protocol", E,
     "Random documents of pages with rectangles and words at known positions, random iteration histories, resolutions and backdrops."),
    ("C24", "interposed native functions: an online checker of the reference counts of every cairo, Poppler and GLib object the library creates", E,
     "Random histories of creating, sharing, dropping, failing and panicking; the checker sees each acquire, use and release of a native object."),
    ("C26", "runtime monitor: generated enums, each method call compared with an ordinary match", E,
     "A program generated from the seed declares enums with all representations, up to 256 variants and many shapes of fields and methods, and logs which fields and arguments each call saw."),
    ("C28", "runtime monitor of the running command: exit status, messages and files compared with the library's rendering, under faults of arguments and files", E,
     "Random documents and file names; missing, unreadable, unwritable and full files."),
    ("C29", "runtime monitor: pixels compared with a shadow model of the writes, with the images that generated PNG files spell out, and comparisons with their operands", E,
     "Random histories; PNG files of every colour type, depth, filter and interlacing from an independent encoder. Images of 16 bits per channel may be refused (lester documents two pixel formats)."),
    ("C30", "runtime monitor: painting compared with a reference that has the default display of each HTML element", E,
     "Random nestings of all elements with a default display, with hidden and type attributes, and author style sheets that override the defaults; every element has a background and text, so that its display shows."),
]
CLAIMS.sort()
NOT_APPLICABLE = []
HOOKS = {"guard": "cfg(vmon)", "enable": 'RUSTFLAGS="--cfg vmon"', "source_commits": ["49a2f7b"]}
