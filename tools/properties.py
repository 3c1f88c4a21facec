"""Single source for properties.jsonl and MANIFEST.json (run tools/gen.py)."""

PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, for_all, why, files, mechanism, technique, note, over=("inputs",), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), for_all=for_all, why=why,
                      files=[f if f.startswith(("sdd/", "asg/")) else "parser/src/" + f for f in files],
                      mechanism=mechanism, observe=list(observe), technique=technique, note=note))


P("C01", "Parsing any text ends, without a panic, in bounded stack and memory",
  "For every text and every parser configuration, parsing returns a document: it neither panics, aborts nor runs forever, and every accessor of the document it returns can be called. There is no invalid input; whatever is not recognized as markup is ordinary text.",
  "every UTF-8 text (markup fragments in any order, unterminated and nested blocks, any line ending, any Unicode), with any intrinsic attributes, primary file and include handler",
  "The tests parse some hundreds of mostly well-formed snippets; the unpaired, empty, truncated and multi-byte neighbours of each construct are unbounded in number.",
  ["parser/parser.rs", "blocks/parse_utils.rs", "content/substitution_step.rs", "content/macros.rs", "content/passthroughs.rs", "span/", "document/"],
  [("every parse function consumes input or reports no match", "parser/src/blocks/parse_utils.rs"),
   ("inline replacers fall back to the text as written", "parser/src/content/macros.rs")],
  "crash, debug-assertion and progress monitors over a generated hostile workload",
  "Held on the executions counted in the evidence; worker processes make every panic, abort, stack overflow, over-allocation and lack of progress observable. Deep nesting is a recorded finding.",
  over=("inputs", "configurations"), observe=["Parser::parse", "all public accessors of Document"])

EXPL = "Held on the executions counted in the evidence file, nothing more; "

P("C02", "Work and memory grow no faster than the text and its nesting warrant",
  "Parsing a text four times as long (the same fragment repeated) takes a bounded multiple of the allocations, memory and time, not exponentially more, and doubling the nesting depth likewise. The memory a document holds on to is proportional to its text.",
  "every repeated fragment of markup, and every nesting of blocks, sections and inline markup",
  "Tests parse one small text at a time and measure nothing.",
  ["blocks/", "content/", "span/", "parser/parser.rs"],
  [("delimited blocks and sections are parsed once per level", "parser/src/blocks/compound_delimited.rs"),
   ("inline substitutions run once over the text", "parser/src/content/content.rs")],
  "allocation-counting monitor over pairs of texts of scaled size",
  EXPL + "allocations and bytes are counted exactly by the monitor's allocator; CPU time only decides at a very generous factor.",
  over=("inputs",), observe=["Parser::parse"])

P("C03", "A parsed document stands on its own and stays readable and unchanged",
  "A document remains readable, with the same content, after the text it was parsed from has been overwritten and freed, after its parser is gone, and after it is moved; every string it yields is valid UTF-8. Parsing and dropping a document leaves no memory behind.",
  "every text and configuration, with the source buffer reused and the document moved between reads",
  "The document borrows from text that it owns itself; tests keep everything alive and in place.",
  ["document/document.rs", "span/", "strings.rs", "content/"],
  [("the document owns its source and the blocks that borrow from it", "parser/src/document/document.rs"),
   ("strings of 22 bytes or less are stored inline", "parser/src/strings.rs")],
  "AddressSanitizer and use-after-overwrite monitors",
  EXPL + "the crate itself has no unsafe code, so this watches the self-referencing document and its dependencies.",
  over=("inputs", "histories"), observe=["Document"])

P("C04", "Parsing is deterministic",
  "The same text parsed by equally configured parsers gives equal documents, whatever other documents and parsers were parsed before, on any thread, and by a clone of the parser too.",
  "every text and configuration, and every earlier or concurrent use of other parsers",
  "Tests parse each text once; a dependence on hash order, global state or threads shows only across runs.",
  ["parser/parser.rs", "document/catalog.rs", "parser/built_in_attrs.rs"],
  [("shared tables of built-in attributes", "parser/src/parser/built_in_attrs.rs"),
   ("hash maps behind the catalog and attributes", "parser/src/document/catalog.rs")],
  "differential monitor: repeated, concurrent and cloned parses",
  EXPL + "everything observable is compared, and document equality.",
  over=("histories", "configurations", "schedules"), observe=["Parser::parse", "Document"])

P("C05", "A parser that is used again treats the next document as a new one",
  "After documents that set no attributes, a parser makes of a further document exactly what a fresh parser of the same configuration makes of it: IDs, numbering, warnings and content carry nothing over. A clone of a parser and the original do not affect each other.",
  "every sequence of documents parsed by one parser or its clones",
  "Tests use a fresh parser for nearly every document.",
  ["parser/parser.rs", "document/catalog.rs", "blocks/section.rs"],
  [("per-document state is reset when parsing begins", "parser/src/parser/parser.rs")],
  "history monitor: a reused parser compared with a fresh one",
  EXPL + "histories of one to three earlier documents.",
  over=("histories",), observe=["Parser::parse"])

P("C06", "Every reported location is exact",
  "Each location that a document, block, attribute or warning reports is a slice of the document's source: its text is what stands at its byte offset, and its line and column are those of that offset. A block's location starts at its first metadata or content line and ends at the end of its last line.",
  "every text, including multi-byte characters, tabs and any line ending, and every accessor that yields a location",
  "Tests assert the location of a few ASCII snippets each; locations after multi-byte text or deep nesting are computed by long chains of slicing.",
  ["span/", "blocks/", "attributes/", "document/"],
  [("span slicing keeps line, column and offset in step", "parser/src/span/")],
  "online recomputation of every reported location",
  EXPL + "every span of every accessor in each parsed document is recomputed from the source.",
  observe=["HasSpan::span", "Document::warnings"])

P("C07", "The blocks cover the document: nothing is lost, doubled or overlapping",
  "A block lies inside its parent, siblings are in source order and do not overlap, and text that is in no block is only white space, the document header, comment lines between blocks, or a container's own metadata, heading or delimiter lines.",
  "every text that uses no include or conditional directive",
  "A paragraph silently dropped between two constructs shows only for that combination of neighbours.",
  ["blocks/", "document/document.rs", "document/header.rs"],
  [("block parsing continues where the previous block ended", "parser/src/blocks/parse_utils.rs")],
  "structural invariant monitor over the block tree",
  EXPL + "hostile texts and constructed documents.",
  observe=["IsBlock::nested_blocks", "HasSpan::span"])

P("C08", "Delimited blocks end at their own closing line, and nowhere else",
  "A delimited block runs from a delimiter line (listing ----, literal ...., pass ++++, comment ////, example ====, sidebar ****, quote ____ of four or more characters, or open block --) to the first following line that is the same delimiter with the same length, trailing blanks aside. Blocks of the other kinds nest inside example, sidebar, quote and open blocks, and without a closing line a block extends to the end of its container and is reported exactly once as unterminated.",
  "every sequence and nesting of delimiter lines of all kinds and lengths",
  "Tests pair one opening with one closing line; the pairing of many is a property of the sequence.",
  ["blocks/raw_delimited.rs", "blocks/compound_delimited.rs", "blocks/parse_utils.rs"],
  [("delimiter line recognition and search for the closing line", "parser/src/blocks/compound_delimited.rs"),
   ("unterminated block warning", "parser/src/blocks/raw_delimited.rs")],
  "reference pairing model run against the parsed tree",
  EXPL + "nesting up to 9 deep and delimiter lengths 2 to 9.",
  observe=["CompoundDelimitedBlock", "RawDelimitedBlock", "Document::warnings"])

P("C09", "Listing, literal, pass and comment blocks keep their text exactly",
  "The content of a listing or literal block is its lines verbatim with only <, > and & escaped, and that of a pass block its lines untouched; no markup inside is interpreted as inline or block markup. Nothing inside a comment block has any effect on the rest of the document.",
  "every content, wherever the block stands, with or without a closing line",
  "Verbatim text may contain anything at all, including markup that other code would act on.",
  ["blocks/raw_delimited.rs", "content/substitution_group.rs", "content/substitution_step.rs"],
  [("substitution group of each raw block", "parser/src/blocks/raw_delimited.rs")],
  "round-trip monitor on constructed content",
  EXPL + "contents of up to 12 hostile lines in every position of the tree.",
  observe=["IsBlock::rendered_content", "RawDelimitedBlock::content"])

P("C10", "Paragraphs are split and cut exactly where the rules say",
  "A paragraph is a run of lines ended by a blank line, a block delimiter line, a block attribute line, a list continuation line or the end of its container; its text is those lines, without line comments, trailing blanks, and for an indented (literal) paragraph the common indentation of its first line. Other markup on a later line of a paragraph does not end it.",
  "every sequence of paragraphs, indented or not, in any container and with any line ending",
  "Each rule interacts with all others on neighbouring lines.",
  ["blocks/simple.rs", "blocks/parse_utils.rs", "span/line.rs"],
  [("paragraph line scan", "parser/src/blocks/simple.rs")],
  "constructed paragraphs checked against the parsed ones",
  EXPL + "1 to 7 paragraphs of 1 to 9 lines per case.",
  observe=["SimpleBlock::content", "HasSpan::span"])

P("C11", "A block's title, anchor and attributes are those written above it",
  "A block reports exactly the title, anchor, reference text, ID, style, roles, options and named attributes in the metadata lines directly above it, in whatever order these stand, and no other block reports them. Metadata with no block to follow is reported by a warning.",
  "every kind of block with every combination of metadata lines, at every nesting",
  "Every kind of block handles its metadata in code of its own; tests try few combinations of kind and metadata.",
  ["blocks/metadata.rs", "blocks/block.rs", "attributes/attrlist.rs"],
  [("metadata lines are parsed once for each block", "parser/src/blocks/metadata.rs")],
  "constructed documents checked against what was written",
  EXPL + "all block kinds.",
  observe=["IsBlock"])

P("C12", "Sections form the outline that their heading levels describe",
  "A section contains everything up to the next heading of its own or a higher level and nothing beyond; content before the first section is in a preamble; discrete headings contain nothing. Skipped levels, level 0 headings and headings that are too deep are each reported exactly once, where they are.",
  "every sequence of headings of any level, discrete or not, with any blocks between",
  "The outline is a property of the whole sequence; tests use two or three headings.",
  ["blocks/section.rs", "blocks/preamble.rs", "document/document.rs"],
  [("a section's blocks end at the next heading of its level or above", "parser/src/blocks/section.rs")],
  "reference outline model run against the parsed tree",
  EXPL + "up to 40 headings.",
  observe=["SectionBlock", "Preamble", "Document::warnings"])

P("C13", "Section numbers count exactly the numbered sections",
  "With numbering on, each section down to the configured level has the number made of its ancestors' positions and its own (appendices are lettered from A, with their subsections numbered below), other sections have none, and discrete headings and sections in unnumbered parts neither have nor use up a number. Numbering starts afresh in each document.",
  "every outline, any numbering switches in header, body or API, any level limit, and repeated use of a parser",
  "Numbers depend on every earlier section; tests have a few outlines.",
  ["blocks/section.rs", "parser/parser.rs"],
  [("section number counter", "parser/src/parser/parser.rs")],
  "reference counter run against the parsed sections",
  EXPL + "up to 60 sections, five levels, up to 26 appendices.",
  over=("inputs", "histories", "configurations"), observe=["SectionBlock::section_number", "SectionBlock::section_type"])

P("C14", "IDs are unique, predictable and all in the catalog",
  "A section without an explicit ID gets one made from its title by the documented rules and the ID settings in effect at that point, numbered when it would repeat an existing one; an explicit ID is kept. The catalog contains exactly the IDs of the document's blocks with their reference texts, no two the same, and every explicit ID that repeats an earlier one is reported once.",
  "every outline with repeated, special and explicit IDs and titles, and changing ID settings",
  "Uniqueness is over all pairs of blocks of a document; tests have two or three.",
  ["document/catalog.rs", "blocks/section.rs", "blocks/metadata.rs"],
  [("ID generation and duplicate numbering", "parser/src/document/catalog.rs"),
   ("registration of block IDs", "parser/src/blocks/")],
  "uniqueness and slug reference monitor",
  EXPL + "IDs known by construction.",
  observe=["SectionBlock::id", "IsBlock::id", "Document::catalog"])

P("C15", "Attributes have the value of the latest entry that was permitted",
  "A document attribute set or unset in the header or body has that value from there on, for every later use and reference in the document and on the parser afterwards, with continuation lines joined and references in it resolved. An attribute that the API or the processor defines can be changed only where its permission allows (not at all, header only, body only, anywhere); an entry that is refused changes nothing and is reported by one warning naming it.",
  "every sequence of attribute entries, in header, sections and nested blocks, for every configured permission, and repeated documents",
  "The value at a point depends on the whole document before it and on the permission of each attribute.",
  ["parser/parser.rs", "document/attribute.rs", "document/header.rs", "blocks/block.rs"],
  [("attribute table with modification contexts", "parser/src/parser/parser.rs"),
   ("attribute entries in header and body", "parser/src/document/attribute.rs")],
  "reference model of every attribute's value and permission run along the document",
  EXPL + "up to three documents of some dozen entries per parser.",
  over=("inputs", "histories", "configurations"), observe=["Parser::attribute_value", "Document::warnings", "IsBlock::rendered_content"])

P("C16", "Attribute references are replaced by the value, and others left alone",
  "A reference to a defined attribute is replaced by its current value (in any letter case of the name; nothing if it is set without a value), wherever attribute substitution applies: paragraphs, titles, attribute lists, macro targets. A reference to an attribute that is not defined, an escaped one, and braces that are not a reference stay as written; the value is not itself scanned for references, special characters or formatting.",
  "every text with references, with values that look like references and markup",
  "Every value can hold any text, and every place of use has its own code.",
  ["content/substitution_step.rs", "attributes/attrlist.rs", "parser/parser.rs"],
  [("attribute reference replacer", "parser/src/content/substitution_step.rs")],
  "rendering monitor on constructed texts",
  EXPL + "texts of up to a dozen references.",
  over=("inputs", "configurations"), observe=["IsBlock::rendered_content", "IsBlock::title"])

P("C17", "The header is exactly the lines that belong to it, each with its meaning",
  "Leading comments, attribute entries, the document title and the author and revision lines that follow it form the header, up to the first blank line; title, attributes, authors and revision are reported with the values written, references resolved with the attributes set so far. Everything after the header is body, and a line that does not belong to a header is reported.",
  "every order and form of header lines, with any intrinsic attributes and line ending",
  "Header lines may come in any order and each changes what later ones mean; the tests show a few orders.",
  ["document/header.rs", "document/attribute.rs", "document/author_line.rs", "document/revision_line.rs"],
  [("header lines are taken until one does not fit", "parser/src/document/header.rs")],
  "reference monitor on constructed headers",
  EXPL + "headers without comment blocks, which are not supported.",
  over=("inputs", "configurations"), observe=["Document::header", "Parser::attribute_value"])

P("C18", "Every author on the author line is found, part by part",
  "An author line yields its authors in order, each with first, middle and last name (underscores as spaces), initials and e-mail address as written; what does not fit that form is one name. The author, name part, initials and e-mail attributes, numbered from the second author on, are set for exactly the parts there are.",
  "every author line of any number of authors, names of any letters, with references and with locked attributes",
  "The tests stop at a few authors and mostly plain ASCII names.",
  ["document/author.rs", "document/author_line.rs", "document/header.rs"],
  [("author matching", "parser/src/document/author.rs"), ("author attributes", "parser/src/document/author_line.rs")],
  "reference monitor on constructed author lines",
  EXPL + "names with character references keep them unescaped.",
  over=("inputs", "configurations"), observe=["Header::author_line", "Parser::attribute_value"])

P("C19", "The revision line yields its number, date and remark",
  "A revision line is a number without its prefix, a date, and a remark after a colon, of which any but one may be missing; the parts are reported as written with references resolved, and the revision attributes are set for exactly the parts there are.",
  "every combination of parts, with references, special characters and locked attributes",
  "The parts are told apart by punctuation that may also occur inside them.",
  ["document/revision_line.rs", "document/header.rs"],
  [("revision line matching", "parser/src/document/revision_line.rs")],
  "reference monitor on constructed revision lines",
  EXPL + "a reference alone after the letter v is a date.",
  over=("inputs", "configurations"), observe=["Header::revision_line", "Parser::attribute_value"])

P("C20", "An attribute list says exactly what is written in it",
  "Positional and named attributes, quoted or not, are reported in order with the values written, references resolved; ID, roles, options and style come from shorthand (not in macros) and named attributes alike. An empty item or value, a missing quote and text after a quoted value are each reported, and the rest of the list is kept.",
  "every attribute list above a block or in a block macro",
  "The list grammar mixes quotes, commas, shorthand and references, with mistakes in any place.",
  ["attributes/attrlist.rs", "attributes/element_attribute.rs"],
  [("attribute list parsing", "parser/src/attributes/attrlist.rs"), ("shorthand items", "parser/src/attributes/element_attribute.rs")],
  "reference monitor on constructed attribute lists",
  EXPL + "two commas in a row drop a position, as the existing tests fix.",
  over=("inputs", "configurations"), observe=["IsBlock::attrlist", "MediaBlock::macro_attrlist", "Document::warnings"])

P("C21", "Text stays text: special characters and escaped markup come out literally",
  "Every <, > and & written in ordinary text, titles and attribute values is rendered as a character entity, exactly once, and never as markup. Markup preceded by a backslash is rendered as the text it is written in, without the backslash; marks that do not form markup are rendered as they are.",
  "every text outside passthroughs, in paragraphs, titles and attribute values",
  "A single unescaped character is an injection; any substitution step may lose or repeat the escaping.",
  ["content/substitution_step.rs", "content/macros.rs", "content/passthroughs.rs"],
  [("special character replacement", "parser/src/content/substitution_step.rs"),
   ("escape handling in each macro and quote", "parser/src/content/macros.rs")],
  "output scan with a renderer that writes no markup of its own; rendering monitor on constructed texts",
  EXPL + "values of the author attributes, which may hold character references, are left out.",
  observe=["IsBlock::rendered_content"])

P("C22", "Formatted text is rendered as written: kind, nesting, attributes and scope",
  "Bold, italic, monospaced, highlighted, superscript and subscript text, in constrained and unconstrained form, and curved quotation marks are rendered as such around exactly the text between their marks, with the ID and roles given before them, nested in one another in the documented order of the kinds. Constrained marks inside a word do not format.",
  "every arrangement of formatted texts next to, inside and across the lines of others",
  "The passes over the text run one after another on partly rendered text, so any pair of kinds interacts.",
  ["content/substitution_step.rs", "parser/html_substitution_renderer.rs"],
  [("ordered quote substitutions", "parser/src/content/substitution_step.rs")],
  "rendering monitor on constructed texts",
  EXPL + "nesting to depth 4.",
  observe=["IsBlock::rendered_content"])

P("C23", "Passthroughs give back their content, in order, with only their substitutions",
  "Text in a single, double or triple plus passthrough, in pass:[] with or without a list of substitutions, or in literal monospaced text comes out with only the substitutions that the form asks for, in its place, whatever it contains and however many there are. Nothing outside takes part in it and the text around it is formatted as usual.",
  "every content of passthroughs, any number of them, inside formatted text, links and titles",
  "Passthroughs are taken out and put back by number; order, nesting and look-alikes are unbounded.",
  ["content/passthroughs.rs", "content/substitution_group.rs"],
  [("extract and restore passthroughs", "parser/src/content/passthroughs.rs")],
  "rendering monitor on constructed texts",
  EXPL + "up to a dozen passthroughs with hostile content per text.",
  observe=["IsBlock::rendered_content"])

P("C24", "Textual replacements happen exactly where the rules say",
  "(C), (R), (TM), em dashes between words or spaces, ellipses, apostrophes between letters, the four arrows and character references are replaced wherever they stand by their rules, and stay as written where the rules do not apply or after a backslash. The rest of the text is unchanged.",
  "every text with replaceable sequences beside words, punctuation, line boundaries and other markup",
  "Each rule looks at its neighbours, including those that earlier matches have used up.",
  ["content/substitution_step.rs"],
  [("character replacement table", "parser/src/content/substitution_step.rs")],
  "rendering monitor on constructed texts",
  EXPL + "sequences also directly next to each other.",
  observe=["IsBlock::rendered_content"])

P("C25", "Links and e-mail addresses lead where they are written to lead",
  "A URL (bare, in angle brackets or with link text), a link: or mailto: macro and an e-mail address become one link with exactly the written target, text, ID, roles, window and options; mailto subject and body are percent-encoded. Punctuation after a bare URL is not part of it, hidden schemes are hidden, and an escaped link stays text.",
  "every target, text and attribute list of a link, in any surroundings",
  "Targets and texts are arbitrary; which character ends a link depends on its neighbours.",
  ["content/macros.rs", "parser/html_substitution_renderer.rs"],
  [("link, URL and e-mail replacers", "parser/src/content/macros.rs")],
  "rendering monitor on constructed texts",
  EXPL + "the option nofollow together with a new window (a rendering locked by the existing tests) is left out.",
  over=("inputs", "configurations"), observe=["IsBlock::rendered_content"])

P("C26", "Images and icons are rendered with the file and attributes given",
  "An inline image refers to its target resolved against the images directory (URIs and absolute paths unchanged), with the written or derived alternative text, size, title, link, float and roles; an icon is rendered as text, font or image as the icons attribute says, with its size, rotation, title, link and role. SVG images honour the inline and interactive options.",
  "every target and attribute list, for every images and icons configuration",
  "The result combines a dozen optional attributes with the settings.",
  ["content/macros.rs", "parser/html_substitution_renderer.rs", "parser/path_resolver.rs"],
  [("image and icon rendering", "parser/src/parser/html_substitution_renderer.rs")],
  "rendering monitor on constructed texts",
  EXPL + "all attributes in combination.",
  over=("inputs", "configurations"), observe=["IsBlock::rendered_content"])

P("C27", "Inline anchors mark the place where they are written",
  "An inline anchor, [[id]] or anchor:id[], with or without reference text, is rendered as one anchor of exactly that ID in its place and shows no text of its own; what is not a valid ID, and an escaped anchor, stays text.",
  "every ID and reference text in any surroundings",
  "IDs may hold any letter; surroundings may contain other markup.",
  ["content/macros.rs", "parser/html_substitution_renderer.rs"],
  [("inline anchor replacer", "parser/src/content/macros.rs")],
  "rendering monitor on constructed texts",
  EXPL + "anchors in formatted text, lists of words and titles.",
  observe=["IsBlock::rendered_content"])

P("C28", "A custom renderer is asked for every inline element, with what was written",
  "With a renderer of the user's own, each special character, formatted text, replacement, line break, link, image, icon and anchor of the text is rendered by that renderer and by nothing else, and it is given the element's type, scope, ID, roles, attributes, target and inner text as written. Its output is used as it is.",
  "every text, with renderer output of any form",
  "The HTML renderer hides what the parser asks for; only a recording renderer shows it.",
  ["parser/inline_substitution_renderer.rs", "content/substitution_step.rs", "content/macros.rs", "content/content.rs"],
  [("renderer trait calls", "parser/src/parser/inline_substitution_renderer.rs")],
  "recording renderer as monitor of the calls and of their result",
  EXPL + "titles are parsed more than once, so the number of requests is not part of it.",
  observe=["InlineSubstitutionRenderer"])

P("C29", "A block's substitutions are those of its kind and its subs attribute, in order",
  "Paragraphs and titles have all substitutions, listing and literal blocks only special characters, pass blocks and pass paragraphs none; the subs attribute replaces, adds to the front or back, or removes from these, by names, abbreviations and groups. The steps are applied once each in the order that results, and a list with an unknown name is ignored.",
  "every list of substitutions on every kind of block",
  "There are thousands of lists; each pair of steps interacts.",
  ["content/substitution_group.rs", "content/substitution_step.rs", "blocks/raw_delimited.rs", "blocks/simple.rs"],
  [("substitution group selection", "parser/src/content/substitution_group.rs")],
  "reference model of the steps on marker texts, and rendering monitor on constructed texts",
  EXPL + "lists of up to four items.",
  observe=["IsBlock::substitution_group", "IsBlock::rendered_content"])

P("C30", "Hard line breaks stand where they were asked for and nowhere else",
  "A line that ends with a space and a plus sign ends in a line break, without the plus sign; with the hardbreaks option on the paragraph, or the hardbreaks attribute in effect at that point, every line but the last does. Other plus signs and line ends are text.",
  "every paragraph, with the option or attribute switched on and off between",
  "The attribute changes during the document, and the marks meet all other substitutions.",
  ["content/substitution_step.rs"],
  [("post replacements", "parser/src/content/substitution_step.rs")],
  "rendering monitor on constructed texts",
  EXPL + "paragraphs of one to five lines and more.",
  observe=["IsBlock::rendered_content"])

P("C31", "An include directive stands for the text of the file it names",
  "A line that is an include directive is replaced by the text the include handler returns for it, recursively down to 64 levels; the handler is told the including file, the target with attribute references replaced by the values in effect at that line, and the directive's attributes. Where the handler has nothing, one line 'Unresolved directive in FILE - DIRECTIVE' stands instead. A document cut into files parses like the whole; lines that only look like a directive, or are escaped, stay text.",
  "every tree of files, target, nesting and history of attribute entries before the directive",
  "Include order, nesting and the attributes in effect multiply; the handler is the user's.",
  ["parser/preprocessor.rs", "parser/include_file_handler.rs", "parser/parser.rs"],
  [("preprocessor", "parser/src/parser/preprocessor.rs")],
  "recording include handler compared with a generated project; equality of cut and whole documents",
  EXPL + "conditional directives are not supported by the parser and not generated.",
  over=("inputs", "histories"), observe=["IncludeFileHandler", "Document"])

P("C32", "Every line of a document is traced to the file and line it came from",
  "For each block and each warning of a document made from several files, the source map gives, for its line in the joined text, the file and the line of that file where the text was written. Lines before, in and after each included file, of unresolved directives, and of files included several times are traced alike.",
  "every tree of files and every line",
  "Each nested include shifts all later lines; tests sample one or two maps.",
  ["parser/source_map.rs", "parser/preprocessor.rs", "document/document.rs"],
  [("source map", "parser/src/parser/source_map.rs")],
  "generated project as reference model of the map, line by line",
  EXPL + "projects of up to a few dozen files and chains of 70.",
  over=("inputs", "histories"), observe=["Document::source_map", "SourceMap::original_file_and_line"])

P("C33", "Web paths are joined and normalized without leaving their root",
  "A target joined to a start path has no '.' segment and no resolvable '..'; an absolute result never rises above its root, and a relative one keeps the '..' it cannot resolve. Spaces become %20, separators become slashes, a URI start keeps its scheme and authority, and an absolute target ignores the start. Resolving a resolved path again changes nothing. Image paths follow the same rules.",
  "every pair of target and start path",
  "Segments combine without bound; escaping the root takes a particular sequence.",
  ["parser/path_resolver.rs", "parser/html_substitution_renderer.rs"],
  [("web_path", "parser/src/parser/path_resolver.rs")],
  "reference model of path joining on generated segments",
  EXPL + "up to a dozen segments on each side.",
  observe=["PathResolver::web_path", "PathResolver::posixify", "IsBlock::rendered_content"])

P("C34", "Every mistake is reported once, at its place, and nothing else is",
  "Each mistake of the kinds the parser knows (unclosed block or quote, metadata without a block, bad anchor, empty attribute or shorthand item, missing comma, locked attribute, duplicate ID, unended header, heading of a level too high or skipped, and so on) gives exactly one warning, on its line and about text of that line. Text without such a mistake gives no warning.",
  "every combination of mistakes in any order, nesting and surroundings",
  "Blocks are parsed speculatively and more than once, so reports get lost or doubled in combination.",
  ["warnings.rs", "document/document.rs", "blocks/metadata.rs", "blocks/block.rs", "blocks/section.rs", "attributes/attrlist.rs", "attributes/element_attribute.rs"],
  [("warnings", "parser/src/warnings.rs")],
  "planted mistakes with known line, compared with the warnings reported",
  EXPL + "fourteen kinds of mistakes, up to a few dozen per document.",
  observe=["Document::warnings"])

P("C35", "Strings keep their text in every form of storage",
  "A string made from borrowed, boxed, inline or single-character text holds exactly that text, and still does after any sequence of clones, conversions and moves. Equality, hash and lookup in a map depend on the text only. The inline form takes exactly the texts up to its capacity.",
  "every text and every sequence of conversions",
  "Storage changes at a length in bytes, which characters of several bytes straddle.",
  ["strings.rs"],
  [("CowStr and InlineStr", "parser/src/strings.rs")],
  "equality with the plain text over random histories of conversions",
  EXPL + "texts of 0 to 40 bytes and histories of up to twelve steps.",
  over=("inputs", "histories"), observe=["strings::CowStr", "strings::InlineStr"])

P("C36", "The coverage report of sdd covers every document and every line",
  "sdd prints one JSON object with an entry for every document (.adoc) below the documentation directory that is not hidden. In it each line that a test quotes as verified, at its place and word for word, counts as covered; lines quoted as non-normative or with another text, and blank lines, are left out; every line beyond those quoted counts as not covered.",
  "every tree of documents and tests",
  "The tool has no test for whole trees; order of quotes and lines decides the result.",
  ["sdd/src/main.rs"],
  [("sdd main", "sdd/src/main.rs")],
  "generated trees run through the real tool, report compared with a reference model",
  EXPL + "trees of up to a dozen documents; several test files tracking the same document are left out (their order is undefined).",
  observe=["stdout of sdd"])

P("C37", "Breaks and block macros are recognized exactly, with target and attributes",
  "A line that is ''', ---, ***, - - - or * * * is a thematic break, and <<< a page break; image::, video:: and audio:: with a target and a list in brackets are media blocks of that kind, target and attributes. Each takes title, anchor, ID, roles and options and spans its own lines only. A line that differs from these in any character is text, and in a paragraph none of them is a block.",
  "every line of these forms and near to them, in any context",
  "Near misses are endless; recognition depends on the line before.",
  ["blocks/break.rs", "blocks/media.rs", "blocks/block.rs"],
  [("breaks", "parser/src/blocks/break.rs"), ("block macros", "parser/src/blocks/media.rs")],
  "generated blocks with known kind, target and attributes as reference model",
  EXPL + "lines of each form and near misses, nested in delimited blocks and sections.",
  observe=["Break", "MediaBlock"])

P("C38", "The ASG schema accepts exactly the graphs it describes and fills in defaults",
  "A graph of any nesting built from the blocks, inlines, metadata and locations that the ASG schema describes is accepted, one with a missing, unknown or ill-typed property, a value out of range or a node of a kind that may not stand there is refused. What may be left out in an accepted graph (blocks, inlines, a metadata's attributes, options and roles) is there afterwards, empty and belonging to that node alone; nothing else changes. validate-asg reports the same verdict and graph, and takes a list of inlines for a document of one paragraph.",
  "every graph, valid or with any one thing wrong, in any order of documents",
  "The fixtures are three documents; every keyword of the schema matters only for particular graphs.",
  ["asg/schema.json", "asg/schema.js", "asg/lib/ajv-keyword-defaults.js", "asg/bin/validate-asg.js"],
  [("schema", "asg/schema.json"), ("defaults keyword", "asg/lib/ajv-keyword-defaults.js"), ("command line tool", "asg/bin/validate-asg.js")],
  "generated graphs with known verdict and defaults as reference model",
  EXPL + "graphs nested to depth 4, one thing wrong at a time; the tool itself runs for a sample of them.",
  observe=["validate() of the compiled schema", "stdout of validate-asg"])

P("C39", "Every way of asking about a parsed element gives the same answer",
  "A `Block` answers every question as the block inside it does (IDs of sections aside: C14). What is documented to derive from something else does: the resolved context from style and context, style, ID, roles and options from anchor and attribute list, has_option from options, rendered content from the content, the nth and the named attribute from the list. Title and its source come together; the content model fits the kind. The catalog gives the same by ID, by reference text and by size. A document is a compound block with its blocks and nothing else. A section number is shown as its components. A parser's three questions about an attribute agree. Clones and documents of the same text are equal and have the same debug output; documents of different texts are not equal.",
  "every text, with every configuration, and every element of what was parsed",
  "Each kind of block forwards some twenty questions by hand, in two layers; tests ask each kind for few of them.",
  ["blocks/block.rs", "blocks/is_block.rs", "attributes/attrlist.rs", "attributes/element_attribute.rs", "document/catalog.rs", "document/document.rs"],
  [("forwarding", "parser/src/blocks/block.rs"), ("derived answers", "parser/src/blocks/is_block.rs")],
  "all answers of each parsed element recorded and cross-checked",
  EXPL + "hostile texts and constructed documents.",
  observe=["IsBlock", "Attrlist", "Catalog", "Parser::attribute_value"])
