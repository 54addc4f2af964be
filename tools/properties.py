import json
def P(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
T="The 5 unit tests parse a handful of fixed documents; "
out=[
P("C01","No call panics, overflows, exhausts memory or fails to end",
"Whatever bytes are read and whatever events are emitted, every scanning, parsing, loading, emitting and dumping call returns a value or an error in finite time; it never panics, indexes out of bounds, overflows an integer or loops forever. This also holds for calls made after an earlier call returned an error, and for readers and writers that fail, deliver short pieces or are interrupted.",
["inputs","histories","fault_sequences"],"all byte inputs below 1 GiB in any of the encodings, all event sequences and settings, all sequences of calls, all reader/writer behaviours allowed by Read/BufRead/Write",
T+"panics in this code base have come from inputs that end in the middle of a construct, which no fixed document reaches.",
["src/reader.rs","src/scanner.rs","src/parser.rs","src/document.rs","src/emitter.rs","src/macros.rs","src/lib.rs","src/event.rs","src/error.rs"],
[("look-ahead buffer filled before it is indexed","src/scanner.rs cache"),("reader loops that consume at least one unit","src/reader.rs"),("state machine with an explicit end state","src/parser.rs state_machine, src/emitter.rs state_machine")],
["Scanner::scan / Iterator","Parser::parse","Document::load","Emitter::emit","Document::dump"]),
P("C02","Input decoding delivers exactly the characters the bytes encode",
"For UTF-8, UTF-16LE and UTF-16BE input, with the encoding detected from a byte order mark (UTF-8 when there is none) or fixed by the caller, the characters scanned are exactly those the bytes encode, without the leading byte order mark and independent of how the reader splits the bytes into pieces or interrupts. The first malformed sequence or character outside the YAML printable set ends the input with a reader error after exactly the preceding characters, and an error of the reader itself is reported as such.",
["inputs","fault_sequences"],"all byte sequences, encodings and partitions of the input into reads, including interrupted and failing reads",
T+"all are UTF-8 slices delivered in one piece, so no split character, surrogate pair, malformed sequence or byte order mark is met.",
["src/reader.rs","src/scanner.rs"],
[("encoding detection","src/reader.rs yaml_parser_determine_encoding"),("incremental decoding across buffer boundaries","src/reader.rs read_utf8_buffered, read_utf16_buffered"),("allowed-character check","src/reader.rs push_char")],
["Scanner tokens","Error kind and offset"],[("buffer","decoded characters that are not yet consumed","src/scanner.rs Scanner::buffer"),("offset","bytes consumed","src/scanner.rs Scanner::offset")]),
P("C03","Every mark is the exact position in the input",
"Each token and event carries a start and an end mark whose index is the number of bytes that the characters before it take in UTF-8, whose line is the number of line breaks before it and whose column is the number of characters since the last line break (a carriage return followed by a line feed is one line break). Marks never run backwards, start is not after end, and the text between them is the text of the token.",
["inputs"],"all inputs, tokens and events",
T+"one of them checks the marks of one short document.",
["src/scanner.rs","src/reader.rs","src/parser.rs"],
[("position kept in step with consumption","src/scanner.rs skip_char, skip_line_break, read_char, read_line_break"),("marks of composed events","src/parser.rs parse_node")],
["Token marks","Event marks","Error marks"],[("mark","current position","src/scanner.rs Scanner::mark")]),
P("C04","The token stream is well bracketed and ends once",
"For every input the scanner yields one stream-start token first and, unless an error is reported, exactly one stream-end token last. Outside of flow collections, every block collection start stands at a column deeper than the block collections around it and is closed by exactly one block end before the document or the stream ends. The token of an implicit key stands directly before its content, at the same mark, in the same line as its value token and at most 1024 bytes before it.",
["inputs"],"all inputs",
T+"they compare no token stream.",
["src/scanner.rs","src/token.rs"],
[("indentation stack","src/scanner.rs roll_indent, unroll_indent"),("simple keys and token insertion","src/scanner.rs save_simple_key, stale_simple_keys, fetch_value"),("flow level","src/scanner.rs increase_flow_level, decrease_flow_level")],
["Scanner::scan","Scanner iterator"],[("indents","open block collections","src/scanner.rs"),("simple_keys","places where a key may have begun, one for each flow level","src/scanner.rs")]),
P("C05","Events form a well-formed stream and follow the tokens",
"For every input the parser yields events of the grammar stream-start, (document-start, one node, document-end)*, stream-end, where a sequence holds nodes, a mapping holds pairs of nodes and a node is an alias, a scalar or a collection; an error may cut the stream short, after which no further events come. Scalars, aliases, anchors, tags and collections appear in the order, number and nesting of their tokens, and empty scalars stand exactly where a key, a value or a content is left out.",
["inputs"],"all inputs",
T+"they check the events of a few well-formed documents.",
["src/parser.rs","src/event.rs","src/lib.rs"],
[("state stack","src/parser.rs state_machine"),("empty scalars","src/parser.rs process_empty_scalar")],
["Parser::parse","Parser iterator"],[("states","what to return to when the current node is complete","src/parser.rs Parser::states")]),
P("C06","A loaded document is the tree that its events describe",
"Loading yields one document for each document in the stream, whose nodes, in the order of the events, have the kind, value, style, tag (or the default tag of their kind), marks, items and pairs of the events, with the root first. The document's version directive, tag directives, implicit flags and marks are those of its events, and after the last document loading yields an empty document.",
["inputs","histories"],"all inputs, and loading repeatedly from one parser",
T+"none of them loads a document.",
["src/document.rs"],
[("stack of open collections","src/document.rs load_nodes, load_node_add"),("default tags","src/document.rs load_scalar, load_sequence, load_mapping")],
["Document::load","Document nodes"]),
P("C07","Aliases resolve to the latest earlier anchor of their document",
"When loading, an alias stands for the very node that carries the anchor of the same name earlier in the same document. An alias without such a node and an anchor defined twice are errors that name the place of the problem and, for a duplicate, of the first definition; anchors of earlier documents are forgotten.",
["inputs"],"all inputs with any number of anchors, aliases and documents",
T+"none of them contains an alias.",
["src/document.rs","src/scanner.rs","src/parser.rs"],
[("anchor table","src/document.rs register_anchor, load_alias"),("anchor and alias scanning","src/scanner.rs scan_anchor")],
["Document::load","Event::Alias and anchors"],[("aliases","anchors of the current document","src/parser.rs Parser::aliases")]),
P("C08","The emitter accepts exactly the well-formed event sequences",
"The emitter accepts every event sequence that follows the event grammar and whose anchors, tags and directives are valid. The first event that does not fit is rejected with an emitter error that names the problem, at the latest when the up to three events have been given that it has to look ahead to. Scalars with neither a tag nor an implicit flag, empty or non-alphanumeric anchors, empty tags that are to be written, duplicate or malformed tag directives and versions other than 1.1 and 1.2 are such events.",
["histories"],"all event sequences and settings",
T+"none of them emits an invalid sequence.",
["src/emitter.rs"],
[("state machine","src/emitter.rs state_machine"),("validation of directives, tags and anchors","src/emitter.rs analyze_version_directive, analyze_tag_directive, analyze_anchor, analyze_tag")],
["Emitter::emit"],[("state","what is expected next","src/emitter.rs Emitter::state")]),
P("C09","The scalar style used is the requested one whenever it is valid",
"A scalar is written in the requested style whenever that style can represent its value in its place with the current settings, and otherwise in the style that the rules of fallback give: plain gives way to single-quoted and single-quoted or block styles give way to double-quoted. Read back, an untagged scalar is plain-implicit or quoted-implicit as it was given.",
["inputs","configurations"],"all scalar values, places (key, value, item, flow, root), requested styles and settings",
T+"none of them emits.",
["src/emitter.rs","src/macros.rs"],
[("analysis of the value","src/emitter.rs analyze_scalar"),("choice of style","src/emitter.rs select_scalar_style")],
["Emitter output read by Parser"]),
P("C10","What is emitted parses back to the same events",
"For every accepted event sequence and all settings of indentation, width, line break, canonical form, unicode and encoding, parsing the output yields the same events: the same structure, scalar values, anchors, aliases, resolved tags and directives. Only styles, markers that may be implicit, and tags that are implied may differ.",
["inputs","configurations"],"all event sequences accepted, all scalar values and all emitter settings",
T+"none of them emits.",
["src/emitter.rs","src/macros.rs","src/parser.rs","src/scanner.rs"],
[("scalar writers","src/emitter.rs write_plain_scalar, write_single_quoted_scalar, write_double_quoted_scalar, write_literal_scalar, write_folded_scalar"),("scalar analysis","src/emitter.rs analyze_scalar"),("simple key check","src/emitter.rs check_simple_key")],
["Emitter output read by Parser"]),
P("C11","All output is delivered in order, in the encoding asked for",
"The bytes delivered to the writer, however short its writes are, are exactly the encoding of the emitted text in the requested encoding (with a byte order mark for UTF-16), delivered in order, once, and completely by the end of the stream or a flush. If the writer fails its error is returned and what was delivered until then is a prefix of the whole output.",
["inputs","fault_sequences"],"all event sequences, encodings and writer behaviours (short writes, interruptions, failure after any number of bytes)",
T+"none of them writes.",
["src/emitter.rs"],
[("flush and encoding","src/emitter.rs flush"),("buffering","src/emitter.rs write_char, put, flush_if_needed")],
["the Write given to the emitter"],[("buffer","text not yet delivered","src/emitter.rs Emitter::buffer")]),
P("C12","Tags resolve through the directives and escapes of their document",
"A tag written with a handle is the prefix that the document's directives (or the two defaults) give for the handle followed by its suffix; a verbatim tag is its own text, the non-specific tag is '!', and percent escapes stand for the character whose UTF-8 form they spell. An undeclared handle or a malformed escape is an error.",
["inputs"],"all tags, handles, escapes and directives",
T+"none of them has a tag directive or an escape.",
["src/scanner.rs","src/parser.rs","src/emitter.rs"],
[("tag scanning","src/scanner.rs scan_tag, scan_tag_handle, scan_tag_uri, scan_uri_escapes"),("resolution","src/parser.rs parse_node, process_directives")],
["Event tags"],[("tag_directives","directives in force","src/parser.rs Parser::tag_directives")]),
P("C13","Version and tag directives are read exactly and checked",
"A %YAML directive gives exactly the numbers written, and a %TAG directive exactly the handle and prefix written, and both appear on the start of their document. A second version directive, a version other than 1.1 or 1.2, a handle declared twice, a directive of any other name and a directive that no document start follows are errors, and no directive outlives its document.",
["inputs"],"all directive lines",
T+"at most one document with one directive is met.",
["src/scanner.rs","src/parser.rs"],
[("directive scanning","src/scanner.rs scan_directive, scan_version_directive_value, scan_tag_directive_value"),("checks","src/parser.rs process_directives, append_tag_directive")],
["Event::DocumentStart"]),
P("C14","A reset parser, scanner or emitter behaves like a new one",
"After a reset at any point, also in the middle of a document or after an error, and a new input or output, every result is the same as with a newly created object; nothing of the earlier input, output or settings has an effect.",
["histories"],"all pairs of inputs or event sequences, and all points at which the reset is made",
T+"none of them resets.",
["src/scanner.rs","src/parser.rs","src/emitter.rs"],
[("reset","src/scanner.rs reset, src/parser.rs reset, src/emitter.rs reset")],
["results after reset"]),
P("C15","Emitter settings shape the output as documented",
"Canonical, unicode, indentation, width and line-break settings shape the output: line breaks are the chosen ones; nested blocks are indented by the chosen number of columns (2 when it is outside 2 to 9); characters outside ASCII are escaped unless unicode is allowed; words are folded only beyond the chosen width (80 when it is not larger than twice the indentation, never when negative); canonical output uses only explicit flow collections and double-quoted scalars.",
["configurations","inputs"],"all settings and event sequences",
T+"none of them emits.",
["src/emitter.rs"],
[("normalisation of the settings","src/emitter.rs emit_stream_start"),("indentation and folding","src/emitter.rs write_indent, increase_indent, write_* scalars")],
["Emitter output"]),
P("C16","Errors have the kind and the place of the problem",
"Every failure is reported with the kind of the stage that failed (reader, scanner, parser, composer, emitter, writer, or I/O), and for input errors with a mark or byte offset that lies at the problem within the input consumed. The context of an error, where there is one, lies before the problem, and the displayed message names the problem, the context and the place.",
["inputs"],"all failing inputs",
T+"two of them display one error each.",
["src/error.rs","src/reader.rs","src/scanner.rs","src/parser.rs","src/document.rs"],
[("error constructors","src/error.rs"),("context and problem marks","src/scanner.rs set_scanner_error, src/parser.rs set_parser_error_context")],
["Error"]),
P("C17","Building a document keeps every node and link as added",
"Each node added to a document gets the next index, keeps the value, tag (or the default tag) and style it was added with, and is found under that index; the first one is the root. Appending items and pairs adds exactly these links in order to that node and changes nothing else, and an index without a node yields no node.",
["histories"],"all sequences of additions and appends, and all indices",
T+"none of them builds a document.",
["src/document.rs"],
[("node table","src/document.rs add_scalar, add_sequence, add_mapping, append_sequence_item, yaml_document_append_mapping_pair, get_node")],
["Document API"]),
P("C18","A dumped document loads back to the same graph",
"Dumping a document and loading the output yields the same graph of nodes: the same kinds, values, tags, items and pairs, with nodes that are reached more than once, also in a cycle, shared again through an anchor and aliases, and with each anchor defined once. Documents dumped one after the other load back one after the other.",
["inputs","histories"],"all documents with at least one node whose nodes are reachable, any sharing, all emitter settings",
T+"none of them dumps.",
["src/document.rs","src/emitter.rs"],
[("anchors for shared nodes","src/document.rs anchor_node, dump_node, dump_alias")],
["Document::dump and Document::load"]),
P("C19","Scalars have exactly the value that their written form stands for",
"The value of a plain, single-quoted, double-quoted, literal or folded scalar is exactly what the YAML rules give for its text: line folding, stripping and keeping of breaks, indentation, doubled quotes and all escape sequences.",
["inputs"],"all scalar texts in every style and place",
T+"none of them contains a folded line or an escape beyond one.",
["src/scanner.rs","src/reader.rs"],
[("scalar scanning","src/scanner.rs scan_plain_scalar, scan_flow_scalar, scan_block_scalar, scan_block_scalar_breaks")],
["Scalar token and event values"]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in out: f.write(json.dumps(p)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in out: jsonschema.validate(p,sch)
