#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
C='src/main/c/'
P=C+'parts/'
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    return {"id":id,"title":title,"statement":statement,
            "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
L=[]
L.append(p("C01","Pretty-printed XMQ reads back as the same document",
 "Printing any document as XMQ with the default settings gives text that the XMQ parser accepts and that reads back as the same tree: same elements, namespaces, attributes (names, order, values, absent value), text, character and named entities, comments, processing instructions and doctype. Character references may come back as references or as the characters they denote, but never as anything else.",
 ["inputs"],"all documents obtainable by reading XML (whitespace kept) or XMQ, with any text content",
 "the repository samples about 60 fixed documents; quoting, indentation and comment escaping depend on unbounded combinations of characters, newlines, quotes, depth and siblings",
 [P+"xmq_printer.c",P+"xmq_parser.c",P+"xmq_internals.c",C+"xmq.c",P+"xml.c",P+"text.c"],
 [("quote length selection and splitting into compound values",P+"xmq_printer.c print_safe_leaf_quote/print_quote_lines_and_color_uwhitespace/print_value"),
  ("attribute and child printing",P+"xmq_printer.c print_element_with_children/print_attributes"),
  ("unquoting and trimming on read back",C+"xmq.c xmq_un_quote/xmq_trim_quote")],
 ["xmqParseBuffer","xmqPrint to memory"]))
L.append(p("C02","Compact XMQ is one line and reads back as the same document",
 "Printing any document as compact XMQ gives text without any newline or carriage return byte, which the XMQ parser accepts and reads back as the same tree (including comments, processing instructions and doctype).",
 ["inputs"],"all documents obtainable by reading XML (whitespace kept) or XMQ",
 "tests compact a few documents; comments with slashes and stars, quotes next to newlines and token gluing need generated neighbours",
 [P+"xmq_printer.c",C+"xmq.c",P+"xmq_parser.c"],
 [("token separation in compact mode",P+"xmq_printer.c check_space_before_*"),
  ("newline escaping through char entities and */* comment continuation",P+"xmq_printer.c print_comment_node, print_quotes")],
 ["xmqSetCompact + xmqPrint"]))
L.append(p("C03","Output settings change layout only, and escapes are honoured",
 "For every combination of indent width, compact, escape-newlines, escape-tabs and escape-non-7bit, the printed XMQ reads back as the same content. With escape-non-7bit the output is pure ASCII apart from names, with escape-tabs no tab from content appears, and with escape-newlines no quoted value spans lines.",
 ["inputs","configurations"],"all documents crossed with all combinations of the XMQ output settings",
 "tests use each setting alone on one or two documents",
 [P+"xmq_printer.c",C+"xmq.c"],
 [("count_necessary escapes and entity output",P+"xmq_printer.c print_char_entity/print_quotes"),("settings",C+"xmq.c xmqSetEscape*/xmqSetAddIndent")],
 ["xmqSet* + xmqPrint"]))
L.append(p("C04","Printing is a fixed point",
 "Reading back printed XMQ and printing it again with the same settings reproduces the text byte for byte, for pretty and compact output and every indent width.",
 ["inputs","configurations"],"all documents crossed with all XMQ output settings",
 "the tests compare single outputs; a fixed point is a relation over all documents",
 [P+"xmq_printer.c",C+"xmq.c",P+"xmq_parser.c"],
 [("layout decisions depend only on the document",P+"xmq_printer.c")],["xmqPrint"]))
L.append(p("C05","XML survives the trip through XMQ",
 "Any well-formed XML document read with whitespace kept, printed as XMQ (pretty or compact), read back and printed as XML parses to the same information set as the original: elements, namespaces, attributes, text, CDATA as text, comments (including double dashes), processing instructions and doctype.",
 ["inputs"],"all well-formed XML documents",
 "the tests hold some tens of XML files",
 [C+"xmq.c",P+"xml.c",P+"xmq_printer.c",P+"xmq_internals.c"],
 [("XML load and fixup","xmq.c xmq_parse_buffer_xml, xmq_fixup_*"),("XML print","xmq.c xmq_print_xml"),("comment dash escaping",C+"xmq.c fixup_comments")],
 ["xmq CLI and xmqParseBufferWithType/xmqPrint, compared with libxml2 on the original"]))
L.append(p("C06","Every spelling of the same XMQ content parses to the same tree",
 "An XMQ text parses to exactly the tree its tokens spell: separating whitespace, comments style, the number of quotes used, quoted versus unquoted values, compound values, key=value versus braces, and entity spelling do not change the result. Multiple roots, implicit roots and merging of adjacent text follow the documented rules.",
 ["inputs"],"all XMQ texts generated from the grammar in doc/xmq.tex, in every legal spelling",
 "tests sample one spelling per feature",
 [P+"xmq_parser.c",P+"xmq_internals.c",C+"xmq.c"],
 [("recursive descent parser",P+"xmq_parser.c parse_xmq*"),("DOM callbacks",C+"xmq.c do_*")],["xmqParseBuffer"]))
L.append(p("C07","Incidental indentation is removed by the documented rules",
 "A multi-line quote denotes the text given by the documented rules: surrounding blank lines lose exactly one newline each, spaces before newlines go, and the least source indentation of the non-empty lines (counting the first line at its own column) is removed from all. Moving such a quote, with its lines, to another column never changes its value.",
 ["inputs"],"all multi-line quotes at every column, in every value and text position",
 "the rule depends on column, line lengths and blank lines; tests hold about ten quotes",
 [C+"xmq.c",P+"xmq_parser.c"],[("xmq_trim_quote/xmq_un_quote",C+"xmq.c"),("start column tracking",P+"xmq_parser.c eat_xmq_quote")],["xmqParseBuffer"]))
L.append(p("C08","Malformed XMQ is rejected with an error at the right place",
 "Text that breaks the XMQ grammar (unclosed brace, parenthesis, quote or comment, stray closer, missing value, illegal name or entity, tab as separator, text outside quotes) is rejected: the parse returns false, an error number and a non-empty message are available, and the line and column in the message are those of the damaged token (for an unclosed body, the last brace opened and not closed). Cutting a valid document anywhere never crashes and never yields a document with content the text did not spell.",
 ["inputs"],"all single faults injected at every place of generated valid XMQ texts",
 "16 error tests against an unbounded set of places",
 [P+"xmq_parser.c",P+"xmq_internals.c",C+"xmq.c"],[("parse errors and line/col",P+"xmq_internals.c generate_state_error_message"),("increment",P+"xmq_internals.c increment")],["xmqParseBuffer, xmqDocErrno, xmqDocError"]))
L.append(p("C09","Tokenising reproduces the source, with the right classes",
 "Tokenising any valid XMQ text yields its tokens in order, each with its right class and exact bytes, so that joining them (with the whitespace in between) reproduces the source byte for byte. Colouring a source for terminal or html and removing the markup gives the same text.",
 ["inputs"],"all valid XMQ texts in every spelling",
 "tests tokenise a few fixed files",
 [P+"xmq_parser.c",C+"xmq.c",P+"xmq_internals.c",P+"colors.c"],[("token callbacks",C+"xmq.c debug_token_*, colorize_*")],["xmqTokenizeBuffer","xmq tokenize"]))
L.append(p("C10","No input makes the XMQ reader or the printers misbehave",
 "For any bytes given as XMQ (nested at most as deep as the parser allows, deeper is rejected) the library terminates without crash, abort, memory error or undefined behaviour, and either rejects the text with an error or yields a document that every output format and every render format can print, also without misbehaving.",
 ["inputs","configurations"],"all byte strings, any output settings",
 "memory safety over all inputs cannot be sampled by fixed files",
 [P+"xmq_parser.c",C+"xmq.c",P+"xmq_printer.c",P+"json.c",P+"xmq_internals.c",P+"text.c"],
 [("bounds in the scanner",P+"xmq_parser.c eat_*"),("UTF-8 decoding",P+"text.c peek_utf8_char/decode_utf8")],["xmqParseBufferWithType","xmqPrint"]))
L.append(p("C11","No JSON, XML, HTML, IXML or text input makes the library misbehave",
 "For any bytes given as JSON, XML, HTML, an IXML grammar, IXML input, or with content detection, the library terminates without crash, abort, process exit, memory error or undefined behaviour, and either rejects the input with an error or yields a printable document.",
 ["inputs"],"all byte strings for each reader",
 "memory safety over all inputs cannot be sampled by fixed files",
 [P+"json.c",P+"ixml.c",P+"yaep.c",C+"xmq.c",P+"xml.c"],[("error returns instead of asserts",P+"json.c parse_json_*"),("ixml grammar errors",P+"ixml.c")],["xmqParseBufferWithType","xmqParseBufferWithIXML"]))
L.append(p("C12","JSON in, JSON out: same value",
 "Any valid JSON value read by xmq (without forced whitespace trimming) and printed as JSON is valid JSON denoting the same value: same types, strings character for character, number spelling, array order, member names and order. The same holds after a detour through XMQ text, pretty or compact. Member names that xmq reserves for its own conventions (starting with _ or equal to |, //, &, !DOCTYPE, ending in [n], or repeated in one object) are left out.",
 ["inputs"],"all JSON texts with unique member names outside the reserved ones",
 "about twenty JSON files in the tests",
 [P+"json.c",C+"xmq.c"],[("A/S/_ conventions",P+"json.c parse_json_*/json_print_*"),("escapes",P+"json.c parse_json_quote/json_quote")],["xmqParseBufferWithType JSON","to-json"]))
L.append(p("C13","Every document prints as valid JSON",
 "Printing any document, however it was loaded, as JSON gives text that a strict RFC 8259 parser accepts, whose strings and keys hold the text, names and attributes of the document. Reading that JSON and printing it again gives the same JSON (for documents without processing instructions and namespaces, for which the JSON mapping has no inverse), and every element and attribute read back has the namespace, local name and value it had.",
 ["inputs"],"all documents obtainable from XMQ or XML",
 "tests convert a handful of documents",
 [P+"json.c",C+"xmq.c"],[("xmq_print_json and json_print_*",P+"json.c")],["to-json"]))
L.append(p("C14","Content detection is right and equals the forced type",
 "Without a given type, xmq recognises XMQ (HTMQ has the same syntax and is recognised as XMQ), XML, HTML and JSON sources, also behind leading whitespace, comments, prologs or a byte order mark, and produces the same document as when the type is given. A source whose detected type contradicts the requested one is rejected, not misread (XML may be forced to be read as HTML, and XMQ as HTMQ).",
 ["inputs","configurations"],"all valid sources of each type, with any legal prefix",
 "tests detect a few files",
 [C+"xmq.c"],[("xmqDetectContentType",C+"xmq.c"),("mismatch errors",C+"xmq.c xmqParseBufferWithType")],["xmqParseBufferWithType DETECT"]))
L.append(p("C15","HTML survives the trip through HTMQ",
 "Any HTML document whose tree libxml2 can write and read back unchanged gives the same tree after being read by xmq with whitespace kept, printed as HTMQ (pretty or compact), read back and printed as HTML.",
 ["inputs"],"all HTML documents stable under the HTML serializer",
 "few HTML files in tests",
 [C+"xmq.c",P+"xmq_printer.c"],[("HTML load/print",C+"xmq.c xmq_parse_buffer_html/xmq_print_html")],["to-htmq","to-html"]))
L.append(p("C16","Heuristic trimming only removes insignificant whitespace",
 "Reading XML with the default heuristic trimming differs from reading it untrimmed only in whitespace inside text: removing all whitespace from both gives equal trees, whitespace-only text between elements disappears, words inside a text are never glued together or dropped, attributes and single-line text without surrounding spaces are untouched, and a multi-line text or comment becomes what the rule for multi-line quotes gives, its first line taken to be indented as its second. Trimming a document that was read untrimmed (xmqTrimWhitespace) gives the same as reading it trimmed.",
 ["inputs"],"all XML documents",
 "trimming decisions depend on neighbours, newlines and indentation",
 [C+"xmq.c",P+"xml.c"],[("xmqTrimWhitespace and trim_text_node",C+"xmq.c")],["xmqParseBufferWithType XML","xmqTrimWhitespace"]))
L.append(p("C17","Rendering adds markup and nothing else",
 "Rendering a document for terminal, html or tex, coloured or not, in any theme, is the plain XMQ print of the document with markup added: removing escape sequences, or tags and decoding html entities, gives back exactly the plain text, and html output is well formed with all content escaped.",
 ["inputs","configurations"],"all documents crossed with render format, theme, background and layout settings",
 "tests hold three rendered documents",
 [P+"xmq_printer.c",P+"colors.c",P+"default_themes.c",C+"xmq.c"],[("print_utf8 with colour pre/post",P+"xmq_printer.c"),("themes",P+"default_themes.c")],["render-terminal/html/tex"]))
L.append(p("C18","Typed queries agree with the document",
 "The query functions return, for every path and document, what the path selects: iteration visits each match once in order and stops when told, text lookups give the text of the match, and integer, long and double lookups give the number written there when it is a decimal, 0x or 0-prefixed octal number (or a decimal fraction, for double) in range; when nothing is selected the lookups give 0 or no string. Lookups relative to a node select from that node.",
 ["inputs","histories"],"all documents, paths and numeric spellings",
 "one example program in tests",
 [C+"xmq.c"],[("xmqForeach*/xmqGet*",C+"xmq.c")],["xmqForeach, xmqGetInt, xmqGetLong, xmqGetDouble, xmqGetString and Rel variants"]))
L.append(p("C19","Editing commands change exactly what was selected",
 "For any document and any sequence of delete, select, add and add-root commands, the result equals applying the same edits to an independent copy of the document: delete removes all and only the matched nodes, select keeps exactly them as top-level results in document order (a match inside another match becomes a result of its own, a matched attribute stands for its element), and nothing else changes.",
 ["inputs","histories"],"all documents, xpaths and command sequences",
 "five command tests",
 [C+"xmq-cli.c"],[("cmd_delete/cmd_select/cmd_add/cmd_add_root",C+"xmq-cli.c")],["xmq CLI"]))
L.append(p("C20","Entity commands change exactly the named entities",
 "delete-entity, replace-entity, substitute-entity and substitute-char-entities change every reference of the given name and no other node, wherever it stands in element content or attribute values; replaced text is data, never markup. Substituting turns numeric and predefined references, and declared entities that are plain text, into their characters.",
 ["inputs","histories"],"all documents with entities and all replacement texts",
 "few command tests",
 [C+"xmq-cli.c"],[("replace_entity/delete_all_entities/substitute_entity",C+"xmq-cli.c")],["xmq CLI"]))
L.append(p("C21","Where the input comes from and where output goes does not matter",
 "A file (read by the tool or by the library), standard input, a command line argument and a memory buffer with the same bytes give the same result, at any size; saving to a file writes what print writes; verbose, debug and trace logging never change standard output; exit status is zero exactly when all commands succeeded, and output that cannot be written is a failure.",
 ["inputs","configurations"],"all inputs and sizes, all log levels",
 "tests use small files",
 [C+"xmq-cli.c",C+"xmq.c",P+"membuffer.c"],[("load_file/load_stdin",C+"xmq.c"),("cmd_output",C+"xmq-cli.c")],["xmq CLI"]))
L.append(p("C22","Text output is the text, clines output locates it",
 "to-text prints exactly the character content of the document in document order with entities decoded, and nothing of its markup. to-clines prints one line for every attribute, text, entity and empty element, in document order, giving its path and its value as a C string.",
 ["inputs"],"all documents",
 "few tests",
 [C+"xmq.c",P+"text.c"],[("xmq_print_text/xmq_print_clines",C+"xmq.c")],["to-text","to-clines"]))
L.append(p("C23","Any string can be carried as a one-line XMQ value",
 "Compact-quoting any text, and building a log line from any keys and printf-formatted values, gives one line of valid XMQ whose value is exactly the original text, whatever its length, quotes, newlines, tabs or non-ASCII characters. A document printed as a line is one line of valid XMQ with the same content, and the human readable form of a log line is the name and the formatted values.",
 ["inputs"],"all strings and lengths",
 "few fixed strings tested",
 [C+"xmq.c",P+"xmq_printer.c",P+"membuffer.c"],[("xmqCompactQuote/xmqLinePrintf",C+"xmq.c")],["xmqCompactQuote","xmqLinePrintf"]))
L.append(p("C24","An IXML grammar accepts exactly its language",
 "Parsing an input with an IXML grammar succeeds exactly when the grammar derives the input, for every combination of sequences, alternatives, groups, options, repetitions with and without separators, literals, character sets, insertions and (mutually) recursive or empty rules. A grammar in which something can derive just itself (as in A: A; or in a repetition of something that can be empty) is rejected with an error.",
 ["inputs","programs"],"all grammars over a small alphabet and all short inputs, derivable or not",
 "58 fixed grammar/input pairs",
 [P+"ixml.c",C+"yaep/src/yaep.c",C+"xmq.c"],[("translation of ixml to yaep rules",P+"ixml.c make_last_term_*"),("Earley parser",C+"yaep/src/yaep.c")],["xmqParseBufferWithIXML"]))
L.append(p("C25","IXML output trees follow the grammar and its marks",
 "The tree produced for an input is the serialisation of a derivation of that input: rule names as elements, @ as attributes, - as nothing, deleted terminals absent, insertions present, all other characters in order. For unambiguous inputs it is exactly that tree. When all parses are asked for, the AMBIGUOUS elements of the result stand for exactly the trees of all derivations. Using a grammar again gives the same as using it for the first time, and the command line tool gives the same as the library.",
 ["inputs","programs"],"all grammars with marks and derivable inputs",
 "58 fixed grammar/input pairs",
 [C+"xmq.c",P+"ixml.c",C+"yaep/src/yaep.c"],[("generate_dom_from_yaep_node",C+"xmq.c")],["xmqParseBufferWithIXML"]))
L.append(p("C26","IXML character classes match exactly their characters",
 "A character set in a grammar (literals, ranges, hex characters, Unicode categories, and their negation) matches exactly the characters that the set denotes, across all of Unicode. (Unicode 17; characters whose category differs between recent versions of Unicode are left out.)",
 ["inputs","programs"],"all character sets and all Unicode code points that XML allows",
 "a few categories tested with a few characters",
 [P+"ixml.c",P+"utf8.c"],[("scan_content_fixup_charsets",P+"ixml.c"),("category tables",P+"utf8.c")],["xmqParseBufferWithIXML"]))
L.append(p("C27","Transforms and validation give what libxslt and libxml2 give",
 "Transforming a document with a stylesheet, written as XML or as XMQ, given any parameters, including or importing other stylesheets and referring to other documents in either format, yields the result of libxslt on the corresponding XML; validation against a schema succeeds exactly when libxml2 says the XML is valid.",
 ["inputs","programs"],"generated documents, stylesheets, parameters and schemas",
 "18 fixed files",
 [C+"xmq-cli.c",C+"xmq.c"],[("cmd_transform/cmd_validate",C+"xmq-cli.c")],["xmq CLI"]))
L.append(p("C28","for-each hands the selected content to the shell unchanged",
 "for-each runs the command once for every match in document order, and each ${name}, ${.} and ${..} in it expands to the exact text, whatever characters it contains, without the shell interpreting it.",
 ["inputs"],"all documents, names and texts",
 "three tests with plain words",
 [C+"xmq-cli.c"],[("invoke_shell/grab_content",C+"xmq-cli.c")],["xmq CLI for-each"]))
L.append(p("C29","Statistics count the document",
 "The statistics command reports exactly the number and byte sizes of elements, names, attributes, text nodes, comments, and the source size.",
 ["inputs"],"all documents",
 "two fixed files",
 [C+"xmq-cli.c"],[("count_statistics",C+"xmq-cli.c")],["xmq CLI statistics"]))
L.append(p("C30","quote-c and unquote-c are inverse",
 "For any text, quote-c produces a printable C string literal that denotes the text, and unquote-c turns it back into exactly the text.",
 ["inputs"],"all texts",
 "not tested beyond a sample",
 [P+"text.c",C+"xmq-cli.c"],[("xmq_quote_as_c/xmq_unquote_as_c",P+"text.c")],["xmq CLI quote-c/unquote-c"]))
L.append(p("C31","Printing is a function of the document and the settings",
 "Printing never changes the document: whatever was printed before, in whatever format, the document keeps its content, and a print gives the bytes that a freshly read copy would give with the same settings. It does not matter whether the settings object was used for earlier prints or other documents, nor whether the output goes to memory, through writer callbacks or to standard output.",
 ["inputs","histories","configurations"],"all documents crossed with all sequences of prints in all formats and settings",
 "tests print each document once per process",
 [C+"xmq.c",P+"xmq_printer.c",P+"json.c",P+"xml.c"],[("xmqPrint and the per-format printers",C+"xmq.c xmq_print_xmq/xmq_print_xml/xmq_print_html/xmq_print_json"),("output settings and writers",C+"xmq.c xmqSetupPrintMemory/xmqSetWriterContent/xmqSetupPrintStdOutStdErr")],["xmqPrint","xmqForeach after printing"]))
L.append(p("C32","Command line options mean what the library settings mean",
 "For every document and every combination of load, output and render options of the command line tool, in any order, given once or repeated (the last value counts), printed or saved to a file, the output is the bytes the library gives with the corresponding flags and settings; XMQ_THEME selects the background; render --onlystyle prints exactly the style part of the full rendering; tokenize of a file, standard input or argument gives the library's tokens; --verbose, --debug and --trace change neither output nor exit status, and with --log-xmq every line logged is valid XMQ.",
 ["inputs","configurations"],"all documents and all option combinations",
 "tests use a few dozen fixed command lines",
 [C+"xmq-cli.c",C+"xmq.c"],[("parse_cmd_line/handle_global_option/handle_option",C+"xmq-cli.c"),("cmd_to/cmd_print/cmd_tokenize",C+"xmq-cli.c")],["xmq CLI"]))
L.append(p("C33","Broken JSON is rejected where it breaks",
 "A text given as JSON is accepted exactly when it is JSON (a comma before a closing bracket, raw control characters in strings, a leading byte order mark and non-ASCII spaces between tokens are tolerated, \\u0000 and lone surrogates are not). When it is rejected there is an error number and a message, whose line and column are those of the first token that cannot be there (a string or number that is broken is reported at its start, a missing rest at the end).",
 ["inputs"],"all texts",
 "tests hold a few broken samples",
 [P+"json.c"],[("parse_json and eat_json_*",P+"json.c")],["xmqParseBufferWithType JSON","--json"]))
L.append(p("C34","Everything is given back",
 "Whatever was allocated for a document, a parse, a print, a tokenisation, a log line or an IXML grammar is released when these are freed, also when the source is rejected in the middle, when a print or tokenisation did not complete, and when a grammar is used again: repeating the same operations never makes the memory in use grow.",
 ["inputs","histories"],"all sources, accepted or rejected, and all histories of operations",
 "no test looks at memory",
 [C+"xmq.c",P+"json.c",P+"ixml.c",C+"yaep/src/yaep.c"],[("xmqFreeDoc/xmqFreeParseState/xmqFreeOutputSettings",C+"xmq.c"),("error handling by longjmp in the parsers",P+"json.c"),("yaepParse, yaepFreeTree, yaepFreeGrammar",C+"yaep/src/yaep.c")],["xmqFreeDoc","xmqFreeOutputSettings","xmqFreeParseState"]))
L.append(p("C35","An XMQ document survives the trip through XML",
 "Any XMQ document with one root element and no undefined entity or repeated attribute, printed as XML, is well-formed and denotes to any XML parser the tree of the document (an escape symbol after a - in a comment apart), and reading that XML back with whitespace kept gives the same document, with every text, attribute, namespace, processing instruction, doctype and every comment, whatever dashes and escape symbols it holds, exactly as it was.",
 ["inputs"],"all XMQ documents with one root element",
 "tests convert a few dozen documents",
 [C+"xmq.c",P+"xmq_parser.c",P+"xml.c"],[("xmq_print_xml/xml_add_root and comment escaping",C+"xmq.c"),("parsing of xml: xmq_parse_buffer_xml, fixup_comments",C+"xmq.c")],["xmqPrint XML","to-xml","--xml"]))
if __name__=='__main__':
    here=os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
        for x in L:
            assert len(x['title'])<=80,(x['id'],len(x['title']))
            f.write(json.dumps(x,ensure_ascii=False)+'\n')
