"""Writes /verif/properties.jsonl (run once by hand when a property's text changes)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

N, B, I, H, R, RS, CM, D = ("commonmark/node.py", "commonmark/blocks.py", "commonmark/inlines.py",
    "commonmark/render/html.py", "commonmark/render/renderer.py", "commonmark/render/rst.py",
    "commonmark/common.py", "commonmark/dump.py")
NR, MN, CL = "commonmark/normalize_reference.py", "commonmark/main.py", "commonmark/cmark.py"

prop("C01", "HTML output escapes all document text exactly once",
 "Every piece of document text that a renderer writes into HTML outside raw HTML (text, code spans, code blocks, link and image destinations, titles, code-block info words) appears there with every &, <, > and double quote replaced by its character reference and every other character unchanged. So it can never open a tag or end an attribute, and decoding the references gives back exactly the text held in the AST.",
 ["inputs"], "every string held in an AST node, every node, every renderer option setting",
 "The 649 spec examples sample a few dozen strings containing special characters; nothing quantifies over all strings or over each place where text enters the output.",
 [CM, H], [("escape_xml, replace_unsafe_char, UNSAFE_MAP", CM), ("text/code/code_block/link/image/out", H)],
 [("buf", "HTML written so far", R)], ["HtmlRenderer.render", "commonmark.common.escape_xml"])

prop("C02", "HTML output mirrors the tree: right element per node, balanced tags",
 "For every AST, HTML rendering emits for each node exactly the element of its type with the documented attributes (heading level, list kind and start number, language class, destination and title), opened on entering and closed on leaving, so that tags written by the renderer are balanced and properly nested. Inside an image only alternative text and no tag is written, and paragraphs of tight lists get no p element.",
 ["inputs", "configurations"], "every tree of nodes and every setting of the safe, sourcepos and softbreak options",
 "Examples cover few nestings and almost no option settings (safe, sourcepos and softbreak have no test at all).",
 [H, R], [("HtmlRenderer node methods", H), ("Renderer.render dispatch loop, lit, cr", R)],
 [("disable_tags", "image nesting depth", H), ("last_out", "last string written", R)], ["HtmlRenderer.render"])

prop("C03", "Safe mode lets no raw HTML and no dangerous URL through",
 "With the HTML renderer's safe option on, no raw HTML of the document reaches the output (each raw HTML block or inline is replaced by the comment '<!-- raw HTML omitted -->') and no link or image is written with a destination whose scheme is javascript, vbscript, file or data in any letter case, except data URLs of png, gif, jpeg or webp images. Destinations that contain none of these scheme strings are written exactly as without the option.",
 ["inputs", "configurations"], "every node of every document, every destination string in any letter case",
 "No existing test switches the safe option on.",
 [H], [("potentially_unsafe, reUnsafeProtocol, reSafeDataProtocol", H), ("html_inline, html_block, link, image", H)],
 [], ["HtmlRenderer({'safe': True}).render"])

prop("C04", "Link and image destinations are normalized, lossless URLs",
 "Every link or image destination the parser stores consists only of ASCII letters, digits and the characters ; / @ : + ? = & ( ) % # * , _ . ~ - ; every other character is replaced by the percent-encoding of its UTF-8 bytes and none of the allowed ones is changed. So percent-decoding gives the same bytes as the written destination, and normalizing an already normalized destination changes nothing.",
 ["inputs"], "every destination text: inline, reference, autolink (URI and e-mail)",
 "Examples contain a handful of non-ASCII or special characters; the guarantee is about all Unicode characters and all four ways to write a destination.",
 [CM, I], [("normalize_uri", CM), ("parseAutolink, parseLinkDestination, parseReference, parseCloseBracket", I)],
 [("destination", "URL of a link or image node", N)], ["Parser.parse", "commonmark.common.normalize_uri"])

prop("C05", "Tree edits keep every pointer consistent with child order",
 "After any sequence of the public node operations append, prepend, insert-before, insert-after and unlink (never making a node its own descendant, inserting only beside attached nodes), the children of every node are exactly the list those operations describe. All parent, first/last-child and previous/next-sibling pointers agree with that list, and nodes not named by an operation are untouched.",
 ["histories", "inputs"], "every tree and every legal sequence of operations on it, including moving a node within its own parent",
 "The parser uses only three of the five operations and never, for example, prepends; tests never inspect pointers.",
 [N], [("append_child, prepend_child, unlink, insert_after, insert_before", N)],
 [("parent/first_child/last_child/prv/nxt", "tree pointers", N)], ["Node attributes after the operation"])

prop("C06", "Walking visits every node of the subtree once, in document order",
 "Walking from any node reports each container of its subtree exactly once on entering and once on leaving, with its descendants in between in document order, reports each leaf exactly once, never leaves the subtree, and then ends. After being told to resume at a node, walking continues from exactly that event.",
 ["inputs", "histories"], "every well-formed tree, every start node (also one with siblings), every interleaving with resume_at",
 "Tests walk one small document from its root only.",
 [N], [("NodeWalker.__next__, nxt, resume_at, is_container", N)],
 [("current/entering", "next event to report", N)], ["Node.walker()"])

prop("C07", "Normalizing a tree merges adjacent text and changes nothing else",
 "Normalizing any tree replaces each maximal run of adjacent sibling text nodes by the first of them holding the concatenation of their texts in order, and leaves all other nodes, their order and the tree's total text unchanged. Afterwards no two adjacent siblings are text nodes and a second normalization changes nothing.",
 ["inputs"], "every well-formed tree",
 "The single existing test merges one pair of text nodes.",
 [N], [("Node.normalize", N), ("NodeWalker.__next__, unlink", N)], [], ["Node.normalize()"])

prop("C08", "Tabs act as tab stops of four columns in block structure",
 "Wherever white space decides block structure (indentation, list and block-quote markers, code indentation, fence indentation), a tab counts as the spaces up to the next multiple of four columns of the line. When only part of a tab's columns is used up, exactly the remaining columns are kept as spaces in front of the content, and a line's columns never run backwards or past its end.",
 ["inputs"], "every line with any mixture of tabs, spaces and other characters, every current offset and column",
 "The spec has eleven tab examples; the arithmetic must hold at every column and for every partial consumption.",
 [B], [("find_next_nonspace, advance_offset, advance_next_nonspace, add_line", B), ("parse_list_marker, BlockQuote/Item/CodeBlock.continue_", B)],
 [("offset/column/partially_consumed_tab/indent", "position in the current line", B)], ["Parser.parse", "Parser.advance_offset", "Parser.find_next_nonspace"])

prop("C09", "Line endings are interchangeable and NUL never survives",
 "Input is split into lines exactly at LF, CR LF and CR, and a single final line ending adds no line, so replacing every line ending of a document by any other of the three gives the same result. Every NUL character of the input is treated as U+FFFD, so no output contains a NUL.",
 ["inputs"], "every input string and every choice of line endings",
 "All spec examples use LF; only one contains a NUL.",
 [B], [("Parser.parse line splitting, reLineEnding", B), ("incorporate_line NUL replacement", B)],
 [("current_line", "line being parsed", B)], ["Parser.parse"])

prop("C10", "Block tree is always legal and completely closed",
 "In every parsed document the root is the document node, children of lists are items and items occur only in lists, headings, paragraphs, thematic breaks, code and HTML blocks contain no block, and heading levels are 1 to 6. Every block of the result is closed, and every block's list data, code text or HTML text its type needs is present.",
 ["inputs"], "every input string",
 "Examples check rendered HTML of 649 documents; illegal nestings or blocks left open need not show there.",
 [B], [("can_contain tables, add_child, finalize, close_unmatched_blocks", B), ("BlockStarts methods", B)],
 [("tip/oldtip/last_matched_container", "open-block chain", B)], ["Parser.parse"])

prop("C11", "Inline parsing always advances and stays inside the text",
 "Every inline step either recognizes a construct and consumes at least one character of the paragraph, or consumes exactly the current character as literal text; it never reads past the end, never moves backwards over a finished construct and leaves text outside constructs in order and unchanged. So inline parsing ends on every input.",
 ["inputs", "histories"], "every paragraph text, every position, every state of the bracket and delimiter stacks, smart on or off",
 "Tests sample inputs; an endless loop or a lost character needs one unusual combination of delimiters.",
 [I], [("parseInline dispatch and all parse* functions", I), ("match, peek, spnl", I)],
 [("subject/pos", "text and position", I)], ["Parser.parse", "InlineParser.parse"])

prop("C12", "Link reference definitions: first wins, labels match case-insensitively",
 "Of several definitions with equivalent labels (equal after trimming, collapsing inner white space and Unicode case folding) the first one decides the destination and title of every use, and a later one never changes it. A failed definition defines nothing and consumes nothing, a label without non-space characters defines nothing, and a title that does not end its line is not part of the definition.",
 ["inputs", "histories"], "every sequence of definitions and uses in a document",
 "Examples try single pairs of definitions; the claim is over all labels and all orders.",
 [I, NR, B], [("parseReference, parseLinkLabel, parseLinkTitle", I), ("normalize_reference", NR), ("Paragraph.finalize, setext_heading", B)],
 [("refmap", "label to destination and title", B)], ["Parser.parse"])

prop("C13", "Parsers and renderers carry nothing over between documents",
 "Parsing a document with a parser object gives the same tree whatever documents that object parsed before, and rendering a tree with a renderer object gives the same output whatever it rendered before. Creating or using one parser or renderer never changes the behaviour of another one.",
 ["histories"], "every sequence of parse and render calls on shared or separate objects",
 "Tests reuse one parser in a fixed order with documents that leave no trace.",
 [B, I, H, RS, R], [("Parser.parse re-initialisation", B), ("parseInlines re-initialisation", I), ("Renderer.render re-initialisation", R)],
 [("refmap, tip, delimiters, brackets, buf, disable_tags, indent_length", "per-document state", B)], ["Parser.parse", "render"])

prop("C14", "Smart punctuation preserves hyphen counts and obeys its rules",
 "With the smart option, a run of n hyphens (n at least 2) becomes em and en dashes counting three and two hyphens that together use up exactly n, all em dashes if n is a multiple of three, else all en dashes if n is even, else em dashes followed by as few en dashes as possible. Three full stops become an ellipsis, straight quotes become curly ones, a single hyphen is kept; without the option none of these characters changes.",
 ["inputs", "configurations"], "every run length and every text, option on or off",
 "One test covers runs of one to five hyphens; quotes and ellipses have no test.",
 [I], [("smart_dashes, parseString, handleDelim, processEmphasis quotes", I)], [], ["Parser({'smart': True}).parse"])

prop("C15", "Block starts are recognized exactly where the spec says",
 "A line indented less than four columns starts a thematic break, ATX heading, fenced code block, setext underline, block quote or list item exactly when the rest of the line has the form the CommonMark 0.29 text gives for it (marker characters, run lengths 3 or 1-6, at most 9 digits, required white space, no backtick in a backtick fence's info string), and heading level, fence character, fence length and list number are those of the line. A closing fence has the same character and at least the same length and is followed only by spaces.",
 ["inputs"], "every line, every indentation, every kind of enclosing block",
 "Each rule has a few positive and negative examples; the recognizers accept or reject infinitely many lines.",
 [B], [("BlockStarts methods and their regular expressions", B), ("reThematicBreak, reATXHeadingMarker, reCodeFence, reClosingCodeFence, reSetextHeadingLine, reBulletListMarker, reOrderedListMarker", B), ("parse_list_marker, CodeBlock.continue_", B)],
 [], ["Parser.parse"])

prop("C16", "Delimiter runs open and close emphasis by the flanking rules",
 "For every run of * or _ the parser determines its full length and whether it can open or close emphasis exactly by the left/right-flanking rules of CommonMark 0.29, for every pair of neighbouring characters and at the beginning and end of the text, and leaves the reading position unchanged. Underscores additionally obey the intraword rules.",
 ["inputs"], "every text, every position, every delimiter character; neighbours classified as Unicode white space, punctuation or other",
 "The truth table over neighbour classes and both flanks has more combinations than the examples try, and run lengths are unbounded.",
 [I], [("scanDelims, handleDelim, rePunctuation, reUnicodeWhitespaceChar", I)], [("delimiters", "delimiter stack", I)], ["Parser.parse", "InlineParser.scanDelims"])

prop("C17", "Matched emphasis delimiters are used up evenly and in order",
 "Emphasis processing pairs an opener with a later closer of the same character, respecting the multiple-of-three rule, removes the same number of delimiters (two for strong when both have at least two, else one) from both, and wraps exactly the nodes between them. Delimiters never go negative or get used twice, unmatched ones stay as literal text, and processing ends with no delimiter left above its starting point.",
 ["inputs", "histories"], "every delimiter stack and sequence of matches",
 "Examples contain short delimiter sequences; the stack manipulation is a loop over histories of matches.",
 [I], [("processEmphasis, removeDelimiter, removeDelimitersBetween", I)], [("delimiters", "doubly linked delimiter stack", I)], ["Parser.parse"])

prop("C18", "Code content is literal",
 "The content of a code span is the source text between its backtick runs with line endings turned into spaces and at most one space stripped from each end (only if both ends have one and it is not all spaces); escapes, entities and markup inside have no effect. The content of fenced and indented code blocks is the source lines after removing only container prefixes and at most the block's own indentation; HTML blocks are passed through unchanged.",
 ["inputs"], "every text inside code spans, code blocks and HTML blocks",
 "Examples use short plain contents; the guarantee is about every content string.",
 [I, B], [("parseBackticks", I), ("CodeBlock.continue_/finalize, add_line, HtmlBlock.finalize", B)], [("literal/string_content", "content", N)], ["Parser.parse"])

prop("C19", "Rendering, dumping and walking never modify the tree",
 "Rendering an AST to HTML or reStructuredText, dumping it as text or JSON and walking it leave every node and every pointer of the tree unchanged. So any sequence of renderings and dumps of one tree gives each time the result of a fresh parse.",
 ["histories", "inputs"], "every tree and every sequence of read-only operations",
 "Tests render each tree once and never compare it before and after.",
 [H, R, RS, D, N], [("renderer node methods", H), ("prepare, dumpAST, dumpJSON", D), ("NodeWalker", N)], [], ["render", "dumpAST", "dumpJSON"])

prop("C20", "Backslash escapes and character references decode exactly",
 "A backslash before an ASCII punctuation character yields that character literally, before a line ending a hard line break, and before anything else a literal backslash; both rules hold alike in text, destinations, titles and info strings. Entity and numeric references of valid form decode to the character HTML5 assigns, in any of these places, and an ampersand not starting a valid reference stays literal.",
 ["inputs"], "every character after a backslash, every reference, in each of the contexts",
 "Examples list the 32 punctuation characters once in text and a few entities.",
 [CM, I], [("unescape_string, unescape_char, ESCAPABLE, ENTITY", CM), ("parseBackslash, parseEntity", I)], [], ["Parser.parse", "commonmark.common.unescape_string"])

prop("C21", "No input makes parsing or rendering fail",
 "For every string of Unicode scalar values and every option setting, parsing terminates and raises no exception, and so does rendering or dumping the result in any of the four output formats.",
 ["inputs", "configurations"], "every input string; html, rst, json and ast output",
 "One hypothesis test draws short random strings that rarely contain markup; rst, json and ast output get a handful of inputs.",
 [B, I, H, RS, D, CM], [("all parse, finalize and render functions", B)], [], ["commonmark.commonmark(text, format)"])

prop("C22", "List data: type, start number, delimiter and tightness",
 "A list's type, start number and delimiter are those of its first item, consecutive items share the list exactly when their bullet character or delimiter agree, and a list is tight exactly when no two of its constituent items, or block children of one item, are separated by a blank line.",
 ["inputs"], "every sequence of list items",
 "Examples use few items and rarely nested lists with blank lines at their ends.",
 [B], [("parse_list_marker, lists_match, list_item, List.finalize, ends_with_blank_line", B)], [("list_data, last_line_blank", "list attributes", N)], ["Parser.parse"])

prop("C23", "Source positions are ordered and within the document",
 "Every block of a parsed document carries a start and an end line with 1 <= start <= end <= number of lines, the range of a block lies within its parent's range, and siblings' ranges do not overlap and are in document order.",
 ["inputs"], "every input string",
 "No existing test looks at source positions.",
 [B], [("add_child, finalize, setext_heading", B)], [("sourcepos", "[[line, column], [line, column]]", N)], ["Node.sourcepos", "sourcepos option"])

prop("C24", "reStructuredText output keeps literal text and restores indentation",
 "Rendering any AST to reStructuredText writes every text and code literal of the tree in document order, indents the content of a block quote, list item or image by a fixed amount on entering and takes back exactly the same amount on leaving, and underlines headings with the character of their level.",
 ["inputs"], "every AST",
 "Thirteen single-construct examples.",
 [RS, R], [("ReStructuredTextRenderer methods", RS)], [("indent_length", "current indentation", RS)], ["ReStructuredTextRenderer.render"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p, sch)
print(len(P))
