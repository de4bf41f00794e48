"""Per property: level claimed, what the contracts decide, what the bounded stand-in covers."""

TRUSTED = [
    'the verifier itself (/verif/pyvc), its reading of Python (known gaps: DESIGN.md, section 8), and z3',
    'CPython, its re module and string methods behave as modelled (mathematical integers, strings as '
    'sequences of code points)',
    'objects given to the functions have exactly the field types the contracts state (no subclass '
    'overriding, no monkey patching)',
]

SEARCH = 'bounded search over generated inputs on the running code (never counted as proved): '

PROPS = {
    'C01': {'level': 'proof',
            'note': 'Every HTML renderer method is proved to write exactly what the specification function '
                    'of its node type says, in which all text goes through esc; escape_xml is proved to be '
                    'the homomorphism replacing & < > " and no other character.',
            'bounded': 'whole trees, rendered with tokens in place of strings'},
    'C02': {'level': 'proof',
            'note': 'Every HTML renderer method is proved to write the element of its node on entering and '
                    'its end on leaving, for every field value and every option.',
            'bounded': 'whole trees against an independent recursive renderer'},
    'C03': {'level': 'proof',
            'note': 'potentially_unsafe is proved to accept every dangerous and no harmless destination by '
                    'inclusion of regular languages; link, image and both raw HTML methods are proved to '
                    'hide what is dangerous and to show what is not.',
            'bounded': 'whole trees and documents with safe on'},
}
PROPS.update({
    'C04': {'level': 'proof',
            'note': 'normalize_uri is proved to return the character-wise percent-encoding (and, by lemma, '
                    'only allowed characters, idempotently); autolinks and parseLinkDestination are proved '
                    'to store exactly the normalized unescaped source text.',
            'bounded': 'destinations of whole documents'},
    'C05': {'level': 'proof',
            'note': 'append_child, prepend_child, insert_after, insert_before and unlink are proved, for '
                    'every heap, to turn a consistent child list into exactly the one the operation '
                    'describes and to leave every pointer of every other node alone.',
            'bounded': 'sequences of operations on random forests'},
    'C06': {'level': 'proof',
            'note': '__next__, nxt, resume_at and walker are proved to step to the event that follows in '
                    'document order (child, sibling or leaving of the parent), for every heap.',
            'bounded': 'whole walks of random trees'},
    'C08': {'level': 'proof',
            'note': 'advance_offset, find_next_nonspace and advance_next_nonspace are proved against the '
                    'column function of the line (tab stops of four), for every line and position.',
            'bounded': 'documents with tabs against the same documents with spaces'},
    'C11': {'level': 'proof',
            'note': 'Every inline step under contract is proved to consume at least one character or '
                    'nothing, to stay inside the text, and to append exactly what it recognized.',
            'bounded': 'steps not under contract and whole paragraphs'},
    'C14': {'level': 'proof',
            'note': 'parseString is proved to keep ordinary text unchanged without the option and to apply '
                    'exactly the specified replacement with it.',
            'bounded': 'whole documents; quotation marks'},
    'C16': {'level': 'proof',
            'note': 'scanDelims is proved against an executable statement of the flanking rules for every '
                    'subject and position; punctuation characters newer than the table of the code are '
                    'left undecided.',
            'bounded': 'neighbouring characters enumerated on the running code'},
    'C18': {'level': 'proof',
            'note': 'parseBackticks is proved: content, first equally long run, stripping.',
            'bounded': 'code and HTML blocks of whole documents'},
    'C20': {'level': 'proof',
            'note': 'unescape_entity, unescape_char, unescape_string, parseBackslash, parseEntity and '
                    'parseLinkTitle are proved against executable specifications.',
            'bounded': 'info strings and whole documents'},
    'C19': {'level': 'proof',
            'note': 'Every method of both renderers and of the walker is proved to write nothing but its own '
                    'object (frame of every path), for every heap.',
            'bounded': 'dump to text and JSON; histories of renderings of whole trees'},
    'C10': {'level': 'proof',
            'note': 'Every operation that makes, opens, closes or changes a block (add_child, finalize and '
                    'close_unmatched_blocks, all eight block starts, continue_ and finalize of every kind, '
                    'parseReference) is proved to keep the block invariant: a legal parent, heading levels '
                    '1 to 6, list data and text present where the type needs them, closed when it says so. '
                    'The loop of incorporate_line and parse, which only call these, is left to the search.',
            'bounded': 'the lines and documents loops; whole documents'},
    'C12': {'level': 'proof',
            'note': 'normalize_reference, parseLinkLabel, parseLinkTitle, parseLinkDestination, spnl and '
                    'parseReference are proved: a definition is entered only if its label is new, under its '
                    'normalized form, with the destination and title written there; a failed one enters '
                    'nothing and consumes nothing.  Paragraph.finalize cuts off exactly the definitions.',
            'bounded': 'uses of definitions (parseCloseBracket) in whole documents'},
    'C15': {'level': 'proof',
            'note': 'All eight block starts, parse_list_marker and continue_ of every block are proved '
                    'against the forms of the specification as regular languages, for every line, position '
                    'and heap (fence length, thematic break, marker, setext level, closing fence; of an ATX '
                    'heading the form and the range of its level).',
            'bounded': 'level and text of ATX headings; whole documents'},
    'C22': {'level': 'proof',
            'note': 'parse_list_marker is proved against an executable specification (type, start, '
                    'delimiter, padding); lists_match, List.finalize and ends_with_blank_line decide sharing '
                    'and tightness from them.  ends_with_blank_line remembers answers, so that its clauses '
                    'are one-directional.',
            'bounded': 'tightness and sharing in whole documents'},
    'C24': {'level': 'proof',
            'note': 'Every ReStructuredText renderer method is proved to write exactly what the '
                    'specification function of its node type says and to leave the indentation it says.',
            'bounded': 'whole trees'},
})
for _i in range(4, 25):
    PROPS.setdefault('C%02d' % _i, {
        'level': 'exploration', 'note': 'bounded stand-in only, contracts in preparation',
        'bounded': 'the whole property'})
