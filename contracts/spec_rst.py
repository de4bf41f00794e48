"""Executable specification of reStructuredText rendering, one function per node type.

w = (written text, last piece written, width of the indentation, character of the indentation)."""

UNDERLINE = '#*=-^"'


def put(w, s):
    """Write s: indented at the beginning of a line, unless it is just the end of the line."""
    if w[1] == '\n' and s != '\n':
        s = w[3] * w[2] + s
    return (w[0] + s, s, w[2], w[3])


def newline(w):
    return put(w, '\n')


def indented(w, by):
    return (w[0], w[1], w[2] + by, w[3])


def document(w, node, entering):
    return w


def softbreak(w, node, entering):
    return newline(w)


def linebreak(w, node, entering):
    return newline(newline(w))


def text(w, node, entering):
    return put(w, node.literal)


def emph(w, node, entering):
    return put(w, '*')


def strong(w, node, entering):
    return put(w, '**')


def paragraph(w, node, entering):
    if node.parent.t == 'item':
        return w
    return newline(w)


def link(w, node, entering):
    if entering:
        return put(w, '`')
    return put(w, ' <' + node.destination + '>`_')


def image(w, node, entering):
    if not entering:
        return indented(w, -4)
    w = newline(put(w, '.. image:: ' + node.destination))
    return put(indented(w, 4), ':alt: ')


def code(w, node, entering):
    return put(put(put(w, '``'), node.literal), '``')


def code_block(w, node, entering):
    words = node.info.split() if node.info else []
    directive = '.. code::'
    if len(words) > 0:
        directive = '.. code:: ' + words[0]
    w = newline(newline(put(newline(w), directive)))
    text = node.literal[:-1] if node.literal.endswith('\n') else node.literal
    deep = w[3] * 4
    return newline(put(w, deep + text.replace('\n', '\n' + w[3] * w[2] + deep)))


def list(w, node, entering):
    return newline(w) if entering else w


def item(w, node, entering):
    mark = '* ' if node.list_data['type'] == 'bullet' else '#. '
    if entering:
        return indented(put(w, mark), len(mark))
    return newline(indented(w, -len(mark)))


def block_quote(w, node, entering):
    return indented(w, 4 if entering else -4)


def heading(w, node, entering):
    if entering:
        return newline(w)
    ch = UNDERLINE[node.level - 1] if node.level <= 6 else UNDERLINE[5]
    n = len(w[0]) - (w[0].rfind('\n') + 1)
    return newline(put(newline(w), ch * n))
