"""Executable specification of HTML rendering, one function per node type.

w = (written text, last piece written, image depth).  Plain Python: run by the verifier on symbolic
states and by the search engine on concrete trees."""
import re

SAFE_COMMENT = '<!-- raw HTML omitted -->'
DANGEROUS = re.compile('javascript:|vbscript:|file:|data:', re.IGNORECASE)


def esc(s):
    if s is None:
        return ''
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def put(w, s):
    return (w[0] + s, s, w[2])


def newline(w):
    if w[1] == '\n':
        return w
    return put(w, '\n')


def tag(w, name, attrs, closing):
    if w[2] > 0:
        return w
    s = '<' + name
    for a in attrs:
        s = s + ' ' + a[0] + '="' + a[1] + '"'
    return (w[0] + s + (' />' if closing else '>'), '>', w[2])


def posattr(opts, node):
    if opts.get('sourcepos') and node.sourcepos:
        p = node.sourcepos
        return [['data-sourcepos', str(p[0][0]) + ':' + str(p[0][1]) + '-' + str(p[1][0]) + ':' +
                 str(p[1][1])]]
    return []


def text(w, opts, node, entering):
    return put(w, esc(node.literal))


def softbreak(w, opts, node, entering):
    # in alternative text never markup
    return put(w, '\n' if w[2] > 0 else opts['softbreak'])


def linebreak(w, opts, node, entering):
    return newline(tag(w, 'br', [], True))


def emph(w, opts, node, entering):
    return tag(w, 'em' if entering else '/em', [], False)


def strong(w, opts, node, entering):
    return tag(w, 'strong' if entering else '/strong', [], False)


def code(w, opts, node, entering):
    return tag(put(tag(w, 'code', [], False), esc(node.literal)), '/code', [], False)


def html_inline(w, opts, node, entering):
    html = SAFE_COMMENT if opts.get('safe') else node.literal
    # alternative text of an image contains no tag
    return put(w, esc(html) if w[2] > 0 else html)


def html_block(w, opts, node, entering):
    if opts.get('safe'):
        return newline(put(newline(w), SAFE_COMMENT))
    return newline(put(newline(w), node.literal))


def paragraph(w, opts, node, entering):
    grand = node.parent.parent
    if grand is not None and grand.t == 'list' and grand.list_data['tight']:
        return w
    if entering:
        return tag(newline(w), 'p', posattr(opts, node), False)
    return newline(tag(w, '/p', [], False))


def heading(w, opts, node, entering):
    name = 'h' + str(node.level)
    if entering:
        return tag(newline(w), name, posattr(opts, node), False)
    return newline(tag(w, '/' + name, [], False))


def code_block(w, opts, node, entering):
    attrs = posattr(opts, node)
    words = node.info.split() if node.info else []
    if len(words) > 0:
        attrs.append(['class', 'language-' + esc(words[0])])
    w = tag(tag(newline(w), 'pre', [], False), 'code', attrs, False)
    w = put(w, esc(node.literal))
    return newline(tag(tag(w, '/code', [], False), '/pre', [], False))


def thematic_break(w, opts, node, entering):
    return newline(tag(newline(w), 'hr', posattr(opts, node), True))


def block_quote(w, opts, node, entering):
    if entering:
        return newline(tag(newline(w), 'blockquote', posattr(opts, node), False))
    return newline(tag(newline(w), '/blockquote', [], False))


def list(w, opts, node, entering):
    name = 'ul' if node.list_data['type'] == 'bullet' else 'ol'
    if entering:
        attrs = posattr(opts, node)
        start = node.list_data['start']
        if start is not None and start != 1:
            attrs.append(['start', str(start)])
        return newline(tag(newline(w), name, attrs, False))
    return newline(tag(newline(w), '/' + name, [], False))


def item(w, opts, node, entering):
    if entering:
        return tag(w, 'li', posattr(opts, node), False)
    return newline(tag(w, '/li', [], False))


def custom_inline(w, opts, node, entering):
    if entering:
        return put(w, node.on_enter) if node.on_enter else w
    return put(w, node.on_exit) if node.on_exit else w


def custom_block(w, opts, node, entering):
    return newline(custom_inline(newline(w), opts, node, entering))


def link_shown(w, opts, node, entering):
    """Link whose destination may be shown."""
    if not entering:
        return tag(w, '/a', [], False)
    attrs = posattr(opts, node) + [['href', esc(node.destination)]]
    if node.title:
        attrs.append(['title', esc(node.title)])
    return tag(w, 'a', attrs, False)


def link_hidden(w, opts, node, entering):
    if not entering:
        return tag(w, '/a', [], False)
    attrs = posattr(opts, node)
    if node.title:
        attrs.append(['title', esc(node.title)])
    return tag(w, 'a', attrs, False)


def image_with(w, opts, node, entering, src):
    if entering:
        if w[2] == 0:
            w = put(w, '<img src="' + src + '" alt="')
        return (w[0], w[1], w[2] + 1)
    w = (w[0], w[1], w[2] - 1)
    if w[2] == 0:
        if node.title:
            w = put(w, '" title="' + esc(node.title))
        w = put(w, '" />')
    return w


def image_shown(w, opts, node, entering):
    return image_with(w, opts, node, entering, esc(node.destination))


def image_hidden(w, opts, node, entering):
    return image_with(w, opts, node, entering, '')
