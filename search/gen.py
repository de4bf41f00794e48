"""Generators of documents, texts and trees."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
CORPUS = json.load(open(os.path.join(HERE, 'corpus.json'), encoding='utf-8'))

INL = ['a', 'b', 'foo', 'bar baz', ' ', ' ', '  ', '\n', '  \n', '\\\n', '*', '**', '***', '_', '__',
       '`', '``', '` ', ' `', '[', ']', '![', '[a]', '[b][]', '[c][a]', '(', ')', '(/u)', '(/u "t")',
       '(<u v>)', '<', '>', '<a>', '</a>', '<b c="d">', '<http://x?y=z>', '<m@x.y>', '<!--x-->', '&',
       '&amp;', '&#65;', '&#x42;', '&copy;', '&foo;', '\\', '\\*', '\\[', '"', "'", '.', '...', '-',
       '--', '---', '!', '\u00e9', '\u00a0', '\u201c', '\u2003', '1', '%20', '{', '\U0001f600',
       '\U00010100', '#', ':', '/']
BLK = ['\n', '\n', '\n\n', '- ', '* ', '+ ', '1. ', '2) ', '01. ', '123456789. ', '> ', '>', '# ', '##',
       '###### x', '#', '```', '~~~', '````', '=', '===', '---', '***', '* * *', '[a]: /u', '[b]: <v> "t"',
       "[c]:\n/w\n't'", '<div>', '</div>', '<script>', '</script>', '<!--', '-->', '<?', '?>', '    ',
       '\t', ' ', '  ', '   ', 'text', 'foo\n', '-', '+', '1.', '\x0c', '-\n', '```\n', '    x\n', '0. ']
LINES = ['- a', '- ', '-', '> b', '1. c', '', '', '', '```', '~~~', 'text', '# h', '===', '---',
         '[x]: /y', '<div>', '<!-- x', '-->', '10) z', '* q', '+ r', '    code', '> > d', '>', '2. e',
         '- - f', '1) - g', '``` info', '~~~~', '## i ##', '[x]', '- # j', '> - k', '***', '1.', '> ```']
INDENT = ['', '', '', ' ', '  ', '   ', '    ', '     ', '\t', ' \t', '  \t', '\t\t']
NASTY = ['<', '>', '&', '"', "'", '&amp;', '&lt;', '<b>', '</p>', '"x', '" onclick="', '&#60;', '\\',
         'a', 'foo', ' ', '\n', '\u00e9', '\u00a0', '-->', '<!--', '&quot;', '\x01', '\U0001f600', '`']


def text(rng, toks, lo, hi):
    return ''.join(rng.choice(toks) for _ in range(rng.randint(lo, hi)))


def document(rng, extra=()):
    k = rng.random()
    if k < .45:
        toks = BLK + INL + list(extra) * 3
        return text(rng, toks, 1, 22)
    if k < .65:
        s = rng.choice(CORPUS)
        for _ in range(rng.randint(0, 4)):
            i = rng.randint(0, len(s))
            s = s[:i] + rng.choice(BLK + INL + list(extra) * 3) + s[i + rng.randint(0, 2):]
        return s
    if k < .9:
        return lines(rng, LINES + list(extra) * 2)
    return text(rng, INL, 1, 18)


def lines(rng, pool, lo=2, hi=9):
    return '\n'.join(rng.choice(INDENT) + rng.choice(pool) for _ in range(rng.randint(lo, hi)))


def nasty(rng, lo=0, hi=4):
    return text(rng, NASTY, lo, hi)


# ------------------------------------------------------------------ trees (as nested lists)

DANGER = ['javascript:', 'JavaScript:', 'vbscript:', 'VBSCRIPT:', 'file:', 'FILE:', 'data:', 'DATA:']


def dest(rng):
    k = rng.random()
    if k < .45:
        return rng.choice(['/u', 'http://x.y/z?a=b&c=d', '#f', '', 'a"b', 'm&n', '<o>', 'mailto:p@q'])
    if k < .8:
        s = rng.choice(DANGER)
        s = ''.join(c.upper() if rng.random() < .3 else c for c in s)
        return s + rng.choice(['', 'x', '//y', 'text/html,z', 'image/svg+xml;q', 'alert(1)', 'image/'])
    if k < .9:
        s = 'data:image/' + rng.choice(['png', 'gif', 'jpeg', 'webp']) + rng.choice([';base64,x', ','])
        return ''.join(c.upper() if rng.random() < .2 else c for c in s)
    return nasty(rng)


def inline_tree(rng, depth):
    out = []
    for _ in range(rng.randint(0 if depth < 3 else 1, 3)):
        k = rng.random()
        if k < .34 or depth <= 0:
            out.append(['text', nasty(rng, 1, 3)])
        elif k < .44:
            out.append(['code', nasty(rng, 1, 3)])
        elif k < .52:
            out.append([rng.choice(['softbreak', 'linebreak'])])
        elif k < .60:
            out.append(['html_inline', rng.choice(['<i>', '</i>', '<!-- c -->', '<x y="z">'])])
        elif k < .75:
            out.append([rng.choice(['emph', 'strong']), inline_tree(rng, depth - 1)])
        else:
            title = rng.choice(['', nasty(rng, 1, 2)])
            out.append([rng.choice(['link', 'image', 'image']), dest(rng), title,
                        inline_tree(rng, depth - 1)])
    return out


def block_tree(rng, depth):
    out = []
    for _ in range(rng.randint(1, 3)):
        k = rng.random()
        if k < .35 or (depth <= 0 and k > .8):
            out.append(['paragraph', inline_tree(rng, 3)])
        elif k < .47:
            out.append(['heading', rng.randint(1, 6), inline_tree(rng, 2)])
        elif k < .58:
            info = rng.choice([None, '', 'py', 'a&b c', '<x> y', ' z ', '"q"'])
            out.append(['code_block', info, nasty(rng) + '\n'])
        elif k < .66:
            out.append(['html_block', rng.choice(['<div>', '<!-- d -->\n', '<p>x</p>', 'text'])])
        elif k < .72:
            out.append(['thematic_break'])
        elif k < .84:
            out.append(['block_quote', block_tree(rng, depth - 1)])
        else:
            kind = rng.choice(['bullet', 'ordered'])
            start = None if kind == 'bullet' else rng.choice([0, 1, 2, 10, 1])
            tight = rng.random() < .5
            items = [block_tree(rng, depth - 1) if rng.random() < .85 else []
                     for _ in range(rng.randint(1, 3))]
            out.append(['list', kind, start, tight, items])
    return out


def build(tree):
    """The commonmark nodes of a tree of nested lists."""
    from commonmark.node import Node
    pos = [0]

    def mk(t, **kw):
        pos[0] += 1
        n = Node(t, [[pos[0], 1], [pos[0] + 1, pos[0]]])
        n.is_open = False
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def put(parent, kids):
        for k in kids:
            t = k[0]
            if t == 'list':
                data = {'type': k[1], 'tight': k[3], 'bullet_char': '-' if k[1] == 'bullet' else None,
                        'start': k[2], 'delimiter': '.' if k[1] == 'ordered' else None, 'padding': 2,
                        'marker_offset': 0}
                n = mk('list', list_data=data)
                parent.append_child(n)
                for it in k[4]:
                    i = mk('item', list_data=data)
                    n.append_child(i)
                    put(i, it)
                continue
            if t in ('text', 'code', 'html_inline', 'html_block'):
                n = mk(t, literal=k[1])
                if t != 'html_block':
                    n.sourcepos = None
            elif t in ('link', 'image'):
                n = mk(t, destination=k[1], title=k[2])
                n.sourcepos = None
            elif t == 'heading':
                n = mk(t, level=k[1])
            elif t == 'code_block':
                n = mk(t, info=k[1], literal=k[2], is_fenced=k[1] is not None)
            else:
                n = mk(t)
                if t in ('emph', 'strong', 'softbreak', 'linebreak'):
                    n.sourcepos = None
            parent.append_child(n)
            if isinstance(k[-1], list):
                put(n, k[-1])
    root = mk('document')
    put(root, tree)
    return root


def mapped(tree, f):
    """The tree with every string (text, code, destination, title, info) replaced by f(kind, s)."""
    out = []
    for k in tree:
        k = list(k)
        t = k[0]
        if t in ('text', 'code'):
            k[1] = f(t, k[1])
        elif t in ('link', 'image'):
            k[1], k[2] = f('dest', k[1]), f('title', k[2])
        elif t == 'code_block':
            k[1], k[2] = (f('info', k[1]) if k[1] else k[1]), f('code', k[2])
        if t == 'list':
            k[4] = [mapped(x, f) for x in k[4]]
        elif isinstance(k[-1], list):
            k[-1] = mapped(k[-1], f)
        out.append(k)
    return out


# ------------------------------------------------------------------ reference HTML renderer

def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


class Html(object):
    def __init__(self, safe=False, sourcepos=False, softbreak='\n'):
        self.safe, self.sp, self.soft = safe, sourcepos, softbreak
        self.b, self.last, self.alt = '', '\n', 0

    def put(self, s):
        self.b += s
        self.last = s

    def cr(self):
        if self.last != '\n':
            self.put('\n')

    def tag(self, s):
        if not self.alt:
            self.b += '<' + s + '>'
            self.last = '>'

    def pos(self, n):
        p = n.sourcepos
        return ' data-sourcepos="%d:%d-%d:%d"' % (p[0][0], p[0][1], p[1][0], p[1][1]) \
            if self.sp and p else ''

    def kids(self, n):
        c = n.first_child
        while c is not None:
            self.node(c)
            c = c.nxt

    def hidden(self, d):
        import re
        return self.safe and re.search('(?i)javascript:|vbscript:|file:|data:', d) and \
            not re.match('(?i)data:image/(png|gif|jpeg|webp)', d)

    def node(self, n):
        t = n.t
        if t == 'document':
            self.kids(n)
        elif t == 'text':
            self.put(esc(n.literal))
        elif t == 'softbreak':
            self.put('\n' if self.alt else self.soft)
        elif t == 'linebreak':
            self.tag('br /')
            self.cr()
        elif t == 'code':
            self.tag('code')
            self.put(esc(n.literal))
            self.tag('/code')
        elif t == 'html_inline':
            h = '<!-- raw HTML omitted -->' if self.safe else n.literal
            self.put(esc(h) if self.alt else h)
        elif t in ('emph', 'strong'):
            e = 'em' if t == 'emph' else t
            self.tag(e)
            self.kids(n)
            self.tag('/' + e)
        elif t == 'link':
            a = self.pos(n)
            if not self.hidden(n.destination):
                a += ' href="%s"' % esc(n.destination)
            if n.title:
                a += ' title="%s"' % esc(n.title)
            self.tag('a' + a)
            self.kids(n)
            self.tag('/a')
        elif t == 'image':
            if not self.alt:
                self.put('<img src="%s" alt="' % ('' if self.hidden(n.destination)
                                                   else esc(n.destination)))
            self.alt += 1
            self.kids(n)
            self.alt -= 1
            if not self.alt:
                if n.title:
                    self.put('" title="%s' % esc(n.title))
                self.put('" />')
        elif t == 'paragraph':
            g = n.parent.parent
            if g is not None and g.t == 'list' and g.list_data['tight']:
                self.kids(n)
            else:
                self.cr()
                self.tag('p' + self.pos(n))
                self.kids(n)
                self.tag('/p')
                self.cr()
        elif t == 'heading':
            self.cr()
            self.tag('h%d' % n.level + self.pos(n))
            self.kids(n)
            self.tag('/h%d' % n.level)
            self.cr()
        elif t == 'code_block':
            w = n.info.split() if n.info else []
            self.cr()
            self.tag('pre')
            self.tag('code' + self.pos(n) + (' class="language-%s"' % esc(w[0]) if w else ''))
            self.put(esc(n.literal))
            self.tag('/code')
            self.tag('/pre')
            self.cr()
        elif t == 'html_block':
            self.cr()
            self.put('<!-- raw HTML omitted -->' if self.safe else n.literal)
            self.cr()
        elif t == 'thematic_break':
            self.cr()
            self.tag('hr' + self.pos(n) + ' /')
            self.cr()
        elif t in ('block_quote', 'list'):
            if t == 'list':
                d = n.list_data
                name = 'ul' if d['type'] == 'bullet' else 'ol'
                a = self.pos(n)
                if d['start'] is not None and d['start'] != 1:
                    a += ' start="%d"' % d['start']
            else:
                name, a = 'blockquote', self.pos(n)
            self.cr()
            self.tag(name + a)
            self.cr()
            self.kids(n)
            self.cr()
            self.tag('/' + name)
            self.cr()
        elif t == 'item':
            self.tag('li' + self.pos(n))
            self.kids(n)
            self.tag('/li')
            self.cr()

    def render(self, n):
        self.node(n)
        return self.b


# ------------------------------------------------------------------ snapshots

def nodes_of(root):
    out, stack = [], [root]
    while stack:
        n = stack.pop()
        out.append(n)
        c, kids = n.first_child, []
        while c is not None:
            kids.append(c)
            c = c.nxt
        stack.extend(reversed(kids))
    return out


def snapshot(root):
    """Every field of every node of a tree; nodes as numbers."""
    ns = nodes_of(root)
    num = {id(n): i for i, n in enumerate(ns)}

    def v(x):
        if hasattr(x, 'first_child'):
            return ('node', num.get(id(x), 'outside'))
        if isinstance(x, dict):
            return ('dict', [(k, v(y)) for k, y in x.items()])
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, [v(y) for y in x])
        return (type(x).__name__, x)
    return [[(k, v(x)) for k, x in sorted(n.__dict__.items())] for n in ns]


def pointers(root):
    """What is wrong with the pointers of a tree, or None."""
    seen = set()
    stack = [root]
    while stack:
        n = stack.pop()
        if id(n) in seen:
            return 'node reached twice'
        seen.add(id(n))
        c, prev = n.first_child, None
        while c is not None:
            if c.parent is not n:
                return 'parent of a child is another node'
            if c.prv is not prev:
                return 'previous sibling is wrong'
            if len(seen) > 100000:
                return 'endless'
            stack.append(c)
            prev, c = c, c.nxt
            if id(c) in seen:
                return 'sibling cycle'
        if n.last_child is not prev:
            return 'last child is wrong'
    return None
