"""A small reference implementation of CommonMark 0.29, written from the specification text and
used only as the oracle of the bounded search.  Plain and slow on purpose: lines are expanded into
columns before block structure is decided, emphasis is matched by trying every opener, positions
in the inline text are never moved back by the parsers that fail."""
import html
import html.entities
import re

ESC = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'
SAFE = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
           ";/@:+?=&()%#*,_.~-")
WS = ' \t\n\x0b\x0c\r'
UWS = set(' \t\n\f\r\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a'
          '\u202f\u205f\u3000')


def is_punct(c):
    import unicodedata
    return c in ESC or unicodedata.category(c) in ('Pc', 'Pd', 'Pe', 'Pf', 'Pi', 'Po', 'Ps')


# ------------------------------------------------------------------ characters

RE_ENT = re.compile(r'&(?:#[xX]([a-fA-F0-9]{1,6})|#([0-9]{1,7})|([a-zA-Z][a-zA-Z0-9]{1,31}));')


def entity_at(s, i):
    """(decoded, end) of the character reference at i, or None."""
    m = RE_ENT.match(s, i)
    if not m:
        return None
    if m.group(3) is not None:
        v = html.entities.html5.get(m.group(3) + ';')
        if v is None:
            return m.group(), m.end()
        return v, m.end()
    return html.unescape(m.group()), m.end()


def unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s) and s[i + 1] in ESC:
            out.append(s[i + 1])
            i += 2
        elif s[i] == '&' and entity_at(s, i):
            v, i = entity_at(s, i)
            out.append(v)
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def norm_uri(s):
    out = []
    for c in s:
        if c in SAFE:
            out.append(c)
        else:
            out.append(''.join('%%%02X' % b for b in c.encode('utf-8')))
    return ''.join(out)


def norm_label(inner):
    """Key of a link label (text between the brackets)."""
    return re.sub('[ \t\n\x0b\x0c\r]+', ' ', inner.strip()).casefold()


# ------------------------------------------------------------------ link parts

def spnl(s, i):
    while i < len(s) and s[i] == ' ':
        i += 1
    if i < len(s) and s[i] == '\n':
        i += 1
        while i < len(s) and s[i] == ' ':
            i += 1
    return i


def link_label(s, i):
    """End of the link label at i, or None.  (Label text: at most 999 characters.)"""
    if i >= len(s) or s[i] != '[':
        return None
    j = i + 1
    while j < len(s):
        if s[j] == ']':
            return j + 1 if j + 1 - i <= 1001 else None
        if s[j] == '[':
            return None
        if s[j] == '\\':
            if j + 1 >= len(s) or s[j + 1] == '\n':
                return None
            j += 2
        else:
            j += 1
    return None


def link_dest(s, i):
    """(raw destination, end) or None; an empty destination only before ')'."""
    if i < len(s) and s[i] == '<':
        j = i + 1
        while j < len(s):
            if s[j] == '>':
                return s[i + 1:j], j + 1
            if s[j] in '<\n\x00':
                return None
            if s[j] == '\\':
                if j + 1 >= len(s) or s[j + 1] == '\n':
                    return None
                j += 2
            else:
                j += 1
        return None
    j, depth = i, 0
    while j < len(s):
        c = s[j]
        if c == '\\' and j + 1 < len(s) and s[j + 1] in ESC:
            j += 2
            continue
        if c in WS:
            break
        if c == '(':
            depth += 1
        elif c == ')':
            if depth == 0:
                break
            depth -= 1
        j += 1
    if j == i and not (j < len(s) and s[j] == ')'):
        return None
    return s[i:j], j


RE_TITLE = re.compile(r'"(?:\\[!-/:-@\[-`{-~]|[^"\x00])*"'
                      r"|'(?:\\[!-/:-@\[-`{-~]|[^'\x00])*'"
                      r'|\((?:\\[!-/:-@\[-`{-~]|[^()\x00])*\)')


def link_title(s, i):
    m = RE_TITLE.match(s, i)
    return (m.group()[1:-1], m.end()) if m else None


def line_end(s, i):
    while i < len(s) and s[i] == ' ':
        i += 1
    if i == len(s):
        return i
    if s[i] == '\n':
        return i + 1
    return None


def definition(s):
    """(key, destination, title, end) of the link reference definition s begins with, or None."""
    j = link_label(s, 0)
    if j is None or j == 2 or j >= len(s) or s[j] != ':':
        return None
    key = norm_label(s[1:j - 1])
    i = spnl(s, j + 1)
    d = link_dest(s, i)
    if d is None or key == '':
        return None
    dest, e = d
    i = spnl(s, e)
    if i != e:
        t = link_title(s, i)
        if t is not None:
            end = line_end(s, t[1])
            if end is not None:
                return key, norm_uri(unescape(dest)), unescape(t[0]), end
    end = line_end(s, e)
    if end is None:
        return None
    return key, norm_uri(unescape(dest)), '', end


# ------------------------------------------------------------------ inline

TAG = r'[A-Za-z][A-Za-z0-9-]*'
ATTR = (r'(?:\s+[a-zA-Z_:][a-zA-Z0-9:._-]*'
        r'(?:\s*=\s*(?:[^"\'=<>`\x00-\x20]+|\'[^\']*\'|"[^"]*"))?)')
OPENTAG = '<' + TAG + ATTR + r'*\s*/?>'
CLOSETAG = '</' + TAG + r'\s*>'
RE_TAG = re.compile('(?:' + OPENTAG + '|' + CLOSETAG +
                    r'|<!---->|<!--(?:-?[^>-])(?:-?[^-])*-->|<\?.*?\?>|<![A-Za-z]+\s+[^>]*>'
                    r'|<!\[[Cc][Dd][Aa][Tt][Aa]\[[\s\S]*?\]\]>)')
RE_MAIL = re.compile(r"<([a-zA-Z0-9.!#$%&'*+/=?^_`{|}~-]+@[a-zA-Z0-9]"
                     r"(?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?"
                     r"(?:\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*)>")
RE_URI = re.compile(r'<([A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*)>')


def run_at(s, i):
    j = i
    while j < len(s) and s[j] == s[i]:
        j += 1
    return j - i


def flanking(s, i, n):
    """(can_open, can_close) of the delimiter run s[i:i+n]."""
    b = s[i - 1] if i > 0 else '\n'
    a = s[i + n] if i + n < len(s) else '\n'
    aw, bw, ap, bp = a in UWS, b in UWS, is_punct(a), is_punct(b)
    left = not aw and (not ap or bw or bp)
    right = not bw and (not bp or aw or ap)
    if s[i] == '_':
        return left and (not right or bp), right and (not left or ap)
    if s[i] in '\'"':
        return left and not right, right
    return left, right


def smart_dashes(n):
    if n % 3 == 0:
        em, en = n // 3, 0
    elif n % 2 == 0:
        em, en = 0, n // 2
    else:
        en = 1 if n % 3 == 2 else 2
        em = (n - 2 * en) // 3
    return '\u2014' * em + '\u2013' * en


def T(s):
    return {'t': 'text', 'lit': s}


def emphasis(nodes):
    """Match the delimiter runs of a flat node list; gives the list with emph/strong nodes."""
    ds = [x for x in nodes if 'd' in x]
    for q in '\'"':
        # quotes match separately: see below
        pass
    dead = set()
    ci = 0
    live = [x for x in ds]
    k = 0
    while k < len(live):
        cl = live[k]['d']
        if not cl['close']:
            k += 1
            continue
        found = None
        for j in range(k - 1, -1, -1):
            op = live[j]['d']
            if op['c'] != cl['c'] or not op['open']:
                continue
            if cl['c'] in '*_' and (op['close'] or cl['open']) and \
               (op['o'] + cl['o']) % 3 == 0 and not (op['o'] % 3 == 0 and cl['o'] % 3 == 0):
                continue
            found = j
            break
        if cl['c'] in '\'"':
            close, opn = ('\u2019', '\u2018') if cl['c'] == "'" else ('\u201d', '\u201c')
            live[k]['lit'] = close
            if found is not None:
                live[found]['lit'] = opn
                # a quote that has been matched remains available (as in the reference code)
            if found is None and not cl['open']:
                live.pop(k)
            else:
                k += 1
            continue
        if found is None:
            k += 1
            continue
        op = live[found]['d']
        use = 2 if op['n'] >= 2 and cl['n'] >= 2 else 1
        a, b = live[found], live[k]
        ia, ib = position(nodes, a), position(nodes, b)
        inner = nodes[ia + 1:ib]
        nodes[ia + 1:ib] = [{'t': 'strong' if use == 2 else 'emph', 'c': inner}]
        for x in (a, b):
            x['d']['n'] -= use
            x['lit'] = x['lit'][:len(x['lit']) - use]
        del live[found + 1:k]
        k = found + 1
        if op['n'] == 0:
            live.pop(found)
            nodes.pop(position(nodes, a))
            k -= 1
        if cl['n'] == 0:
            live.pop(k)
            nodes.pop(position(nodes, b))
    for x in nodes:
        x.pop('d', None)
    return nodes


def position(nodes, x):
    for i, y in enumerate(nodes):
        if y is x:
            return i
    raise ValueError


def inlines(s, refs, smart=False):
    s = s.strip(WS)
    nodes = []
    brackets = []          # dicts: node, image, active, start (position after the bracket)
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\n':
            hard = False
            if nodes and nodes[-1]['t'] == 'text' and 'd' not in nodes[-1]:
                t = nodes[-1]['lit']
                hard = t.endswith('  ')
                nodes[-1]['lit'] = t.rstrip(' ')
            nodes.append({'t': 'linebreak' if hard else 'softbreak'})
            i += 1
            while i < len(s) and s[i] == ' ':
                i += 1
        elif c == '\\':
            if i + 1 < len(s) and s[i + 1] == '\n':
                nodes.append({'t': 'linebreak'})
                i += 2
                # (leading spaces of the next line remain in this version)
            elif i + 1 < len(s) and s[i + 1] in ESC:
                nodes.append(T(s[i + 1]))
                i += 2
            else:
                nodes.append(T('\\'))
                i += 1
        elif c == '`':
            n = run_at(s, i)
            j = i + n
            while j < len(s):
                if s[j] == '`':
                    m = run_at(s, j)
                    if m == n:
                        break
                    j += m
                else:
                    j += 1
            if j < len(s):
                t = s[i + n:j].replace('\n', ' ')
                if t.strip(' ') and t[0] == ' ' and t[-1] == ' ':
                    t = t[1:-1]
                nodes.append({'t': 'code', 'lit': t})
                i = j + n
            else:
                nodes.append(T('`' * n))
                i += n
        elif c in '*_' or (smart and c in '\'"'):
            n = run_at(s, i) if c in '*_' else 1
            o, cl = flanking(s, i, n)
            lit = {'\'': '\u2019', '"': '\u201c'}.get(c, c * n)
            nodes.append({'t': 'text', 'lit': lit,
                          'd': {'c': c, 'n': n, 'o': n, 'open': o, 'close': cl}})
            i += n
        elif c == '[' or (c == '!' and s[i + 1:i + 2] == '['):
            img = c == '!'
            i += 2 if img else 1
            for b in brackets[-1:]:
                b['after'] = True
            nodes.append(T('![' if img else '['))
            brackets.append({'node': nodes[-1], 'image': img, 'active': True, 'pos': i})
        elif c == ']':
            i = close_bracket(s, i, nodes, brackets, refs)
        elif c == '<':
            m = RE_MAIL.match(s, i)
            u = RE_URI.match(s, i)
            h = RE_TAG.match(s, i)
            if m or u:
                g = (m or u).group(1)
                nodes.append({'t': 'link', 'dest': norm_uri(('mailto:' if m else '') + g),
                              'title': '', 'c': [T(g)]})
                i = (m or u).end()
            elif h:
                nodes.append({'t': 'html_inline', 'lit': h.group()})
                i = h.end()
            else:
                nodes.append(T('<'))
                i += 1
        elif c == '&' and entity_at(s, i):
            v, i = entity_at(s, i)
            nodes.append(T(v))
        else:
            j = i
            while j < len(s) and s[j] not in '\n`[]\\!<&*_\'"':
                j += 1
            t = s[i:max(j, i + 1)]
            i = max(j, i + 1)
            if smart:
                t = t.replace('...', '\u2026')
                t = re.sub('--+', lambda m: smart_dashes(len(m.group())), t)
            nodes.append(T(t))
    return emphasis(nodes)


def close_bracket(s, i, nodes, brackets, refs):
    i += 1
    if not brackets:
        nodes.append(T(']'))
        return i
    b = brackets.pop()
    if not b['active']:
        nodes.append(T(']'))
        return i
    found = None
    if i < len(s) and s[i] == '(':
        j = spnl(s, i + 1)
        d = link_dest(s, j)
        if d is not None:
            dest, j = d
            k = spnl(s, j)
            title = ''
            if k > j or s[j - 1] in WS:
                t = link_title(s, k)
                if t is not None:
                    title, k = t
            k = spnl(s, k)
            if k < len(s) and s[k] == ')':
                found = (norm_uri(unescape(dest)), unescape(title), k + 1)
    if found is None:
        j = link_label(s, i)
        key, end = None, i
        if j is not None and j - i > 2:
            key, end = s[i + 1:j - 1], j
        else:
            if j is not None:
                end = j
            # the text itself is the label: it must be one
            key = s[b['pos']:i - 1]
        if key is not None:
            r = refs.get(norm_label(key))
            if r is not None:
                found = (r[0], r[1], end)
    if found is None:
        nodes.append(T(']'))
        return i
    p = position(nodes, b['node'])
    inner = emphasis(nodes[p + 1:])
    nodes[p:] = [{'t': 'image' if b['image'] else 'link', 'dest': found[0], 'title': found[1],
                  'c': inner}]
    if not b['image']:
        for x in brackets:
            if not x['image']:
                x['active'] = False
    return found[2]


# ------------------------------------------------------------------ blocks

class B(object):
    def __init__(self, t, parent, start, **kw):
        self.t, self.parent, self.start, self.end = t, parent, start, start
        self.c, self.lines, self.open = [], [], True
        self.__dict__.update(kw)
        if parent is not None:
            parent.c.append(self)


class Line(object):
    """A line as a sequence of columns."""

    def __init__(self, s):
        self.s = s
        self.cell = []          # column -> (index of character, first column of it)
        for i, c in enumerate(s):
            first = len(self.cell)
            w = 4 - first % 4 if c == '\t' else 1
            self.cell += [(i, first)] * w
        self.col = 0

    def ch(self, col):
        """The character at a column, tabs as spaces; '' past the end."""
        if col >= len(self.cell):
            return ''
        c = self.s[self.cell[col][0]]
        return ' ' if c == '\t' else c

    def rest(self, col=None):
        """The text from a column on; what is left of a split tab as spaces."""
        col = self.col if col is None else col
        if col >= len(self.cell):
            return ''
        i, first = self.cell[col]
        if first == col:
            return self.s[i:]
        nxt = col
        while nxt < len(self.cell) and self.cell[nxt][0] == i:
            nxt += 1
        return ' ' * (nxt - col) + self.s[i + 1:]

    def nonspace(self):
        c = self.col
        while self.ch(c) == ' ':
            c += 1
        return c


BLOCK_TAGS = ('address article aside base basefont blockquote body caption center col colgroup dd '
              'details dialog dir div dl dt fieldset figcaption figure footer form frame frameset '
              'h1 head header hr html iframe legend li link main menu menuitem nav noframes ol '
              'optgroup option p param section source title summary table tbody td tfoot th thead '
              'title tr track ul').split()


def html_start(r, in_paragraph):
    low = r.lower()
    if re.match(r'<(script|pre|style)(\s|>|$)', low):
        return 1
    if r.startswith('<!--'):
        return 2
    if r.startswith('<?'):
        return 3
    if re.match('<![A-Z]', r):
        return 4
    if r.startswith('<![CDATA['):
        return 5
    m = re.match(r'</?([a-z][a-z0-9]*)(\s|/?>|$)', low)
    if m and m.group(1) in BLOCK_TAGS:
        return 6
    if not in_paragraph and re.match('(?:' + OPENTAG + '|' + CLOSETAG + r')\s*$', r):
        return 7
    return 0


def html_end(k, r):
    if k == 1:
        return any('</%s>' % x in r.lower() for x in ('script', 'pre', 'style'))
    return {2: '-->', 3: '?>', 4: '>', 5: ']]>'}.get(k, '\0') in r


def thematic(r):
    t = r.replace(' ', '').replace('\t', '')
    return len(t) >= 3 and t[0] in '*-_' and t == t[0] * len(t) and r[0] not in ' \t'


def marker(r):
    """(kind, width, start, delim/char) of the list marker r begins with."""
    if r[:1] in ('*', '+', '-') and r:
        return 'bullet', 1, None, r[0]
    m = re.match(r'([0-9]{1,9})([.)])', r)
    if m:
        return 'ordered', m.end(), int(m.group(1)), m.group(2)
    return None


class Doc(object):
    def __init__(self, src, smart=False):
        self.refs = {}
        self.seps = set()              # blank lines that separate blocks
        src = src.replace('\r\n', '\n').replace('\r', '\n').replace('\0', '\ufffd')
        lines = src.split('\n')
        if lines[-1] == '':
            lines.pop()
        self.n = len(lines)
        self.root = B('document', None, 1)
        self.tip = self.root
        for k, s in enumerate(lines):
            self.line(k + 1, s)
        while self.tip is not None:
            self.close(self.tip)
        self.tight(self.root)
        self.inl(self.root, smart)

    # -- closing

    def close(self, b):
        b.open = False
        self.tip = b.parent
        if b.t == 'paragraph':
            self.definitions(b)
            if b.text == '' or (b.had and b.text.strip(' \t\n\x0b\x0c\r') == ''):
                b.parent.c.remove(b)
        elif b.t == 'code_block':
            if b.fenced:
                b.info = unescape(b.lines[0].strip())
                b.lit = ''.join(x + '\n' for x in b.lines[1:])
            else:
                ls = b.lines
                while ls and ls[-1].strip(' ') == '':
                    ls = ls[:-1]
                b.lit = ''.join(x + '\n' for x in ls)
        elif b.t == 'html_block':
            ls = b.lines
            while ls and ls[-1].strip(' ') == '':
                ls = ls[:-1]
            b.lit = '\n'.join(ls)

    def definitions(self, b):
        if not hasattr(b, 'text'):
            b.had = False
            b.text = None
        text = b.text if b.text is not None else ''.join(x + '\n' for x in b.lines)
        while text[:1] == '[':
            d = definition(text)
            if d is None:
                break
            b.had = True
            self.refs.setdefault(d[0], (d[1], d[2]))
            text = text[d[3]:]
        b.text = text

    def close_to(self, b):
        while self.tip is not b:
            self.close(self.tip)

    def add(self, t, k, parent, **kw):
        p = parent
        while not (p.t == 'list' and t == 'item' or
                   p.t in ('document', 'block_quote', 'item') and t != 'item'):
            self.close_to(p)
            self.close(p)
            p = self.tip
        self.close_to(p)
        self.tip = B(t, p, k, **kw)
        return self.tip

    # -- a line

    def line(self, k, s):
        L = Line(s)
        cont = self.root
        while cont.c and cont.c[-1].open:
            b = cont.c[-1]
            ns = L.nonspace()
            ind = ns - L.col
            blank = ns >= len(L.cell)
            if b.t == 'block_quote':
                if ind > 3 or L.ch(ns) != '>':
                    break
                L.col = ns + 1
                if L.ch(L.col) == ' ':
                    L.col += 1
            elif b.t == 'item':
                if blank:
                    if not b.c:
                        break
                    L.col = ns
                elif ind >= b.need:
                    L.col += b.need
                else:
                    break
            elif b.t == 'list':
                pass
            elif b.t == 'code_block' and b.fenced:
                r = L.rest(ns)
                n = run_at(r, 0) if r else 0
                if ind <= 3 and n >= b.flen and r[0] == b.fchar and r[n:].strip(' ') == '':
                    self.close_to(b)
                    self.close(b)
                    b.end = k
                    self.extend(b, k)
                    return
                for _ in range(b.findent):
                    if L.ch(L.col) == ' ':
                        L.col += 1
            elif b.t == 'code_block':
                if ind >= 4:
                    L.col += 4
                elif blank:
                    L.col = ns
                else:
                    break
            elif b.t == 'html_block':
                if blank and b.kind >= 6:
                    break
            elif b.t == 'paragraph':
                if blank:
                    break
            else:
                break
            cont = b
        matched = cont
        lazy_ok = self.tip.t == 'paragraph' and self.tip is not matched
        leaf = cont.t in ('code_block', 'html_block')
        started = False
        while not leaf:
            ns = L.nonspace()
            ind = ns - L.col
            blank = ns >= len(L.cell)
            r = L.rest(ns)
            if ind > 3:
                if not blank and self.tip.t != 'paragraph' or \
                   (not blank and started and cont is self.tip and cont.t != 'paragraph'):
                    L.col += 4
                    cont = self.add('code_block', k, cont, fenced=False)
                    started = leaf = True
                break
            if blank:
                break
            if r[0] == '>':
                L.col = ns + 1
                if L.ch(L.col) == ' ':
                    L.col += 1
                cont = self.add('block_quote', k, cont)
                started = True
                continue
            m = re.match(r'(#{1,6})(?:[ \t]+|$)', r)
            if m:
                t = r[m.end():]
                t = re.sub(r'^[ \t]*#+[ \t]*$', '', t)
                t = re.sub(r'[ \t]+#+[ \t]*$', '', t)
                cont = self.add('heading', k, cont, level=len(m.group(1)), text=t)
                self.extend(cont, k)
                return
            n = run_at(r, 0)
            if r[0] in '`~' and n >= 3 and not (r[0] == '`' and '`' in r[n:]):
                L.col = ns + n
                cont = self.add('code_block', k, cont, fenced=True, fchar=r[0], flen=n,
                                findent=ind)
                started = leaf = True
                break
            if r[0] == '<':
                kind = html_start(r, cont.t == 'paragraph')
                if kind:
                    cont = self.add('html_block', k, cont, kind=kind)
                    started = leaf = True
                    break
            if cont.t == 'paragraph' and re.match(r'(?:=+|-+)[ \t]*$', r):
                self.definitions(cont)
                if cont.text:
                    cont.t = 'heading'
                    cont.level = 1 if r[0] == '=' else 2
                    self.extend(cont, k)
                    cont.open = True       # closed by the next line, as any heading
                    return
                cont.lines = []
                cont.text = None
                cont.emptied = True
            if thematic(r):
                cont = self.add('thematic_break', k, cont)
                self.extend(cont, k)
                return
            mk = marker(r)
            if mk:
                kind, w, start, delim = mk
                after = r[w:]
                para = cont.t == 'paragraph'
                ok = after == '' or after[0] in ' \t'
                if para and (after.strip(' \t') == '' or (kind == 'ordered' and start != 1)):
                    ok = False
                if ok:
                    L.col = ns + w
                    c2 = L.nonspace()
                    sp = c2 - L.col
                    if c2 >= len(L.cell):
                        pad = w + 1
                        L.col = L.col + (1 if sp else 0)
                    elif sp >= 5:
                        pad = w + 1
                        L.col += 1
                    else:
                        pad = w + sp
                        L.col = c2
                    lst = cont
                    if not (cont.t == 'list' and cont.kind == kind and cont.delim == delim):
                        lst = self.add('list', k, cont, kind=kind, num=start, delim=delim)
                    cont = self.add('item', k, lst, need=ind + pad)
                    started = True
                    continue
            break

        ns = L.nonspace()
        blank = ns >= len(L.cell)
        if not started and lazy_ok and not blank:
            self.tip.lines.append(L.rest(ns))
            self.extend(self.tip, k)
            return
        self.close_to(cont) if not started else None
        if blank and cont.t != 'block_quote' and not (cont.t == 'code_block' and cont.fenced) \
           and not (cont.t == 'item' and not cont.c and cont.start == k):
            self.seps.add(k)
        if leaf:
            cont.lines.append(L.rest())
            if not blank or cont.t == 'code_block' and cont.fenced:
                self.extend(cont, k)
            if cont.t == 'html_block' and html_end(cont.kind, L.rest()):
                self.close(cont)
        elif not blank:
            if cont.t == 'paragraph':
                cont.lines.append(L.rest(ns))
            else:
                cont = self.add('paragraph', k, cont, lines=[L.rest(ns)])
            self.extend(cont, k)
        else:
            if cont.t == 'block_quote' or cont.t == 'item' and cont.start == k:
                self.extend(cont, k)

    def extend(self, b, k):
        while b is not None:
            b.end = max(b.end, k)
            b = b.parent

    # -- finishing

    def blank_between(self, a, b):
        return any(k in self.seps for k in range(a + 1, b))

    def tight(self, b):
        if b.t == 'list':
            b.tight = True
            for k, it in enumerate(b.c):
                after = b.c[k + 1].start if k + 1 < len(b.c) else None
                if after and self.blank_between(it.end, after):
                    b.tight = False
                for m, x in enumerate(it.c):
                    nxt = it.c[m + 1].start if m + 1 < len(it.c) else after
                    if nxt and self.blank_between(x.end, nxt):
                        b.tight = False
        for x in b.c:
            self.tight(x)

    def inl(self, b, smart):
        if b.t in ('paragraph', 'heading'):
            b.src = b.text
            b.c = inlines(b.text, self.refs, smart)
        else:
            for x in b.c:
                self.inl(x, smart)


# ------------------------------------------------------------------ trees to compare

def merge(nodes):
    """Inline nodes as tuples, adjacent text merged, empty text dropped."""
    out = []
    for x in nodes:
        t = x['t']
        if t == 'text':
            if out and out[-1][0] == 'text':
                out[-1] = ('text', out[-1][1] + x['lit'])
            elif x['lit']:
                out.append(('text', x['lit']))
        elif t in ('code', 'html_inline'):
            out.append((t, x['lit']))
        elif t in ('emph', 'strong'):
            out.append((t, merge(x['c'])))
        elif t in ('link', 'image'):
            out.append((t, x['dest'], x['title'], merge(x['c'])))
        else:
            out.append((t,))
    return out


def block(b):
    if b.t == 'heading':
        return ('heading', b.level, merge(b.c))
    if b.t == 'paragraph':
        return ('paragraph', merge(b.c))
    if b.t == 'code_block':
        return ('code_block', b.info if b.fenced else None, b.lit)
    if b.t == 'html_block':
        return ('html_block', b.lit)
    if b.t == 'list':
        return ('list', b.kind, b.num, b.delim, b.tight, [block(x) for x in b.c])
    if b.t == 'thematic_break':
        return ('thematic_break',)
    return (b.t, [block(x) for x in b.c])


def parse(src, smart=False):
    return block(Doc(src, smart).root)


# the same for the code under test

def repo_inl(node):
    out, c = [], node.first_child
    while c is not None:
        t = c.t
        if t == 'text':
            if out and out[-1][0] == 'text':
                out[-1] = ('text', out[-1][1] + c.literal)
            elif c.literal:
                out.append(('text', c.literal))
        elif t in ('code', 'html_inline'):
            out.append((t, c.literal))
        elif t in ('emph', 'strong'):
            out.append((t, repo_inl(c)))
        elif t in ('link', 'image'):
            out.append((t, c.destination, c.title, repo_inl(c)))
        else:
            out.append((t,))
        c = c.nxt
    return out


def repo_block(b):
    kids, c = [], b.first_child
    if b.t == 'heading':
        return ('heading', b.level, repo_inl(b))
    if b.t == 'paragraph':
        return ('paragraph', repo_inl(b))
    if b.t == 'code_block':
        return ('code_block', b.info if b.is_fenced else None, b.literal)
    if b.t == 'html_block':
        return ('html_block', b.literal)
    if b.t == 'thematic_break':
        return ('thematic_break',)
    while c is not None:
        kids.append(repo_block(c))
        c = c.nxt
    if b.t == 'list':
        d = b.list_data
        return ('list', d['type'], d['start'], d['delimiter'] if d['type'] == 'ordered'
                else d['bullet_char'], d['tight'], kids)
    return (b.t, kids)


def repo_parse(src, smart=False):
    import commonmark
    return repo_block(commonmark.Parser({'smart': True} if smart else {}).parse(src))
