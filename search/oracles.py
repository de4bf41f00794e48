"""One executable oracle per property: generated cases, and a check of the real code on a case."""
import io
import itertools
import json
import random
import re
import sys

from search import gen, ref

KNOWN_CASES = {}
ORACLES = {}


def parse(s, **options):
    import commonmark
    return commonmark.Parser(options).parse(s)


def html(ast, **options):
    import commonmark
    return commonmark.HtmlRenderer(options).render(ast)


def rst(ast):
    import commonmark
    return commonmark.ReStructuredTextRenderer().render(ast)


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def differ(what, want, got):
    if want == got:
        return None
    return '%s: expected %s, got %s' % (what, short(want), short(got))


class Oracle(object):
    shrinkable = True
    on_error = False
    on_timeout = None
    rule = ''

    def nontrivial(self, case):
        return True

    def cases(self, rng, i, n):
        k = i
        for c in self.fixed():
            if k % n == 0:
                yield c
            k += 1
        while True:
            yield self.one(rng)

    def fixed(self):
        return []


class Docs(Oracle):
    """Random documents (the strings themselves are the cases)."""
    extra = ()

    def fixed(self):
        return list(gen.CORPUS)

    def one(self, rng):
        return gen.document(rng, self.extra)

    def nontrivial(self, case):
        return len(case) > 2 or not isinstance(case, str)


def oracle(pid):
    def deco(cls):
        o = cls()
        o.pid = pid
        ORACLES[pid] = o
        return cls
    return deco


# ------------------------------------------------------------------ rendering

class Trees(Oracle):
    shrinkable = False

    def one(self, rng):
        return [gen.block_tree(rng, 3), self.options(rng)]

    def options(self, rng):
        return {}


@oracle('C01')
class C01(Trees):
    rule = ('a case is a tree of nodes; every text, code text, destination, title and first info word '
            'is replaced by a token, and the output for the tokens with each token replaced by the '
            'escaped string must be the output for the strings; distinct trees counted')

    def options(self, rng):
        return {'sourcepos': rng.random() < .3, 'softbreak': rng.choice(['\n', '<br />', ' '])}

    def check(self, case):
        tree, options = case
        table = []

        def token(kind, s):
            if kind == 'info':
                if not s.split():
                    return s
                table.append(s.split()[0])
                return 'Tk%dE rest' % len(table)
            if s == '' or s == '\n':
                return s
            table.append(s)
            return 'Tk%dE' % len(table)

        def plain(kind, s):
            return (s.split()[0] + ' rest') if kind == 'info' and s.split() else s
        want = html(gen.build(gen.mapped(tree, token)), **options)
        want = re.sub(r'Tk(\d+)E', lambda m: gen.esc(table[int(m.group(1)) - 1]), want)
        got = html(gen.build(gen.mapped(tree, plain)), **options)
        return differ('escaped text', want, got)


@oracle('C02')
class C02(Trees):
    rule = ('a case is a tree of nodes with render options; the whole output is compared with an '
            'independent recursive renderer, whose tags are balanced by construction; distinct trees '
            'counted')

    def options(self, rng):
        return {'sourcepos': rng.random() < .3, 'safe': rng.random() < .3,
                'softbreak': rng.choice(['\n', '<br />', ' ', ''])}

    def cases(self, rng, i, n):
        for k, s in enumerate(gen.CORPUS):
            if k % n == i:
                yield [s, {}]
        while True:
            if rng.random() < .2:
                yield [gen.document(rng), self.options(rng)]
            else:
                yield self.one(rng)

    def check(self, case):
        tree, options = case
        ast = parse(tree) if isinstance(tree, str) else gen.build(tree)
        o = dict(options)
        want = gen.Html(o.get('safe'), o.get('sourcepos'), o.get('softbreak') or '\n').render(ast)
        got = html(ast, **options)
        return differ('html', want, got)


@oracle('C03')
class C03(Trees):
    rule = ('a case is a tree with raw HTML and link destinations of dangerous and harmless schemes, '
            'rendered with safe on; hidden and shown parts are compared with an independent renderer')

    def options(self, rng):
        return {'safe': True, 'sourcepos': rng.random() < .2}

    def one(self, rng):
        if rng.random() < .3:
            d = gen.dest(rng)
            if rng.random() < .2:          # what is dangerous at the beginning is so whatever follows
                d = rng.choice(gen.DANGER) + rng.choice(['', 'x', '//', 'alert(1)//']) + rng.choice(
                    ['data:image/png;base64,', 'DATA:image/gif', 'data:image/', 'image/png', 'javascript:'])
            k = rng.choice(['[a](<%s>)', '![a](<%s> "t")', '<%s>', '[a]\n\n[a]: <%s>', '<i>[a](%s)</i>',
                            '[x ![a](<%s>)](/u)', '<div>\n%s\n</div>'])
            return [k % d, {'safe': True}]
        return Trees.one(self, rng)

    def check(self, case):
        tree, options = case
        ast = parse(tree) if isinstance(tree, str) else gen.build(tree)
        for n in gen.nodes_of(ast):
            if n.t in ('link', 'image') and unclear(n.destination):
                n.destination = '/u'
        want = gen.Html(True, options.get('sourcepos'), '\n').render(ast)
        return differ('safe html', want, html(ast, **options))


def unclear(d):
    """Harmless at the beginning, with a scheme string further on: the property says nothing."""
    if re.match('(?i)(javascript|vbscript|file):', d) or \
            re.match('(?i)data:', d) and not re.match('(?i)data:image/(png|gif|jpeg|webp)', d):
        return False
    rest = re.sub('(?i)^(javascript|vbscript|file|data):', '', d)
    return bool(re.search('(?i)(javascript|vbscript|file|data):', rest)) or \
        bool(re.match('(?i)data:image/(png|gif|jpeg|webp)[^;,]', d))


# ------------------------------------------------------------------ destinations

def links(t):
    """(dest, title) of every link and image of a ref/repo tree in document order."""
    out = []
    if isinstance(t, tuple) and t[0] in ('link', 'image'):
        out.append((t[1], t[2]))
    if isinstance(t, (tuple, list)):
        for x in t:
            if isinstance(x, (tuple, list)):
                out += links(x)
    return out


URLCH = ['a', 'B', '1', ';', '/', '@', ':', '+', '?', '=', '&', '(', ')', '%', '#', '*', ',', '_', '.',
         '~', '-', '%20', '%', '%zz', '!', '$', "'", '[', ']', '{', '}', '|', '^', '`', '"', '<', '>',
         ' ', '\\', '\\(', '\\\\', '&amp;', '&auml;', '\u00e9', '\u20ac', '\U0001f600', '\u00a0', '\x7f',
         '\x01', '\t', '&#65;', '\x80', '\uffff', '\ue000', '\xff', '\U0010ffff']


@oracle('C04')
class C04(Oracle):
    rule = ('a case is a destination text; its normal form and the destinations of documents holding it '
            'inline, in a definition, as URI and e-mail autolink are compared with the bytewise '
            'percent-encoding; every code point below U+3000 is tried once, then random texts')

    def fixed(self):
        for i in range(0, 0x3000, 24):
            yield ''.join(chr(c) for c in range(i, i + 24))
        for c in URLCH:
            yield c

    def one(self, rng):
        return gen.text(rng, URLCH, 1, 8)

    def check(self, d):
        from commonmark import common
        if hasattr(common, 'normalize_uri'):
            u = common.normalize_uri(d)
            if u != ref.norm_uri(d):
                return differ('normalize_uri', ref.norm_uri(d), u)
            if common.normalize_uri(u) != u:
                return 'normalizing twice changes %s' % short(u)
        for shape in ('[x](<%s>)', '[x](%s "t")', '![x](%s)', '[x]: <%s>\n\n[x]', '[x]: %s\n\n[x]',
                      '<http:%s>', '<a%s@b.c>'):
            s = shape % d
            a, b = links(ref.parse(s)), links(ref.repo_parse(s))
            if len(a) == len(b) and [x[0] for x in a] != [x[0] for x in b]:
                return differ('destinations of %s' % short(s), [x[0] for x in a], [x[0] for x in b])
            for x, _ in b:
                if not set(x) <= ref.SAFE:
                    return 'character outside the allowed set in %s' % short(x)
        return None


# ------------------------------------------------------------------ trees

class Model(object):
    """Trees as nested lists of children."""

    def __init__(self, n):
        self.kids = [[] for _ in range(n)]
        self.up = [None] * n

    def cut(self, x):
        if self.up[x] is not None:
            self.kids[self.up[x]].remove(x)
            self.up[x] = None

    def under(self, x, y):
        """x is y or below it."""
        while x is not None:
            if x == y:
                return True
            x = self.up[x]
        return False


OPS = ['append_child', 'prepend_child', 'insert_before', 'insert_after', 'unlink']


def legal(m, op, a, b):
    if op in (0, 1):
        return not m.under(a, b)
    if op in (2, 3):
        # moving b beside a
        return a != b and m.up[a] is not None and not m.under(m.up[a], b)
    return True


def step(m, op, a, b):
    if op == 4:
        m.cut(a)
        return
    m.cut(b)
    if op in (0, 1):
        m.kids[a].insert(len(m.kids[a]) if op == 0 else 0, b)
        m.up[b] = a
    else:
        p = m.up[a]
        i = m.kids[p].index(a)
        m.kids[p].insert(i if op == 2 else i + 1, b)
        m.up[b] = p


def new_nodes(n, types=None):
    from commonmark.node import Node
    out = []
    for i in range(n):
        x = Node(types[i] if types else 'block_quote', [[1, 1], [1, 1]])
        x.literal = 'n%d;' % i
        out.append(x)
    return out


def apply_ops(case_ops, n, types=None, check=False):
    """Run the legal operations; gives (nodes, model, error)."""
    nodes, m = new_nodes(n, types), Model(n)
    for k, (op, a, b) in enumerate(case_ops):
        if not legal(m, op, a, b):
            continue
        step(m, op, a, b)
        if op == 4:
            nodes[a].unlink()
        else:
            getattr(nodes[a], OPS[op])(nodes[b])
        if check:
            e = compare(nodes, m)
            if e:
                return nodes, m, 'after step %d (%s of %d, %d): %s' % (k, OPS[op], a, b, e)
    return nodes, m, None


def compare(nodes, m):
    num = {id(x): i for i, x in enumerate(nodes)}

    def g(x):
        return None if x is None else num.get(id(x), 'foreign')
    for i, x in enumerate(nodes):
        k = m.kids[i]
        if (g(x.first_child), g(x.last_child)) != ((k[0], k[-1]) if k else (None, None)):
            return 'first/last child of %d: %s, expected %s' % (i, (g(x.first_child), g(x.last_child)), k)
        if g(x.parent) != m.up[i]:
            return 'parent of %d is %s, expected %s' % (i, g(x.parent), m.up[i])
        if m.up[i] is None:
            want = (None, None)
        else:
            s = m.kids[m.up[i]]
            j = s.index(i)
            want = (s[j - 1] if j else None, s[j + 1] if j + 1 < len(s) else None)
        if (g(x.prv), g(x.nxt)) != want:
            return 'siblings of %d are %s, expected %s' % (i, (g(x.prv), g(x.nxt)), want)
        if x.literal != 'n%d;' % i or x.t != 'block_quote' and False:
            return 'contents of node %d changed' % i
    return None


def ops(rng, n, k):
    w = [0] * rng.randint(1, 4) + [1] * rng.randint(1, 3) + [2, 2, 3, 3] + [4]
    return [[rng.choice(w), rng.randrange(n), rng.randrange(n)] for _ in range(k)]


@oracle('C05')
class C05(Oracle):
    on_error = True
    on_timeout = 'an operation does not end'
    rule = ('a case is a sequence of tree operations on 2 to 7 nodes, compared step by step with '
            'operations on lists; all sequences of length 4 on 3 nodes that begin with an append are '
            'enumerated first')

    def fixed(self):
        allops = [[o, a, b] for o in range(5) for a in range(3) for b in range(3)
                  if o < 4 and a != b or o == 4 and b == 0]
        for s in itertools.product(allops, repeat=3):
            yield [3, [[0, 0, 1]] + [list(x) for x in s]]

    def one(self, rng):
        n = rng.randint(2, 7)
        return [n, ops(rng, n, rng.randint(3, 20))]

    def check(self, case):
        return apply_ops(case[1], case[0], check=True)[2]


CONTAINERS = ['document', 'block_quote', 'list', 'item', 'paragraph', 'heading', 'emph', 'strong',
              'link', 'image', 'custom_inline', 'custom_block']
LEAVES = ['text', 'softbreak', 'linebreak', 'code', 'html_inline', 'html_block', 'code_block',
          'thematic_break']


def tree_case(rng, leaf):
    """[types, ops]: only containers get children."""
    n = rng.randint(1, 9)
    types = [rng.choice(CONTAINERS if i == 0 or rng.random() > leaf else LEAVES + ['text'] * 8)
             for i in range(n)]
    seq = []
    for i in range(1, n):
        if rng.random() < .9:
            p = rng.choice([j for j in range(i) if types[j] in CONTAINERS])
            seq.append([0 if rng.random() < .8 else 1, p, i])
    return [types, seq]


def walk_spec(m, types, x):
    if types[x] in CONTAINERS:
        out = [(x, True)]
        for y in m.kids[x]:
            out += walk_spec(m, types, y)
        return out + [(x, False)]
    return [(x, True)]


@oracle('C06')
class C06(Oracle):
    on_error = True
    on_timeout = 'walking does not end'
    shrinkable = False
    rule = ('a case is a tree, a start node and a list of (step, event) resumptions; the events are '
            'compared with a recursive enumeration of the subtree')

    def one(self, rng):
        types, seq = tree_case(rng, .4)
        return [types, seq, rng.randrange(len(types)),
                [[rng.randint(0, 6), rng.randint(0, 30)] for _ in range(rng.choice([0, 0, 1, 2]))]]

    def check(self, case):
        types, seq, root, resumes = case
        nodes, m, _ = apply_ops(seq, len(types), types)
        num = {id(x): i for i, x in enumerate(nodes)}
        want = walk_spec(m, types, root)
        w = nodes[root].walker()
        pos, left = 0, list(resumes)
        count = 0
        while True:
            if left and left[0][0] <= count:
                pos = left.pop(0)[1] % len(want)
                w.resume_at(nodes[want[pos][0]], want[pos][1])
                count = 0
            e = w.nxt()
            count += 1
            got = None if e is None else (num.get(id(e['node'])), e['entering'])
            exp = want[pos] if pos < len(want) else None
            if got != exp:
                return 'event %d: expected %s, got %s' % (pos, exp, got)
            if e is None:
                if w.nxt() is not None:
                    return 'an event after the end'
                break
            pos += 1
        # iteration protocol
        got = [(num.get(id(x)), bool(e)) for x, e in itertools.islice(nodes[root].walker(),
                                                                     3 * len(want) + 3)]
        return differ('iteration', want, got)


def norm_spec(m, types, lits, x):
    out = []
    for y in m.kids[x]:
        if types[y] == 'text' and out and types[out[-1][0]] == 'text':
            out[-1] = (out[-1][0], out[-1][1] + lits[y], [])
        else:
            out.append((y, lits[y], norm_spec(m, types, lits, y)))
    return out


@oracle('C07')
class C07(Oracle):
    on_error = True
    on_timeout = 'normalize does not end'
    shrinkable = False
    rule = ('a case is a tree with many text nodes (some empty); the normalized tree is compared with '
            'a recursive merge of adjacent text children, and normalized twice')

    def one(self, rng):
        types, seq = tree_case(rng, .75)
        return [types, seq, [rng.choice(['', 'a', 'b ', 'cc']) for _ in types]]

    def check(self, case):
        types, seq, lits = case
        nodes, m, _ = apply_ops(seq, len(types), types)
        for x, s in zip(nodes, lits):
            x.literal = s
        num = {id(x): i for i, x in enumerate(nodes)}
        want = norm_spec(m, types, lits, 0)

        def shape(x):
            out, c = [], x.first_child
            while c is not None:
                out.append((num.get(id(c)), c.literal, shape(c)))
                c = c.nxt
            return out
        for k in (1, 2):
            nodes[0].normalize()
            e = gen.pointers(nodes[0])
            if e:
                return e
            got = shape(nodes[0])
            if got != want:
                return differ('normalized (%d)' % k, want, got)
            if nodes[0].literal != lits[0]:
                return 'root changed'
        return None


# ------------------------------------------------------------------ blocks

def skeleton(t):
    """Block structure without inline content."""
    k = t[0]
    if k == 'heading':
        return (k, t[1])
    if k == 'paragraph':
        return (k,)
    if k == 'list':
        return (k, t[1], t[2], t[3], [skeleton(x) for x in t[5]])
    if k == 'code_block':
        return (k, t[1] is not None)
    if k in ('html_block', 'thematic_break'):
        return (k,)
    return (k, [skeleton(x) for x in t[1]])


def literals(t):
    """Code and HTML texts of a tree, in order."""
    out = []
    if isinstance(t, tuple) and t[0] in ('code', 'code_block', 'html_block', 'html_inline'):
        out.append((t[0], t[-1]))
    elif isinstance(t, (tuple, list)):
        for x in t:
            if isinstance(x, (tuple, list)):
                out += literals(x)
    return out


TABBED = ['\t', '\t', ' \t', '  \t', '   \t', '\t ', '\t\t', ' ', '  ', '    ']


@oracle('C08')
class C08(Docs):
    extra = TABBED
    rule = ('a case is a document with tabs in its white space; its tree is compared with a reference '
            'that decides block structure on lines expanded to columns; the column and offset steps '
            'are compared with the same expansion')

    def one(self, rng):
        if rng.random() < .4:
            ws = ''.join(rng.choice([' ', '\t']) for _ in range(rng.randint(0, 7)))
            return [ws + rng.choice(['', 'x', 'x\ty', '>\tz', '-\tz', '\x0b']) +
                    ''.join(rng.choice([' ', '\t', 'q']) for _ in range(rng.randint(0, 4))),
                    [[rng.randint(1, 6), rng.random() < .7, rng.random() < .3]
                     for _ in range(rng.randint(1, 5))]]
        out = []
        for _ in range(rng.randint(1, 6)):
            s = ''
            for _ in range(rng.randint(1, 3)):
                s += rng.choice(TABBED + ['', ''])
                s += rng.choice(['-', '>', '1.', '10)', '+', '', '', '', '>', '```', '#'])
            out.append(s + rng.choice(['\t', ' \t', '  \t', ' ', '']) + rng.choice(['a', 'b', '', 'c\td']))
        return '\n'.join(out)

    def check(self, case):
        if isinstance(case, list):
            return self.steps(case)
        a, b = ref.parse(case), ref.repo_parse(case)
        return differ('tree', a, b)

    def steps(self, case):
        import commonmark
        line, moves = case
        p = commonmark.Parser()
        if not all(hasattr(p, x) for x in ('advance_offset', 'find_next_nonspace', 'current_line',
                                           'offset', 'column', 'partially_consumed_tab')):
            return None
        L = ref.Line(line)
        p.current_line = line
        p.offset = p.column = 0
        p.partially_consumed_tab = False

        def state():
            if L.col >= len(L.cell):
                return (len(line), len(L.cell), False)
            i, first = L.cell[L.col]
            return (i, L.col, first != L.col)
        for count, columns, jump in moves:
            if not columns and L.col < len(L.cell) and L.cell[L.col][1] != L.col:
                columns = True
            if jump:
                p.find_next_nonspace()
                ns = L.nonspace()
                ind = ns - L.col
                want = (ns, ind, ind >= 4, ns >= len(L.cell))
                got = (p.next_nonspace_column, p.indent, bool(p.indented), bool(p.blank))
                if want != got:
                    return differ('next non-space at column %d' % L.col, want, got)
                continue
            p.advance_offset(count, columns)
            for _ in range(count):
                if columns:
                    if L.col < len(L.cell):
                        L.col += 1
                elif L.col < len(L.cell):
                    i = L.cell[L.col][0]
                    while L.col < len(L.cell) and L.cell[L.col][0] == i:
                        L.col += 1
            got = (p.offset, p.column, bool(p.partially_consumed_tab))
            if state() != got:
                # (the flag means nothing past the end of the line)
                return differ('(offset, column, partial tab)', state(), got)
        return None


def everything(ast):
    return gen.snapshot(ast)


@oracle('C09')
class C09(Oracle):
    rule = ('a case is a document with LF line endings, some with NUL characters, and a choice of an '
            'ending per line; trees and outputs of the variants must agree in every field')

    def fixed(self):
        for s in gen.CORPUS:
            yield [s, 1]
            yield [s, 2]

    def one(self, rng):
        s = gen.document(rng, ['\n', '\n', '\x0b', '\u2028', '\x85', '\x1c', '\x0c'])
        if rng.random() < .4:
            for _ in range(rng.randint(1, 3)):
                i = rng.randint(0, len(s))
                s = s[:i] + '\0' + s[i:]
        return [s, rng.randint(1, 2000)]

    def variant(self, s, k):
        parts = s.split('\n')
        if k < 3:
            return {1: '\r', 2: '\r\n'}[k].join(parts)
        rng = random.Random(k)
        out = parts[0]
        for p in parts[1:]:
            e = rng.choice(['\n', '\r', '\r\n'])
            if e == '\n' and out.endswith('\r'):
                e = '\r'
            out += e + p
        return out

    def check(self, case):
        s, k = case
        s = s.replace('\r', '')
        base = parse(s)
        snap = everything(base)
        v = self.variant(s, k)
        if everything(parse(v)) != snap:
            return 'tree of %s differs from that of %s' % (short(v, 120), short(s, 120))
        if not s.endswith('\n'):
            for e in ('\n', '\r', '\r\n'):
                if everything(parse(s + e)) != snap:
                    return 'a final %r changes the tree of %s' % (e, short(s, 120))
        if '\0' in s:
            if everything(parse(s.replace('\0', '\ufffd'))) != snap:
                return 'NUL is not treated as U+FFFD in %s' % short(s, 120)
        ls = ref.Doc(s).n
        if base.sourcepos[1][0] not in (ls, ls + (0 if s else 1)):
            return 'document has %d lines, its end is %s' % (ls, base.sourcepos[1])
        from commonmark import dumpJSON
        for out in (html(base), rst(base), dumpJSON(base)):
            if '\0' in out or '\\u0000' in out and '\\\\u0000' not in out:
                return 'NUL in the output %s' % short(out)
        return None


BLOCKS = ['document', 'block_quote', 'list', 'item', 'paragraph', 'heading', 'code_block', 'html_block',
          'thematic_break']


@oracle('C10')
class C10(Docs):
    rule = ('a case is a document; every block of its tree is checked for a legal parent, being closed '
            'and the data its type needs, and the pointers of the tree for consistency')

    def check(self, s):
        ast = parse(s)
        if ast.t != 'document' or ast.parent is not None:
            return 'the root is not a document'
        e = gen.pointers(ast)
        if e:
            return e
        for n in gen.nodes_of(ast):
            t, p = n.t, n.parent
            if t in BLOCKS:
                if n.is_open:
                    return '%s is not closed' % t
                if p is None:
                    if n is not ast:
                        return 'detached block'
                elif t == 'document':
                    return 'a document inside %s' % p.t
                elif (p.t == 'list') != (t == 'item'):
                    return '%s inside %s' % (t, p.t)
                elif p.t not in ('document', 'block_quote', 'list', 'item'):
                    return '%s inside %s' % (t, p.t)
            elif p.t in ('document', 'block_quote', 'list', 'item', 'code_block', 'html_block',
                         'thematic_break'):
                return '%s inside %s' % (t, p.t)
            if t in ('thematic_break', 'code_block', 'html_block') and n.first_child is not None:
                return '%s has children' % t
            if t == 'heading' and n.level not in (1, 2, 3, 4, 5, 6):
                return 'heading level %r' % (n.level,)
            if t in ('code_block', 'html_block') and not isinstance(n.literal, str):
                return '%s without text' % t
            if t == 'code_block' and n.is_fenced and not isinstance(n.info, str):
                return 'fenced code without info string'
            if t in ('list', 'item'):
                d = n.list_data
                if d.get('type') not in ('bullet', 'ordered') or d.get('tight') not in (True, False):
                    return 'list data %r' % (d,)
                if d['type'] == 'bullet' and d.get('bullet_char') not in ('*', '+', '-'):
                    return 'list data %r' % (d,)
                if d['type'] == 'ordered' and (not isinstance(d.get('start'), int) or
                                               d.get('delimiter') not in ('.', ')')):
                    return 'list data %r' % (d,)
            if t == 'list' and n.first_child is None:
                return 'list without items'
            if t == 'paragraph' and n.first_child is None and not re.search('[\x0b\x0c]', s):
                return 'empty paragraph'
        return None


def long_labels():
    """Brackets around texts near the longest label there is, counted in characters or in pairs."""
    for tok in ('\\a', '\\]', '\\\\', 'a', 'a ', '&#65;'):
        for n in (998, 999, 1000, 1001, 1400):
            for k in {n // len(tok), n}:
                t = tok * k + 'b' * (n % len(tok))
                for f in ('[a][%s] x', '![a][%s]', '[%s]', '[%s][a] y', '[%s](/u)', 'z [b] [a][%s]'):
                    yield f % t


@oracle('C11')
class C11(Oracle):
    on_timeout = 'inline parsing does not end'
    rule = ('a case is a paragraph text with smart on or off; every inline step must advance by at '
            'least one character within the text, and the inline tree is compared with a reference '
            'parser that never moves back')

    def fixed(self):
        for a in gen.INL:
            for b in gen.INL:
                yield [a + b + 'x', False]
        for s in long_labels():
            yield [s, False]
        for s in gen.CORPUS:
            yield [s, False]

    def one(self, rng):
        return [gen.text(rng, gen.INL + ['[a]: /u'], 1, 16), rng.random() < .3]

    def check(self, case):
        s, smart = case
        from commonmark.inlines import InlineParser
        from commonmark.node import Node
        bad = []

        class Watch(InlineParser):
            def parseInline(self, block):
                before = self.pos
                r = InlineParser.parseInline(self, block)
                if r and not (before < self.pos <= len(self.subject)):
                    bad.append('a step goes from %d to %d of %d' % (before, self.pos, len(self.subject)))
                if not r and before != len(self.subject):
                    bad.append('ends at %d of %d' % (before, len(self.subject)))
                if self.pos <= before and r:
                    raise ValueError('no progress')
                return r
        refs = {'A': {'destination': '/u', 'title': ''}, 'B': {'destination': '/v', 'title': 't'}}
        refs = {k.casefold(): v for k, v in refs.items()}
        p = Watch({'smart': smart})
        p.refmap = refs
        n = Node('paragraph', [[1, 1], [1, 1]])
        n.string_content = s
        try:
            p.parse(n)
        except ValueError:
            pass
        if bad:
            return bad[0]
        want = ref.merge(ref.inlines(s, {k: (v['destination'], v['title']) for k, v in refs.items()},
                                     smart))
        return differ('inlines', want, ref.repo_inl(n))


LABELS = ['foo', 'Foo', 'FOO', ' foo', 'foo ', 'f o', 'f  o', 'f\no', 'F\to', 'f\x0bo', '\u1e9e', 'ss', 'SS',
          '\u00df', '\u00c4', '\u00e4', '\u0130', 'i\u0307', '\u017f', 's', '\u212a', 'k', '\u03a3', '\u03c3', '\u03c2',
          '\ufb00', 'ff', 'FF', '\u0390', '\u1fd3', 'a]', 'a\\]', '\\[', 'a[b', ' ', '\n', '', 'x*y*', '\u10a0',
          '\u2d00', '\U00010400', '\U00010428', '\u13f8', '\u13f0', '\uab70', '\u13a0', '\u00a0foo', 'foo!']


@oracle('C12')
class C12(Oracle):
    rule = ('a case is a document of link reference definitions (valid and broken, equivalent labels) '
            'and their uses; its tree is compared with the reference parser')

    def fixed(self):
        for a in LABELS:
            for b in LABELS:
                yield '[%s]: /one\n\n[%s]: /two "t"\n\n[%s] [%s] [q][%s]' % (a, b, a, b, b)
        some = [d + t for d in ('/u', '/v', '<>') for t in ('', ' "t"', ' "s"', ' ""')]
        for k in (2, 3):
            for ds in itertools.product(some, repeat=k):
                yield '\n'.join('[%s]: %s' % (x, d) for x, d in zip('aAa', ds)) + '\n\n[a] ![A]'
        for s in long_labels():
            t = s[s.rfind('[') + 1:s.rfind(']')]
            yield '[%s]: /one\n\n%s' % (t, s)
        for s in gen.CORPUS:
            yield s

    def one(self, rng):
        out = []
        for _ in range(rng.randint(1, 5)):
            k = rng.random()
            if k < .6:
                la = rng.choice(LABELS) if rng.random() < .6 else gen.text(rng, LABELS, 1, 2)
                s = rng.choice(['', '', ' ', '   ', 'x ', '    ', '> ', '- ']) + '[' + la + ']' + \
                    rng.choice([':', ':', ':', ': ', ':\n', ' :', '', ':\n\n', '::'])
                s += rng.choice(['/u%d' % rng.randint(0, 3), '<v %d>' % rng.randint(0, 3), '<>', '', '(',
                                 'a\\ b', '<x', '\\"', '[w](z)'])
                s += rng.choice(['', '', ' ', '\n', ' \n ', '  ', '\t', '\n\n'])
                s += rng.choice(['', '', '"t"', "'u'", '(v)', '"t" x', '"a\\"b"', '"', '"a\nb"', '""', "''x",
                                 '(a(b)', '"t"  ', "'a\n\nb'", '=', '==='])
                out.append(s)
            elif k < .9:
                la = rng.choice(LABELS)
                out.append(rng.choice(['[%s]', '[t][%s]', '![%s]', '[%s][]', 'p [%s] q', '[%s](/x)']) % la)
            else:
                out.append(rng.choice(['text', '===', '---', '', '# h', '- i']))
        return rng.choice(['\n', '\n', '\n\n']).join(out)

    def check(self, s):
        a = ref.parse(s)
        b = ref.repo_parse(s)
        return differ('tree', a, b)


# ------------------------------------------------------------------ state, options

@oracle('C13')
class C13(Oracle):
    shrinkable = False
    rule = ('a case is a sequence of documents given to one parser and one renderer of each kind, '
            'interleaved with new parsers and renderers with other options; each result must equal '
            'that of fresh objects')

    OPTS = [{}, {'smart': True}, {'safe': True}, {'softbreak': '<br />'}, {'sourcepos': True},
            {'smart': True, 'safe': True}]
    DOCS = ['[a]: /u\n\n[a]', '[a]', '[a] [b]\n\n[b]: /v', '- a\n\n- b', '![x *y', '![x](/u) *z*', '> a\nb',
            '    code\tx', '-\t\tx', '```\nopen', '"q" -- \'r\'...', '# h\n\n<div>', '<i>a</i>\nb', '',
            '[z](javascript:x)', '- a\n  - b\n\n    c', '![a ![b](/c)](/d) e', '*a **b', '1. x\n   > y',
            'a\r', '\0', '[foo]: <x> "t"\n[foo]: /y\n\n[FOO]', '\\', '&copy;', '   \tq', '* * *', '<!-- x']

    def one(self, rng):
        docs = [rng.choice(self.DOCS) if rng.random() < .7 else gen.document(rng)
                for _ in range(rng.randint(2, 5))]
        return [docs, rng.randrange(len(self.OPTS)), rng.randrange(len(self.OPTS)),
                [rng.randrange(len(self.OPTS)) for _ in docs]]

    def check(self, case):
        import commonmark
        from commonmark import HtmlRenderer, Parser, ReStructuredTextRenderer, dumpJSON
        docs, po, ro, other = case

        def opt(i):
            return dict(self.OPTS[i])
        given = opt(ro)
        p, h, r = Parser(opt(po)), HtmlRenderer(given), ReStructuredTextRenderer()
        dp, dh = Parser(), HtmlRenderer()
        keep = []
        for s, k in zip(docs, other):
            f = Parser(opt(po)).parse(s)
            a = p.parse(s)
            fs = everything(f)
            if everything(a) != fs:
                return 'reused parser gives another tree for %s' % short(s, 120)
            keep.append((a, fs, s))
            want = (HtmlRenderer(opt(ro)).render(f), ReStructuredTextRenderer().render(f), dumpJSON(f))
            got = (h.render(a), r.render(a), dumpJSON(a))
            if want != got:
                return differ('reused renderer on %s' % short(s, 100), want, got)
            # other objects, with other options, in between
            q = Parser(opt(k))
            HtmlRenderer(opt(k)).render(q.parse(s + '\n\n[a]: /other'))
            d = dp.parse(s)
            if everything(d) != everything(Parser({}).parse(s)):
                return 'a parser without options depends on other objects (%s)' % short(s, 120)
            if dh.render(d) != HtmlRenderer({}).render(d):
                return 'a renderer without options depends on other objects (%s)' % short(s, 120)
            if given != self.OPTS[ro]:
                return 'the options given were changed to %r' % (given,)
        for a, fs, s in keep:
            if everything(a) != fs:
                return 'the tree of %s changed later' % short(s, 120)
        return None


SMART = ['"', "'", '-', '--', '---', '.', '..', '...', '....', ' ', 'a', 'b', '(', ')', ',', '*', '\n', '\u201c',
         '`-- "`', '\\"', "\\'", '<a b="--">', '[', '](/u "--...")', '1', '\u2014', '![', '-', '--']


@oracle('C14')
class C14(Oracle):
    rule = ('a case is a text with hyphens, full stops and quotes parsed with smart on and off; its '
            'inline tree is compared with the reference; run lengths 1 to 200 are all tried')

    def fixed(self):
        for n in range(1, 200):
            yield 'a' + '-' * n + 'b'
            yield '[x](/' + '-' * n + ') ' + '-' * n
            yield 'x ' + '.' * n
        for a in itertools.product(['"', "'", ' ', 'a', '.', '(', '\n'], repeat=4):
            yield 'x' + ''.join(a)

    def one(self, rng):
        return 'x' + gen.text(rng, SMART, 1, 14)

    def check(self, s):
        for smart in (True, False):
            a, b = ref.parse(s, smart), ref.repo_parse(s, smart)
            if a != b:
                return differ('smart %s' % smart, a, b)
        from commonmark import inlines
        if hasattr(inlines, 'smart_dashes') and re.match('a-+b$', s) and len(s) > 3:
            got = inlines.smart_dashes(s[1:-1])
            return differ('dashes', ref.smart_dashes(len(s) - 2), got)
        return None


MARK = ['*', '**', '***', '* * *', '_ _ _', '-', '--', '---', '- - -', '-\t-\t-', '+', '#', '##', '######',
        '#######', '# ', '#\t', '#x', '```', '````', '~~~', '~~~~', '``', '``` a', '``` a`b', '~~~ a`b', '=',
        '===', '= =', '>', '> ', '1.', '1)', '2.', '123456789.', '1234567890.', '01.', '0.', '\u0661.', '1.x',
        '- x', '-x', '*x', '+ ', '1. x', '10) y', '*** x', '--- -', '~~~ x ~~~', '```  ', '   ', '-  ', '*\t', '<!--',
        '<div>', '<p', '</x>', '<a href>', '<?', '<!A', '<![CDATA[', '<script>', '<pre', 'x', '__', '_____ ', '-*-']

TAILS = ['\t', ' \t', '\x0c', '\x0b', '\xa0', '\u2003', ' x', '\\', '\tx', '#', ' #', '\x1c']


def facts(b):
    """Blocks of a ref tree with what the line decides."""
    if b.t == 'code_block':
        return (b.t, b.fenced) + ((b.fchar, b.flen) if b.fenced else ())
    if b.t == 'heading':
        return (b.t, b.level)
    if b.t == 'list':
        return (b.t, b.kind, b.num, b.delim, [facts(x) for x in b.c])
    if b.t in ('document', 'block_quote', 'item'):
        return (b.t, [facts(x) for x in b.c])
    return (b.t,)


def repo_facts(b):
    if b.t == 'code_block':
        return (b.t, bool(b.is_fenced)) + ((b.fence_char, b.fence_length) if b.is_fenced else ())
    if b.t == 'heading':
        return (b.t, b.level)
    kids, c = [], b.first_child
    if b.t in ('document', 'block_quote', 'item', 'list'):
        while c is not None:
            kids.append(repo_facts(c))
            c = c.nxt
    if b.t == 'list':
        d = b.list_data
        return (b.t, d['type'], d['start'],
                d['delimiter'] if d['type'] == 'ordered' else d['bullet_char'], kids)
    if kids or b.t in ('document', 'block_quote', 'item'):
        return (b.t, kids)
    return (b.t,)


@oracle('C15')
class C15(Docs):
    rule = ('a case is a document of marker lines in several kinds of enclosing block; block types, '
            'heading levels, fences and list markers are compared with the reference; every marker '
            'in every context at indentation 0 to 5 is tried')

    def fixed(self):
        for m in MARK:
            for pre in ('', 'p\n', '> q\n', '- i\n', '- ', '> ', '1. ', '```\n', '    c\n', '<div>\n', 'p\n\n',
                        '# h\n', '[a]: /u\n', '- i\n\n', '~~~~\n', '- p\n  ', '> p\n> ', '> p\n', '- ```\n  '):
                for k in range(6):
                    yield pre + ' ' * k + m + ('' if k % 2 else '\nz')
        for pre in ('', 'p\n', '```\n', '~~~\n', '- ', 'p\n\n', '> ```\n> '):
            for m in MARK:
                for t in TAILS:
                    yield pre + m + t + '\nz'

    def one(self, rng):
        if rng.random() < .3:
            return gen.document(rng)
        return '\n'.join(rng.choice(gen.INDENT[:8]) + rng.choice(['', '', '', '> ', '- ', '1. ']) +
                         rng.choice(MARK + ['', 'p', 'p']) +
                         (rng.choice(TAILS) if rng.random() < .15 else '') for _ in range(rng.randint(1, 6)))

    def check(self, s):
        want = facts(ref.Doc(s).root)
        got = repo_facts(parse(s))
        return differ('blocks', want, got)


FLANK = ['a', 'Z', '1', '\u00e9', '\U0001f600', '\u4e00', ' ', '\t', '\n', '\x0c', '\r', '\u00a0', '\u1680', '\u2000', '\u2003',
         '\u200a', '\u202f', '\u205f', '\u3000', '.', '"', "'", '(', ')', '*', '_', '-', '$', '+', '<', '|', '^', '~', '`',
         '\u00a1', '\u201c', '\u2019', '\u2026', '\u3001', '\u060c', '\u1400', '\U00010100', '\U0001039f', '\U00016a6e',
         '\U0001bc9f', '\U0001da8b', '\u00a3', '\u20ac', '\u00b0', '\u2190', '\x0b', '\x1c', '\x85', '\u200b', '\u2028', '\u2029',
         '\u180e', '\ufeff', '\u0301', '\u00ad', '\u0660', '\u2160', '\x00', '\x7f', '\ue000', '\uffff']
# punctuation assigned after the table of the code was made, and two characters reclassified since:
# the property is not decided for them
UNSTABLE = [[1565, 1565], [2557, 2557], [2678, 2678], [3191, 3191], [3204, 3204], [5741, 5741],
            [7037, 7038], [11843, 11855], [11858, 11869], [69293, 69293], [69461, 69465],
            [69510, 69513], [70089, 70089], [70731, 70735], [70746, 70747], [70749, 70749],
            [71264, 71276], [71353, 71353], [71739, 71739], [72004, 72006], [72162, 72162],
            [72255, 72262], [72346, 72348], [72350, 72354], [72448, 72457], [72769, 72773],
            [72816, 72817], [73463, 73464], [73539, 73551], [73727, 73727], [77809, 77810],
            [93847, 93850], [94178, 94178], [125278, 125279]]


def stable(c):
    return not any(a <= ord(c) <= b for a, b in UNSTABLE)


@oracle('C16')
class C16(Oracle):
    rule = ('a case is (text before, delimiter character, run length, text after); length, can-open and '
            'can-close of the run are compared with the flanking rules, for all pairs of '
            'characters of a fixed list and random code points')

    def fixed(self):
        for b in [''] + FLANK:
            for a in [''] + FLANK:
                for c in '*_':
                    yield [b, c, 1, a]
        import unicodedata
        for i in range(0x20000):
            x = chr(i)
            if unicodedata.category(x)[0] == 'P' and stable(x) and x not in '*_':
                for c in '*_':
                    yield ['a', c, 1, x]
                    yield [x, c, 2, 'b']
        for n in range(1, 20):
            for c in '*_"\'':
                yield ['a', c, n, 'b']
                yield [' ', c, n, 'b']

    def one(self, rng):
        def ch():
            if rng.random() < .4:
                return rng.choice(FLANK + [''])
            while True:
                c = chr(rng.choice([rng.randrange(0x250), rng.randrange(0x2000, 0x3100),
                                    rng.randrange(0x20000), rng.randrange(0xd800)]))
                if stable(c) and not '\ud800' <= c <= '\udfff':
                    return c
        return [rng.choice(['', 'q', '* ']) + ch(), rng.choice('**__"\''), rng.choice([1, 1, 2, 3, 4, 7]),
                ch() + rng.choice(['', 'q', ' *'])]

    def check(self, case):
        from commonmark.inlines import InlineParser
        b, c, n, a = case
        s = b + c * n + a
        at = len(b)
        if b.endswith(c):
            # the run begins earlier: look at it in its middle, as the parser never does
            return None
        p = InlineParser({})
        if not hasattr(p, 'scanDelims'):
            return None
        p.subject, p.pos = s, at
        r = p.scanDelims(c)
        m = ref.run_at(s, at) if c in '*_' else 1
        want = (m,) + tuple(map(bool, ref.flanking(s, at, m)))
        got = (r['numdelims'], bool(r['can_open']), bool(r['can_close']))
        if p.pos != at:
            return 'the position moves from %d to %d' % (at, p.pos)
        return differ('(length, opens, closes)', want, got)


EMPH = ['*', '**', '***', '****', '_', '__', '___', 'a', 'b', ' ', '.', '(', ')', '[', '](/u)', '`*`', '\\*', '"', '\n',
        '*a', 'b*', '**c', 'd**', '_e', 'f_', ' *', '* ', '![']


@oracle('C17')
class C17(Oracle):
    on_timeout = 'emphasis processing does not end'
    rule = ('a case is a text dense with * and _ runs; its emphasis tree is compared with a matcher '
            'that tries every opener for every closer; all texts of up to 6 tokens of a small '
            'alphabet are tried')

    def fixed(self):
        for k in range(1, 7):
            for t in itertools.product(['*', '**', '_', 'a', ' ', '***'][:6 if k < 5 else 4], repeat=k):
                yield 'x' + ''.join(t)

    def one(self, rng):
        if rng.random() < .1:
            return ''.join(rng.choice('*_') * rng.randint(1, 9) + rng.choice('ab .') for _ in
                           range(rng.randint(2, 25)))
        return 'x' + gen.text(rng, EMPH, 2, 16)

    def check(self, s):
        a, b = ref.parse(s), ref.repo_parse(s)
        if a != b:
            return differ('tree', a, b)
        from commonmark.inlines import InlineParser
        from commonmark.node import Node
        p = InlineParser({})
        n = Node('paragraph', [[1, 1], [1, 1]])
        n.string_content = s
        p.parse(n)
        if getattr(p, 'delimiters', None) is not None:
            return 'delimiters are left on the stack'
        return gen.pointers(n)


CODEY = ['`', '``', '```', '~~~', '~~~~', '    ', '  ', ' ', '\t', '\n', '\n\n', 'x', 'y', '*z*', '\\`', '\\', '&amp;', '<b>', '> ', '- ',
         '<div>\n', '</div>', '<!--', '-->', '<?', '?>', '<script>', '</script>', '\n```\n', '\n~~~\n', '\n    c\n', '  \n', '` ', ' `',
         '\u00a0', '\x0c', '[a](b)', '<![CDATA[', ']]>', '<!X', '>', '``` i\n', '   ```\n', '"']


@oracle('C18')
class C18(Docs):
    rule = ('a case is a document dense with code spans, code blocks and HTML; the texts of its code '
            'and HTML nodes are compared in order with the reference')

    def one(self, rng):
        k = rng.random()
        if k < .35:
            return 'x' + gen.text(rng, ['`', '`', '``', ' ', '  ', '\n', 'a', '*b*', '\\', '&lt;', '<c>', '  \n', '\u00a0', '[d](e)'], 2, 12)
        if k < .6:
            return gen.lines(rng, ['```', '~~~', '```', 'a  ', '  b', '    c', '', '  ', '\td', '> ```', '- ~~~', '- e', '> f', '````', '``` g', '</div>', '<div>', '<!-- h', '-->', '     i', '``` \\* &amp;'])
        return gen.text(rng, CODEY, 1, 16)

    def check(self, s):
        return differ('literal texts', literals(ref.parse(s)), literals(ref.repo_parse(s)))


@oracle('C19')
class C19(Docs):
    shrinkable = False
    rule = ('a case is a document or a built tree and a sequence of render, dump and walk operations; every field of '
            'every node must be as before and every result that of a fresh parse')

    def cases(self, rng, i, n):
        while True:
            k = rng.random()
            yield [gen.document(rng) if k < .4 else rng.choice(gen.CORPUS) if k < .6 else
                   gen.block_tree(rng, 3),
                   [rng.choice(['html', 'safe', 'pos', 'rst', 'json', 'ast', 'walk', 'half'])
                    for _ in range(rng.randint(1, 4))]]

    def check(self, case):
        s, seq = case
        fresh = parse if isinstance(s, str) else gen.build
        tree = fresh(s)
        before = everything(tree)
        for op in seq:
            got = self.do(op, tree)
            if everything(tree) != before:
                return '%s changes the tree of %s' % (op, short(s, 120))
            want = self.do(op, fresh(s))
            if got != want:
                return differ(op, want, got)
        return None

    def do(self, op, tree):
        from commonmark import dumpAST, dumpJSON
        if op == 'html':
            return html(tree)
        if op == 'safe':
            return html(tree, safe=True, softbreak=' ')
        if op == 'pos':
            return html(tree, sourcepos=True)
        if op == 'rst':
            return rst(tree)
        if op == 'json':
            return dumpJSON(tree)
        if op == 'ast':
            old, sys.stdout = sys.stdout, io.StringIO()
            try:
                dumpAST(tree)
                return sys.stdout.getvalue()
            finally:
                sys.stdout = old
        w = tree.walker()
        n = 0
        for _ in range(5 if op == 'half' else 10 ** 6):
            if w.nxt() is None:
                break
            n += 1
        return n


ENT = ['&amp;', '&lt;', '&copy;', '&nbsp;', '&ouml;', '&Ouml;', '&AMP;', '&amp', '&copy', '&', '&;', '&x;', '&foo;', '&notit;', '&ngE;',
       '&#65;', '&#x41;', '&#X41;', '&#0;', '&#x0;', '&#128;', '&#xD800;', '&#1114112;', '&#9999999;', '&#12345678;', '&#xffffff;',
       '&#x1234567;', '&#;', '&#x;', '&#a;', '&hellip;', '&frac34;', '&HilbertSpace;', '&ClockwiseContourIntegral;', '&#10;', '&#x9;',
       '&ltx;', '&lt', '&GT;', '&quot;', '&#34;', '&rpar;', '&rsqb;', '&ast;', '&#42;', '&bsol;', '&there4;', '&MadeUpEntity;', '&NotEqualTilde;']


@oracle('C20')
class C20(Oracle):
    rule = ('a case is a text of escapes and character references; it is put into text, destinations, '
            'titles and info strings and the trees are compared with the reference; a backslash before '
            'every character below U+0250 and every HTML5 name is tried')

    def fixed(self):
        import html.entities
        for c in range(1, 0x250):
            if chr(c) not in '\r\n':
                yield '\\' + chr(c)
        for e in ENT:
            yield e
        for k in sorted(html.entities.html5):
            if k.endswith(';'):
                yield '&' + k
            else:
                yield '&' + k + 'x;'
        for n in range(0, 700):
            yield '&#%d;' % n
            yield '&#x%x;' % (n * 97)

    def one(self, rng):
        k = rng.random()
        if k < .3:
            return '\\' + chr(rng.choice([rng.randrange(32, 127), rng.randrange(160, 0xd7ff)])) + rng.choice(['', '\\', 'a'])
        return gen.text(rng, ENT + ['\\', '\\\\', '\\&', '\\*', '\\"', '\\a', 'x', '\\`', '&', ';', '#'], 1, 5)

    SHAPES = ['x%sy', 'x[a](</%s>)y', '[a](/%s)', '[a](/u "t%sv")', "[a](/u 't%sv')", '[a](/u (t%sv))', '[a]: </%s> "t%s"\n\n[a]',
              '``` i%s\nc\n```', '~~~ i%s x\nc\n~~~', '# h%s', '*%s*', '`%s`', '    %s', '<http://x%s>', '![%s](/u)', '[%s]\n\n[%s]: /u']

    def check(self, t):
        for sh in self.SHAPES:
            s = sh.replace('%s', t)
            a, b = ref.parse(s), ref.repo_parse(s)
            if a != b:
                return differ('tree of %s' % short(s, 100), a, b)
        return None


@oracle('C21')
class C21(Docs):
    on_error = True
    on_timeout = 'parsing or rendering does not end within the time limit'
    rule = ('a case is a document (or a repeated fragment of it); parsing with every option and '
            'rendering or dumping to all formats must end without an exception')

    def fixed(self):
        for s in gen.CORPUS:
            yield s
        for t in gen.BLK + gen.INL + gen.LINES + SMART + gen.INDENT:
            yield t * 60
            yield '[' * 30 + t * 30
            yield (t + '\n') * 40
        for c in range(0, 256):
            yield chr(c)
        for t in ['> ', '- ', '[', '*a ', '**a*', '`', '<', '&', '![', '_a', '\\', '"', '(', '1. ', '# ', '\t', '\0', '[a](', '*_']:
            yield t * 400
        yield ''

    def one(self, rng):
        k = rng.random()
        if k < .06:
            return gen.text(rng, gen.INL + gen.BLK, 1, 3) * rng.randint(10, 150)
        if k < .15:
            return ''.join(chr(rng.choice([rng.randrange(128), rng.randrange(0x300), rng.randrange(0xd800),
                                           rng.randrange(0xe000, 0x110000)])) for _ in range(rng.randint(1, 20)))
        return gen.document(rng, ENT + SMART if k < .3 else ())

    def check(self, s):
        import commonmark
        for o in ({}, {'smart': True}):
            ast = parse(s, **o)
            for ro in ({}, {'safe': True, 'sourcepos': True}, {'softbreak': ''}):
                html(ast, **ro)
            rst(ast)
            commonmark.dumpJSON(ast)
            if len(s) < 60:
                old, sys.stdout = sys.stdout, io.StringIO()
                try:
                    commonmark.dumpAST(ast)
                finally:
                    sys.stdout = old
        if len(s) < 40:
            for f in ('html', 'rst', 'json'):
                commonmark.commonmark(s, f)
        return None


def list_view(t):
    if t[0] == 'list':
        return ['list'] + list(t[1:5]) + [[list_view(x) for x in it[1]] for it in t[5]]
    if t[0] in ('document', 'block_quote', 'item'):
        return [t[0]] + [list_view(x) for x in t[1]]
    return [t[0]]


@oracle('C22')
class C22(Docs):
    rule = ('a case is a document of list items; type, start, delimiter, tightness and grouping of '
            'items are compared with the reference, which looks at the blank lines between blocks')
    POOL = ['- a', '- b', '* c', '+ d', '1. e', '2. f', '1) g', '3) h', '0. i', '007. j', '', '', '', '  k', '   l', '    m', '- n\n\n  o', '-', '1.',
            '  - p', '  * q', '   1. r', '> s', '- > t', '- ```\n\n  ```', '  ```\n\n  ```', '- # u', '- [v]: /w', '  [x]: /y', '  > z', '- - aa', '     code', '<!-- c -->',
            '- <!-- c', '999999999. bb', '-\n\n  cc', '---', '  ']

    def fixed(self):
        for t in itertools.product(['- a', '* b', '1. c', '', '  d', '  - e'], repeat=4):
            yield '\n'.join(t)

    def one(self, rng):
        if rng.random() < .2:
            return gen.document(rng)
        return '\n'.join(rng.choice(['', '', '', '', ' ', '  ', '    ', '> ']) + rng.choice(self.POOL)
                         for _ in range(rng.randint(2, 8)))

    def check(self, s):
        d = ref.Doc(s)
        e = differ('lists', list_view(ref.block(d.root)), list_view(ref.repo_parse(s)))
        if e:
            return e
        # items carry the data of their own marker
        for n in gen.nodes_of(parse(s)):
            if n.t == 'list':
                a, b = n.list_data, n.first_child.list_data
                for k in ('type', 'start', 'delimiter', 'bullet_char'):
                    if a[k] != b[k]:
                        return '%s of the list is %r, of its first item %r' % (k, a[k], b[k])
                c = n.first_child
                while c is not None:
                    for k in ('type', 'delimiter', 'bullet_char'):
                        if c.list_data[k] != a[k]:
                            return '%s of the list is %r, of an item %r' % (k, a[k], c.list_data[k])
                    c = c.nxt
        return None


@oracle('C23')
class C23(Docs):
    rule = ('a case is a document; start and end lines of every block are checked for order, range, '
            'containment in the parent and order among siblings, and start lines against the reference')

    def check(self, s):
        ast = parse(s)
        d = ref.Doc(s)
        n = max(1, d.n)
        stack = [ast]
        while stack:
            b = stack.pop()
            (l1, c1), (l2, c2) = b.sourcepos
            if not all(isinstance(x, int) for x in (l1, c1, l2, c2)):
                return '%s has position %s' % (b.t, b.sourcepos)
            if not (1 <= l1 <= l2 <= n) and not (b is ast and s == ''):
                return '%s has lines %d to %d of %d' % (b.t, l1, l2, n)
            c, last = b.first_child, l1 - 1
            if b.t in ('document', 'block_quote', 'list', 'item'):
                first = True
                while c is not None:
                    m1, m2 = c.sourcepos[0][0], c.sourcepos[1][0]
                    if m1 < l1 or m2 > l2:
                        return '%s (%d-%d) is outside its parent %s (%d-%d)' % (c.t, m1, m2, b.t, l1, l2)
                    if not first and m1 <= last:
                        return 'siblings overlap or are out of order at line %d' % m1
                    first, last = False, m2
                    stack.append(c)
                    c = c.nxt
        return None


# ------------------------------------------------------------------ rst

WORDS = ['wa', 'wb', 'wc', 'w&d', 'w<e>', 'w*f*', 'w g', '"h"', 'w\\i', '`', 'w\u00e9']


@oracle('C24')
class C24(Oracle):
    shrinkable = False
    rule = ('a case is a tree with numbered texts; the rst output must hold every text and code line in '
            'document order, with the indentation of its containers, the same before and after each '
            'nested container, and the heading underlines')

    def one(self, rng):
        cnt = [0]

        def word():
            cnt[0] += 1
            return 'Q%dz' % cnt[0] + rng.choice(['', '', rng.choice(WORDS)])

        def inl(d):
            out = [['text', word()]]
            for _ in range(rng.randint(0, 2)):
                k = rng.random()
                if k < .3:
                    out.append(['text', ' ' + word()])
                elif k < .5:
                    out.append(['code', word()])
                elif k < .6:
                    out += [['softbreak'], ['text', word()]]
                elif k < .7:
                    out += [['linebreak'], ['text', word()]]
                elif d > 0 and k < .85:
                    out.append([rng.choice(['emph', 'strong']), inl(d - 1)])
                elif d > 0 and k < .93:
                    out.append(['link', '/u', '', inl(d - 1)])
                elif d > 0:
                    out.append(['image', '/v', '', inl(0)])
            return out

        def blk(d):
            out = []
            for _ in range(rng.randint(1, 3)):
                k = rng.random()
                if k < .4 or d <= 0:
                    out.append(['paragraph', inl(2)])
                elif k < .5:
                    h = inl(0)
                    out.append(['heading', rng.randint(1, 6), [x for x in h if x[0] in ('text', 'code', 'emph', 'strong')]])
                elif k < .62:
                    ls = [rng.choice(['', '', '  ', '    ', '\t']) + word() if rng.random() < .8 else '' for _ in range(rng.randint(1, 4))]
                    if not ls[0].strip():
                        ls[0] = word()
                    out.append(['code_block', rng.choice([None, '', 'py', 'c x']), '\n'.join(ls) + rng.choice(['\n', '\n', ''])])
                elif k < .8:
                    out.append(['block_quote', blk(d - 1)])
                else:
                    kind = rng.choice(['bullet', 'ordered'])
                    out.append(['list', kind, 1, rng.random() < .5, [blk(d - 1) for _ in range(rng.randint(1, 2))]])
            return out
        return blk(3)

    def check(self, tree):
        tree = tree + [['paragraph', [['text', 'LASTz']]]]
        ast = gen.build(tree)
        out = rst(ast)
        # texts in order
        pos = 0
        lits = []
        for n in gen.nodes_of(ast):
            if n.t in ('text', 'code'):
                lits.append(n.literal)
            elif n.t == 'code_block':
                lits += [x.strip('\n') for x in n.literal.split('\n') if x.strip()]
        for x in lits:
            j = out.find(x, pos)
            if j < 0:
                return 'text %s is missing or out of order in %s' % (short(x), short(out))
            pos = j + len(x)
        # every text exactly once (tokens are numbered)
        for x in lits:
            tok = re.search(r'Q\d+z|LASTz', x).group()
            if out.count(tok) != 1:
                return 'text %s is written %d times' % (tok, out.count(tok))
        # indentation
        where = {}
        lines = out.split('\n')
        for k, ln in enumerate(lines):
            m = re.match(r'( *)(Q\d+z|LASTz)', ln)
            if m:
                where[m.group(2)] = (len(m.group(1)), k)
        amount = {}
        e = self.indents(ast, 0, amount, where)
        if e:
            return e + ' in %s' % short(out)
        # code blocks: the relative indentation of every line is kept
        for n in gen.nodes_of(ast):
            if n.t == 'code_block':
                e = self.code(n, lines)
                if e:
                    return e
            if n.t == 'heading':
                toks = [re.search(r'Q\d+z', x.literal).group() for x in gen.nodes_of(n)
                        if x.t in ('text', 'code')]
                ks = [k for k, ln in enumerate(lines) if toks[-1] in ln]
                if not ks or ks[0] + 1 >= len(lines):
                    return 'heading %s has no underline' % toks[-1]
                u, c = lines[ks[0] + 1].strip(' '), '#*=-^"'[n.level - 1]
                if not u or set(u) != {c}:
                    return 'heading of level %d is underlined with %s' % (n.level, short(u))
                text = ''.join(x.literal for x in gen.nodes_of(n) if x.t in ('text', 'code'))
                if len(u) < len(text):
                    return 'heading underline is shorter than the heading'
        return None

    def code(self, n, lines):
        want = (n.literal[:-1] if n.literal.endswith('\n') else n.literal).split('\n')
        tok = re.search(r'Q\d+z', want[0]).group()
        k = [i for i, ln in enumerate(lines) if tok in ln][0]
        got = lines[k:k + len(want)]
        pre = len(got[0]) - len(want[0])
        if pre <= 0:
            return 'code block is not indented'
        for g, w in zip(got, want):
            if w and g != ' ' * pre + w or not w and g.strip(' '):
                return 'code line %s is written as %s' % (short(w), short(g))
        return None

    def indents(self, n, have, amount, where):
        """Lines beginning with a text: indentation of the containers, equal amounts per type."""
        c = n.first_child
        while c is not None:
            t = c.t
            inner = have
            if t == 'paragraph':
                f = c.first_child
                if f is not None and f.t == 'text':
                    tok = re.match(r'Q\d+z|LASTz', f.literal)
                    w = tok and where.get(tok.group())
                    if w and w[0] != have and not (isinstance(have, tuple)):
                        return 'text %s is indented by %d, its container by %d' % (tok.group(), w[0], have)
            elif t in ('block_quote', 'item'):
                key = t if t != 'item' else 'item ' + c.list_data['type']
                if key not in amount:
                    amount[key] = self.learn(c)
                inner = have + amount[key]
            if t in ('block_quote', 'item', 'list'):
                e = self.indents(c, inner, amount, where)
                if e:
                    return e
            c = c.nxt
        return None

    def learn(self, c):
        """The amount a container of this type indents its content by, in a document of its own."""
        if c.t == 'block_quote':
            tree = [['block_quote', [['paragraph', [['text', 'Ka']]], ['paragraph', [['text', 'Kb']]]]]]
        else:
            tree = [['list', c.list_data['type'], 1, False,
                     [[['paragraph', [['text', 'Ka']]],
                       ['code_block', None, 'x\n'], ['paragraph', [['text', 'Kb'], ['softbreak'], ['text', 'Kc']]]]]]]
        for ln in rst(gen.build(tree)).split('\n'):
            m = re.match('( *)K[bc]', ln)
            if m and m.group(1):
                return len(m.group(1))
        return 0
