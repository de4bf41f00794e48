"""Block structure (C15, C08, C22, C18, C10, C23): commonmark.blocks."""
import re
import z3
from pyvc.contract import Contract, When, ens
from pyvc import relang as rl
from pyvc.engine import And, Or, Not, Implies, Ite, bval, slen, char_at, sfx
from pyvc.langs import inlang
from pyvc.vals import *
from .tree import TREE, ptrs
from .blockinv import BINV, BLOCKS, TEXTS, HOLDERS, among, may_hold
from . import columns as co, spec_blk as sp, text as tx
from .columns import COL, NNS, TAB, unfold, position, col_hook

CONTRACTS = []
B_ = 'commonmark.blocks.'
SV = z3.StringVal
NOEOL = rl.star(rl.chr_(rl.cs_of('\n\r').inv()))
SPACE = rl.chr_(rl.cs_of(' \t'))


def add(name, params, **k):
    c = Contract(B_ + name, params, **k)
    CONTRACTS.append(c)
    return c


def the(e):
    return e.args['parser' if 'parser' in e.args else 'self'].e


def g(st, r, a):
    return z3.Select(st.arr('Parser', a), r)


def old(e, a):
    return g(e.o, the(e), a)


def new(e, a):
    return g(e.n, the(e), a)


def scanned(st, r):
    """What find_next_nonspace leaves behind."""
    f = lambda a: g(st, r, a)
    s, n, o = f('current_line'), f('next_nonspace'), f('offset')
    return And(position(st, r), inlang(NOEOL, s), inlang(NOEOL, sfx(s, n)), o <= n, n <= slen(s), unfold(s, n), NNS(s, o) == n, NNS(s, n) == n,
               Implies(f('partially_consumed_tab'), n > o), f('next_nonspace_column') == COL(s, n),
               f('indent') == f('next_nonspace_column') - f('column'),
               f('indented') == (f('indent') >= 4), f('blank') == (n == slen(s)))


SCANNED = ('next non-space known', lambda e: scanned(e.o, the(e)))
PARSER = {'parser': 'ref:Parser!'}
BOTH = dict(PARSER, container='ref:Node!')


def mods(*attrs, **kw):
    def m(e):
        d = {'Parser.' + a: [the(e)] for a in attrs}
        if 'more' in kw:
            d.update(kw['more'](e))
        return d
    return m


POS = ('offset', 'column', 'partially_consumed_tab')


def true(e):
    return bval(e.eng.truth(e.res, e.n))


def rv(e):
    return e.eng.as_int(e.res)


def rest(e):
    return sfx(old(e, 'current_line'), old(e, 'next_nonspace'))


# ---- list markers
def eqv(e, v, r, attr):
    """Field attr of the record r holds the value v of the specification."""
    f = lambda flag='': z3.Select(e.n.arr('ListData', attr, flag), r)
    if isinstance(v, Py) and v.obj is None:
        return f('?')
    t = e.eng.as_int(v) if attr == 'start' else e.eng.as_str(v)
    return And(Not(f('?')), f() == t)


def wherever(e):
    return [Implies(And(old(e, 'indent') < 4, MARKER(e), Not(par(e).e)), e.res.e != null),
            Implies(And(old(e, 'indent') < 4, MARKER(e), MARKER_PAR1(e), par(e).e), e.res.e != null)]


def marker_cmp(e, s, r):
    d = e.res.e
    if isinstance(r, Py) and r.obj is None:
        return [('a list marker exactly where specified', 'C15 C22', And(
            d == null, *[new(e, a) == old(e, a) for a in POS]))]
    kind, bullet, start, delim, width = r.items
    f = lambda a: z3.Select(e.n.arr('ListData', a), d)
    line, n = old(e, 'current_line'), old(e, 'next_nonspace')
    w = e.eng.as_int(width)
    after = n + w
    end = NNS(line, after)
    spaces = COL(line, end) - COL(line, after)
    s.pc.append(unfold(line, after))
    wide = Or(end == slen(line), spaces >= 5)
    col = COL(line, after) + Ite(wide, z3.IntVal(1), spaces)
    m, mc = e.n.loc.get('spaces_start_offset'), e.n.loc.get('spaces_start_col')
    return [('a list marker exactly where specified', 'C15 C22', d != null)] + ([
        ('the marker ends where specified', '*', And(m.e == after, mc.e == COL(line, after)), 'step')]
        if isinstance(m, I) and isinstance(mc, I) else []) + [
            ('type, bullet, start and delimiter as specified', 'C22', And(
                d != null, eqv(e, kind, d, 'type'), eqv(e, bullet, d, 'bullet_char'),
                eqv(e, start, d, 'start'), eqv(e, delim, d, 'delimiter'), f('tight'))),
            ('marker offset is the indentation', 'C08 C15', f('marker_offset') == old(e, 'indent')),
            ('padding: columns from the marker to the content', 'C08 C15', And(
                Not(z3.Select(e.n.arr('ListData', 'padding', '?'), d)),
                f('padding') == w + Ite(wide, z3.IntVal(1), spaces))),
            ('reads on at the content column', 'C08 C15', And(
                position(e.n, the(e)), new(e, 'column') == Ite(col <= COL(line, slen(line)), col, COL(line, slen(line)))))]


def par(e):
    return B(e.old(e.t('container'), 't') == code('t', 'paragraph'))


def marker_loops(v):
    if v.fn != 'parse_list_marker':
        return []
    p = v.loc('parser').e
    s, o = g(v.st, p, 'current_line'), g(v.st, p, 'offset')
    c = v.loc('spaces_start_offset')
    out = [('position', position(v.st, p)), ('unfold', unfold(s, o))]
    ch = char_at(s, o)
    out.append(('at white space', Or(o >= slen(s), ch == SV(' '), ch == TAB)))
    if isinstance(c, I):
        out.append(('only white space since the marker', And(o >= c.e, NNS(s, o) == NNS(s, c.e))))
    return out


MARKER, MARKER_PAR, MARKER_PAR1 = [(lambda lang: lambda e: inlang(lang, rest(e)))(rl.pat(p).search) for p in (
    r'^(?:[*+-]|[0-9]{1,9}[.)])(?:[ \t]|\Z)', r'^(?:[*+-]|[0-9]{1,9}[.)])[ \t]+[^ \t]', r'^[*+-][ \t]+[^ \t]')]
add('parse_list_marker', BOTH, requires=[SCANNED], hooks=[col_hook], returns='ref:ListData', allocs=True, inv=BINV,
    modifies=mods(*POS), tags='C15 C22 C08', loops=[marker_loops], tlimit=300,
    spec=(sp.marker, lambda e: [S(rest(e)), I(old(e, 'indent')), par(e)], marker_cmp), ensures=[
        ens('no marker: nothing is consumed', 'C15 C08', lambda e: Implies(e.res.e == null, And(*[
            new(e, a) == old(e, a) for a in POS]))),
        ens('a marker only where its form allows it', 'C15', lambda e: [Implies(e.res.e != null, g) for g in (
            old(e, 'indent') < 4, MARKER(e), Implies(par(e).e, MARKER_PAR(e)))]),
        ens('a marker wherever its form asks for it', 'C15', wherever),
        ens('new list data, tight so far', 'C22', lambda e: Implies(e.res.e != null, And(
            Not(z3.Select(e.o.alloc, e.res.e)), z3.Select(e.n.arr('ListData', 'tight'), e.res.e),
            z3.Select(e.n.arr('ListData', '$full'), e.res.e)))),
        ens('reading position', 'C15 C08', lambda e: position(e.n, the(e)))])


def same_field(e, a):
    """Both dictionaries give the same for .get(a): a missing key counts as None."""
    x, y = e.t('list_data'), e.t('item_data')
    f = lambda r, flag='': z3.Select(e.o.arr('ListData', a, flag), r)
    none = lambda r: Or(f(r, '?'), Not(z3.Select(e.o.arr('ListData', '$full'), r)))
    return And(none(x) == none(y), Implies(Not(none(x)), f(x) == f(y)))


add('lists_match', {'list_data': 'ref:ListData!', 'item_data': 'ref:ListData!'}, returns='bool', tags='C22 C15',
    ensures=[ens('same list exactly if type, delimiter and bullet agree', 'C22 C15', lambda e: true(e) == And(
        *[same_field(e, a) for a in ('type', 'delimiter', 'bullet_char')]))])


# ---- continuation of open blocks
def nn_char(e):
    return char_at(old(e, 'current_line'), old(e, 'next_nonspace'))


def still(e):
    return And(*[new(e, a) == old(e, a) for a in POS])


def after_quote_mark(e):
    """Reads on behind the > and one optional column of space."""
    s, n = old(e, 'current_line'), old(e, 'next_nonspace')
    c = char_at(s, n + 1)
    space = And(n + 1 < slen(s), Or(c == SV(' '), c == TAB))
    return Implies(unfold(s, n + 1), And(position(e.n, the(e)), new(e, 'column') == COL(s, n + 1) + Ite(
        space, z3.IntVal(1), z3.IntVal(0))))


def mark(e):
    return And(Not(old(e, 'indented')), old(e, 'next_nonspace') < slen(old(e, 'current_line')), nn_char(e) == SV('>'))


add('BlockQuote.continue_', BOTH, requires=[SCANNED], hooks=[col_hook], returns='int', modifies=mods(*POS), tags='C15 C08',
    ensures=[ens('a block quote goes on exactly at a > indented less than four columns', 'C15 C08',
                 lambda e: rv(e) == Ite(mark(e), z3.IntVal(0), z3.IntVal(1))),
             ens('one column of space behind the > belongs to it', 'C08 C15', lambda e: Implies(mark(e), after_quote_mark(e))),
             ens('else nothing is consumed', 'C08 C15', lambda e: Implies(Not(mark(e)), still(e)))])


# ---- content of code and HTML blocks
BLK = {'parser': 'ref:Parser!', 'block': 'ref:Node!'}


def has_text(e):
    return Not(e.old(e.t('block'), 'string_content', flag='?'))


LINES = ('has text', has_text)


def node_mods(*attrs):
    return lambda e: {'Node.' + a: [e.t('block')] for a in attrs}


def field(e, attr, v):
    """The node's field holds the value."""
    none = e.new(e.t('block'), attr, flag='?')
    return And(Not(none), e.new(e.t('block'), attr) == v)


def code_cmp(e, s, r):
    info, lit = r.items
    out = [('literal: the lines of the block', 'C18', field(e, 'literal', e.eng.as_str(lit)))]
    if isinstance(info, Py):
        return out + [('no info string', 'C18', And(*[
            e.new(e.t('block'), 'info', flag=x) == e.old(e.t('block'), 'info', flag=x) for x in ('', '?')]))]
    return out + [('info string: the first line, unescaped', 'C20 C18', field(e, 'info', tx.UNESC(e.eng.as_str(info))))]


add('CodeBlock.finalize', BLK, requires=[LINES, ('a first line', lambda e: Implies(
    e.old(e.t('block'), 'is_fenced'), z3.Contains(e.old(e.t('block'), 'string_content'), SV('\n'))))],
    modifies=node_mods('literal', 'info', 'string_content'), tags='C18 C20 C10 C21',
    spec=(sp.code, lambda e: [S(e.old(e.t('block'), 'string_content')), B(e.old(e.t('block'), 'is_fenced'))], code_cmp),
    ensures=[ens('the literal is set', 'C10 C21', lambda e: Not(e.new(e.t('block'), 'literal', flag='?'))),
             ens('the info string of a fenced block is set', 'C10 C21', lambda e: Implies(
                 e.old(e.t('block'), 'is_fenced'), Not(e.new(e.t('block'), 'info', flag='?'))))])
add('HtmlBlock.finalize', BLK, requires=[LINES], modifies=node_mods('literal', 'string_content'), tags='C18 C10 C21',
    spec=(sp.html, lambda e: [S(e.old(e.t('block'), 'string_content'))], lambda e, s, r: [
        ('literal: the lines without blank lines at the end', 'C18', field(e, 'literal', e.eng.as_str(r)))]),
    ensures=[ens('the literal is set', 'C10 C21', lambda e: Not(e.new(e.t('block'), 'literal', flag='?')))])


# ---- what may stand where (C10)
LEAVES = ('Heading', 'ThematicBreak', 'CodeBlock', 'HtmlBlock', 'Paragraph')
for c_ in ('Document', 'List', 'BlockQuote', 'Item') + LEAVES:
    add(c_ + '.can_contain', {'t': 'enum:t'}, returns='bool', tags='C10', ensures=[
        ens('only items in lists, items nowhere else, nothing in leaves', 'C10', lambda e, c_=c_: true(e) == (
            e['t'].e == code('t', 'item') if c_ == 'List' else
            z3.BoolVal(False) if c_ in LEAVES else e['t'].e != code('t', 'item')))])


def trivial(c_, v):
    add(c_ + '.continue_', BOTH, returns='int', tags='C15', ensures=[
        ens('goes on: %s' % ('never' if v else 'always'), 'C15 C10', lambda e: rv(e) == v)])


trivial('Document', 0)
trivial('List', 0)
trivial('Heading', 1)
trivial('ThematicBreak', 1)
add('Paragraph.continue_', BOTH, returns='int', tags='C15', ensures=[
    ens('a paragraph ends exactly at a blank line', 'C15', lambda e: rv(e) == Ite(old(e, 'blank'), z3.IntVal(1), z3.IntVal(0)))])


def html_type(e):
    return e.old(e.t('container'), 'html_block_type')


add('HtmlBlock.continue_', BOTH, returns='int', tags='C15 C18', requires=[
    ('HTML block type', lambda e: e.old(e.t('container'), 'html_block_type', flag='!'))], ensures=[
    ens('types 6 and 7 end exactly at a blank line', 'C15 C18', lambda e: rv(e) == Ite(And(
        old(e, 'blank'), Or(html_type(e) == 6, html_type(e) == 7)), z3.IntVal(1), z3.IntVal(0)))])


def ld(e, a, flag=''):
    return z3.Select(e.o.arr('ListData', a, flag), e.old(e.t('container'), 'list_data'))


def item_data(e):
    return And(e.old(e.t('container'), 'list_data') != null, ld(e, '$full'), Not(ld(e, 'padding', '?')),
               ld(e, 'padding') + ld(e, 'marker_offset') > 0)


def item_clause(e):
    need = ld(e, 'padding') + ld(e, 'marker_offset')
    empty = e.old(e.t('container'), 'first_child') == null
    blank = old(e, 'blank')
    on = Or(And(blank, Not(empty)), And(Not(blank), old(e, 'indent') >= need))
    return [rv(e) == Ite(on, z3.IntVal(0), z3.IntVal(1)), Implies(And(on, blank), And(
        new(e, 'offset') == old(e, 'next_nonspace'), new(e, 'column') == old(e, 'next_nonspace_column'))),
        Implies(And(on, Not(blank)), new(e, 'column') == old(e, 'column') + need), Implies(on, position(e.n, the(e))),
        Implies(Not(on), still(e))]


add('Item.continue_', BOTH, requires=[SCANNED, ('list data', item_data)], hooks=[col_hook], returns='int',
    modifies=mods(*POS), tags='C15 C08', ensures=[
    ens('an item goes on exactly with lines indented to its content, or blank ones if it has content', 'C15 C08',
        lambda e: item_clause(e)[0]),
    ens('at a blank line everything is consumed', 'C08', lambda e: item_clause(e)[1]),
    ens('exactly the columns of the item are consumed', 'C08 C15', lambda e: item_clause(e)[2]),
    ens('the position stays a column of the line', 'C08', lambda e: item_clause(e)[3]),
    ens('else nothing is consumed', 'C08 C15', lambda e: item_clause(e)[4])])


# ---- tightness (C22).  Ghost functions of the entry heap, by recursion on the tree:
EWB = z3.Function('ends_with_blank', Ref, z3.BoolSort())        # ends with a blank line, descending
LOOSE = z3.Function('loose_from', Ref, z3.BoolSort())           # some item from here on is separated
LOOSE_SUB = z3.Function('loose_child_from', Ref, Ref, z3.BoolSort())
MUST = z3.Function('must_be_loose_from', Ref, z3.BoolSort())    # the same without descending
MUST_SUB = z3.Function('must_be_loose_child_from', Ref, Ref, z3.BoolSort())


def nf(st, r, a, flag=''):
    return z3.Select(st.arr('Node', a, flag), r)


def blank_def(st, r):
    t = nf(st, r, 't')
    return And(EWB(r) == Or(nf(st, r, 'last_line_blank'), And(
        Or(t == code('t', 'list'), t == code('t', 'item')), EWB(nf(st, r, 'last_child')))), Not(EWB(null)))


def loose_def(st, r):
    def both(fn, sub, ends):
        x = z3.Const('item', Ref)
        nxt, par = nf(st, r, 'nxt'), nf(st, r, 'parent')
        more = nxt != null
        outer = nf(st, par, 'nxt') != null
        return [fn(r) == Or(And(ends(r), more), sub(r, nf(st, r, 'first_child')), fn(nxt)), Not(fn(null)), Not(sub(par, null)),
                Not(sub(r, null)), sub(par, r) == Or(And(ends(r), Or(outer, more)), sub(par, nxt))]
    return And(*(both(LOOSE, LOOSE_SUB, EWB) + both(MUST, MUST_SUB, lambda x: nf(st, x, 'last_line_blank'))))


BLANKS = [('Node', ('last_line_blank', 'last_line_checked', 't', 'last_child'), blank_def)]
def descend(v):
    b = v.args['block'].e
    out = []
    for k, x in v.locals_of(R):
        if x.cls == 'Node':
            out += [('the same end', Implies(EWB(x.e), EWB(b))),
                    ('true is found at once', Or(x.e == b, Not(nf(v.pre, b, 'last_line_blank'))))]
    return out


add('ends_with_blank_line', {'block': 'ref:Node'}, returns='bool', tags='C22', defs=BLANKS,
    modifies=lambda e: {'Node.last_line_checked': 'any'},
    loops=[descend],
    ensures=[ens('true only if it ends with a blank line', 'C22', lambda e: Implies(
        And(true(e), *[z3.BoolVal(e.o.arr('Node', a).eq(e.eng.prestate.arr('Node', a))) for a in BLANKS[0][1] if a != 'last_line_checked']),
        EWB(e.t('block')))),
             ens('true if its own last line is blank', 'C22', lambda e: Implies(
                 And(e.t('block') != null, e.old(e.t('block'), 'last_line_blank')), true(e)))])


def tight(st, e):
    d = nf(e.o, e.t('block'), 'list_data')
    return z3.Select(st.arr('ListData', 'tight'), d)


def first(e):
    return e.old(e.t('block'), 'first_child')


def list_loops(v):
    """Whatever the locals are called: one of them an item, one of them a child of it."""
    b = v.args['block'].e
    d = nf(v.pre, b, 'list_data')
    now, was = z3.Select(v.st.arr('ListData', 'tight'), d), z3.Select(v.pre.arr('ListData', 'tight'), d)
    fc = nf(v.pre, b, 'first_child')
    nodes = [x.e for k, x in v.locals_of(R) if x.cls == 'Node' and not x.e.eq(b)]
    out = [('loose only if separated', Or(now == was, And(Not(now), LOOSE(fc))))]
    for x in nodes:
        out += [('an item', Or(x == null, nf(v.pre, x, 'parent') == b)),
                ('separated if from here', Implies(LOOSE(x), LOOSE(fc))),
                ('separated for certain: found or still ahead', Or(Not(now), Not(MUST(fc)), MUST(x)))]
        for y in nodes:
            if y is not x:
                out += [('a child of the item', Or(y == null, nf(v.pre, y, 'parent') == x)),
                        ('separated if from here (child)', Implies(LOOSE_SUB(x, y), LOOSE(fc))),
                        ('for certain: found or still ahead (child)', Or(
                            Not(now), Not(MUST(fc)), MUST_SUB(x, y), MUST(nf(v.pre, x, 'nxt'))))]
    return out


add('List.finalize', BLK, tags='C22', defs=BLANKS + [('Node', ('first_child', 'nxt'), loose_def)], inv=TREE,
    requires=[('list data', lambda e: And(nf(e.o, e.t('block'), 'list_data') != null, z3.Select(
        e.o.arr('ListData', '$full'), nf(e.o, e.t('block'), 'list_data'))))],
    modifies=lambda e: {'Node.last_line_checked': 'any', 'ListData.tight': [nf(e.o, e.t('block'), 'list_data')]},
    loops=[list_loops], ensures=[
        ens('loose only if a blank line separates items or children of an item', 'C22', lambda e: Or(
            tight(e.n, e) == tight(e.o, e), And(Not(tight(e.n, e)), LOOSE(first(e)))), calls=lambda eng: False),
        ens('loose if an item or child that is not the last ends with a blank line', 'C22', lambda e: Implies(
            MUST(first(e)), Not(tight(e.n, e))), calls=lambda eng: False)])


# ---- text of a block
SELF = {'self': 'ref:Parser!'}
POSITION = ('reading position', lambda e: position(e.o, the(e)))


def tip_text(e):
    t = old(e, 'tip')
    return And(t != null, Not(e.old(t, 'string_content', flag='?')))


def added(e):
    """The rest of the line; the columns left of a tab that is used up in part come as spaces."""
    t, s, o, c = (old(e, a) for a in ('tip', 'current_line', 'offset', 'column'))
    part = old(e, 'partially_consumed_tab')
    left = COL(s, o + 1) - c
    pad = Ite(part, Ite(left == 1, SV(' '), Ite(left == 2, SV('  '), SV('   '))), SV(''))
    return z3.Concat(e.old(t, 'string_content'), pad, sfx(s, Ite(part, o + 1, o)), SV('\n'))


add('Parser.add_line', SELF, requires=[POSITION, ('the tip has text', tip_text)], tags='C08 C18 C10', hooks=[col_hook],
    pre=co.col_facts, modifies=lambda e: {'Node.string_content': [old(e, 'tip')], 'Parser.offset': [the(e)]}, ensures=[
        ens('the rest of the line is added, the rest of a tab as spaces', 'C08 C18', lambda e: And(
            e.new(old(e, 'tip'), 'string_content') == added(e), Not(e.new(old(e, 'tip'), 'string_content', flag='?')))),
        ens('the offset passes the tab', 'C08', lambda e: new(e, 'offset') == old(e, 'offset') + Ite(
            old(e, 'partially_consumed_tab'), z3.IntVal(1), z3.IntVal(0)))])


# ---- closing blocks
REFS = ('parser ready for references', lambda e: And(old(e, 'inline_parser') != null, old(e, 'refmap') != null))
KEY = z3.Const('any_label', Str)


def known(st, e):
    return z3.Select(z3.Select(st.arr('RefMap', '$map'), old(e, 'refmap')), KEY)


def closing(attrs, ptr=True):
    """What closing a block may change: its fields, the tree around it, references and inline parser."""
    def m(e):
        ip = old(e, 'inline_parser')
        d = {'Node.' + a: 'any' for a in attrs}
        d.update({'InlineParser.pos': [ip], 'InlineParser.subject': [ip], 'RefMap.$map': [old(e, 'refmap')]})
        return d
    return m


PTRS = ('parent', 'first_child', 'last_child', 'prv', 'nxt')
STAYS = ens('the first definition of a label stays', 'C12', lambda e: Or(
    known(e.o, e) == known(e.n, e), And(known(e.o, e) == null, known(e.n, e) != null)))


def para_loops(v):
    b = v.args['block'].e
    was, now = (nf(st, b, 'string_content') for st in (v.pre, v.st))
    none = z3.Select(v.st.arr('Node', 'string_content', '?'), b)
    e = Env_(v)
    out = [('text', Not(none)), ('what is left is the end of the text', z3.SuffixOf(now, was)),
           ('the first definition stays', bval(STAYS.f(e)))]
    d = [x for k, x in v.locals_of(B)]
    for x in d:
        out.append(('definitions seen iff text taken', bval(v.eng.truth(x, v.st)) == (slen(now) < slen(was))))
    out.append(('nothing taken without a bracket', Or(now == was, char_at(was, 0) == SV('['))))
    return out


class Env_(object):
    """What clause functions need, at a loop head."""

    def __init__(self, v):
        self.o, self.n, self.args, self.eng = v.pre, v.st, v.args, v.eng

    def t(self, k):
        return self.args[k].e


def para_variant(v):
    return [('text left', slen(nf(v.st, v.args['block'].e, 'string_content')))]


def left(e):
    b = e.t('block')
    was, now = e.old(b, 'string_content'), e.new(b, 'string_content')
    return b, was, now


BLANKTEXT = rl.star(rl.cls(r'[ \t\f\v\r\n]'))


def gone(e):
    b, was, now = left(e)
    return And(*[e.new(b, a) == null for a in ('parent', 'nxt', 'prv')])


add('Paragraph.finalize', BLK, requires=[LINES, REFS, ('closed', lambda e: Not(e.old(e.t('block'), 'is_open')))], inv=BINV, allocs=True, terminates=True, tags='C12 C21 C10',
    modifies=lambda e: dict(ptrs('block')(e), **{
        'Node.string_content': [e.t('block')], 'InlineParser.pos': [old(e, 'inline_parser')],
        'InlineParser.subject': [old(e, 'inline_parser')], 'RefMap.$map': [old(e, 'refmap')]}),
    loops=[para_loops], variants=[para_variant], ensures=[
        ens('what is left is the end of the text', 'C12', lambda e: z3.SuffixOf(left(e)[2], left(e)[1])),
        ens('it still has text', 'C10', lambda e: Not(e.new(e.t('block'), 'string_content', flag='?'))),
        ens('only text that begins with a bracket can lose anything', 'C12', lambda e: Or(
            left(e)[2] == left(e)[1], char_at(left(e)[1], 0) == SV('['))),
        ens('a paragraph of nothing but definitions is taken out, else none is', 'C12 C10', lambda e: Ite(
            Or(left(e)[2] == SV(''), And(left(e)[2] != left(e)[1], inlang(BLANKTEXT, left(e)[2]))),
            And(gone(e), Implies(e.old(e.t('block'), 'parent') != null, last_of(e) == Ite(
                e.old(e.t('block'), 'nxt') != null, e.old(e.old(e.t('block'), 'parent'), 'last_child'),
                e.old(e.t('block'), 'prv')))),
            And(last_of(e) == e.old(e.old(e.t('block'), 'parent'), 'last_child'),
                *[e.new(e.t('block'), a) == e.old(e.t('block'), a) for a in PTRS]))), STAYS])


def last_of(e):
    return e.new(e.old(e.t('block'), 'parent'), 'last_child')


def b_(e):
    return e.t('block' if 'block' in e.args else 'container')


def is_(e, *ts):
    t = e.old(b_(e), 't')
    return Or(*[t == code('t', x) for x in ts])


list_data = lambda e: e.old(b_(e), 'list_data')
CLOSABLE = [
    ('an open block', lambda e: And(is_(e, *BLOCKS), e.old(b_(e), 'is_open'))),
    ('nothing open inside', lambda e: shut(e.o, e.old(b_(e), 'last_child'))),
    ('a fenced block has a first line', lambda e: Implies(And(is_(e, 'code_block'), e.old(b_(e), 'is_fenced')), z3.Contains(
        e.old(b_(e), 'string_content'), SV('\n'))), 'every fenced block gets the rest of its first line at once'),
    ('a list has list data', lambda e: Implies(is_(e, 'list'), And(list_data(e) != null, z3.Select(
        e.o.arr('ListData', '$full'), list_data(e)))), 'every list gets its data at once')]


def shut(st, c):
    """No open block."""
    return Or(c == null, Not(nf(st, c, 'is_open')), Not(among(nf(st, c, 't'), BLOCKS)))


def known_of(st, r):
    """The invariants hold of this node, too."""
    return Implies(And(r != null, z3.Select(st.alloc, r)), And(*[HEAPINV[i][2](st, r) for i in BINV]))


def there(st, *rs):
    """What fields refer to exists, and the invariants hold of it, too."""
    for r in rs:
        st.pc.append(Or(r == null, z3.Select(st.alloc, r)))
        st.pc.append(known_of(st, r))


def around(eng, st, a):
    b = a['block'].e
    there(st, nf(st, b, 'prv'), nf(st, b, 'parent'))


def around_tip(eng, st, a):
    t = g(st, a['self'].e, 'tip')
    there(st, t, nf(st, t, 'parent'))


def end_pos(e, st):
    return z3.Select(st.arr('SP', '1'), e.old(b_(e), 'sourcepos'))


def closing_mods(e):
    ip = old(e, 'inline_parser')
    d = ptrs('block' if 'block' in e.args else 'container')(e)
    d['Node.last_line_checked'] = 'any'
    d.update({'Node.' + a: [b_(e)] for a in ('is_open', 'string_content', 'literal', 'info')})
    d.update({'ListData.tight': [list_data(e)], 'SP.1': [e.old(b_(e), 'sourcepos')], 'Parser.tip': [the(e)],
              'InlineParser.pos': [ip], 'InlineParser.subject': [ip], 'RefMap.$map': [old(e, 'refmap')]})
    return d


add('Parser.finalize', {'self': 'ref:Parser!', 'block': 'ref:Node!', 'line_number': 'int'}, requires=CLOSABLE + [REFS], inv=BINV,
    pre=around,
    allocs=True, modifies=closing_mods, tags='C10 C23 C21 C12', ensures=[
        ens('the block is closed', 'C10', lambda e: Not(e.new(b_(e), 'is_open'))),
        ens('reading goes on in the block around it', 'C10', lambda e: new(e, 'tip') == e.old(b_(e), 'parent')),
        ens('nothing open is left in the block around', 'C10', lambda e: Or(
            e.old(b_(e), 'parent') == null, shut(e.n, nf(e.n, e.old(b_(e), 'parent'), 'last_child')))),
        ens('it ends at the end of the line given', 'C23', lambda e: And(
            z3.Select(e.n.arr('Pos', '0'), end_pos(e, e.n)) == e.eng.as_int(e['line_number']),
            z3.Select(e.n.arr('Pos', '1'), end_pos(e, e.n)) == old(e, 'last_line_length'))),
        ens('code and HTML blocks get their text', 'C10 C21', lambda e: Implies(is_(e, 'code_block', 'html_block'), Not(
            e.new(b_(e), 'literal', flag='?')))), STAYS])


# ---- opening blocks
CLOSED = ['Node.' + a for a in PTRS + ('is_open', 'string_content', 'literal', 'info', 'last_line_checked')] + \
    ['ListData.tight', 'SP.1']


def tip(e, st=None):
    return g(st or e.o, the(e), 'tip')


def tag(e):
    return e['tag'].e


READY = ('an open block to add to', lambda e: And(
    tip(e) != null, among(nf(e.o, tip(e), 't'), BLOCKS), nf(e.o, tip(e), 'is_open'), shut(e.o, nf(e.o, tip(e), 'last_child')),
    Or(nf(e.o, tip(e), 't') == code('t', 'document'), nf(e.o, tip(e), 'parent') != null)))


def opening_mods(*more):
    def m(e):
        d = {k: 'any' for k in CLOSED}
        ip = old(e, 'inline_parser')
        d.update({'Parser.' + a: [the(e)] for a in ('tip',) + more})
        d.update({'InlineParser.pos': [ip], 'InlineParser.subject': [ip], 'RefMap.$map': [old(e, 'refmap')]})
        return d
    return m


def child_loops(v):
    p = v.args['self'].e
    was, now = g(v.pre, p, 'tip'), g(v.st, p, 'tip')
    above = nf(v.pre, was, 'parent')
    return [('nothing vanishes', z3.Select(v.st.alloc, was)), ('still around the tip', Implies(now == was, nf(v.st, was, 'parent') == above)),
            ('at the tip, or at what is around it', Or(now == was, And(now == above, Not(nf(v.st, was, 'is_open')), may_hold(
        nf(v.pre, now, 't'), v.args['tag'].e), Not(may_hold(nf(v.pre, was, 't'), v.args['tag'].e))))), ('a block', And(now != null, among(nf(v.pre, now, 't'), BLOCKS))),
        ('open', nf(v.st, now, 'is_open')), ('nothing open inside', shut(v.st, nf(v.st, now, 'last_child'))),
        ('the first definition stays', bval(STAYS.f(Env_(v))))]


def pos_of(e, st, r, i, k):
    return z3.Select(st.arr('Pos', str(k)), z3.Select(st.arr('SP', str(i)), nf(st, r, 'sourcepos')))


def child(e):
    return e.res.e


add('Parser.add_child', {'self': 'ref:Parser!', 'tag': 'enum:t', 'offset': 'int'}, returns='ref:Node', allocs=True, inv=BINV, pre=around_tip,
    requires=[READY, REFS, ('items go into lists', lambda e: And(among(tag(e), BLOCKS[1:]), (tag(e) == code('t', 'item')) == And(
        nf(e.o, tip(e), 't') == code('t', 'list'), tag(e) == code('t', 'item'))))],
    modifies=opening_mods(), loops=[child_loops], tags='C10 C23 C15', ensures=[
        ens('a new open block of this type', 'C10 C15', lambda e: And(
            child(e) != null, nf(e.n, child(e), 't') == tag(e), nf(e.n, child(e), 'is_open'), new(e, 'tip') == child(e),
            Not(z3.Select(e.o.alloc, child(e))), nf(e.n, child(e), 'first_child') == null, nf(e.n, child(e), 'last_child') == null)),
        ens('in the tip, or where it may stand in the block around', 'C10', lambda e: Or(
            nf(e.n, child(e), 'parent') == tip(e), And(nf(e.n, child(e), 'parent') == nf(e.o, tip(e), 'parent'), Not(may_hold(
                nf(e.o, tip(e), 't'), tag(e))), Not(nf(e.n, tip(e), 'is_open'))))),
        ens('a block that cannot hold it is closed', 'C10', lambda e: Or(
            may_hold(nf(e.o, tip(e), 't'), tag(e)), Not(nf(e.n, tip(e), 'is_open')))),
        ens('it begins here', 'C23', lambda e: And(
            pos_of(e, e.n, child(e), 0, 0) == old(e, 'line_number'), pos_of(e, e.n, child(e), 0, 1) == e.eng.as_int(e['offset']) + 1)),
        ens('without text yet', 'C10 C18', lambda e: nf(e.n, child(e), 'string_content') == SV('')), STAYS])


# ---- closing what the line does not continue
REACH = z3.Function('inside_or_at', Ref, Ref, z3.BoolSort())    # b is reached from r going up
DEPTH = z3.Function('depth', Ref, z3.IntSort())


def goal_(st, e):
    return g(st, the(e), 'last_matched_container')


def up_def(st, r):
    """Going up from a node; trees have no cycles (assumed)."""
    p, m = nf(st, r, 'parent'), z3.Const('matched$', Ref)
    return And(DEPTH(r) >= 0, Implies(p != null, DEPTH(r) == DEPTH(p) + 1), Not(REACH(null, MATCHED)),
               REACH(r, MATCHED) == Or(r == MATCHED, REACH(p, MATCHED)))


MATCHED = z3.Const('matched', Ref)
X = z3.Const('any_block', Ref)


def close_pre(eng, st, a):
    p = a['self'].e
    t, m = g(st, p, 'oldtip'), g(st, p, 'last_matched_container')
    st.pc.append(MATCHED == m)
    there(st, t, m, nf(st, t, 'parent'), X, nf(st, X, 'parent'))
    st.pc += [Implies(r != null, up_def(st, r)) for r in (t, m, X)]


def close_ready(e):
    t, m = old(e, 'oldtip'), old(e, 'last_matched_container')
    return Or(old(e, 'all_closed'), And(
        t != null, m != null, t == tip(e), among(nf(e.o, t, 't'), BLOCKS), nf(e.o, t, 'is_open'),
        shut(e.o, nf(e.o, t, 'last_child')), among(nf(e.o, m, 't'), BLOCKS), Or(
            nf(e.o, m, 't') == code('t', 'document'), nf(e.o, m, 'parent') != null)))


def close_loops(v):
    p = v.args['self'].e
    was, now = g(v.pre, p, 'oldtip'), g(v.st, p, 'oldtip')
    r = z3.Const('r$up', Ref)
    closed = lambda x: And(DEPTH(x) > DEPTH(now), REACH(x, MATCHED))
    return [('a block, open', And(now != null, among(nf(v.pre, now, 't'), BLOCKS), nf(v.st, now, 'is_open'))),
            ('reading there', g(v.st, p, 'tip') == now),
            ('nothing open inside', shut(v.st, nf(v.st, now, 'last_child'))),
            ('on the way up', REACH(now, MATCHED)), ('above', DEPTH(now) <= DEPTH(was)),
            ('what is around is as it was', z3.ForAll([r], Implies(
                DEPTH(r) <= DEPTH(now), nf(v.st, r, 'parent') == nf(v.pre, r, 'parent')), patterns=[nf(v.st, r, 'parent')])),
            ('its text is as it was', z3.ForAll([r], Implies(
                DEPTH(r) <= DEPTH(now), And(*[nf(v.st, r, 'string_content', f) == nf(v.pre, r, 'string_content', f)
                                              for f in ('', '?')])), patterns=[nf(v.st, r, 'string_content')])),
            ('the first definition stays', bval(STAYS.f(Env_(v))))]


def unless_closed(mods):
    return lambda e: {k: When(Not(old(e, 'all_closed')), what) for k, what in mods(e).items()}


add('Parser.close_unmatched_blocks', SELF, allocs=True, inv=BINV, pre=close_pre,
    requires=[REFS, ('the open blocks not matched lie inside the matched one', close_ready),
              ('going up from the tip leads to the matched block', lambda e: Or(old(e, 'all_closed'), REACH(
                  old(e, 'oldtip'), MATCHED)), 'the matched block was found going down from the document to the tip')],
    defs=[('Node', ('parent',), up_def)], modifies=unless_closed(opening_mods('oldtip', 'all_closed')), loops=[close_loops], tags='C10 C15 C23', ensures=[
        ens('all closed', 'C10', lambda e: new(e, 'all_closed')),
        ens('reading goes on in the matched block', 'C10 C15', lambda e: Ite(
            old(e, 'all_closed'), new(e, 'tip') == tip(e), new(e, 'tip') == old(e, 'last_matched_container'))),
        ens('nothing open is left in it', 'C10', lambda e: Or(old(e, 'all_closed'), And(
            shut(e.n, nf(e.n, new(e, 'tip'), 'last_child')), nf(e.n, new(e, 'tip'), 'is_open'),
            nf(e.n, new(e, 'tip'), 'parent') == nf(e.o, new(e, 'tip'), 'parent')))),
        ens('its text is as it was', 'C15 C18', lambda e: Or(old(e, 'all_closed'), And(*[
            nf(e.n, new(e, 'tip'), 'string_content', f) == nf(e.o, new(e, 'tip'), 'string_content', f) for f in ('', '?')]))), STAYS])


# ---- block starts
def looking_at(pattern, flags=0):
    lang = rl.pat(pattern, flags).search
    return lambda e: inlang(lang, rest(e))


def here_container(e):
    """The container is the innermost block the line is in so far."""
    c = e.t('container')
    return And(c == Ite(old(e, 'all_closed'), tip(e), old(e, 'last_matched_container')), Implies(old(e, 'all_closed'), READY[1](e)))


def start_pre(eng, st, a):
    p = a['parser'].e
    t, m = g(st, p, 'oldtip'), g(st, p, 'last_matched_container')
    q = g(st, p, 'tip')
    st.pc.append(MATCHED == m)
    there(st, t, m, q, nf(st, q, 'parent'), nf(st, t, 'parent'), nf(st, m, 'parent'), a['container'].e)
    st.pc += [Implies(r != null, up_def(st, r)) for r in (t, m)]


START = [SCANNED, REFS, ('the open blocks not matched lie inside the matched one', close_ready),
         ('the innermost block so far', here_container)]


def start_mods(*attrs):
    def m(e):
        d = opening_mods('oldtip', 'all_closed', *POS)(e)
        for a in attrs:
            d.setdefault('Node.' + a, [])
        return d
    return m


def same_tree(e):
    return And(*[nf(e.n, X, a) == nf(e.o, X, a) for a in ('t', 'is_open', 'parent', 'first_child', 'last_child', 'nxt', 'prv')])


def opened(e, t):
    x = new(e, 'tip')
    return And(x != null, nf(e.n, x, 't') == code('t', t), nf(e.n, x, 'is_open'), Not(z3.Select(e.o.alloc, x)))


def start(name, t, when, result, *ensures, **k):
    where = k.pop('where', lambda e: old(e, 'next_nonspace'))
    add('BlockStarts.' + name, BOTH, requires=START + k.pop('requires', []), pre=start_pre, hooks=[col_hook], returns='int', inv=BINV,
        allocs=True, modifies=start_mods(*k.pop('attrs', ())), tags='C15 C08 C10', defs=[('Node', ('parent',), up_def)], ensures=[
            ens('starts exactly where specified', 'C15', lambda e: rv(e) == Ite(when(e), z3.IntVal(result), z3.IntVal(0))),
            ens('if it starts: an open block of its type', 'C15 C10', lambda e: Implies(when(e), opened(e, t))),
            ens('it begins here', 'C23', lambda e: Implies(when(e), And(
                pos_of(e, e.n, new(e, 'tip'), 0, 0) == old(e, 'line_number'),
                pos_of(e, e.n, new(e, 'tip'), 0, 1) == where(e) + 1))),
            ens('if not, nothing is consumed or changed', 'C15 C08', lambda e: Implies(Not(when(e)), And(
                still(e), new(e, 'tip') == tip(e), new(e, 'all_closed') == old(e, 'all_closed'), same_tree(e)))),
            ens('everything else is closed', 'C10', lambda e: Implies(when(e), And(new(e, 'all_closed'), shut(
                e.n, nf(e.n, new(e, 'tip'), 'last_child')), nf(e.n, new(e, 'tip'), 'parent') != null))), STAYS] + list(ensures), **k)


narrow = lambda e: Not(old(e, 'indented'))
whole_line = ens('the whole line is consumed', 'C15 C08', lambda e: Implies(rv(e) > 0, new(e, 'offset') == slen(old(e, 'current_line'))))
start('block_quote', 'block_quote', mark, 1,
      ens('one column of space behind the > belongs to it', 'C08 C15', lambda e: Implies(mark(e), after_quote_mark(e))))
HR = looking_at(r'^(?:(?:\*[ \t]*){3,}|(?:_[ \t]*){3,}|(?:-[ \t]*){3,})\Z')
start('thematic_break', 'thematic_break', lambda e: And(narrow(e), HR(e)), 2, whole_line)


def made(e, attr):
    """An attribute of the block this line opened."""
    return nf(e.n, new(e, 'tip'), attr)


ATX = lambda e: And(narrow(e), looking_at(r'^#{1,6}(?:[ \t]|\Z)')(e))


def heading_level(e):
    n = made(e, 'level')
    return Implies(ATX(e), And(n >= 1, n <= 6, n <= slen(rest(e))))


start('atx_heading', 'heading', ATX, 2, whole_line,
      ens('the level is from 1 to 6', 'C15', heading_level),
      ens('its text is a part of this line', 'C15 C08', lambda e: Implies(ATX(e), z3.Contains(
          old(e, 'current_line'), made(e, 'string_content')))), attrs=('level', 'string_content'))


FENCE = lambda e: And(narrow(e), looking_at(r'^(?:`{3,}[^`]*|~{3,}.*)\Z')(e))


def fence_run(e):
    n, r = made(e, 'fence_length'), rest(e)
    c = char_at(r, z3.IntVal(0))
    return [Implies(FENCE(e), g) for g in (
        And(n >= 3, n <= slen(r)), made(e, 'fence_char') == c,
        inlang(rl.pat(r'^(?:`+|~+)\Z').search, z3.SubString(r, 0, n)), Or(n == slen(r), char_at(r, n) != c))]


start('fenced_code_block', 'code_block', FENCE, 2,
      ens('fenced, with the fence at the beginning of the line: its character, and how many', 'C15', fence_run),
      ens('a fenced block with the indentation of its fence', 'C15 C08', lambda e: Implies(FENCE(e), And(
          made(e, 'is_fenced'), made(e, 'fence_offset') == old(e, 'indent')))),
      ens('the fence is consumed, not what follows it', 'C15 C08', lambda e: Implies(FENCE(e), And(
          new(e, 'offset') == old(e, 'next_nonspace') + made(e, 'fence_length'), Not(new(e, 'partially_consumed_tab'))))),
      attrs=('is_fenced', 'fence_length', 'fence_char', 'fence_offset'))


ICASE = re.IGNORECASE
NAMES6 = ('address article aside base basefont blockquote body caption center col colgroup dd details dialog dir div dl dt fieldset '
          'figcaption figure footer form frame frameset h1 h2 h3 h4 h5 h6 head header hr html iframe legend li link main menu menuitem meta nav '
          'noframes ol optgroup option p param section source title summary table tbody td tfoot th thead tr track ul').split()
TAGNAME, SPACES = '[a-z][a-z0-9-]*', r'\s'
ATTR = r'''\s+[a-z_:][a-z0-9_.:-]*(?:\s*=\s*(?:[^"'=<>`\x00-\x20]+|'[^']*'|"[^"]*"))?'''
HTML_STARTS = [looking_at(p, f) for p, f in (
    (r'^<(?:script|pre|style)(?:\s|>|\Z)', ICASE), (r'^<!--', 0), (r'^<\?', 0), (r'^<![A-Z]', 0), (r'^<!\[CDATA\[', 0),
    (r'^</?(?:%s)(?:\s|/?>|\Z)' % '|'.join(n for n in NAMES6 if n != 'meta'), ICASE),
    (r'^(?:<%s(?:%s)*\s*/?>|</%s\s*>)\s*\Z' % (TAGNAME, ATTR, TAGNAME), ICASE))]


def html_start(e, k):
    first = And(narrow(e), HTML_STARTS[k - 1](e), *[Not(HTML_STARTS[j](e)) for j in range(k - 1)])
    return And(first, nf(e.o, e.t('container'), 't') != code('t', 'paragraph')) if k == 7 else first


HTML = lambda e: Or(*[html_start(e, k) for k in range(1, 8)])
start('html_block', 'html_block', HTML, 2,
      ens('its kind is the first whose condition the line meets', 'C15 C16', lambda e: [Implies(
          html_start(e, k), made(e, 'html_block_type') == k) for k in range(1, 8)]),
      ens('nothing of the line is consumed', 'C08', lambda e: Implies(HTML(e), still(e))), attrs=('html_block_type',),
      where=lambda e: old(e, 'offset'))

start('indented_code_block', 'code_block', lambda e: And(old(e, 'indented'), Not(old(e, 'blank')), nf(
    e.o, tip(e), 't') != code('t', 'paragraph')), 2, attrs=(), where=lambda e: new(e, 'offset'))


# ---- setext headings: the paragraph so far becomes a heading
def cont(e, attr, st=None):
    return nf(st or e.o, e.t('container'), attr)


SETEXT = lambda e: And(narrow(e), cont(e, 't') == code('t', 'paragraph'), looking_at(r'^(?:=+|-+)[ \t]*\Z')(e))


def setext_loops(v):
    b = v.args['container'].e
    was, now = (nf(st, b, 'string_content') for st in (v.pre, v.st))
    return [('text', Not(z3.Select(v.st.arr('Node', 'string_content', '?'), b))),
            ('what is left is the end of the text', z3.SuffixOf(now, was)),
            ('nothing taken without a bracket', Or(now == was, char_at(was, 0) == SV('['))),
            ('the first definition stays', bval(STAYS.f(Env_(v))))]


def setext_variant(v):
    return [('text left', slen(nf(v.st, v.args['container'].e, 'string_content')))]


def takes_its_place(e):
    x = new(e, 'tip')
    was, now = cont(e, 'string_content'), nf(e.n, x, 'string_content')
    return [Implies(rv(e) == 2, g) for g in (
        opened(e, 'heading'), nf(e.n, x, 'level') == Ite(char_at(rest(e), z3.IntVal(0)) == SV('='), z3.IntVal(1), z3.IntVal(2)),
        nf(e.n, x, 'sourcepos') == cont(e, 'sourcepos'), nf(e.n, x, 'parent') == cont(e, 'parent'),
        nf(e.n, x, 'first_child') == null, cont(e, 'parent', e.n) == null, new(e, 'all_closed'))]


def its_text(e):
    was, now = cont(e, 'string_content'), made(e, 'string_content')
    return [Implies(rv(e) == 2, g) for g in (
        z3.SuffixOf(now, was), slen(now) > 0, Or(now == was, char_at(was, 0) == SV('[')))]


add('BlockStarts.setext_heading', BOTH, requires=START, pre=start_pre, hooks=[col_hook], returns='int', inv=BINV,
    allocs=True, modifies=start_mods('level'), tags='C15 C08 C10 C12', defs=[('Node', ('parent',), up_def)],
    loops=[setext_loops], variants=[setext_variant], ensures=[
        ens('starts at most where specified', 'C15', lambda e: Or(rv(e) == 0, And(rv(e) == 2, SETEXT(e)))),
        ens('and exactly there unless nothing but definitions precede', 'C15 C12', lambda e: Implies(And(
            SETEXT(e), rv(e) == 0), cont(e, 'string_content', e.n) == SV(''))),
        ens('a paragraph that does not begin with a bracket always becomes a heading', 'C15', lambda e: Implies(And(
            SETEXT(e), slen(cont(e, 'string_content')) > 0, char_at(cont(e, 'string_content'), 0) != SV('[')), rv(e) == 2)),
        ens('the heading takes the place of the paragraph', 'C15 C10', takes_its_place),
        ens('its text is the text of the paragraph behind definitions', 'C15 C12', its_text), whole_line,
        ens('if it does not start, nothing of the line is consumed', 'C15 C08', lambda e: Implies(rv(e) == 0, still(e))),
        ens('where it cannot start nothing is changed', 'C15', lambda e: Implies(Not(SETEXT(e)), And(
            new(e, 'tip') == tip(e), new(e, 'all_closed') == old(e, 'all_closed'), same_tree(e)))), STAYS])


# ---- list items
LISTABLE = lambda e: Or(narrow(e), cont(e, 't') == code('t', 'list'))


def the_list(e):
    return made(e, 'parent')


def same_data(st, r, x, a):
    """.get(a) of both list data: a missing key counts as None."""
    f = lambda d, flag='': z3.Select(st.arr('ListData', a, flag), d)
    none = lambda d: Or(f(d, '?'), Not(z3.Select(st.arr('ListData', '$full'), d)))
    return And(none(r) == none(x), Implies(Not(none(r)), f(r) == f(x)))


def goes_on(e):
    """The new item belongs to the list the line is in."""
    x, c = made(e, 'list_data'), cont(e, 'list_data')
    return And(cont(e, 't') == code('t', 'list'), *[same_data(e.n, c, x, a) for a in ('type', 'delimiter', 'bullet_char')])


def item_pos(e, r):
    return And(pos_of(e, e.n, r, 0, 0) == old(e, 'line_number'), pos_of(e, e.n, r, 0, 1) == old(e, 'next_nonspace') + 1)


ITEM = lambda g: lambda e: [Implies(rv(e) == 1, x) for x in g(e)]
add('BlockStarts.list_item', BOTH, pre=start_pre, hooks=[col_hook], returns='int', inv=BINV,
    requires=START + [('a list has list data', lambda e: Implies(cont(e, 't') == code('t', 'list'), cont(e, 'list_data') != null),
                       'every list gets its data at once')],
    allocs=True, modifies=start_mods('list_data'), tags='C15 C08 C10 C22', defs=[('Node', ('parent',), up_def)], ensures=[
        ens('starts only where a list marker may stand', 'C15', lambda e: And(Or(rv(e) == 0, rv(e) == 1), Implies(rv(e) == 1, And(
            LISTABLE(e), old(e, 'indent') < 4, MARKER(e), Implies(par(e).e, MARKER_PAR(e)))))),
        ens('starts wherever a list marker stands', 'C15', lambda e: Implies(And(
            old(e, 'indent') < 4, MARKER(e), Or(Not(par(e).e), MARKER_PAR1(e))), rv(e) == 1)),
        ens('an open item in a list, both with list data', 'C15 C10 C22', ITEM(lambda e: [
            opened(e, 'item'), new(e, 'all_closed'), the_list(e) != null, nf(e.n, the_list(e), 't') == code('t', 'list'),
            made(e, 'list_data') != null, nf(e.n, the_list(e), 'list_data') != null, item_pos(e, new(e, 'tip'))])),
        ens('the list goes on exactly if type, delimiter and bullet agree', 'C22 C15', ITEM(lambda e: [
            Implies(goes_on(e), the_list(e) == e.t('container')),
            Implies(Not(goes_on(e)), And(Not(z3.Select(e.o.alloc, the_list(e))), nf(e.n, the_list(e), 'list_data') == made(e, 'list_data'),
                                         item_pos(e, the_list(e))))])),
        ens('where no item starts, nothing is consumed or changed', 'C15 C08', lambda e: Implies(rv(e) == 0, And(
            still(e), new(e, 'tip') == tip(e), new(e, 'all_closed') == old(e, 'all_closed'), same_tree(e)))), STAYS])


# ---- code blocks go on or end
CLOSE_FORMS = [(c, looking_at(r'^%s{3,} *\Z' % c)) for c in '`~']


def fence(e):
    return cont(e, 'fence_length')


def closes(e):
    """A closing fence: the character of the opening one, at least as many, then only spaces."""
    r = rest(e)
    return And(cont(e, 'is_fenced'), old(e, 'indent') <= 3, Or(*[And(
        form(e), cont(e, 'fence_char') == SV(c), fence(e) <= slen(r), char_at(r, fence(e) - 1) == SV(c)) for c, form in CLOSE_FORMS]))


def numbers(v):
    return [(k, z3.BoolVal(False), x) for k, x in v.locals_of(I)] + [(k, bval(x.isnone), x.val) for k, x in v.locals_of(O) if isinstance(x.val, I)]


def code_loops(v):
    p = v.args['parser'].e
    s, o = g(v.st, p, 'current_line'), g(v.st, p, 'offset')
    was = g(v.pre, p, 'column')
    out = [('position', position(v.st, p)), ('unfold', unfold(s, o)), ('not beyond the text', And(
        NNS(s, o) == g(v.pre, p, 'next_nonspace'), o <= g(v.pre, p, 'next_nonspace'))),
        ('columns of white space', g(v.st, p, 'column') <= COL(s, g(v.pre, p, 'next_nonspace')))]
    for k, none, x in numbers(v):
        out.append(('columns left: %s' % (k,), And(Not(none), x.e >= 0, x.e + g(v.st, p, 'column') - was == nf(v.pre, v.args['container'].e, 'fence_offset'))))
    return out


def code_mods(e):
    d = {k: When(closes(e), w) for k, w in closing_mods(e).items()}
    d.update({'Parser.' + a: [the(e)] for a in POS})
    return d


CODE_ON = lambda e: And(Not(cont(e, 'is_fenced')), old(e, 'indent') >= 4)
CODE_BLANK = lambda e: And(Not(cont(e, 'is_fenced')), old(e, 'indent') < 4, old(e, 'blank'))
IN_FENCE = lambda e: And(cont(e, 'is_fenced'), Not(closes(e)))


def code_pre(eng, st, a):
    c, p = a['container'].e, a['parser'].e
    there(st, nf(st, c, 'prv'), nf(st, c, 'parent'))
    s, o = g(st, p, 'current_line'), g(st, p, 'offset')
    st.pc += [unfold(s, o), unfold(s, o + 1)]


def code_args(e):
    return And(cont(e, 't') == code('t', 'code_block'), cont(e, 'is_open'), shut(e.o, cont(e, 'last_child')))


add('CodeBlock.continue_', BOTH, requires=[SCANNED, REFS, ('an open code block', code_args),
    ('a fenced block has a first line', CLOSABLE[2][1], CLOSABLE[2][2]),
    ('a fenced block has a fence', lambda e: Implies(cont(e, 'is_fenced'), And(
        fence(e) >= 3, Not(e.old(e.t('container'), 'fence_char', flag='?')), Not(e.old(e.t('container'), 'fence_offset', flag='?')),
        cont(e, 'fence_offset') >= 0, Or(cont(e, 'fence_char') == SV('`'), cont(e, 'fence_char') == SV('~')))),
     'every fenced block gets its fence at once')],
    pre=code_pre, hooks=[col_hook], returns='int', inv=BINV, allocs=True, modifies=code_mods, loops=[code_loops],
    variants=[lambda v: [('columns left', x.e) for k, none, x in numbers(v)]], tags='C15 C08 C18 C10', ensures=[
        ens('a fenced block ends at a closing fence, an indented one at a line not blank and not indented', 'C15 C18', lambda e: rv(e) == Ite(
            closes(e), z3.IntVal(2), Ite(Or(cont(e, 'is_fenced'), CODE_ON(e), CODE_BLANK(e)), z3.IntVal(0), z3.IntVal(1)))),
        ens('at the closing fence it is closed', 'C15 C10', lambda e: Implies(closes(e), And(
            Not(cont(e, 'is_open', e.n)), new(e, 'tip') == cont(e, 'parent')))),
        ens('the indentation of the opening fence is taken off', 'C15 C08 C18', lambda e: Implies(IN_FENCE(e), And(
            position(e.n, the(e)), new(e, 'column') == old(e, 'column') + Ite(
                cont(e, 'fence_offset') <= old(e, 'indent'), cont(e, 'fence_offset'), old(e, 'indent'))))),
        ens('four columns of an indented line are taken off', 'C15 C08 C18', lambda e: Implies(CODE_ON(e), And(
            position(e.n, the(e)), new(e, 'column') == old(e, 'column') + 4))),
        ens('a blank line is taken to its end', 'C08 C18', lambda e: Implies(CODE_BLANK(e), And(
            new(e, 'offset') == old(e, 'next_nonspace'), new(e, 'column') == old(e, 'next_nonspace_column')))),
        ens('else nothing of the line is consumed', 'C15 C08', lambda e: Implies(Or(closes(e), rv(e) == 1), still(e))), STAYS])
