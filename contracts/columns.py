"""Columns and tabs (C08): advance_offset, find_next_nonspace, advance_next_nonspace."""
import z3
from pyvc.contract import Contract, Lemma, ens, Env
from pyvc import engine as E, relang as rl
from pyvc.engine import And, Or, Not, Implies, Ite, bval, Cat, slen, char_at
from pyvc.langs import inlang
from pyvc.vals import *

CONTRACTS = []
P = 'commonmark.blocks.Parser.'
TAB = z3.StringVal('\t')
COL = z3.Function('COL', Str, z3.IntSort(), z3.IntSort())      # column at which offset i begins


def add(*a, **k):
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


def col_hook(eng, st, s, p):
    """Definition of COL at offset p (and 0), and its lemma: columns grow at least as offsets."""
    st.pc.append(COL(s, z3.IntVal(0)) == 0)
    for i in (p, p + 1):
        st.pc.append(unfold(s, i))


NNS = z3.Function('NNS', Str, z3.IntSort(), z3.IntSort())   # first offset >= i without space or tab


def unfold(s, i):
    n = NNS(s, i)
    return z3.Implies(z3.And(0 <= i, i <= slen(s)), z3.And(
        z3.Implies(i < slen(s), step(s, i)), COL(s, i) >= i, mono(s, i, slen(s)), mono(s, i + 1, slen(s)), mono(s, i, n),
        skip(s, i), i <= n, n <= slen(s)))


def skip(s, i):
    c = char_at(s, i)
    return z3.If(z3.And(i < slen(s), z3.Or(c == z3.StringVal(' '), c == TAB)),
                 NNS(s, i) == NNS(s, i + 1), NNS(s, i) == i)


def mono(s, i, j):
    """Lemma: columns grow at least as offsets."""
    return z3.Implies(And(0 <= i, i <= j, j <= slen(s)), COL(s, j) - COL(s, i) >= j - i)


def no_tab(s, i, j):
    """Lemma: exactly as offsets where there is no tab."""
    return z3.Implies(And(0 <= i, i <= j, j <= slen(s), inlang(NOTAB, z3.SubString(s, i, j - i))),
                      COL(s, j) - COL(s, i) == j - i)


def column_lemmas(eng, st, ob):
    """By induction over j (over i, downwards, for NNS)."""
    s, i, j = z3.Const('s', Str), z3.Int('i'), z3.Int('j')
    inside = [0 <= i, i <= j, j < slen(s)]
    ob('columns grow at least as offsets: base', 'C08', [], mono(s, i, i))
    ob('columns grow at least as offsets: step', 'C08', inside + [step(s, j), mono(s, i, j)], mono(s, i, j + 1))
    ob('column 0 at offset 0 gives COL >= offset', 'C08', [COL(s, 0) == 0, 0 <= i, i <= slen(s), mono(s, z3.IntVal(0), i)],
       COL(s, i) >= i)
    apart = [COL(s, j) - COL(s, i) == j - i, char_at(s, j) != TAB, step(s, j)]
    ob('no tab: step', 'C08', inside + apart, COL(s, j + 1) - COL(s, i) == j + 1 - i)
    up = lambda k: And(k <= NNS(s, k), NNS(s, k) <= slen(s))
    ob('the next non-space lies behind, on the line: at the end', 'C08', [i == slen(s), skip(s, i)], up(i))
    ob('the next non-space lies behind, on the line: step', 'C08', [0 <= i, i < slen(s), skip(s, i), up(i + 1)], up(i))


NOTAB = rl.star(rl.chr_(rl.cs_of('\t').inv()))
CONTRACTS.append(Lemma('columns', column_lemmas, 'C08 C15'))


def step(s, i):
    c = COL(s, i)
    return COL(s, i + 1) == z3.If(char_at(s, i) == TAB, c + 4 - c % 4, c + 1)


def g(st, r, a):
    return z3.Select(st.arr('Parser', a), r)


def position(st, r):
    """The reading position is a column of the line: offset and column fit together."""
    s, o, c, p = (g(st, r, a) for a in ('current_line', 'offset', 'column', 'partially_consumed_tab'))
    return And(0 <= o, o <= slen(s), unfold(s, o), z3.If(
        p, And(o < slen(s), char_at(s, o) == TAB, COL(s, o) < c, c < COL(s, o + 1), step(s, o)),
        c == COL(s, o)))


def somewhere(st, r):
    """Like position, whatever the flag of the partly used tab says."""
    s, o, c = (g(st, r, a) for a in ('current_line', 'offset', 'column'))
    return And(0 <= o, o <= slen(s), unfold(s, o), Or(c == COL(s, o), And(
        o < slen(s), char_at(s, o) == TAB, COL(s, o) < c, c < COL(s, o + 1), step(s, o))))


def pre_pos(e):
    return position(e.o, e.t('self'))


def moves_or_exact(e):
    return Or(position(e.o, e.t('self')), And(e.t('count') > 0, old(e, 'offset') < slen(old(e, 'current_line'))))


def col_facts(eng, st, a):
    r = a['self'].e
    col_hook(eng, st, g(st, r, 'current_line'), g(st, r, 'offset'))


def new(e, a):
    return g(e.n, e.t('self'), a)


def old(e, a):
    return g(e.o, e.t('self'), a)


SELF = {'self': 'ref:Parser!'}


def mods(*attrs):
    return lambda e: {'Parser.' + a: [e.t('self')] for a in attrs}


def end_col(e):
    s = old(e, 'current_line')
    return COL(s, slen(s))


def min_(a, b):
    return z3.If(a <= b, a, b)


def advance_lemmas(s, a, b, n):
    c = a + n
    return [mono(s, a, b), mono(s, a, c), mono(s, b, c), mono(s, c, b), no_tab(s, a, c), mono(s, NNS(s, a), b),
            unfold(s, a), unfold(s, b), unfold(s, c), mono(s, b + 1, c), mono(s, a, z3.IntVal(0) + slen(s))]


def plain(e):
    s, o, n = old(e, 'current_line'), old(e, 'offset'), e.t('count')
    return Implies(And(e.t('columns'), n > 0, o + n <= slen(s), old(e, 'column') == COL(s, o),
                       inlang(NOTAB, z3.SubString(s, o, n)), *advance_lemmas(s, o, new(e, 'offset'), n)),
                   And(new(e, 'offset') == o + n, new(e, 'column') == old(e, 'column') + n,
                       Not(new(e, 'partially_consumed_tab'))))


def positions(lv):
    p = lv.loc('self').e
    exact = position(lv.st, p)
    same = [g(lv.st, p, a) == g(lv.entry, p, a) for a in ('offset', 'column', 'partially_consumed_tab')]
    for k in ('c', 'count'):
        v, v0 = lv.loc(k), lv.entry.loc.get(k)
        if isinstance(v, I) and isinstance(v0, I):
            same.append(v.e == v0.e)
    out = [('somewhere', somewhere(lv.st, p)), ('position', exact), ('position once moved', Or(exact, And(*same)))]
    cols = lv.loc('columns')
    if isinstance(cols, B):
        out.append(('whole tabs when counting characters', Or(cols.e, Not(g(lv.st, p, 'partially_consumed_tab')), And(*same))))
    return out


add(P + 'advance_offset', dict(SELF, count='int', columns='bool'), hooks=[col_hook], pre=col_facts,
    requires=[('reading position', lambda e: somewhere(e.o, e.t('self')))],
    modifies=mods('offset', 'column', 'partially_consumed_tab'), tags='C08 C15 C18 C10',
    loops=[lambda lv: positions(lv) if lv.fn == 'advance_offset' else []],
    terminates=True, lemmas=lambda e: advance_lemmas(old(e, 'current_line'), old(e, 'offset'),
                                                      new(e, 'offset'), e.t('count')),
    ensures=[
        ens('the position stays a column of the line', 'C08', lambda e: Implies(
            moves_or_exact(e), position(e.n, e.t('self')))),
        ens('counting columns: exactly count columns, at most to the end of the line', 'C08',
            lambda e: Implies(And(e.t('columns'), e.t('count') >= 0),
                              new(e, 'column') == min_(old(e, 'column') + e.t('count'), end_col(e)))),
        ens('counting characters: exactly count characters, at most to the end of the line', 'C08',
            lambda e: Implies(And(Not(e.t('columns')), e.t('count') >= 0),
                              new(e, 'offset') == min_(old(e, 'offset') + e.t('count'),
                                                       slen(old(e, 'current_line'))))),
        ens('counting characters uses up whole tabs', 'C08', lambda e: Implies(
            And(Not(e.t('columns')), e.t('count') > 0, old(e, 'offset') < slen(old(e, 'current_line'))),
            Not(new(e, 'partially_consumed_tab')))),
        ens('columns are characters where there is no tab', 'C08 C15', lambda e: plain(e)),
        ens('never backwards', 'C08 C21', lambda e: And(new(e, 'offset') >= old(e, 'offset'),
                                                        new(e, 'column') >= old(e, 'column'))),
    ])
add(P + 'find_next_nonspace', SELF, hooks=[col_hook], pre=col_facts,
    requires=[('reading position', pre_pos)],
    modifies=mods('blank', 'next_nonspace', 'next_nonspace_column', 'indent', 'indented'),
    tags='C08 C15', terminates=True,
    loops=[lambda lv: scan(lv) if lv.fn == 'find_next_nonspace' else []],
    ensures=[
        ens('stays on the line, behind the offset', 'C08 C21', lambda e: And(
            new(e, 'next_nonspace') >= old(e, 'offset'),
            new(e, 'next_nonspace') <= slen(old(e, 'current_line')))),
        ens('stops at the first character that is no space or tab', 'C08 C15', lambda e: (
            lambda s, n: Or(n == slen(s), And(char_at(s, n) != z3.StringVal(' '), char_at(s, n) != TAB)))(
                old(e, 'current_line'), new(e, 'next_nonspace'))),
        ens('skips only spaces and tabs, and all of them', 'C08 C15', lambda e:
            new(e, 'next_nonspace') == NNS(old(e, 'current_line'), old(e, 'offset'))),
        ens('next_nonspace_column is its column', 'C08', lambda e:
            Ite(And(old(e, 'partially_consumed_tab'), new(e, 'next_nonspace') == old(e, 'offset')), z3.BoolVal(True),
                new(e, 'next_nonspace_column') == COL(old(e, 'current_line'), new(e, 'next_nonspace')))),
        ens('a tab is skipped, also one used in part', 'C08', lambda e: Implies(
            old(e, 'partially_consumed_tab'), new(e, 'next_nonspace') > old(e, 'offset'))),
        ens('indent is the difference of the columns', 'C08 C15', lambda e:
            new(e, 'indent') == new(e, 'next_nonspace_column') - old(e, 'column')),
        ens('indented means four columns or more', 'C08 C15', lambda e:
            new(e, 'indented') == (new(e, 'indent') >= 4)),
        ens('blank means nothing but white space is left', 'C08 C15 C22', lambda e: (
            lambda s, n: new(e, 'blank') == Or(n == slen(s), char_at(s, n) == z3.StringVal('\n'),
                                               char_at(s, n) == z3.StringVal('\r')))(
            old(e, 'current_line'), new(e, 'next_nonspace'))),
    ])


def scan(lv):
    """For int locals i, c: c is the column of i and only white space lies between offset and i."""
    out = []
    r = lv.loc('self').e
    s, o, c0, part = (z3.Select(lv.entry.arr('Parser', a), r) for a in
                      ('current_line', 'offset', 'column', 'partially_consumed_tab'))
    ints = [(k, v.e) for k, v in lv.st.loc.items() if isinstance(v, I) and k in lv.changed.locs]
    for k, i in ints:
        out.append(('white space up to ' + k, And(i >= o, i <= slen(s), unfold(s, i), NNS(s, i) == NNS(s, o))))
        for k2, c in ints:
            if k != k2:
                out.append(('%s is the column of %s' % (k2, k), Ite(
                    And(i == o, part), c == c0, c == COL(s, i))))
    return out


add(P + 'advance_next_nonspace', SELF,
    modifies=mods('offset', 'column', 'partially_consumed_tab'), tags='C08',
    ensures=[ens('continues at the next non-space', 'C08', lambda e: And(
        new(e, 'offset') == old(e, 'next_nonspace'),
        new(e, 'column') == old(e, 'next_nonspace_column'), Not(new(e, 'partially_consumed_tab'))))])
