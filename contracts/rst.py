"""Contracts of commonmark.render.rst (C24, C19)."""
import z3
from pyvc.contract import Contract
from pyvc.engine import And, Or, Not, Implies
from pyvc.vals import *
from . import spec_rst as sp
from .html import lit_some, dest_some, list_ok, strterm, at_line_start

PATH = 'commonmark.render.rst.ReStructuredTextRenderer.'
RST = 'ReStructuredTextRenderer'
CONTRACTS = []


def state(st, r):
    g = lambda c, a: z3.Select(st.arr(c, a), r)
    return (g('Renderer', 'buf'), g('Renderer', 'last_out'), g(RST, 'indent_length'), g(RST, 'indent_char'))


def args_of(e):
    b, l, n, c = state(e.o, e.t('self'))
    return [T((S(b), S(l), I(n), S(c))), e['node'], e['entering']]


def compare(e, s, r):
    b, l, n, c = state(e.n, e.t('self'))
    w = r.items
    return [('text written as specified', 'C24', b == strterm(e, w[0])),
            ('end-of-line state as specified', 'C24', at_line_start(l) == at_line_start(strterm(e, w[1]))),
            ('indentation as specified', 'C24', n == e.eng.as_int(w[2]))]


def mods(e):
    r = e.t('self')
    return {'Renderer.buf': [r], 'Renderer.last_out': [r], RST + '.indent_length': [r]}


def indent_ok(e):
    return z3.Select(e.o.arr(RST, 'indent_length'), e.t('self')) >= 0


REQ = {
    'text': [('literal present', lit_some)],
    'code': [('literal present', lit_some)],
    'code_block': [('literal present', lit_some)],
    'link': [('destination present', dest_some)],
    'image': [('destination present', dest_some)],
    'item': [('list data present', list_ok)],
    'paragraph': [('parent present', lambda e: e.old(e.t('node'), 'parent') != null)],
    'heading': [('level from 1', lambda e: And(Not(e.old(e.t('node'), 'level', flag='?')),
                                              e.old(e.t('node'), 'level') >= 1))],
}
for m in ('document', 'softbreak', 'linebreak', 'text', 'emph', 'strong', 'paragraph', 'link', 'image', 'code',
          'code_block', 'list', 'item', 'block_quote', 'heading'):
    CONTRACTS.append(Contract(
        PATH + m, {'self': 'ref:%s!' % RST, 'node': 'ref:Node!', 'entering': 'bool'},
        requires=[('indentation not negative', indent_ok)] + REQ.get(m, []), modifies=mods, tags='C24 C19',
        frame_tags='C19 C24', spec=(getattr(sp, m), args_of, compare)))
