"""Contracts of commonmark.render.html and commonmark.common.escape_xml (C01, C02, C03, C19)."""
import z3
from pyvc.contract import Contract, ens, Env
from pyvc import engine as E, relang as rl
from pyvc.engine import And, Or, Not, Implies, bval, Cat
from pyvc.langs import inlang, Hom
from pyvc.vals import *
from . import spec_html as sp

PATH = 'commonmark.render.html.HtmlRenderer.'
ESC = Hom(((rl.cs_of('&'), 'const', '&amp;'), (rl.cs_of('<'), 'const', '&lt;'),
           (rl.cs_of('>'), 'const', '&gt;'), (rl.cs_of('"'), 'const', '&quot;')))

CONTRACTS = []


def add(*a, **k):
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


add('commonmark.common.escape_xml', {'s': 'opt:str'}, returns='str', tags='C01', use=False,
    ensures=[ens('escape_xml(s) replaces exactly & < > and the double quote by their references',
                 'C01', lambda e: z3.Implies(Not(e['s'].isnone), E.bval(
                     e.eng.as_str(e.res) == ESC(e['s'].val.e)))),
             ens('escape_xml(None) is empty', 'C01', lambda e: z3.Implies(
                 e['s'].isnone, e.eng.as_str(e.res) == z3.StringVal('')))])


def writer(st, r, eng):
    h = lambda c, a: z3.Select(st.arr(c, a), r)
    return (h('Renderer', 'buf'), h('Renderer', 'last_out'), h('HtmlRenderer', 'disable_tags'))


def strterm(e, v):
    return e.eng.as_str(v.val if isinstance(v, O) else v)


def at_line_start(last):
    return last == z3.StringVal('\n')


def compare(tag):
    def f(e, s, r):
        b, l, d = writer(e.n, e.t('self'), e.eng)
        w = r.items
        return [('text written as specified', tag, b == strterm(e, w[0])),
                ('end-of-line state as specified', tag, at_line_start(l) == at_line_start(strterm(e, w[1]))),
                ('image depth as specified', tag, d == e.eng.as_int(w[2]))]
    return f


def args_of(e):
    b, l, d = writer(e.o, e.t('self'), e.eng)
    return [T((S(b), S(l), I(d))), e.eng.oldopts, e['node'], e['entering']]


def base_pre(eng, st, a):
    r = a['self'].e
    o = z3.Select(st.arr('HtmlRenderer', 'options'), r)
    st.pc += [o != null, z3.Select(st.alloc, o), z3.Select(st.arr('Options', 'softbreak', '!'), o),
              z3.Select(st.arr('HtmlRenderer', 'disable_tags'), r) >= 0]
    eng.oldopts = R(o, 'Options')


def lit_some(e):
    return Not(e.old(e.t('node'), 'literal', flag='?'))


def dest_some(e):
    return Not(e.old(e.t('node'), 'destination', flag='?'))


def safe_on(e):
    o = e.eng.oldopts.e
    return And(z3.Select(e.o.arr('Options', 'safe', '!'), o), z3.Select(e.o.arr('Options', 'safe'), o))


def mods(e):
    r = e.t('self')
    return {'Renderer.buf': [r], 'Renderer.last_out': [r], 'HtmlRenderer.disable_tags': [r]}


def list_ok(e):
    d = e.old(e.t('node'), 'list_data')
    return And(d != null, z3.Select(e.o.arr('ListData', '$full'), d))


def para_ok(e):
    p = e.old(e.t('node'), 'parent')
    g = e.old(p, 'parent')
    d = e.old(g, 'list_data')
    return And(p != null, Implies(And(g != null, e.old(g, 't') == code('t', 'list')), And(
        d != null, z3.Select(e.o.arr('ListData', '$full'), d))))


def pos_ok(e):
    sp_ = e.old(e.t('node'), 'sourcepos')
    return Implies(sp_ != null, And(e.old(sp_, 0, 'SP') != null, e.old(sp_, 1, 'SP') != null))


REQ = {
    'html_inline': [('literal present', lit_some)],
    'html_block': [('literal present', lit_some)],
    'link': [('destination present', dest_some)],
    'image': [('destination present', dest_some)],
    'list': [('list data present', list_ok)],
    'paragraph': [('parent present', para_ok)],
    'heading': [('level present', lambda e: Not(e.old(e.t('node'), 'level', flag='?')))],
}
TAGS = {'text': 'C01 C02', 'code': 'C01 C02', 'code_block': 'C01 C02',
        'html_inline': 'C03 C02', 'html_block': 'C03 C02'}

for m in ['text', 'softbreak', 'linebreak', 'emph', 'strong', 'code', 'html_inline', 'html_block',
          'paragraph', 'heading', 'code_block', 'thematic_break', 'block_quote', 'list', 'item',
          'custom_inline', 'custom_block']:
    tg = TAGS.get(m, 'C02')
    add(PATH + m, {'self': 'ref:HtmlRenderer!', 'node': 'ref:Node!', 'entering': 'bool'},
        cost={'code_block': 25, 'list': 6}.get(m, 1),
        requires=[('position well formed', pos_ok)] + REQ.get(m, []), modifies=mods, pre=base_pre, tags=tg + ' C19',
        frame_tags='C19 C02', allocs=False,
        spec=(getattr(sp, m), args_of, compare(tg)))


DANGER = rl.and_(rl.cat(rl.pat('(?:javascript|vbscript|file|data):', 34).body(), rl.ALLS),
                 rl.not_(rl.cat(rl.pat('data:image/(?:png|gif|jpeg|webp)', 34).body(), rl.ALLS)))
HARMLESS = rl.not_(rl.cat(rl.ALLS, rl.pat('(?:javascript|vbscript|file|data):', 34).body(), rl.ALLS))


def dest_extra(shown, hidden):
    def f(eng, e, s, v):
        sp_ = e.o.copy()
        sp_.pc = list(s.pc)
        sp_.loc = {}
        dest = e.old(e.t('node'), 'destination')
        safe = safe_on(e)
        b, l, d = writer(e.n, e.t('self'), eng)
        for s1, w1 in eng.run_spec(shown, args_of(e), sp_):
            s1.loc = {}
            for s2, w2 in eng.run_spec(hidden, args_of(e), s1):
                def same(w):
                    return And(b == strterm(e, w.items[0]), at_line_start(l) == at_line_start(strterm(e, w.items[1])),
                               d == eng.as_int(w.items[2]))
                A, H = same(w1), same(w2)
                ob = lambda g, nm, tags: eng.oblige(s2, g, nm, frozenset(tags.split()), 0, 'post')
                ob(Or(A, H), 'written with the escaped destination or with none', 'C01 C02 C03')
                ob(Implies(And(safe, inlang(DANGER, dest)), H),
                   'safe mode drops every javascript, vbscript, file and data destination', 'C03')
                ob(Implies(Or(Not(safe), inlang(HARMLESS, dest)), A),
                   'harmless destinations are written in full', 'C01 C02 C03')
    return f


for m in ('link', 'image'):
    add(PATH + m, {'self': 'ref:HtmlRenderer!', 'node': 'ref:Node!', 'entering': 'bool'},
        requires=[('position well formed', pos_ok)] + REQ[m] +
        ([('inside an image on leaving', lambda e: Or(
            e['entering'].e, z3.Select(e.o.arr('HtmlRenderer', 'disable_tags'), e.t('self')) > 0))]
         if m == 'image' else []),
        modifies=mods, pre=base_pre, tags='C01 C02 C03 C19', cost=9, frame_tags='C19 C02',
        extra=dest_extra(getattr(sp, m + '_shown'), getattr(sp, m + '_hidden')))
