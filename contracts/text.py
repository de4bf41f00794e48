"""Escapes, references and destinations (C20, C04)."""
import z3
from pyvc.contract import Contract, Lemma, ens
from pyvc import relang as rl
from pyvc.engine import And, Or, Not, Implies, Ite, bval, slen, char_at
from pyvc.langs import inlang, Hom, FN
from pyvc.vals import *
from . import spec_text as sp

CONTRACTS = []
C = 'commonmark.common.'


def add(*a, **k):
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


def same(name, tags):
    return lambda e, s, r: [(name, tags, e.eng.as_str(e.res) == e.eng.as_str(r))]


TOKEN = rl.pat(sp.TOKEN.pattern).body()
REFERENCE = rl.and_(TOKEN, rl.cat(rl.lit('&'), rl.ALLS))
UNESC = z3.Function('UNESCAPED', Str, Str)      # the specified unescaping, for callers

add(C + 'unescape_entity', {'s': 'str'}, returns='str', tags='C20', use=False,
    requires=[('a reference', lambda e: inlang(REFERENCE, e.t('s')))],
    spec=(sp.reference, lambda e: [e['s']], same('the character HTML5 assigns', 'C20')))
add(C + 'unescape_char', {'s': 'str'}, returns='str', tags='C20', use=False,
    requires=[('an escape or reference', lambda e: inlang(TOKEN, e.t('s')))],
    spec=(sp.decode, lambda e: [e['s']], same('decoded as specified', 'C20')))


def callers_only(eng):
    return eng.contract is None or eng.contract.path != C + 'unescape_string'


add(C + 'unescape_string', {'s': 'str'}, returns='str', tags='C20', 
    spec=(sp.unescape, lambda e: [e['s']], same('every escape and reference is decoded, nothing else changes', 'C20')),
    ensures=[ens('the unescaped text', 'C20', lambda e: And(
        e.eng.as_str(e.res) == UNESC(e.t('s')) if callers_only(e.eng) else z3.BoolVal(True),
        Implies(inlang(rl.star(rl.chr_(rl.cs_of('\\&').inv())), e.t('s')), e.eng.as_str(e.res) == e.t('s'))))])

ALLOWED = rl.cs_of('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789;/@:+?=&()%#*,_.~-')
URI = Hom(((ALLOWED.inv(), 'fn', 'pct'),))
add(C + 'normalize_uri', {'uri': 'str'}, returns='str', tags='C04',
    ensures=[ens('percent-encodes exactly the characters that are not allowed', 'C04',
                 lambda e: e.eng.as_str(e.res) == URI(e.t('uri'))),
             ens('only allowed characters', 'C04',
                 lambda e: inlang(rl.star(rl.chr_(ALLOWED)), e.eng.as_str(e.res)))])


def uri_lemmas(eng, st, ob):
    s = z3.Const('s', Str)
    u = URI(s)
    ob('normalizing twice changes nothing', 'C04', [inlang(rl.star(rl.chr_(ALLOWED)), u)], URI(u) == u)
    ob('a normalized destination is not changed', 'C04', [inlang(rl.star(rl.chr_(ALLOWED)), s)], URI(s) == s)


CONTRACTS.append(Lemma('normalize_uri', uri_lemmas, 'C04'))
