"""Inline parsing steps: progress and bounds (C11), what each step appends (C18, C20, C04, C14),
delimiter runs (C16)."""
import z3
from pyvc.contract import Contract, ens
from pyvc import relang as rl
from pyvc.engine import And, Or, Not, Implies, Ite, bval, slen, char_at, sfx
from pyvc.models import at_run
from pyvc.langs import inlang
from pyvc.vals import *
from .tree import TREE
from .blockinv import BINV
from . import spec_inl as sp, text as tx

CONTRACTS = []
P = 'commonmark.inlines.InlineParser.'
IP = 'InlineParser'
POINTERS = ('parent', 'first_child', 'last_child', 'prv', 'nxt')
SV = z3.StringVal

# every text node has a literal
HEAPINV['text nodes have a literal'] = ('Node', ('t', 'literal'), lambda st, r: Implies(
    z3.Select(st.arr('Node', 't'), r) == code('t', 'text'), Not(z3.Select(st.arr('Node', 'literal', '?'), r))))
TEXTINV = ('text nodes have a literal',) + TREE


def add(name, params, **k):
    k.setdefault('requires', [])
    k['requires'] = [('position inside the subject', inside)] + k['requires']
    c = Contract(P + name, dict({'self': 'ref:InlineParser!'}, **params), **k)
    CONTRACTS.append(c)
    return c


def f(st, e, a):
    return z3.Select(st.arr(IP, a), e.t('self'))


pos0 = lambda e: f(e.o, e, 'pos')
pos1 = lambda e: f(e.n, e, 'pos')
subj = lambda e: f(e.o, e, 'subject')
inside = lambda e: And(pos0(e) >= 0, pos0(e) <= slen(subj(e)))
at_char = lambda cs: ('at one of ' + cs, lambda e: And(
    pos0(e) < slen(subj(e)), inlang(rl.chr_(rl.cs_of(cs)), char_at(subj(e), pos0(e)))))
part = lambda e, a, b: z3.SubString(subj(e), a, b - a)
consumed = lambda e: part(e, pos0(e), pos1(e))


def mods(*attrs, **kw):
    def m(e):
        d = {IP + '.' + a: [e.t('self')] for a in attrs}
        if kw.get('tree'):
            d.update({'Node.' + a: 'any' for a in POINTERS})
        if 'more' in kw:
            d.update(kw['more'](e))
        return d
    return m


def true(e):
    return bval(e.eng.truth(e.res, e.n))


bounded = ens('stays inside the text', 'C11 C21', lambda e: And(pos1(e) >= pos0(e), pos1(e) <= slen(subj(e))))
step = [bounded,
        ens('success consumes at least one character', 'C11', lambda e: Implies(true(e), pos1(e) > pos0(e))),
        ens('failure consumes nothing', 'C11', lambda e: Implies(Not(true(e)), pos1(e) == pos0(e))),
        ens('failure appends nothing', 'C11', lambda e: Implies(Not(true(e)), unchanged(e)))]
BLOCK = {'block': 'ref:Node!'}
STEP = dict(modifies=mods('pos', tree=True), allocs=True, returns='bool', tags='C11 C21', inv=TEXTINV)


def with_(**k):
    d = dict(STEP)
    d['tags'] = d['tags'] + ' ' + k.pop('tags', '')
    d.update(k)
    return d


def appended(e):
    return e.new(e.t('block'), 'last_child')


def unchanged(e):
    return And(*[e.new(e.t('block'), a) == e.old(e.t('block'), a) for a in ('first_child', 'last_child')])


def fresh_node(e, t):
    """One new node of type t was appended behind what was there."""
    n = appended(e)
    return And(n != null, Not(z3.Select(e.o.alloc, n)), e.new(n, 't') == code('t', t),
               e.new(n, 'prv') == e.old(e.t('block'), 'last_child'),
               e.new(n, 'parent') == e.t('block'))


def lit_is(e, n, s):
    return And(Not(e.new(n, 'literal', flag='?')), e.new(n, 'literal') == s)


def text_is(e, s):
    return And(fresh_node(e, 'text'), lit_is(e, appended(e), s))


def strterm(e, v):
    return e.eng.as_str(v.val if isinstance(v, O) else v)


def appends(tag, otherwise=None):
    """The specification gives (type, literal, position) of the node appended, or None."""
    def compare(e, s, r):
        if isinstance(r, Py) and r.obj is None:
            g = And(Not(true(e)), pos1(e) == pos0(e), unchanged(e))
            return [('recognized exactly where specified', tag, Or(g, otherwise(e)) if otherwise else g)]
        t, lit, p = r.items
        out = [('recognized exactly where specified', tag, true(e)),
               ('appends a node of the specified type', tag, fresh_node(e, t.obj)),
               ('position after it as specified', tag, pos1(e) == e.eng.as_int(p))]
        if not (isinstance(lit, Py) and lit.obj is None):
            out.append(('text as specified', tag, lit_is(e, appended(e), strterm(e, lit))))
        return out
    return compare


def here(e):
    return [S(subj(e)), I(pos0(e))]


def verbatim(e):
    return And(true(e), text_is(e, consumed(e)))


add('peek', {}, returns='opt:str', use=False, tags='C11 C21', ensures=[
    ens('the current character, None at the end', 'C11', lambda e: peeked(e))])


def peeked(e):
    more, c = pos0(e) < slen(subj(e)), char_at(subj(e), pos0(e))
    r = e.res
    if isinstance(r, Py):
        return Not(more) if r.obj is None else z3.BoolVal(False)
    if isinstance(r, O):
        return And(r.isnone == Not(more), Implies(more, e.eng.as_str(r.val) == c))
    return And(more, e.eng.as_str(r) == c)


add('spnl', {}, modifies=mods('pos'), returns='bool', tags='C11 C12', ensures=[
    bounded, ens('always succeeds', 'C11', true),
    ens('skips only spaces and at most one line ending', 'C11 C12', lambda e: inlang(
        rl.pat('^ *(?:\n *)?').body(), consumed(e)))])
add('parseBackslash', BLOCK, ensures=step, **with_(
    requires=[at_char('\\')], tags='C20', spec=(sp.backslash, here, appends('C20 C11'))))


def autolink_clause(e):
    n = appended(e)
    c = e.new(n, 'first_child')
    d = part(e, pos0(e) + 1, pos1(e) - 1)
    mail = inlang(rl.cat(rl.pat(sp.EMAIL.pattern).body(), rl.ALLS), z3.SubString(
        subj(e), pos0(e), slen(subj(e)) - pos0(e)))
    return [Implies(true(e), g) for g in (
        fresh_node(e, 'link'), Not(e.new(n, 'destination', flag='?')),
        e.new(n, 'destination') == Ite(mail, tx.URI(z3.Concat(SV('mailto:'), d)), tx.URI(d)),
        Not(e.new(n, 'title', flag='?')), e.new(n, 'title') == SV(''),
        And(c != null, e.new(c, 't') == code('t', 'text'), lit_is(e, c, d), e.new(c, 'parent') == n))]


add('parseAutolink', BLOCK, ensures=step + [
    ens('the link shows the text between the brackets, its destination is that text normalized', 'C04 C11',
        autolink_clause)], **with_(tags='C04'))
add('parseHtmlTag', BLOCK, ensures=step + [
    ens('raw HTML is passed through unchanged', 'C11 C03', lambda e: Implies(true(e), And(
        fresh_node(e, 'html_inline'), lit_is(e, appended(e), consumed(e)))))], **STEP)
add('parseEntity', BLOCK, ensures=step, **with_(
    tags='C20', spec=(sp.entity, here, appends('C20 C11', verbatim))))


# ---- runs of ordinary characters, smart punctuation
def smart_on(e):
    o = f(e.o, e, 'options')
    return And(z3.Select(e.o.arr('Options', 'smart', '!'), o), z3.Select(e.o.arr('Options', 'smart'), o))


def has_options(st, e):
    o = f(st, e, 'options')
    return And(o != null, z3.Select(st.alloc, o))


OPTIONS = ('options present', lambda e: has_options(e.o, e))
MAINS = rl.plus(rl.chr_(rl.cs_of('\n`[]\\!<&*_\'"').inv())) if hasattr(rl, 'plus') else \
    rl.cat(rl.chr_(rl.cs_of('\n`[]\\!<&*_\'"').inv()), rl.star(rl.chr_(rl.cs_of('\n`[]\\!<&*_\'"').inv())))


ORDINARY = ('at an ordinary character', lambda e: And(
    pos0(e) < slen(subj(e)), inlang(rl.chr_(rl.cs_of('\n`[]\\!<&*_\'"').inv()), char_at(subj(e), pos0(e)))))


def smart_cmp(e, s, r):
    return [('text with smart punctuation as specified', 'C14 C11', Implies(And(true(e), smart_on(e)), And(
        fresh_node(e, 'text'), lit_is(e, appended(e), strterm(e, r)))))]


add('parseString', BLOCK, ensures=step + [
    ens('ordinary text is kept unchanged', 'C11 C14', lambda e: Implies(And(true(e), Not(smart_on(e))),
                                                                        verbatim(e))),
    ens('takes only ordinary characters', 'C11', lambda e: Implies(true(e), inlang(MAINS, consumed(e))))],
    **with_(requires=[OPTIONS, ORDINARY], tags='C14', spec=(sp.smart, lambda e: [S(consumed(e))], smart_cmp)))


# ---- line endings
def last_text(e):
    """Literal of the text node at the end of the block, or None."""
    l = e.old(e.t('block'), 'last_child')
    return O(Or(l == null, e.old(l, 't') != code('t', 'text')), S(e.old(l, 'literal')))


def newline_cmp(e, s, r):
    before = last_text(e)
    l = e.old(e.t('block'), 'last_child')
    t, lit, p = r.items
    out = [('appends the specified kind of break', 'C11 C20', fresh_node(e, t.obj)),
           ('position after it as specified', 'C11', pos1(e) == e.eng.as_int(p))]
    if not (isinstance(lit, Py) and lit.obj is None):
        out.append(('spaces before the break are taken off, nothing else', 'C11', Implies(
            Not(before.isnone), lit_is(e, l, strterm(e, lit)))))
    return out


add('parseNewline', BLOCK, ensures=step, **with_(
    requires=[at_char('\n')],
    modifies=mods('pos', tree=True, more=lambda e: {'Node.literal': [e.old(e.t('block'), 'last_child')]}),
    spec=(sp.newline, lambda e: here(e) + [last_text(e)], newline_cmp)))

# ---- brackets
BRACKETS = lambda e: {'Bracket.bracketAfter': [f(e.o, e, 'brackets')]}


def bracket_entry(e, image):
    b = f(e.n, e, 'brackets')
    g = lambda a: z3.Select(e.n.arr('Bracket', a), b)
    return And(b != null, Not(z3.Select(e.o.alloc, b)), g('node') == appended(e), g('active'),
               g('previous') == f(e.o, e, 'brackets'), g('previousDelimiter') == f(e.o, e, 'delimiters'),
               g('image') == z3.BoolVal(image), g('index') == pos1(e) - 1)


add('parseOpenBracket', BLOCK, ensures=step + [
    ens('appends the bracket as text', 'C11', lambda e: text_is(e, SV('['))),
    ens('remembers the opener', 'C11', lambda e: bracket_entry(e, False))], **with_(
    requires=[at_char('[')], modifies=mods('pos', 'brackets', tree=True, more=BRACKETS)))
add('parseBang', BLOCK, ensures=step + [
    ens('appends the text', 'C11', lambda e: verbatim(e)),
    ens('remembers the opener of an image', 'C11', lambda e: Ite(
        And(pos0(e) + 1 < slen(subj(e)), char_at(subj(e), pos0(e) + 1) == SV('[')),
        And(pos1(e) == pos0(e) + 2, bracket_entry(e, True)),
        And(pos1(e) == pos0(e) + 1, f(e.n, e, 'brackets') == f(e.o, e, 'brackets'))))], **with_(
    requires=[at_char('!')], modifies=mods('pos', 'brackets', tree=True, more=BRACKETS)))

# ---- link parts
LABEL = rl.pat(sp.LABEL.pattern).body()
TITLE = rl.pat(sp.TITLE.pattern).body()
NOSPACE = rl.chr_(rl.cs_of(' \t\n\x0b\x0c\r').inv())
BRACED = rl.pat(sp.BRACED.pattern).body()
PART = dict(modifies=mods('pos'))


def some(e):
    """The result is not None."""
    r = e.res
    if isinstance(r, Py):
        return z3.BoolVal(r.obj is not None)
    return Not(r.isnone) if isinstance(r, O) else z3.BoolVal(True)


def val(e):
    r = e.res
    return SV('') if isinstance(r, Py) else e.eng.as_str(r.val if isinstance(r, O) else r)


add('parseLinkLabel', {}, returns='int', tags='C11 C12 C21', ensures=[
    bounded, ens('the length of a label of at most 999 characters, or 0', 'C11 C12', lambda e: Or(
        e.eng.as_int(e.res) == 0, And(
            pos1(e) == pos0(e) + e.eng.as_int(e.res), e.eng.as_int(e.res) <= 1001, inlang(LABEL, consumed(e))))),
    ens('a label begins with a bracket', 'C11 C12', lambda e: Or(
        e.eng.as_int(e.res) == 0, char_at(subj(e), pos0(e)) == SV('[')))],
    **PART)
add('parseLinkTitle', {}, returns='opt:str', tags='C11 C12 C20 C21', ensures=[
    bounded, ens('failure consumes nothing', 'C11 C12', lambda e: Implies(Not(some(e)), pos1(e) == pos0(e))),
    ens('takes a quoted or parenthesized title', 'C11 C12', lambda e: Implies(some(e), inlang(TITLE, consumed(e)))),
    ens('the title is the unescaped text between its delimiters', 'C20 C12', lambda e: Implies(
        some(e), val(e) == tx.UNESC(z3.SubString(consumed(e), 1, slen(consumed(e)) - 2))))], **PART)


ANY = z3.Int('any_index')


def pointwise(s, a, b, chars):
    """Every character of s[a:b] is in the set (at an arbitrary index)."""
    return Implies(And(a <= ANY, ANY < b), inlang(chars, char_at(s, ANY)))


def dest_loops(v):
    p = v.loc('self')
    if v.fn != 'parseLinkDestination' or not isinstance(p, R):
        return []
    pos, start = v.now(p.e, 'pos', IP), v.at_entry(p.e, 'pos', IP)
    subj = v.now(p.e, 'subject', IP)
    return [('no white space so far', pointwise(subj, start, pos, NOSPACE))]


def destination_clause(e):
    bare = consumed(e)
    braced = And(pos0(e) < slen(subj(e)), char_at(subj(e), pos0(e)) == SV('<'))
    inner = z3.SubString(bare, 1, slen(bare) - 2)
    return Implies(some(e), val(e) == Ite(braced, tx.URI(tx.UNESC(inner)), tx.URI(tx.UNESC(bare))))


add('parseLinkDestination', {}, returns='opt:str', tags='C04 C11 C12 C20 C21', terminates=True, loops=[dest_loops],
    ensures=[
    bounded, ens('failure consumes nothing', 'C11 C12', lambda e: Implies(Not(some(e)), pos1(e) == pos0(e))),
    ens('the normalized unescaped text', 'C04 C20', destination_clause),
    ens('only allowed characters', 'C04', lambda e: Implies(some(e), inlang(rl.star(rl.chr_(tx.ALLOWED)), val(e)))),
    ens('no line ending inside, no white space unless in angle brackets', 'C12 C11', lambda e: Implies(
        some(e), Or(pointwise(subj(e), pos0(e), pos1(e), NOSPACE), inlang(BRACED, consumed(e)))))], **PART)

# ---- delimiter runs (C16)
DELIMS = '*_\'"'


def run_loops(v):
    p, c = v.loc('self'), v.loc('c')
    if v.fn != 'scanDelims' or c is None:
        return []
    pos, start = v.now(p.e, 'pos', IP), v.at_entry(p.e, 'pos', IP)
    subj = v.now(p.e, 'subject', IP)
    return [('only this character so far', Implies(And(start <= ANY, ANY < pos), char_at(subj, ANY) == c.e))]


def scan(e, a):
    return z3.Select(e.n.arr('Scan', a), e.res.e)


def before(e):
    return Ite(pos0(e) == 0, SV('\n'), char_at(subj(e), pos0(e) - 1))


def after(e):
    p = pos0(e) + scan(e, 'numdelims')
    return Ite(p >= slen(subj(e)), SV('\n'), char_at(subj(e), p))


def scan_cmp(e, s, r):
    known = And(*[Not(inlang(UNDECIDED, x)) for x in (before(e), after(e))])
    b = lambda v: bval(e.eng.truth(v, s))
    return [('can open exactly by the flanking rules', 'C16', Implies(known, scan(e, 'can_open') == b(r.items[0]))),
            ('can close exactly by the flanking rules', 'C16', Implies(known, scan(e, 'can_close') == b(r.items[1])))]


UNDECIDED = rl.pat(sp.UNDECIDED.pattern).body()
AT_C = ('at the character', lambda e, k='c': And(
    pos0(e) < slen(subj(e)), char_at(subj(e), pos0(e)) == e.t(k), inlang(rl.chr_(rl.cs_of(DELIMS)), e.t(k))))
quote = lambda c: Or(c == SV("'"), c == SV('"'))
add('scanDelims', {'c': 'char'}, returns='ref:Scan!', allocs=True, tags='C16 C11 C17 C21', terminates=True,
    requires=[AT_C], modifies=mods('pos'), loops=[run_loops], ensures=[
    ens('reading position unchanged', 'C16 C11', lambda e: pos1(e) == pos0(e)),
    ens('a run inside the text', 'C16 C11', lambda e: And(scan(e, 'numdelims') >= 1, pos0(e) + scan(e, 'numdelims') <= slen(subj(e)))),
    ens('the run consists of this character only', 'C16 C17', lambda e: Implies(
        And(pos0(e) <= ANY, ANY < pos0(e) + scan(e, 'numdelims')), char_at(subj(e), ANY) == e.t('c'))),
    ens('the run is as long as possible, quotes stand alone', 'C16', lambda e: Ite(
        quote(e.t('c')), scan(e, 'numdelims') == 1, after(e) != e.t('c')))],
    spec=(sp.flanking, lambda e: [e['c'], S(before(e)), S(after(e))], scan_cmp))

# ---- code spans (C18)
TICK = rl.chr_(rl.cs_of('`'))
TICKS = rl.pat('`+')


def exact_run(s, k, ticks):
    """A run of exactly these backticks, no more, begins at k."""
    return And(Not(And(k > 0, inlang(TICK, char_at(s, k - 1)))), inlang(rl.cat(TICK, rl.ALLS), sfx(s, k)),
               at_run(TICKS, sfx(s, k)) == ticks)


def opt(eng, v):
    """(is None, string term) of a value that is a string or None."""
    if isinstance(v, Py) and v.obj is None:
        return z3.BoolVal(True), SV('')
    if isinstance(v, O):
        return v.isnone, eng.as_str(v.val)
    return z3.BoolVal(False), eng.as_str(v)


def ticks_loops(v):
    p, m, a, t = v.loc('self'), v.loc('matched'), v.loc('after_open_ticks'), v.loc('ticks')
    if v.fn != 'parseBackticks' or m is None or a is None:
        return []
    none, g = opt(v.eng, m)
    pos, s, start = v.now(p.e, 'pos', IP), v.now(p.e, 'subject', IP), v.eng.as_int(a)
    t = opt(v.eng, t)[1]
    b = pos - slen(g)
    mine = And(start < b, Not(inlang(rl.cat(TICK, rl.ALLS), sfx(s, pos))), z3.SubString(s, b, slen(g)) == g, inlang(TICKS.body(), g), Not(inlang(TICK, char_at(s, b - 1))),
               at_run(TICKS, sfx(s, b)) == g, inlang(rl.cat(TICK, rl.ALLS), sfx(s, b)),
               Implies(And(b < ANY, ANY < pos), inlang(TICK, char_at(s, ANY - 1))))
    return [('the run just read is a whole one', Or(none, mine)),
            ('no equal run before', Implies(And(start <= ANY, ANY < Ite(none, slen(s), b)), Not(exact_run(s, ANY, t))))]


def ticks_variant(v):
    p, m = v.loc('self'), v.loc('matched')
    if v.fn != 'parseBackticks' or m is None:
        return []
    return [('backticks left', Ite(opt(v.eng, m)[0], z3.IntVal(0), slen(v.now(p.e, 'subject', IP)) - v.now(p.e, 'pos', IP) + 1))]


def code_cmp(e, s, r):
    ticks, lit = (e.eng.as_str(x) for x in r.items)
    T = slen(ticks)
    is_code = z3.And(appended(e) != null, e.new(appended(e), 't') == code('t', 'code'))
    end = pos1(e) - T
    k = ANY
    return [
        ('a code span or the backticks as text', 'C18 C11', Or(And(fresh_node(e, 'code'), is_code), text_is(e, ticks))),
        ('ends with an equally long run', 'C18', Implies(is_code, And(end > pos0(e) + T, exact_run(subj(e), end, ticks)))),
        ('ends at the first such run', 'C18', Implies(And(is_code, pos0(e) + T <= k, k < end), Not(exact_run(subj(e), k, ticks)))),
        ('the content is the source text with line endings as spaces, stripped at most once', 'C18', Implies(
            is_code, lit_is(e, appended(e), lit))),
        ('literal backticks only without an equally long run behind', 'C18 C11', Implies(Not(is_code), And(
            pos1(e) == pos0(e) + T, Implies(And(pos1(e) <= k, k < slen(subj(e))), Not(exact_run(subj(e), k, ticks))))))]


add('parseBackticks', BLOCK, ensures=step, **with_(
    requires=[at_char('`')], tags='C18', terminates=True, loops=[ticks_loops],
    variants=[ticks_variant],
    spec=(sp.code, lambda e: here(e) + [I(pos1(e))], code_cmp)))

# ---- link reference definitions (C12)
NORM = z3.Function('NORMAL_LABEL', Str, Str)
NR = 'commonmark.normalize_reference.normalize_reference'
CONTRACTS.append(Contract(NR, {'string': 'str'}, returns='str', tags='C12',
    spec=(sp.normal_label, lambda e: [e['string']], tx.same('trimmed, collapsed, case folded', 'C12')),
    ensures=[ens('the normal form of the label', 'C12', lambda e: e.eng.as_str(e.res) == NORM(e.t('string')),
                 calls=lambda eng: True)]))
CONTRACTS[-1].ensures[0].f = (lambda f: lambda e: f(e) if e.eng.contract is None or e.eng.contract.path != NR
                              else z3.BoolVal(True))(CONTRACTS[-1].ensures[0].f)


def lookup(st, e, k):
    return z3.Select(z3.Select(st.arr('RefMap', '$map'), e.t('refmap')), k)


KEY = z3.Const('any_label', Str)


def definition_end(e):
    s, p = e.t('s'), pos1(e)
    return Or(p == slen(s), char_at(s, p - 1) == SV('\n'))


def taken(e):
    return e.eng.as_int(e.res) > 0


def first_wins(e):
    """At an arbitrary label: only a label not yet known is added, and it is that of the definition."""
    was, now = lookup(e.o, e, KEY), lookup(e.n, e, KEY)
    return Or(was == now, And(taken(e), was == null, now != null))


add('parseReference', {'s': 'str', 'refmap': 'ref:RefMap!'}, returns='int', tags='C12 C11 C21', allocs=True, inv=BINV,
    modifies=mods('pos', 'subject', more=lambda e: {'RefMap.$map': [e.t('refmap')]}), ensures=[
        ens('consumes no more than there is', 'C11 C12', lambda e: And(
            e.eng.as_int(e.res) >= 0, e.eng.as_int(e.res) <= slen(e.t('s')))),
        ens('a failed definition defines nothing', 'C12', lambda e: Or(
            taken(e), lookup(e.o, e, KEY) == lookup(e.n, e, KEY))),
        ens('the first definition of a label stays', 'C12', first_wins),
        ens('a definition ends at the end of a line', 'C12', lambda e: Implies(taken(e), And(
            pos1(e) == e.eng.as_int(e.res), definition_end(e)))),
        ens('a definition begins with a bracket', 'C12', lambda e: Implies(
            taken(e), And(slen(e.t('s')) > 0, char_at(e.t('s'), 0) == SV('['))))])
CONTRACTS[-1].requires = []       # it begins at 0 of a text of its own
