"""Models of the built-in types and library functions used by CommonMark-py (trusted base).

Every model is a set of facts that CPython 3.12 guarantees.
"""
import builtins
import html as _html
import itertools
import json as _json
import re
import types
from urllib.parse import quote as _quote

import z3

from . import relang as rl
from .vals import *
from .langs import LANGS, canon, lang_id, inlang, strval, sval, Hom, matchfn, TokSub
from . import engine as E
from .engine import (And, Or, Not, Implies, Ite, Cat, slen, sfx, is_sfx, char_at, cint, bval, fresh, PYNONE, PYT,
                     PYF, EMPTYS, TRUE, FALSE, Exc, Unsupported)

WS = rl.cs_pattern(r'\s', 0)          # str.isspace / \s agree on 3.12
_fn = {}


def ufn(name, *sorts):
    f = _fn.get(name)
    if f is None:
        f = _fn[name] = z3.Function(name, *sorts)
    return f


_cskey = {}


def csname(cs):
    return _cskey.setdefault(cs.iv, 'c%d' % len(_cskey))


def not_none(eng, v, st, line):
    return eng.deopt(v, st, line, 'AttributeError')


# ---------------------------------------------------------------- strip
def cls_text(cs):
    return '[%s]' % ''.join(re.escape(chr(a)) + ('-' + re.escape(chr(b)) if b > a else '')
                            for a, b in cs.iv)


def lstrip(eng, st, s, cs):
    n = csname(cs)
    if z3.is_string_value(s):
        t = sval(s)
        return strval(t.lstrip(''.join(c for c in set(t) if ord(c) in cs) or '\0') if
                      any(ord(c) in cs for c in t) else t)
    r = ufn('LSTRIP_' + n, Str, Str)(s)
    p = matchfn(rl.pat('^%s*' % cls_text(cs), 0)).g(s)
    st.pc += [s == z3.Concat(p, r), inlang(rl.star(rl.chr_(cs)), p),
              inlang(rl.alt(rl.EPS, rl.cat(rl.chr_(cs.inv()), rl.ALLS)), r),
              Implies(Not(inlang(rl.cat(rl.chr_(cs), rl.ALLS), s)), r == s),
              (r == EMPTYS) == inlang(rl.star(rl.chr_(cs)), s)]
    strip_langs(st, s, p, r, rl.star(rl.chr_(cs)), rl.alt(rl.EPS, rl.cat(rl.chr_(cs.inv()), rl.ALLS)))
    return r


def rstrip(eng, st, s, cs):
    n = csname(cs)
    if z3.is_string_value(s):
        t = sval(s)
        while t and ord(t[-1]) in cs:
            t = t[:-1]
        return strval(t)
    r = ufn('RSTRIP_' + n, Str, Str)(s)
    p = ufn('RSTRIPPED_' + n, Str, Str)(s)
    st.pc += [s == z3.Concat(r, p), inlang(rl.star(rl.chr_(cs)), p),
              inlang(rl.alt(rl.EPS, rl.cat(rl.ALLS, rl.chr_(cs.inv()))), r),
              Implies(Not(inlang(rl.cat(rl.ALLS, rl.chr_(cs)), s)), r == s),
              (r == EMPTYS) == inlang(rl.star(rl.chr_(cs)), s)]
    strip_langs(st, s, r, p, rl.alt(rl.EPS, rl.cat(rl.ALLS, rl.chr_(cs.inv()))), rl.star(rl.chr_(cs)))
    return r


def known_langs(st, s):
    """Languages the path says the text is in."""
    k = canon(s)
    true = {x.get_id() for f in st.pc for x in conjuncts(f)}
    out = [i for f in st.pc for t, i in langs_of(f, true) if t.eq(k)]
    return [LANGS[i][0] for i in dict.fromkeys(out)][:4]


def conjuncts(f):
    f = E.simp(f)
    return [y for x in f.children() for y in conjuncts(x)] if z3.is_and(f) else [f]


def langs_of(f, true=frozenset()):
    if z3.is_and(f):
        return [y for x in f.children() for y in langs_of(x, true)]
    if z3.is_implies(f) and E.simp(f.arg(0)).get_id() in true:
        return langs_of(f.arg(1), true)
    if z3.is_app(f) and f.num_args() == 1 and f.decl().name() in LNAMES():
        return [(canon(f.arg(0)), LNAMES()[f.decl().name()])]
    return []


_ln = {}


def LNAMES():
    for i in range(len(_ln), len(LANGS)):
        _ln[LANGS[i][1].name()] = i
    return _ln


def strip_langs(st, s, first, second, lang1, lang2):
    """s = first + second: what the known languages of s say about the two."""
    for A in known_langs(st, s):
        if A is rl.ALLS:
            continue
        try:
            st.pc += [inlang(rl.and_(rl.before(A, lang2), lang1), first), inlang(rl.and_(rl.after(A, lang1), lang2), second)]
        except (rl.Budget, rl.Unsupported):
            pass


# ---------------------------------------------------------------- regular expressions
def compile_(eng, v):
    """Pattern object -> relang.Pat"""
    v = v.obj if isinstance(v, Py) else v
    if isinstance(v, str):
        return rl.pat(v, 0)
    if isinstance(v, re.Pattern):
        fl = v.flags & (re.I | re.M | re.S | re.A | re.X)
        return rl.pat(v.pattern, fl)
    raise Unsupported('pattern %r' % (v,))


def do_match(eng, P, s, st, mode='search'):
    """[(st, M)]: result of re.search / re.match of P on string term s."""
    if mode in ('match', 'fullmatch') and not (P.anchored()):
        P = rl.pat('^(?:%s)' % P.pattern if mode == 'match' else '^(?:%s)\\Z' % P.pattern, P.flags & ~re.M)
    elif mode == 'fullmatch':
        P = rl.pat('^(?:%s)\\Z' % P.pattern, P.flags & ~re.M)
    mf = matchfn(P)
    try:
        lang = P.search
        found = inlang(lang, s)
    except rl.Unsupported:
        found = ufn('FOUND_' + mf.g.name(), Str, z3.BoolSort())(s)
    g = mf.g(s)
    start = z3.IntVal(0) if mf.anch else mf.s(s)
    facts = []
    facts.append(inlang(mf.body, g))
    if mf.anch:
        facts.append(z3.PrefixOf(g, s))
        after = sfx(s, slen(g))
        facts.append(s == z3.Concat(g, after))
        if z3.is_app_of(s, z3.Z3_OP_SEQ_EXTRACT):       # of a part of x: the same part of x
            x, i = s.arg(0), s.arg(1)
            facts.append(z3.Implies(And(i >= 0, i <= slen(x)), z3.SubString(x, i, slen(g)) == g))
    else:
        try:
            facts.append(z3.Implies(inlang(P.at0, s), start == 0))
        except rl.Unsupported:
            pass
        facts += [start >= 0, start + z3.Length(g) <= slen(s),
                  g == substring(s, start, z3.Length(g))]
        after = sfx(s, start + z3.Length(g))
    if mf.rest is not rl.ALLS:
        facts.append(inlang(mf.rest, after))
    facts += alternatives(P, mf, s, g, after)
    fr = P.final_run()
    if fr is not None:
        facts.append(inlang(rl.alt(rl.EPS, rl.cat(rl.chr_(fr.inv()), rl.ALLS)), after))
    cc = P.char_class()
    if cc is not None:
        facts.append(z3.Length(g) == 1)
    run_facts(P, mf, s, g, start, found, facts, st)
    for h in MATCH_HOOKS:
        h(eng, st, P, mf, s, g, start, facts)
    if mf.anch and mf.body is not rl.ALLS:
        for s2, f2, mf2 in eng.matches:
            if s2.eq(s) and mf2 is not mf:
                if unique_prefix(mf, mf2):
                    facts.append(z3.Implies(f2, mf2.g(s) == g))
                if mf2.rest is rl.ALLS:
                    facts.append(z3.Implies(inlang(mf2.body, g), f2))
                if mf.rest is rl.ALLS:
                    st.pc.append(z3.Implies(And(f2, inlang(mf.body, mf2.g(s))), found))
        eng.matches.append((s, found, mf))
    st.pc.append(z3.Implies(found, And(*facts)))
    m = Match(found, g, start, s, P)
    m.mf = mf
    return M(m)


MATCH_HOOKS = []
ANY = z3.Int('any_index')        # the arbitrary index of pointwise clauses


def at_run(P, s):
    """The run of the characters of P (a pattern C+) the string s begins with."""
    return matchfn(rl.pat('^(?:%s)' % P.pattern, P.flags)).g(s)


def substring(s, a, n):
    if is_sfx(s):
        return z3.SubString(s.arg(0), z3.simplify(s.arg(1) + a), n)
    return z3.SubString(s, a, n)


def alternatives(P, mf, s, g, after):
    """A pattern ending in X(A|B$..): which alternative was taken decides what follows."""
    import copy
    import re._constants as sc
    t = P.tree
    if not t or not (t[-1][0] is sc.BRANCH or t[-1][0] is sc.SUBPATTERN and not t[-1][1][1] and not t[-1][1][2]):
        return []
    head, last = t[:-1], unwrapped([t[-1]])
    if len(last) != 1 or last[0][0] is not sc.BRANCH or len(last[0][1][1]) > 4 or not any(
            b and list(b)[-1][0] in (sc.AT, sc.ASSERT, sc.ASSERT_NOT) for b in last[0][1][1]):
        return []
    x, i = (s, z3.IntVal(0)) if not z3.is_app_of(s, z3.Z3_OP_SEQ_EXTRACT) else (s.arg(0), s.arg(1))
    inside = And(i >= 0, i <= slen(x))
    out, ends, not_yet = [], [], rl.ALLS
    run = [x for x in head if x[0] is not sc.AT]
    whole = mf.anch and len(run) == 1 and run[0][0] is sc.MAX_REPEAT and run[0][1][1] is sc.MAXREPEAT and \
        len(run[0][1][2]) == 1 and run[0][1][2][0][0] in (sc.LITERAL, sc.IN, sc.NOT_LITERAL)
    try:
        for b in last[0][1][1]:
            b = list(b)
            q = copy.copy(P)
            q.tree = list(head) + b
            rest = q.rest()
            if len(b) == 1 and b[0][0] is sc.AT:    # the alternatives before this one have failed at the same place
                rest = rl.and_(rest, not_yet)
            elif whole and not_yet is rl.ALLS:
                # the run is taken whole and the first alternative is tried first, there and nowhere else
                a = P.plain(b)
                if not a.nul and rl.firsts(a).inter(P.charset(run[0][1][2][0])).size() == 0:
                    not_yet = rl.not_(rl.cat(a, rl.ALLS))
            end = TRUE
            if mf.anch and b and b[-1][0] is sc.LITERAL and not P.flags & re.I:
                end = And(slen(g) > 0, z3.Implies(inside, char_at(x, i + slen(g) - 1) == z3.StringVal(chr(b[-1][1]))))
            if mf.anch and rl.equal(rest, rl.EPS):
                rest, end = rl.EPS, And(end, z3.Implies(inside, i + slen(g) == slen(x)))
            fr = q.final_run()
            if fr is not None:
                rest = rl.and_(rest, rl.alt(rl.EPS, rl.cat(rl.chr_(fr.inv()), rl.ALLS)))
            out.append(And(inlang(q.body(), g), inlang(rest, after)))
            ends.append(end)
        return [Or(*ends), Or(*out)]
    except rl.Unsupported:
        return []


def run_facts(P, mf, s, g, start, found, facts, st):
    """The first run of characters of a class in s: pointwise, at the arbitrary index."""
    c = P.run_class()
    if c is None or mf.anch:
        return
    base, off = s, z3.IntVal(0)
    if z3.is_app_of(s, z3.Z3_OP_SEQ_EXTRACT):
        base, off = s.arg(0), s.arg(1)
    inset = lambda k: inlang(rl.chr_(c), char_at(base, k))
    b, e = off + start, off + start + slen(g)
    for k in (ANY, ANY - 1):
        facts.append(z3.Implies(And(off <= k, k < b), Not(inset(k))))
        facts.append(z3.Implies(And(b <= k, k < e), inset(k)))
        st.pc.append(z3.Implies(And(Not(found), off <= k, k < slen(base)), Not(inset(k))))
    facts.append(z3.Implies(start > 0, Not(inset(b - 1))))
    facts.append(at_run(P, sfx(base, b)) == g)
    facts.append(inlang(rl.cat(rl.chr_(c), rl.ALLS), sfx(base, b)))


_uniq = {}


def unique_prefix(a, b):
    """No word of either language is a proper prefix of a word of the two."""
    k = (a.g.name(), b.g.name())
    if k not in _uniq:
        try:
            u = rl.alt(a.body, b.body)
            _uniq[k] = rl.empty(rl.and_(u, rl.cat(u, rl.SIGMA, rl.ALLS)))
        except (rl.Unsupported, rl.Budget):
            _uniq[k] = False
    return _uniq[k]


def match_method(eng, v, name, args, st, line):
    m = v.m
    if name == 'group' and (not args or isinstance(args[0], Py) and args[0].obj == 0):
        yield st, S(m.group)
        return
    if name in ('group', '__getitem__') and len(args) == 1 and isinstance(args[0], Py):
        k = args[0].obj
        if k == 0:
            yield st, S(m.group)
            return
        n = re.compile(m.pat.pattern, m.pat.flags & (re.I | re.M | re.S)).groups
        if not isinstance(k, int) or k > n:
            yield st, Exc('IndexError', line)
            return
        yield st, group_k(eng, m, k, st)
        return
    if name == 'end' and not args:
        yield st, I(m.start + slen(m.group))
        return
    if name == 'start' and not args:
        yield st, I(m.start)
        return
    if name == 'groups' and not args:
        n = re.compile(m.pat.pattern, m.pat.flags & (re.I | re.M | re.S)).groups
        yield st, T(tuple(group_k(eng, m, k, st) for k in range(1, n + 1)))
        return
    raise Unsupported('match.%s' % name)


def group_k(eng, m, k, st):
    """Group k: supported for patterns that are a concatenation of groups covering everything, or
    as an uninterpreted part otherwise."""
    g = m.mf.group(k, m.subj, m.pat)
    import re._constants as sc
    items, tail = m.pat.split_ends()
    idx = [i for i, it in enumerate(items) if it[0] is sc.SUBPATTERN and it[1][0] == k]
    if len(idx) != 1:
        return O(fresh('nogroup', z3.BoolSort()), S(g))
    st.pc.append(z3.Implies(m.found, inlang(m.pat.plain(list(items[idx[0]][1][3])), g)))
    # a concatenation in which every other item is also a top-level group: fix the split
    if all(it[0] is sc.SUBPATTERN and it[1][0] for it in items):
        parts = [m.mf.group(it[1][0], m.subj, m.pat) for it in items]
        for it, p in zip(items, parts):
            st.pc.append(z3.Implies(m.found, inlang(m.pat.plain(list(it[1][3])), p)))
        st.pc.append(z3.Implies(m.found, m.group == Cat(*parts)))
    return S(g)


def eval_repl(eng, repl, groupterm, st, line):
    """Value of a replacement for a match whose group(0) is the given term; [(st, value)]."""
    if isinstance(repl, (S, Py)) and eng.as_str(repl) is not None:
        r = repl
        if isinstance(r, Py) and '\\' in r.obj:
            raise Unsupported('template in re.sub')
        if not isinstance(r, Py):
            raise Unsupported('symbolic replacement')
        return [(st, r)]
    m = Match(TRUE, groupterm, fresh('mstart', z3.IntSort()), fresh('msubj', Str),
              rl.pat('.', 0))
    m.mf = None
    return list(eng.call(repl, [M(m)], {}, st, line))


def const_of(eng, s, v):
    if isinstance(v, Py) and isinstance(v.obj, str):
        return v.obj
    if isinstance(v, S):
        e = z3.simplify(v.e)
        if z3.is_string_value(e):
            return sval(e)
    return None


def re_sub(eng, P, repl, s, st, line):
    if isinstance(repl, Py) and isinstance(repl.obj, str):
        pass
    cc = P.char_class()
    if cc is not None:
        if isinstance(repl, Py) and isinstance(repl.obj, str):
            if '\\' in repl.obj:
                raise Unsupported('template in re.sub')
            h = Hom(((cc, 'const', repl.obj),))
            yield st, S(apply_hom(eng, st, h, s))
            return
        if cc.size() <= 64:
            rules = []
            for c in cc.chars():
                rs = eval_repl(eng, repl, strval(c), st.copy(), line)
                rs = [(x, v) for x, v in rs if E.feasible(x.pc)] if len(rs) > 1 else rs
                if len(rs) != 1 or isinstance(rs[0][1], Exc):
                    raise Unsupported('replacement callback')
                k = const_of(eng, rs[0][0], rs[0][1])
                if k is None:
                    raise Unsupported('replacement callback result')
                rules.append((rl.cs_of(c), 'const', k))
            yield st, S(apply_hom(eng, st, Hom(tuple(rules)), s))
            return
    if isinstance(repl, Py) and repl.obj == '':
        r = strip_sub(eng, P, s, st)
        if r is not None:
            yield st, S(r)
            return
    if isinstance(repl, Py) and isinstance(repl.obj, str) and '\\' not in repl.obj:
        r = tail_sub(P, repl.obj, s, st)
        if r is None and repl.obj == '':
            r = end_sub(P, s, st)
        if r is not None:
            yield st, S(r)
            return
    for hook in SUB_HOOKS:
        r = hook(eng, P, repl, s, st, line)
        if r is not None:
            yield st, S(r)
            return
    # general case: a function of the subject, determined by where the pattern matches and by what
    # the replacement makes of the matched text
    f = token_sub(eng, P, repl, st, line)
    r = f(s)
    try:
        st.pc.append(z3.Implies(Not(inlang(P.search, s)), r == s))
    except rl.Unsupported:
        pass
    yield st, S(r)


def strip_sub(eng, P, s, st):
    """re.sub of a run of one character class at the beginning or the end by nothing: stripping."""
    import re._constants as sc
    if P.flags & re.M or len(P.tree) != 2:
        return None
    (o1, a1), (o2, a2) = P.tree
    at_start = o1 is sc.AT and a1 in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING)
    at_end = o2 is sc.AT and a2 in (sc.AT_END, sc.AT_END_STRING)
    if at_start == at_end:
        return None
    op, av = (o2, a2) if at_start else (o1, a1)
    if op is not sc.MAX_REPEAT or av[0] > 1 or av[1] is not sc.MAXREPEAT or len(av[2]) != 1 or \
            av[2][0][0] not in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
        return None
    cs = P.charset(av[2][0])
    if at_start:
        return lstrip(eng, st, s, cs)
    if a2 is sc.AT_END_STRING:
        return rstrip(eng, st, s, cs)
    if 10 in cs:
        return None
    # $ also matches before a final newline
    body = z3.SubString(s, 0, slen(s) - 1)
    return Ite(z3.SuffixOf(strval('\n'), s), z3.Concat(rstrip(eng, st, body, cs), strval('\n')),
               rstrip(eng, st, s, cs))


def unwrapped(tree):
    import re._constants as sc
    out = []
    for op, av in tree:
        if op is sc.SUBPATTERN and not av[1] and not av[2]:
            out += unwrapped(av[3])
        else:
            out.append((op, av))
    return out


def tail_sub(P, repl, s, st):
    """re.sub of (\\n[..]*)+$: what stands before the longest end of s in that language is kept.
    The match reaches the very end: it can be taken apart in one way only, and more is tried first."""
    import re._constants as sc
    t = unwrapped(P.tree)
    if P.flags & re.M or len(t) != 2 or t[0][0] is not sc.MAX_REPEAT or t[1][0] is not sc.AT or \
            t[1][1] not in (sc.AT_END, sc.AT_END_STRING) or t[0][1][0] != 1 or t[0][1][1] is not sc.MAXREPEAT:
        return None
    x = unwrapped(t[0][1][2])
    if len(x) != 2 or x[0][0] is not sc.LITERAL or x[0][1] != 10 or x[1][0] is not sc.MAX_REPEAT or \
            x[1][1][0] != 0 or x[1][1][1] is not sc.MAXREPEAT:
        return None
    y = unwrapped(x[1][1][2])
    if len(y) != 1 or y[0][0] not in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
        return None
    cs = P.charset(y[0])
    if 10 in cs:
        return None
    n = csname(cs)
    h, e = ufn('HEAD_' + n, Str, Str)(s), ufn('TAIL_' + n, Str, Str)(s)
    one = rl.cat(rl.lit('\n'), rl.star(rl.chr_(cs)))
    lang = rl.cat(one, rl.star(one))
    st.pc += [s == z3.Concat(h, e), inlang(rl.alt(rl.EPS, lang), e), Not(inlang(rl.cat(rl.ALLS, lang), h))]
    return z3.Concat(h, Ite(e == EMPTYS, EMPTYS, strval(repl)))


def end_sub(P, s, st):
    """re.sub of a pattern that reaches to the end of the text by nothing: the first match is the longest
    such end.  (In texts that end with a newline, $ also matches before it: nothing is said of those.)"""
    import re._constants as sc
    t = P.tree
    if P.flags & re.M or not t or t[-1][0] is not sc.AT or t[-1][1] not in (sc.AT_END, sc.AT_END_STRING):
        return None
    anch = t[0][0] is sc.AT
    try:
        body = P.plain(t[1:-1] if anch else t[:-1])
        run = rl.CS(())
        for c in rl.sets_of(body):
            c = c.inter(rl.firsts(body))
            if c.iv and rl.included(rl.cat(rl.chr_(c), body), body):
                run = run.union(c)
        found = body if anch else rl.cat(rl.ALLS, body)
        n = '%d%s' % (lang_id(body), 'a' if anch else '')
    except (rl.Unsupported, rl.Budget):
        return None
    h, e = ufn('KEPT_' + n, Str, Str)(s), ufn('CUT_' + n, Str, Str)(s)
    facts = [s == z3.Concat(h, e), z3.If(inlang(found, s), And(inlang(body, e), *(
        [h == EMPTYS] if anch else [Not(inlang(rl.cat(rl.ALLS, rl.chr_(run)), h))] if run.iv else [])), h == s)]
    if t[-1][1] is sc.AT_END_STRING:
        st.pc += facts
        return h
    nl = inlang(rl.cat(rl.ALLS, rl.lit('\n')), s)
    if E.prove(st.pc, Not(nl), 2000)[0] == 'valid':
        st.pc += facts + [Not(nl)]
        return h
    st.pc += [Implies(Not(nl), f) for f in facts]
    return Ite(nl, ufn('CUT$' + n, Str, Str)(s), h)


TOK = z3.Const('token', Str)


def token_sub(eng, P, repl, st, line):
    """Function symbol of re.sub(P, repl, .): equal for substitutions proved equal."""
    mf = matchfn(P)
    n0 = next(E._ctr)
    if isinstance(repl, (Py, S)) and eng.as_str(repl) is not None:
        if not isinstance(repl, Py) or '\\' in repl.obj:
            raise Unsupported('replacement in re.sub')
        outs = [([], strval(repl.obj))]
    else:
        s0 = st.copy()
        s0.pc = [inlang(mf.body, TOK), z3.Length(TOK) >= 1]
        base = len(s0.pc)
        m = Match(TRUE, TOK, fresh('mstart', z3.IntSort()), fresh('msubj', Str), P)
        m.mf = mf
        outs = []
        heap0 = dict(s0.heap)
        for s, v in eng.call(repl, [M(m)], {}, s0, line):
            if isinstance(v, Exc):
                if E.feasible(s.pc):
                    eng.oblige(s, FALSE, 'no %s in the replacement at line %d' % (v.cls, line),
                               frozenset(['*']), line, 'safety')
                continue
            if any(k in heap0 and not a.eq(heap0[k]) for k, a in s.heap.items()):
                raise Unsupported('replacement with side effects')
            e = eng.as_str(v)
            if e is None:
                raise Unsupported('replacement result %r' % (v,))
            outs.append((list(s.pc[base:]), e))
    pure = not any(impure(x, n0) for pc, e in outs for x in list(pc) + [e])
    if not pure:
        return ufn('RESUBF%d' % next(E._ctr), Str, Str)
    for q in TokSub.table:
        if same_sub(P, mf, outs, q):
            return q.f
    t = TokSub(str(len(TokSub.table)), P, None)
    t.mf, t.outs = mf, outs
    return t.f


def impure(e, n0):
    """Does the term depend on anything but the token?"""
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.eq(TOK):
            nm = x.decl().name()
            if not ('!' in nm and nm.rsplit('!', 1)[1].isdigit() and int(nm.rsplit('!', 1)[1]) >= n0):
                return True
        todo.extend(x.children())
    return False


def same_sub(P, mf, outs, q):
    """Do the two substitutions replace the same tokens by the same texts?"""
    if mf is q.mf:
        extra = [], []
    else:
        if not (mf.longest and q.mf.longest and mf.anch == q.mf.anch):
            return False
        try:
            d1, d2 = rl.and_(mf.body, rl.not_(q.mf.body)), rl.and_(q.mf.body, rl.not_(mf.body))
            first = rl.firsts(mf.body).union(rl.firsts(q.mf.body))
            shape = rl.cat(rl.SIGMA, rl.star(rl.chr_(first.inv())))
            if not (rl.included(d1, shape) and rl.included(d2, shape)):
                return False
            extra = [d1], [d2]
        except (rl.Unsupported, rl.Budget):
            return False
    dom = [inlang(mf.body, TOK), z3.Length(TOK) >= 1]
    both = dom + [inlang(q.mf.body, TOK)]
    for pa, va in outs:
        for pb, vb in q.outs:
            if va.eq(vb):
                continue
            if E.prove(both + list(pa) + list(pb), va == vb, 4000)[0] != 'valid':
                return False
    # a token only one of the two knows must be one it leaves unchanged
    for d in extra[0]:
        for pa, va in outs:
            if E.prove([inlang(d, TOK)] + dom + list(pa), va == TOK, 4000)[0] != 'valid':
                return False
    for d in extra[1]:
        for pb, vb in q.outs:
            if E.prove([inlang(d, TOK), z3.Length(TOK) >= 1, inlang(q.mf.body, TOK)] + list(pb),
                       vb == TOK, 4000)[0] != 'valid':
                return False
    return True


SUB_HOOKS = []
_subs = []


def sub_id(P):
    """Patterns with the same text and flags are the same substitution."""
    k = (P.pattern, P.flags)
    if k not in _subs:
        _subs.append(k)
    return _subs.index(k)


def apply_hom(eng, st, h, s):
    r = h(s)
    for x, t in hom_apps(h, r):
        st.pc.extend(x.facts(t))
    return r


def hom_apps(h, r):
    """(Hom, argument) for every application of a Hom function in term r."""
    by = {x.f.name(): x for x in Hom.table.values()}
    out, todo, seen = [], [r], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.num_args() == 1 and e.decl().name() in by:
            out.append((by[e.decl().name()], e.arg(0)))
        todo.extend(e.children())
    return out


def re_call(eng, name, args, kw, st, line):
    args = list(args)
    if kw:
        raise Unsupported('keyword arguments of re.' + name)
    P = compile_(eng, args[0])
    if name in ('search', 'match', 'fullmatch'):
        for s, x in eng.deopt(args[1], st, line):
            if isinstance(x, Exc):
                yield s, x
                continue
            e = eng.as_str(x)
            if e is None:
                for s2, y in en_str(eng, x, s):
                    if y is None:
                        yield s2, Exc('TypeError', line)
                    else:
                        yield s2, do_match(eng, P, y, s2, name)
                continue
            if z3.is_string_value(e):
                f = getattr(re, name)(re.compile(P.pattern, P.flags & ~re.U), sval(e))
                if f is None:
                    yield s, PYNONE
                else:
                    mm = Match(TRUE, strval(f.group()), z3.IntVal(f.start()), e, P)
                    mm.mf = matchfn(P)
                    yield s, M(mm)
                continue
            yield s, do_match(eng, P, e, s, name)
        return
    if name == 'sub':
        if len(args) > 3:
            raise Unsupported('re.sub count')
        for s, x in eng.deopt(args[2], st, line):
            if isinstance(x, Exc):
                yield s, x
                continue
            e = eng.as_str(x)
            if e is None:
                yield s, Exc('TypeError', line)
                continue
            for r in re_sub(eng, P, args[1], e, s, line):
                yield r
        return
    if name == 'split':
        e = eng.as_str(args[1])
        if e is None:
            yield st, Exc('TypeError', line)
            return
        for r in SPLIT[0](eng, P, e, st, line):
            yield r
        return
    if name == 'compile':
        yield st, Py(re.compile(args[0].obj, *[a.obj for a in args[1:]]))
        return
    raise Unsupported('re.' + name)


def default_split(eng, P, e, st, line):
    k = sub_id(P)
    arr = ufn('RESPLIT_%d' % k, Str, z3.ArraySort(z3.IntSort(), Str))(e)
    n = ufn('RESPLITN_%d' % k, Str, z3.IntSort())(e)
    st.pc.append(n >= 1)
    yield st, SL(arr, n)


SPLIT = [default_split]


def en_str(eng, x, st):
    if isinstance(x, En):
        for s, y in eng.enum_split(x, st):
            yield s, strval(y.obj)
    elif isinstance(x, O):
        raise Unsupported('optional')
    else:
        yield st, None


# ---------------------------------------------------------------- methods
def charset_arg(eng, args):
    if not args or isinstance(args[0], Py) and args[0].obj is None:
        return WS
    if isinstance(args[0], Py) and isinstance(args[0].obj, str):
        return rl.cs_of(args[0].obj)
    raise Unsupported('strip argument')


def str_method(eng, v, name, args, kw, st, line):
    s = eng.as_str(v)
    if isinstance(v, Py) and all(isinstance(a, Py) for a in args) and not kw:
        try:
            r = getattr(v.obj, name)(*[a.obj for a in args])
        except Exception as e:
            yield st, Exc(type(e).__name__, line)
            return
        if isinstance(r, list):
            yield st, eng.new_list(st, [Py(x) for x in r])
        else:
            yield st, Py(r)
        return
    if name == 'strip':
        cs = charset_arg(eng, args)
        r = rstrip(eng, st, lstrip(eng, st, s, cs), cs)
        st.pc.append(inlang(rl.alt(rl.EPS, rl.chr_(cs.inv()),
                                   rl.cat(rl.chr_(cs.inv()), rl.ALLS, rl.chr_(cs.inv()))), r))
        yield st, S(r)
    elif name == 'lstrip':
        yield st, S(lstrip(eng, st, s, charset_arg(eng, args)))
    elif name == 'rstrip':
        yield st, S(rstrip(eng, st, s, charset_arg(eng, args)))
    elif name == 'replace' and len(args) == 2:
        if not all(isinstance(a, Py) and isinstance(a.obj, str) for a in args):
            es = [eng.as_str(a) for a in args]
            if None in es:
                raise Unsupported('replace arguments')
            yield st, S(ufn('REPLACE', Str, Str, Str, Str)(s, *es))     # a function of its arguments
            return
        old, new = args[0].obj, args[1].obj
        if len(old) == 1:
            yield st, S(apply_hom(eng, st, Hom(((rl.cs_of(old), 'const', new),)), s))
        else:
            for hook in SUB_HOOKS:
                r = hook(eng, rl.pat(re.escape(old), 0), args[1], s, st, line)
                if r is not None:
                    yield st, S(r)
                    return
            yield st, S(ufn('REPLACE_%r_%r' % (old, new), Str, Str)(s))
    elif name in ('startswith', 'endswith') and len(args) == 1:
        a = args[0]
        opts = a.items if isinstance(a, T) else [Py(x) for x in a.obj] \
            if isinstance(a, Py) and isinstance(a.obj, tuple) else [a]
        out = []
        for x in opts:
            e = eng.as_str(x)
            if e is None:
                yield st, Exc('TypeError', line)
                return
            if z3.is_string_value(e):
                l = rl.lit(sval(e))
                out.append(inlang(rl.cat(l, rl.ALLS) if name == 'startswith' else
                                  rl.cat(rl.ALLS, l), s))
            else:
                out.append(z3.PrefixOf(e, s) if name == 'startswith' else z3.SuffixOf(e, s))
        yield st, eng.mkb(Or(*out))
    elif name == 'encode':
        if args and not (isinstance(args[0], Py) and args[0].obj.lower().replace('-', '') == 'utf8'):
            raise Unsupported('encoding')
        yield st, By(s)
    elif name == 'split' and not args:
        arr = ufn('WORDS', Str, z3.ArraySort(z3.IntSort(), Str))(s)
        n = ufn('NWORDS', Str, z3.IntSort())(s)
        st.pc.append(n >= 0)
        st.pc.append((n == 0) == inlang(rl.star(rl.chr_(WS)), s))
        w0 = z3.Select(arr, 0)
        st.pc.append(z3.Implies(n > 0, inlang(rl.loop(rl.chr_(WS.inv()), 1, None), w0)))
        yield st, SL(arr, n)
    elif name == 'split' and len(args) == 1 and isinstance(args[0], Py):
        for r in default_split(eng, rl.pat(re.escape(args[0].obj), 0), s, st, line):
            yield r
    elif name == 'splitlines':
        arr = ufn('LINES', Str, z3.ArraySort(z3.IntSort(), Str))(s)
        n = ufn('NLINES', Str, z3.IntSort())(s)
        st.pc.append(n >= 0)
        yield st, SL(arr, n)
    elif name == 'join' and len(args) == 1:
        a = eng.deref(st, args[0])
        if isinstance(a, (L, T)):
            items = eng.lst(st, a)[1] if isinstance(a, L) else a.items
            out = []
            for i, x in enumerate(items):
                e = eng.as_str(x)
                if e is None:
                    yield st, Exc('TypeError', line)
                    return
                out += [s, e] if i else [e]
            yield st, S(Cat(*out))
        elif isinstance(a, SL):
            yield st, S(ufn('JOIN', Str, z3.ArraySort(z3.IntSort(), Str), z3.IntSort(), Str)(
                s, a.arr, a.n))
        elif isinstance(a, SET):
            yield st, S(fresh('join', Str))
        else:
            raise Unsupported('join of %r' % (a,))
    elif name in ('index', 'find') and args:
        e = eng.as_str(args[0])
        if e is None:
            yield st, Exc('TypeError', line)
            return
        if len(args) > 1:
            raise Unsupported('find with bounds')
        has = inlang(rl.cat(rl.ALLS, rl.lit(sval(e)), rl.ALLS), s) if z3.is_string_value(e) \
            else z3.Contains(s, e)
        k = ufn('INDEX_%s' % (sval(e) if z3.is_string_value(e) else 'x'), Str, Str,
                z3.IntSort())(s, e)
        for s2, b in eng.fork(st, has):
            if b:
                s2.pc += [k >= 0, k + slen(e) <= slen(s), z3.SubString(s, k, slen(e)) == e]
                if z3.is_string_value(e) and len(sval(e)) == 1:
                    s2.pc.append(inlang(rl.star(rl.chr_(rl.cs_of(sval(e)).inv())),
                                        z3.SubString(s, 0, k)))
                yield s2, I(k)
            elif name == 'find':
                yield s2, Py(-1)
            else:
                yield s2, Exc('ValueError', line)
    elif name in ('rfind', 'rindex') and len(args) == 1 and isinstance(args[0], Py) and \
            isinstance(args[0].obj, str) and len(args[0].obj) == 1:
        cs = rl.cs_of(args[0].obj)
        has = inlang(rl.cat(rl.ALLS, rl.chr_(cs), rl.ALLS), s)
        k = ufn('RINDEX_%s' % args[0].obj, Str, z3.IntSort())(s)
        for s2, b in eng.fork(st, has):
            if b:
                s2.pc += [k >= 0, k < slen(s), char_at(s, k) == strval(args[0].obj),
                          inlang(rl.star(rl.chr_(cs.inv())), sfx(s, k + 1))]
                yield s2, I(k)
            elif name == 'rfind':
                yield s2, Py(-1)
            else:
                yield s2, Exc('ValueError', line)
    elif name == 'partition' and isinstance(args[0], Py):
        sep = args[0].obj
        for s2, k in str_method(eng, v, 'find', args, {}, st, line):
            if isinstance(k, Py):
                yield s2, T((S(s), Py(''), Py('')))
            else:
                yield s2, T((S(z3.SubString(s, 0, k.e)), Py(sep), S(sfx(s, k.e + len(sep)))))
    elif name == 'count' and len(args) == 1:
        k = fresh('count', z3.IntSort())
        st.pc.append(k >= 0)
        yield st, I(k)
    elif name == 'isspace' and not args:
        yield st, eng.mkb(inlang(rl.loop(rl.chr_(WS), 1, None), s))
    elif name in ('isdigit', 'isalpha', 'isalnum', 'isdecimal', 'isnumeric', 'isupper', 'islower') \
            and not args:
        if name in ('isupper', 'islower'):
            raise Unsupported('str.' + name)
        cs = rl.cs_where(lambda c: getattr(c, name)())
        yield st, eng.mkb(inlang(rl.loop(rl.chr_(cs), 1, None), s))
    elif name in ('lower', 'upper', 'casefold', 'title', 'swapcase') and not args:
        r = ufn('STR_' + name, Str, Str)(s)
        yield st, S(r)
    elif name == 'translate' and len(args) == 1 and isinstance(args[0], Py):
        for hook in TRANSLATE_HOOKS:
            r = hook(eng, args[0].obj, s, st)
            if r is not None:
                yield st, S(r)
                return
        raise Unsupported('translate')
    elif name == 'expandtabs':
        yield st, S(fresh('expandtabs', Str))
    elif name in ('rjust', 'ljust', 'center', 'zfill'):
        yield st, S(fresh(name, Str))
    elif name == 'format':
        out = []
        if not isinstance(v, Py):
            raise Unsupported('format')
        import string
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(v.obj):
            if lit:
                out.append(strval(lit))
            if field is None:
                continue
            if spec or conv:
                raise Unsupported('format spec')
            if field == '':
                x = args[auto]
                auto += 1
            elif field.isdigit():
                x = args[int(field)]
            elif field in kw:
                x = kw[field]
            else:
                raise Unsupported('format field')
            out.append(eng.to_str(x, st))
        yield st, S(Cat(*out))
    elif name == '__len__':
        yield st, I(slen(s))
    else:
        raise Unsupported('str.%s' % name)


TRANSLATE_HOOKS = []


def method(eng, v, name, args, kw, st, line):
    if isinstance(v, O):
        for s, x in not_none(eng, v, st, line):
            if isinstance(x, Exc):
                yield s, x
            else:
                for r in method(eng, x, name, args, kw, s, line):
                    yield r
        return
    if isinstance(v, (L, D)):
        v = eng.deref(st, v)
    if isinstance(v, M):
        for r in match_method(eng, v, name, args, st, line):
            yield r
        return
    if isinstance(v, Py) and isinstance(v.obj, re.Pattern):
        if name in ('search', 'match', 'fullmatch', 'split'):
            for r in re_call(eng, name, [v] + list(args), kw, st, line):
                yield r
        elif name == 'sub':
            for r in re_call(eng, name, [v] + list(args), kw, st, line):
                yield r
        else:
            raise Unsupported('pattern.' + name)
        return
    if eng.as_str(v) is not None:
        for r in str_method(eng, v, name, args, kw, st, line):
            yield r
        return
    if isinstance(v, En):
        for s, x in eng.enum_split(v, st):
            for r in str_method(eng, x, name, args, kw, s, line):
                yield r
        return
    if isinstance(v, Py) and isinstance(v.obj, dict):
        if name == 'get':
            d = args[1] if len(args) > 1 else PYNONE
            for r in dict_get(eng, v.obj, args[0], d, st, line):
                yield r
            return
        if name in ('items', 'keys', 'values') and len(v.obj) <= 64:
            yield st, Py(list(getattr(v.obj, name)()))
            return
        raise Unsupported('dict.' + name)
    if isinstance(v, D):
        items = dict(eng.lst(st, v)[1])
        if name == 'get':
            d = args[1] if len(args) > 1 else PYNONE
            for r in dict_get(eng, items, args[0], d, st, line):
                yield r
            return
        if name == 'copy':
            yield st, eng.new_dict(st, tuple(items.items()))
            return
        if name == 'items':
            yield st, T(tuple(T((Py(k), x)) for k, x in items.items()))
            return
        if name == 'keys':
            yield st, T(tuple(Py(k) for k in items))
            return
        if name == 'values':
            yield st, T(tuple(items.values()))
            return
        raise Unsupported('dict.' + name)
    if isinstance(v, R) and v.cls in RECORDS | {'RefMap'}:
        if name == 'get':
            d = args[1] if len(args) > 1 else PYNONE
            for r in eng.rec_index(v, args[0], st, line, d):
                yield r
            return
        if name == 'copy' and not args:
            r = eng.new_ref(st, v.cls)
            keys = list(SCHEMA[v.cls])
            if v.cls == 'RefMap':
                a = st.arr('RefMap', '$map')
                st.heap['RefMap.$map'] = z3.Store(a, r.e, z3.Select(a, v.e))
            for k in keys:
                kind = SCHEMA[v.cls][k]
                fl = [''] + (['?'] if 'opt:' in kind else []) + (['!'] if kind.startswith('has:') else [])
                for f in fl:
                    a = st.arr(v.cls, k, f)
                    st.heap['%s.%s%s' % (v.cls, k, f)] = z3.Store(a, r.e, z3.Select(a, v.e))
            if v.cls in MAYBE_EMPTY:
                a = st.arr(v.cls, '$full')
                st.heap[v.cls + '.$full'] = z3.Store(a, r.e, z3.Select(a, v.e))
            yield st, r
            return
        raise Unsupported('%s.%s' % (v.cls, name))
    if isinstance(v, L):
        kind, items = eng.lst(st, v)
        if name == 'append' and len(args) == 1:
            st.lists[v.lid] = ('list', tuple(items) + (args[0],))
            yield st, PYNONE
            return
        if name == 'extend' and len(args) == 1:
            x = eng.deref(st, args[0])
            more = x.items if isinstance(x, T) else eng.lst(st, x)[1] if isinstance(x, L) else None
            if more is None:
                raise Unsupported('extend')
            st.lists[v.lid] = ('list', tuple(items) + tuple(more))
            yield st, PYNONE
            return
        if name == 'pop' and not args:
            if not items:
                yield st, Exc('IndexError', line)
            else:
                st.lists[v.lid] = ('list', tuple(items[:-1]))
                yield st, items[-1]
            return
        if name == 'insert' and isinstance(args[0], Py):
            items = list(items)
            items.insert(args[0].obj, args[1])
            st.lists[v.lid] = ('list', tuple(items))
            yield st, PYNONE
            return
        if name == 'copy':
            yield st, eng.new_list(st, items)
            return
        raise Unsupported('list.' + name)
    if isinstance(v, SET) and v.what in ('list', 'dict'):
        if name in ('append', 'extend', 'insert', 'clear', 'update'):
            yield st, PYNONE
            return
        raise Unsupported('opaque %s.%s' % (v.what, name))
    if isinstance(v, Py) and v.obj is None:
        yield st, Exc('AttributeError', line)
        return
    if isinstance(v, Py) and isinstance(v.obj, (list, tuple)):
        if name in ('index', 'count'):
            raise Unsupported('list.' + name)
        raise Unsupported('mutation of a shared constant')
    raise Unsupported('method %s of %r' % (name, v))


def dict_get(eng, d, key, default, st, line):
    if not isinstance(key, Py) and len(d) > 80:
        raise Unsupported('symbolic key into a large dict')
    for k, b in eng.deopt(key, st, line):
        if isinstance(b, Exc):
            yield k, default
            continue
        if isinstance(b, Py):
            x = d.get(b.obj, default) if isinstance(b.obj, (str, int, bool, type(None), tuple)) else None
            yield k, x if isinstance(x, V) else Py(x)
            continue
        neg = []
        for kk, x in d.items():
            c = eng.eq(b, Py(kk), k)
            if c is False:
                continue
            s = k.copy()
            s.pc.extend(neg)
            s.pc.append(bval(c))
            neg.append(Not(c))
            if E.feasible(s.pc):
                yield s, x if isinstance(x, V) else Py(x)
        s = k.copy()
        s.pc.extend(neg)
        if E.feasible(s.pc):
            yield s, default


# ---------------------------------------------------------------- builtins
ALWAYS_SAFE = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~'


def quote_hom(safe):
    keep = rl.cs_of(ALWAYS_SAFE + ''.join(c for c in safe if ord(c) < 128))
    return Hom(((keep.inv(), 'fn', 'pct'),))


UNESC = z3.Function('html_unescape', Str, Str)


def _len(eng, v, st, line):
    v = eng.deref(st, v)
    if isinstance(v, O):
        for s, x in eng.deopt(v, st, line):
            if isinstance(x, Exc):
                yield s, x
            else:
                for r in _len(eng, x, s, line):
                    yield r
        return
    if isinstance(v, Py):
        try:
            yield st, Py(len(v.obj))
        except TypeError:
            yield st, Exc('TypeError', line)
    elif isinstance(v, S):
        yield st, I(slen(v.e))
    elif isinstance(v, T):
        yield st, Py(len(v.items))
    elif isinstance(v, (L, D)):
        yield st, Py(len(eng.lst(st, v)[1]))
    elif isinstance(v, SL):
        yield st, I(v.n)
    elif isinstance(v, SET):
        n = fresh('len', z3.IntSort())
        st.pc.append(n >= 0)
        yield st, I(n)
    elif isinstance(v, (I, B)) or isinstance(v, R) and v.cls == 'Node':
        yield st, Exc('TypeError', line)
    else:
        raise Unsupported('len of %r' % (v,))


STR2INT = z3.Function('str_int', Str, z3.IntSort())
DIGITS = rl.cls('[0-9]')
UDIGITS = rl.cs_pattern(r'\d', 0)


def builtin(eng, o, args, kw, st, line):
    mod = getattr(o, '__module__', None)
    name = getattr(o, '__name__', str(o))
    if o in (re.search, re.match, re.sub, re.split, re.compile, re.fullmatch):
        for r in re_call(eng, name, args, kw, st, line):
            yield r
        return
    if o is len:
        for r in _len(eng, args[0], st, line):
            yield r
        return
    if o is str:
        if not args:
            yield st, Py('')
            return
        v = eng.deref(st, args[0])
        if isinstance(v, Py):
            yield st, Py(str(v.obj))
        else:
            yield st, S(eng.to_str(v, st))
        return
    if o is bool:
        yield st, eng.mkb(eng.truth(args[0], st)) if args else PYF
        return
    if o is int:
        v = args[0]
        if isinstance(v, Py):
            try:
                yield st, Py(int(v.obj))
            except (ValueError, TypeError) as e:
                yield st, Exc(type(e).__name__, line)
            return
        if isinstance(v, (I, B)):
            yield st, I(eng.as_int(v))
            return
        s = eng.as_str(v)
        if s is not None:
            ok = inlang(rl.loop(rl.chr_(UDIGITS), 1, 4000), s)
            r = STR2INT(s)
            for s2, b in eng.fork(st, ok):
                if b:
                    s2.pc.append(r >= 0)
                    yield s2, I(r)
                else:
                    yield s2, Exc('ValueError', line)
            return
        raise Unsupported('int(%r)' % (v,))
    if o in (min, max):
        vs = args
        if len(args) == 1:
            raise Unsupported('min/max of a sequence')
        es = [eng.as_int(v) for v in vs]
        if any(e is None for e in es):
            raise Unsupported('min/max')
        if all(isinstance(v, Py) for v in vs):
            yield st, Py(o(*[v.obj for v in vs]))
            return
        r = es[0]
        for e in es[1:]:
            r = z3.If((e < r) if o is min else (e > r), e, r)
        yield st, I(r)
        return
    if o is abs:
        e = eng.as_int(args[0])
        yield st, I(z3.If(e < 0, -e, e))
        return
    if o is divmod:
        for s, q in eng.binop('FloorDiv', args[0], args[1], st, line):
            if isinstance(q, Exc):
                yield s, q
                continue
            for s2, r in eng.binop('Mod', args[0], args[1], s, line):
                yield s2, r if isinstance(r, Exc) else T((q, r))
        return
    if o is range:
        es = [eng.as_int(a) for a in args]
        if any(e is None for e in es):
            yield st, Exc('TypeError', line)
            return
        ks = [cint(e) for e in es]
        if all(k is not None for k in ks):
            yield st, Py(range(*ks))
            return
        if len(es) == 3:
            raise Unsupported('range step')
        lo, hi = (z3.IntVal(0), es[0]) if len(es) == 1 else es
        yield st, SET((lo, hi), 'range')
        return
    if o in (isinstance,):
        v, t = args
        ts = t.obj if isinstance(t, Py) and isinstance(t.obj, tuple) else (t.obj,)
        if isinstance(v, Py):
            yield st, Py(isinstance(v.obj, ts))
            return
        if isinstance(v, O):
            for s, b in eng.fork(st, v.isnone):
                for r in builtin(eng, o, [PYNONE if b else v.val, t], kw, s, line):
                    yield r
            return
        if isinstance(v, (S, En)):
            yield st, Py(str in ts)
            return
        if isinstance(v, (I,)):
            yield st, Py(int in ts)
            return
        if isinstance(v, R) and v.cls in E.PYCLS:
            yield st, B(And(v.e != null, bval(any(issubclass(E.PYCLS[v.cls], x) for x in ts))))
            return
        raise Unsupported('isinstance')
    if o in (hasattr, getattr):
        v = args[0]
        for s, nm in names_of(eng, args[1], st):
            if o is hasattr:
                if isinstance(v, R):
                    own, _ = owner(v.cls, nm)
                    yield s, Py(own is not None or hasattr(E.PYCLS.get(v.cls), nm))
                elif isinstance(v, Py):
                    yield s, Py(hasattr(v.obj, nm))
                else:
                    raise Unsupported('hasattr')
                continue
            for s2, x in eng.getattr_(v, nm, s, line):
                if isinstance(x, Exc) and x.cls == 'AttributeError' and len(args) > 2:
                    yield s2, args[2]
                else:
                    yield s2, x
        return
    if o is setattr:
        for s, nm in names_of(eng, args[1], st):
            for s2, e in eng.setattr_(args[0], nm, args[2], s, line):
                yield s2, e if e is not None else PYNONE
        return
    if o is super:
        if args:
            yield st, SUP(args[1], args[0].obj)
            return
        fn = st.loc['$fn']
        cname = fn.__qualname__.rsplit('.', 1)[0]
        cls = [c for c in E.PYCLS.values() if c.__qualname__ == cname][0]
        selfv = st.loc[E.source_of(fn).args.args[0].arg]
        yield st, SUP(selfv, cls)
        return
    if o is print:
        yield st, PYNONE
        return
    if o is iter:
        v = eng.deref(st, args[0])
        if isinstance(v, R):
            for s, f in eng.getattr_(v, '__iter__', st, line):
                if isinstance(f, Exc):
                    yield s, f
                    continue
                for r in eng.call(f, [], {}, s, line):
                    yield r
            return
        yield st, v
        return
    if o is next:
        v = args[0]
        if isinstance(v, R):
            for s, f in eng.getattr_(v, '__next__', st, line):
                if isinstance(f, Exc):
                    yield s, f
                    continue
                for s2, x in eng.call(f, [], {}, s, line):
                    if isinstance(x, Exc) and x.cls == 'StopIteration' and len(args) > 1:
                        yield s2, args[1]
                    else:
                        yield s2, x
            return
        raise Unsupported('next')
    if o is _html.unescape:
        for s, x in eng.deopt(args[0], st, line):
            if isinstance(x, Exc):
                yield s, x
                continue
            e = eng.as_str(x)
            if z3.is_string_value(e):
                yield s, Py(_html.unescape(sval(e)))
                continue
            s.pc.append(z3.Implies(inlang(rl.star(rl.chr_(rl.cs_of('&').inv())), e),
                                   UNESC(e) == e))
            yield s, S(UNESC(e))
        return
    if o is _html.escape:
        q = args[1] if len(args) > 1 else kw.get('quote', PYT)
        rules = [(rl.cs_of('&'), 'const', '&amp;'), (rl.cs_of('<'), 'const', '&lt;'),
                 (rl.cs_of('>'), 'const', '&gt;')]
        if q.obj:
            rules += [(rl.cs_of('"'), 'const', '&quot;'), (rl.cs_of("'"), 'const', '&#x27;')]
        yield st, S(apply_hom(eng, st, Hom(tuple(rules)), eng.as_str(args[0])))
        return
    if o is _quote:
        v = args[0]
        safe = args[1] if len(args) > 1 else kw.get('safe', Py('/'))
        if set(kw) - {'safe'} or not isinstance(safe, Py):
            raise Unsupported('quote arguments')
        e = v.e if isinstance(v, By) else eng.as_str(v)
        if e is None:
            for s, x in eng.deopt(v, st, line):
                if isinstance(x, Exc):
                    yield s, x
                else:
                    for r in builtin(eng, o, [x] + args[1:], kw, s, line):
                        yield r
            return
        yield st, S(apply_hom(eng, st, quote_hom(safe.obj), e))
        return
    if o is ord:
        e = eng.as_str(args[0])
        yield st, I(z3.StrToCode(e))
        return
    if o in (list, tuple):
        if not args:
            yield st, eng.new_list(st, []) if o is list else T(())
            return
        v = eng.deref(st, args[0])
        if isinstance(v, Py) and isinstance(v.obj, (list, tuple, str, range)):
            its = [Py(x) for x in v.obj]
        elif isinstance(v, T):
            its = v.items
        elif isinstance(v, L):
            its = eng.lst(st, v)[1]
        else:
            raise Unsupported('list(...)')
        yield st, eng.new_list(st, its) if o is list else T(tuple(its))
        return
    if o is dict:
        if not args:
            yield st, eng.new_dict(st, tuple(kw.items()))
            return
        v = eng.deref(st, args[0])
        if isinstance(v, R) and v.cls in RECORDS | {'RefMap'}:
            for s, x in method(eng, v, 'copy', [], {}, st, line):
                for k, y in kw.items():
                    eng.setitem(x, Py(k), y, s, line)
                yield s, x
            return
        if isinstance(v, D):
            yield st, eng.new_dict(st, tuple(dict(eng.lst(st, v)[1], **kw).items()))
            return
        if isinstance(v, Py) and isinstance(v.obj, dict):
            yield st, eng.new_dict(st, tuple((k, Py(x)) for k, x in v.obj.items()))
            return
        raise Unsupported('dict(...)')
    if o in (any, all):
        v = eng.deref(st, args[0])
        its = v.items if isinstance(v, T) else eng.lst(st, v)[1] if isinstance(v, L) else None
        if its is None:
            raise Unsupported('any/all')
        ts = [bval(eng.truth(x, st)) for x in its]
        yield st, eng.mkb(Or(*ts) if o is any else And(*ts))
        return
    if o is enumerate and len(args) == 1:
        v = eng.deref(st, args[0])
        its = [Py(x) for x in v.obj] if isinstance(v, Py) else v.items if isinstance(v, T) else \
            eng.lst(st, v)[1] if isinstance(v, L) else None
        if its is None:
            raise Unsupported('enumerate')
        yield st, T(tuple(T((Py(i), x)) for i, x in enumerate(its)))
        return
    if o in (zip, reversed):
        vs = []
        for v in args:
            v = eng.deref(st, v)
            vs.append([Py(x) for x in v.obj] if isinstance(v, Py) else v.items
                      if isinstance(v, T) else eng.lst(st, v)[1])
        yield st, T(tuple(T(x) for x in zip(*vs))) if o is zip else T(tuple(reversed(vs[0])))
        return
    if o is _json.dumps:
        yield st, S(fresh('json', Str))
        return
    if o in (type,):
        v = args[0]
        if isinstance(v, R) and v.cls in E.PYCLS:
            yield st, Py(E.PYCLS[v.cls])
            return
    if o is callable:
        yield st, Py(isinstance(args[0], (BM, MT, F)) or isinstance(args[0], Py) and callable(args[0].obj))
        return
    if isinstance(o, type) and issubclass(o, BaseException):
        yield st, SET(o, 'exception')
        return
    if o is id:
        raise Unsupported('id')
    raise Unsupported('call of %s.%s' % (mod, name))


def names_of(eng, v, st):
    if isinstance(v, Py):
        yield st, v.obj
    elif isinstance(v, En):
        for s, x in eng.enum_split(v, st):
            yield s, x.obj
    else:
        raise Unsupported('symbolic attribute name')
