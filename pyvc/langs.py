"""Language predicates on symbolic strings, character homomorphisms, match functions.

A regular language becomes an uninterpreted predicate P_k(s), shared by all languages found equal
by relang; before a query is solved the known inclusions/disjointness between the predicates on the
same string (decided exactly by relang) are added, and in a second attempt the definition of small
languages as SMT-LIB regular expressions.
"""
import z3
from . import relang as rl
from .vals import Str

LANGS = []          # (Re, z3 function)
_by_re = {}
_rel = {}
_z3re = {}


def lang_id(r):
    k = _by_re.get(r)
    if k is None:
        for i, (q, f) in enumerate(LANGS):
            if rl.equal(q, r):
                k = i
                break
        else:
            k = len(LANGS)
            LANGS.append((r, z3.Function('L%d' % k, Str, z3.BoolSort())))
        _by_re[r] = k
    return k


def inlang(r, s):
    """z3 formula: string term s is in L(r)."""
    if r is rl.ALLS:
        return z3.BoolVal(True)
    if r is rl.EMPTY:
        return z3.BoolVal(False)
    if z3.is_string_value(s):
        return z3.BoolVal(rl.accepts(r, sval(s)))
    if z3.is_app_of(s, z3.Z3_OP_ITE):
        c, a, b = s.children()
        return z3.If(c, inlang(r, a), inlang(r, b))
    return LANGS[lang_id(r)][1](s)


def sval(e):
    """Python string of a z3 string value."""
    s = e.as_string()
    out, i = [], 0
    while i < len(s):
        if s.startswith('\\u{', i):
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def strval(s):
    """z3 string value of a Python string (escaping everything outside printable ASCII)."""
    return z3.StringVal(''.join(c if ' ' <= c <= '~' and c != '\\' else '\\u{%x}' % ord(c)
                                for c in s))


def relation(i, j):
    k = (i, j)
    if k not in _rel:
        a, b = LANGS[i][0], LANGS[j][0]
        out = []
        if rl.included(a, b):
            out.append('sub')
        if rl.included(b, a):
            out.append('sup')
        if rl.empty(rl.and_(a, b)):
            out.append('dis')
        if rl.empty(rl.and_(rl.not_(a), rl.not_(b))):
            out.append('cov')
        _rel[k] = out
    return _rel[k]


def z3re(r, depth=0):
    if r in _z3re:
        return _z3re[r]
    srt = z3.ReSort(Str)
    k, a = r.k, r.a
    if k == 'empty':
        z = z3.Empty(srt)
    elif k == 'eps':
        z = z3.Re('')
    elif k == 'chr':
        iv = [(x, min(y, 0x2FFFF)) for x, y in a[0].iv if x <= 0x2FFFF]
        if a[0] == rl.ANY:
            z = z3.AllChar(srt)
        else:
            ps = [z3.Range(strval(chr(x)), strval(chr(y))) if x != y else z3.Re(strval(chr(x)))
                  for x, y in iv]
            z = z3.Empty(srt) if not ps else ps[0] if len(ps) == 1 else z3.Union(*ps)
    elif k == 'cat':
        z = z3.Concat(*[z3re(x) for x in a])
    elif k == 'alt':
        z = z3.Union(*[z3re(x) for x in a])
    elif k == 'and':
        z = z3.Intersect(*[z3re(x) for x in a])
    elif k == 'not':
        z = z3.Complement(z3re(a[0]))
    elif k == 'star':
        z = z3.Full(srt) if r is rl.ALLS else z3.Star(z3re(a[0]))
    elif k == 'loop':
        z = z3.Loop(z3re(a[0]), a[1], a[2])
    _z3re[r] = z
    return z


_small = {}


def small(r, budget=40):
    if r not in _small:
        seen, todo, n = set(), [r], 0
        while todo and n < 400:
            x = todo.pop()
            n += 1
            if x.k == 'loop' and x.a[2] > 12:
                n += 400
            if x.k == 'chr' and len(x.a[0].iv) > 12:
                n += 30
            todo.extend(y for y in x.a if isinstance(y, rl.Re))
        _small[r] = n <= budget
    return _small[r]


_fa = {}          # formula id -> (formula, [(string term, lang id)], [(Hom, argument)])
_names = {}


_canon = {}


def canon(t):
    """One representative of equal terms written differently."""
    k = t.get_id()
    r = _canon.get(k)
    if r is None:
        r = _canon[k] = (t, z3.simplify(t))
    return r[1]


def _scan(f):
    k = f.get_id()
    r = _fa.get(k)
    if r is not None:
        return r
    if len(_names) != len(LANGS):
        for i, (_, g) in enumerate(LANGS):
            _names[g.name()] = i
    homs = {x.f.name(): x for x in Hom.table.values()}
    at, hs, eq, ch, seen, todo = [], [], [], [], set(), [f]
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_app(e):
            if e.num_args() == 1 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = e.decl().name()
                if nm in _names:
                    if not has_var(e.arg(0)):
                        at.append((canon(e.arg(0)), _names[nm]))
                elif nm in homs and not has_var(e.arg(0)):
                    hs.append((homs[nm], e.arg(0)))
            elif z3.is_eq(e):
                a, b = e.children()
                if z3.is_string_value(a):
                    a, b = b, a
                if z3.is_string_value(b) and not z3.is_string_value(a) and not has_var(a) and \
                        len(sval(b)) <= 16:
                    eq.append((canon(a), sval(b)))
            elif (z3.is_app_of(e, z3.Z3_OP_SEQ_AT) or z3.is_app_of(e, z3.Z3_OP_SEQ_EXTRACT) and z3.is_int_value(
                    e.arg(2)) and e.arg(2).as_long() == 1) and not has_var(e):
                c = canon(e)
                if z3.is_app_of(c, z3.Z3_OP_SEQ_AT) and not z3.is_int_value(c.arg(1)):
                    ch.append(c)
            todo.extend(e.children())
    r = _fa[k] = (f, at, hs, eq, ch)
    return r


_len = {}


def lengths(r):
    """(minimal length, maximal length or None) of the words of r (bounds, not always tight)."""
    if r in _len:
        return _len[r]
    k, a = r.k, r.a
    if k == 'chr':
        v = (1, 1)
    elif k in ('eps', 'empty'):
        v = (0, 0)
    elif k == 'cat':
        ls = [lengths(x) for x in a]
        v = (sum(x[0] for x in ls), None if any(x[1] is None for x in ls) else sum(x[1] for x in ls))
    elif k == 'alt':
        ls = [lengths(x) for x in a]
        v = (min(x[0] for x in ls), None if any(x[1] is None for x in ls) else max(x[1] for x in ls))
    elif k == 'and':
        ls = [lengths(x) for x in a]
        hs = [x[1] for x in ls if x[1] is not None]
        v = (max(x[0] for x in ls), min(hs) if hs else None)
    elif k == 'loop':
        l, h = lengths(a[0])
        v = (l * a[1], None if h is None or a[2] is None else h * a[2])
    else:
        v = (0 if r.nul else 1, None)
    _len[r] = v
    return v


def atoms(fs):
    """{string term: {lang id}} over all predicate atoms in the formulas."""
    out = {}
    for f in fs:
        for t, i in _scan(f)[1]:
            out.setdefault(t, set()).add(i)
    return out


def has_var(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        todo.extend(x.children())
    return False


def hom_facts(fs):
    out, seen = [], set()
    for f in fs:
        for h, t in _scan(f)[2]:
            k = (h.key, t.get_id())
            if k not in seen:
                seen.add(k)
                if k not in _hfc:
                    _hfc[k] = (t, h.facts(t))
                out.extend(_hfc[k][1])
    return out


_lem1, _lem2, _hfc = {}, {}, {}


def _lem_one(t, i, definitions):
    k = (t.get_id(), i, definitions)
    r = _lem1.get(k)
    if r is None:
        out = []
        re_, f = LANGS[i]
        if definitions:
            if small(re_):
                out.append(f(t) == z3.InRe(t, z3re(re_)))
        else:
            out.append(z3.Implies(t == z3.StringVal(''), f(t) == z3.BoolVal(re_.nul)))
            lo, hi = lengths(re_)
            if lo:
                out.append(z3.Implies(f(t), z3.Length(t) >= lo))
            if hi is not None:
                out.append(z3.Implies(f(t), z3.Length(t) <= hi))
        r = _lem1[k] = (t, out)
    return r[1]


def _lem_two(t, i, j):
    k = (t.get_id(), i, j)
    r = _lem2.get(k)
    if r is None:
        f, g = LANGS[i][1](t), LANGS[j][1](t)
        out = [{'sub': z3.Implies(f, g), 'sup': z3.Implies(g, f),
                'dis': z3.Not(z3.And(f, g)), 'cov': z3.Or(f, g)}[rel] for rel in relation(i, j)]
        r = _lem2[k] = (t, out)
    return r[1]


def _lenof(e):
    """(string term, c) when e is Length(term) - c, (None, c) when e is the constant c."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return None, e.as_long()
    if z3.is_app_of(e, z3.Z3_OP_SEQ_LENGTH):
        return e.arg(0), 0
    if z3.is_add(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)) and \
            z3.is_app_of(e.arg(1), z3.Z3_OP_SEQ_LENGTH):
        return e.arg(1).arg(0), -e.arg(0).as_long()
    return False


_lift = {}
SFX = []            # engine.sfx


def lifted(t):
    """How languages of the part t of a string correspond to languages of the whole: (whole, guard,
    language map) or None."""
    k = t.get_id()
    if k in _lift:
        return _lift[k][1]
    r = None
    if z3.is_app_of(t, z3.Z3_OP_SEQ_EXTRACT) or z3.is_app_of(t, z3.Z3_OP_SEQ_AT):
        s, off, cnt = (list(t.children()) + [z3.IntVal(1)])[:3]
        o, c = _lenof(off), _lenof(cnt)
        if o is False and c == (None, 1):
            # one character at a computed place: the first one of the rest of the string from there
            return_ = (SFX[0](s, off), z3.And(off >= 0, off < z3.Length(s)),
                       lambda R: rl.cat(rl.and_(R, rl.SIGMA), rl.ALLS))
            _lift[k] = (t, return_)
            return return_
        sig = lambda n: rl.loop(rl.SIGMA, n, n) if n else rl.EPS
        if o and c:
            a, b = o[1], c[1]
            if o[0] is None and 0 <= a <= 8 and c[0] is not None and c[0].eq(s) and a <= b <= 12:
                r = (s, z3.Length(s) >= b, lambda R: rl.cat(sig(a), R, sig(b - a)))
            elif o[0] is None and c[0] is None and 0 <= a <= 8 and 1 <= b <= 8:
                r = (s, z3.Length(s) >= a + b, lambda R: rl.cat(sig(a), rl.and_(R, sig(b)), rl.ALLS))
            elif o[0] is not None and o[0].eq(s) and c[0] is None and 1 <= b <= a <= 8:
                r = (s, z3.Length(s) >= a, lambda R: rl.cat(rl.ALLS, rl.and_(R, sig(b)), sig(a - b)))
    elif z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT) and z3.is_string_value(t.arg(0)) and t.num_args() == 2:
        w, x = sval(t.arg(0)), t.arg(1)

        def der(R):
            for ch in w:
                R = rl.deriv(R, ord(ch))
            return R
        r = (x, None, der)
    _lift[k] = (t, r)
    return r


def few(i):
    """The characters of the words of a language, if they are only a few."""
    cs = rl.alphabet(LANGS[i][0])
    n = sum(b - a + 1 for a, b in cs.iv)
    return [chr(x) for a, b in cs.iv for x in range(a, b + 1)] if 0 < n <= 4 else None


def has_chars(fs):
    return any(_scan(f)[4] for f in fs)


def wrong_letters(fs, lem, model):
    """What the languages of a text and of its parts say about the character at a computed place, where the model does not know it."""
    return [f for f in letters(fs, atoms(list(fs) + list(lem))) if not z3.is_true(model.eval(f, model_completion=True))]


def letters(fs, table):
    ats = {}
    for f in fs:
        for t in _scan(f)[4]:
            ats[t.get_id()] = t
    if not ats:
        return []
    cats = {}
    for f in fs:
        for w, ps in concats(f):
            if len(ps) == 2:
                cats.setdefault(w.get_id(), {})[tuple(x.get_id() for x in ps)] = [w] + ps
    tails = {}
    for w in {w.get_id(): w for w in list(table) + [v[0] for d in cats.values() for v in d.values()]}.values():
        if z3.is_app_of(w, z3.Z3_OP_SEQ_EXTRACT):
            s, o, n = w.children()
            end = z3.simplify(o + n - z3.Length(s))
            if z3.is_int_value(end) and end.as_long() == 0:
                tails.setdefault(s.get_id(), []).append((w, o))
    out = []
    for t in ats.values():
        s, k0 = canon(t.arg(0)), t.arg(1)
        for w, o in [(s, z3.IntVal(0))] + tails.get(s.get_id(), []):
            k, n = z3.simplify(k0 - o), z3.Length(w)
            base = [o >= 0, k >= 0, k < n]
            facts = [(w, i, base) for i in table.get(w, ())]
            for _, p, q in cats.get(w.get_id(), {}).values():
                eq = base + [w == z3.Concat(p, q)]
                facts += [(p, i, eq + [k < z3.Length(p)]) for i in table.get(p, ())]
                facts += [(q, i, eq + [k >= z3.Length(p)]) for i in table.get(q, ())]
            for x, i, g in facts:
                c = few(i)
                if c is not None:
                    out.append(z3.Implies(z3.And(LANGS[i][1](x), *g), z3.Or(*[t == z3.StringVal(y) for y in c])))
    return out


_lem3 = {}


def lemmas(fs, definitions=False):
    """Facts about the predicate atoms of the formulas."""
    hf = hom_facts(fs)
    out = list(hf) if not definitions else []
    table = atoms(list(fs) + hf)
    consts = {}
    for f in fs:
        for t, c in _scan(f)[3]:
            consts.setdefault(t, set()).add(c)
    for t, cs in consts.items():
        l = lifted(t)
        if l is not None and canon(l[0]) in table:
            for c in cs:
                j = lang_id(rl.lit(c))
                if j not in table.setdefault(t, set()):
                    table[t].add(j)
                    if not definitions:
                        out.append(LANGS[j][1](t) == (t == strval(c)))
    todo = [(t, i, 0) for t, ids in table.items() for i in sorted(ids)]
    while todo:
        t, i, d = todo.pop()
        l = lifted(t)
        if l is None or d > 3:
            continue
        key = (t.get_id(), i)
        if key not in _lem3:
            s, guard, f = l
            s = canon(s)
            R = f(LANGS[i][0])
            if R is rl.ALLS or R is rl.EMPTY:
                g, j = z3.BoolVal(R is rl.ALLS), None
            elif z3.is_string_value(s):
                g, j = z3.BoolVal(rl.accepts(R, sval(s))), None
            else:
                j = lang_id(R)
                g = LANGS[j][1](s)
            fact = LANGS[i][1](t) == g
            _lem3[key] = (t, s, j, fact if guard is None else z3.Implies(guard, fact))
        _, s, j, fact = _lem3[key]
        if not definitions:
            out.append(fact)
        if j is not None and j not in table.setdefault(s, set()):
            table[s].add(j)
            todo.append((s, j, d + 1))
    for t, ids in table.items():
        ids = sorted(ids)
        for i in ids:
            out.extend(_lem_one(t, i, definitions))
            if not definitions:
                for c in consts.get(t, ()):
                    out.append(z3.Implies(t == strval(c), LANGS[i][1](t) == z3.BoolVal(rl.accepts(LANGS[i][0], c))))
        for x in range(len(ids)):
            for y in range(x + 1, len(ids)):
                out.extend(_lem_two(t, ids[x], ids[y]))
    return out


_confl = {}


def conflict(lits):
    """A smallest subset of the (language id, sign) literals no string satisfies, or None."""
    key = frozenset(lits)
    if key in _confl:
        return _confl[key]

    def bad(ls):
        try:
            return rl.witness(rl.and_(*[LANGS[i][0] if b else rl.not_(LANGS[i][0]) for i, b in ls]), 20000) is None
        except rl.Budget:
            return False
    r = None
    for c in _confl.values():
        if c is not None and c <= key:
            r = c
            break
    if r is None and bad(sorted(lits)):
        core = sorted(lits)
        for x in list(core):
            rest = [y for y in core if y != x]
            if rest and bad(rest):
                core = rest
        r = frozenset(core)
    _confl[key] = r
    return r


def refine(fs, lem, model):
    """Clauses that exclude the model because no string is in that combination of languages."""
    out = []
    fs = list(fs) + list(lem)
    table = {t: {i: LANGS[i][1](t) for i in ids} for t, ids in atoms(fs).items()}
    for f in fs:
        for t, c in _scan(f)[3]:
            if t in table:
                table[t].setdefault(lang_id(rl.lit(c)), t == strval(c))
    groups = {}
    for t in table:
        v = model.eval(t, model_completion=True)
        groups.setdefault(v.sexpr() if z3.is_string_value(v) else t.get_id(), []).append(t)
    for ts in groups.values():
        lits, of = {}, {}
        for t in ts:
            for i, a in sorted(table[t].items()):
                v = z3.is_true(model.eval(a, model_completion=True))
                if lits.setdefault(i, v) != v:
                    lits = None
                    break
                of.setdefault(i, (t, a))
            if lits is None:
                break
        if lits is None or len(lits) < 2:
            continue
        c = conflict(sorted(lits.items()))
        if c is not None:
            c = sorted(c)
            first = of[c[0][0]][0]
            out.append(z3.Not(z3.And(*([of[i][1] if b else z3.Not(of[i][1]) for i, b in c] +
                                       [first == of[i][0] for i, b in c if of[i][0] is not first]))))
    return out


# ---------------------------------------------------------------- concatenations
_cats = {}


def concats(f):
    """(whole, parts) for the equations with concatenations in f, and the concatenations asked about."""
    r = _cats.get(f.get_id())
    if r is None:
        out, seen, todo = [], set(), [f]
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                continue
            if z3.is_app_of(e, z3.Z3_OP_SEQ_CONCAT):
                out.append((canon(e), flat(e)))
            if z3.is_eq(e) and e.arg(0).sort() == z3.StringSort():
                for a, b in (e.children(), reversed(e.children())):
                    if z3.is_app_of(b, z3.Z3_OP_SEQ_CONCAT):
                        out.append((canon(a), flat(b)))
            todo.extend(e.children())
        r = _cats[f.get_id()] = (f, out)
    return r[1]


def flat(e):
    if z3.is_app_of(e, z3.Z3_OP_SEQ_CONCAT):
        return [y for x in e.children() for y in flat(x)]
    return [canon(e)]


def splits(terms):
    """(whole, parts, guard) for pairs of substrings that make up a string."""
    heads, tails, out = {}, {}, []
    for t in terms:
        if z3.is_app_of(t, z3.Z3_OP_SEQ_EXTRACT):
            s, o, n = t.children()
            end = canon(z3.simplify(o + n - z3.Length(s)))
            if z3.is_int_value(o) and o.as_long() == 0:
                heads.setdefault(s.get_id(), []).append((s, t, n))
            if z3.is_int_value(end) and end.as_long() == 0:
                tails.setdefault(s.get_id(), []).append((t, o))
            elif z3.is_app_of(s, z3.Z3_OP_SEQ_EXTRACT):
                pass
    for k, hs in heads.items():
        for s, h, n in hs:
            for t, o in tails.get(k, ()):
                out.append((canon(s), [h, t], z3.And(n == o, n >= 0, n <= z3.Length(s))))
    # tails of tails: s[i:] = s[i:j] + s[j:] where both ends are mentioned
    mids = {}
    for t in terms:
        if z3.is_app_of(t, z3.Z3_OP_SEQ_EXTRACT):
            s, o, n = t.children()
            mids.setdefault(s.get_id(), []).append((s, t, o, n))
    for k, ts in tails.items():
        for s, m, o, n in mids.get(k, ()):
            for w, i in ts:
                for t, j in ts:
                    if not w.eq(t) and not m.eq(w) and not m.eq(t):
                        out.append((w, [m, t], z3.And(i == o, o >= 0, n >= 0, j == o + n, j <= z3.Length(s))))
    return out


_pre = {}


def prefixes(f):
    """The statements in f that one text begins with another."""
    r = _pre.get(f.get_id())
    if r is None:
        out, seen, todo = [], set(), [f]
        while todo:
            e = todo.pop()
            if e.get_id() not in seen and not z3.is_quantifier(e):
                seen.add(e.get_id())
                if z3.is_app_of(e, z3.Z3_OP_SEQ_PREFIX):
                    out.append(e)
                todo.extend(e.children())
        r = _pre[f.get_id()] = (f, out)
    return r[1]


def behind(prefixes, chars, model):
    """(whole, parts, guard): a text as a beginning, the character behind it, and the rest."""
    out = []
    for f in prefixes:
        p, w = canon(f.arg(0)), canon(f.arg(1))
        s, i = (w.arg(0), w.arg(1)) if z3.is_app_of(w, z3.Z3_OP_SEQ_EXTRACT) else (w, z3.IntVal(0))
        for c in chars:
            o = c.arg(1)
            gap = z3.simplify(o - i - z3.Length(p)) if c.arg(0).eq(s) else None
            if gap is None or not z3.is_int_value(gap) or gap.as_long():
                continue
            guard = z3.And(f, o < z3.Length(s), i >= 0)
            if z3.is_true(model.eval(guard, model_completion=True)):
                out.append((w, [p, c, canon(z3.SubString(w, z3.Length(p) + 1, z3.Length(w)))], guard))
    return out


class Tree(object):
    """What the languages of the parts say about a term of a model."""

    def __init__(self):
        self.conds = []         # formulas, by number

    def cond(self, f):
        self.conds.append(f)
        return len(self.conds) - 1

    def node(self, t, table, classes, val, eqs, depth, above):
        items = []
        v = val(t)
        if z3.is_string_value(t):
            return [('lit', None, rl.lit(sval(t)))]
        none = t == z3.StringVal('')
        some = rl.SIGMA if z3.is_app_of(t, z3.Z3_OP_SEQ_AT) else rl.cat(rl.SIGMA, rl.ALLS)
        items.append(('lit', self.cond(none), rl.EPS) if v == EMPTY_ else ('lit', self.cond(z3.Not(none)), some))
        same = classes.get(v, [t]) if v != EMPTY_ else [t]
        for u in ([t] + [x for x in same if not x.eq(t)])[:6]:
            at = [] if u.eq(t) else [u == t]
            for i, (a, b) in sorted(table.get(u, {}).items()):
                items.append(('lit', self.cond(z3.And(*(at + [a if b else z3.Not(a)]))), LANGS[i][0] if b else rl.not_(LANGS[i][0])))
            if depth and v not in above:
                for parts, g in eqs.get(u.get_id(), ())[:4]:
                    kids = [self.node(x, table, classes, val, eqs, depth - 1, above | {v}) for x in parts]
                    whole = z3.Concat(*parts)
                    items.append(('cat', self.cond(z3.And(*(at + [g, u == whole]))), kids))
        return items

    def lang(self, items, on):
        out = []
        for kind, c, x in items:
            if c is None or c in on:
                out.append(x if kind == 'lit' else rl.cat(*[self.lang(k, on) for k in x]))
        return rl.and_(*out) if len(out) > 1 else out[0] if out else rl.ALLS


def deep(t, eqs, depth):
    """The ways to take a term apart."""
    out = []
    for parts, g in eqs.get(t.get_id(), ()) if depth else ():
        if any(x.eq(t) for x in parts):
            continue
        alts = [[]]
        for x in parts:
            subs = [[x]] + deep(x, eqs, depth - 1)
            alts = [a + b for a in alts for b in subs][:12]
        out += alts
    return out[:24]


EMPTY_ = z3.StringVal('').sexpr()
_none = {}


def nothing(r):
    k = _none.get(r)
    if k is None:
        try:
            k = rl.witness(r, 1500) is None
        except rl.Budget:
            k = False
        _none[r] = k
    return k


def refine_concat(fs, lem, model, limit, more=False):
    """Clauses that exclude the model because the parts of a text do not make up the whole."""
    import time
    end = time.time() + limit
    fs = list(fs) + list(lem)
    ats = atoms(fs)
    table = {}
    for t, ids in ats.items():
        table[t] = {i: (LANGS[i][1](t), z3.is_true(model.eval(LANGS[i][1](t), model_completion=True))) for i in ids}
    all_, n = [], 0
    for f in fs:
        for w, parts in concats(f):
            all_.append((w, parts, z3.BoolVal(True)))
    ends_ = []
    for t, c in {(t, c) for f in fs for t, c in _scan(f)[3]} if more else ():
        if z3.is_app_of(t, z3.Z3_OP_SEQ_AT):
            table.setdefault(t, {})[lang_id(rl.lit(c))] = (
                t == z3.StringVal(c), z3.is_true(model.eval(t == z3.StringVal(c), model_completion=True)))
            ends_.append(t)
    if ends_:
        all_ += behind({x.get_id(): x for f in fs for x in prefixes(f)}.values(), {t.get_id(): t for t in ends_}.values(), model)
    all_ += splits(list(table) + [x for w, ps, g in all_ for x in [w] + ps])
    eqs, done = {}, set()
    for w, parts, g in all_:
        if len(parts) < 2 or not z3.is_true(model.eval(z3.And(g, w == z3.Concat(*parts)), model_completion=True)):
            continue
        k = w.get_id(), tuple(x.get_id() for x in parts)
        if k not in done:
            done.add(k)
            eqs.setdefault(w.get_id(), []).append((parts, g))
    vals = {}

    def val(t):
        if t.get_id() not in vals:
            v = model.eval(t, model_completion=True)
            vals[t.get_id()] = (t, v.sexpr() if z3.is_string_value(v) else t.get_id())
        return vals[t.get_id()][1]
    classes, terms = {}, {}
    for t in list(table) + [w for w, ps, g in all_ if w.get_id() in eqs]:
        terms[t.get_id()] = t
    for t in terms.values():
        classes.setdefault(val(t), []).append(t)
    # neighbouring parts of a text may make up another term in the model
    for w in [terms[k] for k in eqs]:
        for full in deep(w, eqs, 3)[:8]:
            for i in range(len(full)):
                for j in range(i + 2, len(full) + 1):
                    v = z3.Concat(*full[i:j])
                    for t in classes.get(val(v), ()) if val(v) != EMPTY_ else ():
                        if not t.eq(w) and not any(len(ps) == j - i and all(x.eq(y) for x, y in zip(ps, full[i:j]))
                                                   for ps, _ in eqs.get(t.get_id(), ())):
                            eqs.setdefault(t.get_id(), []).append((full[i:j], z3.BoolVal(True)))
    out = []
    for depth, merge in ((1, False), (1, True), (2, False), (2, True), (3, True)):
        for t in terms.values():
            if time.time() > end or len(out) >= 6:
                break
            if t.get_id() not in eqs:
                continue
            tree = Tree()
            items = tree.node(t, table, classes if merge else {}, val, eqs, depth, frozenset())
            on = set(range(len(tree.conds)))
            if not nothing(tree.lang(items, on)):
                continue
            n = max(1, len(on) // 2)
            while True:
                ids = sorted(on, reverse=True)
                for k in range(0, len(ids), n):
                    less = on - set(ids[k:k + n])
                    if less != on and time.time() < end + limit and nothing(tree.lang(items, less)):
                        on = less
                if n == 1:
                    break
                n = max(1, n // 2)
            out.append(z3.Not(z3.And(*[tree.conds[c] for c in sorted(on)])))
        if out:
            break
    return out


# ---------------------------------------------------------------- character homomorphisms
class Hom(object):
    """Function on strings that replaces each character independently.

    rules: tuple of (CS, kind, payload): kind 'const' payload str; 'fn' payload name of a fixed
    per-character function; characters in no set are unchanged."""
    table = {}

    def __new__(cls, rules):
        rules = tuple(sorted(((cs, k, p) for cs, k, p in rules if cs),
                             key=lambda r: (r[1], r[2], r[0].iv)))
        # merge sets with the same image, drop identities
        m = {}
        for cs, k, p in rules:
            m[(k, p)] = m[(k, p)].union(cs) if (k, p) in m else cs
        rules = []
        for (k, p), cs in sorted(m.items()):
            if k == 'const' and len(p) == 1 and ord(p) in cs:
                cs = cs.minus(rl.cs_of(p))
            if cs:
                rules.append((cs, k, p))
        key = tuple((k, p, cs.iv) for cs, k, p in rules)
        h = Hom.table.get(key)
        if h is None:
            h = Hom.table[key] = object.__new__(cls)
            h.rules, h.key = rules, key
            h.f = z3.Function('H%d' % len(Hom.table), Str, Str)
            h.changed = rl.NONE
            for cs, k, p in rules:
                h.changed = h.changed.union(cs)
        return h

    def __call__(self, s):
        if not self.rules:
            return s
        if z3.is_string_value(s):
            return strval(''.join(self.char(c) for c in sval(s)))
        if z3.is_app_of(s, z3.Z3_OP_SEQ_CONCAT):
            return z3.Concat(*[self(x) for x in s.children()])
        if z3.is_app_of(s, z3.Z3_OP_ITE):
            c, a, b = s.children()
            return z3.If(c, self(a), self(b))
        if z3.is_app(s) and s.num_args() == 1:
            for h in Hom.table.values():
                if h.f.name() == s.decl().name() and all(k == 'const' for _, k, _ in h.rules):
                    rules = [(cs, 'const', ''.join(self.char(c) for c in p))
                             for cs, k, p in h.rules]
                    rules += [(cs.minus(h.changed), k, p) for cs, k, p in self.rules]
                    return Hom(tuple(rules))(s.arg(0))
        return self.f(s)

    def char(self, c):
        for cs, k, p in self.rules:
            if ord(c) in cs:
                return p if k == 'const' else FN[p](c)
        return c

    def facts(self, s):
        """Lemmas (by induction on the string) instantiated for the argument s."""
        if not self.rules:
            return []
        r = self.f(s)
        out = [z3.Implies(inlang(rl.star(rl.chr_(self.changed.inv())), s), r == s),
               (s == z3.StringVal('')) == (r == z3.StringVal(''))
               if all(k != 'const' or p for _, k, p in self.rules) else
               z3.Implies(s == z3.StringVal(''), r == z3.StringVal('')),
               inlang(rl.star(self.image()), r)]
        if all(k == 'const' and len(p) == 1 for _, k, p in self.rules):
            out.append(z3.Length(r) == z3.Length(s))
        return out

    def image(self):
        parts = [rl.chr_(self.changed.inv())]
        for cs, k, p in self.rules:
            parts.append(rl.lit(p) if k == 'const' else FN_IMAGE[p])
        return rl.alt(*parts)

    def __repr__(self):
        return 'Hom%r' % (self.key,)


HEX = rl.cls('[0-9A-F]')
FN = {'pct': lambda c: ''.join('%%%02X' % b for b in c.encode('utf-8', 'surrogatepass'))}
FN_IMAGE = {'pct': rl.cat(rl.lit('%'), HEX, HEX, rl.star(rl.cat(rl.lit('%'), HEX, HEX)))}


# ---------------------------------------------------------------- match functions
class MatchFn(object):
    """group/start functions of a pattern, shared by patterns with equal meaning."""
    table = []

    def __init__(self, P):
        self.P = P
        n = len(MatchFn.table)
        self.g = z3.Function('MG%d' % n, Str, Str)
        self.s = z3.Function('MS%d' % n, Str, z3.IntSort())
        self.grp = {}
        self.longest = P.longest()
        self.search = P.search
        self.anch = P.anchored()
        try:
            self.body = P.body()
        except rl.Unsupported:
            self.body = rl.ALLS
        try:
            self.rest = P.rest()
        except rl.Unsupported:
            self.rest = rl.ALLS
        MatchFn.table.append(self)

    def group(self, i, s, pat):
        """Group i; shared only by patterns of the very same structure."""
        key = i, repr(pat.tree), pat.flags
        if key not in self.grp:
            self.grp[key] = z3.Function('%s_g%d_%d' % (self.g.name(), i, len(self.grp)), Str, Str)
        return self.grp[key](s)


_mf = {}


def matchfn(P):
    key = (P.pattern, P.flags)
    m = _mf.get(key)
    if m is None:
        lg = P.longest()
        for q in MatchFn.table:
            if lg and q.longest and P.anchored() == q.anch and rl.equal(P.body(), q.body):
                m = q
                break
        if m is None:
            m = MatchFn(P)
        _mf[key] = m
    return m


# ---------------------------------------------------------------- token substitutions
class TokSub(object):
    """re.sub with an unambiguous token language and a fixed function on tokens."""
    table = []

    def __init__(self, name, P, fn):
        self.name, self.P, self.fn = name, P, fn
        self.f = z3.Function('SUB_' + name, Str, Str)
        self.body = P.body()
        TokSub.table.append(self)
