"""Exact decision procedures for Python regular expressions (the subset the code base uses).

A pattern is parsed with CPython's own parser (re._parser) and turned into an extended regular
expression over sets of code points (union, concatenation, star, bounded loop, intersection,
complement).  Character sets are obtained by running CPython's matcher over every code point, so
flags (IGNORECASE), categories (\\s, \\d) and ranges mean exactly what they mean at run time.
Questions (emptiness, inclusion, equivalence, disjointness) are decided with Brzozowski
derivatives over the minterms of the character sets; a negative answer comes with a shortest
witness string.
"""
import re
import re._parser as sp
import re._constants as sc
from functools import lru_cache

MAXCP = 0x10FFFF
_ALL = None


def all_chars():
    global _ALL
    if _ALL is None:
        _ALL = ''.join(map(chr, range(MAXCP + 1)))
    return _ALL


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- character sets
class CS(object):
    """Immutable set of code points as sorted disjoint intervals."""
    __slots__ = ('iv', '_h')

    def __init__(self, iv):
        self.iv = tuple(iv)
        self._h = hash(self.iv)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self.iv == o.iv

    def __contains__(self, c):
        import bisect
        i = bisect.bisect_right(self.iv, (c, MAXCP + 1)) - 1
        return i >= 0 and self.iv[i][0] <= c <= self.iv[i][1]

    def inv(self):
        out, n = [], 0
        for a, b in self.iv:
            if a > n:
                out.append((n, a - 1))
            n = b + 1
        if n <= MAXCP:
            out.append((n, MAXCP))
        return CS(out)

    def union(self, o):
        ivs = sorted(self.iv + o.iv)
        out = []
        for a, b in ivs:
            if out and a <= out[-1][1] + 1:
                if b > out[-1][1]:
                    out[-1][1] = b
            else:
                out.append([a, b])
        return CS(tuple(map(tuple, out)))

    def inter(self, o):
        out, i, j = [], 0, 0
        A, B = self.iv, o.iv
        while i < len(A) and j < len(B):
            lo, hi = max(A[i][0], B[j][0]), min(A[i][1], B[j][1])
            if lo <= hi:
                out.append((lo, hi))
            if A[i][1] < B[j][1]:
                i += 1
            else:
                j += 1
        return CS(out)

    def minus(self, o):
        return self.inter(o.inv())

    def size(self):
        return sum(b - a + 1 for a, b in self.iv)

    def chars(self):
        for a, b in self.iv:
            for c in range(a, b + 1):
                yield chr(c)

    def pick(self):
        """A readable member."""
        for lo, hi in ((97, 122), (48, 57), (33, 126), (32, 32), (0xA1, 0x2FFFF), (0, MAXCP)):
            k = self.inter(CS([(lo, hi)]))
            if k.iv:
                return chr(k.iv[0][0])
        return None

    def __bool__(self):
        return bool(self.iv)

    def __repr__(self):
        return 'CS(%s)' % ','.join('%x-%x' % p for p in self.iv[:6])


ANY = CS([(0, MAXCP)])
NONE = CS([])


def cs_of(s):
    out = NONE
    for c in s:
        out = out.union(CS([(ord(c), ord(c))]))
    return out


def cs_where(pred):
    """The set of characters with a property."""
    iv = []
    for i, c in enumerate(all_chars()):
        if pred(c):
            if iv and iv[-1][1] == i - 1:
                iv[-1][1] = i
            else:
                iv.append([i, i])
    return CS(tuple(map(tuple, iv)))


@lru_cache(maxsize=None)
def cs_pattern(pat, flags):
    """The set of characters matched by a one-character pattern, asked from CPython's matcher."""
    rx = re.compile('(?:' + pat + ')+', flags & ~re.VERBOSE & ~re.DEBUG)
    iv = []
    for m in rx.finditer(all_chars()):
        iv.append((m.start(), m.end() - 1))
    return CS(iv)


# ---------------------------------------------------------------- regular expressions
class Re(object):
    __slots__ = ('k', 'a', '_h', 'nul', 'n')
    table = {}

    def __repr__(self):
        return '%s%r' % (self.k, self.a)


def serial(r):
    return r.n


def mk(k, *a):
    key = (k,) + a
    r = Re.table.get(key)
    if r is None:
        r = Re()
        r.k, r.a, r.n = k, a, len(Re.table)
        r._h = hash(key)
        r.nul = _nul(k, a)
        Re.table[key] = r
    return r


def _nul(k, a):
    if k in ('eps', 'star'):
        return True
    if k in ('empty', 'chr'):
        return False
    if k in ('cat', 'and'):
        return all(x.nul for x in a)
    if k == 'alt':
        return any(x.nul for x in a)
    if k == 'not':
        return not a[0].nul
    if k == 'loop':
        return a[1] == 0 or a[0].nul
    raise AssertionError(k)


EMPTY, EPS = mk('empty'), mk('eps')


def chr_(cs):
    return mk('chr', cs) if cs else EMPTY


SIGMA = chr_(ANY)


def star(r):
    if r in (EMPTY, EPS):
        return EPS
    if r.k == 'star':
        return r
    return mk('star', r)


ALLS = star(SIGMA)


def cat(*rs):
    out = []
    for r in rs:
        if r is EMPTY:
            return EMPTY
        if r is EPS:
            continue
        if r.k == 'cat':
            out.extend(r.a)
        else:
            out.append(r)
    if not out:
        return EPS
    # right-nested binary for cheap derivatives
    r = out[-1]
    for x in reversed(out[:-1]):
        r = mk('cat', x, r)
    return r


def alt(*rs):
    s = set()
    for r in rs:
        if r is EMPTY:
            continue
        if r.k == 'alt':
            s.update(r.a)
        else:
            s.add(r)
    if ALLS in s:
        return ALLS
    cs = NONE
    for r in list(s):
        if r.k == 'chr':
            cs = cs.union(r.a[0])
            s.discard(r)
    if cs:
        s.add(chr_(cs))
    if not s:
        return EMPTY
    if len(s) == 1:
        return next(iter(s))
    return mk('alt', *sorted(s, key=serial))


def and_(*rs):
    s = set()
    for r in rs:
        if r is EMPTY:
            return EMPTY
        if r is ALLS:
            continue
        if r.k == 'and':
            s.update(r.a)
        else:
            s.add(r)
    if not s:
        return ALLS
    if len(s) == 1:
        return next(iter(s))
    if EPS in s:
        return EPS if all(r.nul for r in s) else EMPTY
    return mk('and', *sorted(s, key=serial))


def not_(r):
    if r.k == 'not':
        return r.a[0]
    if r is EMPTY:
        return ALLS
    if r is ALLS:
        return EMPTY
    return mk('not', r)


def loop(r, m, n):
    """r repeated m..n times (n None = unbounded)."""
    if n is None:
        return cat(*([r] * m + [star(r)])) if m <= 8 else cat(mk('loop', r, m, m), star(r))
    if n == 0 or r is EPS:
        return EPS
    if r is EMPTY:
        return EPS if m == 0 else EMPTY
    if m == n == 1:
        return r
    return mk('loop', r, m, n)


def lit(s):
    return cat(*[chr_(cs_of(c)) for c in s])


def cls(pat, flags=0):
    return chr_(cs_pattern(pat, flags))


_dcache = {}


def deriv(r, c):
    key = (r, c)
    d = _dcache.get(key)
    if d is None:
        d = _dcache[key] = _deriv(r, c)
    return d


def _deriv(r, c):
    k, a = r.k, r.a
    if k in ('empty', 'eps'):
        return EMPTY
    if k == 'chr':
        return EPS if c in a[0] else EMPTY
    if k == 'cat':
        d = cat(deriv(a[0], c), a[1])
        return alt(d, deriv(a[1], c)) if a[0].nul else d
    if k == 'alt':
        return alt(*[deriv(x, c) for x in a])
    if k == 'and':
        return and_(*[deriv(x, c) for x in a])
    if k == 'not':
        return not_(deriv(a[0], c))
    if k == 'star':
        return cat(deriv(a[0], c), r)
    if k == 'loop':
        x, m, n = a
        return cat(deriv(x, c), loop(x, max(m - 1, 0), n - 1))
    raise AssertionError


@lru_cache(maxsize=None)
def firsts(r):
    """A set containing every first character of a word of r."""
    k, a = r.k, r.a
    if k == 'chr':
        return a[0]
    if k in ('eps', 'empty'):
        return NONE
    if k == 'not':
        return NONE.inv()
    if k in ('star', 'loop'):
        return firsts(a[0])
    out = NONE
    for x in a:
        if not isinstance(x, Re):
            continue
        out = out.union(firsts(x))
        if k == 'cat' and not x.nul:
            break
    return out


def sets_of(r):
    out, seen, todo = set(), set(), [r]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == 'chr':
            out.add(x.a[0])
        else:
            todo.extend(y for y in x.a if isinstance(y, Re))
    return frozenset(out)


@lru_cache(maxsize=None)
def minterms(sets):
    """Representative code points, one per minterm of the given sets."""
    cuts = {0}
    for s in sets:
        for a, b in s.iv:
            cuts.add(a)
            cuts.add(b + 1)
    sig = {}
    for c in sorted(cuts):
        if c > MAXCP:
            continue
        key = tuple(c in s for s in sets)
        sig.setdefault(key, []).append(c)
    ends = sorted(cuts) + [MAXCP + 1]
    nxt = dict(zip(ends, ends[1:]))
    reps = []
    for key, cs in sig.items():
        full = CS([(c, nxt[c] - 1) for c in cs])
        reps.append(ord(full.pick()))
    return tuple(reps)


class Budget(Exception):
    pass


def rev(r):
    """The words of r read backwards."""
    if r in _rev:
        return _rev[r]
    k, a = r.k, r.a
    if k == 'cat':
        v = cat(*[rev(x) for x in reversed(a)])
    elif k == 'alt':
        v = alt(*[rev(x) for x in a])
    elif k == 'and':
        v = and_(*[rev(x) for x in a])
    elif k == 'not':
        v = not_(rev(a[0]))
    elif k == 'star':
        v = star(rev(a[0]))
    elif k == 'loop':
        v = loop(rev(a[0]), a[1], a[2])
    else:
        v = r
    _rev[r] = v
    return v


_rev = {}


def after(r, w, limit=300):
    """What may follow a word of w in a word of r (union of the left quotients)."""
    reps = minterms(tuple(sorted(sets_of(r) | sets_of(w), key=lambda s: s.iv)))
    seen, todo, out = {(r, w)}, [(r, w)], []
    while todo:
        x, y = todo.pop()
        if y.nul:
            out.append(x)
        for c in reps:
            d = deriv(x, c), deriv(y, c)
            if d[0] is EMPTY or d[1] is EMPTY or d in seen:
                continue
            seen.add(d)
            if len(seen) > limit:
                raise Budget()
            todo.append(d)
    return alt(*out) if len(out) != 1 else out[0]


def before(r, w):
    """What may stand before a word of w in a word of r."""
    return rev(after(rev(r), rev(w)))


_alph = {}


def alphabet(r):
    """A set holding every character of every word of the language."""
    c = _alph.get(r)
    if c is None:
        k = r.k
        if k == 'chr':
            c = r.a[0]
        elif k in ('eps', 'empty'):
            c = NONE
        elif k in ('star', 'loop'):
            c = alphabet(r.a[0])
        elif k in ('cat', 'alt'):
            c = NONE
            for x in r.a:
                c = c.union(alphabet(x))
        elif k == 'and':
            c = ANY
            for x in r.a:
                c = c.inv().union(alphabet(x).inv()).inv()
        else:
            c = ANY
        _alph[r] = c
    return c


def witness(r, limit=200000):
    """A shortest member of L(r), or None when the language is empty."""
    if r.nul:
        return ''
    reps = minterms(tuple(sorted(sets_of(r), key=lambda s: s.iv)))
    seen, todo = {r: None}, [r]
    while todo:
        nxt = []
        for x in todo:
            for c in reps:
                d = deriv(x, c)
                if d is EMPTY or d in seen:
                    continue
                seen[d] = (x, c)
                if d.nul:
                    w = []
                    while seen[d] is not None:
                        d, c = seen[d]
                        w.append(chr(c))
                    return ''.join(reversed(w))
                if len(seen) > limit:
                    raise Budget()
                nxt.append(d)
        todo = nxt
    return None


def empty(r):
    return witness(r) is None


def included(a, b):
    return empty(and_(a, not_(b)))


def differ(a, b):
    """None when L(a)=L(b), else a shortest string in exactly one of them."""
    if a is b:
        return None
    w1, w2 = witness(and_(a, not_(b))), witness(and_(b, not_(a)))
    if w1 is None:
        return w2
    if w2 is None or len(w1) <= len(w2):
        return w1
    return w2


def equal(a, b):
    return differ(a, b) is None


def accepts(r, s):
    for c in s:
        r = deriv(r, ord(c))
    return r.nul


# ---------------------------------------------------------------- from Python patterns
class Pat(object):
    """A Python pattern: parsed tree plus languages.

    at0    strings s such that the pattern matches at position 0 of s (whole s, rest included)
    body   strings matched (group 0), for patterns without assertions except anchors at the ends
    search strings s such that re.search finds a match in s
    """

    def __init__(self, pattern, flags):
        self.pattern, self.flags = pattern, flags
        tree = sp.parse(pattern, flags)
        self.flags = tree.state.flags if hasattr(tree, 'state') else flags
        self.tree = list(tree)

    # position kinds: 'bos' (start of string), 'bol' (after newline), 'mid'
    def lang(self, items, K, pos):
        n = 0                 # leading ^ assertions do not move: the next item keeps the position
        while n < len(items) and items[n][0] is sc.AT and items[n][1] in (
                sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            n += 1
        for i in range(len(items) - 1, -1, -1):
            K = self.item(items[i], K, pos if i <= n else 'any')
        return K

    def item(self, it, K, pos):
        op, av = it
        ml = self.flags & re.MULTILINE
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN, sc.CATEGORY):
            return cat(chr_(self.charset(it)), K)
        if op is sc.BRANCH:
            return alt(*[self.lang(list(b), K, pos) for b in av[1]])
        if op is sc.SUBPATTERN:
            g, add, dele, sub = av
            if add or dele:
                raise Unsupported('inline flags')
            return self.lang(list(sub), K, pos)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            m, n, sub = av
            b = self.plain(list(sub))
            return cat(loop(b, m, None if n is sc.MAXREPEAT else n), K)
        if op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                if pos == 'bos' or (pos == 'bol' and ml and av is sc.AT_BEGINNING):
                    return K
                if pos in ('mid', 'bol'):
                    return EMPTY
                raise Unsupported('^ inside the pattern')
            if av is sc.AT_END:
                if ml:
                    return and_(alt(EPS, cat(lit('\n'), ALLS)), K)
                return and_(alt(EPS, lit('\n')), K)
            if av is sc.AT_END_STRING:
                return and_(EPS, K)
            raise Unsupported('AT %s' % av)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, sub = av
            if d != 1:
                raise Unsupported('lookbehind')
            L = self.lang(list(sub), ALLS, 'any')
            return and_(L if op is sc.ASSERT else not_(L), K)
        raise Unsupported(str(op))

    def charset(self, it):
        op, av = it
        fl = self.flags & (re.IGNORECASE | re.DOTALL | re.ASCII)
        if op is sc.LITERAL:
            return cs_pattern(re.escape(chr(av)), fl)
        if op is sc.NOT_LITERAL:
            return cs_pattern('[^%s]' % re.escape(chr(av)), fl)
        if op is sc.ANY:
            return cs_pattern('.', fl)
        if op is sc.IN:
            parts = []
            for o, a in av:
                if o is sc.NEGATE:
                    parts.append('^')
                elif o is sc.LITERAL:
                    parts.append(re.escape(chr(a)))
                elif o is sc.RANGE:
                    parts.append(re.escape(chr(a[0])) + '-' + re.escape(chr(a[1])))
                elif o is sc.CATEGORY:
                    parts.append({sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_NOT_SPACE: r'\S',
                                  sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D',
                                  sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}[a])
                else:
                    raise Unsupported(str(o))
            return cs_pattern('[' + ''.join(parts) + ']', fl)
        raise Unsupported(str(op))

    def plain(self, items):
        """Language of a part without assertions, as a plain regular expression."""
        out = EPS
        for op, av in reversed(items):
            if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
                r = chr_(self.charset((op, av)))
            elif op is sc.BRANCH:
                r = alt(*[self.plain(list(b)) for b in av[1]])
            elif op is sc.SUBPATTERN:
                r = self.plain(list(av[3]))
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                m, n, sub = av
                r = loop(self.plain(list(sub)), m, None if n is sc.MAXREPEAT else n)
            else:
                raise Unsupported('assertion inside repeat or body')
            out = cat(r, out)
        return out

    @property
    def at0(self):
        return self.lang(self.tree, ALLS, 'bos')

    @property
    def search(self):
        mid = self.lang(self.tree, ALLS, 'mid')
        bol = self.lang(self.tree, ALLS, 'bol')
        return alt(self.at0, cat(ALLS, lit('\n'), bol), cat(SIGMA, ALLS, mid))

    def anchored(self):
        """True when a match can only start at position 0."""
        return empty(self.lang(self.tree, ALLS, 'mid')) and \
            empty(self.lang(self.tree, ALLS, 'bol'))

    def split_ends(self):
        """(body items, trailing assertion items); leading ^ removed. None if not that shape."""
        items = list(self.tree)
        while items and items[0][0] is sc.AT and items[0][1] in (
                sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            items = items[1:]
        tail = []
        while items and items[-1][0] in (sc.AT, sc.ASSERT, sc.ASSERT_NOT):
            tail.insert(0, items.pop())
        return items, tail

    def body(self):
        """Language of group(0) over-approximated (assertions dropped)."""
        def strip(items):
            out = []
            for op, av in items:
                if op in (sc.AT, sc.ASSERT, sc.ASSERT_NOT):
                    continue
                if op is sc.BRANCH:
                    av = (av[0], [strip(list(b)) for b in av[1]])
                elif op is sc.SUBPATTERN:
                    av = av[:3] + (strip(list(av[3])),)
                elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                    av = av[:2] + (strip(list(av[2])),)
                out.append((op, av))
            return out
        return self.plain(strip(self.tree))

    def rest(self):
        """Language the text after the match must belong to (from trailing assertions)."""
        _, tail = self.split_ends()
        K = ALLS
        for it in reversed(tail):
            K = self.item(it, K, 'any')
        return K

    def final_run(self):
        """Character set X when the pattern ends in an unbounded greedy repeat of X
        (so the text after a match cannot start with X); None otherwise."""
        items, tail = self.split_ends()
        if tail or not items:
            return None
        op, av = items[-1]
        if op is sc.MAX_REPEAT and av[1] is sc.MAXREPEAT:
            sub = list(av[2])
            if len(sub) == 1 and sub[0][0] in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
                return self.charset(sub[0])
        return None

    def run_class(self):
        """Character set X when the pattern is a greedy run of at least one X, else None."""
        if len(self.tree) != 1:
            return None
        op, av = list(self.tree)[0]
        if op is sc.MAX_REPEAT and av[0] == 1 and av[1] is sc.MAXREPEAT:
            return self.final_run()
        return None

    def char_class(self):
        """Character set when the pattern matches exactly one character, else None."""
        items, tail = self.split_ends()
        if tail or len(items) != 1 or len(items) != len(self.tree):
            return None
        op, av = items[0]
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            return self.charset(items[0])
        if op is sc.BRANCH:
            out = NONE
            for b in av[1]:
                b = list(b)
                if len(b) != 1 or b[0][0] not in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
                    return None
                out = out.union(self.charset(b[0]))
            return out
        return None

    def longest(self):
        """True when a match is always the longest one possible at its start (so that the match
        is determined by the language alone)."""
        try:
            items, tail = self.split_ends()
            return not tail and self._longest(items)
        except Unsupported:
            return False

    def _longest(self, items):
        L = self.plain(items)
        if empty(and_(L, cat(L, SIGMA, ALLS))):
            return True                       # prefix-free
        if len(items) == 1:
            op, av = items[0]
            if op is sc.SUBPATTERN:
                return self._longest(list(av[3]))
            if op is sc.BRANCH:
                Ls = [self.plain(list(b)) for b in av[1]]
                if not all(self._longest(list(b)) for b in av[1]):
                    return False
                return all(empty(and_(cat(Ls[i], SIGMA, ALLS), Ls[j]))
                           for i in range(len(Ls)) for j in range(i + 1, len(Ls)))
            if op is sc.MAX_REPEAT:
                return len(list(av[2])) == 1 and list(av[2])[0][0] in (
                    sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN)
        # literal characters followed by a greedy run
        head, last = items[:-1], items[-1]
        if all(o in (sc.LITERAL, sc.IN, sc.NOT_LITERAL) for o, _ in head):
            return self._longest([last])
        return False


@lru_cache(maxsize=None)
def pat(pattern, flags=0):
    if hasattr(pattern, 'pattern'):
        return Pat(pattern.pattern, pattern.flags)
    return Pat(pattern, flags)


def selftest():
    import random
    rnd = random.Random(1)
    pats = [r'^(?:(?:\*[ \t]*){3,}|(?:_[ \t]*){3,})[ \t]*$', r'^`{3,}(?!.*`)|^~{3,}', r'a|b+c',
            r'^#{1,6}(?:[ \t]+|$)', r'^javascript:|data:', r'(?:`{3,}|~{3,})(?= *$)', r'^[^\n`]+']
    n = 0
    for p in pats:
        for fl in (0, re.IGNORECASE, re.MULTILINE):
            P = Pat(p, fl)
            L = P.search
            for _ in range(300):
                s = ''.join(rnd.choice('*_ \t\n`~#abcJ:dat') for _ in range(rnd.randrange(9)))
                n += 1
                assert accepts(L, s) == bool(re.search(p, s, fl)), (p, fl, s)
    return n


if __name__ == '__main__':
    import time
    t = time.time()
    print(selftest(), time.time() - t)
    ws = cls('[ \t]')
    run = lambda c: cat(loop(cat(lit(c), star(ws)), 3, None))
    spec = cat(alt(run('*'), run('_'), run('-')))
    import sys
    sys.path.insert(0, '/repo')
    from commonmark import blocks, inlines, common
    print(repr(differ(pat(blocks.reThematicBreak).search, spec)), time.time() - t)
    for m in (blocks, inlines, common):
        for k, v in sorted(vars(m).items()):
            if isinstance(v, re.Pattern):
                try:
                    P = pat(v)
                    w = witness(P.search)
                    print(k, repr(w), P.anchored(), P.longest(), P.char_class() is not None, round(time.time() - t, 2))
                except Unsupported as e:
                    print(k, 'UNSUPPORTED', e)
