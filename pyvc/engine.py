"""Verification-condition generator for the Python subset of CommonMark-py.

Function bodies are read from /repo on every run (the AST of the very function object that is
bound at run time) and executed symbolically, path by path, over the heap model of vals.py.  Calls
to functions with a contract use the contract; all other repository functions are executed in
place.  Loops are cut with inductive invariants (candidates from the contract and from templates,
filtered Houdini-style, so that only proved candidates are used).  Every implicit exception (None
dereference, bad index, missing key, ...) becomes an obligation that the path is infeasible.
"""
import ast
import builtins
import inspect
import itertools
import os
import re
import sys
import textwrap
import time
import types

import z3

from . import relang as rl
from . import langs
from .vals import *
from .vals import V, _cls
from .langs import (inlang, strval, sval, Hom, matchfn, TokSub, lemmas, refine, refine_concat, wrong_letters, has_chars)

import html as _html
import json as _json
from urllib.parse import quote as _quote

REPO = os.environ.get('PYVC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import commonmark.blocks
import commonmark.cmark
import commonmark.common
import commonmark.dump
import commonmark.inlines
import commonmark.main
import commonmark.node
import commonmark.normalize_reference
import commonmark.render.html
import commonmark.render.renderer
import commonmark.render.rst

PYCLS = {
    'Node': commonmark.node.Node, 'NodeWalker': commonmark.node.NodeWalker,
    'Renderer': commonmark.render.renderer.Renderer,
    'HtmlRenderer': commonmark.render.html.HtmlRenderer,
    'ReStructuredTextRenderer': commonmark.render.rst.ReStructuredTextRenderer,
    'Parser': commonmark.blocks.Parser, 'BlockStarts': commonmark.blocks.BlockStarts,
    'InlineParser': commonmark.inlines.InlineParser,
}
CLSNAME = {v: k for k, v in PYCLS.items()}

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
EMPTYS = z3.StringVal('')
PYNONE, PYT, PYF = Py(None), Py(True), Py(False)

_ctr = itertools.count()


def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_ctr)), sort)


def bval(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def And(*xs):
    xs = [x for x in xs if x is not True and not (z3.is_expr(x) and z3.is_true(x))]
    if any(x is False or (z3.is_expr(x) and z3.is_false(x)) for x in xs):
        return FALSE
    return TRUE if not xs else bval(xs[0]) if len(xs) == 1 else z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if x is not False and not (z3.is_expr(x) and z3.is_false(x))]
    if any(x is True or (z3.is_expr(x) and z3.is_true(x)) for x in xs):
        return TRUE
    return FALSE if not xs else bval(xs[0]) if len(xs) == 1 else z3.Or(*xs)


def Not(x):
    if isinstance(x, bool):
        return z3.BoolVal(not x)
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


Implies = lambda a, b: Or(Not(a), b)


def Ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def Cat(*xs):
    """String concatenation in flattened normal form, adjacent constants merged."""
    out = []
    for x in xs:
        if isinstance(x, str):
            x = strval(x)
        for y in (x.children() if z3.is_app_of(x, z3.Z3_OP_SEQ_CONCAT) else [x]):
            for w in (_flat(y)):
                if z3.is_string_value(w):
                    t = sval(w)
                    if not t:
                        continue
                    if out and z3.is_string_value(out[-1]):
                        out[-1] = strval(sval(out[-1]) + t)
                        continue
                out.append(w)
    if not out:
        return EMPTYS
    return out[0] if len(out) == 1 else z3.Concat(*out)


def _flat(x):
    if z3.is_app_of(x, z3.Z3_OP_SEQ_CONCAT):
        for y in x.children():
            for w in _flat(y):
                yield w
    else:
        yield x


def slen(s):
    if z3.is_string_value(s):
        return z3.IntVal(len(sval(s)))
    return z3.Length(s)


def simp(e):
    return z3.simplify(e)


def cint(e):
    """Concrete int of a z3 term if it simplifies to one."""
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else None


def sfx(s, a):
    """s[a:] for a known to be >= 0."""
    if isinstance(a, int):
        a = z3.IntVal(a)
    if cint(a) == 0:
        return s
    if is_sfx(s):
        # (s[o:])[a:] is s[o + a:]; o is not negative in any suffix the engine builds
        return sfx(s.arg(0), z3.simplify(s.arg(1) + a))
    return z3.SubString(s, a, slen(s) - a)


_issfx = {}


def is_sfx(s):
    """Is the term the rest of a string from some position on?"""
    if not z3.is_app_of(s, z3.Z3_OP_SEQ_EXTRACT):
        return False
    k = s.get_id()
    if k not in _issfx:
        b, o, n = s.children()
        _issfx[k] = (s, cint(z3.Length(b) - o - n) == 0)
    return _issfx[k][1]


langs.SFX.append(sfx)


def char_at(s, i):
    if is_sfx(s):
        return z3.SubString(s.arg(0), z3.simplify(s.arg(1) + i), z3.IntVal(1))
    return z3.SubString(s, i, z3.IntVal(1))


# ---------------------------------------------------------------- solving
class Stats(object):
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.prune = 0


STATS = Stats()


SLACK = [1]         # factor on all time limits


def _solver(timeout, cfg=0):
    s = z3.Solver()
    s.set('timeout', int(timeout * SLACK[0]))
    if cfg == 1:
        s.set('smt.arith.solver', 2)
    if cfg == 2:
        s.set('smt.mbqi', False)
    return s


def check(fs, timeout, cfg=0, defs=False, parts=False):
    t = time.time()
    s = _solver(timeout, cfg)
    s.add(*fs)
    lem = lemmas(fs)
    s.add(*lem)
    if defs:
        s.add(*lemmas(fs, True))
    r = s.check()
    n = 0
    while r == z3.sat:
        more = refine(fs, lem, s.model())
        if not more and parts:
            more = refine_concat(fs, lem, s.model(), timeout / 3000.0)
            if not more:
                more = wrong_letters(fs, lem, s.model()) or parts > 1 and refine_concat(fs, lem, s.model(), timeout / 3000.0, True)
        if not more:
            break
        n += 1
        if n > 30 or time.time() - t > timeout * SLACK[0] / 1000.0:
            r = z3.unknown
            break
        s.add(*more)
        r = s.check()
    STATS.queries += 1
    STATS.time += time.time() - t
    return r, s


_syms = {}


def symbols(t):
    """The free symbols of a term, arrays (the heap) aside."""
    r = _syms.get(t.get_id())
    if r is None:
        r = set()
        if z3.is_quantifier(t):
            r = symbols(t.body())
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.is_array(t):
                r.add(t.decl().name())
            for x in t.children():
                r |= symbols(x)
        r = _syms[t.get_id()] = frozenset(r)
        _keep.append(t)
    return r


def relevant(pc, goal):
    """The assumptions that share one of the less common symbols of the goal."""
    n = {}
    for f in pc:
        for x in symbols(f):
            n[x] = n.get(x, 0) + 1
    mine = sorted((n.get(x, 0), x) for x in symbols(goal))
    rare = set(x for k, x in mine if k * 5 <= len(pc) * 2) or set(x for k, x in mine[:1])
    return [f for f in pc if rare & symbols(f)]


def prove(pc, goal, timeout=8000):
    """('valid', None) | ('sat', model) | ('unknown', reason)."""
    if z3.is_true(goal):
        return 'valid', None, 'syntactic'
    fs = list(pc) + [Not(goal)]
    last = None
    if goal_of_pointers(goal):      # a goal about pointers and numbers: first without the text facts
        few = [f for f in pc if not has_str(f)]
        if len(few) < len(pc) and check(few + [Not(goal)], max(300, timeout // 5), 0, False)[0] == z3.unsat:
            return 'valid', None, 'z3'
    for cfg, defs, share in ((0, False, .2), (0, True, .4), (2, True, .4), (1, False, .4)):
        r, s = check(fs, max(300, int(timeout * share)), cfg, defs, True)
        if r == z3.unsat:
            return 'valid', None, 'z3'
        if r == z3.sat and (defs or not lemmas(fs, True)):
            return letters_too(fs, timeout) or ('sat', s.model(), 'z3')
        if r == z3.sat:
            last = ('sat?', s.model(), 'z3')
            continue
        if last is None:
            last = ('unknown', s.reason_unknown(), 'z3')
        if not cfg and not defs:
            few = relevant(pc, goal)
            if len(few) < len(pc) * .8 and any(check(few + [Not(goal)], max(300, timeout // 5), 0, d, True)[0] == z3.unsat
                                               for d in (False, True)):
                return 'valid', None, 'z3'
    return letters_too(fs, timeout) or (('sat',) + last[1:] if last[0] == 'sat?' else last)


def letters_too(fs, timeout):
    """Once more with what is known of single characters of a text from its parts."""
    for defs in (False, True):
        if has_chars(fs) and check(fs, max(300, int(timeout * .6)), 0, defs, 2)[0] == z3.unsat:
            return 'valid', None, 'z3'


def goal_of_pointers(goal):
    """No text in the goal, or only that of an attribute before and after."""
    if not z3.is_app(goal):
        return not has_str(goal)
    if goal.decl().kind() not in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_ITE, z3.Z3_OP_STORE) and \
            any(x.sort() == Str for x in goal.children()) or z3.is_string_value(goal):
        return False
    return all(goal_of_pointers(x) for x in goal.children())


_has_str = {}


def has_str(t):
    """Does a term of type string occur in t?"""
    r = _has_str.get(t.get_id())
    if r is None:
        r = t.sort() == Str or any(has_str(x) for x in t.children()) or \
            z3.is_quantifier(t) and has_str(t.body())
        _has_str[t.get_id()] = r
        _keep.append(t)
    return r


_feas = {}


def decided(pc, c):
    """True/False when the simplified condition or its negation is literally among the facts."""
    i, j = c.get_id(), simp(Not(c)).get_id()
    for f in pc:
        k = f.get_id()
        if k == i:
            return True
        if k == j:
            return False
    return None


def feasible(pc, timeout=400):
    key = frozenset(f.get_id() for f in pc)
    r = _feas.get(key)
    if r is None:
        STATS.prune += 1
        r = check(pc, timeout, 0, False)[0] != z3.unsat
        if r and DEEP[0]:
            r = check(pc, DEEP[0], 0, True)[0] != z3.unsat
        _feas[key] = r
        _keep.append(pc)
    return r


_keep = []
DEEP = [0]


# ---------------------------------------------------------------- source lookup
_files = {}


def _tree(filename):
    if filename not in _files:
        src = open(filename, encoding='utf-8').read()
        _files[filename] = ast.parse(src)
    return _files[filename]


def unwrap(fn):
    while isinstance(fn, (staticmethod, classmethod)):
        fn = fn.__func__
    return fn


_src = {}


def source_of(fn):
    """FunctionDef/Lambda node of a repository function object."""
    fn = unwrap(fn)
    if fn in _src:
        return _src[fn]
    co = fn.__code__
    best = None
    for n in ast.walk(_tree(co.co_filename)):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            name = getattr(n, 'name', '<lambda>')
            line = n.lineno
            if isinstance(n, ast.FunctionDef) and n.decorator_list:
                line = min(line, n.decorator_list[0].lineno)
            if name == co.co_name and line == co.co_firstlineno:
                best = n
    if best is None:
        raise Unsupported('no source for %r' % (fn,))
    _src[fn] = best
    return best


def is_repo(fn):
    fn = unwrap(fn)
    return isinstance(fn, types.FunctionType) and fn.__code__.co_filename.startswith(
        (REPO + '/', VERIF + '/contracts/'))


def resolve(path):
    """Runtime object of a dotted path such as commonmark.blocks.Parser.advance_offset."""
    parts = path.split('.')
    for i in range(len(parts), 0, -1):
        mod = sys.modules.get('.'.join(parts[:i]))
        if mod is not None and isinstance(mod, types.ModuleType):
            break
    o = mod
    for p in parts[i:]:
        if isinstance(o, type):
            o = inspect.getattr_static(o, p)
        else:
            o = getattr(o, p)
    return unwrap(o)


# ---------------------------------------------------------------- obligations
class VC(object):
    __slots__ = ('fn', 'name', 'tags', 'pc', 'goal', 'line', 'kind')

    def __init__(self, fn, name, tags, pc, goal, line, kind):
        self.fn, self.name, self.tags, self.pc = fn, name, tags, pc
        self.goal, self.line, self.kind = goal, line, kind


class Out(object):
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Budget(Exception):
    pass


_consts, _maps = {}, {}


def in_const(keys, s):
    """Membership in a large constant set of strings: an uninterpreted predicate per set."""
    f = _consts.get(keys)
    if f is None:
        f = _consts[keys] = z3.Function('CONST%d' % len(_consts), Str, z3.BoolSort())
    return f(s)


def const_shape(keys, s, g):
    """Every member consists of characters that occur in members."""
    cs = rl.cs_of(''.join(sorted(set(''.join(keys)))))
    return z3.Implies(g, inlang(rl.star(rl.chr_(cs)), s))


def const_map(d):
    k = frozenset(d.items())
    f = _maps.get(k)
    if f is None:
        f = _maps[k] = z3.Function('CONSTMAP%d' % len(_maps), Str, Str)
    return f


class Engine(object):
    MAXDEPTH = 12

    def __init__(self, contracts, fname, tlimit=120):
        self.contracts = contracts          # {function object: Contract}
        self.fname = fname
        self.vcs = []
        self.depth = 0
        self.recording = True
        self.paths = 0
        self.deadline = time.process_time() + tlimit * SLACK[0]
        self.trusted = set()
        self.used = set()
        self.current = None
        self.inlined = set()
        self.top = None
        self.loopinfo = {}
        self.contract = None
        self.spec_depth = 0
        self.matches = []          # anchored matches so far: (subject, found, MatchFn)

    # -- obligations
    def oblige(self, st, goal, name, tags, line, kind):
        if self.recording:
            self.vcs.append(VC(self.fname, name, tags, list(st.pc), bval(goal), line, kind))

    def valid(self, st, goal, timeout=700):
        goal = bval(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return not feasible(st.pc)
        r, _ = check(list(st.pc) + [Not(goal)], timeout, 0, True)
        return r == z3.unsat

    # -- forking
    def fork(self, st, cond):
        """[(state, bool)] for the feasible outcomes of a condition."""
        if isinstance(cond, bool):
            return [(st, cond)]
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        if time.process_time() > self.deadline:
            raise Budget('time limit for path exploration')
        known = decided(st.pc, c)
        if known is not None:
            return [(st, known)]
        out = []
        s2 = st.copy()
        s2.pc.append(c)
        if feasible(s2.pc):
            out.append((s2, True))
        s2 = st.copy()
        s2.pc.append(simp(Not(c)))
        # the path itself is feasible, so one side is
        if not out or feasible(s2.pc):
            out.append((s2, False))
        return out

    # -- truth and conversions
    def truth(self, v, st):
        if isinstance(v, Py):
            return bool(v.obj)
        if isinstance(v, B):
            return v.e
        if isinstance(v, I):
            return v.e != 0
        if isinstance(v, S):
            return v.e != EMPTYS
        if isinstance(v, R):
            t = v.e != null
            if v.cls in MAYBE_EMPTY:
                t = And(t, z3.Select(st.arr(v.cls, '$full'), v.e))
            if v.cls == 'Options' or v.cls == 'RefMap':
                raise Unsupported('truth of a dict')
            return t
        if isinstance(v, O):
            return And(Not(v.isnone), self.truth(v.val, st))
        if isinstance(v, M):
            return v.m.found
        if isinstance(v, T):
            return len(v.items) > 0
        if isinstance(v, (L, D)):
            k = self.lst(st, v)
            return k[0] == 'ref' or len(k[1]) > 0
        if isinstance(v, SL):
            return v.n > 0
        if isinstance(v, (En, F, BM, MT)):
            return True
        raise Unsupported('truth of %r' % (v,))

    def as_int(self, v):
        if isinstance(v, I):
            return v.e
        if isinstance(v, Py) and isinstance(v.obj, (int, bool)):
            return z3.IntVal(int(v.obj))
        if isinstance(v, B):
            return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
        return None

    def as_str(self, v):
        if isinstance(v, S):
            return v.e
        if isinstance(v, Py) and isinstance(v.obj, str):
            return strval(v.obj)
        return None

    def is_none(self, v):
        if isinstance(v, Py):
            return v.obj is None
        if isinstance(v, R):
            return v.e == null
        if isinstance(v, O):
            return v.isnone
        if isinstance(v, M):
            if v.m.mixed:
                raise Unsupported('None or False')
            return Not(v.m.found)
        return False

    # -- equality
    def eq(self, a, b, st, identity=False):
        if isinstance(a, Py) and isinstance(b, Py):
            return (a.obj is b.obj) if identity else bool(a.obj == b.obj)
        if isinstance(b, Py) and not isinstance(a, Py):
            a, b = b, a
        if isinstance(a, Py) and a.obj is None:
            return self.is_none(b)
        if isinstance(a, O) or isinstance(b, O):
            na, nb = self.is_none(a), self.is_none(b)
            va = a.val if isinstance(a, O) else a
            vb = b.val if isinstance(b, O) else b
            return Or(And(bval(na), bval(nb)),
                      And(Not(na), Not(nb), bval(self.eq(va, vb, st))))
        if isinstance(a, R) and isinstance(b, R):
            if not identity and a.cls in RECORDS and a.cls == b.cls:
                return self.rec_eq(a, b, st)
            return a.e == b.e
        if isinstance(a, En) and isinstance(b, En) and a.dom == b.dom:
            return a.e == b.e
        if isinstance(a, Py) and isinstance(b, En):
            if not isinstance(a.obj, str):
                return False
            c = code(b.dom, a.obj)
            return False if c is None else b.e == c
        if isinstance(a, Py) and isinstance(a.obj, bool) and isinstance(b, B):
            return b.e if a.obj else Not(b.e)
        if isinstance(a, B) and isinstance(b, B):
            return a.e == b.e
        ia, ib = self.as_int(a), self.as_int(b)
        if ia is not None and ib is not None:
            return ia == ib
        sa, sb = self.as_str(a), self.as_str(b)
        if sa is not None and sb is not None:
            if z3.is_string_value(sa) and z3.is_string_value(sb):
                return sval(sa) == sval(sb)
            for x, y in ((sa, sb), (sb, sa)):
                if z3.is_string_value(y) and z3.is_app_of(x, z3.Z3_OP_ITE):
                    c0, c1, c2 = x.children()
                    if z3.is_string_value(c1) or z3.is_string_value(c2):
                        return Or(And(c0, bval(self.eq(S(c1), S(y), st))),
                                  And(Not(c0), bval(self.eq(S(c2), S(y), st))))
            return sa == sb
        if (sa is None) != (sb is None) or (ia is None) != (ib is None):
            if not isinstance(a, (SET,)) and not isinstance(b, (SET,)):
                return False
        if isinstance(a, R) or isinstance(b, R):
            return False
        raise Unsupported('equality of %r and %r' % (a, b))

    def rec_eq(self, a, b, st):
        """dict ==: true when identical, else only when all entries are equal."""
        e = fresh('deq', z3.BoolSort())
        st.pc.append(Implies(a.e == b.e, e))
        st.pc.append(Implies(Or(a.e == null, b.e == null), e == (a.e == b.e)))
        for k, kind in SCHEMA[a.cls].items():
            if kind in ('str', 'int', 'bool') or kind == 'ref:Node':
                arr = st.arr(a.cls, k)
                st.pc.append(z3.Implies(z3.And(e, a.e != null, b.e != null),
                                        z3.Select(arr, a.e) == z3.Select(arr, b.e)))
        return e

    # -- heap access
    def use_heapinv(self, st, ref, own, attr):
        if st.cps and self.contract is not None:
            for nm in self.contract.inv:
                cls, trig, f = HEAPINV[nm]
                if cls == own and attr in trig:
                    for cp in st.cps:
                        st.pc.append(z3.Implies(z3.And(ref != null, z3.Select(cp.alloc, ref)),
                                                bval(f(cp, ref))))
        if self.contract is not None:
            for cls, trig, f in self.contract.defs:     # definitions over the entry heap
                if cls == own and attr in trig:
                    st.pc.append(z3.Implies(ref != null, bval(f(self.prestate, ref))))

    def hread(self, st, ref, own, attr, kind):
        if kind.startswith('has:'):
            v = self.hread(st, ref, own, attr, kind[4:])
            return O(Not(z3.Select(st.arr(own, attr, '!'), ref)), v)
        if kind.startswith('opt:'):
            v = self.wrap(z3.Select(st.arr(own, attr), ref), kind[4:])
            return O(z3.Select(st.arr(own, attr, '?'), ref), v)
        e = z3.Select(st.arr(own, attr), ref)
        if kind.startswith('ref:'):
            # no dangling references: whatever is stored is null or allocated
            st.pc.append(Or(e == null, z3.Select(st.alloc, e)))
        if kind.startswith('enum:'):
            n = len(DOM[kind[5:]])
            st.pc.append(z3.And(e >= 0, e < n))
        return self.wrap(e, kind)

    def wrap(self, e, kind):
        if kind == 'int':
            return I(e)
        if kind in ('bool', 'truthy'):
            return B(e)
        if kind == 'str':
            return S(e)
        if kind.startswith('ref:'):
            return R(e, kind[4:])
        if kind.startswith('enum:'):
            return En(kind[5:], e)
        raise Unsupported('kind ' + kind)

    def unwrap_to(self, st, v, kind):
        """z3 terms (value, isnone) for storing v in a field of the given kind, or None."""
        if kind.startswith('opt:'):
            if isinstance(v, Py) and v.obj is None:
                return None, TRUE
            if isinstance(v, O):
                e = self.unwrap_to(st, v.val, kind[4:])
                return (e[0], bval(v.isnone)) if e else None
            e = self.unwrap_to(st, v, kind[4:])
            return (e[0], FALSE) if e else None
        if isinstance(v, O):
            # a maybe-None value in a field that is never None
            if not self.valid(st, Not(v.isnone)):
                return None
            v = v.val
        if kind == 'int':
            if isinstance(v, (B,)) or isinstance(v, Py) and isinstance(v.obj, bool):
                return None
            e = self.as_int(v)
            return None if e is None else (e, FALSE)
        if kind == 'str':
            e = self.as_str(v)
            return None if e is None else (e, FALSE)
        if kind in ('bool', 'truthy'):
            return bval(self.truth(v, st)), FALSE
        if kind.startswith('enum:'):
            if isinstance(v, En) and v.dom == kind[5:]:
                return v.e, FALSE
            if isinstance(v, Py) and code(kind[5:], v.obj) is not None:
                return z3.IntVal(code(kind[5:], v.obj)), FALSE
            return None
        if kind.startswith('ref:'):
            if isinstance(v, Py) and v.obj is None:
                return null, FALSE
            if isinstance(v, (L, D)):
                v = self.promote(st, v, kind[4:])
            if isinstance(v, R) and (v.cls == kind[4:] or BASES.get(v.cls) == kind[4:]):
                return v.e, FALSE
            return None
        return None

    def hset(self, st, ref, cls, attr, v):
        own, kind = owner(cls, attr)
        if own is None:
            raise Unsupported('store to unknown field %s.%s' % (cls, attr))
        if kind.startswith('has:'):
            a = st.arr(own, attr, '!')
            st.heap['%s.%s!' % (own, attr)] = z3.Store(a, ref, TRUE)
            kind = kind[4:]
        r = self.unwrap_to(st, v, kind)
        if r is None:
            raise Unsupported('value %r stored in %s.%s of kind %s' % (v, cls, attr, kind))
        e, isnone = r
        if kind.startswith('opt:'):
            st.heap['%s.%s?' % (own, attr)] = z3.Store(st.arr(own, attr, '?'), ref, isnone)
        if e is not None:
            st.heap['%s.%s' % (own, attr)] = z3.Store(st.arr(own, attr), ref, e)
        else:
            st.arr(own, attr)

    def new_ref(self, st, cls):
        r = fresh('new_' + cls, Ref)
        st.pc.append(z3.And(r != null, z3.Not(z3.Select(st.alloc, r))))
        st.alloc = z3.Store(st.alloc, r, TRUE)
        return R(r, cls)

    def lst(self, st, v):
        return st.lists[v.lid if isinstance(v, L) else v.did]

    def new_list(self, st, items):
        k = next(_ctr)
        st.lists[k] = ('list', tuple(items))
        return L(k)

    def new_dict(self, st, items):
        k = next(_ctr)
        st.lists[k] = ('dict', tuple(items))
        return D(k)

    def promote(self, st, v, cls):
        """Move a concrete-shape list/dict to the heap as a record of class cls."""
        kind = self.lst(st, v)
        if kind[0] == 'ref':
            return R(kind[1].e, kind[1].cls)
        r = self.new_ref(st, cls)
        lid = v.lid if isinstance(v, L) else v.did
        if isinstance(v, D):
            if cls == 'RefMap':
                if kind[1]:
                    raise Unsupported('non-empty refmap literal')
                a = st.arr('RefMap', '$map')
                st.heap['RefMap.$map'] = z3.Store(a, r.e, z3.K(Str, null))
            else:
                keys = dict(kind[1])
                want = SCHEMA[cls]
                if cls in MAYBE_EMPTY:
                    st.heap[cls + '.$full'] = z3.Store(st.arr(cls, '$full'), r.e,
                                                       z3.BoolVal(bool(keys)))
                if keys or cls not in MAYBE_EMPTY:
                    miss = [k for k in want if k not in keys and not want[k].startswith('has:')]
                    extra = [k for k in keys if k not in want]
                    if miss or extra:
                        raise Unsupported('dict literal with keys %s as %s' % (sorted(keys), cls))
                    for k in want:
                        if want[k].startswith('has:') and k not in keys:
                            st.heap['%s.%s!' % (cls, k)] = z3.Store(
                                st.arr(cls, k, '!'), r.e, FALSE)
                    for k, x in keys.items():
                        self.hset(st, r.e, cls, k, x)
        else:
            if len(kind[1]) != len(SCHEMA[cls]):
                raise Unsupported('list literal as ' + cls)
            for i, x in enumerate(kind[1]):
                self.hset(st, r.e, cls, i, x)
        st.lists[lid] = ('ref', r)
        return r

    # ------------------------------------------------------------ expressions
    def evs(self, nodes, st):
        if not nodes:
            yield st, []
            return
        for s1, v in self.ev(nodes[0], st):
            if isinstance(v, Exc):
                yield s1, v
                continue
            for s2, vs in self.evs(nodes[1:], s1):
                yield s2, vs if isinstance(vs, Exc) else [v] + vs

    def ev(self, n, st):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %d' % (type(n).__name__, n.lineno))
        self.line = getattr(n, 'lineno', 0)
        return m(n, st)

    def ev_Constant(self, n, st):
        yield st, Py(n.value)

    def ev_Name(self, n, st):
        if n.id in st.loc:
            yield st, st.loc[n.id]
            return
        env = st.loc.get('$fn')
        clos = st.loc.get('$clos')
        if clos is not None and n.id in clos:
            yield st, clos[n.id]
            return
        if n.id in st.loc.get('$locals', ()):
            yield st, Exc('UnboundLocalError', n.lineno)
            return
        g = env.__globals__
        if n.id in g:
            yield st, Py(g[n.id])
        elif hasattr(builtins, n.id):
            yield st, Py(getattr(builtins, n.id))
        else:
            yield st, Exc('NameError', n.lineno)

    def ev_Tuple(self, n, st):
        for s, vs in self.evs(n.elts, st):
            yield s, vs if isinstance(vs, Exc) else T(tuple(vs))

    def ev_List(self, n, st):
        for s, vs in self.evs(n.elts, st):
            yield s, vs if isinstance(vs, Exc) else self.new_list(s, vs)

    def ev_Dict(self, n, st):
        if any(k is None for k in n.keys):
            raise Unsupported('dict unpacking')
        for s, vs in self.evs(list(n.keys) + list(n.values), st):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            k = len(n.keys)
            keys, out = vs[:k], {}
            for kk, vv in zip(keys, vs[k:]):
                if not isinstance(kk, Py):
                    raise Unsupported('symbolic dict key in literal')
                out[kk.obj] = vv
            yield s, self.new_dict(s, tuple(out.items()))

    def ev_Lambda(self, n, st):
        env = dict(st.loc.get('$clos') or {})
        env.update({k: v for k, v in st.loc.items() if not k.startswith('$')})
        yield st, F(n, env, st.loc['$fn'])

    def ev_IfExp(self, n, st):
        for s, v in self.ev(n.test, st):
            if isinstance(v, Exc):
                yield s, v
                continue
            for s2, b in self.fork(s, self.truth(v, s)):
                for r in self.ev(n.body if b else n.orelse, s2):
                    yield r

    def ev_BoolOp(self, n, st):
        return self._boolop(n.values, isinstance(n.op, ast.And), st)

    def _boolop(self, vals, is_and, st):
        if len(vals) == 1:
            for r in self.ev(vals[0], st):
                yield r
            return
        for s, v in self.ev(vals[0], st):
            if isinstance(v, Exc):
                yield s, v
                continue
            c = self.truth(v, s)
            if isinstance(c, bool) or z3.is_true(c) or z3.is_false(c):
                c = c if isinstance(c, bool) else z3.is_true(c)
                if c == is_and:
                    for r in self._boolop(vals[1:], is_and, s):
                        yield r
                else:
                    yield s, v
                continue
            # evaluate the rest under its guard; merge when it is a plain condition
            guard = c if is_and else Not(c)
            s2 = s.copy()
            n0 = len(s2.pc)
            s2.pc.append(guard)
            if not feasible(s2.pc):
                yield s, v
                continue
            rs = list(self._boolop(vals[1:], is_and, s2))
            mergeable = isinstance(v, (B, M, Py, I, S, R, O)) and all(
                not isinstance(w, Exc) and isinstance(w, (B, M, Py)) and
                x.heap == s.heap and x.lists == s.lists and x.loc == s.loc and
                x.alloc is s.alloc for x, w in rs)
            if mergeable and isinstance(v, (B, M)) and len(rs) == 1:
                x, w = rs[0]
                for f in x.pc[n0 + 1:]:
                    s.pc.append(z3.Implies(guard, f))
                s.heap = x.heap if len(x.heap) > len(s.heap) else s.heap
                cw = self.truth(w, x)
                r = And(c, bval(cw)) if is_and else Or(c, bval(cw))
                if is_and and isinstance(w, M):
                    # a match object, or something false: False or None
                    m = Match(bval(r), w.m.group, w.m.start, w.m.subj, w.m.pat, w.m.groups)
                    m.mixed = True
                    yield s, M(m)
                    continue
                yield s, B(bval(r))
                continue
            for s3, b in self.fork(s, c):
                if b == is_and:
                    for r in self._boolop(vals[1:], is_and, s3):
                        yield r
                else:
                    yield s3, self.narrow(v, b)

    def narrow(self, v, b):
        """The value known to be truthy/falsy."""
        if isinstance(v, B):
            return v
        return v

    def ev_UnaryOp(self, n, st):
        for s, v in self.ev(n.operand, st):
            if isinstance(v, Exc):
                yield s, v
            elif isinstance(n.op, ast.Not):
                t = self.truth(v, s)
                yield s, Py(not t) if isinstance(t, bool) else B(Not(t))
            elif isinstance(n.op, ast.USub):
                if isinstance(v, Py):
                    yield s, Py(-v.obj)
                else:
                    e = self.as_int(v)
                    if e is None:
                        raise Unsupported('unary minus')
                    yield s, I(-e)
            else:
                raise Unsupported('unary operator')

    def ev_BinOp(self, n, st):
        for s, vs in self.evs([n.left, n.right], st):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            for r in self.binop(type(n.op).__name__, vs[0], vs[1], s, n.lineno):
                yield r

    def deopt(self, v, st, line, exc='TypeError'):
        """[(st, value)] with None split off as an exception."""
        if isinstance(v, O):
            out = []
            for s, b in self.fork(st, v.isnone):
                out.append((s, Exc(exc, line) if b else v.val))
            return out
        return [(st, v)]

    def binop(self, op, a, b, st, line):
        if isinstance(a, O) or isinstance(b, O):
            for s, x in self.deopt(a, st, line):
                if isinstance(x, Exc):
                    yield s, x
                    continue
                for s2, y in self.deopt(b, s, line):
                    if isinstance(y, Exc):
                        yield s2, y
                    else:
                        for r in self.binop(op, x, y, s2, line):
                            yield r
            return
        if isinstance(a, En):
            for s, x in self.enum_split(a, st):
                for r in self.binop(op, x, b, s, line):
                    yield r
            return
        if isinstance(b, En):
            for s, x in self.enum_split(b, st):
                for r in self.binop(op, a, x, s, line):
                    yield r
            return
        if isinstance(a, Py) and isinstance(b, Py):
            import operator as o
            f = dict(Add=o.add, Sub=o.sub, Mult=o.mul, FloorDiv=o.floordiv, Mod=o.mod,
                     BitAnd=o.and_, BitOr=o.or_, LShift=o.lshift, RShift=o.rshift, Div=o.truediv,
                     BitXor=o.xor)[op]
            try:
                yield st, Py(f(a.obj, b.obj))
            except Exception as e:
                yield st, Exc(type(e).__name__, line)
            return
        ia, ib = self.as_int(a), self.as_int(b)
        if ia is not None and ib is not None:
            if op == 'Add':
                yield st, I(ia + ib)
            elif op == 'Sub':
                yield st, I(ia - ib)
            elif op == 'Mult':
                yield st, I(ia * ib)
            elif op in ('FloorDiv', 'Mod'):
                d = cint(ib)
                if d is None:
                    for s, z in self.fork(st, ib == 0):
                        if z:
                            yield s, Exc('ZeroDivisionError', line)
                        else:
                            raise Unsupported('division by a symbolic value')
                    return
                if d == 0:
                    yield st, Exc('ZeroDivisionError', line)
                elif d > 0:        # SMT-LIB div/mod coincide with Python's for positive divisors
                    yield st, I(ia / ib if op == 'FloorDiv' else ia % ib)
                else:
                    raise Unsupported('division by a negative value')
            else:
                raise Unsupported('int operator ' + op)
            return
        sa, sb = self.as_str(a), self.as_str(b)
        if op == 'Add' and sa is not None and sb is not None:
            yield st, S(Cat(sa, sb))
            return
        if op == 'Mult' and (sa is not None and ib is not None or sb is not None and ia is not None):
            s_, n_ = (sa, ib) if sa is not None else (sb, ia)
            yield st, S(self.repeat(st, s_, n_))
            return
        if op == 'Mod' and sa is not None:
            if isinstance(a, Py):
                yield st, self.fmt(a.obj, b, st, line)
                return
        if op == 'Add' and isinstance(a, L) and isinstance(b, L):
            yield st, self.new_list(st, self.lst(st, a)[1] + self.lst(st, b)[1])
            return
        bad = (Py,)
        if isinstance(a, Py) and a.obj is None or isinstance(b, Py) and b.obj is None or \
                (sa is None) != (sb is None):
            yield st, Exc('TypeError', line)
            return
        raise Unsupported('operator %s on %r, %r' % (op, a, b))

    def repeat(self, st, s, n):
        """s * n"""
        k = cint(n)
        if z3.is_string_value(s) and k is not None:
            return strval(sval(s) * max(k, 0))
        return self.repeat_fn(st, s, n)

    def repeat_fn(self, st, s, n):
        f = REP
        r = f(s, n)
        st.pc.append(z3.Length(r) == z3.If(n > 0, n, 0) * slen(s) if cint(slen(s)) is not None
                     else z3.Implies(n <= 0, r == EMPTYS))
        if z3.is_string_value(s) and len(sval(s)) == 1:
            st.pc.append(inlang(rl.star(rl.lit(sval(s))), r))
        st.pc.append(z3.Implies(n == 1, r == s))
        return r

    def fmt(self, f, b, st, line):
        args = list(b.items) if isinstance(b, T) else [b]
        out, i = [], 0
        parts = re.split(r'(%[sd%])', f)
        for p in parts:
            if p == '%%':
                out.append(strval('%'))
            elif p in ('%s', '%d'):
                out.append(self.to_str(args[i], st))
                i += 1
            elif p:
                out.append(strval(p))
        return S(Cat(*out))

    def to_str(self, v, st):
        """str(v) as a z3 term."""
        s = self.as_str(v)
        if s is not None:
            return s
        if isinstance(v, Py):
            return strval(str(v.obj))
        if isinstance(v, I):
            k = cint(v.e)
            if k is not None:
                return strval(str(k))
            r = INT2STR(v.e)
            st.pc.append(inlang(INTLANG, r))
            return r
        if isinstance(v, O):
            return Ite(bval(v.isnone), strval('None'), self.to_str(v.val, st))
        if isinstance(v, B):
            return Ite(v.e, strval('True'), strval('False'))
        if isinstance(v, En):
            e = strval(DOM[v.dom][-1])
            for i, x in list(enumerate(DOM[v.dom]))[:-1]:
                e = Ite(v.e == i, strval(x), e)
            return e
        r = fresh('str', Str)
        return r

    def enum_split(self, v, st):
        for i, x in enumerate(DOM[v.dom]):
            s = st.copy()
            s.pc.append(v.e == i)
            if feasible(s.pc):
                yield s, Py(x)

    def ev_Compare(self, n, st):
        if len(n.ops) == 1:
            for s, vs in self.evs([n.left, n.comparators[0]], st):
                if isinstance(vs, Exc):
                    yield s, vs
                    continue
                for r in self.compare(type(n.ops[0]).__name__, vs[0], vs[1], s, n.lineno):
                    yield r
            return
        for s, vs in self.evs([n.left] + list(n.comparators), st):
            # chained comparison of side-effect free operands
            if isinstance(vs, Exc):
                yield s, vs
                continue
            def rec(i, s0, acc):
                if i == len(n.ops):
                    yield s0, B(And(*acc))
                    return
                for s1, v in self.compare(type(n.ops[i]).__name__, vs[i], vs[i + 1], s0, n.lineno):
                    if isinstance(v, Exc):
                        yield s1, v
                    else:
                        for r in rec(i + 1, s1, acc + [bval(self.truth(v, s1))]):
                            yield r
            for r in rec(0, s, []):
                yield r

    def mkb(self, b):
        return Py(b) if isinstance(b, bool) else \
            PYT if z3.is_true(b) else PYF if z3.is_false(b) else B(b)

    def compare(self, op, a, b, st, line):
        if op in ('Eq', 'NotEq', 'Is', 'IsNot'):
            if isinstance(a, (L, D)) or isinstance(b, (L, D)):
                a2 = self.deref(st, a)
                b2 = self.deref(st, b)
                if isinstance(a2, (L, D)) and isinstance(b2, Py) or \
                        isinstance(b2, (L, D)) and isinstance(a2, Py):
                    o = b2.obj if isinstance(b2, Py) else a2.obj
                    if o is None or not isinstance(o, (list, dict)):
                        yield st, Py(op in ('NotEq', 'IsNot'))
                        return
                a, b = a2, b2
            r = self.eq(a, b, st, op.startswith('Is'))
            if op in ('NotEq', 'IsNot'):
                r = Not(r) if not isinstance(r, bool) else not r
            yield st, self.mkb(r)
            return
        if op in ('In', 'NotIn'):
            for s, r in self.contains(a, b, st, line):
                if isinstance(r, Exc):
                    yield s, r
                    continue
                if op == 'NotIn':
                    r = (not r) if isinstance(r, bool) else Not(r)
                yield s, self.mkb(r)
            return
        if isinstance(a, O) or isinstance(b, O):
            for s, x in self.deopt(a, st, line):
                if isinstance(x, Exc):
                    yield s, x
                    continue
                for s2, y in self.deopt(b, s, line):
                    if isinstance(y, Exc):
                        yield s2, y
                    else:
                        for r in self.compare(op, x, y, s2, line):
                            yield r
            return
        if isinstance(a, Py) and isinstance(b, Py):
            import operator as o
            try:
                yield st, Py(dict(Lt=o.lt, LtE=o.le, Gt=o.gt, GtE=o.ge)[op](a.obj, b.obj))
            except TypeError:
                yield st, Exc('TypeError', line)
            return
        ia, ib = self.as_int(a), self.as_int(b)
        if ia is not None and ib is not None:
            yield st, self.mkb(simp_bool(
                {'Lt': ia < ib, 'LtE': ia <= ib, 'Gt': ia > ib, 'GtE': ia >= ib}[op]))
            return
        sa, sb = self.as_str(a), self.as_str(b)
        if sa is not None and sb is not None:
            yield st, B({'Lt': sa < sb, 'LtE': sa <= sb, 'Gt': sb < sa, 'GtE': sb <= sa}[op])
            return
        if self.is_none(a) is True or self.is_none(b) is True or (sa is None) != (sb is None):
            yield st, Exc('TypeError', line)
            return
        raise Unsupported('comparison %s of %r, %r' % (op, a, b))

    def contains(self, a, b, st, line):
        if isinstance(b, (L, D)):
            k = self.lst(st, b)
            if k[0] == 'ref':
                raise Unsupported('in on a record')
            items = [Py(x) for x, _ in k[1]] if isinstance(b, D) else k[1]
            yield st, Or(*[bval(self.eq(a, x, st)) for x in items])
            return
        if isinstance(b, T):
            yield st, Or(*[bval(self.eq(a, x, st)) for x in b.items])
            return
        if isinstance(b, Py) and isinstance(b.obj, (tuple, list, set, frozenset, dict)):
            if isinstance(a, Py):
                try:
                    yield st, a.obj in b.obj
                except TypeError:
                    yield st, Exc('TypeError', line)
                return
            if len(b.obj) > 64:
                sa = self.as_str(a)
                if sa is None or not all(isinstance(x, str) for x in b.obj):
                    raise Unsupported('membership in a large constant')
                g = in_const(frozenset(b.obj), sa)
                st.pc.append(const_shape(frozenset(b.obj), sa, g))
                yield st, g
                return
            yield st, Or(*[bval(self.eq(a, Py(x), st)) for x in b.obj])
            return
        if isinstance(b, R) and b.cls == 'RefMap':
            k = self.as_str(a)
            yield st, z3.Select(z3.Select(st.arr('RefMap', '$map'), b.e), k) != null
            return
        if isinstance(b, R) and b.cls in RECORDS and isinstance(a, Py):
            kind = SCHEMA[b.cls].get(a.obj)
            if kind is None:
                yield st, False
            elif kind.startswith('has:'):
                yield st, z3.Select(st.arr(b.cls, a.obj, '!'), b.e)
            elif b.cls in MAYBE_EMPTY:
                yield st, z3.Select(st.arr(b.cls, '$full'), b.e)
            else:
                yield st, True
            return
        sb = self.as_str(b)
        if sb is not None:
            for s, x in self.deopt(a, st, line):
                if isinstance(x, Exc):
                    yield s, x
                    continue
                sa = self.as_str(x)
                if sa is None:
                    yield s, Exc('TypeError', line)
                elif z3.is_string_value(sb) and z3.is_string_value(sa):
                    yield s, sval(sa) in sval(sb)
                elif z3.is_string_value(sa):
                    t = sval(sa)
                    yield s, inlang(rl.cat(rl.ALLS, rl.lit(t), rl.ALLS), sb)
                elif z3.is_string_value(sb) and len(sval(sb)) <= 64:
                    # single characters or the empty string in a constant
                    t = sval(sb)
                    subs = {t[i:j] for i in range(len(t) + 1) for j in range(i, len(t) + 1)}
                    if len(subs) > 200 and self.valid(s, z3.Length(sa) == 1):
                        subs = set(t)
                    yield s, Or(*[sa == strval(x) for x in sorted(subs)])
                else:
                    yield s, z3.Contains(sb, sa)
            return
        raise Unsupported('membership in %r' % (b,))

    def ev_JoinedStr(self, n, st):
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]
        for v in n.values:
            if isinstance(v, ast.FormattedValue) and (v.format_spec is not None or
                                                      v.conversion not in (-1, 115)):
                raise Unsupported('format spec')
        for s, vs in self.evs(parts, st):
            yield s, vs if isinstance(vs, Exc) else S(Cat(*[self.to_str(v, s) for v in vs]))

    def ev_NamedExpr(self, n, st):
        for s, v in self.ev(n.value, st):
            if not isinstance(v, Exc):
                s.loc[n.target.id] = v
            yield s, v

    def ev_Set(self, n, st):
        for s, vs in self.evs(n.elts, st):
            yield s, vs if isinstance(vs, Exc) else T(tuple(vs))

    def ev_ListComp(self, n, st):
        for s, vs in self.comp(n, st):
            yield s, vs if isinstance(vs, Exc) else self.new_list(s, vs)

    def ev_GeneratorExp(self, n, st):
        for s, vs in self.comp(n, st):
            yield s, vs if isinstance(vs, Exc) else T(tuple(vs))

    def comp(self, n, st):
        """[(st, values|Exc)] of a comprehension over a sequence of concrete length."""
        if len(n.generators) != 1:
            raise Unsupported('nested comprehension')
        g = n.generators[0]
        for s, it in self.ev(g.iter, st):
            if isinstance(it, Exc):
                yield s, it
                continue
            it = self.deref(s, it)
            if isinstance(it, Py) and isinstance(it.obj, (list, tuple, str, range, dict)):
                items = [Py(x) for x in it.obj]
            elif isinstance(it, T):
                items = list(it.items)
            elif isinstance(it, L):
                items = list(self.lst(s, it)[1])
            elif isinstance(it, SL) and not g.ifs:
                for r in self.comp_sl(n, g, it, s):
                    yield r
                continue
            else:
                raise Unsupported('comprehension over %r' % (it,))

            def rec(k, s0):
                if k == len(items):
                    yield s0, []
                    return
                saved = dict(s0.loc)
                for s1, e in self.assign(g.target, items[k], s0):
                    if e is not None:
                        yield s1, e
                        continue
                    for s2, cs in self.evs(list(g.ifs), s1):
                        if isinstance(cs, Exc):
                            yield s2, cs
                            continue
                        c = And(*[bval(self.truth(x, s2)) for x in cs])
                        for s3, b in self.fork(s2, c):
                            for s4, v in (self.ev(n.elt, s3) if b else [(s3, None)]):
                                if isinstance(v, Exc):
                                    yield s4, v
                                    continue
                                s4.loc = dict(saved)
                                for s5, vs in rec(k + 1, s4):
                                    yield s5, vs if isinstance(vs, Exc) else \
                                        ([v] if v is not None else []) + vs
            for r in rec(0, s):
                yield r

    def comp_sl(self, n, g, it, st):
        raise Unsupported('comprehension over a sequence of unknown length')

    # -- attributes
    def ev_Attribute(self, n, st):
        for s, v in self.ev(n.value, st):
            if isinstance(v, Exc):
                yield s, v
                continue
            for r in self.getattr_(v, n.attr, s, n.lineno):
                yield r

    def getattr_(self, v, name, st, line):
        if isinstance(v, (L, D)):
            v = self.deref(st, v)
        if isinstance(v, Py):
            try:
                o = v.obj
                if isinstance(o, type) and o.__module__.startswith('commonmark'):
                    x = inspect.getattr_static(o, name)
                    yield st, Py(unwrap(x))
                else:
                    x = getattr(o, name)
                    if isinstance(o, (str, bytes, list, dict, tuple, re.Pattern)) and callable(x):
                        yield st, MT(v, name)
                    else:
                        yield st, Py(x)
            except AttributeError:
                yield st, Exc('AttributeError', line)
            return
        if isinstance(v, O):
            for s, x in self.deopt(v, st, line, 'AttributeError'):
                if isinstance(x, Exc):
                    yield s, x
                else:
                    for r in self.getattr_(x, name, s, line):
                        yield r
            return
        if isinstance(v, R):
            for s, isnull in self.fork(st, v.e == null):
                if isnull:
                    yield s, Exc('AttributeError', line)
                    continue
                own, kind = owner(v.cls, name)
                if v.cls in RECORDS or v.cls in LISTRECS or v.cls == 'RefMap':
                    yield s, MT(v, name)
                elif own is not None:
                    self.use_heapinv(s, v.e, own, name)
                    x = self.hread(s, v.e, own, name, kind)
                    if kind.startswith('has:'):
                        for r in self.deopt(x, s, line, 'AttributeError'):
                            yield r
                    else:
                        yield s, x
                else:
                    for r in self.cls_attr(v, PYCLS.get(v.cls), name, s, line):
                        yield r
            return
        if isinstance(v, M):
            for s, b in self.fork(st, v.m.found):
                if not b:
                    yield s, Exc('AttributeError', line)
                else:
                    yield s, MT(v, name)
            return
        if isinstance(v, SUP):
            mro = PYCLS[v.self.cls].__mro__
            for c in mro[mro.index(v.cls) + 1:]:
                if name in vars(c):
                    yield st, BM(v.self, unwrap(vars(c)[name]))
                    return
            yield st, Exc('AttributeError', line)
            return
        if isinstance(v, (S, By, L, D, T, SL, En, I, SET)):
            yield st, MT(v, name)
            return
        if isinstance(v, Exc):
            yield st, v
            return
        raise Unsupported('attribute %s of %r' % (name, v))

    def cls_attr(self, v, pc, name, st, line):
        if pc is None:
            yield st, Exc('AttributeError', line)
            return
        try:
            x = inspect.getattr_static(pc, name)
        except AttributeError:
            yield st, Exc('AttributeError', line)
            return
        if isinstance(x, staticmethod):
            yield st, Py(x.__func__)
        elif isinstance(x, classmethod):
            raise Unsupported('classmethod')
        elif isinstance(x, types.FunctionType):
            yield st, BM(v, x)
        elif isinstance(x, property):
            for r in self.call_fn(x.fget, [v], {}, st, line):
                yield r
        else:
            yield st, Py(x)

    def deref(self, st, v):
        """A promoted list/dict is the heap record it became."""
        if isinstance(v, (L, D)):
            k = self.lst(st, v)
            if k[0] == 'ref':
                return k[1]
        return v

    # -- subscripts
    def ev_Subscript(self, n, st):
        if isinstance(n.slice, ast.Slice):
            parts = [n.value] + [x for x in (n.slice.lower, n.slice.upper) if x is not None]
            if n.slice.step is not None:
                raise Unsupported('slice step')
            for s, vs in self.evs(parts, st):
                if isinstance(vs, Exc):
                    yield s, vs
                    continue
                it = iter(vs[1:])
                lo = next(it) if n.slice.lower is not None else None
                hi = next(it) if n.slice.upper is not None else None
                for r in self.slice_(vs[0], lo, hi, s, n.lineno):
                    yield r
            return
        for s, vs in self.evs([n.value, n.slice], st):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            for r in self.index(vs[0], vs[1], s, n.lineno):
                yield r

    def pick(self, items, e, s, line):
        """items[e] of a sequence of known length."""
        for k, x in enumerate(items):
            s2 = s.copy()
            s2.pc.append(Or(e == k, e == k - len(items)))
            if feasible(s2.pc):
                yield s2, x
        s2 = s.copy()
        s2.pc.append(Or(e >= len(items), e < -len(items)))
        if feasible(s2.pc):
            yield s2, Exc('IndexError', line)

    def norm_bound(self, st, i, n):
        """Slice bound i relative to length n, clamped at 0 from below."""
        k = cint(i)
        if k is not None:
            if k >= 0:
                return z3.IntVal(k)
            return z3.If(n + k < 0, z3.IntVal(0), n + k)
        if self.valid(st, i >= 0):
            return i
        j = z3.If(i < 0, n + i, i)
        return z3.If(j < 0, z3.IntVal(0), j)

    def slice_(self, v, lo, hi, st, line):
        for s, v in self.deopt(v, st, line):
            if isinstance(v, Exc):
                yield s, v
                continue
            v = self.deref(s, v)
            for x in (lo, hi):
                if isinstance(x, O):
                    raise Unsupported('optional slice bound')
            if isinstance(v, Py) and (lo is None or isinstance(lo, Py)) and \
                    (hi is None or isinstance(hi, Py)):
                yield s, Py(v.obj[(lo.obj if lo else None):(hi.obj if hi else None)])
                continue
            if isinstance(v, (T, L)) and all(x is None or isinstance(x, Py) for x in (lo, hi)):
                items = v.items if isinstance(v, T) else self.lst(s, v)[1]
                items = items[(lo.obj if lo else None):(hi.obj if hi else None)]
                yield s, T(items) if isinstance(v, T) else self.new_list(s, items)
                continue
            e = self.as_str(v)
            if e is None:
                if self.is_none(v) is True:
                    yield s, Exc('TypeError', line)
                    continue
                raise Unsupported('slice of %r' % (v,))
            n = slen(e)
            a = z3.IntVal(0) if lo is None else self.norm_bound(s, self.as_int(lo), n)
            if hi is None:
                yield s, S(sfx(e, a))
                continue
            b = self.norm_bound(s, self.as_int(hi), n)
            yield s, S(z3.SubString(e, a, b - a))

    def index(self, v, i, st, line):
        for s, v in self.deopt(v, st, line):
            if isinstance(v, Exc):
                yield s, v
                continue
            v = self.deref(s, v)
            if isinstance(i, O):
                raise Unsupported('optional index')
            if isinstance(v, Py) and isinstance(i, Py):
                try:
                    yield s, Py(v.obj[i.obj])
                except (KeyError, IndexError, TypeError) as e:
                    yield s, Exc(type(e).__name__, line)
                continue
            if isinstance(v, Py) and isinstance(v.obj, dict):
                for r in self.const_dict(v.obj, i, s, line, None):
                    yield r
                continue
            if isinstance(v, Py) and (isinstance(v.obj, (list, tuple)) or
                                      isinstance(v.obj, str) and len(v.obj) <= 16):
                e = self.as_int(i)
                if e is None:
                    yield s, Exc('TypeError', line)
                    continue
                if len(v.obj) > 64:
                    raise Unsupported('symbolic index into a large constant')
                for r in self.pick([Py(x) for x in v.obj], e, s, line):
                    yield r
                continue
            if isinstance(v, R):
                for r in self.rec_index(v, i, s, line):
                    yield r
                continue
            if isinstance(v, D):
                for r in self.const_dict(dict(self.lst(s, v)[1]), i, s, line, None):
                    yield r
                continue
            if isinstance(v, (L, T)):
                items = v.items if isinstance(v, T) else self.lst(s, v)[1]
                e = self.as_int(i)
                k = cint(e) if e is not None else None
                if k is None:
                    if e is None:
                        yield s, Exc('TypeError', line)
                        continue
                    for r in self.pick(list(items), e, s, line):
                        yield r
                    continue
                try:
                    yield s, items[k]
                except IndexError:
                    yield s, Exc('IndexError', line)
                continue
            if isinstance(v, SL):
                e = self.as_int(i)
                ok = z3.And(e >= -v.n, e < v.n)
                for s2, b in self.fork(s, ok):
                    yield s2, S(z3.Select(v.arr, z3.If(e < 0, e + v.n, e))) if b else \
                        Exc('IndexError', line)
                continue
            e = self.as_str(v)
            if e is not None:
                k = self.as_int(i)
                if k is None:
                    yield s, Exc('TypeError', line)
                    continue
                n = slen(e)
                self.on_index(s, e, k)
                for s2, b in self.fork(s, And(k < n, k >= -n)):
                    if not b:
                        yield s2, Exc('IndexError', line)
                        continue
                    kk = cint(k)
                    if kk is not None:
                        p = z3.IntVal(kk) if kk >= 0 else n + kk
                    elif self.valid(s2, k >= 0):
                        p = k
                    else:
                        p = z3.If(k < 0, n + k, k)
                    ch = char_at(e, p)
                    s2.pc.append(z3.Length(ch) == 1)
                    yield s2, S(ch)
                continue
            if self.is_none(v) is True:
                yield s, Exc('TypeError', line)
                continue
            raise Unsupported('subscript of %r' % (v,))

    def on_index(self, st, s, p):
        for h in INDEX_HOOKS:
            h(self, st, s, p)
        if self.contract is not None:
            for h in self.contract.hooks:
                h(self, st, s, p)

    def const_dict(self, d, i, st, line, default):
        """d[i] / d.get(i, default) for a dict with concrete keys."""
        if isinstance(i, Py):
            if i.obj in d:
                x = d[i.obj]
                yield st, x if isinstance(x, V) else Py(x)
            else:
                yield st, Exc('KeyError', line) if default is None else default
            return
        if len(d) > 80:
            sa = self.as_str(i)
            if sa is None or not all(isinstance(x, str) and isinstance(y, str) for x, y in d.items()):
                raise Unsupported('symbolic key into a large dict')
            g = in_const(frozenset(d), sa)
            st.pc.append(const_shape(frozenset(d), sa, g))
            for s, b in self.fork(st, g):
                if b:
                    yield s, S(const_map(d)(sa))
                else:
                    yield s, Exc('KeyError', line) if default is None else default
            return
        neg = []
        for k, x in d.items():
            c = self.eq(i, Py(k), st)
            if c is False:
                continue
            s = st.copy()
            s.pc.extend(neg)
            s.pc.append(bval(c))
            neg.append(Not(c))
            if feasible(s.pc):
                yield s, x if isinstance(x, V) else Py(x)
        s = st.copy()
        s.pc.extend(neg)
        if feasible(s.pc):
            yield s, Exc('KeyError', line) if default is None else default

    def rec_index(self, v, i, st, line, default=None):
        for s, isnull in self.fork(st, v.e == null):
            if isnull:
                yield s, Exc('TypeError', line)
                continue
            if v.cls == 'RefMap':
                k = self.as_str(i)
                e = z3.Select(z3.Select(s.arr('RefMap', '$map'), v.e), k)
                s.pc.append(Or(e == null, z3.Select(s.alloc, e)))
                for s2, b in self.fork(s, e == null):
                    if b:
                        yield s2, Exc('KeyError', line) if default is None else default
                    else:
                        yield s2, R(e, 'LinkRef')
                continue
            if not isinstance(i, Py):
                raise Unsupported('symbolic key of a record')
            k = i.obj
            if v.cls in LISTRECS and isinstance(k, int) and k < 0:
                k += len(SCHEMA[v.cls])
            kind = SCHEMA[v.cls].get(k)
            miss = Exc('IndexError' if v.cls in LISTRECS else 'KeyError', line) \
                if default is None else default
            if kind is None:
                yield s, miss
                continue
            self.use_heapinv(s, v.e, v.cls, k)
            x = self.hread(s, v.e, v.cls, k, kind)
            if kind.startswith('has:'):
                if default is not None and default.obj is None and \
                        not isinstance(x.val, O):
                    if kind == 'has:truthy':
                        yield s, B(And(Not(x.isnone), x.val.e))
                    else:
                        yield s, x
                    continue
                for s2, b in self.fork(s, x.isnone):
                    yield s2, miss if b else x.val
                continue
            if v.cls in MAYBE_EMPTY:
                full = z3.Select(s.arr(v.cls, '$full'), v.e)
                for s2, b in self.fork(s, full):
                    yield s2, x if b else miss
                continue
            yield s, x

    # ------------------------------------------------------------ calls
    def ev_Call(self, n, st):
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            raise Unsupported('* arguments')
        kws = [k.arg for k in n.keywords]
        for s, vs in self.evs([n.func] + list(n.args) + [k.value for k in n.keywords], st):
            if isinstance(vs, Exc):
                yield s, vs
                continue
            a = vs[1:1 + len(n.args)]
            k = dict(zip(kws, vs[1 + len(n.args):]))
            for r in self.call(vs[0], a, k, s, n.lineno):
                yield r

    def call(self, f, args, kw, st, line):
        from . import models
        if isinstance(f, BM):
            return self.call_fn(f.fn, [f.self] + args, kw, st, line)
        if isinstance(f, F):
            return self.call_ast(f.node, f.fn, args, kw, st, line, f.env)
        if isinstance(f, MT):
            return models.method(self, f.val, f.name, args, kw, st, line)
        if isinstance(f, Py):
            o = unwrap(f.obj)
            if isinstance(o, types.FunctionType) and is_repo(o):
                return self.call_fn(o, args, kw, st, line)
            if isinstance(o, type) and o in CLSNAME:
                return self.construct(CLSNAME[o], args, kw, st, line)
            return models.builtin(self, o, args, kw, st, line)
        if isinstance(f, (Py, O, R)):
            return iter([(st, Exc('TypeError', line))])
        raise Unsupported('call of %r' % (f,))

    def construct(self, cls, args, kw, st, line):
        r = self.new_ref(st, cls)
        for a, kind in SCHEMA[cls].items():
            if kind.startswith('has:'):
                st.heap['%s.%s!' % (cls, a)] = z3.Store(st.arr(cls, a, '!'), r.e, FALSE)
        init = inspect.getattr_static(PYCLS[cls], '__init__')
        if not isinstance(init, types.FunctionType):
            yield st, r
            return
        for s, v in self.call_fn(init, [r] + args, kw, st, line):
            yield s, v if isinstance(v, Exc) else r

    def call_fn(self, fn, args, kw, st, line):
        fn = unwrap(fn)
        c = self.contracts.get(fn)
        if c is not None and c.applicable(self, args) and not (fn is self.top and self.depth == 0):
            self.used.add(c)
            return c.apply(self, fn, args, kw, st, line)
        self.inlined.add('%s.%s' % (fn.__module__, fn.__qualname__))
        return self.call_ast(source_of(fn), fn, args, kw, st, line, None)

    def bind(self, node, fn, args, kw, st, line):
        a = node.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs:
            raise Unsupported('argument kinds')
        names = [x.arg for x in a.args]
        loc = {}
        if len(args) > len(names):
            return None
        for nm, v in zip(names, args):
            loc[nm] = v
        for k, v in kw.items():
            if k not in names or k in loc:
                return None
            loc[k] = v
        nd = len(a.defaults)
        for i, nm in enumerate(names):
            if nm not in loc:
                j = i - (len(names) - nd)
                if j < 0:
                    return None
                if isinstance(node, ast.Lambda) or not isinstance(fn, types.FunctionType):
                    d = a.defaults[j]
                    if not isinstance(d, ast.Constant):
                        raise Unsupported('lambda default')
                    loc[nm] = Py(d.value)
                else:
                    loc[nm] = Py(fn.__defaults__[j])
        return loc

    def call_ast(self, node, fn, args, kw, st, line, clos):
        if self.depth >= self.MAXDEPTH:
            raise Unsupported('call depth (recursion without contract)')
        loc = self.bind(node, fn, args, kw, st, line)
        if loc is None:
            yield st, Exc('TypeError', line)
            return
        saved = st.loc
        loc['$fn'] = fn
        if clos is not None:
            loc['$clos'] = clos
        if isinstance(node, ast.FunctionDef):
            loc['$locals'] = local_names(node)
            loc['$class'] = fn
        st.loc = loc
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                outs = ((s, v) for s, v in self.ev(node.body, st))
            else:
                outs = self.body_outs(node, st)
            outs = list(outs)
        finally:
            self.depth -= 1
        outs = self.merge_outs(outs, saved)
        for s, v in outs:
            yield s, v

    def run_top(self, fn, args, st):
        """Outcomes (st, value|Exc) of the function under verification."""
        node = source_of(fn)
        loc = self.bind(node, fn, [], args, st, 0)
        if loc is None:
            raise Unsupported('signature of %s' % fn.__qualname__)
        loc['$fn'] = fn
        loc['$locals'] = local_names(node)
        st.loc = loc
        for s, v in self.body_outs(node, st):
            yield s, v

    def run_spec(self, fn, args, st):
        """Outcomes of a specification function (executed in place, never by contract)."""
        self.spec_depth += 1
        try:
            return list(self.call_ast(source_of(fn), fn, args, {}, st, 0, None))
        finally:
            self.spec_depth -= 1

    def merge_outs(self, outs, saved):
        for s, v in outs:
            s.loc = dict(saved)
        if len(outs) < 2 or any(isinstance(v, Exc) for _, v in outs):
            return outs
        return merge_values(self, outs)

    def body_outs(self, node, st):
        for o in self.ex(node.body, st):
            if o.kind == 'ret':
                yield o.st, o.val
            elif o.kind == 'exc':
                yield o.st, o.val
            elif o.kind == 'next':
                yield o.st, PYNONE
            else:
                raise Unsupported('stray ' + o.kind)

    # ------------------------------------------------------------ statements
    def ex(self, stmts, st):
        if not stmts:
            yield Out('next', st)
            return
        for o in self.ex1(stmts[0], st):
            if o.kind == 'next':
                for p in self.ex(stmts[1:], o.st):
                    yield p
            else:
                yield o

    def ex1(self, n, st):
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %d' % (type(n).__name__, n.lineno))
        if time.process_time() > self.deadline:
            raise Budget('time limit for path exploration')
        return m(n, st)

    def ex_Pass(self, n, st):
        yield Out('next', st)

    ex_Global = ex_Pass

    def ex_Import(self, n, st):
        import importlib
        for a in n.names:
            m = importlib.import_module(a.name)
            st.loc[a.asname or a.name.split('.')[0]] = Py(
                m if a.asname else sys.modules[a.name.split('.')[0]])
        yield Out('next', st)

    def ex_ImportFrom(self, n, st):
        import importlib
        m = importlib.import_module(n.module)
        for a in n.names:
            st.loc[a.asname or a.name] = Py(getattr(m, a.name))
        yield Out('next', st)

    def ex_FunctionDef(self, n, st):
        env = dict(st.loc.get('$clos') or {})
        env.update({k: v for k, v in st.loc.items() if not k.startswith('$')})
        f = F(n, env, st.loc['$fn'])
        st.loc[n.name] = f
        yield Out('next', st)

    def ex_Expr(self, n, st):
        for s, v in self.ev(n.value, st):
            yield Out('exc', s, v) if isinstance(v, Exc) else Out('next', s)

    def ex_Return(self, n, st):
        if n.value is None:
            yield Out('ret', st, PYNONE)
            return
        for s, v in self.ev(n.value, st):
            yield Out('exc', s, v) if isinstance(v, Exc) else Out('ret', s, v)

    def ex_Raise(self, n, st):
        if n.exc is None:
            raise Unsupported('bare raise')
        e = n.exc
        for s, v in self.ev(e.func if isinstance(e, ast.Call) else e, st):
            if isinstance(v, Py) and isinstance(v.obj, type):
                yield Out('exc', s, Exc(v.obj.__name__, n.lineno))
            else:
                raise Unsupported('raise')

    def ex_Assert(self, n, st):
        for s, v in self.ev(n.test, st):
            if isinstance(v, Exc):
                yield Out('exc', s, v)
                continue
            for s2, b in self.fork(s, self.truth(v, s)):
                yield Out('next', s2) if b else Out('exc', s2, Exc('AssertionError', n.lineno))

    def ex_Break(self, n, st):
        yield Out('brk', st)

    def ex_Continue(self, n, st):
        yield Out('cnt', st)

    def ex_If(self, n, st):
        for s, v in self.ev(n.test, st):
            if isinstance(v, Exc):
                yield Out('exc', s, v)
                continue
            for s2, b in self.fork(s, self.truth(v, s)):
                self.refine(n.test, b, s2)
                for o in self.ex(n.body if b else n.orelse, s2):
                    yield o

    def refine(self, test, b, st):
        """Turn optional locals into definite ones after a test."""
        for k, v in list(st.loc.items()):
            if isinstance(v, O) and isinstance(test, ast.AST):
                names = {x.id for x in ast.walk(test) if isinstance(x, ast.Name)}
                if k in names:
                    if self.valid(st, Not(v.isnone), 300):
                        st.loc[k] = v.val
                    elif self.valid(st, v.isnone, 300):
                        st.loc[k] = PYNONE

    def ex_Assign(self, n, st):
        for s, v in self.ev(n.value, st):
            if isinstance(v, Exc):
                yield Out('exc', s, v)
                continue
            todo = [(s, None)]
            for t in n.targets:
                nxt = []
                for s1, e in todo:
                    if e is not None:
                        nxt.append((s1, e))
                        continue
                    nxt.extend(self.assign(t, v, s1))
                todo = nxt
            for s1, e in todo:
                yield Out('next', s1) if e is None else Out('exc', s1, e)

    def ex_AnnAssign(self, n, st):
        if n.value is None:
            yield Out('next', st)
            return
        for o in self.ex_Assign(ast.copy_location(ast.Assign([n.target], n.value), n), st):
            yield o

    def assign(self, t, v, st):
        """[(st, None|Exc)]"""
        if isinstance(t, ast.Name):
            st.loc[t.id] = v
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            v = self.deref(st, v)
            if isinstance(v, T):
                items = v.items
            elif isinstance(v, L):
                items = self.lst(st, v)[1]
            elif isinstance(v, Py) and isinstance(v.obj, (tuple, list)):
                items = [Py(x) for x in v.obj]
            else:
                raise Unsupported('unpacking %r' % (v,))
            if len(items) != len(t.elts):
                return [(st, Exc('ValueError', t.lineno))]
            out = [(st, None)]
            for tt, x in zip(t.elts, items):
                out = [r for s, e in out for r in (self.assign(tt, x, s) if e is None else [(s, e)])]
            return out
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st):
                if isinstance(o, Exc):
                    out.append((s, o))
                    continue
                out.extend(self.setattr_(o, t.attr, v, s, t.lineno))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, vs in self.evs([t.value, t.slice], st):
                if isinstance(vs, Exc):
                    out.append((s, vs))
                    continue
                out.extend(self.setitem(vs[0], vs[1], v, s, t.lineno))
            return out
        raise Unsupported('assignment target')

    def setattr_(self, o, name, v, st, line):
        if isinstance(o, Py) and o.obj is None:
            return [(st, Exc('AttributeError', line))]
        if not isinstance(o, R) or o.cls in RECORDS:
            raise Unsupported('attribute store on %r' % (o,))
        out = []
        for s, isnull in self.fork(st, o.e == null):
            if isnull:
                out.append((s, Exc('AttributeError', line)))
            else:
                self.hset(s, o.e, o.cls, name, v)
                out.append((s, None))
        return out

    def setitem(self, o, i, v, st, line):
        o = self.deref(st, o)
        if isinstance(o, R) and o.cls == 'RefMap':
            k = self.as_str(i)
            if isinstance(v, D):
                v = self.promote(st, v, 'LinkRef')
            if not isinstance(v, R) or v.cls != 'LinkRef':
                raise Unsupported('refmap value')
            a = st.arr('RefMap', '$map')
            st.heap['RefMap.$map'] = z3.Store(a, o.e, z3.Store(z3.Select(a, o.e), k, v.e))
            return [(st, None)]
        if isinstance(o, R) and isinstance(i, Py):
            out = []
            for s, isnull in self.fork(st, o.e == null):
                if isnull:
                    out.append((s, Exc('TypeError', line)))
                    continue
                k = i.obj
                if o.cls in LISTRECS and isinstance(k, int) and k < 0:
                    k += len(SCHEMA[o.cls])
                if k not in SCHEMA.get(o.cls, {}):
                    raise Unsupported('store to unknown key %r of %s' % (k, o.cls))
                if o.cls in MAYBE_EMPTY:
                    for s2, full in self.fork(s, z3.Select(s.arr(o.cls, '$full'), o.e)):
                        if not full:
                            raise Unsupported('store into an empty record')
                        self.hset(s2, o.e, o.cls, k, v)
                        out.append((s2, None))
                    continue
                self.hset(s, o.e, o.cls, k, v)
                out.append((s, None))
            return out
        if isinstance(o, D):
            kind, items = self.lst(st, o)
            d = dict(items)
            if isinstance(i, Py):
                d[i.obj] = v
                st.lists[o.did] = ('dict', tuple(d.items()))
                return [(st, None)]
            out = []
            neg = []
            for k in d:
                c = self.eq(i, Py(k), st)
                if c is False:
                    continue
                s = st.copy()
                s.pc.extend(neg)
                s.pc.append(bval(c))
                neg.append(Not(c))
                if feasible(s.pc):
                    d2 = dict(d)
                    d2[k] = v
                    s.lists[o.did] = ('dict', tuple(d2.items()))
                    out.append((s, None))
            s = st.copy()
            s.pc.extend(neg)
            if feasible(s.pc):
                raise Unsupported('store with an unknown symbolic key')
            return out
        if isinstance(o, L) and isinstance(i, Py):
            kind, items = self.lst(st, o)
            items = list(items)
            try:
                items[i.obj] = v
            except IndexError:
                return [(st, Exc('IndexError', line))]
            st.lists[o.lid] = ('list', tuple(items))
            return [(st, None)]
        raise Unsupported('item store on %r' % (o,))

    def ex_AugAssign(self, n, st):
        load = ast.copy_location(ast.parse(ast.unparse(n.target), mode='eval').body, n)
        for x in ast.walk(load):
            x.lineno = n.lineno
        for s, a in self.ev(load, st):
            if isinstance(a, Exc):
                yield Out('exc', s, a)
                continue
            for s1, b in self.ev(n.value, s):
                if isinstance(b, Exc):
                    yield Out('exc', s1, b)
                    continue
                for s2, v in self.binop(type(n.op).__name__, a, b, s1, n.lineno):
                    if isinstance(v, Exc):
                        yield Out('exc', s2, v)
                        continue
                    for s3, e in self.assign(n.target, v, s2):
                        yield Out('next', s3) if e is None else Out('exc', s3, e)

    def ex_Delete(self, n, st):
        raise Unsupported('del')

    def ex_Try(self, n, st):
        if n.finalbody:
            raise Unsupported('finally')
        for o in self.ex(n.body, st):
            if o.kind == 'exc':
                h = self.handler(n, o)
                if h is None:
                    yield o
                else:
                    if h.name:
                        o.st.loc[h.name] = SET(None, 'exception')
                    for p in self.ex(h.body, o.st):
                        yield p
            elif o.kind == 'next' and n.orelse:
                for p in self.ex(n.orelse, o.st):
                    yield p
            else:
                yield o

    def handler(self, n, o):
        ec = getattr(builtins, o.val.cls, Exception)
        for h in n.handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                hc = getattr(builtins, t.id, None) if isinstance(t, ast.Name) else None
                if hc is None:
                    raise Unsupported('except clause')
                if issubclass(ec, hc):
                    return h
        return None

    # ------------------------------------------------------------ loops
    UNROLL = 40

    def ex_While(self, n, st):
        # run concretely while the condition is decided
        todo, k = [st], 0
        while todo:
            s = todo.pop()
            conc = self.try_concrete(n, s)
            if conc is None:
                for o in self.sym_loop(n, s, WhileHead(n)):
                    yield o
                continue
            s, b = conc
            if not b:
                for o in self.ex(n.orelse, s):
                    yield o
                continue
            k += 1
            if k > self.UNROLL * 8:
                raise Unsupported('unrolling limit')
            for o in self.ex(n.body, s):
                if o.kind in ('next', 'cnt'):
                    todo.append(o.st)
                elif o.kind == 'brk':
                    yield Out('next', o.st)
                else:
                    yield o

    def try_concrete(self, n, st):
        """(state, bool) when the loop test is concrete and the loop is driven by concrete data."""
        if isinstance(n.test, ast.Constant):
            return None
        vs = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
        if not vs or any(isinstance(x, (ast.Attribute, ast.Call)) for x in ast.walk(n.test)):
            return None
        if not all(isinstance(st.loc.get(v), Py) and isinstance(st.loc[v].obj, (int, bool))
                   for v in vs):
            return None
        rs = list(self.ev(n.test, st.copy()))
        if len(rs) != 1 or not isinstance(rs[0][1], Py):
            return None
        if len(vs & assigned(n.body)) == 0 and rs[0][1].obj:
            return None
        # flags that flip inside the loop (True/False locals) are not counters
        if any(isinstance(st.loc[v].obj, bool) for v in vs):
            if rs[0][1].obj:
                return None
        return st, bool(rs[0][1].obj)

    def ex_For(self, n, st):
        for s, it in self.ev(n.iter, st):
            if isinstance(it, Exc):
                yield Out('exc', s, it)
                continue
            for o in self.for_over(n, it, s):
                yield o

    def for_over(self, n, it, st):
        items = None
        it = self.deref(st, it)
        if isinstance(it, Py) and isinstance(it.obj, (list, tuple, range, str, dict, set)):
            items = [Py(x) for x in it.obj]
        elif isinstance(it, T):
            items = list(it.items)
        elif isinstance(it, L):
            items = list(self.lst(st, it)[1])
        elif isinstance(it, D):
            items = [Py(k) for k, _ in self.lst(st, it)[1]]
        if items is not None:
            if len(items) > self.UNROLL * 4:
                raise Unsupported('large constant loop')
            for o in self.unroll(n, items, st):
                yield o
            return
        if isinstance(it, SET) and it.what == 'range':
            lo, hi = it.e
            for o in self.sym_loop(n, st, RangeHead(n, lo, hi)):
                yield o
            return
        if isinstance(it, SL):
            for o in self.sym_loop(n, st, SeqHead(n, it)):
                yield o
            return
        if isinstance(it, R):
            for s, w in self.getattr_(it, '__iter__', st, n.lineno):
                if isinstance(w, Exc):
                    yield Out('exc', s, Exc('TypeError', n.lineno))
                    continue
                for s2, w2 in self.call(w, [], {}, s, n.lineno):
                    if isinstance(w2, Exc):
                        yield Out('exc', s2, w2)
                        continue
                    for o in self.sym_loop(n, s2, IterHead(n, w2)):
                        yield o
            return
        if isinstance(it, SET):
            for o in self.sym_loop(n, st, OpaqueHead(n, it)):
                yield o
            return
        raise Unsupported('iteration over %r' % (it,))

    def unroll(self, n, items, st):
        if not items:
            for o in self.ex(n.orelse, st):
                yield o
            return
        for s, e in self.assign(n.target, items[0], st):
            if e is not None:
                yield Out('exc', s, e)
                continue
            for o in self.ex(n.body, s):
                if o.kind in ('next', 'cnt'):
                    for p in self.unroll(n, items[1:], o.st):
                        yield p
                elif o.kind == 'brk':
                    yield Out('next', o.st)
                else:
                    yield o

    def sym_loop(self, n, st, head):
        from .loops import run_loop
        return run_loop(self, n, st, head)


def simp_bool(e):
    s = z3.simplify(e)
    if z3.is_true(s) or z3.is_false(s):
        return s
    return e


REP = z3.Function('str_repeat', Str, z3.IntSort(), Str)
INT2STR = z3.Function('int_str', z3.IntSort(), Str)
INTLANG = rl.cat(rl.alt(rl.EPS, rl.lit('-')), rl.loop(rl.cls('[0-9]'), 1, None))
INDEX_HOOKS = []


def assigned(stmts):
    out = set()
    for x in stmts:
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)):
                out.add(y.id)
            elif isinstance(y, (ast.FunctionDef,)):
                out.add(y.name)
    return out


def local_names(fn):
    return assigned(fn.body) | {a.arg for a in fn.args.args}


def merge_kind(vs):
    """A function building the merged value from guards, or None."""
    return None


def merge_values(eng, outs):
    """Join outcomes of an inlined call that differ only in path condition and value."""
    s0 = outs[0][0]
    for s, v in outs[1:]:
        if s.lists != s0.lists or s.alloc is not s0.alloc:
            return outs
        ks = set(s.heap) | set(s0.heap)
        for k in ks:
            a, b = s.heap.get(k), s0.heap.get(k)
            if a is None or b is None:
                x = a if b is None else b
                if not x.eq(base_array(k, s.pre)):
                    return outs
            elif a is not b and not a.eq(b):
                return outs
    # common prefix of path conditions
    n = 0
    while all(len(s.pc) > n for s, _ in outs) and all(s.pc[n] is s0.pc[n] or s.pc[n].eq(s0.pc[n])
                                                     for s, _ in outs[1:]):
        n += 1
    guards = [And(*s.pc[n:]) for s, _ in outs]
    v = join([(g, v) for g, (_, v) in zip(guards, outs)])
    if v is None:
        return outs
    m = s0.copy()
    for s, _ in outs:
        for k, a in s.heap.items():
            m.heap.setdefault(k, a)
    m.pc = s0.pc[:n] + [Or(*guards)]
    m.loc = s0.loc
    return [(m, v)]


def join(gvs):
    """ite-combination of guarded values of compatible kinds."""
    vals = [v for _, v in gvs]
    if all(isinstance(v, Py) for v in vals) and all(v.obj is vals[0].obj or
                                                    (type(v.obj) is type(vals[0].obj) and
                                                     isinstance(v.obj, (str, int)) and
                                                     v.obj == vals[0].obj) for v in vals):
        return vals[0]

    def isnone(v):
        return isinstance(v, Py) and v.obj is None

    def kind(v):
        if isnone(v):
            return 'none'
        if isinstance(v, B) or isinstance(v, Py) and isinstance(v.obj, bool):
            return 'b'
        if isinstance(v, I) or isinstance(v, Py) and isinstance(v.obj, int):
            return 'i'
        if isinstance(v, S) or isinstance(v, Py) and isinstance(v.obj, str):
            return 's'
        if isinstance(v, R):
            return 'r' + v.cls
        if isinstance(v, O):
            return 'o' + (kind(v.val) or '?')
        return None

    ks = {kind(v) for v in vals}
    if None in ks:
        return None
    base = {k[1:] if k.startswith('o') else k for k in ks if k != 'none'}
    if len(base) != 1:
        return None
    b = base.pop()
    if '?' in b:
        return None
    opt = 'none' in ks or any(k.startswith('o') for k in ks)

    def term(v):
        if isinstance(v, O):
            v = v.val
        if b == 'b':
            return z3.BoolVal(v.obj) if isinstance(v, Py) else v.e
        if b == 'i':
            return z3.IntVal(v.obj) if isinstance(v, Py) else v.e
        if b == 's':
            return strval(v.obj) if isinstance(v, Py) else v.e
        return v.e
    if b.startswith('r'):
        e = None
        for g, v in reversed(gvs):
            t = null if isnone(v) else v.e
            e = t if e is None else Ite(g, t, e)
        return R(e, b[1:])
    e = None
    for g, v in reversed([x for x in gvs if not isnone(x[1])]):
        t = term(v)
        e = t if e is None else Ite(g, t, e)
    out = {'b': B, 'i': I, 's': S}[b](e)
    if opt:
        nn = Or(*[And(g, TRUE if isnone(v) else bval(v.isnone))
                  for g, v in gvs if isnone(v) or isinstance(v, O)])
        return O(nn, out)
    return out


# ---------------------------------------------------------------- loop heads
class WhileHead(object):
    """Evaluates the loop test; yields (st, bool|Exc)."""

    def __init__(self, n):
        self.n = n
        self.locals = {}

    def start(self, eng, st):
        pass

    def test(self, eng, st):
        for s, v in eng.ev(self.n.test, st):
            if isinstance(v, Exc):
                yield s, v
                continue
            for s2, b in eng.fork(s, eng.truth(v, s)):
                eng.refine(self.n.test, b, s2)
                yield s2, b


class RangeHead(object):
    def __init__(self, n, lo, hi):
        self.n, self.lo, self.hi = n, lo, hi
        self.key = '$i%d' % n.lineno

    def start(self, eng, st):
        st.loc[self.key] = I(self.lo)

    def inv(self, eng, st):
        i = st.loc[self.key].e
        return [i >= self.lo, z3.Or(i <= self.hi, i == self.lo)]

    def variant(self, st):
        return self.hi - st.loc[self.key].e

    def test(self, eng, st):
        i = eng.as_int(st.loc[self.key])
        for s, b in eng.fork(st, i < self.hi):
            if b:
                s.loc[self.key] = I(i + 1)
                for s2, e in eng.assign(self.n.target, I(i), s):
                    yield s2, True if e is None else e
            else:
                yield s, False


class SeqHead(RangeHead):
    def __init__(self, n, sl):
        RangeHead.__init__(self, n, z3.IntVal(0), sl.n)
        self.sl = sl

    def test(self, eng, st):
        i = eng.as_int(st.loc[self.key])
        for s, b in eng.fork(st, i < self.hi):
            if b:
                s.loc[self.key] = I(i + 1)
                for s2, e in eng.assign(self.n.target, S(z3.Select(self.sl.arr, i)), s):
                    yield s2, True if e is None else e
            else:
                yield s, False


class IterHead(object):
    def __init__(self, n, it):
        self.n, self.it = n, it

    def start(self, eng, st):
        pass

    def test(self, eng, st):
        for s, f in eng.getattr_(self.it, '__next__', st, self.n.lineno):
            if isinstance(f, Exc):
                yield s, f
                continue
            for s2, v in eng.call(f, [], {}, s, self.n.lineno):
                if isinstance(v, Exc):
                    yield s2, False if v.cls == 'StopIteration' else v
                    continue
                for s3, e in eng.assign(self.n.target, v, s2):
                    yield s3, True if e is None else e


class OpaqueHead(object):
    """Unknown finite sequence; elements made by the opaque value's factory."""

    def __init__(self, n, it):
        self.n, self.it = n, it

    def start(self, eng, st):
        pass

    def test(self, eng, st):
        b = fresh('more', z3.BoolSort())
        for s, m in eng.fork(st, b):
            if not m:
                yield s, False
                continue
            x = self.it.e(eng, s)
            for s2, e in eng.assign(self.n.target, x, s):
                yield s2, True if e is None else e
