"""Loops: cut with inductive invariants.

The loop head state keeps what the loop cannot change and forgets (havocs) assigned locals and the
heap entries the body can write.  Invariants are candidates (templates below and the generators of
the contract); those that do not hold on entry, or are not preserved by an arbitrary iteration
under the assumption of all remaining ones, are dropped until the rest is inductive (Houdini).
Only the last run, under proved invariants, records obligations and leaves the loop.
"""
import ast
import itertools
import os

import z3

from . import engine as E
from .engine import (And, Or, Not, Implies, Ite, bval, fresh, TRUE, FALSE, Out, Exc, Unsupported,
                     Py, PYNONE, slen, char_at, check, feasible)
from .vals import *
from .vals import V
from .langs import lemmas


class LoopView(object):
    """What candidate generators see: current state, loop entry, function entry."""

    def __init__(self, eng, n, st, entry, changed):
        self.eng, self.n, self.st, self.entry, self.changed = eng, n, st, entry, changed
        self.args = getattr(eng, 'entry_args', {})
        self.pre = getattr(eng, 'prestate', None)
        self.fn = st.loc['$fn'].__name__
        self.line = n.lineno

    def loc(self, name):
        return self.st.loc.get(name)

    def sel(self, ref, cls, attr, flag='', st=None):
        st = st or self.st
        own, kind = owner(cls, attr)
        return z3.Select(st.arr(own if own is not None else cls, attr, flag), ref)

    def now(self, ref, attr, cls='Node', flag=''):
        return self.sel(ref, cls, attr, flag)

    def at_entry(self, ref, attr, cls='Node', flag=''):
        return self.sel(ref, cls, attr, flag, self.entry)

    def old(self, ref, attr, cls='Node', flag=''):
        return self.sel(ref, cls, attr, flag, self.pre)

    def locals_of(self, cls):
        for k, v in sorted(self.st.loc.items()):
            if isinstance(v, cls) and not (k.startswith('$') and not k.startswith('$i')):
                yield k, v


def fresh_after(e, n0, _memo=None):
    """Does the term contain a constant created after counter n0?"""
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if '!' in nm and nm.rsplit('!', 1)[1].isdigit() and int(nm.rsplit('!', 1)[1]) >= n0:
                return True
        todo.extend(x.children())
    return False


def chain(a):
    refs = []
    while z3.is_app_of(a, z3.Z3_OP_STORE):
        refs.append(a.arg(1))
        a = a.arg(0)
    return a, refs


class Plan(object):
    """What a loop changes."""

    def __init__(self):
        self.locs = {}       # name -> kind string or 'drop'
        self.heap = {}       # key -> {'fixed': [refs], 'new': bool, 'all': bool}
        self.alloc = False
        self.lists = {}      # list id -> kind

    def sig(self):
        return (tuple(sorted(self.locs.items())), self.alloc, tuple(sorted(self.lists.items())),
                tuple(sorted((k, len(v['fixed']), v['new'], v['all']) for k, v in self.heap.items())))


def kind_of(v):
    if isinstance(v, Py):
        o = v.obj
        if o is None:
            return 'none'
        if isinstance(o, bool):
            return 'bool'
        if isinstance(o, int):
            return 'int'
        if isinstance(o, str):
            return 'str'
        return None
    if isinstance(v, B):
        return 'bool'
    if isinstance(v, I):
        return 'int'
    if isinstance(v, S):
        return 'str'
    if isinstance(v, R):
        return 'ref:' + v.cls
    if isinstance(v, En):
        return 'enum:' + v.dom
    if isinstance(v, M):
        return 'match'
    if isinstance(v, O):
        k = kind_of(v.val)
        return None if k is None else 'opt:' + k
    return None


def join_kinds(a, b):
    if a == b:
        return a
    if 'drop' in (a, b) or a is None or b is None:
        return 'drop'
    if a == 'none':
        a, b = b, a
    if b == 'none':
        if a.startswith(('ref:', 'opt:')) or a == 'match':
            return a
        return 'opt:' + a
    if a.startswith('opt:') or b.startswith('opt:'):
        x = join_kinds(a[4:] if a.startswith('opt:') else a, b[4:] if b.startswith('opt:') else b)
        return x if x == 'drop' else 'opt:' + x
    if {a, b} == {'bool', 'int'}:
        return 'drop'
    if a.startswith('enum:') and b == 'str' or b.startswith('enum:') and a == 'str':
        return 'drop'
    return 'drop'


def same_value(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Py):
        return a.obj is b.obj or (type(a.obj) is type(b.obj) and
                                  isinstance(a.obj, (str, int, bool)) and a.obj == b.obj)
    if isinstance(a, (I, B, S)):
        return a.e.eq(b.e)
    if isinstance(a, R):
        return a.cls == b.cls and a.e.eq(b.e)
    if isinstance(a, O):
        return bval(a.isnone).eq(bval(b.isnone)) and same_value(a.val, b.val)
    if isinstance(a, L):
        return a.lid == b.lid
    if isinstance(a, D):
        return a.did == b.did
    if isinstance(a, T):
        return len(a.items) == len(b.items) and all(same_value(x, y) for x, y in zip(a.items, b.items))
    return False


def havoc_kind(kind, name, st):
    from .contract import freshval
    if kind == 'match':
        f = fresh(name + '$found', z3.BoolSort())
        raise Unsupported('match object carried around a loop')
    return freshval(kind, name, st)


def make_head(eng, st, plan, n0):
    """An arbitrary state at the loop head."""
    h = st.copy()
    if plan.alloc:
        a2 = fresh('alloc', st.alloc.sort())
        r = z3.Const('r$al', Ref)
        h.pc.append(z3.ForAll([r], z3.Implies(z3.Select(st.alloc, r), z3.Select(a2, r)),
                              patterns=[z3.Select(a2, r)]))
        h.alloc = a2
    for name, kind in plan.locs.items():
        if kind == 'drop':
            h.loc.pop(name, None)
        elif kind == 'none':
            h.loc[name] = PYNONE
        else:
            h.loc[name] = havoc_kind(kind, name, h)
    for lid, kind in plan.lists.items():
        h.lists[lid] = havoc_list(eng, h, lid, kind)
    for key, w in plan.heap.items():
        from .contract import arr_of
        a = arr_of(st, key)
        if w['all']:
            h.heap[key] = fresh(key, a.sort())
        elif w['new']:
            b = fresh(key, a.sort())
            r = z3.Const('r$hv', Ref)
            h.pc.append(z3.ForAll([r], z3.Implies(
                And(z3.Select(st.alloc, r), *[r != x for x in w['fixed']]),
                z3.Select(b, r) == z3.Select(a, r)), patterns=[z3.Select(b, r)]))
            h.heap[key] = b
        else:
            for x in w['fixed']:
                a = z3.Store(a, x, fresh('hv', a.sort().range()))
            h.heap[key] = a
    if eng.contract is not None and eng.contract.inv:
        checkpoint(h)
    return h


def as_at_head(eng, plan, st):
    """The state with the locals the loop changes as values of the kinds they have at its head."""
    out = st.copy()
    for name, kind in plan.locs.items():
        v = out.loc.get(name)
        if kind == 'drop':
            out.loc.pop(name, None)
        elif v is not None and kind not in ('none', 'match') and not isinstance(v, (L, D)) and eng.contract is not None:
            x = eng.contract.conv(eng, v, kind, out)
            if x is not None:
                out.loc[name] = x
    out.pc, out.heap = st.pc, st.heap
    return out


def havoc_list(eng, h, lid, kind):
    k, items = h.lists[lid]
    if k != 'dict':
        raise Unsupported('list changed in a loop')
    out = []
    for (key, v), kd in zip(items, kind):
        out.append((key, v if kd is None else havoc_kind(kd, 'd', h)))
    return ('dict', tuple(out))


def observe(eng, plan, entry, head, s, n0):
    """Extend the plan by what back-edge state s changed; True when it grew."""
    old = plan.sig()
    for name in set(entry.loc) | set(s.loc):
        if name.startswith('$') and not name.startswith('$i'):
            continue
        a, b = entry.loc.get(name), s.loc.get(name)
        hv = head.loc.get(name)
        if a is not None and b is not None and hv is not None and same_value(a, b) and \
                name not in plan.locs:
            continue
        if a is None or b is None:
            if a is None and b is None:
                continue
            plan.locs[name] = 'drop'
            continue
        cur = plan.locs.get(name)
        if cur == 'drop':
            continue
        if cur is None and same_value(a, b):
            continue
        k = join_kinds(kind_of(a), kind_of(b))
        plan.locs[name] = k if cur is None else join_kinds(cur, k)
    if s.alloc is not head.alloc and not s.alloc.eq(head.alloc):
        plan.alloc = True
    for key, a in s.heap.items():
        b = head.heap.get(key)
        if b is None:
            b = base_array(key, head.pre)
            head.heap[key] = b
        if a is b or a.eq(b):
            continue
        w = plan.heap.setdefault(key, {'fixed': [], 'new': False, 'all': False})
        if w['all']:
            continue
        base, refs = chain(a)
        hbase, hrefs = chain(b)
        if not base.eq(hbase):
            w['all'] = True
            continue
        hid = {x.get_id() for x in hrefs}
        for x in refs:
            if any(x.eq(y) for y in w['fixed']):
                continue
            if x.get_id() in hid and refs == hrefs:
                continue
            if not fresh_after(x, n0):
                w['fixed'].append(x)
            elif eng.valid(s, Not(z3.Select(entry.alloc, x)), 500):
                w['new'] = True
            else:
                # the written reference varies; one of the fixed ones?
                fixed = None
                for y in w['fixed']:
                    if eng.valid(s, x == y, 300):
                        fixed = y
                        break
                if fixed is None:
                    w['all'] = True
                    break
    for lid, v in s.lists.items():
        if lid in head.lists and lid in entry.lists:
            if head.lists[lid] != v:
                if v[0] != 'dict' or entry.lists[lid][0] != 'dict' or \
                        [k for k, _ in v[1]] != [k for k, _ in entry.lists[lid][1]]:
                    raise Unsupported('list changed in a loop')
                cur = list(plan.lists.get(lid) or [None] * len(v[1]))
                for i, ((_, x), (_, y)) in enumerate(zip(entry.lists[lid][1], v[1])):
                    if cur[i] is None and not same_value(x, y):
                        cur[i] = join_kinds(kind_of(x), kind_of(y))
                    elif cur[i] is not None:
                        cur[i] = join_kinds(cur[i], kind_of(y))
                    if cur[i] == 'drop':
                        raise Unsupported('dict entry of varying kind in a loop')
                plan.lists[lid] = tuple(cur)
    return plan.sig() != old


# ---------------------------------------------------------------- candidates
def int_terms(eng, st, plan, entry):
    """[(name, now, at entry)] of integers the loop changes."""
    out = []
    for name, kind in sorted(plan.locs.items()):
        if kind == 'int':
            a = eng.as_int(entry.loc[name])
            b = eng.as_int(st.loc[name])
            if a is not None and b is not None:
                out.append((name, b, a))
    for key, w in sorted(plan.heap.items()):
        if w['all'] or w['new'] or key[-1] in '?!' or key.startswith('ghost') or '$' in key:
            continue
        cls, attr = key.split('.', 1)
        kind = SCHEMA[cls].get(attr) or SCHEMA[cls].get(int(attr) if attr.isdigit() else attr)
        if kind == 'int':
            for x in w['fixed']:
                out.append((key, z3.Select(st.heap[key], x), z3.Select(E_arr(entry, key), x)))
    return out


def E_arr(st, key):
    from .contract import arr_of
    return arr_of(st, key)


def str_terms(eng, st, plan):
    """Strings the loop does not change."""
    out = []
    for name, v in sorted(st.loc.items()):
        if name in plan.locs or name.startswith('$'):
            continue
        e = eng.as_str(v)
        if e is not None and not z3.is_string_value(e):
            out.append(e)
        if isinstance(v, R) and v.cls in ('InlineParser', 'Parser'):
            for attr in ('subject', 'current_line'):
                own, kind = owner(v.cls, attr)
                if own and kind == 'str' and not plan.heap.get('%s.%s' % (own, attr)):
                    out.append(z3.Select(st.arr(own, attr), v.e))
    seen, res = set(), []
    for e in out:
        e = z3.simplify(e)
        if e.get_id() not in seen:
            seen.add(e.get_id())
            res.append(e)
    return res


def templates(eng, n, plan, entry):
    """Candidate generators f(st) -> [(name, formula)] in a fixed order."""
    def gen(st):
        out = []
        ints = int_terms(eng, st, plan, entry)
        strs = str_terms(eng, st, plan)
        fixed = []
        for name, v in sorted(st.loc.items()):
            if name not in plan.locs and not name.startswith('$') and isinstance(v, I):
                fixed.append((name, v.e))
        bools = [(name, v.e) for name, v in sorted(st.loc.items())
                 if name not in plan.locs and not name.startswith('$') and isinstance(v, B)]
        for nm, t, t0 in ints:
            out.append((nm + ' >= entry', t >= t0))
            out.append((nm + ' <= entry', t <= t0))
            out.append((nm + ' >= 0', t >= 0))
            out.append((nm + ' >= 0 as at entry', Implies(t0 >= 0, t >= 0)))
            out.append((nm + ' >= 1', t >= 1))
            for fn, f in fixed:
                out.append(('%s <= %s' % (nm, fn), t <= f))
                out.append(('%s >= %s' % (nm, fn), t >= f))
            for k, s in enumerate(strs):
                out.append(('%s <= len %d' % (nm, k), t <= slen(s)))
        for (n1, t1, a1), (n2, t2, a2) in itertools.combinations(ints, 2):
            out.append(('%s - %s' % (n1, n2), t1 - t2 == a1 - a2))
            out.append(('%s + %s' % (n1, n2), t1 + t2 == a1 + a2))
            for bn, b in bools:
                for pol, bb in (('', b), ('not ', Not(b))):
                    out.append(('%s%s: %s - %s' % (pol, bn, n1, n2), Implies(bb, t1 - t2 == a1 - a2)))
                    out.append(('%s%s: %s + %s' % (pol, bn, n1, n2), Implies(bb, t1 + t2 == a1 + a2)))
            out.append(('%s <= %s' % (n1, n2), t1 <= t2))
            out.append(('%s >= %s' % (n1, n2), t1 >= t2))
            out.append(('%s moves at least as %s' % (n1, n2), t1 - a1 >= t2 - a2))
            out.append(('%s moves at least as %s' % (n2, n1), t2 - a2 >= t1 - a1))
        for name, kind in sorted(plan.locs.items()):
            v = st.loc.get(name)
            if v is None:
                continue
            a = entry.loc.get(name)
            if isinstance(v, R):
                out.append((name + ' not None', v.e != null))
            if isinstance(v, B):
                out.append((name, v.e))
                out.append(('not ' + name, Not(v.e)))
            if isinstance(v, O):
                out.append((name + ' not None', Not(v.isnone)))
            e = v.val.e if isinstance(v, O) and isinstance(v.val, S) else \
                v.e if isinstance(v, S) else None
            if e is not None:
                pos = [(nm, t) for nm, t, _ in ints]
                for nm, t in pos:
                    for k, s in enumerate(strs):
                        here = And(t >= 0, e == char_at(s, t))
                        if isinstance(v, O):
                            out.append(('%s is the character at %s' % (name, nm),
                                        Ite(v.isnone, t >= slen(s), And(here, t < slen(s)))))
                        else:
                            out.append(('%s is the character at %s' % (name, nm), here))
                out.append((name + ' is a character', z3.Length(e) == 1))
                if a is not None and isinstance(v, S) and eng.as_str(a) is not None:
                    out.append((name + ' extends its entry value',
                                z3.PrefixOf(eng.as_str(a), e)))
        # bool/ref fields of fixed objects
        for key, w in sorted(plan.heap.items()):
            if w['all'] or w['new'] or key.startswith('ghost') or '$' in key:
                continue
            for x in w['fixed']:
                cur = z3.Select(st.heap[key], x)
                if cur.sort() == z3.BoolSort():
                    out.append((key, cur))
                    out.append(('not ' + key, Not(cur)))
                    out.append((key + ' unchanged', cur == z3.Select(E_arr(entry, key), x)))
                elif cur.sort() == Ref:
                    out.append((key + ' not None', cur != null))
        return out
    return gen


STAT = {'invariants': 0, 'rounds': 0}


def run_loop(eng, n, st, head):
    n0 = next(E._ctr)
    if not hasattr(head, 'key'):
        head.key = None
    head.start(eng, st)
    plan = Plan()
    was = eng.recording
    # ---- what does the loop change?
    for name in E.assigned(n.body) | (E.assigned([n.target]) if isinstance(n, ast.For) else set()):
        if name not in st.loc:
            plan.locs[name] = 'drop'
    eng.recording = False
    try:
        for rnd in range(12):
            h = make_head(eng, st, plan, n0)
            for g in loop_assumptions(eng, n, head, h, st):
                h.pc.append(g)
            grew = False
            for s in back_edges(eng, n, h, head):
                grew |= observe(eng, plan, st, h, s, n0)
            if not grew:
                break
        else:
            raise Unsupported('loop at line %d: no fixpoint of changed state' % n.lineno)
        # ---- candidates
        gens = [templates(eng, n, plan, st)]

        def contract_cands(s):
            lv = LoopView(eng, n, s, st, plan)
            out = []
            for f in (eng.contract.loops if eng.contract is not None else ()):
                out.extend(f(lv) or [])
            return out
        if eng.contract is not None and eng.contract.loops:
            gens.append(contract_cands)

        inv = eng.contract.inv if eng.contract is not None else ()
        anyobj = z3.Const('any_object', Ref)

        def heap_invariants(s):
            return [('heap invariant ' + nm, z3.Implies(
                And(anyobj != null, z3.Select(s.alloc, anyobj)), bval(HEAPINV[nm][2](s, anyobj))))
                for nm in inv]
        if inv:
            gens.append(heap_invariants)
            for nm in inv:
                for cp in st.cps:
                    st.pc.append(z3.Implies(And(anyobj != null, z3.Select(cp.alloc, anyobj)),
                                            bval(HEAPINV[nm][2](cp, anyobj))))

        def cands(s):
            # the same candidate in every state: found by its name, on locals of the kinds of the loop head
            s = as_at_head(eng, plan, s)
            out, count = [], {}
            for gi, g in enumerate(gens):
                for c in g(s):
                    i = count[gi, c[0]] = count.get((gi, c[0]), -1) + 1
                    out.append(((gi, c[0], i), c[0], bval(c[1])))
            return out

        alive, dropped = {}, []
        todo = []
        for key, nm, g in cands(st):
            g = z3.simplify(g)
            if z3.is_false(g) and not nm.startswith('heap inv'):
                continue
            todo.append((key, nm, g))
        for (key, nm, g), ok in zip(todo, prove_each(eng, st, [g for _, _, g in todo], hard=[k[0] > 0 for k, _, _ in todo])):
            if ok:
                alive[key] = nm
            elif DEBUG == '*' and key[0] > 0:
                print('   at entry', nm, 'line', n.lineno, flush=True)
            elif DEBUG and DEBUG in nm:
                debug('entry: ' + nm, st, g)
        prev = None
        while True:
            STAT['rounds'] += 1
            h = make_head(eng, st, plan, n0)
            for g in loop_assumptions(eng, n, head, h, st):
                h.pc.append(g)
            assume = [(k, nm, g) for k, nm, g in cands(h) if k in alive]
            for k, nm, g in assume:
                h.pc.append(g)
            h0 = h.copy()
            dead = set()
            for s in back_edges(eng, n, h, head):
                for nm in inv:          # proved at calls on the way: for every object, so for this one
                    for cp in s.cps:
                        s.pc.append(z3.Implies(And(anyobj != null, z3.Select(cp.alloc, anyobj)),
                                               bval(HEAPINV[nm][2](cp, anyobj))))
                todo = [(k, nm, g) for k, nm, g in cands(s) if k in alive and k not in dead]
                for (k, nm, g), ok in zip(todo, prove_each(
                        eng, s, [z3.simplify(x) for _, _, x in todo], hard=[k[0] > 0 for k, _, _ in todo])):
                    if not ok:
                        dead.add(k)
                        if DEBUG == '*' and k[0] > 0:
                            print('   dropped', nm, 'line', n.lineno, flush=True)
                        if DEBUG and DEBUG in nm:
                            debug(nm, s, g)
            for k in dead:
                dropped.append(alive.pop(k))
            if not dead:
                break
        for nm in inv:
            if (len(gens) - 1, 'heap invariant ' + nm, 0) not in alive:
                raise Unsupported('heap invariant %s not kept by the loop at line %d' % (nm, n.lineno))
    finally:
        eng.recording = was
    STAT['invariants'] += len(alive)
    eng.loopinfo['%s:%d' % (st.loc['$fn'].__name__, n.lineno)] = sorted(set(alive.values()))
    h = h0
    # ---- the run that counts
    terminates = eng.contract is not None and eng.contract.terminates and was
    variants = None
    if terminates:
        variants = variant_terms(eng, n, plan, st, head)
        ok = list(range(len(variants(h))))
        edges = []
        eng.recording = False
        try:
            for s in back_edges(eng, n, h.copy(), head):
                edges.append(s.copy())
        finally:
            eng.recording = was
        hv = variants(h)
        for s in edges:
            if not ok:
                break
            sv = variants(s)
            own = own_variants(eng, n, plan, st, h)
            ok = [i for i in ok if (eng.valid(s, decreases(hv[i][1], sv[i][1]), 700) if i >= own else
                                    E.prove(s.pc, decreases(hv[i][1], sv[i][1]), 6000)[0] == 'valid')]
        eng.oblige(h, TRUE if (ok or not edges) else FALSE,
                   'the loop at line %d of %s ends' % (n.lineno, st.loc['$fn'].__name__),
                   frozenset(['*']), n.lineno, 'variant')
    for s, b in head.test(eng, h):
        if isinstance(b, Exc):
            yield Out('exc', s, b)
            continue
        if not b:
            for o in eng.ex(n.orelse, s):
                yield o
            continue
        for o in eng.ex(n.body, s):
            if o.kind in ('next', 'cnt'):
                continue
            if o.kind == 'brk':
                yield Out('next', o.st)
            else:
                yield o


DEBUG = os.environ.get('PYVC_LOOP', '')


def debug(nm, s, g):
    r, sv = check(list(s.pc) + [Not(g)], 5000, 0, True)
    print('dropped', nm, r)
    if r == z3.sat:
        print(z3.simplify(g))
        m = sv.model()
        print({k: str(m.eval(v.e)) for k, v in s.loc.items() if hasattr(v, 'e') and z3.is_expr(v.e)})
        print(str(m)[:3000])


def decreases(a, b):
    """Lexicographic: b < a, each component bounded below by 0."""
    if not isinstance(a, (list, tuple)):
        a, b = [a], [b]
    out = FALSE
    for i in reversed(range(len(a))):
        out = Or(And(b[i] < a[i], a[i] >= 0), And(b[i] == a[i], out))
    return out


def own_variants(eng, n, plan, entry, st):
    """How many of the terms are those of the contract (they come first)."""
    k = 0
    for g in getattr(eng.contract, 'variants', ()):
        k += len(g(LoopView(eng, n, st, entry, plan)) or [])
    return k


def variant_terms(eng, n, plan, entry, head):
    def f(st):
        out = []
        if eng.contract is not None:
            for g in getattr(eng.contract, 'variants', ()):
                out.extend(g(LoopView(eng, n, st, entry, plan)) or [])
        if hasattr(head, 'variant'):
            out.append(('head', head.variant(st)))
        ints = int_terms(eng, st, plan, entry)
        strs = str_terms(eng, st, plan)
        for nm, t, _ in ints:
            for s in strs:
                out.append(('len - ' + nm, slen(s) - t))
            out.append((nm, t))
            for name, v in sorted(st.loc.items()):
                if name not in plan.locs and isinstance(v, I):
                    out.append(('%s - %s' % (name, nm), v.e - t))
        for name, kind in sorted(plan.locs.items()):
            v = st.loc.get(name)
            if isinstance(v, S):
                out.append(('len ' + name, slen(v.e)))
            if isinstance(v, SL):
                out.append(('len ' + name, v.n))
        return out
    return f


def loop_assumptions(eng, n, head, h, entry):
    out = list(head.inv(eng, h)) if hasattr(head, 'inv') else []
    for cls, trig, f in eng.contract.defs if eng.contract is not None else ():
        out += [z3.Implies(v.e != null, bval(f(eng.prestate, v.e)))
                for k, v in sorted(h.loc.items()) if isinstance(v, R) and v.cls == cls]
    return out


def back_edges(eng, n, h, head):
    for s, b in head.test(eng, h.copy()):
        if isinstance(b, Exc) or not b:
            continue
        for o in eng.ex(n.body, s):
            if o.kind in ('next', 'cnt'):
                yield o.st


def prove_each(eng, st, goals, timeout=900, hard=None):
    """Which goals follow from the path condition: first all at once, then one by one.  hard: goals
    a contract asks for, worth more time."""
    if not goals:
        return []
    goals = [bval(g) for g in goals]
    open_ = [i for i, g in enumerate(goals) if not z3.is_true(g)]
    res = [True] * len(goals)
    if not open_:
        return res
    pc = list(st.pc)
    allg = And(*[goals[i] for i in open_])
    r, s = check(pc + [Not(allg)], timeout * 2, 0, True)
    if r == z3.unsat:
        return res
    for i in open_:
        r1, _ = check(pc + [Not(goals[i])], timeout, 0, True)
        res[i] = r1 == z3.unsat
        if not res[i] and hard and hard[i]:
            res[i] = E.prove(pc, goals[i], 7900)[0] == 'valid'
    return res
