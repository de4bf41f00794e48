"""Tree surgery and walking (C05, C06).

Ghost view of a tree: len(p) children, kid(p, i) the i-th, pos(c) the index of c among its siblings.
VIEW relates it to the pointers; every operation must turn a heap that has view K into one that has
the view the operation describes (remove the node from its list, insert it at the place asked for).
"""
import z3
from pyvc.contract import Contract, ens, Env
from pyvc import engine as E, relang as rl
from pyvc.engine import And, Or, Not, Implies, Ite, bval
from pyvc.vals import *

CONTRACTS = []
NODE = 'commonmark.node.Node.'
kid0 = z3.Function('kid', Ref, z3.IntSort(), Ref)
len0 = z3.Function('nkids', Ref, z3.IntSort())
pos0 = z3.Function('pos', Ref, z3.IntSort())
par0 = z3.Function('par', Ref, Ref)


def add(*a, **k):
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


class View(object):
    """Children lists: kid(p, i), n(p), pos(c), par(c)."""

    def __init__(self, kid, n, pos, par):
        self.kid, self.n, self.pos, self.par = kid, n, pos, par


OLD = View(lambda p, i: kid0(p, i), lambda p: len0(p), lambda c: pos0(c), lambda c: par0(c))


def removed(v, c):
    """The view after taking c out of its parent's list (unchanged if it has no parent)."""
    q, j = v.par(c), v.pos(c)
    there = lambda p: And(q != null, p == q)
    return View(lambda p, i: Ite(And(there(p), i >= j), v.kid(p, i + 1), v.kid(p, i)),
                lambda p: v.n(p) - Ite(there(p), z3.IntVal(1), z3.IntVal(0)),
                lambda x: Ite(And(q != null, v.par(x) == q, v.pos(x) > j), v.pos(x) - 1, v.pos(x)),
                lambda x: Ite(x == c, null, v.par(x)))


def inserted(v, p0, j, c):
    """The view after inserting the unattached node c into the list of p0 at index j."""
    here = lambda p: p == p0
    return View(lambda p, i: Ite(And(here(p), i >= j), Ite(i == j, c, v.kid(p, i - 1)), v.kid(p, i)),
                lambda p: v.n(p) + Ite(here(p), z3.IntVal(1), z3.IntVal(0)),
                lambda x: Ite(x == c, j, Ite(And(v.par(x) == p0, v.pos(x) >= j), v.pos(x) + 1, v.pos(x))),
                lambda x: Ite(x == c, p0, v.par(x)))


def node_fact(st, v, n):
    """The pointers of node n agree with the view."""
    f = lambda a: z3.Select(st.arr('Node', a), n)
    p, i = v.par(n), v.pos(n)
    return And(f('parent') == p,
               Implies(p != null, And(0 <= i, i < v.n(p), v.kid(p, i) == n)),
               f('nxt') == Ite(And(p != null, i + 1 < v.n(p)), v.kid(p, i + 1), null),
               f('prv') == Ite(And(p != null, i > 0), v.kid(p, i - 1), null),
               v.n(n) >= 0,
               f('first_child') == Ite(v.n(n) > 0, v.kid(n, z3.IntVal(0)), null),
               f('last_child') == Ite(v.n(n) > 0, v.kid(n, v.n(n) - 1), null))


def index_fact(st, v, p, i):
    c = v.kid(p, i)
    return Implies(And(p != null, 0 <= i, i < v.n(p)), And(c != null, v.par(c) == p, v.pos(c) == i))


def quantified(st, v):
    n, p = z3.Const('n$q', Ref), z3.Const('p$q', Ref)
    i = z3.Int('i$q')
    return [z3.ForAll([n], Implies(n != null, node_fact(st, v, n)), patterns=[pos0(n)]),
            z3.ForAll([p, i], index_fact(st, v, p, i), patterns=[kid0(p, i)])]


def instances(st, eng, a):
    """The assumption: the entry heap has view OLD.  Instantiated where an operation can look."""
    names = [v.e for v in a.values() if isinstance(v, R)]
    sel = lambda at, x: z3.Select(st.arr('Node', at), x)
    nodes = list(names)
    for x in names:
        nodes += [sel('parent', x), sel('nxt', x), sel('prv', x), sel('first_child', x),
                  sel('last_child', x), sel('nxt', sel('nxt', x)), sel('prv', sel('prv', x))]
    nodes += [sel('first_child', sel('parent', x)) for x in names]
    nodes += [sel('last_child', sel('parent', x)) for x in names]
    return nodes


SK, SP_, SI = z3.Const('any_node', Ref), z3.Const('any_parent', Ref), z3.Int('any_index')


def facts(st, v, nodes, out):
    """Instances of "st has view v" at nodes and at the indices around them."""
    for x in nodes:
        out.append(Implies(x != null, node_fact(st, v, x)))
    idx = []
    for x in nodes:
        for d in (-2, -1, 0, 1, 2):
            idx.append((v.par(x), v.pos(x) + d))
        for i in (z3.IntVal(0), z3.IntVal(1), v.n(x) - 1, v.n(x) - 2):
            idx.append((x, i))
    for d in (-2, -1, 0, 1, 2):
        idx.append((SP_, SI + d))
    seen = set()
    for p, i in idx:
        k = (p.get_id(), z3.simplify(i).get_id())
        if k not in seen:
            seen.add(k)
            out.append(index_fact(st, v, p, i))
            c = v.kid(p, i)
            out.append(Implies(And(p != null, 0 <= i, i < v.n(p)), node_fact(st, v, c)))


def view_pre(eng, st, a):
    facts(st, OLD, instances(st, eng, a) + [SK, SP_], st.pc)


kid1 = z3.Function('kid1', Ref, z3.IntSort(), Ref)
len1 = z3.Function('nkids1', Ref, z3.IntSort())
pos1 = z3.Function('pos1', Ref, z3.IntSort())
par1 = z3.Function('par1', Ref, Ref)
# the view after unlinking: by definition removed(OLD, node)
MID = View(lambda p, i: kid1(p, i), lambda p: len1(p), lambda c: pos1(c), lambda c: par1(c))


def same_view(v, w, nodes, idx, out):
    for x in nodes:
        out += [v.n(x) == w.n(x), v.pos(x) == w.pos(x), v.par(x) == w.par(x)]
    for p, i in idx:
        out.append(v.kid(p, i) == w.kid(p, i))


def after_unlink(e):
    """Unlink: proved as a whole; for callers instances of it in terms of MID."""
    v = removed(OLD, e.t('self'))
    if e.eng.contract is not None and e.eng.contract.path == NODE + 'unlink':
        return has_view(lambda e: v)(e)
    for k in POINTERS:                       # OLD is the view of the entry heap
        if not e.o.arr('Node', k).eq(e.eng.prestate.arr('Node', k)):
            raise rl.Unsupported('pointers changed before unlink')
    c = e.t('self')
    nodes = instances(e.n, e.eng, e.eng.entry_args) + [SK, SP_]
    out = [par1(c) == null]
    facts(e.n, MID, nodes, out)
    ends = [(x.e, i) for x in e.eng.entry_args.values() if isinstance(x, R)
            for i in (z3.IntVal(0), v.n(x.e) - 1)]
    same_view(MID, v, nodes, [(SP_, SI)] + ends, out)
    return out


def has_view(new):
    """Every node and every index of the result agree with the new view."""
    def f(e):
        v = new(e)
        return [Implies(SK != null, g) for g in node_fact(e.n, v, SK).children()] + \
            [index_fact(e.n, v, SP_, SI)]
    return f


POINTERS = ('parent', 'first_child', 'last_child', 'prv', 'nxt')


def ptrs(k, **more):
    """Which pointers of which nodes may change: those around node k, and the ones named."""
    def f(e):
        at = lambda x, a: z3.Select(e.o.arr('Node', a), x)
        c = e.t(k)
        d = {'parent': [c], 'nxt': [c, at(c, 'prv')], 'prv': [c, at(c, 'nxt')],
             'first_child': [at(c, 'parent')], 'last_child': [at(c, 'parent')]}
        for a, path in more.items():
            x = e.t('self')
            for p in path.split('.')[1:]:
                x = at(x, p)
            for key in (('first_child', 'last_child') if a == 'ends' else (a,)):
                d[key] = d[key] + [x]
        return {'Node.' + a: v for a, v in d.items()}
    return f


def linked(st, r):
    """The pointers of r and of its neighbours fit together."""
    f = lambda a, x=r: z3.Select(st.arr('Node', a), x)
    p, a, b, v, n = (f(x) for x in ('parent', 'first_child', 'last_child', 'prv', 'nxt'))
    return And(Implies(n != null, And(f('prv', n) == r, f('parent', n) == p, p != null)),
               Implies(v != null, And(f('nxt', v) == r, f('parent', v) == p, p != null)),
               Implies(And(p != null, v == null), f('first_child', p) == r),
               Implies(And(p != null, n == null), f('last_child', p) == r),
               Implies(a != null, And(f('parent', a) == r, f('prv', a) == null)),
               Implies(b != null, And(f('parent', b) == r, f('nxt', b) == null)),
               (a == null) == (b == null))


HEAPINV['neighbours fit together'] = ('Node', POINTERS, linked)
TREE = ('neighbours fit together',)
CH = {'self': 'ref:Node!', 'child': 'ref:Node!'}
SB = {'self': 'ref:Node!', 'sibling': 'ref:Node!'}
OPS = [NODE + m for m in ('unlink', 'append_child', 'prepend_child', 'insert_after', 'insert_before')]
inside = lambda eng: eng.contract is not None and eng.contract.path in OPS
outside = lambda eng: not inside(eng)
KW = dict(inv=TREE, pre=view_pre, callpre=inside, frame_tags='C05', tags='C05')
other = lambda k: ('not itself', lambda e: e.t('self') != e.t(k))
attached = ('beside an attached node', lambda e: And(e.old(e.t('self'), 'parent') != null,
                                                     e.old(e.t('self'), 'parent') != e.t('sibling')))


NEVER = lambda eng: False


def PLACED(k, end, way):
    return ens('in its place', 'C05', lambda e: And(
        e.new(e.t('self'), end) == e.t(k), e.new(e.t(k), 'parent') == e.t('self'),
        e.new(e.t(k), way) == null))


def NEXT_TO(k, end, far, back, way):
    """A node from elsewhere: next to the one that was at that end; the other end is as it was."""
    def f(e):
        o = e.old(e.t('self'), end)
        c = e.t(k)
        return Implies(e.old(c, 'parent') != e.t('self'), And(
            e.new(c, back) == o, Implies(o != null, And(e.new(o, way) == c, e.new(o, 'parent') == e.t('self'))),
            e.new(e.t('self'), far) == Ite(o != null, e.old(e.t('self'), far), c)))
    return ens('next to the one that was there', 'C05', f)


def joined(e):
    c = e.t('self')
    p, n, q = (e.old(c, a) for a in ('prv', 'nxt', 'parent'))
    return [Implies(p != null, e.new(p, 'nxt') == n), Implies(n != null, e.new(n, 'prv') == p),
            Implies(q != null, And(
                e.new(q, 'first_child') == Ite(p != null, e.old(q, 'first_child'), n),
                e.new(q, 'last_child') == Ite(n != null, e.old(q, 'last_child'), p)))]


def BESIDE(way, back):
    return ens('in its place', 'C05', lambda e: And(
        e.new(e.t('self'), way) == e.t('sibling'), e.new(e.t('sibling'), back) == e.t('self'),
        e.new(e.t('sibling'), 'parent') == e.new(e.t('self'), 'parent')))


add(NODE + 'unlink', {'self': 'ref:Node!'}, ensures=[
    ens('takes exactly this node out of its list', 'C05', after_unlink, inside),
    ens('the neighbours become neighbours', 'C05', lambda e: joined(e)),
    ens('detached', 'C05', lambda e: And(*[e.new(e.t('self'), a) == null for a in ('parent', 'nxt', 'prv')]))], modifies=ptrs('self'), **KW)
add(NODE + 'append_child', CH, requires=[other('child')], ensures=[
    ens('the child becomes the last one', 'C05', has_view(lambda e: inserted(
        MID, e.t('self'), MID.n(e.t('self')), e.t('child'))), NEVER), PLACED('child', 'last_child', 'nxt'),
    NEXT_TO('child', 'last_child', 'first_child', 'prv', 'nxt')], modifies=ptrs('child', nxt='self.last_child', ends='self'), **KW)
add(NODE + 'prepend_child', CH, requires=[other('child')], ensures=[
    ens('the child becomes the first one', 'C05', has_view(lambda e: inserted(
        MID, e.t('self'), z3.IntVal(0), e.t('child'))), NEVER), PLACED('child', 'first_child', 'prv'),
    NEXT_TO('child', 'first_child', 'last_child', 'nxt', 'prv')], modifies=ptrs('child', prv='self.first_child', ends='self'), **KW)
add(NODE + 'insert_after', SB, requires=[other('sibling'), attached], ensures=[
    ens('the sibling comes directly behind this node', 'C05', has_view(lambda e: inserted(
        MID, MID.par(e.t('self')), MID.pos(e.t('self')) + 1, e.t('sibling'))), NEVER), BESIDE('nxt', 'prv')], modifies=ptrs('sibling', nxt='self', prv='self.nxt', ends='self.parent'), **KW)
add(NODE + 'insert_before', SB, requires=[other('sibling'), attached], ensures=[
    ens('the sibling comes directly before this node', 'C05', has_view(lambda e: inserted(
        MID, MID.par(e.t('self')), MID.pos(e.t('self')), e.t('sibling'))), NEVER), BESIDE('prv', 'nxt')], modifies=ptrs('sibling', nxt='self.prv', prv='self', ends='self.parent'), **KW)
