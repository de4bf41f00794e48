"""Walking (C06, C19): NodeWalker.

Ghost numbering of the walk: rank(n, entering) is the position of an event in the document-order
sequence of the subtree below the root of the walker.  Its defining equations are those of the
specification (children between entering and leaving, siblings in order), stated over the child
view; __next__ must step from rank r to rank r+1 and end behind the last event of the root.
"""
import z3
from pyvc.contract import Contract, ens
from pyvc.engine import And, Or, Not, Implies, Ite, bval
from pyvc.vals import *

CONTRACTS = []
W = 'commonmark.node.NodeWalker.'
IN = z3.Function('rank_in', Ref, z3.IntSort())
OUT = z3.Function('rank_out', Ref, z3.IntSort())
SUB = z3.Function('in_subtree', Ref, z3.BoolSort())
LEAVES = ('thematic_break', 'code_block', 'html_block', 'text', 'softbreak', 'linebreak', 'code',
          'html_inline')


def add(*a, **k):
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


def h(st, r, a, cls='Node'):
    return z3.Select(st.arr(cls, a), r)


def container(st, n):
    t = h(st, n, 't')
    return And(*[t != code('t', x) for x in LEAVES])


def last(st, n):
    return Ite(container(st, n), OUT(n), IN(n))


def ranks(st, root, n):
    """Defining equations of the numbering at node n."""
    f, x, p = h(st, n, 'first_child'), h(st, n, 'nxt'), h(st, n, 'parent')
    return Implies(And(n != null, SUB(n)), And(
        Implies(container(st, n), Ite(f != null, And(IN(f) == IN(n) + 1, SUB(f), h(st, f, 'parent') == n),
                                      OUT(n) == IN(n) + 1)),
        Implies(n != root, And(p != null, SUB(p), container(st, p))),
        Implies(And(n != root, x != null), And(SUB(x), IN(x) == last(st, n) + 1, h(st, x, 'parent') == p)),
        Implies(And(n != root, x == null), OUT(p) == last(st, n) + 1)))


def walker_pre(eng, st, a):
    w = a['self'].e
    cur, root = h(st, w, 'current', 'NodeWalker'), h(st, w, 'root', 'NodeWalker')
    st.pc += [root != null, SUB(root), ranks(st, root, cur), ranks(st, root, root),
              z3.Select(st.alloc, root), Or(cur == null, z3.Select(st.alloc, cur)),
              Implies(cur != null, SUB(cur))]


def at(st, w):
    return (h(st, w, 'current', 'NodeWalker'), h(st, w, 'root', 'NodeWalker'),
            h(st, w, 'entering', 'NodeWalker'))


def rank(st, n, entering):
    return Ite(And(Not(entering), container(st, n)), OUT(n), IN(n))


def stepped(e):
    """The walker moved on by exactly one event."""
    w = e.t('self')
    c0, r, e0 = at(e.o, w)
    c1, _, e1 = at(e.n, w)
    final = And(c0 == r, Or(Not(e0), Not(container(e.o, r))))
    return Ite(final, c1 == null, And(c1 != null, SUB(c1),
               rank(e.o, c1, e1) == rank(e.o, c0, e0) + 1, Or(e1, container(e.o, c1))))


WREF = {'self': 'ref:NodeWalker!'}
wmods = lambda e: {'NodeWalker.current': [e.t('self')], 'NodeWalker.entering': [e.t('self')]}
cur0 = lambda e: at(e.o, e.t('self'))[0]
ent0 = lambda e: at(e.o, e.t('self'))[2]

add(W + '__next__', WREF, pre=walker_pre, modifies=wmods, tags='C06 C19', frame_tags='C19 C06', use=False,
    requires=[('not at the end', lambda e: cur0(e) != null)],
    ensures=[ens('reports the current event', 'C06', lambda e: And(
                 e.res.items[0].e == cur0(e), e.res.items[1].e == ent0(e))),
             ens('goes on to the next event in document order, ends after the last', 'C06', stepped)])
add(W + 'nxt', WREF, pre=walker_pre, modifies=wmods, tags='C06 C19', frame_tags='C19 C06', allocs=True,
    returns='ref:Event', use=False,
    ensures=[ens('nothing at the end', 'C06', lambda e: Implies(cur0(e) == null, And(
                 ref(e) == null, at(e.n, e.t('self'))[0] == null))),
             ens('reports the current event', 'C06', lambda e: Implies(cur0(e) != null, And(
                 ref(e) != null, h(e.n, ref(e), 'node', 'Event') == cur0(e),
                 h(e.n, ref(e), 'entering', 'Event') == ent0(e)))),
             ens('goes on to the next event in document order, ends after the last', 'C06',
                 lambda e: Implies(cur0(e) != null, stepped(e)))])


def ref(e):
    return e.res.e


add(W + 'resume_at', dict(WREF, node='ref:Node', entering='bool'), modifies=wmods, tags='C06',
    frame_tags='C06', use=False,
    ensures=[ens('continues from exactly that event', 'C06', lambda e: And(
        at(e.n, e.t('self'))[0] == e.t('node'), at(e.n, e.t('self'))[2] == e.t('entering')))])
add('commonmark.node.Node.walker', {'self': 'ref:Node!'}, tags='C06', frame_tags='C06', allocs=True,
    returns='ref:NodeWalker', use=False,
    ensures=[ens('starts with entering the node itself', 'C06', lambda e: And(
        e.res.e != null, at(e.n, e.res.e)[0] == e.t('self'), at(e.n, e.res.e)[1] == e.t('self'),
        at(e.n, e.res.e)[2]))])
