"""Invariants of the block tree while it is built (C10): true of every node, kept by every block operation."""
import z3
from pyvc.engine import And, Or, Not, Implies
from pyvc.vals import *
from .tree import TREE

BLOCKS = ('document', 'list', 'block_quote', 'item', 'heading', 'thematic_break', 'code_block', 'html_block', 'paragraph')
TEXTS = ('code_block', 'html_block', 'paragraph')
HOLDERS = ('document', 'block_quote', 'item')


def nf(st, r, a, flag=''):
    return z3.Select(st.arr('Node', a, flag), r)


def among(t, names):
    return Or(*[t == code('t', x) for x in names])


def may_hold(outer, inner):
    """A block of the one type may stand in one of the other."""
    item = code('t', 'item')
    return Or(And(outer == code('t', 'list'), inner == item), And(among(outer, HOLDERS), inner != item))


def legal(st, r):
    p, t = nf(st, r, 'parent'), nf(st, r, 't')
    return Implies(And(among(t, BLOCKS), p != null), And(may_hold(nf(st, p, 't'), t), t != code('t', 'document')))


def open_up(st, r):
    p = nf(st, r, 'parent')
    return Implies(And(among(nf(st, r, 't'), BLOCKS), nf(st, r, 'is_open'), p != null), And(
        nf(st, p, 'is_open'), nf(st, p, 'last_child') == r))


def usable(st, r):
    t = nf(st, r, 't')
    return Implies(And(among(t, BLOCKS), nf(st, r, 'is_open')), And(
        nf(st, r, 'sourcepos') != null, Not(nf(st, r, 'string_content', '?'))))


HEAPINV['blocks stand where they may'] = ('Node', ('t', 'parent'), legal)
HEAPINV['open blocks are last in open blocks'] = ('Node', ('t', 'parent', 'is_open', 'last_child'), open_up)
HEAPINV['open blocks have a position and text'] = ('Node', ('t', 'is_open', 'sourcepos', 'string_content'), usable)
BINV = TREE + ('blocks stand where they may', 'open blocks are last in open blocks', 'open blocks have a position and text')
