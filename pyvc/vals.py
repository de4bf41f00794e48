"""Symbolic values, heap schema and machine state of the verifier."""
import z3

Ref = z3.DeclareSort('Ref')
null = z3.Const('null', Ref)
Str = z3.StringSort()
SORT = {'int': z3.IntSort(), 'bool': z3.BoolSort(), 'str': Str, 'ref': Ref}


class V(object):
    __slots__ = ()

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__,
                           ', '.join(repr(getattr(self, s)) for s in self.__slots__))


def _cls(name, *fields):
    def __init__(self, *a):
        assert len(a) == len(fields), (name, a)
        for f, x in zip(fields, a):
            setattr(self, f, x)
    return type(name, (V,), {'__slots__': fields, '__init__': __init__})


Py = _cls('Py', 'obj')            # concrete Python object
I = _cls('I', 'e')                # int
B = _cls('B', 'e')                # bool (or a value of which only the truth is kept)
S = _cls('S', 'e')                # str
By = _cls('By', 'e')              # bytes: UTF-8 encoding of the str e
R = _cls('R', 'e', 'cls')         # reference to a heap object of class cls, or None (null)
En = _cls('En', 'dom', 'e')       # str out of a finite domain, coded as int
O = _cls('O', 'isnone', 'val')    # None or val
T = _cls('T', 'items')            # tuple
L = _cls('L', 'lid')              # list with concrete length, in state.lists
D = _cls('D', 'did')              # dict with concrete keys, in state.lists
M = _cls('M', 'm')                # match object or None
F = _cls('F', 'node', 'env', 'fn')   # lambda / local function
BM = _cls('BM', 'self', 'fn')     # bound method of repository code
MT = _cls('MT', 'val', 'name')    # bound builtin method
SUP = _cls('SUP', 'self', 'cls')  # super()
SL = _cls('SL', 'arr', 'n')       # list of str with symbolic length: Array(Int, Str), length
SET = _cls('SET', 'e', 'what')    # opaque value
Exc = _cls('Exc', 'cls', 'line')


class Match(object):
    """Result of re.search on subj; `found` says whether it matched."""
    mixed = False       # false may be False as well as None

    def __init__(self, found, group, start, subj, pat, groups=None):
        self.found, self.group, self.start, self.subj, self.pat = found, group, start, subj, pat
        self.groups = groups or {}

    def __repr__(self):
        return 'Match(%s)' % self.group


from .relang import Unsupported        # the construct is outside the verified subset


NODE_TYPES = ['document', 'block_quote', 'list', 'item', 'heading', 'thematic_break', 'code_block',
              'html_block', 'paragraph', 'text', 'softbreak', 'linebreak', 'emph', 'strong', 'code',
              'html_inline', 'link', 'image', 'custom_inline', 'custom_block']
DOM = {'t': NODE_TYPES}

# class -> attribute -> kind.  kinds: int bool str enum:<dom> opt:<kind> ref:<cls> py
SCHEMA = {
    'Node': dict(t='enum:t', parent='ref:Node', first_child='ref:Node', last_child='ref:Node',
                 prv='ref:Node', nxt='ref:Node', sourcepos='ref:SP', last_line_blank='bool',
                 last_line_checked='bool', is_open='bool', string_content='opt:str',
                 literal='opt:str', list_data='ref:ListData', info='opt:str',
                 destination='opt:str', title='opt:str', is_fenced='bool',
                 fence_char='opt:str', fence_length='int', fence_offset='opt:int',
                 level='opt:int', on_enter='opt:str', on_exit='opt:str',
                 html_block_type='has:int'),
    'SP': {0: 'ref:Pos', 1: 'ref:Pos'},
    'Pos': {0: 'int', 1: 'int'},
    'ListData': dict(type='opt:str', tight='bool', bullet_char='opt:str', start='opt:int',
                     delimiter='opt:str', padding='opt:int', marker_offset='int'),
    'Delim': dict(cc='str', numdelims='int', origdelims='int', node='ref:Node',
                  previous='ref:Delim', next='ref:Delim', can_open='bool', can_close='bool'),
    'Bracket': dict(node='ref:Node', previous='ref:Bracket', previousDelimiter='ref:Delim',
                    index='int', image='bool', active='bool', bracketAfter='has:bool'),
    'Scan': dict(numdelims='int', can_open='bool', can_close='bool'),
    'LinkRef': dict(destination='str', title='str'),
    'RefMap': {},
    'Options': dict(smart='has:truthy', safe='has:truthy', sourcepos='has:truthy',
                    softbreak='has:str'),
    'NodeWalker': dict(current='ref:Node', root='ref:Node', entering='bool'),
    'Event': dict(node='ref:Node', entering='bool'),
    'Renderer': dict(buf='str', last_out='str'),
    'HtmlRenderer': dict(disable_tags='int', options='ref:Options'),
    'ReStructuredTextRenderer': dict(indent_char='str', indent_length='int'),
    'Parser': dict(doc='ref:Node', block_starts='ref:BlockStarts', tip='ref:Node',
                   oldtip='ref:Node', current_line='str', line_number='int', offset='int',
                   column='int', next_nonspace='int', next_nonspace_column='int', indent='int',
                   indented='bool', blank='bool', partially_consumed_tab='bool',
                   all_closed='bool', last_matched_container='ref:Node', refmap='ref:RefMap',
                   last_line_length='int', inline_parser='ref:InlineParser',
                   options='ref:Options'),
    'BlockStarts': {},
    'InlineParser': dict(subject='str', brackets='ref:Bracket', pos='int', refmap='ref:RefMap',
                         options='ref:Options', delimiters='ref:Delim'),
}
BASES = {'HtmlRenderer': 'Renderer', 'ReStructuredTextRenderer': 'Renderer'}
RECORDS = {'ListData', 'Scan', 'Delim', 'Bracket', 'LinkRef', 'Options', 'Event'}     # dicts
LISTRECS = {'SP', 'Pos'}                                            # fixed-shape lists
MAYBE_EMPTY = {'ListData'}       # record dicts that may also be the empty dict


def owner(cls, attr):
    while cls is not None:
        k = SCHEMA.get(cls, {})
        if attr in k:
            return cls, k[attr]
        cls = BASES.get(cls)
    return None, None


def code(dom, s):
    d = DOM[dom]
    return d.index(s) if s in d else None


class St(object):
    """One path: assumptions, locals, heap, lists."""
    __slots__ = ('pc', 'loc', 'heap', 'alloc', 'lists', 'pre', 'note', 'emit', 'cps')

    def __init__(self):
        self.pc, self.loc, self.heap, self.lists = [], {}, {}, {}
        self.alloc = z3.Const('alloc@0', z3.ArraySort(Ref, z3.BoolSort()))
        self.pre = '@0'
        self.note = ()
        self.emit = None
        self.cps = ()        # states in which the heap invariants of the contract hold

    def copy(self):
        s = St.__new__(St)
        s.pc, s.loc, s.heap = list(self.pc), dict(self.loc), dict(self.heap)
        s.alloc, s.lists, s.pre, s.note = self.alloc, dict(self.lists), self.pre, self.note
        s.emit, s.cps = self.emit, self.cps
        return s

    def arr(self, cls, attr, flag=''):
        """Current array of a heap field; flag '?' is the is-None array, '!' the has-key array."""
        key = '%s.%s%s' % (cls, attr, flag)
        a = self.heap.get(key)
        if a is None:
            a = self.heap[key] = base_array(key, self.pre)
        return a


def key_sort(key):
    if key.endswith(('?', '!')):
        return z3.BoolSort()
    cls, attr = key.split('.', 1)
    if attr == '$full':
        return z3.BoolSort()
    if cls == 'ghost':
        return GHOST[attr]
    kind = SCHEMA[cls].get(attr)
    if kind is None and attr.isdigit():
        kind = SCHEMA[cls][int(attr)]
    if kind is None:
        raise KeyError(key)
    return kind_sort(kind)


GHOST = {}
# heap invariants: name -> (class, fields whose reading instantiates it, f(state, reference))
HEAPINV = {}


def checkpoint(st):
    c = st.copy()
    c.cps, c.pc, c.loc = (), [], {}
    st.cps = (c,)
    return c


def heapinv_at(st, names, r):
    return [HEAPINV[n][2](st, r) for n in names]


def kind_sort(kind):
    if kind.startswith(('opt:', 'has:')):
        kind = kind[4:]
    if kind.startswith('ref:'):
        return Ref
    if kind.startswith('enum:'):
        return z3.IntSort()
    if kind == 'truthy':
        return z3.BoolSort()
    return SORT[kind]


def base_array(key, pre):
    if key == 'RefMap.$map':
        return z3.Const(key + pre, z3.ArraySort(Ref, z3.ArraySort(Str, Ref)))
    if key.startswith('ghost.'):
        return z3.Const(key + pre, GHOST[key[6:]])
    return z3.Const(key + pre, z3.ArraySort(Ref, key_sort(key)))
