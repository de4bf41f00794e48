"""Function contracts and the verifier driver."""
import ast
import inspect
import os
import sys
import time
import traceback

import z3

from . import engine as E
from . import relang as rl
from .engine import (And, Or, Not, Implies, bval, fresh, TRUE, FALSE, Engine, Exc, Out, Unsupported,
                     Budget, resolve, source_of, unwrap, VC)
from .vals import *
from .vals import V


class Clause(object):
    def __init__(self, name, tags, f, calls=None):
        self.name, self.tags, self.f = name, frozenset(tags.split()) if isinstance(tags, str) else frozenset(tags), f
        self.calls = calls      # f(engine): may callers assume it?  None: always


def ens(name, tags, f, calls=None):
    return Clause(name, tags, f, calls)


class Env(object):
    """What a contract clause talks about: arguments, old and new heap, result."""

    def __init__(self, eng, args, old, new, res=None):
        self.eng, self.args, self.o, self.n, self.res = eng, args, old, new, res

    def __getitem__(self, k):
        return self.args[k]

    def t(self, k):
        """z3 term of an argument."""
        v = self.args[k]
        return v.e

    @staticmethod
    def _sel(st, ref, cls, attr, flag):
        own, kind = owner(cls, attr)
        if own is None:
            own = cls
        return z3.Select(st.arr(own, attr, flag), ref)

    def old(self, ref, attr, cls='Node', flag=''):
        return self._sel(self.o, ref, cls, attr, flag)

    def new(self, ref, attr, cls='Node', flag=''):
        return self._sel(self.n, ref, cls, attr, flag)

    def oldv(self, ref, attr, cls='Node'):
        own, kind = owner(cls, attr)
        return self.eng.hread(self.o, ref, own, attr, kind)

    def newv(self, ref, attr, cls='Node'):
        own, kind = owner(cls, attr)
        return self.eng.hread(self.n, ref, own, attr, kind)


def sym(kind, name, st):
    """A symbolic value of a kind, with its type assumptions added to st."""
    if kind.startswith('py:'):
        return Py(eval(kind[3:]))
    if kind.startswith('opt:'):
        return O(z3.Const(name + '$none', z3.BoolSort()), sym(kind[4:], name, st))
    nn = kind.endswith('!')
    k = kind.rstrip('!')
    if k.startswith('ref:'):
        r = z3.Const(name, Ref)
        st.pc.append(And(r != null, z3.Select(st.alloc, r)) if nn else
                     Or(r == null, z3.Select(st.alloc, r)))
        return R(r, k[4:])
    if k.startswith('enum:'):
        e = z3.Const(name, z3.IntSort())
        st.pc.append(And(e >= 0, e < len(DOM[k[5:]])))
        return En(k[5:], e)
    if k == 'int':
        return I(z3.Const(name, z3.IntSort()))
    if k == 'bool':
        return B(z3.Const(name, z3.BoolSort()))
    if k == 'str':
        return S(z3.Const(name, Str))
    if k == 'char':
        s = z3.Const(name, Str)
        st.pc.append(z3.Length(s) == 1)
        return S(s)
    if k == 'match':
        raise Unsupported('match parameter')
    raise Unsupported('kind ' + kind)


def freshval(kind, name, st):
    """Like sym, with fresh names, for results and havocked locals."""
    if kind == 'none':
        return Py(None)
    if kind.startswith('tuple:'):
        return T(tuple(freshval(k, name, st) for k in kind[6:].split(',')))
    return sym(kind, '%s!%d' % (name, next(E._ctr)), st)


class When(tuple):
    """A frame that only opens under a condition of the entry state."""
    def __new__(cls, cond, what):
        return tuple.__new__(cls, (cond, what))


class Contract(object):
    registry = {}

    def __init__(self, path, params=None, requires=(), ensures=(), modifies=None, returns='none',
                 raises=(), allocs=False, use=True, loops=(), spec=None, tags='', tlimit=60,
                 pre=None, note='', terminates=False, needs=(), inline=(), frame_tags='',
                 extra=None, cost=1, hooks=(), variants=(), callpre=True, inv=(),
                 lemmas=None, defs=()):
        self.path, self.params = path, params or {}
        self.requires = list(requires)       # (name, f(env) -> z3)
        self.ensures = list(ensures)
        self.modifies = modifies             # f(env) -> {key: [refs] | predicate} ; None: nothing
        self.returns, self.raises, self.allocs = returns, raises, allocs
        self.use = use                       # may be used at call sites
        self.loops = list(loops)             # candidate generators f(loopview) -> [z3]
        self.spec = spec
        self.tags = frozenset(tags.split())  # properties whose check runs the whole contract
        self.tlimit = tlimit
        self.pre = pre                       # f(eng, st, args): more set-up of the entry state
        self.note = note
        self.terminates = terminates
        self.inline = frozenset(inline)
        self.frame_tags = frozenset(frame_tags.split()) if frame_tags else frozenset(['*'])
        self.extra = extra
        self.hooks = list(hooks)             # f(eng, st, s, p): definitional facts at an access s[p]
        self.variants = list(variants)
        self.defs = list(defs)               # (class, fields, f(entry state, ref)): ghost definitions
        self.lemmas = lemmas                 # f(env) -> facts proved by Lemma contracts, for callers
        self.inv = tuple(inv)                # heap invariants kept (assumed, proved on exit)
        self.callpre = callpre               # pre also holds (is assumed) at call sites
        self.cost = cost                     # expected seconds, for scheduling
        self.fn = None

    @property
    def name(self):
        return self.path

    def load(self):
        self.fn = resolve(self.path)
        return self.fn

    # ---- use at a call site
    def applicable(self, eng, args):
        return self.use and not (eng.contract is not None and
                                 self.path.rsplit('.', 1)[1] in eng.contract.inline)

    def bind(self, eng, fn, args, kw, st, line):
        node = source_of(fn)
        loc = eng.bind(node, fn, args, kw, st, line)
        return loc

    def conv(self, eng, v, kind, st):
        """Argument as a value of the declared kind, or None."""
        if kind.startswith('py:'):
            return v
        opt = kind.startswith('opt:')
        k = kind[4:] if opt else kind
        base = k.rstrip('!')
        if isinstance(v, (L, D)) and base.startswith('ref:'):
            return eng.promote(st, v, base[4:])
        if opt:
            if isinstance(v, O):
                return v
            if isinstance(v, Py) and v.obj is None:
                return O(TRUE, freshval(k, 'none', st))
            x = self.conv(eng, v, k, st)
            return None if x is None else O(FALSE, x)
        if base.startswith('ref:'):
            if isinstance(v, Py) and v.obj is None:
                return R(null, base[4:])
            if isinstance(v, R):
                return v
            return None
        r = eng.unwrap_to(st, v, 'str' if base == 'char' else base)
        if r is None:
            return None
        return eng.wrap(r[0], 'str' if base == 'char' else base)

    def kind_ok(self, v, kind):
        """The side condition that v belongs to the declared kind (non-null, one character)."""
        if kind.startswith('ref:') and kind.endswith('!'):
            return v.e != null
        if kind == 'char':
            return z3.Length(v.e) == 1
        return TRUE

    def apply(self, eng, fn, args, kw, st, line):
        loc = self.bind(eng, fn, args, kw, st, line)
        if loc is None:
            yield st, Exc('TypeError', line)
            return
        vals = {}
        for k, kind in self.params.items():
            if k not in loc:
                raise Unsupported('parameter %s of %s' % (k, self.path))
            x = self.conv(eng, loc[k], kind, st)
            if x is None:
                raise Unsupported('argument %s=%r of %s' % (k, loc[k], self.path))
            if not kind.startswith('py:'):
                g = self.kind_ok(x, kind)
                eng.oblige(st, g, 'argument %s of %s' % (k, self.path), frozenset(['*']), line, 'pre')
                st.pc.append(g)
            vals[k] = x
        if self.pre is not None and (self.callpre is True or self.callpre and self.callpre(eng)):
            self.pre(eng, st, vals)
        old = st.copy()
        env = Env(eng, vals, old, st)
        for nm, f, *how in self.requires:
            g = f(env)
            if how:             # not proved by its callers: an assumption, reported as such
                eng.trusted.add('assumed at every call of %s: %s (%s)' % (self.path, nm, how[0]))
            else:
                eng.oblige(st, g, 'precondition %s of %s' % (nm, self.path), frozenset(['*']), line, 'pre')
            st.pc.append(bval(g))
        if self.inv:
            self.prove_inv(eng, st, line, 'before ' + self.path)
        self.havoc(eng, env, st)
        if self.inv:
            checkpoint(st)
        env.res = freshval(self.returns, 'res', st)
        for c in self.ensures:
            if c.calls is not None and not c.calls(eng):
                continue
            for g in self.clause_terms(c, env):
                st.pc.append(bval(g))
        if self.lemmas is not None:
            st.pc += [bval(g) for g in self.lemmas(env)]
        for s, v in self.split_result(eng, env.res, st):
            yield s, v

    def prove_inv(self, eng, st, line, where):
        """The heap invariants hold for every object (an arbitrary one)."""
        r = z3.Const('any_object', Ref)
        known = []
        for cp in st.cps:
            for nm in sorted(set(self.inv) & set(eng.contract.inv)):
                for a in HEAPINV[nm][1]:        # no dangling references
                    if SCHEMA[HEAPINV[nm][0]][a].startswith('ref:'):
                        x = z3.Select(cp.arr(HEAPINV[nm][0], a), r)
                        known.append(z3.Implies(And(r != null, z3.Select(cp.alloc, r)),
                                                Or(x == null, z3.Select(cp.alloc, x))))
                known.append(z3.Implies(And(r != null, z3.Select(cp.alloc, r)), bval(HEAPINV[nm][2](cp, r))))
        news = [x for x in chain(st.alloc)[1] if z3.is_const(x) and x.decl().name().startswith('new_')]
        for nm in self.inv:
            f = HEAPINV[nm][2]
            # objects of other classes made on the way are not meant
            other = [r != x for x in news if not x.decl().name().startswith('new_%s!' % HEAPINV[nm][0])]
            if st.cps and nm in eng.contract.inv:
                cp = st.cps[-1]
                if cp.alloc.eq(st.alloc) and bval(f(cp, r)).eq(bval(f(st, r))):
                    continue
            s2 = st.copy()
            s2.pc += known + other
            eng.oblige(s2, z3.Implies(And(r != null, z3.Select(st.alloc, r)), bval(f(st, r))),
                       'invariant: %s (%s)' % (nm, where), frozenset(['*']), line, 'inv')

    def clause_terms(self, c, env):
        g = c.f(env)
        return g if isinstance(g, list) else [g]

    def split_result(self, eng, res, st):
        return [(st, res)]

    def havoc(self, eng, env, st):
        old = env.o
        mods = self.modifies(env) if self.modifies else {}
        if self.allocs:
            a2 = fresh('alloc', st.alloc.sort())
            r = z3.Const('r$al', Ref)
            st.pc.append(z3.ForAll([r], z3.Implies(z3.Select(st.alloc, r), z3.Select(a2, r)),
                                   patterns=[z3.Select(a2, r)]))
            st.alloc = a2
        for key, what in mods.items():
            for k in flagged(key):
                a, was, cond = arr_of(st, k), arr_of(st, k), None
                if isinstance(what, When):
                    cond, now = what
                else:
                    now = what
                if now == 'any':
                    st.heap[k] = fresh(k, a.sort())
                elif callable(now):
                    b = fresh(k, a.sort())
                    r = z3.Const('r$fr', Ref)
                    keep = And(Not(now(r)), z3.Select(old.alloc, r) if self.allocs else TRUE)
                    st.pc.append(z3.ForAll([r], z3.Implies(keep, z3.Select(b, r) == z3.Select(a, r)),
                                           patterns=[z3.Select(b, r)]))
                    st.heap[k] = b
                else:
                    # (nothing is known of objects not made yet: what they hold is what they will hold)
                    for x in now:
                        a = z3.Store(a, x, fresh('hv', a.sort().range()))
                    st.heap[k] = a
                if cond is not None:
                    st.heap[k] = z3.If(cond, st.heap[k], was)

    # ---- verification
    def entry(self, eng):
        st = St()
        args = {}
        for k, kind in self.params.items():
            args[k] = sym(kind, k, st)
        if self.pre is not None:
            self.pre(eng, st, args)
        env = Env(eng, args, st, st)
        for nm, f, *how in self.requires:
            st.pc.append(bval(f(env)))
        return st, args

    def generate(self, contracts):
        """All verification conditions of the function: (engine, vcs)."""
        fn = self.load()
        eng = Engine(contracts, self.path, self.tlimit)
        eng.top = fn
        eng.contract = self
        st, args = self.entry(eng)
        if self.inv:
            checkpoint(st)
        eng.entry_pc = list(st.pc)
        eng.entry_args = args
        pre = st.copy()
        eng.prestate = pre
        outs = list(eng.run_top(fn, dict(args), st))
        env0 = Env(eng, args, pre, pre)
        mods = self.modifies(env0) if self.modifies else {}
        eng.paths = len(outs)
        for s, v in outs:
            if isinstance(v, Exc):
                if v.cls in self.raises:
                    continue
                eng.oblige(s, FALSE, 'no %s at line %d' % (v.cls, v.line), frozenset(['*']),
                           v.line, 'safety')
                continue
            env = Env(eng, args, pre, s, self.as_result(eng, s, eng.deref(s, v)))
            for c in self.ensures:
                for i, g in enumerate(self.clause_terms(c, env)):
                    eng.oblige(s, g, c.name, c.tags, 0, 'post')
            if self.spec is not None:
                self.spec_obligations(eng, env, s, v)
            if self.extra is not None:
                self.extra(eng, env, s, v)
            if self.inv:
                self.prove_inv(eng, s, 0, 'on return')
            self.frame(eng, pre, s, mods)
        return eng

    def as_result(self, eng, s, v):
        """The result as a value of the declared kind where that needs a conversion."""
        if self.returns.startswith('ref:'):
            cls = self.returns[4:].rstrip('!')
            if isinstance(v, Py) and v.obj is None:
                return R(null, cls)
            if isinstance(v, (L, D)):
                return eng.promote(s, v, cls)
            if not isinstance(v, R):
                raise Unsupported('result %r as %s' % (v, self.returns))
        return v

    def frame(self, eng, pre, s, mods):
        allowed = {}
        for key, what in mods.items():
            for k in flagged(key):
                allowed[k] = what
        for k, a in s.heap.items():
            b = arr_of(pre, k)
            if a is b or a.eq(b):
                continue
            what, cond = allowed.get(k), TRUE
            if isinstance(what, When):
                cond, what = what
                may = lambda r, cond=cond, what=what: And(cond, TRUE if what == 'any' else what(r) if callable(what) else Or(*[
                    r == x for x in what]))
                what = may
            if what == 'any':
                continue
            # pointwise at the written references when the array is a chain of stores
            base, refs = chain(a)
            if base.eq(b):
                for r in refs:
                    ok = Or(Not(z3.Select(pre.alloc, r)),
                            what(r) if callable(what) else Or(*[r == x for x in (what or [])]),
                            z3.Select(a, r) == z3.Select(b, r))
                    eng.oblige(s, ok, 'frame: %s' % k, self.frame_tags, 0, 'frame')
            else:
                r = z3.Const('r$frame', Ref)
                ok = Or(Not(z3.Select(pre.alloc, r)),
                        what(r) if callable(what) else Or(*[r == x for x in (what or [])]),
                        z3.Select(a, r) == z3.Select(b, r))
                eng.oblige(s, ok, 'frame: %s' % k, self.frame_tags, 0, 'frame')

    def spec_obligations(self, eng, env, s, v):
        """The function agrees with an executable specification run on the entry state."""
        specfn, args_of, compare = self.spec
        sp = env.o.copy()
        sp.pc = list(s.pc)
        sp.loc = {}
        for s2, r in eng.run_spec(specfn, args_of(env), sp):
            if isinstance(r, Exc):
                eng.oblige(s2, FALSE, 'specification defined (%s)' % r.cls, frozenset(['*']), 0, 'spec')
                continue
            for goal in compare(env, s2, r):
                nm, tags, g = goal[:3]
                eng.oblige(s2, g, nm, frozenset(tags.split()), 0, 'post')
                if len(goal) > 3:       # an intermediate step: the goals that follow build on it
                    s2.pc.append(bval(g))


def flagged(key):
    """A field key and the keys of its flag arrays."""
    if key[-1] in '?!' or key.startswith('ghost.') or '$' in key:
        return [key]
    cls, attr = key.split('.', 1)
    kind = SCHEMA[cls].get(attr)
    if kind is None and attr.isdigit():
        kind = SCHEMA[cls][int(attr)]
    out = [key]
    if 'opt:' in kind:
        out.append(key + '?')
    if kind.startswith('has:'):
        out.append(key + '!')
    return out


def arr_of(st, k):
    a = st.heap.get(k)
    if a is None:
        a = st.heap[k] = base_array(k, st.pre)
    return a


def chain(a):
    refs = []
    while z3.is_app_of(a, z3.Z3_OP_STORE):
        refs.append(a.arg(1))
        a = a.arg(0)
    return a, refs


# ---------------------------------------------------------------- solving
class Result(object):
    def __init__(self, contract):
        self.path = contract
        self.status = 'proved'          # proved | failed | unsupported
        self.reason = ''
        self.total = 0
        self.discharged = 0
        self.failed = []                # (name, kind, line, verdict, text, tags)
        self.time = 0.0
        self.solver_time = 0.0
        self.paths = 0
        self.inlined = []
        self.used = []
        self.backends = {}
        self.clauses = {}
        self.notes = []


def verify(contract, contracts, props, timeout=8000, retry=3):
    """Generate and discharge the obligations of one function for the given properties."""
    res = Result(contract.path)
    t0 = time.time()
    E.STATS.queries, E.STATS.time = 0, 0.0
    try:
        eng = contract.generate(contracts)
    except Unsupported as e:
        res.status, res.reason = 'unsupported', str(e)
        res.time = time.time() - t0
        return res
    except Budget as e:
        res.status, res.reason = 'unsupported', 'budget: ' + str(e)
        res.time = time.time() - t0
        return res
    except RecursionError:
        res.status, res.reason = 'unsupported', 'recursion depth of the verifier'
        res.time = time.time() - t0
        return res
    except Exception as e:
        if os.environ.get('PYVC_DEBUG'):
            raise
        res.status = 'unsupported'
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        res.reason = 'verifier error %s: %s (%s:%d)' % (type(e).__name__, str(e)[:200],
                                                      os.path.basename(tb.filename), tb.lineno)
        res.time = time.time() - t0
        return res
    res.paths = eng.paths
    res.inlined = sorted(eng.inlined)
    res.used = sorted(c.path for c in eng.used)
    res.notes = sorted(eng.trusted)
    vcs = [v for v in eng.vcs if '*' in v.tags or props is None or v.tags & props]
    if eng.paths == 0 or not vcs:
        res.status, res.reason = 'unsupported', 'no obligations generated'
        return res
    # vacuity: the precondition must be satisfiable
    if not E.feasible(eng.entry_pc, 2000):
        res.status, res.reason = 'unsupported', 'contradictory precondition'
        return res
    seen = {}
    spent = 0.0
    for vc in vcs:
        g = z3.simplify(vc.goal)
        key = (tuple(sorted(f.get_id() for f in vc.pc)), g.get_id())
        res.total += 1
        if key in seen:
            verdict = seen[key]
        elif z3.is_true(g):
            verdict = ('valid', None, 'syntactic')
        else:
            verdict = E.prove(vc.pc, vc.goal, timeout)
            if verdict[0] == 'unknown' and retry > 0 and spent < 12 * timeout / 1000.0:
                t1 = time.time()
                verdict = E.prove(vc.pc, vc.goal, timeout * 4)
                spent += time.time() - t1
                retry -= verdict[0] == 'unknown'
            seen[key] = verdict
        cl = res.clauses.setdefault(vc.name, [0, 0])
        cl[0] += 1
        if verdict[0] == 'valid':
            res.discharged += 1
            cl[1] += 1
            res.backends[verdict[2]] = res.backends.get(verdict[2], 0) + 1
        else:
            res.failed.append((vc.name, vc.kind, vc.line, verdict[0],
                               describe(eng, verdict, vc), sorted(vc.tags)))
            if len(res.failed) > 12:
                break
    if res.failed:
        res.status = 'failed'
        res.reason = '; '.join(sorted({f[0] for f in res.failed}))
    res.time = time.time() - t0
    res.solver_time = E.STATS.time
    return res


def describe(eng, verdict, vc):
    out = []
    if verdict[0] == 'sat':
        m = verdict[1]
        try:
            for k, v in eng.entry_args.items():
                for nm, e in terms_of(v):
                    out.append('%s%s = %s' % (k, nm, m.eval(e, model_completion=True)))
            for f in sorted(eng.prestate.heap)[:40]:
                out.append('%s: %s' % (f, str(m.eval(eng.prestate.heap[f]))[:200]))
        except Exception as e:
            out.append('(model not printable: %s)' % e)
    else:
        out.append(str(verdict[1]))
    out.append('goal: ' + str(z3.simplify(vc.goal))[:600])
    return '\n'.join(out)


def terms_of(v):
    if isinstance(v, O):
        yield '.isnone', v.isnone
        for x in terms_of(v.val):
            yield x
    elif hasattr(v, 'e') and z3.is_expr(v.e):
        yield '', v.e


class Lemma(Contract):
    """A fact over the contracts, discharged like a function: f(eng, st) poses the obligations."""

    def __init__(self, name, f, tags='', note='', cost=1, tlimit=60):
        Contract.__init__(self, 'lemma.' + name, tags=tags, note=note, cost=cost, tlimit=tlimit)
        self.f = f
        self.use = False

    def load(self):
        self.fn = self
        return self

    def generate(self, contracts):
        eng = Engine(contracts, self.path, self.tlimit)
        eng.contract = self
        st = St()
        eng.top, eng.entry_args, eng.prestate, eng.entry_pc, eng.paths = None, {}, st, [], 1
        self.f(eng, st, lambda nm, tags, pc, goal: eng.oblige(with_pc(st, pc), goal, nm,
                                                              frozenset(tags.split()), 0, 'lemma'))
        return eng


def with_pc(st, pc):
    s = st.copy()
    s.pc = list(pc)
    return s
