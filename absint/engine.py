"""Abstract interpreter over the Python syntax tree.

The analysed modules are never imported or run: every statement is given an abstract
semantics over the domains of values.py. Branches whose condition the domains do not
decide split the trace partition; loops over collections of unknown size are summarised
(see loops.py)."""
import ast
import os
import sys
import time
import traceback

from .values import *
from .state import State, Infeasible, Unsupported, mk_ge0, mk_eq0, Cell, lkey
from .seqs import *
from . import seqs

sys.setrecursionlimit(20000)


class PyExc(Exception):
    def __init__(self, val):
        self.val = val


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Limit(Exception):
    pass


class Frame(object):
    __slots__ = ('i', 'parent', 'mod', 'cls', 'fn', 'locs', 'kind')

    def __init__(self, i, parent, mod, cls, fn, locs, kind='fn'):
        self.i = i
        self.parent = parent
        self.mod = mod
        self.cls = cls
        self.fn = fn
        self.locs = locs
        self.kind = kind


# ------------------------------------------------------------- conditions
def pairC(c):
    if isinstance(c, bool):
        return K(c)
    cond, pol = c
    return C(cond) if pol else C(('not', cond))


def c_not(c):
    if isinstance(c, bool):
        return not c
    if c[0] == 'not':
        return c[1]
    return ('not', c)


def c_and(cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if c[0] == 'and':
            out.extend(c[1:])
        else:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and',) + tuple(out)


def c_or(cs):
    r = c_and([c_not(c) for c in cs])
    return c_not(r)


def cV(c):
    """condition -> value"""
    if isinstance(c, bool):
        return K(c)
    return C(c)


def vC(v):
    """boolean value -> condition"""
    if isinstance(v, K):
        return bool(v.v)
    return v.c


def _pair(c):
    if isinstance(c, bool):
        return c
    return c[0] if c[1] else ('not', c[0])


def cond_ge0(p):
    lin, k = psplit(p)
    if len(lin) == 1:
        (m, c), = lin
        if len(m) == 1:
            t = seqs.atom(m[0])
            if t[0] == 'fdiv' and isinstance(t[2], K) and t[2].v > 0:
                d = t[2].v
                if c > 0:       # c*F + k >= 0  <=>  F >= ceil(-k/c)
                    b = -(k // c)
                    return cond_ge0(padd(poly(t[1]), pconst(-b * d)))
                b = k // (-c)   # F <= b
                return cond_ge0(padd(pscale(poly(t[1]), -1), pconst(b * d + d - 1)))
    return _pair(mk_ge0(p))


def cond_eq0(p):
    lin, k = psplit(p)
    if len(lin) == 1:
        (m, c), = lin
        if len(m) == 1:
            t = seqs.atom(m[0])
            if t[0] == 'fdiv' and isinstance(t[2], K) and t[2].v > 0:
                if k % c:
                    return False
                b = -k // c
                d = t[2].v
                return c_and([cond_ge0(padd(poly(t[1]), pconst(-b * d))),
                              cond_ge0(padd(pscale(poly(t[1]), -1), pconst(b * d + d - 1)))])
    return _pair(mk_eq0(p))


def renorm_cond(c):
    """canonical value of a condition after substitution"""
    if isinstance(c, V):
        return c
    h = c[0]
    if h == 'not':
        r = renorm_cond(c[1])
        return K(not r.v) if isinstance(r, K) else C(c_not(r.c))
    if h in ('and', 'or'):
        rs = [renorm_cond(x) for x in c[1:]]
        f = c_and if h == 'and' else c_or
        return cV(f([vC(r) for r in rs]))
    if h == 'ge0':
        return cV(cond_ge0(poly(c[1])))
    if h == 'eq0':
        return cV(cond_eq0(poly(c[1])))
    return C(c)


def renorm_trail(tr):
    """re-canonicalise the conditions of a trail; False when it cannot hold"""
    out = set()
    for c, b in tr:
        r = vC(renorm_cond(c))
        if isinstance(r, bool):
            if r != b:
                out.add((('never',), True))
            continue
        if r[0] == 'not':
            out.add((r[1], not b))
        elif r[0] == 'and' and b:
            for x in r[1:]:
                out.add((x[1], False) if x[0] == 'not' else (x, True))
        else:
            out.add((r, b))
    return frozenset(out)


class Path(object):
    __slots__ = ('st', 'kind', 'val', 'trail')

    def __init__(self, st, kind, val, trail):
        self.st, self.kind, self.val, self.trail = st, kind, val, trail


BINOPS = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__',
          ast.FloorDiv: '__floordiv__', ast.Mod: '__mod__', ast.Pow: '__pow__', ast.LShift: '__lshift__',
          ast.RShift: '__rshift__', ast.BitOr: '__or__', ast.BitAnd: '__and__', ast.BitXor: '__xor__'}
CMPS = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}
SWAP = {'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__'}


class Engine(object):
    MAXPATHS = 6000

    def __init__(self, repo='/repo', extra=None):
        self.repo = repo
        self.extra = extra or {}      # name -> path of additional analysed modules (specifications)
        self.mods = {}
        self.st = State()
        self.stubs = {}
        self.loopdepth = 0
        self.depth = 0
        self.loading = True
        self.funcs = set()            # qualified names of the functions analysed
        self.calls = 0
        self.npaths = 0
        self.unroll = 400
        self.ticks = 0
        self.deadline = float('inf')
        self.cur = None
        from . import models
        self.models = models
        models.install(self)
        from . import loops
        self.loops = loops

    # ------------------------------------------------------------ exploration
    def choose(self, n):
        st = self.st
        i = len(st.taken)
        if i < len(st.dec):
            c = st.dec[i]
        else:
            c = 0
            for k in range(n - 1, 0, -1):
                st.new.append(tuple(st.taken) + (k,))
        st.taken.append(c)
        return c

    def branch(self, c):
        if isinstance(c, bool):
            return c
        h = c[0]
        if h == 'not':
            return not self.branch(c[1])
        if h == 'and':
            for x in c[1:]:
                if not self.branch(x):
                    return False
            return True
        if h == 'or':
            for x in c[1:]:
                if self.branch(x):
                    return True
            return False
        d = self.st.decide(c)
        if d is not None:
            return d
        val = self.choose(2) == 0
        self.assume(c, val)
        return val

    def assume(self, c, val=True):
        """add a condition to the path"""
        if isinstance(c, bool):
            if c != val:
                raise Infeasible()
            return
        if c[0] == 'not':
            return self.assume(c[1], not val)
        if c[0] == 'and' and val:
            for x in c[1:]:
                self.assume(x, True)
            return
        d = self.st.decide(c)
        if d is not None:
            if d != val:
                raise Infeasible()
            return
        self.st.trail.append((c, val))
        self.st.assume(c, val)
        if c[0] == 'eqv' and val:
            try:
                self.st.assume(*self._lenpair(c))
            except TypeError:
                pass

    def _lenpair(self, c):
        a, b = c[1], c[2]
        if isinstance(a, (Sq, K)) and isinstance(b, (Sq, K)):
            r = mk_eq0(padd(seqlen(a), seqlen(b), -1))
            if r is True:
                raise TypeError
            if r is False:
                raise Infeasible()
            return r
        raise TypeError

    def explore(self, thunk, st0=None, limit=None):
        st0 = st0 if st0 is not None else self.st
        limit = limit or self.MAXPATHS
        n0 = len(st0.trail)
        stack = [()]
        out = []
        saved = self.st
        depth = self.loopdepth
        cd = self.depth
        while stack:
            if out and out[-1].kind == 'unsup' and out[-1].val == 'loop bound':
                # a loop did not end: the choices with the fewest rounds first
                pre = stack.pop(min(range(len(stack)), key=lambda i: len(stack[i])))
            else:
                pre = stack.pop()
            st = st0.clone()
            st.dec = pre
            self.st = st
            seqs.REBUILD_ST[0] = st
            self.loopdepth = depth
            self.depth = cd
            self.npaths += 1
            try:
                try:
                    v = thunk()
                    out.append(Path(self.st, 'ok', v, tuple(st.trail[n0:])))
                except Infeasible:
                    pass
                except PyExc as e:
                    out.append(Path(st, 'exc', e.val, tuple(st.trail[n0:])))
                except Ret as e:
                    out.append(Path(st, 'ret', e.v, tuple(st.trail[n0:])))
                except Brk:
                    out.append(Path(st, 'brk', None, tuple(st.trail[n0:])))
                except Cont:
                    out.append(Path(st, 'ok', None, tuple(st.trail[n0:])))
                except Unsupported as e:
                    out.append(Path(st, 'unsup', str(e), tuple(st.trail[n0:])))
                except RecursionError:
                    out.append(Path(st, 'unsup', 'recursion', tuple(st.trail[n0:])))
                except (ArithmeticError, LookupError, AttributeError, AssertionError, TypeError, ValueError) as e:
                    # a defect of the analyser is not a verdict on the code
                    out.append(Path(st, 'unsup', 'analyser: %s %s' % (type(e).__name__, traceback.format_exc()[-400:]), tuple(st.trail[n0:])))
                except BaseException as e:
                    e.paths = out       # a time limit: what was explored until then
                    raise
            finally:
                self.st = saved
                seqs.REBUILD_ST[0] = saved
                self.loopdepth = depth
                self.depth = cd
            stack.extend(reversed(st.new))
            if len(out) > limit:
                e = Limit('too many partitions')
                e.paths = out
                raise e
        return out

    def retry(self, f):
        while True:
            try:
                return f()
            except Need as n:
                self.branch(n.cond)

    # -------------------------------------------------------------- exceptions
    def exc(self, name, *args):
        cls = self.builtins[name] if isinstance(name, str) else name
        args = tuple(K(a) if isinstance(a, (str, int)) else a for a in args)
        r = self.st.alloc('inst', cls, {'args': Tup(tuple(('i', a) for a in args))})
        if self.cur:
            self.mark()
        raise PyExc(r)

    def fresh(self, hint='v'):
        self.st.fresh_n += 1
        return '%s~%d' % (hint, self.st.fresh_n)

    def imp(self, hint):
        """an imprecise unknown value"""
        return O(('imp', self.fresh(hint)))

    # ----------------------------------------------------------------- typing
    def type_of(self, v):
        B = self.builtins
        if isinstance(v, K):
            return B[{bool: 'bool', int: 'int', float: 'float', str: 'str', bytes: 'bytes',
                      type(None): 'NoneType', type(Ellipsis): 'object', type(NotImplemented): 'object'}[type(v.v)]]
        if isinstance(v, I):
            return B['int']
        if isinstance(v, C):
            return B['bool']
        if isinstance(v, F):
            return B['float']
        if isinstance(v, Sq):
            return B[v.kind]
        if isinstance(v, Tup):
            return B['tuple']
        if isinstance(v, (NT, Ob, Enm)):
            return v.cls
        if isinstance(v, Ref):
            return self.st.cell(v).cls
        if isinstance(v, O):
            return v.cls
        if isinstance(v, Cls):
            return B['type']
        if isinstance(v, (Fn, BM, Bi, Partial)):
            return B['function']
        if isinstance(v, Mod):
            return B['module']
        if isinstance(v, Slice):
            return B['object']
        return None

    def force(self, v):
        while isinstance(v, Lz):
            v = v.fn(self, v.t)
        return v

    def is_instance(self, v, cls):
        v = self.force(v)
        if isinstance(cls, Tup):
            return c_or([self.is_instance(v, p[1]) for p in cls.parts])
        if not isinstance(cls, Cls):
            raise Unsupported('isinstance against %r' % (cls,))
        t = self.type_of(v)
        if t is not None:
            if cls.name == 'Number' and cls.builtin:
                return t.issub(self.builtins['int']) or t.issub(self.builtins['float'])
            if t.issub(cls):
                return True
            if isinstance(v, O) and any(s.issub(cls) or cls.issub(s) for s in [t] + t.all_subs()) and ('open' in str(v.t)):
                return ('isinst', v.t, cls.qual)
            return False
        if isinstance(v, O):
            return ('isinst', v.t, cls.qual)
        raise Unsupported('isinstance of %r' % (v,))

    # ------------------------------------------------------------- attributes
    def cls_find(self, cls, name, after=None):
        mro = cls.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            v = self.st.nsw.get((c, name))
            if v is not None:
                return c, v
            if name in c.ns:
                return c, c.ns[name]
        return None, None

    def user_method(self, v, name):
        """a method defined in analysed code for this value's class, or None"""
        t = self.type_of(v)
        if t is None:
            return None
        c, m = self.cls_find(t, name)
        if m is None or c.builtin or (c.fields is not None and not c.node):
            return None
        return m

    def bind(self, m, owner, obj, cls):
        """descriptor protocol"""
        if isinstance(m, Wrap):
            if m.kind == 'static':
                return m.fn
            if m.kind == 'class':
                return self.bind_to(m.fn, cls)
            if m.kind == 'property':
                if obj is None:
                    return m
                return self.call(m.fn, [obj])
        if isinstance(m, Fn):
            return BM(m, obj) if obj is not None else m
        if isinstance(m, Bi) and m.self is None and obj is not None:
            return Bi(m.name, obj)
        return m

    def bind_to(self, fn, cls):
        if isinstance(fn, Fn):
            return BM(fn, cls)
        if isinstance(fn, Bi):
            return Bi(fn.name, cls)
        return Partial(fn, [cls], {})

    def getattr(self, v, name, default=None):
        v = self.force(v)
        try:
            r = self._getattr(v, name)
        except KeyError:
            r = None
        if r is None:
            if default is not None:
                return default
            self.exc('AttributeError', "%s has no attribute %r" % (show(v)[:60], name))
        return self.force(r)

    def _getattr(self, v, name):
        if isinstance(v, Mod):
            w = self.st.nsw.get((v, name))
            if w is not None:
                return w
            if name in v.ns:
                return v.ns[name]
            if name == '__name__':
                return K(v.name)
            if name == '__dict__':
                return self.st.alloc('dict', self.builtins['dict'], tuple((K(k), x) for k, x in v.ns.items()))
            if v.external:
                m = self.models.external_attr(self, v, name)
                if m is not None:
                    return m
                return O(('ext', v.name + '.' + name))
            if v.pkg:
                sub = self.mods.get(v.name + '.' + name)
                if sub is not None and name in v.ns:
                    return sub
            return None
        if isinstance(v, Cls):
            if name == '__name__':
                return K(v.name)
            if name == '__doc__':
                return v.ns.get('__doc__', NONE)
            if name == '__mro__':
                return Tup(tuple(('i', c) for c in v.mro()))
            if name == '__dict__':
                return self.st.alloc('dict', self.builtins['dict'], tuple((K(k), x) for k, x in v.ns.items()))
            if name == '_fields' and v.nt_fields() is not None:
                return Tup(tuple(('i', K(f)) for f in v.nt_fields()))
            if 'enum' in v.flags and name == '__members__':
                raise Unsupported('__members__')
            c, m = self.cls_find(v, name)
            if m is not None:
                return self.bind(m, c, None, v)
            return self.models.class_attr(self, v, name)
        if isinstance(v, Super):
            obj = v.obj
            cls = obj if isinstance(obj, Cls) else self.type_of(obj)
            c, m = self.cls_find(cls, name, after=v.cls)
            if m is None:
                m = self.models.base_method(self, cls, v.cls, name)
                if m is None:
                    return None
                if name in ('__new__',):
                    return m
                return Bi(m.name, obj) if isinstance(m, Bi) else m
            if name == '__new__':
                return m.fn if isinstance(m, Wrap) else m
            return self.bind(m, c, None if isinstance(obj, Cls) else obj, cls)
        if isinstance(v, Ref):
            c = self.st.cell(v)
            if c.kind == 'inst':
                if name in c.d:
                    return c.d[name]
            if name == '__class__':
                return c.cls
            if name == '__dict__' and c.kind == 'inst':
                return self.st.alloc('dict', self.builtins['dict'], tuple((K(k), x) for k, x in c.d.items() if k != 'args' or not c.cls.issub(self.builtins['BaseException'])))
            o, m = self.cls_find(c.cls, name)
            if m is not None:
                return self.bind(m, o, v, c.cls)
            return self.models.method(self, v, name)
        if isinstance(v, (NT, Ob, Enm)):
            if name == '__class__':
                return v.cls
            if isinstance(v, Ob):
                d = dict(v.attrs)
                if name in d:
                    return d[name]
            if isinstance(v, Enm):
                if name == 'name':
                    return K(v.name)
                if name == 'value':
                    return v.value
            o, m = self.cls_find(v.cls, name)
            if m is not None:
                return self.bind(m, o, v, v.cls)
            if isinstance(v, NT) and name in v.cls.nt_fields():
                return v.get(name)
            if isinstance(v, NT):
                return self.models.nt_attr(self, v, name)
            return self.models.method(self, v, name)
        if isinstance(v, (Fn, BM)):
            if name == '__name__':
                return K((v if isinstance(v, Fn) else v.fn).name)
            if name == '__doc__':
                return NONE
            return None
        if isinstance(v, O):
            if v.cls is not None and not v.cls.builtin:
                o, m = self.cls_find(v.cls, name)
                if m is not None:
                    return self.bind(m, o, v, v.cls)
            m = self.models.opaque_attr(self, v, name)
            if m is not None:
                return m
            return O(('fld', v.t, name))
        if isinstance(v, Wrap) and v.kind == 'property':
            return None
        if name == '__class__':
            return self.type_of(v)
        return self.models.method(self, v, name)

    def setattr(self, v, name, x):
        v = self.force(v)
        if isinstance(v, Ref):
            c = self.st.cell(v)
            if c.kind in ('inst',):
                o, m = self.cls_find(c.cls, name)
                if isinstance(m, Wrap) and m.kind == 'property':
                    if m.setter is None:
                        self.exc('AttributeError', "can't set attribute " + name)
                    self.call(m.setter, [v, x])
                    return
                self.st.wcell(v, name).d[name] = x
                return
            raise Unsupported('attribute on a %s' % c.kind)
        if isinstance(v, (Cls, Mod)):
            if self.loading:
                v.ns[name] = x
            else:
                self.st.nsw[(v, name)] = x
                if self.st.writes is not None:
                    self.st.writes.add((v, name))
            return
        if isinstance(v, NT):
            if name in v.cls.nt_fields():
                self.exc('AttributeError', "can't set attribute")
            raise Unsupported('attribute on a tuple instance')
        raise Unsupported('setattr on %r' % (v,))

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.force(f)
        if isinstance(f, BM):
            return self.call(f.fn, [f.self] + list(args), kwargs)
        if isinstance(f, Fn):
            return self.call_fn(f, list(args), kwargs)
        if isinstance(f, Bi):
            return self.models.call_builtin(self, f, list(args), kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.fn, list(f.args) + list(args), kw)
        if isinstance(f, Wrap) and f.kind == 'static':
            return self.call(f.fn, args, kwargs)
        if isinstance(f, (Ref, NT, Ob)):
            m = self.user_method(f, '__call__')
            if m is not None:
                return self.call(self.bind(m, None, f, None), args, kwargs)
        if isinstance(f, O):
            return self.models.opaque_call(self, f, list(args), kwargs)
        if isinstance(f, K) or isinstance(f, (I, Sq, Tup)):
            self.exc('TypeError', 'object is not callable')
        raise Unsupported('call of %r' % (f,))

    def call_fn(self, f, args, kwargs):
        s = self.stubs.get(f.qual)
        if s is not None:
            r = s(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        return self.call_fn_body(f, args, kwargs)

    def call_fn_body(self, f, args, kwargs):
        self.funcs.add(f.qual)
        self.calls += 1
        self.depth += 1
        if self.depth > 120:
            raise Unsupported('call depth')
        try:
            locs = self.fn_locals(f)
            vars = self.bind_args(f, args, kwargs)
            ref = self.st.alloc('frame', None, vars)
            fr = Frame(ref.i, f.frame, f.mod, f.cls, f, locs)
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if f.is_gen:
                return self.loops.run_generator(self, f, fr)
            try:
                self.exec_block(f.node.body, fr)
            except Ret as r:
                return r.v
            return NONE
        finally:
            self.depth -= 1

    def fn_locals(self, f):
        if f.locs is None:
            node = f.node
            names, gen = scan_locals(node)
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                names.add(x.arg)
            if a.vararg:
                names.add(a.vararg.arg)
            if a.kwarg:
                names.add(a.kwarg.arg)
            f.locs = names
            f.is_gen = gen
        return f.locs

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kwargs = dict(kwargs)
        if len(args) > len(pos):
            if not a.vararg:
                self.exc('TypeError', '%s() takes %d positional arguments but %d were given' % (f.qual, len(pos), len(args)))
            out[a.vararg.arg] = Tup(tuple(('i', x) for x in args[len(pos):]))
            args = args[:len(pos)]
        elif a.vararg:
            out[a.vararg.arg] = Tup(())
        for n, v in zip(pos, args):
            out[n] = v
        for n in pos[len(args):] + [x.arg for x in a.kwonlyargs]:
            if n in kwargs:
                out[n] = kwargs.pop(n)
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in out:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.exc('TypeError', '%s() missing required argument %r' % (f.qual, n))
                out[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in out:
                if f.kwdefaults.get(x.arg) is None:
                    self.exc('TypeError', '%s() missing keyword argument %r' % (f.qual, x.arg))
                out[x.arg] = f.kwdefaults[x.arg]
        if a.kwarg:
            out[a.kwarg.arg] = self.st.alloc('dict', self.builtins['dict'], tuple((K(k), v) for k, v in kwargs.items()))
        elif kwargs:
            self.exc('TypeError', '%s() got an unexpected keyword argument %r' % (f.qual, sorted(kwargs)[0]))
        return out

    def instantiate(self, cls, args, kwargs):
        s = self.stubs.get(cls.qual)
        if s is not None:
            r = s(self, cls, args, kwargs)
            if r is not NotImplemented:
                return r
        if cls.builtin:
            return self.models.construct(self, cls, args, kwargs)
        if 'enum' in cls.flags:
            return self.models.enum_lookup(self, cls, args[0])
        o, new = self.cls_find(cls, '__new__')
        if new is not None and not o.builtin:
            fn = new.fn if isinstance(new, Wrap) else new
            obj = self.call(fn, [cls] + args, kwargs)
        else:
            obj = self.models.default_new(self, cls, args, kwargs)
        t = self.type_of(obj)
        if t is not None and t.issub(cls):
            o, init = self.cls_find(cls, '__init__')
            if init is not None and not o.builtin:
                self.call(init, [obj] + args, kwargs)
            else:
                self.models.default_init(self, obj, cls, args, kwargs, new is not None and not (o and o.builtin))
        return obj

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        self.ticks += 1
        if not self.ticks & 255 and time.time() > self.deadline:
            raise Limit('time limit')
        self.cur = (fr, s)
        if fr.mod.name not in self.extra:
            self.st.where = self.cur
        m(s, fr)

    def mark(self):
        fr, s = self.cur
        if fr.mod.name not in self.extra:
            self.st.where = self.cur

    @staticmethod
    def place(w):
        """the last construct of the analysed code on a path, as text"""
        if not isinstance(w, tuple):
            return w
        fr, s = w
        return '%s:%d in %s' % (fr.mod.path, s.lineno, fr.fn.qual if fr.fn else fr.mod.name)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Return(self, s, fr):
        v = self.eval(s.value, fr) if s.value is not None else NONE
        self.cur = (fr, s)
        self.mark()
        raise Ret(v)

    def x_Break(self, s, fr):
        raise Brk()

    def x_Continue(self, s, fr):
        raise Cont()

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        op = type(s.op)
        if isinstance(t, ast.Name):
            old = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            v = self.iop(op, old, self.eval(s.value, fr))
            self.assign(t, v, fr)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, fr)
            name = self.mangle(t.attr, fr)
            old = self.getattr(obj, name)
            v = self.iop(op, old, self.eval(s.value, fr))
            self.setattr(obj, name, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, fr)
            idx = self.eval_index(t.slice, fr)
            old = self.subscript(obj, idx)
            v = self.iop(op, old, self.eval(s.value, fr))
            self.models.setitem(self, obj, idx, v)
        else:
            raise Unsupported('augmented assignment')

    def iop(self, op, old, v):
        old, v = self.force(old), self.force(v)
        if isinstance(old, Ref):
            c = self.st.cell(old)
            if op is ast.Add and c.kind in ('list', 'ba'):
                self.models.extend(self, old, v)
                return old
            if c.kind == 'set' and op is ast.BitOr:
                self.models.call_builtin(self, Bi('set.update', old), [v], {})
                return old
            m = self.user_method(old, BINOPS[op].replace('__', '__i', 1))
            if m is not None:
                return self.call(m, [old, v])
            if op is ast.Mult and c.kind in ('list', 'ba'):
                raise Unsupported('in-place repeat')
        return self.binop(op, old, v)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if fr.i is None:
                    fr.mod.ns.pop(t.id, None)
                else:
                    self.st.wcell(fr.i, t.id).d.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj = self.eval(t.value, fr)
                self.models.delitem(self, obj, self.eval_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                obj = self.eval(t.value, fr)
                if isinstance(obj, Ref) and self.st.cell(obj).kind == 'inst':
                    d = self.st.wcell(obj, t.attr).d
                    if t.attr not in d:
                        self.exc('AttributeError', t.attr)
                    del d[t.attr]
                elif isinstance(obj, (Cls, Mod)) and self.loading:
                    obj.ns.pop(t.attr, None)
                else:
                    raise Unsupported('del attribute')
            else:
                raise Unsupported('del')

    def x_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_Raise(self, s, fr):
        self.mark()
        if s.exc is None:
            cur = getattr(self, 'handling', None)
            h = self.st.cell(fr.i).d.get(' handling') if fr.i is not None else None
            if h is not None:
                raise PyExc(h)
            raise Unsupported('bare raise')
        v = self.eval(s.exc, fr)
        if isinstance(v, Cls):
            v = self.instantiate(v, [], {})
        if s.cause is not None:
            self.eval(s.cause, fr)
        t = self.type_of(v)
        if t is None:
            raise Unsupported('raise of %r' % (v,))
        if not t.issub(self.builtins['BaseException']):
            self.exc('TypeError', 'exceptions must derive from BaseException')
        raise PyExc(v)

    def x_Assert(self, s, fr):
        v = self.eval(s.test, fr)
        if self.loading:
            return
        if not self.truth(v):
            self.exc('AssertionError')

    def x_Try(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.val, self.eval(h.type, fr)):
                        if h.name:
                            self.store(h.name, e.val, fr)
                        if fr.i is not None:
                            self.st.wcell(fr.i, ' handling').d[' handling'] = e.val
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            if h.name and fr.i is not None:
                                self.st.cell(fr.i).d.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        except (PyExc, Ret, Brk, Cont):
            self.exec_block(s.finalbody, fr)
            raise
        self.exec_block(s.finalbody, fr)

    def exc_match(self, val, cls):
        t = self.type_of(val)
        if isinstance(cls, Tup):
            return any(self.exc_match(val, p[1]) for p in cls.parts)
        if isinstance(cls, O):
            return self.branch(('excmatch', t.qual, cls.t))
        if not isinstance(cls, Cls):
            raise Unsupported('except %r' % (cls,))
        return t.issub(cls)

    def x_Global(self, s, fr):
        pass

    x_Nonlocal = x_Global

    def x_FunctionDef(self, s, fr):
        f = self.mkfn(s, fr, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, fr)
        self.store(s.name, v, fr)

    def mkfn(self, s, fr, name):
        defaults = tuple(self.eval(d, fr) for d in s.args.defaults)
        kwd = {}
        for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                kwd[a.arg] = self.eval(d, fr)
        if fr.kind == 'class':
            qual = fr.cls.qual + '.' + name
            parent = fr.parent
            cls = fr.cls
        elif fr.i is None:
            qual = fr.mod.name + '.' + name
            parent, cls = None, None
        else:
            qual = (fr.fn.qual if fr.fn else fr.mod.name) + '.' + name
            parent, cls = fr, fr.cls
        f = Fn(s, fr.mod, qual, parent, cls, defaults, kwd)
        f.name = name
        return f

    def decorate(self, d, v, fr):
        if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
            return Wrap({'staticmethod': 'static', 'classmethod': 'class', 'property': 'property'}[d.id], v)
        if isinstance(d, ast.Attribute) and d.attr == 'setter':
            w = self.eval(d.value, fr)
            n = Wrap('property', w.fn)
            n.setter = v
            return n
        dv = self.eval(d, fr)
        return self.call(dv, [v])

    def x_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        bases = [self.models.as_class(self, b) for b in bases]
        if not bases:
            bases = [self.builtins['object']]
        if fr.kind == 'class':
            qual = fr.cls.qual + '.' + s.name
        elif fr.i is None:
            qual = fr.mod.name + '.' + s.name
        else:
            qual = (fr.fn.qual if fr.fn else fr.mod.name) + '.' + s.name
        cls = Cls(s.name, qual, bases, {}, fr.mod, node=s)
        ref = self.st.alloc('frame', None, {})
        cfr = Frame(ref.i, fr if fr.i is not None and fr.kind != 'class' else (fr.parent if fr.kind == 'class' else None), fr.mod, cls, None, None, 'class')
        if s.body and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) and isinstance(s.body[0].value.value, str):
            self.st.cell(ref).d['__doc__'] = K(s.body[0].value.value)
        else:
            self.st.cell(ref).d['__doc__'] = NONE
        self.exec_block(s.body, cfr)
        ns = self.st.cell(ref).d
        ns.pop(' handling', None)
        cls.ns.update(ns)
        for b in bases:
            cls.flags |= b.flags
        if 'enum' in cls.flags:
            order = [n for n in ns if not n.startswith('__') and not isinstance(ns[n], (Fn, Wrap))]
            cls.ns[' members'] = order
            for n in order:
                for m in order[:order.index(n)]:
                    if cls.ns[m].value == ns[n]:
                        cls.ns[n] = cls.ns[m]
                        break
                else:
                    cls.ns[n] = Enm(cls, n, ns[n])
        if '__eq__' in ns and '__hash__' not in ns:
            cls.flags.add('unhashable')
        elif '__hash__' in ns:
            cls.flags.discard('unhashable')
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, fr), [v])
        self.store(s.name, v, fr)

    def x_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, fr)
            else:
                self.store(a.name.split('.')[0], self.import_module(a.name.split('.')[0]), fr)

    def x_ImportFrom(self, s, fr):
        if s.module == '__future__':
            return
        name = s.module or ''
        if s.level:
            base = fr.mod.name.split('.')
            if not fr.mod.pkg:
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([s.module] if s.module else []))
        m = self.import_module(name)
        for a in s.names:
            if a.name == '*':
                for k, v in list(m.ns.items()):
                    if not k.startswith('_'):
                        self.store(k, v, fr)
                continue
            v = m.ns.get(a.name)
            if v is None and not m.external:
                if (name + '.' + a.name) in self.mods or self.find_source(name + '.' + a.name):
                    v = self.import_module(name + '.' + a.name)
            if v is None:
                try:
                    v = self._getattr(m, a.name)
                except KeyError:
                    v = None
            if v is None:
                self.exc('ImportError', 'cannot import name %s from %s' % (a.name, name))
            self.store(a.asname or a.name, v, fr)

    def x_For(self, s, fr):
        self.loops.exec_for(self, s, fr)

    def x_While(self, s, fr):
        self.loops.exec_while(self, s, fr)

    def x_With(self, s, fr):
        raise Unsupported('with')

    # ---------------------------------------------------------------- modules
    def find_source(self, name):
        if name in self.extra:
            return self.extra[name], False
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py') and name.split('.')[0] in ('bitforge',):
            return p + '.py', False
        return None

    def import_module(self, name):
        if name in self.mods:
            return self.mods[name]
        src = self.find_source(name)
        if src is None:
            m = self.models.external_module(self, name)
            if m is None:
                self.exc('ImportError', 'no module named ' + name)
            self.mods[name] = m
            return m
        if '.' in name:
            parent = self.import_module(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, pkg = src
        m = Mod(name, path=path)
        m.pkg = pkg
        self.mods[name] = m
        with open(path, 'rb') as fh:
            text = fh.read()
        m.tree = ast.parse(text, path)
        m.ns['__name__'] = K(name)
        fr = Frame(None, None, m, None, None, None, 'mod')
        self.exec_block(m.tree.body, fr)
        m.done = True
        if '.' in name:
            parent.ns[name.rsplit('.', 1)[1]] = m
        return m

    # --------------------------------------------------------------- variables
    def lookup(self, name, fr):
        f = fr
        first = True
        while f is not None and f.i is not None:
            if f.kind != 'class' or first:
                d = self.st.cell(f.i).d
                if name in d:
                    return d[name]
                if f.locs is not None and name in f.locs:
                    if f.fn is not None and name in scan_globals(f.fn.node):
                        break
                    self.exc('UnboundLocalError', name)
            first = False
            f = f.parent
        v = self.st.nsw.get((fr.mod, name))
        if v is not None:
            return v
        v = fr.mod.ns.get(name)
        if v is not None:
            return v
        v = self.builtins.get(name)
        if v is not None:
            return v
        self.exc('NameError', 'name %r is not defined' % name)

    def store(self, name, v, fr):
        if fr.i is None:
            fr.mod.ns[name] = v
            return
        if fr.fn is not None and not isinstance(fr.fn.node, ast.Lambda) and fr.kind == 'fn':
            g, nl = scan_globals(fr.fn.node), scan_nonlocals(fr.fn.node)
            if name in g:
                self.setattr(fr.mod, name, v)
                return
            if name in nl:
                f = fr.parent
                while f is not None and f.i is not None:
                    if name in self.st.cell(f.i).d:
                        self.st.wcell(f.i, name).d[name] = v
                        return
                    f = f.parent
        self.st.wcell(fr.i, name).d[name] = v

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__') and fr.cls is not None:
            return '_%s%s' % (fr.cls.name.lstrip('_'), name)
        return name

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.models.setitem(self, self.eval(t.value, fr), self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                parts = self.loops.parts(self, v)
                if any(p[0] != 'i' for p in parts):
                    raise Unsupported('starred unpacking')
                k = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)][0]
                after = len(t.elts) - k - 1
                vals = [p[1] for p in parts]
                if len(vals) < len(t.elts) - 1:
                    self.exc('ValueError', 'not enough values to unpack')
                mid = vals[k:len(vals) - after]
                for e, x in zip(t.elts[:k], vals[:k]):
                    self.assign(e, x, fr)
                self.assign(t.elts[k].value, self.st.alloc('list', self.builtins['list'], tuple(('i', x) for x in mid)), fr)
                for e, x in zip(t.elts[k + 1:], vals[len(vals) - after:] if after else []):
                    self.assign(e, x, fr)
                return
            vals = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Starred):
            raise Unsupported('starred')
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        v = self.force(v)
        if isinstance(v, O) and v.cls is None:
            return [O(('item', v.t, i)) for i in range(n)]
        parts = self.loops.parts(self, v)
        total = tuplen(parts)
        if not self.branch(cond_eq0(padd(total, pconst(-n)))):
            self.exc('ValueError', 'wrong number of values to unpack')
        out = []
        for i in range(n):
            out.append(self.models.seq_index(self, parts, K(i)))
        return out

    # -------------------------------------------------------------- expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return K(e.value)

    def e_Name(self, e, fr):
        return self.force(self.lookup(e.id, fr))

    def e_Attribute(self, e, fr):
        v = self.eval(e.value, fr)
        return self.getattr(v, self.mangle(e.attr, fr))

    def e_Tuple(self, e, fr):
        return mkseq('tup', self.elts(e.elts, fr), self.st)

    def e_List(self, e, fr):
        return self.st.alloc('list', self.builtins['list'], self.elts(e.elts, fr))

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.loops.parts(self, self.eval(x.value, fr)))
            else:
                out.append(('i', self.eval(x, fr)))
        return tuple(out)

    def e_Set(self, e, fr):
        return self.models.mkset(self, self.elts(e.elts, fr))

    def e_Dict(self, e, fr):
        r = self.st.alloc('dict', self.builtins['dict'], ())
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.call_builtin(self, Bi('dict.update', r), [self.eval(v, fr)], {})
            else:
                kv = self.eval(k, fr)
                self.models.setitem(self, r, kv, self.eval(v, fr))
        return r

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.eval(x, fr)
            t = self.truth(v)
            if t != isand:
                # value known to be falsy (and) / truthy (or)
                if isinstance(v, C):
                    return K(t)
                return v
        return self.eval(e.values[-1], fr)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, C):
                return cV(c_not(v.c))
            return K(not self.truth(v))
        v = self.force(v)
        if isinstance(v, C):
            v = K(self.branch(v.c))
        if isinstance(e.op, ast.USub):
            if isinstance(v, K) and isinstance(v.v, (int, float)):
                return K(-v.v)
            if isint(v):
                return mkint(pscale(poly(v), -1))
            if isinstance(v, F):
                return F(('fneg', v))
            m = self.user_method(v, '__neg__')
            if m is not None:
                return self.call(m, [v])
        if isinstance(e.op, ast.Invert) and isint(v):
            return mkint(padd(pscale(poly(v), -1), pconst(-1)))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(v, O):
            return O(('unary', type(e.op).__name__, v))
        self.exc('TypeError', 'bad operand type for unary operator')

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(type(e.op), a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        n = len(e.ops)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            v = self.compare(op, left, right)
            if i == n - 1:
                return v
            if not self.truth(v):
                return K(False) if isinstance(v, C) else v
            left = right

    def e_Call(self, e, fr):
        # super() and super(X, self)
        f = self.eval(e.func, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                sv = self.eval(x.value, fr)
                ps = self.loops.parts(self, sv)
                for p in ps:
                    if p[0] != 'i':
                        raise Unsupported('star argument of unknown length')
                    args.append(p[1])
            else:
                args.append(self.eval(x, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                for kk, vv in self.models.dict_items(self, d):
                    kwargs[kk.v] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        if isinstance(f, Bi) and f.name == 'super' and not args:
            self_name = fr.fn.node.args.args[0].arg
            return Super(fr.cls, self.lookup(self_name, fr))
        if isinstance(f, Bi) and f.name in ('locals', 'globals', 'vars', 'eval', 'exec', 'dir') and not args:
            if f.name == 'locals':
                return self.st.alloc('dict', self.builtins['dict'], tuple((K(k), v) for k, v in self.st.cell(fr.i).d.items() if not k.startswith(' ')))
            if f.name == 'globals':
                return self.getattr(fr.mod, '__dict__')
            raise Unsupported(f.name)
        return self.call(f, args, kwargs)

    def e_Lambda(self, e, fr):
        return self.mkfn(e, fr, '<lambda>')

    def e_Subscript(self, e, fr):
        v = self.eval(e.value, fr)
        return self.subscript(v, self.eval_index(e.slice, fr))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            g = lambda x: NONE if x is None else self.eval(x, fr)
            return Slice(g(s.lower), g(s.upper), g(s.step))
        return self.eval(s, fr)

    def subscript(self, v, i):
        return self.force(self.models.getitem(self, self.force(v), self.force(i)))

    def e_JoinedStr(self, e, fr):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(('c', x.value))
            else:
                v = self.eval(x.value, fr)
                spec = ''
                if x.format_spec is not None:
                    s = self.e_JoinedStr(x.format_spec, fr)
                    spec = s.v if isinstance(s, K) else '?'
                conv = chr(x.conversion) if x.conversion and x.conversion > 0 else ''
                out.extend(parts_of(self.models.format_value(self, v, conv, spec)))
        return mkseq('str', out, self.st)

    def e_ListComp(self, e, fr):
        return self.st.alloc('list', self.builtins['list'], self.loops.comp_parts(self, e, fr))

    def e_SetComp(self, e, fr):
        return self.models.mkset(self, self.loops.comp_parts(self, e, fr))

    def e_GeneratorExp(self, e, fr):
        # the first iterable is evaluated immediately, the rest when consumed
        first = self.eval(e.generators[0].iter, fr)
        return self.st.alloc('iter', self.builtins['generator'], ('gen', e, fr, first))

    def e_DictComp(self, e, fr):
        pair = ast.Tuple([e.key, e.value], ast.Load())
        fake = ast.ListComp(pair, e.generators)
        parts = self.loops.comp_parts(self, fake, fr)
        r = self.st.alloc('dict', self.builtins['dict'], ())
        for p in parts:
            if p[0] != 'i':
                raise Unsupported('dict of unknown size')
            k, v = self.unpack(p[1], 2)
            self.models.setitem(self, r, k, v)
        return r

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else NONE
        out = self.st.cell(fr.i).d[' yields']
        c = self.st.wcell(out)
        c.d = c.d + (('i', v),)
        return NONE

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        out = self.st.cell(fr.i).d[' yields']
        ps = self.loops.parts(self, v)
        c = self.st.wcell(out)
        c.d = c.d + tuple(ps)
        return NONE

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    # ------------------------------------------------------------------- truth
    def truth(self, v):
        return self.branch(self.truth_cond(v))

    def truth_cond(self, v):
        v = self.force(v)
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, C):
            return v.c
        if isinstance(v, I):
            return c_not(cond_eq0(v.p))
        if isinstance(v, Sq):
            return c_not(cond_eq0(seqlen(v)))
        if isinstance(v, Tup):
            return c_not(cond_eq0(tuplen(v.parts)))
        if isinstance(v, (NT, Ob, Ref)):
            for n in ('__bool__', '__nonzero__', '__len__'):
                m = self.user_method(v, n)
                if m is not None and n != '__nonzero__':
                    return self.truth_cond(self.call(m, [v]))
            if isinstance(v, Ref):
                c = self.st.cell(v)
                if c.kind in ('list', 'set'):
                    return c_not(cond_eq0(tuplen(c.d)))
                if c.kind == 'ba':
                    return c_not(cond_eq0(tuplen(c.d)))
                if c.kind == 'dict':
                    if c.d and all(len(x) == 2 for x in c.d):
                        return True
                    if not c.d:
                        return False
                    raise Unsupported('truth of a dict')
            if isinstance(v, NT):
                return len(v.items) > 0
            return True
        if isinstance(v, F):
            return c_not(('fzero', v))
        if isinstance(v, O):
            if v.cls is not None and not v.cls.builtin:
                return True
            return ('truthy', v.t)
        return True

    # -------------------------------------------------------------- equality
    def eq(self, a, b):
        """condition for a == b"""
        a, b = self.force(a), self.force(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Ref, NT, Ob)) or (isinstance(x, O) and x.cls is not None):
                m = self.user_method(x, '__eq__')
                if m is not None:
                    r = self.call(m, [x, y])
                    if r == K(NotImplemented):
                        continue
                    return self.truth_cond(r)
        return self.eq0(a, b)

    def eq0(self, a, b):
        if isinstance(a, C) and isinstance(b, K) and isinstance(b.v, bool):
            return a.c if b.v else c_not(a.c)
        if isinstance(b, C) and isinstance(a, K) and isinstance(a.v, bool):
            return b.c if a.v else c_not(b.c)
        if isinstance(a, C):
            a = K(self.branch(a.c))
        if isinstance(b, C):
            b = K(self.branch(b.c))
        if isinstance(a, K) and isinstance(b, K):
            return a.v == b.v
        if isint(a) and isint(b):
            p = padd(poly(a), poly(b), -1)
            x, y = psingle(poly(a)), psingle(poly(b))
            if x and y and x != y and x[0] == y[0] == 'hashval' and self.branch(self.eq(x[1], y[1])):
                return True
            return cond_eq0(p)
        sa, sb = self.as_seq(a), self.as_seq(b)
        if sa is not None and sb is not None:
            return self.seq_eq(sa, sb)
        if isinstance(a, (Tup, NT)) and isinstance(b, (Tup, NT)):
            return self.parts_eq(self.loops.parts(self, a), self.loops.parts(self, b))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            ca, cb = self.st.cell(a), self.st.cell(b)
            if ca.kind == cb.kind == 'list':
                return self.parts_eq(ca.d, cb.d)
            if ca.kind == cb.kind == 'set':
                return self.models.set_eq(self, a, b)
            if ca.kind == cb.kind == 'dict':
                return self.models.dict_eq(self, a, b)
            return False
        if isinstance(a, O) or isinstance(b, O):
            if a == b:
                return True
            for x, y in ((a, b), (b, a)):
                if isinstance(x, O) and x.cls is not None:
                    t = self.type_of(y)
                    if t is not None and y == NONE:
                        return False
                    if t is not None and not (t.issub(x.cls) or x.cls.issub(t)):
                        return False
            if isinstance(a, O) and b == NONE:
                return ('isnone', a.t)
            if isinstance(b, O) and a == NONE:
                return ('isnone', b.t)
            return self.eqv(self.freeze(a), self.freeze(b))
        if isinstance(a, F) or isinstance(b, F):
            if a == b:
                return True
            if (isinstance(a, F) or isint(a) or (isinstance(a, K) and isinstance(a.v, float))) and \
               (isinstance(b, F) or isint(b) or (isinstance(b, K) and isinstance(b.v, float))):
                return self.eqv(a, b)
            return False
        if isinstance(a, Ob) and isinstance(b, Ob):
            return a == b and provenance(a) is not None or a is b
        if type(a) is type(b):
            return a == b
        return False

    def eqv(self, a, b):
        if aid(('V', a)) > aid(('V', b)):
            a, b = b, a
        return ('eqv', a, b)

    def as_seq(self, v):
        """bytes-like or text content as Sq/K, or None"""
        if isinstance(v, Sq):
            return v
        if isinstance(v, K) and isinstance(v.v, (bytes, str)):
            return v
        if isinstance(v, Ref):
            c = self.st.cell(v)
            if c.kind == 'ba':
                return mkseq('bytes', c.d, self.st)
        return None

    def seq_eq(self, a, b):
        if kind_of(a) != kind_of(b):
            return False
        a = mkseq(kind_of(a), parts_of(a), self.st)
        b = mkseq(kind_of(b), parts_of(b), self.st)
        if a == b:
            return True
        if isinstance(a, K) and isinstance(b, K):
            return False
        k = kind_of(a)
        P, Q = list(parts_of(a)), list(parts_of(b))
        while P and Q and P[0] == Q[0]:
            P.pop(0), Q.pop(0)
        while P and Q and P[-1] == Q[-1]:
            P.pop(), Q.pop()
        if k == 'bytes':
            if not (P and Q):
                # lengths only
                return cond_eq0(padd(tuplen(P), tuplen(Q), -1)) if (tuplen(P) or tuplen(Q)) else True
            if P[0][0] == 'c' == Q[0][0] and P[0][1][0] != Q[0][1][0] or P[-1][0] == 'c' == Q[-1][0] and P[-1][1][-1] != Q[-1][1][-1]:
                return False
            lp, lq = tuplen(P), tuplen(Q)
            d = padd(lp, lq, -1)
            c = cond_eq0(d)
            dd = c if isinstance(c, bool) else self.st.decide(c) if c[0] == 'eq0' else None
            if dd is False:
                return False
            if not pis_const(lp):
                lo, hi = self.st.rng(lp)
                if lo == hi:
                    lp = pconst(lo)
            if not pis_const(lq):
                lo, hi = self.st.rng(lq)
                if lo == hi:
                    lq = pconst(lo)
            n = None
            if pis_const(lp) and pis_const(lq):
                n = pcval(lp)
            elif (pis_const(lp) and pcval(lp) <= 8) or (pis_const(lq) and pcval(lq) <= 8):
                # compare lengths first, then bytes
                if not self.branch(c):
                    return False
                n = pcval(lp) if pis_const(lp) else pcval(lq)
            if n is not None and n <= 8 and not any(p[0] == 'e' for p in P + Q):
                A, B = Sq('bytes', tuple(P)), Sq('bytes', tuple(Q))
                cs = []
                for i in range(n):
                    x = self.retry(lambda: index_seq(self.st, A, K(i)))
                    y = self.retry(lambda: index_seq(self.st, B, K(i)))
                    cs.append(cond_eq0(padd(poly(x), poly(y), -1)))
                return c_and(cs)
        else:
            if not (P and Q):
                return cond_eq0(padd(tuplen(P), tuplen(Q), -1)) if (tuplen(P) or tuplen(Q)) else True
            if self.chars_differ(P[0], Q[0], 0) or self.chars_differ(P[-1], Q[-1], -1):
                return False
            d = padd(tuplen(P), tuplen(Q), -1)
            c = cond_eq0(d)
            if c is False or (not isinstance(c, bool) and c[0] == 'eq0' and self.st.decide(c) is False):
                return False
        return self.eqv(mkseq(k, P, self.st), mkseq(k, Q, self.st))

    def chars_differ(self, p, q, end):
        """the first (last) characters of two text parts cannot be equal"""
        def chars(p):
            if p[0] == 'c':
                return set(p[1][end])
            if p[0] == 'a':
                t = p[1]
                if t[0] == 'slice':
                    t = t[1]
                if t[0] in self.models.ALPHABET and self.st.rng(poly(p[2]))[0] >= 1:
                    cs = set(self.models.ALPHABET[t[0]])
                    if t[0] == 'dstr' and self.st.rng(poly(t[1]))[0] < 0:
                        cs.add('-')
                    return cs
            return None
        if p[0] == 'c' == q[0]:
            n = min(len(p[1]), len(q[1]))
            return p[1][:n] != q[1][:n] if end == 0 else p[1][-n:] != q[1][-n:]
        a, b = chars(p), chars(q)
        return a is not None and b is not None and not a & b

    def parts_eq(self, P, Q):
        P, Q = list(norm('tup', P, self.st)), list(norm('tup', Q, self.st))
        cs = []
        while P and Q:
            if P[0] == Q[0]:
                P.pop(0), Q.pop(0)
                continue
            if P[-1] == Q[-1]:
                P.pop(), Q.pop()
                continue
            break
        if all(p[0] == 'i' for p in P + Q):
            if len(P) != len(Q):
                return False
            out = []
            for p, q in zip(P, Q):
                c = self.eq(p[1], q[1])
                if c is False:
                    return False
                out.append(c)
            return c_and(out)
        n = tuplen(P)
        m = tuplen(Q)
        c = cond_eq0(padd(n, m, -1))
        if not self.branch(c):
            return False
        # compare item by item when the length is now known
        if pis_const(n) or pis_const(m):
            k = pcval(n) if pis_const(n) else pcval(m)
            out = []
            for i in range(k):
                x = self.models.seq_index(self, tuple(P), K(i))
                y = self.models.seq_index(self, tuple(Q), K(i))
                if not self.branch(self.eq(x, y)):
                    return False
            return True
        return self.eqv(Tup(tuple(P)), Tup(tuple(Q)))

    # ------------------------------------------------------------- comparison
    def compare(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(op, ast.Eq):
            return cV(self.eq(a, b))
        if isinstance(op, ast.NotEq):
            return cV(self.ne(a, b))
        if isinstance(op, ast.Is) or isinstance(op, ast.IsNot):
            c = self.identical(a, b)
            return cV(c if isinstance(op, ast.Is) else c_not(c))
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.models.contains(self, b, a)
            return cV(c if isinstance(op, ast.In) else c_not(c))
        return self.order(CMPS[type(op)], a, b)

    def ne(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Ref, NT, Ob)):
                m = self.user_method(x, '__ne__')
                if m is not None:
                    return self.truth_cond(self.call(m, [x, y]))
                if isinstance(x, NT):
                    # tuple.__ne__ is inherited: it ignores a user __eq__
                    if isinstance(y, (NT, Tup)):
                        return c_not(self.parts_eq(self.loops.parts(self, x), self.loops.parts(self, y)))
                    return True
        return c_not(self.eq(a, b))

    def identical(self, a, b):
        if isinstance(a, K) and isinstance(b, K):
            if a.v is None or b.v is None or isinstance(a.v, bool) or isinstance(b.v, bool):
                return a.v is b.v
            return a == b
        if isinstance(a, O) and b == NONE or isinstance(b, O) and a == NONE:
            o = a if isinstance(a, O) else b
            if o.cls is not None and o.cls.name != 'NoneType':
                return False
            return ('isnone', o.t)
        if isinstance(a, C) and isinstance(b, K) and isinstance(b.v, bool) or isinstance(b, C) and isinstance(a, K) and isinstance(a.v, bool):
            return self.eq0(a, b)
        if isinstance(a, O) and isinstance(b, O):
            return True if a == b else self.eqv(a, b)
        if isinstance(a, O) or isinstance(b, O):
            o, x = (a, b) if isinstance(a, O) else (b, a)
            t = self.type_of(x)
            if o.cls is not None and t is not None and not (t.issub(o.cls) or o.cls.issub(t)):
                return False
            return self.eqv(self.freeze(a), self.freeze(b))
        if isint(a) and isint(b):
            raise Unsupported('identity of integers')
        return a == b

    def order(self, name, a, b):
        for x, y, n in ((a, b, name), (b, a, SWAP[name])):
            if isinstance(x, (Ref, NT, Ob)) or (isinstance(x, O) and x.cls is not None and not x.cls.builtin):
                m = self.user_method(x, n)
                if m is not None:
                    r = self.call(self.bind(m, None, x, None), [y])
                    if r == K(NotImplemented):
                        continue
                    return r
        if isinstance(a, C):
            a = K(self.branch(a.c))
        if isinstance(b, C):
            b = K(self.branch(b.c))
        if isinstance(a, K) and isinstance(b, K):
            try:
                return K({'__lt__': lambda: a.v < b.v, '__le__': lambda: a.v <= b.v,
                          '__gt__': lambda: a.v > b.v, '__ge__': lambda: a.v >= b.v}[name]())
            except TypeError:
                self.exc('TypeError', 'not orderable')
        if isint(a) and isint(b):
            p, q = poly(a), poly(b)
            if name == '__lt__':
                return cV(cond_ge0(padd(padd(q, p, -1), pconst(-1))))
            if name == '__le__':
                return cV(cond_ge0(padd(q, p, -1)))
            if name == '__gt__':
                return cV(cond_ge0(padd(padd(p, q, -1), pconst(-1))))
            return cV(cond_ge0(padd(p, q, -1)))
        num = lambda v: isint(v) or isinstance(v, F) or (isinstance(v, K) and isinstance(v.v, float))
        if num(a) and num(b):
            if name in ('__gt__', '__ge__'):
                return C(('f' + SWAP[name], b, a))
            return C(('f' + name, a, b))
        if isinstance(a, Ref) and self.st.cell(a).kind == 'set' and isinstance(b, Ref):
            return cV(self.models.set_order(self, name, a, b))
        if isinstance(a, O) or isinstance(b, O):
            return C(('cmp', name, self.freeze(a), self.freeze(b)))
        ta, tb = self.type_of(a), self.type_of(b)
        if ta is tb or {ta.name, tb.name} <= {'bytes', 'bytearray', 'Buffer'}:
            if ta.name in ('str', 'bytes', 'bytearray', 'tuple', 'list'):
                return C(('cmp', name, self.freeze(a), self.freeze(b)))
        self.exc('TypeError', '%s not supported between %s and %s' % (name, ta.name, tb.name))

    # --------------------------------------------------------------- arithmetic
    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, C):
            a = K(self.branch(a.c))
        if isinstance(b, C):
            b = K(self.branch(b.c))
        return self.models.binop(self, op, a, b)

    # ----------------------------------------------------------------- freezing
    def freeze(self, v, seen=()):
        """immutable description of a value (references replaced by content)"""
        v = self.force_shallow(v)
        if isinstance(v, Ref):
            if v.i in seen:
                return O(('cycle',))
            seen = seen + (v.i,)
            c = self.st.cell(v)
            if c.kind == 'list':
                return Tup(self.freeze_parts(c.d, seen))
            if c.kind == 'ba':
                return mkseq('bytes', c.d, self.st)
            if c.kind == 'dict':
                return O(('dict',) + tuple((self.freeze(k, seen), self.freeze(x, seen)) for k, x in c.d if True))
            if c.kind == 'set':
                return O(('set', self.freeze_parts(c.d, seen)))
            if c.kind == 'inst':
                return Ob(c.cls, {k: self.freeze(x, seen) for k, x in c.d.items()})
            if c.kind == 'iter':
                ps = self.loops.iter_parts(self, v)
                return O(('iter', self.freeze_parts(ps, seen)))
            return O((c.kind, v.i))
        if isinstance(v, Tup):
            ps = self.freeze_parts(v.parts, seen)
            return v if ps == v.parts else Tup(ps)
        if isinstance(v, NT):
            items = tuple(self.freeze(x, seen) for x in v.items)
            if items == v.items:
                return v
            r = NT(v.cls, items)
            p = provenance(v)
            if p is not None:
                seqs.PROV[r] = p
            return r
        return v

    def force_shallow(self, v):
        return v

    def freeze_parts(self, parts, seen=()):
        out = []
        for p in parts:
            if p[0] == 'i':
                out.append(('i', self.freeze(p[1], seen)))
            else:
                out.append(p)
        return tuple(out)


# ----------------------------------------------------------------- scope scans
_scan = {}


def scan_locals(fn):
    key = (id(fn), 'l')
    if key in _scan:
        return set(_scan[key][1]), _scan[key][2]
    names = set()
    gen = [False]
    glob = set()

    def target(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and not top:
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    target(x.target)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            target(n.target)
        elif isinstance(n, ast.For):
            target(n.target)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    target(i.optional_vars)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        for c in ast.iter_child_nodes(n):
            walk(c)
    if isinstance(fn, ast.Lambda):
        walk(fn.body)
    else:
        for s in fn.body:
            walk(s)
    _scan[key] = (fn, frozenset(names - glob), gen[0])
    return set(names - glob), gen[0]


def _scan_kind(fn, kind, cls):
    key = (id(fn), kind)
    if key not in _scan:
        s = set()
        if not isinstance(fn, ast.Lambda):
            for n in ast.walk(fn):
                if isinstance(n, cls):
                    s.update(n.names)
        _scan[key] = (fn, s)
    return _scan[key][1]


def scan_globals(fn):
    return _scan_kind(fn, 'g', ast.Global)


def scan_nonlocals(fn):
    return _scan_kind(fn, 'n', ast.Nonlocal)
