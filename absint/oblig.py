"""Obligations: a specification function and a subject function, interpreted over the
same abstract inputs, must have equal abstract results in every partition."""
import os
import random
import signal
import time

from .values import *
from .state import State, Infeasible, Unsupported
from .seqs import *
from . import seqs, witness
from .engine import Engine, PyExc, Limit, c_and, cond_ge0, cond_eq0, c_not

PROVED, REFUTED, UNKNOWN = 'proved', 'refuted', 'undecided'


# ---------------------------------------------------------------------- domains
class Dom(object):
    def make(self, eng, name):
        raise NotImplementedError

    def samplers(self, name):
        return {}

    def text(self):
        return ''


def fixed(dom, eng, name):
    """the value this input has in a refined cell of the partition, None: it stays symbolic"""
    cell = getattr(eng, 'cell', None)
    if cell is None or name.startswith('earlier.'):
        return None
    if name not in cell.vals:
        v = None
        if cell.rnd.random() < cell.share.get(type(dom).__name__, 0):
            v = dom.fix(cell.rnd)
        cell.vals[name] = v
    v = cell.vals[name]
    return None if v is None else eng.models.lift(eng, v)


class Cell(object):
    """a cell of the abstract input in which some of the inputs are single values"""

    def __init__(self, n, seed):
        self.rnd = random.Random(seed * 1000 + n)
        self.share = [{'Bytes': 1}, {'Bytes': 1, 'Int': 1, 'Bool': 1}, {'Bytes': 1, 'Int': .5}, {'Int': 1, 'Bool': 1}, {'Bytes': .6, 'Int': .6}, {'Bytes': 1, 'Int': 1, 'Bool': 1}][n % 6]
        self.vals = {}


class Const(Dom):
    def __init__(self, v):
        self.v = v

    def make(self, eng, name):
        return eng.models.lift(eng, self.v)


class Int(Dom):
    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def fix(self, rnd):
        lo, hi = self.lo, self.hi
        if hi is not None and hi > 2 ** 200:
            return None
        xs = [x for x in (lo, hi, 0, 1, 2, 3, 252, 253, 255, 256, 65535, 0x01020304, rnd.randrange(2 ** 31), None if lo is None else lo + 1, None if hi is None else hi - 1)
              if x is not None and (lo is None or x >= lo) and (hi is None or x <= hi)]
        return rnd.choice(xs) if xs else None

    def make(self, eng, name):
        v = fixed(self, eng, name)
        if v is not None:
            return v
        t = ('sym', name)
        p = patom(t)
        if self.lo is not None:
            eng.assume(cond_ge0(padd(p, pconst(-self.lo))))
        if self.hi is not None:
            eng.assume(cond_ge0(padd(pconst(self.hi), p, -1)))
        return mkint(p)


class Bytes(Dom):
    """byte string of length lo..hi (hi None: any)"""

    def __init__(self, lo=0, hi=None, ba=False):
        self.lo, self.hi, self.ba = lo, hi, ba

    def text(self):
        return str(self.lo) if self.lo == self.hi else '%s..%s' % (self.lo, '' if self.hi is None else self.hi)

    def fix(self, rnd):
        lo, hi = self.lo, self.hi
        if self.ba or lo > 600:
            return None
        n = rnd.choice([lo, lo + 1, lo + 2, lo + 5, min(lo + 33, hi or 99)])
        if hi is not None:
            n = min(n, hi)
        k = rnd.randrange(4)
        return bytes((i + 1) % 256 if k == 0 else rnd.randrange(256) if k == 1 else rnd.randrange(6) if k == 2 else rnd.choice((0, 0x80, 0xff)) for i in range(n))

    def make(self, eng, name):
        v = fixed(self, eng, name)
        if v is not None:
            return v
        t = ('sym', name)
        if self.lo == self.hi:
            LEN[t] = K(self.lo)
            parts = (('a', t, K(self.lo)),)
        else:
            LEN.pop(t, None)
            n = termlen(t)
            eng.assume(cond_ge0(padd(poly(n), pconst(-self.lo))))
            if self.hi is not None:
                eng.assume(cond_ge0(padd(pconst(self.hi), poly(n), -1)))
            parts = (('a', t, n),)
        if self.ba:
            return eng.st.alloc('ba', eng.builtins['bytearray'], norm('bytes', parts, eng.st))
        return mkseq('bytes', parts, eng.st)

    def samplers(self, name):
        t = ('sym', name)
        ln = ('len', t)
        return {t: lambda env, a: witness.sample_bytes(env, t), ln: lambda env, a: env.pick_int(a)}


class Text(Dom):
    def __init__(self, pool=(), lo=0, hi=None):
        self.pool, self.lo, self.hi = pool, lo, hi

    def make(self, eng, name):
        t = ('sym', name)
        LEN.pop(t, None)
        n = termlen(t)
        eng.assume(cond_ge0(padd(poly(n), pconst(-self.lo))))
        if self.hi is not None:
            eng.assume(cond_ge0(padd(pconst(self.hi), poly(n), -1)))
        return mkseq('str', (('a', t, n),), eng.st)

    def samplers(self, name):
        t = ('sym', name)
        pool = list(self.pool) + ['', '0', 'a', 'abc', '00', 'deadbeef', 'DEADBEEF', 'zz', '0x00', '12', '1.5', '\xe9', '\u0660',
                                  '1', 'ff' * 20, '5 6', ' ', 'A', 'é0']

        def s(env, a):
            if env.rnd.random() < .8 or not pool:
                return env.rnd.choice(pool)
            return ''.join(env.rnd.choice('0123456789abcdef') for _ in range(env.rnd.randrange(0, 70)))
        return {t: s}


class Bool(Dom):
    def fix(self, rnd):
        return rnd.random() < .5

    def make(self, eng, name):
        v = fixed(self, eng, name)
        if v is not None:
            return v
        return C(('boolsym', name))


class Float(Dom):
    """a finite float"""

    def make(self, eng, name):
        v = F(('sym', name))
        for c in ('fnan', 'finf'):
            if eng.branch((c, v)):
                raise Infeasible()
        return v

    def samplers(self, name):
        return {('sym', name): lambda env, a: env.rnd.choice([0.0, 1.0, -1.5, 0.1, 1e-8, 1e-9, 5e-9, 1.5e-8, 123.22, 0.29, 20999999.99999999, 1e300, env.rnd.uniform(0, 1e4), round(env.rnd.uniform(0, 1e4), 8)])}


class Opaque(Dom):
    """some value of unknown type"""

    def make(self, eng, name):
        return O(('sym', name))


class Seq(Dom):
    """list or tuple with a known number of elements"""

    def __init__(self, elems, kind='list'):
        self.elems, self.kind = elems, kind

    def text(self):
        return '[%s]' % ', '.join(d.text() for d in self.elems)

    def make(self, eng, name):
        ps = tuple(('i', d.make(eng, '%s_%d' % (name, i))) for i, d in enumerate(self.elems))
        if self.kind == 'tuple':
            return Tup(ps)
        return eng.st.alloc('list', eng.builtins['list'], ps)

    def samplers(self, name):
        out = {}
        for i, d in enumerate(self.elems):
            out.update(d.samplers('%s_%d' % (name, i)))
        return out


class Build(Dom):
    """value built by a function of the specification module from sub-domains"""

    def __init__(self, fn, **doms):
        self.fn, self.doms = fn, doms

    def text(self):
        return ' '.join([d.text() for d in self.doms.values()])

    def make(self, eng, name):
        args = {k: d.make(eng, '%s.%s' % (name, k)) for k, d in self.doms.items()}
        f = eng.spec_fn(self.fn)
        return eng.call(f, [], args)

    def samplers(self, name):
        out = {}
        for k, d in self.doms.items():
            out.update(d.samplers('%s.%s' % (name, k)))
        return out


class Many(Dom):
    """tuple of unknown length lo..hi whose elements are made from a field description"""

    def __init__(self, mk, lo=0, hi=2 ** 32, samplers=None):
        self.mk, self.lo, self.hi = mk, lo, hi
        self.smp = samplers or {}

    def make(self, eng, name):
        t = ('sym', name)
        ELEM[t] = self.mk
        LEN.pop(t, None)
        n = termlen(t)
        eng.assume(cond_ge0(padd(poly(n), pconst(-self.lo))))
        eng.assume(cond_ge0(padd(pconst(self.hi), poly(n), -1)))
        return Tup((('s', t, n),))

    def samplers(self, name):
        return {('len', ('sym', name)): lambda env, a: env.pick_int(a)}


# ------------------------------------------------------------------ obligations
class Obl(object):
    def __init__(self, mod, name, /, doms=(), spec=None, impl=None, mutates=False, stubs=None, assume=None, note='', limit=None,
                 seconds=None, **kw):
        self.mod, self.name = mod, name
        self.doms = tuple(doms) + tuple(kw.items())
        self.seconds = seconds
        self.spec = spec or 'spec_' + name
        self.impl = impl or 'impl_' + name
        self.mutates = mutates
        self.stubs = stubs or {}
        self.assume = assume
        self.note = note
        self.limit = limit


    def label(self):
        cs = ['%s=%r' % (n, d.v) for n, d in self.doms if isinstance(d, Const)]
        ds = ['%s:%s' % (n, d.text()) for n, d in self.doms if not isinstance(d, Const) and d.text()]
        return '%s(%s)%s' % (self.name, ', '.join(cs + ds), ' ' + self.note if self.note else '')


class Hard(BaseException):
    """the hard time limit of an obligation"""


def alarm(seconds):
    def stop(*a):
        raise Hard()
    try:
        signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, seconds)
    except ValueError:
        pass        # not the main thread


class Diff(object):
    def __init__(self, kind, a, b, where=''):
        self.kind, self.a, self.b, self.where = kind, a, b, where


def outcome(eng, f, args):
    """('ret', value) or ('exc', class, value)"""
    try:
        return ('ret', eng.call(f, args))
    except PyExc as e:
        return ('exc', eng.type_of(e.val), e.val)


def canon(eng, v):
    """canonical frozen form of a value in the current state; may fork"""
    v = eng.force(v)
    if isinstance(v, C):
        return K(eng.branch(v.c))
    if isinstance(v, I):
        lo, hi = eng.st.rng(v.p)
        if lo == hi:
            return K(lo)
        return mkint(resimp(eng.st, v.p))
    if isinstance(v, Ref):
        c = eng.st.cell(v)
        if c.kind == 'ba':
            return canon(eng, mkseq('bytes', c.d, eng.st))
        if c.kind == 'list':
            return canon(eng, mkseq('tup', c.d, eng.st))
        if c.kind == 'iter':
            return canon(eng, mkseq('tup', eng.loops.parts(eng, v), eng.st))
        if c.kind == 'inst':
            return Ob(c.cls, {k: canon(eng, x) for k, x in c.d.items()})
        if c.kind == 'dict':
            return O(('dict',) + tuple(('pair', canon(eng, e[0]), canon(eng, e[1])) if len(e) == 2 else e for e in c.d))
        if c.kind == 'set':
            return O(('set',) + tuple(sorted((('i', canon(eng, p[1])) if p[0] == 'i' else p for p in c.d), key=repr)))
        return eng.freeze(v)
    if isinstance(v, Sq):
        if v.kind == 'str':
            ps = []
            for p in v.parts:
                if p[0] == 'a' and p[1][0] == 'hex':
                    ps.extend(eng.models.hex_parts(eng, parts_of(canon(eng, p[1][1]))))
                else:
                    ps.append(p)
            return mkseq('str', tuple(ps), eng.st)
        ps = tuple(('b', mkint(resimp(eng.st, poly(p[1])))) if p[0] == 'b' else p for p in v.parts)
        return mkseq(v.kind, ps, eng.st)
    if isinstance(v, Tup):
        return mkseq('tup', tuple(('i', canon(eng, p[1])) if p[0] == 'i' else p for p in v.parts), eng.st)
    if isinstance(v, NT):
        r = NT(v.cls, tuple(canon(eng, x) for x in v.items))
        return r
    return v


INTH = ('sym', 'at', 'len', 'fdiv', 'mod', 'byte', 'fld', 'nonneg', 'dec', 'ndig', 'count', 'band', 'lookup')


def tidy(eng, v):
    """replace integers whose value the partition determines, everywhere inside v"""
    st = eng.st

    def f(t):
        if t[0] in INTH:
            lo, hi = st.rng(patom(t))
            if lo == hi:
                return K(lo)
            if t[0] in ('fdiv', 'mod'):
                q = resimp(st, patom(t))
                if q != patom(t):
                    return smap(mkint(q), f)
        return None
    f.memo = {}
    try:
        for _ in range(3):
            w = smap(v, f)
            if w == v:
                break
            v = w
        return v
    except Unsupported:
        return v


def imprecise(v):
    return mentions(v, lambda t: t[0] in ('imp', 'ph'))


def same_val(eng, a, b):
    """True, or the differing pair of canonical values"""
    if a == b:
        return True
    if isint(a) and isint(b) and not isinstance(getattr(a, 'v', 0), bool) and not isinstance(getattr(b, 'v', 0), bool):
        if eng.st.decide_eq(padd(poly(a), poly(b), -1)):
            return True
        return a, b
    if isinstance(a, Tup) and isinstance(b, Tup):
        if all(p[0] == 'i' for p in a.parts + b.parts) and len(a.parts) == len(b.parts):
            for p, q in zip(a.parts, b.parts):
                r = same_val(eng, p[1], q[1])
                if r is not True:
                    return r
            return True
    if isinstance(a, NT) and isinstance(b, NT) and a.cls is b.cls:
        for x, y in zip(a.items, b.items):
            r = same_val(eng, x, y)
            if r is not True:
                return r
        return True
    if isinstance(a, Ob) and isinstance(b, Ob) and a.cls is b.cls:
        da, db = dict(a.attrs), dict(b.attrs)
        if set(da) == set(db):
            for k in da:
                r = same_val(eng, da[k], db[k])
                if r is not True:
                    return r
            return True
    if isinstance(a, (Sq, K)) and isinstance(b, (Sq, K)) and eng.as_seq(a) is not None and eng.as_seq(b) is not None:
        c = eng.seq_eq(a, b)
        if c is True:
            return True
        if not isinstance(c, bool):
            d = all_true(eng, c)
            if d:
                return True
    if congruent(eng, a, b):
        return True
    return a, b


def congruent(eng, a, b):
    """the same term up to integers that are equal in this partition"""
    if a == b:
        return True
    if isint(a) and isint(b):
        if eng.st.decide_eq(padd(poly(a), poly(b), -1)) is True:
            return True
        x, y = psingle(poly(a)), psingle(poly(b))
        return bool(x and y and congruent(eng, x, y))
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        if len(a) == len(b) == 3 and a[0] == b[0] == 'lookup' and isint(a[2]) and congruent(eng, a[2], b[2]):
            lo, hi = eng.st.rng(poly(a[2]))
            x, y = [[e for e in t[1] if isinstance(e[0], K) and isinstance(e[0].v, int) and lo <= e[0].v <= hi] for t in (a, b)]
            if x and x == y:
                return True
        return len(a) == len(b) and all(congruent(eng, x, y) for x, y in zip(a, b))
    if isinstance(a, (Sq, Tup)):
        if getattr(a, 'kind', 0) == getattr(b, 'kind', 0) and congruent(eng, a.parts, b.parts):
            return True
        if not isinstance(a, Sq) or a.kind != b.kind or not any(c[0] == 'eqv' and v for c, v in eng.st.facts.items()):
            return False
        P, Q = list(a.parts), list(b.parts)
        while P and Q and P[0] == Q[0]:
            P.pop(0), Q.pop(0)
        while P and Q and P[-1] == Q[-1]:
            P.pop(), Q.pop()
        x, y = mkseq(a.kind, tuple(P), eng.st), mkseq(a.kind, tuple(Q), eng.st)
        return eng.st.facts.get(('eqv', x, y), eng.st.facts.get(('eqv', y, x))) is True
    return False


def all_true(eng, c):
    if isinstance(c, bool):
        return c
    if c[0] == 'and':
        return all(all_true(eng, x) for x in c[1:])
    if c[0] == 'not':
        return eng.st.decide(c[1]) is False
    return eng.st.decide(c) is True


# ----------------------------------------------------------------------- runner
class Result(object):
    def __init__(self, obl):
        self.obl = obl
        self.verdict = PROVED
        self.paths = 0
        self.diffs = []      # (description dict)
        self.unknown = []    # reasons
        self.funcs = ()
        self.wall = 0.0
        self.outcomes = {}

    def as_dict(self):
        return {'obligation': self.obl.name, 'spec': self.obl.spec, 'subject': self.obl.impl, 'verdict': self.verdict,
                'partitions': self.paths, 'outcomes': self.outcomes, 'wall_s': round(self.wall, 2),
                'undecided_because': sorted(set(self.unknown))[:5]}


class Runner(object):
    """analyses the specification modules and /repo once, then decides obligations"""

    def __init__(self, repo, specs):
        self.eng = Engine(repo, dict(specs))
        self.specs = specs

    def load(self, name):
        """load a specification module (which imports the subject); PyExc when an anchor is gone"""
        return self.eng.import_module(name)

    def ready(self):
        self.eng.st.freeze_base()
        self.eng.loading = False

    def fn(self, mod, name):
        m = self.eng.mods[mod]
        return m.ns.get(name)

    def run(self, obl, seed=1, budget=None):
        t0 = time.time()
        try:
            r = self._run(obl, seed, False)
            if r == 'twice':
                r = self._run(obl, seed, True)
        except Hard:
            r = Result(obl)
            r.verdict = UNKNOWN
            r.unknown.append('time limit')
            r.funcs = sorted(self.eng.funcs)
        if r.verdict == UNKNOWN:
            self.refine(obl, r, seed, budget)
        alarm(0)
        r.wall = time.time() - t0
        return r

    CELLS = 6
    CELL_SECONDS = 8

    def refine(self, obl, r, seed, budget):
        """undecided: look for a difference in finer cells of the input, where some inputs are single values"""
        for n in range(self.CELLS):
            if budget is not None and time.time() > budget:
                return
            self.eng.cell = Cell(n, seed)
            try:
                x = self._run(obl, seed, False)
                if x == 'twice':
                    x = self._run(obl, seed, True)
            except (Unsupported, RecursionError, Infeasible):
                continue
            except Hard:
                return
            finally:
                vals, self.eng.cell = self.eng.cell.vals, None
            if x.verdict == REFUTED:
                for d in x.diffs:
                    d['member'] = dict(d['member'], **{k: repr(v)[:200] for k, v in vals.items() if v is not None})
                r.verdict, r.diffs, r.funcs = REFUTED, x.diffs, sorted(set(r.funcs) | set(x.funcs))
                return

    def _run(self, obl, seed, twice):
        eng = self.eng
        res = Result(obl)
        mod = obl.mod
        spec, impl = self.fn(mod, obl.spec), self.fn(mod, obl.impl)
        if spec is None or impl is None:
            raise KeyError('obligation %s: no %s / %s in %s' % (obl.name, obl.spec, obl.impl, mod))
        eng.spec_fn = lambda n: self.fn(mod, n)
        eng.stubs = dict(obl.stubs)
        eng.funcs = set()
        alarm((self.CELL_SECONDS if getattr(eng, 'cell', None) else obl.seconds or 60) + 25)
        eng.deadline = time.time() + (self.CELL_SECONDS if getattr(eng, 'cell', None) else obl.seconds or 60)
        base_writes = []

        def mk(pre=''):
            return [d.make(eng, pre + n) for n, d in obl.doms]

        def reset():
            eng.st.events = []
            eng.st.fresh_n = 0

        def thunk():
            if twice:
                reset()
                try:
                    a0 = mk('earlier.')
                    outcome(eng, impl, a0)
                except PyExc:
                    pass
            reset()
            shared = self.set_shared(({}, {}))
            args = mk()
            if obl.assume is not None:
                f = self.fn(mod, obl.assume)
                if not eng.truth(eng.call(f, args)):
                    raise Infeasible()
            reset()
            want = outcome(eng, spec, args)
            if want[0] == 'exc' and want[1].builtin and want[1].name not in ('ValueError', 'NotImplementedError'):
                raise Unsupported('the specification raises %s' % show(eng.freeze(want[2])))
            if want[0] == 'ret':
                wv = canon(eng, want[1])
                if eng.st.nsw or self.wrote_base():
                    wv = canon(eng, eng.freeze(wv))
            self.set_shared(shared)
            reset()
            args = mk()
            before = [eng.freeze(a) for a in args] if not obl.mutates else None
            n_nsw = len(eng.st.nsw)
            got = outcome(eng, impl, args)
            eng.st.saturate()
            if not twice:
                if len(eng.st.nsw) > n_nsw or self.wrote_base():
                    base_writes.append(1)
            if want[0] == 'exc':
                if got[0] == 'exc' and got[1].issub(want[1]):
                    return 'same', 'raises ' + want[1].name, None, None
                if got[0] == 'exc':
                    return 'diff', 'raises ' + got[1].name, want[1], got[1]
                return 'kind', 'returned', want, got
            if got[0] == 'exc':
                return 'kind', 'raised', want, got
            gv = canon(eng, got[1])
            wv, gv = tidy(eng, canon(eng, wv)), tidy(eng, canon(eng, gv))
            s = same_val(eng, wv, gv)
            if s is not True:
                return 'diff', 'value', wv, gv, s
            if before is not None:
                for (n, d), a, b in zip(obl.doms, args, before):
                    x = eng.freeze(a)
                    if x != b and not unchanged(eng, b, x):
                        return 'mut', 'argument %s was changed' % n, b, x
            return 'same', 'returns', None, None

        limited = False
        try:
            paths = eng.explore(thunk, State_for(eng), obl.limit)
        except (Limit, Hard) as e:
            # the paths completed until then may still show a difference
            alarm(40)
            limited = True
            paths = getattr(e, 'paths', [])[:400]
            res.unknown.append(str(e) or 'time limit')
        if base_writes and not twice and not res.unknown:
            return 'twice'
        res.paths = len(paths)
        res.funcs = sorted(eng.funcs)
        smp = {}
        for n, d in obl.doms:
            smp.update(d.samplers(n))
            if twice:
                smp.update(d.samplers('earlier.' + n))
        try:
            for p in paths:
                if p.kind == 'unsup':
                    res.unknown.append(p.val)
                    continue
                if p.kind == 'exc':
                    res.unknown.append('building the inputs raised ' + show(eng_freeze(eng, p)))
                    continue
                v = p.val
                res.outcomes[v[0] + ' ' + v[1]] = res.outcomes.get(v[0] + ' ' + v[1], 0) + 1
                if v[0] == 'same':
                    continue
                if p.st.contradictory():
                    res.outcomes['empty'] = res.outcomes.get('empty', 0) + 1
                    continue
                if len(res.diffs) >= 5 or len(res.unknown) >= 25:
                    continue
                self.refute(obl, res, p, v, smp, seed)
                if res.diffs and limited:
                    break
        except Hard:
            res.unknown.append('time limit')
        if res.diffs:
            res.verdict = REFUTED
        elif res.unknown:
            res.verdict = UNKNOWN
        elif not any(k.startswith('same') for k in res.outcomes):
            res.unknown.append('no partition is left')
            res.verdict = UNKNOWN
        return res

    def set_shared(self, new):
        """replace what was written to objects and names that outlive a call; returns what was there"""
        st = self.eng.st
        old = (st.nsw, {i: c for i, c in st.cells.items() if i in st.base})
        for i in old[1]:
            del st.cells[i]
        st.nsw = dict(new[0])
        st.cells.update({i: c.copy() for i, c in new[1].items()})
        return old

    def wrote_base(self):
        st = self.eng.st
        for i, c in st.cells.items():
            b = st.base.get(i)
            if b is not None and b.d != c.d and c.kind != 'frame':
                return True
        return False

    def refute(self, obl, res, p, v, smp, seed):
        eng = self.eng
        st = p.st
        save = eng.st
        eng.st = st
        seqs.REBUILD_ST[0] = st
        try:
            kind = v[0]
            if kind == 'diff' and v[1] == 'value':
                if imprecise(v[2]) or imprecise(v[3]):
                    res.unknown.append('imprecise value')
                    return

                def differ(env):
                    return env.v(v[2]) != env.v(v[3])
                text = 'specified %s, analysed code gives %s' % (show(v[2]), show(v[3]))
            elif kind == 'mut':
                def differ(env):
                    return True
                text = v[1]
            else:
                def differ(env):
                    return True
                text = 'specified %s, analysed code %s' % (show_out(eng, v[2]), show_out(eng, v[3]))
            env = witness.find(st, list(p.trail), smp, differ, seed=seed)
            if env is None:
                if os.environ.get('ABSINT_DEBUG'):
                    print('--', text[:300], '\n    ' + '\n    '.join(('' if b else 'not ') + show_cond(c)[:200] for c, b in p.trail))
                res.unknown.append('difference without a member: ' + text[:4000])
                return
            res.diffs.append({'difference': text[:2000], 'partition': [('' if b else 'not ') + show_cond(c) for c, b in p.trail][:40],
                              'member': {show(O(k)): repr(x)[:200] for k, x in env.val.items() if k[0] in ('sym', 'fld')},
                              'at': eng.place(p.st.where)})
        finally:
            eng.st = save
            seqs.REBUILD_ST[0] = save


def State_for(eng):
    return eng.st


def eng_freeze(eng, p):
    save = eng.st
    eng.st = p.st
    try:
        return eng.freeze(p.val)
    finally:
        eng.st = save


def show_cond(c):
    try:
        return show(C(c))
    except Exception:
        return repr(c)


def show_out(eng, o):
    if isinstance(o, Cls):
        return 'raises ' + o.name
    if isinstance(o, tuple):
        if o[0] == 'ret':
            try:
                return 'returns ' + show(eng.freeze(o[1]))
            except Exception:
                return 'returns'
        try:
            return 'raises %s %s' % (o[1].name, show(eng.freeze(o[2])))
        except Exception:
            return 'raises ' + o[1].name
    return str(o)


def unchanged(eng, a, b):
    """values equal except for private attributes (caches)"""
    if a == b:
        return True
    if isinstance(a, Ob) and isinstance(b, Ob) and a.cls is b.cls:
        da, db = dict(a.attrs), dict(b.attrs)
        return all(k.startswith('_') or (k in db and unchanged(eng, x, db[k])) for k, x in da.items())
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.parts) == len(b.parts):
        return all(p == q or (p[0] == q[0] == 'i' and unchanged(eng, p[1], q[1])) for p, q in zip(a.parts, b.parts))
    if isinstance(a, NT) and isinstance(b, NT) and a.cls is b.cls:
        return all(unchanged(eng, x, y) for x, y in zip(a.items, b.items))
    if isint(a) and isint(b):
        return eng.st.decide_eq(padd(poly(a), poly(b), -1))
    return False
