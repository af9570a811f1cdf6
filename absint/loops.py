"""Abstract semantics of iteration.

Elements that are known one by one are unrolled.  A segment of unknown length is
summarised: the body is interpreted once for an arbitrary index, with everything the
body modifies replaced by a placeholder; appends become a 'for each index' layout,
exits become a fork on 'some index satisfies the exit condition'."""
import time
import ast

from .values import *
from .state import Unsupported, Infeasible, mk_ge0, mk_eq0
from .seqs import *
from . import seqs
from .engine import (PyExc, Ret, Brk, Cont, Frame, c_and, c_or, c_not, cV, vC, cond_ge0, cond_eq0)

ELEMH = {}     # head of a sequence term -> maker(eng, at_term) -> V


# -------------------------------------------------------------------- elements
def at_term(t, i):
    if t[0] == 'slice':
        return at_term(t[1], iadd(t[2], i))
    if t[0] == 'rev':
        n = LEN.get(t[1]) or termlen(t[1])
        return at_term(t[1], mkint(padd(padd(poly(n), pconst(-1)), poly(i), -1)))
    return ('at', t, i)


def elem_of(eng, t, i):
    """element i of the sequence term t"""
    a = at_term(t, i)
    base, j = a[1], a[2]
    if base[0] == 'B':
        return mk_at(base[1], j)
    if base[0] == 'T':
        return mkseq('str', mk_slice(base[1], j, iadd(j, K(1))), eng.st)
    mk = ELEM.get(base) or ELEMH.get(base[0])
    if mk is None:
        return O(a)
    v = mk(eng, a)
    seqs.PROV[v] = a
    return v


def close_idx(x, n, depth, by):
    """replace the open index of depth by the value `by`"""
    def f(t):
        if t[0] == 'idx' and t[1] == n and t[2] == depth:
            return by
        return None
    return smap(x, f) if not isinstance(x, tuple) or (x and isinstance(x[0], str)) else tuple(smap(y, f) for y in x)


def sub_each(p, i):
    """alternatives of an 'e' part at index i"""
    n = p[1]

    def f(t):
        if t[0] == 'idx' and t[1] == n and t[2] == 0:
            return i
        return None
    return [(smap(tr, f), smap_parts(q, f)) for tr, q in p[2]]


def trail_cond(tr):
    return c_and([c if b else c_not(c) for c, b in sorted(tr, key=repr)])


def each_items(eng, p, i):
    """parts of an 'e' part at index i, after deciding the alternative"""
    alts = sub_each(p, i)
    for k, (tr, q) in enumerate(alts):
        if any(c == ('never',) for c, b in tr):
            continue
        if k == len(alts) - 1:
            for c, b in tr:
                eng.assume(c, b)
            return q
        if eng.branch(trail_cond(tr)):
            return q
    raise Infeasible()


def seg_elem(eng, p, i):
    if p[0] == 's':
        return elem_of(eng, p[1], i)
    q = each_items(eng, p, i)
    if len(q) == 1 and q[0][0] == 'i':
        return q[0][1]
    raise Unsupported('element of a repeated layout')


def as_each(eng, p):
    """any segment as an 'e' part"""
    if p[0] == 'e':
        return p
    n = p[2]
    i = mkint(patom(('idx', n, 0)))
    return ('e', n, ((frozenset(), (('i', elem_of(eng, p[1], i)),)),))


# ----------------------------------------------------------------------- parts
def byte_items(eng, parts):
    out = []
    for p in parts:
        if p[0] == 'c':
            out.extend(('i', K(b)) for b in p[1])
        elif p[0] == 'b':
            out.append(('i', p[1]))
        elif p[0] == 'a':
            n = p[2]
            if isinstance(n, I):
                lo, hi = eng.st.rng(n.p)
                if lo == hi:
                    n = K(lo)
            if isinstance(n, K) and n.v <= 80:
                out.extend(('i', mk_at(p[1], K(j))) for j in range(n.v))
            else:
                out.append(('s', ('B', p[1]), n))
        else:
            alts = tuple((tr, tuple(byte_items(eng, q))) for tr, q in p[2])
            out.append(('e', p[1], alts))
    return out


def parts(eng, v):
    v = eng.force(v)
    if isinstance(v, Tup):
        return v.parts
    if isinstance(v, NT):
        m = eng.user_method(v, '__iter__')
        if m is not None:
            return parts(eng, eng.call(m, [v]))
        return tuple(('i', x) for x in v.items)
    s = eng.as_seq(v)
    if s is not None:
        if kind_of(s) == 'bytes':
            return tuple(byte_items(eng, parts_of(s)))
        out = []
        for p in parts_of(s):
            if p[0] == 'c':
                out.extend(('i', K(ch)) for ch in p[1])
            elif p[0] == 'a' and isinstance(p[2], K) and p[2].v <= 80:
                for j in range(p[2].v):
                    out.append(('i', mkseq('str', mk_slice(p[1], K(j), K(j + 1)), eng.st)))
            elif p[0] == 'a':
                out.append(('s', ('T', p[1]), p[2]))
            else:
                raise Unsupported('characters of repeated text')
        return tuple(out)
    if isinstance(v, Ref):
        c = eng.st.cell(v)
        if c.kind in ('list', 'set'):
            return c.d
        if c.kind == 'dict':
            return tuple(('i', k) for k, x in eng.models.dict_items(eng, v))
        if c.kind == 'iter':
            ps = iter_parts(eng, v)
            eng.st.wcell(v).d = ('parts', ())
            return ps
        m = eng.user_method(v, '__iter__')
        if m is not None:
            return parts(eng, eng.call(m, [v]))
        if eng.user_method(v, '__getitem__') is not None:
            raise Unsupported('iteration by index')
        eng.exc('TypeError', 'object is not iterable')
    if isinstance(v, Cls) and 'enum' in v.flags:
        seen = []
        for n in v.ns[' members']:
            if v.ns[n] not in seen:
                seen.append(v.ns[n])
        return tuple(('i', x) for x in seen)
    if isinstance(v, Ob):
        m = eng.user_method(v, '__iter__')
        if m is not None:
            return parts(eng, eng.call(m, [v]))
    if isinstance(v, O):
        if v.cls is None or v.cls.name in ('list', 'tuple'):
            return (('s', v.t, termlen(v.t)),)
    eng.exc('TypeError', 'object is not iterable')


def iter_parts(eng, ref):
    d = eng.st.cell(ref).d
    if d[0] == 'parts':
        return d[1]
    out = []
    for x in gen_elems(eng, ref):
        if x[0] == 'i':
            out.append(x)
        else:
            out.extend(map_segment(eng, x[1], x[2]))
    out = norm('tup', out, eng.st)
    eng.st.wcell(ref).d = ('parts', out)
    return out


def gen_elems(eng, ref):
    """elements of a generator expression, evaluated on demand; a segment of unknown
    length comes as ('lazy', part, element -> result parts)"""
    d = eng.st.cell(ref).d
    if d[0] == 'parts':
        for p in d[1]:
            yield p if p[0] == 'i' else ('lazy', p, lambda x: [('i', x)])
        return
    _, node, fr, first = d
    eng.st.wcell(ref).d = ('parts', ())
    for x in comp_elems(eng, node, fr, 0, first):
        yield x


def parts_lazy(eng, v):
    v = eng.force(v)
    if isinstance(v, Ref) and eng.st.cell(v).kind == 'iter':
        return gen_elems(eng, v)
    return (p if p[0] == 'i' else ('lazy', p, lambda x: [('i', x)]) for p in parts(eng, v))


# -------------------------------------------------------------- comprehensions
def child_frame(eng, fr, names):
    ref = eng.st.alloc('frame', None, {})
    return Frame(ref.i, fr, fr.mod, fr.cls, None, names, 'fn')


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def comp_elems(eng, node, fr, k, first=None):
    g = node.generators[k]
    it = first if first is not None else eng.eval(g.iter, fr)

    def inner(f2):
        for c in g.ifs:
            if not eng.truth(eng.eval(c, f2)):
                return
        if k + 1 < len(node.generators):
            for x in comp_elems(eng, node, f2, k + 1):
                yield x
        else:
            yield ('i', eng.eval(node.elt, f2))

    for p in parts_lazy(eng, it):
        if p[0] == 'i':
            f2 = child_frame(eng, fr, target_names(g.target))
            eng.assign(g.target, p[1], f2)
            for x in inner(f2):
                yield x
        else:
            def fn(x, seg=p):
                out = []
                for y in seg[2](x):
                    if y[0] != 'i':
                        raise Unsupported('nested unknown segments')
                    f2 = child_frame(eng, fr, target_names(g.target))
                    eng.assign(g.target, y[1], f2)
                    for z in inner(f2):
                        if z[0] != 'i':
                            raise Unsupported('nested unknown segments')
                        out.append(z)
                return out
            yield ('lazy', p[1], fn)


def comp_parts(eng, node, fr):
    out = []
    for x in comp_elems(eng, node, fr, 0):
        if x[0] == 'i':
            out.append(x)
        else:
            out.extend(map_segment(eng, x[1], x[2]))
    return norm('tup', out, eng.st)


def run_generator(eng, f, fr):
    out = eng.st.alloc('list', eng.builtins['list'], ())
    eng.st.cell(fr.i).d[' yields'] = out
    try:
        eng.exec_block(f.node.body, fr)
    except Ret:
        pass
    return eng.st.alloc('iter', eng.builtins['generator'], ('parts', eng.st.cell(out).d))


def map_parts(eng, ps, fn):
    out = []
    for p in ps:
        if p[0] == 'i':
            out.extend(fn(p[1]))
        else:
            out.extend(map_segment(eng, p, fn))
    return norm('tup', out, eng.st)


# ------------------------------------------------------------ canonical layouts
def merge_alts(alts):
    """alternatives with equal results joined when their conditions complement each other"""
    alts = [a for a in alts if not any(c == ('never',) for c, b in a[0])]
    ch = True
    while ch:
        ch = False
        for i in range(len(alts)):
            for j in range(i + 1, len(alts)):
                (t1, q1), (t2, q2) = alts[i], alts[j]
                if q1 != q2:
                    continue
                if t1 <= t2 or t2 <= t1:
                    alts[i] = (t1 if t1 <= t2 else t2, q1)
                    del alts[j]
                    ch = True
                    break
                d1, d2 = t1 - t2, t2 - t1
                if len(d1) == 1 and len(d2) == 1:
                    (c1, b1), (c2, b2) = list(d1)[0], list(d2)[0]
                    if c1 == c2 and b1 != b2:
                        alts[i] = (t1 & t2, q1)
                        del alts[j]
                        ch = True
                        break
                # c complements within a longer trail
                for da, ta, db in ((d1, t1, d2), (d2, t2, d1)):
                    if len(da) == 1:
                        c, b = list(da)[0]
                        if (c, not b) in db and (ta - da) <= (t1 & t2):
                            # (c & X) or (not c & X & Y) = X & (c or Y): leave
                            pass
            if ch:
                break
    return tuple(sorted(alts, key=repr))


def mk_each(eng, n, alts, kind='tup'):
    """canonical parts for 'for each index below n'"""
    alts = merge_alts(alts)
    if n == K(0) or all(not q for tr, q in alts):
        return ()
    ia = ('idx', n, 0)
    i0 = mkint(patom(ia))
    # one distinguished index: split there
    for tr, q in alts:
        for c, b in tr:
            if c[0] in ('eq0', 'ge0'):
                p = poly(c[1])
                co = dict(p).get((aid(ia),), 0)
                rest = padd(p, pscale(patom(ia), co), -1)
                if co in (1, -1) and not depends(mkint(rest), ia):
                    x = pscale(rest, -co)
                    nn = poly(n)
                    if c[0] == 'eq0':
                        if eng.st.decide(mk_c(x)) is True and eng.st.decide(mk_c(padd(padd(nn, x, -1), pconst(-1)))) is True:
                            return split_at(eng, n, alts, x, c, kind)
    if kind == 'tup' and len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0][0] == 'i':
        t = provenance_of(alts[0][1][0][1])
        if t is not None and t[0] == 'at' and len(t) in (3, 4):
            base = t[1] if len(t) == 3 else ('B', t[1])
            off = padd(poly(t[2]), patom(ia), -1)
            if not depends(mkint(off), ia) and not depends(O(base), ia):
                L = LEN.get(base) or (termlen(t[1]) if len(t) == 4 else LEN.get(base))
                if off == () and L == n:
                    return (('s', base, n),)
                a = mkint(off)
                return (('s', ('slice', base, a, iadd(a, n)), n),)
    if kind == 'bytes' and len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0][0] == 'b':
        t = psingle(poly(alts[0][1][0][1]))
        if t is not None and t[0] == 'at' and len(t) == 4:
            off = padd(poly(t[2]), patom(ia), -1)
            if not depends(mkint(off), ia) and not depends(O(t[1]), ia):
                return mk_slice(t[1], mkint(off), iadd(mkint(off), n))
    if kind == 'tup':
        return (('e', n, alts),)
    return (('e', n, alts, each_len(n, alts)),)


def mk_c(p):
    r = mk_ge0(p)
    if isinstance(r, bool):
        return ('true',) if r else ('false',)
    return r[0] if r[1] else ('notc', r[0])


def provenance_of(v):
    t = provenance(v)
    if t is not None:
        return t
    if isinstance(v, (O,)):
        return v.t
    if isinstance(v, I):
        return psingle(v.p)
    return None


def split_at(eng, n, alts, x, cond, kind):
    xv = mkint(x)
    out = []

    def restrict(val):
        res = []
        for tr, q in alts:
            if (cond, not val) in tr:
                continue
            res.append((tr - {(cond, val)}, q))
        return tuple(res)
    rest = restrict(False)
    full = ('e', n, rest) if kind == 'tup' else ('e', n, rest, each_len(n, rest))
    for p in each_range(full, K(0), xv):
        out.extend(mk_each(eng, p[1], p[2], kind))
    mid = restrict(True)
    for tr, q in [(smap(tr, lambda t: xv if t == ('idx', n, 0) else None),
                   smap_parts(q, lambda t: xv if t == ('idx', n, 0) else None)) for tr, q in mid]:
        if eng.branch(trail_cond(tr)):
            out.extend(q)
            break
    for p in each_range(full, iadd(xv, K(1)), n):
        out.extend(mk_each(eng, p[1], p[2], kind))
    return tuple(out)


def sum_value(eng, n, terms):
    ks = set(v for tr, v in terms)
    if len(ks) == 1:
        v = list(ks)[0]
        if not depends(v, ('idx', n)):
            return mkint(pmul(poly(n), poly(v)))
    return mkint(patom(('sumv', n, tuple(sorted(terms, key=repr)))))


# ------------------------------------------------------------- unknown segments
class _Ph(object):
    def __init__(self, key, mode, v0, atom):
        self.key, self.mode, self.v0, self.atom = key, mode, v0, atom
        self.step = None


def place(eng, st, loc, k):
    """put a placeholder at a modified location of st; None when it needs none"""
    i, key = loc
    if not isinstance(i, int):
        raise Unsupported('class state modified in a loop')
    c = st.cells.get(i)
    if c is None:
        c = st.cells[i] = st.base[i].copy()
    a = ('ph', 'loop%d.%d' % (eng.loopdepth, k))
    if c.kind in ('frame', 'inst'):
        if key not in c.d:
            return _Ph(loc, 'temp', None, a)
        v = c.d[key]
        if isint(v) and not (isinstance(v, K) and isinstance(v.v, bool)):
            c.d[key] = mkint(patom(a))
            return _Ph(loc, 'int', v, a)
        if isinstance(v, Sq) or isinstance(v, K) and isinstance(v.v, (bytes, str)):
            kd = kind_of(v)
            c.d[key] = Sq(kd, (('a', a, mkint(patom(('len', a)))),))
            return _Ph(loc, kd, v, a)
        if isinstance(v, Tup):
            c.d[key] = Tup((('s', a, mkint(patom(('len', a)))),))
            return _Ph(loc, 'tup', v, a)
        c.d[key] = O(a)
        return _Ph(loc, 'val', v, a)
    if c.kind == 'list':
        v = c.d
        c.d = (('s', a, mkint(patom(('len', a)))),)
        return _Ph(loc, 'list', v, a)
    if c.kind == 'ba':
        v = c.d
        c.d = (('a', a, mkint(patom(('len', a)))),)
        return _Ph(loc, 'ba', v, a)
    raise Unsupported('a %s modified in a loop of unknown length' % c.kind)


def set_loc(st, ph, v):
    i, key = ph.key
    c = st.cells.get(i)
    if c is None:
        c = st.cells[i] = st.base[i].copy()
    if c.kind in ('frame', 'inst'):
        c.d[key] = v
    else:
        c.d = v


def get_loc(st, ph):
    c = st.cell(ph.key[0])
    if c.kind in ('frame', 'inst'):
        return c.d.get(ph.key[1])
    return c.d


def seg_len(p):
    return p[2] if p[0] == 's' else p[1]


def segment(eng, p, body):
    """interpret body(element) for every element of the segment p; body returns parts"""
    n = seg_len(p)
    if isinstance(n, I):
        lo, hi = eng.st.rng(n.p)
        if lo == hi:
            n = K(lo)
    if isinstance(n, K) and n.v <= 64:
        out = []
        for j in range(n.v):
            items = [elem_of(eng, p[1], K(j))] if p[0] == 's' else None
            if items is None:
                items = []
                for q in each_items(eng, p, K(j)):
                    if q[0] != 'i':
                        raise Unsupported('nested segments')
                    items.append(q[1])
            for x in items:
                out.extend(body(x) or ())
        return out
    n = seg_len(p)
    depth = eng.loopdepth + 1
    ia = ('idx', n, depth)
    iv = mkint(patom(ia))
    base_next = eng.st.next

    def run():
        eng.loopdepth = depth
        eng.st.writes = set()
        eng.st.assume_ge0(patom(ia))
        eng.st.assume_ge0(padd(padd(poly(n), patom(ia), -1), pconst(-1)))
        if p[0] == 's':
            items = [elem_of(eng, p[1], iv)]
        else:
            items = []
            for q in each_items(eng, p, iv):
                if q[0] != 'i':
                    raise Unsupported('nested segments')
                items.append(q[1])
        out = []
        for x in items:
            out.extend(body(x) or ())
        return out

    phs = {}
    for _ in range(8):
        st0 = eng.st.clone()
        k = 0
        for loc in sorted(phs, key=repr):
            ph = place(eng, st0, loc, k)
            k += 1
            old = phs[loc]
            if old is not None and old.step is not None:
                ph.step = old.step
                set_loc(st0, ph, mkint(padd(poly(ph.v0), pmul(poly(old.step), patom(ia)))))
            phs[loc] = ph
        paths = eng.explore(run, st0)
        for x in paths:
            if x.kind == 'unsup':
                raise Unsupported(x.val)
        locs = set()
        for x in paths:
            for loc in x.st.writes or ():
                if not isinstance(loc[0], int) or loc[0] < base_next:
                    if loc[1] != ' handling':
                        locs.add(loc)
        new = [l for l in locs if l not in phs]
        if new:
            for l in new:
                phs[l] = None
            continue
        # counters with a constant step
        again = False
        for ph in phs.values():
            if ph.mode == 'int' and ph.step is None:
                steps = set()
                for x in paths:
                    if x.kind != 'ok':
                        continue
                    v = get_loc(x.st, ph)
                    if not isint(v):
                        steps.add(None)
                        continue
                    d = padd(poly(v), patom(ph.atom), -1)
                    steps.add(mkint(d) if not depends(mkint(d), ('ph',)) and not depends(mkint(d), ('idx', n)) else None)
                if len(steps) == 1 and None not in steps:
                    ph.step = steps.pop()
                    again = True
        if not again:
            break
    else:
        raise Unsupported('loop did not stabilise')
    return finish(eng, p, n, ia, iv, base_next, phs, paths)


def transplant(eng, pst, v, base_next, f, seen=None):
    """copy a value of a nested state into the current one, substituting in it"""
    seen = {} if seen is None else seen
    if isinstance(v, Ref):
        if v.i < base_next:
            return v
        if v.i in seen:
            return seen[v.i]
        c = pst.cell(v)
        r = eng.st.alloc(c.kind, c.cls, c.d)
        seen[v.i] = r
        if c.kind == 'inst':
            eng.st.cell(r).d = {k: transplant(eng, pst, x, base_next, f, seen) for k, x in c.d.items()}
        elif c.kind == 'list':
            eng.st.cell(r).d = tuple(('i', transplant(eng, pst, q[1], base_next, f, seen)) if q[0] == 'i' else smap_parts((q,), f)[0] for q in c.d)
        elif c.kind == 'ba':
            eng.st.cell(r).d = smap_parts(c.d, f)
        else:
            raise Unsupported('a %s escapes a loop' % c.kind)
        return r
    if isinstance(v, Tup):
        return Tup(tuple(('i', transplant(eng, pst, q[1], base_next, f, seen)) if q[0] == 'i' else smap_parts((q,), f)[0] for q in v.parts))
    if isinstance(v, NT):
        r = NT(v.cls, tuple(transplant(eng, pst, x, base_next, f, seen) for x in v.items))
        t = provenance(v)
        if t is not None:
            nt = seqs._smap_atom(t, f)
            if isinstance(nt, tuple):
                seqs.PROV[r] = nt
        return r
    return smap(v, f)


def has_ph(x):
    return mentions(x, lambda t: t[0] == 'ph')


def extras(eng, x, ph, n, ia, base_next):
    """what one iteration appends at an accumulator"""
    v = get_loc(x.st, ph)
    kd = {'list': 'tup', 'ba': 'bytes', 'tup': 'tup'}.get(ph.mode, ph.mode)
    if ph.mode in ('list', 'ba'):
        ps = v
    elif ph.mode == 'tup':
        if not isinstance(v, Tup):
            raise Unsupported('accumulator changes type')
        ps = v.parts
    else:
        if not (isinstance(v, Sq) and v.kind == ph.mode):
            if isinstance(v, Ref):
                raise Unsupported('accumulator changes type')
            raise Unsupported('accumulator overwritten')
        ps = v.parts
    ix = [j for j, q in enumerate(ps) if q[0] in 'as' and q[1] == ph.atom]
    if ix == [0]:
        ex = ps[1:]
        front = False
    elif ix and ix == [len(ps) - 1]:
        ex = ps[:-1]
        front = True
    else:
        raise Unsupported('accumulator not only extended')
    out = []
    for q in ex:
        if q[0] == 'i':
            fv = frozen(eng, x.st, q[1], base_next)
            q = ('i', fv)
        if has_ph(q):
            raise Unsupported('accumulator read back')
        out.append(q)
    return tuple(out), front, kd


def frozen(eng, pst, v, base_next):
    saved = eng.st
    eng.st = pst
    try:
        if isinstance(v, Ref) and v.i < base_next:
            return v
        if isinstance(v, Ref) and pst.cell(v).kind == 'list':
            raise Unsupported('list allocated in a loop')
        return eng.freeze(v)
    finally:
        eng.st = saved


def finish(eng, p, n, ia, iv, base_next, phs, paths):
    i0 = mkint(patom(('idx', n, 0)))

    def close(t):
        if t == ia:
            return i0
        return None

    def check(x, what):
        if has_ph(x):
            raise Unsupported('%s depends on earlier iterations' % what)
        return x

    exits = [x for x in paths if x.kind in ('ret', 'exc', 'brk')]
    normal = [x for x in paths if x.kind == 'ok']
    for x in paths:
        for c, b in x.trail:
            check(c, 'a condition')
    etr = frozenset(smap(frozenset(x.trail), close) for x in exits)
    if exits:
        if all(not depends(O(('t', tr)), ('idx', n, 0)) for tr in etr):
            cond = c_and([cond_ge0(padd(poly(n), pconst(-1))), c_or([trail_cond(tr) for tr in etr])])
        else:
            cond = ('exists', n, 0, etr)
        if eng.branch(cond):
            first = mkint(patom(('firstidx', n, etr)))
            eng.st.assume_ge0(poly(first))
            eng.st.assume_ge0(padd(padd(poly(n), poly(first), -1), pconst(-1)))
            x = exits[eng.choose(len(exits))]

            def f(t):
                if t == ia:
                    return first
                return None
            for c, b in smap(frozenset(x.trail), f):
                if c == ('never',):
                    raise Infeasible()
                eng.assume(c, b)
            for ph in phs.values():
                if ph.mode == 'temp':
                    continue
                w = eng.st.wcell(*ph.key)
                if x.kind == 'exc':
                    lost(eng, ph)
                else:
                    at_exit(eng, ph, x, normal, n, ia, first, base_next, f)
            if x.kind == 'brk':
                raise Brk()
            if x.kind == 'ret':
                raise Ret(transplant(eng, x.st, x.val, base_next, f))
            raise PyExc(transplant(eng, x.st, x.val, base_next, f))
    if not normal:
        # no iteration completes: the segment is empty
        eng.assume(cond_eq0(poly(n)))
        return []
    singles = set()
    for tr in etr:
        if len(tr) == 1:
            c, b = list(tr)[0]
            singles.add((c, not b))

    def alts_of(get):
        out = []
        for x in normal:
            tr = smap(frozenset(x.trail), close) - singles
            out.append((tr, smap_parts(get(x), close)))
        return tuple(out)
    for ph in phs.values():
        if ph.mode == 'temp':
            i, key = ph.key
            eng.st.wcell(i, key).d[key] = O(('imp', 'loop variable %s' % key))
            continue
        if ph.mode in ('list', 'ba', 'tup', 'bytes', 'str'):
            fronts = set()
            kd = [None]

            def get(x):
                ex, front, k = extras(eng, x, ph, n, ia, base_next)
                if ex:
                    fronts.add(front)
                kd[0] = k
                return ex
            alts = alts_of(get)
            each = mk_each(eng, n, alts, kd[0])
            old = parts_of(ph.v0) if ph.mode in ('bytes', 'str') else ph.v0.parts if ph.mode == 'tup' else ph.v0
            if fronts == {True}:
                new = rev_blocks(each) + tuple(old)
            elif len(fronts) <= 1:
                new = tuple(old) + tuple(each)
            else:
                raise Unsupported('accumulator extended at both ends')
            w = eng.st.wcell(*ph.key)
            if ph.mode in ('list', 'ba'):
                w.d = norm(kd[0], new, eng.st)
            else:
                w.d[ph.key[1]] = mkseq(kd[0], new, eng.st)
        elif ph.mode == 'int':
            w = eng.st.wcell(*ph.key)
            w.d[ph.key[1]] = int_result(eng, ph, p, n, ia, normal, alts_of)
        else:
            flag_result(eng, ph, n, normal, close, singles)
    res = []
    if any(x.val for x in normal):
        def get(x):
            out = []
            for q in x.val:
                if q[0] != 'i':
                    raise Unsupported('nested segments')
                out.append(('i', check(frozen(eng, x.st, q[1], base_next), 'an element')))
            return tuple(out)
        res = list(mk_each(eng, n, alts_of(get), 'tup'))
    return res


def rev_blocks(parts):
    out = []
    for q in parts:
        if q[0] == 'e':
            n = q[1]

            def f(t):
                if t == ('idx', n, 0):
                    return mkint(padd(padd(poly(n), pconst(-1)), patom(t), -1))
                return None
            out.append(('e', n, tuple((smap(tr, f), smap_parts(x, f)) for tr, x in q[2])) + q[3:])
        elif q[0] in 'as':
            out.append((q[0], rev_term(q[1]), q[2]))
        else:
            out.append(q)
    return tuple(reversed(out))


def lost(eng, ph):
    w = eng.st.wcell(*ph.key)
    if ph.mode == 'list':
        w.d = (('s', ('imp', 'list'), mkint(patom(('len', ('imp', 'list'))))),)
    elif ph.mode == 'ba':
        w.d = (('a', ('imp', 'bytes'), mkint(patom(('len', ('imp', 'bytes'))))),)
    else:
        w.d[ph.key[1]] = O(('imp', str(ph.key[1])))


def at_exit(eng, ph, x, normal, n, ia, first, base_next, f):
    if ph.mode == 'int' and ph.step is not None:
        v = get_loc(x.st, ph)
        eng.st.wcell(*ph.key).d[ph.key[1]] = smap(v, f)
        return
    if ph.mode == 'val':
        v = get_loc(x.st, ph)
        if not has_ph(v) and not isinstance(v, Ref):
            eng.st.wcell(*ph.key).d[ph.key[1]] = smap(v, f)
            return
        if v == O(ph.atom) and all(get_loc(y.st, ph) == O(ph.atom) for y in normal):
            eng.st.wcell(*ph.key).d[ph.key[1]] = ph.v0
            return
    lost(eng, ph)


def int_result(eng, ph, p, n, ia, normal, alts_of):
    if ph.step is not None:
        return mkint(padd(poly(ph.v0), pmul(poly(ph.step), poly(n))))
    vals = [get_loc(x.st, ph) for x in normal]
    if len(vals) == 1 and isint(vals[0]) and ph.v0 == K(0) and p[0] == 's':
        t = eng.models.bterm(p[1])
        d = padd(poly(vals[0]), pscale(patom(ph.atom), 256), -1)
        x = elem_of(eng, p[1], mkint(patom(ia)))
        if t is not None and d == poly(x):
            return dec_val(eng.st, (('a', t, n),))
    terms = []
    for x, v in zip(normal, vals):
        if not isint(v):
            raise Unsupported('accumulator changes type')
        d = padd(poly(v), patom(ph.atom), -1)
        if has_ph(mkint(d)):
            raise Unsupported('fold over a collection of unknown length')
        terms.append(mkint(d))
    al = alts_of(lambda x: (('i', terms[normal.index(x)]),))
    return mkint(padd(poly(ph.v0), poly(sum_value(eng, n, tuple((tr, q[0][1]) for tr, q in al)))))


def flag_result(eng, ph, n, normal, close, singles):
    """a variable that keeps its value or becomes one constant"""
    key = ph.key[1]
    keep, sets, vals = [], [], set()
    for x in normal:
        v = get_loc(x.st, ph)
        if v == O(ph.atom):
            keep.append(x)
        elif isinstance(v, K):
            vals.add(v)
            sets.append(x)
        else:
            eng.st.wcell(*ph.key).d[key] = O(('imp', 'loop variable %s' % key))
            return
    if len(vals) != 1:
        eng.st.wcell(*ph.key).d[key] = O(('imp', 'loop variable %s' % key))
        return
    tr = frozenset(smap(frozenset(x.trail), close) - singles for x in sets)
    if eng.branch(('exists', n, 0, tr)):
        eng.st.wcell(*ph.key).d[key] = vals.pop()
    else:
        eng.st.wcell(*ph.key).d[key] = ph.v0


def map_segment(eng, p, fn):
    return segment(eng, p, fn)


def exists(eng, p, pred):
    """condition: some element of the segment satisfies pred"""
    n = seg_len(p)
    depth = eng.loopdepth + 1
    ia = ('idx', n, depth)
    if isinstance(n, K) and n.v <= 64:
        raise Unsupported('short segment')

    def run():
        eng.loopdepth = depth
        eng.st.assume_ge0(patom(ia))
        eng.st.assume_ge0(padd(padd(poly(n), patom(ia), -1), pconst(-1)))
        return K(bool(pred(seg_elem(eng, p, mkint(patom(ia))))))
    paths = eng.explore(run, eng.st.clone())
    if any(x.kind != 'ok' for x in paths):
        raise Unsupported('search in a segment')
    i0 = mkint(patom(('idx', n, 0)))
    tr = frozenset(smap(frozenset(x.trail), lambda t: i0 if t == ia else None) for x in paths if x.val == TRUE)
    if not tr:
        return False
    if frozenset() in tr:
        return cond_ge0(padd(poly(n), pconst(-1)))
    return ('exists', n, 0, tr)


def scan(eng, elems, pred):
    """True when pred holds for some element; stops there"""
    for x in elems:
        if x[0] == 'i':
            if pred(x[1]):
                return True
            continue
        try:
            def body(y, fn=x[2]):
                for z in fn(y):
                    if pred(z[1]):
                        raise Brk()
                return []
            segment(eng, x[1], body)
        except Brk:
            return True
    return False


# ------------------------------------------------------------------ statements
def exec_for(eng, s, fr):
    it = eng.force(eng.eval(s.iter, fr))
    try:
        if isinstance(it, Ref) and eng.st.cell(it).kind == 'iter':
            ps = iter_parts(eng, it)
            if all(q[0] == 'i' for q in ps):
                while True:
                    ps = iter_parts(eng, it)
                    if not ps:
                        break
                    eng.st.wcell(it).d = ('parts', tuple(ps[1:]))
                    one(eng, s, ps[0][1], fr)
                eng.exec_block(s.orelse, fr)
                return
            eng.st.wcell(it).d = ('parts', ())
        else:
            if isinstance(it, Ref) and eng.st.cell(it).kind == 'list':
                if all(q[0] == 'i' for q in eng.st.cell(it).d):
                    k = 0
                    while k < len(eng.st.cell(it).d):
                        if k > 4000:
                            raise Unsupported('long loop')
                        q = eng.st.cell(it).d[k]
                        if q[0] != 'i':
                            raise Unsupported('list changed while iterating')
                        one(eng, s, q[1], fr)
                        k += 1
                    eng.exec_block(s.orelse, fr)
                    return
            ps = parts(eng, it)
        for q in ps:
            if q[0] == 'i':
                one(eng, s, q[1], fr)
            else:
                def body(x):
                    one(eng, s, x, fr)
                    return []
                segment(eng, q, body)
        eng.exec_block(s.orelse, fr)
    except Brk:
        pass


def one(eng, s, x, fr):
    eng.assign(s.target, x, fr)
    try:
        eng.exec_block(s.body, fr)
    except Cont:
        pass


def exec_while(eng, s, fr):
    k = j = 0
    t0 = time.time()
    n = len(eng.st.trail)
    try:
        while eng.truth(eng.eval(s.test, fr)):
            j += 1
            if len(eng.st.trail) != n:
                n = len(eng.st.trail)
                k += 1
            if k > eng.unroll or j > 3000 or k > 12 and time.time() > t0 + 5:
                raise Unsupported('loop bound')
            try:
                eng.exec_block(s.body, fr)
            except Cont:
                pass
        eng.exec_block(s.orelse, fr)
    except Brk:
        pass
