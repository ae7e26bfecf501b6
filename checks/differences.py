"""The box of a table of differences (part of C28).

A run of steps computed with a table of differences subtracts, level by level, only the
rows below a bound R[j] and the columns from a bound C[j] on. The difference of level j
is a combination of the coefficients of all powers from j on, so the box of level j has
to contain the non-zero entries of every one of them. Decided from the event tree: how
the two arrays of bounds are started, widened, combined over the levels and read."""
import vn
import ck
from vn import T, num, add, sub, mul, ZERO, ONE, show, subterms
from gate import local, called
from memo import nm


def heap(t):
    """(root, index) of an element of an array"""
    if isinstance(t, T) and t.op == 'rd':
        t = t.a[0]
    if isinstance(t, T) and t.op == 'addr':
        t = t.a[0]
    if isinstance(t, T) and t.op == 'path' and len(t.a[1]) >= 1 and t.a[1][0][0] == 'i':
        return t.a[0], t.a[1][0][1]
    return None


def elements(t):
    out = []
    for s in subterms(t):
        if s.op == 'path':
            h = heap(s)
            if h and len(s.a[1]) == 1 and h[0].a[0] in ('heap', 'var'):
                out.append(h)
    return out


def boxed(I):
    """updates restricted to a box: (event, level updated, level subtracted, rows bound, columns bound)"""
    for e in I.events:
        if e.kind != 'call' or nm(e) != '_nmod_vec_sub' or len(e.argv or []) != 5 or len(e.loops or []) < 2:
            continue
        inner = e.loops[-1]
        if len(inner.ivs) != 1:
            continue
        hi = next(iter(inner.ivs.values()))[1]
        rows = heap(hi) if isinstance(hi, T) else None
        dst, src = level(e.argv[0]), level(e.argv[2])
        col = [h for h in elements(e.argv[3]) if rows and h[0] is not rows[0]]
        if rows is None or dst is None or src is None or not col:
            continue
        yield e, dst, src, rows, col[0]


def level(t):
    """index of the matrix a row pointer points into"""
    for s in subterms(t):
        if s.op == 'call' and called(s) in ('nmod_mat_entry_ptr',):
            return heap(s.a[1])
        if s.op == 'path' and len(s.a[1]) >= 2 and s.a[1][0][0] == 'i' and s.a[1][1] == ('f', 'rows'):
            return s.a[0], s.a[1][0][1]
    return None


def ranges(e):
    out = {}
    for L in e.loops or []:
        for iv, d in L.ivs.items():
            out[iv] = d
    return out


def guards(e):
    r = []
    for g in e.g or ():
        r += list(g.a) if g.op == 'and' else [g]
    return r


def differences(c, P):
    n = 0
    made = {}
    for f in P.funcs.values():
        if f.get('body') is not None:
            made.setdefault(f['n'], set()).update(calls(f))

    def reaches(f, seen=None):
        seen = seen if seen is not None else set()
        for x in calls(f) if isinstance(f, dict) else made.get(f, ()):
            if x == '_nmod_vec_sub':
                return True
            if x in made and x not in seen:
                seen.add(x)
                if reaches(x, seen):
                    return True
        return False
    for f in P.funcs.values():
        if f.get('dependent') or f.get('body') is None or '/test/' in f['file']:
            continue
        if not reaches(f):
            continue
        I = vn.Interp(P, inline=local).run(f)
        for e, dst, src, rows, cols in boxed(I):
            n += 1
            w = e.where
            c.ob(rows[1] is src[1] and cols[1] is src[1], 'box', w, 'the box of the level subtracted',
                 'rows and columns of level %s' % show(src[1]) if rows[1] is src[1] and cols[1] is src[1] else 'level %s is subtracted within the box of levels %s and %s' % tuple(show(x) for x in (src[1], rows[1], cols[1])))
            bound(c, I, e, rows[0], 'rows', w)
            bound(c, I, e, cols[0], 'columns', w)
    return n


def calls(f):
    out = []

    def go(x):
        if isinstance(x, dict):
            if x.get('q'):
                out.append(x['q'].split('::')[-1])
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    go(f.get('body'))
    return out


def bound(c, I, use, root, what, w):
    up = what == 'rows'
    writes = [e for e in I.events if e.kind == 'write' and e.p is not None and heap(e.p) and heap(e.p)[0] is root and e.n < use.n and isinstance(e.v, T)]
    before, last = {}, None
    for e in I.events:
        if e.kind == 'call':
            last = e
        elif e.kind == 'write' and last is not None and last.loops == e.loops:
            before[e.n], last = last, None
    widen, across, start = [], [], []
    for e in writes:
        i = heap(e.p)[1]
        q = before.get(e.n)
        # combined with the bound of another level
        args = [heap(a) for a in (q.argv or [])] if q is not None and q.kind == 'call' and nm(q) in ('max', 'min') else []
        others = [h for h in elements(e.v) if h[0] is root and h[1] is not i] + [h for h in args if h and h[0] is root and h[1] is not i]
        if others:
            across.append((e, i, q if args else None, others))
        elif any(s.op == 'iv' and s is not i for s in subterms(e.v)):
            widen.append((e, i))
        else:
            start.append((e, i))
    for e, i in widen:
        rg = ranges(e)
        entry = [g for g in guards(e) if g.op == 'not' and g.a[0].op == 'eq0']
        ivs = [s for s in subterms(e.v) if s.op == 'iv' and s is not i]
        pos = None
        for g in entry:
            for s in subterms(g):
                if s.op == 'list' and len(s.a) == 2:
                    pos = s.a
                if s.op == 'path' and len(s.a[1]) >= 3 and ('f', 'rows') in s.a[1]:
                    k = s.a[1].index(('f', 'rows'))
                    x = [y[1] for y in s.a[1][k + 1:] if y[0] == 'i']
                    if len(x) == 2:
                        pos = x
        if pos is None:
            m = [s for g in guards(e) for s in subterms(g) if s.op == 'list' and len(s.a) == 2]
            pos = m[0].a if m else None
        if pos is None:
            continue
        want = add(pos[0], ONE) if up else pos[1]
        c.ob(e.v is want, 'widened', e.where, 'the %s of the box contain every non-zero entry' % what, 'at %s' % show(e.v) if e.v is want else 'for a non-zero entry at (%s, %s) the bound becomes %s' % (show(pos[0]), show(pos[1]), show(e.v)))
        own = T('path', root, (('i', i),))
        for g in guards(e):
            if any(h[0] is root for h in elements(g)):
                # only ever wider
                cur = [s for s in subterms(g) if s.op in ('rd', 'path') and heap(s) and heap(s)[0] is root and (s.op == 'rd' or not any(r.op == 'rd' and r.a[0] is s for r in subterms(g)))]
                ok = any(g is x for s in cur for x in (([vn.lt(s, want), vn.lt(s, add(want, ONE))]) if up else [vn.lt(want, s), vn.lt(want, add(s, ONE))]))
                c.ob(ok, 'widened', e.where, 'the %s of the box only grow' % what, 'kept when wider' if ok else 'changed when %s' % show(g))
    # over the levels
    good = False
    for e, i, q, others in across:
        rg = ranges(e)
        d = rg.get(i)
        nxt = others[0][1] is add(i, ONE)
        down = d is not None and d[2] == -1 and vn.const(d[1]) == 0
        right = q is None or nm(q) == ('max' if up else 'min')
        if not (nxt and down and right):
            c.ob(False, 'levels', e.where, 'the %s of the box of a level contain those of the levels above' % what,
                 'combined with the bound of %s by %s, level by level %s' % (show(others[0][1]), nm(q) if q is not None else '?', 'down to %s' % show(d[1]) if d is not None and d[2] == -1 else 'upwards'))
        good = True
    if widen and not good:
        # levels visited from the top with a bound that is not started afresh would do as well
        carried = all(any(s.op in ('lp', 'lx') for s in subterms(e.v)) for e, i in widen)
        c.ob(carried, 'levels', w, 'the %s of the box of a level contain those of the levels above' % what, 'the bound of a level depends on the coefficient of that power alone')
    elif good:
        c.ob(True, 'levels', w, 'the %s of the box of a level contain those of the levels above' % what, 'combined from the top level down')
    for e, i in start:
        want = ZERO if up else None
        k = vn.const(e.v)
        ok = (k == 0) if up else k is None
        c.ob(ok, 'started', e.where, 'the %s of the box start empty' % what, show(e.v))
    # where a level is looked for from the top, the search stops at the bottom
    for L in {id(l): l for e in I.events for l in e.loops or []}.values():
        for iv, d in L.ivs.items():
            if d[2] == -1 and isinstance(L.cond, T) and any(h[0] is root and h[1] is iv for h in elements(L.cond)):
                lo = d[1].a[0] if isinstance(d[1], T) and d[1].op == 'upto' else None
                ok = lo is not None and vn.const(lo) is not None and vn.const(lo) >= 0
                c.ob(ok, 'search', '%s:%s (%s)' % (L.fn['file'], L.node.get('l'), L.fn['qn']), 'the search for the top level stays within the array', 'stops at %s' % show(lo) if ok else 'goes on below the first entry when every level is zero')
