"""C18: terms with the same exponent are added up."""
import re
import facts, vn, ck, walk
from vn import T, show
from gate import local, called, cargs
from exact import library
from moduli import sig
from memo import nm, text, absent as _a

ADDERS = ('operator+=', 'operator-=')


def rname(p):
    """name of the variable (or member) a path or value starts at"""
    s = text(p)
    while s.startswith(('sel(', 'lx(', 'lp(', '&')):
        s = s[1:] if s[0] == '&' else s[4:] if s.startswith('sel(') else s.split(',', 1)[1]
    return re.split(r'[\[{(),]', s)[0]


def lastkey(p):
    """(path of the table, key, selectors below) at the last key of a path"""
    ss = p.a[1]
    k = max((i for i, s in enumerate(ss) if s[0] == 'k'), default=None)
    if k is None:
        return None
    return T('path', p.a[0], ss[:k]), ss[k][1], ss[k + 1:]


class Site:
    """one keyed write: kind '=' (replaces), '+' (adds) with the value"""
    def __init__(self, e, kind, v, neg=False, absent=None):
        self.e, self.kind, self.v, self.neg = e, kind, v, neg
        self.map, self.key, self.rest = lastkey(e.p)
        self.member = absent           # True: no entry yet, False: there is one, None: not tested
        self.loops = e.loops
        self.ids = [l.id for l in e.loops]


def oldval(x, p):
    """the term is what the location held before"""
    if not isinstance(x, T) or x.op not in ('rd', 'sel', 'path'):
        return False
    q = x.a[0] if x.op == 'rd' else x
    ss = p.a[1]
    if x.op == 'sel':
        xs = x.a[1]
    else:
        xs = q.a[1]
    tail = [(s[0], text(s[1]) if isinstance(s[1], T) else s[1]) for s in ss]
    got = [(s[0], text(s[1]) if isinstance(s[1], T) else s[1]) for s in xs]
    return rname(x) == rname(p) and got and tail[-len(got):] == got


def split(v, p):
    """value written at p = old + X: X, else None"""
    if v.op == 'poly':
        for s in vn.subterms(v):
            if oldval(s, p):
                x = vn.sub(v, s)
                if not any(y is s for y in vn.subterms(x)):
                    return x
        return None
    if v.op == 'call' and called(v) == 'operator+' and len(cargs(v)) == 2:
        a, b = cargs(v)
        if oldval(a, p):
            return b
        if oldval(b, p):
            return a
    return None


def membership(e, m, key):
    for x in e.g:
        for y in walk.conj(x):
            pos = True
            if y.op == 'not':
                y, pos = y.a[0], False
            if y.op == 'bool':
                y = y.a[0]
            if y.op == 'isend' and text(y.a[0]) == text(m) and text(y.a[1]) == text(key):
                return pos
    return None


def ismember(x, m, key):
    for y in walk.conj(x):
        if y.op == 'not':
            y = y.a[0]
        if y.op == 'bool':
            y = y.a[0]
        if y.op == 'isend' and text(y.a[0]) == text(m) and text(y.a[1]) == text(key):
            return True
    return False


def sites(I):
    out = []
    calls = {}
    for e in I.events:
        if e.kind == 'call':
            calls.setdefault(id(e.node), e)
    for e in I.events:
        if e.kind != 'write' or not isinstance(e.p, T) or e.p.op != 'path' or not lastkey(e.p):
            continue
        m, key, rest = lastkey(e.p)
        mem = membership(e, m, key)
        c = calls.get(id(e.node))
        if isinstance(e.v, T):
            v = e.v
            if v.op == 'ite' and ismember(v.a[0], m, key):
                a, b = (v.a[1], v.a[2]) if v.a[0].op != 'not' else (v.a[2], v.a[1])
                if oldval(b, e.p):           # emplace or insert: kept when present
                    out.append(Site(e, '=', a, absent=True))
                    continue
            x = split(v, e.p)
            if x is not None:
                out.append(Site(e, '+', x, absent=mem))
            elif not (v.op == 'rd' and text(v) == text(e.p)):
                out.append(Site(e, '=', v, absent=mem))
            continue
        if c is None:
            continue
        n = nm(c)
        a = c.argv or []
        if n in ADDERS:
            out.append(Site(e, '+', a[-1], n == 'operator-=', absent=mem))
        elif n in ('add', 'sub') and len(a) == 3 and a[0] is not None:
            if oldval(a[1], e.p):
                out.append(Site(e, '+', a[2], n == 'sub', absent=mem))
            elif n == 'add' and oldval(a[2], e.p):
                out.append(Site(e, '+', a[1], absent=mem))
            else:
                out.append(Site(e, '=', T('call', n, *a[1:]), absent=mem))
        elif n in ('mul', 'conv', 'operator=', 'MulAddTo') and a:
            if n == 'MulAddTo':
                out.append(Site(e, '+', T('call', 'operator*', *a[1:]), absent=mem))
            else:
                out.append(Site(e, '=', T('call', n, *a[1:]), absent=mem))
    return out


TABLES = {}


def depends(t, l):
    for s in vn.subterms(t):
        if s.op in ('iv', 'ekey') and s.a[0] == l.id:
            return True
        if s.op == 'ekey' and s.a[0] > l.id:
            k = TABLES.get(s.a[0])          # the table gone through differs
            if k is not None and depends(k, l):
                return True
        if s.op in ('lp', 'lx') and isinstance(s.a[0], int) and s.a[0] >= l.id:
            return True
    return False


def inj(t, l, I, e):
    """different iterations of l give different values"""
    if not isinstance(t, T):
        return False
    if t.op in ('iv', 'ekey') and t.a[0] == l.id:
        return True
    if t.op == 'poly':
        x = walk.linear(t)
        return bool(x) and inj(x[0], l, I, e) and isinstance(x[2], int) and x[2] != 0
    if t.op in ('rd', 'sel', 'path'):
        q = t.a[0] if t.op == 'rd' else t
        ss = q.a[1]
        if ss and ss[-1][0] in ('i', 'k') and inj(ss[-1][1], l, I, e):
            return not any(isinstance(s[1], T) and depends(s[1], l) for s in ss[:-1])
        if not ss or t.op == 'rd':
            # a local vector one of whose elements is set from the index in this iteration
            name = text(t)
            for w in I.events:
                if w is e:
                    break
                if w.kind == 'write' and isinstance(w.p, T) and [x.id for x in w.loops] == [x.id for x in e.loops] and rname(w.p) == name and len(w.p.a[1]) == 1 and w.p.a[1][0][0] == 'i' and isinstance(w.v, T) and not depends(w.p.a[1][0][1], l) and inj(w.v, l, I, w):
                    return True
    if t.op == 'call' and called(t) in ('operator+', 'operator-') and len(cargs(t)) == 2:
        a, b = cargs(t)
        return inj(a, l, I, e) and not depends(b, l) or inj(b, l, I, e) and not depends(a, l)
    if t.op == 'call' and called(t) in ('rep', 'conv') and len(cargs(t)) == 1:
        return inj(cargs(t)[0], l, I, e)
    return False


def transcribes(v, l):
    """element of an argument at this iteration: an input list is being read"""
    while isinstance(v, T) and v.op == 'call' and len(cargs(v)) == 1:
        v = cargs(v)[0]
    if not isinstance(v, T) or v.op != 'rd':
        return False
    p = v.a[0]
    return text(p).startswith('par:') and bool(p.a[1]) and p.a[1][-1][0] == 'i' and isinstance(p.a[1][-1][1], T) and p.a[1][-1][1].op == 'iv' and p.a[1][-1][1].a[0] == l.id


def emptied(I, m, e):
    """number of enclosing loops of e within which the table starts empty"""
    name, d = text(m), 0
    for w in I.events:
        if w is e:
            break
        lw, le = [l.id for l in w.loops], [l.id for l in e.loops]
        if lw != le[:len(lw)]:
            continue
        if w.kind == 'construct' and w.p is not None and text(w.p) == name or w.kind == 'call' and nm(w) == 'clear' and w.objp is not None and text(w.objp) == name:
            if set(w.g) <= set(e.g):
                d = max(d, len(lw))
    return d


def everyterm(c, f, I, S):
    """each pass through a loop over the terms adds its term somewhere"""
    at = {}
    for s in S:
        if s.loops and s.loops[-1].elem is not None and (s.kind == '+' or s.member is True):
            at.setdefault(s.loops[-1].id, set()).update((id(s.e), id(s.e.node)))
    todo, n = [I.tree], 0
    while todo:
        nd = todo.pop()
        todo += nd.ch or []
        if nd.kind != 'loop' or nd.info.id not in at:
            continue
        mine, l = at[nd.info.id], nd.info
        name = text(l.elem[0])

        def step(st, e, g):
            if id(e) in mine or id(e.node) in mine:
                return True
            # written back to the table gone through, or added to something else
            if e.kind == 'write' and isinstance(e.p, T) and e.loops and e.loops[-1].id == l.id and (isinstance(e.v, T) and split(e.v, e.p) is not None):
                return True
            if e.kind == 'call' and nm(e) in ADDERS + ('add', 'erase') and e.loops and any(x.id == l.id for x in e.loops):
                return True
            return st
        b = vn.Node('seq')
        b.ch = nd.ch
        w = walk.Walker(step)
        w.old, w.wr = frozenset(), set()
        r = w.node(b, [(False, frozenset())])
        ends = [(s, g) for s, g in r['n'] + r.get('c', []) if not s]
        bad = [g for s, g in ends if not any('IsZero' in text(x) or (x.op == 'eq0' and not any(z.op == 'ekey' for z in vn.subterms(x))) for x in g)]
        n += 1
        line = min(e.line for s in S if s.loops and s.loops[-1].id == l.id for e in [s.e])
        c.ob(not bad, 'each-adds', ck.where(f, line), '%s: terms of %s' % (sig(f), name),
             'every pass adds its term' if not bad else 'a pass adds nothing when %s' % ', '.join(sorted(text(x) for x in min(bad, key=len))[:4]))
    return n


def lookup_key(I, name):
    return [e for e in I.events if e.kind == 'mapfind' and text(e.p) == name]


def guards(s, I):
    """guards that matter when a new and an old entry are compared"""
    return {text(y) for x in s.e.g for y in walk.conj(x) if not ismember(y, s.map, s.key)}


def swaps(I):
    """(event, name of the table kept, name of the table handed over)"""
    out = []
    for e in I.events:
        if e.kind == 'call' and nm(e) == 'swap':
            a = ([e.objp] if e.objp is not None else []) + list(e.argv or [])
            if len(a) == 2:
                out.append((e, rname(a[0]), rname(a[1])))
                out.append((e, rname(a[1]), rname(a[0])))
        elif e.kind == 'call' and nm(e) == 'append' and len(e.argv or []) == 2 and isinstance(e.argv[1], T):
            out.append((e, rname(e.argv[0]), rname(e.argv[1])))
        elif e.kind == 'write' and isinstance(e.p, T) and not e.p.a[1] and isinstance(e.v, T) and e.v.op in ('rd', 'lx', 'lp') and rname(e.v) != rname(e.p) and e.v.op != 'rd':
            out.append((e, rname(e.p), rname(e.v)))
    return out


def c18(c):
    P = facts.load()
    nevery = nadd = npair = nrep = nround = nprod = 0
    for f in library(P):
        if not any(x['k'] == 'Call' and ('operator[]' in (x.get('q') or '') and 'map' in (x.get('q') or '') or '::find' in (x.get('q') or '') or 'map<' in (x.get('q') or '')) for x in facts.walk(f['body'])):
            continue
        I = vn.Interp(P, inline=local).run(f)
        TABLES.clear()
        TABLES.update((l.id, l.elem[0]) for e in I.events for l in e.loops if l.elem is not None)
        S = sites(I)
        used = set()
        for s in S:
            if s.kind == '+' and s.member is None:
                nadd += 1
                c.ob(True, 'added', s.e.where, '%s: %s' % (sig(f), text(s.map)), 'added to what is there')
        new = [s for s in S if s.kind == '=' and s.member is True]
        old = [s for s in S if s.kind == '+' and s.member is False]
        for s in S:
            if s.kind == '=' and s.member is False:
                # overwrites an entry known to be there
                ok = False
                c.ob(ok, 'replaced', s.e.where, '%s: %s' % (sig(f), text(s.map)), 'the entry that is there is replaced')
        numeric = [s for s in new if s.loops[emptied(I, s.map, s.e):] and not all(inj_loc(s, l, I) for l in s.loops[-1:])]
        for s in numeric:
            npair += 1
            p = [o for o in S if o.kind == '+' and o.member is not True and text(o.e.p) == text(s.e.p) and o.ids == s.ids and same(o.v, s.v) and not o.neg
                 and (guards(o, I) == guards(s, I) or s.e.v is not s.v)]
            ok = len(p) == 1
            c.ob(ok, 'added-if-present', s.e.where, '%s: %s' % (sig(f), text(s.map)),
                 'the same term is added when the exponent is there already' if ok else 'no matching addition when the exponent is there already')
            used |= {id(x) for x in p}
        for s in old:
            ok = id(s) in used or any(n.ids == s.ids and text(n.e.p) == text(s.e.p) and same(n.v, s.v) for n in new)
            if not ok and sized(I, s):
                ok = True
            c.ob(ok, 'inserted-if-absent', s.e.where, '%s: %s' % (sig(f), text(s.map)),
                 'the same term is entered when the exponent is new' if ok else 'dropped when the exponent is new')
        for s in S:
            if s.kind == '=' and s.member is None and s.loops:
                nrep += 1
                L = s.loops[emptied(I, s.map, s.e):]
                ok = not L or transcribes(s.v, s.loops[-1]) and len(L) == 1
                det = 'one term only'
                if not ok:
                    ok = apart(s, L, I)
                    det = 'every term has its own exponent'
                c.ob(ok, 'own-exponent', s.e.where, '%s: %s' % (sig(f), text(s.map)), det if ok else 'a term with the same exponent would be replaced')
        nevery += everyterm(c, f, I, S)
        # tables used for several rounds
        for e, kept, gone in swaps(I):
            if not e.loops:
                continue
            acc = [s for s in S if text(s.map) == gone and e.loops[-1].id in s.ids]
            if not acc:
                continue
            nround += 1
            d = len(e.loops)
            # the table that is gone through in the round is the one of the round before
            if any(l.elem is not None and text(l.elem[0]) == gone for s in I.events for l in s.loops[d:] if len(s.loops) > d and s.loops[d - 1].id == e.loops[-1].id):
                lost = [w for w in I.events if w.kind == 'call' and nm(w) == 'clear' and w.objp is not None and text(w.objp) == gone and len(w.loops) >= d and w.loops[d - 1].id == e.loops[-1].id and I.events.index(w) < I.events.index(e) and not through_before(I, w, gone)]
                c.ob(not lost, 'round', e.where, '%s: %s' % (sig(f), gone), 'holds the terms of the round before' if not lost else 'the terms of the round before are discarded at line %s' % lost[0].line)
                continue
            first = min(acc, key=lambda s: I.events.index(s.e))
            i = I.events.index(first.e)
            res = [w for w in I.events if (w.kind == 'construct' and w.p is not None and text(w.p) == gone or w.kind == 'call' and nm(w) == 'clear' and w.objp is not None and text(w.objp) == gone)]
            inside = [w for w in res if len(w.loops) == d and w.loops[-1].id == e.loops[-1].id and set(w.g) <= set(first.e.g) | set(e.g)]
            ok = any(I.events.index(w) < i for w in inside) or \
                any(I.events.index(w) > I.events.index(e) and set(w.g) <= set(e.g) for w in inside) and any(I.events.index(w) < i and len(w.loops) < d for w in res)
            c.ob(ok, 'round', e.where, '%s: %s' % (sig(f), gone), 'emptied in every round' if ok else 'terms of the round before are still there')
        if f['n'] in PROD:
            nprod += PROD[f['n']](c, f, I, S)
    c.need(nadd, 8, 'additions to an entry')
    c.need(npair, 3, 'terms entered or added')
    c.need(nrep, 8, 'entries with an exponent of their own')
    c.need(nround, 8, 'tables used for several rounds')
    c.need(nprod, 2, 'expansions')
    c.need(nevery, 5, 'loops over terms')


def through_before(I, w, name):
    i = I.events.index(w)
    return any(l.elem is not None and text(l.elem[0]) == name for x in I.events[:i] for l in x.loops if w.loops[-1].id in [y.id for y in x.loops])


def apart(s, L, I):
    """different iterations write different places"""
    sel = [x[1] for x in s.e.p.a[1] if x[0] in ('k', 'i') and isinstance(x[1], T)]
    dep = [{l.id for l in L if depends(x, l) or inj(x, l, I, s.e)} for x in sel]
    todo = set().union({L[-1].id}, *dep)
    by = {l.id: l for l in L}
    while todo:
        for x, d in zip(sel, dep):
            u = d & todo
            if len(u) == 1 and inj(x, by[next(iter(u))], I, s.e):
                todo -= u
                break
        else:
            return False
    return True


def inj_loc(s, l, I):
    return any(isinstance(x[1], T) and inj(x[1], l, I, s.e) and (x[0] in ('k', 'i')) for x in s.e.p.a[1])


def sized(I, s):
    """under 'there is none' an empty entry of the right size is made, and the table is searched again"""
    for e in I.events:
        if e.kind == 'call' and nm(e) in ('SetDims', 'SetLength') and e.objp is not None and lastkey(e.objp) and text(e.objp) == text(T('path', s.map.a[0], s.map.a[1] + (('k', s.key),))) and membership(e, s.map, s.key) is True:
            return True
    return False


def factors(v):
    """factors of a product, as texts"""
    if v.op == 'call' and called(v) in ('operator*', 'mul'):
        return [x for a in cargs(v) for x in factors(a)]
    if v.op == 'poly' and len(v.a) == 1 and v.a[0][1] == 1:
        return [x for y in v.a[0][0] for x in factors(y if isinstance(y, T) else y[0])] if all(isinstance(y, T) for y in v.a[0][0]) else [v]
    return [v]


def terms(v):
    if v.op == 'call' and called(v) == 'operator+':
        return [x for a in cargs(v) for x in terms(a)]
    return [v]


def same(a, b):
    return sorted(text(x) for x in factors(a)) == sorted(text(x) for x in factors(b))


def mapelem(v):
    """(text of the table, loop) of the entry at the running key of a loop over that table"""
    q = v.a[0] if v.op == 'rd' else v
    if q.op not in ('path', 'sel'):
        return None
    ss = q.a[1]
    if not ss or ss[-1][0] != 'k' or ss[-1][1].op != 'ekey':
        return None
    base = T(q.op, q.a[0], ss[:-1])
    return (text(base) if ss[:-1] else text(q.a[0])), ss[-1][1].a[0]


def whole(c, f, I, ids, where, what, allow=()):
    """the loops visit every element: no early exit, no condition of their own"""
    bad = [e for e in I.events if e.kind in ('break', 'continue', 'ret') and e.loops and any(l.id in ids for l in e.loops) and (e.kind == 'ret' or e.loops[-1].id in ids)]
    c.ob(not bad, 'every-term', where, '%s: %s' % (sig(f), what), 'every pair of terms' if not bad else 'left early at line %s' % bad[0].line)


def products(c, f, I, S, what):
    """additions of a product of two entries, key the sum of the keys"""
    out = []
    for s in S:
        if not (s.kind == '=' and s.member is True or s.kind == '+' and s.member is not False):
            continue
        ks = terms(s.key)
        if len(ks) == 2 and all(k.op == 'ekey' for k in ks):
            fs = factors(s.v)
            el = [mapelem(x) for x in fs]
            ok = len(fs) == 2 and all(el) and {x[1] for x in el} == {k.a[0] for k in ks} and not s.rest
            # conditions inside the two loops
            ids = {k.a[0] for k in ks}
            extra = [y for x in s.e.g for y in walk.conj(x) if any(z.op == 'ekey' and z.a[0] in ids for z in vn.subterms(y)) and not ismember(y, s.map, s.key) and 'IsZero' not in text(y)]
            ok = ok and not extra
            c.ob(ok, 'product', s.e.where, '%s: %s' % (sig(f), text(s.map)), 'product of the coefficients at the sum of the exponents' if ok else
                 'not the product of the two coefficients' if not extra else 'only under %s' % text(extra[0]))
            whole(c, f, I, ids, s.e.where, 'terms of %s' % text(s.map))
            if ok:
                out.append((s, sorted(x[0] for x in el)))
    return out


def rng(l, iv=None):
    for v, (lo, hi, st, _) in l.ivs.items():
        if st == 1:
            return text(lo), text(hi)
        if st == -1:
            return text(hi), text(vn.add(lo, vn.num(1)))
    return None


def fpow(c, f, I, S):
    pr = products(c, f, I, S, 'f^k')
    w = ck.where(f, f['line'])
    if not c.ob(len(pr) == 1, 'power', w, '%s: product' % sig(f), 'one product per power' if len(pr) == 1 else '%d products' % len(pr)):
        return len(pr)
    s, fs = pr[0]
    k = [l for l in s.loops[:-2]]
    iv = list(k[-1].ivs)[0] if k and k[-1].ivs else None
    ok = iv is not None and fs == sorted(['this.dR.f', 'this.fpow[%s]' % text(vn.sub(iv, vn.num(1)))])
    c.ob(ok, 'power', s.e.where, '%s: factors' % sig(f), 'f^(k-1) times f' if ok else 'factors %s' % fs)
    if iv is not None:
        r = rng(k[-1])
        n0 = r and re.match(r'^len\((lx\(\d+,\w+#?\d*\)|this\.fpow)(,\d+)?\)$', r[0])
        ok = bool(n0) and r[1] == '(1+par:power)'
        c.ob(ok, 'power', s.e.where, '%s: range' % sig(f), 'every missing power up to the one asked for' if ok else 'powers %s' % (r,))
        st = [e for e in I.events if e.kind == 'call' and nm(e) == 'append' and text(e.argv[0]) == 'this.fpow' and rname(e.argv[1]) == text(s.map) and [l.id for l in e.loops] == [l.id for l in k]
              or e.kind == 'write' and text(e.p) == 'this.fpow[%s]' % text(iv) and isinstance(e.v, T) and rname(e.v) == text(s.map) and [l.id for l in e.loops] == [l.id for l in k]]
        kg = {g for g in s.e.g if not any(z.op == 'ekey' for z in vn.subterms(g))}
        ok = len(st) >= 1 and set(st[0].g) <= kg
        c.ob(ok, 'power', s.e.where, '%s: stored' % sig(f), 'stored as the k-th power' if ok else 'not stored as the k-th power')
    return 1


def substitution(c, f, I, S):
    pr = products(c, f, I, S, 'substitution')
    w = ck.where(f, f['line'])
    if not c.ob(len(pr) == 1, 'substitution', w, '%s: product' % sig(f), 'one product' if len(pr) == 1 else '%d products' % len(pr)):
        return 1
    s, fs = pr[0]
    L = s.loops
    M = f['params'][1]['n']
    ok = len(L) >= 5 and len(L[-3].ivs) == 1 and len(L[-4].ivs) == 1
    if ok:
        j, i = list(L[-3].ivs)[0], list(L[-4].ivs)[0]
        fk = [l for l in L[:-4] if l.elem is not None]
        ok = bool(fk) and re.sub(r'#\d+$', '', text(fk[-1].elem[0]).replace('par:', '')) == f['params'][0]['n']
        rj, ri = rng(L[-3]), rng(L[-4])
        ok = ok and rj and ri and rj[0] == '0' and ri[0] == '0' and rj[1] == 'sel(ekey(%d),((i,%s)))' % (fk[-1].id, text(i)) and ri[1] in ('NumRows(%s#1)' % M, 'NumCols(%s#1)' % M, 'NumRows(par:%s)' % M, 'NumCols(par:%s)' % M, 'len(val:ekey(%d),0)' % fk[-1].id)
        c.ob(ok, 'substitution', s.e.where, '%s: exponent' % sig(f), 'once for every unit of the exponent of every variable' if ok else 'exponents %s, variables %s' % (rj, ri))
    else:
        c.ob(False, 'substitution', s.e.where, '%s: exponent' % sig(f), 'not once for every unit of the exponent of every variable')
        return 1
    rows = [x for x in fs if text(i) in x]
    ok = len(rows) == 1
    c.ob(ok, 'substitution', s.e.where, '%s: image' % sig(f), 'image of the variable itself' if ok else 'factors %s' % fs)
    if ok:
        name = re.sub(r'^lx\(\d+,', '', rows[0].replace('sel(', '')).split(',')[0].split('[')[0].rstrip(')')
        ws = [t for t in S if rname(t.map) == name and t.kind == '=']
        good = len(ws) == 1 and len(ws[0].loops) == 2 and re.match(r'^(?:par:)?%s(?:#1)?\[(iv\(\d+\))\]\[(iv\(\d+\))\]$' % M, text(ws[0].v)) is not None
        if good:
            a, b = [list(l.ivs)[0] for l in ws[0].loops]
            mm = re.match(r'^(?:par:)?%s(?:#1)?\[(iv\(\d+\))\]\[(iv\(\d+\))\]$' % M, text(ws[0].v))
            good = text(ws[0].map).endswith('[%s]' % mm.group(1)) and ('(i,%s)' % mm.group(2) in text(ws[0].key) or '[%s]' % mm.group(2) in text(ws[0].key)) and mm.group(1) != mm.group(2) \
                and all(rng(l)[0] == '0' and 'Num' in rng(l)[1] for l in ws[0].loops)
        c.ob(good, 'substitution', (ws[0] if ws else s).e.where, '%s: rows' % sig(f), 'row i of the matrix is the image of variable i' if good else 'the images are not the rows of the matrix')
    # start and end of each term
    fkid = fk[-1].id
    st = [t for t in S if t.kind == '=' and t.member is None and len(t.loops) == len(L) - 4 and t.loops[-1].id == fkid and mapelem(t.v) and mapelem(t.v)[1] == fkid]
    ok = len(st) == 1
    c.ob(ok, 'substitution', s.e.where, '%s: start' % sig(f), 'starts with the coefficient of the term' if ok else 'does not start with the coefficient of the term')
    out = [t for t in S if t.e.loops and len(t.loops) == len(L) - 3 and t.loops[-2].id == fkid and t.key.op == 'ekey' and (t.kind == '+' or t.kind == '=') and (t.member is not False)]
    ok = len(out) == 1 and mapelem(out[0].v) is not None and mapelem(out[0].v)[1] == out[0].key.a[0] and bool(st) and mapelem(out[0].v)[0].endswith(text(st[0].map) + ')')
    c.ob(ok, 'substitution', (out[0] if out else s).e.where, '%s: sum' % sig(f), 'the expanded terms are added up' if ok else 'the expanded terms are not all added up')
    whole(c, f, I, {l.id for l in L}, s.e.where, 'substitution')
    return 1


def shifted(c, f, I, S):
    """(x + t v)^u"""
    pr = products(c, f, I, S, 'shift')
    w = ck.where(f, f['line'])
    if not c.ob(len(pr) == 1, 'shift', w, '%s: product' % sig(f), 'one product' if len(pr) == 1 else '%d products' % len(pr)):
        return 1
    s, fs = pr[0]
    u, v = f['params'][0]['n'], f['params'][1]['n']
    k = s.loops[-3] if len(s.loops) >= 3 else None
    i = list(k.ivs)[0] if k is not None and k.ivs else None
    ok = i is not None and rng(k) in (('0', 'len(par:%s,0)' % u), ('0', 'len(par:%s,0)' % v))
    c.ob(ok, 'shift', s.e.where, '%s: variables' % sig(f), 'one factor per variable' if ok else 'range %s' % (rng(k) if k is not None else None,))
    ws = [t for t in S if t.kind in '=+' and t.member is None and len(t.loops) == len(s.loops) - 1 and i is not None and t.loops[-2].id == k.id]
    ok = len(ws) == 1
    if ok:
        t = ws[0]
        j = list(t.loops[-1].ivs)[0] if t.loops[-1].ivs else None
        fx = sorted(text(x) for x in factors(t.v))
        ui, vi = 'par:%s[%s]' % (u, text(i)), 'par:%s[%s]' % (v, text(i))
        ok = j is not None and rng(t.loops[-1]) == ('0', '(1+%s)' % ui) and fx == sorted(['binomial(%s,%s)' % (ui, text(j)), 'power_long(%s,%s)' % (vi, text(j))])
        c.ob(ok, 'shift', t.e.where, '%s: coefficient' % sig(f), 'u_i over j times v_i^j for every j up to u_i' if ok else 'coefficient %s' % fx)
        el = {}
        for e in I.events:
            if e.kind == 'write' and isinstance(e.p, T) and [l.id for l in e.loops] == t.ids and rname(e.p) == text(t.key) and e.p.a[1] and e.p.a[1][-1][0] == 'i' and isinstance(e.v, T):
                el[text(e.p.a[1][-1][1])] = text(e.v)
        ok2 = j is not None and el.get(text(i)) == text(vn.sub(T('rd', T('path', T('root', 'par', u), (('i', i),)), 0), j)) and el.get('len(par:%s,0)' % u, el.get('len(par:%s,0)' % v)) == text(j) and len(el) == 2
        c.ob(ok2, 'shift', t.e.where, '%s: exponent' % sig(f), 'u_i - j of the variable and j of the shift' if ok2 else 'exponents %s' % el)
    else:
        c.ob(False, 'shift', s.e.where, '%s: factor' % sig(f), 'the factor of a variable is not recognised')
    whole(c, f, I, {l.id for l in s.loops}, s.e.where, 'shift')
    return 1


PROD = {'compute_fpow': fpow, 'change_of_variables': substitution, 'change_of_variables_monomial': shifted}
