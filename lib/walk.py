"""Walks every path of an interpreted function (the structured event tree of vn.Interp) with a
client state: a finite-state dataflow with path conditions.

   walk(I, start, step)  ->  [(state, conditions, ret event or None)] at the normal ends
   step(state, event, conditions) -> new state, or a list of states, or DEAD
States must be hashable."""
import vn
from vn import T
from facts import AnalysisError

DEAD = object()
LIMIT = 4000


class Walker:
    def __init__(self, step, unwind=None, feasible=None):
        self.step, self.unwind, self.feasible = step, unwind, feasible

    def merge(self, xs):
        """one entry per state: the conditions common to all paths reaching it"""
        d = {}
        for s, g in xs:
            d[s] = (d[s] & g) if s in d else g
        if len(d) > LIMIT:
            raise AnalysisError('too many states')
        return list(d.items())

    def node(self, nd, xs):
        if not xs:
            return {'n': []}
        k = nd.kind
        if k in ('seq', 'crit', 'par'):
            return self.seq(nd, xs)
        if k == 'ev':
            e = nd.info
            out = {'n': []}
            for s, g in xs:
                r = self.step(s, e, g)
                for s2 in (r if isinstance(r, list) else [r]):
                    if s2 is DEAD:
                        continue
                    if e.kind == 'break':
                        out.setdefault('b', []).append((s2, g))
                    elif e.kind == 'continue':
                        out.setdefault('c', []).append((s2, g))
                    elif e.kind == 'iret':
                        out.setdefault(('r', e.x), []).append((s2, g))
                    elif e.kind == 'ret':
                        out.setdefault('ret', []).append((s2, g, e))
                    elif e.kind == 'abort':
                        pass
                    elif e.kind == 'assert' and isinstance(e.v, T):
                        if vn.const(e.v) != 0:
                            out['n'].append((s2, g | conj(e.v)))
                    else:
                        out['n'].append((s2, g))
            return out
        if k == 'inl':
            r = self.seq(nd, xs)
            done = r['n'] + r.pop(('r', nd.info[1]), [])
            if self.unwind:
                done = [(self.unwind(s, nd.info[1]), g) for s, g in done]
            r['n'] = self.merge(done)
            return r
        if k == 'alt':
            out = {'n': []}
            for br in nd.ch:
                cc = br.info
                ys = []
                for s, g in xs:
                    if isinstance(cc, T):
                        if vn.lnot(cc) in g or vn.const(cc) == 0:
                            continue
                        if self.feasible and not self.feasible(g | conj(cc)):
                            continue
                        ys.append((s, g | conj(cc)))
                    else:
                        ys.append((s, g))
                r = self.node(br, ys)
                for kk, v in r.items():
                    out.setdefault(kk, []).extend(v)
            out['n'] = self.merge(out['n'])
            return out
        if k == 'loop':
            return self.loop(nd, xs)
        raise AnalysisError('tree node ' + k)

    def seq(self, nd, xs):
        out = {'n': xs}
        for c in nd.ch:
            if not out['n']:
                break
            r = self.node(c, out['n'])
            out['n'] = r.pop('n')
            for kk, v in r.items():
                out.setdefault(kk, []).extend(v)
        return out

    def loop(self, nd, xs):
        L = nd.info
        body = vn.Node('seq')
        body.ch = nd.ch
        res = {'n': []}
        entry = self.merge(xs)
        self.old = frozenset().union(*[g for _, g in entry]) if entry else frozenset()
        self.wr = written(nd)
        seen = dict(entry)
        cur = entry
        acc, after = [], []
        old, wr = self.old, self.wr
        for _ in range(50):
            r = self.seq(body, [(s, self.drop(g, L)) for s, g in cur])
            for kk, v in r.items():
                if kk not in ('n', 'b', 'c'):
                    res.setdefault(kk, []).extend(v)
            self.old, self.wr = old, wr
            after += [(s, self.drop(g, L)) for s, g in r.get('b', [])]
            outs = self.merge([(s, self.drop(g, L)) for s, g in r['n'] + r.get('c', [])])
            acc += outs
            new = [(s, g) for s, g in outs if s not in seen]
            if not new:
                break
            seen.update(new)
            cur = new
        else:
            raise AnalysisError('loop does not settle')
        res['n'] = self.merge(([] if L.kind == 'Do' and acc else entry) + acc + after)
        return res

    def drop(self, g, L):
        return frozenset(c for c in g if (c in self.old or not any(t.op == 'rd' and root(t) in self.wr for t in vn.subterms(c))) and not any(t in L.ivs or t.op in ('iv', 'ekey', 'lp') and t.a[0] == L.id for t in vn.subterms(c)))

    def run(self, tree, start):
        r = self.node(tree, [(start, frozenset())])
        return [(s, g, None) for s, g in r['n']] + r.get('ret', [])


def root(t):
    p = t.a[0]
    return p.a[:2] if isinstance(p, T) and p.op == 'path' else None


_written = {}


def written(nd):
    """roots of the memory written below a loop node"""
    if id(nd) in _written and _written[id(nd)][0] is nd:
        return _written[id(nd)][1]
    out, todo = set(), [nd]
    while todo:
        x = todo.pop()
        if x.kind == 'ev' and x.info.kind == 'write' and isinstance(x.info.p, T) and x.info.p.op == 'path':
            out.add(x.info.p.a[:2])
        todo += x.ch or []
    _written[id(nd)] = (nd, out)
    return out


def conj(v):
    """the conditions known when v holds"""
    if v.op == 'and':
        r = frozenset()
        for x in v.a:
            r |= conj(x)
        return r
    if v.op == 'bool' and isinstance(v.a[0], T) and v.a[0].op in ('and', 'not', 'lt0', 'eq0', 'bool'):
        return conj(v.a[0])
    return frozenset([v])


def walk(I, start, step, unwind=None, feasible=None):
    return Walker(step, unwind, feasible).run(I.tree, start)


# ---------------------------------------------------------------- conditions on single integers
def alternatives(t, pos=True):
    """t (or its negation) as a list of conjunctions of (atom, lo, hi) bounds; unknown atoms are no constraint"""
    if t.op == 'bool' and isinstance(t.a[0], T):
        return alternatives(t.a[0], pos) if t.a[0].op in ('and', 'or', 'not', 'lt0', 'eq0', 'bool', 'n') else [[]]
    if t.op == 'not':
        return alternatives(t.a[0], not pos)
    if t.op in ('and', 'or'):
        if (t.op == 'and') == pos:
            out = [[]]
            for x in t.a:
                ys = alternatives(x, pos)
                out = [o + y for o in out for y in ys]
            return out
        return [y for x in t.a for y in alternatives(x, pos)]
    if t.op == 'n':
        return [[]] if bool(t.a[0]) == pos else []
    if t.op in ('lt0', 'eq0'):
        l = linear(t.a[0])
        if l is None:
            return [[]]
        x, k, c = l                       # k*x + c < 0   or  = 0
        if t.op == 'eq0':
            if pos:
                return [[(x, -c // k, -c // k)]] if c % k == 0 else []
            return [[(x, None, -c // k - 1)], [(x, -c // k + 1, None)]] if c % k == 0 else [[]]
        if pos:                           # k*x < -c
            return [[(x, None, (-c - 1) // k)]] if k > 0 else [[(x, -((-c - 1) // -k), None)]]
        return [[(x, -(c // k), None)]] if k > 0 else [[(x, None, c // -k)]]
    return [[]]


def linear(t):
    """k*x + c with a single atom x"""
    if t.op == 'poly':
        c, x = 0, None
        for m, k in t.a:
            if len(m) == 0:
                c = k
            elif len(m) == 1 and x is None:
                x = (m[0], k)
            else:
                return None
        return (x[0], x[1], c) if x else None
    if t.op == 'n':
        return None
    return (t, 1, 0)


def boxes(g):
    """the conjunction of the conditions g as a list of boxes {atom: (lo, hi)}"""
    alts = sorted((alternatives(t) for t in g), key=len)
    out = [{}]
    for al in alts:
        if [] in al:
            continue
        new, seen = [], set()
        for b in out:
            for x in al:
                d = meet(b, x)
                if d is None:
                    continue
                k = frozenset(d.items())
                if k not in seen:
                    seen.add(k)
                    new.append(d)
        out = new
        if len(out) > 3000:
            raise AnalysisError('too many cases')
    return out


def meet(b, bounds):
    d = dict(b)
    for x, lo, hi in bounds:
        l0, h0 = d.get(x, (None, None))
        l0 = lo if l0 is None else l0 if lo is None else max(l0, lo)
        h0 = hi if h0 is None else h0 if hi is None else min(h0, hi)
        if l0 is not None and h0 is not None and l0 > h0:
            return None
        d[x] = (l0, h0)
    return d


def feasible(g):
    """False only when the integer conditions in g contradict one another"""
    alts = [al for al in sorted((alternatives(t) for t in g), key=len) if [] not in al]
    steps = [0]

    def go(i, b):
        steps[0] += 1
        if steps[0] > 20000 or i == len(alts):
            return True
        for x in alts[i]:
            d = meet(b, x)
            if d is not None and go(i + 1, d):
                return True
        return False
    return go(0, {})
