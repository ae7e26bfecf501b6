"""Linear-algebra summaries.

Evaluates the event tree of an interpreted function over an algebra of formal sums: each matrix, vector or
number is a sum of terms   Sum_{bound} [guards] c * scalars * word   (word: non-commuting factors).  A loop is
summarised once: as a sum, a product, a family of elements, or an iteration x <- A(t) x.  Nothing is unrolled
or executed; the sums are over symbolic ranges, and two results are compared in normal form."""
import itertools
import re
import vn
from vn import T, num, add, sub, mul, ZERO, ONE, const, show
from gate import called, cargs
from memo import nm, text


class Unsupported(Exception):
    pass


class Wrong(Exception):
    """not a matter of form"""


K = T('bv', 'K')                 # the index of an array whose elements are described together
STATE = T('state')
_n = [0]


def bvar():
    _n[0] += 1
    return T('bv', _n[0])


# ------------------------------------------------------------------ sums of terms
class Mono:
    """one term: bound variables, guards, scalar factors (base -> exponent), word"""
    __slots__ = ('b', 'g', 's', 'w')

    def __init__(self, b=(), g=frozenset(), s=(), w=()):
        self.b, self.g, self.s, self.w = tuple(b), frozenset(g), tuple(s), tuple(w)

    def key(self):
        return (self.b, self.g, self.s, self.w)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def subst(self, m):
        f = lambda t: vn.subst(t, m) if isinstance(t, T) else t
        s = {}
        out = Mono([tuple(f(x) for x in b) for b in self.b], [tuple(f(x) for x in g) for g in self.g], (), [f(x) for x in self.w])
        for base, ex in self.s:
            base, ex = f(base), f(ex)
            s[base] = add(s.get(base, ZERO), ex)
        c, sc = 1, []
        for base, ex in s.items():
            if const(base) is not None and const(ex) is not None and const(ex) >= 0:
                c *= const(base) ** const(ex)
            elif ex is not ZERO:
                sc.append((base, ex))
        out.s = tuple(sorted(sc, key=lambda x: show(x[0])))
        return out, c


class Sum:
    def __init__(self, d=None):
        self.d = {m: c for m, c in (d or {}).items() if c}

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + c
        return Sum(d)

    def scale(self, k):
        return Sum({m: c * k for m, c in self.d.items()})

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        d = {}
        for m, c in self.d.items():
            for n, k in o.d.items():
                # keep bound variables apart
                ren = {b[0]: bvar() for b in n.b if b[0] in {x[0] for x in m.b}}
                if ren:
                    n, _ = n.subst(ren)
                s = dict(m.s)
                for base, ex in n.s:
                    s[base] = add(s.get(base, ZERO), ex)
                sc = tuple(sorted(((b, e) for b, e in s.items() if e is not ZERO), key=lambda x: show(x[0])))
                z = Mono(m.b + n.b, m.g | n.g, sc, m.w + n.w)
                d[z] = d.get(z, 0) + c * k
        return Sum(d)

    def subst(self, mm):
        d = {}
        for m, c in self.d.items():
            z, k = m.subst(mm)
            d[z] = d.get(z, 0) + c * k
        return Sum(d)

    def guard(self, *gs):
        return Sum({Mono(m.b, m.g | set(gs), m.s, m.w): c for m, c in self.d.items()})

    def left(self, *ws):
        return Sum({Mono(m.b, m.g, m.s, tuple(ws) + m.w): c for m, c in self.d.items()})

    def bind(self, b):
        return Sum({Mono((b,) + m.b, m.g, m.s, m.w): c for m, c in self.d.items()})

    def has(self, pred):
        return any(pred(t) for m in self.d for t in parts(m))

    def isconst(self):
        if not self.d:
            return 0
        if len(self.d) == 1:
            m, c = next(iter(self.d.items()))
            if not (m.b or m.g or m.s or m.w):
                return c
        return None


def parts(m):
    for x in itertools.chain((y for b in m.b for y in b), (y for g in m.g for y in g), (y for s in m.s for y in s), m.w):
        if isinstance(x, T):
            yield from vn.subterms(x)


def cst(k):
    return Sum({Mono(): k} if k else {})


def scal(t, ex=ONE):
    if const(t) is not None and ex is ONE:
        return cst(const(t))
    return Sum({Mono(s=((t, ex),)): 1})


def word(*ts):
    return Sum({Mono(w=ts): 1})


def total(b, s):
    """Sum over a bound variable (var, lo, hi) or (var, table)"""
    if len(b) == 3 and b[2].op != 'rest' and not s.has(lambda t: t is b[0]):
        return s * ints(sub(b[2], b[1]))
    return Sum({Mono((b,) + m.b, m.g, m.s, m.w): c for m, c in s.d.items() })


def ints(t):
    """an integer term as a sum"""
    if t.op == 'n':
        return cst(t.a[0])
    if t.op == 'poly':
        r = cst(0)
        for m, c in t.a:
            x = cst(c)
            for f in m:
                x = x * scal(f)
            r = r + x
        return r
    return scal(t)


def term(s):
    """a sum without bound variables as an integer term, or None"""
    r = ZERO
    for m, c in s.d.items():
        if m.b or m.g or m.w:
            return None
        x = num(c)
        for base, ex in m.s:
            k = const(ex)
            if k is None or k < 0 or k > 8:
                return None
            for _ in range(k):
                x = mul(x, base)
        r = add(r, x)
    return r


# ------------------------------------------------------------------ normal form
def canonical(s, rules=()):
    """equal sums get equal canonical forms (for the shapes that arise here)"""
    d = expand(s.d)
    d = pin(d)
    for r in rules:
        d = r(d)
    d = merge(d)
    out = {}
    for m, c in d.items():
        k = name(m)
        out[k] = out.get(k, 0) + c
    return {k: c for k, c in out.items() if c}


def expand(d):
    """integer factors with several terms are multiplied out; [a != 0] a = a"""
    out = {}
    todo = list(d.items())
    while todo:
        m, c = todo.pop()
        gs = set(m.g)
        for g in m.g:
            if g[0] in ('zero', 'nonzero') and len(g[1].a) == 1:
                z = g[1].a[0]
                if z.a[1].a == () and len(z.a[2].a) == 2 and z.a[2].a[1] is ONE and any(b is z.a[2].a[0] and e is ONE for b, e in m.s):
                    if g[0] == 'zero':
                        c = 0
                    gs.discard(g)
        if not c:
            continue
        m = Mono(m.b, gs, m.s, m.w)
        for b, ex in m.s:
            if b.op == 'poly' and const(ex) is not None and 1 <= const(ex) <= 4:
                rest = Sum({Mono(m.b, m.g, [(x, y) for x, y in m.s if x is not b], m.w): c})
                f = ints(b)
                for _ in range(const(ex)):
                    rest = f * rest
                todo += list(rest.d.items())
                break
        else:
            out[m] = out.get(m, 0) + c
    return out


def pin(d):
    """Sum_{k in [lo,hi)} [k == t] f(k)  =  [lo <= t < hi] f(t)"""
    out = {}
    todo = list(d.items())
    while todo:
        m, c = todo.pop()
        for g in m.g:
            if g[0] == 'eq':
                a, b = g[1], g[2]
                bs = {x[0]: x for x in m.b if len(x) == 3 and x[2].op != 'rest'}
                for x, y in ((a, b), (b, a)):
                    if x in bs and not any(z is x for z in vn.subterms(y)):
                        n, k = Mono([q for q in m.b if q[0] is not x], (m.g - {g}) | {('in', y, bs[x][1], bs[x][2])}, m.s, m.w).subst({x: y})
                        todo.append((n, c * k))
                        break
                else:
                    for x, y in ((a, b), (b, a)):
                        if not any(z.op in ('bv', 'ekey') for z in vn.subterms(x)):
                            n = Mono(m.b, (m.g - {g}) | {('in', y, x, add(x, ONE))}, m.s, m.w)
                            todo.append((n, c))
                            break
                    else:
                        continue
                break
        else:
            out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c}


def merge(d):
    """adjacent ranges of the same summand become one"""
    go = True
    while go:
        go = False
        ms = list(d)
        for m in ms:
            if go:
                break
            for i, b in enumerate(m.b):
                if len(b) != 3:
                    continue
                if b[2].op == 'rest':
                    one, k = Mono(m.b[:i] + m.b[i + 1:], m.g, m.s, m.w).subst({b[0]: T('call', 'begin')})
                    for n in ms:
                        if n is not m and d[n] == d[m] and name(n) == name(one):
                            c = d[m]
                            del d[m], d[n]
                            z = Mono(m.b[:i] + ((b[0], b[1]),) + m.b[i + 1:], m.g, m.s, m.w)
                            d[z] = d.get(z, 0) + c
                            go = True
                            break
                    if go:
                        break
                    continue
                rest = m.b[:i] + m.b[i + 1:]
                for at, nb in ((b[2], (b[0], b[1], add(b[2], ONE))), (sub(b[1], ONE), (b[0], sub(b[1], ONE), b[2]))):
                    one, k = Mono(rest, m.g, m.s, m.w).subst({b[0]: at})
                    for n in ms:
                        if n is not m and len(n.b) == len(rest) and d[m] * k == d[n] and name(n) == name(one):
                            c = d[m]
                            del d[m], d[n]
                            z = Mono(m.b[:i] + (nb,) + m.b[i + 1:], m.g, m.s, m.w)
                            d[z] = d.get(z, 0) + c
                            go = True
                            break
                    if go:
                        break
                if go:
                    break
                # two ranges side by side
                for n in ms:
                    if n is m or d[n] != d[m] or len(n.b) != len(m.b):
                        continue
                    for j, b2 in enumerate(n.b):
                        if len(b2) == 3 and b2[1] is b[2] and b2[2].op != 'rest':
                            x = Mono(m.b[:i] + m.b[i + 1:], m.g, m.s, m.w).subst({b[0]: T('bv', 'M')})[0]
                            y = Mono(n.b[:j] + n.b[j + 1:], n.g, n.s, n.w).subst({b2[0]: T('bv', 'M')})[0]
                            if name(x) == name(y):
                                c = d[m]
                                del d[m], d[n]
                                z = Mono(m.b[:i] + ((b[0], b[1], b2[2]),) + m.b[i + 1:], m.g, m.s, m.w)
                                d[z] = d.get(z, 0) + c
                                go = True
                                break
                    if go:
                        break
                if go:
                    break
            if go:
                break
            for g in m.g:
                if g[0] in ('zero', 'if'):
                    h = ('nonzero' if g[0] == 'zero' else 'unless',) + g[1:]
                    for n in ms:
                        if n is not m and d[n] == d[m] and len(n.b) == len(m.b):
                            hs = [x for x in n.g if x[0] == h[0]]
                            if any(name(Mono(m.b, m.g - {g}, m.s, m.w), g[1:]) == name(Mono(n.b, n.g - {x}, n.s, n.w), x[1:]) for x in hs):
                                c = d[m]
                                del d[m], d[n]
                                z = Mono(m.b, m.g - {g}, m.s, m.w)
                                d[z] = d.get(z, 0) + c
                                go = True
                                break
                    if go:
                        break
                if g[0] != 'in':
                    continue
                for n in ms:
                    if n is m or d[n] != d[m] or len(n.b) != len(m.b):
                        continue
                    for h in n.g:
                        if h[0] == 'in' and h[2] is g[3]:
                            # [lo,h) and [h,hi): same summand
                            x, y = Mono(m.b, m.g - {g}, m.s, m.w), Mono(n.b, n.g - {h}, n.s, n.w)
                            same = align(x, g[1], y, h[1], g, h)
                            if same is not None:
                                c = d[m]
                                del d[m], d[n]
                                z = Mono(same.b, same.g | {('in', g[1] if same is x else h[1], g[2], h[3])}, same.s, same.w)
                                d[z] = d.get(z, 0) + c
                                go = True
                                break
                    if go:
                        break
                if go:
                    break
            if go:
                break
    return d


def align(x, t, y, u, g, h):
    """x and y agree once the selected value is put in where a guard leaves a single one"""
    if name(x, (t,)) == name(y, (u,)):
        return x
    def fix(m, v, val):
        s = [(b, (val if False else vn.subst(e, {v: val}))) for b, e in m.s]
        return Mono(m.b, m.g, (), m.w).subst({})[0], tuple(sorted(((b, e) for b, e in s if e is not ZERO), key=lambda q: show(q[0])))
    if add(g[2], ONE) is g[3]:
        a, sa = fix(x, t, g[2])
        b, sb = fix(y, u, g[2])
        if name(Mono(a.b, a.g, sa, a.w), (t,)) == name(Mono(b.b, b.g, sb, b.w), (u,)):
            return y
    if add(h[2], ONE) is h[3]:
        a, sa = fix(x, t, h[2])
        b, sb = fix(y, u, h[2])
        if name(Mono(a.b, a.g, sa, a.w), (t,)) == name(Mono(b.b, b.g, sb, b.w), (u,)):
            return x
    return None


def name(m, extra=()):
    """text of a term, independent of the names of its bound variables"""
    best = None
    for perm in itertools.permutations(m.b) if len(m.b) <= 4 else [m.b]:
        ren = {b[0]: T('bv', 'b%d' % i) for i, b in enumerate(perm)}
        f = lambda t: show(vn.subst(t, ren)) if isinstance(t, T) else str(t)
        k = (tuple(tuple(f(x) for x in b) for b in perm), tuple(sorted(tuple(f(x) for x in g) for g in m.g)),
             tuple(sorted((f(b), f(e)) for b, e in m.s)), tuple(f(x) for x in m.w), tuple(f(x) for x in extra))
        if best is None or k < best:
            best = k
    return best


def asterm(s):
    """a sum of numbers as one term"""
    d = merge(pin(expand(s.d)))
    out = []
    for m, c in d.items():
        ren = {b[0]: T('bv', 'g%d' % i) for i, b in enumerate(m.b)}
        z, _ = m.subst(ren)
        out.append(T('mono', num(c), T('b', *[x for b in z.b for x in b]), T('s', *[x for p in z.s for x in p])))
    return T('total', *sorted(out, key=show))


def freeze(s, rules=()):
    return T('sum', *sorted('%s * %s' % (c, k) for k, c in canonical(s, rules).items()))


def pretty(c):
    out = []
    for (b, g, s, w, _), k in sorted(c.items(), key=lambda x: repr(x[0])):
        r = ''
        if k != 1:
            r += '%d ' % k
        r += ''.join('Sum{%s in %s} ' % (x[0], '..'.join(x[1:])) for x in b)
        r += ''.join('[%s] ' % ' '.join(x) for x in g)
        r += ' '.join([x if e == '1' else '%s^%s' % (x, e) for x, e in s] + list(w))
        out.append(r.strip() or '1')
    return ' + '.join(out) or '0'


# ------------------------------------------------------------------ summaries
def shape(ty):
    """(number of selectors that pick one matrix, vector or number, non-commuting) of a declared type"""
    t = ty.replace('NTL::', '').replace('const', '').replace('&', '').replace(' ', '')
    if t.startswith('Vec<Mat<'):
        return 1, True
    if t.startswith('Mat<') or t.startswith('Vec<ZZ') or t.startswith('Vec<zz') or t in ('fmpz*', 'mp_ptr', 'unsignedlong*', 'mp_srcptr', 'ulong*', 'mp_limb_t*'):
        return 0, True
    if t in ('fmpz_mat_struct*', 'nmod_mat_struct*'):
        return 1, True
    return 0, False


class Algebra:
    def __init__(self, I, fn, tables=(), full=(), arrays=()):
        """tables: name of the call answering a table -> number of selectors that pick one matrix"""
        self.I, self.fn, self.tables = I, fn, dict(tables)
        self.full, self.arrays = set(full), set(arrays)
        self.hist = {}                     # root -> [(stamp, Sum)]
        self.at_start, self.at_end = {}, {}   # (loop id, root) -> Sum
        self.shapes, self.ret, self.mods = {}, None, []
        self.moved = {}
        self.stamp = 0
        self.params = {}
        for p in fn['params']:
            if not p.get('n'):
                continue
            self.shapes[T('root', 'par', p['n'])] = shape(p['t']['c'])
            self.params[p['d']] = p['n']
        self.loops, self.guards, self.iters = [], [], {}
        self.done = set()
        self.seq(I.tree.ch)

    # ---------------------------------------------------------- places
    def root(self, r):
        if r.op == 'root' and r.a[0] == 'var' and r.a[1] in self.params:
            return T('root', 'par', self.params[r.a[1]])
        return r

    def refer(self, t):
        """(root, selectors, lookup) a value term reads from: lookup gives the value of the root"""
        sels = ()
        while True:
            if t.op == 'sel' and isinstance(t.a[0], T):
                sels = tuple(t.a[1]) + sels
                t = t.a[0]
                continue
            if t.op == 'exit':
                t = t.a[1]
                continue
            break
        if t.op in ('lp', 'lx') and isinstance(t.a[1], T) and t.a[1].op == 'path':
            p = t.a[1]
            r = self.root(p.a[0])
            d = self.at_start if t.op == 'lp' else self.at_end
            v = d.get((t.a[0], r))
            return r, tuple(p.a[1]) + sels, (v if v is not None else self.now(r))
        if t.op == 'rd' and t.a[0].op == 'path':
            r = self.root(t.a[0].a[0])
            return r, tuple(t.a[0].a[1]) + sels, self.now(r, t.a[1])
        if t.op == 'path':
            r = self.root(t.a[0])
            return r, tuple(t.a[1]) + sels, self.now(r)
        if t.op == 'addr' and isinstance(t.a[0], T) and t.a[0].op == 'path':
            r = self.root(t.a[0].a[0])
            return r, tuple(t.a[0].a[1]) + sels, self.now(r)
        return None

    def now(self, r, ver=None):
        h = self.hist.get(r)
        if not h:
            return None
        if ver is None:
            return h[-1][1]
        for st, v in reversed(h):
            if st <= ver:
                return v
        return None if r.a[0] == 'par' else h[0][1]

    def put(self, r, v, stamp=None):
        self.stamp = max(self.stamp + 1, stamp or 0)
        self.hist.setdefault(r, []).append((stamp if stamp is not None else self.stamp, v))

    def idx(self, t):
        """an index as a term with the values of local counters put in"""
        x = term(self.E(t))
        return x if x is not None else self.clean(t)

    def clean(self, t):
        """the term without version stamps"""
        if not isinstance(t, T):
            return t
        if t.op == 'rd':
            return self.clean(t.a[0])
        if t.op == 'path':
            return T('path', self.clean(self.root(t.a[0])), tuple((s[0],) + tuple(self.idx(x) if isinstance(x, T) and s[0] == 'i' else self.clean(x) for x in s[1:]) for s in t.a[1]))
        if t.op == 'call':
            return T('call', t.a[0], *[self.clean(x) for x in t.a[1:] if not (isinstance(x, T) and x.op == 'fresh')])
        if t.op == 'sel':
            return T('sel', self.clean(t.a[0]), tuple((s[0],) + tuple(self.idx(x) if isinstance(x, T) and s[0] == 'i' else self.clean(x) for x in s[1:]) for s in t.a[1]))
        if t.op == 'exit':
            return self.clean(t.a[1])
        if t.op == 'poly':
            x = ZERO
            for m, c in t.a:
                y = num(c)
                for f in m:
                    y = mul(y, self.clean(f))
                x = add(x, y)
            return x
        if t.op in ('root',):
            return T('root', *[self.clean(x) for x in t.a]) if any(isinstance(x, T) for x in t.a) else t
        if t.op in ('not', 'lt0', 'eq0', 'bool', 'and', 'or', 'bin', 'len', 'ite', 'isend', 'eq', 'iter', 'iterend'):
            return T(t.op, *[self.clean(x) for x in t.a])
        return t

    # ---------------------------------------------------------- values
    def E(self, t):
        o = t.op
        if o == 'n':
            return cst(t.a[0])
        if o == 'poly':
            r = cst(0)
            for m, c in t.a:
                x = cst(c)
                for f in m:
                    x = x * self.E(f)
                r = r + x
            return r
        if o == 'call':
            a = cargs(t)
            n = called(t)
            if n in ('operator*', 'mul') and len(a) == 2:
                return self.E(a[0]) * self.E(a[1])
            if n in ('operator+', 'add') and len(a) == 2:
                return self.E(a[0]) + self.E(a[1])
            if n in ('operator-', 'sub') and len(a) == 2:
                return self.E(a[0]) - self.E(a[1])
            if n in ('operator-', 'negate') and len(a) == 1:
                return self.E(a[0]).scale(-1)
            if n in ('conv', 'to_ZZ', 'to_ZZ_p', 'rep', 'fmpz_get_ui') and len(a) == 1:
                return self.E(a[0])
            if n in ('power_ZZ', 'power') and len(a) == 2:
                b, e = term(self.E(a[0])), term(self.E(a[1]))
                if b is not None and e is not None:
                    return scal(self.flat(b), e)
            if n == 'InnerProduct' and len(a) == 2:
                return self.E(a[0]) * self.E(a[1])
            if n == 'nmod_mul' and len(a) >= 2:
                return self.E(a[0]) * self.E(a[1])
            if n == 'nmod_add' and len(a) >= 2:
                return self.E(a[0]) + self.E(a[1])
            if n == 'nmod_vec_dot_compat' and len(a) >= 2:
                return self.E(a[0]) * self.E(a[1])
            if n in ('fmpz_mat_row_ptr_compat', 'nmod_mat_row_srcptr') and len(a) == 2:
                return self.E(a[0]).left(T('row', self.idx(a[1])))
        if o == 'addr' and isinstance(t.a[0], T) and t.a[0].op == 'path' and t.a[0].a[1] and t.a[0].a[1][-1] == ('i', ZERO) and len(t.a[0].a[1]) == 1:
            pass
        if o in ('rd', 'lp', 'lx', 'sel', 'path', 'addr', 'exit'):
            x = self.refer(t)
            if x is not None:
                return self.value(*x, t)
        if o == 'ite' and len(t.a) == 3:
            x, y = self.refer(t.a[1]), self.refer(t.a[2])
            if x is not None and y is not None and x[0] is y[0] and x[1] == y[1] and x[0].a[0] == 'var' and self.hist.get(x[0]):
                # the value after a choice, already joined
                return self.value(x[0], x[1], self.now(x[0]), t)
            a, b = self.E(t.a[1]), self.E(t.a[2])
            if freeze(a) is freeze(b):
                return a
            return a.guard(self.cond(t.a[0])) + b.guard(self.cond(t.a[0], False))
        if o == 'bin':
            return scal(T('bin', t.a[0], *[self.idx(x) for x in t.a[1:]]))
        if o == 'list' and len(t.a) == 1:
            return self.E(t.a[0])
        return self.atom(t)

    def flat(self, t):
        return t

    def here(self, r, sels):
        """*it of a loop over the rest of a table"""
        if r.op == 'root' and r.a[0] == 'ptr' and isinstance(r.a[1], T) and r.a[1].op == 'lp' and r.a[1].a[0] in self.iters and len(sels) >= 2 and sels[0] == ('i', ZERO):
            it, table, ek = self.iters[r.a[1].a[0]]
            if r.a[1].a[1] is it:
                if sels[1] == ('f', 'first'):
                    return ('key', T('sel', ek, sels[2:]) if sels[2:] else ek)
                if sels[1] == ('f', 'second'):
                    return ('entry', T('path', table.a[0], table.a[1] + (('k', ek),) + sels[2:]))
        return None

    def value(self, r, sels, v, t):
        h = self.here(r, sels)
        if h is not None:
            if h[0] == 'key':
                return self.atom(h[1])
            return self.E(h[1])
        dp, nc = self.shapes.get(r, (0, False))
        if r.op == 'root' and r.a[0] == 'ptr' and isinstance(r.a[1], T):
            q = r.a[1]
            # one of two objects
            if q.op == 'ite' and len(q.a) == 3 and (not sels or sels[0] == ('i', ZERO)):
                two = []
                for z in q.a[1:]:
                    p = z.a[0] if z.op == 'addr' and isinstance(z.a[0], T) and z.a[0].op == 'path' else None
                    if p is None:
                        break
                    if p.a[0].op == 'root' and p.a[0].a[0] == 'val' and not p.a[1] and len(sels) <= 1:
                        two.append(self.E(p.a[0].a[1]))
                    else:
                        two.append(self.E(T('path', p.a[0], p.a[1] + sels[1:])))
                if len(two) == 2:
                    return two[0].guard(self.cond(q.a[0])) + two[1].guard(self.cond(q.a[0], False))
            # pointer to a parameter array: ptr:par[k]
            if q.op in ('rd', 'lp', 'lx') and sels and sels[0][0] == 'i':
                x = self.refer(q)
                if x is not None and self.shapes.get(x[0], (0, False))[1]:
                    return self.value(x[0], x[1] + sels, x[2], t)
            # an entry of a table
            c = [y for y in vn.subterms(q) if y.op == 'call' and called(y) in self.tables]
            if c and sels and any(s == ('f', 'second') for s in sels):
                j = max(i for i, s in enumerate(sels) if s == ('f', 'second'))
                k = j + 1 + self.tables[called(c[0])]
                if len(sels) >= k:
                    w = self.clean(T('path', r, sels[:k]))
                    x = self.rows(word(w), sels[k:])
                    if x is not None:
                        return x
            return self.atom(t)
        if nc and any(s[0] != 'i' for s in sels):
            return self.atom(T('path', r, sels))
        if v is None:
            if nc:
                if dp == 1 and sels:
                    return self.rows(word(self.clean(T('path', r, sels[:1]))), sels[1:])
                if dp == 1:
                    return word(T('path', r, (('i', K),)))
                return self.rows(word(T('path', r, ())), sels)
            return self.atom(T('path', r, sels))
        if not sels:
            return v
        if dp == 1 and sels[0][0] == 'i':
            v = v.subst({K: self.idx(sels[0][1])})
            sels = sels[1:]
        if not sels:
            return v
        if nc:
            return self.rows(v, sels)
        if len(v.d) == 1:
            m, c = next(iter(v.d.items()))
            if c == 1 and not m.b and not m.g and not m.w and len(m.s) == 1 and m.s[0][1] is ONE:
                return self.atom(T('sel', m.s[0][0], sels))
        return self.atom(T('path', r, sels))

    def rows(self, v, sels):
        """elements of a vector or rows of a matrix; the entry named by the counters of an elementwise loop
        stands for the whole"""
        if any(s[0] != 'i' for s in sels):
            return None
        out = []
        for s in sels:
            i = self.idx(s[1])
            if i in self.whole():
                out.append(i)
                # the old value of the very entry that is being written
                for l in self.loops:
                    if i in l.ivs and v.has(lambda t: t.op == 'st' and t.a[0] == l.id):
                        v = Sum({Mono(m.b, m.g, m.s, [T('old', *x.a) if x.op == 'st' and x.a[0] == l.id else x for x in m.w]): c for m, c in v.d.items()})
                continue
            v = v.left(T('row', i))
        return self.order(v, out)

    def order(self, v, ivs):
        """entries (i, j) taken in the order of the loops, or the other way round"""
        if len(ivs) != len(set(ivs)) or len(ivs) > 2:
            raise Unsupported('diagonal')
        if len(ivs) == 2:
            at = {iv: k for k, l in enumerate(self.loops) for iv in l.ivs}
            if at[ivs[0]] > at[ivs[1]]:
                if all(m.w and m.w[0].op == 'transpose' for m in v.d):
                    return Sum({Mono(m.b, m.g, m.s, m.w[1:]): c for m, c in v.d.items()})
                return v.left(T('transpose'))
        return v

    def whole(self):
        return {iv for l in self.loops for iv, (lo, hi, st, _) in l.ivs.items()
                if st == 1 and const(lo) == 0 and show(self.clean(hi)) in self.full}

    def atom(self, t):
        return scal(self.clean(t))

    # ---------------------------------------------------------- effects
    def seq(self, nodes):
        for i, nd in enumerate(nodes):
            if nd.kind == 'ev' and nd.info.kind == 'continue':
                return
            if nd.kind == 'alt' and any(skips(b) for b in nd.ch):
                # the rest belongs to the branches that do not skip it
                z = vn.Node('alt')
                z.info, z.ch = nd.info, []
                for b in nd.ch:
                    y = vn.Node('seq')
                    y.info, y.ch = b.info, list(b.ch) + ([] if skips(b) else list(nodes[i + 1:]))
                    z.ch.append(y)
                self.alt(z)
                return
            self.node(nd)

    def node(self, nd):
        k = nd.kind
        if k in ('seq', 'crit', 'inl') or k == 'par' and self.lenient:
            self.seq(nd.ch)
        elif k == 'ev':
            self.event(nd.info)
        elif k in ('alt', 'loop'):
            if not self.lenient:
                (self.alt if k == 'alt' else self.loop)(nd)
                return
            keep = {r: list(h) for r, h in self.hist.items()}
            depth, ret = len(self.loops), self.ret
            try:
                (self.alt if k == 'alt' else self.loop)(nd)
            except (Unsupported, Wrong):
                del self.loops[depth:]
                self.hist, self.ret = keep, ret
                for r in self.written(nd):
                    self.put(r, Sum({Mono(s=((T('opaque', self.stamp, r), ONE),)): 1}))
                    for x in flatten(nd):
                        for l in x.loops[depth:]:
                            self.at_end[(l.id, r)] = self.now(r)
            if k == 'loop' and not self.loops:
                self.after(nd)
        else:
            raise Unsupported(k)

    lenient = False

    def after(self, nd):
        pass

    def watch(self, e):
        pass

    def written(self, nd):
        wr = []
        for e in flatten(nd):
            if e.kind in ('write', 'construct') and isinstance(e.p, T) and e.p.op == 'path':
                r = self.root(e.p.a[0])
                if r.a[0] == 'ptr' and isinstance(r.a[1], T):
                    y = self.refer(r.a[1]) if r.a[1].op in ('rd', 'lp', 'lx', 'sel', 'addr', 'path') else None
                    if y is None:
                        continue
                    r = y[0]
                if r.a[0] in ('var', 'par') and r not in wr:
                    wr.append(r)
        return wr

    def pathval(self, p):
        return self.root(p.a[0]), tuple(p.a[1])

    def store(self, p, v, plus=False, stamp=None):
        """p = v, or p += v"""
        r, sels = self.pathval(p)
        if r.op == 'root' and r.a[0] == 'ptr' and isinstance(r.a[1], T):
            q = r.a[1]
            x = self.refer(q) if q.op in ('rd', 'lp', 'lx', 'sel', 'addr', 'path') else None
            if x is not None and x[0].a[0] in ('var', 'par'):
                r, sels = x[0], x[1] + sels
            else:
                return
        dp, nc = self.shapes.get(r, (0, False))
        old = self.now(r)
        if old is None:
            old = cst(0)
        if nc:
            lead = sels[:dp]
            rest = sels[dp:]
            rows, ent = [], []
            for s in rest:
                if s[0] != 'i':
                    raise Unsupported('selector')
                i = self.idx(s[1])
                if i in self.whole():
                    ent.append(i)
                    continue
                rows.append(i)
            v = self.order(v, ent)
            if rows:
                if len(rows) > 1:
                    raise Unsupported('single entry written')
                if not plus:
                    # x[i] = (row i of x) + d
                    d = v - old.left(T('row', rows[0])) if not lead else None
                    if d is None:
                        raise Unsupported('row written')
                    v, plus = d, True
                v = v.left(T('unit', rows[0]))
            if lead and lead[0][0] == 'i':
                i = self.idx(lead[0][1])
                mine = [l for l in self.loops if i in l.ivs]
                if mine and not plus:
                    iv, (lo, hi, st, _) = i, mine[0].ivs[i]
                    v = v.subst({iv: K})
                    if not (st == 1 and const(lo) == 0 and show(self.clean(hi)) in self.arrays):
                        v = v.guard(('in', K, self.clean(lo), self.clean(hi)))
                    self.put(r, v, stamp)
                    return
                if not plus:
                    raise Unsupported('array element written')
                v = v.guard(('eq', K, i))
            self.put(r, old + v if plus else v, stamp)
            return
        if sels:
            self.put(r, Sum({Mono(s=((T('opaque', self.stamp), ONE),)): 1}), stamp)
            return
        self.put(r, old + v if plus else v, stamp)

    DEST = ('mul', 'add', 'sub', 'negate', 'conv', 'set', 'clear', 'rem', 'InnerProduct', 'power', 'MulAddTo', 'MulSubFrom', 'operator*=', 'operator+=', 'operator-=',
            'fmpz_one', 'fmpz_zero', 'fmpz_set', 'fmpz_mul_ui', 'fmpz_mul_si', 'fmpz_mul', 'fmpz_addmul', '_fmpz_vec_scalar_mul_fmpz', '_fmpz_vec_add', '_fmpz_vec_scalar_mod_fmpz', '_fmpz_vec_set',
            '_fmpz_vec_scalar_addmul_fmpz', 'fmpz_add', 'fmpz_set_ui', '_nmod_vec_scalar_addmul_nmod', 'fmpz_mod')

    def event(self, e):
        k = e.kind
        self.watch(e)
        if k == 'decl' or k == 'construct':
            if e.p is not None and e.p.op == 'path' and not e.p.a[1]:
                ty = (e.node.get('t') or {}).get('c') or (e.x or {}).get('t', {}).get('c', '') if isinstance(e.x, dict) else (e.node.get('t') or {}).get('c') or ''
                if e.kind == 'decl':
                    self.shapes[e.p.a[0]] = shape(ty)
                    if e.p.a[0] not in self.hist or self.loops and any(l.id == self.loops[-1].id for l in e.loops):
                        self.put(e.p.a[0], cst(0))
                elif not (e.argv or []):
                    self.put(e.p.a[0], cst(0), e.ret)
                elif len(e.argv) == 1 and isinstance(e.argv[0], T) and (self.shapes.get(e.p.a[0], (0, 0))[1] or e.ret is not None and re.search(r'(^|::)(ZZ|ZZ_p|zz_p)$', (e.q or '').rsplit('::', 1)[0])):
                    x = self.E(e.argv[0])
                    self.put(e.p.a[0], x, e.ret)
            return
        if k == 'write':
            if e.v is None:
                if id(e.node) not in self.done and e.p.op == 'path' and self.root(e.p.a[0]).a[0] in ('var', 'par') and e.x not in ('SetDims', 'SetLength') and self.root(e.p.a[0]) in self.shapes:
                    self.put(self.root(e.p.a[0]), Sum({Mono(s=((T('opaque', e.n), ONE),)): 1}), e.ret)
                elif id(e.node) in self.done and e.p.op == 'path':
                    # stamp of the value just stored
                    r = self.root(e.p.a[0])
                    h = self.hist.get(r)
                    if h and e.ret is not None:
                        h[-1] = (e.ret, h[-1][1])
                return
            if e.p.op == 'path' and self.root(e.p.a[0]).a[0] in ('var', 'par', 'ptr'):
                self.store(e.p, self.E(e.v), stamp=e.ret)
            return
        if k == 'call':
            self.call(e)
        elif k == 'ret':
            if isinstance(e.v, T):
                if self.ret is not None:
                    raise Unsupported('several results')
                self.ret = self.E(e.v)
        elif k == 'break':
            raise Wrong('a loop is left early at line %s' % e.line)
        elif k == 'continue':
            raise Unsupported(k)

    def place(self, a):
        """the place an argument passed by reference denotes"""
        if a.op in ('rd', 'path'):
            return a.a[0] if a.op == 'rd' else a
        x = self.refer(a)
        if x is not None:
            return T('path', x[0], x[1])
        raise Unsupported('destination')

    def call(self, e):
        n = nm(e)
        a = [x for x in (e.argv or [])]
        if n not in self.DEST or not a or a[0] is None:
            return
        q = e.node.get('q') or ''
        E = lambda i: self.E(a[i])
        try:
            d = self.place(a[0])
        except Unsupported:
            return
        m = len(a)
        self.done.add(id(e.node))
        if n == 'operator*=' and m == 2:
            self.store(d, E(0) * E(1))
        elif n == 'operator+=' and m == 2:
            self.store(d, E(1), plus=True)
        elif n == 'operator-=' and m == 2:
            self.store(d, E(1).scale(-1), plus=True)
        elif n == 'mul' and m >= 3:
            self.store(d, E(1) * E(2))
        elif n in ('fmpz_mul_ui', 'fmpz_mul_si', 'fmpz_mul'):
            self.store(d, E(1) * E(2))
        elif n in ('add', 'fmpz_add') and m == 3:
            self.store(d, E(1) + E(2))
        elif n == 'sub' and m == 3:
            self.store(d, E(1) - E(2))
        elif n == 'negate' and m == 2:
            self.store(d, E(1).scale(-1))
        elif n in ('set', 'fmpz_one') and m == 1:
            self.store(d, cst(1))
        elif n in ('clear', 'fmpz_zero') and m == 1:
            self.store(d, cst(0))
        elif n in ('conv', 'fmpz_set', 'fmpz_set_ui') and m == 2:
            self.store(d, E(1))
        elif n in ('rem', 'fmpz_mod') and m == 3:
            self.mods.append((e, self.clean(a[2])))
            self.store(d, E(1))
        elif n == 'InnerProduct' and m == 3:
            self.store(d, E(1) * E(2))
        elif n == 'power' and m == 3:
            self.store(d, self.E(T('call', 'power', a[1], a[2])))
        elif n in ('MulAddTo', 'fmpz_addmul') and m == 3:
            self.store(d, E(1) * E(2), plus=True)
        elif n == 'MulSubFrom' and m == 3:
            self.store(d, (E(1) * E(2)).scale(-1), plus=True)
        elif n == '_fmpz_vec_scalar_mul_fmpz':
            self.store(d, E(3) * E(1))
        elif n == '_fmpz_vec_scalar_addmul_fmpz':
            self.store(d, E(3) * E(1), plus=True)
        elif n == '_nmod_vec_scalar_addmul_nmod':
            self.store(d, E(3) * E(1), plus=True)
        elif n == '_fmpz_vec_add':
            self.store(d, E(1) + E(2))
        elif n == '_fmpz_vec_scalar_mod_fmpz':
            self.mods.append((e, self.clean(a[3])))
            self.store(d, E(1))
        elif n == '_fmpz_vec_set':
            self.store(d, E(1))
        else:
            self.done.discard(id(e.node))

    # ---------------------------------------------------------- choices
    def cond(self, c, pos=True):
        """a condition as a guard"""
        if c.op == 'not':
            return self.cond(c.a[0], not pos)
        if c.op == 'bool':
            return self.cond(c.a[0], pos)
        if c.op in ('bin', 'poly'):
            return self.cond(T('eq0', c), not pos)
        if c.op == 'call' and called(c) == 'IsZero' and len(cargs(c)) == 1:
            return self.cond(T('eq0', cargs(c)[0]), pos)
        if c.op == 'eq0':
            k, n = asterm(self.E(c.a[0])), asterm(self.E(c.a[0]).scale(-1))
            return ('zero' if pos else 'nonzero', min(k, n, key=show))
        return ('if' if pos else 'unless', self.clean(c))

    def alt(self, nd):
        outs = []
        start = {r: len(h) for r, h in self.hist.items()}
        base = {r: h[-1][1] for r, h in self.hist.items()}
        ret0 = self.ret
        for br in nd.ch:
            self.hist = {r: h[:start.get(r, 0)] for r, h in self.hist.items() if start.get(r, 0)}
            c = br.info if isinstance(br.info, T) else None
            self.seq(br.ch)
            outs.append((c, {r: h[-1][1] for r, h in self.hist.items()}))
        self.hist = {r: h[:start.get(r, 0)] for r, h in self.hist.items() if start.get(r, 0)}
        for r in {r for _, o in outs for r in o}:
            b = base.get(r)
            vals = [o.get(r) for _, o in outs]
            if all(v is b for v in vals):
                continue
            if len(outs) == 2 and outs[0][0] is not None:
                g = self.cond(outs[0][0])
                h = self.cond(outs[0][0], False)
                b = b if b is not None else cst(0)
                v0, v1 = [v if v is not None else b for v in vals]
                # common part stays unguarded
                d0, d1 = v0 - b, v1 - b
                if not any(m in b.d for m in list(d0.d) + list(d1.d)):
                    self.put(r, b + d0.guard(g) + d1.guard(h))
                else:
                    self.put(r, v0.guard(g) + v1.guard(h))
            else:
                self.put(r, Sum({Mono(s=((T('opaque', self.stamp), ONE),)): 1}))

    # ---------------------------------------------------------- loops
    def loop(self, nd):
        L = nd.info
        wr = self.written(nd)
        var = lo = hi = st = None
        if L.elem is not None:
            ek = T('ekey', L.id)
            eks = {y for x in flatten(nd) for t in terms_of(x) for y in vn.subterms(t) if y.op == 'ekey' and y.a[0] == L.id}
            if len(eks) == 1:
                ek = eks.pop()
            var = ek
            binder = (ek, self.clean(L.elem[0]))
        else:
            for iv, (l, h, s, path) in L.ivs.items():
                var, st = iv, s
                if s == 1:
                    lo, hi = self.idx(l), self.idx(h)
                elif s == -1:
                    lo, hi = self.idx(h), add(self.idx(l), ONE)
                else:
                    raise Unsupported('step')
                break
            if var is None:
                x = self.rest(L)
                if x is None:
                    raise Unsupported('loop')
                var = x[2]
                self.iters[L.id] = x
                binder = (var, self.clean(x[1]), T('rest'))
            else:
                binder = (var, lo, hi)
        x0 = {r: self.now(r) for r in wr}
        inside = {r: T('st', L.id, r) for r in wr}
        def start(r, val):
            self.put(r, val)
            self.at_start[(L.id, r)] = val
        def placeholder(r):
            dp, nc = self.shapes.get(r, (0, False))
            if nc:
                return word(T('st', L.id, r, K) if dp else T('st', L.id, r))
            return scal(T('st', L.id, r))
        known = {}
        final = {}
        for _ in range(6):
            keep = {r: len(self.hist.get(r, ())) for r in set(self.hist) | set(wr)}
            for r in wr:
                start(r, known.get(r) or placeholder(r))
            self.loops.append(L)
            m0 = len(self.mods)
            self.seq(nd.ch)
            self.loops.pop()
            new = {r: self.now(r) for r in wr}
            # drop what the pass has left behind
            for r in list(self.hist):
                if r in keep and r in wr:
                    self.hist[r] = self.hist[r][:keep[r]]
                elif r not in keep:
                    pass
            again = False
            for r in wr:
                if r in final:
                    continue
                f = new[r]
                me = lambda t: t.op == 'st' and t.a[0] == L.id
                mine = lambda t: t.op == 'st' and t.a[0] == L.id and t.a[1] is r
                others = f.has(lambda t: me(t) and not mine(t))
                if others:
                    continue
                z = placeholder(r)
                zm = next(iter(z.d))
                if not f.has(me):
                    final[r] = ('last', f)
                    continue
                g = Sum({m: c for m, c in f.d.items() if m != zm})
                if f.d.get(zm) == 1 and not g.has(me):
                    final[r] = ('sum', g)
                    if st is not None:
                        j = bvar()
                        part = total((j, lo, var) if st == 1 else (j, add(var, ONE), hi), g.subst({var: j}))
                        known[r] = (x0[r] if x0[r] is not None else cst(0)) + part
                        again = True
                    continue
                if f.d and not self.shapes.get(r, (0, False))[1]:
                    if all(dict(m.s).get(inside[r]) is ONE and not m.b and not m.g and not m.w for m in f.d):
                        g = Sum({Mono(s=tuple((x, y) for x, y in m.s if x is not inside[r])): c for m, c in f.d.items()})
                        if len(g.d) > 1:
                            t = term(g)
                            g = scal(t) if t is not None else None
                        if g is not None and not g.has(me):
                            final[r] = ('prod', g)
                            if st is not None:
                                known[r] = (x0[r] if x0[r] is not None else cst(0)) * self.prod(g, var, lo if st == 1 else add(var, ONE), var if st == 1 else hi)
                                again = True
                            continue
                if self.shapes.get(r, (0, False))[1] and all(m.w and m.w[-1] is inside[r] and not any(me(t) for y in m.w[:-1] for t in vn.subterms(y)) and
                                                             not any(me(t) for b, x in m.s for y in (b, x) for t in vn.subterms(y)) for m in f.d):
                    A = Sum({Mono(m.b, m.g, m.s, m.w[:-1]): c for m, c in f.d.items()})
                    final[r] = ('iter', A)
                    continue
            if not again:
                break
            del self.mods[m0:]
        for r in wr:
            x = x0[r]
            if r not in final:
                v = Sum({Mono(s=((T('opaque', L.id, r), ONE),)): 1})
            else:
                kind, g = final[r]
                if kind == 'sum':
                    b = bvar()
                    v = (x if x is not None else (self.value(r, (), None, None) if r.a[0] == 'par' else cst(0))) + total((b,) + binder[1:], g.subst({var: b}))
                elif kind == 'prod':
                    v = (x if x is not None else cst(0)) * self.prod(g, var, lo, hi, binder)
                elif kind == 'iter':
                    if st is None:
                        v = Sum({Mono(s=((T('opaque', L.id, r), ONE),)): 1})
                    else:
                        t = T('bv', 't')
                        n = sub(hi, lo)
                        A = g.subst({var: add(lo, t) if st == 1 else sub(sub(hi, ONE), t)})
                        self.bodies = getattr(self, 'bodies', {})
                        it = T('iterate', n, freeze(A, self.rules))
                        self.bodies[it] = canonical(A, self.rules)
                        v = x.left(it) if x is not None else word(it, T('path', r, ()))
                else:
                    if g.has(lambda t: t.op == 'old' and t.a[0] == L.id):
                        g = resolve(g, L.id, x0)
                    v = g
                    if g.has(lambda t: t is var) :
                        if st is None:
                            v = Sum({Mono(s=((T('opaque', L.id, r), ONE),)): 1})
                        else:
                            v = g.subst({var: sub(hi, ONE) if st == 1 else lo})
            self.put(r, v)
            self.at_end[(L.id, r)] = v

    rules = ()

    def rest(self, L):
        """(iterator, table, key) of a loop over all but the first entry of a table"""
        c = L.cond
        if not (isinstance(c, T) and c.op == 'not' and c.a[0].op == 'eq'):
            return None
        a, b = c.a[0].a
        if a.op == 'lp':
            a, b = b, a
        if a.op != 'iterend' or b.op != 'lp' or b.a[0] != L.id:
            return None
        it, table = b.a[1], a.a[0]
        last = [e for e in self.I.events if e.kind == 'write' and e.p is it and not any(l.id == L.id for l in e.loops) and e.n < min(x.n for x in self.I.events if any(l.id == L.id for l in x.loops))]
        step = [e for e in self.I.events if e.kind == 'write' and e.p is it and any(l.id == L.id for l in e.loops)]
        if not last or len(step) != 1 or step[0].v.op != 'iternext' or step[0].v.a[0] is not b or step[0].loops[-1].id != L.id:
            return None
        v = last[-1].v
        if v.op != 'iter' or show(self.clean(v.a[0])) != show(self.clean(table)) or not isinstance(v.a[1], T) or not show(v.a[1]).startswith('next(begin()'):
            raise Wrong('the loop at line %s does not start at the first or second entry of the table' % step[0].line)
        return it, table, T('ekey', L.id, 'rest')

    def prod(self, g, var, lo, hi, binder=None):
        """Product over the counter"""
        if binder is not None and len(binder) == 2:
            raise Wrong('a product over the whole table')
        m, c = next(iter(g.d.items())) if g.d else (Mono(), 0)
        if g.has(lambda t: t is var):
            if c != 1:
                raise Unsupported('product')
            b = T('bv', 'p')
            if any(t.op == 'prod' for m_ in g.d for t in parts(m_)):
                b = T('bv', 'pp')
            body = tuple((vn.subst(x, {var: b}), vn.subst(y, {var: b})) for x, y in m.s)
            return scal(T('prod', lo, hi, *[T('pow', *x) for x in sorted(body, key=lambda q: show(q[0]))]))
        if c != 1:
            raise Unsupported('product')
        n = sub(hi, lo)
        return Sum({Mono(s=tuple((x, mul(y, n)) for x, y in m.s if mul(y, n) is not ZERO)): 1})


def resolve(g, lid, x0):
    """entries written from their own old value"""
    r = cst(0)
    for m, c in g.d.items():
        at = [i for i, x in enumerate(m.w) if x.op == 'old' and x.a[0] == lid]
        if len(at) != 1:
            if not at:
                r = r + Sum({m: c})
                continue
            raise Unsupported('product of entries')
        i = at[0]
        x = x0.get(m.w[i].a[1])
        if x is None:
            raise Unsupported('unknown vector')
        r = r + Sum({Mono(m.b, m.g, m.s, m.w[:i]): c}) * x * word(*m.w[i + 1:])
    return r


def skips(b):
    return bool(b.ch) and b.ch[-1].kind == 'ev' and b.ch[-1].info.kind == 'continue'


def flatten(nd):
    todo = [nd]
    while todo:
        x = todo.pop()
        if x.kind == 'ev':
            yield x.info
        todo += x.ch or []


def terms_of(e):
    for t in [e.p, e.v] + list(e.argv or []):
        if isinstance(t, T):
            yield t
