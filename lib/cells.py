"""What a function stores where: cell-wise normal forms of the arrays it fills.

The event tree of a function (vn.py) is walked once. Every local array is carried as
the function it is of its indices (K0, K1) plus the set of accumulations into it, each
with the loops it is repeated over and the conditions it stands under; a counted loop
over all indices becomes the function itself, a loop abandoned under a condition becomes
a statement about all indices, a pair of changes that cancel disappears. What is stored
outside the function (members, arguments) is the result: a set of
(cell, operation, value, ranges, conditions), independent of how loops are written, of
the names, of the order of independent statements and of helper functions.

No input value is chosen and nothing is run: the walk is over the syntax tree.
"""
import itertools
import re
import vn
from vn import T, num, add, sub, mul, subst, subterms, ZERO, ONE
from memo import nm

K = [T('K', i) for i in range(3)]
ALL = T('B')                      # the index a condition holds for all of
VEC = re.compile(r'Vec<|vector<')


class Undecided(Exception):
    pass


_fv = {}
LEAF = ('K', 'B', 'iv', 'ekey', 'head', 'after', 'mark', 'dot')


def fv(t):
    """the indices t speaks of"""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            r = frozenset()
            for x in t:
                r |= fv(x)
            return r
        return frozenset()
    r = _fv.get(t)
    if r is None:
        r = frozenset([t]) if t.op in LEAF else frozenset()
        for x in t.a:
            if isinstance(x, (T, tuple)):
                r |= fv(x)
        _fv[t] = r
    return r


def mentions(t, x):
    if x.op in LEAF:
        return x in fv(t)
    return any(s is x for s in subterms(t))


def shift(t, by):
    """rename K0,K1 -> K(0+by).."""
    return subst(t, {K[i]: K[i + by] for i in range(2 if by > 0 else 0)}) if by > 0 else \
        subst(t, {K[i]: K[i - 1] for i in (1, 2)})


def resub(t, m):
    """substitute and renormalise"""
    m = {k: v for k, v in m.items() if k is not v and (k.op not in LEAF or k in fv(t))}
    if not m:
        return norm(t)
    key = (t, tuple(sorted((k.id, v.id) for k, v in m.items())))
    r = _subs.get(key)
    if r is None:
        r = _subs[key] = norm(subst(t, m))
    return r


_subs = {}


_norms = {}


def norm(t, memo=None):
    memo = _norms
    r = memo.get(t)
    if r is None:
        r = memo[t] = _norm(t, memo)
    return r


def _norm(t, memo):
    if not isinstance(t, T):
        return tuple(norm(x, memo) if isinstance(x, (T, tuple)) else x for x in t) if isinstance(t, tuple) else t
    if t.op == 'n':
        return t
    if t.op == 'poly':
        r = ZERO
        for mono, c in t.a:
            p = num(c)
            for x in mono:
                p = mul(p, norm(x, memo))
            r = add(r, p)
        return r
    a = tuple(norm(x, memo) if isinstance(x, (T, tuple)) else x for x in t.a)
    if t.op == 'delta':
        return delta(*a)
    if t.op == 'within':
        x, y = vn.const(sub(a[2], a[1])), vn.const(sub(a[2], a[0]))
        if x is not None and x >= 0 or y is not None and y < 0:
            return ZERO
    if t.op == 'lt0':
        return vn.lt(a[0], ZERO)
    if t.op == 'eq0':
        return vn.eq(a[0], ZERO)
    if t.op == 'not':
        return vn.lnot(a[0])
    if t.op == 'ite':
        return ite(*a)
    if t.op == 'bool':
        return truth(*a)
    if t.op == 'all' and vn.const(a[2]) == 1:
        return ONE
    if t.op == 'and':
        r = ONE
        for x in a:
            r = vn.land(r, x)
        return r
    return T(t.op, *a)


def delta(i, j):
    d = sub(i, j)
    c = vn.const(d)
    if c is not None:
        return ONE if c == 0 else ZERO
    d2 = sub(j, i)
    return T('delta', *((i, j) if i.id < j.id else (j, i)))


def ite(c, a, b):
    if a is b:
        return a
    k = vn.const(c)
    if k is not None:
        return a if k else b
    if c.op == 'not':
        return ite(c.a[0], b, a)
    a, b = under(a, c), under(b, vn.lnot(c))
    if a is b:
        return a
    if c.op == 'eq0':
        # a choice on equality of two indices, as the indicator of that equality
        pl = vn._poly(c.a[0])
        ks = [m for m in pl if len(m) == 1 and pl[m] in (1, -1) and m[0].op in ('K', 'iv', 'B')]
        if ks:
            m = ks[0]
            other = sub(m[0], c.a[0]) if pl[m] == 1 else add(m[0], c.a[0])
            d = delta(m[0], other)
            return add(mul(d, a), mul(sub(ONE, d), b))
    return T('ite', c, a, b)


def at(v, *idx):
    """v[idx0][idx1]..: v a function of K0.."""
    for i in idx:
        v = resub(v, {K[0]: i, K[1]: K[0], K[2]: K[1]})
    return v


DOT = [T('dot', i) for i in range(2)]


def close(t):
    """the vector t as one object (its own index is not the index of what it stands in)"""
    return resub(t, {K[0]: DOT[0], K[1]: DOT[1]}) if isinstance(t, T) and (mentions(t, K[0]) or mentions(t, K[1])) else t


def cell(root, sels):
    sels = tuple(sels)
    if sels and sels[0] == ('f', 'second'):
        if root.op == 'iter' and isinstance(root.a[1], T):
            return cell(cell(root.a[0], [('k', close(root.a[1]))]), sels[1:])
        if root.op == 'call' and root.a[0].startswith('compute_') and root.a[0] != 'compute_everything' and len(root.a) == 3:
            # computes the entry and returns where it is kept
            return cell(T('cell', root.a[1], (('f', root.a[0][8:] + '_dict'), ('k', close(root.a[2])))), sels[1:])
        if root.op == 'ite':
            a, b = cell(root.a[1], sels), cell(root.a[2], sels)
            return a if a is b else cell(ite(root.a[0], a, b), ())
    if root.op == 'cell' and sels:
        return T('cell', root.a[0], root.a[1] + tuple(sels))
    if root.op == 'cell':
        return root
    return T('cell', root, tuple(sels))


class Arr:
    """body: function of K0, K1; puts: accumulations; n: known length"""
    __slots__ = ('body', 'puts', 'n', 'vec')

    def __init__(self, body, puts=(), n=None, vec=False):
        self.body, self.puts, self.n, self.vec = body, tuple(puts), n, vec

    def term(self):
        if not self.puts:
            return self.body
        return T('filled', self.body, *self.puts)

    def same(self, o):
        return isinstance(o, Arr) and o.body is self.body and o.puts == self.puts


def put(idx, op, v, quants, conds):
    return T('put', tuple(idx), op, v, tuple(quants), tuple(conds))


def fold(a):
    if not a.puts:
        return a
    return Arr(T('cell', a.term(), (('i', K[0]),)), (), a.n, a.vec)


class Stop(Exception):
    pass


class Cells:
    def __init__(self, interp, fn):
        self.I, self.fn = interp, fn
        self.sinks = []
        self.memo = {}
        self.env = {}
        self.conds = ()
        self.quants = ()
        self.brk = []
        self.rets = []
        self.vecs = {}
        self.scale = {}
        self.last = None
        self.pending = {}
        self.facts = ()
        self.sofar = {}
        self.modes = {}
        self.new = False
        self.stopped = None
        self.flags, self.own, self.broken = [], [], set()

    # ------------------------------------------------------------ values
    def local(self, root):
        return root.op == 'root' and root.a[0] == 'var'

    def ev(self, t):
        """the value of t; vectors as functions of K0"""
        op = t.op
        if op == 'n' or op in ('iv', 'K', 'B', 'str', 'func', 'ekey', 'delta', 'cell', 'sum', 'prod', 'filled', 'head'):
            if op == 'ekey':
                return cell(t, [('i', K[0])])
            return t
        if op == 'poly':
            r = ZERO
            for mono, c in t.a:
                p = num(c)
                for x in mono:
                    p = mul(p, self.ev(x))
                r = add(r, p)
            return r
        if op == 'rd':
            k = (t.a[0], t.a[1])
            if k not in self.memo:
                self.memo[k] = self.path(t.a[0])
            return self.memo[k]
        if op in ('lp', 'lx'):
            return self.whole(t)
        if op == 'jv':
            return self.memo.get(('jv', t.a[0]), T('partial'))
        if op == 'jx':
            return self.memo.get(('jx', t.a[0], t.a[1]), T('partial'))
        if op == 'sel':
            return self.sel(t.a[0], t.a[1])
        if op == 'addr':
            return self.path(t.a[0])
        if op == 'call':
            return self.call(t)
        if op == 'ite':
            return ite(self.cond(t.a[0]), self.ev(t.a[1]), self.ev(t.a[2]))
        if op in ('lt0', 'eq0', 'not', 'and', 'bool', 'eq', 'isend', 'iterend'):
            return self.cond(t)
        if op == 'bin':
            return T('bin', t.a[0], *[self.ev(x) for x in t.a[1:]])
        if op == 'exit':
            return self.ev(t.a[1])
        if op == 'len':
            p = t.a[0]
            if p.op in ('lp', 'lx', 'rd'):
                e = self.env.get(T('path', (p.a[1] if p.op != 'rd' else p.a[0]).a[0], ()))
                if isinstance(e, Arr) and e.n is not None and not (p.a[1] if p.op != 'rd' else p.a[0]).a[1]:
                    return e.n
            if isinstance(p, T) and p.op == 'path':
                return self.length(p)
            return T('len', close(self.ev(p)))
        if op == 'path':
            return self.path(t)
        if op in ('iter',):
            return T('iter', self.path(t.a[0]), self.ev(t.a[1]) if isinstance(t.a[1], T) else t.a[1])
        if op in ('fresh', 'void', 'gone', 'upto', 'root'):
            return T(op, *[self.ev(x) if isinstance(x, T) else x for x in t.a]) if op != 'root' else self.root(t)
        return T(op, *[self.ev(x) if isinstance(x, T) else x for x in t.a])

    def whole(self, t):
        k = (t.op, t.a[0], t.a[1])
        if k in self.memo:
            return self.memo[k]
        return self.path(t.a[1])

    def length(self, p):
        e = self.env.get(T('path', p.a[0], ()))
        if e is not None and isinstance(e, Arr) and not p.a[1] and e.n is not None:
            return e.n
        v = self.path(p)
        # a table and the list it indexes have one length
        return T('len', close(self.pair(v)))

    def pair(self, v):
        if v.op == 'cell':
            return T('cell', v.a[0], tuple((s[0], 'tuple_list') if s == ('f', 'tuple_dict') else s for s in v.a[1] if s[0] != 'i' or s[1] is not K[0]))
        return v

    def root(self, r):
        if r.a[0] in ('ptr', 'val') and isinstance(r.a[1], T):
            return self.ev(r.a[1])
        return r

    def sels(self, sels):
        out = []
        for s in sels:
            if s[0] == 'i':
                out.append(('i', self.ev(s[1])))
            elif s[0] == 'k':
                out.append(('k', close(self.ev(s[1]))))
            elif s[0] == 'node':
                continue
            else:
                out.append(s)
        return out

    def path(self, p):
        root, sels = p.a
        e = self.env.get(T('path', root, ()))
        if e is not None and isinstance(e, Arr):
            return self.get(e, self.sels(sels), root)
        if e is not None and not sels:
            return e
        r = self.root(root)
        s = self.sels(sels)
        if root.a[0] == 'ptr':
            s = s[1:] if s and s[0] == ('i', ZERO) else s
            if r.op == 'iter' and s and s[0][0] == 'f':
                # *it of a map: the key and the value at it
                pass
        if r.op == 'iter':
            return self.iterated(r, s)
        if r.op in ('root', 'ekey') or r.op in ('call', 'head', 'poly', 'T', 'fresh', 'ite', 'mul', 'cell'):
            c = cell(r, s)
        elif s:
            c = self.index(r, s)
        else:
            c = r
        return self.asvec(c, p)

    def iterated(self, r, s):
        return cell(r, s)

    def asvec(self, c, p):
        """an exponent vector not taken apart here is the function of its index"""
        if c.op != 'cell':
            return c
        t = self.vectype(p)
        if t:
            return cell(c, [('i', K[0])])
        return c

    def vectype(self, p):
        root, sels = p.a
        if root.a[0] == 'par':
            for q in self.fn['params']:
                if q.get('n') == root.a[1]:
                    return not sels and is_vec(q.get('t'))
            return False
        names = [s for s in sels if s[0] == 'f']
        if names and names[-1][1] in ('tuple_list',):
            return sels[-1][0] == 'i' and len(sels) - 1 - max(i for i, s in enumerate(sels) if s[0] == 'f') == 2
        if names and names[-1][1] in ('coKernels_J_basis', 'coKernels_ND_basis'):
            return sels[-1][0] == 'i' and len(sels) - 1 - max(i for i, s in enumerate(sels) if s[0] == 'f') == 1
        return False

    def get(self, e, s, root):
        i = 0
        if e.puts and s:
            return T('cell', e.term(), tuple(s))
        v = e.term()
        return self.index(v, s)

    def index(self, v, s):
        for j, x in enumerate(s):
            if v.op != 'filled' and x[0] == 'i' and (mentions(v, K[0]) or v.op in ('n', 'poly', 'delta', 'within')):
                v = at(v, x[1])
            elif v is ZERO:
                return ZERO
            else:
                return cell(v, s[j:])
        return v

    def sel(self, base, sels):
        v = self.ev(base)
        return self.index(v, self.sels(sels)) if not (v.op == 'filled') else T('cell', v, tuple(self.sels(sels)))

    # ------------------------------------------------------------ calls
    def call(self, t):
        name = t.a[0]
        args = [x for x in t.a[1:] if not (isinstance(x, T) and x.op == 'fresh')]
        kind = self.vecs.get(t)
        av = [self.ev(x) if isinstance(x, T) else x for x in args]
        if name in ('operator+', 'operator-') and len(av) == 2:
            return add(av[0], av[1], 1 if name == 'operator+' else -1)
        if name == 'operator-' and len(av) == 1:
            return vn.neg(av[0])
        if name == 'operator*' and len(av) == 2:
            if kind == 'mat':
                return cell(T('mul', *[close(x) for x in av]), [('i', K[0])]) if self.scale.get(t) else T('mul', *[close(x) for x in av])
            return mul(av[0], av[1])
        if name == 'operator[]' and len(av) == 2:
            return self.index(av[0], [('i', av[1])])
        if name == 'diff' and len(av) == 2:
            return sub(av[0], delta(av[1], K[0]))
        if name == 'get' and len(av) == 3:
            return self.index(av[0], [('i', av[1]), ('i', av[2])])
        if name in ('conv', 'to_ZZ_p', 'to_ZZ', 'ZZ_p', 'ZZ', 'new ZZ_p', 'new ZZ', 'INIT_VAL') or name.startswith('conv<') and len(av) == 1:
            if len(av) == 1:
                return av[0]
        if name in ('operator==', 'operator!=') and len(av) == 2:
            a, b = sorted([close(x) for x in av], key=text)
            r = T('eq', a, b)
            return r if name == 'operator==' else vn.lnot(r)
        if name.split('<')[0] == 'factorial' and len(av) == 1:
            return T('fact', av[0])
        if name in ('length', 'size'):
            return T('len', close(self.pair(av[0])))
        r = T('call', name, *[close(x) for x in av])
        if kind == 'vec':
            return cell(r, [('i', K[0])])
        return r

    # ------------------------------------------------------------ conditions
    def cond(self, t):
        if t.op == 'not':
            return vn.lnot(self.cond(t.a[0]))
        if t.op == 'and':
            r = ONE
            for x in t.a:
                r = vn.land(r, self.cond(x))
            return r
        if t.op == 'bool':
            v = self.ev(t.a[0])
            return truth(v)
        if t.op == 'lt0':
            return self.simp(vn.lt(self.ev(t.a[0]), ZERO))
        if t.op == 'eq0':
            v = self.ev(t.a[0])
            return self.simp(vn.eq(v, ZERO))
        if t.op in ('isend', 'iterend'):
            return T('absent')
        if t.op == 'eq':
            a, b = sorted([close(self.ev(x)) for x in t.a], key=text)
            return T('eq', a, b)
        return truth(self.ev(t))

    def simp(self, t):
        return t

    # ------------------------------------------------------------ walk
    def run(self, tree):
        try:
            self.seq(tree)
        except Stop:
            pass
        return self.sinks

    def seq(self, nd):
        """children in order; raises nothing, returns True when control does not fall through"""
        c0, f0 = self.conds, self.facts
        try:
            for c in nd.ch or []:
                if self.node(c):
                    return True
            return False
        finally:
            self.conds = c0

    def node(self, c):
        if c.kind == 'ev':
            return self.event(c.info)
        if c.kind == 'alt':
            return self.alt(c)
        if c.kind == 'loop':
            return self.loop(c)
        if c.kind == 'inl':
            save = self.rets
            self.rets = []
            dead = self.seq(c)
            outs, self.rets = self.rets, save
            val = None
            for cc, env, v in reversed(outs):
                if dead or val is None:
                    val = v
                elif v is not None:
                    val = val if val is v else ite(cc, v, val)
                self.env = env if dead else self.merge(cc, env, self.env)
                dead = False
            if val is not None:
                self.memo[('jv', c.info[1])] = val
            for r, a in self.env.items():
                self.memo[('jx', c.info[1], r)] = a.term() if isinstance(a, Arr) else a
            return dead
        return self.seq(c)

    def alt(self, nd):
        env0, conds0 = self.env, self.conds
        outs = []
        neg = []
        for br in nd.ch:
            c = self.cond(br.info) if isinstance(br.info, T) else ONE
            if vn.const(c) == 0:
                continue
            self.env = dict(env0)
            self.conds = addc(conds0, c)
            save = self.env
            self.assume(c)
            new = self.new
            self.new = new or c.op == 'absent' or c.op == 'and' and any(x.op == 'absent' for x in c.a)
            dead = self.seq(br)
            self.new = new
            if dead:
                neg.append(c)
            else:
                outs.append((c, self.env))
        self.conds = conds0
        for c in neg:
            self.conds = addc(self.conds, vn.lnot(c))
        if not outs:
            self.env = env0
            return True
        c, env = outs[-1]
        for c2, e2 in reversed(outs[:-1]):
            env = self.merge(c2, e2, env)
        self.env = env
        if len(outs) == 1 and neg:
            pass
        return False

    def assume(self, c):
        """under c, choices on c are made"""
        for k, v in list(self.env.items()):
            if isinstance(v, Arr):
                b = under(v.body, c)
                if b is not v.body:
                    self.env[k] = Arr(b, v.puts, v.n, v.vec)
            elif isinstance(v, T):
                self.env[k] = under(v, c)
        for k, v in list(self.memo.items()):
            if k[0] == 'lx' and isinstance(v, T) and any(x is c for x in subterms(v)):
                self.pending.setdefault(k, v)
                self.memo[k] = under(v, c)

    def merge(self, c, a, b):
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                out[k] = x if y is None else y
                continue
            if x is y:
                out[k] = x
            elif isinstance(x, Arr) and isinstance(y, Arr):
                if x.same(y):
                    out[k] = x
                    continue
                ps = list(x.puts) + [p for p in y.puts if p not in x.puts]
                out[k] = Arr(ite(c, x.body, y.body), ps, x.n if x.n is y.n else None, x.vec)
            elif isinstance(x, T) and isinstance(y, T):
                out[k] = ite(c, x, y)
            else:
                out[k] = x if isinstance(x, Arr) else y
        return out

    # ------------------------------------------------------------ events
    def event(self, e):
        k = e.kind
        if k == 'call':
            name = nm(e)
            t = (e.node or {}).get('t')
            av = [x for x in e.argv or [] if isinstance(x, T)]
            key = T('call', name, *av)
            if is_vec(t):
                self.vecs[key] = 'vec'
            if name == 'operator*' and t and (is_mat(t) or is_zvec(t)):
                args = [a for a in (e.node.get('a') or []) if isinstance(a, dict)]
                if any(is_mat((a or {}).get('t')) for a in args):
                    self.vecs[key] = 'mat'
                    self.scale[key] = is_zvec(t)
            for x in av:
                self.ev(x)
            self.last = e
            if name.startswith('conv') and len(av) == 2 and False:
                pass
            if name == 'swap' and e.objp is not None and av:
                a, b = e.objp, self.arg_path(e, 0)
                if b is not None:
                    self.swap = (a, self.env.get(a), b, self.env.get(b))
            return False
        if k == 'construct':
            if e.p is not None and self.local(e.p.a[0]) and not e.p.a[1]:
                self.env[e.p] = Arr(ZERO, (), None)
            return False
        if k == 'write':
            self.write(e)
            return False
        if k == 'break':
            self.brk.append((self.conds, self.env))
            return True
        if k == 'continue':
            return True
        if k == 'ret':
            return True
        if k == 'iret':
            self.rets.append((conj(self.conds), self.env, self.ev(e.v) if isinstance(e.v, T) else None))
            return True
        if k == 'abort':
            return True
        return False

    def arg_path(self, e, i):
        x = e.argv[i]
        if x.op == 'rd':
            return x.a[0]
        if x.op in ('lp', 'lx'):
            return x.a[1]
        return None

    def isarr(self, p):
        e = self.env.get(T('path', p.a[0], ()))
        return isinstance(e, Arr)

    def write(self, e):
        p, v = e.p, e.v
        if p is None:
            return
        root = T('path', p.a[0], ())
        sels = p.a[1]
        L = self.last
        name = None
        if v is None and L is not None:
            name = nm(L)
        if getattr(self, 'swap', None) and name is None and not sels:
            a, x, b, y = self.swap
            if p is a:
                self.env[a] = y
                return
            if p is b:
                self.env[b] = x
                self.swap = None
                return
        if not self.local(p.a[0]):
            return self.sink(e, p, v, name)
        cur = self.env.get(root)
        if v is not None and not isinstance(cur, Arr) and not sels:
            if self.init_arr(e):
                self.env[root] = Arr(self.ev(v), (), None)
            else:
                self.env[root] = self.ev(v)
            return
        if not isinstance(cur, Arr):
            cur = Arr(ZERO)
        if name in ('SetLength', 'SetDims', 'clear', 'kill'):
            if not sels:
                n = self.ev(L.argv[0]) if L.argv and name == 'SetLength' else cur.n
                self.env[root] = Arr(ZERO if name == 'clear' else cur.body, () if name == 'clear' else cur.puts, n, cur.vec)
            return
        if not sels:
            if v is not None:
                val = self.ev(v)
                if val.op == 'filled':
                    self.env[root] = Arr(val.a[0], val.a[1:], cur.n)
                else:
                    self.env[root] = Arr(val, (), cur.n)
            else:
                self.env[root] = self.whole_call(L, name, cur)
            return
        s = self.sels(sels)
        op, val, extra = self.value(e, v, name)
        if op is None:
            return
        s = s + extra
        oned = all(x[0] == 'i' for x in s) and len(s) == 1
        if op == '=' and len(s) == 2 and all(x[0] == 'i' for x in s) and not cur.puts and not mentions(val, K[0]):
            i, j = s[0][1], s[1][1]
            old = resub(cur.body, {K[0]: i, K[1]: j})
            self.env[root] = Arr(add(cur.body, mul(mul(delta(i, K[0]), delta(j, K[1])), sub(val, old))), (), cur.n, cur.vec)
            return
        if op == '=' and oned:
            cur = fold(cur)
            i = s[0][1]
            sh = shift(val, 1) if mentions(val, K[0]) else val
            old = resub(cur.body, {K[0]: i})
            d = delta(i, K[0])
            body = add(cur.body, mul(d, sub(sh, old)))
            self.env[root] = Arr(body, (), cur.n, cur.vec)
            return
        if op == '=' and self.new and any(x[0] == 'k' for x in s):
            op = '+='           # entered where absent, added to where present
        self.env[root] = Arr(cur.body, cur.puts + (put(s, op, val, (), self.conds),), cur.n, cur.vec)

    def init_arr(self, e):
        x = e.x if isinstance(e.x, dict) else None
        return False

    def whole_call(self, L, name, cur):
        av = [self.ev(x) for x in L.argv if isinstance(x, T)]
        if name.split('<')[0] == 'conv' and len(av) == 2:
            return Arr(av[1])
        if name == 'mul' and len(av) == 3:
            return Arr(T('mul', close(av[1]), close(av[2])))
        if name == 'add' and len(av) == 3:
            return Arr(add(av[1], av[2]))
        if name == 'transpose' and len(av) == 2:
            return self.transposed(av[1])
        return Arr(T('call', name, *av))

    def transposed(self, v):
        sw = {K[0]: K[1], K[1]: K[0]}
        if v.op == 'filled':
            ps = [put(tuple(p.a[0][::-1]) if len(p.a[0]) == 2 else p.a[0], *p.a[1:]) for p in v.a[1:]]
            return Arr(resub(v.a[0], sw), ps)
        return Arr(resub(v, sw))

    def value(self, e, v, name):
        """(operation, value, further selectors)"""
        if v is not None:
            if v.op == 'call' and v.a[0] in ('SetMaxLength', 'SetLength', 'SetDims', 'kill'):
                return None, None, []
            val = self.ev(v)
            return '=', val, []
        L = self.last
        av = [self.ev(x) for x in L.argv if isinstance(x, T)]
        if name in ('operator+=', 'operator-=') and av:
            return '+=', av[-1] if name == 'operator+=' else vn.neg(av[-1]), []
        if name == 'set':
            return '=', ONE, []
        if (name.split('<')[0] == 'conv' or name == 'assign') and len(av) == 2:
            return '=', av[1], []
        if name == 'clear':
            return '=', ZERO, []
        if name == 'put' and len(av) >= 3:
            return '=', av[-1], [('i', av[-3]), ('i', av[-2])]
        if name in ('SetLength', 'SetDims', 'kill', 'restore', 'save', 'operator[]', 'find', 'erase', 'insert', 'operator<<', 'begin', 'end', 'SetMaxLength'):
            return None, None, []
        if name == 'mul' and len(av) == 3:
            return '=', T('mul', close(av[1]), close(av[2])), []
        if name == 'transpose' and len(av) == 2:
            return '=', self.transposed(av[1]).term(), []
        if name == 'add' and len(av) == 3:
            return '=', add(av[1], av[2]), []
        return '=', T('call', name or '?', *av), []

    def sink(self, e, p, v, name):
        if p.a[0].a[0] == 'global' or p.a[0] is T('root', 'this') and not p.a[1]:
            return
        op, val, extra = self.value(e, v, name)
        if op is None:
            return
        if v is not None and p.a[1] and False:
            return
        tgt = cell(self.root(p.a[0]), self.sels(p.a[1]) + extra)
        if op == '=' and v is not None:
            old = cell(self.root(p.a[0]), self.sels(p.a[1]))
            d = sub(val, old)
            if not mentions(d, old) and mentions(val, old):
                op, val = '+=', d
        self.emit(put([('c', tgt)], op, val, (), self.conds))

    def emit(self, x):
        self.sinks.append(self.quantify(x, (), self.conds))

    # ------------------------------------------------------------ loops
    def written(self, nd, acc=None):
        acc = [] if acc is None else acc
        for c in nd.ch or []:
            if c.kind == 'ev':
                if c.info.kind in ('write', 'construct') and c.info.p is not None and self.local(c.info.p.a[0]):
                    r = T('path', c.info.p.a[0], ())
                    if r not in acc:
                        acc.append(r)
            else:
                self.written(c, acc)
        return acc

    def bounds(self, L):
        q = []
        extra = []
        for iv, d in L.ivs.items():
            lo, hi, step = d[0], d[1], d[2]
            ex = ()
            if isinstance(hi, T) and hi.op == 'upto':
                ex = hi.a[1:]
                hi = hi.a[0]
            lo = self.ev(lo)
            if hi is None:
                q.append((iv, lo, T('unknown')))
                continue
            hi = self.ev(hi)
            if step == -1:
                lo, hi = hi, add(lo, ONE)
            elif step != 1:
                lo = T('every', num(step) if isinstance(step, int) else step, lo)
            q.append((iv, lo, hi))
            extra += list(ex)
        if L.elem is not None and not L.ivs:
            c = self.path(L.elem[0])
            q.append((L.elem[1], T('keys', close(c)), ZERO))
        return q, extra

    def loop(self, nd):
        L = nd.info
        # bounds that read arrays the loop writes are taken at entry
        roots = self.written(nd)
        env0, conds0 = self.env, self.conds
        pre = {r: env0.get(r) for r in roots if r in env0}
        for r, v in pre.items():
            self.memo[('lp', L.id, r)] = v.term() if isinstance(v, Arr) else v
        quants, extra = self.bounds(L)
        ivs = [q[0] for q in quants]
        ivt = ivs[0] if ivs else T('once', L.id)
        lo, hi = (quants[0][1], quants[0][2]) if quants else (ZERO, ZERO)
        mode = {}
        for r, v in pre.items():
            mode[r] = self.modes.get((L.id, r), 'inv')
        nsink = len(self.sinks)
        for attempt in range(12):
            del self.sinks[nsink:]
            saved = dict(self.memo)
            env = dict(env0)
            heads = {}
            for r, v in pre.items():
                h = self.headvalue(r, v, mode[r], L, ivt, lo)
                heads[r] = h
                env[r] = h
                self.memo[('lp', L.id, r)] = h.term() if isinstance(h, Arr) else h
            self.env, self.conds = env, ()
            brk, self.brk = self.brk, []
            rets, self.rets = self.rets, []
            self.flags, self.own, self.broken = [], [], set()
            dead = self.seq(nd)
            breaks, self.brk = self.brk, brk
            leaves, self.rets = self.rets, rets
            end = self.env
            # a variable a break sets keeps its value otherwise
            for c, e in breaks + [x[:2] for x in leaves]:
                self.broken |= {r for r in pre if e.get(r) is not heads[r]}
            flagstops = []
            for x in extra:
                x = self.cond(x)
                if vn.const(x) != 1:
                    flagstops.append(((vn.lnot(x),), env, x))
            # kept going by a flag: stopped only once some iteration has cleared it
            breaks = [x[:2] for x in flagstops] + breaks
            # a loop kept going by a flag: stops after the iteration that clears it
            after, bad = {}, False
            stop = ONE
            for c, _ in breaks:
                stop = vn.land(stop, vn.lnot(conj(c)))
            for c, _, _ in leaves:
                stop = vn.land(stop, vn.lnot(c))
            self.outer = conds0
            for r, v in pre.items():
                w = end.get(r)
                a = None
                if not dead:
                    a = self.exitvalue(r, v, heads[r], w, mode[r], L, ivt, lo, hi, quants)
                else:
                    a = v
                if a is None:
                    nxt = {'inv': 'elem', 'elem': 'elem2', 'elem2': 'acc', 'acc': 'put', 'put': 'rows', 'rows': 'head', 'head': None}[mode[r]]
                    if nxt is None:
                        raise Undecided('loop at %s' % (L.node.get('l'),))
                    mode[r] = nxt
                    self.modes[(L.id, r)] = nxt
                    bad = True
                    continue
                after[r] = a
            if not bad:
                # flags hold their first value as long as no iteration sets them
                m = {h: v for h, v, _ in self.flags}
                m.update({h: pre[r] for r, h in heads.items() if mode[r] == 'elem' and isinstance(h, T) and h not in m})
                fl = [C for _, _, C in self.flags]
                own = dict(self.own_map(ivt))
                m.update(own)
                stop = resub(stop, m)
                C = ONE
                if breaks or leaves:
                    C = forall(ivt, lo, hi, stop)
                    if vn.const(stop) == 1:
                        C = ONE
                for x in fl:
                    C = vn.land(C, resub(x, m))
                inner = [resub(x, m) for x in self.sinks[nsink:]]
                for r in list(after):
                    a = after[r]
                    a = Arr(resub(a.body, m), [resub(x, m) for x in a.puts], a.n, a.vec) if isinstance(a, Arr) else resub(a, m)
                    mine = [x[:2] for x in flagstops if x[2] is truth(heads[r])] if isinstance(heads[r], T) else []
                    after[r] = self.abandoned(r, a, pre[r], heads[r], [x for x in breaks if x not in mine], C, ivt, m) if vn.const(C) != 1 else a
                # what is only right for one's own element must not have been read elsewhere
                hs = {r: T('head', L.id, r) for r in pre if mode[r] in ('elem', 'elem2', 'rows')}
                texts = list(inner) + [a.term() if isinstance(a, Arr) else a for a in after.values()] + [stop]
                for r, h in hs.items():
                    if any(mentions(x, h) for x in texts):
                        nxt = 'rows' if mode[r] == 'elem' and False else 'head'
                        mode[r] = nxt
                        self.modes[(L.id, r)] = nxt
                        bad = True
                if inner and vn.const(C) != 1:
                    inner = [self.guarded(x, C) for x in inner]
            if not bad:
                if leaves:
                    # left from inside: the function returns for some iteration
                    vals = self.left(leaves, pre, heads, m, ivt)
                    rv = leaves[0][2]
                    if any(x[2] is not rv for x in leaves) or rv is not None and (mentions(rv, ivt) or any(mentions(rv, T('head', L.id, r)) for r in pre)):
                        rv = T('partial')
                    self.rets.append((vn.lnot(C), {**env0, **vals}, rv))
                    self.stopped = C
                else:
                    self.stopped = None
                break
            self.memo = saved
        else:
            raise Undecided('loop does not settle at line %s' % L.node.get('l'))
        # what was stored inside is stored for each iteration
        m = {h: x for h, x in self.sofar.items() if h.a[0] == L.id}
        if m:
            inner = [resub(x, m) for x in inner]
            after = {r: Arr(resub(a.body, m), [resub(x, m) for x in a.puts], a.n, a.vec) if isinstance(a, Arr) else resub(a, m) for r, a in after.items()}
        del self.sinks[nsink:]
        for s in inner:
            self.sinks.append(self.quantify(s, quants, conds0))
        counters = {d[3] for d in L.ivs.values() if len(d) > 3 and d[3] is not None}
        used = {x for s in inner for x in subterms(s) if x.op == 'head' and x.a[0] == L.id}
        for _ in range(3):
            for r in pre:
                if mode[r] == 'head' and T('head', L.id, r) in used:
                    w = end.get(r)
                    w = w.term() if isinstance(w, Arr) else w
                    used |= {x for x in subterms(w) if x.op == 'head' and x.a[0] == L.id}
        for r in pre:
            if mode[r] == 'head' and T('head', L.id, r) in used:
                w = end.get(r)
                self.sinks.append(self.quantify(put([('c', T('head', L.id, r))], ':=', w.term() if isinstance(w, Arr) else w, (), ()), quants, conds0))
                self.sinks.append(put([('c', T('head', L.id, r))], 'from', pre[r].term() if isinstance(pre[r], Arr) else pre[r], (), conds0))
        env = dict(env0)
        env.update(after)
        self.env, self.conds = env, conds0
        if self.stopped is not None:
            self.conds = addc(conds0, self.stopped)
            self.stopped = None
        for r, a in after.items():
            self.memo[('lx', L.id, r)] = a.term() if isinstance(a, Arr) else a
        return False

    def own_map(self, ivt):
        for h, iv, pre in self.own:
            yield T('cell', h.a[0], (('i', iv),)), resub(pre, {K[0]: iv})
            yield T('cell', h.a[0], (('i', ALL),)), resub(pre, {K[0]: ALL})

    def abandoned(self, r, a, v, h, breaks, C, ivt, m):
        """the value after a loop that may have stopped early (then: not C)"""
        if isinstance(a, Arr):
            if isinstance(v, Arr) and a.same(v):
                return a
            return Arr(ite(C, a.body, T('partial')), a.puts, a.n, a.vec)
        if a.op == 'ite' and isinstance(v, T) and vn.const(a.a[2]) is not None and not breaks:
            return a
        bs = [e.get(r) for _, e in breaks]
        bs = [resub(b, m) for b in bs if isinstance(b, T)]
        if bs and all(b is bs[0] for b in bs) and not mentions(bs[0], ivt):
            if bs[0] is a:
                return a
            return ite(C, a, bs[0])
        if a is v and not breaks:
            return a
        return ite(C, a, T('partial'))

    def left(self, leaves, pre, heads, m, ivt):
        out = {}
        for r, v in pre.items():
            bs = [e.get(r) for _, e, _ in leaves]
            if all(b is heads[r] for b in bs) and not isinstance(v, Arr):
                out[r] = v
            elif all(isinstance(b, T) for b in bs) and all(resub(b, m) is resub(bs[0], m) for b in bs) and not mentions(resub(bs[0], m), ivt):
                out[r] = resub(bs[0], m)
            else:
                out[r] = Arr(T('partial')) if isinstance(v, Arr) else T('partial')
        return out

    def guarded(self, x, C):
        """stored in a loop that may stop early"""
        return T('put', *x.a[:4], x.a[4] + (T('untilstop', C),))

    def quantify(self, s, quants, conds0):
        idx, op, v, qs, cs = s.a
        if conds0:
            c = conj(conds0)
            idx, v, cs = tuple(tuple(under(y, c) if isinstance(y, T) else y for y in x) for x in idx), under(v, c), tuple(under(x, c) for x in cs)
        return T('put', idx, op, v, tuple((q[0], q[1], q[2]) for q in quants) + qs, tuple(conds0) + tuple(c for c in cs if c not in conds0))

    def headvalue(self, r, v, mode, L, ivt, lo):
        if mode == 'inv':
            return v
        if mode == 'elem':
            if isinstance(v, T):
                return T('head', L.id, r)
            return Arr(T('cell', T('head', L.id, r), (('i', K[0]),)), fold(v).puts, v.n, v.vec)
        if mode == 'elem2' and isinstance(v, Arr):
            return Arr(T('cell', T('head', L.id, r), (('i', K[0]), ('i', K[1]))), (), v.n, v.vec)
        if mode == 'elem2':
            return v
        if mode == 'put' and isinstance(v, Arr):
            return Arr(T('cell', T('head', L.id, r), (('i', K[0]),)), v.puts, v.n, v.vec)
        if mode == 'rows' and isinstance(v, Arr):
            return Arr(T('cell', T('head', L.id, r), (('i', K[0]),)), (), v.n, v.vec)
        if mode in ('put', 'rows'):
            return v
        if mode == 'acc':
            return T('head', L.id, r) if isinstance(v, T) else v
        h = T('head', L.id, r)
        if isinstance(v, Arr):
            return Arr(T('cell', h, ()), (), v.n, v.vec)
        return h

    def exitvalue(self, r, v, h, w, mode, L, ivt, lo, hi, quants):
        if mode == 'inv':
            if isinstance(v, Arr):
                return v if v.same(w) else None
            return v if v is w else None
        if mode == 'elem':
            if isinstance(v, T):
                # a flag: set to a constant under a condition, else kept
                if isinstance(w, T) and w.op == 'ite' and (w.a[2] is h or w.a[1] is h):
                    c, x = (w.a[0], w.a[1]) if w.a[2] is h else (vn.lnot(w.a[0]), w.a[2])
                    if vn.const(x) is not None and not mentions(c, h):
                        C = forall(ivt, lo, hi, vn.lnot(c))
                        self.flags.append((h, v, C))
                        return ite(C, v, x)
                if w is h and r in self.broken:
                    return v
                return None
            if not isinstance(w, Arr):
                return None
            fv_ = fold(v)
            if w.puts:
                return None
            b = self.elements(fv_.body, h.body, w.body, ivt, lo, hi, v.n)
            if b is None:
                return None
            self.own.append((h.body, ivt, fv_.body))
            return Arr(b, (), v.n, v.vec)
        if mode == 'elem2':
            if isinstance(v, T) or not isinstance(w, Arr) or v.puts or w.puts or not (mentions(w.body, K[1])):
                return None
            b = self.elements(v.body, h.body, w.body, ivt, lo, hi, None)
            return None if b is None else Arr(b, (), v.n, v.vec)
        if mode == 'acc':
            if isinstance(v, T):
                h0 = T('head', L.id, r)
                if not isinstance(w, T):
                    return None
                d = sub(w, h0)
                if not mentions(d, h0):
                    # where the body reads it: v and what earlier iterations added
                    self.sofar[h0] = add(v, mul(d, sub(ivt, lo)) if not mentions(d, ivt) else T('before', ivt, lo, d))
                    return add(v, T('sum', ivt, lo, hi, d))
                pl = vn._poly(w)
                if all(m.count(h0) == 1 for m in pl):
                    f = vn._mk({tuple(y for y in m if y is not h0): c for m, c in pl.items()})
                    if vn.const(lo) in (1, 2) and f is ivt and v is ONE:
                        return T('fact', sub(hi, ONE))
                    return mul(v, T('prod', ivt, lo, hi, f))
            return None
        if mode == 'put':
            if isinstance(v, T) or not isinstance(w, Arr) or w.body is not h.body or w.puts[:len(v.puts)] != v.puts:
                return None
            new = [self.quantify(p, quants, self.outer) for p in w.puts[len(v.puts):]]
            return Arr(v.body, v.puts + tuple(new), v.n, v.vec)
        if mode == 'rows':
            # each iteration sets its own row and then adds to it
            if isinstance(v, T) or not isinstance(w, Arr) or v.puts or any(p.a[0][0] != ('i', ivt) for p in w.puts):
                return None
            b = self.elements(v.body, h.body, w.body, ivt, lo, hi, v.n)
            if b is None:
                return None
            self.own.append((h.body, ivt, v.body))
            return Arr(b, [self.quantify(p, quants, self.outer) for p in w.puts], v.n, v.vec)
        return Arr(T('cell', T('after', L.id, r), ()), (), v.n if isinstance(v, Arr) else None) if isinstance(v, Arr) else T('after', L.id, r)

    def elements(self, pre, head, end, ivt, lo, hi, n):
        """the function after a loop whose iteration changes its own element only"""
        if end.op == 'ite' and not mentions(end.a[0], K[0]):
            outs = [self.elements(pre, head, b, ivt, lo, hi, n) for b in end.a[1:]]
            if None in outs:
                return None
            return ite(resub(self.atown(end.a[0], head, ivt, pre, 0), {ivt: K[0]}), *outs)
        D = sub(end, head)
        for x in K[:2]:
            d = delta(ivt, x)
            M = T('mark')
            X = resub(D, {d: M})
            X1 = resub(X, {M: ONE})
            if resub(X, {M: ZERO}) is not ZERO or sub(X, mul(M, X1)) is not ZERO:
                continue
            X1 = self.atown(X1, head, ivt, pre, x.a[0])
            if mentions(X1, head.a[0]):
                return None
            X1 = resub(X1, {ivt: x})
            np1 = add(T('cell', T('root', 'this'), (('f', 'n'),)), ONE)
            full = lo is ZERO and (n is not None and hi is n or n is None or hi is np1)
            if not full:
                X1 = mul(T('within', lo, hi, x), X1)
            return add(pre, X1)
        return None

    def atown(self, t, head, ivt, pre, k):
        """the element of this iteration has not been changed by an earlier one"""
        if len(head.a[1]) == 2:
            m = {}
            for c in subterms(t):
                if c.op == 'cell' and c.a[0] is head.a[0] and len(c.a[1]) == 2 and c.a[1][k][1] is ivt:
                    m[c] = resub(pre, {K[0]: c.a[1][0][1], K[1]: c.a[1][1][1]})
            return resub(t, m)
        h = T('cell', head.a[0], (('i', ivt),))
        return resub(t, {h: resub(pre, {K[0]: ivt})})


def forall(ivt, lo, hi, c):
    r = resub(c, {ivt: ALL})
    return ONE if vn.const(r) == 1 else T("all", lo, hi, r)


def under(t, c):
    """t when c holds"""
    if not any(s.op == 'ite' for s in subterms(t)):
        return t
    cs = c.a if c.op == 'and' else (c,)
    m = {}
    for s in subterms(t):
        if s.op != 'ite':
            continue
        q = s.a[0]
        for x in cs:
            if q is x:
                m[s] = s.a[1]
            elif q is vn.lnot(x) or x is vn.lnot(q):
                m[s] = s.a[2]
            elif x.op == 'all':
                for k in K[:2] + [y for y in subterms(q) if y.op == 'iv']:
                    inst = resub(x.a[2], {ALL: k})
                    parts = inst.a if inst.op == 'and' else (inst,)
                    if any(q is y for y in parts):
                        m[s] = s.a[1]
                    elif any(q is vn.lnot(y) or vn.lnot(q) is y for y in parts):
                        m[s] = s.a[2]
    if not m:
        return t
    return under(resub(t, m), c)


def truth(v):
    if v.op in ('lt0', 'eq0', 'not', 'and', 'eq', 'all', 'absent', 'bool'):
        return v
    k = vn.const(v)
    if k is not None:
        return num(1 if k else 0)
    if v.op == 'ite':
        a, b = vn.const(truth(v.a[1])), vn.const(truth(v.a[2]))
        if a is not None and b is not None:
            if a and not b:
                return v.a[0]
            if b and not a:
                return vn.lnot(v.a[0])
            return num(1 if a else 0)
    return T('bool', v)


def conj(cs):
    r = ONE
    for c in cs:
        r = vn.land(r, c)
    return r


def addc(cs, c):
    if vn.const(c) == 1:
        return cs
    for x in (c.a if c.op == 'and' else (c,)):
        if x not in cs and not any(s.op == 'absent' for s in subterms(x)):
            cs = cs + (x,)
    return strict(cs)


def strict(cs):
    """p <= 0 and p != 0 is p < 0"""
    for x in cs:
        if x.op == 'not' and x.a[0].op == 'eq0':
            p = x.a[0].a[0]
            for y in cs:
                if y.op == 'lt0' and add(y.a[0], ONE) in (p, vn.neg(p)):
                    z = vn.lt(add(y.a[0], ONE), ZERO)
                    return strict(tuple(q for q in cs if q is not x and q is not y and q is not z) + (z,))
    return cs


def ctype(t):
    return (t or {}).get('c') or (t or {}).get('s') or ''


def is_vec(t):
    return 'NTL::Vec<long>' in ctype(t) and 'map<' not in ctype(t) and 'pair<' not in ctype(t) and 'Vec<NTL::Vec' not in ctype(t)


def is_zvec(t):
    c = ctype(t)
    return c.replace('const ', '').strip(' &').startswith('NTL::Vec<NTL::ZZ') and 'Mat' not in c


def is_mat(t):
    return ctype(t).replace('const ', '').strip(' &').startswith('NTL::Mat<')


# ---------------------------------------------------------------- text
def text(t, names=None):
    names = names or {}
    return _text(t, names)


def _text(t, N):
    if isinstance(t, tuple):
        return '(' + ','.join(_text(x, N) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if t in N:
        return N[t]
    op = t.op
    if op == 'n':
        return str(t.a[0])
    if op == 'poly':
        out = []
        for mono, c in t.a:
            m = '*'.join(sorted(_text(x, N) for x in mono))
            out.append(('%+d' % c if not m else ('+' if c == 1 else '-' if c == -1 else '%+d*' % c) + m))
        return '(' + ''.join(sorted(out)) + ')'
    if op == 'K':
        return 'K%d' % t.a[0]
    if op == 'B':
        return 'every'
    if op == 'dot':
        return '.' * (1 + t.a[0])
    if op == 'root':
        if t.a[0] == 'this':
            return 'this'
        if t.a[0] == 'par':
            return N.get('par:' + t.a[1], 'par:' + t.a[1])
        return t.a[0]
    if op == 'cell':
        r = _text(t.a[0], N)
        return r + ''.join(_sel(s, N) for s in t.a[1])
    if op == 'delta':
        return '[%s]' % '='.join(sorted(_text(x, N) for x in t.a))
    if op == 'lt0':
        return '%s<0' % _text(t.a[0], N)
    if op == 'eq0':
        return min(_text(t.a[0], N), _text(vn.neg(t.a[0]), N)) + '==0'
    if op == 'not':
        return '!' + _text(t.a[0], N)
    if op == 'and':
        return '{%s}' % '&'.join(sorted(_text(x, N) for x in t.a))
    if op == 'before':
        N2 = dict(N)
        N2[t.a[0]] = 'b#'
        return 'sumbefore(%s from %s: %s)' % (_text(t.a[0], N), _text(t.a[1], N), _text(t.a[2], N2))
    if op in ('sum', 'prod'):
        N2 = dict(N)
        N2[t.a[0]] = op[0] + '#'
        return '%s(%s..%s: %s)' % (op, _text(t.a[1], N), _text(t.a[2], N), _text(t.a[3], N2))
    if op == 'filled':
        return 'filled(%s; %s)' % (_text(t.a[0], N), ' ; '.join(sorted(set(puttext(p, N, bare=True) for p in t.a[1:]))))
    if op == 'head':
        return 'before(%s)' % N.get(t, N.get('anyhead', '?'))
    if op in ('iv', 'ekey'):
        return '%s%s' % (op, t.a[0])
    if op == 'ite':
        a, b = _text(t.a[1], N), _text(t.a[2], N)
        if a == b:
            return a
    return '%s(%s)' % (op, ','.join(_text(x, N) for x in t.a if not (isinstance(x, int))))


def _sel(s, N):
    if s[0] == 'i':
        return '[%s]' % _text(s[1], N)
    if s[0] == 'k':
        return '{%s}' % _text(s[1], N)
    if s[0] == 'c':
        return _text(s[1], N)
    return '.' + str(s[1])


def table(puts, params=()):
    """the canonical texts of all stores; values carried round a loop get names by their use"""
    heads = []
    for p in puts:
        for x in subterms(p):
            if x.op in ('head', 'after') and T('head', *x.a) not in heads:
                heads.append(T('head', *x.a))
    # a name for each: what is said about it when all are called the same
    base = {'par:' + n: 'arg%d' % i for i, n in enumerate(params)}
    sig = {h: sorted(puttext(p, {**base, h: '@'}) for p in puts if any(x is h for x in subterms(p))) for h in heads}
    N = dict(base)
    for i, h in enumerate(sorted(heads, key=lambda h: sig[h])):
        N[h] = 'v%d' % i
        N[T('after', *h.a)] = 'v%d' % i
    return sorted(set(puttext(p, N) for p in puts))


_memo = {}


def puttext(p, N=None, bare=False):
    """canonical text: the smallest over the names its loop indices can be given"""
    N = N or {}
    idx, op, v, qs, cs = p.a
    key = (p, tuple(sorted((k.id if isinstance(k, T) else -1, x) for k, x in N.items() if isinstance(k, T) and mentions(p, k))), len([k for k in N if isinstance(k, T) and k.op in ('iv', 'ekey')]))
    r = _memo.get(key)
    if r is None:
        r = _memo[key] = _puttext(p, N)
    return r


def _puttext(p, N):
    idx, op, v, qs, cs = p.a
    base = len([k for k in N if isinstance(k, T) and k.op in ('iv', 'ekey')])
    own = [q[0] for q in qs]

    def body(M):
        c = ''.join(_sel(s, M) for s in idx)
        r = '; '.join(sorted('%s in %s..%s' % (M[q[0]], _text(q[1], M), _text(q[2], M)) for q in qs))
        g = ' & '.join(sorted(set(_text(x, M) for x in cs)))
        return '%s %s %s%s%s' % (c, op, _text(v, M), ' for ' + r if r else '', ' if ' + g if g else '')

    # each index by what is said about it; ties by trying
    classes = {}
    for x in own:
        M = dict(N)
        for y in own:
            M[y] = '@' if y is x else '?'
        classes.setdefault(body(M), []).append(x)
    best = None
    for parts in itertools.product(*[list(itertools.permutations(classes[k])) for k in sorted(classes)]):
        M = dict(N)
        for j, x in enumerate(itertools.chain(*parts)):
            M[x] = '#%d' % (base + j)
        s = body(M)
        if best is None or s < best:
            best = s
    return best
