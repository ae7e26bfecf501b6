"""C29: the expansion of Frobenius that the reductions are applied to, and the scaling of their result."""
import facts, vn, ck, alg, walk
from vn import T, num, add, sub, mul, ONE, ZERO, const, show
from gate import local, called, cargs
from memo import nm
from moduli import sig
from alg import Sum, Mono, cst, scal, word, ints, asterm, term

THIS = lambda *ns: T('path', T('root', 'this'), tuple(('f', n) for n in ns))
P_, N_, D_ = THIS('p'), THIS('n'), THIS('d')
TWO = num(2)


def inverse(s):
    if len(s.d) != 1:
        raise alg.Unsupported('inverse')
    m, c = next(iter(s.d.items()))
    if c != 1 or m.b or m.g or m.w:
        raise alg.Unsupported('inverse')
    return Sum({Mono(s=tuple((b, mul(num(-1), e)) for b, e in m.s)): 1})


class Assembly(alg.Algebra):
    lenient = True
    rules = ()

    def __init__(self, I, f, result=None):
        self.terms, self.result, self.inverted, self.calls = {}, result, False, {}
        super().__init__(I, f, {}, {'len(%s,0)' % show(result)} if result is not None else set(), ())

    def whole(self):
        # an elementwise loop over the result
        return {iv for l in self.loops for iv, (lo, hi, st, _) in l.ivs.items()
                if st == 1 and const(lo) == 0 and self.result is not None and self.length(hi)}

    def length(self, t):
        """the length of the result vector"""
        if t.op == 'len':
            t = t.a[0]
        elif t.op == 'call' and called(t) == 'length':
            t = cargs(t)[0]
        else:
            return False
        x = self.refer(t)
        return x is not None and x[0] is self.result and not x[1]

    def clean(self, t):
        if isinstance(t, T) and t.op == 'bin':
            x = self.E(t)
            y = term(x)
            return y if y is not None else asterm(x)
        if isinstance(t, T) and t.op == 'call' and called(t) == 'factorial_p_adic':
            a = [x for x in cargs(t) if x.op != 'fresh']
            if len(a) >= 3 and a[-1] is ONE:
                return T('call', 'valuation_of_factorial', self.cl(a[-3]), self.cl(a[-2]))
        if isinstance(t, T) and t.op == 'call' and called(t) in ('valuation_of_factorial', 'tweak', 'binomial', 'binomial_ZZ', 'factorial'):
            a = [x for x in cargs(t) if x.op != 'fresh']
            return T('call', called(t).replace('_ZZ', ''), *[self.cl(x) for x in a])
        if isinstance(t, T) and t.op in ('path', 'sel') and any(s[0] == 'k' and s[1].op != 'ekey' for s in t.a[1]):
            keys = [(s[0], self.cl(s[1])) if s[0] == 'k' and s[1].op != 'ekey' else None for s in t.a[1]]
            x = super().clean(T(t.op, t.a[0], tuple(('i', ZERO) if k is not None else s for k, s in zip(keys, t.a[1]))))
            return T(x.op, x.a[0], tuple(k if k is not None else s for k, s in zip(keys, x.a[1])))
        return super().clean(t)

    def cl(self, t):
        x = self.E(t)
        y = term(x)
        return y if y is not None and y.op != 'poly' else asterm(x)

    def E(self, t):
        if t.op == 'bin':
            op = t.a[0]
            a = [self.E(x) for x in t.a[1:]]
            if op == '&' and len(a) == 2 and a[1].isconst() == 1:
                op, a = '%', [a[0], cst(2)]
            if op == '&' and len(a) == 2 and a[0].isconst() == 1:
                op, a = '%', [a[1], cst(2)]
            return scal(T('bin', op, *[asterm(x) for x in a]))
        if t.op in ('poly',) and any(f.op == 'bin' for m, _ in t.a for f in m):
            pass
        return super().E(t)

    def cond(self, c, pos=True):
        g = super().cond(c, pos)
        return g

    def store(self, p, v, plus=False, stamp=None):
        r, sels = self.pathval(p)
        if r.a[0] == 'var' and len(sels) == 1 and sels[0][0] == 'i' and not self.shapes.get(r, (0, False))[1] and not plus and v.isconst() is not None:
            i = self.idx(sels[0][1])
            l = [l for l in self.loops if i in l.ivs]
            if l and l[-1].ivs[i][2] == 1:
                lo, hi = l[-1].ivs[i][:2]
                self.put(r, scal(T('all', num(v.isconst()), self.idx(lo), self.idx(hi))), stamp)
                return
        super().store(p, v, plus, stamp)

    def call(self, e):
        n, a = nm(e), [x for x in (e.argv or [])]
        try:
            if n == 'DivRem' and len(a) == 4:
                self.done.add(id(e.node))
                self.store(self.place(a[0]), self.E(a[2]) * inverse(self.E(a[3])))
                self.store(self.place(a[1]), scal(T('remainder', e.n)))
                return
            if n == 'inv' and len(a) == 2:
                self.inverted = True
                self.done.add(id(e.node))
                self.store(self.place(a[0]), inverse(self.E(a[1])))
                return
            if n == 'factorial_p_adic' and len(a) == 4 and a[3] is ONE:
                self.done.add(id(e.node))
                v = T('call', 'valuation_of_factorial', self.cl(a[1]), self.cl(a[2]))
                self.store(self.place(a[0]), scal(T('call', 'factorial', self.cl(a[1]), ONE)) * scal(self.flat(term(self.E(a[2]))), mul(num(-1), v)))
                return
        except alg.Unsupported:
            self.done.discard(id(e.node))
            return
        super().call(e)

    def after(self, nd):
        r = self.result
        if r is not None and not self.inverted and r in self.written(nd):
            self.put(r, word(T('sum of reductions')))
            self.at_end[(nd.info.id, r)] = self.now(r)

    # ------------------------------------------------------- what is added where
    def watch(self, e):
        if e.kind == 'ret':
            return
        over = [l for l in e.loops if l.elem is not None and 'fpow' in show(l.elem[0])]
        if not over:
            if e.kind == 'call' and nm(e) in self.frobs + ('get_final_reduction_matrix_J', 'compute_fpow', 'valuation_of_factorial', 'factorial_p_adic'):
                try:
                    self.calls[e.n] = (e, [self.E(a) for a in e.argv if isinstance(a, T)], [self.guard(g) for g in e.g])
                except alg.Unsupported:
                    self.calls[e.n] = (e, None, None)
            return
        d = v = None
        n, a = (nm(e), e.argv or []) if e.kind == 'call' else (None, [])
        try:
            if n == 'operator+=' and len(a) == 2:
                d, v = a[0], lambda: self.E(a[1])
            elif n == 'operator-=' and len(a) == 2:
                d, v = a[0], lambda: self.E(a[1]).scale(-1)
            elif n == 'add' and len(a) == 3:
                d, v = a[0], lambda: self.E(a[1]) + self.E(a[2]) - self.E(a[0])
            elif n == 'sub' and len(a) == 3:
                d, v = a[0], lambda: self.E(a[1]) - self.E(a[2]) - self.E(a[0])
            elif n == 'MulAddTo' and len(a) == 3:
                d, v = a[0], lambda: self.E(a[1]) * self.E(a[2])
            elif e.kind == 'write' and e.v is not None:
                d, v = e.p, lambda: self.E(e.v) - self.E(e.p)
            if d is None:
                return
            while d.op == 'ite':
                d = d.a[2]
            p = self.place(d)
            if p.op != 'path' or not p.a[1] or p.a[1][-1][0] != 'i' or p.a[0].a[0] not in ('var', 'heap', 'ptr'):
                return
            self.terms[e.n] = (e, over[-1], p, v(), [(self.E(s[1]) if s[0] in 'ik' else None, s) for s in p.a[1]], self.root(p.a[0]))
        except alg.Unsupported:
            self.terms[e.n] = (e, over[-1], None, None, None, None)

    frobs = ()

    def guard(self, g):
        pos = True
        while g.op in ('not', 'bool'):
            pos = pos != (g.op == 'not')
            g = g.a[0]
        if g.op in ('lt0', 'eq0'):
            return (g.op, pos, self.E(g.a[0]))
        return (g.op, pos, g)


# ------------------------------------------------------------------ normal form of the summand
def parity(s):
    """(-1)^j and the tests of the parity of j in one form"""
    out = {}
    todo = list(s.d.items())
    while todo:
        m, c = todo.pop()
        for b, ex in m.s:
            if const(b) == -1:
                rest = Mono(m.b, m.g, [x for x in m.s if x[0] is not b], m.w)
                j = asterm(ints(ex))
                z = asterm(scal(T('bin', '%', j, asterm(cst(2)))))
                todo.append((Mono(rest.b, rest.g | {('zero', z)}, rest.s, rest.w), c))
                todo.append((Mono(rest.b, rest.g | {('nonzero', z)}, rest.s, rest.w), -c))
                break
        else:
            g2 = set()
            for g in m.g:
                if g[0] in ('zero', 'nonzero'):
                    # x % 2 - 1 == 0
                    t = g[1]
                    if t.op == 'total' and len(t.a) == 2:
                        k = [x for x in t.a if x.a[1].a == () and x.a[2].a == ()]
                        x = [x for x in t.a if x not in k]
                        if len(k) == 1 and abs(const(k[0].a[0])) == 1 and len(x) == 1 and const(x[0].a[0]) == -const(k[0].a[0]) and len(x[0].a[2].a) == 2 and x[0].a[2].a[0].op == 'bin' and x[0].a[2].a[0].a[0] == '%':
                            g = ('nonzero' if g[0] == 'zero' else 'zero', asterm(scal(x[0].a[2].a[0])))
                    if t.op == 'total' and len(t.a) == 1 and const(t.a[0].a[0]) == -1:
                        g = (g[0], T('total', T('mono', ONE, *t.a[0].a[1:])))
                g2.add(g)
            z = Mono(m.b, g2, m.s, m.w)
            out[z] = out.get(z, 0) + c
    return Sum(out)


def end_term(hi, e, p):
    """p factors, and p - 1 in the last step (e = 1)"""
    if hi.op != 'ite':
        return False
    c, a, b = hi.a
    pos = True
    while c.op in ('not', 'bool'):
        pos = pos != (c.op == 'not')
        c = c.a[0]
    if not pos:
        a, b = b, a
    if c.op == 'lt0':
        if c.a[0] is sub(ONE, e):           # e > 1
            return a is p and b is sub(p, ONE)
        if c.a[0] is sub(e, TWO):           # e < 2
            return b is p and a is sub(p, ONE)
    if c.op == 'eq0' and c.a[0] in (sub(e, ONE), sub(ONE, e)):
        return b is p and a is sub(p, ONE)
    return False


def blocks(s):
    """prod_{i < end(e)} (p e - i - 1) is the block of e; adjacent products of blocks are one"""
    def inner(t):
        if t.op == 'prod' and len(t.a) == 3 and t.a[2].op == 'pow' and t.a[2].a[1] is ONE:
            lo, hi, body = t.a[0], t.a[1], t.a[2].a[0]
            i = T('bv', 'p')
            b0 = vn.subst(body, {i: add(lo, i)}) if lo is not ZERO else body
            n = sub(hi, lo)
            # body + i + 1 = p e
            pe = add(add(b0, i), ONE)
            e = over_p(pe)
            if e is None:
                b1 = vn.subst(b0, {i: sub(sub(n, ONE), i)})
                e = over_p(add(add(b1, i), ONE))
            if e is not None and n.op == 'ite' and end_term(n, e, P_):
                return T('block', e)
        return None

    def scalar(b):
        x = inner(b)
        if x is not None:
            return ('one', x)
        if b.op == 'prod' and len(b.a) == 3 and b.a[2].op == 'pow' and b.a[2].a[1] is ONE:
            i = T('bv', 'pp')
            q = b.a[2].a[0]
            x = inner(q) if q.op == 'prod' else None
            if x is not None:
                e = x.a[0]
                d = sub(e, i)
                if not any(y is i for y in vn.subterms(d)):
                    return ('range', add(b.a[0], d), add(b.a[1], d))
        return None

    out = {}
    for m, c in s.d.items():
        rest, rs = [], []
        for b, ex in m.s:
            x = scalar(b) if ex is ONE else None
            if x is None:
                rest.append((b, ex))
            elif x[0] == 'one':
                rs.append((x[1].a[0], add(x[1].a[0], ONE)))
            else:
                rs.append((x[1], x[2]))
        go = True
        while go:
            go = False
            for i in range(len(rs)):
                for j in range(len(rs)):
                    if i != j and rs[i][1] is rs[j][0]:
                        rs[i] = (rs[i][0], rs[j][1])
                        del rs[j]
                        go = True
                        break
                if go:
                    break
        rest += [(T('blocks', a, b), ONE) for a, b in rs if a is not b]
        z = Mono(m.b, m.g, tuple(sorted(rest, key=lambda x: show(x[0]))), m.w)
        out[z] = out.get(z, 0) + c
    return Sum(out)


def over_p(t):
    """e with t = p e"""
    r = ZERO
    if t.op == 'n':
        return None
    ms = t.a if t.op == 'poly' else (((t,), 1),)
    for m, c in ms:
        if P_ not in m:
            return None
        l = list(m)
        l.remove(P_)
        x = num(c)
        for f in l:
            x = mul(x, f)
        r = add(r, x)
    return r


# ------------------------------------------------------------------ the check
def opaque(s):
    return s is None or s.has(lambda t: t.op in ('opaque', 'st', 'old', 'iterate'))


def result_root(A_or_I, t):
    for y in vn.subterms(t):
        if y.op in ('rd', 'lx', 'lp') and isinstance(y.a[-1] if y.op == 'rd' else y.a[1], T) or y.op == 'rd':
            p = y.a[0] if y.op == 'rd' else y.a[1]
            if p.op == 'path' and p.a[0].a[0] == 'var' and not p.a[1]:
                yield p.a[0]


def bindings(f):
    ints_ = [p for p in f['params'] if p.get('n')]
    return [T('path', T('root', 'par', p['n']), ()) for p in ints_]


def order_of(basis, at):
    """(sum of the exponents + n + 1) / d"""
    b = T('bv', 'x')
    ei = T('sel', basis, (('i', at),)) if basis.op != 'path' else T('path', basis.a[0], basis.a[1] + (('i', at),))
    k = T('path', ei.a[0], ei.a[1] + (('i', b),)) if ei.op == 'path' else T('sel', ei, (('i', b),))
    s = scal(k).bind((b, ZERO, add(N_, ONE))) + scal(N_) + cst(1)
    return ei, T('bin', '/', asterm(s), asterm(scal(D_)))


def norm(s):
    return alg.canonical(blocks(parity(s)))


def expansion(c, P, f):
    """the terms added, and the scaling"""
    w = ck.where(f, f['line'])
    I = vn.Interp(P, inline=local).run(f)
    rets = [e for e in I.events if e.kind == 'ret' and isinstance(e.v, T)]
    rr = list(result_root(I, rets[-1].v)) if rets else []
    nd = [p['n'] for p in f['params'] if p.get('n')]
    coord, NN = [T('path', T('root', 'par', x), ()) for x in nd[:2]]
    # which description of the cohomology is used
    A = Assembly(I, f, rr[-1] if rr else None)
    und = []
    at = ('f', 'coKernels_J_basis')
    obj = {s.a[1][:s.a[1].index(at)] for e in I.events for t in alg.terms_of(e) for s in vn.subterms(t) if s.op == 'path' and s.a[0] is T('root', 'this') and at in s.a[1]}
    if len(obj) != 1:
        return 0, ['%s: basis' % sig(f)]
    own = T('path', T('root', 'this'), next(iter(obj)))
    basis = T('path', own.a[0], own.a[1] + (('f', 'coKernels_J_basis'),))
    ei, M = order_of(basis, coord)
    ones = T('all', ONE, ZERO, add(N_, ONE))
    top = add(M, NN)
    n = 0
    ranges = []
    added = [x for x in A.terms.values()]
    if not added:
        return 0, ['%s: no terms added' % sig(f)]
    for e, L, p, v, sels, root in added:
        if p is None or opaque(v):
            und.append('%s line %s' % (sig(f), e.line))
            continue
        outer = [l for l in e.loops if l is not L and l.ivs and any(iv in vn.subterms(L.elem[0]) for iv in l.ivs)]
        ek = {y for t in alg.terms_of(e) for y in vn.subterms(t) if y.op == 'ekey' and y.a[0] == L.id}
        if len(outer) != 1 or len(ek) != 1 or len(outer[0].ivs) != 1:
            und.append('%s line %s' % (sig(f), e.line))
            continue
        (ee, (lo, hi, st, _)), ek = next(iter(outer[0].ivs.items())), ek.pop()
        if st != -1:
            und.append('%s line %s' % (sig(f), e.line))
            continue
        j = sub(ee, M)
        # ---- coefficient
        b = T('bv', 'y')
        z = asterm(scal(T('bin', '%', asterm(ints(j)), asterm(cst(2)))))
        C = lambda x, y: scal(T('call', 'binomial', A_cl(x), A_cl(y)))
        bs = C(sub(add(M, b), ONE), sub(M, ONE)) * C(b, j)
        D = (bs.guard(('zero', z)) - bs.guard(('nonzero', z))).bind((b, j, NN))
        fp = T('path', T('root', 'this'), (('f', 'fpow'), ('i', j), ('k', ek)))
        want = D * scal(fp) * scal(T('blocks', add(ee, ONE), top))
        got = norm(v)
        exp = alg.canonical(want)
        n += 1
        c.ob(got == exp, 'coefficient', e.where, sig(f), 'D(e - m) * (f^(e-m))_k * (p(m+N-1)-1)!/(pe-1)!' if got == exp else short(diff(got, exp), M))
        # ---- place
        key = scal(ek) + scal(ei) + scal(ones)
        keys = [x for x in sels if x[1][0] == 'k']
        idx = [x for x in sels if x[1][0] == 'i']
        ok, det = None, ''
        tw = lambda: None
        if keys and len(sels) == 2:
            kk = keys[0][0]
            if opaque(kk):
                und.append('%s line %s: key' % (sig(f), e.line))
            else:
                same = alg.canonical(kk) == alg.canonical(key)
                n += 1
                c.ob(same, 'monomial', e.where, sig(f), 'stored under k + e_i + (1,...,1)' if same else 'stored under %s' % alg.pretty(alg.canonical(kk)))
            deg = sub(mul(D_, N_), N_)
            pm = scal(P_) * key
            t = T('call', 'tweak', asterm(pm), asterm(ints(deg)))
            rel = pm - scal(t)
            dct = T('path', own.a[0], own.a[1] + (('f', 'tuple_dict'), ('i', deg), ('k', asterm(rel))))
            nd_ = 'ND' in f['n']
            wi = cst(0) if nd_ else scal(dct)
            gi = idx[0][0]
        elif not keys and len(sels) == 1:
            deg = sub(sub(mul(mul(D_, P_), ee), N_), ONE)
            rel = scal(P_) * key - scal(ones)
            wi = scal(T('path', own.a[0], own.a[1] + (('f', 'tuple_dict'), ('i', deg), ('k', asterm(rel)))))
            gi = idx[0][0]
        else:
            und.append('%s line %s: place' % (sig(f), e.line))
            continue
        if opaque(gi):
            und.append('%s line %s: index' % (sig(f), e.line))
        else:
            same = alg.canonical(gi) == alg.canonical(wi)
            n += 1
            c.ob(same, 'entry', e.where, sig(f), 'added at the entry of its monomial' if same else short('added at %s instead of %s' % (alg.pretty(alg.canonical(gi)), alg.pretty(alg.canonical(wi))), M))
        # ---- when
        gs = [A.guard(g) for g in e.g]
        lim = None
        extra = []
        for op, pos, x in gs:
            if op == 'lt0' and isinstance(x, Sum):
                t = term(x)
                if t is None or not any(y is ee for y in vn.subterms(t)):
                    continue
                low = None
                if pos and sub(t, sub(ZERO, ee)).op is not None:
                    low = add(add(t, ee), ONE)        # -e + c < 0  <=>  e >= c + 1
                if not pos:
                    low = sub(ee, t) if not any(y is ee for y in vn.subterms(sub(ee, t))) else None   # e - c >= 0
                if low is None or any(y is ee for y in vn.subterms(low)):
                    extra.append(show(t))
                elif low is M:
                    lim = M
                elif low is A_term(A, hi):
                    pass
                else:
                    extra.append('e >= %s' % show(low))
            elif op == 'eq0' and isinstance(x, Sum):
                t = term(x)
                if t is not None and any(y is ee for y in vn.subterms(t)) and not (not pos and t in (ee, sub(ZERO, ee))):
                    extra.append(show(t))
        a, z_ = A_term(A, lo), A_term(A, hi)
        ranges.append((a, z_, lim is M or z_ is M, e))
        n += 1
        ok = (lim is M or z_ is M) and not extra
        c.ob(ok, 'when', e.where, sig(f), 'exactly when e >= m' if ok else short('added under another condition than e >= m: %s' % '; '.join(extra), M))
    # ---- the pole orders form one descending chain
    if ranges and not und:
        rs = sorted(ranges, key=lambda r: r[3].n)
        ok = rs[0][0] is sub(top, ONE) and all(x[1] is add(y[0], ONE) for x, y in zip(rs, rs[1:])) and (rs[-1][1] is ONE or rs[-1][1] is M)
        n += 1
        c.ob(ok, 'pole orders', w, sig(f), 'from m + N - 1 down to the basis without gap' if ok else short('pole orders covered: ' + ', '.join('%s down to %s' % (show(a), show(b)) for a, b, _, _ in rs), M))
    # ---- the matrix of the last step, and the powers of f
    for e, args, _ in A.calls.values():
        if nm(e) == 'compute_fpow' and args:
            k = term(args[0])
            if k is None:
                und.append('%s line %s: powers' % (sig(f), e.line))
                continue
            z = const(sub(k, sub(NN, ONE)))
            n += 1
            ok = z is not None and z >= 0
            c.ob(ok, 'powers of f', e.where, sig(f), 'N powers prepared' if ok else short('only the powers up to %s are prepared' % show(k), M))
        if nm(e) in ('valuation_of_factorial', 'factorial_p_adic') and args and len(args) >= 2:
            x = args[-2] if nm(e) == 'valuation_of_factorial' else args[1]
            Pm = ints(sub(mul(P_, sub(top, ONE)), ONE))
            n += 1
            same = alg.canonical(x) == alg.canonical(Pm)
            c.ob(same, 'valuation', e.where, sig(f), 'of the factorial that is divided by' if same else short('taken of %s!' % alg.pretty(alg.canonical(x)), M))
        if nm(e) == 'get_final_reduction_matrix_J' and args and args[-1] is not None:
            k = term(args[-1])
            es = [iv for l in e.loops for iv in l.ivs if l.ivs[iv][2] == -1]
            want = mul(P_, es[-1]) if es else N_
            if k is None:
                und.append('%s line %s: final matrix' % (sig(f), e.line))
                continue
            n += 1
            c.ob(k is want, 'final reduction', e.where, sig(f), 'from the pole order of the vector' if k is want else short('final reduction from pole order %s where the vector has pole order %s' % (show(k), show(want)), M))
    # ---- the scaling
    Pm = sub(mul(P_, sub(top, ONE)), ONE)
    wr = scal(T('call', 'factorial', asterm(ints(Pm)), ONE), num(-1)) * scal(P_, sub(N_, ONE)) * word(T('sum of reductions'))
    if A.ret is None or opaque(A.ret):
        und.append('%s: result' % sig(f))
    else:
        got, exp = alg.canonical(A.ret), alg.canonical(wr)
        n += 1
        c.ob(got == exp, 'scaling', w, sig(f), 'p^(n-1) / (p(m+N-1)-1)! times the sum of the reductions' if got == exp else short(diff(got, exp), M))
    # ---- powers of p are taken to non-negative exponents
    for e in I.events:
        if e.kind == 'call' and nm(e) == 'power_ZZ' and len(e.argv or []) == 2:
            x = e.argv[1]
            l = A_term(A, x)
            if l is None or l.op != 'poly' or not any(c_ < 0 for _, c_ in l.a):
                continue
            good = False
            for g in e.g:
                op, pos, y = A.guard(g)
                y = term(y) if isinstance(y, Sum) else None
                if op == 'lt0' and y is not None:
                    bound = sub(ZERO, add(y, ONE)) if pos else y      # a quantity known to be >= 0
                    k = const(sub(l, bound))
                    good = good or k is not None and k >= 0
            n += 1
            c.ob(good, 'exponent', e.where, sig(f), 'exponent known to be non-negative' if good else short('power of p with an exponent that may be negative: %s' % show(l), M))
    return n, und


def A_cl(t):
    return t if t.op != 'poly' else asterm(ints(t))


def A_term(A, t):
    return term(A.E(t))


def diff(a, b):
    x = {k: v for k, v in a.items() if b.get(k) != v}
    y = {k: v for k, v in b.items() if a.get(k) != v}
    return 'has %s where it should have %s' % (alg.pretty(x)[:3000], alg.pretty(y)[:3000])


def short(s, M):
    return s.replace(show(M), 'm').replace('this.', '')[:700]


def matrix(c, P, f):
    w = ck.where(f, f['line'])
    frob = 'frob_J' if f['n'].endswith('_J') else 'frob_ND'
    I = vn.Interp(P, inline=local).run(f)
    Assembly.frobs = ('frob_J', 'frob_ND') + tuple(g['n'] for g in P.funcs.values() if g['n'].startswith(('frob_J', 'frob_ND')))
    A = Assembly(I, f)
    NN = T('path', T('root', 'par', f['params'][0]['n']), ())
    n, und = 0, []
    if not any(nm(x[0]) in Assembly.frobs for x in A.calls.values()):
        return 0, ['%s: no call' % sig(f)]
    for e, args, gs in A.calls.values():
        if nm(e) not in Assembly.frobs:
            continue
        loops = [l for l in e.loops if l.ivs]
        if args is None or len(loops) != 1:
            und.append('%s line %s' % (sig(f), e.line))
            continue
        i, (lo, hi, st, _) = next(iter(loops[0].ivs.items()))
        his = A.clean(hi)
        n += 1
        full = st == 1 and lo is ZERO and his.op == 'len' and isinstance(his.a[0], T) and his.a[0].op == 'path' and his.a[0].a[1][-1] == ('f', 'coKernels_J_basis')
        c.ob(full, 'columns', e.where, sig(f), 'every basis element' if full else 'basis elements %s .. %s' % (show(A.clean(lo)), show(his)))
        if not full:
            continue
        basis = his.a[0]
        ei, M = order_of(basis, i)
        Nm = T('path', NN.a[0], (('i', sub(M, ONE)),))
        ok = len(args) >= 2 and alg.canonical(args[0]) == alg.canonical(scal(i)) and alg.canonical(args[1]) == alg.canonical(scal(Nm))
        n += 1
        c.ob(ok, 'column', e.where, sig(f), 'Frobenius of basis element i with N[m-1] terms' if ok else short('called with %s' % ', '.join(alg.pretty(alg.canonical(a)) for a in args), M))
        gg = [(op, pos, x) for op, pos, x in gs if isinstance(x, Sum) and x.has(lambda t: t.op == 'path' and t.a[0] is NN.a[0])]
        gg = [(op, pos, term(x)) for op, pos, x in gg]
        ok = all(op == 'lt0' and (pos and t is sub(ZERO, Nm) or not pos and t is sub(Nm, ONE)) or op == 'eq0' and not pos and t in (Nm, sub(ZERO, Nm)) or
                 not any(y is i for y in vn.subterms(t)) for op, pos, t in gg if t is not None) 
        n += 1
        c.ob(ok, 'column computed when', e.where, sig(f), 'exactly when N[m-1] > 0' if ok else short('computed when %s' % '; '.join('%s%s %s' % ('' if pos else 'not ', op, show(t)) for op, pos, t in gg), M))
        # stored as row i of the matrix whose transpose is the result
        wr = [x for x in I.events if x.kind == 'write' and x.v is not None and isinstance(x.v, T) and any(y.op == 'call' and called(y) == frob for y in vn.subterms(x.v))]
        rets = [x for x in I.events if x.kind == 'ret' and isinstance(x.v, T)]
        if len(wr) == 1 and wr[0].p.op == 'path' and len(wr[0].p.a[1]) == 1 and rets:
            n += 1
            v = rets[-1].v
            rr = set(result_root(I, v))
            tr = called(v) == 'transpose' if v.op == 'call' else any(x.kind == 'call' and nm(x) == 'transpose' and len(x.argv or []) == 2 and x.argv[0].op in ('rd', 'path') and
                                                                    (x.argv[0].a[0].a[0] if x.argv[0].op == 'rd' else x.argv[0].a[0]) in rr and wr[0].p.a[0] in {y for t in (x.argv[1],) for y in vn.subterms(t)} for x in I.events)
            ok = wr[0].p.a[1][0] == ('i', i) and tr
            c.ob(ok, 'orientation', wr[0].where, sig(f), 'column i of the result' if ok else 'stored at %s, %s' % (show(wr[0].p), 'transposed' if tr else 'not transposed'))
    return n, und


EXPAND = ('frob_J_ZZ', 'frob_J_ZZ_p', 'frob_ND_ZZ', 'frob_ND_ZZ_p', 'frob_ND_flint')
MATRIX = ('frob_matrix_J', 'frob_matrix_ND')


def c29(c):
    P = facts.load()
    n, und = 0, []
    for f in sorted(P.funcs.values(), key=lambda f: (f['file'], f['line'])):
        if f.get('dependent') or not f.get('cls') or '/test/' in f['file']:
            continue
        if f['n'] in EXPAND:
            k, u = expansion(c, P, f)
        elif f['n'] in MATRIX:
            k, u = matrix(c, P, f)
        else:
            continue
        n += k
        und += u
    c.need(n, 12, 'formulas')
    c.analysed['not in a form the analysis decides'] = und
