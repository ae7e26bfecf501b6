"""C31: the elementary vector, matrix, conversion and counting routines compute their defining formula.

Reduction summarisation: every loop of a kernel is summarised once, as a family of elements (a path that
moves with the loop counter), a sum, a product or a maximum over the counter's range; the summary of the
whole routine is compared with its defining formula, for symbolic sizes.  Nothing is unrolled or run."""
import re, itertools
import facts, vn, ck
from vn import T, show, add, sub, mul, num, ZERO, ONE, const
from gate import called_q


class Unsupported(Exception):
    pass


def op(name, *a):
    return T('op', name, *a)


class Summary:
    def __init__(self, I, fn):
        self.I = I
        self.env, self.hist, self.lx, self.pend = {}, {}, {}, {}
        self.fam = []                 # [pattern path, [(iv, loop)], expr, dims]
        self.log = []                 # writes to families and cells, in order
        self.stamp = 0
        self.eqs = []
        self.dims = {}
        self.rets = []
        self.calls = []
        self.alloc, self.pre = {}, {}
        self.retraw = None
        self.params = {q['d']: q['n'] for q in fn['params'] if q.get('n')}
        self.flat = {q['n'] for q in fn['params'] if norm_type(q) == 'mpz**'}
        self.mats = {q['n'] for q in fn['params'] if norm_type(q).startswith('Mat<')}
        self.seq(I.tree.ch)

    # ------------------------------------------------------------ values
    def norm_path(self, p):
        r = p.a[0]
        if r.op == 'root' and r.a[0] == 'var' and r.a[2] in self.params:      # a parameter taken by value
            p = T('path', T('root', 'par', self.params[r.a[2]]), p.a[1])
        if r.op == 'root' and r.a[0] == 'ptr' and isinstance(r.a[1], T):
            q = r.a[1]
            if q.op == 'rd' and q.a[0].op == 'path' and p.a[1] and p.a[1][0] == ('i', ZERO):
                p = T('path', q.a[0].a[0], q.a[0].a[1] + p.a[1][1:])          # an array of one-element arrays
            elif q.op == 'call' and q.a[0] == 'nmod_mat_entry_ptr' and len(q.a) == 4 and q.a[1].op == 'addr':   # a row
                m = self.norm_path(q.a[1].a[0])
                if m.a[0].a[0] == 'par' and p.a[1] and p.a[1][0][0] == 'i':
                    p = T('path', T('root', 'nmod', m.a[0].a[1]), (('i', q.a[2]), ('i', add(q.a[3], p.a[1][0][1]))) + p.a[1][1:])
        if len(p.a[1]) >= 2 and p.a[0].a[0] == 'par' and p.a[0].a[1] in self.flat and p.a[1][0][0] == 'i' and p.a[1][1] == ('i', ZERO):
            p = T('path', p.a[0], p.a[1][:1] + p.a[1][2:])
        return T('path', p.a[0], tuple((s[0],) + tuple(self.E(x) if isinstance(x, T) else x for x in s[1:]) for s in p.a[1]))

    def cell(self, p, ver=None):
        p = self.norm_path(p)
        h = self.hist.get(p)
        if h:
            if ver is None:
                return h[-1][1]
            for st, v in reversed(h):
                if st <= ver:
                    return v
            return h[0][1] if p.a[0].a[0] != 'par' else T('at', p)
        for q, ivs, v in reversed(self.fam):
            if q.a[0] == p.a[0]:
                m = self.solve(q, p, ivs)
                if m is not None:
                    return vn.subst(v, m)
        return T('at', p)

    def solve(self, q, p, ivs):
        """counters as functions of p's indices when p is an element of the family q"""
        if len(q.a[1]) != len(p.a[1]):
            return None
        m = {}
        for a, b in zip(q.a[1], p.a[1]):
            if a[0] != b[0]:
                return None
            if a[0] != 'i':
                if a != b:
                    return None
                continue
            used = [iv for iv, lo, hi in ivs if iv in set(vn.subterms(a[1]))]
            if len(used) > 1:
                return None
            if used:
                d = sub(a[1], used[0])
                if used[0] in set(vn.subterms(d)):
                    return None
                m[used[0]] = sub(b[1], d)
            elif a[1] is not b[1]:
                return None
        return m

    def E(self, t):
        o = t.op
        if o == 'rd':
            if t.a[0].op == 'path':
                return self.cell(t.a[0], t.a[1])
        if o == 'lx':
            return self.lx.get((t.a[0], t.a[1]), t)
        if o in ('n', 'iv', 'lp', 'at', 'esum', 'eprod', 'emax', 'bv', 'str'):
            return t
        if o == 'poly':
            r = ZERO
            for m, c in t.a:
                x = num(c)
                for f in m:
                    x = mul(x, self.E(f))
                r = add(r, x)
            return r
        if o == 'exit':
            return self.E(t.a[1])
        if o == 'addr':
            return T('addr', self.norm_path(t.a[0])) if isinstance(t.a[0], T) and t.a[0].op == 'path' else t
        if o == 'len':
            if t.a[0].op != 'path':
                return t
            p = self.norm_path(t.a[0])
            if len(p.a[1]) == 1 and p.a[1][0][0] == 'i' and p.a[0].a[0] == 'par' and p.a[0].a[1] in self.mats:
                return T('call', 'NumCols', T('at', T('path', p.a[0], ())))
            return op('len', p)
        if o == 'list' and len(t.a) == 1:
            return self.E(t.a[0])
        if o == 'sel' and isinstance(t.a[0], T) and t.a[0].op in ('lp', 'lx') and isinstance(t.a[0].a[1], T) and not t.a[0].a[1].a[1]:
            q = self.norm_path(T('path', t.a[0].a[1].a[0], tuple(t.a[1])))
            x = (self.lx if t.a[0].op == 'lx' else self.pre).get((t.a[0].a[0], q))
            return x if x is not None else self.cell(q)
        if o == 'sel' and isinstance(t.a[0], T):
            return T('sel', self.E(t.a[0]), t.a[1])
        if o == 'call':
            a = [self.E(x) if isinstance(x, T) else x for x in t.a[1:]]
            return self.fun(str(t.a[0]), a)
        if o == 'ite':
            return self.ite(self.E(t.a[0]), self.E(t.a[1]), self.E(t.a[2]))
        if o == 'bin':
            return op(t.a[0], self.E(t.a[1]), self.E(t.a[2]))
        if o in ('lt0', 'eq0', 'not', 'bool'):
            return T(o, self.E(t.a[0]))
        if o == 'and':
            return T(o, *[self.E(x) for x in t.a])
        return t

    def ite(self, c, a, b):
        if a is b:
            return a
        # maximum of two
        if c.op == 'not':
            return self.ite(c.a[0], b, a)
        if c.op == 'lt0':                       # x - y < 0
            d = c.a[0]
            if d is sub(b, a):                  # b < a : the larger
                return self.mx(a, b)
            if d is sub(a, b) and False:
                pass
            if d is add(sub(b, a), num(-1)) or d is add(sub(b, a), ONE):
                return self.mx(a, b)
        return op('ite', c, a, b)

    def mx(self, a, b):
        xs = set()
        for x in (a, b):
            xs |= set(x.a[1:]) if x.op == 'op' and x.a[0] == 'max' else {x}
        return op('max', *sorted(xs, key=lambda x: x.key if hasattr(x, 'key') else show(x)))

    def fun(self, name, a):
        n = name.split('::')[-1] if not name.startswith('conv<') else 'conv'
        n = re.sub(r'<.*', '', n)
        ts = [x for x in a if isinstance(x, T)]
        if n in ('conv', 'rep', 'to_ZZ', 'to_ZZ_p', 'to_zz_p', 'to_long', 'ZZ', 'ZZ_p', 'zz_p', 'INIT_VAL') and len(ts) >= 1:
            return ts[0]
        if n == 'operator+' and len(ts) == 2:
            return add(*ts)
        if n == 'operator-':
            return sub(*ts) if len(ts) == 2 else sub(ZERO, ts[0])
        if n == 'operator*' and len(ts) == 2:
            return mul(*ts)
        if n == 'operator/' and len(ts) == 2:
            return op('/', *ts)
        if n == 'operator%' and len(ts) == 2:
            return op('%', *ts)
        if n == 'nmod_add':
            return add(ts[0], ts[1])
        if n == 'nmod_sub':
            return sub(ts[0], ts[1])
        if n == 'nmod_mul':
            return mul(ts[0], ts[1])
        if n == 'nmod_neg':
            return sub(ZERO, ts[0])
        if n == 'nmod_addmul':
            return add(ts[0], mul(ts[1], ts[2]))
        if n in ('power', 'power_ZZ') and len(ts) == 2:
            return op('pow', *ts)
        return T('call', n, *ts)

    # ------------------------------------------------------------ statements
    def seq(self, nodes):
        for nd in nodes:
            if self.rets and self.rets[-1][0] == 'all':
                break
            self.node(nd)

    def node(self, nd):
        k = nd.kind
        if k in ('seq', 'par', 'crit', 'inl'):
            return self.seq(nd.ch)
        if k == 'ev':
            return self.event(nd.info)
        if k == 'loop':
            return self.loop(nd)
        if k == 'alt':
            return self.alt(nd)
        raise Unsupported(k)

    def set(self, p, v, stamp):
        p = self.norm_path(p)
        if p.a[0].a[0] == 'par' and not p.a[1] or p.a[0].a[0] != 'par':
            pass
        # a write to the whole drops its parts
        for q in [q for q in self.hist if q is not p and q.a[0] == p.a[0] and q.a[1][:len(p.a[1])] == p.a[1]]:
            self.hist[q].append((stamp or self.stamp, v if v.op == 'opaque' else T('sel', v, q.a[1][len(p.a[1]):])))
        self.hist.setdefault(p, []).append((stamp or self.stamp, v))
        self.stamp = max(self.stamp, stamp or 0)
        self.log.append((p, v))

    def event(self, e):
        k = e.kind
        if k == 'write':
            if e.x in ('SetDims', 'SetLength', 'swap') and e.v is None:
                return
            p = e.p
            if e.v is not None:
                v = self.E(e.v)
            else:
                q = self.norm_path(p)
                v = self.pend.pop(q, None)
                if v is None:
                    v = T('opaque', e.n)
            self.set(p, v, e.ret)
        elif k == 'construct':
            if e.p is not None and len(e.argv or []) <= 1:
                self.set(e.p, self.E(e.argv[0]) if e.argv else ZERO, None)
        elif k == 'alloc':
            if e.p is not None and isinstance(e.v, T):
                self.alloc[e.p.a[0]] = self.E(e.v)
        elif k == 'call':
            self.call(e)
        elif k == 'assert':
            if isinstance(e.v, T) and e.v.op == 'eq0':
                self.eqs.append(self.E(e.v.a[0]))
            elif isinstance(e.v, T) and e.v.op == 'and':
                self.eqs += [self.E(x.a[0]) for x in e.v.a if x.op == 'eq0']
        elif k == 'ret':
            self.rets.append(('all', self.E(e.v) if isinstance(e.v, T) else None))
            self.retraw = e.v
        elif k in ('break', 'continue'):
            raise Unsupported(k)

    def arg(self, e, i):
        """value of an argument: the object itself, or what it points to"""
        v = (e.argv or [])[i]
        p = (e.args or [None] * 9)[i] if i < len(e.args or []) else None
        if isinstance(v, T) and v.op == 'addr':
            return self.cell(v.a[0])
        if v is None and p is not None:
            return self.cell(p)
        return self.E(v)

    def dest(self, e, i=0):
        p = (e.args or [None] * 9)[i] if i < len(e.args or []) else None
        v = (e.argv or [None] * 9)[i]
        if isinstance(v, T) and v.op == 'addr':
            return self.norm_path(v.a[0])
        return self.norm_path(p) if p is not None else None

    SET = {'set', 'mpz_set', 'fmpz_set', 'mpz_set_ui', 'mpz_set_si', 'fmpz_set_ui', 'fmpz_set_si', 'conv', 'fmpz_set_mpz', 'fmpz_get_mpz', 'mpz_init_set', 'mpz_init_set_ui', 'fmpz_init_set', 'mpz_init_set_si'}
    ZERO = {'clear', 'mpz_init', 'fmpz_init', 'fmpz_zero', 'zero'}
    BIN = {'add': add, 'mpz_add': add, 'fmpz_add': add, 'mpz_add_ui': add, 'fmpz_add_ui': add, 'sub': sub, 'mpz_sub': sub, 'fmpz_sub': sub, 'mpz_sub_ui': sub, 'fmpz_sub_ui': sub,
           'mul': mul, 'mpz_mul': mul, 'fmpz_mul': mul, 'mpz_mul_ui': mul, 'fmpz_mul_ui': mul, 'mpz_mul_si': mul, 'fmpz_mul_si': mul}
    CMP = {'operator+=': add, 'operator-=': sub, 'operator*=': mul}

    def call(self, e):
        n = re.sub(r'^__g', '', re.sub(r'<[^<>]*>$', '', re.sub(r'.*::', '', re.sub(r'<[^<>]*>(?=::)', '', e.q or ''))))
        a = e.argv or []
        self.calls.append(e)
        if n == 'SetDims' and e.objp is not None and len(a) == 2:
            self.dims[self.norm_path(e.objp)] = tuple(self.E(x) for x in a)
            return
        if n == 'SetLength' and e.objp is not None and a:
            self.dims[self.norm_path(e.objp)] = (self.E(a[0]),)
            if len(a) == 2:
                self.fam.append((T('path', e.objp.a[0], e.objp.a[1]), [], T('opaque', 'fill')))
            return
        if n in self.CMP and len(a) == 2:
            d = self.dest(e)
            if d is not None:
                self.pend[d] = self.CMP[n](self.cell(d) if True else None, self.arg(e, 1))
            return
        if n in ('_nmod_vec_sub', '_nmod_vec_add') and len(a) >= 4:
            f = sub if n.endswith('sub') else add
            ps = [self.norm_path(x.a[0] if x.op == 'addr' else vn.P(vn.root('ptr', x), ('i', ZERO))) for x in a[:3]]
            iv = T('iv', 'v%d' % e.n)
            el = [step(p, iv) for p in ps]
            self.fam.append((el[0], [(iv, ZERO, self.E(a[3]))], f(T('at', el[1]), T('at', el[2]))))
            self.pend[ps[0]] = T('family')
            return
        d = self.dest(e) if a else None
        if d is None:
            return
        if n in self.ZERO:
            self.pend[d] = ZERO
        elif n in self.SET and len(a) >= 2:
            self.pend[d] = self.arg(e, 1)
        elif n in self.BIN and len(a) >= 3:
            self.pend[d] = self.BIN[n](self.arg(e, 1), self.arg(e, 2))
        elif n in ('mpz_addmul', 'fmpz_addmul', 'mpz_addmul_ui', 'fmpz_addmul_ui', 'MulAddTo') and len(a) == 3:
            self.pend[d] = add(self.cell(d), mul(self.arg(e, 1), self.arg(e, 2)))
        elif n in ('mpz_submul', 'fmpz_submul', 'MulSubFrom') and len(a) == 3:
            self.pend[d] = sub(self.cell(d), mul(self.arg(e, 1), self.arg(e, 2)))
        elif n == 'BytesFromZZ' and len(a) == 3:
            self.pend[d] = op('bytes', self.arg(e, 1), self.arg(e, 2), self.size(d))
        elif n == 'mpz_import' and len(a) == 7:
            self.pend[d] = op('abs', self.arg(e, 6), self.arg(e, 1), op('how', *[self.E(x) for x in a[2:6]]))
        elif n == 'mpz_export' and len(a) == 7:
            m = self.dest(e, 1)
            cap = self.size(d)
            self.pend[d] = op('bytes', self.arg(e, 6), op('how', *[self.E(x) for x in a[2:6]]), cap)
            if m is not None:
                self.pend[m] = op('count', self.pend[d])
        elif n == 'ZZFromBytes' and len(a) == 3:
            self.pend[d] = op('abs', self.arg(e, 1), self.arg(e, 2))
        elif n in ('negate', 'mpz_neg', 'fmpz_neg') and len(a) == 2:
            self.pend[d] = sub(ZERO, self.arg(e, 1))

    def size(self, p):
        return self.alloc.get(p.a[0], T('opaque', 'size'))

    def alt(self, nd):
        base = {p: list(h) for p, h in self.hist.items()}
        res = []
        nfam = len(self.fam)
        for br in nd.ch:
            self.hist = {p: list(h) for p, h in base.items()}
            r0 = len(self.rets)
            self.seq(br.ch if br.kind != 'ev' else [br])
            if any(x.kind == 'abort' for x in flat(br)):
                continue
            if len(self.rets) > r0:
                # an early return: only where nothing has been written and nothing is returned (empty input)
                if self.rets[-1][1] is not None or any(x.kind in ('write',) for x in flat(br)):
                    raise Unsupported('return under a condition')
                self.rets.pop()
                continue
            res.append((br.info if isinstance(br.info, T) else None, self.hist))
        if not res:
            return
        if len(res) == 1:
            self.hist = res[0][1]
            return
        if len(res) != 2 or res[0][0] is None or len(self.fam) != nfam:
            raise Unsupported('alternatives')
        c = self.E(res[0][0])
        out = {}
        self.stamp += 0.25
        for p in set(res[0][1]) | set(res[1][1]):
            a = res[0][1].get(p)
            b = res[1][1].get(p)
            if a == b:
                out[p] = a
                continue
            va = a[-1][1] if a else T('at', p)
            vb = b[-1][1] if b else T('at', p)
            out[p] = (a or b) + [(self.stamp, self.ite(c, va, vb))]
        self.hist = out

    def loop(self, nd):
        L = nd.info
        ivs = [(iv, d[0], d[1], d[2]) for iv, d in L.ivs.items() if len(L.ivs) == 1 or d[1] is not None]
        if len(ivs) != 1 or ivs[0][1] is None or ivs[0][2] is None or ivs[0][3] not in (1, -1):
            raise Unsupported('loop without a counter')
        iv, lo, hi, st = ivs[0]
        lo, hi = self.E(lo), self.E(hi)
        if st == -1:
            lo, hi = hi, add(lo, ONE)
        if any(e.kind in ('break', 'ret') for e in flat(nd)):
            raise Unsupported('a loop left early')
        # what is carried from one turn to the next
        carried = {}
        mov = set()
        mine = {L.id} | {x.info.id for x in nodes(nd) if x.kind == 'loop'}
        for e in flat(nd):
            if e.kind == 'write' and not (e.x in ('SetDims', 'SetLength') and e.v is None):
                p = self.norm_path(e.p)
                if any(x.op in ('iv', 'lp', 'ekey') and x.a[0] in mine for x in vn.subterms(p)):
                    mov.add(p)
                    continue
                if p not in carried:
                    pre = T('lp', L.id, p)
                    carried[p] = (pre, self.cell(p))
        # elements addressed with this loop's counter start from what is there
        self.stamp += 0.25
        for p, (pre, v0) in carried.items():
            self.hist.setdefault(p, []).append((self.stamp, pre))
            self.pre[(L.id, p)] = pre
        keep = set(self.hist)
        nf = len(self.fam)
        self.seq(nd.ch)
        self.stamp += 0.25
        # families
        for i in range(nf, len(self.fam)):
            q, fi, v = self.fam[i]
            if iv in set(vn.subterms(q)):
                self.fam[i] = (q, fi + [(iv, lo, hi)], v)
        for p in list(self.hist):
            if iv in set(vn.subterms(p)):
                v = self.hist.pop(p)[-1][1]
                self.fam.append((p, [(iv, lo, hi)], v))
        # reductions
        for p, (pre, v0) in carried.items():
            f = self.hist[p][-1][1]
            r = self.reduce(f, pre, v0, iv, lo, hi, L)
            self.hist[p].append((self.stamp, r))
            self.lx[(L.id, p)] = r

    def reduce(self, f, pre, v0, iv, lo, hi, L):
        if f is pre:
            return v0
        d = sub(f, pre)
        if not has(d, pre, L):
            return add(v0, esum(d, iv, lo, hi))
        if f.op == 'poly' and len(f.a) == 1 or f.op == 'poly':
            q = quotient(f, pre)
            if q is not None and not has(q, pre, L):
                return mul(v0, eprod(q, iv, lo, hi))
        if f.op == 'op' and f.a[0] == 'max' and pre in f.a[1:]:
            rest = [x for x in f.a[1:] if x is not pre]
            if len(rest) == 1 and not has(rest[0], pre, L):
                return peelmax(v0, rest[0], iv, lo, hi)
        if not has(f, pre, L):
            return T('last', L.id, f)
        return T('opaque', L.id, pre)


def nodes(nd):
    todo = list(nd.ch or [])
    while todo:
        x = todo.pop()
        yield x
        todo += x.ch or []


def flat(nd):
    todo = [nd]
    while todo:
        x = todo.pop()
        if x.kind == 'ev':
            yield x.info
        todo += x.ch or []


def has(t, pre, L):
    return any(x is pre or x.op == 'lp' and x.a[0] == L.id for x in vn.subterms(t))


def quotient(f, x):
    """f / x when x divides every term of f"""
    if f is x:
        return ONE
    if f.op != 'poly':
        return None
    r = ZERO
    for m, c in f.a:
        m = list(m)
        if x not in m:
            return None
        m.remove(x)
        y = num(c)
        for z in m:
            y = mul(y, z)
        r = add(r, y)
    return r


def step(p, iv):
    s = p.a[1]
    if s and s[-1][0] == 'i':
        return T('path', p.a[0], s[:-1] + (('i', add(s[-1][1], iv)),))
    return vn.ext(p, ('i', iv))


def level(t):
    return max([x.a[0] for x in vn.subterms(t) if x.op == 'bv'] or [0])


def bind(body, iv, lo):
    b = T('bv', level(body) + 1)
    return b, vn.subst(body, {iv: add(lo, b)})


def terms(t):
    if t.op == 'poly':
        for m, c in t.a:
            yield m, c
    elif const(t) is not None:
        if const(t) != 0:
            yield (), const(t)
    else:
        yield (t,), 1


def esum(d, iv, lo, hi):
    """sum of d over lo <= iv < hi, term by term, counted from 0"""
    n = sub(hi, lo)
    r = ZERO
    b, body = bind(d, iv, lo)
    for m, c in terms(body):
        x, y = num(c), ONE
        for f in m:
            if b in set(vn.subterms(f)):
                y = mul(y, f)
            else:
                x = mul(x, f)
        r = add(r, mul(x, n if y is ONE else T('esum', b, n, y)))
    return r


def eprod(d, iv, lo, hi):
    b, body = bind(d, iv, lo)
    return T('eprod', b, sub(hi, lo), body)


def emax(d, iv, lo, hi):
    b, body = bind(d, iv, lo)
    return T('emax', b, sub(hi, lo), body)


def peelmax(v0, d, iv, lo, hi):
    """max(v0, max over the range), joined when v0 is the element before, or within, the range"""
    if v0 is vn.subst(d, {iv: sub(lo, ONE)}):
        return emax(d, iv, sub(lo, ONE), hi)
    if v0 is vn.subst(d, {iv: lo}):
        return emax(d, iv, lo, hi)
    if v0 is vn.subst(d, {iv: hi}):
        return emax(d, iv, lo, add(hi, ONE))
    return op('max', v0, emax(d, iv, lo, hi))


def tidy(t, eqs, top=True):
    """joins single terms with the sum they continue; reduces lengths by the asserted equalities"""
    m = {}
    for d in eqs:
        ts = list(terms(d))
        if len(ts) == 2 and {c for _, c in ts} == {1, -1} and all(len(x) == 1 for x, _ in ts):
            a, b = sorted((x[0] for x, _ in ts), key=show)
            m[b] = a
    for _ in range(3):
        t = rebuild(vn.subst(t, m))
    return joinsums(t)


def rebuild(t):
    return t


def joinsums(t):
    for _ in range(4):
        sums = [(mm, c) for mm, c in terms(t) if len(mm) >= 1 and any(x.op == 'esum' for x in mm)]
        done = True
        for mm, c in sums:
            s = next(x for x in mm if x.op == 'esum')
            k = num(c)
            for x in mm:
                if x is not s:
                    k = mul(k, x)
            b, n, body = s.a
            for at, nb in ((num(-1), vn.subst(body, {b: add(b, num(-1))})), (n, body)):
                one = mul(k, vn.subst(body, {b: at}))
                if len(list(terms(one))) == 1:
                    o = next(iter(terms(one)))
                    if o in list(terms(t)):
                        t = add(sub(sub(t, one), mul(k, s)), mul(k, T('esum', b, add(n, ONE), nb)))
                        done = False
                        break
            if not done:
                break
        if done:
            return t
    return t


# ------------------------------------------------------------------------- formulas
O0, O1 = T('iv', 'o0'), T('iv', 'o1')
K = T('iv', 'k')


def par(n):
    return T('path', T('root', 'par', n), ())


def el(n, *idx):
    return T('path', par(n).a[0], tuple(('i', i) for i in idx))


def at(n, *idx):
    return T('at', el(n, *idx))


def pv(n):
    return T('at', par(n))


def ln(n):
    return op('len', par(n))


def nr(n):
    return T('call', 'NumRows', T('at', par(n)))


def nc(n):
    return T('call', 'NumCols', T('at', par(n)))


def ptr0(n):
    return T('addr', el(n, ZERO))


def fr(n):
    return T('call', 'fmpz_mat_nrows', ptr0(n))


def fc(n):
    return T('call', 'fmpz_mat_ncols', ptr0(n))


def mr(n):
    return T('call', 'nmod_mat_nrows', ptr0(n))


def mc(n):
    return T('call', 'nmod_mat_ncols', ptr0(n))


def fe(n, i, j):
    return T('at', fep(n, i, j))


def fep(n, i, j):
    return T('path', par(n).a[0], (('i', ZERO), ('f', '#e'), ('i', T('list', i, j))))


def norm_type(p):
    t = p.get('t') or {}
    s = str(t.get('s') or '')
    s = re.sub(r'\bconst\b|&|\bNTL::|\s', '', s)
    s = re.sub(r'\blong\b|\bslong\b|\bmp_limb_signed_t\b', 'int64_t', s)
    return {'mp_ptr': 'ulong*', 'mp_srcptr': 'ulong*', 'nn_ptr': 'ulong*', 'nn_srcptr': 'ulong*', '__mpz_struct*': 'mpz*', 'mpz_t*': 'mpz**', 'mpz_t': 'mpz*', 'fmpz_t': 'fmpz*', 'unsignedlong': 'ulong'}.get(s, s)


V, M, I64 = 'Vec<int64_t>', 'Mat<int64_t>', 'int64_t'
S = lambda body, n: esum(body, K, ZERO, n)


def flat_el(n, i, j, cols):
    return at(n, add(mul(i, cols), j))


def matsum(a, b, cnt):
    return S(mul(a, b), cnt)


# name, parameter types (regular expressions), function of the parameter names -> description
# a description: 'out': [(element, counts, value)], 'dims': {parameter: sizes}, 'ret': value
FORMULAS = [
    ('mul', [V, I64, V], 'scalar times vector', lambda r, c, v: dict(out=[(el(r, O0), [ln(v)], mul(pv(c), at(v, O0)))], dims={r: (ln(v),)})),
    ('add', [V, V, V], 'sum of vectors', lambda r, v, w: dict(out=[(el(r, O0), [ln(v)], add(at(v, O0), at(w, O0)))], dims={r: (ln(v),)}, same=[(ln(v), ln(w))])),
    ('sub', [V, V, V], 'difference of vectors', lambda r, v, w: dict(out=[(el(r, O0), [ln(v)], sub(at(v, O0), at(w, O0)))], dims={r: (ln(v),)}, same=[(ln(v), ln(w))])),
    ('mul', [I64, V, V], 'product of vectors', lambda r, v, w: dict(out=[(par(r), [], S(mul(at(v, K), at(w, K)), ln(v)))], same=[(ln(v), ln(w))])),
    ('mul', [V, M, V], 'matrix times vector', lambda r, A, v: dict(out=[(el(r, O0), [nr(A)], S(mul(at(A, O0, K), at(v, K)), ln(v)))], dims={r: (nr(A),)}, same=[(nc(A), ln(v))])),
    ('conv', [I64 + r'\*', V], 'vector to array', lambda r, v: dict(out=[(el(r, O0), [ln(v)], at(v, O0))])),
    ('conv', [V, I64 + r'\*', I64], 'array to vector', lambda r, a, n: dict(out=[(el(r, O0), [pv(n)], at(a, O0))], dims={r: (pv(n),)})),
    ('mul', [r'mpz\*\*', r'mpz\*\*', I64, I64, r'mpz\*\*', I64, I64], 'product of flat matrices', lambda r, A, ra, ca, B, rb, cb: dict(out=[(el(r, add(mul(O0, pv(cb)), O1)), [pv(ra), pv(cb)], S(mul(flat_el(A, O0, K, pv(ca)), flat_el(B, K, O1, pv(cb))), pv(ca)))], same=[(pv(ca), pv(rb))])),
    ('mul_transpose', [r'mpz\*\*', r'mpz\*\*', I64, I64, r'mpz\*\*', I64, I64], 'product of flat matrices, the second by columns', lambda r, A, ra, ca, B, rb, cb: dict(out=[(el(r, add(mul(O0, pv(cb)), O1)), [pv(ra), pv(cb)], S(mul(flat_el(A, O0, K, pv(ca)), flat_el(B, O1, K, pv(rb))), pv(ca)))], same=[(pv(ca), pv(rb))])),
    ('mul', [r'mpz\*\*', r'mpz\*', r'mpz\*\*', I64, I64], 'scalar times flat matrix', lambda r, a, A, ra, ca: dict(out=[(el(r, add(mul(O0, pv(ca)), O1)), [pv(ra), pv(ca)], mul(at(a, ZERO), flat_el(A, O0, O1, pv(ca))))])),
    ('mul', [r'mpz\*\*', r'mpz\*\*', I64, I64, r'mpz\*\*', I64], 'flat matrix times vector', lambda r, A, ra, ca, v, n: dict(out=[(el(r, O0), [pv(ra)], S(mul(flat_el(A, O0, K, pv(ca)), at(v, K)), pv(ca)))], same=[(pv(n), pv(ca))])),
    ('mul', [r'mpz\*\*', r'mpz\*', r'mpz\*\*', I64], 'scalar times mpz vector', lambda r, a, v, n: dict(out=[(el(r, O0), [pv(n)], mul(at(a, ZERO), at(v, O0)))])),
    ('mul', [r'mpz\*\*', r'mpz\*\*', I64, r'mpz\*\*', I64], 'sum of mpz vectors', lambda r, a, n, b, k: dict(out=[(el(r, O0), [pv(n)], add(at(a, O0), at(b, O0)))], same=[(pv(n), pv(k))])),
    ('mul', [r'mpz\*', r'mpz\*\*', I64, r'mpz\*\*', I64], 'product of mpz vectors', lambda r, u, n, v, k: dict(out=[(None, [], S(mul(at(u, K), at(v, K)), pv(n)))], same=[(pv(n), pv(k))])),
    ('mul', [r'fmpz\*', r'fmpz_mat_struct\*', r'fmpz\*'], 'fmpz matrix times vector', lambda r, A, v: dict(out=[(el(r, O0), [fr(A)], S(mul(fe(A, O0, K), at(v, K)), fc(A)))])),
    ('mul', [r'fmpz\*', r'fmpz\*', r'fmpz\*', I64], 'product of fmpz vectors', lambda r, v, w, n: dict(out=[(el(r, ZERO), [], S(mul(at(v, K), at(w, K)), pv(n)))])),
    ('mul', [r'ulong\*', r'nmod_mat_struct\*', r'ulong\*', r'.*'], 'word matrix times vector', lambda r, A, v, q: dict(out=[(el(r, O0), [mr(A)], S(mul(nme(A, O0, K), at(v, K)), mc(A)))])),
    ('nmod_mat_sub', [r'nmod_mat_struct\*'] * 3, 'difference of word matrices', lambda C, A, B: dict(out=[(nmp(C, O0, O1), [fieldv(C, 'r'), fieldv(C, 'c')], sub(nme(A, O0, O1), nme(B, O0, O1)))])),
    ('nmod_vec_dot_compat', [r'ulong\*', r'ulong\*', I64, r'.*', r'.*'], 'product of word vectors', lambda v, w, n, m, q: dict(ret=S(mul(at(v, K), at(w, K)), pv(n)))),
    ('mul_transpose', [r'Mat<.*>'] * 3, 'A times B transposed', lambda r, A, B: dict(out=[(el(r, O0, O1), [nr(A), nr(B)], S(mul(at(A, O0, K), at(B, O1, K)), nc(A)))], dims={r: (nr(A), nr(B))}, same=[(nc(A), nc(B))])),
    ('transpose_mul_transpose', [r'Mat<.*>'] * 3, 'transpose of A times B transposed', lambda r, A, B: dict(out=[(el(r, O0, O1), [nr(B), nr(A)], S(mul(at(A, O1, K), at(B, O0, K)), nc(A)))], dims={r: (nr(B), nr(A))}, same=[(nc(A), nc(B))])),
    ('trace', [r'Mat<.*>'], 'trace', lambda A: dict(ret=S(at(A, K, K), nr(A)), same=[(nr(A), nc(A))])),
    ('conv', [r'fmpz_mat_struct\*', r'Mat<.*>'], 'NTL matrix to fmpz matrix', lambda A, B: dict(out=[(fep(A, O0, O1), [nr(B), nc(B)], at(B, O0, O1))], same=[(nr(B), fr(A)), (nc(B), fc(A))])),
    ('conv', [r'fmpz\*', r'Vec<.*>'], 'NTL vector to fmpz vector', lambda a, b: dict(out=[(el(a, O0), [ln(b)], at(b, O0))])),
    ('conv', [r'nmod_mat_struct\*', r'Mat<.*>'], 'NTL matrix to word matrix', lambda A, B: dict(out=[(nmp(A, O0, O1), [nr(B), nc(B)], modn(at(B, O0, O1), A))], same=[(nr(B), mr(A)), (nc(B), mc(A))])),
    ('conv', [r'Mat<.*>', r'fmpz_mat_struct\*'], 'fmpz matrix to NTL matrix', lambda A, B: dict(out=[(el(A, O0, O1), [fr(B), fc(B)], fe(B, O0, O1))], dims={A: (fr(B), fc(B))})),
    ('conv', [r'Vec<.*>', r'fmpz\*', I64], 'fmpz vector to NTL vector', lambda a, b, n: dict(out=[(el(a, O0), [pv(n)], at(b, O0))], dims={a: (pv(n),)})),
    ('conv', [r'Mat<.*>', r'nmod_mat_struct\*'], 'word matrix to NTL matrix', lambda A, B: dict(out=[(el(A, O0, O1), [mr(B), mc(B)], nme(B, O0, O1))], dims={A: (mr(B), mc(B))})),
    ('conv', [r'mpz\*\*', r'Mat<ZZ>'], 'NTL matrix to flat matrix', lambda A, B: dict(out=[(el(A, add(mul(O0, nc(B)), O1)), [nr(B), nc(B)], at(B, O0, O1))])),
    ('conv', [r'Mat<ZZ>', r'mpz\*\*', I64, I64], 'flat matrix to NTL matrix', lambda A, B, r, c: dict(out=[(el(A, O0, O1), [pv(r), pv(c)], flat_el(B, O0, O1, pv(c)))], dims={A: (pv(r), pv(c))})),
    ('factorial', [I64, I64], 'factorial', lambda n, s: dict(ret=eprod(K, K, pv(s), add(pv(n), ONE)))),
    ('binomial_ZZ', [I64, I64], 'binomial coefficient', lambda n, k: dict(ret=[quot(eprod(K, K, add(pv(k), ONE), add(pv(n), ONE)), eprod(K, K, ONE, add(sub(pv(n), pv(k)), ONE))),
                                                                              quot(eprod(K, K, add(sub(pv(n), pv(k)), ONE), add(pv(n), ONE)), eprod(K, K, ONE, add(pv(k), ONE)))])),
    ('binomial', [I64, I64], 'binomial coefficient', lambda n, k: dict(ret=[quot(eprod(K, K, add(pv(k), ONE), add(pv(n), ONE)), eprod(K, K, ONE, add(sub(pv(n), pv(k)), ONE))),
                                                                           quot(eprod(K, K, add(sub(pv(n), pv(k)), ONE), add(pv(n), ONE)), eprod(K, K, ONE, add(pv(k), ONE)))])),
    (r'operator+', [V, V], 'sum of vectors', lambda v, w: dict(out=[(el('RET', O0), [ln(v)], add(at(v, O0), at(w, O0)))], dims={'RET': (ln(v),)}, same=[(ln(v), ln(w))])),
    (r'operator-', [V, V], 'difference of vectors', lambda v, w: dict(out=[(el('RET', O0), [ln(v)], sub(at(v, O0), at(w, O0)))], dims={'RET': (ln(v),)}, same=[(ln(v), ln(w))])),
    (r'operator*', [I64, V], 'scalar times vector', lambda c, v: dict(out=[(el('RET', O0), [ln(v)], mul(pv(c), at(v, O0)))], dims={'RET': (ln(v),)})),
    (r'operator*', [V, V], 'product of vectors', lambda v, w: dict(ret=S(mul(at(v, K), at(w, K)), ln(v)), same=[(ln(v), ln(w))])),
    (r'operator*', [M, V], 'matrix times vector', lambda A, v: dict(out=[(el('RET', O0), [nr(A)], S(mul(at(A, O0, K), at(v, K)), ln(v)))], dims={'RET': (nr(A),)}, same=[(nc(A), ln(v))])),
    ('diff', [V, I64], 'difference with a unit vector', lambda v, i: dict(custom=lambda s: diff(s, v, i))),
    ('conv', [r'mpz\*', 'ZZ'], 'ZZ to mpz', lambda a, b: dict(custom=lambda s: from_zz(s, a, b))),
    ('conv', ['ZZ', r'mpz\*'], 'mpz to ZZ', lambda a, b: dict(custom=lambda s: to_zz(s, a, b))),
    ('conv', [r'fmpz\*', 'ZZ'], 'ZZ to fmpz', lambda a, b: dict(out=[(el(a, ZERO), [], pv(b))])),
    ('conv', ['ZZ', r'fmpz\*'], 'fmpz to ZZ', lambda a, b: dict(out=[(par(a), [], at(b, ZERO))])),
    ('max', [r'Vec<.*>'], 'maximum', lambda v: dict(ret=emax(at(v, K), K, ZERO, ln(v)))),
]


def simp(t, m):
    """t with the replacements m, choices decided where their condition is a number"""
    if t in m:
        return m[t]
    if t.op == 'poly':
        r = ZERO
        for mm, c in t.a:
            x = num(c)
            for f in mm:
                x = mul(x, simp(f, m))
            r = add(r, x)
        return r
    if t.op == 'n':
        return t
    if t.op in ('lt0', 'eq0', 'not', 'bool'):
        x = simp(t.a[0], m)
        k = const(x)
        if k is None:
            return T(t.op, x)
        return num(int({'lt0': k < 0, 'eq0': k == 0, 'not': not k, 'bool': bool(k)}[t.op]))
    if t.op == 'and':
        xs = [simp(x, m) for x in t.a]
        if any(const(x) == 0 for x in xs):
            return ZERO
        return ONE if all(const(x) for x in xs) else T('and', *xs)
    if t.op == 'op' and t.a[0] == 'ite':
        c = const(simp(t.a[1], m))
        return simp(t.a[3] if c == 0 else t.a[2], m) if c is not None else t
    return t


def ge(a, b):
    """a is at least b: they differ by a number"""
    k = const(sub(a, b))
    return k is not None and k >= 0


def signed(v, sgn, size):
    """value for a negative and a positive argument"""
    r = []
    for x in (-1, 1):
        r.append(simp(v, {sgn: num(x), size: num(x)}))
    return r


def diff(s, v, i):
    r = returned(s)
    if r is None:
        return [(False, 'returns v - e_i', 'returns something else')]
    x = T('path', r, ())
    y = T('path', r, (('i', pv(i)),))
    rest = [p for p in s.hist if p.a[0] is r and p not in (x, y)] + [f for f in s.fam if f[0].a[0] is r]
    ok = not rest and x in s.hist and s.hist[x][-1][1] is pv(v) and s.cell(y) is add(at(v, pv(i)), num(-1))
    return [(ok, 'returns v - e_i', '%s and element i %s' % (show(s.cell(x)), show(s.cell(y))))]


def from_zz(s, a, b):
    v = s.cell(el(a, ZERO))
    n = T('call', 'NumBytes', pv(b))
    neg, pos = signed(v, T('call', 'sign', pv(b)), T('none'))
    out = [(add(neg, pos) is ZERO and pos.op == 'op' and pos.a[0] == 'abs', 'negated exactly for negative numbers', 'value %s' % show(v)[:200])]
    ok = False
    if pos.op == 'op' and pos.a[0] == 'abs' and len(pos.a) == 4:
        by, cnt, how = pos.a[1:]
        h = [const(x) for x in how.a[1:]]
        ok = by.op == 'op' and by.a[0] == 'bytes' and by.a[1] is pv(b) and by.a[2] is cnt and ge(cnt, n) and ge(by.a[3], cnt) and h[1] == 1 and h[0] == -1 and h[3] == 0
    out.append((ok, 'all bytes are taken over, least significant first, in a buffer that holds them', 'value %s' % show(pos)[:260]))
    return out


def to_zz(s, a, b):
    v = s.cell(par(a))
    sizes = {x for x in vn.subterms(v) if x.op == 'at' and x.a[0].op == 'path' and ('f', '_mp_size') in x.a[0].a[1] and x.a[0].a[0] is par(b).a[0]}
    sg = T('call', 'mpz_sgn', ptr0(b))
    neg, pos = signed(v, sg, next(iter(sizes)) if len(sizes) == 1 else T('none'))
    out = [(add(neg, pos) is ZERO and pos.op == 'op' and pos.a[0] == 'abs', 'negated exactly for negative numbers', 'value %s' % show(v)[:200])]
    ok = False
    if pos.op == 'op' and pos.a[0] == 'abs' and len(pos.a) == 3:
        by, cnt = pos.a[1:]
        if by.op == 'op' and by.a[0] == 'bytes':
            h = [const(x) for x in by.a[2].a[1:]]
            ok = by.a[1] is at(b, ZERO) and cnt is op('count', by) and h[0] == -1 and h[1] == 1 and h[3] == 0 and room(by.a[3], b)
    out.append((ok, 'all bytes are taken over, least significant first, in a buffer that holds them', 'value %s' % show(pos)[:260]))
    return out


def room(cap, b):
    """(bits + 7) / 8 bytes or more"""
    bits = T('call', '__gmpz_sizeinbase', ptr0(b), num(2))
    for m, c in terms(cap):
        if len(m) == 1 and m[0].op == 'op' and m[0].a[0] == '/' and const(m[0].a[2]) == 8 and c == 1:
            r, k = const(sub(cap, m[0])), const(sub(m[0].a[1], bits))
            if r is not None and k is not None and k + 8 * r >= 7:
                return True
    return ge(cap, bits)


def quot(a, b):
    return op('/', a, b)


def fieldv(n, f):
    return T('at', T('path', par(n).a[0], (('i', ZERO), ('f', f))))


def nmp(n, i, j):
    return T('path', T('root', 'nmod', n), (('i', i), ('i', j)))


def nme(n, i, j):
    return T('at', nmp(n, i, j))


def modn(x, A):
    return op('%', x, T('at', T('path', par(A).a[0], (('i', ZERO), ('f', 'mod'), ('f', 'n')))))


def rows_canon(t):
    """A->rows[i][j] as an element of the word matrix A; A->r and A->c as its sizes"""
    if isinstance(t, tuple):
        return tuple(rows_canon(x) for x in t)
    if not isinstance(t, T):
        return t
    if t.op == 'n':
        return t
    if t.op == 'path':
        r, s = t.a
        if r.op == 'root' and r.a[0] == 'ptr' and isinstance(r.a[1], T):
            q = r.a[1]
            while q.op in ('rd', 'at', 'addr'):
                q = q.a[0]
            if q.op == 'path':
                sels = list(q.a[1])
                rt = q.a[0]
                if rt.op == 'root' and rt.a[0] == 'ptr':
                    q2 = rt.a[1]
                    while q2.op in ('rd', 'at', 'addr'):
                        q2 = q2.a[0]
                    if q2.op == 'path':
                        rt, sels = q2.a[0], list(q2.a[1]) + sels
                full = [x for x in sels if x[0] != 'i' or True]
                if len(full) >= 2 and full[0][0] == 'i' and full[1] in (('f', 'rows'),) and rt.op == 'root' and rt.a[0] == 'par':
                    rest = tuple(x for x in full[2:]) + tuple(s)
                    return T('path', T('root', 'nmod', rt.a[1]), tuple((x[0],) + tuple(rows_canon(y) for y in x[1:]) for x in rest))
        return T('path', rows_canon(r), rows_canon(s))
    if t.op == 'call' and t.a[0] in ('nmod_mat_nrows', 'nmod_mat_ncols', 'fmpz_mat_nrows', 'fmpz_mat_ncols') and len(t.a) == 2 and t.a[1].op == 'addr':
        p = t.a[1].a[0]
        return T('at', T('path', p.a[0], p.a[1] + (('f', 'r' if 'nrows' in t.a[0] else 'c'),)))
    if t.op == 'poly':
        r = ZERO
        for m, c in t.a:
            x = num(c)
            for f in m:
                x = mul(x, rows_canon(f))
            r = add(r, x)
        return r
    na = tuple(rows_canon(x) for x in t.a)
    return t if na == t.a else T(t.op, *na)


def same(a, b, eqs):
    a, b = (tidy(rows_canon(x), [rows_canon(e) for e in eqs]) for x in (a, b))
    return canon2(a) is canon2(b)


def canon2(t):
    return t


def flat_param(fn, n):
    return n


def check(fn, want, P):
    """[(ok, what, detail)] for one kernel"""
    try:
        I = vn.Interp(P, inline=lambda g, s: g['n'] != 'conv').run(fn)
        s = Summary(I, fn)
    except Unsupported as e:
        return [(False, 'computes its formula', 'no closed form could be established: %s' % e)]
    eqs = s.eqs + [sub(a, b) for a, b in want.get('same', [])]
    out = []
    names = {p['n'] for p in fn['params'] if p.get('n')}
    if 'custom' in want:
        return want['custom'](s)
    for pth, cnt, val in want.get('out', []):
        out.append(one_out(s, fn, pth, cnt, val, eqs))
    for p, ds in want.get('dims', {}).items():
        got = s.dims.get(par(p) if p != 'RET' or returned(s) is None else T('path', returned(s), ()))
        ok = got is not None and len(got) == len(ds) and all(same(a, b, eqs) for a, b in zip(got, ds))
        out.append((ok, 'the result has the size of the formula', 'sized %s' % ([show(x) for x in got] if got else 'nowhere')))
    if 'ret' in want:
        alts = want['ret'] if isinstance(want['ret'], list) else [want['ret']]
        got = [r[1] for r in s.rets if r[0] == 'all']
        ok = len(got) == 1 and got[0] is not None and any(same(got[0], a, eqs) for a in alts)
        out.append((ok, 'returns its formula', 'returns %s' % [show(g)[:200] for g in got if g is not None]))
    return out


def returned(s):
    v = s.retraw
    if isinstance(v, T) and v.op == 'lx' and not v.a[1].a[1]:
        return v.a[1].a[0]
    return v.a[0].a[0] if isinstance(v, T) and v.op == 'rd' and v.a[0].op == 'path' and not v.a[0].a[1] else None


def one_out(s, fn, pth, cnt, val, eqs):
    what = 'every element of the result is its formula'
    if pth is not None and pth.a[0] is par('RET').a[0]:
        r = returned(s)
        if r is None:
            return (False, what, 'returns %s' % (show(s.retraw) if isinstance(s.retraw, T) else 'nothing'))
        pth = T('path', r, pth.a[1])
    if pth is None:                    # a scalar result passed by reference, whichever way it is addressed
        r = fn['params'][0]['n']
        cand = [p for p in s.hist if p.a[0] is par(r).a[0]]
        if len(cand) != 1:
            return (False, what, 'result written through %d names' % len(cand))
        pth = cand[0]
    if not cnt:
        h = s.hist.get(pth)
        extra = [q for q, iv, v in s.fam if q.a[0] is pth.a[0]]
        if not h or extra:
            return (False, what, 'the result is not written' if not h else 'further elements are written')
        return (same(h[-1][1], val, eqs), what, 'result is %s' % show(h[-1][1])[:220])
    pth, val, cnt = rows_canon(pth), rows_canon(val), [rows_canon(c) for c in cnt]
    eqs = [rows_canon(e) for e in eqs]
    fams = [(rows_canon(q), [(iv, rows_canon(lo), rows_canon(hi)) for iv, lo, hi in ivs], rows_canon(v)) for q, ivs, v in s.fam]
    fams = [f for f in fams if f[0].a[0] is pth.a[0]]
    cells = [p for p in s.hist if rows_canon(p).a[0] is pth.a[0] and (p.a[1] or any(v is not ZERO for _, v in s.hist[p]))]
    if cells:
        return (False, what, 'single elements are written apart: %s' % show(cells[0]))
    if not fams:
        return (False, what, 'the result is not written')
    os_ = [O0, O1][:len(cnt)]
    # the last complete family decides; all must range over the elements of the formula
    last = None
    for q, ivs, v in fams:
        good = None
        if len(ivs) == len(cnt):
            for perm in itertools.permutations(os_):
                m = {iv: add(lo, o) for (iv, lo, hi), o in zip(ivs, perm)}
                if same(T('at', vn.subst(q, m)), T('at', pth), eqs) and all(same(sub(hi, lo), dict(zip(os_, cnt))[o], eqs) for (iv, lo, hi), o in zip(ivs, perm)):
                    good = vn.subst(v, m)
                    break
        if good is None:
            return (False, what, 'elements %s written for %s' % (show(q), ['%s..%s' % (show(a), show(b)) for _, a, b in ivs]))
        last = good
    return (same(last, val, eqs), what, 'element %s is %s, not %s' % (show(pth), show(last)[:200], show(val)[:120]))


def c31(c):
    P = facts.load()
    found = set()
    todo = []
    for fn in sorted(P.funcs.values(), key=lambda f: (f['file'], f['line'])):
        if fn.get('dependent') or '/test/' in fn['file'] or not fn.get('body'):
            continue
        for i, (name, sig, what, spec) in enumerate(FORMULAS):
            ps = fn['params']
            if fn['n'] == name and len(ps) == len(sig) and all(re.fullmatch(r, norm_type(p)) for r, p in zip(sig, ps)):
                todo.append((fn, i))
                found.add(i)
                break
    res = ck.pmap(lambda x: check(x[0], FORMULAS[x[1]][3](*[p.get('n') or '_' for p in x[0]['params']]), P), todo)
    for (fn, i), r in zip(todo, res):
        for ok, what, detail in r:
            c.ob(ok, 'formula of an elementary routine', ck.where(fn, fn['line']), '%s %s: %s' % (fn['n'], FORMULAS[i][2], what), detail)
    c.need(len(found), 25, 'formulas with an implementation')
    c.analysed['routines'] = len(todo)
    c.analysed['without implementation'] = [FORMULAS[i][2] for i in range(len(FORMULAS)) if i not in found]
