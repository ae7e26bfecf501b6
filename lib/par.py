"""Parallel regions: which events run in them, which objects are thread-local."""
import facts, vn
from vn import T, show, subterms, pkey, prefix, may_alias, const, sub, _poly

vn.CANON_FIELD['dR_ND'] = 'dR'


def par_functions(P):
    out = []
    for f in P.funcs.values():
        if f.get('dependent'):
            continue
        if any(n['k'] == 'OMP' and 'parallel' in n['dir'] for n in facts.walk(f['body'])):
            out.append(f)
    return sorted(out, key=lambda f: (f['file'], f['line']))


def chain(par):
    while par is not None:
        yield par
        par = par.parent


def in_region(e, R):
    return any(p is R for p in chain(e.par))


class Region:
    def __init__(self, I, R):
        self.I, self.R = I, R
        self.ev = [e for e in I.events if e.par is not None and in_region(e, R)]
        self.decls = set()
        for e in self.ev:
            if e.kind == 'decl' and e.p is not None and not e.p.a[1]:
                self.decls.add(e.p.a[0])
        self.private = set(R.private)
        self.parivs = {}
        self.loops = set()
        for e in self.ev:
            for L in e.loops:
                self.loops.add(L)
        pr = [e.par for e in self.ev]
        inner = set(id(p) for p in pr)
        for L in self.loops:
            if L.par is not None and any(p is R for p in chain(L.par)):
                # a worksharing loop of this region (not one of a nested parallel region)
                nested = [p for p in chain(L.par) if p is not R and 'parallel' in p.node['dir']]
                own = L.par is R or all('parallel' not in p.node['dir'] or p is R for p in self.upto(L.par))
                if own:
                    for iv, b in L.ivs.items():
                        self.parivs[iv] = L
                        if len(b) > 3 and b[3] is not None:
                            self.private.add(b[3].a[0])
        self.ptrs = {}
        for e in I.events:
            if e.kind == 'write' and e.p is not None and e.p.a[0].a[0] == 'var' and not e.p.a[1] and e.v is not None:
                self.ptrs.setdefault(e.p, set()).add(e.v)
            elif e.kind == 'decl' and e.p is not None and e.v is not None:
                self.ptrs.setdefault(e.p, set()).add(e.v)

    def upto(self, par):
        for p in chain(par):
            if p is self.R:
                return
            yield p

    # -- locality
    def local_root(self, r, depth=0, seen=()):
        """is the object named by root r created by the executing thread inside the region?"""
        nframe, nheap, nfresh, nloop = self.R.marks
        k = r.a[0]
        if k == 'var':
            return r.a[1] > nframe or r in self.decls or r in self.private
        if k == 'heap':
            return r.a[2] > nheap
        if k == 'tmp':
            return r.a[1] > nfresh
        if k in ('val',):
            # an element of a computed value: a temporary
            return True
        if k == 'ptr':
            return self.local_val(r.a[1], depth + 1, seen)
        return False

    def local_val(self, v, depth=0, seen=()):
        """does pointer value v point to memory owned by a thread-local object?"""
        if depth > 16:
            return False
        if v.op == 'addr':
            return self.local_root(v.a[0].a[0], depth, seen)
        if v.op == 'rd':
            return self.local_root(v.a[0].a[0], depth, seen)
        if v.op in ('lp', 'lx'):
            p = v.a[1]
            if p in seen:
                return True                       # everything else it may hold is being checked
            if not self.local_root(p.a[0], depth, seen):
                return False
            vals = self.ptrs.get(p, ())
            return bool(vals) and all(self.local_val(x, depth + 1, seen + (p,)) for x in vals)
        if v.op == 'ite':
            return self.local_val(v.a[1], depth + 1, seen) and self.local_val(v.a[2], depth + 1, seen)
        ptrs = [x for x in subterms(v) if x.op == 'addr']
        if ptrs:
            return all(self.local_root(x.a[0].a[0], depth, seen) for x in ptrs)
        return v.op == 'fresh'

    def variant(self, t):
        """may the value of t differ between threads?"""
        nframe, nheap, nfresh, nloop = self.R.marks
        for x in subterms(t):
            if x in self.parivs:
                return True
            if x.op in ('iv', 'lp', 'lx', 'ekey') and x.a[0] > nloop:
                return True
        return False

    # -- partition of an index by the worksharing loop
    def owned_index(self, t):
        """(iv, stride, reason) if index t addresses memory of one iteration only"""
        for iv, L in self.parivs.items():
            co, rest = coeff(t, iv)
            if co is None or const(co) == 0:
                continue
            if any(x in self.parivs for x in subterms(rest)):
                continue
            if const(co) is not None:
                if not self.variant(rest):
                    return (iv, co, rest)
                lo, hi = self.bounds(rest)
                if lo is not None and hi is not None and nonneg(lo) and nonpos(sub(hi, co)):
                    return (iv, co, None)
                continue
            if self.variant(co):
                continue
            if const(rest) == 0:
                return (iv, co, None)
            lo, hi = self.bounds(rest)
            if lo is not None and nonneg(lo) and hi is not None and nonpos(sub(hi, co)):
                return (iv, co, None)
        return None

    def dims(self, t):
        """a FLINT matrix dimension, replaced by the value every matrix of that array was initialised with"""
        m = {}
        for x in subterms(t):
            if x.op == 'call' and isinstance(x.a[0], str) and x.a[0].endswith(('_mat_ncols', '_mat_nrows')):
                ad = [y for y in x.a[1:] if isinstance(y, T) and y.op == 'addr']
                if len(ad) != 1:
                    continue
                rt = ad[0].a[0].a[0]
                k = 2 if x.a[0].endswith('ncols') else 1
                vals = set()
                for e in self.I.events:
                    if e.kind == 'call' and vn.short(e.q or '') == x.a[0][:-6] + '_init' and e.argv and e.argv[0] is not None \
                            and e.argv[0].op == 'addr' and e.argv[0].a[0].a[0] is rt:
                        vals.add(e.argv[k])
                if len(vals) == 1:
                    m[x] = vals.pop()
        return vn.subst(t, m) if m else t

    def bounds(self, t):
        """[lo, hi) of t when it is a single induction variable (plus a constant)"""
        if const(t) is not None:
            return t, vn.add(t, vn.ONE)
        ivs = [x for x in subterms(t) if x.op == 'iv']
        if len(ivs) == 1:
            co, rest = coeff(t, ivs[0])
            if co is not None and const(co) == 1 and const(rest) is not None:
                for L in self.loops:
                    b = L.ivs.get(ivs[0])
                    if b is not None and b[0] is not None and b[1] is not None:
                        return vn.add(b[0], rest), vn.add(self.dims(b[1]), rest)
        return None, None


def nonneg(t):
    c = const(t)
    return c is not None and c >= 0


def nonpos(t):
    c = const(t)
    return c is not None and c <= 0


def coeff(t, iv):
    """t = co*iv + rest with iv absent from co and rest, else (None, None)"""
    d = _poly(t)
    co, rest = {}, {}
    for mono, k in d.items():
        c = [x for x in mono if x is iv]
        if len(c) == 0:
            if any(any(y is iv for y in subterms(x)) for x in mono):
                return None, None
            rest[mono] = k
        elif len(c) == 1:
            m = tuple(x for x in mono if x is not iv)
            if any(any(y is iv for y in subterms(x)) for x in m):
                return None, None
            co[m] = co.get(m, 0) + k
        else:
            return None, None
    return vn._mk(co), vn._mk(rest)


# ------------------------------------------------------------------ caches
def no_max(fn, I=None):
    return fn['n'] != 'max'


class Caches:
    """What the code before region R has certainly stored in shared caches."""

    DOMAIN = {'reduction_matrix_J_dict': 'd', 'reduction_matrix_J_ZZ_dict': 'd', 'inclusion_matrix_J_dict': 'n',
              'reduction_matrix_ND_dict': 'd', 'reduction_matrix_ND_ZZ_dict': 'd', 'reduction_matrix_ND_poly_dict': 'd',
              'reduction_matrix_ND_poly_ZZ_dict': 'd', 'inclusion_matrix_ND_dict': 'd', 'coKernels_ND_to_basis_dict': 'd'}
    POSITIVE = {'inclusion_matrix_ND_dict', 'coKernels_ND_to_basis_dict'}

    def __init__(self, I, R):
        self.I, self.R = I, R
        self.pre = I.events[:R.start]
        self.asserted = set()
        for e in I.events:
            if e.kind == 'assert' and e.v is not None:
                self.asserted.add(e.v)
                if e.v.op == 'and':
                    self.asserted.update(e.v.a)
        self.memo = {}
        self.why = {}

    def miss(self, g):
        """(container path, key) of a cache-miss guard"""
        if g.op == 'isend':
            return g.a[0], g.a[1]
        if g.op == 'eq0' and g.a[0].op == 'call' and g.a[0].a[0] == 'count':
            return None
        return None

    def threads_guard(self, g):
        """holds whenever the region runs with two or more threads"""
        calls = [x for x in subterms(g) if x.op == 'call' and x.a[0] in ('omp_get_max_threads', 'omp_get_num_threads', 'omp_get_num_procs')]
        if not calls:
            return None
        for k in (2, 3, 4, 7, 8, 64):
            if const(vn.subst(g, {c: vn.num(k) for c in calls})) != 1:
                return False
        return True

    def loop_full(self, L, key, C):
        """the loop ranges over the complete list of the keys of C"""
        want = self.DOMAIN.get(C.a[1][-1][1]) if C.a[1] and C.a[1][-1][0] == 'f' else None
        for iv, b in L.ivs.items():
            if not any(x is iv for x in subterms(key)):
                continue
            if key.op != 'rd':
                return False, 'key is not an element of a list'
            p = key.a[0]
            sel = p.a[1]
            if not sel or sel[-1][0] != 'i' or sel[-1][1] is not iv:
                return False, 'key is not the element of the loop index'
            lst = vn.P(p.a[0], *sel[:-1])
            if const(b[0]) != 0 or abs(b[2] or 0) != 1 or b[1] is None or b[1].op != 'len' or b[1].a[0] is not lst:
                return False, 'the loop %s does not cover the whole list %s' % (L, show(lst))
            if want is not None:
                if len(sel) < 2 or sel[-2][0] != 'i':
                    return False, 'keys do not come from a table of monomials'
                x = sel[-2][1]
                if not (x.op == 'rd' and x.a[0].a[1] and x.a[0].a[1][-1] == ('f', want)):
                    return False, 'keys of degree %s, not %s' % (show(x), want)
            return True, ''
        if L.elem is not None:
            cp, el = L.elem
            if any(x is el for x in subterms(key)):
                if want is not None:
                    sel = cp.a[1]
                    x = sel[-1][1] if sel and sel[-1][0] == 'i' else None
                    if x is None or not (x.op == 'rd' and x.a[0].a[1] and x.a[0].a[1][-1] == ('f', want)):
                        return False, 'keys do not come from the table of degree %s' % want
                return True, ''
        return None, ''

    def positive_ok(self, g, key):
        """g, computed by a loop over the components of key, says: every component is positive.
        True / False / None (shape not recognised)"""
        ls = {x.a[0] for x in subterms(g) if x.op in ('lx', 'lp')}
        found = False
        for e in self.pre:
            for L in e.loops:
                if L.id not in ls:
                    continue
                terms = list(e.g) + ([e.v] if e.v is not None else [])
                for t in terms:
                    for x in subterms(t):
                        if x.op not in ('lt0', 'eq0'):
                            continue
                        for r in subterms(x):
                            if r.op == 'rd' and r.a[0].a[1] and r.a[0].a[1][-1][0] == 'i' and key.op == 'rd' and prefix(key.a[0], r.a[0]) \
                                    and r.a[0] is not key.a[0]:
                                iv = r.a[0].a[1][-1][1]
                                b = L.ivs.get(iv)
                                ok = x in (vn.lt(vn.ZERO, r), vn.lt(r, vn.ONE), vn.eq(r, vn.ZERO))
                                if b is None or const(b[0]) != 0 or b[1] is None:
                                    return None
                                n1 = vn.sub(b[1], vn.ONE)
                                full = b[1].op == 'len' or (n1.op == 'rd' and n1.a[0].a[1] and n1.a[0].a[1][-1] == ('f', 'n'))
                                if not ok or not full:
                                    return False
                                found = True
        return True if found else None

    def residual(self, e, C, key):
        """guards of prefill event e that restrict which keys it stores; None when it cannot count"""
        out = []
        loops = [L for L in e.loops if L not in self.outer()]
        full = {}
        covered = not any(x.op in ('iv', 'ekey') for x in subterms(key)) if key is not None else True
        for L in loops:
            if key is not None:
                ok, why = self.loop_full(L, key, C)
                if ok is False:
                    self.why[C] = why
                    return None
                if ok:
                    covered = True
                    full[L] = True
                    continue
            full[L] = False
        if not covered:
            self.why[C] = 'keys %s are not enumerated by a loop' % show(key)[:80]
            return None
        drop = {L.cond for L in loops if L.cond is not None}
        for L in loops:
            for iv, b in L.ivs.items():
                if b[1] is not None:
                    drop.add(vn.lt(iv, b[1]))
        for g in e.g:
            if g in self.R.g or g in drop or g in self.asserted:
                continue
            m = self.miss(g)
            if m and m[0] is C and (key is None or m[1] is key):
                continue
            t = self.threads_guard(g)
            if t is True:
                continue
            if t is False:
                self.why[C] = 'prefill only under %s' % show(g)
                return None
            if key is None and g.op == 'lt0' and any(x.op == 'len' and x.a[0] is C for x in subterms(g)):
                continue
            name = C.a[1][-1][1] if C.a[1] and C.a[1][-1][0] == 'f' else None
            if name in self.POSITIVE or name not in self.DOMAIN:
                r = self.positive_ok(g, key) if key is not None else None
                if r is False:
                    self.why[C] = 'prefill skips keys the workers use: %s' % show(g)[:120]
                    return None
                if r is True:
                    continue
                if any(x.op in ('lx', 'lp') for x in subterms(g)):
                    continue
            out.append(g)
        return out

    def outer(self):
        return set(self.I.events[self.R.start].loops) & set(self.pre[-1].loops if self.pre else ()) if self.R.start < len(self.I.events) else set()

    def stores(self, C):
        out = []
        for e in self.pre:
            if e.kind == 'mapindex' and e.p is C and e.v is not None:
                out.append((e, e.v))
            elif e.kind == 'write' and e.p is C and e.x in ('insert', 'emplace'):
                k = e.argv[0] if e.argv else None
                if k is not None:
                    out.append((e, k))
        return out

    def prefilled(self, C):
        if C not in self.memo:
            self.memo[C] = self._prefilled(C)
        return self.memo[C]

    def _prefilled(self, C):
        sets = []
        for e, k in self.stores(C):
            r = self.residual(e, C, k)
            if r is not None:
                sets.append((e, k, r))
        if not sets:
            self.why.setdefault(C, 'nothing is stored in it before the region')
            return False
        if not tautology([r for _, _, r in sets]):
            self.why[C] = 'stored before the region only under %s' % '; '.join(' && '.join(show(g)[:80] for g in r) for _, _, r in sets)[:300]
            return False
        for e in self.pre:
            if e.kind == 'write' and e.p is C and e.x in ('erase', 'clear', 'swap', 'write'):
                ms = [g for g in e.g if self.miss(g) and self.miss(g)[0] is C]
                ok = False
                for g in ms:
                    earlier = [r for e2, _, r in sets if e2.n < e.n and g not in e2.g]
                    ok = ok or (earlier and tautology(earlier))
                if not ok:
                    self.why[C] = 'entries are removed again before the region (%s)' % e.where
                    return False
        return True

    def grown(self, C, need, facts_):
        """the sequence C already has at least `need` elements when the region starts"""
        for e in self.pre:
            if e.kind != 'write' or e.p is not C:
                continue
            r = self.residual(e, C, None)
            if r is None or r:
                continue
            for g in e.g:
                if g.op != 'lt0':
                    continue
                ln = [x for x in subterms(g) if x.op == 'len' and x.a[0] is C]
                if len(ln) != 1:
                    continue
                co, rest = coeff(g.a[0], ln[0])
                if co is None or const(co) != 1:
                    continue
                have = vn.neg(rest)
                if self.at_most(need, have, facts_):
                    return True
                self.why[C] = 'grown to %s before the region, a worker may need %s' % (show(have)[:100], show(need)[:100])
        self.why.setdefault(C, 'not grown before the region')
        return False

    def at_most(self, a, b, facts_):
        d = sub(a, b)
        c = const(d)
        if c is not None:
            return c <= 0
        for g in facts_:
            if g.op == 'lt0':
                c = const(sub(d, g.a[0]))       # g: t<0, d = t + c, t <= -1
                if c is not None and c <= 1:
                    return True
        # an element of a vector is at most its maximum
        for x in subterms(d):
            if x.op == 'call' and x.a[0] == 'max':
                co, rest = coeff(d, x)
                if co is not None and const(co) == -1:
                    vec = [y.a[0] for y in x.a[1:] if isinstance(y, T) and y.op in ('rd', 'addr')]
                    for mono, k in _poly(rest).items():
                        if k == 1 and len(mono) == 1 and mono[0].op == 'rd' and any(prefix(v, mono[0].a[0]) for v in vec):
                            c = const(sub(rest, mono[0]))
                            if c is not None and c <= 0:
                                return True
        return False

    def excluded(self, e):
        """event e cannot happen in the region because a miss it is guarded by cannot happen"""
        for g in e.g:
            if g in self.R.g:
                continue
            m = self.miss(g)
            if m and self.prefilled(m[0]):
                return 'miss of %s is impossible: prefilled' % show(m[0])
            if g.op == 'lt0':
                for x in subterms(g):
                    if x.op == 'len' and x.a[0].op == 'path' and x.a[0].a[0].a[0] not in ('tmp', 'val'):
                        co, rest = coeff(g.a[0], x)
                        if co is not None and const(co) == 1 and self.grown(x.a[0], vn.neg(rest), e.g):
                            return '%s already has the %s elements' % (show(x.a[0]), show(vn.neg(rest))[:60])
        return None


def tautology(clauses):
    """is the disjunction of the conjunctions a tautology?"""
    atoms = []
    for c in clauses:
        for g in c:
            a = g.a[0] if g.op == 'not' else g
            if a not in atoms:
                atoms.append(a)
    if any(not c for c in clauses):
        return True
    if len(atoms) > 12:
        return False
    for m in range(1 << len(atoms)):
        val = {a: bool(m >> i & 1) for i, a in enumerate(atoms)}
        if not any(all((not val[g.a[0]]) if g.op == 'not' else val[g] for g in c) for c in clauses):
            return False
    return True
