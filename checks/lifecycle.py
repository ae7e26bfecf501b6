"""C05: life cycle of manually managed numbers, matrices and buffers."""
import re
import facts, vn, ck
from facts import AnalysisError
from vn import T, show

KINDS = r'((?:__g)?mpz|(?:__g)?mpq|(?:__g)?mpf|mpfr|fmpz|fmpq|fmpz_mat|fmpq_mat|nmod_mat|fmpz_poly|fmpq_poly|nmod_poly|fmpz_mod_poly|fmpz_mod_mat|fmpz_mod_ctx|fmpz_poly_mat|nmod_poly_mat|arb|acb|arf|padic|padic_mat|flint_rand|fmpz_factor|fmpz_poly_factor|fmpz_comb|n_factor)'
INIT = re.compile('^' + KINDS + r'_(init|inits|init2|init3|init_set.*|init_.*|window_init)$')
CLEAR = re.compile('^' + KINDS + r'_(clear|clears|window_clear)$')
FAMILY = {'new': 'delete', 'new[]': 'delete[]', 'malloc': 'free', 'calloc': 'free', 'realloc': 'free', 'strdup': 'free',
          'flint_malloc': 'flint_free', 'flint_calloc': 'flint_free', 'flint_realloc': 'flint_free',
          '_fmpz_vec_init': '_fmpz_vec_clear', '_nmod_vec_init': '_nmod_vec_clear'}
RAW = re.compile(r'(__mpz_struct|__mpq_struct|__mpf_struct|fmpz_mat_struct|nmod_mat_struct|fmpz_poly_struct|nmod_poly_struct|fmpq_mat_struct|fmpq_poly_struct|fmpz_t|mpz_t|fmpz_mat_t|nmod_mat_t|fmpz_poly_t|nmod_poly_t|fmpq_t|fmpq_mat_t)\b')


def norm(p):
    """object path: an array-of-one handle and its first element are the same object"""
    s = p.a[1]
    while s and s[-1][0] == 'i' and s[-1][1] is vn.ZERO and p.a[0].a[0] in ('var', 'par', 'this', 'ptr', 'tmp'):
        s = s[:-1]
    return T('path', p.a[0], s)


class Err(Exception):
    pass


class St:
    """one disjunct: assumed conditions and object states"""
    __slots__ = ('g', 'o')

    def __init__(self, g=frozenset(), o=None):
        self.g, self.o = g, dict(o or {})

    def copy(self):
        return St(self.g, self.o)

    def key(self):
        return frozenset((k, v[1] if v[0] == 'P' else v[0]) for k, v in self.o.items())


def merge(xs):
    """merge disjuncts that agree on every object"""
    by = {}
    for x in xs:
        k = x.key()
        if k in by:
            by[k].g = by[k].g & x.g
        else:
            by[k] = x.copy()
    out = list(by.values())
    if len(out) > 64:
        raise AnalysisError('too many life-cycle states: ' + repr([sorted((show(k), v[0]) for k, v in x.o.items()) for x in out[:4]])[:1500])
    return out


class Walk:
    def __init__(self, fn, I):
        self.fn, self.I = fn, I
        self.bad = {}
        self.ops = 0
        self.objs = set()
        self.escaped = set()
        self.hits = {}
        self.held = {}
        self.find_escapes()
        # ranges of parallel / sequential loops are in Loop.ivs

    def find_escapes(self):
        for e in self.I.events:
            if e.kind in ('write', 'ret') and e.v is not None:
                dst = e.p.a[0].a[0] if e.p is not None else 'ret'
                if dst in ('this', 'par', 'global', 'static', 'ret', 'heap'):
                    for t in vn.subterms(e.v):
                        if t.op == 'addr' and t.a[0].a[0].a[0] == 'heap':
                            if e.p is None or e.p.a[0] is not t.a[0].a[0]:
                                self.escaped.add(t.a[0].a[0])
            if e.kind == 'construct':
                for v in e.argv or []:
                    for t in (vn.subterms(v) if v is not None else ()):
                        if t.op == 'addr' and t.a[0].a[0].a[0] == 'heap' and 'ptr' in (e.q or ''):
                            self.escaped.add(t.a[0].a[0])

    def report(self, rule, e, what, detail):
        self.bad.setdefault((rule, e.where if e is not None else self.fn['file'], what), detail)

    # ---- object lookup
    def loc(self, st, p):
        """(key, state) of the object p belongs to, through element ranges"""
        if p in st.o:
            return p, st.o[p]
        s = p.a[1]
        if s and s[-1][0] == 'i':
            for k, v in st.o.items():
                if k.a[0] is p.a[0] and k.a[1] and k.a[1][-1][0] == 'r' and k.a[1][:-1] == s[:-1]:
                    return k, v
        return p, None

    def holders(self, st, p):
        """tracked objects that contain or equal p"""
        for k, v in list(st.o.items()):
            if k.a[0] is p.a[0] and v[0] != 'P':
                ks, ps = k.a[1], p.a[1]
                if ps[:len(ks)] == ks:
                    yield k, v
                elif ks and ks[-1][0] == 'r' and len(ps) >= len(ks) and ps[:len(ks) - 1] == ks[:-1] and ps[len(ks) - 1][0] == 'i':
                    if vn.T('path', p.a[0], ps[:len(ks)]) not in st.o:
                        yield k, v

    def use(self, st, e, p):
        p = norm(p)
        for k, v in self.holders(st, p):
            if v[0] == 'U':
                self.report('used-before-init', e, show(k), 'used while not initialised')
            elif v[0] == 'D':
                self.report('used-after-release', e, show(k), 'used after being released at %s' % v[1])

    def init(self, st, e, p):
        p = norm(p)
        self.objs.add(p)
        self.ops += 1
        k, v = self.loc(st, p)
        if v is not None and v[0] == 'A' and k == p:
            self.report('initialised-twice', e, show(p), 'initialised again at while alive since %s' % v[1])
        hp = [x for x in self.holders(st, p) if x[0] != p and x[0].a[0].a[0] == 'heap' and not x[0].a[1]]
        for k2, v2 in hp:
            if v2[0] == 'D':
                self.report('used-after-release', e, show(k2), 'element initialised in memory released at %s' % v2[1])
        st.o[p] = ('A', e.where)

    def clear(self, st, e, p):
        p = norm(p)
        self.ops += 1
        self.objs.add(p)
        if p.a[0].a[0] in ('ptr', 'val') or p.a[0].op != 'root':
            self.report('released-unknown', e, show(p), 'the object released cannot be identified: its handle may no longer denote what was acquired')
            return
        k, v = self.loc(st, p)
        if v is None:
            if p.a[0].a[0] in ('par', 'this', 'global', 'static'):
                pass
            else:
                self.report('released-without-init', e, show(p), 'released but never initialised on this path')
        elif v[0] == 'D':
            self.report('released-twice', e, show(p), 'released again after the release at %s' % v[1])
        elif v[0] == 'U':
            self.report('released-without-init', e, show(p), 'released but not initialised on this path')
        st.o[p] = ('D', e.where)

    # ---- local pointer variables: which block they denote now
    def var_of(self, e, node):
        while node is not None and node.get('k') in ('ICast', 'Cast', 'Paren'):
            node = node.get('e')
        if node is None or node.get('k') != 'Ref' or node.get('d') is None:
            return None
        for fr in (None,):
            return node['d'], node.get('n')

    def ptr_key(self, st, d):
        for k, v in st.o.items():
            if v[0] == 'P' and not k.a[1] and k.a[0].a[0] == 'var' and k.a[0].a[2] == d:
                return k
        return None

    def pointers(self, st, e):
        if e.kind == 'write' and e.p is not None and e.p.a[0].a[0] == 'var' and not e.p.a[1] and e.x != 'swap':
            src = None
            nd = e.node or {}
            rhs = nd.get('b') if nd.get('k') == 'Assign' else nd.get('init')
            d = self.var_of(e, rhs)
            if d is not None:
                src = self.ptr_key(st, d[0])
            if src is not None:
                st.o[e.p] = st.o[src]
            elif e.v is not None and e.v.op == 'addr' and e.v.a[0].a[0].a[0] == 'heap' and e.v.a[0].a[1] in ((), (('i', vn.ZERO),)):
                st.o[e.p] = ('P', e.v.a[0].a[0])
            elif e.p in st.o and st.o[e.p][0] == 'P':
                del st.o[e.p]
        elif e.kind == 'call' and vn.short(e.q or '') == 'swap' and e.args and len(e.args) == 2:
            a, b = e.args
            va, vb = st.o.get(a), st.o.get(b)
            if va is not None and vb is not None and va[0] == vb[0] == 'P':
                st.o[a], st.o[b] = vb, va
                return True
        return False

    # ---- events
    def event(self, st, e):
        k = e.kind
        if self.pointers(st, e):
            return
        if k == 'decl':
            p = norm(e.p)
            v = st.o.get(p)
            if v is not None and v[0] == 'A':
                self.report('leak', e, show(p), 'goes out of scope while alive since %s' % v[1])
            st.o.pop(p, None)
            t = ((e.x or {}).get('t') or {})
            ts = (t.get('s') or '') + ' ' + (t.get('c') or '')
            if RAW.search(ts) and not t.get('ptr') and not t.get('ref') and '*' not in (t.get('s') or ''):
                st.o[p] = ('U', e.where)
            return
        if k == 'alloc':
            self.ops += 1
            self.objs.add(e.p)
            old = st.o.get(e.p)
            if old is not None and old[0] == 'A' and e.p.a[0] not in self.escaped:
                self.report('leak', e, show(e.p), 'allocated again while the block of the previous iteration is still alive')
            st.o[e.p] = ('A', e.where, e.q, e.argv[0] if e.argv else e.v)
            for kk in [x for x in st.o if x.a[0] is e.p.a[0] and x.a[1]]:
                del st.o[kk]
            return
        if k == 'free':
            self.ops += 1
            p = e.p
            if p is None or p.a[0].a[0] not in ('heap', 'par', 'this', 'global', 'static'):
                nd = e.node or {}
                d = self.var_of(e, nd.get('e') if nd.get('k') == 'Delete' else (nd.get('a') or [None])[0])
                src = self.ptr_key(st, d[0]) if d is not None else None
                if src is not None:
                    p = T('path', st.o[src][1], (('i', vn.ZERO),))
            if p is None and e.argv and e.argv[0] is not None and vn.const(e.argv[0]) == 0:
                return
            if p is None or p.a[0].a[0] != 'heap':
                r = p.a[0].a[0] if p is not None else None
                if r in ('par', 'this', 'global', 'static'):
                    return
                self.report('released-unknown', e, show(p) if p is not None else '?', 'the block released cannot be identified')
                return
            sl = p.a[1]
            if sl and not (len(sl) == 1 and sl[0][0] == 'i' and sl[0][1] is vn.ZERO):
                self.report('released-unknown', e, show(p), 'released through a pointer into the middle of the block')
            p = T('path', p.a[0], ())
            v = st.o.get(p)
            if v is None:
                self.report('released-without-init', e, show(p), 'released but not allocated on this path')
            elif v[0] == 'D':
                self.report('released-twice', e, show(p), 'released again after the release at %s' % v[1])
            else:
                want = FAMILY.get(v[2])
                if want is not None and want != e.q:
                    self.report('released-wrongly', e, show(p), 'acquired with %s but released with %s' % (v[2], e.q))
                if e.q == '_fmpz_vec_clear' and len(e.argv) > 1 and v[3] is not e.argv[1]:
                    self.report('released-wrongly', e, show(p), 'acquired with length %s, released with length %s' % (show(v[3]), show(e.argv[1])))
                for kk, vv in st.o.items():
                    if kk.a[0] is p.a[0] and kk.a[1] and vv[0] == 'A':
                        self.report('leak', e, show(kk), 'memory released while an element initialised at %s is still alive' % vv[1])
            st.o[p] = ('D', e.where)
            return
        if k == 'call':
            nm = vn.short(e.q or '')
            if INIT.match(nm):
                many = nm.endswith('inits')
                ps = [(e.args or [None])[0]] if not many else [x for x in e.args if x is not None]
                if nm == 'nmod_init':
                    return
                for i, p in enumerate(e.args or []):
                    if p is not None and p not in ps and not many:
                        self.use(st, e, p)
                for p in ps:
                    if p is not None:
                        self.init(st, e, p)
                return
            if CLEAR.match(nm):
                ps = [(e.args or [None])[0]] if not nm.endswith('clears') else [x for x in e.args if x is not None]
                for p in ps:
                    if p is not None:
                        self.clear(st, e, p)
                return
            for p in e.args or []:
                if p is not None:
                    self.use(st, e, p)
            if e.objp is not None:
                self.use(st, e, e.objp)
            return
        if k in ('read', 'write') and e.p is not None and not (k == 'write' and e.x in ('extern', 'init', 'swap')):
            if e.p in st.o and st.o[e.p][0] == 'P':
                return
            self.use(st, e, e.p)

    # ---- structure; a result is {'n': states, 'b': , 'c': , ('r', id): }
    def node(self, nd, xs):
        if not xs:
            return {'n': []}
        k = nd.kind
        if k in ('seq', 'crit'):
            return self.seq(nd, xs)
        if k == 'par':
            return self.seq(nd, xs)
        if k == 'ev':
            e = nd.info
            out = {'n': []}
            for x in xs:
                self.event(x, e)
                if e.kind == 'break':
                    out.setdefault('b', []).append(x)
                elif e.kind == 'continue':
                    out.setdefault('c', []).append(x)
                elif e.kind == 'iret':
                    out.setdefault(('r', e.x), []).append(x)
                elif e.kind == 'ret':
                    out.setdefault('ret', []).append((x, e))
                elif e.kind == 'abort':
                    pass
                else:
                    out['n'].append(x)
            return out
        if k == 'inl':
            r = self.seq(nd, xs)
            got = r.pop(('r', nd.info[1]), [])
            done = r['n'] + got
            for x in done:
                for kk, v in list(x.o.items()):
                    rt = kk.a[0].a
                    if v[0] == 'P' and rt[0] == 'var' and rt[1] == nd.info[1]:
                        del x.o[kk]
                    elif v[0] == 'A' and rt[0] == 'var' and rt[1] == nd.info[1]:
                        self.bad.setdefault(('leak', v[1], show(kk)), 'still alive when %s returns' % nd.info[0]['qn'])
                        del x.o[kk]
                    elif v[0] != 'A' and v[0] != 'P' and (rt[0] == 'var' and rt[1] == nd.info[1] or rt[0] == 'heap' and rt[1] == nd.info[0]['qn'] and kk.a[0] not in self.escaped):
                        del x.o[kk]
            r['n'] = merge(done)
            return r
        if k == 'alt':
            c = nd.info[0] if nd.info else None
            out = {'n': []}
            for i, br in enumerate(nd.ch):
                cc = br.info
                ys = []
                for x in xs:
                    if isinstance(cc, T):
                        if vn.lnot(cc) in x.g or vn.const(cc) == 0:
                            continue
                        y = x.copy()
                        y.g = x.g | {cc}
                    else:
                        y = x.copy()
                    ys.append(y)
                r = self.node(br, ys)
                for kk, v in r.items():
                    out.setdefault(kk, []).extend(v)
            if len(nd.ch) == 1:
                pass
            out['n'] = merge(out['n'])
            return out
        if k == 'loop':
            return self.loop(nd, xs)
        raise AnalysisError('tree node ' + k)

    def seq(self, nd, xs):
        out = {'n': xs}
        for c in nd.ch:
            if not out['n']:
                break
            r = self.node(c, out['n'])
            out['n'] = r.pop('n')
            for kk, v in r.items():
                out.setdefault(kk, []).extend(v)
        return out

    def loop(self, nd, xs):
        L = nd.info
        body = vn.Node('seq')
        body.ch = nd.ch
        res = {'n': []}
        after = []
        ivs = set(L.ivs)
        iters = 3
        entry = merge([x.copy() for x in xs])
        zero = [x.copy() for x in entry]
        cur = entry
        seen = set(x.key() for x in cur)
        acc = []
        for it in range(iters):
            r = self.seq(body, [x.copy() for x in cur])
            for kk, v in r.items():
                if kk not in ('n', 'b', 'c'):
                    res.setdefault(kk, []).extend(v)
            for x in r.get('b', []):
                after.append(self.close(x, L, ivs))
            outs = [self.close(x, L, ivs) for x in r['n'] + r.get('c', [])]
            outs = merge(outs)
            acc += outs
            new = [x for x in outs if x.key() not in seen]
            # one more round over the element ranges is not a second visit
            stripped = []
            for x in new:
                y = x.copy()
                for k in list(y.o):
                    if k in self.hits.get(L.id, ()):
                        z = [q for q in entry if k in q.o]
                        if z:
                            y.o[k] = z[0].o[k]
                        else:
                            del y.o[k]
                stripped.append(y)
            stripped = [x for x in merge(stripped) if x.key() not in seen]
            if not stripped:
                break
            seen |= set(x.key() for x in stripped)
            cur = stripped
        # zero iterations: a range without elements is in any state; take the body's
        ranged = {}
        for x in acc:
            for k, v in x.o.items():
                if k in self.hits.get(L.id, ()):
                    ranged[k] = v
        for x in zero:
            for k, v in ranged.items():
                x.o[k] = v
        always = L.kind == 'Do' or self.runs(L)
        res['n'] = merge(([] if always and acc else zero) + acc + after)
        return res

    def runs(self, L):
        for iv, d in L.ivs.items():
            lo, hi = d[0], d[1]
            if lo is not None and hi is not None and vn.const(vn.lt(lo, hi)) == 1:
                return True
        return False

    def close(self, x, L, ivs):
        """leave loop L: element states become range states, conditions on the iteration are forgotten"""
        y = St()
        loc = set(ivs)
        y.g = frozenset(c for c in x.g if not self.mentions(c, L))
        for k, v in sorted(x.o.items(), key=lambda kv: bool(kv[0].a[1]) and kv[0].a[1][-1][0] == 'i'):
            sel = k.a[1]
            hit = [i for i, s in enumerate(sel) if s[0] == 'i' and any(t in loc for t in vn.subterms(s[1]))]
            if hit and hit[-1] == len(sel) - 1:
                iv = sel[-1][1]
                d = L.ivs.get(iv)
                if d is None:
                    # affine in the iv: iv + c
                    for t in vn.subterms(iv):
                        if t in loc:
                            off = vn.sub(iv, t)
                            if not any(u in loc for u in vn.subterms(off)):
                                dd = L.ivs[t]
                                if dd[0] is not None and dd[1] is not None and dd[2] == 1:
                                    d = (vn.add(dd[0], off), vn.add(dd[1], off), 1)
                if d is None or d[0] is None or d[1] is None:
                    raise AnalysisError('elements of %s handled with an index that is not understood' % show(k))
                lo, hi = d[0], d[1]
                if d[2] == -1:
                    lo, hi = d[0], d[1]
                rk = T('path', k.a[0], sel[:-1] + (('r', lo, hi, L.id),))
                same = [q for q in x.o if q.a[0] is k.a[0] and q.a[1] and q.a[1][-1][0] == 'r' and q.a[1][:-1] == sel[:-1]]
                other = [q for q in same if q.a[1][-1][1] is lo and q.a[1][-1][2] is hi]
                for q in other:
                    rk = q
                if v[0] == 'D' and not other:
                    al = [q for q in same if x.o[q][0] == 'A']
                    for q in al:
                        self.report('leak', None, show(q), 'elements [%s,%s) were initialised at %s but only [%s,%s) are released at %s' % (
                            show(q.a[1][-1][1]), show(q.a[1][-1][2]), x.o[q][1], show(lo), show(hi), v[1]))
                    if al:
                        rk = al[0]
                y.o[rk] = v
                self.hits.setdefault(L.id, set()).add(rk)
            elif hit:
                raise AnalysisError('nested element state %s' % show(k))
            else:
                if k not in y.o:
                    y.o[k] = v
        return y

    def mentions(self, c, L):
        for t in vn.subterms(c):
            if t in L.ivs or (t.op in ('iv', 'ekey', 'lp') and t.a[0] == L.id):
                return True
        return False

    def run(self):
        r = self.node(self.I.tree, [St()])
        ends = [(x, None) for x in r['n']] + r.get('ret', [])
        for x, e in ends:
            for k, v in x.o.items():
                if v[0] != 'A':
                    continue
                rt = k.a[0].a[0]
                if rt in ('par', 'this', 'global', 'static', 'ptr'):
                    continue
                if k.a[0] in self.escaped:
                    continue
                self.bad.setdefault(('leak', v[1], show(k)), 'still alive when %s returns%s' % (self.fn['qn'], (' at line %s' % e.line) if e is not None else ''))
        return self


def analyse(args):
    u = args
    P = facts.load()
    fn = P.funcs[u]
    I = vn.Interp(P, reads=True).run(fn)
    w = Walk(fn, I)
    try:
        w.run()
    except AnalysisError:
        if not w.bad:
            raise
    return [(k, v) for k, v in w.bad.items()], w.ops, sorted(show(o) for o in w.objs), fn['qn'], ck.where(fn, fn['line'])


def uses_raw(P, f, memo):
    """does f (transitively) manage raw objects"""
    u = f['usr']
    if u in memo:
        return memo[u]
    memo[u] = False
    r = False
    for n in facts.walk(f['body']):
        if n['k'] in ('New', 'Delete'):
            r = True
        elif n['k'] == 'Call':
            nm = vn.short(n.get('q') or '')
            if INIT.match(nm) and nm != 'nmod_init' or CLEAR.match(nm) or nm in FAMILY or nm in FAMILY.values():
                r = True
        elif n['k'] == 'Decl':
            for v in n['v']:
                t = v.get('t') or {}
                if RAW.search((t.get('s') or '') + ' ' + (t.get('c') or '')):
                    r = True
    if not r:
        for n in facts.walk(f['body']):
            if n['k'] in ('Call', 'Ctor'):
                g = P.callee(n)
                if g is not None and not g.get('dependent') and ((g.get('ret') or {}).get('ptr') or '*' in ((g.get('ret') or {}).get('s') or '')) and uses_raw(P, g, memo):
                    r = True
    memo[u] = r
    return r


def c05(c):
    P = facts.load()
    memo = {}
    todo = [u for u, f in sorted(P.funcs.items()) if not f.get('dependent') and uses_raw(P, f, memo)]
    c.need(len(todo), 12, 'functions handling raw objects')
    tot = 0
    seen = set()
    for bad, ops, objs, qn, where in ck.pmap(analyse, todo):
        tot += ops
        c.ob(not bad, 'lifecycle', where, qn, '%d life-cycle operations on %d objects' % (ops, len(objs)) if not bad else '; '.join('%s %s: %s' % (k[0], k[2][:60], v) for k, v in bad)[:600],
             key='lifecycle|%s|%s' % (qn, ';'.join(sorted(set(k[0] for k, v in bad)))))
    c.need(tot, 120, 'life-cycle operations')
