"""C28: the reduction step and its repetitions are evaluated as their defining polynomial."""
import facts, vn, ck, alg, differences
from vn import T, num, add, sub, ONE, ZERO, show
from gate import local, called, cargs
from moduli import sig
from alg import Sum, Mono, cst, scal, word, ints

TABLES = {}
for _n, _d in (('compute_reduction_matrix_J', 1), ('compute_reduction_matrix_ND', 1), ('compute_reduction_matrix_ND_poly', 1)):
    TABLES[_n] = TABLES[_n + '_ZZ'] = _d

THIS = lambda n: T('path', T('root', 'this'), (('f', n),))
N = THIS('n')
B = T('bv', 'e')
I_ = T('bv', 'i')


def table(fn, v):
    """compute_...(v)->second"""
    return T('path', T('root', 'ptr', T('call', fn, THIS_, v)), (('i', ZERO), ('f', 'second')))


THIS_ = T('path', T('root', 'this'), ())


def at(p, *i):
    return T('path', p.a[0], p.a[1] + tuple(('i', x) for x in i))


def entry(tab, k, how='k'):
    return T('path', tab.a[0], tab.a[1] + ((how, k),))


class Reading(alg.Algebra):
    """names tables over the integers and over residues alike"""
    def clean(self, t):
        x = super().clean(t)
        if isinstance(x, T) and x.op == 'call' and called(x) in TABLES:
            return T('call', called(x).replace('_ZZ', ''), *x.a[1:])
        return x

    def E(self, t):
        if t.op == 'call' and called(t).replace('_ZZ', '') in ('get_reduction_matrix_J', 'get_reduction_matrix_ND'):
            a = [x for x in cargs(t) if x.op != 'fresh']
            if len(a) == 3:
                u, v = self.clean(a[1]), self.clean(a[2])
                if all(x.op == 'path' for x in (u, v)):
                    return (single_j if called(t).replace('_ZZ', '').endswith('_J') else single_nd)(u, v)
        return super().E(t)


def single_j(u, v, shift=None):
    """M_0 + Sum_i (u_i + x v_i) M_{i+1}"""
    tab = table('compute_reduction_matrix_J', v)
    c = scal(at(u, I_))
    if shift is not None:
        c = c + ints(shift) * scal(at(v, I_))
    return word(entry(tab, ZERO, 'i')) + (c * word(entry(tab, add(I_, ONE), 'i'))).bind((I_, ZERO, add(N, ONE)))


def monomial(u, k):
    return scal(T('prod', ZERO, add(N, ONE), T('pow', at(u, T('bv', 'p')), T('sel', k, (('i', T('bv', 'p')),)))))


def single_nd(u, v):
    tab = table('compute_reduction_matrix_ND', v)
    return (monomial(u, B) * word(entry(tab, B))).bind((B, tab))


def power_of(k):
    return T('sel', k, (('i', add(N, ONE)),))


def shifted_nd(u, v, x):
    """Sum_e x^(e_{n+1}) u^e M_e"""
    tab = table('compute_reduction_matrix_ND_poly', v)
    return (scal(x, power_of(B)) * monomial(u, B) * word(entry(tab, B))).bind((B, tab))


def coefficient_nd(u, v):
    tab = table('compute_reduction_matrix_ND_poly', v)
    return (monomial(u, B) * word(entry(tab, B))).guard(('eq', alg.K, power_of(B))).bind((B, tab))


def degree(k):
    """the guard 'the degree of k in all its variables is n+1'"""
    s = (scal(T('sel', k, (('i', I_),)))).bind((I_, ZERO, add(N, num(2)))) - ints(add(N, ONE))
    a, b = alg.asterm(s), alg.asterm(s.scale(-1))
    return ('zero', min(a, b, key=show))


def first_row_only(d):
    """matrices of the highest degree n+1 have a single non-zero row, the first"""
    out = {}
    unit, row = T('unit', ZERO), T('row', ZERO)
    for m, c in d.items():
        w = list(m.w)
        i = 0
        while i + 1 < len(w):
            if w[i].op == 'row' and w[i + 1].op == 'unit':
                if w[i].a[0] is w[i + 1].a[0]:
                    del w[i:i + 2]
                    i = max(0, i - 1)
                    continue
            i += 1
        g = m.g
        for j in range(len(w) - 2):
            if w[j] is unit and w[j + 1] is row and w[j + 2].op == 'path' and w[j + 2].a[1] and w[j + 2].a[1][-1][0] == 'k':
                k = w[j + 2].a[1][-1][1]
                top = ('in', power_of(k), add(N, ONE), add(N, num(2)))
                if degree(k) in g or top in g:
                    del w[j:j + 2]
                    break
        m = Mono(m.b, g, m.s, w)
        out[m] = out.get(m, 0) + c
    return out


def all_powers(d):
    """exponents of x range from 0 to n+1"""
    out = {}
    for m, c in d.items():
        g = set(m.g)
        for b in m.b:
            x = ('in', power_of(b[0]), ZERO, add(N, num(2)))
            if x in g:
                g.discard(x)
        m = Mono(m.b, g, m.s, m.w)
        out[m] = out.get(m, 0) + c
    return out


def rules_nd(d):
    return all_powers(alg.merge(first_row_only(d)))


rules_nd.__name__ = 'nd'
RULES = (rules_nd,)
FULL = {'len(this.coKernels_ND_basis,0)', 'len(this.coKernels_J_basis,0)'}
ARRAYS = {'(1+this.n)', '(2+this.n)'}


def iterated(step, it, G, x):
    t = T('bv', 't')
    A = step(sub(sub(it, ONE), t))
    return T('iterate', it, alg.freeze(A, RULES)), alg.canonical(A, RULES)


def roles(f):
    vecs = [p['n'] for p in f['params'] if alg.shape(p['t']['c']) == (0, False) and 'Vec<long>' in p['t']['c'].replace('NTL::', '')]
    ints_ = [p['n'] for p in f['params'] if p['t'].get('int') and not p['t'].get('ref')]
    obj = [p for p in f['params'] if alg.shape(p['t']['c'])[1]]
    res = [p['n'] for p in obj if p['t'].get('ref') and not p['t'].get('cref') or '*' in p['t']['c'] and 'const' not in p['t']['c']]
    G = [p['n'] for p in obj if p['n'] not in res]
    par = lambda n: T('path', T('root', 'par', n), ())
    return [par(x) for x in vecs], [par(x) for x in ints_], [par(x) for x in res], [par(x) for x in G]


# name -> (what, kind of result)
SPEC = {
    'reduce_vector_J': ('vector', single_j), 'reduce_vector_J_ZZ': ('vector', single_j),
    'get_reduction_matrix_J': ('matrix', single_j), 'get_reduction_matrix_J_ZZ': ('matrix', single_j),
    'reduce_vector_J_poly': ('repeat', lambda u, v, x: single_j(u, v, x)), 'reduce_vector_J_poly_ZZ': ('repeat', lambda u, v, x: single_j(u, v, x)),
    'reduce_vector_ND': ('vector', single_nd), 'reduce_vector_ND_ZZ': ('vector', single_nd),
    'get_reduction_matrix_ND': ('matrix', single_nd), 'get_reduction_matrix_ND_ZZ': ('matrix', single_nd),
    'reduce_vector_ND_poly': ('repeat', shifted_nd), 'reduce_vector_ND_poly_ZZ': ('repeat', shifted_nd),
    'get_ND_poly_flint': ('array', coefficient_nd),
}


def c28(c):
    P = facts.load()
    n = m = 0
    undecided = []
    for f in P.funcs.values():
        if f['n'] not in SPEC or f.get('dependent') or not f.get('cls') and False:
            continue
        if '/test/' in f['file'] or f['n'] in ('main',):
            continue
        kind, spec = SPEC[f['n']]
        (vecs, its, res, Gs) = roles(f)
        w = ck.where(f, f['line'])
        if len(vecs) < 2:
            continue
        u, v = vecs[:2]
        I = vn.Interp(P, inline=local).run(f)
        full = FULL | {'len(%s,0)' % show(g) for g in Gs}
        Reading.rules = RULES
        try:
            A = Reading(I, f, TABLES, full, ARRAYS)
        except alg.Wrong as x:
            n += 1
            c.ob(False, 'polynomial', w, sig(f), str(x))
            continue
        except alg.Unsupported as x:
            undecided.append('%s: %s' % (sig(f), x))
            continue
        got = A.ret if A.ret is not None else A.now(res[0].a[0]) if res else None
        n += 1
        if got is None:
            c.ob(False, 'result', w, sig(f), 'no result')
            continue
        G = word(Gs[0]) if Gs else cst(1)
        want_step = None
        if kind == 'vector':
            want = spec(u, v) * G
        elif kind in ('matrix', 'array'):
            want = spec(u, v)
        else:
            it, want_step = iterated(lambda x: spec(u, v, x), its[0], G, None)
            want = word(it) * G
        g, x = alg.canonical(got, RULES), alg.canonical(want, RULES)
        ok = g == x
        det = {'vector': 'reduction matrix at u times the vector', 'matrix': 'polynomial evaluated at u', 'array': 'coefficients of every power of x', 'repeat': 'steps at u + x v for x from iterations - 1 down to 0'}[kind]
        if not ok:
            bodies = getattr(A, 'bodies', {})
            if kind == 'repeat' and len(bodies) == 1 and want_step is not None and next(iter(bodies.values())) != want_step:
                b = next(iter(bodies.values()))
                det = diffs(b, want_step, 'step')
            else:
                det = diffs(g, x, 'result')
        c.ob(ok, 'polynomial', w, sig(f), det)
        for e, mod in A.mods:
            m += 1
            ok = called(mod) == 'modulus' if mod.op == 'call' else show(mod).startswith('par:')
            c.ob(ok, 'modulus', e.where, sig(f), 'reduced modulo the modulus in force' if ok else 'reduced modulo %s' % show(mod))
    c.analysed['updates within a box'] = differences.differences(c, P)
    c.need(n, 8, 'evaluations')
    c.analysed['not in a form the analysis decides'] = undecided


def diffs(a, b, what):
    x = {k: v for k, v in a.items() if b.get(k) != v}
    y = {k: v for k, v in b.items() if a.get(k) != v}
    return '%s: has %s where it should have %s' % (what, alg.pretty(x)[:400], alg.pretty(y)[:400])
