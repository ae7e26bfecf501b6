"""C10: degenerate input is refused before anything is computed from it.
C15: the table of default precisions.   C30: a requested absolute precision is honoured."""
import re
from itertools import product
from math import log
import facts, vn, ck, walk
from vn import T, show
from facts import AnalysisError
from moduli import sig
from forward import tname, is_par, kinds, copies, root_text


def local(g, s):
    return g.get('isstatic') or '(anonymous' in (g.get('qn') or '') or g.get('lambda')


# ------------------------------------------------------------------ boolean structure of terms
BOOL = ('bool', 'not', 'and', 'or', 'ite')


TESTS = ('isSmooth', 'isND', 'IsZero')


def untest(t):
    """a truth value compared with a constant: (the truth value, polarity)"""
    if t.op == 'eq0':
        l = walk.linear(t.a[0])
        if l and (l[0].op in BOOL or l[0].op == 'call' and called(l[0]) in TESTS):
            if l[2] == 0:
                return l[0], False
            if l[2] == -l[1]:
                return l[0], True
    return None


def batoms(t, out):
    """the undecomposable truth values t depends on"""
    if not isinstance(t, T):
        return
    u = untest(t)
    if u:
        return batoms(u[0], out)
    if t.op in ('bool', 'not', 'and', 'or', 'ite'):
        for x in t.a:
            batoms(x, out)
    elif t.op != 'n':
        out.add(t)


def truth(t, env):
    if t.op == 'n':
        return bool(t.a[0])
    if t.op == 'bool':
        return truth(t.a[0], env)
    if t.op == 'not':
        return not truth(t.a[0], env)
    if t.op == 'and':
        return all(truth(x, env) for x in t.a)
    if t.op == 'or':
        return any(truth(x, env) for x in t.a)
    if t.op == 'ite':
        return truth(t.a[1] if truth(t.a[0], env) else t.a[2], env)
    u = untest(t)
    if u:
        return truth(u[0], env) == u[1]
    return env[t]


def value(t, env):
    while isinstance(t, T) and t.op == 'ite':
        t = t.a[1] if truth(t.a[0], env) else t.a[2]
    return t


def conds_of(t, out):
    while_ = [t]
    while while_:
        x = while_.pop()
        if isinstance(x, T) and x.op == 'ite':
            batoms(x.a[0], out)
            while_ += [x.a[1], x.a[2]]


def inner_calls(t, name):
    return [x for x in vn.subterms(t) if x.op == 'call' and called(x) == name] if isinstance(t, T) else []


def called(t):
    """last component of the function a call term stands for"""
    s = t.a[0] if t.a else ''
    s = s if isinstance(s, str) else show(s)
    return re.sub(r'<.*', '', s).split('::')[-1].split('(')[0]


def cargs(t):
    return [x for x in t.a[1:] if isinstance(x, T)]


# ------------------------------------------------------------------ the general entry point
def entry(P):
    for f in P.funcs.values():
        if any('omp_set_num_threads' in (n.get('q') or '') for n in facts.walk(f['body']) if n['k'] == 'Call') and \
           any(tname(p).startswith('map<') for p in f['params']) and '/test/' not in f['file'] and '/examples/' not in '/' + f['file']:
            return f
    raise AnalysisError('the general entry point was not found')


def table_function(P, f):
    """the function that fills precision, truncation and digits"""
    for g in P.funcs.values():
        outs = [p for p in g['params'] if re.match(r'(NTL::)?Vec<(int64_t|long)>\s*&', str((p.get('t') or {}).get('s')))]
        ints = [p for p in g['params'] if re.match(r'(int64_t|long)\s*&$', str((p.get('t') or {}).get('s')))]
        if len(outs) == 2 and len(ints) == 1 and not g.get('cls'):
            if any(n['k'] == 'Call' and P.callee(n) is g for n in facts.walk(f['body'])):
                return g
    raise AnalysisError('the table of default precisions was not found')


def objects(P, I):
    for e in I.events:
        if e.kind == 'construct' and e.q and re.search(r'(^|::)(hypersurface|hypersurface_non_degenerate|de_Rham_local|de_Rham_non_degenerate_local)::', e.q):
            g = P.funcs.get((e.x or {}).get('f')) if isinstance(e.x, dict) else None
            a = [x for x in e.argv if isinstance(x, T)]
            if len(a) >= 3:
                yield e, a, g


def assignments(atoms, limit=14):
    atoms = sorted(atoms, key=show)
    if len(atoms) > limit:
        raise AnalysisError('too many conditions')
    for bits in product((False, True), repeat=len(atoms)):
        yield dict(zip(atoms, bits))


def c10(c):
    P = facts.load()
    f = entry(P)
    I = vn.Interp(P, inline=local).run(f)
    w = lambda e: e.where
    n = 0
    for e, a, g in objects(P, I):
        n += 1
        name = e.q.split('::')[0]
        eqs = [x for x, q in zip(a, (g or {}).get('params') or [])] if g else a
        eq = a[2]
        atoms = set()
        for x in e.g:
            batoms(x, atoms)
        conds_of(eq, atoms)
        rel = {x for x in atoms if x.op == 'call' and called(x) in ('isSmooth', 'isND', 'IsZero')}
        # other conditions of the guards are kept too: they decide the branches
        smooth_bad = nd_bad = None
        tried = 0
        for env in assignments(atoms):
            if not all(truth(x, env) for x in e.g):
                continue
            tried += 1
            sm = [x for x in rel if called(x) == 'isSmooth' and env[x]]
            if not any(reduction_of(I, cargs(x)[0], f) for x in sm):
                smooth_bad = smooth_bad or env
            if 'non_degenerate' in name:
                v = value(eq, env)
                why = nd_ok(I, f, v, env, rel, sm)
                if why:
                    nd_bad = nd_bad or (why, env)
        c.ob(tried > 0 and not smooth_bad, 'smooth-first', w(e), '%s: %s' % (sig(f), name),
             'only made when the reduction of the equation passed the smoothness test' if not smooth_bad else 'can be made although %s' % env_text(smooth_bad, 'the smoothness test was not passed'))
        if 'non_degenerate' in name:
            c.ob(tried > 0 and not nd_bad, 'non-degenerate-first', w(e), '%s: %s' % (sig(f), name),
                 'only made for an equation that passed the non-degeneracy test' if not nd_bad else nd_bad[0] + ' when ' + env_text(nd_bad[1], ''))
    c.need(n, 2, 'objects made by the general entry point')
    dg = table_function(P, f)
    first = next(i for i, e in enumerate(I.events) if any(e is x[0] for x in objects(P, I)))
    pos = [i for i, e in enumerate(I.events) if e.kind == 'call' and isinstance(e.node, dict) and P.callee(e.node) is dg and not e.g]
    c.ob(bool(pos) and pos[0] < first, 'supported-first', ck.where(f, f['line']), '%s: %s' % (sig(f), dg['n']), 'looked up before any object is made' if pos and pos[0] < first else 'not looked up before the objects are made')
    supported(c, P, dg)
    search(c, P)
    tests(c, P)


def env_text(env, default):
    t = ', '.join(('' if v else 'not ') + called(x) if x.op == 'call' else ('' if v else 'not ') + show(x)[:40] for x, v in sorted(env.items(), key=lambda y: show(y[0])))
    return (default + ' (' + t + ')') if default else t


def reduction_of(I, x, f):
    """x is the container that receives every coefficient of the equation, reduced"""
    r = x
    while isinstance(r, T) and r.op in ('lx', 'lp', 'rd'):
        r = r.a[1] if r.op in ('lx', 'lp') else r.a[0]
    rt = show(r)
    for p in f['params']:
        if tname(p).startswith('map<'):
            for e, ok, det in copies(I, p):
                if show(e.p).split('{')[0] == rt and ok:
                    return True
    return False


def nd_ok(I, f, v, env, rel, sm):
    nds = [x for x in rel if called(x) == 'isND' and env[x]]
    zeros = [x for x in rel if called(x) == 'IsZero' and not env[x]]
    if isinstance(v, T) and v.op == 'call' and called(v) == 'change_of_variables':
        ms = [m for x in cargs(v)[1:] for m in inner_calls(x, 'find_change_of_variables')]
        for m in ms:
            if reduction_of(I, cargs(m)[0], f) and any(cargs(x) and cargs(x)[0] is m for x in zeros):
                return '' if reduction_of(I, cargs(v)[0], f) else 'the change of variables is not applied to the equation'
        for x in nds:
            y = cargs(x)[0]
            if isinstance(y, T) and y.op == 'call' and called(y) == 'change_of_variables' and any(m in vn.subterms(cargs(y)[1]) for m in ms):
                return ''
        return 'the changed equation is used without knowing that a suitable change was found'
    if isinstance(v, T) and v.op == 'call':
        return 'made for %s' % show(v)[:60]
    if any(reduction_of(I, cargs(x)[0], f) for x in nds):
        return ''
    return 'made for the unchanged equation although it is not known to be non-degenerate'


# ------------------------------------------------------------------ unsupported parameters
def root_of(p):
    while isinstance(p, T) and p.op == 'path' and isinstance(p.a[0], T):
        p = p.a[0]
    return p


def table_rows(P, g):
    """the branches of the table: [(conditions, precision, text, line, extractions)] at every feasible normal exit"""
    ints = [p for p in g['params'] if re.match(r'(int64_t|long)\s*&$', str((p.get('t') or {}).get('s')))]
    prec = 'par:' + ints[0]['n']
    I = vn.Interp(P, inline=local).run(g)

    def step(s, e, cond):
        pr, txt, got, ln = s
        if e.kind == 'write' and isinstance(e.p, T) and show(e.p) == prec:
            v = vn.const(e.v) if isinstance(e.v, T) else None
            return (v, txt, got, e.line)
        if e.kind in ('call', 'construct', 'write'):
            for a in list(e.argv or []) + [e.v]:
                if isinstance(a, T) and a.op == 'str' and '[' in str(a.a[0]) and e.kind != 'write':
                    return (pr, txt + str(a.a[0]), got, e.line)
            if e.kind == 'call' and (e.q or '').endswith('operator>>') and len(e.argv) > 1 and isinstance(e.argv[1], T):
                return (pr, txt, got + (root_text(e.argv[1]),), ln)
        return s
    return I, walk.walk(I, (None, '', (), 0), step, feasible=walk.feasible)


def supported(c, P, g):
    outs = ['par:' + p['n'] for p in g['params'] if re.match(r'(NTL::)?Vec<(int64_t|long)>\s*&', str((p.get('t') or {}).get('s')))]
    I, ends = table_rows(P, g)
    rows = 0
    for (pr, txt, got, ln), cond, _ in ends:
        if len(walk.boxes(cond)) == 0:
            continue
        rows += 1
        ok = isinstance(pr, int) and pr > 0 and len(re.findall(r'\[', txt)) == 2
        c.ob(ok, 'supported', ck.where(g, ln or g['line']), '%s: way out %s' % (g['n'], cond_text(cond)),
             'gives the working precision and both vectors' if ok else 'returns without %s' % ('a precision' if not isinstance(pr, int) else 'the two vectors'))
        okx = list(got) == outs
        c.ob(okx, 'supported', ck.where(g, ln or g['line']), '%s: results of %s' % (g['n'], cond_text(cond)),
             'truncation vector, then digits' if okx else 'read into %s' % list(got))
    c.need(rows, 20, 'rows of the table')


def cond_text(cond):
    b = walk.boxes(cond)
    if len(b) == 1:
        return ', '.join('%s in [%s,%s]' % (show(k).replace('par:', ''), '' if v[0] is None else v[0], '' if v[1] is None else v[1]) for k, v in sorted(b[0].items(), key=lambda x: show(x[0])))
    return '%d cases' % len(b)


# ------------------------------------------------------------------ the search for a better model
def search(c, P):
    fs = [f for f in P.funcs.values() if f['n'] == 'find_change_of_variables' and not f.get('dependent')]
    c.need(len(fs), 1, 'searches for a change of variables')
    for f in fs:
        eqp = [p for p in f['params'] if tname(p).startswith('map<')][0]
        I = vn.Interp(P, inline=local).run(f)

        def step(s, e, g):
            d = dict(s)
            if e.kind == 'call' and called_q(e.q) in ('ident', 'clear') and e.argv:
                r = root_text(e.argv[0])
                m = re.match(r'l[xp]\(\d+,(.*)\)$', r)
                d[m.group(1) if m else r] = called_q(e.q)
                return tuple(sorted(d.items(), key=lambda x: x[0]))
            if e.kind == 'write' and isinstance(e.p, T) and not e.p.a[-1]:
                k = show(e.p)
                if not isinstance(e.v, T):
                    if d.get(k) in ('ident', 'clear'):
                        return s
                    d[k] = None
                else:
                    v = vn.subst(e.v, lambda t: state_of(t, d)) if False else e.v
                    # a new value drawn again leaves nothing known about what was computed from the old one
                    for k2 in list(d):
                        if isinstance(d[k2], T) and k2 != k and v.op == 'call' and any(x is v for x in vn.subterms(d[k2])):
                            d[k2] = None
                    d[k] = v
                return tuple(sorted(d.items(), key=lambda x: x[0]))
            return s
        n = 0
        for s, g, ret in walk.walk(I, (), step):
            if ret is None:
                continue
            n += 1
            d = dict(s)
            facts_ = set()
            for x in g:
                resolve_fact(x, True, d, facts_)
            v = ret.v
            env_ok = None
            for leaf, extra in leaves(v, d, facts_):
                ok = False
                if leaf == 'clear':
                    ok = True
                elif leaf == 'ident':
                    ok = any(b and t.op == 'call' and called(t) == 'isND' and is_par(cargs(t)[0], eqp) for t, b in extra)
                elif isinstance(leaf, T):
                    for t, b in extra:
                        if b and t.op == 'call' and called(t) == 'isND':
                            y = cargs(t)[0]
                            if isinstance(y, T) and y.op == 'call' and called(y) == 'change_of_variables' and len(cargs(y)) == 2 and is_par(cargs(y)[0], eqp) and cargs(y)[1] is leaf:
                                ok = True
                env_ok = ok if env_ok is None else env_ok and ok
                what = leaf if isinstance(leaf, str) else show(leaf)[:60] if isinstance(leaf, T) else 'an unknown matrix'
                c.ob(ok, 'search-honest', ret.where, '%s: returns %s' % (sig(f), what),
                     'zero, or a change for which the changed equation passed the test' if ok else 'returned although the equation changed by it is not known to pass the test', key='search-honest|%s|%d' % (f['n'], n))
        c.need(n, 2, 'ways out of the search')


def called_q(q):
    return re.sub(r'<.*', '', q or '').split('::')[-1]


def var_of(t):
    if t.op in ('lx', 'lp'):
        return show(t.a[1])
    if t.op == 'rd' and isinstance(t.a[0], T) and not t.a[0].a[-1]:
        return show(t.a[0])
    return None


def resolve_fact(x, pos, d, out):
    """what is known when x (or its negation) holds, in terms of the values last written"""
    if x.op == 'bool':
        return resolve_fact(x.a[0], pos, d, out)
    if x.op == 'not':
        return resolve_fact(x.a[0], not pos, d, out)
    if x.op == 'and' and pos or x.op == 'or' and not pos:
        for y in x.a:
            resolve_fact(y, pos, d, out)
        return
    k = var_of(x)
    if k is not None and isinstance(d.get(k), T) and var_of(d[k]) != k:
        return resolve_fact(d[k], pos, d, out)
    out.add((x, pos))


def leaves(v, d, known):
    """possible final values of v with what is then known"""
    if isinstance(v, T) and v.op == 'ite':
        s = set()
        resolve_fact(v.a[0], True, d, s)
        n = set()
        resolve_fact(v.a[0], False, d, n)
        r = []
        if not any((t, not b) in known for t, b in s):
            r += leaves(v.a[1], d, known | s)
        if not any((t, not b) in known for t, b in n):
            r += leaves(v.a[2], d, known | n)
        return r
    k = var_of(v) if isinstance(v, T) else None
    if k is not None and k in d:
        return [(d[k], known)]
    return [(v, known)]


# ------------------------------------------------------------------ the two tests
def tests(c, P):
    n = 0
    for name, mname, drop in (('isSmooth', 'matrix_J', 2), ('isND', 'matrix_ND', 1)):
        for f in P.funcs.values():
            if f['n'] != name or f.get('dependent'):
                continue
            n += 1
            I = vn.Interp(P, inline=local).run(f)
            w = ck.where(f, f['line'])
            eqp = [p for p in f['params'] if tname(p).startswith('map<')][0]
            ms = [e for e in I.events if e.kind == 'call' and called_q(e.q) == mname]
            c.ob(len(ms) == 1, 'test-matrix', w, '%s: %s' % (name, mname), 'asks for one matrix of relations' if len(ms) == 1 else 'asks for %d' % len(ms))
            if len(ms) != 1:
                continue
            e = ms[0]
            dobj = root_text(e.objp) if isinstance(getattr(e, 'objp', None), T) else None
            lvl, out = e.argv[1], root_text(e.argv[0])
            sl = [x for x in I.events if x.kind == 'call' and 'tuple_list' in show(x.objp or '') and called_q(x.q) == 'SetLength'] if dobj else []
            # number of variables and degree of the description
            nv = dv = None
            for x in I.events:
                if x is e:
                    break
                if x.kind == 'write' and isinstance(x.p, T) and show(x.p) == '%s.n' % dobj:
                    nv = x.v
            cand = [t for t in vn.subterms(lvl) if t.op == 'rd' and show(t.a[0]) == '%s.d' % dobj or t.op in ('lx',) and show(t.a[1]) == '%s.d' % dobj]
            ok = False
            if nv is not None and cand:
                L = vn.add(nv, vn.num(1))
                exp = vn.add(vn.mul(L, vn.sub(cand[0], vn.num(drop))), vn.num(1))
                ok = exp is lvl or vn.canon(exp) is vn.canon(lvl)
            c.ob(ok, 'test-degree', e.where, '%s: %s' % (name, mname),
                 'in degree (d-%d)(n+1)+1, just above the top degree of the quotient' % drop if ok else 'in degree %s' % show(lvl)[:80])
            # the description is that of the argument
            got = copies(I, eqp)
            okc = any(show(x.p).startswith('%s.f{' % dobj) and ok2 for x, ok2, _ in got)
            c.ob(okc, 'test-equation', w, '%s: equation' % name, 'every coefficient of the argument is looked at' if okc else 'the coefficients of the argument do not reach the matrix')
            # the verdict
            rets = [x for x in I.events if x.kind == 'ret']
            for r in rets:
                v = r.v
                while isinstance(v, T) and v.op in ('bool',):
                    v = v.a[0]
                okr, det = verdict(I, v, out)
                c.ob(okr, 'test-verdict', r.where, '%s: verdict' % name, det)
    c.need(n, 2, 'tests of the equation')


def verdict(I, v, out):
    if not (isinstance(v, T) and v.op == 'eq0'):
        return False, 'the verdict is %s' % (show(v)[:80] if isinstance(v, T) else '?')
    rows = [t for t in vn.subterms(v) if t.op == 'call' and called(t) == 'NumRows']
    lus = [t for t in vn.subterms(v) if t.op == 'call' and re.search(r'_lu$|_rank$|gauss', called(t))]
    if len(rows) != 1 or len(lus) != 1:
        return False, 'the verdict does not compare a rank with the number of rows: %s' % show(v)[:80]
    d = vn.sub(rows[0], lus[0])
    if not (v.a[0] is d or v.a[0] is vn.sub(lus[0], rows[0])):
        return False, 'the verdict compares %s with 0' % show(v.a[0])[:80]
    if root_text(cargs(rows[0])[0]) != out:
        return False, 'the number of rows is that of %s' % root_text(cargs(rows[0])[0])
    # the matrix whose rank is taken holds all entries of the matrix of relations
    le = [e for e in I.events if e.kind == 'call' and called_q(e.q) == called(lus[0])]
    if len(le) != 1:
        return False, 'several ranks are taken'
    src = {root_name(a) for a in le[0].argv if isinstance(a, T)}
    seen = set()
    while src - seen:
        s = (src - seen).pop()
        seen.add(s)
        if s == out:
            break
        for e in I.events:
            if e.kind == 'call' and called_q(e.q) == 'conv' and len(e.argv) == 2 and root_name(e.argv[0]) == s:
                src.add(root_name(e.argv[1]))
            if e.kind == 'write' and isinstance(e.p, T) and isinstance(e.v, T) and root_name(e.p) == s and len(e.loops) == 2:
                if full_copy(e, out):
                    src.add(out)
            if e.kind == 'write' and isinstance(e.p, T) and isinstance(e.v, T) and show(e.p) == s and e.v.op == 'call' and called(e.v) == 'conv':
                for a in cargs(e.v):
                    src.add(root_name(a))
    return (True, 'true exactly when the matrix of relations has full row rank') if out in seen else (False, 'the rank is not that of the matrix of relations')


def root_name(v):
    v2 = v
    while isinstance(v2, T) and v2.op in ('addr', 'rd', 'lx', 'lp'):
        v2 = v2.a[1] if v2.op in ('lx', 'lp') else v2.a[0]
    s = show(v2) if isinstance(v2, T) else '?'
    return re.sub(r"'\d+$", '', s).lstrip('&').split('[')[0]


def full_copy(e, out):
    ivs = []
    for L in e.loops:
        for iv, (lo, hi, st, _) in L.ivs.items():
            ivs.append((iv, lo, hi, st))
    if len(ivs) != 2:
        return False
    (i, lo, hi, st), (j, lo2, hi2, st2) = ivs
    def z(x):
        return isinstance(x, T) and vn.const(x) == 0 or x == 0
    if not (z(lo) and z(lo2) and st == 1 and st2 == 1):
        return False
    if not (isinstance(hi, T) and isinstance(hi2, T)):
        return False
    m = re.search(r"%s\[(.*?)\]\[(.*?)\]" % re.escape(out), show(e.v))
    t = re.search(r"\[(.*?)\]\[(.*?)\]$", show(e.p))
    hs = [re.sub(r"'\d+", '', show(h)) for h in (hi, hi2)]
    return bool(m and t and m.groups() == t.groups() == (show(i), show(j)) and hs == ['NumRows(%s)' % out, 'NumCols(%s)' % out])


# ------------------------------------------------------------------ C15
def primes(lo, hi):
    return [x for x in range(max(lo, 2), hi + 1) if all(x % q for q in range(2, int(x ** .5) + 1))]


def ilog(p, x):
    r = 0
    while x >= p:
        x //= p
        r += 1
    return r


def vfact(m, p):
    r = 0
    while m > 0:
        m //= p
        r += m
    return r


def hodge(n, d):
    """dimensions of the n pieces of the middle cohomology: monomials of degree (i+1)d-(n+1) with all exponents at most d-2"""
    poly = [1]
    for _ in range(n + 1):
        q = [0] * (len(poly) + d - 2)
        for a, x in enumerate(poly):
            for e in range(d - 1):
                q[a + e] += x
        poly = q
    return [poly[t] if 0 <= t < len(poly) else 0 for t in ((i + 1) * d - (n + 1) for i in range(n))]


HORIZON = 400


def c15(c):
    P = facts.load()
    f = entry(P)
    g = table_function(P, f)
    pn, nn, dn = roles(P, f, g)
    I, ends = table_rows(P, g)
    groups = {}
    for (pr, txt, got, ln), cond, _ in ends:
        for b in walk.boxes(cond):
            b = {show(k): v for k, v in b.items()}
            n, d, p = (b.get('par:' + x, (None, None)) for x in (nn, dn, pn))
            if n[0] is None or n[0] != n[1] or d[0] is None or d[0] != d[1]:
                raise AnalysisError('a row of the table is not tied to one dimension and degree: %s' % b)
            groups.setdefault((n[0], d[0]), []).append((p, pr, txt, ln))
    rows = 0
    for (n, d), rs in sorted(groups.items()):
        w0 = ck.where(g, min(r[3] for r in rs))
        cover = {}
        for (lo, hi), pr, txt, ln in rs:
            for q in primes(2 if lo is None else lo, HORIZON if hi is None else hi):
                cover.setdefault(q, []).append(ln)
        miss = [q for q in primes(3, HORIZON) if len(cover.get(q, [])) != 1]
        openended = [r for r in rs if r[0][1] is None]
        c.ob(not miss and len(openended) >= 1, 'every-prime', w0, 'n=%d d=%d' % (n, d), 'exactly one row for every prime' if not miss and openended else 'primes without exactly one row: %s' % (miss[:6] or 'large ones'))
        for (lo, hi), pr, txt, ln in sorted(rs, key=lambda r: r[3]):
            rows += 1
            row(c, ck.where(g, ln), n, d, lo, hi, pr, txt)
    c.need(rows, 40, 'rows of the table')
    c.analysed['pairs (dimension, degree)'] = len(groups)


def roles(P, f, g):
    """names of the table's parameters for prime, dimension and degree, by what the entry point passes"""
    I = vn.Interp(P, inline=local).run(f)
    P0 = [p for p in f['params'] if tname(p) in ('int64_t', 'long')][0]
    for e in I.events:
        if e.kind == 'call' and isinstance(e.node, dict) and P.callee(e.node) is g:
            ints = [(k, p) for k, p in enumerate(g['params']) if tname(p) in ('int64_t', 'long') and not re.match(r'(int64_t|long)\s*&$', str(p['t']['s']))]
            pn = [p for k, p in ints if is_par(e.argv[k], P0)]
            nn = [p for k, p in ints if isinstance(e.argv[k], T) and 'len(' in show(e.argv[k]) and not is_par(e.argv[k], P0)]
            rest = [p for k, p in ints if p not in pn and p not in nn]
            if len(pn) == len(nn) == len(rest) == 1:
                return pn[0]['n'], nn[0]['n'], rest[0]['n']
    raise AnalysisError('the lookup of the default parameters was not recognised')


def row(c, w, n, d, lo, hi, prec, txt):
    L = [list(map(int, x.split())) for x in re.findall(r'\[([-\d\s]*)\]', txt)]
    name = 'n=%d d=%d p in [%s,%s]' % (n, d, lo or 2, hi or '')
    if len(L) != 2 or not isinstance(prec, int):
        c.ob(False, 'row', w, name, 'no precision or not two vectors')
        return
    N, C = L
    h = hodge(n, d)
    deg = sum(h)
    c.ob(len(N) == n, 'lengths', w, name + ': truncation', 'one entry for each of the %d pole orders' % n if len(N) == n else '%d entries, %d pole orders' % (len(N), n))
    c.ob(len(C) == deg + 1, 'lengths', w, name + ': digits', 'one entry for each coefficient of a polynomial of degree %d' % deg if len(C) == deg + 1 else '%d entries for a polynomial of degree %d' % (len(C), deg))
    if len(N) != n or len(C) != deg + 1:
        return
    qs = [q for q in primes(lo or 3, min(hi or HORIZON, HORIZON)) if q > 2]
    if not qs:
        return
    q0 = qs[0]
    # digits known of each coefficient pin it down (the bound used when the polynomial is lifted)
    pr, dim = list(C), n - 1
    for i in range(deg // 2 + 1):
        s = ((deg - 2 * i) * dim) // 2
        if pr[i] >= pr[deg - i] + s:
            pr[deg - i] = pr[i] - s
        else:
            pr[i] = pr[deg - i] + s
    bad = [k for k in range(1, deg + 1) if not log(k) / log(q0) + pr[deg - k] > log(2 * deg) / log(q0) + .5 * dim * k]
    c.ob(not bad, 'digits-determine', w, name, 'the digits determine every coefficient' if not bad else 'coefficient %d is not determined by the digits asked for at p=%d' % (deg - bad[0], q0))
    # digits of the columns needed for them
    vals = sorted(n - 1 - i for i in range(n) for _ in range(h[i]))
    def least(k, excl):
        v = list(vals)
        v.remove(excl)
        return sum(v[:k])
    rmin = [max([0] + [C[deg - k] - (n - 1 - i) - least(k - 1, n - 1 - i) for k in range(1, deg)]) if h[i] else 0 for i in range(n)]
    for i in range(n):
        if N[i] == 0:
            ok, det = rmin[i] == 0, 'the columns of pole order %d are dropped although %d digits of them are needed' % (i + 1, rmin[i])
        else:
            up = N[i] + i + 1 - n
            ok, det = up >= rmin[i], 'truncation %d gives at most %d digits of the columns of pole order %d, %d are needed' % (N[i], up, i + 1, rmin[i])
            if ok and n == 2:
                worst = None
                for q in qs:
                    r = min(m + i - sum(ilog(q, q * (m + i + 1) - j) for j in range(1, n)) for m in range(N[i], N[i] + 200))
                    if r < rmin[i]:
                        worst = (q, r)
                        break
                if worst:
                    ok, det = False, 'truncation %d gives %d digits of the columns of pole order %d at p=%d, %d are needed' % (N[i], worst[1], i + 1, worst[0], rmin[i])
        c.ob(ok, 'truncation', w, '%s: pole order %d' % (name, i + 1), 'enough terms of the expansion' if ok else det)
    # working precision
    short = None
    for q in qs:
        need = max([1] + [rmin[i] + max(0, vfact(q * (i + N[i]) - 1, q) - i) for i in range(n) if N[i]])
        if need > prec and short is None:
            short = (q, need)
    c.ob(short is None, 'working-precision', w, name, 'covers the digits lost to denominators' if short is None else 'precision %d, but %d digits are needed at p=%d' % (prec, short[1], short[0]))


# ------------------------------------------------------------------ C30
def c30(c):
    P = facts.load()
    f = entry(P)
    g = table_function(P, f)
    I = vn.Interp(P, inline=local).run(f)
    par0 = lambda n: T('path', 'par', n)
    ints = [p for p in f['params'] if tname(p) in ('int64_t', 'long', 'int')]
    P0 = [p for p in ints if tname(p) in ('int64_t', 'long')][0]
    tab = next(e for e in I.events if e.kind == 'call' and isinstance(e.node, dict) and P.callee(e.node) is g)
    outs, prec = [], None
    nterm = None
    for k, q in enumerate(g['params']):
        t = str((q.get('t') or {}).get('s'))
        if re.match(r'(NTL::)?Vec<(int64_t|long)>\s*&', t):
            outs.append(root_text(tab.argv[k]))
        elif re.match(r'(int64_t|long)\s*&$', t):
            prec = root_text(tab.argv[k])
        elif 'len(' in show(tab.argv[k]) and nterm is None:
            nterm = tab.argv[k]
    if len(outs) != 2 or prec is None or nterm is None:
        raise AnalysisError('the lookup of the default parameters was not recognised')
    Nroot = outs[0]
    # the requested precision: the integer option that the truncation is computed from
    absn = None
    for e in I.events:
        if e.kind == 'write' and isinstance(e.p, T) and isinstance(e.v, T) and show(e.p).startswith(Nroot + '['):
            for q in ints:
                if q is not P0 and re.search(r'par:%s\b' % re.escape(q['n']), show(e.v)):
                    absn = q
    if absn is None:
        raise AnalysisError('the requested precision is not used for the truncation')
    A = next(t for e in I.events for t in ([x for x in vn.subterms(e.v)] if isinstance(e.v, T) else []) if show(t) == 'par:' + absn['n'] and t.op in ('rd', 'par', 'path'))
    Pt = next(t for e in I.events for y in [e.v] + list(e.argv or []) if isinstance(y, T) for t in vn.subterms(y) if show(t) == 'par:' + P0['n'])
    incr = [p for p in f['params'] if tname(p) == 'bool']
    add, sub, mul, num = vn.add, vn.sub, vn.mul, vn.num

    # --- iterations of the loops that set the truncation
    def key(s):
        return tuple(sorted(s.items(), key=lambda x: x[0]))
    done = []

    def step(s, e, cond):
        d = dict(s)
        if e.kind == 'write' and isinstance(e.p, T):
            t = show(e.p)
            ivs = [iv for L in e.loops for iv, b in L.ivs.items() if show(b[3]) == t and isinstance(e.v, T) and e.v is add(iv, num(b[2]))]
            if ivs:
                done.append((ivs[-1], e.loops[-1], dict(d), cond, e))
                return ()
            if e.loops and isinstance(e.v, T) and ('[iv(' in t or t == prec or not e.p.a[-1]):
                d[t] = e.v
                d.setdefault('line', e.line)
                return key(d)
        return s
    walk.walk(I, (), step)
    seen = {}
    for x in done:
        k = (x[0], tuple(sorted((k, v) for k, v in x[2].items() if '[' in k or k in (prec, 'line'))), x[3])
        seen.setdefault(str(k), x)
    done = list(seen.values())
    n = nl = 0
    Rroots = set()
    for iv, L, d, cond, e in done:
        tgt = [k for k in d if k.startswith(Nroot + '[')]
        if not tgt:
            continue
        n += 1
        where = ck.where(f, d.get('line') or e.line)
        V = d[tgt[0]]
        lo, hi, st, _ = L.ivs[iv]
        full = covers(L.ivs[iv], nterm)
        c.ob(full, 'every-pole-order', where, '%s: range of %s' % (sig(f), Nroot), 'every pole order' if full else 'from %s to %s' % (show(lo) if isinstance(lo, T) else lo, show(hi) if isinstance(hi, T) else hi))
        want = add(sub(A, sub(nterm, num(1))), iv)
        side = 'p^%s' % absn['n']
        if vn.const(V) == 0:
            ok = implied(cond, add(sub(want, num(1)), num(0)))
            c.ob(ok, 'dropped-columns', where, '%s: columns left out' % sig(f), 'only those divisible by p^%s' % absn['n'] if ok else 'left out under %s' % [show(x)[:60] for x in cond][-2:])
            continue
        r = add(sub(V, nterm), add(iv, num(1)))
        parts = max_args(r)
        ok = any(x is want for x in parts)
        c.ob(ok, 'digits-asked', where, '%s: truncation' % sig(f), 'enough terms for the digits asked for' if ok else 'the number of digits it stands for, %s, is not at least %s' % (show(r)[:60], show(want)[:60]))
        if len(parts) > 1:
            nl += 1
            rest = [x for x in parts if x is not want]
            okd = all(default_digits(I, x, Nroot, nterm, iv, Rroots) for x in rest) or any(asserted_not_less(x, V, Nroot) for x in cond)
            c.ob(okd, 'digits-kept', where, '%s: truncation' % sig(f), 'not less than the default' if okd else 'compared with %s, which is not the default' % show(rest[0])[:60])
        # working precision
        pv = d.get(prec)
        okp, det = False, 'the working precision is not raised for the column'
        cands, keep = [], False
        if pv is not None:
            ps = top_max(pv)
            cands = [x for x in ps if not (x.op in ('lp', 'lx', 'rd') and root_name(x) == prec)]
            keep = len(cands) < len(ps)
        for x in cond:
            # already large enough, or smaller than what it is set to
            for t in vn.subterms(x) if x.op == 'lt0' else []:
                if t.op in ('lp', 'rd', 'lx') and root_name(t) == prec:
                    if pv is None:
                        cands.append(add(add(x.a[0], t), num(1)))
                    elif any(sub(t, y) is x.a[0] for y in cands):
                        keep = True
        exp = sub(mul(Pt, add(iv, V)), num(1))
        for x in cands:
            for t in vn.subterms(x):
                if not (t.op == 'call' and called(t) == 'valuation_of_factorial'):
                    continue
                if not (len(cargs(t)) == 2 and cargs(t)[0] is exp and cargs(t)[1] is Pt):
                    det = 'the denominator is not that of the last term of the expansion'
                    continue
                ms = max_args(sub(x, r))
                if any(y is sub(t, iv) for y in ms) and any(vn.const(y) is not None and vn.const(y) >= 0 for y in ms):
                    okp = True
                else:
                    det = 'raised to %s' % show(x)[:80]
        if pv is not None:
            c.ob(keep, 'precision-maximum', where, '%s: working precision' % sig(f), 'the maximum over the pole orders' if keep else 'a smaller value can replace a larger one')
        c.ob(okp, 'working-precision', where, '%s: working precision' % sig(f), 'covers the digits asked for and those lost to denominators' if okp else det)
    c.need(n, 3, 'ways through the loops that set the truncation')
    lifting(c, P, I, f, A, nterm, done, Nroot)
    small(c, P, I, f, Pt, nterm, done, Nroot)


def covers(b, n):
    """the induction range b takes every value 0..n-1"""
    lo, hi, st, _ = b
    if not isinstance(lo, T) or not isinstance(hi, T):
        return False
    return st == 1 and vn.const(lo) == 0 and hi is n or st == -1 and lo is vn.sub(n, vn.num(1)) and vn.const(hi) == 0


def max_args(t):
    """t as the maximum of several terms, also when a constant was added to it"""
    if not isinstance(t, T):
        return []
    if t.op == 'call' and called(t) == 'max' and len(cargs(t)) == 2:
        return max_args(cargs(t)[0]) + max_args(cargs(t)[1])
    if t.op == 'ite':
        return [t]
    if t.op == 'poly':
        for m, k in t.a:
            if k == 1 and len(m) == 1 and m[0].op == 'call' and called(m[0]) == 'max' and len(cargs(m[0])) == 2:
                rest = vn.sub(t, m[0])
                return [vn.add(rest, x) for y in cargs(m[0]) for x in max_args(y)]
    return [t]


def top_max(t):
    if isinstance(t, T) and t.op == 'call' and called(t) == 'max' and len(cargs(t)) == 2:
        return top_max(cargs(t)[0]) + top_max(cargs(t)[1])
    return [t] if isinstance(t, T) else []


def implied(cond, e):
    """some condition says e < 0"""
    want = vn.canon(T('lt0', e))
    for x in cond:
        if x.op == 'lt0' and (x.a[0] is e or vn.canon(x) is want):
            return True
    return False


def default_digits(I, x, Nroot, nterm, iv, Rroots):
    """x is the number of digits the default truncation stands for: read from a vector filled with N[i]+i+1-n"""
    m = re.match(r'sel\(lp\(\d+,(.+?)\),\(\(i,(.+?)\)\)\)$', show(x))
    if not m or m.group(2) != show(iv):
        m2 = re.match(r"(.+?)\[(.+?)\]'\d+$", show(x))
        if not m2 or m2.group(2) != show(iv):
            return False
        m = m2
    R = m.group(1)
    for e in I.events:
        if e.kind == 'write' and isinstance(e.p, T) and isinstance(e.v, T) and show(e.p).startswith(R + '[') and e.loops:
            j = next(iter(e.loops[-1].ivs))
            lo, hi, st, _ = e.loops[-1].ivs[j]
            d = vn.sub(e.v, vn.add(vn.sub(j, nterm), vn.num(1)))
            if re.match(r"%s\[%s\]('\d+)?$" % (re.escape(Nroot), re.escape(show(j))), show(d)) and vn.const(lo) == 0 and hi is nterm and show(e.p) == '%s[%s]' % (R, show(j)):
                Rroots.add(R)
                return True
    return False


def asserted_not_less(x, V, Nroot):
    """the condition x says that the old truncation is at most V"""
    if x.op != 'lt0':
        return False
    d = vn.add(x.a[0], vn.add(V, vn.num(1)))
    return root_name_in(d, Nroot) and d.op in ('sel', 'rd')


def root_name_in(t, name):
    return bool(re.search(r'(^|[(,])' + re.escape(name) + r"\b", show(t)))


def lifting(c, P, I, f, A, nterm, done, Nroot):
    """the polynomial is only lifted when enough digits are known; otherwise it is given modulo what was asked for"""
    fl = [e for e in I.events if e.kind == 'call' and called_q(e.q) == 'charpoly_frob']
    c.need(len(fl), 1, 'places where the characteristic polynomial is lifted')
    for e in fl:
        atoms = set()
        for x in e.g:
            batoms(x, atoms)
        lxs = {t for t in atoms if t.op in ('lx', 'rd')}
        flags = {root_name(t) for t in lxs if t.op == 'lx'}
        low = [d for d in done if any(k.startswith(Nroot + '[') for k in d[2]) and has_min(d, A, nterm, Nroot)]
        ids = {d[1].id for d in low}
        bad = None
        for env in assignments(atoms):
            if all(truth(x, env) for x in e.g):
                # a loop that may lower the digits has run: its flag must be known to be set
                if not consistent_skip(env, low):
                    if not any(env[t] and t.op == 'lx' and t.a[0] in ids for t in atoms):
                        bad = env
        c.ob(bad is None, 'lift-guarded', e.where, '%s: lifting' % sig(f), 'only when no column lost digits' if bad is None else 'also when columns may have lost digits')
        for iv, L, d, cond, w in low:
            want = vn.add(vn.sub(A, vn.sub(nterm, vn.num(1))), iv)
            ok = False
            for k in flags:
                cs = walk.conj(d[k]) if k in d else cond
                if k in d and vn.const(d[k]) == 0:
                    ok = True
                keep = k not in d or any(root_name(x.a[0] if x.op == 'bool' else x) == k for x in cs if x.op in ('bool', 'lp', 'rd'))
                enough = any(x.op == 'lt0' and default_digits(I, vn.add(x.a[0], vn.add(want, vn.num(1))), Nroot, nterm, iv, set()) for x in cs)
                ok = ok or keep and enough
            c.ob(ok, 'lift-flag', ck.where(f, d.get('line') or w.line), '%s: columns with fewer digits' % sig(f), 'recorded' if ok else 'a column with fewer digits than the default goes unnoticed')
    # the other branch
    cps = [e for e in I.events if e.kind == 'call' and called_q(e.q) == 'charpoly']
    for e in cps:
        red = []
        for x in I.events:
            if x.kind == 'call' and called_q(x.q) in ('operator%=', 'operator%', 'rem') and x.loops:
                t = ' '.join(show(a) for a in x.argv if isinstance(a, T))
                if 'power_ZZ(par:' in t and any(isinstance(a, T) and a.op == 'call' and called(a) == 'power_ZZ' and any(y is A for y in cargs(a)) for a in x.argv):
                    (iv, (lo, hi, st, _)) = next(iter(x.loops[-1].ivs.items()))
                    extra = set(x.g) - set(e.g) - {g for L in x.loops for y in ([L.cond] if isinstance(L.cond, T) else L.cond or []) for g in walk.conj(y)}
                    if show(hi if st == 1 else vn.add(lo, vn.num(1))).startswith('len(') and covers((lo, hi, st, None), hi if st == 1 else vn.add(lo, vn.num(1))) and not extra:
                        red.append(x)
        c.ob(bool(red), 'reduced-output', e.where, '%s: characteristic polynomial with fewer digits' % sig(f), 'every coefficient is reduced modulo p^%s' % show(A)[4:] if red else 'its coefficients are given with digits that are not known')


def has_min(d, A, nterm, Nroot):
    """this way through the loop can give fewer digits than the default"""
    iv, L, s, cond, e = d
    V = next(v for k, v in s.items() if k.startswith(Nroot + '['))
    if vn.const(V) == 0:
        return True
    r = vn.add(vn.sub(V, nterm), vn.add(iv, vn.num(1)))
    return len(max_args(r)) == 1


def consistent_skip(env, low):
    """under env none of the loops in low can have run"""
    for iv, L, d, cond, e in low:
        clash = False
        for x in list(e.g) + list(cond):
            for a, b in literals(x):
                if a in env and env[a] != b:
                    clash = True
        if not clash:
            return False
    return True


def literals(x, pos=True):
    if x.op == 'bool':
        return literals(x.a[0], pos)
    if x.op == 'not':
        return literals(x.a[0], not pos)
    if x.op == 'and' and pos:
        return [y for z in x.a for y in literals(z, pos)]
    return [(x, pos)]


def small(c, P, I, f, Pt, nterm, done, Nroot):
    ok = None
    for e in I.events:
        if e.kind != 'abort':
            continue
        for x in e.g:
            if x.op != 'lt0':
                continue
            ms = [t for t in vn.subterms(x) if t.op == 'call' and called(t) == 'max' and len(cargs(t)) == 1]
            for m in ms:
                d = vn.add(x.a[0], m)
                if d is vn.sub(Pt, vn.mul(vn.num(2), nterm)):
                    ok = e
    objs = [e for e, a, g in objects(P, I)]
    okk = ok is not None and objs and I.events.index(ok) < I.events.index(objs[0])
    c.ob(okk, 'small-primes-refused', ok.where if ok else ck.where(f, f['line']), '%s: small primes' % sig(f),
         'refused when p < 2n + number of digits' if okk else 'no longer refused although the derived precision is only valid for p >= 2n + number of digits')
