"""C11: every argument reaches the parameter it is meant for."""
import re
import facts, vn, ck, walk
from vn import T, show
from moduli import entries, sig

OPTION = re.compile(r'^(const )?(bool|int|int64_t|long)( ?&)?$')


def tname(p):
    return re.sub(r'\bconst\b|&|\s', '', str((p.get('t') or {}).get('s'))).replace('std::', '').replace('NTL::', '')


def kinds(ps):
    """parameters grouped: {(type, rank): index}"""
    n, out = {}, {}
    for i, p in enumerate(ps):
        t = tname(p)
        t = 'int64' if t in ('int64_t', 'long') else t
        out[(t, n.get(t, 0))] = i
        n[t] = n.get(t, 0) + 1
    return out


def par(p):
    return T('path', 'par', p)


def is_par(v, p, prog=None):
    """v is the unmodified value of parameter p (or a reference to it)"""
    while isinstance(v, T) and v.op in ('bool', 'addr', 'conv') and len(v.a) == 1 and isinstance(v.a[0], T):
        v = v.a[0]
    return isinstance(v, T) and show(v) == 'par:' + p['n']


def pars_in(v):
    out = set()
    if isinstance(v, T):
        for t in vn.subterms(v):
            if t.op == 'path' and t.a and isinstance(t.a[0], (tuple, T)) or t.op in ('rd', 'path'):
                m = re.match(r"par:(\w+)", show(t))
                if m:
                    out.add(m.group(1))
    return out


def mentions(v, name):
    return isinstance(v, T) and bool(re.search(r'par:%s\b' % re.escape(name), show(v)))


# ------------------------------------------------------------------ constructors
FIELDS = {'int64': ['p', 'precision', 'n', 'd'], 'bool': ['verbose', 'save_memory']}


def classes(P):
    """classes holding the description of a computation: with fields p, precision and verbose"""
    out = {}
    for f in P.funcs.values():
        c = f.get('cls')
        if c and f['n'] == c.split('::')[-1] and not f.get('dependent') and len(f['params']) > 1:
            ts = [tname(p) for p in f['params']]
            if ts[:2] in (['int64_t', 'int64_t'], ['long', 'long']) and 'bool' in ts:
                out.setdefault(c, []).append(f)
    return out


def writers(P):
    """internal functions that (transitively) write a descriptive field of this object"""
    names = {'p', 'precision', 'n', 'd', 'verbose', 'save_memory', 'f', 'dR', 'dR_ND'}
    direct = {}
    for f in P.funcs.values():
        w = set()
        for n in facts.walk(f['body']):
            if n['k'] in ('Assign',) or n['k'] == 'Call' and (n.get('q') or '').endswith('operator='):
                l = n.get('l_') or n.get('lhs') or n.get('a')
                for m in facts.walk(n):
                    if m['k'] == 'Member' and m.get('n') in names:
                        w.add(m['n'])
                        break
        direct[f['usr']] = bool(w)
    return direct


def fields_at_end(I, fn):
    """[(values of the watched fields, conditions)] on every normal path"""
    watch = {}

    def step(s, e, g):
        if e.kind == 'write' and isinstance(e.p, T):
            m = re.match(r'^this\.(\w+)$', show(e.p))
            if m and m.group(1) in ('p', 'precision', 'n', 'd', 'verbose', 'save_memory', 'f', 'dR', 'dR_ND'):
                d = dict(s)
                d[m.group(1)] = e.v if isinstance(e.v, T) else None
                return tuple(sorted(d.items()))
        return s
    return walk.walk(I, (), step)


def ctor_obligations(c, P, cls, f):
    w = lambda l=None: ck.where(f, l or f['line'])
    own = f['params']
    I = vn.Interp(P, inline=lambda g, s: g.get('cls') and (g['n'].startswith('init') or g.get('access') == 'private')
                  or g.get('isstatic') or '(anonymous' in g['qn']).run(f)
    ends = fields_at_end(I, f)
    if not ends:
        raise facts.AnalysisError('no normal path through ' + sig(f))
    ks = kinds(own)
    delegated = None
    for e in I.events:
        if e.kind in ('call', 'construct') and re.search(r'make_shared|make_unique', e.q or '') and not e.g:
            a = [x for x in e.argv if not (isinstance(x, T) and x.op in ('fresh',))]
            delegated = (e, a)
    for state, g, _ in ends:
        d = dict(state)
        dr = d.get('dR')
        for (t, k), i in sorted(ks.items(), key=lambda x: x[1]):
            if t not in FIELDS or k >= len(FIELDS[t]):
                continue
            name = FIELDS[t][k]
            p = own[i]
            if dr is None:
                if name in ('n', 'd') and name not in d:
                    continue       # determined by the equation
                v = d.get(name)
                ok = is_par(v, p)
                if name in ('n', 'd') and not ok:
                    continue       # recomputed from the equation: see shape below
                c.ob(ok, 'field-from-argument', w(), '%s: field %s' % (sig(f), name),
                     'holds the argument %s' % p['n'] if ok else 'ends up as %s, not the argument %s' % (show(v)[:80] if isinstance(v, T) else 'unset', p['n']))
            else:
                v = d.get(name)
                if name == 'save_memory':
                    continue
                ok = is_par(v, p) or (isinstance(v, T) and vn.canon(strip(v)) is vn.canon(strip(T('sel', dr, (('f', name),)))) or seltext(v) == 'sel(%s,((f,%s)))' % (show(dr), name))
                if name in ('p', 'precision', 'verbose'):
                    c.ob(ok, 'field-from-argument', w(), '%s: field %s' % (sig(f), name),
                         'copied from the object made from the arguments' if ok else 'ends up as %s' % (show(v)[:80] if isinstance(v, T) else 'unset'))
        if dr is not None and 'dR_ND' in d:
            c.ob(d['dR_ND'] is dr, 'same-object', w(), '%s: dR and dR_ND' % sig(f), 'the same object' if d['dR_ND'] is dr else 'differ')
    if delegated:
        e, a = delegated
        ok = len(a) <= len(own) and len(a) >= len(own) - 0 and all(is_par(x, p) or x is None and False for x, p in zip(a, own))
        c.ob(ok, 'forwarded', '%s' % e.where, '%s -> %s' % (sig(f), vn.short(e.q or '')[:30]),
             'all arguments in order' if ok else 'arguments are (%s), expected (%s)' % (', '.join(show(x)[:30] if isinstance(x, T) else '?' for x in a), ', '.join(p['n'] for p in own)))
        return
    # the equation: f holds the coefficients given
    containers = [p for p in own if re.match(r'(map|Vec)<', tname(p))]
    for p in containers:
        if tname(p).startswith('map<') and any(is_par(dict(s).get('f'), p) for s, g, _ in ends):
            ok = all(is_par(dict(s).get('f'), p) for s, g, _ in ends)
            c.ob(ok, 'equation', w(), '%s: %s' % (sig(f), p['n']), 'stored as it is')
            continue
        got = copies(I, p)
        c.ob(bool(got), 'equation', w(), '%s: %s' % (sig(f), p['n']), 'copied entry by entry' if got else 'its entries are not stored in the object')
        for e, ok, det in got:
            c.ob(ok, 'entry-position', e.where, '%s: entries of %s' % (sig(f), p['n']), det)
    if containers and containers[0] and tname(containers[0]).startswith('Vec<') and ('int64', 3) in ks:
        pn, pd = own[ks[('int64', 2)]], own[ks[('int64', 3)]]
        hit = None
        for e in I.events:
            if e.kind == 'call' and 'tuple_list_generator' in (e.q or '') and any(s in show(e.argv[1]) for s in ('par:' + pd['n'],) if isinstance(e.argv[1], T)):
                if is_par(e.argv[1], pd) and show(e.argv[2]) == '(1+par:%s)' % pn['n']:
                    hit = e
        c.ob(hit is not None, 'shape', w(), '%s: monomials of the coefficient vector' % sig(f),
             'the monomials of degree %s in %s+1 variables' % (pd['n'], pn['n']) if hit is not None else 'not generated from (degree %s, %s+1 variables)' % (pd['n'], pn['n']))


def strip(v):
    while isinstance(v, T) and v.op == 'bool' and isinstance(v.a[0], T):
        v = v.a[0]
    return v


def seltext(v):
    return show(strip(v)) if isinstance(v, T) else ''


IDX = re.compile(r'\[([^\[\]]*)\]|\{([^{}]*)\}')


def last_index(t):
    """the innermost index or key selector of a path"""
    if isinstance(t, T) and t.op == 'path' and t.a[-1]:
        for s in reversed(t.a[-1]):
            if s[0] in ('i', 'k'):
                return s[1]
    return None


def source(v, name):
    """the element of parameter `name` that the value v is (possibly converted)"""
    best = None
    for t in vn.subterms(v):
        if t.op == 'rd' and isinstance(t.a[0], T) and show(t.a[0]).startswith('par:' + name):
            if re.match(r'par:%s\b' % re.escape(name), show(t.a[0])) and last_index(t.a[0]) is not None:
                best = t.a[0]
    return best


def copies(I, p):
    """element-by-element copies of container parameter p: [(event, ok, detail)]"""
    out = []
    for e in I.events:
        if e.kind != 'write' or not isinstance(e.p, T) or not isinstance(e.v, T):
            continue
        s = source(e.v, p['n'])
        if s is None:
            continue
        i = last_index(s)
        root = show(e.p)
        if root.startswith('par:' + p['n']):
            continue
        j = last_index(e.p)
        if j is None:
            continue
        # the map key may itself be the element number i of a list
        jj = j
        if j is not i and isinstance(j, T) and j.op == 'rd':
            jj = last_index(j.a[0])
        if isinstance(j, T) and (j.op in ('lx', 'lp', 'sel', 'call', 'new') or j.op == 'rd' and jj is None):
            jj = i if e.loops else None        # key assembled separately, in the same turn of the loop
        ok = same(jj, i)
        det = 'entry %s of %s goes to entry %s' % (show(i), p['n'], show(jj) if isinstance(jj, T) else '?')
        L = [l for l in e.loops if i in l.ivs or l.elem is not None and i.op == 'ekey' and i.a[0] == l.id]
        if ok and i.op == 'iv' and L:
            lo, hi, st, _ = L[-1].ivs[i]
            full = vn.const(lo) == 0 and (st == 1 or isinstance(st, T) and vn.const(st) == 1) and isinstance(hi, T)
            if not full:
                ok, det = False, 'the loop does not start at the first entry of %s' % p['n']
        out.append((e, ok, det))
    return out


def same(x, y):
    return isinstance(x, T) and isinstance(y, T) and (x is y or vn.canon(x) is vn.canon(y))


# ------------------------------------------------------------------ overloads of a general function
def overloads(P):
    by = {}
    for f in P.funcs.values():
        if not f.get('dependent') and not f.get('cls'):
            by.setdefault(f['qn'], []).append(f)
    return {k: v for k, v in by.items() if len(v) > 1}


def overload_obligations(c, P, group):
    n = 0
    for f in group:
        calls = [x for x in facts.walk(f['body']) if x['k'] == 'Call' and P.callee(x) is not None and P.callee(x) in group and P.callee(x) is not f]
        if not calls:
            continue
        if sum(OPTION.match(str((p.get('t') or {}).get('s'))) is not None for p in f['params']) < 3:
            continue
        I = vn.Interp(P, inline=lambda g, s: g.get('isstatic') or '(anonymous' in g['qn']).run(f)
        for e in I.events:
            if e.kind != 'call':
                continue
            g = P.callee(e.node) if isinstance(e.node, dict) else None
            if g is None or g not in group or g is f:
                continue
            n += 1
            mine, theirs = kinds(f['params']), kinds(g['params'])
            cnt = lambda m, t: sum(1 for (a, b) in m if a == t)
            for (t, k), i in sorted(theirs.items(), key=lambda x: x[1]):
                v = e.argv[i]
                if t in ('bool', 'int', 'int64') and cnt(mine, t) == cnt(theirs, t):
                    p = f['params'][mine[(t, k)]]
                    ok = is_par(v, p)
                    c.ob(ok, 'option-forwarded', e.where, '%s: %s' % (sig(f), g['params'][i]['n'] or i),
                         'receives the argument %s' % p['n'] if ok else 'receives %s instead of the argument %s' % (show(v)[:60] if isinstance(v, T) else '?', p['n']))
                elif (t, k) in mine and cnt(mine, t) == cnt(theirs, t):
                    p = f['params'][mine[(t, k)]]
                    ok = is_par(v, p)
                    c.ob(ok, 'data-forwarded', e.where, '%s: %s' % (sig(f), g['params'][i]['n'] or i), 'receives the argument %s' % p['n'] if ok else 'does not receive the argument %s' % p['n'])
            # data that change their form on the way
            for p in f['params']:
                if re.match(r'(map|Vec|vector)<', tname(p)) and not any(is_par(v, p) for v in e.argv):
                    via = any(mentions(v, p['n']) for v in e.argv)
                    got = copies(I, p)
                    ok = via or bool(got)
                    c.ob(ok, 'data-forwarded', e.where, '%s: %s' % (sig(f), p['n']), 'converted and handed on' if ok else 'lost on the way')
                    for e2, ok2, det in got:
                        c.ob(ok2, 'entry-position', e2.where, '%s: entries of %s' % (sig(f), p['n']), det)
                    if via and not got:
                        b = [show(v) for v in e.argv if mentions(v, p['n'])]
                        whole = any(entire(v, p['n']) for v in e.argv if mentions(v, p['n']))
                        c.ob(whole, 'entry-position', e.where, '%s: entries of %s' % (sig(f), p['n']), 'the whole sequence in order' if whole else 'not the whole sequence: %s' % b[0][:80])
            uncond = not [x for x in e.g if not asserted(x, I)]
            c.ob(uncond, 'always-forwarded', e.where, sig(f), 'on every path' if uncond else 'only if %s' % ', '.join(show(x)[:60] for x in e.g))
    return n


def entire(v, name):
    """v is built from the whole of the parameter: as such, or from its begin and end"""
    for t in vn.subterms(v):
        if t.op in ('call', 'new'):
            xs = [show(x) for x in t.a[1:] if isinstance(x, T)]
            b = [k for k, x in enumerate(xs) if x in ('begin(par:%s)' % name, 'cbegin(par:%s)' % name)]
            n = [k for k, x in enumerate(xs) if x in ('end(par:%s)' % name, 'cend(par:%s)' % name)]
            if b and n and n[0] == b[0] + 1 or 'par:' + name in xs and t.a[0] not in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'size'):
                return True
    return False


def asserted(x, I):
    return any(e.kind == 'assert' and isinstance(e.v, T) and x in walk.conj(e.v) for e in I.events)


# ------------------------------------------------------------------ the general entry point
def general(c, P, group, ctors):
    """the overload that does the work"""
    top = [f for f in group if not any(x['k'] == 'Call' and P.callee(x) in group and P.callee(x) is not f for x in facts.walk(f['body']) if x['k'] == 'Call' and P.callee(x) is not None)]
    for f in top:
        ks = kinds(f['params'])
        if ('bool', 0) not in ks or ('int', 0) not in ks or ('int64', 0) not in ks:
            continue
        hdr = entries(P)[1]
        from moduli import is_entry
        I = vn.Interp(P, inline=lambda g, s: not is_entry(g, hdr)).run(f)
        P0 = f['params'][ks[('int64', 0)]]
        VB, TH = f['params'][ks[('bool', 0)]], f['params'][ks[('int', 0)]]
        th = [e for e in I.events if e.kind == 'call' and 'omp_set_num_threads' in (e.q or '')]
        ok = bool(th) and all(is_par(e.argv[0], TH) and not e.g and not e.loops for e in th)
        c.ob(ok, 'threads-used', th[0].where if th else ck.where(f, f['line']), sig(f), 'number of threads set from the argument, always' if ok else 'the number of threads does not come from the argument on every path')
        made = 0
        first = None
        for i, e in enumerate(I.events):
            if e.kind == 'construct' and isinstance(e.x, dict) and e.x.get('f') in ctors or e.kind == 'call' and re.search('make_(shared|unique)', e.q or ''):
                g = P.funcs.get((e.x or {}).get('f')) if isinstance(e.x, dict) else None
                a = [x for x in e.argv if not (isinstance(x, T) and x.op == 'fresh')]
                if len(a) < 3:
                    continue
                made += 1
                first = i if first is None else first
                ok = is_par(a[0], P0)
                c.ob(ok, 'prime-used', e.where, '%s: %s' % (sig(f), vn.short(e.q)), 'made for the prime given' if ok else 'made for %s' % show(a[0])[:60])
                j = 3 if len(a) == 4 else (kinds(g['params']).get(('bool', 0)) if g else len(a) - 1)
                ok = j is not None and j < len(a) and is_par(a[j], VB)
                c.ob(ok, 'verbosity-used', e.where, '%s: %s' % (sig(f), vn.short(e.q)), 'receives the verbosity given' if ok else 'verbosity is %s' % (show(a[j])[:60] if j is not None and j < len(a) and isinstance(a[j], T) else '?'))
                eq = [x for x in a if isinstance(x, T) and len(show(x)) > 0 and not is_par(x, P0)]
        c.need(made, 2, 'objects made by the general entry point')
        if th and first is not None:
            ok = I.events.index(th[0]) < first
            c.ob(ok, 'threads-first', th[0].where, sig(f), 'before any object is made' if ok else 'after objects were made')
        # the coefficients
        eqp = [p for p in f['params'] if tname(p).startswith('map<')]
        for p in eqp:
            got = copies(I, p)
            c.ob(len(got) >= 2, 'equation', ck.where(f, f['line']), '%s: %s' % (sig(f), p['n']), '%d reductions of the equation' % len(got))
            for e, ok, det in got:
                c.ob(ok, 'entry-position', e.where, '%s: entries of %s' % (sig(f), p['n']), det)
        # data from the default table to the consumers
        src = None
        for e in I.events:
            if e.kind == 'call' and isinstance(e.node, dict) and P.callee(e.node) is not None:
                g = P.callee(e.node)
                outs = [k for k, q in enumerate(g['params']) if re.match(r'(NTL::)?Vec<(int64_t|long)>\s*&', str((q.get('t') or {}).get('s')))]
                if src is None and len(outs) == 2 and len(e.argv) >= 5:
                    src = (e, outs, g)
        if src:
            e0, outs, g0 = src
            roots = [root_text(e0.argv[k]) for k in outs]
            ints = [k for k, q in enumerate(g0['params']) if tname(q) in ('int64_t', 'long') and k not in (0,)]
            ok = any(is_par(e0.argv[k], P0) for k in ints[:1])
            c.ob(ok, 'prime-used', e0.where, '%s: default parameters' % sig(f), 'looked up for the prime given' if ok else 'looked up for another prime')
            for e in I.events:
                if e.kind != 'call' or not isinstance(e.node, dict):
                    continue
                g = P.callee(e.node)
                if g is None or g is g0:
                    continue
                vs = [k for k, q in enumerate(g['params']) if re.match(r'(const )?(NTL::)?Vec<(int64_t|long)>', str((q.get('t') or {}).get('s')))]
                if g['n'].startswith('frob_matrix') and vs:
                    rs = leaves_roots(e.argv[vs[0]])
                    ok = rs == {roots[0]}
                    c.ob(ok, 'truncation-used', e.where, '%s: %s' % (sig(f), g['n']), 'works with the truncation vector' if ok else 'works with %s' % sorted(rs))
                if 'charpoly' in g['n'] and len(vs) >= 1:
                    rs = leaves_roots(e.argv[vs[0]])
                    ok = rs == {roots[1]}
                    c.ob(ok, 'charpoly-precision-used', e.where, '%s: %s' % (sig(f), g['n']), 'works with the digits of the characteristic polynomial' if ok else 'works with %s' % sorted(rs))
                    ii = [k for k, q in enumerate(g['params']) if tname(q) in ('int64_t', 'long')]
                    if len(ii) >= 2:
                        ok = is_par(e.argv[ii[0]], P0)
                        c.ob(ok, 'prime-used', e.where, '%s: %s' % (sig(f), g['n']), 'for the prime given' if ok else 'for %s' % show(e.argv[ii[0]])[:60])
                        nn = [k for k in ints if k != ints[0]]
                        ok = same(vn.add(e.argv[ii[1]], vn.num(1)) if hasattr(vn, 'num') else e.argv[ii[1]], e0.argv[nn[0]]) if nn else True
                        c.ob(ok, 'dimension-used', e.where, '%s: %s' % (sig(f), g['n']), 'the dimension is one less than the number of variables minus one' if ok else 'dimension is %s' % show(e.argv[ii[1]])[:60])
        return f


def root_text(v):
    if not isinstance(v, T):
        return '?'
    return re.sub(r"'\d+$", '', show(v)).split('[')[0]


def leaves_roots(v):
    if isinstance(v, T) and v.op == 'ite':
        return leaves_roots(v.a[1]) | leaves_roots(v.a[2])
    if isinstance(v, T) and v.op in ('lx', 'lp'):
        return {root_text(v.a[1])}
    return {root_text(v)}


# ------------------------------------------------------------------ lints over all functions
def swapped(P, f):
    """calls that pass two of the caller's parameters exactly crosswise to the callee's parameters of the same names"""
    mine = {p['d']: p for p in f['params']}
    for n in facts.walk([f['body'], f.get('inits') or []]):
        if n['k'] not in ('Call', 'Ctor'):
            continue
        g = P.callee(n)
        if g is None:
            continue
        got = {}
        for a, q in zip(n.get('a') or [], g['params']):
            r = a
            while isinstance(r, dict) and r['k'] in ('ICast', 'Cast', 'Ctor'):
                r = r.get('e') or (r.get('a') or [None])[0]
            if isinstance(r, dict) and r['k'] == 'Ref' and r.get('d') in mine and q['n']:
                got[q['n']] = mine[r['d']]['n']
        yield n, g, [(x, y) for x, y in got.items() if x < y and got.get(y) == x] + [(x, got[x]) for x in got if x != got[x] and got.get(got[x]) == x and x < got[x]]


def referenced(f):
    return {n.get('d') for n in facts.walk([f['body'], f.get('inits') or []]) if n['k'] == 'Ref'}


def c11(c):
    P = facts.load()
    cls = classes(P)
    c.need(len(cls), 4, 'classes made from prime, precision and options')
    nc = 0
    for k in sorted(cls):
        for f in cls[k]:
            ctor_obligations(c, P, k, f)
            nc += 1
    c.need(nc, 20, 'constructors')
    ctors = {f['usr'] for v in cls.values() for f in v}
    fw = 0
    for qn, group in sorted(overloads(P).items()):
        fw += overload_obligations(c, P, group)
        if any(any('omp_set_num_threads' in (n.get('q') or '') for n in facts.walk(f['body']) if n['k'] == 'Call') for f in group):
            general(c, P, group, ctors)
    c.need(fw, 3, 'forwarding overloads')
    calls = 0
    for f in P.funcs.values():
        if f.get('dependent'):
            continue
        for n, g, bad in swapped(P, f):
            calls += 1
            if bad:
                c.ob(False, 'crossed', ck.where(f, n.get('l') or f['line']), '%s -> %s' % (f['qn'], g['qn']), 'arguments %s and %s are exchanged' % bad[0])
        r = referenced(f)
        for p in f['params']:
            if p['n']:
                c.ob(p['d'] in r, 'argument-used', ck.where(f, f['line']), '%s: %s' % (sig(f), p['n']), 'used' if p['d'] in r else 'never looked at')
    c.analysed['calls between library functions'] = calls
