"""C01 race freedom, C02 prefilled caches, C03 modulus of workers."""
import facts, vn, par, ck
from facts import AnalysisError
from vn import show, pkey, prefix, may_alias, const
from par import Region, Caches, in_region, chain

NONREENTRANT = {'rand', 'srand', 'strtok', 'setlocale', 'localtime', 'gmtime', 'asctime', 'ctime', 'srand48', 'drand48',
                'omp_set_num_threads', 'omp_set_nested', 'omp_set_dynamic', 'tmpnam', 'putenv', 'setenv', 'flint_cleanup_master'}


def parallel_kind(p):
    return 'parallel' in p.node['dir']


def owner(e):
    """innermost parallel region executing e"""
    for p in chain(e.par):
        if parallel_kind(p):
            return p
    return None


def analyse(usr):
    P = facts.load()
    f = P.funcs[usr]
    I = vn.Interp(P, inline=par.no_max, reads=True).run(f)
    out = []
    nreg = nev = 0
    for R in I.pars:
        if not parallel_kind(R) or R.fn is not f:
            continue                      # regions of callees are analysed with their own function ...
        nreg += 1
        reg = Region(I, R)
        nev += len(reg.ev)
        out += races(I, R, reg)
    out += modulus(I, f)
    return {'fn': f['qn'], 'regions': nreg, 'events': nev, 'obs': out}


def ob(ok, prop, rule, where, what, detail=''):
    return {'prop': prop, 'rule': rule, 'where': where, 'what': what, 'ok': ok, 'detail': detail}


def races(I, R, reg):
    caches = Caches(I, R)
    out = []
    shared = []
    for e in reg.ev:
        if e.kind in ('write', 'mapindex', 'read', 'mapfind') and e.p is not None:
            if not reg.local_root(e.p.a[0]):
                shared.append(e)
        elif e.kind == 'call' and vn.short(e.q) in NONREENTRANT:
            out.append(ob(False, 'C01', 'reentrant', e.where, vn.short(e.q), 'call in a parallel region changes process-wide state'))
    accesses = {}
    for e in shared:
        accesses.setdefault(e.p.a[0], []).append(e)
    seen = {}
    written_roots = {}
    for e in shared:
        if e.kind == 'write' and not caches.excluded(e):
            written_roots.setdefault(pkey(e.p), e)
    for e in shared:
        if e.kind not in ('write', 'mapindex'):
            continue
        r = e.p.a[0]
        if r.a[0] == 'global' and str(r.a[-1]).startswith('std::'):
            continue
        if r.a[0] == 'static' and e.x == 'static':
            continue                          # initialised once, under the language's own lock
        ex = caches.excluded(e)
        what = '%s %s' % (e.x if e.kind == 'write' else 'lookup-or-insert', show(e.p)[:140])
        k = (e.where, what)
        if ex:
            if seen.get(k) is None:
                seen[k] = True
                out.append(ob(True, 'C02', 'prefilled', e.where, what, ex))
            continue
        missg = [g for g in e.g if g not in R.g and (caches.miss(g) and caches.miss(g)[0].a[0] is r or grows(g, r))]
        if e.kind == 'mapindex':
            if not any(key_conf(pkey(e.p), w) for w in written_roots):
                out.append(ob(True, 'C01', 'closed-table', e.where, what, 'table never written in the region; every key it is asked for exists'))
                continue
            if not missg and caches.prefilled(e.p):
                out.append(ob(True, 'C02', 'prefilled', e.where, what, 'lookup in a prefilled cache'))
                continue
        if e.crit:
            bad = None
            for a in accesses[r]:
                if may_alias(a.p, e.p) and not (a.crit and set(a.crit) & set(e.crit)) and not caches.excluded(a):
                    if a.kind in ('read', 'mapfind') and a.x in ('index', 'len') and strictly_above(a.p, e.p) and e.x not in ('SetLength', 'SetDims', 'erase', 'insert', 'swap') \
                            and e.kind != 'mapindex' and not maplike(a, e):
                        continue
                    bad = a
                    break
            out.append(ob(bad is None, 'C01', 'critical', e.where, what,
                          'all overlapping accesses hold the lock' if bad is None else 'accessed without the lock at %s' % bad.where))
            continue
        own = owned(reg, e.p)
        if own is not None and e.kind == 'write':
            bad = None
            for a in accesses[r]:
                if not may_alias(a.p, e.p) or caches.excluded(a):
                    continue
                o2 = owned(reg, a.p)
                if o2 is not None and o2[0] == own[0] and o2[1] is own[1] and o2[2] is own[2] and o2[3] is own[3]:
                    continue
                if a.kind in ('read', 'mapfind') and a.x in ('index', 'len') and len(a.p.a[1]) <= own[0]:
                    continue
                if a.crit and e.crit and set(a.crit) & set(e.crit):
                    continue
                bad = a
                break
            out.append(ob(bad is None, 'C01', 'partitioned', e.where, what,
                          'element owned by one iteration' if bad is None else 'overlaps the access %s at %s' % (show(bad.p)[:100], bad.where)))
            continue
        if missg:
            c = caches.miss(missg[-1])
            C = c[0] if c else None
            why = '; '.join('%s: %s' % (show(k), v) for k, v in caches.why.items())[:400]
            out.append(ob(False, 'C02', 'prefilled', e.where, what,
                          'a worker may find the cache entry missing and write it concurrently (%s)' % why))
            continue
        out.append(ob(False, 'C01', 'shared-write', e.where, what, 'unsynchronised write to memory shared by the threads of %s:%s' % (R.fn['file'], R.node['l'])))
    return out


def strictly_above(p, q):
    return prefix(p, q) and p is not q


def maplike(a, e):
    """the read passes through a map node that the write may rebalance"""
    return False


def key_conf(a, b):
    return vn.key_conflict(a, b)


def grows(g, r):
    if g.op != 'lt0':
        return False
    return any(x.op == 'len' and x.a[0].op == 'path' and x.a[0].a[0] is r and x.a[0].a[1] and const(par.coeff(g.a[0], x)[0] or vn.ZERO) == 1 for x in vn.subterms(g) if x.op == 'len')


def owned(reg, p):
    for i, s in enumerate(p.a[1]):
        if s[0] == 'i':
            o = reg.owned_index(s[1])
            if o is not None:
                return (i,) + o
    return None


# ---------------------------------------------------------------- modulus
def modular_types(e):
    n = e.node
    ts = []
    if n is None:
        return set()
    for a in [n] + list(n.get('a') or []) + ([n['obj']] if n.get('obj') else []):
        t = a.get('t') if isinstance(a, dict) else None
        if isinstance(t, dict):
            ts.append((t.get('c') or '') + ' ' + (t.get('s') or ''))
    d = ' '.join(ts) + ' ' + (e.q or '')
    out = set()
    if 'zz_p' in d:
        out.add('zz_p')
    if 'ZZ_p' in d:
        out.add('ZZ_p')
    return out


def modulus(I, f):
    out = []
    regions = [p for p in I.pars if parallel_kind(p) and p.fn is f]
    for R in regions:
        caches = Caches(I, R)
        outer = [(Caches(I, Q)) for Q in chain(R.parent) if parallel_kind(Q)]
        mine = [e for e in I.events if owner(e) is R]
        if mine and any(q.excluded(mine[0]) for q in outer):
            continue                      # region only reached from inside another one when a prefilled entry were missing
        mine = [e for e in mine if not caches.excluded(e) and not any(q.excluded(e) for q in outer)]
        base = set(R.g)
        worksharing = set()
        for e in mine:
            for L in e.loops:
                if L.par is not None and any(p is R for p in chain(L.par)) and L.cond is not None:
                    worksharing.add(L.cond)
        inst = {'ZZ_p': None, 'zz_p': None}
        bad = {'ZZ_p': None, 'zz_p': None}
        first = {'ZZ_p': None, 'zz_p': None}
        count = 0
        for e in mine:
            if e.kind not in ('call', 'construct'):
                continue
            nm = vn.short(e.q or '')
            kinds = modular_types(e)
            q = e.q or ''
            ctxk = 'zz_p' if 'zz_pContext' in q or 'zz_pPush' in q else 'ZZ_p' if 'ZZ_pContext' in q or 'ZZ_pPush' in q else None
            if ctxk:
                if nm == 'restore' or 'Push' in q:
                    uncond = all(g in base or g in worksharing for g in e.g)
                    src = e.objp if nm == 'restore' else ctx_arg(e)
                    ok, why = saved_by_caller(I, R, src, ctxk)
                    if uncond and ok:
                        inst[ctxk] = inst[ctxk] or e
                    else:
                        bad[ctxk] = (e, why or 'only under a condition')
                continue
            for k in kinds:
                count += 1
                if first[k] is None and inst[k] is None:
                    first[k] = e
        for k in ('ZZ_p', 'zz_p'):
            if inst[k] is None and first[k] is None:
                continue
            w = '%s:%s (%s)' % (R.fn['file'], R.node['l'], R.fn['qn'])
            if first[k] is None:
                out.append(ob(True, 'C03', 'modulus-installed', w, 'modulus of %s' % k, 'installed at line %s before %d modular operations' % (inst[k].line, count)))
            else:
                why = 'operation on %s at %s before the caller\'s modulus is installed in the worker' % (k, first[k].where)
                if bad[k]:
                    why += ' (%s: %s)' % (bad[k][0].where, bad[k][1])
                out.append(ob(False, 'C03', 'modulus-installed', w, 'modulus of %s' % k, why))
        if not any(first.values()) and not any(inst.values()):
            out.append(ob(True, 'C03', 'no-modular-operation', '%s:%s (%s)' % (R.fn['file'], R.node['l'], R.fn['qn']), 'no modular operation', '%d events' % len(mine)))
    return out


def ctx_arg(e):
    for a in e.args or []:
        if a is not None:
            return a
    return None


def saved_by_caller(I, R, ctx, kind):
    """does ctx hold the modulus the calling thread had when the region starts?"""
    if ctx is None:
        return False, 'context not identified'
    saved = None
    for e in I.events[:R.start]:
        q = e.q or ''
        nm = vn.short(q)
        if e.kind in ('call', 'construct'):
            if nm == 'save' and e.objp is ctx:
                saved = e if all(g in R.g for g in e.g) else None
            elif saved is not None and (kind + 'Push' in q or q.endswith(kind + '::init') or (nm == 'restore' and kind + 'Context' in q)):
                if 'Push' in q and kind not in q:
                    continue
                saved = None if e.par is None or owner(e) is None else saved
            if e.kind == 'construct' and e.p is ctx and e.argv and len(e.argv) >= 1 and any(x is not None and 'modulus' in show(x) for x in e.argv):
                saved = e
    return saved is not None, 'the context does not hold the calling thread\'s modulus'


_results = None


def results():
    global _results
    if _results is None:
        P = facts.load()
        fs = par.par_functions(P)
        _results = ck.pmap(analyse, [f['usr'] for f in fs])
    return _results


def run(c, prop):
    rs = results()
    c.need(sum(r['regions'] for r in rs), 4, 'parallel regions')
    c.analysed['functions with a parallel region'] = [r['fn'] for r in rs]
    c.analysed['events inside regions'] = sum(r['events'] for r in rs)
    seen = set()
    for r in rs:
        for o in r['obs']:
            o = dict(o)
            p = o.pop('prop')
            if p == prop or (prop == 'C01' and p == 'C02'):
                k = (o['rule'], o['where'], o['what'], o['ok'])
                if k in seen:
                    continue
                seen.add(k)
                o['key'] = '%s|%s|%s' % (o['rule'], o['where'].split('(')[-1], o['what'][:60])
                c.obs.append(o)


def c01(c):
    run(c, 'C01')
    c.need(sum(o['rule'] == 'partitioned' for o in c.obs) + sum(o['rule'] == 'critical' for o in c.obs), 6, 'synchronised or partitioned shared writes')


def c02(c):
    run(c, 'C02')
    c.need(len(c.obs), 20, 'guarded cache writes reachable from workers')


def c03(c):
    run(c, 'C03')
    c.need(len(c.obs), 4, 'parallel regions judged')
