"""C17: a precomputed matrix is the one of the key it was asked for."""
import re
import facts, vn, ck, walk
from vn import T, show
from gate import local, called, called_q, cargs
from exact import library
from moduli import sig

TAB = re.compile(r'^std::map<.*NTL::Mat<')


def nm(e):
    q = (e.q or '')
    n = re.sub(r'<[^:]*>$', '', q.rsplit('::', 1)[-1] if not q.endswith('>') else called_q(q))
    return n


def tables(P):
    out = {}
    for q, r in P.records.items():
        for fl in r['fields']:
            t = (fl.get('t') or {}).get('c') or ''
            if TAB.match(t) and 'NTL' in t and (r.get('file') or '').split('/')[0] not in ('tests', 'examples'):
                out[fl['n']] = key_type(t)
    return out


def key_type(t):
    s = t[len('std::map<'):]
    return 'vec' if s.startswith('NTL::Vec<long>') or s.startswith('NTL::Vec<int64_t>') else 'int'


def member(p):
    """(member, key, the selectors below) of a path or of the address of one"""
    if isinstance(p, T) and p.op in ('addr', 'rd'):
        p = p.a[0]
    if isinstance(p, T) and p.op == 'path' and show(p.a[0]) == 'this':
        s = p.a[1]
        if s and s[0][0] == 'f':
            if len(s) > 1 and s[1][0] == 'k':
                return s[0][1], s[1][1], s[2:]
            return s[0][1], None, s[1:]
    return None, None, ()


def own(p, tabs):
    m, k, r = member(p)
    return (m, k, r) if m in tabs else (None, None, ())


def text(t):
    return re.sub(r"'\d+", '', show(t))


def rootval(p):
    """what the root of a path points to"""
    r = p.a[0]
    return r.a[1] if isinstance(r, T) and r.op == 'root' and len(r.a) > 1 and isinstance(r.a[1], T) else None


def isparam(t):
    return isinstance(t, T) and text(t).startswith('par:') and '.' not in text(t) and '[' not in text(t)


def entry_of(v, tabs, keyed, I):
    """(table, key) of the entry a returned pointer or iterator designates"""
    if not isinstance(v, T):
        return set()
    if v.op == 'ite':
        return entry_of(v.a[1], tabs, keyed, I) | entry_of(v.a[2], tabs, keyed, I)
    if v.op == 'iter':
        m, k, r = member(v.a[0])
        return {(m, text(v.a[1]))} if m in tabs and k is None else {('?', text(v))}
    if v.op in ('addr', 'rd', 'path'):
        m, k, r = own(v, tabs)
        if m and k is not None:
            return {(m, text(k))}
        p = v.a[0] if v.op in ('addr', 'rd') else v
        if isinstance(p, T) and p.op == 'path' and rootval(p) is not None:
            return entry_of(rootval(p), tabs, keyed, I)
        return {('?', text(v))}
    if v.op == 'ptr':
        return entry_of(v.a[0], tabs, keyed, I)
    if v.op == 'call':
        for g, (t, i) in keyed.items():
            if called(v) == g:
                # arguments: the mutation stamp, the object, the parameters
                a = [x for x in cargs(v) if not (isinstance(x, T) and (x.op == 'fresh' or text(x) == 'this'))]
                if i < len(a):
                    return {(t, text(a[i]))}
        return {('?', text(v))}
    return {('?', text(v))}


def ops(e, tabs):
    """(table, key, kind) operations of an event on the tables themselves"""
    if e.kind in ('mapfind', 'mapindex'):
        m, k, r = member(e.p)
        if m in tabs and k is None:
            return [(m, e.v, e.kind)]
    if e.kind == 'call' and e.objp is not None:
        m, k, r = member(e.objp)
        n = nm(e)
        if m in tabs and k is None and n in ('erase', 'insert', 'emplace', 'try_emplace', 'insert_or_assign', 'at', 'count', 'clear', 'swap', 'extract', 'merge', 'lower_bound', 'upper_bound', 'operator='):
            return [(m, (e.argv or [None])[0], n)]
    return []


def absent(g, t, key):
    """the guards say that the table has no entry for the key"""
    for x in g:
        for y in walk.conj(x):
            if y.op == 'isend' and member(y.a[0])[0] == t and member(y.a[0])[1] is None and text(y.a[1]) == key:
                return True
            if y.op in ('eq0', 'bool', 'call', 'eq') and 'count(' in text(y) and t in text(y):
                return True
    return False


def c17(c):
    P = facts.load()
    tabs = tables(P)
    runs = {}
    inl = lambda g, s: local(g, s)
    for f in library(P):
        if any(n['k'] == 'Member' and n.get('n') in tabs for n in facts.walk(f['body'])) or f['n'].startswith(('get_', 'compute_')):
            runs[f['usr']] = (f, vn.Interp(P, inline=inl).run(f))
    # functions that work on the entry of their own argument
    keyed, ofs = {}, {}
    for u, (f, I) in runs.items():
        o = [(e,) + x for e in I.events for x in ops(e, tabs)]
        ofs[u] = o
        pk = {text(k) for e, t, k, kd in o if isparam(k)}
        if not o or f.get('ctor') or f['n'] == (f.get('cls') or '').split('::')[-1]:
            continue
        if len(pk) == 1:
            i = [q['n'] for q in f['params']].index(list(pk)[0][4:])
            filled = {t for e, t, k, kd in o if kd in ('mapindex', 'insert', 'emplace', 'try_emplace', 'insert_or_assign') and isparam(k)}
            keyed[f['n']] = (None, i, filled, {t for e, t, k, kd in o})
    def rets(f, I):
        return [e for e in I.events if e.kind == 'ret' and isinstance(e.v, T)]
    pointerish = {}
    for u, (f, I) in runs.items():
        t = ((f.get('ret') or {}).get('c') or '') if isinstance(f.get('ret'), dict) else str(f.get('ret'))
        pointerish[u] = bool(re.search(r'\*$|iterator|&$', t))
    # which table: the one filled, or the one of the function it delegates to
    own_t = {}
    for n, (x, i, filled, seen) in keyed.items():
        if len(filled) == 1:
            own_t[n] = list(filled)[0]
    for _ in range(3):
        for n, (x, i, filled, seen) in keyed.items():
            if n not in own_t and len(seen) == 1:
                own_t[n] = list(seen)[0]
    K = {n: (own_t[n], keyed[n][1]) for n in own_t}
    nops = nret = nconv = ner = ndel = 0
    for u, (f, I) in runs.items():
        ctor = f.get('ctor') or f['n'] == (f.get('cls') or '').split('::')[-1]
        o = ofs[u]
        mine = f['n'] in keyed
        if mine:
            key = 'par:' + f['params'][keyed[f['n']][1]]['n']
        c.ob(not o or ctor or mine or all(kd == 'mapfind' or kd == 'count' for e, t, k, kd in o), 'one-key', ck.where(f, f['line']), '%s: key' % sig(f),
             'works on the entry of its own argument' if mine else 'no table is changed here') if o and not ctor else None
        for e, t, k, kd in o:
            if ctor or not mine:
                continue
            nops += 1
            kt = text(k) if isinstance(k, T) else '?'
            if kd == 'clear' or kd in ('swap', 'merge', 'operator=', 'extract'):
                c.ob(False, 'own-key', e.where, '%s: %s.%s' % (sig(f), t, kd), 'the whole table is replaced')
                continue
            if kd == 'erase':
                continue
            if kd in ('lower_bound', 'upper_bound'):
                c.ob(False, 'own-key', e.where, '%s: %s of %s' % (sig(f), kd, t), 'finds the entry of a neighbouring key as well')
                continue
            if isinstance(k, T) and kd in ('insert', 'emplace'):
                kt = key if any(text(x) == key for x in vn.subterms(k)) else kt
            c.ob(kt == key, 'own-key', e.where, '%s: %s of %s at %s' % (sig(f), kd, t, kt),
                 'the key is the argument' if kt == key else 'not the entry of the argument %s' % key[4:])
            if kd in ('mapindex', 'insert', 'emplace', 'try_emplace', 'insert_or_assign') and f['n'] in own_t:
                c.ob(t == own_t[f['n']], 'own-table', e.where, '%s: %s' % (sig(f), t), 'fills the table it answers from')
        if mine and not ctor:
            t = own_t.get(f['n'])
            if not c.ob(t is not None, 'own-table', ck.where(f, f['line']), '%s: table' % sig(f), 'one table is filled' if t else 'several tables are filled'):
                continue
            # a present entry stays as it is
            for e in I.events:
                changes = e.kind == 'write' and own(e.p, tabs)[0] == t and own(e.p, tabs)[1] is not None
                if changes and not f.get('const'):
                    ok = absent(e.g, t, key) or all_sites_absent(P, runs, f, t, keyed[f['n']][1])
                    c.ob(ok, 'filled-once', e.where, '%s: %s written' % (sig(f), t), 'only when there was no entry' if ok else 'an entry that is already there would be overwritten')
            # the answer
            if pointerish[u]:
                for e in rets(f, I):
                    nret += 1
                    r = entry_of(e.v, tabs, K, I)
                    ok = r == {(t, key)}
                    c.ob(ok, 'answer', e.where, '%s: answer' % sig(f), 'the entry of %s for the argument' % t if ok else 'designates %s' % ', '.join('%s(%s)' % x for x in sorted(r)))
            # other representations of the same key
            for e in I.events:
                n = nm(e) if e.kind == 'call' else ''
                if n in K and K[n][0] in tabs and e.kind == 'call':
                    i = K[n][1]
                    if tabs[K[n][0]] != tabs[t] or i >= len(e.argv or []):
                        continue
                    ndel += 1
                    ok = text(e.argv[i]) == key
                    c.ob(ok, 'same-key', e.where, '%s: %s(%s)' % (sig(f), n, text(e.argv[i])), 'asked for the same key' if ok else 'asked for another key than %s' % key[4:])
            for e, t2, k, kd in o:
                if kd != 'erase':
                    continue
                ner += 1
                kt = text(k.a[1]) if isinstance(k, T) and k.op == 'iter' else text(k) if isinstance(k, T) else '?'
                sm = any('save_memory' in text(x) and not text(x).startswith('not') for x in e.g)
                gone = absent(e.g, t2, key)
                later = [x for x in after(I, e) if reads(x, t2)]
                ok = kt == key and t2 != t and sm and gone and not later
                c.ob(ok, 'erased', e.where, '%s: %s' % (sig(f), t2), 'only what this call had computed, after its use, to save memory' if ok else
                     'another key' if kt != key else 'its own table' if t2 == t else 'also when memory is not to be saved' if not sm else
                     'also an entry that was there before' if not gone else 'used again at line %s' % later[0].line)
            # conversions
            for d, srcs, e in conversions(I, t, tabs):
                nconv += 1
                m, k, rest = own(d, tabs)
                got = None
                for s in srcs:
                    got = source(s, tabs, K, I)
                    if got:
                        break
                ok = bool(got) and all(x[0] != t and x[1] == key for x in got[0]) and not any(x[0] == '?' for x in got[0]) and sels(got[1]) == sels(rest)
                c.ob(ok, 'converted', e.where, '%s: %s' % (sig(f), t), 'converted from the other representation of the same entry' if ok else
                     'converted from %s' % (got or 'something else',))
                if ok:
                    # nothing is left out
                    bad = [x for x in inner(e) if 'IsZero' not in text(x)]
                    full = all(covers_all(l) for l in e.loops)
                    c.ob(not bad and full, 'converted-all', e.where, '%s: %s' % (sig(f), t), 'every matrix of the entry' if not bad and full else 'only under %s' % (text(bad[0]) if bad else 'part of the range'))
    arrays(c, P)
    c.need(len(tabs), 10, 'tables filled on demand')
    c.need(len(K), 12, 'functions with a key')
    c.need(nret, 15, 'answers')
    c.need(nconv, 3, 'conversions of a representation')
    c.analysed.update({'operations on tables': nops, 'erasures': ner, 'requests for the same key': ndel})


def all_sites_absent(P, runs, f, t, i):
    n = 0
    for u, (g, I) in runs.items():
        for e in I.events:
            if e.kind == 'call' and nm(e) == f['n'] and i < len(e.argv or []):
                n += 1
                if not absent(e.g, t, text(e.argv[i])):
                    return False
    return n > 0


def after(I, e):
    i = I.events.index(e)
    no = {vn.lnot(g) for g in e.g}
    return [x for x in I.events[i + 1:] if not no & set(x.g)]


def reads(e, t):
    if e.kind in ('read',):
        return own(e.p, {t: 0})[0] == t and own(e.p, {t: 0})[1] is not None
    for v in [e.v] + list(e.argv or []):
        if isinstance(v, T):
            for x in vn.subterms(v):
                if x.op in ('rd', 'sel') and member(x)[0] == t and member(x)[1] is not None:
                    return True
                if x.op == 'iter' and member(x.a[0])[0] == t:
                    return True
    return False


def conversions(I, t, tabs):
    out = []
    for e in I.events:
        if e.kind == 'write' and own(e.p, tabs)[0] == t and own(e.p, tabs)[1] is not None and isinstance(e.v, T) and e.v.op == 'call' and called(e.v).startswith('conv'):
            out.append((e.p, cargs(e.v), e))
        if e.kind == 'call' and nm(e) in ('conv', 'NTL::conv') and len(e.argv or []) == 2 and own(e.argv[0], tabs)[0] == t and own(e.argv[0], tabs)[1] is not None:
            a = e.argv[0]
            out.append((a.a[0] if a.op in ('addr', 'rd') else a, e.argv[1:], e))
    return out


def source(s, tabs, K, I):
    """({(table, key)}, selectors below the entry) of the value converted"""
    if not isinstance(s, T):
        return None
    if s.op == 'addr' or s.op == 'rd':
        s = s.a[0]
    if s.op == 'sel':
        b = source(s.a[0], tabs, K, I)
        return (b[0], tuple(b[1]) + tuple(s.a[1])) if b else None
    if s.op == 'path':
        m, k, r = own(s, tabs)
        if m and k is not None:
            return {(m, text(k))}, r
        x = rootval(s)
        if x is not None:
            e = entry_of(x, tabs, K, I)
            r = tuple(s.a[1])
            if r and r[0][0] == 'i' and vn.const(r[0][1]) == 0:
                r = r[1:]
            if r and r[0] == ('f', 'second'):
                r = r[1:]
            return e, r
    return None


def sels(r):
    return [(x[0], text(x[1]) if isinstance(x[1], T) else x[1]) for x in r]


def inner(e):
    """guards inside the loops the event is in, the loop conditions aside"""
    if not e.loops:
        return []
    out = []
    for l in e.loops:
        own = set()
        for y in [l.cond] if isinstance(l.cond, T) else l.cond or []:
            own |= set(walk.conj(y))
        out.append(own)
    outer = getattr(e.loops[0], 'g0', None)
    res = []
    for x in e.g:
        for y in walk.conj(x):
            if any(y in o for o in out):
                continue
            if any(z.op in ('iv', 'ekey', 'lp', 'lx') and any(str(l.id) in show(z) for l in e.loops) for z in vn.subterms(y)):
                res.append(y)
    return res


def covers_all(l):
    return l.elem is not None or any(b[2] == 1 for b in l.ivs.values()) or l.kind == 'each'


# ------------------------------------------------------------ the table of final reductions (a vector)
def arrays(c, P):
    """vectors of matrices filled on demand: entry k-1 belongs to pole order k"""
    names = {fl['n'] for r in P.records.values() for fl in r['fields'] if re.match(r'^NTL::Vec<NTL::Mat<', (fl.get('t') or {}).get('c') or '') and fl['n'].endswith('dict')}
    n = 0
    for f in library(P):
        if f['n'] == (f.get('cls') or '').split('::')[-1] or not any(x['k'] == 'Member' and x.get('n') in names for x in facts.walk(f['body'])):
            continue
        I = vn.Interp(P, inline=local).run(f)
        ints = ['par:' + p['n'] for p in f['params'] if not (p['t'] or {}).get('rec')]
        if len(ints) != 1:
            continue
        par = ints[0]
        for e in I.events:
            ps = []
            if e.kind == 'write':
                ps = [e.p]
            elif e.kind == 'ret' and isinstance(e.v, T) and e.v.op == 'addr':
                ps = [e.v]
            for p in ps:
                m, k, r = member(p)
                if m in names and r and r[0][0] == 'i':
                    n += 1
                    ok = text(r[0][1]) == '(-1+%s)' % par
                    c.ob(ok, 'array-entry', e.where, '%s: %s[%s]' % (sig(f), m, text(r[0][1])), 'the entry of the argument' if ok else 'not entry %s-1' % par[4:])
        fills = [(e, h) for e in I.events if e.kind == 'call' for h in [nm(e)] if h.startswith('compute_') and e.loops and len(e.argv or []) == 1]
        grows = [e for e in I.events if e.kind == 'call' and nm(e) == 'SetLength' and member(e.objp)[0] in names and member(e.objp)[1] is None and not member(e.objp)[2]]
        for g in grows:
            n += 1
            m = member(g.objp)[0]
            old = 'len(this.%s,0)' % m
            ok = text(g.argv[0]) == par and any(text(x) == '[(-%s+%s)<0]' % (par, old) for x in g.g)
            c.ob(ok, 'array-grown', g.where, '%s: %s' % (sig(f), m), 'grown to the argument when it is shorter' if ok else 'grown to %s under %s' % (text(g.argv[0]), [text(x) for x in g.g][-1:]))
            i = I.events.index(g)
            mine = [(e, h) for e, h in fills if I.events.index(e) > i]
            ok2 = False
            for e, h in mine:
                lo, hi, st, _ = e.loops[-1].ivs.get(e.argv[0], (None, None, None, None))
                ok2 = st == 1 and show(lo) in ('(1+%s)' % old,) and text(hi) == '(1+%s)' % par and not inner(e)
            c.ob(ok2, 'array-filled', g.where, '%s: %s' % (sig(f), m), 'every new entry is computed, in increasing order' if ok2 else 'not every new entry is computed')
    c.need(n, 4, 'entries of vectors filled on demand')
