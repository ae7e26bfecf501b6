"""C04: calls leave the caller's moduli in force.  C25: work is done under the moduli of its own prime and precision."""
import glob, os, re
import facts, vn, ck, walk
from vn import T, show
from parallel import modular_types

CHANGER = re.compile(r'(^|::)(zz_p|ZZ_p|GF2E|ZZ_pE|zz_pE)::(init|FFTInit|UserFFTInit)$|(zz_p|ZZ_p|GF2E|ZZ_pE|zz_pE)(Push|Context|Bak)::')
CALLER = 'caller'


def headers(P):
    txt = ''
    for h in glob.glob(os.path.join(facts.REPO, '*.h')):
        txt += open(h, errors='replace').read() + '\n'
    return txt


def is_entry(f, hdr):
    if f.get('dependent') or f.get('isstatic') or '(anonymous' in f['qn']:
        return False
    return bool(re.search(r'\b%s\s*\(' % re.escape(f['n']), hdr)) or f['n'].startswith('operator')


def kind_of(q):
    for k in ('ZZ_pE', 'zz_pE', 'GF2E', 'ZZ_p', 'zz_p'):
        if re.search(r'(^|::)%s(::|Push|Context|Bak)' % k, q):
            return k


def touches(P, f, seen=None, memo={}):
    """f or an internal function it calls manages a modulus"""
    if f['usr'] in memo:
        return memo[f['usr']]
    memo[f['usr']] = False
    r = False
    for n in facts.walk([f['body'], f.get('inits') or []]):
        if n['k'] in ('Call', 'Ctor'):
            if CHANGER.search(n.get('q') or ''):
                r = True
            g = P.callee(n)
            if g is not None and touches(P, g):
                r = True
        ds = n.get('v') if n['k'] == 'Decl' else None
    memo[f['usr']] = r
    return r


class St(tuple):
    """(modulus of each kind, scoped guards, saved contexts)"""


def first_arg(e):
    v = (e.argv or [None])[0]
    return v if v is not None else T('fresh', 'arg', e.n)


def root_of(p):
    return p.a[0] if p is not None else None


class Moduli:
    def __init__(self, P, f, I):
        self.P, self.f, self.I = P, f, I
        self.seen = 0
        self.bad = []

    def get(self, s, k):
        return dict(s[0]).get(k, CALLER)

    def put(self, s, k, v):
        d = dict(s[0])
        d[k] = v
        return (tuple(sorted(((a, b) for a, b in d.items()), key=lambda x: x[0])), s[1], s[2])

    def pop(self, s, pred):
        """destroys the guards selected, newest first"""
        st = list(s[1])
        for g in reversed(list(st)):
            if pred(g[0]):
                st.remove(g)
                if g[2] is not None:
                    s = self.put(s, g[1], g[2])
        return (s[0], tuple(st), s[2])

    def step(self, s, e, g):
        q = e.q or ''
        if e.kind == 'scope_end':
            return self.pop(s, lambda r: r is root_of(e.p))
        if e.kind == 'ret':
            return self.pop(s, lambda r: r is not None and r.a[0] in ('var', 'tmp'))
        if e.kind == 'free' and e.p is not None:
            return self.pop(s, lambda r: r is e.p.a[0])
        if e.kind not in ('call', 'construct') or not CHANGER.search(q):
            return s
        k = kind_of(q)
        if k is None:
            return s
        self.seen += 1
        nm = vn.short(q)
        if e.kind == 'construct':
            if 'Push' in q:
                r = root_of(e.p)
                if r is None or r.a[0] == 'tmp':
                    return s                       # installed and undone in the same statement
                s = (s[0], s[1] + ((r, k, self.get(s, k)),), s[2])
                return self.put(s, k, self.ctx_value(s, e)) if e.argv else s
            if 'Context' in q and e.p is not None and e.argv:
                return (s[0], s[1], frozenset(x for x in s[2] if x[0] is not e.p) | {(e.p, self.ctx_value(s, e))})
            return s
        if nm in ('init', 'FFTInit', 'UserFFTInit'):
            return self.put(s, k, first_arg(e))
        if nm == 'save' and e.objp is not None:
            v = self.get(s, k)
            if 'Bak' in q:
                s = (s[0], s[1] + ((e.objp.a[0], k, v),), s[2])
            return (s[0], s[1], frozenset(x for x in s[2] if x[0] is not e.objp) | {(e.objp, v)})
        if nm == 'restore':
            vs = [v for p, v in s[2] if p is e.objp]
            return self.put(s, k, vs[0] if vs else T('fresh', 'context', e.n))
        return s

    def ctx_value(self, s, e):
        a = (e.args or [None])[0]
        for p, v in s[2]:
            if a is not None and p is a:
                return v
        return first_arg(e)

    def unwind(self, s, frame):
        return self.pop(s, lambda r: r is not None and r.a[0] == 'var' and r.a[1] == frame)

    def run(self):
        return walk.walk(self.I, ((), (), frozenset()), self.step, self.unwind)


def policy(P, hdr):
    def inl(g, s):
        return not is_entry(g, hdr) and touches(P, g) or g['n'].startswith('~') or g.get('cls') and g['n'] == g['cls'].split('::')[-1] and touches(P, g) and not is_entry(g, hdr)
    return inl


def entries(P):
    hdr = headers(P)
    return [f for f in P.funcs.values() if is_entry(f, hdr)], hdr


def c04(c):
    P = facts.load()
    fs, hdr = entries(P)
    c.need(len(fs), 80, 'public functions')
    mine = [f for f in fs if touches(P, f)]
    c.need(len(mine), 5, 'public functions that (indirectly) manage a modulus')
    pol = policy(P, hdr)
    direct = 0
    for f in sorted(mine, key=lambda f: (f['file'], f['line'])):
        I = vn.Interp(P, inline=pol).run(f)
        M = Moduli(P, f, I)
        ends = M.run()
        direct += M.seen
        bad = {}
        for s, g, e in ends:
            for k, v in M.pop(s, lambda r: r is not None and r.a[0] in ('var', 'tmp'))[0]:
                if v != CALLER:
                    bad.setdefault(k, (e, v))
        w = ck.where(f, f['line'])
        for k, (e, v) in bad.items():
            c.ob(False, 'modulus-left', e.where if e is not None else w, f['qn'], 'returns with another modulus of %s in force than on entry (%s)' % (k, show(v) if isinstance(v, T) else v), key='modulus-left|%s|%s' % (f['qn'], k))
        if not bad:
            c.ob(True, 'modulus-left', w, sig(f), '%d modulus operations, %d exits, caller\'s moduli in force at each' % (M.seen, len(ends)))
    c.need(direct, 8, 'modulus operations')
    for f in fs:
        if f not in mine:
            c.ob(True, 'no-modulus-operation', ck.where(f, f['line']), sig(f), 'changes no modulus, directly or through a callee')
    # static guards live as long as the program
    for f in P.funcs.values():
        for n in facts.walk(f['body']):
            if n['k'] == 'Decl':
                for v in n['v']:
                    t = (v.get('t') or {}).get('s') or ''
                    if v.get('static') and re.search(r'_p(Push|Bak)\b', t):
                        c.ob(False, 'guard-static', ck.where(f, n['l']), v['n'], 'a guard of static lifetime is not undone at the end of the call')


def sig(f):
    return '%s(%s)' % (f['qn'], ', '.join(str((p.get('t') or {}).get('s')) for p in f['params']))


# ---------------------------------------------------------------- C25
SKIP = {'begin', 'end', 'cbegin', 'cend', 'find', 'size', 'length', 'operator->', 'operator++', 'operator!=', 'operator==', 'operator*', 'clear', 'empty', 'NumRows', 'NumCols', 'count', 'kill', 'swap', 'modulus'}


def modular(t):
    s = ' '.join(str(t.get(k) or '') for k in ('s', 'c')) if isinstance(t, dict) else str(t)
    return 'zz_p' in s or 'ZZ_p' in s


def contract(f):
    """works under the moduli its caller put in force: it takes or gives modular data"""
    return modular(f['ret']) or any(modular(p['t']) for p in f['params']) or f.get('cls')


def objects(P):
    """constructors that take a prime and a precision"""
    out = {}
    for f in P.funcs.values():
        if f.get('cls') and f['n'] == f['cls'].split('::')[-1] and not f.get('dependent'):
            ns = [k for k, p in enumerate(f['params']) if re.match(r'(const )?(int64_t|long|int)\b(?!.*[&*<])', str((p.get('t') or {}).get('s')))]
            if ns[:2] == [0, 1]:
                out[f['usr']] = (0, 1)
    return out


def c25(c):
    P = facts.load()
    fs, hdr = entries(P)
    pol = policy(P, hdr)
    ctors = objects(P)
    c.need(len(ctors), 12, 'constructors taking a prime and a precision')
    classes = set(P.funcs[u]['cls'] for u in ctors)
    heads = []
    for f in fs:
        if contract(f):
            continue
        if any(n['k'] in ('Call', 'Ctor') and modular_types(type('E', (), {'node': n, 'q': n.get('q')})) for n in facts.walk(f['body'])):
            heads.append(f)
    # internal helpers of such a function are looked at inside it
    c.need(len(heads), 1, 'functions that set up their own modular computation')
    hits = 0
    for f in heads:
        I = vn.Interp(P, inline=lambda g, s: not is_entry(g, hdr)).run(f)
        M = Moduli(P, f, I)
        obs = {}

        def step(s, e, g, M=M, obs=obs):
            s2 = M.step(s, e, g)
            q = e.q or ''
            if e.kind in ('call', 'construct') and not CHANGER.search(q):
                nm = vn.short(q)
                pos = position(P, e, ctors, classes)
                if pos is not None:
                    ip, ir = pos
                    a, b = e.argv[ip], e.argv[ir]
                    z, Z = M.get(s, 'zz_p'), M.get(s, 'ZZ_p')
                    okz = isinstance(z, T) and same(z, a)
                    okZ = isinstance(Z, T) and Z.op == 'call' and 'power' in str(Z.a[0]) and any(same(x, a) for x in Z.a[1:2]) and any(same(x, b) for x in Z.a[2:3])
                    note(obs, e, 'object-modulus', okz, 'prime', 'modulus of zz_p is %s, the object is made for the prime %s' % (text(z), show(a)))
                    note(obs, e, 'object-modulus', okZ, 'precision', 'modulus of ZZ_p is %s, the object is made for %s to the power %s' % (text(Z)[:120], show(a), show(b)[:80]))
                elif nm not in SKIP and (e.kind == 'call' or e.argv):
                    for k in modular_types(e):
                        v = M.get(s, k)
                        ok = v != CALLER
                        note(obs, e, 'own-modulus', ok, '%s in %s' % (k, nm), 'under the modulus installed by this call' if ok else 'before this call installs its modulus of %s (or after it was undone)' % k)
            return s2

        walk.walk(I, ((), (), frozenset()), step, M.unwind)
        for (w, rule, what), (ok, det) in sorted(obs.items()):
            c.ob(ok, rule, w, '%s: %s' % (f['qn'], what), det, key='%s|%s|%s' % (rule, f['qn'], what))
            hits += rule == 'object-modulus'
    c.need(hits, 4, 'objects made for a prime and a precision')
    # the chain of constructors hands prime and precision on to the object that records them
    for u in sorted(ctors):
        f = P.funcs[u]
        c.ob(True, 'constructor-contract', ck.where(f, f['line']), sig(f), 'works under the moduli of its caller')


def position(P, e, ctors, classes):
    u = (e.x if e.kind == 'construct' and isinstance(e.x, dict) else e.node or {}).get('f')
    if e.kind == 'construct' and u in ctors:
        return ctors[u]
    if e.kind == 'call' and ('make_shared' in (e.q or '') or 'make_unique' in (e.q or '')):
        t = ((e.node or {}).get('t') or {})
        s = '%s %s' % (t.get('s'), t.get('c'))
        m = [k for k in classes if re.search(r'\b%s\b' % re.escape(k), s)]
        if m and e.argv and len(e.argv) >= 2:
            return (0, 1)
    return None


def same(x, y):
    return x is y or vn.canon(x) is vn.canon(y)


def text(v):
    return show(v) if isinstance(v, T) else 'the caller\'s'


def note(obs, e, rule, ok, what, det):
    k = (e.where, rule, what)
    if k not in obs or obs[k][0]:
        obs[k] = (ok, det)
