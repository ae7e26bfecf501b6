"""C13: a build without assertions computes the same as one with them."""
import json
import facts, vn, ck
from facts import walk, AnalysisError

PURE_EXTERNAL_BAD = {'rand', 'random', 'printf', 'puts', 'putchar', 'fprintf', 'fflush', 'exit', 'abort', 'SetSeed', 'init', 'restore', 'save', 'push', 'time'}


def is_const_ref_or_value(t):
    if t is None:
        return True
    s = (t.get('c') or t.get('s') or '').strip()
    if s.endswith('&&'):
        return True
    if s.endswith('&') or s.endswith('*') or s.endswith(']'):
        inner = s[:-1].strip()
        return inner.startswith('const ') or inner.endswith('const')
    return True


class Purity:
    def __init__(self, P):
        self.P, self.memo = P, {}

    def fn(self, f):
        """None when calling f has no effect that outlives the call, else the reason"""
        u = f['usr']
        if u in self.memo:
            return self.memo[u]
        self.memo[u] = None
        I = vn.Interp(self.P, maxdepth=10).run(f)
        r = None
        for e in I.events:
            if e.kind in ('write', 'mapindex', 'free') and e.p is not None and e.p.a[0].a[0] in ('this', 'par', 'global', 'static', 'ptr'):
                if e.p.a[0].a[0] == 'par' and self.byval(f, e.p):
                    continue
                r = 'writes %s at %s' % (vn.show(e.p)[:80], e.where)
                break
            if e.kind == 'call' and vn.short(e.q or '') in PURE_EXTERNAL_BAD:
                r = 'calls %s at %s' % (vn.short(e.q), e.where)
                break
        self.memo[u] = r
        return r

    def byval(self, f, p):
        nm = p.a[0].a[-1]
        for q in f['params']:
            if q['n'] == nm:
                return not q['t'].get('ref') and not q['t'].get('ptr')
        return False

    def expr(self, e):
        """list of effects of evaluating expression e"""
        out = []
        for n in walk(e):
            k = n['k']
            if k == 'Assign':
                out.append((n, 'assignment'))
            elif k == 'Un' and n.get('o') in ('++', '--'):
                out.append((n, 'increment'))
            elif k in ('New', 'Delete', 'Throw', 'Lambda'):
                out.append((n, k.lower()))
            elif k == 'Call':
                r = self.call(n)
                if r:
                    out.append((n, r))
        return out

    def call(self, n):
        P = self.P
        f = P.callee(n)
        q = n.get('q') or '?'
        nm = vn.short(q)
        if f is not None and not f.get('dependent'):
            return self.fn(f) and '%s %s' % (nm, self.fn(f))
        d = P.decl(n)
        if nm in PURE_EXTERNAL_BAD:
            return 'calls ' + nm
        if d is None:
            return 'call of an unresolved function'
        if d.get('method') and not d.get('const') and not d.get('static'):
            obj = n.get('obj') or (n['a'][0] if n.get('a') else None)
            t = (obj or {}).get('t') or {}
            s = t.get('c') or t.get('s') or ''
            if nm in ('operator[]', 'operator()', 'find', 'end', 'begin', 'get', 'at', 'front', 'back', 'operator*', 'operator->', 'c_str', 'rep', 'length', 'count'):
                if nm == 'operator[]' and 'map<' in s and not s.startswith('const'):
                    return 'operator[] of a map inserts missing keys'
                return None
            return 'non-const method ' + nm
        for p in d['params']:
            if not is_const_ref_or_value(p):
                return 'passes a modifiable argument to ' + nm
        return None


def assertion(n):
    """condition when n is an assertion (also its unresolved form inside a template), else None"""
    if n['k'] == 'Assert':
        return n['c']
    if n['k'] == 'Cond' and (n.get('b') or {}).get('k') == 'Call' and not n['b'].get('q'):
        a = n['b'].get('a') or []
        if len(a) == 4 and a[0].get('k') == 'Str' and all(x.get('cls') == 'SourceLocExpr' for x in a[1:3]):
            return n['c']
    if n['k'] == 'Block' and len(n.get('b') or []) == 1 and n['b'][0].get('k') == 'If' and not n['b'][0].get('el'):
        th = n['b'][0]['th']
        b = th.get('b') if th.get('k') == 'Block' else [th]
        if b and b[0].get('k') == 'Call' and any(x.get('k') == 'Str' and str(x.get('v')).startswith('ASSERT FAILED') for x in b[0].get('a') or []):
            return n['b'][0]['c']
    return None


def strip(n):
    """body without assertions, positions and no-op statements"""
    if isinstance(n, list):
        return [y for y in (strip(x) for x in n) if y is not None]
    if isinstance(n, dict):
        if 'k' in n:
            if n['k'] == 'Null' or assertion(n) is not None:
                return None
            x = n
            if n['k'] == 'Cast' and (n.get('t') or {}).get('s') == 'void':
                e = n.get('e') or {}
                if e.get('k') == 'Int' or (e.get('k') in ('ICast', 'Cast') and (e.get('e') or {}).get('k') == 'Int'):
                    return None
        out = {}
        for k, v in n.items():
            if k in ('l', 'c', 'd', 'ot', 'at', 'line', 'col', 'f'):
                continue
            if k in ('t', 'from', 'ret'):
                out[k] = (v or {}).get('s') if isinstance(v, dict) else v
                continue
            if isinstance(v, (dict, list)):
                v = strip(v)
                if v is None:
                    continue
            out[k] = v
        return out
    return n


def c13(c):
    P = facts.load()
    pu = Purity(P)
    na = 0
    for f in sorted(P.funcs.values(), key=lambda f: (f['file'], f['line'])):
        for n in walk(f['body']):
            cond = assertion(n)
            if cond is None:
                continue
            na += 1
            eff = pu.expr(cond)
            if f.get('dependent'):
                eff = [x for x in eff if x[1] != 'call of an unresolved function']
            c.ob(not eff, 'assert-pure', ck.where(f, n.get('l')), 'assertion', '; '.join('%s' % r for _, r in eff)[:300] if eff else 'no side effect',
                 key='assert-pure|%s|%s' % (f['qn'], '; '.join(r for _, r in eff)[:80]))
    c.need(na, 60, 'assertions')
    # the program compiled without assertions is the same program minus the assertions
    Q = facts.load(extra=('-DNDEBUG',))
    same = 0
    for u, f in P.funcs.items():
        g = Q.funcs.get(u)
        if g is None and (f.get('dependent') or f.get('tsk')):
            continue    # a template instance that only an assertion asks for
        if g is None:
            c.ob(False, 'same-program', ck.where(f, f['line']), f['qn'], 'exists only when assertions are enabled')
            continue
        a, b = strip(f['body']), strip(g['body'])
        ok = json.dumps(a, sort_keys=True, default=str) == json.dumps(b, sort_keys=True, default=str)
        ok = ok and json.dumps(strip(f.get('inits')), sort_keys=True, default=str) == json.dumps(strip(g.get('inits')), sort_keys=True, default=str)
        same += ok
        c.ob(ok, 'same-program', ck.where(f, f['line']), f['qn'],
             'identical apart from assertions' if ok else 'statements other than assertions differ between a build with and without NDEBUG')
    for u, g in Q.funcs.items():
        if u not in P.funcs and not (g.get('dependent') or g.get('tsk')):
            c.ob(False, 'same-program', ck.where(g, g['line']), g['qn'], 'exists only when assertions are disabled')
    c.need(len(P.funcs), 120, 'functions compared')
    # the rule recognises an effect (self-test on a known impure expression kind)
    probe = {'k': 'Assign', 'a': {'k': 'Int'}, 'b': {'k': 'Int'}}
    if not pu.expr(probe):
        raise AnalysisError('purity rule does not recognise an assignment')

