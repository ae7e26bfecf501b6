"""C14: a division that has to be exact is checked, or exact by construction."""
import re
import facts, vn, ck, walk
from vn import T, show
from gate import local, called, called_q, cargs, root_name
from moduli import sig

# quotient and remainder; position of the remainder among the arguments
QR = {'DivRem': 1, 'fmpz_fdiv_qr': 1, 'fmpz_tdiv_qr': 1, 'fmpz_cdiv_qr': 1, 'mpz_fdiv_qr': 1, 'mpz_tdiv_qr': 1, 'mpz_cdiv_qr': 1}
# quotient only: rounds silently
Q = re.compile(r'^(fmpz|mpz)_[ftc]div_q(_ui|_si)?$|^(fmpz|mpz)_(divexact|tdiv_q_2exp|fdiv_q_2exp)(_ui|_si)?$|^div$|^RightShift$')
BIG = re.compile(r'NTL::(ZZ|Vec<ZZ>|ZZX)\b')


def library(P):
    for f in sorted(P.funcs.values(), key=lambda f: (f['file'], f['line'])):
        if not f.get('dependent') and '/test/' not in f['file'] and not f['file'].startswith('examples/') and not f['n'].startswith('test_'):
            yield f


def big_quotient(P, e):
    n = called_q(e.q)
    if Q.match(n):
        return n != 'div' or (e.q or '').startswith('NTL::')
    if n in ('operator/', 'operator/=', 'operator>>', 'operator>>='):
        if not (e.q or '').startswith('NTL::') or not isinstance(e.node, dict):
            return False
        r = str(e.node.get('t', {}).get('s') if isinstance(e.node.get('t'), dict) else e.node.get('t') or '')
        ts = [str((a.get('t') or {}).get('s') if isinstance(a.get('t'), dict) else a.get('t') or '') for a in (e.node.get('a') or []) + ([e.node['obj']] if e.node.get('obj') else []) if isinstance(a, dict)]
        return n in ('operator/', 'operator/=') and not any(re.search(r'\b(ZZ_p|zz_p|RR|xdouble|quad_float)\b', t) for t in ts + [r])
    return False


def rems(e):
    """root of the remainder of a dividing call, or 'value' when the remainder is returned"""
    n = called_q(e.q)
    if n in QR:
        a = e.argv or []
        if n == 'DivRem' and len(a) == 3:
            return 'value'
        if len(a) == 4:
            return root_name(a[1])
    return None


def zero_tests(x):
    """(term tested for zero, outcome) when x holds"""
    if x.op == 'bool':
        return zero_tests(x.a[0])
    if x.op == 'not':
        return [(t, not b) for t, b in zero_tests(x.a[0])]
    if x.op == 'and':
        return [y for z in x.a for y in zero_tests(z)]
    if x.op == 'call' and called(x) in ('IsZero', 'fmpz_is_zero'):
        return [(a, True) for a in cargs(x)]
    if x.op in ('eq0', 'eq'):
        out = [(t, True) for t in vn.subterms(x) if t.op in ('rd', 'call')]
        l = walk.linear(x.a[0]) if x.op == 'eq0' else None
        if l and l[0].op in ('bool', 'call') and called_name(l[0]) in ('IsZero', 'fmpz_is_zero'):
            y = zero_tests(l[0])
            return [(t, b == (l[2] != 0)) for t, b in y]
        if l and l[2] != 0:
            return []
        return out
    if x.op == 'call' and called(x) in ('operator!=',):
        return [(a, False) for a in cargs(x)] if any(vn.const(a) == 0 or show(a) in ('ZZ(0)', '0') for a in cargs(x)) else []
    if x.op == 'call' and called(x) in ('operator==',):
        return [(a, True) for a in cargs(x)] if any(vn.const(a) == 0 or show(a) in ('ZZ(0)', '0') for a in cargs(x)) else []
    return []


def called_name(t):
    while isinstance(t, T) and t.op == 'bool':
        t = t.a[0]
    return called(t) if isinstance(t, T) and t.op == 'call' else ''


def known(cond, root, old, term):
    """outcome of the zero test of this remainder: True, False or None"""
    for x in cond - old:
        for t, b in zero_tests(x):
            if root == 'value':
                if t is term:
                    return b
            else:
                for s in vn.subterms(t):
                    if s.op in ('rd', 'lp', 'lx', 'addr') and root_name(s) == root:
                        return b
    return None


QUIET = re.compile(r'clear|delete|free|operator<<|endl|is_zero|IsZero|rep$|~')


def c14(c):
    P = facts.load()
    nd = nq = nf = 0
    for f in library(P):
        if not any(n['k'] == 'Call' and (called_q(n.get('q')) in QR or Q.match(called_q(n.get('q'))) or 'operator/' in (n.get('q') or '')) for n in facts.walk(f['body'])):
            continue
        nf += 1
        I = vn.Interp(P, inline=local).run(f)
        divs = {id(e): e for e in I.events if e.kind == 'call' and rems(e)}
        nd += len(divs)
        bad, used = {}, {}
        retv = {}
        for i, e in enumerate(I.events):
            if id(e) in divs and rems(e) == 'value':
                for x in I.events[i + 1:]:
                    ts = [t for v in [x.v] + list(x.argv or []) if isinstance(v, T) for t in vn.subterms(v) if t.op == 'call' and called(t) == called_q(e.q)]
                    if ts:
                        retv[id(e)] = ts[0]
                        break

        def settle(s, cond, e=None):
            out = []
            for d, st, old in s:
                k = known(cond, rems(divs[d]), old, retv.get(d))
                if k is True:
                    continue
                if k is False:
                    st = 'nonzero'
                out.append((d, st, old))
            return frozenset(out)

        def step(s, e, cond):
            if e.kind == 'assert' and isinstance(e.v, T):
                cond = cond | walk.conj(e.v)
            s = settle(s, cond, e)
            if e.kind in ('break', 'continue', 'ret', 'abort'):
                left = frozenset(x for x in s if x[1] != 'nonzero')
                if e.kind == 'ret':
                    for d, st, old in left:
                        bad[d] = 'may reach the end of the function unchecked'
                return left
            for d, st, old in s:
                if st == 'nonzero' and e.kind == 'call' and not QUIET.search(called_q(e.q)):
                    used[d] = e
            if id(e) in divs:
                r = rems(e)
                for d, st, old in s:
                    if st == 'pending' and rems(divs[d]) == r and (r != 'value' or d == id(e)):
                        bad[d] = 'is overwritten before it is checked'
                return frozenset(x for x in s if not (rems(divs[x[0]]) == r and (r != 'value' or x[0] == id(e)))) | {(id(e), 'pending', frozenset(x for x in cond if any(root_name(t) == r for t in vn.subterms(x) if t.op in ('rd', 'lp', 'lx', 'addr'))))}
            return s
        for s, g, ret in walk.walk(I, frozenset(), step):
            for d, st, old in settle(s, g):
                if st == 'pending':
                    bad[d] = bad.get(d, 'is not checked on every path')
                elif ret is None or st == 'nonzero':
                    used.setdefault(d, None)
        for d, e in divs.items():
            ok = d not in bad and d not in used
            det = 'the remainder is required to be zero' if ok else 'the remainder ' + bad[d] if d in bad else 'the quotient is used although the remainder is known not to be zero'
            c.ob(ok, 'remainder-zero', e.where, '%s: %s' % (sig(f), called_q(e.q)), det)
        for e in I.events:
            if e.kind == 'call' and big_quotient(P, e):
                nq += 1
                ok = binomial_quotient(I, e)
                c.ob(ok, 'exact-quotient', e.where, '%s: %s' % (sig(f), called_q(e.q)),
                     'm consecutive factors divided by m!' if ok else 'the remainder is dropped and nothing shows that it is zero')
    c.need(nd, 9, 'divisions with remainder')
    c.analysed['quotients exact by construction'] = nq
    c.need(nf, 8, 'functions that divide big integers')


def product_range(I, v):
    """[a, b) when the value v is the product of the integers a..b-1"""
    if not (isinstance(v, T) and v.op in ('lx', 'rd')):
        return None
    name = root_name(v)
    ws = [e for e in I.events if e.kind in ('write', 'construct', 'call') and (
        e.kind == 'call' and called_q(e.q) in ('operator*=', 'mul', 'MulBy') and root_name((e.argv or [None])[0]) == name
        or e.kind == 'write' and show(e.p) == name or e.kind == 'construct' and show(e.p) == name)]
    got, one = None, False
    for e in ws:
        if e.kind == 'construct':
            one = one or bool(e.argv) and vn.const(e.argv[0]) == 1
        elif e.kind == 'write' and isinstance(e.v, T):
            if e.loops:
                # x = x * i
                if e.v.op == 'call' and called(e.v) == 'operator*' and any(root_name(a) == name for a in cargs(e.v)):
                    fs = [a for a in cargs(e.v) if root_name(a) != name]
                    got = loop_range(e, fs[0]) if got is None and len(fs) == 1 else False
                else:
                    return None
            elif vn.const(e.v) == 1 or show(e.v) in ('ZZ(1)', 'new ZZ(1)'):
                one = True
            elif got is None:
                return None
        elif e.kind == 'call':
            if not e.loops:
                return None
            got = loop_range(e, e.argv[1]) if got is None else False
    return got if got and one else None


def loop_range(e, i):
    if len(e.loops) != 1 or not isinstance(i, T):
        return None
    b = e.loops[-1].ivs.get(i)
    if b is None or not isinstance(b[1], T):
        return None
    lo, hi, st, _ = b
    extra = set(e.g) - {g for y in ([e.loops[-1].cond] if isinstance(e.loops[-1].cond, T) else e.loops[-1].cond or []) for g in walk.conj(y)}
    if any(i in vn.subterms(x) for x in extra):
        return None
    return (lo, hi) if st == 1 else (hi, vn.add(lo, vn.num(1))) if st == -1 else None


def binomial_quotient(I, e):
    a = e.argv or []
    if called_q(e.q) == 'div':
        a = a[1:]
    if len(a) != 2:
        return False
    n, d = product_range(I, a[0]), product_range(I, a[1])
    if not n or not d:
        return False
    return vn.const(d[0]) == 1 and vn.sub(n[1], n[0]) is vn.sub(d[1], d[0])
