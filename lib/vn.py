"""Value numbering over the resolved program.

An abstract interpreter over the structured syntax tree the extractor emits:
 * calls to repository functions are inlined (bounded depth, no recursion);
 * every expression gets a value number (an interned term); integer arithmetic
   is kept in polynomial normal form, so `d*n-n` and `n*(d-1)` are one number;
 * memory is addressed by access paths (root object + field / index / map-key
   selectors); reads of unknown memory are numbered by (path, version) and a
   write bumps the version of what it may touch;
 * loops are visited with everything they may modify forgotten first (found by a
   preliminary pass and re-checked), induction variables become interval
   variables, container traversals become element variables;
 * nothing is executed: no path is enumerated and no input value is chosen; at
   joins, values that differ become a conditional number.

The result is a tree (sequence / alternative / loop / inlined call / parallel
region / critical section) of events: calls, writes, reads, returns, aborts.
"""
import sys
from facts import AnalysisError, walk

sys.setrecursionlimit(20000)


# ---------------------------------------------------------------- terms
class T:
    __slots__ = ('op', 'a', 'id', 'h')
    tab = {}

    def __new__(cls, op, *a):
        k = (op,) + a
        t = cls.tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op, t.a, t.id = op, a, len(cls.tab)
            t.h = hash(k)
            cls.tab[k] = t
        return t

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return show(self)


def num(n):
    return T('n', n)


ZERO, ONE = num(0), num(1)


def _poly(t):
    """term -> dict monomial(tuple of T) -> coefficient"""
    if t.op == 'n':
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'poly':
        return dict(t.a)
    return {(t,): 1}


def _mk(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if len(m) == 1 and c == 1:
            return m[0]
    return T('poly', *sorted(d.items(), key=lambda x: (tuple(y.id for y in x[0]))))


def add(a, b, k=1):
    d = _poly(a)
    for m, c in _poly(b).items():
        d[m] = d.get(m, 0) + k * c
    return _mk(d)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return add(ZERO, a, -1)


def mul(a, b):
    d = {}
    for m, c in _poly(a).items():
        for m2, c2 in _poly(b).items():
            mm = tuple(sorted(m + m2, key=lambda x: x.id))
            d[mm] = d.get(mm, 0) + c * c2
    return _mk(d)


def const(t):
    return t.a[0] if t.op == 'n' else None


def lt(a, b):
    """a < b, canonical"""
    d = sub(a, b)
    c = const(d)
    if c is not None:
        return num(1 if c < 0 else 0)
    return T('lt0', d)


def le(a, b):
    return lt(a, add(b, ONE))


def eq(a, b):
    if a is b:
        return ONE
    if a.op in ('str',) and b.op in ('str',):
        return ZERO
    for x in (a, b):
        if x.op in ('addr', 'iter', 'iterend', 'str'):
            return T('eq', *sorted((a, b), key=lambda x: x.id))
    d = sub(a, b)
    c = const(d)
    if c is not None:
        return num(1 if c == 0 else 0)
    d2 = neg(d)
    # one canonical sign
    if show(d2) < show(d):
        d = d2
    return T('eq0', d)


def lnot(a):
    c = const(a)
    if c is not None:
        return num(0 if c else 1)
    if a.op == 'not':
        return a.a[0]
    if a.op == 'lt0':            # not (x < 0)  <=>  -x - 1 < 0
        return T('lt0', sub(neg(a.a[0]), ONE))
    return T('not', a)


def land(a, b):
    if const(a) is not None:
        return b if const(a) else ZERO
    if const(b) is not None:
        return a if const(b) else ZERO
    xs = set(a.a if a.op == 'and' else (a,)) | set(b.a if b.op == 'and' else (b,))
    if any(lnot(x) in xs for x in xs):
        return ZERO
    if len(xs) == 1:
        return xs.pop()
    return T('and', *sorted(xs, key=lambda x: x.id))


def lor(a, b):
    return lnot(land(lnot(a), lnot(b)))


def truth(t):
    """the boolean reading of an integer term"""
    if t.op in ('lt0', 'eq0', 'eq', 'not', 'and', 'bool', 'isend'):
        return t
    c = const(t)
    if c is not None:
        return num(1 if c else 0)
    return T('bool', t)


def ite(c, a, b):
    if a is b:
        return a
    k = const(c)
    if k is not None:
        return a if k else b
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if a.op == 'lt0' or b.op == 'lt0':
        pass
    return T('ite', c, a, b)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if not isinstance(t, T):
        if isinstance(t, tuple):
            for x in t:
                yield from subterms(x, seen)
        return
    if t in seen:
        return
    seen.add(t)
    yield t
    for x in t.a:
        if isinstance(x, (T, tuple)):
            yield from subterms(x, seen)


def subst(t, m):
    """replace subterms (by identity), renormalising polynomials"""
    if isinstance(t, tuple):
        return tuple(subst(x, m) for x in t)
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    if t.op == 'n':
        return t
    if t.op == 'poly':
        r = ZERO
        for mono, c in t.a:
            p = num(c)
            for x in mono:
                p = mul(p, subst(x, m))
            r = add(r, p)
        return r
    na = tuple(subst(x, m) for x in t.a)
    if na == t.a:
        return t
    if t.op == 'lt0':
        return lt(na[0], ZERO)
    if t.op == 'eq0':
        return eq(na[0], ZERO)
    if t.op == 'not':
        return lnot(na[0])
    if t.op == 'ite':
        return ite(*na)
    if t.op == 'and':
        r = ONE
        for x in na:
            r = land(r, x)
        return r
    return T(t.op, *na)


_show = {}


def show(t):
    if isinstance(t, tuple):
        return '(' + ','.join(show(x) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    s = _show.get(t)
    if s is None:
        s = _show[t] = _show1(t)
    return s


def _show1(t):
    o, a = t.op, t.a
    if o == 'n':
        return str(a[0])
    if o == 'poly':
        out = []
        for m, c in a:
            ms = '*'.join(show(x) for x in m)
            out.append('%s%s' % ('' if c == 1 and ms else '-' if c == -1 and ms else str(c) + ('*' if ms else ''), ms))
        return '(' + '+'.join(sorted(out)).replace('+-', '-') + ')'
    if o == 'path':
        s = show(a[0])
        for x in a[1]:
            s += {'f': '.%s', 'i': '[%s]', 'k': '{%s}', 'node': '%s', 'r': '[%s..]'}[x[0]] % (show(x[1]) if len(x) > 1 else '')
        return s
    if o == 'root':
        if a[0] == 'this':
            return 'this'
        return '%s#%s' % (a[3], a[1]) if a[0] == 'var' else ':'.join(show(x) for x in a[:2])
    if o == 'rd':
        return show(a[0]) + ('' if a[1] == 0 else "'%d" % a[1])
    if o == 'addr':
        return '&' + show(a[0])
    if o == 'lt0':
        return '[%s<0]' % show(a[0])
    if o == 'eq0':
        return '[%s==0]' % show(a[0])
    if o == 'iter':
        return 'iter(%s@%s)' % (show(a[0]), show(a[1]))
    if o == 'call':
        return '%s(%s)' % (a[0], ','.join(show(x) for x in a[1:]))
    return '%s(%s)' % (o, ','.join(show(x) for x in a))


# ---------------------------------------------------------------- paths
def root(*a):
    return T('root', *a)


def P(r, *sels):
    return T('path', r, tuple(sels))


def ext(p, *sels):
    return T('path', p.a[0], p.a[1] + tuple(sels))


CANON_FIELD = {}


def fsel(name):
    return ('f', CANON_FIELD.get(name, name))


def pkey(p):
    """coarse key of a path: root and leading field selectors"""
    r, s = p.a
    fs = []
    for x in s:
        if x[0] != 'f':
            break
        fs.append(x[1])
    return (r, tuple(fs))


def key_conflict(a, b):
    if a[0] is not b[0]:
        return False
    n = min(len(a[1]), len(b[1]))
    return a[1][:n] == b[1][:n]


def distinct_idx(a, b):
    d = const(sub(a, b))
    return d is not None and d != 0


def may_alias(p, q):
    """may the objects at p and q overlap (one contains the other or same)?"""
    if p.a[0] is not q.a[0]:
        return False
    for x, y in zip(p.a[1], q.a[1]):
        if x[0] == 'f' and y[0] == 'f' and x[1] != y[1]:
            return False
        if x[0] == 'i' and y[0] == 'i' and distinct_idx(x[1], y[1]):
            return False
    return True


def prefix(p, q):
    """q extends p?"""
    return p.a[0] is q.a[0] and q.a[1][:len(p.a[1])] == p.a[1]


# ---------------------------------------------------------------- state
class State:
    __slots__ = ('st', 'wr', 'g')

    def __init__(self, st=None, wr=None, g=()):
        self.st = st if st is not None else {}   # path -> value
        self.wr = wr if wr is not None else {}   # key -> stamp
        self.g = g                               # guards (tuple of terms)

    def copy(self):
        return State(dict(self.st), dict(self.wr), self.g)

    def ver(self, p):
        k = pkey(p)
        v = 0
        for k2, s in self.wr.items():
            if s > v and key_conflict(k, k2):
                v = s
        return v


class Event:
    __slots__ = ('kind', 'p', 'v', 'q', 'args', 'argv', 'node', 'fn', 'g', 'loops', 'par', 'crit', 'stack', 'n', 'x', 'objp', 'ret')

    def __init__(self, kind, **k):
        self.kind = kind
        for s in Event.__slots__[1:]:
            setattr(self, s, k.get(s))

    @property
    def line(self):
        return self.node.get('l') if self.node else None

    @property
    def where(self):
        return '%s:%s (%s)' % (self.fn['file'], self.line, self.fn['qn'])

    def __repr__(self):
        return '<%s %s %s @%s>' % (self.kind, self.p if self.p is not None else self.q, [show(x) for x in (self.argv or [])] or (show(self.v) if self.v is not None else ''), self.line)


class Node:
    """tree node: kind in seq alt loop inl par crit ev"""
    __slots__ = ('kind', 'ch', 'info')

    def __init__(self, kind, info=None):
        self.kind, self.ch, self.info = kind, [], info


class Loop:
    def __init__(self, id, node, fn):
        self.id, self.node, self.fn = id, node, fn
        self.ivs = {}      # iv term -> (lo, hi, step) hi exclusive
        self.elem = None   # (container path, element term)
        self.cond = None
        self.par = None
        self.kind = node['k']

    def __repr__(self):
        return 'Loop%d%s%s' % (self.id, {show(k): (show(v[0]), show(v[1]), v[2]) for k, v in self.ivs.items()}, show(self.elem) if self.elem else '')


class Flow:
    """pending jumps inside a loop / function"""

    def __init__(self):
        self.brk, self.cont = [], []


class Frame:
    def __init__(self, id, fn, this=None, parent=None):
        self.id, self.fn, self.this, self.parent = id, fn, this, parent
        self.alias = {}      # decl id -> path (references)
        self.rets = []       # (state, value)
        self.flows = []
        self.entry_g = ()
        self.private = {}
        self.midloop = False  # returns from inside a loop


PURE_CONST_METHODS = {'length', 'size', 'NumRows', 'NumCols', 'get', 'is_open', 'empty'}

REF_METHODS = {'operator[]', 'get', 'at', 'operator()', 'back', 'front'}

NONDET = {'random', 'rand', 'time', 'clock', 'RandomBnd', 'random_zz_p', 'random_ZZ_p', 'get_cpu_time'}

ITER_MARK = ('_iterator', '__normal_iterator')


def is_iter_type(t):
    return bool(t) and any(m in (t.get('c') or t.get('s') or '') for m in ITER_MARK) and not t.get('ref')


def short(q):
    """unqualified name of a callee"""
    q = q or ''
    depth = 0
    out = ''
    for ch in reversed(q):
        if ch == '>':
            depth += 1
        elif ch == '<':
            depth -= 1
        if depth <= 0 and out.endswith(':') and ch == ':':
            out = out[:-1]
            break
        out += ch
    s = out[::-1]
    if 'operator' in q:
        return 'operator' + q.rsplit('operator', 1)[1]
    i = s.find('<')
    return s[:i] if i > 0 else s


class Interp:
    """Interprets one root function with inlining."""

    def __init__(self, prog, inline=None, maxdepth=14, const_calls=None, virtual=None, reads=False):
        self.prog = prog
        self.inline_policy = inline
        self.maxdepth = maxdepth
        self.const_calls = const_calls or {}
        self.virtual = virtual or {}
        self.want_reads = reads
        self.events = []
        self.loops = []
        self.nframe = 0
        self.nloop = 0
        self.nheap = 0
        self.nfresh = 0
        self.stamp = 0
        self.dry = 0
        self.writes = []        # stack of sets collecting written keys (for loop pre-passes)
        self.loopstack = []
        self.par = None
        self.npar = 0
        self.pars = []
        self.crit = None
        self.frames = []
        self.skipped_calls = {}
        self.notes = []

    # ---- infrastructure
    def fresh(self, tag):
        self.nfresh += 1
        return T('fresh', tag, self.nfresh)

    def emit(self, kind, node, s, **k):
        if k.get('p') is not None and kind in ('write',):
            pass
        if self.dry:
            return None
        f = self.frames[-1]
        e = Event(kind, node=node, fn=f.fn, g=s.g, loops=tuple(self.loopstack), par=self.par, crit=self.crit,
                  stack=tuple((fr.fn['qn'], fr.callline) for fr in self.frames), n=len(self.events), **k)
        self.events.append(e)
        nd = Node('ev', e)
        self.tree.ch.append(nd)
        return e

    def touch(self, p, s):
        """p is written: forget what may overlap, bump versions, record"""
        k = pkey(p)
        self.stamp += 1
        s.wr[k] = self.stamp
        for w in self.writes:
            w.add(p if not p.a[1] else T('path', k[0], tuple(('f', x) for x in k[1])))
        dead = [q for q in s.st if may_alias(p, q)]
        for q in dead:
            if prefix(p, q) or not prefix(q, p):
                del s.st[q]
            else:
                # an enclosing aggregate with a known value: no longer equal to it
                del s.st[q]

    def assign(self, p, v, s, node, kind='write', compound=False):
        self.touch(p, s)
        if v is not None:
            s.st[p] = v
        self.emit('write', node, s, p=p, v=v, x='compound' if compound else kind, ret=self.stamp)

    def load_path(self, p, s):
        """the value stored at p"""
        v = s.st.get(p)
        if v is not None:
            return v
        # value of an enclosing aggregate
        sels = p.a[1]
        for n in range(len(sels) - 1, -1, -1):
            q = T('path', p.a[0], sels[:n])
            v = s.st.get(q)
            if v is not None:
                return self.select(v, sels[n:], s)
        if p.a[0].a[0] == 'val':
            return self.select(p.a[0].a[1], sels, s)
        return T('rd', p, s.ver(p))

    def select(self, v, sels, s):
        if not sels:
            return v
        if v.op == 'rd':
            q = T('path', v.a[0].a[0], v.a[0].a[1] + tuple(sels))
            return T('rd', q, v.a[1])
        if v.op == 'ite':
            return ite(v.a[0], self.select(v.a[1], sels, s), self.select(v.a[2], sels, s))
        return T('sel', v, tuple(sels))

    def read(self, p, s, node):
        if self.want_reads and not self.dry:
            self.emit('read', node, s, p=p)
        return self.load_path(p, s)

    def deref(self, v, idx=None):
        """path designated by pointer value v (plus idx)"""
        if v.op == 'addr':
            p = v.a[0]
            if idx is None or const(idx) == 0:
                if idx is not None and p.a[1] and p.a[1][-1][0] == 'i':
                    return p
                return p
            if p.a[1] and p.a[1][-1][0] == 'i':
                return T('path', p.a[0], p.a[1][:-1] + (('i', add(p.a[1][-1][1], idx)),))
            return ext(p, ('i', idx))
        if v.op == 'iter':
            return ext(v.a[0], ('k', v.a[1]), ('node',))
        if v.op == 'poly':
            base = [m[0] for m, c in v.a if c == 1 and len(m) == 1 and m[0].op in ('addr', 'rd', 'ite', 'fresh', 'sel', 'call')]
            base = [b for b in base if b.op == 'addr'] or base
            if base:
                off = sub(v, base[0])
                return self.deref(base[0], add(off, idx) if idx is not None else off)
        r = P(root('ptr', v))
        return ext(r, ('i', idx if idx is not None else ZERO))

    def ptradd(self, v, off):
        if const(off) == 0:
            return v
        if v.op == 'addr':
            p = v.a[0]
            if p.a[1] and p.a[1][-1][0] == 'i':
                return T('addr', T('path', p.a[0], p.a[1][:-1] + (('i', add(p.a[1][-1][1], off)),)))
            return T('addr', ext(p, ('i', off)))
        if v.op == 'ite':
            return ite(v.a[0], self.ptradd(v.a[1], off), self.ptradd(v.a[2], off))
        return T('addr', ext(P(root('ptr', v)), ('i', off)))

    # ---- running
    def run(self, fn, this=None, bind=None):
        self.tree = Node('seq')
        self.top = self.tree
        fr = self.push(fn, this if this is not None else P(root('this')))
        fr.callline = None
        s = State()
        for p in fn['params']:
            self.bind_initial(fr, p, s, bind)
        self.inits(fn, fr, s)
        out = self.block_stmt(fn['body'], s)
        if out is not None:
            self.emit('ret', {'l': fn.get('end')}, out, v=None, x=0)
        self.frames.pop()
        return self

    def push(self, fn, this):
        self.nframe += 1
        fr = Frame(self.nframe, fn, this, self.frames[-1] if self.frames else None)
        fr.callline = None
        self.frames.append(fr)
        return fr

    def bind_initial(self, fr, p, s, bind):
        t = p['t']
        d = p.get('d')
        if bind and p['n'] in bind:
            fr.alias[d] = bind[p['n']]
            return
        if t.get('ref'):
            fr.alias[d] = P(root('par', p['n']))
        elif t.get('ptr'):
            vp = P(root('var', fr.id, d, p['n']))
            s.st[vp] = T('addr', P(root('par', p['n']), ('i', ZERO)))
        else:
            vp = P(root('var', fr.id, d, p['n']))
            s.st[vp] = T('rd', P(root('par', p['n'])), 0)

    def inits(self, fn, fr, s):
        for i in fn.get('inits') or []:
            if i.get('member'):
                p = ext(fr.this, fsel(i['member']))
                e = i.get('e')
                if e is not None:
                    self.init_object(p, e, s, e)
            elif i.get('e') is not None:
                e = i['e']
                if e.get('k') == 'Ctor':
                    self.ctor(e, s, fr.this, base=True)
                else:
                    self.ev(e, s)

    # ---- statements
    def block_stmt(self, b, s):
        return self.stmt(b, s)

    def stmt(self, n, s):
        if n is None or s is None:
            return s
        k = n['k']
        m = getattr(self, 's_' + k, None)
        if m:
            return m(n, s)
        self.ev(n, s)
        return self.after(n, s)

    def after(self, n, s):
        """None when the expression never returns"""
        if n.get('k') == 'Call' and short(n.get('q')) in ('abort', 'exit', '__assert_fail', 'terminate', '_exit', 'flint_abort', 'quick_exit', 'LogicError', 'TerminalError', 'Error'):
            return None
        if n.get('k') == 'Throw':
            return None
        if s.g and s.g[-1] is ZERO:
            return None
        return s

    def s_Block(self, n, s):
        decls = []
        for x in n['b']:
            if s is None:
                break
            if x and x['k'] == 'Decl':
                decls += x['v']
            s = self.stmt(x, s)
        if s is not None:
            for v in reversed(decls):
                t = v['t']
                if t and not t.get('ref'):
                    self.emit('scope_end', {'l': n.get('el')}, s, p=self.varpath(v['d'], v['n']), x=v)
        return s

    def s_Null(self, n, s):
        return s

    def varpath(self, d, name):
        f = self.frames[-1]
        if d in f.alias:
            return f.alias[d]
        return P(root('var', f.id, d, name))

    def s_Decl(self, n, s):
        f = self.frames[-1]
        for v in n['v']:
            t = v['t']
            d = v['d']
            if v.get('static') or v.get('global'):
                p = P(root('static', f.fn['qn'], v['n']))
                f.alias[d] = p
                if v.get('init') is not None:
                    self.ev(v['init'], s)
                    self.emit('write', v, s, p=p, v=None, x='static')
                continue
            if t.get('ref'):
                f.alias[d] = self.lv(v['init'], s)
                self.emit('refdecl', v, s, p=f.alias[d], x=v)
                continue
            p = P(root('var', f.id, d, v['n']))
            f.alias.pop(d, None)
            self.touch(p, s)
            if v.get('vla') is not None:
                sz = self.ev(v['vla'], s)
                self.emit('decl', v, s, p=p, v=sz, x=v)
            else:
                self.emit('decl', v, s, p=p, v=None, x=v)
            if v.get('init') is not None:
                self.init_object(p, v['init'], s, v)
            if s.g and s.g[-1] is ZERO:
                return None
        return s

    def init_object(self, p, e, s, node):
        if e.get('k') == 'Ctor' and not e.get('copy') and not is_iter_type(e.get('t')):
            self.ctor(e, s, p, node=node)
            return
        if e.get('k') == 'InitList':
            for i, x in enumerate(e['a']):
                self.init_object(ext(p, ('i', num(i))), x, s, node)
            if not e['a']:
                self.assign(p, ZERO, s, node, 'init')
            return
        v = self.ev(e, s)
        self.assign(p, v, s, node, 'init')

    def ctor(self, e, s, p, node=None, base=False):
        """construct an object at p"""
        node = node or e
        if not base:
            self.touch(p, s)
        fn = self.prog.callee(e)
        if fn is not None and self.may_inline(fn, e):
            self.call_inline(fn, e, e['a'], s, this=p)
            return
        av, ap = self.eval_args(e, s, self.prog.decl(e))
        if av:
            v = T('call', 'new ' + short_type(e.get('t')), *av)
            s.st[p] = v
        self.emit('construct', node, s, p=p, q=e.get('q'), argv=av, args=ap, x=e)
        self.effects(e, s, av, ap, self.prog.decl(e))

    def s_If(self, n, s):
        if n.get('init'):
            s = self.stmt(n['init'], s)
        if n.get('cv'):
            s = self.stmt(n['cv'], s)
            vd = n['cv']['v'][0]
            c = truth(self.load_path(self.varpath(vd['d'], vd['n']), s))
        else:
            c = self.cond(n['c'], s)
        k = const(c)
        if k is not None:
            if k:
                return self.stmt(n['th'], s)
            return self.stmt(n['el'], s) if n.get('el') else s
        for g in s.g:
            if g is c:
                return self.stmt(n['th'], s)
            if g is lnot(c):
                return self.stmt(n['el'], s) if n.get('el') else s
        alt = Node('alt', (c, n))
        save = self.tree
        save.ch.append(alt)
        g0 = s.g
        outs = []
        for body, cc in ((n['th'], c), (n.get('el'), lnot(c))):
            br = Node('seq', cc)
            alt.ch.append(br)
            self.tree = br
            s1 = s.copy()
            s1.g = addg(g0, cc)
            outs.append(self.stmt(body, s1) if body else s1)
        self.tree = save
        a, b = outs
        if a is None and b is None:
            return None
        if a is None:
            return b      # guards of the surviving branch stay
        if b is None:
            return a
        return self.join(c, a, b, g0)

    def join(self, c, a, b, g0, mid=None):
        r = State({}, dict(a.wr), None)
        ga, gb = set(a.g), set(b.g)
        r.g = tuple(x for x in a.g if x in gb)
        for k, v in b.wr.items():
            if v > r.wr.get(k, 0):
                r.wr[k] = v
        changed = {k for k in set(a.wr) | set(b.wr) if a.wr.get(k) != b.wr.get(k)}
        if changed:
            self.stamp += 1
            for k in changed:
                r.wr[k] = self.stamp
        for p in set(a.st) | set(b.st):
            va, vb = a.st.get(p), b.st.get(p)
            if va is None and a.ver(p) == 0 or va is None:
                va = self.load_path(p, a) if p.a[0].a[0] in ('this', 'par', 'var') else None
            if vb is None:
                vb = self.load_path(p, b) if p.a[0].a[0] in ('this', 'par', 'var') else None
            if va is None or vb is None:
                continue
            r.st[p] = ite(c, va, vb) if c is not None else (va if va is vb else self.fresh('join') if mid is None else T('jx', mid, p))
        return r

    def s_Return(self, n, s):
        f = self.frames[-1]
        v = None
        rt = f.fn.get('ret') or {}
        if n.get('e') is not None:
            if rt.get('ref'):
                v = T('addr', self.lv(n['e'], s))
            else:
                v = self.ev(n['e'], s)
        if len(self.frames) == 1:
            self.emit('ret', n, s, v=v, x=1)
        else:
            self.emit('iret', n, s, v=v, x=self.frames[-1].id)
        f.rets.append((s, v))
        if any(not getattr(x, 'switch', False) for x in f.flows):
            f.midloop = True
        return None

    def s_Break(self, n, s):
        if self.frames[-1].flows:
            self.frames[-1].flows[-1].brk.append(s)
        self.emit('break', n, s)
        return None

    def s_Continue(self, n, s):
        fl = [x for x in self.frames[-1].flows if not getattr(x, 'switch', False)]
        if fl:
            fl[-1].cont.append(s)
        self.emit('continue', n, s)
        return None

    def s_Goto(self, n, s):
        raise AnalysisError('goto at line %s is not supported' % n.get('l'))

    def s_Label(self, n, s):
        return self.stmt(n['b'], s)

    def s_Try(self, n, s):
        self.notes.append('try block: handlers treated as alternatives')
        s0 = s.copy()
        s = self.stmt(n['b'], s)
        outs = [s]
        for h in n.get('h') or []:
            x = s0.copy()
            for p in list(x.st):
                x.st.pop(p)
            outs.append(self.stmt(h, x))
        outs = [o for o in outs if o is not None]
        if not outs:
            return None
        r = outs[0]
        for o in outs[1:]:
            r = self.join(None, r, o, ())
        return r

    def s_Switch(self, n, s):
        v = self.ev(n['c'], s)
        items = n['b']['b'] if n['b'] and n['b']['k'] == 'Block' else [n['b']]
        # split into labelled groups
        seq = []
        for x in items:
            labels = []
            y = x
            while y is not None and y['k'] in ('Case', 'Default'):
                labels.append(('c', y['c']) if y['k'] == 'Case' else ('d',))
                y = y['b']
            seq.append((labels, y))
        fl = Flow()
        fl.switch = True
        self.frames[-1].flows.append(fl)
        cases = []
        for labels, _ in seq:
            for l in labels:
                if l[0] == 'c':
                    cases.append(eq(v, self.ev(l[1], s)))
        alt = Node('alt', (None, n))
        save = self.tree
        save.ch.append(alt)
        outs = []
        hasdef = any(l[0] == 'd' for labels, _ in seq for l in labels)
        g0 = s.g
        starts = []
        for i, (labels, _) in enumerate(seq):
            if labels:
                c = None
                for l in labels:
                    if l[0] == 'c':
                        x = eq(v, self.ev(l[1], s))
                    else:
                        x = ONE
                        for y in cases:
                            x = land(x, lnot(y))
                    c = x if c is None else lor(c, x)
                starts.append((i, c))
        if not hasdef:
            x = ONE
            for y in cases:
                x = land(x, lnot(y))
            starts.append((len(seq), x))
        starts = [(i, c) for i, c in starts if const(c) != 0]
        for i, c in starts:
            br = Node('seq', c)
            alt.ch.append(br)
            self.tree = br
            s1 = s.copy()
            s1.g = addg(g0, c)
            fl.brk = []
            for _, y in seq[i:]:
                if s1 is None:
                    break
                s1 = self.stmt(y, s1)
            for b in fl.brk + [s1]:
                if b is not None:
                    outs.append((c, b))
        self.tree = save
        self.frames[-1].flows.pop()
        if not outs:
            return None
        c, r = outs[-1]
        for c, o in reversed(outs[:-1]):
            r = self.join(c, o, r, g0)
        return r

    def s_OMP(self, n, s):
        d = n['dir']
        b = n.get('b')
        if d == 'critical':
            nd = Node('crit', n.get('name') or '')
            self.tree.ch.append(nd)
            save, oc = self.tree, self.crit
            self.tree, self.crit = nd, (oc or ()) + (n.get('name') or '',)
            s = self.stmt(b, s)
            self.tree, self.crit = save, oc
            return s
        if 'parallel' in d or d in ('for', 'task', 'taskloop', 'sections', 'section', 'simd', 'single', 'master', 'atomic', 'ordered'):
            self.npar += 1
            reg = Par(self.npar, n, self.frames[-1].fn, self.par)
            reg.marks = (self.nframe, self.nheap, self.nfresh, self.nloop)
            reg.start = len(self.events)
            reg.g = s.g
            reg.cur = self.frames[-1].id
            if not self.dry:
                self.pars.append(reg)
            for c in n.get('cl') or []:
                if c['c'] in ('private', 'firstprivate', 'lastprivate', 'linear', 'reduction'):
                    for v in c['v']:
                        if v and v.get('k') == 'Ref':
                            reg.private.add(self.varpath(v['d'], v['n']).a[0])
                if c.get('e') is not None:
                    self.ev(c['e'], s)
            nd = Node('par', reg)
            self.tree.ch.append(nd)
            save, op = self.tree, self.par
            self.tree, self.par = nd, reg
            s0 = s
            if b is not None and b['k'] in ('For',):
                s = self.s_For(b, s, par=reg)
            else:
                s = self.stmt(b, s)
            self.tree, self.par = save, op
            return s if s is not None else s0
        if d in ('barrier', 'flush', 'taskwait', 'threadprivate'):
            self.emit('omp', n, s, x=d)
            return s
        raise AnalysisError('OpenMP directive %r not supported' % d)

    # ---- loops
    def s_For(self, n, s, par=None):
        return self.loop(n, s, init=n.get('init'), cond=n.get('c'), inc=n.get('inc'), body=n['b'], par=par)

    def s_While(self, n, s):
        return self.loop(n, s, cond=n['c'], body=n['b'])

    def s_Do(self, n, s):
        return self.loop(n, s, cond=n['c'], body=n['b'], do=True)

    def s_RangeFor(self, n, s):
        # container
        rng = n['range']
        cp = self.lv(rng, s)
        if self.want_reads:
            self.emit('read', rng, s, p=cp)
        return self.loop(n, s, body=n['b'], rng=(cp, rng, n['var']))

    def loop(self, n, s, init=None, cond=None, inc=None, body=None, do=False, par=None, rng=None):
        f = self.frames[-1]
        lseq = Node('seq')
        if init is not None:
            s = self.stmt(init, s)
        # constant-false on entry
        # 1. what may the loop write?
        written = set()
        lid = self.nloop = self.nloop + 1
        L = Loop(lid, n, f.fn)
        L.par = par
        if self.dry:
            # inside someone else's pre-pass: a single imprecise pass is enough
            return self._loop_once(L, n, s, cond, inc, body, do, par, rng, set(), dry=True)
        self.stamp0 = self.stamp
        for attempt in range(8):
            snap = (self.nloop, self.nframe, self.nheap, self.npar, self.nfresh)
            coll = set()
            self.writes.append(coll)
            self.dry += 1
            tree = self.tree
            self.tree = Node('seq')
            al = dict(f.alias)
            try:
                s1 = s.copy()
                self.havoc(s1, written, lid)
                self._loop_once(L, n, s1, cond, inc, body, do, par, rng, written, dry=True)
            finally:
                self.dry -= 1
                self.writes.pop()
                self.tree = tree
                f.alias = al
            self.nloop, self.nframe, self.nheap, self.npar, self.nfresh = snap
            new = {p for p in coll if p not in written and self.outer_root(p.a[0], snap)}
            if not new:
                break
            written |= new
        else:
            raise AnalysisError('loop effects do not stabilise in %s line %s' % (f.fn['qn'], n.get('l')))
        for w in self.writes:
            w |= written
        return self._loop_once(L, n, s, cond, inc, body, do, par, rng, written, dry=False)

    def outer_root(self, r, snap):
        """did the object exist before the loop?"""
        k = r.a[0]
        if k == 'var':
            return r.a[1] <= snap[1]
        if k == 'heap':
            return r.a[2] <= snap[2]
        if k == 'tmp':
            return r.a[1] <= snap[4]
        if k in ('ptr', 'val'):
            for x in subterms(r.a[1]):
                if x.op == 'fresh' and x.a[1] > snap[4]:
                    return False
                if x.op == 'root' and not self.outer_root(x, snap):
                    return False
                if x.op in ('lp', 'lx', 'iv', 'ekey') and x.a[0] > snap[0]:
                    return False
                if x.op == 'rd' and x.a[1] > self.stamp0:
                    return False
        return True

    def havoc(self, s, written, lid):
        for p in written:
            self.stamp += 1
            s.wr[pkey(p)] = self.stamp
            for q in [q for q in s.st if may_alias(p, q)]:
                del s.st[q]
            if not p.a[1] and p.a[0].a[0] in ('var',):
                s.st[p] = T('lp', lid, p)

    def _loop_once(self, L, n, s, cond, inc, body, do, par, rng, written, dry):
        f = self.frames[-1]
        g0 = s.g
        before = s
        s = s.copy() if dry else s
        entry = s.copy()
        iv = self.find_iv(n, cond, inc, body, s, rng)
        self.havoc(s, written, L.id)
        nd = Node('loop', L)
        save = self.tree
        save.ch.append(nd)
        self.tree = nd
        self.loopstack.append(L)
        fl = Flow()
        f.flows.append(fl)
        exit_vals = {}
        if rng:
            cp, rnode, var = rng
            el = T('ekey', L.id)
            L.elem = (cp, el)
            t = rnode.get('t') or {}
            ismap = 'map<' in (t.get('c') or t.get('s') or '')
            if ismap:
                ep = ext(cp, ('k', el), ('node',))
            else:
                ivt = T('iv', L.id)
                L.ivs[ivt] = (ZERO, T('len', cp, entry.ver(cp)), 1)
                ep = ext(cp, ('i', ivt))
            if var['t'].get('ref'):
                f.alias[var['d']] = ep
            else:
                f.alias.pop(var['d'], None)
                self.emit('decl', var, s, p=self.varpath(var['d'], var['n']), x=var)
                self.assign(self.varpath(var['d'], var['n']), self.load_path(ep, s), s, var, 'init')
        for (vp, kind, data) in iv:
            if kind == 'num':
                lo, step = data
                ivt = T('iv', L.id, vp) if len(iv) > 1 else T('iv', L.id)
                s.st[vp] = ivt
                L.ivs[ivt] = [lo, None, step, vp]
            else:
                cont = data
                el = T('ekey', L.id)
                L.elem = (cont, el)
                s.st[vp] = T('iter', cont, el)
        c = ONE
        if cond is not None and not do:
            c = self.cond(cond, s)
            if const(c) == 0 and not written and not dry:
                pass
        L.cond = c
        self.bound_ivs(L, c, entry, s)
        if c is not ONE and not (L.elem and self.is_elem_cond(c, L)):
            s.g = addg(s.g, c)
        exit_s = s.copy()
        exit_s.g = g0
        out = self.stmt(body, s)
        for x in fl.cont:
            out = x if out is None else self.join(None, out, x, g0)
        if out is not None and inc is not None:
            self.ev(inc, out)
        if out is not None and do and cond is not None:
            self.cond(cond, out)
        f.flows.pop()
        self.loopstack.pop()
        self.tree = save
        if par is not None and not dry:
            self.emit('endpar', n, before, x=par)
        # state after the loop: everything written is unknown; keep entry facts otherwise
        r = entry
        self.stamp += 1
        coll = set(written)
        if dry and out is not None:
            # approximate: adopt the body's versions
            for k, v in out.wr.items():
                if v > r.wr.get(k, 0):
                    r.wr[k] = v
                    for q in [q for q in r.st if key_conflict(pkey(q), k)]:
                        del r.st[q]
        for p in coll:
            self.stamp += 1
            r.wr[pkey(p)] = self.stamp
            for q in [q for q in r.st if may_alias(p, q)]:
                del r.st[q]
            if not p.a[1] and p.a[0].a[0] == 'var':
                r.st[p] = T('lx', L.id, p)
        if not fl.brk and not do:
            for ivt, d in L.ivs.items():
                if isinstance(d, list) and d[3] is not None and d[1] is not None:
                    lo, hi, step, vp = d
                    # exact exit value for unit steps (assumes lo <= hi, noted)
                    if step == 1:
                        r.st[vp] = T('exit', lo, hi)
                    elif step == -1:
                        r.st[vp] = T('exit', lo, hi)
        if do and out is not None and not fl.brk:
            pass
        if cond is not None and const(c) == 1 and not fl.brk and not do and not rng:
            # while(true) without break: falls out only by return
            if cond is not None and cond.get('k') == 'Int':
                return None
        r.g = g0
        return r

    def is_elem_cond(self, c, L):
        return any(x.op == 'isend' for x in subterms(c))

    def bound_ivs(self, L, c, entry, s):
        """turn the loop condition into interval bounds of the induction variables"""
        cs = c.a if c.op == 'and' else (c,)
        for ivt, d in list(L.ivs.items()):
            if not isinstance(d, list):
                continue
            lo, _, step, vp = d
            hi = used = None
            for x in cs:
                was = hi
                if x.op == 'lt0':
                    pl = _poly(x.a[0])
                    k = pl.get((ivt,), 0)
                    rest = sub(x.a[0], mul(num(k), ivt))
                    if ivt in set(subterms(rest)):
                        continue
                    if k == 1 and step > 0:      # iv + rest < 0  => iv < -rest
                        hi = neg(rest)
                    elif k == -1 and step < 0:   # -iv + rest < 0 => iv > rest : lowest is rest+1
                        hi = add(rest, ONE)
                elif x.op == 'not' and x.a[0].op == 'eq0' or x.op == 'eq0':
                    if x.op == 'eq0':
                        continue
                    pl = _poly(x.a[0].a[0])
                    k = pl.get((ivt,), 0)
                    if k in (1, -1):
                        rest = sub(x.a[0].a[0], mul(num(k), ivt))
                        v = neg(rest) if k == 1 else rest   # iv != v
                        hi = v if step > 0 else add(v, ONE)
                elif x.op == 'bool' and x.a[0] is ivt:
                    hi = ZERO if step > 0 else ONE
                if hi is not was:
                    used = x
            if hi is None:
                # not a counted loop after all
                L.ivs[ivt] = (None, None, step)
                continue
            extra = [x for x in cs if x is not used]
            if extra:        # ends at hi or earlier
                hi = T('upto', hi, *extra)
            L.ivs[ivt] = [lo, hi, step, vp]

    def find_iv(self, n, cond, inc, body, s, rng):
        """induction variables: scalars changed exactly once per iteration by a
        constant, at the top level of the loop"""
        if rng:
            return []
        out = []
        cands = []
        if inc is not None:
            cands += self.step_exprs(inc)
        has_cont = any(x['k'] == 'Continue' for x in walk(body))
        top = body['b'] if body and body['k'] == 'Block' else [body]
        if n['k'] in ('While', 'Do') or not cands:
            if not has_cont:
                for x in top:
                    if x:
                        cands += self.step_exprs(x)
        condvars = set()
        if cond is not None:
            for x in walk(cond):
                if x['k'] == 'Ref' and x['dk'] in ('var', 'parm'):
                    condvars.add(x['d'])
        for d, name, step, isiter, nodes in cands:
            if d not in condvars:
                continue
            # no other write in the body / condition
            ok = True
            for part in (body, cond, inc):
                if part is None:
                    continue
                for x in walk(part):
                    if id(x) in nodes:
                        continue
                    if self.writes_var(x, d):
                        ok = False
            if not ok:
                continue
            vp = self.varpath(d, name)
            v0 = self.load_path(vp, s)
            if isiter or v0.op == 'iter':
                if v0.op == 'iter' and v0.a[1] is T('begin'):
                    out.append((vp, 'elem', v0.a[0]))
            else:
                out.append((vp, 'num', (v0, step)))
        return out

    def writes_var(self, x, d):
        k = x['k']
        if k == 'Assign' and x['a'] and x['a'].get('k') == 'Ref' and x['a'].get('d') == d:
            return True
        if k == 'Un' and x['o'] in ('++', '--', '&') and x['e'] and x['e'].get('k') == 'Ref' and x['e'].get('d') == d:
            return True
        if k == 'Call':
            if x.get('op') in ('=', '++', '--', '+=', '-=') and x.get('obj') and x['obj'].get('k') == 'Ref' and x['obj'].get('d') == d:
                return True
            dd = self.prog.decl(x)
            if dd:
                for a, t in zip(x['a'], dd['params']):
                    if a and a.get('k') == 'Ref' and a.get('d') == d and t.get('ref') and not t.get('cref'):
                        return True
        return False

    def step_exprs(self, x):
        """[(decl, name, step, isiter, node ids)] for x being v++, v+=c, ++it ..."""
        if x is None:
            return []
        k = x['k']
        if k == 'Bin' and x['o'] == ',':
            return self.step_exprs(x['a']) + self.step_exprs(x['b'])
        if k == 'Un' and x['o'] in ('++', '--') and x['e'].get('k') == 'Ref':
            e = x['e']
            return [(e['d'], e['n'], 1 if x['o'] == '++' else -1, False, {id(y) for y in walk(x)})]
        if k == 'Assign' and x['a'].get('k') == 'Ref' and x['o'] in ('+=', '-='):
            b = strip(x['b'])
            if b and b.get('k') == 'Int':
                st = int(b['v'])
                return [(x['a']['d'], x['a']['n'], st if x['o'] == '+=' else -st, False, {id(y) for y in walk(x)})]
        if k == 'Assign' and x['a'].get('k') == 'Ref' and x['o'] == '=':
            b = strip(x['b'])
            if b and b.get('k') == 'Bin' and b['o'] in ('+', '-'):
                l, r = strip(b['a']), strip(b['b'])
                if l and l.get('k') == 'Ref' and l.get('d') == x['a']['d'] and r and r.get('k') == 'Int':
                    st = int(r['v'])
                    return [(x['a']['d'], x['a']['n'], st if b['o'] == '+' else -st, False, {id(y) for y in walk(x)})]
                if b['o'] == '+' and r and r.get('k') == 'Ref' and r.get('d') == x['a']['d'] and l and l.get('k') == 'Int':
                    return [(x['a']['d'], x['a']['n'], int(l['v']), False, {id(y) for y in walk(x)})]
        if k == 'Call' and x.get('op') in ('++',) and x.get('obj') and x['obj'].get('k') == 'Ref':
            e = x['obj']
            return [(e['d'], e['n'], 1, True, {id(y) for y in walk(x)})]
        return []

    # ---- expressions
    def cond(self, e, s):
        return truth(self.ev(e, s))

    def ev(self, e, s):
        if e is None:
            return None
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise AnalysisError('expression kind %s not supported (line %s)' % (e['k'], e.get('l')))
        return m(e, s)

    def e_Int(self, e, s):
        return num(int(e['v']))

    def e_Float(self, e, s):
        return T('flt', str(e['v']))

    def e_Str(self, e, s):
        return T('str', e['v'])

    def e_This(self, e, s):
        return T('addr', self.frames[-1].this)

    def e_Ref(self, e, s):
        if e['dk'] == 'enum':
            return num(int(e['v']))
        if e['dk'] == 'func':
            return T('func', e.get('q'))
        p = self.lv(e, s)
        t = e.get('t') or {}
        if t.get('arr') is not None and t.get('arr') is not False:
            return T('addr', ext(p, ('i', ZERO)))
        return self.read(p, s, e)

    def e_Member(self, e, s):
        p = self.lv(e, s)
        t = e.get('t') or {}
        if t.get('arr') is not None and t.get('arr') is not False:
            return T('addr', ext(p, ('i', ZERO)))
        if p.op == 'path' and p.a[0].a[0] == 'val' and not p.a[1]:
            return p.a[0].a[1]
        return self.read(p, s, e)

    def e_Index(self, e, s):
        p = self.lv(e, s)
        t = e.get('t') or {}
        if t.get('arr') is not None and t.get('arr') is not False:
            return T('addr', ext(p, ('i', ZERO)))
        return self.read(p, s, e)

    def e_ICast(self, e, s):
        v = self.ev(e['e'], s)
        t = e.get('t') or {}
        if t.get('bool'):
            return truth(v)
        ft = e.get('from') or {}
        if t.get('flt') and v.op != 'n':
            return T('tofloat', v)
        if ft.get('flt') and t.get('int'):
            return T('fromfloat', v)
        return v

    def e_Cast(self, e, s):
        v = self.ev(e['e'], s)
        t = e.get('t') or {}
        ft = e.get('from') or {}
        if t.get('bool') and v is not None:
            return truth(v)
        if t.get('void'):
            return None
        if v is not None and t.get('int') and ft.get('int') and (t.get('bits') or 64) < (ft.get('bits') or 64) and const(v) is None:
            return T('trunc', t.get('s'), v)
        if v is not None and t.get('flt') and ft.get('int') and v.op != 'n':
            return T('tofloat', v)
        if v is not None and t.get('int') and ft.get('flt'):
            return T('fromfloat', v)
        return v

    def e_Un(self, e, s):
        o = e['o']
        if o == '&':
            x = e['e']
            if x.get('k') == 'Ref' and x.get('dk') == 'func':
                return T('func', x.get('q'))
            return T('addr', self.lv(x, s))
        if o == '*':
            return self.read(self.lv(e, s), s, e)
        if o in ('++', '--'):
            p = self.lv(e['e'], s)
            v = self.read(p, s, e)
            t = e['e'].get('t') or {}
            if t.get('ptr'):
                nv = self.ptradd(v, ONE if o == '++' else num(-1))
            else:
                nv = add(v, ONE if o == '++' else num(-1))
            self.assign(p, nv, s, e, compound=True)
            return v if e.get('post') else nv
        v = self.ev(e['e'], s)
        if o == '-':
            return neg(v)
        if o == '+':
            return v
        if o == '!':
            return lnot(truth(v))
        return T('un', o, v)

    def e_Bin(self, e, s):
        o = e['o']
        if o == '&&':
            a = self.cond(e['a'], s)
            s1 = s.copy()
            s1.g = addg(s.g, a)
            n0 = self.stamp
            b = self.cond(e['b'], s1)
            self.merge_side(s, s1)
            return land(a, b)
        if o == '||':
            a = self.cond(e['a'], s)
            s1 = s.copy()
            s1.g = addg(s.g, lnot(a))
            b = self.cond(e['b'], s1)
            self.merge_side(s, s1)
            return lor(a, b)
        if o == ',':
            self.ev(e['a'], s)
            return self.ev(e['b'], s)
        a = self.ev(e['a'], s)
        b = self.ev(e['b'], s)
        t = e.get('t') or {}
        at, bt = e['a'].get('t') or {}, e['b'].get('t') or {}
        return self.arith(o, a, b, t, at, bt)

    def merge_side(self, s, s1):
        """effects of the conditionally evaluated right operand"""
        if s1.wr != s.wr:
            for k, v in s1.wr.items():
                if s.wr.get(k) != v:
                    s.wr[k] = v
                    for q in [q for q in s.st if key_conflict(pkey(q), k)]:
                        del s.st[q]

    def arith(self, o, a, b, t, at=None, bt=None):
        at, bt = at or {}, bt or {}
        if a is None or b is None:
            return self.fresh('void')
        if (at.get('flt') or bt.get('flt')) and not (const(a) is not None and const(b) is not None):
            if o in ('<', '>', '<=', '>=', '==', '!='):
                if o in ('>', '>='):
                    a, b, o = b, a, {'>': '<', '>=': '<='}[o]
                return T('bool', T('fcmp', o, a, b))
            return T('f' + o, a, b)
        if o == '+':
            if a.op == 'addr' or (at.get('ptr') or at.get('arr')):
                return self.ptradd(a, b)
            if b.op == 'addr' or bt.get('ptr'):
                return self.ptradd(b, a)
            return add(a, b)
        if o == '-':
            if (a.op == 'addr' or at.get('ptr')) and not bt.get('ptr'):
                return self.ptradd(a, neg(b))
            return sub(a, b)
        if o == '*':
            return mul(a, b)
        if o == '<':
            return lt(a, b)
        if o == '>':
            return lt(b, a)
        if o == '<=':
            return le(a, b)
        if o == '>=':
            return le(b, a)
        if o == '==':
            return eq(a, b)
        if o == '!=':
            return lnot(eq(a, b))
        ca, cb = const(a), const(b)
        if ca is not None and cb is not None:
            try:
                if o == '/':
                    q = abs(ca) // abs(cb)
                    return num(q if (ca < 0) == (cb < 0) else -q)
                if o == '%':
                    q = abs(ca) % abs(cb)
                    return num(q if ca >= 0 else -q)
                if o == '<<':
                    return num(ca << cb)
                if o == '>>':
                    return num(ca >> cb)
                if o == '&':
                    return num(ca & cb)
                if o == '|':
                    return num(ca | cb)
                if o == '^':
                    return num(ca ^ cb)
            except ZeroDivisionError:
                pass
        if o in ('&', '|', '^'):
            a, b = sorted((a, b), key=lambda x: x.id)
        return T('bin', o, a, b)

    def e_Assign(self, e, s):
        o = e['o']
        if o == '=':
            b = self.ev(e['b'], s)
            p = self.lv(e['a'], s)
            t = e['a'].get('t') or {}
            if t.get('bool') and b is not None:
                b = truth(b)
            self.assign(p, b, s, e)
            return b
        b = self.ev(e['b'], s)
        p = self.lv(e['a'], s)
        a = self.read(p, s, e['a'])
        v = self.arith(o[:-1], a, b, e.get('t') or {}, e['a'].get('t'), e['b'].get('t'))
        self.assign(p, v, s, e, compound=True)
        return v

    def e_Cond(self, e, s):
        c = self.cond(e['c'], s)
        k = const(c)
        if k is not None:
            return self.ev(e['a'] if k else e['b'], s)
        g0 = s.g
        vals = []
        for x, cc in ((e['a'], c), (e['b'], lnot(c))):
            s1 = s.copy()
            s1.g = addg(g0, cc)
            vals.append(self.ev(x, s1))
            self.merge_side(s, s1)
        if vals[0] is None or vals[1] is None:
            return self.fresh('cond')
        return ite(c, vals[0], vals[1])

    def e_Assert(self, e, s):
        s0 = s.copy()
        c = self.cond(e['c'], s0)
        self.emit('assert', e, s, v=c)
        if const(c) == 0:
            s.g = s.g + (ZERO,)
        else:
            s.g = addg(s.g, c)
        self.merge_side(s, s0)
        return None

    def e_Sizeof(self, e, s):
        if e.get('v') is not None:
            return T('sizeof', (e.get('at') or {}).get('c') or e['v'])
        return T('sizeof', (e.get('at') or {}).get('s'))

    def e_ZeroInit(self, e, s):
        return ZERO

    def e_InitList(self, e, s):
        vs = [self.ev(x, s) for x in e['a']]
        return T('list', *[v if v is not None else T('void') for v in vs])

    def e_Throw(self, e, s):
        if e.get('e') is not None:
            self.ev(e['e'], s)
        self.emit('abort', e, s, q='throw')
        s.g = s.g + (ZERO,)
        return None

    def e_Lambda(self, e, s):
        self.notes.append('lambda')
        return T('lambda', e.get('f') or '?')

    def e_UnknownE(self, e, s):
        for x in e.get('ch') or []:
            if x and x.get('k') and not x['k'] in ('Decl', 'Block'):
                self.ev(x, s)
        return self.fresh('unknown')

    def e_New(self, e, s):
        sz = self.ev(e['n'], s) if e.get('n') else None
        self.nheap += 1
        r = root('heap', self.frames[-1].fn['qn'], self.nheap)
        p = P(r, ('i', ZERO))
        self.emit('alloc', e, s, p=P(r), v=sz, q='new[]' if e.get('arr') else 'new', x=e)
        i = e.get('init')
        if i is not None and i.get('k') == 'Ctor' and not e.get('arr'):
            self.ctor(i, s, p)
        elif i is not None and i.get('k') not in ('Ctor', 'InitList', 'ZeroInit'):
            self.assign(p, self.ev(i, s), s, e, 'init')
        return T('addr', p)

    def e_Delete(self, e, s):
        v = self.ev(e['e'], s)
        self.emit('free', e, s, p=self.deref(v), v=v, q='delete[]' if e.get('arr') else 'delete')
        return None

    def e_Ctor(self, e, s):
        t = e.get('t') or {}
        if (e.get('copy') or is_iter_type(t)) and len(e['a']) >= 1:
            v = self.ev(e['a'][0], s)
            if v is not None:
                return v
        if is_iter_type(t) and not e['a']:
            return T('noiter')
        fn = self.prog.callee(e)
        if fn is not None and self.may_inline(fn, e):
            self.nfresh += 1
            p = P(root('tmp', self.nfresh, short_type(t)))
            self.call_inline(fn, e, e['a'], s, this=p)
            return T('rd', p, s.ver(p))
        d = self.prog.decl(e)
        av, ap = self.eval_args(e, s, d)
        self.emit('construct', e, s, p=None, q=e.get('q'), argv=av, args=ap, x=e)
        self.effects(e, s, av, ap, d)
        rec = short_type(t)
        if len(av) == 1 and rec in ('ZZ',) and av[0] is not None:
            return T('call', 'conv<ZZ>', av[0])
        return T('call', 'new ' + rec, *[x if x is not None else T('void') for x in av])

    # ---- lvalues
    def lv(self, e, s):
        k = e['k']
        if k == 'Ref':
            if e['dk'] == 'global':
                return P(root('global', e.get('q')))
            if e['dk'] == 'static':
                f = self.frames[-1]
                return f.alias.get(e['d']) or P(root('static', f.fn['qn'], e['n']))
            if e['dk'] == 'func':
                return P(root('func', e.get('q')))
            return self.varpath(e['d'], e['n'])
        if k == 'Member':
            if e['arrow']:
                v = self.ev(e['e'], s)
                base = self.deref(v)
            else:
                base = self.lv(e['e'], s)
            return self.member(base, e, s)
        if k == 'Index':
            v = self.ev(e['e'], s)
            i = self.ev(e['i'], s)
            return self.deref(v, i)
        if k == 'Un' and e['o'] == '*':
            return self.deref(self.ev(e['e'], s))
        if k == 'Un' and e['o'] in ('++', '--') and not e.get('post'):
            self.ev(e, s)
            return self.lv(e['e'], s)
        if k == 'Assign':
            self.ev(e, s)
            return self.lv(e['a'], s)
        if k in ('Cast', 'ICast'):
            t = e.get('t') or {}
            return self.lv(e['e'], s)
        if k == 'Call':
            r = self.call(e, s, want_lv=True)
            if isinstance(r, tuple):
                return r[1]
            return self.valpath(r, s)
        if k == 'Cond':
            c = self.cond(e['c'], s)
            if const(c) is not None:
                return self.lv(e['a'] if const(c) else e['b'], s)
            a, b = self.lv(e['a'], s), self.lv(e['b'], s)
            if a is b:
                return a
            return self.deref(ite(c, T('addr', a), T('addr', b)))
        if k == 'Bin' and e['o'] == ',':
            self.ev(e['a'], s)
            return self.lv(e['b'], s)
        v = self.ev(e, s)
        return self.valpath(v, s)

    def valpath(self, v, s):
        if v is None:
            v = self.fresh('void')
        if v.op == 'rd':
            # a temporary equal to an existing object: reads go to that object's number
            return P(root('val', v))
        return P(root('val', v))

    def member(self, base, e, s):
        n = e['n']
        sels = base.a[1]
        if sels and sels[-1][0] == 'node':
            inner = T('path', base.a[0], sels[:-1])
            if n == 'second':
                return inner
            if n == 'first':
                return P(root('val', sels[-2][1]))
        if base.a[0].a[0] == 'val' and not sels:
            pass
        return ext(base, fsel(n))

    # ---- calls
    def may_inline(self, fn, e):
        if fn.get('dependent') or fn.get('body') is None:
            return False
        if len(self.frames) >= self.maxdepth:
            self.skipped_calls[fn['qn']] = 'depth'
            return False
        if any(f.fn is fn for f in self.frames):
            self.skipped_calls[fn['qn']] = 'recursion'
            return False
        if self.inline_policy and not self.inline_policy(fn, self):
            return False
        return True

    def resolve(self, e):
        fn = self.prog.callee(e)
        if fn is not None and self.virtual and fn['usr'] in self.virtual and not e.get('qualified'):
            fn = self.virtual[fn['usr']]
        return fn

    def e_Call(self, e, s):
        r = self.call(e, s)
        if isinstance(r, tuple):
            return self.read(r[1], s, e)
        return r

    def call(self, e, s, want_lv=False):
        q = e.get('q')
        if e.get('f') is None and q is None:
            if e.get('fe') is not None:
                self.ev(e['fe'], s)
            for a in e['a']:
                self.ev(a, s)
            if e.get('obj'):
                self.ev(e['obj'], s)
            self.emit('call', e, s, q='?', argv=[], args=[])
            return self.fresh('indirect')
        name = short(q)
        fn = self.resolve(e)
        if q in self.const_calls:
            for a in e['a']:
                self.ev(a, s)
            return self.const_calls[q]
        if fn is not None and self.may_inline(fn, e):
            this = None
            if e.get('obj') is not None:
                this = self.objpath(e, s)
            return self.call_inline(fn, e, e['a'], s, this=this)
        return self.external(e, s, name, q, fn, want_lv)

    def objpath(self, e, s):
        o = e['obj']
        if e.get('arrow') or (o.get('t') or {}).get('ptr'):
            return self.deref(self.ev(o, s))
        return self.lv(o, s)

    def call_inline(self, fn, e, args, s, this=None):
        binds = []
        for p, a in zip(fn['params'], args):
            if a is None:
                continue
            t = p['t']
            if t.get('ref'):
                binds.append((p, 'ref', self.lv(a, s)))
            else:
                binds.append((p, 'val', self.ev(a, s)))
        self.emit('enter', e, s, q=fn['qn'], p=this, argv=[b[2] if b[1] == 'val' else T('addr', b[2]) for b in binds], x=fn)
        caller_flows = None
        fr = self.push(fn, this)
        fr.callline = e.get('l')
        nd = Node('inl', (fn, fr.id, e))
        save = self.tree
        save.ch.append(nd)
        self.tree = nd
        g0 = s.g
        for p, kind, v in binds:
            if kind == 'ref':
                fr.alias[p['d']] = v
            else:
                vp = P(root('var', fr.id, p['d'], p['n']))
                if v is not None:
                    s.st[vp] = v
        loopsave = None
        s_in = s.copy()
        if fn.get('inits'):
            self.inits(fn, fr, s_in)
        out = self.stmt(fn['body'], s_in)
        rets = fr.rets
        if out is not None:
            rets.append((out, None))
        self.frames.pop()
        self.tree = save
        if not rets:
            # never returns
            s.g = s.g + (ZERO,)
            return self.fresh('noreturn')
        # join
        r, v = rets[-1]
        n0 = len(g0)
        for st, val in reversed(rets[:-1]):
            rel = [g for g in st.g if g not in set(g0)]
            relr = set(r.g)
            c = ONE
            for g in rel:
                if g not in relr:
                    c = land(c, g)
            if fr.midloop and not (fn.get('ret') or {}).get('ref'):
                # which iteration returned is not known here
                if val is not None and v is not None and val is not v:
                    v = T('jv', fr.id)
                r = self.join(None, st, r, g0, fr.id)
                continue
            if val is not None and v is not None:
                v = val if val is v else ite(c, val, v) if const(c) is None else val
            r = self.join(c if const(c) is None else None, st, r, g0)
        s.st, s.wr = r.st, r.wr
        if len(rets) == 1:
            s.g = r.g
        else:
            s.g = tuple(g for g in r.g) if set(g0) <= set(r.g) else g0
        rt = fn.get('ret') or {}
        if rt.get('ref') and v is not None:
            return ('lv', self.deref(v))
        return v

    def eval_args(self, e, s, d):
        """values and (for by-reference / pointer parameters) paths of the arguments"""
        av, ap = [], []
        params = (d or {}).get('params') or []
        for i, a in enumerate(e['a']):
            t = params[i] if i < len(params) else None
            if t is not None and t.get('ref') and a is not None:
                p = self.lv(a, s)
                ap.append(p)
                if t.get('cref'):
                    v = self.read(p, s, a)
                else:
                    v = self.load_path(p, s)
                av.append(v)
            else:
                v = self.ev(a, s)
                av.append(v if v is not None else T('void'))
                ap.append(self.deref(v) if v is not None and v.op == 'addr' else None)
        return av, ap

    def effects(self, e, s, av, ap, d, skip_first=False):
        """an external callee may write what it gets by mutable reference or pointer"""
        params = (d or {}).get('params') or []
        for i, a in enumerate(e['a']):
            t = params[i] if i < len(params) else None
            p = ap[i]
            if p is None:
                continue
            if t is None:
                continue
            if (t.get('ref') and not t.get('cref')) or (t.get('ptr') and not t.get('cptr')):
                self.assign(p if not t.get('ptr') or not (p.a[1] and p.a[1][-1][0] == 'i') else p, None, s, e, 'extern')

    def external(self, e, s, name, q, fn, want_lv):
        d = self.prog.decl(e)
        if fn is not None:
            self.skipped_calls.setdefault(fn['qn'], 'policy')
        obj = e.get('obj')
        op = e.get('op')
        t = e.get('t') or {}
        if obj is not None:
            ot = obj.get('t') or {}
            if op in ('->', '*') and not e['a']:
                # smart pointers and iterators
                if is_iter_type(ot) or is_iter_type({'c': ot.get('c')}):
                    v = self.ev(obj, s)
                    return T('addr', self.deref(v)) if op == '->' else ('lv', self.deref(v))
                p = self.lv(obj, s)
                if self.want_reads:
                    self.emit('read', obj, s, p=p)
                v = s.st.get(p)
                if v is not None and v.op == 'addr':
                    p = v.a[0]
                return T('addr', p) if op == '->' else ('lv', p)
            if is_iter_type(ot) or (name in ('operator++', 'operator--', 'operator=', 'operator==', 'operator!=') and is_iter_type({'c': ot.get('c') or '', 's': ot.get('s')})):
                return self.iter_method(e, s, name, op)
            op_ = self.objpath(e, s)
            return self.method(e, s, name, q, d, op_, op, want_lv)
        # free functions
        if op in ('==', '!=') and len(e['a']) == 2 and all(is_iter_type({'c': (a.get('t') or {}).get('c') or (a.get('t') or {}).get('s')}) for a in e['a']):
            a, b = self.ev(e['a'][0], s), self.ev(e['a'][1], s)
            r = self.iter_eq(a, b, s)
            return r if op == '==' else lnot(r)
        av, ap = self.eval_args(e, s, d)
        if name in ('abort', 'exit', '_exit', 'terminate', 'flint_abort', 'quick_exit', 'LogicError', 'TerminalError', 'Error'):
            self.emit('abort', e, s, q=name, argv=av)
            s.g = s.g + (ZERO,)
            return None
        if name in ('malloc', 'calloc', 'realloc', 'flint_malloc', 'flint_calloc', 'flint_realloc', '_fmpz_vec_init', '_nmod_vec_init', 'aligned_alloc', 'strdup'):
            self.nheap += 1
            r = root('heap', self.frames[-1].fn['qn'], self.nheap)
            self.emit('alloc', e, s, p=P(r), v=av[0] if av else None, q=name, argv=av, args=ap)
            return T('addr', P(r, ('i', ZERO)))
        if name in ('free', 'flint_free', '_fmpz_vec_clear', '_nmod_vec_clear'):
            self.emit('free', e, s, p=ap[0] if ap else None, q=name, argv=av, args=ap)
            return None
        ev = self.emit('call', e, s, q=q, argv=av, args=ap, x=fn)
        if name == 'modulus':
            name = '::'.join(q.split('::')[-2:])
        if name == 'swap' and len(av) == 2 and ap[0] is not None and ap[1] is not None:
            va, vb = av
            self.assign(ap[0], vb, s, e, 'swap')
            self.assign(ap[1], va, s, e, 'swap')
            return None
        if q in ('std::make_pair', 'std::make_tuple') and all(isinstance(v, T) for v in av):
            return T('call', name, *av)       # forwards copies of its arguments
        self.effects(e, s, av, ap, d)
        # functions returning a reference to their first argument (streams, NTL op=)
        rt = (d or {}).get('ret') or {}
        if rt.get('ref') and ap and ap[0] is not None:
            return ('lv', ap[0])
        if rt.get('void') or t.get('void'):
            return None
        if rt.get('ptr') and name in ('fmpz_mat_entry', 'fmpz_poly_get_coeff_ptr', 'fmpq_mat_entry') and ap and ap[0] is not None:
            return T('addr', ext(ap[0], ('f', '#e'), ('i', T('list', *av[1:]))))
        for i, (tt) in enumerate((d or {}).get('params') or []):
            pass
        vals = [v if v is not None else T('void') for v in av]
        if name in NONDET or name.startswith('random') or name.startswith('Random'):
            return T('call', name, self.fresh('nd'), *vals)
        if any((pt.get('ref') and not pt.get('cref')) or (pt.get('ptr') and not pt.get('cptr')) for pt in (d or {}).get('params') or []):
            # result of a call that also writes its arguments: number it by the values it read
            return T('call', name, self.fresh('mut'), *vals)
        if name in ('operator+', 'operator-', 'operator*') and len(vals) == 2 and t.get('rec'):
            return T('call', name, *vals)
        if name == 'conv' or name.startswith('to_') or name == 'rep':
            return T('call', name + (('<%s>' % t.get('s')) if name == 'conv' else ''), *vals)
        return T('call', name, *vals)

    def iter_eq(self, a, b, s):
        for x, y in ((a, b), (b, a)):
            if y.op == 'iterend':
                if x.op == 'iter' and x.a[0] is y.a[0]:
                    if x.a[1] is T('begin'):
                        return T('isend', x.a[0], x.a[1], s.ver(x.a[0]))
                    return T('isend', x.a[0], x.a[1], s.ver(x.a[0]))
        return T('eq', *sorted((a, b), key=lambda x: x.id)) if a is not b else ONE

    def iter_method(self, e, s, name, op):
        o = e['obj']
        if op == '=':
            v = self.ev(e['a'][0], s)
            p = self.lv(o, s)
            self.assign(p, v, s, e)
            return ('lv', p)
        if op in ('++', '--'):
            p = self.lv(o, s)
            v = self.load_path(p, s)
            nv = T('iternext', v, op)
            if v.op == 'iter':
                nv = T('iter', v.a[0], T('next', v.a[1], op))
            self.assign(p, nv, s, e, compound=True)
            return ('lv', p)
        if op in ('==', '!='):
            a = self.ev(o, s)
            b = self.ev(e['a'][0], s)
            r = self.iter_eq(a, b, s)
            return r if op == '==' else lnot(r)
        v = self.ev(o, s)
        for a in e['a']:
            self.ev(a, s)
        return self.fresh('iter')

    def method(self, e, s, name, q, d, p, op, want_lv):
        t = e.get('t') or {}
        oc = (d or {}).get('cls') or ''
        isconst = (d or {}).get('const')
        ismap = q.startswith('std::map<') or q.startswith('std::_Rb_tree') or q.startswith('std::unordered_map') or q.startswith('std::set')
        if ismap:
            if name in ('find', 'lower_bound', 'upper_bound'):
                k = self.ev(e['a'][0], s)
                if name != 'find':         # some neighbouring key
                    k = T('call', name, k)
                if self.want_reads:
                    self.emit('read', e, s, p=p)
                self.emit('mapfind', e, s, p=p, v=k)
                return T('iter', p, k)
            if name in ('end', 'cend'):
                return T('iterend', p)
            if name in ('begin', 'cbegin'):
                if self.want_reads:
                    self.emit('read', e, s, p=p)
                return T('iter', p, T('begin'))
            if name in ('count',):
                k = self.ev(e['a'][0], s)
                if self.want_reads:
                    self.emit('read', e, s, p=p)
                return ite(T('isend', p, k, s.ver(p)), ZERO, ONE)
            if name in ('operator[]', 'at'):
                k = self.ev(e['a'][0], s)
                ep = ext(p, ('k', k))
                self.emit('mapindex', e, s, p=p, v=k, x=name)
                if name == 'operator[]':
                    # may insert: membership facts about the map are renewed
                    self.bump(p, s)
                return ('lv', ep)
            if name in ('insert', 'emplace', 'insert_or_assign', 'try_emplace') and not (t.get('void')):
                vals = [self.ev(a, s) for a in e['a']]
                if len(vals) == 1 and isinstance(vals[0], T) and vals[0].op in ('call', 'new'):
                    pr = [x for x in vals[0].a[1:]]
                    if 'pair' in str(vals[0].a[0]):
                        vals = pr
                if len(vals) == 2 and all(isinstance(v, T) for v in vals):
                    k, v = vals
                    ep = ext(p, ('k', k))
                    self.emit('mapindex', e, s, p=p, v=k, x=name)
                    absent = T('isend', p, k, s.ver(p))
                    old = self.load_path(ep, s)
                    self.bump(p, s)
                    self.assign(ep, v if name == 'insert_or_assign' else ite(absent, v, old), s, e)
                    return T('call', name, T('iter', p, k), self.fresh('mut'))
            if name in ('size', 'empty'):
                if self.want_reads:
                    self.emit('read', e, s, p=p)
                v = T('len', p, s.ver(p))
                return v if name == 'size' else eq(v, ZERO)
        if name in ('operator[]', 'get', 'at', 'operator()', 'back', 'front') and len(e['a']) >= 1 and t and not (name == 'get' and q.startswith('std::basic_')):
            idx = [self.ev(a, s) for a in e['a']]
            if name == 'operator()' and 'NTL::' in q:       # counts from 1
                idx = [sub(i, ONE) for i in idx]
            ep = ext(p, *[('i', i) for i in idx])
            if self.want_reads:
                # the element vector header is read
                self.emit('read', e, s, p=ep, x='index')
            return ('lv', ep)
        if name in ('length', 'NumRows', 'NumCols', 'size') and not e['a']:
            if self.want_reads:
                self.emit('read', e, s, p=p, x='len')
            lp = ext(p, ('f', '#' + name))
            v = s.st.get(lp)
            if v is not None:
                return v
            if name == 'length':
                v = s.st.get(p)
                if v is not None and v.op == 'rd':
                    return T('len', v.a[0], v.a[1])
                if v is not None:
                    return T('len', v)
                if p.a[0].a[0] == 'val' and not p.a[1] and p.a[0].a[1].op == 'rd':
                    return T('len', p.a[0].a[1].a[0], p.a[0].a[1].a[1])
                return T('len', p, s.ver(p))
            return T('call', name, T('rd', p, s.ver(p)))
        av, ap = self.eval_args(e, s, d)
        if op == '=' and len(av) == 1:
            self.assign(p, av[0], s, e)
            return ('lv', p)
        ev = self.emit('call', e, s, q=q, p=p, argv=av, args=ap, x=d, objp=p)
        if name == 'swap' and len(ap) == 1 and ap[0] is not None:
            va, vb = self.load_path(p, s), av[0]
            self.assign(p, vb, s, e, 'swap')
            self.assign(ap[0], va, s, e, 'swap')
            return None
        self.effects(e, s, av, ap, d)
        rt = (d or {}).get('ret') or {}
        if not isconst and not (d or {}).get('static'):
            self.assign(p, None, s, e, name)
            if name == 'SetLength' and av:
                s.st[ext(p, ('f', '#length'))] = av[0]
            if name == 'SetDims' and len(av) == 2:
                s.st[ext(p, ('f', '#NumRows'))] = av[0]
                s.st[ext(p, ('f', '#NumCols'))] = av[1]
        elif self.want_reads:
            self.emit('read', e, s, p=p)
        if rt.get('ref') and t:
            # fluent interfaces return the object
            if name.startswith('operator') or q.startswith('std::basic_'):
                return ('lv', p)
        if rt.get('void'):
            return None
        if isconst:
            return T('call', name, T('rd', p, s.ver(p)), *[v if v is not None else T('void') for v in av])
        return T('call', name, self.fresh('mut'), T('rd', p, s.ver(p)), *[v if v is not None else T('void') for v in av])

    def bump(self, p, s):
        self.stamp += 1
        k = pkey(p)
        s.wr[k] = self.stamp
        for w in self.writes:
            w.add(T('path', k[0], tuple(('f', x) for x in k[1])))


def canon(t, names=None):
    """t with memory versions dropped and loop counters named by nesting, renormalised"""
    names = names or {}
    if isinstance(t, tuple):
        return tuple(canon(x, names) for x in t)
    if not isinstance(t, T):
        return t
    if t in names:
        return names[t]
    if t.op == 'rd':
        return T('rd', canon(t.a[0], names), 0)
    if t.op in ('len', 'isend') and isinstance(t.a[-1], int):
        return T(t.op, *[canon(x, names) for x in t.a[:-1]], 0)
    if t.op in ('iv', 'ekey') and t.a[0] in names:
        return T(t.op, names[t.a[0]], *t.a[1:])
    if t.op == 'fresh':
        return T('fresh', *t.a[:1])
    if t.op == 'n':
        return t
    if t.op == 'poly':
        r = ZERO
        for mono, c in t.a:
            p = num(c)
            for x in mono:
                p = mul(p, canon(x, names))
            r = add(r, p)
        return r
    na = tuple(canon(x, names) for x in t.a)
    if t.op == 'lt0':
        return lt(na[0], ZERO)
    if t.op == 'eq0':
        return eq(na[0], ZERO)
    if t.op == 'not':
        return lnot(na[0])
    if t.op == 'ite':
        return ite(*na)
    return T(t.op, *na)


class Par:
    def __init__(self, id, node, fn, parent):
        self.id, self.node, self.fn, self.parent = id, node, fn, parent
        self.private = set()

    def __repr__(self):
        return 'Par%d@%s:%s' % (self.id, self.fn['file'], self.node.get('l'))


def addg(g, c):
    if const(c) == 1:
        return g
    cs = c.a if c.op == 'and' else (c,)
    for x in cs:
        if x not in g:
            g = g + (x,)
    return g


def strip(e):
    while e is not None and e.get('k') in ('ICast', 'Cast'):
        e = e['e']
    return e


def short_type(t):
    if not t:
        return '?'
    s = t.get('rec') or t.get('s') or '?'
    if not isinstance(s, str):
        s = t.get('s') or '?'
    s = s.replace('const ', '').replace('NTL::', '').replace('std::', '')
    return s.strip()
