"""C12: the verbosity option affects only what is printed; quiet calls print nothing."""
import re
import facts, ck
from moduli import headers, is_entry, sig

VERB = re.compile(r'verb', re.I)
STREAM = re.compile(r'basic_(o|io)?stream<|ostream|iostream')
OUT = re.compile(r'^(std::)?cout$')
PRINTER = re.compile(r'(^|::)(printf|vprintf|puts|putchar|flint_printf|fmpz_print\w*|fmpz_mat_print\w*|nmod_mat_print\w*|_fmpz_vec_print\w*|fmpz_poly_print\w*|fwrite|fputs|fputc|fprintf|fflush)$')
TOSTDOUT = re.compile(r'(^|::)(printf|vprintf|puts|putchar|flint_printf|fmpz_print\w*|fmpz_mat_print\w*|nmod_mat_print\w*|_fmpz_vec_print\w*|fmpz_poly_print\w*)$')
CLOCK = re.compile(r'(^|::)(get_timestamp|timestamp_\w+|GetTime|clock|time|omp_get_\w+|now|getrusage|gettimeofday|clock_gettime)$')
WORLD = re.compile(r'(^|::)(Random\w*|random\w*|rand|SetSeed|srand|init|FFTInit|restore|omp_set_\w+|exit|_exit|abort|terminate|remove|rename|unlink|system|flint_cleanup|flint_randinit|setenv)$|(zz_p|ZZ_p)(Push|Bak|Context)::')
ABORT = re.compile(r'(^|::)(abort|exit|_exit|terminate|flint_abort|TerminalError|LogicError|Error|quick_exit)$')
SELFTEST = re.compile(r'^test_')


def kids(n):
    for v in n.values():
        if isinstance(v, dict) and 'k' in v:
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and 'k' in x:
                    yield x
                elif isinstance(x, dict):        # declarator
                    for y in x.values():
                        if isinstance(y, dict) and 'k' in y:
                            yield y
                        elif isinstance(y, list):
                            for z in y:
                                if isinstance(z, dict) and 'k' in z:
                                    yield z


def core(e):
    while isinstance(e, dict) and e['k'] in ('ICast', 'Cast'):
        e = e['e']
    while isinstance(e, dict) and e['k'] == 'Ctor' and len(e.get('a') or []) == 1 and e.get('copy'):
        e = core(e['a'][0])
    return e


def base(e):
    """the variable an lvalue expression belongs to: ('var', decl) / ('this', field) / ('stream',) / None"""
    e = core(e)
    if not isinstance(e, dict):
        return None
    k = e['k']
    if k == 'Ref':
        return ('var', e.get('d'), e)
    if k == 'Member':
        b = base(e.get('e'))
        return ('field', e.get('n'), b) if b is None or b[0] in ('this', 'field') and e.get('e') is not None and core(e['e'])['k'] == 'This' else ('field', e.get('n'), b) if core(e.get('e') or {'k': ''})['k'] == 'This' else b if b and b[0] == 'var' and not e.get('arrow') else ('field', e.get('n'), b)
    if k == 'This':
        return ('this',)
    if k in ('Index', 'Un'):
        return base(e.get('e'))
    if k == 'Call':
        if e.get('obj') is not None:
            return base(e['obj'])
        return base(e['a'][0]) if e.get('a') else None
    if k == 'Cond':
        return base(e['a'])
    if k in ('Assign',):
        return base(e['a'])
    return None


def tstr(e):
    t = (e or {}).get('t') or {}
    return '%s %s' % (t.get('s'), t.get('c'))


def is_stream(e):
    e = core(e)
    return isinstance(e, dict) and bool(STREAM.search(tstr(e)))


class World:
    def __init__(self, P):
        self.P = P
        self.fields = set()
        self.params = set()       # decl ids are unit-local: (usr, index)
        self.funcs = {u: f for u, f in P.funcs.items() if not f.get('dependent')}
        self.getters = set()
        for u, f in self.funcs.items():
            for i, p in enumerate(f['params']):
                if VERB.search(p['n'] or ''):
                    self.params.add((u, i))
            for n in facts.walk([f['body'], f.get('inits') or []]):
                if n['k'] == 'Member' and VERB.search(n.get('n') or '') and (n.get('t') or {}).get('int'):
                    self.fields.add(n['n'])
        self.pure = {}


class Fn:
    """taint of one function"""

    def __init__(self, W, f):
        self.W, self.f = W, f
        self.tainted = {p['d'] for i, p in enumerate(f['params']) if (f['usr'], i) in W.params}
        self.locals = {}          # decl -> node of its declarator (non static)
        self.refs = set()
        for n in facts.walk(f['body']):
            if n['k'] == 'Decl':
                for v in (n['v'] if isinstance(n['v'], list) else [n['v']]):
                    self.locals[v['d']] = v
        self.params = {p['d']: p for p in f['params']}
        self.bad = {}
        self.regions = 0
        self.changed = False

    # -- is the expression influenced by the verbosity?
    def taint(self, e):
        if e is None:
            return False
        e = core(e)
        k = e['k']
        if k == 'Ref':
            return e.get('d') in self.tainted
        if k == 'Member':
            return e.get('n') in self.W.fields and bool((e.get('t') or {}).get('int'))
        if k == 'Call':
            g = self.W.P.callee(e)
            if g is not None:
                return g['usr'] in self.W.getters
            if is_stream(e) or re.search(r'make_(shared|unique)', e.get('q') or ''):
                return False
            return any(self.taint(a) for a in (e.get('a') or []) + ([e['obj']] if e.get('obj') else []))
        if k == 'Ctor':
            if self.W.P.callee(e) is not None:
                return False
            return any(self.taint(a) for a in e.get('a') or [])
        if k in ('Assert', 'Sizeof', 'Str', 'Int', 'Float'):
            return False
        return any(self.taint(x) for x in kids(e))

    def err(self, n, what, det):
        self.bad.setdefault((n.get('l') or self.f['line'], what), det)

    def add(self, d):
        if d not in self.tainted:
            self.tainted.add(d)
            self.changed = True

    # -- effects
    def write(self, n, lhs, inside, how):
        """lhs is written by n; inside: None outside verbosity regions, otherwise the declarations made in the region"""
        b = base(lhs)
        if inside is None:
            return
        if b is not None and b[0] == 'var':
            d, r = b[1], b[2]
            if d in inside:
                return
            v = self.locals.get(d)
            if v is not None and not v.get('static') and not self.is_ref(v):
                self.add(d)
                return
            if d in self.params and not self.is_ref(self.params[d]) and not (self.params[d].get('t') or {}).get('ptr'):
                self.add(d)
                return
            if is_stream(r):
                return
            self.err(n, '%s of %s' % (how, r.get('n')), 'happens only under a condition on the verbosity')
            return
        if b is not None and b[0] == 'field' and b[1] in self.W.fields:
            return
        if is_stream(lhs):
            return
        self.err(n, '%s of %s' % (how, 'field ' + str(b[1]) if b and b[0] == 'field' else 'an object'), 'happens only under a condition on the verbosity')

    def is_ref(self, v):
        t = v.get('t') or {}
        return bool(t.get('ref')) and not t.get('cref')

    def stmt(self, n, inside):
        """inside: None or the set of declarations made within the verbosity region"""
        if n is None:
            return
        k = n['k']
        if k == 'Block':
            after = inside
            for x in n['b']:
                self.stmt(x, after)
                if after is None and x['k'] == 'If' and self.taint(x['c']) and (leaves(x.get('th')) or leaves(x.get('el'))):
                    # the rest of the block runs depending on the verbosity
                    after = set()
            return
        if k == 'Decl':
            for v in (n['v'] if isinstance(n['v'], list) else [n['v']]):
                if inside is not None:
                    inside.add(v['d'])
                i = v.get('init')
                if i is not None:
                    self.expr(i, inside)
                    if self.taint(i) and (v.get('t') or {}).get('int'):
                        self.add(v['d'])
            return
        if k == 'If':
            self.expr(n['c'], inside)
            r = inside
            if self.taint(n['c']):
                self.regions += 1
                r = set() if inside is None else inside
            self.stmt(n.get('th'), r)
            self.stmt(n.get('el'), r)
            return
        if k in ('For', 'While', 'Do', 'RangeFor', 'Switch'):
            r = inside
            if n.get('init'):
                self.stmt(n['init'], inside)
            if n.get('c') is not None:
                self.expr(n['c'], inside)
                if self.taint(n['c']):
                    self.regions += 1
                    r = set() if inside is None else inside
            for kk in ('inc', 'b'):
                if n.get(kk):
                    self.stmt(n[kk], r)
            for x in kids(n):
                if x is not n.get('init') and x is not n.get('c') and x is not n.get('inc') and x is not n.get('b'):
                    self.stmt(x, r)
            return
        if k == 'Return':
            if inside is not None and not self.void():
                self.err(n, 'return', 'the value returned depends on the verbosity')
            if n.get('e') is not None:
                self.expr(n['e'], inside)
                if self.taint(n['e']):
                    if (core(n['e'])['k'] in ('Ref', 'Member')) and 'bool' in str((self.f['ret'] or {}).get('s')):
                        if self.f['usr'] not in self.W.getters:
                            self.W.getters.add(self.f['usr'])
                            self.changed = True
                    else:
                        self.err(n, 'return', 'the value returned depends on the verbosity')
            return
        if k in ('Break', 'Continue'):
            return          # judged with the loop that contains the region
        if k == 'OMP':
            for x in kids(n):
                self.stmt(x, inside)
            return
        if k == 'Assert':
            if inside is not None:
                self.err(n, 'assertion', 'is checked only under a condition on the verbosity')
            if self.taint(n['c']):
                self.err(n, 'assertion', 'depends on the verbosity')
            return
        if k == 'Case':
            self.stmt(n.get('b'), inside)
            return
        self.expr(n, inside)

    def void(self):
        return bool((self.f['ret'] or {}).get('void'))

    def expr(self, e, inside):
        if not isinstance(e, dict):
            return
        k = e['k']
        if k == 'Assert':
            return self.stmt(e, inside)
        if k == 'Bin' and e['o'] in ('&&', '||'):
            self.expr(e['a'], inside)
            r = inside
            if self.taint(e['a']):
                r = set() if inside is None else inside
            self.expr(e['b'], r)
            return
        if k == 'Cond':
            self.expr(e['c'], inside)
            r = inside
            if self.taint(e['c']):
                r = set() if inside is None else inside
            self.expr(e['a'], r)
            self.expr(e['b'], r)
            return
        if k == 'Assign':
            self.expr(e['b'], inside)
            self.expr(e['a'], inside)
            self.write(e, e['a'], inside, 'assignment')
            if self.taint(e['b']):
                self.flow(e, e['a'])
            return
        if k == 'Un' and e.get('o') in ('++', '--'):
            self.expr(e['e'], inside)
            self.write(e, e['e'], inside, 'change')
            return
        if k in ('Call', 'Ctor'):
            return self.call(e, inside)
        if k == 'Delete' and inside is not None:
            self.write(e, e['e'], inside, 'release')
        for x in kids(e):
            self.expr(x, inside)

    def flow(self, n, lhs):
        """a verbosity-dependent value is stored in lhs"""
        c = core(lhs)
        b = base(lhs)
        if c['k'] == 'Ref' and (c.get('d') in self.locals or c.get('d') in self.params) and not self.is_ref(self.locals.get(c['d']) or self.params.get(c['d'])):
            self.add(c['d'])
        elif c['k'] == 'Member' and (c.get('t') or {}).get('int') and 'bool' in tstr(c):
            if c['n'] not in self.W.fields:
                self.W.fields.add(c['n'])
                self.changed = True
        elif b is not None and b[0] == 'var' and (b[1] in self.locals) and not self.is_ref(self.locals[b[1]]):
            self.add(b[1])
        else:
            self.err(n, 'assignment', 'stores a value that depends on the verbosity')

    def call(self, e, inside):
        W = self.W
        args = list(e.get('a') or [])
        obj = e.get('obj')
        for a in args:
            self.expr(a, inside)
        if obj is not None:
            self.expr(obj, inside)
        q = e.get('q') or ''
        g = W.P.callee(e)
        op = e.get('op') or ''
        short = q.split('<')[0] if not q.endswith('>') else q
        # streams: printing, and writing or reading the option itself
        strm = op in ('<<', '>>', '<<=') and ((obj is not None and is_stream(obj)) or (args and is_stream(args[0]))) or re.search(r'basic_\w*stream<.*>::\w', q) or 'std::endl' in q
        if strm or PRINTER.search(q):
            return
        if g is not None:
            for i, a in enumerate(args[:len(g['params'])]):
                if self.taint(a) and (g['usr'], i) not in W.params and not CLOCK.search(g['qn']):
                    W.params.add((g['usr'], i))
                    self.changed = True
            if inside is not None and not self.harmless(g):
                # effects on the arguments only?
                self.err(e, 'call of %s' % g['qn'], 'has effects and happens only under a condition on the verbosity')
            elif inside is not None:
                for i, a in enumerate(args[:len(g['params'])]):
                    t = g['params'][i].get('t') or {}
                    if (t.get('ref') and not t.get('cref') or t.get('ptr') and not t.get('cptr')) and not is_stream(a):
                        self.write(e, a, inside, 'change')
            return
        d = W.P.decl(e) or {}
        if 'make_shared' in q or 'make_unique' in q:
            m = re.search(r'<([\w:]+)', tstr(e))
            for i, a in enumerate(args):
                if self.taint(a):
                    for u, h in W.funcs.items():
                        if h.get('cls') and m and h['cls'].split('::')[-1] == m.group(1).split('::')[-1] and h['n'] == h['cls'].split('::')[-1] \
                                and len(h['params']) >= len(args) and 'bool' in str((h['params'][i].get('t') or {}).get('s')) and (u, i) not in W.params:
                            W.params.add((u, i))
                            self.changed = True
            if inside is not None:
                return
            return
        if inside is not None and (WORLD.search(q) and not CLOCK.search(q)):
            self.err(e, 'call of %s' % q.split('::')[-1], 'happens only under a condition on the verbosity')
            return
        ps = d.get('params') or []
        isconst = d.get('const')
        effect = []
        if obj is not None and not isconst and not d.get('static') and op not in ('->', '*', '[]', '()') and q.split('::')[-1] not in ('begin', 'end', 'cbegin', 'cend', 'find', 'length', 'size', 'get'):
            effect.append(obj)
        if obj is not None and op == '[]' and 'map<' in q:
            effect.append(obj)
        off = 1 if obj is None and e['k'] == 'Call' and op and len(ps) == len(args) - 1 else 0
        for i, a in enumerate(args):
            t = (ps[i] if i < len(ps) else {}) or {}
            t = t.get('t') if 't' in t else t
            t = t or {}
            if (t.get('ref') and not t.get('cref')) or (t.get('ptr') and not t.get('cptr')):
                effect.append(a)
        for a in effect:
            self.write(e, a, inside, 'change')
        if effect and any(self.taint(a) for a in args):
            b = base(effect[0])
            if b is not None and b[0] == 'var' and b[1] in self.locals and not self.is_ref(self.locals[b[1]]):
                self.add(b[1])
            elif not (b is not None and b[0] == 'field' and b[1] in W.fields):
                self.err(e, 'call of %s' % q.split('::')[-1], 'uses a value that depends on the verbosity')

    def harmless(self, g, depth=0):
        """g only prints and changes its own variables (or what it is given by reference, judged at the call)"""
        W = self.W
        if g['usr'] in W.pure:
            return W.pure[g['usr']]
        W.pure[g['usr']] = True
        h = Fn(W, g)
        ok = True
        own = set(h.locals) | {p['d'] for p in g['params']}
        for n in facts.walk([g['body'], g.get('inits') or []]):
            t = None
            if n['k'] == 'Assign':
                t = n['a']
            elif n['k'] == 'Un' and n.get('o') in ('++', '--'):
                t = n['e']
            elif n['k'] in ('Call', 'Ctor'):
                q = n.get('q') or ''
                c = W.P.callee(n)
                if c is not None:
                    ok = ok and self.harmless(c, depth + 1)
                    continue
                if WORLD.search(q) and not CLOCK.search(q) and not ABORT.search(q):
                    ok = False
                d = W.P.decl(n) or {}
                if n.get('obj') is not None and not d.get('const') and not d.get('static') and (n.get('op') not in ('->', '*', '[]') or n.get('op') == '[]' and 'map<' in q) and not is_stream(n['obj']) and q.split('::')[-1] not in ('begin', 'end', 'find', 'cbegin', 'cend', 'length', 'size', 'get'):
                    t = n['obj']
            if t is not None:
                b = base(t)
                if not (b is not None and b[0] == 'var' and b[1] in own) and not is_stream(t):
                    ok = False
        W.pure[g['usr']] = ok
        return ok


def leaves(n):
    """some path through the statement leaves the enclosing block"""
    if n is None:
        return False
    if n['k'] in ('Return',):
        return True
    if n['k'] in ('Break', 'Continue'):
        return True
    if n['k'] in ('For', 'While', 'Do', 'Switch', 'RangeFor'):
        return any(x['k'] == 'Return' for x in facts.walk(n))
    return any(leaves(x) for x in kids(n)) if n['k'] in ('Block', 'If', 'OMP', 'Case') else False


# ------------------------------------------------------------------ quietness: the program at verbosity zero
class Zero:
    def __init__(self, F, W):
        self.F, self.W = F, W
        self.val = {}
        self.prints = []       # (node, aborts afterwards)
        self.assume = ()       # flags known on this branch
        self.under = {}        # printing node -> flags known there
        self.calls = []
        self.block(F.f['body'])

    def value(self, e):
        """value of an expression when the verbosity is zero: int or None"""
        e = core(e)
        k = e['k']
        if k == 'Int':
            try:
                return int(str(e['v']))
            except ValueError:
                return {'true': 1, 'false': 0}.get(str(e['v']))
        if k == 'Ref' and e.get('d') in self.val:
            return self.val[e['d']]
        if k == 'Ref' and e.get('d') in {p['d'] for i, p in enumerate(self.F.f['params']) if (self.F.f['usr'], i) in self.W.params}:
            return 0
        if k == 'Member' and e.get('n') in self.W.fields and (e.get('t') or {}).get('int'):
            return 0
        if k == 'Call' and self.W.P.callee(e) is not None and self.W.P.callee(e)['usr'] in self.W.getters:
            return 0
        if k == 'Un' and e['o'] == '!':
            v = self.value(e['e'])
            return None if v is None else int(not v)
        if k == 'Bin':
            a, b = self.value(e['a']), self.value(e['b'])
            if e['o'] == '&&':
                return 0 if a == 0 or b == 0 else 1 if a and b else None
            if e['o'] == '||':
                return 1 if a or b else 0 if a == 0 and b == 0 else None
            if a is None or b is None:
                return None
            try:
                return int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[e['o']])
            except KeyError:
                return None
        return None

    def block(self, n):
        """True when control cannot come out at the end (at verbosity zero)"""
        if n is None:
            return False
        k = n['k']
        if k == 'Block':
            start = len(self.prints)
            for x in n['b']:
                r = self.block(x)
                if r == 'left' and x['k'] == 'Return' and x.get('e') is not None and 'bool' in str((self.F.f['ret'] or {}).get('s')) and self.value(x['e']) == 0:
                    r = 'abort'       # reports failure
                if r == 'left' and x['k'] == 'Return' and x.get('e') is not None and 'bool' in str((self.F.f['ret'] or {}).get('s')):
                    fl = self.flag(x['e'])
                    for i in range(start, len(self.prints)):
                        nd = self.prints[i][0]
                        if fl is not None and (fl[0], 1 - fl[1]) in self.under.get(id(nd), ()):
                            self.prints[i] = (nd, True)         # the flag returned is false whenever this is reached
                if r == 'abort':
                    for i in range(start, len(self.prints)):
                        self.prints[i] = (self.prints[i][0], True)
                    return 'abort'
                if leaves_always(x, self):
                    return 'left'
            return False
        if k == 'If':
            v = self.value(n['c'])
            self.scan(n['c'])
            a = b = False
            fl, old = self.flag(n['c']), self.assume
            if v != 0:
                self.assume = old + ((fl,) if fl else ())
                a = self.block(n.get('th'))
            if not v:
                self.assume = old + (((fl[0], 1 - fl[1]),) if fl else ())
                b = self.block(n.get('el')) if n.get('el') else False
            self.assume = old
            if v is not None:
                return a if v else b
            return a if a == b else False
        if k in ('For', 'While', 'Do', 'RangeFor', 'Switch', 'OMP', 'Case'):
            if n.get('c') is not None and isinstance(n.get('c'), dict):
                self.scan(n['c'])
                if self.value(n['c']) == 0 and k in ('For', 'While'):
                    return False
            if n.get('init'):
                self.block(n['init'])
            if n.get('inc'):
                self.scan(n['inc'])
            if n.get('b'):
                self.block(n['b'])
            return False
        if k == 'Decl':
            for v in (n['v'] if isinstance(n['v'], list) else [n['v']]):
                if v.get('init') is not None:
                    self.scan(v['init'])
                    w = self.value(v['init'])
                    if w is not None and self.once(v['d']):
                        self.val[v['d']] = w
            return False
        if k == 'Return':
            if n.get('e') is not None:
                self.scan(n['e'])
            return 'left'
        self.scan(n)
        if k == 'Call' and ABORT.search(n.get('q') or ''):
            return 'abort'
        if k == 'Assert' and self.value(n['c']) == 0:
            return 'abort'
        return False

    def flag(self, e):
        """(local variable, value it has when e holds) for a condition that is a flag set once"""
        e, v = core(e), 1
        while e['k'] == 'Un' and e.get('o') == '!':
            e, v = core(e['e']), 1 - v
        return (e['d'], v) if e['k'] == 'Ref' and e.get('d') in self.F.locals and self.once(e['d']) else None

    def once(self, d):
        for n in facts.walk(self.F.f['body']):
            if n['k'] == 'Assign' and core(n['a'])['k'] == 'Ref' and core(n['a']).get('d') == d:
                return False
            if n['k'] == 'Un' and n.get('o') in ('++', '--', '&') and core(n['e']).get('d') == d:
                return False
        return True

    def scan(self, e):
        if not isinstance(e, dict):
            return
        k = e['k']
        if k == 'Assert':
            return
        if k == 'Bin' and e['o'] in ('&&', '||'):
            self.scan(e['a'])
            v = self.value(e['a'])
            if not (e['o'] == '&&' and v == 0 or e['o'] == '||' and v):
                self.scan(e['b'])
            return
        if k == 'Cond':
            self.scan(e['c'])
            v = self.value(e['c'])
            if v != 0:
                self.scan(e['a'])
            if not v:
                self.scan(e['b'])
            return
        if k == 'Ref' and OUT.match(e.get('q') or e.get('n') or '') and e.get('d') not in self.F.locals:
            self.prints.append((e, False))
            self.under[id(e)] = self.assume
        if k == 'Call':
            if TOSTDOUT.search(e.get('q') or ''):
                self.prints.append((e, False))
                self.under[id(e)] = self.assume
            g = self.W.P.callee(e)
            if g is not None:
                self.calls.append((e, g['usr']))
        for x in kids(e):
            self.scan(x)


def leaves_always(x, z):
    if x['k'] == 'If':
        v = z.value(x['c'])
        if v is None:
            return False
        br = x.get('th') if v else x.get('el')
        return br is not None and (br['k'] == 'Return' or br['k'] in ('Break', 'Continue') or br['k'] == 'Block' and any(y['k'] in ('Return', 'Break', 'Continue') for y in br['b']))
    return x['k'] in ('Return', 'Break', 'Continue')


def printing_only(W, f):
    """the function exists to print: it changes nothing and returns nothing"""
    F = Fn(W, f)
    return bool((f['ret'] or {}).get('void') or STREAM.search(str((f['ret'] or {}).get('s')))) and F.harmless(f) \
        and not any((p.get('t') or {}).get('ref') and not (p.get('t') or {}).get('cref') and not STREAM.search(str((p.get('t') or {}).get('s'))) for p in f['params'])


def c12(c):
    P = facts.load()
    W = World(P)
    hdr = headers(P)
    c.need(len(W.params), 20, 'verbosity parameters (before closure)')
    c.need(len(W.fields), 1, 'verbosity fields')
    fns = {}
    for _ in range(40):
        changed = False
        for u, f in sorted(W.funcs.items()):
            old = fns.get(u)
            F = Fn(W, f)
            if old is not None:
                F.tainted |= old.tainted
            for _i in range(20):
                F.changed = False
                F.bad = {}
                F.regions = 0
                for i in (f.get('inits') or []):
                    x = i.get('e') if isinstance(i, dict) and 'k' not in i else i
                    if isinstance(x, dict):
                        F.expr(x, None)
                F.stmt(f['body'], None)
                changed = changed or F.changed
                if not F.changed:
                    break
            fns[u] = F
        if not changed:
            break
    else:
        raise facts.AnalysisError('taint does not settle')
    regions = 0
    seen = set()
    for u, F in sorted(fns.items()):
        f = F.f
        regions += F.regions
        if F.regions or any((u, i) in W.params for i in range(len(f['params']))):
            c.ob(not F.bad, 'only-printing', ck.where(f, f['line']), sig(f), '%d verbosity-dependent regions' % F.regions if not F.bad else '')
        for (l, what), det in sorted(F.bad.items()):
            c.ob(False, 'only-printing', ck.where(f, l), '%s: %s' % (sig(f), what), det)
    c.need(regions, 40, 'regions depending on the verbosity')
    # quietness
    zs = {u: Zero(F, W) for u, F in fns.items()}
    printers = {u for u, z in zs.items() if any(not ab for n, ab in z.prints) and printing_only(W, W.funcs[u])}
    inscope = {u for u, f in W.funcs.items() if any((u, i) in W.params for i in range(len(f['params'])))
               or any(n['k'] == 'Member' and n.get('n') in W.fields for n in facts.walk([f['body'], f.get('inits') or []]))}
    cl = {f['cls'] for u, f in W.funcs.items() if u in inscope and f.get('cls')}
    inscope |= {u for u, f in W.funcs.items() if f.get('cls') in cl}
    todo, reach = list(inscope), set(inscope)
    while todo:
        u = todo.pop()
        for e, v in zs[u].calls if u in zs else []:
            if v not in reach and v in zs:
                reach.add(v)
                todo.append(v)
    tot = 0
    for u in sorted(reach):
        f, z = W.funcs[u], zs[u]
        if SELFTEST.match(f['n']) or u in printers:
            continue
        loud = [n for n, ab in z.prints if not ab]
        tot += 1
        c.ob(not loud, 'quiet', ck.where(f, loud[0].get('l') if loud else f['line']), sig(f),
             'prints nothing at verbosity zero (unless it stops the program)' if not loud else 'prints to standard output although the verbosity is zero')
        for e, v in z.calls:
            if v in printers:
                c.ob(False, 'quiet', ck.where(f, e.get('l') or f['line']), '%s -> %s' % (sig(f), W.funcs[v]['qn']), 'prints although the verbosity is zero')
    c.need(tot, 60, 'functions examined at verbosity zero')
    c.analysed['printing helpers'] = len(printers)
    c.analysed['verbosity fields after closure'] = sorted(W.fields)
    c.analysed['verbosity parameters after closure'] = len(W.params)
