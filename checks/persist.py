"""C06, C07, C08: saving to and loading from files."""
import re
import facts, vn, ck
from facts import AnalysisError
from vn import T, show, canon

FOPS = {'operator<<', 'operator>>', 'put', 'write', 'get', 'getline', 'read'}


def stream_vars(I, kind):
    """file streams of the function (and the helpers inlined into it)"""
    out = {}
    for e in I.events:
        if e.kind == 'construct' and e.p is not None and kind in (e.q or ''):
            out[e.p] = e
    return out


def saver_loader(P):
    sav, lod = [], []
    for f in P.funcs.values():
        if f.get('dependent') or not f.get('cls') or f['n'].startswith('test_'):
            continue
        t = [str((p.get('t') or {}).get('s')) for p in f['params']]
        if not any('char' in x or 'string' in x for x in t):
            continue
        names = set()
        for n in facts.walk(f['body']):
            if n['k'] == 'Decl':
                for v in n['v']:
                    names.add((v.get('t') or {}).get('s') or '')
        if any('ofstream' in x for x in names) or f['n'] == 'save' and not delegating(P, f):
            sav.append(f)
        elif any('ifstream' in x for x in names):
            lod.append(f)
    return sav, lod


def delegating(P, f):
    """the save of a member object does the work"""
    for n in facts.walk(f['body']):
        if n['k'] == 'Call':
            g = P.callee(n)
            if g is not None and g['n'] == 'save':
                return True
    return False


def delegate_pairs(P):
    for f in P.funcs.values():
        if f['n'] == 'save' and not f.get('dependent') and f.get('cls') and delegating(P, f):
            yield f


def is_manip(v):
    return v is not None and (v.op == 'func' or v.op == 'str' and not str(v.a[0]).strip())


def stream_of(e, streams):
    for p in ([e.objp] if e.objp is not None else []) + list((e.args or [])[:1]):
        if p is not None and p in streams:
            return p
    return None


def operand(e):
    """(path, value) transferred by a stream operation"""
    av, ap = e.argv or [], e.args or []
    if e.objp is not None:
        i = 0
    else:
        i = 1
    if len(av) <= i and len(ap) <= i:
        return None, None
    return (ap[i] if i < len(ap) else None), (av[i] if i < len(av) else None)


class Item:
    def __init__(self, e, p, v, names):
        self.e, self.p, self.v = e, p, v
        self.names = names
        self.loops = []
        for L in e.loops:
            for iv, d in sorted(L.ivs.items(), key=lambda x: str(x[0])):
                if d[0] is None or d[1] is None:
                    self.loops.append(('?',))
                elif d[2] == 1:
                    self.loops.append((vn.ZERO, canon(vn.sub(d[1], d[0]), names), 1))
                else:
                    self.loops.append((canon(d[0], names), canon(d[1], names), d[2]))
            if L.elem is not None:
                self.loops.append(('each', canon(L.elem[0], names)))

    def path(self):
        return canon(self.p, self.names) if self.p is not None else None

    def where(self):
        return self.e.where


def items(I, ops, streams):
    out = []
    for e in I.events:
        if e.kind != 'call' or vn.short(e.q or '') not in ops:
            continue
        s = stream_of(e, streams)
        if s is None:
            continue
        p, v = operand(e)
        if is_manip(v) or typ(e) == 'char' and v is not None and vn.const(v) in (9, 10, 13, 32):
            continue
        out.append((s, Item(e, p, v, names(e))))
    return out


def typ(e):
    """element type moved by the stream operation: last parameter type of the operator"""
    q = e.node.get('a') or []
    n = q[-1] if q else None
    while n is not None and n.get('k') in ('ICast', 'Cast'):
        n = n.get('e')
    t = (n or {}).get('t') or {}
    s = t.get('c') or t.get('s') or '?'
    return re.sub(r'\bconst\b|&|\bNTL::|\bstd::|\bclass\b|\bstruct\b|\s', '', s)


def descr(it):
    """what is moved: ('field', path) or ('local', path)"""
    p = it.path()
    if p is None and it.v is not None:
        v = canon(it.v, it.names)
        while v.op == 'bool' and isinstance(v.a[0], T):
            v = v.a[0]
        if v.op == 'rd':
            p = v.a[0]
        else:
            return ('value', v)
    if p is None:
        return ('?', None)
    if p.a[0].a[0] == 'this':
        return ('field', p)
    return ('local', p)


def local_sources(I, base, before):
    """element writes of a local vector: index and value"""
    out = []
    for e in I.events:
        if e.kind == 'write' and e.n < before and e.p is not None and e.p.a[0] is base.a[0] and len(e.p.a[1]) == len(base.a[1]) + 1 and e.p.a[1][-1][0] == 'i' and e.x not in ('extern', 'SetLength'):
            nm = names(e)
            out.append((e, canon(e.p.a[1][-1][1], nm), canon(e.v, nm) if e.v is not None else None, e.loops))
    return out


def local_sinks(I, base, after):
    """fields filled from the elements of a local vector: (event, path, value)"""
    out = []
    for e in I.events:
        if e.kind == 'write' and e.n > after and e.p is not None and e.p.a[0].a[0] == 'this' and e.v is not None:
            for t in vn.subterms(e.v):
                if t.op == 'rd' and t.a[0].a[0] is base.a[0]:
                    nm = names(e)
                    out.append((e, canon(e.p, nm), canon(e.v, nm), e.loops))
                    break
    return out


def compare(c, P, S, L):
    """obligations for one (writer, reader) pair"""
    IS, IL = vn.Interp(P).run(S), vn.Interp(P).run(L)
    ws = items(IS, ('operator<<', 'put', 'write'), stream_vars(IS, 'ofstream'))
    rs = items(IL, ('operator>>', 'get', 'getline', 'read'), stream_vars(IL, 'ifstream'))
    name = '%s / %s' % (S['qn'], L['qn'])
    streams = set(s for s, _ in ws)
    c.ob(len(streams) == 1, 'one-stream', ck.where(S, S['line']), name, '%d streams receive object data' % len(streams), key='one-stream|' + name)
    W, R = [i for _, i in ws], [i for _, i in rs]
    c.ob(len(W) == len(R), 'same-length', ck.where(S, S['line']), name, 'writes %d items, reads %d' % (len(W), len(R)), key='same-length|' + name)
    c.need(len(W), 10, 'items written by ' + S['qn'])
    for k, (w, r) in enumerate(zip(W, R)):
        dw, dr = descr(w), descr(r)
        what = '%s item %d: %s' % (name, k + 1, show(dw[1]) if dw[1] is not None else '?')
        tw, tr = typ(w.e), typ(r.e)
        c.ob(tw == tr, 'same-type', w.where(), what, 'written as %s, read as %s' % (tw, tr), key='same-type|%s|%d' % (name, k))
        c.ob(w.loops == r.loops, 'same-repetition', w.where(), what, 'written %s times, read %s times' % (w.loops, r.loops), key='same-rep|%s|%d' % (name, k))
        gw = conds(w.e, IS)
        gr = conds(r.e, IL)
        c.ob(gw == gr, 'same-condition', w.where(), what, 'written when %s, read when %s' % (sorted(map(show, gw)), sorted(map(show, gr))), key='same-cond|%s|%d' % (name, k))
        if dw[0] == dr[0] == 'field':
            c.ob(dw[1] is dr[1], 'same-place', r.where(), what, 'written from %s, read into %s' % (show(dw[1]), show(dr[1])), key='same-place|%s|%d' % (name, k))
            later = [e for e in IL.events if e.kind == 'write' and e.n > r.e.n + 1 and e.p is not None and canon(e.p, names(e)) is dr[1] and e.x != 'extern']
            c.ob(not later, 'not-overwritten', r.where(), what, 'overwritten after loading at %s' % [e.where for e in later] if later else 'kept as loaded', key='overwritten|%s|%d' % (name, k))
        elif dw[0] == dr[0] == 'local':
            src = local_sources(IS, w.p, w.e.n)
            snk = local_sinks(IL, r.p, r.e.n)
            good = []
            for (e, ix, v, lp) in src:
                for (e2, p2, v2, lp2) in snk:
                    # field F written as  vec[dict[deg]{key}] = F{key};  read back as  F{list[deg][i]} = vec[i]
                    if v is None or v.op != 'rd' or v2.op != 'rd' or v2.a[0].a[0] is not r.p.a[0]:
                        continue
                    fp = v.a[0]
                    if fp.a[0].a[0] != 'this' or len(fp.a[1]) != len(p2.a[1]) or fp.a[1][:-1] != p2.a[1][:-1]:
                        continue
                    key, key2 = fp.a[1][-1], p2.a[1][-1]
                    i2 = v2.a[0].a[1][-1]
                    if key[0] != 'k' or key2[0] != 'k' or i2[0] != 'i':
                        continue
                    if ix.op != 'rd' or key2[1].op != 'rd':
                        continue
                    a, b = ix.a[0], key2[1].a[0]
                    # a = this.tuple_dict[deg]{key}, b = this.tuple_list[deg][i]
                    if a.a[1][-1] != ('k', key[1]) or b.a[1][-1] != i2 or a.a[1][1:-1] != b.a[1][1:-1]:
                        continue
                    if not covers(e, lp, key[1], e2, lp2, i2[1], r, IL):
                        continue
                    good.append(show(fp))
            det = 'carries %s' % good if good else 'no field is written into it and restored from it unchanged (sources %s, restored %s)' % (
                [show(v) if v is not None else '?' for _, _, v, _ in src], ['%s=%s' % (show(p), show(v)) for _, p, v, _ in snk])
            c.ob(bool(good), 'vector-round-trip', w.where(), what, det, key='vector|%s|%d' % (name, k))
        else:
            c.ob(False, 'same-place', w.where(), what, 'written from %s, read into %s' % (dw, dr), key='same-place|%s|%d' % (name, k))
    # what the object needs after loading: every data member the constructor chain of the class fills when building from an equation
    return IS, IL, W, R


def names(e):
    """renaming for canon: loops by nesting, counters that go up by one counted from zero"""
    m = {L.id: 'L%d' % k for k, L in enumerate(e.loops)}
    for L in e.loops:
        for iv, d in L.ivs.items():
            if d[2] == 1 and d[0] is not None and d[0] is not vn.ZERO:
                m[iv] = vn.add(T(iv.op, m[L.id], *iv.a[1:]), canon(d[0], m))
    return m


def covers(e, lp, key, e2, lp2, idx, r, IL):
    """the writing loop visits every entry of the map, the reading loop every element of the vector"""
    if not lp or lp[-1].elem is None or canon(lp[-1].elem[1], names(e)) is not key:
        return False
    if not lp2:
        return False
    L = lp2[-1]
    for iv, d in L.ivs.items():
        if canon(iv, names(e2)) is idx and d[0] is vn.ZERO and d[2] == 1:
            hi = canon(d[1])
            base = canon(r.p)
            tl = [t for t in vn.subterms(hi)]
            if hi.op == 'len':
                return True
            return any(t.op == 'len' for t in tl) and hi.op in ('len',)
    return False


def conds(e, I):
    """conditions under which an item is transferred, apart from stream states and assertions and loop conditions"""
    out = set()
    for g in e.g:
        if any(t.op == 'call' and t.a[0] in STATE for t in vn.subterms(g)):
            continue
        if any(x.kind == 'assert' and (x.v is g or x.v is not None and x.v.op == 'and' and g in x.v.a) for x in I.events):
            continue
        if any(L.cond is not None and (L.cond is g or L.cond.op == 'and' and g in L.cond.a) for L in e.loops):
            continue
        no = vn.lnot(g)
        if any(x.kind == 'abort' and x.n < e.n and no in x.g for x in I.events):
            continue            # otherwise the program stops
        out.add(canon(g, names(e)))
    return out


STATE = {'is_open', 'good', 'fail', 'bad', 'eof', 'operator!', 'operator bool', 'rdstate', 'exceptions'}


def c06(c):
    P = facts.load()
    sav, lod = saver_loader(P)
    c.need(len(sav), 2, 'functions writing an object to a file')
    used = 0
    for S in sav:
        L = [f for f in lod if f['cls'] == S['cls']]
        if not L:
            c.ob(False, 'has-reader', ck.where(S, S['line']), S['qn'], 'no loading constructor reads what it writes')
            continue
        for l in L:
            used += 1
            compare(c, P, S, l)
            derived(c, P, S, l)
    for f in delegate_pairs(P):
        delegate(c, P, f)
    c.need(used, 2, 'writer/reader pairs')


def fields_read(P, fn):
    return None


def derived(c, P, S, L):
    """tables that are not stored are rebuilt by the loader: every data member the other constructors fill is filled by the loader"""
    cls = L['cls']
    IL = vn.Interp(P).run(L)
    have = filled(IL)
    others = [f for f in P.funcs.values() if f.get('cls') == cls and f['n'] == cls.split('::')[-1] and f['usr'] != L['usr'] and f['params'] and not f.get('dependent') and 'char' not in str(f['params'][0].get('t'))]
    need = None
    for f in others:
        w = filled(vn.Interp(P).run(f))
        need = w if need is None else need & w
    need = need or set()
    c.need(len(need), 8, 'members every constructor of %s fills' % cls)
    for m in sorted(need):
        c.ob(m in have, 'member-restored', ck.where(L, L['line']), '%s.%s' % (cls, m), 'filled by the loader' if m in have else 'filled by every other constructor but not by the loader', key='member|%s|%s' % (cls, m))


def filled(I):
    out = set()
    for e in I.events:
        if e.kind in ('write', 'mapindex') and e.p is not None and e.p.a[0].a[0] == 'this' and e.p.a[1] and e.p.a[1][0][0] == 'f' and e.x not in ('clear', 'kill'):
            out.add(e.p.a[1][0][1])
    return out


def delegate(c, P, f):
    """X::save forwards the file name to the member's save; the loading constructor builds the member from the same file name"""
    cls = f['cls']
    I = vn.Interp(P, inline=lambda g, s: False).run(f)
    calls = [e for e in I.events if e.kind == 'call' and vn.short(e.q or '') == 'save']
    ok = len(calls) >= 1
    mem = None
    for e in calls:
        a = (e.argv or [None])[0]
        ok = ok and a is not None and a.op == 'addr' and a.a[0].a[0].a[0] == 'par'
        mem = e.objp
    rets = [e for e in I.events if e.kind == 'ret']
    ok2 = ok and all(e.v is not None and any(t.op == 'call' and t.a[0] == 'save' for t in vn.subterms(e.v)) for e in rets)
    c.ob(ok, 'save-forwards', ck.where(f, f['line']), f['qn'], 'passes the file name on to %s' % (show(mem) if mem is not None else '?'), key='save-forwards|' + f['qn'])
    c.ob(ok2, 'save-result', ck.where(f, f['line']), f['qn'], 'returns the result of the save it forwards to', key='save-result|' + f['qn'])
    ctors = [g for g in P.funcs.values() if g.get('cls') == cls and g['n'] == cls and len(g['params']) == 1 and 'char' in str(g['params'][0].get('t'))]
    c.ob(bool(ctors), 'has-reader', ck.where(f, f['line']), f['qn'], 'a loading constructor exists')
    for g in ctors:
        I = vn.Interp(P, inline=lambda h, s: False).run(g)
        got = [e for e in I.events if e.kind == 'call' and 'make_shared' in (e.q or '') and e.argv and e.argv[0] is not None and e.argv[0].op == 'addr' and e.argv[0].a[0].a[0].a[0] == 'par']
        got += [e for e in I.events if e.kind in ('construct',) and e.argv and e.argv[0] is not None and e.argv[0].op == 'addr' and e.argv[0].a[0].a[0].a[0] == 'par']
        c.ob(bool(got), 'load-forwards', ck.where(g, g['line']), g['qn'], 'builds the stored part from the file name it is given', key='load-forwards|' + g['qn'])


# ---------------------------------------------------------------- C07
def conj(v):
    if v is None:
        return set()
    if v.op == 'and':
        r = set()
        for x in v.a:
            r |= conj(x)
        return r
    if v.op == 'bool' and isinstance(v.a[0], T):
        return conj(v.a[0])
    if v.op == 'ite':
        if vn.const(v.a[2]) == 0:
            return conj(v.a[0]) | conj(v.a[1])
        if vn.const(v.a[1]) == 0:
            return conj(vn.lnot(v.a[0])) | conj(v.a[2])
    return {v}


def state_facts(gs):
    """{(op, stream, truth)} known from guard terms"""
    out = set()
    for g in gs:
        pos = True
        t = g
        while True:
            if t.op == 'not':
                pos = not pos
                t = t.a[0]
            elif t.op == 'bool' and isinstance(t.a[0], T):
                t = t.a[0]
            elif t.op == 'eq0':
                pos = not pos
                t = t.a[0]
            else:
                break
        if t.op == 'call' and t.a[0] in STATE:
            for x in t.a[1:]:
                if isinstance(x, T) and x.op == 'rd':
                    op = t.a[0]
                    if op == 'operator!':
                        op, p2 = 'fail', pos
                    elif op == 'operator bool':
                        op, p2 = 'fail', not pos
                    elif op == 'good':
                        op, p2 = 'fail', not pos
                        if pos is False:
                            continue
                    else:
                        p2 = pos
                    out.add((op, x.a[0], p2, x.a[1]))
    return out


def derives(v, par):
    return v is not None and any(t.op in ('addr',) and t.a[0].a[0] is par or t.op == 'path' and t.a[0] is par for t in vn.subterms(v))


def file_name(I, e):
    """how the name given to open/remove/rename is made: ('param',) the file name itself; ('made', key) built from it; ('const',)"""
    a = (e.argv or [None])[0]
    p = (e.args or [None])[0]
    if a is None:
        return ('?',)
    if a.op == 'addr' and a.a[0].a[0].a[0] == 'par':
        return ('param',)
    return ('made', show(canon(a)))


def c07(c):
    P = facts.load()
    sav, _ = saver_loader(P)
    c.need(len(sav), 2, 'functions writing an object to a file')
    for S in sav:
        I = vn.Interp(P).run(S)
        protocol(c, P, S, I)
    for f in delegate_pairs(P):
        delegate(c, P, f)


UNBOUNDED = {'strcpy', 'strcat', 'sprintf', 'vsprintf', 'gets', 'stpcpy', 'wcscpy', 'wcscat'}
BOUNDED = {'strncpy', 'strncat', 'memcpy', 'memmove', 'snprintf'}


def protocol(c, P, S, I):
    name = S['qn']
    w0 = ck.where(S, S['line'])
    for e in I.events:
        if e.kind == 'call' and vn.short(e.q or '') in UNBOUNDED:
            d = (e.args or [None])[0]
            if d is not None and d.a[0].a[0] in ('var', 'static', 'global'):
                c.ob(False, 'name-fits', e.where, name, 'a text whose length depends on the file name is copied into a fixed-size array', key='name-fits|' + name)
    streams = stream_vars(I, 'ofstream')
    data = sorted(set(s for s, _ in items(I, ('operator<<', 'put', 'write'), streams)), key=show)
    if len(data) != 1:
        c.ob(False, 'one-data-file', w0, name, '%d streams receive the object' % len(data))
        return
    D = data[0]
    opens = {}
    for e in I.events:
        if e.kind == 'call' and vn.short(e.q) == 'open' and e.objp in streams:
            opens.setdefault(e.objp, []).append(e)
        if e.kind == 'construct' and e.p in streams and e.argv:
            opens.setdefault(e.p, []).append(e)
    dopen = opens.get(D, [])
    marks = [s for s in streams if s is not D and opens.get(s) and all(file_name(I, e)[0] == 'made' for e in opens[s])]
    c.ob(len(dopen) == 1 and file_name(I, dopen[0])[0] == 'param', 'data-file-name', dopen[0].where if dopen else w0, name,
         'the data file is opened once, under the requested name', key='data-name|' + name)
    c.ob(len(marks) == 1, 'marker-exists', w0, name, '%d marker files are opened under a name made from the requested one' % len(marks), key='marker|' + name)
    if len(dopen) != 1 or len(marks) != 1:
        return
    M = marks[0]
    do, mo = dopen[0], opens[M][0]
    mname = file_name(I, mo)
    c.ob(mo.n < do.n, 'marker-first', do.where, name, 'the marker is opened %s the data file is touched' % ('before' if mo.n < do.n else 'only after'), key='marker-first|' + name)
    f = state_facts(do.g)
    c.ob(any(op == 'is_open' and s is M and t or op == 'fail' and s is M and not t for op, s, t, _ in f), 'data-needs-marker', do.where, name,
         'the data file is opened (and emptied) only once the marker is known to be open', key='data-needs-marker|' + name)
    # every write under both open
    for s, it in items(I, ('operator<<', 'put', 'write'), {D: None}):
        f = state_facts(it.e.g)
        ok = all(any(op == 'is_open' and s2 is X and t or op == 'fail' and s2 is X and not t for op, s2, t, _ in f) for X in (D, M))
        c.ob(ok, 'write-when-open', it.where(), name, 'written only when both files are open', key='write-open|' + name)
    last = max(it.e.n for s, it in items(I, ('operator<<', 'put', 'write'), {D: None}))
    flush = [e for e in I.events if e.kind == 'call' and e.objp is D and vn.short(e.q) == 'close']
    rem = [e for e in I.events if e.kind == 'call' and vn.short(e.q) in ('remove', 'unlink') and file_name(I, e) == mname]
    other = [e for e in I.events if e.kind == 'call' and vn.short(e.q) in ('remove', 'unlink', 'rename') and e not in rem]
    for e in other:
        c.ob(False, 'removes-marker-only', e.where, name, 'removes or renames a file other than the marker', key='removes-other|' + name)
    c.ob(len(flush) >= 1 and min(e.n for e in flush) > last, 'closed-after-writing', flush[0].where if flush else w0, name,
         'the data file is closed after the last item' if flush else 'the data file is never closed before the marker goes', key='closed|' + name)
    c.ob(bool(rem), 'marker-removed', w0, name, 'the marker is removed at the end' if rem else 'the marker is never removed', key='marker-removed|' + name)
    for e in rem:
        ok = bool(flush) and any(x.n < e.n and dominated(x, e) for x in flush)
        c.ob(ok and e.n > last, 'marker-last', e.where, name, 'the marker is removed only after the data file is written and closed', key='marker-last|' + name)
        f = state_facts(e.g)
        cl = [x.n for x in flush if x.n < e.n]
        good = any(op in ('fail', 'bad') and s is D and not t for op, s, t, _ in f)
        c.ob(good, 'marker-kept-on-failure', e.where, name, 'the marker is removed only when no write failed', key='marker-kept|' + name)
        ml = [x for x in I.events if x.kind == 'call' and x.objp is M and vn.short(x.q) == 'close']
        c.ob(not e.loops, 'marker-once', e.where, name, 'removed once')
    # result
    for e in I.events:
        if e.kind != 'ret':
            continue
        k = vn.const(e.v) if e.v is not None else None
        if k == 0:
            continue
        cs = set(e.g) | (conj(e.v) if k is None else set())
        f = state_facts(cs)
        both = all(any(op == 'is_open' and s is X and t or op == 'fail' and s is X and not t for op, s, t, _ in f) for X in (D, M))
        c.ob(both, 'success-means-opened', e.where, name, 'reports success only when both files could be opened', key='success-open|' + name)
        chk = any(op in ('fail', 'bad') and s is D and not t for op, s, t, _ in f)
        c.ob(chk, 'success-means-written', e.where, name, 'reports success only when no write failed', key='success-written|' + name)
        done = any(x.n < e.n for x in rem) and any(x.n < e.n for x in flush)
        c.ob(done, 'success-means-finished', e.where, name, 'reports success only after closing the data file and removing the marker', key='success-finished|' + name)
    # the state that is looked at is the one after closing
    sel = [e for e in I.events if e.kind == 'ret' and vn.const(e.v) != 0]
    for e in sel:
        f = state_facts(set(e.g) | conj(e.v))
        vers = [v for op, s, t, v in f if op in ('fail', 'bad') and s is D and not t]
        if vers and flush:
            after = max(x.n for x in flush)
            # the version the check reads was produced by the closing call or later
            prod = state_version_event(I, D, flush)
            c.ob(any(v is None or v >= prod for v in vers), 'state-after-close', e.where, name, 'the outcome is judged after the data file is closed', key='state-after-close|' + name)


def state_version_event(I, D, flush):
    """smallest version of the stream after the last item written to it"""
    vs = []
    for e in I.events:
        if e.kind == 'call' and vn.short(e.q or '') == 'operator<<' and stream_of(e, {D: None}) is D:
            for a in (e.argv or [])[:1]:
                for t in (vn.subterms(a) if a is not None else ()):
                    if t.op == 'rd' and t.a[0] is D and isinstance(t.a[1], int):
                        vs.append(t.a[1])
    return max(vs) + 1 if vs else 0


def dominated(x, e):
    """x happens on every path to e (same or outer conditions, earlier)"""
    return set(x.g) <= set(e.g)


# ---------------------------------------------------------------- C08
def c08(c):
    P = facts.load()
    _, lod = saver_loader(P)
    c.need(len(lod), 2, 'functions loading an object from a file')
    for L in lod:
        I = vn.Interp(P).run(L)
        loader(c, P, L, I)
    for f in delegate_pairs(P):
        delegate(c, P, f)


def loader(c, P, L, I):
    name = L['qn']
    streams = stream_vars(I, 'ifstream')
    its = items(I, ('operator>>', 'get', 'getline', 'read'), streams)
    c.need(len(its), 10, 'items read by ' + name)
    ss = set(s for s, _ in its)
    if len(ss) != 1:
        c.ob(False, 'one-stream', ck.where(L, L['line']), name, 'reads from %d files' % len(ss))
        return
    F = its[0][0]
    opens = [e for e in I.events if e.kind == 'call' and vn.short(e.q) == 'open' and e.objp is F or e.kind == 'construct' and e.p is F and e.argv]
    c.ob(len(opens) == 1 and file_name(I, opens[0])[0] == 'param', 'opens-requested-file', ck.where(L, L['line']), name, 'opens the requested file once', key='opens|' + name)
    for s, it in its:
        f = state_facts(it.e.g)
        c.ob(any(op == 'is_open' and t or op == 'fail' and not t for op, x, t, _ in f if x is F), 'read-when-open', it.where(), name, 'read only when the file is open', key='read-open|' + name)
    first, last = its[0][1].e.n, its[-1][1].e.n
    rets = [e for e in I.events if e.kind == 'ret']
    exc = [e for e in I.events if e.kind == 'call' and vn.short(e.q or '') == 'exceptions' and e.objp is F and e.argv]
    for e in rets:
        f = state_facts(e.g)
        c.ob(any(op == 'is_open' and t or op == 'fail' and not t for op, x, t, _ in f if x is F), 'unopened-fails', e.where, name,
             'returns only when the file could be opened', key='unopened|' + name)
        cs = set()
        for g in e.g:
            cs |= conj(g)
        for what, ok in (('prime', any(is_mod(g, I, 'zz_p::modulus', 'p', its) for g in cs)), ('precision', any(is_mod(g, I, 'ZZ_p::modulus', 'power', its) for g in cs))):
            c.ob(ok, what + '-checked', e.where, name, 'returns only when the stored %s agrees with the modulus in force' % what if ok else 'returns although the stored %s was not compared with the modulus in force' % what, key=what + '|' + name)
        # truncated files
        by_exc = False
        for x in exc:
            m = mask(x.argv[0])
            by_exc = by_exc or (x.n < first and set(x.g) <= set(its[0][1].e.g) and 'failbit' in m)
        drop = [x for x in exc if not ('failbit' in mask(x.argv[0]))]
        if drop:
            by_exc = False
        vs = [v for op, x, t, v in f if x is F and op == 'fail' and not t]
        by_state = any(v > state_reads(I, F) for v in vs)
        c.ob(by_exc or by_state, 'truncation-fails', e.where, name,
             'a failed read raises an error' if by_exc else 'the stream is checked after the last read' if by_state else 'a file that ends early is not noticed', key='truncated|' + name)
    c.ob(bool(rets), 'loader-returns', ck.where(L, L['line']), name, 'the loader has a normal exit')
    for e in I.events:
        if e.kind == 'call' and vn.short(e.q or '') in ('clear',) and e.objp is F:
            c.ob(False, 'error-state-kept', e.where, name, 'resets the error state of the stream', key='clear|' + name)


def state_reads(I, F):
    vs = [0]
    for e in I.events:
        if e.kind == 'call' and vn.short(e.q or '') == 'operator>>' and stream_of(e, {F: None}) is F:
            for a in (e.argv or [])[:1]:
                for t in (vn.subterms(a) if a is not None else ()):
                    if t.op == 'rd' and t.a[0] is F and isinstance(t.a[1], int):
                        vs.append(t.a[1])
    return max(vs)


def mask(v):
    s = set()
    for t in vn.subterms(v):
        if t.op == 'path' and t.a[0].a[0] == 'global':
            s.add(str(t.a[0].a[-1]).split('::')[-1])
        if t.op in ('gl', 'enum', 'global'):
            s.add(str(t.a[-1]).split('::')[-1])
    sh = show(v)
    for b in ('failbit', 'badbit', 'eofbit', 'goodbit'):
        if b in sh:
            s.add(b)
    return s


def is_mod(g, I, which, left, its):
    """g says that the stored prime (its power) equals the modulus in force"""
    ts = list(vn.subterms(g))
    if g.op == 'not' or (g.op == 'lt0'):
        return False
    mods = [t for t in ts if t.op == 'call' and str(t.a[0]) == which]
    if not mods:
        return False
    if left == 'p':
        # (p - modulus) == 0
        if g.op != 'eq0' and not (g.op in ('call', 'bool')):
            return False
        body = canon(g.a[0] if g.op == 'eq0' else g)
        want = vn.sub(T('rd', vn.P(vn.root('this'), ('f', 'p')), 0), canon(mods[0]))
        if g.op == 'eq0':
            return body is want or body is vn.neg(want)
        return any(t.op == 'rd' and t.a[0].a[1] == (('f', 'p'),) for t in vn.subterms(body))
    pw = [t for t in ts if t.op == 'call' and 'power' in str(t.a[0])]
    if not pw:
        return False
    fs = [t.a[0].a[1] for t in vn.subterms(canon(pw[0])) if t.op == 'rd']
    args = [canon(x) for x in pw[0].a[1:]]
    okargs = len(args) >= 2 and args[0].op == 'rd' and args[0].a[0].a[1] == (('f', 'p'),) and args[1].op == 'rd' and args[1].a[0].a[1] == (('f', 'precision'),)
    h = g
    while h.op == 'bool' and isinstance(h.a[0], T):
        h = h.a[0]
    eqv = h.op in ('eq0', 'eq') or h.op == 'call' and vn.short(str(h.a[0])) == 'operator=='
    return okargs and eqv
