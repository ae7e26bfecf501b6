"""Runs the fact extractor over every library translation unit of /repo's
current tree and gives the analyses a merged, resolved program."""
import json, os, subprocess, sys, glob, hashlib, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
CRX = os.path.join(BUILD, 'crx')
SRC_DIRS = ['conv', 'dr', 'dr_nd', 'hypersurface', 'hypersurface_nd', 'matrix',
            'solve_system', 'tools', 'vec_int64', 'wrapper']
HEADERS = ['conv.h', 'dr.h', 'dr_nd.h', 'hypersurface.h', 'hypersurface_nd.h', 'matrix.h',
           'solve_system.h', 'tools.h', 'vec_int64.h', 'wrapper.h', 'timing.h']


class AnalysisError(Exception):
    """The analysis cannot answer (vanished anchor, unparsable unit, ...)."""


def ensure_extractor():
    src = os.path.join(VERIF, 'extractor', 'extract.cpp')
    stamp = CRX + '.sha'
    want = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(CRX) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = CRX + '.%d' % os.getpid()
    r = subprocess.run(['g++', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include',
                        '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS',
                        '-D__STDC_LIMIT_MACROS', src, '-o', tmp, '-L/usr/lib/llvm-18/lib',
                        '-l:libclang-cpp.so.18.1', '-lLLVM-18'], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('extractor does not build: ' + r.stderr[-2000:])
    os.rename(tmp, CRX)
    with open(stamp, 'w') as f:
        f.write(want)


def lib_units(repo):
    out = []
    for d in SRC_DIRS:
        out += sorted(glob.glob(os.path.join(repo, d, '*.cc')))
    return out


def clang_args(repo, openmp=True, extra=()):
    a = ['-std=c++11', '-I' + repo, '-w', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18',
         '-I' + os.path.join(VERIF, 'extractor', 'include')]
    if openmp:
        a.append('-fopenmp')
    return a + list(extra)


def _extract(repo, files, openmp=True, extra=()):
    ensure_extractor()
    tmp = tempfile.mkdtemp(prefix='crx')
    try:
        def one(i_f):
            i, f = i_f
            o = os.path.join(tmp, '%d.json' % i)
            r = subprocess.run([CRX, repo, o, f, '--'] + clang_args(repo, openmp, extra),
                               capture_output=True, text=True)
            if r.returncode or not os.path.exists(o):
                raise AnalysisError('cannot parse %s:\n%s' % (f, r.stderr[-3000:]))
            with open(o) as fh:
                return json.load(fh)
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            return list(ex.map(one, enumerate(files)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


KNOWN = set()
try:
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known.txt')) as fh:
        KNOWN = set(fh.read().split('\n'))
except OSError:
    pass


class Program:
    """All functions of the repository (template instantiations included), with
    declaration ids made unique over units.

    funcs   : usr -> function dict
    decls   : usr -> declaration dict (repository and external callees)
    records : qualified name -> record
    globals : list
    """

    def __init__(self, units):
        self.units = [u['main'] for u in units]
        self.funcs, self.decls, self.records, self.includes = {}, {}, {}, set()
        self.globals = {}
        self.multi = {}
        for ui, u in enumerate(units):
            types = u['types']
            idmap = {}
            for d in u['decls']:
                idmap[d['id']] = d['usr'] or ('?%d.%d' % (ui, d['id']))
            for d in u['decls']:
                usr = idmap[d['id']]
                d = dict(d)
                d['usr'] = usr
                d['ret'] = types[d['ret']]
                d['params'] = [types[t] for t in d['params']]
                old = self.decls.get(usr)
                if old is None or (d.get('hasdef') and not old.get('hasdef')):
                    self.decls[usr] = d
            for f in u['functions']:
                usr = f['usr'] or '?%s:%d' % (f['file'], f['line'])
                if f.get('isstatic'):
                    usr = f['file'] + '#' + usr
                if usr in self.funcs:
                    self.multi.setdefault(usr, set()).add((f['file'], f['line']))
                    continue
                self.multi.setdefault(usr, set()).add((f['file'], f['line']))
                self._resolve(f, types, idmap, ui)
                f['usr'] = usr
                for i in f.get('inits', []):
                    pass
                self.funcs[usr] = f
            for r in u['records']:
                if r['qn'] not in self.records:
                    for fl in r['fields']:
                        fl['t'] = types[fl['t']]
                    self.records[r['qn']] = r
            for g in u['globals']:
                g = dict(g)
                g['t'] = types[g['t']]
                self.globals[(g['qn'], g['file'], g['line'])] = g
            for a, b in u['includes']:
                self.includes.add((a, b))
        # a function that was not there when the checks were written is a helper of its callers
        for f in self.funcs.values():
            if f['qn'] not in KNOWN and not f.get('dependent') and f.get('body') is not None:
                f['isstatic'] = f['new'] = True
        self.by_qn = {}
        for f in self.funcs.values():
            self.by_qn.setdefault(f['qn'], []).append(f)
        # overriding: base method usr -> [overriding usr]
        self.overriders = {}
        for f in self.funcs.values():
            for b in f.get('overrides', []):
                self.overriders.setdefault(b, []).append(f['usr'])

    def _resolve(self, f, types, idmap, ui):
        pre = '%d:' % ui

        def res(n):
            if isinstance(n, list):
                for x in n:
                    res(x)
                return
            if not isinstance(n, dict):
                return
            if n.get('k') == 'If':
                n['th'] = n.pop('t', None)
                n['el'] = n.pop('e', None)
            for k in ('t', 'from', 'at', 'ret', 'ot'):
                if k in n and isinstance(n[k], int):
                    n[k] = types[n[k]] if n[k] >= 0 else None
            if 'd' in n and isinstance(n['d'], int):
                if n.get('k') == 'Ref' and n.get('dk') == 'func':
                    n['d'] = idmap.get(n['d'])
                elif n.get('k') == 'Ref' and n.get('dk') == 'global':
                    n['d'] = 'g:' + n.get('q', '?')
                else:
                    n['d'] = pre + str(n['d'])
            if 'f' in n and isinstance(n['f'], int):
                n['f'] = idmap.get(n['f'])
            for k, v in n.items():
                if isinstance(v, (dict, list)) and k not in ('t', 'from', 'at', 'ret', 'ot'):
                    res(v)
        f['unit'] = ui
        res(f)

    def fn(self, qn):
        return self.by_qn.get(qn, [])

    def callee(self, call):
        """the repository function a Call/Ctor node resolves to, or None"""
        u = call.get('f')
        if u is None:
            return None
        f = self.funcs.get(u)
        if f is None:
            for key in ('%s#%s' % (self._unit_file(call), u),):
                f = self.funcs.get(key)
        if f is None:
            d = self.decls.get(u)
            if d is not None:
                f = self.funcs.get('%s#%s' % (d.get('file'), u))
        return f

    def _unit_file(self, call):
        return ''

    def decl(self, call):
        return self.decls.get(call.get('f'))


_cache = {}


def load(repo=None, openmp=True, files=None, extra=()):
    repo = repo or REPO
    key = (repo, openmp, tuple(files or ()), tuple(extra))
    if key not in _cache:
        fl = files if files is not None else lib_units(repo) + [os.path.join(VERIF, 'extractor', 'instantiate.cc')]
        if files is None and len(fl) < 20:
            raise AnalysisError('only %d library units found under %s' % (len(fl), repo))
        _cache[key] = Program(_extract(repo, fl, openmp, extra))
    return _cache[key]


def walk(n):
    """every node below n, in source order"""
    if isinstance(n, list):
        for x in n:
            yield from walk(x)
    elif isinstance(n, dict):
        if 'k' in n:
            yield n
        for k, v in n.items():
            if isinstance(v, (dict, list)) and k not in ('t', 'from', 'at', 'ret', 'ot'):
                yield from walk(v)


if __name__ == '__main__':
    t = time.time()
    P = load()
    print(len(P.units), 'units', len(P.funcs), 'functions', len(P.decls), 'decls', len(P.records), 'records', len(P.globals), 'globals', '%.1fs' % (time.time() - t))
    for f in sorted(P.funcs.values(), key=lambda f: (f['file'], f['line'])):
        print(f['file'], f['line'], f['qn'], [p['t']['s'] for p in f['params']], 'DEP' if f.get('dependent') else '')
    for g in P.globals.values():
        print('GLOBAL', g)
    unk = set()
    for f in P.funcs.values():
        for n in walk(f['body']):
            if n['k'] in ('Unknown', 'UnknownE'):
                unk.add((n['cls'], f['dependent'] if 'dependent' in f else False))
    print(unk)
