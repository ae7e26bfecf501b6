#!/usr/bin/env python3
"""Developer's tool: runs checks against one-edit variants of /repo in scratch copies.
   mut.py [-k substring] [-p PROPERTY] [-x]   -- variants listed in mutants.py
Breaking variants (expect = property ids) must be reported; refactorings (expect = []) must be silent."""
import os, subprocess, sys, tempfile, shutil, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import mutants


def one(m, props):
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', 'build', '*.o', '*.a', '*.so*'))
        for f, old, new in m['edits']:
            p = os.path.join(r, f)
            s = open(p).read()
            if old not in s:
                return [(m['name'], '-', 'EDIT DOES NOT APPLY in %s: %r' % (f, old[:50]))]
            s = s.replace(old, new) if m.get('all') else s.replace(old, new, 1)
            open(p, 'w').write(s)
        v = os.path.join(d, 'verif')
        os.makedirs(v)
        for x in ('lib', 'checks', 'extractor', 'run.py', '.build', 'known_findings.jsonl'):
            if os.path.exists(os.path.join(VERIF, x)):
                os.symlink(os.path.join(VERIF, x), os.path.join(v, x))
        out = []
        ps = [p for p in (m['expect'] or m.get('only') or props) if not props or p in props]
        if not ps:
            return []
        e = dict(os.environ, VP_REPO=r, VP_OUT=v)
        q = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), 'multi', ','.join(ps)], capture_output=True, text=True, env=e)
        if 'RC ' not in q.stdout:
            return [(m['name'], '-', 'BAD ' + (q.stdout + q.stderr).strip()[-300:])]
        buf = []
        for l in q.stdout.splitlines():
            if not l.startswith('RC '):
                buf.append(l)
                continue
            _, p, rc = l.split()
            rc = int(rc)
            last = [x for x in buf if x.startswith('  ')][:2] + ([] if rc in (0, 1) else buf[-1:] + q.stderr.splitlines()[-3:])
            good = (rc == 1) if m['expect'] else (rc == 0)
            if good:
                last = [x[:110] for x in last[:1]]
            out.append((m['name'], p, ('ok ' if good else 'BAD ') + 'rc=%d ' % rc + ' / '.join(x.strip()[:260] for x in last)))
            buf = []
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    k = a[a.index('-k') + 1] if '-k' in a else ''
    props = a[a.index('-p') + 1].split(',') if '-p' in a else []
    bad = n = 0
    sel = [m for m in mutants.M if k in m['name'] and (not props or not m['expect'] or set(m['expect']) & set(props))]
    if '-x' in a:      # helpers of the refactorings as functions with external linkage
        sel = [dict(m, name=m['name'] + '/ext', edits=[(f, o, n.replace('static ', '') if 'static ' in n and 'static ' not in o else n) for f, o, n in m['edits']])
               for m in sel if not m['expect'] and any('static ' in n and 'static ' not in o for f, o, n in m['edits'])]
    with ThreadPoolExecutor(max_workers=3) as ex:
        for res in ex.map(lambda m: one(m, props or mutants.ALL), sel):
            for r in res:
                if 'ok ' not in r[2] or '-v' in a:
                    print('%-30s %-4s %s' % r, flush=True)
                bad += 'ok ' not in r[2]
                n += 1
    print(n, 'runs', bad, 'bad')


main()
