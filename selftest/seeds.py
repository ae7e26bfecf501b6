#!/usr/bin/env python3
"""Developer's tool: run checks against the planted changes in scratch copies: seeds.py [-k substr] [-p IDs]"""
import os, subprocess, sys, tempfile, shutil, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def one(a):
    sid, props = a
    d = tempfile.mkdtemp(prefix='sd', dir='/tmp')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', 'build', '*.o'))
        src = os.path.join(VERIF, 'seeded', sid)
        subprocess.check_call(['patch', '-s', '-p1', '-d', r, '-i', os.path.join(src, 'patch.diff')])
        want = json.load(open(os.path.join(src, 'meta.json')))['property']
        q = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), 'multi', ','.join(props or [want])], capture_output=True, text=True,
                           env=dict(os.environ, VP_REPO=r, VP_OUT=d))
        if 'RC ' not in q.stdout:
            return '%s BROKEN %s' % (sid, (q.stdout + q.stderr)[-400:])
        res = dict(l.split()[1:] for l in q.stdout.splitlines() if l.startswith('RC '))
        hit = [p for p, rc in res.items() if rc == '1']
        odd = [p + ':' + rc for p, rc in res.items() if rc not in '01']
        first = [l.strip()[:200] for l in q.stdout.splitlines() if l.startswith('  ')][:1]
        return '%-22s want %s %s caught by %s %s %s' % (sid, want, 'OK ' if want in hit else 'MISSED', hit, odd or '', first)
    finally:
        shutil.rmtree(d, ignore_errors=True)


a = sys.argv[1:]
k = a[a.index('-k') + 1] if '-k' in a else ''
props = a[a.index('-p') + 1].split(',') if '-p' in a else []
ids = [s for s in sorted(os.listdir(os.path.join(VERIF, 'seeded'))) if k in s]
with ThreadPoolExecutor(max_workers=3) as ex:
    for l in ex.map(one, [(s, props) for s in ids]):
        print(l, flush=True)
