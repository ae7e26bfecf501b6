"""mk(id, prop, needs, breaks, edits, demo_cc): creates /verif/seeded/id from exact text edits of /repo"""
import os, subprocess, shutil, json, tempfile
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
objs=$(find build/conv build/dr build/dr_nd build/hypersurface build/hypersurface_nd build/matrix build/solve_system build/tools build/vec_int64 build/wrapper -name '*.o' -not -path '*/test/*')
g++ -O2 -fopenmp -std=c++11 -w -I. "$here/demo.cc" $objs -o "$T/demo" -lntl -lgmp -lflint -lm -lpthread || exit 98
cd "$T" && timeout 250 ./demo
'''
def mk(id, prop, needs, breaks, edits, demo, sh=None):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
    try:
        for f, a, b in edits:
            p = os.path.join(w, 'r', f)
            s = open(p).read()
            assert s.count(a) >= 1, (f, a)
            open(p, 'w').write(s.replace(a, b, 1))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
        open(d + '/patch.diff', 'wb').write(diff)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        os.rmdir(w)
    open(d + '/demo.sh', 'w').write(sh or DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    if demo:
        open(d + '/demo.cc', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
