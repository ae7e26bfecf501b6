"""C32: what each matrix of the reductions holds in each of its cells.

For every routine below the cell-wise normal form (lib/cells.py) of everything it
stores is computed from the current source and compared with the entries of the
definition (lib/entries.json, one line per family of cells: cell, operation, value,
the indices it is repeated over, the condition). How the routine loops, what it calls
its variables, the order of independent steps and helpers it uses do not enter."""
import json
import os
import re
import sys
import facts
import vn
import ck
import cells
from gate import local

FILE = os.path.join(os.path.dirname(os.path.abspath(cells.__file__)), 'entries.json')
UNRESOLVED = re.compile(r'partial\(|\biv[0-9]|unknown|\bonce|before\(\?\)|opaque|fresh')
ROUTINES = {
    'C32': ['compute_reduction_matrix_J', 'compute_inclusion_matrix_J', 'compute_final_reduction_matrix_J', 'matrix_J',
            'compute_reduction_matrix_J_ZZ', 'compute_reduction_matrix_ND', 'compute_reduction_matrix_ND_poly',
            'compute_reduction_matrix_ND_ZZ', 'compute_reduction_matrix_ND_poly_ZZ', 'compute_inclusion_matrix_ND',
            'compute_coKernels_ND_to_basis', 'matrix_ND', 'compute_fpow'],
}


def stores(P, fn):
    I = vn.Interp(P, inline=local)
    I.run(fn)
    try:
        c = cells.Cells(I, fn)
        return cells.table(c.run(I.tree), [p.get('n') for p in fn['params']])
    except cells.Undecided as x:
        raise facts.AnalysisError('%s: %s' % (fn['qn'], x))


def routine(P, name):
    fs = [f for f in P.funcs.values() if f['n'] == name and not f.get('dependent') and f.get('body') is not None]
    return fs


def judge(c, pid):
    P = facts.load()
    want = json.load(open(FILE))
    n = 0
    jobs = []
    for name in ROUTINES[pid]:
        for f in routine(P, name):
            jobs.append((name, f))
    undecided = []
    total = 0
    for name, f in jobs:
        exp = want[name]
        try:
            have = stores(P, f)
        except (facts.AnalysisError, RecursionError) as x:
            undecided.append('%s: %s' % (f['qn'], x))
            continue
        total += len(have)
        open_ = [s for s in have if s not in exp and UNRESOLVED.search(s)]
        if open_:
            # a loop of a shape that has no cell-wise form here: nothing is claimed
            undecided.append('%s: %s' % (f['qn'], open_[0][:200]))
            continue
        n += 1
        where = '%s:%s (%s)' % (f['file'], f.get('l', 0), f['qn'])
        for s in exp:
            c.ob(s in have, 'entry of the definition is stored', where, s[:240], '' if s in have else 'not among what the routine stores: ' + near(s, have)[:600])
        for s in have:
            if s not in exp:
                c.ob(False, 'only entries of the definition are stored', where, s[:240], 'stored, but not an entry of the definition; nearest: ' + near(s, exp)[:600])
    c.need(n, len(ROUTINES[pid]) - 3, 'routines')
    c.analysed['families of cells'] = total
    c.analysed['not in a form the analysis decides'] = undecided


def near(s, among):
    import difflib
    best = max(among, key=lambda x: difflib.SequenceMatcher(None, s[:800], x[:800]).quick_ratio(), default='')
    for i, (a, b) in enumerate(zip(s, best)):
        if a != b:
            return '...%s... against ...%s...' % (s[max(0, i - 60):i + 80], best[max(0, i - 60):i + 80])
    return best[:200]


def c32(c):
    judge(c, 'C32')


if __name__ == '__main__':
    P = facts.load()
    out = {}
    for pid in ROUTINES:
        for name in ROUTINES[pid]:
            for f in routine(P, name):
                out.setdefault(name, []).extend(stores(P, f))
    json.dump(out, open(FILE, 'w'), indent=1, sort_keys=True)
