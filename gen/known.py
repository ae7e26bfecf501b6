"""writes lib/known.txt: the qualified names of the functions of the repository the checks were written for"""
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, '..', 'lib'))
import facts
P = facts.load()
with open(os.path.join(here, '..', 'lib', 'known.txt'), 'w') as fh:
    fh.write('\n'.join(sorted({f['qn'] for f in P.funcs.values()})))
