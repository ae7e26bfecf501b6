import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
import importlib
TABLE = {'C32': 'entries.c32', 'C29': 'assemble.c29', 'C28': 'evaluate.c28', 'C18': 'gather.c18', 'C17': 'memo.c17', 'C31': 'kernels.c31', 'C14': 'exact.c14', 'C10': 'gate.c10', 'C15': 'gate.c15', 'C30': 'gate.c30', 'C12': 'quiet.c12', 'C11': 'forward.c11', 'C04': 'moduli.c04', 'C25': 'moduli.c25', 'C06': 'persist.c06', 'C07': 'persist.c07', 'C08': 'persist.c08', 'C05': 'lifecycle.c05', 'C13': 'asserts.c13', 'C01': 'parallel.c01', 'C02': 'parallel.c02', 'C03': 'parallel.c03'}


class Lazy(dict):
    def __missing__(self, pid):
        m, f = TABLE[pid].split('.')
        return getattr(importlib.import_module(m), f)


if __name__ == '__main__':
    if sys.argv[1:] == ['setup']:
        import facts
        facts.ensure_extractor()
        print('ready')
        sys.exit(0)
    if sys.argv[1:2] == ['multi']:         # developer's tool: several checks, one parse
        import ck, facts
        facts.load()
        for pid in sys.argv[2].split(','):
            sys.stdout.flush()
            k = os.fork()
            if k == 0:
                sys.argv = ['run.py', pid]
                try:
                    ck.main(Lazy())
                except SystemExit as e:
                    sys.stdout.flush()
                    os._exit(e.code or 0)
            st = os.waitpid(k, 0)[1]
            print('RC %s %d' % (pid, os.waitstatus_to_exitcode(st)), flush=True)
        sys.exit(0)
    import ck
    ck.main(Lazy())
