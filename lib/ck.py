"""Common runner of all checks: obligations, known findings, evidence, exit code."""
import json, os, sys, time, traceback, multiprocessing, hashlib
import facts

VERIF = facts.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')
OUT = os.environ.get('VP_OUT', VERIF)


class Check:
    def __init__(self, pid, title=''):
        self.pid = pid
        self.t0 = time.time()
        self.obs = []            # dicts: rule, where, what, ok, detail, key
        self.analysed = {}
        self.notes = []
        self.thorough = os.environ.get('VERIF_TIER', 'quick') == 'thorough'

    # -- obligations
    def ob(self, ok, rule, where, what, detail='', key=None):
        self.obs.append({'rule': rule, 'where': where, 'what': what, 'ok': bool(ok), 'detail': detail,
                         'key': key or '%s|%s|%s' % (rule, where.split(':')[0], what)})
        return ok

    def extend(self, obs):
        self.obs += obs

    def need(self, n, least, what):
        """the analysis is broken (not the property) when fewer instances than confirmed by hand are found"""
        self.analysed[what] = n
        if n < least:
            raise facts.AnalysisError('%s: %d found, at least %d expected: anchors vanished' % (what, n, least))

    # -- ending
    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line:
                    k = json.loads(line)
                    if k.get('property') == self.pid and k.get('status') == 'open':
                        out[k['key']] = k
        return out

    def finish(self):
        known = self.known()
        bad = [o for o in self.obs if not o['ok']]
        new, seen = [], set()
        for o in bad:
            if o['key'] in known:
                if o['key'] not in seen:
                    seen.add(o['key'])
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, known[o['key']]['what']))
            else:
                new.append(o)
        rules = {}
        for o in self.obs:
            r = rules.setdefault(o['rule'], {'obligations': 0, 'discharged': 0})
            r['obligations'] += 1
            r['discharged'] += o['ok']
        distinct = len({(o['rule'], o['where'], o['what']) for o in self.obs})
        ev = {'property': self.pid, 'tier': 'thorough' if self.thorough else 'quick',
              'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
              'coverage': {
                  'explanation': 'Static analysis of /repo as it is now: every translation unit is parsed with the build\'s flags by the '
                                 'libTooling extractor and the obligations below are decided from the resolved program; nothing is executed.',
                  'obligations': len(self.obs), 'distinct_obligations': distinct,
                  'discharged': sum(o['ok'] for o in self.obs),
                  'known_findings': len(seen), 'violations': len(new),
                  'rules': rules, 'analysed': self.analysed, 'notes': self.notes[:40],
                  'samples': [{k: o[k] for k in ('rule', 'where', 'what', 'ok', 'detail')} for o in sample(self.obs)]},
              'wall_s': round(time.time() - self.t0, 2)}
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        with open(os.path.join(OUT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        rp = os.path.join(OUT, 'evidence', self.pid + '.replay.json')
        if os.path.exists(rp):
            os.unlink(rp)
        print('%s: %d obligations (%d distinct), %d discharged, %d known, %d violated; %s; %.1fs' % (
            self.pid, len(self.obs), distinct, ev['coverage']['discharged'], len(seen), len(new), self.analysed, ev['wall_s']))
        if new:
            with open(rp, 'w') as f:
                json.dump(new, f, indent=1)
            for o in new[:25]:
                print('  %s: [%s] %s -- %s' % (o['where'], o['rule'], o['what'], o['detail']))
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(rp, OUT)))
            return 1
        return 0


def sample(obs):
    seen, out = {}, []
    for o in obs:
        if seen.setdefault(o['rule'], 0) < 3 or not o['ok']:
            seen[o['rule']] += 1
            out.append(o)
    return out[:60]


def where(fn, line):
    return '%s:%s (%s)' % (fn['file'], line, fn['qn'])


def pmap(fun, items, procs=None):
    """fun over items in forked processes (facts are shared copy-on-write); results must be plain data"""
    items = list(items)
    procs = min(procs or os.cpu_count() or 4, len(items) or 1)
    if procs <= 1:
        return [fun(x) for x in items]
    ctx = multiprocessing.get_context('fork')
    global _pm_fun, _pm_items
    _pm_fun, _pm_items = fun, items
    with ctx.Pool(procs, maxtasksperchild=1) as pool:
        return pool.map(_pm_call, range(len(items)), chunksize=1)


def _pm_call(i):
    sys.setrecursionlimit(20000)
    return _pm_fun(_pm_items[i])


def main(table):
    sys.setrecursionlimit(20000)
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    try:
        c = Check(pid)
        table[pid](c)
        sys.exit(c.finish())
    except facts.AnalysisError as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        sys.exit(2)
