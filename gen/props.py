"""Single source of properties.jsonl and MANIFEST.json: python3 gen/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    assert not (id in [x['id'] for x in P]), id
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state, observe=observe))


VN = 'value-numbering abstract interpretation of the type-checked AST (clang libTooling facts)'
TRUST = ('Static: decides from the source of the current tree, no execution. Trusts clang\'s front end, the documented behaviour of NTL/FLINT/GMP/libstdc++ calls '
         'and the stated modelling of them in lib/vn.py and lib/par.py; ')

exec(open(os.path.join(HERE, 'gen', 'list.py')).read())


def main():
    from run import TABLE
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            a = {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']]}
            if x['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in x['state']]
            if x['observe']:
                a['observe_at'] = x['observe']
            f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'],
                                'quantifier': {'over': x['over'], 'text': x['text']},
                                'why_tests_cant': x['why'], 'anchors': a}) + '\n')
    checks, na = [], []
    for x in P:
        if x['id'] in TABLE and x['technique']:
            checks.append({'property': x['id'], 'quick_cmd': 'python3 run.py %s quick' % x['id'],
                           'thorough_cmd': 'python3 run.py %s thorough' % x['id'],
                           'evidence_file': 'evidence/%s.json' % x['id'],
                           'technique': x['technique'], 'level': 'other', 'level_note': x['note']})
        else:
            na.append({'property': x['id'], 'reason': x['na'] or 'Static check planned, not built yet.'})
    m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks, 'not_applicable': na,
         'notes': 'All checks are static: they parse /repo\'s current sources with clang on every run and never build or execute them. '
                  'VP_REPO overrides the analysed tree, VP_OUT the evidence directory (both used by selftest/mut.py only).'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(checks), 'checks', len(na), 'not applicable')


main()
