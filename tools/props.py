"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), technique='',
         level='model_checking', note=''):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={'over': over, 'text': quant}, why_tests_cant=why,
                  anchors={'files': files,
                           'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
                           'mechanism': [dict(name=n, where=w) for n, w in mech],
                           'observe_at': list(observe), 'hook_needed': None},
                  _technique=technique, _level=level, _note=note))


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
    na = {n['property'] for n in NA}
    checks = []
    for p in P:
        if p['id'] in na:
            continue
        assert os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py')), p['id']
        checks.append({'property': p['id'],
                       'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': p['_technique'], 'level': p['_level'], 'level_note': p['_note']})
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup_check.py',
         'checks': checks, 'not_applicable': NA,
         'notes': 'No hooks in /repo: faults, crash points and observations are taken at Python audit events '
                  'and at the public API.  known_findings.txt lists repaired and recorded defects.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
