#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.
Run it after editing; both generated files are committed."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, technique=technique, note=note, na=na))
exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())
ids = [p['id'] for p in P]
assert len(ids) == len(set(ids))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
man = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[],
    notes='Static analysis only: every check loads /repo with go/packages, builds go/ssa and decides the property from it; '
          'no code of /repo is executed. /verif/known_findings.txt lists recorded and repaired findings.')
for p in P:
    if p['na']:
        man['not_applicable'].append(dict(property=p['id'], reason=p['na']))
    elif p['technique']:
        man['checks'].append(dict(property=p['id'], quick_cmd=f"bash check.sh {p['id']}", thorough_cmd=f"bash check.sh {p['id']}",
            technique=p['technique'], level='other', level_note=p['note']))
    else:
        man['not_applicable'].append(dict(property=p['id'], reason='No check has been built for it yet.'))
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(man['checks']), 'claimed', len(man['not_applicable']), 'not claimed')
