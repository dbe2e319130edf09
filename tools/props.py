# Source of truth for properties.jsonl and MANIFEST.json (run: python3 tools/props.py).
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))

exec(open(os.path.join(ROOT, 'tools', 'props_list.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')

exec(open(os.path.join(ROOT, 'tools', 'checks_list.py')).read())
ids = [x['id'] for x in P]
man = dict(version=1, setup_cmd='bash setup.sh',
           checks=[], not_applicable=[], notes=NOTES)
for i in ids:
    if i in CHECKS:
        t, lvl, note = CHECKS[i]
        man['checks'].append(dict(property=i, quick_cmd='bash run.sh %s' % i,
            thorough_cmd='VERIF_TIER=thorough bash run.sh %s' % i,
            evidence_file='evidence/%s.json' % i, technique=t, level=lvl, level_note=note))
    else:
        man['not_applicable'].append(dict(property=i, reason=NA.get(i, 'monitor not built yet')))
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False); f.write('\n')
