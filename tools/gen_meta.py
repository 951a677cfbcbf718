"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'source/tomopy/'
LT = 'source/libtomo/'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), claim=True, reason=None):
    P.append(dict(meta=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                            anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                                         hook_needed=None)),
                  technique=technique, note=note, claim=claim, reason=reason))


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['meta']['title']) <= 80, p['meta']['title']
        f.write(json.dumps(p['meta']) + '\n')
man = dict(version=1, setup_cmd='./setup.sh',
           checks=[dict(property=p['meta']['id'], quick_cmd='./check.sh %s quick' % p['meta']['id'],
                        thorough_cmd='./check.sh %s thorough' % p['meta']['id'], evidence_file='evidence/%s.json' % p['meta']['id'],
                        technique=p['technique'], level='proof', level_note=p['note']) for p in P if p['claim']],
           not_applicable=[dict(property=p['meta']['id'], reason=p['reason']) for p in P if not p['claim']])
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
