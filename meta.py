#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list, and checks that every claimed property has contracts."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note, level='proof', na=None, state=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, qtext=qtext, why=' '.join(why.split()),
                  files=files, mech=mech, note=' '.join(note.split()), level=level, na=na))


exec(open(os.path.join(HERE, 'meta_props.py')).read())

TECH = 'contract-based deductive verification (VCs from the LLVM IR of the real functions, z3/cvc5)'


def main():
    seen = set()
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert p['id'] not in seen and re.fullmatch(r'[A-Z][0-9]{2,3}', p['id'])
            seen.add(p['id'])
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, (p['id'], p['statement'])
            for fn in p['files']:
                assert os.path.exists('/repo/' + fn), fn
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'],
                                                 mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
    man = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
    if HOOKS:
        import subprocess
        HOOKS['source_commits'] = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h', '--grep=(VERIF_SPEC)'],
                                                 capture_output=True, text=True).stdout.split()
        man['hooks'] = HOOKS
    for p in P:
        if p['na']:
            man['not_applicable'].append(dict(property=p['id'], reason=' '.join(p['na'].split())))
        else:
            cmd = 'python3-vt engine/check.py ' + p['id']
            man['checks'].append(dict(property=p['id'], quick_cmd=cmd, thorough_cmd='VERIF_TIER=thorough ' + cmd,
                                      technique=TECH, level=p['level'], level_note=p['note']))
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(man['checks']), 'checks', len(man['not_applicable']), 'n/a')
    have = set()
    for fn in os.listdir(os.path.join(HERE, 'harness')):
        if fn.endswith('.cc'):
            for m in re.finditer(r'(?m)^//@ contract .*?prop=([\w+]+)', open(os.path.join(HERE, 'harness', fn)).read()):
                have |= set(m.group(1).split('+'))
    print('claimed without contracts:', [p['id'] for p in P if not p['na'] and p['id'] not in have])
    print('contracts without property:', sorted(have - seen))


main()
