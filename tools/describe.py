#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json, which share what they say about each property."""
import json, os, re, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PROPS, CHECKS = [], []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, level='model_checking'):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        anchors['observe_at'] = observe
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                      why_tests_cant=why, anchors=anchors))
    CHECKS.append(dict(property=id, quick_cmd='./check %s quick' % id, thorough_cmd='./check %s thorough' % id,
                       evidence_file='evidence/%s.json' % id, technique=technique, level=level, level_note=note))


exec(open(os.path.join(HERE, 'properties.py')).read())
PROPS.sort(key=lambda p: p['id'])
CHECKS.sort(key=lambda c: c['property'])
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        assert len(re.findall(r'[.:?!](?= [A-Z])|[.]$', p['statement'])) <= 3, p['id']
        assert set(p['quantifier']['over']) <= {'schedules', 'crash_points', 'inputs', 'programs', 'histories', 'configurations', 'fault_sequences'}
        for a in p['anchors']['files']:
            assert os.path.exists('/repo/' + a), a
        f.write(json.dumps(p) + '\n')
hook = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True,
        text=True).stdout.splitlines() if l.split(' ', 1)[1].startswith('verif:')]
json.dump(dict(
    version=1, setup_cmd='./check --build',
    hooks=dict(guard='--cfg csvpp_verif', enable="RUSTFLAGS='--cfg csvpp_verif' when building /verif/harness, which has a path dependency on /repo",
               source_commits=hook),
    checks=CHECKS, not_applicable=[],
    notes='TLA+ specifications in spec/, checked with TLC which also emits the cases that are replayed in the real code (harness/); see DESIGN.md'),
    open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
