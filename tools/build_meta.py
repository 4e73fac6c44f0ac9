"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=['soynlp/' + f for f in files],
                     mechanism=[dict(name=n, where='soynlp/' + w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))


exec(open(os.path.join(HERE, 'tools', 'properties_table.py'), encoding='utf-8').read())

LEVEL_NOTE = ('Generated-input search with shrinking: every generated case is judged against an oracle that '
              'does not share code with soynlp. It shows the presence of violations, not their absence; '
              'it trusts the reference model in the harness, numpy/scipy, and the generators\' reach.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            assert all(os.path.exists('/repo/' + x) for x in p['anchors']['files']), p['id']
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    sys.path.insert(0, os.path.join(HERE, 'harness'))
    from registry import PROPERTIES
    checks = []
    for p in P:
        if p['id'] not in PROPERTIES:
            raise SystemExit('no check for ' + p['id'])
        checks.append(dict(
            property=p['id'], quick_cmd='python3 run.py %s quick' % p['id'],
            thorough_cmd='python3 run.py %s thorough' % p['id'],
            technique='property-based testing (Hypothesis): ' + TECH[p['id']],
            level='exploration', level_note=LEVEL_NOTE))
    m = dict(version=1, setup_cmd='python3 run.py list', checks=checks, not_applicable=[],
             notes='No hooks were needed: everything is observed through the public API. '
                   'Repairs and findings: known_findings.json.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(m, f, ensure_ascii=False, indent=1)
        f.write('\n')


main()
