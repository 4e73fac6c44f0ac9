"""Rewrites the "fixed" list of known_findings.json from FIXED (property, subject of the fix commit, what failed)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [tuple(l.rstrip('\n').split(' | ')) for l in open(os.path.join(HERE, 'tools', 'fixed.txt'), encoding='utf-8') if l.strip()]
log = dict(reversed(l.split(' ', 1)) for l in subprocess.check_output(
    ['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines())
path = os.path.join(HERE, 'known_findings.json')
data = json.load(open(path, encoding='utf-8')) if os.path.exists(path) else {'findings': []}
used = set()
data['fixed'] = []
for pid, subj, what in FIXED:
    subj = 'fix: ' + subj
    used.add(subj)
    data['fixed'].append('fixed: property=%s %s %s' % (pid, log[subj], what))
missing = [s for s in log if s.startswith('fix:') and s not in used]
assert not missing, missing
with open(path, 'w', encoding='utf-8') as f:
    json.dump(data, f, ensure_ascii=False, indent=1)
    f.write('\n')
