"""Write and confirm planted bugs:  python3 tools/plant.py DEFS.py [ID ...]

DEFS.py holds BUGS, a list of dicts: id, property, edits [(file, old, new)], demo, needs, what.
A bug is kept in seeded/<id>/ when the patched tree builds and passes the stable tests, the demo
exits 0 on the clean tree and nonzero on the patched one.  Prints whether the quick check of the
property (and which other checks, with ALL=1) reports it.  Works in copies under /tmp.
"""
import json, os, shutil, subprocess, sys, runpy
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '#!/bin/bash\n# run with cwd = the repository\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout, env=env)
    return p.returncode, p.stdout


def tests(copy):
    # test.sh's command on a copy
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    script = open('/opt/vp/test.sh').read().replace('/repo', copy)
    open(copy + '.test.sh', 'w').write(script)
    rc, out = sh('bash %s.test.sh %s.json' % (copy, copy), copy, env=env)
    try:
        res = json.load(open(copy + '.json'))
    finally:
        for f in (copy + '.test.sh', copy + '.json'):
            if os.path.exists(f):
                os.remove(f)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return stable - set(res['passed'])


def one(b):
    log = []
    d = os.path.join(V, 'seeded', b['id'])
    copy = '/tmp/plant_' + b['id']
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree('/repo', copy, symlinks=True)
    try:
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what']),
                  open(d + '/meta.json', 'w'), indent=1, ensure_ascii=False)
        rc, out = sh('bash %s/demo.sh' % d, copy, 300)
        if rc:
            return b['id'], 'BAD: demo fails on the clean tree\n' + out[-1500:]
        for f, old, new in b['edits']:
            p = os.path.join(copy, f)
            s = open(p, encoding='utf-8', newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                return b['id'], 'BAD: %d matches in %s for %r' % (s.count(old), f, old)
            open(p, 'w', encoding='utf-8', newline='').write(s.replace(old, new))
        rc, diff = sh('git diff', copy)
        open(d + '/patch.diff', 'w', newline='').write(diff)
        rc, out = sh('git stash -q && git apply %s/patch.diff' % d, copy)
        if rc:
            return b['id'], 'BAD: patch does not apply ' + out
        # removed lines must be original
        rc, out = sh('bash %s/demo.sh' % d, copy, 300)
        if not rc:
            return b['id'], 'BAD: demo passes on the patched tree'
        missing = tests(copy)
        if missing:
            return b['id'], 'BAD: tests fail: %s' % missing
        orig = subprocess.run(['git', 'show', 'ed49531:' + b['edits'][0][0]], cwd='/repo', stdout=subprocess.PIPE).stdout.decode().replace('\r', '')
        ol = set(orig.split('\n'))
        removed = [l[1:] for l in diff.replace('\r', '').split('\n') if l.startswith('-') and not l.startswith('---')]
        if removed and not any(l in ol for l in removed):
            log.append('WARNING: no removed line is original: %r' % removed)
        props = ['C%02d' % i for i in range(1, 40)] if os.environ.get('ALL') else [b['property']]
        for p in props:
            rc, out = sh('VERIF_REPO=%s VERIF_SEED=1 VERIF_EVIDENCE=/tmp/plant_ev_%s python3 %s/run.py %s quick' % (copy, b['id'], V, p), V)
            if 'unknown property' in out:
                continue
            hit = rc == 1 and 'VIOLATION property=%s ' % p in out
            log.append('%s: %s (rc %d)' % (p, 'CAUGHT' if hit else 'missed', rc))
            if hit:
                log.append('   ' + '; '.join(l for l in out.split('\n') if 'VIOLATION' in l)[:200])
            elif rc:
                log.append(out[-800:])
        return b['id'], '\n'.join(log)
    finally:
        shutil.rmtree(copy, ignore_errors=True)


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    if sys.argv[2:]:
        bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(one, bugs):
            print('==', i, r, flush=True)
