#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]   |   run.py replay FILE   |   run.py list"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', LANG='C.UTF-8', LC_ALL='C.UTF-8',
           PYTHONPYCACHEPREFIX='/nonexistent')
PY = '/opt/venv/bin/python'

if os.environ.get('SOYVERIF_CHILD') != '1':
    env = dict(os.environ, SOYVERIF_CHILD='1', **ENV)
    env.pop('PYTHONPATH', None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.path.insert(0, REPO)
try:
    import hypothesis  # noqa
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import hypothesis  # noqa

import core  # noqa
import registry  # noqa


def main(argv):
    if argv[:1] == ['list']:
        for pid in registry.PROPERTIES:
            registry.load(pid)
            print(pid, [(s.name, s.quick, s.thorough) for s in core.SUBS[pid]])
        return 0
    if argv[:1] == ['replay']:
        import json
        registry.load(json.load(open(argv[1]))['property'])
        return core.replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    registry.load(pid)
    import soynlp
    assert os.path.realpath(soynlp.__file__).startswith(os.path.realpath(REPO) + os.sep), soynlp.__file__
    return core.run_check(pid, tier, seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
