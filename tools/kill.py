"""Run the quick cases of some properties in one process, stop at the first violation (for mutate.py)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('SOYVERIF_CHILD') != '1':
    env = dict(os.environ, SOYVERIF_CHILD='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONPYCACHEPREFIX='/nonexistent')
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), V + '/harness']
try:
    import hypothesis
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import core, registry
core.SHRINK = False
scale = float(os.environ.get('SOYVERIF_SCALE', '1'))
rc = 0
for pid in sys.argv[1:]:
    registry.load(pid)
    for s in core.SUBS[pid]:
        s.quick = max(20, int(s.quick * scale))
        r = core.run_sub(s, 'quick', 1, 400)
        if r['failure']:
            print('KILLED', pid, s.name)
            sys.exit(1)
        if r['error']:
            print('ERROR', pid, s.name, r['error'][-200:])
            sys.exit(2)
sys.exit(0)
