"""Lines of soynlp no check executes:  python3 tools/cover.py OUT_DIR [scale]   (helper, no part of any check)

Each property runs in its own process with sys.monitoring; the lines seen are merged."""
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CHILD = r'''
import sys, os, json
repo, here, pid, scale, out = sys.argv[1:6]
sys.path[:0] = [repo, here + '/harness']
try:
    import hypothesis
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
seen = {}
m = sys.monitoring
m.use_tool_id(3, 'cover')
def line(code, n):
    f = code.co_filename
    if f.startswith(repo + '/soynlp'):
        seen.setdefault(f[len(repo) + 1:], set()).add(n)
    return m.DISABLE
m.register_callback(3, m.events.LINE, line)
m.set_events(3, m.events.LINE)
import core, registry
registry.load(pid)
for s in core.SUBS[pid]:
    s.quick = max(20, int(s.quick * float(scale)))
    core.run_sub(s, 'quick', 1, 400)
json.dump({f: sorted(v) for f, v in seen.items()}, open(out, 'w'))
'''


def lines(path):
    out = set()

    def walk(code):
        out.update(n for _, _, n in code.co_lines() if n)
        for c in code.co_consts:
            if hasattr(c, 'co_lines'):
                walk(c)
    walk(compile(open(path, encoding='utf-8').read(), path, 'exec'))
    return out


def main():
    out, scale = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else '0.3'
    env = dict(os.environ, SOYVERIF_CHILD='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1')

    def one(i):
        pid = 'C%02d' % i
        subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c', CHILD, REPO, HERE, pid, scale, out + '/' + pid + '.json'],
                       env=env, stdout=subprocess.DEVNULL)
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '6'))) as ex:
        list(ex.map(one, range(1, 28)))
    seen = {}
    for f in os.listdir(out):
        if f.endswith('.json'):
            for k, v in json.load(open(out + '/' + f)).items():
                seen.setdefault(k, set()).update(v)
    for d, _, fs in sorted(os.walk(REPO + '/soynlp')):
        for f in sorted(fs):
            if f.endswith('.py'):
                path = os.path.join(d, f)
                rel = path[len(REPO) + 1:]
                src = open(path, encoding='utf-8').read().split('\n')
                miss = sorted(lines(path) - seen.get(rel, set()))
                if miss:
                    print('==', rel, len(miss), 'of', len(lines(path)))
                    for n in miss:
                        print('  %4d %s' % (n, src[n - 1] if n <= len(src) else ''))


main()
