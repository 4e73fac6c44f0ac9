"""Answers jobs (agent, corpus, params) read from stdin, one per line, with JSON lines; see c_system.Process."""
import ast
import json
import os
import sys
import warnings

out = os.fdopen(os.dup(1), 'w', encoding='utf-8')
null = open(os.devnull, 'w')
os.dup2(null.fileno(), 1)
sys.stdout = null
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
try:
    import hypothesis  # noqa
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import agents  # noqa
import core  # noqa

warnings.simplefilter('ignore')
try:
    for line in sys.stdin.buffer:
        name, corpus, p = ast.literal_eval(line.decode('utf-8', 'surrogatepass'))
        try:
            r = agents.run(name, corpus, p)
        except Exception as e:
            r = ['error', type(e).__name__]
        out.write(json.dumps(r) + '\n')
        out.flush()
finally:
    core._drop_scratch()
