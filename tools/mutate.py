"""Mutation sweep:  python3 tools/mutate.py OUT.jsonl FILE [FILE ...]   (files relative to /repo)

Changes one expression or statement at a time in a copy of /repo and runs the checks of the
properties the file belongs to (without shrinking, stopping at the first violation).
What survives is written to OUT.jsonl for reading.  Sharded over 8 processes.
"""
import ast, json, os, re, shutil, subprocess, sys, time
from multiprocessing import Pool, current_process
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [('hangle/', 'C01 C02 C03 C04'), ('normalizer/_normalizer', 'C04 C24'), ('tokenizer/_normalizer', 'C04 C07'),
         ('tokenizer/_noun', 'C07'), ('tokenizer/_tokenizer_builder', 'C08'), ('tokenizer/_tokenizer', 'C05 C06 C07'),
         ('utils/math', 'C12'), ('utils/utils', 'C09 C10 C11 C12'), ('word/_word', 'C13 C14'), ('word/_pmi', 'C15'),
         ('word/_phrase', 'C16'), ('vectorizer/_vectorizer', 'C17'), ('vectorizer/_word_context', 'C18'),
         ('postagger/', 'C19 C20'), ('lemmatizer/', 'C21 C22 C26'), ('noun/_josa', 'C25'), ('noun/_noun_news', 'C25'),
         ('noun/_noun_post', 'C25'), ('noun/_noun_ver1', 'C23'), ('noun/_noun_ver2', 'C24'), ('predicator/', 'C26'), ('pos/', 'C27')]


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset
    out = []
    parent = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parent[c] = n

    def skip(n):
        while n in parent:
            if isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('print',):
                return True
            if isinstance(n, ast.Call) and getattr(n.func, 'attr', '') in ('write',) and 'stdout' in ast.unparse(n):
                return True
            if isinstance(n, ast.If) and re.fullmatch(r'(self\.)?(_?verbose|debug|profile).*', ast.unparse(n.test)):
                return True
            if isinstance(n, ast.Raise):
                return True
            if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__str__'):
                return True
            n = parent[n]
        return False

    def add(n, new, what, sp=None):
        s, e = sp or span(n)
        out.append((n.lineno, what, s, e, new))
    U = ast.unparse
    seg = lambda n: b[span(n)[0]:span(n)[1]].decode()
    cmps = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in',
            ast.Is: 'is not', ast.IsNot: 'is'}
    for n in ast.walk(tree):
        if not hasattr(n, 'lineno') or skip(n):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left), seg(n.comparators[0])
            add(n, '(%s) %s (%s)' % (l, cmps[type(n.ops[0])], r), 'cmp')
            flip = {ast.Lt: '>=', ast.LtE: '>', ast.Gt: '<=', ast.GtE: '<'}
            if type(n.ops[0]) in flip:
                add(n, '(%s) %s (%s)' % (l, flip[type(n.ops[0])], r), 'cmpflip')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join('(%s)' % seg(v) for v in n.values) + ')', 'boolop')
            for i in range(len(n.values)):
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, '(' + o2.join('(%s)' % seg(v) for j, v in enumerate(n.values) if j != i) + ')', 'drop%d' % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, '(%s)' % seg(n.operand), 'unary')
        elif isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div):
            if any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
                continue
            op = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}[type(n.op)]
            add(n, '((%s) %s (%s))' % (seg(n.left), op, seg(n.right)), 'arith')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), 'const')
            elif isinstance(v, int):
                add(n, '(%d)' % (v + 1), 'const')
                add(n, '(%d)' % (v - 1), 'const')
            elif isinstance(v, float):
                add(n, repr(v * 1.5 + 0.01), 'const')
            elif isinstance(v, str) and not isinstance(parent.get(n), (ast.Expr, ast.JoinedStr, ast.FormattedValue)):
                if os.environ.get('STR') and any('가' <= c <= '힣' or 'ㄱ' <= c <= 'ㅣ' for c in v) or len(v) <= 1:
                    add(n, repr(v[:-1] if len(v) > 1 else v + '가'), 'str')
        elif isinstance(n, ast.Slice):
            for f in ('lower', 'upper'):
                x = getattr(n, f)
                if x is not None:
                    add(x, '', 'slice')
        if isinstance(n, (ast.If, ast.While)) and not isinstance(n, ast.While):
            add(n.test, 'True', 'iftrue'); add(n.test, 'False', 'iffalse')
        if isinstance(n, ast.IfExp):
            add(n.test, 'True', 'iftrue'); add(n.test, 'False', 'iffalse')
        if isinstance(n, ast.comprehension):
            pass
        if isinstance(n, ast.Continue):
            add(n, 'break', 'cont'); add(n, 'pass', 'cont')
        if isinstance(n, ast.Break):
            add(n, 'continue', 'brk'); add(n, 'pass', 'brk')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and n in parent:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n, ast.Expr) and skip(n.value):
                continue
            add(n, 'pass', 'del')
        if isinstance(n, ast.AugAssign):
            add(n, '%s = %s' % (seg(n.target), seg(n.value)), 'aug')
    for n in ast.walk(tree):
        if isinstance(n, ast.comprehension):
            for t in n.ifs:
                if not skip(t):
                    add(t, 'True', 'comptrue')
    boring = ('sys.version_info', 'os.path', 'f.close()', 'logpath', 'verbose')
    seen = set()
    for line, what, s, e, new in out:
        m = (b[:s] + new.encode() + b[e:]).decode()
        if m in seen or any(x in lines[line - 1] for x in boring):
            continue
        seen.add(m)
        try:
            compile(m, 'x', 'exec')
        except (SyntaxError, ValueError):
            continue
        yield line, what, b[s:e].decode(), new, m


def work(job):
    f, line, what, old, new, text, crlf, props = job
    copy = '/tmp/mut_%s' % current_process().name
    if not os.path.exists(copy):
        shutil.copytree(os.environ.get('SRC','/repo'), copy, symlinks=True)
    path = os.path.join(copy, f)
    orig = open(path, newline='', encoding='utf-8').read()
    open(path, 'w', newline='', encoding='utf-8').write(text.replace('\n', '\r\n') if crlf else text)
    t = time.time()
    env = dict(os.environ, VERIF_REPO=copy, SOYVERIF_SCALE=os.environ.get('SCALE', '0.3'))
    try:
        p = subprocess.run([sys.executable, V + '/tools/kill.py'] + props.split(), env=env, cwd=copy, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=int(os.environ.get('TMO', '150')))
        res = {0: 'survived', 1: 'killed', 2: 'error'}.get(p.returncode, 'rc%d' % p.returncode)
        tail = p.stdout[-300:]
    except subprocess.TimeoutExpired:
        res, tail = 'timeout', ''
    open(path, 'w', newline='', encoding='utf-8').write(orig)
    return dict(file=f, line=line, what=what, old=old[:200], new=new[:200], res=res, tail=tail, s=round(time.time() - t, 1), text=text if res == 'survived' else None)


if __name__ == '__main__':
    out, files = sys.argv[1], sys.argv[2:]
    jobs = []
    for f in files:
        raw = open(os.environ.get('SRC','/repo') + '/' + f, newline='', encoding='utf-8').read()
        crlf = '\r\n' in raw
        props = [p for k, p in PROPS if k in f][0]
        for m in mutants(raw.replace('\r\n', '\n')):
            jobs.append((f,) + m + (crlf, props))
    import random
    random.Random(int(os.environ.get('SHUFFLE', '1'))).shuffle(jobs)
    jobs = jobs[:int(os.environ.get('LIMIT', '1000000'))]
    print(len(jobs), 'mutants', flush=True)
    from collections import Counter
    tally = Counter()
    with open(out, 'w') as fo, Pool(int(os.environ.get('JOBS', '8'))) as pool:
        for i, r in enumerate(pool.imap_unordered(work, jobs)):
            tally[r['res']] += 1
            fo.write(json.dumps(r, ensure_ascii=False) + '\n'); fo.flush()
            if i % 100 == 99:
                print(i + 1, dict(tally), flush=True)
    print(dict(tally))
    subprocess.run('rm -rf /tmp/mut_ForkPoolWorker-*', shell=True)
