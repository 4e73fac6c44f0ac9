"""Runner shared by every check: generation, counting, shrinking, replay, evidence.

A check is a set of *subs*.  A sub is (strategy or finite enumeration, body).
A case is always a plain Python literal (str/int/float/list/tuple/dict/set/None),
so a failing case can be written to a replay file and rerun without Hypothesis.

The body receives the case, drives the real soynlp code imported from /repo and
raises (AssertionError or anything else) when the property does not hold.  It
returns a label (or a list of labels) when the case was non-trivial by the sub's
rule, and None/False when it was trivial.
"""
import ast
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
FALLBACK_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

SUBS = {}          # property id -> list of Sub
META = {}          # property id -> dict(rule=..., assumptions=[...])


class CaseTimeout(BaseException):
    pass


SHRINK = True     # off only while measuring (tools/kill.py)


class Sub:
    def __init__(self, pid, name, body, strategy, cases, quick, thorough, rule):
        self.pid, self.name, self.body = pid, name, body
        self.strategy, self.cases = strategy, cases
        self.quick, self.thorough, self.rule = quick, thorough, rule


def sub(pid, name, strategy=None, cases=None, quick=300, thorough=6000, rule=''):
    def deco(body):
        SUBS.setdefault(pid, []).append(
            Sub(pid, name, body, strategy, cases, quick, thorough, rule))
        return body
    return deco


def describe(pid, rule, assumptions=()):
    META[pid] = dict(rule=rule, assumptions=list(assumptions))


# ---------------------------------------------------------------- scratch dir
_scratch = None


def scratch():
    """Per-process scratch directory; emptied by the runner, never outside TMP."""
    global _scratch
    if _scratch is None or not os.path.isdir(_scratch):
        _scratch = tempfile.mkdtemp(prefix='soyverif_')
    return _scratch


def _drop_scratch():
    global _scratch
    if _scratch and os.path.isdir(_scratch):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


# ---------------------------------------------------------------- case running
CASE_CPU_SECONDS = 120


def _on_alarm(signum, frame):
    raise CaseTimeout()


def run_body(s, case):
    """Run one case with soynlp's progress output captured."""
    out = io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(out):
            return s.body(case)


class Recorder:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.failure = None           # (case, message) of the last failing run
        self.truncated = False

    def note(self, case, label):
        if not label:
            self.labels['trivial'] = self.labels.get('trivial', 0) + 1
            return
        if label is True:
            label = 'nontrivial'
        if isinstance(label, str):
            label = [label]
        for l in label:
            self.labels[l] = self.labels.get(l, 0) + 1
        key = hashlib.blake2b(repr(case).encode('utf-8', 'surrogatepass'),
                              digest_size=8).digest()
        if key not in self.nontrivial:
            self.nontrivial.add(key)
            n = len(self.nontrivial)
            if n in (1, 5, 40, 200) and len(self.samples) < 4:
                text = repr(case)
                self.samples.append(text if len(text) < 1500 else text[:1500] + ' ...')


def _one(s, rec, case):
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
    try:
        label = run_body(s, case)
    except CaseTimeout:
        rec.failure = (case, 'no result within %d s of CPU time' % CASE_CPU_SECONDS)
        raise
    except Exception as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        rec.failure = (case, _explain(e))
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    rec.evaluations += 1
    rec.note(case, label)


def _explain(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for f in reversed(tb):
        if '/soynlp/' in f.filename:
            where = ' [at %s:%d in %s]' % (f.filename, f.lineno, f.name)
            break
    return '%s: %s%s' % (type(e).__name__, str(e)[:1500], where)


def run_sub(s, tier, seed, budget):
    """Returns a dict describing what happened; never raises for a violation."""
    signal.signal(signal.SIGPROF, _on_alarm)
    rec = Recorder()
    t0 = time.time()
    n = s.quick if tier == 'quick' else s.thorough
    error = None
    failed = False
    try:
        if s.cases is not None:
            for case in s.cases(tier):
                try:
                    _one(s, rec, case)
                except (Exception, CaseTimeout):
                    failed = True
                    break
                if time.time() - t0 > budget:
                    rec.truncated = True
                    break
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, given, settings

            strategy = s.strategy() if callable(s.strategy) else s.strategy

            @hypothesis.seed(seed)
            @settings(max_examples=n, deadline=None, database=None,
                      derandomize=False, print_blob=False, report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck),
                      phases=[Phase.generate, Phase.shrink] if SHRINK else [Phase.generate])
            @given(strategy)
            def test(case):
                if rec.failure is None and time.time() - t0 > budget:
                    rec.truncated = True
                    return
                _one(s, rec, case)

            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    test()
            except CaseTimeout:
                failed = True
            except BaseException as e:      # hypothesis re-raises the minimal failure
                if rec.failure is None:
                    error = traceback.format_exc()
                else:
                    failed = True
    except BaseException:
        error = traceback.format_exc()
    finally:
        _drop_scratch()
    res = dict(sub=s.name, evaluations=rec.evaluations,
               nontrivial=len(rec.nontrivial), labels=rec.labels,
               samples=rec.samples, truncated=rec.truncated,
               wall_s=round(time.time() - t0, 2), error=error, failure=None)
    if failed and rec.failure is not None:
        res['failure'] = dict(case=repr(rec.failure[0]), message=rec.failure[1])
    return res


def _worker(args):
    pid, name, tier, seed, budget = args
    s = [x for x in SUBS[pid] if x.name == name][0]
    return run_sub(s, tier, seed, budget)


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path, encoding='utf-8') as f:
        data = json.load(f)
    return [k for k in data.get('findings', []) if k['property'] == pid]


def check_known(pid):
    """Rerun each listed finding's exact input; report the ones that still fail."""
    lines = []
    for k in known_findings(pid):
        s = [x for x in SUBS[pid] if x.name == k['sub']]
        if not s:
            continue
        try:
            run_body(s[0], ast.literal_eval(k['case']))
        except Exception:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    return lines


# ---------------------------------------------------------------- entry points
def run_check(pid, tier, seed, jobs=None):
    subs = SUBS[pid]
    t0 = time.time()
    budget = 420 if tier == 'quick' else 3 * 3600
    if os.environ.get('VERIF_BUDGET'):
        budget = float(os.environ['VERIF_BUDGET'])
    jobs = jobs or min(8, os.cpu_count() or 1)
    tasks = [(pid, s.name, tier, seed, budget) for s in subs]
    if len(tasks) == 1:
        results = [_worker(tasks[0])]
    else:
        with mp.get_context('fork').Pool(min(jobs, len(tasks)), maxtasksperchild=1) as pool:
            results = pool.map(_worker, tasks, chunksize=1)
    lines = check_known(pid)
    for l in lines:
        print(l)
    violations = 0
    rc = 0
    for r in results:
        if r['failure']:
            violations += 1
            path = write_replay(pid, r, seed, tier)
            print('property %s, sub %s: %s' % (pid, r['sub'], r['failure']['message']))
            print('  minimal case: %s' % r['failure']['case'][:2000])
            print('VIOLATION property=%s replay=%s' % (pid, path))
    errors = [r for r in results if r['error']]
    for r in errors:
        print('HARNESS ERROR in %s/%s:\n%s' % (pid, r['sub'], r['error']), file=sys.stderr)
    meta = META.get(pid, {})
    samples = []
    for r in results:
        for x in r['samples'][:3]:
            samples.append('%s: %s' % (r['sub'], x))
    evidence = dict(
        property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(r['evaluations'] for r in results),
            distinct_nontrivial=sum(r['nontrivial'] for r in results),
            rule=meta.get('rule', '') + ' Per sub: ' + '; '.join(
                '%s - %s' % (s.name, s.rule) for s in subs if s.rule),
            samples=samples,
            subs=[{k: r[k] for k in ('sub', 'evaluations', 'nontrivial', 'labels',
                                     'truncated', 'wall_s')} for r in results],
            known_findings_reported=len(lines)),
        assumptions=meta.get('assumptions', []),
        wall_s=round(time.time() - t0, 2), violations=violations)
    evdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + '.json'), 'w', encoding='utf-8') as f:
        json.dump(evidence, f, ensure_ascii=True, indent=1)
    if violations:
        rc = 1
    elif errors:
        rc = 2
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %.1f s' % (
        pid, tier, seed, evidence['coverage']['evaluations'],
        evidence['coverage']['distinct_nontrivial'], violations, evidence['wall_s']))
    return rc


def write_replay(pid, r, seed, tier):
    d = os.path.join(os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence'), 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s_%s.json' % (pid, r['sub']))
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(dict(property=pid, sub=r['sub'], seed=seed, tier=tier,
                       case=r['failure']['case'], message=r['failure']['message']),
                  f, ensure_ascii=True, indent=1)
    return path


def replay(path):
    with open(path, encoding='utf-8') as f:
        data = json.load(f)
    s = [x for x in SUBS[data['property']] if x.name == data['sub']][0]
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
    try:
        run_body(s, ast.literal_eval(data['case']))
    except (Exception, CaseTimeout) as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        print('%s/%s still fails on %s\n%s' % (
            data['property'], data['sub'], data['case'], _explain(e)))
        print('VIOLATION property=%s replay=%s' % (data['property'], path))
        return 1
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        _drop_scratch()
    print('%s/%s: the saved case passes' % (data['property'], data['sub']))
    return 0
