"""C09 corpus reader, C10 word counter, C11 L-R graph, C12 vector helpers and file helpers."""
import copy
import math
import os
from collections import Counter, defaultdict

import numpy as np
from hypothesis import strategies as st
from scipy.sparse import csr_matrix

from core import sub, describe, scratch
import gen
from soynlp.utils import (DoublespaceLineCorpus, EojeolCounter, LRGraph, most_similar,
                          check_corpus, sort_by_alphabet, check_dirs, svd)

# ================================================================ C09
describe('C09', 'Files of up to 10 lines: blank lines, lines of blanks, runs of 2-4 blanks, LF and CRLF '
         'endings, with or without a final newline, headers to skip, document and sentence limits, both '
         'iteration modes and switching between them. Non-trivial: two or more documents and a limit, header or blank line.')

SENT_ = st.sampled_from(['가', '가 나', '나다 라', 'ab', '가나다', '라'])
GAP = st.sampled_from(['  ', '  ', '   ', '    '])
LINE = st.one_of(
    st.sampled_from(['', '', ' ', '  ', '   ', '\t', '\u3000']),
    st.tuples(st.sampled_from(['', ' ', '  ']), st.lists(st.tuples(SENT_, GAP), min_size=1, max_size=4),
              st.booleans()).map(lambda t: (t[0] + ''.join(a + b for a, b in t[1])) if t[2]
                                 else (t[0] + ''.join(a + b for a, b in t[1])).rstrip(' ')))
CORPUS = st.fixed_dictionaries(dict(
    lines=st.lists(LINE, max_size=10), eol=st.sampled_from(['\n', '\n', '\r\n']), last=st.booleans(),
    num_doc=st.sampled_from([-1, -1, 0, 1, 2, 3, 5, 12]), num_sent=st.sampled_from([-1, -1, -1, 0, 1, 2, 3, 4, 7, 40]),
    iter_sent=st.booleans(), skip=st.sampled_from([0, 0, 0, 1, 2, 11]),
    ops=st.lists(st.sampled_from(['len', 'iter', 'toggle', 'partial']), max_size=6)))


@sub('C09', 'length_and_content', CORPUS, quick=1500, thorough=30000,
     rule='reported length, iteration content and limits against a direct reading of the text')
def corpus_reader(case):
    path = os.path.join(scratch(), 'corpus.txt')
    lines = case['lines']
    text = case['eol'].join(lines) + (case['eol'] if case['last'] and lines else '')
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    if not case['last'] and lines and lines[-1] == '':
        lines = lines[:-1]          # an unterminated empty last line does not exist
    docs = lines[case['skip']:]
    sents = [[s.strip() for s in d.split('  ') if s.strip()] for d in docs]
    num_doc, num_sent = case['num_doc'], case['num_sent']
    corpus = DoublespaceLineCorpus(path, num_doc=num_doc, num_sent=num_sent,
                                   iter_sent=case['iter_sent'], skip_header=case['skip'])
    limit = docs if num_doc <= 0 else docs[:num_doc]
    all_sents = [s for ss in sents[:len(limit)] for s in ss]
    want_sents = all_sents if num_sent <= 0 else all_sents[:num_sent]
    stripped = [d.strip() for d in limit]

    def check_iter():
        got = list(corpus)
        if corpus.iter_sent:
            assert got == want_sents, (case, got, want_sents)
        else:
            assert got == stripped[:len(got)], (case, got)
            if num_sent <= 0:
                assert got == stripped, (case, got, stripped)
            else:
                have = sum(len(ss) for ss in sents[:len(got)])
                assert have >= min(num_sent, len(all_sents)), (case, got)
        return got

    def check_len():
        n = len(corpus)
        want = check_iter()
        assert n == len(want), (case, corpus.iter_sent, n, want)
    for op in case['ops'] + ['len', 'toggle', 'iter', 'len']:
        if op == 'len':
            check_len()
        elif op == 'iter':
            check_iter()
        elif op == 'toggle':
            corpus.iter_sent = not corpus.iter_sent
        else:
            for _ in corpus:
                break
    limited = num_doc > 0 or num_sent > 0 or case['skip'] or '' in stripped
    return ('sent_limit' if num_sent > 0 else 'doc_limit' if num_doc > 0 else 'other') \
        if len(docs) > 1 and limited else None


@sub('C09', 'check_corpus', st.tuples(st.sampled_from(['list', 'tuple', 'gen', 'str', 'int', 'file', 'nolen']),
                                      st.lists(SENT_, max_size=3)), quick=300, thorough=3000,
     rule='a usable corpus is accepted, anything without iteration, length or content is rejected')
def corpus_check(case):
    kind, sents = case
    if kind == 'file':
        path = os.path.join(scratch(), 'c.txt')
        with open(path, 'w', encoding='utf-8') as f:
            f.write('\n'.join(sents))
        obj = DoublespaceLineCorpus(path)
    else:
        obj = {'list': list(sents), 'tuple': tuple(sents), 'gen': (s for s in sents), 'str': ''.join(sents),
               'int': 3, 'nolen': map(str, sents)}[kind]
    ok = kind in ('list', 'tuple', 'str', 'file') and len(sents) > 0
    try:
        got = check_corpus(obj)
    except ValueError:
        assert not ok, case
        return 'rejected'
    assert ok and got is True, case
    return 'accepted'


# ================================================================ C10
describe('C10', 'Sentences over a small vocabulary with thresholds, length limits, preprocessing and '
         'pruning checkpoints; then a history of coverage removals and save/load. Non-trivial: some word is '
         'kept and some word is dropped, or a removal happened.')

COUNT = st.fixed_dictionaries(dict(
    sents=gen.corpus('가나다라', max_len=6, max_sents=12),
    min_count=st.integers(1, 4), max_length=st.integers(1, 8),
    checkpoint=st.sampled_from([0, 0, 1, 2, 3]), pre=st.sampled_from(['none', 'none', 'strip가'])))


def count_model(case):
    c = {}
    for i, s in enumerate(case['sents']):
        if case['pre'] != 'none':
            s = s.replace('가', '')
        if case['min_count'] > 1 and case['checkpoint'] > 0 and i and i % case['checkpoint'] == 0:
            c = {k: v for k, v in c.items() if v >= case['min_count']}
        for w in s.split():
            if len(w) <= case['max_length']:
                c[w] = c.get(w, 0) + 1
    return {k: v for k, v in c.items() if v >= case['min_count']}


def make_counter(case, **kw):
    pre = None if case['pre'] == 'none' else (lambda s: s.replace('가', ''))
    return EojeolCounter(case['sents'], min_count=case['min_count'], max_length=case['max_length'],
                         filtering_checkpoint=case['checkpoint'], preprocess=pre, **kw)


def check_counter(c, model, words, ctx):
    assert dict(c.items()) == model, (ctx, dict(c.items()), model)
    assert len(c) == len(model) == c.num_of_unique_uncovered_eojeols
    assert c.num_of_uncovered_eojeols == sum(model.values())
    for w in words:
        assert c[w] == c.get_eojeol_count(w) == model.get(w, 0), (ctx, w)


@sub('C10', 'counts', COUNT, quick=1500, thorough=30000, rule='word counts against a direct count, verbose or not')
def counts(case):
    model = count_model(case)
    words = {w for s in case['sents'] for w in s.split()}
    check_counter(make_counter(case), model, words, case)
    check_counter(make_counter(case, verbose=True), model, words, case)
    return 'dropped' if model and set(model) != words else None


@sub('C10', 'coverage_history', st.tuples(COUNT, st.lists(st.one_of(
    st.tuples(st.just('remove'), st.lists(gen.word('가나다라', 1, 3), max_size=3), st.integers(0, 7)),
    st.tuples(st.just('uncovered'), st.integers(0, 5)),
    st.tuples(st.just('reload'), st.sampled_from([None, 1, 2, 4]))), max_size=6)), quick=1000, thorough=20000,
     rule='coverage bookkeeping and persistence along a history of removals')
def coverage_history(case):
    case0, ops = case
    c = make_counter(case0)
    model = count_model(case0)
    total = sum(model.values())
    words = {w for s in case0['sents'] for w in s.split()}
    touched = False
    assert c.coverage == 0
    for op in ops:
        if op[0] == 'remove':
            keys = sorted(model)
            gone = set(op[1]) | set(keys[:op[2]])
            c.remove_covered_eojeols(gone)
            model = {k: v for k, v in model.items() if k not in gone}
            assert abs(c.coverage - (1 - sum(model.values()) / total if total else 0)) < 1e-9, (case, c.coverage)
            touched = True
        elif op[0] == 'uncovered':
            assert c.get_uncovered_eojeols(op[1]) == {k: v for k, v in model.items() if v >= op[1]}
        else:
            path = os.path.join(scratch(), 'sub', 'count.txt')
            c.save(path)
            with open(path, encoding='utf-8') as f:
                rows = [l.split() for l in f]
            assert [int(n) for _, n in rows] == sorted(model.values(), reverse=True), (case, rows)
            # a loaded counter holds the file, whatever it held or was told before
            c = EojeolCounter(None if op[1] is None else ['다 다라 다'], min_count=op[1] or 1, max_length=2)
            c.load(path)
            total = sum(model.values())
            assert c.coverage == 0
            touched = True
        check_counter(c, model, words, case)
    return 'history' if touched and words else None


@sub('C10', 'to_graph_and_back', st.tuples(COUNT, st.integers(2, 8), st.integers(1, 6), st.booleans()),
     quick=1000, thorough=20000, rule='counter -> L-R graph has every admissible split with the word count, and converts back')
def to_graph(case):
    case0, lm, rm, skip1 = case
    c = make_counter(case0)
    model = count_model(case0)
    want = {}
    for w, n in model.items():
        if skip1 and len(w) == 1:
            continue
        for e in range(1, len(w) + 1):
            if e <= lm and len(w) - e <= rm:
                want.setdefault(w[:e], {})[w[e:]] = n
    g = c.to_lrgraph(l_max_length=lm, r_max_length=rm, ignore_one_syllable=skip1)
    check_graph(g, want, case)
    back = g.to_EojeolCounter()
    assert dict(back.items()) == {l + r: n for l, rd in want.items() for r, n in rd.items()}
    assert dict(c.items()) == model
    return 'graph' if want else None


# ================================================================ C11
describe('C11', 'Histories of up to 14 operations on an L-R graph (add/remove word or pair, reset, save and '
         'load, copy, freeze, queries) over a small vocabulary, from an empty, dict-built or sentence-built '
         'graph. Non-trivial: the graph changed after construction or was reset/reloaded.')


def pairs_of(g):
    ls = {}
    for l in list(g._lr):
        ls[l] = dict(g._lr[l])
    return ls


def check_graph(g, model, ctx):
    """Both directions of the graph, seen through the public queries, equal the model."""
    rl = {}
    for l, rd in model.items():
        for r, n in rd.items():
            if r:
                rl.setdefault(r, {})[l] = n
    ls = set(model) | {w[:i] for w in ('가나다라', '가가', '라') for i in range(1, 5)}
    for l in ls:
        got = g.get_r(l, -1)
        assert dict(got) == model.get(l, {}) and len(got) == len(model.get(l, {})), (ctx, l, got, model.get(l))
        assert [n for _, n in got] == sorted((n for _, n in got), reverse=True)
    for r in set(rl) | {'가', '나다', '라'}:
        got = g.get_l(r, -1)
        assert dict(got) == rl.get(r, {}) and len(got) == len(rl.get(r, {})), (ctx, r, got, rl.get(r))
        assert [n for _, n in got] == sorted((n for _, n in got), reverse=True)


def model_add(m, l, r, n):
    m.setdefault(l, {})
    m[l][r] = m[l].get(r, 0) + n


def model_sub(m, l, r, n):
    if r in m.get(l, {}):
        m[l][r] -= n
        if m[l][r] <= 0:
            del m[l][r]
            if not m[l]:
                del m[l]


LRW = gen.word('가나다', 1, 5)
LRWL = gen.word('가나', 6, 9)
LROPS = st.lists(st.one_of(
    st.tuples(st.just('add_word'), st.one_of(LRW, LRW, LRWL), st.integers(1, 3)),
    st.tuples(st.just('del_word'), st.one_of(LRW, st.integers(0, 9)), st.integers(1, 3)),
    st.tuples(st.just('del_word'), st.integers(0, 9), st.integers(1, 3)),
    st.tuples(st.just('add_pair'), gen.word('가나', 1, 2), gen.word('가나', 0, 2), st.integers(1, 3)),
    st.tuples(st.just('del_pair'), gen.word('가나', 1, 2), gen.word('가나', 0, 2), st.integers(1, 3)),
    st.tuples(st.just('del_pair'), st.integers(0, 9), st.integers(0, 9), st.integers(1, 3)),
    st.tuples(st.just('reset')), st.tuples(st.just('reload')), st.tuples(st.just('copy')),
    st.tuples(st.just('freeze')),
    st.tuples(st.just('top'), st.one_of(LRW, st.integers(0, 9)), st.sampled_from([1, 1, 2, 2, 3, 4, None]))), max_size=14)

LRSTART = st.fixed_dictionaries(dict(
    kind=st.sampled_from(['sents', 'sents', 'dict', 'defaultdict', 'empty']),
    sents=gen.corpus('가나다', max_len=7, max_sents=6),
    lm=st.integers(2, 6), rm=st.integers(1, 5)))


def model_of(start):
    m = {}
    if start['kind'] == 'empty':
        return m
    for s in start['sents']:
        for w in s.split():
            for e in range(1, len(w) + 1):
                if e <= start['lm'] and len(w) - e <= start['rm']:
                    model_add(m, w[:e], w[e:], 1)
    return m


def build_graph(start):
    m = model_of(start)
    kw = dict(l_max_length=start['lm'], r_max_length=start['rm'])
    if start['kind'] == 'sents':
        return LRGraph(sents=start['sents'], **kw)
    if start['kind'] == 'dict':
        return LRGraph(lrgraph=copy.deepcopy(m) or None, **kw)
    if start['kind'] == 'defaultdict':
        d = defaultdict(lambda: defaultdict(int))
        for l, rd in m.items():
            d[l].update(rd)
        return LRGraph(lrgraph=d, **kw)
    return LRGraph(**kw)


@sub('C11', 'history', st.tuples(LRSTART, LROPS), quick=2000, thorough=40000,
     rule='after every operation both directions equal a dictionary model')
def lr_history(case):
    start, ops = case
    g = build_graph(start)
    m = model_of(start)
    origin = copy.deepcopy(m)
    check_graph(g, m, case)
    labels = set()
    frozen = False
    for op in ops:
        name = op[0]
        if name == 'add_word':
            w = op[1]
            g.add_eojeol(w, op[2])
            for e in range(1, len(w) + 1):
                if e <= start['lm'] and len(w) - e <= start['rm']:
                    model_add(m, w[:e], w[e:], op[2])
            labels.add('add')
        elif name == 'del_word':
            w = op[1]
            if isinstance(w, int):
                words = sorted({l + r for l, rd in m.items() for r in rd})
                if not words:
                    continue
                w = words[w % len(words)]
            g.remove_eojeol(w, op[2])
            for e in range(1, len(w) + 1):
                model_sub(m, w[:e], w[e:], op[2])
            labels.add('remove')
        elif name == 'add_pair':
            g.add_lr_pair(op[1], op[2], op[3])
            model_add(m, op[1], op[2], op[3])
            labels.add('add')
        elif name == 'del_pair':
            l, r = op[1], op[2]
            if isinstance(l, int):
                if not m:
                    continue
                l = sorted(m)[l % len(m)]
                r = sorted(m[l])[r % len(m[l])]
            g.remove_lr_pair(l, r, op[3])
            model_sub(m, l, r, op[3])
            labels.add('remove')
        elif name == 'reset':
            g.reset_lrgraph()
            if not frozen:
                m = copy.deepcopy(origin)
                labels.add('reset')
        elif name == 'reload':
            if frozen:
                continue
            path = os.path.join(scratch(), 'g', 'lr.txt')
            g.save(path)
            g = LRGraph(l_max_length=start['lm'], r_max_length=start['rm'])
            g.load(path)
            m = copy.deepcopy(origin)
            labels.add('reload')
        elif name == 'copy':
            if frozen:
                continue
            h = g.copy_compatified_lrgraph_origin()
            check_graph(h, origin, case)
            h.add_lr_pair('가', '나', 5)
            h.remove_eojeol('가나', 2)
            labels.add('copy')
        elif name == 'freeze':
            g.freeze()
            frozen = True
        elif name == 'top':
            left, right = op[1], op[1]
            if isinstance(left, int):
                rs = sorted({r for rd in m.values() for r in rd if r})
                left, right = (sorted(m)[left % len(m)] if m else '가'), (rs[left % len(rs)] if rs else '가')
            for f, key, full in ((g.get_r, left, m.get(left, {})),
                                 (g.get_l, right, {l: rd[right] for l, rd in m.items() if right in rd})):
                got = f(key) if op[2] is None else f(key, op[2])
                assert len(dict(got)) == len(got) == min(op[2] or 10, len(full)), (case, got, full)
                assert all(full[k] == n for k, n in got)
                assert [n for _, n in got] == sorted(full.values(), reverse=True)[:op[2] or 10], (case, got, full)
        check_graph(g, m, (op, case))
    return sorted(labels) or None


@sub('C11', 'load_lines', st.tuples(st.dictionaries(gen.word('가나', 1, 3), st.dictionaries(gen.word('가나', 0, 3), st.integers(1, 9), min_size=1, max_size=5), max_size=4),
                               st.randoms(use_true_random=False)), quick=500, thorough=8000,
     rule='a graph file means its lines, in any order of the right parts')
def load_lines(case):
    model, rnd = case
    path = os.path.join(scratch(), 'lines.txt')
    ls = list(model)
    rnd.shuffle(ls)
    with open(path, 'w', encoding='utf-8') as f:
        for l in ls:
            rs = list(model[l])
            rnd.shuffle(rs)
            for r in rs:
                f.write('%s %s %d\n' % (l, r, model[l][r]))
    g = LRGraph(lrgraph={'다': {'라': 3}})
    g.load(path)
    check_graph(g, model, case)
    assert g.get_r('다') == [] == g.get_l('라')
    g.add_eojeol('가나', 2)
    g.reset_lrgraph()
    check_graph(g, model, case)
    return 'several' if any(len(rd) > 1 for rd in model.values()) else None


@sub('C11', 'word_counts_back', st.tuples(LRSTART, st.lists(st.tuples(st.integers(0, 9), st.integers(1, 2)), max_size=3)),
     quick=800, thorough=20000, rule='the words of a graph and their counts are recovered, current and original')
def word_counts_back(case):
    start, removals = case
    g = build_graph(start)
    counts = Counter()
    if start['kind'] != 'empty':
        counts = Counter(w for s in start['sents'] for w in s.split()
                         if any(e <= start['lm'] and len(w) - e <= start['rm'] for e in range(1, len(w) + 1)))
    assert dict(g.to_EojeolCounter().items()) == dict(counts), case
    now = dict(counts)
    for i, n in removals:
        if now:
            w = sorted(now)[i % len(now)]
            g.remove_eojeol(w, n)
            now[w] -= n
            if now[w] <= 0:
                del now[w]
    assert dict(g.to_EojeolCounter().items()) == now, (case, now)
    c = g.to_EojeolCounter(reset_lrgraph=True)
    assert dict(c.items()) == dict(counts), case
    if counts:
        c.remove_covered_eojeols(set())
        assert c.coverage == 0
    return 'removed' if removals and counts else None


# ================================================================ C12
describe('C12', 'Small dense/sparse matrices (with zero, duplicate and parallel rows), item names, limits; '
         'text files for the file helpers. Non-trivial: at least three items.')

MAT = st.integers(2, 7).flatmap(lambda n: st.integers(2, 4).flatmap(lambda d: st.lists(
    st.lists(st.sampled_from([0, 0, 1, 2, -1, 0.5]), min_size=d, max_size=d), min_size=n, max_size=n)))


@sub('C12', 'most_similar', st.tuples(MAT, st.integers(-2, 8), st.integers(0, 9), st.booleans()),
     quick=2000, thorough=40000, rule='cosine ranking without the query, at most topk items, against a direct computation')
def similar(case):
    rows, topk, q, sparse = case
    n = len(rows)
    names = ['w%d' % i for i in range(n)]
    idx = {w: i for i, w in enumerate(names)}
    X = np.array(rows, dtype=float)
    query = 'w%d' % q
    got = most_similar(query, csr_matrix(X) if sparse else X, idx, names, topk)
    if q >= n:
        assert got == []
        return None

    def cos(a, b):
        na, nb = math.sqrt(sum(x * x for x in a)), math.sqrt(sum(x * x for x in b))
        return sum(x * y for x, y in zip(a, b)) / (na * nb) if na and nb else 0.0
    sims = {names[i]: cos(rows[q], rows[i]) for i in range(n) if i != q}
    want_len = min(topk, n - 1) if topk > 0 else n - 1
    assert len(got) == want_len and len({w for w, _ in got}) == want_len, (case, got)
    for w, s in got:
        assert w != query and abs(s - sims[w]) < 1e-6, (case, w, s, sims[w])
    best = sorted(sims.values(), reverse=True)[:want_len]
    assert all(abs(s - b) < 1e-6 for (_, s), b in zip(got, best)), (case, got, best)
    return 'ranked' if n >= 3 else None


@sub('C12', 'svd', st.tuples(st.integers(2, 7).flatmap(lambda d: st.tuples(st.just(d), st.lists(
    st.lists(st.sampled_from([0, 0, 1, 2, -1, 3]), min_size=d, max_size=d), min_size=d, max_size=9))),
    st.integers(1, 8), st.integers(0, 5)), quick=400, thorough=6000,
     rule='factor shapes, orthonormality, ordered singular values, best approximation, reproducible by seed')
def svd_check(case):
    (d, rows), k, seed = case
    X = csr_matrix(np.array(rows, dtype=float))
    if k >= d:
        try:
            svd(X, n_components=k, random_state=seed)
        except ValueError:
            return 'rejected'
        raise AssertionError('n_components %d accepted for %d columns' % (k, d))
    U, S, VT = svd(X, n_components=k, n_iter=8, random_state=seed)
    assert U.shape == (len(rows), k) and VT.shape == (k, d) and S.shape == (k,)
    assert all(S[i] >= S[i + 1] - 1e-7 for i in range(k - 1)) and all(S >= -1e-9)
    true = np.linalg.svd(np.array(rows, dtype=float), compute_uv=False)
    assert np.allclose(S, true[:k], atol=1e-3 * max(1, true[0])), (case, S, true)
    err = np.linalg.norm(X.toarray() - U @ np.diag(S) @ VT)
    opt = math.sqrt(sum(t * t for t in true[k:]))
    assert err <= opt + 1e-2 * max(1, true[0]), (case, err, opt)
    U2, S2, VT2 = svd(X, n_components=k, n_iter=8, random_state=seed)
    assert np.array_equal(U, U2) and np.array_equal(S, S2) and np.array_equal(VT, VT2)
    return 'factored' if true[0] > 0 else None


@sub('C12', 'sort_file', st.lists(st.one_of(gen.word('가나다ab', 0, 4), st.sampled_from(['', ' ', ' 가 ', '\t나'])), max_size=8),
     quick=300, thorough=3000, rule='a sorted file holds exactly the non-blank lines, stripped and ordered')
def sort_file(lines):
    path = os.path.join(scratch(), 's.txt')
    with open(path, 'w', encoding='utf-8') as f:
        f.write('\n'.join(lines))
    sort_by_alphabet(path)
    with open(path, encoding='utf-8') as f:
        got = f.read().split('\n')
    assert got[-1] == '' and got[:-1] == sorted(l.strip() for l in lines if l.strip()), (lines, got)
    return 'lines' if len(got) > 3 else None


@sub('C12', 'make_dirs', st.tuples(st.lists(st.sampled_from(['a', 'b', 'c d']), max_size=3), st.booleans()),
     quick=60, thorough=400, rule='the folder a result is to be written to exists afterwards')
def make_dirs(case):
    parts, again = case
    import tempfile
    base = tempfile.mkdtemp(dir=scratch())
    path = os.path.join(base, *parts, 'out.txt')
    check_dirs(path)
    if again:
        check_dirs(path)
    assert os.path.isdir(os.path.dirname(path)), path
    assert not os.path.exists(path)
    return 'nested' if parts else None


@sub('C12', 'public_names', cases=lambda tier: ['soynlp.utils', 'soynlp.normalizer'],
     rule='every name a package advertises can be imported')
def public_names(mod):
    import importlib
    m = importlib.import_module(mod)
    for name in getattr(m, '__all__', []):
        assert hasattr(m, name), (mod, name)
    return mod
