"""C39 log files tell what the extraction decided, and writing them changes nothing."""
import contextlib
import io
import os

from hypothesis import strategies as st

import agents
import gen
from agents import canon
from c_relations import CORPUS, near
from c_system import PARAMS, korean_corpus, stacked_corpus
from core import sub, describe, scratch
from soynlp.noun import LRNounExtractor_v2
from soynlp.noun._noun_postprocessing import check_N_is_NJ, detaching_features, ignore_features
from soynlp.predicator import EomiExtractor
from soynlp.utils import LRGraph

describe('C39', 'Corpora of nouns with particles and of predicates, limits, feature tables, post-processing steps, directories that exist or '
         'not, logs that exist already, one or two extractions of one object. Non-trivial: the log holds a word that was extracted and one '
         'that was not.')

MANY = st.tuples(st.integers(5, 60), st.lists(st.sampled_from(agents.JOSAS), min_size=1, max_size=4, unique=True), st.integers(1, 3)).map(
    lambda t: [' '.join(chr(0xAC00 + 28 * 7 * i) + '무늬'[:1 + i % 2] + j for j in t[1]) for i in range(t[0])] * t[2])
LOGGED = st.one_of(korean_corpus(10), korean_corpus(10), stacked_corpus(), MANY, CORPUS)
STEPS = st.lists(st.sampled_from(['detaching_features', 'ignore_features', 'ignore_NJ']), max_size=3, unique=True)


def read(path):
    with open(path, encoding='utf-8') as f:
        return f.read().split('\n')


def table(path, header):
    lines = read(path)
    assert lines[0] == header and lines[-1] == '', lines[:2]
    rows = [line.split(' ') for line in lines[1:-1]]
    out = {w: (float(a), float(b)) for w, a, b in rows}
    assert len(out) == len(rows), rows
    return out, [tuple(map(float, r[1:])) for r in rows]


def removed(path):
    lines = [line for line in read(path) if line]
    return [line for line in lines if line.startswith('## ')], [line for line in lines if not line.startswith('## ')]


def where(case, name):
    d = os.path.join(scratch(), *(['logs', 'of'] if case['deep'] else []))
    path = os.path.join(d, name)
    if case['deep']:
        for f in ('_prediction_score.log', '_postprocessing.log'):
            if os.path.exists(path + f):
                os.remove(path + f)
        for x in (d, os.path.dirname(d)):
            if os.path.isdir(x) and not os.listdir(x):
                os.rmdir(x)
    else:
        for f in ('_prediction_score.log', '_postprocessing.log', '_eomi_prediction_score.log'):
            with open(path + f, 'w', encoding='utf-8') as out:
                out.write('옛것 1 1\n## 옛것\n옛것\n')
    return path


NOUN_LOG = st.fixed_dictionaries(dict(corpus=LOGGED, other=LOGGED, p=PARAMS, deep=st.booleans(), steps=st.one_of(st.none(), STEPS), again=st.sampled_from(['no', 'no', 'limits', 'corpus'])))


@sub('C39', 'nouns', NOUN_LOG, quick=900, thorough=18000,
     rule='the logs hold every candidate with frequency and score, best first, and every word taken out; with them the result follows')
def nouns(case):
    p = case['p']
    c, d = ([s for s in case[k] if s.strip()] or ['나무는 나무가'] for k in ('corpus', 'other'))
    # the first extraction also writes, and the log is that of the last one
    kw = dict(predictor_headers=[agents.features(p)], verbose=False, min_num_of_features=p['n'], extract_compound=p['b'])
    if case['steps'] is not None:
        kw['postprocessing'] = case['steps']
    with contextlib.redirect_stdout(io.StringIO()):
        path = where(case, 'nouns')
        x, plain = LRNounExtractor_v2(logpath=path, **kw), LRNounExtractor_v2(**kw)
        lim = dict(min_noun_score=p['s'], min_noun_frequency=p['f'])
        if case['again'] == 'corpus':
            for y in (x, plain):
                y.train_extract(d)
        for y in (x, plain):
            y.train(c)
        if case['again'] == 'limits':
            for y in (x, plain):
                y.extract(min_noun_score=-1, min_noun_frequency=1)
        got, want = x.extract(**lim), plain.extract(**lim)
    assert canon(got) == canon(want), (case, got, want)
    scores, rows = table(path + '_prediction_score.log', 'noun score frequency')
    assert [b for _, b in rows] == sorted((b for _, b in rows), reverse=True), (case, rows)
    headers, gone = removed(path + '_postprocessing.log')
    assert len(headers) == len(x.postprocessing) and len(set(gone)) == len(gone), (case, headers, gone)
    gone = set(gone)
    base = {w: s for w, s in scores.items() if s[1] >= p['s'] and s[0] >= p['f']}
    assert not gone & set(got), (case, gone, got)
    if not p['b']:
        assert gone <= set(base), (case, gone, base)
        assert near(canon({w: (s.frequency, s.score) for w, s in got.items()}), canon({w: s for w, s in base.items() if w not in gone})), (case, base, gone, got)
    else:
        assert p['f'] > 1 or set(base) <= set(got) | gone, (case, base, gone, got)
    return ('removed' if gone else 'scored') if set(got) & set(scores) and set(scores) - set(got) else None


@sub('C39', 'endings', st.fixed_dictionaries(dict(corpus=st.one_of(stacked_corpus(), korean_corpus(10)), p=PARAMS, deep=st.just(False), twice=st.booleans())), quick=600, thorough=12000,
     rule='the log holds every candidate ending, best first; each extracted ending lies between the scores of those that passed')
def endings(case):
    p, c = case['p'], [s for s in case['corpus'] if s.strip()]
    stems = set(agents.VERBS + agents.ADJS[:p['k']])
    path = where(case, 'endings')
    make = lambda log: EomiExtractor(LRGraph(sents=c), stems, {'나무', '가'}, min_num_of_features=p['n'], verbose=False, logpath=log)
    x, plain = make(path), make(None)
    if case['twice']:
        x.extract(min_eomi_score=-1)
    got = x.extract(min_eomi_score=p['s'], min_eomi_frequency=p['f'])
    assert canon(got) == canon(plain.extract(min_eomi_score=p['s'], min_eomi_frequency=p['f'])), (case, got)
    scores, rows = table(path + '_eomi_prediction_score.log', 'eomi frequency score')
    assert [b for _, b in rows] == sorted((b for _, b in rows), reverse=True), (case, rows)
    words = {w for s in c for w in s.split()}
    rights = {w[i:] for w in words for i in range(1, min(len(w), 10)) if len(w) - i <= 9}
    assert {r for w in words for i in range(1, len(w)) for r in [w[i:]] if w[:i] in stems and r in rights} <= set(scores) <= rights | {''}, (case, scores)
    good = [s for _, s in scores.values() if s >= p['s']]
    for e, s in got.items():
        assert good and min(good) - 1e-9 <= s.score <= max(good) + 1e-9, (case, e, s, good)
    return 'logged' if got and len(good) < len(scores) else None


TAILS = ['에서', '에게', '까지', '는', '가', '으로', '부터']
HEADS = ['나무', '하늘', '가', '에서', '까지', '나']


@sub('C39', 'steps', st.fixed_dictionaries(dict(
    nouns=st.lists(st.tuples(st.sampled_from(HEADS + ['나무하늘']), st.lists(st.sampled_from(TAILS), max_size=4), st.booleans(), st.integers(1, 9), gen.EIGHTHS), min_size=1, max_size=6).map(
        lambda t: {h + r: (n + i % 3 if r else n + 2, s) for h, tails, bare, n, s in t for i, r in enumerate([''] * bare + tails)}),
    features=st.sets(st.sampled_from(TAILS + ['나']), min_size=1), step=st.sampled_from(['detach', 'ignore', 'nj']), heading=st.sampled_from([None, '## 제목']), old=st.booleans(), twice=st.booleans())),
     quick=600, thorough=15000, rule='each step adds exactly the words it takes out to its log, below a heading, and keeps what is there')
def steps(case):
    path = os.path.join(scratch(), 'steps.log')
    if os.path.exists(path):
        os.remove(path)
    if case['old']:
        with open(path, 'w', encoding='utf-8') as f:
            f.write('## 옛것\n옛것\n')
    graph = LRGraph(sents=[' '.join(h + t for h in HEADS for t in TAILS + ['은', '이', '를', '의'])])
    f = dict(detach=lambda log: detaching_features(case['nouns'], case['features'], log, case['heading']),
             ignore=lambda log: ignore_features(case['nouns'], case['features'], log, case['heading']),
             nj=lambda log: check_N_is_NJ(case['nouns'], graph, 3, log, case['heading']))[case['step']]
    with contextlib.redirect_stdout(io.StringIO()):
        kept, gone = f(None)
        assert not os.path.exists(path) or case['old'], case
        for _ in range(2 if case['twice'] else 1):
            assert f(path) == (kept, gone), case
    headers, words = removed(path)
    n = 2 if case['twice'] else 1
    assert sorted(words) == sorted(list(gone) * n + ['옛것'] * case['old']), (case, words, gone)
    assert len(headers) == n + case['old'] and (not case['heading'] or headers[-1] == case['heading']), (case, headers)
    assert set(kept) | set(gone) == set(case['nouns']) and not set(kept) & set(gone) and all(kept[w] == case['nouns'][w] for w in kept), (case, kept, gone)
    return case['step'] if gone else None
