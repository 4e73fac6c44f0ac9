"""C13 word statistics, C14 word extraction life cycle, C15 PMI, C16 bigrams."""
import math
import os
import pickle
from collections import Counter

import numpy as np
from hypothesis import strategies as st
from scipy.sparse import csr_matrix

from core import sub, describe, scratch
import gen
from soynlp.word import WordExtractor, pmi, Bigram
from soynlp.word._pmi import pmi_memory_friendly

CORPUS = gen.corpus('가나다', max_len=6, pool=8, max_sents=10, max_words=6)
TIGHT = gen.corpus('가나', max_len=5, pool=6, max_sents=10, max_words=6)
CHAINED = gen.chained_corpus()
CFG = dict(ml=st.integers(1, 5), mr=st.integers(1, 5), mf=st.integers(1, 4))


class Stats:
    """What the corpus says, counted directly."""

    def __init__(self, ml, mr, mf):
        self.ml, self.mr, self.mf = ml, mr, mf
        self.L, self.R, self.aL, self.aR = Counter(), Counter(), Counter(), Counter()

    def train(self, sents, cumulate=True):
        if not cumulate:
            self.__init__(self.ml, self.mr, self.mf)
        for s in sents:
            ws = s.split()
            for w in ws:
                n = len(w)
                if n == 1:
                    continue
                for i in range(1, n + 1):
                    if i <= self.ml + 1:
                        self.L[w[:i]] += 1
                for i in range(1, n):
                    if i <= self.mr:
                        self.R[w[n - i:]] += 1
            if len(ws) < 2:
                continue
            for k, w in enumerate(ws):
                nxt, prv = ws[(k + 1) % len(ws)][0], ws[k - 1][-1]
                self.aL[(w, nxt)] += 1
                self.aR[(prv, w)] += 1
                for i in range(1, len(w)):
                    if i <= self.mr:
                        self.aL[(w[len(w) - i:], nxt)] += 1
                    if i <= self.ml:
                        self.aR[(prv, w[:i])] += 1
        self.L = Counter({w: c for w, c in self.L.items() if c >= self.mf})
        self.R = Counter({w: c for w, c in self.R.items() if c >= self.mf})
        self.aL = Counter({w: c for w, c in self.aL.items() if c > 1})
        self.aR = Counter({w: c for w, c in self.aR.items() if c > 1})
        return self

    def words(self):
        return {w for w in self.L if len(w) <= self.ml} | {w for w in self.R if len(w) <= self.mr}

    def right(self, w):
        """continuations of w: inside a word, or the first letter of the next word"""
        return [c for x, c in self.L.items() if x[:-1] == w] + [c for (x, _), c in self.aL.items() if x == w]

    def left(self, w):
        return [c for x, c in self.R.items() if x[1:] == w] + [c for (_, x), c in self.aR.items() if x == w]

    def cohesion(self, w):
        if len(w) < 2:
            return (0, 0)
        f = (self.L[w] / self.L[w[0]]) ** (1 / (len(w) - 1)) if self.L[w] else 0
        b = (self.R[w] / self.R[w[-1]]) ** (1 / (len(w) - 1)) if self.R[w] else 0
        return (f, b)

    def scores(self, w):
        """The bulk table: left neighbours up to max_right_length, right neighbours up to max_left_length."""
        c = self.cohesion(w)
        left = self.left(w) if len(w) <= self.mr else []
        right = self.right(w) if len(w) <= self.ml else []
        return (c[0], c[1], entropy(left), entropy(right), len(left), len(right), self.L[w], self.R[w])


def entropy(freqs):
    t = sum(freqs)
    return -sum(f / t * math.log(f / t) for f in freqs) if freqs else 0.0


def close(a, b):
    return abs(a - b) < 1e-9


def same_scores(a, b):
    return all(close(x, y) for x, y in zip(a, b)) and len(a) == len(b)


def extractor(case, **kw):
    return WordExtractor(max_left_length=case['ml'], max_right_length=case['mr'],
                         min_frequency=case['mf'], verbose_points=case.get('verbose', 0), **kw)


# ================================================================ C13
describe('C13', 'Corpora over two or three syllables with recurring words of up to 6 letters; all length limits '
         'from 1 to 5 and frequency thresholds from 1 to 4. Non-trivial: at least one multi-letter word keeps a score.')

STATCASE = st.fixed_dictionaries(dict(sents=st.one_of(CORPUS, TIGHT, CHAINED), verbose=st.sampled_from([0, 0, 1, 3, -1]), **CFG))


@sub('C13', 'bulk_scores', STATCASE, quick=700, thorough=15000,
     rule='words and all eight statistics of every word against a direct count of the corpus')
def bulk_scores(case):
    ex = extractor(case)
    ex.train(case['sents'])
    ref = Stats(case['ml'], case['mr'], case['mf']).train(case['sents'])
    assert set(ex.words()) == ref.words(), (case, ex.words() ^ ref.words())
    got = ex.word_scores()
    assert set(got) == ref.words()
    for w, s in got.items():
        want = ref.scores(w)
        assert same_scores(tuple(s), want), (case, w, tuple(s), want)
        assert 0 <= s.cohesion_forward <= 1 + 1e-12 and 0 <= s.cohesion_backward <= 1 + 1e-12
        assert (s.leftside_frequency == ref.L[w]) and s.rightside_frequency == ref.R[w]
    return 'scored' if any(len(w) > 1 for w in got) else None


@sub('C13', 'single_equals_bulk', STATCASE, quick=400, thorough=8000,
     rule='asking for one word gives the same numbers as the bulk computation; unknown words score zero')
def single_equals_bulk(case):
    ex = extractor(case)
    ex.train(case['sents'])
    ref = Stats(case['ml'], case['mr'], case['mf']).train(case['sents'])
    bulk = ex.word_scores()
    for w in set(bulk) | {'가나다라마', '하', '하하', ''}:
        c, b, a, f = ex.cohesion_score(w), ex.branching_entropy(w), ex.accessor_variety(w), ex.frequency(w)
        if w in bulk:
            s = bulk[w]
            assert same_scores(tuple(c) + tuple(f), (s.cohesion_forward, s.cohesion_backward,
                                                     s.leftside_frequency, s.rightside_frequency)), (case, w, c, f, s)
            if len(w) <= case['mr']:
                assert same_scores((b[0], a[0]), (s.left_branching_entropy, s.left_accessor_variety)), (case, w, b, a, s)
            if len(w) <= case['ml']:
                assert same_scores((b[1], a[1]), (s.right_branching_entropy, s.right_accessor_variety)), (case, w, b, a, s)
        else:
            if w and ref.L[w] == 0 and ref.R[w] == 0:
                assert tuple(c) == (0, 0) and tuple(f) == (0, 0)
    cps = ex.all_cohesion_scores()
    assert {w for w in cps} == {w for w in bulk if ref.cohesion(w) != (0, 0)}, case
    return 'scored' if any(len(w) > 1 for w in bulk) else None


@sub('C13', 'order_free', st.tuples(STATCASE, st.integers(0, 10 ** 6)), quick=300, thorough=6000,
     rule='the order of the sentences does not matter')
def order_free(case):
    case0, key = case
    sents = list(case0['sents'])
    perm = sorted(range(len(sents)), key=lambda i: (i * 7919 + key) % 10007)
    a, b = extractor(case0), extractor(case0)
    a.train(sents)
    b.train([sents[i] for i in perm])
    sa, sb = a.word_scores(), b.word_scores()
    assert set(sa) == set(sb) and all(same_scores(tuple(sa[w]), tuple(sb[w])) for w in sa), case
    return 'permuted' if perm != sorted(perm) and sa else None


# ================================================================ C14
describe('C14', 'As C13, plus every selection threshold, sub-word removal, repeated (cumulative or fresh) training, '
         'pruning while training, and save/load in the middle of a history. Non-trivial: selection keeps some and '
         'drops some words, or the history has at least two trainings.')

THRESH = dict(min_cohesion_forward=st.sampled_from([0.0, 0.05, 0.3, 0.5, 0.7]),
              min_cohesion_backward=st.sampled_from([0.0, 0.0, 0.3, 0.6]),
              min_left_branching_entropy=st.sampled_from([0.0, 0.0, 0.5]),
              min_right_branching_entropy=st.sampled_from([0.0, 0.0, 0.5, 0.9]),
              min_left_accessor_variety=st.sampled_from([0, 0, 1, 2]),
              min_right_accessor_variety=st.sampled_from([0, 0, 1, 2]),
              max_droprate_leftside_frequency=st.sampled_from([0.3, 0.5, 0.7, 0.98]),
              remove_subwords=st.booleans())
EXTRACT = st.fixed_dictionaries(dict(sents=st.one_of(CORPUS, TIGHT, CHAINED, CHAINED), th=st.fixed_dictionaries(THRESH), **CFG))


def near(a, b):
    return abs(a - b) < 1e-9


def ref_extract(ref, th):
    """Selected words; None when a score sits on a threshold (float rounding decides)."""
    keep = set()
    for w in sorted(ref.words(), key=len):
        cf, cb, ble, bre, la, ra, lf, rf = ref.scores(w)
        checks = [(cf, th['min_cohesion_forward'], len(w) > 1), (cb, th['min_cohesion_backward'], len(w) > 1),
                  (ble, th['min_left_branching_entropy'], True), (bre, th['min_right_branching_entropy'], True)]
        if any(on and t > 0 and near(v, t) for v, t, on in checks):
            return None
        if any(on and v < t for v, t, on in checks):
            continue
        if la < th['min_left_accessor_variety'] or ra < th['min_right_accessor_variety']:
            continue
        if max(lf, rf) < ref.mf:
            continue
        keep.add(w)
        if th['remove_subwords'] and len(w) > 1 and w[:-1] in keep and ref.L[w[:-1]]:
            ratio = lf / ref.L[w[:-1]]
            if near(ratio, th['max_droprate_leftside_frequency']):
                return None
            if ratio > th['max_droprate_leftside_frequency']:
                keep.discard(w[:-1])
    return keep


@sub('C14', 'selection', EXTRACT, quick=800, thorough=15000,
     rule='the extracted words are exactly those meeting every threshold, with their scores')
def selection(case):
    ex = extractor(case, **case['th'])
    ex.train(case['sents'])
    ref = Stats(case['ml'], case['mr'], case['mf']).train(case['sents'])
    got = ex.extract()
    for w, s in got.items():
        assert same_scores(tuple(s), ref.scores(w)), (case, w)
    want = ref_extract(ref, case['th'])
    if want is None:
        return None
    assert set(got) == want, (case, set(got) ^ want)
    again = ex.extract(scores=ex.word_scores())
    assert set(again) == want and all(same_scores(tuple(again[w]), tuple(got[w])) for w in want)
    return 'selective' if 0 < len(want) < len(ref.words()) else None


PREFIXES = st.lists(st.tuples(st.integers(1, 5), st.sampled_from([1, 2, 3, 5, 8, 13, 40])), min_size=2, max_size=7)


@sub('C14', 'absorbed_prefixes', st.fixed_dictionaries(dict(
        words=PREFIXES, extra=st.lists(gen.word('가나', 1, 4), max_size=4), ml=st.integers(2, 6), mr=st.integers(1, 5),
        mf=st.integers(1, 3), rate=st.sampled_from([0.2, 0.4, 0.6, 0.8, 0.98]),
        cf=st.sampled_from([0.0, 0.0, 0.3]))), quick=600, thorough=10000,
     rule='with sub-word removal a prefix goes exactly when the word one letter longer keeps enough of its frequency')
def absorbed_prefixes(case):
    sents = ['가나다라마'[:n] for n, k in case['words'] for _ in range(k)] + case['extra']
    th = dict(min_cohesion_forward=case['cf'], min_cohesion_backward=0.0, min_left_branching_entropy=0.0,
              min_right_branching_entropy=0.0, min_left_accessor_variety=0, min_right_accessor_variety=0,
              max_droprate_leftside_frequency=case['rate'], remove_subwords=True)
    ex = extractor(case, **th)
    ex.train(sents)
    ref = Stats(case['ml'], case['mr'], case['mf']).train(sents)
    want = ref_extract(ref, th)
    if want is None:
        return None
    got = ex.extract()
    assert set(got) == want, (case, set(got) ^ want)
    return 'absorbed' if want != ref_extract(ref, dict(th, remove_subwords=False)) else None


HISTORY = st.fixed_dictionaries(dict(
    steps=st.lists(st.one_of(
        st.tuples(st.just('train'), st.one_of(TIGHT, CHAINED), st.booleans()),
        st.tuples(st.just('reload'))), min_size=1, max_size=4), th=st.fixed_dictionaries(THRESH), **CFG))


@sub('C14', 'history', HISTORY, quick=500, thorough=10000,
     rule='cumulative and fresh training and save/load follow the counting model')
def history(case):
    ex = extractor(case, **case['th'])
    ref = Stats(case['ml'], case['mr'], case['mf'])
    n = 0
    for step in case['steps']:
        if step[0] == 'train':
            ex.train(step[1], cumulate=step[2])
            ref.train(step[1], cumulate=step[2])
            n += 1
        elif n:
            path = os.path.join(scratch(), 'w.model')
            ex.save(path)
            before = ex.extract()
            ex = WordExtractor(verbose_points=0)
            ex.load(path)
            after = ex.extract()
            assert set(before) == set(after) and all(
                same_scores(tuple(before[w]), tuple(after[w])) for w in before), case
            n += 1
        got = ex.word_scores()
        assert set(got) == ref.words(), (case, set(got) ^ ref.words())
        for w in got:
            assert same_scores(tuple(got[w]), ref.scores(w)), (case, w, tuple(got[w]), ref.scores(w))
    return 'history' if n > 1 and ref.words() else None


@sub('C14', 'pruning_bounds', st.tuples(st.fixed_dictionaries(dict(sents=st.one_of(TIGHT, CHAINED), **CFG)), st.integers(1, 4)),
     quick=300, thorough=6000,
     rule='pruning during training never inflates a count and keeps scores well defined')
def pruning_bounds(case):
    case0, every = case
    ex = extractor(case0)
    ex.train(case0['sents'], num_for_pruning=every)
    ref = Stats(case0['ml'], case0['mr'], case0['mf']).train(case0['sents'])
    got = ex.word_scores()
    assert set(got) <= ref.words()
    for w, s in got.items():
        assert 0 <= s.leftside_frequency <= ref.L[w] and 0 <= s.rightside_frequency <= ref.R[w], (case, w)
        assert max(s.leftside_frequency, s.rightside_frequency) >= case0['mf']
        assert 0 <= s.cohesion_forward <= 1 + 1e-12 and 0 <= s.cohesion_backward <= 1 + 1e-12
    return 'pruned' if got else None


@sub('C14', 'constructor_trains', st.fixed_dictionaries(dict(sents=TIGHT, **CFG)), quick=100, thorough=2000,
     rule='giving the corpus to the constructor is the same as training on it')
def constructor_trains(case):
    a = WordExtractor(case['sents'], max_left_length=case['ml'], max_right_length=case['mr'],
                      min_frequency=case['mf'], verbose_points=0)
    b = extractor(case)
    b.train(case['sents'])
    sa, sb = a.word_scores(), b.word_scores()
    assert set(sa) == set(sb) and all(same_scores(tuple(sa[w]), tuple(sb[w])) for w in sa)
    return 'scored' if sa else None


# ================================================================ C15
describe('C15', 'Sparse count matrices (duplicates, explicit zeros, empty rows and columns), external context '
         'probabilities, every smoothing and threshold combination. Non-trivial: a kept and a dropped cell.')

MATRIX = st.tuples(st.integers(1, 6), st.integers(1, 6)).flatmap(lambda t: st.tuples(
    st.just(t), st.lists(st.tuples(st.integers(0, t[0] - 1), st.integers(0, t[1] - 1),
                                   st.sampled_from([1, 1, 2, 3, 5, 8, 0])), min_size=1, max_size=16),
    st.tuples(st.lists(st.integers(1, 9), min_size=t[1], max_size=t[1]), st.sampled_from([1, 1, 0.3, 4]))))
PMICASE = st.fixed_dictionaries(dict(
    m=MATRIX, use_py=st.booleans(), min_pmi=st.sampled_from([0, 0, 0.3, 0.7, 1.1, -0.4, -2.0, -6.0]),
    alpha=st.sampled_from([0.0, 0.0, 0.01, 0.2, 1.0, 2.5]), beta=st.sampled_from([1, 1, 0.75, 0.5]), float=st.booleans()))


def build_matrix(case):
    (n, m), cells, (pyw, scale) = case['m']
    X = csr_matrix((np.array([c for _, _, c in cells], dtype=float if case['float'] else int),
                    ([r for r, _, _ in cells], [c for _, c, _ in cells])), shape=(n, m))
    D = np.zeros((n, m))
    for r, c, v in cells:
        D[r, c] += v
    py = scale * np.array([pyw], dtype=float) / sum(pyw) if case['use_py'] else None
    return X, D, py


def check_pmi(case, fn):
    X, D, py = build_matrix(case)
    if D.sum() == 0:
        return None
    before = X.toarray().copy()
    pyb = None if py is None else py.copy()
    got, px_, py_ = fn(X, py=py, min_pmi=case['min_pmi'], alpha=case['alpha'], beta=case['beta'])
    total = D.sum()
    px = D.sum(axis=1) / total
    q = (D.sum(axis=0) / total) if py is None else py[0]
    if case['beta'] < 1:
        q = q ** case['beta']
        q = q / q.sum()
    assert np.allclose(np.asarray(px_).ravel(), px) and np.allclose(np.asarray(py_).ravel(), q), (case, px_, py_)
    assert got.shape == D.shape, (case, got.shape)
    G = got.toarray()
    kept = dropped = 0
    for i in range(D.shape[0]):
        for j in range(D.shape[1]):
            if D[i, j] == 0:
                assert G[i, j] == 0, (case, i, j, G[i, j])
                continue
            want = math.log(D[i, j] / total / (px[i] * (q[j] + case['alpha'])))
            if abs(want - case['min_pmi']) < 1e-9:
                assert abs(G[i, j] - want) < 1e-9 or G[i, j] == 0
            elif want >= case['min_pmi']:
                assert abs(G[i, j] - want) < 1e-9, (case, i, j, G[i, j], want)
                kept += 1
            else:
                assert G[i, j] == 0, (case, i, j, G[i, j], want)
                dropped += 1
    assert np.array_equal(X.toarray(), before) and (py is None or np.array_equal(py, pyb)), 'input changed'
    return 'mixed' if kept and dropped else ('kept' if kept and D.shape[0] > 1 else None)


@sub('C15', 'pmi', PMICASE, quick=1500, thorough=30000, rule='every cell against log p(x,y)/(p(x)(p(y)+alpha))')
def pmi_check(case):
    return check_pmi(case, pmi)


@sub('C15', 'pmi_low_memory', PMICASE, quick=800, thorough=15000, rule='the memory-friendly variant computes the same matrix')
def pmi_low_memory(case):
    return check_pmi(case, pmi_memory_friendly)


# ================================================================ C16
describe('C16', 'Sentences with recurring words, frequency thresholds, pruning checkpoints, the three scores, '
         'score thresholds and topk. Non-trivial: some bigram is extracted and some is not.')

BIG = st.fixed_dictionaries(dict(
    sents=st.one_of(gen.pooled_sentences(['가', '나', '가나', '나가가', '다'], 3, 12, 7, 2),
                    gen.repeated(gen.pooled_sentences(['가', '나', '가나', '다', '나가가'], 2, 6, 5, 2)), gen.corpus('가나', max_len=3)),
    mf=st.sampled_from([1, 1, 2, 2, 3, 4]), cp=st.sampled_from([100000, 0, 1, 2, 3]), score=st.sampled_from(['frequency', 'pmi', 'mikolov']),
    topk=st.sampled_from([-1, -1, 0, 1, 2, 5]), th=st.sampled_from([0, 0, 0.1, 0.4, 1, 2, 5, -1, 20]),
    verbose=st.booleans(), chars=st.booleans(), ctor=st.booleans()))


@sub('C16', 'scores', BIG, quick=2000, thorough=40000, rule='counts, scores, thresholds and topk against the definition')
def bigram(case):
    tok = (lambda s: list(s.replace(' ', ''))) if case['chars'] else None
    kw = dict(min_frequency=case['mf'], verbose=case['verbose'], score=case['score'],
              filtering_checkpoint=case['cp'], tokenizer=tok)
    if case['ctor']:
        b = Bigram(case['sents'], **kw)
    else:
        b = Bigram(**kw)
        b.train(case['sents'])
    got = b.extract(topk=case['topk'], threshold=case['th'])
    count = {}
    for i, s in enumerate(case['sents']):
        if case['cp'] > 0 and i % case['cp'] == 0:
            count = {k: v for k, v in count.items() if v >= case['mf']}
        ws = tok(s) if tok else s.split()
        for p in zip(ws, ws[1:]):
            count[p] = count.get(p, 0) + 1
    count = {k: v for k, v in count.items() if v >= case['mf']}
    uni = Counter()
    for (x, y), v in count.items():
        uni[x] += v
        uni[y] += v
    N = sum(uni.values())

    def score(p):
        v = count[p]
        if case['score'] == 'frequency':
            return v
        base = uni[p[0]] * uni[p[1]]
        return math.log(N * v / base) if case['score'] == 'pmi' else (v - case['mf']) / base
    full = {p: score(p) for p in count}
    if any(abs(s - case['th']) < 1e-9 and s != case['th'] for s in full.values()):
        return None
    ok = {p: s for p, s in full.items() if s >= case['th']}
    k = min(case['topk'], len(ok)) if case['topk'] > 0 else len(ok)
    assert len(got) == k, (case, got, ok)
    for p, ns in got.items():
        assert p in ok and ns.frequency == count[p] and abs(ns.score - ok[p]) < 1e-9, (case, p, ns, ok.get(p))
    best = sorted(ok.values(), reverse=True)[:k]
    assert all(abs(a - b_) < 1e-9 for a, b_ in zip(sorted((v.score for v in got.values()), reverse=True), best)), (case, got)
    return case['score'] if got and len(got) < len(full) else None
