"""C17 document vectorizer, C18 word-context matrix."""
import os
from collections import Counter

import numpy as np
from hypothesis import strategies as st
from scipy.io import mmread

from core import sub, describe, scratch
import gen
from soynlp.vectorizer import BaseVectorizer, sent_to_word_contexts_matrix

describe('C17', 'Documents of recurring words (Korean, lower and upper case latin), empty documents and empty corpora, '
         'minimum/maximum term and document frequencies, stop words, case folding, four tokenizers. Non-trivial: '
         'the vocabulary is a proper non-empty subset of the terms seen, or a term occurs twice in a document.')

VOC = ['가', '나다', '가나', '라', 'aB', 'ab', 'AB', '다다', '\xa0x', '마바']
TOKENIZERS = {
    'split': lambda d: d.split(),
    'blank': lambda d: d.split(' '),
    'chars': lambda d: list(d.replace(' ', '')),
    'pairs': lambda d: tuple(zip(d.split(' '), d.split(' ')[1:])),
}
DOC = st.lists(st.sampled_from(VOC), max_size=8).map(' '.join)
LONGDOC = st.lists(st.tuples(st.sampled_from(VOC), st.sampled_from([1, 2, 700, 1300])), max_size=4).map(
    lambda t: ' '.join(w for w, k in t for _ in range(k)))
DOCS = st.one_of(st.lists(DOC, max_size=9), st.lists(DOC, max_size=9), st.lists(DOC, max_size=9),
                 st.lists(st.one_of(DOC, LONGDOC), max_size=3),
                 st.tuples(st.lists(DOC, min_size=1, max_size=3), st.sampled_from([40, 350, 520])).map(lambda t: t[0] * t[1]))
VEC = st.fixed_dictionaries(dict(
    docs=DOCS, more=DOCS, tok=st.sampled_from(['split', 'split', 'blank', 'chars', 'pairs']),
    min_tf=st.sampled_from([0, 0, 1, 2, 3]), max_tf=st.sampled_from([99999999, 99999999, 4, 7]),
    min_df=st.sampled_from([0, 0, 0.25, 0.5, 0.75]), max_df=st.sampled_from([1.0, 1.0, 0.75, 0.5, 0.25]),
    stop=st.sampled_from([None, [], ['가'], ['ab', '나다'], ['AB', 'aB']]), lower=st.booleans(),
    verbose=st.booleans()))


def vectorizer(case):
    return BaseVectorizer(tokenizer=TOKENIZERS[case['tok']], min_tf=case['min_tf'], max_tf=case['max_tf'],
                          min_df=case['min_df'], max_df=case['max_df'],
                          stopwords=None if case['stop'] is None else set(case['stop']),
                          lowercase=case['lower'], verbose=case['verbose'])


def terms_of(case, doc):
    """What the user asked for: tokens, folded to lower case if asked, without stop words."""
    out = []
    for t in TOKENIZERS[case['tok']](doc):
        if case['lower'] and isinstance(t, str):
            t = t.lower()
        if t in (case['stop'] or []):
            continue
        out.append(t)
    return out


def vocabulary(case):
    tf, df, n = Counter(), Counter(), len(case['docs'])
    for d in case['docs']:
        ts = terms_of(case, d)
        tf.update(ts)
        df.update(set(ts))
    lo, hi = int(n * case['min_df']), int(n * case['max_df'])
    return tf, {t for t in tf if case['min_tf'] <= tf[t] <= case['max_tf'] and lo <= df[t] <= hi}


def check_vocabulary(case, v):
    tf, voc = vocabulary(case)
    assert set(v.vocabulary_) == voc, (case, set(v.vocabulary_) ^ voc)
    assert sorted(v.vocabulary_.values()) == list(range(len(voc))), 'indices are not 0..n-1'
    assert v.idx2vocab == sorted(voc, key=v.vocabulary_.get) == v.vocabs() and v.n_vocabs == len(v) == len(voc)
    freqs = [tf[t] for t in v.idx2vocab]
    assert freqs == sorted(freqs, reverse=True), 'terms are not ordered by frequency'
    return tf, voc


def expected_matrix(case, v, docs):
    M = np.zeros((len(docs), len(v.vocabulary_)), dtype=int)
    for i, d in enumerate(docs):
        for t in terms_of(case, d):
            if t in v.vocabulary_:
                M[i, v.vocabulary_[t]] += 1
    return M


@sub('C17', 'fit_transform', VEC, quick=2500, thorough=40000,
     rule='vocabulary against a direct count with all filters; matrix cell = occurrences of the term in the document')
def fit_transform(case):
    v = vectorizer(case)
    x = v.fit_transform(case['docs'])
    tf, voc = check_vocabulary(case, v)
    M = expected_matrix(case, v, case['docs'])
    assert x.shape == M.shape and np.array_equal(x.toarray(), M), (case, x.toarray(), M)
    y = v.transform(case['more'])
    N = expected_matrix(case, v, case['more'])
    assert y.shape == N.shape and np.array_equal(y.toarray(), N), (case, y.toarray(), N)
    z = vectorizer(case).fit(case['docs'])
    assert z.vocabulary_ == v.vocabulary_
    if voc and (len(voc) < len(tf) or (M > 1).any()):
        return ['filtered'] if len(voc) < len(tf) else ['repeated']


@sub('C17', 'file', VEC, quick=600, thorough=10000,
     rule='the Matrix Market file holds the same matrix as transform, and its header counts match its body')
def matrix_file(case):
    v = vectorizer(case)
    path = os.path.join(scratch(), 'sub%d' % (len(case['docs']) % 3), 'x.mtx')
    if case['verbose']:
        v.fit_to_file(case['docs'], path)
        check_vocabulary(case, v)
        docs = case['docs']
    else:
        v.fit(case['docs'])
        docs = case['more']
        v.to_file(docs, path)
    M = expected_matrix(case, v, docs)
    with open(path, encoding='utf-8') as f:
        lines = [l for l in f.read().split('\n') if l and not l.startswith('%')]
    assert lines[0] == '%d %d %d' % (M.shape[0], M.shape[1], len(lines) - 1), (case, lines[0])
    assert len(lines) - 1 == (M > 0).sum()
    if 0 in M.shape:
        return None
    got = mmread(path).toarray()
    assert got.shape == M.shape and np.array_equal(got, M), (case, got, M)
    return 'written' if M.any() else None


@sub('C17', 'encode_decode', VEC, quick=1500, thorough=20000,
     rule='encoding then decoding one document keeps exactly the known terms, in order (list) or with counts (bow)')
def encode_decode(case):
    v = vectorizer(case)
    v.fit(case['docs'])
    x = v.transform(case['more']).toarray() if case['more'] else None
    some = False
    for i, d in enumerate(case['more']):
        known = [t for t in terms_of(case, d) if t in v.vocabulary_]
        ids = v.encode_a_doc_to_list(d)
        assert ids == [v.vocabulary_[t] for t in known] and v.decode_from_list(ids) == known, (case, d, ids)
        bow = v.encode_a_doc_to_bow(d)
        assert bow == {v.vocabulary_[t]: c for t, c in Counter(known).items()}, (case, d, bow)
        assert v.decode_from_bow(bow) == dict(Counter(known))
        assert {j: int(c) for j, c in enumerate(x[i]) if c} == bow
        some |= bool(known)
    n = len(v)
    assert v.decode_from_list([-1, n, n + 5]) == [] and v.decode_from_bow({-1: 3, n: 1}) == {}
    return 'encoded' if some else None


@sub('C17', 'save_load', VEC, quick=600, thorough=8000, rule='a saved and loaded vocabulary encodes every document as before')
def save_load(case):
    if case['tok'] == 'pairs':
        return None
    v = vectorizer(case)
    v.fit(case['docs'])
    path = os.path.join(scratch(), 'v' if case['verbose'] else 'v.vocab')
    v.save(path)
    w = vectorizer(case)
    w.load(path)
    assert os.path.exists(os.path.join(scratch(), 'v.vocab'))
    assert w.vocabulary_ == v.vocabulary_ and w.idx2vocab == v.idx2vocab and len(w) == len(v), (case, w.idx2vocab, v.idx2vocab)
    for d in case['docs'] + case['more']:
        assert w.encode_a_doc_to_list(d) == v.encode_a_doc_to_list(d)
    assert np.array_equal(w.transform(case['more']).toarray(), v.transform(case['more']).toarray())
    return 'reloaded' if len(v) else None


# ================================================================ C18
describe('C18', 'Sentences of recurring words, window sizes 1 to 12, frequency thresholds, flat and distance-decaying '
         'weights, two tokenizers, empty corpora. Non-trivial: a pair co-occurs and a word or a pair outside the window is left out.')
WC = st.fixed_dictionaries(dict(
    sents=st.one_of(gen.corpus('가나다', max_len=2, pool=7, max_sents=7, max_words=9, min_sents=0),
                    gen.corpus('가나다', max_len=2, pool=9, max_sents=4, max_words=24),
                    gen.repeated(gen.corpus('가나다', max_len=2, pool=7, max_sents=4, max_words=9))),
    windows=st.sampled_from([1, 2, 3, 4, 5, 6, 7, 9, 12]), min_tf=st.integers(1, 4), dyn=st.booleans(), verbose=st.booleans(), chars=st.booleans()))


def context_matrix(case, sents):
    kw = {}
    if case['chars']:
        kw['tokenizer'] = lambda s: list(s.replace(' ', ''))
    return sent_to_word_contexts_matrix(sents, windows=case['windows'], min_tf=case['min_tf'],
                                        dynamic_weight=case['dyn'], verbose=case['verbose'], **kw)


@sub('C18', 'counts', WC, quick=2500, thorough=40000,
     rule='every cell against a direct scan of all position pairs; one row and one column per frequent word; symmetric')
def context_counts(case):
    x, voc = context_matrix(case, case['sents'])
    toks = [list(s.replace(' ', '')) if case['chars'] else s.split() for s in case['sents']]
    tf = Counter(t for ts in toks for t in ts)
    keep = {t for t in tf if tf[t] >= case['min_tf']}
    assert set(voc) == keep and len(voc) == len(keep), (case, voc)
    assert [tf[t] for t in voc] == sorted((tf[t] for t in voc), reverse=True)
    assert x.shape == (len(voc), len(voc)), (case, x.shape, len(voc))
    idx = {t: i for i, t in enumerate(voc)}
    M = np.zeros((len(voc), len(voc)))
    out = False
    for ts in toks:
        for i in range(len(ts)):
            for j in range(len(ts)):
                d = abs(i - j)
                if i == j or ts[i] not in idx or ts[j] not in idx:
                    continue
                if d > case['windows']:
                    out = True
                    continue
                M[idx[ts[i]], idx[ts[j]]] += (case['windows'] - d + 1) / case['windows'] if case['dyn'] else 1
    got = x.toarray()
    assert np.allclose(got, M), (case, got, M)
    assert np.allclose(got, got.T)
    if M.any() and (out or len(keep) < len(tf)):
        return 'decaying' if case['dyn'] else 'flat'


@sub('C18', 'additive', st.tuples(WC, WC), quick=700, thorough=10000,
     rule='with no frequency threshold, the counts of two corpora together are the sum of the counts of each; '
          'sentence order and sentence reversal do not matter')
def additive(cases):
    case, other = dict(cases[0], min_tf=1), cases[1]

    def cells(sents):
        x, voc = context_matrix(case, sents)
        coo = x.tocoo()
        return {(voc[r], voc[c]): v for r, c, v in zip(coo.row, coo.col, coo.data) if v}
    a, b = cells(case['sents']), cells(other['sents'])
    both = cells(case['sents'] + other['sents'])
    for k in set(a) | set(b) | set(both):
        assert abs(both.get(k, 0) - a.get(k, 0) - b.get(k, 0)) < 1e-9, (cases, k)
    rev = cells([' '.join(s.split()[::-1]) for s in reversed(other['sents'])]) if not case['chars'] else b
    assert set(rev) == set(b) and all(abs(rev[k] - b[k]) < 1e-9 for k in b), cases
    return 'summed' if a and b else None
