"""C38 limits only select: a stricter limit is a filter, a shorter list a prefix, a larger dictionary adds; rare words as if never there."""
import contextlib
import io
import itertools
import os

from hypothesis import strategies as st

import agents
import gen
from agents import canon
from c_relations import CORPUS, near
from c_system import PARAMS, forms, korean_corpus, empty
from core import sub, describe, scratch
from soynlp.hangle import levenshtein
from soynlp.lemmatizer import Lemmatizer
from soynlp.noun import LRNounExtractor_v2
from soynlp.normalizer import normalize, repeat_normalize
from soynlp.postagger import Dictionary, LRTemplateMatcher
from soynlp.predicator import EomiExtractor, PredicatorExtractor
from soynlp.tokenizer import LTokenizer
from soynlp.utils import EojeolCounter, LRGraph, most_similar
from soynlp.vectorizer import BaseVectorizer, sent_to_word_contexts_matrix
from soynlp.word import Bigram, WordExtractor, pmi

describe('C38', 'Corpora, tables and texts with two settings of a limit, the second at least as strict as the first: count, score, length and '
         'document limits, list lengths, kept character classes, tolerances, dictionaries of two sizes, and corpora from which rare words were '
         'taken out beforehand. Non-trivial: the looser setting gives something that the stricter one does not, or the limit removed a word.')

LIMITS = st.one_of(st.lists(st.integers(1, 4), min_size=2, max_size=3, unique=True), st.lists(st.integers(1, 9), min_size=3, max_size=4, unique=True)).map(sorted)


@st.composite
def varied_corpus(draw):
    """Words of different counts, in sentences of any size."""
    pool = draw(st.lists(st.tuples(gen.word('가나다', 1, 5), st.integers(1, 9)), min_size=2, max_size=7))
    words = draw(st.permutations([w for w, n in pool for _ in range(n)]))
    out = []
    while words:
        n = draw(st.integers(1, 9))
        out.append(' '.join(words[:n]))
        words = words[n:]
    return out


def cells(x, names):
    x = x.tocoo()
    return {(names[i], names[j]): v for i, j, v in zip(x.row.tolist(), x.col.tolist(), x.data.tolist()) if abs(v) > 1e-12}


def between(k):
    """A limit for scores that no fraction of small counts equals."""
    return k / 8 + 0.0037


# each: corpus, parameters, limits a <= b -> (result under a, result under b, does an item (key, value) pass b?)
def words_limit(name, field, scale=1, long=False):
    def f(c, p, a, b):
        x = WordExtractor(min_frequency=1, min_cohesion_forward=-1, min_cohesion_backward=-1)
        x.train(c)
        out = []
        for k in (a, b):
            setattr(x, name, between(k) * scale)
            out.append(dict(x.extract()))
        return out[0], out[1], lambda w, s: (long and len(w) < 2) or getattr(s, field) >= between(b) * scale
    return f


def bigram_limit(kind):
    def f(c, p, a, b):
        x = Bigram(c, min_frequency=1, verbose=False, score=kind)
        to = dict(frequency=lambda k: k, pmi=lambda k: between(k - 5), mikolov=lambda k: between(k) / 9)[kind]
        return x.extract(threshold=to(a)), x.extract(threshold=to(b)), lambda w, s: s.score >= to(b)
    return f


def bigram_count(c, p, a, b):
    x, y = (Bigram(c, min_frequency=k, verbose=False).extract() for k in (a, b))
    return x, y, lambda w, s: s.frequency >= b


def counter_count(c, p, a, b):
    x, y = (dict(EojeolCounter(c, min_count=k, verbose=False).items()) for k in (a, b))
    return x, y, lambda w, n: n >= b


def counter_view(c, p, a, b):
    x = EojeolCounter(c, verbose=False)
    return x.get_uncovered_eojeols(a), x.get_uncovered_eojeols(b), lambda w, n: n >= b


def counter_loaded(c, p, a, b):
    path = os.path.join(scratch(), 'counter')
    EojeolCounter(c, verbose=False).save(path)
    x = EojeolCounter(min_count=p['k'])
    x.load(path)
    return x.get_uncovered_eojeols(a), x.get_uncovered_eojeols(b), lambda w, n: n >= b


def counter_length(c, p, a, b):
    a, b = 10 - b, 10 - a
    x, y = (dict(EojeolCounter(c, max_length=k, verbose=False).items()) for k in (b, a))
    return x, y, lambda w, n: len(w) <= a


def columns(c, **kw):
    v = BaseVectorizer(verbose=False, lowercase=False, **kw)
    x = v.fit_transform(c).toarray()
    return {w: tuple(x[:, i].tolist()) for w, i in v.vocabulary_.items()}


def bow_min(c, p, a, b):
    return columns(c, min_tf=a), columns(c, min_tf=b), lambda w, col: sum(col) >= b


def bow_max(c, p, a, b):
    return columns(c, max_tf=b), columns(c, max_tf=a), lambda w, col: sum(col) <= a


def bow_df(c, p, a, b):
    b = min(b, 9) / 10
    return columns(c, min_df=min(a / 10, b)), columns(c, min_df=b), lambda w, col: sum(n > 0 for n in col) >= int(len(c) * b)


def bow_maxdf(c, p, a, b):
    a, b = a / 10, b / 10
    return columns(c, max_df=b), columns(c, max_df=a), lambda w, col: sum(n > 0 for n in col) <= int(len(c) * a)


def bow_stop(c, p, a, b):
    ws = sorted({w for s in c for w in s.split()})
    stop = ws[:a], ws[:b]
    return columns(c, stopwords=set(stop[0])), columns(c, stopwords=set(stop[1])), lambda w, col: w not in stop[1]


def contexts_tf(c, p, a, b):
    (x, nx), (y, ny) = (sent_to_word_contexts_matrix(c, windows=p['n'], min_tf=k, dynamic_weight=p['c'], verbose=False) for k in (a, b))
    assert set(ny) <= set(nx), (nx, ny)
    return cells(x, nx), cells(y, ny), lambda w, v: set(w) <= set(ny)


def pmi_limit(c, p, a, b):
    x, names = sent_to_word_contexts_matrix(c, windows=p['n'], min_tf=1, dynamic_weight=p['c'], verbose=False)
    if not x.nnz:
        return {}, {}, None
    m = [pmi(x, min_pmi=between(k - 5), alpha=.01 if p['b'] else 0, beta=.75 if p['c'] else 1)[0] for k in (a, b)]
    return cells(m[0], names), cells(m[1], names), lambda w, v: v >= between(b - 5)


def graph_left(c, p, a, b):
    def g(k):
        return {(l, r): n for l, rs in LRGraph(sents=c, l_max_length=k + 1)._lr.items() for r, n in rs.items()}
    return g(b), g(a), lambda w, n: len(w[0]) <= a + 1


def graph_right(c, p, a, b):
    def g(k):
        return {(l, r): n for l, rs in EojeolCounter(c, verbose=False).to_lrgraph(r_max_length=k)._lr.items() for r, n in rs.items()}
    return g(b), g(a), lambda w, n: len(w[1]) <= a


def eomi_count(c, p, a, b):
    e = EomiExtractor(LRGraph(sents=c), set(agents.VERBS + agents.ADJS[:p['k']]), {'나무', '가'}, verbose=False, min_num_of_features=p['n'])
    return e.extract(min_eomi_score=p['s'], min_eomi_frequency=a), e.extract(min_eomi_score=p['s'], min_eomi_frequency=b), lambda w, s: s.frequency >= b


KEPT = dict(cohesion=words_limit('min_cohesion_forward', 'cohesion_forward', .7, True), backward=words_limit('min_cohesion_backward', 'cohesion_backward', .7, True),
            left_entropy=words_limit('min_left_branching_entropy', 'left_branching_entropy'), right_entropy=words_limit('min_right_branching_entropy', 'right_branching_entropy'),
            left_variety=words_limit('min_left_accessor_variety', 'left_accessor_variety', 3), right_variety=words_limit('min_right_accessor_variety', 'right_accessor_variety', 3),
            pairs=bigram_limit('frequency'), pairs_pmi=bigram_limit('pmi'), pairs_mikolov=bigram_limit('mikolov'), pairs_count=bigram_count, counter=counter_count,
            view=counter_view, loaded=counter_loaded, length=counter_length, bow_min=bow_min, bow_max=bow_max, bow_df=bow_df, bow_maxdf=bow_maxdf, bow_stop=bow_stop,
            contexts=contexts_tf, pmi=pmi_limit, graph_left=graph_left, graph_right=graph_right, eomi=eomi_count)


@sub('C38', 'kept', st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(KEPT)), corpus=st.one_of(varied_corpus(), varied_corpus(), CORPUS), p=PARAMS, limits=LIMITS,
                                             times=st.sampled_from([1, 1, 1, 1, 2, 3, 12]))),
     quick=1500, thorough=30000, rule='the stricter limit keeps those items of the looser one that pass it, with the same values')
def kept(case):
    c = [s for s in case['corpus'] if s.strip()] * case['times']
    if not c:
        return None
    n = 0
    for a, b in itertools.combinations(case['limits'], 2):
        with contextlib.redirect_stdout(io.StringIO()):
            loose, strict, passes = KEPT[case['kind']](c, case['p'], a, b)
        want = {w: v for w, v in loose.items() if passes(w, v)}
        assert near(canon(want), canon(dict(strict))), (case, a, b, want, strict)
        n += len(strict) < len(loose)
    return case['kind'] if n else None


# ---------------------------------------------------------------- the first k of a list
def graph_r(c, p, k):
    g = LRGraph(sents=c)
    return [(g.get_r(l, -1), g.get_r(l, k)) for l in sorted(g._lr)]


def graph_l(c, p, k):
    g = LRGraph(sents=c)
    return [(g.get_l(r, -1), g.get_l(r, k)) for r in sorted(g._rl)]


def similar(c, p, k):
    x, names = sent_to_word_contexts_matrix(c, windows=p['n'] + 1, min_tf=1, verbose=False)
    x = x if p['b'] else x.toarray()
    index, out = {w: i for i, w in enumerate(names)}, []
    for w in sorted(names)[:8]:
        whole = most_similar(w, x, index, names, -1)
        assert {v for v, _ in whole} == set(names) - {w} and len(whole) == len(names) - 1, (c, w, whole)
        out.append((whole, most_similar(w, x, index, names, k)))
    return out


def pairs_top(kind):
    def f(c, p, k):
        x = Bigram(c, min_frequency=p['f'], verbose=False, score=kind)
        a, b = x.extract(topk=-1, threshold=-99), x.extract(topk=k, threshold=-99)
        return [(sorted(((w, s.score) for w, s in a.items()), key=lambda t: -t[1]), [(w, s.score) for w, s in b.items()])]
    return f


TOPS = dict(right=graph_r, left=graph_l, similar=similar, pairs=pairs_top('frequency'), pairs_pmi=pairs_top('pmi'), pairs_mikolov=pairs_top('mikolov'))


@sub('C38', 'first', st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(TOPS)), corpus=st.one_of(varied_corpus(), CORPUS), p=PARAMS, k=st.integers(1, 12))),
     quick=700, thorough=15000, rule='the first k are k items, all of them in the whole list, in descending order, none better left out')
def first(case):
    c = [s for s in case['corpus'] if s.strip()]
    if not c:
        return None
    n = 0
    with contextlib.redirect_stdout(io.StringIO()):
        lists = TOPS[case['kind']](c, case['p'], case['k'])
    for whole, top in lists:
        assert len(top) == min(case['k'], len(whole)) and len({w for w, _ in top}) == len(top), (case, whole, top)
        values = dict(whole)
        assert all(w in values and near(values[w], v) for w, v in top), (case, whole, top)
        assert near([v for _, v in whole][:len(top)], [v for _, v in top]), (case, whole, top)
        n += len(top) < len(whole)
    return case['kind'] if n else None


# ---------------------------------------------------------------- rare words as if they had never been there
def rare_counter(c, p, f):
    return dict(EojeolCounter(c, min_count=f, verbose=False).items())


def rare_bow(c, p, f):
    return columns(c, min_tf=f)


LONG = ['았었겠습니다만', '었었겠지요', '시었습니까', '겠습니다마는']


@st.composite
def with_long(draw):
    c = draw(korean_corpus(14))
    words = [forms(x, e)[0] for x in draw(st.lists(st.sampled_from(agents.VERBS[:3] + ['아름답', '슬프']), max_size=3)) for e in draw(st.lists(st.sampled_from(LONG), max_size=2))]
    return c + [' '.join(words)] * draw(st.integers(0, 3))


def rare_nouns(c, p, f):
    x = LRNounExtractor_v2(predictor_headers=[agents.features(p)], verbose=False, min_num_of_features=p['n'], extract_compound=p['b'])
    x.train(c, min_eojeol_frequency=f)
    return x.extract(min_noun_score=p['s'])


def rare_predicates(c, p, f):
    x = PredicatorExtractor(['나무', '하늘'], set(agents.JOSAS), set(agents.ADJS), set(agents.VERBS[:p['k']]), set(agents.EOMIS[:p['k'] * 2] + LONG),
                            extract_eomi=p['b'], extract_stem=p['c'], verbose=False)
    x.train(c, min_eojeol_frequency=f, min_num_of_features=p['n'], min_stem_score=.5037, min_stem_frequency=2, min_eomi_score=p['s'])
    return [{w: (v.frequency, set(v.lemma)) for w, v in t.items()} for t in x.extract()]


def rare_lemmas(c, p, f):
    x = PredicatorExtractor(['나무', '하늘'], set(agents.JOSAS), set(agents.ADJS), set(agents.VERBS[:p['k']]), set(agents.EOMIS[:p['k'] * 2] + LONG),
                            extract_eomi=False, extract_stem=False, verbose=False)
    x.train(c, min_eojeol_frequency=1)
    return [{w: (v.frequency, set(v.lemma)) for w, v in t.items()} for t in x.extract(min_predicator_frequency=f)]


RARE = dict(counter=rare_counter, bow=rare_bow, nouns=rare_nouns, predicates=rare_predicates, lemmas=rare_lemmas)


@sub('C38', 'rare', st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(RARE)), corpus=st.one_of(korean_corpus(14), with_long(), with_long(), varied_corpus(), CORPUS), p=PARAMS,
                                               limit=st.sampled_from([2, 2, 2, 3, 3, 4, 6]))),
     quick=900, thorough=15000, rule='a word count limit gives what the corpus without its rare words gives')
def rare(case):
    n = {}
    c = [s for s in case['corpus'] if s.strip()]
    for s in c:
        for w in s.split():
            n[w] = n.get(w, 0) + 1
    short = [' '.join(w for w in s.split() if n[w] >= case['limit']) for s in c]
    if not any(short):
        return None
    f = RARE[case['kind']]
    with contextlib.redirect_stdout(io.StringIO()):
        a, b = f(c, case['p'], case['limit']), f(short, case['p'], 1)
    assert near(canon(a), canon(b)), (case, a, b)
    return case['kind'] if not empty(canon(a)) and short != c else None


# ---------------------------------------------------------------- texts
CLASSES = ['alphabet', 'number', 'punctuation', 'symbol']


@sub('C38', 'classes', st.fixed_dictionaries(dict(text=st.one_of(gen.rich_text(30), gen.text_of(gen.KOR, gen.LATIN, gen.DIGIT, gen.PUNCT, gen.SPACE, max_size=30)),
                                                  a=st.sets(st.sampled_from(CLASSES)), b=st.sets(st.sampled_from(CLASSES)), k=st.tuples(st.integers(3, 6), st.integers(1, 6)),
                                                  unit=st.sampled_from('ㅋㅎ가a9'), times=st.integers(0, 9))),
     quick=1000, thorough=30000, rule='keeping fewer classes of characters, or fewer repetitions, of a normalized text is keeping them of the text')
def classes(case):
    s, a, b = case['text'] + case['unit'] * case['times'], case['a'], case['a'] | case['b']
    want, wide = normalize(s, **dict.fromkeys(a, True)), normalize(s, **dict.fromkeys(b, True))
    assert normalize(wide, **dict.fromkeys(a, True)) == want, (case, wide, want)
    assert normalize(s, **dict.fromkeys(CLASSES, True)) == normalize(normalize(s, **dict.fromkeys(CLASSES, True)), **dict.fromkeys(CLASSES, True)), case
    kept_, full = list(want.replace(' ', '')), iter(wide.replace(' ', ''))
    assert all(x in full for x in kept_), (case, wide, want)
    k, m = case['k'][0], min(case['k'])
    assert repeat_normalize(repeat_normalize(s, k), m) == repeat_normalize(s, m), case
    assert normalize(normalize(s, remove_repeat=k, **dict.fromkeys(a, True)), remove_repeat=m, **dict.fromkeys(a, True)) == normalize(s, remove_repeat=m, **dict.fromkeys(a, True)), case
    return 'differs' if want != wide or repeat_normalize(s, m) != repeat_normalize(s, k) else None


@st.composite
def tolerant(draw):
    words = draw(st.lists(gen.word('가나', 3, 7), min_size=1, max_size=4))
    parts = sorted({w[:e] for w in words for e in range(2, len(w) + 1)})
    table = {w: v for w, v in zip(parts, draw(st.lists(st.sampled_from([None, .1, .2, .3, .5, .5, .75, 1.]), min_size=len(parts), max_size=len(parts)))) if v is not None}
    return dict(table=table, text=' '.join(words + draw(st.lists(gen.word('가나', 1, 5), max_size=2))), default=draw(st.sampled_from([0.0, 0.3, -0.5])),
                t=sorted(draw(st.tuples(st.integers(0, 6), st.integers(0, 12)))))


@sub('C38', 'tolerance', tolerant(), quick=700, thorough=20000, rule='more tolerance never shortens the left part of a word')
def tolerance(case):
    x = LTokenizer(case['table'], case['default'])
    a, b = (x.tokenize(case['text'], tolerance=t / 10 + (.0037 if t else 0), flatten=False) for t in case['t'])
    l, r = (x.tokenize(case['text'], tolerance=t / 10 + (.0037 if t else 0), remove_r=True) for t in case['t'])
    assert len(a) == len(b) and all(p[0].startswith(q[0]) and p[0] + p[1] == q[0] + q[1] for p, q in zip(b, a)), (case, a, b)
    assert l == [p[0] for p in a] and r == [p[0] for p in b], (case, l, r)
    return 'longer' if a != b else None


@sub('C38', 'dictionaries', st.fixed_dictionaries(dict(corpus=korean_corpus(5), stems=st.lists(st.sampled_from(agents.VERBS + agents.ADJS), max_size=14, unique=True),
                                                       eomis=st.lists(st.sampled_from(agents.EOMIS), max_size=12, unique=True), cut=st.tuples(st.integers(0, 12), st.integers(0, 12)))),
     quick=500, thorough=12000, rule='a larger dictionary finds every lemma and every candidate of the smaller one; new lemmas use new entries')
def dictionaries(case):
    S, E = case['stems'], case['eomis']
    s, e = S[:case['cut'][0]], E[:case['cut'][1]]
    big, small = Lemmatizer(set(S), set(E)), Lemmatizer(set(s), set(e))
    d0, d1 = ({'Noun': set(x) | {'나무'}, 'Josa': set(y) | {'는'}} for x, y in ((s, e), (S, E)))
    m0, m1 = LRTemplateMatcher(Dictionary(d0)), LRTemplateMatcher(Dictionary(d1))
    n = 0
    for w in sorted({w for x in case['corpus'] for w in x.split()}):
        a, b = set(small.lemmatize(w)), set(big.lemmatize(w))
        assert a == {(x, y) for x, y in b if x in s and y in e}, (case, w, a, b)
        stems = set(big.lemmatize(w, check_only_stem=True))
        assert b == {(x, y) for x, y in stems if y in E}, (case, w, b, stems)
        assert stems == {(x, y) for x, y in big.candidates(w) if x in S} and set(small.candidates(w)) == set(big.candidates(w)), (case, w, stems)
        p, q = set(map(tuple, m0.generate(w))), set(map(tuple, m1.generate(w)))
        assert p == {t for t in q if t[0] in d0['Noun'] and (not t[2] or t[2] in d0['Josa'])}, (case, w, p, q)
        n += a != b or p != q
    return 'larger' if n else None


PRICES = st.dictionaries(st.sampled_from([(x, y) for x in '가나다' for y in '가나다' if x != y]), st.integers(1, 8), min_size=1, max_size=6)


@sub('C38', 'prices', st.fixed_dictionaries(dict(a=gen.word('가나다', 1, 6), b=gen.word('가나다', 1, 6), cost=PRICES, less=st.lists(st.integers(1, 8), min_size=6, max_size=6))),
     quick=600, thorough=20000, rule='cheaper substitutions never make two words more distant, nor by more than the discount for each letter')
def prices(case):
    dear = {k: v / 8 for k, v in case['cost'].items()}
    cheap = {k: max(0, v - x) / 8 for (k, v), x in zip(sorted(case['cost'].items()), case['less'])}
    a, b = case['a'], case['b']
    d, c, plain = levenshtein(a, b, dear), levenshtein(a, b, cheap), levenshtein(a, b)
    most = max([dear[k] - cheap[k] for k in dear], default=0)
    assert c <= d <= plain and d - c <= most * min(len(a), len(b)) + 1e-9, (case, c, d, plain)
    assert abs(len(a) - len(b)) <= c, (case, c)
    return 'cheaper' if c < d else None
