"""C35 the corpus is a bag of words (or sentences): order, spacing, repetition, parts; C36 statistics do not look at letters."""
import contextlib
import io
from collections import Counter

from hypothesis import strategies as st

import agents
import gen
from agents import AGENTS, canon
from c_system import FAST, SLOW, PARAMS, korean_corpus, stacked_corpus, empty
from core import sub, describe
from soynlp import hangle
from soynlp.noun import LRNounExtractor, LRNounExtractor_v2, NewsNounExtractor
from soynlp.predicator import EomiExtractor
from soynlp.tokenizer import LTokenizer, MaxLRScoreTokenizer, MaxScoreTokenizer, NounLMatchTokenizer, NounMatchTokenizer, RegexTokenizer
from soynlp.tokenizer._tokenizer_builder import EojeolPatternTrainer
from soynlp.utils import EojeolCounter, LRGraph
from soynlp.vectorizer import BaseVectorizer, sent_to_word_contexts_matrix
from soynlp.word import Bigram, WordExtractor, pmi

describe('C35', 'Corpora of nouns with particles, inflected predicates and noise, and random corpora over small alphabets, next to the '
         'same corpus with its sentences in another order, with its words dealt out to other sentences, with other white space, '
         'repeated k times with k-fold count limits, or cut into two. Non-trivial: the results are not empty and the corpora differ.')

SMALL = st.lists(st.lists(gen.word('가나다', 1, 4), min_size=1, max_size=5).map(' '.join), min_size=1, max_size=12)
CORPUS = st.one_of(korean_corpus(12), stacked_corpus(), gen.chained_corpus(), SMALL)
TRAINED = [n for n in FAST if not issubclass(AGENTS[n], agents.Reader)]
BAGS = ['noun1', 'noun2', 'news', 'predicates', 'eomi', 'counter', 'patterns']
SPACES = st.sampled_from([' ', '  ', ' ', '   ', '\t', '\n', '\u3000', ' \t'])


def same(a, b, what):
    assert a == b, (what, a, b)


def near(a, b):
    """Equal canonical values up to rounding."""
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return a == b


@st.composite
def reordered(draw, names, corpora):
    c = draw(corpora)
    return dict(agent=draw(st.sampled_from(names)), p=draw(PARAMS), corpus=c, other=draw(st.permutations(c)))


@st.composite
def dealt(draw, names, corpora):
    c = draw(corpora)
    words = draw(st.permutations([w for s in c for w in s.split()]))
    out = []
    while words:
        n = draw(st.integers(1, 7))
        s = draw(SPACES).join(words[:n])
        out.append(draw(st.sampled_from(['', '', ' '])) + s + draw(st.sampled_from(['', '', ' '])))
        words = words[n:]
    return dict(agent=draw(st.sampled_from(names)), p=draw(PARAMS), corpus=c, other=out)


def view(name, r):
    """A result without what depends on order: the rows of a matrix, which of several equal pairs come first."""
    if name == 'bow':
        rows = {}
        for i, j, v in r[0][1:]:
            rows.setdefault(i, []).append((r[1][j], v))
        return [r[0][0], sorted(r[1]), sorted(map(sorted, rows.values()))]
    if name == 'counter':
        return r[0][:3]
    if name == 'bigrams':
        return [r[0], sorted(v[-1] for k, v in r[1][1:]), r[2]]
    return r


def equal_on_both(case):
    c, d = list(case['corpus']), list(case['other'])
    if not c or not d:
        return None
    a = view(case['agent'], agents.run(case['agent'], c, case['p']))
    b = view(case['agent'], agents.run(case['agent'], d, case['p']))
    assert near(a, b), (case, a, b)
    return case['agent'] if c != d and not empty(a) else None


@sub('C35', 'order', reordered(TRAINED, CORPUS), quick=900, thorough=20000, rule='the order of the sentences does not matter')
def order(case):
    return equal_on_both(case)


@sub('C35', 'order_pos', reordered(list(SLOW), korean_corpus(8)), quick=40, thorough=800, rule='as order, for part-of-speech extraction')
def order_pos(case):
    return equal_on_both(case)


@sub('C35', 'dealt', dealt(BAGS, CORPUS), quick=900, thorough=20000,
     rule='which words share a sentence, their order in it, and the blanks around them do not matter to what counts words one by one')
def dealt_out(case):
    return equal_on_both(case)


@sub('C35', 'dealt_pos', dealt(list(SLOW), korean_corpus(8)), quick=40, thorough=800, rule='as dealt, for part-of-speech extraction')
def dealt_pos(case):
    return equal_on_both(case)


# ---------------------------------------------------------------- k times the corpus, k times the limits
def words_counts(c, f, p):
    x = WordExtractor(min_frequency=f, remove_subwords=p['b'], **dict.fromkeys(['min_cohesion_forward', 'min_right_branching_entropy'], 0) if p.get('all') else {})
    x.train(c)
    t = x.extract()
    return ({w: (s.leftside_frequency, s.rightside_frequency) for w, s in t.items()},
            {w: tuple(s[:6]) for w, s in t.items()})


def noun1_counts(c, f, p):
    x = LRNounExtractor(predictor_fnames=[agents.features(p) + '_coef'], verbose=False, min_num_of_features=p['n'])
    x.train(c, f)
    t = x.extract(min_noun_score=p['s'], min_noun_frequency=f)
    return {w: s.frequency for w, s in t.items()}, {w: (s.score, s.known_r_ratio) for w, s in t.items()}


def noun2_counts(c, f, p):
    x = LRNounExtractor_v2(predictor_headers=[agents.features(p)], verbose=False, min_num_of_features=p['n'], extract_compound=p['b'],
                           max_frequency_when_noun_is_eojeol=3 * f)
    x.train(c, f)
    t = x.extract(min_noun_score=p['s'], min_noun_frequency=f)
    return ({w: s.frequency for w, s in t.items()} if not p['b'] else {}), {w: s.score for w, s in t.items()}


def eomi_counts(c, f, p):
    g = LRGraph(sents=c)
    e = EomiExtractor(g, set(agents.VERBS + agents.ADJS[:p['k']]), {'나무', '가'}, verbose=False, min_num_of_features=p['n'])
    t = e.extract(min_eomi_score=p['s'], min_eomi_frequency=f)
    return {w: s[0] for w, s in t.items()}, {w: s[1] for w, s in t.items()}


def bigram_counts(kind):
    def count(c, f, p):
        x = Bigram(c, min_frequency=f, verbose=False, score=kind)
        t = x.extract(threshold=f if kind == 'frequency' else 0)
        return {w: s.frequency for w, s in t.items()}, {w: s.score * (1 if kind == 'pmi' else f if kind == 'mikolov' else 0) for w, s in t.items()}
    return count


def context_counts(c, f, p):
    x, names = sent_to_word_contexts_matrix(c, windows=p['n'], min_tf=f, dynamic_weight=p['c'], verbose=False)
    m = pmi(x)[0] if x.shape[0] and x.nnz else x
    cells = [{(names[i], names[j]): v for i, j, v in zip(*(a.tolist() for a in (z.row, z.col, z.data))) if abs(v) > 1e-12} for z in (x.tocoo(), m.tocoo())]
    return cells[0], cells[1] if x.nnz else {}


def bow_counts(c, f, p):
    x = BaseVectorizer(min_tf=f, verbose=False)
    m = x.fit_transform(c)
    tf = m.sum(axis=0).tolist()[0] if m.shape[1] else []
    return {w: tf[i] for w, i in x.vocabulary_.items()}, {}


def counter_counts(c, f, p):
    x = EojeolCounter(c, min_count=f, verbose=False)
    return dict(x.items()), {}


def graph_counts(c, f, p):
    g = LRGraph(sents=c, l_max_length=p['n'] + 1)
    return {(l, r): n for l, rs in g._lr.items() for r, n in rs.items()}, {}


def pattern_counts(c, f, p):
    x = EojeolPatternTrainer(min_frequency=f, verbose=False)
    x.train(c)
    return {(l, r): v for l, rs in x.lrgraph.items() for r, v in rs.items()}, {}


COUNTED = dict(words=words_counts, noun1=noun1_counts, noun2=noun2_counts, eomi=eomi_counts, bigram=bigram_counts('frequency'),
               bigram_pmi=bigram_counts('pmi'), bigram_mikolov=bigram_counts('mikolov'), contexts=context_counts, bow=bow_counts,
               counter=counter_counts, graph=graph_counts, patterns=pattern_counts)


def scaled(counts, k):
    return {w: tuple(k * x for x in v) if isinstance(v, tuple) else k * v for w, v in counts.items()}


@sub('C35', 'repetition', st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(COUNTED)), corpus=CORPUS, k=st.sampled_from([2, 3, 5]), p=PARAMS)),
     quick=1200, thorough=25000, rule='k times the corpus with k-fold count limits gives k-fold counts and the same scores')
def repetition(case):
    c, k, p = list(case['corpus']), case['k'], case['p']
    if not c:
        return None
    f = COUNTED[case['kind']]
    if case['kind'] == 'words':
        c = c * 2                       # letters of the next word count from the second time on
    with contextlib.redirect_stdout(io.StringIO()):
        n1, s1 = f(c, p['f'], p)
        nk, sk = f(c * k, p['f'] * k, p)
    if case['kind'] == 'bigram_mikolov':
        s1, sk = scaled(s1, 1 / p['f']), scaled(sk, 1 / p['f'])
    assert near(canon(scaled(n1, k)), canon(nk)), (case, n1, nk)
    assert near(canon(s1), canon(sk)), (case, s1, sk)
    return case['kind'] if n1 or s1 else None


# ---------------------------------------------------------------- the parts add up
ADDED = ['words', 'bigram', 'contexts', 'bow', 'counter', 'graph', 'patterns']


@sub('C35', 'parts', st.fixed_dictionaries(dict(kind=st.sampled_from(ADDED), parts=st.lists(CORPUS, min_size=2, max_size=3), p=PARAMS)),
     quick=700, thorough=15000, rule='what is counted in a corpus without any limit is the sum of what is counted in its parts')
def parts(case):
    cs = [list(c) for c in case['parts'] if c]
    p = dict(case['p'], b=False, all=True)
    f = COUNTED[case['kind']]
    if len(cs) < 2:
        return None
    with contextlib.redirect_stdout(io.StringIO()):
        total = f([s for c in cs for s in c], 1, p)[0]
        each = [f(c, 1, p)[0] for c in cs]
    want = {}
    for counts in each:
        for w, v in counts.items():
            want[w] = tuple(a + b for a, b in zip(want[w], v)) if isinstance(v, tuple) and w in want else v if isinstance(v, tuple) else want.get(w, 0) + v
    assert near(canon(total), canon(want)), (case, total, want)
    return case['kind'] if sum(bool(e) for e in each) > 1 else None


# ================================================================ C36
describe('C36', 'Corpora, score tables, noun sets, dictionaries and texts over a few letters, next to the same with every letter replaced by '
         'another one (Korean or Latin letters, digits, punctuation, symbols, emoji). Non-trivial: the result is not empty and names letters.')

LETTERS = '가나다라'
OTHERS = ['A', 'Z', '.', '*', '\\', '[', ']', '(', ')', '+', '?', '|', '^', '$', 'a', 'z', '1', '9', '0', '힣', '각', 'ㅋ', 'ㅏ', '😀', 'é', '-', '_', '"', "'", '%',
          '/', '#', ',', '{', '}', '漢', 'の', '는', '은', '다', '고', '가', '나', '한', '@', '&', '=', '<', '~', '\u200b', 'ᄀ', '٣', '!']
ALIKE = ['aA', 'zZ', 'éÉ', '.,', '1１', '9٩', '()', '[]', '0O', '"\'', '가ㄱ', 'ᄀㄱ', '-_', '漢韓', 'ßẞ', '!?', '힣ㅎ', '\\/', 'aａ', ';:']
OTHER_LETTERS = st.one_of(
    st.lists(st.sampled_from(OTHERS), min_size=4, max_size=4, unique=True),
    st.lists(st.sampled_from(ALIKE), min_size=2, max_size=2, unique=True).map(''.join).filter(lambda s: len(set(s)) == 4).map(list))
TABLE = st.dictionaries(gen.word(LETTERS, 1, 3), st.sampled_from([.1, .2, .3, .3, .5, .5, .7]), min_size=1, max_size=12)


def renamed(x, m):
    """A value with every letter of every text in it replaced."""
    if isinstance(x, str):
        return ''.join(m.get(ch, ch) for ch in x)
    if isinstance(x, dict):
        return {tuple(renamed(k, m)) if isinstance(k, tuple) else renamed(k, m): renamed(v, m) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return (list if isinstance(x, (list, tuple)) else set)(renamed(i, m) for i in x)
    return x


def predictor(table):
    import os
    from core import scratch
    path = os.path.join(scratch(), 'renamed_%d' % os.getpid())
    with open(path + '_coef', 'w', encoding='utf-8') as f:
        f.write(''.join('%s\t%f\n' % (w, 2 * s - .7) for w, s in table.items()))
    return path + '_coef'


def grown(x):
    """The corpus, and the words of the text with the parts of the table after them."""
    return x[0] + [' '.join(w[:3] + r for r in x[1]) for w in x[2].split() if len(w) > 1] * 2


def noun_scores(x, p):
    c, table = grown(x), x[1]
    e = LRNounExtractor(predictor_fnames=[predictor(table)], verbose=False, min_num_of_features=p['n'], ensure_normalized=True)
    e.train(c, p['f'])
    return e.extract(min_noun_score=p['s'], min_noun_frequency=p['f'])


def noun_supports(x, p):
    path = predictor({})[:-5]
    ws = list(x[1])
    for suffix, chosen in (('_pos', ws[::2]), ('_neg', ws[1::2][:-1] if p['b'] else ws[1::2])):
        with open(path + suffix, 'w', encoding='utf-8') as f:
            f.write(''.join(w + '\n' for w in chosen))
    e = LRNounExtractor_v2(predictor_headers=[path], verbose=False, min_num_of_features=p['n'], ensure_normalized=True,
                           max_frequency_when_noun_is_eojeol=2, extract_compound=p['c'], postprocessing=['detaching_features'] if p['b'] else None)
    e.train(grown(x), p['f'])
    return e.extract(min_noun_score=p['s'], min_noun_frequency=p['f'])


def tokens(make):
    return lambda x, p: [make(x[1]).tokenize(x[2], flatten=False), make(x[1]).tokenize(' '.join(x[0]))]


def tagged(x, p):
    from soynlp.postagger import Dictionary, LREvaluator, LRTemplateMatcher, SimpleTagger, UnknowLRPostprocessor
    c, table, text = x
    ws = list(table)
    d = Dictionary({'Noun': {w for i, w in enumerate(ws) if i % 3 != 1}, 'Josa': {w for i, w in enumerate(ws) if i % 3 == 1}})
    t = SimpleTagger(LRTemplateMatcher(d), LREvaluator(), UnknowLRPostprocessor())
    return [t.tag(text), t.tag(text, flatten=False), [d.get_pos(w) for w in ws]]


def distances(x, p):
    ws = list(x[1])[:4] + x[2].split()[:3] + [x[2], x[0][0]]
    return [[hangle.levenshtein(a, b), hangle.cosine_distance(a, b), hangle.jaccard_distance(a, b)] for a in ws for b in ws if a and b]


def bow_rows(x, p):
    v = BaseVectorizer(min_tf=p['f'], max_df=[1.0, 0.7, 0.5][p['n'] - 1], stopwords=set(list(x[1])[:2]) if p['b'] else None, lowercase=False, verbose=False)
    m = v.fit_transform(x[0])
    names = v.idx2vocab
    rows = [dict() for _ in x[0]]
    for i, j, n in zip(*(a.tolist() for a in (m.tocoo().row, m.tocoo().col, m.tocoo().data))):
        rows[i][names[j]] = n
    return [rows, v.encode_a_doc_to_bow(x[2]) and {names[i]: n for i, n in v.encode_a_doc_to_bow(x[2]).items()}]


def top_parts(x, p):
    g = LRGraph(sents=x[0], l_max_length=p['n'] + 1, r_max_length=p['f'] + 1)
    g.remove_eojeol((x[2].split() or [''])[0])
    return [{l: sorted(n for _, n in g.get_r(l, 3)) for l in g._lr}, {r: sorted(n for _, n in g.get_l(r, 3)) for r in g._rl},
            {l: dict(rs) for l, rs in g._lr.items()}, dict(g.to_EojeolCounter().items())]


BLIND = dict(
    words=lambda x, p: words_counts(x[0], p['f'], p), noun1=noun_scores, noun2=noun_supports, graph=top_parts, distances=distances, tagged=tagged, bow=bow_rows,
    bigram=lambda x, p: [bigram_counts(k)(x[0], p['f'], p) for k in ('frequency', 'pmi', 'mikolov')],
    contexts=lambda x, p: context_counts(x[0], p['f'], p), counter=lambda x, p: counter_counts(x[0], p['f'], p),
    patterns=lambda x, p: pattern_counts(x[0], p['f'], p),
    ltokens=tokens(LTokenizer), maxscore=tokens(MaxScoreTokenizer), nounl=lambda x, p: [NounLMatchTokenizer(x[1]).tokenize(s, compose_compound=p['b']) for s in [x[2]] + x[0]], nounm=tokens(NounMatchTokenizer),
    maxlr=tokens(lambda s: MaxLRScoreTokenizer(Dl=s, Dr={w[::-1]: v for w, v in s.items()})))


@sub('C36', 'letters', st.fixed_dictionaries(dict(
    kind=st.sampled_from(sorted(BLIND)), p=PARAMS, letters=OTHER_LETTERS, table=TABLE,
    corpus=st.one_of(gen.corpus(LETTERS, max_sents=8), gen.chained_corpus(LETTERS, max_sents=5), st.lists(gen.sentence(LETTERS, 5, 4), min_size=1, max_size=8), st.lists(gen.sentence(LETTERS, 7, 2), min_size=1, max_size=8)),
    text=gen.sentence(LETTERS, 4, 6, 1))), quick=7000, thorough=90000, rule='renaming the letters renames the result')
def letters(case):
    m = dict(zip(LETTERS, case['letters']))
    if case['kind'] == 'noun1':         # no noun ends in a full stop or comma
        m = {k: {'.': ';', ',': ':'}.get(v, v) for k, v in m.items()}
    x = [list(case['corpus']), dict(case['table']), case['text']]
    if not x[0]:
        return None
    f = BLIND[case['kind']]
    with contextlib.redirect_stdout(io.StringIO()):
        want = canon(renamed(plain(f(x, case['p'])), m))
        got = canon(plain(f(renamed(x, m), case['p'])))
    assert near(want, got), (case, want, got)
    return case['kind'] if not empty(got) else None


def plain(x):
    """Named tuples and tagged words as lists."""
    if isinstance(x, dict) or hasattr(x, 'items'):
        return {tuple(k) if isinstance(k, (list, tuple)) else k: plain(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return set(map(plain, x))
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    return x.item() if hasattr(x, 'item') else plain(vars(x))
