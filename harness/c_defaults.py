"""C31 an option that is left out takes its stated value."""
import contextlib
import io
import os

import numpy as np
from hypothesis import strategies as st

import agents
import gen
import c_noun
from agents import ADJS, EOMIS, VERBS, canon
from core import sub, describe, scratch
from scipy.sparse import csr_matrix
from soynlp import hangle, normalizer
from soynlp.lemmatizer import Lemmatizer, conjugate, conjugate_chat
from soynlp.noun import LRNounExtractor, LRNounExtractor_v2, NewsNounExtractor, extract_domain_pos_features
from soynlp.noun import _noun_postprocessing as npp
from soynlp.pos import ChatPOSExtractor, NewsPOSExtractor
from soynlp.postagger import Dictionary, EojeolTemplateMatcher, LREvaluator, LRTemplateMatcher, SimpleEojeolEvaluator, SimpleTagger
from soynlp.predicator import EomiExtractor, PredicatorExtractor, StemExtractor
from soynlp.tokenizer import LTokenizer, MaxLRScoreTokenizer, MaxScoreTokenizer, NounLMatchTokenizer, NounMatchTokenizer, RegexTokenizer
from soynlp.tokenizer import normalize as token_normalize
from soynlp.tokenizer._tokenizer_builder import EojeolPatternTrainer
from soynlp.utils import DoublespaceLineCorpus, EojeolCounter, LRGraph, most_similar
from soynlp.vectorizer import BaseVectorizer, sent_to_word_contexts_matrix
from soynlp.word import Bigram, WordExtractor, pmi
from soynlp.word._pmi import pmi_memory_friendly

PROBE = os.environ.get('SOYVERIF_PROBE')      # set: try every option (to tune the generators)

describe('C31', 'Data whose counts, lengths and scores lie at and next to the stated values of the options (eojeols of 13 to 17 letters, '
         'words of frequency 4 to 6, ...). The call without options, the call with all options stated, and calls with some of them '
         'stated are compared. Non-trivial: another value of a chosen option gives another result on the same data.')


def options(name, data, run, stated, quick=300, thorough=6000, numbers=()):
    """stated: 'stage:option' -> (stated value, another value...)."""
    names = sorted(stated)
    case_s = st.fixed_dictionaries(dict(data=data, probe=st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True), some=st.lists(st.sampled_from(names), max_size=4, unique=True),
                                        other=st.integers(0, 3)))

    def call(case, opts):
        def stage(k):
            return {o.split(':')[1]: v for o, v in opts.items() if o.split(':')[0] == str(k)}
        with contextlib.redirect_stdout(io.StringIO()):
            return canon(run(case['data'], stage))

    def body(case):
        base = call(case, {})
        for opts in ({n: stated[n][0] for n in names}, {n: stated[n][0] for n in case['some']}):
            got = call(case, opts)
            assert got == base, (name, opts, got, base)
        found = []
        for o in case['probe'] if PROBE is None else names:
            another = stated[o][1:]
            try:
                if call(case, {o: another[case['other'] % len(another)]}) != base:
                    found.append(o.split(':')[1])
            except (ValueError, ZeroDivisionError, IndexError):
                pass
        return found or None

    sub('C31', name, case_s, quick=quick, thorough=thorough,
        rule='%s without options equals it with the stated values of %s' % (name, ', '.join(n.split(':')[1] for n in names)))(body)


# ---------------------------------------------------------------- eojeols, graphs, corpora
def view(g, words):
    cuts = sorted({(w[:i], w[i:]) for s in words for w in s.split() for i in range(len(w) + 1)})
    return [[g.get_r(l, -1) for l in sorted({l for l, _ in cuts})], [g.get_l(r, -1) for r in sorted({r for _, r in cuts})]]


LONG = st.one_of(gen.word('가나다', 1, 4), gen.word('가나다', 8, 12), gen.word('가나', 13, 17), gen.word('가나다', 16, 21))
COUNTED = st.lists(st.tuples(LONG, st.sampled_from([1, 1, 2, 3, 5])), min_size=1, max_size=6).map(
    lambda ws: [w for w, n in ws for _ in range(n)])
options('eojeol_counter', COUNTED, lambda ws, o: dict(EojeolCounter(ws, **o(1)).items()),
        {'1:min_count': (1, 2), '1:max_length': (15, 14, 16), '1:preprocess': (None, lambda s: s[:2])})
options('to_lrgraph', COUNTED, lambda ws, o: view(EojeolCounter(ws, max_length=40).to_lrgraph(**o(1)), ws),
        {'1:l_max_length': (10, 9, 11), '1:r_max_length': (9, 8, 10), '1:ignore_one_syllable': (False, True)})
options('lr_graph', COUNTED, lambda ws, o: view(LRGraph(sents=ws, **o(1)), ws),
        {'1:l_max_length': (10, 9, 11), '1:r_max_length': (9, 8, 10)})


def neighbours(ws, o):
    g = LRGraph()
    for i, n in enumerate(ws):
        g.add_lr_pair('가', '나%d' % i, n)
        g.add_lr_pair('나%d' % i, '가', n)
    return [g.get_r('가', **o(1)), g.get_l('가', **o(1))]


options('graph_neighbours', st.lists(st.integers(1, 5), min_size=8, max_size=13), neighbours, {'1:topk': (10, 9, 11, -1)})


def graph_counts(ws, o):
    g = LRGraph(sents=ws)
    for w in ws:
        g.add_eojeol(w, **o(1))
        g.add_lr_pair(w[:1], w[1:], **o(1))
    a = canon(view(g, ws))
    for w in ws[::2]:
        g.remove_eojeol(w, **o(2))
        g.remove_lr_pair(w[:1], w[1:], **o(2))
    return [a, view(g, ws)]


options('graph_counts', st.lists(gen.word('가나', 1, 4), min_size=1, max_size=5), graph_counts, {'1:count': (1, 2, 3), '2:count': (1, 2, 3)})


def similar(rows, o):
    idx = {'w%d' % i: i for i in range(len(rows))}
    return most_similar('w0', csr_matrix(np.array(rows, dtype=float)), idx, list(idx), **o(1))


options('most_similar', st.lists(st.lists(st.integers(1, 9), min_size=3, max_size=3), min_size=9, max_size=14), similar,
        {'1:topk': (10, 9, 11)}, quick=150)


def corpus(lines, o):
    path = os.path.join(scratch(), 'corpus31.txt')
    with open(path, 'w', encoding='utf-8') as f:
        f.write('\n'.join(lines) + '\n')
    c = DoublespaceLineCorpus(path, **o(1))
    return [len(c), list(c)]


options('line_corpus', st.lists(st.lists(gen.sentence('가나', 2, 2, 1), min_size=1, max_size=3).map('  '.join), min_size=1, max_size=5), corpus,
        {'1:num_doc': (-1, 1, 2), '1:num_sent': (-1, 1, 2), '1:iter_sent': (False, True), '1:skip_header': (0, 1)})

# ---------------------------------------------------------------- tokenizers
SCORED = st.sampled_from([-0.5, -0.1, 0, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0])
DICTS = gen.score_dict('가나다', 4, 12, SCORED)
CHAIN = st.tuples(st.text(alphabet='가나다', min_size=5, max_size=7), st.lists(SCORED, min_size=7, max_size=7), st.lists(SCORED, min_size=7, max_size=7)).map(
    lambda t: ({t[0][:i + 1]: v for i, v in enumerate(t[1])}, {t[0][i:]: v for i, v in enumerate(t[2])}, t[0]))
TEXT = gen.sentence('가나다', 3, 7, 1)
LOW = st.sampled_from([-0.4, -0.2, 0, 0.1, 0.2, 0.3, 0.4, 0.45])
OVERLAP = st.tuples(st.fixed_dictionaries({w: LOW for w in ('가', '나', '가나', '나가', '가가', '나다', '다가')}),
                    st.fixed_dictionaries({w: LOW for w in ('가', '나', '다', '나가', '가다', '나나', '다가나')}), gen.sentence("가나다", 3, 7, 2))
options('l_tokenizer', st.one_of(st.tuples(DICTS, TEXT), CHAIN, CHAIN).map(lambda c: (c[0], c[-1])),
        lambda d, o: [LTokenizer(d[0], **o(1)).tokenize(d[1], **o(2)), LTokenizer(d[0], **o(1))(d[1], **o(2))],
        {'1:default_score': (0.0, 0.15, -0.2), '2:tolerance': (0.0, 0.25, 0.45), '2:flatten': (True, False), '2:remove_r': (False, True)})
LONGDICT = st.lists(st.tuples(st.integers(0, 12), st.integers(1, 12), SCORED), min_size=1, max_size=6).flatmap(
    lambda cuts: st.tuples(st.text(alphabet='가나다라마', min_size=10, max_size=15), st.just(cuts)).map(
        lambda t: ({t[0][b:b + n]: s for b, n, s in t[1] if t[0][b:b + n]}, t[0])))
options('max_score', st.one_of(LONGDICT, st.tuples(DICTS, TEXT)),
        lambda d, o: [MaxScoreTokenizer(d[0], **o(1)).tokenize(d[1], **o(2)), MaxScoreTokenizer(d[0], **o(1))(d[1], **o(2))],
        {'1:max_length': (10, 9, 11), '1:default_score': (0.0, 0.15, -0.2), '2:flatten': (True, False)})
options('max_lr_score', st.one_of(st.tuples(DICTS, gen.score_dict('가나다', 2, 5, SCORED), TEXT), CHAIN, OVERLAP),
        lambda d, o: MaxLRScoreTokenizer(Dl=dict(d[0]), Dr=dict(d[1]), **o(1)).tokenize(d[2], **o(2)),
        {'1:max_lscore_difference': (0.3, 0.05, 0.6), '1:max_lscore_diffratio': (0.5, 1.5, 3), '1:ensurable_score_l': (0.5, 0.2, 0.8),
         '1:ensurable_score_lr_diff': (0.3, 0.05, 0.6), '2:flatten': (True, False), '2:debug': (False, True),
         '1:preference_l': (None, {'가나': 3.0}), '1:preference_r': (None, {'나': 3.0})},
        quick=600, thorough=12000)
options('noun_tokenizers', st.tuples(gen.score_dict('가나다', 4, 10, gen.POS_EIGHTHS), TEXT),
        lambda d, o: [NounLMatchTokenizer(d[0]).tokenize(d[1], **o(1)), NounMatchTokenizer(d[0]).tokenize(d[1], **dict(o(1), **o(2)))],
        {'1:compose_compound': (True, False), '2:flatten': (True, False)})
options('regex_tokenizer', gen.rich_text(14), lambda s, o: [RegexTokenizer().tokenize(s, **o(1)), RegexTokenizer()(s, **o(1))],
        {'1:flatten': (True, False)}, quick=100)


def patterns(d, o):
    t = EojeolPatternTrainer(verbose=False, **o(1))
    t.train(d)
    return [t.lrgraph, t.rlgraph]


LENGTHS = st.lists(st.tuples(st.sampled_from([2, 3, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18]), st.sampled_from([8, 9, 10, 11, 12])),
                   min_size=1, max_size=3).map(lambda ns: [('가나다라마바사아자차카타파하거너더러' * 2)[i:i + n] for i, (n, k) in enumerate(ns) for _ in range(k)])
options('pattern_trainer', LENGTHS, patterns, {'1:max_left_length': (10, 9, 11), '1:max_right_length': (6, 5, 7), '1:min_frequency': (10, 9, 11)}, quick=150, thorough=3000)

# ---------------------------------------------------------------- text
TYPED = st.one_of(gen.rich_text(14), st.lists(st.sampled_from(['ㅋ', 'ㅋㅋㅋ', '하하하하', 'ㅠㅠㅠ', '아아아', 'abc', '12', '.', '!!!!', '가', '앜ㅋㅋ', '☆', '★★★', ' ', 'ㅎㅎㅎㅎ']), max_size=8).map(''.join))
options('normalizer', TYPED, lambda s, o: normalizer.normalize(s, **o(1)),
        {'1:alphabet': (False, True), '1:number': (False, True), '1:punctuation': (False, True), '1:symbol': (False, True), '1:remove_repeat': (0, 1, 2)})
options('hangle_normalize', TYPED, lambda s, o: hangle.normalize(s, **o(1)),
        {'1:english': (False, True), '1:number': (False, True), '1:punctuation': (False, True), '1:remove_repeat': (0, 1, 2), '1:remains': ({}, {'ㅋ', '가', '☆'})})
options('repeats', TYPED, lambda s, o: [normalizer.repeat_normalize(s, **o(1)), normalizer.emoticon_normalize(s, **o(1))], {'1:num_repeats': (2, 1, 3)})
PAIR = st.tuples(gen.word('가나각', 0, 4), gen.word('가나각', 0, 4))
options('distances', PAIR, lambda t, o: [hangle.levenshtein(*t, **o(1)), hangle.cosine_distance(*t, **o(2)), hangle.jaccard_distance(*t, **o(3))],
        {'1:cost': ({}, {('가', '나'): 0.1, ('나', '가'): 0.2}), '2:unitfy': (lambda x: dict((c, x.count(c)) for c in x), lambda x: {c: 1 for c in x[:1]}),
         '3:unitfy': (lambda x: set(x), lambda x: set(x[:1]))})

# ---------------------------------------------------------------- predicates
INFLECTED = st.tuples(st.sampled_from(VERBS + ADJS + ['이르', '푸르', '낫', '가볍']), st.sampled_from(EOMIS + ['아', '어', '았다', '어라', '아라', 'ㄷ', '고']))
options('conjugate', INFLECTED, lambda t, o: [conjugate(*t, **o(1)), conjugate_chat(*t, **o(1))], {'1:enforce_moum_harmoney': (False, True)}, quick=200)
options('lemmatize', st.tuples(INFLECTED, st.sampled_from([0, 1])),
        lambda t, o: [Lemmatizer({t[0][0], '크'}, {'고', t[0][1] if t[1] else '네'}, **o(1)).lemmatize(w, **o(2)) for w in sorted(conjugate(*t[0])) + ['자게']],
        {'2:check_only_stem': (False, True)}, quick=200)

# ---------------------------------------------------------------- taggers
TAGS = st.fixed_dictionaries({t: st.sets(gen.word('가나다', 1, 3), max_size=5) for t in ('Noun', 'Verb', 'Adjective', 'Josa', 'Adverb', 'Exclamation', 'Determiner')})


def tagging(d, o):
    dic = Dictionary({t: set(ws) for t, ws in d[0].items()})
    lr = SimpleTagger(LRTemplateMatcher(dic, **o(1)), LREvaluator(**o(2)))
    eo = SimpleTagger(EojeolTemplateMatcher(dic, **o(3)), SimpleEojeolEvaluator(**o(4)))
    return [[lr.tag(d[1], **o(5)), lr.tag(d[1], debug=True)], [eo.tag(d[1], **o(5)), eo.tag(d[1], debug=True)]]


LRW = (('is_noun_phrase', 0.3), ('lr_are_known', 0.15), ('is_verb', 0.2), ('is_adjective', 0.1), ('l_len', 0.1), ('r_len', 0.1), ('l_is_a_syllable', -0.2))
EOW = (('num_nouns', -0.1), ('num_words', -0.15), ('has_noun', 0.2), ('has_unknown', -0.3), ('is_adverb_repeat', 0.1), ('is_compound_noun', -0.05),
       ('is_noun_josa', 0.1), ('is_a_noun', 0.2))
options('taggers', st.tuples(TAGS, TEXT), tagging, {
    '2:weights': (LRW,) + tuple(LRW[:i] + ((LRW[i][0], LRW[i][1] + 0.04),) + LRW[i + 1:] for i in (0, 1, 2, 3, 4, 5, 6)), '2:preference': (None, {'Noun': {'가나': 3}}),
    '4:weights': (EOW,) + tuple(EOW[:i] + ((EOW[i][0], EOW[i][1] + 0.04),) + EOW[i + 1:] for i in (0, 2, 3, 6)),
    '3:single_tags': (['Noun', 'Verb', 'Adjective', 'Adverb', 'Exclamation'], ['Noun']),
    '3:lr_templates': ([('Noun', 'Verb'), ('Noun', 'Adjective'), ('Noun', 'Josa')], [('Noun', 'Josa')]), '5:flatten': (True, False)}, quick=600, thorough=12000)

# ---------------------------------------------------------------- vectors
BAG = st.lists(st.lists(st.sampled_from(['a', 'b', 'B', 'c', '가', '나', 'A가']), min_size=1, max_size=5).map(' '.join), min_size=1, max_size=5)


def bag(docs, o):
    v = BaseVectorizer(verbose=False, **o(1))
    x = v.fit_transform(docs)
    path = os.path.join(scratch(), 'bag31.mm')
    v.to_file(docs, path, **o(2))
    with open(path, 'rb') as f:
        return [x, v.idx2vocab, [int(c) for c in f.read()]]


options('vectorizer', BAG, bag, {
    '1:min_tf': (0, 2, 3), '1:max_tf': (99999999, 1, 2), '1:min_df': (0, 0.5, 0.9), '1:max_df': (1.0, 0.5), '1:stopwords': (None, {'a', '가'}),
    '1:lowercase': (True, False), '1:tokenizer': (lambda x: x.split(), lambda x: list(x))})


def contexts(sents, o):
    x, names = sent_to_word_contexts_matrix(sents, verbose=False, **o(1))
    x = x.tocoo()
    return {(names[i], names[j]): float(v) for i, j, v in zip(x.row.tolist(), x.col.tolist(), x.data.tolist())}


options('word_contexts', st.lists(st.tuples(st.permutations(list('가나다라마')).map(' '.join), st.sampled_from([3, 4, 5, 6])), min_size=2, max_size=3).map(
    lambda ts: [s for s, n in ts for _ in range(n)] + ['가', '나 마']),
    contexts, {'1:windows': (3, 2, 4), '1:min_tf': (10, 9, 11), '1:dynamic_weight': (False, True), '1:tokenizer': (lambda x: x.split(), lambda x: x.split()[:2])})
CELLS = st.lists(st.lists(st.sampled_from([0, 0, 1, 2, 5]), min_size=3, max_size=3), min_size=3, max_size=3)
options('pmi', CELLS, lambda m, o: [f(csr_matrix(np.array(m, dtype=float)), **o(1)) for f in (pmi, pmi_memory_friendly)],
        {'1:min_pmi': (0, -3, 0.5), '1:alpha': (0.0, 0.1), '1:beta': (1, 0.75), '1:py': (None, np.array([[0.5, 0.25, 0.25]]))})

# ---------------------------------------------------------------- words
BASE = st.text(alphabet='가나다라', min_size=2, max_size=12)
NEARFIVE = st.sampled_from([3, 4, 5, 6, 11])
FREQUENT = st.lists(st.tuples(BASE, st.lists(st.tuples(gen.word('가나다', 0, 7), NEARFIVE), min_size=1, max_size=3)), min_size=1, max_size=3).map(
    lambda bs: [b + t for b, ts in bs for t, n in ts for _ in range(n)])
SKEWED = st.lists(st.tuples(st.sampled_from(['가', '나', '가나', '다', '가나다']), st.sampled_from([1, 5, 6, 40, 97, 100, 120])), min_size=2, max_size=6).map(
    lambda ws: [w for w, n in ws for _ in range(n)])


def word_scores(sents, o):
    w = WordExtractor(**o(1))
    w.train(sents, **o(2))
    a = canon([w.extract(), dict(w.L)])
    w.train(sents[1::2], **o(2))
    w.remove_subwords = True
    return [a, w.extract(), sorted(w.L.items()), sorted(w.R.items())]


RARE = st.tuples(st.integers(5, 7), st.integers(80, 130), st.sampled_from(['', '다'])).map(lambda t: ['가나' + t[2]] * t[0] + ['가다'] * t[1])
DROP = st.tuples(st.integers(94, 130), st.integers(1, 3)).map(lambda t: ['가나다'] * t[0] + ['가나라'] * t[1])
HEADS = st.tuples(st.text(alphabet='마바', min_size=9, max_size=12), st.sampled_from([4, 5, 6, 7])).map(lambda t: [t[0] + a for a in '가나다' for _ in range(t[1])])
TAILS = st.tuples(st.text(alphabet='마바', min_size=3, max_size=9), st.sampled_from([4, 5, 6, 7])).map(lambda t: [a + t[0] for a in '가나다' for _ in range(t[1])])
options('word_extractor', st.one_of(FREQUENT, TAILS, HEADS, SKEWED, RARE, DROP), word_scores, {
    '1:max_left_length': (10, 9, 11), '1:max_right_length': (6, 5, 7), '1:min_frequency': (5, 4, 6), '1:min_cohesion_forward': (0.05, 0.3, 0.04, 0.06),
    '1:min_cohesion_backward': (0.0, 0.1), '1:max_droprate_leftside_frequency': (0.98, 0.8, 0.97, 0.99),
    '1:min_left_branching_entropy': (0.0, 0.1), '1:min_right_branching_entropy': (0.0, 0.1), '1:min_left_accessor_variety': (0, 1),
    '1:min_right_accessor_variety': (0, 1), '1:remove_subwords': (False, True), '2:num_for_pruning': (0, 2), '2:cumulate': (True, False)},
    quick=400, thorough=8000)


def bigrams(d, o):
    b = Bigram(verbose=False, **o(1))
    b.train(d)
    return b.extract(**o(2))


PAIRS = st.lists(st.tuples(st.sampled_from(['가 나', '나 다', '가 다', '나 가', '다 나 가']), NEARFIVE), min_size=1, max_size=4).map(
    lambda ts: [s for s, n in ts for _ in range(n)])
options('bigram', PAIRS, bigrams, {'1:min_frequency': (5, 4, 6), '1:score': ('frequency', 'pmi'), '1:tokenizer': (None, list),
                                   '2:topk': (-1, 1, 2), '2:threshold': (0, 6, 1)}, quick=150)

# ---------------------------------------------------------------- nouns
BALANCED = st.lists(st.tuples(st.text(alphabet='무호', min_size=2, max_size=4), st.sampled_from(['에', '까지']), st.sampled_from(['었다', '했으면', '면']),
                              st.sampled_from([(3, 1), (8, 3), (2, 1), (7, 3), (13, 7), (7, 4), (1, 1), (15, 5), (16, 5), (14, 5), (13, 5), (18, 5)])),
                    min_size=1, max_size=3).map(lambda ts: [h + t[0] + r for h, t in zip('가나다', ts) for r, n in ((t[1], t[3][0]), (t[2], t[3][1])) for _ in range(n)])
WITH_JOSA = st.one_of(BALANCED, c_noun.real_corpus().map(lambda c: c_noun.expand(c['eojeols'], c['width'])))


def heads(sents):
    return sorted({w[:i] for s in sents for w in s.split() for i in (2, 3, 4)})[:12]


def noun1(d, o):
    x = LRNounExtractor(verbose=False, **o(1))
    a = canon(x.train_extract(d, **dict(o(2), **o(3))))
    x.train(d, **o(2))
    b = canon(x.extract(**dict(o(2), **o(3))))
    return [a, b, [[x.predict(w, **o(3)), x.is_noun(w, **o(3))] for w in heads(d)]]


options('noun_v1', WITH_JOSA, noun1, {
    '1:max_left_length': (10, 9, 11), '1:max_right_length': (7, 1), '1:min_num_of_features': (1, 2),
    '2:min_noun_frequency': (5, 4, 6), '3:min_noun_score': (0.5, 0.4, 0.6, 0.45, 0.55)}, quick=250, thorough=4000)


def news(d, o):
    x = NewsNounExtractor(verbose=False, **o(1))
    a = canon(x.train_extract(d, **o(2)))
    x.train(d)
    return [a, x.extract(**o(2))]


options('noun_news', WITH_JOSA, news, {
    '1:max_left_length': (10, 9, 11), '1:max_right_length': (7, 1), '2:min_noun_score': (0.4, 0.3, 0.5), '2:min_frequency': (3, 2, 4),
    '2:min_feature_proportion': (0.6, 0.4, 0.8), '2:noun_candidates': (None, {'나무'})}, quick=250, thorough=4000)


def noun2(d, o):
    x = LRNounExtractor_v2(verbose=False, **o(1))
    a = canon(x.train_extract(d, **dict(o(2), **dict(o(3), **o(4)))))
    x.train(d, **o(2))
    g = canon(x.extract(**dict(o(3), **o(4))))
    return [a, g, view(x.lrgraph, d), [x.predict(w, **({k: v for k, v in o(3).items() if k == 'min_noun_score'})) for w in heads(d)]]


options('noun_v2', WITH_JOSA, noun2, {
    '1:max_left_length': (10, 9, 11), '1:max_right_length': (9, 1), '1:min_num_of_features': (1, 2), '1:max_frequency_when_noun_is_eojeol': (30, 29, 31),
    '1:extract_compound': (True, False), '2:min_eojeol_frequency': (1, 2), '3:min_noun_score': (0.3, 0.1, 0.5), '3:min_noun_frequency': (1, 2, 3),
    '4:reset_lrgraph': (True, False)}, quick=250, thorough=4000)


def njs(d, o):
    return npp.check_N_is_NJ({'나무': (10, 1.0), '나무은': (3, 1.0), '하늘': (4, 1.0)}, LRGraph(sents=d), **o(1))


JOSAD = st.lists(st.sampled_from(['은', '는', '을', '를', '에서', '이', '가', '에게', '만', '도']), min_size=3, max_size=8, unique=True).map(
    lambda js: ['나무은'] + ['나무' + j for j in js] + ['나무은' + j for j in js])
options('noun_with_josa', JOSAD, njs, {'1:min_num_of_josa': (5, 4, 6)}, quick=100)

# ---------------------------------------------------------------- predicates from corpora
PLAIN = ['는다', '는데', '었다', '으며', '지만', '니까', '자', '네', '던', '려고', '겠다', '습니다', '도록', '거든', '라고']


def tailed(t):
    stem, k, each, extra, alone = t
    return [stem + e for e in PLAIN[:k] for _ in range(each)] + [stem + PLAIN[0]] * extra + [stem] * alone


def stems(d, o):
    x = StemExtractor(LRGraph(sents=['먹' + e for e in PLAIN] + d), {'먹'}, set(PLAIN), verbose=False, **o(1))
    return [x.extract(**o(2)), [x.predict(w, **{k: v for k, v in o(2).items() if k == 'min_stem_score'}) for w in ('붙잡', '늙볶', '졸리')]]


TAILED = st.lists(st.tuples(st.sampled_from(['붙잡', '늙볶', '졸리']), st.sampled_from([8, 9, 10, 10, 11, 12]), st.sampled_from([1, 9, 10, 11]),
                            st.one_of(st.integers(0, 9), st.integers(80, 130)), st.sampled_from([0, 14, 17, 18, 22, 30])), min_size=1, max_size=3).map(lambda ts: [w for t in ts for w in tailed(t)])
options('stems', TAILED, stems, {'1:min_num_of_unique_R_char': (10, 8, 9, 11), '1:min_entropy_of_R_char': (0.5, 0.4, 0.6, 0.8), '2:min_stem_score': (0.7, 0.6, 0.8),
                                 '2:min_stem_frequency': (100, 90, 110), '2:L_ignore': (None, {'붙잡'})}, quick=150, thorough=3000)


SPOKEN = st.lists(st.tuples(st.sampled_from(VERBS[:6] + ADJS[:3] + ['졸리', '거리']), st.lists(st.sampled_from(EOMIS), min_size=1, max_size=12, unique=True),
                            st.sampled_from([1, 1, 2, 3])), min_size=1, max_size=6).map(
    lambda ts: [w for s, es, n in ts for e in es for w in sorted(conjugate(s, e))[:1] for _ in range(n)])


def predicates(d, o):
    x = PredicatorExtractor(['나무', '하늘'], {'은', '는', '이', '고'}, set(ADJS[:3]), set(VERBS[:4]), set(EOMIS[:6]) | (set(PLAIN) if '먹습니다' in d else set()), verbose=False, **o(1))
    out = [canon(x.train_extract(d, **dict(o(2), **o(3))))]
    x.train(d, **o(2))
    return out + [x.extract(**o(3))]


NEW = st.lists(st.tuples(st.lists(st.sampled_from(VERBS[:4] + ADJS[:3]), min_size=3, max_size=7, unique=True), st.sampled_from(['네', '게', '기', '거나', '던'])),
               min_size=1, max_size=3).map(lambda ts: [w for ss, e in ts for s in ss for w in sorted(conjugate(s, e))[:1] for _ in range(2)])
WITH_TAILS = TAILED.map(lambda d: ['먹' + e for e in PLAIN for _ in range(2)] + d)
options('predicates', st.one_of(SPOKEN, st.tuples(SPOKEN, NEW).map(lambda t: t[0] + t[1]), WITH_TAILS), predicates, {
    '1:extract_eomi': (False, True), '1:extract_stem': (False, True), '2:min_eojeol_frequency': (2, 1, 3),
    '3:min_predicator_frequency': (1, 2, 3), '3:candidates': (None, {'먹고': 3, '먹는': 1, '예쁘다': 2})}, quick=150, thorough=3000)


def eomis(d, o):
    g = LRGraph(sents=d)
    x = EomiExtractor(g, set(VERBS[:6] + ADJS[:2]), {'나무', '가'}, verbose=False, **o(1))
    return [x.extract(**o(2)), view(g, d), [x.predict(r, **{k: v for k, v in o(2).items() if k == 'min_eomi_score'}) for r in ('고', '는', '겠다')]]


MANY = st.lists(st.tuples(st.lists(st.sampled_from(VERBS[:9] + ADJS[:3]), min_size=2, max_size=9, unique=True), st.sampled_from(EOMIS), st.sampled_from([1, 2])),
                min_size=1, max_size=4).map(lambda ts: [w for ss, e, n in ts for s in ss for w in sorted(conjugate(s, e))[:1] for _ in range(n)])
options('eomis', MANY, eomis, {'1:min_num_of_features': (5, 4, 6), '2:min_eomi_score': (0.3, 0.1, 0.6), '2:min_eomi_frequency': (1, 6, 9),
                               '2:condition': (None, '고', '는'), '2:reset_lrgraph': (True, False)}, quick=200, thorough=4000)

# ---------------------------------------------------------------- further entry points
options('token_normalize', TYPED, lambda s, o: token_normalize(s, **o(1)), {'1:num_repeat': (2, 1, 3)})


def hits(d, o):
    t = EojeolPatternTrainer(verbose=False, min_frequency=1)
    t.train(d)
    if not any(r for rs in t.lrgraph.values() for r in rs):
        return None
    return t.train_hits(**o(1))


options('hits', st.lists(st.tuples(gen.word('가나다', 2, 4), st.integers(1, 9)), min_size=1, max_size=8).map(lambda ws: [w for w, n in ws for _ in range(n)]), hits,
        {'1:sum_of_rank': (10000, 5000), '1:decaying_factor': (0.9, 0.85), '1:max_iter': (10, 9, 11), '1:tolerance': (0.0001, 0.001, 0.00001)}, quick=200)


def domain(d, o):
    words, scores = d
    g = LRGraph()
    for l, r, n in words:
        g.add_lr_pair(l, r, n)
    return extract_domain_pos_features(dict(scores), g, {'은', '는'}, **o(1))


NAMES = ['나무', '고무', '하무', '하늘', '구무', '바다', '고기', '바무', '구름', '두무', '서무']
HEAVY = st.tuples(
    st.lists(st.tuples(st.sampled_from(['서', '커녕', '만']), st.sets(st.sampled_from(NAMES), min_size=6), st.sampled_from([20, 40, 60, 150, 250]), st.sampled_from([20, 90, 150, 200, 250, 300])), min_size=1, max_size=2).map(
        lambda ts: [(x, r, b if x[1] == '무' else a) for r, xs, a, b in ts for x in sorted(xs)]),
    st.lists(st.tuples(st.sampled_from([99, 100, 101, 500, 500, 500]), st.sampled_from([0.25, 0.3, 0.35, 0.9, 0.9, 0.9])), min_size=len(NAMES), max_size=len(NAMES)),
    st.sets(st.sampled_from(['나무서', '하늘서', '고무서', '바다서', '하무서', '구무서', '나무만', '하늘커']), max_size=5)).map(
        lambda t: (t[0], list(zip(NAMES, t[1])) + [(n, (500, 0.9)) for n in sorted(t[2])]))
options('domain_features', HEAVY, domain, {
    '1:min_noun_score': (0.3, 0.2, 0.4), '1:min_noun_frequency': (100, 95, 105), '1:min_pos_score': (0.3, 0.1, 0.45), '1:min_pos_feature_frequency': (1000, 900, 1100),
    '1:min_num_of_unique_lastchar': (4, 3, 5), '1:min_entropy_of_lastchar': (0.5, 0.3, 0.9), '1:min_noun_entropy': (1.5, 1.3, 1.7), '1:ignore_features': (None, {'커녕'})})


def tagged(d, o):
    return [kind(verbose=False).train_extract(d, **o(1)) for kind in (NewsPOSExtractor, ChatPOSExtractor)]


SPEECH = st.tuples(WITH_JOSA, st.one_of(SPOKEN, NEW)).map(lambda t: t[0] + t[1])
options('pos_extractors', SPEECH, tagged, {
    '1:min_num_of_noun_features': (1, 2), '1:max_frequency_when_noun_is_eojeol': (30, 29, 31), '1:min_noun_score': (0.3, 0.2, 0.5), '1:min_noun_frequency': (1, 2, 3),
    '1:min_eojeol_frequency': (1, 2), '1:min_predicator_frequency': (1, 2, 3), '1:min_num_of_eomi_features': (5, 4, 6), '1:min_eomi_score': (0.3, 0.1, 0.6),
    '1:min_eomi_frequency': (1, 6, 9)}, quick=20, thorough=400)
