"""C37 objects work together: what one part of soynlp produces, another one takes."""
import contextlib
import io
import os

from hypothesis import strategies as st

import agents
import gen
from agents import canon
from c_system import PARAMS, korean_corpus, empty
from c_relations import CORPUS, near, TABLE, LETTERS
from core import sub, describe, scratch
from soynlp.lemmatizer import Lemmatizer
from soynlp.noun import LRNounExtractor, LRNounExtractor_v2, NewsNounExtractor
from soynlp.postagger import Dictionary, LREvaluator, LRTemplateMatcher, SimpleTagger, UnknowLRPostprocessor
from soynlp.predicator import EomiExtractor, PredicatorExtractor, StemExtractor
from soynlp.tokenizer import LTokenizer, MaxLRScoreTokenizer, MaxScoreTokenizer, NounLMatchTokenizer, NounMatchTokenizer, RegexTokenizer
from soynlp.utils import DoublespaceLineCorpus, EojeolCounter, LRGraph
from soynlp.vectorizer import BaseVectorizer, sent_to_word_contexts_matrix
from soynlp.word import Bigram, WordExtractor

describe('C37', 'Corpora and texts that pass through several objects: extractors whose words become the scores, nouns or dictionaries of '
         'tokenizers, taggers and lemmatizers, tokenizers handed to vectorizers, pair extraction and context matrices, and files, counters '
         'and graphs as the source of extractors. Non-trivial: the second object gave a result that is not empty.')

TEXTS = st.one_of(korean_corpus(6), gen.corpus(LETTERS, max_sents=8), gen.chained_corpus(LETTERS, max_sents=5), st.lists(gen.rich_text(14), min_size=1, max_size=6))
SCORED = ['words', 'cohesion', 'noun1', 'noun2', 'news', 'table']
TOKENIZERS = ['l', 'maxscore', 'maxlr', 'regex', 'nounl', 'nounm']


def scores_from(kind, c, table, p):
    if kind in ('words', 'cohesion'):
        x = WordExtractor(min_frequency=p['f'])
        x.train(c)
        return {w: s.cohesion_forward * (s.right_branching_entropy if kind == 'words' else 1) for w, s in x.extract().items()}
    if kind == 'noun1':
        x = LRNounExtractor(predictor_fnames=[agents.features(p) + '_coef'], verbose=False)
        return {w: s.score for w, s in x.train_extract(c, p['s'], p['f']).items()}
    if kind == 'noun2':
        x = LRNounExtractor_v2(predictor_headers=[agents.features(p)], verbose=False)
        return {w: s.score for w, s in x.train_extract(c, min_noun_score=p['s'], min_noun_frequency=p['f']).items()}
    if kind == 'news':
        x = NewsNounExtractor(predictor_fnames=[agents.features(p) + '_coef'], verbose=False)
        x.train(c)
        return {w: s.score for w, s in x.extract(min_noun_score=p['s'], min_frequency=p['f']).items()}
    return dict(table)


def tokenizer(kind, scores):
    return dict(l=lambda: LTokenizer(scores), maxscore=lambda: MaxScoreTokenizer(scores),
                maxlr=lambda: MaxLRScoreTokenizer(Dl=scores, Dr={'은': .5, '는': .4, '을': .5, '나': .2, '다': .3}), regex=RegexTokenizer,
                nounl=lambda: NounLMatchTokenizer(scores), nounm=lambda: NounMatchTokenizer(scores))[kind]()


CALLS = st.fixed_dictionaries(dict(scores=st.sampled_from(SCORED), tokenizer=st.sampled_from(TOKENIZERS), corpus=TEXTS, text=st.one_of(gen.sentence(LETTERS, 4, 6, 1), gen.rich_text(14)),
                                   table=TABLE, p=PARAMS))


@sub('C37', 'tokenizers', CALLS, quick=700, thorough=15000,
     rule='a tokenizer is a function; the words an extractor finds are the words its tokenizer knows')
def tokenizers(case):
    c, p = list(case['corpus']) or ['나무'], case['p']
    with contextlib.redirect_stdout(io.StringIO()):
        scores = scores_from(case['scores'], c, case['table'], p)
        t = tokenizer(case['tokenizer'], scores)
        known = 0
        for s in c + [case['text']]:
            got = t.tokenize(s)
            printed = io.StringIO()
            with contextlib.redirect_stdout(printed):
                called = t(s)
            assert called == got and not printed.getvalue(), (case, s, called, got, printed.getvalue())
            got = [w[0] if case['tokenizer'] == 'maxlr' else w for w in got]
            assert all(isinstance(w, str) for w in got), (case, s, got)
            if case['tokenizer'] in ('nounl', 'nounm'):
                kw = dict(compose_compound=False)
                assert set(t.tokenize(s, **kw)) <= set(scores), (case, s, t.tokenize(s, **kw))
                assert canon(t(s, **kw)) == canon(t.tokenize(s, **kw)), (case, s)
            else:
                assert ''.join(got) == ''.join(s.split()), (case, s, got)
                assert t(s, flatten=False) == t.tokenize(s, flatten=False), (case, s)
            known += sum(w in scores for w in got)
    return case['tokenizer'] if known or case['tokenizer'] == 'regex' else None


def vectorized(c, p, **kw):
    v = BaseVectorizer(min_tf=p['f'], verbose=False, lowercase=p['b'], **kw)
    x = v.fit_transform(c)
    return [x, v.idx2vocab, v.encode_a_doc_to_bow(c[-1]), v.encode_a_doc_to_list(c[0]), v.transform(c[::-1])]


def contexts(c, p, **kw):
    x, names = sent_to_word_contexts_matrix(c, windows=p['n'], min_tf=p['f'], dynamic_weight=p['c'], verbose=False, **kw)
    return [{(names[i], names[j]): v for i, j, v in zip(*(a.tolist() for a in (x.tocoo().row, x.tocoo().col, x.tocoo().data)))}]


def paired(c, p, **kw):
    return [Bigram(c, min_frequency=p['f'], verbose=False, score=k, **kw).extract() for k in ('frequency', 'pmi', 'mikolov')]


USERS = dict(bow=vectorized, contexts=contexts, pairs=paired)


@sub('C37', 'tokenized', st.tuples(CALLS, st.sampled_from(sorted(USERS))).map(lambda t: dict(t[0], user=t[1])), quick=700, thorough=15000,
     rule='counting with a tokenizer equals counting the sentences it has tokenized')
def tokenized(case):
    c, p = list(case['corpus']) or ['나무'], case['p']
    with contextlib.redirect_stdout(io.StringIO()):
        x = tokenizer(case['tokenizer'], scores_from(case['scores'], c, case['table'], p))
        t = (lambda s: [w for w, _ in x(s)]) if case['tokenizer'] == 'maxlr' else x
        f = USERS[case['user']]
        got = canon(f(c, p, tokenizer=t))
        want = canon(f([' '.join(t(s)) for s in c], p))
    assert near(got, want), (case, got, want)
    return case['user'] if not empty(got) else None


@sub('C37', 'lemmas', st.fixed_dictionaries(dict(corpus=korean_corpus(15), p=PARAMS.map(lambda p: dict(p, k=max(p['k'], 6))))), quick=400, thorough=6000,
     rule='a lemmatizer with the stems and endings of the extracted predicates finds the lemmas they were extracted with')
def lemmas(case):
    p, c = case['p'], list(case['corpus'])
    with contextlib.redirect_stdout(io.StringIO()):
        x = PredicatorExtractor(['나무', '하늘', '고기', '사랑'], set(agents.JOSAS), set(agents.ADJS[:p['k']]), set(agents.VERBS[:p['k']]),
                                set(agents.EOMIS[:p['k'] * 2]), extract_eomi=p['b'], extract_stem=p['c'], verbose=False)
        x.train(c, min_eojeol_frequency=p['f'], min_num_of_features=p['n'], min_stem_score=.5, min_stem_frequency=p['f'])
        tables = x.extract()
    pairs = {pair for t in tables for v in t.values() for pair in v.lemma}
    lem = Lemmatizer({s for s, _ in pairs}, {e for _, e in pairs})
    for t in tables:
        for w, v in t.items():
            got = set(lem.lemmatize(w))
            assert set(v.lemma) <= got, (case, w, v, got)
    return sorted(i for i, t in enumerate(tables) if t) and ['%d' % i for i, t in enumerate(tables) if t] or None


@sub('C37', 'tags', st.fixed_dictionaries(dict(corpus=korean_corpus(12), p=PARAMS, kind=st.sampled_from(['noun1', 'noun2', 'news', 'table']),
                                               table=TABLE)), quick=400, thorough=9000,
     rule='a tagger whose dictionary holds the extracted nouns and predicates tags every such word form as one of them')
def tags(case):
    p, c = case['p'], list(case['corpus'])
    with contextlib.redirect_stdout(io.StringIO()):
        nouns = set(scores_from(case['kind'], c, case['table'], p))
        x = PredicatorExtractor(nouns | {'나무'}, set(agents.JOSAS), set(agents.ADJS[:p['k']]), set(agents.VERBS[:p['k']]),
                                set(agents.EOMIS[:p['k'] * 2]), extract_eomi=False, extract_stem=False, verbose=False)
        x.train(c, min_eojeol_frequency=p['f'])
        adjs, verbs = x.extract()
    d = Dictionary({'Noun': nouns, 'Josa': set(agents.JOSAS), 'Adjective': set(adjs), 'Verb': set(verbs)})
    t = SimpleTagger(LRTemplateMatcher(d), LREvaluator(), UnknowLRPostprocessor())
    hits = 0
    for s in c:
        got = t.tag(s)
        assert ''.join(w for w, _ in got) == ''.join(s.split()), (case, s, got)
        for w, tag in got:
            assert tag is None or w in {'Noun': nouns, 'Josa': agents.JOSAS, 'Adjective': adjs, 'Verb': verbs}[tag], (case, s, got)
            hits += tag is not None
        for w in s.split():
            if any(w in x for x in (nouns, adjs, verbs)) and len(w) > 1:
                one = t.tag(w)
                assert any(tag for _, tag in one), (case, w, one)
    return case['kind'] if hits else None


@sub('C37', 'sources', st.fixed_dictionaries(dict(corpus=CORPUS, p=PARAMS, kind=st.sampled_from(['noun2', 'predicates', 'eomi']),
                                                  ways=st.lists(st.sampled_from(['file', 'counter', 'saved counter', 'graph', 'saved graph', 'back']), min_size=1, max_size=3))),
     quick=500, thorough=10000, rule='a corpus gives the same words through files, counters and graphs, saved and loaded')
def sources(case):
    c, p = [s for s in case['corpus'] if s.strip()], case['p']
    if not c:
        return None
    path = os.path.join(scratch(), 'together_%d' % os.getpid())

    def through(way):
        if way == 'file':
            with open(path, 'w', encoding='utf-8') as f:
                f.write(''.join(' '.join(s.split()) + '\n' for s in c))
            return EojeolCounter(list(DoublespaceLineCorpus(path, iter_sent=True)), min_count=p['f'], verbose=False)
        n = EojeolCounter(c, min_count=p['f'], verbose=False)
        if way == 'counter':
            return n
        if way == 'saved counter':
            n.save(path)
            m = EojeolCounter(verbose=False)
            m.load(path)
            return m
        g = n.to_lrgraph(l_max_length=10, r_max_length=9)
        if way == 'saved graph':
            g.save(path)
            g = LRGraph(l_max_length=10, r_max_length=9)
            g.load(path)
        return g.to_EojeolCounter(0) if way == 'back' else g

    def words(source):
        if case['kind'] == 'noun2':
            x = LRNounExtractor_v2(predictor_headers=[agents.features(p)], verbose=False, min_num_of_features=p['n'], extract_compound=p['b'],
                                   extract_pos_feature=p['c'])
            x.train(source)
            return x.extract(min_noun_score=p['s'], min_noun_frequency=p['f'])
        if case['kind'] == 'predicates':
            x = PredicatorExtractor(['나무', '하늘'], set(agents.JOSAS), set(agents.ADJS), set(agents.VERBS[:p['k']]), set(agents.EOMIS[:p['k'] * 2]),
                                    extract_eomi=p['b'], extract_stem=p['c'], verbose=False)
            x.train(source, min_num_of_features=p['n'], min_stem_score=.5, min_stem_frequency=p['f'])
            return [{w: (v.frequency, set(v.lemma)) for w, v in t.items()} for t in x.extract()]
        g = source if isinstance(source, LRGraph) else source.to_lrgraph(l_max_length=10, r_max_length=9)
        e = EomiExtractor(g, set(agents.VERBS + agents.ADJS), {'나무'}, verbose=False, min_num_of_features=p['n'])
        return e.extract(min_eomi_score=p['s'])

    with contextlib.redirect_stdout(io.StringIO()):
        want = canon(words(EojeolCounter(c, min_count=p['f'], verbose=False)))
        for way in case['ways']:
            got = canon(words(through(way)))
            assert near(want, got), (case, way, want, got)
    return sorted(set(case['ways'])) if not empty(want) else None
