"""Everything soynlp trains on a corpus, behind one interface (used by C28 to C30).

An agent is (make(params), feed(object, corpus, params), read(object, params)); read gives a canonical plain value.
"""
import contextlib
import io
import math
import os

from core import scratch
from soynlp import hangle, normalizer
from soynlp.hangle import ConvolutionHangleEncoder
from soynlp.lemmatizer import Lemmatizer, conjugate
from soynlp.noun import LRNounExtractor, LRNounExtractor_v2, NewsNounExtractor
from soynlp.pos import ChatPOSExtractor, NewsPOSExtractor
from soynlp.postagger import (Dictionary, EojeolTemplateMatcher, LREvaluator, LRTemplateMatcher, POSExtractor,
                              SimpleEojeolEvaluator, SimpleTagger, UnknowLRPostprocessor)
from soynlp.predicator import EomiExtractor, PredicatorExtractor, StemExtractor
from soynlp.tokenizer import (LTokenizer, MaxLRScoreTokenizer, MaxScoreTokenizer, NounLMatchTokenizer,
                              NounMatchTokenizer, RegexTokenizer)
from soynlp.tokenizer._tokenizer_builder import EojeolPatternTrainer
from soynlp.utils import EojeolCounter, LRGraph
from soynlp.vectorizer import BaseVectorizer, sent_to_word_contexts_matrix
from soynlp.word import Bigram, WordExtractor, pmi

VERBS = ['먹', '가', '보', '하', '오', '쓰', '묻', '짓', '고르', '달리', '돕', '주', '덤비', '입', '살']
ADJS = ['예쁘', '파랗', '크', '춥', '좋', '이', '아니', '가깝', '슬프']
EOMIS = ['고', '는', '다', '면', '으면', '지만', '니까', '던', '거나', '어서', '아서', '었다', '았다', 'ㄴ', 'ㄹ', 'ㄴ다', '는다',
         '자', '어', '아', '네', '려고', '러', '겠다', '게', '기']
JOSAS = ['은', '는', '이', '가', '을', '를', '에서', '고', '다']


def canon(x):
    if x is None or isinstance(x, (str, bool, int)):
        return x
    if isinstance(x, float):
        return float('%.9g' % x) if math.isfinite(x) else repr(x)
    if hasattr(x, 'tocoo'):
        c = x.tocoo()
        return [list(c.shape)] + sorted([int(i), int(j), float('%.9g' % v)] for i, j, v in zip(c.row, c.col, c.data) if v)
    if isinstance(x, dict) or hasattr(x, 'items'):
        return ['dict'] + sorted(([canon(k), canon(v)] for k, v in x.items()), key=repr)
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted((canon(v) for v in x), key=repr)
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if hasattr(x, 'tolist'):
        return canon(x.tolist())
    if hasattr(x, 'item'):
        return canon(x.item())
    return canon(vars(x))


@contextlib.contextmanager
def small_dictionaries():
    """The default dictionaries make one extraction last about 40 s."""
    saved = {}
    new = dict(_load_default_stems=lambda self, *a, **k: (set(ADJS), set(VERBS)),
               _load_default_eomis=lambda self, *a, **k: set(EOMIS))
    for name, f in new.items():
        if name in vars(PredicatorExtractor):
            saved[name] = vars(PredicatorExtractor)[name]
            setattr(PredicatorExtractor, name, f)
    try:
        yield len(saved) == 2
    finally:
        for name, f in saved.items():
            setattr(PredicatorExtractor, name, f)


AGENTS = {}


def agent(name):
    def deco(cls):
        AGENTS[name] = cls
        return cls
    return deco


def features(p_=None):
    p = os.path.join(scratch(), 'agents_%d' % os.getpid())
    if not os.path.exists(p + '_pos'):
        for suffix, words in (('_pos', ['은', '는', '을', '를', '에서', '이', '가', '']),
                              ('_neg', ['고', '는', '면', '다', '어서', '이', '지만'])):
            with open(p + suffix, 'w', encoding='utf-8') as f:
                f.write(''.join(w + '\n' for w in words if w))
        for suffix, words in (('2_pos', ['은', '고', '하고', '지만', '가', '이', '']), ('2_neg', ['는', '다', '에서', '을'])):
            with open(p + suffix, 'w', encoding='utf-8') as f:
                f.write(''.join(w + '\n' for w in words if w))
        for suffix, scores in (('_coef', (('은', .9), ('는', .5), ('을', 1), ('를', .9), ('에서', .8), ('이', .4),
                                          ('가', .5), ('고', -.5), ('면', -.9), ('다', -1), ('에', .7))),
                               ('2_coef', (('고', .9), ('는', .8), ('하고', .7), ('이', -.4), ('은', -.9), ('지만', 1), ('다', .3)))):
            with open(p + suffix, 'w', encoding='utf-8') as f:
                f.write(''.join('%s\t%f\n' % kv for kv in scores))
    return p + ('2' if p_ and p_['k'] == 3 else '')


@agent('words')
class Words:
    @staticmethod
    def make(p, v):
        return WordExtractor(min_frequency=p['f'], verbose_points=1 if v else 100000, remove_subwords=p['b'])

    @staticmethod
    def feed(o, c, p):
        o.train(c, cumulate=False)

    @staticmethod
    def read(o, p):
        return canon([o.extract(), o.word_scores(), sorted(o.words())])

    @staticmethod
    def raw(o, p):
        return [o.extract(), o.word_scores(), o.all_cohesion_scores(), o.all_branching_entropy(), o.all_accessor_variety()]


@agent('scores')
class Scores(Words):
    """Words, then tokenizers built from their scores."""

    @staticmethod
    def read(o, p):
        s = {w: x.cohesion_forward for w, x in o.extract().items()}
        text = ' '.join(sorted(s)) + ' ' + '가나나무에서'
        return canon([LTokenizer(s).tokenize(text), MaxScoreTokenizer(s).tokenize(text, flatten=False),
                      NounLMatchTokenizer(s).tokenize(text), NounMatchTokenizer(s).tokenize(text)])


@agent('noun1')
class Noun1:
    @staticmethod
    def make(p, v):
        return LRNounExtractor(predictor_fnames=[features(p) + '_coef'], verbose=v, min_num_of_features=p['n'])

    @staticmethod
    def feed(o, c, p):
        o.train(c, p['f'])

    @staticmethod
    def read(o, p):
        return canon(o.extract(min_noun_score=p['s'], min_noun_frequency=p['f']))

    @staticmethod
    def raw(o, p):
        return [o.extract(min_noun_score=p['s'], min_noun_frequency=p['f'])]


@agent('noun2')
class Noun2:
    @staticmethod
    def make(p, v):
        return LRNounExtractor_v2(predictor_headers=[features(p)], verbose=v, min_num_of_features=p['n'],
                                  extract_compound=p['b'], extract_pos_feature=p['c'],
                                  max_frequency_when_noun_is_eojeol=3)

    @staticmethod
    def feed(o, c, p):
        o.train(c, p['f'])

    @staticmethod
    def read(o, p):
        a = canon(o.extract(min_noun_score=p['s'], min_noun_frequency=p['f']))
        return [a, canon(o.lrgraph._lr), canon(getattr(o, '_compounds_components', None))]

    @staticmethod
    def raw(o, p):
        return [o.extract(min_noun_score=p['s'], min_noun_frequency=p['f'])]


@agent('news')
class News:
    @staticmethod
    def make(p, v):
        return NewsNounExtractor(predictor_fnames=[features(p) + '_coef'], verbose=v)

    @staticmethod
    def feed(o, c, p):
        o.train(c)

    @staticmethod
    def read(o, p):
        return canon(o.extract(min_noun_score=p['s'], min_frequency=p['f']))

    @staticmethod
    def raw(o, p):
        return [o.extract(min_noun_score=p['s'], min_frequency=p['f'])]


@agent('predicates')
class Predicates:
    @staticmethod
    def make(p, v):
        return PredicatorExtractor(['나무', '하늘', '고기', '사랑'], set(JOSAS), set(ADJS[:p['k']]), set(VERBS[:p['k']]),
                                   set(EOMIS[:p['k'] * 2]), extract_eomi=p['b'], extract_stem=p['c'], verbose=v)

    @staticmethod
    def feed(o, c, p):
        o.train(c, min_eojeol_frequency=p['f'], min_num_of_features=p['n'], min_num_of_unique_R_char=2,
                min_entropy_of_R_char=0.1, min_entropy_of_R=0.1, min_stem_score=0.5, min_stem_frequency=p['f'])

    @staticmethod
    def read(o, p):
        a, v = o.extract()
        return canon([{w: (x.frequency, set(x.lemma)) for w, x in d.items()} for d in (a, v)])

    @staticmethod
    def raw(o, p):
        return list(o.extract())


class Pos:
    @staticmethod
    def feed(o, c, p):
        with small_dictionaries():
            o.train(c, min_num_of_noun_features=p['n'], min_noun_score=p['s'], min_eojeol_frequency=p['f'],
                    min_num_of_eomi_features=p['n'])

    @staticmethod
    def read(o, p):
        r = o.extract()
        return canon({k: ({w: (x.frequency, set(x.lemma)) for w, x in d.items()} if k in ('Adjective', 'Verb')
                          else dict(d) if hasattr(d, 'items') else set(d)) for k, d in r.items()})

    @staticmethod
    def raw(o, p):
        return [d for d in o.extract().values() if hasattr(d, 'items')]


@agent('pos_news')
class PosNews(Pos):
    @staticmethod
    def make(p, v):
        return NewsPOSExtractor(verbose=v, ensure_normalized=p['b'], extract_eomi=p['c'])


@agent('pos_chat')
class PosChat(Pos):
    @staticmethod
    def make(p, v):
        return ChatPOSExtractor(verbose=v, ensure_normalized=p['b'], extract_eomi=p['c'])


@agent('pos_tag')
class PosTag:
    @staticmethod
    def make(p, v):
        return [POSExtractor(verbose=v), None]

    @staticmethod
    def feed(o, c, p):
        with small_dictionaries():
            n, (a, v) = o[0].extract(list(c) * (1 + 4 * p['f']))
        o[1] = canon([n] + [{w: (x.frequency, set(x.lemma)) for w, x in d.items()} for d in (a, v)])

    @staticmethod
    def read(o, p):
        return o[1]


@agent('patterns')
class Patterns:
    @staticmethod
    def make(p, v):
        return EojeolPatternTrainer(min_frequency=p['f'], verbose=v)

    @staticmethod
    def feed(o, c, p):
        o.train(c)

    @staticmethod
    def read(o, p):
        return canon([o.lrgraph, o.rlgraph])


@agent('bow')
class Bow:
    @staticmethod
    def make(p, v):
        return [BaseVectorizer(min_tf=p['f'], verbose=v), None]

    @staticmethod
    def feed(o, c, p):
        o[1] = o[0].fit_transform(c)

    @staticmethod
    def read(o, p):
        return canon([o[1], o[0].idx2vocab, o[0].vocabulary_])


@agent('contexts')
class Contexts:
    @staticmethod
    def make(p, v):
        return [v]

    @staticmethod
    def feed(o, c, p):
        x, names = sent_to_word_contexts_matrix(c, windows=p['n'] + 1, min_tf=p['f'], dynamic_weight=p['b'], verbose=o[0])
        m, px, py = pmi(x) if x.shape[0] else (x, 0, 0)
        cells = [{(names[i], names[j]): v for i, j, v in zip(*(a.tolist() for a in (z.row, z.col, z.data))) if v}
                 for z in (x.tocoo(), m.tocoo())]
        o[1:] = [canon([set(names), cells])]      # the numbering of the rows is not promised

    @staticmethod
    def read(o, p):
        return o[1]


@agent('bigrams')
class Bigrams:
    @staticmethod
    def make(p, v):
        return Bigram(min_frequency=p['f'], verbose=v, score=['frequency', 'pmi', 'mikolov'][p['n'] - 1])

    @staticmethod
    def feed(o, c, p):
        o.train(c)

    @staticmethod
    def read(o, p):
        return canon([o.extract(), o.extract(topk=3), o.extract(threshold=p['s'])])

    @staticmethod
    def raw(o, p):
        return [o.extract()]


@agent('counter')
class Counting:
    @staticmethod
    def make(p, v):
        return [v]

    @staticmethod
    def feed(o, c, p):
        x = EojeolCounter(c, min_count=p['f'], verbose=o[0])
        g = LRGraph(sents=c)
        top = [[sorted(g._lr), [g.get_r(l, p['n']) for l in sorted(g._lr)]], [g.get_l(r, p['n']) for r in sorted(g._rl)]]
        o[1:] = [canon([dict(x.items()), x.to_lrgraph(l_max_length=4 + p['n'])._lr, g._rl, top])]

    @staticmethod
    def read(o, p):
        return o[1]


@agent('eomi')
class Eomi:
    @staticmethod
    def make(p, v):
        return [v]

    @staticmethod
    def feed(o, c, p):
        g = LRGraph(sents=c)
        before = canon([g._lr, g._rl])
        e = EomiExtractor(g, set(VERBS + ADJS[:p['k']]), {'나무', '가'}, verbose=o[0], min_num_of_features=p['n'])
        a = canon(e.extract(min_eomi_score=p['s']))
        s = StemExtractor(g, set(VERBS + ADJS[:p['k']]), set(EOMIS[:p['k'] * 2]), min_num_of_unique_R_char=2,
                          min_entropy_of_R_char=0.1, min_entropy_of_R=0.1)
        b = canon(s.extract(min_stem_score=0.5, min_stem_frequency=p['f']))
        o[1:] = [[a, b, before == canon([g._lr, g._rl])]]

    @staticmethod
    def read(o, p):
        return o[1]


class Reader:
    """Objects that are asked about texts; the answers are kept as the state."""

    @classmethod
    def feed(cls, o, c, p):
        o['answers'] = [canon(cls.ask(o, s, p)) for s in c]

    @staticmethod
    def read(o, p):
        return o['answers']


@agent('text')
class Text(Reader):
    @staticmethod
    def make(p, v):
        return dict(regex=RegexTokenizer(), encoder=ConvolutionHangleEncoder(), v=v)

    @staticmethod
    def ask(o, s, p):
        return [o['regex'].tokenize(s), o['regex'].tokenize(s, flatten=False), o['encoder'].encode(s), normalizer.normalize(
            s, alphabet=p['b'], number=p['c'], remove_repeat=p['f']), normalizer.emoticon_normalize(s, p['n']),
            normalizer.repeat_normalize(s, p['f']), normalizer.only_text(s), normalizer.only_hangle(s),
            normalizer.normalize_sent_for_lrgraph(s), hangle.normalize(s, english=p['b'], remove_repeat=p['n'])]


@agent('distances')
class Distances(Reader):
    @staticmethod
    def make(p, v):
        return {}

    @staticmethod
    def ask(o, s, p):
        ws = s.split()[:4]
        return [[f(a, b) for f in (hangle.levenshtein, hangle.jamo_levenshtein, hangle.cosine_distance,
                                   hangle.jaccard_distance)] for a in ws for b in ws]


PREDEFINED = [None, {('나무', '는'): (('먹', '는'),), ('하', '여'): (('하', '어'), ('하', '고')), ('푸르', '러'): (('푸르', '어'),)},
              {('고기', '는'): (('하', '고'), ('하', '는')), ('먹', '고'): (('먹', '고'), ('보', '다')),
               ('이르', '러'): (('이르', '어'),), ('푸르', '렀다'): (('푸르', '었다'),)}]
PREDEFINED_WORDS = ['나무는', '하여', '푸르러', '고기는', '먹고', '이르러', '푸르렀다', '하는', '하여라']


@agent('lemmas')
class Lemmas(Reader):
    @staticmethod
    def make(p, v):
        return dict(x=Lemmatizer(set(VERBS + ADJS[:p['k']] + ['푸르', '이르']), set(['어', '었다'] + EOMIS[:3 * p['k']]),
                                 PREDEFINED[p['n'] - 1]))

    @staticmethod
    def ask(o, s, p):
        ws = s.split()
        return [[o['x'].lemmatize(w, check_only_stem=p['b']) for w in ws], [o['x'].candidates(w) for w in ws[:4]],
                [conjugate(a, e, enforce_moum_harmoney=p['c']) for a in VERBS[p['n']::3] for e in ws[:2]]]


@agent('tagger')
class Tagger(Reader):
    @staticmethod
    def make(p, v):
        d = Dictionary({'Noun': {'나무', '하늘', '고기', '사랑', '나무꾼', '나', '하늘가', '늘나', '기나', '늘가', '가나', '나가', '나다'}, 'Josa': set(JOSAS),
                        'Verb': {'먹고', '가는', '보면', '하고', '오네', '쓰다'}, 'Adjective': {'예쁘다', '크고', '좋은'}})
        if p['k'] > 1:      # words of several tags
            d.add_words('Adverb', {'나무', '가는', '늘나', '하늘', '다고', '먹고'}, force=True)
            d.add_words('Exclamation', {'나무', '하늘', '고기', '다고', '사랑', '가다'}, force=True)
            d.add_words('Adjective', {'가는', '먹고', '하고'})
        weights = tuple(zip('abcdefg', (p['s'], 0.25, 0.2, 0.1, 0.1, 0.1, -0.5)))
        return dict(d=d, lr=SimpleTagger(LRTemplateMatcher(d), LREvaluator(weights if p['c'] else None),
                                         UnknowLRPostprocessor() if p['b'] else None),
                    eoj=SimpleTagger(EojeolTemplateMatcher(d), SimpleEojeolEvaluator()))

    @staticmethod
    def ask(o, s, p):
        return [o['lr'].tag(s), o['lr'].tag(s, flatten=False, debug=True), o['eoj'].tag(s, flatten=False),
                [o['d'].get_pos(w) for w in s.split()]]


@agent('tokenizers')
class Tokenizers(Reader):
    @staticmethod
    def make(p, v):
        s = {'나무': .5, '하늘': .5, '하늘가': .5, '고기': .7, '먹': .2, '먹고': .4, '나': .1, '나무꾼': .5, '기나': .7}
        return dict(xs=[LTokenizer(s), MaxScoreTokenizer(s), MaxScoreTokenizer(s, max_length=3, default_score=.3),
                        MaxLRScoreTokenizer(Dl=s, Dr={'은': .5, '는': .5, '에서': .7, '무': .5})],
                    n=NounLMatchTokenizer(s), m=NounMatchTokenizer(s))

    @staticmethod
    def ask(o, s, p):
        return [[x.tokenize(s, flatten=p['b']) for x in o['xs']], o['n'].tokenize(s, compose_compound=p['c']),
                o['m'].tokenize(s, flatten=False, compose_compound=p['c'])]


def run(name, corpus, params, verbose=False):
    """The result of a fresh object."""
    a = AGENTS[name]
    with contextlib.redirect_stdout(io.StringIO()):
        o = a.make(params, verbose)
        a.feed(o, list(corpus), params)
        return a.read(o, params)
