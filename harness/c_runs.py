"""C32 a call that fails leaves no trace; C33 calls under any schedule; C34 arguments are only read."""
import contextlib
import io
import os
import sys
import threading

from hypothesis import strategies as st

import agents
import gen
from agents import AGENTS, canon
from c_system import FAST, SLOW, MESSY, PARAMS, korean_corpus, empty, isolated
from core import sub, describe, scratch


class Fault(Exception):
    pass


class Failing:
    """A corpus whose k-th sentence, counted over all its iterations, cannot be read (or is no text)."""

    def __init__(self, sents, k, kind):
        self.sents, self.k, self.kind, self.hit = list(sents), k, kind, False

    def __len__(self):
        return len(self.sents)

    def __iter__(self):
        for s in self.sents:
            if self.k == 0:
                self.hit = True
                self.k = -1
                if self.kind == 'error':
                    raise Fault('unreadable')
                yield None if self.kind == 'none' else 7
            self.k -= 1
            yield s


# ================================================================ C32
describe('C32', 'Histories of any extractor, tokenizer, tagger, lemmatizer or vectorizer in which a training breaks off at a generated '
         'sentence of a generated pass, because the corpus raises an error there or yields something that is no text. '
         'Non-trivial: the failure happened and the object gave a result afterwards.')


def failing(case):
    name, p = case['agent'], case['p']
    a = AGENTS[name]
    corpora = [list(c) or ['나무'] for c in case['corpora']]
    want = isolated(lambda: agents.run(name, corpora[2], p))
    label = name

    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            o = a.make(p, case['v'])
            if case['before']:
                a.feed(o, corpora[0], p)
                if case['read']:
                    a.read(o, p)
            bad = Failing(corpora[1], case['at'], case['kind'])
            raised = None
            try:
                a.feed(o, bad, p)
            except Exception as e:
                raised = e
            if case['kind'] == 'error' and bad.hit:
                assert isinstance(raised, Fault), 'the error of the corpus does not reach the caller: %r' % (raised,)
            if case['retry']:
                try:
                    a.read(o, p)
                except Exception:
                    pass
            a.feed(o, corpora[2], p)
            return [bad.hit and raised is not None, a.read(o, p)]
    hit, got = isolated(go)
    assert got == want, (case, got, want)
    return label if hit and not empty(got) else None


def failures(names, corpora):
    return st.fixed_dictionaries(dict(agent=st.sampled_from(names), corpora=st.lists(corpora, min_size=3, max_size=3), p=PARAMS,
                                      at=st.integers(0, 15), kind=st.sampled_from(['error', 'error', 'none', 'number']),
                                      before=st.booleans(), read=st.booleans(), retry=st.booleans(), v=st.booleans()))


@sub('C32', 'training', failures(FAST, st.one_of(korean_corpus(10), korean_corpus(10), gen.chained_corpus(), MESSY)), quick=700,
     thorough=15000, rule='after a training that broke off, the next one gives the result of a fresh object')
def training(case):
    return failing(case)


@sub('C32', 'training_pos', failures(list(SLOW), korean_corpus(8)), quick=40, thorough=900,
     rule='as training, for the part-of-speech extractors')
def training_pos(case):
    return failing(case)


# ================================================================ what can be asked of an object (C32, C33)
from soynlp import hangle, normalizer                                                                     # noqa: E402
from soynlp.hangle import ConvolutionHangleEncoder                                                        # noqa: E402
from soynlp.lemmatizer import (Lemmatizer, conjugate, conjugate_chat, lemma_candidate,                     # noqa: E402
                               lemma_candidate_chat)
from soynlp.noun import LRNounExtractor, LRNounExtractor_v2                                               # noqa: E402
from soynlp.postagger import (Dictionary, EojeolTemplateMatcher, LREvaluator, LRTemplateMatcher,           # noqa: E402
                              SimpleEojeolEvaluator, SimpleTagger, UnknowLRPostprocessor)
from soynlp.predicator import EomiExtractor, StemExtractor                                                # noqa: E402
from soynlp.tokenizer import (LTokenizer, MaxLRScoreTokenizer, MaxScoreTokenizer, NounLMatchTokenizer,     # noqa: E402
                              NounMatchTokenizer, RegexTokenizer)
from soynlp.utils import DoublespaceLineCorpus, EojeolCounter, LRGraph, most_similar                      # noqa: E402
from soynlp.vectorizer import BaseVectorizer, sent_to_word_contexts_matrix                                # noqa: E402
from soynlp.word import Bigram, WordExtractor, pmi                                                        # noqa: E402

STAGES = {}


def stage(f):
    STAGES[f.__name__] = f
    return f


def first(s):
    return (s.split() or [''])[0]


@stage
def tokenizers(c, p):
    scores = {}
    for i, w in enumerate(sorted({w for s in c for w in s.split()})):
        for n in (1, 2, 3):
            scores[w[:n]] = ((i * 7 + n * 3) % 10) / 10
            scores[w[-n:]] = ((i * 3 + n) % 10) / 10
    L, M, R = LTokenizer(scores), MaxScoreTokenizer(scores, max_length=4), RegexTokenizer()
    X = MaxLRScoreTokenizer(Dl=dict(scores), Dr={'은': .5, '는': .5, '에서': .7, '고': .3})
    N, NN = NounLMatchTokenizer(scores), NounMatchTokenizer(scores)
    return [lambda s: L.tokenize(s, tolerance=0.5), lambda s: L(s, flatten=False), lambda s: L.tokenize(s, 0.1, remove_r=True),
            M.tokenize, lambda s: M(s, flatten=False), X.tokenize, lambda s: X.tokenize(s, flatten=False), R.tokenize,
            lambda s: R.tokenize(s, flatten=False), N.tokenize, lambda s: N(s, compose_compound=False), NN.tokenize,
            lambda s: NN(s, flatten=False, compose_compound=False)]


@stage
def lemmatizers(c, p):
    x = Lemmatizer(set(agents.VERBS + agents.ADJS[:p['k']]), set(agents.EOMIS), agents.PREDEFINED[p['n'] - 1])
    return [lambda s: [x.lemmatize(w) for w in s.split()], lambda s: x.lemmatize(first(s), check_only_stem=True),
            lambda s: x.candidates(first(s)), lambda s: [conjugate(v, first(s)) for v in agents.VERBS[:4]],
            lambda s: [conjugate(first(s), e) for e in agents.EOMIS[:5]], lambda s: conjugate_chat(first(s), 'ㅇ다'),
            lambda s: [lemma_candidate(first(s)[:i], first(s)[i:]) for i in (1, 2)],
            lambda s: lemma_candidate_chat(first(s)[:1], first(s)[1:])]


@stage
def taggers(c, p):
    d = Dictionary({'Noun': {'나무', '하늘', '고기', '사랑', '나', '하늘가', '늘나', '늘가', '가나'}, 'Josa': set(agents.JOSAS),
                    'Verb': {'먹고', '가는', '보면', '하고'}, 'Adjective': {'예쁘다', '크고', '나무'}})
    a = SimpleTagger(LRTemplateMatcher(d), LREvaluator(), UnknowLRPostprocessor())
    b = SimpleTagger(EojeolTemplateMatcher(d), SimpleEojeolEvaluator())
    return [a.tag, lambda s: a.tag(s, flatten=False, debug=True), b.tag, lambda s: b.tag(s, flatten=False),
            lambda s: [d.get_pos(w) for w in s.split()], lambda s: d.word_is_tag(first(s), 'Noun')]


@stage
def texts(c, p):
    e = ConvolutionHangleEncoder()
    return [e.encode, lambda s: e.onehot_to_sent(e.sent_to_onehot(s)), lambda s: normalizer.normalize(s, alphabet=True, remove_repeat=p['f']),
            lambda s: normalizer.emoticon_normalize(s, p['n']), lambda s: normalizer.repeat_normalize(s, p['n']), normalizer.only_text,
            normalizer.only_hangle, normalizer.only_hangle_number, normalizer.remove_doublespace, normalizer.normalize_sent_for_lrgraph,
            lambda s: hangle.normalize(s, english=True, remove_repeat=2), lambda s: [hangle.decompose(ch) for ch in s],
            lambda s: hangle.levenshtein(first(s), s), lambda s: hangle.jamo_levenshtein(s, first(s)),
            lambda s: hangle.cosine_distance(s, first(s) + '가'), lambda s: hangle.jaccard_distance(s, first(s) + '가')]


@stage
def words(c, p):
    x = WordExtractor(min_frequency=p['f'], remove_subwords=p['b'])
    x.train(c)
    return [lambda s: x.cohesion_score(first(s)), lambda s: x.branching_entropy(first(s)), lambda s: x.accessor_variety(first(s)),
            lambda s: x.word_scores(), lambda s: x.extract(), lambda s: x.extract(scores=x.word_scores()), lambda s: sorted(x.words()),
            lambda s: x.all_cohesion_scores(), lambda s: x.all_branching_entropy(), lambda s: x.all_accessor_variety(),
            lambda s: [x.right_branching_entropy(first(s)[:2]), x.left_branching_entropy(first(s)[-2:])]
            if hasattr(x, 'right_branching_entropy') else None]


@stage
def nouns(c, p, extracts=0):
    h = agents.features(p)
    x = LRNounExtractor(predictor_fnames=[h + '_coef'], verbose=False)
    x.train(c, p['f'])
    y = LRNounExtractor_v2(predictor_headers=[h], verbose=False, max_frequency_when_noun_is_eojeol=3)
    y.train(c)
    return [lambda s: x.predict(first(s)[:2]), lambda s: x.is_noun(first(s)[:2], p['s']),
            lambda s: x.predict(first(s)[:1], nouns={first(s)[:2]}), lambda s: y.predict(first(s)[:2], p['s']),
            lambda s: y.predict(first(s)[:1]), lambda s: [x.predict(w) for w in sorted(x.words)], x.is_noun] + extracts * [
            lambda s: x.extract(p['s'], p['f']), lambda s: y.extract(p['s'], p['f'])]


@stage
def extracts(c, p):
    return nouns(c, p, 1) + predicates(c, p, 1)


@stage
def graphs(c, p):
    g = LRGraph(sents=c)
    n = EojeolCounter(c, min_count=p['f'])
    return [lambda s: g.get_r(first(s)[:2], p['n']), lambda s: g.get_l(first(s)[2:], -1), lambda s: canon([g._lr, g._rl]),
            lambda s: dict(g.to_EojeolCounter().items()), lambda s: dict(n.items()), lambda s: n[first(s)], lambda s: len(n),
            lambda s: n.get_uncovered_eojeols(1),
            lambda s: agents.canon(n.to_lrgraph(l_max_length=3)._lr)]


@stage
def counts(c, p):
    b = Bigram(c, min_frequency=p['f'], verbose=False, score=['frequency', 'pmi', 'mikolov'][p['n'] - 1])
    v = BaseVectorizer(min_tf=p['f'], verbose=False)
    x = v.fit_transform(c)
    m, names = sent_to_word_contexts_matrix(c, windows=p['n'], min_tf=p['f'], verbose=False)
    idx = {w: i for i, w in enumerate(names)}
    return [lambda s: b.extract(), lambda s: b.extract(topk=p['n']), lambda s: b.extract(threshold=p['s']),
            lambda s: v.transform([s] + c), lambda s: v.encode_a_doc_to_bow(s), lambda s: v.encode_a_doc_to_list(s),
            lambda s: v.decode_from_bow(v.encode_a_doc_to_bow(s)), lambda s: pmi(m) if m.shape[0] else None, lambda s: pmi(x)[0] if x.nnz else None,
            lambda s: most_similar(first(s), m, idx, names, topk=p['n']) if m.shape[0] else None]


@stage
def predicates(c, p, extracts=0):
    g = LRGraph(sents=c)
    e = EomiExtractor(g, set(agents.VERBS + agents.ADJS), {'나무', '가'}, verbose=False, min_num_of_features=p['n'])
    t = StemExtractor(g, set(agents.VERBS[:6]), set(agents.EOMIS), min_num_of_unique_R_char=1, min_entropy_of_R_char=0.1,
                      min_entropy_of_R=0.1, verbose=False)
    return [lambda s: e.predict(first(s)[1:]), lambda s: e.predict(first(s)[-1:], p['s'], 1), lambda s: t.predict(first(s)[:1]),
            lambda s: t.predict(first(s)[:2], p['s'], 1)] + extracts * [
            lambda s: e.extract(min_eomi_score=p['s']), lambda s: t.extract(min_stem_score=p['s'], min_stem_frequency=1)]


@stage
def corpora(c, p):
    path = os.path.join(scratch(), 'runs_%d.txt' % os.getpid())
    with open(path, 'w', encoding='utf-8') as f:
        f.write(''.join('  '.join(s.split()) + '\n' for s in c))
    x = DoublespaceLineCorpus(path, iter_sent=p['b'], num_doc=[-1, 2, 3][p['n'] - 1], num_sent=[-1, 4, 1, 7][p['f']],
                              skip_header=int(p['c']))
    return [lambda s: list(x), lambda s: [(a, b) for a, b in zip(x, x)], lambda s: [[a, len(list(x))] for a in x], lambda s: len(x),
            lambda s: next(iter(x), None)]


def answer(f, s):
    try:
        return canon(f(s))
    except Exception as e:
        return ['error', type(e).__name__]


WORD = st.sampled_from(['나무', '나무는', '하늘을', '하늘하늘', '먹고', '예쁘다', '가나다', '나무꾼은', '고기', '해', '했다', '고와', 'ㅋㅋㅋ', 'ab1', '도왔다'])
TEXT = st.one_of(st.lists(WORD, min_size=1, max_size=5).map(' '.join), gen.rich_text(10))
JOB = st.tuples(st.integers(0, 40), TEXT)
BAD = st.sampled_from([None, 7, b'\xea\xb0\x80', ['가'], 1.5])
SMALL = st.one_of(korean_corpus(5), st.lists(st.lists(WORD, min_size=1, max_size=6).map(' '.join), min_size=1, max_size=8))


def built(case):
    with contextlib.redirect_stdout(io.StringIO()):
        return STAGES[case['stage']](list(case['corpus']) or ['나무'], case['p'])


def ask(fs, job):
    return answer(fs[job[0] % len(fs)], job[1])


@sub('C32', 'questions', st.fixed_dictionaries(dict(
    stage=st.sampled_from(sorted(STAGES)), corpus=SMALL, p=PARAMS,
    jobs=st.lists(st.tuples(st.integers(0, 40), st.one_of(TEXT, BAD)), min_size=2, max_size=8))), quick=1200, thorough=25000,
     rule='questions about something that is no text fail or not, but do not change later answers')
def questions(case):
    good = [j for j in case['jobs'] if isinstance(j[1], str)]
    if len(good) == len(case['jobs']) or not good:
        good, bad = good[:1] or [(0, '나무')], [(j[0], None) for j in case['jobs'][1:]]
    else:
        bad = [j for j in case['jobs'] if not isinstance(j[1], str)]
    want = isolated(lambda: [ask(built(case), j) for j in good])
    fs = built(case)
    failed = 0
    for j in bad:
        r = ask(fs, j)
        failed += r[:1] == ['error'] if isinstance(r, list) else 0
    got = [ask(fs, j) for j in good]
    assert got == want, (case, got, want)
    return case['stage'] if failed and any(not empty(r) for r in got) else None


# ================================================================ C33
describe('C33', 'Two threads use the same trained object, or train and use two objects of any kinds, under a generated schedule: '
         'at generated numbers of executed lines of soynlp the other thread goes on. Iterators over one corpus are advanced in '
         'generated orders. Non-trivial: both threads were interrupted by the other one, and gave results.')


class Schedule:
    """Runs functions in threads of which one at a time goes on; the turns are counted in lines of soynlp."""

    def __init__(self, turns, n=2):
        self.turns, self.n = list(turns) or [1], n
        self.at = 0
        self.left = self.turns[0]
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.switches = [0] * n
        self.out = [None] * n

    def trace(self, i):
        def local(frame, event, arg):
            if event == 'line':
                self.left -= 1
                if self.left <= 0:
                    self.next(i)
            return local

        def start(frame, event, arg):
            return local if '/soynlp/' in frame.f_code.co_filename else None
        return start

    def next(self, i):
        self.at += 1
        self.left = self.turns[self.at % len(self.turns)]
        others = [j for j in range(self.n) if j != i and not self.done[j]]
        if others:
            j = others[self.at % len(others)]
            self.switches[i] += 1
            self.go[j].release()
            self.go[i].acquire()

    def thread(self, i, f):
        self.go[i].acquire()
        sys.settrace(self.trace(i))
        try:
            self.out[i] = f()
        except BaseException as e:
            self.out[i] = ['raised', type(e).__name__, str(e)]
        finally:
            sys.settrace(None)
            self.done[i] = True
            for j in range(self.n):
                if not self.done[j]:
                    self.go[j].release()
                    break

    def run(self, *fs):
        ts = [threading.Thread(target=self.thread, args=(i, f), daemon=True) for i, f in enumerate(fs)]
        for t in ts:
            t.start()
        self.go[0].release()
        for t in ts:
            t.join()
        return self.out


TURNS = st.lists(st.one_of(st.integers(1, 6), st.integers(1, 40), st.integers(1, 400)), min_size=1, max_size=12)


def asked(case):
    """Both threads put questions of a few kinds about a few texts."""
    fs = built(case)
    texts, n = case['texts'], case['kinds']
    jobs = [[(n[i % len(n)], texts[t % len(texts)]) for i, t in case[k]] for k in 'ab']
    want = [[ask(fs, j) for j in js] for js in jobs]
    fs = built(case)
    s = Schedule(case['turns'])
    with contextlib.redirect_stdout(io.StringIO()):
        got = s.run(*[lambda js=js: [ask(fs, j) for j in js] for js in jobs])
    assert got == want, (case, got, want)
    return case['stage'] if min(s.switches) and not empty(got) else None


QUESTIONS = st.lists(st.tuples(st.integers(0, 2), st.integers(0, 3)), min_size=1, max_size=5)


@sub('C33', 'readers', st.fixed_dictionaries(dict(
    stage=st.sampled_from(sorted(set(STAGES) - {'extracts'})), corpus=SMALL, p=PARAMS, turns=TURNS, a=QUESTIONS, b=QUESTIONS,
    texts=st.lists(TEXT, min_size=1, max_size=3), kinds=st.one_of(
        st.lists(st.integers(0, 40), min_size=1, max_size=3), st.integers(0, 40).map(lambda i: [i, i + 1, i + 2]),
        st.integers(0, 40).map(lambda i: [i])))), quick=2500, thorough=40000,
     rule='two threads that ask the same object get the answers each would get alone')
def readers(case):
    return asked(case)


CLOSE = st.lists(st.tuples(st.text('가나다', min_size=1, max_size=3), st.sampled_from([.2, .3, .3, .4, .5, .5, .6])), min_size=2, max_size=9).map(dict)
EOJEOLS = st.lists(st.text('가나다', min_size=2, max_size=5), min_size=1, max_size=4).map(' '.join)
TF, ONE = st.booleans(), st.integers(1, 4)


def opts(**kw):
    return st.fixed_dictionaries(kw)


TOL = st.sampled_from([0.0, 0.05, 0.1, 0.15, 0.2, 0.3])
OPTIONED = {
    'ltokenizer': (lambda d: LTokenizer(d).tokenize, opts(tolerance=TOL, flatten=TF, remove_r=TF)),
    'ltokenizer_tolerance': (lambda d: LTokenizer(d).tokenize, opts(tolerance=TOL)),
    'maxscore': (lambda d: MaxScoreTokenizer(d).tokenize, opts(flatten=TF)),
    'maxlr': (lambda d: MaxLRScoreTokenizer(Dl=d, Dr={'나': .4, '다': .3, '나다': .4}).tokenize, opts(flatten=TF)),
    'regex': (lambda d: RegexTokenizer().tokenize, opts(flatten=TF)),
    'nounl': (lambda d: NounLMatchTokenizer(d).tokenize, opts(flatten=TF, compose_compound=TF)),
    'noun': (lambda d: NounMatchTokenizer(d).tokenize, opts(flatten=TF, compose_compound=TF)),
    'normalize': (lambda d: normalizer.normalize, opts(doublespace=TF, remove_repeat=ONE, alphabet=TF, number=TF)),
    'repeat': (lambda d: normalizer.repeat_normalize, opts(num_repeats=ONE)),
    'emoticon': (lambda d: normalizer.emoticon_normalize, opts(num_repeats=ONE)),
    'get_r': (lambda d: asking(LRGraph(sents=sorted(d)).get_r), opts(topk=ONE)),
    'get_l': (lambda d: asking(LRGraph(sents=sorted(d)).get_l), opts(topk=ONE)),
    'bigram': (lambda d: extracting(trained_bigram(d)), opts(topk=ONE, threshold=st.sampled_from([0, 1, 2]))),
    'levenshtein': (lambda d: lambda s, **kw: [hangle.levenshtein(s, w, **kw) for w in sorted(d)],
                    opts(cost=st.dictionaries(st.tuples(st.sampled_from('가나다'), st.sampled_from('가나다')), st.sampled_from([.1, .5, 2]), max_size=4))),
    'lemmatize': (lambda d: asking(Lemmatizer({'가', '나', '다'}, {'다', '나다', '가'}).lemmatize),
                  opts(check_only_stem=TF)),
}


def asking(f):
    return lambda s, **kw: [f(w[:n], **kw) for w in s.split() for n in (1, 2, 3)]


def extracting(x):
    return lambda s, **kw: x.extract(**kw)


def trained_bigram(d):
    return Bigram([' '.join(w) for w in sorted(d) for _ in range(2)], min_frequency=1, verbose=False)


def optioned(name):
    make, options = OPTIONED[name]
    return st.fixed_dictionaries(dict(name=st.just(name), scores=CLOSE, a=options, b=options, texts=st.lists(EOJEOLS, min_size=2, max_size=2),
                                      same=TF, turns=st.lists(st.integers(1, 12), min_size=1, max_size=6)))


@sub('C33', 'options', st.sampled_from(sorted(OPTIONED)).flatmap(optioned), quick=3500, thorough=60000,
     rule='two threads that call one method with options of their own, each get what its options say')
def options(case):
    f = OPTIONED[case['name']][0](dict(case['scores']))
    texts = case['texts'] if not case['same'] else case['texts'][:1] * 2
    jobs = [lambda: answer(lambda s: f(s, **case['a']), texts[0]), lambda: answer(lambda s: f(s, **case['b']), texts[1])]
    want = [[j()] * 3 for j in jobs]
    s = Schedule(case['turns'])
    with contextlib.redirect_stdout(io.StringIO()):
        got = s.run(*[lambda j=j: [j() for _ in range(3)] for j in jobs])
    assert got == want, (case, got, want)
    return case['name'] if min(s.switches) and want[0] != want[1] and not empty(got) else None


def parallel(case):
    names, ps = case['agents'], case['ps']
    cs = [list(c) or ['나무'] for c in case['corpora']]
    with agents.small_dictionaries():
        def work(i):
            o = AGENTS[names[i]].make(ps[i], False)
            AGENTS[names[i]].feed(o, list(cs[i]), ps[i])
            return AGENTS[names[i]].read(o, ps[i])

        def tried(i):
            try:
                return work(i)
            except Exception as e:
                return ['error', type(e).__name__]
        want = [isolated(lambda: tried(i)) for i in (0, 1)]
        s = Schedule(case['turns'])
        got = s.run(lambda: tried(0), lambda: tried(1))
    assert got == want, (case, got, want)
    return names if min(s.switches) and not any(empty(r) for r in got) else None


def two(names, corpora, turns):
    pair = st.one_of(st.lists(st.sampled_from(names), min_size=2, max_size=2), st.sampled_from(names).map(lambda n: [n, n]))
    return st.fixed_dictionaries(dict(agents=pair, corpora=st.lists(corpora, min_size=2, max_size=2), turns=turns,
                                      ps=st.lists(PARAMS, min_size=2, max_size=2)))


LONG_TURNS = st.lists(st.one_of(st.integers(1, 40), st.integers(1, 400), st.integers(1, 5000)), min_size=1, max_size=8)


@sub('C33', 'objects', two(FAST, SMALL, LONG_TURNS), quick=400, thorough=9000,
     rule='two objects trained and read in two threads give the results each would give alone')
def objects(case):
    return parallel(case)


@sub('C33', 'objects_pos', two(list(SLOW), korean_corpus(4), LONG_TURNS), quick=25, thorough=500,
     rule='as objects, for the part-of-speech extractors')
def objects_pos(case):
    return parallel(case)


@sub('C33', 'iterators', st.fixed_dictionaries(dict(
    lines=st.lists(st.lists(gen.sentence('가나', 2, 2, 1), min_size=0, max_size=3).map('  '.join), min_size=1, max_size=6),
    options=st.fixed_dictionaries(dict(num_doc=st.sampled_from([-1, -1, 1, 2, 4]), num_sent=st.sampled_from([-1, -1, 1, 3, 5]),
                                       iter_sent=st.booleans(), skip_header=st.sampled_from([0, 0, 1]))),
    steps=st.lists(st.tuples(st.sampled_from(['open', 'next', 'next', 'next', 'len', 'list']), st.integers(0, 3)), min_size=3, max_size=25))),
     quick=1500, thorough=30000, rule='iterators over one corpus, opened and advanced in any order, each yield the whole of it')
def iterators(case):
    path = os.path.join(scratch(), 'iterators.txt')
    with open(path, 'w', encoding='utf-8') as f:
        f.write(''.join(s + '\n' for s in case['lines']))
    want = list(DoublespaceLineCorpus(path, **case['options']))
    size = len(DoublespaceLineCorpus(path, **case['options']))
    x = DoublespaceLineCorpus(path, **case['options'])
    its = []
    for op, i in case['steps']:
        if op == 'open' or not its:
            its.append([iter(x), 0])
        elif op == 'len':
            assert len(x) == size, (case, len(x), size)
        elif op == 'list':
            assert list(x) == want, (case, list(x), want)
        else:
            it = its[i % len(its)]
            got = next(it[0], None)
            assert got == (want[it[1]] if it[1] < len(want) else None), (case, got, it[1], want)
            it[1] += 1
    for it, n in its:
        rest = list(it)
        assert rest == want[n:], (case, rest, n, want)
    return 'several' if len(its) > 1 and len(want) > 1 else None


# ================================================================ C34
import copy                                                                                              # noqa: E402

import numpy as np                                                                                       # noqa: E402
from scipy.sparse import csr_matrix                                                                      # noqa: E402
from soynlp.lemmatizer import _lemmatizer as _l                                                          # noqa: E402,F401
from soynlp.noun import NewsNounExtractor, extract_domain_pos_features                                    # noqa: E402
from soynlp.noun import _noun_postprocessing as npp                                                       # noqa: E402
from soynlp.pos._adverb import stem_to_adverb                                                            # noqa: E402
from soynlp.predicator import PredicatorExtractor                                                        # noqa: E402
from soynlp.tokenizer._tokenizer_builder import EojeolPatternTrainer                                      # noqa: E402
from soynlp.utils import svd                                                                             # noqa: E402
from soynlp.word._pmi import pmi_memory_friendly                                                         # noqa: E402

describe('C34', 'Dictionaries, sets, lists, graphs, counters and matrices passed to every constructor, method and function that '
         'takes any, as plain and as default dictionaries. Non-trivial: the call gave a result that is not empty.')


def state(x):
    """Everything there is to see of an argument, types and orders included."""
    if hasattr(x, 'tocsr'):
        y = x.tocsr()
        return ['matrix', x.shape, x.data.tolist(), x.indices.tolist(), x.indptr.tolist(), str(y.dtype)]
    if isinstance(x, np.ndarray):
        return ['array', x.tolist()]
    if isinstance(x, LRGraph):
        return ['graph', graph_state(x._lr), graph_state(x._rl), graph_state(x._lr_origin)]
    if isinstance(x, EojeolCounter):
        return ['counter', sorted(x.items()), len(x), x._count_sum, x.coverage]
    if isinstance(x, Dictionary):
        return ['dictionary', {k: sorted(v) for k, v in x.pos_dict.items()}]
    if isinstance(x, dict):
        return [type(x).__name__, [(state(k), state(v)) for k, v in x.items()]]
    if isinstance(x, (set, frozenset)):
        return ['set', sorted(x)]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [state(v) for v in x]]
    return x


def graph_state(d):
    return {k: {a: b for a, b in sorted(v.items()) if b} for k, v in sorted(d.items()) if any(v.values())}


def reads(name, args, call, quick=120, thorough=2500):
    @sub('C34', name, args, quick=quick, thorough=thorough, rule='what %s is given stays as it was, and the same call gives the same result' % name)
    def body(case):
        given = materialize(case)
        before = state(given)
        with contextlib.redirect_stdout(io.StringIO()):
            a = answer(lambda g: call(*g), given)
            assert state(given) == before, (name, case, before, state(given))
            b = answer(lambda g: call(*g), given)
            assert state(given) == before, (name, case, 'second call', before, state(given))
        assert a == b, (name, case, a, b)
        return None if a[:1] == ['error'] or empty(a) else 'result'
    return body


def materialize(case):
    """Cases are plain values; ('graph', words) and the like stand for objects."""
    out = []
    for x in case:
        if isinstance(x, tuple) and len(x) == 2 and x[0] in KINDS:
            out.append(KINDS[x[0]](copy.deepcopy(x[1])))
        else:
            out.append(copy.deepcopy(x))
    return out


def nested(d, kind):
    from collections import defaultdict
    if kind == 'default':
        out = defaultdict(lambda: defaultdict(int))
        for k, v in d.items():
            out[k].update(v)
        return out
    return {k: dict(v) for k, v in d.items()}


def flat(d):
    from collections import defaultdict
    out = defaultdict(float)
    out.update(d)
    return out


KINDS = {'graph': lambda ws: LRGraph(sents=ws), 'counter': lambda ws: EojeolCounter(ws), 'dict': dict, 'default': flat, 'set': set,
         'matrix': lambda r: csr_matrix(np.array(r, dtype=float)), 'imatrix': lambda r: csr_matrix(np.array(r)), 'array': np.array,
         'tags': Dictionary, 'nested': lambda d: nested(d, 'dict'), 'dnested': lambda d: nested(d, 'default'),
         'frozen': frozenset, 'table': lambda d: {k: {w: 1.0 for w in v} for k, v in d.items()}}


def as_(kinds, s):
    return st.tuples(st.sampled_from(kinds), s)


DICT = ['dict', 'default']
SENTS = st.lists(st.lists(WORD, min_size=1, max_size=5).map(' '.join), min_size=1, max_size=6)
SMALLWORD = gen.word('가나다', 1, 3)
SCORES = as_(DICT, gen.score_dict('가나다', 2, 10, st.sampled_from([-.3, 0, .1, .2, .5, .5, .9])))
WORDSET = as_(['set', 'frozen'], st.sets(SMALLWORD, min_size=1, max_size=8))
KWORDS = as_(['set', 'frozen'], st.sets(WORD, min_size=1, max_size=8))
LINE = gen.sentence('가나다', 4, 6, 1)
WORDGRAPH = as_(['graph'], st.lists(gen.word('가나다', 1, 4), min_size=1, max_size=10))
LRTABLE = as_(['nested', 'dnested'], st.dictionaries(SMALLWORD, st.dictionaries(gen.word('가나다', 0, 2), st.integers(1, 9), min_size=1, max_size=4),
                                                     min_size=1, max_size=5))

reads('l_tokenizer', st.tuples(SCORES, LINE), lambda d, s: [LTokenizer(d).tokenize(s, tolerance=.1), LTokenizer(d)(s, flatten=False)])
reads('max_score', st.tuples(SCORES, LINE), lambda d, s: [MaxScoreTokenizer(d).tokenize(s), MaxScoreTokenizer(d)(s, flatten=False)])
reads('max_lr', st.tuples(st.one_of(SCORES, WORDSET), st.one_of(SCORES, WORDSET), SCORES, SCORES, LRTABLE, LINE),
      lambda a, b, c, d, g, s: MaxLRScoreTokenizer(Dl=a, Dr=b, preference_l=c, preference_r=d, lrgraph=g).tokenize(s), quick=200)
reads('noun_match', st.tuples(SCORES, LINE),
      lambda d, s: [NounLMatchTokenizer(d).tokenize(s), NounMatchTokenizer(d).tokenize(s, flatten=False)])
STEMS = st.sets(st.sampled_from(agents.VERBS + agents.ADJS), min_size=1, max_size=12)
ENDS = st.sets(st.sampled_from(agents.EOMIS), min_size=1, max_size=12)
PRE = st.one_of(st.none(), st.dictionaries(st.tuples(st.sampled_from(['나무', '먹', '하', '푸르']), st.sampled_from(['는', '고', '여', '러'])), st.lists(
    st.tuples(st.sampled_from(agents.VERBS), st.sampled_from(agents.EOMIS)), min_size=1, max_size=2).map(tuple), max_size=3))


def lemma_calls(a, b, c, s):
    x = Lemmatizer(a, b, c)
    return [x.lemmatize(s), x.candidates(s), lemma_candidate(s[:1], s[1:], c), lemma_candidate_chat(s[:1], s[1:], c)]


reads('lemmatizer', st.tuples(as_(['set', 'frozen'], STEMS), as_(['set', 'frozen'], ENDS), PRE, WORD), lemma_calls)
TAGS = st.fixed_dictionaries({t: st.sets(gen.word('가나', 1, 3), min_size=1, max_size=5) for t in ('Noun', 'Josa', 'Verb', 'Adjective', 'Adverb')})


def tagging(table, tags, templates, pairs, weights, preference, s):
    d = Dictionary(table)
    g = LRTemplateMatcher(d, tags, templates)
    e = LREvaluator(tuple(zip('abcdefg', weights)) if weights else None, preference)
    return [SimpleTagger(g, e, UnknowLRPostprocessor()).tag(s), SimpleTagger(EojeolTemplateMatcher(d, tags, pairs), SimpleEojeolEvaluator()).tag(s)]


reads('tagger', st.tuples(TAGS, st.one_of(st.none(), st.lists(st.sampled_from(['Noun', 'Verb', 'Adverb']), min_size=1, max_size=3, unique=True)),
                          st.one_of(st.none(), st.dictionaries(st.sampled_from(['Noun', 'Adverb']), st.sampled_from([('Josa',), ('Verb', 'Josa')]), min_size=1)),
                          st.one_of(st.none(), st.lists(st.sampled_from([('Noun', 'Josa'), ('Noun', 'Verb')]), min_size=1, max_size=2, unique=True)),
                          st.one_of(st.none(), st.lists(st.sampled_from([.1, .3, -.2, 1.]), min_size=7, max_size=7)),
                          st.one_of(st.none(), st.dictionaries(st.sampled_from(['Noun', 'Verb']), st.dictionaries(gen.word('가나', 1, 3), st.sampled_from([.5, 2.]), max_size=3))),
                          gen.sentence('가나', 3, 4, 1)), tagging)


def dictionary_words(table, words, tag):
    d = Dictionary(copy.deepcopy(table))
    d.add_words(tag, words, force=True)
    a = {k: sorted(v) for k, v in d.pos_dict.items()}
    d.remove_words(tag, words)
    return [a, {k: sorted(v) for k, v in d.pos_dict.items()}]


reads('tag_words', st.tuples(TAGS, st.one_of(WORDSET, st.lists(SMALLWORD, min_size=1, max_size=4)), st.sampled_from(['Noun', 'Verb'])), dictionary_words)
COST = st.dictionaries(st.tuples(st.sampled_from('가나다ㄱㄴㅏ'), st.sampled_from('가나다ㄱㄴㅏ')), st.sampled_from([.1, .5, 1.5]), max_size=4)
reads('distances', st.tuples(SMALLWORD, SMALLWORD, as_(DICT, COST)),
      lambda a, b, c: [hangle.levenshtein(a, b, c), hangle.jamo_levenshtein(a, b), hangle.levenshtein(a, b)])
reads('hangle_normalize', st.tuples(gen.rich_text(12), st.sets(st.sampled_from('a1.가!ㅋ'), max_size=4)),
      lambda s, k: [hangle.normalize(s, remains=k), hangle.normalize(s, english=True, remains=k), hangle.normalize(s)])
ROWS = st.integers(2, 4).flatmap(lambda n: st.lists(st.lists(st.integers(0, 4), min_size=n, max_size=n), min_size=2, max_size=5))
MATRIX = as_(['matrix', 'imatrix'], ROWS)
reads('pmi', st.tuples(MATRIX, st.sampled_from([0, .5, 1]), st.sampled_from([0., .3]), st.sampled_from([1, .75])),
      lambda x, m, a, b: [pmi(x, min_pmi=m, alpha=a, beta=b), pmi_memory_friendly(x, min_pmi=m, alpha=a, beta=b)])
reads('pmi_py', st.tuples(as_(['matrix'], st.lists(st.lists(st.integers(0, 4), min_size=3, max_size=3), min_size=2, max_size=5)),
                          as_(['array'], st.lists(st.sampled_from([.1, .2, .5]), min_size=3, max_size=3).map(lambda v: [v])), st.sampled_from([0., .3]), st.sampled_from([1, .75])),
      lambda x, py, a, b: [pmi(x, py, alpha=a, beta=b), pmi_memory_friendly(x, py, alpha=a, beta=b)])


def similar(x, names):
    idx = {w: i for i, w in enumerate(names)}
    before = (list(names), dict(idx))
    r = [most_similar(w, x, idx, names) for w in names]
    assert before == (names, idx)
    return r


reads('vectors', ROWS.flatmap(lambda r: st.tuples(as_(['matrix', 'imatrix'], st.just(r)), st.just(['w%d' % i for i in range(len(r))]))), similar)
reads('svd', st.tuples(as_(['matrix'], st.lists(st.lists(st.integers(0, 4), min_size=4, max_size=4), min_size=4, max_size=6)), st.integers(1, 3), st.integers(0, 3)),
      lambda x, n, r: svd(x, n, random_state=r), quick=60)
reads('words', st.tuples(SENTS, st.integers(1, 2), st.booleans()), lambda c, f, b: words_of(c, f, b))


def words_of(c, f, b):
    x = WordExtractor(min_frequency=f, remove_subwords=b)
    x.train(c)
    scores = x.word_scores()
    before = repr(scores)
    r = [x.extract(scores), x.extract()]
    assert repr(scores) == before, ('scores', before, scores)
    return r


def nouns1(c, w, k):
    x = LRNounExtractor(predictor_fnames=[agents.features() + '_coef'], verbose=False)
    x.train(c, 1)
    a = x.extract(.1, 1, noun_candidates=w)
    b = x.predict('나무', nouns=k)
    return [a, b]


reads('nouns', st.tuples(SENTS, st.one_of(st.none(), as_(['set'], st.sets(st.sampled_from(['나무', '하늘', '고기', '나무꾼', '먹']), min_size=1))), KWORDS), nouns1)


def news(c, w, k):
    y = NewsNounExtractor(predictor_fnames=[agents.features() + '_coef'], verbose=False, base_noun_dictionary=k)
    y.train(c)
    return y.extract(.1, 1, noun_candidates=w)


reads('news', st.tuples(SENTS, st.one_of(st.none(), as_(['set'], st.sets(st.sampled_from(['나무', '하늘', '고기', '나무꾼', '먹']), min_size=1))), KWORDS), news, quick=40, thorough=800)


def nouns2(c, w, i):
    x = LRNounExtractor_v2(predictor_headers=[agents.features()], verbose=False, max_frequency_when_noun_is_eojeol=3)
    x.train(c)
    a = x.extract_domain_pos_features(w, i, min_noun_frequency=1, min_pos_feature_frequency=1, min_num_of_unique_lastchar=1, min_entropy_of_lastchar=0, min_noun_entropy=0)
    return [a, x.extract(.1, 1)]


reads('nouns2', st.tuples(st.one_of(SENTS, as_(['counter', 'graph'], SENTS)), st.one_of(st.none(), as_(['set'], st.sets(
    st.sampled_from(['나무', '하늘', '고기', '나무꾼', '먹']), min_size=1))), as_(['set'], st.sets(st.sampled_from(['은', '이', '고'])))), nouns2, quick=200)
NOUNTABLE = st.dictionaries(st.sampled_from(['나무', '하늘', '나무는', '나무에서', '고기', '하늘하늘', '나무꾼', '나무꾼은', '먹고']), st.tuples(st.integers(1, 9), st.sampled_from([.2, .5, 1.])), min_size=2)
PARTS = as_(['set', 'frozen'], st.sets(st.sampled_from(['는', '에서', '은', '고', '이', '나무', '하늘']), min_size=1))
reads('noun_rules', st.tuples(as_(DICT, NOUNTABLE), PARTS, as_(['graph'], st.lists(st.lists(WORD, min_size=1, max_size=5).map(' '.join), min_size=1, max_size=6))),
      lambda n, f, g: [npp.detaching_features(n, f), npp.ignore_features(n, f), npp.check_N_is_NJ(n, g, min_num_of_josa=1)])
reads('domain_features', st.tuples(as_(DICT, NOUNTABLE), as_(['graph'], SENTS), PARTS, PARTS),
      lambda n, g, a, b: extract_domain_pos_features(n, g, a, b, .1, 1, .1, 1, 1, 0., 0.))


def predicator(c, nouns, josas, adjs, verbs, eomis, e, t):
    x = PredicatorExtractor(nouns, josas, adjs, verbs, eomis, extract_eomi=e, extract_stem=t, verbose=False)
    x.train(c, min_eojeol_frequency=1, min_num_of_features=1, min_num_of_unique_R_char=1, min_entropy_of_R_char=0.1, min_entropy_of_R=0.1,
            min_stem_score=0.3, min_stem_frequency=1)
    return [{w: (p.frequency, set(p.lemma)) for w, p in d.items()} for d in x.extract()]


def learned(g, stems, nouns, eomis, cond, ignore):
    e = EomiExtractor(g, stems, nouns, verbose=False, min_num_of_features=1)
    t = StemExtractor(g, stems, eomis, min_num_of_unique_R_char=1, min_entropy_of_R_char=0.1, min_entropy_of_R=0.1, verbose=False)
    return [e.extract(cond, .1), t.extract(ignore, .1, 1), e.predict('고'), t.predict('먹')]


INFLECTED = korean_corpus(6)
reads('predicates', st.tuples(st.one_of(INFLECTED, as_(['counter'], INFLECTED)), KWORDS, as_(['set'], st.just(set(agents.JOSAS))), as_(['set', 'frozen'], STEMS),
                              as_(['set', 'frozen'], STEMS), as_(['set', 'frozen'], ENDS), st.booleans(), st.booleans()), predicator, quick=150)
reads('endings', st.tuples(as_(['graph'], INFLECTED), as_(['set', 'frozen'], STEMS), KWORDS, as_(['set', 'frozen'], ENDS), st.none(),
                           st.one_of(st.none(), as_(['set'], STEMS))), learned, quick=150)
reads('patterns', st.tuples(SENTS, st.one_of(st.none(), KWORDS), st.one_of(st.none(), PARTS)), lambda c, a, b: trained_patterns(c, a, b))


def trained_patterns(c, a, b):
    x = EojeolPatternTrainer(min_frequency=1, verbose=False)
    x.train(c, a, b)
    g, h = copy.deepcopy((x.lrgraph, x.rlgraph))
    try:
        r = x.train_hits(g, h)
    except ZeroDivisionError:      # no pair at all
        r = None
    assert (g, h) == (x.lrgraph, x.rlgraph)
    return [g, h, r]


def vectors(c, d, stop):
    v = BaseVectorizer(min_tf=1, stopwords=stop, verbose=False)
    x = v.fit_transform(c)
    y = v.transform(d)
    bow = [v.encode_a_doc_to_bow(s) for s in d]
    lst = [v.encode_a_doc_to_list(s) for s in d]
    before = repr([bow, lst])
    r = [x, y, [v.decode_from_bow(b) for b in bow], [v.decode_from_list(z) for z in lst]]
    assert repr([bow, lst]) == before
    return r


reads('vectorizer', st.tuples(SENTS, SENTS, st.one_of(st.none(), as_(['set'], st.sets(WORD)))), vectors)
reads('contexts', st.tuples(SENTS, st.integers(1, 3), st.booleans()),
      lambda c, n, b: (lambda x, names: [sorted(names), x.sum(), x.shape[0]])(*sent_to_word_contexts_matrix(c, windows=n, min_tf=1, dynamic_weight=b, verbose=False)))
reads('bigrams', st.tuples(SENTS, st.sampled_from(['frequency', 'pmi', 'mikolov'])),
      lambda c, k: [Bigram(c, min_frequency=1, verbose=False, score=k).extract(), Bigram(c, min_frequency=1, verbose=False, score=k).extract(topk=2)])
TOKENS = st.lists(st.lists(st.one_of(WORD, st.sampled_from(['', 'A', 'a', ' ', '나무'])), max_size=6), min_size=1, max_size=5)


def of_tokens(c, n, f):
    same = lambda s: s
    v = BaseVectorizer(min_tf=f, tokenizer=same, stopwords={'나무'} if n > 1 else None, verbose=False)
    x = v.fit_transform(c)
    b = [Bigram(c, min_frequency=f, verbose=False, score=k, tokenizer=same).extract() for k in ('frequency', 'pmi')]
    m, names = sent_to_word_contexts_matrix(c, windows=n, min_tf=f, tokenizer=same, verbose=False)
    return [x, v.vocabs(), [v.encode_a_doc_to_bow(s) for s in c], [v.encode_a_doc_to_list(s) for s in c], b, sorted(names), m.sum()]


reads('tokens', st.tuples(TOKENS, st.integers(1, 3), st.integers(1, 2)), of_tokens)
reads('graphs', st.tuples(as_(['graph'], SENTS), as_(['counter'], SENTS), st.booleans()),
      lambda g, n, b: [sorted(g.to_EojeolCounter().items()), graph_state(n.to_lrgraph(ignore_one_syllable=b)._lr), sorted(n.get_uncovered_eojeols(1).items())
                       if hasattr(n.get_uncovered_eojeols(1), 'items') else n.get_uncovered_eojeols(1)])
reads('graph_copy', st.tuples(as_(['graph'], SENTS)), lambda g: edited(g))


def edited(g):
    x = g.copy_compatified_lrgraph_origin()
    before = graph_state(x._lr)
    for l in list(x._lr)[:2]:
        x.remove_eojeol(l, 1)
        x.add_lr_pair(l, '새', 2)
    return [before, graph_state(x._lr)]


reads('adverbs', st.tuples(st.one_of(as_(['set'], st.sets(st.sampled_from(['조용하', '행복하', '먹', '하']), min_size=1)), st.lists(st.sampled_from(['조용하', '먹']), min_size=1)),
                           st.one_of(st.none(), as_(['set'], st.sets(st.sampled_from(['히', '게']), min_size=1)))), stem_to_adverb)
