"""C28 results depend on input only; C29 objects forget; C30 every corpus is accepted, in every container."""
import ast
import contextlib
import copy
import io
import json
import os
import select
import subprocess
import sys

from hypothesis import strategies as st

import agents
import core
import gen
from agents import AGENTS, ADJS, EOMIS, JOSAS, VERBS
from core import sub, describe, scratch, REPO
from soynlp.lemmatizer import conjugate
from soynlp.postagger import Dictionary
from soynlp.tokenizer._tokenizer_builder import EojeolPatternTrainer
from soynlp.utils import DoublespaceLineCorpus, EojeolCounter, LRGraph
from soynlp.vectorizer import BaseVectorizer
from soynlp.word import WordExtractor

SLOW = ('pos_news', 'pos_chat', 'pos_tag')
FAST = [n for n in AGENTS if n not in SLOW]
NOUNS = ['나무', '하늘', '고기', '사랑', '나무꾼', '하늘나무', '나', '하늘가', '고기나무', '당', '지', '가나', '나가']
JUNK = ['ㅋㅋ', 'abc', '가나다', '하늘하', '은', 'a고', '9는', '나무는다', '뷁고', '고고', 'ㅠㅠ', '3.5', '뷁뷁뷁뷁']


def forms(stem, eomi):
    try:
        return sorted(conjugate(stem, eomi))
    except Exception:
        return [stem + eomi]


@st.composite
def korean_corpus(draw, max_sents=25):
    """Sentences over nouns with particles, inflected predicates and noise; words recur and tie in frequency."""
    words = []
    for s in draw(st.lists(st.sampled_from(VERBS + ADJS + ['졸리', '거리', '이']), max_size=5, unique=True)):
        for e in draw(st.lists(st.sampled_from(EOMIS), min_size=1, max_size=7, unique=True)):
            words.append(forms(s, e)[0])
    for n in draw(st.lists(st.sampled_from(NOUNS), max_size=6, unique=True)):
        words += [n + j for j in draw(st.lists(st.sampled_from(JOSAS + ['하고', '하는', '', '고기', '지만']),
                                               min_size=1, max_size=6, unique=True))]
    words += draw(st.lists(st.sampled_from(JUNK), max_size=3))
    words = words or ['나무는']
    words += draw(st.lists(st.lists(st.sampled_from(words), min_size=2, max_size=4).map(''.join), max_size=draw(st.sampled_from([0, 0, 2]))))
    sents = draw(st.lists(st.lists(st.sampled_from(words), min_size=1, max_size=6).map(' '.join), min_size=1,
                          max_size=max_sents))
    return sents + [' '.join(words)] * draw(st.sampled_from([0, 1, 2, 3, 6, 12]))


@st.composite
def stacked_corpus(draw):
    """Stems and nouns with endings and particles on top of each other: of each ending there is a longer one that ends in it."""
    words = []
    for heads, tails in ((st.lists(st.sampled_from(VERBS[:9] + ADJS[:5]), max_size=5, unique=True), EOMIS[:14] + ['는지', '고는']),
                         (st.lists(st.sampled_from(NOUNS[:6]), max_size=3, unique=True), JOSAS + ['까지', '하고', '지만'])):
        ends = draw(st.lists(st.sampled_from(tails), min_size=1, max_size=4, unique=True))
        ends = ends + [x + y for x in ends for y in ends][:draw(st.integers(0, 7))]
        for h in draw(heads):
            for e in ends:
                if draw(st.integers(0, 5)):
                    words += [forms(h, e)[0] if tails[0] == EOMIS[0] else h + e] * draw(st.sampled_from([1, 1, 2, 4]))
    words = words or ['가고는']
    return [' '.join(words[i:i + 7]) for i in range(0, len(words), 7)]


MESSY = st.lists(gen.rich_text(14), max_size=6)
# the score limits lie between the fractions small counts make: a weighted mean exactly at a limit could fall on either side of it by rounding
PARAMS = st.fixed_dictionaries(dict(
    f=st.sampled_from([1, 1, 2, 3]), n=st.sampled_from([1, 1, 2, 3]), s=st.sampled_from([-0.20037, 0.10037, 0.30037, 0.50037]),
    b=st.booleans(), c=st.booleans(), k=st.sampled_from([1, 3, 6, 9])))


def empty(r):
    """Does a canonical result hold no item at all?"""
    if isinstance(r, (str, int, float, bool)) or r is None:
        return r in ('dict', 'set', None, True, False)
    return all(empty(x) for x in r)


class Process:
    """soynlp in another process with its own hash seed."""

    def __init__(self, seed):
        env = dict(os.environ, PYTHONHASHSEED=str(seed), VERIF_REPO=REPO)
        self.p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'child.py')],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def ask(self, *job):
        try:
            self.p.stdin.write(repr(job).encode('utf-8', 'surrogatepass').replace(b'\n', b' ') + b'\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            return ['process ended']

    def answer(self):
        if not select.select([self.p.stdout], [], [], 300)[0]:
            return ['no answer within 300 s']
        line = self.p.stdout.readline()
        return json.loads(line) if line else ['process ended']


_processes = {}


def processes(n=3):
    key = os.getpid()
    if key not in _processes:
        _processes.clear()
        _processes[key] = []
    ps = _processes[key]
    while len(ps) < n:
        ps.append(Process((1, 4242, 77)[len(ps)] if len(ps) < 3 else len(ps) * 1001))
    return ps[:n]


def isolated(f):
    """f() in a process that is forked for it and ends with it, so that nothing it leaves behind can be seen."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            core._scratch = None        # its own, not that of the process it came from
            try:
                out = ['value', f()]
            except BaseException as e:
                out = ['raised', type(e).__name__, str(e)]
            core._drop_scratch()
            with os.fdopen(w, 'wb') as pipe:
                pipe.write(repr(out).encode('utf-8', 'surrogatepass'))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as pipe:
        data = pipe.read()
    os.waitpid(pid, 0)
    out = ast.literal_eval(data.decode('utf-8', 'surrogatepass')) if data else ['raised', 'no answer', '']
    if out[0] == 'raised':
        raise AssertionError(': '.join(out[1:]))
    return out[1]


def attempt(f):
    """A canonical result, or the error it ended with (errors are the subject of C30)."""
    try:
        return f()
    except Exception as e:
        return ['error', type(e).__name__]


# ================================================================ C28
describe('C28', 'Generated corpora (inflected predicates, nouns with particles, noise, mixed script text) given to each extractor, '
         'tokenizer, tagger, lemmatizer, normalizer and vectorizer in this process and in processes with other hash seeds, '
         'with and without progress output. Non-trivial: the result is not empty.')


def same_everywhere(case, n=3):
    name, corpus, p = case['agent'], case['corpus'], case['p']
    ps = processes(n)
    for x in ps:
        x.ask(name, corpus, p)
    want = json.loads(json.dumps(attempt(lambda: agents.run(name, corpus, p))))
    answers = [x.answer() for x in ps]
    if any(a in (['process ended'], ['no answer within 300 s']) for a in answers):
        _processes.clear()
    for a in answers:
        assert a == want, (case, 'other process', a, want)
    return None if empty(want) else name


def texts_of(names, corpora):
    return st.fixed_dictionaries(dict(agent=st.sampled_from(names), corpus=corpora, p=PARAMS))


@sub('C28', 'processes', texts_of(FAST, st.one_of(korean_corpus(), korean_corpus(), gen.chained_corpus(), MESSY)), quick=1500,
     thorough=30000, rule='processes with other hash seeds give the same result')
def all_processes(case):
    return same_everywhere(case)


@sub('C28', 'stacked', texts_of(['eomi', 'eomi', 'noun1', 'noun2', 'news', 'predicates'], stacked_corpus()), quick=700, thorough=15000,
     rule='as processes, for endings and particles that stand on top of each other')
def stacked_processes(case):
    return same_everywhere(case)


@sub('C28', 'processes_pos', texts_of(list(SLOW), korean_corpus()), quick=120, thorough=2500,
     rule='as processes, for the part-of-speech extractors')
def pos_processes(case):
    return same_everywhere(case)


def quiet(case):
    name, corpus, p = case['agent'], case['corpus'], case['p']
    a = attempt(lambda: agents.run(name, corpus, p, False))
    b = attempt(lambda: agents.run(name, corpus, p, True))
    assert a == b, (case, a, b)
    return None if empty(a) else name


@sub('C28', 'progress', texts_of(FAST, st.one_of(korean_corpus(), MESSY)), quick=700, thorough=15000,
     rule='progress output changes nothing')
def progress(case):
    return quiet(case)


# words that overlap, so that candidates of equal score compete
TIES = st.lists(st.lists(st.lists(st.sampled_from(['나무', '하늘', '고기', '가', '나', '다', '늘나', '나무꾼', '사랑']), min_size=1, max_size=5)
                         .map(''.join), min_size=1, max_size=4).map(' '.join), min_size=1, max_size=5)


@sub('C28', 'ties', texts_of(['tagger', 'tagger', 'tokenizers', 'lemmas', 'counter', 'bigrams', 'bow', 'scores'], TIES), quick=600,
     thorough=12000, rule='candidates of equal merit are chosen alike in every process')
def ties(case):
    return same_everywhere(case, 9)


class Long:
    """A corpus in which pad blank sentences follow the sentence at place at."""

    def __init__(self, sents, pad, at, make=lambda i: ''):
        self.sents, self.pad, self.at, self.make = list(sents), pad, min(at, len(sents)), make

    def __len__(self):
        return len(self.sents) + self.pad

    def __iter__(self):
        for s in self.sents[:self.at]:
            yield s
        for i in range(self.pad):
            yield self.make(i)
        for s in self.sents[self.at:]:
            yield s


def numbered(i):
    """The i-th of many different words, each with a particle."""
    return (chr(0xAC00 + (i * 37) % 9000) + chr(0xB000 + (i * 7919) % 9000)) + ['을', '에서', '은', '고', '는', ''][i % 6]


def long_run(name, corpus, p, verbose):
    a = AGENTS[name]
    with contextlib.redirect_stdout(io.StringIO()):
        o = a.make(p, verbose)
        a.feed(o, corpus, p)
        return a.read(o, p)


@sub('C28', 'progress_long', st.fixed_dictionaries(dict(
    agent=st.sampled_from(['bow', 'contexts', 'bigrams', 'noun1', 'noun2', 'news', 'patterns', 'predicates', 'words', 'eomi'] +
                          ['counter'] * 4),
    corpus=korean_corpus(8), at=st.integers(0, 8), words=st.booleans(), p=PARAMS)), quick=60, thorough=1500,
     rule='progress output changes nothing for corpora (or vocabularies) large enough to have any', )
def progress_long(case):
    name, p = case['agent'], case['p']
    n = 100001 if name == 'counter' else 3100
    if case['words'] and name in ('noun1', 'noun2', 'news', 'bow'):
        c = Long(case['corpus'], min(n, 2100), case['at'], lambda i: '%s %s' % (numbered(i), numbered(i // 2)))
    else:
        c = Long(case['corpus'], n, case['at'])
    a, b = (long_run(name, c, p, v) for v in (False, True))
    assert a == b, (case, a, b)
    return None if empty(a) else name


@sub('C28', 'progress_pos', texts_of(list(SLOW), korean_corpus()), quick=60, thorough=1500, rule='progress output changes nothing')
def progress_pos(case):
    return quiet(case)


# ================================================================ C29
describe('C29', 'Histories of two objects of the same kind (any extractor, tokenizer, tagger, lemmatizer, vectorizer) which are '
         'trained on, or asked about, generated corpora in any order and read in between, some results being cleared by the '
         'caller. Non-trivial: an object was used on at least two corpora, or two objects were in use at once, with results.')

OPS = st.lists(st.one_of(st.tuples(st.just('feed'), st.integers(0, 1), st.integers(0, 2)),
                         st.tuples(st.sampled_from(['read', 'read', 'spoil']), st.integers(0, 1), st.just(0))), max_size=6).map(lambda ops: [('feed', 0, 0), ('read', 0, 0)] + ops + [('feed', 0, 1)])


def history_cases(names, corpora, ops=OPS):
    return st.fixed_dictionaries(dict(agent=st.sampled_from(names), corpora=st.lists(corpora, min_size=3, max_size=3),
                                      ps=st.lists(PARAMS, min_size=2, max_size=2), ops=ops))


def history(case, fresh):
    name, ps = case['agent'], case['ps']
    a = AGENTS[name]
    corpora = [list(c) or ['나무'] for c in case['corpora']]
    kept = copy.deepcopy(corpora)
    fed = [None, None]
    uses = [set(), set()]
    results = 0
    with contextlib.redirect_stdout(io.StringIO()):
        xs = [a.make(ps[0], False), a.make(ps[1], False)]
        for op, i, c in case['ops'] + [('read', 0, 0), ('read', 1, 0)]:
            if op == 'feed':
                a.feed(xs[i], corpora[c], ps[i])
                assert corpora == kept, (case, 'the corpus was changed', op, i, c)
                fed[i] = c
                uses[i].add(c)
            elif fed[i] is not None:
                got = a.read(xs[i], ps[i])
                want = fresh[i, fed[i]]
                assert got == want, (case, op, i, got, want)
                results += not empty(got)
                if op == 'spoil' and hasattr(a, 'raw'):
                    for r in a.raw(xs[i], ps[i]):
                        r.clear()
    used = [i for i in (0, 1) if uses[i]]
    return name if results and (len(used) == 2 or any(len(u) > 1 for u in uses)) else None


def replay_history(case):
    """Each fresh object, and the history, has a process of its own."""
    name, ps = case['agent'], case['ps']
    fresh = {}
    for i, c in sorted({(i, c) for op, i, c in case['ops'] if op == 'feed'}):
        corpus = list(case['corpora'][c]) or ['나무']
        fresh[i, c] = isolated(lambda: agents.run(name, corpus, ps[i]))
    return isolated(lambda: history(case, fresh))


@sub('C29', 'histories', history_cases(FAST, st.one_of(korean_corpus(12), korean_corpus(12), gen.chained_corpus(), MESSY)),
     quick=700, thorough=16000, rule='every read equals that of a fresh object trained on the last corpus only')
def histories(case):
    return replay_history(case)


def different(k):
    return st.permutations(k)


NOUNY = st.lists(st.tuples(st.sampled_from(NOUNS), st.sampled_from(JOSAS + ['하고', '지만', '면', ''])).map(''.join), min_size=3,
                 max_size=25).map(lambda ws: [' '.join(ws)])
LEMMAY = st.lists(st.one_of(st.sampled_from(agents.PREDEFINED_WORDS), st.sampled_from(['먹어', '해', '고와', '도왔다'])), min_size=2,
                  max_size=9).map(lambda ws: [' '.join(ws)])
COVER = [('feed', 0, 0), ('read', 0, 0), ('feed', 1, 1)]


@sub('C29', 'constructed', st.fixed_dictionaries(dict(
    kind=st.one_of(*[st.fixed_dictionaries(dict(agent=st.sampled_from(names), corpora=st.lists(corpora, min_size=2, max_size=2)))
                     for names, corpora in ((['noun1', 'noun2', 'news'], NOUNY), (['lemmas', 'tagger'], LEMMAY),
                                            (['tagger', 'tokenizers'], TIES))]),
    p=PARAMS, ks=different([1, 3, 6, 9]), ns=different([1, 2, 3]), bs=different([True, False]), cs=different([True, False]),
    first=st.booleans())), quick=250, thorough=6000,
     rule='objects of different settings and data files do not influence each other')
def constructed(case):
    ps = [dict(case['p'], f=1, k=case['ks'][i], n=case['ns'][i], b=case['bs'][i], c=case['cs'][i]) for i in (0, 1)]
    if case['kind']['agent'] in ('noun1', 'noun2', 'news'):
        ps = [dict(x, n=1, s=-0.2, k=k) for x, k in zip(ps, (3, 6) if case['first'] else (6, 3))]
    return replay_history(dict(agent=case['kind']['agent'], corpora=case['kind']['corpora'], ps=ps, ops=COVER))


@sub('C29', 'histories_pos', history_cases(list(SLOW), korean_corpus(8), st.lists(
    st.one_of(st.tuples(st.just('feed'), st.integers(0, 1), st.integers(0, 1)),
              st.tuples(st.just('read'), st.integers(0, 1), st.just(0))), max_size=3).map(
        lambda ops: [('feed', 0, 0), ('read', 0, 0)] + ops + [('feed', 0, 1)])),
     quick=40, thorough=900, rule='as histories, for the part-of-speech extractors')
def histories_pos(case):
    return replay_history(case)


@st.composite
def stem_corpus(draw):
    """Conjugated words of several stems over one set of endings, so that endings and stems are learned."""
    eomis = draw(st.lists(st.sampled_from(EOMIS), min_size=3, max_size=9, unique=True))
    words = []
    for s in draw(st.lists(st.sampled_from(VERBS + ADJS + ['졸리', '거리', '기울', '떠나']), min_size=3, max_size=8, unique=True)):
        for e in eomis:
            if draw(st.integers(0, 9)):
                words.append(forms(s, e)[-1])
    words = words or ['먹고']
    return [' '.join(words[i:i + 5]) for i in range(0, len(words), 5)] * draw(st.integers(1, 3))


@sub('C29', 'learners', st.fixed_dictionaries(dict(
    agent=st.just('predicates'), corpora=st.lists(stem_corpus(), min_size=2, max_size=2),
    p=st.fixed_dictionaries(dict(f=st.just(1), n=st.sampled_from([1, 2, 3]), s=st.just(0.3), b=st.just(True), c=st.booleans(),
                                 k=st.sampled_from([2, 3, 6, 9]))))), quick=400, thorough=9000,
     rule='endings and stems learned from one corpus are forgotten when training on the next one')
def learners(case):
    r = replay_history(dict(agent=case['agent'], corpora=case['corpora'], ps=[case['p']] * 2,
                            ops=[('feed', 0, 0), ('read', 0, 0), ('feed', 0, 1), ('feed', 1, 1)]))
    a, b = (isolated(lambda: agents.run(case['agent'], c, case['p'])) for c in case['corpora'])
    return r if a != b else None


def saved_counter(x, c, later):
    if later:
        x.remove_covered_eojeols(set(c[0].split()))
    return [dict(x.items()), x.coverage, x._count_sum, len(x), x.get_uncovered_eojeols(2)]


def saved_graph(x, c, later):
    if later:
        for w in c[0].split():
            x.remove_eojeol(w, 1)
            x.add_eojeol('새' + w, 2)
    before = [x._lr, x._rl]
    before = agents.canon(before)
    x.reset_lrgraph()
    return [before, x._lr, x._rl, dict(x.to_EojeolCounter().items())]


def saved_words(x, c, later):
    if later:
        x.train(c)
    return [x.extract(), x.words(), [x.frequency(w) for w in ('가', '나무', '하늘')]]


def saved_vocabulary(x, c, later):
    if later:
        return [x.fit_transform(c), x.vocabs()]
    return [x.transform(c), x.vocabs(), [x.encode_a_doc_to_bow(s) for s in c], [x.encode_a_doc_to_list(s) for s in c], [x.decode_from_list([0, 1, 2, 9])]]


def saved_patterns(x, c, later):
    if later:
        x.train(c)
    return [x.lrgraph, x.rlgraph, x.max_left_length, x.max_right_length, x.min_frequency]


def saved_dictionary(x, c, later):
    if later:
        x.add_words('Noun', set(c[0].split()), force=True)
        x.remove_words('Noun', {'나무'})
    return [x.pos_dict, x.max_length, [sorted(x.get_pos(w)) for s in c for w in s.split()]]


def counted(p):
    return lambda c: EojeolCounter(c, min_count=p['f'], verbose=False)


def dictionary(p):
    return lambda c: Dictionary({'Noun': {w for s in c for w in s.split()} | {'나무'}, 'Josa': set(JOSAS)} if p['b'] else {'Noun': {'나무'}, 'Verb': {w for s in c for w in s.split()}})


def after_training(make):
    def f(p):
        def g(c):
            x = make(p)
            (x.fit if hasattr(x, 'fit') else x.train)(c)
            return x
        return g
    return f


SAVED = dict(counter=(counted, saved_counter), graph=(lambda p: lambda c: LRGraph(sents=c, l_max_length=p['n'] + 2), saved_graph),
             words=(after_training(lambda p: WordExtractor(min_frequency=p['f'], remove_subwords=p['b'], verbose_points=-1)), saved_words),
             vocabulary=(after_training(lambda p: BaseVectorizer(min_tf=p['f'], verbose=False)), saved_vocabulary),
             patterns=(after_training(lambda p: EojeolPatternTrainer(min_frequency=p['f'], verbose=False)), saved_patterns),
             dictionary=(dictionary, saved_dictionary))
WORDY = st.one_of(korean_corpus(8), gen.corpus('가나다', max_sents=6), gen.repeated(gen.corpus('가나', max_len=3, max_sents=4)))


@sub('C29', 'reloaded', st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(SAVED)), corpora=st.lists(WORDY, min_size=2, max_size=3), p=PARAMS,
                                                   asked=st.booleans(), later=st.booleans())),
     quick=600, thorough=12000, rule='an object that was used and then loads a file answers and goes on like an unused one that loads it')
def reloaded(case):
    make, ask = SAVED[case['kind']]
    p, cs = case['p'], [[s for s in c if s.strip()] or ['나무'] for c in case['corpora']]
    path = os.path.join(scratch(), 'saved.vocab')
    with contextlib.redirect_stdout(io.StringIO()):
        make(p)(cs[0]).save(path)
        fresh, used = make(p)(cs[-1][:1]), make(p)(cs[1])
        if case['asked']:
            ask(used, cs[0], True)
        # the unused object of the same options
        blank = {'counter': lambda: EojeolCounter(min_count=p['f']), 'graph': lambda: LRGraph(l_max_length=p['n'] + 2),
                 'words': lambda: WordExtractor(), 'vocabulary': lambda: BaseVectorizer(min_tf=p['f'], verbose=False),
                 'patterns': lambda: EojeolPatternTrainer(verbose=False), 'dictionary': lambda: Dictionary({})}[case['kind']]()
        for x in (fresh, used, blank):
            x.load(path)
        want, *got = [agents.canon(ask(x, cs[-1], case['later'])) for x in (blank, fresh, used)]
    for x in got:
        assert x == want, (case, want, x)
    return case['kind'] if not empty(want) else None


# ================================================================ C30
describe('C30', 'Corpora of arbitrary text (any Unicode, blanks, empty sentences, single letters, emoticons, no Korean at all) as '
         'lists, tuples, user containers and corpus files, for every extractor, tokenizer, tagger, lemmatizer and normalizer. '
         'Non-trivial: the corpus holds a word.')

TINY = st.lists(st.one_of(gen.rich_text(8), st.sampled_from(['', ' ', '가', '나무', 'a', 'ㅋㅋㅋ', '나무는 나무는', '하', '.', '\n'])), max_size=4)
ARB = st.lists(st.text(max_size=12), max_size=5)
EDGES = ('가힣\uabff\ud7a4\ud7b0\ud7cb\ud7ff' 'ㄱㅎㅏㅣ\u3130\u3164\u318e' '\u1100\u1161\u11a8\ua960' 'ㅋㅎㅜㅠㅅㅇㄷㅂㅄㄳ쿠크갘앗읗'
         '1a.!? \xa0\u3000\u200b\0\x1c\x85\ufeff\u0130ßſıΣ' '٣²½Ⅷ' '😀漢')
EDGY = st.lists(st.text(alphabet=EDGES, max_size=12), max_size=5)


class Container:
    """A corpus that can be iterated and knows its length, nothing else."""

    def __init__(self, sents):
        self.sents = sents

    def __iter__(self):
        return iter(self.sents)

    def __len__(self):
        return len(self.sents)


FROM_CORPUS = ('words', 'noun1', 'noun2', 'news', 'predicates', 'patterns', 'bigrams', 'counter', 'pos_tag')
REFUSES_EMPTY = ('words', 'scores', 'noun1', 'noun2', 'news', 'predicates', 'pos_news', 'pos_chat', 'pos_tag', 'counter')


def accepted(case):
    name, corpus, p = case['agent'], case['corpus'], case['p']
    try:
        r = agents.run(name, corpus, p, case['v'])
    except ValueError as e:
        assert not corpus and name in REFUSES_EMPTY and 'corpus' in str(e), (case, e)
        return None
    assert corpus or name not in REFUSES_EMPTY, (case, 'an empty corpus is refused')
    if not any(s.split() for s in corpus):
        assert name not in FROM_CORPUS or empty(r), (case, r)
        return None
    return name


@sub('C30', 'any_text', st.fixed_dictionaries(dict(agent=st.sampled_from(FAST), corpus=st.one_of(MESSY, TINY, ARB), p=PARAMS,
                                                   v=st.booleans())),
     quick=3000, thorough=60000, rule='nothing fails on any text; only an empty corpus is refused')
def any_text(case):
    return accepted(case)


@sub('C30', 'any_letters', st.fixed_dictionaries(dict(
    agent=st.sampled_from(['text', 'text', 'distances', 'tokenizers', 'lemmas', 'tagger', 'noun2', 'eomi']), corpus=EDGY, p=PARAMS,
    v=st.booleans())), quick=1500, thorough=30000, rule='as any_text, for letters at the edges of the Hangul blocks')
def any_letters(case):
    return accepted(case)


BLIND = ('words', 'noun1', 'noun2', 'news', 'predicates', 'patterns', 'bigrams', 'counter', 'contexts', 'eomi', 'scores')


@sub('C30', 'blanks', st.fixed_dictionaries(dict(
    agent=st.sampled_from(BLIND), corpus=st.one_of(korean_corpus(10), gen.chained_corpus(), TINY), p=PARAMS,
    at=st.lists(st.integers(0, 12), min_size=1, max_size=4), blank=st.sampled_from(['', ' ', '   ', '\t', '\u3000']))), quick=500,
     thorough=10000, rule='sentences without a word change nothing')
def blanks(case):
    name, corpus, p = case['agent'], list(case['corpus']) or ['나무는'], case['p']
    more = list(corpus)
    for i in case['at']:
        more.insert(min(i, len(more)), case['blank'])
    a, b = agents.run(name, corpus, p), agents.run(name, more, p)
    assert a == b, (case, a, b)
    return None if empty(a) else name


@sub('C30', 'any_text_pos', st.fixed_dictionaries(dict(agent=st.sampled_from(SLOW), corpus=st.one_of(MESSY, TINY, ARB), p=PARAMS,
                                                       v=st.booleans())),
     quick=200, thorough=4000, rule='as any_text, for the part-of-speech extractors')
def any_text_pos(case):
    return accepted(case)


def in_containers(case):
    name, p = case['agent'], case['p']
    corpus = [' '.join(s.split()) for s in case['corpus']]
    corpus = [s for s in corpus if s] or ['나무는']
    want = agents.run(name, corpus, p)
    got = {}
    a = AGENTS[name]
    path = os.path.join(scratch(), 'corpus_%d.txt' % os.getpid())
    with open(path, 'w', encoding='utf-8') as f:
        f.write(case['head'] + ''.join(s + e for s, e in zip(corpus, case['ends'] * len(corpus))))
    file = DoublespaceLineCorpus(path, iter_sent=case['iter'], skip_header=case['head'].count('\n'))
    for kind, c in (('tuple', tuple(corpus)), ('container', Container(corpus)), ('file', file)):
        with contextlib.redirect_stdout(io.StringIO()):
            o = a.make(p, False)
            if name == 'pos_tag':
                c = Container(list(c)) if kind == 'file' else c
            a.feed(o, c, p)
            got[kind] = a.read(o, p)
    for kind, r in got.items():
        assert r == want, (case, kind, r, want)
    return None if empty(want) else name


CONT = dict(p=PARAMS, iter=st.booleans(), head=st.sampled_from(['', '', '나무 머리\n', '\n머리  줄\n']),
            ends=st.lists(st.sampled_from(['\n', '\n', ' \n', '\r\n', '\n']), min_size=1, max_size=3))


@sub('C30', 'containers', st.fixed_dictionaries(dict(agent=st.sampled_from(FAST), corpus=st.one_of(
    korean_corpus(10), gen.chained_corpus()), **CONT)), quick=500, thorough=10000,
     rule='a list, a tuple, a container and a corpus file of the same sentences give the same result')
def containers(case):
    return in_containers(case)


@sub('C30', 'containers_pos', st.fixed_dictionaries(dict(agent=st.sampled_from(SLOW), corpus=korean_corpus(10), **CONT)),
     quick=30, thorough=600, rule='as containers, for the part-of-speech extractors')
def containers_pos(case):
    return in_containers(case)
