"""The relations between runs on large corpora and long texts."""
import random

from hypothesis import strategies as st

import c_limits
import c_logs
import c_relations
import c_system
import c_together
from c_system import FAST, PARAMS
from core import sub
from large import CORPUS, KOREAN, RULE, big, corpus, letters, size, word

ANY = st.one_of(KOREAN, KOREAN, corpus(dict(CORPUS, width=size(1, 6, 20), sents=size(3, 40, 120))))
shuffled = st.integers(0, 10 ** 6)


def mixed(c, seed, deal):
    """The sentences in another order, or their words dealt out anew."""
    rnd = random.Random(seed)
    if not deal:
        return rnd.sample(c, len(c))
    words = [w for s in c for w in s.split()]
    rnd.shuffle(words)
    out = []
    while words:
        n = rnd.randint(1, 60)
        out.append(' '.join(words[:n]))
        words = words[n:]
    return out


@sub('C28', 'large_corpus', c_system.texts_of(FAST, ANY), quick=60, thorough=1500, rule=RULE + 'hash seeds and progress output, up to 200 sentences of hundreds of words')
def large_processes(case):
    c_system.quiet(case)
    return c_system.same_everywhere(case)


@sub('C29', 'large_corpus', c_system.history_cases(FAST, ANY), quick=30, thorough=800, rule=RULE + 'used objects, up to 200 sentences')
def large_histories(case):
    return c_system.histories(case)


def long_text(rnd, words, longest, k):
    alpha = letters(rnd, k) + list('ㅋㅜaZ1.!')
    return [' '.join(word(rnd, alpha, 1, longest) for _ in range(rnd.randint(1, words))) for _ in range(3)]


@sub('C30', 'large_text', st.fixed_dictionaries(dict(agent=st.sampled_from(FAST), corpus=st.one_of(KOREAN, big(long_text, words=size(1, 30, 400), longest=size(3, 20, 150), k=size(1, 4, 40))), p=PARAMS, v=st.booleans())),
     quick=80, thorough=2000, rule=RULE + 'words of up to 150 letters, sentences of up to 400 words')
def large_text(case):
    if len(' '.join(case['corpus'])) > 12000:
        case = dict(case, corpus=case['corpus'][:1])
    return c_system.accepted(case)


@sub('C35', 'large_corpus', st.fixed_dictionaries(dict(agent=st.sampled_from(c_relations.TRAINED), bag=st.sampled_from(c_relations.BAGS), p=PARAMS, corpus=ANY, seed=shuffled, kind=st.sampled_from(sorted(c_relations.COUNTED)),
                                                       part=st.sampled_from(c_relations.ADDED), k=st.sampled_from([2, 7, 40]))), quick=60, thorough=1500,
     rule=RULE + 'order, dealing, repetition up to 40 times, parts, up to 200 sentences')
def large_collections(case):
    c = case['corpus']
    a = c_relations.equal_on_both(dict(case, other=mixed(c, case['seed'], False)))
    c_relations.equal_on_both(dict(case, agent=case['bag'], other=mixed(c, case['seed'], True)))
    c_relations.repetition(dict(case, corpus=c[:60] if case['k'] > 2 else c))
    c_relations.parts(dict(kind=case['part'], p=case['p'], parts=[c[::2], c[1::2]]))
    return a


def renaming(rnd, words, longest, sents, entries):
    alpha = c_relations.LETTERS
    c = [' '.join(word(rnd, alpha, 1, longest) for _ in range(rnd.randint(1, words))) for _ in range(sents)]
    table = {word(rnd, alpha, 1, rnd.choice([3, longest])): rnd.randint(1, 7) / 10 for _ in range(entries)}
    return c, table, ' '.join(word(rnd, alpha, 1, longest * 3) for _ in range(words))


@sub('C36', 'large_corpus', st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(c_relations.BLIND)), p=PARAMS, letters=c_relations.OTHER_LETTERS,
                                                       x=big(renaming, words=size(1, 4, 30), longest=size(3, 6, 14), sents=size(2, 20, 120), entries=size(3, 15, 60)))), quick=150, thorough=4000,
     rule=RULE + 'up to 120 sentences of up to 30 words of up to 14 letters, tables of up to 60 words')
def large_letters(case):
    c, table, text = case['x']
    return c_relations.letters(dict(case, corpus=c, table=table, text=text))


@sub('C37', 'large_corpus', st.tuples(c_together.CALLS, ANY, st.sampled_from(sorted(c_together.USERS))).map(lambda t: dict(t[0], corpus=t[1], user=t[2])), quick=60, thorough=1500,
     rule=RULE + 'tokenizers with the words extracted from up to 200 sentences, and what counts with them')
def large_together(case):
    if len(' '.join(case['corpus'])) > 9000:
        case = dict(case, corpus=case['corpus'][:40])
    c_together.tokenized(case)
    return c_together.tokenizers(case)


COUNTED = ('left_variety', 'right_variety', 'pairs', 'pairs_count', 'counter', 'view', 'loaded', 'bow_min', 'bow_max', 'contexts', 'graph_left', 'graph_right', 'eomi')


@sub('C38', 'large_corpus', st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(c_limits.KEPT)), top=st.sampled_from(sorted(c_limits.TOPS)), few=st.sampled_from(sorted(c_limits.RARE)), corpus=ANY, p=PARAMS, times=st.just(1),
                                                       limits=st.lists(size(2, 10, 60), min_size=2, max_size=3, unique=True).map(sorted), limit=size(2, 4, 20), k=size(5, 15, 80))), quick=60, thorough=1500,
     rule=RULE + 'limits of up to 60, the first 80, up to 200 sentences')
def large_limits(case):
    if case['kind'] not in COUNTED:
        case = dict(case, limits=sorted({1 + k % 9 for k in case['limits']} | {5, 8})[:3])
    a = c_limits.kept(case)
    c_limits.first(dict(case, kind=case['top']))
    c_limits.rare(dict(case, kind=case['few'], limit=max(2, case['limit'])))
    return a


@sub('C39', 'large_corpus', st.tuples(c_logs.NOUN_LOG, KOREAN, KOREAN).map(lambda t: dict(t[0], corpus=t[1], other=t[2])), quick=60, thorough=1500, rule=RULE + 'up to 200 sentences')
def large_logs(case):
    a = c_logs.endings(dict(case, deep=False, twice=False))
    return c_logs.nouns(case) or a
