"""Generators of large inputs: Hypothesis draws a seed and sizes, the bulk is expanded from the seed."""
import random

from hypothesis import strategies as st

import agents
from c_system import NOUNS, forms

RULE = 'large inputs; '


def big(build, **sizes):
    """build(rnd, **sizes): sizes are drawn (and shrunk) by Hypothesis, the bulk comes from a drawn seed."""
    return st.tuples(st.integers(0, 10 ** 6), st.fixed_dictionaries(sizes)).map(lambda t: build(random.Random(t[0]), **t[1]))


def size(*values):
    """A size: one of some values, the larger ones as often as the others; or anything up to the largest."""
    return st.one_of(st.sampled_from(values), st.sampled_from(values), st.integers(min(values), max(values)))


ALL = [chr(0xAC00 + i) for i in range(0, 11172, 7)]


def letters(rnd, k):
    return rnd.sample(ALL, k) if k <= len(ALL) else ALL


def word(rnd, alpha, lo, hi):
    return ''.join(rnd.choice(alpha) for _ in range(rnd.randint(lo, hi)))


def skewed(rnd, items):
    """An item; the first ones much more often."""
    return items[int(len(items) * rnd.random() ** 3)]


def family(rnd, n, alpha, longest):
    """n words, many of which begin or end like others."""
    out = [word(rnd, alpha, 1, longest) for _ in range(max(1, n // 3))]
    while len(out) < n:
        a, b = rnd.choice(out), rnd.choice(out)
        out.append(rnd.choice([a[:rnd.randint(1, len(a))] + rnd.choice(alpha), rnd.choice(alpha) + b[-rnd.randint(1, len(b)):], a + b, word(rnd, alpha, 1, longest)])[:longest])
    rnd.shuffle(out)
    return out


def sentences(rnd, vocab=30, longest=6, sents=20, width=5, k=8):
    """Sentences of 1 to width words; some words are much more frequent than others."""
    ws = family(rnd, vocab, letters(rnd, k), longest)
    return [' '.join(skewed(rnd, ws) for _ in range(rnd.randint(1, width))) for _ in range(sents)]


def fan(rnd, vocab=30, longest=6, sents=20, width=5, k=8):
    """One word with very many continuations, each about as frequent, among others."""
    head, alpha = word(rnd, letters(rnd, 5), 1, 3), letters(rnd, max(k, vocab))
    flat = [w for _ in range(max(1, sents // 10)) for w in [head + alpha[i] for i in range(vocab)] + [alpha[-1 - i] + head for i in range(vocab)]]
    rnd.shuffle(flat)
    return [' '.join(flat[i:i + width]) for i in range(0, len(flat), width)]


def any_sentences(rnd, fanned, **kw):
    return fan(rnd, **kw) if fanned else sentences(rnd, **kw)


CORPUS = dict(vocab=size(5, 30, 90), longest=size(4, 9, 16), sents=size(3, 60, 250), width=size(1, 6, 40), k=size(2, 9, 60), fanned=st.booleans())
WIDE = dict(CORPUS, sents=size(3, 60, 250, 700), width=size(1, 3, 5))
case_of = lambda strategy, corpus, **rest: st.fixed_dictionaries(dict(sents=strategy(corpus), **rest))
SHORT = dict(vocab=size(5, 20), longest=size(2, 5), sents=size(250, 600, 1200, 2100), width=size(1, 2, 3), k=size(2, 9), fanned=st.just(False))
corpus = lambda sizes: st.one_of(*[big(any_sentences, **sizes)] * 3, big(any_sentences, **SHORT))      # and many short sentences


def korean(rnd, nouns, stems, sents, width, longest):
    """Sentences over many nouns with particles and many inflected stems, with words joined to long ones."""
    names = NOUNS + family(rnd, nouns, letters(rnd, 20), 4)
    words = [n + j for n in rnd.sample(names, min(len(names), nouns)) for j in rnd.sample(agents.JOSAS + [''], rnd.randint(1, len(agents.JOSAS)))]
    for s in rnd.sample(agents.VERBS + agents.ADJS, min(stems, len(agents.VERBS + agents.ADJS))):
        for e in rnd.sample(agents.EOMIS, rnd.randint(1, len(agents.EOMIS))):
            words.append(forms(s, e)[0])
    rnd.shuffle(words)
    words = words or ['나무는']
    out = [' '.join(skewed(rnd, words) for _ in range(rnd.randint(1, width))) for _ in range(sents)]
    return out + [' '.join(''.join(rnd.choice(words) for _ in range(longest))[:longest] for _ in range(2))]


KOREAN = big(korean, nouns=size(3, 20, 60), stems=size(1, 8, 30), sents=size(5, 60, 200), width=size(2, 8, 40), longest=size(5, 30, 120))
