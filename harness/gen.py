"""Shared generators.  Every generated value is a plain Python literal."""
from hypothesis import strategies as st

SYL = '가나다라마바사'
SMALL = st.sampled_from(list('가나다라'))
KOR = st.integers(0xAC00, 0xD7A3).map(chr)
JAUM = st.integers(0x3131, 0x314E).map(chr)
MOUM = st.integers(0x314F, 0x3163).map(chr)
LATIN = st.sampled_from(list('abcZsÀÿ'))
DIGIT = st.sampled_from(list('0123789'))
PUNCT = st.sampled_from(list('.,!?"\'()[]{}`-+_:;/~@#$%^&*='))
SPACE = st.sampled_from([' ', ' ', ' ', '  ', '\t', '\n', '\r\n', '\u3000', '\xa0'])
ODD = st.sampled_from(['\u1100', '\u1161', '\uA960', '\uD7B0', '\u3130', '\u3164', '\u318E',
                       '\uABFF', '\uD7A4', '漢', 'é', '٣', '²', '😀', '\u200b', '\u0301'])
ANYCHAR = st.characters(blacklist_categories=('Cs',))


def text_of(*chars, min_size=0, max_size=20):
    return st.lists(st.one_of(*chars), min_size=min_size, max_size=max_size).map(''.join)


def rich_text(max_size=24):
    """Mixed script text with runs of repeated characters."""
    run = st.tuples(st.one_of(KOR, JAUM, MOUM, SMALL, LATIN, DIGIT, PUNCT, SPACE, ODD, ANYCHAR),
                    st.sampled_from([1, 1, 1, 1, 2, 3, 4, 5, 7])).map(lambda t: t[0] * t[1])
    return st.lists(run, max_size=max_size).map(''.join)


def word(alphabet='가나다라', min_size=1, max_size=6):
    return st.text(alphabet=alphabet, min_size=min_size, max_size=max_size)


def sentence(alphabet='가나다라', max_words=6, max_len=6, min_words=0):
    return st.lists(word(alphabet, 1, max_len), min_size=min_words, max_size=max_words).map(' '.join)


def pooled_sentences(words, min_sents=1, max_sents=12, max_words=6, min_words=1):
    """Sentences over a fixed pool of words (so that words recur)."""
    return st.lists(st.lists(st.sampled_from(words), min_size=min_words, max_size=max_words)
                    .map(' '.join), min_size=min_sents, max_size=max_sents)


def corpus(alphabet='가나다라', max_len=5, pool=12, max_sents=12, max_words=6, min_sents=1):
    """A corpus whose words are drawn from a small generated vocabulary."""
    return st.lists(word(alphabet, 1, max_len), min_size=1, max_size=pool).flatmap(
        lambda ws: pooled_sentences(ws, min_sents=min_sents, max_sents=max_sents,
                                    max_words=max_words))


EIGHTHS = st.integers(-8, 16).map(lambda k: k / 8)
POS_EIGHTHS = st.integers(0, 16).map(lambda k: k / 8)


def score_dict(alphabet='가나다라', max_len=5, max_size=14, values=None, min_len=1):
    return st.dictionaries(word(alphabet, min_len, max_len), values or POS_EIGHTHS,
                           max_size=max_size)


REPEATS = st.sampled_from([1, 1, 1, 1, 2, 3, 5, 8, 20, 60])


def repeated(corpus_strategy):
    """The same corpora with some sentences occurring many times."""
    return corpus_strategy.flatmap(lambda ss: st.lists(REPEATS, min_size=len(ss), max_size=len(ss)).map(
        lambda ks: [s for s, k in zip(ss, ks) for _ in range(k)]))


def chained_corpus(alphabet='가나다라마바사', max_len=6, max_sents=8, max_words=4, repeat=True):
    """Words that are prefixes and suffixes of one another (and a few of their extensions)."""
    pool = st.lists(word(alphabet, 2, max_len), min_size=1, max_size=2).map(
        lambda bs: [b[:i] for b in bs for i in range(1, len(b) + 1)] + [b[i:] for b in bs for i in range(1, len(b))]
        + [b + bs[-1][:1] for b in bs])
    c = pool.flatmap(lambda ws: pooled_sentences(ws, max_sents=max_sents, max_words=max_words))
    return st.one_of(c, repeated(c)) if repeat else c
