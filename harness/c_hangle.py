"""C01 syllable algebra, C02 one-hot encoder, C03 string distances, C04 normalizers."""
import math
import re
import unicodedata
from collections import Counter
from itertools import groupby

import numpy as np
from hypothesis import strategies as st

from core import sub, describe
import gen
from soynlp import hangle as H
from soynlp.hangle import _hangle
from soynlp import normalizer as N
from soynlp import tokenizer as T

# ---------------------------------------------------------------- independent tables
# Conjoining jamo (what Unicode canonical decomposition yields) -> compatibility jamo,
# derived from the character names, not from soynlp's tables.
def _compat(name):
    return unicodedata.lookup('HANGUL LETTER ' + name)

def _table(lo, hi, prefix):
    out = {}
    for cp in range(lo, hi + 1):
        out[chr(cp)] = _compat(unicodedata.name(chr(cp)).replace(prefix + ' ', ''))
    return out

_DOUBLE_NAMES = {'NIEUN-SIOS': None}
_CHO = _table(0x1100, 0x1112, 'HANGUL CHOSEONG')
_JUNG = _table(0x1161, 0x1175, 'HANGUL JUNGSEONG')
_JONG = _table(0x11A8, 0x11C2, 'HANGUL JONGSEONG')
CHO, JUNG, JONG = list(_CHO.values()), list(_JUNG.values()), [' '] + list(_JONG.values())
JAUMS = [chr(c) for c in range(0x3131, 0x314F)]
MOUMS = [chr(c) for c in range(0x314F, 0x3164)]


def ref_decompose(c):
    if len(c) != 1:
        raise ValueError(c)
    if c in JAUMS:
        return (c, ' ', ' ')
    if c in MOUMS:
        return (' ', c, ' ')
    if 0xAC00 <= ord(c) <= 0xD7A3:
        d = unicodedata.normalize('NFD', c)
        return (_CHO[d[0]], _JUNG[d[1]], _JONG[d[2]] if len(d) == 3 else ' ')
    return None


def is_syllable(c):
    return 0xAC00 <= ord(c) <= 0xD7A3


def is_korean(c):
    return is_syllable(c) or c in JAUM_SET or c in MOUM_SET


JAUM_SET, MOUM_SET = set(JAUMS), set(MOUMS)

# ================================================================ C01
describe('C01', 'All 11,172 syllables and all jamo are enumerated (exhaustive); code points '
         'are enumerated over the BMP; random triples and characters are generated. '
         'Non-trivial: a Korean character or a valid triple, or a code point next to a range edge.')


def _syllable_cases(tier):
    for cp in range(0xAC00, 0xD7A4, 28):
        yield [cp, 28]


@sub('C01', 'syllable_bijection', cases=_syllable_cases, rule='each case is one block of 28 syllables')
def syllable_bijection(case):
    start, n = case
    seen = set()
    for cp in range(start, start + n):
        c = chr(cp)
        d = H.decompose(c)
        assert tuple(d) == ref_decompose(c), (c, d, ref_decompose(c))
        assert H.compose(*d) == c, (c, d, H.compose(*d))
        seen.add(tuple(d))
    assert len(seen) == n
    return True


def _cp_cases(tier):
    for base in range(0, 0x10000, 512):
        if not 0xD800 <= base < 0xE000:
            yield base


@sub('C01', 'classifiers_bmp', cases=_cp_cases, rule='each case is a block of 512 code points of the BMP')
def classifiers_bmp(base):
    for cp in range(base, base + 512):
        _check_char(chr(cp))
    return 'block'


def _check_char(c):
    assert bool(H.character_is_complete_korean(c)) == is_syllable(c), c
    assert bool(H.character_is_jaum(c)) == (c in JAUM_SET), c
    assert bool(H.character_is_moum(c)) == (c in MOUM_SET), c
    assert bool(H.character_is_korean(c)) == is_korean(c), c
    assert bool(H.character_is_number(c)) == (c in '0123456789'), c
    assert bool(H.character_is_english(c)) == (c.isascii() and c.isalpha()), c
    assert H.to_base(c) == ord(c)
    if hasattr(_hangle, 'character_is_punctuation'):
        assert bool(_hangle.character_is_punctuation(c)) == (c in '!"\',.?`'), c
    d = H.decompose(c)
    assert (d if d is None else tuple(d)) == ref_decompose(c), (c, d)


@sub('C01', 'any_character', st.one_of(gen.KOR, gen.JAUM, gen.MOUM, gen.ODD, gen.ANYCHAR),
     quick=2000, thorough=100000, rule='any Unicode character; non-trivial when Korean')
def any_character(c):
    _check_char(c)
    return 'korean' if is_korean(c) else None


_PART = st.one_of(st.sampled_from(CHO), st.sampled_from(JUNG), st.sampled_from(JONG),
                  st.sampled_from(JAUMS + MOUMS + [' ', 'a', '가', '']))


@sub('C01', 'compose_triples', st.tuples(
    st.one_of(st.sampled_from(CHO), st.sampled_from(CHO), st.sampled_from(CHO), _PART),
    st.one_of(st.sampled_from(JUNG), st.sampled_from(JUNG), st.sampled_from(JUNG), _PART),
    st.one_of(st.sampled_from(JONG), st.sampled_from(JONG), st.sampled_from(JONG), _PART)),
     quick=3000, thorough=60000,
     rule='triples of jamo, valid and invalid; invalid ones must be rejected with ValueError')
def compose_triples(case):
    cho, jung, jong = case
    valid = cho in CHO and jung in JUNG and jong in JONG
    if not valid:
        try:
            got = H.compose(cho, jung, jong)
        except ValueError:
            return 'rejected'
        raise AssertionError('compose%r returned %r' % (case, got))
    c = H.compose(cho, jung, jong)
    assert is_syllable(c) and ref_decompose(c) == (cho, jung, jong), (case, c)
    assert tuple(H.decompose(c)) == (cho, jung, jong)
    return 'valid'


# ================================================================ C02
describe('C02', 'Text of Hangul, jamo, digits, spaces and foreign characters. Non-trivial: '
         'at least two different encodable characters.')

ENC_TEXT = gen.text_of(gen.KOR, gen.KOR, gen.JAUM, gen.MOUM, gen.DIGIT, gen.SPACE, gen.LATIN,
                       gen.ODD, max_size=16)


def enc_normal(s):
    kept = ''.join(c if (is_korean(c) or c in '0123456789') else ' ' for c in s)
    return ' '.join(kept.split())


def _expected_codes(c):
    if c == ' ':
        return (78,)
    if c in '0123456789':
        return (68 + int(c),)
    if is_syllable(c):
        a, b, d = ref_decompose(c)
        return (CHO.index(a), 19 + JUNG.index(b), 40 + JONG.index(d))
    for base, table in ((0, CHO), (19, JUNG), (40, JONG)):
        if c in table:
            return (base + table.index(c),)


@sub('C02', 'roundtrip', ENC_TEXT, quick=1500, thorough=40000, rule='encode then decode')
def enc_roundtrip(s):
    enc = H.ConvolutionHangleEncoder()
    codes = enc.sent_to_onehot(s)
    want = enc_normal(s)
    assert [tuple(c) for c in codes] == [_expected_codes(c) for c in want], (codes, want)
    assert enc.onehot_to_sent(codes) == want, (enc.onehot_to_sent(codes), want)
    x = enc.encode(s)
    assert x.shape == (len(want), enc.dim) and enc.dim == 80, x.shape
    for i, code in enumerate(codes):
        assert sorted(np.nonzero(x[i])[0].tolist()) == sorted(code)
        assert all(v == 1 for v in x[i][list(code)])
    # re-encoding the decoded text changes nothing
    assert enc.sent_to_onehot(want) == codes
    return 'multi' if len(set(want)) > 1 else None


@sub('C02', 'decode_rejects', st.lists(st.one_of(
    st.tuples(st.integers(-3, 84)),
    st.tuples(st.integers(-3, 84), st.integers(-3, 84), st.integers(-3, 84)),
    st.tuples(st.integers(0, 18), st.integers(19, 39), st.integers(40, 67)),
    st.tuples(st.integers(-1, 19), st.integers(18, 40), st.integers(39, 68)),
    st.tuples(st.integers(0, 79), st.integers(0, 79))), max_size=5),
     quick=1500, thorough=20000, rule='index lists, in and out of range')
def decode_rejects(codes):
    enc = H.ConvolutionHangleEncoder()

    def legal(c):
        if len(c) == 1:
            return 0 <= c[0] < 80
        if len(c) == 3:
            return 0 <= c[0] < 19 and 19 <= c[1] < 40 and 40 <= c[2] < 68
        return True
    ok = all(legal(c) for c in codes)
    try:
        out = enc.onehot_to_sent(codes)
    except ValueError:
        assert not ok, codes
        return 'rejected'
    assert ok, (codes, out)
    want = ''
    for c in codes:
        if len(c) == 3:
            want += H.compose(CHO[c[0]], JUNG[c[1] - 19], JONG[c[2] - 40])
        elif len(c) == 2 or c[0] == 79:
            want += '<unk>'
        else:
            want += (CHO + JUNG + JONG + list('0123456789') + [' '])[c[0]]
    assert out == want, (codes, out, want)
    return 'decoded' if codes else None


# ================================================================ C03
describe('C03', 'Pairs/triples of strings over a small alphabet of near and far syllables, '
         'jamo and latin letters. Non-trivial: both strings non-empty and different.')

DCHARS = ['가', '나', '남', '감', '간', '곰', 'ㄱ', 'ㅏ', 'a', 'b', '!']
DSTR = st.text(alphabet=DCHARS, max_size=7)


def ref_lev(a, b, subst):
    n, m = len(a), len(b)
    d = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n + 1):
        for j in range(m + 1):
            if i == 0 or j == 0:
                d[i][j] = i + j
            else:
                d[i][j] = min(d[i - 1][j] + 1, d[i][j - 1] + 1,
                              d[i - 1][j - 1] + subst(a[i - 1], b[j - 1]))
    return d[n][m]


def unit_cost(x, y):
    return 0 if x == y else 1


def ref_jamo_cost(x, y):
    if x == y:
        return 0
    dx, dy = ref_decompose(x), ref_decompose(y)
    if dx is None or dy is None:
        return 1
    return ref_lev(dx, dy, unit_cost) / 3


def close(x, y):
    return abs(x - y) < 1e-9


@sub('C03', 'levenshtein', st.tuples(DSTR, DSTR, DSTR, st.booleans()), quick=1500, thorough=40000,
     rule='unit-cost edit distance against a full-table reference, and the metric laws')
def lev(case):
    a, b, c, as_list = case
    if as_list:
        a, b, c = list(a), list(b), list(c)
    ab = H.levenshtein(a, b)
    assert close(ab, ref_lev(a, b, unit_cost)), (a, b, ab)
    assert close(ab, H.levenshtein(b, a))
    assert (ab == 0) == (a == b)
    assert abs(len(a) - len(b)) <= ab <= max(len(a), len(b))
    assert H.levenshtein(a, c) <= ab + H.levenshtein(b, c)
    return True if a and b and a != b else None


COSTS = st.dictionaries(st.tuples(st.sampled_from(DCHARS), st.sampled_from(DCHARS)),
                        st.sampled_from([0, 0.125, 0.25, 0.5, 1, 1.5, 3]), max_size=8)


@sub('C03', 'levenshtein_cost', st.tuples(DSTR, DSTR, COSTS), quick=2500, thorough=60000,
     rule='directed substitution costs; non-trivial when a cost entry applies to the pair')
def lev_cost(case):
    a, b, cost = case
    before = dict(cost)

    def subst(x, y):
        return 0 if x == y else cost.get((x, y), 1)
    got = H.levenshtein(a, b, cost)
    assert close(got, ref_lev(a, b, subst)), (case, got, ref_lev(a, b, subst))
    assert cost == before
    hit = any(x in a and y in b and x != y for x, y in cost)
    return ('shorter_first' if len(a) < len(b) else 'longer_first') if hit else None


@sub('C03', 'jamo_levenshtein', st.tuples(st.one_of(DSTR, gen.text_of(gen.KOR, gen.JAUM, gen.LATIN, max_size=5)),
                                          st.one_of(DSTR, gen.text_of(gen.KOR, gen.JAUM, gen.LATIN, max_size=5)), DSTR),
     quick=1500, thorough=40000, rule='jamo-level edit distance against a reference built on NFD')
def jamo(case):
    a, b, c = case
    ab = H.jamo_levenshtein(a, b)
    assert close(ab, ref_lev(a, b, ref_jamo_cost)), (a, b, ab)
    assert close(ab, H.jamo_levenshtein(b, a))
    assert (ab < 1e-9) == (a == b)
    assert ab <= H.levenshtein(a, b) + 1e-9
    assert H.jamo_levenshtein(a, c) <= ab + H.jamo_levenshtein(b, c) + 1e-9
    return True if a and b and a != b else None


def _bigrams(x):
    return [x[i:i + 2] for i in range(len(x) - 1)] or [x]


@sub('C03', 'cosine_jaccard', st.tuples(DSTR, DSTR, st.booleans()), quick=1500, thorough=30000,
     rule='set/bag distances, with the default and with a bigram unit function')
def cosjac(case):
    a, b, bigram = case
    unit = _bigrams if bigram else list
    if bigram:
        cos = H.cosine_distance(a, b, unitfy=lambda x: Counter(_bigrams(x)))
        jac = H.jaccard_distance(a, b, unitfy=lambda x: set(_bigrams(x)))
    else:
        cos, jac = H.cosine_distance(a, b), H.jaccard_distance(a, b)
    if not a or not b:
        assert cos == 2 and jac == 1, (a, b, cos, jac)
        return None
    ca, cb = Counter(unit(a)), Counter(unit(b))
    dot = sum(v * cb[k] for k, v in ca.items())
    want = 1 - dot / math.sqrt(sum(v * v for v in ca.values()) * sum(v * v for v in cb.values()))
    assert close(cos, want), (case, cos, want)
    sa, sb = set(ca), set(cb)
    assert close(jac, 1 - len(sa & sb) / len(sa | sb)), (case, jac)
    return True if a != b else None


# ================================================================ C04
describe('C04', 'Mixed-script text with runs of repeated characters, emoticon-like jamo/syllable '
         'sequences and all whitespace kinds. Non-trivial: the normalizer has something to change.')

PUNCTS, SYMBOLS, QUOTES = set(',.?!'), set('()[]{}'), set('"\'')


def ascii_alpha(c):
    return 'a' <= c <= 'z' or 'A' <= c <= 'Z'


def ascii_digit(c):
    return '0' <= c <= '9'


def is_ws(c):
    return c.isspace()


def collapse(s, strip=True):
    out = []
    for c in s:
        if is_ws(c):
            if not out or out[-1] != ' ':
                out.append(' ')
        else:
            out.append(c)
    s = ''.join(out)
    return s.strip(' ') if strip else s


def wordchar(c):
    return c.isalnum() or c == '_'


def ref_repeat(s, n, at_least=3):
    if n <= 0:
        return s
    out = []
    for c, g in groupby(s):
        k = len(list(g))
        out.append(c * (min(k, n) if wordchar(c) and k >= at_least else k))
    return ''.join(out)


RICH = gen.rich_text()


@sub('C04', 'only_filters', RICH, quick=2000, thorough=50000,
     rule='only_hangle / only_hangle_number / only_text / remove_doublespace vs a character-class reference')
def only_filters(s):
    def filt(keep):
        return collapse(''.join(c if keep(c) else ' ' for c in s))
    text = lambda c: (is_korean(c) or ascii_alpha(c) or ascii_digit(c) or
                      c in PUNCTS or c in SYMBOLS or c in QUOTES)
    pairs = [(N.only_hangle, is_korean),
             (N.only_hangle_number, lambda c: is_korean(c) or ascii_digit(c)),
             (N.only_text, text)]
    for f, keep in pairs:
        got = f(s)
        assert got == filt(keep), (f.__name__, s, got, filt(keep))
        assert f(got) == got
    assert N.remove_doublespace(s) == collapse(s, strip=False), s
    return 'changed' if N.only_hangle(s) != s else None


@sub('C04', 'normalize_flags', st.tuples(RICH, st.booleans(), st.booleans(), st.booleans(),
                                         st.booleans(), st.integers(0, 5)),
     quick=2500, thorough=60000, rule='normalize with every flag combination vs a reference')
def normalize_flags(case):
    s, alphabet, number, punct, symbol, rep = case

    def keep(c):
        return (is_korean(c) or c in QUOTES or (alphabet and ascii_alpha(c)) or
                (number and ascii_digit(c)) or (punct and c in PUNCTS) or
                (symbol and c in SYMBOLS))
    want = collapse(ref_repeat(''.join(c if keep(c) else ' ' for c in s), rep))
    got = N.normalize(s, alphabet=alphabet, number=number, punctuation=punct,
                      symbol=symbol, remove_repeat=rep)
    assert got == want, (case, got, want)
    return 'changed' if got != s else None


@sub('C04', 'legacy_normalize', st.tuples(RICH, st.booleans(), st.booleans(), st.booleans(),
                                          st.integers(0, 6), st.text(alphabet='漢é~😀-', max_size=2)),
     quick=1500, thorough=30000, rule='soynlp.hangle.normalize vs a character-class reference')
def legacy_normalize(case):
    s, english, number, punct, rep, remains = case

    def keep(c):
        return (c == ' ' or is_korean(c) or (english and ascii_alpha(c)) or
                (number and ascii_digit(c)) or (punct and c in '!"\',.?`') or c in remains)
    want = collapse(''.join(c if keep(c) else ' ' for c in ref_repeat(s, rep, at_least=4)))
    got = H.normalize(s, english=english, number=number, punctuation=punct,
                      remove_repeat=rep, remains=set(remains))
    assert got == want, (case, got, want)
    return 'changed' if got != s else None


@sub('C04', 'repeat_normalize', st.tuples(RICH, st.integers(0, 6)), quick=2500, thorough=50000,
     rule='runs of three or more are shortened to the requested length, nothing else changes')
def repeat_normalize(case):
    s, n = case
    got = N.repeat_normalize(s, n)
    want = collapse(ref_repeat(s, n))
    # a run may only become adjacent to an equal one through whitespace removal, which
    # cannot happen: whitespace runs keep one blank
    assert got == want, (case, got, want)
    assert len(got) <= len(s)
    assert N.repeat_normalize(got, n) == got, (case, got)
    return 'shortened' if len(want) < len(collapse(s)) else None


EMO_CHARS = ['ㅋ', 'ㅋ', 'ㅜ', 'ㅎ', 'ㅏ', '쿠', '쿸', '아', '앜', '하', '핳', '후', 'ㅠ', '큐', '꺄', 'ㄲ', '앆', 'ㄳ',
             '갃', 'a', ' ', '가', '값']
EMO = st.lists(st.tuples(st.one_of(st.sampled_from(EMO_CHARS), gen.KOR, gen.JAUM, gen.MOUM),
                         st.sampled_from([1, 1, 1, 2, 3, 4])).map(lambda t: t[0] * t[1]),
               max_size=9).map(''.join)


def glued(t):
    """A syllable between letters, most of which are its own."""
    c, before, after, own, open_ = t
    cho, jung, jong = ref_decompose(c)
    if open_:
        c, jong = chr(ord(c) - (ord(c) - 0xAC00) % 28), ' '
    return (cho if own & 1 else before) + c + [after, jung, jong.strip(), ''][own >> 1]


EMO = st.one_of(EMO, st.lists(st.one_of(
    st.tuples(gen.KOR, st.one_of(gen.JAUM, gen.MOUM), st.one_of(gen.JAUM, gen.MOUM), st.integers(0, 7), st.booleans()).map(glued),
    st.sampled_from(EMO_CHARS)), min_size=1, max_size=5).map(''.join),
    st.tuples(gen.KOR, gen.JAUM, gen.MOUM, st.integers(0, 7), st.booleans(), st.sampled_from(EMO_CHARS)).map(      # torn around the ends
        lambda t: glued(t[:5])[1:] + t[5] + glued(t[:5])[:1]))


def jamo_stream(s):
    out = []
    for c in s:
        d = ref_decompose(c)
        out.extend([c] if d is None else [x for x in d if x != ' '])
    return ''.join(out)


def ref_emoticon(s):
    """Syllables glued to an emoticon are taken apart; everything else is untouched."""
    out = []
    for i, c in enumerate(s):
        prev = s[i - 1] if i > 0 else ''
        nxt = s[i + 1] if i + 1 < len(s) else ''
        if not is_syllable(c):
            out.append(c)
            continue
        cho, jung, jong = ref_decompose(c)
        if prev in JAUM_SET and nxt in MOUM_SET:
            split = cho == prev and jung == nxt and jong == ' '
            out.append(cho + jung if split else c)
        elif nxt in JAUM_SET:
            out.append(H.compose(cho, jung, ' ') + jong if jong == nxt else c)
        elif prev in JAUM_SET and cho == prev and jong == ' ':
            out.append(cho + jung)
        else:
            out.append(c)
    return ''.join(out)


@sub('C04', 'emoticon_lossless', EMO, quick=3000, thorough=60000,
     rule='with repeat folding off, the stream of jamo of the text is unchanged; non-trivial when text holds jamo and a syllable')
def emoticon_lossless(s):
    got = N.emoticon_normalize(s, num_repeats=0)
    assert jamo_stream(got) == jamo_stream(collapse(s)), (s, got)
    return 'mixed' if any(is_syllable(c) for c in s) and any(c in JAUM_SET or c in MOUM_SET for c in s) else None


@sub('C04', 'emoticon_reference', st.tuples(EMO, st.integers(0, 4)), quick=3000, thorough=60000,
     rule='emoticon_normalize equals take-apart followed by repeat folding')
def emoticon_reference(case):
    s, n = case
    got = N.emoticon_normalize(s, num_repeats=n)
    want = collapse(ref_repeat(ref_emoticon(s), n))
    assert got == want, (case, got, want)
    return 'changed' if got != s else None


@sub('C04', 'lrgraph_sentence', RICH, quick=2000, thorough=40000,
     rule='sentence cleaning for L-R graphs: words are cut after their last Hangul letter')
def lrgraph_sentence(s):
    keep = lambda c: (is_korean(c) or ascii_alpha(c) or ascii_digit(c) or c in PUNCTS or c in QUOTES)
    words = ''.join(c if keep(c) else ' ' for c in s).split()
    want = []
    for w in words:
        last = max([i for i, c in enumerate(w) if is_korean(c)], default=-1)
        assert N.remain_hangle_on_last(w) == w[:last + 1], (w, N.remain_hangle_on_last(w))
        if last >= 0:
            want.append(w[:last + 1])
    got = N.normalize_sent_for_lrgraph(s)
    assert got == ' '.join(want), (s, got, want)
    assert N.normalize_sent_for_lrgraph(got) == got
    return 'cut' if any(not is_korean(w[-1]) for w in words) else None


def ref_fold(s, k, n):
    """Groups of k word characters repeated four or more times become n copies."""
    out, i = [], 0
    while i < len(s):
        g = s[i:i + k]
        if len(g) == k and all(wordchar(c) for c in g):
            m = 1
            while s[i + m * k:i + (m + 1) * k] == g:
                m += 1
            if m >= 4:
                out.append(g * min(n, m))
                i += m * k
                continue
        out.append(s[i])
        i += 1
    return ''.join(out)


def ref_token_emoji(t):
    out = []
    for c, nx in zip(t, t[1:]):
        d, e = ref_decompose(c), ref_decompose(nx)
        if d is None or e is None:
            out.append(c)
        elif e[1] == ' ' and d[2] == e[0]:
            out.append(H.compose(d[0], d[1], ' ') + e[0])
        elif d[2] == ' ' and e[0] == ' ' and d[1] == e[1]:
            out.append(d[0].strip() + d[1])
        else:
            out.append(c)
    return ''.join(out) + t[-1]


@sub('C04', 'token_normalize', st.tuples(st.one_of(EMO, RICH, st.lists(st.tuples(
    gen.word('ㅋㅜ하아ab', 1, 4), st.integers(1, 7)).map(lambda t: t[0] * t[1]), max_size=3).map(''.join)),
    st.integers(0, 6)), quick=2500, thorough=50000,
     rule='soynlp.tokenizer.normalize: emoticon splitting and folding of repeated groups, word by word')
def token_normalize(case):
    s, n = case
    got = T.normalize(s, num_repeat=n)
    want = []
    for t in s.split():
        t = ref_token_emoji(t)
        if n > 0:
            for k in (4, 3, 2, 1):
                t = ref_fold(t, k, n)
        want.append(t)
    assert got == ' '.join(want), (case, got, want)
    plain = T.normalize(s, num_repeat=0)
    assert jamo_stream(plain) == jamo_stream(' '.join(s.split())), (s, plain)
    return 'changed' if got != s else None
