"""C21 conjugation, C22 lemmatization."""
from hypothesis import strategies as st

from core import sub, describe
import gen
from soynlp.lemmatizer import (Lemmatizer, conjugate, conjugate_chat, lemma_candidate, lemma_candidate_chat,
                               _conjugate_stem)

# ---------------------------------------------------------------- own Hangul arithmetic (independent of soynlp)
CHO = 'ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ'
JUNG = 'ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ'
JONG = ' ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ'


def syl(i, m, f=' '):
    return chr(0xAC00 + (CHO.index(i) * 21 + JUNG.index(m)) * 28 + JONG.index(f))


def parts(c):
    k = ord(c) - 0xAC00
    return CHO[k // 588], JUNG[k // 28 % 21], JONG[k % 28]


def is_syl(c):
    return 0xAC00 <= ord(c) <= 0xD7A3


def reference(stem, ending):
    """Surface forms by the rules of the written language (None: outside the tables)."""
    head, last, rest = stem[:-1], stem[-1], ending[1:]
    I, V, F = parts(last)
    if not is_syl(ending[0]):                                   # -ㄴ, -ㄹ, -ㅁ, -ㅂ, -ㅆ
        e = ending[0]
        if e in 'ㄴㄹㅁㅂㅆ' and F in ' ㄹㅎ' and not (F == 'ㄹ' and e in 'ㄹㅁ'):
            return {head + syl(I, V, e) + rest}                 # 이+ㅂ니다 입니다, 서툴+ㄴ 서툰, 파랗+ㄴ 파란
        return None
    i, v, f = parts(ending[0])
    vowel = i == 'ㅇ'
    imperative = ending[:2] in ('아라', '어라')
    if F == 'ㅎ':
        return None                                             # membership only, below
    if not vowel:
        return {stem + ending}                                  # 먹+고 먹고
    if imperative:
        if F not in ' ㄷㅂㅅ':                                   # 읽+어라 읽어라, 막+어라 막아라
            return {stem + ('아' if V in 'ㅏㅑㅗㅛ' else '어') + rest}
        return None
    if F == 'ㄷ':                                               # 깨닫+아 깨달아, 받+아 받아
        return {head + syl(I, V, 'ㄹ') + ending, stem + ending}
    if F == 'ㅂ':                                               # 더럽+어 더러워, 곱+아 고와, 돕+울까 도울까
        if v in 'ㅏㅓ':
            broken = head and last in '답꼽깝롭'
            return {head + syl(I, V) + syl('ㅇ', 'ㅘ' if v == 'ㅏ' and not broken else 'ㅝ', f) + rest}
        return {head + syl(I, V) + ending}
    if F == 'ㅅ':                                               # 붓+어 부어, 벗+어 벗어
        return {stem + ending} if last == '벗' else {head + syl(I, V) + ending}
    if F != ' ':
        return {stem + ending}                                  # 먹+어 먹어
    if last == '하' and v in 'ㅏㅓ':                             # 하여, 해
        return {stem + syl('ㅇ', 'ㅕ', f) + rest, head + syl('ㅎ', 'ㅐ', f) + rest}
    if V == 'ㅗ' and v == 'ㅏ':                                  # 오+았다 왔다
        return {head + syl(I, 'ㅘ', f) + rest}
    if V == 'ㅜ' and v == 'ㅓ':                                  # 주+어 줘, 푸+어 퍼
        return {head + (syl('ㅍ', 'ㅓ', f) if last == '푸' else syl(I, 'ㅝ', f)) + rest}
    if last == '르':
        out = set()
        if v in 'ㅏㅓ' and head and stem[-2:] != '푸르':
            if not is_syl(stem[-2]):
                return None
            a, b, _ = parts(stem[-2])                           # 구르+어 굴러
            out.add(stem[:-2] + syl(a, b, 'ㄹ') + syl('ㄹ', v, f) + rest)
        if v == 'ㅓ' and stem[-2:] != '구르':                    # 이르+었다 이르렀다
            out.add(stem + syl('ㄹ', 'ㅓ', f) + rest)
        return out or None
    if V == 'ㅡ':
        if v not in 'ㅏㅓ':
            return None
        if I == 'ㅇ' and head:                                  # 모으+았다 모았다
            return {head + ending}
        return {head + syl(I, v, f) + rest}                     # 끄+었다 껐다
    if V == 'ㅣ' and v == 'ㅓ':                                  # 만지+었다 만졌다, 만지었다
        return {head + syl(I, 'ㅕ', f) + rest, stem + ending}
    if V == v:
        return {head + syl(I, V, f) + rest}                     # 가+았다 갔다
    return {stem + ending}                                      # 보내+어 보내어


STEM_LAST = st.one_of(
    st.tuples(st.sampled_from(CHO), st.sampled_from(JUNG), st.sampled_from([' ', ' ', ' ', 'ㄷ', 'ㅂ', 'ㅅ', 'ㅎ', 'ㄹ', 'ㄱ', 'ㄴ', 'ㄶ'])).map(lambda t: syl(*t)),
    st.sampled_from(list('하르푸오우으이가벗좋놓답꼽깝롭곱닫받붓주끄트지렇랗')),
    gen.KOR)
HEADS = st.one_of(st.just(''), st.sampled_from(['구', '푸', '이', '아', '더', '파', '그', '깨', '모']),
                  st.text(alphabet=gen.KOR, min_size=1, max_size=3))
END_FIRST = st.one_of(
    st.sampled_from(list('아어았었앙엉을은으이우운울와워여였고다면니네는는지자게러라서셨') + ['아라', '어라', '어라', '아서', '었던']),
    st.sampled_from(list('ㄴㄹㅁㅂㅆ')), gen.KOR)
TAILS = st.one_of(st.just(''), st.sampled_from(['아', '어', '아아', '어라', '다', '서', '니다', '라니까', '던']), st.text(alphabet=gen.KOR, max_size=3))
STEM = st.tuples(HEADS, STEM_LAST).map(''.join)
ENDING = st.tuples(END_FIRST, TAILS).map(''.join)

describe('C21', 'Stems and endings assembled from every class of regular and irregular conjugation (and random syllables), '
         'with random leading syllables and tails. Non-trivial: the surface is not plain concatenation, or several surfaces exist.')


@sub('C21', 'rules', st.tuples(STEM, ENDING), quick=12000, thorough=200000,
     rule='the surface forms against a table of the conjugation classes of written Korean')
def conjugation_rules(case):
    stem, ending = case
    got = conjugate(stem, ending)
    want = reference(stem, ending)
    if want is None:
        return None
    assert got == want, (case, got, want)
    return None if want == {stem + ending} else ('several' if len(want) > 1 else 'irregular')


HEAD_SYLLABLES = list('아어았었앙엉을은으이우운울와워여였고다면니네는지자게러라서셨') + list('ㄴㄹㅁㅂㅆ') + ['아라', '어라']


@sub('C21', 'every_class', st.tuples(st.sampled_from(CHO), st.sampled_from(JUNG)), quick=399, thorough=399,
     rule='every last syllable of a stem with the finals that matter, bare and behind another syllable, with every head of an '
          'ending, against the same table')
def conjugation_every_class(case):
    n = 0
    for f in ' ㄷㅂㅅㄹㄱㅎㄴ':
        last = syl(*case, f)
        for stem in (last, '나' + last):
            for ending in HEAD_SYLLABLES + [e + e[-1] for e in HEAD_SYLLABLES]:
                want = reference(stem, ending)
                if want is not None:
                    got = conjugate(stem, ending)
                    assert got == want, (stem, ending, got, want)
                    n += want != {stem + ending}
    return 'irregular' if n else None


@sub('C21', 'h_irregular', st.tuples(HEADS, st.sampled_from('ㄱㄴㄷㄹㅁㅂㅅㅈㅊㅋㅌㅍㅎ'), st.sampled_from('ㅏㅓ'), TAILS), quick=800, thorough=10000,
     rule='ㅎ-irregular stems contract (파랬다), drop (파라면), keep or drop (파랗네, 파라네); 좋 and 놓 do not contract to 재/내')
def h_irregular(case):
    head, i, v, tail = case
    stem = head + syl(i, v, 'ㅎ')
    bare = head + syl(i, v)
    for f, first in ((' ', '아' if v == 'ㅏ' else '어'), ('ㅆ', '았' if v == 'ㅏ' else '었')):
        got = conjugate(stem, first + tail)
        assert head + syl(i, 'ㅐ' if v == 'ㅏ' else 'ㅔ', f) + tail in got, (case, got)
    assert conjugate(stem, '면' + tail) == {bare + '면' + tail}, case
    for n in '네니냐느는내놔너':
        assert conjugate(stem, n + tail) == {bare + n + tail, stem + n + tail}, (case, n)
    for f in 'ㄴㄹㅁㅂ':                                         # 파랗+ㄴ 파란
        assert conjugate(stem, f + tail) == {head + syl(i, v, f) + tail}, (case, f)
    for keep in '좋놓':
        assert head + syl(i, 'ㅔ') + tail not in conjugate(stem, '거' + tail), case
        assert head + keep + '아' + tail in conjugate(head + keep, '아' + tail) and \
            head + keep + '면' + tail in conjugate(head + keep, '면' + tail), (case, keep)
    return 'contracted'


@sub('C21', 'imperative', st.tuples(st.tuples(HEADS, st.one_of(STEM_LAST, st.sampled_from(list('오우가보주서나파')))).map(''.join),
                                   st.sampled_from(['아라', '어라']), TAILS), quick=1500, thorough=20000,
     rule='-아라/-어라: 와라, 워라, 가라; other stems take the forms of -아/-어 and the uncontracted form in vowel harmony')
def imperative(case):
    stem, ending, tail = case
    got = conjugate(stem, ending + tail)
    short = {'오': '와라', '우': '워라', '가': '가라'}.get(stem[-1])
    if short:
        assert got == {stem[:-1] + short + tail}, (case, got)
        return 'contracted'
    I, V, F = parts(stem[-1])
    if F == 'ㅎ':
        return None
    assert stem + ('아' if V in 'ㅏㅑㅗㅛ' else '어') + '라' + tail in got, (case, got)
    like = reference(stem, ending[0] + '서')
    if like and V != 'ㅏㅓ'['아어'.index(ending[0])]:
        assert {w[:-1] + '라' + tail for w in like if w != stem + ending[0] + '서'} <= got, (case, like, got)
    return 'forms' if len(got) > 1 else None


@sub('C21', 'chat', st.tuples(STEM, st.one_of(st.sampled_from(JONG[1:]), END_FIRST), TAILS, st.booleans()), quick=2500, thorough=30000,
     rule='the informal conjugation adds to the conjugation only the syllable closed by the letter that the ending begins with')
def conjugation_chat(case):
    stem, first, tail, harmony = case
    got, plain = conjugate_chat(stem, first + tail, harmony), conjugate(stem, first + tail, harmony)
    closed = {stem[:-1] + syl(*parts(stem[-1])[:2], first) + tail} if first in JONG else set()
    assert got == plain | closed, (case, got, plain)
    assert conjugate_chat(stem, '') == {stem}
    return 'closed' if closed else None


@sub('C21', 'local', st.tuples(st.tuples(st.text(alphabet=gen.KOR, min_size=1, max_size=2), STEM_LAST).map(''.join),
                               st.tuples(END_FIRST, st.text(alphabet=gen.KOR, min_size=1, max_size=2)).map(''.join),
                               st.text(alphabet=gen.KOR, max_size=3), st.text(alphabet=gen.KOR, max_size=3), st.booleans()),
     quick=5000, thorough=80000,
     rule='only the last two syllables of the stem and the first two of the ending matter: leading and trailing text is carried over')
def conjugation_local(case):
    stem, ending, before, after, harmony = case
    inner = conjugate(stem, ending, harmony)
    outer = conjugate(before + stem, ending + after, harmony)
    assert inner and outer == {before + x + after for x in inner}, (case, inner, outer)
    assert _conjugate_stem(before + stem) == {before + x for x in _conjugate_stem(stem)}, case
    chat = conjugate_chat(stem, ending, harmony)
    assert inner <= chat, (case, inner, chat)
    return 'changed' if inner != {stem + ending} and (before or after) else None


HARMONY = st.tuples(
    st.tuples(HEADS, st.one_of(STEM_LAST, st.tuples(st.sampled_from(CHO), st.sampled_from('ㅏㅑㅗㅛㅓㅕㅜㅠㅡㅣ'), st.sampled_from(JONG + 'ㅂ' * 8)).map(lambda t: syl(*t)))).map(''.join),
    st.tuples(st.one_of(END_FIRST, st.tuples(st.just('ㅇ'), st.sampled_from('ㅏㅑㅗㅛㅓㅕㅜㅠㅡㅣ'), st.sampled_from(JONG)).map(lambda t: syl(*t))), TAILS).map(''.join))


@sub('C21', 'harmony', HARMONY, quick=3000, thorough=40000,
     rule='enforcing vowel harmony equals conjugating with the harmonized ending (-아 after bright, -어 after dark or neutral vowels)')
def vowel_harmony(case):
    stem, ending = case
    want_ending = ending
    I, V, F = parts(stem[-1])
    if is_syl(ending[0]):
        i, v, f = parts(ending[0])
        if i == 'ㅇ':
            dark, bright = dict(zip('ㅏㅑㅗㅛ', 'ㅓㅕㅜㅠ')), dict(zip('ㅓㅕㅜㅠ', 'ㅏㅑㅗㅛ'))
            if V in 'ㅏㅑㅗㅛ' and F != 'ㅂ' and v in bright:
                want_ending = syl(i, bright[v], f) + ending[1:]
            elif (V in 'ㅓㅕㅜㅠ' and F != 'ㅂ' or V in 'ㅡㅣ') and v in dark:
                want_ending = syl(i, dark[v], f) + ending[1:]
    got, want = conjugate(stem, ending, True), conjugate(stem, want_ending)
    assert got == want, (case, want_ending, got, want)
    return 'harmonized' if want_ending != ending else None


STEM_FORMS = {}
for _line in """푸르 푸르 푸릅 푸릈 푸를 풀 푸른 푸러 푸렀
하 한 했 하 할 핬 해 합
낫 낫 나
아름답 아름답 아름다
시퍼렇 시퍼러 시퍼럴 시퍼렀 시퍼랬 시퍼런 시퍼렇
주 줘 줐 준 줄 줍 줬 주
구르 구르 굴 구른 구릅 구릈 구를 구러 구렀
가 갑 가 갈 갔 간
좋 좋
감미롭 감미로 감미롭
긋 긋 그
오 옸 올 온 왔 와 오 옵
동그랗 동그라 동그랬 동그랐 동그란 동그랄 동그랗
들 들
이 이 있 입 일 인 였
깨닫 깨달 깨닫
끄 끕 끌 끈 껐 꺼 끘 끄
푸 푸 퍼 펐 푼 풀 풉 풌
그렇 그렇 그럴 그렀 그랬 그러 그런
벗 벗
먹 먹
보내 보내 보낸 보낼 보냅 보냈
모으 모으 모은 모을 모읍 모읐 모어 모었 모""".split('\n'):
    _w = _line.split()
    STEM_FORMS[_w[0]] = set(_w[1:])


@sub('C21', 'stem_surfaces', st.tuples(st.sampled_from(sorted(STEM_FORMS)), st.text(alphabet=gen.KOR, max_size=3),
                                       st.sampled_from(CHO), st.sampled_from(JUNG)), quick=1500, thorough=15000,
     rule='the surface forms of a stem against the documented examples, under any leading syllables; for any open '
          'syllable they contain every form the -ㄴ/-ㄹ/-ㅂ/-ㅆ endings give')
def stem_surfaces(case):
    stem, before, i, v = case
    if stem == '으' or (stem[-1] == '으' and not stem[:-1]):
        return None
    got = _conjugate_stem(before + stem)
    assert got == {before + x for x in STEM_FORMS[stem]} or len(stem) == 1, (case, got)
    assert {before + x for x in STEM_FORMS[stem]} <= got, (case, got)
    open_stem = before + syl(i, v)
    forms = _conjugate_stem(open_stem)
    assert open_stem in forms
    for e in 'ㄴㄹㅂㅆ':
        assert conjugate(open_stem, e) <= forms, (case, e, forms)
    return 'several' if len(got) > 2 else None


ANYTEXT = st.text(alphabet=st.one_of(st.sampled_from(list('르하ㄴ라')), gen.KOR, gen.SMALL, gen.JAUM, gen.MOUM, gen.LATIN, gen.DIGIT, gen.PUNCT, gen.ANYCHAR), min_size=1, max_size=5)


@sub('C21', 'any_text', st.tuples(ANYTEXT, ANYTEXT, st.booleans()), quick=3000, thorough=50000,
     rule='no text makes conjugation fail; when either side has no Hangul syllable or consonant to work on, the surface is plain concatenation')
def conjugate_any_text(case):
    stem, ending, harmony = case
    got = conjugate(stem, ending, harmony)
    chat = conjugate_chat(stem, ending, harmony)
    assert got <= chat and all(isinstance(x, str) for x in chat)
    assert conjugate_chat(stem, '') == {stem}
    e = ord(ending[0])
    if not is_syl(stem[-1]) or not (is_syl(ending[0]) or 0x3131 <= e <= 0x314E):
        assert got == {stem + ending} == chat, (case, got, chat)
        return 'plain'
    return None


LETTERS = [chr(c) for c in range(0x3131, 0x3164)]


def every_open_syllable(tier):
    for before in ('', '가'):
        for i in CHO:
            for v in JUNG:
                yield before, i, v


@sub('C21', 'single_letters', cases=every_open_syllable,
     rule='every syllable followed by every single letter: conjugation succeeds, keeps the text before, and only consonants '
          'are carried into the syllable')
def single_letters(case):
    before, i, v = case
    for f in JONG:
        stem = before + syl(i, v, f)
        for letter in LETTERS:
            got = conjugate(stem, letter)
            want = reference(stem, letter)
            assert all(w.startswith(before) and len(w) <= len(stem) + 1 for w in got), (stem, letter, got)
            if 0x314F <= ord(letter):
                assert got == {stem + letter}, (stem, letter, got)
            elif want is not None:
                assert got == want, (stem, letter, got, want)
    return 'syllable'


# ================================================================ C22
describe('C22', 'As C21, plus words that are not inflected at all, non-Korean text, stem and ending dictionaries and user-defined '
         'lemmas. Non-trivial: at least one lemma whose stem is not a prefix of the word, or several lemmas.')


def recovered(stem, ending):
    """The inflected forms of the classes which the analyser undoes (see DESIGN.md for what is left out and why)."""
    ws = conjugate(stem, ending)
    I, V, F = parts(stem[-1])
    if not is_syl(ending[0]):
        return ws if ending[0] in 'ㄴㄹㅁㅂㅆ' and F in ' ㄹㅂㅎ' and F != ending[0] else set()
    i, v, f = parts(ending[0])
    if f == 'ㅎ':
        return set()
    whole = ws & {stem + ending}
    if ending[:2] in ('아라', '어라'):      # less the forms that the imperative shares with the other of the two
        ok = {w[:-len(ending) + 1] + ending[1:] for w in recovered(stem, ending[0] + '서' + ending[2:])}
        return whole | ws & ok
    if stem[-1] == '르':                    # 러-irregular: the ending is listed as 러 (documented)
        ws = ws - {stem + syl('ㄹ', 'ㅓ', f) + ending[1:]}
    if stem[-1] == '하' and i == 'ㅇ' and v in 'ㅏㅓ':
        # 하였다: the ending is listed as 였다 (documented); 해 is canonically 하 + 아
        return whole | (ws & {stem[:-1] + syl('ㅎ', 'ㅐ', f) + ending[1:]} if v == 'ㅏ' else set())
    if F == 'ㅎ':
        dropped = {stem[:-1] + syl(I, V) + ending} if V in 'ㅏㅓ' else set()
        contracted = set()
        if i == 'ㅇ' and v in 'ㅏㅓ' and f in ' ㄴㄹㅂㅆ' and (
                stem[-2:] == '그렇' and v == 'ㅏ' or v == V and stem[-2:] not in ('그랗', '그렇')):
            contracted = {stem[:-1] + syl(I, 'ㅐ' if v == 'ㅏ' else 'ㅔ', f) + ending[1:]}
        return whole | ws & (dropped | contracted)
    if i != 'ㅇ':
        return ws
    if F == ' ':
        if v == V:
            ok = False
        elif V == 'ㅣ' and v == 'ㅓ':
            ok = f in ' ㅆ'
        elif V == 'ㅡ':
            ok = v in 'ㅏㅓ' and (stem[-1] != '르' or (len(stem) > 1 and parts(stem[-2])[2] == ' '))
        else:
            ok = True
    elif F == 'ㅂ':
        ok = v not in 'ㅘㅝ' and not (stem[-1] in '답꼽깝롭' and v == 'ㅏ')
    else:
        ok = True
    return ws if ok else whole


@sub('C22', 'single_letters', cases=every_open_syllable,
     rule='every syllable followed by every single letter: analyses conjugate back to the word')
def lemma_single_letters(case):
    before, i, v = case
    some = 0
    for f in JONG:
        l = before + syl(i, v, f)
        for letter in LETTERS + ['']:
            got = lemma_candidate(l, letter)
            some += len(got)
            for s, e in got:
                assert s and e and l + letter in conjugate(s, e), (l, letter, s, e)
    return 'analyses' if some else None


@sub('C22', 'round_trip', st.tuples(STEM, ENDING), quick=8000, thorough=150000,
     rule='every inflected form of stem + ending is lemmatized back to that pair when both are in the dictionaries, and only '
          'to pairs of the dictionaries')
def lemma_round_trip(case):
    stem, ending = case
    lem = Lemmatizer({stem}, {ending})
    hit = None
    for w in recovered(stem, ending):
        got = lem.lemmatize(w)
        assert got == {(stem, ending)}, (case, w, got)
        assert lem.lemmatize(w, check_only_stem=True) >= got and all(s == stem for s, _ in lem.lemmatize(w, check_only_stem=True))
        assert '뷁' in w or Lemmatizer({stem}, {'뷁'}).lemmatize(w) == set() == Lemmatizer({'뷁'}, {ending}).lemmatize(w)
        if not w.startswith(stem):
            hit = 'irregular'
        else:
            hit = hit or ('regular' if w != stem + ending else None)
    return hit


@sub('C22', 'every_class', st.tuples(st.sampled_from(CHO), st.sampled_from(JUNG)), quick=399, thorough=399,
     rule='the same round trip for every last syllable of a stem with the finals that matter and every head of an ending')
def lemma_every_class(case):
    n = 0
    for f in ' ㄷㅂㅅㄹㄱㅎ':
        stem = '나' + syl(*case, f)
        for head in HEAD_SYLLABLES:
            ending = head + '다서'
            lem = Lemmatizer({stem}, {ending})
            for w in recovered(stem, ending):
                got = lem.lemmatize(w)
                assert got == {(stem, ending)}, (stem, ending, w, got)
                n += w != stem + ending
    return 'irregular' if n else None


def neighbours(tier):
    """Every initial with the finals of the syllable before the last one."""
    return [(i, f) for i in CHO for f in (' ㄱㄴㄹㅁㅂㅅㅇ' if tier == 'quick' else JONG)]


NEIGHBOUR_LASTS = '하르푸주오쓰이가돕묻짓렇랗낫'
NEIGHBOUR_ENDINGS = ['아다', '어', '었다', '았다', '은다', 'ㄴ다']


@sub('C21', 'neighbours', cases=neighbours, rule='the rules with every syllable before the last one')
def conjugation_neighbours(case):
    n = 0
    for v in JUNG:
        for last in NEIGHBOUR_LASTS:
            stem = syl(case[0], v, case[1]) + last
            for ending in NEIGHBOUR_ENDINGS:
                want = reference(stem, ending)
                if want is not None:
                    assert conjugate(stem, ending) == want, (stem, ending, conjugate(stem, ending), want)
                    n += want != {stem + ending}
    return 'irregular' if n else None


@sub('C22', 'neighbours', cases=neighbours, rule='the round trip with every syllable before the last one')
def lemma_neighbours(case):
    n = 0
    for v in JUNG:
        for last in NEIGHBOUR_LASTS:
            stem = syl(case[0], v, case[1]) + last
            for ending in NEIGHBOUR_ENDINGS:
                lem = Lemmatizer({stem}, {ending})
                for w in recovered(stem, ending):
                    got = lem.lemmatize(w)
                    assert got == {(stem, ending)}, (stem, ending, w, got)
                    n += w != stem + ending
    return 'irregular' if n else None


@sub('C22', 'sound', st.tuples(st.one_of(STEM, ANYTEXT), st.one_of(st.just(''), ENDING, ANYTEXT)), quick=6000, thorough=100000,
     rule='every analysis proposed for a word conjugates back to exactly that word; the informal variant only adds analyses '
          'of the word with its final consonant removed; no text makes it fail')
def lemma_sound(case):
    l, r = case
    got = lemma_candidate(l, r)
    for s, e in got:
        assert s and e and l + r in conjugate(s, e), (case, s, e, conjugate(s, e))
    if r and not (is_syl(r[0]) and parts(r[0])[2] == 'ㅎ') and l + r in conjugate(l, r):
        assert (l, r) in got, (case, got)
    chat = lemma_candidate_chat(l, r)
    assert got <= chat, case
    if chat - got:
        assert not r and parts(l[-1])[2] in 'ㄷㅂㅅㅇㅋㅎ'
        open_l = l[:-1] + syl(*parts(l[-1])[:2])
        assert chat - got <= lemma_candidate(open_l, ''), (case, chat)
    elif not r and is_syl(l[-1]) and parts(l[-1])[2] in 'ㄷㅂㅅㅇㅋㅎ':
        assert lemma_candidate(l[:-1] + syl(*parts(l[-1])[:2]), '') <= chat, case
    return 'irregular' if any(not l.startswith(s) for s, _ in got) else None


DICT = st.fixed_dictionaries(dict(
    pairs=st.lists(st.tuples(STEM, ENDING), min_size=1, max_size=4),
    extra=st.lists(st.tuples(STEM, ENDING), max_size=3), pick=st.integers(0, 50), tail=st.one_of(st.just(''), ANYTEXT),
    only=st.booleans(), pre=st.booleans()))


@sub('C22', 'dictionaries', DICT, quick=3000, thorough=50000,
     rule='the result is exactly the candidate analyses whose stem and ending are in the dictionaries: it splits into '
          'the results of each stem and each ending alone, and stems and endings may be any container')
def lemma_dictionaries(case):
    stems = {s for s, _ in case['pairs']} | {s for s, _ in case['extra']}
    endings = {e for _, e in case['pairs']} | {e for _, e in case['extra']}
    words = sorted(w for s, e in case['pairs'] for w in conjugate(s, e))
    if not words:
        return None
    w = words[case['pick'] % len(words)] + case['tail']
    pre = {}
    if case['pre'] and len(w) > 1:
        s, e = case['pairs'][0]
        pre = {(w[:1], w[1:]): ((s, e),)}
    lem = Lemmatizer(stems, endings, pre or None)
    cands = lem.candidates(w)
    want = set()
    for i in range(1, len(w) + 1):
        want |= lemma_candidate(w[:i], w[i:], pre)
    assert cands == want, (case, w, cands, want)
    got = lem.lemmatize(w, check_only_stem=case['only'])
    assert got == {(s, e) for s, e in want if s in stems and (case['only'] or e in endings)}, (case, w, got)
    assert lem.lemmatize(w) == {x for s in stems for e in endings for x in Lemmatizer({s}, {e}, pre or None).lemmatize(w)}
    assert lem.lemmatize(w) == Lemmatizer(sorted(stems), dict.fromkeys(endings, 1), pre or None).lemmatize(w)
    return 'several' if len(got) > 1 else ('found' if got and any(not w.startswith(s) for s, _ in got) else None)
