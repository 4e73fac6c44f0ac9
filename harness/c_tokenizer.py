"""C05 lossless tokenization, C06 score-driven choice, C07 noun tokenizers, C08 pattern trainer."""
import copy
import os
import re

from hypothesis import strategies as st

from core import sub, describe, scratch
import gen
from soynlp.tokenizer import (LTokenizer, MaxScoreTokenizer, MaxLRScoreTokenizer,
                              RegexTokenizer, NounLMatchTokenizer, NounMatchTokenizer)
from soynlp.tokenizer._tokenizer_builder import EojeolPatternTrainer

ALPHA = '가나다라a'


def spaced(words_strategy, max_words=5):
    """Sentences with irregular white space, leading and trailing included."""
    gap = st.sampled_from([' ', ' ', '  ', '\t', '\n', '\u3000', ' \r\n '])
    edge = st.sampled_from(['', '', ' ', '\n'])
    return st.tuples(edge, st.lists(st.tuples(words_strategy, gap), max_size=max_words), edge).map(
        lambda t: t[0] + ''.join(w + g for w, g in t[1])[:None] + t[2])


WORD = st.one_of(gen.word(ALPHA, 1, 9), gen.word(ALPHA, 1, 3), gen.word('가', 1, 12), gen.word(ALPHA, 1, 9),
                 gen.word('가나.!', 1, 8), gen.word("나a1-'", 1, 8), gen.word('다漢😀ㅋA', 1, 6))
SENT = spaced(WORD)
POS8 = st.integers(1, 16).map(lambda k: k / 8)
SCORES = st.dictionaries(gen.word(ALPHA, 1, 4), gen.EIGHTHS, max_size=14)
POSSCORES = st.dictionaries(gen.word(ALPHA, 1, 4), POS8, max_size=14)


@st.composite
def sent_scores(draw, values, max_len=6, prefixes=False, as_set=False):
    """A sentence and a score table most of whose words occur in it."""
    sent = draw(SENT)
    words = sent.split()
    keys = draw(st.lists(gen.word(ALPHA, 1, 4), max_size=3))
    if words:
        for wi, b, n in draw(st.lists(st.tuples(st.integers(0, len(words) - 1), st.integers(0, 8),
                                                st.integers(1, max_len)), max_size=10)):
            w = words[wi]
            b = 0 if prefixes else b % len(w)
            keys.append(w[b:b + n])
    keys = sorted(set(keys))
    if as_set:
        return sent, set(keys)
    return sent, {k: draw(values) for k in keys}
DEFAULTS = st.sampled_from([0.0, 0.0, 0.0, -0.5, 0.25])

describe('C05', 'Sentences over a small alphabet (or mixed scripts for the regular-expression '
         'tokenizer) with every kind of white space, word-score tables, L/R dictionaries with '
         'preferences. Non-trivial: at least one whitespace-delimited word is split into two or more tokens.')


def check_records(eojeol, recs, begin=1, end=2):
    pos = 0
    for r in recs:
        assert r[begin] == pos, (eojeol, recs)
        assert r[end] > r[begin], (eojeol, recs)
        pos = r[end]
    assert pos == len(eojeol), (eojeol, recs)


@sub('C05', 'ltokenizer', st.tuples(sent_scores(gen.EIGHTHS, prefixes=True), DEFAULTS, st.sampled_from([0.0, 0.0, 0.125, 0.5, 2.0])),
     quick=1500, thorough=40000, rule='L/R pairs of every word join back to the word')
def l_lossless(case):
    (sent, scores), ds, tol = case
    before = dict(scores)
    t = LTokenizer(scores, ds)
    pairs = t.tokenize(sent, tolerance=tol, flatten=False)
    words = sent.split()
    assert [l + r for l, r in pairs] == words, (case, pairs)
    assert all(len(l) >= min(2, len(w)) for (l, r), w in zip(pairs, words)), (case, pairs)
    flat = t.tokenize(sent, tolerance=tol)
    assert flat == [x for p in pairs for x in p if x], (case, flat)
    assert t.tokenize(sent, tolerance=tol, remove_r=True) == [l for l, _ in pairs]
    assert t(sent, tol) == flat and t(sent, tol, False) == pairs and t(sent, tol, True, True) == [l for l, _ in pairs]
    assert scores == before
    return 'split' if any(r for _, r in pairs) else None


@sub('C05', 'maxscore', st.tuples(st.one_of(SENT, spaced(st.one_of(WORD, gen.word(ALPHA, 100, 260)), 2)),
                                  SCORES, DEFAULTS, st.integers(2, 12)),
     quick=1000, thorough=20000, rule='token records tile each word; includes words of 100+ letters')
def ms_lossless(case):
    sent, scores, ds, ml = case
    before = dict(scores)
    t = MaxScoreTokenizer(scores, max_length=ml, default_score=ds)
    recs = t.tokenize(sent, flatten=False)
    words = sent.split()
    assert len(recs) == len(words)
    for w, rs in zip(words, recs):
        check_records(w, rs)
        for s, b, e, _, n in rs:
            assert s == w[b:e] and n == e - b, (case, rs)
    flat = t.tokenize(sent)
    assert flat == [r[0] for rs in recs for r in rs]
    assert t(sent) == flat and t(sent, False) == recs
    assert scores == before
    return ['split'] + (['long'] if any(len(w) >= 100 for w in words) else []) if any(len(rs) > 1 for rs in recs) else None


LR_CASE = st.fixed_dictionaries(dict(
    sent=SENT,
    dl=st.one_of(st.dictionaries(gen.word(ALPHA, 1, 4), st.integers(0, 10).map(lambda k: k / 8), max_size=8),
                 st.sets(gen.word(ALPHA, 1, 4), max_size=6)),
    dr=st.one_of(st.dictionaries(gen.word(ALPHA, 1, 3), st.integers(0, 10).map(lambda k: k / 8), max_size=8),
                 st.sets(gen.word(ALPHA, 1, 3), max_size=6)),
    pl=st.dictionaries(gen.word(ALPHA, 1, 4), st.integers(0, 16).map(lambda k: k / 4), max_size=3),
    pr=st.dictionaries(gen.word(ALPHA, 1, 3), st.integers(0, 16).map(lambda k: k / 4), max_size=3)))


@sub('C05', 'maxlr', LR_CASE, quick=3000, thorough=60000,
     rule='L/R tokens of every word tile the word, R tokens come from the R dictionary')
def lr_lossless(case):
    c = copy.deepcopy(case)
    t = MaxLRScoreTokenizer(Dl=case['dl'], Dr=case['dr'], preference_l=case['pl'], preference_r=case['pr'])
    sent = case['sent']
    per_word = t.tokenize(sent, flatten=False)
    words = sent.split()
    assert len(per_word) == len(words), (case, per_word)
    rdict = set(case['dr']) | set(case['pr'])
    for w, toks in zip(words, per_word):
        assert ''.join(x for x, _ in toks) == w, (case, w, toks)
        for x, tag in toks:
            assert tag in ('L', 'R') and x, toks
            assert tag == 'L' or x in rdict, (case, toks)
    flat = t.tokenize(sent)
    assert flat == [x for toks in per_word for x in toks]
    # the detailed records (debug) describe consecutive, non-overlapping spans
    for w, recs in zip(words, t.tokenize(sent, debug=True, flatten=False)):
        pos = 0
        for r in recs:
            l, rr, p0, p1, p2 = r[:5]
            assert p0 == pos and w[p0:p1] == l and w[p1:p2] == rr, (w, recs)
            pos = p2
        assert pos == len(w), (w, recs)
    assert case == c
    return 'split' if any(len(x) > 1 for x in per_word) else None


REGEX_TEXT = st.one_of(gen.rich_text(16), gen.text_of(
    gen.KOR, gen.JAUM, gen.MOUM, gen.LATIN, gen.DIGIT, st.sampled_from(list("+-.`'[]s\u00d7\u00ff")), gen.SPACE, max_size=18))


def klass(ch):
    if 0xAC00 <= ord(ch) <= 0xD7A3:
        return 'syllable'
    if 0x3131 <= ord(ch) <= 0x314E:
        return 'jaum'
    if 0x314F <= ord(ch) <= 0x3163:
        return 'moum'
    if '0' <= ch <= '9':
        return 'digit'
    if ch.isascii() and ch.isalpha() or 0xC0 <= ord(ch) <= 0xFF:
        return 'latin'
    return None


@sub('C05', 'regex', REGEX_TEXT, quick=3000, thorough=60000,
     rule='tokens join back to the word, never mix scripts, and never cut a run of one script')
def regex_lossless(s):
    t = RegexTokenizer()
    words = s.split()
    per_word = t.tokenize(s, flatten=False)
    assert [''.join(x) for x in per_word] == words, (s, per_word)
    assert t.tokenize(s) == [x for toks in per_word for x in toks]
    assert t(s, debug=False) == t.tokenize(s)
    for toks in per_word:
        for x in toks:
            assert x
            kinds = {klass(ch) for ch in x} - {None}
            assert len(kinds) <= 1, (s, toks)
        for a, b in zip(toks, toks[1:]):
            ka, kb = klass(a[-1]), klass(b[0])
            if ka is not None and ka == kb:
                # only the English clitic rule (letters + ' or ` + s) may end inside a run
                assert ka == 'latin' and re.search(r"[`']s$", a), (s, toks)
    return 'split' if any(len(x) > 1 for x in per_word) else None


def ref_regex(word):
    """Numbers, then Hangul, jaum, moum and latin runs are cut out, in this order."""
    segs = [(word, False)]

    def cut(finder):
        nonlocal segs
        out = []
        for text, done in segs:
            if done:
                out.append((text, True))
                continue
            i = 0
            start = 0
            while i < len(text):
                n = finder(text, i)
                if n:
                    if start < i:
                        out.append((text[start:i], False))
                    out.append((text[i:i + n], True))
                    i += n
                    start = i
                else:
                    i += 1
            if start < len(text):
                out.append((text[start:], False))
        segs = out

    def run(kind):
        def f(text, i):
            n = 0
            while i + n < len(text) and klass(text[i + n]) == kind:
                n += 1
            return n
        return f

    def digits(text, i):
        n = 0
        while i + n < len(text) and text[i + n].isdecimal():
            n += 1
        return n

    def number(text, i):
        j = i + (text[i] in '+-')
        k = j + digits(text, j)
        if k < len(text) and text[k] == '.' and digits(text, k + 1):
            return k + 1 + digits(text, k + 1) - i
        return k - i if k > j else 0

    def latin(text, i):
        n = run('latin')(text, i)
        if not n:
            return 0
        while text[i + n:i + n + 2] in ("`s", "'s"):
            n += 2
        return n
    for f in (number, run('syllable'), run('jaum'), run('moum'), latin):
        cut(f)
    return [x for x, _ in segs]


@sub('C05', 'regex_reference', REGEX_TEXT, quick=3000, thorough=60000,
     rule='the regular-expression tokenizer against a hand-written scanner')
def regex_reference(s):
    got = RegexTokenizer().tokenize(s, flatten=False)
    want = [ref_regex(w) for w in s.split()]
    assert got == want, (s, got, want)
    return 'split' if any(len(x) > 1 for x in want) else None


# ================================================================ C06
describe('C06', 'As C05, with score tables on a grid of eighths (so ties are frequent and float '
         'comparison is exact). Non-trivial: at least two candidates of one word have a table score.')


@sub('C06', 'l_best', st.tuples(sent_scores(gen.EIGHTHS, prefixes=True), DEFAULTS, st.sampled_from([0.0, 0.0, 0.125, 0.25, 1.0])),
     quick=3000, thorough=60000, rule='L part = best score, ties to the longest; with tolerance, the longest within tolerance')
def l_best(case):
    (sent, scores), ds, tol = case
    got = LTokenizer(scores, ds).tokenize(sent, tolerance=tol, flatten=False)
    interesting = False
    for w, (l, r) in zip(sent.split(), got):
        if len(w) <= 2:
            assert (l, r) == (w, '')
            continue
        cand = {w[:e]: scores.get(w[:e], ds) for e in range(2, len(w) + 1)}
        top = max(cand.values())
        ok = [c for c, v in cand.items() if (top - v <= tol if tol > 0 else v == top)]
        assert l == max(ok, key=len), (case, w, (l, r))
        interesting |= sum(c in scores for c in cand) >= 2
    return interesting and ('tolerance' if tol else 'plain')


def ref_maxscore(word, scores, max_length, ds):
    """Repeatedly take the best remaining span; merge what is left between spans."""
    n = len(word)
    score = lambda b, e: scores.get(word[b:e], ds)
    if n <= 2:
        return [(word, 0, n, score(0, n), n)]
    spans = [(b, e) for b in range(n) for e in range(b + 2, min(n, b + max_length) + 1)]
    chosen = []
    free = [True] * n
    for b, e in sorted(spans, key=lambda s: (-score(*s), -(s[1] - s[0]), s[0])):
        if all(free[b:e]):
            chosen.append((b, e))
            free[b:e] = [False] * (e - b)
    i = 0
    while i < n:
        if free[i]:
            j = i
            while j < n and free[j]:
                j += 1
            chosen.append((i, j))
            i = j
        else:
            i += 1
    return [(word[b:e], b, e, score(b, e), e - b) for b, e in sorted(chosen)]


@sub('C06', 'maxscore_greedy', st.tuples(sent_scores(gen.EIGHTHS), DEFAULTS, st.integers(2, 12)),
     quick=3000, thorough=60000, rule='best score first, ties to the longer then the earlier span; every token carries its own table score')
def ms_greedy(case):
    (sent, scores), ds, ml = case
    got = MaxScoreTokenizer(scores, max_length=ml, default_score=ds).tokenize(sent, flatten=False)
    interesting = False
    for w, recs in zip(sent.split(), got):
        want = ref_maxscore(w, scores, ml, ds)
        assert [tuple(r) for r in recs] == want, (case, w, recs, want)
        interesting |= sum(w[b:e] in scores for b in range(len(w)) for e in range(b + 1, len(w) + 1)) >= 2
    return 'scored' if interesting else None


@sub('C06', 'maxscore_long', st.tuples(gen.word('가나다', 150, 320), st.dictionaries(gen.word('가나다', 2, 4), gen.EIGHTHS, min_size=3, max_size=12),
                                      DEFAULTS, st.integers(2, 5)),
     quick=40, thorough=1500, rule='the same greedy choice in long unspaced text')
def ms_greedy_long(case):
    w, scores, ds, ml = case
    recs = MaxScoreTokenizer(scores, max_length=ml, default_score=ds).tokenize(w, flatten=False)[0]
    want = ref_maxscore(w, scores, ml, ds)
    assert [tuple(r) for r in recs] == want, (case, [r for r in want if r not in [tuple(x) for x in recs]][:3])
    return 'scored' if len(want) > 100 else None


@st.composite
def lr_choice(draw):
    c = draw(LR_CASE)
    words = c['sent'].split()
    sixteenths = st.integers(0, 16).map(lambda k: k / 16)
    if words:
        for part, most in (('dl', 4), ('dr', 3)):
            d = dict(c[part]) if isinstance(c[part], dict) else c[part]
            for wi, b, n in draw(st.lists(st.tuples(st.integers(0, len(words) - 1), st.integers(0, 7), st.integers(1, most)), max_size=6)):
                w = words[wi][b % len(words[wi]):][:n]
                if isinstance(d, dict):
                    d[w] = draw(sixteenths)
                else:
                    d = d | {w}
            c = dict(c, **{part: d})
        for part in ('pl', 'pr'):
            known = sorted(c['dl' if part == 'pl' else 'dr'])
            if known and draw(st.booleans()):
                c = dict(c, **{part: {draw(st.sampled_from(known)): draw(sixteenths)}})
    return dict(c, limits=draw(st.one_of(st.none(), st.tuples(sixteenths, st.sampled_from([0.5, 1.5, 3.0]), sixteenths, sixteenths))))


def ref_maxlr(w, dl, dr, pl, pr, diff, ratio, sure, lead):
    """Known left parts, each with an optional known right part, best total first; the rest goes to the right parts' tokenizer.
    Returns None when equally good candidates leave more than one answer."""
    n = len(w)
    cand = [(b, e, f) for b in range(n) for e in range(b + 1, n + 1) if w[b:e] in dl
            for f in range(e, n + 1) if (f == e and e - b > 1) or (f > e and w[e:f] in dr)]
    sl = lambda c: dl[w[c[0]:c[1]]]
    sr = lambda c: dr[w[c[1]:c[2]]] if c[2] > c[1] else dr.get('', 0)
    # a left part inside a longer one of almost the same score is not considered
    keep = []
    for c in cand:
        gone = False
        for d in cand:
            if d[0] <= c[0] and d[1] >= c[1] and (d[0], d[1]) != (c[0], c[1]):
                if sl(d) == sl(c) and (0 < diff or (sure * 0.5 < sl(c) and 1 < ratio)):
                    return None
                if sl(d) < sl(c) and (sl(c) - sl(d) < diff or (sure * 0.5 < sl(c) and (sl(c) + 1e-5) / (sl(d) + 1e-5) < ratio)):
                    gone = True
        if not gone:
            keep.append(c)
    # a right part over which a sure left part begins is not considered
    total = {}
    for c in keep:
        r = w[c[1]:c[2]]
        if r and any(c[1] <= d[0] < c[2] and (sl(d) >= sure or sl(d) + pl.get(w[d[0]:d[1]], 0) - sr(c) > lead) for d in keep):
            continue
        total[c] = (sl(c) * 2 if not r else sl(c) + sr(c)) + pl.get(w[c[0]:c[1]], 0) + pr.get(r, 0)
    best = []
    left = set(total)
    while left:
        key = lambda c: (-total[c], -sl(c), -sr(c), c[0], -(c[1] - c[0]))
        c = min(left, key=key)
        if sum(key(d) == key(c) for d in left) > 1:
            return None
        best.append(c)
        left = {d for d in left if not (c[0] < d[2] and d[0] < c[2])}
    out = []
    pos = 0

    def rest(b, e):
        for x, *_ in ref_maxscore(w[b:e], dr, 10, 0.0):
            out.append((x, 'R' if x in dr else 'L'))
    for b, e, f in sorted(best):
        if pos < b:
            rest(pos, b)
        out.append((w[b:e], 'L'))
        if f > e:
            out.append((w[e:f], 'R'))
        pos = f
    if pos < n:
        rest(pos, n)
    return out


@sub('C06', 'maxlr_choice', lr_choice(), quick=3000, thorough=60000,
     rule='the left and right parts of a word are chosen by total score, with preferences, against the reference')
def maxlr_choice(case):
    c = case
    lim = c['limits']
    kw = {} if lim is None else dict(zip(('max_lscore_difference', 'max_lscore_diffratio', 'ensurable_score_l', 'ensurable_score_lr_diff'), lim))
    t = MaxLRScoreTokenizer(Dl=c['dl'], Dr=c['dr'], preference_l=c['pl'], preference_r=c['pr'], **kw)
    full = [{x: (d[x] if isinstance(d, dict) and x in d else 1.0) for x in list(d) + list(p)} for d, p in ((c['dl'], c['pl']), (c['dr'], c['pr']))]
    diff, ratio, sure, lead = lim or (0.3, 0.5, 0.5, 0.3)
    some = None
    for w, got in zip(c['sent'].split(), t.tokenize(c['sent'], flatten=False)):
        want = ref_maxlr(w, full[0], full[1], c['pl'], c['pr'], diff, ratio, sure, lead)
        if want is None:
            some = some or 'several answers'
            continue
        assert got == want, (case, w, got, want)
        if len(got) > 1:
            some = 'chosen'
    return some if some == 'chosen' else None


@sub('C06', 'word_locality', st.tuples(st.lists(WORD, min_size=1, max_size=5), SCORES,
                                       POSSCORES, POSSCORES), quick=1000, thorough=20000,
     rule='the tokens of a word do not depend on the words around it')
def word_locality(case):
    words, scores, dl, dr = case
    for t in (LTokenizer(scores), MaxScoreTokenizer(scores), RegexTokenizer(),
              MaxLRScoreTokenizer(Dl=dict(dl), Dr=dict(dr))):
        whole = t.tokenize(' '.join(words), flatten=False)
        assert whole == [t.tokenize(w, flatten=False)[0] for w in words], (case, type(t).__name__)
        assert t.tokenize(' '.join(words), flatten=False) == whole
    return 'several' if len(words) > 1 else None


# ================================================================ C07
describe('C07', 'Sentences and noun sets over a small alphabet. Non-trivial: at least one noun is found.')


@sub('C07', 'prefix_match', sent_scores(st.none(), 4, as_set=True), quick=3000, thorough=60000,
     rule='longest-prefix noun segmentation against a reference scan')
def prefix_match(case):
    sent, nouns = case
    t = NounLMatchTokenizer(nouns)
    want_units, want_comp = [], []
    for w in sent.split():
        pos, units = 0, []
        while True:
            ends = [e for e in range(pos + 1, len(w) + 1) if w[pos:e] in nouns]
            if not ends:
                break
            units.append(w[pos:max(ends)])
            pos = max(ends)
        want_units += units
        if units:
            want_comp.append(''.join(units))
    got = t.tokenize(sent, compose_compound=False)
    assert got == want_units, (case, got, want_units)
    assert t.tokenize(sent) == want_comp == t(sent), (case, t.tokenize(sent), want_comp)
    return 'found' if want_units else None


@sub('C07', 'noun_match', sent_scores(POS8, 4), quick=3000, thorough=60000,
     rule='best-score noun spotting: only given nouns, none of the selected ones lost, adjacent ones joined on request')
def noun_match(case):
    sent, scores = case
    before = dict(scores)
    t = NounMatchTokenizer(scores)
    want, want_c = [], []
    for w in sent.split():
        nouns = [r for r in ref_maxscore(w, scores, 10, 0.0) if r[3] > 0]
        want.append(nouns)
        comp = []
        for s, b, e, sc, n in nouns:
            if comp and comp[-1][2] == b:
                _, b0, _, sc0, _ = comp[-1]
                comp[-1] = (w[b0:e], b0, e, max(sc0, sc), e - b0)
            else:
                comp.append((s, b, e, sc, n))
        want_c.append(comp)
    plain = t.tokenize(sent, flatten=False, compose_compound=False)
    assert [[tuple(r) for r in x] for x in plain] == want, (case, plain, want)
    comp = t.tokenize(sent, flatten=False)
    assert [[tuple(r) for r in x] for x in comp] == want_c, (case, comp, want_c)
    flat = t.tokenize(sent, compose_compound=False)
    assert flat == [r[0] for x in want for r in x]
    assert all(x in scores for x in flat)
    assert t.tokenize(sent) == t(sent) == [r[0] for x in want_c for r in x]
    assert scores == before
    return 'found' if flat else None


# ================================================================ C08
describe('C08', 'Small corpora with recurring words, length limits and minimum frequencies. '
         'Non-trivial: the built graph is not empty.')
TRAIN = st.fixed_dictionaries(dict(
    sents=gen.corpus('가나다라', max_len=6, max_sents=10),
    ml=st.integers(1, 7), mr=st.integers(1, 6), mf=st.integers(1, 4)))


def trained(case):
    tr = EojeolPatternTrainer(case['ml'], case['mr'], case['mf'], verbose=False)
    tr.train(case['sents'])
    return tr


def ref_graph(case):
    words = [w for s in case['sents'] for w in s.split()]
    cl, cr = {}, {}
    for w in words:
        for i in range(1, min(case['ml'], len(w)) + 1):
            cl[w[:i]] = cl.get(w[:i], 0) + 1
        for i in range(1, min(case['mr'], len(w) - 1) + 1):
            cr[w[-i:]] = cr.get(w[-i:], 0) + 1
    ls = {w for w, c in cl.items() if c >= case['mf']}
    rs = {w for w, c in cr.items() if c >= case['mf']} | {''}
    g = {}
    for w in words:
        for i in range(1, min(case['ml'], len(w)) + 1):
            if w[:i] in ls and w[i:] in rs:
                g.setdefault(w[:i], {}).setdefault(w[i:], 0)
                g[w[:i]][w[i:]] += 1
    return g


def transpose(g):
    t = {}
    for l, rd in g.items():
        for r, c in rd.items():
            t.setdefault(r, {})[l] = c
    return t


@sub('C08', 'graph_counts', TRAIN, quick=800, thorough=20000,
     rule='L-R pattern counts against a direct count; the R-L graph is the exact transpose')
def graph_counts(case):
    tr = trained(case)
    g = ref_graph(case)
    assert tr.lrgraph == g, (case, tr.lrgraph, g)
    assert tr.rlgraph == transpose(g), (case, tr.rlgraph)
    return 'graph' if g else None


@sub('C08', 'save_load', TRAIN, quick=600, thorough=10000,
     rule='a saved graph loads back identical (parameters and both directions)')
def save_load(case):
    tr = trained(case)
    path = os.path.join(scratch(), 'pattern.txt')
    tr.save(path)
    other = EojeolPatternTrainer()
    other.load(path)
    assert other.lrgraph == tr.lrgraph, (case, other.lrgraph, tr.lrgraph)
    assert other.rlgraph == tr.rlgraph, (case, other.rlgraph, tr.rlgraph)
    assert (other.max_left_length, other.max_right_length, other.min_frequency) == (
        case['ml'], case['mr'], case['mf'])
    assert bool(other.verbose) == bool(tr.verbose)
    # the word sets cover the graph and hold nothing the training did not accept
    assert set(tr.lrgraph) <= set(other.wordset_l) <= set(tr.wordset_l) | {''}, (case, other.wordset_l)
    assert set(tr.rlgraph) <= set(other.wordset_r) <= set(tr.wordset_r) | {''}, (case, other.wordset_r)
    return 'graph' if tr.lrgraph else None


@sub('C08', 'verbose_same', TRAIN, quick=200, thorough=4000,
     rule='progress reporting does not change the result, whatever the corpus size')
def verbose_same(case):
    quiet = trained(case)
    loud = EojeolPatternTrainer(case['ml'], case['mr'], case['mf'], verbose=True)
    loud.train(case['sents'])
    assert loud.lrgraph == quiet.lrgraph and loud.rlgraph == quiet.rlgraph
    return 'graph' if quiet.lrgraph else None


@sub('C08', 'given_words', st.tuples(TRAIN, st.sets(gen.word('가나다라', 1, 3), min_size=1, max_size=14), st.sets(gen.word('가나다라', 1, 3), min_size=1, max_size=14)), quick=600, thorough=10000,
     rule='with given left and right parts exactly those (and the empty right part) are counted, and the caller keeps its sets')
def given_words(x):
    case, ls, rs = x
    if not ls or not rs:
        return None                                 # then the parts are those of the corpus
    tr = EojeolPatternTrainer(case['ml'], case['mr'], case['mf'], verbose=False)
    a, b = set(ls), set(rs)
    tr.train(case['sents'], a, b)
    assert a == ls and b == rs, (x, a, b)
    want = {}
    for w in (w for s in case['sents'] for w in s.split()):
        for i in range(1, min(case['ml'], len(w)) + 1):
            if w[:i] in ls and (w[i:] in rs or i == len(w)):
                want.setdefault(w[:i], {}).setdefault(w[i:], 0)
                want[w[:i]][w[i:]] += 1
    assert tr.lrgraph == want and tr.rlgraph == transpose(want), (x, tr.lrgraph, want)
    return 'graph' if want else None


@sub('C08', 'ranks', st.tuples(TRAIN, st.sampled_from([1, 100, 10000]), st.sampled_from([0.5, 0.85, 0.9]), st.integers(1, 12), st.booleans()),
     quick=600, thorough=10000,
     rule='the ranks of either side are its shares of the other side\'s ranks, weighted by counts, with restart; they keep their total')
def ranks(x):
    case, total, df, rounds, given = x
    g = ref_graph(case)
    back = {r: ls for r, ls in transpose(g).items() if r}
    if not back:
        return None
    tr = trained(case)
    g0, r0 = (tr.lrgraph, tr.rlgraph) if given else (None, None)
    L, R = tr.train_hits(g0, r0, total, df, rounds, 0)
    a = {l: total / len(g) for l in g}
    b = {r: total / (len(back) + ('' in transpose(g))) for r in back}
    for _ in range(rounds):
        na = {l: sum(c * b[r] for r, c in g[l].items() if r) for l in g}
        nb = {r: sum(c * a[l] for l, c in back[r].items()) for r in back}
        a, b = ({w: df * total * v / sum(n.values()) + (1 - df) * total / len(n) for w, v in n.items()} for n in (na, nb))
    for got, want in ((L, a), (R, b)):
        assert set(got) == set(want), (x, got, want)
        assert all(abs(got[w] - want[w]) <= 1e-9 * total for w in want), (x, got, want)
        assert abs(sum(got.values()) - total) <= 1e-9 * total
    return 'ranks'
