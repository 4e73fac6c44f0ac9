"""C23 noun extractor v1, C24 noun extractor v2, C25 post-processing, domain features and news extractor."""
import contextlib
import io
import math
import os
from collections import Counter

from hypothesis import strategies as st

from core import sub, describe, scratch
import gen
from soynlp.noun import (LRNounExtractor, LRNounExtractor_v2, NewsNounExtractor, NounScore,
                         extract_domain_pos_features)
from soynlp.noun import _noun_postprocessing as npp
from soynlp.normalizer import normalize_sent_for_lrgraph
from soynlp.tokenizer import MaxScoreTokenizer
from soynlp.utils import EojeolCounter, LRGraph


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


# A small alphabet shared by nouns and R parts makes prefixes, longer features and
# overlapping nouns frequent.
NOUN_CH, R_CH = '가나다라', '은는다고'
NOUN = st.one_of(gen.word(NOUN_CH, 1, 3), gen.word(NOUN_CH, 2, 6), gen.word('가나', 2, 4))
RPART = st.one_of(gen.word(R_CH, 1, 2), gen.word(R_CH, 1, 3), gen.word('가나은는', 1, 3), gen.word(R_CH, 4, 6))


@st.composite
def noun_corpus(draw, max_items=16, max_count=6):
    """(noun pool, R pool, eojeol list with counts): most nouns take several R parts."""
    nouns = draw(st.lists(NOUN, min_size=2, max_size=5, unique=True))
    rs = draw(st.lists(RPART, min_size=3, max_size=7, unique=True))
    items = []
    count = st.integers(1, max_count)
    for n in nouns:
        for r in draw(st.lists(st.one_of(st.sampled_from(rs), st.sampled_from(rs), st.sampled_from(rs), st.just('')),
                               min_size=1, max_size=5, unique=True)):
            items.append((n + r, draw(count)))
    for _ in range(draw(st.integers(1, 4))):
        w = draw(st.sampled_from(nouns)) + draw(st.sampled_from(nouns))
        items.append((w + draw(st.one_of(st.just(''), st.sampled_from(rs))), draw(count)))
    items += draw(st.lists(st.tuples(st.sampled_from(nouns), count), min_size=0 if items else 1, max_size=2))
    items = items[:max_items + 8]
    if draw(st.integers(0, 4)) == 0:
        # a noun with more right parts than a short list of the most frequent ones shows, or a part with many nouns
        n, r, k = draw(st.sampled_from(nouns)), draw(st.sampled_from(rs)), draw(st.integers(11, 16))
        if draw(st.booleans()):
            items += [(n + x, 1 + i % 3) for i, x in enumerate(MANY_R[:k])]
        else:
            items += [(x + r, 1 + i % 3) for i, x in enumerate(MANY_L[:k])]
    return nouns, rs, items


MANY_R = [a + b for a in R_CH for b in ('', '은', '는', '다')]
MANY_L = [a + b for a in NOUN_CH for b in NOUN_CH]


def extensions(nouns, rs):
    """R parts that continue the end of a noun, or end another R part"""
    return [n[-k:] + r for n in nouns for r in rs[:2] for k in (1, 1, 2, len(n))] + [r[-1:] for r in rs]


def expand(eojeols, width=3, rotate=0):
    """Sentences that contain every eojeol as often as it is counted."""
    flat = [w for w, c in eojeols for _ in range(c)]
    k = rotate % len(flat)
    flat = flat[k:] + flat[:k]
    return [' '.join(flat[i:i + width]) for i in range(0, len(flat), width)]


def write_lines(name, lines):
    path = os.path.join(scratch(), name)
    with open(path, 'w', encoding='utf-8') as f:
        for l in lines:
            f.write(l + '\n')
    return path


def graph_state(g):
    return ({l: dict(rd) for l, rd in g._lr.items()}, {r: dict(ld) for r, ld in g._rl.items()})


# ================================================================ C23
describe('C23', 'Corpora built from 1-5 nouns (and pairs of them) with 1-7 R parts over a shared small alphabet, '
         'so that nouns are prefixes of nouns and R parts extend one another; generated score tables, length '
         'limits, thresholds and candidate lists. Non-trivial: at least one word has enough features to be scored.')


@st.composite
def v1_case(draw):
    nouns, rs, eojeols = draw(noun_corpus(max_count=draw(st.sampled_from([6, 6, 14]))))
    ext = extensions(nouns, rs)
    coef = {}
    for r in rs + draw(st.lists(st.sampled_from(ext), max_size=2)):
        v = draw(st.sampled_from([1.0, 1.0, 1.0, 0.75, 0.5, 0.25, 0.0, -0.5, -1.0, None]))
        if v is not None:
            coef[r] = v
    coef.setdefault(rs[0], 1.0)
    normalized = draw(st.booleans())
    if normalized and draw(st.integers(0, 2)) == 0:
        # normalized text may still hold marks
        n, mark = draw(st.sampled_from(nouns)), draw(st.sampled_from('.,-'))
        eojeols = [(w.replace(n, n + mark, 1) if w.startswith(n) else w, c) for w, c in eojeols]
    return dict(eojeols=eojeols, coef=coef, gap=draw(st.sampled_from([' ', ' ', '  '])) if normalized else ' ', maxL=draw(st.sampled_from([2, 3, 5, 10])),
                maxR=draw(st.sampled_from([1, 2, 3, 7])), train_min=draw(st.sampled_from([1, 1, 2, 3, 5])),
                min_features=draw(st.sampled_from([0, 1, 1, 2])),
                score=draw(st.sampled_from([0.5, 0.5, 0.25, 0.75, 0.0, 1.0])),
                freq=draw(st.sampled_from([1, 1, 2, 4, 9])), width=draw(st.integers(1, 4)),
                cands=draw(st.one_of(st.none(), st.none(), st.lists(st.one_of(st.sampled_from(nouns), NOUN), max_size=5))),
                punct=draw(st.sampled_from(['', '', '', '.', '!'])), normalized=normalized)


class V1:
    """The documented scoring, computed straight from the list of eojeols."""

    def __init__(self, case):
        self.case = case
        sents = expand(case['eojeols'], case['width'])
        if case['punct']:
            sents = [s + case['punct'] for s in sents]
        if case['gap'] != ' ':
            sents = [s.replace(' ', case['gap']) + ' ' for s in sents]
        self.sents = sents
        toks = Counter(t for s in sents for t in
                       (s if case['normalized'] else normalize_sent_for_lrgraph(s)).split())
        self.toks = toks
        L, R = Counter(), Counter()
        for t, c in toks.items():
            for i in range(1, len(t) + 1):
                if i <= case['maxL']:
                    L[t[:i]] += c
                if i < len(t) and len(t) - i <= case['maxR']:
                    R[t[i:]] += c
        m = case['train_min']
        self.L = {w: c for w, c in L.items() if c >= m}
        self.R = {w for w, c in R.items() if c >= m}

    def features(self, word, gone=()):
        out = {}
        if word in self.L:
            for t, c in self.toks.items():
                if t.startswith(word) and t not in gone:
                    r = t[len(word):]
                    if not r or r in self.R:
                        out[r] = c
        return out

    def own_score(self, word):
        coef = self.case['coef']
        got = norm = unk = 0
        for r, c in self.features(word).items():
            if not r:
                continue
            if r not in coef:
                unk += c
            elif not any(word[e:] + r in coef for e in range(len(word))):
                got += c * coef[r]
                norm += c
        return (got / norm if norm else 0, norm / (norm + unk) if norm + unk else 0)

    def enough(self, word):
        return sum(1 for r in self.features(word) if r) > self.case['min_features']

    def predict(self, word, min_score=0.5, nouns=None):
        if self.enough(word):
            return self.own_score(word)
        nouns = nouns or {}
        best = None
        for e in range(1, len(word)):
            l, r = word[:e], word[e:]
            if l in nouns and r in nouns:
                s = max(nouns[l], nouns[r])
            elif l in nouns and self.case['coef'].get(r, 0.0) > min_score:
                s = (self.case['coef'][r], 0)
            else:
                continue
            if best is None or s[0] > best[0]:
                best = s
        return best or (0.0, 0)

    def cohesion(self, word):
        base = self.L.get(word[0], 0)
        if not base or len(word) <= 1:
            return 0
        return math.pow(self.L.get(word, 0) / base, 1 / (len(word) - 1))

    def extract(self):
        c = self.case
        cands = c['cands'] or self.L
        nouns = {}
        near_tie = False
        for w in cands:
            if len(w) > 1:
                s = self.own_score(w) if self.enough(w) else (0.0, 0)
                near_tie |= 0 < abs(s[0] - c['score']) < 1e-9
                if s[0] >= c['score']:
                    nouns[w] = s
        kept = {}
        for w, s in nouns.items():
            if w[-1] in '.,' or self.L.get(w, 0) < c['freq']:
                continue
            if len(w) > 2:
                a, b = self.cohesion(w), self.cohesion(w[:-1])
                near_tie |= 0 < abs(a - b) < 1e-9
                if a < b and any(w[:e] in nouns and c['coef'].get(w[e:], 0.0) > c['score']
                                 for e in range(2, len(w))):
                    continue
            kept[w] = s
        gone, freq = set(), {}
        for w in sorted(kept, key=lambda w: -len(w)):
            f = self.features(w, gone)
            freq[w] = sum(f.values())
            gone |= {w + r for r in f}
        return {w: (freq[w],) + s for w, s in kept.items()}, near_tie


def make_v1(case, verbose=False):
    path = write_lines('v1_pred', ['%s\t%f' % kv for kv in case['coef'].items()])
    return LRNounExtractor(max_left_length=case['maxL'], max_right_length=case['maxR'], predictor_fnames=[path],
                           verbose=verbose, min_num_of_features=case['min_features'],
                           ensure_normalized=case['normalized'])


def same_nouns(got, want, ctx):
    assert set(got) == set(want), (ctx, sorted(set(got) ^ set(want)), {w: tuple(got[w]) for w in list(got)[:8]}, want)
    for w in got:
        assert all(near(a, b) for a, b in zip(tuple(got[w]), want[w])), (ctx, w, got[w], want[w])


@sub('C23', 'predict', v1_case(), quick=1200, thorough=25000,
     rule='the score of every prefix and of unseen words equals a direct computation over the corpus')
def v1_predict(case):
    ref = V1(case)
    x = make_v1(case)
    x.train(ref.sents, case['train_min'])
    known = {w: (0.5 + 0.1 * (len(w) % 3), 0.25) for w in list(ref.L)[::2]}
    lab = set()
    for w in sorted({t[:i] for t in ref.toks for i in range(1, len(t) + 1)}) + ['가나다라가', '없', '나나']:
        got, want = x.predict(w), ref.predict(w)
        assert near(got[0], want[0]) and near(got[1], want[1]), (case, w, got, want)
        assert -1 - 1e-9 <= got[0] <= 1 + 1e-9 and -1e-9 <= got[1] <= 1 + 1e-9, (case, w, got)
        for t in (case['score'], 0.5):
            if not 0 < abs(want[0] - t) < 1e-9:
                assert x.is_noun(w, t) == (want[0] >= t), (case, w, t)
        got, want = x.predict(w, case['score'], known), ref.predict(w, case['score'], known)
        assert near(got[0], want[0]) and near(got[1], want[1]), (case, w, known, got, want)
        lab.add('own score' if ref.enough(w) else 'from parts' if want[0] else 'no evidence')
    return sorted(lab) if 'own score' in lab or 'from parts' in lab else None


@sub('C23', 'extract', v1_case(), quick=1500, thorough=30000,
     rule='the extracted nouns, their frequency, score and known ratio equal the reference; extraction can be repeated')
def v1_extract(case):
    ref = V1(case)
    x = make_v1(case, verbose=case['width'] == 1)
    x.train(ref.sents, case['train_min'])
    before = graph_state(x.lrgraph)
    want, tie = ref.extract()
    if tie:
        return None
    for _ in range(2):
        got = x.extract(case['score'], case['freq'], case['cands'])
        same_nouns(got, want, case)
        assert graph_state(x.lrgraph) == before, case
    for w, s in got.items():
        assert (s.frequency, s.score, s.known_r_ratio) == tuple(s)
    return ['nouns' if want else 'none', 'candidates given' if case['cands'] else 'all prefixes'] \
        if want or any(map(ref.enough, ref.L)) else None


@sub('C23', 'train_extract', v1_case(), quick=500, thorough=10000,
     rule='one call equals train then extract; sentence order and grouping do not matter; counting everything '
          'twice with doubled thresholds doubles the frequencies only')
def v1_train_extract(case):
    case = dict(case, train_min=case['freq'])
    ref = V1(case)
    x = make_v1(case)
    want, tie = ref.extract()
    if tie:
        return None
    same_nouns(x.train_extract(ref.sents, case['score'], case['freq'], case['cands']), want, case)
    if case['punct'] == '':
        y = make_v1(case)
        same_nouns(y.train_extract(expand(case['eojeols'], case['width'] + 1, 5), case['score'], case['freq'],
                                   case['cands']), want, case)
    y = make_v1(case)
    got = y.train_extract(ref.sents * 2, case['score'], case['freq'] * 2, case['cands'])
    same_nouns(got, {w: (2 * s[0],) + s[1:] for w, s in want.items()}, case)
    # a second training forgets the first corpus
    same_nouns(y.train_extract(ref.sents, case['score'], case['freq'], case['cands']), want, case)
    return 'nouns' if want else None


PARTICLES = ['이', '가', '을', '를', '에서', '으로', '의', '에', '에게', '까지', '도', '다', '고', '었다', '은', '는', '이다', '한', '했다']
V1_TABLE = {}


@st.composite
def real_corpus(draw):
    """Nouns with particles, which the default predictors know; many counts sit at the default limits."""
    heads = draw(st.lists(st.sampled_from(list('가나다라마')), min_size=1, max_size=4, unique=True))
    nouns = [h + draw(gen.word('호무노', 1, 3)) for h in heads]
    if draw(st.booleans()):
        nouns.append(nouns[0] + nouns[-1])
    if draw(st.integers(0, 3)) == 0:
        nouns.append('하' * draw(st.integers(7, 10)) + '무')
    items = []
    for n in nouns:
        ends = draw(st.one_of(
            st.lists(st.sampled_from(PARTICLES), min_size=1, max_size=5, unique=True),
            st.just(['은', '는']), st.just(['이'])))
        items += [(n + r, draw(st.sampled_from([1, 2, 3, 4, 5, 5, 6, 10]))) for r in ends]
        if draw(st.booleans()):
            items.append((n, draw(st.sampled_from([1, 5, 29, 30, 31, 40]))))
        if draw(st.integers(0, 4)) == 0:
            items.append((n + '에서' * draw(st.integers(2, 6)), 6))
    return dict(eojeols=items, width=draw(st.integers(1, 4)))


def real_case(case, **kw):
    if not V1_TABLE:
        import soynlp
        with open(os.path.join(os.path.dirname(soynlp.__file__), 'trained_models', 'noun_predictor_sejong'), encoding='utf-8') as f:
            for line in f:
                r, v = line.split('\t')
                V1_TABLE[r] = max(V1_TABLE.get(r, -9.0), float(v))
    return dict(case, **kw)


@sub('C23', 'defaults', real_corpus(), quick=250, thorough=5000,
     rule='with no options given, the predictor of the package and the documented limits (10 and 7 letters, one '
          'feature, score 0.5, frequency 5) decide')
def v1_defaults(case):
    case = real_case(case, coef=V1_TABLE, maxL=10, maxR=7, train_min=5, min_features=1, score=0.5, freq=5, cands=None,
                     punct='!', gap=' ', normalized=False)
    ref = V1(case)
    want, tie = ref.extract()
    if tie:
        return None
    case = {k: v for k, v in case.items() if k != 'coef'}
    with contextlib.redirect_stdout(io.StringIO()):
        same_nouns(LRNounExtractor().train_extract(ref.sents), want, case)
        x = LRNounExtractor(verbose=False)
        x.train(ref.sents)
        same_nouns(x.extract(), want, case)
    for w in ref.L:
        assert near(x.predict(w)[0], ref.predict(w)[0]), (case, w)
    assert x.is_noun('무없') is False
    return 'nouns' if want else None


@sub('C23', 'predictor_files', st.lists(st.dictionaries(RPART, st.sampled_from([1.0, 0.5, 0.25, -0.5, -1.0]), min_size=1, max_size=6),
                                        min_size=1, max_size=3), quick=200, thorough=2000,
     rule='the score table is the union of the predictor files with the best score of each R')
def v1_files(tables):
    paths = [write_lines('v1_p%d' % i, ['%s\t%f' % kv for kv in t.items()]) for i, t in enumerate(tables)]
    x = LRNounExtractor(predictor_fnames=paths, verbose=False)
    want = {r: max(t[r] for t in tables if r in t) for t in tables for r in t}
    assert x.coefficient == want, (tables, x.coefficient, want)
    y = NewsNounExtractor(predictor_fnames=paths, verbose=False)
    assert y.r_scores == want, (tables, y.r_scores, want)
    return 'shared R' if sum(map(len, tables)) > len(want) else 'files'


# ================================================================ C24
describe('C24', 'Corpora as in C23 given as sentences, eojeol counter or L-R graph, generated positive, negative and '
         'common feature files (overlapping, so that common features arise), length limits, thresholds, '
         'post-processing lists and compound option. Non-trivial: at least one candidate is scored.')


@st.composite
def v2_case(draw, max_count=6):
    nouns, rs, eojeols = draw(noun_corpus(max_count=max_count))
    ext = extensions(nouns, rs)
    pos, neg = [], []
    plain = draw(st.booleans())
    if plain:
        # two-letter nouns, most parts positive: compounds arise
        nouns = draw(st.lists(gen.word(NOUN_CH, 2, 3), min_size=2, max_size=4, unique=True))
        eojeols = [(n + r, draw(st.integers(1, max_count))) for n in nouns for r in rs[:draw(st.integers(2, 4))]]
        for _ in range(draw(st.integers(1, 3))):
            w = ''.join(draw(st.lists(st.sampled_from(nouns), min_size=2, max_size=3)))
            eojeols += [(w + r, draw(st.integers(1, max_count))) for r in
                        draw(st.lists(st.sampled_from(rs + ['']), min_size=1, max_size=3, unique=True))]
    for r in rs + draw(st.lists(st.sampled_from(ext), max_size=2)):
        k = draw(st.sampled_from('pppppppnc' if plain else 'pppnncu'))
        if k in 'pc':
            pos.append(r)
        if k in 'nc':
            neg.append(r)
    return dict(eojeols=eojeols, pos=pos, neg=neg, maxL=draw(st.sampled_from([3, 5, 10, 10, 10])),
                maxR=draw(st.sampled_from([1, 2, 3, 9, 9, 9])), min_features=draw(st.sampled_from([0, 1, 1, 2])),
                end_max=draw(st.sampled_from([0, 2, 5, 30])), score=draw(st.sampled_from([0.3, 0.3, 0.5, 0.1, 1.0])),
                freq=draw(st.sampled_from([1, 1, 1, 1, 2, 4])), efreq=draw(st.sampled_from([1, 1, 1, 2, 3])),
                compound=plain or draw(st.booleans()),
                post=draw(st.sampled_from([None, None, 'detaching_features', 'ignore_features', 'ignore_NJ',
                                           ['ignore_NJ', 'detaching_features'], ['ignore_features']])),
                source=draw(st.sampled_from(['sents', 'sents', 'counter', 'graph'])), reset=draw(st.booleans()),
                width=draw(st.integers(1, 4)), normalized=draw(st.booleans()),
                punct=draw(st.sampled_from(['', '', '.', '1'])), verbose=draw(st.booleans()), log=draw(st.integers(0, 7)) == 0)


def ref_detach(nouns, feats):
    return {w for w in nouns if len(w) > 2 and
            any(w[:e] in nouns and w[e:] in feats for e in range(2, len(w) - 1))}


def ref_nj(nouns, origin, min_josa=5):
    out = set()
    for w, s in nouns.items():
        for e in range(2, len(w)):
            l, r = w[:e], w[e:]
            if r in JOSA and r not in SUFFIX and l in nouns and s[0] < nouns[l][0]:
                if sum(1 for x in origin(l) if x in JOSA) >= min_josa:
                    out.add(w)
    return out


def _read(name):
    path = os.path.join(os.path.dirname(npp.__file__), name)
    with open(path, encoding='utf-8') as f:
        return {line.strip() for line in f}


JOSA, SUFFIX = _read('frequent_enrolled_josa.txt'), _read('frequent_noun_suffix.txt')


class V2:
    def __init__(self, case):
        self.case = case
        p, n = set(case['pos']), set(case['neg'])
        self.common = p & n
        self.pos, self.neg = p - self.common, n - self.common
        sents = expand(case['eojeols'], case['width'])
        if case['punct']:
            sents = [s + case['punct'] for s in sents]
        self.sents = sents
        self.raw = Counter(t for s in sents for t in s.split())
        if case['source'] == 'sents':
            c = Counter(t for s in sents for t in (s if case['normalized'] else normalize_sent_for_lrgraph(s)).split())
            c = {t: k for t, k in c.items() if len(t) <= case['maxL'] + case['maxR'] and k >= case['efreq']}
        else:
            c = dict(self.raw)
        self.words = c
        self.alive = dict(c)

    def source(self):
        c = self.case
        if c['source'] == 'sents':
            return self.sents
        counter = EojeolCounter(self.sents, max_length=100)
        return counter if c['source'] == 'counter' else counter.to_lrgraph(c['maxL'], c['maxR'])

    def R(self, l, words=None):
        c = self.case
        words = self.alive if words is None else words
        if not 0 < len(l) <= c['maxL']:
            return {}
        return {t[len(l):]: k for t, k in words.items() if t.startswith(l) and len(t) - len(l) <= c['maxR']}

    def candidates(self, words=None):
        words = self.alive if words is None else words
        return {t[:len(t) - len(r)] for t in words for r in self.pos
                if t.endswith(r) and 0 < len(t) - len(r) <= self.case['maxL'] and len(r) <= self.case['maxR']}

    def longer(self, word, r, feats):
        return any(word[e:] + r in feats for e in range(len(word)))

    def parts(self, word, rs):
        n = dict(pos=0, common=0, neg=0, unk=0, end=0)
        for r, k in rs.items():
            if not r:
                n['end'] += k
            elif self.longer(word, r, self.pos) or self.longer(word, r, self.neg):
                continue
            else:
                n['common' if r in self.common else 'pos' if r in self.pos else 'neg' if r in self.neg else 'unk'] += k
        return n

    def predict(self, word, min_score):
        c = self.case
        rs = self.R(word)
        n = self.parts(word, rs)
        base = n['pos'] + n['neg']
        score = (n['pos'] - n['neg']) / base if base else 0
        support = n['end'] + n['common'] + (n['pos'] if score >= min_score else n['neg'])
        enough = [r for r in rs if (r in self.pos and not self.longer(word, r, self.pos)) or
                  (r in self.neg and not self.longer(word, r, self.neg))]
        if len(enough) > c['min_features']:
            return support, score
        total = sum(n.values())
        if total == 0:
            return support, 0
        if n['end'] > c['end_max'] and n['pos'] >= n['neg']:
            return support, score
        alone = n['pos'] + n['common'] + n['end']
        if n['common'] + n['pos'] > 0 and n['end'] / total >= 0.3 and n['common'] >= n['neg']:
            return alone, alone / total
        first = set()
        for r in rs:
            if r and not ((r in self.pos or r in self.common) and self.longer(word, r, self.pos)):
                first.add(r[0])
        if len(first) >= 2:
            return alone, alone / total
        return support, 0

    def batch(self, min_score):
        out = {}
        for w in sorted(self.candidates(), key=lambda w: -len(w)):
            out[w] = self.predict(w, min_score)
            if out[w][1] >= min_score:
                for r in self.R(w):
                    del self.alive[w + r]
        return out

    def split_compound(self, tok, word):
        t = tok.tokenize(word, flatten=False)[0]
        if any(x[3] <= 0 for x in t[:-1]):
            return None
        if len(t) >= 3 and t[-1][0] in self.pos:
            return tuple(x[0] for x in t[:-1])
        return tuple(x[0] for x in t) if t[-1][3] > 0 else None

    def extract(self):
        c = self.case
        pred = self.batch(c['score'])
        comps = {}
        if c['compound']:
            known = {w: len(w) for w, s in pred.items() if s[1] > c['score'] and len(w) > 1}
            tok = self.tok = MaxScoreTokenizer(scores=known)
            self.known = known
            prefixes = {t[:i] for t in self.words for i in range(4, len(t) + 1)
                        if i <= c['maxL'] and len(t) - i <= c['maxR']}
            for l in prefixes - set(known):
                parts = self.split_compound(tok, l)
                if parts:
                    w = ''.join(parts)
                    f, s = comps.get(w, (0, 0))
                    comps[w] = (f + self.words.get(l, 0), max([s] + [pred.get(p, (0, 0))[1] for p in parts]))
        nouns = {w: s for w, s in pred.items() if s[1] >= c['score']}
        nouns.update(comps)
        nouns = {w: s for w, s in nouns.items() if s[0] >= c['freq']}
        post = c['post'] or ['detaching_features', 'ignore_features', 'ignore_NJ']
        for m in [post] if isinstance(post, str) else post:
            drop = (ref_detach(nouns, self.pos) if m == 'detaching_features' else
                    {w for w in nouns if w in self.pos or w in self.common} if m == 'ignore_features' else
                    ref_nj(nouns, lambda l: self.R(l, self.words)))
            nouns = {w: s for w, s in nouns.items() if w not in drop}
        # what is left in the graph once the nouns are taken out
        left = dict(self.words)
        for w in sorted(self.candidates(self.words), key=lambda w: -len(w)):
            if w in nouns:
                for r in self.R(w, left):
                    if len(w) > 1 or not r or r in self.pos or r in self.common:
                        del left[w + r]
        reach = lambda ws: {t: k for t, k in ws.items() if any(
            i <= c['maxL'] and len(t) - i <= c['maxR'] for i in range(1, len(t) + 1))}
        return nouns, reach(left), reach(self.words), comps


def make_v2(case, **kw):
    header = os.path.join(scratch(), 'v2')
    write_lines('v2_pos', case['pos'])
    write_lines('v2_neg', case['neg'])
    args = dict(max_left_length=case['maxL'], max_right_length=case['maxR'], predictor_headers=header,
                verbose=case['verbose'], min_num_of_features=case['min_features'],
                max_frequency_when_noun_is_eojeol=case['end_max'], extract_compound=case['compound'],
                ensure_normalized=case['normalized'], postprocessing=case['post'],
                logpath=os.path.join(scratch(), 'logs', 'x') if case['log'] else None)
    args.update(kw)
    return LRNounExtractor_v2(**args)


def content(x):
    return dict(x.lrgraph.to_EojeolCounter().items())


@sub('C24', 'predict', v2_case(), quick=1200, thorough=25000,
     rule='support and score of every prefix equal a direct computation over the corpus')
def v2_predict(case):
    ref = V2(case)
    x = make_v2(case)
    x.train(ref.source(), case['efreq'])
    lab = set()
    words = {t[:i] for t in ref.words for i in range(1, len(t) + 1)} | {'가나다라가', '없'}
    for w in sorted(words):
        got, want = x.predict(w, case['score']), ref.predict(w, case['score'])
        assert got[0] == want[0] and near(got[1], want[1]), (case, w, got, want)
        assert got[0] >= 0 and -1 <= got[1] <= 1, (case, w, got)
        lab.add('zero' if want[1] == 0 else 'positive' if want[1] > 0 else 'negative')
    return sorted(lab) if lab - {'zero'} else None


@sub('C24', 'extract', v2_case(), quick=2000, thorough=40000,
     rule='the extracted nouns with frequency and score equal the reference; the graph is restored or holds exactly '
          'the eojeols no noun explains; repeating the extraction repeats the answer')
def v2_extract(case):
    ref = V2(case)
    x = make_v2(case)
    x.train(ref.source(), case['efreq'])
    want, left, full, comps = ref.extract()
    assert content(x) == full, (case, content(x), full)
    got = x.extract(case['score'], case['freq'], case['reset'])
    same_nouns(got, want, case)
    assert content(x) == (full if case['reset'] else left), (case, content(x), left)
    for w, s in got.items():
        assert (s.frequency, s.score) == tuple(s) and s.frequency >= case['freq'], (case, w, s)
        assert s.score >= case['score'] or w in comps, (case, w, s)
    x.lrgraph.reset_lrgraph()
    assert content(x) == full, case
    same_nouns(x.extract(case['score'], case['freq']), want, case)
    if case['compound']:
        for t in sorted(full)[:6]:
            p = x.decompose_compound(t)
            j = ''.join(p)
            assert t.startswith(j) and (j == t or t[len(j):] in ref.pos), (case, t, p)
        for t in case.get('texts', lambda known: [])(sorted(ref.known)):
            assert x.decompose_compound(t) == (ref.split_compound(ref.tok, t) or (t,)), (case, t)
    if not want:
        return 'none' if ref.candidates(full) else None
    lab = ['compound'] if any(w in comps for w in want) else ['single']
    return lab + (['left over'] if left else [])


@sub('C24', 'sources', v2_case(), quick=500, thorough=10000,
     rule='sentences, an eojeol counter and an L-R graph of the same corpus give the same nouns, in any sentence order; '
          'doubled counts with doubled thresholds double the frequencies only')
def v2_sources(case):
    case = dict(case, punct='', normalized=False, source='counter', efreq=1)
    ref = V2(case)
    want, left, full, comps = ref.extract()
    short = all(len(t) <= case['maxL'] + case['maxR'] for t in ref.words)
    lab = set()
    for src in ('sents', 'rotated', 'counter', 'graph', 'graph again'):
        x = make_v2(case)
        if src == 'sents':
            if not short:
                continue
            data = ref.sents
        elif src == 'rotated':
            if not short:
                continue
            data = expand(case['eojeols'], case['width'] + 1, 7)
        elif src == 'counter':
            data = EojeolCounter(ref.sents, max_length=100)
        elif src == 'graph':
            data = EojeolCounter(ref.sents, max_length=100).to_lrgraph(case['maxL'], case['maxR'])
        else:
            data = LRGraph(lrgraph=dict(EojeolCounter(ref.sents, max_length=100).to_lrgraph(
                case['maxL'], case['maxR'])._lr) or None, l_max_length=case['maxL'], r_max_length=case['maxR'])
        got = x.train_extract(data, case['score'], case['freq'], 1)
        same_nouns(got, want, (case, src))
        lab.add(src)
    x = make_v2(case, max_frequency_when_noun_is_eojeol=2 * case['end_max'])
    got = x.train_extract(EojeolCounter(ref.sents * 2, max_length=100), case['score'], 2 * case['freq'], 1)
    same_nouns(got, {w: (2 * s[0], s[1]) for w, s in want.items()}, case)
    return sorted(lab) if want else None


def feature_table(kind):
    import soynlp
    with open(os.path.join(os.path.dirname(soynlp.__file__), 'trained_models', 'noun_predictor_ver2_' + kind), encoding='utf-8') as f:
        return [line.strip() for line in f]


@sub('C24', 'defaults', real_corpus(), quick=150, thorough=4000,
     rule='with no options given, the features of the package and the documented limits (10 and 9 letters, one '
          'feature, 30 lone occurrences, score 0.3, frequencies 1) decide')
def v2_defaults(case):
    case = dict(case, pos=feature_table('pos'), neg=feature_table('neg'), maxL=10, maxR=9, min_features=1, end_max=30,
                score=0.3, freq=1, efreq=1, compound=True, post=None, source='sents', normalized=False, punct='!')
    ref = V2(case)
    want, left, full, comps = ref.extract()
    for k in ('pos', 'neg'):
        del case[k]
    with contextlib.redirect_stdout(io.StringIO()):
        same_nouns(LRNounExtractor_v2().train_extract(ref.sents), want, case)
    x = LRNounExtractor_v2(verbose=False)
    x.train(ref.sents)
    for w in sorted({t[:i] for t in ref.words for i in range(1, len(t) + 1)}):
        a, b = x.predict(w), V2.predict(ref_fresh(ref), w, 0.3)
        assert a[0] == b[0] and near(a[1], b[1]), (case, w, a, b)
    same_nouns(x.extract(), want, case)
    assert content(x) == full, case
    return 'compound' if any(w in comps for w in want) else 'nouns' if want else None


def ref_fresh(ref):
    ref.alive = dict(ref.words)
    return ref


@sub('C24', 'feature_files', st.lists(st.tuples(st.lists(RPART, max_size=5), st.lists(RPART, max_size=5)), min_size=1, max_size=3),
     quick=200, thorough=2000, rule='features of all files, those both positive and negative are common and only common')
def v2_files(files):
    headers = []
    for i, (p, n) in enumerate(files):
        write_lines('h%d_pos' % i, p)
        write_lines('h%d_neg' % i, n)
        headers.append(os.path.join(scratch(), 'h%d' % i))
    x = LRNounExtractor_v2(predictor_headers=headers, verbose=False)
    P = {r for p, _ in files for r in p}
    N = {r for _, n in files for r in n}
    assert x._pos_features == P - N and x._neg_features == N - P and x._common_features == P & N, (files,)
    return 'common' if P & N else 'disjoint' if P and N else None


# ================================================================ C25
describe('C25', 'Noun tables and feature sets for each post-processing rule; prediction scores and L-R graphs for '
         'domain feature extraction; corpora with real particles for the news extractor. Non-trivial: a noun was '
         'removed / a feature was extracted / a noun was extracted.')

NTABLE = st.dictionaries(st.one_of(gen.word('가은', 1, 5), gen.word('가은', 2, 4), st.tuples(gen.word('가나', 2, 3), st.sampled_from(
    ['에서', '으로', '부터', '까지', '에게', '은', '는', '처럼', '장', '서', '이']))
    .map(''.join)), st.tuples(st.integers(0, 12), gen.POS_EIGHTHS), max_size=10)


@sub('C25', 'detach_and_ignore', st.tuples(NTABLE, st.lists(st.one_of(gen.word('가은', 1, 3), st.sampled_from(
    ['에서', '으로', '까지'])), min_size=1, max_size=6), st.booleans()), quick=1500, thorough=20000,
    rule='exactly the nouns the rule names are removed, the others keep their score')
def post_rules(case):
    nouns, feats, log = case
    before = dict(nouns)
    feats = set(feats)
    path = os.path.join(scratch(), 'post', 'log.txt') if log else None
    got, removed = npp.detaching_features(nouns, feats, path)
    want = ref_detach(nouns, feats)
    assert removed == want and got == {w: s for w, s in before.items() if w not in want}, (case, removed, want)
    got2, removed2 = npp.ignore_features(nouns, feats, path)
    assert removed2 == set(nouns) & feats and got2 == {w: s for w, s in before.items() if w not in feats}, case
    assert nouns == before, case
    if log:
        with open(path, encoding='utf-8') as f:
            lines = [l.strip() for l in f]
        assert removed | removed2 <= set(lines), (case, lines)
    return 'removed' if want or removed2 else None


@st.composite
def nj_case(draw):
    base = draw(st.lists(gen.word('가나', 2, 3), min_size=1, max_size=3, unique=True))
    js = sorted(JOSA)[:40] + ['에서', '으로', '은', '는', '이', '서', '장', '까지']
    nouns = {b: (draw(st.integers(1, 20)), 0.5) for b in base}
    for _ in range(draw(st.integers(0, 4))):
        nouns[draw(st.sampled_from(base)) + draw(st.sampled_from(js))] = (draw(st.integers(1, 20)), 0.5)
    graph = {}
    for b in base:
        graph[b] = {r: 1 for r in draw(st.lists(st.sampled_from(js + ['xx', '다']), max_size=8))}
    return nouns, graph, draw(st.sampled_from([1, 2, 3, 5, 5]))


@sub('C25', 'noun_is_noun_josa', nj_case(), quick=1500, thorough=20000,
     rule='a noun that is a more frequent noun plus a particle is removed when that noun takes enough particles')
def post_nj(case):
    nouns, graph, k = case
    before = dict(nouns)
    g = LRGraph(lrgraph={l: dict(rd) for l, rd in graph.items() if rd} or None)
    got, removed = npp.check_N_is_NJ(nouns, g, min_num_of_josa=k)
    want = ref_nj(nouns, lambda l: graph.get(l, {}), k)
    assert removed == want and got == {w: s for w, s in before.items() if w not in want}, (case, removed, want)
    assert nouns == before, case
    # the rule looks at the corpus, not at what earlier steps have left in the graph
    for l in list(graph):
        for r in graph[l]:
            g.remove_eojeol(l + r, 1)
    assert npp.check_N_is_NJ(nouns, g, min_num_of_josa=k)[1] == want, case
    return 'removed' if want else 'kept' if len(nouns) > len(graph) else None


@st.composite
def domain_case(draw):
    nouns, rs, eojeols = draw(noun_corpus(max_items=22))
    for _ in range(draw(st.integers(0, 3))):
        # parts that are themselves noun + part, after several nouns
        tail = draw(st.sampled_from(nouns)) + draw(st.sampled_from(rs))
        eojeols += [(n + tail, draw(st.integers(1, 6))) for n in nouns[:draw(st.integers(1, 4))]]
    cand = sorted({w[:i] for w, _ in eojeols for i in range(1, len(w) + 1)})
    scores = draw(st.dictionaries(st.one_of(st.sampled_from(cand), st.sampled_from(nouns)),
                                  st.tuples(st.integers(0, 12), st.sampled_from([-0.5, 0, 0.25, 0.5, 1.0])), max_size=8))
    for n in nouns:
        scores.setdefault(n, (draw(st.integers(0, 12)), draw(st.sampled_from([0.25, 1.0, 1.0]))))
    return dict(eojeols=eojeols, scores=scores, known=draw(st.lists(st.sampled_from(rs), max_size=2)),
                ignore=draw(st.one_of(st.none(), st.lists(st.sampled_from(rs), max_size=2))),
                ns=draw(st.sampled_from([0.25, 0.3, 0.5])), nf=draw(st.sampled_from([1, 2, 5])),
                ps=draw(st.sampled_from([0.1, 0.3, 0.5, 1.0])), pf=draw(st.sampled_from([1, 2, 4])),
                uniq=draw(st.sampled_from([1, 1, 2, 3])), ent=draw(st.sampled_from([0.0, 0.0, 0.5])),
                nent=draw(st.sampled_from([0.0, 0.0, 0.5, 1.0])))


def entropy(counts):
    s = sum(counts)
    return -sum(c / s * math.log(c / s) for c in counts) if s else 0


class Unclear(Exception):
    pass


def ref_domain(case, words):
    nouns = {w for w, s in case['scores'].items() if s[0] >= case['nf'] and s[1] >= case['ns']}
    R = lambda l: {t[len(l):]: c for t, c in words.items() if t.startswith(l)}
    Ls = lambda r: {t[:-len(r)]: c for t, c in words.items() if t.endswith(r) and len(t) > len(r)}
    known, ignore = set(case['known']), set(case['ignore'] or ())
    total = Counter()
    for n in nouns:
        for r, c in R(n).items():
            if r not in known and r not in ignore:
                total[r] += c
    found = {}
    for r in sorted((r for r, c in total.items() if c >= case['pf'] and r), key=len):
        if r in nouns:
            continue
        ls = {l: c for l, c in Ls(r).items() if len(l) > 1}
        last = Counter()
        for l, c in ls.items():
            last[l[-1]] += c
        e = entropy(last.values())
        if 0 < abs(e - case['ent']) < 1e-9:
            raise Unclear
        if len(last) < case['uniq'] or e < case['ent'] - 1e-12:
            continue
        pos_r = known | set(found)
        pref = [i for i in range(1, len(r)) if r[:i] in nouns]
        nj = bool(pref) and r[pref[0]:] in pos_r
        if not nj and any(r[j:] in pos_r for i in pref for j in range(i, len(r))):
            raise Unclear          # the rule for R = noun + particle is not settled by the code
        pos = neg = unk = 0
        for l, c in ls.items():
            if nj or any(l + r[:i] in nouns for i in range(1, len(r) + 1)):
                neg += c
            elif l in nouns:
                pos += c
            else:
                unk += c
        score = (pos - neg) / (pos + neg) if pos + neg else 0
        freq = pos if score >= case['ps'] else neg + unk
        ne = entropy([c for l, c in ls.items() if l in nouns])
        if 0 < abs(ne - case['nent']) < 1e-9:
            raise Unclear
        if score >= case['ps'] and freq >= case['pf'] and ne >= case['nent'] - 1e-12:
            found[r] = (score, freq)
    return found


@sub('C25', 'domain_features', domain_case(), quick=1500, thorough=25000,
     rule='extracted R features, their score and frequency equal the reference; never a known, ignored or noun form')
def domain_features(case):
    words = {}
    for w, c in case['eojeols']:
        words[w] = words.get(w, 0) + c
    counter = EojeolCounter()
    counter._counter = dict(words)
    g = counter.to_lrgraph(30, 30)
    before = graph_state(g)
    try:
        want = ref_domain(case, words)
    except Unclear:
        return None
    got = extract_domain_pos_features(
        dict(case['scores']), g, set(case['known']), None if case['ignore'] is None else set(case['ignore']),
        case['ns'], case['nf'], case['ps'], case['pf'], case['uniq'], case['ent'], case['nent'])
    same_nouns(got, want, case)
    assert graph_state(g) == before, case
    for r, (score, freq) in got.items():
        assert r and r not in case['known'] and r not in (case['ignore'] or ()), (case, r)
        assert case['ps'] <= score <= 1 and freq >= case['pf'], (case, r, score, freq)
    return 'found' if want else None


POSR = ['은', '는', '이', '가', '을', '를', '에서', '으로', '도', '의', '에', '에게', '까지', '부터', '와', '과']
NEGR = ['다', '고', '었다', '지만', '던', '어서', '네', 'xx', '쿠']


# tails that make a noun look like a noun with part of a particle or verb
TAILS = ['으', '지', '없', '인', '은', '의', '와', '들', '들이', '들은', '으로', '당', '이', '갔다', '이는', '보는', '에', '까', '부', '하다']
AFTER = {'으': ['로', '로써', '로만', '로의'], '지': ['만'], '없': ['는', '이', '다', '었다'], '당': ['한', '했다', '하는', '은', '이'],
         '들': ['이', '은', '도', '을'], '으로': ['는', '도'], '에': ['서', '게'], '까': ['지'], '부': ['터'], '이': ['나', '라', '었다']}


@st.composite
def news_case(draw):
    heads = draw(st.lists(st.sampled_from(list('가나다라마바사자차카')), min_size=1, max_size=5, unique=True))
    nouns = [h + draw(gen.word('호무노두', 1, 3)) for h in heads]
    items = []
    count = st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 8), st.integers(9, 60))
    for n in nouns:
        for r in draw(st.lists(st.one_of(st.sampled_from(POSR), st.sampled_from(POSR), st.sampled_from(NEGR), st.just('')),
                               min_size=1, max_size=5)):
            items.append((n + r, draw(count)))
    for _ in range(draw(st.integers(0, 3))):
        a, b = draw(st.sampled_from(nouns)), draw(st.sampled_from(nouns + ['하다', '했다', '있다']))
        items.append((a + b, draw(count)))
    for _ in range(draw(st.integers(0, 2))):
        w = draw(st.sampled_from(nouns)) + draw(st.sampled_from(TAILS))
        rs = [r for t, v in AFTER.items() if w.endswith(t) for r in v]
        for r in draw(st.lists(st.sampled_from(rs * 2 + POSR[:5] + ['', '']), min_size=1, max_size=4)):
            items.append((w + r, draw(count)))
    for _ in range(draw(st.integers(0, 2))):
        ws = draw(st.lists(st.sampled_from(nouns), min_size=2, max_size=4))
        items.append((''.join(ws), draw(count)))
        if draw(st.booleans()):
            items.append((draw(st.sampled_from(nouns)) + ''.join(ws), draw(count)))
    base = draw(st.one_of(st.none(), st.sampled_from([['가호', '없다'], {'나무': 3}]), st.lists(st.sampled_from(nouns), max_size=3)))
    for _ in range(draw(st.integers(0, 2))):
        # a good candidate whose last letter is cut when the ending after it is frequent (or the noun before it)
        tail = draw(st.sampled_from(['으', '지', '지', '없', '인', '은', '의', '와', '과', '들이', '들은', '들도', '들을', '으로', '당']))
        w = draw(st.sampled_from(['파호', '하누', '파'] + nouns)) + tail
        some = st.integers(4, 20)
        for r in draw(st.lists(st.sampled_from(AFTER.get(tail, ['은', '을'])), min_size=1, max_size=3, unique=True)):
            items.append((w + r, draw(some)))
        for r in draw(st.lists(st.sampled_from(['에서', '가', '을', '에게', '까지', '']), min_size=1, max_size=2, unique=True)):
            items.append((w + r, draw(some)))
        if draw(st.booleans()):
            items.append((w[:-1] + draw(st.sampled_from(['을', '에서', '도'])), draw(st.integers(1, 20))))
    if draw(st.integers(0, 5)) == 0:
        # a half-hearted noun, and that noun + 으로 followed by what no particle of the table begins with 으로
        n = '타' + draw(gen.word('호무', 1, 2))
        items += [(n + '을', draw(st.integers(9, 60))), (n + '도', draw(st.integers(0, 30)) + 1)]
        items += [(n + '으로' + r, draw(st.integers(1, 4))) for r in ('받고', '뿐이다', '싶다', '하여서')[:draw(st.integers(2, 4))]]
    if draw(st.integers(0, 3)) == 0:
        # noun + (part of) verb, whose rest is also a word of its own
        n, v = draw(st.sampled_from(nouns)), draw(st.sampled_from(['당', '시키', '받', '하']))
        rs = draw(st.lists(st.sampled_from(['이', '한', '을', '했다', '로', '의', '도', '하는']), min_size=1, max_size=3, unique=True))
        k = draw(st.integers(1, 2))
        items += [(n + v + r, k) for r in rs] + [(v + r, draw(st.integers(1, 5))) for r in rs if draw(st.integers(0, 4))]
        items += [(n + '에서', draw(st.integers(20, 200))), (n + '을', draw(st.integers(5, 200)))]
        base = list(base or ()) + [n]
    return dict(eojeols=draw(st.permutations(items)), nouns=nouns, minf=draw(st.sampled_from([1, 3, 3, 5])),
                mins=draw(st.sampled_from([0.4, 0.4, 0.2, 0.7])), minp=draw(st.sampled_from([0.6, 0.6, 0.1, 0.9])),
                width=draw(st.integers(1, 4)), base=base,
                cands=draw(st.one_of(st.none(), st.none(), st.permutations(sorted({w[:i] for w, _ in items for i in range(2, len(w) + 1)})))))


_dictionaries = {}
_load = getattr(NewsNounExtractor, '_load_dictionary', None)


def _load_once(self, path):
    # the verb dictionaries are large; read each only once per process
    if path not in _dictionaries:
        _dictionaries[path] = _load(self, path)
    return set(_dictionaries[path])


if _load:
    NewsNounExtractor._load_dictionary = _load_once


def news_extractor(base=None):
    return NewsNounExtractor(verbose=False, base_noun_dictionary=base)


def ref_news_predict(x, words, l):
    rs = {t[len(l):]: c for t, c in words.items() if t.startswith(l) and len(t) - len(l) <= 7} if len(l) <= 10 else {}
    total = sum(rs.values())
    known = {r: c for r, c in rs.items() if r in x.r_scores}
    norm = sum(known.values())
    score = sum(c * x.r_scores[r] for r, c in known.items()) / norm if norm else 0
    end = words.get(l, 0)
    npos = sum(1 for r in known if x.r_scores[r] > 0)
    return (score, total, norm / (total - end) if total > end else 0, end / total if total else 0, npos,
            npos / len(known) if known else 0)


PASS_R = set('과 는 되고 되는 되다 된다 들 들에 들의 들이 로 로는 로도 로서 를 부터 뿐 뿐만 뿐이 뿐인 에게 에도 에서 에와 와 '
             '으로 으로의 은 의 이 이나 이라 이었 인 임 처럼 하다 한 할 했던 했고 했다'.split())
EPS = 1e-9


def more(a, b):
    """a > b, where a tie within rounding is not settled"""
    if 0 < abs(a - b) < EPS:
        raise Unclear
    return a > b


class NewsRef:
    """What the news extractor documents: thresholds, the rules that take a candidate for a noun with a part of a
    particle or verb, and the compounds among the eojeols."""

    def __init__(self, x, words, case):
        self.x, self.words, self.case = x, words, case
        self.scores, self.verbs = dict(x.r_scores), set(x._vdictionary)
        self.josa = {r for r, v in self.scores.items() if v > 0.1} | {'는'}
        self.lc = Counter()
        self.Rs = {}
        for t, c in words.items():
            for e in range(1, min(len(t), 10) + 1):
                if len(t) - e <= 7:
                    self.lc[t[:e]] += c
                    self.Rs.setdefault(t[:e], {})[t[e:]] = c
        self.memo = {}
        self.nouns, self.book = {}, {}

    def P(self, l):
        if l not in self.memo:
            self.memo[l] = ref_news_predict(self.x, self.words, l)
        return self.memo[l]

    def known(self, w):
        return w in self.nouns or w in self.book

    def known_split(self, w):
        if len(w) < 4:
            return False
        return any(self.known(w[:e]) and self.known(w[e:]) for e in range(2, len(w))) or any(
            self.known(w[:a]) and self.known(w[a:b]) and self.known(w[b:])
            for a in range(2, len(w) - 3) for b in range(a + 2, len(w) - 1))

    def part_of_particle(self, l):                  # 대학생으 + 로
        es = [e for e in range(2, len(l)) if l[:e] in self.book or more(self.P(l[:e])[0], 0.4)]
        if not es or not self.lc[l[:es[-1]]] or more(self.lc[l] / self.lc[l[:es[-1]]], 0.7):
            return False
        rs = self.Rs.get(l, {})
        return more(sum(c for r, c in rs.items() if any((l + r)[e:] in self.josa for e in es)) / sum(rs.values()), 0.8)

    def cut_particle(self, l):                      # 떡볶 + 이
        return {l[:e] for e in range(2, len(l)) if l[e:] in self.josa and more(self.P(l[:e])[0], 0.7)
                and more(self.lc[l[:e]] / self.lc[l], 0.7)}

    def part_of_verb(self, l):                      # 사기당 + 했다
        rs = self.Rs.get(l)
        alone = lambda w: w in self.Rs and more(min(1, self.words.get(w, 0) / self.lc[w]), 0.7)
        cuts = range(1, 2 if len(l) <= 3 else 3)
        return bool(rs) and any(
            l[:-b] in self.nouns and l[:-b] in self.book and
            more(sum(c for r, c in rs.items() if alone(l[-b:] + r)) / sum(rs.values()), 0.7) for b in cuts) and any(
            self.known(l[:-b]) and (not self.lc[l[:-b]] or more(0.1, self.lc[l] / self.lc[l[:-b]])) for b in cuts)

    def noun_josa(self, w):
        return any(self.known(w[:e]) and (e == len(w) or self.scores.get(w[e:], 0) > 0) for e in range(2, len(w) + 1))

    def one_particle(self, l):
        p = self.P(l)
        if p[1] > 10 or p[4] > 1:
            return False
        rs = {r: c for r, c in self.Rs[l].items() if r}
        good = sum(c for r, c in rs.items() if r[:2] in PASS_R or self.noun_josa(r))
        return not rs or not more(good / sum(rs.values()), 0.5)

    def bad_end(self, l):
        rs = self.Rs.get(l, {})
        share = lambda *r: sum(rs.get(i, 0) for i in r) / max(1, sum(rs.values()))
        if l in self.verbs or l[-2:] in ('갔다', '이는', '겠지', '보는'):
            return True
        for end, after in (('으', ('로', '로써', '로만', '로의')), ('지', ('만',)), ('없', ('는', '이', '다', '었다'))):
            if l[-1] == end and more(share(*after), 0.5):
                return True
        if l[-1] in '인은의와과' or l[-2:] in ('들이', '들은', '들도', '들을'):
            drop = self.lc[l] / self.lc[l[:-1]] if self.lc[l[:-1]] else 0
            if not (drop >= 0.8):
                return True
        return l[-2:] == '으로' and (len(l) == 3 or l[:-2] in self.book or l[:-2] in self.kept)

    def suffers(self, l):                           # N당 + 하다
        if not (l[-1] != '당' and self.known(l[:-1])):
            rs = self.Rs.get(l, {})
            h = sum(c for r, c in rs.items() if r and '하' <= r[0] <= '힣')
            return bool(rs) and h / sum(rs.values()) >= 0.5
        return False

    def extract(self):
        c = self.case
        P = {l: self.P(l) for l in self.lc}
        for l in list(P):
            if self.lc[l] >= c['minf'] and self.words.get(l, 0) / self.lc[l] >= 0.99 and len(l) >= 4:
                for e in range(2, len(l) - 1):
                    if l[e:] in self.verbs and not more(0.4, self.P(l[:e])[0]):
                        self.book[l[:e]] = True
                        break
        for w in c['base'] or ():
            self.book[w] = True
        self.nouns = {l: P[l] for l in P if len(l) > 1 and (not c['cands'] or l in c['cands']) and self.lc[l] >= c['minf'] and l not in self.scores and
                      more(P[l][0], c['mins']) and more(P[l][2], c['minp'])}
        nj = {l for l in self.nouns if self.part_of_particle(l)}
        cut = {x for l in self.nouns if l not in nj for x in self.cut_particle(l)}
        nv = {l for l in self.nouns if self.part_of_verb(l) and not self.known_split(l)}
        self.reasons = Counter()
        self.kept = set()
        for l in sorted(self.nouns, key=len):
            why = ('nj' if l in nj else 'cut' if l in cut else 'nv' if l in nv else
                   'one josa' if self.one_particle(l) and not self.known_split(l) else
                   'end' if self.bad_end(l) else 'dang' if self.suffers(l) else None)
            if why:
                self.reasons[why] += 1
            else:
                self.kept.add(l)
        for l in sorted(self.lc, key=len):
            if self.lc[l] >= c['minf'] and self.words.get(l, 0) / self.lc[l] >= 0.99 and l not in self.kept:
                if not self.part_of_particle(l) and not self.noun_josa(l) and not any(
                        (l[:e] in self.kept or l[:e] in self.book) and l[e:] in self.verbs for e in range(2, len(l))):
                    if not self.bad_end(l) and self.known_split(l):
                        self.book[l] = True
                        self.reasons['compound'] += 1
        return self.kept | set(self.book)


@sub('C25', 'news_rules', news_case(), quick=400, thorough=8000,
     rule='the extracted nouns are exactly the candidates no rule takes for something else, the verb splits, the base '
          'dictionary and the compounds of eojeols')
def news_rules(case):
    x = news_extractor(case['base'])
    sents = expand(case['eojeols'], case['width'])
    words = Counter(t for s in sents for t in s.split())
    words = {t: c for t, c in words.items() if len(t) <= 17}
    ref = NewsRef(x, words, case)
    try:
        want = ref.extract()
    except Unclear:
        return None
    x.train(sents)
    if (case['mins'], case['minf'], case['minp'], case['cands']) == (0.4, 3, 0.6, None):
        got = x.extract()      # the documented limits
    else:
        got = x.extract(case['mins'], case['minf'], case['cands'], case['minp'])
    assert set(got) == want, (case, sorted(set(got) ^ want), ref.reasons)
    return sorted(ref.reasons) or ('nouns' if want else None)


@sub('C25', 'news_extract', news_case(), quick=250, thorough=4000,
     rule='scores equal a direct computation; every extracted noun passes the thresholds or is backed by a verb or by '
          'noun parts; a noun nothing speaks against is extracted')
def news_extract(case):
    x = news_extractor(case['base'])
    sents = expand(case['eojeols'], case['width'])
    words = Counter(t for s in sents for t in s.split())
    words = {t: c for t, c in words.items() if len(t) <= 17}
    x.train(sents)
    allp = sorted({t[:i] for t in words for i in range(1, min(len(t), 10) + 1) if len(t) - i <= 7})
    P = {}
    for l in allp + ['없음']:
        got, want = x.predict(l), ref_news_predict(x, words, l)
        assert all(near(a, b) for a, b in zip(got, want)), (case, l, got, want)
        P[l] = want
    base = set(case['base'] or ())
    got = x.extract(case['mins'], case['minf'], None, case['minp'])
    passed = {l for l in allp if len(l) > 1 and P[l][1] >= case['minf'] and l not in x.r_scores and
              P[l][0] > case['mins'] and P[l][2] > case['minp']}
    verb = {t[:e] for t in allp if P[t][1] >= case['minf'] and P[t][3] >= 0.99 and len(t) >= 4
            for e in range(2, len(t) - 1) if t[e:] in x._vdictionary and P.get(t[:e], (0,))[0] >= 0.4}
    known = passed | verb | base
    # an eojeol that splits into noun and verb gives a noun, and the base dictionary stays
    assert base <= set(got), (case, sorted(base - set(got)))
    for t in allp:
        if P[t][1] >= case['minf'] and P[t][3] >= 0.99 and len(t) >= 4:
            of = {t[:e] for e in range(2, len(t) - 1) if t[e:] in x._vdictionary and P[t[:e]][0] >= 0.4}
            assert not of or of & set(got), (case, t, of)
    for w, s in sorted(got.items(), key=lambda i: len(i[0])):
        want = P.get(w) or ref_news_predict(x, words, w)
        assert all(near(a, b) for a, b in zip(s, want)), (case, w, s, want)
        if w in known:
            continue
        two = any(w[:e] in known and w[e:] in known for e in range(2, len(w)))
        three = any(w[:a] in known and w[a:b] in known and w[b:] in known
                    for a in range(2, len(w)) for b in range(a + 1, len(w)))
        assert want[1] >= case['minf'] and want[3] >= 0.99 and (two or three), (case, w, s)
        known = known | {w}                         # a part of longer compounds
    clean = set()
    for n in case['nouns']:
        if n not in passed or any(t in x._vdictionary for t in (n,)):
            continue
        if any(n != m and (n.startswith(m[0])) for m in case['nouns']):
            continue
        rs = {t[len(n):] for t in words if t.startswith(n)}
        others = any(t.startswith(n[:2]) and not t.startswith(n) for t in words)
        if others or P[n][4] < 2 or any(r and r not in POSR for r in rs):
            continue
        if any(P.get(n[:e], (0,))[0] > 0.4 for e in range(2, len(n))) or any(n + r[:i] in known for r in rs for i in range(1, len(r) + 1)):
            continue
        clean.add(n)
    assert clean <= set(got), (case, clean - set(got))
    return ['clean'] if clean else ['nouns'] if set(got) - base else None


@sub('C25', 'news_train', news_case(), quick=150, thorough=2000,
     rule='one call equals train then extract; sentence order does not matter')
def news_train(case):
    sents = expand(case['eojeols'], case['width'])
    a = news_extractor(case['base'])
    a.train(sents)
    want = dict(a.extract(case['mins'], case['minf'], None, case['minp']))
    b = news_extractor(case['base'])
    got = b.train_extract(sents, case['minf'], case['mins'], None, case['minp'])
    same_nouns(got, {w: tuple(s) for w, s in want.items()}, case)
    c = news_extractor(case['base'])
    got = c.train_extract(expand(case['eojeols'], case['width'] + 1, 3), case['minf'], case['mins'], None, case['minp'])
    same_nouns(got, {w: tuple(s) for w, s in want.items()}, case)
    return 'nouns' if want else None
