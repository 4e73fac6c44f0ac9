"""C26 eomi, stem and predicator extraction; C27 part-of-speech extraction."""
import math
from collections import Counter

from hypothesis import strategies as st

from core import sub, describe
import gen
from c_noun import expand, near, same_nouns, graph_state
from soynlp.lemmatizer import Lemmatizer, conjugate, lemma_candidate, _conjugate_stem
from soynlp.normalizer import normalize_sent_for_lrgraph
from soynlp.predicator import EomiExtractor, PredicatorExtractor, StemExtractor
from soynlp.utils import EojeolCounter, LRGraph

VERBS = ['먹', '가', '보', '하', '오', '쓰', '묻', '짓', '고르', '달리', '돕', '주', '덤비', '입', '살']
ADJS = ['예쁘', '파랗', '크', '춥', '좋', '이', '아니', '가깝', '슬프']
NEWSTEMS = ['졸리', '거리', '당하', '같', '만하', '기울', '떠나', '누리', '스럽']
EOMIS = ['고', '는', '다', '면', '으면', '지만', '니까', '던', '거나', '어서', '아서', '었다', '았다', 'ㄴ', 'ㄹ', 'ㄴ다', '는다',
         '자', '어', '아', '네', '려고', '러', '겠다', '게', '기']
JOSAS = ['은', '는', '이', '가', '을', '를', '에서', '고', '다']
NOUNS = ['나무', '먹', '하늘', '고기', '보고', '가', '크', '사랑', '달', '살기', '오네', '졸', '떠']
JUNK = ['ㅋㅋ', 'abc', '가나다', '하늘하', '은', 'a고', '9는', '나무는다', '뷁고', '고고', '면은']


def inflect(stem, eomi):
    try:
        return sorted(conjugate(stem, eomi))
    except Exception:
        return [stem + eomi]


@st.composite
def predicate_corpus(draw, max_count=5):
    stems = draw(st.lists(st.sampled_from(VERBS + ADJS + NEWSTEMS), min_size=2, max_size=6, unique=True))
    eomis = draw(st.lists(st.sampled_from(EOMIS), min_size=2, max_size=9, unique=True))
    skip = draw(st.sets(st.tuples(st.integers(0, 5), st.integers(0, 8)), max_size=12))
    default = draw(st.integers(1, max_count))
    items = []
    for i, s in enumerate(stems):
        for j, e in enumerate(eomis):
            if (i, j) not in skip:
                forms = inflect(s, e)
                items.append((forms[(i + j) % len(forms)], default + (i * 3 + j) % 3))
    for _ in range(draw(st.integers(0, 5))):
        items.append((draw(st.sampled_from(NOUNS)) + draw(st.sampled_from(JOSAS + EOMIS + ['하고', '하는', ''])),
                      draw(st.integers(1, max_count))))
    items += draw(st.lists(st.tuples(st.sampled_from(JUNK), st.integers(1, max_count)), max_size=3))
    if not items:
        items = [('먹고', 1)]
    known = draw(st.sets(st.sampled_from(stems), min_size=1)) | draw(st.sets(st.sampled_from(VERBS + ADJS), max_size=3))
    keomis = draw(st.sets(st.sampled_from(eomis), min_size=1)) | draw(st.sets(st.sampled_from(EOMIS), max_size=4))
    return dict(eojeols=items, stems=sorted(known), eomis=sorted(keomis),
                nouns=sorted(draw(st.sets(st.sampled_from(NOUNS), max_size=4)) |
                             draw(st.sets(st.sampled_from(sorted({w for w, _ in items if len(w) == 2} | {'보고'})), max_size=4))))


def counts(case):
    c = Counter()
    for w, k in case['eojeols']:
        c[w] += k
    return dict(c)


def counter_of(words):
    x = EojeolCounter()
    x._counter = dict(words)
    x._set_count_sum()
    return x


class Words:
    """L-R views of a word table (L up to 10, R up to 9 letters)."""

    def __init__(self, words):
        self.words = dict(words)

    def R(self, l):
        return {t[len(l):]: c for t, c in self.words.items()
                if len(l) <= 10 and t.startswith(l) and len(t) - len(l) <= 9}

    def L(self, r):
        if not 0 < len(r) <= 9:
            return {}
        return {t[:-len(r)]: c for t, c in self.words.items()
                if t.endswith(r) and 0 < len(t) - len(r) <= 10}


class Unclear(Exception):
    pass


def at_least(a, b):
    if 0 < abs(a - b) < 1e-9:
        raise Unclear
    return a >= b


# ================================================================ C26
describe('C26', 'Corpora of conjugated stems (regular and irregular, known and unknown), nouns with particles and noise, '
         'with generated subsets as known stems, endings, nouns and particles and generated thresholds. '
         'Non-trivial: something was extracted.')


class EomiRef:
    def __init__(self, words, stems, nouns):
        self.g = Words(words)
        self.stems, self.nouns = set(stems), set(nouns)
        self.surface = {l for s in stems for l in _conjugate_stem(s)}

    def predict(self, r, min_score, min_features):
        pos = neg = unk = n = 0
        for l, c in self.g.L(r).items():
            longer = any(l + r[:i] in self.surface for i in range(1, len(r) + 1))
            if l in self.surface and not longer:
                n += 1
            if l + r in self.nouns or longer:
                continue
            if l in self.surface or (l[0] in self.nouns and l[1:] in self.surface):
                pos += c
            elif any(l[i:] in self.surface for i in range(1, len(l))):
                unk += c
            else:
                neg += c
        score = (pos - neg) / (pos + neg) if pos + neg else 0
        support = (pos if at_least(score, min_score) else neg) + unk
        return (support, score) if n >= min_features else (0, 0)

    def extract(self, min_score, min_freq, min_features):
        full = dict(self.g.words)
        cands = {r for l in self.surface for r in self.g.R(l)}
        good = {}
        for r in sorted(cands, key=lambda r: -len(r)):
            s = self.predict(r, min_score, min_features)
            if at_least(s[1], min_score):
                good[r] = s[1]
                for l in self.g.L(r):
                    if l in self.surface or (l[0] in self.nouns and l[1:] in self.surface):
                        del self.g.words[l + r]
        self.g.words = full
        tot, weighted = Counter(), Counter()
        for r, s in good.items():
            for l, c in self.g.L(r).items():
                for stem, eomi in lemma_candidate(l, r):
                    if stem in self.stems:
                        tot[eomi] += c
                        weighted[eomi] += c * s
        out = {}
        for e in tot:
            s = weighted[e] / tot[e]
            if tot[e] >= min_freq and at_least(s, min_score):
                out[e] = (tot[e], s)
        return out


EOMI_CASE = st.fixed_dictionaries(dict(
    c=predicate_corpus(), score=st.sampled_from([0.3, 0.3, 0.1, 0.5, 0.9]), freq=st.sampled_from([1, 1, 3, 10]),
    feats=st.sampled_from([1, 1, 2, 3, 5]), reset=st.booleans()))


@sub('C26', 'eomis', EOMI_CASE, quick=700, thorough=12000,
     rule='predictions and the extracted endings with frequency and score equal the reference; the graph is restored')
def eomi_extract(case):
    c = case['c']
    words = counts(c)
    g = counter_of(words).to_lrgraph()
    before = graph_state(g)
    x = EomiExtractor(g, set(c['stems']), set(c['nouns']), min_num_of_features=case['feats'], verbose=False)
    ref = EomiRef(words, c['stems'], c['nouns'])
    try:
        want = ref.extract(case['score'], case['freq'], case['feats'])
        for _ in range(2):
            got = x.extract(min_eomi_score=case['score'], min_eomi_frequency=case['freq'], reset_lrgraph=case['reset'])
            same_nouns(got, want, case)
            assert graph_state(g) == before, case
        for r in ['고', '는다', '서', '니까', '면']:
            a, b = x.predict(r, case['score'], case['feats']), ref.predict(r, case['score'], case['feats'])
            assert a[0] == b[0] and near(a[1], b[1]), (case, r, a, b)
    except Unclear:
        return None
    for e, s in got.items():
        assert e and case['score'] - 1e-9 <= s.score <= 1 + 1e-9 and s.frequency >= case['freq'], (case, e, s)
    return 'extracted' if want else None


STEM_JOSA = {'거나', '게', '게는', '게도', '고', '고도', '고만', '는', '다', '다가', '서는', '아', '은'}


class StemRef:
    def __init__(self, words, stems, eomis):
        self.g = Words(words)
        self.eomis = set(eomis)
        self.L, self.R = set(), set()
        reach = {t for t in words if any(i <= 10 and len(t) - i <= 9 for i in range(1, len(t) + 1))}
        for s in stems:
            for e in eomis:
                for w in inflect(s, e):
                    if w in reach and len(w) > len(s):
                        self.L.add(w[:len(s)])
                        self.R.add(w[len(s):])

    def pred(self, r):
        return any(r[:i] in self.L and r[i:] in self.R for i in range(1, len(r)))

    def longer(self, l, r):
        return any(l[i:] + r in self.R for i in range(len(l)))

    def predict(self, l, min_score, min_freq, nchar, nent):
        rs = self.g.R(l)
        pos = neg = unk = 0
        for r, c in rs.items():
            if r in STEM_JOSA:
                continue
            if not r or (r not in self.R and (self.pred(r) or self.longer(l, r))):
                neg += c
            elif r in self.R:
                pos += c
            else:
                unk += c
        score = (pos - neg) / (pos + neg) if pos + neg else 0
        freq = pos if at_least(score, min_score) else neg + unk
        ent = [c for r, c in rs.items() if r in self.R and r not in STEM_JOSA and not self.pred(r) and not self.longer(l, r)]
        e = -sum(c / sum(ent) * math.log(c / sum(ent)) for c in ent) if len(ent) > 1 else 0
        if len({r[0] for r in rs if r}) < nchar or not at_least(e, nent):
            return 0, 0
        return (0 if freq < min_freq else score, freq)

    def extract(self, min_score, min_freq, nchar, nent, ignore):
        cand = Counter()
        for r in self.R:
            for l, c in self.g.L(r).items():
                if l not in self.L and l not in ignore:
                    cand[l] += c
        got = {}
        for l, c in cand.items():
            if c < min_freq or l in self.R or len(l) == 1 or l[-1] == '다':
                continue
            s, f = self.predict(l, min_score, min_freq, nchar, nent)
            if at_least(s, min_score) and f >= min_freq:
                got[l] = (s, f)
        drop = {l for l in got if
                any((l[:i] in self.L or l[:i] in got) and any(l[i:j] in self.R for j in range(i + 1, len(l) + 1))
                    for i in range(1, len(l))) or any(l[:i] in got for i in range(2, len(l)))}
        kept = {l: s for l, s in got.items() if l not in drop}
        tot, weighted = Counter(), Counter()
        for l, (s, _) in kept.items():
            for r, c in self.g.R(l).items():
                try:
                    lemmas = lemma_candidate(l, r)
                except Exception:
                    continue
                for stem, eomi in lemmas:
                    if eomi in self.eomis:
                        tot[stem] += c
                        weighted[stem] += c * s
        return kept, drop, {s: (tot[s], weighted[s] / tot[s]) for s in tot}


STEM_CASE = st.fixed_dictionaries(dict(
    c=predicate_corpus(), score=st.sampled_from([0.7, 0.5, 0.3]), freq=st.sampled_from([1, 3, 6]),
    nchar=st.sampled_from([1, 2, 2, 3]), nent=st.sampled_from([0.0, 0.5, 0.5]),
    ignore=st.sampled_from([(), (), ('졸리', '떠나')])))


@sub('C26', 'stems', STEM_CASE, quick=700, thorough=12000,
     rule='predictions, extracted stem surfaces, removed ones and stems equal the reference; a stem is followed by known endings')
def stem_extract(case):
    c = case['c']
    words = counts(c)
    g = counter_of(words).to_lrgraph()
    before = graph_state(g)
    x = StemExtractor(g, set(c['stems']), set(c['eomis']), min_num_of_unique_R_char=case['nchar'],
                      min_entropy_of_R_char=case['nent'], verbose=False)
    ref = StemRef(words, c['stems'], c['eomis'])
    assert x.L == ref.L and x.R == ref.R, (case, x.L ^ ref.L, x.R ^ ref.R)
    try:
        kept, drop, want = ref.extract(case['score'], case['freq'], case['nchar'], case['nent'], case['ignore'])
        got = x.extract(set(case['ignore']) or None, case['score'], case['freq'])
        assert x.removals == drop, (case, x.removals, drop)
        same_nouns(x.stem_surfaces, kept, case)
        same_nouns(got, want, case)
        for l in sorted({t[:i] for t in words for i in (1, 2, 3)}):
            a = x.predict(l, case['score'], case['freq'])
            b = ref.predict(l, case['score'], case['freq'], case['nchar'], case['nent'])
            assert near(a[0], b[0]) and a[1] == b[1], (case, l, a, b)
    except Unclear:
        return None
    assert graph_state(g) == before, case
    return 'extracted' if want else 'removed' if drop else None


ADJ_END, VERB_END = {'같', '답', '롭', '만하', '스럽', '시럽', '이', '아니'}, {'거리', '당하', '당허', '시키'}


def ref_present(stem):
    from soynlp.hangle import decompose
    cho, jung, jong = decompose(stem[-1])
    eomis = ['ㄴ다', 'ㄴ다고', '고있는'] if jong == ' ' else ['는다', '는다고', '고있는']
    eomis += ['어라'] if jung in 'ㅓㅕ' else ['아라']
    eomis += ['자', 'ㄹ까', 'ㄹ까봐', '까', '까봐', '을까', '을까봐']
    return {w for e in eomis for w in conjugate(stem, e)}


def hangul(w):
    return all('가' <= ch <= '힣' for ch in w)


class PredRef:
    def __init__(self, case, words):
        c = case['c']
        self.case = case
        self.adjs, self.verbs = set(case['adjs']), set(case['verbs'])
        self.stems = self.adjs | self.verbs
        nouns = set(c['nouns'])
        gone = set()
        for s in self.stems:
            gone |= {s[:-1]} if s[:-1] in nouns else {s[:-2]} if s[:-2] in nouns else set()
        self.nouns = nouns - gone
        self.eomis = set(c['eomis'])
        self.words = {w: k for w, k in words.items() if k >= case['efreq']}
        g = {w: k for w, k in self.words.items()
             if len(w) > 1 and not any(w[:e] in self.nouns for e in range(2, len(w) + 1))}
        if case['eomi']:
            x = EomiExtractor(counter_of(g).to_lrgraph(), self.stems, self.nouns, min_num_of_features=case['feats'], verbose=False)
            self.eomis |= set(x.extract(min_eomi_score=0.3, min_eomi_frequency=1))
        if case['stem']:
            x = StemExtractor(counter_of(g).to_lrgraph(), self.stems, self.eomis, 2, 0.5, 0.0, verbose=False)
            self.stems = self.stems | set(x.extract(None, 0.5, 2))

    def lemmas(self, words):
        out, by_eomi = {}, {}
        lem = Lemmatizer(self.stems, self.eomis)
        for w, k in words.items():
            if any(w[:i] in self.nouns and w[i:] in self.case['josas'] for i in range(1, len(w))):
                continue
            ls = {(s, e) for s, e in lem.lemmatize(w) if w in conjugate(s, e)}
            if ls:
                out[w] = ls
                for s, e in ls:
                    by_eomi.setdefault(e, []).append(w)
        self.all = {w: set(ls) for w, ls in out.items()}
        # endings of at most two letters that mostly make two-letter nouns are distrusted
        for e, ws in by_eomi.items():
            two = [w for w in ws if len(w) == 2]
            if len(e) >= 3 or not two or sum(w in self.nouns for w in two) / len(two) < 0.5:
                continue
            for w in set(ws):
                bad = True if len(two) == len(ws) else \
                    (len(w) == 2 and w in self.nouns) or (len(w) == 3 and len(e) == 2)
                if bad:
                    out[w] = {l for l in out[w] if l[1] != e}
        return {w: ls for w, ls in out.items() if ls}

    def kind(self, stem, found):
        if stem in self.verbs:
            return 'v'
        if stem in self.adjs:
            return 'a'
        if stem[-1] in ADJ_END or stem[-2:] in ADJ_END:
            return 'a'
        if stem[-1] in VERB_END or stem[-2:] in VERB_END:
            return 'v'
        return 'a' if len(ref_present(stem) & set(found)) <= 1 else 'v'


@st.composite
def pred_case(draw):
    c = draw(predicate_corpus())
    verbs = [s for s in c['stems'] if s not in ADJS or draw(st.booleans())]
    return dict(c=c, verbs=verbs, adjs=[s for s in c['stems'] if s not in verbs or draw(st.integers(0, 6)) == 0],
                josas=sorted(draw(st.sets(st.sampled_from(JOSAS), min_size=1))),
                efreq=draw(st.sampled_from([1, 1, 2, 3])), pfreq=draw(st.sampled_from([1, 1, 2, 4])),
                eomi=draw(st.booleans()), stem=draw(st.integers(0, 2)) == 0, feats=draw(st.sampled_from([1, 2, 3])),
                source=draw(st.sampled_from(['sents', 'counter', 'graph'])), width=draw(st.integers(1, 3)),
                given=draw(st.sampled_from([None, None, 'dict', 'counter'])), verbose=draw(st.integers(0, 3)) == 0,
                normalized=draw(st.booleans()))


def pred_words(case):
    words = counts(case['c'])
    if case['source'] == 'sents':
        toks = Counter(t for s in expand(case['c']['eojeols'], case['width'])
                       for t in (s if case['normalized'] else normalize_sent_for_lrgraph(s)).split())
        words = {t: k for t, k in toks.items() if len(t) <= 15}
    return words


def pred_source(case, words):
    if case['source'] == 'sents':
        return expand(case['c']['eojeols'], case['width'])
    x = counter_of(words)
    return x if case['source'] == 'counter' else x.to_lrgraph(10, 9)


@sub('C26', 'predicators', pred_case(), quick=900, thorough=15000,
     rule='adjectives and verbs, their frequency and lemmas equal the reference; every lemma conjugates back to its word; '
          'inputs stay unchanged')
def predicators(case):
    c = case['c']
    words = pred_words(case)
    data = pred_source(case, words)
    nouns, adjs, verbs, eomis, josas = set(c['nouns']), set(case['adjs']), set(case['verbs']), set(c['eomis']), set(case['josas'])
    x = PredicatorExtractor(nouns, josas, adjs, verbs, eomis, case['eomi'], case['stem'], case['verbose'], case['normalized'])
    x.train(data, min_eojeol_frequency=case['efreq'], min_num_of_features=case['feats'], min_num_of_unique_R_char=2,
            min_entropy_of_R_char=0.5, min_entropy_of_R=0.0, min_stem_score=0.5, min_stem_frequency=2)
    ref = PredRef(case, words)
    given = None
    if case['given']:
        sel = {w: k for w, k in words.items() if hangul(w)}
        given = sel if case['given'] == 'dict' else counter_of(sel)
        todo = sel or {w: k for w, k in ref.words.items() if k >= case['pfreq'] and hangul(w)}
    else:
        todo = {w: k for w, k in ref.words.items() if k >= case['pfreq'] and hangul(w)}
    want = ref.lemmas(todo)
    A, V = x.extract(given, case['pfreq'])
    for got, kind in ((A, 'a'), (V, 'v')):
        exp = {w: {l for l in ls if ref.kind(l[0], want) == kind} for w, ls in want.items()}
        exp = {w: ls for w, ls in exp.items() if ls}
        assert set(got) == set(exp), (case, kind, set(got) ^ set(exp))
        for w, p in got.items():
            assert p.frequency == todo[w] and set(p.lemma) == exp[w], (case, kind, w, p, exp[w])
            for stem, eomi in p.lemma:
                assert w in conjugate(stem, eomi), (case, w, stem, eomi)
    if case['source'] == 'counter':
        assert dict(data.items()) == words, case
    assert (nouns, adjs, verbs, eomis, josas) == (set(c['nouns']), set(case['adjs']), set(case['verbs']),
                                                  set(c['eomis']), set(case['josas'])), case
    if not want:
        return None
    return [l for l, on in (('verb', V), ('adjective', A), ('distrusted ending', want != ref.all),
                            ('new stem', ref.stems - set(c['stems'])), ('new eomi', ref.eomis - set(c['eomis']))) if on]


@sub('C26', 'one_call', pred_case(), quick=300, thorough=5000,
     rule='train_extract equals train then extract; the order of the sentences does not matter')
def predicators_once(case):
    c = case['c']
    case = dict(case, source='sents')
    words = pred_words(case)

    def make():
        return PredicatorExtractor(set(c['nouns']), set(case['josas']), set(case['adjs']), set(case['verbs']),
                                   set(c['eomis']), case['eomi'], case['stem'], False, case['normalized'])
    x = make()
    kw = dict(min_num_of_features=case['feats'], min_num_of_unique_R_char=2, min_entropy_of_R_char=0.5,
              min_entropy_of_R=0.0, min_stem_score=0.5, min_stem_frequency=2)
    x.train(pred_source(case, words), min_eojeol_frequency=case['efreq'], **kw)
    want = x.extract(None, case['pfreq'])
    for sents in (pred_source(case, words), expand(c['eojeols'], case['width'] + 1, 5)):
        got = make().train_extract(sents, case['efreq'], 100000, None, case['pfreq'], **kw)
        assert [{w: (p.frequency, set(p.lemma)) for w, p in d.items()} for d in got] == \
            [{w: (p.frequency, set(p.lemma)) for w, p in d.items()} for d in want], (case, got, want)
    return 'words' if any(want) else None
