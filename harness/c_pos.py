"""C27 part-of-speech extraction."""
import contextlib
import io
import os
import tempfile
from collections import Counter

from hypothesis import strategies as st

from core import sub, describe
from c_noun import expand, same_nouns
from c_predicator import ADJS, VERBS, EOMIS, counts, hangul, inflect, predicate_corpus
from soynlp.hangle import decompose
from soynlp.lemmatizer import conjugate, lemma_candidate
from soynlp.normalizer import normalize_sent_for_lrgraph
from soynlp.noun import LRNounExtractor_v2
from soynlp.pos import ChatPOSExtractor, NewsPOSExtractor, load_default_adverbs, stem_to_adverb
from soynlp.postagger import POSExtractor
from soynlp.predicator import Predicator, PredicatorExtractor
from soynlp.utils import LRGraph
from soynlp.utils.utils import installpath

describe('C27', 'Generated nouns, predicates with their lemmas, particles and adverbs, and eojeols glued from them '
         '(noun + particle, noun + predicate, predicate + predicate, one letter nouns, compounds, noise); and generated '
         'sentences run through the whole extractor. Non-trivial: an eojeol was recognized by more than a plain lookup.')

with open(installpath + '/postagger/dictionary/default/Josa/josa_chat.txt', encoding='utf-8') as f:
    CHAT_JOSAS = {line.strip() for line in f}
JAUM = {chr(c) for c in range(0x3131, 0x314F)}


class PosRef:
    """Reference of the pattern matching of NewsPOSExtractor and ChatPOSExtractor."""

    def __init__(self, s, chat):
        self.chat = chat
        self.nouns = set(s['nouns'])
        self.base = {'A': {w: set(p.lemma) for w, p in s['adjectives'].items()},
                     'V': {w: set(p.lemma) for w, p in s['verbs'].items()}}
        self.stems = {'A': set(s['adjective_stems']), 'V': set(s['verb_stems'])}
        self.eomis, self.adverbs = set(s['eomis']), set(s['adverbs'])
        self.josas = set(CHAT_JOSAS) if chat else set(s['josas'])
        self.eojeols = dict(s['eojeols'])
        self.unclear = set()
        self.how = set()

    def lemmas(self, word, stems):
        for i in range(len(word), 0, -1):
            try:
                cand = lemma_candidate(word[:i], word[i:])
            except Exception:
                continue
            known = {(s, e) for s, e in cand if s in stems and e in self.eomis}
            if known:
                return known
        return None

    def glues(self, stem, eomi):
        if self.chat and stem[-1] in '업닿땋':
            return False
        cho, jung, jong = decompose(stem[-1])
        e = decompose(eomi[0])
        if jong in ('ㄹ', 'ㅂ') and e[0] in ('ㄴ', 'ㄹ', 'ㅁ', 'ㅂ'):
            return False
        return not (jung == 'ㅡ' and jong == ' ' and e[0] == 'ㅇ' and e[1] in ('ㅓ', 'ㅏ'))

    @staticmethod
    def split(word, left, right):
        for i in range(2, len(word)):
            if word[:i] in left and word[i:] in right:
                return word[:i], word[i:]

    def compounds(self, left, kind, todo):
        found = {}
        for word in todo:
            lr = self.split(word, left, self.base[kind])
            if lr:
                known = self.stems['A'] | self.stems['V']
                ls = {(lr[0] + s, e) for s, e in self.base[kind][lr[1]] if self.glues(lr[0] + s, e) and lr[0] + s not in known}
                if ls:
                    found[word] = ls
        if self.chat:
            tot, jaum = Counter(), Counter()
            for w, ls in found.items():
                for s, e in ls:
                    tot[s] += self.eojeols[w]
                    jaum[s] += self.eojeols[w] if e[0] in JAUM else 0
            found = {w: {(s, e) for s, e in ls if jaum[s] / tot[s] < 0.9} for w, ls in found.items()}
            found = {w: ls for w, ls in found.items() if ls}
        wrong = set()
        self.base[kind].update(found)
        if self.chat:
            net = Counter()
            for w, ls in self.base[kind].items():
                for _, e in ls:
                    net[e] += 1 if w in found else -1
            wrong = {e for e, n in net.items() if n > 0}
        self.stems[kind] |= {s for ls in found.values() for s, _ in ls}
        return found, wrong

    def run(self):
        todo = dict(self.eojeols)
        N, J = Counter(), Counter()
        P = {'A': Counter(), 'V': Counter()}
        R = Counter()

        def drop(ws):
            for w in ws:
                todo.pop(w, None)
        # known words
        for tag, known in ((N, self.nouns), (P['A'], self.base['A']), (P['V'], self.base['V']), (R, self.adverbs)):
            for w, c in self.eojeols.items():
                if w in known:
                    tag[w] = c
                    todo.pop(w, None)
        # noun + particle / adjective / verb
        lset = set(N)
        pairs = {}
        for tag, rset in ((J, self.josas), (P['A'], set(P['A'])), (P['V'], set(P['V']))):
            for w, c in todo.items():
                lr = self.split(w, lset, rset)
                if lr:
                    pairs[lr] = c
                    tag[lr[1]] += c
        for (l, _), c in pairs.items():
            N[l] += c
        drop([l + r for l, r in pairs])
        if pairs:
            self.how.add('noun + word')
        # predicate + predicate
        left = set(self.base['A']) | set(self.base['V'])
        wrong = set()
        done = {}
        for kind in 'AV':
            found, bad = self.compounds(left, kind, todo)
            wrong |= bad
            done[kind] = found
        for kind in 'AV':
            for w in done[kind]:
                P[kind][w] += self.eojeols[w]
        drop([w for w in list(todo) if w in P['A'] or w in P['V']])
        self.eomis -= wrong
        if done['A'] or done['V']:
            self.how.add('predicate compound')
        if wrong:
            self.how.add('wrong eomi')
        # lemmatizable
        new = {kind: {w: ls for w, ls in ((w, self.lemmas(w, self.stems[kind])) for w in todo) if ls} for kind in 'AV'}
        for kind in 'AV':
            for w, ls in new[kind].items():
                P[kind][w] += todo[w]
                self.base[kind][w] = ls
        drop(list(new['A']) + list(new['V']))
        if new['A'] or new['V']:
            self.how.add('lemmatized')
        # a noun of one letter
        hit = [w for w in todo if w[1:] in P['A'] or w[1:] in P['V'] or w[1:] in J]
        for w in hit:
            N[w[0]] += todo[w]
            for tag in (P['A'], P['V'], J):
                if w[1:] in tag:
                    tag[w[1:]] += todo[w]
        drop(hit)
        if hit:
            self.how.add('one letter noun')
        drop([w for w in list(todo) if w in self.josas or w in self.eomis or len(w) == 1])
        if not self.chat:
            self.compound_nouns(todo, N, P, J, drop)
        confused = {w: c for w, c in N.items() if w in P['A'] or w in P['V'] or w in R}
        if self.chat:
            for w, c in N.items():
                if len(w) > 2 and any(w[i:] in J or w[i:] in P['A'] or w[i:] in P['V'] for i in range(1, len(w))):
                    confused[w] = c
        if confused:
            self.how.add('confused noun')
        return dict(Noun={w: c for w, c in N.items() if w not in confused}, ConfusedNouns=confused, Josa=self.josas,
                    Adverb=dict(R), Irrecognizable=todo, Adjective=P['A'], Verb=P['V'], Eomi=self.eomis,
                    AdjectiveStem=self.stems['A'], VerbStem=self.stems['V'])

    def compound_nouns(self, todo, N, P, J, drop):
        vocab = {w for w in N if len(w) > 1}
        suffix = set(N) | set(P['A']) | set(P['V']) | set(J)
        found = Counter()
        gone = []
        for w, c in todo.items():
            # longest nouns first, then the leftmost
            taken = [None] * len(w)
            spans = sorted(((i, j) for i in range(len(w)) for j in range(i + 2, len(w) + 1) if w[i:j] in vocab),
                           key=lambda t: (-(t[1] - t[0]), t[0]))
            for i, j in spans:
                if not any(taken[i:j]):
                    taken[i:j] = [(i, j)] * (j - i)
            toks = []
            i = 0
            while i < len(w):
                if taken[i]:
                    toks.append((w[i:taken[i][1]], True))
                    i = taken[i][1]
                else:
                    k = i
                    while k < len(w) and not taken[k]:
                        k += 1
                    toks.append((w[i:k], False))
                    i = k
            if not all(known for _, known in toks[:-1]):
                continue
            if len(toks) >= 3 and toks[-1][0] in suffix:
                if toks[-1][1]:
                    self.unclear.add(w)  # noun + noun + noun: the last one may be taken as a suffix
                name = ''.join(t for t, _ in toks[:-1])
            elif toks[-1][1]:
                name = w
            else:
                continue
            found[name] += c
            gone.append(w)
        if gone:
            self.how.add('compound noun')
        for w, c in found.items():
            N[w] += c
        drop(gone)


KEYS = ['Noun', 'ConfusedNouns', 'Adverb', 'Irrecognizable', 'Eomi', 'AdjectiveStem', 'VerbStem']
STATE = ['nouns', 'adjectives', 'verbs', 'adjective_stems', 'verb_stems', 'eomis', 'josas', 'adverbs', 'eojeols']


def compare(out, ref, want, case):
    for k in KEYS:
        got = out[k]
        w = want[k]
        if k in ('Noun', 'ConfusedNouns') and ref.unclear:
            continue
        assert (dict(got) == dict(w)) if isinstance(w, dict) else set(got) == set(w), (case, k, got, w)
    assert set(out['Josa']) == set(want['Josa']), (case, 'Josa')
    for kind, k in (('A', 'Adjective'), ('V', 'Verb')):
        got = {w: p.frequency for w, p in out[k].items()}
        assert got == dict(want[k]), (case, k, got, want[k])
        for w, p in out[k].items():
            assert set(p.lemma) == ref.base[kind][w], (case, k, w, p, ref.base[kind][w])


def invariants(out, eojeols, case):
    """Holds whatever the way the eojeols are matched."""
    for k in ('Noun', 'ConfusedNouns'):
        for w, c in out[k].items():
            most = sum(n for e, n in eojeols.items() if e.startswith(w))
            assert 0 < c <= most, (case, k, w, c, most)
    for k in ('Adjective', 'Verb'):
        for w, p in out[k].items():
            most = sum(n for e, n in eojeols.items() if e.endswith(w))
            assert 0 < p.frequency <= most and p.lemma, (case, k, w, p, most)
    for k in ('Adverb', 'Irrecognizable'):
        for w, c in out[k].items():
            assert eojeols.get(w) == c, (case, k, w, c)
    tagged = set(out['Adjective']) | set(out['Verb']) | set(out['Adverb'])
    assert not set(out['Noun']) & tagged, (case, set(out['Noun']) & tagged)
    assert not set(out['Noun']) & set(out['ConfusedNouns']), case
    assert not set(out['Irrecognizable']) & (tagged | set(out['Noun']) | set(out['ConfusedNouns'])), case
    for w in set(eojeols) - set(out['Irrecognizable']):
        parts = tagged | set(out['Noun']) | set(out['ConfusedNouns']) | set(out['Josa']) | set(out['Eomi'])
        ok = w in parts or len(w) == 1 or any(w[:i] in parts and w[i:] in parts for i in range(1, len(w)))
        assert ok, (case, w)


PNOUNS = ['나무', '하늘', '고기', '사랑', '달', '나무집', '집', '물', '보고', '은행', '하늘나', '무집', '먹고']
PJOSAS = ['은', '는', '이', '가', '을', '에서', '고', '다', '으로']
# a word form with two splits, a noun that looks like one letter and a particle
TWISTS = [(['나무', '나무에'], ['에서', '서'], '나무에서'), (['하늘', '하늘이', '하늘이나'], ['이나마', '나마', '마'], '하늘이나마'),
          (['사랑', '사랑으'], ['으로', '로'], '사랑으로'), (['꽃에서', '나무'], ['에서'], '나무에서'),
          (['달으로', '하늘'], ['으로', '로'], '하늘으로'), (['집이가', '은행'], ['이가', '가'], '은행가')]
PEOMIS = EOMIS + ['ㄴ', 'ㄹ', 'ㅁ', 'ㅂ니다', '바', 'ㅂ', '므로', '나', '라', '매', '느냐', '리라', '으면', '아', '어', '었']
PVERBS = VERBS + ['굽', '알', '벌', '담그', '따르', '놓', '쌓', '업', '없', '땋']
PADJS = ADJS + ['가늘', '밉', '바쁘', '어둡', '닿', '업']


@st.composite
def pos_state(draw):
    kinds = {}
    words = {'A': {}, 'V': {}}
    for pool, kind in ((PADJS, 'A'), (PVERBS, 'V')):
        for s in draw(st.lists(st.sampled_from(pool), min_size=1, max_size=4, unique=True)):
            kinds.setdefault(kind, []).append(s)
            for e in draw(st.lists(st.sampled_from(PEOMIS), min_size=1, max_size=4, unique=True)):
                for w in inflect(s, e) + [s + e]:
                    if hangul(w) and (w != s + e or e[0] > '가'):
                        words[kind].setdefault(w, []).append((s, e))
    nouns = draw(st.lists(st.sampled_from(PNOUNS), max_size=6, unique=True))
    josas = draw(st.lists(st.sampled_from(PJOSAS), min_size=1, max_size=5, unique=True))
    preds = sorted(set(words['A']) | set(words['V']))
    adverbs = draw(st.lists(st.sampled_from(['매우', '사랑히', '먹고', '하늘', '너무']), max_size=3, unique=True))
    piece = st.one_of(*[st.sampled_from(x) for x in (nouns, josas, preds, adverbs) if x])
    noise = st.sampled_from(['하늘하', '뷁', 'a고', '나', '고고', 'ㅋㅋ', '은', '꽃은', '꽃먹고', '가나다', '면', '나무은행에서', '었다'])
    unseen = [w for w in sum([inflect(s, e) for s in kinds['A'] + kinds['V'] for e in EOMIS[:9]], []) if hangul(w)]
    pn, pp = st.sampled_from(nouns or ['나무']), st.sampled_from(preds or ['먹고'])
    eojeol = st.one_of(piece, piece, noise, st.sampled_from(unseen or ['먹다']),
                       st.tuples(pn, st.one_of(st.sampled_from(josas), pp)).map(''.join),
                       st.tuples(pn, st.one_of(st.sampled_from(josas), pp)).map(''.join),
                       st.tuples(pp, pp).map(''.join), st.tuples(pp, pp).map(''.join),
                       st.tuples(pn, pn).map(''.join), st.tuples(pn, pn, piece).map(''.join),
                       st.tuples(st.sampled_from('꽃달강'), piece).map(''.join),
                       st.lists(piece, min_size=2, max_size=3).map(''.join))
    eojeols = draw(st.lists(st.tuples(eojeol, st.integers(1, 9)), min_size=3, max_size=16))
    if preds and draw(st.integers(0, 2)) == 0:
        right = draw(st.sampled_from(preds))
        eojeols += [(l + right, draw(st.integers(1, 9))) for l in draw(st.lists(st.sampled_from(preds), min_size=2, max_size=6, unique=True))]
    for ns, js, w in draw(st.lists(st.sampled_from(TWISTS), max_size=2)):
        nouns, josas = sorted(set(nouns + ns)), sorted(set(josas + js))
        eojeols += [(w, draw(st.integers(1, 9)))] + [(n, 1) for n in ns] * draw(st.integers(0, 1))
    for w in preds + nouns:
        if draw(st.integers(0, 3)):
            eojeols.append((w, draw(st.integers(1, 5))))
    eomis = sorted({e for k in 'AV' for ls in words[k].values() for _, e in ls} |
                   draw(st.sets(st.sampled_from(EOMIS), max_size=6)))
    both = draw(st.sets(st.sampled_from(preds), max_size=2)) if preds else set()
    return dict(nouns=nouns, josas=josas, adverbs=adverbs, eomis=eomis, eojeols=eojeols,
                A=sorted((w, ls) for w, ls in words['A'].items()),
                V=sorted([(w, ls) for w, ls in words['V'].items()] + [(w, words['A'][w]) for w in both
                                                                      if w in words['A'] and w not in words['V']]),
                astems=sorted(set(kinds['A'])), vstems=sorted(set(kinds['V'])),
                chat=draw(st.booleans()), verbose=draw(st.integers(0, 5)) == 0)


@sub('C27', 'patterns', pos_state(), quick=1500, thorough=60000,
     rule='the tags, counts, lemmas, new stems and endings equal the reference; every recognized eojeol is covered by '
          'the words that are reported, frequencies never exceed those of the eojeols')
def patterns(case):
    x = (ChatPOSExtractor if case['chat'] else NewsPOSExtractor)(verbose=case['verbose'])
    eoj = Counter()
    for w, c in case['eojeols']:
        eoj[w] += c
    state = dict(nouns={w: 1 for w in case['nouns']},
                 adjectives={w: Predicator(1, set(map(tuple, ls))) for w, ls in case['A']},
                 verbs={w: Predicator(1, set(map(tuple, ls))) for w, ls in case['V']},
                 adjective_stems=set(case['astems']), verb_stems=set(case['vstems']), eomis=set(case['eomis']),
                 josas=set(case['josas']), adverbs=set(case['adverbs']), eojeols=dict(eoj))
    ref = PosRef(state, case['chat'])
    want = ref.run()
    for k, v in state.items():
        setattr(x, k, v)
    with contextlib.redirect_stdout(io.StringIO()):
        out = x.extract()
    compare(out, ref, want, case)
    invariants(out, eoj, case)
    return sorted(ref.how) or None


@st.composite
def pos_corpus(draw):
    c = draw(predicate_corpus())
    extra = draw(st.lists(st.tuples(st.tuples(st.sampled_from(PNOUNS), st.sampled_from(PJOSAS + ['', '하고', '이다', '먹고', '예쁘다']))
                                    .map(''.join), st.integers(1, 6)), max_size=14))
    for n in draw(st.lists(st.sampled_from(PNOUNS), max_size=4, unique=True)):
        extra += [(n + j, draw(st.integers(1, 6))) for j in ('', '은', '을', '이', '에서', draw(st.sampled_from(['하고', '이다', '먹고'])))]
    forms = [w for w, _ in c['eojeols']]
    extra += [(draw(st.sampled_from(forms)) + draw(st.sampled_from(forms)), 2) for _ in range(draw(st.integers(0, 5)))]
    c = dict(c, eojeols=c['eojeols'] + extra)
    return dict(c=c, chat=draw(st.booleans()), efreq=draw(st.sampled_from([1, 1, 1, 2])), width=draw(st.integers(1, 3)),
                nfreq=draw(st.sampled_from([1, 1, 3])), pfreq=draw(st.sampled_from([1, 1, 3])),
                score=draw(st.sampled_from([0.3, 0.3, 0.7])), nfeat=draw(st.sampled_from([1, 1, 2])),
                maxeoj=draw(st.sampled_from([30, 3])), efeat=draw(st.sampled_from([5, 1])),
                escore=draw(st.sampled_from([0.3, 0.9])), eofreq=draw(st.sampled_from([1, 20])),
                verbose=draw(st.integers(0, 5)) == 0, normalized=draw(st.booleans()), eomi=draw(st.booleans()))


@sub('C27', 'whole', pos_corpus(), quick=90, thorough=2500,
     rule='nouns and predicates come from the noun and predicate extractors with the given parameters, the tags equal the '
          'reference, one call equals two and the order of the sentences does not matter')
def whole(case):
    cls = ChatPOSExtractor if case['chat'] else NewsPOSExtractor
    c = case['c']
    sents = expand(c['eojeols'], case['width'])
    kw = dict(min_num_of_noun_features=case['nfeat'], max_frequency_when_noun_is_eojeol=case['maxeoj'],
              min_noun_score=case['score'], min_noun_frequency=case['nfreq'], min_eojeol_frequency=case['efreq'],
              min_predicator_frequency=case['pfreq'], min_num_of_eomi_features=case['efeat'],
              min_eomi_score=case['escore'], min_eomi_frequency=case['eofreq'])
    with contextlib.redirect_stdout(io.StringIO()):
        x = cls(case['verbose'], case['normalized'], case['eomi'])
        x.train(sents, **kw)
        state = {k: (dict if isinstance(getattr(x, k), dict) else set)(getattr(x, k)) for k in STATE}
        ref = PosRef(state, case['chat'])
        want = ref.run()
        out = x.extract()
        again = cls(case['verbose'], case['normalized'], case['eomi']).train_extract(
            expand(c['eojeols'], case['width'] + 1, 3), **kw)
        n = LRNounExtractor_v2(extract_pos_feature=False, extract_determiner=False, extract_compound=False,
                               ensure_normalized=case['normalized'], verbose=False, min_num_of_features=case['nfeat'],
                               max_frequency_when_noun_is_eojeol=case['maxeoj'])
        n.train(sents, case['efreq'])
        nouns = n.extract(case['score'], case['nfreq'])
        p = PredicatorExtractor(nouns, set(n._pos_features) | set(n._common_features), extract_eomi=case['eomi'], verbose=False)
        A, V = p.train_extract(sents, case['efreq'], 100000, None, case['pfreq'], True, case['efeat'], case['escore'],
                               case['eofreq'])
    compare(out, ref, want, case)
    invariants(out, state['eojeols'], case)
    same_nouns(state['nouns'], nouns, case)
    for got, exp in ((state['adjectives'], A), (state['verbs'], V)):
        assert {w: (q.frequency, set(q.lemma)) for w, q in got.items()} == \
            {w: (q.frequency, set(q.lemma)) for w, q in exp.items()}, (case, got, exp)
    toks = Counter(t for s in sents for t in (s if case['normalized'] else normalize_sent_for_lrgraph(s)).split())
    for w, k in toks.items():
        if hangul(w) and k >= case['efreq'] and len(w) <= 10:
            assert state['eojeols'].get(w) == k, (case, w)
    adv = load_default_adverbs() | stem_to_adverb(p._adjective_stems) | stem_to_adverb(p._verb_stems)
    assert state['adverbs'] == adv, case
    for k in KEYS:
        if not ref.unclear:
            a, b = out[k], again[k]
            assert (dict(a) == dict(b)) if isinstance(a, dict) else set(a) == set(b), (case, k, a, b)
    for k in ('Adjective', 'Verb'):
        assert {w: (q.frequency, set(q.lemma)) for w, q in out[k].items()} == \
            {w: (q.frequency, set(q.lemma)) for w, q in again[k].items()}, (case, k)
    return sorted(ref.how) or None


ADV = st.fixed_dictionaries(dict(
    stems=st.lists(st.text('하가나다히', min_size=1, max_size=4), max_size=6),
    suffixs=st.sampled_from([None, '히', '히게', ['히', '하게']]),
    lines=st.lists(st.tuples(st.text('가나다', min_size=1, max_size=3), st.sampled_from(['', ' 3', '\t7', ' '])), max_size=6)))


@sub('C27', 'adverbs', ADV, quick=300, thorough=3000,
     rule='stems ending in 하 give adverbs, a dictionary file gives its first column')
def adverbs(case):
    suf = case['suffixs'] or ['히']
    want = {s[:-1] + x for s in case['stems'] for x in suf if s[-1] == '하'}
    assert stem_to_adverb(case['stems'], case['suffixs']) == want, case
    for s in case['stems'][:1]:
        assert stem_to_adverb(s) == ({s[:-1] + '히'} if s.endswith('하') else set()), case
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'adv.txt')
        with open(path, 'w', encoding='utf-8') as f:
            f.write(''.join(w + t + '\n' for w, t in case['lines']))
        assert load_default_adverbs(path) == {w for w, _ in case['lines']}, case
    return 'adverbs' if want else None


def small_stems(self, *args, **kw):
    return set(ADJS), set(VERBS)


def small_eomis(self, *args, **kw):
    return set(EOMIS)


@contextlib.contextmanager
def small_dictionaries():
    """The default dictionaries make one extraction last about 40 s."""
    saved = {}
    for name, f in (('_load_default_stems', small_stems), ('_load_default_eomis', small_eomis)):
        if name in vars(PredicatorExtractor):
            saved[name] = vars(PredicatorExtractor)[name]
            setattr(PredicatorExtractor, name, f)
    try:
        yield len(saved) == 2
    finally:
        for name, f in saved.items():
            setattr(PredicatorExtractor, name, f)


SKIPPED = []


@sub('C27', 'two_extractors', st.fixed_dictionaries(dict(c=pos_corpus(), times=st.integers(4, 12), verbose=st.booleans())),
     quick=60, thorough=1500,
     rule='POSExtractor gives the nouns and predicators (at least ten times seen) of the noun and predicate extractors')
def two_extractors(case):
    c = case['c']['c']
    sents = expand([(w, k * case['times']) for w, k in c['eojeols']], case['c']['width'])
    with small_dictionaries() as fast, contextlib.redirect_stdout(io.StringIO()):
        if not fast:
            if SKIPPED:
                return None
            SKIPPED.append(1)
        nouns, preds = POSExtractor(verbose=case['verbose']).extract(sents)
        n = LRNounExtractor_v2(10, 8, verbose=False, min_num_of_features=2, max_frequency_when_noun_is_eojeol=15,
                               extract_compound=False, extract_pos_feature=True)
        n.train(sents, 2)
        want = n.extract(0.4, 10, reset_lrgraph=False)
        same_nouns(nouns, want, case)
        p = PredicatorExtractor(want, extract_eomi=True, extract_stem=True, verbose=False)
        p.train(LRGraph({l: dict(r) for l, r in n.lrgraph._lr.items()}), min_eojeol_frequency=2,
                min_num_of_features=5, min_eomi_score=0.3, min_eomi_frequency=1, min_num_of_unique_R_char=10,
                min_entropy_of_R_char=0.5, min_entropy_of_R=1.5, min_stem_score=0.7, min_stem_frequency=100)
        wantp = p.extract(None, 10)
    for got, exp in zip(preds, wantp):
        assert {w: (q.frequency, set(q.lemma)) for w, q in got.items()} == \
            {w: (q.frequency, set(q.lemma)) for w, q in exp.items()}, (case, got, exp)
    for w, s in nouns.items():
        assert s.frequency >= 10 and s.score >= 0.4, (case, w, s)
    for d in preds:
        for w, q in d.items():
            assert q.frequency >= 10, (case, w, q)
    return [l for l, on in (('nouns', nouns), ('predicates', any(preds))) if on]
