"""The checks of single components on large inputs: long words and texts, many words, sentences, documents, neighbours, repetitions.

The oracles are those of the other modules; the inputs are expanded from a generated seed and generated sizes."""
import random

from hypothesis import strategies as st

import c_hangle
import c_lemma
import c_noun
import c_pos
import c_postagger
import c_predicator
import c_tokenizer
import c_utils
import c_vector
import c_word
from core import sub
from large import CORPUS, RULE, WIDE, big, case_of, corpus, family, letters, size, word

# ------------------------------------------------------------------ strings
def near_strings(rnd, n, k, cut, mark):
    """Strings with long common parts: shifted, turned around, edited at some places."""
    alpha = letters(rnd, k) + (list('aㄱ!') if mark else [])
    a = word(rnd, alpha, n, n)
    out = [a]
    for _ in range(2):
        i, b = rnd.randint(0, n), list(a)
        b = rnd.choice([b[i:] + b[:i], b[i:], word(rnd, alpha, 1, cut) + a, [rnd.choice(alpha) if rnd.random() < 0.1 else c for c in b], b[:i] + b[i + cut:], list(word(rnd, alpha, 1, n))])
        out.append(''.join(b))
    rnd.shuffle(out)
    return out


STRINGS = dict(n=size(10, 30, 45), k=size(2, 6, 30), cut=size(3, 25), mark=st.booleans())


@sub('C03', 'long_strings', st.tuples(big(near_strings, **STRINGS), st.booleans(), st.lists(st.tuples(st.integers(0, 44), st.integers(0, 44), st.sampled_from([0, 0.125, 0.5, 1.5, 3])), max_size=30)),
     quick=250, thorough=5000, rule=RULE + 'the distances of strings of up to 70 letters, with tables of up to 30 prices')
def long_strings(case):
    (a, b, c), flag, prices = case
    c_hangle.lev((a, b, c, flag))
    c_hangle.lev_cost((a, b, {(a[i % len(a)], b[j % len(b)]): x for i, j, x in prices if a and b}))
    c_hangle.jamo((a[:30], b[:30], c[:30]))
    c_hangle.cosjac((a * 12, b * 9 + c, flag))
    return 'long' if max(map(len, (a, b))) > 20 and a != b else None


def runs_text(rnd, runs, longest, k):
    """Mixed text with runs of up to several hundred of the same letter."""
    pool = letters(rnd, k) + list('ㅋㅋㅎㅜㅠ쿠아앜하aZ09.,!?()- \t\n漢😀')
    return ''.join(rnd.choice(pool) * (rnd.randint(1, longest) if rnd.random() < 0.2 else rnd.randint(1, 3)) for _ in range(runs))


TEXT = big(runs_text, runs=size(5, 60, 300), longest=size(3, 12, 40, 300), k=size(1, 9, 40))


@sub('C02', 'long_texts', TEXT, quick=200, thorough=4000, rule=RULE + 'texts of up to thousands of letters, encoded and decoded')
def long_encoded(s):
    c_hangle.enc_roundtrip(s[:2500])
    return 'long' if len(s) > 100 else None


@sub('C04', 'long_texts', st.tuples(TEXT, st.integers(0, 2 ** 12), st.one_of(st.integers(0, 6), st.sampled_from([10, 33, 120]))), quick=300, thorough=6000,
     rule=RULE + 'every normalizer on texts of up to thousands of letters with runs of up to 300 of the same')
def long_normalized(case):
    s, bits, n = case
    f = [bool(bits >> i & 1) for i in range(6)]
    c_hangle.only_filters(s)
    c_hangle.normalize_flags((s, f[0], f[1], f[2], f[3], n))
    c_hangle.repeat_normalize((s, n))
    c_hangle.emoticon_lossless(s)
    c_hangle.emoticon_reference((s, n))
    c_hangle.lrgraph_sentence(s)
    c_hangle.token_normalize((s[:400], min(n, 6)))
    return 'long' if len(s) > 100 else None


# ------------------------------------------------------------------ tokenizers
def scored_text(rnd, words, longest, k, entries, most):
    """A text of long words and a table of pieces of them of up to most letters."""
    alpha = letters(rnd, k)
    ws = [word(rnd, alpha, 1, longest) for _ in range(words)]
    table = {}
    for _ in range(entries):
        w = rnd.choice(ws)
        b = rnd.choice([0, rnd.randrange(len(w))])
        table[w[b:b + rnd.randint(1, most)]] = rnd.randint(-8, 16) / 8
    return ' '.join(ws), table


TABLED = dict(words=size(1, 3, 30), longest=size(5, 30, 60), k=size(2, 5, 40), entries=size(5, 40, 300), most=size(3, 8, 40))


@sub('C05', 'long_texts', st.tuples(big(scored_text, **TABLED), st.sampled_from([0.0, 0.25]), st.sampled_from([0.0, 0.125]), size(3, 10, 45), TEXT),
     quick=150, thorough=3000, rule=RULE + 'words of up to 60 letters and 30 words, tables of up to 300 words of up to 40 letters')
def long_lossless(case):
    (sent, table), ds, tol, ml, text = case
    c_tokenizer.l_lossless(((sent, table), ds, tol))
    c_tokenizer.ms_lossless((sent, table, ds, max(2, ml)))
    pos = {w: max(0, s) for w, s in table.items()}
    c_tokenizer.lr_lossless(dict(sent=' '.join(w[:25] for w in sent.split()), dl=dict(pos), dr={w: s for w, s in pos.items() if len(w) < 5}, pl={}, pr={}))
    c_tokenizer.regex_lossless(text[:1500])
    c_tokenizer.regex_reference(text[:1500])
    return 'long' if max(map(len, sent.split())) > 12 else None


@sub('C06', 'long_texts', st.tuples(big(scored_text, **TABLED), st.sampled_from([0.0, 0.25]), st.sampled_from([0.0, 0.125, 1.0]), size(3, 10, 45)),
     quick=300, thorough=6000, rule=RULE + 'the choices in words of up to 60 letters with tables of up to 300 words of up to 40 letters')
def long_choice(case):
    (sent, table), ds, tol, ml = case
    c_tokenizer.l_best(((sent, table), ds, tol))
    c_tokenizer.ms_greedy(((sent, table), ds, max(2, ml)))
    pos = {w: abs(s) / 2 for w, s in table.items()}
    short = ' '.join(w[:18] for w in sent.split()[:4])
    c_tokenizer.maxlr_choice(dict(sent=short, dl=dict(pos), dr={w: s for w, s in pos.items() if len(w) < 5}, pl={}, pr={}, limits=None))
    c_tokenizer.word_locality((sent.split(), table, {w: s for w, s in list(pos.items())[:9] if s}, {w: s for w, s in pos.items() if len(w) < 4 and s}))
    return 'long' if max(map(len, sent.split())) > 12 else None


@sub('C07', 'long_texts', big(scored_text, **TABLED), quick=300, thorough=6000, rule=RULE + 'words of up to 60 letters, up to 300 nouns of up to 40 letters')
def long_nouns(case):
    sent, table = case
    c_tokenizer.prefix_match((sent, set(table)))
    c_tokenizer.noun_match((sent, {w: abs(s) + 0.125 for w, s in table.items()}))
    return 'long' if max(map(len, sent.split())) > 12 else None


@sub('C08', 'large_corpus', case_of(corpus, CORPUS, ml=size(3, 10, 18), mr=size(3, 9, 17), mf=size(1, 4, 30)), quick=250, thorough=5000,
     rule=RULE + 'corpora of up to 250 sentences of up to 40 words of up to 16 letters')
def large_patterns(case):
    c_tokenizer.graph_counts(case)
    c_tokenizer.save_load(case)
    c_tokenizer.verbose_same(case)
    return 'large' if len(case['sents']) > 20 else None


# ------------------------------------------------------------------ files, counters, graphs
def lines_of(rnd, lines, width, blank):
    out = []
    for _ in range(lines):
        n = 0 if rnd.random() < blank else rnd.randint(1, width)
        out.append(''.join('문장%d 나' % rnd.randint(0, 999) + ' ' * rnd.choice([2, 2, 3, 4]) for _ in range(n)))
    return out


@sub('C09', 'large_file', st.fixed_dictionaries(dict(lines=big(lines_of, lines=size(2, 40, 400), width=size(2, 30, 150), blank=st.sampled_from([0.0, 0.2])),
                                                     eol=st.sampled_from(['\n', '\r\n']), last=st.booleans(), num_doc=st.one_of(st.just(-1), size(5, 100, 500)), num_sent=st.one_of(st.just(-1), size(5, 100, 5000)),
                                                     iter_sent=st.booleans(), skip=size(1, 5, 50).map(lambda n: n - 1), ops=st.lists(st.sampled_from(['len', 'iter', 'toggle', 'partial']), max_size=6))),
     quick=300, thorough=6000, rule=RULE + 'files of up to 400 lines of up to 150 sentences, limits of up to 5000')
def large_file(case):
    c_utils.corpus_reader(case)
    return 'large' if sum(map(len, case['lines'])) > 400 else None


COUNTED = case_of(corpus, WIDE, min_count=size(1, 3, 40), max_length=size(3, 15, 40), checkpoint=size(1, 30, 200).map(lambda n: n - 1), pre=st.sampled_from(['none', 'strip가']))


@sub('C10', 'large_corpus', st.tuples(COUNTED, st.lists(st.one_of(st.tuples(st.just('remove'), st.just([]), size(1, 20, 60)), st.tuples(st.just('uncovered'), size(1, 9, 90)),
                                                                  st.tuples(st.just('reload'), st.sampled_from([None, 2]))), max_size=5), size(2, 8, 20), size(2, 8, 20), st.booleans()),
     quick=300, thorough=6000, rule=RULE + 'corpora of up to 700 sentences, counts in the hundreds, words of up to 16 letters')
def large_counts(case):
    c, ops, lm, rm, one = case
    c_utils.counts(c)
    c_utils.coverage_history((c, ops))
    c_utils.to_graph((c, max(2, lm), rm, one))
    return 'large' if len(c['sents']) > 20 else None


@sub('C11', 'large_graph', st.tuples(case_of(corpus, CORPUS, kind=st.sampled_from(['sents', 'dict', 'defaultdict']), lm=size(3, 10, 20).map(lambda n: max(2, n)), rm=size(3, 9, 20)),
                                     st.lists(st.one_of(st.tuples(st.just('add_word'), c_utils.LRWL, st.integers(1, 300)), st.tuples(st.just('del_word'), st.integers(0, 99), st.integers(1, 300)),
                                                        st.tuples(st.just('del_pair'), st.integers(0, 99), st.integers(0, 99), st.integers(1, 300)), st.tuples(st.just('reset')), st.tuples(st.just('reload')),
                                                        st.tuples(st.just('copy')), st.tuples(st.just('top'), st.integers(0, 99), st.sampled_from([1, 11, 40, 100]))), max_size=4)),
     quick=250, thorough=5000, rule=RULE + 'graphs of up to hundreds of words, left parts with up to 90 right parts, parts of up to 20 letters')
def large_graph(case):
    c_utils.lr_history(case)
    return 'large' if len(case[0]['sents']) > 20 else None


@sub('C12', 'large_matrix', st.tuples(big(lambda rnd, n, d, zero: [[0 if rnd.random() < zero else rnd.randint(-3, 9) for _ in range(d)] for _ in range(n)],
                                          n=size(20, 120, 400), d=size(3, 20, 60), zero=st.sampled_from([0.1, 0.6, 0.95])), st.one_of(st.just(-1), size(10, 50, 300)), size(1, 20, 400), st.booleans(), st.integers(0, 99)),
     quick=250, thorough=5000, rule=RULE + 'up to 400 items of up to 60 dimensions; files of up to 400 lines')
def large_matrix(case):
    rows, topk, q, sparse, n = case
    c_utils.similar((rows, topk, q - 1, sparse))
    c_utils.sort_file(['나%d 다' % (i * n % 389) for i in range(len(rows))])
    return 'large' if len(rows) > 20 else None


# ------------------------------------------------------------------ words
LIMITS = dict(ml=size(2, 6, 12), mr=size(2, 6, 12), mf=size(1, 4, 20))
SCORED = dict(CORPUS, sents=size(3, 30, 100), width=size(1, 6, 25), longest=size(3, 6, 10))


@sub('C13', 'large_corpus', case_of(corpus, SCORED, verbose=st.sampled_from([0, 1, 50]), **LIMITS), quick=250, thorough=5000,
     rule=RULE + 'hundreds of words with up to 90 neighbours each, sentences of up to 25 words')
def large_statistics(case):
    c_word.bulk_scores(case)
    return 'large' if len(case['sents']) > 10 else None


LARGER = dict(c_word.THRESH, min_left_accessor_variety=st.sampled_from([0, 0, 2, 20, 60]), min_right_accessor_variety=st.sampled_from([0, 0, 2, 20, 60]),
              min_left_branching_entropy=st.sampled_from([0.0, 0.5, 3.0]), min_right_branching_entropy=st.sampled_from([0.0, 0.5, 3.0, 4.2]))


@sub('C14', 'large_corpus', st.tuples(case_of(corpus, dict(SCORED, sents=size(3, 60, 300), width=size(1, 3, 6)), th=st.fixed_dictionaries(LARGER), **LIMITS), st.integers(1, 250), st.booleans()), quick=150, thorough=3000,
     rule=RULE + 'selection, repeated training and pruning with up to 300 sentences and thresholds up to 60')
def large_extraction(case):
    c, every, cumulate = case
    c_word.selection(c)
    half = len(c['sents']) // 2 or 1
    c_word.history(dict(c, steps=[('train', c['sents'][:half], True), ('reload',), ('train', c['sents'][half:] or ['가나'], cumulate)]))
    c_word.pruning_bounds((c, every))
    return 'large' if len(c['sents']) > 10 else None


def matrix(rnd, n, m, cells, most):
    return (n, m), [(rnd.randrange(n), rnd.randrange(m), rnd.choice([0, 1, 1, rnd.randint(1, most)])) for _ in range(cells)] + [(0, 0, 1)], ([rnd.randint(1, 9) for _ in range(m)], rnd.choice([1, 0.3]))


@sub('C15', 'large_matrix', st.fixed_dictionaries(dict(m=big(matrix, n=size(5, 40, 150), m=size(5, 40, 150), cells=size(20, 200, 900), most=size(3, 300, 10 ** 6)), use_py=st.booleans(),
                                                       min_pmi=st.sampled_from([0, 0.7, 3.3, -2.0]), alpha=st.sampled_from([0.0, 0.01]), beta=st.sampled_from([1, 0.75]), float=st.booleans())),
     quick=250, thorough=5000, rule=RULE + 'matrices of up to 150 x 150 with up to 900 cells and counts of up to a million')
def large_pmi(case):
    c_word.pmi_check(case)
    c_word.pmi_low_memory(case)
    return 'large' if case['m'][0][0] > 10 else None


@sub('C16', 'large_corpus', case_of(corpus, CORPUS, mf=size(1, 4, 30), cp=size(1, 60, 1000).map(lambda n: n - 1), score=st.sampled_from(['frequency', 'pmi', 'mikolov']), topk=st.one_of(st.just(-1), size(10, 120, 600)),
                                    th=st.sampled_from([0, 0.01, 1, 20, 200]), verbose=st.booleans(), chars=st.booleans(), ctor=st.booleans()), quick=300, thorough=6000,
     rule=RULE + 'hundreds of pairs in up to 250 sentences of up to 40 words, the first 600')
def large_pairs(case):
    c_word.bigram(case)
    return 'large' if len(case['sents']) > 20 else None


# ------------------------------------------------------------------ documents
@sub('C17', 'large_corpus', st.fixed_dictionaries(dict(docs=corpus(WIDE), more=corpus(WIDE), tok=st.sampled_from(['split', 'split', 'chars', 'pairs']), min_tf=size(1, 3, 40), max_tf=st.sampled_from([99999999, 50, 300]),
                                                       min_df=st.sampled_from([0, 0, 0.01, 0.05, 0.3]), max_df=st.sampled_from([1.0, 1.0, 0.7, 0.1]), stop=st.just(None), lower=st.booleans(), verbose=st.booleans())),
     quick=150, thorough=3000, rule=RULE + 'up to 700 documents, vocabularies of up to hundreds of terms')
def large_documents(case):
    c_vector.fit_transform(case)
    c_vector.matrix_file(case)
    c_vector.encode_decode(case)
    return 'large' if len(case['docs']) > 20 else None


@sub('C18', 'large_corpus', case_of(corpus, dict(CORPUS, vocab=size(5, 30, 60), sents=size(3, 20, 150), width=size(2, 10, 30)), windows=size(2, 8, 30), min_tf=size(1, 4, 30), dyn=st.booleans(), verbose=st.booleans(), chars=st.booleans()),
     quick=250, thorough=5000, rule=RULE + 'up to 150 sentences of up to 30 words, windows of up to 30')
def large_contexts(case):
    c_vector.context_counts(case)
    return 'large' if len(case['sents']) > 10 else None


# ------------------------------------------------------------------ tags
def tables(rnd, words, longest, k, sent):
    alpha = letters(rnd, k) + ['!']
    pd = {t: [word(rnd, alpha[:-1], 1, longest) for _ in range(rnd.randint(1, words))] for t in c_postagger.TAGS[:6]}
    pool = [w for ws in pd.values() for w in ws]
    text = ' '.join(''.join(rnd.choice([rnd.choice(pool), word(rnd, alpha, 1, 3)]) for _ in range(rnd.randint(1, 4)))[:24] for _ in range(sent))
    return dict(pd=pd, sent=text, pref={'Noun': {rnd.choice(pool): 0.5}}, weights=None, templates=None, ltags=None, single=None, lr=None)


@sub('C19', 'large_tables', st.tuples(big(lambda rnd, n, k: {t: [word(rnd, letters(rnd, k), 1, 40) for _ in range(rnd.randint(0, n))] for t in c_postagger.TAGS}, n=size(10, 100, 500), k=size(2, 40)), c_postagger.OPS),
     quick=60, thorough=1200, rule=RULE + 'up to 500 words of up to 40 letters under a tag')
def large_tables(case):
    c_postagger.dictionary_history(case)
    return 'large' if sum(map(len, case[0].values())) > 30 else None


@sub('C20', 'large_tables', big(tables, words=size(3, 20, 100), longest=size(3, 6, 12), k=size(2, 5, 30), sent=size(2, 12, 60, 200)), quick=200, thorough=4000,
     rule=RULE + 'sentences of up to 200 words, up to 100 words under a tag, words of up to 24 letters')
def large_tagging(case):
    c_postagger.lr_candidates(case)
    c_postagger.lr_tagging(case)
    return 'large' if len(case['sent'].split()) > 5 else None


# ------------------------------------------------------------------ nouns and predicates
def more_nouns(rnd, case, nouns, width, most):
    """Many more nouns with the right parts of the case, with counts in the hundreds."""
    rs = sorted(case['coef']) if 'coef' in case else sorted(set(case['pos']) | set(case['neg'])) or ['은']
    heads = family(rnd, nouns, letters(rnd, 12), 4)
    extra = [(h + r, rnd.choice([1, 2, 9, rnd.randint(1, most)])) for h in heads for r in rnd.sample(rs, rnd.randint(1, len(rs))) + ['']]
    extra += [(rnd.choice(heads) + rnd.choice(heads) + rnd.choice(rs), rnd.randint(1, 9)) for _ in range(nouns // 3)]
    head = heads[0]
    extra += [(head + chr(0xAC00 + 131 * i) + '뷁'[:i % 2], 1 + i % 3) for i in range(width)]
    return dict(case, eojeols=case['eojeols'] + extra)


NOUNS = st.tuples(st.integers(0, 10 ** 6), size(5, 15, 40), size(3, 30, 80), size(9, 60, 200))


@sub('C23', 'large_corpus', st.tuples(c_noun.v1_case(), NOUNS).map(lambda t: more_nouns(random.Random(t[1][0]), t[0], *t[1][1:])), quick=80, thorough=1600,
     rule=RULE + 'up to 40 more nouns, counts of up to 200, a noun with up to 80 right parts')
def large_nouns_v1(case):
    c_noun.v1_predict(case)
    c_noun.v1_extract(case)
    return 'large'


class Compounds:
    """Long words made of many nouns, some with an unknown part or a right part."""

    def __init__(self, seed, rs):
        self.seed, self.rs = seed, rs

    def __call__(self, known):
        rnd = random.Random(self.seed)
        out = []
        for n in (2, 5, 9, 17, 33) if known else ():
            parts = [rnd.choice(known) for _ in range(n)]
            for junk in (0, n // 2, n):
                out += [''.join(parts[:junk]) + '뷁' + ''.join(parts[junk:]), ''.join(parts) + rnd.choice(self.rs + ['', '뷁'])]
        return out

    def __repr__(self):
        return 'Compounds(%d, %r)' % (self.seed, self.rs)


@sub('C24', 'large_corpus', st.tuples(c_noun.v2_case(), NOUNS).map(lambda t: more_nouns(random.Random(t[1][0]), t[0], *t[1][1:])), quick=120, thorough=2400,
     rule=RULE + 'up to 40 more nouns, counts of up to 200, a noun with up to 80 right parts')
def large_nouns_v2(case):
    c_noun.v2_predict(case)
    c_noun.v2_extract(dict(case, texts=Compounds(len(case['eojeols']), sorted(case['pos']))))
    return 'large'


def merged(parts, k):
    """Several corpora of predicates in one, with higher counts."""
    return dict(eojeols=[(w, n * k) for p in parts for w, n in p['eojeols']], stems=sorted({s for p in parts for s in p['stems']}),
                eomis=sorted({e for p in parts for e in p['eomis']}), nouns=sorted({n for p in parts for n in p['nouns']}))


def fanned(case, n, seed):
    """Some endings behind n more left parts: unknown ones, nouns and known stems."""
    rnd = random.Random(seed)
    ends = rnd.sample(case['eomis'], min(3, len(case['eomis'])))
    lefts = [rnd.choice(['뷁', '', '나무', rnd.choice(case['stems'])]) + chr(0xAC00 + 161 * i) for i in range(n)]
    return dict(case, eojeols=case['eojeols'] + [(l + e, 1 + rnd.randint(0, 8)) for l in lefts for e in ends])


MERGED = st.tuples(st.lists(c_predicator.predicate_corpus(), min_size=3, max_size=8), size(1, 3, 40), size(0, 5, 60), st.integers(0, 10 ** 6)).map(lambda t: fanned(merged(*t[:2]), *t[2:]))


@sub('C26', 'large_corpus', st.tuples(MERGED, c_predicator.EOMI_CASE, c_predicator.STEM_CASE), quick=40, thorough=800,
     rule=RULE + 'up to eight corpora in one, counts in the hundreds, endings behind up to 60 more left parts')
def large_predicates(case):
    c, e, s = case
    c_predicator.eomi_extract(dict(e, c=c))
    c_predicator.stem_extract(dict(s, c=c))
    return 'large'


@sub('C27', 'large_corpus', st.tuples(MERGED, c_pos.pos_corpus()).map(lambda t: dict(t[1], c=dict(merged([t[0], t[1]['c']], 1)))), quick=8, thorough=160,
     rule=RULE + 'up to nine corpora in one, counts in the hundreds')
def large_tags(case):
    c_pos.whole(case)
    return 'large'


# ------------------------------------------------------------------ inflection
def around(rnd, before, after, k):
    alpha = letters(rnd, k)
    return word(rnd, alpha, before // 2, before), word(rnd, alpha, after // 2, after)


@sub('C21', 'long_words', st.tuples(c_lemma.STEM, c_lemma.ENDING, big(around, before=size(3, 20, 200), after=size(3, 20, 200), k=size(2, 9, 200)), st.booleans()), quick=600, thorough=12000,
     rule=RULE + 'stems and endings of up to 200 letters')
def long_inflected(case):
    (stem, ending, (before, after), harmony) = case
    inner, outer = (c_lemma.conjugate(a, b, harmony) for a, b in ((stem, ending + '가나'), (before + '하' + stem, ending + '가나' + after)))
    if len(stem) > 1:
        assert outer == {before + '하' + x + after for x in inner}, (case, inner, outer)
    assert {before + '하' + x for x in c_lemma._conjugate_stem(stem)} == c_lemma._conjugate_stem(before + '하' + stem) or len(stem) < 2, case
    c_lemma.conjugate_any_text((before + stem, ending + after, harmony))
    return 'long' if len(before) + len(after) > 20 else None


def dictionaries(rnd, stems, endings, longest, tails):
    """Dictionaries with families of stems and endings that share beginnings and ends."""
    heads = family(rnd, stems, letters(rnd, 12), longest)
    return ([h + rnd.choice(['가', '하', '르', '돕', '걷', '짓', '파랗', '오', '먹', '쓰', '푸르']) for h in heads],
            [rnd.choice(['고', '아', '어', '았', '었', 'ㄴ', 'ㄹ', '은', '면', '으면', '니', '여', '러']) + t for t in family(rnd, endings, letters(rnd, 4), tails)])


@sub('C22', 'large_dictionaries', st.tuples(big(dictionaries, stems=size(3, 40, 400), endings=size(3, 40, 400), longest=size(2, 5, 20), tails=size(2, 4, 30)), st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=4), st.booleans()),
     quick=400, thorough=8000, rule=RULE + 'dictionaries of up to 400 stems and 400 endings')
def large_dictionaries(case):
    (stems, endings), picks, only = case
    S, E = set(stems), set(endings)
    lem, kept, some = c_lemma.Lemmatizer(S, E), (set(S), set(E)), False
    for k in picks:
        stem, ending = stems[k % len(stems)], endings[k // 7 % len(endings)]
        for w in sorted(c_lemma.conjugate(stem, ending)):
            cands = set().union(*(c_lemma.lemma_candidate(w[:i], w[i:], {}) for i in range(1, len(w) + 1)))
            got = lem.lemmatize(w, check_only_stem=only)
            assert got == {(s, e) for s, e in cands if s in S and (only or e in E)}, (w, got, cands)
            assert got == lem.lemmatize(w, check_only_stem=only), w
            some = some or len(got) > 0
    assert kept == (S, E)
    return 'found' if some else None


# ------------------------------------------------------------------ steps after noun extraction
def noun_table(rnd, n, longest):
    tails = sorted(c_noun.JOSA)[:25] + ['에서', '으로', '은', '장', '까지']
    heads = family(rnd, n, letters(rnd, 6), longest)
    words = heads + [rnd.choice(heads) + rnd.choice(tails) for _ in range(n)] + [rnd.choice(heads) + rnd.choice(tails) + rnd.choice(tails) for _ in range(n // 2)]
    nouns = {w: (rnd.choice([0, 3, rnd.randint(1, 200)]), rnd.randint(0, 8) / 8) for w in words}
    graph = {h: {r: 1 for r in rnd.sample(tails, rnd.randint(0, len(tails)))} for h in heads}
    return nouns, graph, rnd.sample(tails, rnd.randint(1, len(tails))) + rnd.sample(heads, min(2, len(heads)))


@sub('C25', 'large_tables', st.tuples(big(noun_table, n=size(3, 40, 250), longest=size(2, 4, 9)), st.booleans(), st.sampled_from([1, 2, 3, 5, 9])), quick=300, thorough=6000,
     rule=RULE + 'tables of up to hundreds of nouns')
def large_post(case):
    (nouns, graph, feats), log, k = case
    c_noun.post_nj((nouns, graph, k))
    return c_noun.post_rules((nouns, feats, log)) and 'large'


def joined(cases):
    """Several news corpora in one; the settings are those of the first."""
    return dict(cases[0], eojeols=[e for c in cases for e in c['eojeols']], nouns=sorted({n for c in cases for n in c['nouns']}),
                base=None if cases[0]['base'] is None else cases[0]['base'])


@sub('C25', 'large_corpus', st.tuples(st.lists(c_noun.news_case(), min_size=2, max_size=6).map(joined), st.lists(c_noun.domain_case(), min_size=2, max_size=6)), quick=60, thorough=1200,
     rule=RULE + 'up to six corpora in one')
def large_news(case):
    news, domains = case
    merged_domain = dict(domains[0], eojeols=[e for d in domains for e in d['eojeols']], scores={w: s for d in domains for w, s in d['scores'].items()})
    c_noun.domain_features(merged_domain)
    c_noun.news_extract(news)
    return 'large' if c_noun.news_rules(news) else None
