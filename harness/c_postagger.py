"""C19 part-of-speech dictionary, C20 dictionary-based tagging."""
import json
import os

from hypothesis import strategies as st

from core import sub, describe, scratch
import gen
from soynlp.postagger import (Dictionary, EojeolTemplateMatcher, LREvaluator, LRTemplateMatcher,
                              SimpleEojeolEvaluator, SimpleTagger, UnknowLRPostprocessor, BasePostprocessor)

TAGS = ['Noun', 'Verb', 'Josa', 'Adjective', 'Adverb', 'Exclamation', '명사']
W = st.one_of(gen.word('가나다', 1, 4), gen.word('가나다', 1, 4), gen.word('가나다', 1, 4), gen.word('가나', 8, 16))
PD = st.dictionaries(st.sampled_from(TAGS), st.lists(W, max_size=5), max_size=5)

describe('C19', 'Histories of up to 14 operations (add words with or without force, given as string, list or set; remove '
         'words or a tag; save and load; queries) from a generated dictionary. Non-trivial: the dictionary changed after construction.')

OPS = st.lists(st.one_of(
    st.tuples(st.just('add'), st.sampled_from(TAGS), st.lists(W, max_size=4), st.booleans(), st.sampled_from(['str', 'list', 'set', 'shared'])),
    st.tuples(st.just('remove'), st.sampled_from(TAGS), st.lists(W, max_size=4), st.sampled_from(['str', 'list', 'set'])),
    st.tuples(st.just('remove_tag'), st.sampled_from(TAGS)),
    st.tuples(st.just('reload')),
    st.tuples(st.just('load_into'), PD),
), min_size=1, max_size=14)


def as_form(words, form, shared):
    if form == 'str':
        return ' '.join(words)
    if form == 'list':
        return list(words)
    if form == 'shared':
        shared.clear()
        shared.update(words)
        return shared
    return set(words)


def same_dictionary(d, model, case, longest=0):
    words = {w for ws in model.values() for w in ws} | {'가', '나다', '가나다라마'}
    for w in words:
        assert sorted(d.get_pos(w)) == sorted(t for t in model if w in model[t]), (case, w, d.get_pos(w), model)
        for t in TAGS + ['none']:
            assert bool(d.word_is_tag(w, t)) == (w in model.get(t, ())), (case, w, t)
    assert set(d.pos_dict) == set(model) and all(set(d.pos_dict[t]) == model[t] for t in model), (case, d.pos_dict, model)
    assert d.max_length >= max((len(w) for ws in model.values() for w in ws), default=0), (case, d.max_length, model)
    assert d.max_length <= longest, (case, d.max_length, 'no word was ever that long')


@sub('C19', 'history', st.tuples(PD, OPS), quick=2500, thorough=50000,
     rule='after every operation each query agrees with a dictionary of sets')
def dictionary_history(case):
    start, ops = case
    model = {t: set(ws) for t, ws in start.items()}
    given = {t: list(ws) for t, ws in start.items()}
    d = Dictionary(given)
    shared = set()
    seen = 0

    def longest():                                              # removals need not lower the reported length
        nonlocal seen
        seen = max([seen] + [len(w) for ws in model.values() for w in ws])
        return seen
    same_dictionary(d, model, case, longest())
    changed = False
    for op in ops:
        before = {t: set(ws) for t, ws in model.items()}
        if op[0] == 'add':
            _, tag, words, force, form = op
            arg = as_form(words, form, shared)
            if tag not in model and not force:
                try:
                    d.add_words(tag, arg)
                except ValueError:
                    pass
                else:
                    raise AssertionError('unknown tag %r accepted without force: %r' % (tag, case))
            else:
                d.add_words(tag, arg, force=force)
                model.setdefault(tag, set()).update(words)
        elif op[0] == 'remove':
            _, tag, words, form = op
            if tag not in model:
                continue
            d.remove_words(tag, as_form(words, form, shared))
            model[tag] -= set(words)
        elif op[0] == 'remove_tag':
            if op[1] not in model:
                try:
                    d.remove_words(op[1])
                except ValueError:
                    continue
                raise AssertionError('removing an unknown tag was accepted')
            d.remove_words(op[1])
            del model[op[1]]
        elif op[0] == 'reload':
            path = os.path.join(scratch(), 'dict.json')
            d.save(path)
            with open(path, encoding='utf-8') as f:
                json.load(f)
            d = Dictionary(path)
        else:
            path = os.path.join(scratch(), 'dict2.json')
            Dictionary({t: list(ws) for t, ws in op[1].items()}).save(path)
            d.load(path)
            model, seen = {t: set(ws) for t, ws in op[1].items()}, 0
        same_dictionary(d, model, case, longest())
        changed |= before != model
    assert given == {t: list(ws) for t, ws in start.items()}, (case, given)
    return 'changed' if changed else None


# ================================================================ C20
describe('C20', 'Dictionaries over a small alphabet with words shared between tags, sentences mixing known and unknown '
         'text, template tables, evaluator weights and word preferences. Non-trivial: a word is split, or known and unknown parts mix.')

def own_words(case):
    """Some preferences are for words of the dictionary, some words of the sentence are long."""
    words = sorted({(t, w) for t, ws in case['pd'].items() for w in ws})
    case = dict(case, pref={t: dict(p) for t, p in case['pref'].items()})
    for i, k in case.pop('prefer'):
        t, w = words[i % len(words)]
        case['pref'].setdefault(t, {})[w] = k / 8
    case['sent'] = case['sent'].replace('@', ''.join(words[i % len(words)][1] for i in case.pop('glue')))
    return case


TAGCASE = st.fixed_dictionaries(dict(
    prefer=st.lists(st.tuples(st.integers(0, 40), st.integers(-8, 24)), max_size=4),
    glue=st.lists(st.integers(0, 40), min_size=1, max_size=8),
    pd=st.fixed_dictionaries({'Noun': st.lists(st.one_of(gen.word('가나다', 1, 3), gen.word('가나다', 2, 5)), min_size=1, max_size=6)},
                             optional={t: st.lists(gen.word('가나다', 1, 3), min_size=1, max_size=6) for t in TAGS[1:6]}),
    sent=st.lists(st.one_of(st.text(alphabet='가나다가나다!', min_size=1, max_size=9), st.text(alphabet='가나다!@', min_size=1, max_size=14),
                          st.sampled_from(['@', '@가', '가@', '다@!', '@나@'])), min_size=1, max_size=4).map(' '.join),
    pref=st.dictionaries(st.sampled_from(['Noun', 'Josa', 'Verb', 'Adverb']),
                         st.dictionaries(gen.word('가나다', 1, 3), st.integers(-8, 24).map(lambda k: k / 8), max_size=3), max_size=2),
    weights=st.one_of(st.none(), st.lists(st.integers(-4, 8).map(lambda k: k / 8), min_size=7, max_size=7)),
    templates=st.sampled_from([None, {'Noun': ('Josa',), 'Verb': ('Noun',)}, {'Noun': ['Noun', 'Josa'], 'Adverb': ('Adverb',)}]),
    ltags=st.sampled_from([None, None, {'Noun', 'Verb'}, {'Noun'}]))).map(own_words)
LRW = ('is_noun_phrase', 'lr_are_known', 'is_verb', 'is_adjective', 'l_len', 'r_len', 'l_is_a_syllable')


def lr_parts(case):
    d = Dictionary({t: set(ws) for t, ws in case['pd'].items()})
    g = LRTemplateMatcher(d, ltags=case['ltags'], templates=case['templates'])
    w = None if case['weights'] is None else tuple(zip(LRW, case['weights']))
    e = LREvaluator(weights=w, preference={t: dict(p) for t, p in case['pref'].items()} or None)
    return d, g, e


def ref_candidates(case, token):
    """Every dictionary word of two letters or more, alone or followed by a dictionary word its tag allows."""
    pd, out = case['pd'], set()
    ltags = case['ltags'] or {'Noun', 'Adjective', 'Verb', 'Adverb', 'Exclamation'}
    templates = case['templates'] or {'Noun': ('Josa', 'Verb', 'Adjective')}
    n = len(token)
    for b in range(n):
        for m in range(b + 2, n + 1):
            for t in ltags:
                if token[b:m] not in pd.get(t, ()):
                    continue
                out.add((token[b:m], t, '', None, b, m, m))
                for e in range(m + 1, n + 1):
                    for rt in templates.get(t, ()):
                        if token[m:e] in pd.get(rt, ()):
                            out.add((token[b:m], t, token[m:e], rt, b, m, e))
    return out


def ref_score(case, c):
    l, lt, r, rt, b, m, e = c
    w = case['weights'] or (0.3, 0.15, 0.2, 0.1, 0.1, 0.1, -0.2)
    feats = (lt == 'Noun', lt is not None and rt is not None, lt == 'Verb', lt == 'Adjective', m - b, e - m, m - b == 1)
    s = sum(x * y for x, y in zip(w, feats))
    return s + case['pref'].get(lt, {}).get(l, 0) + case['pref'].get(rt, {}).get(r, 0)


@sub('C20', 'candidates', TAGCASE, quick=2000, thorough=40000,
     rule='L-R candidates of every word against an exhaustive scan; scores against the weighted features')
def lr_candidates(case):
    d, g, e = lr_parts(case)
    some = False
    for token in case['sent'].split():
        got = g.generate(token)
        want = ref_candidates(case, token)
        assert {tuple(c) for c in got} == want and len(got) == len(want), (case, token, got, want)
        for c in got:
            assert abs(e.evaluate(c) - ref_score(case, tuple(c))) < 1e-9, (case, c, e.evaluate(c))
        some |= len(want) > 1
    return 'several' if some else None


def cut_by(words, parts, case):
    """parts = tagged words of one white-space word; returns the positions."""
    pos, out = 0, []
    for w, t in parts:
        assert w and words[pos:pos + len(w)] == w, (case, words, parts)
        out.append((w, t, pos, pos + len(w)))
        pos += len(w)
    assert pos == len(words), (case, words, parts)
    return out


@sub('C20', 'lr_tagging', TAGCASE, quick=3000, thorough=60000,
     rule='tagged words cover every word of the sentence in order, known ones are in the dictionary under their tag, '
          'and the chosen candidates are the greedy best: each one left out overlaps a chosen one that scores at least as much')
def lr_tagging(case):
    d, g, e = lr_parts(case)
    tagger = SimpleTagger(g, e, UnknowLRPostprocessor())
    nested = tagger.tag(case['sent'], flatten=False)
    flat = tagger.tag(case['sent'])
    words = case['sent'].split()
    assert len(nested) == len(words) and [x for p in nested for x in p] == flat, (case, nested, flat)
    labels = set()
    for token, parts in zip(words, nested):
        spans = cut_by(token, parts, case)
        for w, t, b, en in spans:
            if t is not None:
                assert w in case['pd'][t], (case, w, t)
        cands = ref_candidates(case, token)
        chosen = e.select_best(g.generate(token))
        ct = [tuple(c) for c in chosen]
        assert set(ct) <= cands and ct == sorted(ct, key=lambda c: c[4]), (case, token, ct)
        assert all(x[6] <= y[4] for x, y in zip(ct, ct[1:])), ('overlap', case, ct)
        for c in cands - set(ct):
            assert any(c[4] < k[6] and k[4] < c[6] and ref_score(case, k) >= ref_score(case, c) - 1e-9 for k in ct), (
                case, token, 'left out', c, 'chosen', ct)
        known = {(k[0], k[1], k[4], k[5]) for k in ct} | {(k[2], k[3], k[5], k[6]) for k in ct if k[2]}
        assert {s for s in spans if s[1] is not None} == known, (case, token, spans, ct)
        gaps = [s for s in spans if s[1] is None]
        for s, s2 in zip(spans, spans[1:]):
            assert s[1] is not None or s2[1] is not None, ('adjacent unknown parts', case, spans)
        if not cands:
            assert spans == [(token, None, 0, len(token))], (case, token, spans)
        if ct and gaps:
            labels.add('known+unknown')
        elif len(spans) > 1:
            labels.add('split')
    return sorted(labels) or None


@sub('C20', 'debug_and_plain', TAGCASE, quick=600, thorough=10000,
     rule='debug output lists every candidate with its score and does not change the tags; without a '
          'postprocessor the tags are the chosen dictionary words, in order')
def debug_and_plain(case):
    d, g, e = lr_parts(case)
    plain = SimpleTagger(g, e)
    tags, dbg = plain.tag(case['sent'], flatten=False, debug=True)
    assert tags == plain.tag(case['sent'], flatten=False) == SimpleTagger(g, e, BasePostprocessor()).tag(case['sent'], flatten=False)
    full = SimpleTagger(g, e, UnknowLRPostprocessor()).tag(case['sent'], flatten=False)
    assert tags == [[x for x in p if x[1] is not None] for p in full], (case, tags, full)
    for token, cs in zip(case['sent'].split(), dbg):
        assert {tuple(c) for c, _ in cs} == ref_candidates(case, token)
        assert all(abs(s - ref_score(case, tuple(c))) < 1e-9 for c, s in cs)
    return 'tagged' if any(tags) else None


EW = (-0.1, -0.15, 0.2, -0.3, 0.1, -0.05, 0.1, 0.2)
EN = ('num_nouns', 'num_words', 'has_noun', 'has_unknown', 'is_adverb_repeat', 'is_compound_noun', 'is_noun_josa', 'is_a_noun')
EOJ = st.fixed_dictionaries(dict(
    pd=st.fixed_dictionaries({'Noun': st.lists(st.one_of(gen.word('가나', 1, 3), gen.word('가나다라마바', 2, 4)), min_size=1, max_size=6)},
                             optional={t: st.lists(st.one_of(gen.word('가나', 1, 3), gen.word('가나다라마바', 2, 4)), min_size=1, max_size=6) for t in TAGS[1:6]}),
    prefer=st.just([]), pref=st.just({}), glue=st.lists(st.integers(0, 40), min_size=2, max_size=4),
    sent=st.lists(st.one_of(gen.word('가나', 1, 6), st.just('@'), st.just('@')), min_size=1, max_size=4).map(' '.join),
    weights=st.one_of(st.none(), st.lists(st.integers(-4, 8).map(lambda k: k / 8), min_size=8, max_size=8)),
    single=st.sampled_from([None, ['Noun'], ['Verb', 'Adverb']]),
    lr=st.sampled_from([None, [('Noun', 'Josa')], [('Verb', 'Noun'), ('Noun', 'Josa')]]))).map(own_words)


def ref_eojeol_score(case, c):
    w = case['weights'] or EW
    n = len(c)
    nouns = sum(x[1] == 'Noun' for x in c)
    f = (nouns, n, nouns > 0, sum(x[1] is None for x in c), n > 1 and all(x[1] == 'Adverb' for x in c),
         n > 1 and nouns == n, n == 1 and c[0][1] == 'Noun' and c[0][3] == 'Josa',
         n == 1 and c[0][1] == 'Noun' and not c[0][2])
    return sum(x * y for x, y in zip(w, f))


def sure_compound(pd, token, tag):
    """The split of a token into words of one tag when each step has exactly one choice."""
    n, b, out = len(token), 0, []
    while b < n:
        ends = [e for e in range(b + 1, n + 1) if e - b < n and token[b:e] in pd.get(tag, ())]
        if len(ends) != 1:
            return None
        out.append((token[b:ends[0]], tag, '', None, b, ends[0], ends[0]))
        b = ends[0]
    return tuple(out)


@sub('C20', 'eojeol_tagging', EOJ, quick=2500, thorough=50000,
     rule='whole-word templates: every candidate spells the word with dictionary words, all one-word and L+R '
          'readings are present, and the chosen reading has the best score')
def eojeol_tagging(case):
    d = Dictionary({t: set(ws) for t, ws in case['pd'].items()})
    g = EojeolTemplateMatcher(d, single_tags=case['single'], lr_templates=case['lr'])
    e = SimpleEojeolEvaluator(None if case['weights'] is None else tuple(zip(EN, case['weights'])))
    tagger = SimpleTagger(g, e)
    nested = tagger.tag(case['sent'], flatten=False)
    assert [x for p in nested for x in p] == tagger.tag(case['sent'])
    dtags, dbg = tagger.tag(case['sent'], flatten=False, debug=True)
    assert dtags == nested
    single = case['single'] or ['Noun', 'Verb', 'Adjective', 'Adverb', 'Exclamation']
    lrs = case['lr'] or [('Noun', 'Verb'), ('Noun', 'Adjective'), ('Noun', 'Josa')]
    pd, some = case['pd'], False
    words = case['sent'].split()
    assert len(nested) == len(words)
    for token, parts, scored in zip(words, nested, dbg):
        n = len(token)
        cut_by(token, parts, case)
        cands = g.generate(token)
        got = [tuple(tuple(x) for x in c) for c in cands]
        need = {((token, t, '', None, 0, n, n),) for t in single if token in pd.get(t, ())}
        if not need:
            need = {((token, None, '', None, 0, n, n),)}
        need |= {((token[:b], lt, token[b:], rt, 0, b, n),) for b in range(1, n) for lt, rt in lrs
                 if token[:b] in pd.get(lt, ()) and token[b:] in pd.get(rt, ())}
        assert need <= set(got), (case, token, got, need)
        for tag in ('Noun', 'Adverb'):
            comp = sure_compound(pd, token, tag)
            if comp:
                assert comp in got, (case, token, comp, got)
        for c in set(got) - need:
            assert len(c) > 1 and len({x[1] for x in c}) == 1 and c[0][1] in ('Noun', 'Adverb'), (case, token, c)
            assert ''.join(x[0] for x in c) == token and all(x[0] in pd[x[1]] and x[2] == '' for x in c), (case, token, c)
            assert all(x[6] == y[4] for x, y in zip(c, c[1:])) and c[0][4] == 0 and c[-1][6] == n
        best = max(ref_eojeol_score(case, c) for c in got)
        mine = [ref_eojeol_score(case, c) for c in got
                if [p for x in c for p in ((x[0], x[1]), (x[2], x[3])) if p[0]] == parts]
        assert mine and abs(max(mine) - best) < 1e-9, (case, token, parts, got)
        assert sorted(s for _, s in scored) == sorted(e.evaluate(c) for c in cands)
        for c, gc in zip(cands, got):
            assert abs(e.evaluate(c) - ref_eojeol_score(case, gc)) < 1e-9, (case, gc)
        some |= len(got) > 1
    return 'several' if some else None
