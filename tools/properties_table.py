TECH = {}
UT = 'basic_test.py checks '

prop('C01', 'Hangul syllables decompose and recompose without loss; classes are exact',
     'Decomposing any of the 11,172 modern Hangul syllables into initial, medial and final letters and composing them again gives the same syllable, and composing then decomposing any valid letter triple gives the triple back. Lone consonants and vowels decompose into themselves, and anything that is not Korean yields nothing. The predicates that classify a character (Korean, complete syllable, consonant, vowel, number, English, punctuation) answer yes exactly on their Unicode ranges.',
     ['inputs'], 'every syllable and jamo, every BMP code point for the classifiers, and generated letter triples',
     UT + 'one or two syllables; the claim is about all 11,172 syllables and every code point at a range edge.',
     ['hangle/_hangle.py'], [('compose / decompose', 'hangle/_hangle.py'), ('character_is_* predicates', 'hangle/_hangle.py')],
     ['return values of soynlp.hangle functions'])
TECH['C01'] = 'exhaustive enumeration of syllables and code points plus generated triples, round-trip oracle'

prop('C02', 'The one-hot character encoder is invertible on everything it can encode',
     'Encoding text into one-hot vectors marks, for every character, exactly the letters that character decomposes into (or its own slot), so decoding the vectors returns the text, with unknown characters mapped to the unknown slot. The index tables are bijections and the encoding of a text is the concatenation of the encodings of its characters.',
     ['inputs'], 'all texts over Hangul, jamo, digits, blanks and foreign characters',
     'No test touches the encoder.',
     ['hangle/_hangle.py'], [('ConvolutionHangleEncoder', 'hangle/_hangle.py')], ['encode / decode results'])
TECH['C02'] = 'generated text, round-trip and per-character reference oracle'

prop('C03', 'String distances are edit-distance and set-similarity metrics',
     'The edit distance between two strings equals the cheapest sequence of insertions, deletions and substitutions (with the given substitution costs), whichever string comes first, and the letter-level edit distance weighs a syllable substitution by the letters that differ. Both are zero exactly on equal strings, symmetric and obey the triangle inequality. The cosine and Jaccard distances of strings equal one minus the similarity of their character multisets and sets.',
     ['inputs'], 'all pairs and triples of strings, all substitution-cost tables',
     UT + 'a handful of fixed pairs, none with costs and a shorter first string.',
     ['hangle/_distance.py'], [('levenshtein, jamo_levenshtein', 'hangle/_distance.py'), ('cosine_distance, jaccard_distance', 'hangle/_distance.py')],
     ['returned distances'])
TECH['C03'] = 'generated string pairs and triples against a textbook reference, plus metric axioms'

prop('C04', 'Normalizers only remove or shorten what they are told to',
     'Normalizing keeps every character of the selected classes in its original order and replaces the others by blanks, so nothing selected is lost and nothing else is kept. Folding repeated characters never lengthens text, leaves no run longer than the limit and changes nothing in text without such runs. All normalizers are idempotent in the sense their definition promises and never touch Hangul that is not part of a repetition or an emoticon.',
     ['inputs', 'configurations'], 'all texts, all repetition limits and character-class flags',
     'Tests call one or two sentences per normalizer; losses appear only on particular neighbouring characters or limits.',
     ['normalizer/_normalizer.py', 'hangle/_hangle.py', 'tokenizer/_normalizer.py'],
     [('repeat_normalize / emoticon_normalize / only_* filters', 'normalizer/_normalizer.py'), ('hangle.normalize', 'hangle/_hangle.py'), ('tokenizer normalize', 'tokenizer/_normalizer.py')],
     ['returned text'])
TECH['C04'] = 'generated mixed-script text against per-character reference, length and idempotence invariants'

prop('C05', 'Tokenizers never lose, invent or reorder text',
     'For every sentence, the tokens produced by any of the tokenizers, concatenated, are the sentence without its white space, in order, and tokens of one word never cross a blank. The un-flattened form carries positions: token spans of a word are contiguous, cover the word exactly once and agree with the token text. Flattening and removal options only change the shape of the answer.',
     ['inputs', 'configurations'], 'all sentences, all score tables, dictionaries and parameters',
     UT + 'three or four sentences; losses occur only for particular overlaps of scored substrings.',
     ['tokenizer/_tokenizer.py', 'tokenizer/_noun_tokenizer.py'],
     [('RegexTokenizer / LTokenizer / MaxScoreTokenizer / MaxLRScoreTokenizer', 'tokenizer/_tokenizer.py'), ('NounMatchTokenizer', 'tokenizer/_noun_tokenizer.py')],
     ['returned tokens and spans'])
TECH['C05'] = 'generated sentences and score tables, concatenation and span-cover invariants'

prop('C06', 'Score-driven tokenizers pick what their scores say',
     'The left-part tokenizer splits every word at the prefix with the best score (longest on ties, within tolerance), and the max-score tokenizer cuts greedily by score then length so that no chosen token is beaten by an overlapping candidate chosen after it. The left-right tokenizer takes the candidates with the best sum of left score, right score and left-right preferences first, each with its best right part. The scores reported next to tokens are the scores in the table. Raising the tolerance can only lengthen the left part.',
     ['inputs', 'configurations'], 'all sentences and score tables, tolerances and length limits',
     UT + 'one score table; the choice depends on ties, tolerances and candidate overlaps.',
     ['tokenizer/_tokenizer.py'], [('LTokenizer.tokenize', 'tokenizer/_tokenizer.py'), ('MaxScoreTokenizer._recursive_tokenize', 'tokenizer/_tokenizer.py'), ('MaxLRScoreTokenizer', 'tokenizer/_tokenizer.py')],
     ['returned tokens and scores'])
TECH['C06'] = 'generated score tables with frequent ties against an independent reference'

prop('C07', 'Noun tokenizers return exactly nouns they were given',
     'Noun tokenizers return only words of the supplied noun set (or concatenations of adjacent ones when compounds are requested), each found at the position reported, longest or best scored first. A word that starts with a known noun always yields a noun, and no returned span overlaps another.',
     ['inputs', 'configurations'], 'all sentences, noun tables and tolerance or compound options',
     'Tests have one noun table; overlaps, compounds and offsets are untested.',
     ['tokenizer/_noun_tokenizer.py'], [('NounLMatchTokenizer, NounMatchTokenizer', 'tokenizer/_noun_tokenizer.py')], ['returned tokens'])
TECH['C07'] = 'generated sentences and noun sets against a reference matcher'

prop('C08', 'Substring-pattern training counts exactly what the corpus contains',
     'Training the word-pattern model counts every left part and right part of every word occurrence within the length limits, applies the frequency threshold, and nothing else; given word sets are used as they are. The ranks of either side are its normalized shares of the ranks of the other side. Saving and loading returns an equivalent model, and the order of sentences does not matter.',
     ['inputs', 'configurations', 'histories'], 'all corpora, length limits and thresholds; save/load',
     'Never exercised by a test.',
     ['tokenizer/_tokenizer_builder.py'], [('EojeolPatternTrainer', 'tokenizer/_tokenizer_builder.py')], ['built graph, saved files'])
TECH['C08'] = 'generated corpora against a direct count, save/load round trip'

prop('C09', 'The corpus reader yields exactly the documents of the file',
     'Iterating a corpus file yields each non-skipped document once and in order (or each sentence of it in sentence mode), honouring the header, document and sentence limits. The reported length is the number of items iteration yields. Switching modes or iterating twice changes nothing.',
     ['inputs', 'histories', 'configurations'], 'all file contents, limits, and sequences of iterations and mode switches',
     'Tests read one well-formed file with default limits.',
     ['utils/utils.py'], [('DoublespaceLineCorpus', 'utils/utils.py')], ['iterated items and len()'])
TECH['C09'] = 'generated files and operation histories against a line-based reference'

prop('C10', 'The word counter counts every word and forgets only below its threshold',
     'The word counter reports the exact number of occurrences of every word that passes its frequency and length limits after preprocessing, and its total is the sum of the counts. Removing covered words subtracts exactly those words, and conversion to a left-right graph and save/load preserve every count.',
     ['inputs', 'histories', 'configurations'], 'all corpora and thresholds; histories of removals, conversion and save/load',
     'Used indirectly in one noun extraction test with no assertion on counts.',
     ['utils/utils.py'], [('EojeolCounter', 'utils/utils.py')], ['counts, totals, produced graph'])
TECH['C10'] = 'generated corpora and operation histories against a dictionary model'

prop('C11', 'The left-right graph stays consistent under any sequence of edits',
     'After any sequence of additions, removals, copies, resets and save/load, the graph\'s left view and right view describe the same multiset of (left, right) pairs, with positive counts. Queries return the pairs of the model sorted by frequency, a reset restores the graph as it was built (or last frozen), and a copy is independent of its source.',
     ['histories'], 'all operation sequences on the graph',
     'Needs histories: tests only ever read a freshly built graph.',
     ['utils/utils.py'], [('LRGraph', 'utils/utils.py')], ['get_l, get_r, counts, to_EojeolCounter'])
TECH['C11'] = 'stateful model-based generation of operation histories against a pair-multiset model'

prop('C12', 'Vector and file helpers return what they document',
     'Nearest-neighbour search returns at most the requested number of distinct other items, each with its true similarity, best first. The low-rank decomposition returns factors that reconstruct the matrix as well as the best possible rank allows. The file helpers write and read back the same items, and every name a package exports can be imported.',
     ['inputs', 'configurations'], 'all small matrices, limits, item lists',
     'No test covers them.',
     ['utils/math.py', 'utils/utils.py', 'utils/__init__.py'], [('most_similar, fit_svd', 'utils/math.py'), ('file helpers', 'utils/utils.py')], ['return values, files'])
TECH['C12'] = 'generated matrices and files against numpy and round-trip oracles'

prop('C13', 'Word statistics equal their definitions on the corpus',
     'For every word within the length limits, the extractor\'s cohesion, branching entropy, accessor variety and frequency equal the values computed directly from the substrings and neighbouring characters of the corpus. Asking for one word gives the same numbers as computing all words at once. Sentence order does not matter.',
     ['inputs', 'configurations'], 'all corpora, length limits and minimum frequencies',
     UT + 'that training runs and prints; no value is compared with its definition.',
     ['word/_word.py'], [('WordExtractor.train', 'word/_word.py'), ('all_cohesion_scores / all_branching_entropy / all_accessor_variety', 'word/_word.py')], ['score tables'])
TECH['C13'] = 'generated corpora against a direct count of substrings and neighbours, permutation metamorphic relation'

prop('C14', 'Word extraction selects exactly the words that pass its thresholds',
     'Extraction returns exactly the words whose every score reaches its threshold, minus prefixes absorbed by a longer word when sub-word removal is on. Training twice cumulatively equals training once on the concatenation when nothing is pruned, training afresh forgets the past, and saving and loading at any point changes nothing afterwards.',
     ['inputs', 'histories', 'configurations'], 'all corpora, threshold combinations, and histories of training, saving and loading',
     'One corpus and default thresholds in the tests.',
     ['word/_word.py'], [('WordExtractor.extract, train(cumulate), save, load', 'word/_word.py')], ['extracted words and scores'])
TECH['C14'] = 'generated corpora, thresholds and histories against a reference selection'

prop('C15', 'Pointwise mutual information equals its definition cell by cell',
     'Every cell of the association matrix equals log p(x,y) / (p(x) (p(y)^beta + alpha)) when that reaches the minimum, and zero otherwise, with the marginals returned alongside. The low-memory variant computes the same matrix. The input matrix is never modified.',
     ['inputs', 'configurations'], 'all count matrices, smoothing factors, thresholds, external probabilities',
     UT + 'that one computation finishes.',
     ['word/_pmi.py'], [('pmi, pmi_memory_friendly', 'word/_pmi.py')], ['returned matrix and marginals'])
TECH['C15'] = 'generated sparse matrices against the formula, differential between the two variants'

prop('C16', 'Word-pair extraction counts and ranks pairs by definition',
     'Pair extraction counts every adjacent pair of tokens, drops those below the minimum frequency, and scores the rest by frequency, mutual information or discounted ratio over the token counts. It returns exactly the pairs that reach the threshold, or the best k of them. Giving the corpus to the constructor equals training on it.',
     ['inputs', 'configurations'], 'all corpora, tokenizers, thresholds, pruning intervals and limits',
     'No test covers phrase extraction.',
     ['word/_phrase.py'], [('Bigram', 'word/_phrase.py')], ['extracted pairs and scores'])
TECH['C16'] = 'generated corpora against a reference counter and score'

prop('C17', 'The bag-of-words vectorizer counts each known term of each document',
     'The vocabulary holds exactly the terms that satisfy the term-frequency, document-frequency, stop-word and case options, with a one-to-one index, and each matrix cell is the number of occurrences of that term in that document. The matrix written to a file is the same matrix with truthful header counts. Encoding then decoding a document keeps its known terms (in order, or with counts), and a saved and loaded vocabulary encodes every document as before.',
     ['inputs', 'configurations', 'histories'], 'all document lists (empty ones included), frequency limits, stop words, tokenizers; save/load',
     UT + 'that one call finishes; the filters interact and the counts are never compared.',
     ['vectorizer/_vectorizer.py'], [('BaseVectorizer.fit/transform/fit_to_file', 'vectorizer/_vectorizer.py'), ('encode/decode, save/load', 'vectorizer/_vectorizer.py')],
     ['vocabulary, sparse matrix, matrix file, encoded documents'])
TECH['C17'] = 'generated documents and limits against a direct count, file and save/load round trips'

prop('C18', 'The word-context matrix counts every co-occurrence inside the window',
     'Each cell of the word-context matrix is the sum, over every pair of positions of a sentence not further apart than the window, of the weight for that distance, restricted to words that reach the minimum frequency. There is one row and one column per such word and the matrix is symmetric. Without a threshold, counts of two corpora add up, and neither the order of the sentences nor their direction matters.',
     ['inputs', 'configurations'], 'all corpora, window sizes, thresholds and distance weightings',
     UT + 'one corpus without looking at any cell; edges of sentences and windows decide.',
     ['vectorizer/_word_context.py'], [('sent_to_word_contexts_matrix', 'vectorizer/_word_context.py')], ['returned matrix and vocabulary'])
TECH['C18'] = 'generated corpora against a direct scan of position pairs, additivity and reversal relations'

prop('C19', 'The tag dictionary behaves as a table of word sets under any history',
     'After any sequence of additions (forced or not), removals of words or tags, saving and loading, the dictionary answers every query - the tags of a word, the words of a tag, whether a word has a tag, the longest word length - as a plain table from tags to sets of words would. Adding to an unknown tag without force is refused, and the containers the caller passed in are never shared or modified.',
     ['histories', 'inputs'], 'all histories of dictionary operations from any starting table, the empty one included',
     'Tests only build one dictionary and query it.',
     ['postagger/_dictionary.py'], [('Dictionary', 'postagger/_dictionary.py')], ['get_tags, word_is_tag, tagset, save/load'])
TECH['C19'] = 'model-based generation of operation histories against a dictionary of sets'

prop('C20', 'The tagger covers the sentence with its best-scoring dictionary words',
     'Tagging accounts for every word of a sentence in order: the tagged pieces spell the word, known pieces are dictionary words under their own tag, and pieces nobody knows are returned as unknown. The left-right candidates are exactly those the template permits, scores equal the weighted features, and each candidate left out overlaps a chosen one that scores at least as much. Debug output changes nothing.',
     ['inputs', 'configurations'], 'all dictionaries, sentences, template tables, evaluator weights and preferences',
     'One dictionary and a few sentences in the tests; the choice depends on score ties, overlaps and unknown gaps.',
     ['postagger/_tagger.py', 'postagger/_template.py', 'postagger/_evaluator.py'],
     [('SimpleTagger, UnknowLRPostprocessor', 'postagger/_tagger.py'), ('LRTemplateMatcher, EojeolTemplateMatcher', 'postagger/_template.py'), ('LREvaluator, SimpleEojeolEvaluator', 'postagger/_evaluator.py')],
     ['tagged (word, tag) lists, candidates and scores'])
TECH['C20'] = 'generated dictionaries and sentences; cover invariant, exhaustive candidate scan, greedy-optimality check'

prop('C21', 'Conjugation follows the classes of regular and irregular Korean inflection',
     'Conjugating a stem with an ending gives the surface forms that the conjugation class of the stem prescribes (regular, contracted, and ㄷ/ㅂ/ㅅ/ㅎ/르/우/거라/너라 irregular), and nothing else. Only the last syllable of the stem and the first of the ending take part: text before and after is carried over unchanged. Enforced vowel harmony only exchanges the bright and dark vowel at the head of the ending, and no text, Korean or not, makes conjugation fail.',
     ['inputs'], 'all stems and endings assembled from every conjugation class with arbitrary surrounding syllables, and arbitrary text',
     'Tests list about a hundred fixed stem and ending pairs and mostly print; the rules range over thousands of syllables.',
     ['lemmatizer/_conjugation.py'], [('conjugate, conjugate_chat, _conjugate_stem', 'lemmatizer/_conjugation.py')], ['returned set of surface forms'])
TECH['C21'] = 'generated stem/ending pairs against a class table, locality and harmony metamorphic relations'

prop('C22', 'Lemmatization inverts conjugation, exactly and within its dictionaries',
     'Every inflected form of a stem and an ending in the dictionaries is lemmatized back to that pair, and every analysis proposed for a word conjugates back to exactly that word. The answer of a lemmatizer is exactly the candidate analyses whose stem and ending are both in its dictionaries, whatever container they come in, plus user-defined lemmas. No text makes it fail.',
     ['inputs', 'configurations'], 'all stems, endings, words, dictionaries and user-defined lemmas',
     'Tests lemmatize a few dozen words against one dictionary and print; the inverse must hold for every class.',
     ['lemmatizer/_lemmatizer.py', 'lemmatizer/_conjugation.py'], [('lemma_candidate, Lemmatizer.lemmatize, Lemmatizer.candidates', 'lemmatizer/_lemmatizer.py')], ['returned (stem, ending) pairs'])
TECH['C22'] = 'round trip conjugate/lemmatize on generated pairs, dictionary-splitting relation'

prop('C23', 'The first noun extractor scores and selects nouns from their right parts',
     'The score of a word followed by enough distinct right parts is the frequency-weighted mean of the predictor scores of the known ones, leaving out those which together with the end of the word form a longer known right part. Extraction returns exactly the candidates that reach the score, frequency, feature-count and known-ratio limits, with those figures. One call equals training then extracting, sentence order does not matter, and doubling the corpus doubles the frequencies only.',
     ['inputs', 'configurations'], 'all corpora, predictor tables, length limits, thresholds and candidate lists',
     UT + 'that extraction on one corpus prints something.',
     ['noun/_noun_ver1.py'], [('LRNounExtractor.train, predict, extract', 'noun/_noun_ver1.py')], ['NounScore tables'])
TECH['C23'] = 'generated corpora and predictor tables against a direct reference, doubling and permutation relations'

prop('C24', 'The second noun extractor scores, selects and compounds nouns by definition',
     'The support and score of a candidate come from the positive, negative, common and unknown right parts that follow it in the corpus, and extraction returns exactly the candidates and compounds that reach the thresholds, each with its frequency and score, after the requested post-processing. Sentences, word counter or left-right graph of the same corpus give the same nouns in any order. Extraction leaves the graph restored, or holding exactly the words no noun explains, and can be repeated.',
     ['inputs', 'configurations', 'histories'], 'all corpora, feature files, limits, thresholds, post-processing and compound options, sources of the corpus; repeated extraction',
     UT + 'one corpus without looking at any noun; the order of longest-first removal decides frequencies.',
     ['noun/_noun_ver2.py', 'utils/utils.py'], [('LRNounExtractor_v2.train, predict, extract, decompose_compound', 'noun/_noun_ver2.py'), ('LRGraph removal during extraction', 'utils/utils.py')], ['NounScore tables, remaining graph, num_of_covered_eojeols'])
TECH['C24'] = 'generated corpora and feature tables against a full reference of the algorithm, source-equivalence relation'

prop('C25', 'Noun post-processing and the domain and news extractors keep their rules',
     'Each post-processing rule removes exactly the nouns it names and leaves the others with their scores. Domain feature extraction returns the right parts that follow enough known nouns with sufficient score, never a known, ignored or noun form. Every noun the news extractor returns passes its thresholds or is backed by a verb or known noun parts, one call equals training and extracting, and sentence order does not matter.',
     ['inputs', 'configurations'], 'all noun tables, feature sets, graphs, corpora and thresholds',
     'No test covers them.',
     ['noun/_noun_postprocessing.py', 'noun/_josa.py', 'noun/_noun_news.py'],
     [('detaching_features, ignore_features, check_N_is_NJ', 'noun/_noun_postprocessing.py'), ('extract_domain_pos_features', 'noun/_josa.py'), ('NewsNounExtractor', 'noun/_noun_news.py')],
     ['returned noun tables and features'])
TECH['C25'] = 'generated noun tables, graphs and corpora against references and soundness/completeness bounds'

prop('C26', 'Predicate extraction finds endings, stems and predicates by definition',
     'Ending and stem extraction return exactly the candidates whose following or preceding known parts reach the score, frequency, feature-count and entropy limits, with those figures. Predicate extraction returns the words that conjugate from a known or extracted stem and ending, classed as adjective or verb, and every reported lemma conjugates back to its word. One call equals two, sentence order does not matter, and the graph, counter and dictionaries passed in are left unchanged.',
     ['inputs', 'configurations', 'histories'], 'all corpora, stem, ending, noun and particle dictionaries, thresholds, and sources of the corpus',
     'No test covers it.',
     ['predicator/_eomi.py', 'predicator/_stem.py', 'predicator/_predicator.py', 'predicator/_adjective_vs_verb.py'],
     [('EomiExtractor', 'predicator/_eomi.py'), ('StemExtractor', 'predicator/_stem.py'), ('PredicatorExtractor', 'predicator/_predicator.py'), ('rule_classify', 'predicator/_adjective_vs_verb.py')],
     ['score tables, Predicator tables, input containers'])
TECH['C26'] = 'generated corpora of conjugated stems against references, conjugate-back invariant'

prop('C27', 'Part-of-speech extraction explains every word form or reports it',
     'Each word form is counted under every class it belongs to, or else is split into noun + particle or predicate, predicate + predicate, a lemmatizable predicate, a one-letter noun + known word, or a compound of nouns (news only), or is reported as unrecognized unless it is a bare particle, ending or letter. Frequencies never exceed those of the word forms a word occurs in, nouns that are also predicates or adverbs are reported apart, and lemmas, new stems and endings are those the splits imply. Nouns and predicates are those of the noun and predicate extractors for the given parameters, and sentence order does not matter.',
     ['inputs', 'configurations'], 'all corpora and parameters, and all tables of nouns, predicates, particles, adverbs and word forms',
     'No test covers it.',
     ['pos/_news_pos.py', 'pos/_chat_pos.py', 'pos/_adverb.py', 'postagger/_pos_extractor.py'],
     [('NewsPOSExtractor', 'pos/_news_pos.py'), ('ChatPOSExtractor', 'pos/_chat_pos.py'), ('POSExtractor', 'postagger/_pos_extractor.py'), ('load_default_adverbs, stem_to_adverb', 'pos/_adverb.py')],
     ['returned tag tables'])
TECH['C27'] = 'generated tag tables and corpora against a staged reference, coverage and frequency-bound invariants, composition differential'

EVERY = ['hangle/_hangle.py', 'normalizer/_normalizer.py', 'tokenizer/_tokenizer.py', 'tokenizer/_tokenizer_builder.py', 'utils/utils.py', 'word/_word.py', 'word/_phrase.py', 'vectorizer/_vectorizer.py', 'vectorizer/_word_context.py', 'postagger/_tagger.py', 'lemmatizer/_lemmatizer.py', 'noun/_noun_ver1.py', 'noun/_noun_ver2.py', 'noun/_noun_news.py', 'predicator/_predicator.py', 'pos/_news_pos.py', 'pos/_chat_pos.py']

prop('C28', 'Results depend on the input only: not on the process, not on progress output',
     'For the same corpus and options every extractor, tokenizer, tagger, lemmatizer, normalizer and vectorizer gives the same result in every process, whatever its hash seed, and whether or not it prints its progress. (The numbering of the rows of the word-context matrix is free.)',
     ['inputs', 'configurations', 'schedules'], 'all corpora and options, all hash seeds (the order in which sets are walked), verbose or not',
     'A test runs in one process with one order of its sets and never compares two runs.',
     EVERY, [('every trainable or callable object', 'noun/_noun_ver2.py'), ('iteration over sets of stems, endings, particles', 'predicator/_predicator.py')], ['returned tables and tokens in several processes'])
TECH['C28'] = 'differential runs of generated corpora in processes with different hash seeds, and verbose against quiet'

prop('C29', 'Objects forget: a used object answers like a fresh one',
     'Training an extractor again (without cumulation) or asking a tokenizer, tagger, lemmatizer or encoder again gives what a fresh object with the same options gives for the last corpus, however often it was read in between, whatever the caller did to earlier results, and whatever other objects of the same kind, with whatever settings and data files, were built or trained meanwhile. Corpora passed in are never changed. (Domain features appended to the second noun extractor stay.)',
     ['histories', 'inputs', 'configurations'], 'all histories of training and reading two objects of any kind on several corpora',
     'Tests use every object once.',
     EVERY, [('train / extract of every extractor', 'noun/_noun_news.py'), ('learned stems and endings', 'predicator/_predicator.py')], ['returned tables and tokens'])
TECH['C29'] = 'generated histories over two objects against fresh objects as the model'

prop('C30', 'Every text is accepted, in every container',
     'No extractor, tokenizer, tagger, lemmatizer, normalizer, encoder or vectorizer fails on any corpus, be it blank, without Korean, of single letters or arbitrary Unicode; extractors that need a corpus refuse an empty one with a ValueError, and find nothing in a blank one. A list, a tuple, any sized iterable and a corpus file with the same sentences give the same result, and sentences without a word do not influence it.',
     ['inputs', 'configurations'], 'all corpora, containers and options',
     'Tests feed well-formed Korean sentences from lists.',
     EVERY, [('check_corpus, DoublespaceLineCorpus', 'utils/utils.py'), ('progress and coverage figures', 'postagger/_pos_extractor.py')], ['exceptions, returned tables'])
TECH['C30'] = 'fuzzing of every entry point with generated Unicode corpora, container-equivalence relation'


prop('C31', 'An option that is left out takes its stated value',
     'Every constructor, method and function of the public API called without some of its options gives the result of the call that states them with the documented values: maximum lengths, minimum frequencies, scores, numbers of features and results, weights, tolerances, modes and switches. So a call without options is the call with all of them stated, and the limits in force are those of the signature, for counters, graphs, tokenizers, word, phrase and noun extractors, taggers, lemmatizers, predicate and part-of-speech extractors, normalizers, vectorizers and corpora.',
     ['inputs', 'configurations'], 'all data, and all subsets of the options of each call',
     'Tests use one set of options, on data far from every limit.',
     EVERY, [('signatures of the public API', 'utils/utils.py'), ('copies of the options in nested calls', 'noun/_noun_ver2.py')], ['returned tables and tokens'])
TECH['C31'] = 'metamorphic relation between calls without and with stated options on generated data next to the stated limits'


prop('C32', 'A call that fails leaves no trace',
     'When the corpus that is read while an object is trained fails or yields something that is no text, the error reaches the caller unchanged, nothing half-read is passed off as a result, and the next training of the same object gives what a fresh object gives. A question that is no text (None, a number, bytes) may fail, but every later answer of the tokenizer, tagger, lemmatizer, normalizer, encoder, vectorizer, extractor or graph is the one it would have given without it.',
     ['inputs', 'fault_sequences', 'histories'], 'all corpora, all points at which reading fails, all kinds of objects, all orders of failing and good calls',
     'Tests never let a call fail.',
     EVERY, [('train / fit / extract of every extractor', 'word/_word.py'), ('predict and lookup calls', 'noun/_noun_ver1.py')], ['exceptions, and tables and tokens after them'])
TECH['C32'] = 'fault injection at generated points of generated corpora, with a fresh object as the model of what follows'

prop('C33', 'Calls under any schedule give the answers of calls one after the other',
     'Two threads that question one trained object (tokenize, tag, lemmatize, normalize, encode, predict, look up scores or counts), each with options of its own, or that each train and read an object of their own, get the answers they get one after the other, wherever one is interrupted by the other. Iterators over one corpus each yield the whole of it, in whatever order they are opened and advanced. (Training or extracting from one shared object in two threads at once is not covered: the noun and predicate extractors mark off parts of their own graph meanwhile.)',
     ['schedules', 'inputs', 'histories'], 'all interleavings at the lines of soynlp, all trained objects, questions and options; all orders of iterator steps',
     'Tests run in one thread and use one iterator at a time.',
     EVERY, [('tokenize, tag, predict and lookup calls', 'tokenizer/_tokenizer.py'), ('DoublespaceLineCorpus.__iter__', 'utils/utils.py')], ['returned tables and tokens of both threads'])
TECH['C33'] = 'generated deterministic line-level schedules of two threads against the serial answers'

prop('C34', 'Arguments are only read',
     'No constructor, method or function of the public API changes the dictionaries, sets, lists, counters, graphs, matrices and texts it is given, neither their items nor their order (methods whose purpose is to change their own object apart), and reading a default dictionary adds nothing to it. The same call with the same arguments, plain or default dictionaries alike, gives the same result again.',
     ['inputs', 'configurations'], 'all arguments of all public calls that take containers',
     'Tests look at results, not at what the call did to its arguments.',
     EVERY, [('containers handed to constructors and functions', 'noun/_noun_postprocessing.py'), ('pmi', 'word/_pmi.py'), ('levenshtein cost', 'hangle/_distance.py')], ['arguments before and after the call, results of two equal calls'])
TECH['C34'] = 'generated arguments compared before and after each call; repeated calls compared'


prop('C35', 'A corpus is a collection: order, spacing and repetition do not matter',
     'Training on the same sentences in another order gives the same result (up to the order of rows and of ties). What counts words one by one - noun, predicate and part-of-speech extraction, word counters, left-right graphs, pattern training - also gives the same result when the words are dealt out to other sentences or separated by other white space. k times the corpus with k-fold count limits gives k-fold counts and the same scores, and counts without limits add up over the parts of a corpus. (For word statistics letters of neighbouring words count from their second occurrence on.)',
     ['inputs', 'configurations'], 'all corpora, their permutations, partitions and repetitions, and all options',
     'A test has one corpus in one order and no second result to compare with.',
     EVERY, [('train / fit of every extractor', 'word/_phrase.py'), ('scanning of sentences', 'noun/_noun_ver1.py'), ('window counts', 'vectorizer/_word_context.py')], ['returned tables'])
TECH['C35'] = 'metamorphic relations between generated corpora: permutation, re-partition, repetition, addition'

prop('C36', 'Statistics do not look at the letters',
     'Word statistics, word pairs, word counters, left-right graphs, pattern training, bag-of-words (case folding off), word-context matrices, noun scores and supports (given their part tables), edit distance and set similarities, score- and noun-driven tokenizers and the dictionary tagger treat every letter alike: replacing each letter of the corpus, tables and texts by another one - Korean or Latin, upper or lower case, digit, punctuation, symbol, emoji - renames the result and changes nothing else. (The first noun extractor takes no noun that ends in a full stop or comma.)',
     ['inputs', 'configurations'], 'all corpora, tables, texts and one-to-one replacements of letters without white space',
     'Tests use Korean text only.',
     EVERY, [('counting and matching of substrings', 'utils/utils.py'), ('tokenizers', 'tokenizer/_noun_tokenizer.py'), ('levenshtein', 'hangle/_distance.py')], ['returned tables, tokens, tags and distances'])
TECH['C36'] = 'metamorphic relation: generated renaming of letters'

prop('C37', 'Objects work together: what one part produces another part takes',
     'Every tokenizer is a function that returns what tokenize returns with the same options, silently; its tokens serve as terms of the vectorizer, the pair extraction and the context matrix, which then equal those of the sentences it has tokenized. Words of any extractor serve as scores, nouns or dictionary entries: noun tokenizers return only those nouns, taggers tag every extracted word form as one of its entries, and a lemmatizer with the extracted stems and endings finds the lemmas the predicates were extracted with. A corpus gives the same nouns, endings and predicates through files, word counters and left-right graphs, built, converted, saved or loaded.',
     ['inputs', 'configurations', 'histories'], 'all corpora, texts, tables and options, and all chains of the listed objects',
     'Tests look at one object at a time.',
     EVERY, [('__call__ of the tokenizers', 'tokenizer/_tokenizer.py'), ('tokenizer arguments', 'vectorizer/_vectorizer.py'), ('to_EojeolCounter, to_lrgraph, save, load', 'utils/utils.py')], ['tokens, matrices, tags, lemmas and tables at the end of a chain'])
TECH['C37'] = 'generated chains of objects against the direct computation (differential), and membership invariants'

prop('C38', 'Limits only select: stricter gives a part of the same, larger dictionaries add',
     'A stricter limit on counts, scores, lengths, documents, parts or stop words keeps exactly those items of the looser one that pass it, with unchanged values: for word, pair and ending extraction, counters, graphs, vocabularies, word-context and PMI matrices. The first k results are the k best of the whole list. A word count limit gives what the corpus without its rare words gives (nouns, predicates, counters, bags of words). Keeping fewer character classes or repetitions of a normalized text is keeping them of the text. More tolerance never shortens the left part of a word; a larger dictionary finds everything the smaller one finds, and what is new uses its new entries; cheaper substitutions never make words more distant.',
     ['inputs', 'configurations'], 'all corpora, tables and texts, and all pairs of settings of a limit',
     'Tests use one setting of each limit.',
     EVERY, [('extract, word_scores', 'word/_word.py'), ('extract, topk, threshold', 'word/_phrase.py'), ('EojeolCounter, LRGraph, most_similar', 'utils/utils.py'), ('fit', 'vectorizer/_vectorizer.py'),
             ('pmi', 'word/_pmi.py'), ('normalize, repeat_normalize', 'normalizer/_normalizer.py'), ('tokenize', 'tokenizer/_tokenizer.py'), ('lemmatize, candidates', 'lemmatizer/_lemmatizer.py'), ('levenshtein', 'hangle/_distance.py')],
     ['results under two settings of one limit'])
TECH['C38'] = 'generated pairs of settings with metamorphic relations: filter, prefix, removal beforehand, superset, monotony'
prop('C39', 'Log files tell what the extraction decided, and writing them changes nothing',
     'Noun and ending extraction with a log path give the results they give without one. The score log lists every candidate once with frequency and unrounded score, best first. The post-processing log holds for each step a heading and exactly the words that step took out; candidates that pass the limits and are not logged as removed are the result. A new extraction replaces the logs of an earlier one; directories that do not exist are created (noun extraction). Each step appends to the log it is given and keeps what is there.',
     ['inputs', 'configurations', 'histories'], 'all corpora, feature tables, limits, steps, and log files that exist already or not',
     'Tests write no log.',
     EVERY, [('extract, _post_processing', 'noun/_noun_ver2.py'), ('write_log, detaching_features, ignore_features, check_N_is_NJ', 'noun/_noun_postprocessing.py'), ('extract', 'predicator/_eomi.py')],
     ['log files and results with and without a log path'])
TECH['C39'] = 'generated extractions and post-processing steps; logs parsed back and compared with the results, differential against runs without logs'
