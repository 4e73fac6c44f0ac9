From e74a0f713db387cb0e3719878f6071562e3b97c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 01/84] fix: levenshtein keeps the given substitution costs
 when the first string is shorter

---
 soynlp/hangle/_distance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/hangle/_distance.py b/soynlp/hangle/_distance.py
index b0d354a..558f003 100644
--- a/soynlp/hangle/_distance.py
+++ b/soynlp/hangle/_distance.py
@@ -7,7 +7,8 @@ from ._hangle import decompose
 def levenshtein(s1, s2, cost={}):
     # based on Wikipedia/Levenshtein_distance#Python
     if len(s1) < len(s2):
-        return levenshtein(s2, s1)
+        # substitution cost is directed: (c1 in s1, c2 in s2)
+        return levenshtein(s2, s1, {(c2, c1): x for (c1, c2), x in cost.items()})
 
     if len(s2) == 0:
         return len(s1)
-- 
2.43.0


From 2b0e0701982981038e1c7d61f8e118f03c8f5a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 02/84] fix: emoticon_normalize no longer drops a syllable
 standing next to an unrelated jaum

---
 soynlp/normalizer/_normalizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soynlp/normalizer/_normalizer.py b/soynlp/normalizer/_normalizer.py
index 770cee5..81b2d93 100644
--- a/soynlp/normalizer/_normalizer.py
+++ b/soynlp/normalizer/_normalizer.py
@@ -77,11 +77,15 @@ def emoticon_normalize(sent, num_repeats=2):
             if (jong == sent[i+1]):
                 sent_.append(compose(cho, jung, ' '))
                 sent_.append(jong)
+            else:
+                sent_.append(c)
         elif (i > 0) and (idx == 2 and idxs[i-1] == 0):
             cho, jung, jong = decompose(c)
-            if (cho == sent[i-1]):
+            if (cho == sent[i-1]) and (jong == ' '):
                 sent_.append(cho)
                 sent_.append(jung)
+            else:
+                sent_.append(c)
         else:
             sent_.append(c)
     return repeat_normalize(''.join(sent_), num_repeats)
-- 
2.43.0


From b00be6bb265e16af530e6792f05e81479ec93b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 03/84] fix: folding repeated characters never makes the text
 longer

---
 soynlp/hangle/_hangle.py         | 2 +-
 soynlp/normalizer/_normalizer.py | 4 ++--
 soynlp/tokenizer/_normalizer.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/soynlp/hangle/_hangle.py b/soynlp/hangle/_hangle.py
index 0f8c879..93c6f20 100644
--- a/soynlp/hangle/_hangle.py
+++ b/soynlp/hangle/_hangle.py
@@ -46,7 +46,7 @@ def normalize(doc, english=False, number=False, punctuation=False, remove_repeat
     warnings.warn(message, DeprecationWarning, stacklevel=2)
 
     if remove_repeat > 0:
-        doc = repeatchars_pattern.sub('\\1' * remove_repeat, doc)
+        doc = repeatchars_pattern.sub(lambda m: m.group()[:remove_repeat], doc)
 
     f = []    
     for c in doc:
diff --git a/soynlp/normalizer/_normalizer.py b/soynlp/normalizer/_normalizer.py
index 81b2d93..e3070f6 100644
--- a/soynlp/normalizer/_normalizer.py
+++ b/soynlp/normalizer/_normalizer.py
@@ -32,7 +32,7 @@ def normalize(doc, alphabet=False, number=False,
     if not symbol:
         doc = symbol_pattern.sub(' ', doc)
     if remove_repeat > 0:
-        doc = repeatchars_pattern.sub('\\1' * remove_repeat, doc)
+        doc = repeatchars_pattern.sub(lambda m: m.group()[:remove_repeat], doc)
 
     return doublespace_pattern.sub(' ', doc).strip()
 
@@ -41,7 +41,7 @@ def remove_doublespace(sent):
 
 def repeat_normalize(sent, num_repeats=2):
     if num_repeats > 0:
-        sent = repeatchars_pattern.sub('\\1' * num_repeats, sent)
+        sent = repeatchars_pattern.sub(lambda m: m.group()[:num_repeats], sent)
     sent = doublespace_pattern.sub(' ', sent)
     return sent.strip()
 
diff --git a/soynlp/tokenizer/_normalizer.py b/soynlp/tokenizer/_normalizer.py
index ca7c0e4..cd43433 100644
--- a/soynlp/tokenizer/_normalizer.py
+++ b/soynlp/tokenizer/_normalizer.py
@@ -22,7 +22,7 @@ def _normalize_korean_token(token, num_repeat=2):
 def _remove_repeat(token, num_repeat=2):
     if num_repeat > 0:
         for pattern in repeatchars_patterns:
-            token = pattern.sub('\\1' * num_repeat, token)
+            token = pattern.sub(lambda m: m.group()[:len(m.group(1)) * num_repeat], token)
     return token
 
 def _normalize_emoji(token):
-- 
2.43.0


From 6de5c2bb6429c0e84e37a44ad65d1c3339b96ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 04/84] fix: RegexTokenizer no longer cuts a latin word after
 its last s

---
 soynlp/tokenizer/_tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index e194591..5d73365 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -16,7 +16,7 @@ class RegexTokenizer:
             ('korean', re.compile(u'[가-힣]+', re.UNICODE)),
             ('jaum', re.compile(u'[ㄱ-ㅎ]+', re.UNICODE)),
             ('moum', re.compile(u'[ㅏ-ㅣ]+', re.UNICODE)),
-            ('english & latin', re.compile(u"[a-zA-ZÀ-ÿ]+[[`']?s]*|[a-zA-ZÀ-ÿ]+", re.UNICODE))
+            ('english & latin', re.compile(u"[a-zA-ZÀ-ÿ]+(?:[`']s)*", re.UNICODE))
         ]
         
         self.doublewhite_pattern = re.compile('\s+')
-- 
2.43.0


From 3c8646748ef8afe2b39bb19e3a1b70f25598bc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 05/84] fix: MaxScoreTokenizer reports the word score of short
 and in-between tokens

---
 soynlp/tokenizer/_tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 5d73365..dc9d13b 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -139,7 +139,7 @@ class MaxScoreTokenizer:
         
         length = len(token)
         if length <= 2:
-            return [(token, 0, length, self._ds, length)]
+            return [(token, 0, length, self._scores.get(token, self._ds), length)]
 
         if range_l == 0:
             range_l = min(self._max_length, length)
@@ -208,7 +208,7 @@ class MaxScoreTokenizer:
             b = base[2]
             e = result[i+1][1]
             subtoken = token[b:e]
-            adds.append((subtoken, b, e, self._ds, e - b))
+            adds.append((subtoken, b, e, self._scores.get(subtoken, self._ds), e - b))
         
         return adds
 
-- 
2.43.0


From 9d93da387d33fb9a712af48a2c421244c67db56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 06/84] fix: MaxLRScoreTokenizer tokens cover each word exactly
 once

---
 soynlp/tokenizer/_tokenizer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index dc9d13b..6beb3ba 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -416,7 +416,7 @@ class MaxLRScoreTokenizer:
         adds = []
         if words and words[0][2] > 0:
             adds += self._add_first_subword(t, words)
-        if words and words[-1][3] < n:
+        if words and words[-1][4] < n:
             adds += self._add_last_subword(t, words, n)
         adds += self._add_inter_subwords(t, words)
         post = [w for w in words] + adds
@@ -434,7 +434,7 @@ class MaxLRScoreTokenizer:
         return adds
 
     def _add_last_subword(self, t, words, n):
-        b = words[-1][3]
+        b = words[-1][4]
         subword = t[b:]
         return self._base_tokenizing_subword(subword, b)
 
@@ -451,7 +451,8 @@ class MaxLRScoreTokenizer:
             n = len(w)
             # TODO: 여기를 바꿔야해
             if w in self.Dr:
-                words_.append(['', w, b+b_, b+b_, b+n, 0, n, n, 0, self.base_tokenizer.scores[w]])
+                words_.append(['', w, b+b_, b+b_, b+b_+n, 0, n, n, 0, self.Dr[w]])
             else:
-                words_.append([w, '', b+b_, b+n, b+n, n, 0, n, 0, 0])
+                words_.append([w, '', b+b_, b+b_+n, b+b_+n, n, 0, n, 0, 0])
+            b_ += n
         return words_
\ No newline at end of file
-- 
2.43.0


From 9558a775c6b1ebc47b43523853af45074957a408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 07/84] fix: NounMatchTokenizer compound records have their own
 score and no empty word

---
 soynlp/tokenizer/_noun_tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_noun_tokenizer.py b/soynlp/tokenizer/_noun_tokenizer.py
index 25d42c3..1c00edb 100644
--- a/soynlp/tokenizer/_noun_tokenizer.py
+++ b/soynlp/tokenizer/_noun_tokenizer.py
@@ -79,8 +79,9 @@ class NounMatchTokenizer:
                 if e == b_:
                     e, score = e_, max(score, score_)
                 else:
-                    words_.append((eojeol[b:e], b, e, score, e-b))
-                    b, e = b_, e_
+                    if e > b:
+                        words_.append((eojeol[b:e], b, e, score, e-b))
+                    b, e, score = b_, e_, score_
             if e > b:
                 words_.append((eojeol[b:e], b, e, score, e-b))
             return words_
-- 
2.43.0


From e1c95b7d3d47a2892fca3f3eca5dc8b054e6ee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 08/84] fix: EojeolPatternTrainer keeps R parts of
 max_right_length letters

---
 soynlp/tokenizer/_tokenizer_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 016f0b6..04496dd 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -45,7 +45,7 @@ class EojeolPatternTrainer:
                 token_len = len(token)
                 for i in range(1, min(self.max_left_length, token_len)+1):
                     wordset_l[token[:i]] += 1
-                for i in range(1, min(self.max_right_length, token_len)):
+                for i in range(1, min(self.max_right_length + 1, token_len)):
                     wordset_r[token[-i:]] += 1
             if self.verbose and (i % _ckpt == 0):
                 args = ('#' * int(i/_ckpt), '-' * (40 - int(i/_ckpt)), 100.0 * i / len(sent), '%', get_process_memory())
-- 
2.43.0


From 31717e4e78f2e665510892298caf9f99d851fbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 09/84] fix: EojeolPatternTrainer progress works on small
 corpora, verbose flag is loaded

---
 soynlp/tokenizer/_tokenizer_builder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 04496dd..008249c 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -33,7 +33,7 @@ class EojeolPatternTrainer:
         After then, it builds lr-graph with sub-tokens appeared at least min count
         """
         
-        _ckpt = int(len(sents) / 40)
+        _ckpt = max(1, int(len(sents) / 40))
         
         wordset_l = defaultdict(lambda: 0)
         wordset_r = defaultdict(lambda: 0)
@@ -48,7 +48,7 @@ class EojeolPatternTrainer:
                 for i in range(1, min(self.max_right_length + 1, token_len)):
                     wordset_r[token[-i:]] += 1
             if self.verbose and (i % _ckpt == 0):
-                args = ('#' * int(i/_ckpt), '-' * (40 - int(i/_ckpt)), 100.0 * i / len(sent), '%', get_process_memory())
+                args = ('#' * int(i/_ckpt), '-' * (40 - int(i/_ckpt)), 100.0 * i / len(sents), '%', get_process_memory())
                 sys.stdout.write('\rscanning: %s%s (%.3f %s) %.3f Gb' % args)
             
         wordset_l = {w for w,f in wordset_l.items() if f >= self.min_frequency}
@@ -63,7 +63,7 @@ class EojeolPatternTrainer:
         self.wordset_l = wordset_l
         self.wordset_r = wordset_r
         self.wordset_r.add('')
-        _ckpt = int(len(sents) / 40)
+        _ckpt = max(1, int(len(sents) / 40))
         lrgraph = defaultdict(lambda: defaultdict(lambda: 0))
         rlgraph = defaultdict(lambda: defaultdict(lambda: 0))
         
@@ -115,7 +115,7 @@ class EojeolPatternTrainer:
                 self.max_left_length = args[0]
                 self.max_right_length = args[1]
                 self.min_frequency = args[2]
-                self.verbose == True if args[3] == 1 else False
+                self.verbose = (args[3] == 1)
             except Exception as e:
                 raise ValueError('first line should be parameter info, %s' % str(e))
                 
-- 
2.43.0


From 14b61c0570bacb69a50cbd9aeb2f4f1d4a7673d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 10/84] fix: DoublespaceLineCorpus length and iteration agree
 on empty files and blank documents

---
 soynlp/utils/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index e02775f..03dc95d 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -131,6 +131,7 @@ class DoublespaceLineCorpus:
             return 0, 0
 
         # check length
+        doc_idx = -1
         for doc_idx, doc in enumerate(f):
             if (num_doc > 0) and (doc_idx >= num_doc):
                 return doc_idx, num_sent_
@@ -155,13 +156,14 @@ class DoublespaceLineCorpus:
             # skip headers
             for _ in range(self.skip_header):
                 next(f)
-        except Exception as e:
-            print(e)
+        except StopIteration:
+            # the file has no line after its header
+            return
 
         # iteration
         num_sent, stop = 0, False
         for doc_idx, doc in enumerate(f):
-            if stop:
+            if stop or ((self.num_doc > 0) and (doc_idx >= self.num_doc)):
                 break
 
             # yield doc
-- 
2.43.0


From 69bba597eec12fabfbec579154ce7400f231463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 11/84] fix: EojeolCounter.to_lrgraph honours
 ignore_one_syllable

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 03dc95d..dea20e2 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -283,7 +283,7 @@ class EojeolCounter:
         return self._counter.items()
 
     def to_lrgraph(self, l_max_length=10, r_max_length=9, ignore_one_syllable=False):
-        return self._to_lrgraph(self._counter, l_max_length, r_max_length)
+        return self._to_lrgraph(self._counter, l_max_length, r_max_length, ignore_one_syllable)
 
     def _to_lrgraph(self, counter, l_max_length=10, r_max_length=9, ignore_one_syllable=False):
         _lrgraph = defaultdict(lambda: defaultdict(int))
-- 
2.43.0


From 40ffb98e53e5618ec0ff4ac775ba8a8ea73b8227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 12/84] fix: LRGraph built from sentences counts each word once

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index dea20e2..faabe95 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -349,7 +349,7 @@ class LRGraph:
                     l, r = word[:e], word[e:]
                     if len(r) > self.r_max_length:
                         continue
-                    lrgraph[l][r] += e
+                    lrgraph[l][r] += 1
         lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
         return lrgraph
 
-- 
2.43.0


From 8c3fef8aae7f6794b19f273e25942c65168d03cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 13/84] fix: LRGraph accepts new words and pairs

---
 soynlp/utils/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index faabe95..584fd88 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -385,13 +385,17 @@ class LRGraph:
         )
 
     def add_lr_pair(self, l, r, count=1):
-        self._lr[l][r] += count
+        rdict = self._lr.setdefault(l, {})
+        rdict[r] = rdict.get(r, 0) + count
         if r:
-            self._rl[r][l] += count
+            ldict = self._rl.setdefault(r, {})
+            ldict[l] = ldict.get(l, 0) + count
 
     def add_eojeol(self, eojeol, count=1):
-        for i in range(1, len(eojeol) + 1):
+        for i in range(1, min(len(eojeol), self.l_max_length) + 1):
             l, r = eojeol[:i], eojeol[i:]
+            if len(r) > self.r_max_length:
+                continue
             self.add_lr_pair(l, r, count)
 
     def remove_lr_pair(self, l, r, count=1):
-- 
2.43.0


From db84cd12ae530fdf6f7cadd36b6b6f50fc74b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 14/84] fix: an empty LRGraph can be reset, copied and loaded

---
 soynlp/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 584fd88..069a1f5 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -360,7 +360,7 @@ class LRGraph:
             except:
                 raise ValueError('lrgraph type should be dict of dict, not {}'.format(
                     type(lrgraph)))
-        nested_dict_type = type(list(lrgraph.values())[0])
+        nested_dict_type = type(list(lrgraph.values())[0]) if lrgraph else dict
         if nested_dict_type == defaultdict:
             lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
         elif not (nested_dict_type == dict):
@@ -376,7 +376,7 @@ class LRGraph:
         return lrgraph, rlgraph
 
     def reset_lrgraph(self):
-        if not self._lr_origin:
+        if self._lr_origin is None:
             return None
 
         self._lr, self._rl = self._check_lrgraph(
-- 
2.43.0


From 588fab7eeb243cf58c21b4c6246b95acfe9b3aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 15/84] fix: most_similar never returns more than topk items

---
 soynlp/utils/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 069a1f5..291c200 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -72,10 +72,10 @@ def most_similar(query, vector, item_to_idx, idx_to_item, topk=10):
         return []
     qvec = vector[q].reshape(1,-1)
     dist = pairwise_distances(qvec, vector, metric='cosine')[0]
-    sim_idxs = dist.argsort()
+    sim_idxs = [idx for idx in dist.argsort() if idx != q]
     if topk > 0:
-        sim_idxs = sim_idxs[:topk+1]
-    similars = [(idx_to_item[idx], 1 - dist[idx]) for idx in sim_idxs if idx != q]
+        sim_idxs = sim_idxs[:topk]
+    similars = [(idx_to_item[idx], 1 - dist[idx]) for idx in sim_idxs]
     return similars
 
 def check_corpus(corpus):
-- 
2.43.0


From 60258c6ede3673b4b390ebfff18255bbaca0f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 16/84] fix: check_dirs creates the missing directory

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 291c200..c471be4 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -24,7 +24,7 @@ def get_process_memory():
 
 def check_dirs(filepath):
     dirname = os.path.dirname(filepath)
-    if dirname and dirname == '.' and not os.path.exists(dirname):
+    if dirname and not os.path.exists(dirname):
         os.makedirs(dirname)
         print('created {}'.format(dirname))
 
-- 
2.43.0


From 8c20c355eb85440bb12082236f174a71bd5e48a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 17/84] fix: from soynlp.utils import * works

---
 soynlp/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/__init__.py b/soynlp/utils/__init__.py
index 6a98c89..8645764 100644
--- a/soynlp/utils/__init__.py
+++ b/soynlp/utils/__init__.py
@@ -11,7 +11,7 @@ from .math import svd
 
 __all__ = [
     # utils
-    'get_available_memory', 'get_process_memory', 'check_dirs'
+    'get_available_memory', 'get_process_memory', 'check_dirs',
     'sort_by_alphabet', 'most_similar', 'DoublespaceLineCorpus',
     'EojeolCounter', 'LRGraph',
     # math
-- 
2.43.0


From f1ac3779ac290bdd629fcc5e40a33eb6ac1fd11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 18/84] fix: bulk branching entropy and accessor variety
 include words of the maximum length

---
 soynlp/word/_word.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/word/_word.py b/soynlp/word/_word.py
index e53682b..c13e0d1 100644
--- a/soynlp/word/_word.py
+++ b/soynlp/word/_word.py
@@ -190,7 +190,7 @@ class WordExtractor:
         def get_entropy_table(parse, sorted_by_length, sorted_by_length_a, max_length, counter, counter_a):
             num_sum = sum((len(words) for length, words in sorted_by_length.items()))
             be = {}
-            for word_len in range(2, max_length):
+            for word_len in range(2, max_length + 1):
                 words = sorted_by_length.get(word_len, [])
                 extensions = defaultdict(lambda: [])
                 for word in words:
-- 
2.43.0


From f4913e3f356e9e3a53511e5b382e4be4f8b21461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 19/84] fix: pmi_memory_friendly runs

---
 soynlp/word/_pmi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/word/_pmi.py b/soynlp/word/_pmi.py
index 5529404..22b9bb0 100644
--- a/soynlp/word/_pmi.py
+++ b/soynlp/word/_pmi.py
@@ -121,12 +121,12 @@ def pmi_memory_friendly(X, py=None, min_pmi=0, alpha=0.0, beta=1.0, verbose=Fals
     assert 0 < beta <= 1
 
     # convert x to probability matrix & marginal probability 
-    px = (X.sum(axis=1) / X.sum()).reshape(-1)
+    px = np.asarray((X.sum(axis=1) / X.sum()).reshape(-1))
     if py is None:
-        py = (X.sum(axis=0) / X.sum()).reshape(-1)
+        py = np.asarray((X.sum(axis=0) / X.sum()).reshape(-1))
     pxy = X / X.sum()
 
-    assert py.shape[0] == pxy.shape[1]
+    assert py.shape[1] == pxy.shape[1]
 
     if beta < 1:
         py = py ** beta
-- 
2.43.0


From f0c2d3382c103ef07d198130bc0b3057234abddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 20/84] fix: Bigram unigram frequency counts every occurrence

---
 soynlp/word/_phrase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index 316821a..edcb6b1 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -64,7 +64,7 @@ class Bigram:
         self._unigram = {}
         for bigram, freq in self._counter.items():
             for unigram in bigram:
-                self._unigram[unigram] = self._unigram.get(unigram, 0) + 1
+                self._unigram[unigram] = self._unigram.get(unigram, 0) + freq
 
         if self.verbose:
             print('\r[Bigram Extractor] scanning {} unigrams, {} bigrams from {} sents'.format(
-- 
2.43.0


From 2f452f1ae00927ab886e2ce4f67d1844857c80b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 21/84] fix: Bigram is trained with the sentences given to its
 constructor

---
 soynlp/word/_phrase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index edcb6b1..766735d 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -28,6 +28,9 @@ class Bigram:
         self.ngram_selector = ngram_selector
         self._counter = None
 
+        if sentences is not None:
+            self.train(sentences)
+
     @property
     def is_trained(self):
         return self._counter
@@ -40,6 +43,7 @@ class Bigram:
 
         self._counter = {}
 
+        i_sent = 0
         for i_sent, sent in enumerate(sentences):
 
             if self.filtering_checkpoint > 0 and i_sent % self.filtering_checkpoint == 0:
-- 
2.43.0


From f2ba79b4f198fc33c9f42591e99bd685103bd94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 22/84] fix: Bigram.extract honours topk

---
 soynlp/word/_phrase.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index 766735d..fba13aa 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -98,14 +98,17 @@ class Bigram:
 
         bigrams = {word:NgramScore(freq, pmis[word]) for word, freq
                    in self._counter.items() if word in pmis}
+        return self._select_topk(bigrams, topk)
+
+    def _select_topk(self, bigrams, topk):
+        if topk > 0:
+            bigrams = dict(sorted(bigrams.items(), key=lambda x:-x[1].score)[:topk])
         return bigrams
 
     def _extract_by_frequency(self, topk=-1, threshold=10):
         bigrams = filter(lambda x:x[1] >= threshold, self._counter.items())
-        if topk > 0:
-            bigrams = sorted(bigrams, key=lambda x:-x[1])
         bigrams = {word:NgramScore(freq, freq) for word, freq in bigrams}
-        return bigrams
+        return self._select_topk(bigrams, topk)
 
     def _extract_by_mikolov(self, topk=-1, threshold=0):
 
@@ -122,4 +125,4 @@ class Bigram:
 
         bigrams = {word:NgramScore(freq, scores[word]) for word, freq
                    in self._counter.items() if word in scores}
-        return bigrams
\ No newline at end of file
+        return self._select_topk(bigrams, topk)
\ No newline at end of file
-- 
2.43.0


From 829b44306eacef7cc3bbe149752a2e71f9eb5adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 23/84] fix: BaseVectorizer min_tf and max_tf count every
 occurrence

---
 soynlp/vectorizer/_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index 4e04d54..daa4631 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -43,7 +43,7 @@ class BaseVectorizer:
             counter = Counter((token for token in self.tokenizer(doc)))
             for term, freq in counter.items():
                 df[term] = df.get(term, 0) + 1
-                tf[term] = tf.get(term, 0) + 1
+                tf[term] = tf.get(term, 0) + freq
 
         if self.verbose:
             print('\rscanning was done{}'.format(' '*40), flush=True)
-- 
2.43.0


From 10d925d98d58a51f16cfc2062ead4442dd0843d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 24/84] fix: BaseVectorizer honours stopwords and lowercase

---
 soynlp/vectorizer/_vectorizer.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index daa4631..84807b5 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -27,6 +27,12 @@ class BaseVectorizer:
         self.idx2vocab = []
         self.n_vocabs = 0
 
+    def _tokenize(self, doc):
+        tokens = self.tokenizer(doc)
+        if self.lowercase:
+            tokens = [token.lower() if isinstance(token, str) else token for token in tokens]
+        return [token for token in tokens if not (token in self.stopwords)]
+
     def fit_transform(self, docs):
         self.fit(docs)
         return self.transform(docs)
@@ -40,7 +46,7 @@ class BaseVectorizer:
             if self.verbose and i_doc % self._check_points == 0:
                 print('\rscanned {} docs'.format(i_doc), flush=True, end='')
 
-            counter = Counter((token for token in self.tokenizer(doc)))
+            counter = Counter((token for token in self._tokenize(doc)))
             for term, freq in counter.items():
                 df[term] = df.get(term, 0) + 1
                 tf[term] = tf.get(term, 0) + freq
@@ -99,7 +105,7 @@ class BaseVectorizer:
             if self.verbose and i % self._check_points == 0:
                 print('\rscanning number of elements from {} docs'.format(
                     i), flush=True, end='')
-            words = self.tokenizer(doc)
+            words = self._tokenize(doc)
             n_elements += len({word for word in words if word in self.vocabulary_})
         n_docs = i + 1
         if self.verbose:
@@ -122,7 +128,7 @@ class BaseVectorizer:
                 if self.verbose and i % self._check_points == 0:
                     print('\rwriting to file {} % {}'.format(
                         100 * i / n_docs, ' '*30), flush=True, end='')
-                words = self.tokenizer(doc)
+                words = self._tokenize(doc)
                 words = Counter([self.vocabulary_[word]
                     for word in words if word in self.vocabulary_])
                 for j, count in words.items():
@@ -134,13 +140,13 @@ class BaseVectorizer:
         return self.n_vocabs
 
     def encode_a_doc_to_list(self, doc):
-        return [self.vocabulary_[term] for term in self.tokenizer(doc) if term in self.vocabulary_]
+        return [self.vocabulary_[term] for term in self._tokenize(doc) if term in self.vocabulary_]
 
     def decode_from_list(self, doc):
         return [self.idx2vocab[idx] for idx in doc if 0 <= idx < self.n_vocabs]
 
     def encode_a_doc_to_bow(self, doc):
-        bow = Counter(self.tokenizer(doc))
+        bow = Counter(self._tokenize(doc))
         bow = {self.vocabulary_[term]:count for term, count in bow.items() if term in self.vocabulary_}
         return bow
 
-- 
2.43.0


From 4e06eb9474c555edaa6d0354da6b22bf84220ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 25/84] fix: BaseVectorizer accepts an empty list of documents

---
 soynlp/vectorizer/_vectorizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index 84807b5..b846c1a 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -42,6 +42,7 @@ class BaseVectorizer:
         df = {}
         tf = {}
 
+        i_doc = -1
         for i_doc, doc in enumerate(docs):
             if self.verbose and i_doc % self._check_points == 0:
                 print('\rscanned {} docs'.format(i_doc), flush=True, end='')
@@ -78,6 +79,7 @@ class BaseVectorizer:
         rows = []
         cols = []
         data = []
+        i_doc = -1
         for i_doc, doc in enumerate(docs):
             if self.verbose and i_doc % self._check_points == 0:
                 print('\rtransformed {} docs'.format(i_doc), flush=True, end='')
@@ -101,6 +103,7 @@ class BaseVectorizer:
         file_path = os.path.abspath(file_path)
         # check n_elements
         n_elements = 0
+        i = -1
         for i, doc in enumerate(docs):
             if self.verbose and i % self._check_points == 0:
                 print('\rscanning number of elements from {} docs'.format(
-- 
2.43.0


From 217c8805a8e93b6348561c5fd1d7b276d3fa1196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 26/84] fix: BaseVectorizer.load keeps the blanks that belong
 to a term

---
 soynlp/vectorizer/_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index b846c1a..a28846a 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -168,7 +168,7 @@ class BaseVectorizer:
         if fname[-6:] != '.vocab':
             fname += '.vocab'
         with open(fname, encoding='utf-8') as f:
-            self.idx2vocab = [term.strip() for term in f]
+            self.idx2vocab = [term.rstrip('\n') for term in f]
         self.vocabulary_ = {term:idx for idx, term in enumerate(self.idx2vocab)}
         self.n_vocabs = len(self.idx2vocab)
 
-- 
2.43.0


From 72119c4759fb1f43954cd1c74ca09370a260cb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 27/84] fix: word-context matrix has a row and a column for
 every word

---
 soynlp/vectorizer/_word_context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_word_context.py b/soynlp/vectorizer/_word_context.py
index f959516..22df154 100644
--- a/soynlp/vectorizer/_word_context.py
+++ b/soynlp/vectorizer/_word_context.py
@@ -113,7 +113,8 @@ def _encode_as_matrix(word2contexts, vocab2idx, verbose):
             rows.append(word_idx)
             cols.append(context_idx)
             data.append(cooccurrence)
-    x = csr_matrix((data, (rows, cols)))
+    n_vocabs = len(vocab2idx)
+    x = csr_matrix((data, (rows, cols)), shape=(n_vocabs, n_vocabs))
 
     if verbose:
         print('  - (word, context) matrix was constructed. shape = {}{}'.format(
-- 
2.43.0


From aa3894fc30df3a0c0402d0a7802168ddd0d151f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 28/84] fix: sent_to_word_contexts_matrix accepts an empty
 corpus

---
 soynlp/vectorizer/_word_context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/vectorizer/_word_context.py b/soynlp/vectorizer/_word_context.py
index 22df154..2f93614 100644
--- a/soynlp/vectorizer/_word_context.py
+++ b/soynlp/vectorizer/_word_context.py
@@ -30,6 +30,7 @@ def _scanning_vocabulary(sents, min_tf, tokenizer, verbose):
     # counting word frequency, first
     word_counter = defaultdict(int)
 
+    i_sent = 0
     for i_sent, sent in enumerate(sents):
 
         if verbose and i_sent % 1000 == 0:
@@ -67,6 +68,7 @@ def _word_context(sents, windows, tokenizer, dynamic_weight, verbose, vocab2idx)
     else:
         weight = [1] * windows
 
+    i_sent = 0
     for i_sent, sent in enumerate(sents):
 
         if verbose and i_sent % 1000 == 0:
-- 
2.43.0


From b9e3a3b1df5cef8de9405ef484054af62f7804fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 29/84] fix: postagger Dictionary may be empty

---
 soynlp/postagger/_dictionary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/postagger/_dictionary.py b/soynlp/postagger/_dictionary.py
index 19e81e5..6af70f3 100644
--- a/soynlp/postagger/_dictionary.py
+++ b/soynlp/postagger/_dictionary.py
@@ -24,7 +24,7 @@ class Dictionary:
                 raise ValueError('dictionary file does not exist')
 
     def _check_max_length(self, pos_dict):
-        return max((len(word) for words in pos_dict.values() for word in words))
+        return max((len(word) for words in pos_dict.values() for word in words), default=0)
 
     def get_pos(self, word):
         tags = []
@@ -43,7 +43,7 @@ class Dictionary:
             message = 'Check your tag or use add_words(tag, words, force=True)'.format(tag)
             raise ValueError(message)
 
-        max_length = max((len(word) for word in words))
+        max_length = max((len(word) for word in words), default=0)
         if self.max_length < max_length:
             self.max_length = max_length
 
-- 
2.43.0


From 6d44d5fd8a66ed4beee3dc4d950dfc86961ce1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 30/84] fix: postagger Dictionary keeps its own set of words

---
 soynlp/postagger/_dictionary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/postagger/_dictionary.py b/soynlp/postagger/_dictionary.py
index 6af70f3..64467ba 100644
--- a/soynlp/postagger/_dictionary.py
+++ b/soynlp/postagger/_dictionary.py
@@ -68,8 +68,8 @@ class Dictionary:
 
     def _type_check(self, words):
         if isinstance(words, str):
-            words = set(words.split())
-        return words
+            words = words.split()
+        return set(words)
 
     def load(self, filename):
         if sys.version_info.major == 2:
-- 
2.43.0


From 41a713a3498056fee87d7cbd18a46f83a4859a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 31/84] fix: LREvaluator returns the selected words in the
 order of the text

---
 soynlp/postagger/_evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/postagger/_evaluator.py b/soynlp/postagger/_evaluator.py
index d84a9f6..df3ef29 100644
--- a/soynlp/postagger/_evaluator.py
+++ b/soynlp/postagger/_evaluator.py
@@ -76,7 +76,7 @@ class LREvaluator(BaseEvaluator):
     def select_best(self, candidates):
         scored_candidates = [(c, self.evaluate(c)) for c in candidates]
         best = self._remove_overlapped(scored_candidates)
-        return sorted(best, key=lambda x:x[2])
+        return sorted(best, key=lambda x:x.b)
     
     def evaluate(self, candidate):
         is_noun_phrase = candidate.l_tag == 'Noun'
@@ -120,4 +120,4 @@ class LREvaluator(BaseEvaluator):
             for idx in reversed(removals):
                 del sorted_[idx]
                 
-        return sorted(best, key=lambda x:x[2])
\ No newline at end of file
+        return sorted(best, key=lambda x:x.b)
\ No newline at end of file
-- 
2.43.0


From b8a47832b9909d1ffebd4c3c5a38ec6c4c6b989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 32/84] fix: LREvaluator is_verb weight applies to verbs

---
 soynlp/postagger/_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/postagger/_evaluator.py b/soynlp/postagger/_evaluator.py
index df3ef29..19ed48b 100644
--- a/soynlp/postagger/_evaluator.py
+++ b/soynlp/postagger/_evaluator.py
@@ -82,7 +82,7 @@ class LREvaluator(BaseEvaluator):
         is_noun_phrase = candidate.l_tag == 'Noun'
         lr_are_known = candidate.l_tag is not None and candidate.r_tag is not None
         # tag preference
-        is_verb = candidate.l_tag == 'Adverb'
+        is_verb = candidate.l_tag == 'Verb'
         is_adjective = candidate.l_tag == 'Adjective'
         # length
         l_len = candidate.m - candidate.b
-- 
2.43.0


From 1fb46f28d07420cd68e7c7caba557e745b86ad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 33/84] fix: an eojeol without any known word is tagged as
 unknown instead of dropped

---
 soynlp/postagger/_tagger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/postagger/_tagger.py b/soynlp/postagger/_tagger.py
index 17dde72..8f5e839 100644
--- a/soynlp/postagger/_tagger.py
+++ b/soynlp/postagger/_tagger.py
@@ -58,6 +58,8 @@ class BasePostprocessor:
 class UnknowLRPostprocessor(BasePostprocessor):
     def postprocess(self, token, words):
         n = len(token)
+        if not words:
+            return [LR(token, None, '', None, 0, n, n)]
         adds = []
         if words and words[0].b > 0:
             adds.append(self._add_first_subword(token, words))
-- 
2.43.0


From e035a6e68f7e99af38f392a67ce313330fd18fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 34/84] fix: SimpleTagger debug mode works with the eojeol
 templates

---
 soynlp/postagger/_tagger.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soynlp/postagger/_tagger.py b/soynlp/postagger/_tagger.py
index 8f5e839..81b547c 100644
--- a/soynlp/postagger/_tagger.py
+++ b/soynlp/postagger/_tagger.py
@@ -39,7 +39,7 @@ class SimpleTagger(BaseTagger):
             
             if debug:
                 scored_candidates = [(c, self.evaluator.evaluate(c)) for c in candidates]
-                scored_candidates = sorted(scored_candidates, key=lambda x:(x[0].b, x[1]))
+                scored_candidates = sorted(scored_candidates, key=lambda x:(self._begin(x[0]), x[1]))
                 debug_.append(scored_candidates)
         
         # Flatten in a sentence
@@ -51,6 +51,10 @@ class SimpleTagger(BaseTagger):
         else:
             return sent_, debug_
 
+    def _begin(self, candidate):
+        # a candidate is either a LR or a list of LR
+        return candidate.b if isinstance(candidate, LR) else candidate[0].b
+
 class BasePostprocessor:
     def postprocess(self, token, best_wordstream):
         return best_wordstream
-- 
2.43.0


From a3c94b532e3d736a5286a7a860efc2c9eb98211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 35/84] fix: conjugation and lemmatization accept jamo and
 non-Korean characters

---
 soynlp/lemmatizer/_conjugation.py | 15 ++++++++++++++-
 soynlp/lemmatizer/_lemmatizer.py  | 14 +++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index e021f53..14eb03f 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -1,6 +1,8 @@
 # -*- encoding:utf8 -*-
 
 from soynlp.hangle import compose, decompose
+from soynlp.hangle import character_is_complete_korean, character_is_jaum
+from soynlp.hangle._hangle import jongsung_list
 
 positive_moum = set('ㅏㅑㅗㅛ') # 4 개의 양성모음만 기록
 negative_moum = set('ㅓㅕㅜㅠ') # 4 개의 음성모음만 기록
@@ -18,12 +20,20 @@ neg_to_pos = {
     'ㅠ': 'ㅛ'
 }
 
+def _is_conjugatable(stem, ending):
+    # the rules look into the last syllable of stem and the first syllable (or jaum) of ending
+    return (character_is_complete_korean(stem[-1]) and
+            (character_is_complete_korean(ending[0]) or character_is_jaum(ending[0])))
+
 def conjugate_chat(stem, ending, enforce_moum_harmoney=False, debug=False):
     if not ending:
         return {stem}
 
     candidates = conjugate(stem, ending, enforce_moum_harmoney, debug)
 
+    if not _is_conjugatable(stem, ending):
+        return candidates
+
     l_len = len(stem)
     l_last = list(decompose(stem[-1]))
     l_last_ = stem[-1]
@@ -31,7 +41,7 @@ def conjugate_chat(stem, ending, enforce_moum_harmoney=False, debug=False):
 
     # 어미의 첫글자가 종성일 경우 (-ㄴ, -ㄹ, -ㅂ, -ㅆ)
     # 이 + ㅂ니다 -> 입니다
-    if r_first[1] == ' ' and r_first[0] != ' ':
+    if r_first[1] == ' ' and r_first[0] in jongsung_list:
         l = stem[:-1] + compose(l_last[0], l_last[1], r_first[0])
         r = ending[1:]
         surface = l + r
@@ -47,6 +57,9 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
 
     assert ending # ending must be inserted
 
+    if not _is_conjugatable(stem, ending):
+        return {stem + ending}
+
     l_len = len(stem)
     l_last = list(decompose(stem[-1]))
     l_last_ = stem[-1]
diff --git a/soynlp/lemmatizer/_lemmatizer.py b/soynlp/lemmatizer/_lemmatizer.py
index 8397c2e..42cad19 100644
--- a/soynlp/lemmatizer/_lemmatizer.py
+++ b/soynlp/lemmatizer/_lemmatizer.py
@@ -1,6 +1,7 @@
 # -*- encoding:utf8 -*-
 
 from soynlp.hangle import compose, decompose
+from soynlp.hangle import character_is_complete_korean
 from ._conjugation import conjugate, conjugate_chat
 
 class Lemmatizer:
@@ -47,6 +48,8 @@ def lemma_candidate_chat(l, r, predefined=None, debug=False):
         return c in set('ㄷㅂㅅㅇㅋㅎ')
 
     candidates = lemma_candidate(l, r, predefined, debug)
+    if not character_is_complete_korean(l[-1]):
+        return candidates
     l_last = decompose(l[-1])
 
     # 어미가 ㄷ, ㅂ, ㅅ, ㅇ, ㅋ, ㅎ 일 경우,
@@ -67,11 +70,16 @@ def lemma_candidate(l, r, predefined=None, debug=False):
     candidates = {(l, r)}
     word = l + r
 
+    # the rules look into the last syllable of l
+    if not character_is_complete_korean(l[-1]):
+        return candidates if r else set()
+
     l_last = decompose(l[-1])
     l_last_ = compose(l_last[0], l_last[1], ' ')
     l_front = l[:-1]
-    r_first = decompose(r[0]) if r else ('', '', '')
-    r_first_ = compose(r_first[0], r_first[1], ' ') if r else ' '
+    r_is_syllable = r and character_is_complete_korean(r[0])
+    r_first = decompose(r[0]) if r_is_syllable else ('', '', '')
+    r_first_ = compose(r_first[0], r_first[1], ' ') if r_is_syllable else ' '
     r_end = r[1:]
 
     # ㄷ 불규칙 활용: 깨달 + 아 -> 깨닫 + 아
@@ -234,7 +242,7 @@ def lemma_candidate(l, r, predefined=None, debug=False):
         if not eomi:
             continue
         # hard rule
-        if decompose(eomi[0])[2] == 'ㅎ':
+        if character_is_complete_korean(eomi[0]) and decompose(eomi[0])[2] == 'ㅎ':
             continue
         surfaces = conjugate(stem, eomi)
         if word in surfaces:
-- 
2.43.0


From 19865422e12548c7805e916c1ad63d3b0be929f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 36/84] fix: Lemmatizer.candidates runs

---
 soynlp/lemmatizer/_lemmatizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_lemmatizer.py b/soynlp/lemmatizer/_lemmatizer.py
index 42cad19..145bc6b 100644
--- a/soynlp/lemmatizer/_lemmatizer.py
+++ b/soynlp/lemmatizer/_lemmatizer.py
@@ -34,7 +34,7 @@ class Lemmatizer:
         for i in range(1, len(word) + 1):
             l = word[:i]
             r = word[i:]
-            candidates.update(self.lemma_candidate(l, r, self._predefined))
+            candidates.update(lemma_candidate(l, r, self._predefined))
         return candidates
 
 def debug_message(message, l, r):
-- 
2.43.0


From ed23dd7e7de3afccce68661fca36c141bb6ef0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 37/84] =?UTF-8?q?fix:=20conjugating=20=ED=91=B8=20keeps=20?=
 =?UTF-8?q?the=20final=20consonant=20of=20the=20ending?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index 14eb03f..f5382b9 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -174,7 +174,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
     # 우 불규칙 활용: 푸 + 어 -> 퍼 / 주 + 어 -> 줘
     if l_last[1] == 'ㅜ' and l_last[2] == ' ' and r_first[0] == 'ㅇ' and r_first[1] == 'ㅓ':
         if l_last_ == '푸':
-            l = stem[:-1] + '퍼'
+            l = stem[:-1] + compose('ㅍ', 'ㅓ', r_first[2])
         else:
             l = stem[:-1] + compose(l_last[0], 'ㅝ', r_first[2])
         r = ending[1:]
-- 
2.43.0


From 65b798f74104fac7338ae11b533db594fee77f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 38/84] =?UTF-8?q?fix:=20only=20positive=20vowels=20take=20?=
 =?UTF-8?q?=EC=95=84=EB=9D=BC=20as=20imperative=20ending?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index f5382b9..c75d515 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -221,12 +221,12 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
             l = stem
             r = ending[1:]
         else:
-            if l_last[1] in negative_moum:
+            if l_last[1] in positive_moum:
                 l = stem
-                r = '어' + ending[1:]
+                r = '아' + ending[1:]
             else:
                 l = stem
-                r = '아' + ending[1:]
+                r = '어' + ending[1:]
         surface = l + r
         candidates.add(surface)
         if debug:
-- 
2.43.0


From 36be031f9353d7ef00eb374890a8311774d967ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 39/84] =?UTF-8?q?fix:=20stems=20ending=20in=20=EA=BC=BD=20?=
 =?UTF-8?q?break=20vowel=20harmony,=20not=20those=20ending=20in=20?=
 =?UTF-8?q?=EA=B3=B1?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index c75d515..381d898 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -126,7 +126,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
     if (l_last[2] == 'ㅂ'):
         l = stem[:-1] + compose(l_last[0], l_last[1], ' ')
         if (r_first_ == '어' or r_first_ == '아'):
-            if l_len >= 2 and (l_last_ == '답' or l_last_ == '곱' or l_last_ == '깝' or l_last_ == '롭'):
+            if l_len >= 2 and (l_last_ == '답' or l_last_ == '꼽' or l_last_ == '깝' or l_last_ == '롭'):
                 c1 = 'ㅝ'
             elif r_first[1] == 'ㅗ':
                 c1 = 'ㅘ'
-- 
2.43.0


From b50e5dc7a591a36e7ee0e9d13ce95ace5d48b651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 40/84] fix: enforced vowel harmony leaves endings that start
 with a consonant alone

---
 soynlp/lemmatizer/_conjugation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index 381d898..3cbb069 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -76,7 +76,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
              (r_first[0] == 'ㅇ' and r_first[1] in positive_moum) ):
             r_first[1] = pos_to_neg[r_first[1]]
             ending = compose(*r_first) + ending[1:]
-        if (l_last[1] in neuter_moum) and (r_first[1] in positive_moum):
+        if (l_last[1] in neuter_moum) and (r_first[0] == 'ㅇ' and r_first[1] in positive_moum):
             r_first[1] = pos_to_neg[r_first[1]]
             ending = compose(*r_first) + ending[1:]
 
-- 
2.43.0


From 4dde5c184c80ecf846fd074305fcccac70516deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 41/84] =?UTF-8?q?fix:=20=EB=A5=B4=20stems=20after=20a=20ja?=
 =?UTF-8?q?mo=20or=20a=20non-Korean=20character=20can=20be=20conjugated?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index 3cbb069..d03f623 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -111,7 +111,8 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
 
     # 르 불규칙 활용: 구르 + 어 -> 굴러
     if ( (l_last_ == '르' and stem[-2:] != '푸르') and
-         (r_first_ == '아' or r_first_ == '어') and l_len >= 2 ):
+         (r_first_ == '아' or r_first_ == '어') and l_len >= 2 and
+         character_is_complete_korean(stem[-2]) ):
         c0, c1, c2 = decompose(stem[-2])
         l = stem[:-2] + compose(c0, c1, 'ㄹ')
         r = compose('ㄹ', r_first[1], r_first[2]) + ending[1:]
@@ -327,7 +328,7 @@ def _conjugate_stem(stem, debug=False):
             print('ㄷ 불규칙')
 
     # 르 불규칙 활용: 구르 + 어 -> 굴러
-    if (l_last_ == '르') and l_len >= 2:
+    if (l_last_ == '르') and l_len >= 2 and character_is_complete_korean(stem[-2]):
         c0, c1, c2 = decompose(stem[-2])
         l = stem[:-2] + compose(c0, c1, 'ㄹ')
         candidates.add(l)
-- 
2.43.0


From d46533841c6bb70f1e5b55a3cf7d1caadb45d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 42/84] =?UTF-8?q?fix:=20=E3=85=8E-irregular=20stems=20cont?=
 =?UTF-8?q?ract=20with=20=EC=95=84=20and=20=EC=96=B4=20only,=20not=20with?=
 =?UTF-8?q?=20=EA=B1=B0=20or=20=EB=8D=94?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index d03f623..8b05245 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -273,7 +273,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
     # ㅎ (축약) 불규칙 할용
     # 파랗 + 았다 -> 파랬다 / 시퍼렇 + 었다 -> 시퍼렜다
     if ( (l_last[2] == 'ㅎ' and l_last_ != '좋') and
-         (r_first[0] == 'ㅇ' and r_first[1] == 'ㅏ' or r_first[1] == 'ㅓ') ):
+         (r_first[0] == 'ㅇ' and (r_first[1] == 'ㅏ' or r_first[1] == 'ㅓ')) ):
         l = stem[:-1] + compose(l_last[0], 'ㅐ' if r_first[1] == 'ㅏ' else 'ㅔ', r_first[2])
         r = ending[1:]
         surface = l + r
-- 
2.43.0


From e9be3b2a4301abf6cb64c59d3678530db686ab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 43/84] fix: LRNounExtractor keeps R parts of max_right_length
 letters

---
 soynlp/noun/_noun_ver1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index c21d4e7..8ec50df 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -96,7 +96,7 @@ class LRNounExtractor:
                 token_len = len(token)
                 for i in range(1, min(self.max_left_length, token_len)+1):
                     wordset_l[token[:i]] += 1
-                for i in range(1, min(self.max_right_length, token_len)):
+                for i in range(1, min(self.max_right_length + 1, token_len)):
                     wordset_r[token[-i:]] += 1
             if self.verbose and (i % 1000 == 999):
                 message = 'scanning {} / {} sents'.format(i+1, len(sents))
-- 
2.43.0


From 4c0cea3882aa2cca6958931b3a5985488233022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 44/84] fix: LRNounExtractor.extract honours min_noun_frequency

---
 soynlp/noun/_noun_ver1.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index 8ec50df..968f7ca 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -257,6 +257,9 @@ class LRNounExtractor:
             if word[-1] == '.' or word[-1] == ',':
                 removals.add(word)
                 continue
+            if self._substring_counter.get(word, 0) < min_noun_frequency:
+                removals.add(word)
+                continue
             n = len(word)
             if n <= 2 or longer_has_larger_cohesion(word):
                 continue
-- 
2.43.0


From 9883ca4db2419d2e9ae9bb76153566a86c148add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 45/84] fix: LRNounExtractor_v2 accepts a postprocessing list
 or name

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 92a228c..3a90b8e 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -45,7 +45,7 @@ class LRNounExtractor_v2:
                 'ignore_features',
                 'ignore_NJ'
             ]
-        elif isinstance(postprocessing) == str:
+        elif isinstance(postprocessing, str):
             postprocessing = [postprocessing]
 
         self.postprocessing = postprocessing
-- 
2.43.0


From 84271ed556060cb2b3b6c0ab9b03ed326e10ebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 46/84] fix: LRNounExtractor_v2 normalizes sentences unless
 they are said to be normalized

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 3a90b8e..05dbb78 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -157,7 +157,7 @@ class LRNounExtractor_v2:
         if self.verbose:
             print('[Noun Extractor] counting eojeols')
 
-        if not self.ensure_normalized:
+        if self.ensure_normalized:
             preprocess = lambda x:x
         else:
             preprocess = normalize_sent_for_lrgraph
-- 
2.43.0


From d43d68a1a385fea32b9dce2d46b2bd4f4799c588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 47/84] fix: LRNounExtractor_v2 compounds report frequency and
 score in the same order as nouns

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 05dbb78..75980d6 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -516,7 +516,7 @@ class LRNounExtractor_v2:
             print('\r[Noun Extractor] checked compounds. discovered {} compounds'.format(
                 len(compounds_scores)))
 
-        compounds = {noun:(score, compounds_counts.get(noun,0))
+        compounds = {noun:(compounds_counts.get(noun,0), score)
              for noun, score in compounds_scores.items()}
 
         self._compounds_components = compounds_components
-- 
2.43.0


From 4ae41818be8b7a0631b36af14283348bdc127f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 48/84] fix: extract_domain_pos_features reads (frequency,
 score) as the noun predictor gives it

---
 soynlp/noun/_josa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/noun/_josa.py b/soynlp/noun/_josa.py
index 62ac3cb..3f25640 100644
--- a/soynlp/noun/_josa.py
+++ b/soynlp/noun/_josa.py
@@ -8,8 +8,8 @@ def extract_domain_pos_features(prediction_scores, lrgraph,
     min_noun_entropy=1.5):
 
     nouns = {noun for noun, score in prediction_scores.items()
-             if ((score[0] >= min_noun_score) 
-                 and (score[1] >= min_noun_frequency))}
+             if ((score[1] >= min_noun_score) 
+                 and (score[0] >= min_noun_frequency))}
 
     if ignore_features is None:
         ignore_features = {}
-- 
2.43.0


From cf3fd31b973f7f8423c2fad289ff701d798f0a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 49/84] fix: LRNounExtractor_v2 reports coverage when no eojeol
 is frequent enough

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 75980d6..6910fb4 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -630,5 +630,5 @@ class LRNounExtractor_v2:
             print('\r[Noun Extractor] flushing was done. mem={} Gb{}'.format(
                 '%.3f' % get_process_memory(), ' '*20), flush=True)
             coverage = '%.2f' % (100 * self._num_of_covered_eojeols
-                / self._num_of_eojeols)
+                / max(1, self._num_of_eojeols))
             print('[Noun Extractor] {} % eojeols are covered'.format(coverage), flush=True)
\ No newline at end of file
-- 
2.43.0


From 64e3efa43a859eeebd5b2584b2c145e9fb477e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 50/84] fix: NewsNounExtractor accepts a base noun dictionary

---
 soynlp/noun/_noun_news.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index f58e5df..a518bd8 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -14,7 +14,7 @@ class NewsNounExtractor:
         self.max_right_length = max_right_length
         self.verbose = verbose
         self.r_scores = {}
-        self.noun_dictionary = noun_dictionary if base_noun_dictionary else {}
+        self.noun_dictionary = {noun:0 for noun in base_noun_dictionary} if base_noun_dictionary else {}
 
         import os
         directory = '/'.join(os.path.abspath(__file__).replace('\\', '/').split('/')[:-2])
-- 
2.43.0


From 634c84024d2a4d4e2f110a94460d87a75dfe6aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 51/84] fix: NewsNounExtractor tries every split of an eojeol
 into noun and verb

---
 soynlp/noun/_noun_news.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index a518bd8..56b0949 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -162,9 +162,9 @@ class NewsNounExtractor:
             n = len(l)
             if n < 4: return None
             for e in range(2, n-1):
-                (l, r) = (l[:e], l[e:])
-                if (self.predict(l)[0] >= min_noun_score) and (r in self._vdictionary):
-                    return (l, r)
+                (l0, r) = (l[:e], l[e:])
+                if (self.predict(l0)[0] >= min_noun_score) and (r in self._vdictionary):
+                    return (l0, r)
             return None
 
         candidates = {l:c for l,c in self.lcount.items()
-- 
2.43.0


From 2e8445e5ddb5a11f3c1cc401648a544e75a5d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 52/84] fix: NewsNounExtractor compares min_feature_proportion
 with the feature proportion

---
 soynlp/noun/_noun_news.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index 56b0949..c99badc 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -241,7 +241,7 @@ class NewsNounExtractor:
         self._noun_scores_ = dict(
             filter(
                 lambda x:((x[1][0] > min_noun_score) and
-                          (x[1][1] > min_feature_proportion) and
+                          (x[1][2] > min_feature_proportion) and
                           (len(x[0]) > 1)),
                        noun_scores.items()
             )
-- 
2.43.0


From 4699f03f348460e62807f2e6ba316d5d3c7b6520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 53/84] fix: NewsNounExtractor finds its verb and adjective
 dictionary

---
 soynlp/noun/_noun_news.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index c99badc..03ff56c 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -32,8 +32,8 @@ class NewsNounExtractor:
         print(directory)
 
         self._vdictionary = set()
-        self._vdictionary.update(self._load_dictionary('%s/pos/dictionary/sejong/Verb.txt' % directory))
-        self._vdictionary.update(self._load_dictionary('%s/pos/dictionary/sejong/Adjective.txt' % directory))
+        self._vdictionary.update(self._load_dictionary('%s/postagger/dictionary/sejong/Verb.txt' % directory))
+        self._vdictionary.update(self._load_dictionary('%s/postagger/dictionary/sejong/Adjective.txt' % directory))
 
     def _load_predictor(self, fname):
         try:
-- 
2.43.0


From 9cdad14d33a69922517b9dad828dbe5593194c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 54/84] fix: PredicatorExtractor keeps eojeols of exactly the
 minimum frequency

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index bb711ee..c341bef 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -329,7 +329,7 @@ class PredicatorExtractor:
         if (eojeol_counter is None) or (not eojeol_counter):
             eojeol_counter = {
                 eojeol:count for eojeol, count in self.eojeol_counter.items()
-                if (count > min_frequency) and all_character_are_complete_korean(eojeol)
+                if (count >= min_frequency) and all_character_are_complete_korean(eojeol)
             }
 
         lemmas = self._as_lemma_candidates(eojeol_counter)
-- 
2.43.0


From c41005faeb98ed6762ff0a83a6a1742b51efc9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 55/84] fix: PredicatorExtractor.train honours
 min_eojeol_frequency for sentences

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index c341bef..5e87471 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -213,7 +213,7 @@ class PredicatorExtractor:
             preprocess = preprocess
         )
 
-        self._train_with_eojeol_counter(eojeol_counter)
+        self._train_with_eojeol_counter(eojeol_counter, min_eojeol_frequency)
 
     def _train_with_eojeol_counter(self, eojeol_counter, min_eojeol_frequency=2):
         eojeol_counter._counter = {
-- 
2.43.0


From 74b5d3f6c2f4c455a5d359c781fe22d4f10ad8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 56/84] fix: PredicatorExtractor.train leaves the given
 EojeolCounter unchanged

---
 soynlp/predicator/_predicator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 5e87471..a3a5d80 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -216,10 +216,13 @@ class PredicatorExtractor:
         self._train_with_eojeol_counter(eojeol_counter, min_eojeol_frequency)
 
     def _train_with_eojeol_counter(self, eojeol_counter, min_eojeol_frequency=2):
-        eojeol_counter._counter = {
+        counter = {
             eojeol:count for eojeol, count in eojeol_counter._counter.items()
             if count >= min_eojeol_frequency}
 
+        # do not filter the counter of the caller
+        eojeol_counter = EojeolCounter()
+        eojeol_counter._counter = counter
         eojeol_counter._set_count_sum()
         self._num_of_eojeols = len(eojeol_counter)
         self._num_of_covered_eojeols = 0
-- 
2.43.0


From 336b3e17f569127acc8f681eebc60149ff004052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 57/84] fix: PredicatorExtractor keeps its own set of eomis

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index a3a5d80..0e7853c 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -53,7 +53,7 @@ class PredicatorExtractor:
         self._verb_stems = verbs
         self._stems = {stem for stem in adjectives}
         self._stems = self._stems.union(verbs)
-        self._eomis = eomis
+        self._eomis = {eomi for eomi in eomis}
         self.verbose = verbose
         self.extract_eomi = extract_eomi
         self.extract_stem = extract_stem
-- 
2.43.0


From 7668d9e1055499828b9d5a480f900a950c85d12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 58/84] fix: PredicatorExtractor reports coverage when no
 eojeol is frequent enough

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 0e7853c..3e8534e 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -392,7 +392,7 @@ class PredicatorExtractor:
 
         lemmas = self._remove_wrong_eomis(lemmas, eomi_to_word_count)
         if self.verbose:
-            perc = '%.3f' % (100 * self._count_of_covered_eojeols / self._count_of_eojeols)
+            perc = '%.3f' % (100 * self._count_of_covered_eojeols / max(1, self._count_of_eojeols))
             message = 'lemma candidating was done'
             self._print(message, replace=True, newline=True)
 
-- 
2.43.0


From 32836b7d4c23be9e4beafded95d8f54a134413ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 59/84] fix: StemExtractor reports (frequency, score) of a
 stem, not sums of scores

---
 soynlp/predicator/_stem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/predicator/_stem.py b/soynlp/predicator/_stem.py
index cb32cf6..da1775e 100644
--- a/soynlp/predicator/_stem.py
+++ b/soynlp/predicator/_stem.py
@@ -250,14 +250,14 @@ class StemExtractor:
             return (freq0 + freq1, (score0 * freq0 + score1 * freq1) / (freq0 + freq1))
 
         stems = {}
-        for l, (freq0, score0) in surfaces.items():
+        for l, (score0, _) in surfaces.items():
             for r, count in self.lrgraph.get_r(l, -1):
                 try:
                     for stem, eomi in lemma_candidate(l, r):
                         if eomi in self.eomis:
                             continue
                         stems[stem] = merge_score(
-                            freq0, score0, *stems.get(stem, (0, 0)))
+                            count, score0, *stems.get(stem, (0, 0)))
                 except:
                     continue
 
-- 
2.43.0


From 10426b3a5a460866e4c79b300a15c734a1d5851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 60/84] fix: StemExtractor accepts a stem that is followed by
 known eomis

---
 soynlp/predicator/_stem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_stem.py b/soynlp/predicator/_stem.py
index da1775e..b81d2ab 100644
--- a/soynlp/predicator/_stem.py
+++ b/soynlp/predicator/_stem.py
@@ -254,7 +254,7 @@ class StemExtractor:
             for r, count in self.lrgraph.get_r(l, -1):
                 try:
                     for stem, eomi in lemma_candidate(l, r):
-                        if eomi in self.eomis:
+                        if not (eomi in self.eomis):
                             continue
                         stems[stem] = merge_score(
                             count, score0, *stems.get(stem, (0, 0)))
-- 
2.43.0


From 50271a1597b6127a34cb3129c8fb259b5dc8ff69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 61/84] fix: NewsPOSExtractor prints statistics when no eojeol
 is frequent enough

---
 soynlp/pos/_news_pos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/pos/_news_pos.py b/soynlp/pos/_news_pos.py
index b6b95ee..9ec1687 100644
--- a/soynlp/pos/_news_pos.py
+++ b/soynlp/pos/_news_pos.py
@@ -391,7 +391,7 @@ class NewsPOSExtractor:
 
         print('\n[POS Extractor] ## statistics')
 
-        as_percent = lambda dic: 100 * sum(dic.values()) / total_frequency
+        as_percent = lambda dic: 100 * sum(dic.values()) / max(1, total_frequency)
 
         stats = [
             (len(nouns), as_percent(nouns), 'Noun + [Josa/Predicator]'),
-- 
2.43.0


From 8a9c92613f53896085204cde456b87954648abce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 62/84] fix: POSExtractor calls the noun and predicator
 extractors with their current parameters

---
 soynlp/postagger/_pos_extractor.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/soynlp/postagger/_pos_extractor.py b/soynlp/postagger/_pos_extractor.py
index 07b3869..1e60532 100644
--- a/soynlp/postagger/_pos_extractor.py
+++ b/soynlp/postagger/_pos_extractor.py
@@ -39,23 +39,22 @@ class POSExtractor:
     def _extract_nouns(self, sentences):
 
         noun_extractor = LRNounExtractor_v2(
-            l_max_length = self.l_max_length,
-            r_max_length = self.r_max_length,
-            min_eojeol_count = 2,
+            max_left_length = self.l_max_length,
+            max_right_length = self.r_max_length,
             min_num_of_features = 2,
-            max_count_when_noun_is_eojeol = 15,
+            max_frequency_when_noun_is_eojeol = 15,
             extract_compound = False,
             logpath = self.logpath,
             extract_pos_feature = True,
             verbose = self.verbose
         )
 
-        noun_extractor.train(sentences)
+        noun_extractor.train(sentences, min_eojeol_frequency=2)
 
         nouns = noun_extractor.extract(
             reset_lrgraph = False,
-            min_count = 10,
-            minimum_noun_score = 0.4,
+            min_noun_frequency = 10,
+            min_noun_score = 0.4,
         )
 
         self._lrgraph = LRGraph(
@@ -83,10 +82,8 @@ class POSExtractor:
             verbose = self.verbose
         )
 
-        predicator_extractor.train(sentences_or_lrgraph, min_eojeol_count=2)
-
-        predicators = predicator_extractor.extract(
-            candidates=None, min_count=10, reset_lrgraph=True,
+        predicator_extractor.train(
+            sentences_or_lrgraph, min_eojeol_frequency=2,
             # Eomi extractor
             min_num_of_features=5, min_eomi_score=0.3, min_eomi_frequency=1,
             # Stem extractor
@@ -94,6 +91,9 @@ class POSExtractor:
             min_entropy_of_R=1.5, min_stem_score=0.7, min_stem_frequency=100
         )
 
+        predicators = predicator_extractor.extract(
+            candidates=None, min_predicator_frequency=10)
+
         self._num_of_covered_eojeols += predicator_extractor._num_of_covered_eojeols
 
         self.predicator_extractor = predicator_extractor
-- 
2.43.0


From 6c99e90e149cdaf6977c3bdfeea79457fe382a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 63/84] fix: NewsPOSExtractor counts the noun of an eojeol once

---
 soynlp/pos/_news_pos.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soynlp/pos/_news_pos.py b/soynlp/pos/_news_pos.py
index 9ec1687..0077313 100644
--- a/soynlp/pos/_news_pos.py
+++ b/soynlp/pos/_news_pos.py
@@ -269,14 +269,16 @@ class NewsPOSExtractor:
         def match_process(eojeols, nouns, rset, rcounter, removals):
             noun_r = [(self._separate_lr(word, nouns, rset), count) for word, count in eojeols.items()]
             noun_r = [(word, count) for word, count in noun_r if word is not None]
-            nouns = self._cumulate_counter(nouns, [(word[0], count) for word, count in noun_r])
+            # an eojeol which is parsed as the same (noun, r) more than once is counted once
+            nouns = self._cumulate_counter(nouns, [(word[0], count) for word, count in noun_r if not (word in removals)])
             rcounter = self._cumulate_counter(rcounter, [(word[1], count) for word, count in noun_r])
-            removals.update({''.join(word) for word, _ in noun_r})
+            removals.update({word for word, _ in noun_r})
             return nouns, rcounter, removals
 
         nouns, josas, removals = match_process(eojeols, nouns, josas, {}, set())
         nouns, adjectives, removals = match_process(eojeols, nouns, adjectives, adjectives, removals)
         nouns, verbs, removals = match_process(eojeols, nouns, verbs, verbs, removals)
+        removals = {''.join(word) for word in removals}
         eojeols = self._remove_recognized(eojeols, removals)
 
         return eojeols, nouns, adjectives, verbs, josas
@@ -350,7 +352,8 @@ class NewsPOSExtractor:
             for word, count in eojeols.items():
                 l, r = word[:1], word[1:]
                 if r in rcounter:
-                    nouns[l] = nouns.get(l, 0) + count
+                    if not (word in removals):
+                        nouns[l] = nouns.get(l, 0) + count
                     rcounter[r] = rcounter.get(r, 0) + count
                     removals.add(word)
             return removals
-- 
2.43.0


From 974012e1285cade8e06433740ab5b3448faf7e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 64/84] fix: ChatPOSExtractor keeps the stems of predicator
 compounds

---
 soynlp/pos/_chat_pos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/pos/_chat_pos.py b/soynlp/pos/_chat_pos.py
index fdeda3d..44de49d 100644
--- a/soynlp/pos/_chat_pos.py
+++ b/soynlp/pos/_chat_pos.py
@@ -137,7 +137,7 @@ class ChatPOSExtractor(NewsPOSExtractor):
         wrong_stems = find_wrong_stem(predicator_compounds)
         predicator_compounds = delete_predicators_having_wrong_stem(
             predicator_compounds, wrong_stems)
-        stems = {stem for stem in wrong_stems if not (stem in wrong_stems)}
+        stems = {stem for stem in stems if not (stem in wrong_stems)}
         counter = {word:count for word, count in counter.items() if word in predicator_compounds}
         return predicator_compounds, stems, counter
 
-- 
2.43.0


From 1eba57a01d2da3cfa97b21a77759d5e43d547a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 65/84] fix: MaxScoreTokenizer keeps choosing words past the
 hundredth of a token

---
 soynlp/tokenizer/_tokenizer.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 6beb3ba..61a0db1 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -177,7 +177,6 @@ class MaxScoreTokenizer:
 
     def _find(self, scores):
         result = []
-        num_iter = 0
         
         while scores:
             word, b, e, score, r = scores.pop(0)
@@ -194,9 +193,6 @@ class MaxScoreTokenizer:
             for i in reversed(removals):
                 del scores[i]
 
-            num_iter += 1
-            if num_iter > 100: break
-
         return sorted(result, key=lambda x:x[1])
     
     def _add_inter_subtokens(self, token, result):
-- 
2.43.0


From a12ab757ec58ab3259d54fac076832e0b9c7bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:20 +0000
Subject: [PATCH 66/84] fix: NewsNounExtractor finds compounds of compounds in
 any sentence order

---
 soynlp/noun/_noun_news.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index 03ff56c..7363563 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -193,7 +193,8 @@ class NewsNounExtractor:
             if c >= min_frequency and (self.eojeols.get(l, 0) / c) >= min_eojeol_proportion}
 
         begin = len(self.noun_dictionary)
-        for i, (l, c) in enumerate(candidates.items()):
+        # from shorter to longer; a compound can be a part of longer compounds
+        for i, (l, c) in enumerate(sorted(candidates.items(), key=lambda x:len(x[0]))):
             if self.verbose and (i+1) % 1000 == 0:
                 args = (len(self.noun_dictionary) - begin, i+1, len(candidates))
                 message = '\rextracting {} compounds from eojeols ... {} / {}'
-- 
2.43.0


From 5893df96b146d9e560baa19808177cc1b29098d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 67/84] =?UTF-8?q?fix:=20NewsNounExtractor=20removes=20noun?=
 =?UTF-8?q?=20+=20=EC=9C=BC=EB=A1=9C=20in=20any=20order=20of=20candidates?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/noun/_noun_news.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index 7363563..770a24d 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -264,7 +264,8 @@ class NewsNounExtractor:
         #     unijosa = {}
         self._noun_scores_postprocessed = {}
 
-        for i, (noun, score) in enumerate(self._noun_scores_.items()):
+        # from shorter to longer; the rules look at the shorter nouns that remain
+        for i, (noun, score) in enumerate(sorted(self._noun_scores_.items(), key=lambda x:len(x[0]))):
             if self.verbose and (i+1) % 1000 == 0:
                 message = '\rchecking hardrules ... {} / {}'
                 sys.stdout.write(message.format(i+1, len(self._noun_scores_)))
-- 
2.43.0


From 040bc771923adcd4a404306171fd9da2ba37d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 68/84] fix: MaxLRScoreTokenizer compares right parts with the
 left scores of the next words

---
 soynlp/tokenizer/_tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 61a0db1..2913a71 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -384,8 +384,8 @@ class MaxLRScoreTokenizer:
                     if overlappped:
                         break
                     for word in begin_to_words.get(b, []):
-                        score_diff = word[-2] + self.Pl.get(word[0], 0) - score_r
-                        if (self.ensurable_score_l <= word[-2]) or (score_diff > self.ensurable_score_lr_diff):
+                        score_diff = word[8] + self.Pl.get(word[0], 0) - score_r
+                        if (self.ensurable_score_l <= word[8]) or (score_diff > self.ensurable_score_lr_diff):
                             overlappped = True
                             break
                 if overlappped:
-- 
2.43.0


From 2e1b5e10a6fc728314551c055665615a4afda687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 69/84] fix: Dictionary no longer modifies the dict it is
 constructed from

---
 soynlp/postagger/_dictionary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soynlp/postagger/_dictionary.py b/soynlp/postagger/_dictionary.py
index 64467ba..5cbaa21 100644
--- a/soynlp/postagger/_dictionary.py
+++ b/soynlp/postagger/_dictionary.py
@@ -10,6 +10,7 @@ import os
 class Dictionary:
     def __init__(self, pos_dict):
         if isinstance(pos_dict, dict):
+            pos_dict = dict(pos_dict)
             for key in pos_dict:
                 if sys.version_info.major == 2:
                     pos_dict[key] = set(map(unicode, pos_dict[key]))
-- 
2.43.0


From 2573c4c906f9d8ace418f6a4eb5ba77e06a1d202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 70/84] =?UTF-8?q?fix:=20conjugating=20the=20stem=20?=
 =?UTF-8?q?=ED=91=B8=20on=20its=20own=20includes=20=ED=8D=BC=20and=20?=
 =?UTF-8?q?=ED=8E=90?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index 8b05245..5922fb3 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -364,7 +364,8 @@ def _conjugate_stem(stem, debug=False):
     # 우 불규칙 활용: 푸 + 어 -> 퍼 / 주 + 어 -> 줘
     if l_last[1] == 'ㅜ' and l_last[2] == ' ':
         if l_last_ == '푸':
-            l = '퍼'
+            candidates.add(stem[:-1] + '퍼')
+            candidates.add(stem[:-1] + '펐')
         else:
             candidates.add(stem[:-1] + compose(l_last[0], 'ㅝ', ' '))
             candidates.add(stem[:-1] + compose(l_last[0], 'ㅝ', 'ㅆ'))
-- 
2.43.0


From 08b5cf286ff9ffe2131ce084bef934e8e5fb6a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 71/84] fix: train_hits is a method and adds up every neighbour

---
 soynlp/tokenizer/_tokenizer_builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 008249c..2b8ec99 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -158,7 +158,7 @@ class EojeolPatternTrainer:
             self.lrgraph = lrgraph
             self.rlgraph = rlgraph
             
-    def train_hits(lrgraph=None, rlgraph=None, sum_of_rank=10000, decaying_factor=0.9, max_iter=10, tolerance=0.0001):
+    def train_hits(self, lrgraph=None, rlgraph=None, sum_of_rank=10000, decaying_factor=0.9, max_iter=10, tolerance=0.0001):
         def normalize(g, sum_of_rank, df):
             factor = df * sum_of_rank / sum(g.values())
             restart = (1 - df) * sum_of_rank / len(g)
@@ -176,14 +176,14 @@ class EojeolPatternTrainer:
         for n_iter in range(max_iter):
             next_rank_l = {}
             for l, rdict in lrgraph.items():
-                sum_rrank = sum({freq*rank_r[r] for r, freq in rdict.items() if r != ''})
+                sum_rrank = sum([freq*rank_r[r] for r, freq in rdict.items() if r != ''])
                 next_rank_l[l] = sum_rrank
             next_rank_l = normalize(next_rank_l, sum_of_rank, decaying_factor)
 
             next_rank_r = {}
             for r, ldict in rlgraph.items():
                 if r == '': continue
-                sum_lrank = sum({freq*rank_l[l] for l, freq in ldict.items()})
+                sum_lrank = sum([freq*rank_l[l] for l, freq in ldict.items()])
                 next_rank_r[r] = sum_lrank
             next_rank_r = normalize(next_rank_r, sum_of_rank, decaying_factor)
 
-- 
2.43.0


From 1f27e632529e0477cd0054527a4e7993d74c71be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:11 +0000
Subject: [PATCH 72/84] fix: EojeolPatternTrainer does not add the empty part
 to the caller's word set

---
 soynlp/tokenizer/_tokenizer_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 2b8ec99..2bdad01 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -61,8 +61,8 @@ class EojeolPatternTrainer:
     
     def _build_graph(self, sents, wordset_l, wordset_r):
         self.wordset_l = wordset_l
+        wordset_r = set(wordset_r) | {''}
         self.wordset_r = wordset_r
-        self.wordset_r.add('')
         _ckpt = max(1, int(len(sents) / 40))
         lrgraph = defaultdict(lambda: defaultdict(lambda: 0))
         rlgraph = defaultdict(lambda: defaultdict(lambda: 0))
-- 
2.43.0


From 67cc2ebae14d4f981c6ff1f8c0a24e27739fb302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 73/84] =?UTF-8?q?fix:=20conjugating=20a=20stem=20in=20?=
 =?UTF-8?q?=E3=85=A1=20with=20a=20bare=20=E3=85=87=20does=20not=20fail?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 soynlp/lemmatizer/_conjugation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_conjugation.py b/soynlp/lemmatizer/_conjugation.py
index 5922fb3..0c16e3b 100644
--- a/soynlp/lemmatizer/_conjugation.py
+++ b/soynlp/lemmatizer/_conjugation.py
@@ -194,7 +194,7 @@ def conjugate(stem, ending, enforce_moum_harmoney=False, debug=False):
             print('오 활용: {}'.format(surface))
 
     # ㅡ 탈락 불규칙 활용: 끄 + 어 -> 꺼 / 트 + 었다 -> 텄다
-    if ((l_last[1] == 'ㅡ') and (l_last[2] == ' ') and (r_first[0] == 'ㅇ')):
+    if ((l_last[1] == 'ㅡ') and (l_last[2] == ' ') and (r_first[0] == 'ㅇ') and (r_first[1] != ' ')):
         if l_last[0] == 'ㅇ' and len(stem) > 1:
             surface = stem[:-1] + ending
         elif l_last[0] != 'ㄹ':
-- 
2.43.0


From 3ffa1ad3856d3a2656f9a326c8efab3f4001ce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:53 +0000
Subject: [PATCH 74/84] fix: PredicatorExtractor drops exactly the lemmas with
 a distrusted eomi

---
 soynlp/predicator/_predicator.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 3e8534e..d4fc955 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -455,12 +455,11 @@ class PredicatorExtractor:
                 if not (word in lemmas):
                     continue
                 predicator = lemmas[word]
-                if len(predicator.lemma) == 1:
+                lemma_ = {lemma for lemma in predicator.lemma if lemma[1] != eomi}
+                if not lemma_:
                     lemmas.pop(word)
                 else:
-                    lemmas[word] = Predicator(
-                        predicator.frequency,
-                        {lemma for lemma in predicator.lemma if lemma[1] != eomi})
+                    lemmas[word] = Predicator(predicator.frequency, lemma_)
 
         return lemmas
 
-- 
2.43.0


From 048249a155ef2f233f9f9fa3ad9cc56021d34558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:02 +0000
Subject: [PATCH 75/84] fix: EojeolCounter without words keeps its coverage
 when words are removed

---
 soynlp/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index c471be4..a6b1a8e 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -274,7 +274,8 @@ class EojeolCounter:
 
     def remove_covered_eojeols(self, eojeols):
         self._counter = {k:v for k,v in self._counter.items() if not (k in eojeols)}
-        self.coverage = 1 - self.num_of_uncovered_eojeols / self._count_sum
+        if self._count_sum > 0:
+            self.coverage = 1 - self.num_of_uncovered_eojeols / self._count_sum
 
     def get_eojeol_count(self, eojeol):
         return self._counter.get(eojeol, 0)
-- 
2.43.0


From 78ee242bf5765ae81780f7875cdbb01f8132b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:13 +0000
Subject: [PATCH 76/84] fix: NewsNounExtractor.extract forgets the nouns of
 earlier extractions

---
 soynlp/noun/_noun_news.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index 770a24d..d7cc9a0 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -14,7 +14,8 @@ class NewsNounExtractor:
         self.max_right_length = max_right_length
         self.verbose = verbose
         self.r_scores = {}
-        self.noun_dictionary = {noun:0 for noun in base_noun_dictionary} if base_noun_dictionary else {}
+        self.base_noun_dictionary = list(base_noun_dictionary) if base_noun_dictionary else []
+        self.noun_dictionary = {noun:0 for noun in self.base_noun_dictionary}
 
         import os
         directory = '/'.join(os.path.abspath(__file__).replace('\\', '/').split('/')[:-2])
@@ -118,6 +119,9 @@ class NewsNounExtractor:
     def extract(self, min_noun_score=0.4, min_frequency=3,
             noun_candidates=None, min_feature_proportion=0.6):
 
+        # forget the nouns of earlier extractions
+        self.noun_dictionary = {noun:0 for noun in self.base_noun_dictionary}
+
         self._pre_eojeol_analysis(min_frequency)
 
         if not noun_candidates:
-- 
2.43.0


From 848deeb94373d686a272e559092a4c54fb946503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:21 +0000
Subject: [PATCH 77/84] fix: POSExtractor reports its coverage of a corpus
 without words

---
 soynlp/postagger/_pos_extractor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/postagger/_pos_extractor.py b/soynlp/postagger/_pos_extractor.py
index 1e60532..ed43610 100644
--- a/soynlp/postagger/_pos_extractor.py
+++ b/soynlp/postagger/_pos_extractor.py
@@ -68,7 +68,7 @@ class POSExtractor:
 
         if self.verbose:
             message = 'noun extraction was done. {} % eojeols are covered'.format(
-                '%.2f' % (100 * self._num_of_covered_eojeols / self._num_of_eojeols))
+                '%.2f' % (100 * self._num_of_covered_eojeols / max(1, self._num_of_eojeols)))
             self._print(message, replace=True, newline=True)
 
         return nouns
@@ -100,7 +100,7 @@ class POSExtractor:
 
         if self.verbose:
             message = 'predicator extraction was done. {} % eojeols are covered (cum)'.format(
-                '%.2f' % (100 * self._num_of_covered_eojeols / self._num_of_eojeols))
+                '%.2f' % (100 * self._num_of_covered_eojeols / max(1, self._num_of_eojeols)))
             self._print(message, replace=True, newline=True)
 
         return predicators
\ No newline at end of file
-- 
2.43.0


From b41319bf5cffee4bb520a5a14d29a844a4bbd657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:12 +0000
Subject: [PATCH 78/84] fix: PredicatorExtractor.train forgets eomis and stems
 of an earlier corpus

---
 soynlp/predicator/_predicator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index d4fc955..042b0e5 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -65,6 +65,7 @@ class PredicatorExtractor:
         nouns = self._remove_stem_prefix(nouns)
         self._nouns = nouns
         self._eomis_ = {eomi for eomi in self._eomis} # original eomis
+        self._stems_ = {stem for stem in self._stems} # original stems
 
     def _load_default_josa(self):
         path = '%s/postagger/dictionary/default/Josa/josa_chat.txt' % installpath
@@ -160,6 +161,10 @@ class PredicatorExtractor:
         min_num_of_unique_R_char=10, min_entropy_of_R_char=0.5,
         min_entropy_of_R=1.5, min_stem_score=0.7, min_stem_frequency=100):
 
+        # forget eomis and stems of the previous corpus
+        self._eomis = {eomi for eomi in self._eomis_}
+        self._stems = {stem for stem in self._stems_}
+
         # handle inputs
         if isinstance(inputs, LRGraph):
             self._train_with_eojeol_counter(
-- 
2.43.0


From 909785adb16bea5bf7837d21860a0ee98cd63e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:52 +0000
Subject: [PATCH 79/84] fix: LRTemplateMatcher gives the tags of a word in an
 order that depends on the hash seed

---
 soynlp/postagger/_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/postagger/_template.py b/soynlp/postagger/_template.py
index 18d0add..7eb9e2e 100644
--- a/soynlp/postagger/_template.py
+++ b/soynlp/postagger/_template.py
@@ -84,7 +84,7 @@ class LRTemplateMatcher(BaseTemplateMatcher):
     
     def _pos_L(self, word):
         poses = self.dictionary.get_pos(word)
-        poses = {pos for pos in poses if pos in self.ltags}
+        poses = [pos for pos in poses if pos in self.ltags]
         return poses
 
     def _initialize_L(self, t):
-- 
2.43.0


From f17c5e0969f8b0d49055bc71e8d853659350826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:37 +0000
Subject: [PATCH 80/84] fix: EomiExtractor.predict raises AttributeError
 outside extract

---
 soynlp/predicator/_eomi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soynlp/predicator/_eomi.py b/soynlp/predicator/_eomi.py
index 76218df..5662d53 100644
--- a/soynlp/predicator/_eomi.py
+++ b/soynlp/predicator/_eomi.py
@@ -18,6 +18,7 @@ class EomiExtractor:
         self.verbose = verbose
         self.logpath = logpath
         self._eomis = None
+        self._stem_surfaces = {l for stem in stems for l in _conjugate_stem(stem)}
 
     @property
     def is_trained(self):
@@ -79,8 +80,6 @@ class EomiExtractor:
         if reset_lrgraph:
             self.lrgraph.reset_lrgraph()
 
-        del self._stem_surfaces
-
         lemmas_ = {eomi:EomiScore(score[0], score[1]) for eomi, score in lemmas.items()}
         return lemmas_
 
-- 
2.43.0


From 5d616cebc43aba5c37d05e2e39413d528b7fd786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:48 +0000
Subject: [PATCH 81/84] fix: MaxLRScoreTokenizer called as a function returns
 debug lists in place of tokens

---
 soynlp/tokenizer/_tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 2913a71..e9bf009 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -270,7 +270,7 @@ class MaxLRScoreTokenizer:
         self.ensurable_score_l = ensurable_score_l
         self.ensurable_score_lr_diff = ensurable_score_lr_diff
 
-    def __call__(self, sent, debug=True, flatten=True):
+    def __call__(self, sent, debug=False, flatten=True):
         return self.tokenize(sent, debug, flatten)
 
     def tokenize(self, sent, debug=False, flatten=True):
-- 
2.43.0


From 8a4cd234cfb088e580d5926ce37121d203462523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:48 +0000
Subject: [PATCH 82/84] fix: RegexTokenizer called as a function prints debug
 output

---
 soynlp/tokenizer/_tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index e9bf009..4ca5c92 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -21,7 +21,7 @@ class RegexTokenizer:
         
         self.doublewhite_pattern = re.compile('\s+')
 
-    def __call__(self, s, debug=True, flatten=True):
+    def __call__(self, s, debug=False, flatten=True):
         return self.tokenize(s, debug, flatten)
 
     def tokenize(self, s, debug=False, flatten=True):
-- 
2.43.0


From 15da829d50fe2af58df5af1e872cbe17fe29804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:48 +0000
Subject: [PATCH 83/84] fix: LRNounExtractor counts words separated by a tab as
 one word

---
 soynlp/noun/_noun_ver1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index 968f7ca..37e1704 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -90,7 +90,7 @@ class LRNounExtractor:
         for i, sent in enumerate(sents):
             if not self.ensure_normalized:
                 sent = normalize_sent_for_lrgraph(sent)
-            for token in sent.split(' '):
+            for token in sent.split():
                 if not token:
                     continue
                 token_len = len(token)
-- 
2.43.0


From 9e1a3b0fa09804cb69e42e6b9fdb472981095362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:48 +0000
Subject: [PATCH 84/84] fix: EojeolPatternTrainer counts words separated by a
 tab as one word

---
 soynlp/tokenizer/_tokenizer_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 2bdad01..e0c8c27 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -39,7 +39,7 @@ class EojeolPatternTrainer:
         wordset_r = defaultdict(lambda: 0)
         
         for i, sent in enumerate(sents):
-            for token in sent.split(' '):
+            for token in sent.split():
                 if not token:
                     continue
                 token_len = len(token)
-- 
2.43.0

