From d560757be34dd08088daaa696a5cab5e0a7f05d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 01/11] fix: byte scheme decodes bytes below 0x10 (tab,
 newline) correctly

---
 nlcodec/codec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index b118a4a..bd4dd16 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -583,7 +583,8 @@ class ByteScheme(EncoderScheme):
         return f'{code:x}'
 
     def compose_str(self, pieces: List[str]):
-        byte_arr = bytes.fromhex(''.join(pieces))
+        # pieces of bytes below 0x10 have a single hex digit
+        byte_arr = bytes.fromhex(''.join(piece.zfill(2) for piece in pieces))
         return str(byte_arr, encoding=self.encoding, errors=self.errors)
 
     def encode_str(self, line: str) -> List[str]:
-- 
2.43.0


From 933d058d11cfd3894ccb16471db783011ec765e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 02/11] fix: shrink_vocab records the scheme name in the saved
 model

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index bd4dd16..a6e1078 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -342,7 +342,7 @@ class EncoderScheme(abc.ABC):
             new_t = old_t.copy(idx=new_idx, kids=new_kids)
             new_table.append(new_t)
         if save_at:
-            Type.write_out(new_table, out=save_at)
+            Type.write_out(new_table, out=save_at, scheme=self.name)
         return mapping
 
     def save(self, out):
-- 
2.43.0


From c9ec1ecb5b157a6e2cd6504e44174bb6174fa11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 03/11] fix: iterating a Db with shuffle=True no longer fails

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index de71a5d..18372cd 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -220,7 +220,7 @@ class Db:
     def __iter__(self):
         ids = self.ids
         if self.shuffle:
-            ids = copy.copy(ids)
+            ids = list(ids)  # a set can not be shuffled
             random.shuffle(ids)
         for _id in ids:
             yield self[_id]
-- 
2.43.0


From 56890f15fc7690a4d75d061ca97dc16b596f428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 04/11] fix: equal length batches never exceed max_sents

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 18372cd..dde2b95 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -248,7 +248,7 @@ class Db:
                 log.warning(f"Skipping record {_id}, either source or target is empty")
                 continue
 
-            if (len(batch) + 1) * max(max_len, _len) > max_toks or len(batch) > max_sents:
+            if (len(batch) + 1) * max(max_len, _len) > max_toks or len(batch) >= max_sents:
                 if _len > max_toks:
                     raise Exception(f'Unable to make a batch of {max_toks} toks'
                                     f' with a seq of len:{_len}')
-- 
2.43.0


From f9b278bd3fed69249633e532859c05a919a8b59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 05/11] fix: BpeTracker restores the count of skipped
 overlapping pairs

---
 nlcodec/eval/bpe_len.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/eval/bpe_len.py b/nlcodec/eval/bpe_len.py
index 89dca0d..69c4e75 100644
--- a/nlcodec/eval/bpe_len.py
+++ b/nlcodec/eval/bpe_len.py
@@ -168,7 +168,7 @@ class BpeTracker:
                         # happens due to repeats like X A A A A Y
                         uni[new_type.idx] -= u.freq
                         uni[a] += u.freq
-                        uni[b] -= u.freq
+                        uni[b] += u.freq
                         continue
                     assert u.val == a
                     assert b_node.val == b, f'expected {a, b} found {u.val, b_node.val} at {b_node}'
-- 
2.43.0


From 3638260c90e75e94bded430204277ef0f1e2bd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 06/11] fix: validate_distribution works with numpy releases
 that dropped np.float

---
 nlcodec/qestim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index b01a057..171fc92 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -38,7 +38,7 @@ class QualityEstimator:
 
     @staticmethod
     def validate_distribution(distr):
-        assert distr.dtype == np.float
+        assert distr.dtype == float
         assert abs(np.sum(distr) - 1.0) < 1e-4  # sum to 1
         assert np.sum(distr < 0) == 0  # no negatives
 
-- 
2.43.0


From 86c92ba671042d636e64f48ea4ecd215de527dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 07/11] fix: SeqField keeps integers exact; mixed integer types
 became floats

---
 nlcodec/db/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index dde2b95..21867d0 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -88,9 +88,13 @@ class SeqField:
 
         def shrink(self):
             if self.buffer:
-                dtype = best_dtype(mn=min(self.buffer), mx=max(self.buffer))
+                mn, mx = min(self.buffer), max(self.buffer)
+                if len(self.frozen):
+                    mn, mx = min(mn, self.frozen.min()), max(mx, self.frozen.max())
+                # same type for all: numpy may turn integers of mixed types to (inexact) floats
+                dtype = best_dtype(mn=mn, mx=mx)
                 data = np.array(self.buffer, dtype=dtype)
-                self.frozen = np.concatenate((self.frozen, data))
+                self.frozen = np.concatenate((self.frozen.astype(dtype), data))
                 self.buffer = []
 
         def build(self):
-- 
2.43.0


From 010514cfe59a379dce04ec56a66d3686bd569a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 08/11] fix: BPE learning stops early, instead of failing, when
 no pairs are left

---
 nlcodec/bpe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nlcodec/bpe.py b/nlcodec/bpe.py
index cfb71ba..f0aadcb 100644
--- a/nlcodec/bpe.py
+++ b/nlcodec/bpe.py
@@ -131,7 +131,7 @@ class BPELearn:
         log.info(f"logs every {log_every} seconds")
         for i in range(n_merges):
             # Using MaxHeap for faster lookup of max. But heap gets a bit dirty, so a bit of cleanup
-            max_pair, pair_freq = heap.pop()
+            max_pair, pair_freq = heap.pop() if heap else (None, 0)
             while max_pair in heap_dirty:  # clean all max [airs until a clean value
                 freq_update = heap_dirty.pop(max_pair)
                 assert freq_update < 0  # only decrements are valid. increments make this wrong
@@ -139,9 +139,12 @@ class BPELearn:
                 assert corr_freq >= 0, f'{max_pair}:{pair_freq}, Δ={freq_update} = {corr_freq}'
                 if corr_freq > 0:  # exclude zero count
                     heap.push(max_pair, corr_freq)
-                max_pair, pair_freq = heap.pop()
+                max_pair, pair_freq = heap.pop() if heap else (None, 0)
 
             # here the  actual loop begins
+            if max_pair is None:
+                log.warning("Early stop; there are no more pairs to merge")
+                break
             if pair_freq < min_co_evidence:
                 log.warning(f"Early stop; max evidence found is {pair_freq} "
                             f"but min required is {min_co_evidence}")
-- 
2.43.0


From 60b88116c84f8e57c1c133763f29cb1fde315543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 09/11] fix: nlcodec-learn can reuse existing term frequencies

---
 nlcodec/learn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/learn.py b/nlcodec/learn.py
index ccf4457..9907896 100644
--- a/nlcodec/learn.py
+++ b/nlcodec/learn.py
@@ -72,10 +72,10 @@ def main():
         master = args.pop('spark_master')
         driver_mem = args.pop('driver_mem')
         dedup = args.pop('dedup')
+        inp = args.pop('inp')
         if stats_file.exists():
             log.warning(f"{stats_file} exists, reusing it. please delete it if this is wrong.")
         else:
-            inp = args.pop('inp')
             with spark.session(master=master, driver_mem=driver_mem) as session:
                 words, chars, line_count = word_counts(paths=inp, dedup=dedup, spark=session)
             with utils.IO.writer(words_file) as out:
-- 
2.43.0


From 336afa709951e3dd8cd34258091cee424fc7a24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:36 +0000
Subject: [PATCH 10/11] fix: shrink_vocab accepts files without any token

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index a6e1078..1732d0e 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -308,7 +308,7 @@ class EncoderScheme(abc.ABC):
             with IO.reader(file) as lines:
                 for line in tqdm(lines):
                     freqs.update(self.encode(line))
-        assert len(self.table) > max(freqs.keys())
+        assert len(self.table) > max(freqs.keys(), default=-1)  # no tokens: nothing to check
         removals = [False] * len(self.table)
         for idx, typ in enumerate(self.table):
             if typ.level == Level.reserved:
-- 
2.43.0


From 167ed2c1c63225f8249857b7ca585fdf254004c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 11/11] fix: IO reads and writes lines of gzip files like those
 of plain files

---
 nlcodec/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nlcodec/utils.py b/nlcodec/utils.py
index b85072a..92692a8 100644
--- a/nlcodec/utils.py
+++ b/nlcodec/utils.py
@@ -90,7 +90,11 @@ class IO:
     def __enter__(self):
 
         if self.path.name.endswith(".gz"):  # gzip mode
-            self.fd = gzip.open(self.path, self.mode, encoding=self.encoding, errors=self.errors)
+            if 'b' in self.mode:  # binary mode doesnt take encoding or errors
+                self.fd = gzip.open(self.path, self.mode)
+            else:
+                self.fd = gzip.open(self.path, self.mode, encoding=self.encoding,
+                                    errors=self.errors, newline='\n')
         else:
             if 'b' in self.mode:  # binary mode doesnt take encoding or errors
                 self.fd = self.path.open(self.mode)
-- 
2.43.0

