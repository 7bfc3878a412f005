From 21098e6ae19aa038109959d28ca97e49d59d45d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 001/125] fix: keep row requests inside of the row range of the
 scp file

With a row range in the scp file, reading with row_offset>0 and num_rows=0
returned rows past the end of the range, and so did requests with
row_offset+num_rows larger than the range.
---
 hyperion/io/data_reader.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hyperion/io/data_reader.py b/hyperion/io/data_reader.py
index dbe384c..375c8e7 100644
--- a/hyperion/io/data_reader.py
+++ b/hyperion/io/data_reader.py
@@ -124,13 +124,15 @@ class DataReader(object):
         if read_range is None:
             return row_offset, num_rows
 
+        if read_range[1] > 0:
+            # the rows must be inside of the range given in the scp file
+            if num_rows == 0:
+                num_rows = read_range[1] - row_offset
+                assert num_rows > 0
+            else:
+                assert read_range[1] >= row_offset + num_rows
+
         row_offset = row_offset + read_range[0]
-            
-        if num_rows == 0:
-            num_rows = read_range[1]
-        else:
-            if read_range[1] > 0:
-                assert read_range[1] >= num_rows
 
         return row_offset, num_rows
 
-- 
2.43.0


From 25f49ee7d4972294608bac7d3e41e80c2edd23cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 002/125] fix: per-record row_offset and num_rows when reading
 an ark file sequentially

The readers of ark files without scp indexed the lists with an undefined
variable.
---
 hyperion/io/ark_data_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index 3385d20..f91087b 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -234,8 +234,8 @@ class SequentialArkFileDataReader(SequentialArkDataReader):
                 self._eof = True
                 break
             
-            row_offset_i = row_offset[i] if row_offset_is_list else row_offset
-            num_rows_i = num_rows[i] if num_rows_is_list else num_rows
+            row_offset_i = row_offset[count] if row_offset_is_list else row_offset
+            num_rows_i = num_rows[count] if num_rows_is_list else num_rows
             
             binary = init_kaldi_input_stream(self.f)
             data_i = KaldiMatrix.read(
-- 
2.43.0


From 57dc4e953825962cc28ca7ab9a23f778365ac475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 003/125] fix: report truncated matrices instead of returning
 empty or shortened data

---
 hyperion/utils/kaldi_matrix.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/kaldi_matrix.py b/hyperion/utils/kaldi_matrix.py
index 04f20b9..094af03 100644
--- a/hyperion/utils/kaldi_matrix.py
+++ b/hyperion/utils/kaldi_matrix.py
@@ -104,7 +104,10 @@ class KaldiMatrix(object):
             
             if row_offset > 0:
                 f.seek(row_offset*num_cols*np.dtype(dtype).itemsize, 1)
-            data = f.read(num_rows*num_cols*np.dtype(dtype).itemsize)
+            num_bytes = num_rows*num_cols*np.dtype(dtype).itemsize
+            data = f.read(num_bytes)
+            if len(data) != num_bytes:
+                raise ValueError('EOF reading matrix')
             if rows_left > 0 and sequential_mode:
                 f.seek(rows_left*num_cols*np.dtype(dtype).itemsize, 1)
                 
@@ -126,7 +129,7 @@ class KaldiMatrix(object):
                     line = line.decode('ascii')
                     
                 if len(line) == 0 :
-                    raise BadInputFormat('EOF reading matrix') # eof, should not happen!
+                    raise ValueError('EOF reading matrix') # eof, should not happen!
                 if len(line.strip()) == 0 : continue # skip empty line
 
                 arr = line.strip().split()
@@ -151,7 +154,7 @@ class KaldiMatrix(object):
                         mat = mat.ravel()
                     return cls(mat)
                 
-            return cls(np.array([], dtype='float32'))
+            raise ValueError('EOF reading matrix')
             
 
         
@@ -729,6 +732,9 @@ class KaldiCompressedMatrix(object):
                         if bytes_left > 0:
                             f.seek(bytes_left*num_cols, 1)
                         data = header + data
+
+                if len(data) != len(header) + bytes_col_header + num_cols*bytes_col:
+                    raise ValueError('EOF reading matrix')
                     
                 return cls(data)
             else:
-- 
2.43.0


From cbae8fd895aebf60f085b0ef643040c0c415fe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 004/125] fix: read all the segments and honor segment lists
 and wav-scale in the audio readers

---
 hyperion/io/audio_reader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index acf1b27..5831be1 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -44,7 +44,7 @@ class AudioReader(object):
             self.with_segments = False
         else:
             self.with_segments = True
-            if isinstance(file_path, SegmentList):
+            if isinstance(segments_path, SegmentList):
                 self.segments = segments_path
             else:
                 self.segments = SegmentList.load(segments_path, sep=' ', index_by_file=False)
@@ -131,7 +131,7 @@ class AudioReader(object):
         s_beg = int(t_beg * fs_i)
         if s_beg >= num_samples_i:
             raise Exception('segment %s tbeg=%.2f (num_sample=%d) longer that wav file %s (num_samples=%d)' % (
-                key, tbeg, sbeg, file_id, num_samples_i))
+                segment['segment_id'], t_beg, s_beg, file_id, num_samples_i))
 
         s_end = int(t_end * fs_i)
         if s_end > num_samples_i or t_end < 0:
@@ -220,7 +220,10 @@ class SequentialAudioReader(AudioReader):
           data: List of waveforms
         """
         if num_records == 0:
-            num_records = len(self.scp) - self.cur_item
+            if self.with_segments:
+                num_records = len(self.segments) - self.cur_item
+            else:
+                num_records = len(self.scp) - self.cur_item
 
         keys = []
         data = []
@@ -251,7 +254,7 @@ class SequentialAudioReader(AudioReader):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('part_idx', 'num_parts')
+        valid_args = ('wav_scale', 'part_idx', 'num_parts')
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
-- 
2.43.0


From 12c8069079ff8ae0705aa55b505faf83bc1f9006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 005/125] fix: do not lose row ranges or offsets when merging
 or loading script lists

---
 hyperion/utils/scp_list.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index f26a932..20313e8 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -52,7 +52,7 @@ class SCPList(object):
                 self.range_spec = None
             else:
                 if isinstance(self.range_spec, list):
-                    self.range_spec = np.array(self.offset, dtype=np.int64)
+                    self.range_spec = np.array(self.range_spec, dtype=np.int64)
                 assert len(self.key) == self.range_spec.shape[0]
                 assert self.range_spec.shape[1] == 2
 
@@ -194,10 +194,10 @@ class SCPList(object):
         file_offset = [f[0].split(sep=offset_sep, maxsplit=1) for f in file_range]
         file_path = [f[0] for f in file_offset]
         
-        if len(file_offset[0]) == 2:
+        if any(len(f) == 2 for f in file_offset):
             offset = [int(f[1]) if len(f)==2 else -1 for f in file_offset]
             if -1 in offset:
-                raise ValueError('Missing data position for %s' % f[0])
+                raise ValueError('Missing data position in script file')
 
         do_range = False
         for f in file_range:
@@ -288,14 +288,19 @@ class SCPList(object):
         key = np.concatenate(tuple(key_list))
         file_path = np.concatenate(tuple(file_list))
 
-        if offset_list[0] is None:
+        if all(o is None for o in offset_list):
             offset = None
         else:
+            if any(o is None for o in offset_list):
+                raise ValueError('Cannot merge lists with and without offset')
             offset = np.concatenate(tuple(offset_list))
 
-        if range_list[0] is None:
+        if all(r is None for r in range_list):
             range_spec = None
         else:
+            # [0, 0] means all the rows
+            range_list = [np.zeros((len(k), 2), dtype=np.int64) if r is None else r
+                          for k, r in zip(key_list, range_list)]
             range_spec = np.concatenate(tuple(range_list))
 
         return cls(key, file_path, offset, range_spec)
-- 
2.43.0


From 01605d4f8e493e68c7e50a23a8eca18d64069b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 006/125] fix: information columns and missing-value-like
 labels of utterance tables

Utt2Info.info sliced rows instead of columns, and loading turned labels
such as NA or null into NaN.
---
 hyperion/utils/utt2info.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/utt2info.py b/hyperion/utils/utt2info.py
index 4bd1adc..dba6dbb 100644
--- a/hyperion/utils/utt2info.py
+++ b/hyperion/utils/utt2info.py
@@ -70,7 +70,7 @@ class Utt2Info(object):
     @property
     def info(self):
         if self.utt_info.shape[1] > 2:
-            return np.asarray(self.utt_info[1:])
+            return np.asarray(self.utt_info.iloc[:,1:])
         else:
             return np.asarray(self.utt_info[1])
 
@@ -175,7 +175,8 @@ class Utt2Info(object):
         Returns:
           Utt2Info object
         """
-        df = pd.read_csv(file_path, sep=sep, header=None, dtype=dtype)
+        df = pd.read_csv(file_path, sep=sep, header=None, dtype=dtype,
+                         keep_default_na=False)
         df = df.rename(index=str, columns={0:'key'})
         return cls(df)
 
-- 
2.43.0


From e6a1279d0a8aa1fbcab6d1a101cdbc12fc9b523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 007/125] fix: do not lose queued data when the generator of a
 queue finishes

The consumer stopped as soon as the generator was exhausted (or failed),
dropping the data that were still in the queue.
---
 hyperion/io/queues.py    | 23 +++++++++++++++++------
 hyperion/utils/queues.py | 23 +++++++++++++++++------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/hyperion/io/queues.py b/hyperion/io/queues.py
index 11d6c4b..6d684b6 100644
--- a/hyperion/io/queues.py
+++ b/hyperion/io/queues.py
@@ -216,6 +216,9 @@ class GeneratorQueue(SequenceQueue):
                         self.queue.put(generator_output)
                     else:
                         time.sleep(self.wait_time)
+                except StopIteration:
+                    # the generator is exhausted
+                    self._stop_event.set()
                 except Exception:
                     self._stop_event.set()
                     raise
@@ -282,10 +285,18 @@ class GeneratorQueue(SequenceQueue):
         # Returns
             A generator
         """
-        while self.is_running():
-            if not self.queue.empty():
-                inputs = self.queue.get()
-                if inputs is not None:
-                    yield inputs
-            else:
+        data_queue = self.queue
+        threads = self._threads
+        while data_queue is not None and data_queue is self.queue:
+            # we look at the workers before looking at the queue,
+            # otherwise we could lose the last data they enqueued
+            finished = not any(thread.is_alive() for thread in threads)
+            try:
+                inputs = data_queue.get(block=False)
+            except queue.Empty:
+                if finished:
+                    break
                 time.sleep(self.wait_time)
+                continue
+            if inputs is not None:
+                yield inputs
diff --git a/hyperion/utils/queues.py b/hyperion/utils/queues.py
index 11d6c4b..6d684b6 100644
--- a/hyperion/utils/queues.py
+++ b/hyperion/utils/queues.py
@@ -216,6 +216,9 @@ class GeneratorQueue(SequenceQueue):
                         self.queue.put(generator_output)
                     else:
                         time.sleep(self.wait_time)
+                except StopIteration:
+                    # the generator is exhausted
+                    self._stop_event.set()
                 except Exception:
                     self._stop_event.set()
                     raise
@@ -282,10 +285,18 @@ class GeneratorQueue(SequenceQueue):
         # Returns
             A generator
         """
-        while self.is_running():
-            if not self.queue.empty():
-                inputs = self.queue.get()
-                if inputs is not None:
-                    yield inputs
-            else:
+        data_queue = self.queue
+        threads = self._threads
+        while data_queue is not None and data_queue is self.queue:
+            # we look at the workers before looking at the queue,
+            # otherwise we could lose the last data they enqueued
+            finished = not any(thread.is_alive() for thread in threads)
+            try:
+                inputs = data_queue.get(block=False)
+            except queue.Empty:
+                if finished:
+                    break
                 time.sleep(self.wait_time)
+                continue
+            if inputs is not None:
+                yield inputs
-- 
2.43.0


From e7b0c909408c6a004a750e88e2feb828afd089fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 008/125] fix: filtering of ROC curves and area under the ROC
 convex hull

---
 hyperion/metrics/roc.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/hyperion/metrics/roc.py b/hyperion/metrics/roc.py
index 80b6be9..b9dfc29 100644
--- a/hyperion/metrics/roc.py
+++ b/hyperion/metrics/roc.py
@@ -163,27 +163,21 @@ def filter_roc(p_miss,p_fa):
       new_p_miss, new_p_fa: Vectors containing selected values from the
                             input vectors.  
     """
-    out = 0
-    new_p_miss = np.copy(p_miss)
-    new_p_fa = np.copy(p_fa)
-
+    index = [0]
     for i in xrange(1,len(p_miss)):
-        if p_miss[i] == new_p_miss[out] or p_fa[i] == new_p_fa[out]:
+        out = index[-1]
+        if p_miss[i] == p_miss[out] or p_fa[i] == p_fa[out]:
             continue
     
         # save previous point, because it is the last point before the
         # change.  On the next iteration, the current point will be saved.
-        out = out+1
-        new_p_miss[out] = p_miss[i-1]
-        new_p_fa[out] = p_fa[i-1]
+        if i-1 != out:
+            index.append(i-1)
 
-    out = out+1
-    new_p_miss[out] = p_miss[-1]
-    new_p_fa[out] = p_fa[-1]
-    new_p_miss = new_p_miss[:out]
-    new_p_fa = new_fa[:out]
+    if index[-1] != len(p_miss)-1:
+        index.append(len(p_miss)-1)
 
-    return new_p_miss, new_p_fa
+    return p_miss[index], p_fa[index]
 
 
 
@@ -204,7 +198,7 @@ def compute_area_under_rocch(p_miss, p_fa):
     
     auc = 0
     for i in xrange(1, len(p_miss)):
-        auc += 0.5 * (p_miss[i] - p_miss[i-1]) * (p_fa[i] + p_fa[i+1])
+        auc += 0.5 * (p_miss[i] - p_miss[i-1]) * (p_fa[i] + p_fa[i-1])
 
     return auc
 
-- 
2.43.0


From ebdb0c5956924b2ad597b717e648312ae956e2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 009/125] fix: actual DCF when a prior is given twice

---
 hyperion/metrics/dcf.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/hyperion/metrics/dcf.py b/hyperion/metrics/dcf.py
index d6dd9c5..2705ea9 100644
--- a/hyperion/metrics/dcf.py
+++ b/hyperion/metrics/dcf.py
@@ -92,28 +92,16 @@ def compute_act_dcf(tar, non, prior, normalize=True):
     else:
         prior = prior[None]
         
-    num_priors = len(prior)
-
     ntar = len(tar)
     nnon = len(non)
     
     #thresholds
     t = - np.log(prior) + np.log(1-prior)
 
-    ttar = np.concatenate((t, tar))
-    ii = np.argsort(ttar, kind='mergesort')
-    r = np.zeros((num_priors + ntar), dtype='int32')
-    r[ii] = np.arange(1, num_priors + ntar + 1)
-    r = r[:num_priors]
-    n_miss = r - np.arange(num_priors, 0, -1)
-
-    
-    tnon = np.concatenate((t, non))
-    ii = np.argsort(tnon, kind='mergesort')
-    r = np.zeros((num_priors + nnon), dtype='int32')
-    r[ii] = np.arange(1, num_priors + nnon + 1)
-    r = r[:num_priors]
-    n_fa = nnon - r + np.arange(num_priors, 0, -1)
+    # misses are the targets below the threshold, 
+    # false alarms are the non-targets that are not below the threshold
+    n_miss = np.searchsorted(np.sort(tar), t, side='left')
+    n_fa = nnon - np.searchsorted(np.sort(non), t, side='left')
 
     # n_miss2 = np.zeros((num_priors,), dtype='int32')
     # n_fa2 = np.zeros((num_priors,), dtype='int32')
-- 
2.43.0


From 6d93ae5a0eeb37ae9910a5d1ff6d510d46eecd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 010/125] fix: order of the optimal log-likelihood ratios and
 non-target part of CLLR

opt_loglr permuted an array while reading it; compute_cllr used the target
cost for the non-target scores; pavx truncated the means of integer labels.
---
 hyperion/metrics/cllr.py  | 2 +-
 hyperion/metrics/utils.py | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/hyperion/metrics/cllr.py b/hyperion/metrics/cllr.py
index fd9ce0e..1c1b9b2 100644
--- a/hyperion/metrics/cllr.py
+++ b/hyperion/metrics/cllr.py
@@ -25,7 +25,7 @@ def compute_cllr(tar, non):
 
     """
     c1 = np.mean(neglogsigmoid(tar))/np.log(2)
-    c2 = np.mean(neglogsigmoid(non))/np.log(2)
+    c2 = np.mean(neglogsigmoid(-non))/np.log(2)
 
     return (c1 + c2)/2
 
diff --git a/hyperion/metrics/utils.py b/hyperion/metrics/utils.py
index 00053a2..b4798d3 100644
--- a/hyperion/metrics/utils.py
+++ b/hyperion/metrics/utils.py
@@ -57,6 +57,8 @@ def pavx(y):
  
      """
     assert isinstance(y, np.ndarray)
+    if not np.issubdtype(y.dtype, np.floating):
+        y = y.astype(float_cpu())
 
     n = len(y)
     assert n>0
@@ -149,9 +151,12 @@ def opt_loglr(tar, non, method='laplace'):
     post_log_odds = np.log(p_opt) - np.log(1-p_opt)
     prior_log_odds = np.log(ntar/nnon)
     llr = post_log_odds - prior_log_odds
-    llr += 1e-6 * np.arange(n)/n
+    # keeps the order of the scores inside of the pav bins, equal scores get equal llr
+    _, rank = np.unique(scores[sort_idx], return_inverse=True)
+    llr += 1e-6 * rank/n
 
-    llr[sort_idx] = llr
+    # the copy is needed because we cannot read and write the same array
+    llr[sort_idx] = np.copy(llr)
     tar_llr = llr[:ntar]
     non_llr = llr[ntar:]
     
-- 
2.43.0


From 350fd79554e01bd3a1b44ca8e56679ce079f5aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 011/125] fix: open-set confusion matrices with text labels or
 overlapping labels, without changing the inputs

---
 hyperion/metrics/confusion_matrix.py | 37 +++++++++++++---------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index 8789d6b..8c6bc9b 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -7,6 +7,8 @@ from __future__ import print_function
 from __future__ import division
 from six.moves import xrange
 
+import sys
+
 import numpy as np
 import matplotlib.pyplot as plt
 from sklearn.metrics import confusion_matrix
@@ -67,28 +69,23 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
     else:
         labels_test = list2ndarray(labels_test)
 
-    assert y_true.dtype == y_pred.dtype, 'y_true and y_pred labels does not have the same type'
-    assert labels_train.dtype == labels_test.dtype, 'Train and test labels does not have the same type'
-    assert labels_train.dtype == y_pred.dtype, 'Labels, y_true and y_pred does not have the same type'
+    kinds = [a.dtype.kind.replace('u', 'i') for a in (y_true, y_pred, labels_train, labels_test)]
+    assert kinds[0] == kinds[1], 'y_true and y_pred labels does not have the same type'
+    assert kinds[2] == kinds[3], 'Train and test labels does not have the same type'
+    assert kinds[2] == kinds[1], 'Labels, y_true and y_pred does not have the same type'
 
     num_classes_test = len(labels_test)
-    
-    if issubclass(y_true.dtype.type, np.integer):
-        y_pred += num_classes_test
-    elif issubclass(y_true.dtype.type, np.dtype('U')) or issubclass(
-    y_true.dtype.type, np.dtype('S')): 
-        y_true = np.asarray(['TEST_' + s for s in y_true])
-        y_pred = np.asarray(['TRAIN_' + s for s in y_pred])
-    else:
-        raise Exception()
-
 
-    if issubclass(labels_train.dtype.type, np.integer):
-        labels_train += num_classes_test
-    elif issubclass(labels_train.dtype.type, np.dtype('U')) or issubclass(
-    labels_train.dtype.type, np.dtype('S')): 
-        labels_test = np.asarray(['TEST_' + s for s in labels_test])
-        labels_train = np.asarray(['TRAIN_' + s for s in labels_train])
+    # we make the train and test labels disjoint, without modifying the input arrays
+    if kinds[0] == 'i':
+        offset = 1 + max(np.max(y_true), np.max(labels_test)) - min(np.min(y_pred), np.min(labels_train))
+        y_pred = y_pred + offset
+        labels_train = labels_train + offset
+    elif kinds[0] in ('U', 'S'):
+        y_true = np.asarray(['TEST_' + str(s) for s in y_true])
+        y_pred = np.asarray(['TRAIN_' + str(s) for s in y_pred])
+        labels_test = np.asarray(['TEST_' + str(s) for s in labels_test])
+        labels_train = np.asarray(['TRAIN_' + str(s) for s in labels_train])
     else:
         raise Exception()
 
@@ -159,7 +156,7 @@ def write_confusion_matrix(f, C, labels_true, labels_pred=None):
     assert C.shape[1] == len(labels_pred)
     
     normalized = np.all(C<=1)
-    fmt = '.2f' if normalized else 'd'
+    fmt = '.2f' if normalized or not np.issubdtype(C.dtype, np.integer) else 'd'
 
     column_width = np.max([len(label) for label in labels_pred] + [6]) + 3
     empty_cell = ' ' * column_width
-- 
2.43.0


From a1f3c5a01a5b111f67011f2d4909c4be05254d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 012/125] fix: sort, filter, split and merge of trial keys with
 conditions

---
 hyperion/utils/trial_key.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index e1aed9a..3f595e9 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -73,11 +73,11 @@ class TrialKey(object):
         self.tar = self.tar[ix]
         self.non = self.non[ix]
         if self.model_cond is not None:
-            self.model_cond = self.model_cond[m_idx]
+            self.model_cond = self.model_cond[:, m_idx]
         if self.seg_cond is not None:
-            self.seg_cond = self.seg_cond[s_idx]
+            self.seg_cond = self.seg_cond[:, s_idx]
         if self.trial_cond is not None:
-            self.trial_cond = self.trial_cond[:, ix]
+            self.trial_cond = self.trial_cond[:, ix[0], ix[1]]
         
         
     def save(self, file_path):
@@ -281,11 +281,11 @@ class TrialKey(object):
                 model_cond_1 = np.zeros((num_model_cond, shape[0]), dtype ='bool')
                 model_cond_1[:, mi_a] = model_cond[:, mi_b]
             if seg_cond is not None:
-                seg_cond_1 = np.zeros((num_seg_cond, shape[0]), dtype ='bool')
-                seg_cond_1[:, mi_a] = seg_cond[:, mi_b]
+                seg_cond_1 = np.zeros((num_seg_cond, shape[1]), dtype ='bool')
+                seg_cond_1[:, si_a] = seg_cond[:, si_b]
             if trial_cond is not None:
-                trial_cond_1 = np.zeros((num_trial_cond, shape), dtype ='bool')
-                trial_cond_1[:, ix_a] = trial_cond[:, ix_b]
+                trial_cond_1 = np.zeros((num_trial_cond,) + shape, dtype ='bool')
+                trial_cond_1[:, ix_a[0], ix_a[1]] = trial_cond[:, ix_b[0], ix_b[1]]
 
                 
             _, mi_a, mi_b = intersect(new_model_set, key_i.model_set,
@@ -302,11 +302,12 @@ class TrialKey(object):
                 model_cond_2 = np.zeros((num_model_cond, shape[0]), dtype ='bool')
                 model_cond_2[:, mi_a] = key_i.model_cond[:, mi_b]
             if seg_cond is not None:
-                seg_cond_2 = np.zeros((num_seg_cond, shape[0]), dtype ='bool')
-                seg_cond_2[:, mi_a] = key_i.seg_cond[:, mi_b]
+                seg_cond_2 = np.zeros((num_seg_cond, shape[1]), dtype ='bool')
+                seg_cond_2[:, si_a] = key_i.seg_cond[:, si_b]
             if trial_cond is not None:
-                trial_cond_2 = np.zeros((num_trial_cond, shape), dtype ='bool')
-                trial_cond_2[:, ix_a] = key_i.trial_cond[:, ix_b]
+                trial_cond_2 = np.zeros((num_trial_cond,) + shape, dtype ='bool')
+                trial_cond_2[:, ix_a[0], ix_a[1]] = key_i.trial_cond[
+                    :, ix_b[0], ix_b[1]]
 
             model_set = new_model_set
             seg_set = new_seg_set
@@ -317,7 +318,7 @@ class TrialKey(object):
             if seg_cond is not None:
                 seg_cond = np.logical_or(seg_cond_1, seg_cond_2)
             if trial_cond is not None:
-                trial_cond = np.logical_or(trial_cond_1, seg_cond_2)
+                trial_cond = np.logical_or(trial_cond_1, trial_cond_2)
                             
         return cls(model_set, seg_set, tar, non,
                    model_cond, seg_cond, trial_cond,
@@ -363,7 +364,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             seg_cond = self.seg_cond[:, seg_idx]
         if self.trial_cond is not None:
-            trial_cond = self.trial_cond[:, ix]
+            trial_cond = self.trial_cond[:, ix[0], ix[1]]
         
         return TrialKey(model_set, seg_set, tar, non,
                         model_cond, seg_cond, trial_cond,
@@ -403,7 +404,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             seg_cond = self.seg_cond[:, seg_idx1]
         if self.trial_cond is not None:
-            trial_cond = self.trial_cond[:, ix]
+            trial_cond = self.trial_cond[:, ix[0], ix[1]]
         
         return TrialKey(model_set, seg_set, tar, non,
                         model_cond, seg_cond, trial_cond,
@@ -474,7 +475,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             eq = eq and np.all(self.seg_cond == other.seg_cond)
         if self.trial_cond is not None:
-            eq = eq and np.all(self.triall_cond == other.trial_cond)
+            eq = eq and np.all(self.trial_cond == other.trial_cond)
 
         eq = eq and (
             (self.model_cond_name is None) == (other.model_cond_name is None))
@@ -488,7 +489,7 @@ class TrialKey(object):
         if self.seg_cond_name is not None:
             eq = eq and np.all(self.seg_cond_name == other.seg_cond_name)
         if self.trial_cond_name is not None:
-            eq = eq and np.all(self.triall_cond_name == other.trial_cond_name) 
+            eq = eq and np.all(self.trial_cond_name == other.trial_cond_name) 
 
         return eq
 
-- 
2.43.0


From 8d9dc7c00448d03b91f30d28b711d9413635c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 013/125] fix: removing segments from trial scores, default
 scores and merge of scores with missing trials

---
 hyperion/utils/trial_scores.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 3cf58e8..47ef11c 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -223,7 +223,8 @@ class TrialScores(object):
 
             model_set = new_model_set
             seg_set = new_seg_set
-            scores = scores_1 + scores_2
+            scores = np.where(score_mask_1, scores_1, 0) + np.where(
+                score_mask_2, scores_2, 0)
             assert(not(np.any(np.logical_and(score_mask_1, score_mask_2))))
             score_mask= np.logical_or(score_mask_1, score_mask_2)
                             
@@ -247,7 +248,7 @@ class TrialScores(object):
 
         if not(keep):
             model_set=np.setdiff1d(self.model_set, model_set)
-            seg_set=np.setdiff1d(self.model_set, seg_set)
+            seg_set=np.setdiff1d(self.seg_set, seg_set)
 
         f_mod, mod_idx = ismember(model_set, self.model_set)
         f_seg, seg_idx = ismember(seg_set, self.seg_set)
@@ -311,7 +312,7 @@ class TrialScores(object):
         assert(len(np.unique(self.model_set)) == len(self.model_set))
         assert(len(np.unique(self.seg_set)) == len(self.seg_set))
         if self.scores is None:
-            self.scores = np.zeros((len(model_set), len(seg_set)))
+            self.scores = np.zeros((len(self.model_set), len(self.seg_set)))
         else:
             assert(self.scores.shape ==
                    (len(self.model_set), len(self.seg_set)))
-- 
2.43.0


From 1436099180274761313bd50b3b36006cf93eaee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 014/125] fix: cohort evaluation sets and part selection in the
 trial data readers

---
 hyperion/helpers/classif_trial_data_reader.py    | 2 +-
 hyperion/helpers/multi_test_trial_data_reader.py | 2 +-
 hyperion/helpers/tracking_data_reader.py         | 4 ++--
 hyperion/helpers/trial_data_reader.py            | 2 +-
 hyperion/utils/trial_ndx.py                      | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyperion/helpers/classif_trial_data_reader.py b/hyperion/helpers/classif_trial_data_reader.py
index 44e9b3b..b0c32a1 100644
--- a/hyperion/helpers/classif_trial_data_reader.py
+++ b/hyperion/helpers/classif_trial_data_reader.py
@@ -41,7 +41,7 @@ class ClassifTrialDataReader(object):
         ndx = TrialNdx(model_set, seg_set)
         logging.debug(num_seg_parts)
         if num_seg_parts > 1:
-            ndx = TrialNdx.split(1, 1, seg_idx, num_seg_parts)
+            ndx = ndx.split(1, 1, seg_idx, num_seg_parts)
 
         self.ndx = ndx
 
diff --git a/hyperion/helpers/multi_test_trial_data_reader.py b/hyperion/helpers/multi_test_trial_data_reader.py
index 71ac5a0..b8c7b3e 100644
--- a/hyperion/helpers/multi_test_trial_data_reader.py
+++ b/hyperion/helpers/multi_test_trial_data_reader.py
@@ -45,7 +45,7 @@ class MultiTestTrialDataReader(object):
                 
         ndx, enroll = TrialNdx.parse_eval_set(ndx, enroll, test, eval_set)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
             subseg2orig =subseg2orig.filter_info(ndx.seg_set)
 
diff --git a/hyperion/helpers/tracking_data_reader.py b/hyperion/helpers/tracking_data_reader.py
index 47db46f..df61373 100644
--- a/hyperion/helpers/tracking_data_reader.py
+++ b/hyperion/helpers/tracking_data_reader.py
@@ -38,7 +38,7 @@ class TrackingDataReader(object):
 
         segments = ExtSegmentList.load(segments_file)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
             segments = segments.filter(ndx.seg_set)
         
@@ -72,7 +72,7 @@ class TrackingDataReader(object):
     def _read_single_utt(self, key):
         ndx = self.ndx.filter(self.ndx.model_set, [key])
         ndx_seg = ndx.apply_segmentation_to_test(self.segments)
-        enroll, ndx_seg = TrialNdx.parse_eval_set(self.enroll, ndx_seg)
+        ndx_seg, enroll = TrialNdx.parse_eval_set(ndx_seg, self.enroll)
         segments = self.segments.filter([key])
         return enroll, ndx_seg, segments
 
diff --git a/hyperion/helpers/trial_data_reader.py b/hyperion/helpers/trial_data_reader.py
index 1fdbeea..9ce9dd8 100644
--- a/hyperion/helpers/trial_data_reader.py
+++ b/hyperion/helpers/trial_data_reader.py
@@ -43,7 +43,7 @@ class TrialDataReader(object):
                 
         ndx, enroll = TrialNdx.parse_eval_set(ndx, enroll, test, eval_set)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
 
         self.enroll = enroll
diff --git a/hyperion/utils/trial_ndx.py b/hyperion/utils/trial_ndx.py
index bf96196..9deacb8 100644
--- a/hyperion/utils/trial_ndx.py
+++ b/hyperion/utils/trial_ndx.py
@@ -227,12 +227,12 @@ class TrialNdx(object):
         if eval_set == 'enroll-test':
             enroll = enroll.filter_info(ndx.model_set)
         if eval_set == 'enroll-coh':
-            ndx = TrialNdx(ndx.model_set, test.file_path)
+            ndx = TrialNdx(ndx.model_set, test.key)
             enroll = enroll.filter_info(ndx.model_set)
         if eval_set == 'coh-test':
             ndx = TrialNdx(enroll.key, ndx.seg_set)
         if eval_set == 'coh-coh':
-            ndx = TrialNdx(enroll.key, test.file_path)
+            ndx = TrialNdx(enroll.key, test.key)
         return ndx, enroll
 
     
-- 
2.43.0


From 1ecc7c2e8dcba2065390e7291f981f1879fb1fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 015/125] fix: look-ups, loading, masks, filtering and merging
 of segment lists

---
 hyperion/utils/ext_segment_list.py | 130 ++++++++++++++++-------------
 hyperion/utils/segment_list.py     |  16 ++--
 2 files changed, 80 insertions(+), 66 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index 0e0a19e..1aa19a2 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -71,18 +71,16 @@ class ExtSegmentList(object):
                                  'ext_segment_id': ext_segment_id})
         
         if series_id is None:
-            u_file_id = self.segments['file_id'].unique()
+            u_file_id = segments['file_id'].unique()
             files = pd.DataFrame({'file_id': u_file_id, 'series_id': u_file_id})
         else:
-            file_id = [f for f in v for k,v in series_id.items()]
-            series_id = [k for f in v for k,v in series_id.items()]
+            file_id = [f for k,v in series_id.items() for f in v]
+            series_id = [k for k,v in series_id.items() for f in v]
             files = pd.DataFrame({'file_id': file_id, 'series_id': series_id})
 
-        if isinstance(name, string_types):
-            ext_segment_id = segments['ext_segment_id'].unique()
-        elif isinstance(name, dict):
-            ext_segment_id = [k for k,v in name.items()]
-            name = [v for k,v in name.items()]
+        ext_segment_id = segments['ext_segment_id'].unique()
+        if isinstance(name, dict):
+            name = [name[k] for k in ext_segment_id]
 
         if isinstance(score, dict):
             score = [score[k] for k in ext_segment_id]
@@ -103,18 +101,20 @@ class ExtSegmentList(object):
             ext_segment_id = segments['segment_id'])
         ext_segment_id = segments.ext_segment_id.unique()
 
-        if not np.isnan(name):
-            name = [name[k] for k in segments['ext_segment_id'].values]
+        if isinstance(name, dict):
+            name = [name[k] for k in ext_segment_id]
+        if isinstance(score, dict):
+            score = [score[k] for k in ext_segment_id]
         ext_segments = pd.DataFrame(
-                {'ext_segment_id': segments['ext_segment_id'].values,
+                {'ext_segment_id': ext_segment_id,
                  'name': name, 'score': score})
 
         if series_id is None:
             u_file_id = segments['file_id'].unique()
             files = pd.DataFrame({'file_id': u_file_id, 'series_id': u_file_id})
         else:
-            file_id = [f for f in v for k,v in series_id.items()]
-            series_id = [k for f in v for k,v in series_id.items()]
+            file_id = [f for k,v in series_id.items() for f in v]
+            series_id = [k for k,v in series_id.items() for f in v]
             files = pd.DataFrame({'file_id': file_id, 'series_id': series_id})
 
         return cls(segments, ext_segments, files, index_column)
@@ -146,19 +146,19 @@ class ExtSegmentList(object):
     def index_column(self, value):
 
         self._index_column = value
-        self.ext_segments.index = self.ext_segments.ext_segment_id
+        self.ext_segments.index = self.ext_segments.ext_segment_id.values
         if value == 'file_id':
-            self.segments.index = self.segments.file_id
-            self.files.index = self.files.file_id
+            self.segments.index = self.segments.file_id.values
+            self.files.index = self.files.file_id.values
         elif value == 'segment_id':
-            self.segments.index = self.segments.segment_id
-            self.files.index = self.files.file_id
+            self.segments.index = self.segments.segment_id.values
+            self.files.index = self.files.file_id.values
         elif value == 'ext_segment_id':
-            self.segments.index = self.segments.ext_segment_id
-            self.files.index = self.files.file_id
+            self.segments.index = self.segments.ext_segment_id.values
+            self.files.index = self.files.file_id.values
         elif value == 'series_id':
-            self.segments.index = self.segments.file_id
-            self.files.index = self.files.series_id
+            self.segments.index = self.segments.file_id.values
+            self.files.index = self.files.series_id.values
 
 
             
@@ -183,7 +183,7 @@ class ExtSegmentList(object):
     @property
     def segment_names(self):
         return np.asarray(pd.merge(self.segments, self.ext_segments,
-                                   on='ext_segment_id', how='inner')['name'])
+                                   on='ext_segment_id', how='left')['name'])
 
     
     @property
@@ -196,7 +196,7 @@ class ExtSegmentList(object):
     @property
     def segment_score(self):
         return np.asarray(pd.merge(self.segments, self.ext_segments,
-                                   on='ext_segment_id', how='inner')['score'])
+                                   on='ext_segment_id', how='left')['score'])
 
     
     
@@ -214,7 +214,7 @@ class ExtSegmentList(object):
     
     @property
     def uniq_file_id(self):
-        return np.asarry(self.files['file_id'])
+        return np.asarray(self.files['file_id'])
         # if self._uniq_file_id is None:
         #     self._uniq_file_id = np.asarray(self.segments['file_id'].unique())
             
@@ -225,11 +225,16 @@ class ExtSegmentList(object):
     @property
     def uniq_series_id(self):
         if self._uniq_series_id is None:
-            self._uniq_series_id = np.asarray(self.ext_segments['series_id'].unique())
+            self._uniq_series_id = np.asarray(self.files['series_id'].unique())
             
         return self._uniq_series_id
 
     
+    @property
+    def uniq_ext_segment_id(self):
+        return np.asarray(self.ext_segments['ext_segment_id'])
+
+
     @property
     def num_ext_segments(self):
         return len(self.ext_segments)
@@ -256,7 +261,7 @@ class ExtSegmentList(object):
         """Returns segments_ids corresponding to a given file_id
         """
         if self.index_column == 'file_id':
-            return np.asarray(self.segments.loc[file_id]['segment_id'])
+            return np.asarray(self.segments.loc[[file_id]]['segment_id'])
         index = self.segments['file_id']==file_id
         return np.asarray(self.segments.loc[index]['segment_id'])
 
@@ -265,7 +270,7 @@ class ExtSegmentList(object):
         """Returns ext_segments_ids corresponding to a given file_id
         """
         if self.index_column == 'file_id':
-            return np.unique(np.asarray(self.segments.loc[file_id]['ext_segment_id']))
+            return np.unique(np.asarray(self.segments.loc[[file_id]]['ext_segment_id']))
         index = self.segments['file_id']==file_id
         return np.unique(np.asarray(self.segments.loc[index]['ext_segment_id']))
 
@@ -290,12 +295,12 @@ class ExtSegmentList(object):
                 raise StopIteration()
         elif self.index_column == 'ext_segment_id':
             if self.iter_idx < len(self.ext_segments):
-                r = self.__getitem__(self.ext_segment['ext_segment_id'].iloc[self.iter_idx])
+                r = self.__getitem__(self.ext_segments['ext_segment_id'].iloc[self.iter_idx])
             else:
                 raise StopIteration()
         else:
             if self.iter_idx < len(self.segments):
-                r = self.__getitem__(self.segments['segment_id'].iloc(self.iter_idx))
+                r = self.__getitem__(self.segments['segment_id'].iloc[self.iter_idx])
             else:
                 raise StopIteration()
 
@@ -330,8 +335,8 @@ class ExtSegmentList(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_column == 'segment_id':
-            return pd.merge(self.segments.loc[key], self.ext_segments,
-                            sort=False, how='inner')
+            return pd.merge(self.segments.loc[[key]], self.ext_segments,
+                            on='ext_segment_id', sort=False, how='inner')
         else:
             return self.filter([key])
             
@@ -366,16 +371,22 @@ class ExtSegmentList(object):
           SegmentList object.
         """
         segments = pd.read_csv(file_path + '.segments', sep=sep, header=None,
-                               names=['segment_id','file_id','tbeg','tend', 'ext_segment_id'])
+                               names=['segment_id','file_id','tbeg','tend', 'ext_segment_id'],
+                               dtype={'segment_id': str, 'file_id': str, 'ext_segment_id': str},
+                               keep_default_na=False)
         if path.isfile(file_path + '.ext_segments'):
             ext_segments = pd.read_csv(file_path + '.ext_segments', sep=sep, header=None,
-                                       names=['ext_segment_id', 'name', 'score'], na_values='NA')
+                                       names=['ext_segment_id', 'name', 'score'],
+                                       dtype={'ext_segment_id': str, 'name': str},
+                                       na_values={'name': ['NA'], 'score': ['NA']},
+                                       keep_default_na=False)
         else:
             ext_segments = None
             
         if path.isfile(file_path + '.files'):
             files = pd.read_csv(file_path + '.files', sep=sep, header=None,
-                                names=['file_id', 'series_id'])
+                                names=['file_id', 'series_id'],
+                                dtype=str, keep_default_na=False)
         else:
             files = None
             
@@ -386,23 +397,21 @@ class ExtSegmentList(object):
     
     def filter(self, filter_key, keep=True):
         if self.index_column == 'series_id':
-            if not keep:
-                filter_key = np.setdiff1d(
-                    np.asarray(self.files.index), filter_key)
-            files = self.files.loc[filter_key]
-            segments = pd.merge(self.segments, files, on='file_id', how='inner')[
-                ['segment_id', 'file_id', 'tbeg','tend','ext_segment_id']]
+            if keep:
+                files = self.files.loc[filter_key]
+            else:
+                files = self.files[~self.files.index.isin(filter_key)]
+            segments = self.segments[self.segments.file_id.isin(files.file_id)].copy()
         else:
-            if not keep:
-                filter_key = np.setdiff1d(
-                    np.asarray(self.segments.index), filter_key)
-            segments = self.segments.loc[filter_key]
-            files = pd.merge(self.files, segments, on='file_id', how='inner')[
-                ['file_id', 'series_id']]
-            
-        ext_segments = pd.merge(self.ext_segments, segments,
-                                on='ext_segment_id', how='inner')[
-                                    ['ext_segment_id','name']]
+            if keep:
+                segments = self.segments.loc[filter_key]
+            else:
+                segments = self.segments[~self.segments.index.isin(filter_key)].copy()
+            files = self.files[self.files.file_id.isin(segments.file_id)]
+
+        files = files.copy()
+        ext_segments = self.ext_segments[
+            self.ext_segments.ext_segment_id.isin(segments.ext_segment_id)].copy()
 
         return ExtSegmentList(segments, ext_segments, files, self.index_column)
 
@@ -430,7 +439,7 @@ class ExtSegmentList(object):
         for sl in segment_lists:
             segments.append(sl.segments)
             files.append(sl.files)
-            ext_segments.append(ext_segments)
+            ext_segments.append(sl.ext_segments)
             
         segments = pd.concat(segments).drop_duplicates()
         files = pd.concat(files).drop_duplicates()
@@ -443,7 +452,9 @@ class ExtSegmentList(object):
     def __eq__(self, other):
         """Equal operator"""
         eq = self.segments.equals(other.segments)
-        eq = eq and self.index_by_file == other.index_by_file
+        eq = eq and self.ext_segments.equals(other.ext_segments)
+        eq = eq and self.files.equals(other.files)
+        eq = eq and self.index_column == other.index_column
             
         return eq
 
@@ -467,7 +478,7 @@ class ExtSegmentList(object):
             max_segments = len(self.segments)
             
         segm = pd.merge(self.segments, self.ext_segments,
-                        on='ext_segment_id', how='inner')
+                        on='ext_segment_id', how='left')
         segm_1 = segm.shift(1)
 
         index = ((segm.file_id == segm_1.file_id) &
@@ -559,7 +570,7 @@ class ExtSegmentList(object):
             max_segments = len(self.segments)
             
         segm = pd.merge(self.segments, self.ext_segments,
-                        on='ext_segment_id', how='inner')
+                        on='ext_segment_id', how='left')
         segm_1 = segm.shift(1)
 
         index = ((segm.file_id == segm_1.file_id) &
@@ -591,7 +602,7 @@ class ExtSegmentList(object):
                 # logging.debug(new_ext_segment_id)
                 # logging.debug('NEW SEGMENTS FULL')
                 # logging.debug(self.segments[:last_idx+1])
-                d[new_ext_segment_id] = self.ext_segments.loc[old_ext_segment_ids[0], 'name']
+                d[new_ext_segment_id] = self.ext_segments.loc[old_ext_segment_ids[0], ['name', 'score']]
                 
                 #logging.debug(old_ext_segment_ids[1:])
                 #logging.debug(old_ext_segment_ids[1:])
@@ -622,10 +633,11 @@ class ExtSegmentList(object):
 
                 
         ext_segment_id = [k for k,v in d.items()]
-        name = [v for k,v in d.items()]
+        name = [v['name'] for k,v in d.items()]
+        score = [v['score'] for k,v in d.items()]
         self.ext_segments = pd.DataFrame(
             {'ext_segment_id': ext_segment_id,
-             'name': name})
+             'name': name, 'score': score})
         #logging.debug('DICT', d)
         # for k,v in d.items():
         #     logging.debug(k)
@@ -636,7 +648,7 @@ class ExtSegmentList(object):
         # drop_index = (~self.ext_segments.ext_segment_id.isin(self.segments.ext_segment_id))
         # drop_index = self.ext_segments.index[drop_index]
         # self.ext_segments.drop(drop_index, inplace=True)
-        self.ext_segments = self.ext_segments.set_index(self.ext_segments.ext_segment_id, drop=False)
+        self.index_column = self.index_column
         #logging.debug(self.ext_segments)
         # assert len(self.ext_segments.ext_segment_id.unique()) == len(self.ext_segments.ext_segment_id)
         # #logging.debug('E',self.ext_segments)
diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index 6819738..d92d604 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -43,7 +43,7 @@ class SegmentList(object):
         
     @classmethod
     def create(cls, segment_id, file_id, tbeg, tend, index_by_file=True):
-        segments = pd.Dataframe({'segment_id': segment_id,
+        segments = pd.DataFrame({'segment_id': segment_id,
                                  'file_id': file_id,
                                  'tbeg': tbeg,
                                  'tend': tend})
@@ -110,7 +110,7 @@ class SegmentList(object):
         """Returns segments_ids corresponding to a given file_id
         """
         if self.index_by_file:
-            return np.asarray(self.segments.loc[file_id]['segment_id'])
+            return np.asarray(self.segments.loc[[file_id]]['segment_id'])
         index = self.segments['file_id']==file_id
         return np.asarray(self.segments.loc[index]['segment_id'])
         
@@ -163,7 +163,7 @@ class SegmentList(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_by_file:
-            df = self.segments.loc[key]
+            df = self.segments.loc[[key]]
             return SegmentList(df, index_by_file=False)
         else:
             return self.segments.loc[key]
@@ -184,7 +184,7 @@ class SegmentList(object):
         """
         if self.index_by_file:
             if index < len(self.uniq_file_id):
-                return self.getitem_by_key(self.uniq_file_id[self.iter_idx])
+                return self.getitem_by_key(self.uniq_file_id[index])
             else:
                 raise Exception('SegmentList error index>=num_files (%d,%d)' % (index,len(self.uniq_file_id)))
         else:
@@ -244,7 +244,9 @@ class SegmentList(object):
           SegmentList object.
         """
         df = pd.read_csv(file_path, sep=sep, header=None,
-                         names=['segment_id','file_id','tbeg','tend'])
+                         names=['segment_id','file_id','tbeg','tend'],
+                         dtype={'segment_id': str, 'file_id': str},
+                         keep_default_na=False)
         return cls(df, index_by_file=index_by_file)
 
 
@@ -297,11 +299,11 @@ class SegmentList(object):
 
         if num_frames is None:
             if self.index_by_file:
-                num_frames=tend[-1]
+                num_frames=np.max(tend)
             else:
                 file_id = self.segments.loc[key]['file_id']
                 sel_idx = self.segments['file_id'] == file_id
-                num_frames = int(np.round(self.segments[sel_idx]['tend'].max() * 1000/self.frame_shift))
+                num_frames = int(np.round(self.segments[sel_idx]['tend'].max() * 1000/frame_shift))
                 
         tend = np.minimum(num_frames-1, tend)                
         vad = np.zeros((num_frames,), dtype=int)
-- 
2.43.0


From 4fb7457be4bbc6fd31914e833f5eae1336d146c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 016/125] fix: look-ups, splitting, saving, overlap removal and
 activity matrix of RTTM tables

---
 hyperion/utils/rttm.py | 81 +++++++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 41 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 3abbdb6..0fd0eca 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -52,7 +52,7 @@ class RTTM(object):
         if tbeg is None:
             tbeg = nans
         if tdur is None:
-            tend = nans
+            tdur = nans
         if ortho is None:
             ortho = nans
         if stype is None:
@@ -151,9 +151,9 @@ class RTTM(object):
     def index_by_file(self, value):
         self._index_by_file = value
         if self._index_by_file:
-            self.segments.index = self.segments.file_key
+            self.segments.index = self.segments.file_id
         else:
-            self.segments.index = self.segments.segment
+            self.segments.index = [i for i in xrange(len(self.segments))]
         
     
             
@@ -243,7 +243,7 @@ class RTTM(object):
     
     def __contains__(self, key):
         """ Returns True if the segments contains the key"""
-        return key in self.segments.segment_id
+        return key in self.segments.index
 
 
     
@@ -261,7 +261,7 @@ class RTTM(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_by_file:
-            df = self.segments.loc[key]
+            df = self.segments.loc[[key]]
             return RTTM(df, index_by_file=False)
         else:
             return self.segments.iloc[key]
@@ -279,7 +279,7 @@ class RTTM(object):
                        'tbeg','tdur','ortho', 'stype',
                        'name', 'conf', 'slat']].to_csv(
                            file_path, sep=sep, float_format='%.3f',
-                           index=False, header=False)
+                           index=False, header=False, na_rep='<NA>')
 
 
         
@@ -296,7 +296,11 @@ class RTTM(object):
         """
         df = pd.read_csv(file_path, sep=sep, header=None,
                          names=['segment_type','file_id','chnl','tbeg','tdur',
-                                'ortho','stype','name','conf','slat'])
+                                'ortho','stype','name','conf','slat'],
+                         dtype={'segment_type': str, 'file_id': str, 'ortho': str,
+                                'stype': str, 'name': str, 'slat': str},
+                         na_values={'tbeg': ['<NA>'], 'tdur': ['<NA>']},
+                         keep_default_na=False)
         return cls(df, index_by_file=index_by_file)
 
 
@@ -304,14 +308,15 @@ class RTTM(object):
     def filter(self, filter_key, keep=True):
         if not keep :
             filter_key = np.setdiff1d(
-                np.asrray(self.segments.index), filter_key)
+                np.asarray(self.segments.index), filter_key)
         df = self.segments.loc[filter_key]
         return RTTM(df, index_by_file=self.index_by_file)
     
 
     
     def split(self, idx, num_parts):
-        key, _ = split_list(self.index, idx, num_parts)
+        index = self.unique_file_id if self.index_by_file else self.segments.index
+        key, _ = split_list(index, idx, num_parts)
         df = self.segments.loc[key]
         return RTTM(df, index_by_file=self.index_by_file)
 
@@ -342,7 +347,8 @@ class RTTM(object):
         for i in xrange(len(self.segments)-1, 0, -1):
             if index.iloc[i]:
                 tbeg = segm.iloc[i-1].tbeg
-                tend = segm.iloc[i].tbeg + segm.iloc[i].tdur
+                tend = max(tbeg + segm.iloc[i-1].tdur,
+                           segm.iloc[i].tbeg + segm.iloc[i].tdur)
                 self.segments.iloc[i-1, self.segments.columns.get_loc('tdur')] = tend - tbeg
                 self.segments.iloc[i, self.segments.columns.get_loc('segment_type')] = 'DROP'
         #logging.debug(self.segments[ix])
@@ -457,44 +463,37 @@ class RTTM(object):
 
 
     def eliminate_overlaps(self):
-        segm = self.segments
-        segm_1 = self.segments.shift(1)
-        tend_1 = segm_1.tbeg + segm_1.tdur
-        tbeg = segm.tbeg
-        tend = segm.tbeg + segm.tdur
-        tavg = (tbeg + tend_1)/2
-        index = ((segm.file_id == segm_1.file_id) &
-                 (segm.segment_type == segm_1.segment_type) &
-                 (tbeg < tend_1))
-        # logging.debug(index)
-        # logging.debug(self.segments.loc[index])
-        # logging.debug(self.segments.loc[index])
-        self.segments.loc[index, 'tbeg'] = tavg[index]
-        # logging.debug(self.segments.loc[index])
-        index_1 = index.shift(-1)
-        index_1[index_1.isnull()] = False
-        # logging.debug(self.segments.loc[index_1])
-        self.segments.loc[index_1, 'tdur'] = tavg[index] - tbeg[index_1]
-        # logging.debug(self.segments.loc[index_1])
-        self.segments.loc[index, 'tdur'] = tend[index] - tavg[index]
+        file_id = self.file_id
+        segment_type = np.asarray(self.segments['segment_type'])
+        tbeg = np.array(self.tbeg, dtype=float)
+        tend = tbeg + self.tdur
+        index = ((file_id[1:] == file_id[:-1]) &
+                 (segment_type[1:] == segment_type[:-1]) &
+                 (tbeg[1:] < tend[:-1]))
+        tavg = (tbeg[1:] + tend[:-1])/2
+        tbeg[1:][index] = tavg[index]
+        tend[:-1][index] = tavg[index]
+        self.segments['tbeg'] = tbeg
+        self.segments['tdur'] = tend - tbeg
 
 
 
     
     def to_matrix(self, file_id, frame_shift=0.001):
-        if self.index_by_file:
-            segments = self.segments[file_id]
-        else:
-            segments = self.segments[self.segments['file_id'] == file_id]
+        segments = self.segments[self.segments['file_id'] == file_id]
 
         u_names, name_ids = np.unique(segments['name'], return_inverse=True)
-        tbeg = np.round(segments['tbeg']/frame_shift).astype(dtype=int)
-        tend = np.round((segments['tbeg']+segments['tdur'])/frame_shift).astype(dtype=int)
+        tbeg = np.asarray(segments['tbeg'])
+        tend = tbeg + np.asarray(segments['tdur'])
+        tbeg = np.round(tbeg/frame_shift).astype(dtype=int)
+        tend = np.round(tend/frame_shift).astype(dtype=int)
 
-        M = np.zeros((tend[-1], len(u_names)), dtype=int)
-        for i in xrange(len(u_names)):
+        M = np.zeros((np.max(tend), len(u_names)), dtype=int)
+        for i in xrange(len(segments)):
             M[tbeg[i]:tend[i], name_ids[i]] = 1
 
+        return M
+
 
             
     def compute_stats(self, nbins_dur=None):
@@ -510,7 +509,7 @@ class RTTM(object):
                              index=['mean','std','median','model','min','max'])
 
         if nbins_dur is None:
-            nbins_dur = np.max(5, np.min(100, len(self.segments)/10))
+            nbins_dur = max(5, min(100, len(self.segments)//10))
         hist_dur = np.histogram(self.segments['tdur'], nbins_dur)
 
         
@@ -527,8 +526,8 @@ class RTTM(object):
 
         segments = self.segments[['file_id','tbeg']].copy()
         segments['tend'] = self.segments['tbeg'] + self.segments['tdur']
-        segments['segment_id'] = ['%s-%07d-%07d' % (file_id, tbeg, tdur)
-                                  for file_id, tbeg, tdur in zip(
+        segments['segment_id'] = ['%s-%07d-%07d' % (file_id, np.round(tbeg*1000), np.round(tend*1000))
+                                  for file_id, tbeg, tend in zip(
                                           segments['file_id'],
                                           segments['tbeg'],
                                           segments['tend'])]
-- 
2.43.0


From 6d11ac7b8c9d22d0ed0c4d19c26bd89d176a0eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:43 +0000
Subject: [PATCH 017/125] fix: saving, loading and selection of fold and
 train/validation/evaluation lists

---
 hyperion/utils/fold_list.py           | 14 +++++++---
 hyperion/utils/train_val_eval_list.py | 39 ++++++++++++++-------------
 2 files changed, 30 insertions(+), 23 deletions(-)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index 71b6750..aef2a46 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -59,7 +59,7 @@ class FoldList(object):
     def __len__(self):
         """Returns number of folds.
         """
-        return self.num_folds()
+        return self.num_folds
 
 
     @property
@@ -150,8 +150,8 @@ class FoldList(object):
           sep: Separator between fold field and key field
         """
         with open(file_path, 'w') as f:
-            for f,k in zip(self.fold, self.key):
-                f.write('%s%s%s\n' % (f,sep,k))
+            for i,k in zip(self.fold, self.key):
+                f.write('%s%s%s\n' % (i,sep,k))
 
 
     @classmethod
@@ -170,7 +170,10 @@ class FoldList(object):
             fields = [line.rstrip().split(sep=sep, maxsplit=1) for line in f]
         fold = np.asarray([int(f[0]) for f in fields], dtype=int)
         key = np.asarray([f[1] for f in fields])
-        return cls(fold, key)
+        mask = fold >= 0
+        if np.all(mask):
+            mask = None
+        return cls(fold, key, mask)
 
 
     
@@ -198,6 +201,7 @@ class FoldList(object):
         
         if group_by_key is None:
             group_by_key = segment_key
+        group_by_key = np.asarray(group_by_key)
 
         if balance_by_key is None:
             balance_by_key = np.zeros((len(segment_key),), dtype=int)
@@ -213,6 +217,8 @@ class FoldList(object):
         for i in xrange(num_classes):
             
             idx_i = (balance_by_key == i).nonzero()[0]
+            if len(idx_i) == 0:
+                continue
             group_key_i = group_by_key[idx_i]
             _, group_key_i = np.unique(group_key_i, return_inverse=True)
             num_groups_i = np.max(group_key_i) + 1
diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index eba6f55..0e05662 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -106,8 +106,7 @@ class TrainValEvalList(object):
           part: Part number or name to return
 
         Returns:
-          train_idx: Indices of the elements used for training
-          test_idx: Indices of the elements used for test
+          Boolean indices of the elements of the part
         """
         if isinstance(part, string_types):
              self._make_part2num()
@@ -124,15 +123,13 @@ class TrainValEvalList(object):
         """Returns a part keys
 
         Args:
-          part: Part number to return
+          part: Part number or name to return
 
         Returns:
-          train_key: Keys of the elements used for training
-          test_key: Keys of the elements used for test
+          Keys of the elements of the part
         """
 
-        train_idx, test_idx = self.get_part_idx(part)
-        return self.key[train_idx], self.key[test_idx]
+        return self.key[self.get_part_idx(part)]
 
 
     
@@ -140,11 +137,10 @@ class TrainValEvalList(object):
         """Returns a part keys
 
         Args:
-          part: Part number to return
+          part: Part number or name to return
 
         Returns:
-          train_key: Keys of the elements used for training
-          test_key: Keys of the elements used for test
+          Keys of the elements of the part
         """
 
         return self.get_part(part)
@@ -160,10 +156,10 @@ class TrainValEvalList(object):
         """
         with open(file_path, 'w') as f:
             for p,k in zip(self.part, self.key):
-                if self.part_names is None:
+                if self.part_names is None or p < 0:
                     f.write('%s%s%d\n' % (k,sep,p))
                 else:
-                    f.write('%s%s%d%s\n' % (k,sep,p,self.part_names[p]))
+                    f.write('%s%s%d%s%s\n' % (k,sep,p,sep,self.part_names[p]))
 
 
                     
@@ -183,14 +179,16 @@ class TrainValEvalList(object):
             fields = [line.rstrip().split(sep=sep, maxsplit=2) for line in f]
         key = np.asarray([f[0] for f in fields])
         part = np.asarray([int(f[1]) for f in fields], dtype=int)
-        if len(fields[0]) == 2:
-            part_names = None
-        else:
-            part_names = np.asarray([f[2] for f in fields], dtype=int)
-            _, part_idx = np.unique(part, return_index=True)
-            part_names = part_names[part_idx]
+        names = {int(f[1]): f[2] for f in fields if len(f) > 2}
+        part_names = None
+        if names:
+            part_names = [names[p] for p in sorted(names)]
+
+        mask = part >= 0
+        if np.all(mask):
+            mask = None
             
-        return cls(key, part, part_names=part_names)
+        return cls(key, part, part_names=part_names, mask=mask)
 
 
     
@@ -231,6 +229,7 @@ class TrainValEvalList(object):
         
         if group_by_key is None:
             group_by_key = segment_key
+        group_by_key = np.asarray(group_by_key)
 
         if balance_by_key is None:
             balance_by_key = np.zeros((len(segment_key),), dtype=int)
@@ -246,6 +245,8 @@ class TrainValEvalList(object):
         for i in xrange(num_classes):
             
             idx_i = (balance_by_key == i).nonzero()[0]
+            if len(idx_i) == 0:
+                continue
             group_key_i = group_by_key[idx_i]
             _, group_key_i = np.unique(group_key_i, return_inverse=True)
             num_groups_i = np.max(group_key_i) + 1
-- 
2.43.0


From 82af98f5fb42e63ef0b25c25648d39bbc3ab4046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:46 +0000
Subject: [PATCH 018/125] fix: batch generators: parts of a list, pruning,
 balanced lists, epochs, wrap-around and utterance indicators

---
 .../generators/sequence_batch_generator_v1.py     | 15 +++++++++------
 .../generators/sequence_batch_generator_v2.py     |  6 +++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 5f2a28d..6017880 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -49,7 +49,7 @@ class SequenceBatchGeneratorV1(object):
         self.r = RF.create(rspecifier, path_prefix=path_prefix, transform=transform, scp_sep=scp_sep)
         self.u2c = Utt2Info.load(key_file, sep=scp_sep)
         if num_parts > 1:
-            self.u2c = self.u2c.split(part_idx, num_parts, group_by_key=False)
+            self.u2c = self.u2c.split(part_idx, num_parts)
         self.batch_size = batch_size
 
         self.cur_epoch = init_epoch
@@ -160,7 +160,8 @@ class SequenceBatchGeneratorV1(object):
     def _prune_min_length(self, min_length):
         keep_idx = self.seq_lengths >= min_length
         self.u2c = self.u2c.filter_index(keep_idx)
-        self._seq_lengths = None
+        self._seq_lengths = self.seq_lengths[keep_idx]
+        self._init_seq_lengths = self._seq_lengths
 
 
         
@@ -205,8 +206,8 @@ class SequenceBatchGeneratorV1(object):
         # self.u2c.save('tmp.u2c')
         # self.u2c.save('/tmp.u2c')
         if self._init_seq_lengths is not None:
-            self._init_seq_legths = self._init_seq_lengths[idx]
-            self._seq_lengths = self._init_seq_legths
+            self._init_seq_lengths = self._init_seq_lengths[idx]
+            self._seq_lengths = self._init_seq_lengths
         
 
             
@@ -292,8 +293,8 @@ class SequenceBatchGeneratorV1(object):
 
         self.cur_step = (self.cur_step + 1) % self.steps_per_epoch
         if self.cur_step == 0:
-            self.reset()
             self.cur_epoch += 1
+            self.reset()
 
         r = [keys]
             
@@ -321,7 +322,7 @@ class SequenceBatchGeneratorV1(object):
         
         if len(keys) < self.batch_size:
             delta = self.batch_size - len(keys)
-            keys += self.u2c.key[:delta]
+            keys += list(self.u2c.key[:delta])
             self.cur_seq = delta
             assert len(keys) == self.batch_size
 
@@ -362,6 +363,8 @@ class SequenceBatchGeneratorV1(object):
         first_frames = []
         count = 0
         while count < self.batch_size:
+            if np.all(self.cur_subseq == self.num_subseqs):
+                self.cur_subseq[:] = 0
             key = self.u2c.key[self.cur_seq]
             first_frame = self.cur_frame[self.cur_seq]
             full_seq_length = self.seq_lengths[self.cur_seq]
diff --git a/hyperion/generators/sequence_batch_generator_v2.py b/hyperion/generators/sequence_batch_generator_v2.py
index 18806a9..777c3b5 100644
--- a/hyperion/generators/sequence_batch_generator_v2.py
+++ b/hyperion/generators/sequence_batch_generator_v2.py
@@ -222,8 +222,8 @@ class SequenceBatchGeneratorV2(object):
         
         self.cur_step = (self.cur_step + 1) % self.steps_per_epoch
         if self.cur_step == 0:
-            self.reset()
             self.cur_epoch += 1
+            self.reset()
 
         r = [keys]
             
@@ -243,8 +243,8 @@ class SequenceBatchGeneratorV2(object):
 
         if self.return_utt1hot:
             num_utts = int(np.ceil(self.batch_size/self.num_egs_per_utt))
-            _, utt_ids = np.unique(utt_idx, return_inverse=True)
-            z = np.zeros((len(keys), self.num_utts), dtype=float_cpu())
+            _, utt_ids = np.unique(utt_idx[:len(keys)], return_inverse=True)
+            z = np.zeros((len(keys), num_utts), dtype=float_cpu())
             for i,k in enumerate(utt_ids):
                 z[i,k] = 1
             r.append(z)
-- 
2.43.0


From 858afe4551360c8860f5c6ef9daacf05345ebd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:07 +0000
Subject: [PATCH 019/125] fix: VectorClassReader class splitting from the
 command line and its buffer size, VectorReader.filter_args

---
 hyperion/helpers/vector_class_reader.py | 9 +++++----
 hyperion/helpers/vector_reader.py       | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index 4c29374..156a419 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -149,7 +149,7 @@ class VectorClassReader(object):
     def _split_classes(u2c, min_spc, max_spc, mode='sequential', overlap=0, rng=None):
         if max_spc is None:
             return u2c
-        if mode == 'random_1part':
+        if mode in ('random_1part', 'random_1subclass'):
             return VectorClassReader._filter_by_spc(u2c, min_spc, max_spc, 'random', rng)
 
         _, class_ids, num_spc = np.unique(u2c.info, return_inverse=True, return_counts=True)
@@ -159,7 +159,8 @@ class VectorClassReader(object):
         num_classes = np.max(class_ids)+1
 
         shift = max_spc-overlap
-        new_indx = np.zeros(max_spc*int(np.max(num_spc)*num_classes/shift+1), dtype=int)
+        max_subclasses = np.ceil(np.maximum(num_spc-max_spc, 0)/shift).astype(int) + 1
+        new_indx = np.zeros(max_spc*np.sum(max_subclasses), dtype=int)
         new_class_ids = np.zeros_like(new_indx)
         
         j = 0
@@ -243,7 +244,7 @@ class VectorClassReader(object):
                             choices=['random', 'first', 'last'],
                             help=('vector pruning method when spc > max-spc'))
         parser.add_argument(p1+'csplit-min-spc', dest=(p2+'csplit_min_spc'), type=int,
-                            default=None,
+                            default=1,
                             help=('minimum samples per class when doing class spliting'))
         parser.add_argument(p1+'csplit-max-spc', dest=(p2+'csplit_max_spc'), type=int,
                             default=None,
@@ -254,7 +255,7 @@ class VectorClassReader(object):
                             default='random', type=str.lower,
                             choices = ['sequential', 'random', 'random_1subclass'],
                             help=('class splitting mode'))
-        parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=float,
+        parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=int,
                             default=0, help=('overlap between subclasses'))
         parser.add_argument(p1+'no-csplit-once', dest=(p2+'csplit_once'), 
                             default=True, action='store_false',
diff --git a/hyperion/helpers/vector_reader.py b/hyperion/helpers/vector_reader.py
index e19b913..7f9985a 100644
--- a/hyperion/helpers/vector_reader.py
+++ b/hyperion/helpers/vector_reader.py
@@ -45,7 +45,7 @@ class VectorReader(object):
         else:
             p = prefix + '_'
             
-        valid_args = ('vlist_sep')
+        valid_args = ('vlist_sep',)
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
-- 
2.43.0


From ff4a00ebd03588ea0e89e24b62a135b667ae7ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 020/125] fix: sequence readers: sequences of exactly the
 minimum length, lists of uneven lengths, command-line defaults

---
 hyperion/helpers/sequence_post_reader.py | 12 ++++++------
 hyperion/helpers/sequence_reader.py      |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index b8b3425..fed97ac 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -101,7 +101,7 @@ class SequencePostReader(SequenceReader):
             seq_length = self.seq_length
             for i in xrange(self.cur_seq, self.num_seqs):
                 self.cur_seq += 1
-                if seq_length[i] > self.min_seq_length:
+                if seq_length[i] >= self.min_seq_length:
                     keys.append(self.scp.file_path[i])
                     j +=1
                     if j == self.batch_size:
@@ -124,7 +124,7 @@ class SequencePostReader(SequenceReader):
         x = []
         keys = []
         r = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(np.sum(num_subseqs)*self.num_seqs):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 key = self.scp.file_path[self.cur_seq]
                 seq_length_i = min(
@@ -210,7 +210,7 @@ class SequencePostReader(SequenceReader):
         x = []
         keys = []
         r = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(np.sum(num_subseqs)*self.num_seqs):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 if num_subseqs[self.cur_seq] == 1:
                     seq_length_i = min(self.max_seq_length, seq_length[self.cur_seq])
@@ -302,9 +302,9 @@ class SequencePostReader(SequenceReader):
             p1 = '--' + prefix + '-'
             p2 = prefix + '_'
 
-            parser.add_argument(p1+'num-comp', dest=(p2+'num_comp'), default=2048,
-                                type=int,
-                                help=('number of GMM components'))
+        parser.add_argument(p1+'num-comp', dest=(p2+'num_comp'), default=2048,
+                            type=int,
+                            help=('number of GMM components'))
         
 
     
diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 99dae7d..196fb77 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -193,7 +193,7 @@ class SequenceReader(object):
             seq_length = self.seq_length
             for i in xrange(self.cur_seq, self.num_seqs):
                 self.cur_seq += 1
-                if seq_length[i] > self.min_seq_length:
+                if seq_length[i] >= self.min_seq_length:
                     keys.append(self.scp.file_path[i])
                     j +=1
                     if j == self.batch_size:
@@ -210,7 +210,7 @@ class SequenceReader(object):
         seq_length = self.seq_length
         x = []
         keys = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(np.sum(num_subseqs)*self.num_seqs):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 key = self.scp.file_path[self.cur_seq]
                 seq_length_i = min(
@@ -274,7 +274,7 @@ class SequenceReader(object):
         
         x = []
         keys = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(np.sum(num_subseqs)*self.num_seqs):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 if num_subseqs[self.cur_seq] == 1:
                     seq_length_i = min(self.max_seq_length, seq_length[self.cur_seq])
@@ -343,7 +343,7 @@ class SequenceReader(object):
                             help=('keeps SUBSAMPLE %% of frames of the seq'))
 
         parser.add_argument(p1+'min-seq-length', dest=(p2+'min_seq_length'), type=int,
-                            default=None,
+                            default=1,
                             help=('minimum number of frames '
                                   'when we doing sequence splitting'))
         parser.add_argument(p1+'max-seq-length', dest=(p2+'max_seq_length'), type=int,
-- 
2.43.0


From d6770632893db215101d6ece4ae6dad908431663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:28 +0000
Subject: [PATCH 021/125] fix: edge cases of feature extraction, energy VAD
 with context, negative high frequency, constant features

---
 hyperion/feats/energy_vad.py            | 33 +++++++++++--------------
 hyperion/feats/feature_normalization.py |  1 +
 hyperion/feats/filter_banks.py          | 12 ++++-----
 hyperion/feats/frame_selector.py        |  2 +-
 hyperion/feats/mfcc.py                  |  6 +++--
 hyperion/feats/stft.py                  |  6 ++---
 6 files changed, 29 insertions(+), 31 deletions(-)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index 803541a..268e39f 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -13,6 +13,7 @@ import numpy as np
 from scipy.signal import lfilter
 
 from ..hyp_defs import float_cpu
+from ..utils.misc import str2bool
 from .stft import st_logE
 
 
@@ -85,7 +86,7 @@ class EnergyVAD(object):
                 dlen_x = len_x - len(x)
                 dlen1_x = int(np.floor((self._length-self._shift)/2))
                 dlen2_x = int(dlen_x - dlen1_x)
-                x = np.pad(x, (dlen1_x, dlen2_x), mode='reflect')
+                x = np.pad(x, (dlen1_x, max(dlen2_x, 0)), mode='reflect')
 
             # add dither
             if self.dither > 0:
@@ -105,28 +106,22 @@ class EnergyVAD(object):
             
 
         # compute VAD from logE
-        print(np.mean(logE))
         e_thr = self.vad_energy_threshold + self.vad_energy_mean_scale * np.mean(logE)
-        print(e_thr)
-        print(logE)
         vad = (logE > e_thr)
 
         context = self.vad_frames_context
-        if context == 0:
-            return vad
- 
-        window = 2*context + 1
-        if len(vad0) < window:
-            context = int(len(vad0)-1/2)
-
-        h = np.ones((window,), dtype='float32')
-        num_count = np.convolve(vad.astype('float32'), h, 'same')
-        den_count_boundary = np.arange(context+1, window, dtype='float32')
-        num_count[:context] /= den_count_boundary
-        num_count[-context:] /= den_count_boundary[::-1]
-        num_count[context:-context] /= window
-        
-        vad = num_count > self.vad_proportion_threshold
+        if context > 0:
+            # proportion of frames above the threshold in the context window,
+            # which is clipped at the ends of the signal
+            cum_count = np.concatenate(([0], np.cumsum(vad)))
+            t = np.arange(len(vad))
+            t1 = np.maximum(t - context, 0)
+            t2 = np.minimum(t + context + 1, len(vad))
+            vad = (cum_count[t2] - cum_count[t1])/(t2 - t1) > self.vad_proportion_threshold
+
+        if return_loge:
+            return vad, logE
+
         return vad
         
     
diff --git a/hyperion/feats/feature_normalization.py b/hyperion/feats/feature_normalization.py
index c78dde5..20c9d02 100644
--- a/hyperion/feats/feature_normalization.py
+++ b/hyperion/feats/feature_normalization.py
@@ -45,6 +45,7 @@ class MeanVarianceNorm(object):
 
         if self.norm_var:
             s_x = np.std(x, axis=0, keepdims=True)
+            s_x[s_x==0] = 1
             x = x/s_x
 
         return x
diff --git a/hyperion/feats/filter_banks.py b/hyperion/feats/filter_banks.py
index d74b6cd..5267e9a 100644
--- a/hyperion/feats/filter_banks.py
+++ b/hyperion/feats/filter_banks.py
@@ -49,8 +49,8 @@ class FilterBankFactory(object):
     @staticmethod
     def make_mel_kaldi(num_filters, fft_length, fs, low_freq, high_freq):
 
-        if high_freq == 0:
-            high_freq = fs/2
+        if high_freq <= 0:
+            high_freq = fs/2 + high_freq
             
         mel_low_freq = FilterBankFactory.lin2mel(low_freq)
         mel_high_freq = FilterBankFactory.lin2mel(high_freq)
@@ -76,8 +76,8 @@ class FilterBankFactory(object):
     @staticmethod
     def make_mel_etsi(num_filters, fft_length, fs, low_freq, high_freq):
 
-        if high_freq == 0:
-            high_freq = fs/2
+        if high_freq <= 0:
+            high_freq = fs/2 + high_freq
 
         fs_2 = fs/2
         mel_low_freq = FilterBankFactory.lin2mel(low_freq)
@@ -98,8 +98,8 @@ class FilterBankFactory(object):
     @staticmethod
     def make_linear(num_filters, fft_length, fs, low_freq, high_freq):
 
-        if high_freq == 0:
-            high_freq = fs/2
+        if high_freq <= 0:
+            high_freq = fs/2 + high_freq
         
         fs_2 = fs/2
         fc = np.linspace(low_freq, high_freq, num_filters+2)
diff --git a/hyperion/feats/frame_selector.py b/hyperion/feats/frame_selector.py
index 24f3cae..77cea7f 100644
--- a/hyperion/feats/frame_selector.py
+++ b/hyperion/feats/frame_selector.py
@@ -66,7 +66,7 @@ class FrameSelector(object):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('tol_num_frames')
+        valid_args = ('tol_num_frames',)
 
         d = dict((k, kwargs[p+k])
                  for k in valid_args if p+k in kwargs)
diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 2c74474..5858e55 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -225,7 +225,7 @@ class MFCC(object):
             X = x
             F = np.abs(X)
             if self.use_energy:
-                logE = F[:,0]
+                logE = np.real(X[:,0])
         elif self._input_step == MFCCSteps.FFT_MAG:
             F = x
             if self.use_energy:
@@ -238,6 +238,8 @@ class MFCC(object):
             if self.use_energy:
                 B = x[:,1:]
                 logE = x[:,0]
+            else:
+                B = x
 
         if self._input_step == MFCCSteps.WAVE:
             if self.snip_edges:
@@ -249,7 +251,7 @@ class MFCC(object):
                 #x = np.pad(x, (0, dlen_x), mode='reflect')
                 dlen1_x = int(np.floor((self._length-self._shift)/2))
                 dlen2_x = int(dlen_x - dlen1_x)
-                x = np.pad(x, (dlen1_x, dlen2_x), mode='reflect')
+                x = np.pad(x, (dlen1_x, max(dlen2_x, 0)), mode='reflect')
 
             # add dither
             if self.dither > 0:
diff --git a/hyperion/feats/stft.py b/hyperion/feats/stft.py
index 5c3459f..b88a348 100644
--- a/hyperion/feats/stft.py
+++ b/hyperion/feats/stft.py
@@ -18,7 +18,7 @@ def stft(x, frame_length, frame_shift, fft_length, window=None):
     if window is None:
         window = 1
         
-    num_frames = int(np.floor((len(x) - frame_length + frame_shift)/frame_shift))
+    num_frames = max(0, int(np.floor((len(x) - frame_length + frame_shift)/frame_shift)))
     X = np.zeros((num_frames, fft_length), dtype='complex64')
     j = 0
     for i in xrange(num_frames):
@@ -58,7 +58,7 @@ def strft(x, frame_length, frame_shift, fft_length, window=None):
     if window is None:
         window = 1
         
-    num_frames = int(np.floor((len(x) - frame_length + frame_shift)/frame_shift))
+    num_frames = max(0, int(np.floor((len(x) - frame_length + frame_shift)/frame_shift)))
     X = np.zeros((num_frames, int(fft_length/2+1)), dtype='complex64')
     j = 0
     for i in xrange(num_frames):
@@ -103,7 +103,7 @@ def st_logE(x, frame_length, frame_shift):
          Log-energy
      """
         
-    num_frames = int(np.floor((len(x) - frame_length + frame_shift)/frame_shift))
+    num_frames = max(0, int(np.floor((len(x) - frame_length + frame_shift)/frame_shift)))
         
     x2 = x**2
     e = np.zeros((num_frames,), dtype=float_cpu())
-- 
2.43.0


From 67be78efa4faaee86cd3c08fc364f24f8c2d1700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:59 +0000
Subject: [PATCH 022/125] fix: score normalisation: TZ/ZT-norm construction and
 masks, inputs left unchanged, deviation floor with masks and in adaptive
 S-norm

---
 hyperion/score_norm/adapt_s_norm.py | 27 ++++++++++++++++++---------
 hyperion/score_norm/s_norm.py       |  2 +-
 hyperion/score_norm/score_norm.py   |  2 +-
 hyperion/score_norm/t_norm.py       |  5 +++--
 hyperion/score_norm/tz_norm.py      |  2 +-
 hyperion/score_norm/z_norm.py       |  5 +++--
 hyperion/score_norm/zt_norm.py      |  4 ++--
 7 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index abf7351..9fa1bb8 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -18,7 +18,7 @@ class AdaptSNorm(ScoreNorm):
     """Class for adaptive S-Norm
     """
     def __init__(self, nbest=100, nbest_discard=0, **kwargs):
-        super(AdaptSNorm, self).__init__(*kwargs)
+        super(AdaptSNorm, self).__init__(**kwargs)
         self.nbest = nbest
         self.nbest_discard = nbest_discard
 
@@ -33,12 +33,17 @@ class AdaptSNorm(ScoreNorm):
         else:
             nbest = self.nbest
 
+        # masked scores are last in the rankings and they don't count in the statistics
+        rank_coh_test = scores_coh_test
+        rank_enr_coh = scores_enr_coh
         if mask_coh_test is not None:
-            scores_coh_test[mask_coh_test == False] = 0
+            rank_coh_test = np.where(mask_coh_test, scores_coh_test, -np.inf)
+            scores_coh_test = np.where(mask_coh_test, scores_coh_test, 0)
         if mask_enr_coh is not None:
-            scores_enr_coh[mask_enr_coh == False] = 0
+            rank_enr_coh = np.where(mask_enr_coh, scores_enr_coh, -np.inf)
+            scores_enr_coh = np.where(mask_enr_coh, scores_enr_coh, 0)
             
-        best_idx = np.flipud(np.argsort(scores_coh_test, axis=0))[self.nbest_discard:self.nbest_discard+nbest]
+        best_idx = np.flipud(np.argsort(rank_coh_test, axis=0))[self.nbest_discard:self.nbest_discard+nbest]
         scores_z_norm = np.zeros_like(scores)
         for i in xrange(scores.shape[1]):
             best_idx_i = best_idx[:,i]
@@ -53,13 +58,15 @@ class AdaptSNorm(ScoreNorm):
                 norm = np.mean(mask_enr_coh[:, best_idx_i],
                                axis=1, keepdims=True)
                 mu_z /= norm
-                s_z = np.sqrt(np.mean(scores_enr_coh[:, best_idx_i]**2,
-                                      axis=1, keepdims=True)/norm - mu_z**2)
+                s2_z = np.mean(scores_enr_coh[:, best_idx_i]**2,
+                               axis=1, keepdims=True)/norm - mu_z**2
+                s_z = np.sqrt(np.maximum(s2_z, 0))
 
+            s_z[s_z<self.std_floor] = self.std_floor
             scores_z_norm[:,i] = (scores[:,i] - mu_z.T)/s_z.T
 
 
-        best_idx = np.fliplr(np.argsort(scores_enr_coh, axis=1))[:,self.nbest_discard:self.nbest_discard+nbest]
+        best_idx = np.fliplr(np.argsort(rank_enr_coh, axis=1))[:,self.nbest_discard:self.nbest_discard+nbest]
         scores_t_norm = np.zeros_like(scores)
         for i in xrange(scores.shape[0]):
             best_idx_i = best_idx[i]
@@ -74,9 +81,11 @@ class AdaptSNorm(ScoreNorm):
                 norm = np.mean(mask_coh_test[best_idx_i,:],
                                axis=0, keepdims=True)
                 mu_z /= norm
-                s_z = np.sqrt(np.mean(scores_coh_test[best_idx_i,:]**2,
-                                      axis=0, keepdims=True)/norm - mu_z**2)
+                s2_z = np.mean(scores_coh_test[best_idx_i,:]**2,
+                               axis=0, keepdims=True)/norm - mu_z**2
+                s_z = np.sqrt(np.maximum(s2_z, 0))
 
+            s_z[s_z<self.std_floor] = self.std_floor
             scores_t_norm[i,:] = (scores[i,:] - mu_z)/s_z
 
         
diff --git a/hyperion/score_norm/s_norm.py b/hyperion/score_norm/s_norm.py
index deae2a8..f93a320 100644
--- a/hyperion/score_norm/s_norm.py
+++ b/hyperion/score_norm/s_norm.py
@@ -18,7 +18,7 @@ class SNorm(ScoreNorm):
     """ Class for S-Norm, symmetric score normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(SNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
diff --git a/hyperion/score_norm/score_norm.py b/hyperion/score_norm/score_norm.py
index f81d99a..19e573d 100644
--- a/hyperion/score_norm/score_norm.py
+++ b/hyperion/score_norm/score_norm.py
@@ -16,7 +16,7 @@ class ScoreNorm(HypModel):
     Base class for score normalization
     """
     def __init__(self, std_floor=1e-5, **kwargs):
-        super(ScoreNorm, self).__init__(*kwargs)
+        super(ScoreNorm, self).__init__(**kwargs)
         self.std_floor = std_floor
 
     
diff --git a/hyperion/score_norm/t_norm.py b/hyperion/score_norm/t_norm.py
index 11999e9..ba51510 100644
--- a/hyperion/score_norm/t_norm.py
+++ b/hyperion/score_norm/t_norm.py
@@ -21,10 +21,11 @@ class TNorm(ScoreNorm):
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)
             s_t = np.std(scores_coh_test, axis=0, keepdims=True)
         else:
-            scores_coh_test[mask==False] = 0
+            scores_coh_test = np.where(mask, scores_coh_test, 0)
             n_t = np.mean(mask, axis=0, keepdims=True)
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)/n_t
-            s_t = np.sqrt(np.mean(scores_coh_test**2, axis=0, keepdims=True)/n_t - mu_t**2)
+            s2_t = np.mean(scores_coh_test**2, axis=0, keepdims=True)/n_t - mu_t**2
+            s_t = np.sqrt(np.maximum(s2_t, 0))
             
         s_t[s_t<self.std_floor] = self.std_floor
         
diff --git a/hyperion/score_norm/tz_norm.py b/hyperion/score_norm/tz_norm.py
index 89bca45..164f5c8 100644
--- a/hyperion/score_norm/tz_norm.py
+++ b/hyperion/score_norm/tz_norm.py
@@ -17,7 +17,7 @@ class TZNorm(ScoreNorm):
     """Class for TZ-Norm score normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(TZNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
diff --git a/hyperion/score_norm/z_norm.py b/hyperion/score_norm/z_norm.py
index b758268..0f3e6cf 100644
--- a/hyperion/score_norm/z_norm.py
+++ b/hyperion/score_norm/z_norm.py
@@ -22,10 +22,11 @@ class ZNorm(ScoreNorm):
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)
             s_z = np.std(scores_enr_coh, axis=1, keepdims=True)
         else:
-            scores_enr_coh[mask==False] = 0
+            scores_enr_coh = np.where(mask, scores_enr_coh, 0)
             n_z = np.mean(mask, axis=1, keepdims=True)
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)/n_z
-            s_z = np.sqrt(np.mean(scores_enr_coh**2, axis=1, keepdims=True)/n_z - mu_z**2)
+            s2_z = np.mean(scores_enr_coh**2, axis=1, keepdims=True)/n_z - mu_z**2
+            s_z = np.sqrt(np.maximum(s2_z, 0))
 
         s_z[s_z<self.std_floor] = self.std_floor
         
diff --git a/hyperion/score_norm/zt_norm.py b/hyperion/score_norm/zt_norm.py
index b0f9f9b..9906b47 100644
--- a/hyperion/score_norm/zt_norm.py
+++ b/hyperion/score_norm/zt_norm.py
@@ -18,7 +18,7 @@ class ZTNorm(ScoreNorm):
     """Class ZT-Norm score-normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(ZTNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
@@ -30,7 +30,7 @@ class ZTNorm(ScoreNorm):
         scores_z_norm = self.z_norm.predict(
             scores, scores_enr_coh, mask_enr_coh)
         scores_coh_test_z_norm = self.z_norm.predict(
-            scores_coh_test, scores_coh_coh, mask_enr_coh)
+            scores_coh_test, scores_coh_coh, mask_coh_coh)
         scores_zt_norm = self.t_norm.predict(
             scores_z_norm, scores_coh_test_z_norm, mask_coh_test)
         
-- 
2.43.0


From 59aa5aa6f40dc909fa157b37b1dd38edb4f135f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 023/125] fix: exponential-family statistics with weights or
 batches, loading, whitened statistics and M-step without mean update

---
 hyperion/pdfs/core/exp_family.py      | 10 +++++-----
 hyperion/pdfs/core/normal.py          | 13 +++++++------
 hyperion/pdfs/core/normal_diag_cov.py |  4 ++--
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/hyperion/pdfs/core/exp_family.py b/hyperion/pdfs/core/exp_family.py
index f252af2..bd04fee 100644
--- a/hyperion/pdfs/core/exp_family.py
+++ b/hyperion/pdfs/core/exp_family.py
@@ -84,7 +84,7 @@ class ExpFamily(PDF):
         if sample_weight is None:
             N = u_x.shape[0]
         else:
-            u_x *= sample_weight[:, None]
+            u_x = u_x * sample_weight[:, None]
             N = np.sum(sample_weight)
         acc_u_x = np.sum(u_x, axis=0)
         return N, acc_u_x
@@ -111,11 +111,11 @@ class ExpFamily(PDF):
     
     def add_suff_stats(self, N, u_x):
         assert(len(N)==len(u_x))
-        acc_N = N[1]
-        acc_u_x = u_x[1]
+        acc_N = N[0]
+        acc_u_x = u_x[0]
         for i in xrange(1,len(N)):
-            acc_N += N
-            acc_u_x += u[i]
+            acc_N = acc_N + N[i]
+            acc_u_x = acc_u_x + u_x[i]
         return acc_N, acc_u_x
 
     
diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 39342a5..f760217 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -121,12 +121,12 @@ class Normal(ExpFamily):
         assert self.is_init
         
         F, S = self.unstack_suff_stats(u_x)
-        F_norm = np.dot(F-N*self.mu, self.cholLambda.T)
+        F_norm = np.dot(F-N*self.mu, self.cholLambda)
         if return_order2:
-            SS = vec2symat(S)
-            Fmu = np.outer(self.F, self.mu)
+            SS = vec2symmat(S)
+            Fmu = np.outer(F, self.mu)
             SS = SS-Fmu-Fmu.T+N*np.outer(self.mu,self.mu)
-            SS = np.dot(self.cholLambda, np.dot(SS, self.cholLambda.T))
+            SS = np.dot(self.cholLambda.T, np.dot(SS, self.cholLambda))
             S = symmat2vec(SS)
             return N, self.stack_suff_stats(F_norm, S)
         return N, F_norm
@@ -142,7 +142,8 @@ class Normal(ExpFamily):
 
         if self.update_Lambda:
             S = vec2symmat(S/N)
-            S -= np.outer(self.mu,self.mu)
+            Fmu = np.outer(F/N, self.mu)
+            S = S - Fmu - Fmu.T + np.outer(self.mu,self.mu)
             # S = fullcov_varfloor(S, self.var_floor)
             self.Lambda = invert_pdmat(S, return_inv=True)[-1]
             self._Sigma = None
@@ -207,7 +208,7 @@ class Normal(ExpFamily):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
diff --git a/hyperion/pdfs/core/normal_diag_cov.py b/hyperion/pdfs/core/normal_diag_cov.py
index 6048f80..10b5f3d 100644
--- a/hyperion/pdfs/core/normal_diag_cov.py
+++ b/hyperion/pdfs/core/normal_diag_cov.py
@@ -119,7 +119,7 @@ class NormalDiagCov(ExpFamily):
             self.mu = F/N
 
         if self.update_Lambda:
-            S = S/N-self.mu**2
+            S = S/N-2*self.mu*F/N+self.mu**2
             S[S<self.var_floor] = self.var_floor
             self.Lambda=1/S
             self._Sigma = S
@@ -173,7 +173,7 @@ class NormalDiagCov(ExpFamily):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
-- 
2.43.0


From a8c41afc3a20ca7c24cebc1edfd48d9f81a76363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 024/125] fix: mixture statistics in batches and segments,
 empty components, component splitting, loading and generator training

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 79 +++++++++-----------
 hyperion/pdfs/mixtures/gmm.py                | 47 ++++++++----
 hyperion/pdfs/mixtures/gmm_diag_cov.py       | 28 ++++---
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py  | 23 +++---
 4 files changed, 95 insertions(+), 82 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 72608bf..5244f74 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -92,44 +92,47 @@ class ExpFamilyMixture(PDF):
                       val_data=None, val_steps=0, 
                       max_queue_size=10, workers=1, use_multiprocessing=False):
 
-        do_validation = bool(validation_data)
-        val_gen = (hasattr(validation_data, 'next') or
-                   hasattr(validation_data, '__next__') or
-                   isinstance(validation_data, Sequence))
-        if val_gen and not validation_steps:
+        do_validation = val_data is not None
+        val_gen = (hasattr(val_data, 'next') or
+                   hasattr(val_data, '__next__'))
+        if val_gen and not val_steps:
             raise ValueError('When using a generator for validation data, '
                              'you must specify a value for '
-                             '`validation_steps`.')
+                             '`val_steps`.')
 
         if do_validation and not val_gen:
-            x, u_x_val, sample_weight_val = self.tuple2data(val_data)
-            log_h_val = self.accum_log_h(x, sample_weight_val)
+            x_val, u_x_val, sample_weight_val = self.tuple2data(val_data)
+            log_h_val = self.accum_log_h(x_val, sample_weight_val)
         
         elbo = np.zeros((epochs,), dtype=float_cpu())
+        elbo_norm = np.zeros((epochs,), dtype=float_cpu())
         elbo_val = np.zeros((epochs,), dtype=float_cpu())
+        elbo_val_norm = np.zeros((epochs,), dtype=float_cpu())
         for epoch in xrange(epochs):
             N, u_x, log_h =self.Estep_generator(
                 generator, train_steps, return_log_h=True,
                 max_queue_size=max_queue_size, workers=workers,
                 use_multiprocessing=use_multiprocessing)
             
-            self.Mstep(N, u_x)
             elbo[epoch]=self.elbo(None, N=N, u_x=u_x, log_h=log_h)
+            elbo_norm[epoch] = elbo[epoch]/np.sum(N)
+            self.Mstep(N, u_x)
         
-            if val_data is not None:
+            if do_validation:
                 if val_gen:
                     N, u_x, log_h_val = self.Estep_generator(
-                        generator, train_steps, return_log_h = True,
+                        val_data, val_steps, return_log_h = True,
                         max_queue_size=max_queue_size, workers=workers,
                         use_multiprocessing=use_multiprocessing)
                 else:
                     N, u_x = self.Estep(x_val, u_x_val, sample_weight_val)
                 elbo_val[epoch] = self.elbo(None, N=N, u_x=u_x, log_h=log_h_val)
+                elbo_val_norm[epoch] = elbo_val[epoch]/np.sum(N)
 
-        if x_val is None:
-            return elbo, elbo/x.shape[0]
+        if do_validation:
+            return elbo, elbo_norm, elbo_val, elbo_val_norm
         else:
-            return elbo, elbo/x.shape[0], elbo_val, elbo_val/x.shape[0]
+            return elbo, elbo_norm
 
         
     
@@ -299,8 +302,6 @@ class ExpFamilyMixture(PDF):
         K = len(self.pi)
         num_frames = x.shape[0]
         num_segments = int(np.floor((num_frames-frame_length)/frame_shift + 1))
-        if num_segments == 1:
-            return self._accum_suff_stats_1batch(self, x, u_x, sample_weight)
 
         if u_x is None:
             u_x = self.compute_suff_stats(x)
@@ -311,20 +312,11 @@ class ExpFamilyMixture(PDF):
         N = np.zeros((num_segments, K), float_cpu())
         acc_u_x = np.zeros((num_segments, K, self.eta.shape[1]), float_cpu())
 
-        start1 = int(frame_shift-1)
-        end1 = int((num_segments-1) * frame_shift)
-        start2 = int(start1 + frame_length)
-        end2 = int(end1 + frame_length)
-        cum_N = np.cumsum(z, axis=0)
-        N[0] = cum_N[frame_length-1]
-        N[1:] = (cum_N[start2:end2:frame_shift] -
-                 cum_N[start1:end1:frame_shift])
-        
-        for k in xrange(K):
-            cum_u_x_k = np.cumsum(z[:,k][:,None] * u_x, axis=0)
-            acc_u_x[0,k] = cum_u_x_k[frame_length-1]
-            acc_u_x[1:,k] = (cum_u_x_k[start2:end2:frame_shift] -
-                               cum_u_x_k[start1:end1:frame_shift])
+        for i in xrange(num_segments):
+            start = int(i*frame_shift)
+            end = int(start+frame_length)
+            N[i] = np.sum(z[start:end], axis=0)
+            acc_u_x[i] = np.dot(z[start:end].T, u_x[start:end])
 
         return N, acc_u_x
 
@@ -335,10 +327,8 @@ class ExpFamilyMixture(PDF):
         K = len(self.pi)
         num_frames = x.shape[0]
         num_segments = int(np.floor((num_frames-frame_length)/frame_shift + 1))
-        if num_segments == 1:
-            return self._accum_suff_stats_1batch(self, x, u_x, sample_weight)
 
-        num_segments_per_batch = np.floor((num_frames-frame_length)/frame_shift + 1)
+        num_segments_per_batch = max(1, np.floor((batch_size-frame_length)/frame_shift + 1))
         batch_size = int((num_segments_per_batch-1)*frame_shift+frame_length)
         batch_shift = int(num_segments_per_batch*frame_shift)
 
@@ -347,7 +337,7 @@ class ExpFamilyMixture(PDF):
         
         sw_i = None
         cur_segment=0
-        for i1 in xrange(0, x.shape[0], batch_shift):
+        for i1 in xrange(0, num_segments*frame_shift, batch_shift):
             i2 = np.minimum(i1+batch_size, x.shape[0])
             x_i = x[i1:i2,:]
             if sample_weight is not None:
@@ -367,7 +357,7 @@ class ExpFamilyMixture(PDF):
 
     
     def Estep_generator(self, generator, num_steps, return_log_h,
-                        max_queue_size=10, workers=1, use_multiprocessin=False):
+                        max_queue_size=10, workers=1, use_multiprocessing=False):
         wait_time = 0.01 # in secs
         queue = None
         N = None
@@ -386,7 +376,7 @@ class ExpFamilyMixture(PDF):
                 x, u_x, sample_weight = self.tuple2data(data)
                 N_i, u_x_i = self.Estep(x, u_x, sample_weight)
                 if return_log_h:
-                    log_h += self.accum_log_h(x)
+                    log_h += self.accum_log_h(x, sample_weight)
                 if cur_step == 0:
                     N = N_i
                     acc_u_x = u_x_i
@@ -394,8 +384,8 @@ class ExpFamilyMixture(PDF):
                     N += N_i
                     acc_u_x += u_x_i
         finally:
-            if enqueuer is not None:
-                enqueuer.stop()
+            if queue is not None:
+                queue.stop()
                 
         if return_log_h:
             return N, acc_u_x, log_h
@@ -407,11 +397,11 @@ class ExpFamilyMixture(PDF):
     
     def sum_suff_stats(self, N, u_x):
         assert(len(N)==len(u_x))
-        acc_N = N[1]
-        acc_u_x = u_x[1]
+        acc_N = N[0]
+        acc_u_x = u_x[0]
         for i in xrange(1,len(N)):
-            acc_N += N
-            acc_u_x += u[i]
+            acc_N = acc_N + N[i]
+            acc_u_x = acc_u_x + u_x[i]
         return acc_N, acc_u_x
 
 
@@ -470,10 +460,9 @@ class ExpFamilyMixture(PDF):
         if nbest_mode == 'master':
             assert(isinstance(nbest, int))
             llk_k = np.dot(u_x, self.eta.T) - self.A + self.log_pi
-            nbest = np.argsort(llk_k)[:-(nbest+1):-1]
-            llk_k = llk_k[nbest]
+            llk_k = np.sort(llk_k, axis=-1)[:,-nbest:]
         else:
-            llk_k = np.dot(u_x, self.eta[nbest,:].T) - self.A + self.log_pi
+            llk_k = np.dot(u_x, self.eta[nbest,:].T) - self.A[nbest] + self.log_pi[nbest]
         llk = logsumexp(llk_k)
         return self.log_h(x) + llk
         
diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index d84b230..1086a77 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -153,16 +153,17 @@ class GMM(ExpFamilyMixture):
     def norm_suff_stats(self, N, u_x, return_order2=False):
         F, S = self.unstack_suff_stats(u_x)
         F_norm = F - N[:,None]*self.mu
+        S_norm = np.zeros_like(S)
         for k in xrange(self.num_comp):
-            F_norm[k] = np.dot(F_norm[k], self.cholLambda[k].T)
+            F_norm[k] = np.dot(F_norm[k], self.cholLambda[k])
             if return_order2:
-                SS = vec2symat(S[k])
-                Fmu = np.outer(self.F[k], self.mu[k])
-                SS = SS-Fmu-Fmu.T+N*np.outer(self.mu[k],self.mu[k])
-                SS = np.dot(self.cholLambda[k], np.dot(SS, self.cholLambda[k].T))
-                S[k] = symmat2vec(SS)
+                SS = vec2symmat(S[k])
+                Fmu = np.outer(F[k], self.mu[k])
+                SS = SS-Fmu-Fmu.T+N[k]*np.outer(self.mu[k],self.mu[k])
+                SS = np.dot(self.cholLambda[k].T, np.dot(SS, self.cholLambda[k]))
+                S_norm[k] = symmat2vec(SS)
         if return_order2:
-            return N, self.stack_suff_stats(F_norm, S)
+            return N, self.stack_suff_stats(F_norm, S_norm)
         return N, F_norm
 
     
@@ -171,23 +172,38 @@ class GMM(ExpFamilyMixture):
 
         F, S = self.unstack_suff_stats(u_x)
 
+        # components without enough data
+        N0 = np.logical_or(N < self.min_N, N == 0)
+        N = np.where(N0, 0, N)
+        N_mean = np.where(N0, 1, N)
+
         if self.update_mu:
-            self.mu = F/N[:,None]
+            self.mu = F/N_mean[:,None]
+            self.mu[N0] = 0
 
         if self.update_Lambda:
             C = np.zeros((self.num_comp, self.x_dim, self.x_dim), dtype=float_cpu())
             for k in xrange(self.num_comp):
-                C[k] = vec2symmat(S[k]/N[k])
-                C[k] -= np.outer(self.mu[k],self.mu[k])
-            Sfloor = self.var_floor*np.mean(C, axis=0)
+                Fmu = np.outer(F[k]/N_mean[k], self.mu[k])
+                C[k] = vec2symmat(S[k]/N_mean[k]) - Fmu - Fmu.T
+                C[k] += np.outer(self.mu[k],self.mu[k])
+            Sfloor = self.var_floor*np.mean(C[N0==False], axis=0)
             cholfloor = la.cholesky(Sfloor, overwrite_a=True)
+            self.Lambda = np.zeros_like(C)
             for k in xrange(self.num_comp):
+                if N0[k]:
+                    self.Lambda[k] = np.eye(self.x_dim)
+                    continue
                 C[k] = fullcov_varfloor(C[k], cholfloor, F_is_chol=True)
                 self.Lambda[k] = invert_pdmat(C[k], return_inv=True)[-1]
             self._Sigma = None
             self._logLambda = None
             self._cholLambda = None
 
+        if self.update_pi:
+            self.pi = N/np.sum(N)
+            self._log_pi = None
+
         self._compute_nat_params()
 
 
@@ -201,7 +217,7 @@ class GMM(ExpFamilyMixture):
         
         for g in xrange(self.num_comp):
             w, v = la.eigh(self.Sigma[g])
-            v *= np.sqrt(v)
+            v *= np.sqrt(w)
             if K==2:
                 std_dev = np.sum(v, axis=1)
                 mu[2*g] += std_dev
@@ -213,7 +229,8 @@ class GMM(ExpFamilyMixture):
                     mu[K*g+k] += std_dev
 
         config = self.get_config()
-        return GMM(pi=pi, mu=mu, Lambda=Lambda, **config)
+        return GMM(pi=pi, mu=mu, Lambda=Lambda, min_N=self.min_N,
+                   update_Lambda=self.update_Lambda, **config)
     
 
         
@@ -250,7 +267,7 @@ class GMM(ExpFamilyMixture):
         config = {'var_floor': self.var_floor,
                   'update_mu': self.update_mu,
                   'update_lambda': self.update_Lambda }
-        base_config = super(DiagGMM, self).get_config()
+        base_config = super(GMM, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
 
@@ -372,7 +389,7 @@ class GMM(ExpFamilyMixture):
     def compute_std(eta):
         x_dim = Normal.compute_x_dim_from_eta(eta)
         mu = np.zeros((eta.shape[0], x_dim), dtype=float_cpu())
-        Lambda = np.zeros((eta.shape[0], x_dim, x_dim), dtype='float32')
+        Lambda = np.zeros((eta.shape[0], x_dim, x_dim), dtype=float_cpu())
         for k in xrange(eta.shape[0]):
             mu[k], Lambda[k] = Normal.compute_std(eta[k])
 
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 266a95a..8c188e9 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -132,10 +132,10 @@ class GMMDiagCov(ExpFamilyMixture):
 
     
     def norm_suff_stats(self, N, u_x, return_order2=False):
-        F, S = self.unstack_suff_stats(acc_u_x)
+        F, S = self.unstack_suff_stats(u_x)
         F_norm = self.cholLambda*(F-N[:,None]*self.mu)
         if return_order2:
-            S=S-2*self.mu*F+N*self.mu**2
+            S=S-2*self.mu*F+N[:,None]*self.mu**2
             S *= self.Lambda
             return N, self.stack_suff_stats(F_norm, S)    
 
@@ -147,25 +147,28 @@ class GMMDiagCov(ExpFamilyMixture):
 
         F, S = self.unstack_suff_stats(u_x)
 
+        # components without enough data
+        N0 = np.logical_or(N < self.min_N, N == 0)
+        N = np.where(N0, 0, N)
+        N_mean = np.where(N0, 1, N)[:,None]
+
         if self.update_mu:
-            self.mu = F/N[:, None]
+            self.mu = F/N_mean
+            self.mu[N0] = 0
 
         if self.update_Lambda:
-            S = S/N[:,None] - self.mu**2
-            S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
+            S = S/N_mean - 2*self.mu*F/N_mean + self.mu**2
+            S_floor = self.var_floor * np.mean(S[N0==False], axis=0)
             S = np.maximum(S, S_floor)
+            S[N0] = 1
             self.Lambda=1/S
             self._Sigma = S
             self._cholLambda = None
             self._logLambda = None
 
         if self.update_pi:
-            N0 = N < self.min_N
-            if np.any(N0):
-                N[N0] = 0
-                mu[N0] = 0
-                S[N0] = 1
             self.pi = N/np.sum(N)
+            self._log_pi = None
             
         self._compute_nat_params()
         
@@ -189,7 +192,8 @@ class GMMDiagCov(ExpFamilyMixture):
                 mu[k::K] += factor*std_dev
 
         config = self.get_config()
-        return GMMDiagCov(pi=pi, mu=mu, Lambda=Lambda, **config)
+        return GMMDiagCov(pi=pi, mu=mu, Lambda=Lambda, min_N=self.min_N,
+                          update_Lambda=self.update_Lambda, **config)
         
 
     
@@ -249,7 +253,7 @@ class GMMDiagCov(ExpFamilyMixture):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['pi', 'mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'], pi=params['pi'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index a528c76..0c3c12c 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -56,7 +56,7 @@ class GMMTiedDiagCov(GMMDiagCov):
         if num_comp==1:
             self.pi=np.array([1], dtype=float_cpu())
             self.mu=np.mean(x, axis=0, keepdims=True)
-            self.Lambda=1/np.std(x, axis=0, keepdims=True)**2
+            self.Lambda=1/np.std(x, axis=0)**2
             return
 
         kmeans = KMeans(num_clusters=num_comp)
@@ -79,12 +79,18 @@ class GMMTiedDiagCov(GMMDiagCov):
 
         F, S = self.unstack_suff_stats(u_x)
 
+        # components without enough data
+        N0 = np.logical_or(N < self.min_N, N == 0)
+        N = np.where(N0, 0, N)
+        N_mean = np.where(N0, 1, N)[:,None]
+
         if self.update_mu:
-            self.mu = F/N[:, None]
+            self.mu = F/N_mean
+            self.mu[N0] = 0
 
         if self.update_Lambda:
-            S = S/N[:,None] - self.mu**2
-            S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
+            S = S/N_mean - 2*self.mu*F/N_mean + self.mu**2
+            S_floor = self.var_floor * np.mean(S[N0==False], axis=0)
             S = np.maximum(S, S_floor)
             Spool = np.sum(N[:, None]*S, axis=0)/np.sum(N)
             self.Lambda=1/Spool
@@ -93,12 +99,8 @@ class GMMTiedDiagCov(GMMDiagCov):
             self._logLambda = None
 
         if self.update_pi:
-            N0 = N < self.min_N
-            if np.any(N0):
-                N[N0] = 0
-                mu[N0] = 0
-                S[N0] = 1
             self.pi = N/np.sum(N)
+            self._log_pi = None
             
         self._compute_nat_params()
         
@@ -121,7 +123,8 @@ class GMMTiedDiagCov(GMMDiagCov):
                 mu[k::K] += factor*std_dev
 
         config = self.get_config()
-        return DiagGMMTiedCov(pi=pi, mu=mu, Lambda=self.Lambda, **config)
+        return DiagGMMTiedCov(pi=pi, mu=mu, Lambda=self.Lambda, min_N=self.min_N,
+                              update_Lambda=self.update_Lambda, **config)
         
 
     
-- 
2.43.0


From aa4df29c44c846e36729bc3627adbe14580abfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 025/125] fix: PLDA: centring of statistics, expected
 statistics and M-steps, many-to-many scores, sample weights, diagonal
 precisions, sampling

---
 hyperion/pdfs/plda/frplda.py    |  5 +++-
 hyperion/pdfs/plda/plda.py      | 50 ++++++++++++++++++++-------------
 hyperion/pdfs/plda/plda_base.py | 22 +++++++++------
 hyperion/pdfs/plda/splda.py     | 20 +++++++------
 4 files changed, 58 insertions(+), 39 deletions(-)

diff --git a/hyperion/pdfs/plda/frplda.py b/hyperion/pdfs/plda/frplda.py
index 49aa4c7..7035176 100644
--- a/hyperion/pdfs/plda/frplda.py
+++ b/hyperion/pdfs/plda/frplda.py
@@ -68,6 +68,8 @@ class FRPLDA(PLDABase):
         mu = np.mean(y, axis=0)
         iB = np.dot(y.T, y)/M - np.outer(mu, mu)
         iW = C/N_tot
+        if not self.fullcov_W:
+            iW = np.diag(np.diag(iW))
 
         B = invert_pdmat(iB, return_inv=True)[-1]
         W = invert_pdmat(iW, return_inv=True)[-1]
@@ -147,6 +149,7 @@ class FRPLDA(PLDABase):
                 
             if return_acc:
                 Py += M_i*iL
+                Ry += N_i*M_i*iL
 
         if not return_tuple:
             return y
@@ -221,7 +224,7 @@ class FRPLDA(PLDABase):
                 iB = Py/M - np.outer(self.mu, self.mu)
             else:
                 muybar = np.outer(self.mu, ybar)
-                iB = Py/M - muybar - muybar + np.outer(self.mu, self.mu)
+                iB = Py/M - muybar - muybar.T + np.outer(self.mu, self.mu)
             self.B = invert_pdmat(iB, return_inv=True)[-1]
         if self.update_W:
             iW = (S - Cy - Cy.T + Ry)/N
diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index dbda90f..72dc275 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -118,7 +118,7 @@ class PLDA(PLDABase):
         assert self.is_init
         
         N, F, S = D
-        Fc = F - self.mu
+        Fc = F - np.outer(N, self.mu)
         
         M=F.shape[0]
         y_dim = self.y_dim
@@ -211,7 +211,7 @@ class PLDA(PLDABase):
         Cy = np.dot(F.T, y)
         
         #Cz
-        A = np.dot(S - np.dot(F_tot.T,self.mu), self._DU.T)-np.dot(Cy, self._J)
+        A = np.dot(S - np.outer(F_tot, self.mu), self._DU.T)-np.dot(Cy, self._J)
         Cz = self._mult_iLz(A)
         
         #Ry Ry1, Py
@@ -298,25 +298,25 @@ class PLDA(PLDABase):
             b = np.hstack((Rz1, N))
             Rytilde = np.vstack((a,b))
             iRytilde_mult = invert_pdmat(Rytilde, right_inv=False)[0]
-            a = Cz.T - np.outer(Ryz, self.V)
-            b = F[:,None] - np.outer(Ry1, self.V)
+            a = Cz.T - np.dot(Ryz.T, self.V)
+            b = F - np.dot(Ry1, self.V)
             C = np.vstack((a,b))
             Vtilde = iRytilde_mult(C)
             self.U = Vtilde[:-1]
             self.mu = Vtilde[-1]
         
 
-        if not self.update_mu and self.update_V and not self.update_U:
+        if self.update_mu and self.update_V and not self.update_U:
             a = np.hstack((Ry, Ry1[:,None]))
             b = np.hstack((Ry1, N))
             Rytilde = np.vstack((a,b))
             iRytilde_mult = invert_pdmat(Rytilde, right_inv=False)[0]
             a = Cy.T - np.dot(Ryz, self.U)
-            b = F[:,None] - np.dot(Rz1, self.U)
+            b = F - np.dot(Rz1, self.U)
             C = np.vstack((a,b))
             Vtilde = iRytilde_mult(C)
             self.V = Vtilde[:-1]
-            self.U = Vtilde[-1]
+            self.mu = Vtilde[-1]
 
         a = np.hstack((Ry, Ryz, Ry1[:, None]))
         b = np.hstack((Ryz.T, Rz, Rz1[:, None]))
@@ -345,13 +345,20 @@ class PLDA(PLDABase):
             
     def MstepMD(self, stats):
         N, M, F, S, _, y_acc, Ry1, Ry, Cy, Py, Rz1, Rz, Ryz, Cz = stats
+        # the parameters that are not updated constrain the prior of (y, z)
+        if not self.update_mu:
+            y_acc, Ry1, Rz1 = 0*y_acc, 0*Ry1, 0*Rz1
+
         mu_y = y_acc/M
         Cov_y = Py/M - np.outer(mu_y, mu_y)
         chol_Cov_y = sla.cholesky(Cov_y, lower=False, overwrite_a=True)
 
-        R = Ry - np.outer(Ry1,Ry1)/N
-        mult_iR = invert_pdmat(R, right_inv=True)[0]
-        H = mult_iR(Ryz.T-np.outer(Rz1, Ry1)/N)
+        if self.update_V:
+            R = Ry - np.outer(Ry1,Ry1)/N
+            mult_iR = invert_pdmat(R, right_inv=True)[0]
+            H = mult_iR(Ryz.T-np.outer(Rz1, Ry1)/N)
+        else:
+            H = np.zeros_like(Ryz.T)
         mu_z = (Rz1 - np.dot(Ry1, H.T))/N
         RzyH = np.dot(Ryz.T, H.T)
         Cov_z = ((Rz - RzyH - RzyH.T + np.dot(np.dot(H,Ry), H.T))/N -
@@ -373,7 +380,8 @@ class PLDA(PLDABase):
 
         
     def get_config(self):
-        config = {'update_D': self.update_D,
+        config = {'z_dim': self.z_dim,
+                  'update_D': self.update_D,
                   'update_U': self.update_U,
                   'update_V': self.update_V,
                   'floor_iD': self.floor_iD}
@@ -402,7 +410,7 @@ class PLDA(PLDABase):
     
     def log_probx_g_y(self, x, y):
         iW = np.diag(1/self.D) + np.dot(self.U.T, self.U)
-        mult_W, _, logiW = invert_pdmat(iW, return_logdet=True)
+        mult_W, _, logiW = invert_pdmat(iW, right_inv=True, return_logdet=True)
         delta = x - self.mu - np.dot(y, self.V)
         logp = - x.shape[-1]*np.log(2*np.pi) - logiW - np.sum(
             mult_W(delta)*delta, axis=-1)
@@ -470,18 +478,18 @@ class PLDA(PLDABase):
         N1, F1, _ = D1
         N2, F2, _ = D2
 
-        WV = self._WV
+        WV = self._VW
         VV = self._VWV
         I = np.eye(self.y_dim, dtype=float_cpu())
 
-        F1 -= N1[:, None]*self.mu
-        F2 -= N2[:, None]*self.mu
+        F1 = F1 - N1[:, None]*self.mu
+        F2 = F2 - N2[:, None]*self.mu
 
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
             for N2_j in np.unique(N2):
-                i = np.where(N1 == N1_i)
-                j = np.where(N2 == N2_j)
+                i = np.where(N1 == N1_i)[0]
+                j = np.where(N2 == N2_j)[0]
 
                 L1 = I + N1_i*VV
                 mult_icholL1, logcholL1 = invert_trimat(
@@ -519,11 +527,11 @@ class PLDA(PLDABase):
                 scores_ij = 2*np.dot(gamma_tar_1, gamma_tar_2.T)
                 scores_ij += (Qtar_1 - Qnon_1 + Qtar_2 - Qnon_2)
                 scores_ij += (logL1 + logL2 - logLtar)
-                scores[i,j] = scores_ij
+                scores[np.ix_(i,j)] = scores_ij
                 
         scores *= 0.5
+        return scores
 
-                
 
 
     def sample(self, num_classes, num_samples_per_class, rng=None, seed=1024):
@@ -533,7 +541,7 @@ class PLDA(PLDABase):
         x_dim = self.mu.shape[0]
 
         z1 = rng.normal(size=(num_classes*num_samples_per_class, x_dim)).astype(dtype=float_cpu(), copy=False)
-        z1 /= self.D
+        z1 /= np.sqrt(self.D)
         
         z2 = rng.normal(size=(num_classes*num_samples_per_class, self.z_dim)).astype(dtype=float_cpu(), copy=False)
         z2 = np.dot(z2, self.U)
@@ -572,6 +580,8 @@ class PLDA(PLDABase):
             iD[iD<self.floor_iD] = self.floor_iD
             self.D = 1/iD
 
+        self.compute_aux()
+
         # if w_W > 0:
         #     Sw0 = np.dot(self.U.T, self.U)
         #     Sw = np.dot(U.T, U)
diff --git a/hyperion/pdfs/plda/plda_base.py b/hyperion/pdfs/plda/plda_base.py
index 83a6449..7c15a0b 100644
--- a/hyperion/pdfs/plda/plda_base.py
+++ b/hyperion/pdfs/plda/plda_base.py
@@ -48,17 +48,19 @@ class PLDABase(PDF):
         
         assert(not(class_ids is  None and ptheta is None))
         if class_ids is None:
-            D = self.compute_stats_soft(x, ptheta)
+            D = self.compute_stats_soft(x, ptheta, sample_weight)
         else:
-            D = self.compute_stats_hard(x, class_ids)
+            D = self.compute_stats_hard(x, class_ids, sample_weight)
 
             
         if x_val is not None:
             assert(not(class_ids_val is  None and ptheta_val is None))        
             if class_ids_val is None:
-                D_val = self.compute_stats_soft(x_val, ptheta_val)
+                D_val = self.compute_stats_soft(
+                    x_val, ptheta_val, sample_weight_val)
             else:
-                D_val = self.compute_stats_hard(x_val, class_ids_val)
+                D_val = self.compute_stats_hard(
+                    x_val, class_ids_val, sample_weight_val)
 
 
         if not self.is_init:
@@ -125,17 +127,19 @@ class PLDABase(PDF):
         
         assert  not(class_ids is  None and ptheta is None)
         if class_ids is None:
-            D = self.compute_stats_soft(x, ptheta)
+            D = self.compute_stats_soft(x, ptheta, sample_weight)
         else:
-            D = self.compute_stats_hard(x, class_ids)
+            D = self.compute_stats_hard(x, class_ids, sample_weight)
 
             
         if x_val is not None:
             assert not(class_ids_val is  None and ptheta_val is None)
             if class_ids_val is None:
-                D_val = self.compute_stats_soft(x_val, ptheta_val)
+                D_val = self.compute_stats_soft(
+                    x_val, ptheta_val, sample_weight_val)
             else:
-                D_val = self.compute_stats_hard(x_val, class_ids_val)
+                D_val = self.compute_stats_hard(
+                    x_val, class_ids_val, sample_weight_val)
 
                 
         elbo = np.zeros((epochs,), dtype=float_cpu())
@@ -224,7 +228,7 @@ class PLDABase(PDF):
         if sample_weight is not None:
             p_theta = sample_weight[:, None]*p_theta
         if scal_factor is not None:
-            p_theta *= scal_factor
+            p_theta = scal_factor*p_theta
         N = np.sum(p_theta, axis=0)
         F = np.dot(p_theta.T, x)
         wx = np.sum(p_theta, axis=1, keepdims=True)*x
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index c37f3de..913d95f 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -68,7 +68,7 @@ class SPLDA(PLDABase):
         if self.fullcov_W:
             W = invert_pdmat(C, return_inv=True)[-1]
         else:
-            W = 1/np.diag(C)
+            W = np.diag(1/np.diag(C))
         
         self.mu = mu
         self.V = V
@@ -78,7 +78,7 @@ class SPLDA(PLDABase):
     def compute_py_g_x(self, D, return_cov=False, return_logpy_0=False,
                        return_acc=False):
         N, F, S = D
-        Fc = F - self.mu
+        Fc = F - np.outer(N, self.mu)
         
         M = F.shape[0]
         y_dim = self.y_dim
@@ -241,7 +241,9 @@ class SPLDA(PLDABase):
             self.mu += np.dot(mu_y, self.V)
 
         if self.update_V:
-            Cov_y = Py/M - np.outer(mu_y, mu_y)
+            Cov_y = Py/M
+            if self.update_mu:
+                Cov_y -= np.outer(mu_y, mu_y)
             chol_Cov_y = sla.cholesky(Cov_y, lower=False, overwrite_a=True)
             self.V = np.dot(chol_Cov_y, self.V)
 
@@ -328,14 +330,14 @@ class SPLDA(PLDABase):
         VV = np.dot(self.V, WV)
         I = np.eye(self.y_dim, dtype=float_cpu())
 
-        F1 -= N1[:, None]*self.mu
-        F2 -= N2[:, None]*self.mu
+        F1 = F1 - N1[:, None]*self.mu
+        F2 = F2 - N2[:, None]*self.mu
 
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
             for N2_j in np.unique(N2):
-                i = np.where(N1 == N1_i)
-                j = np.where(N2 == N2_j)
+                i = np.where(N1 == N1_i)[0]
+                j = np.where(N2 == N2_j)[0]
 
                 L1 = I + N1_i*VV
                 mult_icholL1, logcholL1 = invert_trimat(
@@ -373,11 +375,11 @@ class SPLDA(PLDABase):
                 scores_ij = 2*np.dot(gamma_tar_1, gamma_tar_2.T)
                 scores_ij += (Qtar_1 - Qnon_1 + Qtar_2 - Qnon_2)
                 scores_ij += (logL1 + logL2 - logLtar)
-                scores[i,j] = scores_ij
+                scores[np.ix_(i,j)] = scores_ij
                 
         scores *= 0.5
+        return scores
 
-                
 
 
     def sample(self, num_classes, num_samples_per_class, rng=None, seed=1024):
-- 
2.43.0


From b8a1e99e00b2e0510d74b9dd29a16de5aae6dd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 026/125] fix: classifiers: predictive density, MAP without
 data of a class, uncertainty propagation, priors, bias scaling and posteriors

---
 .../classifiers/binary_logistic_regression.py |  6 ++--
 hyperion/classifiers/linear_gbe.py            |  4 ++-
 hyperion/classifiers/linear_gbe_up.py         | 12 ++++---
 hyperion/classifiers/linear_svmc.py           |  5 +--
 hyperion/classifiers/logistic_regression.py   | 33 ++++++++++++-------
 hyperion/classifiers/q_scoring_homo_gbe.py    |  2 +-
 6 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/hyperion/classifiers/binary_logistic_regression.py b/hyperion/classifiers/binary_logistic_regression.py
index 2eb6045..da0492c 100644
--- a/hyperion/classifiers/binary_logistic_regression.py
+++ b/hyperion/classifiers/binary_logistic_regression.py
@@ -21,11 +21,11 @@ class BinaryLogisticRegression(LogisticRegression):
         
         priors = {0:1-prior, 1:prior}
         super(BinaryLogisticRegression, self).__init__(
-            A=A, b=b, penalty=penalty, labmda_reg=lambda_reg,
+            A=A, b=b, penalty=penalty, lambda_reg=lambda_reg,
             use_bias=use_bias, bias_scaling=bias_scaling, priors=priors,
             random_state=random_state, solver=solver, max_iter=max_iter,
             dual=dual, tol=tol, verbose=verbose, warm_start=warm_start,
-            multi_class='ovr', lr_seed=1024, **kwargs)
+            multi_class='ovr', lr_seed=lr_seed, **kwargs)
 
 
 
@@ -50,7 +50,7 @@ class BinaryLogisticRegression(LogisticRegression):
         y = np.dot(x, self.A).ravel() + self.b
 
         if eval_type == 'log-post':
-            y = - np.log(1+np.exp(-(y+np.log(self.prior/(1-self.prior)))))
+            y = - np.logaddexp(0, -(y+np.log(self.prior/(1-self.prior))))
         if eval_type == 'post':
             y = 1/(1+np.exp(-(y+np.log(self.prior/(1-self.prior)))))
         
diff --git a/hyperion/classifiers/linear_gbe.py b/hyperion/classifiers/linear_gbe.py
index cfd642a..7770e9c 100644
--- a/hyperion/classifiers/linear_gbe.py
+++ b/hyperion/classifiers/linear_gbe.py
@@ -115,7 +115,7 @@ class LinearGBE(HypModel):
 
         # 0.5*log|L| = 0.5*log|K| + 0.5*d*log(c r) 
         logK = logdet_pdmat(K)
-        logL_div_2 = 0.5*logK + 0.5*self.x_dim*r 
+        logL_div_2 = 0.5*logK + 0.5*self.x_dim*np.log(c*r)
         
         # delta2_0 = (x-mu)^T W (x-mu)
         delta2_0 = np.sum(np.dot(x, self.W)*x, axis=1, keepdims=True) - 2*(
@@ -184,6 +184,8 @@ class LinearGBE(HypModel):
         if self.update_mu:
             xbar = F/N[:,None]
             if do_map:
+                # classes without data keep the prior mean
+                xbar[N==0] = self.prior.mu[N==0]
                 alpha_mu = (N/(N+self.prior.beta))[:, None]
                 self.mu = (1-alpha_mu)*self.prior.mu + alpha_mu*xbar
                 self.beta = N+self.prior.beta
diff --git a/hyperion/classifiers/linear_gbe_up.py b/hyperion/classifiers/linear_gbe_up.py
index 5b5d005..b105eb8 100644
--- a/hyperion/classifiers/linear_gbe_up.py
+++ b/hyperion/classifiers/linear_gbe_up.py
@@ -42,8 +42,8 @@ class LinearGBEUP(LinearGBE):
     
 
     def eval_linear(self, x):
-        x_m = x[:,:x.shape[-1]/2]
-        x_s = x[:,x.shape[-1]/2:]
+        x_m = x[:,:x.shape[-1]//2]
+        x_s = x[:,x.shape[-1]//2:]
         try:
             S = invert_pdmat(self.W, return_inv=True)[-1]
         except:
@@ -103,8 +103,8 @@ class LinearGBEUP(LinearGBE):
 
     
     def fit(self, x, class_ids=None, p_theta=None, sample_weight=None):
-        x_m = x[:,:x.shape[-1]/2]
-        x_s = x[:,x.shape[-1]/2:]
+        x_m = x[:,:x.shape[-1]//2]
+        x_s = x[:,x.shape[-1]//2:]
         x = x_m
         assert class_ids is not None or p_theta is not None
 
@@ -132,6 +132,8 @@ class LinearGBEUP(LinearGBE):
         if self.update_mu:
             xbar = F/N[:,None]
             if do_map:
+                # classes without data keep the prior mean
+                xbar[N==0] = self.prior.mu[N==0]
                 alpha_mu = (N/(N+self.prior.beta))[:, None]
                 self.mu = (1-alpha_mu)*self.prior.mu + alpha_mu*xbar
                 self.beta = N+self.prior.beta
@@ -173,7 +175,7 @@ class LinearGBEUP(LinearGBE):
                 S /= (nu0+np.sum(N))
 
             x_s_mean=np.diag(np.mean(x_s, axis=0))
-            S = fullcov_varfloor(S, np.sqrt(x_s_mean)*1.1)
+            S = fullcov_varfloor(S, np.sqrt(x_s_mean)*1.1, F_is_chol=True)
             S -= x_s_mean
             
             self.W = invert_pdmat(S, return_inv=True)[-1]
diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index 06de3d4..300b91a 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -60,7 +60,8 @@ class LinearSVMC(HypModel):
 
     @property
     def b(self):
-        return self.svm.intercept_*self.bias_scaling
+        # the intercept of sklearn already includes the bias scaling
+        return self.svm.intercept_
 
 
     def get_config(self):
@@ -77,7 +78,7 @@ class LinearSVMC(HypModel):
         s = np.dot(x, self.A) + self.b
         
         if eval_type == 'bin-logpost':
-            return np.log(1+np.exp(-s))
+            return -np.logaddexp(0, -s)
         if eval_type == 'bin-post':
             return 1/(1+np.exp(-s))
         if eval_type == 'cat-post':
diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 3283492..ba31cdb 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -84,6 +84,10 @@ class LogisticRegression(HypModel):
 
         self.use_bias = use_bias
         self.bias_scaling = bias_scaling
+        if isinstance(priors, dict):
+            priors = [priors[i] for i in xrange(len(priors))]
+        if priors is not None:
+            priors = np.asarray(priors, dtype=float_cpu())
         self.priors = priors
         self.lambda_reg = lambda_reg
         self.multi_class = multi_class
@@ -99,7 +103,7 @@ class LogisticRegression(HypModel):
             self.lr.coef_ = A.T
 
         if b is not None:
-            self.lr.intercept_ = b/self.bias_scaling
+            self.lr.intercept_ = b
 
 
     @property
@@ -108,18 +112,25 @@ class LogisticRegression(HypModel):
 
     @property
     def b(self):
-        return self.lr.intercept_*self.bias_scaling
+        # the intercept of sklearn already includes the bias scaling
+        return self.lr.intercept_
 
 
     def get_config(self):
         config = { 'use_bias': self.use_bias,
                    'bias_scaling': self.bias_scaling,
-                   'priors': self.priors }
+                   'priors': None if self.priors is None else self.priors.tolist() }
         base_config = super(LogisticRegression, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
 
     
+    def _log_priors(self, y):
+        if self.priors is None:
+            return np.log(1/y.shape[1])
+        return np.log(self.priors)
+
+    
     def predict(self, x, eval_type='logit'):
         if x.ndim == 1:
             x = x[:, None]
@@ -127,9 +138,9 @@ class LogisticRegression(HypModel):
         y = np.dot(x, self.A) + self.b
 
         if eval_type == 'log-post':
-            y = np.log(softmax(y + np.log(self.priors), axis=1)+1e-10)
+            y = np.log(softmax(y + self._log_priors(y), axis=1)+1e-10)
         if eval_type == 'post':
-            y = softmax(y + np.log(self.priors))
+            y = softmax(y + self._log_priors(y))
         
         return y
         
@@ -145,24 +156,24 @@ class LogisticRegression(HypModel):
         if self.priors is None:
             priors = 1/num_classes * np.ones((num_classes,), dtype=float_cpu())
         else:
-            priors = [self.priors[i] for i in xrange(num_classes)]
+            priors = self.priors
         class_weights = priors/counts
         
         if sample_weight is None:
             sample_weight = class_weights[class_ids]
         else:
-            sample_weight *= class_weights[class_ids]
+            sample_weight = sample_weight*class_weights[class_ids]
             
         self.lr.fit(x, class_ids, sample_weight=sample_weight)
 
         if self.multi_class == 'ovr':
             #adjust bias to produce log-llk ratios
-            if len(self.lr.intercept_) == 1:
-                priors = self.priors[1]
-            self.lr.intercept_ -= np.log(priors/(1-priors))/self.bias_scaling
+            if np.size(self.lr.intercept_) == 1:
+                priors = priors[1:]
+            self.lr.intercept_ = self.lr.intercept_ - np.log(priors/(1-priors))
         else:
             #adjust bias to produce log-llk
-            self.lr.intercept_ -= np.log(self.priors)/self.bias_scaling
+            self.lr.intercept_ = self.lr.intercept_ - np.log(priors)
 
 
             
diff --git a/hyperion/classifiers/q_scoring_homo_gbe.py b/hyperion/classifiers/q_scoring_homo_gbe.py
index 304127f..dea7e77 100644
--- a/hyperion/classifiers/q_scoring_homo_gbe.py
+++ b/hyperion/classifiers/q_scoring_homo_gbe.py
@@ -64,7 +64,7 @@ class QScoringHomoGBE(HypModel):
             self.prior = QScoringHomoGBE.load(self.prior)
         num_classes = self.prior.mu.shape[0]
         if self.prior_N is not None:
-            self.prior.W = 1 + self.prior_N/np.mean(self.prior.N)*(self.W-1)
+            self.prior.W = 1 + self.prior_N/np.mean(self.prior.N)*(self.prior.W-1)
             self.prior.N = self.prior_N*np.ones((num_classes,), dtype=float_cpu())
 
 
-- 
2.43.0


From 0ebf5aeaf81467470990e8dad8f8f79f583129ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 027/125] fix: loading of Gaussian calibration and import of
 unsupervised calibration

---
 hyperion/calibration/gauss_calibration.py       | 9 ++++++++-
 hyperion/calibration/unsup_gauss_calibration.py | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/hyperion/calibration/gauss_calibration.py b/hyperion/calibration/gauss_calibration.py
index f1d613f..d07a9b2 100644
--- a/hyperion/calibration/gauss_calibration.py
+++ b/hyperion/calibration/gauss_calibration.py
@@ -63,6 +63,12 @@ class GaussCalibration(HypModel):
         return self.a*x+self.b
 
 
+    def get_config(self):
+        config = {'prior': self.prior}
+        base_config = super(GaussCalibration, self).get_config()
+        return dict(list(base_config.items()) + list(config.items()))
+
+
     def save_params(self, f):
         params = {'mu1': self.mu1,
                   'mu2': self.mu2,
@@ -75,6 +81,7 @@ class GaussCalibration(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu1', 'mu2', 'sigma2']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=config['sigma2'], name=config['name'])
+        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=params['sigma2'],
+                   prior=config['prior'], name=config['name'])
 
     
diff --git a/hyperion/calibration/unsup_gauss_calibration.py b/hyperion/calibration/unsup_gauss_calibration.py
index 1c8ccac..7fa14e6 100644
--- a/hyperion/calibration/unsup_gauss_calibration.py
+++ b/hyperion/calibration/unsup_gauss_calibration.py
@@ -9,7 +9,7 @@ from six.moves import xrange
 import sys
 import numpy as np
 
-from ..pdfs.mixtures.diag_gmm_tiedcovs import DiagGMMTiedCovs as GMM
+from ..pdfs.mixtures import DiagGMMTiedCov as GMM
 from .gauss_calibration import GaussCalibration
 
 class UnsupGaussCalibration(GaussCalibration):
-- 
2.43.0


From 0729b3f3d37e7c14d025ca6709bf88bbf491e423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 028/125] fix: flat clusters of all levels in agglomerative
 clustering

---
 hyperion/clustering/ahc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index e0fe037..4d6c644 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -30,6 +30,7 @@ class AHC(HypModel):
         
     def fit(self, x, mask=None):
 
+        self.flat_clusters = None
         if mask is not None:
             x = copy(x)
             x[mask==False] = -1e10
@@ -87,7 +88,7 @@ class AHC(HypModel):
 
     
 
-    def compute_flat_clusters():
+    def compute_flat_clusters(self):
         N = self.Z.shape[0]+1
         flat_clusters = np.zeros((N,N), dtype=int)
         flat_clusters[0] = np.arange(N, dtype=int)
@@ -98,7 +99,7 @@ class AHC(HypModel):
             flat_clusters[i+1][segm_idx] = N + i
 
         for i in xrange(1,N):
-            _, flat_clusters[i] = np.unique(flat_clusters, return_inverse=True)
+            _, flat_clusters[i] = np.unique(flat_clusters[i], return_inverse=True)
         self.flat_clusters = flat_clusters
 
 
-- 
2.43.0


From ffe5de71065b6ab76e727a8013ce0f3bc747b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 029/125] fix: saving models without directory or with missing
 parameters, model loader

---
 hyperion/hyp_model.py    | 6 +++++-
 hyperion/model_loader.py | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/hyperion/hyp_model.py b/hyperion/hyp_model.py
index 3082a3c..36f205f 100644
--- a/hyperion/hyp_model.py
+++ b/hyperion/hyp_model.py
@@ -57,7 +57,7 @@ class HypModel(object):
     @abstractmethod
     def save(self, file_path):
         file_dir = os.path.dirname(file_path)
-        if not(os.path.isdir(file_dir)):
+        if file_dir and not(os.path.isdir(file_dir)):
             os.makedirs(file_dir, exist_ok=True)
         with h5py.File(file_path,'w') as f:
             config=self.to_json()
@@ -124,6 +124,10 @@ class HypModel(object):
         param_dict = {}
         for k in params:
             p_name = prefix + k
+            if p_name not in f:
+                # parameters that are None are not saved
+                param_dict[k] = None
+                continue
             param_dict[k] = np.asarray(f[p_name], dtype=dtypes[k])
         return param_dict
 
diff --git a/hyperion/model_loader.py b/hyperion/model_loader.py
index 165df87..065a821 100644
--- a/hyperion/model_loader.py
+++ b/hyperion/model_loader.py
@@ -29,7 +29,13 @@ class ModelLoader(object):
                    'NAP': NAP,
                    'SbSw': SbSw,
                    'MVN': MVN,
-                   'TransformList', TransformList}
+                   'NDA': NDA,
+                   'Gaussianizer': Gaussianizer,
+                   'CentWhitenUP': CentWhitenUP,
+                   'LNormUP': LNormUP,
+                   'PLDA': PLDA,
+                   'DiagGMMTiedCov': DiagGMMTiedCov,
+                   'TransformList': TransformList}
         return obj_dict
         
     
-- 
2.43.0


From 7128e66e0a8bb422c087a83ac779e56b5ac5ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 030/125] fix: transforms: loading of options, NAP and
 between/within class matrices, diagonal whitening, inputs left unchanged

---
 hyperion/transforms/cent_whiten.py    |  6 ++++--
 hyperion/transforms/cent_whiten_up.py |  5 +++--
 hyperion/transforms/gaussianizer.py   |  2 +-
 hyperion/transforms/lda.py            |  4 +++-
 hyperion/transforms/nap.py            |  8 ++++----
 hyperion/transforms/pca.py            |  4 +++-
 hyperion/transforms/sb_sw.py          | 19 +++++++++----------
 hyperion/transforms/transform_list.py |  5 ++++-
 8 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 5241cb0..5985827 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -32,7 +32,7 @@ class CentWhiten(HypModel):
             x = x - self.mu
         if self.T is not None:
             if self.T.ndim == 1:
-                x = x*T
+                x = x*self.T
             else:
                 x = np.dot(x, self.T)
         return x
@@ -89,7 +89,9 @@ class CentWhiten(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'],
+                   update_mu=config['update_mu'], update_T=config['update_t'],
+                   name=config['name'])
 
     
     
diff --git a/hyperion/transforms/cent_whiten_up.py b/hyperion/transforms/cent_whiten_up.py
index 855385b..4bc201e 100644
--- a/hyperion/transforms/cent_whiten_up.py
+++ b/hyperion/transforms/cent_whiten_up.py
@@ -30,8 +30,9 @@ class CentWhitenUP(CentWhiten):
         m_x = x[:,:x_dim]
         s2_x = x[:,x_dim:]
         m_x = super(CentWhitenUP, self).predict(m_x)
-        for i in xrange(x.shape[0]):
-            s2_x[i] = np.diag(np.dot(self.T.T * s2_x[i], self.T))
+        if self.T is not None:
+            T2 = self.T**2
+            s2_x = s2_x*T2 if T2.ndim == 1 else np.dot(s2_x, T2)
         return np.hstack((m_x, s2_x))
 
 
diff --git a/hyperion/transforms/gaussianizer.py b/hyperion/transforms/gaussianizer.py
index 3850d86..58ed0c3 100644
--- a/hyperion/transforms/gaussianizer.py
+++ b/hyperion/transforms/gaussianizer.py
@@ -50,7 +50,7 @@ class Gaussianizer(HypModel):
 
         x = np.zeros((1, x.shape[-1]), dtype=float_cpu())
 
-        if r.shape[0] > self.max_vectors:
+        if self.max_vectors is not None and r.shape[0] > self.max_vectors:
             index = np.round(np.linspace(0, r.shape[0]-1, self.max_vectors, dtype=float)).astype(int)
             r = r[index, :]
 
diff --git a/hyperion/transforms/lda.py b/hyperion/transforms/lda.py
index e7bb778..5a0d74c 100644
--- a/hyperion/transforms/lda.py
+++ b/hyperion/transforms/lda.py
@@ -86,7 +86,9 @@ class LDA(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'], lda_dim=config['lda_dim'],
+                   update_mu=config['update_mu'], update_T=config['update_t'],
+                   name=config['name'])
 
         
     # @classmethod
diff --git a/hyperion/transforms/nap.py b/hyperion/transforms/nap.py
index bbd54bf..67ac2a7 100644
--- a/hyperion/transforms/nap.py
+++ b/hyperion/transforms/nap.py
@@ -27,16 +27,16 @@ class NAP(HypModel):
 
     
     def fit(self, x, U_dim, class_ids):
-        x_hat = np.zeros_like(x)
-        u_ids = np.uniqe(class_ids)
+        xx = np.zeros(x.shape)
+        u_ids = np.unique(class_ids)
         M = np.sqrt(len(u_ids))
         for i in u_ids:
-            idx = np.nonzero(i==class_ids)
+            idx = np.nonzero(i==class_ids)[0]
             N = np.sqrt(len(idx))
             mu_i = np.mean(x[idx,:], axis=0)
             xx[idx, :] = (x[idx, :] - mu_i)/N
         xx /= M
-        _, s, Vt = np.svd(xx, full_matrices=False, overwrite_a=True)
+        _, s, Vt = la.svd(xx, full_matrices=False)
         idx = (np.argsort(s)[::-1])[:U_dim]
         self.U = Vt[idx, :]
 
diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index bd93077..0e309cf 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -85,7 +85,9 @@ class PCA(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], pca_dim=config['pca_dim'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'],
+                   update_mu=config['update_mu'], update_T=config['update_t'],
+                   pca_dim=config['pca_dim'], name=config['name'])
     
 
     
diff --git a/hyperion/transforms/sb_sw.py b/hyperion/transforms/sb_sw.py
index 7507fcd..efd90a8 100644
--- a/hyperion/transforms/sb_sw.py
+++ b/hyperion/transforms/sb_sw.py
@@ -21,9 +21,9 @@ class SbSw(HypModel):
     """
     def __init__(self, Sb=None, Sw=None, mu=None, num_classes=0, **kwargs):
         super(SbSw, self).__init__(**kwargs)
-        self.Sb = None
-        self.Sw = None
-        self.mu = None
+        self.Sb = Sb
+        self.Sw = Sw
+        self.mu = mu
         self.num_classes = num_classes
 
         
@@ -82,13 +82,12 @@ class SbSw(HypModel):
 
         
     @classmethod
-    def load(cls, file_path):
-        with h5py.File(file_path,'r') as f:
-            config = self.load_config_from_json(f['config'])
-            param_list = ['mu', 'Sb', 'Sw', 'num_classes']
-            params = cls._load_params_to_dict(f, config['name'], param_list)
-            kwargs = dict(list(config.items()) + list(params.items()))
-            return cls(**kwargs)
+    def load_params(cls, f, config):
+        param_list = ['mu', 'Sb', 'Sw', 'num_classes']
+        params = cls._load_params_to_dict(f, config['name'], param_list)
+        params['num_classes'] = int(params['num_classes'])
+        kwargs = dict(list(config.items()) + list(params.items()))
+        return cls(**kwargs)
         
         
 
diff --git a/hyperion/transforms/transform_list.py b/hyperion/transforms/transform_list.py
index 8d4c0b0..4f9a080 100644
--- a/hyperion/transforms/transform_list.py
+++ b/hyperion/transforms/transform_list.py
@@ -82,5 +82,8 @@ class TransformList(HypModel):
             class_t = globals()[config_t['class_name']]
             t = class_t.load_params(f, config_t)
             transforms.append(t)
-        return cls(transforms, name=config['name'])
+        # the names of the saved transforms already include the name of the list
+        transform_list = cls(transforms)
+        transform_list.name = config['name']
+        return transform_list
             
-- 
2.43.0


From 7da4cc4537d7747ad8fe4abfe7ca09d83cf78744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 031/125] fix: command-line arguments of PLDA training

---
 hyperion/helpers/plda_factory.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hyperion/helpers/plda_factory.py b/hyperion/helpers/plda_factory.py
index 2713f77..ff91868 100644
--- a/hyperion/helpers/plda_factory.py
+++ b/hyperion/helpers/plda_factory.py
@@ -65,9 +65,10 @@ class PLDAFactory(object):
         neg_args2 = ('fullcov_W', 'update_mu', 'update_V', 'update_U',
                       'update_B', 'update_W', 'update_D')
 
-        for a,b in zip(ne_args1, neg_args2):
-            d[b] = not d[a]
-            del d[a]
+        for a,b in zip(neg_args1, neg_args2):
+            if a in d:
+                d[b] = not d[a]
+                del d[a]
 
         return d
 
@@ -95,7 +96,7 @@ class PLDAFactory(object):
                             help='num. of eigenchannels')
 
         parser.add_argument(p1+'diag-W', dest=(p2+'diag_W'),
-                            default=False, action='store_false',
+                            default=False, action='store_true',
                             help='use diagonal covariance W')
         parser.add_argument(p1+'no-update-mu', dest=(p2+'no_update_mu'),
                             default=False, action='store_true',
@@ -129,7 +130,7 @@ class PLDAFactory(object):
                             choices=['ml+md', 'ml', 'md'],
                             help=('optimization type'))
 
-        parser.add_argument('--md-epochs', dest='md_epochs', default=None,
+        parser.add_argument(p1+'md-epochs', dest=(p2+'md_epochs'), default=None,
                             type=int, nargs = '+',
                             help=('epochs in which we do MD, if None we do it in all the epochs'))
 
-- 
2.43.0


From d94f4cc5857a6403009730bdb0a0600559ed6bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 032/125] fix: model loader: saved class names of diagonal
 normals and mixtures

---
 hyperion/model_loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperion/model_loader.py b/hyperion/model_loader.py
index 065a821..6bdc81b 100644
--- a/hyperion/model_loader.py
+++ b/hyperion/model_loader.py
@@ -17,8 +17,11 @@ class ModelLoader(object):
     @staticmethod
     def get_object():
         obj_dict={ 'DiagNormal': DiagNormal,
+                   'NormalDiagCov': NormalDiagCov,
                    'Normal': Normal,
                    'DiagGMM': DiagGMM,
+                   'GMMDiagCov': GMMDiagCov,
+                   'GMMTiedDiagCov': GMMTiedDiagCov,
                    'GMM': GMM,
                    'FRPLDA': FRPLDA,
                    'SPLDA': SPLDA,
-- 
2.43.0


From f47e8a403653876d18c260b7edbb723585a91704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:25 +0000
Subject: [PATCH 033/125] fix: full-covariance mixtures and single components
 from Kaldi text models

---
 hyperion/pdfs/mixtures/gmm.py          | 8 ++++++--
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 1086a77..256ab67 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -313,11 +313,11 @@ class GMM(ExpFamilyMixture):
                 elif fields[0]=="<MEANS_INVCOVARS>":
                     for k in xrange(num_comp):
                         line = f.readline()
-                        fields = line.split()
+                        fields = line.replace(']', '').split()
                         if x_dim == 0:
                             x_dim = len(fields)
                             eta1 = np.zeros((num_comp, x_dim), dtype=float_cpu())
-                            eta2 = np.zeros((num_comp, int((x_dim**2+3*x_dim)/2)), dtype=float_cpu())
+                            eta2 = np.zeros((num_comp, int((x_dim**2+x_dim)/2)), dtype=float_cpu())
                         
                         assert(len(fields) == x_dim or len(fields) == x_dim+1)
                         eta1[k] = [ float(v) for v in fields[:x_dim] ]
@@ -328,6 +328,10 @@ class GMM(ExpFamilyMixture):
                         for j in xrange(x_dim):
                             line = f.readline()
                             fields = line.split()
+                            if fields == ['[']:
+                                # kaldi opens a bracket for each matrix
+                                line = f.readline()
+                                fields = line.split()
                             if j < x_dim -1:
                                 assert(len(fields) == j+1)
                             else:
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 8c188e9..1b9c944 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -283,7 +283,7 @@ class GMMDiagCov(ExpFamilyMixture):
                 elif fields[0]=="<MEANS_INVVARS>":
                     for k in xrange(num_comp):
                         line = f.readline()
-                        fields = line.split()
+                        fields = line.replace(']', '').split()
                         if x_dim == 0:
                             x_dim = len(fields)
                             eta1 = np.zeros((num_comp, x_dim), dtype=float_cpu())
-- 
2.43.0


From bcfb7e053364bca73d1ad20521cb5b47008cb7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:18 +0000
Subject: [PATCH 034/125] fix: command-line options: boolean values, prefixed
 names and compression flags

---
 hyperion/io/audio_reader.py         | 11 +++++++++++
 hyperion/io/copy_feats.py           |  7 ++++---
 hyperion/io/data_rw_factory.py      |  4 ++--
 hyperion/transforms/cent_whiten.py  |  7 ++++---
 hyperion/transforms/gaussianizer.py |  2 +-
 hyperion/transforms/pca.py          |  7 ++++---
 6 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index 5831be1..4f26ea7 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -317,6 +317,17 @@ class RandomAccessAudioReader(AudioReader):
 
         return data, fs
 
+
+    @staticmethod
+    def filter_args(prefix=None, **kwargs):
+        if prefix is None:
+            p = ''
+        else:
+            p = prefix + '_'
+        valid_args = ('wav_scale',)
+        return dict((k, kwargs[p+k])
+                    for k in valid_args if p+k in kwargs)
+
     
     @staticmethod
     def add_argparse_args(parser, prefix=None):
diff --git a/hyperion/io/copy_feats.py b/hyperion/io/copy_feats.py
index d76369f..8e045e8 100644
--- a/hyperion/io/copy_feats.py
+++ b/hyperion/io/copy_feats.py
@@ -97,7 +97,8 @@ class CopyFeats(object):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('scp_sep', 'path_prefix', 'part_idx', 'num_parts')
+        valid_args = ('scp_sep', 'path_prefix', 'part_idx', 'num_parts',
+                      'compress', 'compression_method')
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
@@ -130,6 +131,6 @@ class CopyFeats(object):
         parser.add_argument(p1+'num-parts', dest=(p2+'num_parts'), type=int, default=1,
                             help=('splits the list of files in num-parts and process part_idx'))
 
-        parser.add_argument('--compress', dest='compress', default=False, action='store_true')
-        parser.add_argument('--compression-method', dest='compression_method', default='auto',
+        parser.add_argument(p1+'compress', dest=(p2+'compress'), default=False, action='store_true')
+        parser.add_argument(p1+'compression-method', dest=(p2+'compression_method'), default='auto',
                             choices=compression_methods)
diff --git a/hyperion/io/data_rw_factory.py b/hyperion/io/data_rw_factory.py
index 0357249..805f8a2 100644
--- a/hyperion/io/data_rw_factory.py
+++ b/hyperion/io/data_rw_factory.py
@@ -80,8 +80,8 @@ class DataWriterFactory(object):
             
         parser.add_argument(p1+'scp-sep', dest=(p2+'scp_sep'), default=' ',
                             help=('scp file field separator'))
-        parser.add_argument('--compress', dest='compress', default=False, action='store_true')
-        parser.add_argument('--compression-method', dest='compression_method', default='auto',
+        parser.add_argument(p1+'compress', dest=(p2+'compress'), default=False, action='store_true')
+        parser.add_argument(p1+'compression-method', dest=(p2+'compression_method'), default='auto',
                             choices=compression_methods)
 
 
diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 5985827..af16d16 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -13,6 +13,7 @@ import h5py
 import scipy.linalg as la
 
 from ..hyp_model import HypModel
+from ..utils.misc import str2bool
 from ..pdfs import Normal
 
 class CentWhiten(HypModel):
@@ -134,11 +135,11 @@ class CentWhiten(HypModel):
             p2 = prefix + '_'
             
         parser.add_argument(p1+'update-mu', dest=(p2+'update_mu'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates centering parameter'))
 
         parser.add_argument(p1+'update-t', dest=(p2+'update_T'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates whitening parameter'))
 
-        parser.add_argument('--name', dest='name', default='lnorm')
+        parser.add_argument(p1+'name', dest=(p2+'name'), default='lnorm')
diff --git a/hyperion/transforms/gaussianizer.py b/hyperion/transforms/gaussianizer.py
index 58ed0c3..b7e5048 100644
--- a/hyperion/transforms/gaussianizer.py
+++ b/hyperion/transforms/gaussianizer.py
@@ -120,4 +120,4 @@ class Gaussianizer(HypModel):
                             type=int,
                             help=('maximum number of background vectors'))
 
-        parser.add_argument('--name', dest='name', default='gauss')
+        parser.add_argument(p1+'name', dest=(p2+'name'), default='gauss')
diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index 0e309cf..eee5926 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -13,6 +13,7 @@ import h5py
 import scipy.linalg as la
 
 from ..hyp_model import HypModel
+from ..utils.misc import str2bool
 from ..pdfs import Normal
 
 
@@ -129,13 +130,13 @@ class PCA(HypModel):
             p2 = prefix + '_'
             
         parser.add_argument(p1+'update-mu', dest=(p2+'update_mu'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates centering parameter'))
         parser.add_argument(p1+'update-t', dest=(p2+'update_T'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates whitening parameter'))
         parser.add_argument(p1+'pca-dim', dest=(p2+'pca_dim'), default=None,
                             type=int,
                             help=('output dimension of PCA'))
 
-        parser.add_argument('--name', dest='name', default='pca')
+        parser.add_argument(p1+'name', dest=(p2+'name'), default='pca')
-- 
2.43.0


From f091d5a67dc5e6a5cc6a63a076e5c27ce70451e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:24 +0000
Subject: [PATCH 035/125] fix: command-line tools that fail to start: one
 module docstring before the __future__ imports

---
 hyperion/bin/ark2hyp.py                              | 3 +--
 hyperion/bin/arkvad2nist.py                          | 3 +--
 hyperion/bin/compute-gmm-post.py                     | 3 +--
 hyperion/bin/eval-2class-performance.py              | 3 +--
 hyperion/bin/eval-cos-1vs1.py                        | 3 +--
 hyperion/bin/eval-elbo-ubm.py                        | 3 +--
 hyperion/bin/eval-linear-gbe-up.py                   | 3 +--
 hyperion/bin/eval-linear-gbe.py                      | 3 +--
 hyperion/bin/eval-linear-svmc.py                     | 3 +--
 hyperion/bin/eval-logistic-regression.py             | 3 +--
 hyperion/bin/eval-plda-1vs1.py                       | 3 +--
 hyperion/bin/eval-plda-nvs1.py                       | 3 +--
 hyperion/bin/eval-q-scoring-homo-gbe.py              | 3 +--
 hyperion/bin/eval-score-norm.py                      | 3 +--
 hyperion/bin/h5vad2nist.py                           | 3 +--
 hyperion/bin/init-ubm.py                             | 2 --
 hyperion/bin/keras-adapt-cat-seq-embed.py            | 3 +--
 hyperion/bin/keras-adapt-cat-seq-q-embed.py          | 3 +--
 hyperion/bin/keras-eval-pdda-1vs1.py                 | 3 +--
 hyperion/bin/keras-eval-seq-embed.py                 | 3 +--
 hyperion/bin/keras-eval-seq-q-embed.py               | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector.py      | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector2.py     | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector3.py     | 3 +--
 hyperion/bin/keras-extract-seq-embed-deprec.py       | 3 +--
 hyperion/bin/keras-extract-seq-embed.py              | 3 +--
 hyperion/bin/keras-extract-seq-embed2.py             | 3 +--
 hyperion/bin/keras-extract-seq-embed5.py             | 3 +--
 hyperion/bin/keras-extract-seq-q-embed.py            | 3 +--
 hyperion/bin/keras-extract-tcvae-ivector-pt.py       | 3 +--
 hyperion/bin/keras-extract-tcvae-ivector.py          | 3 +--
 hyperion/bin/keras-extract-tied-vae-embed.py         | 3 +--
 hyperion/bin/keras-extract-tvae-ivector.py           | 3 +--
 hyperion/bin/keras-train-cat-seq-embed-att.py        | 3 +--
 hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py | 3 +--
 hyperion/bin/keras-train-cat-seq-meta-embed.py       | 3 +--
 hyperion/bin/keras-train-cat-seq-q-embed.py          | 3 +--
 hyperion/bin/keras-train-cat-tied-dvae.py            | 3 +--
 hyperion/bin/keras-train-cat-tied-sup-vae.py         | 3 +--
 hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py    | 3 +--
 hyperion/bin/keras-train-gmm-tcvae-ivector.py        | 3 +--
 hyperion/bin/keras-train-pdda.py                     | 3 +--
 hyperion/bin/keras-train-sup-tcvae-ivector.py        | 3 +--
 hyperion/bin/keras-train-tcvae-ivector.py            | 3 +--
 hyperion/bin/merge-h5-files.py                       | 3 +--
 hyperion/bin/plot-vector-hist.py                     | 3 +--
 hyperion/bin/plot-vector-tsne.py                     | 3 +--
 hyperion/bin/train-cw-up.py                          | 3 +--
 hyperion/bin/train-cw.py                             | 3 +--
 hyperion/bin/train-gaussianizer.py                   | 3 +--
 hyperion/bin/train-lda.py                            | 3 +--
 hyperion/bin/train-linear-gbe-up.py                  | 3 +--
 hyperion/bin/train-linear-gbe.py                     | 3 +--
 hyperion/bin/train-linear-svmc.py                    | 3 +--
 hyperion/bin/train-logistic-regression.py            | 3 +--
 hyperion/bin/train-mvn.py                            | 3 +--
 hyperion/bin/train-nda.py                            | 3 +--
 hyperion/bin/train-pca.py                            | 3 +--
 hyperion/bin/train-plda.py                           | 3 +--
 hyperion/bin/train-q-scoring-homo-gbe.py             | 3 +--
 60 files changed, 59 insertions(+), 120 deletions(-)

diff --git a/hyperion/bin/ark2hyp.py b/hyperion/bin/ark2hyp.py
index cca7a23..784d0f8 100755
--- a/hyperion/bin/ark2hyp.py
+++ b/hyperion/bin/ark2hyp.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to h5 format (deprecated, use copy-feats.py)
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index 9a09582..2186efd 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to NIST OpenSAT
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index 5a16bf5..1720b37 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Computes GMM posteriors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-2class-performance.py b/hyperion/bin/eval-2class-performance.py
index f47c805..aea9ef6 100755
--- a/hyperion/bin/eval-2class-performance.py
+++ b/hyperion/bin/eval-2class-performance.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals EER, DCF, DET
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-cos-1vs1.py b/hyperion/bin/eval-cos-1vs1.py
index c8a0217..36f0e76 100755
--- a/hyperion/bin/eval-cos-1vs1.py
+++ b/hyperion/bin/eval-cos-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals cosine scoring
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-elbo-ubm.py b/hyperion/bin/eval-elbo-ubm.py
index 9a4e960..d5e7bc7 100755
--- a/hyperion/bin/eval-elbo-ubm.py
+++ b/hyperion/bin/eval-elbo-ubm.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evaluate the likelihood of the ubm on some data
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-gbe-up.py b/hyperion/bin/eval-linear-gbe-up.py
index 3aeec95..85a401a 100755
--- a/hyperion/bin/eval-linear-gbe-up.py
+++ b/hyperion/bin/eval-linear-gbe-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals linear GBE with uncertainty propagation.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-gbe.py b/hyperion/bin/eval-linear-gbe.py
index 7fdcd7e..9ff4413 100755
--- a/hyperion/bin/eval-linear-gbe.py
+++ b/hyperion/bin/eval-linear-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals linear GBE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-svmc.py b/hyperion/bin/eval-linear-svmc.py
index a13a08f..7d4895e 100755
--- a/hyperion/bin/eval-linear-svmc.py
+++ b/hyperion/bin/eval-linear-svmc.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals SVM
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-logistic-regression.py b/hyperion/bin/eval-logistic-regression.py
index 28cb9a0..635ae85 100755
--- a/hyperion/bin/eval-logistic-regression.py
+++ b/hyperion/bin/eval-logistic-regression.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals logistic regression
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-plda-1vs1.py b/hyperion/bin/eval-plda-1vs1.py
index 35380da..4ead233 100755
--- a/hyperion/bin/eval-plda-1vs1.py
+++ b/hyperion/bin/eval-plda-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PDDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-plda-nvs1.py b/hyperion/bin/eval-plda-nvs1.py
index f12c13d..5da9200 100755
--- a/hyperion/bin/eval-plda-nvs1.py
+++ b/hyperion/bin/eval-plda-nvs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PLDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-q-scoring-homo-gbe.py b/hyperion/bin/eval-q-scoring-homo-gbe.py
index de1b70c..5d4b2ab 100755
--- a/hyperion/bin/eval-q-scoring-homo-gbe.py
+++ b/hyperion/bin/eval-q-scoring-homo-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals Q-scoring back-end
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index 52d0076..c54ec4f 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Score Normalization
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/h5vad2nist.py b/hyperion/bin/h5vad2nist.py
index 347fbff..f0e51cf 100755
--- a/hyperion/bin/h5vad2nist.py
+++ b/hyperion/bin/h5vad2nist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to NIST OpenSAT
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/init-ubm.py b/hyperion/bin/init-ubm.py
index bbcf4be..5556315 100755
--- a/hyperion/bin/init-ubm.py
+++ b/hyperion/bin/init-ubm.py
@@ -2,9 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
 
-"""
 Initialize UBM
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-adapt-cat-seq-embed.py b/hyperion/bin/keras-adapt-cat-seq-embed.py
index 6731b7c..89fb143 100755
--- a/hyperion/bin/keras-adapt-cat-seq-embed.py
+++ b/hyperion/bin/keras-adapt-cat-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Adapts embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-adapt-cat-seq-q-embed.py b/hyperion/bin/keras-adapt-cat-seq-q-embed.py
index 80a32b8..1c061b5 100755
--- a/hyperion/bin/keras-adapt-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-adapt-cat-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Adapts q-embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-pdda-1vs1.py b/hyperion/bin/keras-eval-pdda-1vs1.py
index e7d0bc9..6246bce 100755
--- a/hyperion/bin/keras-eval-pdda-1vs1.py
+++ b/hyperion/bin/keras-eval-pdda-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PDDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-seq-embed.py b/hyperion/bin/keras-eval-seq-embed.py
index 6e2091e..142e813 100755
--- a/hyperion/bin/keras-eval-seq-embed.py
+++ b/hyperion/bin/keras-eval-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals sequence embeddings net.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-seq-q-embed.py b/hyperion/bin/keras-eval-seq-q-embed.py
index 4db30a0..52656ef 100755
--- a/hyperion/bin/keras-eval-seq-q-embed.py
+++ b/hyperion/bin/keras-eval-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals sequence embeddings net.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
index e88b294..f8711ff 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
index 199d415..9ddc02b 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
index 4657c25..74decb5 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed-deprec.py b/hyperion/bin/keras-extract-seq-embed-deprec.py
index 606f419..08bb493 100755
--- a/hyperion/bin/keras-extract-seq-embed-deprec.py
+++ b/hyperion/bin/keras-extract-seq-embed-deprec.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed.py b/hyperion/bin/keras-extract-seq-embed.py
index 73300da..3ecce0f 100755
--- a/hyperion/bin/keras-extract-seq-embed.py
+++ b/hyperion/bin/keras-extract-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts x-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed2.py b/hyperion/bin/keras-extract-seq-embed2.py
index 0e7ffef..3b57040 100755
--- a/hyperion/bin/keras-extract-seq-embed2.py
+++ b/hyperion/bin/keras-extract-seq-embed2.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed5.py b/hyperion/bin/keras-extract-seq-embed5.py
index dcc7320..626bab2 100755
--- a/hyperion/bin/keras-extract-seq-embed5.py
+++ b/hyperion/bin/keras-extract-seq-embed5.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-q-embed.py b/hyperion/bin/keras-extract-seq-q-embed.py
index f8d7a08..5e0a2a6 100755
--- a/hyperion/bin/keras-extract-seq-q-embed.py
+++ b/hyperion/bin/keras-extract-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence Q embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tcvae-ivector-pt.py b/hyperion/bin/keras-extract-tcvae-ivector-pt.py
index 441007f..674134d 100755
--- a/hyperion/bin/keras-extract-tcvae-ivector-pt.py
+++ b/hyperion/bin/keras-extract-tcvae-ivector-pt.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tcvae-ivector.py b/hyperion/bin/keras-extract-tcvae-ivector.py
index 1d54b49..3167f93 100755
--- a/hyperion/bin/keras-extract-tcvae-ivector.py
+++ b/hyperion/bin/keras-extract-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tied-vae-embed.py b/hyperion/bin/keras-extract-tied-vae-embed.py
index e793209..3b75603 100755
--- a/hyperion/bin/keras-extract-tied-vae-embed.py
+++ b/hyperion/bin/keras-extract-tied-vae-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TVAE sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tvae-ivector.py b/hyperion/bin/keras-extract-tvae-ivector.py
index 0dac764..465f802 100755
--- a/hyperion/bin/keras-extract-tvae-ivector.py
+++ b/hyperion/bin/keras-extract-tvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-embed-att.py b/hyperion/bin/keras-train-cat-seq-embed-att.py
index c7f1d67..3b035e9 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-att.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-att.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains x-vectors with attention
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
index e788db4..99b6f7e 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains x-vector with LDE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-meta-embed.py b/hyperion/bin/keras-train-cat-seq-meta-embed.py
index 4263ed6..b62d153 100755
--- a/hyperion/bin/keras-train-cat-seq-meta-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-meta-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE ??
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-q-embed.py b/hyperion/bin/keras-train-cat-seq-q-embed.py
index 9c993b3..9e116b9 100755
--- a/hyperion/bin/keras-train-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with q-scoring
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-tied-dvae.py b/hyperion/bin/keras-train-cat-tied-dvae.py
index 87d06a9..b1feefb 100755
--- a/hyperion/bin/keras-train-cat-tied-dvae.py
+++ b/hyperion/bin/keras-train-cat-tied-dvae.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with discriminative VAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-tied-sup-vae.py b/hyperion/bin/keras-train-cat-tied-sup-vae.py
index bd0479b..c463522 100755
--- a/hyperion/bin/keras-train-cat-tied-sup-vae.py
+++ b/hyperion/bin/keras-train-cat-tied-sup-vae.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with supervised VAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py b/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
index 8e61bfd..32e3332 100755
--- a/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains supervised TCVAE with gmm posteriors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-gmm-tcvae-ivector.py b/hyperion/bin/keras-train-gmm-tcvae-ivector.py
index c897bb6..730beba 100755
--- a/hyperion/bin/keras-train-gmm-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-gmm-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE with GMM posteriors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-pdda.py b/hyperion/bin/keras-train-pdda.py
index f6cb09c..3aef7d8 100755
--- a/hyperion/bin/keras-train-pdda.py
+++ b/hyperion/bin/keras-train-pdda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PDDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-sup-tcvae-ivector.py b/hyperion/bin/keras-train-sup-tcvae-ivector.py
index dd1ca68..0ed93f0 100755
--- a/hyperion/bin/keras-train-sup-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-sup-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains supervised TCVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-tcvae-ivector.py b/hyperion/bin/keras-train-tcvae-ivector.py
index e71911d..578d22a 100755
--- a/hyperion/bin/keras-train-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/merge-h5-files.py b/hyperion/bin/merge-h5-files.py
index 2a2b6c0..0a95940 100755
--- a/hyperion/bin/merge-h5-files.py
+++ b/hyperion/bin/merge-h5-files.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Merges multiple hdf5 files into one file
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/plot-vector-hist.py b/hyperion/bin/plot-vector-hist.py
index 6af79db..981d315 100755
--- a/hyperion/bin/plot-vector-hist.py
+++ b/hyperion/bin/plot-vector-hist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Plot histogram of i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/plot-vector-tsne.py b/hyperion/bin/plot-vector-tsne.py
index 9aea1ff..63bd0ab 100755
--- a/hyperion/bin/plot-vector-tsne.py
+++ b/hyperion/bin/plot-vector-tsne.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Plots TSNE embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-cw-up.py b/hyperion/bin/train-cw-up.py
index a4e7592..d66976f 100755
--- a/hyperion/bin/train-cw-up.py
+++ b/hyperion/bin/train-cw-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Centering and whitening with uncertainty prop.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-cw.py b/hyperion/bin/train-cw.py
index b5d3a55..9128e20 100755
--- a/hyperion/bin/train-cw.py
+++ b/hyperion/bin/train-cw.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Centering and whitening
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-gaussianizer.py b/hyperion/bin/train-gaussianizer.py
index 40996f3..22323f0 100755
--- a/hyperion/bin/train-gaussianizer.py
+++ b/hyperion/bin/train-gaussianizer.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Gaussianization for i-vectors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-lda.py b/hyperion/bin/train-lda.py
index be34061..da53891 100755
--- a/hyperion/bin/train-lda.py
+++ b/hyperion/bin/train-lda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains LDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-gbe-up.py b/hyperion/bin/train-linear-gbe-up.py
index f381482..6758c34 100755
--- a/hyperion/bin/train-linear-gbe-up.py
+++ b/hyperion/bin/train-linear-gbe-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear GBE with uncertainty propagation
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-gbe.py b/hyperion/bin/train-linear-gbe.py
index 4f0aefb..2036930 100755
--- a/hyperion/bin/train-linear-gbe.py
+++ b/hyperion/bin/train-linear-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear Gaussian back-end
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-svmc.py b/hyperion/bin/train-linear-svmc.py
index bb4353d..b849fd0 100755
--- a/hyperion/bin/train-linear-svmc.py
+++ b/hyperion/bin/train-linear-svmc.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear SVM classifier
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-logistic-regression.py b/hyperion/bin/train-logistic-regression.py
index 82985a4..61fecd4 100755
--- a/hyperion/bin/train-logistic-regression.py
+++ b/hyperion/bin/train-logistic-regression.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear logistic regression classifier
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-mvn.py b/hyperion/bin/train-mvn.py
index a91863b..ca42e4f 100755
--- a/hyperion/bin/train-mvn.py
+++ b/hyperion/bin/train-mvn.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains global mean and variance normalization of i-vectors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-nda.py b/hyperion/bin/train-nda.py
index a8755fa..157e7f3 100755
--- a/hyperion/bin/train-nda.py
+++ b/hyperion/bin/train-nda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains NDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-pca.py b/hyperion/bin/train-pca.py
index 2bdb27d..d657183 100755
--- a/hyperion/bin/train-pca.py
+++ b/hyperion/bin/train-pca.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PCA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-plda.py b/hyperion/bin/train-plda.py
index e5af64f..782818a 100755
--- a/hyperion/bin/train-plda.py
+++ b/hyperion/bin/train-plda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PLDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-q-scoring-homo-gbe.py b/hyperion/bin/train-q-scoring-homo-gbe.py
index 0ce739c..19d9def 100755
--- a/hyperion/bin/train-q-scoring-homo-gbe.py
+++ b/hyperion/bin/train-q-scoring-homo-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Q-scoring back-end
 """
 from __future__ import absolute_import
-- 
2.43.0


From 45d6ae625ddee4d880e677cdaad6bbbcafd03dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 036/125] fix: train-lda: verbosity option that the tool reads

---
 hyperion/bin/train-lda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/bin/train-lda.py b/hyperion/bin/train-lda.py
index da53891..9a4ebc0 100755
--- a/hyperion/bin/train-lda.py
+++ b/hyperion/bin/train-lda.py
@@ -82,6 +82,7 @@ if __name__ == "__main__":
     parser.add_argument('--no-append-tlist', dest='append_tlist', 
                         default=True, action='store_false')
     parser.add_argument('--name', dest='name', default='lda')
+    parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int)
     args=parser.parse_args()
     config_logger(args.verbose)
     del args.verbose
-- 
2.43.0


From 36379818f3663d7bbb6bbc6dd2cba0949172238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 037/125] fix: train-linear-svmc, train-logistic-regression:
 clash of the verbosity options

---
 hyperion/bin/train-linear-svmc.py         | 1 +
 hyperion/bin/train-logistic-regression.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/hyperion/bin/train-linear-svmc.py b/hyperion/bin/train-linear-svmc.py
index b849fd0..40572f0 100755
--- a/hyperion/bin/train-linear-svmc.py
+++ b/hyperion/bin/train-linear-svmc.py
@@ -52,6 +52,7 @@ if __name__ == "__main__":
     parser=argparse.ArgumentParser(
         formatter_class=argparse.ArgumentDefaultsHelpFormatter,
         fromfile_prefix_chars='@',
+        conflict_handler='resolve',
         description='Train linear SVM classifier')
 
     parser.add_argument('--iv-file', dest='iv_file', required=True)
diff --git a/hyperion/bin/train-logistic-regression.py b/hyperion/bin/train-logistic-regression.py
index 61fecd4..d9355a9 100755
--- a/hyperion/bin/train-logistic-regression.py
+++ b/hyperion/bin/train-logistic-regression.py
@@ -52,6 +52,7 @@ if __name__ == "__main__":
     parser=argparse.ArgumentParser(
         formatter_class=argparse.ArgumentDefaultsHelpFormatter,
         fromfile_prefix_chars='@',
+        conflict_handler='resolve',
         description='Train linear logistic regression classifier')
 
     parser.add_argument('--iv-file', dest='iv_file', required=True)
-- 
2.43.0


From 99e7f9bc41213d5589a0c131dfef0fd176e6af21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 038/125] fix: train-nda: imports

---
 hyperion/bin/train-nda.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/train-nda.py b/hyperion/bin/train-nda.py
index 157e7f3..41025ab 100755
--- a/hyperion/bin/train-nda.py
+++ b/hyperion/bin/train-nda.py
@@ -20,7 +20,8 @@ import numpy as np
 
 from hyperion.hyp_defs import config_logger
 from hyperion.helpers import VectorClassReader as VCR
-from hyperion.transforms import TransformList, NDA, NSbSw
+from hyperion.transforms import TransformList, NDA
+from hyperion.transforms.sb_sw import NSbSw
 
 
 def train_nda(iv_file, train_list, preproc_file,
@@ -91,7 +92,6 @@ if __name__ == "__main__":
     parser.add_argument('--no-append-tlist', dest='append_tlist', 
                         default=True, action='store_false')
     parser.add_argument('--name', dest='name', default='nda')
-    parser.add_argument('--vector-score-file', dest='vector_score_file', default=None)
     parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int)
     
     args=parser.parse_args()
-- 
2.43.0


From 4ff2dd44df5c557686845af15f3e62faf71cb613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 039/125] fix: train-cw, train-cw-up: load the input model

---
 hyperion/bin/train-cw-up.py | 2 +-
 hyperion/bin/train-cw.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/train-cw-up.py b/hyperion/bin/train-cw-up.py
index d66976f..7127715 100755
--- a/hyperion/bin/train-cw-up.py
+++ b/hyperion/bin/train-cw-up.py
@@ -36,7 +36,7 @@ def load_model(input_path, with_lnorm, name, **kwargs):
         if with_lnorm:
             return LNormUP.load(input_path)
         else:
-            return CentWhitenUP(input_path)
+            return CentWhitenUP.load(input_path)
     except:
         tfl = TransformList.load(input_path)
         for tf in tfl.transforms:
diff --git a/hyperion/bin/train-cw.py b/hyperion/bin/train-cw.py
index 9128e20..9d0e487 100755
--- a/hyperion/bin/train-cw.py
+++ b/hyperion/bin/train-cw.py
@@ -36,7 +36,7 @@ def load_model(input_path, with_lnorm, name, **kwargs):
         if with_lnorm:
             return LNorm.load(input_path)
         else:
-            return CentWhiten(input_path)
+            return CentWhiten.load(input_path)
     except:
         tfl = TransformList.load(input_path)
         for tf in tfl.transforms:
-- 
2.43.0


From 2f34824f7e74469c5a24c39262a4da2cd3e3cb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 040/125] fix: train-gaussianizer: select the input model by
 name

---
 hyperion/bin/train-gaussianizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/train-gaussianizer.py b/hyperion/bin/train-gaussianizer.py
index 22323f0..c83848c 100755
--- a/hyperion/bin/train-gaussianizer.py
+++ b/hyperion/bin/train-gaussianizer.py
@@ -24,10 +24,10 @@ from hyperion.pdfs.core import Normal
 from hyperion.transforms import TransformList, Gaussianizer
 
 
-def load_model(input_path, **kwargs):
+def load_model(input_path, name, **kwargs):
 
     if input_path is None:
-        return Gaussianizer(**kwargs)
+        return Gaussianizer(name=name, **kwargs)
 
     try:
         return Gaussianizer.load(input_path)
-- 
2.43.0


From 5ebca0fa499f92fb842d18500e137275accb39a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 041/125] fix: eval-plda-nvs1: use the PLDA type option

---
 hyperion/bin/eval-plda-nvs1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/eval-plda-nvs1.py b/hyperion/bin/eval-plda-nvs1.py
index 5da9200..8efece9 100755
--- a/hyperion/bin/eval-plda-nvs1.py
+++ b/hyperion/bin/eval-plda-nvs1.py
@@ -28,7 +28,7 @@ from hyperion.transforms import TransformList
 
 def eval_plda(iv_file, ndx_file, enroll_file, test_file,
               preproc_file,
-              model_file, score_file, pool_method, **kwargs):
+              model_file, score_file, plda_type, pool_method, **kwargs):
     
     if preproc_file is not None:
         preproc = TransformList.load(preproc_file)
-- 
2.43.0


From 8f763cf8a2f8cea024b325cddb2b4d0692c94cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 042/125] fix: eval-2class-performance: output path without
 directory

---
 hyperion/bin/eval-2class-performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/eval-2class-performance.py b/hyperion/bin/eval-2class-performance.py
index aea9ef6..a78fee6 100755
--- a/hyperion/bin/eval-2class-performance.py
+++ b/hyperion/bin/eval-2class-performance.py
@@ -29,7 +29,7 @@ def eval_2class_performance(score_file, key_file, output_path):
     key = TrialKey.load(key_file)
 
     output_dir = os.path.dirname(output_path)
-    if not(os.path.isdir(output_dir)):
+    if output_dir != '' and not(os.path.isdir(output_dir)):
         os.makedirs(output_dir, exist_ok=True)
     
     tar, non = scr.get_tar_non(key)
-- 
2.43.0


From 352448b01340b32f2a3ecddc656a43bcf17b4be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 043/125] fix: ark2hyp: output path without directory

---
 hyperion/bin/ark2hyp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/ark2hyp.py b/hyperion/bin/ark2hyp.py
index 784d0f8..af64d3d 100755
--- a/hyperion/bin/ark2hyp.py
+++ b/hyperion/bin/ark2hyp.py
@@ -22,7 +22,7 @@ from hyperion.io import HypDataWriter, KaldiDataReader
 def ark2hyp(input_file, input_dir, output_file, field, chunk_size, squeeze):
 
     output_dir = os.path.dirname(output_file)
-    if not os.path.exists(output_dir):
+    if output_dir != '' and not os.path.exists(output_dir):
         os.makedirs(output_dir)
     
     ark_r = KaldiDataReader(input_file, input_dir)
-- 
2.43.0


From 46edf8cf44164b3c858bda1934eb4be28f426b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 044/125] fix: arkvad2nist, h5vad2nist: segment boundaries one
 frame early

---
 hyperion/bin/arkvad2nist.py | 4 ++--
 hyperion/bin/h5vad2nist.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index 2186efd..4d27b2f 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -37,8 +37,8 @@ def bin2intervals(vad):
     prev_stop = 0
     for i, p in enumerate(change_points):
         start[i] = prev_stop
-        stop[i] = p
-        prev_stop = p
+        stop[i] = p+1
+        prev_stop = p+1
         state[i] = speech
         speech = not speech
         conf[i] = 1.0
diff --git a/hyperion/bin/h5vad2nist.py b/hyperion/bin/h5vad2nist.py
index f0e51cf..db20846 100755
--- a/hyperion/bin/h5vad2nist.py
+++ b/hyperion/bin/h5vad2nist.py
@@ -37,8 +37,8 @@ def bin2intervals(vad):
     prev_stop = 0
     for i, p in enumerate(change_points):
         start[i] = prev_stop
-        stop[i] = p
-        prev_stop = p
+        stop[i] = p+1
+        prev_stop = p+1
         state[i] = speech
         speech = not speech
         conf[i] = 1.0
-- 
2.43.0


From 4a5fa84008ccfb8fadc1a042691d876fc622bffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 045/125] fix: arkvad2nist: import

---
 hyperion/bin/arkvad2nist.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index 4d27b2f..a2fec8d 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -18,6 +18,7 @@ import logging
 import numpy as np
 
 
+from hyperion.hyp_defs import config_logger
 from hyperion.io import KaldiDataReader
 
 def bin2intervals(vad):
-- 
2.43.0


From 8906fb0c9034200d46a4fc6d4d98e36a0589d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 046/125] fix: compute-energy-vad: undefined names

---
 hyperion/bin/compute-energy-vad.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hyperion/bin/compute-energy-vad.py b/hyperion/bin/compute-energy-vad.py
index 03a1c60..b7d4383 100755
--- a/hyperion/bin/compute-energy-vad.py
+++ b/hyperion/bin/compute-energy-vad.py
@@ -17,14 +17,13 @@ from six.moves import xrange
 
 from hyperion.hyp_defs import config_logger
 from hyperion.io import SequentialAudioReader as AR
-#from hyperion.io import SequentialDataReaderFactory as DRF
 from hyperion.io import DataWriterFactory as DWF
-from hyperion.feats import energy_vad
+from hyperion.feats import EnergyVAD
 
 def compute_vad(input_path, output_path,  **kwargs):
 
-    mfcc_args = EnergyVAD.filter_args(**kwargs)
-    mfcc = EnergVAD(**mfcc_args)
+    vad_args = EnergyVAD.filter_args(**kwargs)
+    vad = EnergyVAD(**vad_args)
     
     input_args = AR.filter_args(**kwargs)
     reader = AR(input_path, **input_args)
@@ -56,7 +55,7 @@ if __name__ == "__main__":
     parser.add_argument('--input', dest='input_path', required=True)
     parser.add_argument('--output', dest='output_path', required=True)
 
-    DRF.add_argparse_args(parser)
+    AR.add_argparse_args(parser)
     EnergyVAD.add_argparse_args(parser)
     parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int,
                         help='Verbose level')
-- 
2.43.0


From db5b8cd9822a432807902e3dd60a917f5279e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 047/125] fix: rttm-to-bin-vad, segments-to-bin-vad: work
 without num-frames file

---
 hyperion/bin/rttm-to-bin-vad.py     | 4 ++--
 hyperion/bin/segments-to-bin-vad.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/bin/rttm-to-bin-vad.py b/hyperion/bin/rttm-to-bin-vad.py
index d3191c6..0d7eb03 100755
--- a/hyperion/bin/rttm-to-bin-vad.py
+++ b/hyperion/bin/rttm-to-bin-vad.py
@@ -41,10 +41,10 @@ def rttm_to_bin_vad(rttm_file, num_frames_file, frame_shift, output_path, part_i
             vad = segments.to_bin_vad(file_id, frame_shift=frame_shift, num_frames=num_frames)
             num_speech_frames = np.sum(vad)
             logging.info('for %s detected %d/%d (%.2f %%) speech frames' % (
-                file_id, num_speech_frames, num_frames, num_speech_frames/num_frames*100))
+                file_id, num_speech_frames, len(vad), num_speech_frames/len(vad)*100))
             writer.write(file_id, vad)
 
-        if part_idx == 1:
+        if part_idx == 1 and num_frames_file is not None:
             for file_id in utt2num_frames.index:
                 if not(file_id in segments_orig.uniq_file_id):
                     logging.warning('not speeech detected in %s, putting all to 1' % (file_id))
diff --git a/hyperion/bin/segments-to-bin-vad.py b/hyperion/bin/segments-to-bin-vad.py
index 73e89d5..47a7d23 100755
--- a/hyperion/bin/segments-to-bin-vad.py
+++ b/hyperion/bin/segments-to-bin-vad.py
@@ -39,7 +39,7 @@ def segments_to_bin_vad(segments_file, num_frames_file, frame_shift, output_path
             vad = segments.to_bin_vad(file_id, frame_shift=frame_shift, num_frames=num_frames)
             num_speech_frames = np.sum(vad)
             logging.info('for %s detected %d/%d (%.2f %%) speech frames' % (
-                file_id, num_speech_frames, num_frames, num_speech_frames/num_frames*100))
+                file_id, num_speech_frames, len(vad), num_speech_frames/len(vad)*100))
             writer.write(file_id, vad)
 
             
-- 
2.43.0


From 4dcdbf79fd9ab93ca7b51142b56dc4bfdd23a510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:37 +0000
Subject: [PATCH 048/125] fix: eval-score-norm: import, argument names and
 normalization types

---
 hyperion/bin/eval-score-norm.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index c54ec4f..1992936 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -20,7 +20,7 @@ import numpy as np
 
 from hyperion.hyp_defs import config_logger
 from hyperion.score_norm import *
-from hyperion.utils.trial_scroes import TrialScores
+from hyperion.utils.trial_scores import TrialScores
 from hyperion.utils.trial_ndx import TrialNdx
 
 
@@ -33,13 +33,13 @@ def load_scores(score_file, enr_coh_file, coh_test_file, coh_coh_file):
     scores_coh_coh = None
     
     if enr_coh_file is not None:
-        ndx = TrialNdx(scores.model_set, scores_enr_coh.seg_set)
         scores_enr_coh = TrialScores.load(enr_coh_file)
+        ndx = TrialNdx(scores.model_set, scores_enr_coh.seg_set)
         scores_enr_coh = scores_enr_coh.align_with_ndx(ndx)
 
     if coh_test_file is not None:
-        ndx = TrialNdx(scores_coh_test.model_set, scores.seg_set)
         scores_coh_test = TrialScores.load(coh_test_file)
+        ndx = TrialNdx(scores_coh_test.model_set, scores.seg_set)
         scores_coh_test = scores_coh_test.align_with_ndx(ndx)
 
     if coh_coh_file is not None:
@@ -52,24 +52,24 @@ def load_scores(score_file, enr_coh_file, coh_test_file, coh_coh_file):
 
 
 
-def score_norm(score_file, ouput_file, norm_type,
+def score_norm(score_file, output_file, norm_type,
                enr_coh_file=None, coh_test_file=None, coh_coh_file=None,
                adapt_coh=None):
 
     scores, scores_enr_coh, scores_coh_test, scores_coh_coh = load_scores(
         score_file, enr_coh_file, coh_test_file, coh_coh_file)
 
-    if norm_type == 't_norm':
+    if norm_type == 't-norm':
         assert scores_coh_test is not None
         norm = TNorm()
         scores_norm = norm.predict(scores.scores, scores_coh_test.scores)
 
-    if norm_type == 'z_norm':
+    if norm_type == 'z-norm':
         assert scores_enr_coh is not None
         norm = ZNorm()
         scores_norm = norm.predict(scores.scores, scores_enr_coh.scores)
 
-    if norm_type == 'zt_norm':
+    if norm_type == 'zt-norm':
         assert(scores_enr_coh is not None and scores_coh_test is not None
                and scores_coh_coh is not None)
         norm = ZTNorm()
@@ -78,17 +78,15 @@ def score_norm(score_file, ouput_file, norm_type,
                                    scores_enr_coh.scores,
                                    scores_coh_coh.scores)
 
-    if norm_type == 's_norm':
-        assert(scores_enr_coh is not None and scores_coh_test is not None
-               and scores_coh_coh is not None)
+    if norm_type == 's-norm':
+        assert scores_enr_coh is not None and scores_coh_test is not None
         norm = SNorm()
         scores_norm = norm.predict(scores.scores,
                                    scores_coh_test.scores,
-                                   scores_enr_coh.scores,
-                                   scores_coh_coh.scores)
+                                   scores_enr_coh.scores)
 
     scores.scores = scores_norm
-    scores.save(ouput_file)
+    scores.save(output_file)
     
 
     
@@ -114,6 +112,6 @@ if __name__ == "__main__":
     del args.verbose
     logging.debug(args)
     
-    eval_score_norm(**vars(args))
+    score_norm(**vars(args))
 
     
-- 
2.43.0


From f474bdb570e844b4ef3ae60c8caec363dae4a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:57 +0000
Subject: [PATCH 049/125] fix: impurity DET curve with a single class or a
 single cluster

---
 hyperion/clustering/ahc.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index 4d6c644..4576f98 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -116,6 +116,13 @@ class AHC(HypModel):
         for i in xrange(self.flat_clusters.shape[0]):
             h[i] = homogeneity_score(labels_true, self.flat_clusters[i])
             c[i] = completeness_score(labels_true, self.flat_clusters[i])
+            # the entropy of a single cluster may be slightly different from 0
+            if np.all(self.flat_clusters[i] == self.flat_clusters[i][0]):
+                c[i] = 1
+
+        # the entropy of a single class may be slightly different from 0
+        if len(np.unique(labels_true)) == 1:
+            h[:] = 1
 
         return 1-h, 1-c
     
-- 
2.43.0


From be7664d4708c0a51363919b4dc3b6788575d9f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 050/125] fix: short-time mean and variance normalization
 options when only some are given

---
 hyperion/feats/feature_normalization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/feats/feature_normalization.py b/hyperion/feats/feature_normalization.py
index 20c9d02..6084071 100644
--- a/hyperion/feats/feature_normalization.py
+++ b/hyperion/feats/feature_normalization.py
@@ -231,8 +231,9 @@ class MeanVarianceNorm(object):
         neg_args2 = ('norm_mean',)
 
         for a,b in zip(neg_args1, neg_args2):
-            d[b] = not d[a]
-            del d[a]
+            if a in d:
+                d[b] = not d[a]
+                del d[a]
 
         return d
 
-- 
2.43.0


From ac79b7cb7f53672f7b10b126cf57087c477dd77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:07 +0000
Subject: [PATCH 051/125] fix: train-nda: scatter matrices after projection use
 the given number of neighbours

---
 hyperion/bin/train-nda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/train-nda.py b/hyperion/bin/train-nda.py
index 41025ab..f7c5a7e 100755
--- a/hyperion/bin/train-nda.py
+++ b/hyperion/bin/train-nda.py
@@ -50,7 +50,7 @@ def train_nda(iv_file, train_list, preproc_file,
     
     x = model.predict(x)
 
-    s_mat = NSbSw()
+    s_mat = NSbSw(K=K, alpha=alpha)
     s_mat.fit(x, class_ids)
     logging.debug(s_mat.Sb[:4,:4])
     logging.debug(s_mat.Sw[:4,:4])
-- 
2.43.0


From 680c9adcf5ea435faec45b35159ea3e774669ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 052/125] fix: Kaldi archive reader of the conversion tools:
 use the offsets of the script

---
 hyperion/io/kaldi_data_reader.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/hyperion/io/kaldi_data_reader.py b/hyperion/io/kaldi_data_reader.py
index bc7c3d3..5290a58 100644
--- a/hyperion/io/kaldi_data_reader.py
+++ b/hyperion/io/kaldi_data_reader.py
@@ -24,13 +24,11 @@ class KaldiDataReader(object):
             self.cur_record=0
             
             scp = SCPList.load(file_path, sep=sep)
-            if input_dir is None:
-                  self.scp = OrderedDict((k, v) for (k, v) in
-                                         zip(scp.key, scp.file_path))
-            else:
-                  input_dir+='/'
-                  self.scp = OrderedDict((k, input_dir+v) for (k, v) in
-                                         zip(scp.key, scp.file_path))
+            prefix = '' if input_dir is None else input_dir+'/'
+            paths = [prefix+v for v in scp.file_path]
+            if scp.offset is not None:
+                  paths = ['%s:%d' % (v, o) for (v, o) in zip(paths, scp.offset)]
+            self.scp = OrderedDict(zip(scp.key, paths))
 
                   
       def read(self, keys=None, num_records=None, first_record=None, squeeze=False):
-- 
2.43.0


From cc341c8abdf94969fefc7e7e19abce0e9b0f3b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:11 +0000
Subject: [PATCH 053/125] fix: rttm-to-bin-vad, segments-to-bin-vad: file names
 that look like numbers or missing values

---
 hyperion/bin/rttm-to-bin-vad.py     | 4 +++-
 hyperion/bin/segments-to-bin-vad.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/rttm-to-bin-vad.py b/hyperion/bin/rttm-to-bin-vad.py
index 0d7eb03..7946eee 100755
--- a/hyperion/bin/rttm-to-bin-vad.py
+++ b/hyperion/bin/rttm-to-bin-vad.py
@@ -26,7 +26,9 @@ def rttm_to_bin_vad(rttm_file, num_frames_file, frame_shift, output_path, part_i
 
     num_frames = None
     if num_frames_file is not None:
-        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'], index_col=0)
+        utt2num_frames = pd.read_csv(num_frames_file, sep=r'\s+', header=None,
+                                     names=['file_id','num_frames'],
+                                     dtype={'file_id': str}, keep_default_na=False).set_index('file_id')
 
     segments = RTTM.load(rttm_file).to_segment_list()
     segments_orig = copy.deepcopy(segments)
diff --git a/hyperion/bin/segments-to-bin-vad.py b/hyperion/bin/segments-to-bin-vad.py
index 47a7d23..ed2fbf1 100755
--- a/hyperion/bin/segments-to-bin-vad.py
+++ b/hyperion/bin/segments-to-bin-vad.py
@@ -25,7 +25,9 @@ def segments_to_bin_vad(segments_file, num_frames_file, frame_shift, output_path
 
     num_frames = None
     if num_frames_file is not None:
-        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'], index_col=0)
+        utt2num_frames = pd.read_csv(num_frames_file, sep=r'\s+', header=None,
+                                     names=['file_id','num_frames'],
+                                     dtype={'file_id': str}, keep_default_na=False).set_index('file_id')
 
     segments = SegmentList.load(segments_file)
     if num_parts  > 1:
-- 
2.43.0


From a81d9300dfa3d7c8fb07db43dff1b2aa5793831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:47 +0000
Subject: [PATCH 054/125] fix: merging of hdf5 files when one is empty

---
 hyperion/io/h5_merger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/h5_merger.py b/hyperion/io/h5_merger.py
index cb491fe..0ab31f7 100644
--- a/hyperion/io/h5_merger.py
+++ b/hyperion/io/h5_merger.py
@@ -33,7 +33,7 @@ class H5Merger(object):
         hr = HR(input_file)
         datasets = hr.get_datasets()
         if self.chunk_size is None:
-            chunk = len(datasets)
+            chunk = max(len(datasets), 1)
         else:
             chunk = self.chunk_size
         
-- 
2.43.0


From b9f1b6321cdeac6abd4edd269cb1af95ab731a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:37 +0000
Subject: [PATCH 055/125] fix: reading of script files with another field
 separator or spaces in the path

---
 hyperion/io/data_rw_factory.py | 4 ++--
 hyperion/io/rw_specifiers.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/io/data_rw_factory.py b/hyperion/io/data_rw_factory.py
index 805f8a2..fe1850c 100644
--- a/hyperion/io/data_rw_factory.py
+++ b/hyperion/io/data_rw_factory.py
@@ -93,7 +93,7 @@ class SequentialDataReaderFactory(object):
     def create(rspecifier, path_prefix=None, scp_sep=' ', **kwargs):
         
         if isinstance(rspecifier, string_types):
-            rspecifier = RSpecifier.create(rspecifier)
+            rspecifier = RSpecifier.create(rspecifier, scp_sep)
             
         if rspecifier.spec_type ==  RSpecType.ARCHIVE:
             if rspecifier.archive_type == ArchiveType.H5:
@@ -148,7 +148,7 @@ class RandomAccessDataReaderFactory(object):
     @staticmethod
     def create(rspecifier, path_prefix=None, transform=None, scp_sep=' '):
         if isinstance(rspecifier, string_types):
-            rspecifier = RSpecifier.create(rspecifier)
+            rspecifier = RSpecifier.create(rspecifier, scp_sep)
         logging.debug(rspecifier.__dict__)
         if rspecifier.spec_type ==  RSpecType.ARCHIVE:
             if rspecifier.archive_type == ArchiveType.H5:
diff --git a/hyperion/io/rw_specifiers.py b/hyperion/io/rw_specifiers.py
index 814cae5..58ef131 100644
--- a/hyperion/io/rw_specifiers.py
+++ b/hyperion/io/rw_specifiers.py
@@ -294,7 +294,7 @@ class RSpecifier(object):
 
     
     @classmethod
-    def create(cls, rspecifier):
+    def create(cls, rspecifier, scp_sep=' '):
         fields = rspecifier.strip().split(':')
         if len(fields) == 1:
             assert len(fields[0]) > 0
@@ -338,7 +338,7 @@ class RSpecifier(object):
             
             if spec_type == RSpecType.SCRIPT:
                 with open(archive, 'r') as f:
-                    scp = f.readline().strip().split(' ')[1].split('[')[0].split(':')
+                    scp = f.readline().strip().split(scp_sep, 1)[1].split('[')[0].split(':')
                     if len(scp) == 1:
                         archive_type = ArchiveType.H5
                     else:
-- 
2.43.0


From 7ca8357145bff5af4ff034a125e4bc899d8bfcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:37 +0000
Subject: [PATCH 056/125] fix: feature writers: archive or script in the
 working directory

---
 hyperion/io/data_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/data_writer.py b/hyperion/io/data_writer.py
index 272b0b8..ae3dcd1 100644
--- a/hyperion/io/data_writer.py
+++ b/hyperion/io/data_writer.py
@@ -37,12 +37,12 @@ class DataWriter(object):
         self.scp_sep = scp_sep
         
         archive_dir = os.path.dirname(archive_path)
-        if not os.path.exists(archive_dir):
+        if archive_dir and not os.path.exists(archive_dir):
             os.makedirs(archive_dir)
 
         if script_path is not None:
             script_dir = os.path.dirname(script_path)
-            if not os.path.exists(script_dir):
+            if script_dir and not os.path.exists(script_dir):
                 os.makedirs(script_dir)
             
 
-- 
2.43.0


From 22e7673543beb3c463d3cc384f96eb05cde6a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:35 +0000
Subject: [PATCH 057/125] fix: feature readers: shapes of no records when all
 records must have the same dimension

---
 hyperion/io/ark_data_reader.py | 6 +++---
 hyperion/io/h5_data_reader.py  | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index f91087b..52e87ef 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -347,7 +347,7 @@ class SequentialArkScriptDataReader(SequentialArkDataReader):
             shapes.append(shape_i)
             self.cur_item += 1
 
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=int)
             assert np.all(dims == dims[0])
             
@@ -518,7 +518,7 @@ class RandomAccessArkDataReader(RandomAccessDataReader):
         """
         shapes = self.read_shapes(keys, False)
         dims = np.array([s[-1] for s in shapes], dtype=np.int)
-        if assert_same_dim:
+        if assert_same_dim and len(dims)>0:
             assert np.all(dims==dims[0])
         return dims
 
@@ -565,7 +565,7 @@ class RandomAccessArkDataReader(RandomAccessDataReader):
             
             shapes.append(shape_i)
 
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=np.int)
             assert np.all(dims == dims[0])
             
diff --git a/hyperion/io/h5_data_reader.py b/hyperion/io/h5_data_reader.py
index 33f4936..83dae3a 100644
--- a/hyperion/io/h5_data_reader.py
+++ b/hyperion/io/h5_data_reader.py
@@ -356,7 +356,7 @@ class SequentialH5ScriptDataReader(SequentialH5DataReader):
             shapes.append(shape_i)
             self.cur_item += 1
             
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=np.int32)
             assert np.all(dims == dims[0])
             
@@ -471,7 +471,7 @@ class RandomAccessH5DataReader(RandomAccessDataReader):
         """
         shapes = self.read_shapes(keys, False)
         dims = np.array([s[-1] for s in shapes], dtype=np.int32)
-        if assert_same_dim:
+        if assert_same_dim and len(dims)>0:
             assert np.all(dims==dims[0])
         return dims
 
@@ -539,7 +539,7 @@ class RandomAccessH5FileDataReader(RandomAccessH5DataReader):
             shape_i = self.f[key].shape
             shapes.append(shape_i)
 
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=np.int32)
             assert np.all(dims == dims[0])
             
@@ -708,7 +708,7 @@ class RandomAccessH5ScriptDataReader(RandomAccessH5DataReader):
             
             shapes.append(shape_i)
 
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=np.int32)
             assert np.all(dims == dims[0])
             
-- 
2.43.0


From 2c1e76f4e85e0a897203f1f36b2005c18936800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:10 +0000
Subject: [PATCH 058/125] fix: remove_short_utts: keep utterances of exactly
 the minimum number of frames

---
 hyp_utils/remove_short_utts.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyp_utils/remove_short_utts.sh b/hyp_utils/remove_short_utts.sh
index 3355472..2ebe54c 100755
--- a/hyp_utils/remove_short_utts.sh
+++ b/hyp_utils/remove_short_utts.sh
@@ -21,7 +21,7 @@ fi
 data_dir=$1
 
 mv $data_dir/utt2num_frames $data_dir/utt2num_frames.bak
-awk -v min_len=${min_len} '$2 > min_len {print $1, $2}' $data_dir/utt2num_frames.bak > $data_dir/utt2num_frames
+awk -v min_len=${min_len} '$2 >= min_len {print $1, $2}' $data_dir/utt2num_frames.bak > $data_dir/utt2num_frames
 utils/filter_scp.pl $data_dir/utt2num_frames $data_dir/utt2spk > $data_dir/utt2spk.new
 mv $data_dir/utt2spk.new $data_dir/utt2spk
 utils/fix_data_dir.sh $data_dir
-- 
2.43.0


From 193aec071b17a0908bcfbbac8e6ef1df9a119a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:10 +0000
Subject: [PATCH 059/125] fix: subset_data_dir --per-spk: take the requested
 number of utterances of each speaker

---
 hyp_utils/subset_data_dir.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyp_utils/subset_data_dir.sh b/hyp_utils/subset_data_dir.sh
index ffadfa4..c7bf8da 100755
--- a/hyp_utils/subset_data_dir.sh
+++ b/hyp_utils/subset_data_dir.sh
@@ -171,7 +171,7 @@ elif $speakers; then
 elif $perspk; then
   mkdir -p $destdir
   awk '{ n='$numutt'; printf("%s ",$1); skip=1; while(n*(skip+1) <= NF-1) { skip++; }
-         for(x=2; x<=NF && x <= n*skip; x += skip) { printf("%s ", $x); }
+         for(x=2; x<=NF && x <= n*skip+1; x += skip) { printf("%s ", $x); }
          printf("\n"); }' <$srcdir/spk2utt >$destdir/spk2utt
   utils/spk2utt_to_utt2spk.pl < $destdir/spk2utt > $destdir/utt2spk
   do_filtering; # bash function.
-- 
2.43.0


From 6fa27be0ba45b6a0c522a867a91a22b5fde674e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:10 +0000
Subject: [PATCH 060/125] fix: filter_trials: do not loop forever when a list
 cannot be read

---
 hyp_utils/filter_trials.awk | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyp_utils/filter_trials.awk b/hyp_utils/filter_trials.awk
index 9a447d4..6242ec6 100755
--- a/hyp_utils/filter_trials.awk
+++ b/hyp_utils/filter_trials.awk
@@ -6,14 +6,14 @@ BEGIN{
   filter_models=0;
   if(futts != ""){
     filter_utts=1;
-    while(getline < futts)
+    while((getline < futts) > 0)
     {
       utts[$1] = 1
     }
   }
   if(fmodels != ""){
     filter_models=1;
-    while(getline < fmodels)
+    while((getline < fmodels) > 0)
     {
       models[$1] = 1
     }
-- 
2.43.0


From a693523e640c77e5cc78b0ccaf3d6679e0c9e2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:10 +0000
Subject: [PATCH 061/125] fix: remove_utts_wo_vad: compare and filter
 utterances, also when the recordings have segments

---
 hyp_utils/remove_utts_wo_vad.sh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyp_utils/remove_utts_wo_vad.sh b/hyp_utils/remove_utts_wo_vad.sh
index e10039b..7316556 100755
--- a/hyp_utils/remove_utts_wo_vad.sh
+++ b/hyp_utils/remove_utts_wo_vad.sh
@@ -13,12 +13,14 @@ fi
 data_dir=$1
 
 num_utts=$(wc -l $data_dir/utt2spk | awk '{ print $1}')
-num_vad=$(wc -l $data_dir/vad.scp | awk '{ print $1}')
+awk -v fvad=$data_dir/vad.scp 'BEGIN{ while((getline < fvad) > 0){ v[$1]=1}}{ if($1 in v){ print $0}}' $data_dir/utt2spk > $data_dir/utt2spk.tmp
+num_vad=$(wc -l $data_dir/utt2spk.tmp | awk '{ print $1}')
 
 if [ $num_utts -gt $num_vad ];then
     echo "$0 utt $num_utts -> $num_vad"
-    awk -v fvad=$data_dir/vad.scp 'BEGIN{ while(getline < fvad){ v[$1]=1}}{ if($1 in v){ print $0}}' $data_dir/wav.scp > $data_dir/wav.scp.tmp
-    mv $data_dir/wav.scp.tmp $data_dir/wav.scp
-    
+    mv $data_dir/utt2spk.tmp $data_dir/utt2spk
+
     utils/fix_data_dir.sh $data_dir
+else
+    rm $data_dir/utt2spk.tmp
 fi
-- 
2.43.0


From c8aaa83b8c0af65e7555168bae378071d84109eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:34 +0000
Subject: [PATCH 062/125] fix: learning-rate schedulers: division by zero in
 the first batch without warm-up

---
 hyperion/torch/lr_schedulers/lr_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/lr_schedulers/lr_scheduler.py b/hyperion/torch/lr_schedulers/lr_scheduler.py
index ff59dd5..063aadd 100644
--- a/hyperion/torch/lr_schedulers/lr_scheduler.py
+++ b/hyperion/torch/lr_schedulers/lr_scheduler.py
@@ -45,7 +45,7 @@ class LRScheduler(object):
 
     @property
     def in_warmup(self):
-        return self.last_batch <= self.warmup_steps
+        return self.warmup_steps > 0 and self.last_batch <= self.warmup_steps
     
 
     def state_dict(self):
-- 
2.43.0


From 0aebe317f644b336dbdc404f4bee2c93b9cebd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:34 +0000
Subject: [PATCH 063/125] fix: cosine learning rate: the first period starts at
 the initial rate and lasts an integer number of epochs

---
 hyperion/torch/lr_schedulers/cos_lr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/torch/lr_schedulers/cos_lr.py b/hyperion/torch/lr_schedulers/cos_lr.py
index 7a8aa61..8251afd 100644
--- a/hyperion/torch/lr_schedulers/cos_lr.py
+++ b/hyperion/torch/lr_schedulers/cos_lr.py
@@ -38,7 +38,7 @@ class CosineLR(LRScheduler):
     """
 
     def __init__(self, optimizer, T, T_mul=1, min_lr=0, warmup_steps=0,
-                 warm_restarts=False, gamma=1, last_restart=1, num_restarts = 0, 
+                 warm_restarts=False, gamma=1, last_restart=0, num_restarts = 0, 
                  last_epoch=-1, last_batch=-1, update_lr_on_batch=False):
         super(CosineLR, self).__init__(optimizer, min_lr, warmup_steps,
                                        last_epoch, last_batch, update_lr_on_batch)
@@ -79,7 +79,8 @@ class CosineLR(LRScheduler):
     def epoch_end_step(self, metrics=None):
         if self.last_epoch==0 and self.update_lr_on_batch and self.warm_restarts:
             # assures that T period is equal to integer number of epochs
-            self.T = math.ceil(self.T/self.last_batch)*self.last_batch
+            num_batches = self.last_batch + 1
+            self.T = math.ceil(self.T/num_batches)*num_batches
             logging.info('readjusting cos_lr T to %d' % (self.T))
 
 
-- 
2.43.0


From 056ea372fea58830692ee17a569b045db7574b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:34 +0000
Subject: [PATCH 064/125] fix: cosine learning rate for Adam: wrong names
 prevent its creation and use

---
 hyperion/torch/lr_schedulers/cos_lr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/torch/lr_schedulers/cos_lr.py b/hyperion/torch/lr_schedulers/cos_lr.py
index 8251afd..42ed187 100644
--- a/hyperion/torch/lr_schedulers/cos_lr.py
+++ b/hyperion/torch/lr_schedulers/cos_lr.py
@@ -89,8 +89,8 @@ class AdamCosineLR(CosineLR):
     def __init__(self, optimizer, T=1, T_mul=2, warmup_steps=0,
                  warm_restarts=False, gamma=1, last_restart=0, num_restarts = 0, 
                  last_epoch=-1, last_batch=-1, update_lr_on_batch=False):
-        super(AdamCosineLR, super).__init__(optimizer, T, T_mul, 0, warmup_steps,
-                 warm_restarts, last_restart, num_restarts, gamma,
+        super(AdamCosineLR, self).__init__(optimizer, T, T_mul, 0, warmup_steps,
+                 warm_restarts, gamma, last_restart, num_restarts,
                  last_epoch, last_batch, update_lr_on_batch)
 
 
@@ -100,13 +100,13 @@ class AdamCosineLR(CosineLR):
             if self.warm_restarts:
                 self.last_restart = step
                 x = 0
-                self.T *= T_mul
+                self.T *= self.T_mul
                 self.num_restarts += 1
             else:
                 return self.min_lrs
 
-        alpha = gamma ** self.num_restarts
+        alpha = self.gamma ** self.num_restarts
         r = math.pi/self.T
             
-        return [alpha * base_lr * 0.5 (1 + math.cos(r * x))
+        return [alpha * base_lr * 0.5 * (1 + math.cos(r * x))
                 for base_lr in self.base_lrs]
-- 
2.43.0


From 8e4ec0704561ca131adeafb6351dfcfb86412eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:34 +0000
Subject: [PATCH 065/125] fix: learning-rate scheduler factory: update by batch
 was ignored by the exponential schedule

---
 hyperion/torch/lr_schedulers/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/lr_schedulers/factory.py b/hyperion/torch/lr_schedulers/factory.py
index c84a730..bf144a6 100644
--- a/hyperion/torch/lr_schedulers/factory.py
+++ b/hyperion/torch/lr_schedulers/factory.py
@@ -31,7 +31,7 @@ class LRSchedulerFactory(object):
             return ExponentialLR(
                 optimizer, decay_rate, decay_steps, hold_steps,
                 min_lr=min_lr, warmup_steps=warmup_steps, 
-                update_lr_on_batch=False)
+                update_lr_on_batch=update_lr_on_batch)
 
         if lrsch_type == 'cos_lr':
             return CosineLR(optimizer, T, T_mul, min_lr=min_lr,
-- 
2.43.0


From d77ec7c88eeafc3be6cd92f64f78e4056ecbc238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:34 +0000
Subject: [PATCH 066/125] fix: csv logger: appending to a log, log in the
 working directory

---
 hyperion/torch/loggers/csv_logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/torch/loggers/csv_logger.py b/hyperion/torch/loggers/csv_logger.py
index 4ad551a..93129cc 100644
--- a/hyperion/torch/loggers/csv_logger.py
+++ b/hyperion/torch/loggers/csv_logger.py
@@ -38,11 +38,11 @@ class CSVLogger(Logger):
     def on_train_begin(self, logs=None, **kwargs):
 
         file_dir = os.path.dirname(self.file_path) 
-        if not os.path.exists(file_dir):
+        if file_dir and not os.path.exists(file_dir):
             os.makedirs(file_dir)
         
         if self.append:
-            if os.path.exist(self.file_path):
+            if os.path.exists(self.file_path):
                 with open(self.file_path, 'r') as f:
                     self.append_header = len(f.readline())==0
 
-- 
2.43.0


From 99dea38653a3f4e27571482d648dcd1f872914da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:56 +0000
Subject: [PATCH 067/125] fix: trainer: training without metrics

---
 hyperion/torch/torch_trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/torch_trainer.py b/hyperion/torch/torch_trainer.py
index d89aeaa..64eb0a4 100644
--- a/hyperion/torch/torch_trainer.py
+++ b/hyperion/torch/torch_trainer.py
@@ -40,7 +40,7 @@ class TorchTrainer(object):
 
         self.lr_scheduler = lr_scheduler
         
-        self.metrics = metrics
+        self.metrics = ODict() if metrics is None else metrics
         if device is None:
             device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
         self.device = device
-- 
2.43.0


From aa6f30cdf3aff50fbe6b1bfce3de0398fd31b881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:56 +0000
Subject: [PATCH 068/125] fix: trainer: a run killed while saving left a
 truncated checkpoint that prevents resuming

---
 hyperion/torch/torch_trainer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/torch/torch_trainer.py b/hyperion/torch/torch_trainer.py
index 64eb0a4..f6bfcb8 100644
--- a/hyperion/torch/torch_trainer.py
+++ b/hyperion/torch/torch_trainer.py
@@ -166,7 +166,10 @@ class TorchTrainer(object):
         checkpoint = self.checkpoint(logs)
         file_path = '%s/model_ep%04d.pth' % (self.exp_path, self.cur_epoch)
             
-        torch.save(checkpoint, file_path)
+        # a run killed while it saves must not leave a truncated checkpoint
+        tmp_path = file_path + '.tmp'
+        torch.save(checkpoint, tmp_path)
+        os.replace(tmp_path, file_path)
 
 
     def load_checkpoint(self, file_path):
-- 
2.43.0


From 9cc37355e2fee8228edbb898ba345d3619eedcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:56 +0000
Subject: [PATCH 069/125] fix: trainer: resuming from a checkpoint erased the
 training log

---
 hyperion/torch/torch_trainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperion/torch/torch_trainer.py b/hyperion/torch/torch_trainer.py
index f6bfcb8..fb48fa2 100644
--- a/hyperion/torch/torch_trainer.py
+++ b/hyperion/torch/torch_trainer.py
@@ -31,6 +31,7 @@ class TorchTrainer(object):
 
         self.exp_path = exp_path
         
+        self.default_csv_log = None
         if loggers is None:
             self.loggers = self._default_loggers()
         elif isinstance(loggers, list):
@@ -137,6 +138,7 @@ class TorchTrainer(object):
     def _default_loggers(self):
         prog_log = ProgLogger(interval=10)
         csv_log = CSVLogger(self.exp_path + '/train.log', append=self.cur_epoch>0)
+        self.default_csv_log = csv_log
         return LoggerList([prog_log, csv_log])
     
     
@@ -176,6 +178,8 @@ class TorchTrainer(object):
 
         checkpoint = torch.load(file_path)
         self.cur_epoch = checkpoint['epoch']
+        if self.default_csv_log is not None:
+            self.default_csv_log.append = self.cur_epoch > 0
         self.model.load_state_dict(checkpoint['model_state_dict'])
         self.optimizer.load_state_dict(checkpoint['optimizer_state_dict'])
         self.loss.load_state_dict(checkpoint['loss_state_dict'])
-- 
2.43.0


From 743fff50c079e1904993753a29ecae5e5caa76e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:56 +0000
Subject: [PATCH 070/125] fix: trainer: loggers were not told the end of
 training

---
 hyperion/torch/torch_trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/torch/torch_trainer.py b/hyperion/torch/torch_trainer.py
index fb48fa2..0011c80 100644
--- a/hyperion/torch/torch_trainer.py
+++ b/hyperion/torch/torch_trainer.py
@@ -73,7 +73,8 @@ class TorchTrainer(object):
 
             self.save_checkpoint(logs)
 
-            
+        self.loggers.on_train_end()
+
             
     def train_epoch(self, data_loader):
 
-- 
2.43.0


From 0bde05040cc7a9081983b9e0e2bd2f9059f06020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:56 +0000
Subject: [PATCH 071/125] fix: binary accuracy of more than one element

---
 hyperion/torch/metrics/accuracy_functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/metrics/accuracy_functional.py b/hyperion/torch/metrics/accuracy_functional.py
index 853f765..770a416 100644
--- a/hyperion/torch/metrics/accuracy_functional.py
+++ b/hyperion/torch/metrics/accuracy_functional.py
@@ -78,7 +78,7 @@ def binary_accuracy(input, target, weight=None, reduction='mean', thr=0.5):
         return ok.sum().item()
 
     acc = ok.mean()/weight_mean
-    return ok.item()
+    return acc.item()
 
 
 def binary_accuracy_with_logits(input, target, weight=None, reduction='mean', thr=0):
-- 
2.43.0


From d39e1dd4053396dd5ad50c532f49063bd0ccffff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 072/125] fix: model checkpoints: mode and period were ignored

---
 hyperion/keras/callbacks/checkpointers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/callbacks/checkpointers.py b/hyperion/keras/callbacks/checkpointers.py
index 5318333..37ccbca 100644
--- a/hyperion/keras/callbacks/checkpointers.py
+++ b/hyperion/keras/callbacks/checkpointers.py
@@ -16,7 +16,7 @@ class HypModelCheckpoint(ModelCheckpoint):
                  mode='auto', period=1):
         super(HypModelCheckpoint, self).__init__(
             filepath, monitor, verbose,
-            save_best_only, False, mode='auto', period=1)
+            save_best_only, False, mode=mode, period=period)
         self.hyp_model = model
 
     
-- 
2.43.0


From e6e5a9aff92888c136a66f7eb783a0577207d9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 073/125] fix: ReduceLROnPlateauIncreaseOnImprovement: wrong
 names prevent its creation

---
 hyperion/keras/callbacks/lr_schedulers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/callbacks/lr_schedulers.py b/hyperion/keras/callbacks/lr_schedulers.py
index 1b11d01..3b7efdc 100644
--- a/hyperion/keras/callbacks/lr_schedulers.py
+++ b/hyperion/keras/callbacks/lr_schedulers.py
@@ -5,6 +5,9 @@ from __future__ import division
 from six.moves import xrange
 
 import logging
+import warnings
+
+import numpy as np
 
 import keras.backend as K
 from keras.callbacks import Callback
@@ -70,10 +73,10 @@ class ReduceLROnPlateauIncreaseOnImprovement(Callback):
     def __init__(self, monitor='val_loss', red_factor=0.1, inc_factor=1.1, patience=10,
                  mode='auto', min_delta=1e-4, cooldown=0, min_lr=0,
                  **kwargs):
-        super(ReduceLROnPlateau, self).__init__()
+        super(ReduceLROnPlateauIncreaseOnImprovement, self).__init__()
 
         self.monitor = monitor
-        if factor >= 1.0:
+        if red_factor >= 1.0:
             raise ValueError('ReduceLROnPlateau '
                              'does not support a factor >= 1.0.')
         if 'epsilon' in kwargs:
-- 
2.43.0


From d86d8eb8db4eb6d5502065f84b49e4753c25fa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:34 +0000
Subject: [PATCH 074/125] fix: binary accuracy with logits: default threshold
 of the class was a probability

---
 hyperion/torch/metrics/accuracy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/metrics/accuracy.py b/hyperion/torch/metrics/accuracy.py
index e46e674..8780f5a 100644
--- a/hyperion/torch/metrics/accuracy.py
+++ b/hyperion/torch/metrics/accuracy.py
@@ -36,7 +36,7 @@ class BinaryAccuracy(TorchMetric):
 
 class BinaryAccuracyWithLogits(TorchMetric):
 
-    def __init__(self, weight=None, reduction='mean', thr=0.5):
+    def __init__(self, weight=None, reduction='mean', thr=0):
         super(BinaryAccuracyWithLogits, self).__init__(
             weight=weight, reduction=reduction)
         self.thr = thr
-- 
2.43.0


From 08b4e919cf5f4e22377db1b34632d3bc43b2ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:30 +0000
Subject: [PATCH 075/125] fix: keras optimizer factory: option amsgrad was
 ignored

---
 hyperion/keras/helpers/optimizer_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/helpers/optimizer_factory.py b/hyperion/keras/helpers/optimizer_factory.py
index 1a72233..fff26f8 100644
--- a/hyperion/keras/helpers/optimizer_factory.py
+++ b/hyperion/keras/helpers/optimizer_factory.py
@@ -43,7 +43,7 @@ class OptimizerFactory(object):
             p = prefix + '_'
         valid_args = ('opt_type', 'lr', 'momentum', 'lr_decay',
                       'rho', 'epsilon', 'beta_1', 'beta_2',
-                      'clipnorm', 'clipvalue')
+                      'clipnorm', 'clipvalue', 'amsgrad')
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
     
-- 
2.43.0


From 76b2fd8c23902e89880943f587506436bc91e290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:15 +0000
Subject: [PATCH 076/125] fix: embeddings of sequences in chunks keep every
 frame at its place and see nothing of the previous chunk

The frames of a chunk after the first were written shifted by the left context, the input behind the end of the last chunk was the one of the previous chunk, and SeqQEmbed dropped utterances much shorter than a chunk.
---
 hyperion/keras/embed/seq_embed.py     |  7 +++++--
 hyperion/keras/embed/seq_embed_lde.py |  7 +++++--
 hyperion/keras/embed/seq_q_embed.py   | 11 +++++++----
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/hyperion/keras/embed/seq_embed.py b/hyperion/keras/embed/seq_embed.py
index 293f001..426cdcb 100644
--- a/hyperion/keras/embed/seq_embed.py
+++ b/hyperion/keras/embed/seq_embed.py
@@ -228,13 +228,16 @@ class SeqEmbed(HypModel):
         j_out = 0
         for i in xrange(num_batches):
             k_in = min(j_in+in_seq_length, in_length)
-            k_out = min(j_out+pool_seq_length, pool_length)
+            # the frames of the left context come from the previous chunk
+            l_ctx = 0 if i == 0 else pool_left_context
+            k_out = min(j_out+pool_seq_length-l_ctx, pool_length)
             l_in = k_in - j_in
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
+            x_i[0,l_in:] = 0
             y_i = self.enc_net.predict(x_i, batch_size=1, **kwargs)[0]
-            y[j_out:k_out] = y_i[:l_out]
+            y[j_out:k_out] = y_i[l_ctx:l_ctx+l_out]
 
             j_in += in_shift
             j_out += pool_shift
diff --git a/hyperion/keras/embed/seq_embed_lde.py b/hyperion/keras/embed/seq_embed_lde.py
index a0c2a04..73b0677 100644
--- a/hyperion/keras/embed/seq_embed_lde.py
+++ b/hyperion/keras/embed/seq_embed_lde.py
@@ -243,13 +243,16 @@ class SeqEmbedLDE(HypModel):
         j_out = 0
         for i in xrange(num_batches):
             k_in = min(j_in+in_seq_length, in_length)
-            k_out = min(j_out+pool_seq_length, pool_length)
+            # the frames of the left context come from the previous chunk
+            l_ctx = 0 if i == 0 else pool_left_context
+            k_out = min(j_out+pool_seq_length-l_ctx, pool_length)
             l_in = k_in - j_in
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
+            x_i[0,l_in:] = 0
             y_i = self.enc_net.predict(x_i, batch_size=1, **kwargs)[0]
-            y[j_out:k_out] = y_i[:l_out]
+            y[j_out:k_out] = y_i[l_ctx:l_ctx+l_out]
 
             j_in += in_shift
             j_out += pool_shift
diff --git a/hyperion/keras/embed/seq_q_embed.py b/hyperion/keras/embed/seq_q_embed.py
index 51f5529..f6830ef 100644
--- a/hyperion/keras/embed/seq_q_embed.py
+++ b/hyperion/keras/embed/seq_q_embed.py
@@ -217,20 +217,23 @@ class SeqQEmbed(HypModel):
         mask[0,:pool_begin_context] = 0
         mask[0,pool_length - pool_end_context:] = 0
 
-        num_batches = int(np.ceil((in_length-in_seq_length)/in_shift+1))
+        num_batches = max(int(np.ceil((in_length-in_seq_length)/in_shift+1)), 1)
         x_i = np.zeros((1,in_seq_length, x.shape[-1]), dtype=float_keras())
         j_in = 0
         j_out = 0
         for i in xrange(num_batches):
             k_in = min(j_in+in_seq_length, in_length)
-            k_out = min(j_out+pool_seq_length, pool_length)
+            # the frames of the left context come from the previous chunk
+            l_ctx = 0 if i == 0 else pool_left_context
+            k_out = min(j_out+pool_seq_length-l_ctx, pool_length)
             l_in = k_in - j_in
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
+            x_i[0,l_in:] = 0
             p1_i, p2_i = self.prepool_net.predict(x_i, batch_size=1, **kwargs)
-            p1[j_out:k_out] = p1_i[0,:l_out]
-            p2[j_out:k_out] = p2_i[0,:l_out]
+            p1[j_out:k_out] = p1_i[0,l_ctx:l_ctx+l_out]
+            p2[j_out:k_out] = p2_i[0,l_ctx:l_ctx+l_out]
             
             j_in += in_shift
             j_out += pool_shift
-- 
2.43.0


From afdf571210114b01fb5ffffde7cca58b19ba2396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:16 +0000
Subject: [PATCH 077/125] fix: SeqQEmbed extracts embeddings with the frame
 correlation penalty it was trained with

---
 hyperion/keras/embed/seq_q_embed.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/embed/seq_q_embed.py b/hyperion/keras/embed/seq_q_embed.py
index f6830ef..0e26984 100644
--- a/hyperion/keras/embed/seq_q_embed.py
+++ b/hyperion/keras/embed/seq_q_embed.py
@@ -184,7 +184,8 @@ class SeqQEmbed(HypModel):
         q_embed = GlobalDiagNormalPostStdPriorPooling1D(
             in_fmt=self.pooling_input,
             out_fmt=pooling_output,
-            min_var=self.min_var, name='pooling')(
+            min_var=self.min_var, frame_corr_penalty=self.frame_corr_penalty,
+            name='pooling')(
                 [p1_frame_embed, p2_frame_embed, mask])
         
         self.pool_net = Model([p1_frame_embed, p2_frame_embed, mask], q_embed)
@@ -254,7 +255,8 @@ class SeqQEmbed(HypModel):
         q_embed = GlobalDiagNormalPostStdPriorPooling1D(
             in_fmt=self.pooling_input,
             out_fmt=self.pooling_output,
-            min_var=self.min_var, name='pooling')(
+            min_var=self.min_var, frame_corr_penalty=self.frame_corr_penalty,
+            name='pooling')(
                 [p1_frame_embed, p2_frame_embed, mask])
 
         score = self.score_net(q_embed)
-- 
2.43.0


From 4b1ce0331a525e9b11be8732eb7ea54b05f5ed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:25 +0000
Subject: [PATCH 078/125] fix: SeqQEmbed builds networks whose encoder
 downsamples

---
 hyperion/keras/embed/seq_q_embed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/embed/seq_q_embed.py b/hyperion/keras/embed/seq_q_embed.py
index 0e26984..883c051 100644
--- a/hyperion/keras/embed/seq_q_embed.py
+++ b/hyperion/keras/embed/seq_q_embed.py
@@ -12,7 +12,7 @@ import numpy as np
 from keras import backend as K
 from keras import optimizers
 from keras import objectives
-from keras.layers import Input, Concatenate, Activation
+from keras.layers import Input, Concatenate, Activation, MaxPooling1D
 from keras.models import Model, load_model, model_from_json
 
 from .. import objectives as hyp_obj
-- 
2.43.0


From 6eeb46595030ed710945ba2ccf5af6a4a4afcf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:25 +0000
Subject: [PATCH 079/125] fix: the option that chooses log-variances as output
 of the posterior pooling can be given

---
 hyperion/bin/keras-extract-seq-q-embed.py      | 2 +-
 hyperion/bin/keras-extract-tied-vae-embed.py   | 2 +-
 hyperion/bin/keras-train-cat-seq-meta-embed.py | 4 ++--
 hyperion/keras/embed/seq_q_embed.py            | 4 ++--
 hyperion/keras/vae/tied_dvae_qy.py             | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyperion/bin/keras-extract-seq-q-embed.py b/hyperion/bin/keras-extract-seq-q-embed.py
index 5e0a2a6..2129c81 100755
--- a/hyperion/bin/keras-extract-seq-q-embed.py
+++ b/hyperion/bin/keras-extract-seq-q-embed.py
@@ -105,7 +105,7 @@ if __name__ == "__main__":
                         default='mean+var',
                         choices=['nat+logvar', 'nat+logprec',
                                  'nat+var', 'nat+prec',
-                                 'mean+logar', 'mean+logprec',
+                                 'mean+logvar', 'mean+logprec',
                                  'mean+var', 'mean+prec'])
     parser.add_argument('--write-format', dest='write_format',
                         default='p1',
diff --git a/hyperion/bin/keras-extract-tied-vae-embed.py b/hyperion/bin/keras-extract-tied-vae-embed.py
index 3b75603..5b49f08 100755
--- a/hyperion/bin/keras-extract-tied-vae-embed.py
+++ b/hyperion/bin/keras-extract-tied-vae-embed.py
@@ -104,7 +104,7 @@ if __name__ == "__main__":
                         default='mean+var',
                         choices=['nat+logvar', 'nat+logprec',
                                  'nat+var', 'nat+prec',
-                                 'mean+logar', 'mean+logprec',
+                                 'mean+logvar', 'mean+logprec',
                                  'mean+var', 'mean+prec'])
     parser.add_argument('--write-format', dest='write_format',
                         default='p1',
diff --git a/hyperion/bin/keras-train-cat-seq-meta-embed.py b/hyperion/bin/keras-train-cat-seq-meta-embed.py
index b62d153..fcae01c 100755
--- a/hyperion/bin/keras-train-cat-seq-meta-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-meta-embed.py
@@ -144,8 +144,8 @@ if __name__ == "__main__":
                         choices=['nat+logitvar', 'nat+logprec-1', 'nat+logvar', 'nat+logprec', 'nat+var', 'nat+prec', 'nat+prec-1',
                                  'mean+logitvar', 'mean+logprec-1', 'mean+logvar', 'mean+logprec', 'mean+var', 'mean+prec', 'mean+prec-1'])
     parser.add_argument('--pooling-output', dest='pooling_output', default='nat+prec',
-                        choices=['nat+logar', 'nat+logprec', 'nat+var', 'nat+prec',
-                                 'mean+logar', 'mean+logprec', 'mean+var', 'mean+prec'])
+                        choices=['nat+logvar', 'nat+logprec', 'nat+var', 'nat+prec',
+                                 'mean+logvar', 'mean+logprec', 'mean+var', 'mean+prec'])
     
     parser.add_argument('--min-var',dest='min_var',default=0.9,type=float,
                         help=('Minimum frame variance (default: %(default)s)'))
diff --git a/hyperion/keras/embed/seq_q_embed.py b/hyperion/keras/embed/seq_q_embed.py
index 883c051..f7b0b34 100644
--- a/hyperion/keras/embed/seq_q_embed.py
+++ b/hyperion/keras/embed/seq_q_embed.py
@@ -367,9 +367,9 @@ class SeqQEmbed(HypModel):
                                      'mean+var', 'mean+prec', 'mean+prec-1'])
         parser.add_argument(p1+'pooling-output', dest=p2+'pooling_output',
                             default='nat+prec',
-                            choices=['nat+logar', 'nat+logprec',
+                            choices=['nat+logvar', 'nat+logprec',
                                      'nat+var', 'nat+prec',
-                                     'mean+logar', 'mean+logprec',
+                                     'mean+logvar', 'mean+logprec',
                                      'mean+var', 'mean+prec'])
     
         parser.add_argument(p1+'min-var', dest=p2+'min_var', default=0.9, type=float,
diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index bd5fb68..78369cb 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -354,9 +354,9 @@ class TiedDVAE_QY(HypModel):
                                      'mean+var', 'mean+prec', 'mean+prec-1'])
         parser.add_argument(p1+'pooling-output', dest=p2+'pooling_output',
                             default='mean+var',
-                            choices=['nat+logar', 'nat+logprec',
+                            choices=['nat+logvar', 'nat+logprec',
                                      'nat+var', 'nat+prec',
-                                     'mean+logar', 'mean+logprec',
+                                     'mean+logvar', 'mean+logprec',
                                      'mean+var', 'mean+prec'])
     
         parser.add_argument(p1+'min-var', dest=p2+'min_var', default=0.9, type=float,
-- 
2.43.0


From 7ecb35e0669de57a92aea4571237412f80621379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:25 +0000
Subject: [PATCH 080/125] fix: SeqQEmbed and SeqMetaEmbed can be trained with
 fit

---
 hyperion/keras/embed/seq_meta_embed.py | 2 +-
 hyperion/keras/embed/seq_q_embed.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/embed/seq_meta_embed.py b/hyperion/keras/embed/seq_meta_embed.py
index 68a2c99..a6a6596 100644
--- a/hyperion/keras/embed/seq_meta_embed.py
+++ b/hyperion/keras/embed/seq_meta_embed.py
@@ -134,7 +134,7 @@ class SeqMetaEmbed(HypModel):
 
     
     
-    def fit(**kwargs):
+    def fit(self, **kwargs):
         self.model.fit(**kwargs)
 
 
diff --git a/hyperion/keras/embed/seq_q_embed.py b/hyperion/keras/embed/seq_q_embed.py
index f7b0b34..d9ae5f2 100644
--- a/hyperion/keras/embed/seq_q_embed.py
+++ b/hyperion/keras/embed/seq_q_embed.py
@@ -270,7 +270,7 @@ class SeqQEmbed(HypModel):
 
 
     
-    def fit(**kwargs):
+    def fit(self, **kwargs):
         self.model.fit(**kwargs)
 
 
-- 
2.43.0


From 734ab185df3112ca682edd88ee6b9c36db268d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:25 +0000
Subject: [PATCH 081/125] fix: SeqMetaEmbed names the formats of its pooling as
 the layer does

---
 hyperion/keras/embed/seq_meta_embed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/embed/seq_meta_embed.py b/hyperion/keras/embed/seq_meta_embed.py
index a6a6596..fb2216a 100644
--- a/hyperion/keras/embed/seq_meta_embed.py
+++ b/hyperion/keras/embed/seq_meta_embed.py
@@ -56,8 +56,8 @@ class SeqMetaEmbed(HypModel):
         frame_embed = self.embed_net1(x)
 
         meta_embed = GlobalDiagNormalPostStdPriorPooling1D(
-            input_format=self.pooling_input,
-            output_format=self.pooling_output,
+            in_fmt=self.pooling_input,
+            out_fmt=self.pooling_output,
             min_var=self.min_var, name='pooling')(frame_embed+[mask])
 
         if self.score_net is None:
-- 
2.43.0


From 6608f90011eff034112265a9858193b41f49b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:46 +0000
Subject: [PATCH 082/125] fix: posteriors of sequences in chunks of the tied
 VAEs keep every frame at its place and see nothing of the previous chunk

The frames of a chunk after the first were written shifted by the left context, the input behind the end of the last chunk was the one of the previous chunk, and utterances much shorter than a chunk were dropped.
---
 hyperion/keras/vae/tied_dvae_qy.py        | 11 +++++++----
 hyperion/keras/vae/tied_sup_vae_qyqzgy.py | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index 78369cb..71e890b 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -209,20 +209,23 @@ class TiedDVAE_QY(HypModel):
         mask[0,:pool_begin_context] = 0
         mask[0,pool_length - pool_end_context:] = 0
 
-        num_batches = int(np.ceil((in_length-in_seq_length)/in_shift+1))
+        num_batches = max(int(np.ceil((in_length-in_seq_length)/in_shift+1)), 1)
         x_i = np.zeros((1,in_seq_length, x.shape[-1]), dtype=float_keras())
         j_in = 0
         j_out = 0
         for i in xrange(num_batches):
             k_in = min(j_in+in_seq_length, in_length)
-            k_out = min(j_out+pool_seq_length, pool_length)
+            # the frames of the left context come from the previous chunk
+            l_ctx = 0 if i == 0 else pool_left_context
+            k_out = min(j_out+pool_seq_length-l_ctx, pool_length)
             l_in = k_in - j_in
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
+            x_i[0,l_in:] = 0
             p1_i, p2_i = self.qy_net.predict(x_i, batch_size=1, **kwargs)
-            p1[j_out:k_out] = p1_i[0,:l_out]
-            p2[j_out:k_out] = p2_i[0,:l_out]
+            p1[j_out:k_out] = p1_i[0,l_ctx:l_ctx+l_out]
+            p2[j_out:k_out] = p2_i[0,l_ctx:l_ctx+l_out]
             
             j_in += in_shift
             j_out += pool_shift
diff --git a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
index 573011c..2dcde36 100644
--- a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
+++ b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
@@ -295,20 +295,23 @@ class TiedSupVAE_QYQZgY(HypModel):
         mask[0,:pool_begin_context] = 0
         mask[0,pool_length - pool_end_context:] = 0
 
-        num_batches = int(np.ceil((in_length-in_seq_length)/in_shift+1))
+        num_batches = max(int(np.ceil((in_length-in_seq_length)/in_shift+1)), 1)
         x_i = np.zeros((1,in_seq_length, x.shape[-1]), dtype=float_keras())
         j_in = 0
         j_out = 0
         for i in xrange(num_batches):
             k_in = min(j_in+in_seq_length, in_length)
-            k_out = min(j_out+pool_seq_length, pool_length)
+            # the frames of the left context come from the previous chunk
+            l_ctx = 0 if i == 0 else pool_left_context
+            k_out = min(j_out+pool_seq_length-l_ctx, pool_length)
             l_in = k_in - j_in
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
+            x_i[0,l_in:] = 0
             p1_i, p2_i = self.qy_net.predict(x_i, batch_size=1, **kwargs)
-            p1[j_out:k_out] = p1_i[0,:l_out]
-            p2[j_out:k_out] = p2_i[0,:l_out]
+            p1[j_out:k_out] = p1_i[0,l_ctx:l_ctx+l_out]
+            p2[j_out:k_out] = p2_i[0,l_ctx:l_ctx+l_out]
             
             j_in += in_shift
             j_out += pool_shift
-- 
2.43.0


From a7be339a80655728c9b8d414df2ec3aa22b629d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:46 +0000
Subject: [PATCH 083/125] fix: the tied VAEs build networks whose encoder
 downsamples

---
 hyperion/keras/vae/tied_dvae_qy.py        | 2 +-
 hyperion/keras/vae/tied_sup_vae_qyqzgy.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index 71e890b..75213a8 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -13,7 +13,7 @@ import numpy as np
 from keras import backend as K
 from keras import optimizers
 from keras import objectives
-from keras.layers import Input, Concatenate, Activation
+from keras.layers import Input, Concatenate, Activation, MaxPooling1D
 from keras.models import Model, load_model, model_from_json
 
 from .. import objectives as hyp_obj
diff --git a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
index 2dcde36..f0221af 100644
--- a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
+++ b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
@@ -16,7 +16,7 @@ import numpy as np
 from keras import backend as K
 from keras import optimizers
 from keras import objectives
-from keras.layers import Input, Concatenate, Activation, Reshape
+from keras.layers import Input, Concatenate, Activation, Reshape, MaxPooling1D
 from keras.models import Model, load_model, model_from_json
 
 from ..losses import *
-- 
2.43.0


From b7b080e540c7e285ca794ef3291225f7ea75d3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:46 +0000
Subject: [PATCH 084/125] fix: the tied VAEs extract posteriors with the frame
 correlation penalty they were trained with

---
 hyperion/keras/vae/tied_dvae_qy.py        | 6 ++++--
 hyperion/keras/vae/tied_sup_vae_qyqzgy.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index 75213a8..61a17f3 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -176,7 +176,8 @@ class TiedDVAE_QY(HypModel):
         q_embed = GlobalDiagNormalPostStdPriorPooling1D(
             in_fmt=self.pooling_input,
             out_fmt=pooling_output,
-            min_var=self.min_var, name='pooling')(
+            min_var=self.min_var, frame_corr_penalty=self.frame_corr_penalty,
+            name='pooling')(
                 [p1_frame_embed, p2_frame_embed, mask])
         
         self.pool_net = Model([p1_frame_embed, p2_frame_embed, mask], q_embed)
@@ -246,7 +247,8 @@ class TiedDVAE_QY(HypModel):
         q_embed = GlobalNormalDiagCovPostStdPriorPooling1D(
             in_fmt=self.pooling_input,
             out_fmt=self.pooling_output,
-            min_var=self.min_var, name='pooling')(
+            min_var=self.min_var, frame_corr_penalty=self.frame_corr_penalty,
+            name='pooling')(
                 [p1_frame_embed, p2_frame_embed, mask])
 
         score = self.pt_net(q_embed)
diff --git a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
index f0221af..feb9fab 100644
--- a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
+++ b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
@@ -262,7 +262,8 @@ class TiedSupVAE_QYQZgY(HypModel):
         qy = GlobalDiagNormalPostStdPriorPooling1D(
             in_fmt=self.qy_pool_in_fmt,
             out_fmt=qy_pool_out_fmt,
-            min_var=self.qy_min_var, name='pooling')(
+            min_var=self.qy_min_var, frame_corr_penalty=self.frame_corr_penalty,
+            name='pooling')(
                 [p1_frame_qy, p2_frame_qy, mask])
         
         self.pool_net = Model([p1_frame_qy, p2_frame_qy, mask], qy)
@@ -332,7 +333,8 @@ class TiedSupVAE_QYQZgY(HypModel):
         qy = GlobalDiagNormalPostStdPriorPooling1D(
             in_fmt=self.qy_pool_in_fmt,
             out_fmt=self.qy_pool_out_fmt,
-            min_var=self.qy_min_var, name='pooling')(
+            min_var=self.qy_min_var, frame_corr_penalty=self.frame_corr_penalty,
+            name='pooling')(
                 [p1_frame_qy, p2_frame_qy, mask])
         y = NormalDiagCovSampler(in_fmt=self.qy_pool_out_fmt, name='qy_sampling')(qy)
         pt = self.pt_net(y)
-- 
2.43.0


From f2b0442fcb5e1dfb5c40423746fbbb2d17e8adea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:46 +0000
Subject: [PATCH 085/125] fix: a saved TiedDVAE_QY can be loaded, with its loss

---
 hyperion/keras/vae/tied_dvae_qy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index 61a17f3..662b080 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -313,12 +313,12 @@ class TiedDVAE_QY(HypModel):
         file_model = '%s.pt.h5' % (file_path)
         pt_net = load_model(file_model, custom_objects=get_keras_custom_obj())
 
-        filter_args = ('post_pdf', 'pooling_input', 'pooling_output',
+        filter_args = ('loss', 'post_pdf', 'pooling_input', 'pooling_output',
                        'left_context', 'right_context',
                        'begin_context', 'end_context',
                        'min_var', 'kl_weight', 'frame_corr_penalty', 'name')
         kwargs = {k: config[k] for k in filter_args if k in config }
-        return cls(qy_net, config['num_classes'], pt_net, **kwargs)
+        return cls(qy_net, pt_net, **kwargs)
 
     
     
-- 
2.43.0


From 44d2908521e86f2abd471db52b8fc28316d4fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:46 +0000
Subject: [PATCH 086/125] fix: TiedDVAE_QY can be trained with fit

---
 hyperion/keras/vae/tied_dvae_qy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index 662b080..6b31ceb 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -262,7 +262,7 @@ class TiedDVAE_QY(HypModel):
 
 
     
-    def fit(**kwargs):
+    def fit(self, **kwargs):
         self.model.fit(**kwargs)
 
 
-- 
2.43.0


From eda18f49c64a410c313d601a03f7bbbdf79e47c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:46 +0000
Subject: [PATCH 087/125] fix: TiedDVAE_QY.build_eval classifies a sample of
 the posterior, as in training

It gave the two parameters of the posterior to a network with one input.
---
 hyperion/keras/vae/tied_dvae_qy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index 6b31ceb..9a270c3 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -251,7 +251,8 @@ class TiedDVAE_QY(HypModel):
             name='pooling')(
                 [p1_frame_embed, p2_frame_embed, mask])
 
-        score = self.pt_net(q_embed)
+        y = NormalDiagCovSampler(in_fmt=self.pooling_output, name='sampling')(q_embed)
+        score = self.pt_net(y)
         self.pool_net = Model([p1_frame_embed, p2_frame_embed, mask], score)
         self.pool_net.summary()
 
-- 
2.43.0


From cf26d923aa8d13585d76dd86ca6746a295792ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:46 +0000
Subject: [PATCH 088/125] fix: TiedSupVAE_QYQZgY builds without network of
 classes

---
 hyperion/keras/vae/tied_sup_vae_qyqzgy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
index feb9fab..41148df 100644
--- a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
+++ b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
@@ -209,9 +209,9 @@ class TiedSupVAE_QYQZgY(HypModel):
         else:
             y = NormalDiagCovSampler(in_fmt=self.qy_pool_out_fmt, name='qy_sampling_2')(qy)
             pt = self.pt_net(y)
+            logging.debug(K.int_shape(pt))
             self.model = Model(x, [px, pt, kl_qy, kl_qz])
         logging.debug(K.int_shape(self.model.outputs[-1]))
-        logging.debug(K.int_shape(pt))
         self.model.summary()
 
 
-- 
2.43.0


From fe76982234cba2dca39b15a4e47601f97bd2317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:46 +0000
Subject: [PATCH 089/125] fix: TiedSupVAE_QYQZgY.predict_pt called a method
 that does not exist

---
 hyperion/keras/vae/tied_sup_vae_qyqzgy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
index 41148df..dbed3ec 100644
--- a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
+++ b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
@@ -344,7 +344,7 @@ class TiedSupVAE_QYQZgY(HypModel):
 
 
     def predict_pt(self, x, **kwargs):
-        return self.predict_qy(x, **kwargs)
+        return self.compute_qy(x, **kwargs)
 
 
     
-- 
2.43.0


From afec744acc501bbe2f9da1e8930ee70c5b7dc4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:46 +0000
Subject: [PATCH 090/125] fix: TiedSupVAE_QYQZgY generates samples

sample_given_yz and sample used names that do not exist.
---
 hyperion/keras/vae/tied_sup_vae_qyqzgy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
index dbed3ec..7e4bec6 100644
--- a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
+++ b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
@@ -392,7 +392,7 @@ class TiedSupVAE_QYQZgY(HypModel):
         y_input = Input(shape=(self.max_seq_length, self.y_dim,))
         z_input = Input(shape=(self.max_seq_length, self.z_dim,))
 
-        px = self.px_net([y_input, z_input, r_input])
+        px = self.px_net([y_input, z_input])
         if self.px_form == 'bernoulli' :
             x_sample = BernoulliSampler(name='x_sampler')(px)
         elif self.px_form == 'normal_diag_cov' :
@@ -406,7 +406,7 @@ class TiedSupVAE_QYQZgY(HypModel):
 
     def sample(self, num_seqs, seq_length, batch_size):
         y = np.random.normal(loc=0.,scale=1.,size=(num_seqs, 1, self.y_dim))
-        z = np.random.normal(loc=0.,scale=1.,size=(num_seqs, num_samples, self.z_dim))
+        z = np.random.normal(loc=0.,scale=1.,size=(num_seqs, seq_length, self.z_dim))
         return self.sample_given_yz(y, z, batch_size)
 
 
-- 
2.43.0


From 4da0938719d4e758da0d1e171aa127911d9cc886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:46 +0000
Subject: [PATCH 091/125] fix: keras-extract-tied-vae-embed ignored the option
 --pooling-output

---
 hyperion/bin/keras-extract-tied-vae-embed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/keras-extract-tied-vae-embed.py b/hyperion/bin/keras-extract-tied-vae-embed.py
index 5b49f08..0b12e8c 100755
--- a/hyperion/bin/keras-extract-tied-vae-embed.py
+++ b/hyperion/bin/keras-extract-tied-vae-embed.py
@@ -49,7 +49,7 @@ def extract_embed(seq_file, model_file, preproc_file, output_path,
 
     model = TVAE.load(model_file)
     model.build(max_seq_length)
-    model.build_qy('mean+var')
+    model.build_qy(pooling_output)
     y_dim = model.embed_dim
 
     _, seq_lengths = sr.read_num_rows()
-- 
2.43.0


From 255c05d6a9623bbc1a27f666be5acdbb3b3c99a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:15 +0000
Subject: [PATCH 092/125] fix: normal samplers accept the precisions that the
 poolings of the tied VAEs give

The options of the VAEs offer prec and logprec as output of the pooling, the sampler behind it refused them.
---
 hyperion/keras/layers/sampling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperion/keras/layers/sampling.py b/hyperion/keras/layers/sampling.py
index 8d4ad14..53b2675 100644
--- a/hyperion/keras/layers/sampling.py
+++ b/hyperion/keras/layers/sampling.py
@@ -152,6 +152,10 @@ class NormalDiagCovSampler(Sampler):
             return K.sqrt(K.abs(p))
         if self.in_fmt[1] == 'logvar':
             return K.exp(p/2)
+        if self.in_fmt[1] == 'prec':
+            return 1/K.sqrt(K.abs(p))
+        if self.in_fmt[1] == 'logprec':
+            return K.exp(-p/2)
 
         raise NotImplementedError('Format %s not implemented' % self.in_fmt[1])
 
-- 
2.43.0


From 6aff63902e50d9d456cf96f7f01a366b34db4cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:15 +0000
Subject: [PATCH 093/125] fix: nllk_bernoulli gave the arguments of the cross
 entropy in the wrong order

The target comes first since Keras 2.0.7, as in nllk_categorical.
---
 hyperion/keras/losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/losses.py b/hyperion/keras/losses.py
index 0222d2d..77be65a 100644
--- a/hyperion/keras/losses.py
+++ b/hyperion/keras/losses.py
@@ -31,7 +31,7 @@ def nllk_bernoulli(y_true, y_pred, time_norm=True):
     T = 1
     if not time_norm:
         T = get_seq_length(y_true)
-    return T*K.sum(K.binary_crossentropy(y_pred, y_true), axis=-1)
+    return T*K.sum(K.binary_crossentropy(y_true, y_pred), axis=-1)
 
 
 def nllk_normal_diag_cov(y_true, y_pred, time_norm=True):
-- 
2.43.0


From 788d1646f9fec8384942f189c24e2848cc21fd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:15 +0000
Subject: [PATCH 094/125] fix: losses of sequences without time normalization
 failed for categorical and bernoulli outputs

The lengths of the sequences (batch) were multiplied by losses of the shape (batch, time).
---
 hyperion/keras/losses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/losses.py b/hyperion/keras/losses.py
index 77be65a..60976d9 100644
--- a/hyperion/keras/losses.py
+++ b/hyperion/keras/losses.py
@@ -23,14 +23,14 @@ def get_seq_length(x):
 def nllk_categorical(y_true, y_pred, time_norm=True):
     T = 1
     if not time_norm:
-        T = get_seq_length(y_true)
+        T = K.expand_dims(get_seq_length(y_true), axis=-1)
     return T*K.categorical_crossentropy(y_true, y_pred)
 
 
 def nllk_bernoulli(y_true, y_pred, time_norm=True):
     T = 1
     if not time_norm:
-        T = get_seq_length(y_true)
+        T = K.expand_dims(get_seq_length(y_true), axis=-1)
     return T*K.sum(K.binary_crossentropy(y_true, y_pred), axis=-1)
 
 
-- 
2.43.0


From f8b12f6d578872cfbbf53faf7b28c90a2fb1d128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:37 +0000
Subject: [PATCH 095/125] fix: maximum of the valid frames was 0 when all of
 them are negative

With TensorFlow the masked frames were multiplied by 0 after they had been excluded; masks without the last dimension failed.
---
 hyperion/keras/backend_addons/tensorflow_backend.py | 2 +-
 hyperion/keras/layers/pooling.py                    | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/keras/backend_addons/tensorflow_backend.py b/hyperion/keras/backend_addons/tensorflow_backend.py
index 67cc666..dc55568 100644
--- a/hyperion/keras/backend_addons/tensorflow_backend.py
+++ b/hyperion/keras/backend_addons/tensorflow_backend.py
@@ -22,7 +22,7 @@ def tile(x, n):
 
 def max_with_mask(x, mask, axis=None, keepdims=False):
     y = x - 1e10 * (1-mask)
-    return tf.reduce_max(y*mask, axis=axis, keepdims=keepdims)
+    return tf.reduce_max(y, axis=axis, keepdims=keepdims)
 
 
 
diff --git a/hyperion/keras/layers/pooling.py b/hyperion/keras/layers/pooling.py
index 4659405..25356dc 100644
--- a/hyperion/keras/layers/pooling.py
+++ b/hyperion/keras/layers/pooling.py
@@ -33,6 +33,9 @@ class GlobalMaskedMaxPooling1D(Layer):
     
     def call(self, xw, mask=None):
         x, weights = xw
+        if K.ndim(weights) == 2:
+            weights = K.expand_dims(weights, axis=-1)
+
         return K2.max_with_mask(x, weights, axis=1)
 
     
-- 
2.43.0


From da8f539a55132cd04d2e64382da3d40a0776adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:37 +0000
Subject: [PATCH 096/125] fix: layers that insert a dimension: ExpandDim could
 not be made, ExpandAndTile could not be called, shapes with negative axes

---
 hyperion/keras/layers/tensor_manipulation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hyperion/keras/layers/tensor_manipulation.py b/hyperion/keras/layers/tensor_manipulation.py
index 48cedb9..4235032 100644
--- a/hyperion/keras/layers/tensor_manipulation.py
+++ b/hyperion/keras/layers/tensor_manipulation.py
@@ -51,14 +51,15 @@ class ExpandAndTile(Layer):
 
     def compute_output_shape(self, input_shape):
         output_shape=list(input_shape)
-        output_shape.insert(self.axis,1)
+        axis = self.axis if self.axis >= 0 else len(output_shape) + 1 + self.axis
+        output_shape.insert(axis,1)
         output_shape[self.axis]*=self.n
         return tuple(output_shape)
 
     
     def call(self, inputs, mask=None):
         t=K.expand_dims(inputs, axis=self.axis)
-        tile_shape=[1]*K.ndims()
+        tile_shape=[1]*K.ndim(t)
         tile_shape[self.axis]=self.n
         return K.tile(t, tuple(tile_shape))
 
@@ -75,13 +76,14 @@ class ExpandDim(Layer):
     '''Expand 1 dimension
     '''
     def __init__(self, axis=-1, **kwargs):
-        super(Expand, self).__init__(**kwargs)
+        super(ExpandDim, self).__init__(**kwargs)
         self.axis = axis
     
 
     def compute_output_shape(self, input_shape):
         output_shape=list(input_shape)
-        output_shape.insert(self.axis,1)
+        axis = self.axis if self.axis >= 0 else len(output_shape) + 1 + self.axis
+        output_shape.insert(axis,1)
         return tuple(output_shape)
 
     
@@ -91,7 +93,7 @@ class ExpandDim(Layer):
     
     def get_config(self):
         config = {'axis': self.axis}
-        base_config = super(ExpandAndTile, self).get_config()
+        base_config = super(ExpandDim, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
     
-- 
2.43.0


From 4c67d8b54f8ba9acca8d92ef64440f1fc88f9d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:37 +0000
Subject: [PATCH 097/125] fix: ExpTaylor could not be made and had wrong
 coefficients

---
 hyperion/keras/layers/core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hyperion/keras/layers/core.py b/hyperion/keras/layers/core.py
index b51ac9f..4785d32 100644
--- a/hyperion/keras/layers/core.py
+++ b/hyperion/keras/layers/core.py
@@ -226,17 +226,16 @@ class Exp(Layer):
 
 
 class ExpTaylor(Layer):
-    def __init__(self, order=1):
+    def __init__(self, order=1, **kwargs):
+        super(ExpTaylor, self).__init__(**kwargs)
         self.order = order
 
         
     def call(self, inputs, mask=None):
         y = inputs + 1
-        f = 1
         xx = inputs
-        for i in xrange(1, self.order):
-            f = i*f
-            xx = xx*inputs/f
+        for i in range(2, self.order+1):
+            xx = xx*inputs/i
             y = y + xx
         return y
     
-- 
2.43.0


From f1ef2b53cb688e1e232e34d3443cfd776d23d9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:37 +0000
Subject: [PATCH 098/125] fix: a saved divergence layer forgot time_norm

---
 hyperion/keras/layers/losses.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/keras/layers/losses.py b/hyperion/keras/layers/losses.py
index ef02447..0a825ea 100644
--- a/hyperion/keras/layers/losses.py
+++ b/hyperion/keras/layers/losses.py
@@ -89,7 +89,8 @@ class KLDivNormalVsStdNormal(Layer):
     def get_config(self):
         config = {'in_fmt': '+'.join(self.in_fmt),
                   'min_kl': self.min_kl,
-                  'beta': self.beta}
+                  'beta': self.beta,
+                  'time_norm': self.time_norm}
         base_config =super(KLDivNormalVsStdNormal, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
-- 
2.43.0


From dd3a8ab132ce67a13349451a658d6fee73650d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:37 +0000
Subject: [PATCH 099/125] fix: KLDivNormalVsDiagNormal could not be called

It has four inputs and one output, as KLDivNormalVsStdNormal.
---
 hyperion/keras/layers/losses.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/keras/layers/losses.py b/hyperion/keras/layers/losses.py
index 0a825ea..04d8f04 100644
--- a/hyperion/keras/layers/losses.py
+++ b/hyperion/keras/layers/losses.py
@@ -105,7 +105,7 @@ class KLDivNormalVsDiagNormal(Layer):
         self.min_kl = min_kl # free bits
         self.beta = beta # annealing
         
-        self.input_spec = [InputSpec(min_ndim=2), InputSpec(min_ndim=2)]
+        self.input_spec = [InputSpec(min_ndim=2) for i in range(4)]
         self.supports_masking = True
     
 
@@ -125,14 +125,14 @@ class KLDivNormalVsDiagNormal(Layer):
             mu2 = p21
 
         beta = K.cast(self.beta, float_keras())
-        kl_div = 1/(2*beta)*K.sum((beta-1)*log2pi + beta*logvar2 - logvar1 - 1 + beta*(K.square(mu1-mu2) + var1)/var2, axis=-1)
+        kl_div = 1/(2*beta)*K.sum((beta-1)*log2pi + beta*logvar2 - logvar1 - 1 + beta*(K.square(mu1-mu2) + var1)/var2, axis=-1, keepdims=True)
         return K.clip(kl_div, self.min_kl, None) 
 
 
     def compute_output_shape(self, input_shape):
-        assert input_shape and len(input_shape) == 2
+        assert input_shape and len(input_shape) == 4
         output_shape = list(input_shape[0])
-        output_shape[-1] = self.units
+        output_shape[-1] = 1
         return tuple(output_shape)
 
 
-- 
2.43.0


From ac2d0bf03d9fa0f7a09e600ceae2a38979c549e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:37 +0000
Subject: [PATCH 100/125] fix: samplers of sequences: announced size of several
 samples, and saved networks with the deprecated ones could not be loaded

---
 hyperion/keras/layers/sampling.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/layers/sampling.py b/hyperion/keras/layers/sampling.py
index 53b2675..9b2fb7f 100644
--- a/hyperion/keras/layers/sampling.py
+++ b/hyperion/keras/layers/sampling.py
@@ -206,6 +206,8 @@ class TiedNormalDiagCovSampler(NormalDiagCovSampler):
         
     def compute_output_shape(self, input_shape):
         output_shape = list(input_shape[0])
+        if output_shape[0] is not None:
+            output_shape[0] *= self.num_samples
         output_shape.insert(1, self.seq_length)
         return tuple(output_shape)
 
@@ -318,6 +320,8 @@ class DiagNormalSamplerFromSeqLevel(DiagNormalSampler):
         
     def compute_output_shape(self, input_shape):
         output_shape = list(input_shape[0])
+        if output_shape[0] is not None:
+            output_shape[0] *= self.num_samples
         output_shape.insert(1, self.seq_length)
         return tuple(output_shape)
 
@@ -342,7 +346,7 @@ class DiagNormalSamplerFromSeqLevel(DiagNormalSampler):
         
     def get_config(self):
         config = {'seq_length': self.seq_length,
-                  'one_sample': self.one_sample}
+                  'one_sample_per_seq': self.one_sample}
         base_config = super(DiagNormalSamplerFromSeqLevel, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
@@ -447,6 +451,8 @@ class NormalSamplerFromSeqLevel(NormalSampler):
         
     def compute_output_shape(self, input_shape):
         output_shape = list(input_shape[0])
+        if output_shape[0] is not None:
+            output_shape[0] *= self.num_samples
         output_shape.insert(1, self.seq_length)
         return tuple(output_shape)
 
@@ -473,7 +479,7 @@ class NormalSamplerFromSeqLevel(NormalSampler):
     
     def get_config(self):
         config = {'seq_length': self.seq_length,
-                  'one_sample': self.one_sample}
+                  'one_sample_per_seq': self.one_sample}
         base_config = super(NormalSamplerFromSeqLevel, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
-- 
2.43.0


From 1c1273da5c097fc7658cf13b8feff95e6f6afcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:54 +0000
Subject: [PATCH 101/125] fix: saved networks with samplers, divergences or
 ExpandDim could not be loaded

The table of layers lacked them.
---
 hyperion/keras/keras_utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hyperion/keras/keras_utils.py b/hyperion/keras/keras_utils.py
index 256bac5..e43a72d 100644
--- a/hyperion/keras/keras_utils.py
+++ b/hyperion/keras/keras_utils.py
@@ -9,7 +9,7 @@ from keras.utils.generic_utils import slice_arrays
 
 
 from .callbacks import *
-from .constraints import Clip
+from .constraints import Clip, Triu
 from .layers.core import *
 from .layers.masking import *
 from .layers.sampling import *
@@ -18,6 +18,7 @@ from .layers.pooling import *
 from .layers.scoring import *
 from .layers.tensor_manipulation import *
 from .layers.feats import *
+from .layers.losses import *
 
 
 def get_keras_custom_obj():
@@ -64,13 +65,21 @@ def get_keras_custom_obj():
         'MultConstCovStdPrior': MultConstCovStdPrior,
         'BernoulliSampler': BernoulliSampler,
         'NormalDiagCovSampler': NormalDiagCovSampler,
+        'TiedNormalDiagCovSampler': TiedNormalDiagCovSampler,
+        'ConvertNormalDiagCovPostStdPriorFmt': ConvertNormalDiagCovPostStdPriorFmt,
         'DiagNormalSampler': DiagNormalSampler,
         'DiagNormalSamplerFromSeqLevel': DiagNormalSamplerFromSeqLevel,
+        'NormalSampler': NormalSampler,
+        'NormalSamplerFromSeqLevel': NormalSamplerFromSeqLevel,
+        'KLDivNormalVsStdNormal': KLDivNormalVsStdNormal,
+        'KLDivNormalVsDiagNormal': KLDivNormalVsDiagNormal,
         'CatQScoringDiagNormalPostStdPrior': CatQScoringDiagNormalPostStdPrior,
         'CatQScoringDiagNormalHomoPostStdPrior': CatQScoringDiagNormalHomoPostStdPrior,
         'Repeat': Repeat,
         'ExpandAndTile': ExpandAndTile,
+        'ExpandDim': ExpandDim,
         'Clip': Clip,
+        'Triu': Triu,
         'DCT': DCT,
         'MelFB': MelFB,
         'Liftering': Liftering}
-- 
2.43.0


From 2b1f5f41ac7bdd160d048b960432614489c12854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:54 +0000
Subject: [PATCH 102/125] fix: evaluation in batches of functions with one
 output failed

---
 hyperion/keras/keras_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/keras_utils.py b/hyperion/keras/keras_utils.py
index e43a72d..b9899e9 100644
--- a/hyperion/keras/keras_utils.py
+++ b/hyperion/keras/keras_utils.py
@@ -336,7 +336,7 @@ def _eval_loop(f, ins, batch_size=32):
         else:
             if batch_index == 0:
                 outs.append(np.zeros((num_sample,)))
-            outs[i][batch_ids] = batch_out
+            outs[0][batch_ids] = batch_outs
 
     if len(outs) == 1:
         return outs[0]
-- 
2.43.0


From 11a15cc8020737aa6d03ffed9ecb55456bbfdb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:54 +0000
Subject: [PATCH 103/125] fix: bernoulli objective gave the arguments of the
 cross entropy in the wrong order

---
 hyperion/keras/objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/objectives.py b/hyperion/keras/objectives.py
index 9c4f030..467117f 100644
--- a/hyperion/keras/objectives.py
+++ b/hyperion/keras/objectives.py
@@ -16,7 +16,7 @@ one=np.exp(0).astype(float_keras())
 
 
 def bernoulli(y_true, y_pred):
-    return K.sum(K.binary_crossentropy(y_pred, y_true), axis=-1)
+    return K.sum(K.binary_crossentropy(y_true, y_pred), axis=-1)
 
 
 def diag_normal(y_true, y_pred):
-- 
2.43.0


From c445545cf2c98b458908f6be79fc79d63f838083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:31 +0000
Subject: [PATCH 104/125] fix: sequence embeddings can be trained without
 validation list

---
 hyperion/bin/keras-train-cat-seq-embed-gen-v1.py     | 4 +++-
 hyperion/bin/keras-train-cat-seq-embed-gen-v2.py     | 4 +++-
 hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
index 38763c5..8923c0e 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
@@ -83,6 +83,7 @@ def train_embed(data_path, train_list, val_list,
            transform=preproc, **sg_args)
     max_length = sg.max_seq_length
     gen_val = None
+    val_steps = None
     if val_list is not None:
         sg_val = G(data_path, val_list,
                     transform=preproc,
@@ -90,6 +91,7 @@ def train_embed(data_path, train_list, val_list,
                     **sg_args)
         max_length = max(max_length, sg_val.max_seq_length)
         gen_val = data_generator(sg_val, max_length)
+        val_steps = sg_val.steps_per_epoch
 
     gen_train = data_generator(sg, max_length)
     
@@ -112,7 +114,7 @@ def train_embed(data_path, train_list, val_list,
     
     h = model.fit_generator(gen_train, validation_data=gen_val,
                             steps_per_epoch=sg.steps_per_epoch,
-                            validation_steps=sg_val.steps_per_epoch,
+                            validation_steps=val_steps,
                             initial_epoch=sg.cur_epoch,
                             epochs=epochs, callbacks=cb, max_queue_size=10)
                           
diff --git a/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py b/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
index 1fe8b59..2390680 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
@@ -81,6 +81,7 @@ def train_embed(data_path, train_list, val_list,
            transform=preproc, **sg_args)
     max_length = sg.max_seq_length
     gen_val = None
+    val_steps = None
     if val_list is not None:
         sg_val = G(data_path, val_list,
                     transform=preproc,
@@ -88,6 +89,7 @@ def train_embed(data_path, train_list, val_list,
                     **sg_args)
         max_length = max(max_length, sg_val.max_seq_length)
         gen_val = data_generator(sg_val, max_length)
+        val_steps = sg_val.steps_per_epoch
 
     sys.stdout.flush()
 
@@ -111,7 +113,7 @@ def train_embed(data_path, train_list, val_list,
     
     h = model.fit_generator(gen_train, validation_data=gen_val,
                             steps_per_epoch=sg.steps_per_epoch,
-                            validation_steps=sg_val.steps_per_epoch,
+                            validation_steps=val_steps,
                             initial_epoch=sg.cur_epoch,
                             epochs=epochs, callbacks=cb, max_queue_size=10)
                           
diff --git a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
index 99b6f7e..6ce5caf 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
@@ -84,6 +84,7 @@ def train_embed(data_path, train_list, val_list,
            transform=preproc, **sg_args)
     max_length = sg.max_seq_length
     gen_val = None
+    val_steps = None
     if val_list is not None:
         sg_val = G(data_path, val_list,
                     transform=preproc,
@@ -91,6 +92,7 @@ def train_embed(data_path, train_list, val_list,
                     **sg_args)
         max_length = max(max_length, sg_val.max_seq_length)
         gen_val = data_generator(sg_val, max_length)
+        val_steps = sg_val.steps_per_epoch
 
     gen_train = data_generator(sg, max_length)
     
@@ -112,7 +114,7 @@ def train_embed(data_path, train_list, val_list,
     
     h = model.fit_generator(gen_train, validation_data=gen_val,
                             steps_per_epoch=sg.steps_per_epoch,
-                            validation_steps=sg_val.steps_per_epoch,
+                            validation_steps=val_steps,
                             initial_epoch=sg.cur_epoch,
                             epochs=epochs, callbacks=cb, max_queue_size=10)
                           
-- 
2.43.0


From 434a95571adb2c117cff0e1f7f6d9e91c64b274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:31 +0000
Subject: [PATCH 105/125] fix: freezing networks or layers of sequence
 embeddings called methods that do not exist

---
 hyperion/bin/keras-train-cat-seq-embed-gen-v1.py     | 6 +++---
 hyperion/bin/keras-train-cat-seq-embed-gen-v2.py     | 4 ++--
 hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
index 8923c0e..3c21b9f 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
@@ -99,11 +99,11 @@ def train_embed(data_path, train_list, val_list,
     
     t1 = time.time()
     if freeze_prepool:
-        model.freeze_prepool_net()
+        model.freeze_enc_net()
     if freeze_prepool_layers is not None:
-        model.freeze_prepool_layers(freeze_prepool_layers)
+        model.freeze_enc_net_layers(freeze_prepool_layers)
     if freeze_postpool_layers is not None:
-        model.freeze_postpool_layers(freeze_postpool_layers)
+        model.freeze_pt_net_layers(freeze_postpool_layers)
     
     model.build(max_length)
     logging.info(time.time()-t1)
diff --git a/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py b/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
index 2390680..47e4c1d 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
@@ -101,9 +101,9 @@ def train_embed(data_path, train_list, val_list,
     if freeze_enc:
         model.freeze_enc_net()
     if freeze_enc_layers is not None:
-        model.freeze_enc_layers(freeze_enc_layers)
+        model.freeze_enc_net_layers(freeze_enc_layers)
     if freeze_pt_layers is not None:
-        model.freeze_pt_layers(freeze_pt_layers)
+        model.freeze_pt_net_layers(freeze_pt_layers)
     
     model.build(max_length)
     
diff --git a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
index 6ce5caf..08739ea 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
@@ -100,11 +100,11 @@ def train_embed(data_path, train_list, val_list,
     
     t1 = time.time()
     if freeze_prepool:
-        model.freeze_prepool_net()
+        model.freeze_enc_net()
     if freeze_prepool_layers is not None:
-        model.freeze_prepool_layers(freeze_prepool_layers)
+        model.freeze_enc_net_layers(freeze_prepool_layers)
     if freeze_postpool_layers is not None:
-        model.freeze_postpool_layers(freeze_postpool_layers)
+        model.freeze_pt_net_layers(freeze_postpool_layers)
     
     model.build(max_length)
     
-- 
2.43.0


From 6c20263002c48061e365619f11168747f801c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:31 +0000
Subject: [PATCH 106/125] fix: resumed trainings of sequence embeddings
 repeated the epoch of the checkpoint

---
 hyperion/bin/keras-train-cat-seq-embed-gen-v1.py     | 2 +-
 hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
index 3c21b9f..75ff5eb 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
@@ -60,7 +60,7 @@ def train_embed(data_path, train_list, val_list,
                              loss=loss,
                              **emb_args)
         else:
-            kwargs['init_epoch'] = init_epoch
+            kwargs['init_epoch'] = init_epoch + 1
     else:
         logging.info('loading init model: %s' % init_path)
         model = KML.load(init_path)
diff --git a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
index 08739ea..5d1e6f2 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
@@ -61,7 +61,7 @@ def train_embed(data_path, train_list, val_list,
                              loss=loss,
                              **emb_args)
         else:
-            kwargs['init_epoch'] = init_epoch
+            kwargs['init_epoch'] = init_epoch + 1
     else:
         logging.info('loading init model: %s' % init_path)
         model = KML.load(init_path)
-- 
2.43.0


From a81f3e3677ae965dd6f134dab1d26c64e08fa6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:52 +0000
Subject: [PATCH 107/125] fix: eval-score-norm ignored the option --adapt-coh

---
 hyperion/bin/eval-score-norm.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index 1992936..e170f74 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -80,7 +80,13 @@ def score_norm(score_file, output_file, norm_type,
 
     if norm_type == 's-norm':
         assert scores_enr_coh is not None and scores_coh_test is not None
-        norm = SNorm()
+        if adapt_coh is None:
+            norm = SNorm()
+        else:
+            # both files need the same cohort in the same order
+            ndx = TrialNdx(scores_enr_coh.seg_set, scores_coh_test.seg_set)
+            scores_coh_test = scores_coh_test.align_with_ndx(ndx)
+            norm = AdaptSNorm(adapt_coh)
         scores_norm = norm.predict(scores.scores,
                                    scores_coh_test.scores,
                                    scores_enr_coh.scores)
-- 
2.43.0


From 322e9ed01c31fe68f69db208c5e65461e8b204dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:07 +0000
Subject: [PATCH 108/125] fix: activations of torch networks could not be
 restored from their configuration

---
 hyperion/torch/helpers/activation_factory.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyperion/torch/helpers/activation_factory.py b/hyperion/torch/helpers/activation_factory.py
index 3ee401d..80c6982 100644
--- a/hyperion/torch/helpers/activation_factory.py
+++ b/hyperion/torch/helpers/activation_factory.py
@@ -44,7 +44,7 @@ class ActivationFactory(object):
         if isinstance(activation, dict):
             name = activation['name']
             kwargs = activation.copy()
-            del kwargs.name
+            del kwargs['name']
             return ActivationFactory.create_from_str(name, **kwargs)
             
         
@@ -99,16 +99,16 @@ class ActivationFactory(object):
                     'alpha': activation.alpha,
                     'inplace': activation.inplace}
         if isinstance(activation, nn.Sigmoid):
-            return {'name': 'simoid'}
+            return {'name': 'sigmoid'}
         if isinstance(activation, nn.Softplus):
             return {'name': 'softplus',
                     'beta': activation.beta,
                     'threshold': activation.threshold}
         if isinstance(activation, nn.Softshrink):
-            return {'name': 'softshrink'}
-        if isinstance(activation, nn.Softsign):
-            return {'name': 'softsign',
+            return {'name': 'softshrink',
                     'lambd': activation.lambd}
+        if isinstance(activation, nn.Softsign):
+            return {'name': 'softsign'}
         if isinstance(activation, nn.Tanh):
             return {'name': 'tanh'}
         if isinstance(activation, nn.Tanhshrink):
@@ -130,10 +130,10 @@ class ActivationFactory(object):
             return {'name': 'logsoftmax',
                     'dim': activation.dim}
         if isinstance(activation, nn.AdaptiveLogSoftmaxWithLoss):
-            return {'name': 'asoftmax',
+            return {'name': 'alogsoftmax',
                     'in_features': activation.in_features,
                     'n_classes': activation.n_classes,
-                    'cutoffs': activation.cutoffs,
+                    'cutoffs': activation.cutoffs[:-1],
                     'div_value': activation.div_value,
                     'head_bias': activation.head_bias}
         
-- 
2.43.0


From 5c122744d5014f03d179e68ff5996507cb378af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:07 +0000
Subject: [PATCH 109/125] fix: FCNetV1 with output dropout or output batch
 normalization called a layer that does not exist

---
 hyperion/torch/archs/fcnet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/torch/archs/fcnet.py b/hyperion/torch/archs/fcnet.py
index 8fe2007..96885b7 100644
--- a/hyperion/torch/archs/fcnet.py
+++ b/hyperion/torch/archs/fcnet.py
@@ -119,10 +119,10 @@ class FCNetV1(NetArch):
                 x = self.output_act(x)
 
             if self.output_dropout is not None:
-                x = self.droput_layers[self.num_hid_layers](x)
+                x = self.output_dropout(x)
 
         if self.use_output_batchnorm:
-            x = self.output_dropout(x)
+            x = self.output_batchnorm(x)
 
         return x
 
-- 
2.43.0


From 3e07a4916e4368a3b2f28090a96ef03b0074b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:08 +0000
Subject: [PATCH 110/125] fix: the configuration of FCNetV1 named missing
 attributes and lost without_output_layer

---
 hyperion/torch/archs/fcnet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/torch/archs/fcnet.py b/hyperion/torch/archs/fcnet.py
index 96885b7..f0b6bae 100644
--- a/hyperion/torch/archs/fcnet.py
+++ b/hyperion/torch/archs/fcnet.py
@@ -138,11 +138,12 @@ class FCNetV1(NetArch):
 
         config = {'num_hid_layers': self.num_hid_layers,
                   'output_units': self.output_units,
-                  'hid_units': self.hidden_units,
+                  'hid_units': self.hid_units,
                   'input_units': self.input_units,
                   'use_batchnorm': self.use_batchnorm,
                   'dropout_rate': self.dropout_rate,
-                  'use_output_batchnorm': self.output_batchnorm,
+                  'without_output_layer': self.without_output_layer,
+                  'use_output_batchnorm': self.use_output_batchnorm,
                   'use_output_dropout': self.output_dropout,
                   'output_act': output_act,
                   'hid_act': hid_act }
-- 
2.43.0


From 9e2ef52c2cc5a32b2540e84b7dad59204f65cfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:08 +0000
Subject: [PATCH 111/125] fix: all hidden layers of FCNetV1 shared one
 activation and its parameters

---
 hyperion/torch/archs/fcnet.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperion/torch/archs/fcnet.py b/hyperion/torch/archs/fcnet.py
index f0b6bae..8a3fbc6 100644
--- a/hyperion/torch/archs/fcnet.py
+++ b/hyperion/torch/archs/fcnet.py
@@ -57,8 +57,7 @@ class FCNetV1(NetArch):
         if hid_act is not None:
             hid_acts = []
             for i in xrange(num_hid_layers):
-                hid_act = AF.create(hid_act)
-                hid_acts.append(hid_act)
+                hid_acts.append(AF.create(hid_act))
             self.hid_acts = nn.ModuleList(hid_acts)
             
         #batch normalization
-- 
2.43.0


From 956268ad74913325911aa39649b10d89d23d8869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:08 +0000
Subject: [PATCH 112/125] fix: TorchModel.save had no file to write to

---
 hyperion/torch/torch_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperion/torch/torch_model.py b/hyperion/torch/torch_model.py
index bb3e19e..a2c8113 100644
--- a/hyperion/torch/torch_model.py
+++ b/hyperion/torch/torch_model.py
@@ -7,6 +7,8 @@ from __future__ import print_function
 from __future__ import division
 from six.moves import xrange
 
+import os
+
 import torch
 import torch.nn as nn
 
@@ -22,12 +24,12 @@ class TorchModel(nn.Module):
 
     def save(self, file_path):
         file_dir = os.path.dirname(file_path)
-        if not(os.path.isdir(file_dir)):
+        if file_dir and not(os.path.isdir(file_dir)):
             os.makedirs(file_dir, exist_ok=True)
 
         config = self.get_config()
         torch.save({'config': self.get_config(),
-                    'model_state_dict': self.state_dict()})
+                    'model_state_dict': self.state_dict()}, file_path)
 
 
     def get_reg_loss(self):
-- 
2.43.0


From b8f1b01f08d1d79338931aecfaf904097cf6158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:08 +0000
Subject: [PATCH 113/125] fix: Dropout1d took dropout2d from a module that does
 not have it

---
 hyperion/torch/layers/dropout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/layers/dropout.py b/hyperion/torch/layers/dropout.py
index afb53f5..5749a19 100644
--- a/hyperion/torch/layers/dropout.py
+++ b/hyperion/torch/layers/dropout.py
@@ -9,7 +9,7 @@ from six.moves import xrange
 
 import torch
 import torch.nn as nn
-import torch.functional as F
+import torch.nn.functional as F
 from torch.nn import Dropout2d
 
 class Dropout1d(Dropout2d):
-- 
2.43.0


From 1c6362394463133d191a043b11ce063d0072a377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:08 +0000
Subject: [PATCH 114/125] fix: the configuration of FFNetV1 called a method its
 base does not have

---
 hyperion/torch/archs/ffnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/torch/archs/ffnet.py b/hyperion/torch/archs/ffnet.py
index 42eb7ff..f0fc9b8 100644
--- a/hyperion/torch/archs/ffnet.py
+++ b/hyperion/torch/archs/ffnet.py
@@ -14,8 +14,9 @@ import torch.nn as nn
 from torch.nn import Linear, BatchNorm1d, Dropout
 
 from ..helpers import ActivationFactory as AF
+from .net_arch import NetArch
 
-class FFNetV1(nn.Module):
+class FFNetV1(NetArch):
 
     def __init__(self, num_layers, 
                  output_units, hidden_units, input_units,
-- 
2.43.0


From 8bd9f7cfdd5b6bda245d0cb7830d89ddc35bbc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:03 +0000
Subject: [PATCH 115/125] fix: the configuration of FCNetV1 stored the dropout
 layer instead of its flag

---
 hyperion/torch/archs/fcnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/archs/fcnet.py b/hyperion/torch/archs/fcnet.py
index 8a3fbc6..c8db279 100644
--- a/hyperion/torch/archs/fcnet.py
+++ b/hyperion/torch/archs/fcnet.py
@@ -143,7 +143,7 @@ class FCNetV1(NetArch):
                   'dropout_rate': self.dropout_rate,
                   'without_output_layer': self.without_output_layer,
                   'use_output_batchnorm': self.use_output_batchnorm,
-                  'use_output_dropout': self.output_dropout,
+                  'use_output_dropout': self.use_output_dropout,
                   'output_act': output_act,
                   'hid_act': hid_act }
         
-- 
2.43.0


From db328447d9024ec338761c556b40468d53214db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:54 +0000
Subject: [PATCH 116/125] fix: compute-gmm-post called functions that do not
 exist and took --num-comp as a string

---
 hyperion/bin/compute-gmm-post.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index 1720b37..a278f33 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -70,14 +70,14 @@ def compute_gmm_post(seq_file, file_list, model_file, preproc_file, output_path,
     for i in xrange(sr.num_seqs):
         x, key = sr.read_next_seq()
         logging.info('Extracting i-vector %d/%d for %s, num_frames: %d' % (i, sr.num_seqs, key, x.shape[0]))
-        r = gmm.compute_z(x)
+        r = gmm.compute_pz(x)
         r_s, index = to_sparse(r, num_comp)
         if i==0:
             r2 = to_dense(r_s, index, r.shape[1])
-            logging.degug(np.sort(r[0,:])[-12:])
-            logging.degug(np.sort(r2[0,:])[-12:])
-            logging.degug(np.argsort(r[0,:])[-12:])
-            logging.degug(np.argsort(r2[0,:])[-12:])
+            logging.debug(np.sort(r[0,:])[-12:])
+            logging.debug(np.sort(r2[0,:])[-12:])
+            logging.debug(np.argsort(r[0,:])[-12:])
+            logging.debug(np.argsort(r2[0,:])[-12:])
 
         hw.write([key], '.r', [r_s])
         hw.write([key], '.index', [index])
@@ -98,7 +98,7 @@ if __name__ == "__main__":
     parser.add_argument('--preproc-file', dest='preproc_file', default=None)
     parser.add_argument('--model-file', dest='model_file', required=True)
     parser.add_argument('--output-path', dest='output_path', required=True)
-    parser.add_argument('--num-comp', dest='num_comp', default=10)
+    parser.add_argument('--num-comp', dest='num_comp', type=int, default=10)
 
     SR.add_argparse_eval_args(parser)
     parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int)
-- 
2.43.0


From ee760a4e2b09d3c1fdde4886375fd15de5df2393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:23 +0000
Subject: [PATCH 117/125] fix: torch.sh went no further when free-gpu is not in
 the path

With set -e the assignment from which ended the script, so that it neither
looked in hyp_utils nor ran the program without it.
---
 hyp_utils/torch.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyp_utils/torch.sh b/hyp_utils/torch.sh
index 8cbee23..b6f4ee8 100755
--- a/hyp_utils/torch.sh
+++ b/hyp_utils/torch.sh
@@ -47,9 +47,9 @@ fi
 
 if [ $num_gpus -gt 0 ];then
     # seach location of free-gpu program in the PATH or hyp_utils directory
-    free_gpu=$(which free-gpu)
+    free_gpu=$(which free-gpu || true)
     if [ -z "$free_gpu" ];then
-	free_gpu=$(which hyp_utils/free-gpu)
+	free_gpu=$(which hyp_utils/free-gpu || true)
     fi
     
     if [ ! -z "$free_gpu" ];then
-- 
2.43.0


From fd270ec2aa7e8ffc336dc4a9a37c23498a39b24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:38 +0000
Subject: [PATCH 118/125] fix: the second layer of the blocks of ResTDNNV1
 ignored the first one

---
 hyperion/keras/archs/tdnn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/archs/tdnn.py b/hyperion/keras/archs/tdnn.py
index 810bf24..b95f077 100644
--- a/hyperion/keras/archs/tdnn.py
+++ b/hyperion/keras/archs/tdnn.py
@@ -356,7 +356,7 @@ def ResTDNNV1(num_td_blocks, num_fc_blocks,
                        kernel_regularizer=kernel_regularizer,
                        bias_regularizer=bias_regularizer,
                        kernel_constraint=kernel_constraint,
-                       bias_constraint=bias_constraint)(h_i)
+                       bias_constraint=bias_constraint)(h_i_1)
 
         if hidden_activation is not None:
             h_i_2 = hidden_activation(h_i_2)
@@ -412,7 +412,7 @@ def ResTDNNV1(num_td_blocks, num_fc_blocks,
                        kernel_regularizer=kernel_regularizer,
                        bias_regularizer=bias_regularizer,
                        kernel_constraint=kernel_constraint,
-                       bias_constraint=bias_constraint)(h_i)
+                       bias_constraint=bias_constraint)(h_i_1)
 
         if hidden_activation is not None:
             h_i_2 = hidden_activation(h_i_2)
-- 
2.43.0


From cf773b00a36d2a094c563b1e4dd320e53c3e28ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:38 +0000
Subject: [PATCH 119/125] fix: VGGNetV1 used its hidden layer before assigning
 it

---
 hyperion/keras/archs/vgg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/keras/archs/vgg.py b/hyperion/keras/archs/vgg.py
index 24182d3..5c5fe1f 100644
--- a/hyperion/keras/archs/vgg.py
+++ b/hyperion/keras/archs/vgg.py
@@ -51,6 +51,7 @@ def VGGNetV1(output_units, input_shape=(224,224,3),
 
     x = Input(shape=input_shape)
 
+    h_i = x
     for block in xrange(num_conv_blocks):
         for i in xrange(num_block_layers[block]):
             if use_batchnorm:
-- 
2.43.0


From 1a98e7dff5bc45a3277c10b881d07cf4ac1ede83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:38 +0000
Subject: [PATCH 120/125] fix: TDVGGNetV1 repeated a common number of layers by
 block the wrong number of times

---
 hyperion/keras/archs/vgg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/archs/vgg.py b/hyperion/keras/archs/vgg.py
index 5c5fe1f..16f2efa 100644
--- a/hyperion/keras/archs/vgg.py
+++ b/hyperion/keras/archs/vgg.py
@@ -192,7 +192,7 @@ def TDVGGNetV1(output_units, input_shape,
     if isinstance(num_block_layers, list):
         assert len(num_block_layers) == num_conv_blocks
     else:
-        num_block_layers = [num_block_layers for i in xrange(num_block_layers)]
+        num_block_layers = [num_block_layers for i in xrange(num_conv_blocks)]
         
     if isinstance(hidden_fc_units, list):
         assert len(hidden_fc_units) == num_fc_layers-1
-- 
2.43.0


From 80f82f53e9d2e0dd02bbaaf1faf3c6de2505e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:38 +0000
Subject: [PATCH 121/125] fix: ConvNetZhang17V1 passed the name of a layer as a
 second positional argument

---
 hyperion/keras/archs/convnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/archs/convnet.py b/hyperion/keras/archs/convnet.py
index 36e4ac8..6afdb25 100644
--- a/hyperion/keras/archs/convnet.py
+++ b/hyperion/keras/archs/convnet.py
@@ -65,7 +65,7 @@ def ConvNetZhang17V1(output_units, input_shape,
         if conv_dropout_rate > 0:
             h_i = Dropout(conv_dropout_rate)(h_i)
 
-    h_i = Reshape((seq_length, -1), 'reshape-1d')(h_i)
+    h_i = Reshape((seq_length, -1), name='reshape-1d')(h_i)
 
     for i in xrange(num_fc_layers-1):
         if use_batchnorm:
-- 
2.43.0


From 9e83a621a54049a02e96b2895e5d6e2e49a776fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:38 +0000
Subject: [PATCH 122/125] fix: the bottleneck block of ResNetV1 used an
 undefined number of filters

---
 hyperion/keras/archs/resnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/archs/resnet.py b/hyperion/keras/archs/resnet.py
index 4017042..409ec4e 100644
--- a/hyperion/keras/archs/resnet.py
+++ b/hyperion/keras/archs/resnet.py
@@ -85,7 +85,7 @@ def conv2d_bn_res_block(x, filters1, filters2,
     if use_batchnorm:
         x = BatchNormalization()(x)
 
-    h_i = Conv2D(filters, kernel_size=(1, 1), strides=strides,
+    h_i = Conv2D(filters1, kernel_size=(1, 1), strides=strides,
                  padding=padding, name=('%s-1' % (name)), 
                  kernel_initializer=kernel_initializer,
                  bias_initializer=bias_initializer,
-- 
2.43.0


From b5743cf7928995129aee341d5b364bb871beee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:38 +0000
Subject: [PATCH 123/125] fix: ResNetV1 did not project the shortcut of every
 block that changes the shape

---
 hyperion/keras/archs/resnet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/archs/resnet.py b/hyperion/keras/archs/resnet.py
index 409ec4e..88186c4 100644
--- a/hyperion/keras/archs/resnet.py
+++ b/hyperion/keras/archs/resnet.py
@@ -253,7 +253,7 @@ def ResNetV1(output_units, input_shape=(224,224,3),
             context += int(dec_ratio*(kernel_size-1)/2)
             
             if bottleneck_blocks:
-                if block>0 and i==0 and conv_filters_bn[block] != conv_filters_bn[block-1]:
+                if strides != 1 or h_i._keras_shape[-1] != conv_filters_bn[block]:
                     proj_shortcut=True
 
                 h_i = conv2d_bn_res_block(
@@ -270,7 +270,7 @@ def ResNetV1(output_units, input_shape=(224,224,3),
                     kernel_constraint=kernel_constraint,
                     bias_constraint=bias_constraint)
             else:
-                if block>0 and i==0 and conv_filters[block] != conv_filters[block-1]:
+                if strides != 1 or h_i._keras_shape[-1] != conv_filters[block]:
                     proj_shortcut=True
                 h_i = conv2d_res_block(
                     h_i, conv_filters[block], 
-- 
2.43.0


From 7ca22b76980053158943928dacdcf37114029bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:38 +0000
Subject: [PATCH 124/125] fix: ResNet34V1, 50, 101 and 152 ignored the input
 shape and the numbers of filters

---
 hyperion/keras/archs/resnet.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyperion/keras/archs/resnet.py b/hyperion/keras/archs/resnet.py
index 88186c4..453ce90 100644
--- a/hyperion/keras/archs/resnet.py
+++ b/hyperion/keras/archs/resnet.py
@@ -404,9 +404,9 @@ def ResNet34V1(output_units, input_shape=(224,224,3),
                kernel_regularizer=None, bias_regularizer=None,
                kernel_constraint=None, bias_constraint=None):
 
-    return ResNetV1(output_units, input_shape=(224,224,3),
+    return ResNetV1(output_units, input_shape=input_shape,
                     num_blocks=4, num_subblocks=[3,4,6,3], num_fc_layers=1,
-                    conv_filters=64, conv_filters_factor=2, max_conv_filters=512,
+                    conv_filters=conv_filters, conv_filters_factor=2, max_conv_filters=max_conv_filters,
                     kernel_size=3, padding=padding,
                     interblock_strides=2,
                     input_kernel_size=7, input_strides=2,
@@ -436,9 +436,9 @@ def ResNet50V1(output_units, input_shape=(224,224,3),
                kernel_regularizer=None, bias_regularizer=None,
                kernel_constraint=None, bias_constraint=None):
 
-    return ResNetV1(output_units, input_shape=(224,224,3),
+    return ResNetV1(output_units, input_shape=input_shape,
                     num_blocks=4, num_subblocks=[3,4,6,3], num_fc_layers=1,
-                    conv_filters=64, conv_filters_factor=2, max_conv_filters=512,
+                    conv_filters=conv_filters, conv_filters_factor=2, max_conv_filters=max_conv_filters,
                     kernel_size=3, padding=padding,
                     interblock_strides=2,
                     input_kernel_size=7, input_strides=2,
@@ -470,9 +470,9 @@ def ResNet101V1(output_units, input_shape=(224,224,3),
                 kernel_regularizer=None, bias_regularizer=None,
                 kernel_constraint=None, bias_constraint=None):
 
-    return ResNetV1(output_units, input_shape=(224,224,3),
+    return ResNetV1(output_units, input_shape=input_shape,
                     num_blocks=4, num_subblocks=[3,4,23,3], num_fc_layers=1,
-                    conv_filters=64, conv_filters_factor=2, max_conv_filters=512,
+                    conv_filters=conv_filters, conv_filters_factor=2, max_conv_filters=max_conv_filters,
                     kernel_size=3, padding=padding,
                     interblock_strides=2,
                     input_kernel_size=7, input_strides=2,
@@ -503,9 +503,9 @@ def ResNet152V1(output_units, input_shape=(224,224,3),
                 kernel_regularizer=None, bias_regularizer=None,
                 kernel_constraint=None, bias_constraint=None):
 
-    return ResNetV1(output_units, input_shape=(224,224,3),
+    return ResNetV1(output_units, input_shape=input_shape,
                     num_blocks=4, num_subblocks=[3,8,36,3], num_fc_layers=1,
-                    conv_filters=64, conv_filters_factor=2, max_conv_filters=512,
+                    conv_filters=conv_filters, conv_filters_factor=2, max_conv_filters=max_conv_filters,
                     kernel_size=3, padding=padding,
                     interblock_strides=2,
                     input_kernel_size=7, input_strides=2,
-- 
2.43.0


From b5cef29f4baa2ddaf3afd5eff50168e2b68b07d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:38 +0000
Subject: [PATCH 125/125] fix: the context of ResNetV1 counted one convolution
 by block at the rate before its stride

---
 hyperion/keras/archs/resnet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/keras/archs/resnet.py b/hyperion/keras/archs/resnet.py
index 453ce90..f5b0c1e 100644
--- a/hyperion/keras/archs/resnet.py
+++ b/hyperion/keras/archs/resnet.py
@@ -250,7 +250,9 @@ def ResNetV1(output_units, input_shape=(224,224,3),
             proj_shortcut=False 
 
             dec_ratio = x._keras_shape[1]/h_i._keras_shape[1]
-            context += int(dec_ratio*(kernel_size-1)/2)
+            if not bottleneck_blocks:
+                context += int(dec_ratio*(kernel_size-1)/2)
+            context += int(strides*dec_ratio*(kernel_size-1)/2)
             
             if bottleneck_blocks:
                 if strides != 1 or h_i._keras_shape[-1] != conv_filters_bn[block]:
-- 
2.43.0

