From b08ca6a5617a06eb6630ac2298ed8235e4736202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:54 +0000
Subject: [PATCH 01/90] fix: get_query_offsets reports an unknown query id as
 LookupError

format() was applied to the exception, so callers got AttributeError.
---
 rankeval/dataset/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index c2a154a..f05e041 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -316,8 +316,8 @@ class Dataset(object):
         """
         idx = np.where(self.query_ids == query_id)[0]
         if idx.size == 0:
-            raise LookupError("query_id {:d} is missing from the dataset") \
-                .format(query_id)
+            raise LookupError("query_id {:d} is missing from the dataset"
+                              .format(query_id))
         # Take first element
         idx = idx[0]
         return self.query_offsets[idx], self.query_offsets[idx + 1]
-- 
2.43.0


From 13a90dd2fa12dc59b5f2f6291d839ad7a6fcca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:54 +0000
Subject: [PATCH 02/90] fix: Dataset.split never puts a query in both the test
 and another part

With no query left for the test part, [-0:] selected every query, and with
rounded-up shares a negative count selected queries of the other parts.
---
 rankeval/dataset/dataset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index f05e041..177c392 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -198,7 +198,6 @@ class Dataset(object):
 
         train_qn = int(round(train_size * self.n_queries))
         vali_qn = int(round(vali_size * self.n_queries))
-        test_qn = self.n_queries - train_qn - vali_qn
 
         qid_map = np.ndarray(self.n_instances, dtype=np.uint32)
         for qid, start_offset, end_offset in self.query_iterator():
@@ -211,7 +210,7 @@ class Dataset(object):
 
         train_qid = qids_permutation[:train_qn]
         vali_qid = qids_permutation[train_qn:train_qn + vali_qn]
-        test_qid = qids_permutation[-test_qn:]
+        test_qid = qids_permutation[train_qn + vali_qn:]
 
         train_mask = np.in1d(qid_map, train_qid)
         vali_mask = np.in1d(qid_map, vali_qid)
-- 
2.43.0


From c7008ef04423830139eb70d1ea3947d4999f7aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:54 +0000
Subject: [PATCH 03/90] fix: Dataset.split keeps queries with negative ids

The ids were forced to uint32, so negative ids matched no part.
---
 rankeval/dataset/dataset.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 177c392..39d4e68 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -199,10 +199,7 @@ class Dataset(object):
         train_qn = int(round(train_size * self.n_queries))
         vali_qn = int(round(vali_size * self.n_queries))
 
-        qid_map = np.ndarray(self.n_instances, dtype=np.uint32)
-        for qid, start_offset, end_offset in self.query_iterator():
-            for idx in np.arange(start_offset, end_offset):
-                qid_map[idx] = qid
+        qid_map = self.get_qids_dataset()
 
         # add queries shuffling
         rng = Dataset._check_random_state(random_state)
-- 
2.43.0


From f13d6d04e886b5450624cbf2a063705f10bbfba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:54 +0000
Subject: [PATCH 04/90] fix: dataset equality and hash cover shapes, query
 boundaries and layouts

Datasets of different shapes raised or broadcast, datasets differing only in
the query boundaries were equal (so cached scores and ideal DCGs of one were
used for the other), comparing with other types raised, hashing raised for
non C-contiguous arrays and differed for equal datasets of different dtypes.
---
 rankeval/dataset/dataset.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 39d4e68..d9a82dc 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -405,17 +405,24 @@ class Dataset(object):
         if self._hash_cached is None:
 
             h = hashlib.md5()
-            for arr in [self.X, self.y, self.query_ids]:
-                h.update(arr)
+            # normalize type, layout and sign of zero: equal datasets must
+            # have the same hash
+            for arr, dtype in [(self.X, np.float32), (self.y, np.float32),
+                               (self.query_ids, np.int64),
+                               (self.query_offsets, np.int64)]:
+                arr = np.asarray(arr).astype(dtype, copy=False) + dtype(0)
+                h.update(np.ascontiguousarray(arr))
             self._hash_cached = int(h.hexdigest(), 16)
 
         return self._hash_cached
 
     def __eq__(self, other):
-        # use != instead of == because it is more efficient for sparse matrices:
-        x_eq = not(self.X != other.X).any()
-        return x_eq and (self.y == other.y).all() and \
-               (self.query_ids == other.query_ids).all()
+        if not isinstance(other, Dataset):
+            return False
+        return np.array_equal(self.X, other.X) and \
+            np.array_equal(self.y, other.y) and \
+            np.array_equal(self.query_ids, other.query_ids) and \
+            np.array_equal(self.query_offsets, other.query_offsets)
 
     def __ne__(self, other):
         # Not strictly necessary, but to avoid having both x==y and x!=y
-- 
2.43.0


From 27920640efcbdb7542b6711f2f5cd90f08ffbf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:34 +0000
Subject: [PATCH 05/90] fix: SVMlight loader keeps rows without features that
 precede all others

Such rows got no cells, so every following value ended up in a wrong cell.
---
 rankeval/dataset/_svmlight_format.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index cc5583d..264cb5f 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -307,6 +307,10 @@ void parse_line(const std::string &line,
   // it means we have to reshape the dataset to include new columns...
   if (max_feature > 0 && (next_feature - 1) > max_feature) {
     reshape_data(data, max_feature, next_feature - 1);
+  } else if (max_feature == 0) {
+    // ... where all the previous rows (if any) have no columns at all
+    data.insert(data.begin(),
+                (labels.size() - 1) * (size_t)(next_feature - 1), 0);
   }
 
   max_feature = std::max(next_feature - 1, max_feature);
-- 
2.43.0


From cbed571d9bdedec6316cec61ba1f2d1f57b2731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:34 +0000
Subject: [PATCH 06/90] fix: SVMlight loader reports read errors instead of
 crashing

A failing read (e.g., a truncated .gz file, or a file opened in text mode)
crashed the interpreter. A NUL byte silently cut the line, or the whole file.
Every line read was leaked.
---
 rankeval/dataset/_svmlight_format.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 264cb5f..8685525 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -116,6 +116,12 @@ PyTypeObject &vector_owner_type(int typenum)
  * Parsing.
  */
 
+/*
+ * A Python exception is already set: it only has to be propagated.
+ */
+class PythonError : public std::exception {
+};
+
 class SyntaxError : public std::runtime_error {
 public:
   SyntaxError(std::string const &msg)
@@ -329,7 +335,16 @@ void parse_file(PyObject *pystream,
   std::string line;
   while (true) {
     PyObject* py_line = PyFile_GetLine(pystream, 0);
-    line = std::string(PyBytes_AS_STRING(py_line));
+    if (!py_line)
+        throw PythonError();
+    char *buffer;
+    Py_ssize_t length;
+    if (PyBytes_AsStringAndSize(py_line, &buffer, &length) == -1) {
+        Py_DECREF(py_line);
+        throw PythonError();
+    }
+    line.assign(buffer, length);
+    Py_DECREF(py_line);
     if (line.empty())
         break;
     lineno++;	  
@@ -356,6 +371,8 @@ static PyObject *load_svmlight_file(PyObject *self, PyObject *args)
     parse_file(pystream, data, labels, qids);
     return to_dense(data, labels, qids);
 
+  } catch (PythonError const &e) {
+    return 0;
   } catch (SyntaxError const &e) {
     PyErr_SetString(PyExc_ValueError, e.what());
     return 0;
-- 
2.43.0


From 75268749cdd086cae84e61b3be42591051b49b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:34 +0000
Subject: [PATCH 07/90] fix: SVMlight loader rejects unsorted, repeated and
 negative feature indices

Their values were silently stored in the cells of other features.
---
 rankeval/dataset/_svmlight_format.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 8685525..a84cdf1 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -270,6 +270,7 @@ void parse_line(const std::string &line,
   int idx;
   double x;
   int next_feature = 1;
+  int last_idx = -1;
   bool reuse_line = false;
 
   std::string token;
@@ -292,6 +293,12 @@ void parse_line(const std::string &line,
 
     if(sscanf(token.c_str(), "%u:%lf", &idx, &x) == 2) {
 
+        if (idx <= last_idx)
+            throw std::invalid_argument(
+                "feature indices are not positive, sorted and unique, lineno " +
+                std::to_string(lineno));
+        last_idx = idx;
+
         // Add zeros in empty spaces between next_feature and idx indices  (iff idx > next_feature)
         for (; next_feature < idx; ++next_feature)
           data.push_back(0);
-- 
2.43.0


From 58ecc71feb386b1697dee94ba42c144ddff8b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:34 +0000
Subject: [PATCH 08/90] fix: SVMlight writer keeps the query id of a dataset
 with a single row

---
 rankeval/dataset/_svmlight_format.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index a84cdf1..8b68f65 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -422,7 +422,7 @@ static PyObject *dump_svmlight_file(PyObject *self, PyObject *args)
 
     int n_samples = PyArray_DIM(data_array, 0);
     int n_features = PyArray_DIM(data_array, 1);
-    int n_queries = PyArray_DIM(qids_array, 0) - 1;
+    bool has_qids = PyArray_DIM(qids_array, 0) > 0;
 
     float *data   = (float*) data_array->data;
     float *y      = (float*) label_array->data;
@@ -433,7 +433,7 @@ static PyObject *dump_svmlight_file(PyObject *self, PyObject *args)
 
     float* data_pointer = data;
     for (int i=0; i < n_samples; i++) {
-      if (n_queries > 0) {
+      if (has_qids) {
         int qid = qids[i];
         out << y[i] << " qid:" << qid << " ";
       } else {
-- 
2.43.0


From c7257ab04bbf320498c5bf9f3a3d8d038eef1647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:34 +0000
Subject: [PATCH 09/90] fix: SVMlight writer handles matrices that are not
 C-contiguous

The cells were written in memory order.
---
 rankeval/dataset/svmlight_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/svmlight_format.py b/rankeval/dataset/svmlight_format.py
index 8e073ba..c0115e4 100644
--- a/rankeval/dataset/svmlight_format.py
+++ b/rankeval/dataset/svmlight_format.py
@@ -189,7 +189,7 @@ def dump_svmlight_file(X, y, f, query_id=None, zero_based=False):
         Whether column indices should be written zero-based (True) or one-based
         (False). Default is False.
     """
-    X = np.array(X, dtype=np.float32)
+    X = np.array(X, dtype=np.float32, order='C')
     y = np.array(y, dtype=np.float32)
     if query_id is None:
         query_id = np.ndarray(0, dtype=np.int32)
-- 
2.43.0


From be10ebe4e4a0725580d5f0c25a0472f43fba4cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:34 +0000
Subject: [PATCH 10/90] fix: SVMlight writer rejects labels and query ids of
 the wrong size

The native code read past the end of the shorter array.
---
 rankeval/dataset/svmlight_format.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rankeval/dataset/svmlight_format.py b/rankeval/dataset/svmlight_format.py
index c0115e4..b58f94d 100644
--- a/rankeval/dataset/svmlight_format.py
+++ b/rankeval/dataset/svmlight_format.py
@@ -195,6 +195,12 @@ def dump_svmlight_file(X, y, f, query_id=None, zero_based=False):
         query_id = np.ndarray(0, dtype=np.int32)
     else:
         query_id = np.array(query_id, dtype=np.int32)
+        if query_id.shape != (X.shape[0],):
+            raise ValueError("query_id has wrong size. Expected %s but got %s"
+                             % (X.shape[0], query_id.shape))
+    if X.ndim != 2 or y.shape != (X.shape[0],):
+        raise ValueError("X and y have wrong shapes: %s and %s"
+                         % (X.shape, y.shape))
 
     if hasattr(f, "write"):
         _dump_svmlight_file(f, X, y, query_id, int(zero_based))
-- 
2.43.0


From fc294bf71294d022723b76ad274ae5f9a971dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:34 +0000
Subject: [PATCH 11/90] fix: load_svmlight_files gives all matrices the same
 number of features

This is what it documents, and what it exists for.
---
 rankeval/dataset/svmlight_format.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rankeval/dataset/svmlight_format.py b/rankeval/dataset/svmlight_format.py
index b58f94d..e55ec86 100644
--- a/rankeval/dataset/svmlight_format.py
+++ b/rankeval/dataset/svmlight_format.py
@@ -149,6 +149,15 @@ def load_svmlight_files(files, query_id=False):
     for f in files:
         result += load_svmlight_file(f, query_id=query_id)
 
+    # all the matrices have as many features as the widest one
+    step = 3 if query_id else 2
+    n_features = max(X.shape[1] for X in result[::step])
+    for i in range(0, len(result), step):
+        X = result[i]
+        if X.shape[1] < n_features:
+            result[i] = np.zeros((X.shape[0], n_features), dtype=X.dtype)
+            result[i][:, :X.shape[1]] = X
+
     return result
 
 
-- 
2.43.0


From 53695086f5e7049a1c4137d4031244e765f0aa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:23 +0000
Subject: [PATCH 12/90] fix: an interrupted dataset download is not taken for a
 complete one

The folder of the dataset (or of its models) was created before downloading,
and its presence is what marks the data as available: after an interrupted
download, extraction or deletion, the missing data was never downloaded again.
---
 rankeval/dataset/datasets_fetcher.py | 59 +++++++++++++++++-----------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index fc1444e..d23afbf 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -50,6 +50,30 @@ def __get_data_home__(data_home=None):
     return data_home
 
 
+def __download_and_extract__(url, archive_name, home):
+    """
+    Download the archive at the given url and extract it in the given folder.
+    The work is done aside: the folder exists only when it is complete, so that
+    an interrupted download is never taken for a complete one.
+    """
+    partial_home = home + ".partial"
+    if exists(partial_home):
+        shutil.rmtree(partial_home)
+    makedirs(partial_home)
+
+    archive_path = join(partial_home, archive_name)
+    opener = urlopen(url)
+    with open(archive_path, 'wb') as f:
+        f.write(opener.read())
+
+    print ("Decompressing %s" % archive_path)
+    with tarfile.open(archive_path, "r:gz") as archive:
+        archive.extractall(path=partial_home)
+    os.remove(archive_path)
+
+    os.rename(partial_home, home)
+
+
 def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
                                  download_if_missing=True, force_download=True,
                                  with_models=True):
@@ -90,13 +114,15 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
     # delete data_home if force_download is True, then re-create data_home dir
     if force_download:
         if os.path.exists(data_home):
-            shutil.rmtree(data_home)
+            # rename it before, so that it is never found partially deleted
+            old_data_home = data_home + ".old"
+            if os.path.exists(old_data_home):
+                shutil.rmtree(old_data_home)
+            os.rename(data_home, old_data_home)
+            shutil.rmtree(old_data_home)
             os.makedirs(data_home)
 
     # preparing file names...
-    archive_name = os.path.join(dataset_home, dataset_dictionary['DATASET_ARCHIVE_NAME'])
-    models_archive_name = os.path.join(models_home, dataset_dictionary['MODELS_ARCHIVE_NAME'])
-
     if fold is None:
         train_file_path = os.path.join(dataset_home, dataset_dictionary['TRAIN_FILE'])
         test_file_path = os.path.join(dataset_home, dataset_dictionary['TEST_FILE'])
@@ -118,19 +144,13 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
         dataset_already_downloaded = True
 
     if not dataset_already_downloaded:
-        os.makedirs(dataset_home)
-
         print ("Downloading dataset. This may take a few minutes.")
 
         data_url = dataset_dictionary['DATASET_URL']
         print ("Downloading dataset from %s " % data_url)
-        opener = urlopen(data_url)
-        with open(archive_name, 'wb') as f:
-            f.write(opener.read())
-
-        print ("Decompressing %s" % archive_name)
-        tarfile.open(archive_name, "r:gz").extractall(path=dataset_home)
-        os.remove(archive_name)
+        __download_and_extract__(data_url,
+                                 dataset_dictionary['DATASET_ARCHIVE_NAME'],
+                                 dataset_home)
 
     license_agreement = ""
     if dataset_dictionary.get('LICENSE_FILE') is not None:
@@ -155,18 +175,11 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
             models_already_downloaded = True
 
         if not models_already_downloaded:
-            os.makedirs(models_home)
-
             models_url = dataset_dictionary['MODELS_URL']
             print ("Downloading letor models from %s" % models_url)
-            opener = urlopen(models_url)
-            with open(models_archive_name, 'wb') as f:
-                f.write(opener.read())
-
-            print ("Decompressing %s" % models_archive_name)
-            tarfile.open(models_archive_name, "r:gz").extractall(
-                path=models_home)
-            os.remove(models_archive_name)
+            __download_and_extract__(models_url,
+                                     dataset_dictionary['MODELS_ARCHIVE_NAME'],
+                                     models_home)
 
         # filling data structure to return
         matches = []
-- 
2.43.0


From fde0bb1e2b53cdf2755de91b9abe2156fc3a1623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:23 +0000
Subject: [PATCH 13/90] fix: download_if_missing=False never downloads

The dataset (or its models) was downloaded whenever the folder of the dataset
existed, even if the requested data was not there.
---
 rankeval/dataset/datasets_fetcher.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index d23afbf..d83bea3 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -105,8 +105,10 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
     models_home = os.path.join(data_home, "models")
 
     # DATASET
-    if not download_if_missing and not os.path.exists(data_home):
-        raise IOError('dataset not found')
+    if not download_if_missing:
+        if not os.path.exists(dataset_home) or \
+                (with_models and not os.path.exists(models_home)):
+            raise IOError('dataset not found')
 
     if (fold is not None) and (dataset_dictionary.get('COMMON_SUBFOLDER_NAME') is None):
         raise Exception('no k-fold available for the dataset')
-- 
2.43.0


From 2f5e072e411c76e35804f9337709c8971139168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:23 +0000
Subject: [PATCH 14/90] fix: the catalogue entry of istella-full has no
 validation file

The string 'None' was taken for the name of the validation file.
---
 rankeval/dataset/write_json_dataset_catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/write_json_dataset_catalogue.py b/rankeval/dataset/write_json_dataset_catalogue.py
index 3920662..66d735a 100644
--- a/rankeval/dataset/write_json_dataset_catalogue.py
+++ b/rankeval/dataset/write_json_dataset_catalogue.py
@@ -17,7 +17,7 @@ output_file = "dataset_dictionary.json"
 def __add_istella_full__(data):
     item = {'TRAIN_FILE': 'full/train.txt',
             'TEST_FILE': 'full/test.txt',
-            'VALIDATION_FILE': 'None',
+            'VALIDATION_FILE': None,
             'LICENSE_FILE': 'istella-letor-LA.txt',
             'DATASET_ARCHIVE_NAME': 'istella-letor.tar.gz',
             'MODELS_ARCHIVE_NAME': 'istella-letor-models.tar.gz',
-- 
2.43.0


From d8c54347d9e017f354bfc5de010644fc2c8a651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:24 +0000
Subject: [PATCH 15/90] fix: Scorer.get_predicted_leaves returns the predicted
 leaves

It raised AttributeError.
---
 rankeval/scoring/scorer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/scoring/scorer.py b/rankeval/scoring/scorer.py
index 8952b14..702f30a 100644
--- a/rankeval/scoring/scorer.py
+++ b/rankeval/scoring/scorer.py
@@ -139,7 +139,7 @@ class Scorer(object):
             each dataset instance.
 
         """
-        if self.self.y_leaves is None:
+        if self.out_leaves is None:
             self.score(detailed=True)
-        return self.self.y_leaves
+        return self.out_leaves
 
-- 
2.43.0


From dd6edce57c0a38133f7b5f77766d6e5d8a7ed2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:24 +0000
Subject: [PATCH 16/90] fix: a failed scoring is not cached

The scorer was cached before scoring: if the scoring failed, the following
calls returned None (or unscaled scores) instead of failing again.
---
 rankeval/model/rt_ensemble.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rankeval/model/rt_ensemble.py b/rankeval/model/rt_ensemble.py
index a01cf27..f48b555 100644
--- a/rankeval/model/rt_ensemble.py
+++ b/rankeval/model/rt_ensemble.py
@@ -336,8 +336,6 @@ class RTEnsemble(object):
                 detailed and self._cache_scorer[dataset].partial_y_pred is None:
 
             scorer = Scorer(self, dataset)
-            if cache:
-                self._cache_scorer[dataset] = scorer
             # The scoring is performed only if it has not been done before...
             scorer.score(detailed)
 
@@ -350,6 +348,10 @@ class RTEnsemble(object):
                 scorer.y_pred += self.base_score
                 if detailed:
                     scorer.partial_y_pred[:, :1] += self.base_score
+
+            # only a completed scoring can be reused
+            if cache:
+                self._cache_scorer[dataset] = scorer
         else:
             scorer = self._cache_scorer[dataset]
 
-- 
2.43.0


From 9ff52177b7b9e1ebae7d28735ee617dca0315497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:41 +0000
Subject: [PATCH 17/90] fix: QuickRank loader counts the first node of a file
 without info section

---
 rankeval/model/proxy_QuickRank.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rankeval/model/proxy_QuickRank.py b/rankeval/model/proxy_QuickRank.py
index fb806a9..0a6ac21 100644
--- a/rankeval/model/proxy_QuickRank.py
+++ b/rankeval/model/proxy_QuickRank.py
@@ -224,14 +224,16 @@ class ProxyQuickRank(object):
             in the model identified by file_path.
         """
         # get an iterable
-        context = etree.iterparse(file_path, events=("end",))
+        context = etree.iterparse(file_path, events=("start", "end"))
 
         # get the root element
         _, root = next(context)
 
         n_nodes = 0
         n_trees = 0
-        for _, elem in context:
+        for event, elem in context:
+            if event != 'end':
+                continue
             if elem.tag == 'tree':
                 n_trees += 1
             elif elem.tag == 'feature' or elem.tag == 'output':
-- 
2.43.0


From 09a300bc748cb96f8205e6681e75573741f64fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:41 +0000
Subject: [PATCH 18/90] fix: XGBoost loader keeps the strict split condition
 for large thresholds

---
 rankeval/model/proxy_XGBoost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_XGBoost.py b/rankeval/model/proxy_XGBoost.py
index be9d5fb..7766a8e 100644
--- a/rankeval/model/proxy_XGBoost.py
+++ b/rankeval/model/proxy_XGBoost.py
@@ -93,7 +93,7 @@ class ProxyXGBoost(object):
                     # Needed because XGBoost use as split condition
                     # < in place of <=
                     threshold = np.nextafter(
-                        threshold, threshold - 1,
+                        threshold, np.float32(-np.inf),
                         dtype=model.trees_nodes_value.dtype)
 
                     model.trees_nodes_feature[node_id] = feature_id
-- 
2.43.0


From 4c968009472cba87c2bb76ac97c1e16939df8a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:41 +0000
Subject: [PATCH 19/90] fix: CatBoost loader handles trees of different and of
 maximum depth

---
 rankeval/model/proxy_CatBoost.py | 34 ++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/rankeval/model/proxy_CatBoost.py b/rankeval/model/proxy_CatBoost.py
index 4642f57..8d0aa01 100644
--- a/rankeval/model/proxy_CatBoost.py
+++ b/rankeval/model/proxy_CatBoost.py
@@ -67,14 +67,18 @@ class ProxyCatBoost(object):
         # given the shape and size of the ensemble
         model.initialize(n_trees, n_nodes)
 
-        n_nodes_per_tree = int(n_nodes / n_trees)
-
         nodes = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble.nodes
+
+        # the trees may have different depths, hence different sizes
+        nodes_per_tree = ProxyCatBoost._count_nodes_per_tree(nodes)
+        tree_offsets = np.cumsum(nodes_per_tree) - nodes_per_tree
+
         behaviors = coremltools.proto.TreeEnsemble_pb2.TreeEnsembleParameters.\
             TreeNode.TreeNodeBehavior
 
         for node in nodes:
-            tree_offset = node.treeId * n_nodes_per_tree
+            n_nodes_per_tree = int(nodes_per_tree[node.treeId])
+            tree_offset = int(tree_offsets[node.treeId])
             node_id_remap = ProxyCatBoost.remap_nodeId(node.nodeId,
                                                        n_nodes_per_tree)
             node_id_off = node_id_remap + tree_offset
@@ -150,13 +154,23 @@ class ProxyCatBoost(object):
 
         nodes = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble.nodes
 
-        n_trees = np.max([node.treeId for node in nodes]) + 1
+        nodes_per_tree = ProxyCatBoost._count_nodes_per_tree(nodes)
 
-        n_nodes_trees = np.empty(n_trees, dtype=np.uint16)
-        for node in nodes:
-            n_nodes_trees[node.treeId] = node.nodeId
+        return len(nodes_per_tree), int(nodes_per_tree.sum())
+
+    @staticmethod
+    def _count_nodes_per_tree(nodes):
+        """
+        Count the number of nodes (both split and leaf nodes) of each tree.
 
-        # node_Id starts from 0, thus + 1
-        n_nodes = np.sum(n_nodes_trees + 1)
+        Parameters
+        ----------
+        nodes : list of CoreML nodes
+            The nodes of all the trees of the ensemble
 
-        return n_trees, n_nodes
\ No newline at end of file
+        Returns
+        -------
+        nodes_per_tree : numpy 1d array (n_trees)
+            Number of nodes of each tree
+        """
+        return np.bincount([node.treeId for node in nodes])
\ No newline at end of file
-- 
2.43.0


From 9a8f928b704a77a953cf9b7d0c91c4c6531683ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:11 +0000
Subject: [PATCH 20/90] fix: CatBoost loader keeps the base prediction of the
 model

---
 rankeval/model/proxy_CatBoost.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_CatBoost.py b/rankeval/model/proxy_CatBoost.py
index 8d0aa01..04dc349 100644
--- a/rankeval/model/proxy_CatBoost.py
+++ b/rankeval/model/proxy_CatBoost.py
@@ -67,7 +67,12 @@ class ProxyCatBoost(object):
         # given the shape and size of the ensemble
         model.initialize(n_trees, n_nodes)
 
-        nodes = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble.nodes
+        tree_ensemble = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble
+        nodes = tree_ensemble.nodes
+
+        # the bias of the model, unless the user gave another base score
+        if model.base_score is None and tree_ensemble.basePredictionValue:
+            model.base_score = tree_ensemble.basePredictionValue[0]
 
         # the trees may have different depths, hence different sizes
         nodes_per_tree = ProxyCatBoost._count_nodes_per_tree(nodes)
-- 
2.43.0


From 2110da10ebdc3981d74c6122983e544abf799b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:11 +0000
Subject: [PATCH 21/90] fix: QuickRank save keeps the learning rate, as part of
 the tree weights

---
 rankeval/model/proxy_QuickRank.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_QuickRank.py b/rankeval/model/proxy_QuickRank.py
index 0a6ac21..0cd71a4 100644
--- a/rankeval/model/proxy_QuickRank.py
+++ b/rankeval/model/proxy_QuickRank.py
@@ -21,6 +21,8 @@ nodes on the other hand are described by an "output" tag with the value as
 content.
 """
 
+import numpy as np
+
 from six.moves import range
 
 from .rt_ensemble import RTEnsemble
@@ -154,7 +156,8 @@ class ProxyQuickRank(object):
                 n_ensemble, "tree",
                 {
                     "id": repr(idx_tree+1),
-                    "weight": repr(model.trees_weight[idx_tree])
+                    "weight": repr(np.float32(model.trees_weight[idx_tree] *
+                                              model.learning_rate))
                 })
             cur_node = model.trees_root[idx_tree]
 
-- 
2.43.0


From e9a2ecd0222870a12f08c2b63e2305e1f7226861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:11 +0000
Subject: [PATCH 22/90] fix: scikit-learn export supports the initial
 estimators of current versions

---
 rankeval/model/proxy_ScikitLearn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_ScikitLearn.py b/rankeval/model/proxy_ScikitLearn.py
index 990a09c..345392f 100644
--- a/rankeval/model/proxy_ScikitLearn.py
+++ b/rankeval/model/proxy_ScikitLearn.py
@@ -178,7 +178,9 @@ class ProxyScikitLearn(object):
 
         if not hasattr(model, 'init_'):
             raise TypeError("Base score missing!")
-        if hasattr(model.init_, "quantile"):
+        if hasattr(model.init_, "constant_"):
+            base_score = np.ravel(model.init_.constant_)[0]
+        elif hasattr(model.init_, "quantile"):
             base_score = model.init_.quantile
         elif hasattr(model.init_, "mean"):
             base_score = model.init_.mean
-- 
2.43.0


From 4736d1e596b3fb2c3c15b70f37e1c4bf1019dcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:11 +0000
Subject: [PATCH 23/90] fix: scikit-learn export writes numbers with full
 precision

---
 rankeval/model/proxy_ScikitLearn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rankeval/model/proxy_ScikitLearn.py b/rankeval/model/proxy_ScikitLearn.py
index 345392f..dd50264 100644
--- a/rankeval/model/proxy_ScikitLearn.py
+++ b/rankeval/model/proxy_ScikitLearn.py
@@ -191,8 +191,8 @@ class ProxyScikitLearn(object):
         with open(file_path, 'w') as writer:
             if not hasattr(model, 'init_'):
                 raise TypeError("Base score missing!")
-            writer.write("base_score=%f\n" % base_score)
-            writer.write("learning_rate=%f\n" % model.learning_rate)
+            writer.write("base_score=%.17g\n" % base_score)
+            writer.write("learning_rate=%.17g\n" % model.learning_rate)
             for tree_id, tree in enumerate(model.estimators_.flatten()):
                 ProxyScikitLearn._export_tree(writer, tree, tree_id)
 
@@ -213,7 +213,7 @@ class ProxyScikitLearn(object):
             if tree_.feature[node] != _tree.TREE_UNDEFINED:
                 name = "f%d" % tree_.feature[node]
                 threshold = tree_.threshold[node]
-                writer.write("%s%d:[%s<=%f]\n" % (indent, node, name, threshold))
+                writer.write("%s%d:[%s<=%.17g]\n" % (indent, node, name, threshold))
                 recurse(tree_.children_left[node], depth + 1)
                 # print "%s%d:[%s>%f]" % (indent, node, name, threshold)
                 recurse(tree_.children_right[node], depth + 1)
-- 
2.43.0


From a6c494d750c18bfcbc77ad0f6fca6fea8248f820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:00 +0000
Subject: [PATCH 24/90] fix: NDCG.eval_per_query does not use the ideal DCG of
 a dataset evaluated before

---
 rankeval/metrics/ndcg.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rankeval/metrics/ndcg.py b/rankeval/metrics/ndcg.py
index 1f5771d..e99ea6a 100644
--- a/rankeval/metrics/ndcg.py
+++ b/rankeval/metrics/ndcg.py
@@ -94,7 +94,12 @@ class NDCG(Metric):
 
             self._cache_idcg_score[self._current_dataset] = idcg_score
 
-        return super(self.__class__, self).eval(dataset, y_pred)
+        try:
+            return super(self.__class__, self).eval(dataset, y_pred)
+        finally:
+            # the cached ideal DCG scores refer only to the given dataset
+            self._current_dataset = None
+            self._current_rel_qid = None
 
     def eval_per_query(self, y, y_pred):
         """
-- 
2.43.0


From e048d65312d6a2d5d5e94b165adcd4a3a5b74f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:00 +0000
Subject: [PATCH 25/90] fix: MSE.eval stores the score of each query by its
 position, not by its id

---
 rankeval/metrics/mse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rankeval/metrics/mse.py b/rankeval/metrics/mse.py
index 2cc4f04..7f941ad 100644
--- a/rankeval/metrics/mse.py
+++ b/rankeval/metrics/mse.py
@@ -58,8 +58,9 @@ class MSE(Metric):
 
         self.detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)
 
-        for qid, q_y, q_y_pred in self.query_iterator(dataset, y_pred):
-            self.detailed_scores[qid] = \
+        for rel_qid, (qid, q_y, q_y_pred) in enumerate(
+                self.query_iterator(dataset, y_pred)):
+            self.detailed_scores[rel_qid] = \
                 self.eval_per_query(q_y, q_y_pred) / dataset.n_instances
         return self.detailed_scores.sum(), self.detailed_scores
 
-- 
2.43.0


From 763bb6cd27ab8e5f3ed6492e56a4e66a6f1361f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:00 +0000
Subject: [PATCH 26/90] fix: RMSE is the root of the mean, not of the sum, of
 the squared errors of a query

---
 rankeval/metrics/rmse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rankeval/metrics/rmse.py b/rankeval/metrics/rmse.py
index ff596f0..3bf8096 100644
--- a/rankeval/metrics/rmse.py
+++ b/rankeval/metrics/rmse.py
@@ -78,7 +78,10 @@ class RMSE(Metric):
             Represents the RMSE score for one query.
         """
         mse = self._mse.eval_per_query(y, y_pred)
-        return np.sqrt(mse)
+        n_instances = len(y)
+        if self.cutoff is not None:
+            n_instances = min(n_instances, self.cutoff)
+        return np.sqrt(mse / n_instances)
 
     def __str__(self):
         s = self.name
-- 
2.43.0


From a1190a70372b6ff104b9dd2a8635dc67fb830c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:00 +0000
Subject: [PATCH 27/90] fix: MAP is 0 when relevant documents exist but none is
 retrieved

---
 rankeval/metrics/map.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rankeval/metrics/map.py b/rankeval/metrics/map.py
index dba121b..0e5dc4d 100644
--- a/rankeval/metrics/map.py
+++ b/rankeval/metrics/map.py
@@ -105,8 +105,9 @@ class MAP(Metric):
                 n_relevant_retrieved_at_i += 1
                 precision_at_i += n_relevant_retrieved_at_i / (i + 1)
 
-        if n_relevant_retrieved_at_i > 0:
-            return precision_at_i / min(n_retrieved, np.count_nonzero(y))
+        n_relevant = np.count_nonzero(y)
+        if n_relevant > 0:
+            return precision_at_i / min(n_retrieved, n_relevant)
         else:
             return self.no_relevant_results
 
-- 
2.43.0


From bd5bc5bfc3dafdd1c378bf45517ff0bbda70b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:00 +0000
Subject: [PATCH 28/90] fix: Pfound uses p_abandonment as the probability of
 abandoning

---
 rankeval/metrics/pfound.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/metrics/pfound.py b/rankeval/metrics/pfound.py
index b7c4b4e..781e74e 100644
--- a/rankeval/metrics/pfound.py
+++ b/rankeval/metrics/pfound.py
@@ -105,7 +105,8 @@ class Pfound(Metric):
 
         for i, idx in enumerate(idx_y_pred_sorted):
             utility = (pow(2., y[idx]) - 1.) / pow(2., max_grade)
-            pfound += prob_step_down * utility * pow(self.p_abandonment, i)
+            pfound += prob_step_down * utility * \
+                pow(1. - self.p_abandonment, i)
             prob_step_down *= (1. - utility)
 
         return pfound
-- 
2.43.0


From 598e88d10cf2f2d6a790f3cd708d23be3975d8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:00 +0000
Subject: [PATCH 29/90] fix: Kendalltau works with current versions of scipy

---
 rankeval/metrics/kendall_tau.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/rankeval/metrics/kendall_tau.py b/rankeval/metrics/kendall_tau.py
index 07197f1..4fec03b 100644
--- a/rankeval/metrics/kendall_tau.py
+++ b/rankeval/metrics/kendall_tau.py
@@ -69,12 +69,6 @@ class Kendalltau(Metric):
         pairs, T the number of ties only in x, and U the number of ties only
         in y. If a tie occurs for the same pair in both x and y, it is not
         added to either T or U.
-        s
-        Whether to use lexsort or quicksort as the sorting method for the
-        initial sort of the inputs.  Default is lexsort (True), for which
-        kendalltau is of complexity O(n log(n)). If False, the complexity
-        is O(n^2), but with a smaller pre-factor (so quicksort may be faster
-        for small arrays).
 
         Parameters
         ----------
@@ -90,7 +84,7 @@ class Kendalltau(Metric):
         kendalltau: float
             The Kendall tau per query.
         """
-        kendall_tau = stats.kendalltau(y, y_pred, initial_lexsort=True)
+        kendall_tau = stats.kendalltau(y, y_pred)
         return kendall_tau.correlation
 
 
-- 
2.43.0


From 5838e256a3a161aac9004a3c40ebe73b5cdad5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:44 +0000
Subject: [PATCH 30/90] fix: tree_wise_performance handles models with fewer
 trees than the step

---
 rankeval/analysis/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 836a2cd..a5f2bfb 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -115,7 +115,7 @@ def tree_wise_performance(datasets, models, metrics, step=10, cache=False):
     def get_tree_steps(model_trees):
         trees = list(xrange(step-1, model_trees, step))
         # Add last tree to the steps
-        if trees[-1] != model_trees-1:
+        if not trees or trees[-1] != model_trees-1:
             trees.append(model_trees-1)
         return np.array(trees)
 
-- 
2.43.0


From 9471684618a31d5fea67ec15173f88dad5402410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:44 +0000
Subject: [PATCH 31/90] fix: query_class_performance accepts classes given as
 lists

---
 rankeval/analysis/effectiveness.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index a5f2bfb..e58cdc9 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -359,6 +359,8 @@ def query_class_performance(datasets, models, metrics, query_classes,
                 _, metric_scores = metric.eval(dataset, y_pred)
                 glob_metric_scores[idx_dataset][idx_model][idx_metric] = metric_scores
 
+    query_classes = [np.asarray(query_class) for query_class in query_classes]
+
     # computing unique elements for each list of query class
     unique_query_classes = [np.unique(query_class) for query_class in query_classes]
     unique_classes = np.unique([c for d in unique_query_classes for c in d])
@@ -375,7 +377,7 @@ def query_class_performance(datasets, models, metrics, query_classes,
                 for idx_query_class, query_class in enumerate(unique_classes):
                     indices = np.where(query_classes[idx_dataset] == query_class)
                     # If this query class is not present in this dataset, skip it
-                    if not len(indices):
+                    if not len(indices[0]):
                         continue
 
                     query_class_metric_scores[idx_dataset][idx_model][idx_metric][idx_query_class] = \
-- 
2.43.0


From 8e1f7ee140b73001e5c604e3542aa328725d03a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:44 +0000
Subject: [PATCH 32/90] fix: the bins of the cumulative distributions are
 labelled by their right edge for every range

---
 rankeval/analysis/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index e58cdc9..5119f18 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -307,7 +307,7 @@ def query_wise_performance(datasets, models, metrics, bins=None,
     performance = xr.DataArray(data,
                                name='Query-Wise Performance',
                                coords=[datasets, models, metrics,
-                                       bin_values[:-1] + 1.0 / bins],
+                                       bin_values[1:]],
                                dims=['dataset', 'model', 'metric', 'bin'])
     return performance
 
@@ -475,7 +475,7 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
     performance = xr.DataArray(data,
                                name='Document Graded Relevance',
                                coords=[datasets, models, rel_labels,
-                                       bin_values[:-1] + 1.0 / bins],
+                                       bin_values[1:]],
                                dims=['dataset', 'model', 'label', 'bin'])
     return performance
 
-- 
2.43.0


From d5665f70a4dd12068136882b386dc2fd5a561c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:44 +0000
Subject: [PATCH 33/90] fix: the cumulative distributions count the scores
 below a custom start

---
 rankeval/analysis/effectiveness.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 5119f18..6c1c808 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -300,7 +300,10 @@ def query_wise_performance(datasets, models, metrics, bins=None,
                 # evaluate the histogram
                 values, base = np.histogram(metric_scores, bins=bin_values)
                 # evaluate the cumulative
-                cumulative = np.cumsum(values, dtype=float) / metric_scores.size
+                cumulative = np.cumsum(values, dtype=float)
+                # scores below the range are smaller than any threshold in it
+                cumulative += np.count_nonzero(metric_scores < bin_values[0])
+                cumulative /= metric_scores.size
 
                 data[idx_dataset][idx_model][idx_metric] = cumulative
 
@@ -469,7 +472,10 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
                 # evaluate the histogram
                 values, base = np.histogram(y_pred_curr, bins=bin_values)
                 # evaluate the cumulative
-                cumulative = np.cumsum(values, dtype=float) / len(y_pred_curr)
+                cumulative = np.cumsum(values, dtype=float)
+                # scores below the range are smaller than any threshold in it
+                cumulative += np.count_nonzero(y_pred_curr < bin_values[0])
+                cumulative /= len(y_pred_curr)
                 data[idx_dataset][idx_model][idx_label] = cumulative
 
     performance = xr.DataArray(data,
-- 
2.43.0


From d2e02213a51adfd1b81395dceb1743ebcdc36aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:44 +0000
Subject: [PATCH 34/90] fix: document_graded_relevance handles datasets of
 different sizes, missing labels and bins=None

---
 rankeval/analysis/effectiveness.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 6c1c808..0775603 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -452,10 +452,12 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
         start = min_doc_score
     if end is None:
         end = max_doc_score
+    if bins is None:
+        bins = np.max([dataset.n_queries for dataset in datasets])
 
     bin_values = np.linspace(start=start, stop=end, num=bins+1)
 
-    rel_labels = np.sort(np.unique([dataset.y for dataset in datasets]))
+    rel_labels = np.unique(np.concatenate([dataset.y for dataset in datasets]))
 
     data = np.full(shape=(len(datasets), len(models), len(rel_labels), bins),
                    fill_value=np.nan, dtype=np.float32)
@@ -465,7 +467,7 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
             for idx_label, graded_rel in enumerate(rel_labels):
                 indices = np.where(dataset.y == graded_rel)
                 # If this graded relevance is not present in this dataset, skip it
-                if not len(indices):
+                if not len(indices[0]):
                     continue
                 y_pred = model.score(dataset, detailed=False, cache=cache)
                 y_pred_curr = y_pred[indices]
-- 
2.43.0


From aa66ecf1bec2bcfe1766883c5d8168c42a9e3d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:44 +0000
Subject: [PATCH 35/90] fix: rank_confusion_matrix handles datasets of
 different sizes and non-consecutive labels

---
 rankeval/analysis/effectiveness.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 0775603..dafa2d7 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -519,7 +519,8 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
         documents with a predicted score smaller than documents with label l_j
     """
 
-    rel_labels = np.sort(np.unique([dataset.y for dataset in datasets])).astype(np.int32)
+    rel_labels = np.unique(np.concatenate(
+        [dataset.y for dataset in datasets]).astype(np.int32))
 
     data = np.zeros(shape=(len(datasets), len(models), len(rel_labels),
                            len(rel_labels)), dtype=np.int32)
@@ -527,14 +528,16 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
     for idx_dataset, dataset in enumerate(datasets):
         for idx_model, model in enumerate(models):
             y_pred = model.score(dataset, detailed=False, cache=cache)
+            # position of the label of each document in the matrix
+            idx_label = np.searchsorted(rel_labels, dataset.y.astype(np.int32))
             for query_id, start_offset, end_offset in dataset.query_iterator():
                 for i in np.arange(start_offset, end_offset):
                     for j in np.arange(i, end_offset):
                         # check if the two documents have the same label and skip them
                         if skip_same_label and dataset.y[i] == dataset.y[j]:
                             continue
-                        y_i = dataset.y[i].astype(np.int32)
-                        y_j = dataset.y[j].astype(np.int32)
+                        y_i = idx_label[i]
+                        y_j = idx_label[j]
                         if y_pred[i] < y_pred[j]:
                             data[idx_dataset][idx_model][y_i, y_j] += 1
                         else:
-- 
2.43.0


From 56f65c038d38c5124bbdd3c93da751701fc67c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:44 +0000
Subject: [PATCH 36/90] fix: rank_confusion_matrix does not count documents
 with the same score

---
 rankeval/analysis/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index dafa2d7..3dedee0 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -540,7 +540,7 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
                         y_j = idx_label[j]
                         if y_pred[i] < y_pred[j]:
                             data[idx_dataset][idx_model][y_i, y_j] += 1
-                        else:
+                        elif y_pred[j] < y_pred[i]:
                             data[idx_dataset][idx_model][y_j, y_i] += 1
 
     performance = xr.DataArray(data,
-- 
2.43.0


From d0d687f7137bbd12a6f8fc37a015b172d0d10959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:31 +0000
Subject: [PATCH 37/90] fix: feature importance handles trees made of a single
 leaf

---
 rankeval/analysis/_efficient_feature_impl.cpp | 5 ++++-
 rankeval/analysis/feature.py                  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index 4c733b9..bc5dc4b 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -87,7 +87,10 @@ void c_feature_importance_tree(
         y_pred_tree[instance] = mean_y_target;
 
     TreeNode root(trees_root[tree_id], 0, n_instances - 1);
-    std::vector<TreeNode> queue = { root };
+    std::vector<TreeNode> queue;
+    // a tree made of a single leaf has no split node to evaluate
+    if (!is_leaf_node(trees_root[tree_id], trees_left_child, trees_right_child))
+        queue.push_back(root);
 
     while (!queue.empty()) {
 
diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 3472958..8a016d2 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -139,7 +139,10 @@ def _feature_importance_tree(model, dataset, tree_id, y_pred, metric,
 
     # queue with node_id to be visited and list of documents in the node
     root_node_id = model.trees_root[tree_id]
-    deq = deque([(root_node_id, 0, None)])
+    deq = deque()
+    # a tree made of a single leaf has no split node to evaluate
+    if not model.is_leaf_node(root_node_id):
+        deq.append((root_node_id, 0, None))
 
     # we score the tree on a level basis, so that the feature_gain of each split
     # node is computed accordingly to the predictions of the parent level
-- 
2.43.0


From 5c758eee7dccf2b2b65d5c2d410beb5667b691ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:31 +0000
Subject: [PATCH 38/90] fix: feature importance handles every memory layout and
 type of the dataset

---
 rankeval/analysis/_efficient_feature.pyx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature.pyx b/rankeval/analysis/_efficient_feature.pyx
index 2e3e2c8..83089a0 100644
--- a/rankeval/analysis/_efficient_feature.pyx
+++ b/rankeval/analysis/_efficient_feature.pyx
@@ -54,6 +54,10 @@ cdef extern from "_efficient_feature_impl.h":
 @cython.wraparound(False)
 def eff_feature_importance(model, dataset):
 
+    # the native code reads single-precision values row by row
+    X = np.ascontiguousarray(dataset.X, dtype=np.float32)
+    y = np.ascontiguousarray(dataset.y, dtype=np.float32)
+
     # initialize features importance
     feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
 
@@ -61,8 +65,8 @@ def eff_feature_importance(model, dataset):
     feature_count = np.zeros(dataset.n_features, dtype=np.uint16)
 
     c_feature_importance(
-        <float*> np.PyArray_DATA(dataset.X),
-        <float*> np.PyArray_DATA(dataset.y),
+        <float*> np.PyArray_DATA(X),
+        <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
         <short*> np.PyArray_DATA(model.trees_nodes_feature),
@@ -83,11 +87,15 @@ def eff_feature_importance(model, dataset):
 def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
                              feature_imp, feature_count):
 
+    # the native code reads single-precision values row by row
+    X = np.ascontiguousarray(dataset.X, dtype=np.float32)
+    y = np.ascontiguousarray(dataset.y, dtype=np.float32)
+
     y_pred_tree = np.zeros(dataset.n_instances, dtype=np.float32);
 
     c_feature_importance_tree(
-        <float*> np.PyArray_DATA(dataset.X),
-        <float*> np.PyArray_DATA(dataset.y),
+        <float*> np.PyArray_DATA(X),
+        <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
         <short*> np.PyArray_DATA(model.trees_nodes_feature),
-- 
2.43.0


From 9237516f48856616dba15ed000c5ee8ea6999b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:31 +0000
Subject: [PATCH 39/90] fix: feature importance rejects datasets without the
 features of the model

---
 rankeval/analysis/feature.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 8a016d2..adeb6b8 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -61,6 +61,11 @@ def feature_importance(model, dataset, metric=None, normalize=True):
     if metric is None:
         metric = MSE()
 
+    # leaves have no feature (-1)
+    if model.trees_nodes_feature.max() >= dataset.n_features:
+        raise RuntimeError("Dataset features are not compatible with "
+                           "model features")
+
     if isinstance(metric, RMSE) or isinstance(metric, MSE):
         feature_imp, feature_count = eff_feature_importance(model, dataset)
         if isinstance(metric, RMSE):
-- 
2.43.0


From 54dad77fc65c7e2c9659b4522e395c97bd2f232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:31 +0000
Subject: [PATCH 40/90] fix: feature importance counts the split nodes reached
 by less than two documents

---
 rankeval/analysis/_efficient_feature_impl.cpp | 6 +++---
 rankeval/analysis/_efficient_feature_impl.h   | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index bc5dc4b..df52eef 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -132,7 +132,7 @@ void c_feature_importance_tree(
         // compute split gain
         float delta_mse = 0;
         #pragma omp parallel for reduction( + : delta_mse )
-        for (unsigned int i = node.start_id; i <= node.end_id; ++i) {
+        for (int i = node.start_id; i <= node.end_id; ++i) {
             unsigned int instance = split_instance[i];
             float pre_split_mse =
                 pow(y_target[instance] - y_pred_tree[instance], 2);
@@ -154,7 +154,7 @@ void c_feature_importance_tree(
         // if children are not leaves, add in the queue of the nodes to visit
         if (!is_leaf_node(trees_left_child[node_id],
                           trees_left_child,
-                          trees_right_child) && end_id > node.start_id) {
+                          trees_right_child)) {
 
             TreeNode left(trees_left_child[node_id], node.start_id, end_id);
             queue.push_back(left);
@@ -162,7 +162,7 @@ void c_feature_importance_tree(
 
         if (!is_leaf_node(trees_right_child[node_id],
                           trees_left_child,
-                          trees_right_child) && node.end_id > (end_id + 1) ) {
+                          trees_right_child)) {
 
             TreeNode right(trees_right_child[node_id], end_id + 1, node.end_id);
             queue.push_back(right);
diff --git a/rankeval/analysis/_efficient_feature_impl.h b/rankeval/analysis/_efficient_feature_impl.h
index 9b78b1a..4558f14 100644
--- a/rankeval/analysis/_efficient_feature_impl.h
+++ b/rankeval/analysis/_efficient_feature_impl.h
@@ -1,12 +1,12 @@
 class TreeNode {
     public:
         unsigned int node_id;
-        unsigned int start_id;
-        unsigned int end_id;
+        int start_id;
+        int end_id;
 
         TreeNode(unsigned int node_id,
-                 unsigned int start_id,
-                 unsigned int end_id) :
+                 int start_id,
+                 int end_id) :
             node_id(node_id),
             start_id(start_id),
             end_id(end_id) {}
-- 
2.43.0


From bf0e855d5d8fccf9e5ef7984718a1b17a7c80e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:31 +0000
Subject: [PATCH 41/90] fix: RMSE feature importance takes the square root of
 every feature, not of the first one

---
 rankeval/analysis/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index adeb6b8..256f9d7 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -69,7 +69,7 @@ def feature_importance(model, dataset, metric=None, normalize=True):
     if isinstance(metric, RMSE) or isinstance(metric, MSE):
         feature_imp, feature_count = eff_feature_importance(model, dataset)
         if isinstance(metric, RMSE):
-            feature_imp[0] = np.sqrt(feature_imp[0])
+            feature_imp = np.sqrt(np.maximum(feature_imp, 0))
     else:
         # initialize features importance
         feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
-- 
2.43.0


From 97c448c79203fca7740fe5734a8dc88e39b1733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:31 +0000
Subject: [PATCH 42/90] fix: normalization of feature importance handles models
 without any gain

---
 rankeval/analysis/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 256f9d7..66c1af7 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -85,7 +85,7 @@ def feature_importance(model, dataset, metric=None, normalize=True):
             _feature_importance_tree(model, dataset, tree_id, y_pred, metric,
                                      feature_imp, feature_count)
 
-    if normalize:
+    if normalize and feature_imp.max() != 0:
         feature_imp = feature_imp / feature_imp.max()
 
     performance = xr.DataArray([feature_imp, feature_count],
-- 
2.43.0


From a185d4423d51f5eaa6471c33cff2232884974669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:31 +0000
Subject: [PATCH 43/90] fix: generic feature importance sends missing values to
 the right, as scoring does

---
 rankeval/analysis/feature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 66c1af7..779d048 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -172,10 +172,10 @@ def _feature_importance_tree(model, dataset, tree_id, y_pred, metric,
             left_docs = \
                 doc_list[dataset.X[doc_list, feature_id] <= threshold]
             right_docs = \
-                doc_list[dataset.X[doc_list, feature_id] > threshold]
+                doc_list[~(dataset.X[doc_list, feature_id] <= threshold)]
         else:
             left_docs = np.where(dataset.X[:, feature_id] <= threshold)[0]
-            right_docs = np.where(dataset.X[:, feature_id] > threshold)[0]
+            right_docs = np.where(~(dataset.X[:, feature_id] <= threshold))[0]
 
         # copy parent predictions inside y_pred_mod
         y_pred_mod[:] = y_pred_tree_depth[depth]
-- 
2.43.0


From 95c15e833818df00fefa31c89d761102943970ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:42 +0000
Subject: [PATCH 44/90] fix: the randomization test counts the permutations as
 extreme as the observed one

---
 rankeval/analysis/statistical.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index 87c2693..da4e0c6 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -126,6 +126,10 @@ def _randomization(metric_scores_a, metric_scores_b, n_perm=100000):
             min=0, max=10, description="Randomization Test")
         display(progress_bar)
 
+    # single-precision sums would miss permutations as extreme as the observed one
+    metric_scores_a = np.asarray(metric_scores_a, dtype=np.float64)
+    metric_scores_b = np.asarray(metric_scores_b, dtype=np.float64)
+
     # find the best system
     metric_scores_a_mean = np.mean(metric_scores_a)
     metric_scores_b_mean = np.mean(metric_scores_b)
-- 
2.43.0


From 98e046c695519d448ac6f2c622aac771df8c85fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:42 +0000
Subject: [PATCH 45/90] fix: bias_variance works outside notebooks and with
 current versions of numpy

---
 rankeval/analysis/statistical.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index da4e0c6..2a9ae57 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -218,7 +218,7 @@ def _kfold_scoring(dataset, k, algo):
         # p-th fold is used for testing
         test_rows = np.full(dataset.n_instances,
                             fill_value=False,
-                            dtype=np.bool)
+                            dtype=bool)
         for q in shuffled_qid[p: p + chunk_query_size]:
             test_rows[dataset.query_offsets[q]:dataset.query_offsets[q+1]] = True
         # other folds are used for training
@@ -226,7 +226,7 @@ def _kfold_scoring(dataset, k, algo):
 
         train_q = np.full(dataset.n_queries,
                           fill_value=True,
-                          dtype=np.bool)
+                          dtype=bool)
         train_q[shuffled_qid[p: p+chunk_query_size]] = False
 
         # get algorithm predictions
@@ -239,9 +239,10 @@ def _kfold_scoring(dataset, k, algo):
         # update scores for the current fold
         scores[test_rows] = fold_scores
         
-    progress_bar.bar_style = "success"
-    progress_bar.close()
-        
+    if ipywidgets:
+        progress_bar.bar_style = "success"
+        progress_bar.close()
+
     return scores
 
 
-- 
2.43.0


From 2f817656456007e5b7efaf978c0e12a121a06f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:42 +0000
Subject: [PATCH 46/90] fix: fullness_per_level is relative to the nodes of a
 full level, not to those used by some tree

---
 rankeval/analysis/topological.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rankeval/analysis/topological.py b/rankeval/analysis/topological.py
index 661ad4a..b2f56e2 100644
--- a/rankeval/analysis/topological.py
+++ b/rankeval/analysis/topological.py
@@ -135,9 +135,7 @@ class TopologicalAnalysisResult(object):
             where the j-th cell highlight how much the j-th level of the trees
             is full (normalized by the number of trees).
         """
-        # Row-sums are directly supported, and the structure of the CSR format means that
-        # the difference between successive values in the indptr array correspond exactly
-        # to the number of nonzero elements in each row.
+        # level l of a full binary tree has 2^l nodes
         sums = self.topology.sum(axis=1).A1
-        counts = np.diff(self.topology.indptr)
+        counts = 2.0 ** np.arange(self.topology.shape[0])
         return sums / counts / self.model.n_trees
-- 
2.43.0


From 84d4a706e1d040c4a8742564ba809cec82df1add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:42 +0000
Subject: [PATCH 47/90] fix: topological analysis rejects trees too high for
 the position of their nodes to be represented

---
 rankeval/analysis/_efficient_topological.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rankeval/analysis/_efficient_topological.pyx b/rankeval/analysis/_efficient_topological.pyx
index 25cf9b4..6451a0e 100644
--- a/rankeval/analysis/_efficient_topological.pyx
+++ b/rankeval/analysis/_efficient_topological.pyx
@@ -46,6 +46,10 @@ def efficient_topological_analysis(model, include_leaves=True):
                                                            idx_last_node,
                                                            c_include_leaves)
 
+    if np.any(np.asarray(height_trees) == <unsigned int> -1):
+        raise RuntimeError("Trees higher than 62 levels are not supported "
+                           "by the topological analysis")
+
     # Computes unique indices and counts the occurrences of each index (aggregate)
     unique_counts = np.unique(node_indices, return_counts=True)
 
@@ -87,6 +91,9 @@ cdef int _compute_node_indices(np.intp_t idx_tree,
         if _is_leaf_node(cur_node, trees_left_child, trees_right_child):
             if not include_leaves:
                 node_indices[cur_node] = 0
+        elif node_indices[cur_node] >= (<unsigned long long> 1 << 62) - 1:
+            # the position of the children exceeds the representable ones
+            return -1
         else:
             left_value = 2 * node_indices[cur_node] + 1
             right_value = 2 * node_indices[cur_node] + 2
-- 
2.43.0


From 975892686beee43039eebdf1d55b593d363a1e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:41 +0000
Subject: [PATCH 48/90] fix: init_plot_style works with current versions of
 matplotlib

---
 rankeval/visualization/effectiveness.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 6a75563..d2bdb75 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -18,7 +18,11 @@ def init_plot_style():
     -------
 
     """
-    plt.style.use("seaborn-notebook")
+    # the seaborn styles have been renamed in matplotlib 3.6
+    if "seaborn-notebook" in plt.style.available:
+        plt.style.use("seaborn-notebook")
+    else:
+        plt.style.use("seaborn-v0_8-notebook")
     sns.set_palette("deep")
 
 
-- 
2.43.0


From b560d999b0abc74ab6d58ac9c9c6dddea2b3265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:41 +0000
Subject: [PATCH 49/90] fix: plot_rank_confusion_matrix labels the axes with
 the dimension they show

---
 rankeval/visualization/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index d2bdb75..d2cf297 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -426,8 +426,8 @@ def plot_rank_confusion_matrix(performance):
             axes[i, 0].pcolormesh(matrix)
             axes[i, 0].set_title(performance.name + " for " + dataset.name +
                                 " and model " + model.name)
-            axes[i, 0].set_ylabel("Label j")
-            axes[i, 0].set_xlabel("Label i")
+            axes[i, 0].set_ylabel("Label i")
+            axes[i, 0].set_xlabel("Label j")
             # axes[i,0].legend(["Label "+str(int(l)) for l in
             # performance.coords['label'].values])
 
-- 
2.43.0


From 0a0da9198ed6fc3b0c9747cce0db852f09fdf442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:41 +0000
Subject: [PATCH 50/90] fix: plot_rank_confusion_matrix handles datasets with a
 single label

---
 rankeval/visualization/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index d2cf297..936b95f 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -392,7 +392,7 @@ def is_log_scale_matrix(matrix):
     """
     flat = matrix.values.flatten()
     flat.sort()
-    if flat[-1]/flat[-2] > 2:
+    if flat.size > 1 and flat[-1]/flat[-2] > 2:
         return True
     else:
         return False
-- 
2.43.0


From 6754620d019f12f458a2b58db46e438c86427cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:41 +0000
Subject: [PATCH 51/90] fix: plot_query_class_performance handles classes
 missing from some dataset

---
 rankeval/visualization/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 936b95f..36b347c 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -499,7 +499,7 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_ylabel("Metric Score")
                 axes[i, 0].set_xticks(ind - width/2. + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
-                y_max = np.ceil(performance.values.max()*1.4*10.)/10.
+                y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
                 axes[i, 0].set_ylim([0, y_max])
 
             axes[i, 0].legend(performance.coords['metric'].values,
@@ -535,7 +535,7 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_ylabel(metric)
                 axes[i, 0].set_xticks(ind - width / 2 + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
-                y_max = np.ceil(performance.values.max()*1.4*10.)/10.
+                y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
                 axes[i, 0].set_ylim([0, y_max])
 
             axes[i, 0].legend(performance.coords['model'].values,
-- 
2.43.0


From 32407efa68f33343677a016e69be3fe8353d20fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:41 +0000
Subject: [PATCH 52/90] fix: plot_feature_importance handles datasets with less
 features than max_features

---
 rankeval/visualization/feature.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rankeval/visualization/feature.py b/rankeval/visualization/feature.py
index 0d9a6c1..67c5381 100644
--- a/rankeval/visualization/feature.py
+++ b/rankeval/visualization/feature.py
@@ -62,8 +62,7 @@ def plot_feature_importance(feature_perf, max_features=10, sort_by="gain",
 
     if isinstance(max_features, six.integer_types):
         idx_sorted = idx_sorted[:max_features]
-    else:
-        max_features = len(feature_importance)
+    max_features = len(idx_sorted)
 
     top_features = idx_sorted
     top_importances = feature_importance[idx_sorted]
-- 
2.43.0


From dee8ad74f8bda18920038a42f00e3e6726de2de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:41 +0000
Subject: [PATCH 53/90] fix: export_graphviz rejects too few feature names, not
 more names than the tree uses

---
 rankeval/visualization/topological.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 4ca3663..d59bc3c 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -393,7 +393,7 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
         # n_features_ in the decision_tree
         if feature_names is not None:
             max_feature_id = np.max(ensemble.trees_nodes_feature) + 1
-            if len(feature_names) > max_feature_id:
+            if len(feature_names) < max_feature_id:
                 raise ValueError("Length of feature_names, %d "
                                  "does not match number of features, %d"
                                  % (len(feature_names),
-- 
2.43.0


From 60796e906321da3fb5943c16da06c671723a16f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:41 +0000
Subject: [PATCH 54/90] fix: export_graphviz computes the percentages over all
 the documents also for label='leaves'

---
 rankeval/visualization/topological.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index d59bc3c..9993a5e 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -245,7 +245,8 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
                 proportion_txt = ""
                 if proportion:
                     proportion_txt = " (%.2f%s)" % (
-                        float(counts[node_id]) / colors['bounds'][1] * 100,
+                        float(counts[node_id]) /
+                        counts[ensemble.trees_root[tree_id]] * 100,
                         characters[6])
                 count_label += 'counts = %s%s%s' % (counts[node_id],
                                                     proportion_txt,
-- 
2.43.0


From 63e456392a5864de3bd3349745b1c62f1a9411b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:41 +0000
Subject: [PATCH 55/90] fix: plot_shape does not draw on the figure of a
 previous plot

---
 rankeval/visualization/topological.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 9993a5e..196c5e6 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -56,7 +56,7 @@ def plot_shape(topological, max_level=10):
     )
 
     # figure
-    fig = plt.figure(1, figsize=(12, 6))
+    fig = plt.figure(figsize=(12, 6))
 
     tr = Affine2D().translate(np.pi, 0) + PolarAxes.PolarTransform()
     x_ticks = [x+2. for x in range(max_levels-1)]
-- 
2.43.0


From df53094b365234b6308111f55dd43db9aa793e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:41 +0000
Subject: [PATCH 56/90] fix: plot_shape draws each level in its ring with
 current versions of matplotlib

---
 rankeval/visualization/topological.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 196c5e6..c29c475 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -105,7 +105,7 @@ def plot_shape(topological, max_level=10):
                 z[start_idx:end_idx, level] = ts[level, node]
 
     # draw the tree nodes frequencies
-    h = ax.pcolormesh(theta, r, z, cmap=cm, vmin=0., vmax=1.)
+    h = ax.pcolormesh(theta, r, z[:-1, :-1], cmap=cm, vmin=0., vmax=1.)
 
     # color bar
     cax = fig.add_axes([.95, 0.15, 0.025, 0.8]) # axes for the colot bar
-- 
2.43.0


From d676bb1b0e4d49f3f5d18f161023d36436b762b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:23 +0000
Subject: [PATCH 57/90] fix: plot_feature_importance shows features without any
 gain

---
 rankeval/visualization/feature.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rankeval/visualization/feature.py b/rankeval/visualization/feature.py
index 67c5381..2ef7b04 100644
--- a/rankeval/visualization/feature.py
+++ b/rankeval/visualization/feature.py
@@ -101,6 +101,9 @@ def plot_feature_importance(feature_perf, max_features=10, sort_by="gain",
     ax1.set_xlim(-bar_width/2 - bar_width, max_features - 1 + bar_width*5/2)
 
     step_y = np.ceil(top_importances.max() * 10) / 100
+    # the features shown may have no gain at all
+    if step_y <= 0:
+        step_y = 0.1
     align_y_axis(ax1, ax2, step_y, 100, num_ticks=6)
 
     ax1.set_ylabel("Importance Gain")
-- 
2.43.0


From 3019713bfd4fdbdaa1aac402ccbe9345f18eebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:23 +0000
Subject: [PATCH 58/90] fix: plot_model_performance and
 plot_tree_wise_performance handle undefined values

---
 rankeval/visualization/effectiveness.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 36b347c..532eaba 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -107,8 +107,10 @@ def plot_model_performance(performance, compare="models", show_values=False):
         axes.set_title(performance.name + " for " + dataset.name)
         axes.yaxis.grid(True, zorder=0, ls="--")
         
-        y_max = np.ceil(performance.values.max()*1.4*10.)/10.
-        axes.set_ylim([0, y_max])
+        # undefined values are not drawn
+        if not np.isnan(performance.values).all():
+            y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
+            axes.set_ylim([0, y_max])
         plt.tight_layout()
 
         fig_list.append(fig)
@@ -153,6 +155,8 @@ def plot_tree_wise_performance(performance, compare="models"):
                                                model=model,
                                                metric=metric)
                     axes[i, 0].plot(k_values, metric_values.values, label=metric)
+                    if np.isnan(metric_values.values).all():
+                        continue
                     max_k = np.nanargmax(metric_values)
                     axes[i, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
                                    fillstyle="none", label=None)
@@ -179,6 +183,8 @@ def plot_tree_wise_performance(performance, compare="models"):
                                                model=model,
                                                metric=metric)
                     axes[j, 0].plot(k_values, metric_values.values, label=model)
+                    if np.isnan(metric_values.values).all():
+                        continue
                     max_k = np.nanargmax(metric_values)
                     axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
                                    fillstyle = "none", label=None)
@@ -205,6 +211,8 @@ def plot_tree_wise_performance(performance, compare="models"):
                                                model=model,
                                                metric=metric)
                     axes[j, 0].plot(k_values, metric_values.values, label=dataset.name)
+                    if np.isnan(metric_values.values).all():
+                        continue
                     max_k = np.nanargmax(metric_values)
                     axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
                                    fillstyle = "none", label=None)
-- 
2.43.0


From 3f16b95b5202fcd218d865baba6abf33fbf616ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:00 +0000
Subject: [PATCH 59/90] fix: plot_query_class_performance handles metrics
 undefined for every class

---
 rankeval/visualization/effectiveness.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 532eaba..1ea8768 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -507,8 +507,9 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_ylabel("Metric Score")
                 axes[i, 0].set_xticks(ind - width/2. + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
-                y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
-                axes[i, 0].set_ylim([0, y_max])
+                if not np.isnan(performance.values).all():
+                    y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
+                    axes[i, 0].set_ylim([0, y_max])
 
             axes[i, 0].legend(performance.coords['metric'].values,
                               bbox_to_anchor=(1.05, 1),
@@ -543,8 +544,9 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_ylabel(metric)
                 axes[i, 0].set_xticks(ind - width / 2 + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
-                y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
-                axes[i, 0].set_ylim([0, y_max])
+                if not np.isnan(performance.values).all():
+                    y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
+                    axes[i, 0].set_ylim([0, y_max])
 
             axes[i, 0].legend(performance.coords['model'].values,
                               bbox_to_anchor=(1.05, 1),
-- 
2.43.0


From 68ea34427b288bd40524dc9cb2e1fc8406a626dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:08 +0000
Subject: [PATCH 60/90] fix: model files that do not define every node of their
 trees are rejected

---
 rankeval/model/rt_ensemble.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/rankeval/model/rt_ensemble.py b/rankeval/model/rt_ensemble.py
index f48b555..2a5470c 100644
--- a/rankeval/model/rt_ensemble.py
+++ b/rankeval/model/rt_ensemble.py
@@ -137,6 +137,10 @@ class RTEnsemble(object):
         else:
             raise TypeError("Model format %s not yet supported!" % format)
 
+        if not self._is_complete():
+            raise ValueError("The file %s does not define a complete %s model!"
+                             % (file_path, format))
+
         if n_trees is not None and n_trees < self.n_trees:
             self._prune_model(n_trees)
 
@@ -159,16 +163,34 @@ class RTEnsemble(object):
 
         self.trees_root = np.full(shape=n_trees, fill_value=-1, dtype=np.int32)
         self.trees_weight = \
-            np.zeros(shape=n_trees, dtype=np.float32)
+            np.full(shape=n_trees, fill_value=np.nan, dtype=np.float32)
         self.trees_left_child = \
             np.full(shape=n_nodes, fill_value=-1, dtype=np.int32)
         self.trees_right_child = \
             np.full(shape=n_nodes, fill_value=-1, dtype=np.int32)
         self.trees_nodes_value = \
-            np.full(shape=n_nodes, fill_value=-1, dtype=np.float32)
+            np.full(shape=n_nodes, fill_value=np.nan, dtype=np.float32)
         self.trees_nodes_feature = \
             np.full(shape=n_nodes, fill_value=-1, dtype=np.int16)
 
+    def _is_complete(self):
+        """
+        Check that the loader found every piece of every tree: each node has its
+        value, each split its feature and both its children, and each node is
+        either the root of a tree or the child of exactly one split.
+        """
+        if not self.n_trees:
+            return False
+
+        splits = self.trees_left_child != -1
+        nodes = np.concatenate((self.trees_root, self.trees_left_child[splits],
+                                self.trees_right_child[splits]))
+        return np.array_equal(np.sort(nodes), np.arange(self.n_nodes)) and \
+            np.array_equal(splits, self.trees_right_child != -1) and \
+            np.array_equal(splits, self.trees_nodes_feature != -1) and \
+            not np.isnan(self.trees_nodes_value).any() and \
+            not np.isnan(self.trees_weight).any()
+
     def is_leaf_node(self, index):
         """
         This method returns true if the node identified by the given index is a
-- 
2.43.0


From 9199d904e39bf817e678a477105250299971fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:58 +0000
Subject: [PATCH 61/90] fix: model files whose splits form a cycle or use an
 invalid feature are rejected

---
 rankeval/model/rt_ensemble.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/rankeval/model/rt_ensemble.py b/rankeval/model/rt_ensemble.py
index 2a5470c..6c96604 100644
--- a/rankeval/model/rt_ensemble.py
+++ b/rankeval/model/rt_ensemble.py
@@ -187,9 +187,24 @@ class RTEnsemble(object):
                                 self.trees_right_child[splits]))
         return np.array_equal(np.sort(nodes), np.arange(self.n_nodes)) and \
             np.array_equal(splits, self.trees_right_child != -1) and \
-            np.array_equal(splits, self.trees_nodes_feature != -1) and \
+            np.array_equal(splits, self.trees_nodes_feature >= 0) and \
             not np.isnan(self.trees_nodes_value).any() and \
-            not np.isnan(self.trees_weight).any()
+            not np.isnan(self.trees_weight).any() and \
+            self._is_connected()
+
+    def _is_connected(self):
+        """
+        Check that each node is reached by following the splits from the roots,
+        given that each node is referred to exactly once.
+        """
+        n_reached = 0
+        nodes = self.trees_root
+        while len(nodes):
+            n_reached += len(nodes)
+            nodes = np.concatenate((self.trees_left_child[nodes],
+                                    self.trees_right_child[nodes]))
+            nodes = nodes[nodes != -1]
+        return n_reached == self.n_nodes
 
     def is_leaf_node(self, index):
         """
-- 
2.43.0


From 756066918997c48c279f30f952a581ac46c55a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:21 +0000
Subject: [PATCH 62/90] fix: the LightGBM loader rejects linear trees and
 multi-class models

---
 rankeval/model/proxy_LightGBM.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rankeval/model/proxy_LightGBM.py b/rankeval/model/proxy_LightGBM.py
index db8cbb1..f881f50 100644
--- a/rankeval/model/proxy_LightGBM.py
+++ b/rankeval/model/proxy_LightGBM.py
@@ -47,6 +47,8 @@ leaf_parent_reg = re.compile("^leaf_parent=(.*)")
 leaf_value_reg = re.compile("^leaf_value=(.*)")
 shrinkage_reg = re.compile("^shrinkage=(.*)")
 has_categorical_reg = re.compile("^has_categorical=(.*)")
+is_linear_reg = re.compile("^is_linear=(.*)")
+trees_per_iteration_reg = re.compile("^num_tree_per_iteration=(.*)")
 
 
 class ProxyLightGBM(object):
@@ -157,6 +159,18 @@ class ProxyLightGBM(object):
                         raise AssertionError("Missing Values not supported!")
                     continue
 
+                match = is_linear_reg.match(line)
+                if match:
+                    if int(match.group(1)):
+                        raise AssertionError("Linear trees not supported!")
+                    continue
+
+                match = trees_per_iteration_reg.match(line)
+                if match:
+                    if int(match.group(1)) != 1:
+                        raise AssertionError("Multi-class models not supported!")
+                    continue
+
                 match = has_categorical_reg.match(line)
                 if match:
                     categorical = bool(int(match.group(1)))
-- 
2.43.0


From 519d7246530738b3d248471858bc5c95dd707c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:13 +0000
Subject: [PATCH 63/90] fix: LightGBM, Jforests and CatBoost loaders reject
 references out of the tree

---
 rankeval/model/proxy_CatBoost.py | 1 +
 rankeval/model/proxy_Jforests.py | 2 ++
 rankeval/model/proxy_LightGBM.py | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/rankeval/model/proxy_CatBoost.py b/rankeval/model/proxy_CatBoost.py
index 04dc349..4f870be 100644
--- a/rankeval/model/proxy_CatBoost.py
+++ b/rankeval/model/proxy_CatBoost.py
@@ -118,6 +118,7 @@ class ProxyCatBoost(object):
 
     @staticmethod
     def remap_nodeId(nodeId, n_nodes_per_tree):
+        assert(nodeId < n_nodes_per_tree)
         return n_nodes_per_tree - 1 - nodeId
 
     @staticmethod
diff --git a/rankeval/model/proxy_Jforests.py b/rankeval/model/proxy_Jforests.py
index fc643ac..b2f5a2a 100644
--- a/rankeval/model/proxy_Jforests.py
+++ b/rankeval/model/proxy_Jforests.py
@@ -80,6 +80,7 @@ class ProxyJforests(object):
                 elif elem.tag == 'LeftChildren':
                     left_children = map(int, elem.text.split(" "))
                     for pos, child in enumerate(left_children):
+                        assert(child < num_splits)
                         if child >= 0:
                             model.trees_left_child[root_node + pos] = \
                                 root_node + child
@@ -89,6 +90,7 @@ class ProxyJforests(object):
                 elif elem.tag == 'RightChildren':
                     right_children = map(int, elem.text.split(" "))
                     for pos, child in enumerate(right_children):
+                        assert(child < num_splits)
                         if child >= 0:
                             model.trees_right_child[root_node + pos] = \
                                 root_node + child
diff --git a/rankeval/model/proxy_LightGBM.py b/rankeval/model/proxy_LightGBM.py
index f881f50..aba3fa6 100644
--- a/rankeval/model/proxy_LightGBM.py
+++ b/rankeval/model/proxy_LightGBM.py
@@ -105,6 +105,7 @@ class ProxyLightGBM(object):
                 if match:
                     left_children = list( map(int, match.group(1).strip().split()) )
                     for pos, child in enumerate(left_children):
+                        assert(child < num_splits)
                         if child >= 0:
                             model.trees_left_child[root_node + pos] = \
                                 root_node + child
@@ -117,6 +118,7 @@ class ProxyLightGBM(object):
                 if match:
                     right_children = list( map(int, match.group(1).strip().split()) )
                     for pos, child in enumerate(right_children):
+                        assert(child < num_splits)
                         if child >= 0:
                             model.trees_right_child[root_node + pos] = \
                                 root_node + child
-- 
2.43.0


From af99e35e2c24641a3182e87d3219bfbea5227cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:12 +0000
Subject: [PATCH 64/90] fix: LightGBM and Jforests loaders reject more
 thresholds than splits

---
 rankeval/model/proxy_Jforests.py | 1 +
 rankeval/model/proxy_LightGBM.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rankeval/model/proxy_Jforests.py b/rankeval/model/proxy_Jforests.py
index b2f5a2a..45e2e51 100644
--- a/rankeval/model/proxy_Jforests.py
+++ b/rankeval/model/proxy_Jforests.py
@@ -100,6 +100,7 @@ class ProxyJforests(object):
                 elif elem.tag == 'OriginalThresholds':
                     thresholds = map(float, elem.text.split(" "))
                     for pos, threshold in enumerate(thresholds):
+                        assert(pos < num_splits)
                         model.trees_nodes_value[root_node + pos] = threshold
                 elif elem.tag == 'LeafOutputs':
                     leaf_values = map(float, elem.text.split(" "))
diff --git a/rankeval/model/proxy_LightGBM.py b/rankeval/model/proxy_LightGBM.py
index aba3fa6..8c89c7b 100644
--- a/rankeval/model/proxy_LightGBM.py
+++ b/rankeval/model/proxy_LightGBM.py
@@ -98,6 +98,7 @@ class ProxyLightGBM(object):
                 if match:
                     thresholds = list( map(float, match.group(1).strip().split()) )
                     for pos, threshold in enumerate(thresholds):
+                        assert(pos < num_splits)
                         model.trees_nodes_value[root_node + pos] = threshold
                     continue
 
-- 
2.43.0


From 0d76c0b0cde3dd6a89ac89c808875d6828d0d97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:39 +0000
Subject: [PATCH 65/90] fix: split rejects a negative validation size, which
 put queries in two parts

---
 rankeval/dataset/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index d9a82dc..cde0a35 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -193,7 +193,8 @@ class Dataset(object):
             of each fold, without creating the dataset.
         """
 
-        if train_size < 0 or train_size > 1 or (train_size + vali_size) > 1:
+        if train_size < 0 or train_size > 1 or vali_size < 0 or \
+                (train_size + vali_size) > 1:
             raise Exception("train and/or validation sizes are not correct!")
 
         train_qn = int(round(train_size * self.n_queries))
-- 
2.43.0


From 3580f92972b447297ea1be3af66512841149b824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:39 +0000
Subject: [PATCH 66/90] fix: kfold rejects numbers of folds that leave every
 part empty

---
 rankeval/dataset/dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index cde0a35..b2ed4db 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -342,6 +342,10 @@ class Dataset(object):
             The datasets for that split. If qids_only=True, the methods yields
             only the query ids of each fold, without creating the dataset.
         """
+        if n_folds < 2 or n_folds > self.n_queries:
+            raise ValueError("n_folds should be between 2 and the number of "
+                             "queries (%d). Got %s" % (self.n_queries, n_folds))
+
         fold_size = int(np.floor(self.n_queries / n_folds))
         qids = np.copy(self.query_ids)
         if shuffle:
-- 
2.43.0


From 6febc3a24fbf0e6e504556fb37b7ad5fb70db034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:39 +0000
Subject: [PATCH 67/90] fix: Dataset rejects labels of the wrong size

---
 rankeval/dataset/dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index b2ed4db..2744ce2 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -60,6 +60,9 @@ class Dataset(object):
             raise Exception(
                 "query_ids has wrong size. Expected %s but got %s" % (
                 X.shape[0], query_ids.size))
+        if y.size != X.shape[0]:
+            raise Exception("y has wrong size. Expected %s but got %s" % (
+                X.shape[0], y.size))
 
         # convert from query_ids per sample to query offset
         self.query_ids, self.query_offsets = \
-- 
2.43.0


From 0727fb20756198656f743afa35b957943c93ea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:39 +0000
Subject: [PATCH 68/90] fix: metrics reject predictions of the wrong size

---
 rankeval/metrics/metric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rankeval/metrics/metric.py b/rankeval/metrics/metric.py
index 9907f5e..9d01b07 100644
--- a/rankeval/metrics/metric.py
+++ b/rankeval/metrics/metric.py
@@ -110,6 +110,10 @@ class Metric(six.with_metaclass(ABCMeta)):
             The predicted scores for the instances in the dataset belonging to
             the same query id.
         """
+        if len(y_pred) != dataset.n_instances:
+            raise ValueError("y_pred has wrong size. Expected %s but got %s" % (
+                dataset.n_instances, len(y_pred)))
+
         for query_id, start_offset, end_offset in dataset.query_iterator():
             yield (query_id,
                    dataset.y[start_offset:end_offset],
-- 
2.43.0


From 7714b6c549809c13874bc1473158f613ccb4941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:12 +0000
Subject: [PATCH 69/90] fix: models are not pruned to less than one tree

---
 rankeval/model/rt_ensemble.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rankeval/model/rt_ensemble.py b/rankeval/model/rt_ensemble.py
index 6c96604..cbb841a 100644
--- a/rankeval/model/rt_ensemble.py
+++ b/rankeval/model/rt_ensemble.py
@@ -443,6 +443,10 @@ class RTEnsemble(object):
         if n_trees >= self.n_trees:
             return
 
+        if n_trees < 1:
+            raise ValueError("A model should have at least one tree. Got %d"
+                             % n_trees)
+
         start_idx_prune = self.trees_root[n_trees]
 
         self.trees_root = self.trees_root[:n_trees]
-- 
2.43.0


From a03efb1bc02bacbd50dbd2b67ac2f483d483025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:57 +0000
Subject: [PATCH 70/90] fix: model files with ids too large for the ensemble
 are rejected instead of losing their highest digits

---
 rankeval/model/rt_ensemble.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rankeval/model/rt_ensemble.py b/rankeval/model/rt_ensemble.py
index cbb841a..ddd7754 100644
--- a/rankeval/model/rt_ensemble.py
+++ b/rankeval/model/rt_ensemble.py
@@ -141,6 +141,14 @@ class RTEnsemble(object):
             raise ValueError("The file %s does not define a complete %s model!"
                              % (file_path, format))
 
+        # the loaders fill the ids in with all of their digits
+        if self.trees_nodes_feature.max() > np.iinfo(np.int16).max:
+            raise ValueError("The file %s uses features with an id higher than "
+                             "%d!" % (file_path, np.iinfo(np.int16).max))
+        self.trees_nodes_feature = self.trees_nodes_feature.astype(np.int16)
+        self.trees_left_child = self.trees_left_child.astype(np.int32)
+        self.trees_right_child = self.trees_right_child.astype(np.int32)
+
         if n_trees is not None and n_trees < self.n_trees:
             self._prune_model(n_trees)
 
@@ -165,13 +173,13 @@ class RTEnsemble(object):
         self.trees_weight = \
             np.full(shape=n_trees, fill_value=np.nan, dtype=np.float32)
         self.trees_left_child = \
-            np.full(shape=n_nodes, fill_value=-1, dtype=np.int32)
+            np.full(shape=n_nodes, fill_value=-1, dtype=np.int64)
         self.trees_right_child = \
-            np.full(shape=n_nodes, fill_value=-1, dtype=np.int32)
+            np.full(shape=n_nodes, fill_value=-1, dtype=np.int64)
         self.trees_nodes_value = \
             np.full(shape=n_nodes, fill_value=np.nan, dtype=np.float32)
         self.trees_nodes_feature = \
-            np.full(shape=n_nodes, fill_value=-1, dtype=np.int16)
+            np.full(shape=n_nodes, fill_value=-1, dtype=np.int64)
 
     def _is_complete(self):
         """
-- 
2.43.0


From 769c651afce2bad7a3e3452396266f1e4888f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:57 +0000
Subject: [PATCH 71/90] fix: feature importance counts more than 65535 uses of
 a feature and numbers as many features

---
 rankeval/analysis/_efficient_feature.pyx      | 17 +++++++++++------
 rankeval/analysis/_efficient_feature_impl.cpp |  4 ++--
 rankeval/analysis/_efficient_feature_impl.h   |  4 ++--
 rankeval/analysis/feature.py                  |  4 ++--
 rankeval/visualization/feature.py             |  2 +-
 5 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature.pyx b/rankeval/analysis/_efficient_feature.pyx
index 83089a0..d67b048 100644
--- a/rankeval/analysis/_efficient_feature.pyx
+++ b/rankeval/analysis/_efficient_feature.pyx
@@ -28,7 +28,7 @@ cdef extern from "_efficient_feature_impl.h":
         const int* trees_left_child,
         const int* trees_right_child,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         const int n_instances,
         const int n_features,
         const int n_trees);
@@ -44,7 +44,7 @@ cdef extern from "_efficient_feature_impl.h":
         const int* trees_right_child,
         const int tree_id,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         const int n_instances,
         const int n_features,
         float* y_pred,
@@ -62,7 +62,7 @@ def eff_feature_importance(model, dataset):
     feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
 
     # initialize features importance
-    feature_count = np.zeros(dataset.n_features, dtype=np.uint16)
+    feature_count = np.zeros(dataset.n_features, dtype=np.int32)
 
     c_feature_importance(
         <float*> np.PyArray_DATA(X),
@@ -74,13 +74,13 @@ def eff_feature_importance(model, dataset):
         <int*> np.PyArray_DATA(model.trees_left_child),
         <int*> np.PyArray_DATA(model.trees_right_child),
         <float*> np.PyArray_DATA(feature_imp),
-        <short*> np.PyArray_DATA(feature_count),
+        <int*> np.PyArray_DATA(feature_count),
         dataset.X.shape[0],
         dataset.X.shape[1],
         model.n_trees);
 
     return np.asarray(feature_imp, dtype=np.float32), \
-           np.asarray(feature_count, dtype=np.uint16)
+           np.asarray(feature_count, dtype=np.int32)
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -93,6 +93,9 @@ def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
 
     y_pred_tree = np.zeros(dataset.n_instances, dtype=np.float32);
 
+    # the features used by this tree
+    tree_count = np.zeros(dataset.n_features, dtype=np.int32)
+
     c_feature_importance_tree(
         <float*> np.PyArray_DATA(X),
         <float*> np.PyArray_DATA(y),
@@ -104,10 +107,12 @@ def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
         <int*> np.PyArray_DATA(model.trees_right_child),
         tree_id,
         <float*> np.PyArray_DATA(feature_imp),
-        <short*> np.PyArray_DATA(feature_count),
+        <int*> np.PyArray_DATA(tree_count),
         dataset.X.shape[0],
         dataset.X.shape[1],
         <float*> np.PyArray_DATA(y_pred),
         <float*> np.PyArray_DATA(y_pred_tree));
 
+    feature_count += tree_count.astype(feature_count.dtype)
+
     return np.asarray(y_pred_tree, dtype=np.float32)
\ No newline at end of file
diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index df52eef..c795af9 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -14,7 +14,7 @@ void c_feature_importance(
         const int* trees_left_child,
         const int* trees_right_child,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         int n_instances,
         int n_features,
         int n_trees) {
@@ -59,7 +59,7 @@ void c_feature_importance_tree(
         const int* trees_right_child,
         const int tree_id,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         const int n_instances,
         const int n_features,
         float* y_pred,
diff --git a/rankeval/analysis/_efficient_feature_impl.h b/rankeval/analysis/_efficient_feature_impl.h
index 4558f14..ff2fab1 100644
--- a/rankeval/analysis/_efficient_feature_impl.h
+++ b/rankeval/analysis/_efficient_feature_impl.h
@@ -26,7 +26,7 @@ void c_feature_importance(
         const int* trees_left_child,
         const int* trees_right_child,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         const int n_instances,
         const int n_features,
         const int n_trees);
@@ -42,7 +42,7 @@ void c_feature_importance_tree(
         const int* trees_right_child,
         const int tree_id,
         float* feature_imp,
-        short* feature_count,
+        int* feature_count,
         const int n_instances,
         const int n_features,
         float* y_pred,
diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 779d048..504803c 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -75,7 +75,7 @@ def feature_importance(model, dataset, metric=None, normalize=True):
         feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
 
         # initialize features count
-        feature_count = np.zeros(dataset.n_features, dtype=np.uint16)
+        feature_count = np.zeros(dataset.n_features, dtype=np.int32)
 
         # default scores on the root node of the first tree
         y_pred = np.zeros(dataset.n_instances)
@@ -91,7 +91,7 @@ def feature_importance(model, dataset, metric=None, normalize=True):
     performance = xr.DataArray([feature_imp, feature_count],
                                name='Feature Importance Analysis',
                                coords=[['importance', 'count'],
-                                       np.arange(dataset.n_features, dtype=np.uint16)],
+                                       np.arange(dataset.n_features, dtype=np.uint32)],
                                dims=['type', 'feature'])
 
     return performance
diff --git a/rankeval/visualization/feature.py b/rankeval/visualization/feature.py
index 2ef7b04..a69bbcf 100644
--- a/rankeval/visualization/feature.py
+++ b/rankeval/visualization/feature.py
@@ -44,7 +44,7 @@ def plot_feature_importance(feature_perf, max_features=10, sort_by="gain",
     """
 
     feature_importance = feature_perf.sel(type='importance').data
-    feature_count = feature_perf.sel(type='count').data.astype(np.uint16)
+    feature_count = feature_perf.sel(type='count').data.astype(np.uint32)
 
     # figure
     fig, ax1 = plt.subplots(figsize=(16, 5))
-- 
2.43.0


From 0425832ee0b3f199341513d26ce7f887dee89fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:51 +0000
Subject: [PATCH 72/90] fix: ids that do not fit in 32 bits are rejected
 instead of losing their high digits

---
 rankeval/dataset/_svmlight_format.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 8b68f65..089f924 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -28,6 +28,7 @@
 #include <Python.h>
 #include <numpy/arrayobject.h>
 
+#include <climits>
 #include <fstream>
 #include <sstream>
 #include <stdexcept>
@@ -267,7 +268,7 @@ void parse_line(const std::string &line,
   }
   labels.push_back(y);
 
-  int idx;
+  long long idx;
   double x;
   int next_feature = 1;
   int last_idx = -1;
@@ -280,9 +281,12 @@ void parse_line(const std::string &line,
   }
 
 
-  if (sscanf(token.c_str(), "qid:%u", &idx) != 1) {
+  if (sscanf(token.c_str(), "qid:%lld", &idx) != 1) {
     reuse_line = true;
   } else {
+    if (idx < INT_MIN || idx > UINT_MAX)
+      throw std::invalid_argument("query id out of range, lineno " +
+                                  std::to_string(lineno));
     qids.push_back(idx);
   }
 
@@ -291,8 +295,12 @@ void parse_line(const std::string &line,
         break;
     reuse_line = false;
 
-    if(sscanf(token.c_str(), "%u:%lf", &idx, &x) == 2) {
+    if(sscanf(token.c_str(), "%lld:%lf", &idx, &x) == 2) {
 
+        if (idx > INT_MAX)
+            throw std::invalid_argument(
+                "feature index out of range, lineno " +
+                std::to_string(lineno));
         if (idx <= last_idx)
             throw std::invalid_argument(
                 "feature indices are not positive, sorted and unique, lineno " +
-- 
2.43.0


From 033cd5723611478cb27c3425e0d2f4d495978e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:51 +0000
Subject: [PATCH 73/90] fix: the columns added to the rows already loaded can
 be more than 2^31 cells

---
 rankeval/dataset/_svmlight_format.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 089f924..1be3edd 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -216,16 +216,16 @@ void reshape_data(std::vector<float> &data,
                   int &old_num_feature,
                   int new_num_feature)
 {
-  int rows_to_fix = (data.size() - new_num_feature) / old_num_feature;
-  int cells_to_add = rows_to_fix * (new_num_feature - old_num_feature);
+  long long rows_to_fix = (data.size() - new_num_feature) / old_num_feature;
+  long long cells_to_add = rows_to_fix * (new_num_feature - old_num_feature);
   int cells_to_add_per_row = cells_to_add / rows_to_fix;
 
-  for (int i=0; i<cells_to_add; ++i)
+  for (long long i=0; i<cells_to_add; ++i)
     data.push_back(0);
 
   std::vector<float>::iterator it = data.end() - new_num_feature - cells_to_add;
-  int move_counter = cells_to_add;
-  for (int i=0; i<=rows_to_fix; ++i) {
+  long long move_counter = cells_to_add;
+  for (long long i=0; i<=rows_to_fix; ++i) {
     int window = (i == 0) ? new_num_feature : old_num_feature;
     if (move_counter > 0)
       std::copy(it, it + window, it + move_counter);
-- 
2.43.0


From c83dc201649f0285489291f920b45e85a7022abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:51 +0000
Subject: [PATCH 74/90] fix: query ids wider than 32 bits are kept apart

---
 rankeval/dataset/dataset.py         | 8 ++++----
 rankeval/dataset/svmlight_format.py | 3 +++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 2744ce2..706fa91 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -157,10 +157,7 @@ class Dataset(object):
         # we need to unroll the query_ids and query_offsets.
         # They are represented compact: they report only the query ids and the
         # offsets where each query starts and ends.
-        query_ids = np.ndarray(self.n_instances, dtype=np.int32)
-        for qid, start_offset, end_offset in self.query_iterator():
-            for idx in np.arange(start_offset, end_offset):
-                query_ids[idx] = qid
+        query_ids = self.get_qids_dataset()
 
         if format == "svmlight":
             dump_svmlight_file(self.X, self.y, f, query_ids)
@@ -291,6 +288,9 @@ class Dataset(object):
         query_ids : numpy 1d array
             It is a ndarray of shape (n_instances,)
         """
+        # ids which do not fit in the given type keep their own type
+        if not np.array_equal(self.query_ids, self.query_ids.astype(dtype)):
+            dtype = self.query_ids.dtype
         query_ids = np.empty(shape=self.n_instances, dtype=dtype)
         for qid, start_offset, end_offset in self.query_iterator():
             query_ids[start_offset:end_offset] = qid
diff --git a/rankeval/dataset/svmlight_format.py b/rankeval/dataset/svmlight_format.py
index e55ec86..b996d43 100644
--- a/rankeval/dataset/svmlight_format.py
+++ b/rankeval/dataset/svmlight_format.py
@@ -203,7 +203,10 @@ def dump_svmlight_file(X, y, f, query_id=None, zero_based=False):
     if query_id is None:
         query_id = np.ndarray(0, dtype=np.int32)
     else:
+        given = np.asarray(query_id)
         query_id = np.array(query_id, dtype=np.int32)
+        if not np.array_equal(query_id, given):
+            raise ValueError("query_id must be made of 32-bit integers")
         if query_id.shape != (X.shape[0],):
             raise ValueError("query_id has wrong size. Expected %s but got %s"
                              % (X.shape[0], query_id.shape))
-- 
2.43.0


From a094577276de5de49d218023fda2e809fa6338ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:40 +0000
Subject: [PATCH 75/90] fix: model files with the trees out of order are
 rejected

---
 rankeval/model/rt_ensemble.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rankeval/model/rt_ensemble.py b/rankeval/model/rt_ensemble.py
index ddd7754..e4099dc 100644
--- a/rankeval/model/rt_ensemble.py
+++ b/rankeval/model/rt_ensemble.py
@@ -184,8 +184,9 @@ class RTEnsemble(object):
     def _is_complete(self):
         """
         Check that the loader found every piece of every tree: each node has its
-        value, each split its feature and both its children, and each node is
-        either the root of a tree or the child of exactly one split.
+        value, each split its feature and both its children, each node is
+        either the root of a tree or the child of exactly one split, and the
+        nodes of a tree precede the ones of the next tree.
         """
         if not self.n_trees:
             return False
@@ -194,6 +195,7 @@ class RTEnsemble(object):
         nodes = np.concatenate((self.trees_root, self.trees_left_child[splits],
                                 self.trees_right_child[splits]))
         return np.array_equal(np.sort(nodes), np.arange(self.n_nodes)) and \
+            np.all(np.diff(self.trees_root) > 0) and \
             np.array_equal(splits, self.trees_right_child != -1) and \
             np.array_equal(splits, self.trees_nodes_feature >= 0) and \
             not np.isnan(self.trees_nodes_value).any() and \
-- 
2.43.0


From 1881b268d3817dbdde1e7c1d910d69300555c12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:06 +0000
Subject: [PATCH 76/90] fix: LightGBM loader averages the trees of random
 forests

---
 rankeval/model/proxy_LightGBM.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rankeval/model/proxy_LightGBM.py b/rankeval/model/proxy_LightGBM.py
index 8c89c7b..4058228 100644
--- a/rankeval/model/proxy_LightGBM.py
+++ b/rankeval/model/proxy_LightGBM.py
@@ -48,6 +48,7 @@ leaf_value_reg = re.compile("^leaf_value=(.*)")
 shrinkage_reg = re.compile("^shrinkage=(.*)")
 has_categorical_reg = re.compile("^has_categorical=(.*)")
 is_linear_reg = re.compile("^is_linear=(.*)")
+average_output_reg = re.compile("^average_output$")
 trees_per_iteration_reg = re.compile("^num_tree_per_iteration=(.*)")
 
 
@@ -76,6 +77,7 @@ class ProxyLightGBM(object):
 
         curr_tree = root_node = 0
         num_leaves = num_splits = 0
+        average_output = False
         with open(file_path, 'r') as f:
             for line in f:
 
@@ -181,6 +183,13 @@ class ProxyLightGBM(object):
                         raise AssertionError("Decision Tree not supported")
                     continue
 
+                if average_output_reg.match(line):
+                    average_output = True
+                    continue
+
+        # random forests predict the average of the trees and not their sum
+        if average_output:
+            model.trees_weight /= n_trees
 
     @staticmethod
     def save(file_path, model):
-- 
2.43.0


From a4775a490aefdb79501309de6b58e872a480883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:15 +0000
Subject: [PATCH 77/90] fix: the randomization test ignores queries without a
 metric value

---
 rankeval/analysis/statistical.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index 2a9ae57..92abe45 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -130,6 +130,13 @@ def _randomization(metric_scores_a, metric_scores_b, n_perm=100000):
     metric_scores_a = np.asarray(metric_scores_a, dtype=np.float64)
     metric_scores_b = np.asarray(metric_scores_b, dtype=np.float64)
 
+    # only the queries for which the metric is defined take part in the test
+    defined = ~(np.isnan(metric_scores_a) | np.isnan(metric_scores_b))
+    if not defined.any():
+        return np.nan, np.nan
+    metric_scores_a = metric_scores_a[defined]
+    metric_scores_b = metric_scores_b[defined]
+
     # find the best system
     metric_scores_a_mean = np.mean(metric_scores_a)
     metric_scores_b_mean = np.mean(metric_scores_b)
-- 
2.43.0


From 78f1d3fcf813e8ef88adf5a85a141e4153f92dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:15 +0000
Subject: [PATCH 78/90] fix: the cumulative distributions leave out queries
 without a metric value

---
 rankeval/analysis/effectiveness.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 3dedee0..d262d12 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -277,7 +277,11 @@ def query_wise_performance(datasets, models, metrics, bins=None,
             y_pred = model.score(dataset, detailed=False, cache=cache)
             for idx_metric, metric in enumerate(metrics):
                 _, metric_scores = metric.eval(dataset, y_pred)
+                # queries without a metric value belong to no bin
+                metric_scores = metric_scores[~np.isnan(metric_scores)]
                 glob_metric_scores[idx_dataset][idx_model][idx_metric] = metric_scores
+                if not metric_scores.size:
+                    continue
                 min_metric_score = np.nanmin([min_metric_score, metric_scores.min()])
                 max_metric_score = np.nanmax([max_metric_score, metric_scores.max()])
 
@@ -297,6 +301,8 @@ def query_wise_performance(datasets, models, metrics, bins=None,
         for idx_model, model in enumerate(models):
             for idx_metric, metric in enumerate(metrics):
                 metric_scores = glob_metric_scores[idx_dataset][idx_model][idx_metric]
+                if not metric_scores.size:
+                    continue
                 # evaluate the histogram
                 values, base = np.histogram(metric_scores, bins=bin_values)
                 # evaluate the cumulative
-- 
2.43.0


From a689e7c5dc8532fe3779059f474eb4668ce19144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:15 +0000
Subject: [PATCH 79/90] fix: query_class_performance averages the queries with
 a metric value, as metrics do

---
 rankeval/analysis/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index d262d12..f6f37eb 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -390,7 +390,7 @@ def query_class_performance(datasets, models, metrics, query_classes,
                         continue
 
                     query_class_metric_scores[idx_dataset][idx_model][idx_metric][idx_query_class] = \
-                        glob_metric_scores[idx_dataset][idx_model][idx_metric][indices].mean()
+                        np.nanmean(glob_metric_scores[idx_dataset][idx_model][idx_metric][indices])
 
     performance = xr.DataArray(query_class_metric_scores,
                                name='Query Class Performance',
-- 
2.43.0


From c674dd80123ac98ec2ee1e8038c5af5094ea671f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:35 +0000
Subject: [PATCH 80/90] fix: bias_variance leaves out queries without a metric
 value

---
 rankeval/analysis/statistical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index 92abe45..f6adfb3 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -381,6 +381,8 @@ def bias_variance(datasets=[], algos=[], metrics=[], L=10, k=2):
                     q_scores = np.empty((dataset.n_queries, L), dtype=np.float32) 
                     for i in range(L):
                         q_scores[:,i] = metric.eval(dataset=dataset, y_pred=scores[:,i])[1]            
+                    # as metrics do, leave out queries without a value
+                    q_scores = q_scores[~np.isnan(q_scores).any(axis=1)]
                     avg_error = np.mean( (q_scores-1.)**2. )
                     avg_pred  = np.mean(q_scores, axis=1)
                     avg_bias  = np.mean((avg_pred - 1.)**2.)
-- 
2.43.0


From 4ec97127aaba6bf17ae558fcb2600d63929d0fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:04 +0000
Subject: [PATCH 81/90] fix: feature importance reaches every cell of datasets
 with more than 2^32 of them

---
 rankeval/analysis/_efficient_feature_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index c795af9..4c7822d 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -110,7 +110,7 @@ void c_feature_importance_tree(
         unsigned int instance;
         while (start_id <= end_id) {
             instance = split_instance[start_id];
-            if (X[instance * n_features + feature_id] <= threshold) {
+            if (X[(size_t) instance * n_features + feature_id] <= threshold) {
                 y_target_mean_left += y_target[instance];
                 ++start_id;
             } else {
-- 
2.43.0


From 0a0ecb215cfd12c1343b5dc91a8ce7a9866fe189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:19 +0000
Subject: [PATCH 82/90] fix: Dataset rejects queries whose instances are not
 contiguous

---
 rankeval/dataset/dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 706fa91..4e3ec75 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -68,6 +68,10 @@ class Dataset(object):
         self.query_ids, self.query_offsets = \
             np.unique(query_ids, return_index=True)
 
+        if self.query_ids.size > 0 and self.query_ids.size != \
+                1 + np.count_nonzero(query_ids[1:] != query_ids[:-1]):
+            raise ValueError("The instances of a query are not contiguous")
+
         # resort the arrays per offset (if the file does not contains qids in
         # order, the np.unique will return qids with a different ordering...
         idx_sort = np.argsort(self.query_offsets)
-- 
2.43.0


From 34778c760c5ff2c2480b491a9d010cd73e163b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:46 +0000
Subject: [PATCH 83/90] fix: SVMlight loader rejects numbers followed by other
 characters

---
 rankeval/dataset/_svmlight_format.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 1be3edd..588a814 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -28,6 +28,7 @@
 #include <Python.h>
 #include <numpy/arrayobject.h>
 
+#include <cctype>
 #include <climits>
 #include <fstream>
 #include <sstream>
@@ -263,7 +264,7 @@ void parse_line(const std::string &line,
   in.exceptions(std::ios::badbit);
 
   float y;
-  if (!(in >> y)) {
+  if (!(in >> y) || !(in.peek() == EOF || isspace(in.peek()))) {
   	throw std::invalid_argument( "non-numeric or missing label, lineno " + std::to_string(lineno) );
   }
   labels.push_back(y);
@@ -281,11 +282,14 @@ void parse_line(const std::string &line,
   }
 
 
-  if (sscanf(token.c_str(), "qid:%lld", &idx) != 1) {
+  // number of characters of the token which were understood
+  int length = 0;
+
+  if (sscanf(token.c_str(), "qid:%lld%n", &idx, &length) != 1) {
     reuse_line = true;
   } else {
-    if (idx < INT_MIN || idx > UINT_MAX)
-      throw std::invalid_argument("query id out of range, lineno " +
+    if (idx < INT_MIN || idx > UINT_MAX || length != (int) token.length())
+      throw std::invalid_argument("invalid query id, lineno " +
                                   std::to_string(lineno));
     qids.push_back(idx);
   }
@@ -295,7 +299,13 @@ void parse_line(const std::string &line,
         break;
     reuse_line = false;
 
-    if(sscanf(token.c_str(), "%lld:%lf", &idx, &x) == 2) {
+    length = 0;
+    sscanf(token.c_str(), "%lld:%n", &idx, &length);
+    char *end = const_cast<char *>(token.c_str()) + length;
+    if (length > 0)
+        x = strtod(token.c_str() + length, &end);
+
+    if(end > token.c_str() + length && end == token.c_str() + token.length()) {
 
         if (idx > INT_MAX)
             throw std::invalid_argument(
-- 
2.43.0


From 5b2eb51a91d78c46e8fcdcf1f2533fc7272496de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:15 +0000
Subject: [PATCH 84/90] fix: hashing a dataset does not copy its matrix

---
 rankeval/dataset/dataset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 4e3ec75..d5668ac 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -422,8 +422,12 @@ class Dataset(object):
             for arr, dtype in [(self.X, np.float32), (self.y, np.float32),
                                (self.query_ids, np.int64),
                                (self.query_offsets, np.int64)]:
-                arr = np.asarray(arr).astype(dtype, copy=False) + dtype(0)
-                h.update(np.ascontiguousarray(arr))
+                arr = np.asarray(arr)
+                # by blocks of rows: the whole matrix could not be copied
+                step = 1 + (1 << 20) // max(1, arr[:1].size)
+                for i in range(0, len(arr), step):
+                    block = arr[i:i + step].astype(dtype, copy=False) + dtype(0)
+                    h.update(np.ascontiguousarray(block))
             self._hash_cached = int(h.hexdigest(), 16)
 
         return self._hash_cached
-- 
2.43.0


From a32402e2c989ac7cd3941bdce8f32c42cb27a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:03 +0000
Subject: [PATCH 85/90] fix: fetches of a dataset at the same time do not
 disturb each other

---
 rankeval/dataset/datasets_fetcher.py | 60 ++++++++++++++++++----------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index d83bea3..21f9f16 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -10,6 +10,7 @@ import six
 import json
 import shutil
 import tarfile
+import tempfile
 import fnmatch
 from os import environ, makedirs
 from os.path import exists, expanduser, join
@@ -45,33 +46,52 @@ def __get_data_home__(data_home=None):
     if data_home is None:
         data_home = environ.get('RANKEVAL_DATA', join('~', 'rankeval_data'))
     data_home = expanduser(data_home)
-    if not exists(data_home):
-        makedirs(data_home)
+    __make_folder__(data_home)
     return data_home
 
 
+def __make_folder__(path):
+    """
+    Create the given folder, unless it exists or is created in the meantime.
+    """
+    try:
+        makedirs(path)
+    except OSError:
+        if not os.path.isdir(path):
+            raise
+
+
 def __download_and_extract__(url, archive_name, home):
     """
     Download the archive at the given url and extract it in the given folder.
     The work is done aside: the folder exists only when it is complete, so that
-    an interrupted download is never taken for a complete one.
+    an interrupted download is never taken for a complete one. Fetches running
+    at the same time work in different folders, and the first one to finish
+    makes its own available.
     """
-    partial_home = home + ".partial"
-    if exists(partial_home):
-        shutil.rmtree(partial_home)
-    makedirs(partial_home)
-
-    archive_path = join(partial_home, archive_name)
-    opener = urlopen(url)
-    with open(archive_path, 'wb') as f:
-        f.write(opener.read())
-
-    print ("Decompressing %s" % archive_path)
-    with tarfile.open(archive_path, "r:gz") as archive:
-        archive.extractall(path=partial_home)
-    os.remove(archive_path)
-
-    os.rename(partial_home, home)
+    __make_folder__(os.path.dirname(home))
+    partial_home = tempfile.mkdtemp(prefix=os.path.basename(home) + ".partial",
+                                    dir=os.path.dirname(home))
+    try:
+        archive_path = join(partial_home, archive_name)
+        opener = urlopen(url)
+        with open(archive_path, 'wb') as f:
+            f.write(opener.read())
+
+        print ("Decompressing %s" % archive_path)
+        content = join(partial_home, "content")
+        makedirs(content)
+        with tarfile.open(archive_path, "r:gz") as archive:
+            archive.extractall(path=content)
+
+        try:
+            os.rename(content, home)
+        except OSError:
+            # another fetch may have been faster
+            if not exists(home):
+                raise
+    finally:
+        shutil.rmtree(partial_home, ignore_errors=True)
 
 
 def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
@@ -122,7 +142,7 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
                 shutil.rmtree(old_data_home)
             os.rename(data_home, old_data_home)
             shutil.rmtree(old_data_home)
-            os.makedirs(data_home)
+            __make_folder__(data_home)
 
     # preparing file names...
     if fold is None:
-- 
2.43.0


From 079f4b7d42ccee5e28ac6b139907f397ab6010dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:03 +0000
Subject: [PATCH 86/90] fix: analyses reject steps, permutations and classes
 that mean nothing

---
 rankeval/analysis/effectiveness.py | 8 ++++++++
 rankeval/analysis/statistical.py   | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index f6f37eb..543d6ec 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -112,6 +112,9 @@ def tree_wise_performance(datasets, models, metrics, step=10, cache=False):
         as highlighted by the step parameter.
 
     """
+    if step < 1:
+        raise ValueError("step should be at least 1, got %s" % step)
+
     def get_tree_steps(model_trees):
         trees = list(xrange(step-1, model_trees, step))
         # Add last tree to the steps
@@ -358,6 +361,11 @@ def query_class_performance(datasets, models, metrics, query_classes,
         the given metrics on the given datasets.
     """
 
+    if [len(query_class) for query_class in query_classes] != \
+            [dataset.n_queries for dataset in datasets]:
+        raise ValueError("query_classes should have a class for each query of "
+                         "each dataset")
+
     glob_metric_scores = np.full(shape=(len(datasets), len(models), len(metrics)),
                                  fill_value=np.nan, dtype=object)
 
diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index f6adfb3..dd89e4e 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -61,6 +61,9 @@ def statistical_significance(datasets, model_a, model_b, metrics,
         A DataArray containing the statistical significance of the performance
         difference between any pair of models on the given dataset.
     """
+    if n_perm < 1:
+        raise ValueError("n_perm should be at least 1, got %s" % n_perm)
+
     if ipywidgets:
         progress_bar = ipywidgets.IntProgress(
             min=0, max=len(datasets)*len(metrics),
-- 
2.43.0


From 35d5f5c33cb09aaf0939714b9aa63a79d6ccc123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:03 +0000
Subject: [PATCH 87/90] fix: export_graphviz checks its arguments before
 opening the file

---
 rankeval/visualization/topological.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index c29c475..5a3d0f8 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -370,17 +370,6 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
     own_file = False
     return_string = False
     try:
-        if isinstance(out_file, six.string_types):
-            if six.PY3:
-                out_file = open(out_file, 'w', encoding='utf-8')
-            else:
-                out_file = open(out_file, 'wb')
-            own_file = True
-
-        if out_file is None:
-            return_string = True
-            out_file = six.StringIO()
-
         if isinstance(precision, Integral):
             if precision < 0:
                 raise ValueError("'precision' should be greater or equal to 0."
@@ -439,6 +428,18 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
             colors['bounds'] = (np.min(leaves_output),
                                 np.max(leaves_output))
 
+        # the file is not touched before having checked the arguments
+        if isinstance(out_file, six.string_types):
+            if six.PY3:
+                out_file = open(out_file, 'w', encoding='utf-8')
+            else:
+                out_file = open(out_file, 'wb')
+            own_file = True
+
+        if out_file is None:
+            return_string = True
+            out_file = six.StringIO()
+
         out_file.write('digraph Tree {\n')
 
         # Specify node aesthetics
-- 
2.43.0


From 97a2bfc0351bb84a775014aa693fab7de63e8680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:25 +0000
Subject: [PATCH 88/90] fix: bar plots show the negative values too

---
 rankeval/visualization/effectiveness.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 1ea8768..14fd253 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -26,6 +26,16 @@ def init_plot_style():
     sns.set_palette("deep")
 
 
+def set_y_limits(axes, values):
+    """
+    Set the limits of the y axis so as to show the bars of all the values,
+    included the negative ones.
+    """
+    y_min = np.floor(np.nanmin(values)*1.4*10.)/10.
+    y_max = np.ceil(np.nanmax(values)*1.4*10.)/10.
+    axes.set_ylim([min(0, y_min), max(0, y_max)])
+
+
 def plot_model_performance(performance, compare="models", show_values=False):
     """
     This method plots the results obtained from the model_performance analysis.
@@ -109,8 +119,7 @@ def plot_model_performance(performance, compare="models", show_values=False):
         
         # undefined values are not drawn
         if not np.isnan(performance.values).all():
-            y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
-            axes.set_ylim([0, y_max])
+            set_y_limits(axes, performance.values)
         plt.tight_layout()
 
         fig_list.append(fig)
@@ -508,8 +517,7 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_xticks(ind - width/2. + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
                 if not np.isnan(performance.values).all():
-                    y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
-                    axes[i, 0].set_ylim([0, y_max])
+                    set_y_limits(axes[i, 0], performance.values)
 
             axes[i, 0].legend(performance.coords['metric'].values,
                               bbox_to_anchor=(1.05, 1),
@@ -545,8 +553,7 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_xticks(ind - width / 2 + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
                 if not np.isnan(performance.values).all():
-                    y_max = np.ceil(np.nanmax(performance.values)*1.4*10.)/10.
-                    axes[i, 0].set_ylim([0, y_max])
+                    set_y_limits(axes[i, 0], performance.values)
 
             axes[i, 0].legend(performance.coords['model'].values,
                               bbox_to_anchor=(1.05, 1),
-- 
2.43.0


From ec4484faef05a7d7a7ae423856b419cf809f67ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:15 +0000
Subject: [PATCH 89/90] fix: the average contribution of a tree is accurate on
 millions of documents

Single-precision sums over the documents were off by several percents.
---
 rankeval/analysis/effectiveness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 543d6ec..2eb0f89 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -218,7 +218,8 @@ def tree_wise_average_contribution(datasets, models, cache=False):
             # the document scores are accumulated along for the various top-k
             # (in order to avoid useless re-scoring)
             y_contributes = np.full(max_num_trees, fill_value=np.nan, dtype=np.float32)
-            y_contributes[:model.n_trees] = np.average(np.abs(partial_y_pred), axis=0)
+            # single-precision sums are inaccurate for millions of documents
+            y_contributes[:model.n_trees] = np.mean(np.abs(partial_y_pred), axis=0, dtype=np.float64)
 
             data[idx_dataset][idx_model] = y_contributes
 
-- 
2.43.0


From cda001609ffba016d32b275f84c89015886edd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:15 +0000
Subject: [PATCH 90/90] fix: feature importance is accurate on millions of
 documents

Single-precision sums over the documents were off by several percents, and
differently for each number of threads.
---
 rankeval/analysis/_efficient_feature_impl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index 4c7822d..f3606a0 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -71,7 +71,8 @@ void c_feature_importance_tree(
     // The residual scores to fit
     // y_target = y - y_pred
     std::vector<float> y_target(n_instances);
-    float mean_y_target = 0;
+    // single-precision sums are inaccurate for millions of instances
+    double mean_y_target = 0;
     #pragma omp parallel for reduction( + : mean_y_target )
     for (unsigned int instance = 0; instance < n_instances; ++instance) {
         split_instance[instance] = instance;
@@ -106,7 +107,7 @@ void c_feature_importance_tree(
         // Split the instances in left-right (end_id will be the frontier)
         int start_id = node.start_id;
         int end_id = node.end_id;
-        float y_target_mean_left = 0, y_target_mean_right = 0;
+        double y_target_mean_left = 0, y_target_mean_right = 0;
         unsigned int instance;
         while (start_id <= end_id) {
             instance = split_instance[start_id];
@@ -130,7 +131,7 @@ void c_feature_importance_tree(
             y_target_mean_right /= right_docs;
 
         // compute split gain
-        float delta_mse = 0;
+        double delta_mse = 0;
         #pragma omp parallel for reduction( + : delta_mse )
         for (int i = node.start_id; i <= node.end_id; ++i) {
             unsigned int instance = split_instance[i];
-- 
2.43.0

