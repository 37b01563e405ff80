From dbace5d88bf0a08ea377d830cab7390793c6c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 01/29] fix: write the viewed rows to CSV when MaintainOrder is
 off

sortIfNeeded sorted a freshly allocated slice of zeros, so every row of
the output was row 0 of the original data.
---
 dataframe/csv_writing.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index 0cbbb79..d665621 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -197,6 +197,7 @@ func (df *DataFrame) sortIfNeeded(options CSVWritingSpec) *DataFrame {
   if df.indexViewed && !options.MaintainOrder {
     result := df.View()
     result.indices = make([]int, len(df.indices))
+    copy(result.indices, df.indices)
     sort.Ints(result.indices)
     return result
   }
-- 
2.43.0


From 69a0f9d2839ea3812c73e667d1479e5571ed1cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 02/29] fix: structural changes on a view no longer alter its
 parent

Drop did not reallocate the shared maps, and reallocateMaps left the view
and its parent with the same set of string columns.
---
 dataframe/raw_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index a77c159..89499cc 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -229,6 +229,9 @@ func (data *RawData) Drop(columns ...string) {
   if len(columns) == 0 {
     return
   }
+  if data.sharedMaps {
+    data.reallocateMaps()
+  }
   for _, col := range columns {
     data.shared.remove(col)
     data.stringHeader.remove(col)
@@ -482,6 +485,7 @@ func (data *RawData) reallocateMaps() {
   data.floats = tmp.floats
   data.objects = tmp.objects
   data.shared = tmp.shared  // all columns
+  data.stringHeader = data.stringHeader.Copy()
   data.sharedMaps = false
 }
 
-- 
2.43.0


From 86fc82c2c2af7159f6d8c095a25149b66e0b4a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 03/29] fix: HashStringsView does not write in its source

When all the columns are hashed, ColumnView() is called without any column
and returns a view on the maps of the source dataframe, where the new int
columns were then inserted.
---
 dataframe/view.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index d9c57fb..3b24d63 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -363,8 +363,8 @@ func (df *DataFrame) HashStringsView(columns ...string) *DataFrame {
     return df.View()
   }
   // allocate the new columns and exclude the string columns
-  otherColumns := df.Header().Except(columns...).NameList()
-  result := df.ColumnView(otherColumns...)
+  result := df.View()
+  result.Drop(columns...)
   nRows := df.NumAllocatedRows()
   for _, colName := range columns {
     result.ints[colName] = make([]int, nRows)
-- 
2.43.0


From 753f528406c5ced81269bf758f1cdddef861efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 04/29] fix: FromCSVFilePattern always starts at least one
 worker

len(paths) / cpuPerFile is zero when there are fewer files than CPUs per
file, in which case FromCSVFilePattern waited forever.
---
 dataframe/csv_parsing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index d584fbe..d2ae326 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -292,7 +292,7 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
     cpuPerFile = 1
   }
   options.MaxCPU = cpuPerFile
-  maxWorkers := len(paths) / cpuPerFile
+  maxWorkers := cpu / cpuPerFile
   fileQ := utils.CreateStringQueue(paths, maxWorkers)
   for i := 0; i < fileQ.Workers; i++ {
     go processFileQueue(&options, fileQ)
-- 
2.43.0


From 47a8735dbe47d6c4cb9930733e01cc20f3384c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 05/29] fix: EmptyDataFrame and work queues accept maxCPU <= 0

EmptyDataFrame(n, 0) kept 0 as the number of CPUs, so that no worker was
started and every multi-threaded function waited forever.
---
 dataframe/dataframe.go | 2 +-
 utils/string_q.go      | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index 434f9b2..585c124 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -26,7 +26,7 @@ func EmptyDataFrame(nRows int, maxCPU int) *DataFrame {
   result.floats = make(map[string][]float64)
   result.bools = make(map[string][]bool)
   result.ints = make(map[string][]int)
-  result.maxCPU = maxCPU
+  result.SetMaxCPU(maxCPU)
   result.dataUID = generateDataUID()
   result.resetStructureUID()
   // stringHeader is not pre-allocated
diff --git a/utils/string_q.go b/utils/string_q.go
index 382b70c..1ee1dfb 100644
--- a/utils/string_q.go
+++ b/utils/string_q.go
@@ -27,6 +27,9 @@ func CreateStringQueue(keys []string, maxWorkers int) StringQ {
     rand.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
     keys = a
   }
+  if maxWorkers < 1 {
+    maxWorkers = 1  // no worker would mean waiting forever for the results
+  }
   result := StringQ{
       Keys: make(chan string, len(keys)),
       Errors:  make(chan ProcessedJob, len(keys)),
-- 
2.43.0


From 269c850e77e5c709ab27dbde722fb4e64f1bef0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 06/29] fix: an empty column name does not stop the workers

Next() used the empty string to tell that the queue is exhausted, so a
column without a name (e.g. CSV header ",a") was never processed and its
result was waited for forever.
---
 dataframe/csv_parsing.go       | 4 ++--
 dataframe/view.go              | 2 +-
 preprocessing/float_imputer.go | 2 +-
 preprocessing/one_hot.go       | 4 ++--
 preprocessing/scaler.go        | 4 ++--
 utils/string_q.go              | 8 +++-----
 6 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index d2ae326..6d45cf1 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -132,7 +132,7 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
                    missingVals map[string]bool, spec CSVReadingSpec,
                    q utils.StringQ) {
   missing := make([]bool, len(records))
-  for colName := q.Next(); len(colName) > 0; colName = q.Next() {
+  for colName, more := q.Next(); more; colName, more = q.Next() {
     col := utils.IndexOfString(colName, header)
     if !spec.BinaryAsFloat && isBinary(records, col) {
       data.bools[colName] = toBool(records, col)
@@ -309,7 +309,7 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
 }
 
 func processFileQueue(options* CSVReadingSpec, q utils.StringQ) {
-  for path := q.Next(); len(path) > 0; path = q.Next() {
+  for path, more := q.Next(); more; path, more = q.Next() {
     data, err := FromCSVFile(path, *options)
     q.Notify(utils.ProcessedJob{Key: path, Error: err, Result: data})
   }
diff --git a/dataframe/view.go b/dataframe/view.go
index 3b24d63..95547e5 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -330,7 +330,7 @@ const maxInt = uint64(^uint(0) >> 1)
 
 func (inputDF *DataFrame) workerHashes(outputDF *DataFrame, columnQ utils.StringQ) {
   hash := fnv.New64a()  // TODO: benchmark this algorithm
-  for col := columnQ.Next(); len(col) > 0; col = columnQ.Next() {
+  for col, more := columnQ.Next(); more; col, more = columnQ.Next() {
     defer columnQ.Notify(utils.ProcessedJob{Key: col})
     inputCol := inputDF.objects[col]
     outputCol := outputDF.ints[col]
diff --git a/preprocessing/float_imputer.go b/preprocessing/float_imputer.go
index 3c9fb2e..978ce68 100644
--- a/preprocessing/float_imputer.go
+++ b/preprocessing/float_imputer.go
@@ -49,7 +49,7 @@ func (imputer *FloatImputer) TransformedColumns() []string {
 }
 
 func (imputer *FloatImputer) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     access := df.Floats(col)
     sum := 0.0
     n := 0
diff --git a/preprocessing/one_hot.go b/preprocessing/one_hot.go
index 96a25a0..37d54ae 100644
--- a/preprocessing/one_hot.go
+++ b/preprocessing/one_hot.go
@@ -54,7 +54,7 @@ func NewOneHotEncoder(options OneHotOptions) *OneHotEncoder {
 
 func (encoder *OneHotEncoder) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
   opt := encoder.Options
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     defer q.Notify(utils.ProcessedJob{Key: col})
     // compute the frequency of each category
     access := df.Ints(col)
@@ -164,7 +164,7 @@ func (encoder *OneHotEncoder) workerTransforms(df *dataframe.DataFrame, q utils.
   var unkColumn dataframe.BoolAccess
   opt := encoder.Options
 
-  for catCol := q.Next(); len(catCol) > 0; catCol = q.Next() {
+  for catCol, more := q.Next(); more; catCol, more = q.Next() {
     notif := utils.ProcessedJob{Key: catCol}
     access := df.Ints(catCol)
     categoryToNewCol := encoder.Categories[catCol]
diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index f8890d6..ffacb23 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -37,7 +37,7 @@ type fittingResult struct {
 }
 
 func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     access := df.Floats(col)
     result := fittingResult{}
     defer q.Notify(utils.ProcessedJob{Key: col, Result: &result})
@@ -114,7 +114,7 @@ func (scaler *Scaler) Fit(df *dataframe.DataFrame) error {
   return nil
 }
 func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     defer q.Notify(utils.ProcessedJob{Key: col})
     var ok bool
     var scale float64
diff --git a/utils/string_q.go b/utils/string_q.go
index 1ee1dfb..c70b07a 100644
--- a/utils/string_q.go
+++ b/utils/string_q.go
@@ -61,12 +61,10 @@ func (q StringQ) Wait() {
   }
 }
 
-func (q StringQ) Next() string {
+// Next returns false when the queue is exhausted.
+func (q StringQ) Next() (string, bool) {
   col, more := <-q.Keys
-  if more {
-    return col
-  }
-  return ""
+  return col, more
 }
 
 func (q StringQ) Notify(err ProcessedJob) {
-- 
2.43.0


From 9f0f6cfbf4cb040bb585ba68587501905178b78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 07/29] fix: MergeRawDataRows keeps string marks, encoding and
 max CPU

Reading multiple CSV files yielded string columns that were not marked as
such, and dropped the encoding and max CPU given by the user.
---
 dataframe/csv_parsing.go | 4 +++-
 dataframe/raw_data.go    | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index 6d45cf1..3183a3c 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -305,7 +305,9 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
     data[i] = result.Result.(*RawData)
   }
   // concatenate everything
-  return MergeRawDataRows(data), nil
+  result := MergeRawDataRows(data)
+  result.SetMaxCPU(cpu)  // rather than the number of CPUs per file
+  return result, nil
 }
 
 func processFileQueue(options* CSVReadingSpec, q utils.StringQ) {
diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 89499cc..0c7221f 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -391,6 +391,8 @@ func MergeRawDataRows(list []*RawData) *RawData {
   if len(list) == 0 {
     return result
   }
+  result.textEncoding = list[0].textEncoding
+  result.maxCPU = list[0].maxCPU
   // pre-allocate the rows to avoid new allocations by append(arr, ...values)
   size := 0
   for _, data := range list {
@@ -423,6 +425,9 @@ func MergeRawDataRows(list []*RawData) *RawData {
     for col, vals := range data.objects {
       result.objects[col] = append(result.objects[col], vals...)
     }
+    for col := range data.stringHeader.get() {
+      result.stringHeader.add(col)
+    }
   }
   return result
 }
-- 
2.43.0


From 9af9e0c26ff71c45a132a23f87663358ac789698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 08/29] fix: FromCSV returns the error reported by its workers

---
 dataframe/csv_parsing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index 3183a3c..a9fd926 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -224,7 +224,7 @@ func FromCSV(r io.Reader, options CSVReadingSpec) (*RawData, error) {
   }
   for _, r := range q.Results() {
     if r.Error != nil {
-      return nil, err
+      return nil, r.Error
     }
   }
   // putting everything together
-- 
2.43.0


From 5019ebbaaa4ae216ff8c70568983e5e6576c862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 09/29] fix: BoolToFloats removes the boolean column it
 converted

---
 dataframe/raw_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 0c7221f..8f9a1cd 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -467,7 +467,7 @@ func (data *RawData) BoolToFloats(columns...string) {
         newdata[i] = 1.0
       }
     }
-    delete(data.ints, col)
+    delete(data.bools, col)
     data.floats[col] = newdata
   }
 }
-- 
2.43.0


From 51766c926b8230340754a35aa9299161fbd13b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 10/29] fix: renaming a column to its own name does not delete
 it

---
 dataframe/raw_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 8f9a1cd..9b4c86d 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -248,6 +248,9 @@ func (data *RawData) Drop(columns ...string) {
 //  df.View().Rename("apples", "oranges").Ints("oranges").Set(0, 42)
 // It will change df's number of apples to 42 at index=0.
 func (data *RawData) Rename(oldName string, newName string) {
+  if oldName == newName && data.Header().contains(oldName) {
+    return
+  }
   if data.sharedMaps {
     data.reallocateMaps()
   }
-- 
2.43.0


From f9db8b1a5b8ed2d8fef48a9caa45db8d8c9f9baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 11/29] fix: copies and concatenations keep the text encoding

---
 dataframe/concat.go    | 1 +
 dataframe/dataframe.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index f81064c..8dd8617 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -21,6 +21,7 @@ func RowConcat(dfs ...*DataFrame) (*DataFrame, error) {
   }
   // allocation
   result := EmptyDataFrame(nRows, dfs[0].maxCPU)
+  result.textEncoding = dfs[0].textEncoding
   for col := range dfs[0].floats {
     result.floats[col] = make([]float64, nRows)
   }
diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index 585c124..7a4be37 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -113,6 +113,7 @@ func (df *DataFrame) ShallowCopy() *DataFrame {
   result.indices = df.indices
   result.mask = df.mask
   result.indexViewed = df.indexViewed
+  result.textEncoding = df.textEncoding
   result.TransferRawDataFrom(&df.RawData)
   result.debugPrint("ShallowCopy() returns")
 
@@ -129,6 +130,7 @@ func (df *DataFrame) Copy() *DataFrame {
   result.mThreadSafe = df.mThreadSafe
   result.debug = df.debug
   result.stringHeader = df.stringHeader.Copy()
+  result.textEncoding = df.textEncoding
 
   if df.indexViewed {
     for col, v := range df.objects {
-- 
2.43.0


From e682a759c4204d6dd2913ca0db0ebd8300047328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 12/29] fix: column-wise concatenations of nothing return an
 error

like RowConcat, instead of panicking.
---
 dataframe/concat.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index 8dd8617..33f1d5b 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -108,6 +108,9 @@ func ColumnSmartConcat(dfs ...*DataFrame) (*DataFrame, error) {
 // so changing the input dataframes will also change the returned dataframe.
 // Numpy equivalent: concat(dfs, axis=1)
 func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
+  if len(dfs) == 0 {
+    return nil, fmt.Errorf("ColumnConcatView requires at least one dataframe")
+  }
   err := CheckNoColumnOverlap(dfs)
   if err != nil {
     return nil, err
@@ -160,6 +163,9 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
 // so the returned dataframe is safe to change.
 // Numpy equivalent: concat(dfs, axis=1)
 func ColumnCopyConcat(dfs ...*DataFrame) (*DataFrame, error) {
+  if len(dfs) == 0 {
+    return nil, fmt.Errorf("ColumnCopyConcat requires at least one dataframe")
+  }
   // check the number of rows match
   ref := dfs[0].NumRows()
   for _, df := range dfs[1:] {
-- 
2.43.0


From 874807966a1cb3b26e69daccc53070058b2d2296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 13/29] fix: ColumnConcatView rejects all the mismatched
 dataframes

The number of rows was not checked without index views, indices were
compared via a weak hash (e.g. [0,7] vs [1,0]), the string marks were lost if
the first dataframe had none, and the result was deemed contiguous if only
the other dataframes were index views.
---
 dataframe/concat.go | 17 ++++++++++-------
 utils/utils.go      | 12 ++++++++++++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index 33f1d5b..d50ed24 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -123,16 +123,19 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
       break
     }
   }
-  if views {
-    ref := utils.HashIntSlice(dfs[0].indices)
-    for _, df := range dfs[1:] {
-      if utils.HashIntSlice(df.indices) != ref {
-        return nil, fmt.Errorf("index mistmatch between dataframes. Use ColumnConcat instead")
-      }
+  for _, df := range dfs[1:] {
+    if len(df.indices) != len(dfs[0].indices) {
+      return nil, fmt.Errorf("cannot col-wise concatenate df(rows=%d) with df(rows=%d)",
+                             len(dfs[0].indices), len(df.indices))
+    }
+    // indices are equal to range(0, NumRows()) if there is no view
+    if views && !utils.EqualIntSlices(df.indices, dfs[0].indices) {
+      return nil, fmt.Errorf("index mistmatch between dataframes. Use ColumnConcat instead")
     }
   }
   // merge in a shallow way
   result := dfs[0].ShallowCopy()
+  result.indexViewed = views
   for _, df := range dfs[1:] {
     for col, values := range df.floats {
       result.floats[col] = values
@@ -150,7 +153,7 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
       result.bools[col] = values
       result.shared.add(col)
     }
-    result.stringHeader.And(df.stringHeader)
+    result.stringHeader = result.stringHeader.And(df.stringHeader)
   }
   return result, nil
 }
diff --git a/utils/utils.go b/utils/utils.go
index aa8c630..e43406d 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -49,6 +49,18 @@ func HashIntSlice(indices []int) int {
   return result
 }
 
+func EqualIntSlices(a []int, b []int) bool {
+  if len(a) != len(b) {
+    return false
+  }
+  for i, v := range a {
+    if v != b[i] {
+      return false
+    }
+  }
+  return true
+}
+
 func ToStringSet(strings []string) map[string]bool {
   result := make(map[string]bool)
   for _, s := range strings {
-- 
2.43.0


From d7cc651ddecc26317e7862f5e887650f4640057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 14/29] fix: RowConcat returns an error if a dataframe has
 extra columns

Extra columns were silently dropped, contrary to what the documentation says.
---
 dataframe/concat.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index d50ed24..61b6ff2 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -38,6 +38,10 @@ func RowConcat(dfs ...*DataFrame) (*DataFrame, error) {
   offset := 0
   for k, df := range dfs {
     result.stringHeader = result.stringHeader.And(df.stringHeader)
+    if df.NumColumns() != dfs[0].NumColumns() {
+      return nil, fmt.Errorf("%dth dataframe has %d columns. Expected: %d",
+                             k, df.NumColumns(), dfs[0].NumColumns())
+    }
     // TODO: optimize this when !df.indexViewed
     for col, vals := range result.floats {
       if from, ok := df.floats[col]; ok {
-- 
2.43.0


From 291cdabfdcbb5a79ebec86ac63f98a9c0c830ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 15/29] fix: SplitNView always returns n dataframes with the
 same columns

It returned only one dataframe when the dataframe is empty, and the empty
dataframes used as padding had no column. ToCSVs panics in both cases.
---
 dataframe/view.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 95547e5..bec1333 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -170,20 +170,20 @@ func (df *DataFrame) SplitNView(n int) []*DataFrame {
   if n == 0 {
     return nil
   }
-  if n == 1 || df.NumRows() == 0 {
+  if n == 1 {
     return []*DataFrame{df.View()}
   }
   // batchSize for the first n-1 batches
   nRows := df.NumRows()
   batchSize := nRows / n
-  if nRows % n != 0 {
+  if nRows % n != 0 || nRows == 0 {
     batchSize++
   }
   result := df.SplitView(batchSize)
   missing := n - len(result)
   if missing > 0 {  // expected to happen when batchSize = 1
     // fill up the rest with empty DataFrames
-    emptyDF := EmptyDataFrame(0, df.maxCPU)
+    emptyDF := df.View().cut(nRows, nRows)  // with the same columns
     emptyDFs := make([]*DataFrame, missing)
     for i := 0; i < missing; i++ {
       emptyDFs[i] = emptyDF
-- 
2.43.0


From 7b593480d69c4dd90746bbdaf45425d5e8559f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 16/29] fix: Dense64Batching allocates enough memory when
 batches get larger

---
 dataframe/dense_gonum_batching.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/dense_gonum_batching.go b/dataframe/dense_gonum_batching.go
index 4146ba8..4a40098 100644
--- a/dataframe/dense_gonum_batching.go
+++ b/dataframe/dense_gonum_batching.go
@@ -35,7 +35,7 @@ func (bat *Dense64Batching) DenseMatrix(df *DataFrame) mat.Matrix {
   // allocate more data if necessary
   dim := len(bat.columns)
   nRows := df.NumRows()
-  missing := dim * (nRows - len(bat.data))
+  missing := dim * nRows - len(bat.data)
   if missing > 0 {
     bat.data = append(bat.data, make([]float64, missing)...)
   }
-- 
2.43.0


From 06f6072398b019a58fdba8f17f99ed5b8265fdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 17/29] fix: To1CSV reports the errors raised while flushing
 the header

---
 dataframe/csv_writing.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index d665621..f056090 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -39,7 +39,6 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
     writer.Comma = options.Comma
   }
   writer.UseCRLF = options.UseCRLF
-  defer writer.Flush()
   // this minimize the cache-misses
   df = df.sortIfNeeded(options)
 
@@ -51,6 +50,7 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
   colNames := append(append(append(bCols, iCols...), fCols...), sCols...)
   err := writer.Write(colNames)
   if err != nil {
+    writer.Flush()
     return err
   }
   // pre-allocate some rows to amortize the cost of iterating through the maps
@@ -105,7 +105,8 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
       return err
     }
   }
-  return nil
+  writer.Flush()
+  return writer.Error()
 }
 
 func (df *DataFrame) threadedTo1CSV(w io.Writer, err []error, opt CSVWritingSpec, wg *sync.WaitGroup) {
-- 
2.43.0


From 8969b0dabf268e760cd16ba3bec805b5e52ffea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 18/29] fix: PrintRecords does not interpret column names as
 formats

---
 dataframe/print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataframe/print.go b/dataframe/print.go
index e14dd9e..77f80b8 100644
--- a/dataframe/print.go
+++ b/dataframe/print.go
@@ -150,9 +150,9 @@ func (df *DataFrame) PrintRecords(n int, floatFormat string, shorthands map[stri
       // print the column name
       fmt.Printf(" ")
       if shorthand, defined := shorthands[colName]; defined {
-        fmt.Printf(shorthand)
+        fmt.Print(shorthand)
       } else {
-        fmt.Printf(colName)
+        fmt.Print(colName)
       }
       fmt.Printf(":")
       // print the value
-- 
2.43.0


From 1290079f86fa9da459d95ca6afcd941a5e7cb92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 19/29] fix: keep track of the columns shared by ColumnView and
 ToDataFrame

ColumnView altered the parent's set of shared columns and ToDataFrame dropped
it, in which case Unshare() would not copy columns that are shared.
---
 dataframe/raw_data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 9b4c86d..235f7aa 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -137,6 +137,7 @@ func (data *RawData) ToDataFrame() *DataFrame {
   result.ints = data.ints
   result.maxCPU = data.maxCPU
   result.stringHeader = data.stringHeader
+  result.shared = data.shared
   result.mask = make([]bool, nRows)
   result.indices = utils.MakeRange(0, nRows, 1)
   result.dataUID = data.dataUID
@@ -505,6 +506,7 @@ func (data *RawData) allocateEmptyMaps() {
   data.dataUID = generateDataUID()
   data.sharedMaps = false
   data.stringHeader = ColumnHeader{}
+  data.shared = ColumnHeader{}
   data.resetStructureUID()
 }
 
-- 
2.43.0


From d631e0eb967d850c75bbc4c5b13ae5d9ba64ab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 20/29] fix: Encode converts each string once and never
 half-way

Rows repeated by IndexView were encoded multiple times, and reverting the
changes after an error did not always restore the original strings.
---
 dataframe/inplace.go | 44 ++++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/dataframe/inplace.go b/dataframe/inplace.go
index 334bb1d..8060de2 100644
--- a/dataframe/inplace.go
+++ b/dataframe/inplace.go
@@ -4,8 +4,11 @@ import (
   "golang.org/x/text/encoding"
 )
 
-func inplaceEncoding(values []interface{}, indices []int, decoder *encoding.Decoder,
-                     encoder *encoding.Encoder) (error, int) {
+// reencode returns the values found at the given indices in the new encoding.
+// The given values are not altered.
+func reencode(values []interface{}, indices []int, decoder *encoding.Decoder,
+              encoder *encoding.Encoder) ([]interface{}, error) {
+  result := make([]interface{}, len(indices))
   for j, i := range indices {  // others are left to nil
     if values[i] != nil {
       var err error
@@ -14,21 +17,21 @@ func inplaceEncoding(values []interface{}, indices []int, decoder *encoding.Deco
       if decoder != nil {
         v, err = decoder.String(v)
         if err != nil {
-          return err, j
+          return nil, err
         }
       } // otherwise UTF-8
       // 2. convert from UTF-8 to new encoding
       if encoder != nil {
         v, err = encoder.String(v)
         if err != nil {
-          return err, j
+          return nil, err
         }
       } // otherwise UTF-8
       // 3. set the new value
-      values[i] = v
+      result[j] = v
     }
   }
-  return nil, -1
+  return result, nil
 }
 
 // Encode changes the encoding of all all the string columns.
@@ -50,27 +53,20 @@ func (df *DataFrame) Encode(newEncoding encoding.Encoding) error {
     encoder = newEncoding.NewEncoder()
   }
   colNames := df.stringHeader.NameList()
-  for i, col := range colNames {
-    values := df.objects[col]
-    err, where := inplaceEncoding(values, df.indices, decoder, encoder)
+  // nothing is changed until we know that everything can be encoded
+  results := make(map[string][]interface{})
+  for _, col := range colNames {
+    result, err := reencode(df.objects[col], df.indices, decoder, encoder)
     if err != nil {
-      // we need to revert our changes
-      if newEncoding == nil {
-        decoder = nil
-      } else {
-        decoder = newEncoding.NewDecoder()
-      }
-      if df.textEncoding == nil {
-        encoder = nil
-      } else {
-        encoder = df.textEncoding.NewEncoder()
-      }
-      inplaceEncoding(values, df.indices[:where], decoder, encoder)
-      for _, previous := range colNames[:i] {
-          inplaceEncoding(df.objects[previous], df.indices, decoder, encoder)
-      }
       return err
     }
+    results[col] = result
+  }
+  for col, result := range results {
+    values := df.objects[col]
+    for j, i := range df.indices {
+      values[i] = result[j]
+    }
   }
   df.textEncoding = newEncoding
 
-- 
2.43.0


From 5667ebdebd78398ffaa0daf672968da742094312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 21/29] fix: Scaler scales repeated rows of a view only once

---
 preprocessing/scaler.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index ffacb23..2f9ec4c 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -123,8 +123,13 @@ func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, q utils.StringQ)
       scale = 1  // default scale
     }
     access := df.Floats(col)
-    for i := 0; i < access.Size(); i++ {
-      access.Set(i, (access.Get(i) + shift) * scale)
+    // the same row may be viewed more than once, but must be scaled only once
+    scaled := make([]float64, access.Size())
+    for i := range scaled {
+      scaled[i] = (access.Get(i) + shift) * scale
+    }
+    for i, val := range scaled {
+      access.Set(i, val)
     }
   }
 }
-- 
2.43.0


From 3e4b194996ccde2fed83f58aa7d6b1600ee029aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 22/29] fix: fitted parameters are finite for constant and
 missing columns

In addition, min-max scaling multiplied by the range instead of dividing.
---
 preprocessing/float_imputer.go |  5 ++++-
 preprocessing/scaler.go        | 14 +++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/preprocessing/float_imputer.go b/preprocessing/float_imputer.go
index 978ce68..471b197 100644
--- a/preprocessing/float_imputer.go
+++ b/preprocessing/float_imputer.go
@@ -60,7 +60,10 @@ func (imputer *FloatImputer) workerFits(df *dataframe.DataFrame, q utils.StringQ
         n++
       }
     }
-    fallback := sum / float64(n)
+    fallback := 0.0  // if there are only missing values
+    if n > 0 {
+      fallback = sum / float64(n)
+    }
     defer q.Notify(utils.ProcessedJob{Key: col, Result: &fallback})
   }
 }
diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index 2f9ec4c..6c988fd 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -54,8 +54,14 @@ func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
           min = val
         }
       }
-      shift := -min
-      scale := max - min
+      shift := 0.0
+      scale := 1.0
+      if min <= max {  // false if there is no value
+        shift = -min
+      }
+      if min < max {  // false if the column is constant
+        scale = 1 / (max - min)
+      }
       result.shift = &shift
       result.scale = &scale
     } else if opt.Scaling || opt.Centering {
@@ -69,7 +75,9 @@ func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
           n++
         }
       }
-      mean /= float64(n)
+      if n > 0 {
+        mean /= float64(n)
+      }
       if opt.Centering {
         shift := -mean
         result.shift = &shift
-- 
2.43.0


From ba3a001a7eb0155cd886be0013639c2be05a6ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 23/29] fix: AutoPreprocessor works with any options and column
 types

It dereferenced the components disabled by the options, applied Exclude only
to float columns (and to none of them if they are all excluded), kept the
components of previous trainings and dropped the components' errors.
---
 preprocessing/auto_preprocessor.go | 60 +++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index cb58328..8d66a0a 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -38,8 +38,17 @@ func NewAutoPreprocessor(opt AutoPreprocOptions) *AutoPreprocessor {
 
 // TransformedColumns implements PreprocTraining and Transform interfaces.
 func (preproc *AutoPreprocessor) TransformedColumns() []string {
-  cols := preproc.Imputer.TransformedColumns()  // can be safely changed
-  cols = append(cols, preproc.StringToInt.TransformedColumns()...)
+  var cols []string
+  if preproc.Imputer != nil {
+    cols = append(cols, preproc.Imputer.TransformedColumns()...)
+  } else if preproc.Scaler != nil {
+    cols = append(cols, preproc.Scaler.TransformedColumns()...)
+  }
+  if preproc.StringToInt != nil {
+    cols = append(cols, preproc.StringToInt.TransformedColumns()...)
+  } else if preproc.IntToBool != nil {
+    cols = append(cols, preproc.IntToBool.TransformedColumns()...)
+  }
   return cols
 }
 
@@ -66,17 +75,26 @@ func (preproc *AutoPreprocessor) FitTransform(df *dataframe.DataFrame) *datafram
 
 func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*dataframe.DataFrame, error) {
   opt := preproc.options
+  // forget about any previous training
+  preproc.StringToInt = nil
+  preproc.IntToBool = nil
+  preproc.Imputer = nil
+  preproc.Scaler = nil
   floatCols := df.FloatHeader().Except(opt.Exclude...).NameList()
-  if opt.Imputing || opt.Scaling {
+  if (opt.Imputing || opt.Scaling) && len(floatCols) > 0 {
     start := time.Now()
     floatsOnly := df.ColumnView(floatCols...)
     if opt.Imputing {
       preproc.Imputer = NewFloatImputer(FloatImputerOptions{})
-      preproc.Imputer.Fit(floatsOnly)
+      if err := preproc.Imputer.Fit(floatsOnly); err != nil {
+        return nil, err
+      }
     }
     if opt.Scaling {
       preproc.Scaler = NewScaler(ScalerOptions{Centering: true, Scaling: true})
-      preproc.Scaler.Fit(floatsOnly)
+      if err := preproc.Scaler.Fit(floatsOnly); err != nil {
+        return nil, err
+      }
     }
     if opt.Verbose {
       log.Printf("training Imputer+Scaler took %s with cpu=%d",
@@ -85,10 +103,12 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
   }
   // category encoding
   var categorical []string
-  if df.StringHeader().Num() > 0 {
+  if stringCols := df.StringHeader().Except(opt.Exclude...).NameList(); len(stringCols) > 0 {
     start := time.Now()
     preproc.StringToInt = NewHashEncoder(HashEncoderOptions{})
-    preproc.StringToInt.Fit(df)
+    if err := preproc.StringToInt.Fit(df.ColumnView(stringCols...)); err != nil {
+      return nil, err
+    }
     view, err := preproc.StringToInt.TransformView(df)
     df = view
     if err != nil {
@@ -99,7 +119,7 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
       log.Printf("running Hash Encoder took %s with cpu=%d", time.Since(start), df.ActualMaxCPU())
     }
   } else {
-    categorical = df.IntHeader().NameList()
+    categorical = df.IntHeader().Except(opt.Exclude...).NameList()
   }
   if len(categorical) > 0 {
     start := time.Now()
@@ -108,7 +128,9 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
         UnknownPolicy: SharedSeparateCategory,
     }
     preproc.IntToBool = NewOneHotEncoder(topt)
-    preproc.IntToBool.Fit(df.ColumnView(categorical...))
+    if err := preproc.IntToBool.Fit(df.ColumnView(categorical...)); err != nil {
+      return nil, err
+    }
     if opt.Verbose {
       log.Printf("training One-Hot Encoder took %s with cpu=%d",
                  time.Since(start), df.ActualMaxCPU())
@@ -130,8 +152,16 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
   start := time.Now()
   df = df.View()
   df.Unshare(floatCols...) // unshare() make it safe for in-place modifications
-  preproc.Imputer.TransformInplace(df)
-  preproc.Scaler.TransformInplace(df)
+  if preproc.Imputer != nil {
+    if err := preproc.Imputer.TransformInplace(df); err != nil {
+      return nil, err
+    }
+  }
+  if preproc.Scaler != nil {
+    if err := preproc.Scaler.TransformInplace(df); err != nil {
+      return nil, err
+    }
+  }
   if opt.Verbose {
     log.Printf("running Imputer+Scaler took %s with cpu=%d",
                time.Since(start), df.ActualMaxCPU())
@@ -152,10 +182,14 @@ func (preproc *AutoPreprocessor) TransformView(df *dataframe.DataFrame) (*datafr
   }
   // transformations
   if preproc.Imputer != nil {
-    preproc.Imputer.TransformInplace(df)
+    if err := preproc.Imputer.TransformInplace(df); err != nil {
+      return nil, err
+    }
   }
   if preproc.Scaler != nil {
-    preproc.Scaler.TransformInplace(df)
+    if err := preproc.Scaler.TransformInplace(df); err != nil {
+      return nil, err
+    }
   }
   if preproc.StringToInt != nil {
     view, err := preproc.StringToInt.TransformView(df)
-- 
2.43.0


From a59facc855558c6925531ea0dc037c2ecb173071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 24/29] fix: Predict does not overwrite the _target column of
 its input

---
 algorithms/linear_regression.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 8efb696..84f175c 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -167,6 +167,7 @@ func (reg *LinearRegressor) Predict(df *dataframe.DataFrame, resultColumn string
 
   // write the result in the dataframe
   result := df.View()
+  result.AllocFloats("_target")  // in case df has a column of this name
   result.OverwriteFloats64("_target", pred)
   reg.TargetScaler.InverseTransformInplace(result)
   result.Rename("_target", resultColumn)
-- 
2.43.0


From 1c5e7c4c8e4933e99c36e4e4427d9829219e5199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 25/29] fix: LinearRegressor sets the documented default
 parameters

Fit panics if BatchSize is left to 0.
---
 algorithms/linear_regression.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 84f175c..4a245ce 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -55,6 +55,15 @@ func NewLinearRegressor() *LinearRegressor {
 // You need not shuffle the dataset prior to calling this function.
 func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
                                 params LinRegTrainParams) error {
+  if params.Epochs == 0 {
+    params.Epochs = 1
+  }
+  if params.LR == 0 {
+    params.LR = 0.0001
+  }
+  if params.BatchSize == 0 {
+    params.BatchSize = 64
+  }
   // just to save some memory if we perform a copy below
   floatsAndBools := df.FloatHeader().And(df.BoolHeader())
   df = df.ColumnView(floatsAndBools.NameList()...)
-- 
2.43.0


From cb361df2bd9b98c3d1bf76e232fda4cb6ea438d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 26/29] fix: TopView returns a view when it selects all the
 rows

It used to return the dataframe itself, so that renaming, dropping or adding
columns on the result also altered the source dataframe.
---
 dataframe/view.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index bec1333..6cdeeb7 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -293,7 +293,7 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
 func (df *DataFrame) TopView(byColumn string, n int, ascending bool, sorted bool) *DataFrame {
   if n >= len(df.indices) {
     if !sorted {
-      return df
+      return df.View()
     } else {
       n = len(df.indices)
     }
-- 
2.43.0


From 1701c44b5e8666c2cc57e956668f423daa88848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 27/29] fix: AutoPreprocessor never returns its input and
 shares the columns it leaves alone

---
 preprocessing/auto_preprocessor.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index 8d66a0a..2791f24 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -146,12 +146,12 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
     if err != nil {
       return nil, err
     }
-  } else if !opt.Imputing && !opt.Scaling {
-    return df, nil
   }
   start := time.Now()
   df = df.View()
-  df.Unshare(floatCols...) // unshare() make it safe for in-place modifications
+  if preproc.Imputer != nil || preproc.Scaler != nil {
+    df.Unshare(floatCols...) // unshare() make it safe for in-place modifications
+  }
   if preproc.Imputer != nil {
     if err := preproc.Imputer.TransformInplace(df); err != nil {
       return nil, err
@@ -179,6 +179,8 @@ func (preproc *AutoPreprocessor) TransformView(df *dataframe.DataFrame) (*datafr
     df = df.DetachedView(preproc.Imputer.TransformedColumns()...)
   } else if preproc.Scaler != nil {
     df = df.DetachedView(preproc.Scaler.TransformedColumns()...)
+  } else {
+    df = df.View()
   }
   // transformations
   if preproc.Imputer != nil {
-- 
2.43.0


From 14cd2a8005e1fb53cfca48fbe92cc03697e68380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:05 +0000
Subject: [PATCH 28/29] fix: SliceView(from, to) with from > to reverses the
 rows between to and from

---
 dataframe/view.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 6cdeeb7..9b6964c 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -51,8 +51,7 @@ func (df *DataFrame) SliceView(from int, to int) *DataFrame {
     to += len(df.indices) + 1
   }
   if from > to {
-    to, from = from, to
-    df = df.ReverseView()
+    return df.View().cut(to, from).ReverseView()
   }
   result := df.View().cut(from, to)
 
-- 
2.43.0


From 909978773f126402bb6e8908837f6f8957cb774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:28 +0000
Subject: [PATCH 29/29] fix: BoolAsFloat and BinaryAsFloat are applied to every
 column of booleans

BoolAsFloat left columns of 0 and 1 as booleans and made strings of the other
columns of booleans; BinaryAsFloat made integers of columns of 0 and 1, and
strings of the other columns of booleans.
---
 dataframe/csv_parsing.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index a9fd926..352d1fb 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -78,6 +78,16 @@ func toBool(records [][]string, col int) []bool {
   return values
 }
 
+func boolsToFloats(values []bool) []float64 {
+  result := make([]float64, len(values))
+  for i, v := range values {
+    if v {
+      result[i] = 1
+    }
+  }
+  return result
+}
+
 func isInt(records [][]string, col int, missing []bool) bool {
   for row := 0; row < len(records); row++ {
     if !missing[row] {
@@ -134,10 +144,13 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
   missing := make([]bool, len(records))
   for colName, more := q.Next(); more; colName, more = q.Next() {
     col := utils.IndexOfString(colName, header)
-    if !spec.BinaryAsFloat && isBinary(records, col) {
-      data.bools[colName] = toBool(records, col)
-    } else if !spec.BoolAsFloat && !spec.BinaryAsFloat && isBool(records, col) {
-      data.bools[colName] = toBool(records, col)
+    if binary := isBinary(records, col); binary || isBool(records, col) {
+      values := toBool(records, col)
+      if spec.BoolAsFloat || (binary && spec.BinaryAsFloat) {
+        data.floats[colName] = boolsToFloats(values)
+      } else {
+        data.bools[colName] = values
+      }
     } else {
       if len(missingVals) > 0 {
         for i := range missing {
-- 
2.43.0

