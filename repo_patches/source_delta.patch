From 397ab636e036fde4a13c04f21f46a12e063d44c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 01/48] fix: keep every row when writing a view to CSV without
 MaintainOrder

---
 dataframe/csv_writing.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index 0cbbb79..d665621 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -197,6 +197,7 @@ func (df *DataFrame) sortIfNeeded(options CSVWritingSpec) *DataFrame {
   if df.indexViewed && !options.MaintainOrder {
     result := df.View()
     result.indices = make([]int, len(df.indices))
+    copy(result.indices, df.indices)
     sort.Ints(result.indices)
     return result
   }
-- 
2.43.0


From c86171af877fbcfab0a21542ac5fcf0547f573e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 02/48] fix: SplitNView returns exactly n views, with all the
 columns, for any row count

---
 dataframe/view.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index d9c57fb..225f554 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -170,7 +170,7 @@ func (df *DataFrame) SplitNView(n int) []*DataFrame {
   if n == 0 {
     return nil
   }
-  if n == 1 || df.NumRows() == 0 {
+  if n == 1 {
     return []*DataFrame{df.View()}
   }
   // batchSize for the first n-1 batches
@@ -179,16 +179,13 @@ func (df *DataFrame) SplitNView(n int) []*DataFrame {
   if nRows % n != 0 {
     batchSize++
   }
-  result := df.SplitView(batchSize)
-  missing := n - len(result)
-  if missing > 0 {  // expected to happen when batchSize = 1
+  var result []*DataFrame
+  if nRows > 0 {
+    result = df.SplitView(batchSize)
+  }
+  for len(result) < n {
     // fill up the rest with empty DataFrames
-    emptyDF := EmptyDataFrame(0, df.maxCPU)
-    emptyDFs := make([]*DataFrame, missing)
-    for i := 0; i < missing; i++ {
-      emptyDFs[i] = emptyDF
-    }
-    result = append(result, emptyDFs...)
+    result = append(result, df.SliceView(nRows, nRows))
   }
   return result
 }
-- 
2.43.0


From 2a249e3bdb2e6850f78dd425becd412442fcdd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 03/48] fix: SliceView with from > to returns the requested
 rows in reverse order

---
 dataframe/view.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 225f554..ff6ee7b 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -42,7 +42,8 @@ func (df *DataFrame) IndexView(indices []int) *DataFrame {
 // (included) to index "to" (excluded).
 // If "from" or "to" is negative, the index is relative to the end of the
 // dataframe. For example, -1 points to the last index of the dataframe.
-// If "from" is higher than "to", the row order will be reversed.
+// If "from" is higher than "to", the rows from index "to" (included) to index
+// "from" (excluded) will be returned in reverse order.
 func (df *DataFrame) SliceView(from int, to int) *DataFrame {
   if from < 0 {
     from += len(df.indices) + 1
@@ -51,8 +52,7 @@ func (df *DataFrame) SliceView(from int, to int) *DataFrame {
     to += len(df.indices) + 1
   }
   if from > to {
-    to, from = from, to
-    df = df.ReverseView()
+    return df.View().cut(to, from).ReverseView()
   }
   result := df.View().cut(from, to)
 
-- 
2.43.0


From 8913ee3789676af3e141ebbbe6b08c53f338118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 04/48] fix: structural changes on a view no longer alter the
 string columns of other views

---
 dataframe/raw_data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index a77c159..19f3b17 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -481,6 +481,7 @@ func (data *RawData) reallocateMaps() {
   data.ints = tmp.ints
   data.floats = tmp.floats
   data.objects = tmp.objects
+  data.stringHeader = tmp.stringHeader
   data.shared = tmp.shared  // all columns
   data.sharedMaps = false
 }
-- 
2.43.0


From 43fa1a0c043fa7f1c73123d691cc72e1c1065e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 05/48] fix: Drop on a view no longer drops columns of the
 frames sharing its maps

---
 dataframe/raw_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 19f3b17..1f75742 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -229,6 +229,9 @@ func (data *RawData) Drop(columns ...string) {
   if len(columns) == 0 {
     return
   }
+  if data.sharedMaps {
+    data.reallocateMaps()
+  }
   for _, col := range columns {
     data.shared.remove(col)
     data.stringHeader.remove(col)
-- 
2.43.0


From e39a2db643af8356f93902411ecb5dfc2f5bd3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 06/48] fix: ColumnView has its own list of shared columns

---
 dataframe/view.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/view.go b/dataframe/view.go
index ff6ee7b..f73215d 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -97,6 +97,7 @@ func (df *DataFrame) ColumnView(columns ...string) *DataFrame {
 
   // set of column to select
   colSet := utils.ToStringSet(columns)
+  result.shared = ColumnHeader{}  // not that of df
   result.shared.add(columns...)
 
   // select the given subset
-- 
2.43.0


From 8fa07348a05207dda25743a94a6e720ca4be0957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 07/48] fix: HashStringsView leaves its input alone when all
 the columns are hashed

---
 dataframe/view.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index f73215d..8c5e2d4 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -361,8 +361,8 @@ func (df *DataFrame) HashStringsView(columns ...string) *DataFrame {
     return df.View()
   }
   // allocate the new columns and exclude the string columns
-  otherColumns := df.Header().Except(columns...).NameList()
-  result := df.ColumnView(otherColumns...)
+  result := df.View()
+  result.Drop(columns...)
   nRows := df.NumAllocatedRows()
   for _, colName := range columns {
     result.ints[colName] = make([]int, nRows)
-- 
2.43.0


From 64205a9b06537a7fd4d9f49abdbd193a49767899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 08/48] fix: BoolToFloats removes the converted bool columns

---
 dataframe/raw_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 1f75742..851e7e6 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -462,7 +462,7 @@ func (data *RawData) BoolToFloats(columns...string) {
         newdata[i] = 1.0
       }
     }
-    delete(data.ints, col)
+    delete(data.bools, col)
     data.floats[col] = newdata
   }
 }
-- 
2.43.0


From 065d7f42cacee4cd572ed8835a7ea97b1c8ee907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 09/48] fix: Rename to the same name or to the name of an
 existing column

---
 dataframe/raw_data.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 851e7e6..3fe1482 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -247,7 +247,14 @@ func (data *RawData) Drop(columns ...string) {
 // For example, if you execute:
 //  df.View().Rename("apples", "oranges").Ints("oranges").Set(0, 42)
 // It will change df's number of apples to 42 at index=0.
+// If there is already a column named newName, it is replaced.
 func (data *RawData) Rename(oldName string, newName string) {
+  if data.Header().contains(oldName) {
+    if oldName == newName {
+      return
+    }
+    data.Drop(newName)
+  }
   if data.sharedMaps {
     data.reallocateMaps()
   }
-- 
2.43.0


From 70c5160a0a7c25ed1cc7b7beaa2a14754165a683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 10/48] fix: SortedView compares integers exactly

---
 dataframe/view.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 8c5e2d4..3dd580f 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -259,20 +259,20 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
       }
     }
     indices = append(first, last...)
-  } else {
+  } else if vals, ok := df.floats[byColumn]; ok {
     cpy := make([]float64, len(df.indices))
-    if vals, ok := df.floats[byColumn]; ok {
-      for j, i := range df.indices {
-        cpy[j] = vals[i]
-      }
-    } else if vals, ok := df.ints[byColumn]; ok {
-      for j, i := range df.indices {
-        cpy[j] = float64(vals[i])
-      }
-    } else {
-      panic(fmt.Sprintf("column %s is not a float/int/bool column", byColumn))
+    for j, i := range df.indices {
+      cpy[j] = vals[i]
     }
     indices = utils.FloatArgSort(cpy, false) // readonly=false: ok to change cpy
+  } else if vals, ok := df.ints[byColumn]; ok {
+    // not converted to floats: that would lose precision
+    indices = utils.MakeRange(0, len(df.indices), 1)
+    sort.SliceStable(indices, func(a, b int) bool {
+      return vals[df.indices[indices[a]]] < vals[df.indices[indices[b]]]
+    })
+  } else {
+    panic(fmt.Sprintf("column %s is not a float/int/bool column", byColumn))
   }
   return df.IndexView(indices)
 }
-- 
2.43.0


From ab8732969751d99ae1a581ca377f5a15395d8efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 11/48] fix: TopView never returns the frame it is called on

---
 dataframe/view.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 3dd580f..6b2a70f 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -291,7 +291,7 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
 func (df *DataFrame) TopView(byColumn string, n int, ascending bool, sorted bool) *DataFrame {
   if n >= len(df.indices) {
     if !sorted {
-      return df
+      return df.View()
     } else {
       n = len(df.indices)
     }
-- 
2.43.0


From a0600d8325f94d363ab22fb77a8014cf55e8a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 12/48] fix: Copy and ShallowCopy keep the text encoding

---
 dataframe/dataframe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index 434f9b2..f31c115 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -113,6 +113,7 @@ func (df *DataFrame) ShallowCopy() *DataFrame {
   result.indices = df.indices
   result.mask = df.mask
   result.indexViewed = df.indexViewed
+  result.textEncoding = df.textEncoding
   result.TransferRawDataFrom(&df.RawData)
   result.debugPrint("ShallowCopy() returns")
 
@@ -129,6 +130,7 @@ func (df *DataFrame) Copy() *DataFrame {
   result.mThreadSafe = df.mThreadSafe
   result.debug = df.debug
   result.stringHeader = df.stringHeader.Copy()
+  result.textEncoding = df.textEncoding
 
   if df.indexViewed {
     for col, v := range df.objects {
-- 
2.43.0


From fb5185f40ed29b5a7c38184af7b9b93ca8f9dc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 13/48] fix: RowConcat keeps the text encoding

---
 dataframe/concat.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index f81064c..8dd8617 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -21,6 +21,7 @@ func RowConcat(dfs ...*DataFrame) (*DataFrame, error) {
   }
   // allocation
   result := EmptyDataFrame(nRows, dfs[0].maxCPU)
+  result.textEncoding = dfs[0].textEncoding
   for col := range dfs[0].floats {
     result.floats[col] = make([]float64, nRows)
   }
-- 
2.43.0


From 2cf1ba7637669e03774858374b29607e7c32c0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 14/48] fix: RowConcat reports columns that the first dataframe
 does not have

---
 dataframe/concat.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index 8dd8617..d950b4d 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -75,6 +75,9 @@ func RowConcat(dfs ...*DataFrame) (*DataFrame, error) {
         return nil, fmt.Errorf("bool column %s not found in %dth dataframe", col, k)
       }
     }
+    if df.NumColumns() != result.NumColumns() {
+      return nil, fmt.Errorf("%dth dataframe has more columns than the first one", k)
+    }
     offset += df.NumRows()
   }
   return result, nil
-- 
2.43.0


From c44741c19c2f4b312b9b35c0642b36e12a6ffbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 15/48] fix: ColumnConcatView compares the inner indices
 themselves and the number of rows

---
 dataframe/concat.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index d950b4d..5252290 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -2,7 +2,6 @@ package dataframe
 
 import (
    "fmt"
-   "github.com/rom1mouret/ml-essentials/utils"
 )
 
 // RowConcat concatenates the rows of the given dataframes.
@@ -116,23 +115,24 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
     return nil, err
   }
   // check that all the indices match
-  views := false
-  for _, df := range dfs {
-    if df.indexViewed {
-      views = true
-      break
+  views := dfs[0].indexViewed
+  ref := dfs[0].indices
+  for _, df := range dfs[1:] {
+    if len(df.indices) != len(ref) {
+      return nil, fmt.Errorf("cannot col-wise concatenate df(rows=%d) with df(rows=%d)", len(ref), len(df.indices))
     }
-  }
-  if views {
-    ref := utils.HashIntSlice(dfs[0].indices)
-    for _, df := range dfs[1:] {
-      if utils.HashIntSlice(df.indices) != ref {
+    for j, index := range df.indices {
+      if index != ref[j] {
         return nil, fmt.Errorf("index mistmatch between dataframes. Use ColumnConcat instead")
       }
     }
+    if df.indexViewed {
+      views = true
+    }
   }
   // merge in a shallow way
   result := dfs[0].ShallowCopy()
+  result.indexViewed = views
   for _, df := range dfs[1:] {
     for col, values := range df.floats {
       result.floats[col] = values
-- 
2.43.0


From 979bff075d9989225d0c8e17f88c7baca59706ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:19 +0000
Subject: [PATCH 16/48] fix: ColumnConcatView keeps the string columns of every
 dataframe

---
 dataframe/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index 5252290..678797f 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -150,7 +150,7 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
       result.bools[col] = values
       result.shared.add(col)
     }
-    result.stringHeader.And(df.stringHeader)
+    result.stringHeader = result.stringHeader.And(df.stringHeader)
   }
   return result, nil
 }
-- 
2.43.0


From 4756be2fd10fa7f169eae641f68353af4ddd25fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:20 +0000
Subject: [PATCH 17/48] fix: MergeRawDataRows keeps string columns, text
 encoding and CPU limit

---
 dataframe/raw_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 3fe1482..0db4797 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -415,9 +415,12 @@ func MergeRawDataRows(list []*RawData) *RawData {
   for col := range list[0].objects {
     result.objects[col] = make([]interface{}, 0, size)
   }
+  result.textEncoding = list[0].textEncoding
+  result.maxCPU = list[0].maxCPU
   // copy the data with append()
   // (https://gist.github.com/xogeny/b819af6a0cf8ba1caaef)
   for _, data := range list {
+    result.stringHeader = result.stringHeader.And(data.stringHeader)
     for col, vals := range data.floats {
       result.floats[col] = append(result.floats[col], vals...)
     }
-- 
2.43.0


From a2b0aa35bd044ac03e4cf2a2bedb44ead02da107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 18/48] fix: EmptyDataFrame applies the documented CPU limit

---
 dataframe/dataframe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index f31c115..7a4be37 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -26,7 +26,7 @@ func EmptyDataFrame(nRows int, maxCPU int) *DataFrame {
   result.floats = make(map[string][]float64)
   result.bools = make(map[string][]bool)
   result.ints = make(map[string][]int)
-  result.maxCPU = maxCPU
+  result.SetMaxCPU(maxCPU)
   result.dataUID = generateDataUID()
   result.resetStructureUID()
   // stringHeader is not pre-allocated
-- 
2.43.0


From f2661ed6f570b8bed3f76f9c149c13e8c0968679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:58 +0000
Subject: [PATCH 19/48] fix: Dense64Batching counts the missing cells, not rows
 minus cells

---
 dataframe/dense_gonum_batching.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/dense_gonum_batching.go b/dataframe/dense_gonum_batching.go
index 4146ba8..4a40098 100644
--- a/dataframe/dense_gonum_batching.go
+++ b/dataframe/dense_gonum_batching.go
@@ -35,7 +35,7 @@ func (bat *Dense64Batching) DenseMatrix(df *DataFrame) mat.Matrix {
   // allocate more data if necessary
   dim := len(bat.columns)
   nRows := df.NumRows()
-  missing := dim * (nRows - len(bat.data))
+  missing := dim * nRows - len(bat.data)
   if missing > 0 {
     bat.data = append(bat.data, make([]float64, missing)...)
   }
-- 
2.43.0


From defb06902a5917bc0fb86413cf62527776ba0009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 20/48] fix: MakeRange covers ragged, empty and backwards
 intervals

---
 utils/utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/utils.go b/utils/utils.go
index aa8c630..4407fd0 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -7,7 +7,10 @@ import (
 )
 
 func MakeRange(from int, to int, interval int) []int {
-  result := make([]int, (to - from) / interval)
+  if to <= from {
+    return []int{}
+  }
+  result := make([]int, (to - from + interval - 1) / interval)
   for n, j := from, 0; n < to; n, j = n + interval, j+1 {
     result[j] = n
   }
-- 
2.43.0


From 7c3e2dad1b4368ca32adc7fbc217f8d5b144350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 21/48] fix: GroupIndexer handles zero elements and reports the
 number of groups it delivers

---
 utils/group_indexer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/group_indexer.go b/utils/group_indexer.go
index 71c0a09..f7e922d 100644
--- a/utils/group_indexer.go
+++ b/utils/group_indexer.go
@@ -23,12 +23,17 @@ func (indexer *GroupIndexer) Initialize(nElements int, nGroups int) {
   if nGroups > nElements {
     nGroups = nElements
   }
-  indexer.NGroups = nGroups
+  indexer.end = nElements
+  if nElements == 0 {
+    indexer.NGroups = 0
+    return
+  }
   indexer.groupSize = nElements / nGroups
   if nElements % nGroups != 0 {
     indexer.groupSize++
   }
-  indexer.end = nElements
+  // rounding the group size up can leave fewer groups to deliver
+  indexer.NGroups = (nElements + indexer.groupSize - 1) / indexer.groupSize
 }
 
 func (indexer GroupIndexer) HasNext() bool {
-- 
2.43.0


From 66770f463a11c187b03b90538b6025071494c2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 22/48] fix: columns with an empty name no longer stall the
 column queue

---
 dataframe/csv_parsing.go       | 4 ++--
 dataframe/view.go              | 2 +-
 preprocessing/float_imputer.go | 2 +-
 preprocessing/one_hot.go       | 4 ++--
 preprocessing/scaler.go        | 4 ++--
 utils/string_q.go              | 8 +++-----
 6 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index d584fbe..c0c4de6 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -132,7 +132,7 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
                    missingVals map[string]bool, spec CSVReadingSpec,
                    q utils.StringQ) {
   missing := make([]bool, len(records))
-  for colName := q.Next(); len(colName) > 0; colName = q.Next() {
+  for colName, more := q.Next(); more; colName, more = q.Next() {
     col := utils.IndexOfString(colName, header)
     if !spec.BinaryAsFloat && isBinary(records, col) {
       data.bools[colName] = toBool(records, col)
@@ -309,7 +309,7 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
 }
 
 func processFileQueue(options* CSVReadingSpec, q utils.StringQ) {
-  for path := q.Next(); len(path) > 0; path = q.Next() {
+  for path, more := q.Next(); more; path, more = q.Next() {
     data, err := FromCSVFile(path, *options)
     q.Notify(utils.ProcessedJob{Key: path, Error: err, Result: data})
   }
diff --git a/dataframe/view.go b/dataframe/view.go
index 6b2a70f..b76cb71 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -328,7 +328,7 @@ const maxInt = uint64(^uint(0) >> 1)
 
 func (inputDF *DataFrame) workerHashes(outputDF *DataFrame, columnQ utils.StringQ) {
   hash := fnv.New64a()  // TODO: benchmark this algorithm
-  for col := columnQ.Next(); len(col) > 0; col = columnQ.Next() {
+  for col, more := columnQ.Next(); more; col, more = columnQ.Next() {
     defer columnQ.Notify(utils.ProcessedJob{Key: col})
     inputCol := inputDF.objects[col]
     outputCol := outputDF.ints[col]
diff --git a/preprocessing/float_imputer.go b/preprocessing/float_imputer.go
index 3c9fb2e..978ce68 100644
--- a/preprocessing/float_imputer.go
+++ b/preprocessing/float_imputer.go
@@ -49,7 +49,7 @@ func (imputer *FloatImputer) TransformedColumns() []string {
 }
 
 func (imputer *FloatImputer) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     access := df.Floats(col)
     sum := 0.0
     n := 0
diff --git a/preprocessing/one_hot.go b/preprocessing/one_hot.go
index 96a25a0..37d54ae 100644
--- a/preprocessing/one_hot.go
+++ b/preprocessing/one_hot.go
@@ -54,7 +54,7 @@ func NewOneHotEncoder(options OneHotOptions) *OneHotEncoder {
 
 func (encoder *OneHotEncoder) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
   opt := encoder.Options
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     defer q.Notify(utils.ProcessedJob{Key: col})
     // compute the frequency of each category
     access := df.Ints(col)
@@ -164,7 +164,7 @@ func (encoder *OneHotEncoder) workerTransforms(df *dataframe.DataFrame, q utils.
   var unkColumn dataframe.BoolAccess
   opt := encoder.Options
 
-  for catCol := q.Next(); len(catCol) > 0; catCol = q.Next() {
+  for catCol, more := q.Next(); more; catCol, more = q.Next() {
     notif := utils.ProcessedJob{Key: catCol}
     access := df.Ints(catCol)
     categoryToNewCol := encoder.Categories[catCol]
diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index f8890d6..ffacb23 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -37,7 +37,7 @@ type fittingResult struct {
 }
 
 func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     access := df.Floats(col)
     result := fittingResult{}
     defer q.Notify(utils.ProcessedJob{Key: col, Result: &result})
@@ -114,7 +114,7 @@ func (scaler *Scaler) Fit(df *dataframe.DataFrame) error {
   return nil
 }
 func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     defer q.Notify(utils.ProcessedJob{Key: col})
     var ok bool
     var scale float64
diff --git a/utils/string_q.go b/utils/string_q.go
index 382b70c..10603f1 100644
--- a/utils/string_q.go
+++ b/utils/string_q.go
@@ -58,12 +58,10 @@ func (q StringQ) Wait() {
   }
 }
 
-func (q StringQ) Next() string {
+// Next returns the next key to process, and false when there is none left.
+func (q StringQ) Next() (string, bool) {
   col, more := <-q.Keys
-  if more {
-    return col
-  }
-  return ""
+  return col, more
 }
 
 func (q StringQ) Notify(err ProcessedJob) {
-- 
2.43.0


From bf48c482ad09be8ab9a9b77b8b5fb3ab5de365de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:33 +0000
Subject: [PATCH 23/48] fix: Encode converts repeated rows once and leaves
 everything untouched on error

---
 dataframe/inplace.go | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/dataframe/inplace.go b/dataframe/inplace.go
index 334bb1d..e31433d 100644
--- a/dataframe/inplace.go
+++ b/dataframe/inplace.go
@@ -4,8 +4,10 @@ import (
   "golang.org/x/text/encoding"
 )
 
-func inplaceEncoding(values []interface{}, indices []int, decoder *encoding.Decoder,
-                     encoder *encoding.Encoder) (error, int) {
+// encodeStrings returns the re-encoded values of the given rows, in order.
+func encodeStrings(values []interface{}, indices []int, decoder *encoding.Decoder,
+                   encoder *encoding.Encoder) ([]interface{}, error) {
+  result := make([]interface{}, len(indices))
   for j, i := range indices {  // others are left to nil
     if values[i] != nil {
       var err error
@@ -14,21 +16,21 @@ func inplaceEncoding(values []interface{}, indices []int, decoder *encoding.Deco
       if decoder != nil {
         v, err = decoder.String(v)
         if err != nil {
-          return err, j
+          return nil, err
         }
       } // otherwise UTF-8
       // 2. convert from UTF-8 to new encoding
       if encoder != nil {
         v, err = encoder.String(v)
         if err != nil {
-          return err, j
+          return nil, err
         }
       } // otherwise UTF-8
       // 3. set the new value
-      values[i] = v
+      result[j] = v
     }
   }
-  return nil, -1
+  return result, nil
 }
 
 // Encode changes the encoding of all all the string columns.
@@ -49,28 +51,22 @@ func (df *DataFrame) Encode(newEncoding encoding.Encoding) error {
   if newEncoding != nil {
     encoder = newEncoding.NewEncoder()
   }
+  // encode everything before changing anything, so as to leave the dataframe
+  // untouched on error, and encode only once the rows that appear many times
   colNames := df.stringHeader.NameList()
+  encoded := make([][]interface{}, len(colNames))
   for i, col := range colNames {
-    values := df.objects[col]
-    err, where := inplaceEncoding(values, df.indices, decoder, encoder)
+    values, err := encodeStrings(df.objects[col], df.indices, decoder, encoder)
     if err != nil {
-      // we need to revert our changes
-      if newEncoding == nil {
-        decoder = nil
-      } else {
-        decoder = newEncoding.NewDecoder()
-      }
-      if df.textEncoding == nil {
-        encoder = nil
-      } else {
-        encoder = df.textEncoding.NewEncoder()
-      }
-      inplaceEncoding(values, df.indices[:where], decoder, encoder)
-      for _, previous := range colNames[:i] {
-          inplaceEncoding(df.objects[previous], df.indices, decoder, encoder)
-      }
       return err
     }
+    encoded[i] = values
+  }
+  for i, col := range colNames {
+    values := df.objects[col]
+    for j, k := range df.indices {
+      values[k] = encoded[i][j]
+    }
   }
   df.textEncoding = newEncoding
 
-- 
2.43.0


From 30b9307b6a22abc4792dd5a46f301c5e741b3c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 24/48] fix: BoolAsFloat and BinaryAsFloat are honoured

---
 dataframe/csv_parsing.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index c0c4de6..0c9cc7f 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -78,6 +78,16 @@ func toBool(records [][]string, col int) []bool {
   return values
 }
 
+func boolToFloat(records [][]string, col int) []float64 {
+  values := make([]float64, len(records))
+  for row := 0; row < len(records); row++ {
+    if v, _ := strconv.ParseBool(records[row][col]); v {
+      values[row] = 1
+    }
+  }
+  return values
+}
+
 func isInt(records [][]string, col int, missing []bool) bool {
   for row := 0; row < len(records); row++ {
     if !missing[row] {
@@ -134,10 +144,12 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
   missing := make([]bool, len(records))
   for colName, more := q.Next(); more; colName, more = q.Next() {
     col := utils.IndexOfString(colName, header)
-    if !spec.BinaryAsFloat && isBinary(records, col) {
-      data.bools[colName] = toBool(records, col)
-    } else if !spec.BoolAsFloat && !spec.BinaryAsFloat && isBool(records, col) {
-      data.bools[colName] = toBool(records, col)
+    if isBool(records, col) {
+      if spec.BoolAsFloat || (spec.BinaryAsFloat && isBinary(records, col)) {
+        data.floats[colName] = boolToFloat(records, col)
+      } else {
+        data.bools[colName] = toBool(records, col)
+      }
     } else {
       if len(missingVals) > 0 {
         for i := range missing {
-- 
2.43.0


From dd5831af4bef08a42bc5366acd54efdf53b6fc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:20 +0000
Subject: [PATCH 25/48] fix: a header longer than the records is an error

---
 dataframe/csv_parsing.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index 0c9cc7f..2ba1bd9 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -1,6 +1,7 @@
 package dataframe
 
 import (
+  "fmt"
   "runtime"
   "encoding/csv"
   "math"
@@ -221,6 +222,10 @@ func FromCSV(r io.Reader, options CSVReadingSpec) (*RawData, error) {
   if err != nil {
     return nil, err
   }
+  if len(records) > 0 && len(records[0]) < len(header) {
+    return nil, fmt.Errorf("header has %d columns but the records have %d fields",
+                           len(header), len(records[0]))
+  }
   // column queue for the worker pool
   colsToParse := Columns(header...).Except(options.Exclude...)
   tmp := RawData{} // only to get a col q
-- 
2.43.0


From f0a5930c84e51c4f5964cfbfb8d3dbbdbcc8d128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:50 +0000
Subject: [PATCH 26/48] fix: CSV writing reports the errors of the final flush

---
 dataframe/csv_writing.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index d665621..cd2cb81 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -39,7 +39,6 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
     writer.Comma = options.Comma
   }
   writer.UseCRLF = options.UseCRLF
-  defer writer.Flush()
   // this minimize the cache-misses
   df = df.sortIfNeeded(options)
 
@@ -105,7 +104,8 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
       return err
     }
   }
-  return nil
+  writer.Flush()
+  return writer.Error()
 }
 
 func (df *DataFrame) threadedTo1CSV(w io.Writer, err []error, opt CSVWritingSpec, wg *sync.WaitGroup) {
-- 
2.43.0


From 7b508899afdbadb2d61209349cff23f0fe8d5f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:50 +0000
Subject: [PATCH 27/48] fix: records of a single empty field are not written as
 blank lines

---
 dataframe/csv_writing.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index cd2cb81..708738c 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -48,7 +48,7 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
   fCols := df.FloatHeader().NameList()
   sCols := df.StringHeader().NameList()
   colNames := append(append(append(bCols, iCols...), fCols...), sCols...)
-  err := writer.Write(colNames)
+  err := writeRecords(r, writer, [][]string{colNames})
   if err != nil {
     return err
   }
@@ -99,7 +99,7 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
       col++
     }
     // write the batch
-    err := writer.WriteAll(batch[:end - j])
+    err := writeRecords(r, writer, batch[:end - j])
     if err != nil {
       return err
     }
@@ -108,6 +108,33 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
   return writer.Error()
 }
 
+// writeRecords writes the records with the given CSV writer, which writes to w.
+// A record made of a single empty field would be a blank line, which readers
+// skip, so the field is quoted.
+func writeRecords(w io.Writer, writer *csv.Writer, records [][]string) error {
+  for _, record := range records {
+    if len(record) != 1 || record[0] != "" {
+      if err := writer.Write(record); err != nil {
+        return err
+      }
+      continue
+    }
+    // keep the order of the records
+    writer.Flush()
+    if err := writer.Error(); err != nil {
+      return err
+    }
+    line := "\"\"\n"
+    if writer.UseCRLF {
+      line = "\"\"\r\n"
+    }
+    if _, err := io.WriteString(w, line); err != nil {
+      return err
+    }
+  }
+  return nil
+}
+
 func (df *DataFrame) threadedTo1CSV(w io.Writer, err []error, opt CSVWritingSpec, wg *sync.WaitGroup) {
   defer wg.Done()
   err[0] = df.To1CSV(w, opt)
-- 
2.43.0


From c30f48dfddf430a2812395b6e582016eea2ca91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:04 +0000
Subject: [PATCH 28/48] fix: reading several files needs at least one worker
 and keeps MaxCPU

---
 dataframe/csv_parsing.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index 2ba1bd9..23ece74 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -300,8 +300,9 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
     return FromCSVFile(paths[0], options)
   }
   // file-wise multi-threading
-  cpu := options.MaxCPU
-  if cpu <= 0 {
+  maxCPU := options.MaxCPU
+  cpu := maxCPU
+  if cpu <= 0 || cpu > runtime.NumCPU() {
     cpu = runtime.NumCPU()
   }
   cpuPerFile := cpu / len(paths)
@@ -309,7 +310,7 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
     cpuPerFile = 1
   }
   options.MaxCPU = cpuPerFile
-  maxWorkers := len(paths) / cpuPerFile
+  maxWorkers := cpu / cpuPerFile
   fileQ := utils.CreateStringQueue(paths, maxWorkers)
   for i := 0; i < fileQ.Workers; i++ {
     go processFileQueue(&options, fileQ)
@@ -322,7 +323,9 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
     data[i] = result.Result.(*RawData)
   }
   // concatenate everything
-  return MergeRawDataRows(data), nil
+  result := MergeRawDataRows(data)
+  result.SetMaxCPU(maxCPU)
+  return result, nil
 }
 
 func processFileQueue(options* CSVReadingSpec, q utils.StringQ) {
-- 
2.43.0


From f293a96494c2d7ea4294209ff511808f2a258846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 29/48] fix: MinMax scaling divides by the range and handles
 constant and missing columns

---
 preprocessing/scaler.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index ffacb23..9ad8b16 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -54,8 +54,14 @@ func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
           min = val
         }
       }
-      shift := -min
-      scale := max - min
+      shift := 0.0
+      scale := 1.0
+      if min <= max {  // otherwise all the values are missing
+        shift = -min
+        if min < max {
+          scale = 1 / (max - min)
+        }
+      }
       result.shift = &shift
       result.scale = &scale
     } else if opt.Scaling || opt.Centering {
-- 
2.43.0


From 6d3c964c0acbee27b2dd74caeaa6e788ebd34ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 30/48] fix: columns of missing values only are scaled and
 imputed with numbers

---
 preprocessing/float_imputer.go | 5 ++++-
 preprocessing/scaler.go        | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/preprocessing/float_imputer.go b/preprocessing/float_imputer.go
index 978ce68..fd2364a 100644
--- a/preprocessing/float_imputer.go
+++ b/preprocessing/float_imputer.go
@@ -60,7 +60,10 @@ func (imputer *FloatImputer) workerFits(df *dataframe.DataFrame, q utils.StringQ
         n++
       }
     }
-    fallback := sum / float64(n)
+    fallback := 0.0  // if all the values are missing
+    if n > 0 {
+      fallback = sum / float64(n)
+    }
     defer q.Notify(utils.ProcessedJob{Key: col, Result: &fallback})
   }
 }
diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index 9ad8b16..8fff326 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -75,7 +75,9 @@ func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
           n++
         }
       }
-      mean /= float64(n)
+      if n > 0 {
+        mean /= float64(n)
+      }
       if opt.Centering {
         shift := -mean
         result.shift = &shift
-- 
2.43.0


From 87d20bd81d3c7914eb5bfddd971befc5ac31d254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 31/48] fix: Scaler transforms once the rows that appear many
 times in a view

---
 preprocessing/scaler.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index 8fff326..491a18a 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -121,7 +121,23 @@ func (scaler *Scaler) Fit(df *dataframe.DataFrame) error {
   }
   return nil
 }
-func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, q utils.StringQ) {
+
+// distinctRows returns the rows of the dataframe without those that share their
+// data with a previous row, as happens in views made of repeated indices.
+func distinctRows(df *dataframe.DataFrame) []int {
+  indices := dataframe.DataFrameInternals{DF: df}.GetIndices()
+  seen := make([]bool, df.NumAllocatedRows())
+  rows := make([]int, 0, len(indices))
+  for i, index := range indices {
+    if !seen[index] {
+      seen[index] = true
+      rows = append(rows, i)
+    }
+  }
+  return rows
+}
+
+func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, rows []int, q utils.StringQ) {
   for col, more := q.Next(); more; col, more = q.Next() {
     defer q.Notify(utils.ProcessedJob{Key: col})
     var ok bool
@@ -131,7 +147,7 @@ func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, q utils.StringQ)
       scale = 1  // default scale
     }
     access := df.Floats(col)
-    for i := 0; i < access.Size(); i++ {
+    for _, i := range rows {
       access.Set(i, (access.Get(i) + shift) * scale)
     }
   }
@@ -149,10 +165,11 @@ func (scaler *Scaler) TransformInplace(df *dataframe.DataFrame) error {
   if len(m) == 0 {
     return nil
   }
+  rows := distinctRows(df)
   q := df.CreateColumnQueue(scaler.TransformedColumns())
   defer q.Wait()
   for i := 0; i < q.Workers; i++ {
-    go scaler.workerTransforms(df, q)
+    go scaler.workerTransforms(df, rows, q)
   }
   return nil
 }
-- 
2.43.0


From b9ddd567533a8aebe982e6ceffaa22191337ed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 32/48] fix: one-hot encoding follows its policies in every
 combination

- a shared policy next to ReturnError or another shared one means a separate
  category instead of a panic or the most frequent category
- columns without categories no longer make Fit panic
- new columns never take the name of an existing column
---
 preprocessing/one_hot.go | 46 ++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/preprocessing/one_hot.go b/preprocessing/one_hot.go
index 37d54ae..691681f 100644
--- a/preprocessing/one_hot.go
+++ b/preprocessing/one_hot.go
@@ -54,6 +54,7 @@ func NewOneHotEncoder(options OneHotOptions) *OneHotEncoder {
 
 func (encoder *OneHotEncoder) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
   opt := encoder.Options
+  existing := df.Header().NameSet()
   for col, more := q.Next(); more; col, more = q.Next() {
     defer q.Notify(utils.ProcessedJob{Key: col})
     // compute the frequency of each category
@@ -81,25 +82,31 @@ func (encoder *OneHotEncoder) workerFits(df *dataframe.DataFrame, q utils.String
     categoryToNewCol := encoder.Categories[col]
     i := 0
     for category := range(freqs) {
-      categoryToNewCol[category] = fmt.Sprintf("%s_onehot%d", col, i)
+      categoryToNewCol[category] = unusedName(fmt.Sprintf("%s_onehot%d", col, i), existing)
       i++
     }
     fallback := encoder.Fallback[col]
+    missingCol := unusedName(fmt.Sprintf("%s_missing", col), existing)
+    // without any category, there is nothing to impute missing values with
+    mostCommonCol := missingCol
+    if len(freqs) > 0 {
+      mostCommonCol = categoryToNewCol[mostCommon]
+    }
     if opt.MissingPolicy == SeparateCategoryIfSeen {
       if missingSeen {
-        fallback[0] = fmt.Sprintf("%s_missing", col)
+        fallback[0] = missingCol
       } else {
-        fallback[0] = categoryToNewCol[mostCommon]
+        fallback[0] = mostCommonCol
       }
     } else if opt.MissingPolicy == SeparateCategory {
-      fallback[0] = fmt.Sprintf("%s_missing", col)
+      fallback[0] = missingCol
     } else if opt.MissingPolicy == ImputeWithMostFrequent {
-      fallback[0] = categoryToNewCol[mostCommon]
+      fallback[0] = mostCommonCol
     }
     if opt.UnknownPolicy == SeparateCategory {
-      fallback[1] = fmt.Sprintf("%s_unk", col)
+      fallback[1] = unusedName(fmt.Sprintf("%s_unk", col), existing)
     } else if opt.UnknownPolicy == ImputeWithMostFrequent {
-      fallback[1] = categoryToNewCol[mostCommon]
+      fallback[1] = mostCommonCol
     } else if opt.UnknownPolicy == SharedSeparateCategory {
       fallback[1] = fallback[0]
     }
@@ -229,23 +236,34 @@ func (encoder *OneHotEncoder) TransformedColumns() []string {
 }
 
 func (opt* OneHotOptions) fix() {
+  if opt.UnknownPolicy == SeparateCategoryIfSeen {
+    // unknown categories are never seen, by definition
+    opt.UnknownPolicy = SeparateCategory
+  }
   // make sure MissingPolicy == Shared never happen
   if opt.MissingPolicy == SharedSeparateCategory {
-    if opt.UnknownPolicy != SharedSeparateCategory {
+    if opt.UnknownPolicy == SharedSeparateCategory || opt.UnknownPolicy == ReturnError {
+      // one separate category, which unknown categories may share
+      opt.MissingPolicy = SeparateCategory
+    } else {
       // swap MissingPolicy and UnknownPolicy
       opt.MissingPolicy = opt.UnknownPolicy
       opt.UnknownPolicy = SharedSeparateCategory
-    } else { // both policies are SharedSeparateCategory
-      // choose a good default
-      opt.MissingPolicy = SeparateCategoryIfSeen
     }
-  }
-  if opt.UnknownPolicy == SeparateCategoryIfSeen {
-    // unknown categories are never seen, by definition
+  } else if opt.UnknownPolicy == SharedSeparateCategory && opt.MissingPolicy == ReturnError {
+    // missing values have no category to share
     opt.UnknownPolicy = SeparateCategory
   }
 }
 
+// unusedName makes sure that a new column does not replace an existing one.
+func unusedName(name string, existing map[string]bool) string {
+  for existing[name] {
+    name += "_"
+  }
+  return name
+}
+
 // func (encoder *OneHotEncoder) InverseTransformInplace() {
 //   // TODO: lazily construct the inverse table
 //   // protect the construction with a Mutex
-- 
2.43.0


From ee4ab05eb42340346b38b4b3d7032d3cc258afb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 33/48] fix: AutoPreprocessor honours its options, trains anew,
 and returns its own frames

- FitTransform no longer fails with only one of Imputing and Scaling, and no
  longer transforms excluded columns when every float column is excluded
- Exclude applies to strings and ints as well
- the components of a previous training are forgotten
- the input dataframe itself is never returned
- TransformedColumns works with any combination of components
---
 preprocessing/auto_preprocessor.go | 44 ++++++++++++++++++++++--------
 preprocessing/one_hot.go           |  6 +++-
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index cb58328..fb67d05 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -38,8 +38,16 @@ func NewAutoPreprocessor(opt AutoPreprocOptions) *AutoPreprocessor {
 
 // TransformedColumns implements PreprocTraining and Transform interfaces.
 func (preproc *AutoPreprocessor) TransformedColumns() []string {
-  cols := preproc.Imputer.TransformedColumns()  // can be safely changed
-  cols = append(cols, preproc.StringToInt.TransformedColumns()...)
+  var cols []string
+  if preproc.Imputer != nil {
+    cols = append(cols, preproc.Imputer.TransformedColumns()...)
+  } else if preproc.Scaler != nil {
+    cols = append(cols, preproc.Scaler.TransformedColumns()...)
+  }
+  if preproc.IntToBool != nil {
+    // includes the columns of StringToInt
+    cols = append(cols, preproc.IntToBool.TransformedColumns()...)
+  }
   return cols
 }
 
@@ -66,8 +74,13 @@ func (preproc *AutoPreprocessor) FitTransform(df *dataframe.DataFrame) *datafram
 
 func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*dataframe.DataFrame, error) {
   opt := preproc.options
+  // forget about any previous training
+  preproc.StringToInt = nil
+  preproc.IntToBool = nil
+  preproc.Imputer = nil
+  preproc.Scaler = nil
   floatCols := df.FloatHeader().Except(opt.Exclude...).NameList()
-  if opt.Imputing || opt.Scaling {
+  if (opt.Imputing || opt.Scaling) && len(floatCols) > 0 {
     start := time.Now()
     floatsOnly := df.ColumnView(floatCols...)
     if opt.Imputing {
@@ -85,10 +98,11 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
   }
   // category encoding
   var categorical []string
-  if df.StringHeader().Num() > 0 {
+  stringCols := df.StringHeader().Except(opt.Exclude...).NameList()
+  if len(stringCols) > 0 {
     start := time.Now()
     preproc.StringToInt = NewHashEncoder(HashEncoderOptions{})
-    preproc.StringToInt.Fit(df)
+    preproc.StringToInt.Fit(df.ColumnView(stringCols...))
     view, err := preproc.StringToInt.TransformView(df)
     df = view
     if err != nil {
@@ -99,7 +113,7 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
       log.Printf("running Hash Encoder took %s with cpu=%d", time.Since(start), df.ActualMaxCPU())
     }
   } else {
-    categorical = df.IntHeader().NameList()
+    categorical = df.IntHeader().Except(opt.Exclude...).NameList()
   }
   if len(categorical) > 0 {
     start := time.Now()
@@ -108,7 +122,7 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
         UnknownPolicy: SharedSeparateCategory,
     }
     preproc.IntToBool = NewOneHotEncoder(topt)
-    preproc.IntToBool.Fit(df.ColumnView(categorical...))
+    preproc.IntToBool.fit(df, categorical)
     if opt.Verbose {
       log.Printf("training One-Hot Encoder took %s with cpu=%d",
                  time.Since(start), df.ActualMaxCPU())
@@ -124,14 +138,18 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
     if err != nil {
       return nil, err
     }
-  } else if !opt.Imputing && !opt.Scaling {
-    return df, nil
   }
   start := time.Now()
   df = df.View()
-  df.Unshare(floatCols...) // unshare() make it safe for in-place modifications
-  preproc.Imputer.TransformInplace(df)
-  preproc.Scaler.TransformInplace(df)
+  if len(floatCols) > 0 {
+    df.Unshare(floatCols...) // unshare() make it safe for in-place modifications
+  }
+  if preproc.Imputer != nil {
+    preproc.Imputer.TransformInplace(df)
+  }
+  if preproc.Scaler != nil {
+    preproc.Scaler.TransformInplace(df)
+  }
   if opt.Verbose {
     log.Printf("running Imputer+Scaler took %s with cpu=%d",
                time.Since(start), df.ActualMaxCPU())
@@ -149,6 +167,8 @@ func (preproc *AutoPreprocessor) TransformView(df *dataframe.DataFrame) (*datafr
     df = df.DetachedView(preproc.Imputer.TransformedColumns()...)
   } else if preproc.Scaler != nil {
     df = df.DetachedView(preproc.Scaler.TransformedColumns()...)
+  } else {
+    df = df.View()
   }
   // transformations
   if preproc.Imputer != nil {
diff --git a/preprocessing/one_hot.go b/preprocessing/one_hot.go
index 691681f..e4a651b 100644
--- a/preprocessing/one_hot.go
+++ b/preprocessing/one_hot.go
@@ -115,7 +115,11 @@ func (encoder *OneHotEncoder) workerFits(df *dataframe.DataFrame, q utils.String
 
 // Fit implements PreprocTraining and Transform interfaces.
 func (encoder *OneHotEncoder) Fit(df *dataframe.DataFrame) error {
-  categoricalCols := df.IntHeader().NameList()
+  return encoder.fit(df, df.IntHeader().NameList())
+}
+
+// fit trains the encoder on the given int columns of a dataframe.
+func (encoder *OneHotEncoder) fit(df *dataframe.DataFrame, categoricalCols []string) error {
   encoder.CategoricalColumns = categoricalCols
 
   // instantiate the maps
-- 
2.43.0


From 7838950ef17100c5cf46069c0e65bdd9dd5bb9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 34/48] fix: Predict leaves the dataframe alone and predicts
 every row once

The predictions are un-scaled on their own: this no longer involves a column of
the dataframe named like the scaled target, nor rows that appear many times in a
view, nor a result column of another type. No row to predict is not an error.
---
 algorithms/linear_regression.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 8efb696..16540e0 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -158,6 +158,9 @@ func (reg *LinearRegressor) Predict(df *dataframe.DataFrame, resultColumn string
   // prediction
   batching := dataframe.NewDense64Batching(reg.Features)
   for i, batch := range df.SplitView(batchSize) {
+    if batch.NumRows() == 0 {
+      continue
+    }
     rows := batching.DenseMatrix(batch)
     offset := i * batchSize
     yData := pred[offset:offset+batch.NumRows()]
@@ -165,11 +168,17 @@ func (reg *LinearRegressor) Predict(df *dataframe.DataFrame, resultColumn string
     yVec.MulVec(rows, weights)
   }
 
+  // reverse the scaling of the target
+  builder := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
+  for _, col := range reg.TargetScaler.TransformedColumns() {
+    builder.SetFloats(col, pred)
+  }
+  reg.TargetScaler.InverseTransformInplace(builder.ToDataFrame())
+
   // write the result in the dataframe
   result := df.View()
-  result.OverwriteFloats64("_target", pred)
-  reg.TargetScaler.InverseTransformInplace(result)
-  result.Rename("_target", resultColumn)
+  result.Drop(resultColumn) // it can be of any type
+  result.OverwriteFloats64(resultColumn, pred)
 
   return result, nil
 }
-- 
2.43.0


From e6f13f9aa5bd551eb60b57359897ed766f2520a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 35/48] fix: LinearRegressor.Fit applies defaults and accepts
 features of any name

Epochs, LR and BatchSize have the documented default values, and a feature named
_target is no longer mistaken for the target.
---
 algorithms/linear_regression.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 16540e0..0b63d69 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -55,6 +55,16 @@ func NewLinearRegressor() *LinearRegressor {
 // You need not shuffle the dataset prior to calling this function.
 func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
                                 params LinRegTrainParams) error {
+  // default hyper-parameters
+  if params.Epochs == 0 {
+    params.Epochs = 10
+  }
+  if params.LR == 0 {
+    params.LR = 0.001
+  }
+  if params.BatchSize == 0 {
+    params.BatchSize = 32
+  }
   // just to save some memory if we perform a copy below
   floatsAndBools := df.FloatHeader().And(df.BoolHeader())
   df = df.ColumnView(floatsAndBools.NameList()...)
@@ -62,9 +72,13 @@ func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
   // copy the target to another column before scaling it in-place
   start := time.Now()
   df = df.DetachedView(targetColumn)
-  df.Rename(targetColumn, "_target")
+  scaledColumn := "_target"
+  for floatsAndBools.Except(targetColumn).NameSet()[scaledColumn] {
+    scaledColumn += "_"
+  }
+  df.Rename(targetColumn, scaledColumn)
   opt := preprocessing.ScalerOptions{Centering: true, Scaling: true}
-  targetDF := df.ColumnView("_target")
+  targetDF := df.ColumnView(scaledColumn)
   reg.TargetScaler = preprocessing.NewScaler(opt)
   reg.TargetScaler.Fit(targetDF)
   reg.TargetScaler.TransformInplace(df)
@@ -105,7 +119,7 @@ func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
     for _, batch := range batches {
       batchSize := batch.NumRows()
       diffVec := mat.NewVecDense(batchSize, diff[:batchSize])
-      y := batch.Floats("_target").VecDense()
+      y := batch.Floats(scaledColumn).VecDense()
       rows := batching.DenseMatrix(batch)
       // diff = rows x weights - y  [dim: batch size]
       diffVec.MulVec(rows, weights)
-- 
2.43.0


From 44b30813a7e484041dc9f70db98b6c2492e7938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 36/48] fix: short names never equal another column's name, and
 names are printed literally

---
 dataframe/print.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dataframe/print.go b/dataframe/print.go
index e14dd9e..151e07e 100644
--- a/dataframe/print.go
+++ b/dataframe/print.go
@@ -150,9 +150,9 @@ func (df *DataFrame) PrintRecords(n int, floatFormat string, shorthands map[stri
       // print the column name
       fmt.Printf(" ")
       if shorthand, defined := shorthands[colName]; defined {
-        fmt.Printf(shorthand)
+        fmt.Print(shorthand)
       } else {
-        fmt.Printf(colName)
+        fmt.Print(colName)
       }
       fmt.Printf(":")
       // print the value
@@ -182,9 +182,13 @@ func (df *DataFrame) GoodShortNames(minLength int) map[string]string {
     minLength = 3
   }
   invResult := make(map[string]string)
-  for col := range df.Header().NameSet() {
+  columns := df.Header().NameSet()
+  for col := range columns {
     for length := minLength; length <= len(col); length++ {
       candidate := col[:length]
+      if candidate != col && columns[candidate] {
+        continue // it would be mistaken for the other column
+      }
       if _, existing := invResult[candidate]; !existing {
         invResult[candidate] = col
         break
-- 
2.43.0


From f785facdac9cb85217c406db699016cc33dbcc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 37/48] fix: Scaler does not blow up the rounding error of a
 constant column's mean

---
 preprocessing/scaler.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index 491a18a..8a111ff 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -68,14 +68,23 @@ func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
       // TODO: bessell correction?
       mean := 0.0
       n := 0
+      first := 0.0
+      constant := true
       for i := 0; i < access.Size(); i++ {
         val := access.Get(i)
         if !math.IsNaN(val) {
+          if n == 0 {
+            first = val
+          } else if val != first {
+            constant = false
+          }
           mean += val
           n++
         }
       }
-      if n > 0 {
+      if constant {
+        mean = first  // the average can differ by a rounding error
+      } else {
         mean /= float64(n)
       }
       if opt.Centering {
-- 
2.43.0


From 6c117213dad1bd88b35c9dc40caec0b118f85bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:01 +0000
Subject: [PATCH 38/48] fix: creating a column in a dataframe without columns
 gives it the dataframe's rows

---
 dataframe/dataframe.go | 2 ++
 dataframe/inplace.go   | 1 +
 dataframe/raw_data.go  | 5 ++++-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index 7a4be37..3226391 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -34,6 +34,7 @@ func EmptyDataFrame(nRows int, maxCPU int) *DataFrame {
   if nRows > 0 {
     result.mask = make([]bool, nRows)
     result.indices = utils.MakeRange(0, nRows, 1)
+    result.emptyRows = nRows
   }
   return result
 }
@@ -114,6 +115,7 @@ func (df *DataFrame) ShallowCopy() *DataFrame {
   result.mask = df.mask
   result.indexViewed = df.indexViewed
   result.textEncoding = df.textEncoding
+  result.emptyRows = df.NumAllocatedRows()
   result.TransferRawDataFrom(&df.RawData)
   result.debugPrint("ShallowCopy() returns")
 
diff --git a/dataframe/inplace.go b/dataframe/inplace.go
index e31433d..4186b93 100644
--- a/dataframe/inplace.go
+++ b/dataframe/inplace.go
@@ -217,6 +217,7 @@ func (df *DataFrame) cut(from int, to int) *DataFrame {
       df.reallocateMaps()
     }
     df.indices = df.indices[:to - from]  // same as range(0, to-from)
+    df.emptyRows = to - from
     for col, vals := range df.floats {
       df.floats[col] = vals[from:to]
       df.shared.add(col)
diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 0db4797..aa6d7ee 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -30,6 +30,8 @@ type RawData struct {
   // maximum number of CPUs utilized to perform operations
   // if MaxCPU <= 0 => MaxCPU = runtime.NumCPU()
   maxCPU int
+  // number of allocated rows when there are no columns to tell
+  emptyRows int
   // for debugging
   structureUID uint16
   dataUID uint64
@@ -98,7 +100,7 @@ func (data *RawData) NumAllocatedRows() int {
   for _, vals := range data.bools {
     return len(vals)
   }
-  return 0
+  return data.emptyRows
 }
 
 // ToDataFrame upgrades the RawData structure to a DataFrame.
@@ -139,6 +141,7 @@ func (data *RawData) ToDataFrame() *DataFrame {
   result.stringHeader = data.stringHeader
   result.mask = make([]bool, nRows)
   result.indices = utils.MakeRange(0, nRows, 1)
+  result.emptyRows = nRows
   result.dataUID = data.dataUID
   result.textEncoding = data.textEncoding
   result.resetStructureUID()
-- 
2.43.0


From 7b08e6c227c552d349625ea9ef1ba413b04ed3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:47 +0000
Subject: [PATCH 39/48] fix: Dense64Batching takes the types of the columns
 from the dataframe it is given

---
 dataframe/dense_gonum_batching.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataframe/dense_gonum_batching.go b/dataframe/dense_gonum_batching.go
index 4a40098..696fab5 100644
--- a/dataframe/dense_gonum_batching.go
+++ b/dataframe/dense_gonum_batching.go
@@ -31,6 +31,8 @@ func NewDense64Batching(columns []string) *Dense64Batching {
 // needed.
 func (bat *Dense64Batching) DenseMatrix(df *DataFrame) mat.Matrix {
   df.debugPrint("Dense64Batching.DenseMatrix")
+  // the columns can be of other types than those of the previous dataframe
+  bat.initialized = false
   bat.initialize(df, bat.columns) // yes, bat.columns will be initialized again
   // allocate more data if necessary
   dim := len(bat.columns)
-- 
2.43.0


From f2ff06d89c00405ce68bc44b21ef91b9c2f306d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:42 +0000
Subject: [PATCH 40/48] fix: allocating or overwriting a column replaces a
 column of another type

---
 dataframe/inplace.go  | 8 ++++----
 dataframe/raw_data.go | 4 ++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dataframe/inplace.go b/dataframe/inplace.go
index 4186b93..1d45462 100644
--- a/dataframe/inplace.go
+++ b/dataframe/inplace.go
@@ -167,8 +167,8 @@ func (df *DataFrame) OverwriteBools(colName string, values []bool) {
 func (df *DataFrame) OverwriteObjects(colName string, values []interface{},
                                       objectType ObjectType) {
   df.debugPrint("overwriting objects on")
-  col := df.objects[colName]
-  if len(col) == 0 {
+  col, exists := df.objects[colName]
+  if !exists {
     if objectType == 1 {
       df.AllocStrings(colName)
     } else {
@@ -194,8 +194,8 @@ func (df *DataFrame) OverwriteObjects(colName string, values []interface{},
 // instead.
 func (df *DataFrame) OverwriteStrings(colName string, values []string) {
   df.debugPrint("overwriting strings on")
-  col := df.objects[colName]
-  if len(col) == 0 {
+  col, exists := df.objects[colName]
+  if !exists {
     df.AllocStrings(colName)
     col = df.objects[colName]
   }
diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index aa6d7ee..0cbbc57 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -292,6 +292,7 @@ func (data *RawData) AllocInts(columns ...string) {
     data.reallocateMaps()
   }
   nRows := data.NumAllocatedRows()
+  data.Drop(columns...)  // they can be of another type
   for _, col := range columns {
     data.ints[col] = make([]int, nRows)
   }
@@ -303,6 +304,7 @@ func (data *RawData) AllocFloats(columns ...string) {
     data.reallocateMaps()
   }
   nRows := data.NumAllocatedRows()
+  data.Drop(columns...)  // they can be of another type
   for _, col := range columns {
     data.floats[col] = make([]float64, nRows)
   }
@@ -314,6 +316,7 @@ func (data *RawData) AllocBools(columns ...string) {
     data.reallocateMaps()
   }
   nRows := data.NumAllocatedRows()
+  data.Drop(columns...)  // they can be of another type
   for _, col := range columns {
     data.bools[col] = make([]bool, nRows)
   }
@@ -325,6 +328,7 @@ func (data *RawData) AllocObjects(columns ...string) {
     data.reallocateMaps()
   }
   nRows := data.NumAllocatedRows()
+  data.Drop(columns...)  // they can be of another type
   for _, col := range columns {
     data.objects[col] = make([]interface{}, nRows)
   }
-- 
2.43.0


From bb0712e1bb903a20f09892af5519fcad2a8d3547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:44 +0000
Subject: [PATCH 41/48] fix: IntToFloats and BoolToFloats leave columns of
 other types alone

---
 dataframe/raw_data.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 0cbbc57..a6b55b2 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -453,7 +453,10 @@ func (data *RawData) IntToFloats(columns...string) {
     data.reallocateMaps()
   }
   for _, col := range columns {
-    olddata := data.ints[col]
+    olddata, ok := data.ints[col]
+    if !ok {
+      continue
+    }
     newdata := make([]float64, len(olddata))
     for i, v := range olddata {
       newdata[i] = float64(v)
@@ -472,7 +475,10 @@ func (data *RawData) BoolToFloats(columns...string) {
     data.reallocateMaps()
   }
   for _, col := range columns {
-    olddata := data.bools[col]
+    olddata, ok := data.bools[col]
+    if !ok {
+      continue
+    }
     newdata := make([]float64, len(olddata))
     for i, v := range olddata {
       if v {
-- 
2.43.0


From 72f84a2e946429bcca3950374e17538f03360d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:37 +0000
Subject: [PATCH 42/48] fix: ToDataFrame knows which of its columns other data
 shares

---
 dataframe/raw_data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index a6b55b2..88eb08d 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -139,6 +139,8 @@ func (data *RawData) ToDataFrame() *DataFrame {
   result.ints = data.ints
   result.maxCPU = data.maxCPU
   result.stringHeader = data.stringHeader
+  result.shared = data.shared.Copy()
+  result.sharedMaps = data.sharedMaps
   result.mask = make([]bool, nRows)
   result.indices = utils.MakeRange(0, nRows, 1)
   result.emptyRows = nRows
-- 
2.43.0


From e2e1ea9e7dda657572d577a7f81a166b3ed645fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:37 +0000
Subject: [PATCH 43/48] fix: a GroupIndexer can be initialised again

---
 utils/group_indexer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/group_indexer.go b/utils/group_indexer.go
index f7e922d..7e32471 100644
--- a/utils/group_indexer.go
+++ b/utils/group_indexer.go
@@ -23,9 +23,8 @@ func (indexer *GroupIndexer) Initialize(nElements int, nGroups int) {
   if nGroups > nElements {
     nGroups = nElements
   }
-  indexer.end = nElements
+  *indexer = GroupIndexer{end: nElements}  // it can be used already
   if nElements == 0 {
-    indexer.NGroups = 0
     return
   }
   indexer.groupSize = nElements / nGroups
-- 
2.43.0


From ae8095e36c449d6bcce85b653652c6c5bb6f3e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:38 +0000
Subject: [PATCH 44/48] fix: TransferRawDataFrom replaces columns of the same
 name but of another type

---
 dataframe/raw_data.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 88eb08d..24058bd 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -360,6 +360,24 @@ func (data *RawData) TransferRawDataFrom(from *RawData) {
     data.dataUID = from.dataUID
   } else {
     data.dataUID |= from.dataUID
+    // columns of the same name are replaced, also those of another type
+    for col := range from.Header().NameSet() {
+      if _, ok := from.bools[col]; !ok {
+        delete(data.bools, col)
+      }
+      if _, ok := from.ints[col]; !ok {
+        delete(data.ints, col)
+      }
+      if _, ok := from.floats[col]; !ok {
+        delete(data.floats, col)
+      }
+      if _, ok := from.objects[col]; !ok {
+        delete(data.objects, col)
+      }
+      if !from.stringHeader.contains(col) {
+        data.stringHeader.remove(col)
+      }
+    }
   }
   for col, vals := range from.bools {
     data.bools[col] = vals
-- 
2.43.0


From 92a19b3f60619f09066f32447dca227853e97786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:39 +0000
Subject: [PATCH 45/48] fix: SliceView refuses rows that the view does not have

---
 dataframe/view.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/view.go b/dataframe/view.go
index b76cb71..8b69587 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -51,6 +51,9 @@ func (df *DataFrame) SliceView(from int, to int) *DataFrame {
   if to < 0 {
     to += len(df.indices) + 1
   }
+  if from > len(df.indices) || to > len(df.indices) {
+    panic(fmt.Sprintf("slice [%d:%d] is out of range with %d rows", from, to, len(df.indices)))
+  }
   if from > to {
     return df.View().cut(to, from).ReverseView()
   }
-- 
2.43.0


From 2cd87f765118f30a48244e63e96d4da16d4ff0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 46/48] fix: TopView refuses columns it can't sort by, also
 when every row is asked for

---
 dataframe/view.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/view.go b/dataframe/view.go
index 8b69587..5aaa7b2 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -294,6 +294,9 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
 func (df *DataFrame) TopView(byColumn string, n int, ascending bool, sorted bool) *DataFrame {
   if n >= len(df.indices) {
     if !sorted {
+      if !df.FloatHeader().And(df.IntHeader(), df.BoolHeader()).contains(byColumn) {
+        panic(fmt.Sprintf("column %s is not a float/int/bool column", byColumn))
+      }
       return df.View()
     } else {
       n = len(df.indices)
-- 
2.43.0


From 321dd02fc5f1576a0f0b8df4597b76f35c5dd125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:52 +0000
Subject: [PATCH 47/48] fix: AssertFloatEquals does not take NaN for any number

---
 utils/asserts.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/asserts.go b/utils/asserts.go
index 1bd4239..5d17c9f 100644
--- a/utils/asserts.go
+++ b/utils/asserts.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+  "math"
   "testing"
   "reflect"
 )
@@ -38,7 +39,7 @@ func AssertIntNotEquals(name string, actual int, notExpected int, t *testing.T)
 }
 
 func AssertFloatEquals(name string, actual float64, expected float64, t *testing.T) bool {
-  if actual < expected-0.01 || actual > expected+0.01 {
+  if math.IsNaN(actual) != math.IsNaN(expected) || actual < expected-0.01 || actual > expected+0.01 {
     t.Errorf("%s = %.4f; expected: %.4f", name, actual, expected)
     return false
   }
-- 
2.43.0


From 5dff77b535207def569244249d3d01020ea72ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:53 +0000
Subject: [PATCH 48/48] fix: AssertFloatSliceEquals returns whether it failed
 the test

---
 utils/asserts.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/utils/asserts.go b/utils/asserts.go
index 5d17c9f..f7e2af5 100644
--- a/utils/asserts.go
+++ b/utils/asserts.go
@@ -102,17 +102,15 @@ func AssertIntSliceNotEquals(name string, actual []int, notExpected []int, t *te
 }
 
 func AssertFloatSliceEquals(name string, actual []float64, expected []float64, t *testing.T) bool {
-  if !reflect.DeepEqual(actual, expected) {
-    if len(actual) != len(expected) {
-      t.Errorf("%s = %v; expected: %v", name, actual, expected)
-    } else {
-        for i, v := range actual {
-          AssertFloatEquals(name, v, expected[i], t)
-        }
-    }
+  if len(actual) != len(expected) {
+    t.Errorf("%s = %v; expected: %v", name, actual, expected)
     return false
   }
-  return true
+  equal := true
+  for i, v := range actual {
+    equal = AssertFloatEquals(name, v, expected[i], t) && equal
+  }
+  return equal
 }
 
 func AssertBoolSliceEquals(name string, actual []bool, expected []bool, t *testing.T) bool {
-- 
2.43.0

