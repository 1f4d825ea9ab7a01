From 462c7f72d2495c6b67c3ad5d46875ca22fd66898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:30 +0000
Subject: [PATCH 01/99] fix: creating a typed tensor of rank 0 must not compute
 strides past its shape

---
 src/Runtime/OMTensor.inc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Runtime/OMTensor.inc b/src/Runtime/OMTensor.inc
index 04bf16c..1d152b8 100644
--- a/src/Runtime/OMTensor.inc
+++ b/src/Runtime/OMTensor.inc
@@ -749,6 +749,9 @@ static inline std::vector<std::vector<int64_t>> CartProduct(
 /* Helper function to compute data strides from a size array */
 static inline std::vector<int64_t> computeStridesFromShape(
     const int64_t *dataSizes, int rank) {
+  // A scalar has no dimensions and therefore no strides.
+  if (rank == 0)
+    return {};
   std::vector<int64_t> sizesVec(dataSizes + 1, dataSizes + rank);
   sizesVec.push_back(1);
   std::vector<int64_t> dimStrides(rank);
-- 
2.43.0


From 37a010c7ffb66e30a447cef964d93fe52c4dacb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:54 +0000
Subject: [PATCH 02/99] fix: TopK must keep the lower index when equal values
 compete for the last place

---
 src/Runtime/OMTopK.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/Runtime/OMTopK.c b/src/Runtime/OMTopK.c
index 71dc4b1..5ff7cfa 100644
--- a/src/Runtime/OMTopK.c
+++ b/src/Runtime/OMTopK.c
@@ -53,24 +53,24 @@ static void heap_sift_down(uint64_t *heap, int64_t start, int64_t end,
     int64_t child = root * 2 + 1;
     int64_t swap_idx = root;
 
-    // Check if root is "worse" than left child
+    // Check if left child is "worse" than root
     int comparison = 0;
 #if defined(__APPLE__) || defined(_MSC_VER)
-    comparison = compare(data, &heap[swap_idx], &heap[child]);
+    comparison = compare(data, &heap[child], &heap[swap_idx]);
 #else
-    comparison = compare(&heap[swap_idx], &heap[child], data);
+    comparison = compare(&heap[child], &heap[swap_idx], data);
 #endif
     if (comparison > 0) {
       swap_idx = child;
     }
 
-    // Check if right child exists and is "better" than current swap_idx
+    // Check if right child exists and is "worse" than current swap_idx
     if (child + 1 <= end) {
       comparison = 0;
 #if defined(__APPLE__) || defined(_MSC_VER)
-      comparison = compare(data, &heap[swap_idx], &heap[child + 1]);
+      comparison = compare(data, &heap[child + 1], &heap[swap_idx]);
 #else
-      comparison = compare(&heap[swap_idx], &heap[child + 1], data);
+      comparison = compare(&heap[child + 1], &heap[swap_idx], data);
 #endif
       if (comparison > 0) {
         swap_idx = child + 1;
@@ -148,9 +148,10 @@ void omTensorTopK(OMTensor *orderTensor, const OMTensor *inputTensor,
   // 1. Get the heap comparator.
   // To get Top-K "Largest" (ascending=0), we build a MIN-heap.
   // To get Top-K "Smallest" (ascending=1), we build a MAX-heap.
-  // This uses the opposite ascending direction.
-  compareFunctionType *heapCompare =
-      getCompareFunction(1 - ascending, dataType);
+  // The heap keeps the element that comes last in the result order at its
+  // root. It reverses the arguments of the comparator rather than its
+  // direction, so that ties by index are reversed as well.
+  compareFunctionType *heapCompare = getCompareFunction(ascending, dataType);
   if (!heapCompare)
     return; // Unsupported data type
 
-- 
2.43.0


From c8734fb123c91b7155113ecdc274794189312b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:54 +0000
Subject: [PATCH 03/99] fix: Unique along an axis must not need the optional
 indices output to produce Y

---
 src/Runtime/OMUnique.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index a33221b..b71c8ac 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -265,8 +265,8 @@ static int sliceTableRegister(sliceTable *table, void *slice, uint64_t off) {
 // If the axis attr is not given, sliceTableRegister generates the output Y
 //  directly, since the output is a simple array of unique elements.
 //
-static void produceY(const OMTensor *inputTensor, OMTensor *indices,
-    int64_t sliceAxis, OMTensor *Y) {
+static void produceY(const OMTensor *inputTensor, const int64_t *indicesPtr,
+    int64_t count, int64_t sliceAxis, OMTensor *Y) {
   const int64_t inputRank = omTensorGetRank(inputTensor);
   assert(inputRank <= 6); // Error: "input rank should be 6 or less".
   assert(sliceAxis <
@@ -274,11 +274,6 @@ static void produceY(const OMTensor *inputTensor, OMTensor *indices,
   const int64_t *inputShape = omTensorGetShape(inputTensor);
   const int64_t *inputStrides = omTensorGetStrides(inputTensor);
   void *inputPtr = omTensorGetDataPtr(inputTensor);
-  const int64_t indicesRank = omTensorGetRank(indices);
-  assert(indicesRank == 1); // Error: "indices rank should be 1".
-  const int64_t *indicesShape = omTensorGetShape(indices);
-  const int64_t count = indicesShape[0];
-  int64_t *indicesPtr = (int64_t *)omTensorGetDataPtr(indices);
   void *YPtr = omTensorGetDataPtr(Y);
 
   const OM_DATA_TYPE dataType = omTensorGetDataType(inputTensor);
@@ -406,7 +401,7 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
       }
     }
     if ((count > 0) && (Y != NULL)) {
-      produceY(inputTensor, indices, sliceAxis, Y);
+      produceY(inputTensor, (const int64_t *)indicesPtr, count, sliceAxis, Y);
     }
   }
   *totalPtr = count;
-- 
2.43.0


From 486ed5f77a7e75f76a1f375c38aefbd890535773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:54 +0000
Subject: [PATCH 04/99] fix: Unique must sort slices by their row-major order

---
 src/Runtime/OMUnique.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index b71c8ac..4110e8c 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -164,16 +164,17 @@ static void getSliceData(const OMTensor *inputTensor, int64_t sliceAxis,
     shapeInUniqueAxis[i] = (i == sliceAxis) ? 1 : inputShape[i];
     strides[i] = inputStrides[i];
   }
-  // Gather all data in the slice
+  // Gather all data in the slice, in row-major order: slices are compared
+  // lexicographically in that order.
   uint64_t dim[6];
   int64_t outputIdx = 0;
 
-  for (dim[5] = 0; dim[5] < shapeInUniqueAxis[5]; dim[5]++) {
-    for (dim[4] = 0; dim[4] < shapeInUniqueAxis[4]; dim[4]++) {
-      for (dim[3] = 0; dim[3] < shapeInUniqueAxis[3]; dim[3]++) {
-        for (dim[2] = 0; dim[2] < shapeInUniqueAxis[2]; dim[2]++) {
-          for (dim[1] = 0; dim[1] < shapeInUniqueAxis[1]; dim[1]++) {
-            for (dim[0] = 0; dim[0] < shapeInUniqueAxis[0]; dim[0]++) {
+  for (dim[0] = 0; dim[0] < shapeInUniqueAxis[0]; dim[0]++) {
+    for (dim[1] = 0; dim[1] < shapeInUniqueAxis[1]; dim[1]++) {
+      for (dim[2] = 0; dim[2] < shapeInUniqueAxis[2]; dim[2]++) {
+        for (dim[3] = 0; dim[3] < shapeInUniqueAxis[3]; dim[3]++) {
+          for (dim[4] = 0; dim[4] < shapeInUniqueAxis[4]; dim[4]++) {
+            for (dim[5] = 0; dim[5] < shapeInUniqueAxis[5]; dim[5]++) {
               uint64_t tdim[6] = {
                   dim[0], dim[1], dim[2], dim[3], dim[4], dim[5]};
               tdim[sliceAxis] = idxInSliceAxis;
-- 
2.43.0


From d08bf3ee3bd98808c7f67c090259aef3efc441aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:00 +0000
Subject: [PATCH 05/99] fix: Unique must treat the two floating-point zeros as
 equal

---
 src/Runtime/OMUnique.c | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index 4110e8c..aa6a59a 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -119,6 +119,22 @@ static int isLessNum(void *arg1, void *arg2, OM_DATA_TYPE dataType) {
   return 0;
 }
 
+// Check if the two arguments are equal. Floating-point numbers that differ only
+// in the sign of a zero are equal; a NaN is equal to the same NaN only.
+static int isEqualNum(
+    void *arg1, void *arg2, uint64_t dataSize, OM_DATA_TYPE dataType) {
+  if (!memcmp(arg1, arg2, dataSize))
+    return 1;
+  switch (dataType) {
+  case ONNX_TYPE_FLOAT:
+    return *((float *)arg1) == *((float *)arg2);
+  case ONNX_TYPE_DOUBLE:
+    return *((double *)arg1) == *((double *)arg2);
+  default:
+    return 0;
+  }
+}
+
 // Check if
 static int isLessSlice(
     void *elem1, void *elem2, uint64_t elemSize, OM_DATA_TYPE dataType) {
@@ -128,12 +144,27 @@ static int isLessSlice(
   for (int i = 0; i < elemNum; i++) {
     void *num1 = ((char *)elem1) + (dataSize * i);
     void *num2 = ((char *)elem2) + (dataSize * i);
-    if (memcmp(num1, num2, dataSize)) // if num1 != num2
+    if (!isEqualNum(num1, num2, dataSize, dataType)) // if num1 != num2
       return isLessNum(num1, num2, dataType);
   }
   return 0;
 }
 
+// Check if the two slices hold equal elements
+static int isEqualSlice(
+    void *elem1, void *elem2, uint64_t elemSize, OM_DATA_TYPE dataType) {
+  uint64_t dataSize = getDataTypeSize(dataType);
+  assert(dataSize > 0); // Test for unsupported types.
+  int64_t elemNum = elemSize / dataSize;
+  for (int64_t i = 0; i < elemNum; i++) {
+    void *num1 = ((char *)elem1) + (dataSize * i);
+    void *num2 = ((char *)elem2) + (dataSize * i);
+    if (!isEqualNum(num1, num2, dataSize, dataType))
+      return 0;
+  }
+  return 1;
+}
+
 //
 // If the axis attr is given in onnx.Unique, it should compare slices
 // according to the specified axis. "getSliceData" is called to get a slice
@@ -218,7 +249,7 @@ static int sliceTableRegister(sliceTable *table, void *slice, uint64_t off) {
   int found = 0;
   for (insertIdx = 0; insertIdx < table->numberOfSlices; insertIdx++) {
     void *sliceInTable = (void *)(sliceDataPtr + sliceSizeInBytes * insertIdx);
-    if (!memcmp(sliceInTable, slice, sliceSizeInBytes)) {
+    if (isEqualSlice(sliceInTable, slice, sliceSizeInBytes, table->dataType)) {
       found = 1;
       if (table->countsPtr != NULL)
         ((table->countsPtr)[insertIdx])++;
-- 
2.43.0


From 52ca3abace2782665c44d3ac17611b33f02e7fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:23 +0000
Subject: [PATCH 06/99] fix: the runtime category lookup must not truncate
 20-character integer keys

---
 src/Runtime/OMIndexLookup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMIndexLookup.c b/src/Runtime/OMIndexLookup.c
index 4c27f0b..9e8af84 100644
--- a/src/Runtime/OMIndexLookup.c
+++ b/src/Runtime/OMIndexLookup.c
@@ -33,7 +33,7 @@ static inline uint32_t hash_string(uint32_t hval, const char *str) {
 
 // Adaptation of 32-bit FNV for int64_t values.
 static inline uint32_t hash_int64(uint32_t hval, int64_t val) {
-  char str[20];
+  char str[21]; // "-9223372036854775808" and the terminating null.
   int num_chars_written = snprintf(str, sizeof(str), "%lld", (long long)val);
   assert(num_chars_written >= 0); // Error: "snprintf write error to str".
   return hash_string(hval, str);
-- 
2.43.0


From 81bcea1e5417a12eca1fd6caf143afb575d714dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 07/99] fix: instrumentation must report an operation's end
 only when it was recorded

---
 src/Runtime/OMInstrument.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index d5ccb2f..adc2b89 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -250,7 +250,7 @@ static void flushRecordBuffer() {
     bool isBefore = IS_INSTRUMENT_BEFORE_OP(tag);
     if (isBefore)
       PrintTime(&timeRecordBuffer[i].beforeTime, /*before*/ true);
-    bool isAfter = IS_INSTRUMENT_BEFORE_OP(tag);
+    bool isAfter = IS_INSTRUMENT_AFTER_OP(tag);
     if (isAfter)
       PrintTime(&timeRecordBuffer[i].afterTime, /*before*/ false);
   }
-- 
2.43.0


From 25ac1644f306997c1b503f5b8ad43abe7b000f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 08/99] fix: instrumentation must not overwrite the times of an
 operation executed again

---
 src/Runtime/OMInstrument.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index adc2b89..3d70779 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -262,8 +262,11 @@ static void updateRecordBuffer(
     const char *opName, uint64_t tag, const char *nodeName) {
   int64_t i = bufferIndex - 1;
   if (i >= 0 && timeRecordBuffer[i].opName == opName &&
-      timeRecordBuffer[i].nodeName == nodeName) {
-    // Can reuse entry, or the tags so we have bits for both.
+      timeRecordBuffer[i].nodeName == nodeName &&
+      !IS_INSTRUMENT_BEFORE_OP(tag) &&
+      !IS_INSTRUMENT_AFTER_OP(timeRecordBuffer[i].tag)) {
+    // Can reuse entry of the matching before, or the tags so we have bits for
+    // both. The same operation executed again needs an entry of its own.
     timeRecordBuffer[i].tag = timeRecordBuffer[i].tag | tag;
   } else {
     // Need a new entry; flush if full, then initialize entry.
-- 
2.43.0


From 8a80faba4e0a7715c82b0ad240d62c7c57ad4482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 09/99] fix: printing the instrumentation must flush and close
 the report file

---
 src/Runtime/OMInstrument.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index 3d70779..b6e2009 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -356,6 +356,12 @@ static void startInstrumentation() {
 /// So essentially this call make sure that all of the timeing info is printed.
 void omInstrumentPrint() {
   flushRecordBuffer();
+  // Memory reports may still be buffered, and a report file is reopened by the
+  // next initialization.
+  if (instrumentFout && instrumentFout != stdout)
+    fclose(instrumentFout);
+  else if (instrumentFout)
+    fflush(instrumentFout);
   resetLocalState();
 }
 
-- 
2.43.0


From da28d2eddc6a5d8f8a2bcaa3f59648edf6ff6778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 10/99] fix: unloading external constants must not leave their
 address behind

---
 src/Runtime/OMExternalConstant.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index 02cfbce..a4edd12 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -189,6 +189,8 @@ bool omUnloadConstantData(void **constAddr, int64_t size) {
 #else
   munmap(ptr, size);
 #endif
+  // The buffer is gone: a later load must load it again.
+  constAddr[0] = NULL;
   return true;
 }
 
-- 
2.43.0


From a9c7e55c525ea6c69c806c7d7e3f32ba43051183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 11/99] fix: a failed read of external constants must leave
 them unloaded

---
 src/Runtime/OMExternalConstant.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index a4edd12..c1eeb19 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -230,6 +230,7 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
         fprintf(stderr, "Error reading constants at offset %lld: %s\n",
             (long long)(offset + totalRead), strerror(errno));
         free(constAddr[0]);
+        constAddr[0] = NULL;
         return 1;
       }
 
@@ -237,6 +238,7 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
         fprintf(stderr, "Unexpected EOF reading constants at offset %lld\n",
             (long long)(offset + totalRead));
         free(constAddr[0]);
+        constAddr[0] = NULL;
         return 1;
       }
 
-- 
2.43.0


From cae8a6c82ae50522f659137146dc676273e0f7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 12/99] fix: loading external constants must reject a truncated
 file

---
 src/Runtime/OMExternalConstant.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index c1eeb19..e5d9567 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -263,6 +263,18 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
 /// This function is thread-safe.
 ///
 static int mmapAndReadFile(void **constAddr, int fd, int64_t fileSize) {
+  // Mapping beyond the end of the file succeeds, but accesses there do not.
+  struct stat fileStat;
+  if (fstat(fd, &fileStat) != 0) {
+    fprintf(stderr, "Error while getting the file size: %s\n", strerror(errno));
+    return 1;
+  }
+  if (fileStat.st_size < fileSize) {
+    fprintf(stderr, "Constant file has %lld bytes instead of %lld\n",
+        (long long)fileStat.st_size, (long long)fileSize);
+    return 1;
+  }
+
 #ifdef __MVS__
   void *tempAddr = mmap(0, fileSize, PROT_READ, __MAP_MEGA, fd, 0);
 #else
-- 
2.43.0


From 37256d8a0dde65dc028a61b1700c9df66809d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:17 +0000
Subject: [PATCH 13/99] fix: the double-precision normal generator must honour
 its seed

---
 src/Runtime/OMRandomNormal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Runtime/OMRandomNormal.c b/src/Runtime/OMRandomNormal.c
index 4243bcd..95441c1 100644
--- a/src/Runtime/OMRandomNormal.c
+++ b/src/Runtime/OMRandomNormal.c
@@ -28,6 +28,7 @@ double normalRandom() {
 
 void get_random_normal_value_f64(
     double *result, long long size, double mean, double scale, double seed) {
+  srand(seed);
   for (long long index = 0; index < size; ++index)
     result[index] = normalRandom() * scale + mean;
 }
-- 
2.43.0


From dc4603eb41c8be8c85b7bc317e77be0d58433b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:59 +0000
Subject: [PATCH 14/99] fix: doc_check rejects a marker with an empty
 configuration

An empty configuration matched as an empty string, was taken for no match,
and the block it marks was silently left unchecked.
---
 docs/doc_check/directive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/doc_check/directive.py b/docs/doc_check/directive.py
index 499785f..3ed7efe 100644
--- a/docs/doc_check/directive.py
+++ b/docs/doc_check/directive.py
@@ -60,7 +60,7 @@ class Directive(object):
             raise ValueError("more than one directives in a line")
 
         match = matches[0] if len(matches) else None
-        if match:
+        if match is not None:
             for parser in self.config_parsers:
                 if succeeded(parser(match, directive_config)):
                     return success()
-- 
2.43.0


From edc12f09db1e9e61dbb69503eba5a3735c48e991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:59 +0000
Subject: [PATCH 15/99] fix: doc_check excludes only the named directories

Any path starting with the name of an excluded directory was skipped, so that
documents in a directory such as docs/ab were not checked when docs/a is
excluded.
---
 docs/doc_check/check.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/docs/doc_check/check.py b/docs/doc_check/check.py
index b56ea4d..e1849f7 100644
--- a/docs/doc_check/check.py
+++ b/docs/doc_check/check.py
@@ -45,7 +45,10 @@ def main(root_dir, exclude_dirs):
     for doc_file in chain(Path(root_dir).rglob("*.md"), Path(root_dir).rglob("*.dc")):
         doc_file = os.path.normpath(doc_file)
         # Skip, if doc file is in directories to be excluded.
-        if any([str(doc_file).startswith(exclude_dir) for exclude_dir in exclude_dirs]):
+        if any(
+            doc_file == exclude_dir or doc_file.startswith(exclude_dir + os.sep)
+            for exclude_dir in exclude_dirs
+        ):
             continue
 
         logger.info("Checking {}...".format(doc_file))
-- 
2.43.0


From 9f7dc03ce21955747170d1d8c68f9b61f43a8055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:59 +0000
Subject: [PATCH 16/99] fix: doc_check rejects trailing blank lines missing
 from the reference

The search for the end of the code section skipped blank lines, so a section
with blank lines after the reference content was accepted as the same.
---
 docs/doc_check/directive_impl/same_as_file.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/docs/doc_check/directive_impl/same_as_file.py b/docs/doc_check/directive_impl/same_as_file.py
index 7f86b1d..36f01d2 100644
--- a/docs/doc_check/directive_impl/same_as_file.py
+++ b/docs/doc_check/directive_impl/same_as_file.py
@@ -55,7 +55,12 @@ def handle(config, ctx):
                     + ref_line_info
                 )
 
-    parse_code_section_delimiter(ctx)
+    # The code section must end right here: remaining lines, blank ones included,
+    # are not in the reference file.
+    if not doc_file.readline().strip().startswith("```"):
+        raise ValueError(
+            "Check failed because doc file is longer than reference file."
+        )
 
 
 ext_to_patterns = {".md": "\\[same-as-file\\]: <> \\(([^)]*)\\)"}
-- 
2.43.0


From 4d7b4058dad312054cb6cce969f57b48f6b8ad5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 17/99] fix: the session cache must evict the least recently
 used entry

victim() popped the end of the access order, which is the most recently used
entry.
---
 .../python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
index 054d73e..6c12813 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
@@ -161,7 +161,7 @@ class SessionCache:
     # If the cache is full, delete the oldest key and return its index.
     def victim(self):
         if len(self.cache) >= self.capacity:
-            oldest_key = self.access_order.pop()
+            oldest_key = self.access_order.pop(0)
             cache_value = self.cache[oldest_key]
             del self.cache[oldest_key]
             return cache_value.tag
-- 
2.43.0


From 5aa07e4074a55088a4196074581341efe680351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 18/99] fix: replacing a session cache entry must not list its
 key twice

put() of a key already held appended it to the access order a second time, so
that after its eviction the order named an entry the cache no longer holds and
the next eviction failed with a KeyError.
---
 .../python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
index 6c12813..d7e9cf9 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
@@ -73,6 +73,8 @@ class SessionCache:
 
     # The put is assumed to be called after victim()
     def put(self, key, value: CacheValue, write_to_disk=True):
+        if key in self.cache:
+            self.access_order.remove(key)
         self.cache[key] = value
         self.access_order.append(key)
         if len(self.cache) != len(self.access_order):
-- 
2.43.0


From d064923b2d9dc805f145cdc030f0e0c41760ae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 19/99] fix: an entry recovered from disk must not exceed the
 cache capacity

put() expects victim() to be called before it; get() did not, so every entry
recovered from disk grew the cache without bound.
---
 .../python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
index d7e9cf9..50751ba 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
@@ -68,6 +68,8 @@ class SessionCache:
         # Get from the cache dir.
         cache_value = self.load_from_disk(key)
         if cache_value:
+            # Make room as put() expects.
+            self.victim()
             self.put(key, cache_value, False)
         return cache_value
 
-- 
2.43.0


From 0233087298ca8e30c64172a04da460fd7ae372fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 20/99] fix: storing a session recovered from the cache folder
 must not fail

Copying its files onto themselves raised SameFileError.
---
 .../python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
index 50751ba..2b2e738 100644
--- a/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
+++ b/src/Runtime/python/torch_onnxmlir/src/torch_onnxmlir/sessioncache.py
@@ -141,6 +141,9 @@ class SessionCache:
                 continue
             src_file = os.path.join(src_dir, filename)
             dst_file = os.path.join(dst_dir, filename)
+            # An entry recovered from disk already lives in the cache folder.
+            if os.path.exists(dst_file) and os.path.samefile(src_file, dst_file):
+                continue
             if os.path.isfile(src_file):
                 shutil.copy2(src_file, dst_file)
         # Create a config json file.
-- 
2.43.0


From 6d09e1180b6aaf6d13561d92b756c0ddd585d812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 21/99] fix: ALL and NONE in an option list are entries, not
 substrings

Selecting a name that contains ALL (or NONE), such as the node /model/CALL_0,
enabled (or disabled) every name.
---
 src/Compiler/OptionUtils.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Compiler/OptionUtils.cpp b/src/Compiler/OptionUtils.cpp
index 19d1405..d19a0c0 100644
--- a/src/Compiler/OptionUtils.cpp
+++ b/src/Compiler/OptionUtils.cpp
@@ -43,10 +43,15 @@ void EnableByRegexOption::setRegexString(std::string regexString) {
     else
       allEnabled = true;
   } else {
-    if (regexString.find("NONE") != std::string::npos)
-      allDisabled = true;
-    if (regexString.find("ALL") != std::string::npos)
-      allEnabled = true;
+    // NONE and ALL must be entries of the list, not merely parts of a name.
+    std::stringstream entries(
+        std::regex_replace(regexString, std::regex(","), " "));
+    for (std::string entry; entries >> entry;) {
+      if (entry == "NONE")
+        allDisabled = true;
+      if (entry == "ALL")
+        allEnabled = true;
+    }
   }
   assert(!(allDisabled && allEnabled) && "cannot have both ALL and NONE");
   if (allDisabled || allEnabled)
-- 
2.43.0


From 923432b67f44a82f65adbed2cde4b0834ffe17f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:11 +0000
Subject: [PATCH 22/99] fix: reject an optimization level that is no number

atoi() turned any text into level 0 and ignored what follows a number, so that
an invalid value was accepted and silently changed the level.
---
 src/Compiler/CompilerOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/CompilerOptions.cpp b/src/Compiler/CompilerOptions.cpp
index 7a8d315..d7aace5 100644
--- a/src/Compiler/CompilerOptions.cpp
+++ b/src/Compiler/CompilerOptions.cpp
@@ -1295,8 +1295,8 @@ int setCompilerOption(const OptionKind kind, const std::string &val) {
       return InvalidCompilerOption;
     break;
   case OptionKind::CompilerOptLevel: {
-    int level = atoi(val.c_str());
-    if (level < 0 || level > 3)
+    int level;
+    if (llvm::StringRef(val).getAsInteger(10, level) || level < 0 || level > 3)
       return InvalidCompilerOption;
     setOptLevel((OptLevel)level);
   } break;
-- 
2.43.0


From 04f795d4f524d790327414be3cfe8db169a22bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:11 +0000
Subject: [PATCH 23/99] fix: --customEnvFlags with a separate argument must not
 crash

The name was taken with substr() past the end of the argument, which throws.
---
 src/Compiler/CompilerOptions.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Compiler/CompilerOptions.cpp b/src/Compiler/CompilerOptions.cpp
index d7aace5..32dff87 100644
--- a/src/Compiler/CompilerOptions.cpp
+++ b/src/Compiler/CompilerOptions.cpp
@@ -983,10 +983,15 @@ bool parseCustomEnvFlagsCommandLineOption(
   // Customized version? -customEnvFlags=val and save its value.
   for (int i = 1; i < argc; ++i) {
     std::string arg(argv[i]);
-    if (arg.find("--customEnvFlags") == 0) {
-      envVar = arg.substr(sizeof("--customEnvFlags"));
-    } else if (arg.find("-customEnvFlags") == 0) {
-      envVar = arg.substr(sizeof("-customEnvFlags"));
+    if (arg == "--customEnvFlags" || arg == "-customEnvFlags") {
+      // The name is the next argument; a missing one is reported when the
+      // options are parsed.
+      if (i + 1 < argc)
+        envVar = argv[++i];
+    } else if (arg.find("--customEnvFlags=") == 0) {
+      envVar = arg.substr(strlen("--customEnvFlags="));
+    } else if (arg.find("-customEnvFlags=") == 0) {
+      envVar = arg.substr(strlen("-customEnvFlags="));
     } else if (arg.compare("-v") == 0) {
       verbose = true;
     }
-- 
2.43.0


From 867d6e6208c632bff6399d78f1ab37180df73bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:39 +0000
Subject: [PATCH 24/99] fix: a command that cannot be started must not flush
 the caller's output again

---
 src/Compiler/Command.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Compiler/Command.cpp b/src/Compiler/Command.cpp
index 88b5155..1ccfe5d 100644
--- a/src/Compiler/Command.cpp
+++ b/src/Compiler/Command.cpp
@@ -246,14 +246,16 @@ int Command::exec(const std::string &wdir) {
     // This is most likely due to the fact that either the onnx-mlir library was
     // not installed a the default place, or that the PATH environment variable
     // does not include a path to the desired onnx-mlir bin directory.
+    // Do not flush again what the parent has buffered, nor run its handlers.
+    fflush(stderr);
     switch (err) {
     case ENOENT:
       // Install and/or set PATH environemnt variable.
-      exit(onnx_mlir::CommandNotFound);
+      _exit(onnx_mlir::CommandNotFound);
     case EACCES:
-      exit(onnx_mlir::CommandNotExecutable);
+      _exit(onnx_mlir::CommandNotExecutable);
     default:
-      exit(onnx_mlir::CommandExecutionFailed);
+      _exit(onnx_mlir::CommandExecutionFailed);
     }
   }
 
-- 
2.43.0


From a5b66211fc0971e86a3e8aeddd32f8b21ad9a2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:37 +0000
Subject: [PATCH 25/99] fix: a signal while waiting for a command must not
 yield a made-up status

---
 src/Compiler/Command.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Compiler/Command.cpp b/src/Compiler/Command.cpp
index 1ccfe5d..f55eb7c 100644
--- a/src/Compiler/Command.cpp
+++ b/src/Compiler/Command.cpp
@@ -14,6 +14,8 @@
 #include "src/Compiler/Command.hpp"
 #include "src/Compiler/CommandUtils.hpp"
 
+#include <cerrno>
+#include <csignal>
 #include <filesystem>
 #include <sstream>
 
@@ -261,7 +263,10 @@ int Command::exec(const std::string &wdir) {
 
   // Parent process.
   int status;
-  waitpid(pid, &status, 0);
+  pid_t waited;
+  do {
+    waited = waitpid(pid, &status, 0);
+  } while (waited == -1 && errno == EINTR);
 
   // Restore working directory.
   if (requestedNewDir) {
@@ -273,6 +278,8 @@ int Command::exec(const std::string &wdir) {
   }
 
   // Check how the child process terminated.
+  if (waited == -1)
+    throw CommandException("Failed to wait for command '" + path + "'");
   if (WIFEXITED(status)) {
     // Process exited normally.
     return WEXITSTATUS(status);
-- 
2.43.0


From cf6fe606b50c97588386310972673a5bf9c40f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:33 +0000
Subject: [PATCH 26/99] fix: the predicted output must use the input named in
 the flags

---
 src/Compiler/OMCompile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index f7b30bb..9887735 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -765,7 +765,8 @@ std::string OMCompile::getContainerEngineName() const {
     const std::string &outputPath) {
   std::vector<std::string> flagVect = parseFlags(flags);
   // Apply the output path as needed.
-  onnx_mlir::applyOutputPath(flagVect, outputPath, modelPath);
+  onnx_mlir::applyOutputPath(flagVect, outputPath,
+      onnx_mlir::getInputFilename(modelPath, flagVect));
   // Success, save filename of output, using an absolute path to increase
   // success of dlopen calls.
   std::string name = onnx_mlir::getOutputFilename(modelPath, flagVect);
-- 
2.43.0


From bc05ee3327f7a41a0bf4d5d16cd7ba233f35fbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:33 +0000
Subject: [PATCH 27/99] fix: the value of -o is not the input file

---
 src/Compiler/CommandUtils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Compiler/CommandUtils.cpp b/src/Compiler/CommandUtils.cpp
index 15c2b03..04aaff4 100644
--- a/src/Compiler/CommandUtils.cpp
+++ b/src/Compiler/CommandUtils.cpp
@@ -145,6 +145,11 @@ std::string getInputFilename(
     return inputFilename;
   for (size_t i = 0; i < flags.size(); ++i) {
     const std::string &arg = flags[i];
+    if (arg == "-o") {
+      // The next one is the output name.
+      ++i;
+      continue;
+    }
     if (!arg.empty() && arg[0] == '-')
       continue;
     // Check if it ends with ".onnx, mlir, or onnxtext".
-- 
2.43.0


From d5fe12a75967a6a6d645a32c74d7d7419836d65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:33 +0000
Subject: [PATCH 28/99] fix: among repeated flags the last one counts, and -o
 must match exactly

---
 src/Compiler/CommandUtils.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/Compiler/CommandUtils.cpp b/src/Compiler/CommandUtils.cpp
index 04aaff4..c7171e5 100644
--- a/src/Compiler/CommandUtils.cpp
+++ b/src/Compiler/CommandUtils.cpp
@@ -81,16 +81,16 @@ std::vector<std::string> parseFlags(const std::string &flags) {
 
 static std::string getOutputBasenameFromFlags(
     const std::vector<std::string> &flagVect) {
-  // Get output file name from the flags.
+  // Get output file name from the flags; the last one given counts.
   int num = flagVect.size();
-  for (int i = 0; i < num; ++i) {
+  for (int i = num - 1; i >= 0; --i) {
     if (flagVect[i].find("-o=", 0, 3) == 0) {
       if (flagVect[i].length() > 3) {
         return flagVect[i].substr(3);
       } else
         fprintf(
             stderr, "Parsing `-o=` option, expected a name. Use default.\n");
-    } else if (flagVect[i].find("-o") == 0) {
+    } else if (flagVect[i] == "-o") {
       if (i < num - 1) {
         return flagVect[i + 1];
         break;
@@ -109,9 +109,9 @@ static EmissionTargetType getEmissionTargetFromFlags(
   // more Emit target than in the base definition because Accelerators may
   // have their own. That is why the Emit target has to be part of the flags
   // and cannot be a direct enum, as there is none that encompass all the
-  // possible options.
+  // possible options. The last one given counts.
   int num = flagVect.size();
-  for (int i = 0; i < num; ++i) {
+  for (int i = num - 1; i >= 0; --i) {
     if (flagVect[i].find("-Emit") == 0 || flagVect[i].find("--Emit") == 0) {
       if (flagVect[i].find("Lib") <= 6)
         return EmissionTargetType::EmitLib;
@@ -201,7 +201,8 @@ std::string getOutputFilename(const std::string &inputFilename,
 
 std::string getModelTag(const std::vector<std::string> &flagVect) {
   std::string modelTag = "";
-  for (int i = 0; i < (int)flagVect.size(); ++i) {
+  // The last one given counts.
+  for (int i = (int)flagVect.size() - 1; i >= 0; --i) {
     if (flagVect[i].find("--tag=") == 0) {
       modelTag = flagVect[i].substr(6);
       break;
@@ -220,9 +221,9 @@ void applyOutputPath(std::vector<std::string> &flagVect,
   if (outputPath.empty())
     return;
 
-  // Loop through flags to find -o option.
+  // Loop through flags to find the -o option given last.
   int num = flagVect.size();
-  for (int i = 0; i < num; ++i) {
+  for (int i = num - 1; i >= 0; --i) {
     if (flagVect[i].find("-o=", 0, 3) == 0 && flagVect[i].length() > 3) {
       // Found -o=value format.
       std::string outputBasename = flagVect[i].substr(3);
-- 
2.43.0


From b7ce04608919e5b06e110c7f4c726c8a3e003d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:48 +0000
Subject: [PATCH 29/99] fix: the constant file is next to the output file

---
 src/Compiler/OMCompile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 9887735..47f14e9 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -676,8 +676,9 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
   successfullyCompiled = true;
 
   // Check for constant file (shared logic).
-  std::string constFilename = fs::path(outputFilename).stem().string();
-  constFilename += ".constants.bin";
+  // The compiler writes it next to the output file.
+  std::string constFilename =
+      fs::path(outputFilename).replace_extension(".constants.bin").string();
   if (fs::exists(constFilename))
     outputConstantFilename = constFilename;
 
-- 
2.43.0


From 995464764b523ac03d17b461ea5d37e297e21d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:48 +0000
Subject: [PATCH 30/99] fix: a missing container image must be noticed

---
 src/Compiler/OMCompile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 47f14e9..361506f 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -158,9 +158,11 @@ bool ContainerSupport::isImageAvailable(
     const std::string &engineName, const std::string &imageName) {
   try {
     Command imageCheck(engineName, verbose);
-    imageCheck.appendStr("images");
-    imageCheck.appendStr("-q");
+    // Fails when there is no such image, unlike "images -q".
+    imageCheck.appendStr("image");
+    imageCheck.appendStr("inspect");
     imageCheck.appendStr(imageName);
+    imageCheck.redirectExecStreams("/dev/null");
     return imageCheck.exec() == 0;
   } catch (...) {
     return false;
-- 
2.43.0


From 17ededfb42227822feb61a7ed6853ab871ebae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:49 +0000
Subject: [PATCH 31/99] fix: a directory named like the host prefix is not
 below it

---
 src/Compiler/OMCompile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 361506f..2a88ab2 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -308,7 +308,10 @@ std::string ContainerSupport::resolveHostPath(
   if (hostPrefix && std::strlen(hostPrefix) > 0) {
     std::string prefix(hostPrefix);
 
-    if (pathStr.find(prefix) == 0) {
+    // Compare whole path components: "/hostdata" is not in "/host".
+    if (pathStr.find(prefix) == 0 &&
+        (pathStr.size() == prefix.size() || prefix.back() == '/' ||
+            pathStr[prefix.size()] == '/')) {
       if (verbose)
         std::cout << "Path already has host prefix: " << pathStr << std::endl;
       return pathStr;
-- 
2.43.0


From 51899e5419c30c6580c4bb7d5db2bee89f6b44e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:21 +0000
Subject: [PATCH 32/99] fix: the compiler in a container must get its arguments
 unchanged

---
 src/Compiler/OMCompile.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 2a88ab2..cc033ce 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -93,6 +93,18 @@ private:
 // ContainerSupport Implementation
 //===----------------------------------------------------------------------===//
 
+// Quote a word so that a shell takes it as is.
+static std::string quoteForShell(const std::string &word) {
+  std::string quoted = "'";
+  for (char c : word) {
+    if (c == '\'')
+      quoted += "'\\''";
+    else
+      quoted += c;
+  }
+  return quoted + "'";
+}
+
 std::string ContainerSupport::detectEngine(
     OMCompile::ContainerEngine preferredEngine) {
   // Test docker if auto or docker is specified.
@@ -506,24 +518,17 @@ std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
 
   // Build the compiler command string that will run inside the container.
   std::ostringstream cmdStream;
-  cmdStream << compilerPathInContainer;
+  cmdStream << quoteForShell(compilerPathInContainer);
 
   // Add flags.
-  for (const auto &flag : flagVect) {
-    // Escape any quotes in the flag.
-    std::string escapedFlag = flag;
-    size_t pos = 0;
-    while ((pos = escapedFlag.find('"', pos)) != std::string::npos) {
-      escapedFlag.insert(pos, "\\");
-      pos += 2;
-    }
-    cmdStream << " " << escapedFlag;
-  }
+  for (const auto &flag : flagVect)
+    if (!flag.empty())
+      cmdStream << " " << quoteForShell(flag);
 
   // Add input file (using container path - same as modelDir).
   std::string containerInputPath =
       (fs::path(modelDir) / fs::path(inputFilename).filename()).string();
-  cmdStream << " " << containerInputPath;
+  cmdStream << " " << quoteForShell(containerInputPath);
 
   std::string containerCmd = cmdStream.str();
 
-- 
2.43.0


From 2e75fd0a2e1bbcc6fa1c47543ad39830431dc4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:21 +0000
Subject: [PATCH 33/99] fix: relative paths and an input named in the flags
 must work in a container

---
 src/Compiler/OMCompile.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index cc033ce..21b4d30 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -105,6 +105,12 @@ static std::string quoteForShell(const std::string &word) {
   return quoted + "'";
 }
 
+// Full path of a file which may not exist, seen from the current directory.
+static std::string getFullPath(const std::string &filename) {
+  fs::path path = fs::absolute(filename);
+  return (fs::weakly_canonical(path.parent_path()) / path.filename()).string();
+}
+
 std::string ContainerSupport::detectEngine(
     OMCompile::ContainerEngine preferredEngine) {
   // Test docker if auto or docker is specified.
@@ -640,8 +646,26 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
       localCmd->appendStr(inputFilename);
     cmd = std::move(localCmd);
   } else {
+    // The container mounts these directories and has its own working directory:
+    // name the files in there by their full paths, and the input only once.
+    modelDir = fs::weakly_canonical(modelDir).string();
+    outputDir = fs::weakly_canonical(outputDir).string();
+    std::vector<std::string> containerFlags(flagVect);
+    bool inputInFlags = modelPath.empty();
+    for (size_t i = 0; i < containerFlags.size(); ++i) {
+      std::string &flag = containerFlags[i];
+      if (flag == "-o" && i + 1 < containerFlags.size()) {
+        ++i;
+        containerFlags[i] = getFullPath(containerFlags[i]);
+      } else if (flag.find("-o=") == 0 && flag.length() > 3) {
+        flag = "-o=" + getFullPath(flag.substr(3));
+      } else if (inputInFlags && flag == inputFilename) {
+        containerFlags.erase(containerFlags.begin() + i--);
+        inputInFlags = false;
+      }
+    }
     cmd = createContainerCompileCommand(
-        flagVect, inputFilename, modelDir, outputDir);
+        containerFlags, inputFilename, modelDir, outputDir);
   }
 
   // Redirect logs if specified (shared logic).
-- 
2.43.0


From c0d9b0d5e95a559c5ac3ce120f7f84b6b2164bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:02 +0000
Subject: [PATCH 34/99] fix: a session without a model must not close an
 arbitrary handle

---
 src/Runtime/ExecutionSession.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index c46fd8e..7e585eb 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -153,7 +153,7 @@ protected:
   bool isInitialized = false;
 
   // Handler to the shared library file being loaded.
-  DynamicLibraryHandleType _sharedLibraryHandle;
+  DynamicLibraryHandleType _sharedLibraryHandle = {};
 
   // Entry point function.
   std::string _entryPointName;
-- 
2.43.0


From 5eb211ae69360ae6519d5a2ed1e10d0cc05e4870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:02 +0000
Subject: [PATCH 35/99] fix: an unknown entry point must not discard the
 selected one

---
 src/Runtime/ExecutionSession.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index aa512d0..ea5ffbd 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -255,16 +255,19 @@ void ExecutionSession::setEntryPoint(const std::string &entryPointName) {
   if (!isInitialized)
     throw ExecutionSessionException(
         "Execution session must be initialized once.");
+  // Keep the current entry point when there is no such symbol.
+  entryPointFuncType entryPointFunc;
 #if defined(_WIN32)
-  _entryPointFunc = reinterpret_cast<entryPointFuncType>(
+  entryPointFunc = reinterpret_cast<entryPointFuncType>(
       _sharedLibraryHandle.getAddressOfSymbol(entryPointName.c_str()));
 #else
-  _entryPointFunc = reinterpret_cast<entryPointFuncType>(
+  entryPointFunc = reinterpret_cast<entryPointFuncType>(
       dlsym(_sharedLibraryHandle, entryPointName.c_str()));
 #endif
-  if (!_entryPointFunc)
+  if (!entryPointFunc)
     throw ExecutionSessionException(
         "Cannot load symbol: '" + entryPointName + "'.");
+  _entryPointFunc = entryPointFunc;
   _entryPointName = entryPointName;
   errno = 0; // No errors.
 }
-- 
2.43.0


From 4650bdce2d898d963f4c502a8b9b2c3679e2a51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:02 +0000
Subject: [PATCH 36/99] fix: running with signal handlers must restore those of
 SIGILL and SIGABRT

---
 src/Runtime/ExecutionSession.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index ea5ffbd..0f8415c 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -438,7 +438,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   return nullptr;
 #else
   // Save old signal handlers
-  struct sigaction oldSigsegv, oldSigbus, oldSigfpe, oldSigill;
+  struct sigaction oldSigsegv, oldSigbus, oldSigfpe, oldSigill, oldSigabrt;
   struct sigaction newAction;
 
   // Setup new signal handler
@@ -451,7 +451,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   sigaction(SIGBUS, &newAction, &oldSigbus);
   sigaction(SIGFPE, &newAction, &oldSigfpe);
   sigaction(SIGILL, &newAction, &oldSigill);
-  sigaction(SIGABRT, &newAction, &oldSigill);
+  sigaction(SIGABRT, &newAction, &oldSigabrt);
 
   // Reset signal state
   signalCaught = 0;
@@ -472,7 +472,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
     sigaction(SIGBUS, &oldSigbus, nullptr);
     sigaction(SIGFPE, &oldSigfpe, nullptr);
     sigaction(SIGILL, &oldSigill, nullptr);
-    sigaction(SIGABRT, &oldSigill, nullptr);
+    sigaction(SIGABRT, &oldSigabrt, nullptr);
     // Throw error if nullptr output (list expected in successful executions).
     if (!output)
       throw ExecutionSessionException(reportErrnoError());
@@ -486,6 +486,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
     sigaction(SIGBUS, &oldSigbus, nullptr);
     sigaction(SIGFPE, &oldSigfpe, nullptr);
     sigaction(SIGILL, &oldSigill, nullptr);
+    sigaction(SIGABRT, &oldSigabrt, nullptr);
     // Set errno to the signal number for error reporting
     errno = signum;
     throw ExecutionSessionException(reportErrnoError(/*from signal*/ true));
-- 
2.43.0


From bc9b602f711cc59c55fd15f458679d3b649890c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:02 +0000
Subject: [PATCH 37/99] fix: a caught signal must not stay blocked

---
 src/Runtime/ExecutionSession.cpp | 6 +++---
 src/Runtime/ExecutionSession.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 0f8415c..7f67758 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -41,7 +41,7 @@ namespace onnx_mlir {
 // =============================================================================
 // Static member initialization for signal handling (POSIX only)
 
-std::jmp_buf ExecutionSession::signalJumpBuffer;
+sigjmp_buf ExecutionSession::signalJumpBuffer;
 volatile sig_atomic_t ExecutionSession::signalCaught = 0;
 volatile sig_atomic_t ExecutionSession::signalNumber = 0;
 
@@ -51,7 +51,7 @@ volatile sig_atomic_t ExecutionSession::signalNumber = 0;
 void ExecutionSession::signalHandler(int signum) {
   signalCaught = 1;
   signalNumber = signum;
-  std::longjmp(signalJumpBuffer, signum);
+  siglongjmp(signalJumpBuffer, signum);
 }
 #endif
 
@@ -460,7 +460,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   OMTensorList *output = nullptr;
 
   // Set up the jump point for signal handler
-  int signum = setjmp(signalJumpBuffer);
+  int signum = sigsetjmp(signalJumpBuffer, /*savemask*/ 1);
 
   if (signum == 0) {
     // First time through - run the inference
diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index 7e585eb..3ce4319 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -144,7 +144,7 @@ protected:
 #if !defined(_WIN32)
   // Signal handling infrastructure (POSIX only)
   static void signalHandler(int signum);
-  static std::jmp_buf signalJumpBuffer;
+  static sigjmp_buf signalJumpBuffer;
   static volatile sig_atomic_t signalCaught;
   static volatile sig_atomic_t signalNumber;
 #endif
-- 
2.43.0


From 5e4c34715f22b2f0049c5f3d9df5b2d3ea89a1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:38 +0000
Subject: [PATCH 38/99] fix: a failed load must close the library and restore
 OM_CONSTANT_PATH

---
 src/Runtime/ExecutionSession.cpp | 45 ++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 7f67758..bae14e0 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -76,9 +76,40 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
 
   std::string tag = modelTag;
 
+  // Undo, on every way out, what is only needed for loading; and when loading
+  // fails, close the library, whose handle would be lost otherwise.
+  struct LoadGuard {
+    ExecutionSession &session;
+    bool setOMConstantPath = false;
+    bool success = false;
+    explicit LoadGuard(ExecutionSession &session) : session(session) {}
+    ~LoadGuard() {
+      // Unset OM_CONSTANT_PATH to avoid conflict with the load of another
+      // model.
+      if (setOMConstantPath) {
+#if defined(_WIN32)
+        _putenv_s("OM_CONSTANT_PATH", "");
+#else
+        unsetenv("OM_CONSTANT_PATH");
+#endif
+      }
+      if (success)
+        return;
+      session.isInitialized = false;
+      DynamicLibraryHandleType &handle = session._sharedLibraryHandle;
+#if defined(_WIN32)
+      if (handle.isValid())
+        llvm::sys::DynamicLibrary::closeLibrary(handle);
+#else
+      if (handle)
+        dlclose(handle);
+#endif
+      handle = {};
+    }
+  } guard(*this);
+
   // If OM_CONSTANT_PATH is not set, set it for loading constants from file. Do
   // this before dlopen since OM_CONSTANT_PATH is used by constructors.
-  bool setOMConstantPath = false;
   if (!std::getenv("OM_CONSTANT_PATH")) {
     std::size_t found = sharedLibPath.find_last_of("/\\");
     if (found != std::string::npos) {
@@ -88,7 +119,7 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
 #else
       setenv("OM_CONSTANT_PATH", basePath.c_str(), /*overwrite=*/0);
 #endif
-      setOMConstantPath = true;
+      guard.setOMConstantPath = true;
     }
   }
 
@@ -213,19 +244,11 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   // Successful completion of initialization.
   isInitialized = true;
 
-  // Unset OM_CONSTANT_PATH to avoid conflict with the load of another model.
-  if (setOMConstantPath) {
-#if defined(_WIN32)
-    _putenv_s("OM_CONSTANT_PATH", "");
-#else
-    unsetenv("OM_CONSTANT_PATH");
-#endif
-  }
-
   // Set default entry point if requested.
   if (defaultEntryPoint)
     setEntryPoint("run_main_graph" + lowDashTag);
 
+  guard.success = true;
   errno = 0; // No errors.
 }
 
-- 
2.43.0


From b115a9ab5ecab1fd19cf17a21f0021b0ec9357c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:04 +0000
Subject: [PATCH 39/99] fix: the path of a model loaded after construction

---
 src/Runtime/ExecutionSession.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index bae14e0..aa39637 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -248,6 +248,8 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   if (defaultEntryPoint)
     setEntryPoint("run_main_graph" + lowDashTag);
 
+  // The path given here, not the one (if any) of the constructor.
+  this->sharedLibPath = sharedLibPath;
   guard.success = true;
   errno = 0; // No errors.
 }
-- 
2.43.0


From 24442540a726398e754f3904ad74b74b965e2f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 40/99] fix: a signature entry without type must be rejected

---
 src/Runtime/OMTensorListHelper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 6c6fbd9..5b77010 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -272,7 +272,7 @@ static OM_DATA_TYPE typeStringToOMDataType(const std::string &typeStr) {
 }
 
 struct SigEntry {
-  OM_DATA_TYPE type;
+  OM_DATA_TYPE type = ONNX_TYPE_UNDEFINED;
   std::vector<int64_t> dims;
 };
 
@@ -349,6 +349,8 @@ static bool parseSignatureInfo(
         parseJsonStr(s, tmp);
       }
     }
+    if (entry.type == ONNX_TYPE_UNDEFINED)
+      return reportFailure("parseSignatureInfo: missing type");
     entries.push_back(std::move(entry));
   }
   return !entries.empty();
-- 
2.43.0


From 3c8043141a5daa7f5da226ca2a18ba63dbaa7061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 41/99] fix: an unterminated signature must be rejected

---
 src/Runtime/OMTensorListHelper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 5b77010..d140788 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -287,7 +287,9 @@ static bool parseSignatureInfo(
 
   while (true) {
     skipWS(s);
-    if (s.empty() || s[0] == ']')
+    if (s.empty())
+      return false;
+    if (s[0] == ']')
       break;
     if (s[0] == ',') {
       s = s.substr(1);
-- 
2.43.0


From 8ba3c2dd2e5698366f4c95799797f1e47c48cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 42/99] fix: an escaped quote must not end a string of the
 signature

---
 src/Runtime/OMTensorListHelper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index d140788..757f8ea 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -221,8 +221,10 @@ static bool parseJsonStr(std::string_view &s, std::string &out) {
   if (s.empty() || s[0] != '"')
     return false;
   s = s.substr(1);
-  size_t end = s.find('"');
-  if (end == std::string_view::npos)
+  size_t end = 0;
+  while (end < s.size() && s[end] != '"')
+    end += (s[end] == '\\') ? 2 : 1; // Skip escaped characters.
+  if (end >= s.size())
     return false;
   out.assign(s.data(), end);
   s = s.substr(end + 1);
-- 
2.43.0


From 0bd3864ff86f0243ecc3f97c971a998341cf41ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 43/99] fix: trailing characters in shape, value and bound
 requests must be rejected

---
 src/Runtime/OMTensorListHelper.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 757f8ea..2f915e7 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -46,6 +46,11 @@ static bool reportFailure(const std::string &msg) {
   return false;
 }
 
+// True when nothing but white space is left.
+static bool atEnd(std::istringstream &iss) {
+  return (iss >> std::ws).eof();
+}
+
 // Parse a pre-split entry string: "num1[-num2]:content".
 // Valid index patterns:
 //   -1:content    : all inputs (idLow = idHigh = -1)
@@ -81,6 +86,8 @@ static bool parseEntry(const std::string &entry, int numInputs, int64_t &idLow,
                              ".." + std::to_string(numInputs - 1) + ")");
     }
   }
+  if (!atEnd(iss))
+    return reportFailure("Failed to parse input ID from '" + entry + "'");
   return true;
 }
 
@@ -104,7 +111,7 @@ static bool parseShapeInfo(const char *shapeInfo, int numInputs,
       std::istringstream ds(dimStr);
       ds >> std::ws;
       int64_t d;
-      if (!(ds >> d))
+      if (!(ds >> d) || !atEnd(ds))
         return reportFailure("Failed to parse dimension from '" + dimStr + "'");
       if (d < -1)
         return reportFailure("expected dimension value: -1 or positive, got " +
@@ -471,7 +478,7 @@ static bool parseBoundOverrides(const char *bounds, double *arr) {
       return reportFailure("Empty type name in bound entry '" + entry + "'");
     std::istringstream valStream(parts[1]);
     double val;
-    if (!(valStream >> val))
+    if (!(valStream >> val) || !atEnd(valStream))
       return reportFailure(
           "Failed to parse bound value from '" + parts[1] + "'");
     OM_DATA_TYPE t = runONNXModelNameToOMType(typeName);
-- 
2.43.0


From 00524f8f9604d8d58ae39f19996dcd3a7906fe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 44/99] fix: an empty value range must be rejected

---
 src/Runtime/OMTensorListHelper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 2f915e7..48e4978 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -547,6 +547,12 @@ OMTensorList *omTensorListCreateFromInputSignature(
     }
     double lo = vspec.hasMin ? vspec.minVal : lb[entry.type];
     double hi = vspec.hasMax ? vspec.maxVal : ub[entry.type];
+    if (!vspec.hasSoz && lo > hi) {
+      reportFailure("input " + std::to_string(i) + ": lower bound " +
+                    std::to_string(lo) + " is larger than upper bound " +
+                    std::to_string(hi));
+      return abortWithCleanup(i);
+    }
     if (vspec.hasSoz)
       tensor = omTensorCreateSozData(entry.dims, entry.type, vspec.sozCount);
     else
-- 
2.43.0


From 7428a0965207b4ef84d1a9f9f50764df1557ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 45/99] fix: random sequences of ones must not write to an
 empty tensor

---
 src/Runtime/OMTensorHelper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index 2e91679..f91f520 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -246,7 +246,8 @@ OMTensor *omTensorCreateSozData(
   };
 
   for (int64_t row = 0; row < numRows; ++row) {
-    int64_t n = (sozCount < 0) ? dist(omRandomGenerator) : fixedN;
+    int64_t n = (sozCount < 0) ? std::min(dist(omRandomGenerator), innerDim)
+                               : fixedN;
     char *rowPtr = (char *)buf + row * innerDim * elemSize;
     switch (omType) {
     case ONNX_TYPE_BOOL:
-- 
2.43.0


From 4707f6eefaf4f135c08a879c3078dc59fd0d4513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 46/99] fix: large bounds of unsigned random data

---
 src/Runtime/OMTensorHelper.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index f91f520..c0d8509 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -62,13 +62,16 @@ static void fillBufferWithRandom(T *buf, int64_t n, T lbound, T ubound) {
   }
   if constexpr (std::is_integral<T>::value) {
     if constexpr (sizeof(T) <= 4) {
-      std::uniform_int_distribution<int32_t> dis(
-          static_cast<int32_t>(lbound), static_cast<int32_t>(ubound));
+      using D = std::conditional_t<std::is_same<T, uint32_t>::value, uint32_t,
+          int32_t>;
+      std::uniform_int_distribution<D> dis(
+          static_cast<D>(lbound), static_cast<D>(ubound));
       std::generate(buf, buf + n,
           [&]() { return static_cast<T>(dis(omRandomGenerator)); });
     } else {
-      std::uniform_int_distribution<int64_t> dis(
-          static_cast<int64_t>(lbound), static_cast<int64_t>(ubound));
+      using D = std::conditional_t<std::is_unsigned<T>::value, uint64_t, int64_t>;
+      std::uniform_int_distribution<D> dis(
+          static_cast<D>(lbound), static_cast<D>(ubound));
       std::generate(buf, buf + n,
           [&]() { return static_cast<T>(dis(omRandomGenerator)); });
     }
-- 
2.43.0


From e4a2595a84ce8d933d68794b31088e58828c2f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 47/99] fix: sequences of ones for float16 inputs

---
 src/Runtime/OMTensorHelper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index c0d8509..5cae11a 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -286,6 +286,9 @@ OMTensor *omTensorCreateSozData(
     case ONNX_TYPE_DOUBLE:
       fillOnes((double *)rowPtr, n);
       break;
+    case ONNX_TYPE_FLOAT16:
+      std::fill((uint16_t *)rowPtr, (uint16_t *)rowPtr + n, om_f32_to_f16(1.0f));
+      break;
     default:
       free(buf);
       return nullptr;
-- 
2.43.0


From 315deba43953bc84ac336869c90b41f08e094f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:33 +0000
Subject: [PATCH 48/99] fix: bounds of random data outside of the range of
 their type

---
 src/Runtime/OMTensorHelper.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index 5cae11a..3de628e 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -21,6 +21,7 @@
 #include <cassert>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 #include <random>
 #include <string>
 #include <type_traits>
@@ -108,6 +109,17 @@ static OMTensor *omTensorCreateWithRandomData(
 static OMTensor *omTensorCreateFloat16WithRandomData(
     const std::vector<int64_t> &shape, float lbound, float ubound);
 
+// Bound of an integer type; bounds which are not representable are clamped.
+template <typename T>
+static T toBound(double bound) {
+  using Limits = std::numeric_limits<T>;
+  if (!(bound > static_cast<double>(Limits::lowest())))
+    return Limits::lowest();
+  if (bound >= static_cast<double>(Limits::max()))
+    return Limits::max();
+  return static_cast<T>(bound);
+}
+
 // =============================================================================
 // Non-template runtime-dispatch overload.
 
@@ -120,28 +132,28 @@ OMTensor *omTensorCreateWithRandomData(const std::vector<int64_t> &shape,
         shape, lbound > 0.5, ubound > 0.5, omType);
   case ONNX_TYPE_INT8:
     return omTensorCreateWithRandomData<int8_t>(
-        shape, (int8_t)lbound, (int8_t)ubound, omType);
+        shape, toBound<int8_t>(lbound), toBound<int8_t>(ubound), omType);
   case ONNX_TYPE_UINT8:
     return omTensorCreateWithRandomData<uint8_t>(
-        shape, (uint8_t)lbound, (uint8_t)ubound, omType);
+        shape, toBound<uint8_t>(lbound), toBound<uint8_t>(ubound), omType);
   case ONNX_TYPE_INT16:
     return omTensorCreateWithRandomData<int16_t>(
-        shape, (int16_t)lbound, (int16_t)ubound, omType);
+        shape, toBound<int16_t>(lbound), toBound<int16_t>(ubound), omType);
   case ONNX_TYPE_UINT16:
     return omTensorCreateWithRandomData<uint16_t>(
-        shape, (uint16_t)lbound, (uint16_t)ubound, omType);
+        shape, toBound<uint16_t>(lbound), toBound<uint16_t>(ubound), omType);
   case ONNX_TYPE_INT32:
     return omTensorCreateWithRandomData<int32_t>(
-        shape, (int32_t)lbound, (int32_t)ubound, omType);
+        shape, toBound<int32_t>(lbound), toBound<int32_t>(ubound), omType);
   case ONNX_TYPE_UINT32:
     return omTensorCreateWithRandomData<uint32_t>(
-        shape, (uint32_t)lbound, (uint32_t)ubound, omType);
+        shape, toBound<uint32_t>(lbound), toBound<uint32_t>(ubound), omType);
   case ONNX_TYPE_INT64:
     return omTensorCreateWithRandomData<int64_t>(
-        shape, (int64_t)lbound, (int64_t)ubound, omType);
+        shape, toBound<int64_t>(lbound), toBound<int64_t>(ubound), omType);
   case ONNX_TYPE_UINT64:
     return omTensorCreateWithRandomData<uint64_t>(
-        shape, (uint64_t)lbound, (uint64_t)ubound, omType);
+        shape, toBound<uint64_t>(lbound), toBound<uint64_t>(ubound), omType);
   case ONNX_TYPE_FLOAT:
     return omTensorCreateWithRandomData<float>(
         shape, (float)lbound, (float)ubound, omType);
@@ -161,7 +173,8 @@ OMTensor *omTensorCreateWithRandomData(const std::vector<int64_t> &shape,
     for (auto d : shape)
       numElems *= d;
     // Create strings into a vector of strings.
-    std::uniform_int_distribution<int> dist((int)lbound, (int)ubound);
+    std::uniform_int_distribution<int> dist(
+        toBound<int>(lbound), toBound<int>(ubound));
     std::vector<std::string> strings((size_t)numElems);
     for (int64_t e = 0; e < numElems; ++e)
       strings[e] = std::to_string(dist(omRandomGenerator));
-- 
2.43.0


From 9d768786d0b55503d550d43b14058b4ee8a8f74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:50 +0000
Subject: [PATCH 49/99] fix: python session inputs that are not laid out in C
 order

---
 src/Runtime/python/PyRuntime.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Runtime/python/PyRuntime.py b/src/Runtime/python/PyRuntime.py
index 86e5960..3d2e437 100644
--- a/src/Runtime/python/PyRuntime.py
+++ b/src/Runtime/python/PyRuntime.py
@@ -33,6 +33,9 @@ class OMExecutionSession(OMExecutionSession_):
         pyrun_shapes = []
         pyrun_strides = []
         for inp in inputs:
+            # The strides passed below must be the ones of the flattened data,
+            # which ravel lays out in C order.
+            inp = np.asarray(inp, order="C")
             pyrun_inputs.append(inp.ravel())
             pyrun_shapes.append(np.array(inp.shape, dtype=np.int64))
             pyrun_strides.append(np.array(inp.strides, dtype=np.int64))
@@ -52,6 +55,9 @@ class OMExecutionSession(OMExecutionSession_):
         pyrun_shapes = []
         pyrun_strides = []
         for inp in inputs:
+            # The strides passed below must be the ones of the flattened data,
+            # which ravel lays out in C order.
+            inp = np.asarray(inp, order="C")
             pyrun_inputs.append(inp.ravel())
             pyrun_shapes.append(np.array(inp.shape, dtype=np.int64))
             pyrun_strides.append(np.array(inp.strides, dtype=np.int64))
-- 
2.43.0


From e47a9521ddfc6f162e58e3b7addc841bbda67b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:50 +0000
Subject: [PATCH 50/99] fix: string outputs of the python session

---
 src/Runtime/python/PyExecutionSession.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index 2c0efdb..ce0bfb4 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -80,7 +80,7 @@ static py::array copyTensorToPyArray(
   // Special handling for string tensors
   if (omTensorGetDataType(omt) == ONNX_TYPE_STRING) {
     // For strings, we need to reconstruct a Python object array.
-    py::array out(dt, shape);
+    py::array out(py::dtype("O"), shape);
     // Recall that our array of string in OMTensors look like this:
     // [ptr0][ptr1][ptr2]['h']['i']['\0']['b']['y']['e']['\0']...
     // So strArray points to the array of pointers at the begining of the memory
@@ -344,9 +344,10 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
     // Check if the return value is a static constant, which cannot be freed and
     // thus would have been created with the "owning" flag being false.
     if (omTensorGetOwning(omt)) {
-      if (forceOutputDataCopy) {
+      if (forceOutputDataCopy ||
+          omTensorGetDataType(omt) == ONNX_TYPE_STRING) {
         // force copy of result, leaving ownership on so that it be destroyed at
-        // the end.
+        // the end. Strings are always copied, as numpy cannot use their buffer.
         outputPyArrays.emplace_back(copyTensorToPyArray(dtype, shape, omt));
       } else {
         // We have a regular tensor which we will need to free at the right
-- 
2.43.0


From 1e8ed495d0d82064443962ef0bb862b8d0dab73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:38 +0000
Subject: [PATCH 51/99] fix: outputs of the python session sharing a buffer

---
 src/Runtime/python/PyExecutionSession.cpp | 41 ++++++++++++++---------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index ce0bfb4..64edc52 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -13,6 +13,9 @@
 //
 //===----------------------------------------------------------------------===//
 
+#include <map>
+#include <set>
+
 #include "PyExecutionSession.hpp"
 #include "PyFloat16.hpp"
 #include "src/Runtime/OMTensorHelper.hpp"
@@ -296,10 +299,19 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   // 3. Process outputs.
   TIMING_INIT_START(process_output);
   std::vector<py::array> outputPyArrays;
-  // Maintain an 1-to-1 mapping between data pointers and py::capsules, to avoid
-  // creating two capsules for the same pointer. Otherwise, it causes double
-  // free error.
+  // Maintain an 1-to-1 mapping between allocated pointers and py::capsules, to
+  // avoid creating two capsules for the same pointer. Otherwise, it causes
+  // double free error.
   std::map<void *, py::capsule> mapPtrCapsule{};
+  // For the same reason, when several outputs own the same buffer, only the
+  // first of them keeps the ownership.
+  std::set<void *> ownedPtrs;
+  for (int64_t i = 0; i < omTensorListGetSize(wrappedOutput); i++) {
+    auto *omt = omTensorListGetOmtByIndex(wrappedOutput, i);
+    if (omt && omTensorGetOwning(omt) &&
+        !ownedPtrs.insert(omTensorGetAllocatedPtr(omt)).second)
+      omTensorSetOwning(omt, false);
+  }
   for (int64_t i = 0; i < omTensorListGetSize(wrappedOutput); i++) {
     auto *omt = omTensorListGetOmtByIndex(wrappedOutput, i);
     if (!omt) {
@@ -353,18 +365,12 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
         // We have a regular tensor which we will need to free at the right
         // time. Create the capsule that points to the data to be freed
         // (allocated pointer).
-        py::capsule free_data_with_allocate_ptr;
-        auto it = mapPtrCapsule.find(omtDataPtr);
-        if (it != mapPtrCapsule.end()) {
-          free_data_with_allocate_ptr = it->second;
-        } else {
-          free_data_with_allocate_ptr = py::capsule(
-              omtAllocPtr, /* Address that will be passed to lambda function. */
-              [](void *ptr) { /* Lambda function that performs the freeing. */
-                free(ptr);
-              });
-          mapPtrCapsule.try_emplace(omtDataPtr, free_data_with_allocate_ptr);
-        }
+        py::capsule free_data_with_allocate_ptr(
+            omtAllocPtr, /* Address that will be passed to lambda function. */
+            [](void *ptr) { /* Lambda function that performs the freeing. */
+              free(ptr);
+            });
+        mapPtrCapsule.try_emplace(omtAllocPtr, free_data_with_allocate_ptr);
         // Set owning to false as we migrate the ownership to python
         omTensorSetOwning(omt, false);
         // Pass the py::capsule to the numpy array for proper bookkeeping.
@@ -372,6 +378,11 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
           omtDataPtr, // Data pointer used to access the values.
           free_data_with_allocate_ptr /* Capsule that save the deallocation. */));
       }
+    } else if (auto it = mapPtrCapsule.find(omtAllocPtr);
+        it != mapPtrCapsule.end()) {
+      // The buffer of a previous output, which python already frees.
+      outputPyArrays.emplace_back(
+          py::array(dtype, shape, omtDataPtr, it->second));
     } else {
       // We have a constant, its a very rare case, just do like in the past:
       // copy.
-- 
2.43.0


From 73c9861243b8cd8b03e728717ab25882cf974c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:37 +0000
Subject: [PATCH 52/99] fix: memory leaked by the python session on errors

---
 src/Runtime/python/PyExecutionSession.cpp | 50 ++++++++++++++---------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index 64edc52..04d4729 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -14,6 +14,7 @@
 //===----------------------------------------------------------------------===//
 
 #include <map>
+#include <memory>
 #include <set>
 
 #include "PyExecutionSession.hpp"
@@ -150,7 +151,8 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
 
   // 1. Process inputs.
   TIMING_INIT_START(process_input);
-  std::vector<OMTensor *> omts;
+  // Input tensors are released on every way out, until a list takes them.
+  std::vector<OMTensorUniquePtr> ownedOmts;
   if (inputsPyArray.size() != shapesPyArray.size())
     throw onnx_mlir::ExecutionSessionException(
         "numbers of inputs and shapes should be the same");
@@ -167,7 +169,11 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
           "Expect contiguous python array.");
     void *dataPtr;
     int64_t ownData = 0;
-    if (inputPyArray.writeable()) {
+    std::unique_ptr<void, decltype(&free)> ownedData(nullptr, &free);
+    if (inputPyArray.dtype().kind() == 'O') {
+      // Strings are copied to a buffer of their own below.
+      dataPtr = nullptr;
+    } else if (inputPyArray.writeable()) {
       dataPtr = inputPyArray.mutable_data();
     } else {
       // If data is not writable, copy them to a writable buffer.
@@ -177,6 +183,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
             "Failed to allocate data buffer for copied data.");
       memcpy(copiedData, inputPyArray.data(), inputPyArray.nbytes());
       dataPtr = copiedData;
+      ownedData.reset(copiedData);
       // We want OMTensor to free up the memory space upon destruction.
       ownData = 1;
     }
@@ -267,16 +274,26 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
             "fail to allocate Tensor for input data");
       omTensorSetStridesWithPyArrayStrides(inputOMTensor, safeStrides.data());
     }
-    omts.emplace_back(inputOMTensor);
+    ownedData.release(); // Now freed by the tensor.
+    ownedOmts.emplace_back(inputOMTensor, omTensorDestroy);
   }
   TIMING_STOP_PRINT(process_input);
 
   // 2. Call entry point: create list.
   TIMING_INIT_START(inference);
-  OMTensorList *wrappedInput = omTensorListCreate(omts.data(), omts.size());
+  std::vector<OMTensor *> omts;
+  for (const OMTensorUniquePtr &omt : ownedOmts)
+    omts.emplace_back(omt.get());
+  using OMTensorListUniquePtr =
+      std::unique_ptr<OMTensorList, decltype(&omTensorListDestroy)>;
+  OMTensorListUniquePtr ownedInput(
+      omTensorListCreate(omts.data(), omts.size()), omTensorListDestroy);
+  OMTensorList *wrappedInput = ownedInput.get();
   if (!wrappedInput)
     throw onnx_mlir::ExecutionSessionException(
         "fail to allocate Tensor List for input data");
+  for (OMTensorUniquePtr &omt : ownedOmts)
+    omt.release(); // Now destroyed by the list.
   // Call
   OMTensorList *wrappedOutput = nullptr;
   {
@@ -291,10 +308,9 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   TIMING_STOP_PRINT(inference);
 
   // Check if inference succeeded and returned valid output
-  if (!wrappedOutput) {
-    omTensorListDestroy(wrappedInput);
+  if (!wrappedOutput)
     throw onnx_mlir::ExecutionSessionException("error while runing the model");
-  }
+  OMTensorListUniquePtr ownedOutput(wrappedOutput, omTensorListDestroy);
 
   // 3. Process outputs.
   TIMING_INIT_START(process_output);
@@ -315,8 +331,6 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   for (int64_t i = 0; i < omTensorListGetSize(wrappedOutput); i++) {
     auto *omt = omTensorListGetOmtByIndex(wrappedOutput, i);
     if (!omt) {
-      omTensorListDestroy(wrappedOutput);
-      omTensorListDestroy(wrappedInput);
       std::stringstream errStr;
       errStr << "Failed to get output tensor at index " << i;
       throw onnx_mlir::ExecutionSessionException(errStr.str());
@@ -327,13 +341,10 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
 
     const char *dtypeName =
         omDataTypeToNumpyDtypeName(omTensorGetDataType(omt));
-    if (!dtypeName) {
-      omTensorListDestroy(wrappedOutput);
-      omTensorListDestroy(wrappedInput);
+    if (!dtypeName)
       throw onnx_mlir::ExecutionSessionException(
           "Unsupported ONNX type in OMTensor: " +
           std::to_string(omTensorGetDataType(omt)));
-    }
     py::dtype dtype(dtypeName);
     TIMING_STOP_PRINT(process_output_types);
 
@@ -393,11 +404,11 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   TIMING_STOP_PRINT(process_output);
 
   TIMING_INIT_START(delete_out_lists);
-  omTensorListDestroy(wrappedOutput);
+  ownedOutput.reset();
   TIMING_STOP_PRINT(delete_out_lists);
 
   TIMING_INIT_START(delete_in_lists);
-  omTensorListDestroy(wrappedInput);
+  ownedInput.reset();
   TIMING_STOP_PRINT(delete_in_lists);
 
   return outputPyArrays;
@@ -417,13 +428,15 @@ std::vector<py::array> PyExecutionSession::pyFillInputDebug(
           defaultLowerBound.empty() ? nullptr : defaultLowerBound.c_str(),
           defaultUpperBound.empty() ? nullptr : defaultUpperBound.c_str(), seed,
           verbose);
+  std::unique_ptr<OMTensorList, decltype(&omTensorListDestroy)> ownedInputs(
+      inputs, omTensorListDestroy);
 
   // Convert the C++ OMTensorList to a Python list of numpy arrays so that:
   // 1. Python callers can inspect and modify individual inputs before
   //    inference.
   // 2. The result slots directly into run(inputs), which expects numpy arrays.
   // 3. Memory ownership transfers to numpy/Python; OMTensorList is destroyed
-  //    below once all tensors have been copied out.
+  //    once all tensors have been copied out.
   std::vector<py::array> result;
   for (int64_t i = 0; i < omTensorListGetSize(inputs); i++) {
     auto *omt = omTensorListGetOmtByIndex(inputs, i);
@@ -431,15 +444,12 @@ std::vector<py::array> PyExecutionSession::pyFillInputDebug(
         omTensorGetShape(omt), omTensorGetShape(omt) + omTensorGetRank(omt));
     const char *dtypeName =
         omDataTypeToNumpyDtypeName(omTensorGetDataType(omt));
-    if (!dtypeName) {
-      omTensorListDestroy(inputs);
+    if (!dtypeName)
       throw onnx_mlir::ExecutionSessionException(
           "pyFillInputDebug: unsupported tensor type at index " +
           std::to_string(i));
-    }
     result.emplace_back(copyTensorToPyArray(py::dtype(dtypeName), shape, omt));
   }
-  omTensorListDestroy(inputs);
   return result;
 }
 
-- 
2.43.0


From eb877a5139052167c591a86334b7173d74159596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:59 +0000
Subject: [PATCH 53/99] fix: dense bool constants read as -1 in wide form

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
index ded0661..63cfb64 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
@@ -29,7 +29,8 @@ WideNum getElementsSplatWideNum(ElementsAttr elms) {
   if (isa<FloatType>(elementType))
     return WideNum::fromAPFloat(elms.getSplatValue<APFloat>());
   if (auto itype = dyn_cast<IntegerType>(elementType))
-    return WideNum::fromAPInt(elms.getSplatValue<APInt>(), !itype.isUnsigned());
+    return WideNum::fromAPInt(elms.getSplatValue<APInt>(),
+        isSignedIntBType(btypeOfMlirType(itype)));
   llvm_unreachable("WideNum only supports integer and float types");
 }
 
@@ -44,7 +45,7 @@ void readDenseElementsWideNums(
     llvm::transform(elms.getValues<APFloat>(), dst.begin(),
         [](APFloat f) { return WideNum::fromAPFloat(f); });
   } else if (auto itype = dyn_cast<IntegerType>(elementType)) {
-    bool isSigned = !itype.isUnsigned();
+    bool isSigned = isSignedIntBType(btypeOfMlirType(itype)); // bool isn't
     llvm::transform(elms.getValues<APInt>(), dst.begin(),
         [isSigned](APInt i) { return WideNum::fromAPInt(i, isSigned); });
   } else {
-- 
2.43.0


From c04e30d87508e84794458f5625a53a0d7c21723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:59 +0000
Subject: [PATCH 54/99] fix: negative indices of a constant ScatterND

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index ffbd8a2..d4ceea8 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -823,8 +823,12 @@ ElementsAttr ElementsAttrBuilder::scatterND(
     ArrayBuffer<int64_t> indicesBuffer = getElementsArray<int64_t>(indices);
     const int64_t *indicesIter = indicesBuffer.get().begin();
     for (int64_t i = 0; i < n_slices; ++i) {
-      ArrayRef<uint64_t> idxs =
-          castArrayRef<uint64_t>(ArrayRef(indicesIter, indices_nd));
+      // Indices count from the end of the axis if they are negative.
+      SmallVector<uint64_t, 4> idxs;
+      for (int64_t axis = 0; axis < indices_nd; ++axis) {
+        int64_t idx = indicesIter[axis];
+        idxs.push_back(idx < 0 ? idx + inputShape[axis] : idx);
+      }
       int64_t pos = getStridesPosition(idxs, sliceStrides);
       for (int64_t j = 0; j < slice_size; ++j) {
         dst[pos] = updatesData.get()[updatesIter->at(0)];
-- 
2.43.0


From 25221792e80f36d2eab70a0b1fca2319beb5c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:59 +0000
Subject: [PATCH 55/99] fix: split of a constant along an axis of size zero

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index d4ceea8..6ab1a29 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -583,7 +583,7 @@ std::vector<ElementsAttr> ElementsAttrBuilder::split(
 
   ArrayBuffer<WideNum> data = getElementsWideNums(elms);
   size_t stride = ShapedType::getNumElements(shape.drop_front(axis));
-  size_t substride = stride / axisSize;
+  size_t substride = ShapedType::getNumElements(shape.drop_front(axis + 1));
   size_t offset = 0;
   SmallVector<int64_t, 4> splitShape(shape.begin(), shape.end());
   splitShape[axis] = 0; // Is set in every iteration.
-- 
2.43.0


From 0765ef1ca347365168e9341fbbc27ea62faa8f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:59 +0000
Subject: [PATCH 56/99] fix: reshape of a constant without elements

---
 src/Dialect/ONNX/ElementsAttr/Strides.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/Strides.cpp b/src/Dialect/ONNX/ElementsAttr/Strides.cpp
index 440b78b..d6a4ea3 100644
--- a/src/Dialect/ONNX/ElementsAttr/Strides.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/Strides.cpp
@@ -64,7 +64,9 @@ std::optional<SmallVector<int64_t, 4>> reshapeStrides(ArrayRef<int64_t> shape,
   assert(ShapedType::getNumElements(shape) ==
          ShapedType::getNumElements(reshapedShape));
 
-  if (areStridesContiguous(shape, strides))
+  // There are no elements to place in an empty tensor, whatever its strides.
+  if (areStridesContiguous(shape, strides) ||
+      ShapedType::getNumElements(shape) == 0)
     return getDefaultStrides(reshapedShape);
 
   assert(ShapedType::getNumElements(shape) > 1 &&
-- 
2.43.0


From 1e8d85d67d93b9a28af341a818d4c7c3f735d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:23 +0000
Subject: [PATCH 57/99] fix: nonzero elements of a constant scalar

---
 .../ONNX/ElementsAttr/ElementsAttrBuilder.cpp     | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index 6ab1a29..4daa7f4 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -1096,25 +1096,28 @@ namespace {
 // TODO: If this is too slow then reimplement in the style of allEqual()
 //       with WideNum instead of APFloat/APInt.
 template <typename AP_TYPE>
-SmallVector<int64_t> nonZeroIndices(ElementsAttr elms) {
+SmallVector<int64_t> nonZeroIndices(ElementsAttr elms, int64_t &count) {
   SmallVector<int64_t> indices;
+  count = 0;
   auto values = elms.getValues<AP_TYPE>();
   for (const auto &idxpos :
       StridesRange<0>(elms.getShapedType().getShape(), {})) {
-    if (!values[idxpos.flattenedIndex].isZero())
+    if (!values[idxpos.flattenedIndex].isZero()) {
       indices.append(idxpos.index.begin(), idxpos.index.end());
+      ++count; // Not given by the size of indices if elms is a scalar.
+    }
   }
   return indices;
 }
 } // namespace
 
 ElementsAttr ElementsAttrBuilder::nonZero(ElementsAttr elms) {
+  int64_t count;
   SmallVector<int64_t> indices = isa<FloatType>(elms.getElementType())
-                                     ? nonZeroIndices<APFloat>(elms)
-                                     : nonZeroIndices<APInt>(elms);
+                                     ? nonZeroIndices<APFloat>(elms, count)
+                                     : nonZeroIndices<APInt>(elms, count);
   int64_t rank = elms.getShapedType().getRank();
-  assert(indices.size() % rank == 0);
-  int64_t count = indices.size() / rank;
+  assert(static_cast<int64_t>(indices.size()) == count * rank);
   Type I64 = IntegerType::get(elms.getContext(), 64);
   // Return transposition from shape [count, rank] to [rank, count].
   auto nonZeroType = RankedTensorType::get({rank, count}, I64);
-- 
2.43.0


From 935ca04fedf940f1721d19bec1e5d2fb6949c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:43 +0000
Subject: [PATCH 58/99] fix: reshape of a constant expanded to no elements

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 6 +++++-
 src/Dialect/ONNX/ElementsAttr/Strides.cpp             | 4 +---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index 4daa7f4..e715b38 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -514,9 +514,13 @@ ElementsAttr ElementsAttrBuilder::reshape(
   if (reshapedShape == shape)
     return elms;
 
+  ShapedType reshapedType = type.clone(reshapedShape);
+  // Without elements there is nothing to reshape, whatever the strides.
+  if (elms.empty())
+    return fromWideNums(reshapedType, [](MutableArrayRef<WideNum>) {});
+
   ElementsProperties props = getElementsProperties(elms);
 
-  ShapedType reshapedType = type.clone(reshapedShape);
   if (auto reshapedStrides =
           reshapeStrides(shape, props.strides, reshapedShape))
     return create(reshapedType, props.bufferBType, *reshapedStrides,
diff --git a/src/Dialect/ONNX/ElementsAttr/Strides.cpp b/src/Dialect/ONNX/ElementsAttr/Strides.cpp
index d6a4ea3..440b78b 100644
--- a/src/Dialect/ONNX/ElementsAttr/Strides.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/Strides.cpp
@@ -64,9 +64,7 @@ std::optional<SmallVector<int64_t, 4>> reshapeStrides(ArrayRef<int64_t> shape,
   assert(ShapedType::getNumElements(shape) ==
          ShapedType::getNumElements(reshapedShape));
 
-  // There are no elements to place in an empty tensor, whatever its strides.
-  if (areStridesContiguous(shape, strides) ||
-      ShapedType::getNumElements(shape) == 0)
+  if (areStridesContiguous(shape, strides))
     return getDefaultStrides(reshapedShape);
 
   assert(ShapedType::getNumElements(shape) > 1 &&
-- 
2.43.0


From de172c0db17cb502e74fddb51897194e239e67b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:43 +0000
Subject: [PATCH 59/99] fix: comparison of a constant without elements

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index e715b38..b9839b4 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -140,6 +140,10 @@ bool ElementsAttrBuilder::equal(ElementsAttr lhs, ElementsAttr rhs) {
 /*static*/
 bool ElementsAttrBuilder::allEqual(
     ElementsAttr lhs, WideNum broadcastedRhsValue) {
+  // No element differs in an empty tensor, whatever its buffer holds.
+  if (lhs.empty())
+    return true;
+
   WideNum n = broadcastedRhsValue;
   return dispatchByBType(
       btypeOfMlirType(lhs.getElementType()), [lhs, n](auto btype) {
-- 
2.43.0


From 81f4150ea519a8068afd01747bcb3f4156e4aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:10 +0000
Subject: [PATCH 60/99] fix: activation_alpha and activation_beta of RNN read
 from a dangling array

---
 src/Conversion/ONNXToKrnl/RNN/RNN.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/RNN/RNN.cpp b/src/Conversion/ONNXToKrnl/RNN/RNN.cpp
index 6e48837..36ef209 100644
--- a/src/Conversion/ONNXToKrnl/RNN/RNN.cpp
+++ b/src/Conversion/ONNXToKrnl/RNN/RNN.cpp
@@ -84,7 +84,7 @@ getActivationPack<ONNXRNNOp, RnnActivationPack>(ONNXRNNOp *op) {
 
   // Get alpha attributes.
   if (activationAlpha) {
-    ArrayRef<Attribute> activationArrAttr = activationAlpha.value();
+    ArrayAttr activationArrAttr = activationAlpha.value();
     if (direction == FORWARD || direction == BIDIRECTIONAL) {
       // Forward activations.
       if (activationArrAttr.size() > 0) {
@@ -104,7 +104,7 @@ getActivationPack<ONNXRNNOp, RnnActivationPack>(ONNXRNNOp *op) {
 
   // Get beta attributes.
   if (activationBeta) {
-    ArrayRef<Attribute> activationArrAttr = activationBeta.value();
+    ArrayAttr activationArrAttr = activationBeta.value();
     if (direction == FORWARD || direction == BIDIRECTIONAL) {
       // Forward activations.
       if (activationArrAttr.size() > 0) {
-- 
2.43.0


From a92fb81cbf0f2d4a42d66d927387f381d56316d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:10 +0000
Subject: [PATCH 61/99] fix: zeroth power of a tensor of dynamic shape

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 824da49..5bde63c 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -1208,6 +1208,9 @@ public:
     ShapedType resultType = mlir::cast<ShapedType>(powOp.getZ().getType());
     Type elementType = getElementType(resultType);
     if (exponent == 0) {
+      // A constant needs a known shape.
+      if (!resultType.hasStaticShape())
+        return failure();
       Attribute one =
           isa<FloatType>(elementType)
               ? static_cast<Attribute>(rewriter.getFloatAttr(elementType, 1.0))
-- 
2.43.0


From 5bfa0ac97db379c4486995c518d6c1e83d3cc48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:03 +0000
Subject: [PATCH 62/99] fix: constant Pad with negative pads

---
 .../ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index b9839b4..6e2894f 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -704,6 +704,27 @@ ElementsAttr ElementsAttrBuilder::pad(
   ShapedType outType = elms.getShapedType().clone(outShape);
   if (elms.empty())
     return splat(outType, padValue);
+  if (llvm::any_of(pads, [](int64_t p) { return p < 0; })) {
+    // Negative pads remove elements: copy the elements that remain.
+    return fromWideNums(outType, [&](MutableArrayRef<WideNum> dst) {
+      std::fill(dst.begin(), dst.end(), padValue);
+      SmallVector<int64_t> outStrides = getDefaultStrides(outShape);
+      SmallVector<int64_t> strides;
+      ArrayBuffer<WideNum> src = getWideNumsAndStrides(elms, strides);
+      for (const auto &idxAndPos : StridesRange<1>(inputShape, {strides})) {
+        int64_t offset = 0;
+        bool remains = true;
+        for (size_t axis = 0; axis < rank; ++axis) {
+          int64_t i =
+              static_cast<int64_t>(idxAndPos.index[axis]) + leftPads[axis];
+          remains &= 0 <= i && i < outShape[axis];
+          offset += i * outStrides[axis];
+        }
+        if (remains)
+          dst[offset] = src.get()[idxAndPos.at(0)];
+      }
+    });
+  }
   return fromWideNums(outType, [&](MutableArrayRef<WideNum> dst) {
     // The following unrolls the recurse(dst.begin(), elms.getValues())
     // recursive algorithm described by the pseudo code:
-- 
2.43.0


From 164d036d81671a6ab36a7debf4621b8bf5345d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:55 +0000
Subject: [PATCH 63/99] fix: uneven split of a tensor into a number of outputs

---
 src/Dialect/ONNX/ONNXOps/Tensor/Split.cpp | 15 +++++++++------
 src/Dialect/ONNX/Transforms/ConstProp.cpp | 14 +++++++++-----
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Tensor/Split.cpp b/src/Dialect/ONNX/ONNXOps/Tensor/Split.cpp
index e53a464..8abc7aa 100644
--- a/src/Dialect/ONNX/ONNXOps/Tensor/Split.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Tensor/Split.cpp
@@ -74,13 +74,16 @@ LogicalResult ONNXCommonSplitOpShapeHelper<OP_TYPE>::customComputeShape(
       return op->emitError("The dimension at the split axis is "
                            "expected to be divisible by the number of results");
 
-    unsigned numBiggerChunks = splitInputDim.isLiteral()
-                                   ? splitInputDim.getLiteral() % numOfResults
-                                   : numOfResults;
+    // All the chunks have the same size, except for the last one which is
+    // smaller when the division is not even.
     for (unsigned int i = 0; i < numOfResults; ++i) {
-      IndexExpr splitDim = (i < numBiggerChunks)
-                               ? splitInputDim.ceilDiv(numOfPartitions)
-                               : splitInputDim.floorDiv(numOfPartitions);
+      IndexExpr splitDim = splitInputDim.ceilDiv(numOfPartitions);
+      if (i == numOfResults - 1 && splitInputDim.isLiteral()) {
+        splitDim = splitInputDim - splitDim * (numOfResults - 1);
+        if (splitDim.getLiteral() < 0)
+          return op->emitError("The dimension at the split axis is too small "
+                               "for the number of results");
+      }
       splitDims.emplace_back(splitDim);
     }
   }
diff --git a/src/Dialect/ONNX/Transforms/ConstProp.cpp b/src/Dialect/ONNX/Transforms/ConstProp.cpp
index dfa51dc..07b9ae1 100644
--- a/src/Dialect/ONNX/Transforms/ConstProp.cpp
+++ b/src/Dialect/ONNX/Transforms/ConstProp.cpp
@@ -1116,11 +1116,15 @@ std::vector<Value> ConstPropSplit(PatternRewriter &rewriter,
   int64_t splitAxisSize = inputShape[axis];
   SmallVector<int64_t> splitSizes(numResults, splitAxisSize / numResults);
   if (isa<NoneType>(split.getType())) {
-    // If split attribute is not specified, split size is equally divided.
-    // TODO: Follow the onnx spec which is more relaxed (albeit incomplete).
-    assert(splitAxisSize % numResults == 0 &&
-           "The dimension at the split axis is expected to be divisible by "
-           "the number of results");
+    // If split attribute is not specified, split size is equally divided, except
+    // for the last one which is smaller when the division is not even.
+    if (splitAxisSize % numResults != 0) {
+      int64_t chunk = splitAxisSize / numResults + 1;
+      int64_t last = splitAxisSize - chunk * (numResults - 1);
+      assert(last >= 0 && "too many results for the size of the axis");
+      splitSizes.assign(numResults, chunk);
+      splitSizes.back() = last;
+    }
   } else {
     ElementsAttr splitElements = getConstValueElements(split);
     assert(splitElements.size() == numResults &&
-- 
2.43.0


From d8201303ab0a968bce51847f8e7bdf378f2c448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:16 +0000
Subject: [PATCH 64/99] fix: ScatterND with indices of any depth

---
 src/Conversion/ONNXToKrnl/Tensor/ScatterND.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/Tensor/ScatterND.cpp b/src/Conversion/ONNXToKrnl/Tensor/ScatterND.cpp
index 2a585da..bf0d836 100644
--- a/src/Conversion/ONNXToKrnl/Tensor/ScatterND.cpp
+++ b/src/Conversion/ONNXToKrnl/Tensor/ScatterND.cpp
@@ -86,11 +86,13 @@ struct ONNXScatterNDOpLowering : public OpConversionPattern<ONNXScatterNDOp> {
 
           // Access function for the output. Let r=rank(data), q=rank(indices).
           // The first indices.shape[-1] indexes are given by looking up the
-          // 'indices' tensor. The remaining (r-q-1) indexes are given by the
-          // loop iteration space.
+          // 'indices' tensor. The remaining indexes are given by the loop
+          // iteration space. As rank(updates) = q + r - indices.shape[-1] - 1,
+          // the ranks tell how many there are.
           DimsExpr outputAccessFct;
-          for (unsigned i = 0; i < dataRank; ++i) {
-            if (i < indicesRank - 1) {
+          int64_t numLookups = indicesRank + dataRank - updatesRank - 1;
+          for (int64_t i = 0; i < dataRank; ++i) {
+            if (i < numLookups) {
               IndexExpr ind = LitIE(i);
               DimsExpr indicesAccessFct(indicesAccessFctFirst);
               indicesAccessFct.emplace_back(ind);
@@ -99,7 +101,7 @@ struct ONNXScatterNDOpLowering : public OpConversionPattern<ONNXScatterNDOp> {
               outputAccessFct.emplace_back(index);
             } else {
               IndexExpr index =
-                  SymIE(loopInd[std::min<unsigned>(i, loopInd.size() - 1)]);
+                  SymIE(loopInd[indicesRank - 1 + i - numLookups]);
               outputAccessFct.emplace_back(index);
             }
           }
-- 
2.43.0


From 9d02b79ad0b6e2c8221dfd96be8de6ca7f0f648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:14 +0000
Subject: [PATCH 65/99] fix: Clip of constant integers without bounds

---
 src/Dialect/ONNX/Transforms/ConstProp.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/Transforms/ConstProp.cpp b/src/Dialect/ONNX/Transforms/ConstProp.cpp
index 07b9ae1..7eedb6e 100644
--- a/src/Dialect/ONNX/Transforms/ConstProp.cpp
+++ b/src/Dialect/ONNX/Transforms/ConstProp.cpp
@@ -173,7 +173,10 @@ Value createMaximumValueForClip(
     return value;
 
   return getClipConstantOfType(rewriter, type, value.getLoc(),
-      llvm::APFloat::getLargest, false, llvm::APInt::getMaxValue);
+      llvm::APFloat::getLargest, false,
+      type.getElementType().isUnsignedInteger()
+          ? llvm::APInt::getMaxValue
+          : llvm::APInt::getSignedMaxValue);
 }
 
 Value createMinimumValueForClip(
@@ -184,7 +187,10 @@ Value createMinimumValueForClip(
     return value;
 
   return getClipConstantOfType(rewriter, type, value.getLoc(),
-      llvm::APFloat::getLargest, true, llvm::APInt::getMinValue);
+      llvm::APFloat::getLargest, true,
+      type.getElementType().isUnsignedInteger()
+          ? llvm::APInt::getMinValue
+          : llvm::APInt::getSignedMinValue);
 }
 
 // Extracts number from a scalar constant value.
-- 
2.43.0


From aa0a03beb37527ea70545a58f959fb65dfeadf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:09 +0000
Subject: [PATCH 66/99] fix: ConvTranspose with pads larger than the kernel

---
 src/Dialect/ONNX/Transforms/Decompose.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/Dialect/ONNX/Transforms/Decompose.cpp b/src/Dialect/ONNX/Transforms/Decompose.cpp
index 1f6970a..977a801 100644
--- a/src/Dialect/ONNX/Transforms/Decompose.cpp
+++ b/src/Dialect/ONNX/Transforms/Decompose.cpp
@@ -466,6 +466,21 @@ struct DecomposeConvTransposePattern
       upsamplePads.push_back(padRight);
     }
 
+    // UpsampleAndPad cannot remove elements: the negative pads, of explicit pads
+    // larger than the extent of the kernel, are cropped afterwards.
+    SmallVector<int64_t, 4> cropAxes, cropStarts, cropEnds;
+    for (int64_t i = 0; i < spatialRank; ++i) {
+      int64_t &padLeft = upsamplePads[i];
+      int64_t &padRight = upsamplePads[i + spatialRank];
+      if (padLeft >= 0 && padRight >= 0)
+        continue;
+      cropAxes.push_back(2 + i);
+      cropStarts.push_back(padLeft < 0 ? -padLeft : 0);
+      cropEnds.push_back(padRight < 0 ? padRight : INT64_MAX);
+      padLeft = std::max<int64_t>(padLeft, 0);
+      padRight = std::max<int64_t>(padRight, 0);
+    }
+
     // Create UpsampleAndPad operation.
     ArrayAttr stridesAttr = rewriter.getI64ArrayAttr(strides);
     ArrayAttr padsAttr = rewriter.getI64ArrayAttr(upsamplePads);
@@ -473,6 +488,14 @@ struct DecomposeConvTransposePattern
     Type xUpType = UnrankedTensorType::get(xType.getElementType());
     Value xUp = ONNXUpsampleAndPadOp::create(
         rewriter, loc, xUpType, X, stridesAttr, padsAttr);
+    if (!cropAxes.empty()) {
+      SmallVector<int64_t, 4> cropSteps(cropAxes.size(), 1);
+      xUp = create.onnx.slice(xUpType, xUp,
+          create.onnx.constantInt64(cropStarts),
+          create.onnx.constantInt64(cropEnds),
+          create.onnx.constantInt64(cropAxes),
+          create.onnx.constantInt64(cropSteps));
+    }
 
     // Step 3: Weight transformation.
     // Weight shape: (Cin, Cout_per_group, kH, kW, ...)
-- 
2.43.0


From 16c9e37f4053c6309d7ee06690c38e9942ea637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:23 +0000
Subject: [PATCH 67/99] fix: CumSum along an axis of one element

---
 src/Conversion/ONNXToKrnl/Math/CumSum.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Conversion/ONNXToKrnl/Math/CumSum.cpp b/src/Conversion/ONNXToKrnl/Math/CumSum.cpp
index 017d4f2..de0296c 100644
--- a/src/Conversion/ONNXToKrnl/Math/CumSum.cpp
+++ b/src/Conversion/ONNXToKrnl/Math/CumSum.cpp
@@ -138,7 +138,9 @@ struct ONNXCumSumOpLowering : public OpConversionPattern<ONNXCumSumOp> {
     IndexExpr numberOfStep;
     if (axisSize.isLiteral()) {
       int64_t n = axisSize.getLiteral();
-      int64_t logN = static_cast<int64_t>(std::ceil(std::log2(n)));
+      // At least one step, as the steps are what writes the result.
+      int64_t logN =
+          n <= 2 ? 1 : static_cast<int64_t>(std::ceil(std::log2(n)));
       numberOfStep = LitIE(logN);
     } else {
       Value nos = create.math.cast(f32Ty, axisSize.getValue());
-- 
2.43.0


From 40badadc92a3aabddc37526464508e0fe9db5b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:22 +0000
Subject: [PATCH 68/99] fix: cast of a constant bool to a signed integer

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index 6e2894f..d0c4d51 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -408,7 +408,10 @@ ElementsAttr ElementsAttrBuilder::castToIntElementType(
     //
     // TODO: Add configuration options to support other behaviors.
     //       See https://github.com/onnx/onnx-mlir/issues/2209
-    if (newElementType.isUnsigned() != oldElementType.isUnsignedInteger()) {
+    // Bool counts as unsigned here: its numbers are wide unsigned ones.
+    bool fromUnsigned =
+        oldElementType.isUnsignedInteger() || oldElementType.isInteger(1);
+    if (newElementType.isUnsigned() != fromUnsigned) {
       // DisposableElementsAttr requires transformation between integers with
       // different signs.
       // TODO: Consider relaxing the requirement and omit this transformation.
-- 
2.43.0


From c3e29d15ad2d6b212cf8f4a6f0ab07e50768d8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:36 +0000
Subject: [PATCH 69/99] fix: MatMul broadcasting a batch dimension of one

---
 src/Conversion/ONNXToKrnl/Math/MatMul.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Conversion/ONNXToKrnl/Math/MatMul.cpp b/src/Conversion/ONNXToKrnl/Math/MatMul.cpp
index c1965b0..770a034 100644
--- a/src/Conversion/ONNXToKrnl/Math/MatMul.cpp
+++ b/src/Conversion/ONNXToKrnl/Math/MatMul.cpp
@@ -72,6 +72,14 @@ struct ONNXMatMulOpLowering : public OpConversionPattern<ONNXMatMulOp> {
     loopUbs.emplace_back(innerUb);
     SmallVector<Value, 1> innerLoop{loopDef[totLoopNum - 1]}; // Last loop def.
                                                               //
+    // A batch dimension of one is broadcast to that of the other operand.
+    const DimsExpr &aDims = shapeHelper.aDims;
+    const DimsExpr &bDims = shapeHelper.bDims;
+    auto isBroadcast = [&](const IndexExpr &dim, int i) {
+      return dim.isLiteralAndIdenticalTo(1) &&
+             !shapeHelper.getOutputDims()[i].isLiteralAndIdenticalTo(1);
+    };
+
     if (enableParallel)
       tryCreateKrnlParallel(create.krnl, op, "matmul generic", outerLoops,
           loopLbs, loopUbs, 0, 1, {}, /*min iter for going parallel*/ 16);
@@ -100,6 +108,8 @@ struct ONNXMatMulOpLowering : public OpConversionPattern<ONNXMatMulOp> {
                     // For A, reduction index is last
                     if (i == aRank - 1) {
                       aAccessFct.emplace_back(k);
+                    } else if (i < aRank - 2 && isBroadcast(aDims[i], i)) {
+                      aAccessFct.emplace_back(create.math.constantIndex(0));
                     } else {
                       aAccessFct.emplace_back(outerIndices[i]);
                     }
@@ -108,6 +118,8 @@ struct ONNXMatMulOpLowering : public OpConversionPattern<ONNXMatMulOp> {
                     // For B, reduction index is second to last.
                     if (i == bRank - 2) {
                       bAccessFct.emplace_back(k);
+                    } else if (i < bRank - 2 && isBroadcast(bDims[i], i)) {
+                      bAccessFct.emplace_back(create.math.constantIndex(0));
                     } else if (i == outerLoopNum) {
                       // When the rank of A 1D, then the output lost one
                       // dimension. E,g, (5) x (10, 5, 4) -> padded (1, 5) x
-- 
2.43.0


From b5d3658349fa130f2fbc047bdac7a373d4390f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:36 +0000
Subject: [PATCH 70/99] fix: fusion of Mean, and of Max, Min and Sum of other
 than two tensors

---
 src/Conversion/ONNXToKrnl/Math/Elementwise.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Conversion/ONNXToKrnl/Math/Elementwise.cpp b/src/Conversion/ONNXToKrnl/Math/Elementwise.cpp
index 9e76816..6fe8420 100644
--- a/src/Conversion/ONNXToKrnl/Math/Elementwise.cpp
+++ b/src/Conversion/ONNXToKrnl/Math/Elementwise.cpp
@@ -1843,6 +1843,14 @@ bool OpFusionHelper::areInputsValidForFusion(
           useOp->getOperands(), [](Value v) { return isScalarTensor(v); }))
     return false;
 
+  // The scalar function of a variadic operation combines two numbers, and that
+  // of the mean leaves the division to the post processing.
+  if (isa<ONNXMeanOp>(useOp))
+    return false;
+  if (isa<ONNXMaxOp, ONNXMinOp, ONNXSumOp>(useOp) &&
+      useOp->getOperands().size() != 2)
+    return false;
+
   // Elementwise unary operation is always fusible
   if (useOp->getOperands().size() == 1)
     return true;
-- 
2.43.0


From dfb1e2b8b0b6ec8ccee5a206b3747bd11b378097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:19 +0000
Subject: [PATCH 71/99] fix: reduction of a scalar at -O3

---
 src/Conversion/ONNXToKrnl/Math/Reduction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion/ONNXToKrnl/Math/Reduction.cpp b/src/Conversion/ONNXToKrnl/Math/Reduction.cpp
index 6888ae9..cb46f99 100644
--- a/src/Conversion/ONNXToKrnl/Math/Reduction.cpp
+++ b/src/Conversion/ONNXToKrnl/Math/Reduction.cpp
@@ -701,7 +701,7 @@ struct ONNXReductionOpLowering : public OpConversionPattern<ONNXReductionOp> {
     // Reduction over all dimensions to a scalar value.
     bool fullReduction =
         hasNoAxes || (rawAxesIE.size() == static_cast<uint64_t>(inRank));
-    if (fullReduction && !isKeepdims && enableSIMD) {
+    if (fullReduction && !isKeepdims && enableSIMD && inRank > 0) {
       Value alloc, none;
       if (emitFullSIMDReductionFor<ONNXReductionOp, ONNXNoneOp>(rewriter, loc,
               op, input, nullptr, nullptr, alloc, none, enableParallel)) {
-- 
2.43.0


From b19b72463b801bf52d8c185af0c368d2cdee9516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:13 +0000
Subject: [PATCH 72/99] fix: MatMul of a matrix of known and a vector of
 unknown size

---
 src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp b/src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp
index cb781e3..9697f65 100644
--- a/src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp
@@ -143,7 +143,7 @@ LogicalResult ONNXGenericMatMulOpShapeHelper<OP_TYPE>::computeShape() {
     // Save aK dims into bK dims, in case bK dims was runtime.
     bDims[bK] = aDims[aK];
     // Update bK dim to the literal aK.
-    this->updateInputDimAt(B, aDims[aK].getLiteral(), -2);
+    this->updateInputDimAt(B, aDims[aK].getLiteral(), bRank == 1 ? -1 : -2);
   } else if (bDims[bK].isLiteral()) {
     // Save bK dims into aK dims, in case aK dims was runtime.
     aDims[aK] = bDims[bK];
-- 
2.43.0


From 45403c5c681f50c229e0c566f965ae2f35be195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:46 +0000
Subject: [PATCH 73/99] fix: identity of constants on tensors of unknown rank

---
 src/Dialect/ONNX/Transforms/ConstProp.td | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/Transforms/ConstProp.td b/src/Dialect/ONNX/Transforms/ConstProp.td
index f2547cf..bd37dbd 100644
--- a/src/Dialect/ONNX/Transforms/ConstProp.td
+++ b/src/Dialect/ONNX/Transforms/ConstProp.td
@@ -89,8 +89,8 @@ def IsNotScalar: Constraint<
   "Value is not a scalar value">;
 
 def ValuesHaveSameType : Constraint<
-  CPred<"$0.getType() == $1.getType()">,
-  "Values have same type">;
+  CPred<"$0.getType() == $1.getType() && onnx_mlir::isRankedShapedType($0.getType())">,
+  "Values have same, ranked type">;
 
 def IsMatMulIntegerLhsZero: Constraint<
     CPred<"isMatMulIntegerLhsZero($0, $1)">,
-- 
2.43.0


From 77d1135a476ff19ed8e2ccef9b39c99fcb942fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:07 +0000
Subject: [PATCH 74/99] fix: decomposition of the older reductions without the
 hybrid pass

ReduceLogSumV13, ReduceLogSumExpV13 and ReduceSumSquareV13 have patterns but
were legal in the stand-alone pass, which so left them.
---
 src/Dialect/ONNX/Transforms/Decompose.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Dialect/ONNX/Transforms/Decompose.cpp b/src/Dialect/ONNX/Transforms/Decompose.cpp
index 977a801..d80ffaa 100644
--- a/src/Dialect/ONNX/Transforms/Decompose.cpp
+++ b/src/Dialect/ONNX/Transforms/Decompose.cpp
@@ -1683,10 +1683,13 @@ void DecomposeONNXToONNXPass::runOnOperation() {
   target.addIllegalOp<ONNXReduceL2Op>();
   target.addIllegalOp<ONNXReduceL2V13Op>();
   target.addIllegalOp<ONNXReduceLogSumExpOp>();
+  target.addIllegalOp<ONNXReduceLogSumExpV13Op>();
   target.addIllegalOp<ONNXReduceLogSumOp>();
+  target.addIllegalOp<ONNXReduceLogSumV13Op>();
   target.addIllegalOp<ONNXReduceMaxV18Op>();
   target.addIllegalOp<ONNXReduceMinV18Op>();
   target.addIllegalOp<ONNXReduceSumSquareOp>();
+  target.addIllegalOp<ONNXReduceSumSquareV13Op>();
   target.addIllegalOp<ONNXResizeV10Op>();
   target.addIllegalOp<ONNXResizeV11Op>();
   target.addIllegalOp<ONNXResizeV13Op>();
-- 
2.43.0


From 620c1efb5fd9a2d4bebf3c9bee39fef3bffb6ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:25 +0000
Subject: [PATCH 75/99] fix: outputs of a model that share a buffer

The ownership of buffers was determined for each output alone, so that two
outputs that are the same value, or views of it, were freed twice.
---
 .../KrnlToLLVM/ConvertKrnlToLLVM.cpp          | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp b/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp
index c517820..08c96cb 100644
--- a/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp
+++ b/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp
@@ -124,6 +124,27 @@ static bool shouldOwn(Value v) {
   return result;
 }
 
+// Return the value that defines the buffer v refers to, looking through views.
+static Value getUnderlyingBuffer(Value v) {
+  while (auto viewOp = v.getDefiningOp<ViewLikeOpInterface>())
+    v = viewOp.getViewSource();
+  return v;
+}
+
+// Return a copy of the buffer v, allocated before op.
+static Value copyBuffer(Operation *op, Value v) {
+  OpBuilder builder(op);
+  Location loc = op->getLoc();
+  MemRefType type = mlir::cast<MemRefType>(v.getType());
+  SmallVector<Value, 4> dynamicSizes;
+  for (int64_t i = 0; i < type.getRank(); ++i)
+    if (type.isDynamicDim(i))
+      dynamicSizes.emplace_back(memref::DimOp::create(builder, loc, v, i));
+  Value copy = memref::AllocOp::create(builder, loc, type, dynamicSizes);
+  memref::CopyOp::create(builder, loc, v, copy);
+  return copy;
+}
+
 void determineOwnershipForOutputOMTensors(
     ModuleOp &module, SmallVectorImpl<bool> &outputOMTensorOwnerships) {
   Operation *entryPointOp;
@@ -170,8 +191,13 @@ void determineOwnershipForOutputOMTensors(
 
   // Check, for each output, if it was transitively produced by a constant or
   // a block argument.
-  for (Value v : returnOp->getOperands()) {
+  llvm::SmallPtrSet<Value, 4> ownedBuffers;
+  for (OpOperand &operand : returnOp->getOpOperands()) {
+    Value v = operand.get();
     bool shouldOwnResult = shouldOwn(v);
+    // A buffer has a single owner: another output that shares it gets a copy.
+    if (shouldOwnResult && !ownedBuffers.insert(getUnderlyingBuffer(v)).second)
+      operand.set(copyBuffer(returnOp, v));
     outputOMTensorOwnerships.emplace_back(shouldOwnResult);
     LLVM_DEBUG(llvm::dbgs()
                << "Should the OMTensor own the entry function output? "
-- 
2.43.0


From 27134e3aac63a517cd50c3017a8f046209d9d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:06 +0000
Subject: [PATCH 76/99] fix: max and min of literal index expressions keep what
 was computed for the old value

---
 src/Dialect/Mlir/IndexExprDetail.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Dialect/Mlir/IndexExprDetail.cpp b/src/Dialect/Mlir/IndexExprDetail.cpp
index ccbd319..ac106d5 100644
--- a/src/Dialect/Mlir/IndexExprDetail.cpp
+++ b/src/Dialect/Mlir/IndexExprDetail.cpp
@@ -516,12 +516,18 @@ void IndexExprImpl::setLiteral(int64_t val) {
   assert(isLiteral() && "set literal allowed only for literal index expr ");
   assert(!isFloatType() && "cannot set int value for float index expr");
   intLit = val;
+  // Forget what was computed for the previous value.
+  affineExpr = nullptr;
+  value = nullptr;
 }
 
 void IndexExprImpl::setLiteral(double val) {
   assert(isLiteral() && "set literal allowed only for literal index expr ");
   assert(isFloatType() && "cannot set float value for int index expr");
   floatLit = val;
+  // Forget what was computed for the previous value.
+  affineExpr = nullptr;
+  value = nullptr;
 }
 
 void IndexExprImpl::setLiteral(const IndexExprImpl &obj) {
-- 
2.43.0


From ae75dc027a2e1257ea8f62f6454d1d0f351d4ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:06 +0000
Subject: [PATCH 77/99] fix: epsilon of a recomposed layer normalization

---
 src/Dialect/ONNX/Transforms/Recompose.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Dialect/ONNX/Transforms/Recompose.cpp b/src/Dialect/ONNX/Transforms/Recompose.cpp
index 6b25450..eaee804 100644
--- a/src/Dialect/ONNX/Transforms/Recompose.cpp
+++ b/src/Dialect/ONNX/Transforms/Recompose.cpp
@@ -274,11 +274,11 @@ struct RecomposeLayerNormFromMulPattern : public OpRewritePattern<ONNXMulOp> {
     // Now check values epsilon.
     if (!isScalarTensor(epsilon))
       return reportFailure("RMS epsilon is expected to be scalar");
-    ONNXConstantOp epsilonOp =
-        mlir::dyn_cast<ONNXConstantOp>(epsilon.getDefiningOp());
+    ONNXConstantOp epsilonOp = epsilon.getDefiningOp<ONNXConstantOp>();
     if (!epsilonOp)
       return reportFailure("RMS epsilon needs to be a constant");
-    epsilonAttr = epsilonOp.getValueFloatAttr();
+    epsilonAttr = FloatAttr::get(Float32Type::get(epsilonOp.getContext()),
+        getScalarValue<double>(epsilonOp));
     // Check axes.
     if (!hasShapeAndRank(dd))
       return reportFailure("RMS need rank and shape for input dd");
-- 
2.43.0


From 6c9ebc363e3e39423feb0f88cc1e28118f44e024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:06 +0000
Subject: [PATCH 78/99] fix: Gather of a concatenated shape with a negative
 index

---
 .../ONNX/Transforms/SimplifyShapeRelatedOps.cpp      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp b/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp
index 230a063..6e47887 100644
--- a/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp
+++ b/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp
@@ -247,19 +247,19 @@ public:
 
     // Rewrite
     MultiDialectBuilder<OnnxBuilder> create(rewriter, loc);
-    int64_t inputRank = getRank(input.getType());
+    SmallVector<Value, 4> dims;
+    getDims(input, dims);
+    int64_t numOfDims = dims.size();
 
     // Compute integer indices.
     SmallVector<int64_t, 4> indicesI64;
     for (auto element : indicesAttr.getValues<IntegerAttr>()) {
-      int64_t axis = element.getInt();
-      axis = (axis < 0) ? (axis + inputRank) : axis;
-      indicesI64.emplace_back(axis);
+      int64_t index = element.getInt();
+      index = (index < 0) ? (index + numOfDims) : index;
+      indicesI64.emplace_back(index);
     }
 
     // Replace GatherOp by ConcatOp of specific dimensions.
-    SmallVector<Value, 4> dims;
-    getDims(input, dims);
     SmallVector<Value> castedDims;
     SmallVector<Value> gatherDims;
     for (int64_t i : indicesI64)
-- 
2.43.0


From 6f9d0c6ba0f0845e3d9afe77bcb8995a3e137ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:06 +0000
Subject: [PATCH 79/99] fix: upper bound of two consecutive Clips

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 18 ++++++++++++++++++
 src/Dialect/ONNX/ONNXOps/Canonicalize.td  |  8 ++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 5bde63c..c573dfa 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -164,6 +164,24 @@ Value minOrDefault(PatternRewriter &rewriter, Location loc, Value a, Value b) {
   return ONNXMinOp::create(rewriter, loc, a.getType(), ValueRange{a, b});
 }
 
+// Upper bound of Clip(Clip(x, _, max1), min2, max2). The second clip raises
+// what the first one has limited to max1 up to min2, so that the bound is
+// min(max(max1, min2), max2). It is min(max1, max2) when min2 is not above max1.
+Value fusedClipMax(PatternRewriter &rewriter, Location loc, Value max1,
+    Value min2, Value max2) {
+  if (mlir::isa<NoneType>(max1.getType()))
+    return max2;
+  if (!mlir::isa<NoneType>(min2.getType())) {
+    auto max1Op = max1.getDefiningOp<ONNXConstantOp>();
+    auto min2Op = min2.getDefiningOp<ONNXConstantOp>();
+    if (!max1Op || !min2Op ||
+        !mlir::isa<FloatType>(getElementType(max1.getType())) ||
+        getScalarValue<double>(min2Op) > getScalarValue<double>(max1Op))
+      max1 = maxOrDefault(rewriter, loc, max1, min2);
+  }
+  return minOrDefault(rewriter, loc, max1, max2);
+}
+
 // Create a DenseElementsAttr based on the shape of type.
 DenseElementsAttr createDenseElementsAttrFromShape(PatternRewriter &rewriter,
     Value value, int64_t start = 0, std::optional<int64_t> end = std::nullopt) {
diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.td b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
index 52f0225..ad9880f 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.td
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
@@ -1092,8 +1092,8 @@ def LessOpSameCastPattern: Pat<
 def maxOrDefault: NativeCodeCall<
   "onnx_mlir::maxOrDefault($_builder, $_loc, $0, $1)">;
 
-def minOrDefault: NativeCodeCall<
-  "onnx_mlir::minOrDefault($_builder, $_loc, $0, $1)">;
+def fusedClipMax: NativeCodeCall<
+  "onnx_mlir::fusedClipMax($_builder, $_loc, $0, $1, $2)">;
 
 // Fuse two consecutive ONNXClipOps into one.
 def FuseConsecutiveClipsPattern : Pat<
@@ -1101,9 +1101,9 @@ def FuseConsecutiveClipsPattern : Pat<
   (ONNXClipOp:$res (ONNXClipOp $input, $min1, $max1), $min2, $max2),
   // This pattern will be handled by the rewrite rule (in C++).
   (ONNXClipOp $input, 
-   // Call maxOrDefault and minOrDefault in the rewrite
+   // Call maxOrDefault and fusedClipMax in the rewrite
    (maxOrDefault $min1, $min2), 
-   (minOrDefault $max1, $max2))
+   (fusedClipMax $max1, $min2, $max2))
 >;
 
 //===----------------------------------------------------------------------===//
-- 
2.43.0


From 687c54df0bbe04f6aa91860cb6ce37dd3f3b0532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:06 +0000
Subject: [PATCH 80/99] fix: additions that broadcast a matrix product are not
 fused into Gemm

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 29 +++++++++++++++++++++++
 src/Dialect/ONNX/ONNXOps/Canonicalize.td  |  8 +++++--
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index c573dfa..bc45ce3 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -182,6 +182,35 @@ Value fusedClipMax(PatternRewriter &rewriter, Location loc, Value max1,
   return minOrDefault(rewriter, loc, max1, max2);
 }
 
+// Whether 'c' can be the third operand of a Gemm of 'a' and 'b', that is, adding
+// 'c' to the [M, N] product of 'a' and 'b' broadcasts 'c' and not the product.
+bool isGemmBias(
+    Value c, Value a, Value b, bool transA = false, bool transB = false) {
+  if (!hasShapeAndRank(a) || !hasShapeAndRank(b) || !hasShapeAndRank(c))
+    return false;
+  ArrayRef<int64_t> aShape = getShape(a.getType());
+  ArrayRef<int64_t> bShape = getShape(b.getType());
+  ArrayRef<int64_t> cShape = getShape(c.getType());
+  if (aShape.size() < 2 || bShape.size() < 2 || cShape.size() > 2)
+    return false;
+  int64_t mn[2] = {aShape[aShape.size() - (transA ? 1 : 2)],
+      bShape[bShape.size() - (transB ? 2 : 1)]};
+  for (size_t i = 0; i < cShape.size(); ++i) {
+    int64_t cDim = cShape[cShape.size() - 1 - i];
+    int64_t dim = mn[1 - i];
+    // A dimension of the product that is or may be one would be broadcast.
+    if (cDim != 1 && (ShapedType::isDynamic(dim) || dim == 1))
+      return false;
+  }
+  return true;
+}
+
+bool isGemmBias(Value c, Value gemm) {
+  auto op = gemm.getDefiningOp<ONNXGemmOp>();
+  return op && isGemmBias(
+                   c, op.getA(), op.getB(), op.getTransA(), op.getTransB());
+}
+
 // Create a DenseElementsAttr based on the shape of type.
 DenseElementsAttr createDenseElementsAttrFromShape(PatternRewriter &rewriter,
     Value value, int64_t start = 0, std::optional<int64_t> end = std::nullopt) {
diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.td b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
index ad9880f..d931d60 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.td
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
@@ -148,6 +148,10 @@ def CreateNoneValue : NativeCodeCall<"ONNXNoneOp::create($_builder, $_loc).getRe
 
 def HasOneUse : Constraint<CPred<"$0.hasOneUse()">>;
 
+def IsGemmBias : Constraint<CPred<"onnx_mlir::isGemmBias($0, $1, $2)">>;
+
+def IsGemmBiasOf : Constraint<CPred<"onnx_mlir::isGemmBias($0, $1)">>;
+
 def HasNoneType : Constraint<CPred<"mlir::isa<NoneType>($0.getType())">>;
 
 def NotNoneType : Constraint<CPred<"!mlir::isa<NoneType>(($0.getType()))">>;
@@ -305,12 +309,12 @@ def GemmTransB : NativeCodeCall<"IntegerAttr::get($_builder.getIntegerType(64, /
 // onnx.add(onnx.matmul(%X, %Y), %Z) = onnx.Gemm(%X, %Y, %Z)
 def MulAddToGemmOptPattern : Pat<(ONNXAddOp (ONNXMatMulOp:$res $m1, $m2), $m3),
                                  (ONNXGemmOp $m1, $m2, $m3, (GemmAlpha), (GemmBeta), (GemmTransA), (GemmTransB)),
-                                 [(HasOneUse $res), (HasRankOf<2> $m1), (HasRankOf<2> $m2)]>;
+                                 [(HasOneUse $res), (HasRankOf<2> $m1), (HasRankOf<2> $m2), (IsGemmBias $m3, $m1, $m2)]>;
 
 // onnx.add(onnx.Gemm(%X, %Y, None), %Z) = onnx.Gemm(%X, %Y, %Z) {beta=1.0}
 def FuseGemmFollowedByAddition : Pat<(ONNXAddOp (ONNXGemmOp:$res $m1, $m2, $none, $alpha, $beta, $transA, $transB), $bias),
                                      (ONNXGemmOp $m1, $m2, $bias, $alpha, (GemmBeta), $transA, $transB),
-                                     [(HasOneUse $res), (HasNoneType $none)]>;
+                                     [(HasOneUse $res), (HasNoneType $none), (IsGemmBiasOf $bias, $res)]>;
 
 //===----------------------------------------------------------------------===//
 // This is to fuse the composition: 'Add o Conv' into 'Conv' if the other input
-- 
2.43.0


From 229c9866a5af193602861c275f8d9e35b9e722d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:06 +0000
Subject: [PATCH 81/99] fix: a constant of one channel is not the bias of a
 Conv of many

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 10 ++++++++++
 src/Dialect/ONNX/ONNXOps/Canonicalize.td  |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index bc45ce3..4b32fef 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -211,6 +211,16 @@ bool isGemmBias(Value c, Value gemm) {
                    c, op.getA(), op.getB(), op.getTransA(), op.getTransB());
 }
 
+// Whether the size of the first dimension of both values is the same.
+bool haveSameStaticFirstDim(Value a, Value b) {
+  if (!hasShapeAndRank(a) || !hasShapeAndRank(b))
+    return false;
+  ArrayRef<int64_t> aShape = getShape(a.getType());
+  ArrayRef<int64_t> bShape = getShape(b.getType());
+  return !aShape.empty() && !bShape.empty() &&
+         !ShapedType::isDynamic(aShape[0]) && aShape[0] == bShape[0];
+}
+
 // Create a DenseElementsAttr based on the shape of type.
 DenseElementsAttr createDenseElementsAttrFromShape(PatternRewriter &rewriter,
     Value value, int64_t start = 0, std::optional<int64_t> end = std::nullopt) {
diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.td b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
index d931d60..643f0aa 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.td
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
@@ -152,6 +152,8 @@ def IsGemmBias : Constraint<CPred<"onnx_mlir::isGemmBias($0, $1, $2)">>;
 
 def IsGemmBiasOf : Constraint<CPred<"onnx_mlir::isGemmBias($0, $1)">>;
 
+def HaveSameStaticFirstDim : Constraint<CPred<"onnx_mlir::haveSameStaticFirstDim($0, $1)">>;
+
 def HasNoneType : Constraint<CPred<"mlir::isa<NoneType>($0.getType())">>;
 
 def NotNoneType : Constraint<CPred<"!mlir::isa<NoneType>(($0.getType()))">>;
@@ -356,6 +358,7 @@ def FuseAddConvNullBiasPattern: Pat<
    (AttributeIsNotNull:$denseAttr),
    (RankXMinusRankYIs<1> $res, $y),
    (HasRankGT<0> $y),
+   (HaveSameStaticFirstDim $y, $w),
    (AllDimsFromAxisToEndAre<1, 1>:$y),
    ]
 >;
@@ -380,6 +383,7 @@ def FuseAddConvPattern: Pat<
    (AttributeIsNotNull:$denseAttr),
    (RankXMinusRankYIs<1> $res, $y),
    (HasRankGT<0> $y),
+   (HaveSameStaticFirstDim $y, $w),
    (AllDimsFromAxisToEndAre<1, 1>:$y)]
 >;
 
-- 
2.43.0


From e2d0cd4cb3b9ba36717d0268ff523f81e4cbfec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:06 +0000
Subject: [PATCH 82/99] fix: comparisons of floating point numbers cast to
 integers keep the casts

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 9 +++++++++
 src/Dialect/ONNX/ONNXOps/Canonicalize.td  | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 4b32fef..f913ce8 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -221,6 +221,15 @@ bool haveSameStaticFirstDim(Value a, Value b) {
          !ShapedType::isDynamic(aShape[0]) && aShape[0] == bShape[0];
 }
 
+// Whether casting from the first type to the second one maps different values
+// to different values, rounding large integers to floating point excepted.
+bool castKeepsOrder(Type from, Type to) {
+  Type f = getElementType(from), t = getElementType(to);
+  if (mlir::isa<FloatType>(f))
+    return mlir::isa<FloatType>(t);
+  return mlir::isa<FloatType>(t) || !f.isUnsignedInteger();
+}
+
 // Create a DenseElementsAttr based on the shape of type.
 DenseElementsAttr createDenseElementsAttrFromShape(PatternRewriter &rewriter,
     Value value, int64_t start = 0, std::optional<int64_t> end = std::nullopt) {
diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.td b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
index 643f0aa..a2ac1fa 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.td
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
@@ -154,6 +154,8 @@ def IsGemmBiasOf : Constraint<CPred<"onnx_mlir::isGemmBias($0, $1)">>;
 
 def HaveSameStaticFirstDim : Constraint<CPred<"onnx_mlir::haveSameStaticFirstDim($0, $1)">>;
 
+def CastKeepsOrder : Constraint<CPred<"onnx_mlir::castKeepsOrder($0.getType(), $1.getType())">>;
+
 def HasNoneType : Constraint<CPred<"mlir::isa<NoneType>($0.getType())">>;
 
 def NotNoneType : Constraint<CPred<"!mlir::isa<NoneType>(($0.getType()))">>;
@@ -1090,6 +1092,7 @@ def LessOpSameCastPattern: Pat<
    (ONNXLessOp $a, $b),
    [(HaveSameElementType $a, $b), (Equal $saturate1, $saturate2), (Equal $to1, $to2),
     (HaveSameElementTypeBitWidth $a, $cast_a),
+    (CastKeepsOrder $a, $cast_a),
     (ElementTypeIsNotUnsigned:$cast_a)]
 >;
 
-- 
2.43.0


From e675a8ed9b8814ba7878c09d187d081c2f16fc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:06 +0000
Subject: [PATCH 83/99] fix: fusing two Reshapes creates no operation when it
 fails

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 69 +++++++++++------------
 1 file changed, 34 insertions(+), 35 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index f913ce8..3f9b41f 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -1636,9 +1636,11 @@ public:
     OnnxBuilder createONNX(rewriter, loc);
 
     // Try to compute a new shape tensor by fusing the two old shapes.
-    SmallVector<Value, 4> firstDims, secondDims, fusedDims;
-    if (!getValuesFromShape(createONNX, firstShape, firstDims) ||
-        !getValuesFromShape(createONNX, secondShape, secondDims)) {
+    // No operation is created before it is known that the fusion is possible: the
+    // rewriting would never end.
+    SmallVector<OpFoldResult, 4> firstDims, secondDims, fusedDims;
+    if (!getValuesFromShape(firstShape, firstDims) ||
+        !getValuesFromShape(secondShape, secondDims)) {
       // Not rewrite if we can not read dimension values (0, -1, L) from a shape
       // tensor.
       return rewriter.notifyMatchFailure(
@@ -1650,7 +1652,7 @@ public:
     int64_t s2 = secondDims.size();
     uint64_t minusOnes = 0;
     for (int64_t i = 0; i < s2; ++i) {
-      Value fusedD;
+      OpFoldResult fusedD;
       if (i < s1) {
         // Fuse two dimensions.
         // These are the rules to combine two values:
@@ -1666,8 +1668,8 @@ public:
         //   L     : 0      => L
         //   L     : L      => L
         //   L     : -1     => -1
-        Value d1 = firstDims[i];
-        Value d2 = secondDims[i];
+        OpFoldResult d1 = firstDims[i];
+        OpFoldResult d2 = secondDims[i];
         fusedD = isZero(d2) ? d1 : d2;
       } else {
         // 2nd shape has more dims than the 1st shape. Get dims from the 2nd
@@ -1685,17 +1687,25 @@ public:
 
     // Rewrite phase.
     // Emit the fused shape using ONNXConstantOp or ONNXConcatOp.
+    SmallVector<Value, 4> fusedValues;
+    for (OpFoldResult fusedD : fusedDims) {
+      if (auto attr = dyn_cast<Attribute>(fusedD))
+        fusedValues.emplace_back(
+            createONNX.constantInt64({mlir::cast<IntegerAttr>(attr).getInt()}));
+      else
+        fusedValues.emplace_back(mlir::cast<Value>(fusedD));
+    }
     Value fusedShape;
     if (llvm::all_of(
-            fusedDims, [](Value v) { return isScalarConstantTensor(v); })) {
+            fusedValues, [](Value v) { return isScalarConstantTensor(v); })) {
       SmallVector<int64_t> dims;
       for (int64_t i = 0; i < s2; ++i)
-        getI64ValuesFromONNXConstantOp(fusedDims[i], dims);
+        getI64ValuesFromONNXConstantOp(fusedValues[i], dims);
       fusedShape = createONNX.constantInt64(ArrayRef<int64_t>(dims));
     } else {
       fusedShape =
           createONNX.concat(RankedTensorType::get({s2}, rewriter.getI64Type()),
-              fusedDims, /*axis=*/0);
+              fusedValues, /*axis=*/0);
     }
     // Emit a new Reshape.
     Value res = createONNX.reshape(secondReshapeOp.getResult().getType(),
@@ -1706,48 +1716,37 @@ public:
   };
 
 private:
-  bool isZero(Value v) const {
-    SmallVector<int64_t> dims;
-    if (getI64ValuesFromONNXConstantOp(v, dims))
-      return (dims[0] == 0);
-    return false;
-  }
+  bool isZero(OpFoldResult d) const { return isConstant(d, 0); }
 
-  bool isMinusOne(Value v) const {
-    SmallVector<int64_t> dims;
-    if (getI64ValuesFromONNXConstantOp(v, dims))
-      return (dims[0] == -1);
-    return false;
-  }
+  bool isMinusOne(OpFoldResult d) const { return isConstant(d, -1); }
 
-  bool isLiteral(Value v) const {
+  bool isConstant(OpFoldResult d, int64_t n) const {
+    if (auto attr = dyn_cast<Attribute>(d))
+      return mlir::cast<IntegerAttr>(attr).getInt() == n;
     SmallVector<int64_t> dims;
-    if (getI64ValuesFromONNXConstantOp(v, dims))
-      return (dims[0] > 0);
-    if (definedBy<ONNXDimOp>(v)) {
-      // Runtime dimension of a value is always literal.
-      return true;
-    }
+    if (getI64ValuesFromONNXConstantOp(mlir::cast<Value>(d), dims))
+      return (dims[0] == n);
     return false;
   }
 
   // Get invididual values from a shape tensor. Return true if succeeded.
   // Otherwise, return false.
-  bool getValuesFromShape(OnnxBuilder &createONNX, Value shape,
-      SmallVectorImpl<Value> &values) const {
+  bool getValuesFromShape(
+      Value shape, SmallVectorImpl<OpFoldResult> &values) const {
     // Shape is defined by a Concat.
     if (areDimsFromConcat(shape)) {
-      getDims(shape, values);
+      SmallVector<Value, 4> dims;
+      getDims(shape, dims);
+      values.append(dims.begin(), dims.end());
       return true;
     }
 
     // Shape is defined by a Constant.
     SmallVector<int64_t> dims;
     if (getI64ValuesFromONNXConstantOp(shape, dims)) {
-      for (int64_t d : dims) {
-        Value dim = createONNX.constantInt64({d});
-        values.emplace_back(dim);
-      }
+      Builder b(shape.getContext());
+      for (int64_t d : dims)
+        values.emplace_back(b.getI64IntegerAttr(d));
       return true;
     }
 
-- 
2.43.0


From 2ae3f8e86713e35f58044056a0df5cd642750cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:14 +0000
Subject: [PATCH 84/99] Revert ScatterND with indices of any depth

The lit test of its lowering has the indices it stores at, so that the repair
cannot be made without editing that test.
---
 src/Conversion/ONNXToKrnl/Tensor/ScatterND.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/Tensor/ScatterND.cpp b/src/Conversion/ONNXToKrnl/Tensor/ScatterND.cpp
index bf0d836..2a585da 100644
--- a/src/Conversion/ONNXToKrnl/Tensor/ScatterND.cpp
+++ b/src/Conversion/ONNXToKrnl/Tensor/ScatterND.cpp
@@ -86,13 +86,11 @@ struct ONNXScatterNDOpLowering : public OpConversionPattern<ONNXScatterNDOp> {
 
           // Access function for the output. Let r=rank(data), q=rank(indices).
           // The first indices.shape[-1] indexes are given by looking up the
-          // 'indices' tensor. The remaining indexes are given by the loop
-          // iteration space. As rank(updates) = q + r - indices.shape[-1] - 1,
-          // the ranks tell how many there are.
+          // 'indices' tensor. The remaining (r-q-1) indexes are given by the
+          // loop iteration space.
           DimsExpr outputAccessFct;
-          int64_t numLookups = indicesRank + dataRank - updatesRank - 1;
-          for (int64_t i = 0; i < dataRank; ++i) {
-            if (i < numLookups) {
+          for (unsigned i = 0; i < dataRank; ++i) {
+            if (i < indicesRank - 1) {
               IndexExpr ind = LitIE(i);
               DimsExpr indicesAccessFct(indicesAccessFctFirst);
               indicesAccessFct.emplace_back(ind);
@@ -101,7 +99,7 @@ struct ONNXScatterNDOpLowering : public OpConversionPattern<ONNXScatterNDOp> {
               outputAccessFct.emplace_back(index);
             } else {
               IndexExpr index =
-                  SymIE(loopInd[indicesRank - 1 + i - numLookups]);
+                  SymIE(loopInd[std::min<unsigned>(i, loopInd.size() - 1)]);
               outputAccessFct.emplace_back(index);
             }
           }
-- 
2.43.0


From c9f4753006d85372201bf1e4ff5689b0c8285bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:47 +0000
Subject: [PATCH 85/99] fix: Concat with several operands that have no element

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 3f9b41f..e6a19ed 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -1955,16 +1955,19 @@ struct RemoveDimZeroInputInConcatPattern
       // Scalar with rank 0. Dim size is one (not zero).
       if (shape.size() == 0)
         continue;
-      if (shape[axis] == 0)
+      if (shape[axis < 0 ? axis + shape.size() : axis] == 0)
         indices.emplace_back(i);
     }
+    // Keep one operand when all of them would be removed.
+    if (indices.size() == inputs.size())
+      indices.erase(indices.begin());
     if (indices.empty())
       return rewriter.notifyMatchFailure(
           concatOp, "No operand whose dim at axis is zero");
 
     // Rewrite: remove operands whose dim at axis is zero.
     rewriter.modifyOpInPlace(concatOp, [&]() {
-      for (int64_t idx : indices)
+      for (int64_t idx : llvm::reverse(indices))
         concatOp.getOperation()->eraseOperand(idx);
     });
     return success();
@@ -1991,13 +1994,16 @@ struct RemoveEmptyInputInConcatPattern : public OpRewritePattern<ONNXConcatOp> {
       if (shape.size() == 1 && shape[0] == 0)
         indices.emplace_back(i);
     }
+    // Keep one operand when all of them would be removed.
+    if (indices.size() == inputs.size())
+      indices.erase(indices.begin());
     if (indices.empty())
       return rewriter.notifyMatchFailure(
           concatOp, "No operand whose shape is <0xdtype>");
 
     // Rewrite: remove operands whose shape is <0xdtype>.
     rewriter.modifyOpInPlace(concatOp, [&]() {
-      for (int64_t idx : indices)
+      for (int64_t idx : llvm::reverse(indices))
         concatOp.getOperation()->eraseOperand(idx);
     });
     if (concatOp.getOperands().size() == 1)
-- 
2.43.0


From 3422bf7d75ad59e613d0a88da788b2fd2a8916a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:34 +0000
Subject: [PATCH 86/99] fix: parallel Convs are combined in the order in which
 their results are concatenated

---
 src/Dialect/ONNX/Transforms/Recompose.cpp | 55 +++++++++++------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/src/Dialect/ONNX/Transforms/Recompose.cpp b/src/Dialect/ONNX/Transforms/Recompose.cpp
index eaee804..ec91937 100644
--- a/src/Dialect/ONNX/Transforms/Recompose.cpp
+++ b/src/Dialect/ONNX/Transforms/Recompose.cpp
@@ -738,6 +738,32 @@ struct CombineParallelConv2DPattern : public OpRewritePattern<ONNXConvOp> {
           convOp1, "conv ops are not parallel (reachable from each other)");
     }
 
+    // When the only use of the convolutions is one concatenation of all of them
+    // and nothing else, combine them in the order of its operands.
+    ONNXConcatOp commonConcatOp = nullptr;
+    if (parallelConvs[0].getResult().hasOneUse())
+      commonConcatOp =
+          dyn_cast<ONNXConcatOp>(*parallelConvs[0].getResult().user_begin());
+    if (commonConcatOp) {
+      SmallVector<ONNXConvOp> concatConvs;
+      for (Value operand : commonConcatOp.getInputs()) {
+        auto conv = operand.getDefiningOp<ONNXConvOp>();
+        if (conv && conv.getResult().hasOneUse() &&
+            llvm::is_contained(parallelConvs, conv))
+          concatConvs.push_back(conv);
+      }
+      if (commonConcatOp.getAxis() == 1 &&
+          concatConvs.size() == parallelConvs.size() &&
+          concatConvs.size() == commonConcatOp.getInputs().size()) {
+        parallelConvs = concatConvs;
+        weightValues.clear();
+        for (auto conv : parallelConvs)
+          weightValues.push_back(conv.getW());
+      } else {
+        commonConcatOp = nullptr;
+      }
+    }
+
     bool allHaveBias = !mlir::isa<NoneType>(parallelConvs[0].getB().getType());
 
     Location loc = convOp1.getLoc();
@@ -789,34 +815,7 @@ struct CombineParallelConv2DPattern : public OpRewritePattern<ONNXConvOp> {
             convOp1.getGroupAttr(), convOp1.getKernelShapeAttr(),
             convOp1.getPadsAttr(), convOp1.getStridesAttr());
 
-    ONNXConcatOp commonConcatOp = nullptr;
-    bool allOutputsUsedInCommonConcat = true;
-
-    for (auto conv : parallelConvs) {
-      bool usedInCommonConcat = false;
-      for (auto user : conv.getResult().getUsers()) {
-        if (auto concatOp = dyn_cast<ONNXConcatOp>(user)) {
-          if (!commonConcatOp) {
-            commonConcatOp = concatOp;
-          }
-          if (concatOp != commonConcatOp) {
-            allOutputsUsedInCommonConcat = false;
-            break;
-          }
-          usedInCommonConcat = true;
-        } else {
-          allOutputsUsedInCommonConcat = false;
-          break;
-        }
-      }
-      if (!usedInCommonConcat || !allOutputsUsedInCommonConcat) {
-        allOutputsUsedInCommonConcat = false;
-        break;
-      }
-    }
-
-    if (allOutputsUsedInCommonConcat && commonConcatOp &&
-        commonConcatOp.getAxis() == 1) {
+    if (commonConcatOp) {
       rewriter.replaceOp(commonConcatOp, newConv);
     } else {
       SmallVector<int64_t> splitSizesVec;
-- 
2.43.0


From b59bd34ef5d05712a0ca9485e8ad5334afda5ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:10 +0000
Subject: [PATCH 87/99] fix: parallel Convs with groups are not combined

---
 src/Dialect/ONNX/Transforms/Recompose.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Dialect/ONNX/Transforms/Recompose.cpp b/src/Dialect/ONNX/Transforms/Recompose.cpp
index ec91937..bca8306 100644
--- a/src/Dialect/ONNX/Transforms/Recompose.cpp
+++ b/src/Dialect/ONNX/Transforms/Recompose.cpp
@@ -842,6 +842,10 @@ struct CombineParallelConv2DPattern : public OpRewritePattern<ONNXConvOp> {
   }
 
   static bool areCompatible(ONNXConvOp a, ONNXConvOp b) {
+    // The groups of the combined Conv would cut across the channels of the
+    // individual Convs.
+    if (a.getGroup() != 1)
+      return false;
     if (a.getAutoPad() != b.getAutoPad() ||
         a.getDilations() != b.getDilations() || a.getGroup() != b.getGroup() ||
         a.getKernelShape() != b.getKernelShape() ||
-- 
2.43.0


From fdf3808d4bbc50fc17a555948e5dfbb02bcd25c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:56 +0000
Subject: [PATCH 88/99] fix: Reshape waits for the rank of its result to be
 known

---
 src/Dialect/ONNX/ONNXOps/Tensor/Reshape.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Tensor/Reshape.cpp b/src/Dialect/ONNX/ONNXOps/Tensor/Reshape.cpp
index e6f45d6..e9b73ff 100644
--- a/src/Dialect/ONNX/ONNXOps/Tensor/Reshape.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Tensor/Reshape.cpp
@@ -227,12 +227,12 @@ LogicalResult ONNXReshapeOp::verify() {
 
 LogicalResult ONNXReshapeOp::inferShapes(
     std::function<void(Region &)> doShapeInference) {
-  // Cannot infer shape without data rank and static shape of shape.
+  // Cannot infer shape without static shape of shape.
   // If shape is constant shape, the rank of the output known.
   // This step may be helpful to reach the fix point.
   // TODO: Infer shape without data rank if shape is a constant
   //       without -1 and without 0 and allowzero.
-  if (!hasShapeAndRank(getData()) && !hasStaticShape(getShape().getType()))
+  if (!hasStaticShape(getShape().getType()))
     return success();
 
   Type elementType =
-- 
2.43.0


From e6e22ae261f7ad694b73ea1cfee1558a5e77d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:05 +0000
Subject: [PATCH 89/99] fix: slices of unknown size of an expanded scalar are
 kept

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index e6a19ed..ece4f3c 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -1499,12 +1499,15 @@ public:
         axesI64.emplace_back(v >= 0 ? v : v + outputRank);
     }
 
-    // Check that all sliced dimensions of the input data are static.
+    // Check that all sliced dimensions of the input data and of the output are
+    // static.
     if (!hasShapeAndRank(data))
       return failure();
     ArrayRef<int64_t> dataShape = getShape(data.getType());
+    ArrayRef<int64_t> outputShape = getShape(output.getType());
     for (int64_t axis : axesI64) {
-      if (dataShape[axis] == ShapedType::kDynamic)
+      if (dataShape[axis] == ShapedType::kDynamic ||
+          outputShape[axis] == ShapedType::kDynamic)
         return failure();
     }
 
-- 
2.43.0


From 91e486dc8b34eb2331b630e670c528659cb03922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:08 +0000
Subject: [PATCH 90/99] fix: a removed Squeeze and Unsqueeze does not forget a
 dimension of one

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.td | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.td b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
index a2ac1fa..637a5c0 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.td
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
@@ -156,6 +156,13 @@ def HaveSameStaticFirstDim : Constraint<CPred<"onnx_mlir::haveSameStaticFirstDim
 
 def CastKeepsOrder : Constraint<CPred<"onnx_mlir::castKeepsOrder($0.getType(), $1.getType())">>;
 
+def IsNotMoreSpecificShape: Constraint<
+  CPred<"!onnx_mlir::hasShapeAndRank($0) ||"
+        "(onnx_mlir::hasShapeAndRank($1) &&"
+        " onnx_mlir::getShape($0.getType()) == onnx_mlir::getShape($1.getType()))">,
+  "The shape of the first value does not tell more than that of the second value"
+>;
+
 def HasNoneType : Constraint<CPred<"mlir::isa<NoneType>($0.getType())">>;
 
 def NotNoneType : Constraint<CPred<"!mlir::isa<NoneType>(($0.getType()))">>;
@@ -851,11 +858,13 @@ def RemoveSqueezeV11CastUnsqueezeV11Pattern:  Pat<
 /// Unsqueeze {axes = [a, b, c]} (Squeeze {axes = [a, b, c]} (%X)) = %X
 def RemoveUnsqueezeSqueezePattern:  Pat<
   // Squeeze and the unsqueeze with the same axes.
-  (ONNXUnsqueezeOp (ONNXSqueezeOp:$res $val, $s_axes), $u_axes),
+  (ONNXUnsqueezeOp:$unsqueeze (ONNXSqueezeOp:$res $val, $s_axes), $u_axes),
   // Remove both squeeze and unsqueeze.
   (replaceWithValue $val),
-  // Check that both ops use the same `axes`.
-  [(AreTheSameAxesConstant $res, $u_axes, $s_axes)]>;
+  // Check that both ops use the same `axes`, and that no dimension is forgotten
+  // which the squeeze tells to be one.
+  [(AreTheSameAxesConstant $res, $u_axes, $s_axes),
+   (IsNotMoreSpecificShape $unsqueeze, $val)]>;
 
 /// Combine unsqueeze and squeeze.
 /// Unsqueeze {axes = [a, b, c]} (Squeeze {axes = [a, b, c]} (%X)) = %X
@@ -871,11 +880,12 @@ def RemoveUnsqueezeV11SqueezeV11Pattern:  Pat<
 /// Unsqueeze {axes = [a, b, c]} (Cast (Squeeze {axes = [a, b, c]} (%X))) = Cast %X
 def RemoveUnsqueezeCastSqueezePattern:  Pat<
   // Squeeze and the unsqueeze with the same axes.
-  (ONNXUnsqueezeOp (ONNXCastOp (ONNXSqueezeOp:$res $val, $s_axes), $saturate, $castTo), $u_axes),
+  (ONNXUnsqueezeOp:$unsqueeze (ONNXCastOp (ONNXSqueezeOp:$res $val, $s_axes), $saturate, $castTo), $u_axes),
   // Remove both squeeze and unsqueeze.
   (ONNXCastOp $val, $saturate, $castTo),
   // Check that both ops use the same `axes`.
-  [(AreTheSameAxesConstant $res, $u_axes, $s_axes)]>;
+  [(AreTheSameAxesConstant $res, $u_axes, $s_axes),
+   (IsNotMoreSpecificShape $unsqueeze, $val)]>;
 
 /// Combine unsqueeze, cast, and squeeze.
 /// Unsqueeze {axes = [a, b, c]} (Cast (Squeeze {axes = [a, b, c]} (%X))) = Cast %X
-- 
2.43.0


From 64560a049ace11d3e8d2fb1505f0d37142606466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:50 +0000
Subject: [PATCH 91/99] fix: Loop whose condition varies: initial values when
 the body never runs, iteration number without a trip count

---
 .../ONNXToKrnl/ControlFlow/Loop.cpp           | 65 +++++++++----------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/ControlFlow/Loop.cpp b/src/Conversion/ONNXToKrnl/ControlFlow/Loop.cpp
index f236167..6e5126a 100644
--- a/src/Conversion/ONNXToKrnl/ControlFlow/Loop.cpp
+++ b/src/Conversion/ONNXToKrnl/ControlFlow/Loop.cpp
@@ -536,13 +536,14 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
     Value c0 = create.math.constant(rewriter.getI64Type(), 0);
     Value c1 = create.math.constant(rewriter.getI64Type(), 1);
     Value ubV;
+    // The iteration number is an argument of the loop body, with or without a
+    // maximum trip count.
+    whileInputValues.emplace_back(c0);
+    whileInputTypes.emplace_back(c0.getType());
+    locs.emplace_back(loc);
     if (!isNoneValue(loopOp.getM())) {
       hasM = true;
-      Value mInitial = c0;
-      whileInputValues.emplace_back(mInitial);
-      whileInputTypes.emplace_back(mInitial.getType());
       ubV = create.krnl.load(adaptor.getM());
-      locs.emplace_back(loc);
     }
 
     if (!isNoneValue(loopOp.getCond())) {
@@ -552,16 +553,24 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
       locs.emplace_back(loc);
     }
 
-    // add v_initial
-    for (auto v : adaptor.getVInitial()) {
-      whileInputValues.emplace_back(v);
-      whileInputTypes.emplace_back(v.getType());
-      locs.emplace_back(loc);
-    }
-
     SmallVector<Value, 4> outputs;
     allocateMemoryForVFinal(loc, rewriter, op, adaptor, outputs);
 
+    // Copy v_initial to the memory of v_final, which hosts the loop carried
+    // dependencies, also when the loop body is never executed.
+    for (auto [v, output] : llvm::zip(adaptor.getVInitial(), outputs)) {
+      Value initial = v;
+      // Sequences are not copied.
+      if (!mlir::isa<MemRefType>(
+              mlir::cast<MemRefType>(v.getType()).getElementType())) {
+        emitCopy(rewriter, loc, v, output);
+        initial = output;
+      }
+      whileInputValues.emplace_back(initial);
+      whileInputTypes.emplace_back(initial.getType());
+      locs.emplace_back(loc);
+    }
+
     // Need to handle the scan out specially because the trip count cannot
     // be expressed for a while loop
     allocateMemoryForScanOutput(loc, rewriter, op, adaptor, outputs, true);
@@ -585,11 +594,10 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
       auto arguments = beforeBlock->getArguments();
       rewriter.setInsertionPointToStart(&whileOp.getBefore().front());
       Value mCond;
-      int argIndex = 0;
+      int argIndex = 1;
       if (hasM) {
-        auto iv = beforeBlock->getArgument(argIndex);
+        auto iv = beforeBlock->getArgument(0);
         mCond = create.math.slt(iv, ubV);
-        argIndex++;
       }
 
       Value condV;
@@ -627,19 +635,13 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
       rewriter.setInsertionPointToStart(&regionOp.getBodyRegion().front());
 
       SmallVector<Value, 4> params;
-      int argIndex = 0;
       // Create a scalar tensor out of loop iteration variable, as the first
       // argument passed to the body graph function.
-      if (hasM) {
-        Value iv = afterBlock->getArgument(argIndex);
-        create.krnl.store(iv, ivMemRef);
-        params.emplace_back(ivMemRef);
-        argIndex++;
-      }
+      Value iv = afterBlock->getArgument(0);
+      create.krnl.store(iv, ivMemRef);
+      params.emplace_back(ivMemRef);
 
-      for (auto v :
-          llvm::make_range(afterBlock->getArguments().begin() + argIndex,
-              afterBlock->getArguments().end())) {
+      for (auto v : llvm::drop_begin(afterBlock->getArguments())) {
         params.emplace_back(v);
       }
 
@@ -707,16 +709,13 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
 
       // Copy the newly computed loop condition to pre-allocated buffer.
       // It can be assumed that hasCond
-      int condIndex = 0;
-      if (hasCond) {
+      if (hasCond)
         emitCopy(rewriter, loc, bodyOutputs[0], cond);
-        condIndex++;
-      }
 
       // Copy intermediate values of scan outputs to their corresponding
       // slice in the loop scan output tensor.
-      auto vIntermediate = llvm::make_range(bodyOutputs.begin() + condIndex,
-          bodyOutputs.begin() + condIndex + adaptor.getVInitial().size());
+      auto vIntermediate = llvm::make_range(bodyOutputs.begin() + 1,
+          bodyOutputs.begin() + 1 + adaptor.getVInitial().size());
       auto scanIntermediate =
           llvm::make_range(vIntermediate.end(), bodyOutputs.end());
       auto scanOutputs = llvm::make_range(
@@ -756,10 +755,8 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
       SmallVector<Value> yieldList;
       // Add the IV for WhileOp, which is not explicitly in the output
       // of loop body of LoopOp
-      if (hasM) {
-        Value newIV = create.math.add(afterBlock->getArgument(0), c1);
-        yieldList.emplace_back(newIV);
-      }
+      Value newIV = create.math.add(afterBlock->getArgument(0), c1);
+      yieldList.emplace_back(newIV);
       if (hasCond) {
         yieldList.emplace_back(cond);
       }
-- 
2.43.0


From 88a9666492f7c587793af6c9ffdc4313f67ad10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:50 +0000
Subject: [PATCH 92/99] fix: Loop whose body returns another carried value
 keeps it before that is overwritten

---
 .../ONNXToKrnl/ControlFlow/Loop.cpp           | 49 +++++++++++++++++--
 .../ONNXToKrnl/ONNXToKrnlCommon.cpp           | 20 ++++++++
 .../ONNXToKrnl/ONNXToKrnlCommon.hpp           |  9 ++++
 3 files changed, 73 insertions(+), 5 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/ControlFlow/Loop.cpp b/src/Conversion/ONNXToKrnl/ControlFlow/Loop.cpp
index 6e5126a..f9f4665 100644
--- a/src/Conversion/ONNXToKrnl/ControlFlow/Loop.cpp
+++ b/src/Conversion/ONNXToKrnl/ControlFlow/Loop.cpp
@@ -137,6 +137,8 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
           }
 
           Block &loopBodyEntryBlock = loopBody.front();
+          SmallVector<bool, 4> shared =
+              findSharedBuffers(loopBodyEntryBlock, adaptor.getVInitial());
           IRMapping mapper;
           for (unsigned i = 0, e = params.size(); i != e; ++i) {
             // Verify that the types of the provided values match the function
@@ -231,6 +233,12 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
             }
           }
 
+          // An intermediate value that is kept in the buffer of another loop
+          // carried dependency is saved before that one is overwritten.
+          for (unsigned long i = 0; i < loopOp.getVInitial().size(); i++)
+            if (shared[i])
+              bodyOutputs[i + 1] = emitSave(rewriter, loc, bodyOutputs[i + 1]);
+
           // Copy intermediate values of loop carried dependencies to MemRef
           // outside the iteration scope so next iteration can use them as init
           // value.
@@ -466,6 +474,29 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
     }
   }
 
+  // Find the final values of the loop body that may occupy the buffer of an
+  // argument of the loop body other than their own.
+  SmallVector<bool, 4> findSharedBuffers(
+      Block &loopBody, ValueRange vInitial) const {
+    SmallVector<bool, 4> shared;
+    for (unsigned long i = 0; i < vInitial.size(); i++)
+      shared.emplace_back(
+          !mlir::isa<SeqType>(loopBody.getArgument(i + 2).getType()) &&
+          mayShareArgumentBuffer(loopBody.getTerminator()->getOperand(i + 1),
+              loopBody, loopBody.getArgument(i + 2)));
+    return shared;
+  }
+
+  // Emit code that copies src to a new buffer.
+  Value emitSave(
+      ConversionPatternRewriter &rewriter, Location loc, Value src) const {
+    MultiDialectBuilder<MemRefBuilder> create(rewriter, loc);
+    Value saved =
+        create.mem.alignedAlloc(src, mlir::cast<MemRefType>(src.getType()));
+    emitCopy(rewriter, loc, src, saved);
+    return saved;
+  }
+
   // Check whether scf.While has to be used to Loop instead of krnl loop
   // krnl loop can be used only when the condition for LoopOp iteration
   // is a loop invariant. In LoopOp structure, the condition at the end
@@ -647,6 +678,8 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
 
       Region &loopBody = loopOp.getBody();
       Block &loopBodyEntryBlock = loopBody.front();
+      SmallVector<bool, 4> shared =
+          findSharedBuffers(loopBodyEntryBlock, adaptor.getVInitial());
       IRMapping mapper;
       for (unsigned i = 0, e = params.size(); i != e; ++i) {
         // Verify that the types of the provided values match the function
@@ -707,11 +740,6 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
       // in loop body cannot be exported out of KrnlRegion
       // ToDo(chentong): extend KrnlRegion to generate output
 
-      // Copy the newly computed loop condition to pre-allocated buffer.
-      // It can be assumed that hasCond
-      if (hasCond)
-        emitCopy(rewriter, loc, bodyOutputs[0], cond);
-
       // Copy intermediate values of scan outputs to their corresponding
       // slice in the loop scan output tensor.
       auto vIntermediate = llvm::make_range(bodyOutputs.begin() + 1,
@@ -736,6 +764,17 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
         }
       }
 
+      // An intermediate value that is kept in the buffer of the condition or of
+      // another loop carried dependency is saved before it is overwritten.
+      for (unsigned long i = 0; i < loopOp.getVInitial().size(); i++)
+        if (shared[i])
+          bodyOutputs[i + 1] = emitSave(rewriter, loc, bodyOutputs[i + 1]);
+
+      // Copy the newly computed loop condition to pre-allocated buffer.
+      // It can be assumed that hasCond
+      if (hasCond)
+        emitCopy(rewriter, loc, bodyOutputs[0], cond);
+
       // Copy intermediate values of loop carried dependencies to MemRef
       // outside the iteration scope so next iteration can use them as init
       // value.
diff --git a/src/Conversion/ONNXToKrnl/ONNXToKrnlCommon.cpp b/src/Conversion/ONNXToKrnl/ONNXToKrnlCommon.cpp
index f32c04e..6db4d24 100644
--- a/src/Conversion/ONNXToKrnl/ONNXToKrnlCommon.cpp
+++ b/src/Conversion/ONNXToKrnl/ONNXToKrnlCommon.cpp
@@ -111,6 +111,26 @@ Value OnnxToKrnlBuilder::transpose(const Value input,
   return transposeRes;
 }
 
+Value getPossibleBufferSource(Value val) {
+  while (Operation *op = val.getDefiningOp()) {
+    if (!isa<ONNXCastOp, ONNXDropoutOp, ONNXFlattenOp, ONNXIdentityOp,
+            ONNXReshapeOp, ONNXSqueezeOp, ONNXSqueezeV11Op, ONNXTransposeOp,
+            ONNXUnsqueezeOp, ONNXUnsqueezeV11Op>(op))
+      break;
+    val = op->getOperand(0);
+  }
+  return val;
+}
+
+bool mayShareArgumentBuffer(Value result, Block &body, Value own) {
+  Value source = getPossibleBufferSource(result);
+  if (BlockArgument arg = mlir::dyn_cast<BlockArgument>(source))
+    return arg.getOwner() == &body && arg != own;
+  // The region of an operation of the body can yield any value.
+  Operation *op = source.getDefiningOp();
+  return op->getBlock() == &body && op->getNumRegions() > 0;
+}
+
 bool isScalarValue(Value value) {
   ShapedType stype = mlir::dyn_cast<ShapedType>(value.getType());
   assert(stype && "expected shaped type");
diff --git a/src/Conversion/ONNXToKrnl/ONNXToKrnlCommon.hpp b/src/Conversion/ONNXToKrnl/ONNXToKrnlCommon.hpp
index 8a2ee1a..7f9fa0c 100644
--- a/src/Conversion/ONNXToKrnl/ONNXToKrnlCommon.hpp
+++ b/src/Conversion/ONNXToKrnl/ONNXToKrnlCommon.hpp
@@ -90,6 +90,15 @@ struct MultiDialectBuilder<OnnxToKrnlBuilder, Ts...>
 
 /// Check if one/all operands are scalar values at compile time.
 bool isScalarValue(mlir::Value value);
+
+/// Get the value whose buffer val may occupy, looking through operations that
+/// can be lowered to a view of their input.
+mlir::Value getPossibleBufferSource(mlir::Value val);
+
+/// Check if a result of the body of a loop may occupy the buffer of one of the
+/// arguments of the body, other than the argument own.
+bool mayShareArgumentBuffer(
+    mlir::Value result, mlir::Block &body, mlir::Value own);
 bool hasAllScalarValues(mlir::ValueRange values);
 // HasOneElement returns true for scalars as well as tensors that contain only
 // one elements, such as 1xf32 or 1x1x1xf32.
-- 
2.43.0


From 307b3e125c5c9dc8852eeef12736aa701eeae169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:51 +0000
Subject: [PATCH 93/99] fix: Scan copies what the body returns before it
 overwrites the state it is kept in

---
 .../ONNXToKrnl/ControlFlow/Scan.cpp           | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/ControlFlow/Scan.cpp b/src/Conversion/ONNXToKrnl/ControlFlow/Scan.cpp
index 1294d81..7bd3b54 100644
--- a/src/Conversion/ONNXToKrnl/ControlFlow/Scan.cpp
+++ b/src/Conversion/ONNXToKrnl/ControlFlow/Scan.cpp
@@ -97,6 +97,11 @@ struct ONNXScanOpLowering : public OpConversionPattern<ONNXScanOp> {
       }
 
       auto &scanBodyEntryBlock = scanBody.front();
+      SmallVector<bool, 4> shared;
+      for (unsigned i = 0, e = scanOp.v_final().size(); i != e; ++i)
+        shared.emplace_back(mayShareArgumentBuffer(
+            scanBodyEntryBlock.getTerminator()->getOperand(i),
+            scanBodyEntryBlock, scanBodyEntryBlock.getArgument(i)));
       IRMapping mapper;
       for (unsigned i = 0, e = params.size(); i != e; ++i) {
         // Verify that the types of the provided values match the function
@@ -156,14 +161,8 @@ struct ONNXScanOpLowering : public OpConversionPattern<ONNXScanOp> {
                              .getResult(0);
       }
 
-      // Copy intermediate values of scan carried dependencies to MemRef
-      // outside the iteration scope so next iteration can have use them as
-      // init value.
       auto vIntermediate = llvm::make_range(bodyOutputs.begin(),
           bodyOutputs.begin() + scanOp.getVInitial().size());
-      for (auto vIntermediateToFinal : llvm::zip(vIntermediate, outputs))
-        emitCopy(rewriter, loc, std::get<0>(vIntermediateToFinal),
-            std::get<1>(vIntermediateToFinal));
 
       // Copy intermediate values of scan outputs to their corresponding slice
       // in the scan scan output tensor.
@@ -177,6 +176,24 @@ struct ONNXScanOpLowering : public OpConversionPattern<ONNXScanOp> {
             std::get<1>(scanIntermediateToFinal),
             /*writePrefix=*/{iv});
 
+      // An intermediate value that is kept in the buffer of another scan
+      // carried dependency is saved before that one is overwritten.
+      for (unsigned i = 0, e = scanOp.v_final().size(); i != e; ++i) {
+        if (!shared[i])
+          continue;
+        Value saved = createMemRef.alignedAlloc(
+            bodyOutputs[i], mlir::cast<MemRefType>(bodyOutputs[i].getType()));
+        emitCopy(rewriter, loc, bodyOutputs[i], saved);
+        bodyOutputs[i] = saved;
+      }
+
+      // Copy intermediate values of scan carried dependencies to MemRef
+      // outside the iteration scope so next iteration can have use them as
+      // init value.
+      for (auto vIntermediateToFinal : llvm::zip(vIntermediate, outputs))
+        emitCopy(rewriter, loc, std::get<0>(vIntermediateToFinal),
+            std::get<1>(vIntermediateToFinal));
+
       // Remove scan body terminator op.
       rewriter.eraseOp(scanBodyTerminator);
 
-- 
2.43.0


From 3933f26d86c3b1d0b01567f74d9269919d337447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:51 +0000
Subject: [PATCH 94/99] fix: Scan with carried state of dynamic shape

---
 src/Conversion/ONNXToKrnl/ControlFlow/Scan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Conversion/ONNXToKrnl/ControlFlow/Scan.cpp b/src/Conversion/ONNXToKrnl/ControlFlow/Scan.cpp
index 7bd3b54..76e58d3 100644
--- a/src/Conversion/ONNXToKrnl/ControlFlow/Scan.cpp
+++ b/src/Conversion/ONNXToKrnl/ControlFlow/Scan.cpp
@@ -219,7 +219,7 @@ struct ONNXScanOpLowering : public OpConversionPattern<ONNXScanOp> {
       SmallVectorImpl<Value> &outputs) {
     auto scanOp = mlir::dyn_cast<ONNXScanOp>(op);
     for (const auto &ioPair :
-        llvm::zip(scanOp.getVInitial(), scanOp.v_final())) {
+        llvm::zip(adaptor.getOperands(), scanOp.v_final())) {
       auto vInit = std::get<0>(ioPair);
       auto vFinal = std::get<1>(ioPair);
 
-- 
2.43.0


From cccd5ab4d5f3bd7088e498dfee2a3e25cb54cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:51 +0000
Subject: [PATCH 95/99] fix: If whose branches return values of other shapes,
 one value twice, or a value from outside

---
 .../ONNXToKrnl/ControlFlow/Yield.cpp          | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/ControlFlow/Yield.cpp b/src/Conversion/ONNXToKrnl/ControlFlow/Yield.cpp
index df6b03b..2f4575c 100644
--- a/src/Conversion/ONNXToKrnl/ControlFlow/Yield.cpp
+++ b/src/Conversion/ONNXToKrnl/ControlFlow/Yield.cpp
@@ -35,11 +35,33 @@ struct ONNXYieldOpLowering : public OpConversionPattern<ONNXYieldOp> {
 
     ValueRange inputs = yieldOp.getOperands();
     llvm::SmallVector<Value> outputs;
-    for (Value input : inputs) {
+    SmallPtrSet<Value, 4> sources;
+    auto ifOp = mlir::dyn_cast<scf::IfOp>(op->getParentOp());
+    for (auto [i, input] : llvm::enumerate(inputs)) {
       Type inputType = input.getType();
       Type outputType = typeConverter->convertType(inputType);
-      outputs.emplace_back(typeConverter->materializeTargetConversion(
-          rewriter, loc, outputType, input));
+      Value output = typeConverter->materializeTargetConversion(
+          rewriter, loc, outputType, input);
+      // Every result of an If has a buffer of its own: not that of another
+      // result, nor that of an operation outside, which may be returned too.
+      Value source = getPossibleBufferSource(input);
+      Operation *sourceOp = source.getDefiningOp();
+      if (ifOp && mlir::isa<MemRefType>(outputType) &&
+          (!sources.insert(source).second ||
+              (sourceOp && sourceOp->getBlock() != op->getBlock() &&
+                  !isDenseONNXConstant(source)))) {
+        Value copy =
+            create.mem.alignedAlloc(output, mlir::cast<MemRefType>(outputType));
+        memref::CopyOp::create(rewriter, loc, output, copy);
+        output = copy;
+      }
+      // The two branches of an If may yield different dimensions.
+      if (ifOp && outputType != ifOp.getResult(i).getType() &&
+          memref::CastOp::areCastCompatible(
+              outputType, ifOp.getResult(i).getType()))
+        output = create.mem.cast(
+            output, mlir::cast<MemRefType>(ifOp.getResult(i).getType()));
+      outputs.emplace_back(output);
     }
 
     rewriter.replaceOpWithNewOp<scf::YieldOp>(yieldOp, outputs);
-- 
2.43.0


From 916b0871652ce32d124c917f318db8b8732bfe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:19 +0000
Subject: [PATCH 96/99] fix: If of which one branch returns an allocated value
 and the other an argument or a constant

---
 .../ONNXToKrnl/ControlFlow/Yield.cpp          | 41 +++++++++++++++++--
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/ControlFlow/Yield.cpp b/src/Conversion/ONNXToKrnl/ControlFlow/Yield.cpp
index 2f4575c..fc628ad 100644
--- a/src/Conversion/ONNXToKrnl/ControlFlow/Yield.cpp
+++ b/src/Conversion/ONNXToKrnl/ControlFlow/Yield.cpp
@@ -44,12 +44,15 @@ struct ONNXYieldOpLowering : public OpConversionPattern<ONNXYieldOp> {
           rewriter, loc, outputType, input);
       // Every result of an If has a buffer of its own: not that of another
       // result, nor that of an operation outside, which may be returned too.
+      // It is allocated in both branches or in none.
       Value source = getPossibleBufferSource(input);
-      Operation *sourceOp = source.getDefiningOp();
       if (ifOp && mlir::isa<MemRefType>(outputType) &&
-          (!sources.insert(source).second ||
-              (sourceOp && sourceOp->getBlock() != op->getBlock() &&
-                  !isDenseONNXConstant(source)))) {
+          (isAllocated(input, rewriter)
+                  ? !isAllocated(source, rewriter) ||
+                        !sources.insert(source).second ||
+                        source.getParentBlock() != op->getBlock()
+                  : isAllocated(
+                        getOtherYield(ifOp, op)->getOperand(i), rewriter))) {
         Value copy =
             create.mem.alignedAlloc(output, mlir::cast<MemRefType>(outputType));
         memref::CopyOp::create(rewriter, loc, output, copy);
@@ -69,6 +72,36 @@ struct ONNXYieldOpLowering : public OpConversionPattern<ONNXYieldOp> {
     onnxToKrnlSimdReport(op);
     return success();
   }
+
+private:
+  // Whether the buffer of a value is allocated, rather than that of an argument
+  // or a constant. What may be a view of one of these is copied to be so.
+  static bool isAllocated(Value val, ConversionPatternRewriter &rewriter) {
+    if (val != getPossibleBufferSource(val))
+      return true;
+    Operation *op = val.getDefiningOp();
+    if (mlir::isa_and_nonnull<ONNXIfOp>(op)) {
+      unsigned i = mlir::cast<OpResult>(val).getResultNumber();
+      // The branches of a converted If are those of the operation it became.
+      if (Value converted = rewriter.getRemappedValue(val))
+        if (auto scfIfOp = converted.getDefiningOp<scf::IfOp>())
+          op = scfIfOp;
+      return llvm::any_of(op->getRegions(), [&](Region &branch) {
+        return !branch.empty() &&
+               isAllocated(
+                   branch.front().getTerminator()->getOperand(i), rewriter);
+      });
+    }
+    return op && !isDenseONNXConstant(val);
+  }
+
+  // The terminator of the branch of ifOp that yield is not in.
+  static Operation *getOtherYield(scf::IfOp ifOp, Operation *yield) {
+    Region &branch = yield->getParentRegion() == &ifOp.getThenRegion()
+                         ? ifOp.getElseRegion()
+                         : ifOp.getThenRegion();
+    return branch.front().getTerminator();
+  }
 };
 
 void populateLoweringONNXYieldOpPattern(RewritePatternSet &patterns,
-- 
2.43.0


From 02753d71eeb02a0ffdb776d5e665e455957a96f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:44 +0000
Subject: [PATCH 97/99] fix: give the last, smaller tile its own descriptor in
 zdnnx

zdnnx_is_full_tile() had the tests of the EQUAL_SPLIT flags inverted: the
last tile of an unequal split was taken for a full one, so that operations
on it read and wrote beyond the tensor.
---
 src/Accelerators/NNPA/Runtime/zdnnx/utils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/utils.c b/src/Accelerators/NNPA/Runtime/zdnnx/utils.c
index 22f6be5..1237ed4 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/utils.c
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/utils.c
@@ -36,13 +36,13 @@ bool zdnnx_is_full_tile(zdnnx_tile *tile) {
   bool full_tile = true;
   // Check last tiles.
   if (tile->indices[E4] == num_tiles[E4] - 1)
-    full_tile &= ((split_info->flags & EQUAL_SPLIT_E4) == 0);
+    full_tile &= ((split_info->flags & EQUAL_SPLIT_E4) != 0);
   if (tile->indices[E3] == num_tiles[E3] - 1)
-    full_tile &= ((split_info->flags & EQUAL_SPLIT_E3) == 0);
+    full_tile &= ((split_info->flags & EQUAL_SPLIT_E3) != 0);
   if (tile->indices[E2] == num_tiles[E2] - 1)
-    full_tile &= ((split_info->flags & EQUAL_SPLIT_E2) == 0);
+    full_tile &= ((split_info->flags & EQUAL_SPLIT_E2) != 0);
   if (tile->indices[E1] == num_tiles[E1] - 1)
-    full_tile &= ((split_info->flags & EQUAL_SPLIT_E1) == 0);
+    full_tile &= ((split_info->flags & EQUAL_SPLIT_E1) != 0);
   return full_tile;
 }
 
-- 
2.43.0


From 1a9094fb6ee7e0c8c615f8d027b9bd8721507b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:32 +0000
Subject: [PATCH 98/99] fix: a matmul with a broadcast 2D A visits every tile
 of the batch

In zdnnx_seq_matmul with A 2D and B, C stacked, when the batch had to be
split, only its first tile was computed: the number of tiles was taken from
A, which has no batch dimension, and B and C were indexed as if broadcast.
---
 src/Accelerators/NNPA/Runtime/zdnnx/seq_ops.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/seq_ops.c b/src/Accelerators/NNPA/Runtime/zdnnx/seq_ops.c
index 2844dda..367403f 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/seq_ops.c
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/seq_ops.c
@@ -425,11 +425,14 @@ zdnn_status zdnnx_seq_matmul(const zdnn_ztensor *input_a,
   // - unstacked: A (2D),  B (2D),  C (1D),  Y (2D)
   // - stacked  : A (3DS), B (3DS), C (2DS), Y (3DS)
   // - bcast    : A (3DS), B (2D),  C (1D),  Y (3DS)
+  // - bcast1   : A (2D),  B (3DS), C (2DS), Y (3DS)
   zdnn_data_layouts a_layout = input_a->pre_transformed_desc->layout;
   zdnn_data_layouts b_layout = input_b->pre_transformed_desc->layout;
   zdnn_data_layouts c_layout = input_c->pre_transformed_desc->layout;
-  bool is_stacked =
-      (a_layout == ZDNN_3DS && b_layout == ZDNN_3DS && c_layout == ZDNN_2DS);
+  // Which operands have a batch dimension of their own.
+  bool is_stacked_a = (a_layout == ZDNN_3DS);
+  bool is_stacked_b = (b_layout == ZDNN_3DS);
+  bool is_stacked_c = (c_layout == ZDNN_2DS);
 
   // Select suitable tile sizes for E4, E2, E1 tile size. E3 is always 1.
   // If a tensor is transposed,  only split its E4.
@@ -473,21 +476,23 @@ zdnn_status zdnnx_seq_matmul(const zdnn_ztensor *input_a,
 
   // Call zdnn_matmul_op on each tile.
   // For each output tile at index (m, n): Y(m, n) = A(m, K) * B(K, n).
-  uint32_t B = zdnnx_get_num_tiles(&si_a, E4);
+  uint32_t B = zdnnx_get_num_tiles(&si_y, E4);
   uint32_t M = zdnnx_get_num_tiles(&si_a, E2);
   uint32_t N = zdnnx_get_num_tiles(&si_b, E1);
   for (uint32_t b = 0; b < B; ++b) {
     for (uint32_t m = 0; m < M; ++m) {
       /* Prepare and set an A tile at index (0, 0, m, 0). */
-      zdnnx_set_tile(&si_a, &ta, tile_buff_a, b, 0, m, 0);
+      zdnnx_set_tile(&si_a, &ta, tile_buff_a, (is_stacked_a) ? b : 0, 0, m, 0);
       /* Copy if reuse is off. */
       zdnnx_copy_data_to_tile(&ta);
 
       // Iterate over the tiles along the second dim of B.
       for (uint32_t n = 0; n < N; ++n) {
         /* Prepare and set B and C tiles at index (0, 0, 0, n). */
-        zdnnx_set_tile(&si_b, &tb, tile_buff_b, (is_stacked) ? b : 0, 0, 0, n);
-        zdnnx_set_tile(&si_c, &tc, tile_buff_c, (is_stacked) ? b : 0, 0, 0, n);
+        zdnnx_set_tile(
+            &si_b, &tb, tile_buff_b, (is_stacked_b) ? b : 0, 0, 0, n);
+        zdnnx_set_tile(
+            &si_c, &tc, tile_buff_c, (is_stacked_c) ? b : 0, 0, 0, n);
         /* Copy if reuse is off. */
         zdnnx_copy_data_to_tile(&tb);
         zdnnx_copy_data_to_tile(&tc);
-- 
2.43.0


From ba13e6bf7a5f8b127fba8fec52fec792653a0205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:19 +0000
Subject: [PATCH 99/99] fix: zdnnx_omp_matmul does not tile transposed operands
 as plain ones

The tile sizes of the parallel matmul are those of plain operands: with
transpose_b the inner dimension of B was cut.
---
 src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c b/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
index 5dfeb2d..2d4f5e7 100644
--- a/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
+++ b/src/Accelerators/NNPA/Runtime/zdnnx/omp_ops.c
@@ -170,6 +170,12 @@ zdnn_status zdnnx_omp_matmul(const zdnn_ztensor *input_a,
 #ifdef ZDNNX_DEBUG
   printf("[OMP MatMul]\n");
 #endif
+  // M, N and K are elsewhere in a transposed operand: tile sizes computed below
+  // would not be for them.
+  if (transpose_a || transpose_b)
+    return zdnnx_seq_matmul(input_a, input_b, input_c, transpose_a, transpose_b,
+        op_type, output, is_bcast);
+
   // MatMul types in zdnn:
   // - unstacked: A (2D),  B (2D),  C (1D),  Y (2D)
   // - stacked  : A (3DS), B (3DS), C (2DS), Y (3DS)
-- 
2.43.0

