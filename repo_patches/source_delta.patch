From 08c03849af1a277362f3afc3ec068dfa42d71d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 01/35] fix: integer modulo and floor division trap on a zero
 or -1 divisor

ModOp executed x % 0, and both ModOp and FloorDivOp executed INT_MIN / -1, which kills the process with SIGFPE.
---
 src/BasicMath.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index d3271b3..830624d 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -297,6 +297,13 @@ static const inline T FloorDivOp(T x, T y)
 {
     if (y != 0)
     {
+        // the most negative value divided by -1 does not fit: wrap instead of trapping
+        if constexpr (std::is_integral_v<T> && std::is_signed_v<T>)
+        {
+            if (y == -1)
+                return (T)(0 - (uint64_t)x);
+        }
+
         if ((x < 0) == (y < 0))
             return x / y;
 
@@ -337,6 +344,14 @@ static const inline float FloorDivOp(float x, float y)
 template <typename T>
 static const inline T ModOp(T x, T y)
 {
+    // integer remainder by zero, and of the most negative value by -1, would trap
+    if (y == 0)
+        return 0;
+    if constexpr (std::is_signed_v<T>)
+    {
+        if (y == -1)
+            return 0;
+    }
     return x % y;
 }
 template <typename T>
-- 
2.43.0


From ed152a57e853517281a52ff58f923ee5a474232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 02/35] fix: error messages passed as printf formats or with
 mismatched conversions

---
 src/GroupBy.cpp       | 4 ++--
 src/HashFunctions.cpp | 4 ++--
 src/HashLinear.cpp    | 2 +-
 src/Recycler.cpp      | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index f2438d2..878ddb7 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -4799,7 +4799,7 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
             else
             {
                 return PyErr_Format(PyExc_RuntimeError,
-                                    "Internal error in GroupByAll32: failed to find function %llu for type %d\n", funcNum,
+                                    "Internal error in GroupByAll32: failed to find function %d for type %d\n", funcNum,
                                     numpyOutType);
             }
 
@@ -5115,7 +5115,7 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
             else
             {
                 logger->error("Failed to find function {} for type {}", static_cast<int32_t>(funcNum), numpyOutType);
-                PyErr_Format(PyExc_NotImplementedError, "GroupByAllPack32 doesn't implement function %llu for type %d", funcNum,
+                PyErr_Format(PyExc_NotImplementedError, "GroupByAllPack32 doesn't implement function %d for type %d", funcNum,
                              numpyOutType);
                 return NULL;
             }
diff --git a/src/HashFunctions.cpp b/src/HashFunctions.cpp
index 46b0770..61bcba1 100644
--- a/src/HashFunctions.cpp
+++ b/src/HashFunctions.cpp
@@ -191,7 +191,7 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
     }
     catch (std::runtime_error const & e)
     {
-        PyErr_Format(PyExc_RuntimeError, e.what());
+        PyErr_Format(PyExc_RuntimeError, "%s", e.what());
         return NULL;
     }
 
@@ -443,7 +443,7 @@ PyObject * IsMemberCategoricalFixup(PyObject * self, PyObject * args)
         }
         if (err)
         {
-            PyErr_Format(PyExc_RuntimeError, err);
+            PyErr_Format(PyExc_RuntimeError, "%s", err);
             return NULL;
         }
 
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 033a06d..68d8822 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -5899,7 +5899,7 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
     catch (std::runtime_error const & e)
     {
         // TODO: Need to release some objects that may have been allocated? E.g. 'boolArray', 'indexArray'.
-        PyErr_Format(PyExc_RuntimeError, e.what());
+        PyErr_Format(PyExc_RuntimeError, "%s", e.what());
         return NULL;
     }
 }
diff --git a/src/Recycler.cpp b/src/Recycler.cpp
index a545ba4..f882387 100644
--- a/src/Recycler.cpp
+++ b/src/Recycler.cpp
@@ -513,7 +513,7 @@ PyObject * RecycleDump(PyObject * self, PyObject * args)
                 for (int k = 0; k < RECYCLE_MAXIMUM_SEARCH; k++)
                 {
                     totalSize += pItems->Item[k].totalSize;
-                    std::printf(GetItemStats(pItems, k).c_str());
+                    std::printf("%s", GetItemStats(pItems, k).c_str());
                 }
             }
         }
-- 
2.43.0


From 10d6e4b59c4b852bd71a0ef3b49d885c8ff23288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 03/35] fix: log record timestamp is truncated to 32 bits

---
 src/Logger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Logger.cpp b/src/Logger.cpp
index 237a6d1..d8668e2 100644
--- a/src/Logger.cpp
+++ b/src/Logger.cpp
@@ -114,7 +114,8 @@ namespace
 
                     auto timestamp_ns{ msg.time.time_since_epoch().count() };
 
-                    auto extra{ Py_BuildValue("{s:O, s:I}", "source_info", source_info, "timestamp", timestamp_ns) };
+                    auto extra{ Py_BuildValue("{s:O, s:L}", "source_info", source_info, "timestamp",
+                                              static_cast<long long>(timestamp_ns)) };
 
                     auto args{ Py_BuildValue("(iN)", static_cast<int>(msg.level),
                                              PyUnicode_Decode(msg.message.c_str(), msg.message.size(), NULL, "replace")) };
-- 
2.43.0


From 5318bd42b1df22b00ebdd88af3de9baf28041569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 04/35] fix: every forwarded log record leaks its argument
 objects

---
 src/Logger.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Logger.cpp b/src/Logger.cpp
index d8668e2..2edb328 100644
--- a/src/Logger.cpp
+++ b/src/Logger.cpp
@@ -114,18 +114,20 @@ namespace
 
                     auto timestamp_ns{ msg.time.time_since_epoch().count() };
 
-                    auto extra{ Py_BuildValue("{s:O, s:L}", "source_info", source_info, "timestamp",
+                    auto extra{ Py_BuildValue("{s:N, s:L}", "source_info", source_info, "timestamp",
                                               static_cast<long long>(timestamp_ns)) };
 
                     auto args{ Py_BuildValue("(iN)", static_cast<int>(msg.level),
                                              PyUnicode_Decode(msg.message.c_str(), msg.message.size(), NULL, "replace")) };
-                    auto kwargs{ Py_BuildValue("{s:O}", "extra", extra) };
+                    auto kwargs{ Py_BuildValue("{s:N}", "extra", extra) };
 
                     if (args and kwargs)
                     {
                         auto res{ PyObject_Call(log_method, args, kwargs) };
                         Py_XDECREF(res);
                     }
+                    Py_XDECREF(args);
+                    Py_XDECREF(kwargs);
                     Py_DECREF(log_method);
                 }
 
-- 
2.43.0


From 0cfce6ad91ede04ec70be5850c0946061b67787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 05/35] fix: decompression workers raise Python exceptions
 without the interpreter lock

---
 src/Compress.cpp | 28 +++++++++++++++++-----------
 src/Compress.h   |  3 +++
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/Compress.cpp b/src/Compress.cpp
index 0330788..33cb9f9 100644
--- a/src/Compress.cpp
+++ b/src/Compress.cpp
@@ -80,7 +80,8 @@ bool DecompressOneArray(void * pstCompressArraysV, int core, int64_t t)
         case ZSTD_CONTENTSIZE_UNKNOWN:
         case ZSTD_CONTENTSIZE_ERROR:
         case 0:
-            PyErr_Format(PyExc_ValueError, "input data invalid or missing content size in frame header");
+            // called from worker threads: the interpreter cannot be used here, the caller raises
+            InterlockedIncrement64(&pstCompressArrays->decompressFailures);
             return false;
 
         default:
@@ -92,17 +93,9 @@ bool DecompressOneArray(void * pstCompressArraysV, int core, int64_t t)
 
         size_t cSize = ZSTD_decompress(dest, dest_size, source, pNumpyHeader->compressedSize);
 
-        if (ZSTD_isError(cSize))
+        if (ZSTD_isError(cSize) || cSize != dest_size)
         {
-            PyErr_Format(PyExc_ValueError, "Decompression error: %s", ZSTD_getErrorName(cSize));
-            return false;
-        }
-        else if (cSize != dest_size)
-        {
-            PyErr_Format(PyExc_ValueError,
-                         "Decompression error: length mismatch -> decomp %llu != "
-                         "%llu [header]",
-                         (uint64_t)cSize, dest_size);
+            InterlockedIncrement64(&pstCompressArrays->decompressFailures);
             return false;
         }
     }
@@ -187,6 +180,7 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
         COMPRESS_NUMPY_TO_NUMPY * pstCompressArrays =
             (COMPRESS_NUMPY_TO_NUMPY *)WORKSPACE_ALLOC(sizeof(COMPRESS_NUMPY_TO_NUMPY) + (tupleSize * sizeof(NUMPY_HEADERSIZE *)));
         pstCompressArrays->totalHeaders = tupleSize;
+        pstCompressArrays->decompressFailures = 0;
 
         //---------------------
         if (level <= 0)
@@ -248,6 +242,18 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
                 }
 
                 g_cMathWorker->DoMultiThreadedWork((int)tupleSize, DecompressOneArray, pstCompressArrays);
+
+                if (pstCompressArrays->decompressFailures != 0)
+                {
+                    for (int t = 0; t < tupleSize; t++)
+                    {
+                        Py_XDECREF((PyObject *)pstCompressArrays->pNumpyArray[t]);
+                    }
+                    WORKSPACE_FREE(pstCompressArrays);
+                    FreeArrayInfo(aInfo);
+                    PyErr_Format(PyExc_ValueError, "Decompression error: input data invalid or length mismatch");
+                    return NULL;
+                }
             }
             break;
         }
diff --git a/src/Compress.h b/src/Compress.h
index d09fdb9..e06728d 100644
--- a/src/Compress.h
+++ b/src/Compress.h
@@ -75,6 +75,9 @@ struct COMPRESS_NUMPY_TO_NUMPY
     int16_t compType;
     int32_t compLevel;
 
+    // Number of arrays that could not be decompressed (counted by worker threads)
+    int64_t decompressFailures;
+
     // Per core allocations
     void * pCoreMemory[64];
 
-- 
2.43.0


From e31c1740e8fde1683107c7530eecea09e3731ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:40 +0000
Subject: [PATCH 06/35] fix: group-by workers release arrays and raise
 exceptions without the interpreter lock

---
 src/Ema.cpp     | 11 ++++-------
 src/GroupBy.cpp | 24 +++++++++++++++---------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 119ebe4..17be538 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -2296,13 +2296,7 @@ void EmaByCall(void * pEmaBy, int64_t i)
     }
     else
     {
-        // TJD: memory leak?
-        if (outArray)
-        {
-            printf("!!! deleting extra object\n");
-            Py_DecRef((PyObject *)outArray);
-        }
-
+        // NOTE: an output array that was not filled is released by the caller, which holds the GIL
         LOGGING(
             "**skipping col %llu  ==> outsize %llu   len: %llu   numpy types "
             "%d --> %d   %d %d\n",
@@ -2523,7 +2517,10 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         PyObject * item = pstEma32->returnObjects[i].returnObject;
 
         if (item == Py_None)
+        {
+            Py_XDECREF((PyObject *)pstEma32->returnObjects[i].outArray);
             Py_INCREF(Py_None);
+        }
 
         // Set item will not change reference
         PyTuple_SET_ITEM(returnTuple, i, item);
diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index 878ddb7..6424e7a 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -1674,8 +1674,7 @@ public:
 
         if (windowSize <= 0)
         {
-            // negative or zero window sizes not accepted yet
-            PyErr_Format(PyExc_ValueError, "Negative or zero window sizes are not supported for rolling_quantile.");
+            // negative or zero window sizes not accepted yet; GroupByAllPack32 rejects them before dispatching to workers
             return;
         }
         else if (windowSize == 1)
@@ -4169,13 +4168,7 @@ void GroupByCall(void * pGroupBy, int64_t i)
     }
     else
     {
-        // TJD: memory leak?
-        if (outArray)
-        {
-            logger->warn("!!! deleting extra object\n");
-            Py_DecRef((PyObject *)outArray);
-        }
-
+        // NOTE: an output array that was not filled is released by the caller, which holds the GIL
         logger->debug(
             "**skipping col {}  ==> outsize {}   len: {}   numpy types "
             "{} --> {}   {} {}",
@@ -4835,7 +4828,10 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
             PyObject * item = pstGroupBy32->returnObjects[i].returnObject;
 
             if (item == Py_None)
+            {
+                Py_XDECREF((PyObject *)pstGroupBy32->returnObjects[i].outArray);
                 Py_INCREF(Py_None);
+            }
 
             PyTuple_SET_ITEM(returnTuple, i, item);
 
@@ -5044,6 +5040,13 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
                 PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listFuncNum, i), &overflow)) };
             pstGroupBy32->returnObjects[i].funcNum = funcNum;
 
+            // The window size is encoded in funcParam, see AccumRollingQuantile1e9Mult
+            if (funcNum == GB_ROLLING_QUANTILE && funcParam / (static_cast<int64_t>(1e9) + 1) <= 0)
+            {
+                PyErr_Format(PyExc_ValueError, "Negative or zero window sizes are not supported for rolling_quantile.");
+                return NULL;
+            }
+
             int64_t binLow = PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listBinLow, i), &overflow);
             pstGroupBy32->returnObjects[i].binLow = binLow;
 
@@ -5148,7 +5151,10 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
             PyObject * item = pstGroupBy32->returnObjects[i].returnObject;
 
             if (item == Py_None)
+            {
+                Py_XDECREF((PyObject *)pstGroupBy32->returnObjects[i].outArray);
                 Py_INCREF(Py_None);
+            }
 
             PyTuple_SET_ITEM(returnTuple, i, item);
         }
-- 
2.43.0


From 0af30a720c0ea52ead407160fe66de8370ef7624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:40 +0000
Subject: [PATCH 07/35] fix: exception leaves MultiKeyGroupBy32Super without
 the interpreter lock

---
 src/MultiKey.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index d2bd21d..b3b4d67 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -1198,9 +1198,17 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
 
                 Py_BEGIN_ALLOW_THREADS
 
-                    numUnique = (int64_t)GroupBy32Super(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray, coreType,
-                                                        pIndexArray, pNextArray, pUniqueArray, pUniqueCountArray,
-                                                        HASH_MODE(hashMode), mkp.hintSize, mkp.pBoolFilter);
+                    try
+                    {
+                        numUnique = (int64_t)GroupBy32Super(mkp.totalRows, mkp.totalItemSize, (const char *)mkp.pSuperArray,
+                                                            coreType, pIndexArray, pNextArray, pUniqueArray, pUniqueCountArray,
+                                                            HASH_MODE(hashMode), mkp.hintSize, mkp.pBoolFilter);
+                    }
+                    catch (...)
+                    {
+                        // the handlers below need the interpreter lock
+                        Py_BLOCK_THREADS throw;
+                    }
 
                 Py_END_ALLOW_THREADS
 
-- 
2.43.0


From 88a87616d8087ff06e54920f5c41c0efee7f8b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:52 +0000
Subject: [PATCH 08/35] fix: masked load of an empty column divides by zero

---
 src/SDSFile.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index e489f76..99ffcfd 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -1313,6 +1313,10 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
 {
     int64_t result = -1;
 
+    // An empty array has no rows to read
+    if (bytesPerRow <= 0)
+        return 0;
+
     int64_t lastRow = pFilter->BoolMaskLength;
     int64_t lastPossibleRow = (uncompressedSize - bytesPerRow) / bytesPerRow;
     int64_t lastData = (bytesPerRow * lastRow);
@@ -1546,6 +1550,10 @@ int64_t ReadAndDecompressBandWithFilter(SDS_ARRAY_BLOCK * pBlockInfo, // may con
 
     int64_t bytesPerRow = GetBytesPerRow(pBlockInfo);
 
+    // An empty array has no rows to read
+    if (bytesPerRow <= 0)
+        return 0;
+
     int64_t previousSize = 0;
 
     // Is it a fancy mask filter?
-- 
2.43.0


From b8fd788db8b9b3d23d217d1b4bb327294b36e594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:24 +0000
Subject: [PATCH 09/35] fix: stored SDS error text is used as a format string

---
 src/SDSFilePython.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 994343f..c703ee7 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -363,7 +363,7 @@ static bool CheckErrors()
 {
     if (g_lastexception)
     {
-        PyErr_Format(PyExc_ValueError, g_errorbuffer);
+        PyErr_Format(PyExc_ValueError, "%s", g_errorbuffer);
         return true;
     }
     return false;
-- 
2.43.0


From 382a74232110fd325adb0a236cffee41af98bea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:58 +0000
Subject: [PATCH 10/35] fix: binning functions return None with an exception
 set

---
 src/Bins.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 0959de3..c4e7447 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -216,6 +216,7 @@ PyObject * ReIndex(PyObject * self, PyObject * args)
         PyErr_Format(PyExc_ValueError,
                      "ReIndex: Must pass in at least two params, "
                      "first param is the indexer");
+        return NULL;
     }
     Py_INCREF(Py_None);
     return Py_None;
@@ -501,6 +502,7 @@ PyObject * NanInfCountFromSort(PyObject * self, PyObject * args)
         else
         {
             PyErr_Format(PyExc_ValueError, "NanInfCountFromSort: Array sizes must match");
+            return NULL;
         }
     }
     else
@@ -508,6 +510,7 @@ PyObject * NanInfCountFromSort(PyObject * self, PyObject * args)
         PyErr_Format(PyExc_ValueError,
                      "NanInfCountFromSort: Must pass in at least two params, first "
                      "param is the value array");
+        return NULL;
     }
 
     Py_INCREF(Py_None);
@@ -715,6 +718,7 @@ PyObject * BinsToCutsSorted(PyObject * self, PyObject * args)
     if (PyArray_TYPE(binArr1) != NPY_DOUBLE)
     {
         PyErr_Format(PyExc_ValueError, "bin array must be float64 -- not %d", PyArray_TYPE(binArr1));
+        return NULL;
     }
     else
     {
@@ -1949,7 +1953,5 @@ PyObject * BinsToCutsBSearch(PyObject * self, PyObject * args)
         }
     }
     PyErr_Format(PyExc_ValueError, "bin array must be int32/int64/float32/float64 -- not %d", PyArray_TYPE(binArr1));
-
-    Py_INCREF(Py_None);
-    return Py_None;
+    return NULL;
 }
-- 
2.43.0


From 3da253fcaa1f47f452d45dc9afb7d7e01f533fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:58 +0000
Subject: [PATCH 11/35] fix: EmaAll32 goes on with an argument it has rejected

---
 src/Ema.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Ema.cpp b/src/Ema.cpp
index 17be538..8ad254a 100644
--- a/src/Ema.cpp
+++ b/src/Ema.cpp
@@ -2373,6 +2373,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inTime))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inTime must be an array");
+            return NULL;
         }
 
         if (inIncludeMask == (PyArrayObject *)Py_None)
@@ -2382,6 +2383,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inIncludeMask))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inIncludeMask must be an array");
+            return NULL;
         }
 
         if (inResetMask == (PyArrayObject *)Py_None)
@@ -2391,6 +2393,7 @@ PyObject * EmaAll32(PyObject * self, PyObject * args)
         else if (! PyArray_Check(inResetMask))
         {
             PyErr_Format(PyExc_ValueError, "EmaAll32 inResetMask must be an array");
+            return NULL;
         }
         break;
 
-- 
2.43.0


From 90c9002f6150a88e384c33955ee0c8d703d00940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:58 +0000
Subject: [PATCH 12/35] fix: interrupted group-by returns NULL without an
 exception

---
 src/GroupBy.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index 6424e7a..b9ce312 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -200,6 +200,17 @@ using riptide::is_interrupted;
 using riptide::interruptible_for;
 using riptide::interruptible_section;
 
+// The calculation was interrupted: leave the exception of the interpreter's SIGINT handler pending.
+static PyObject * raise_interrupted()
+{
+    PyErr_SetInterrupt();
+    if (PyErr_CheckSignals() == 0)
+    {
+        PyErr_SetNone(PyExc_KeyboardInterrupt);
+    }
+    return NULL;
+}
+
 //-------------------------------------------------------------------
 // T = data type as input
 // U = data type as output
@@ -4371,8 +4382,7 @@ PyObject * GroupBySingleOpMultiBands(ArrayInfo * aInfo, PyArrayObject * iKey, Py
 
             if (interruptible_section(section))
             {
-                PyErr_SetInterrupt();
-                return NULL;
+                return raise_interrupted();
             }
 
             // New reference
@@ -4529,8 +4539,7 @@ PyObject * GroupBySingleOpMultithreaded(ArrayInfo * aInfo, PyArrayObject * iKey,
 
             if (interruptible_section(section))
             {
-                PyErr_SetInterrupt();
-                return NULL;
+                return raise_interrupted();
             }
 
             logger->debug("after threaded");
@@ -4812,8 +4821,7 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
 
         if (interruptible_section(section))
         {
-            PyErr_SetInterrupt();
-            return NULL;
+            return raise_interrupted();
         }
 
         logger->debug("!!groupby done {}", tupleSize);
@@ -5136,8 +5144,7 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
 
         if (interruptible_section(section))
         {
-            PyErr_SetInterrupt();
-            return NULL;
+            return raise_interrupted();
         }
 
         logger->debug("!!groupby done {}", tupleSize);
-- 
2.43.0


From 640f8129f5c3616f4002bd58ef7472b8f56257b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:25 +0000
Subject: [PATCH 13/35] fix: NULL returned without an exception, results
 returned with one

---
 src/Convert.cpp    | 3 ++-
 src/HashLinear.cpp | 1 +
 src/MultiKey.cpp   | 4 +++-
 src/Reduce.cpp     | 6 +++---
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index d8df26c..144645d 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -2520,8 +2520,9 @@ PyObject * MakeiFirst(PyObject * self, PyObject * args)
 
             return (PyObject *)firstArray;
         }
+        return NULL;
     }
-    return NULL;
+    return PyErr_Format(PyExc_ValueError, "MakeiFirst: Index must be int8, int16, int32 or int64, not type %d", dtype);
 }
 
 //=====================================================================================
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 68d8822..6e5a8b2 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -5694,6 +5694,7 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
 
     if (tupleSize <= 1)
     {
+        PyErr_Format(PyExc_ValueError, "IsMember32 needs at least two args instead of %lld args", (long long)tupleSize);
         return NULL;
     }
 
diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index b3b4d67..dd07ea0 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -1158,6 +1158,7 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
         if (mkp.totalRows > 2100000000)
         {
             PyErr_Format(PyExc_ValueError, "MultiKeyHash exceeding 32bit limits %llu", mkp.totalRows);
+            return NULL;
         }
 
         // Rotate the arrays
@@ -1530,6 +1531,7 @@ PyObject * MultiKeyHash(PyObject * self, PyObject * args)
         if (lastArray == NULL)
         {
             PyErr_Format(PyExc_ValueError, "MultiKeyHash out of memory    %llu", mkp.totalRows);
+            return NULL;
         }
         else
         {
@@ -2647,7 +2649,7 @@ PyObject * BinCount(PyObject * self, PyObject * args, PyObject * kwargs)
             else
             {
                 // out of memory
-                return NULL;
+                return PyErr_NoMemory();
             }
         }
         else
diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 2ff168c..f7602fb 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -3322,7 +3322,7 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
                 case NPY_LONGDOUBLE:
                     return PyFloat_FromDouble(riptide::invalid_for_type<double>::value);
                 default:
-                    return NULL;
+                    Py_RETURN_NONE; // punt to numpy
                 }
             }
             else
@@ -3351,11 +3351,11 @@ static PyObject * ReduceInternal(PyArrayObject * inArr1, REDUCE_FUNCTIONS func,
                 case NPY_LONGDOUBLE:
                     return PyFloat_FromDouble(sgFunc.resultOut);
                 default:
-                    return NULL;
+                    Py_RETURN_NONE; // punt to numpy
                 }
             }
         default:
-            return NULL;
+            Py_RETURN_NONE; // punt to numpy
         }
     }
 }
-- 
2.43.0


From 1da70dab632c79d1e5a74c47c5d44622e0a671ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:25 +0000
Subject: [PATCH 14/35] fix: rejected calls of BasicMathHook and file
 concatenation go on

---
 src/Hook.cpp          | 1 +
 src/SDSFilePython.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/Hook.cpp b/src/Hook.cpp
index 1893924..ed1a835 100644
--- a/src/Hook.cpp
+++ b/src/Hook.cpp
@@ -331,6 +331,7 @@ PyObject * BasicMathHook(PyObject * self, PyObject * args)
     if (! PyModule_Check(self))
     {
         PyErr_Format(PyExc_ValueError, "BasicMathHook must call from a module");
+        return NULL;
     }
 
     if (g_ishooked == 0)
diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index c703ee7..bce33dc 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -1803,6 +1803,7 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
         if (! pOutputName)
         {
             PyErr_Format(PyExc_ValueError, "The output= must be a filename when concatenating files");
+            return NULL;
         }
     }
 
-- 
2.43.0


From a012abd09a82438795a6b0443fc538d22615f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:35 +0000
Subject: [PATCH 15/35] fix: unaligned array data is accessed with aligned
 vector moves

---
 src/BasicMath.cpp | 11 +++++------
 src/Bins.cpp      |  2 +-
 src/Merge.cpp     | 16 ++++++++--------
 src/Reduce.cpp    |  2 +-
 src/RipTide.h     |  7 +++++++
 5 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 830624d..9049893 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -582,7 +582,7 @@ static const inline __m256d DIV_OP_256f64(__m256d x, __m256d y)
 }
 static const inline __m256d CONV_INT32_DOUBLE(__m128i * x)
 {
-    return _mm256_cvtepi32_pd(*x);
+    return _mm256_cvtepi32_pd(_mm_loadu_si128(x));
 }
 
 // static const inline __m256d CONV_INT16_DOUBLE(__m128i x) { return
@@ -862,10 +862,10 @@ inline void SimpleMathOpFast(void * pDataIn1X, void * pDataIn2X, void * pDataOut
 
                     const U256 m1 = LOADU(pIn2_256);
 
-                    // apply 256bit aligned operations
+                    // apply 256bit operations, aligned unless the items themselves are not
                     while (pIn1_256 < pEnd_256)
                     {
-                        STOREA(pIn1_256, MATH_OP256(LOADA(pIn1_256), m1));
+                        STOREU(pIn1_256, MATH_OP256(LOADU(pIn1_256), m1));
                         pIn1_256++;
                     }
 
@@ -1053,11 +1053,10 @@ inline void SimpleMathOpFastSymmetric(void * pDataIn1X, void * pDataIn2X, void *
 
                     const U256 m1 = LOADU(pIn2_256);
 
-                    // apply 256bit aligned operations
+                    // apply 256bit operations, aligned unless the items themselves are not
                     while (pIn1_256 < pEnd_256)
                     {
-                        // pin1_256 is aligned
-                        STOREA(pIn1_256, MATH_OP256(m1, *pIn1_256));
+                        STOREU(pIn1_256, MATH_OP256(m1, LOADU(pIn1_256)));
                         pIn1_256++;
                     }
 
diff --git a/src/Bins.cpp b/src/Bins.cpp
index c4e7447..6c2945d 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -70,7 +70,7 @@ REINDEXCALLBACK ReIndexDataStep1(int64_t itemSize)
     case 8:
         return ReIndexData<T, double>;
     case 16:
-        return ReIndexData<T, __m128>;
+        return ReIndexData<T, array_item16>;
     default:
         return ReIndexData<T>;
     }
diff --git a/src/Merge.cpp b/src/Merge.cpp
index 1e9c356..ce1172f 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1142,7 +1142,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int8_t>;
         case 16:
-            return GetItemInt<__m128, int8_t>;
+            return GetItemInt<array_item16, int8_t>;
         default:
             return GetItemIntVariable<int8_t>;
         }
@@ -1159,7 +1159,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemUInt<int64_t, int8_t>;
         case 16:
-            return GetItemUInt<__m128, int8_t>;
+            return GetItemUInt<array_item16, int8_t>;
         default:
             return GetItemUIntVariable<int8_t>;
         }
@@ -1177,7 +1177,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int16_t>;
         case 16:
-            return GetItemInt<__m128, int16_t>;
+            return GetItemInt<array_item16, int16_t>;
         default:
             return GetItemIntVariable<int16_t>;
         }
@@ -1194,7 +1194,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemUInt<int64_t, int16_t>;
         case 16:
-            return GetItemUInt<__m128, int16_t>;
+            return GetItemUInt<array_item16, int16_t>;
         default:
             return GetItemUIntVariable<int16_t>;
         }
@@ -1212,7 +1212,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int32_t>;
         case 16:
-            return GetItemInt<__m128, int32_t>;
+            return GetItemInt<array_item16, int32_t>;
         default:
             return GetItemIntVariable<int32_t>;
         }
@@ -1229,7 +1229,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemUInt<int64_t, int32_t>;
         case 16:
-            return GetItemUInt<__m128, int32_t>;
+            return GetItemUInt<array_item16, int32_t>;
         default:
             return GetItemUIntVariable<int32_t>;
         }
@@ -1247,7 +1247,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemInt<int64_t, int64_t>;
         case 16:
-            return GetItemInt<__m128, int64_t>;
+            return GetItemInt<array_item16, int64_t>;
         default:
             return GetItemIntVariable<int64_t>;
         }
@@ -1264,7 +1264,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         case 8:
             return GetItemUInt<int64_t, int64_t>;
         case 16:
-            return GetItemUInt<__m128, int64_t>;
+            return GetItemUInt<array_item16, int64_t>;
         default:
             return GetItemUIntVariable<int64_t>;
         }
diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index f7602fb..884f3e8 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -2791,7 +2791,7 @@ class ReduceVariance final
             while (pIn < pEnd)
             {
                 // Load 8 floats or 4 doubles
-                m0 = _mm256_sub_pd(_mm256_cvtps_pd(*(__m128 *)pIn), m3);
+                m0 = _mm256_sub_pd(_mm256_cvtps_pd(_mm_loadu_ps(pIn)), m3);
 
                 // square the diff of mean
                 m1 = _mm256_mul_pd(m0, m0);
diff --git a/src/RipTide.h b/src/RipTide.h
index 7e4edf9..be11990 100644
--- a/src/RipTide.h
+++ b/src/RipTide.h
@@ -62,6 +62,13 @@ constexpr bool is_ptr_aligned_as(void const * ptr)
     return (reinterpret_cast<std::uintptr_t>(ptr) % std::alignment_of_v<T>) == 0;
 }
 
+// A 16 byte array item. The data of an array may start at any address, so unlike __m128 this has no 16 byte alignment.
+struct array_item16
+{
+    uint64_t lo;
+    uint64_t hi;
+};
+
 static const int NUMPY_LAST_TYPE = 24;
 static const int MAX_NUMPY_TYPE = 24;
 
-- 
2.43.0


From d696527eec8bbdeb485824f4917796509fd9997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 16/35] fix: unsigned fancy indexes are read as signed

---
 src/Merge.cpp | 56 +++++++++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index ce1172f..61bca40 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -855,7 +855,7 @@ static void GetItemUInt(void * aValues, void * aIndex, void * aDataOut, int64_t
             const INDEX index = *pIndex;
             *pDataOut =
                 // Make sure the item is in range
-                index >= 0 && index < valLength ? pValues[index] : defaultVal;
+                uint64_t(index) < uint64_t(valLength) ? pValues[index] : defaultVal;
             pIndex++;
             pDataOut++;
         }
@@ -868,7 +868,7 @@ static void GetItemUInt(void * aValues, void * aIndex, void * aDataOut, int64_t
             const INDEX index = *pIndex;
             // Make sure the item is in range; if the index is negative -- but
             // otherwise still in range -- mimic Python's negative-indexing support.
-            if (index >= 0 && index < valLength)
+            if (uint64_t(index) < uint64_t(valLength))
             {
                 *pDataOut = *(VALUE *)((char *)pValues + (strideValue * index));
             }
@@ -990,7 +990,7 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
         {
             const INDEX index = *pIndex;
             const char * pSrc;
-            if (index < valLength)
+            if (uint64_t(index) < uint64_t(valLength))
             {
                 pSrc = pValues + (itemSize * index);
             }
@@ -1024,7 +1024,7 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
         {
             const INDEX index = *pIndex;
             const char * pSrc;
-            if (index < valLength)
+            if (uint64_t(index) < uint64_t(valLength))
             {
                 pSrc = pValues + (strideValue * index);
             }
@@ -1151,17 +1151,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int8_t>;
+            return GetItemUInt<int8_t, uint8_t>;
         case 2:
-            return GetItemUInt<int16_t, int8_t>;
+            return GetItemUInt<int16_t, uint8_t>;
         case 4:
-            return GetItemUInt<int32_t, int8_t>;
+            return GetItemUInt<int32_t, uint8_t>;
         case 8:
-            return GetItemUInt<int64_t, int8_t>;
+            return GetItemUInt<int64_t, uint8_t>;
         case 16:
-            return GetItemUInt<array_item16, int8_t>;
+            return GetItemUInt<array_item16, uint8_t>;
         default:
-            return GetItemUIntVariable<int8_t>;
+            return GetItemUIntVariable<uint8_t>;
         }
         break;
 
@@ -1186,17 +1186,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int16_t>;
+            return GetItemUInt<int8_t, uint16_t>;
         case 2:
-            return GetItemUInt<int16_t, int16_t>;
+            return GetItemUInt<int16_t, uint16_t>;
         case 4:
-            return GetItemUInt<int32_t, int16_t>;
+            return GetItemUInt<int32_t, uint16_t>;
         case 8:
-            return GetItemUInt<int64_t, int16_t>;
+            return GetItemUInt<int64_t, uint16_t>;
         case 16:
-            return GetItemUInt<array_item16, int16_t>;
+            return GetItemUInt<array_item16, uint16_t>;
         default:
-            return GetItemUIntVariable<int16_t>;
+            return GetItemUIntVariable<uint16_t>;
         }
         break;
 
@@ -1221,17 +1221,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int32_t>;
+            return GetItemUInt<int8_t, uint32_t>;
         case 2:
-            return GetItemUInt<int16_t, int32_t>;
+            return GetItemUInt<int16_t, uint32_t>;
         case 4:
-            return GetItemUInt<int32_t, int32_t>;
+            return GetItemUInt<int32_t, uint32_t>;
         case 8:
-            return GetItemUInt<int64_t, int32_t>;
+            return GetItemUInt<int64_t, uint32_t>;
         case 16:
-            return GetItemUInt<array_item16, int32_t>;
+            return GetItemUInt<array_item16, uint32_t>;
         default:
-            return GetItemUIntVariable<int32_t>;
+            return GetItemUIntVariable<uint32_t>;
         }
         break;
 
@@ -1256,17 +1256,17 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType)
         switch (itemSize)
         {
         case 1:
-            return GetItemUInt<int8_t, int64_t>;
+            return GetItemUInt<int8_t, uint64_t>;
         case 2:
-            return GetItemUInt<int16_t, int64_t>;
+            return GetItemUInt<int16_t, uint64_t>;
         case 4:
-            return GetItemUInt<int32_t, int64_t>;
+            return GetItemUInt<int32_t, uint64_t>;
         case 8:
-            return GetItemUInt<int64_t, int64_t>;
+            return GetItemUInt<int64_t, uint64_t>;
         case 16:
-            return GetItemUInt<array_item16, int64_t>;
+            return GetItemUInt<array_item16, uint64_t>;
         default:
-            return GetItemUIntVariable<int64_t>;
+            return GetItemUIntVariable<uint64_t>;
         }
         break;
     }
-- 
2.43.0


From 7359dbf8c6b287c490f590558d30e2eef9baf7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 17/35] fix: sqrt, cbrt, log and exp of uint64 read the
 elements as signed

---
 src/UnaryOps.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index f552b38..4aa842f 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -2060,7 +2060,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_SQRT<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_SQRT<int64_t>;
+            return UnaryOpSlowDouble_SQRT<uint64_t>;
         case NPY_DOUBLE:
             return UnaryOpSlow_SQRT<double>;
         case NPY_LONGDOUBLE:
@@ -2087,7 +2087,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_CBRT<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_CBRT<int64_t>;
+            return UnaryOpSlowDouble_CBRT<uint64_t>;
         }
         break;
 
@@ -2116,7 +2116,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_LOG<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_LOG<int64_t>;
+            return UnaryOpSlowDouble_LOG<uint64_t>;
         }
         break;
 
@@ -2145,7 +2145,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_LOG10<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_LOG10<int64_t>;
+            return UnaryOpSlowDouble_LOG10<uint64_t>;
         }
         break;
 
@@ -2174,7 +2174,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_EXP<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_EXP<int64_t>;
+            return UnaryOpSlowDouble_EXP<uint64_t>;
         }
         break;
 
@@ -2203,7 +2203,7 @@ UNARY_FUNC GetUnaryOpSlow(int func, int numpyInType1, int numpyOutType, int * wa
         CASE_NPY_INT64:
             return UnaryOpSlowDouble_EXP2<int64_t>;
         CASE_NPY_UINT64:
-            return UnaryOpSlowDouble_EXP2<int64_t>;
+            return UnaryOpSlowDouble_EXP2<uint64_t>;
         }
         break;
 
-- 
2.43.0


From da7df919d8e89fb6424b82c2c4f676204a8cfed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 18/35] fix: unsigned fancy indexing of strings advances the
 output twice per row

---
 src/Merge.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index 61bca40..a5118f9 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1014,7 +1014,6 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
             //    memcpy(pDataOut, pSrc, itemSize);
 
             pIndex++;
-            pDataOut += itemSize;
         }
     }
     else
@@ -1046,7 +1045,6 @@ static void GetItemUIntVariable(void * aValues, void * aIndex, void * aDataOut,
                 *pDataOut++ = *pSrc++;
             }
             pIndex = STRIDE_NEXT(const INDEX, pIndex, strideIndex);
-            pDataOut += itemSize;
         }
     }
 }
-- 
2.43.0


From 72ccc819a2399e5a84d0811c98c13365ee5b80df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:22 +0000
Subject: [PATCH 19/35] fix: parallel fancy indexing of strided values writes
 outside the result

---
 src/Merge.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Merge.cpp b/src/Merge.cpp
index a5118f9..a113a6d 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1100,7 +1100,8 @@ static bool GetItemCallback(struct stMATH_WORKER_ITEM * pstWorkerItem, int core,
         // work block
         int64_t blockStart = workBlock * pstWorkerItem->BlockSize;
 
-        int64_t valueAdj = blockStart * strideValue;
+        // the output is contiguous even when the values are not
+        int64_t outputAdj = blockStart * valueItemSize;
         int64_t indexAdj = blockStart * strideIndex;
 
         LOGGING(
@@ -1108,7 +1109,7 @@ static bool GetItemCallback(struct stMATH_WORKER_ITEM * pstWorkerItem, int core,
             "%lld %lld\n",
             core, workBlock, pstWorkerItem->BlockSize, lenX, typeSizeValues, typeSizeIndex, valueAdj, indexAdj);
 
-        Callback->GetItemCallback(aValues, aIndex + indexAdj, (char *)Callback->pDataOut + valueAdj, Callback->aValueLength,
+        Callback->GetItemCallback(aValues, aIndex + indexAdj, (char *)Callback->pDataOut + outputAdj, Callback->aValueLength,
                                   valueItemSize, lenX, strideIndex, strideValue, Callback->pDefault);
 
         // Indicate we completed a block
-- 
2.43.0


From 635064f9905c3057558be7e9384cae14b729058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:16 +0000
Subject: [PATCH 20/35] fix: failed array allocations are used

---
 src/Array.cpp         | 35 +++++++++++++++++++++++++++++++++++
 src/HashFunctions.cpp | 20 ++++++++++++++++++++
 src/HashLinear.cpp    | 38 ++++++++++++++++++++++++++++++++++++++
 src/Hook.cpp          | 21 +++++++++++++--------
 src/Sort.cpp          | 33 +++++++++++++++++++++++++++++++++
 5 files changed, 139 insertions(+), 8 deletions(-)

diff --git a/src/Array.cpp b/src/Array.cpp
index 3cbee39..2fefaa5 100644
--- a/src/Array.cpp
+++ b/src/Array.cpp
@@ -30,6 +30,10 @@ static PyObject * ConvertFloat64(PyObject * object)
     // We have a float
     // If the dtype requested was float32 handle this also
     PyArrayObject * pArray = AllocateNumpyArray(1, &size, NPY_FLOAT64);
+    if (! pArray)
+    {
+        return NULL;
+    }
     double * pFloat64 = (double *)PyArray_DATA(pArray);
 
     for (int64_t i = 0; i < size; i++)
@@ -64,6 +68,10 @@ static PyObject * ConvertInt32(PyObject * object)
 {
     npy_intp size = Py_SIZE(object);
     PyArrayObject * pArray = AllocateNumpyArray(1, &size, NPY_INT32);
+    if (! pArray)
+    {
+        return NULL;
+    }
     int32_t * pInt32 = (int32_t *)PyArray_DATA(pArray);
 
     for (int64_t i = 0; i < size; i++)
@@ -87,6 +95,10 @@ static PyObject * ConvertInt64(PyObject * object)
 {
     npy_intp size = Py_SIZE(object);
     PyArrayObject * pArray = AllocateNumpyArray(1, &size, NPY_INT64);
+    if (! pArray)
+    {
+        return NULL;
+    }
     int64_t * pInt64 = (int64_t *)PyArray_DATA(pArray);
 
     for (int64_t i = 0; i < size; i++)
@@ -105,6 +117,10 @@ static PyObject * ConvertBool(PyObject * object)
     npy_intp size = Py_SIZE(object);
     // We have a bool (which is a subtype of long)
     PyArrayObject * pArray = AllocateNumpyArray(1, &size, NPY_BOOL);
+    if (! pArray)
+    {
+        return NULL;
+    }
     bool * pBool = (bool *)PyArray_DATA(pArray);
 
     for (int64_t i = 0; i < size; i++)
@@ -121,6 +137,10 @@ static PyObject * ConvertBytes(PyObject * object)
     npy_intp size = Py_SIZE(object);
     int64_t maxsize = FindMaxSize(object);
     PyArrayObject * pArray = AllocateNumpyArray(1, &size, NPY_STRING, maxsize);
+    if (! pArray)
+    {
+        return NULL;
+    }
     char * pChar = (char *)PyArray_DATA(pArray);
 
     for (int64_t i = 0; i < size; i++)
@@ -153,6 +173,10 @@ static PyObject * ConvertUnicode(PyObject * object)
     npy_intp size = Py_SIZE(object);
     int64_t maxsize = FindMaxSize(object);
     PyArrayObject * pArray = AllocateNumpyArray(1, &size, NPY_UNICODE, maxsize * 4);
+    if (! pArray)
+    {
+        return NULL;
+    }
     uint32_t * pChar = (uint32_t *)PyArray_DATA(pArray);
 
     for (int64_t i = 0; i < size; i++)
@@ -394,6 +418,12 @@ PyObject * AsAnyArray(PyObject * self, PyObject * args, PyObject * kwargs)
     npy_intp size = 1;
     PyArrayObject * pNewArray = AllocateNumpyArray(1, &size, PyArray_TYPE(pArray), PyArray_ITEMSIZE(pArray));
 
+    if (! pNewArray)
+    {
+        Py_DecRef((PyObject *)pArray);
+        return NULL;
+    }
+
     // copy over the data
     memcpy(PyArray_DATA(pNewArray), PyArray_DATA(pArray), PyArray_ITEMSIZE(pArray));
 
@@ -410,6 +440,11 @@ PyObject * AsFastArray(PyObject * self, PyObject * args, PyObject * kwargs)
 {
     PyArrayObject * pArray = (PyArrayObject *)AsAnyArray(self, args, kwargs);
 
+    if (! pArray)
+    {
+        return NULL;
+    }
+
     // Convert to FastArray
     return SetFastArrayView(pArray);
 }
diff --git a/src/HashFunctions.cpp b/src/HashFunctions.cpp
index 61bcba1..f5e72f1 100644
--- a/src/HashFunctions.cpp
+++ b/src/HashFunctions.cpp
@@ -151,6 +151,10 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
             missed = IsMemberCategoricalHashStringPre(&indexArray, inArr1, arraySize1, sizeType1, (const char *)pDataIn1,
                                                       arraySize2, sizeType2, (const char *)pDataIn2, HASH_MODE(hashMode), hintSize,
                                                       arrayType1 == NPY_UNICODE);
+            if (! indexArray)
+            {
+                return NULL;
+            }
         }
         else if (arrayType1 == NPY_FLOAT32 || arrayType1 == NPY_FLOAT64 || arrayType1 == NPY_LONGDOUBLE)
         {
@@ -158,6 +162,10 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
             if (arraySize1 < 2100000000)
             {
                 indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT32);
+                if (! indexArray)
+                {
+                    return NULL;
+                }
                 int32_t * pDataOut2 = (int32_t *)PyArray_BYTES(indexArray);
                 missed = IsMemberHashCategorical(arraySize1, pDataIn1, arraySize2, pDataIn2, pDataOut2, sizeType1 + 100,
                                                  HASH_MODE(hashMode), hintSize);
@@ -165,6 +173,10 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
             else
             {
                 indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT64);
+                if (! indexArray)
+                {
+                    return NULL;
+                }
                 int64_t * pDataOut2 = (int64_t *)PyArray_BYTES(indexArray);
                 missed = IsMemberHashCategorical64(arraySize1, pDataIn1, arraySize2, pDataIn2, pDataOut2, sizeType1 + 100,
                                                    HASH_MODE(hashMode), hintSize);
@@ -176,6 +188,10 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
             if (arraySize1 < 2100000000)
             {
                 indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT32);
+                if (! indexArray)
+                {
+                    return NULL;
+                }
                 int32_t * pDataOut2 = (int32_t *)PyArray_BYTES(indexArray);
                 missed = IsMemberHashCategorical(arraySize1, pDataIn1, arraySize2, pDataIn2, pDataOut2, sizeType1,
                                                  HASH_MODE(hashMode), hintSize);
@@ -183,6 +199,10 @@ PyObject * IsMemberCategorical(PyObject * self, PyObject * args)
             else
             {
                 indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT64);
+                if (! indexArray)
+                {
+                    return NULL;
+                }
                 int64_t * pDataOut2 = (int64_t *)PyArray_BYTES(indexArray);
                 missed = IsMemberHashCategorical64(arraySize1, pDataIn1, arraySize2, pDataIn2, pDataOut2, sizeType1,
                                                    HASH_MODE(hashMode), hintSize);
diff --git a/src/HashLinear.cpp b/src/HashLinear.cpp
index 6e5a8b2..e27b653 100644
--- a/src/HashLinear.cpp
+++ b/src/HashLinear.cpp
@@ -5374,6 +5374,10 @@ void IsMemberHashString32Pre(PyArrayObject ** indexArray, PyArrayObject * inArr1
     if (size < 100)
     {
         *indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT8);
+        if (! *indexArray)
+        {
+            return;
+        }
         int8_t * pDataOut2 = (int8_t *)PyArray_BYTES(*indexArray);
         IsMemberHashString32<int8_t>(size1, strWidth1, (const char *)pInput1, size2, strWidth2, (const char *)pInput2, pDataOut2,
                                      pBoolOutput, HASH_MODE(hashMode), hintSize, isUnicode);
@@ -5381,6 +5385,10 @@ void IsMemberHashString32Pre(PyArrayObject ** indexArray, PyArrayObject * inArr1
     else if (size < 30000)
     {
         *indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT16);
+        if (! *indexArray)
+        {
+            return;
+        }
         int16_t * pDataOut2 = (int16_t *)PyArray_BYTES(*indexArray);
         IsMemberHashString32<int16_t>(size1, strWidth1, (const char *)pInput1, size2, strWidth2, (const char *)pInput2, pDataOut2,
                                       pBoolOutput, HASH_MODE(hashMode), hintSize, isUnicode);
@@ -5388,6 +5396,10 @@ void IsMemberHashString32Pre(PyArrayObject ** indexArray, PyArrayObject * inArr1
     else if (size < 2000000000)
     {
         *indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT32);
+        if (! *indexArray)
+        {
+            return;
+        }
         int32_t * pDataOut2 = (int32_t *)PyArray_BYTES(*indexArray);
         IsMemberHashString32<int32_t>(size1, strWidth1, (const char *)pInput1, size2, strWidth2, (const char *)pInput2, pDataOut2,
                                       pBoolOutput, HASH_MODE(hashMode), hintSize, isUnicode);
@@ -5395,6 +5407,10 @@ void IsMemberHashString32Pre(PyArrayObject ** indexArray, PyArrayObject * inArr1
     else
     {
         *indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT64);
+        if (! *indexArray)
+        {
+            return;
+        }
         int64_t * pDataOut2 = (int64_t *)PyArray_BYTES(*indexArray);
         IsMemberHashString32<int64_t>(size1, strWidth1, (const char *)pInput1, size2, strWidth2, (const char *)pInput2, pDataOut2,
                                       pBoolOutput, HASH_MODE(hashMode), hintSize, isUnicode);
@@ -5413,6 +5429,10 @@ int64_t IsMemberCategoricalHashStringPre(PyArrayObject ** indexArray, PyArrayObj
     if (size2 < 100)
     {
         *indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT8);
+        if (! *indexArray)
+        {
+            return missed;
+        }
         int8_t * pDataOut2 = (int8_t *)PyArray_BYTES(*indexArray);
         missed = IsMemberHashStringCategorical<int8_t>(size1, strWidth1, (const char *)pInput1, size2, strWidth2,
                                                        (const char *)pInput2, pDataOut2, HASH_MODE(hashMode), hintSize, isUnicode);
@@ -5420,6 +5440,10 @@ int64_t IsMemberCategoricalHashStringPre(PyArrayObject ** indexArray, PyArrayObj
     else if (size2 < 30000)
     {
         *indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT16);
+        if (! *indexArray)
+        {
+            return missed;
+        }
         int16_t * pDataOut2 = (int16_t *)PyArray_BYTES(*indexArray);
         missed =
             IsMemberHashStringCategorical<int16_t>(size1, strWidth1, (const char *)pInput1, size2, strWidth2,
@@ -5428,6 +5452,10 @@ int64_t IsMemberCategoricalHashStringPre(PyArrayObject ** indexArray, PyArrayObj
     else if (size2 < 2000000000)
     {
         *indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT32);
+        if (! *indexArray)
+        {
+            return missed;
+        }
         int32_t * pDataOut2 = (int32_t *)PyArray_BYTES(*indexArray);
         missed =
             IsMemberHashStringCategorical<int32_t>(size1, strWidth1, (const char *)pInput1, size2, strWidth2,
@@ -5436,6 +5464,10 @@ int64_t IsMemberCategoricalHashStringPre(PyArrayObject ** indexArray, PyArrayObj
     else
     {
         *indexArray = AllocateLikeNumpyArray(inArr1, NPY_INT64);
+        if (! *indexArray)
+        {
+            return missed;
+        }
         int64_t * pDataOut2 = (int64_t *)PyArray_BYTES(*indexArray);
         missed =
             IsMemberHashStringCategorical<int64_t>(size1, strWidth1, (const char *)pInput1, size2, strWidth2,
@@ -5891,6 +5923,12 @@ PyObject * IsMember32(PyObject * self, PyObject * args)
             }
         }
 
+        if (! indexArray)
+        {
+            Py_DECREF((PyObject *)boolArray);
+            return NULL;
+        }
+
         PyObject * retObject = Py_BuildValue("(OO)", boolArray, indexArray);
         Py_DECREF((PyObject *)boolArray);
         Py_DECREF((PyObject *)indexArray);
diff --git a/src/Hook.cpp b/src/Hook.cpp
index ed1a835..311e7b5 100644
--- a/src/Hook.cpp
+++ b/src/Hook.cpp
@@ -64,17 +64,18 @@ static PyObject * RiptideTernaryMathFunction(PyObject * self, PyObject * arg1, P
                 PyObject * square = BasicMathTwoInputsFromNumber(self, self, NULL, MATH_OPERATION::MUL);
                 if (square != Py_None)
                 {
-                    if (power == 3)
+                    if (square && power > 2)
                     {
                         // inplace multiply
-                        BasicMathTwoInputsFromNumber(square, self, square, MATH_OPERATION::MUL);
-                        Py_DECREF(square);
-                    }
-                    else if (power == 4)
-                    {
-                        // inplace multiply
-                        BasicMathTwoInputsFromNumber(square, square, square, MATH_OPERATION::MUL);
+                        PyObject * result =
+                            BasicMathTwoInputsFromNumber(square, power == 3 ? self : square, square, MATH_OPERATION::MUL);
                         Py_DECREF(square);
+                        if (result == Py_None)
+                        {
+                            // punt to numpy
+                            return g_MathHook[index].SuperMethod.tfunc(self, arg1, arg2);
+                        }
+                        return result;
                     }
                     return square;
                 }
@@ -141,6 +142,10 @@ static PyObject * RiptideBinaryMathFunctionInplace(PyObject * self, PyObject * r
     LOGGING("in binary math function inplace %lld %s\n", index, self->ob_type->tp_name);
 
     PyObject * result = BasicMathTwoInputsFromNumber(self, right, self, g_MathHook[index].MathOp);
+    if (! result)
+    {
+        return NULL;
+    }
     if (result != Py_None)
     {
         // Check if the output type matches self..
diff --git a/src/Sort.cpp b/src/Sort.cpp
index 433027a..b24a1ee 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -3985,6 +3985,13 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
     if (pCutOffs)
     {
         PyArrayObject * uniqueCounts = AllocateNumpyArray(1, (npy_intp *)&cutOffLength, NPY_INT64);
+        if (! uniqueCounts)
+        {
+            Py_DECREF((PyObject *)keys);
+            Py_DECREF((PyObject *)first);
+            Py_DECREF((PyObject *)count);
+            return NULL;
+        }
         int64_t * pUniqueCounts = (int64_t *)PyArray_BYTES(uniqueCounts);
 
         // Turn off caching of large memory allocs
@@ -4087,6 +4094,17 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
         totalUniques++;
         PyArrayObject * countReduced = AllocateNumpyArray(1, (npy_intp *)&totalUniques, INDEX_SIZE == 4 ? NPY_INT32 : NPY_INT64);
 
+        if (! firstReduced || ! countReduced)
+        {
+            Py_XDECREF((PyObject *)firstReduced);
+            Py_XDECREF((PyObject *)countReduced);
+            Py_DECREF((PyObject *)uniqueCounts);
+            Py_DECREF((PyObject *)keys);
+            Py_DECREF((PyObject *)first);
+            Py_DECREF((PyObject *)count);
+            return NULL;
+        }
+
         // ANOTHER PARALEL ROUTINE to copy
         struct stPGROUPADD
         {
@@ -4299,12 +4317,27 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
         // also count invalid bin
         PyArrayObject * firstReduced =
             AllocateNumpyArray(1, (npy_intp *)&uniqueCount, sizeof(UINDEX) == 4 ? NPY_INT32 : NPY_INT64);
+        if (! firstReduced)
+        {
+            Py_DECREF((PyObject *)keys);
+            Py_DECREF((PyObject *)first);
+            Py_DECREF((PyObject *)count);
+            return NULL;
+        }
         int64_t copySize = sizeof(UINDEX) * uniqueCount;
         memcpy(PyArray_BYTES(firstReduced), pFirstOut, copySize);
 
         uniqueCount++;
         PyArrayObject * countReduced =
             AllocateNumpyArray(1, (npy_intp *)&uniqueCount, sizeof(UINDEX) == 4 ? NPY_INT32 : NPY_INT64);
+        if (! countReduced)
+        {
+            Py_DECREF((PyObject *)firstReduced);
+            Py_DECREF((PyObject *)keys);
+            Py_DECREF((PyObject *)first);
+            Py_DECREF((PyObject *)count);
+            return NULL;
+        }
         copySize = sizeof(UINDEX) * uniqueCount;
         // reduced
         memcpy(PyArray_BYTES(countReduced), pCountOut, copySize);
-- 
2.43.0


From 3caa556132624c21affef2d05e71b02bd1c94cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:16 +0000
Subject: [PATCH 21/35] fix: failed allocations and missing kernels for
 unsupported types are used

---
 src/Convert.cpp  |   8 ++++
 src/MultiKey.cpp | 101 ++++++++++++++++++++++++++++++++++++++---------
 src/Reduce.cpp   |   5 ++-
 src/SDSFile.cpp  |  11 ++++++
 4 files changed, 106 insertions(+), 19 deletions(-)

diff --git a/src/Convert.cpp b/src/Convert.cpp
index 144645d..36a9e9f 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -3279,6 +3279,14 @@ PyObject * HomogenizeArrays(PyObject * self, PyObject * args)
             if (dtype != aInfo[t].NumpyDType)
             {
                 CONVERT_SAFE convertSafe = GetConversionFunctionSafe(aInfo[t].NumpyDType, dtype);
+                if (! convertSafe)
+                {
+                    PyErr_Format(PyExc_ValueError, "HomogenizeArrays: Dont know how to convert dtype num %d to dtype num %d.",
+                                 aInfo[t].NumpyDType, dtype);
+                    Py_DECREF(returnList);
+                    FreeArrayInfo(aInfo);
+                    return NULL;
+                }
                 void * pBadInput1 = GetDefaultForType(aInfo[t].NumpyDType);
                 PyArrayObject * pOutput = AllocateLikeNumpyArray(aInfo[t].pObject, dtype);
 
diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index dd07ea0..8864a0a 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -173,6 +173,12 @@ ArrayInfo * BuildArrayInfo(PyObject * listObject, int64_t * pTupleSize, int64_t
     // return NULL
     ArrayInfo * aInfo = AllocArrayInfo(tupleSize);
 
+    if (! aInfo)
+    {
+        PyErr_NoMemory();
+        return NULL;
+    }
+
     int64_t totalItemSize = 0;
 
     // Build a list of array information so we can rotate it
@@ -625,6 +631,11 @@ int32_t * GroupByPackFixup32(int64_t numUnique, int64_t totalRows, void * pIndex
     int64_t size = sizeof(int32_t) * totalRows;
     int32_t * pNextArray = (int32_t *)WORKSPACE_ALLOC(size);
 
+    if (! pNextArray)
+    {
+        return NULL;
+    }
+
     // mark all invalid
     for (int32_t i = 0; i < numUnique; i++)
     {
@@ -870,6 +881,11 @@ PyObject * GroupByPack32(PyObject * self, PyObject * args)
             int64_t allocsize = sizeof(int32_t) * (numUnique + GB_BASE_INDEX);
             pGroupArray = (int32_t *)WORKSPACE_ALLOC(allocsize);
 
+            if (! pGroupArray)
+            {
+                return PyErr_NoMemory();
+            }
+
             switch (numpyIndexType)
             {
             case NPY_INT8:
@@ -886,9 +902,16 @@ PyObject * GroupByPack32(PyObject * self, PyObject * args)
                 pNextArray = GroupByPackFixup32<int64_t>(numUnique, totalRows, pIndexArray, pGroupArray);
                 break;
             default:
+                WORKSPACE_FREE(pGroupArray);
                 PyErr_Format(PyExc_ValueError, "GroupByPack32 index must be int8 int16, int32, int64");
                 return NULL;
             }
+
+            if (! pNextArray)
+            {
+                WORKSPACE_FREE(pGroupArray);
+                return PyErr_NoMemory();
+            }
         }
         else
         {
@@ -1168,9 +1191,12 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
             PyArrayObject * indexArray = AllocateLikeNumpyArray(mkp.aInfo[0].pObject, numpyIndexType);
             PyArrayObject * nextArray = AllocateLikeNumpyArray(mkp.aInfo[0].pObject, numpyIndexType);
 
-            if (nextArray == NULL)
+            if (indexArray == NULL || nextArray == NULL)
             {
+                Py_XDECREF((PyObject *)indexArray);
+                Py_XDECREF((PyObject *)nextArray);
                 PyErr_Format(PyExc_ValueError, "MultiKeyHash out of memory    %llu", mkp.totalRows);
+                return NULL;
             }
             else
             {
@@ -1245,11 +1271,15 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
                 // printf("--done...\n");
 
                 // Build tuple to return
-                PyObject * retObject = Py_BuildValue("(OOOO)", indexArray, nextArray, uniqueArray, uniqueCountArray);
+                PyObject * retObject = NULL;
+                if (uniqueArray != NULL && uniqueCountArray != NULL)
+                {
+                    retObject = Py_BuildValue("(OOOO)", indexArray, nextArray, uniqueArray, uniqueCountArray);
+                }
                 Py_DECREF((PyObject *)indexArray);
                 Py_DECREF((PyObject *)nextArray);
-                Py_DECREF((PyObject *)uniqueArray);
-                Py_DECREF((PyObject *)uniqueCountArray);
+                Py_XDECREF((PyObject *)uniqueArray);
+                Py_XDECREF((PyObject *)uniqueCountArray);
 
                 return (PyObject *)retObject;
             }
@@ -1340,9 +1370,13 @@ PyObject * MultiKeyUnique32(PyObject * self, PyObject * args)
                     // free the side array
                     WORKSPACE_FREE(pIndexArray);
                     WORKSPACE_FREE(pCountArray);
-                    PyObject * retObject = Py_BuildValue("(OO)", indexArray2, countArray2);
-                    Py_DECREF((PyObject *)indexArray2);
-                    Py_DECREF((PyObject *)countArray2);
+                    PyObject * retObject = NULL;
+                    if (indexArray2 != NULL && countArray2 != NULL)
+                    {
+                        retObject = Py_BuildValue("(OO)", indexArray2, countArray2);
+                    }
+                    Py_XDECREF((PyObject *)indexArray2);
+                    Py_XDECREF((PyObject *)countArray2);
 
                     return (PyObject *)retObject;
                 }
@@ -1393,9 +1427,13 @@ PyObject * MultiKeyUnique32(PyObject * self, PyObject * args)
                     // free the side array
                     WORKSPACE_FREE(pIndexArray);
                     WORKSPACE_FREE(pCountArray);
-                    PyObject * retObject = Py_BuildValue("(OO)", indexArray2, countArray2);
-                    Py_DECREF((PyObject *)indexArray2);
-                    Py_DECREF((PyObject *)countArray2);
+                    PyObject * retObject = NULL;
+                    if (indexArray2 != NULL && countArray2 != NULL)
+                    {
+                        retObject = Py_BuildValue("(OO)", indexArray2, countArray2);
+                    }
+                    Py_XDECREF((PyObject *)indexArray2);
+                    Py_XDECREF((PyObject *)countArray2);
 
                     return (PyObject *)retObject;
                 }
@@ -1475,6 +1513,14 @@ PyObject * MultiKeyRolling(PyObject * self, PyObject * args)
         PyArrayObject * indexArray = AllocateLikeNumpyArray(firstObject, NPY_INT64);
         PyArrayObject * runningCountArray = AllocateLikeNumpyArray(firstObject, NPY_INT64);
 
+        if (indexArray == NULL || runningCountArray == NULL)
+        {
+            Py_XDECREF((PyObject *)indexArray);
+            Py_XDECREF((PyObject *)runningCountArray);
+            PyErr_Format(PyExc_ValueError, "MultiKeyRolling out of memory    %llu", mkp.totalRows);
+            return NULL;
+        }
+
         int64_t * pIndexArray = (int64_t *)PyArray_BYTES(indexArray);
         int64_t * pRunningCountArray = (int64_t *)PyArray_BYTES(runningCountArray);
 
@@ -1528,8 +1574,16 @@ PyObject * MultiKeyHash(PyObject * self, PyObject * args)
         PyArrayObject * bktSizeArray = AllocateLikeNumpyArray(firstObject, NPY_INT32);
         PyArrayObject * lastArray = AllocateLikeNumpyArray(firstObject, NPY_INT32);
 
-        if (lastArray == NULL)
+        if (indexArray == NULL || runningCountArray == NULL || prevArray == NULL || nextArray == NULL || firstArray == NULL ||
+            bktSizeArray == NULL || lastArray == NULL)
         {
+            Py_XDECREF((PyObject *)indexArray);
+            Py_XDECREF((PyObject *)runningCountArray);
+            Py_XDECREF((PyObject *)prevArray);
+            Py_XDECREF((PyObject *)nextArray);
+            Py_XDECREF((PyObject *)firstArray);
+            Py_XDECREF((PyObject *)bktSizeArray);
+            Py_XDECREF((PyObject *)lastArray);
             PyErr_Format(PyExc_ValueError, "MultiKeyHash out of memory    %llu", mkp.totalRows);
             return NULL;
         }
@@ -2098,6 +2152,14 @@ PyObject * GroupFromBinCount(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    MAKE_I_GROUP pMakeIGroup = GetMakeIGroup(iKeyType, outdtype);
+
+    if (! pMakeIGroup)
+    {
+        PyErr_Format(PyExc_ValueError, "GroupFromBinCount: iKey does not have a supported dtype.");
+        return NULL;
+    }
+
     outiGroup = AllocateNumpyArray(1, (npy_intp *)&totalRows, outdtype);
     outiFirstGroup = AllocateNumpyArray(1, (npy_intp *)&totalUnique, outdtype);
 
@@ -2141,8 +2203,6 @@ PyObject * GroupFromBinCount(PyObject * self, PyObject * args)
         //
         // Now build the igroup
         //
-        MAKE_I_GROUP pMakeIGroup = GetMakeIGroup(iKeyType, outdtype);
-
         if (! g_cMathWorker->NoThreading && totalRows > 32000)
         {
             int64_t cores = 0;
@@ -2447,6 +2507,16 @@ PyObject * BinCount(PyObject * self, PyObject * args, PyObject * kwargs)
         outdtype = NPY_INT64;
     }
 
+    // Get the binning functions
+    BIN_COUNT pBinFunc = InternalGetBinFunc(iKeyType, outdtype);
+    MAKE_I_GROUP2 pMakeIGroup2 = GetMakeIGroup2(iKeyType, outdtype);
+
+    if (! pBinFunc || ! pMakeIGroup2)
+    {
+        PyErr_Format(PyExc_ValueError, "BinCount: iKey does not have a supported dtype.");
+        return NULL;
+    }
+
     // Allocate nCountGroup
     outArray = AllocateNumpyArray(1, (npy_intp *)&unique_rows, outdtype);
 
@@ -2456,9 +2526,6 @@ PyObject * BinCount(PyObject * self, PyObject * args, PyObject * kwargs)
         void * pnCountGroup = PyArray_BYTES(outArray);
         int64_t itemSize = PyArray_ITEMSIZE(outArray);
 
-        // Get the binning function
-        BIN_COUNT pBinFunc = InternalGetBinFunc(iKeyType, outdtype);
-
         // TJD October 2019
         // Testing this routine with 800,000 uniques on 2M to 200M
         // multithreading did not make this run faster under some circumstance.
@@ -2579,8 +2646,6 @@ PyObject * BinCount(PyObject * self, PyObject * args, PyObject * kwargs)
                         // The first column of the 2d matrix is now the iFirstGroup
                         memcpy(piFirstGroup, pstBinCount[0].pUserMemory, unique_rows * itemSize);
 
-                        MAKE_I_GROUP2 pMakeIGroup2 = GetMakeIGroup2(iKeyType, outdtype);
-
                         struct stBinMaster
                         {
                             void * piKey;
diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 884f3e8..e3c897b 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -3439,7 +3439,10 @@ namespace riptide::benchmark
         {
             auto reduce = GetReduceFuncPtr(input_type, function);
             stScatterGatherFunc sg_func = { (int32_t)input_type, 0, 0, 0, 0, 0 };
-            reduce(data, length, &sg_func);
+            if (reduce)
+            {
+                reduce(data, length, &sg_func);
+            }
         }
     }
 }
\ No newline at end of file
diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 99ffcfd..d99df0b 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -5259,6 +5259,17 @@ void GapFillAny(SDSArrayInfo * pDestInfo, void * destBuffer, SDS_IO_PACKET * pIO
 
         SDS_GAP_FILL_SPECIAL pGapFill = GetGapFillSpecial(pMasterBlock->DType);
 
+        if (! pGapFill)
+        {
+            // no invalid value for this type (strings), same fill as a one dimensional gap
+            for (int64_t j = 0; j < colSize; j++)
+            {
+                memset((char *)destBuffer + ((j * totalRowLength + pIOPacket->ArrayOffset) * pMasterBlock->ItemSize), 0,
+                       rowLength * pMasterBlock->ItemSize);
+            }
+            return;
+        }
+
         pGapFill(destBuffer, // upper left corner of src
                  totalRowLength,
                  pIOPacket->ArrayOffset, // array offset (start row)
-- 
2.43.0


From 3bec19f22ec49d6c40954f5349fcdfeaa2b7f9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 22/35] fix: reductions of unsupported types call a missing
 kernel, untested results used

---
 src/BasicMath.cpp     | 11 ++++++++++
 src/Convert.cpp       |  4 ++++
 src/Logger.cpp        |  3 ++-
 src/Reduce.cpp        | 47 +++++++++++++++++++++++++++++++++----------
 src/SDSFilePython.cpp |  8 +++++++-
 5 files changed, 60 insertions(+), 13 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 9049893..29f7e0f 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3909,6 +3909,11 @@ PyObject * Where(PyObject * self, PyObject * args)
                 {
                     // These are small allocs that should never fail
                     extraAlloc1 = (char *)malloc(numpyItemSize);
+                    if (! extraAlloc1)
+                    {
+                        Py_DECREF((PyObject *)outputArray);
+                        return PyErr_NoMemory();
+                    }
                     memset(extraAlloc1, 0, numpyItemSize);
                     memcpy(extraAlloc1, pInput1, itemSize1);
 
@@ -3918,6 +3923,12 @@ PyObject * Where(PyObject * self, PyObject * args)
                 if (twoInputs.scalarMode == SCALAR_MODE::BOTH_SCALAR || twoInputs.scalarMode == SCALAR_MODE::SECOND_ARG_SCALAR)
                 {
                     extraAlloc2 = (char *)malloc(numpyItemSize);
+                    if (! extraAlloc2)
+                    {
+                        free(extraAlloc1);
+                        Py_DECREF((PyObject *)outputArray);
+                        return PyErr_NoMemory();
+                    }
                     memset(extraAlloc2, 0, numpyItemSize);
                     memcpy(extraAlloc2, pInput2, itemSize2);
                     pInput2 = extraAlloc2;
diff --git a/src/Convert.cpp b/src/Convert.cpp
index 36a9e9f..e3d08c0 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -3899,6 +3899,10 @@ PyObject * PutMask(PyObject * self, PyObject * args)
     if (! PyArray_Check(value))
     {
         value = PyArray_FromAny(value, NULL, 0, 0, NPY_ARRAY_ENSUREARRAY, NULL);
+        if (! value)
+        {
+            return NULL;
+        }
     }
 
     if (PyArray_Check(arr) && PyArray_Check(mask) && PyArray_Check(value))
diff --git a/src/Logger.cpp b/src/Logger.cpp
index 2edb328..c585098 100644
--- a/src/Logger.cpp
+++ b/src/Logger.cpp
@@ -24,8 +24,9 @@ namespace
         for (const auto & [name, sink] : sinks)
         {
             auto level_attr = PyObject_GetAttrString(sink, "level");
-            if (! PyLong_Check(level_attr))
+            if (! level_attr || ! PyLong_Check(level_attr))
             {
+                PyErr_Clear();
                 Py_XDECREF(level_attr);
                 continue;
                 ;
diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index e3c897b..3d62922 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -2947,7 +2947,12 @@ class ReduceMean final
     // Call SUM and then divide
     static double wrapper(void * pDataIn, int64_t len, stScatterGatherFunc * pstScatterGatherFunc)
     {
-        ReduceSum::GetScatterGatherFuncPtr((NPY_TYPES)pstScatterGatherFunc->inputType)(pDataIn, len, pstScatterGatherFunc);
+        const ANY_SCATTER_GATHER_FUNC sum = ReduceSum::GetScatterGatherFuncPtr((NPY_TYPES)pstScatterGatherFunc->inputType);
+        if (! sum)
+        {
+            return NAN;
+        }
+        sum(pDataIn, len, pstScatterGatherFunc);
         // printf("reduce mean dividing %lf by %lf\n",
         // pstScatterGatherFunc->resultOut, (double)pstScatterGatherFunc->lenOut);
 
@@ -2967,7 +2972,8 @@ public:
     // reduction function specialized for that array type.
     static ANY_SCATTER_GATHER_FUNC GetScatterGatherFuncPtr(const NPY_TYPES inputType)
     {
-        return wrapper;
+        // no reduction of this type without the kernel it is built on
+        return ReduceSum::GetScatterGatherFuncPtr(inputType) ? wrapper : nullptr;
     }
 };
 
@@ -2980,7 +2986,12 @@ class ReduceNanMean final
 {
     static double wrapper(void * pDataIn, int64_t len, stScatterGatherFunc * pstScatterGatherFunc)
     {
-        ReduceNanSum::GetScatterGatherFuncPtr((NPY_TYPES)pstScatterGatherFunc->inputType)(pDataIn, len, pstScatterGatherFunc);
+        const ANY_SCATTER_GATHER_FUNC sum = ReduceNanSum::GetScatterGatherFuncPtr((NPY_TYPES)pstScatterGatherFunc->inputType);
+        if (! sum)
+        {
+            return NAN;
+        }
+        sum(pDataIn, len, pstScatterGatherFunc);
         // printf("Dviding %lf by %lf\n", pstScatterGatherFunc->resultOut,
         // (double)pstScatterGatherFunc->lenOut);
         if (pstScatterGatherFunc->lenOut > 1)
@@ -3000,7 +3011,8 @@ public:
     // reduction function specialized for that array type.
     static ANY_SCATTER_GATHER_FUNC GetScatterGatherFuncPtr(const NPY_TYPES inputType)
     {
-        return wrapper;
+        // no reduction of this type without the kernel it is built on
+        return ReduceNanSum::GetScatterGatherFuncPtr(inputType) ? wrapper : nullptr;
     }
 };
 
@@ -3012,8 +3024,12 @@ class ReduceStdDev final
 {
     static double wrapper(void * pDataIn, int64_t len, stScatterGatherFunc * pstScatterGatherFunc)
     {
-        const double variance = ReduceVariance::GetScatterGatherFuncPtr((NPY_TYPES)pstScatterGatherFunc->inputType)(
-            pDataIn, len, pstScatterGatherFunc);
+        const ANY_SCATTER_GATHER_FUNC var = ReduceVariance::GetScatterGatherFuncPtr((NPY_TYPES)pstScatterGatherFunc->inputType);
+        if (! var)
+        {
+            return NAN;
+        }
+        const double variance = var(pDataIn, len, pstScatterGatherFunc);
         return sqrt(variance);
     }
 
@@ -3022,7 +3038,8 @@ public:
     // reduction function specialized for that array type.
     static ANY_SCATTER_GATHER_FUNC GetScatterGatherFuncPtr(const NPY_TYPES inputType)
     {
-        return wrapper;
+        // no reduction of this type without the kernel it is built on
+        return ReduceVariance::GetScatterGatherFuncPtr(inputType) ? wrapper : nullptr;
     }
 };
 
@@ -3034,8 +3051,12 @@ class ReduceNanStdDev final
 {
     static double wrapper(void * pDataIn, int64_t len, stScatterGatherFunc * pstScatterGatherFunc)
     {
-        const double variance = ReduceNanVariance::GetScatterGatherFuncPtr((NPY_TYPES)pstScatterGatherFunc->inputType)(
-            pDataIn, len, pstScatterGatherFunc);
+        const ANY_SCATTER_GATHER_FUNC var = ReduceNanVariance::GetScatterGatherFuncPtr((NPY_TYPES)pstScatterGatherFunc->inputType);
+        if (! var)
+        {
+            return NAN;
+        }
+        const double variance = var(pDataIn, len, pstScatterGatherFunc);
         return sqrt(variance);
     }
 
@@ -3044,7 +3065,8 @@ public:
     // reduction function specialized for that array type.
     static ANY_SCATTER_GATHER_FUNC GetScatterGatherFuncPtr(const NPY_TYPES inputType)
     {
-        return wrapper;
+        // no reduction of this type without the kernel it is built on
+        return ReduceNanVariance::GetScatterGatherFuncPtr(inputType) ? wrapper : nullptr;
     }
 };
 
@@ -3433,7 +3455,10 @@ namespace riptide::benchmark
         {
             auto reduce = GetArgReduceFuncPtr(input_type, function);
             stArgScatterGatherFunc sg_func = { input_type, 0, 0, 0, -1 };
-            reduce(data, length, 0, &sg_func);
+            if (reduce)
+            {
+                reduce(data, length, 0, &sg_func);
+            }
         }
         else
         {
diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index bce33dc..569c8ff 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -1195,8 +1195,9 @@ void CopyUnicodeString(PyObject * pUnicode, char ** returnString, int64_t * retu
     }
     else
     {
+        // the caller sees the error raised by the conversion
         *returnString = NULL;
-        *returnSize = strlen(*returnString);
+        *returnSize = 0;
     }
 }
 
@@ -1344,6 +1345,11 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
 
     GetStringFromDict("section", kwargs, &pSectionName, &sectionSize);
 
+    if (PyErr_Occurred())
+    {
+        return NULL;
+    }
+
     if (sectionSize >= SDS_MAX_SECTIONNAME)
     {
         PyErr_Format(PyExc_ValueError, "section name too large: %lld", sectionSize);
-- 
2.43.0


From db051a4f4bb0f2f3153c0f14e8d41cc76880d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 23/35] fix: CompressFile out of memory returns NULL without an
 exception

---
 src/SDSFilePython.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 569c8ff..1541ae6 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -1369,7 +1369,7 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
     char * pListNames = (char *)WORKSPACE_ALLOC((SDS_MAX_FILENAME * listNameCount) + 8);
     if (! pListNames)
     {
-        return NULL;
+        return PyErr_NoMemory();
     }
 
     // Process list of names tuples
-- 
2.43.0


From 27e10577bdf143116d3b5bbbd475d47a2a19f4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 24/35] fix: resized allocation for object arrays fails without
 an exception

---
 src/RipTide.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index dd43761..3518a36 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -854,7 +854,7 @@ PyArrayObject * AllocateLikeResize(PyArrayObject * inArr, npy_intp rowSize)
 
     if (PyTypeNum_ISOBJECT(numpyType))
     {
-        printf("!!! Cannot allocate for object\n");
+        PyErr_Format(PyExc_ValueError, "Cannot allocate a resized array for objects");
         return nullptr;
     }
     else if (PyTypeNum_ISSTRING(numpyType))
-- 
2.43.0


From de4c98591ecc0a6a5078575e75c2c78a9bb4fe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 25/35] fix: SDS header, names, metadata, array or array block
 writes that fail are reported as success

---
 src/SDSFile.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index d99df0b..9f4b06c 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -2304,18 +2304,32 @@ SDS_FILE_HANDLE StartCompressedFile(const char * fileName, SDS_FILE_HEADER * pFi
 
     pFileHeader->TotalMetaCompressedSize = cSize;
     pFileHeader->TotalMetaUncompressedSize = strMetaLength;
-    DefaultFileIO.FileWriteChunk(NULL, fileHandle, pFileHeader, sizeof(SDS_FILE_HEADER), fileOffset);
+    int64_t written = DefaultFileIO.FileWriteChunk(NULL, fileHandle, pFileHeader, sizeof(SDS_FILE_HEADER), fileOffset);
+    if (written != sizeof(SDS_FILE_HEADER))
+    {
+        SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot write fileheader at offset %lld", fileOffset);
+    }
 
     logger->debug("meta compressed to {} vs {}  {}", cSize, strMetaLength, sizeof(SDS_FILE_HEADER));
 
     if (listNameLength)
     {
-        DefaultFileIO.FileWriteChunk(NULL, fileHandle, (void *)listNames, listNameLength, pFileHeader->NameBlockOffset);
+        written =
+            DefaultFileIO.FileWriteChunk(NULL, fileHandle, (void *)listNames, listNameLength, pFileHeader->NameBlockOffset);
+        if (written != listNameLength)
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot write names at offset %lld", pFileHeader->NameBlockOffset);
+        }
     }
 
     if (cSize)
     {
-        DefaultFileIO.FileWriteChunk(NULL, fileHandle, dest, cSize, pFileHeader->MetaBlockOffset);
+        written = DefaultFileIO.FileWriteChunk(NULL, fileHandle, dest, cSize, pFileHeader->MetaBlockOffset);
+        if (written != cSize)
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot write meta data at offset %lld",
+                          pFileHeader->MetaBlockOffset);
+        }
     }
 
     //// PAD THE REST OUT
@@ -2467,7 +2481,8 @@ void EndCompressedFile(SDS_FILE_HANDLE sdsFile, SDS_FILE_HEADER * pFileHeader, S
                   pArrayBlocks[0].ArrayDataOffset);
     if (result != pFileHeader->ArrayBlockSize)
     {
-        logger->error("!!!Internal error closing compressed file");
+        SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot write array block at offset %lld",
+                      pFileHeader->ArrayBlockOffset);
     }
 
     DefaultFileIO.FileClose(sdsFile);
@@ -2760,10 +2775,7 @@ bool CompressFileArray(void * pstCompressArraysV, int32_t core, int64_t t)
 
         if ((size_t)result != cSize)
         {
-            logger->error(
-                "[{}] error while writing into compressed  offset:{}  sz: {} "
-                " vs {}",
-                t, fileOffset, cSize, result);
+            SetErr_Format(SDS_VALUE_ERROR, "Compression error cannot write array %lld at offset %lld", t, fileOffset);
         }
     }
 
-- 
2.43.0


From 0174e213c20e1d0f69f3831f6415db4f3ba2d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:13 +0000
Subject: [PATCH 26/35] fix: array data that cannot be read or decompressed is
 returned uninitialised without an error

---
 src/SDSFile.cpp       | 93 ++++++++++++++++++++++++++++++++-----------
 src/SDSFile.h         |  2 +
 src/SDSFilePython.cpp | 10 ++++-
 3 files changed, 80 insertions(+), 25 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 9f4b06c..2cecbbf 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -300,12 +300,12 @@ static size_t DecompressDataPartial(int32_t core, int32_t compMode, void * dst,
         do
         {
             cErr = ZSTD_decompressStream(dctx, &output, &input);
-            if (cErr < 0)
+            if (ZSTD_isError(cErr))
                 break;
         }
         while (input.pos < input.size && output.pos < output.size);
 
-        if (cErr >= 0)
+        if (! ZSTD_isError(cErr))
         {
             cErr = output.pos;
         }
@@ -1334,6 +1334,10 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
         {
             // Read compressed chunk directly into our destBuffer
             result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, destBuffer, lastData, arrayDataOffset);
+            if (result != lastData)
+            {
+                SetErr_Format(SDS_DATA_ERROR, "Decompression error cannot read array data at offset %lld", arrayDataOffset);
+            }
         }
         else
         {
@@ -1370,13 +1374,14 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
 
                 if (dcSize != uncompressedSize)
                 {
-                    logger->error(
-                        "[{}][{}] MTDecompression band error direct size {} vs "
-                        "{}",
-                        core, stackIndex, dcSize, uncompressedSize);
+                    SetErr_Format(SDS_DATA_ERROR, "Decompression error in array data size %lld vs %lld", dcSize, uncompressedSize);
                     result = -1;
                 }
             }
+            else
+            {
+                SetErr_Format(SDS_DATA_ERROR, "Decompression error cannot read array data at offset %lld", arrayDataOffset);
+            }
         }
     }
     else
@@ -1518,8 +1523,23 @@ static size_t DecompressWithFilter(int64_t compressedSize, // pBlockInfo->ArrayC
                             }
                         }
                     }
+                    else
+                    {
+                        SetErr_Format(SDS_DATA_ERROR, "Decompression error in array data size %lld vs %lld", dcSize,
+                                      uncompressedSize);
+                        result = -1;
+                    }
                     WORKSPACE_FREE(pTempBuffer);
                 }
+                else
+                {
+                    SetErr_Format(SDS_DATA_ERROR, "Decompression error could not allocate %lld", uncompressedSize);
+                    result = -1;
+                }
+            }
+            else
+            {
+                SetErr_Format(SDS_DATA_ERROR, "Decompression error cannot read array data at offset %lld", arrayDataOffset);
             }
         }
     }
@@ -1699,7 +1719,9 @@ static size_t ReadAndDecompressArrayBlockWithFilter(SDS_ARRAY_BLOCK * pBlockInfo
             }
             else
             {
-                logger->error("!!!Error reading in band header");
+                SetErr_Format(SDS_DATA_ERROR, "Decompression error cannot read band header at offset %lld",
+                              pBlockInfo->ArrayDataOffset);
+                result = -1;
             }
         }
         else
@@ -1756,7 +1778,7 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
 
         if (result != compressedSize)
         {
-            logger->error("[{}][{}] error while reading into uncompressed  sz: {}", core, arrayIndex, compressedSize);
+            SetErr_Format(SDS_DATA_ERROR, "Decompression error cannot read array %lld  size: %lld", arrayIndex, compressedSize);
             result = -1;
         }
     }
@@ -1806,10 +1828,7 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
                                                              arrayDataOffset);
                         if (result != uncompressedSize)
                         {
-                            logger->error(
-                                "[{}][{}][{}] MTDecompression (uncompressed) band error "
-                                "size {} vs {}",
-                                core, arrayIndex, i, uncompressedSize, compressedSize);
+                            SetErr_Format(SDS_DATA_ERROR, "Decompression error cannot read band %d of array %lld", i, arrayIndex);
                             result = -1;
                             break;
                         }
@@ -1819,14 +1838,18 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
                         result = DefaultFileIO.FileReadChunk(eventHandle, fileHandle, tempBuffer, compressedSize, arrayDataOffset);
                         // printf("[%d] decompressing  %d  size %lld  uncomp: %lld\n", core,
                         // i, compressedSize, uncompressedSize);
+                        if (result != compressedSize)
+                        {
+                            SetErr_Format(SDS_DATA_ERROR, "Decompression error cannot read band %d of array %lld", i, arrayIndex);
+                            result = -1;
+                            break;
+                        }
                         int64_t dcSize =
                             DecompressData(NULL, compMode, destBandBuffer, uncompressedSize, tempBuffer, compressedSize);
                         if (dcSize != uncompressedSize)
                         {
-                            logger->error(
-                                "[{}][{}][{}] MTDecompression band error size {} vs "
-                                "{} vs {}",
-                                core, arrayIndex, i, dcSize, uncompressedSize, compressedSize);
+                            SetErr_Format(SDS_DATA_ERROR, "Decompression error in band %d of array %lld: size %lld vs %lld", i,
+                                          arrayIndex, dcSize, uncompressedSize);
                             result = -1;
                             break;
                         }
@@ -1838,7 +1861,9 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
             }
             else
             {
-                logger->error("!!!Error reading in band header");
+                SetErr_Format(SDS_DATA_ERROR, "Decompression error cannot read band header at offset %lld",
+                              pBlockInfo->ArrayDataOffset);
+                result = -1;
             }
         }
         else
@@ -1848,7 +1873,8 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
 
             if (result != compressedSize)
             {
-                logger->error("[{}][{}] error while reading into decompressed  sz: {}", core, arrayIndex, compressedSize);
+                SetErr_Format(SDS_DATA_ERROR, "Decompression error cannot read array %lld  size: %lld", arrayIndex,
+                              compressedSize);
                 result = -1;
             }
             else
@@ -1859,12 +1885,13 @@ static size_t ReadAndDecompressArrayBlock(SDS_ARRAY_BLOCK * pBlockInfo, // may c
 
                 if (CompressIsError(compMode, dcSize))
                 {
-                    logger->error("[{}][{}] MTDecompression error", core, arrayIndex);
+                    SetErr_Format(SDS_DATA_ERROR, "Decompression error in array %lld: %s", arrayIndex, ZSTD_getErrorName(dcSize));
                     result = -1;
                 }
                 else if (dcSize != uncompressedSize)
                 {
-                    logger->error("[{}][{}] MTDecompression error size", core, arrayIndex);
+                    SetErr_Format(SDS_DATA_ERROR, "Decompression error in array %lld: size %lld vs %lld", arrayIndex, dcSize,
+                                  uncompressedSize);
                     result = -1;
                 }
                 else
@@ -3967,6 +3994,11 @@ public:
             // read uncompressed data in
             bytesRead = DefaultFileIO.FileReadChunk(NULL, SDSFile, metaDataUncompressed, metaUncompressedSize,
                                                     pFileHeader->MetaBlockOffset);
+            if (bytesRead != metaUncompressedSize)
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Decompression error in bytesRead: %lld", metaUncompressedSize);
+                return false;
+            }
         }
 
         logger->debug("out decompress meta");
@@ -4033,8 +4065,14 @@ public:
                 logger->debug("Fill name block");
 
                 // Read name block
-                DefaultFileIO.FileReadChunk(NULL, SDSFile, DefaultMemoryIO.GetMemoryOffset(pMemoryFileHeader->NameBlockOffset),
-                                            pFileHeader->NameBlockSize, pFileHeader->NameBlockOffset);
+                bytesRead =
+                    DefaultFileIO.FileReadChunk(NULL, SDSFile, DefaultMemoryIO.GetMemoryOffset(pMemoryFileHeader->NameBlockOffset),
+                                                pFileHeader->NameBlockSize, pFileHeader->NameBlockOffset);
+                if (bytesRead != pFileHeader->NameBlockSize)
+                {
+                    SetErr_Format(SDS_VALUE_ERROR, "Decompression error in bytesRead: %lld", pFileHeader->NameBlockSize);
+                    return false;
+                }
 
                 //------------- LIST NAMES -------------------------------
                 // NO LIST NAMES ARE ALLOWED (root file?)
@@ -4056,8 +4094,14 @@ public:
                     SDS_ARRAY_BLOCK * pDestArrayBlock = DefaultMemoryIO.GetArrayBlock(0);
 
                     // Read array block
-                    DefaultFileIO.FileReadChunk(NULL, SDSFile, pDestArrayBlock, pFileHeader->ArrayBlockSize,
-                                                pFileHeader->ArrayBlockOffset);
+                    bytesRead = DefaultFileIO.FileReadChunk(NULL, SDSFile, pDestArrayBlock, pFileHeader->ArrayBlockSize,
+                                                            pFileHeader->ArrayBlockOffset);
+                    if (bytesRead != pFileHeader->ArrayBlockSize)
+                    {
+                        SetErr_Format(SDS_VALUE_ERROR, "Decompression error in ArrayBlockSize: %lld",
+                                      pFileHeader->ArrayBlockSize);
+                        return false;
+                    }
 
                     // offset to first location of array data
                     int64_t startOffset = pMemoryFileHeader->ArrayFirstOffset;
@@ -4442,6 +4486,7 @@ public:
             }
 
             // Drop into normal file reading
+            ClearErrors();
         }
 
         bool bResult;
diff --git a/src/SDSFile.h b/src/SDSFile.h
index 2b3d047..6fb297e 100644
--- a/src/SDSFile.h
+++ b/src/SDSFile.h
@@ -54,6 +54,8 @@
 #define SDS_VERSION_LOW 6
 
 #define SDS_VALUE_ERROR 1
+// array data could not be read, nothing that was read can be used
+#define SDS_DATA_ERROR 2
 
 #define SDS_MAGIC 0x20534453
 #define SDS_PADSIZE 512
diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 1541ae6..b64617f 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -1754,6 +1754,14 @@ PyObject * DecompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
         return NULL;
     }
 
+    if (result && g_lastexception == SDS_DATA_ERROR)
+    {
+        // some of the array data could not be read
+        CheckErrors();
+        Py_DecRef((PyObject *)result);
+        return NULL;
+    }
+
     if (! result)
     {
         PyErr_Format(PyExc_ValueError, "NULL is returned from SDSReadFile but no error string was found");
@@ -1921,7 +1929,7 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
         return NULL;
     }
 
-    if (isThereAnError && fileCount == 1)
+    if (isThereAnError && (fileCount == 1 || g_lastexception == SDS_DATA_ERROR))
     {
         // result is good, but there is an error.  decrement the result so we can
         // get rid of it
-- 
2.43.0


From 8faa0af5b37483e7b4a4259059a8aab361174213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 27/35] fix: failed reads and writes while concatenating SDS
 files are reported as success

---
 src/SDSFile.cpp | 72 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 17 deletions(-)

diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 2cecbbf..9fa7e59 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -6588,7 +6588,9 @@ public:
         int64_t bytesXfer = DefaultFileIO.FileWriteChunk(NULL, outFileHandle, pFileHeader, sizeof(SDS_FILE_HEADER), fileOffset);
         if (bytesXfer != sizeof(SDS_FILE_HEADER))
         {
-            logger->debug("!!warning file {} failed to write header at offset {}", pSDSDecompress->FileName, fileOffset);
+            SetErr_Format(SDS_VALUE_ERROR, "Concat error cannot write header of file %s at offset %lld", pSDSDecompress->FileName,
+                          fileOffset);
+            return 0;
         }
 
         UpdateSectionData(pSectionData, currentSection++, currentOffset);
@@ -6602,7 +6604,10 @@ public:
         const int64_t BUFFER_SIZE = 1024 * 1024;
         char * pBuffer = (char *)WORKSPACE_ALLOC(BUFFER_SIZE);
         if (! pBuffer)
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Concat error out of memory for file %s", pSDSDecompress->FileName);
             return 0;
+        }
 
         // Read from source at localoffset and copy to output at currentOffset
         // (which starts at fileOffset)
@@ -6618,7 +6623,10 @@ public:
             int64_t sizeWritten = DefaultFileIO.FileWriteChunk(NULL, outFileHandle, pBuffer, copySize, currentOffset);
             if (sizeRead != sizeWritten || sizeRead != copySize)
             {
-                logger->warn("!!Failed to copy file {} at offset {} and {}", pSDSDecompress->FileName, currentOffset, localOffset);
+                SetErr_Format(SDS_VALUE_ERROR, "Concat error cannot copy file %s at offset %lld and %lld", pSDSDecompress->FileName,
+                              currentOffset, localOffset);
+                WORKSPACE_FREE(pBuffer);
+                return 0;
             }
             currentOffset += copySize;
             localOffset += copySize;
@@ -6633,8 +6641,10 @@ public:
         bytesXfer = DefaultFileIO.FileReadChunk(NULL, inFile, pDestArrayBlock, pFileHeader->ArrayBlockSize, origArrayBlockOffset);
         if (bytesXfer != pFileHeader->ArrayBlockSize)
         {
-            logger->warn("!!warning file {} failed to read array block at offset {}", pSDSDecompress->FileName,
-                         origArrayBlockOffset);
+            SetErr_Format(SDS_VALUE_ERROR, "Concat error cannot read array block of file %s at offset %lld", pSDSDecompress->FileName,
+                          origArrayBlockOffset);
+            WORKSPACE_FREE(pDestArrayBlock);
+            return 0;
         }
 
         // fixup arrayblocks
@@ -6645,11 +6655,18 @@ public:
             pDestArrayBlock[i].ArrayDataOffset += fileOffset;
         }
         // Write the array block with offsets fixed up
-        DefaultFileIO.FileWriteChunk(NULL, outFileHandle, pDestArrayBlock, pFileHeader->ArrayBlockSize,
-                                     fileOffset + origArrayBlockOffset);
+        bytesXfer = DefaultFileIO.FileWriteChunk(NULL, outFileHandle, pDestArrayBlock, pFileHeader->ArrayBlockSize,
+                                                 fileOffset + origArrayBlockOffset);
 
         WORKSPACE_FREE(pDestArrayBlock);
 
+        if (bytesXfer != pFileHeader->ArrayBlockSize)
+        {
+            SetErr_Format(SDS_VALUE_ERROR, "Concat error cannot write array block of file %s at offset %lld",
+                          pSDSDecompress->FileName, fileOffset + origArrayBlockOffset);
+            return 0;
+        }
+
         //------------
         // Check if sections.. if so read back in each section and fix it up
         if (hasSections)
@@ -6669,10 +6686,8 @@ public:
 
                 if (bytesRead != sizeof(SDS_FILE_HEADER))
                 {
-                    logger->warn(
-                        "!!warning file {} failed to read section header at offset "
-                        "{}",
-                        pSDSDecompress->FileName, sectionOffset);
+                    SetErr_Format(SDS_VALUE_ERROR, "Concat error cannot read section header of file %s at offset %lld",
+                                  pSDSDecompress->FileName, sectionOffset);
                     return 0;
                 }
 
@@ -6706,8 +6721,9 @@ public:
                 logger->debug("Wrote subsect fileheader {} bytes at offset {}", sizeof(SDS_FILE_HEADER), newOffset);
                 if (sizeof(SDS_FILE_HEADER) != sizeWritten)
                 {
-                    logger->warn("!!Failed to copy file {} at offset {} and {}", pSDSDecompress->FileName, newOffset,
-                                 sectionOffset);
+                    SetErr_Format(SDS_VALUE_ERROR, "Concat error cannot copy file %s at offset %lld and %lld",
+                                  pSDSDecompress->FileName, newOffset, sectionOffset);
+                    return 0;
                 }
 
                 // NEW CODE
@@ -6720,8 +6736,10 @@ public:
                                                         origArrayBlockOffset);
                 if (bytesXfer != tempFileHeader.ArrayBlockSize)
                 {
-                    logger->warn("!!warning file {} failed to read array block at offset {}", pSDSDecompress->FileName,
-                                 origArrayBlockOffset);
+                    SetErr_Format(SDS_VALUE_ERROR, "Concat error cannot read array block of file %s at offset %lld",
+                                  pSDSDecompress->FileName, origArrayBlockOffset);
+                    WORKSPACE_FREE(pDestArrayBlock2);
+                    return 0;
                 }
 
                 // fixup arrayblocks
@@ -6732,12 +6750,19 @@ public:
                     pDestArrayBlock2[i].ArrayDataOffset += fileOffset;
                 }
                 // Write the array block with offsets fixed up
-                DefaultFileIO.FileWriteChunk(NULL, outFileHandle, pDestArrayBlock2, tempFileHeader.ArrayBlockSize,
-                                             fileOffset + origArrayBlockOffset);
+                bytesXfer = DefaultFileIO.FileWriteChunk(NULL, outFileHandle, pDestArrayBlock2, tempFileHeader.ArrayBlockSize,
+                                                         fileOffset + origArrayBlockOffset);
                 logger->debug("Wrote arrayblock {} bytes at offset {} from orig: {}", tempFileHeader.ArrayBlockSize,
                               fileOffset + origArrayBlockOffset, origArrayBlockOffset);
 
                 WORKSPACE_FREE(pDestArrayBlock2);
+
+                if (bytesXfer != tempFileHeader.ArrayBlockSize)
+                {
+                    SetErr_Format(SDS_VALUE_ERROR, "Concat error cannot write array block of file %s at offset %lld",
+                                  pSDSDecompress->FileName, fileOffset + origArrayBlockOffset);
+                    return 0;
+                }
             }
         }
 
@@ -6819,6 +6844,14 @@ public:
                     int64_t nextOffset = AppendToFile(fileHandle, pSDSDecompress, fileOffset, pSDSDecompress->FileSize,
                                                       pSectionData, currentSection);
 
+                    if (nextOffset == 0)
+                    {
+                        // the error is recorded
+                        WORKSPACE_FREE(pSectionData);
+                        DefaultFileIO.FileClose(fileHandle);
+                        return;
+                    }
+
                     int64_t padFileSize = SDS_PAD_NUMBER(nextOffset);
                     fileOffset = padFileSize;
                 }
@@ -6842,7 +6875,12 @@ public:
             pFileHeader->SectionBlockSize = sectionSize;
             pFileHeader->SectionBlockReservedSize = sectionTotalSize;
             pFileHeader->StackType = 1;
-            DefaultFileIO.FileWriteChunk(NULL, fileHandle, pFileHeader, sizeof(SDS_FILE_HEADER), 0);
+            result = DefaultFileIO.FileWriteChunk(NULL, fileHandle, pFileHeader, sizeof(SDS_FILE_HEADER), 0);
+
+            if (result != sizeof(SDS_FILE_HEADER))
+            {
+                SetErr_Format(SDS_VALUE_ERROR, "Concat error cannot write header of file %s", strOutputFilename);
+            }
         }
 
         DefaultFileIO.FileClose(fileHandle);
-- 
2.43.0


From 7e4b6472f11bd083684556ca2f17daf85c2a3db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 28/35] fix: failed ftruncate and fstat of shared memory go
 unnoticed, descriptors leak

---
 src/SharedMemory.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/SharedMemory.cpp b/src/SharedMemory.cpp
index 202727d..c6f1be5 100644
--- a/src/SharedMemory.cpp
+++ b/src/SharedMemory.cpp
@@ -761,9 +761,10 @@ UtilSharedMemoryBegin(const char * pMappingName, int64_t size, PMAPPED_VIEW_STRU
 
     // Needed when non MAP_ANONYMOUS
     int result = ftruncate(fd, size);
-    if (result && errno < 0)
+    if (result)
     {
         printf("Error UtilSharedMemoryCopy ftruncate: %s\n", strerror(errno));
+        close(fd);
         return -1;
     }
 
@@ -774,6 +775,7 @@ UtilSharedMemoryBegin(const char * pMappingName, int64_t size, PMAPPED_VIEW_STRU
     if (memaddress == (void *)-1)
     {
         printf("Error UtilSharedMemoryBegin mmap: %s\n", strerror(errno));
+        close(fd);
         return -1;
     }
 
@@ -834,11 +836,12 @@ UtilSharedMemoryCopy(const char * pMappingName, PMAPPED_VIEW_STRUCT * pReturnStr
 
     // Get the size of existing shared memory
     struct stat sb;
-    fstat(fd, &sb);
+    int result = fstat(fd, &sb);
     off_t size = sb.st_size;
-    if (errno < 0)
+    if (result)
     {
         printf("Error UtilSharedMemoryCopy fstat: %s\n", strerror(errno));
+        close(fd);
         return -1;
     }
 
@@ -847,6 +850,7 @@ UtilSharedMemoryCopy(const char * pMappingName, PMAPPED_VIEW_STRUCT * pReturnStr
     if (memaddress == (void *)-1)
     {
         printf("Error UtilSharedMemoryCopy mmap: %s  %lld\n", strerror(errno), (long long)size);
+        close(fd);
         return -1;
     }
 
-- 
2.43.0


From 09cd6a3a3026fa9c845fb0d9a70fbf34cecc3917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 29/35] fix: bit count and filter length messages print 64-bit
 values with 32-bit conversions

---
 src/BitCount.cpp | 2 +-
 src/SDSFile.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BitCount.cpp b/src/BitCount.cpp
index 59b181e..411d783 100644
--- a/src/BitCount.cpp
+++ b/src/BitCount.cpp
@@ -85,7 +85,7 @@ PyObject * BitCount(PyObject * self, PyObject * args)
             }
         default:
             PyArray_XDECREF(returnObject);
-            PyErr_Format(PyExc_ValueError, "%s %i", "Unsupported itemsize", itemsize);
+            PyErr_Format(PyExc_ValueError, "%s %lld", "Unsupported itemsize", (long long)itemsize);
             returnObject = NULL;
         }
     }
diff --git a/src/SDSFile.cpp b/src/SDSFile.cpp
index 9fa7e59..36bb9bb 100644
--- a/src/SDSFile.cpp
+++ b/src/SDSFile.cpp
@@ -6453,7 +6453,7 @@ public:
                     if (dim_len < mask_len or (not is_fancy and dim_len != mask_len))
                     {
                         SetErr_Format(SDS_VALUE_ERROR,
-                                      "Array length does not match filter length: ArrayLength: %d, FilterLength:%d",
+                                      "Array length does not match filter length: ArrayLength: %lld, FilterLength:%lld",
                                       pSDSDecompress->pArrayBlocks[0].Dimensions[0], pReadCallbacks->Filter.BoolMaskLength);
                         return NULL;
                     }
-- 
2.43.0


From 3d8652218e1ca82f9e8ca95b0e4de06992578e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 30/35] fix: failed list item conversions in
 GroupByAll32/GroupByAllPack32 and logger levels leave an exception pending

---
 src/GroupBy.cpp | 81 +++++++++++++++++++++++++++++++++++++------------
 src/Logger.cpp  |  5 +++
 2 files changed, 66 insertions(+), 20 deletions(-)

diff --git a/src/GroupBy.cpp b/src/GroupBy.cpp
index b9ce312..59807c1 100644
--- a/src/GroupBy.cpp
+++ b/src/GroupBy.cpp
@@ -4573,6 +4573,33 @@ PyObject * GroupBySingleOpMultithreaded(ArrayInfo * aInfo, PyArrayObject * iKey,
     return returnTuple;
 }
 
+//---------------------------------------------------------------
+// Convert the first count items of a list to integers
+// Returns false with an exception set if that is not possible
+static bool ReadIntegers(PyListObject * list, int64_t count, std::vector<int64_t> & values)
+{
+    if (PyList_GET_SIZE(list) < count)
+    {
+        PyErr_Format(PyExc_ValueError, "list of %lld integers is shorter than the %lld array columns",
+                     (long long)PyList_GET_SIZE(list), (long long)count);
+        return false;
+    }
+
+    values.reserve(count);
+    for (int64_t i = 0; i < count; i++)
+    {
+        int overflow = 0;
+        int64_t value = PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(list, i), &overflow);
+
+        if (value == -1 && PyErr_Occurred())
+        {
+            return false;
+        }
+        values.push_back(value);
+    }
+    return true;
+}
+
 //---------------------------------------------------------------
 // Arg1 = LIST of numpy arrays which has the values to accumulate (often all the
 // columns in a dataset) Arg2 = iKey = numpy array (int32_t) which has the index
@@ -4657,6 +4684,17 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    std::vector<int64_t> funcNums;
+    std::vector<int64_t> binLows;
+    std::vector<int64_t> binHighs;
+
+    if (! ReadIntegers(listFuncNum, tupleSize, funcNums) || ! ReadIntegers(listBinLow, tupleSize, binLows) ||
+        ! ReadIntegers(listBinHigh, tupleSize, binHighs))
+    {
+        // Error already set
+        return NULL;
+    }
+
     // Since this is the 32 bit function, the array indexes are 32 bit
     void * pDataIn2 = PyArray_BYTES(iKey);
     int64_t arraySizeKey = ArrayLength(iKey);
@@ -4668,16 +4706,14 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    int overflow = 0;
-    GB_FUNCTIONS const firstFuncNum{ static_cast<GB_FUNCTIONS>(
-        PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listFuncNum, 0), &overflow)) };
+    GB_FUNCTIONS const firstFuncNum{ static_cast<GB_FUNCTIONS>(funcNums[0]) };
     PyObject * returnTuple = NULL;
 
     // NOTE: what if bin size 10x larger?
     if (true && ((unique_rows * 10) < arraySizeKey) && tupleSize == 1)
     {
-        int64_t binLow = PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listBinLow, 0), &overflow);
-        int64_t binHigh = PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listBinHigh, 0), &overflow);
+        int64_t binLow = binLows[0];
+        int64_t binHigh = binHighs[0];
 
         if ((firstFuncNum >= GB_SUM && firstFuncNum <= GB_MAX) || (firstFuncNum >= GB_NANSUM && firstFuncNum <= GB_NANMAX))
 
@@ -4728,15 +4764,13 @@ PyObject * GroupByAll32(PyObject * self, PyObject * args)
             int32_t numpyTmpType = -1;
             bool hasCounts = false;
 
-            int overflow = 0;
-            GB_FUNCTIONS const funcNum{ static_cast<GB_FUNCTIONS>(
-                PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listFuncNum, i), &overflow)) };
+            GB_FUNCTIONS const funcNum{ static_cast<GB_FUNCTIONS>(funcNums[i]) };
             pstGroupBy32->returnObjects[i].funcNum = funcNum;
 
-            int64_t binLow = PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listBinLow, i), &overflow);
+            int64_t binLow = binLows[i];
             pstGroupBy32->returnObjects[i].binLow = binLow;
 
-            int64_t binHigh = PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listBinHigh, i), &overflow);
+            int64_t binHigh = binHighs[i];
             pstGroupBy32->returnObjects[i].binHigh = binHigh;
 
             int64_t pCountOutTypeSize;
@@ -4952,6 +4986,17 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
         return NULL;
     }
 
+    std::vector<int64_t> funcNums;
+    std::vector<int64_t> binLows;
+    std::vector<int64_t> binHighs;
+
+    if (! ReadIntegers(listFuncNum, tupleSize, funcNums) || ! ReadIntegers(listBinLow, tupleSize, binLows) ||
+        ! ReadIntegers(listBinHigh, tupleSize, binHighs))
+    {
+        // Error already set
+        return NULL;
+    }
+
     void * pDataIn2 = PyArray_BYTES(iKey);
     // New reference
     PyObject * returnTuple = NULL;
@@ -4966,12 +5011,10 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
 
     if (tupleSize == 1 && arraySizeKey > 65536)
     {
-        int overflow = 0;
-        int64_t binLow = PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listBinLow, 0), &overflow);
-        int64_t binHigh = PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listBinHigh, 0), &overflow);
+        int64_t binLow = binLows[0];
+        int64_t binHigh = binHighs[0];
 
-        GB_FUNCTIONS const firstFuncNum{ static_cast<GB_FUNCTIONS>(
-            PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listFuncNum, 0), &overflow)) };
+        GB_FUNCTIONS const firstFuncNum{ static_cast<GB_FUNCTIONS>(funcNums[0]) };
 
         logger->debug("Checking banded {}", static_cast<int32_t>(firstFuncNum));
 
@@ -5043,9 +5086,7 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
         // threaded
         for (int i = 0; i < tupleSize; i++)
         {
-            int overflow = 0;
-            GB_FUNCTIONS const funcNum{ static_cast<GB_FUNCTIONS>(
-                PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listFuncNum, i), &overflow)) };
+            GB_FUNCTIONS const funcNum{ static_cast<GB_FUNCTIONS>(funcNums[i]) };
             pstGroupBy32->returnObjects[i].funcNum = funcNum;
 
             // The window size is encoded in funcParam, see AccumRollingQuantile1e9Mult
@@ -5055,10 +5096,10 @@ PyObject * GroupByAllPack32(PyObject * self, PyObject * args)
                 return NULL;
             }
 
-            int64_t binLow = PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listBinLow, i), &overflow);
+            int64_t binLow = binLows[i];
             pstGroupBy32->returnObjects[i].binLow = binLow;
 
-            int64_t binHigh = PyLong_AsLongLongAndOverflow(PyList_GET_ITEM(listBinHigh, i), &overflow);
+            int64_t binHigh = binHighs[i];
             pstGroupBy32->returnObjects[i].binHigh = binHigh;
 
             numpyOutType = aInfo[i].NumpyDType;
diff --git a/src/Logger.cpp b/src/Logger.cpp
index c585098..360f59f 100644
--- a/src/Logger.cpp
+++ b/src/Logger.cpp
@@ -34,6 +34,11 @@ namespace
 
             int32_t level = PyLong_AsLong(level_attr);
             Py_XDECREF(level_attr);
+            if (level == -1 && PyErr_Occurred())
+            {
+                PyErr_Clear();
+                continue;
+            }
 
             auto logger{ riptide::logging::get_logger(name) };
             if (level >= static_cast<int>(loglevel::notset) and level <= static_cast<int>(loglevel::critical))
-- 
2.43.0


From e8e7dc208700fef6c49fe5bef864a686e286c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 31/35] fix: date parsing returns a result after its warning
 became an exception, None when allocation failed

---
 src/DateTime.cpp | 79 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 26 deletions(-)

diff --git a/src/DateTime.cpp b/src/DateTime.cpp
index db40c95..1c46856 100644
--- a/src/DateTime.cpp
+++ b/src/DateTime.cpp
@@ -454,21 +454,28 @@ void DateTimeParser<T>::ParseDateTimeString(int64_t * pOutNanoTime, int64_t arra
 }
 
 template <typename T>
-void parsing_error_to_py_warning(const parsing_error<T> & error);
+bool parsing_error_to_py_warning(const parsing_error<T> & error);
 
 template <>
-void parsing_error_to_py_warning<char>(const parsing_error<char> & error)
+bool parsing_error_to_py_warning<char>(const parsing_error<char> & error)
 {
     std::string datetime(error.start, error.end);
-    PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%s\" at position %lld", error.message, datetime.c_str(), error.position);
+    return PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%s\" at position %lld", error.message, datetime.c_str(),
+                            error.position) == 0;
 }
 
 template <>
-void parsing_error_to_py_warning<uint32_t>(const parsing_error<uint32_t> & error)
+bool parsing_error_to_py_warning<uint32_t>(const parsing_error<uint32_t> & error)
 {
     PyObject * datetime = PyUnicode_FromKindAndData(PyUnicode_4BYTE_KIND, error.start, error.end - error.start);
-    PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%U\" at position %lld", error.message, datetime, error.position);
-    Py_XDECREF(datetime);
+    if (! datetime)
+    {
+        return false;
+    }
+    bool warned =
+        PyErr_WarnFormat(PyExc_RuntimeWarning, 1, "%s in \"%U\" at position %lld", error.message, datetime, error.position) == 0;
+    Py_DECREF(datetime);
+    return warned;
 }
 
 //--------------------------------------------------------------
@@ -515,8 +522,12 @@ PyObject * TimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseTimeString(pNanoTime, arrayLength, pString, itemSize);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                // the warning became an exception
+                Py_DECREF((PyObject *)outArray);
+                return NULL;
+            }
         }
         else
         {
@@ -524,14 +535,17 @@ PyObject * TimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseTimeString(pNanoTime, arrayLength, (uint32_t *)pString, itemSize / 4);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                // the warning became an exception
+                Py_DECREF((PyObject *)outArray);
+                return NULL;
+            }
         }
         return (PyObject *)outArray;
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    return NULL;
 }
 
 //--------------------------------------------------------------
@@ -578,8 +592,12 @@ PyObject * DateStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateString(pNanoTime, arrayLength, pString, itemSize);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                // the warning became an exception
+                Py_DECREF((PyObject *)outArray);
+                return NULL;
+            }
         }
         else
         {
@@ -587,14 +605,17 @@ PyObject * DateStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateString(pNanoTime, arrayLength, (uint32_t *)pString, itemSize / 4);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                // the warning became an exception
+                Py_DECREF((PyObject *)outArray);
+                return NULL;
+            }
         }
         return (PyObject *)outArray;
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    return NULL;
 }
 
 //--------------------------------------------------------------
@@ -641,8 +662,12 @@ PyObject * DateTimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateTimeString(pNanoTime, arrayLength, pString, itemSize);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                // the warning became an exception
+                Py_DECREF((PyObject *)outArray);
+                return NULL;
+            }
         }
         else
         {
@@ -650,14 +675,17 @@ PyObject * DateTimeStringToNanos(PyObject * self, PyObject * args)
             parser.ParseDateTimeString(pNanoTime, arrayLength, (uint32_t *)pString, itemSize / 4);
 
             const auto & maybe_error = parser.get_error();
-            if (maybe_error)
-                parsing_error_to_py_warning(*maybe_error);
+            if (maybe_error && ! parsing_error_to_py_warning(*maybe_error))
+            {
+                // the warning became an exception
+                Py_DECREF((PyObject *)outArray);
+                return NULL;
+            }
         }
         return (PyObject *)outArray;
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    return NULL;
 }
 
 //---------------------------------------
@@ -785,6 +813,5 @@ PyObject * StrptimeToNanos(PyObject * self, PyObject * args)
         return (PyObject *)outArray;
     }
 
-    Py_INCREF(Py_None);
-    return Py_None;
+    return NULL;
 };
-- 
2.43.0


From eb5149748511edef2dae1880b226b69b9d21078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 32/35] fix: failed SDS list and keyword conversions leave an
 exception pending on a returned result

---
 src/SDSFilePython.cpp | 64 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 62 insertions(+), 2 deletions(-)

diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index b64617f..9738d90 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -462,6 +462,12 @@ SDS_STRING_LIST * StringListToVector(PyObject * listFilenames)
                     // Release reference
                     Py_DecRef(temp2);
                 }
+                else
+                {
+                    // Error already set
+                    DestroyStringList(returnList);
+                    return NULL;
+                }
             }
         }
     }
@@ -1010,6 +1016,7 @@ PyObject * ReadFinalStackArrays(SDS_STACK_CALLBACK * pSDSFinalCallback, int64_t
         }
         else
         {
+            PyErr_Clear();
             PyList_SET_ITEM(pyArrayOffset, t, Py_None);
             Py_INCREF(Py_None);
         }
@@ -1374,6 +1381,11 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
 
     // Process list of names tuples
     int64_t listNameSize = BuildListInfo(inListNames, pListNames);
+    if (PyErr_Occurred())
+    {
+        WORKSPACE_FREE(pListNames);
+        return NULL;
+    }
 
     // Handle list of numpy arrays -----------------------------------
     int64_t totalItemSize = 0;
@@ -1515,7 +1527,7 @@ PyObject * CompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
     }
 
     // If there are errors, return NULL
-    if (CheckErrors())
+    if (PyErr_Occurred() || CheckErrors())
     {
         return NULL;
     }
@@ -1731,6 +1743,19 @@ PyObject * DecompressFile(PyObject * self, PyObject * args, PyObject * kwargs)
     // new for boolean mask
     // GetFilters(kwargs, &sdsRCB.pBooleanMask, &sdsRCB.MaskLength);
 
+    if (PyErr_Occurred())
+    {
+        if (folderName)
+        {
+            DestroyStringList(folderName);
+        }
+        if (sectionsName)
+        {
+            DestroyStringList(sectionsName);
+        }
+        return NULL;
+    }
+
     SDS_READ_INFO sdsRI;
 
     sdsRI.mode = mode;
@@ -1851,6 +1876,30 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
     }
 
     SDS_STRING_LIST * pFilenames = StringListToVector(listFilenames);
+    if (! pFilenames || PyErr_Occurred())
+    {
+        if (pOutputName)
+        {
+            WORKSPACE_FREE(pOutputName);
+        }
+        if (pFilenames)
+        {
+            DestroyStringList(pFilenames);
+        }
+        if (pInclusionList)
+        {
+            DestroyStringList(pInclusionList);
+        }
+        if (pFolderList)
+        {
+            DestroyStringList(pFolderList);
+        }
+        if (pSectionsList)
+        {
+            DestroyStringList(pSectionsList);
+        }
+        return NULL;
+    }
     int64_t fileCount = pFilenames->size();
 
     LOGGING("InternalDecompress filecount: %lld  mode: %d", fileCount, multiMode);
@@ -1896,7 +1945,10 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
 
             //==============================================
             // may return NULL if not all files existed
-            result = SDSReadManyFiles(pMultiRead, pInclusionList, pFolderList, pSectionsList, fileCount, multiMode, &sdsRCB);
+            if (! PyErr_Occurred())
+            {
+                result = SDSReadManyFiles(pMultiRead, pInclusionList, pFolderList, pSectionsList, fileCount, multiMode, &sdsRCB);
+            }
 
             WORKSPACE_FREE(pMultiRead);
         }
@@ -1921,6 +1973,12 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
 
     LOGGING("Multistack after destroy string list\n");
 
+    if (PyErr_Occurred())
+    {
+        Py_XDECREF((PyObject *)result);
+        return NULL;
+    }
+
     bool isThereAnError = CheckErrors();
 
     // If there are errors, return NULL
@@ -1944,6 +2002,8 @@ PyObject * InternalDecompressFiles(PyObject * self, PyObject * args, PyObject *
         return Py_None;
     }
 
+    // some of the files may not have been read, but the others are returned
+    PyErr_Clear();
     LOGGING("Multistack returning a good result %p\n", result);
     return (PyObject *)result;
 }
-- 
2.43.0


From 18cfdf377840d94f2323c13ae4c369e2b05f7d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 33/35] fix: multikey functions return results with an
 exception pending

---
 src/MultiKey.cpp | 86 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 77 insertions(+), 9 deletions(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 8864a0a..3b0ff33 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -373,6 +373,10 @@ public:
                 if (PyLong_Check(longObject))
                 {
                     hintSize = PyLong_AsSize_t(longObject);
+                    if (hintSize == -1 && PyErr_Occurred())
+                    {
+                        return;
+                    }
                     LOGGING("Hint size is %llu\n", hintSize);
                 }
             }
@@ -1016,6 +1020,10 @@ PyObject * MultiKeyGroupBy32(PyObject * self, PyObject * args, PyObject * kwargs
         if (PyLong_Check(hashmodeobject))
         {
             hashMode = PyLong_AsLong(hashmodeobject);
+            if (hashMode == -1 && PyErr_Occurred())
+            {
+                return NULL;
+            }
             LOGGING("hashmode is %ld\n", hashMode);
         }
     }
@@ -1168,6 +1176,10 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
         if (PyLong_Check(hashmodeobject))
         {
             hashMode = PyLong_AsLong(hashmodeobject);
+            if (hashMode == -1 && PyErr_Occurred())
+            {
+                return NULL;
+            }
             LOGGING("hashmode is %ld\n", hashMode);
         }
     }
@@ -1270,16 +1282,21 @@ PyObject * MultiKeyGroupBy32Super(PyObject * self, PyObject * args)
 
                 // printf("--done...\n");
 
-                // Build tuple to return
-                PyObject * retObject = NULL;
-                if (uniqueArray != NULL && uniqueCountArray != NULL)
+                if (uniqueArray == NULL || uniqueCountArray == NULL)
                 {
-                    retObject = Py_BuildValue("(OOOO)", indexArray, nextArray, uniqueArray, uniqueCountArray);
+                    Py_DECREF((PyObject *)indexArray);
+                    Py_DECREF((PyObject *)nextArray);
+                    Py_XDECREF((PyObject *)uniqueArray);
+                    Py_XDECREF((PyObject *)uniqueCountArray);
+                    return NULL;
                 }
+
+                // Build tuple to return
+                PyObject * retObject = Py_BuildValue("(OOOO)", indexArray, nextArray, uniqueArray, uniqueCountArray);
                 Py_DECREF((PyObject *)indexArray);
                 Py_DECREF((PyObject *)nextArray);
-                Py_XDECREF((PyObject *)uniqueArray);
-                Py_XDECREF((PyObject *)uniqueCountArray);
+                Py_DECREF((PyObject *)uniqueArray);
+                Py_DECREF((PyObject *)uniqueCountArray);
 
                 return (PyObject *)retObject;
             }
@@ -1444,6 +1461,10 @@ PyObject * MultiKeyUnique32(PyObject * self, PyObject * args)
     {
     }
 
+    if (PyErr_Occurred())
+    {
+        return NULL;
+    }
     Py_INCREF(Py_None);
     return Py_None;
 }
@@ -1484,6 +1505,10 @@ PyObject * MultiKeyRolling(PyObject * self, PyObject * args)
     if (PyLong_Check(secondArg))
     {
         hintSize = PyLong_AsLongLong(secondArg);
+        if (hintSize == -1 && PyErr_Occurred())
+        {
+            return NULL;
+        }
     }
     else
     {
@@ -1496,6 +1521,10 @@ PyObject * MultiKeyRolling(PyObject * self, PyObject * args)
         if (PyLong_Check(thirdArg))
         {
             memPointer = PyLong_AsLongLong(thirdArg);
+            if (memPointer == -1 && PyErr_Occurred())
+            {
+                return NULL;
+            }
             if (hintSize == -1)
             {
                 MultiKeyRollingStep2Delete((void *)memPointer);
@@ -1542,6 +1571,10 @@ PyObject * MultiKeyRolling(PyObject * self, PyObject * args)
         return (PyObject *)retObject;
     }
 
+    if (PyErr_Occurred())
+    {
+        return NULL;
+    }
     RETURN_NONE;
 }
 
@@ -1646,6 +1679,10 @@ PyObject * MultiKeyHash(PyObject * self, PyObject * args)
 
         return (PyObject *)retObject;
     }
+    if (PyErr_Occurred())
+    {
+        return NULL;
+    }
     Py_INCREF(Py_None);
     return Py_None;
 }
@@ -1685,6 +1722,10 @@ PyObject * MultiKeyIsMember32(PyObject * self, PyObject * args)
         if (PyLong_Check(longObject))
         {
             hintSize = PyLong_AsSize_t(longObject);
+            if (hintSize == -1 && PyErr_Occurred())
+            {
+                return NULL;
+            }
             LOGGING("Hint size is %llu\n", hintSize);
         }
     }
@@ -1743,6 +1784,10 @@ PyObject * MultiKeyIsMember32(PyObject * self, PyObject * args)
     {
     }
     // error path
+    if (PyErr_Occurred())
+    {
+        return NULL;
+    }
     Py_INCREF(Py_None);
     return Py_None;
 }
@@ -1786,8 +1831,18 @@ PyObject * MultiKeyAlign32(PyObject * self, PyObject * args)
         return NULL;
     }
 
-    bool isForward = PyObject_IsTrue(isForwardObj) > 0;
-    bool allowExact = PyObject_IsTrue(allowExactObj) > 0;
+    int isForwardValue = PyObject_IsTrue(isForwardObj);
+    if (isForwardValue < 0)
+    {
+        return NULL;
+    }
+    int allowExactValue = PyObject_IsTrue(allowExactObj);
+    if (allowExactValue < 0)
+    {
+        return NULL;
+    }
+    bool isForward = isForwardValue > 0;
+    bool allowExact = allowExactValue > 0;
 
     PyArrayObject * pvalArray1;
     PyArrayObject * pvalArray2;
@@ -1900,6 +1955,10 @@ PyObject * MultiKeyAlign32(PyObject * self, PyObject * args)
     }
 
     // error path
+    if (PyErr_Occurred())
+    {
+        return NULL;
+    }
     Py_INCREF(Py_None);
     return Py_None;
 }
@@ -2587,7 +2646,16 @@ PyObject * BinCount(PyObject * self, PyObject * args, PyObject * kwargs)
                     //
                     // Make sure allocation succeeded
                     //
-                    if (outiGroup && outiFirstGroup)
+                    if (! outiGroup || ! outiFirstGroup)
+                    {
+                        WORKSPACE_FREE(pMemoryForBins);
+                        WORKSPACE_FREE(pstBinCount);
+                        Py_XDECREF((PyObject *)outiGroup);
+                        Py_XDECREF((PyObject *)outiFirstGroup);
+                        Py_DECREF((PyObject *)outArray);
+                        return NULL;
+                    }
+
                     {
                         void * piKey = PyArray_BYTES(iKey);
                         void * piFirstGroup = PyArray_BYTES(outiFirstGroup);
-- 
2.43.0


From 8307f3f85f870b6e94761681d0749d0daf145f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 34/35] fix: results returned with an exception pending after
 failed allocations and conversions

---
 src/BasicMath.cpp |  5 +++++
 src/Bins.cpp      |  4 ++++
 src/Compress.cpp  |  8 +++++++-
 src/Convert.cpp   | 21 +++++++++++++++++++++
 src/Merge.cpp     | 10 ++++++++++
 src/Reduce.cpp    |  8 ++++++++
 src/RipTide.cpp   |  8 ++++++++
 src/Sort.cpp      |  9 +++++++++
 src/UnaryOps.cpp  |  7 ++++++-
 9 files changed, 78 insertions(+), 2 deletions(-)

diff --git a/src/BasicMath.cpp b/src/BasicMath.cpp
index 29f7e0f..b3d4655 100644
--- a/src/BasicMath.cpp
+++ b/src/BasicMath.cpp
@@ -3526,6 +3526,11 @@ PyObject * BasicMathTwoInputs(PyObject * self, PyObject * args)
     funcNumber = PyLong_AsLongLong(PyTuple_GET_ITEM(args, 1));
     numpyOutputType = PyLong_AsLongLong(PyTuple_GET_ITEM(args, 2));
 
+    if (PyErr_Occurred())
+    {
+        return nullptr;
+    }
+
     if (! PyTuple_CheckExact(tuple))
     {
         PyErr_Format(PyExc_ValueError, "BasicMathTwoInputs arguments needs to be a tuple");
diff --git a/src/Bins.cpp b/src/Bins.cpp
index 6c2945d..c33543c 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -210,6 +210,10 @@ PyObject * ReIndex(PyObject * self, PyObject * args)
                 return SetFastArrayView(result);
             }
         }
+        else
+        {
+            return NULL;
+        }
     }
     else
     {
diff --git a/src/Compress.cpp b/src/Compress.cpp
index 33cb9f9..dbc0be0 100644
--- a/src/Compress.cpp
+++ b/src/Compress.cpp
@@ -238,7 +238,11 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
                     // NOTE: do we care about flags -- what if Fortran mode when saved?
                     pstCompressArrays->pNumpyArray[t] = AllocateNumpyArray(
                         pNumpyHeader->ndim, (npy_intp *)pNumpyHeader->dimensions, pNumpyHeader->dtype, pNumpyHeader->itemsize);
-                    CHECK_MEMORY_ERROR(pstCompressArrays->pNumpyArray[t]);
+                    if (! pstCompressArrays->pNumpyArray[t])
+                    {
+                        // None is returned for this array
+                        PyErr_Clear();
+                    }
                 }
 
                 g_cMathWorker->DoMultiThreadedWork((int)tupleSize, DecompressOneArray, pstCompressArrays);
@@ -333,6 +337,7 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
                 // Return NONE for any arrays with memory issues
                 if (item == NULL)
                 {
+                    PyErr_Clear();
                     item = Py_None;
                     Py_INCREF(Py_None);
                 }
@@ -362,6 +367,7 @@ PyObject * CompressDecompressArrays(PyObject * self, PyObject * args)
                 // Return NONE for any arrays with memory issues
                 if (item == NULL)
                 {
+                    PyErr_Clear();
                     item = Py_None;
                     Py_INCREF(Py_None);
                 }
diff --git a/src/Convert.cpp b/src/Convert.cpp
index e3d08c0..fb09190 100644
--- a/src/Convert.cpp
+++ b/src/Convert.cpp
@@ -1213,6 +1213,11 @@ PyObject * ConvertSafe(PyObject * self, PyObject * args)
         {
             int64_t dtypeNum = PyLong_AsLongLong(inNumber);
 
+            if (dtypeNum == -1 && PyErr_Occurred())
+            {
+                return NULL;
+            }
+
             if (IsFastArrayOrNumpy(inObject))
             {
                 PyObject * result = ConvertSafeInternal(inObject, dtypeNum);
@@ -2277,6 +2282,12 @@ PyObject * CombineAccum1Filter(PyObject * self, PyObject * args)
                 }
                 Py_DecRef((PyObject *)firstArray);
                 firstArray = firstArrayReduced;
+
+                if (! firstArray)
+                {
+                    Py_DecRef((PyObject *)outArray);
+                    return NULL;
+                }
             }
 
             PyObject * returnObject = PyList_New(3);
@@ -3247,6 +3258,12 @@ PyObject * HomogenizeArrays(PyObject * self, PyObject * args)
     {
         int32_t dtype = (int32_t)PyLong_AsLong(dtypeObject);
 
+        if (PyErr_Occurred())
+        {
+            FreeArrayInfo(aInfo);
+            return NULL;
+        }
+
         if (dtype != -1)
         {
             if (dtype < 0 || dtype > NPY_LONGDOUBLE)
@@ -3255,6 +3272,7 @@ PyObject * HomogenizeArrays(PyObject * self, PyObject * args)
                              "HomogenizeArrays: Dont know how to convert dtype num %d. "
                              " Please make sure all arrays are ints or floats.",
                              dtype);
+                FreeArrayInfo(aInfo);
                 return NULL;
             }
         }
@@ -3263,6 +3281,8 @@ PyObject * HomogenizeArrays(PyObject * self, PyObject * args)
             dtype = GetUpcastDtype(aInfo, tupleSize);
             if (dtype == -1)
             {
+                PyErr_Format(PyExc_ValueError, "HomogenizeArrays: the arrays have no common dtype");
+                FreeArrayInfo(aInfo);
                 return NULL;
             }
         }
@@ -3870,6 +3890,7 @@ PyObject * SetItem(PyObject * self, PyObject * args)
     else
     {
         LOGGING("SetItem Could not convert value to array\n");
+        PyErr_Clear();
     }
     // punt to numpy
     Py_IncRef(Py_False);
diff --git a/src/Merge.cpp b/src/Merge.cpp
index a113a6d..4c85fca 100644
--- a/src/Merge.cpp
+++ b/src/Merge.cpp
@@ -1577,6 +1577,16 @@ PyObject * BooleanToFancy(PyObject * self, PyObject * args, PyObject * kwargs)
 
     CHECK_MEMORY_ERROR(returnArray);
 
+    if (! returnArray)
+    {
+        WORKSPACE_FREE(pChunkCount);
+        if (bothMode)
+        {
+            WORKSPACE_FREE(pChunkCountFalse);
+        }
+        return NULL;
+    }
+
     if (returnArray)
     {
         // MT callback
diff --git a/src/Reduce.cpp b/src/Reduce.cpp
index 3d62922..0ba98b5 100644
--- a/src/Reduce.cpp
+++ b/src/Reduce.cpp
@@ -3402,6 +3402,10 @@ PyObject * Reduce(PyObject * self, PyObject * args)
         {
             // read ddof passed
             ddof = PyLong_AsLongLong(ddofItem);
+            if (ddof == -1 && PyErr_Occurred())
+            {
+                return NULL;
+            }
         }
         tupleSize--;
     }
@@ -3423,6 +3427,10 @@ PyObject * Reduce(PyObject * self, PyObject * args)
             if (PyLong_Check(object2))
             {
                 int64_t func = PyLong_AsLongLong(object2);
+                if (func == -1 && PyErr_Occurred())
+                {
+                    return NULL;
+                }
 
                 // possible TODO: wrap result back into np scalar type
                 return ReduceInternal(inArr1, (REDUCE_FUNCTIONS)func, ddof);
diff --git a/src/RipTide.cpp b/src/RipTide.cpp
index 3518a36..e328399 100644
--- a/src/RipTide.cpp
+++ b/src/RipTide.cpp
@@ -446,6 +446,7 @@ PyObject * SetFastArrayView(PyArrayObject * pArray)
         if (result == NULL)
         {
             printf("!!! PyArray_View failed\n");
+            PyErr_Clear();
         }
         else
         {
@@ -657,6 +658,7 @@ PyArrayObject * AllocateNumpyArray(int ndim, npy_intp * dims, int32_t numpyType,
         if (! returnObject)
         {
             // GCNOW (attempt to free memory) and try again
+            PyErr_Clear();
             GarbageCollect(0, false);
             returnObject = (PyArrayObject *)PyArray_New(allocType, ndim, dims, numpyType, NULL, nullptr, 0, array_flags, nullptr);
         }
@@ -681,6 +683,7 @@ PyArrayObject * AllocateNumpyArray(int ndim, npy_intp * dims, int32_t numpyType,
         if (! returnObject)
         {
             // GCNOW and try again
+            PyErr_Clear();
             GarbageCollect(0, false);
             returnObject = (PyArrayObject *)PyArray_New(allocType, ndim, dims, numpyType,
                                                         strides, // Strides
@@ -757,6 +760,7 @@ PyArrayObject * AllocateNumpyArrayForData(int ndim, npy_intp * dims, int32_t num
     if (! returnObject)
     {
         // GCNOW and try again
+        PyErr_Clear();
         GarbageCollect(0, false);
         returnObject = (PyArrayObject *)PyArray_New(allocType, ndim, dims, numpyType,
                                                     strides, // Strides
@@ -908,6 +912,10 @@ PyObject * Empty(PyObject * self, PyObject * args)
     // first item in the list is a python int
     int overflow = 0;
     npy_intp dimension1 = static_cast<npy_intp>(PyLong_AsNPY_INTPAndOverflow(PyList_GET_ITEM(inDimensions, 0), &overflow));
+    if (dimension1 == -1 && PyErr_Occurred())
+    {
+        return NULL;
+    }
     if (overflow)
     {
         return PyErr_Format(PyExc_ValueError, "Dimension is too large for this system.");
diff --git a/src/Sort.cpp b/src/Sort.cpp
index b24a1ee..9a4ae54 100644
--- a/src/Sort.cpp
+++ b/src/Sort.cpp
@@ -3614,6 +3614,10 @@ PyObject * LexSort(PyObject * self, PyObject * args, PyObject * kwargs)
         }
     }
 
+    if (PyErr_Occurred())
+    {
+        return NULL;
+    }
     Py_INCREF(Py_None);
     return Py_None;
 }
@@ -3935,6 +3939,11 @@ static PyObject * GroupFromLexSortInternal(PyObject * kwargs, UINDEX * pIndex, n
 
     int64_t base_index = GetBaseIndex(kwargs);
 
+    if (PyErr_Occurred())
+    {
+        return NULL;
+    }
+
     if (pCutOffs && pCutOffs[cutOffLength - 1] != indexLength)
     {
         return PyErr_Format(PyExc_ValueError, "GroupFromLexSort last cutoff length does not match array length %lld", indexLength);
diff --git a/src/UnaryOps.cpp b/src/UnaryOps.cpp
index 4aa842f..5f671b2 100644
--- a/src/UnaryOps.cpp
+++ b/src/UnaryOps.cpp
@@ -2540,6 +2540,7 @@ PyObject * ProcessOneInput(PyArrayObject * inArray, PyArrayObject * outObject1,
                 }
                 return (PyObject *)outputArray;
             }
+            return NULL;
         }
 
         RETURN_NONE;
@@ -2579,7 +2580,7 @@ PyObject * ProcessOneInput(PyArrayObject * inArray, PyArrayObject * outObject1,
 
             if (outputArray == NULL)
             {
-                RETURN_NONE;
+                return NULL;
             }
         }
         else
@@ -2825,6 +2826,10 @@ PyObject * BasicMathUnaryOp(PyObject * self, PyObject * args, PyObject * kwargs)
         if (PyLong_CheckExact(funcNumber))
         {
             int64_t funcNum = PyLong_AsLongLong(funcNumber);
+            if (funcNum == -1 && PyErr_Occurred())
+            {
+                return NULL;
+            }
 
             if (IsFastArrayOrNumpy(inObject))
             {
-- 
2.43.0


From b819a3eb183fc5bc2302373957c4122e41795e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 35/35] fix: check the type of array items, list records and
 name tuples before using them

TryRecycleNumpy, BuildListInfo, MultiKeyRolling and RecordArrayToColMajor read objects from the caller as arrays or
tuples without testing them.
---
 src/MultiKey.cpp      |  5 +++++
 src/Recycler.cpp      |  6 ++++++
 src/SDSFilePython.cpp |  2 +-
 src/TileRepeat.cpp    | 12 ++++++++++++
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/MultiKey.cpp b/src/MultiKey.cpp
index 3b0ff33..4c10f1f 100644
--- a/src/MultiKey.cpp
+++ b/src/MultiKey.cpp
@@ -1502,6 +1502,11 @@ PyObject * MultiKeyRolling(PyObject * self, PyObject * args)
 
     PyObject * firstArg = PyTuple_GET_ITEM(args, 0);
     PyObject * secondArg = PyTuple_GET_ITEM(args, 1);
+    if (! PyTuple_Check(firstArg))
+    {
+        PyErr_Format(PyExc_ValueError, "MultiKeyRolling first arg must be a tuple.");
+        return NULL;
+    }
     if (PyLong_Check(secondArg))
     {
         hintSize = PyLong_AsLongLong(secondArg);
diff --git a/src/Recycler.cpp b/src/Recycler.cpp
index f882387..9e03a4c 100644
--- a/src/Recycler.cpp
+++ b/src/Recycler.cpp
@@ -893,6 +893,12 @@ PyObject * TryRecycleNumpy(PyObject * self, PyObject * args)
             PyObject * item = PyList_GetItem(tuple, i);
             // Py_DecRef(item);
 
+            if (! PyArray_Check(item))
+            {
+                PyErr_Format(PyExc_TypeError, "TryRecycleNumpy: list item %lld is not an array", (long long)i);
+                return NULL;
+            }
+
             PyArrayObject * inArr = (PyArrayObject *)item;
 
             int ndim = PyArray_NDIM(inArr);
diff --git a/src/SDSFilePython.cpp b/src/SDSFilePython.cpp
index 9738d90..5c0c427 100644
--- a/src/SDSFilePython.cpp
+++ b/src/SDSFilePython.cpp
@@ -491,7 +491,7 @@ int64_t BuildListInfo(PyListObject * inListNames, OUT char * pListNames)
     {
         PyObject * pTuple = PyList_GET_ITEM(inListNames, i);
 
-        if (pTuple && PyTuple_Check(pTuple))
+        if (pTuple && PyTuple_Check(pTuple) && PyTuple_GET_SIZE(pTuple) >= 2)
         {
             PyObject * pBytes = PyTuple_GET_ITEM(pTuple, 0);
 
diff --git a/src/TileRepeat.cpp b/src/TileRepeat.cpp
index 5b46e1f..be12a36 100644
--- a/src/TileRepeat.cpp
+++ b/src/TileRepeat.cpp
@@ -193,12 +193,24 @@ PyObject * RecordArrayToColMajor(PyObject * self, PyObject * args)
     int64_t * pOffsets = (int64_t *)PyArray_BYTES(offsetArr);
     PyArrayObject ** ppArrays = (PyArrayObject **)PyArray_BYTES(arrArr);
 
+    if (PyArray_TYPE(arrArr) != NPY_OBJECT || PyArray_TYPE(offsetArr) != NPY_INT64)
+    {
+        PyErr_Format(PyExc_TypeError, "RecordArrayToColMajor needs int64 offsets and an object array of arrays");
+        return NULL;
+    }
+
     stOffsets * pstOffset;
 
     pstOffset = (stOffsets *)WORKSPACE_ALLOC(sizeof(stOffsets) * numArrays);
 
     for (int64_t i = 0; i < numArrays; i++)
     {
+        if (! ppArrays[i] || ! PyArray_Check((PyObject *)ppArrays[i]))
+        {
+            WORKSPACE_FREE(pstOffset);
+            PyErr_Format(PyExc_TypeError, "RecordArrayToColMajor output %lld is not an array", (long long)i);
+            return NULL;
+        }
         pstOffset[i].pData = PyArray_BYTES(ppArrays[i]);
         pstOffset[i].itemsize = PyArray_ITEMSIZE(ppArrays[i]);
     }
-- 
2.43.0

