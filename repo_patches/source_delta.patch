From b5c499d345f74ecf96bd2f1c6e653bbeae359294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:50 +0000
Subject: [PATCH 01/59] fix: apply both operands' invalid masks to one-element
 date/time arrays

_apply_inv_mask took a separate path for one-element arrays that treated any
value <= 0 as invalid (a DateSpan of 0 or -3 days became invalid) and ignored
the other operand's invalid mask (a NaN TimeSpan produced a garbage date).
---
 riptable/rt_datetime.py | 49 ++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index e549427..4e97b7e 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -547,33 +547,28 @@ def _apply_inv_mask(arr1, arr2, fillval=None, arr1_inv_mask=None, arr2_inv_mask=
     Called by time fraction properties and math operations.
     """
     if isinstance(arr1, np.ndarray):
-        if len(arr1) == 1:
-            # broadcast array of 1 path
-            if arr1[0] <= 0:
-                return TypeRegister.FastArray([INVALID_DICT[arr2.dtype.num]])
-            return arr2
-        else:
-            if arr1_inv_mask is None:
-                arr1_inv_mask = arr1.isnan()
-
-            if fillval is None:
-                # use the sentinel or nan for the return array type, e.g. year() returns int32
-                fillval = INVALID_DICT[arr2.dtype.num]
-            putmask(arr2, arr1_inv_mask, fillval)
-
-            # apply the invalid mask from an operation with another array
-            if arr2_inv_mask is not None:
-                # return invalid fill, fixes broadcasting if math operations
-                # was with a scalar or single item array
-                if np.isscalar(arr2_inv_mask):
-                    if arr2_inv_mask:
-                        arr2[:] = fillval
-                elif len(arr2_inv_mask) == 1:
-                    if arr2_inv_mask[0]:
-                        arr2[:] = fillval
-                else:
-                    putmask(arr2, arr2_inv_mask, fillval)
-            return arr2
+        if arr1_inv_mask is None:
+            arr1_inv_mask = arr1.isnan()
+
+        if fillval is None:
+            # use the sentinel or nan for the return array type, e.g. year() returns int32
+            fillval = INVALID_DICT[arr2.dtype.num]
+
+        # apply the invalid masks of both operands
+        for inv_mask in (arr1_inv_mask, arr2_inv_mask):
+            if inv_mask is None:
+                continue
+            # return invalid fill, fixes broadcasting if math operations
+            # was with a scalar or single item array
+            if np.isscalar(inv_mask):
+                if inv_mask:
+                    arr2[:] = fillval
+            elif len(inv_mask) == 1:
+                if inv_mask[0]:
+                    arr2[:] = fillval
+            else:
+                putmask(arr2, inv_mask, fillval)
+        return arr2
     else:
         # scalar path
         if arr1 <= 0:
-- 
2.43.0


From 2a1bcc9baef0c9580b4945293dac802530f2a37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:20 +0000
Subject: [PATCH 02/59] fix: subtracting a DateSpan from a TimeSpan converts
 days to nanoseconds

TimeSpan - DateSpan subtracted the raw day count as nanoseconds and dropped the
DateSpan's invalid mask; the one-element mask branch tested isnan() of a boolean.
---
 riptable/rt_datetime.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 4e97b7e..e5a1424 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -6789,9 +6789,14 @@ class TimeSpanBase:
 
     # -------------------------------------------------------------
     def __sub__(self, value):
+        other_inv_mask = None
         if isinstance(value, (DateTimeNano, DateTimeNanoScalar, Date, DateScalar)):
             return value.__rsub__(self)
-        return self._fix_binary_ops(value, "__sub__")
+        elif isinstance(value, (DateSpan, DateSpanScalar)):
+            # spans of days to nanoseconds
+            other_inv_mask = isnan(value)
+            value = value.astype(np.int64) * NANOS_PER_DAY
+        return self._fix_binary_ops(value, "__sub__", other_inv_mask=other_inv_mask)
 
     # -------------------------------------------------------------
     def __rsub__(self, value):
@@ -6861,6 +6866,8 @@ class TimeSpanBase:
             result = op(self, value)
 
         if np.isscalar(result):
+            if other_inv_mask is not None and other_inv_mask:
+                result = np.nan
             result = TimeSpanScalar(result)
 
         elif isinstance(result, np.ndarray):
@@ -6871,9 +6878,12 @@ class TimeSpanBase:
                     result[inv_mask] = np.nan
             else:
                 # possible nan fill
-                if len(other_inv_mask) == 1:
-                    if isnan(other_inv_mask)[0]:
-                        result = TimeSpan(full(len(self), np.nan, dtype=np.float64))
+                if np.isscalar(other_inv_mask):
+                    if other_inv_mask:
+                        result[:] = np.nan
+                elif len(other_inv_mask) == 1:
+                    if other_inv_mask[0]:
+                        result[:] = np.nan
                 else:
                     result[other_inv_mask] = np.nan
             result = TimeSpan(result)
-- 
2.43.0


From d7bc095043ca76df305fe5c3ea9c07227b7a2c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:36 +0000
Subject: [PATCH 03/59] fix: repeating a DateTimeNano scalar keeps the instant

repeat/tile passed the scalar's from_tz although its value is already UTC, so the
instant was shifted by the zone offset a second time.
---
 riptable/rt_datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index e5a1424..8a82d79 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -7765,11 +7765,11 @@ class DateTimeNanoScalar(np.int64, DateTimeCommon, TimeStampBase):
     # used in adding a scalar to a Dataset
     def repeat(self, repeats, axis=None):
         return DateTimeNano(
-            self._np.repeat(repeats, axis=axis), to_tz=self._timezone._to_tz, from_tz=self._timezone._from_tz
+            self._np.repeat(repeats, axis=axis), to_tz=self._timezone._to_tz, from_tz="GMT"
         )
 
     def tile(self, repeats):
-        return DateTimeNano(self._np.tile(repeats), to_tz=self._timezone._to_tz, from_tz=self._timezone._from_tz)
+        return DateTimeNano(self._np.tile(repeats), to_tz=self._timezone._to_tz, from_tz="GMT")
 
 
 # ==========================================================
-- 
2.43.0


From 40a2ecf2e631ce7b67e18a4d1f1fec6c5b847878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:13 +0000
Subject: [PATCH 04/59] fix: DateSpan with DateTimeNano or TimeSpan keeps
 timezone and invalids

DateSpan + DateTimeNano lost the operand's timezone (the operand was replaced by a
plain array before its timezone was read), and invalid results were filled with the
int32 sentinel, which is a valid DateTimeNano / TimeSpan value.
---
 riptable/rt_datetime.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 8a82d79..1c1d768 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -1031,6 +1031,9 @@ class DateBase(FastArray):
         return_type = None
         caller = self._fa
 
+        # keep the original operand, the nano check may strip its class (and timezone)
+        operand = value
+
         # check if operand has nano precision, set invalid, return type accordingly
         value, other_inv_mask, return_type, caller = self._check_mathops_nano(
             funcname, value, other_inv_mask, return_type, caller
@@ -1048,7 +1051,7 @@ class DateBase(FastArray):
             return other_inv_mask
 
         # apply invalid mask(s) and wrap result in final return type
-        result = self._build_mathops_result(value, result, inv_mask, other_inv_mask, return_type)
+        result = self._build_mathops_result(operand, result, inv_mask, other_inv_mask, return_type)
         return result
 
     # ------------------------------------------------------------
@@ -1061,17 +1064,25 @@ class DateBase(FastArray):
         # print('other_inv_mask',other_inv_mask)
         # print('return type',return_type)
 
+        # fill with the invalid of the class being returned
+        if return_type == DateTimeNano:
+            fillval = DateTimeBase.NAN_TIME
+        elif return_type == TimeSpan:
+            fillval = np.nan
+        else:
+            fillval = self.NAN_DATE
+
         result = _apply_inv_mask(
-            self, result, fillval=self.NAN_DATE, arr1_inv_mask=inv_mask, arr2_inv_mask=other_inv_mask
+            self, result, fillval=fillval, arr1_inv_mask=inv_mask, arr2_inv_mask=other_inv_mask
         )
 
         if not isinstance(result, return_type):
             if return_type == DateTimeNano:
-                try:
-                    # base on original to_tz
-                    # use a try, because this may be hit by TimeSpan operand (no timezone)
+                # base on original to_tz
+                # may also be hit by TimeSpan operand (no timezone)
+                if isinstance(value, (DateTimeNano, DateTimeNanoScalar)):
                     to_tz = value._timezone._to_tz
-                except:
+                else:
                     to_tz = "GMT"
                 result = DateTimeNano(result, from_tz="GMT", to_tz=to_tz)
 
-- 
2.43.0


From dc9c7e05a2aa84d64f092d5fd01ded478ecd59d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:51 +0000
Subject: [PATCH 05/59] fix: date/time array arithmetic honours scalar operands

A TimeSpan, DateTimeNano, Date or DateSpan scalar on the right of an array of another
date/time class was treated as a bare number (Date + TimeSpan scalar gave an invalid
Date, TimeSpan + DateSpan scalar added days as nanoseconds, Date + Date scalar was
accepted).  Scalars now take the same branch as arrays of their class.
---
 riptable/rt_datetime.py | 53 +++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 1c1d768..c4756e2 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -51,6 +51,7 @@ from .rt_numpy import (
     full,
     hstack,
     isnan,
+    isnanorzero,
     mask_andi,
     mask_ori,
     mask_xori,
@@ -2325,7 +2326,7 @@ class Date(DateBase, TimeStampBase):
 
         All other operands will be treated as DateSpan and return Date.
         """
-        if isinstance(value, Date):
+        if isinstance(value, (Date, DateScalar)):
             func = TypeRegister.MathLedger._BASICMATH_TWO_INPUTS
             # need routine for int32 - int32 => int32 (operands have 0 as invalid, result has sentinel as invalid)
             # right now, using the double return, gets recasted in the constructor
@@ -2335,7 +2336,7 @@ class Date(DateBase, TimeStampBase):
             result = func(functup, op, 0)
             return DateSpan(result)
 
-        elif isinstance(value, DateTimeNano):
+        elif isinstance(value, (DateTimeNano, DateTimeNanoScalar)):
             caller = DateTimeNano(self._fa * NANOS_PER_DAY, from_tz=value._timezone._from_tz)
             return caller - value
 
@@ -2501,7 +2502,7 @@ class Date(DateBase, TimeStampBase):
         return_type = Date
         other_inv_mask = None
 
-        if isinstance(value, Date):
+        if isinstance(value, (Date, DateScalar)):
             if funcname in ("__add__", "__iadd__", "__isub__"):
                 raise TypeError(f"Cannot {funcname} operation between Date and Date")
 
@@ -2535,13 +2536,13 @@ class Date(DateBase, TimeStampBase):
         caller         : FastArray view of Date object.
 
         """
-        if isinstance(value, TimeSpan):
+        if isinstance(value, (TimeSpan, TimeSpanScalar)):
             return_type = DateTimeNano
             other_inv_mask = value.isnan()
             caller = self._fa * NANOS_PER_DAY
             value = value._fa.astype(np.int64)
 
-        elif isinstance(value, DateTimeNano):
+        elif isinstance(value, (DateTimeNano, DateTimeNanoScalar)):
             if funcname in ("__add__", "__iadd__", "__isub__"):
                 raise TypeError(f"Cannot perform addition between Date and DateTimeNano")
 
@@ -2941,12 +2942,12 @@ class DateSpan(DateBase):
         caller         : FastArray view of Date object.
 
         """
-        if isinstance(value, TimeSpan):
+        if isinstance(value, (TimeSpan, TimeSpanScalar)):
             return_type = TimeSpan
             other_inv_mask = value.isnan()
             caller = self._fa * NANOS_PER_DAY
 
-        elif isinstance(value, DateTimeNano):
+        elif isinstance(value, (DateTimeNano, DateTimeNanoScalar)):
             if funcname in ("__sub__", "__isub__"):
                 raise TypeError(f"Cannot perform {funcname} operation between DateSpan and DateTimeNano")
             return_type = DateTimeNano
@@ -2974,11 +2975,11 @@ class DateSpan(DateBase):
         return_type = DateSpan
         other_inv_mask = None
 
-        if isinstance(value, Date):
+        if isinstance(value, (Date, DateScalar)):
             if funcname in ("__sub__", "__isub__"):
                 raise TypeError(f"Cannot perform {funcname} operation between DateSpan and Date")
             return_type = Date
-            other_inv_mask = value.isnan()
+            other_inv_mask = isnanorzero(value)
 
         # invalid gets early exit
         elif isinstance(value, (int, float, np.number)):
@@ -6775,22 +6776,26 @@ class TimeSpanBase:
     def __add__(self, value):
         other_inv_mask = None
 
+        # DateTimeNano / Date will fix up this operation
+        if isinstance(value, (DateTimeNano, DateTimeNanoScalar, Date)):
+            return value.__add__(self)
+
+        elif isinstance(value, DateScalar):
+            # the scalar has no math of its own
+            return value.repeat(1).__add__(self)
+
+        elif isinstance(value, (DateSpan, DateSpanScalar)):
+            other_inv_mask = isnan(value)
+            value = value.astype(np.int64) * NANOS_PER_DAY
+
         # TimeSpan add
-        if not isinstance(value, np.ndarray):
+        elif not isinstance(value, np.ndarray):
             value = FastArray(value).astype(np.float64)
-        else:
-            # DateTimeNano / Date will fix up this operation
-            if isinstance(value, (DateTimeNano, DateTimeNanoScalar, Date, DateScalar)):
-                return value.__add__(self)
-
-            elif isinstance(value, (DateSpan, DateSpanScalar)):
-                other_inv_mask = isnan(value)
-                value = value._fa * NANOS_PER_DAY
 
-            else:
-                other_inv_mask = isnan(value)
-                value = value.view(FastArray)
-                value = value.astype(np.float64, copy=False)
+        else:
+            other_inv_mask = isnan(value)
+            value = value.view(FastArray)
+            value = value.astype(np.float64, copy=False)
 
         return self._fix_binary_ops(value, "__add__", other_inv_mask=other_inv_mask)
 
@@ -6801,8 +6806,10 @@ class TimeSpanBase:
     # -------------------------------------------------------------
     def __sub__(self, value):
         other_inv_mask = None
-        if isinstance(value, (DateTimeNano, DateTimeNanoScalar, Date, DateScalar)):
+        if isinstance(value, (DateTimeNano, Date)):
             return value.__rsub__(self)
+        elif isinstance(value, (DateTimeNanoScalar, DateScalar)):
+            raise TypeError(f"Cannot subtract {type(value)} from TimeSpan.")
         elif isinstance(value, (DateSpan, DateSpanScalar)):
             # spans of days to nanoseconds
             other_inv_mask = isnan(value)
-- 
2.43.0


From 340a43cbc08c30127f9190d023db6e7059e407dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:39 +0000
Subject: [PATCH 06/59] fix: DateTimeNano.day_of_month uses the display
 timezone throughout

---
 riptable/rt_datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index c4756e2..5cc3278 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3468,8 +3468,8 @@ class DateTimeCommon:
         int32 array
 
         """
-        arr = self._fa
-        year = self._year(arr, fix_dst=True)
+        arr = self._timezone.fix_dst(self._fa)
+        year = self._year(arr, fix_dst=False)
 
         # subtract the nanos from start of year so all times are in MM-DD HH:MM:SS, etc.
         startyear = arr - self._year_splits[year - 1970]
-- 
2.43.0


From a0c4b93157d2509621cb95094113be7f665c5aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:40 +0000
Subject: [PATCH 07/59] fix: DateTimeNano minute and sub-minute fields follow
 the display timezone

---
 riptable/rt_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 5cc3278..53d3197 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3744,7 +3744,7 @@ class DateTimeCommon:
         None of these need to account for timezone.
         """
         inv_mask = self.isnan()
-        arr = self._fa % modulo
+        arr = self._timezone.fix_dst(self._fa) % modulo
         if span:
             if isinstance(self, DateTimeNano):
                 result = TypeRegister.TimeSpan(arr)
-- 
2.43.0


From 1f0af012327b73934c39eb37f73a8bae972007c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:08 +0000
Subject: [PATCH 08/59] fix: date/time comparisons against scalar operands of
 another kind convert units or refuse

---
 riptable/rt_datetime.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 53d3197..8b6fb45 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -2253,7 +2253,7 @@ class Date(DateBase, TimeStampBase):
         if isinstance(other, (DateSpan, TimeSpan, DateSpanScalar, TimeSpanScalar)):
             raise TypeError(f"Cannot perform {funcname} comparison operation between {type(self)} and {type(other)}.")
 
-        elif isinstance(other, DateTimeNano):
+        elif isinstance(other, (DateTimeNano, DateTimeNanoScalar)):
             caller = self._fa * NANOS_PER_DAY
             to_tz = other._timezone._to_tz
             # fix the timezone to match the display of the DateTimeNano
@@ -3016,11 +3016,11 @@ class DateSpan(DateBase):
 
         caller = self._fa
 
-        if isinstance(other, (Date, DateTimeNano, TypeRegister.Categorical)):
+        if isinstance(other, (Date, DateTimeNano, DateScalar, DateTimeNanoScalar, TypeRegister.Categorical)):
             # Date allows categorical comparisons, DateSpan does not
             raise TypeError(f"Cannot perform {funcname} comparison operation between {type(self)} and {type(other)}.")
 
-        elif isinstance(other, TimeSpan):
+        elif isinstance(other, (TimeSpan, TimeSpanScalar)):
             caller = self._fa * NANOS_PER_DAY
 
         # looks weird now, saving explicit branchesfor if any forbidden types appear
@@ -7085,10 +7085,10 @@ class TimeSpanBase:
         if isinstance(other, (str, bytes)):
             other = TimeSpan(other)[0]
 
-        if isinstance(other, (DateTimeNano, Date)):
+        if isinstance(other, (DateTimeNano, Date, DateTimeNanoScalar, DateScalar)):
             raise TypeError(f"Cannot compare TimeSpan with {type(other)}")
         # upcast DateSpan to nanoseconds
-        elif isinstance(other, DateSpan):
+        elif isinstance(other, (DateSpan, DateSpanScalar)):
             other = (other._fa * NANOS_PER_DAY).astype(np.float64)
 
         # let everything else fall through to fast array
-- 
2.43.0


From 9781073abc53078dce2d170a1f57620ce1940b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:22 +0000
Subject: [PATCH 09/59] fix: DateTimeNano arrow conversion keeps the instant
 and the display timezone

---
 riptable/rt_datetime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 8b6fb45..13365c5 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -6386,7 +6386,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
 
         # Convert the pyarrow array's timezone (id from tz database) to a riptable TZ string,
         # then set that on the output array.
-        from_tz_str = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(arr.type.tz)
+        to_tz_str = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(arr.type.tz)
 
         # Create a view of the underlying data as int64 epoch-nanoseconds.
         arr_int64 = arr.view(pa.int64())
@@ -6395,7 +6395,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         # depending on which options the caller has specified.
         if arr.null_count == 0:
             arr_int64_np = arr_int64.to_numpy(zero_copy_only=not writable, writable=writable)
-            return DateTimeNano(arr_int64_np, from_tz=from_tz_str)
+            return DateTimeNano(arr_int64_np, from_tz="UTC", to_tz=to_tz_str)
         elif zero_copy_only:
             raise RuntimeError("Unable to perform zero-copy conversion from an input array containing nulls.")
         else:
@@ -6418,7 +6418,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
             # TODO: If writable=True here, it seems like we'll do a 2nd copy of the data? Is there any way to avoid it?
             arr_int64_np = arr_int64_filled.to_numpy(zero_copy_only=not writable, writable=writable)
 
-            return DateTimeNano(arr_int64_np, from_tz=from_tz_str)
+            return DateTimeNano(arr_int64_np, from_tz="UTC", to_tz=to_tz_str)
 
     def to_arrow(
         self,
@@ -6446,7 +6446,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         import pyarrow as pa
 
         # Get the tz db / ICU timezone name.
-        tz_name = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(self._timezone._from_tz)
+        tz_name = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(self._timezone._to_tz)
 
         # Create the corresponding pyarrow type.
         arr_type = pa.timestamp("ns", tz=tz_name)
-- 
2.43.0


From 8547bb83f4f144708185ed690268137db1d32674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:44 +0000
Subject: [PATCH 10/59] fix: DateTimeNano scalar arithmetic keeps the display
 timezone

---
 riptable/rt_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 13365c5..ae6607c 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -4076,7 +4076,7 @@ class DateTimeCommon:
         """
         input1 = self
         if not isinstance(self, np.ndarray):
-            input1 = DateTimeNano(self)
+            input1 = DateTimeNano(self, from_tz="GMT", to_tz=self._timezone._to_tz)
 
         func = TypeRegister.MathLedger._BASICMATH_TWO_INPUTS
         if call_super:
-- 
2.43.0


From 3e9ddf7c4bf9099983748374de325acbcd735f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:15 +0000
Subject: [PATCH 11/59] fix: DateTimeNano.date uses local midnight in zones
 without daylight saving

---
 riptable/rt_datetime.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index ae6607c..53e27ec 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3287,12 +3287,8 @@ class DateTimeCommon:
 
 
         """
-        if self._timezone._dst_reverse is not None:
-            arr = self._timezone.fix_dst(self._fa)
-            arr = arr - (arr % NANOS_PER_DAY)
-        else:
-            arr = self._fa
-            arr = arr - (arr % NANOS_PER_DAY)
+        arr = self._timezone.fix_dst(self._fa)
+        arr = arr - (arr % NANOS_PER_DAY)
         # from_tz needs to match to_tz (similar to from_matlab_days, except can't force 'GMT' because of DST fixup)
         # return DateTimeNano(arr, from_tz=self._timezone._to_tz, to_tz='UTC')
         result = DateTimeNano(arr, from_tz=self._timezone._to_tz, to_tz=self._timezone._to_tz)
-- 
2.43.0


From fa1f7a573dee074b4046ab143f9df2bd1517386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:17 +0000
Subject: [PATCH 12/59] fix: daylight saving changes take effect at the
 transition instant itself

---
 riptable/rt_timezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_timezone.py b/riptable/rt_timezone.py
index 50e920a..325e3c8 100644
--- a/riptable/rt_timezone.py
+++ b/riptable/rt_timezone.py
@@ -1191,7 +1191,7 @@ class TimeZone:
         # is_dst = (FastArray(np.searchsorted(DST_CUTOFFS, arr)) & 1).astype(bool)
         # is_dst = (rc.BinsToCutsBSearch(arr, cutoffs, 0) & 1).astype(bool)
 
-        is_dst = (searchsorted(cutoffs, arr) & 1).astype(np.bool_)
+        is_dst = (searchsorted(cutoffs, arr, side="right") & 1).astype(np.bool_)
         return is_dst
 
     # ------------------------------------------------------------
-- 
2.43.0


From 1a32899f0fbcdbbb035a8d1fd20b30d612b7be03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:29 +0000
Subject: [PATCH 13/59] fix: subtracting an invalid duration scalar from
 instants yields invalid

---
 riptable/rt_datetime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 53e27ec..b285ae5 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -5843,6 +5843,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
             elif isinstance(other, (TimeSpan, TimeSpanScalar)):
                 # apply our own mask during this track
                 return_type = DateTimeNano
+                other_inv_mask = isnan(other)
                 # upcast TimeSpan to preserve precision
                 other = other.astype(np.int64)
                 call_super = True
-- 
2.43.0


From aab7ed1e48740e58763438a516672c0451a62a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:36 +0000
Subject: [PATCH 14/59] fix: every structural mutator honours the lock of a
 locked container

---
 riptable/rt_dataset.py | 6 +++++-
 riptable/rt_struct.py  | 8 ++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index c6efa2a..75fad5f 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -981,6 +981,8 @@ class Dataset(Struct):
             raise TypeError(f"The row filter must be a boolean mask or integer fancy index.")
 
         if inplace:
+            if self.is_locked():
+                raise AttributeError("Not allowed to call filter() inplace on locked object.")
             self._all_items.copy_inplace(rowfilter)
 
             # Update the rowcount.
@@ -3768,10 +3770,10 @@ class Dataset(Struct):
         if inplace is True:
             if deduplicated._nrows != self._nrows:
                 # swap out all column data
+                self.col_replace_all(deduplicated, check_exists=False)
                 self._nrows = deduplicated._nrows
                 self._col_sortlist = None
                 self._sort_ascending = True
-                self.col_replace_all(deduplicated, check_exists=False)
                 return self
 
         return deduplicated
@@ -3789,6 +3791,8 @@ class Dataset(Struct):
         check_exists : bool
             if True, all newdict keys and old item keys will be compared to ensure a match
         """
+        if self.is_locked():
+            raise AttributeError("Not allowed to call col_replace_all() on locked object.")
         self._all_items.item_replace_all(newdict, check_exists=check_exists)
 
     # -------------------------------------------------------------
diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index ab0537f..cb2984a 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -2618,6 +2618,8 @@ class Struct:
         None
             Returns nothing.
         """
+        if self.is_locked():
+            raise AttributeError(f"Not allowed to set item {name!r} in locked object.")
         if not Struct.AllNames and not self.is_valid_colname(name):
             if self.__class__.WarnOnInvalidNames:
                 warnings.warn(
@@ -3368,6 +3370,8 @@ class Struct:
         3        0.63        0.22        0.85        0.60        0.91
         4        0.46        0.70        0.02        0.49        0.34
         """
+        if self.is_locked():
+            raise AttributeError("Not allowed to call col_add_prefix() on locked object.")
         sorts = self._col_sortlist
 
         # clear item dict first so if prefix + oldname exists, data won't be overwritten
@@ -3408,6 +3412,8 @@ class Struct:
         3        0.63        0.22        0.85        0.60        0.91
         4        0.46        0.70        0.02        0.49        0.34
         """
+        if self.is_locked():
+            raise AttributeError("Not allowed to call col_add_suffix() on locked object.")
         sorts = self._col_sortlist
 
         # clear item dict first so if oldname + suffix exists, data won't be overwritten
@@ -3786,6 +3792,8 @@ class Struct:
         ValueError: Item A already existed, cannot make replacement in item.
         """
         # will return true if any column names changed
+        if self.is_locked():
+            raise AttributeError("Not allowed to call col_str_replace() on locked object.")
         replaced = self._all_items.item_str_replace(old, new, maxr=max)
         if replaced and self._col_sortlist is not None:
             # fix sorts
-- 
2.43.0


From 544a0ad78c6184dee0e933bc4ffb4f92d71c4a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:26 +0000
Subject: [PATCH 15/59] fix: Dataset.duplicated(keep='last') marked a grouping
 position instead of the row

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 75fad5f..3438abb 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3620,7 +3620,7 @@ class Dataset(Struct):
             result[igroup[ilast]] = False
 
             # set the last one
-            result[lastindex] = False
+            result[igroup[lastindex]] = False
 
         # only return rows that occur once
         elif keep is False:
-- 
2.43.0


From 8ac8ef899a318717862cfb54746398f0977b267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:42 +0000
Subject: [PATCH 16/59] fix: Dataset.tail(0) returned every row

---
 riptable/rt_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 3438abb..f84fc74 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3043,6 +3043,8 @@ class Dataset(Struct):
             self._nrows = 0
             return self[:0, :]
         rows = min(self._nrows, n)
+        if rows == 0:
+            return self[:0, :]
         return self[-rows:, :]
 
     def dhead(self, n: int = 0) -> None:
-- 
2.43.0


From 7ff8c3b9431bb1f7a26a3b55b2878e7870887706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:55 +0000
Subject: [PATCH 17/59] fix: head and tail of an empty Dataset made it refuse
 later columns

---
 riptable/rt_dataset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index f84fc74..e35f150 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3007,7 +3007,7 @@ class Dataset(Struct):
             Returns ``N`` randomly selected rows of the :py:class:`~.rt_dataset.Dataset`.
         """
         if self._nrows is None:
-            self._nrows = 0
+            return self.copy(deep=False)
         rows = min(self._nrows, n)
         return self[:rows, :]
 
@@ -3040,8 +3040,7 @@ class Dataset(Struct):
             Returns ``N`` randomly selected rows of the :py:class:`~.rt_dataset.Dataset`.
         """
         if self._nrows is None:
-            self._nrows = 0
-            return self[:0, :]
+            return self.copy(deep=False)
         rows = min(self._nrows, n)
         if rows == 0:
             return self[:0, :]
-- 
2.43.0


From 1a2b41ddd6314a06cb5d024f446d22e510b36726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:52 +0000
Subject: [PATCH 18/59] fix: set_valid with a filter on a mapped Categorical
 overwrote its own codes

---
 riptable/rt_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index bb110d5..a2b0859 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -3270,7 +3270,7 @@ class Categorical(GroupByOps, FastArray):
         """
         # mapped categoricals will be flipped to array
         if self.isenum:
-            ikey = self._fa
+            ikey = self._fa.copy()
             if filter is not None:
                 if filter.dtype.char == "?":
                     # set the invalids (technically filtering not allowed on an enum)
-- 
2.43.0


From 104aa0ae6458efbd545addd83179fc8e0cce04f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:01 +0000
Subject: [PATCH 19/59] fix: row-wise reductions of a Dataset converted its
 columns in place

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index e35f150..323ec46 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -6558,7 +6558,7 @@ class Dataset(Struct):
         if axis == 1:
             if fill_value is None:
                 # new fast path
-                return func(self.imatrix_make(), axis=1, **kwargs)
+                return func(self.imatrix_make(inplace=False), axis=1, **kwargs)
 
             if not any(noncomp):
                 # does not respect noncomputable cols.
-- 
2.43.0


From 7d7cd9d41b3b20ef589416b5dd64d555dd9814b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:12 +0000
Subject: [PATCH 20/59] fix: from_jagged_rows replaced the entries of the
 caller's list

---
 riptable/rt_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 323ec46..30543f8 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -7600,6 +7600,7 @@ class Dataset(Struct):
 
         # always favor bytestrings
         dt = "S"
+        rows = list(rows)
         for i, r in enumerate(rows):
             # re-expand categoricals
             # note: multikey categorical expands to a tuple of arrays
-- 
2.43.0


From 83b97d977889dfaa84766e0573fe9272915d065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:12 +0000
Subject: [PATCH 21/59] fix: linear_spline sorted the caller's knots in place

---
 riptable/rt_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_stats.py b/riptable/rt_stats.py
index 4e58b66..08870ac 100644
--- a/riptable/rt_stats.py
+++ b/riptable/rt_stats.py
@@ -156,7 +156,7 @@ def linear_spline(X0, Y0, knots, display=True):
     Y = Y0.copy()
     X = X.reshape(X.shape[0], 1)
     Y = Y.reshape(Y.shape[0], 1)
-    knots.sort()
+    knots = np.sort(knots)
     numKnots = len(knots)
     goodData = ~np.isnan(X) & ~np.isnan(Y)
     X = X[goodData]
-- 
2.43.0


From 966081880dafe26aeb32dcba2cc829bbdc5a58e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:41 +0000
Subject: [PATCH 22/59] fix: editing the categories of a Categorical left its
 grouping on the old categories

---
 riptable/rt_categorical.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index a2b0859..10ec3f3 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -3819,6 +3819,24 @@ class Categorical(GroupByOps, FastArray):
         self._auto_add_categories = False
         self._categories_wrap._auto_add_categories = False
 
+    # -------------------------------------------------------
+    def _categories_edited(self):
+        """
+        Give this Categorical's grouping the edited categories (or mapping) and discard everything
+        that was computed from the previous ones. The grouping may be shared, so it is not edited in place.
+        """
+        categories = self._categories_wrap
+        grouping = self._grouping.copy(deep=False)
+        if categories.isenum:
+            grouping._enum = categories.grouping._enum
+        else:
+            name = [*grouping.uniquedict][0]
+            grouping._grouping_unique_dict = {name: categories._list}
+            grouping._unique_count = len(categories._list)
+        categories._grouping = grouping
+        self._grouping = grouping
+        self.groupby_reset()
+
     # -------------------------------------------------------
     def mapping_add(self, code, value):
         """
@@ -3828,7 +3846,7 @@ class Categorical(GroupByOps, FastArray):
             self._categories_wrap._mapping_edit(code, value=value, how="add")
         else:
             raise ValueError(f"Cannot add mapping to a locked Categorical. Call unlock() first.")
-        self.groupby_reset()
+        self._categories_edited()
 
     # -------------------------------------------------------
     def mapping_remove(self, code):
@@ -3839,7 +3857,7 @@ class Categorical(GroupByOps, FastArray):
             self._categories_wrap._mapping_edit(code, how="remove")
         else:
             raise ValueError(f"Cannot remove mapping a locked Categorical. Call unlock() first.")
-        self.groupby_reset()
+        self._categories_edited()
 
     # -------------------------------------------------------
     def mapping_replace(self, code, value):
@@ -3850,7 +3868,7 @@ class Categorical(GroupByOps, FastArray):
             self._categories_wrap._mapping_edit(code, value=value, how="replace")
         else:
             raise ValueError(f"Cannot replace mapping in a locked Categorical. Call unlock() first.")
-        self.groupby_reset()
+        self._categories_edited()
 
     # -------------------------------------------------------
     def mapping_new(self, mapping):
@@ -3862,7 +3880,7 @@ class Categorical(GroupByOps, FastArray):
             self._categories_wrap._mapping_new(mapping)
         else:
             raise ValueError(f"Cannot replace mapping dictionary in a locked Categorical. Call unlock() first.")
-        self.groupby_reset()
+        self._categories_edited()
 
     # -------------------------------------------------------
     def category_add(self, value):
@@ -3875,7 +3893,7 @@ class Categorical(GroupByOps, FastArray):
             self._sorted = False
         else:
             raise ValueError(f"Cannot add category to locked Categorical. Call unlock() first.")
-        self.groupby_reset()
+        self._categories_edited()
 
     # -------------------------------------------------------
     def category_remove(self, value):
@@ -3910,7 +3928,7 @@ class Categorical(GroupByOps, FastArray):
                 self._sorted = False
         else:
             raise ValueError(f"Cannot remove category from locked Categorical. Call unlock() first.")
-        self.groupby_reset()
+        self._categories_edited()
 
     @classmethod
     def _from_maybe_non_unique_labels(cls, values, categories, base_index=1):
@@ -4340,8 +4358,10 @@ class Categorical(GroupByOps, FastArray):
                 # add the category, clean up the index array afterwards
                 fix_index = self._categories_wrap._possibly_add_categories(value)
                 if fix_index is not None:
-                    # must be inplace to change self
-                    self._fa[:] = fix_index[self._fa - self.base_index] + self.base_index
+                    # must be inplace to change self, filtered elements have no category
+                    valid = self._fa >= self.base_index
+                    self._fa[valid] = fix_index[self._fa[valid] - self.base_index] + self.base_index
+                    self._categories_edited()
                 # convert string to int index
                 # we know value will have an exact match
                 value = self._categories_wrap.get_category_match_index(value)
-- 
2.43.0


From cb7f1ec7becc846085a5dd26037d9c5b18ed4f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:41 +0000
Subject: [PATCH 23/59] fix: category_replace cut the new category to the width
 of the old ones and changed copies

---
 riptable/rt_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 10ec3f3..a106d1b 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1163,7 +1163,7 @@ class Categories:
                     if len(new_exists) == 1:
                         return replace_idx + self.base_index, new_exists[0]
                     else:
-                        self._list[replace_idx] = new_value
+                        self._list = hstack([self._list[:replace_idx], [new_value], self._list[replace_idx + 1 :]])
                         self._ordered = False
                         self._sorted = False
                 else:
-- 
2.43.0


From bcac5cb95dc802ab099aa0d242c0fdb5bc5d1d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:08 +0000
Subject: [PATCH 24/59] fix: mapping_replace left the old name of the code in
 the reverse mapping

---
 riptable/rt_categorical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index a106d1b..0e30f3a 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1083,6 +1083,8 @@ class Categories:
                 elif how == "replace":
                     if value is not None:
                         if exists is not False:
+                            if self.str2intdict.get(exists) == code:
+                                del self.str2intdict[exists]
                             self.int2strdict[code] = value
                             self.str2intdict[value] = code
                         else:
-- 
2.43.0


From 270d1a2283934bcb67678ff5f3b64d7d225e38f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:52 +0000
Subject: [PATCH 25/59] fix: assigning a Categorical with other categories to a
 Categorical wrote the wrong codes

---
 riptable/rt_categorical.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 0e30f3a..779f805 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4321,6 +4321,25 @@ class Categorical(GroupByOps, FastArray):
         self._fa[key] = value
         self.grouping.set_dirty()
 
+    # -------------------------------------------------------
+    def _codes_from_categorical(self, value):
+        """
+        Express the elements of another Categorical in the codes of this one.
+        Every category that occurs in `value` must exist in this Categorical.
+        """
+        if not (self.issinglekey and value.issinglekey):
+            raise TypeError(
+                f"Cannot assign elements of a Categorical with different categories unless both have single key categories."
+            )
+        found, position = ismember(value.category_array, self.category_array)
+        valid = value._fa >= value.base_index
+        used = value._fa[valid] - value.base_index
+        if not found[used].all():
+            raise ValueError(f"Cannot assign elements whose category does not exist in this Categorical.")
+        codes = full(len(value), 0 if valid.all() else self.nan_index, dtype=self.dtype)
+        codes[valid] = position[used] + self.base_index
+        return codes
+
     # -------------------------------------------------------
     def __setitem__(self, index, value):
         """
@@ -4338,12 +4357,13 @@ class Categorical(GroupByOps, FastArray):
         if isinstance(value, Categorical):
             # have to align the categoricals
             # check if already aligned, if so can use same integers
-            is_same, catlist = Categorical.categories_equal([self, value])
-            value = catlist[1]
+            if self.isenum or value.isenum:
+                is_same = self.isenum and value.isenum and self.category_mapping == value.category_mapping
+            else:
+                is_same, _ = Categorical.categories_equal([self, value])
+                is_same = is_same and self.base_index == value.base_index
             if not is_same:
-                # convert back to strings (slow)
-                # TODO: multikey will fail here
-                value = self.expand_array
+                value = self._codes_from_categorical(value)
 
         # first check if the value is string like
         # if it is, we have to convert it to an index first
-- 
2.43.0


From ff0b98187b1d12b731ea0a2f300b6174d7826d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:18 +0000
Subject: [PATCH 26/59] fix: a copy of a Categorical shared its category arrays
 and mapping with the original

---
 riptable/rt_categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 779f805..477fc9f 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -476,6 +476,7 @@ class Categories:
         c._auto_add_categories = self._auto_add_categories
         c._name = self._name
         c._filtered_name = self._filtered_name
+        c._invalid_category = self._invalid_category
 
         if self.isenum:
             if deep:
@@ -3231,7 +3232,7 @@ class Categorical(GroupByOps, FastArray):
 
         # NOTE: there was a deep grouping copy here (removed)
         # and another deep copy when the class is made
-        cat_copy = self._categories_wrap.copy(deep=False)
+        cat_copy = self._categories_wrap.copy(deep=deep)
 
         if deep:
             # TJD something off about this since grouping will copy the ikey and thus ignore this copy
-- 
2.43.0


From a3fe2fb75d5df1c7d086da5cdcc3e75778f46900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:53 +0000
Subject: [PATCH 27/59] fix: labels and footers set on a copy or selection of a
 Dataset changed the original

---
 riptable/rt_itemcontainer.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/riptable/rt_itemcontainer.py b/riptable/rt_itemcontainer.py
index 7cf5fe1..ded0588 100644
--- a/riptable/rt_itemcontainer.py
+++ b/riptable/rt_itemcontainer.py
@@ -183,6 +183,14 @@ class ItemContainer:
             arr.set_name(name)
             v[0] = arr
 
+    # -----------------------------------------
+    @staticmethod
+    def _copy_item(item):
+        """
+        Returns a copy of an item which holds the same value but its own attributes.
+        """
+        return [item[0], *(v.copy() if isinstance(v, ItemAttribute) else v for v in item[1:])]
+
     # -----------------------------------------
     def copy(self, cols=None, deep=False):
         """
@@ -192,12 +200,11 @@ class ItemContainer:
 
         newcontainer = ItemContainer()
         if cols is None:
-            newcontainer._items = self._items.copy()
-            for k, v in newcontainer._items.items():
-                newcontainer._items[k] = v.copy()
+            for k, v in self._items.items():
+                newcontainer._items[k] = self._copy_item(v)
         else:
             for k in cols:
-                newcontainer._items[k] = self._items[k].copy()
+                newcontainer._items[k] = self._copy_item(self._items[k])
         return newcontainer
 
     # -----------------------------------------
@@ -211,14 +218,12 @@ class ItemContainer:
 
         if cols is None:
             for k, v in self._items.items():
-                # tuple copy
-                v = v.copy()
+                v = self._copy_item(v)
                 newcontainer._items[k] = v
                 v[0] = func(v[0], *args)
         else:
             for k in cols:
-                # tuple copy
-                v = self._items[k].copy()
+                v = self._copy_item(self._items[k])
                 newcontainer._items[k] = v
                 v[0] = func(v[0], *args)
 
-- 
2.43.0


From c257fb13e4ad299447b1008a570bdc542fb52a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:53 +0000
Subject: [PATCH 28/59] fix: sort_copy of a Dataset with footers raised
 AttributeError

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 30543f8..2d17bec 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -4127,7 +4127,7 @@ class Dataset(Struct):
                 if hasattr(self, "_footers"):
                     footers = {}
                     for f, item in self._footers.items():
-                        footers[f] = item.copy()
+                        footers[f] = item.copy() if item else item
                     newds._footers = footers
 
                 return newds
-- 
2.43.0


From 436c0a8f4f183cb397eefd0d5b4574a84ff3cb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:53 +0000
Subject: [PATCH 29/59] fix: replacing text in column names could give two
 columns one name and lose one of them

---
 riptable/rt_itemcontainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_itemcontainer.py b/riptable/rt_itemcontainer.py
index ded0588..e058236 100644
--- a/riptable/rt_itemcontainer.py
+++ b/riptable/rt_itemcontainer.py
@@ -566,7 +566,7 @@ class ItemContainer:
             if r != item:
                 replace_count += 1
                 # prevent name conflict from overwriting existing column
-                if r in self._items:
+                if r in self._items or r in new_names:
                     raise ValueError(f"Item {r} already existed, cannot make replacement in item name {item}.")
             new_names.append(r)
 
-- 
2.43.0


From f0ec0ff6ad54ff3f885fb37a1bae7565ea7f9e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:55 +0000
Subject: [PATCH 30/59] fix: col_str_replace on a sorted Dataset failed after
 renaming the columns

---
 riptable/rt_struct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index cb2984a..66e976a 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3797,7 +3797,7 @@ class Struct:
         replaced = self._all_items.item_str_replace(old, new, maxr=max)
         if replaced and self._col_sortlist is not None:
             # fix sorts
-            for i, name in self._col_sortlist:
+            for i, name in enumerate(self._col_sortlist):
                 r = name.replace(old, new, max)
                 if r != name:
                     self._col_sortlist[i] = r
-- 
2.43.0


From d5475e501d9aff66f8d452e7116baffbbf581dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:26 +0000
Subject: [PATCH 31/59] fix: an operation with a filter left the filtered
 packing to later operations of the grouping

---
 riptable/rt_grouping.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 2a55df1..97f23c7 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -1655,8 +1655,9 @@ class Grouping:
         igroup
         """
         # only categoricals do not have an iFirstKey
+        igroup = self.igroup
         if self.iGroupReverse is None:
-            self.iGroupReverse = rc.ReverseShuffle(self.igroup)
+            self.iGroupReverse = rc.ReverseShuffle(igroup)
         return self.iGroupReverse
 
     # ---------------------------------------------------------------
@@ -1675,7 +1676,10 @@ class Grouping:
         ifirstgroup
         igroupreverse
         """
-        if self.nCountGroup is None:
+        if self._packedwithfilter:
+            # the existing counts only cover the rows of an earlier filter
+            self.pack_by_group()
+        elif self.nCountGroup is None:
             if len(self.ikey):
                 self.nCountGroup = rc.BinCount(self.ikey, self.unique_count + 1)
             else:
@@ -2375,14 +2379,9 @@ class Grouping:
 
         # if we did not pack by filter, and we are alerady packed, and there is not a filter...
         # do nothing
-        if self._packed and filter is None:
-            if not self._packedwithfilter:
-                # keep lack of filter
-                return
-
-            if not mustrepack:
-                # keep existing filter
-                return
+        if self._packed and filter is None and not self._packedwithfilter:
+            # keep lack of filter
+            return
 
         self._packed = True
 
@@ -2653,7 +2652,7 @@ class Grouping:
 
         # check if they want full array returned (not a reduction)
         if not isreduce:
-            reverse_back = self.igroupreverse
+            reverse_back = rc.ReverseShuffle(self.iGroup)
 
         # check if passing multiple arrays at same time
         if tups == 1:
@@ -3060,6 +3059,8 @@ class Grouping:
             raise TypeError(f"userfunc {userfunc!r} is not callable and cannot be applied to the dataset.")
 
         self.pack_by_group(filter, mustrepack=True)
+        # keep the packing for this filter, the user function may use the grouping
+        igroup, ifirstgroup, ncountgroup = self.iGroup, self.iFirstGroup, self.nCountGroup
 
         # pass in all columns including strings, datetime, etc
         npdict, values = self._get_calculate_dict(
@@ -3096,7 +3097,8 @@ class Grouping:
 
         for i in bins:
             # groupby ikey uses base-1 indexing
-            filter_group = self.as_filter(i)
+            first = ifirstgroup[i]
+            filter_group = igroup[first : first + ncountgroup[i]]
             if Grouping.DebugMode:
                 print("index", i, "filter is", filter_group)
 
-- 
2.43.0


From d412fa0ec9e2434ca6dffceac73ab6d9557b1ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:45 +0000
Subject: [PATCH 32/59] fix: fill_invalid in place left the grouping results of
 the old codes

---
 riptable/rt_categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 477fc9f..fbe3ddf 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -2994,6 +2994,7 @@ class Categorical(GroupByOps, FastArray):
                         f"Inplace fill invalid cannot be different dtype than existing categorical. Got {dtype} vs. {len(self.dtype)}"
                     )
                 self._fa.fill(0)
+                self.groupby_reset()
             else:
                 arr = full(shape, 0, dtype=dtype)
                 return type(self)(arr, _from_categorical=self.grouping)
@@ -4320,7 +4321,7 @@ class Categorical(GroupByOps, FastArray):
             value = str_idx
 
         self._fa[key] = value
-        self.grouping.set_dirty()
+        self.groupby_reset()
 
     # -------------------------------------------------------
     def _codes_from_categorical(self, value):
-- 
2.43.0


From 2984a613fef26b366b0a930116362628a2da918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:42 +0000
Subject: [PATCH 33/59] fix: unique_count of a mapped Categorical stayed at the
 old codes after an assignment

---
 riptable/rt_grouping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 97f23c7..ba660a3 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -1512,6 +1512,9 @@ class Grouping:
         # force enum to regen also
         if self.isenum or self._base_index == 0:
             self._iKey = None
+        # only the codes that occur are counted for an enum
+        if self.isenum:
+            self._unique_count = None
 
     # ---------------------------------------------------------------
     @property
-- 
2.43.0


From f5510b8e5f635e68d04089ccbaae6139e0b31e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:19 +0000
Subject: [PATCH 34/59] fix: shrink in place changed the categories of a locked
 Categorical

---
 riptable/rt_categorical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index fbe3ddf..c957cdb 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4172,6 +4172,8 @@ class Categorical(GroupByOps, FastArray):
         """
 
         # generate integer array for new categorical
+        if inplace and self._locked:
+            raise ValueError(f"Cannot shrink categories of a locked Categorical in place. Call unlock() first.")
         grp = self.grouping.shrink(newcats, misc=misc, inplace=inplace, name=self.get_name())
 
         # write over own index array
-- 
2.43.0


From b7b57ca1c6a7ddc0f25611492bd5cf07ff5f6127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:58 +0000
Subject: [PATCH 35/59] fix: transform=True gave the next group's value for
 base-0 and mapped Categoricals

---
 riptable/rt_groupbyops.py | 3 ++-
 riptable/rt_grouping.py   | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 9dec598..50f346c 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -339,7 +339,8 @@ class GroupByOps(ABC):
         if getattr(self, "_transform", False) or transform:
             ikey = self.grouping.ikey
             showfilter = kwargs.get("showfilter", False)
-            if not showfilter and self.grouping.base_index == 1:
+            # ikey is always 1-based
+            if not showfilter:
                 ikey = ikey - 1
             # use fancy indexing to pull the values from the cells, back to original array
             newds = {}
diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index ba660a3..7dd1f0b 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -3536,7 +3536,8 @@ class Grouping:
             ikey = where(filter, self.ikey, 0)
             ncountkey = rc.BinCount(ikey, self.unique_count + 1)
         elif self._packedwithfilter:
-            ncountkey = rc.BinCount(self.ikey, self.unique_count + 1)
+            ikey = self.ikey
+            ncountkey = rc.BinCount(ikey, self.unique_count + 1)
         else:
             # ncountgroup will call BinCount if it needs to
             ncountkey = self.ncountgroup
@@ -3545,7 +3546,8 @@ class Grouping:
         # skip if base 1
         countcol = ncountkey[base:]
         if transform:
-            if not showfilter and self.base_index == 1:
+            # ikey is always 1-based
+            if not showfilter:
                 countcol = countcol[self.ikey - 1]
             else:
                 countcol = countcol[ikey]
-- 
2.43.0


From 234a153bbb9ea8c279d3fedc16da4b43d2141def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:03 +0000
Subject: [PATCH 36/59] fix: drop_duplicates(inplace=True) returned a new
 Dataset when no row was dropped

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 2d17bec..a6d475d 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3775,7 +3775,7 @@ class Dataset(Struct):
                 self._nrows = deduplicated._nrows
                 self._col_sortlist = None
                 self._sort_ascending = True
-                return self
+            return self
 
         return deduplicated
 
-- 
2.43.0


From 2cb3a09ff7f32ff10881e3ca8b1642d501da5b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:03 +0000
Subject: [PATCH 37/59] fix: Dataset.duplicated silently marked every row for
 an unknown keep

---
 riptable/rt_dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index a6d475d..79c264d 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3628,6 +3628,9 @@ class Dataset(Struct):
             ifirstgroup = ifirstgroup[ncountgroup == 1]
             result[igroup[ifirstgroup]] = False
 
+        else:
+            raise ValueError(f"Got unexpected value for keep {keep}.")
+
         return result
 
     # -------------------------------------------------------------
-- 
2.43.0


From 85034f3ecce67bfbfefb1de41a7f988998e60698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:30 +0000
Subject: [PATCH 38/59] fix: col_map renamed some columns before refusing an
 unknown or invalid name

---
 riptable/rt_struct.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 66e976a..051b9a4 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3287,6 +3287,13 @@ class Struct:
                 rename_dict, swaps = self._safe_reordering_of_renames(rename_dict)
             else:
                 swaps = []
+            # check every rename first, otherwise a bad one leaves the earlier ones applied
+            for old, new in rename_dict.items():
+                if old != new:
+                    if old not in self:
+                        raise ValueError(f"Invalid column to rename: {old!r} does not exist.")
+                    if not self.is_valid_colname(new):
+                        raise ValueError("Invalid column name: {}".format(new))
             for old, new in rename_dict.items():
                 self.col_rename(old, new)
             for old, new in swaps:
-- 
2.43.0


From 683350480a9633d8c1f80311057c714874ca8243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:40 +0000
Subject: [PATCH 39/59] fix: col_replace_all accepted columns of different
 lengths and kept the old row count

---
 riptable/rt_dataset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 79c264d..9bec50d 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3797,7 +3797,12 @@ class Dataset(Struct):
         """
         if self.is_locked():
             raise AttributeError("Not allowed to call col_replace_all() on locked object.")
+        lengths = {len(newdict[name]) if name in newdict else self._nrows for name in self}
+        if len(lengths) > 1:
+            raise ValueError(f"col_replace_all(): columns would have different lengths {sorted(lengths)}.")
         self._all_items.item_replace_all(newdict, check_exists=check_exists)
+        if lengths:
+            self._nrows = lengths.pop()
 
     # -------------------------------------------------------------
     def all(self, axis=0, as_dataset: bool = True):
-- 
2.43.0


From 19a8f7a1eb6cd78eecb305add57ab3fea93eef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:23 +0000
Subject: [PATCH 40/59] fix: merge2 refuses different numbers of left and right
 join keys

---
 riptable/rt_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 1dc93c9..d7300b1 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -2625,7 +2625,7 @@ def merge2(
     #       if it's specified (but not left_on/right_on) or we construct the new-style 'on' form directly there
     #       while validating so it doesn't need to be done as an extra step.
     if len(left_on) != len(right_on):
-        ValueError(
+        raise ValueError(
             f"Differing numbers of columns used as join-keys for the left ({len(left_on)}) and right ({len(right_on)}) Datasets."
         )
     normalized_on = list(zip(left_on, right_on))
-- 
2.43.0


From 91660cb76df9737a25b4687bcc233fafd39659e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:23 +0000
Subject: [PATCH 41/59] fix: outer merge2 with keep selects the right rows for
 partially-invalid multikeys

---
 riptable/rt_merge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index d7300b1..1aae9b1 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1471,7 +1471,11 @@ def _create_merge_fancy_indices(
                 join_invalid_groupby_groups = unique(join_invalid_groupby_groups, sorted=False)
 
                 # Get the first/last row for each group.
+                # The first/last row array only has an entry for the NA/invalid group when there are any rows
+                # in that group; when there is none, the (1-based) group numbers need to be adjusted.
                 keep_ifirstlastkey = _get_keep_ifirstlastkey_with_null(right_groupby_keygroup, keep[1])
+                if right_groupby_keygroup.ncountgroup[0] == 0:
+                    join_invalid_groupby_groups = join_invalid_groupby_groups - 1
                 join_invalid_groupby_rows = keep_ifirstlastkey[join_invalid_groupby_groups]
 
                 # Get the other right-only rows (those with valid join keys).
-- 
2.43.0


From 5845e9de60f4e54517bef4c663fabe702b4151de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:23 +0000
Subject: [PATCH 42/59] fix: merge2 keeps multikey rows with a string key apart
 when another key is invalid

---
 riptable/rt_merge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 1aae9b1..504361e 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -2043,6 +2043,7 @@ def _get_or_create_keygroup(
 
         valid_join_tuples_mask: Optional[FastArray] = None
         valid_groupby_tuples_mask: Optional[FastArray] = None
+        has_always_valid_keycol = False
         if force_invalids:
             for keycol in keycols:
                 isvalid = _create_column_valid_mask(keycol)
@@ -2062,7 +2063,10 @@ def _get_or_create_keygroup(
                     # length with all True elements; since we logical-OR the masks together for the groupby-grouping,
                     # when 'isvalid' is None we set the valid groupby tuples mask to None.
                     if isvalid is None:
+                        has_always_valid_keycol = True
                         valid_groupby_tuples_mask = None
+                    elif has_always_valid_keycol:
+                        pass
                     elif valid_groupby_tuples_mask is None:
                         # Need to copy 'isvalid' to avoid sharing the same instance with 'valid_join_tuples_mask',
                         # which'll lead to them incorrectly having the same data (since we're updating in-place).
-- 
2.43.0


From bdad0d3a9df67004e8101070746a3daf11ca62c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:23 +0000
Subject: [PATCH 43/59] fix: merge2 handles a Dataset whose join keys are all
 invalid

---
 riptable/rt_merge.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 504361e..8961390 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1150,6 +1150,9 @@ def _build_left_fancyindex(
     # doesn't exist in the right Grouping, those rows get a repeat value of '1' (so they're kept as-is).
     left_ikey = _get_keep_ikey(left_keygroup, keep_left)
     left_repeats = right_group_multiplicity_as_left[left_ikey]
+    if len(left_repeats) == 0:
+        # All of the rows in 'left' have an invalid key, so none of them are kept.
+        return empty(0, dtype=left_keygroup.ikey.dtype)
     assert all(isnotnan(left_repeats)), "Invalid entries found in 'left_repeats'."
     # assert not hasanynan(left_repeats), "Invalid entries found in 'left_repeats'."
     assert min(left_repeats) >= 0, "Negative entries found in 'left_repeats'."
@@ -1354,10 +1357,10 @@ def _create_merge_fancy_indices(
         # TODO: Pass 'hint_size' here to speed up the 'ismember' call?
         # WORKAROUND: Through v1.9.0 ismember() incorrectly raises an exception if one or both inputs is a multikey of
         # empty arrays. Until that's fixed, detect that case and handle it here.
-        if len(left_keygroup.ikey) == 0 or len(right_keygroup.ikey) == 0:
-            right_key_exists_in_left = zeros(right_keygroup.ikey.shape, dtype=bool)
+        if left_keygroup.unique_count == 0 or right_keygroup.unique_count == 0:
+            right_key_exists_in_left = zeros(right_keygroup.unique_count, dtype=bool)
             right_keyid_to_left_keyid_map = full(
-                right_keygroup.ikey.shape, right_keygroup.ikey.inv, dtype=right_keygroup.ikey.dtype
+                right_keygroup.unique_count, right_keygroup.ikey.inv, dtype=right_keygroup.ikey.dtype
             )
         else:
             right_key_exists_in_left, right_keyid_to_left_keyid_map = ismember(
@@ -1424,7 +1427,16 @@ def _create_merge_fancy_indices(
         # key will be smaller-than-or-equal to the length of the original data column, and in most
         # cases will be significantly smaller (so using ismember on the gbkeys will be significantly faster).
         # TODO: Pass 'hint_size' here to speed up the 'ismember' call?
-        right_key_exists_in_left, right_keyid_to_left_keyid_map = ismember(right_grouping_gbkey, left_grouping_gbkey)
+        # See the note in left_or_inner_join() about multikeys of empty arrays.
+        if left_keygroup.unique_count == 0 or right_keygroup.unique_count == 0:
+            right_key_exists_in_left = zeros(right_keygroup.unique_count, dtype=bool)
+            right_keyid_to_left_keyid_map = full(
+                right_keygroup.unique_count, right_keygroup.ikey.inv, dtype=right_keygroup.ikey.dtype
+            )
+        else:
+            right_key_exists_in_left, right_keyid_to_left_keyid_map = ismember(
+                right_grouping_gbkey, left_grouping_gbkey
+            )
 
         # Determine which keys in 'right' are also in 'left'.
         # We can compute this relatively inexpensively from the boolean mask we created earlier
-- 
2.43.0


From 37a1a66f866c4f752a40304d80bde9807c31d115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:41 +0000
Subject: [PATCH 44/59] fix: outer merge2 with keep and an empty left Dataset
 drops only duplicate right keys

---
 riptable/rt_merge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 8961390..8535f92 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1623,7 +1623,10 @@ def _create_merge_fancy_indices(
                 recursive_how = "left"
             else:
                 # Left table is empty, so this decays to a right join.
+                # No right key can match, so use the GROUP BY groups (if we have them) when dropping duplicates.
                 recursive_how = "right"
+                if right_groupby_keygroup is not None:
+                    right_keygroup = right_groupby_keygroup
 
             join_indices = _create_merge_fancy_indices(
                 left_keygroup, right_keygroup, right_groupby_keygroup, recursive_how, keep
-- 
2.43.0


From f20cc1171ed356d869a8286d15c334f3de1e8fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:41 +0000
Subject: [PATCH 45/59] fix: merge2 validates both elements of a keep tuple

---
 riptable/rt_merge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 8535f92..7e5543a 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1657,6 +1657,9 @@ def _normalize_keep(
             raise ValueError(f"Unsupported value '{keep}' passed for the `keep` parameter.")
     elif isinstance(keep, tuple):
         if len(keep) == 2:
+            for side_keep in keep:
+                if side_keep not in (None, "first", "last"):
+                    raise ValueError(f"Unsupported value '{side_keep}' passed for the `keep` parameter.")
             return keep
         else:
             raise ValueError(f"Invalid tuple (length={len(keep)}) passed for the `keep` parameter.")
-- 
2.43.0


From 30041c9cb21d8063f906c1f413adddefecdc925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:39 +0000
Subject: [PATCH 46/59] fix: outer merge2 with keep took wrong right rows when
 the right Dataset is much longer than the result

---
 riptable/rt_merge.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 7e5543a..6b437db 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1581,8 +1581,11 @@ def _create_merge_fancy_indices(
 
                 # Create an extended version of the fancy index for 'right'; for the new elements representing
                 # rows with right-only keys, we write in the indices of those rows (which we extracted earlier).
+                # N.B. with 'keep' the result can have fewer rows than the right Dataset, but the index
+                # still holds row numbers of the right Dataset.
                 extended_right_fancy_index = empty(
-                    extended_right_rowcount, dtype=int_dtype_from_len(extended_right_rowcount)
+                    extended_right_rowcount,
+                    dtype=int_dtype_from_len(max(extended_right_rowcount, len(right_keygroup.ikey))),
                 )
                 extended_right_fancy_index[: len(right_fancy_index)] = right_fancy_index
                 extended_right_fancy_index[len(right_fancy_index) :] = right_only_group_rows
-- 
2.43.0


From aca1fdb61483bbb6c52b6e568ebd8aed8a6bada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:03 +0000
Subject: [PATCH 47/59] fix: copying a base-0 Categorical shifted every value
 to the category before it

---
 riptable/rt_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index c957cdb..94cbcbd 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1762,6 +1762,7 @@ class Categorical(GroupByOps, FastArray):
                                 index,
                                 categories=_from_categorical.categories_as_dict(),
                                 sort_display=_sort_gb,
+                                base_index=base_index,
                                 categorical=True,
                                 dtype=dtype,
                                 _trusted=True,
-- 
2.43.0


From 868b3548cd5aed55a7bd4c6bb0f2be67f8944ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:35 +0000
Subject: [PATCH 48/59] fix: comparing two Categoricals compared the wrong
 categories when a base index is 0

---
 riptable/rt_categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 94cbcbd..50ca233 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4809,7 +4809,8 @@ class Categorical(GroupByOps, FastArray):
                     raise ValueError(f"Could not compare categoricals because of conflicting items in dictionaries.")
 
             else:
-                oldidx = [self._fa, other._fa]
+                # merge_cats works on 1-based codes
+                oldidx = [cat._fa + 1 if cat.base_index == 0 else cat._fa for cat in (self, other)]
                 oldcats = [[self.category_array, other.category_array]]
                 newidx, _ = merge_cats(oldidx, oldcats)
                 # print('***newidx', newidx)
-- 
2.43.0


From c64f14b25eecebb4ee0b26517927c85f1760cee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:51 +0000
Subject: [PATCH 49/59] fix: to_arrow of a base-0 Categorical gave every row
 the next category

---
 riptable/rt_categorical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 50ca233..049b05e 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -5793,9 +5793,9 @@ class Categorical(GroupByOps, FastArray):
             if not invalids_mask.any():
                 invalids_mask = None
 
-            # For self.base_index == 0, we can use iKey directly;
+            # For self.base_index == 0, we can use the codes directly (the grouping's iKey is always 1-based);
             # for self.base_index == 1, we need to create a new 0-based iKey to pass to pyarrow.
-            indices = self.grouping.ikey
+            indices = self._fa
             if self.base_index != 0:
                 # It's important we DON'T do this in-place, as we don't want to modify the ikey array,
                 # as that'll break this Categorical instance.
@@ -5987,9 +5987,9 @@ class Categorical(GroupByOps, FastArray):
             if not invalids_mask.any():
                 invalids_mask = None
 
-            # For self.base_index == 0, we can use iKey directly;
+            # For self.base_index == 0, we can use the codes directly (the grouping's iKey is always 1-based);
             # for self.base_index == 1, we need to create a new 0-based iKey to pass to pyarrow.
-            indices = self.grouping.ikey
+            indices = self._fa
             if self.base_index != 0:
                 # It's important we DON'T do this in-place, as we don't want to modify the ikey array,
                 # as that'll break this Categorical instance.
-- 
2.43.0


From 690f6fc407de9436b10a020dcc7dfc4d216b44e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:01 +0000
Subject: [PATCH 50/59] fix: expand_dict of a base-0 Categorical gave every row
 the category before it

---
 riptable/rt_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 049b05e..ec22f04 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -6207,7 +6207,7 @@ class Categorical(GroupByOps, FastArray):
         else:
             xdict = {}
             for i, col in self.category_dict.items():
-                xdict[i] = self._expand_array(col, index=self._fa)
+                xdict[i] = self._expand_array(col)
         return xdict
 
     @property
-- 
2.43.0


From 686103a7886b0aec975a6760ba039041043dd2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:19 +0000
Subject: [PATCH 51/59] fix: shrink with misc gave rows a wrong category when a
 new category does not occur

---
 riptable/rt_grouping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 7dd1f0b..ecaa785 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2016,7 +2016,7 @@ class Grouping:
             if misc is not None:
                 # everything already 0 stays 0
                 zeromask = self.catinstance == 0
-                maxvalue = max(idx) + 1
+                maxvalue = len(newcats[0]) + 1
                 # everything filtered out gets MISC
                 idx[~mask] = maxvalue
                 idx = hstack([0, idx, maxvalue])
-- 
2.43.0


From 95dc4dffdabf38410f33e1e856651cf8a4fc690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:39 +0000
Subject: [PATCH 52/59] fix: the Filtered column of an Accum2 table was not in
 the order of its sorted row keys

---
 riptable/rt_accum2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index c0b2183..a3ddbe1 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -402,7 +402,7 @@ class Accum2(GroupByOps, FastArray):
 
         # add showfilter column first if we have to
         if showfilter:
-            newds[FILTERED_LONG_NAME] = arr[0:offsety]
+            newds[FILTERED_LONG_NAME] = arr[0:offsety][sort_idx] if row_keys.sort_gb_data else arr[0:offsety]
 
         # skip showfilter row for loop below (already added or not added above)
         offset = offsety
-- 
2.43.0


From 97a966d313090944776ae88ab0455061531be1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:39 +0000
Subject: [PATCH 53/59] fix: Accum2 totals of a base-0 Categorical were shifted
 by one key

---
 riptable/rt_accum2.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index a3ddbe1..7323a08 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -508,10 +508,6 @@ class Accum2(GroupByOps, FastArray):
         else:
             ikey = cat.grouping.ikey
 
-            # if zero base, we need 1 base for these calculations
-            if cat.grouping.base_index == 0:
-                ikey = ikey + 1
-
             # Optimization: combine_filter was previously called
             if filter is not None:
                 # N.B. We are going to change ikey, make a copy instead of changing the input. The input
-- 
2.43.0


From 95fd60d738eefa3d44a12da970da9ab2d0596e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:39 +0000
Subject: [PATCH 54/59] fix: Accum2 totals (mean, median, ...) counted rows
 that are filtered in the other dimension

---
 riptable/rt_accum2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index 7323a08..add2948 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -696,6 +696,11 @@ class Accum2(GroupByOps, FastArray):
             name = str.capitalize(func.__name__)
 
         # get a negative boolean filter
+        if not showfilter:
+            # rows that are filtered in either dimension are in none of the cells, leave them out of the totals
+            inbins = (cat_rows.grouping.ikey != 0) & (cat_cols.grouping.ikey != 0)
+            filter = inbins if filter is None else inbins & filter
+
         newfilterX = cls._calc_badslots(cat_cols, badcols, filter, False)
         newfilterY = cls._calc_badslots(cat_rows, badrows, filter, False)
 
-- 
2.43.0


From e59592e3d0c3675438ec4a50a4d2e77f04985f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:39 +0000
Subject: [PATCH 55/59] fix: Accum2 totals (mean, median, ...) were not in the
 order of sorted keys

---
 riptable/rt_accum2.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index add2948..eab7358 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -588,6 +588,20 @@ class Accum2(GroupByOps, FastArray):
 
             newds.footer_set_values(name, footerdict)
 
+    # ---------------------------------------------------------------
+    @classmethod
+    def _sort_totals(cls, cat, totals, showfilter=False):
+        """
+        internal routine
+        put the totals in the order the keys of the Categorical are displayed in
+        """
+        if cat.gb_keychain.sort_gb_data:
+            sort_idx = cat.gb_keychain.isortrows
+            if showfilter:
+                sort_idx = np.append([0], sort_idx + 1)
+            totals = totals[sort_idx]
+        return totals
+
     # ---------------------------------------------------------------
     @classmethod
     def _calc_badslots(cls, cat, badslots, filter, wantfancy):
@@ -760,6 +774,9 @@ class Accum2(GroupByOps, FastArray):
             # todo, get invalid
             totalOfTotals = 0
 
+        totalsX = cls._sort_totals(cat_cols, totalsX, showfilter)
+        totalsY = cls._sort_totals(cat_rows, totalsY, showfilter)
+
         cls._add_totals(cat_rows, newds, name, totalsX, totalsY, totalOfTotals)
 
     # ---------------------------------------------------------------
@@ -901,17 +918,8 @@ class Accum2(GroupByOps, FastArray):
             # calc totals with both rows and cols removed
             totalOfTotals = func(im)
 
-        if cat_rows.gb_keychain.sort_gb_data:
-            sort_idx = cat_rows.gb_keychain.isortrows
-            if showfilter:
-                sort_idx = np.append([0], sort_idx + 1)
-            totalsY = totalsY[sort_idx]
-
-        if cat_cols.gb_keychain.sort_gb_data:
-            sort_idx = cat_cols.gb_keychain.isortrows
-            if showfilter:
-                sort_idx = np.append([0], sort_idx + 1)
-            totalsX = totalsX[sort_idx]
+        totalsX = cls._sort_totals(cat_cols, totalsX, showfilter)
+        totalsY = cls._sort_totals(cat_rows, totalsY, showfilter)
         # push calculations to dataset (newds)
         cls._add_totals(cat_rows, newds, name, totalsX, totalsY, totalOfTotals)
 
-- 
2.43.0


From 131c2b44fa83fa4b13f5e8200c4c2af08e5b9989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:39 +0000
Subject: [PATCH 56/59] fix: Accum2 item of a sorted Categorical named the keys
 of another cell

---
 riptable/rt_accum2.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index eab7358..7734b7b 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -255,6 +255,15 @@ class Accum2(GroupByOps, FastArray):
         item = str(self._internal_getitem(index))
         return str(item).replace("'", "")
 
+    # ------------------------------------------------------------
+    @staticmethod
+    def _get_key(cat, index):
+        keychain = cat.gb_keychain
+        if keychain.sort_gb_data:
+            # the keys are held in display order, the index counts in the order of the bins
+            index = int(np.argsort(keychain.isortrows)[index])
+        return keychain.get_bin(index)
+
     # ------------------------------------------------------------
     def _internal_getitem(self, matrix_index):
         xidx = matrix_index // (self._cat_rows.unique_count + 1)
@@ -264,13 +273,13 @@ class Accum2(GroupByOps, FastArray):
             xcat = INVALID_SHORT_NAME
         else:
             xidx -= 1
-            xcat = self._cat_cols.gb_keychain.get_bin(xidx)
+            xcat = self._get_key(self._cat_cols, xidx)
 
         if yidx == 0:
             ycat = INVALID_SHORT_NAME
         else:
             yidx -= 1
-            ycat = self._cat_rows.gb_keychain.get_bin(yidx)
+            ycat = self._get_key(self._cat_rows, yidx)
 
         if isinstance(xcat, bytes):
             xcat = bytes.decode(xcat)
-- 
2.43.0


From e65af23da5a6932631bddefac2daa49866d06588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:13 +0000
Subject: [PATCH 57/59] fix: apply_reduce over several columns gave later
 columns the type of the first column's results

---
 riptable/rt_grouping.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index ecaa785..d2c14fc 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2750,6 +2750,9 @@ class Grouping:
                         # if they specified a single dtype, allocate the array
                         return_arr = empty((return_rows,), dtype=dtype)
                         invalid = INVALID_DICT[dtype.num]
+                    else:
+                        # every column gets an array of its own, of the type its results have
+                        return_arr = None
 
                     # loop over all groups
                     # TODO: consider c++ loop? (i.e. vectorize this)
@@ -2776,11 +2779,11 @@ class Grouping:
                                 else:
                                     # first time we got back data -- we can determine the dtype now
                                     if hasattr(result, "dtype"):
-                                        dtype = result.dtype
+                                        result_dtype = result.dtype
                                     else:
-                                        dtype = np.dtype(type(result))
-                                    return_arr = empty((return_rows,), dtype=dtype)
-                                    invalid = INVALID_DICT[dtype.num]
+                                        result_dtype = np.dtype(type(result))
+                                    return_arr = empty((return_rows,), dtype=result_dtype)
+                                    invalid = INVALID_DICT[result_dtype.num]
 
                             return_arr[i] = result
                         else:
-- 
2.43.0


From d894b8df8795fae83a88e43c4dbfb568872b35ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:56 +0000
Subject: [PATCH 58/59] fix: apply_reduce with showfilter failed on the length
 of its key columns

---
 riptable/rt_grouping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index d2c14fc..e20d6f9 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2940,7 +2940,7 @@ class Grouping:
         # reattach keys
         if label_keys is not None and isreduce:
             return_ds = self._finalize_dataset(
-                return_ds, label_keys, label_keys.gbkeys, showfilter=showfilter, addkeys=True, **kwargs
+                return_ds, label_keys, None, showfilter=showfilter, addkeys=True, **kwargs
             )
 
         return return_ds
-- 
2.43.0


From dd512fae65daad6998f7abdd619ad7c2a445839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:00 +0000
Subject: [PATCH 59/59] fix: first_fancy, last_fancy and first_bool reported
 rows of another group for a group without rows

---
 riptable/rt_groupbyops.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 50f346c..f21ae24 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -258,7 +258,10 @@ class GroupByOps(ABC):
         # note, cache this value?
         # fancy index
         self.grouping.pack_by_group()
-        return self.grouping.iGroup[self.grouping.iFirstGroup[1:]]
+        rows = self.grouping.iGroup[self.grouping.iFirstGroup[1:]]
+        # a group without rows has no first occurrence
+        rows[self.grouping.nCountGroup[1:] == 0] = rows.inv
+        return rows
 
     # ---------------------------------------------------------------
     @property
@@ -285,7 +288,10 @@ class GroupByOps(ABC):
         # note, cache this value?
         # fancy index
         self.grouping.pack_by_group()
-        return self.grouping.iGroup[self.grouping.iFirstGroup[1:] + self.grouping.nCountGroup[1:] - 1]
+        rows = self.grouping.iGroup[self.grouping.iFirstGroup[1:] + self.grouping.nCountGroup[1:] - 1]
+        # a group without rows has no last occurrence
+        rows[self.grouping.nCountGroup[1:] == 0] = rows.inv
+        return rows
 
     # ---------------------------------------------------------------
     @property
@@ -304,7 +310,7 @@ class GroupByOps(ABC):
         result = zeros_like(self.grouping.iGroup, dtype="?")
 
         # set boolean mask to True for only the first occurrence
-        result[fancy] = True
+        result[fancy[fancy.isnotnan()]] = True
         return result
 
     # ---------------------------------------------------------------
@@ -324,7 +330,7 @@ class GroupByOps(ABC):
         result = zeros_like(self.grouping.iGroup, dtype="?")
 
         # set boolean mask to True for only the last occurrence
-        result[fancy] = True
+        result[fancy[fancy.isnotnan()]] = True
         return result
 
     # ---------------------------------------------------------------
-- 
2.43.0

