From e53e1e345adbaf7057fc9b9586b8c39ded49a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 01/49] fix: reject a minus sign after leading zeros when
 parsing int strings ('0-1' was parsed as -1)

---
 src/input/shared.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/shared.rs b/src/input/shared.rs
index 1a90b41..dac0faa 100644
--- a/src/input/shared.rs
+++ b/src/input/shared.rs
@@ -186,8 +186,8 @@ fn strip_leading_zeros(s: &str) -> Option<&str> {
         match c {
             // continue on more leading zeros or if we get an underscore we continue - we're "within the number"
             '0' | '_' => (),
-            // any other digit or unary minus we return the rest of the string
-            '1'..='9' | '-' => return Some(&s[i..]),
+            // any other digit we return the rest of the string
+            '1'..='9' => return Some(&s[i..]),
             // if we get a dot we return the rest of the string but include the last zero
             '.' => return Some(&s[(i - 1)..]),
             // anything else is invalid, we return None
-- 
2.43.0


From c3666b31dfcf643ccb6c4157d85d85bf3a5d47dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:21 +0000
Subject: [PATCH 02/49] fix: reject int timedeltas of 2**32 days or more
 instead of wrapping the number of days

---
 src/input/datetime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index e1b3b37..f5d9d08 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -522,8 +522,8 @@ pub fn bytes_as_timedelta<'py>(
 pub fn int_as_duration(input: impl ToErrorValue, total_seconds: i64) -> ValResult<Duration> {
     let positive = total_seconds >= 0;
     let total_seconds = total_seconds.unsigned_abs();
-    // we can safely unwrap here since we've guaranteed seconds and microseconds can't cause overflow
-    let days = (total_seconds / 86400) as u32;
+    // days beyond u32 saturate so that speedate rejects them as too large
+    let days = u32::try_from(total_seconds / 86400).unwrap_or(u32::MAX);
     let seconds = (total_seconds % 86400) as u32;
     Duration::new(positive, days, seconds, 0).map_err(|err| map_timedelta_err(input, err))
 }
-- 
2.43.0


From c3f7bba5605f211cdb6f2d8f0170465430771aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:21 +0000
Subject: [PATCH 03/49] fix: count the fraction of a negative float timestamp
 from its floor (-0.25 gave 23:59:59.25)

---
 src/input/datetime.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index f5d9d08..ab01ce7 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -422,10 +422,12 @@ macro_rules! nan_check {
 
 pub fn float_as_datetime<'py>(input: &(impl Input<'py> + ?Sized), timestamp: f64) -> ValResult<EitherDateTime<'py>> {
     nan_check!(input, timestamp, DatetimeParsing);
-    let microseconds = timestamp.fract().abs() * 1_000_000.0;
+    let seconds = timestamp.floor();
+    // the fraction is relative to the floor, so that negative timestamps also add a positive number of microseconds
+    let microseconds = (timestamp - seconds) * 1_000_000.0;
     // checking for extra digits in microseconds is unreliable with large floats,
     // so we just round to the nearest microsecond
-    int_as_datetime(input, timestamp.floor() as i64, microseconds.round() as u32)
+    int_as_datetime(input, seconds as i64, microseconds.round() as u32)
 }
 
 pub fn date_as_datetime<'py>(date: &Bound<'py, PyDate>) -> PyResult<EitherDateTime<'py>> {
-- 
2.43.0


From d5c794fc00d76985a9b82f02f580511ac4aa076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:53 +0000
Subject: [PATCH 04/49] fix: scale the fraction of a float millisecond
 timestamp as milliseconds, as for strings

---
 src/input/datetime.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index ab01ce7..20f4127 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -422,12 +422,18 @@ macro_rules! nan_check {
 
 pub fn float_as_datetime<'py>(input: &(impl Input<'py> + ?Sized), timestamp: f64) -> ValResult<EitherDateTime<'py>> {
     nan_check!(input, timestamp, DatetimeParsing);
-    let seconds = timestamp.floor();
+    let whole = timestamp.floor();
+    // speedate takes timestamps beyond this as milliseconds, of which the fraction is a fraction of
+    let microseconds_per_unit = if whole.abs() > 20_000_000_000.0 {
+        1_000.0
+    } else {
+        1_000_000.0
+    };
     // the fraction is relative to the floor, so that negative timestamps also add a positive number of microseconds
-    let microseconds = (timestamp - seconds) * 1_000_000.0;
+    let microseconds = (timestamp - whole) * microseconds_per_unit;
     // checking for extra digits in microseconds is unreliable with large floats,
     // so we just round to the nearest microsecond
-    int_as_datetime(input, seconds as i64, microseconds.round() as u32)
+    int_as_datetime(input, whole as i64, microseconds.round() as u32)
 }
 
 pub fn date_as_datetime<'py>(date: &Bound<'py, PyDate>) -> PyResult<EitherDateTime<'py>> {
-- 
2.43.0


From c9ab3b046b36355f66971eab753a9f2ab74b7d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 05/49] fix: report errors of tuple items after a variadic item
 at their own index

---
 src/validators/tuple.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index e49d6a9..d798fa8 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -165,12 +165,13 @@ impl TupleValidator {
                 // right one for user errors.
                 let mut tail_buffer: VecDeque<I> = collection_iter.inner.by_ref().take(n_tail_validators).collect();
 
-                // Save the current index for the tail validation below when we recreate a new NextCountingIterator
+                // Save the index of the first buffered item for the tail validation below when we recreate a new
+                // NextCountingIterator
                 let mut index = collection_iter.next_calls();
 
                 // Iterate over all remaining collection items, validating as items "leave" the buffer
                 for (buffer_item_index, input_item) in collection_iter {
-                    index = buffer_item_index;
+                    index = buffer_item_index + 1;
                     // This `unwrap` is safe because you can only get here
                     // if there were at least `n_tail_validators` (> 0) items in the iterator
                     let buffered_item = tail_buffer.pop_front().unwrap();
-- 
2.43.0


From 1bbbeb14436f428262a01190e9a01bd467c6f023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:53 +0000
Subject: [PATCH 06/49] fix: report a failing iterator given to a tuple field
 at the index which failed

---
 src/validators/tuple.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index d798fa8..18e87cb 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -349,9 +349,11 @@ where
                         if iteration_error.is_some() {
                             return None;
                         }
-                        index += 1;
                         match iterator.next() {
-                            Some(Ok(item)) => Some(item),
+                            Some(Ok(item)) => {
+                                index += 1;
+                                Some(item)
+                            }
                             Some(Err(e)) => {
                                 *iteration_error = Some(ValError::new_with_loc(
                                     ErrorType::IterationError {
-- 
2.43.0


From 82f1ff2bf34fca17bd269c8e325d222c2e7bb6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:32 +0000
Subject: [PATCH 07/49] fix: match ints beyond 64 bits in literals and enums

---
 src/validators/literal.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/validators/literal.rs b/src/validators/literal.rs
index 3da5e9d..d64f985 100644
--- a/src/validators/literal.rs
+++ b/src/validators/literal.rs
@@ -11,7 +11,7 @@ use ahash::AHashMap;
 
 use crate::build_tools::{py_schema_err, py_schema_error_type};
 use crate::errors::{ErrorType, ValError, ValResult};
-use crate::input::{Input, ValidationMatch};
+use crate::input::{Input, Int, ValidationMatch};
 use crate::py_gc::PyGcTraverse;
 use crate::tools::SchemaDict;
 
@@ -114,9 +114,11 @@ impl<T: Debug> LiteralLookup<T> {
         }
         if let Some(expected_ints) = &self.expected_int {
             if let Ok(either_int) = input.exact_int() {
-                let int = either_int.into_i64(py)?;
-                if let Some(id) = expected_ints.get(&int) {
-                    return Ok(Some((input, &self.values[*id])));
+                // an int which doesn't fit in an i64 can only be in `expected_py_dict`, see below
+                if let Ok(int) = either_int.into_i64(py) {
+                    if let Some(id) = expected_ints.get(&int) {
+                        return Ok(Some((input, &self.values[*id])));
+                    }
                 }
             }
         }
@@ -190,11 +192,24 @@ impl<T: Debug> LiteralLookup<T> {
         input: &'a I,
         strict: bool,
     ) -> ValResult<Option<&T>> {
-        if let Some(expected_ints) = &self.expected_int {
-            if let Ok(either_int) = input.validate_int(strict) {
-                let int = either_int.into_inner().into_i64(py)?;
-                if let Some(id) = expected_ints.get(&int) {
-                    return Ok(Some(&self.values[*id]));
+        if self.expected_int.is_none() && self.expected_py_dict.is_none() {
+            return Ok(None);
+        }
+        if let Ok(either_int) = input.validate_int(strict) {
+            match either_int.into_inner().as_int()? {
+                Int::I64(int) => {
+                    if let Some(id) = self.expected_int.as_ref().and_then(|ints| ints.get(&int)) {
+                        return Ok(Some(&self.values[*id]));
+                    }
+                }
+                // ints which don't fit in an i64 are in `expected_py_dict`
+                Int::Big(big_int) => {
+                    if let Some(expected_py) = &self.expected_py_dict {
+                        if let Ok(Some(v)) = expected_py.bind(py).get_item(big_int) {
+                            let id: usize = v.extract().unwrap();
+                            return Ok(Some(&self.values[id]));
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0


From feaf19e2a198f15f10bc8684380fe5c1798f4a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 08/49] fix: an enum with a None member accepted any JSON value

---
 src/validators/enum_.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validators/enum_.rs b/src/validators/enum_.rs
index 0e34cb1..345e453 100644
--- a/src/validators/enum_.rs
+++ b/src/validators/enum_.rs
@@ -122,8 +122,8 @@ impl<T: EnumValidateValue> Validator for EnumValidator<T> {
 
         if let Some(v) = T::validate_value(py, input, &self.lookup, strict)? {
             return Ok(v);
-        } else if let Ok(res) = class.as_unbound().call1(py, (input.as_python(),)) {
-            return Ok(res);
+        } else if let Some(Ok(res)) = input.as_python().map(|py_input| class.call1((py_input,))) {
+            return Ok(res.unbind());
         } else if let Some(ref missing) = self.missing {
             let enum_value = missing.bind(py).call1((input.to_object(py)?,)).map_err(|_| {
                 ValError::new(
-- 
2.43.0


From cf12f576e3d48cee2a0acaba5e22bca5718757f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:35 +0000
Subject: [PATCH 09/49] fix: an int field returned the value of an enum member
 whatever its type

---
 src/input/input_python.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index e82cbae..10d2b9c 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -271,8 +271,8 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
                     decimal_as_int(self, &decimal.into_inner())
                 } else if let Ok(float) = self.extract::<f64>() {
                     float_as_int(self, float)
-                } else if let Some(enum_val) = maybe_as_enum(self) {
-                    Ok(EitherInt::Py(enum_val))
+                } else if let Some(enum_val) = maybe_as_enum(self).filter(|v| v.is_instance_of::<PyInt>()) {
+                    EitherInt::upcast(&enum_val)
                 } else {
                     break 'lax;
                 }
-- 
2.43.0


From c71116ef74d40737d279ef653843122929540192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 10/49] fix: positional dataclass arguments skip fields with
 init=False

---
 src/validators/dataclass.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index c74d789..9c9518e 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -89,7 +89,8 @@ impl BuildValidator for DataclassArgsValidator {
             }
 
             let kw_only = field.get_as(intern!(py, "kw_only"))?.unwrap_or(true);
-            if !kw_only {
+            let init = field.get_as(intern!(py, "init"))?.unwrap_or(true);
+            if !kw_only && init {
                 positional_count += 1;
             }
 
@@ -102,7 +103,7 @@ impl BuildValidator for DataclassArgsValidator {
                 name_py: name_py.into(),
                 lookup_key_collection,
                 validator,
-                init: field.get_as(intern!(py, "init"))?.unwrap_or(true),
+                init,
                 init_only: field.get_as(intern!(py, "init_only"))?.unwrap_or(false),
                 frozen: field.get_as::<bool>(intern!(py, "frozen"))?.unwrap_or(false),
             });
@@ -174,8 +175,11 @@ impl Validator for DataclassArgsValidator {
             }};
         }
 
+        // index of the next positional argument, only fields which can be passed by position have one
+        let mut next_index: usize = 0;
+
         // go through fields getting the value from args or kwargs and validating it
-        for (index, field) in self.fields.iter().enumerate() {
+        for field in &self.fields {
             if !field.init {
                 match field.validator.default_value(py, Some(field.name.as_str()), state) {
                     Ok(Some(value)) => {
@@ -194,9 +198,11 @@ impl Validator for DataclassArgsValidator {
                 continue;
             }
 
+            let index = next_index;
             let mut pos_value = None;
-            if let Some(args) = args.args() {
-                if !field.kw_only {
+            if !field.kw_only {
+                next_index += 1;
+                if let Some(args) = args.args() {
                     pos_value = args.get_item(index);
                 }
             }
-- 
2.43.0


From 7987f6f8e9ccea05b187c90a227cd7008c5b3fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 11/49] fix: omit extra values whose validation asks for it

---
 src/validators/model_fields.rs | 1 +
 src/validators/typed_dict.rs   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/validators/model_fields.rs b/src/validators/model_fields.rs
index 10d13d7..9a14d1a 100644
--- a/src/validators/model_fields.rs
+++ b/src/validators/model_fields.rs
@@ -333,6 +333,7 @@ impl Validator for ModelFieldsValidator {
                                                 self.errors.push(err.with_outer_location(raw_key.clone()));
                                             }
                                         }
+                                        Err(ValError::Omit) => {}
                                         Err(err) => return Err(err),
                                     }
                                 } else {
diff --git a/src/validators/typed_dict.rs b/src/validators/typed_dict.rs
index eb4394e..1c92d28 100644
--- a/src/validators/typed_dict.rs
+++ b/src/validators/typed_dict.rs
@@ -346,6 +346,7 @@ impl Validator for TypedDictValidator {
                                                 }
                                             }
                                         }
+                                        Err(ValError::Omit) => {}
                                         Err(err) => return Err(err),
                                     }
                                 } else {
-- 
2.43.0


From 2f595ccdadc6e1c3a03d72adb2b3e22d14e72692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:03 +0000
Subject: [PATCH 12/49] fix: report a failing iterable given as variadic
 arguments instead of panicking

---
 src/validators/arguments_v3.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/validators/arguments_v3.rs b/src/validators/arguments_v3.rs
index 22c9c6d..8242484 100644
--- a/src/validators/arguments_v3.rs
+++ b/src/validators/arguments_v3.rs
@@ -10,7 +10,7 @@ use pyo3::IntoPyObjectExt;
 use crate::build_tools::py_schema_err;
 use crate::build_tools::{schema_or_config_same, ExtraBehavior};
 use crate::errors::LocItem;
-use crate::errors::{ErrorTypeDefaults, ValError, ValLineError, ValResult};
+use crate::errors::{py_err_string, ErrorType, ErrorTypeDefaults, ValError, ValLineError, ValResult};
 use crate::input::ConsumeIterator;
 use crate::input::{
     Arguments, BorrowInput, Input, KeywordArgs, PositionalArgs, ValidatedDict, ValidatedTuple, ValidationMatch,
@@ -280,7 +280,22 @@ impl ArgumentsV3Validator {
                         Ok(tuple) => {
                             let mut i: i64 = 0;
                             tuple.unpack(state).try_for_each(|v| {
-                                match parameter.validator.validate(py, v.unwrap().borrow_input(), state) {
+                                let v = v.map_err(|err| {
+                                    let iter_error = ValLineError::new_with_loc(
+                                        ErrorType::IterationError {
+                                            error: py_err_string(py, err),
+                                            context: None,
+                                        },
+                                        dict_value.borrow_input(),
+                                        i,
+                                    );
+                                    ValError::LineErrors(vec![lookup_path.apply_error_loc(
+                                        iter_error,
+                                        self.loc_by_alias,
+                                        &parameter.name,
+                                    )])
+                                })?;
+                                match parameter.validator.validate(py, v.borrow_input(), state) {
                                     Ok(tuple_value) => {
                                         output_args.push(tuple_value);
                                         i += 1;
-- 
2.43.0


From f6fbfb02af3a7c0646b4d8835058128a5b56773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 13/49] fix: variadic parameters may follow parameters with
 defaults

---
 src/validators/arguments_v3.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/validators/arguments_v3.rs b/src/validators/arguments_v3.rs
index 8242484..b44267a 100644
--- a/src/validators/arguments_v3.rs
+++ b/src/validators/arguments_v3.rs
@@ -177,7 +177,14 @@ impl BuildValidator for ArgumentsV3Validator {
                 _ => false,
             };
 
-            if had_default_arg && !has_default && !had_keyword_only {
+            let is_variadic = matches!(
+                mode,
+                ParameterMode::VarArgs
+                    | ParameterMode::VarKwargsUniform
+                    | ParameterMode::VarKwargsUnpackedTypedDict
+            );
+
+            if had_default_arg && !has_default && !had_keyword_only && !is_variadic {
                 return py_schema_err!("Required parameter '{}' follows parameter with default", name);
             } else if has_default {
                 had_default_arg = true;
-- 
2.43.0


From be37f06ffcfcd882afc0b5a7a73d7db12277dae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:06 +0000
Subject: [PATCH 14/49] fix: include and exclude indices beyond the end of a
 sequence select nothing

---
 src/serializers/filter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/filter.rs b/src/serializers/filter.rs
index 65ec406..49277d4 100644
--- a/src/serializers/filter.rs
+++ b/src/serializers/filter.rs
@@ -18,9 +18,9 @@ pub(crate) struct SchemaFilter<T> {
 fn map_negative_index<'py>(value: &Bound<'py, PyAny>, len: Option<usize>) -> PyResult<Bound<'py, PyAny>> {
     let py = value.py();
     match len {
-        Some(len) => Ok(value
-            .call_method1(intern!(py, "__mod__"), (len,))
-            .unwrap_or_else(|_| value.clone())),
+        // indices which are out of range even from the end stay negative and so match nothing
+        Some(len) if value.lt(0).unwrap_or(false) => value.add(len),
+        Some(_) => Ok(value.clone()),
         None => {
             // check that it's not negative
             if value.lt(0).unwrap_or(false) {
-- 
2.43.0


From 203a0f773335502f7229125a3ad0293161c45210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:20 +0000
Subject: [PATCH 15/49] fix: a nested exclude does not bring back items the
 schema excludes

---
 src/serializers/filter.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/serializers/filter.rs b/src/serializers/filter.rs
index 49277d4..2d83cac 100644
--- a/src/serializers/filter.rs
+++ b/src/serializers/filter.rs
@@ -225,10 +225,8 @@ trait FilterLogic<T: Eq + Copy> {
             }
         }
 
-        if next_exclude.is_some() {
+        if self.default_filter(int_key) {
             Ok(Some((None, next_exclude)))
-        } else if self.default_filter(int_key) {
-            Ok(Some((None, None)))
         } else {
             Ok(None)
         }
-- 
2.43.0


From a1d8ff7a9ace10eb71e9a728ad8239dae0e56a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:55 +0000
Subject: [PATCH 16/49] fix: schema filters of a dict compare keys, not their
 hashes

---
 src/serializers/fields.rs                |  1 -
 src/serializers/filter.rs                | 62 ++++++++++++++++++++----
 src/serializers/type_serializers/dict.rs |  6 +--
 3 files changed, 55 insertions(+), 14 deletions(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index b89468d..3b6d76c 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -100,7 +100,6 @@ pub struct GeneralFieldsSerializer {
     computed_fields: Option<ComputedFields>,
     mode: FieldsMode,
     extra_serializer: Option<Box<CombinedSerializer>>,
-    // isize because we look up filter via `.hash()` which returns an isize
     filter: SchemaFilter<isize>,
     required_fields: usize,
 }
diff --git a/src/serializers/filter.rs b/src/serializers/filter.rs
index 2d83cac..65e4092 100644
--- a/src/serializers/filter.rs
+++ b/src/serializers/filter.rs
@@ -6,17 +6,23 @@ use pyo3::exceptions::PyTypeError;
 use pyo3::intern;
 use pyo3::prelude::*;
 use pyo3::types::{PyBool, PyDict, PySet};
+use pyo3::{PyTraverseError, PyVisit};
 
+use crate::py_gc::PyGcTraverse;
 use crate::tools::SchemaDict;
 
 #[derive(Debug, Clone, Default)]
 pub(crate) struct SchemaFilter<T> {
     include: Option<AHashSet<T>>,
     exclude: Option<AHashSet<T>>,
+    // only used for filters by key: the number which stands for each key in `include` and `exclude` above
+    key_numbers: Option<Py<PyDict>>,
 }
 
+// the number for all keys which are in neither `include` nor `exclude`
+const OTHER_KEY: isize = -1;
+
 fn map_negative_index<'py>(value: &Bound<'py, PyAny>, len: Option<usize>) -> PyResult<Bound<'py, PyAny>> {
-    let py = value.py();
     match len {
         // indices which are out of range even from the end stay negative and so match nothing
         Some(len) if value.lt(0).unwrap_or(false) => value.add(len),
@@ -66,7 +72,11 @@ impl SchemaFilter<usize> {
             Some(ser) => {
                 let include = Self::build_set_ints(ser.get_item(intern!(py, "include"))?)?;
                 let exclude = Self::build_set_ints(ser.get_item(intern!(py, "exclude"))?)?;
-                Ok(Self { include, exclude })
+                Ok(Self {
+                    include,
+                    exclude,
+                    key_numbers: None,
+                })
             }
             None => Ok(SchemaFilter::default()),
         }
@@ -105,13 +115,25 @@ impl SchemaFilter<usize> {
 }
 
 impl SchemaFilter<isize> {
-    pub fn from_set_hash(include: Option<&Bound<'_, PyAny>>, exclude: Option<&Bound<'_, PyAny>>) -> PyResult<Self> {
-        let include = Self::build_set_hashes(include)?;
-        let exclude = Self::build_set_hashes(exclude)?;
-        Ok(Self { include, exclude })
+    pub fn from_key_sets(
+        py: Python<'_>,
+        include: Option<&Bound<'_, PyAny>>,
+        exclude: Option<&Bound<'_, PyAny>>,
+    ) -> PyResult<Self> {
+        let key_numbers = PyDict::new(py);
+        let include = Self::build_set_numbers(&key_numbers, include)?;
+        let exclude = Self::build_set_numbers(&key_numbers, exclude)?;
+        Ok(Self {
+            include,
+            exclude,
+            key_numbers: Some(key_numbers.unbind()),
+        })
     }
 
-    fn build_set_hashes(v: Option<&Bound<'_, PyAny>>) -> PyResult<Option<AHashSet<isize>>> {
+    fn build_set_numbers(
+        key_numbers: &Bound<'_, PyDict>,
+        v: Option<&Bound<'_, PyAny>>,
+    ) -> PyResult<Option<AHashSet<isize>>> {
         match v {
             Some(value) => {
                 if value.is_none() {
@@ -121,7 +143,15 @@ impl SchemaFilter<isize> {
                     let mut set: AHashSet<isize> = AHashSet::with_capacity(py_set.len());
 
                     for item in py_set.iter() {
-                        set.insert(item.hash()?);
+                        let number = match key_numbers.get_item(&item)? {
+                            Some(number) => number.extract()?,
+                            None => {
+                                let number = key_numbers.len() as isize;
+                                key_numbers.set_item(item, number)?;
+                                number
+                            }
+                        };
+                        set.insert(number);
                     }
                     Ok(Some(set))
                 }
@@ -136,8 +166,20 @@ impl SchemaFilter<isize> {
         include: Option<&Bound<'py, PyAny>>,
         exclude: Option<&Bound<'py, PyAny>>,
     ) -> PyResult<NextFilters<'py>> {
-        let hash = key.hash()?;
-        self.filter(key, hash, include, exclude)
+        let number = match &self.key_numbers {
+            Some(key_numbers) => match key_numbers.bind(key.py()).get_item(key)? {
+                Some(number) => number.extract()?,
+                None => OTHER_KEY,
+            },
+            None => OTHER_KEY,
+        };
+        self.filter(key, number, include, exclude)
+    }
+}
+
+impl PyGcTraverse for SchemaFilter<isize> {
+    fn py_gc_traverse(&self, visit: &PyVisit<'_>) -> Result<(), PyTraverseError> {
+        self.key_numbers.py_gc_traverse(visit)
     }
 }
 
diff --git a/src/serializers/type_serializers/dict.rs b/src/serializers/type_serializers/dict.rs
index feb4509..448e508 100644
--- a/src/serializers/type_serializers/dict.rs
+++ b/src/serializers/type_serializers/dict.rs
@@ -20,7 +20,6 @@ use super::{
 pub struct DictSerializer {
     key_serializer: Box<CombinedSerializer>,
     value_serializer: Box<CombinedSerializer>,
-    // isize because we look up include exclude via `.hash()` which returns an isize
     filter: SchemaFilter<isize>,
     name: String,
 }
@@ -46,7 +45,7 @@ impl BuildSerializer for DictSerializer {
             Some(ser) => {
                 let include = ser.get_item(intern!(py, "include"))?;
                 let exclude = ser.get_item(intern!(py, "exclude"))?;
-                SchemaFilter::from_set_hash(include.as_ref(), exclude.as_ref())?
+                SchemaFilter::from_key_sets(py, include.as_ref(), exclude.as_ref())?
             }
             None => SchemaFilter::default(),
         };
@@ -68,7 +67,8 @@ impl BuildSerializer for DictSerializer {
 
 impl_py_gc_traverse!(DictSerializer {
     key_serializer,
-    value_serializer
+    value_serializer,
+    filter
 });
 
 impl TypeSerializer for DictSerializer {
-- 
2.43.0


From 155b8d42dcc0cc824ff17dda2acdad4145bb0586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:57 +0000
Subject: [PATCH 17/49] fix: JSON text serializes extra values with
 extras_schema, as JSON mode in Python does

---
 src/serializers/fields.rs | 42 +++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index 3b6d76c..4b19359 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -270,8 +270,14 @@ impl GeneralFieldsSerializer {
                     }
                 } else if self.mode == FieldsMode::TypedDictAllow {
                     let output_key = infer_json_key(&key, &field_extra).map_err(py_err_se_err)?;
-                    let s = SerializeInfer::new(&value, next_include.as_ref(), next_exclude.as_ref(), &field_extra);
-                    map.serialize_entry(&output_key, &s)?;
+                    self.extra_serde_serialize::<S>(
+                        &mut map,
+                        &output_key,
+                        &value,
+                        next_include.as_ref(),
+                        next_exclude.as_ref(),
+                        &field_extra,
+                    )?;
                 }
                 // no error case here since unions (which need the error case) use `to_python(..., mode='json')`
             }
@@ -279,6 +285,28 @@ impl GeneralFieldsSerializer {
         Ok(map)
     }
 
+    /// serialize an extra value, with `extras_schema` if there is one
+    fn extra_serde_serialize<S: serde::ser::Serializer>(
+        &self,
+        map: &mut S::SerializeMap,
+        output_key: &str,
+        value: &Bound<'_, PyAny>,
+        include: Option<&Bound<'_, PyAny>>,
+        exclude: Option<&Bound<'_, PyAny>>,
+        extra: &Extra,
+    ) -> Result<(), S::Error> {
+        match &self.extra_serializer {
+            Some(serializer) => {
+                let s = PydanticSerializer::new(value, serializer, include, exclude, extra);
+                map.serialize_entry(output_key, &s)
+            }
+            None => {
+                let s = SerializeInfer::new(value, include, exclude, extra);
+                map.serialize_entry(output_key, &s)
+            }
+        }
+    }
+
     pub(crate) fn add_computed_fields_python(
         &self,
         model: Option<&Bound<'_, PyAny>>,
@@ -443,8 +471,14 @@ impl TypeSerializer for GeneralFieldsSerializer {
                 let filter = self.filter.key_filter(&key, include, exclude).map_err(py_err_se_err)?;
                 if let Some((next_include, next_exclude)) = filter {
                     let output_key = infer_json_key(&key, extra).map_err(py_err_se_err)?;
-                    let s = SerializeInfer::new(&value, next_include.as_ref(), next_exclude.as_ref(), extra);
-                    map.serialize_entry(&output_key, &s)?;
+                    self.extra_serde_serialize::<S>(
+                        &mut map,
+                        &output_key,
+                        &value,
+                        next_include.as_ref(),
+                        next_exclude.as_ref(),
+                        extra,
+                    )?;
                 }
             }
         }
-- 
2.43.0


From 0b7de1a18088bb1e2cd6ecc024b1f423034d4776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:02 +0000
Subject: [PATCH 18/49] fix: exclude_none looks at the value of a computed
 field in Python as in JSON text

---
 src/serializers/computed_fields.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/computed_fields.rs b/src/serializers/computed_fields.rs
index 6e6786d..3bf79c2 100644
--- a/src/serializers/computed_fields.rs
+++ b/src/serializers/computed_fields.rs
@@ -159,12 +159,12 @@ impl ComputedField {
         if let Some((next_include, next_exclude)) = filter.key_filter(property_name_py, include, exclude)? {
             let next_value = model.getattr(property_name_py)?;
 
+            if extra.exclude_none && next_value.is_none() {
+                return Ok(());
+            }
             let value = self
                 .serializer
                 .to_python(&next_value, next_include.as_ref(), next_exclude.as_ref(), extra)?;
-            if extra.exclude_none && value.is_none(py) {
-                return Ok(());
-            }
             let key = match extra.serialize_by_alias_or(self.serialize_by_alias) {
                 true => self.alias_py.bind(py),
                 false => property_name_py,
-- 
2.43.0


From b9fc79eba2c498ff11a4aec745d94e8a84b25abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:34 +0000
Subject: [PATCH 19/49] fix: the serializer of a typed dict uses its own
 config, as its validator does

---
 src/serializers/type_serializers/typed_dict.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serializers/type_serializers/typed_dict.rs b/src/serializers/type_serializers/typed_dict.rs
index d93a885..007fe20 100644
--- a/src/serializers/type_serializers/typed_dict.rs
+++ b/src/serializers/type_serializers/typed_dict.rs
@@ -24,6 +24,10 @@ impl BuildSerializer for TypedDictBuilder {
     ) -> PyResult<CombinedSerializer> {
         let py = schema.py();
 
+        // the config of this TypedDict takes precedence over the parent config
+        let own_config = schema.get_as(intern!(py, "config"))?;
+        let config = own_config.as_ref().or(config);
+
         let total =
             schema_or_config(schema, config, intern!(py, "total"), intern!(py, "typed_dict_total"))?.unwrap_or(true);
 
-- 
2.43.0


From f6b2f6f5e39529894d3dff2834e60f8706d0f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:07 +0000
Subject: [PATCH 20/49] fix: complex fields obey the strict setting of the call

---
 src/validators/complex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/complex.rs b/src/validators/complex.rs
index 98ffc7d..a0341a1 100644
--- a/src/validators/complex.rs
+++ b/src/validators/complex.rs
@@ -45,7 +45,7 @@ impl Validator for ComplexValidator {
         input: &(impl Input<'py> + ?Sized),
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
-        let res = input.validate_complex(self.strict, py)?.unpack(state);
+        let res = input.validate_complex(state.strict_or(self.strict), py)?.unpack(state);
         Ok(res.into_pyobject(py)?.into())
     }
 
-- 
2.43.0


From 30ea4a22bf28cc206be71fc17074c1987ee65abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:53 +0000
Subject: [PATCH 21/49] fix: complex accepts integers beyond 64 bits instead of
 panicking

---
 src/input/input_json.rs   | 10 ++++++++++
 src/input/input_python.rs |  8 ++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/input/input_json.rs b/src/input/input_json.rs
index 6828f59..40507b5 100644
--- a/src/input/input_json.rs
+++ b/src/input/input_json.rs
@@ -363,6 +363,16 @@ impl<'py, 'data> Input<'py> for JsonValue<'data> {
                     Err(ValError::new(ErrorTypeDefaults::ComplexStrParsing, self))
                 }
             }
+            JsonValue::BigInt(b) => {
+                if !strict {
+                    match b.to_f64().filter(|float| float.is_finite()) {
+                        Some(float) => Ok(ValidationMatch::lax(EitherComplex::Complex([float, 0.0]))),
+                        None => Err(ValError::new(ErrorTypeDefaults::ComplexType, self)),
+                    }
+                } else {
+                    Err(ValError::new(ErrorTypeDefaults::ComplexStrParsing, self))
+                }
+            }
             _ => Err(ValError::new(ErrorTypeDefaults::ComplexType, self)),
         }
     }
diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index 10d2b9c..371e38b 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -657,10 +657,10 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
                 0.0,
             ])));
         } else if self.is_exact_instance_of::<PyInt>() {
-            return Ok(ValidationMatch::lax(EitherComplex::Complex([
-                self.extract::<i64>().unwrap() as f64,
-                0.0,
-            ])));
+            // this fails for integers which are too large for a float, as `complex(...)` does
+            if let Ok(float) = self.extract::<f64>() {
+                return Ok(ValidationMatch::lax(EitherComplex::Complex([float, 0.0])));
+            }
         }
         Err(ValError::new(ErrorTypeDefaults::ComplexType, self))
     }
-- 
2.43.0


From 74618934d90e53c0eedd8e68b11c9e159e190d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:19 +0000
Subject: [PATCH 22/49] fix: bools are not durations in Python either, as in
 JSON and for dates and times

---
 src/input/input_python.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index 371e38b..856ec31 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -612,6 +612,8 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
                     bytes_as_timedelta(self, str.as_bytes(), microseconds_overflow_behavior)
                 } else if let Ok(py_bytes) = self.downcast::<PyBytes>() {
                     bytes_as_timedelta(self, py_bytes.as_bytes(), microseconds_overflow_behavior)
+                } else if self.is_exact_instance_of::<PyBool>() {
+                    Err(ValError::new(ErrorTypeDefaults::TimeDeltaType, self))
                 } else if let Some(int) = extract_i64(self) {
                     Ok(int_as_duration(self, int)?.into())
                 } else if let Ok(float) = self.extract::<f64>() {
-- 
2.43.0


From 962507d7894f1f88d883d4acaff6143ec82d44fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:17 +0000
Subject: [PATCH 23/49] fix: each member of a union sees the partial mode of
 the union

---
 src/validators/union.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/validators/union.rs b/src/validators/union.rs
index f293a99..c232832 100644
--- a/src/validators/union.rs
+++ b/src/validators/union.rs
@@ -107,6 +107,7 @@ impl UnionValidator {
     ) -> ValResult<PyObject> {
         let old_exactness = state.exactness;
         let old_fields_set_count = state.fields_set_count;
+        let allow_partial = state.allow_partial;
 
         let mut errors = MaybeErrors::new(self.custom_error.as_ref());
 
@@ -115,6 +116,8 @@ impl UnionValidator {
         for (choice, label) in &self.choices {
             state.exactness = Some(Exactness::Exact);
             state.fields_set_count = None;
+            // other choices may have disabled partial validation
+            state.allow_partial = allow_partial;
             let result = choice.validate(py, input, state);
             match result {
                 Ok(new_success) => match (state.exactness, state.fields_set_count) {
@@ -188,8 +191,10 @@ impl UnionValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         let mut errors = MaybeErrors::new(self.custom_error.as_ref());
+        let allow_partial = state.allow_partial;
 
         for (validator, label) in &self.choices {
+            state.allow_partial = allow_partial;
             match validator.validate(py, input, state) {
                 Err(ValError::LineErrors(lines)) => errors.push(validator, label.as_deref(), lines),
                 otherwise => return otherwise,
-- 
2.43.0


From df8fb4075b30c2a5b05d373898dd9b46eb998c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:39 +0000
Subject: [PATCH 24/49] fix: by_alias and by_name reach what a wrap validator
 or a generator validates

---
 src/validators/generator.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 12d76b3..0d09432 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -223,6 +223,8 @@ pub struct InternalValidator {
     from_attributes: Option<bool>,
     context: Option<PyObject>,
     self_instance: Option<PyObject>,
+    by_alias: Option<bool>,
+    by_name: Option<bool>,
     recursion_guard: RecursionState,
     pub(crate) exactness: Option<Exactness>,
     validation_mode: InputType,
@@ -254,6 +256,8 @@ impl InternalValidator {
             from_attributes: extra.from_attributes,
             context: extra.context.map(|d| d.clone().unbind()),
             self_instance: extra.self_instance.map(|d| d.clone().unbind()),
+            by_alias: extra.by_alias,
+            by_name: extra.by_name,
             recursion_guard: state.recursion_guard.clone(),
             exactness: state.exactness,
             validation_mode: extra.input_type,
@@ -280,8 +284,8 @@ impl InternalValidator {
             context: self.context.as_ref().map(|data| data.bind(py)),
             self_instance: self.self_instance.as_ref().map(|data| data.bind(py)),
             cache_str: self.cache_str,
-            by_alias: None,
-            by_name: None,
+            by_alias: self.by_alias,
+            by_name: self.by_name,
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
@@ -318,8 +322,8 @@ impl InternalValidator {
             context: self.context.as_ref().map(|data| data.bind(py)),
             self_instance: self.self_instance.as_ref().map(|data| data.bind(py)),
             cache_str: self.cache_str,
-            by_alias: None,
-            by_name: None,
+            by_alias: self.by_alias,
+            by_name: self.by_name,
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
-- 
2.43.0


From d42b4878fcf57f93c11987b94565d27e429493b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:25 +0000
Subject: [PATCH 25/49] fix: validators inside a wrap validator see the name of
 the field

---
 src/validators/generator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 0d09432..83ae42d 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -219,6 +219,7 @@ pub struct InternalValidator {
     validator: Arc<CombinedValidator>,
     // TODO, do we need data?
     data: Option<Py<PyDict>>,
+    field_name: Option<Py<PyString>>,
     strict: Option<bool>,
     from_attributes: Option<bool>,
     context: Option<PyObject>,
@@ -252,6 +253,7 @@ impl InternalValidator {
             name: name.to_string(),
             validator,
             data: extra.data.as_ref().map(|d| d.clone().into()),
+            field_name: extra.field_name.as_ref().map(|f| f.clone().unbind()),
             strict: extra.strict,
             from_attributes: extra.from_attributes,
             context: extra.context.map(|d| d.clone().unbind()),
@@ -318,7 +320,7 @@ impl InternalValidator {
             data: self.data.as_ref().map(|data| data.bind(py).clone()),
             strict: self.strict,
             from_attributes: self.from_attributes,
-            field_name: None,
+            field_name: self.field_name.as_ref().map(|f| f.bind(py).clone()),
             context: self.context.as_ref().map(|data| data.bind(py)),
             self_instance: self.self_instance.as_ref().map(|data| data.bind(py)),
             cache_str: self.cache_str,
-- 
2.43.0


From 67658f0188bd457d4b88ceed32b6e4ec26269ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:05 +0000
Subject: [PATCH 26/49] fix: a union counts the fields set by a member inside a
 wrap validator

---
 src/validators/function.rs  | 1 +
 src/validators/generator.rs | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/src/validators/function.rs b/src/validators/function.rs
index e65ff79..2aff1dc 100644
--- a/src/validators/function.rs
+++ b/src/validators/function.rs
@@ -381,6 +381,7 @@ impl Validator for FunctionWrapValidator {
         #[allow(clippy::used_underscore_items)]
         let result = self._validate(handler.as_any(), py, input, state);
         state.exactness = handler.borrow_mut().validator.exactness;
+        state.fields_set_count = handler.borrow_mut().validator.fields_set_count;
         result
     }
 
diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 83ae42d..72a4ddb 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -228,6 +228,7 @@ pub struct InternalValidator {
     by_name: Option<bool>,
     recursion_guard: RecursionState,
     pub(crate) exactness: Option<Exactness>,
+    pub(crate) fields_set_count: Option<usize>,
     validation_mode: InputType,
     hide_input_in_errors: bool,
     validation_error_cause: bool,
@@ -262,6 +263,7 @@ impl InternalValidator {
             by_name: extra.by_name,
             recursion_guard: state.recursion_guard.clone(),
             exactness: state.exactness,
+            fields_set_count: state.fields_set_count,
             validation_mode: extra.input_type,
             hide_input_in_errors,
             validation_error_cause,
@@ -291,6 +293,7 @@ impl InternalValidator {
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
+        state.fields_set_count = self.fields_set_count;
         let result = self
             .validator
             .validate_assignment(py, model, field_name, field_value, &mut state)
@@ -306,6 +309,7 @@ impl InternalValidator {
                 )
             });
         self.exactness = state.exactness;
+        self.fields_set_count = state.fields_set_count;
         result
     }
 
@@ -329,6 +333,7 @@ impl InternalValidator {
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
+        state.fields_set_count = self.fields_set_count;
         let result = self.validator.validate(py, input, &mut state).map_err(|e| {
             ValidationError::from_val_error(
                 py,
@@ -341,6 +346,7 @@ impl InternalValidator {
             )
         });
         self.exactness = state.exactness;
+        self.fields_set_count = state.fields_set_count;
         result
     }
 }
-- 
2.43.0


From a144f3561b379ef53658d6bc4a43c7e4878e7dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:14 +0000
Subject: [PATCH 27/49] fix: an invalid default with on_error='default'
 recursed forever, PydanticUndefined without a default panicked

---
 src/validators/with_default.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index 8100083..94699b0 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -157,7 +157,7 @@ impl Validator for WithDefaultValidator {
         input: &(impl Input<'py> + ?Sized),
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
-        if input.as_python().is_some_and(|py_input| py_input.is(&self.undefined)) {
+        if self.has_default() && input.as_python().is_some_and(|py_input| py_input.is(&self.undefined)) {
             Ok(self.default_value(py, None::<usize>, state)?.unwrap())
         } else {
             match self.validator.validate(py, input, state) {
@@ -189,8 +189,10 @@ impl Validator for WithDefaultValidator {
                     stored_dft
                 };
                 if self.validate_default {
-                    match self.validate(py, dft.bind(py), state) {
+                    // not `self.validate`, which would go for the default again if the default is invalid
+                    match self.validator.validate(py, dft.bind(py), state) {
                         Ok(v) => Ok(Some(v)),
+                        Err(ValError::LineErrors(_)) if self.omit_on_error() => Err(ValError::Omit),
                         Err(e) => {
                             if let Some(outer_loc) = outer_loc {
                                 Err(e.with_outer_location(outer_loc))
-- 
2.43.0


From 13e1e4b02fee32777a12fc6573853befdbc9605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:14 +0000
Subject: [PATCH 28/49] fix: a default factory taking data got a tuple instead
 of an empty dict where there is no data

---
 src/validators/with_default.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index 94699b0..39dec1d 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -55,7 +55,7 @@ impl DefaultType {
                     if let Some(data) = validated_data {
                         default_factory.call1(py, (data,))
                     } else {
-                        default_factory.call1(py, ({},))
+                        default_factory.call1(py, (PyDict::new(py),))
                     }
                 } else {
                     default_factory.call0(py)
-- 
2.43.0


From 5024829151cd2b9d04bee879e256702786a6299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:14 +0000
Subject: [PATCH 29/49] fix: on_error and custom errors no longer hide
 exceptions which are not validation errors

---
 src/validators/custom_error.rs | 6 +++++-
 src/validators/with_default.rs | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/validators/custom_error.rs b/src/validators/custom_error.rs
index 6759f77..33bf06f 100644
--- a/src/validators/custom_error.rs
+++ b/src/validators/custom_error.rs
@@ -96,7 +96,11 @@ impl Validator for CustomErrorValidator {
     ) -> ValResult<PyObject> {
         self.validator
             .validate(py, input, state)
-            .map_err(|_| self.custom_error.as_val_error(input))
+            .map_err(|e| match e {
+                ValError::LineErrors(_) => self.custom_error.as_val_error(input),
+                // an exception of some function, omit or use-default is not a validation error
+                e => e,
+            })
     }
 
     fn get_name(&self) -> &str {
diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index 39dec1d..9f65c78 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -164,6 +164,8 @@ impl Validator for WithDefaultValidator {
                 Ok(v) => Ok(v),
                 Err(e) => match e {
                     ValError::UseDefault => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
+                    // not a validation error but an exception of some function
+                    ValError::InternalErr(_) => Err(e),
                     e => match self.on_error {
                         OnError::Raise => Err(e),
                         OnError::Default => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
-- 
2.43.0


From 66a4641d87140e7e89c8062818b76fa0896ff1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:14 +0000
Subject: [PATCH 30/49] fix: PydanticOmit and PydanticUseDefault pass through
 wrap validators and generators

---
 src/errors/value_exception.rs |   6 ++
 src/validators/generator.rs   | 119 +++++++++++++++++-----------------
 2 files changed, 65 insertions(+), 60 deletions(-)

diff --git a/src/errors/value_exception.rs b/src/errors/value_exception.rs
index d428dc5..133f787 100644
--- a/src/errors/value_exception.rs
+++ b/src/errors/value_exception.rs
@@ -38,6 +38,12 @@ impl PydanticOmit {
 #[derive(Debug, Clone)]
 pub struct PydanticUseDefault {}
 
+impl PydanticUseDefault {
+    pub(crate) fn new_err() -> PyErr {
+        PyErr::new::<Self, ()>(())
+    }
+}
+
 #[pymethods]
 impl PydanticUseDefault {
     #[new]
diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 72a4ddb..5fc69a7 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -4,7 +4,7 @@ use std::sync::Arc;
 use pyo3::types::{PyDict, PyString};
 use pyo3::{prelude::*, IntoPyObjectExt, PyTraverseError, PyVisit};
 
-use crate::errors::{ErrorType, LocItem, ValError, ValResult};
+use crate::errors::{ErrorType, LocItem, PydanticOmit, PydanticUseDefault, ValError, ValResult};
 use crate::input::{BorrowInput, GenericIterator, Input};
 use crate::py_gc::PyGcTraverse;
 use crate::recursion_guard::RecursionState;
@@ -123,16 +123,47 @@ impl ValidatorIterator {
         } = &mut *slf;
         macro_rules! next {
             ($iter:ident) => {
-                match $iter.next(py)? {
-                    Some((next, index)) => match validator {
-                        Some(validator) => {
-                            if let Some(max_length) = max_length {
-                                if index >= max_length {
+                loop {
+                    break match $iter.next(py)? {
+                        Some((next, index)) => match validator {
+                            Some(validator) => {
+                                if let Some(max_length) = max_length {
+                                    if index >= max_length {
+                                        let val_error = ValError::new_custom_input(
+                                            ErrorType::TooLong {
+                                                field_type: "Generator".to_string(),
+                                                max_length,
+                                                actual_length: None,
+                                                context: None,
+                                            },
+                                            $iter.input_as_error_value(py),
+                                        );
+                                        return Err(ValidationError::from_val_error(
+                                            py,
+                                            "ValidatorIterator".into_pyobject(py)?.into(),
+                                            InputType::Python,
+                                            val_error,
+                                            None,
+                                            hide_input_in_errors,
+                                            validation_error_cause,
+                                        ));
+                                    }
+                                }
+                                match validator.validate(py, next.borrow_input(), Some(index.into())) {
+                                    Err(err) if err.is_instance_of::<PydanticOmit>(py) => continue,
+                                    result => result.map(Some),
+                                }
+                            }
+                            None => Ok(Some(next.into_pyobject(py)?.unbind())),
+                        },
+                        None => {
+                            if let Some(min_length) = min_length {
+                                if $iter.index() < min_length {
                                     let val_error = ValError::new_custom_input(
-                                        ErrorType::TooLong {
+                                        ErrorType::TooShort {
                                             field_type: "Generator".to_string(),
-                                            max_length,
-                                            actual_length: None,
+                                            min_length,
+                                            actual_length: $iter.index(),
                                             context: None,
                                         },
                                         $iter.input_as_error_value(py),
@@ -148,37 +179,9 @@ impl ValidatorIterator {
                                     ));
                                 }
                             }
-                            validator
-                                .validate(py, next.borrow_input(), Some(index.into()))
-                                .map(Some)
+                            Ok(None)
                         }
-                        None => Ok(Some(next.into_pyobject(py)?.unbind())),
-                    },
-                    None => {
-                        if let Some(min_length) = min_length {
-                            if $iter.index() < min_length {
-                                let val_error = ValError::new_custom_input(
-                                    ErrorType::TooShort {
-                                        field_type: "Generator".to_string(),
-                                        min_length,
-                                        actual_length: $iter.index(),
-                                        context: None,
-                                    },
-                                    $iter.input_as_error_value(py),
-                                );
-                                return Err(ValidationError::from_val_error(
-                                    py,
-                                    "ValidatorIterator".into_pyobject(py)?.into(),
-                                    InputType::Python,
-                                    val_error,
-                                    None,
-                                    hide_input_in_errors,
-                                    validation_error_cause,
-                                ));
-                            }
-                        }
-                        Ok(None)
-                    }
+                    };
                 }
             };
         }
@@ -296,21 +299,10 @@ impl InternalValidator {
         state.fields_set_count = self.fields_set_count;
         let result = self
             .validator
-            .validate_assignment(py, model, field_name, field_value, &mut state)
-            .map_err(|e| {
-                ValidationError::from_val_error(
-                    py,
-                    PyString::new(py, &self.name).into(),
-                    InputType::Python,
-                    e,
-                    outer_location,
-                    self.hide_input_in_errors,
-                    self.validation_error_cause,
-                )
-            });
+            .validate_assignment(py, model, field_name, field_value, &mut state);
         self.exactness = state.exactness;
         self.fields_set_count = state.fields_set_count;
-        result
+        result.map_err(|e| self.convert_err(py, e, outer_location))
     }
 
     pub fn validate<'py>(
@@ -334,20 +326,27 @@ impl InternalValidator {
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
         state.fields_set_count = self.fields_set_count;
-        let result = self.validator.validate(py, input, &mut state).map_err(|e| {
-            ValidationError::from_val_error(
+        let result = self.validator.validate(py, input, &mut state);
+        self.exactness = state.exactness;
+        self.fields_set_count = state.fields_set_count;
+        result.map_err(|e| self.convert_err(py, e, outer_location))
+    }
+
+    fn convert_err(&self, py: Python, error: ValError, outer_location: Option<LocItem>) -> PyErr {
+        match error {
+            // these go on to the validators outside of the function (or generator) this is used by
+            ValError::Omit => PydanticOmit::new_err(),
+            ValError::UseDefault => PydanticUseDefault::new_err(),
+            error => ValidationError::from_val_error(
                 py,
                 PyString::new(py, &self.name).into(),
                 InputType::Python,
-                e,
+                error,
                 outer_location,
                 self.hide_input_in_errors,
                 self.validation_error_cause,
-            )
-        });
-        self.exactness = state.exactness;
-        self.fields_set_count = state.fields_set_count;
-        result
+            ),
+        }
     }
 }
 
-- 
2.43.0


From d950362d4610a9879c3bc802821888514b93445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:14 +0000
Subject: [PATCH 31/49] fix: errors of the defaults of arguments and tuple
 items are reported with the others

---
 src/validators/arguments.rs    | 12 ++++++++++--
 src/validators/arguments_v3.rs | 31 ++++++++++++++++++++++---------
 src/validators/tuple.rs        | 10 ++++++----
 3 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/validators/arguments.rs b/src/validators/arguments.rs
index 2ca3ba5..e62684a 100644
--- a/src/validators/arguments.rs
+++ b/src/validators/arguments.rs
@@ -261,10 +261,18 @@ impl Validator for ArgumentsValidator {
                     }
                 }
                 (None, None) => {
-                    if let Some(value) = parameter
+                    let default = match parameter
                         .validator
-                        .default_value(py, Some(parameter.name.as_str()), state)?
+                        .default_value(py, Some(parameter.name.as_str()), state)
                     {
+                        Ok(default) => default,
+                        Err(ValError::LineErrors(line_errors)) => {
+                            errors.extend(line_errors);
+                            continue;
+                        }
+                        Err(err) => return Err(err),
+                    };
+                    if let Some(value) = default {
                         if let Some(ref kwarg_key) = parameter.kwarg_key {
                             output_kwargs.set_item(kwarg_key, value)?;
                         } else {
diff --git a/src/validators/arguments_v3.rs b/src/validators/arguments_v3.rs
index b44267a..fbccd01 100644
--- a/src/validators/arguments_v3.rs
+++ b/src/validators/arguments_v3.rs
@@ -179,9 +179,7 @@ impl BuildValidator for ArgumentsV3Validator {
 
             let is_variadic = matches!(
                 mode,
-                ParameterMode::VarArgs
-                    | ParameterMode::VarKwargsUniform
-                    | ParameterMode::VarKwargsUnpackedTypedDict
+                ParameterMode::VarArgs | ParameterMode::VarKwargsUniform | ParameterMode::VarKwargsUnpackedTypedDict
             );
 
             if had_default_arg && !has_default && !had_keyword_only && !is_variadic {
@@ -407,11 +405,18 @@ impl ArgumentsV3Validator {
                 match parameter.mode {
                     // ... fallback to the default value (and error if no default):
                     ParameterMode::PositionalOnly | ParameterMode::PositionalOrKeyword | ParameterMode::KeywordOnly => {
-                        if let Some(value) =
-                            parameter
-                                .validator
-                                .default_value(py, Some(parameter.name.as_str()), state)?
+                        let default = match parameter
+                            .validator
+                            .default_value(py, Some(parameter.name.as_str()), state)
                         {
+                            Ok(default) => default,
+                            Err(ValError::LineErrors(line_errors)) => {
+                                errors.extend(line_errors);
+                                continue;
+                            }
+                            Err(err) => return Err(err),
+                        };
+                        if let Some(value) = default {
                             if matches!(
                                 parameter.mode,
                                 ParameterMode::PositionalOnly | ParameterMode::PositionalOrKeyword
@@ -607,10 +612,18 @@ impl ArgumentsV3Validator {
                     }
                 }
                 (None, None) => {
-                    if let Some(value) = parameter
+                    let default = match parameter
                         .validator
-                        .default_value(py, Some(parameter.name.as_str()), state)?
+                        .default_value(py, Some(parameter.name.as_str()), state)
                     {
+                        Ok(default) => default,
+                        Err(ValError::LineErrors(line_errors)) => {
+                            errors.extend(line_errors);
+                            continue;
+                        }
+                        Err(err) => return Err(err),
+                    };
+                    if let Some(value) = default {
                         if parameter.mode == ParameterMode::PositionalOnly {
                             output_args.push(value);
                         } else {
diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index 18e87cb..a708bce 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -87,10 +87,12 @@ impl TupleValidator {
                 },
                 None => {
                     let index = collection_iter.next_calls() - 1;
-                    if let Some(value) = validator.default_value(py, Some(index), state)? {
-                        output.push(value);
-                    } else {
-                        errors.push(ValLineError::new_with_loc(ErrorTypeDefaults::Missing, input, index));
+                    match validator.default_value(py, Some(index), state) {
+                        Ok(Some(value)) => output.push(value),
+                        Ok(None) => errors.push(ValLineError::new_with_loc(ErrorTypeDefaults::Missing, input, index)),
+                        Err(ValError::LineErrors(line_errors)) => errors.extend(line_errors),
+                        Err(ValError::Omit) => (),
+                        Err(err) => return Err(err),
                     }
                 }
             }
-- 
2.43.0


From ff2fae729cc9305e2150ec8698afc7f76b32aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:14 +0000
Subject: [PATCH 32/49] fix: info.field_name names the field for defaults and
 arguments-v3

---
 src/validators/arguments_v3.rs | 6 ++++++
 src/validators/dataclass.rs    | 2 ++
 src/validators/model_fields.rs | 2 ++
 src/validators/typed_dict.rs   | 2 ++
 4 files changed, 12 insertions(+)

diff --git a/src/validators/arguments_v3.rs b/src/validators/arguments_v3.rs
index fbccd01..0060ab9 100644
--- a/src/validators/arguments_v3.rs
+++ b/src/validators/arguments_v3.rs
@@ -255,6 +255,9 @@ impl ArgumentsV3Validator {
         };
 
         for parameter in &self.parameters {
+            let state =
+                &mut state.rebind_extra(|extra| extra.field_name = Some(PyString::new(py, parameter.name.as_str())));
+
             let lookup_key = parameter
                 .lookup_key_collection
                 .select(validate_by_alias, validate_by_name)?;
@@ -554,6 +557,9 @@ impl ArgumentsV3Validator {
 
         // go through non variadic parameters, getting the value from args or kwargs and validating it
         for (index, parameter) in self.parameters.iter().filter(|p| !p.is_variadic()).enumerate() {
+            let state =
+                &mut state.rebind_extra(|extra| extra.field_name = Some(PyString::new(py, parameter.name.as_str())));
+
             let lookup_key = parameter
                 .lookup_key_collection
                 .select(validate_by_alias, validate_by_name)?;
diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index 9c9518e..c6b8254 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -181,6 +181,8 @@ impl Validator for DataclassArgsValidator {
         // go through fields getting the value from args or kwargs and validating it
         for field in &self.fields {
             if !field.init {
+                let state = &mut state.rebind_extra(|extra| extra.field_name = Some(field.name_py.bind(py).clone()));
+
                 match field.validator.default_value(py, Some(field.name.as_str()), state) {
                     Ok(Some(value)) => {
                         // Default value exists, and passed validation if required
diff --git a/src/validators/model_fields.rs b/src/validators/model_fields.rs
index 9a14d1a..dc00ca3 100644
--- a/src/validators/model_fields.rs
+++ b/src/validators/model_fields.rs
@@ -218,6 +218,8 @@ impl Validator for ModelFieldsValidator {
                     continue;
                 }
 
+                let state = &mut state.rebind_extra(|extra| extra.field_name = Some(field.name_py.bind(py).clone()));
+
                 match field.validator.default_value(py, Some(field.name.as_str()), state) {
                     Ok(Some(value)) => {
                         // Default value exists, and passed validation if required
diff --git a/src/validators/typed_dict.rs b/src/validators/typed_dict.rs
index 1c92d28..4769a11 100644
--- a/src/validators/typed_dict.rs
+++ b/src/validators/typed_dict.rs
@@ -239,6 +239,8 @@ impl Validator for TypedDictValidator {
                     continue;
                 }
 
+                let state = &mut state.rebind_extra(|extra| extra.field_name = Some(field.name_py.bind(py).clone()));
+
                 match field.validator.default_value(py, Some(field.name.as_str()), state) {
                     Ok(Some(value)) => {
                         // Default value exists, and passed validation if required
-- 
2.43.0


From c27c91d8995b55cda03b83f1aa81694f20e47892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:36 +0000
Subject: [PATCH 33/49] fix: a field left out by include is not missing when
 serializing a union

---
 src/serializers/fields.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index 4b19359..28c3531 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -206,6 +206,9 @@ impl GeneralFieldsSerializer {
                     )
                     .to_py_err());
                 }
+            } else if op_field.is_some_and(|field| field.required) {
+                // left out by `include` or `exclude`, but not missing
+                used_req_fields += 1;
             }
         }
 
-- 
2.43.0


From e584e895b00d3575be2c0ae50bd2a15233b7feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:36 +0000
Subject: [PATCH 34/49] fix: instances of subclasses in dicts, sets and typed
 dicts within a union

---
 src/serializers/fields.rs                         | 8 ++++++++
 src/serializers/type_serializers/dict.rs          | 4 ++++
 src/serializers/type_serializers/json.rs          | 4 ++++
 src/serializers/type_serializers/set_frozenset.rs | 4 ++++
 4 files changed, 20 insertions(+)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index 28c3531..60e2600 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -493,6 +493,14 @@ impl TypeSerializer for GeneralFieldsSerializer {
     fn get_name(&self) -> &'static str {
         "general-fields"
     }
+
+    fn retry_with_lax_check(&self) -> bool {
+        self.fields
+            .values()
+            .filter_map(|field| field.serializer.as_ref())
+            .chain(self.extra_serializer.as_deref())
+            .any(CombinedSerializer::retry_with_lax_check)
+    }
 }
 
 fn key_str<'a>(key: &'a Bound<'_, PyAny>) -> PyResult<&'a str> {
diff --git a/src/serializers/type_serializers/dict.rs b/src/serializers/type_serializers/dict.rs
index 448e508..6f98318 100644
--- a/src/serializers/type_serializers/dict.rs
+++ b/src/serializers/type_serializers/dict.rs
@@ -150,4 +150,8 @@ impl TypeSerializer for DictSerializer {
     fn get_name(&self) -> &str {
         &self.name
     }
+
+    fn retry_with_lax_check(&self) -> bool {
+        self.key_serializer.retry_with_lax_check() || self.value_serializer.retry_with_lax_check()
+    }
 }
diff --git a/src/serializers/type_serializers/json.rs b/src/serializers/type_serializers/json.rs
index 6b8b429..a62d0de 100644
--- a/src/serializers/type_serializers/json.rs
+++ b/src/serializers/type_serializers/json.rs
@@ -98,4 +98,8 @@ impl TypeSerializer for JsonSerializer {
     fn get_name(&self) -> &str {
         Self::EXPECTED_TYPE
     }
+
+    fn retry_with_lax_check(&self) -> bool {
+        self.serializer.retry_with_lax_check()
+    }
 }
diff --git a/src/serializers/type_serializers/set_frozenset.rs b/src/serializers/type_serializers/set_frozenset.rs
index 08f54c8..885b0bb 100644
--- a/src/serializers/type_serializers/set_frozenset.rs
+++ b/src/serializers/type_serializers/set_frozenset.rs
@@ -112,6 +112,10 @@ macro_rules! build_serializer {
             fn get_name(&self) -> &str {
                 &self.name
             }
+
+            fn retry_with_lax_check(&self) -> bool {
+                self.item_serializer.retry_with_lax_check()
+            }
         }
     };
 }
-- 
2.43.0


From 296313dd40d0af00f906af8adf7fb9741e301b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:36 +0000
Subject: [PATCH 35/49] fix: a root model in a union serializes its own
 instances only

---
 src/serializers/type_serializers/model.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serializers/type_serializers/model.rs b/src/serializers/type_serializers/model.rs
index 4bae243..2852fea 100644
--- a/src/serializers/type_serializers/model.rs
+++ b/src/serializers/type_serializers/model.rs
@@ -182,6 +182,10 @@ impl TypeSerializer for ModelSerializer {
             return infer_to_python(value, include, exclude, &model_extra);
         }
         if self.root_model {
+            if model_extra.check.enabled() && !self.allow_value(value, &model_extra)? {
+                // in a union, this may be an instance of another class with a `root` attribute
+                return Err(PydanticSerializationUnexpectedValue::new_from_msg(None).to_py_err());
+            }
             let field_name = Some(ROOT_FIELD);
             let root_extra = Extra {
                 field_name,
-- 
2.43.0


From ac004acb3b7eb2e3b218578f45a1c4f2b926a5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:36 +0000
Subject: [PATCH 36/49] fix: timedelta serializer checks the type in Python
 mode as well

---
 src/serializers/type_serializers/timedelta.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/serializers/type_serializers/timedelta.rs b/src/serializers/type_serializers/timedelta.rs
index f1fb99d..b08462d 100644
--- a/src/serializers/type_serializers/timedelta.rs
+++ b/src/serializers/type_serializers/timedelta.rs
@@ -40,15 +40,15 @@ impl TypeSerializer for TimeDeltaSerializer {
         exclude: Option<&Bound<'_, PyAny>>,
         extra: &Extra,
     ) -> PyResult<PyObject> {
-        match extra.mode {
-            SerMode::Json => match EitherTimedelta::try_from(value) {
-                Ok(either_timedelta) => self.timedelta_mode.either_delta_to_json(value.py(), either_timedelta),
-                Err(_) => {
-                    extra.warnings.on_fallback_py(self.get_name(), value, extra)?;
-                    infer_to_python(value, include, exclude, extra)
-                }
+        match EitherTimedelta::try_from(value) {
+            Ok(either_timedelta) => match extra.mode {
+                SerMode::Json => self.timedelta_mode.either_delta_to_json(value.py(), either_timedelta),
+                _ => Ok(value.clone().unbind()),
             },
-            _ => infer_to_python(value, include, exclude, extra),
+            Err(_) => {
+                extra.warnings.on_fallback_py(self.get_name(), value, extra)?;
+                infer_to_python(value, include, exclude, extra)
+            }
         }
     }
 
-- 
2.43.0


From fad82bc163d63432c2b30c31dac950866d33c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:36 +0000
Subject: [PATCH 37/49] fix: int and float keys in a union are matched strictly
 first

---
 src/serializers/type_serializers/float.rs  | 6 +++++-
 src/serializers/type_serializers/simple.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/serializers/type_serializers/float.rs b/src/serializers/type_serializers/float.rs
index 4153981..10cb394 100644
--- a/src/serializers/type_serializers/float.rs
+++ b/src/serializers/type_serializers/float.rs
@@ -90,7 +90,11 @@ impl TypeSerializer for FloatSerializer {
 
     fn json_key<'a>(&self, key: &'a Bound<'_, PyAny>, extra: &Extra) -> PyResult<Cow<'a, str>> {
         match extra.ob_type_lookup.is_type(key, ObType::Float) {
-            IsType::Exact | IsType::Subclass => to_str_json_key(key),
+            IsType::Exact => to_str_json_key(key),
+            IsType::Subclass => match extra.check {
+                SerCheck::Strict => Err(PydanticSerializationUnexpectedValue::new_from_msg(None).to_py_err()),
+                SerCheck::Lax | SerCheck::None => to_str_json_key(key),
+            },
             IsType::False => {
                 extra.warnings.on_fallback_py(self.get_name(), key, extra)?;
                 infer_json_key(key, extra)
diff --git a/src/serializers/type_serializers/simple.rs b/src/serializers/type_serializers/simple.rs
index 41d69ce..fc4f570 100644
--- a/src/serializers/type_serializers/simple.rs
+++ b/src/serializers/type_serializers/simple.rs
@@ -138,7 +138,11 @@ macro_rules! build_simple_serializer {
 
             fn json_key<'a>(&self, key: &'a Bound<'_, PyAny>, extra: &Extra) -> PyResult<Cow<'a, str>> {
                 match extra.ob_type_lookup.is_type(key, $ob_type) {
-                    IsType::Exact | IsType::Subclass => $key_method(key),
+                    IsType::Exact => $key_method(key),
+                    IsType::Subclass => match extra.check {
+                        SerCheck::Strict => Err(PydanticSerializationUnexpectedValue::new_from_msg(None).to_py_err()),
+                        SerCheck::Lax | SerCheck::None => $key_method(key),
+                    },
                     IsType::False => {
                         extra.warnings.on_fallback_py(self.get_name(), key, extra)?;
                         infer_json_key(key, extra)
-- 
2.43.0


From da200d5724cb734227cb6ae0f369a73ab52dc435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:00 +0000
Subject: [PATCH 38/49] fix: assignment to a dataclass field keeps attributes
 which are not fields

---
 src/validators/dataclass.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index c6b8254..3cd72fb 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -616,7 +616,13 @@ impl Validator for DataclassValidator {
                 .ok_or_else(|| PyKeyError::new_err(field_name.to_string()))?;
             force_setattr(py, obj, field_name, value)?;
         } else {
-            force_setattr(py, obj, intern!(py, "__dict__"), dc_dict)?;
+            // keep attributes which are not fields
+            let attrs = obj
+                .getattr(intern!(py, "__dict__"))?
+                .downcast_into::<PyDict>()?
+                .copy()?;
+            attrs.update(dc_dict.as_mapping())?;
+            force_setattr(py, obj, intern!(py, "__dict__"), attrs)?;
         }
 
         Ok(obj.clone().unbind())
-- 
2.43.0


From 5a2c91a2f9b5ab0ba5fc0b7482cd83c0a145086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:00 +0000
Subject: [PATCH 39/49] fix: a revalidated instance has a copy of the fields
 set

---
 src/validators/model.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/validators/model.rs b/src/validators/model.rs
index f2c3658..aafa70d 100644
--- a/src/validators/model.rs
+++ b/src/validators/model.rs
@@ -153,7 +153,10 @@ impl Validator for ModelValidator {
 
         if let Some(py_input) = py_instance_input {
             if self.revalidate.should_revalidate(py_input, class) || force_revalidate {
-                let fields_set = py_input.getattr(intern!(py, DUNDER_FIELDS_SET_KEY))?;
+                // a copy, so that the new instance does not share it with the input
+                let fields_set = py_input
+                    .getattr(intern!(py, DUNDER_FIELDS_SET_KEY))?
+                    .call_method0(intern!(py, "copy"))?;
                 if self.root_model {
                     let inner_input = py_input.getattr(intern!(py, ROOT_FIELD))?;
                     self.validate_construct(py, &inner_input, Some(&fields_set), state)
@@ -282,7 +285,7 @@ impl ModelValidator {
         &self,
         py: Python<'py>,
         input: &(impl Input<'py> + ?Sized),
-        existing_fields_set: Option<&Bound<'_, PyAny>>,
+        existing_fields_set: Option<&Bound<'py, PyAny>>,
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         if self.custom_init {
@@ -305,10 +308,12 @@ impl ModelValidator {
             let state = &mut state.rebind_extra(|extra| extra.field_name = Some(PyString::new(py, ROOT_FIELD)));
             let output = self.validator.validate(py, input, state)?;
 
-            let fields_set = if input.as_python().is_some_and(|py_input| py_input.is(&self.undefined)) {
-                PySet::empty(py)?
+            let fields_set = if let Some(fields_set) = existing_fields_set {
+                fields_set.clone()
+            } else if input.as_python().is_some_and(|py_input| py_input.is(&self.undefined)) {
+                PySet::empty(py)?.into_any()
             } else {
-                PySet::new(py, [&String::from(ROOT_FIELD)])?
+                PySet::new(py, [&String::from(ROOT_FIELD)])?.into_any()
             };
             force_setattr(py, &instance, intern!(py, DUNDER_FIELDS_SET_KEY), &fields_set)?;
             force_setattr(py, &instance, intern!(py, ROOT_FIELD), output)?;
-- 
2.43.0


From 1068081d8905233f9ae11bdafb961549594fb054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:01 +0000
Subject: [PATCH 40/49] fix: assignment does not turn other attributes of a
 model into extras

---
 src/validators/model.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/validators/model.rs b/src/validators/model.rs
index aafa70d..4578cb3 100644
--- a/src/validators/model.rs
+++ b/src/validators/model.rs
@@ -215,7 +215,9 @@ impl Validator for ModelValidator {
         let old_dict = model.getattr(intern!(py, DUNDER_DICT))?.downcast_into::<PyDict>()?;
 
         let input_dict = old_dict.copy()?;
-        if let Ok(old_extra) = model.getattr(intern!(py, DUNDER_MODEL_EXTRA_KEY))?.downcast::<PyDict>() {
+        let old_extra = model.getattr(intern!(py, DUNDER_MODEL_EXTRA_KEY))?;
+        let old_extra = old_extra.downcast::<PyDict>().ok();
+        if let Some(old_extra) = old_extra {
             input_dict.update(old_extra.as_mapping())?;
         }
         input_dict.set_item(field_name, field_value)?;
@@ -230,6 +232,18 @@ impl Validator for ModelValidator {
             Bound<'_, PySet>,
         ) = output.extract(py)?;
 
+        if let (Ok(new_extra), Some(old_extra)) = (validated_extra.downcast::<PyDict>(), old_extra) {
+            // attributes which are neither fields nor extras (e.g. cached properties) stay what they are
+            for (key, value) in old_dict.iter() {
+                if !validated_dict.contains(&key)? && !old_extra.contains(&key)? && !key.eq(field_name)? {
+                    if new_extra.contains(&key)? {
+                        new_extra.del_item(&key)?;
+                    }
+                    validated_dict.set_item(key, value)?;
+                }
+            }
+        }
+
         if let Ok(fields_set) = model.getattr(intern!(py, DUNDER_FIELDS_SET_KEY)) {
             let fields_set = fields_set.downcast::<PySet>()?;
             for field_name in validated_fields_set {
-- 
2.43.0


From ba9e7986084001f2dc3c877aa6b4e248c459fc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:59 +0000
Subject: [PATCH 41/49] fix: include and exclude apply where a serializer
 function is not used

---
 src/serializers/type_serializers/function.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serializers/type_serializers/function.rs b/src/serializers/type_serializers/function.rs
index 3c66583..51f59a4 100644
--- a/src/serializers/type_serializers/function.rs
+++ b/src/serializers/type_serializers/function.rs
@@ -222,9 +222,10 @@ macro_rules! function_type_serializer {
                 match self.call(value, include, exclude, extra) {
                     // None for include/exclude here, as filtering should be done
                     Ok((true, v)) => self.return_serializer.to_python(v.bind(py), None, None, extra),
+                    // the function was not called, the filtering is still to be done
                     Ok((false, v)) => self
                         .get_fallback_serializer()
-                        .to_python(v.bind(py), None, None, extra),
+                        .to_python(v.bind(py), include, exclude, extra),
                     Err(err) => {
                         on_error(py, err, &self.function_name, extra)?;
                         infer_to_python(value, include, exclude, extra)
@@ -264,9 +265,10 @@ macro_rules! function_type_serializer {
                     Ok((true, v)) => self
                         .return_serializer
                         .serde_serialize(v.bind(py), serializer, None, None, extra),
+                    // the function was not called, the filtering is still to be done
                     Ok((false, v)) => {
                         self.get_fallback_serializer()
-                            .serde_serialize(v.bind(py), serializer, None, None, extra)
+                            .serde_serialize(v.bind(py), serializer, include, exclude, extra)
                     }
                     Err(err) => {
                         on_error(py, err, &self.function_name, extra).map_err(py_err_se_err)?;
-- 
2.43.0


From 1d2a9581728eef222b0cb39720b7abb319933eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:59 +0000
Subject: [PATCH 42/49] fix: each serialization warning is reported once

---
 src/serializers/extra.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serializers/extra.rs b/src/serializers/extra.rs
index 82c4323..00bbf19 100644
--- a/src/serializers/extra.rs
+++ b/src/serializers/extra.rs
@@ -251,7 +251,8 @@ impl ExtraOwned {
     pub fn new(extra: &Extra) -> Self {
         Self {
             mode: extra.mode.clone(),
-            warnings: extra.warnings.clone(),
+            // not those collected so far, which are reported with the rest of `extra.warnings`
+            warnings: CollectWarnings::new(extra.warnings.mode),
             by_alias: extra.by_alias,
             exclude_unset: extra.exclude_unset,
             exclude_defaults: extra.exclude_defaults,
@@ -458,7 +459,8 @@ impl CollectWarnings {
         if self.mode == WarningsMode::None {
             return Ok(());
         }
-        let warnings = self.warnings.lock().expect("lock poisoned");
+        // each warning is reported once, `final_check` may be called again after further values
+        let warnings = std::mem::take(&mut *self.warnings.lock().expect("lock poisoned"));
 
         if warnings.is_empty() {
             return Ok(());
-- 
2.43.0


From fd276075957842aef71c6532b845639c715dc4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:01 +0000
Subject: [PATCH 43/49] fix: a computed field is evaluated once in JSON

---
 src/serializers/computed_fields.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/serializers/computed_fields.rs b/src/serializers/computed_fields.rs
index 3bf79c2..8e46f4a 100644
--- a/src/serializers/computed_fields.rs
+++ b/src/serializers/computed_fields.rs
@@ -92,7 +92,7 @@ impl ComputedFields {
                     ..*extra
                 };
                 let cfs = ComputedFieldSerializer {
-                    model,
+                    value: &value,
                     computed_field,
                     include: next_include.as_ref(),
                     exclude: next_exclude.as_ref(),
@@ -176,7 +176,7 @@ impl ComputedField {
 }
 
 pub(crate) struct ComputedFieldSerializer<'py> {
-    model: &'py Bound<'py, PyAny>,
+    value: &'py Bound<'py, PyAny>,
     computed_field: &'py ComputedField,
     include: Option<&'py Bound<'py, PyAny>>,
     exclude: Option<&'py Bound<'py, PyAny>>,
@@ -195,11 +195,8 @@ impl_py_gc_traverse!(ComputedFieldSerializer<'_> { computed_field });
 
 impl Serialize for ComputedFieldSerializer<'_> {
     fn serialize<S: serde::ser::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let py = self.model.py();
-        let property_name_py = self.computed_field.property_name_py.bind(py);
-        let next_value = self.model.getattr(property_name_py).map_err(py_err_se_err)?;
         let s = PydanticSerializer::new(
-            &next_value,
+            self.value,
             &self.computed_field.serializer,
             self.include,
             self.exclude,
-- 
2.43.0


From 370b5a63bea406c851e28476b61a37c0f9f27473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:27 +0000
Subject: [PATCH 44/49] fix: an exceeded recursion depth is released

Validation can go on after it, with another choice of a union or a default,
so a leaked object id and depth made later valid input a recursion error.
---
 src/recursion_guard.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/recursion_guard.rs b/src/recursion_guard.rs
index b1f07ed..07aa519 100644
--- a/src/recursion_guard.rs
+++ b/src/recursion_guard.rs
@@ -35,6 +35,8 @@ impl<S: ContainsRecursionState> RecursionGuard<'_, S> {
                 return Err(RecursionError::Cyclic);
             }
             if state.incr_depth() {
+                // there is no guard to release these, and validation might go on (e.g. with another union choice)
+                state.remove(obj_id, node_id);
                 return Err(RecursionError::Depth);
             }
             Ok(())
@@ -101,10 +103,12 @@ impl RecursionState {
         {
             debug_assert!(RECURSION_GUARD_LIMIT < 255);
         }
-        // use saturating_add as it's faster (since there's no error path)
-        // and the RECURSION_GUARD_LIMIT check will be hit before it overflows
-        self.depth = self.depth.saturating_add(1);
-        self.depth > RECURSION_GUARD_LIMIT
+        if self.depth < RECURSION_GUARD_LIMIT {
+            self.depth += 1;
+            false
+        } else {
+            true
+        }
     }
 
     #[must_use]
@@ -121,7 +125,7 @@ impl RecursionState {
     }
 
     pub fn decr_depth(&mut self) {
-        // for the same reason as incr_depth, use saturating_sub
+        // use saturating_sub as it's faster (since there's no error path)
         self.depth = self.depth.saturating_sub(1);
     }
 
-- 
2.43.0


From 3a63fc0bd76e5761e4ed9a25fc18f150692a8b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:14 +0000
Subject: [PATCH 45/49] fix: cyclic input of validate_strings is a recursion
 error

The recursion guard only knew the objects of Python input, so that a cyclic
mapping overflowed the stack.
---
 src/input/input_abstract.rs   | 5 +++++
 src/input/input_string.rs     | 7 +++++++
 src/validators/definitions.rs | 2 +-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/input/input_abstract.rs b/src/input/input_abstract.rs
index 119c862..60ec215 100644
--- a/src/input/input_abstract.rs
+++ b/src/input/input_abstract.rs
@@ -73,6 +73,11 @@ pub trait Input<'py>: fmt::Debug {
         None
     }
 
+    /// Identity of the Python object behind this input, if there is one which could be cyclic
+    fn identity(&self) -> Option<usize> {
+        self.as_python().map(|any| any.as_ptr() as usize)
+    }
+
     fn as_kwargs(&self, py: Python<'py>) -> Option<Bound<'py, PyDict>>;
 
     type Arguments<'a>: Arguments<'py>
diff --git a/src/input/input_string.rs b/src/input/input_string.rs
index 0ab4ad0..8c89466 100644
--- a/src/input/input_string.rs
+++ b/src/input/input_string.rs
@@ -75,6 +75,13 @@ impl<'py> Input<'py> for StringMapping<'py> {
         }
     }
 
+    fn identity(&self) -> Option<usize> {
+        match self {
+            Self::String(s) => Some(s.as_ptr() as usize),
+            Self::Mapping(d) => Some(d.as_ptr() as usize),
+        }
+    }
+
     fn as_kwargs(&self, _py: Python<'py>) -> Option<Bound<'py, PyDict>> {
         None
     }
diff --git a/src/validators/definitions.rs b/src/validators/definitions.rs
index aeeb627..eaadcdf 100644
--- a/src/validators/definitions.rs
+++ b/src/validators/definitions.rs
@@ -80,7 +80,7 @@ impl Validator for DefinitionRefValidator {
 
         self.definition.read(|validator| {
             let validator = validator.unwrap();
-            if let Some(id) = input.as_python().map(py_identity) {
+            if let Some(id) = input.identity() {
                 // Python objects can be cyclic, so need recursion guard
                 let Ok(mut guard) = RecursionGuard::new(state, id, self.definition.id()) else {
                     return Err(ValError::new(ErrorTypeDefaults::RecursionLoop, input));
-- 
2.43.0


From 1f0985310ce66ecb67a90835c9a07abeec848db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:30 +0000
Subject: [PATCH 46/49] fix: unicode_string decodes the host of a URL which has
 user information

---
 src/url.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/url.rs b/src/url.rs
index da63be5..d2d0023 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -9,7 +9,7 @@ use pyo3::pyclass::CompareOp;
 use pyo3::sync::GILOnceCell;
 use pyo3::types::{PyDict, PyType};
 use pyo3::{intern, prelude::*, IntoPyObjectExt};
-use url::Url;
+use url::{Position, Url};
 
 use crate::tools::SchemaDict;
 use crate::SchemaValidator;
@@ -484,7 +484,7 @@ fn unicode_url(lib_url: &Url) -> String {
         Some(url::Host::Domain(domain)) if is_punnycode_domain(lib_url, domain) => {
             if let Some(decoded) = decode_punycode(domain) {
                 // replace the range containing the punycode domain with the decoded domain
-                let start = lib_url.scheme().len() + 3;
+                let start = lib_url[..Position::BeforeHost].len();
                 s.replace_range(start..start + domain.len(), &decoded);
             }
             s
-- 
2.43.0


From d9ac053d81d15b7516ed61c82b23dfb36496218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:43 +0000
Subject: [PATCH 47/49] fix: a Url with several hosts is a MultiHostUrl with
 these hosts

---
 src/validators/url.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/validators/url.rs b/src/validators/url.rs
index d220d60..1b4cb63 100644
--- a/src/validators/url.rs
+++ b/src/validators/url.rs
@@ -293,11 +293,11 @@ impl MultiHostUrlValidator {
                     self.check_length(input, || multi_url.get().__str__().len())?;
                     Ok(EitherMultiHostUrl::Py(multi_url.clone()))
                 } else if let Some(py_url) = downcast_python_input::<PyUrl>(input) {
-                    self.check_length(input, || py_url.get().url().as_str().len())?;
-                    Ok(EitherMultiHostUrl::Rust(PyMultiHostUrl::new(
-                        py_url.get().url().clone(),
-                        None,
-                    )))
+                    let url_str = py_url.get().url().as_str();
+                    self.check_length(input, || url_str.len())?;
+
+                    // the host may contain commas, so the URL has to be parsed again
+                    parse_multihost_url(url_str, input, strict).map(EitherMultiHostUrl::Rust)
                 } else {
                     Err(ValError::new(ErrorTypeDefaults::UrlType, input))
                 }
-- 
2.43.0


From e17460864acc8c36495753ca4711196ed6f0ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:41 +0000
Subject: [PATCH 48/49] fix: the last host of a multi-host URL is not empty

---
 src/validators/url.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/validators/url.rs b/src/validators/url.rs
index 1b4cb63..e0f347a 100644
--- a/src/validators/url.rs
+++ b/src/validators/url.rs
@@ -451,6 +451,14 @@ fn parse_multihost_url<'py>(
             _ => (),
         }
     }
+    // like the hosts before it, the last one cannot be empty: its path would be taken for a host
+    let after = &url_str[start..];
+    if !hosts.is_empty()
+        && (after.starts_with(['/', '?', '#']) || (after.starts_with('\\') && schema_is_special(&schema)))
+    {
+        return parsing_err!(ParseError::EmptyHost);
+    }
+
     // with just one host, for consistent behaviour, we parse the URL the same as with multiple hosts
 
     let reconstructed_url = format!("{prefix}{}", &url_str[start..]);
-- 
2.43.0


From 484e18bd5895baeb3d9a3ee0a459c3f391cc8567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:52 +0000
Subject: [PATCH 49/49] fix: the maximum length of a URL counts characters

---
 src/validators/url.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/validators/url.rs b/src/validators/url.rs
index e0f347a..1168bc1 100644
--- a/src/validators/url.rs
+++ b/src/validators/url.rs
@@ -137,7 +137,7 @@ impl UrlValidator {
 
     fn check_length<'py>(&self, input: &(impl Input<'py> + ?Sized), url_str: &str) -> ValResult<()> {
         if let Some(max_length) = self.max_length {
-            if url_str.len() > max_length {
+            if url_str.chars().count() > max_length {
                 return Err(ValError::new(
                     ErrorType::UrlTooLong {
                         max_length,
@@ -282,7 +282,7 @@ impl MultiHostUrlValidator {
                 let cow = either_str.as_cow()?;
                 let url_str = cow.as_ref();
 
-                self.check_length(input, || url_str.len())?;
+                self.check_length(input, || url_str.chars().count())?;
 
                 parse_multihost_url(url_str, input, strict).map(EitherMultiHostUrl::Rust)
             }
@@ -290,11 +290,11 @@ impl MultiHostUrlValidator {
                 // we don't need to worry about whether the url was parsed in strict mode before,
                 // even if it was, any syntax errors would have been fixed by the first validation
                 if let Some(multi_url) = downcast_python_input::<PyMultiHostUrl>(input) {
-                    self.check_length(input, || multi_url.get().__str__().len())?;
+                    self.check_length(input, || multi_url.get().__str__().chars().count())?;
                     Ok(EitherMultiHostUrl::Py(multi_url.clone()))
                 } else if let Some(py_url) = downcast_python_input::<PyUrl>(input) {
                     let url_str = py_url.get().url().as_str();
-                    self.check_length(input, || url_str.len())?;
+                    self.check_length(input, || url_str.chars().count())?;
 
                     // the host may contain commas, so the URL has to be parsed again
                     parse_multihost_url(url_str, input, strict).map(EitherMultiHostUrl::Rust)
-- 
2.43.0

