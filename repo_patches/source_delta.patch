From 37a33a04c2f29a47e391152c3778f87b185954ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 01/32] fix: reject an alarm without ACTION instead of
 panicking

The last ACTION wins, as for every other single-valued property.
---
 src/components/valarm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 8f593b8..5d0e281 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -12,7 +12,10 @@ impl TryFrom<Vec<crate::ContentLine>> for VAlarm {
     type Error = crate::Error;
 
     fn try_from(properties: Vec<crate::ContentLine>) -> crate::Result<Self> {
-        let action = properties.iter().find(|x| x.key == "ACTION").unwrap();
+        let action = properties
+            .iter()
+            .rfind(|x| x.key == "ACTION")
+            .ok_or_else(|| crate::Error::Parser("Missing field ACTION".to_string()))?;
 
         let component = match action.value.as_str() {
             "AUDIO" => Self::Audio(Audio::try_from(properties)?),
-- 
2.43.0


From d9d1dce28f8d345417d14578377ddaf9f4f5c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 02/32] fix: reject a recurrence rule without FREQ instead of
 panicking

---
 src/parser/recurrence.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/recurrence.rs b/src/parser/recurrence.rs
index 9a3d6d3..855eb40 100644
--- a/src/parser/recurrence.rs
+++ b/src/parser/recurrence.rs
@@ -86,7 +86,10 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
                 .collect::<std::collections::BTreeMap<_, _>>();
 
             let recur = crate::Recur {
-                freq: map["FREQ"].parse()?,
+                freq: map
+                    .get("FREQ")
+                    .ok_or_else(|| crate::Error::Parser("Missing FREQ".to_string()))?
+                    .parse()?,
                 until: map
                     .get("UNTIL")
                     .map(|x| {
-- 
2.43.0


From b27f73bc8b1e93054a4b11e8c2a8c97e221fb4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 03/32] fix: reject a period without '/' instead of panicking

---
 src/parser/datatype.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index f80c8a0..fbc2215 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -156,19 +156,21 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
  * See [3.3.9. Period of Time](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.9)
  */
 pub(crate) fn period(input: &str) -> crate::Result<crate::Period> {
-    let tokens = input.splitn(2, '/').collect::<Vec<_>>();
+    let (start, end) = input
+        .split_once('/')
+        .ok_or_else(|| crate::Error::Parser(format!("Invalid period: {input}")))?;
 
-    let start = date_time(tokens[0])?.1;
+    let start = date_time(start)?.1;
 
-    let period = if tokens[1].starts_with('P') {
+    let period = if end.starts_with(['P', '+', '-']) {
         crate::Period::StartDur(crate::period::StartDur {
             start,
-            duration: super::duration(tokens[1].into())?,
+            duration: super::duration(end.into())?,
         })
     } else {
         crate::Period::StartEnd(crate::period::StartEnd {
             start,
-            end: date_time(tokens[1])?.1,
+            end: date_time(end)?.1,
         })
     };
 
-- 
2.43.0


From 6c84efc5d0d6ee5e91740becb8e90120609eb0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 04/32] fix: report a duration out of range instead of
 panicking

---
 src/lib.rs             | 21 ++++++++++++++-------
 src/parser/datatype.rs | 29 +++++++++++++++++------------
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ea8db47..92a1a24 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -156,13 +156,18 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
             break;
         };
 
+        let out_of_range =
+            || crate::Error::ParseDuration(format!("Duration out of range: {value}"));
+
+        let n = interval.parse::<i64>()?;
+
         let part = match (time, ty) {
-            (false, 'Y') => chrono::TimeDelta::days(365 * interval.parse::<i64>()?),
-            (false, 'M') => chrono::TimeDelta::days(30 * interval.parse::<i64>()?),
-            (false, 'D') => chrono::TimeDelta::days(interval.parse()?),
-            (true, 'H') => chrono::TimeDelta::hours(interval.parse()?),
-            (true, 'M') => chrono::TimeDelta::minutes(interval.parse()?),
-            (true, 'S') => chrono::TimeDelta::seconds(interval.parse()?),
+            (false, 'Y') => n.checked_mul(365).and_then(chrono::TimeDelta::try_days),
+            (false, 'M') => n.checked_mul(30).and_then(chrono::TimeDelta::try_days),
+            (false, 'D') => chrono::TimeDelta::try_days(n),
+            (true, 'H') => chrono::TimeDelta::try_hours(n),
+            (true, 'M') => chrono::TimeDelta::try_minutes(n),
+            (true, 'S') => chrono::TimeDelta::try_seconds(n),
             _ => {
                 return Err(crate::Error::ParseDuration(format!(
                     "Invalid duration: {interval}"
@@ -170,7 +175,9 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
             }
         };
 
-        duration += part;
+        duration = part
+            .and_then(|x| duration.checked_add(&x))
+            .ok_or_else(out_of_range)?;
     }
 
     if negative {
diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index fbc2215..80d59d4 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -129,23 +129,28 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
 
     context(
         "duration",
-        map(
+        map_res(
             pair(
                 opt(tag("-")),
                 preceded(tag("P"), (opt(week), opt(day), opt(time))),
             ),
             |(neg, (w, d, t))| {
-                let mut duration = chrono::Duration::weeks(w.unwrap_or_default())
-                    + chrono::Duration::days(d.unwrap_or_default());
-
-                if let Some((h, i, s)) = t {
-                    duration = duration
-                        + chrono::Duration::hours(h)
-                        + chrono::Duration::minutes(i)
-                        + chrono::Duration::seconds(s);
-                }
-
-                if neg.is_some() { -duration } else { duration }
+                let (h, i, s) = t.unwrap_or_default();
+
+                let duration = [
+                    chrono::Duration::try_weeks(w.unwrap_or_default()),
+                    chrono::Duration::try_days(d.unwrap_or_default()),
+                    chrono::Duration::try_hours(h),
+                    chrono::Duration::try_minutes(i),
+                    chrono::Duration::try_seconds(s),
+                ]
+                .into_iter()
+                .try_fold(chrono::Duration::zero(), |acc, x| acc.checked_add(&x?))
+                .ok_or_else(|| {
+                    crate::Error::ParseDuration(format!("Duration out of range: {input}"))
+                })?;
+
+                Ok::<_, crate::Error>(if neg.is_some() { -duration } else { duration })
             },
         ),
     )
-- 
2.43.0


From b45371cb4ea4a0d19ad0fca7f1445a2599f9c244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 05/32] fix: read every part of a duration given as a string

The digits of a part were kept for the next one (PT1H30M was read as one
hour and 130 minutes), weeks and a leading '+' were refused.
---
 src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 92a1a24..baedff5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -131,8 +131,8 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
     let mut time = false;
     let mut interval = String::new();
 
-    if it.next_if(|x| *x == '-').is_some() {
-        negative = true;
+    if let Some(sign) = it.next_if(|x| matches!(x, '-' | '+')) {
+        negative = sign == '-';
     }
 
     if it.next_if(|x| *x == 'P').is_none() {
@@ -164,6 +164,7 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
         let part = match (time, ty) {
             (false, 'Y') => n.checked_mul(365).and_then(chrono::TimeDelta::try_days),
             (false, 'M') => n.checked_mul(30).and_then(chrono::TimeDelta::try_days),
+            (false, 'W') => chrono::TimeDelta::try_weeks(n),
             (false, 'D') => chrono::TimeDelta::try_days(n),
             (true, 'H') => chrono::TimeDelta::try_hours(n),
             (true, 'M') => chrono::TimeDelta::try_minutes(n),
@@ -178,6 +179,14 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
         duration = part
             .and_then(|x| duration.checked_add(&x))
             .ok_or_else(out_of_range)?;
+
+        interval.clear();
+    }
+
+    if !interval.is_empty() {
+        return Err(crate::Error::ParseDuration(format!(
+            "Invalid duration: {value}"
+        )));
     }
 
     if negative {
-- 
2.43.0


From 16c23fa5e7bb77ca0402f5fe25bbf5b690b27cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 06/32] fix: accept a signed duration and reject what follows
 one

---
 src/parser/datatype.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 80d59d4..9f0c9d4 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -4,7 +4,7 @@
 
 use nom::Parser as _;
 use nom::bytes::complete::tag;
-use nom::combinator::{map, map_res, opt};
+use nom::combinator::{all_consuming, map, map_res, opt};
 use nom::error::{FromExternalError, context};
 use nom::sequence::{pair, preceded, terminated};
 
@@ -130,11 +130,11 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
     context(
         "duration",
         map_res(
-            pair(
-                opt(tag("-")),
+            all_consuming(pair(
+                opt(nom::character::complete::one_of("+-")),
                 preceded(tag("P"), (opt(week), opt(day), opt(time))),
-            ),
-            |(neg, (w, d, t))| {
+            )),
+            |(sign, (w, d, t))| {
                 let (h, i, s) = t.unwrap_or_default();
 
                 let duration = [
@@ -150,7 +150,11 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
                     crate::Error::ParseDuration(format!("Duration out of range: {input}"))
                 })?;
 
-                Ok::<_, crate::Error>(if neg.is_some() { -duration } else { duration })
+                Ok::<_, crate::Error>(if sign == Some('-') {
+                    -duration
+                } else {
+                    duration
+                })
             },
         ),
     )
-- 
2.43.0


From 71622f745e527141ee81616bb77a6a0da94fee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 07/32] fix: do not panic on a local time skipped or repeated
 by a clock change

---
 src/properties/date.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index cd2c735..d5eaccd 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -116,9 +116,12 @@ impl std::str::FromStr for DateTime {
         } else {
             let naive = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%SZ")?;
 
-            Ok(Self::Local(
-                naive.and_local_timezone(chrono::Local).unwrap(),
-            ))
+            let local = naive
+                .and_local_timezone(chrono::Local)
+                .earliest()
+                .ok_or(crate::Error::Local(Self::Naive(naive)))?;
+
+            Ok(Self::Local(local))
         }
     }
 }
-- 
2.43.0


From bde96521a742bf804673229c3c0f6bd42fbc6b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 08/32] fix: accept a single Z at the end of a date-time

---
 src/parser/datatype.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 9f0c9d4..9905d66 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -34,18 +34,19 @@ pub(crate) fn date(input: &str) -> super::NomResult<&str, chrono::NaiveDate> {
  * See [3.3.5. Date-Time](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.5)
  */
 pub(crate) fn date_time(input: &str) -> super::NomResult<&str, crate::DateTime> {
-    let date = input.to_string();
+    let utc = input.strip_suffix('Z');
 
-    let dt = chrono::NaiveDateTime::parse_from_str(date.trim_end_matches('Z'), "%Y%m%dT%H%M%S")
-        .map_err(|e| {
+    let dt = chrono::NaiveDateTime::parse_from_str(utc.unwrap_or(input), "%Y%m%dT%H%M%S").map_err(
+        |e| {
             nom::Err::Error(nom_language::error::VerboseError::from_external_error(
                 input,
                 nom::error::ErrorKind::Fail,
                 e,
             ))
-        })?;
+        },
+    )?;
 
-    if date.ends_with('Z') {
+    if utc.is_some() {
         Ok((
             "",
             crate::DateTime::Local(dt.and_utc().with_timezone(&chrono::Local)),
-- 
2.43.0


From 2375127a66693d29f26e1f56cfc731cc8a21c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 09/32] fix: accept a date or date-time only in its eight-digit
 form

Blanks, signs and shorter numbers were accepted as another date.
---
 src/parser/datatype.rs | 48 +++++++++++++++++++++++++++++++++---------
 src/properties/date.rs |  9 ++++----
 2 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 9905d66..d58f829 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -19,7 +19,7 @@ pub(crate) fn cal_address(input: &str) -> crate::Result<String> {
  * See [3.3.4. Date](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.4)
  */
 pub(crate) fn date(input: &str) -> super::NomResult<&str, chrono::NaiveDate> {
-    let date = chrono::NaiveDate::parse_from_str(input, "%Y%m%d").map_err(|e| {
+    let date = naive_date(input).map_err(|e| {
         nom::Err::Error(nom_language::error::VerboseError::from_external_error(
             input,
             nom::error::ErrorKind::Fail,
@@ -30,21 +30,49 @@ pub(crate) fn date(input: &str) -> super::NomResult<&str, chrono::NaiveDate> {
     Ok(("", date))
 }
 
+/**
+ * chrono also accepts blanks, signs and shorter numbers.
+ */
+fn has_shape(input: &str, shape: &str) -> bool {
+    input.len() == shape.len()
+        && input.bytes().zip(shape.bytes()).all(|(c, s)| match s {
+            b'0' => c.is_ascii_digit(),
+            _ => c == s,
+        })
+}
+
+pub(crate) fn naive_date(input: &str) -> crate::Result<chrono::NaiveDate> {
+    if !has_shape(input, "00000000") {
+        return Err(crate::Error::Parser(format!("Invalid date: {input}")));
+    }
+
+    Ok(chrono::NaiveDate::parse_from_str(input, "%Y%m%d")?)
+}
+
+pub(crate) fn naive_date_time(input: &str) -> crate::Result<chrono::NaiveDateTime> {
+    if !has_shape(input, "00000000T000000") {
+        return Err(crate::Error::Parser(format!("Invalid date-time: {input}")));
+    }
+
+    Ok(chrono::NaiveDateTime::parse_from_str(
+        input,
+        "%Y%m%dT%H%M%S",
+    )?)
+}
+
 /**
  * See [3.3.5. Date-Time](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.5)
  */
 pub(crate) fn date_time(input: &str) -> super::NomResult<&str, crate::DateTime> {
     let utc = input.strip_suffix('Z');
 
-    let dt = chrono::NaiveDateTime::parse_from_str(utc.unwrap_or(input), "%Y%m%dT%H%M%S").map_err(
-        |e| {
-            nom::Err::Error(nom_language::error::VerboseError::from_external_error(
-                input,
-                nom::error::ErrorKind::Fail,
-                e,
-            ))
-        },
-    )?;
+    let dt = naive_date_time(utc.unwrap_or(input)).map_err(|e| {
+        nom::Err::Error(nom_language::error::VerboseError::from_external_error(
+            input,
+            nom::error::ErrorKind::Fail,
+            e,
+        ))
+    })?;
 
     if utc.is_some() {
         Ok((
diff --git a/src/properties/date.rs b/src/properties/date.rs
index d5eaccd..e2e0429 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -111,11 +111,12 @@ impl std::str::FromStr for DateTime {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if let Ok(naive) = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%S") {
+        let utc = s.strip_suffix('Z');
+        let naive = crate::parser::datatype::naive_date_time(utc.unwrap_or(s))?;
+
+        if utc.is_none() {
             Ok(Self::Naive(naive))
         } else {
-            let naive = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%SZ")?;
-
             let local = naive
                 .and_local_timezone(chrono::Local)
                 .earliest()
@@ -193,7 +194,7 @@ impl std::str::FromStr for Date {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if let Ok(date) = chrono::NaiveDate::parse_from_str(s, "%Y%m%d") {
+        if let Ok(date) = crate::parser::datatype::naive_date(s) {
             return Ok(Self::Date(date));
         }
 
-- 
2.43.0


From 908d7e49a3264d37a043bff457ea2a0706d35d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 10/32] fix: fold output lines between characters and before
 the line break

A multi-byte character on the fold made the serialization panic, and the
final CRLF was counted in the line and could be split.
---
 src/ser.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index f5fc486..0123e1c 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -142,12 +142,9 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
             }
             s.push(':');
             s.push_str(&ical);
-            s.push_str("\r\n");
-        }
 
-        if s.len() > 75 {
-            let lines = split(&s, 75);
-            s = lines.join("\r\n ");
+            s = split(&s, 75).join("\r\n ");
+            s.push_str("\r\n");
         }
     }
 
@@ -155,14 +152,20 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
 }
 
 fn split(s: &str, sub_size: usize) -> Vec<&str> {
-    let mut v = Vec::with_capacity(s.len() / sub_size);
+    let mut v = Vec::with_capacity(s.len() / sub_size + 1);
     let mut cur = s;
 
-    while !cur.is_empty() {
-        let (chunk, rest) = cur.split_at(std::cmp::min(sub_size, cur.len()));
+    while cur.len() > sub_size {
+        let mut end = sub_size;
+        while !cur.is_char_boundary(end) {
+            end -= 1;
+        }
+
+        let (chunk, rest) = cur.split_at(end);
         v.push(chunk);
         cur = rest;
     }
+    v.push(cur);
 
     v
 }
-- 
2.43.0


From c345ebc8d89d78c27467f95162236a22f089399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 11/32] fix: write one line or block per element of a
 multi-valued property

Two events of a calendar or two attendees of an event came out joined by a
comma, and an alarm came out after a stray ALARMS: prefix.
---
 derive/src/component.rs  | 7 +++----
 src/components/valarm.rs | 4 ++++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 6215028..7b4c09b 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -43,11 +43,10 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             .replace('_', "-");
 
         let ser_part = if crate::is_vec(ty) {
+            let append = field_params.append;
+
             quote::quote! {
-                if self.#name.len() == 1 {
-                    s.push_str(&crate::ser::field(#field_name, &self.#name[0])?);
-                }
-                else if self.#name.attr().is_none() {
+                if #append && self.#name.iter().all(|v| crate::ser::Serialize::attr(v).is_none()) {
                     s.push_str(&crate::ser::field(#field_name, &self.#name)?);
                 } else {
                     for v in &self.#name {
diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 5d0e281..5527cd0 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -56,6 +56,10 @@ impl std::str::FromStr for VAlarm {
 }
 
 impl crate::ser::Serialize for VAlarm {
+    fn component() -> Option<String> {
+        Some("VALARM".to_string())
+    }
+
     fn ical(&self) -> crate::Result<String> {
         let s = match self {
             Self::Audio(audio) => audio.ical(),
-- 
2.43.0


From 61de87b625fb9e119506df341683f0aa200ff144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 12/32] fix: write extension properties as lines of their own,
 before components

They came out as the value of X-PROP or IANA-PROP, without their name and
parameters, after the nested components where they cannot be parsed.
---
 derive/src/component.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 7b4c09b..e8e6343 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -29,6 +29,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
     let mut new_body = Vec::new();
     let mut from_body = Vec::new();
     let mut ser_body = Vec::new();
+    let mut ser_components = Vec::new();
 
     for field in fields {
         let name = &field.ident;
@@ -54,13 +55,23 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                     }
                 }
             }
+        } else if field_params.ignore {
+            quote::quote! {
+                for (k, v) in &self.#name {
+                    s.push_str(&crate::ser::field(k, v)?);
+                }
+            }
         } else {
             quote::quote! {
                 s.push_str(&crate::ser::field(#field_name, &self.#name)?);
             }
         };
 
-        ser_body.push(ser_part);
+        if field_params.ignore && crate::is_vec(ty) {
+            ser_components.push(ser_part);
+        } else {
+            ser_body.push(ser_part);
+        }
 
         if field_params.ignore {
             continue;
@@ -167,6 +178,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                 s.push_str(&name);
                 s.push_str("\r\n");
                 #(#ser_body)*
+                #(#ser_components)*
                 s.push_str("END:");
                 s.push_str(&name);
                 s.push_str("\r\n");
-- 
2.43.0


From 6513e14f6fe76e38a81402d6a74bd08302280bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 13/32] fix: write a property that is set to an empty text

It was left out, so that it was lost, and a component with an empty UID
could not be parsed back.
---
 derive/src/component.rs | 10 +++++++++-
 src/ser.rs              | 20 +++++++++-----------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index e8e6343..e2b13ee 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -48,7 +48,9 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
 
             quote::quote! {
                 if #append && self.#name.iter().all(|v| crate::ser::Serialize::attr(v).is_none()) {
-                    s.push_str(&crate::ser::field(#field_name, &self.#name)?);
+                    if !self.#name.is_empty() {
+                        s.push_str(&crate::ser::field(#field_name, &self.#name)?);
+                    }
                 } else {
                     for v in &self.#name {
                         s.push_str(&crate::ser::field(#field_name, v)?);
@@ -61,6 +63,12 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                     s.push_str(&crate::ser::field(k, v)?);
                 }
             }
+        } else if crate::is_option(ty) {
+            quote::quote! {
+                if let Some(v) = &self.#name {
+                    s.push_str(&crate::ser::field(#field_name, v)?);
+                }
+            }
         } else {
             quote::quote! {
                 s.push_str(&crate::ser::field(#field_name, &self.#name)?);
diff --git a/src/ser.rs b/src/ser.rs
index 0123e1c..67bed3b 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -133,19 +133,17 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
     if S::component().is_some() {
         s.push_str(&ical);
     } else {
-        if !ical.is_empty() {
-            s.push_str(name);
+        s.push_str(name);
 
-            if let Some(attr) = value.attr() {
-                s.push(';');
-                s.push_str(&attr);
-            }
-            s.push(':');
-            s.push_str(&ical);
-
-            s = split(&s, 75).join("\r\n ");
-            s.push_str("\r\n");
+        if let Some(attr) = value.attr() {
+            s.push(';');
+            s.push_str(&attr);
         }
+        s.push(':');
+        s.push_str(&ical);
+
+        s = split(&s, 75).join("\r\n ");
+        s.push_str("\r\n");
     }
 
     Ok(s)
-- 
2.43.0


From ddb7ef0c46d24c5ff23750c52ebfa27606bc8612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 14/32] fix: read and write request statuses as REQUEST-STATUS

---
 derive/src/component.rs     | 14 ++++++++------
 src/components/vevent.rs    |  1 +
 src/components/vfreebusy.rs |  1 +
 src/components/vjournal.rs  |  1 +
 src/components/vtodo.rs     |  1 +
 5 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index e2b13ee..98c6146 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -8,6 +8,7 @@ pub(crate) struct Field {
     pub append: bool,
     #[darling(default)]
     pub ignore: bool,
+    pub rename: Option<String>,
 }
 
 pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::TokenStream> {
@@ -36,12 +37,13 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
         let ty = &field.ty;
         let field_params = Field::from_field(field)?;
 
-        let field_name = name
-            .as_ref()
-            .unwrap()
-            .to_string()
-            .to_uppercase()
-            .replace('_', "-");
+        let field_name = field_params.rename.clone().unwrap_or_else(|| {
+            name.as_ref()
+                .unwrap()
+                .to_string()
+                .to_uppercase()
+                .replace('_', "-")
+        });
 
         let ser_part = if crate::is_vec(ty) {
             let append = field_params.append;
diff --git a/src/components/vevent.rs b/src/components/vevent.rs
index 3e9b1c9..abbe406 100644
--- a/src/components/vevent.rs
+++ b/src/components/vevent.rs
@@ -31,6 +31,7 @@ pub struct VEvent {
     pub contact: Vec<crate::Text>,
     #[component(append)]
     pub exdate: Vec<crate::Date>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     pub related_to: Vec<crate::Text>,
     #[component(append)]
diff --git a/src/components/vfreebusy.rs b/src/components/vfreebusy.rs
index 3057da6..4385772 100644
--- a/src/components/vfreebusy.rs
+++ b/src/components/vfreebusy.rs
@@ -14,6 +14,7 @@ pub struct VFreebusy {
     pub comment: Vec<crate::Text>,
     #[component(append)]
     pub freebusy: Vec<crate::Period>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     #[component(ignore)]
     pub x_prop: std::collections::BTreeMap<String, crate::ContentLine>,
diff --git a/src/components/vjournal.rs b/src/components/vjournal.rs
index 0d07251..214d0e0 100644
--- a/src/components/vjournal.rs
+++ b/src/components/vjournal.rs
@@ -27,6 +27,7 @@ pub struct VJournal {
     pub exdate: Vec<crate::Date>,
     pub related_to: Vec<crate::Text>,
     pub rdate: Vec<crate::RDate>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     #[component(ignore)]
     pub x_prop: std::collections::BTreeMap<String, crate::ContentLine>,
diff --git a/src/components/vtodo.rs b/src/components/vtodo.rs
index 84a9cbd..9b867cb 100644
--- a/src/components/vtodo.rs
+++ b/src/components/vtodo.rs
@@ -31,6 +31,7 @@ pub struct VTodo {
     pub contact: Vec<crate::Text>,
     #[component(append)]
     pub exdate: Vec<crate::Date>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     pub related_to: Vec<crate::Text>,
     #[component(append)]
-- 
2.43.0


From 32248ee69cf40e67898f5567d3326c618690d11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 15/32] fix: do not escape again the escapes of a parsed text

Every parse and serialization doubled the backslashes of a text, and a
carriage return was written as is, which cut the property.
---
 src/ser.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 67bed3b..6f3205e 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -119,10 +119,35 @@ impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
     }
 }
 
+/**
+ * Escape what is not yet: the texts of a parsed component are kept escaped.
+ */
 pub(crate) fn escape(s: &str) -> String {
-    s.replace(';', "\\;")
-        .replace(',', "\\,")
-        .replace('\n', "\\n")
+    let mut out = String::with_capacity(s.len());
+    let mut chars = s.chars().peekable();
+
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => {
+                let next = chars.next_if(|x| matches!(x, '\\' | ';' | ',' | 'n' | 'N'));
+                out.push(c);
+                out.push(next.unwrap_or(c));
+            }
+            ';' | ',' => {
+                out.push('\\');
+                out.push(c);
+            }
+            '\r' | '\n' => {
+                if c == '\r' {
+                    chars.next_if_eq(&'\n');
+                }
+                out.push_str("\\n");
+            }
+            _ => out.push(c),
+        }
+    }
+
+    out
 }
 
 pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String> {
-- 
2.43.0


From 69098e57cd83c841bce14cc19a5d54b5816f9d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 16/32] fix: keep the parameters and escaped commas of
 CATEGORIES and RESOURCES

---
 src/parser/datatype.rs    | 22 ++++++++++++++++++++++
 src/parser/descriptive.rs |  4 ++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index d58f829..9c1cb55 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -222,6 +222,28 @@ pub(crate) fn text(input: crate::ContentLine) -> crate::Result<crate::Text> {
     Ok(input.into())
 }
 
+pub(crate) fn text_list(input: &crate::ContentLine) -> Vec<crate::Text> {
+    split_text(&input.value, ',')
+        .map(|text| crate::Text {
+            params: input.params.clone(),
+            text: text.to_string(),
+        })
+        .collect()
+}
+
+/**
+ * Split a text on a separator that is not escaped.
+ */
+pub(crate) fn split_text(input: &str, sep: char) -> impl Iterator<Item = &str> {
+    let mut escaped = false;
+
+    input.split(move |c| {
+        let found = c == sep && !escaped;
+        escaped = c == '\\' && !escaped;
+        found
+    })
+}
+
 /**
  * See [3.3.13. URI](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.13)
  */
diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index f8e884f..f416e16 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -13,7 +13,7 @@ pub(crate) fn attach(input: crate::ContentLine) -> crate::Result<crate::Text> {
  * See [3.8.1.2. Categories](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.2)
  */
 pub(crate) fn categories(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(input.value.split(',').map(crate::Text::from).collect())
+    Ok(super::datatype::text_list(&input))
 }
 
 /**
@@ -86,7 +86,7 @@ pub(crate) fn priority(input: crate::ContentLine) -> crate::Result<u8> {
  * See [3.8.1.10. Resources](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.10)
  */
 pub(crate) fn resources(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(input.value.split(',').map(crate::Text::from).collect())
+    Ok(super::datatype::text_list(&input))
 }
 
 /**
-- 
2.43.0


From 533589b1849674c34d252f7e9af877554b31d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 17/32] fix: split and write request statuses without loss

An escaped semicolon ended the description and the code was rounded to one
decimal.
---
 src/parser/misc.rs               | 8 ++++++--
 src/properties/request_status.rs | 6 +-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parser/misc.rs b/src/parser/misc.rs
index c239b5d..ed3f2b3 100644
--- a/src/parser/misc.rs
+++ b/src/parser/misc.rs
@@ -7,7 +7,7 @@
  */
 pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::RequestStatus> {
     use nom::Parser as _;
-    use nom::bytes::complete::{take_till, take_while};
+    use nom::bytes::complete::take_while;
     use nom::character::complete::char;
     use nom::combinator::{map, opt};
     use nom::error::context;
@@ -15,7 +15,11 @@ pub(crate) fn rstatus(input: crate::ContentLine) -> crate::Result<crate::Request
     use nom::sequence::preceded;
 
     fn text(input: &str) -> super::NomResult<&str, &str> {
-        context("text", take_till(|c| c == ';')).parse(input)
+        let text = super::datatype::split_text(input, ';')
+            .next()
+            .unwrap_or_default();
+
+        Ok((&input[text.len()..], text))
     }
 
     fn end(input: &str) -> super::NomResult<&str, &str> {
diff --git a/src/properties/request_status.rs b/src/properties/request_status.rs
index 0db41bd..851e4de 100644
--- a/src/properties/request_status.rs
+++ b/src/properties/request_status.rs
@@ -34,11 +34,7 @@ impl std::str::FromStr for RequestStatus {
 
 impl crate::ser::Serialize for RequestStatus {
     fn ical(&self) -> crate::Result<String> {
-        let mut s = format!(
-            "{:.1};{}",
-            self.statcode,
-            crate::ser::escape(&self.statdesc)
-        );
+        let mut s = format!("{:?};{}", self.statcode, crate::ser::escape(&self.statdesc));
 
         if let Some(extdata) = &self.extdata {
             s.push(';');
-- 
2.43.0


From 6a33dac5a16942fe17d4081c347c74366db9012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 18/32] fix: quote parameter values instead of escaping them as
 texts

---
 src/content_line.rs    |  6 +-----
 src/properties/text.rs |  6 +-----
 src/properties/uri.rs  |  6 +-----
 src/ser.rs             | 26 ++++++++++++++++++++++++++
 4 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/content_line.rs b/src/content_line.rs
index 80d74ce..a2ef32c 100644
--- a/src/content_line.rs
+++ b/src/content_line.rs
@@ -59,10 +59,6 @@ impl crate::ser::Serialize for ContentLine {
     }
 
     fn attr(&self) -> Option<String> {
-        if self.params.is_empty() {
-            None
-        } else {
-            self.params.ical().ok()
-        }
+        crate::ser::params(&self.params)
     }
 }
diff --git a/src/properties/text.rs b/src/properties/text.rs
index b7ffc39..bd074fd 100644
--- a/src/properties/text.rs
+++ b/src/properties/text.rs
@@ -62,11 +62,7 @@ impl crate::ser::Serialize for Text {
     }
 
     fn attr(&self) -> Option<String> {
-        if self.params.is_empty() {
-            None
-        } else {
-            self.params.ical().ok()
-        }
+        crate::ser::params(&self.params)
     }
 }
 
diff --git a/src/properties/uri.rs b/src/properties/uri.rs
index 78386de..a75f6e9 100644
--- a/src/properties/uri.rs
+++ b/src/properties/uri.rs
@@ -56,11 +56,7 @@ impl crate::ser::Serialize for Uri {
     }
 
     fn attr(&self) -> Option<String> {
-        if self.params.is_empty() {
-            None
-        } else {
-            self.params.ical().ok()
-        }
+        crate::ser::params(&self.params)
     }
 }
 
diff --git a/src/ser.rs b/src/ser.rs
index 6f3205e..28473f5 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -150,6 +150,32 @@ pub(crate) fn escape(s: &str) -> String {
     out
 }
 
+/**
+ * See [3.2. Property Parameters](https://datatracker.ietf.org/doc/html/rfc5545#section-3.2)
+ */
+pub(crate) fn params(params: &std::collections::BTreeMap<String, String>) -> Option<String> {
+    if params.is_empty() {
+        return None;
+    }
+
+    let params = params
+        .iter()
+        .map(|(key, value)| {
+            let value = value.replace("\r\n", " ").replace(['\r', '\n'], " ");
+
+            if value.contains([':', ';', ',']) {
+                format!("{key}=\"{}\"", value.replace('"', "'"))
+            } else if value.starts_with('"') {
+                format!("{key}={}", value.replace('"', "'"))
+            } else {
+                format!("{key}={value}")
+            }
+        })
+        .collect::<Vec<_>>();
+
+    Some(params.join(";"))
+}
+
 pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String> {
     let mut s = String::new();
 
-- 
2.43.0


From 76bfe65974b38f76d5748b86ed5b38cc688ddaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 19/32] fix: do not escape URIs and extension values as texts

---
 src/content_line.rs   | 5 ++++-
 src/properties/uri.rs | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/content_line.rs b/src/content_line.rs
index a2ef32c..c912412 100644
--- a/src/content_line.rs
+++ b/src/content_line.rs
@@ -55,7 +55,10 @@ impl std::fmt::Display for ContentLine {
 
 impl crate::ser::Serialize for ContentLine {
     fn ical(&self) -> crate::Result<String> {
-        self.to_string().ical()
+        Ok(self
+            .value
+            .replace("\r\n", "\\n")
+            .replace(['\r', '\n'], "\\n"))
     }
 
     fn attr(&self) -> Option<String> {
diff --git a/src/properties/uri.rs b/src/properties/uri.rs
index a75f6e9..dcec5a2 100644
--- a/src/properties/uri.rs
+++ b/src/properties/uri.rs
@@ -52,7 +52,7 @@ impl From<&str> for Uri {
 
 impl crate::ser::Serialize for Uri {
     fn ical(&self) -> crate::Result<String> {
-        self.to_string().ical()
+        Ok(self.uri.replace('\r', "%0D").replace('\n', "%0A"))
     }
 
     fn attr(&self) -> Option<String> {
-- 
2.43.0


From be2598a94ed69f74bb87953b28c48f2e34588fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 20/32] fix: end a parameter at the end of its line and require
 names

---
 src/parser/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 971907a..6c93951 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -23,7 +23,7 @@ pub(crate) use relationship::*;
 pub(crate) use timezone::*;
 
 use nom::Parser as _;
-use nom::bytes::complete::{tag, take_till, take_while};
+use nom::bytes::complete::{tag, take_till, take_while, take_while1};
 use nom::character::complete::{anychar, char, line_ending};
 use nom::combinator::{map, map_res, not, opt};
 use nom::error::context;
@@ -58,13 +58,16 @@ fn digits(input: &str) -> NomResult<&str, &str> {
 }
 
 fn key(input: &str) -> NomResult<&str, &str> {
-    context("key", take_while(is_alphanumeric)).parse(input)
+    context("key", take_while1(is_alphanumeric)).parse(input)
 }
 
 fn attr(input: &str) -> NomResult<&str, &str> {
     context(
         "attr",
-        preceded(opt(tag("\r\n ")), take_till(|c| c == ';' || c == ':')),
+        preceded(
+            opt(tag("\r\n ")),
+            take_till(|c| c == ';' || c == ':' || is_line_ending(c)),
+        ),
     )
     .parse(input)
 }
@@ -74,7 +77,7 @@ fn value(input: &str) -> NomResult<&str, &str> {
 }
 
 fn quote(chr: char) -> bool {
-    chr == '"'
+    chr == '"' || is_line_ending(chr)
 }
 
 fn quoted_param(input: &str) -> NomResult<&str, (&str, &str)> {
-- 
2.43.0


From ebef0da096087038d08a8f104b3307a5898e72a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 21/32] fix: unfold the lines continued after a tab

---
 derive/src/component.rs  |  2 +-
 src/components/valarm.rs |  2 +-
 src/parser/mod.rs        | 19 +++++++++++++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 98c6146..cd7846b 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -168,7 +168,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             type Err = crate::Error;
 
             fn from_str(s: &str) -> Result<Self, Self::Err> {
-                crate::parser::#parser(&s.replace("\r\n ", ""))
+                crate::parser::#parser(&crate::parser::unfold(s))
                     .map_err(crate::Error::from)
                     .map(|(_, x)| x)
             }
diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 5527cd0..8aeed04 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -49,7 +49,7 @@ impl std::str::FromStr for VAlarm {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::valarm(&s.replace("\r\n ", ""))
+        crate::parser::valarm(&crate::parser::unfold(s))
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 6c93951..4aba922 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -113,6 +113,25 @@ fn params(input: &str) -> NomResult<&str, BTreeMap<String, String>> {
     .parse(input)
 }
 
+/**
+ * A long line continues on lines that start with a space or a tab.
+ */
+pub(crate) fn unfold(input: &str) -> String {
+    let mut lines = input.split("\r\n");
+    let mut s = lines.next().unwrap_or_default().to_string();
+
+    for line in lines {
+        if let Some(rest) = line.strip_prefix([' ', '\t']) {
+            s.push_str(rest);
+        } else {
+            s.push_str("\r\n");
+            s.push_str(line);
+        }
+    }
+
+    s
+}
+
 /**
  * See [3.1. Content Lines](https://datatracker.ietf.org/doc/html/rfc5545#section-3.1)
  */
-- 
2.43.0


From 6a213c9991336c21465c36b156dfffc9f9f61ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 22/32] fix: reject what follows a weekday, a rule or a
 position

---
 src/parser/descriptive.rs | 9 +++++----
 src/parser/mod.rs         | 4 ++--
 src/parser/recurrence.rs  | 4 ++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index f416e16..b1361bc 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -43,13 +43,14 @@ pub(crate) fn description(input: crate::ContentLine) -> crate::Result<crate::Tex
 pub(crate) fn geo(input: crate::ContentLine) -> crate::Result<crate::Geo> {
     use nom::Parser as _;
     use nom::character::complete::char;
-    use nom::combinator::map;
+    use nom::combinator::{all_consuming, map};
     use nom::number::complete::float;
     use nom::sequence::separated_pair;
 
-    map(separated_pair(float, char(';'), float), |(lat, lon)| {
-        crate::Geo { lat, lon }
-    })
+    map(
+        all_consuming(separated_pair(float, char(';'), float)),
+        |(lat, lon)| crate::Geo { lat, lon },
+    )
     .parse(input.value.as_str())
     .map_err(crate::Error::from)
     .map(|(_, x)| x)
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4aba922..5866a44 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -25,7 +25,7 @@ pub(crate) use timezone::*;
 use nom::Parser as _;
 use nom::bytes::complete::{tag, take_till, take_while, take_while1};
 use nom::character::complete::{anychar, char, line_ending};
-use nom::combinator::{map, map_res, not, opt};
+use nom::combinator::{all_consuming, map, map_res, not, opt};
 use nom::error::context;
 use nom::multi::{count, fold_many0};
 use nom::sequence::{preceded, separated_pair};
@@ -174,7 +174,7 @@ pub(crate) fn weekday(input: &str) -> NomResult<&str, crate::Weekday> {
 
     context(
         "weekday",
-        map_res(count(anychar, 2), |s| {
+        map_res(all_consuming(count(anychar, 2)), |s| {
             let weekday = match s.as_slice() {
                 ['S', 'U'] => Sunday,
                 ['M', 'O'] => Monday,
diff --git a/src/parser/recurrence.rs b/src/parser/recurrence.rs
index 855eb40..73c60a5 100644
--- a/src/parser/recurrence.rs
+++ b/src/parser/recurrence.rs
@@ -49,7 +49,7 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
     use nom::Parser as _;
     use nom::bytes::complete::take_till;
     use nom::character::complete::char;
-    use nom::combinator::{map_res, opt};
+    use nom::combinator::{all_consuming, map_res, opt};
     use nom::error::context;
     use nom::multi::many1;
     use nom::sequence::{separated_pair, terminated};
@@ -79,7 +79,7 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
 
     context(
         "rrule",
-        map_res(many1(item), |items| {
+        map_res(all_consuming(many1(item)), |items| {
             let map = items
                 .iter()
                 .map(|(k, v)| ((*k).to_string(), v))
-- 
2.43.0


From b270f1d6a76bacfbadfb0b44ca0d10b2653e17e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 23/32] fix: write the value type of RDATE as a parameter

---
 src/properties/rdate.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/properties/rdate.rs b/src/properties/rdate.rs
index bc9a5bd..e27dbd7 100644
--- a/src/properties/rdate.rs
+++ b/src/properties/rdate.rs
@@ -20,28 +20,35 @@ impl RDate {
 impl std::fmt::Display for RDate {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let s = match self {
-            RDate::Date(date) => format!(
-                "VALUE=DATE:{}",
-                date.iter()
-                    .map(ToString::to_string)
-                    .collect::<Vec<_>>()
-                    .join(",")
-            ),
-            RDate::Period(period) => format!(
-                "VALUE=PERIOD:{}",
-                period
-                    .iter()
-                    .map(ToString::to_string)
-                    .collect::<Vec<_>>()
-                    .join(",")
-            ),
+            RDate::Date(date) => date
+                .iter()
+                .map(ToString::to_string)
+                .collect::<Vec<_>>()
+                .join(","),
+            RDate::Period(period) => period
+                .iter()
+                .map(ToString::to_string)
+                .collect::<Vec<_>>()
+                .join(","),
         };
 
         f.write_str(&s)
     }
 }
 
-crate::ser::ical_for_tostring!(RDate);
+impl crate::ser::Serialize for RDate {
+    fn attr(&self) -> Option<String> {
+        match self {
+            RDate::Date(date) if date.iter().any(crate::Date::has_time) => None,
+            RDate::Date(_) => "VALUE=DATE".to_string().into(),
+            RDate::Period(_) => "VALUE=PERIOD".to_string().into(),
+        }
+    }
+
+    fn ical(&self) -> crate::Result<String> {
+        Ok(self.to_string())
+    }
+}
 
 #[cfg(test)]
 mod test {
-- 
2.43.0


From 7eedc2c2e51c1fcefd27175087693e1631606e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 24/32] fix: skip the dates a monthly or yearly rule does not
 have

---
 src/properties/recur.rs | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index c57147f..db42797 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -54,6 +54,24 @@ impl std::str::FromStr for Recur {
     }
 }
 
+impl Recur {
+    fn months(&self) -> u32 {
+        match self.freq {
+            Freq::Yearly => 12 * u32::from(self.interval),
+            _ => self.interval.into(),
+        }
+    }
+}
+
+/**
+ * The dates that follow every `months` months, except those that do not exist.
+ */
+fn months_later(date: chrono::NaiveDate, months: u32) -> impl Iterator<Item = chrono::NaiveDate> {
+    (1..)
+        .map(move |n| date + chrono::Months::new(n * months))
+        .filter(move |x| x.day() == date.day())
+}
+
 impl std::ops::Add<crate::Date> for crate::Recur {
     type Output = crate::Date;
 
@@ -80,8 +98,9 @@ impl std::ops::Add<chrono::NaiveDate> for crate::Recur {
             Freq::Hourly => return rhs,
             Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
             Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
+            Freq::Monthly | Freq::Yearly => {
+                return months_later(rhs, self.months()).next().unwrap();
+            }
         };
 
         rhs + interval
@@ -109,8 +128,15 @@ impl std::ops::Add<chrono::DateTime<chrono::Local>> for crate::Recur {
             Freq::Hourly => chrono::TimeDelta::hours(self.interval.into()),
             Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
             Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
+            Freq::Monthly | Freq::Yearly => {
+                return months_later(rhs.date_naive(), self.months())
+                    .find_map(|x| {
+                        x.and_time(rhs.time())
+                            .and_local_timezone(chrono::Local)
+                            .earliest()
+                    })
+                    .unwrap();
+            }
         };
 
         rhs + interval
@@ -127,8 +153,11 @@ impl std::ops::Add<chrono::NaiveDateTime> for crate::Recur {
             Freq::Hourly => chrono::TimeDelta::hours(self.interval.into()),
             Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
             Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
+            Freq::Monthly | Freq::Yearly => {
+                let date = months_later(rhs.date(), self.months()).next().unwrap();
+
+                return date.and_time(rhs.time());
+            }
         };
 
         rhs + interval
-- 
2.43.0


From a28293652d8f3d806a283993719229b62581b409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 25/32] fix: count excluded occurrences, stop at the time of
 UNTIL and keep lengths

---
 src/iter.rs | 78 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 25 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 89c08c9..c7674ac 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -115,8 +115,8 @@ impl<T: Recurring> Recur<T> {
     }
 
     pub fn between<D: Into<crate::Date> + Copy>(self, start: D, end: D) -> impl Iterator<Item = T> {
-        self.skip_while(move |x| x.dtstart().unwrap() < &start.into())
-            .take_while(move |x| x.dtstart().unwrap() < &end.into())
+        self.skip_while(move |x| compare(x.dtstart().unwrap(), &start.into()).is_lt())
+            .take_while(move |x| compare(x.dtstart().unwrap(), &end.into()).is_lt())
     }
 
     pub fn at<D: Into<crate::Date> + Copy>(self, date: D) -> impl Iterator<Item = T> {
@@ -125,7 +125,7 @@ impl<T: Recurring> Recur<T> {
     }
 
     pub fn after<D: Into<crate::Date> + Copy>(self, date: D) -> impl Iterator<Item = T> {
-        self.skip_while(move |x| x.dtstart().unwrap() < &date.into())
+        self.skip_while(move |x| compare(x.dtstart().unwrap(), &date.into()).is_lt())
     }
 }
 
@@ -133,45 +133,73 @@ impl<T: Recurring> Iterator for Recur<T> {
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let current = self.item.clone();
-
-        let mut next = self.item.clone();
-
         loop {
-            let dtstart = next.dtstart()?;
-            let mut rrule = next.rrule()?.clone();
+            let current = self.item.clone();
+
+            let dtstart = *current.dtstart()?;
+            let mut rrule = current.rrule()?.clone();
 
             if let Some(until) = &rrule.until {
-                if dtstart.date_naive() > until.date_naive() {
+                if compare(&dtstart, until).is_gt() {
                     return None;
                 }
             }
 
-            let dtstart = rrule.clone() + *dtstart;
-            next.set_dtstart(dtstart);
-
-            if let Some(dtend) = next.dtend() {
-                let dtend = rrule.clone() + *dtend;
-                next.set_dtend(dtend);
+            if let Some(count) = rrule.count.as_mut() {
+                *count = count.checked_sub(1)?;
             }
 
-            next.set_rrule(rrule.clone());
+            let step = crate::Recur {
+                interval: rrule.interval.max(1),
+                ..rrule.clone()
+            };
+            let next = step + dtstart;
+            let delta = elapsed(dtstart, next);
+
+            self.item.set_dtstart(next);
 
-            if next.exdate().contains(&dtstart) {
-                continue;
+            if let Some(dtend) = current.dtend() {
+                self.item.set_dtend(shift(*dtend, delta));
             }
 
-            if let Some(count) = rrule.count.as_mut() {
-                *count = count.checked_sub(1)?;
-                next.set_rrule(rrule.clone());
+            if let Some(due) = current.due() {
+                self.item.set_due(shift(*due, delta));
             }
 
-            break;
+            self.item.set_rrule(rrule);
+
+            if !current.exdate().contains(&dtstart) {
+                return Some(current);
+            }
         }
+    }
+}
 
-        self.item = next;
+/**
+ * A date without time is the whole day.
+ */
+fn compare(a: &crate::Date, b: &crate::Date) -> std::cmp::Ordering {
+    use crate::{Date, DateTime};
+
+    match (a, b) {
+        (Date::DateTime(DateTime::Local(a)), Date::DateTime(DateTime::Local(b))) => a.cmp(b),
+        (Date::DateTime(a), Date::DateTime(b)) => a.naive().cmp(&b.naive()),
+        _ => a.date_naive().cmp(&b.date_naive()),
+    }
+}
+
+fn elapsed(start: crate::Date, end: crate::Date) -> chrono::TimeDelta {
+    match (start.into(), end.into()) {
+        (crate::DateTime::Local(start), crate::DateTime::Local(end)) => end - start,
+        (start, end) => end - start,
+    }
+}
 
-        Some(current)
+fn shift(date: crate::Date, delta: chrono::TimeDelta) -> crate::Date {
+    if delta == chrono::TimeDelta::days(delta.num_days()) {
+        date + delta
+    } else {
+        (crate::DateTime::from(date) + delta).into()
     }
 }
 
-- 
2.43.0


From 4de42a7c5b3c230708df7889a41eb9bd2658f95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 26/32] fix: order dates, date-times and periods totally

---
 src/properties/date.rs   | 17 ++++++++++++++---
 src/properties/period.rs | 18 +++++++++++++-----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index e2e0429..71d1526 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -135,7 +135,14 @@ impl std::cmp::PartialOrd for DateTime {
 
 impl std::cmp::Ord for DateTime {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        self.naive().cmp(&other.naive())
+        self.naive()
+            .cmp(&other.naive())
+            .then_with(|| match (self, other) {
+                (Self::Local(a), Self::Local(b)) => a.cmp(b),
+                (Self::Naive(_), Self::Local(_)) => std::cmp::Ordering::Less,
+                (Self::Local(_), Self::Naive(_)) => std::cmp::Ordering::Greater,
+                (Self::Naive(_), Self::Naive(_)) => std::cmp::Ordering::Equal,
+            })
     }
 }
 
@@ -255,8 +262,12 @@ impl std::cmp::Ord for Date {
         match (self, other) {
             (Self::Date(a), Self::Date(b)) => a.cmp(b),
             (Self::DateTime(a), Self::DateTime(b)) => a.cmp(b),
-            (Self::Date(a), Self::DateTime(b)) => a.cmp(&b.date_naive()),
-            (Self::DateTime(a), Self::Date(b)) => a.date_naive().cmp(b),
+            (Self::Date(_), Self::DateTime(b)) => {
+                DateTime::from(*self).cmp(b).then(std::cmp::Ordering::Less)
+            }
+            (Self::DateTime(a), Self::Date(_)) => a
+                .cmp(&DateTime::from(*other))
+                .then(std::cmp::Ordering::Greater),
         }
     }
 }
diff --git a/src/properties/period.rs b/src/properties/period.rs
index e361c76..a08b79b 100644
--- a/src/properties/period.rs
+++ b/src/properties/period.rs
@@ -49,7 +49,14 @@ impl std::cmp::PartialOrd for Period {
 
 impl std::cmp::Ord for Period {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        self.duration().cmp(&other.duration())
+        self.duration()
+            .cmp(&other.duration())
+            .then_with(|| match (self, other) {
+                (Self::StartEnd(a), Self::StartEnd(b)) => a.cmp(b),
+                (Self::StartDur(a), Self::StartDur(b)) => a.cmp(b),
+                (Self::StartEnd(_), Self::StartDur(_)) => std::cmp::Ordering::Less,
+                (Self::StartDur(_), Self::StartEnd(_)) => std::cmp::Ordering::Greater,
+            })
     }
 }
 
@@ -84,6 +91,8 @@ impl std::cmp::Ord for StartEnd {
         let b = other.end - other.start;
 
         a.cmp(&b)
+            .then_with(|| self.start.cmp(&other.start))
+            .then_with(|| self.end.cmp(&other.end))
     }
 }
 
@@ -109,10 +118,9 @@ impl std::cmp::PartialOrd for StartDur {
 
 impl std::cmp::Ord for StartDur {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        let a = self.start - self.duration;
-        let b = other.start - other.duration;
-
-        a.cmp(&b)
+        self.duration
+            .cmp(&other.duration)
+            .then_with(|| self.start.cmp(&other.start))
     }
 }
 
-- 
2.43.0


From 64261c56bba6facc5c4a4dcc3be833b6fd11d746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:24 +0000
Subject: [PATCH 27/32] fix: return every occurrence of a range when days and
 times alternate

---
 src/iter.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index c7674ac..d7f5472 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -115,8 +115,9 @@ impl<T: Recurring> Recur<T> {
     }
 
     pub fn between<D: Into<crate::Date> + Copy>(self, start: D, end: D) -> impl Iterator<Item = T> {
-        self.skip_while(move |x| compare(x.dtstart().unwrap(), &start.into()).is_lt())
-            .take_while(move |x| compare(x.dtstart().unwrap(), &end.into()).is_lt())
+        self.take_while(move |x| x.dtstart().unwrap().date_naive() <= end.into().date_naive())
+            .filter(move |x| compare(x.dtstart().unwrap(), &start.into()).is_ge())
+            .filter(move |x| compare(x.dtstart().unwrap(), &end.into()).is_lt())
     }
 
     pub fn at<D: Into<crate::Date> + Copy>(self, date: D) -> impl Iterator<Item = T> {
@@ -125,7 +126,7 @@ impl<T: Recurring> Recur<T> {
     }
 
     pub fn after<D: Into<crate::Date> + Copy>(self, date: D) -> impl Iterator<Item = T> {
-        self.skip_while(move |x| compare(x.dtstart().unwrap(), &date.into()).is_lt())
+        self.filter(move |x| compare(x.dtstart().unwrap(), &date.into()).is_ge())
     }
 }
 
-- 
2.43.0


From 5bff00f55079f94a6b5c8bd1c36ed784952b59a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:09 +0000
Subject: [PATCH 28/32] fix: take the first of a local time that occurs twice
 and reject skipped ones

---
 src/properties/date.rs  | 22 ++++++++++++++--------
 src/properties/recur.rs |  6 +-----
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index 71d1526..2345d34 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -68,15 +68,24 @@ impl From<DateTime> for chrono::NaiveDateTime {
     }
 }
 
+/// The first instant that is `naive` in the local zone: chrono gives the instants of a repeated time
+/// in any order, and takes the end points of a clock change for skipped or repeated times.
+pub(crate) fn local(naive: chrono::NaiveDateTime) -> Option<chrono::DateTime<chrono::Local>> {
+    let mapped = naive.and_local_timezone(chrono::Local);
+
+    [mapped.earliest(), mapped.latest()]
+        .into_iter()
+        .flatten()
+        .filter(|x| x.with_timezone(&chrono::Local).naive_local() == naive)
+        .min()
+}
+
 impl TryFrom<DateTime> for chrono::DateTime<chrono::Local> {
     type Error = crate::Error;
 
     fn try_from(value: DateTime) -> Result<Self, Self::Error> {
         match value {
-            DateTime::Naive(naive) => naive
-                .and_local_timezone(chrono::Local)
-                .earliest()
-                .ok_or(crate::Error::Local(value)),
+            DateTime::Naive(naive) => local(naive).ok_or(crate::Error::Local(value)),
             DateTime::Local(local) => Ok(local),
         }
     }
@@ -117,10 +126,7 @@ impl std::str::FromStr for DateTime {
         if utc.is_none() {
             Ok(Self::Naive(naive))
         } else {
-            let local = naive
-                .and_local_timezone(chrono::Local)
-                .earliest()
-                .ok_or(crate::Error::Local(Self::Naive(naive)))?;
+            let local = local(naive).ok_or(crate::Error::Local(Self::Naive(naive)))?;
 
             Ok(Self::Local(local))
         }
diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index db42797..8f66b13 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -130,11 +130,7 @@ impl std::ops::Add<chrono::DateTime<chrono::Local>> for crate::Recur {
             Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
             Freq::Monthly | Freq::Yearly => {
                 return months_later(rhs.date_naive(), self.months())
-                    .find_map(|x| {
-                        x.and_time(rhs.time())
-                            .and_local_timezone(chrono::Local)
-                            .earliest()
-                    })
+                    .find_map(|x| super::date::local(x.and_time(rhs.time())))
                     .unwrap();
             }
         };
-- 
2.43.0


From 93e597a198b3da4c7d26546f95fa8906fcccd030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:29 +0000
Subject: [PATCH 29/32] fix: reject a parameter value whose quote is not closed

---
 src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 5866a44..6e2c7ef 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -96,7 +96,10 @@ fn param(input: &str) -> NomResult<&str, (&str, &str)> {
         "param",
         alt((
             delimited(char(';'), quoted_param, char('"')),
-            preceded(char(';'), separated_pair(key, char('='), attr)),
+            preceded(
+                char(';'),
+                separated_pair(key, (char('='), not(char('"'))), attr),
+            ),
         )),
     )
     .parse(input)
-- 
2.43.0


From 04ae41e48f04b317469d6f28a596924bc8ee64b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:46 +0000
Subject: [PATCH 30/32] fix: keep a classification with a line break on its
 line

---
 src/properties/class.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/properties/class.rs b/src/properties/class.rs
index ea17c28..d140fda 100644
--- a/src/properties/class.rs
+++ b/src/properties/class.rs
@@ -54,7 +54,13 @@ impl std::fmt::Display for Class {
     }
 }
 
-crate::ser::ical_for_tostring!(Class);
+impl crate::ser::Serialize for Class {
+    fn ical(&self) -> crate::Result<String> {
+        let class = self.to_string();
+
+        Ok(class.replace("\r\n", " ").replace(['\r', '\n'], " "))
+    }
+}
 
 #[cfg(test)]
 mod test {
-- 
2.43.0


From 8b2d46f9c4453b923c6e0f77d7ffd979af8659ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:56 +0000
Subject: [PATCH 31/32] fix: parse an alarm of a given kind instead of
 panicking

"BEGIN:VALARM ...".parse::<valarm::Audio>() (and Display, Email) reached
unreachable!() for any input.
---
 src/parser/components.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index f13cd9a..f86a33d 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -31,17 +31,21 @@ component!(vjournal, crate::VJournal);
 component!(standard, crate::vtimezone::Standard);
 component!(daylight, crate::vtimezone::Daylight);
 
-pub(crate) fn audio(_: &str) -> super::NomResult<&str, crate::valarm::Audio> {
-    unreachable!()
-}
-
-pub(crate) fn display(_: &str) -> super::NomResult<&str, crate::valarm::Display> {
-    unreachable!()
+macro_rules! alarm {
+    ($name:ident, $kind:ident) => {
+        pub(crate) fn $name(input: &str) -> super::NomResult<&str, crate::valarm::$kind> {
+            map_res(valarm, |alarm| match alarm {
+                crate::VAlarm::$kind(alarm) => Ok(alarm),
+                _ => Err(crate::Error::Alarm(stringify!($name).to_uppercase())),
+            })
+            .parse(input)
+        }
+    };
 }
 
-pub(crate) fn email(_: &str) -> super::NomResult<&str, crate::valarm::Email> {
-    unreachable!()
-}
+alarm!(audio, Audio);
+alarm!(display, Display);
+alarm!(email, Email);
 
 pub(crate) fn vevent(input: &str) -> super::NomResult<&str, crate::VEvent> {
     context(
-- 
2.43.0


From f60a870d766c6c2ad818c814d9e81c4b83c95a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:56 +0000
Subject: [PATCH 32/32] fix: write an alarm of a given kind as VALARM

Audio, Display and Email on their own were written as BEGIN:AUDIO,
BEGIN:DISPLAY and BEGIN:EMAIL, which nothing can read back.
---
 derive/src/component.rs  | 12 ++++++++++--
 src/components/valarm.rs |  3 +++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index cd7846b..c7a1761 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -1,6 +1,12 @@
-use darling::FromField;
+use darling::{FromDeriveInput, FromField};
 use quote::ToTokens as _;
 
+#[derive(Clone, Default, Debug, FromDeriveInput)]
+#[darling(attributes(component), default)]
+pub(crate) struct Container {
+    pub name: Option<String>,
+}
+
 #[derive(Clone, Default, Debug, FromField)]
 #[darling(attributes(component))]
 pub(crate) struct Field {
@@ -23,7 +29,9 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
     };
 
     let name = &ast.ident;
-    let name_str = name.to_token_stream().to_string();
+    let name_str = Container::from_derive_input(ast)?
+        .name
+        .unwrap_or_else(|| name.to_token_stream().to_string());
     let parser = quote::format_ident!("{}", name.to_string().to_lowercase());
     let (impl_generics, ty_generics, where_clause) = ast.generics.split_for_impl();
 
diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 8aeed04..37a9f5b 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -78,6 +78,7 @@ impl crate::ser::Serialize for VAlarm {
 }
 
 #[derive(Clone, Debug, Default, Eq, PartialEq, crate::Component)]
+#[component(name = "VALARM")]
 pub struct Audio {
     pub action: crate::Text,
     pub trigger: crate::Trigger,
@@ -106,6 +107,7 @@ impl From<Audio> for VAlarm {
 }
 
 #[derive(Clone, Debug, Default, Eq, PartialEq, crate::Component)]
+#[component(name = "VALARM")]
 pub struct Display {
     pub action: crate::Text,
     pub trigger: crate::Trigger,
@@ -134,6 +136,7 @@ impl From<Display> for VAlarm {
 }
 
 #[derive(Clone, Debug, Default, Eq, PartialEq, crate::Component)]
+#[component(name = "VALARM")]
 pub struct Email {
     pub action: crate::Text,
     pub trigger: crate::Trigger,
-- 
2.43.0

