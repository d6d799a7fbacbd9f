From eacb57a80e64c14ad803f42f6feabd6579a3cb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:03 +0000
Subject: [PATCH 01/21] fix: never emit folded lines longer than 75 octets

The space that starts a continuation line counts towards the limit, so a
remainder of exactly 75 octets has to be folded once more.
---
 src/properties.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index 07cae81..a1257dd 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -393,8 +393,9 @@ pub(crate) fn fold_line(line: &str) -> String {
 
     let mut pos = 0;
     let mut next_pos = LIMIT;
+    let mut limit = LIMIT;
 
-    while bytes_remaining > LIMIT {
+    while bytes_remaining > limit {
         let pos_is_whitespace = |line: &str, next_pos| {
             line.chars()
                 .nth(next_pos)
@@ -416,7 +417,9 @@ pub(crate) fn fold_line(line: &str) -> String {
 
         bytes_remaining -= next_pos - pos;
         pos = next_pos;
-        next_pos += LIMIT - 1;
+        // continuation lines start with a space that counts towards the limit
+        limit = LIMIT - 1;
+        next_pos += limit;
     }
 
     ret.push_str(&line[len - bytes_remaining..]);
-- 
2.43.0


From 6a8e7f8899e3b090875fe5d768ac7f09e499a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 02/21] fix: decode TEXT escapes in a single pass

Replacing one escape sequence after the other decoded the output of earlier
replacements again, e.g. an escaped backslash followed by an n became a newline.
---
 src/parser/parsed_string.rs | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/parser/parsed_string.rs b/src/parser/parsed_string.rs
index f7af4b5..0aee837 100644
--- a/src/parser/parsed_string.rs
+++ b/src/parser/parsed_string.rs
@@ -36,24 +36,26 @@ impl<'a> ParseString<'a> {
     }
 
     pub fn unescape_text(self) -> ParseString<'a> {
-        if self.0.contains(r#"\\"#)
-            || self.0.contains(r#"\,"#)
-            || self.0.contains(r#"\;"#)
-            || self.0.contains(r#"\:"#)
-            || self.0.contains(r#"\N"#)
-            || self.0.contains(r#"\n"#)
-        {
-            self.0
-                .replace(r#"\\"#, r#"\"#)
-                .replace(r#"\,"#, ",")
-                .replace(r#"\;"#, ";")
-                .replace(r#"\:"#, ":")
-                .replace(r#"\N"#, "\n")
-                .replace(r#"\n"#, "\n")
-                .into()
-        } else {
-            self
+        if !self.0.contains('\\') {
+            return self;
         }
+        // every escape sequence is decoded exactly once, from left to right
+        let mut unescaped = String::with_capacity(self.0.len());
+        let mut chars = self.0.chars().peekable();
+        while let Some(c) = chars.next() {
+            let decoded = match (c, chars.peek()) {
+                ('\\', Some(&next @ ('\\' | ',' | ';' | ':'))) => Some(next),
+                ('\\', Some('n' | 'N')) => Some('\n'),
+                _ => None,
+            };
+            if let Some(decoded) = decoded {
+                chars.next();
+                unescaped.push(decoded);
+            } else {
+                unescaped.push(c);
+            }
+        }
+        unescaped.into()
     }
 }
 
-- 
2.43.0


From 380cbcb18265e6df40a45d72bc53dfd11d7a7340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 03/21] fix: read the calendar timezone from TIMEZONE-ID

This is the property that Calendar::timezone() sets.
---
 src/calendar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calendar.rs b/src/calendar.rs
index 118142c..e1aa9af 100644
--- a/src/calendar.rs
+++ b/src/calendar.rs
@@ -177,9 +177,9 @@ impl Calendar {
         self
     }
 
-    /// Gets the value of the `TIMEZONE_ID` or `X-WR-TIMEZONE` property.
+    /// Gets the value of the `TIMEZONE-ID` or `X-WR-TIMEZONE` property.
     pub fn get_timezone(&self) -> Option<&str> {
-        self.property_value("TIMEZONE_ID")
+        self.property_value("TIMEZONE-ID")
             .or_else(|| self.property_value("X-WR-TIMEZONE"))
     }
 
-- 
2.43.0


From 90beda7b6f3b7b81d35e273ac2b4a91fada109ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 04/21] fix: use the RFC 5545 property name LAST-MODIFIED

The underscored name is no known property, so other software could not read
what last_modified() sets and get_last_modified() could not read theirs.
---
 src/components.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index 117fbf8..0de7e77 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -283,16 +283,16 @@ pub trait Component {
         self.property_value("URL")
     }
 
-    /// Set the [`LAST_MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) [`Property`]
+    /// Set the [`LAST-MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) [`Property`]
     ///
     /// This must be a UTC date-time value.
     fn last_modified(&mut self, dt: DateTime<Utc>) -> &mut Self {
-        self.add_property("LAST_MODIFIED", format_utc_date_time(dt))
+        self.add_property("LAST-MODIFIED", format_utc_date_time(dt))
     }
 
-    /// Gets the [`LAST_MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) property.
+    /// Gets the [`LAST-MODIFIED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.3) property.
     fn get_last_modified(&self) -> Option<DateTime<Utc>> {
-        parse_utc_date_time(self.property_value("LAST_MODIFIED")?)
+        parse_utc_date_time(self.property_value("LAST-MODIFIED")?)
     }
 
     /// Set the [`CREATED`](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.7.1) [`Property`]
-- 
2.43.0


From c31be85b85510bd88f82f01a1c0d63dc52a47710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:15 +0000
Subject: [PATCH 05/21] fix: parse signed durations

Triggers before the start or end of an event are written as negative durations
but could not be read back.
---
 src/components/date_time.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/components/date_time.rs b/src/components/date_time.rs
index 67b6c68..276289a 100644
--- a/src/components/date_time.rs
+++ b/src/components/date_time.rs
@@ -22,9 +22,15 @@ pub(crate) fn format_utc_date_time(utc_dt: DateTime<Utc>) -> String {
 }
 
 pub(crate) fn parse_duration(s: &str) -> Option<Duration> {
-    iso8601::duration(s)
+    // rfc5545 durations may be signed, iso8601 ones are not
+    let (negative, unsigned) = match s.strip_prefix('-') {
+        Some(unsigned) => (true, unsigned),
+        None => (false, s.strip_prefix('+').unwrap_or(s)),
+    };
+    let duration = iso8601::duration(unsigned)
         .ok()
-        .and_then(|iso| Duration::from_std(iso.into()).ok())
+        .and_then(|iso| Duration::from_std(iso.into()).ok())?;
+    Some(if negative { -duration } else { duration })
 }
 
 pub(crate) fn naive_date_to_property(date: NaiveDate, key: &str) -> Property {
-- 
2.43.0


From d303325abbeb6149bfb2fa9976779dfd8fb86b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 06/21] fix: keep the TZID when reading an absolute alarm
 trigger

A trigger with a local time and a time zone reference was read back as a
floating time.
---
 src/components/alarm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/components/alarm.rs b/src/components/alarm.rs
index 3b45d89..006e48c 100644
--- a/src/components/alarm.rs
+++ b/src/components/alarm.rs
@@ -519,7 +519,9 @@ pub mod properties {
             match (prop.key(), prop.params().get("VALUE").map(Parameter::value)) {
                 ("TRIGGER", Some("DATE-TIME")) => {
                     // date-time needs to be qualified "VALUE=DATE-TIME"
-                    CalendarDateTime::from_str(prop.value()).map(Trigger::from)
+                    CalendarDateTime::from_property(prop)
+                        .map(Trigger::from)
+                        .ok_or(())
                 }
                 ("TRIGGER", Some("DURATION") | None) => {
                     // duration is the assumed default or "VALUE=DURATION"
-- 
2.43.0


From 313a2ae1ca50ea0d3b3fb63e9e4322d3e101a8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 07/21] fix: accept property names that merely start with END
 or BEGIN

Only END and BEGIN themselves are reserved, a property like ENDPOINT made the
whole calendar unreadable.
---
 src/parser/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index d04c886..c689937 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -16,13 +16,14 @@ use super::parsed_string::ParseString;
 pub fn property_key<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-    if input.get(0..=2) == Some("END") || input.get(0..=4) == Some("BEGIN") {
+    let (rest, key) = valid_key_sequence(input)?;
+    if key == "END" || key == "BEGIN" {
         IResult::Err(Err::Error(nom::error::make_error(
             input,
             nom::error::ErrorKind::Satisfy,
         )))
     } else {
-        valid_key_sequence(input)
+        Ok((rest, key))
     }
 }
 
-- 
2.43.0


From 25ec059f0325f23127ef4fe3e1d54ea61a1021d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 08/21] fix: require END to name the component exactly

END:VEVENTX used to close a VEVENT and left a property X behind.
---
 src/parser/components.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 292841f..35514d0 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -4,9 +4,10 @@ use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
-    combinator::{all_consuming, complete, cut},
+    combinator::{all_consuming, complete, cut, not, verify},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
+    sequence::terminated,
     Finish, IResult, Parser,
 };
 
@@ -20,7 +21,7 @@ use super::{
     parsed_string::ParseString,
     properties::property,
     unfold,
-    utils::{line, line_separated, valid_key_sequence_cow},
+    utils::{line, line_separated, valid_key_sequence, valid_key_sequence_cow},
     Property,
 };
 
@@ -257,7 +258,17 @@ pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                 line_separated(property).map(ComponentChild::Property),
             )),
         )),
-        line("END:", cut(context("mismatching end", tag(name.as_str())))),
+        line(
+            "END:",
+            cut(context(
+                "mismatching end",
+                // the whole name has to match, not just the beginning of a longer one
+                terminated(
+                    tag(name.as_str()),
+                    not(verify(valid_key_sequence, |rest: &str| !rest.is_empty())),
+                ),
+            )),
+        ),
     )
     .map(|(body_elements, _)| {
         let mut properties = Vec::new();
-- 
2.43.0


From 33ef74b9af02a258f1af48b427446f8971810e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 09/21] fix: report truncated components instead of dropping
 them

A root component without its END line, or with an unreadable body, was silently
parsed as an empty calendar.
---
 src/parser/components.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 35514d0..341e2e0 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -248,9 +248,15 @@ pub fn read_component(input: &str) -> Result<Component<'_>, String> {
 pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Component<'a>, E> {
-    let (input, name) = line("BEGIN:", valid_key_sequence_cow)(input)?;
-
-    let (input, (properties, components)) = many_till(
+    let (input, name) = line(
+        "BEGIN:",
+        verify(valid_key_sequence_cow, |name: &ParseString<'_>| {
+            !name.as_str().is_empty()
+        }),
+    )(input)?;
+
+    // once a component has begun anything but its end is an error
+    let (input, (properties, components)) = cut(many_till(
         cut(context(
             "component",
             alt((
@@ -269,7 +275,7 @@ pub fn component<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                 ),
             )),
         ),
-    )
+    ))
     .map(|(body_elements, _)| {
         let mut properties = Vec::new();
         let mut components = Vec::new();
-- 
2.43.0


From 4d588a06f6bde92a11d13e68cbfdbfbfc60b6ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 10/21] fix: read every root component of a document

---
 src/parser/components.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index 341e2e0..a434db7 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -4,6 +4,7 @@ use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
+    character::complete::multispace0,
     combinator::{all_consuming, complete, cut, not, verify},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
     multi::{many0, many_till},
@@ -532,5 +533,14 @@ fn test_faulty_component() {
 pub fn components<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Vec<Component<'a>>, E> {
-    complete(many0(all_consuming(component)))(input)
+    let (input, components) = complete(many0(component))(input)?;
+    if components.is_empty() {
+        return Ok((input, components));
+    }
+    // nothing but whitespace may follow the last root component
+    let (input, _) = cut(context(
+        "after the last component",
+        all_consuming(multispace0),
+    ))(input)?;
+    Ok((input, components))
 }
-- 
2.43.0


From e7cb3d63b4a0f1b468e1898246c7cc753e22ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 11/21] fix: keep the calendar properties when converting
 parsed components

---
 src/parser/calendar.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser/calendar.rs b/src/parser/calendar.rs
index 218a8a8..d74a2e3 100644
--- a/src/parser/calendar.rs
+++ b/src/parser/calendar.rs
@@ -76,11 +76,15 @@ impl<'a> From<Vec<Component<'a>>> for crate::Calendar {
             .map(|first_root| first_root.name == "VCALENDAR")
             .unwrap_or(false);
 
-        let components: Vec<Component<'a>> = if root_is_calendar {
-            components.swap_remove(0).components
-        } else {
-            components
-        };
+        if root_is_calendar {
+            let root = components.swap_remove(0);
+            return Calendar {
+                properties: root.properties,
+                components: root.components,
+            }
+            .into();
+        }
+
         components
             .into_iter()
             .map(|c: Component<'a>| {
-- 
2.43.0


From 2ec671ab2d54cb63248fca0c0e35744a7cae6215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 12/21] fix: quote parameter values when reserializing

---
 src/parser/properties.rs | 7 ++++++-
 src/properties.rs        | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index c39bd16..59560cf 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -69,7 +69,12 @@ impl Property<'_> {
         write!(line, "{}", self.name.as_str())?;
         for Parameter { key, val } in &self.params {
             if let Some(val) = val {
-                write!(line, ";{}={}", key.as_str(), val.as_str())?;
+                write!(
+                    line,
+                    ";{}={}",
+                    key.as_str(),
+                    crate::Property::quote_if_contains_colon(val.as_str())
+                )?;
             } else {
                 write!(line, ";{}", key.as_str())?;
             }
diff --git a/src/properties.rs b/src/properties.rs
index a1257dd..906e027 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -162,7 +162,7 @@ impl Property {
             .replace('\n', r#"\N"#)
     }
 
-    fn quote_if_contains_colon(input: &str) -> String {
+    pub(crate) fn quote_if_contains_colon(input: &str) -> String {
         if input.contains([':', ';']) {
             let mut quoted = String::with_capacity(input.len() + 2);
             quoted.push('"');
-- 
2.43.0


From b6d08bbf1fa64a664bed6014323a91fcd8d002ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 13/21] fix: escape text values when reserializing

---
 src/parser/properties.rs | 16 +++++++++++++++-
 src/properties.rs        |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 59560cf..67db615 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -79,11 +79,25 @@ impl Property<'_> {
                 write!(line, ";{}", key.as_str())?;
             }
         }
-        write!(line, ":{}", self.val.as_str())?;
+        match determin_value_type(&self.name, &self.params) {
+            Some(ValueType::Text) => write!(line, ":{}", self.escaped_text())?,
+            _ => write!(line, ":{}", self.val.as_str())?,
+        }
         write_crlf!(out, "{}", fold_line(&line))?;
         Ok(())
     }
 
+    /// The inverse of [`ParseString::unescape_text()`]
+    fn escaped_text(&self) -> String {
+        match self.name.as_str() {
+            // commas and semicolons delimit the parts of these values
+            "CATEGORIES" | "RESOURCES" | "REQUEST-STATUS" => {
+                self.val.as_str().replace('\\', r"\\").replace('\n', r"\N")
+            }
+            _ => crate::Property::escape_text(self.val.as_str()),
+        }
+    }
+
     pub(crate) fn is_multi_property(&self) -> bool {
         MULTIS.contains(&self.name.as_str())
     }
diff --git a/src/properties.rs b/src/properties.rs
index 906e027..e470e33 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -154,7 +154,7 @@ impl Property {
     }
 
     /// <https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.11>
-    fn escape_text(input: &str) -> String {
+    pub(crate) fn escape_text(input: &str) -> String {
         input
             .replace('\\', r#"\\"#)
             .replace(',', r#"\,"#)
-- 
2.43.0


From 7e1e48e29137564255739c50ff39a0ec189bb5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 14/21] fix: escape the text properties of calendars and venues

---
 src/value_types.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/value_types.rs b/src/value_types.rs
index 2cad232..f8ccb0b 100644
--- a/src/value_types.rs
+++ b/src/value_types.rs
@@ -95,6 +95,12 @@ impl ValueType {
             // "An IANA-registered property name" => Any parameter can be specified on this property.
             // "X-"/* ... */ => Some(Text),       // any type 3.8.8.2
             "REQUEST-STATUS" => Some(Text), // 3.8.8.3
+
+            // not part of rfc5545 but written by `Calendar` and `Venue`
+            "NAME" | "X-WR-CALNAME" | "X-WR-CALDESC" => Some(Text),
+            "TIMEZONE-ID" | "X-WR-TIMEZONE" => Some(Text),
+            "STREET-ADDRESS" | "EXTENDED-ADDRESS" | "LOCALITY" => Some(Text),
+            "REGION" | "COUNTRY" | "POSTAL-CODE" => Some(Text),
             _ => None,
         }
     }
-- 
2.43.0


From ca20c922bc8bea633cc39a9e5c5b4379ff588639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 15/21] fix: read an empty quoted parameter value as empty

---
 src/parser/parameters.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parameters.rs b/src/parser/parameters.rs
index efe1f45..6491a3a 100644
--- a/src/parser/parameters.rs
+++ b/src/parser/parameters.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    bytes::complete::{is_not, tag, take_till1},
+    bytes::complete::{tag, take_till, take_till1},
     character::complete::space0,
     combinator::{eof, opt},
     error::{convert_error, ContextError, ParseError, VerboseError},
@@ -143,7 +143,7 @@ fn pair_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             tag("="),
             opt(alt((
                 eof,
-                delimited(tag("\""), is_not("\""), tag("\"")),
+                delimited(tag("\""), take_till(|c| c == '"'), tag("\"")),
                 take_till1(|x| x == ';' || x == ':'),
             )))
             .map(remove_empty_string),
@@ -168,7 +168,7 @@ fn base_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             tag("="),
             alt((
                 eof,
-                delimited(tag("\""), is_not("\""), tag("\"")),
+                delimited(tag("\""), take_till(|c| c == '"'), tag("\"")),
                 take_till1(|x| x == ';' || x == ':'),
             ))
             .map(ParseString::from),
-- 
2.43.0


From 042cc8f48257b8363c6390d88e335abb1b0f10a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 16/21] fix: end a parameter value at the end of its line

---
 src/parser/parameters.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/parameters.rs b/src/parser/parameters.rs
index 6491a3a..e40af24 100644
--- a/src/parser/parameters.rs
+++ b/src/parser/parameters.rs
@@ -143,8 +143,8 @@ fn pair_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             tag("="),
             opt(alt((
                 eof,
-                delimited(tag("\""), take_till(|c| c == '"'), tag("\"")),
-                take_till1(|x| x == ';' || x == ':'),
+                delimited(tag("\""), take_till(|c| c == '"' || c == '\n'), tag("\"")),
+                take_till1(|x| x == ';' || x == ':' || x == '\n'),
             )))
             .map(remove_empty_string),
         ),
@@ -168,8 +168,8 @@ fn base_parameter<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             tag("="),
             alt((
                 eof,
-                delimited(tag("\""), take_till(|c| c == '"'), tag("\"")),
-                take_till1(|x| x == ';' || x == ':'),
+                delimited(tag("\""), take_till(|c| c == '"' || c == '\n'), tag("\"")),
+                take_till1(|x| x == ';' || x == ':' || x == '\n'),
             ))
             .map(ParseString::from),
         ))
-- 
2.43.0


From 01d45834acc2567f9e8948e2cec9446e70de74b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 17/21] fix: fold BEGIN and END lines of long component names

---
 src/components.rs        | 12 ++++++++++--
 src/parser/components.rs |  5 +++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index 0de7e77..b3ccf86 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -92,7 +92,11 @@ pub trait Component {
 
     /// Writes [`Component`] using [`std::fmt`].
     fn fmt_write<W: fmt::Write>(&self, out: &mut W) -> Result<(), fmt::Error> {
-        write_crlf!(out, "BEGIN:{}", self.component_kind())?;
+        write_crlf!(
+            out,
+            "{}",
+            fold_line(&format!("BEGIN:{}", self.component_kind()))
+        )?;
 
         if !self.properties().contains_key("DTSTAMP") {
             let now = Utc::now();
@@ -115,7 +119,11 @@ pub trait Component {
             component.fmt_write(out)?;
         }
 
-        write_crlf!(out, "END:{}", self.component_kind())?;
+        write_crlf!(
+            out,
+            "{}",
+            fold_line(&format!("END:{}", self.component_kind()))
+        )?;
         Ok(())
     }
 
diff --git a/src/parser/components.rs b/src/parser/components.rs
index a434db7..dc4b3c6 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -32,6 +32,7 @@ use pretty_assertions::assert_eq;
 use crate::{
     calendar::CalendarComponent,
     components::{date_time::format_utc_date_time, InnerComponent, Other},
+    properties::fold_line,
 };
 
 /// The parsing equivalent of [`crate::components::Component`]
@@ -69,7 +70,7 @@ pub(crate) trait LikeComponent<'a> {
 
     /// Writes `Component` into a `Writer` using `std::fmt`.
     fn fmt_write<W: fmt::Write>(&'a self, out: &mut W) -> Result<(), fmt::Error> {
-        write_crlf!(out, "BEGIN:{}", self.name())?;
+        write_crlf!(out, "{}", fold_line(&format!("BEGIN:{}", self.name())))?;
 
         if self.name().to_lowercase() == "calendar" {
             if !self
@@ -97,7 +98,7 @@ pub(crate) trait LikeComponent<'a> {
             component.fmt_write(out)?;
         }
 
-        write_crlf!(out, "END:{}", self.name())?;
+        write_crlf!(out, "{}", fold_line(&format!("END:{}", self.name())))?;
         Ok(())
     }
 }
-- 
2.43.0


From c3e64f74e553174a771d90227a7e7bb7167535fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 18/21] fix: find fold positions by bytes, white space runs
 made folding loop or panic

---
 src/properties.rs | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/properties.rs b/src/properties.rs
index e470e33..b4c21b7 100644
--- a/src/properties.rs
+++ b/src/properties.rs
@@ -389,40 +389,30 @@ pub(crate) fn fold_line(line: &str) -> String {
     const LIMIT: usize = 75;
     let len = line.len();
     let mut ret = String::with_capacity(len + (len / LIMIT * 3));
-    let mut bytes_remaining = len;
-
     let mut pos = 0;
-    let mut next_pos = LIMIT;
     let mut limit = LIMIT;
 
-    while bytes_remaining > limit {
-        let pos_is_whitespace = |line: &str, next_pos| {
-            line.chars()
-                .nth(next_pos)
-                .map(char::is_whitespace)
-                .unwrap_or(false)
-        };
-        if pos_is_whitespace(line, next_pos) {
+    while len - pos > limit {
+        let mut next_pos = pos + limit;
+        while !line.is_char_boundary(next_pos) {
             next_pos -= 1;
         }
-
-        while !line.is_char_boundary(next_pos) {
+        // preferably not in front of whitespace
+        if line[next_pos..].starts_with(char::is_whitespace) {
             next_pos -= 1;
-            if pos_is_whitespace(line, next_pos) {
+            while !line.is_char_boundary(next_pos) {
                 next_pos -= 1;
             }
         }
         ret.push_str(&line[pos..next_pos]);
         ret.push_str("\r\n ");
 
-        bytes_remaining -= next_pos - pos;
         pos = next_pos;
         // continuation lines start with a space that counts towards the limit
         limit = LIMIT - 1;
-        next_pos += limit;
     }
 
-    ret.push_str(&line[len - bytes_remaining..]);
+    ret.push_str(&line[pos..]);
     ret
 }
 
-- 
2.43.0


From 3ce85906c5c684f3761628ae33a76f8925df070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 19/21] fix: a parsed component named CALENDAR is written
 without generated properties

---
 src/parser/components.rs | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index dc4b3c6..2bb97b0 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -1,6 +1,5 @@
 use std::{fmt, str::FromStr};
 
-use chrono::Utc;
 use nom::{
     branch::alt,
     bytes::complete::tag,
@@ -14,7 +13,6 @@ use nom::{
 
 #[cfg(test)]
 use nom::error::ErrorKind;
-use uuid::Uuid;
 
 #[cfg(test)]
 use super::parameters::Parameter;
@@ -31,7 +29,7 @@ use pretty_assertions::assert_eq;
 
 use crate::{
     calendar::CalendarComponent,
-    components::{date_time::format_utc_date_time, InnerComponent, Other},
+    components::{InnerComponent, Other},
     properties::fold_line,
 };
 
@@ -72,24 +70,6 @@ pub(crate) trait LikeComponent<'a> {
     fn fmt_write<W: fmt::Write>(&'a self, out: &mut W) -> Result<(), fmt::Error> {
         write_crlf!(out, "{}", fold_line(&format!("BEGIN:{}", self.name())))?;
 
-        if self.name().to_lowercase() == "calendar" {
-            if !self
-                .properties()
-                .iter()
-                .any(|property| property.name == "DTSTAMP")
-            {
-                let now = Utc::now();
-                write_crlf!(out, "DTSTAMP:{}", format_utc_date_time(now))?;
-            }
-
-            if !self
-                .properties()
-                .iter()
-                .any(|property| property.name == "UID")
-            {
-                write_crlf!(out, "UID:{}", Uuid::new_v4())?;
-            }
-        }
         for property in self.properties() {
             property.fmt_write(out)?;
         }
-- 
2.43.0


From 5719935b7a32be52ee5a7557698176996ff351bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:02 +0000
Subject: [PATCH 20/21] fix: end a property value at the first line ending of
 either kind

---
 src/parser/properties.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 67db615..5935816 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -12,7 +12,7 @@ use super::{
 };
 use nom::{
     branch::alt,
-    bytes::complete::{tag, take_until, take_while},
+    bytes::complete::tag,
     character::complete::{line_ending, multispace0},
     combinator::{cut, opt},
     error::{context, convert_error, ContextError, ParseError, VerboseError},
@@ -385,6 +385,16 @@ fn determin_value_type(name: &ParseString, params: &[Parameter]) -> Option<Value
         .or_else(|| ValueType::by_name(name.as_str()))
 }
 
+/// Everything up to the end of the line, be it `\r\n`, `\n` or the end of the input.
+fn property_value<'a, E: ParseError<&'a str>>(input: &'a str) -> IResult<&'a str, &'a str, E> {
+    let line = input.split('\n').next().unwrap_or(input);
+    let value = match line.strip_suffix('\r') {
+        Some(value) if line.len() < input.len() => value,
+        _ => line,
+    };
+    Ok((&input[value.len()..], value))
+}
+
 pub fn property<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     input: &'a str,
 ) -> IResult<&'a str, Property<'a>, E> {
@@ -406,13 +416,7 @@ pub fn property<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                     context("property separator", tag(":")), // separator
                     context(
                         "property value",
-                        alt((
-                            take_until("\r\n"),
-                            take_until("\n"),
-                            // this is for single line prop parsing, just so I can leave off the '\n'
-                            take_while(|_| true),
-                        ))
-                        .map(ParseString::from),
+                        property_value.map(ParseString::from),
                     ),
                 ),
                 context(
-- 
2.43.0


From 6ac21eae4d03d67ef148cf77fa1c38e487d85a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 21/21] fix: keep repeated RELATED-TO and REQUEST-STATUS
 properties

---
 src/parser/properties.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/properties.rs b/src/parser/properties.rs
index 5935816..506b3ca 100644
--- a/src/parser/properties.rs
+++ b/src/parser/properties.rs
@@ -36,9 +36,9 @@ const MULTIS: [&str; 13] = [
     "FREEBUSY",
     "IANA-PROP",
     "RDATE",
-    "RELATED",
+    "RELATED-TO",
     "RESOURCES",
-    "RSTATUS",
+    "REQUEST-STATUS",
     "X-PROP",
 ];
 
-- 
2.43.0

