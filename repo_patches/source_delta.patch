From 854c2543058335d7d3230ca7fd49a34af7c9b4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:38 +0000
Subject: [PATCH 01/54] fix: reject inserting a header without any values

A present header must have at least one value: HeaderValues::last and its
Deref impl, and with them every typed header parser, panic otherwise.
---
 src/headers/headers.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/headers/headers.rs b/src/headers/headers.rs
index a7a9d90..87332f7 100644
--- a/src/headers/headers.rs
+++ b/src/headers/headers.rs
@@ -45,6 +45,11 @@ impl Headers {
     /// Not that this will replace all header values for a given header name.
     /// If you wish to add header values for a header name that already exists
     /// use `Headers::append`
+    ///
+    /// # Errors
+    ///
+    /// An error is returned, and nothing is inserted, if `values` contains no values at all: a
+    /// header which is present always has at least one value.
     pub fn insert(
         &mut self,
         name: impl Into<HeaderName>,
@@ -52,6 +57,10 @@ impl Headers {
     ) -> crate::Result<Option<HeaderValues>> {
         let name = name.into();
         let values: HeaderValues = values.to_header_values()?.collect();
+        crate::ensure!(
+            !values.inner.is_empty(),
+            "Headers must always contain at least one value"
+        );
         Ok(self.headers.insert(name, values))
     }
 
-- 
2.43.0


From 05ae406b263861be3184432a4ce57888521c7314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:38 +0000
Subject: [PATCH 02/54] fix: do not report the number of header names as the
 upper bound of Values::size_hint

---
 src/headers/values.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/headers/values.rs b/src/headers/values.rs
index 810c051..a72a740 100644
--- a/src/headers/values.rs
+++ b/src/headers/values.rs
@@ -65,7 +65,8 @@ impl<'a> Iterator for Values<'a> {
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
         match self.inner.as_ref() {
-            Some(inner) => inner.size_hint(),
+            // Each of the remaining headers can hold any number of values.
+            Some(inner) => (inner.size_hint().0, None),
             None => (0, None),
         }
     }
-- 
2.43.0


From 94a45fcda0d336502dbc08c7452c24a55c656efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:45 +0000
Subject: [PATCH 03/54] fix: honour the declared length and count consumed
 bytes in Body's AsyncBufRead

poll_fill_buf handed out bytes past the declared length, and consume did not
advance bytes_read, so mixing the two read interfaces over-read the body and
chain() computed the wrong length for a partially consumed body.
---
 src/body.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/body.rs b/src/body.rs
index ac1acfc..2320739 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -604,11 +604,28 @@ impl AsyncRead for Body {
 impl AsyncBufRead for Body {
     #[allow(rustdoc::missing_doc_code_examples)]
     fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&'_ [u8]>> {
-        self.project().reader.poll_fill_buf(cx)
+        let this = self.project();
+        let remaining = match *this.length {
+            None => return this.reader.poll_fill_buf(cx),
+            Some(length) if length == *this.bytes_read => return Poll::Ready(Ok(&[])),
+            Some(length) => length - *this.bytes_read,
+        };
+
+        let buf = ready!(this.reader.poll_fill_buf(cx))?;
+        // Compute `min` using u64, then truncate back to usize. Since
+        // buf.len() is a usize, this can never overflow.
+        let max_len = remaining.min(buf.len() as u64) as usize;
+        Poll::Ready(Ok(&buf[..max_len]))
     }
 
     fn consume(mut self: Pin<&mut Self>, amt: usize) {
-        Pin::new(&mut self.reader).consume(amt)
+        // Never skip past the end of the body, even if the reader has more data.
+        let amt = match self.length {
+            None => amt,
+            Some(length) => (length - self.bytes_read).min(amt as u64) as usize,
+        };
+        Pin::new(&mut self.reader).consume(amt);
+        self.bytes_read += amt as u64;
     }
 }
 
-- 
2.43.0


From b810b833b6d5c10c7302a019a81c6e728e38f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:45 +0000
Subject: [PATCH 04/54] fix: do not pre-allocate the whole declared length in
 Body::into_string

Body::from_reader(reader, Some(u64::MAX)).into_string() panicked with a
capacity overflow (or aborted on allocation failure) before reading.
---
 src/body.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/body.rs b/src/body.rs
index 2320739..7349cc9 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -10,6 +10,9 @@ use std::task::{Context, Poll};
 use crate::mime::{self, Mime};
 use crate::{Status, StatusCode};
 
+/// The maximum number of bytes to allocate upfront based on the declared length of a body.
+const MAX_PREALLOCATION: usize = 64 * 1024;
+
 pin_project_lite::pin_project! {
     /// A streaming HTTP body.
     ///
@@ -226,7 +229,9 @@ impl Body {
     /// ```
     pub async fn into_string(mut self) -> crate::Result<String> {
         let len = usize::try_from(self.len().unwrap_or(0)).status(StatusCode::PayloadTooLarge)?;
-        let mut result = String::with_capacity(len);
+        // The declared length is not trusted to be the actual one: only use it as a hint, so that
+        // an absurd value can't make us run out of memory before a single byte has been read.
+        let mut result = String::with_capacity(len.min(MAX_PREALLOCATION));
         self.read_to_string(&mut result)
             .await
             .status(StatusCode::UnprocessableEntity)?;
-- 
2.43.0


From e5f315bfa942e90ffc00942f7120b11305b4c853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:43 +0000
Subject: [PATCH 05/54] fix: sniff the mime type of a file from its start
 rather than its cursor

Body::from_file streams the file from its first byte, but peeked at whatever
followed the current cursor to determine the mime type.
---
 src/body.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/body.rs b/src/body.rs
index 7349cc9..031b078 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -638,6 +638,9 @@ impl AsyncBufRead for Body {
 /// This is used for various binary formats such as images and videos.
 #[cfg(all(feature = "fs", not(target_os = "unknown")))]
 async fn peek_mime(file: &mut async_std::fs::File) -> io::Result<Option<Mime>> {
+    // The file may have been read from already; the body always starts at its first byte.
+    file.seek(io::SeekFrom::Start(0)).await?;
+
     // We need to read the first 300 bytes to correctly infer formats such as tar.
     let mut buf = [0_u8; 300];
     file.read(&mut buf).await?;
-- 
2.43.0


From 6a57416de86233fd915a4002ebaa30d75f1c40c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:29 +0000
Subject: [PATCH 06/54] fix: reject out-of-range status codes instead of
 truncating them when deserializing

---
 src/status_code.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/status_code.rs b/src/status_code.rs
index 8814183..538bc7d 100644
--- a/src/status_code.rs
+++ b/src/status_code.rs
@@ -561,21 +561,25 @@ mod serde {
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            self.visit_i64(v.into())
         }
 
         fn visit_i32<E>(self, v: i32) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            self.visit_i64(v.into())
         }
 
         fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            use std::convert::TryFrom;
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Signed(v), &self)),
+            }
         }
 
         fn visit_u16<E>(self, v: u16) -> Result<Self::Value, E>
@@ -596,14 +600,18 @@ mod serde {
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            self.visit_u64(v.into())
         }
 
         fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            use std::convert::TryFrom;
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Unsigned(v), &self)),
+            }
         }
     }
 
-- 
2.43.0


From 2f1d24c58e21b712e387bc189fc082ed61efe300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 07/54] fix: keep every header value, and reject non-ASCII
 ones, when converting from hyperium

---
 src/hyperium_http.rs | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 81d3342..48be805 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -95,19 +95,7 @@ impl TryFrom<http::HeaderMap> for Headers {
 
     fn try_from(hyperium_headers: http::HeaderMap) -> Result<Self, Self::Error> {
         let mut headers = Headers::new();
-
-        hyperium_headers
-            .into_iter()
-            .map(|(name, value)| {
-                if let Some(name) = name {
-                    let value: HeaderValue = value.try_into()?;
-                    let name: HeaderName = name.try_into()?;
-                    headers.append(name, value)?;
-                }
-                Ok(())
-            })
-            .collect::<Result<Vec<()>, Error>>()?;
-
+        hyperium_headers_to_headers(hyperium_headers, &mut headers)?;
         Ok(headers)
     }
 }
@@ -144,13 +132,14 @@ fn hyperium_headers_to_headers(
     hyperium_headers: http::HeaderMap,
     headers: &mut Headers,
 ) -> crate::Result<()> {
+    // `HeaderMap` only yields a name for the first of the values that share it.
+    let mut last_name = None;
     for (name, value) in hyperium_headers {
-        let value = value.as_bytes().to_owned();
-        let value = unsafe { HeaderValue::from_bytes_unchecked(value) };
         if let Some(name) = name {
-            let name = name.as_str().as_bytes().to_owned();
-            let name = unsafe { HeaderName::from_bytes_unchecked(name) };
-            headers.append(name, value)?;
+            last_name = Some(HeaderName::try_from(name)?);
+        }
+        if let Some(name) = &last_name {
+            headers.append(name, HeaderValue::try_from(value)?)?;
         }
     }
     Ok(())
-- 
2.43.0


From 1acd6aac48a163ef260736a7df5fd8be8864ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 08/54] fix: do not duplicate the content-type header when
 converting from hyperium

---
 src/hyperium_http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 48be805..0ec7cee 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -176,9 +176,9 @@ impl TryFrom<http::Request<Body>> for Request {
         let method = parts.method.into();
         let url = from_uri_to_url(parts.uri)?;
         let mut req = Request::new(method, url);
-        req.set_body(body);
         req.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, req.as_mut())?;
+        req.set_body(body);
         Ok(req)
     }
 }
@@ -201,9 +201,9 @@ impl TryFrom<http::Response<Body>> for Response {
     fn try_from(res: http::Response<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = res.into_parts();
         let mut res = Response::new(parts.status);
-        res.set_body(body);
         res.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, res.as_mut())?;
+        res.set_body(body);
         Ok(res)
     }
 }
-- 
2.43.0


From 0b2e99511c5fbb41636b8a19fbcadacc3517edd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:14 +0000
Subject: [PATCH 09/54] fix: report unknown methods and status codes from
 hyperium as errors instead of panicking

---
 src/hyperium_http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 0ec7cee..92bc94e 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -173,7 +173,7 @@ impl TryFrom<http::Request<Body>> for Request {
 
     fn try_from(req: http::Request<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = req.into_parts();
-        let method = parts.method.into();
+        let method = Method::from_str(parts.method.as_str())?;
         let url = from_uri_to_url(parts.uri)?;
         let mut req = Request::new(method, url);
         req.set_version(Some(parts.version.into()));
@@ -200,7 +200,7 @@ impl TryFrom<http::Response<Body>> for Response {
     type Error = crate::Error;
     fn try_from(res: http::Response<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = res.into_parts();
-        let mut res = Response::new(parts.status);
+        let mut res = Response::new(StatusCode::try_from(parts.status.as_u16())?);
         res.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, res.as_mut())?;
         res.set_body(body);
-- 
2.43.0


From 290d4e60ed309a26a03db37eeecd89a3d7a6e5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:24 +0000
Subject: [PATCH 10/54] fix: do not panic on Forwarded headers that end within
 a list of addresses

---
 src/proxies/forwarded.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 30e491b..2bbfc11 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -420,20 +420,17 @@ fn format_value(input: &str) -> Cow<'_, str> {
 }
 
 fn match_ignore_case<'a>(start: &'static str, input: &'a str) -> (bool, &'a str) {
-    let len = start.len();
-    if input[..len].eq_ignore_ascii_case(start) {
-        (true, &input[len..])
+    if starts_with_ignore_case(start, input) {
+        (true, &input[start.len()..])
     } else {
         (false, input)
     }
 }
 
 fn starts_with_ignore_case(start: &'static str, input: &str) -> bool {
-    if start.len() <= input.len() {
-        let len = start.len();
-        input[..len].eq_ignore_ascii_case(start)
-    } else {
-        false
+    match input.get(..start.len()) {
+        Some(prefix) => prefix.eq_ignore_ascii_case(start),
+        None => false,
     }
 }
 
-- 
2.43.0


From 5045b50f39c5c75e7c5bde6555976ea6f22fcdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 11/54] fix: follow the grammar of quoted strings for '!',
 control and non-Latin-1 characters

---
 src/parse_utils.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index a2dc235..7225383 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -44,7 +44,7 @@ fn tchar(c: char) -> bool {
 
 /// https://tools.ietf.org/html/rfc7230#section-3.2.6
 fn vchar(c: char) -> bool {
-    matches!(c as u8, b'\t' | 32..=126 | 128..=255)
+    matches!(c, '\t' | ' '..='~' | '\u{80}'..)
 }
 
 /// https://tools.ietf.org/html/rfc7230#section-3.2.6
@@ -65,20 +65,20 @@ pub(crate) fn parse_quoted_string(input: &str) -> (Option<Cow<'_, str>>, &str) {
             }
         // otherwise, we skip over this character while parsing
         } else {
-            match c as u8 {
+            match c {
                 // we have reached a quoted-pair
-                b'\\' => {
+                '\\' => {
                     backslashes.push(i - 1);
                 }
 
                 // end of the string, DQUOTE
-                b'"' => {
+                '"' => {
                     end_of_string = Some(i + 1);
                     break;
                 }
 
                 // qdtext
-                b'\t' | b' ' | 15 | 35..=91 | 93..=126 | 128..=255 => {}
+                '\t' | ' '..='~' | '\u{80}'.. => {}
 
                 // unexpected character, bail
                 _ => return (None, input),
-- 
2.43.0


From 11e941fb2510596a809d5a95a23a641a8304cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 12/54] fix: write Forwarded headers whose every value can be
 parsed back

---
 src/proxies/forwarded.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 2bbfc11..7efea8c 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -365,7 +365,7 @@ impl<'a> Header for Forwarded<'a> {
     fn header_value(&self) -> HeaderValue {
         let mut output = String::new();
         if let Some(by) = self.by() {
-            write!(&mut output, "by={};", by).unwrap();
+            write!(&mut output, "by={};", format_value(by)).unwrap();
         }
 
         output.push_str(
@@ -377,14 +377,16 @@ impl<'a> Header for Forwarded<'a> {
                 .join(", "),
         );
 
-        output.push(';');
+        if !self.forwarded_for.is_empty() {
+            output.push(';');
+        }
 
         if let Some(host) = self.host() {
-            write!(&mut output, "host={};", host).unwrap();
+            write!(&mut output, "host={};", format_value(host)).unwrap();
         }
 
         if let Some(proto) = self.proto() {
-            write!(&mut output, "proto={};", proto).unwrap();
+            write!(&mut output, "proto={};", format_value(proto)).unwrap();
         }
 
         // remove a trailing semicolon
@@ -404,7 +406,7 @@ fn parse_value(input: &str) -> (Option<Cow<'_, str>>, &str) {
 
 fn format_value(input: &str) -> Cow<'_, str> {
     match parse_token(input) {
-        (_, "") => input.into(),
+        (Some(_), "") => input.into(),
         _ => {
             let mut string = String::from("\"");
             for ch in input.chars() {
-- 
2.43.0


From 170733bd2ed54e44c412929df22a4f89fd8a2e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 13/54] fix: match the parameter names of the Forwarded header
 case-insensitively

---
 src/proxies/forwarded.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 7efea8c..e471aff 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -229,7 +229,7 @@ impl<'a> Forwarded<'a> {
         }
         .ok_or_else(|| ParseError::new("parse error in forwarded-pair"))?;
 
-        match key {
+        match key.to_ascii_lowercase().as_str() {
             "by" => {
                 if self.by.is_some() {
                     return Err(ParseError::new("parse error, duplicate `by` key"));
-- 
2.43.0


From 01296ff9eaf05b807229ddd7e64283de852d1fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:40 +0000
Subject: [PATCH 14/54] fix: find the Forwarded parameters of a request past
 lists, spaces and quotes

---
 src/request.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 6b3bb35..4c640fb 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -123,14 +123,30 @@ impl Request {
 
     fn forwarded_header_part(&self, part: &str) -> Option<&str> {
         self.header("Forwarded").and_then(|header| {
-            header.as_str().split(';').find_map(|key_equals_value| {
-                let parts = key_equals_value.split('=').collect::<Vec<_>>();
-                if parts.len() == 2 && parts[0].eq_ignore_ascii_case(part) {
-                    Some(parts[1])
-                } else {
-                    None
-                }
-            })
+            let (mut quoted, mut escaped) = (false, false);
+            header
+                .as_str()
+                .split(|c| {
+                    // `;` and `,` are part of the value in a quoted string
+                    match c {
+                        _ if escaped => escaped = false,
+                        '\\' if quoted => escaped = true,
+                        '"' => quoted = !quoted,
+                        ';' | ',' => return !quoted,
+                        _ => {}
+                    }
+                    false
+                })
+                .find_map(|key_equals_value| {
+                    let mut parts = key_equals_value.trim().splitn(2, '=');
+                    if parts.next()?.eq_ignore_ascii_case(part) {
+                        let value = parts.next()?;
+                        let unquoted = value.strip_prefix('"').and_then(|v| v.strip_suffix('"'));
+                        Some(unquoted.unwrap_or(value))
+                    } else {
+                        None
+                    }
+                })
         })
     }
 
-- 
2.43.0


From 1605de81838f3d6b2aee5aa8ad7ecc2ee2c7747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 15/54] fix: let the first charset parameter of a media type
 win, as for any other parameter

---
 src/mime/parse.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mime/parse.rs b/src/mime/parse.rs
index f2ec569..c6facff 100644
--- a/src/mime/parse.rs
+++ b/src/mime/parse.rs
@@ -93,7 +93,15 @@ pub(crate) fn parse(input: &str) -> crate::Result<Mime> {
         };
 
         // 10.
-        if parameter_name == "charset" && parameter_value == "utf-8" {
+        if parameter_name == "charset" && is_utf8 {
+            // The first parameter of a given name wins.
+            continue;
+        } else if parameter_name == "charset"
+            && parameter_value == "utf-8"
+            && !params
+                .iter()
+                .any(|(k, _): &(ParamName, ParamValue)| k.as_str() == "charset")
+        {
             is_utf8 = true;
         } else if !parameter_name.is_empty()
             && parameter_name.chars().all(is_http_token_code_point)
-- 
2.43.0


From 2d81533e0b7c9db5b27c7daed2c5872c78aeac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:54 +0000
Subject: [PATCH 16/54] fix: take the charset=utf-8 of the other media type
 into account in Mime::subset_eq

---
 src/mime/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mime/mod.rs b/src/mime/mod.rs
index f416de3..6856517 100644
--- a/src/mime/mod.rs
+++ b/src/mime/mod.rs
@@ -153,6 +153,9 @@ impl Mime {
         if other.subtype() != "*" && self.subtype() != other.subtype() {
             return false;
         }
+        if other.is_utf8 && self.param("charset") != other.param("charset") {
+            return false;
+        }
         for (name, value) in other.params.iter() {
             if !self
                 .param(name.clone())
-- 
2.43.0


From 449d28203dbc58bcc3e0f53d3605587ea90a4f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 17/54] fix: accept whitespace and an upper-case name in the
 weights of encodings

---
 src/utils/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 9c9ea92..d4abdf1 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -9,10 +9,10 @@ use crate::{Error, Status, StatusCode};
 use std::cmp::Ordering;
 use std::str::FromStr;
 
-/// Parse a weight of the form `q=0.123`.
+/// Parse a weight of the form `q=0.123`, which may be surrounded by whitespace.
 pub(crate) fn parse_weight(s: &str) -> crate::Result<f32> {
-    let mut parts = s.split('=');
-    if !matches!(parts.next(), Some("q")) {
+    let mut parts = s.trim().split('=');
+    if !matches!(parts.next(), Some("q") | Some("Q")) {
         let mut err = Error::new_adhoc("invalid weight");
         err.set_status(StatusCode::BadRequest);
         return Err(err);
-- 
2.43.0


From d4f9e95fb7cba433d2b6817d918642e7b3ca0bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:17 +0000
Subject: [PATCH 18/54] fix: report malformed proposals in headers as 400 Bad
 Request

---
 src/content/encoding_proposal.rs   |  3 ++-
 src/content/media_type_proposal.rs | 10 ++++++----
 src/transfer/encoding_proposal.rs  |  3 ++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/content/encoding_proposal.rs b/src/content/encoding_proposal.rs
index 7d32944..65c24dd 100644
--- a/src/content/encoding_proposal.rs
+++ b/src/content/encoding_proposal.rs
@@ -2,6 +2,7 @@ use crate::content::Encoding;
 use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::utils::parse_weight;
+use crate::Status;
 
 use std::cmp::{Ordering, PartialEq};
 use std::ops::{Deref, DerefMut};
@@ -52,7 +53,7 @@ impl EncodingProposal {
         };
         let weight = parts.next().map(parse_weight).transpose()?;
 
-        Ok(Some(Self::new(encoding, weight)?))
+        Ok(Some(Self::new(encoding, weight).status(400)?))
     }
 }
 
diff --git a/src/content/media_type_proposal.rs b/src/content/media_type_proposal.rs
index 622558d..2be48bf 100644
--- a/src/content/media_type_proposal.rs
+++ b/src/content/media_type_proposal.rs
@@ -1,6 +1,7 @@
 use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::mime::Mime;
+use crate::Status;
 
 use std::ops::{Deref, DerefMut};
 use std::{
@@ -58,12 +59,13 @@ impl MediaTypeProposal {
     /// we have to parse the full string to the media type first, and then see if
     /// a `q` value has been set.
     pub(crate) fn from_str(s: &str) -> crate::Result<Self> {
-        let mut media_type = Mime::from_str(s)?;
+        let mut media_type = Mime::from_str(s).status(400)?;
         let weight = media_type
             .remove_param("q")
-            .map(|param| param.as_str().parse())
-            .transpose()?;
-        Self::new(media_type, weight)
+            .map(|param| param.as_str().parse::<f32>())
+            .transpose()
+            .status(400)?;
+        Self::new(media_type, weight).status(400)
     }
 }
 
diff --git a/src/transfer/encoding_proposal.rs b/src/transfer/encoding_proposal.rs
index 72f083d..7e6e032 100644
--- a/src/transfer/encoding_proposal.rs
+++ b/src/transfer/encoding_proposal.rs
@@ -2,6 +2,7 @@ use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::transfer::Encoding;
 use crate::utils::parse_weight;
+use crate::Status;
 
 use std::cmp::{Ordering, PartialEq};
 use std::ops::{Deref, DerefMut};
@@ -54,7 +55,7 @@ impl EncodingProposal {
         };
         let weight = parts.next().map(parse_weight).transpose()?;
 
-        Ok(Some(Self::new(encoding, weight)?))
+        Ok(Some(Self::new(encoding, weight).status(400)?))
     }
 }
 
-- 
2.43.0


From 15e48986dfc032b11bc3ebdea4ec7d1c673b680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:19 +0000
Subject: [PATCH 19/54] fix: report unknown encodings as an error instead of
 panicking

---
 src/content/content_encoding.rs   | 2 +-
 src/transfer/transfer_encoding.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/content/content_encoding.rs b/src/content/content_encoding.rs
index bbab123..cead68b 100644
--- a/src/content/content_encoding.rs
+++ b/src/content/content_encoding.rs
@@ -57,7 +57,7 @@ impl ContentEncoding {
             }
         }
 
-        let inner = inner.expect("Headers instance with no entries found");
+        let inner = inner.ok_or_else(|| crate::format_err_status!(400, "Unknown encoding"))?;
         Ok(Some(Self { inner }))
     }
 
diff --git a/src/transfer/transfer_encoding.rs b/src/transfer/transfer_encoding.rs
index 7fede4a..f75782f 100644
--- a/src/transfer/transfer_encoding.rs
+++ b/src/transfer/transfer_encoding.rs
@@ -54,7 +54,7 @@ impl TransferEncoding {
             }
         }
 
-        let inner = inner.expect("Headers instance with no entries found");
+        let inner = inner.ok_or_else(|| crate::format_err_status!(400, "Unknown encoding"))?;
         Ok(Some(Self { inner }))
     }
 
-- 
2.43.0


From 418ef1ac2db0ad4c5ef04c26df903db198c1ab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:21 +0000
Subject: [PATCH 20/54] fix: do not negotiate what the client refused with a
 weight of zero

---
 src/content/accept.rs          | 6 ++++--
 src/content/accept_encoding.rs | 6 ++++--
 src/transfer/te.rs             | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/content/accept.rs b/src/content/accept.rs
index 87dad90..d76bd6a 100644
--- a/src/content/accept.rs
+++ b/src/content/accept.rs
@@ -128,7 +128,7 @@ impl Accept {
         self.sort();
 
         // Try and find the first encoding that matches.
-        for accept in &self.entries {
+        for accept in self.entries.iter().filter(|e| e.weight() != Some(0.0)) {
             if let Some(accept) = available.iter().find(|m| m.subset_eq(accept.media_type())) {
                 return Ok(accept.clone().into());
             }
@@ -136,7 +136,9 @@ impl Accept {
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(accept) = available.iter().next() {
+            // What is listed at this point was refused with a weight of zero.
+            let listed = |m: &Mime| self.entries.iter().any(|e| m.subset_eq(e.media_type()));
+            if let Some(accept) = available.iter().find(|m| !listed(m)) {
                 return Ok(accept.clone().into());
             }
         }
diff --git a/src/content/accept_encoding.rs b/src/content/accept_encoding.rs
index 5c469a4..d302d64 100644
--- a/src/content/accept_encoding.rs
+++ b/src/content/accept_encoding.rs
@@ -120,7 +120,7 @@ impl AcceptEncoding {
         self.sort();
 
         // Try and find the first encoding that matches.
-        for encoding in &self.entries {
+        for encoding in self.entries.iter().filter(|e| e.weight() != Some(0.0)) {
             if available.contains(encoding) {
                 return Ok(encoding.into());
             }
@@ -128,7 +128,9 @@ impl AcceptEncoding {
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(encoding) = available.iter().next() {
+            // What is listed at this point was refused with a weight of zero.
+            let listed = |encoding| self.entries.iter().any(|e| e == encoding);
+            if let Some(encoding) = available.iter().find(|e| !listed(*e)) {
                 return Ok(encoding.into());
             }
         }
diff --git a/src/transfer/te.rs b/src/transfer/te.rs
index acd1af8..919a825 100644
--- a/src/transfer/te.rs
+++ b/src/transfer/te.rs
@@ -118,7 +118,7 @@ impl TE {
         self.sort();
 
         // Try and find the first encoding that matches.
-        for encoding in &self.entries {
+        for encoding in self.entries.iter().filter(|e| e.weight() != Some(0.0)) {
             if available.contains(encoding) {
                 return Ok(encoding.into());
             }
@@ -126,7 +126,9 @@ impl TE {
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(encoding) = available.iter().next() {
+            // What is listed at this point was refused with a weight of zero.
+            let listed = |encoding| self.entries.iter().any(|e| e == encoding);
+            if let Some(encoding) = available.iter().find(|e| !listed(*e)) {
                 return Ok(encoding.into());
             }
         }
-- 
2.43.0


From 807d61d7b672f1fd965824d95bcdbffeab415b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 21/54] fix: keep negotiation repeatable when several proposals
 have the same weight

---
 src/content/accept.rs          | 12 +++++++++++-
 src/content/accept_encoding.rs | 12 +++++++++++-
 src/transfer/te.rs             | 12 +++++++++++-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/content/accept.rs b/src/content/accept.rs
index d76bd6a..d43516f 100644
--- a/src/content/accept.rs
+++ b/src/content/accept.rs
@@ -50,6 +50,8 @@ use std::slice;
 /// ```
 pub struct Accept {
     wildcard: bool,
+    // The number of leading entries which are already sorted.
+    sorted: usize,
     entries: Vec<MediaTypeProposal>,
 }
 
@@ -58,6 +60,7 @@ impl Accept {
     pub fn new() -> Self {
         Self {
             entries: vec![],
+            sorted: 0,
             wildcard: false,
         }
     }
@@ -91,7 +94,11 @@ impl Accept {
             }
         }
 
-        Ok(Some(Self { wildcard, entries }))
+        Ok(Some(Self {
+            wildcard,
+            sorted: 0,
+            entries,
+        }))
     }
 
     /// Push a directive into the list of entries.
@@ -115,7 +122,10 @@ impl Accept {
     /// directives have the same weight, the directive that was declared later
     /// will be returned first.
     pub fn sort(&mut self) {
+        // Restore the order of declaration between entries of the same weight.
+        self.entries[..self.sorted].reverse();
         sort_by_weight(&mut self.entries);
+        self.sorted = self.entries.len();
     }
 
     /// Determine the most suitable `Content-Type` encoding.
diff --git a/src/content/accept_encoding.rs b/src/content/accept_encoding.rs
index d302d64..405cda9 100644
--- a/src/content/accept_encoding.rs
+++ b/src/content/accept_encoding.rs
@@ -41,6 +41,8 @@ use std::slice;
 /// ```
 pub struct AcceptEncoding {
     wildcard: bool,
+    // The number of leading entries which are already sorted.
+    sorted: usize,
     entries: Vec<EncodingProposal>,
 }
 
@@ -49,6 +51,7 @@ impl AcceptEncoding {
     pub fn new() -> Self {
         Self {
             entries: vec![],
+            sorted: 0,
             wildcard: false,
         }
     }
@@ -83,7 +86,11 @@ impl AcceptEncoding {
             }
         }
 
-        Ok(Some(Self { wildcard, entries }))
+        Ok(Some(Self {
+            wildcard,
+            sorted: 0,
+            entries,
+        }))
     }
 
     /// Push a directive into the list of entries.
@@ -107,7 +114,10 @@ impl AcceptEncoding {
     /// directives have the same weight, the directive that was declared later
     /// will be returned first.
     pub fn sort(&mut self) {
+        // Restore the order of declaration between entries of the same weight.
+        self.entries[..self.sorted].reverse();
         sort_by_weight(&mut self.entries);
+        self.sorted = self.entries.len();
     }
 
     /// Determine the most suitable `Content-Encoding` encoding.
diff --git a/src/transfer/te.rs b/src/transfer/te.rs
index 919a825..9ceab2e 100644
--- a/src/transfer/te.rs
+++ b/src/transfer/te.rs
@@ -39,6 +39,8 @@ use std::slice;
 /// ```
 pub struct TE {
     wildcard: bool,
+    // The number of leading entries which are already sorted.
+    sorted: usize,
     entries: Vec<EncodingProposal>,
 }
 
@@ -47,6 +49,7 @@ impl TE {
     pub fn new() -> Self {
         Self {
             entries: vec![],
+            sorted: 0,
             wildcard: false,
         }
     }
@@ -81,7 +84,11 @@ impl TE {
             }
         }
 
-        Ok(Some(Self { wildcard, entries }))
+        Ok(Some(Self {
+            wildcard,
+            sorted: 0,
+            entries,
+        }))
     }
 
     /// Push a directive into the list of entries.
@@ -105,7 +112,10 @@ impl TE {
     /// directives have the same weight, the directive that was declared later
     /// will be returned first.
     pub fn sort(&mut self) {
+        // Restore the order of declaration between entries of the same weight.
+        self.entries[..self.sorted].reverse();
         sort_by_weight(&mut self.entries);
+        self.sorted = self.entries.len();
     }
 
     /// Determine the most suitable `Transfer-Encoding` encoding.
-- 
2.43.0


From 5bf3323eb0e418f6bcfbbcbfe56a8ee4a7d85542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:12 +0000
Subject: [PATCH 22/54] fix: reject HTTP dates with a day that its month does
 not have

---
 src/utils/date.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utils/date.rs b/src/utils/date.rs
index 7f9f382..ce51bd9 100644
--- a/src/utils/date.rs
+++ b/src/utils/date.rs
@@ -58,10 +58,10 @@ impl HttpDate {
         self.second < 60
             && self.minute < 60
             && self.hour < 24
-            && self.day > 0
-            && self.day < 32
             && self.month > 0
             && self.month <= 12
+            && self.day > 0
+            && self.day <= days_in_month(self.year, self.month)
             && self.year >= 1970
             && self.year <= 9999
             && self.week_day >= 1
@@ -409,6 +409,15 @@ impl PartialOrd for HttpDate {
     }
 }
 
+fn days_in_month(year: u16, month: u8) -> u8 {
+    match month {
+        4 | 6 | 9 | 11 => 30,
+        2 if is_leap_year(year) => 29,
+        2 => 28,
+        _ => 31,
+    }
+}
+
 fn is_leap_year(year: u16) -> bool {
     year % 4 == 0 && (year % 100 != 0 || year % 400 == 0)
 }
-- 
2.43.0


From 50a61cc5db715e5e4df6d19f01f1331ada80765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:15 +0000
Subject: [PATCH 23/54] fix: reject signs within the numbers of HTTP dates

---
 src/utils/date.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/utils/date.rs b/src/utils/date.rs
index ce51bd9..3878ea0 100644
--- a/src/utils/date.rs
+++ b/src/utils/date.rs
@@ -69,6 +69,15 @@ impl HttpDate {
     }
 }
 
+/// Parse a number which consists of digits only, without the sign `FromStr` allows for.
+fn parse_digits<T: FromStr>(s: &[u8]) -> crate::Result<T> {
+    from_utf8(s)?
+        .parse()
+        .ok()
+        .filter(|_| s.iter().all(u8::is_ascii_digit))
+        .ok_or_else(|| format_err!("Invalid number"))
+}
+
 fn parse_imf_fixdate(s: &[u8]) -> crate::Result<HttpDate> {
     // Example: `Sun, 06 Nov 1994 08:49:37 GMT`
     if s.len() != IMF_FIXDATE_LENGTH
@@ -80,10 +89,10 @@ fn parse_imf_fixdate(s: &[u8]) -> crate::Result<HttpDate> {
         bail!("Date time not in imf fixdate format");
     }
     Ok(HttpDate {
-        second: from_utf8(&s[23..25])?.parse()?,
-        minute: from_utf8(&s[20..22])?.parse()?,
-        hour: from_utf8(&s[17..19])?.parse()?,
-        day: from_utf8(&s[5..7])?.parse()?,
+        second: parse_digits(&s[23..25])?,
+        minute: parse_digits(&s[20..22])?,
+        hour: parse_digits(&s[17..19])?,
+        day: parse_digits(&s[5..7])?,
         month: match &s[7..12] {
             b" Jan " => 1,
             b" Feb " => 2,
@@ -99,7 +108,7 @@ fn parse_imf_fixdate(s: &[u8]) -> crate::Result<HttpDate> {
             b" Dec " => 12,
             _ => bail!("Invalid Month"),
         },
-        year: from_utf8(&s[12..16])?.parse()?,
+        year: parse_digits(&s[12..16])?,
         week_day: match &s[..5] {
             b"Mon, " => 1,
             b"Tue, " => 2,
@@ -137,17 +146,17 @@ fn parse_rfc850_date(s: &[u8]) -> crate::Result<HttpDate> {
     if s.len() != 22 || s[12] != b':' || s[15] != b':' || &s[18..22] != b" GMT" {
         bail!("Date time not in rfc950 fmt");
     }
-    let mut year = from_utf8(&s[7..9])?.parse::<u16>()?;
+    let mut year = parse_digits::<u16>(&s[7..9])?;
     if year < 70 {
         year += 2000;
     } else {
         year += 1900;
     }
     Ok(HttpDate {
-        second: from_utf8(&s[16..18])?.parse()?,
-        minute: from_utf8(&s[13..15])?.parse()?,
-        hour: from_utf8(&s[10..12])?.parse()?,
-        day: from_utf8(&s[0..2])?.parse()?,
+        second: parse_digits(&s[16..18])?,
+        minute: parse_digits(&s[13..15])?,
+        hour: parse_digits(&s[10..12])?,
+        day: parse_digits(&s[0..2])?,
         month: match &s[2..7] {
             b"-Jan-" => 1,
             b"-Feb-" => 2,
@@ -175,12 +184,12 @@ fn parse_asctime(s: &[u8]) -> crate::Result<HttpDate> {
         bail!("Date time not in asctime format");
     }
     Ok(HttpDate {
-        second: from_utf8(&s[17..19])?.parse()?,
-        minute: from_utf8(&s[14..16])?.parse()?,
-        hour: from_utf8(&s[11..13])?.parse()?,
+        second: parse_digits(&s[17..19])?,
+        minute: parse_digits(&s[14..16])?,
+        hour: parse_digits(&s[11..13])?,
         day: {
             let x = &s[8..10];
-            from_utf8(if x[0] == b' ' { &x[1..2] } else { x })?.parse()?
+            parse_digits(if x[0] == b' ' { &x[1..2] } else { x })?
         },
         month: match &s[4..8] {
             b"Jan " => 1,
@@ -197,7 +206,7 @@ fn parse_asctime(s: &[u8]) -> crate::Result<HttpDate> {
             b"Dec " => 12,
             _ => bail!("Invalid month"),
         },
-        year: from_utf8(&s[20..24])?.parse()?,
+        year: parse_digits(&s[20..24])?,
         week_day: match &s[0..4] {
             b"Mon " => 1,
             b"Tue " => 2,
-- 
2.43.0


From 6f25c2fe04342fcda9f3a9dec317cb8c3ebd8eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 24/54] fix: parse every age exactly and without panicking

---
 src/cache/age.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/age.rs b/src/cache/age.rs
index 0ee78a0..1da4833 100644
--- a/src/cache/age.rs
+++ b/src/cache/age.rs
@@ -63,7 +63,7 @@ impl Age {
         let header = headers.iter().last().unwrap();
 
         let num: u64 = header.as_str().parse::<u64>().status(400)?;
-        let dur = Duration::from_secs_f64(num as f64);
+        let dur = Duration::from_secs(num);
 
         Ok(Some(Self { dur }))
     }
-- 
2.43.0


From 8e08b70430a2c3b50b3d031fc8c293d716f38941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:18 +0000
Subject: [PATCH 25/54] fix: do not panic on a Retry-After duration which
 exceeds the range of the clock

---
 src/other/retry_after.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/other/retry_after.rs b/src/other/retry_after.rs
index 2140459..4ebcdd4 100644
--- a/src/other/retry_after.rs
+++ b/src/other/retry_after.rs
@@ -81,7 +81,7 @@ impl RetryAfter {
     /// This may return an error if the `earlier` time was after the current time.
     pub fn duration_since(&self, earlier: SystemTime) -> Result<Duration, SystemTimeError> {
         let at = match self.inner {
-            RetryDirective::Duration(dur) => SystemTime::now() + dur,
+            RetryDirective::Duration(dur) => from_now(dur),
             RetryDirective::SystemTime(at) => at,
         };
 
@@ -104,10 +104,18 @@ impl Header for RetryAfter {
     }
 }
 
+/// The time a duration from now. One that cannot be represented counts as 2^31 seconds, see
+/// [RFC 7234, section 1.2.1](https://tools.ietf.org/html/rfc7234#section-1.2.1).
+fn from_now(dur: Duration) -> SystemTime {
+    let now = SystemTime::now();
+    now.checked_add(dur)
+        .unwrap_or_else(|| now + Duration::from_secs(1 << 31))
+}
+
 impl From<RetryAfter> for SystemTime {
     fn from(retry_after: RetryAfter) -> Self {
         match retry_after.inner {
-            RetryDirective::Duration(dur) => SystemTime::now() + dur,
+            RetryDirective::Duration(dur) => from_now(dur),
             RetryDirective::SystemTime(at) => at,
         }
     }
-- 
2.43.0


From 142285af79be694111ea6cd41262e2cd1d5b3803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:27 +0000
Subject: [PATCH 26/54] fix: require the space before the time of an RFC 850
 date

---
 src/utils/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/date.rs b/src/utils/date.rs
index 3878ea0..8128796 100644
--- a/src/utils/date.rs
+++ b/src/utils/date.rs
@@ -143,7 +143,7 @@ fn parse_rfc850_date(s: &[u8]) -> crate::Result<HttpDate> {
         .or_else(|| week_day(s, 6, b"Saturday, "))
         .or_else(|| week_day(s, 7, b"Sunday, "))
         .ok_or_else(|| format_err!("Invalid day"))?;
-    if s.len() != 22 || s[12] != b':' || s[15] != b':' || &s[18..22] != b" GMT" {
+    if s.len() != 22 || s[9] != b' ' || s[12] != b':' || s[15] != b':' || &s[18..22] != b" GMT" {
         bail!("Date time not in rfc950 fmt");
     }
     let mut year = parse_digits::<u16>(&s[7..9])?;
-- 
2.43.0


From 6512ceacb6a4f4bd2e49473b24f2d64f716286b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 27/54] fix: write the s-maxage directive by its registered
 name, as it is parsed

---
 src/cache/cache_control/cache_directive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/cache_control/cache_directive.rs b/src/cache/cache_control/cache_directive.rs
index 5e8b0b9..f8f12a0 100644
--- a/src/cache/cache_control/cache_directive.rs
+++ b/src/cache/cache_control/cache_directive.rs
@@ -148,7 +148,7 @@ impl From<CacheDirective> for HeaderValue {
             Private => h("private".to_string()),
             ProxyRevalidate => h("proxy-revalidate".to_string()),
             Public => h("public".to_string()),
-            SMaxAge(dur) => h(format!("s-max-age={}", dur.as_secs())),
+            SMaxAge(dur) => h(format!("s-maxage={}", dur.as_secs())),
             StaleIfError(dur) => h(format!("stale-if-error={}", dur.as_secs())),
             StaleWhileRevalidate(dur) => h(format!("stale-while-revalidate={}", dur.as_secs())),
         }
-- 
2.43.0


From 76c6fe84b3529cd8e8e0167d876cae335d3fcbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:02 +0000
Subject: [PATCH 28/54] fix: count immutable as a response and stale-if-error
 as a request directive

---
 src/cache/cache_control/cache_directive.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cache/cache_control/cache_directive.rs b/src/cache/cache_control/cache_directive.rs
index f8f12a0..3b0e3de 100644
--- a/src/cache/cache_control/cache_directive.rs
+++ b/src/cache/cache_control/cache_directive.rs
@@ -49,7 +49,14 @@ impl CacheDirective {
         use CacheDirective::*;
         matches!(
             self,
-            MaxAge(_) | MaxStale(_) | MinFresh(_) | NoCache | NoStore | NoTransform | OnlyIfCached
+            MaxAge(_)
+                | MaxStale(_)
+                | MinFresh(_)
+                | NoCache
+                | NoStore
+                | NoTransform
+                | OnlyIfCached
+                | StaleIfError(_)
         )
     }
 
@@ -58,7 +65,8 @@ impl CacheDirective {
         use CacheDirective::*;
         matches!(
             self,
-            MustRevalidate
+            Immutable
+                | MustRevalidate
                 | NoCache
                 | NoStore
                 | NoTransform
-- 
2.43.0


From 967e4e3b6c240ceeda0ad99c857bb71f5da4a578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:04 +0000
Subject: [PATCH 29/54] fix: skip unknown Clear-Site-Data directives instead of
 panicking

---
 src/cache/clear_site_data/directive.rs | 4 ++--
 src/cache/clear_site_data/mod.rs       | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cache/clear_site_data/directive.rs b/src/cache/clear_site_data/directive.rs
index b178027..9cabb25 100644
--- a/src/cache/clear_site_data/directive.rs
+++ b/src/cache/clear_site_data/directive.rs
@@ -45,7 +45,7 @@ impl Display for ClearDirective {
 }
 
 impl FromStr for ClearDirective {
-    type Err = std::string::ParseError;
+    type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match s {
@@ -53,7 +53,7 @@ impl FromStr for ClearDirective {
             r#""cookies""# => Ok(Self::Cookies),
             r#""storage""# => Ok(Self::Storage),
             r#""executionContexts""# => Ok(Self::ExecutionContexts),
-            _ => todo!(),
+            _ => crate::bail_status!(400, "Unknown Clear-Site-Data directive"),
         }
     }
 }
diff --git a/src/cache/clear_site_data/mod.rs b/src/cache/clear_site_data/mod.rs
index bb38ab8..1dc15a8 100644
--- a/src/cache/clear_site_data/mod.rs
+++ b/src/cache/clear_site_data/mod.rs
@@ -75,7 +75,10 @@ impl ClearSiteData {
                     wildcard = true;
                     continue;
                 }
-                entries.push(ClearDirective::from_str(part)?);
+                // Directives we do not know are skipped.
+                if let Ok(entry) = ClearDirective::from_str(part) {
+                    entries.push(entry);
+                }
             }
         }
 
-- 
2.43.0


From 0e0f807666816068f0c92631d85d12afe0d99820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:05 +0000
Subject: [PATCH 30/54] fix: skip empty elements of Allow, If-Match,
 If-None-Match and Vary lists

---
 src/conditional/if_match.rs      | 3 +++
 src/conditional/if_none_match.rs | 3 +++
 src/conditional/vary.rs          | 3 +++
 src/server/allow.rs              | 6 +++++-
 4 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/conditional/if_match.rs b/src/conditional/if_match.rs
index 5f84c2b..fd8ae88 100644
--- a/src/conditional/if_match.rs
+++ b/src/conditional/if_match.rs
@@ -62,6 +62,9 @@ impl IfMatch {
         for value in headers {
             for part in value.as_str().trim().split(',') {
                 let part = part.trim();
+                if part.is_empty() {
+                    continue;
+                }
                 if part == "*" {
                     wildcard = true;
                     continue;
diff --git a/src/conditional/if_none_match.rs b/src/conditional/if_none_match.rs
index b4b37af..8307801 100644
--- a/src/conditional/if_none_match.rs
+++ b/src/conditional/if_none_match.rs
@@ -68,6 +68,9 @@ impl IfNoneMatch {
         for value in headers {
             for part in value.as_str().trim().split(',') {
                 let part = part.trim();
+                if part.is_empty() {
+                    continue;
+                }
                 if part == "*" {
                     wildcard = true;
                     continue;
diff --git a/src/conditional/vary.rs b/src/conditional/vary.rs
index 9023811..2f2ad0b 100644
--- a/src/conditional/vary.rs
+++ b/src/conditional/vary.rs
@@ -62,6 +62,9 @@ impl Vary {
         for value in headers {
             for part in value.as_str().trim().split(',') {
                 let part = part.trim();
+                if part.is_empty() {
+                    continue;
+                }
                 if part == "*" {
                     wildcard = true;
                     continue;
diff --git a/src/server/allow.rs b/src/server/allow.rs
index 9377a3f..bbe6938 100644
--- a/src/server/allow.rs
+++ b/src/server/allow.rs
@@ -58,7 +58,11 @@ impl Allow {
 
         for value in headers {
             for part in value.as_str().trim().split(',') {
-                let method = Method::from_str(part.trim())?;
+                let part = part.trim();
+                if part.is_empty() {
+                    continue;
+                }
+                let method = Method::from_str(part)?;
                 entries.insert(method);
             }
         }
-- 
2.43.0


From 9c53101a796afc03c04b6a5558ddbc9199110df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:07 +0000
Subject: [PATCH 31/54] fix: report malformed Allow and Vary headers as 400 Bad
 Request

---
 src/conditional/vary.rs | 3 ++-
 src/server/allow.rs     | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/conditional/vary.rs b/src/conditional/vary.rs
index 2f2ad0b..545cb09 100644
--- a/src/conditional/vary.rs
+++ b/src/conditional/vary.rs
@@ -1,6 +1,7 @@
 //! Apply the HTTP method if the ETag matches.
 
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, VARY};
+use crate::Status;
 
 use std::fmt::{self, Debug, Write};
 use std::iter::Iterator;
@@ -69,7 +70,7 @@ impl Vary {
                     wildcard = true;
                     continue;
                 }
-                let entry = HeaderName::from_str(part.trim())?;
+                let entry = HeaderName::from_str(part.trim()).status(400)?;
                 entries.push(entry);
             }
         }
diff --git a/src/server/allow.rs b/src/server/allow.rs
index bbe6938..f47c5f6 100644
--- a/src/server/allow.rs
+++ b/src/server/allow.rs
@@ -1,7 +1,7 @@
 //! List the set of methods supported by a resource.
 
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, ALLOW};
-use crate::Method;
+use crate::{Method, Status};
 
 use std::collections::{hash_set, HashSet};
 use std::fmt::{self, Debug, Write};
@@ -62,7 +62,7 @@ impl Allow {
                 if part.is_empty() {
                     continue;
                 }
-                let method = Method::from_str(part)?;
+                let method = Method::from_str(part).status(400)?;
                 entries.insert(method);
             }
         }
-- 
2.43.0


From a6d2a8cdc36b830ab008cc10b7838ab46ad36b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 32/54] fix: do not split entity tags at the commas they
 contain

---
 src/conditional/if_match.rs      |  4 ++--
 src/conditional/if_none_match.rs |  4 ++--
 src/parse_utils.rs               | 11 +++++++++++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/conditional/if_match.rs b/src/conditional/if_match.rs
index fd8ae88..26b36c1 100644
--- a/src/conditional/if_match.rs
+++ b/src/conditional/if_match.rs
@@ -1,7 +1,7 @@
 //! Apply the HTTP method if the ETag matches.
 
 use crate::headers::{HeaderName, HeaderValue, Headers, IF_MATCH};
-use crate::{conditional::ETag, headers::Header};
+use crate::{conditional::ETag, headers::Header, parse_utils::split_etags};
 
 use std::fmt::{self, Debug, Write};
 use std::iter::Iterator;
@@ -60,7 +60,7 @@ impl IfMatch {
 
         let mut wildcard = false;
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            for part in split_etags(value.as_str()) {
                 let part = part.trim();
                 if part.is_empty() {
                     continue;
diff --git a/src/conditional/if_none_match.rs b/src/conditional/if_none_match.rs
index 8307801..364d6e7 100644
--- a/src/conditional/if_none_match.rs
+++ b/src/conditional/if_none_match.rs
@@ -4,7 +4,7 @@
 //! one already exists.
 
 use crate::headers::{HeaderName, HeaderValue, Headers, IF_NONE_MATCH};
-use crate::{conditional::ETag, headers::Header};
+use crate::{conditional::ETag, headers::Header, parse_utils::split_etags};
 
 use std::fmt::{self, Debug, Write};
 use std::iter::Iterator;
@@ -66,7 +66,7 @@ impl IfNoneMatch {
 
         let mut wildcard = false;
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            for part in split_etags(value.as_str()) {
                 let part = part.trim();
                 if part.is_empty() {
                     continue;
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 7225383..b9a21c3 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -117,6 +117,17 @@ pub(crate) fn parse_quoted_string(input: &str) -> (Option<Cow<'_, str>>, &str) {
     }
 }
 
+/// Split a list of entity tags at the commas outside of their quotes.
+///
+/// https://tools.ietf.org/html/rfc7232#section-2.3
+pub(crate) fn split_etags(input: &str) -> impl Iterator<Item = &str> {
+    let mut quoted = false;
+    input.split(move |c| {
+        quoted ^= c == '"';
+        c == ',' && !quoted
+    })
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 7f557f96e7ae365f9ed1d88fb8144b7c5d89c29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:31 +0000
Subject: [PATCH 33/54] fix: do not read directives inside of the quoted
 arguments of Cache-Control

---
 src/cache/cache_control/cache_control.rs |  4 ++--
 src/parse_utils.rs                       | 17 +++++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/cache/cache_control/cache_control.rs b/src/cache/cache_control/cache_control.rs
index deffd6b..8fe4132 100644
--- a/src/cache/cache_control/cache_control.rs
+++ b/src/cache/cache_control/cache_control.rs
@@ -1,7 +1,7 @@
 use headers::Header;
 
 use crate::headers::{HeaderName, HeaderValue, Headers, CACHE_CONTROL};
-use crate::{cache::CacheDirective, headers};
+use crate::{cache::CacheDirective, headers, parse_utils::split_list};
 
 use std::fmt::{self, Debug, Write};
 use std::iter::Iterator;
@@ -50,7 +50,7 @@ impl CacheControl {
         };
 
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            for part in split_list(value.as_str()) {
                 // Try and parse a directive from a str. If the directive is
                 // unkown we skip it.
                 if let Some(entry) = CacheDirective::from_str(part)? {
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index b9a21c3..2442434 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -128,6 +128,23 @@ pub(crate) fn split_etags(input: &str) -> impl Iterator<Item = &str> {
     })
 }
 
+/// Split a list at the commas outside of its quoted strings.
+///
+/// https://tools.ietf.org/html/rfc7230#section-3.2.6
+pub(crate) fn split_list(input: &str) -> impl Iterator<Item = &str> {
+    let mut quoted = false;
+    let mut escaped = false;
+    input.split(move |c| {
+        match c {
+            _ if escaped => escaped = false,
+            '\\' => escaped = quoted,
+            '"' => quoted = !quoted,
+            _ => {}
+        }
+        c == ',' && !quoted
+    })
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 789da72f77b6ca67c70a0bb0b28fa786321f5b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:00 +0000
Subject: [PATCH 34/54] fix: report malformed traceparent headers as 400
 instead of panicking

---
 src/trace/trace_context.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/trace/trace_context.rs b/src/trace/trace_context.rs
index 3bc062f..076ca39 100644
--- a/src/trace/trace_context.rs
+++ b/src/trace/trace_context.rs
@@ -1,7 +1,7 @@
 use std::fmt;
 
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, TRACEPARENT};
-use crate::Status;
+use crate::{ensure_status, Status};
 
 /// Extract and apply [Trace-Context](https://w3c.github.io/trace-context/) headers.
 ///
@@ -106,14 +106,23 @@ impl TraceContext {
             Some(header) => header,
             None => return Ok(None),
         };
-        let parts: Vec<&str> = traceparent.as_str().split('-').collect();
+        let mut parts = traceparent.as_str().split('-');
+        let mut next = || {
+            let part = parts.next().status(400)?;
+            ensure_status!(
+                part.bytes().all(|b| b.is_ascii_hexdigit()),
+                400,
+                "Expected a hexadecimal number"
+            );
+            crate::Result::Ok(part)
+        };
 
         Ok(Some(Self {
             id: fastrand::u64(..),
-            version: u8::from_str_radix(parts[0], 16)?,
-            trace_id: u128::from_str_radix(parts[1], 16).status(400)?,
-            parent_id: Some(u64::from_str_radix(parts[2], 16).status(400)?),
-            flags: u8::from_str_radix(parts[3], 16).status(400)?,
+            version: u8::from_str_radix(next()?, 16).status(400)?,
+            trace_id: u128::from_str_radix(next()?, 16).status(400)?,
+            parent_id: Some(u64::from_str_radix(next()?, 16).status(400)?),
+            flags: u8::from_str_radix(next()?, 16).status(400)?,
         }))
     }
 
-- 
2.43.0


From 4f25265b03a45c54a15f817d38921270645f75e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:01 +0000
Subject: [PATCH 35/54] fix: report Server-Timing durations out of range as 400
 instead of panicking

---
 src/trace/server_timing/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index 4469336..f5482bc 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -65,6 +65,10 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
                 let millis: f64 = value.parse().map_err(|_| {
                         format_err!("Server timing duration params must be a valid double-precision floating-point number.")
                     })?;
+                ensure!(
+                    millis >= 0.0 && millis < u64::MAX as f64,
+                    "Server timing duration params must be within the range of a duration"
+                );
                 dur = Some(Duration::from_secs_f64(millis) / 1000);
             }
             "desc" => {
-- 
2.43.0


From e21a5c99e75321f3394ef3c69fcf3ed9a42501fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 36/54] fix: read and write Server-Timing descriptions as
 quoted strings

---
 src/cache/cache_control/cache_control.rs |  2 +-
 src/parse_utils.rs                       |  6 ++---
 src/trace/server_timing/metric.rs        |  5 ++++-
 src/trace/server_timing/parse.rs         | 28 ++++++++++++------------
 4 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/cache/cache_control/cache_control.rs b/src/cache/cache_control/cache_control.rs
index 8fe4132..12f8205 100644
--- a/src/cache/cache_control/cache_control.rs
+++ b/src/cache/cache_control/cache_control.rs
@@ -50,7 +50,7 @@ impl CacheControl {
         };
 
         for value in headers {
-            for part in split_list(value.as_str()) {
+            for part in split_list(value.as_str(), ',') {
                 // Try and parse a directive from a str. If the directive is
                 // unkown we skip it.
                 if let Some(entry) = CacheDirective::from_str(part)? {
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 2442434..4468b8c 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -128,10 +128,10 @@ pub(crate) fn split_etags(input: &str) -> impl Iterator<Item = &str> {
     })
 }
 
-/// Split a list at the commas outside of its quoted strings.
+/// Split a list at the separators outside of its quoted strings.
 ///
 /// https://tools.ietf.org/html/rfc7230#section-3.2.6
-pub(crate) fn split_list(input: &str) -> impl Iterator<Item = &str> {
+pub(crate) fn split_list(input: &str, separator: char) -> impl Iterator<Item = &str> {
     let mut quoted = false;
     let mut escaped = false;
     input.split(move |c| {
@@ -141,7 +141,7 @@ pub(crate) fn split_list(input: &str) -> impl Iterator<Item = &str> {
             '"' => quoted = !quoted,
             _ => {}
         }
-        c == ',' && !quoted
+        c == separator && !quoted
     })
 }
 
diff --git a/src/trace/server_timing/metric.rs b/src/trace/server_timing/metric.rs
index ed55c18..233c249 100644
--- a/src/trace/server_timing/metric.rs
+++ b/src/trace/server_timing/metric.rs
@@ -59,7 +59,10 @@ impl From<Metric> for HeaderValue {
         // Format a `Duration` into the format that the spec expects.
         let f = |d: Duration| d.as_secs_f64() * 1000.0;
 
-        match (entry.dur, entry.desc) {
+        // Escape a description so that it can be quoted.
+        let q = |s: String| s.replace('\\', r"\\").replace('"', r#"\""#);
+
+        match (entry.dur, entry.desc.map(q)) {
             (Some(dur), Some(desc)) => {
                 string.push_str(&format!("; dur={}; desc=\"{}\"", f(dur), desc))
             }
diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index f5482bc..b7d4ff8 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -1,13 +1,14 @@
 use std::time::Duration;
 
 use super::Metric;
-use crate::{ensure, format_err, StatusCode};
+use crate::parse_utils::{parse_quoted_string, split_list};
+use crate::{bail, ensure, format_err, StatusCode};
 
 /// Parse multiple entries from a single header.
 ///
 /// Each entry is comma-delimited.
 pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<()> {
-    for part in s.trim().split(',') {
+    for part in split_list(s, ',') {
         let entry = parse_entry(part).map_err(|mut e| {
             e.set_status(StatusCode::BadRequest);
             e
@@ -30,7 +31,7 @@ pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<
 //
 /// Source: https://w3c.github.io/server-timing/#the-server-timing-header-field
 fn parse_entry(s: &str) -> crate::Result<Metric> {
-    let mut parts = s.trim().split(';');
+    let mut parts = split_list(s.trim(), ';');
 
     // Get the name. This is non-optional.
     let name = parts
@@ -50,15 +51,15 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
 
         part = part.trim_start();
 
-        let mut params = part.split('=');
+        let mut params = part.splitn(2, '=');
         let name = params
             .next()
             .ok_or_else(|| format_err!("Server timing params must have a name"))?
             .trim_end();
-        let mut value = params
+        let value = params
             .next()
             .ok_or_else(|| format_err!("Server timing params must have a value"))?
-            .trim_start();
+            .trim();
 
         match name {
             "dur" => {
@@ -73,19 +74,18 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
             }
             "desc" => {
                 // Ensure quotes line up, and strip them from the resulting output
-                if value.starts_with('"') {
-                    value = &value[1..value.len()];
-                    ensure!(
-                        value.ends_with('"'),
-                        "Server timing description params must use matching quotes"
-                    );
-                    value = &value[0..value.len() - 1];
+                let value = if value.starts_with('"') {
+                    match parse_quoted_string(value) {
+                        (Some(value), "") => value,
+                        _ => bail!("Server timing description params must use matching quotes"),
+                    }
                 } else {
                     ensure!(
                         !value.ends_with('"'),
                         "Server timing description params must use matching quotes"
                     );
-                }
+                    value.into()
+                };
                 desc = Some(value.to_string());
             }
             _ => continue,
-- 
2.43.0


From a05609bb8e1adb48a2d4b34229d10f24fd6f7219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:05 +0000
Subject: [PATCH 37/54] fix: require a name of every Server-Timing metric and
 skip empty elements

---
 src/trace/server_timing/parse.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index b7d4ff8..9216635 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -9,6 +9,10 @@ use crate::{bail, ensure, format_err, StatusCode};
 /// Each entry is comma-delimited.
 pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<()> {
     for part in split_list(s, ',') {
+        // Empty elements of a list are ignored.
+        if part.trim().is_empty() {
+            continue;
+        }
         let entry = parse_entry(part).map_err(|mut e| {
             e.set_status(StatusCode::BadRequest);
             e
@@ -38,6 +42,10 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
         .next()
         .ok_or_else(|| format_err!("Server timing headers must include a name"))?
         .trim_end();
+    ensure!(
+        !name.is_empty(),
+        "Server timing headers must include a name"
+    );
 
     // We must extract these values from the k-v pairs that follow.
     let mut dur = None;
-- 
2.43.0


From 96c8c323727bd75fa09c179162f70896932382ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:06 +0000
Subject: [PATCH 38/54] fix: let the first of equal Server-Timing parameters
 count

---
 src/trace/server_timing/parse.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index 9216635..1985454 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -47,7 +47,8 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
         "Server timing headers must include a name"
     );
 
-    // We must extract these values from the k-v pairs that follow.
+    // We must extract these values from the k-v pairs that follow. Of equal
+    // names only the first counts.
     let mut dur = None;
     let mut desc = None;
 
@@ -70,7 +71,7 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
             .trim();
 
         match name {
-            "dur" => {
+            "dur" if dur.is_none() => {
                 let millis: f64 = value.parse().map_err(|_| {
                         format_err!("Server timing duration params must be a valid double-precision floating-point number.")
                     })?;
@@ -80,7 +81,7 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
                 );
                 dur = Some(Duration::from_secs_f64(millis) / 1000);
             }
-            "desc" => {
+            "desc" if desc.is_none() => {
                 // Ensure quotes line up, and strip them from the resulting output
                 let value = if value.starts_with('"') {
                     match parse_quoted_string(value) {
-- 
2.43.0


From 0504266816603a030cc8b78e6caa2d7961178d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 39/54] fix: accept several spaces before the credentials of
 Authorization

---
 src/auth/authorization.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auth/authorization.rs b/src/auth/authorization.rs
index cf2f2dd..d24d1db 100644
--- a/src/auth/authorization.rs
+++ b/src/auth/authorization.rs
@@ -62,7 +62,11 @@ impl Authorization {
         let (scheme, credentials) = match (scheme, credential) {
             (None, _) => bail!(400, "Could not find scheme"),
             (Some(_), None) => bail!(400, "Could not find credentials"),
-            (Some(scheme), Some(credentials)) => (scheme.parse()?, credentials.to_owned()),
+            (Some(scheme), Some(credentials)) => (
+                scheme.parse()?,
+                // any number of spaces may precede the credentials
+                credentials.trim_start_matches(' ').to_owned(),
+            ),
         };
 
         Ok(Some(Self {
-- 
2.43.0


From 7f7804131c4a029ff2afd33076901df0878c8278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 40/54] fix: read and write the realm as a quoted string,
 wherever it is in WWW-Authenticate

---
 src/auth/www_authenticate.rs | 51 ++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/auth/www_authenticate.rs b/src/auth/www_authenticate.rs
index bf9d7a0..cdc75cc 100644
--- a/src/auth/www_authenticate.rs
+++ b/src/auth/www_authenticate.rs
@@ -1,5 +1,6 @@
 use crate::bail_status as bail;
 use crate::headers::{HeaderName, HeaderValue, Headers, WWW_AUTHENTICATE};
+use crate::parse_utils::{parse_quoted_string, parse_token};
 use crate::{auth::AuthenticationScheme, headers::Header};
 
 /// Define the authentication method that should be used to gain access to a
@@ -65,32 +66,35 @@ impl WwwAuthenticate {
         let (scheme, realm) = match (scheme, credential) {
             (None, _) => bail!(400, "Could not find scheme"),
             (Some(_), None) => bail!(400, "Could not find realm"),
-            (Some(scheme), Some(realm)) => (scheme.parse()?, realm.to_owned()),
+            (Some(scheme), Some(params)) => (scheme.parse()?, Self::parse_realm(params)?),
         };
 
-        let realm = realm.trim_start();
-        let realm = match realm.strip_prefix(r#"realm=""#) {
-            Some(realm) => realm,
-            None => bail!(400, "realm not found"),
-        };
+        Ok(Some(Self { scheme, realm }))
+    }
 
-        let mut chars = realm.chars();
-        let mut closing_quote = false;
-        let realm = (&mut chars)
-            .take_while(|c| {
-                if c == &'"' {
-                    closing_quote = true;
-                    false
-                } else {
-                    true
-                }
-            })
-            .collect();
-        if !closing_quote {
-            bail!(400, r"Expected a closing quote");
+    /// Find the realm among the parameters of a challenge.
+    fn parse_realm(mut input: &str) -> crate::Result<String> {
+        loop {
+            input = input.trim_start_matches(|c| matches!(c, ' ' | '\t' | ','));
+            let (name, value) = match parse_token(input) {
+                (Some(name), rest) => match rest.trim_start().strip_prefix('=') {
+                    Some(value) => (name, value.trim_start()),
+                    None => bail!(400, "realm not found"),
+                },
+                (None, _) => bail!(400, "realm not found"),
+            };
+            let (value, rest) = match parse_quoted_string(value) {
+                (Some(value), rest) => (value, rest),
+                _ => match parse_token(value) {
+                    (Some(value), rest) => (value.into(), rest),
+                    _ => bail!(400, "Expected a closing quote"),
+                },
+            };
+            if name.eq_ignore_ascii_case("realm") {
+                return Ok(value.into_owned());
+            }
+            input = rest;
         }
-
-        Ok(Some(Self { scheme, realm }))
     }
 
     /// Get the authorization scheme.
@@ -120,7 +124,8 @@ impl Header for WwwAuthenticate {
     }
 
     fn header_value(&self) -> HeaderValue {
-        let output = format!(r#"{} realm="{}", charset="UTF-8""#, self.scheme, self.realm);
+        let realm = self.realm.replace('\\', r"\\").replace('"', r#"\""#);
+        let output = format!(r#"{} realm="{}", charset="UTF-8""#, self.scheme, realm);
 
         // SAFETY: the internal string is validated to be ASCII.
         unsafe { HeaderValue::from_bytes_unchecked(output.into()) }
-- 
2.43.0


From ff1d66afc99d95a7516d0742e9023c9159e84e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:56 +0000
Subject: [PATCH 41/54] fix: remove and replace X-Powered-By headers under
 their lower-case name

---
 src/security/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/security/mod.rs b/src/security/mod.rs
index 2cb9b6a..a541440 100644
--- a/src/security/mod.rs
+++ b/src/security/mod.rs
@@ -118,7 +118,7 @@ pub fn frameguard(mut headers: impl AsMut<Headers>, guard: Option<FrameOptions>)
 // /// ```
 #[inline]
 pub fn powered_by(mut headers: impl AsMut<Headers>, value: Option<HeaderValue>) {
-    let name = HeaderName::from_lowercase_str("X-Powered-By");
+    let name = HeaderName::from_lowercase_str("x-powered-by");
     match value {
         Some(value) => {
             // Can never fail as value is already a HeaderValue, could use unsafe version of insert
-- 
2.43.0


From c8861fdf56af7aadedc912ce3a23d0fd4120aa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 42/54] fix: do not repeat the directives of a content security
 policy when it is applied again

---
 src/security/csp.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/security/csp.rs b/src/security/csp.rs
index 9478f34..a1530b0 100644
--- a/src/security/csp.rs
+++ b/src/security/csp.rs
@@ -345,13 +345,14 @@ impl ContentSecurityPolicy {
     }
 
     /// Create and retrieve the policy value
-    fn value(&mut self) -> String {
+    fn value(&self) -> String {
+        let mut policies = self.policy.clone();
         for (directive, sources) in &self.directives {
             let policy = format!("{} {}", directive, sources.join(" "));
-            self.policy.push(policy);
-            self.policy.sort();
+            policies.push(policy);
+            policies.sort();
         }
-        self.policy.join("; ")
+        policies.join("; ")
     }
 
     /// Sets the `Content-Security-Policy` (CSP) HTTP header to prevent cross-site injections
-- 
2.43.0


From 519ed6580aa63461700f502eac4cf73986e1c062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:59 +0000
Subject: [PATCH 43/54] fix: match the directives of Strict-Transport-Security
 case-insensitively

---
 src/security/strict_transport_security.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/security/strict_transport_security.rs b/src/security/strict_transport_security.rs
index f6c4fe4..879a13d 100644
--- a/src/security/strict_transport_security.rs
+++ b/src/security/strict_transport_security.rs
@@ -111,9 +111,9 @@ impl StrictTransportSecurity {
         // the spec we should just ignore it.
         for s in value.as_str().split(';') {
             let s = s.trim();
-            if s == "includesubdomains" {
+            if s.eq_ignore_ascii_case("includesubdomains") {
                 include_subdomains = true;
-            } else if s == "preload" {
+            } else if s.eq_ignore_ascii_case("preload") {
                 preload = true;
             } else {
                 let (key, value) = match s.split_once('=') {
@@ -121,7 +121,7 @@ impl StrictTransportSecurity {
                     None => continue, // We don't recognize the directive, continue.
                 };
 
-                if key == "max-age" {
+                if key.eq_ignore_ascii_case("max-age") {
                     let secs = value.parse::<u64>().status(400)?;
                     max_age = Some(Duration::from_secs(secs));
                 }
-- 
2.43.0


From f2db662761d42fec4aa08d2f499b62a3300b5cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:01 +0000
Subject: [PATCH 44/54] fix: accept a quoted max-age of
 Strict-Transport-Security

---
 src/security/strict_transport_security.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/security/strict_transport_security.rs b/src/security/strict_transport_security.rs
index 879a13d..5f2776b 100644
--- a/src/security/strict_transport_security.rs
+++ b/src/security/strict_transport_security.rs
@@ -122,6 +122,10 @@ impl StrictTransportSecurity {
                 };
 
                 if key.eq_ignore_ascii_case("max-age") {
+                    let value = match value.strip_prefix('"') {
+                        Some(value) => value.strip_suffix('"').status(400)?,
+                        None => value,
+                    };
                     let secs = value.parse::<u64>().status(400)?;
                     max_age = Some(Duration::from_secs(secs));
                 }
-- 
2.43.0


From ece69e00e1cc9385999ded97eca59adb88e83c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:02 +0000
Subject: [PATCH 45/54] fix: skip null and empty elements of
 Timing-Allow-Origin, and trim both ends

---
 src/security/timing_allow_origin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/security/timing_allow_origin.rs b/src/security/timing_allow_origin.rs
index 443427f..fe80ee2 100644
--- a/src/security/timing_allow_origin.rs
+++ b/src/security/timing_allow_origin.rs
@@ -87,9 +87,9 @@ impl TimingAllowOrigin {
         let mut origins = vec![];
         for header in headers {
             for origin in header.as_str().split(',') {
-                match origin.trim_start() {
+                match origin.trim() {
                     "*" => wildcard = true,
-                    r#""null""# => continue,
+                    "" | "null" | r#""null""# => continue,
                     origin => {
                         let url = Url::parse(origin).status(400)?;
                         origins.push(url);
-- 
2.43.0


From 530796894c6f24db466dbca064f35c289cddad66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 46/54] fix: compare the value of Expect case-insensitively

---
 src/other/expect.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/other/expect.rs b/src/other/expect.rs
index 086c0d0..274a242 100644
--- a/src/other/expect.rs
+++ b/src/other/expect.rs
@@ -1,5 +1,5 @@
 use crate::headers::{HeaderName, HeaderValue, Headers, EXPECT};
-use crate::{ensure_eq_status, headers::Header};
+use crate::{ensure_status, headers::Header};
 
 use std::fmt::Debug;
 
@@ -50,7 +50,11 @@ impl Expect {
         // If we successfully parsed the header then there's always at least one
         // entry. We want the last entry.
         let header = headers.iter().last().unwrap();
-        ensure_eq_status!(header, "100-continue", 400, "malformed `Expect` header");
+        ensure_status!(
+            header.as_str().eq_ignore_ascii_case("100-continue"),
+            400,
+            "malformed `Expect` header"
+        );
 
         Ok(Some(Self { _priv: () }))
     }
-- 
2.43.0


From 5bff6e48fa9768aaeeb5a6d6ae931ccd03135e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 47/54] fix: reject a sign within Content-Length

---
 src/content/content_length.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/content/content_length.rs b/src/content/content_length.rs
index 4bae42f..d489052 100644
--- a/src/content/content_length.rs
+++ b/src/content/content_length.rs
@@ -1,5 +1,5 @@
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, CONTENT_LENGTH};
-use crate::Status;
+use crate::{ensure_status, Status};
 
 /// The size of the entity-body, in bytes, sent to the recipient.
 ///
@@ -47,7 +47,13 @@ impl ContentLength {
         // If we successfully parsed the header then there's always at least one
         // entry. We want the last entry.
         let value = headers.iter().last().unwrap();
-        let length = value.as_str().trim().parse::<u64>().status(400)?;
+        let value = value.as_str().trim();
+        ensure_status!(
+            value.bytes().all(|b| b.is_ascii_digit()),
+            400,
+            "Content-Length must consist of digits"
+        );
+        let length = value.parse::<u64>().status(400)?;
         Ok(Some(Self { length }))
     }
 
-- 
2.43.0


From 670b431c90f1a416c0c2223534370405b371afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:04 +0000
Subject: [PATCH 48/54] fix: do not split the media types of Accept at the
 commas within their parameters

---
 src/content/accept.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/content/accept.rs b/src/content/accept.rs
index d43516f..1ef7349 100644
--- a/src/content/accept.rs
+++ b/src/content/accept.rs
@@ -2,6 +2,7 @@
 
 use crate::headers::{HeaderName, HeaderValue, Headers, ACCEPT};
 use crate::mime::Mime;
+use crate::parse_utils::split_list;
 use crate::utils::sort_by_weight;
 use crate::{
     content::{ContentType, MediaTypeProposal},
@@ -76,7 +77,7 @@ impl Accept {
         let mut wildcard = false;
 
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            for part in split_list(value.as_str().trim(), ',') {
                 let part = part.trim();
 
                 // Handle empty strings, and wildcard directives.
-- 
2.43.0


From b2ba8a5a561da9031de04ef14e0354e9379b3eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:42 +0000
Subject: [PATCH 49/54] fix: do not read directives inside of the quoted values
 of Strict-Transport-Security

---
 src/security/strict_transport_security.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/security/strict_transport_security.rs b/src/security/strict_transport_security.rs
index 5f2776b..51e21e1 100644
--- a/src/security/strict_transport_security.rs
+++ b/src/security/strict_transport_security.rs
@@ -1,4 +1,5 @@
 use crate::headers::{Header, HeaderName, HeaderValue, Headers};
+use crate::parse_utils::split_list;
 use crate::Status;
 
 use crate::headers::STRICT_TRANSPORT_SECURITY;
@@ -109,7 +110,7 @@ impl StrictTransportSecurity {
 
         // Attempt to parse all values. If we don't recognize a directive, per
         // the spec we should just ignore it.
-        for s in value.as_str().split(';') {
+        for s in split_list(value.as_str(), ';') {
             let s = s.trim();
             if s.eq_ignore_ascii_case("includesubdomains") {
                 include_subdomains = true;
-- 
2.43.0


From 0ddb81a2d09cd1892d9066b6703565c690c65bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:43 +0000
Subject: [PATCH 50/54] fix: sniff only the bytes read from a short file

---
 src/body.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/body.rs b/src/body.rs
index 031b078..167d49b 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -643,8 +643,8 @@ async fn peek_mime(file: &mut async_std::fs::File) -> io::Result<Option<Mime>> {
 
     // We need to read the first 300 bytes to correctly infer formats such as tar.
     let mut buf = [0_u8; 300];
-    file.read(&mut buf).await?;
-    let mime = Mime::sniff(&buf).ok();
+    let n = file.read(&mut buf).await?;
+    let mime = Mime::sniff(&buf[..n]).ok();
 
     // Reset the file cursor back to the start.
     file.seek(io::SeekFrom::Start(0)).await?;
-- 
2.43.0


From 48c06d075ec4e8a9b395c637aea4eabec5636777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:48 +0000
Subject: [PATCH 51/54] fix: do not panic while sniffing ten bytes which begin
 a CR2 image

---
 src/mime/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mime/mod.rs b/src/mime/mod.rs
index 6856517..d176bf4 100644
--- a/src/mime/mod.rs
+++ b/src/mime/mod.rs
@@ -43,6 +43,17 @@ impl Mime {
     /// Sniff the mime type from a byte slice.
     pub fn sniff(bytes: &[u8]) -> crate::Result<Self> {
         let info = Infer::new();
+
+        // When looking for CR2 images, `infer` checks for ten bytes but reads eleven. Hence ten
+        // bytes are padded by one, which no other format can tell from the end of the input.
+        let mut padded = [0_u8; 11];
+        let bytes = if bytes.len() == 10 {
+            padded[..10].copy_from_slice(bytes);
+            &padded[..]
+        } else {
+            bytes
+        };
+
         let mime = match info.get(bytes) {
             Some(info) => info.mime_type(),
             None => crate::bail!("Could not sniff the mime type"),
-- 
2.43.0


From 4ce20a84e115204b05c593316df0746f910ec631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:49 +0000
Subject: [PATCH 52/54] fix: format_err! with an expression outside of this
 crate

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index e29ae6c..6764610 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -78,7 +78,7 @@ macro_rules! format_err {
     };
     ($err:expr $(,)?) => ({
         let error = $err;
-        Error::new_adhoc(error)
+        $crate::private::new_adhoc(error)
     });
     ($fmt:expr, $($arg:tt)*) => {
         $crate::private::new_adhoc(format!($fmt, $($arg)*))
-- 
2.43.0


From 7982259ca935759e190422bf89add8b5dc27e953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:59 +0000
Subject: [PATCH 53/54] fix: refuse a weight with a second equals sign

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index d4abdf1..4580c26 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -11,7 +11,7 @@ use std::str::FromStr;
 
 /// Parse a weight of the form `q=0.123`, which may be surrounded by whitespace.
 pub(crate) fn parse_weight(s: &str) -> crate::Result<f32> {
-    let mut parts = s.trim().split('=');
+    let mut parts = s.trim().splitn(2, '=');
     if !matches!(parts.next(), Some("q") | Some("Q")) {
         let mut err = Error::new_adhoc("invalid weight");
         err.set_status(StatusCode::BadRequest);
-- 
2.43.0


From be7ec876fb0a629621f05ca8ca21cd075f90b509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:00 +0000
Subject: [PATCH 54/54] fix: refuse Cache-Control seconds with a second equals
 sign

---
 src/cache/cache_control/cache_directive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/cache_control/cache_directive.rs b/src/cache/cache_control/cache_directive.rs
index 3b0e3de..fb2ff57 100644
--- a/src/cache/cache_control/cache_directive.rs
+++ b/src/cache/cache_control/cache_directive.rs
@@ -97,7 +97,7 @@ impl CacheDirective {
         }
 
         let s = s.to_lowercase();
-        let mut parts = s.split('=');
+        let mut parts = s.splitn(2, '=');
         let next = parts.next().unwrap();
 
         let mut get_dur = || -> crate::Result<Duration> {
-- 
2.43.0

