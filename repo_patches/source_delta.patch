From c0d9bfd0dfaf2460feefd4803d74f849ffda8794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 01/38] verif: guarded re-exports of private items for the
 verification harness

---
 wruster/src/http/client/mod.rs |  4 ++++
 wruster/src/lib.rs             | 11 +++++++++++
 2 files changed, 15 insertions(+)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index 73315f7..d5df138 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -15,6 +15,10 @@ use crate::streams::timeout_stream::TimeoutStream;
 
 mod connection_pool;
 
+#[cfg(wruster_verif)]
+#[doc(hidden)]
+pub use connection_pool::{Pool as VerifPool, PoolResource as VerifPoolResource};
+
 #[cfg(test)]
 mod tests;
 
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index a14071f..fda63d6 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -77,6 +77,17 @@ pub mod test_utils;
 mod streams;
 mod thread_pool;
 
+#[cfg(wruster_verif)]
+#[doc(hidden)]
+/// Private items for the verification harness, only built with that cfg set.
+pub mod verif_hooks {
+    pub use crate::http::client::{VerifPool, VerifPoolResource};
+    pub use crate::streams::cancellable_stream::CancellableStream;
+    pub use crate::streams::observable::{ObservedStream, ObservedStreamList};
+    pub use crate::streams::timeout_stream::{Timeout, TimeoutStream};
+    pub use crate::thread_pool::{Pool, PoolError};
+}
+
 /// Defines the default max time for a request to be read
 pub const DEFAULT_READ_REQUEST_TIMEOUT: time::Duration = time::Duration::from_secs(30);
 
-- 
2.43.0


From 5ae9a71bee0618d81a95d3f9492725c78c2194b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 02/38] fix: refuse a header line without a colon instead of
 panicking

---
 wruster/src/http/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 51e3f52..d43b902 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -277,7 +277,7 @@ impl Header {
             return Err(InvalidRequest("invalid header name line".to_string()));
         };
         // After the token we MUST receive a colon.
-        if line[i] != b':' {
+        if line.get(i) != Some(&b':') {
             error!(
                 "invalid header line: {}, missing semicolon",
                 String::from_utf8_lossy(line)
-- 
2.43.0


From 5190105abaa10c7c49601326ca19b21a4bc428d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 03/38] fix: stop reading headers when the stream ends instead
 of looping forever

---
 wruster/src/http/headers.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index d43b902..ac94299 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -228,8 +228,14 @@ impl Header {
         let mut line = Vec::<u8>::new();
         loop {
             let mut header_chunk = Vec::<u8>::new();
-            from.read_until(b'\n', &mut header_chunk)
+            let bytes_read = from
+                .read_until(b'\n', &mut header_chunk)
                 .map_err(HttpError::from)?;
+            if bytes_read == 0 {
+                // The stream ended before the end of the header.
+                let msg = "unexpected end of stream reading headers".to_string();
+                return Err(HttpError::Unknown(msg));
+            }
             line.append(&mut header_chunk);
             debug!("header chunk read: {}", String::from_utf8_lossy(&line));
             let len = line.len();
-- 
2.43.0


From 996e813bb88ec213c91c672e38f7dd1cc72f3805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 04/38] fix: strip the optional white space after a header
 value

---
 wruster/src/http/headers.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index ac94299..8bccd90 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -321,6 +321,8 @@ impl Header {
             }
             field_value.push(c);
         }
+        // Remove the optional white space after the value.
+        let field_value = field_value.trim_end_matches([' ', '\t']).to_string();
         name = normalize_header_name(name);
         let header = Header {
             name,
-- 
2.43.0


From e4096759b3b564c982c6b9d119d11bc3195af3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 05/38] fix: recognise header names whatever their
 capitalisation

---
 wruster/src/http/headers.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 8bccd90..4e1a1af 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -135,7 +135,14 @@ impl Headers {
     ```
     */
     pub fn get(&self, name: &str) -> Option<&Vec<String>> {
-        self.headers.get(name)
+        self.headers.get(name).or_else(|| {
+            // The names of the headers are case insensitive:
+            // https://datatracker.ietf.org/doc/html/rfc7230#section-3.2
+            self.headers
+                .iter()
+                .find(|(header, _)| header.eq_ignore_ascii_case(name))
+                .map(|(_, values)| values)
+        })
     }
 
     /**
@@ -401,7 +408,7 @@ fn normalize_header_name(name: String) -> String {
         if c == char::from(b' ') || c == char::from(b'-') {
             next_alfanum_upper = true;
         }
-        normalized.push(c);
+        normalized.push(c.to_ascii_lowercase());
     }
     normalized
 }
-- 
2.43.0


From 730600d1b3c043522a59f1b3723087c330d09725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 06/38] fix: refuse a Content-Length with a sign

---
 wruster/src/http/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index a08d922..9e0f063 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -433,6 +433,12 @@ impl Body {
             }
         };
 
+        // A valid length contains only digits, but parsing an integer also
+        // accepts a sign.
+        if !len.bytes().all(|c| c.is_ascii_digit()) {
+            let msg = format!("invalid Content-Length header, {}", len);
+            return Err(Unknown(msg));
+        }
         let len = match usize::from_str(len) {
             Err(err) => {
                 let msg = format!("invalid Content-Length header, {}", err);
-- 
2.43.0


From acb99bd5ffcfa170ebf4c395ca36181fe2862f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 07/38] fix: refuse request lines with control characters in
 the target or an invalid version

---
 wruster/src/http/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 9e0f063..7f7bd9b 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -266,6 +266,10 @@ impl HttpRequestLine {
             return Err(InvalidRequest("invalid request line".to_string()));
         };
 
+        if uri[..uri.len() - 1].iter().any(|c| c.is_ascii_control()) {
+            return Err(InvalidRequest("invalid request line".to_string()));
+        };
+
         let uri = String::from_utf8_lossy(&uri[..uri.len() - 1]);
 
         let mut version = Vec::new();
@@ -275,10 +279,13 @@ impl HttpRequestLine {
             return Err(InvalidRequest("invalid request line".to_string()));
         };
 
-        if version[version.len() - 2] != (b'\r') {
+        if !version.ends_with(b"\r\n") {
             return Err(InvalidRequest("invalid request line".to_string()));
         }
         let version = String::from_utf8_lossy(&version[..version.len() - 2]);
+        if Version::from_str(&version).is_err() && !is_valid_http_version(&version) {
+            return Err(InvalidRequest("invalid request line".to_string()));
+        }
 
         Ok(HttpRequestLine {
             method,
@@ -296,6 +303,15 @@ impl HttpRequestLine {
     }
 }
 
+/// Returns true if the version has the form: ``"HTTP" "/" DIGIT "." DIGIT``.
+/// https://datatracker.ietf.org/doc/html/rfc7230#section-2.6
+fn is_valid_http_version(version: &str) -> bool {
+    match version.strip_prefix("HTTP/").map(str::as_bytes) {
+        Some([major, b'.', minor]) => major.is_ascii_digit() && minor.is_ascii_digit(),
+        _ => false,
+    }
+}
+
 /// Body holds the body part of an Http Message.
 pub struct Body {
     /// The content type of body.
-- 
2.43.0


From 92927337967def604a10f9e4d1ac0f561ee940ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 08/38] fix: read responses with an empty reason phrase and
 refuse malformed status lines

---
 wruster/src/http/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 7f7bd9b..f7504f9 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -780,7 +780,7 @@ impl HttpResponseLine {
         }
 
         let mut http_version = String::from_utf8_lossy(&http_version).to_string();
-        http_version = http_version.trim_end().to_string();
+        http_version = http_version.trim_end_matches(' ').to_string();
         Self::validate_version(&http_version)?;
         let mut status_code = Vec::new();
         if let Err(err) = from.read_until(b' ', &mut status_code) {
@@ -790,7 +790,10 @@ impl HttpResponseLine {
         if status_code.len() != 4 {
             return Err(Unknown(format!("invalid status code: {}", status_code)));
         };
-        status_code = status_code.trim_end().to_string();
+        status_code = status_code.trim_end_matches(' ').to_string();
+        if status_code.len() != 3 || !status_code.bytes().all(|c| c.is_ascii_digit()) {
+            return Err(Unknown(format!("invalid status code: {}", status_code)));
+        }
         let status_code = match status_code.parse::<usize>() {
             Err(error) => return Err(Unknown(error.to_string())),
             Ok(code) => code,
@@ -800,7 +803,8 @@ impl HttpResponseLine {
         if let Err(err) = from.read_until(b'\n', &mut reason_phrase) {
             return Err(Unknown(err.to_string()));
         };
-        if reason_phrase.len() < 3 {
+        // The reason phrase can be empty.
+        if !reason_phrase.ends_with(b"\r\n") {
             return Err(Unknown(String::from("invalid reason phrase")));
         };
         let reason_phrase =
@@ -815,6 +819,12 @@ impl HttpResponseLine {
     fn validate_version(version: &str) -> Result<(), HttpError> {
         // https://www.w3.org/Protocols/rfc2616/rfc2616-sec3.html
         // HTTP-Version   = "HTTP" "/" 1*DIGIT "." 1*DIGIT
+        if !version
+            .bytes()
+            .all(|c| c.is_ascii_alphanumeric() || c == b'/' || c == b'.')
+        {
+            return Err(Unknown(format!("invalid http version: {}", version)));
+        }
         let parts: Vec<&str> = version.split('/').collect();
         if parts.len() != 2 {
             return Err(Unknown(format!("invalid http version: {}", version)));
-- 
2.43.0


From 0cf6d58a46f5b46109307704ede589bbfa49cc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:39 +0000
Subject: [PATCH 09/38] fix: write the whole start line to writers that take
 only a part of it

---
 wruster/src/http/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index f7504f9..754506e 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -298,7 +298,7 @@ impl HttpRequestLine {
         // Request-Line   = Method SP Request-URI SP HTTP-Version CRLF
         // https://www.w3.org/Protocols/rfc2616/rfc2616-sec5.html
         let line = format!("{:#} {} {}\r\n", self.method, self.uri, self.version);
-        to.write(line.as_bytes()).map_err(HttpError::from)?;
+        to.write_all(line.as_bytes()).map_err(HttpError::from)?;
         Ok(())
     }
 }
@@ -858,7 +858,7 @@ impl HttpResponseLine {
         // https://datatracker.ietf.org/doc/html/rfc7230#section-3.1.2
         // let payload = format!("HTTP/1.1 {:#}\r\n", self.status);
         let payload = format!("{} {}\r\n", self.http_version, self.status_code);
-        if let Err(err) = to.write(payload.as_bytes()) {
+        if let Err(err) = to.write_all(payload.as_bytes()) {
             return Err(HttpError::Unknown(err.to_string()));
         };
         Ok(())
-- 
2.43.0


From 870be94d9610817ec510ddc46d57a0c9745bac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:48 +0000
Subject: [PATCH 10/38] fix: report the errors writing the last part of a large
 body

---
 wruster/src/http/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 754506e..56d2288 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -394,7 +394,11 @@ impl Body {
             x if x > u64::pow(2, 20) * 2 => {
                 let buff_size = usize::pow(2, 20);
                 let mut dest = BufWriter::with_capacity(buff_size, to);
-                io::copy(src, &mut dest)
+                // Errors flushing the buffer are ignored when it is dropped.
+                io::copy(src, &mut dest).and_then(|n| {
+                    dest.into_inner()?;
+                    Ok(n)
+                })
             }
             _ => io::copy(src, to),
         };
-- 
2.43.0


From 6574f7cf0e5e9b921645821637e339565a907a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 11/38] fix: write exactly the declared length of a body and
 report a content that is shorter

---
 wruster/src/http/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 56d2288..9b3e07f 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -384,7 +384,8 @@ impl Body {
     to the ``to`` paramerer.
     */
     pub fn write<T: io::Write>(&mut self, to: &mut T) -> HttpResult<()> {
-        let src = &mut self.content;
+        // A message has, exactly, as many bytes as its length says.
+        let src = &mut self.content.by_ref().take(self.content_length);
 
         // When the content to write is large (>2MB's) the io::copy function
         // uses buffers that are too short, to avoid that we use this technique:
@@ -404,6 +405,10 @@ impl Body {
         };
         match res {
             Err(err) => Err(HttpError::Unknown(err.to_string())),
+            Ok(n) if n < self.content_length => {
+                let msg = format!("the body has {} bytes of {}", n, self.content_length);
+                Err(HttpError::Unknown(msg))
+            }
             Ok(_) => Ok(()),
         }
     }
-- 
2.43.0


From bc9094d8e6fb41f75575d917c1eb71c37aa6cebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 12/38] fix: write exactly one Content-Length with every
 response and every request made from a body

---
 wruster/src/http/mod.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 9b3e07f..55b4a99 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -134,7 +134,7 @@ impl Request {
         };
 
         start_line.write(to)?;
-        if self.body.is_none() {
+        if self.body.is_none() && self.headers.get("Content-Length").is_none() {
             self.headers.add(Header {
                 name: String::from("Content-Length"),
                 value: String::from("0"),
@@ -164,12 +164,10 @@ impl Request {
                 value: content_type.to_string(),
             });
         }
-        if body.content_length != 0 {
-            headers.add(Header {
-                name: "Content-Length".to_string(),
-                value: body.content_length.to_string(),
-            });
-        }
+        headers.add(Header {
+            name: "Content-Length".to_string(),
+            value: body.content_length.to_string(),
+        });
         Request {
             body: Some(body),
             headers,
@@ -649,10 +647,11 @@ impl Response {
             reason_phrase: self.status.clone().into(),
         };
         start_line.write(to)?;
-        if self.body.is_none() {
+        if self.headers.get("Content-Length").is_none() {
+            let length = self.body.as_ref().map_or(0, |body| body.content_length);
             self.headers.add(Header {
                 name: String::from("Content-Length"),
-                value: String::from("0"),
+                value: length.to_string(),
             })
         }
         self.headers.write(to)?;
-- 
2.43.0


From a2a512434f69e4da85947158ed23d751940e60ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 13/38] fix: keep the requests sent without waiting for the
 response

The bytes of the following requests that were read together with a request
were lost with the buffer used to read it, so a client sending several
requests at once waited forever for their responses.
---
 wruster/src/http/headers.rs | 11 +++-----
 wruster/src/http/mod.rs     | 10 ++++++--
 wruster/src/lib.rs          | 50 +++++++++++++++++++++++++++++++++++--
 3 files changed, 60 insertions(+), 11 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 4e1a1af..0725037 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -2,7 +2,6 @@ use std::collections::HashMap;
 use std::fmt;
 use std::fmt::Debug;
 use std::io;
-use std::io::prelude::*;
 
 use super::errors::HttpError::InvalidRequest;
 use super::errors::*;
@@ -59,7 +58,7 @@ impl Headers {
     }
 
     /**
-    Reads the headers from an HTTP message in a [`io::BufReader`] according to
+    Reads the headers from an HTTP message in a type implementing [`io::BufRead`] according to
     the spec: <https://datatracker.ietf.org/doc/html/rfc7230>.
 
     # Errors
@@ -67,7 +66,7 @@ impl Headers {
     Returns a [`HttpError`] if the header does not conform to the spec: <https://datatracker.ietf.org/doc/html/rfc7230>
     or there is any problem reading from the ``to``parameter.
     */
-    pub fn read_from<T: io::Read>(from: &mut io::BufReader<T>) -> Result<Headers, HttpError> {
+    pub fn read_from<T: io::BufRead>(from: &mut T) -> Result<Headers, HttpError> {
         let mut headers = Self::new();
         // generic-message = start-line
         //                   *(message-header CRLF)
@@ -212,7 +211,7 @@ pub struct Header {
 
 impl Header {
     /**
-    Reads an header from an HTTP message in a [`io::BufReader`] according to
+    Reads an header from an HTTP message in a type implementing [`io::BufRead`] according to
     the spec: <https://datatracker.ietf.org/doc/html/rfc7230>.
 
     # Examples
@@ -224,9 +223,7 @@ impl Header {
     Returns a [`HttpError`] if the header does not conform to the spec:
     <https://datatracker.ietf.org/doc/html/rfc7230>.
     */
-    pub fn read_from<T: io::Read>(
-        from: &mut io::BufReader<T>,
-    ) -> Result<Option<Header>, HttpError> {
+    pub fn read_from<T: io::BufRead>(from: &mut T) -> Result<Option<Header>, HttpError> {
         //generic-message = start-line
         //                  *(message-header CRLF)
         //                   CRLF
diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 55b4a99..ab03f08 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -61,8 +61,14 @@ impl Request {
     does not conform to the spec: https://datatracker.ietf.org/doc/html/rfc7230.
     */
     pub fn read_from<T: io::Read + 'static>(from: T) -> HttpResult<Request> {
+        Request::read_from_buffered(io::BufReader::new(from))
+    }
+
+    /// Reads a request without consuming any byte after its end.
+    pub(crate) fn read_from_buffered<T: io::BufRead + 'static>(
+        mut reader: T,
+    ) -> HttpResult<Request> {
         debug!("parsing request");
-        let mut reader = io::BufReader::new(from);
         let request_line = match HttpRequestLine::read_from(&mut reader) {
             Ok(request) => request,
             Err(err) => return Err(err),
@@ -236,7 +242,7 @@ struct HttpRequestLine {
 }
 
 impl HttpRequestLine {
-    fn read_from<T: io::Read>(from: &mut io::BufReader<T>) -> Result<HttpRequestLine, HttpError> {
+    fn read_from<T: io::BufRead>(from: &mut T) -> Result<HttpRequestLine, HttpError> {
         // Request-Line   = Method SP Request-URI SP HTTP-Version CRLF
         // https://www.w3.org/Protocols/rfc2616/rfc2616-sec5.html
 
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index fda63d6..f782ca6 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -43,10 +43,12 @@ fn main() {
 ```
 */
 
+use std::cell::RefCell;
 use std::error::Error as StdError;
-use std::io::{self, Error, ErrorKind};
+use std::io::{self, BufRead, BufReader, Cursor, Error, ErrorKind, Read};
 use std::net::{SocketAddr, TcpListener, TcpStream};
 use std::path::PathBuf;
+use std::rc::Rc;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 use std::thread::JoinHandle;
@@ -563,10 +565,12 @@ fn handle_conversation<T>(
 {
     debug!("handling conversation with {}", source_addr);
     let mut connection_open = true;
+    let pending = Rc::new(RefCell::new(Vec::new()));
     while connection_open {
         let handle_stream = stream.clone();
         connection_open = handle_connection(
             handle_stream,
+            Rc::clone(&pending),
             Arc::clone(&routes),
             source_addr,
             timeouts.clone(),
@@ -584,8 +588,49 @@ fn handle_conversation<T>(
     debug!("connection closed")
 }
 
+/// Reads a request from a connection. The bytes read from the stream that
+/// don't belong to the request, because the client sent more than one without
+/// waiting for the responses, are kept for the reader of the next request.
+struct RequestReader<T: Read> {
+    reader: BufReader<io::Chain<Cursor<Vec<u8>>, T>>,
+    pending: Rc<RefCell<Vec<u8>>>,
+}
+
+impl<T: Read> RequestReader<T> {
+    fn new(stream: T, pending: Rc<RefCell<Vec<u8>>>) -> Self {
+        let reader = BufReader::new(Cursor::new(pending.take()).chain(stream));
+        RequestReader { reader, pending }
+    }
+}
+
+impl<T: Read> Read for RequestReader<T> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.reader.read(buf)
+    }
+}
+
+impl<T: Read> BufRead for RequestReader<T> {
+    fn fill_buf(&mut self) -> io::Result<&[u8]> {
+        self.reader.fill_buf()
+    }
+
+    fn consume(&mut self, amt: usize) {
+        self.reader.consume(amt)
+    }
+}
+
+impl<T: Read> Drop for RequestReader<T> {
+    fn drop(&mut self) {
+        let mut pending = self.reader.buffer().to_vec();
+        let (previous, _) = self.reader.get_ref().get_ref();
+        pending.extend_from_slice(&previous.get_ref()[previous.position() as usize..]);
+        self.pending.replace(pending);
+    }
+}
+
 fn handle_connection<T>(
     stream: ObservedStream<T>,
+    pending: Rc<RefCell<Vec<u8>>>,
     routes: Arc<Router>,
     source_addr: SocketAddr,
     timeouts: Timeouts,
@@ -600,7 +645,8 @@ where
     let resp_stream = stream.clone();
     let timeout_stream = TimeoutStream::from(stream, read_timeout, write_timeout);
 
-    let (request, mut response) = match Request::read_from(timeout_stream) {
+    let reader = RequestReader::new(timeout_stream, pending);
+    let (request, mut response) = match Request::read_from_buffered(reader) {
         Ok(mut request) => {
             connection_open = is_connection_persistent(&request);
             let response = run_action(&mut request, routes);
-- 
2.43.0


From 4991411601b5c647bbff12f7a8a78b606cc84fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 14/38] fix: read what is left of a request body whose handler
 takes it out of the request

The handler of a request can take the body out of it, for instance to send it
back. If it was dropped before reading it all the bytes left were taken for
the next request.
---
 wruster/src/lib.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index f782ca6..de02e09 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -53,7 +53,7 @@ use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 use std::thread::JoinHandle;
 use std::{io::Write, time};
-use std::{net, thread};
+use std::{mem, net, thread};
 
 #[macro_use]
 extern crate log;
@@ -628,6 +628,26 @@ impl<T: Read> Drop for RequestReader<T> {
     }
 }
 
+/// The content of the body of a request, shared between the action handling
+/// the request and the connection.
+struct SharedContent(Rc<RefCell<Box<dyn Read>>>);
+
+impl SharedContent {
+    /// Replaces the content of a body by a shared one.
+    fn replace_in(body: &mut Body) -> Self {
+        let content = mem::replace(&mut body.content, Box::new(io::empty()));
+        let content = Rc::new(RefCell::new(content));
+        body.content = Box::new(SharedContent(Rc::clone(&content)));
+        SharedContent(content)
+    }
+}
+
+impl Read for SharedContent {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.0.borrow_mut().read(buf)
+    }
+}
+
 fn handle_connection<T>(
     stream: ObservedStream<T>,
     pending: Rc<RefCell<Vec<u8>>>,
@@ -646,9 +666,11 @@ where
     let timeout_stream = TimeoutStream::from(stream, read_timeout, write_timeout);
 
     let reader = RequestReader::new(timeout_stream, pending);
+    let mut content = None;
     let (request, mut response) = match Request::read_from_buffered(reader) {
         Ok(mut request) => {
             connection_open = is_connection_persistent(&request);
+            content = request.body.as_mut().map(SharedContent::replace_in);
             let response = run_action(&mut request, routes);
             (Some(request), response)
         }
@@ -686,6 +708,16 @@ where
         );
         return false;
     };
+
+    // The action can also take the body out of the request, ensure there is
+    // nothing left of it before reading the next request.
+    drop(response);
+    if let Some(mut content) = content {
+        if let Err(err) = io::copy(&mut content, &mut io::sink()) {
+            error!("error reading request body, error info: {}", err);
+            return false;
+        }
+    }
     connection_open
 }
 
-- 
2.43.0


From e56db0e043bab946f73deb2990174c2e241beeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 15/38] fix: don't wait for events before reading the data a
 stream already received

A TLS stream decrypts a whole record at once, so the part of it that did not
fit in the buffer of the reader was not delivered until more data arrived, and
the last requests of a connection were not answered until then.
---
 wruster/src/streams/cancellable_stream.rs | 28 ++++++++++++++---------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 52d1b52..0a0b6f4 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -58,6 +58,12 @@ where
     }
 
     fn read_int(&self, buf: &mut [u8]) -> io::Result<usize> {
+        // There will be no events for the data a stream already received, e.g.:
+        // the data that a TLS stream decrypted but did not return yet.
+        match self.read_available(buf) {
+            Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
+            result => return result,
+        }
         self.poller
             .modify(self.stream.as_raw(), Event::readable(1))?;
         let mut events = Vec::new();
@@ -79,17 +85,7 @@ where
             if evt.key != 1 {
                 continue;
             }
-            let read_buf = &mut buf[bytes_read..];
-            let s = &self.stream;
-
-            let result = match s.read_buf(read_buf) {
-                Ok(0) if self.done.load(Ordering::SeqCst) => {
-                    Err(io::Error::from(io::ErrorKind::NotConnected))
-                }
-                Ok(n) => Ok(n),
-                Err(err) => Err(err),
-            };
-            match result {
+            match self.read_available(&mut buf[bytes_read..]) {
                 Ok(n) => {
                     bytes_read += n;
                 }
@@ -116,6 +112,16 @@ where
         Ok(bytes_read)
     }
 
+    fn read_available(&self, buf: &mut [u8]) -> io::Result<usize> {
+        match self.stream.read_buf(buf) {
+            Ok(0) if self.done.load(Ordering::SeqCst) => {
+                Err(io::Error::from(io::ErrorKind::NotConnected))
+            }
+            Ok(0) if !buf.is_empty() => Err(io::Error::from(io::ErrorKind::ConnectionReset)),
+            result => result,
+        }
+    }
+
     fn write_int(&self, buf: &[u8]) -> io::Result<usize> {
         let mut events = Vec::new();
         let timeout = &self.write_timeout.write().unwrap().clone();
-- 
2.43.0


From 91ed3be42a85028d78117ba074ec18fc986f40df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 16/38] fix: bound the time of a whole write to a stream by its
 timeout

The timeout was given anew every time the stream was ready to accept some
bytes, so a client taking a few bytes from time to time kept a response being
written for as long as it wanted.
---
 wruster/src/streams/cancellable_stream.rs | 84 +++++++++++++----------
 1 file changed, 46 insertions(+), 38 deletions(-)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 0a0b6f4..f1ca286 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -5,7 +5,7 @@ use std::{
         atomic::{self, AtomicBool, Ordering},
         Arc, RwLock,
     },
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 use polling::Event;
@@ -123,49 +123,57 @@ where
     }
 
     fn write_int(&self, buf: &[u8]) -> io::Result<usize> {
-        let mut events = Vec::new();
-        let timeout = &self.write_timeout.write().unwrap().clone();
+        let deadline = self.write_deadline();
         let mut bytes_written = 0;
-        let buf_len = buf.len();
-        while bytes_written < buf_len {
-            events.clear();
-            self.poller
-                .modify(self.stream.as_raw(), Event::writable(1))?;
-            if self.poller.wait(&mut events, *timeout)? == 0 {
-                let stop = self.done.load(atomic::Ordering::SeqCst);
-                if stop {
-                    return Err(io::Error::from(io::ErrorKind::NotConnected));
-                };
-                // TODO: Actually we could be here not only because the timeout
-                // passed without the stream being ready to accept writes, but
-                // also because the OS returned no events spuriously, so we
-                // should check ourselves if the timeout period has passed, and
-                // if not, retry the wait.
-                return Err(io::Error::from(io::ErrorKind::TimedOut));
-            }
-            for evt in &events {
-                if evt.key != 1 || !evt.writable {
+        while bytes_written < buf.len() {
+            self.wait_writable(deadline)?;
+            match self.stream.write_buf(&buf[bytes_written..]) {
+                Ok(n) => {
+                    bytes_written += n;
+                }
+                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {
                     continue;
                 }
-                let write_buf = &buf[bytes_written..];
-                let s = &self.stream;
-                match s.write_buf(write_buf) {
-                    Ok(n) => {
-                        bytes_written += n;
-                    }
-                    Err(err) if err.kind() == io::ErrorKind::WouldBlock => {
-                        break;
-                    }
-                    Err(err) => {
-                        self.stream.set_nonblocking(false)?;
-                        return Err(err);
-                    }
-                };
-                break;
-            }
+                Err(err) => {
+                    self.stream.set_nonblocking(false)?;
+                    return Err(err);
+                }
+            };
         }
         Ok(bytes_written)
     }
+
+    fn write_deadline(&self) -> Option<Instant> {
+        let timeout = *self.write_timeout.read().unwrap();
+        timeout.and_then(|timeout| Instant::now().checked_add(timeout))
+    }
+
+    /// Waits until the stream is ready to accept writes or the deadline, that
+    /// is the one of a whole operation, passes.
+    fn wait_writable(&self, deadline: Option<Instant>) -> io::Result<()> {
+        let timeout = match deadline.map(|deadline| deadline.checked_duration_since(Instant::now()))
+        {
+            None => None,
+            Some(Some(remaining)) => Some(remaining),
+            Some(None) => return Err(io::Error::from(io::ErrorKind::TimedOut)),
+        };
+        self.poller
+            .modify(self.stream.as_raw(), Event::writable(1))?;
+        let mut events = Vec::new();
+        if self.poller.wait(&mut events, timeout)? == 0 {
+            let stop = self.done.load(atomic::Ordering::SeqCst);
+            if stop {
+                return Err(io::Error::from(io::ErrorKind::NotConnected));
+            };
+            // TODO: Actually we could be here not only because the timeout
+            // passed without the stream being ready to accept writes, but
+            // also because the OS returned no events spuriously, so we
+            // should check ourselves if the timeout period has passed, and
+            // if not, retry the wait.
+            return Err(io::Error::from(io::ErrorKind::TimedOut));
+        }
+        Ok(())
+    }
 }
 
 impl<T> io::Read for &CancellableStream<T>
-- 
2.43.0


From 1bca0c45a0e9dca4073bc1db0d9f68c5afd2ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 17/38] fix: wait for the last bytes of a response to be sent
 over a TLS connection

---
 wruster/src/lib.rs                        |  6 ++++--
 wruster/src/streams/cancellable_stream.rs | 18 ++++++++++++++++--
 wruster/src/streams/timeout_stream.rs     | 23 +++++++++++++++++------
 3 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index de02e09..1dcb166 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -545,7 +545,8 @@ where
     let shutdown_stream = stream.clone();
     let mut timeout_stream = TimeoutStream::from(stream, read_timeout, write_timeout);
     let mut resp = Response::from_status(StatusCode::ServiceUnavailable);
-    if let Err(err) = resp.write(&mut timeout_stream) {
+    let written = resp.write(&mut timeout_stream);
+    if let Err(err) = written.and_then(|_| timeout_stream.flush().map_err(HttpError::from)) {
         error!("sending too busy to {}: {}", src_addr, err.to_string())
     }
     let s = &*shutdown_stream;
@@ -701,7 +702,8 @@ where
 
     // Write the response.
     let mut timeout_stream = TimeoutStream::from(resp_stream, read_timeout, write_timeout);
-    if let Err(err) = response.write(&mut timeout_stream) {
+    let written = response.write(&mut timeout_stream);
+    if let Err(err) = written.and_then(|_| timeout_stream.flush().map_err(HttpError::from)) {
         error!(
             "error writing response to: {}, error info: {}",
             source_addr, err
diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index f1ca286..ded8e3e 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -143,6 +143,20 @@ where
         Ok(bytes_written)
     }
 
+    /// Waits, up to the write timeout, for the stream to send the data it keeps,
+    /// e.g.: the data encrypted by a TLS stream.
+    fn flush_int(&self) -> io::Result<()> {
+        let deadline = self.write_deadline();
+        loop {
+            match self.stream.flush_data() {
+                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {
+                    self.wait_writable(deadline)?
+                }
+                result => return result,
+            }
+        }
+    }
+
     fn write_deadline(&self) -> Option<Instant> {
         let timeout = *self.write_timeout.read().unwrap();
         timeout.and_then(|timeout| Instant::now().checked_add(timeout))
@@ -194,7 +208,7 @@ where
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.stream.flush_data()
+        self.flush_int()
     }
 }
 
@@ -218,6 +232,6 @@ where
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.stream.flush_data()
+        self.flush_int()
     }
 }
diff --git a/wruster/src/streams/timeout_stream.rs b/wruster/src/streams/timeout_stream.rs
index 115b2b0..18a4a9b 100644
--- a/wruster/src/streams/timeout_stream.rs
+++ b/wruster/src/streams/timeout_stream.rs
@@ -135,16 +135,19 @@ where
     }
 }
 
-impl<T> io::Write for TimeoutStream<T>
+impl<T> TimeoutStream<T>
 where
     T: Read + Write + Timeout,
 {
-    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+    fn write_with<R, F>(&mut self, operation: F) -> io::Result<R>
+    where
+        F: FnOnce(&mut T) -> io::Result<R>,
+    {
         // If no timeout has set for write, we just pass through to the
         // underlying writer.
         let stream = &mut self.stream;
         let timeout = match self.write {
-            None => return stream.write(buf),
+            None => return operation(stream),
             Some(timeout) => timeout,
         };
         let write = match self.ongoing_write.as_mut() {
@@ -164,7 +167,7 @@ where
             return io::Result::Err(err);
         }
         write.start();
-        let res = stream.write(buf).map_err(|err| {
+        let res = operation(stream).map_err(|err| {
             // REVIEW: In some cases a read operation over a stream returns
             // WouldBlock instead of the expected TimedOut.
             match err.kind() {
@@ -175,10 +178,18 @@ where
         write.stop();
         res
     }
+}
+
+impl<T> io::Write for TimeoutStream<T>
+where
+    T: Read + Write + Timeout,
+{
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        self.write_with(|stream| stream.write(buf))
+    }
 
     fn flush(&mut self) -> io::Result<()> {
-        let stream = &mut self.stream;
-        stream.flush()
+        self.write_with(|stream| stream.flush())
     }
 }
 
-- 
2.43.0


From 4e4629066cf7a8373c35f0feabd6f645f6ddff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:37 +0000
Subject: [PATCH 18/38] fix: find the private key of a PEM file that starts
 with other items

---
 wruster/src/streams/tls/mod.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index 4077332..bf8d85f 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -207,19 +207,21 @@ impl PrivateKey {
             }
         })?;
         let mut reader = BufReader::new(keyfile);
-        match rustls_pemfile::read_one(&mut reader)? {
-            Some(rustls_pemfile::Item::RSAKey(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
-            Some(rustls_pemfile::Item::PKCS8Key(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
-            Some(rustls_pemfile::Item::ECKey(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
-            None => Err(io::Error::new(
-                io::ErrorKind::Other,
-                format!("no private key found in {} ", path),
-            )),
-            _ => Err(io::Error::new(
-                io::ErrorKind::Other,
-                format!("no private key found in {} ", path),
-            )),
+        // The key can be after other items, e.g.: a certificate.
+        while let Some(item) = rustls_pemfile::read_one(&mut reader)? {
+            match item {
+                rustls_pemfile::Item::RSAKey(key)
+                | rustls_pemfile::Item::PKCS8Key(key)
+                | rustls_pemfile::Item::ECKey(key) => {
+                    return Ok(PrivateKey(rustls::PrivateKey(key)))
+                }
+                _ => continue,
+            }
         }
+        Err(io::Error::new(
+            io::ErrorKind::Other,
+            format!("no private key found in {} ", path),
+        ))
     }
 }
 
-- 
2.43.0


From 616ae2f9537323525a03606f146de46a1f8ba265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:38 +0000
Subject: [PATCH 19/38] fix: refuse to start a TLS server with an unusable key
 or certificate instead of panicking on its first connection

---
 wruster/src/lib.rs             |  4 +++-
 wruster/src/streams/tls/mod.rs | 33 +++++++++++++++++++++++++--------
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 1dcb166..cdad21d 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -270,6 +270,7 @@ impl Server {
     This function will return an error if:
     * The address is wrong formatted or not free.
     * The server is already started.
+    * The key or the certificate can not be used.
 
      */
     pub fn run_tls(
@@ -279,8 +280,9 @@ impl Server {
         key: PrivateKey,
         cert: Certificate,
     ) -> ServerResult {
+        let tls_config = tls::server_config(key, cert)?;
         self.start(addr, routes, move |stream: TcpStream| {
-            let stream = tls::Stream::new(stream, key.clone(), cert.clone()).unwrap();
+            let stream = tls::Stream::from_config(stream, Arc::clone(&tls_config))?;
             CancellableStream::new(stream)
         })
     }
diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index bf8d85f..f746f34 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -16,6 +16,21 @@ pub mod test_utils;
 #[cfg(test)]
 mod test;
 
+/// Returns the configuration of the streams of a server using the given key and
+/// certificate, or an error if they can not be used.
+pub fn server_config(
+    private_key: PrivateKey,
+    cert: Certificate,
+) -> Result<Arc<ServerConfig>, io::Error> {
+    let cert_chain = vec![cert.0];
+    let tls_config = ServerConfig::builder()
+        .with_safe_defaults()
+        .with_no_client_auth()
+        .with_single_cert(cert_chain, private_key.0)
+        .map_err(|err| io::Error::new(io::ErrorKind::Other, err))?;
+    Ok(Arc::new(tls_config))
+}
+
 pub struct Stream {
     plain_stream: TcpStream,
     stream: Mutex<StreamOwned<ServerConnection, TcpStream>>,
@@ -27,15 +42,17 @@ impl Stream {
         private_key: PrivateKey,
         cert: Certificate,
     ) -> Result<Self, io::Error> {
-        let cert_chain = vec![cert.0];
-        let tls_config = ServerConfig::builder()
-            .with_safe_defaults()
-            .with_no_client_auth()
-            .with_single_cert(cert_chain, private_key.0)
-            .map_err(|err| io::Error::new(io::ErrorKind::Other, err))?;
+        let tls_config = server_config(private_key, cert)?;
+        Self::from_config(stream, tls_config)
+    }
+
+    /// Returns a stream that uses the given configuration, see [server_config].
+    pub fn from_config(
+        stream: TcpStream,
+        tls_config: Arc<ServerConfig>,
+    ) -> Result<Self, io::Error> {
         let plain_stream = stream.try_clone()?;
-        let tls_config = Arc::new(tls_config);
-        let connection = ServerConnection::new(Arc::clone(&tls_config))
+        let connection = ServerConnection::new(tls_config)
             .map_err(|err| io::Error::new(io::ErrorKind::Other, err))?;
         let stream = StreamOwned::new(connection, stream);
         let stream = Mutex::new(stream);
-- 
2.43.0


From e54bfeab93d158b848b69f4032645128b55a3594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:19 +0000
Subject: [PATCH 20/38] fix: match routes at path segment boundaries and by
 method, falling back to the parents

---
 wruster/src/router/mod.rs  | 18 ++++++++----
 wruster/src/router/trie.rs | 56 +++++++++++++++-----------------------
 2 files changed, 35 insertions(+), 39 deletions(-)

diff --git a/wruster/src/router/mod.rs b/wruster/src/router/mod.rs
index f60ec9d..f8a574c 100644
--- a/wruster/src/router/mod.rs
+++ b/wruster/src/router/mod.rs
@@ -69,14 +69,22 @@ impl Router {
 
     pub(crate) fn get_prefix(&self, route: String, method: HttpMethod) -> Option<Arc<HttpHandler>> {
         let routes = self.routes.borrow();
-        let method_actions = match routes.get_value_prefix(route.as_bytes()) {
-            None => return None,
-            Some(actions) => actions,
-        };
-        method_actions.get_action(method)
+        routes.find_prefix(route.as_bytes(), |method_actions, len| {
+            if !is_same_or_parent(&route, len) {
+                return None;
+            }
+            method_actions.get_action(method)
+        })
     }
 }
 
+/// Returns true if the first len bytes of the route are the whole of its path or
+/// the path of one of its parents.
+fn is_same_or_parent(route: &str, len: usize) -> bool {
+    let bytes = route.as_bytes();
+    len == bytes.len() || bytes[len - 1] == b'/' || matches!(bytes[len], b'/' | b'?')
+}
+
 impl Default for Router {
     fn default() -> Self {
         Router::new()
diff --git a/wruster/src/router/trie.rs b/wruster/src/router/trie.rs
index 22ac6fb..c453fe0 100644
--- a/wruster/src/router/trie.rs
+++ b/wruster/src/router/trie.rs
@@ -40,17 +40,30 @@ impl<T> Trie<T> {
         child.move_value_out(&key[1..])
     }
 
+    #[allow(dead_code)]
     pub fn get_value_prefix(&self, key: &[u8]) -> Option<&T> {
-        if key.is_empty() {
-            return None;
+        self.find_prefix(key, |value, _| Some(value))
+    }
+
+    /// Returns the result of the longest prefix of the key for which the given
+    /// function, called with its value and its length, returns one.
+    pub fn find_prefix<'a, R, F>(&'a self, key: &[u8], find: F) -> Option<R>
+    where
+        F: Fn(&'a T, usize) -> Option<R>,
+    {
+        let mut found = None;
+        let mut children = &self.children;
+        for (pos, next) in key.iter().enumerate() {
+            let node = match &children[*next as usize] {
+                None => break,
+                Some(node) => node,
+            };
+            if let Some(value) = &node.value {
+                found = find(value, pos + 1).or(found);
+            }
+            children = &node.children;
         }
-        let pos = key[0] as usize;
-        let children = &self.children;
-        let child = match &children[pos] {
-            None => return None,
-            Some(node) => node,
-        };
-        child.get_value_prefix(&key[1..], None)
+        found
     }
 }
 
@@ -109,31 +122,6 @@ impl<T> Node<T> {
         child.get_value(&key[1..])
     }
 
-    fn get_value_prefix<'a>(&'a self, key: &[u8], prefix_value: Option<&'a T>) -> Option<&T> {
-        if key.is_empty() {
-            if self.value.is_none() {
-                return prefix_value;
-            }
-            return self.value.as_ref();
-        }
-        let pos = key[0] as usize;
-        let children = &self.children;
-        let child = match &children[pos] {
-            None => {
-                if self.value.is_some() {
-                    return self.value.as_ref();
-                }
-                return prefix_value;
-            }
-            Some(node) => node,
-        };
-        let next_parent = match &self.value {
-            None => prefix_value,
-            Some(value) => Some(value),
-        };
-        child.get_value_prefix(&key[1..], next_parent)
-    }
-
     pub fn move_value_out(&mut self, key: &[u8]) -> Option<T> {
         if key.is_empty() {
             return self.value.take();
-- 
2.43.0


From a851a7020c84c5ed6568551c3aab341bdcdb932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:20 +0000
Subject: [PATCH 21/38] fix: serve only regular files from inside the directory

---
 wruster_handlers/src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index b87f6f3..009cc80 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -4,7 +4,10 @@ new handlers in a wruster web server.
 */
 use std::fs;
 use std::io::Read;
-use std::{io, path::PathBuf};
+use std::{
+    io,
+    path::{Component, Path, PathBuf},
+};
 
 #[macro_use]
 extern crate log;
@@ -44,8 +47,15 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
         }
         uri = &uri[1..]
     }
+    // The uri must not name anything out of the directory.
     let mut path = base_path;
-    path.push(uri);
+    for component in Path::new(uri).components() {
+        match component {
+            Component::Normal(name) => path.push(name),
+            Component::CurDir => continue,
+            _ => return Response::from_status(StatusCode::NotFound),
+        }
+    }
 
     let metadata = match fs::metadata(&path) {
         Ok(metadata) => metadata,
@@ -56,6 +66,9 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
             return Response::from_status(StatusCode::InternalServerError);
         }
     };
+    if !metadata.is_file() {
+        return Response::from_status(StatusCode::NotFound);
+    }
 
     let content = match fs::File::open(&path) {
         Ok(content) => content,
-- 
2.43.0


From ae2c5c73366de6dff944888c970feb63704d1298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:52 +0000
Subject: [PATCH 22/38] fix: keep the workers of the thread pool when an action
 panics

---
 wruster/src/thread_pool/dynamic_pool.rs |  6 +++---
 wruster/src/thread_pool/mod.rs          | 13 ++++++++++++-
 wruster/src/thread_pool/static_pool.rs  |  4 ++--
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/wruster/src/thread_pool/dynamic_pool.rs b/wruster/src/thread_pool/dynamic_pool.rs
index 76b7437..3144a13 100644
--- a/wruster/src/thread_pool/dynamic_pool.rs
+++ b/wruster/src/thread_pool/dynamic_pool.rs
@@ -7,7 +7,7 @@ use std::time::Duration;
 
 use atomic_refcell::AtomicRefCell;
 
-use super::{Action, PoolError};
+use super::{run_action, Action, PoolError};
 
 type DynamicWorkerFinished = Box<dyn FnOnce() + Send>;
 
@@ -31,12 +31,12 @@ impl DynamicWorker {
             // When the worker is created it will execute, at least, one action
             // so we don't want to timeout waiting for it.
             t_initialized.store(true, Ordering::SeqCst);
-            first_action();
+            run_action(first_action);
             loop {
                 let res = receiver.recv_timeout(timeout);
                 match res {
                     Ok(action) => {
-                        action();
+                        run_action(action);
                         debug!("action executed");
                         continue;
                     }
diff --git a/wruster/src/thread_pool/mod.rs b/wruster/src/thread_pool/mod.rs
index 7193301..f220dd6 100644
--- a/wruster/src/thread_pool/mod.rs
+++ b/wruster/src/thread_pool/mod.rs
@@ -1,4 +1,8 @@
-use std::{fmt::Debug, time::Duration};
+use std::{
+    fmt::Debug,
+    panic::{self, AssertUnwindSafe},
+    time::Duration,
+};
 
 mod dynamic_pool;
 mod static_pool;
@@ -24,6 +28,13 @@ pub struct Pool {
     stat: Option<Static>,
 }
 
+/// Runs an action in a worker, that survives the panics of the action.
+fn run_action(action: Action) {
+    if panic::catch_unwind(AssertUnwindSafe(action)).is_err() {
+        error!("an action panicked");
+    }
+}
+
 impl Pool {
     pub fn new(min: usize, max: usize) -> Pool {
         assert!(min > 0 || max > 0);
diff --git a/wruster/src/thread_pool/static_pool.rs b/wruster/src/thread_pool/static_pool.rs
index a419048..67be096 100644
--- a/wruster/src/thread_pool/static_pool.rs
+++ b/wruster/src/thread_pool/static_pool.rs
@@ -3,7 +3,7 @@ use std::sync::mpsc::{sync_channel, SyncSender, TrySendError};
 use std::sync::Arc;
 use std::thread;
 
-use super::{Action, PoolError};
+use super::{run_action, Action, PoolError};
 
 struct Worker {
     id: usize,
@@ -20,7 +20,7 @@ impl Worker {
             t_initialized.store(true, Ordering::SeqCst);
             let res = receiver.recv();
             if let Ok(action) = res {
-                action();
+                run_action(action);
                 debug!("action executed");
                 continue;
             }
-- 
2.43.0


From 872d0763b24c17a0d582fbffca0afba068746fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:52 +0000
Subject: [PATCH 23/38] fix: evict the least recently used resource of a full
 pool instead of losing the new one

---
 wruster/src/http/client/connection_pool.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/wruster/src/http/client/connection_pool.rs b/wruster/src/http/client/connection_pool.rs
index b66be95..ec087b5 100644
--- a/wruster/src/http/client/connection_pool.rs
+++ b/wruster/src/http/client/connection_pool.rs
@@ -114,12 +114,10 @@ where
     pub fn insert(&self, key: &str, connection: PoolResource<T>) {
         let mut connections = self.resources.write().unwrap();
         let connections = connections.borrow_mut();
-        match connections.len() {
-            MAX_RESOURCES => Self::remove_lru(connections),
-            _ => {
-                connections.insert(key.to_string(), connection);
-            }
+        if connections.len() >= MAX_RESOURCES && !connections.contains_key(key) {
+            Self::remove_lru(connections);
         }
+        connections.insert(key.to_string(), connection);
     }
 
     /**
-- 
2.43.0


From 7985e8522f62b081c52f47d7caa0f966f814d6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:01 +0000
Subject: [PATCH 24/38] fix: reuse a client connection only when the response
 was read to its known end and nobody asked to close it

---
 wruster/src/http/client/mod.rs | 93 ++++++++++++++++++++++++++++++++--
 wruster/src/http/mod.rs        |  9 +++-
 2 files changed, 97 insertions(+), 5 deletions(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index d5df138..36df043 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -1,9 +1,13 @@
 #![allow(missing_docs)]
+use std::cell::Cell;
+use std::io::Read;
+use std::mem;
 use std::net::SocketAddr;
 use std::net::TcpStream;
 use std::net::ToSocketAddrs;
 use std::ops::Deref;
 use std::ops::DerefMut;
+use std::rc::Rc;
 use std::sync::Mutex;
 use std::sync::{Arc, Weak};
 use std::time;
@@ -33,6 +37,9 @@ pub struct ClientResponse {
     conn: TcpStream,
     pool: Weak<Mutex<Pool<Arc<TcpStream>>>>,
     addr: String,
+    // Number of bytes of the body still not read from the connection, or None
+    // if the connection can not be used for another request.
+    unread: Option<Rc<Cell<u64>>>,
 }
 
 impl Deref for ClientResponse {
@@ -51,6 +58,10 @@ impl DerefMut for ClientResponse {
 
 impl Drop for ClientResponse {
     fn drop(&mut self) {
+        let unread = match self.unread.take() {
+            Some(unread) => unread,
+            None => return,
+        };
         if let Some(pool) = self.pool.upgrade() {
             if let Some(body) = self.response.body.as_mut() {
                 body.ensure_read().consume_error(|err| {
@@ -60,6 +71,10 @@ impl Drop for ClientResponse {
                     );
                 });
             }
+            // What is left of the response would be read as the next one.
+            if unread.get() > 0 {
+                return;
+            }
 
             let pool = match pool.lock() {
                 Ok(pool) => pool,
@@ -93,8 +108,10 @@ impl<'a> Client {
     }
 
     pub fn run(&'a self, addr: &str, request: Request) -> Result<ClientResponse, HttpError> {
+        let persistent = request.is_connection_persistent();
+        let method = request.method;
         let conn = {
-            match request.is_connection_persistent() {
+            match persistent {
                 true => {
                     let pool = self.connection_pool.lock().map_err(HttpError::from)?;
                     match pool.get(addr) {
@@ -114,9 +131,13 @@ impl<'a> Client {
         request.write(&mut stream)?;
         stream.flush().map_err(HttpError::from)?;
         let stream = Box::new(stream);
-        let response = match Response::read_from(stream) {
-            Ok(response) => response,
-            Err(err) => return Err(err),
+        let (mut response, version) = Response::read_versioned_from(stream)?;
+        if !allows_body(method, &response) {
+            response.body = None;
+        }
+        let unread = match persistent && is_reusable(method, &version, &response) {
+            true => Some(CountedContent::replace_in(&mut response)),
+            false => None,
         };
         // TODO: when the response does not have body we can just return back
         // the connection to the pool here.
@@ -126,6 +147,7 @@ impl<'a> Client {
             conn: response_conn,
             pool: Arc::downgrade(&response_pool),
             addr: addr.to_string(),
+            unread,
         };
         Ok(response)
     }
@@ -137,6 +159,69 @@ impl<'a> Client {
     }
 }
 
+/// Counts the bytes of the body of a response not read yet.
+struct CountedContent {
+    content: Box<dyn Read>,
+    unread: Rc<Cell<u64>>,
+}
+
+impl CountedContent {
+    /// Replaces the content of the body of a response, if any, by a counted one.
+    fn replace_in(response: &mut Response) -> Rc<Cell<u64>> {
+        let unread = Rc::new(Cell::new(0));
+        if let Some(body) = response.body.as_mut() {
+            unread.set(body.content_length);
+            let content = mem::replace(&mut body.content, Box::new(io::empty()));
+            body.content = Box::new(CountedContent {
+                content,
+                unread: Rc::clone(&unread),
+            });
+        }
+        unread
+    }
+}
+
+impl Read for CountedContent {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let bytes_read = self.content.read(buf)?;
+        let unread = self.unread.get().saturating_sub(bytes_read as u64);
+        self.unread.set(unread);
+        Ok(bytes_read)
+    }
+}
+
+/// Returns false for the responses that don't have a body, whatever their
+/// headers, according to: https://httpwg.org/specs/rfc7230.html#message.body.length.
+fn allows_body(method: HttpMethod, response: &Response) -> bool {
+    method != HttpMethod::HEAD
+        && response.status != StatusCode::NoContent
+        && response.status != StatusCode::NotModified
+}
+
+/// Evaluates if, once a response is read, the connection it was read from can
+/// be used for another request. It can if it is
+/// [persistent](https://httpwg.org/specs/rfc7230.html#rfc.section.6.3) and the
+/// end of the response is known.
+fn is_reusable(method: HttpMethod, version: &str, response: &Response) -> bool {
+    let connection: Vec<String> = match response.headers.get("Connection") {
+        None => Vec::new(),
+        Some(values) => values
+            .iter()
+            .flat_map(|value| value.split(','))
+            .map(|option| option.trim().to_lowercase())
+            .collect(),
+    };
+    if connection.iter().any(|option| option == "close") {
+        return false;
+    }
+    if version != "HTTP/1.1" && !connection.iter().any(|option| option == "keep-alive") {
+        return false;
+    }
+    // Some servers, wrongly, send a body with the responses to HEAD requests.
+    method != HttpMethod::HEAD
+        && (!allows_body(method, response) || response.headers.get("Content-Length").is_some())
+}
+
 impl Default for Client {
     fn default() -> Self {
         Self::new()
diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index ab03f08..3ff914e 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -724,6 +724,13 @@ impl Response {
     does not conform to the spec: https://datatracker.ietf.org/doc/html/rfc7230.
     */
     pub fn read_from<T: io::Read + 'static>(from: T) -> Result<Response, HttpError> {
+        Self::read_versioned_from(from).map(|(response, _)| response)
+    }
+
+    /// Reads a response, see [``Response::read_from``], and its HTTP version.
+    pub(crate) fn read_versioned_from<T: io::Read + 'static>(
+        from: T,
+    ) -> Result<(Response, String), HttpError> {
         // https://www.w3.org/Protocols/rfc2616/rfc2616-sec6.html
         //    Status-Line
         //                    *(( general-header
@@ -748,7 +755,7 @@ impl Response {
             headers,
         };
         debug!("response parsed: {:?}", response);
-        Ok(response)
+        Ok((response, status_line.http_version))
     }
 }
 
-- 
2.43.0


From 926fcf7be44489996e60ab261315c72cd438241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:04 +0000
Subject: [PATCH 25/38] fix: count the elapsed time of a limited read or write
 in full precision

---
 wruster/src/streams/timeout_stream.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/wruster/src/streams/timeout_stream.rs b/wruster/src/streams/timeout_stream.rs
index 18a4a9b..edd13cd 100644
--- a/wruster/src/streams/timeout_stream.rs
+++ b/wruster/src/streams/timeout_stream.rs
@@ -113,7 +113,7 @@ where
             Some(operation) => operation,
         };
         let next_timeout = read.next_timeout();
-        if next_timeout.as_secs() == 0 {
+        if next_timeout.is_zero() {
             return Err(io::Error::from(io::ErrorKind::TimedOut));
         }
         let stream = &self.stream;
@@ -160,7 +160,7 @@ where
             Some(operation) => operation,
         };
         let next_timeout = write.next_timeout();
-        if next_timeout.as_secs() == 0 {
+        if next_timeout.is_zero() {
             return Err(io::Error::from(io::ErrorKind::TimedOut));
         }
         if let Err(err) = stream.set_write_timeout(Some(next_timeout)) {
@@ -196,7 +196,7 @@ where
 struct Operation {
     timeout: Duration,
     started: Option<Instant>,
-    elapsed_secs: u64,
+    elapsed: Duration,
 }
 
 impl Operation {
@@ -204,17 +204,12 @@ impl Operation {
         Operation {
             timeout,
             started: None,
-            elapsed_secs: 0,
+            elapsed: Duration::ZERO,
         }
     }
 
     fn next_timeout(&mut self) -> Duration {
-        if self.elapsed_secs >= self.timeout.as_secs() {
-            Duration::from_secs(0)
-        } else {
-            let remaining = self.timeout.as_secs() - self.elapsed_secs;
-            Duration::from_secs(remaining)
-        }
+        self.timeout.saturating_sub(self.elapsed)
     }
 
     fn start(&mut self) {
@@ -222,11 +217,8 @@ impl Operation {
     }
 
     fn stop(&mut self) {
-        if let Some(started) = self.started {
-            let elapsed = started.elapsed().as_secs();
-            self.elapsed_secs += elapsed;
-        } else {
-            println!("operation not initialized stopped");
+        if let Some(started) = self.started.take() {
+            self.elapsed = self.elapsed.saturating_add(started.elapsed());
         }
     }
 }
-- 
2.43.0


From 9b27c2467483ddfc97f322b74f9ee3b132583d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 26/38] fix: let the ongoing requests be answered when the
 server shuts down

---
 wruster/src/lib.rs                        | 6 ++++--
 wruster/src/streams/cancellable_stream.rs | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index cdad21d..187c61f 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -407,7 +407,9 @@ impl Server {
                 for p in pending {
                     match p.upgrade() {
                         Some(p) => {
-                            match p.shutdown(net::Shutdown::Both) {
+                            // Only the reads are interrupted, the responses to
+                            // the ongoing requests must still be written.
+                            match p.shutdown(net::Shutdown::Read) {
                                 Ok(()) => debug!("pending active connection closed"),
                                 Err(err) => {
                                     error!("error closing a pending active connection {}", err)
@@ -569,7 +571,7 @@ fn handle_conversation<T>(
     debug!("handling conversation with {}", source_addr);
     let mut connection_open = true;
     let pending = Rc::new(RefCell::new(Vec::new()));
-    while connection_open {
+    while connection_open && !stream.is_shutdown() {
         let handle_stream = stream.clone();
         connection_open = handle_connection(
             handle_stream,
diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index ded8e3e..6907397 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -57,6 +57,10 @@ where
         self.stream.shutdown(how)
     }
 
+    pub fn is_shutdown(&self) -> bool {
+        self.done.load(Ordering::SeqCst)
+    }
+
     fn read_int(&self, buf: &mut [u8]) -> io::Result<usize> {
         // There will be no events for the data a stream already received, e.g.:
         // the data that a TLS stream decrypted but did not return yet.
-- 
2.43.0


From eee514494583cad1855ff936c06b956b9b0d220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:00 +0000
Subject: [PATCH 27/38] fix: do not lose the last response of a connection
 closed with requests unread

---
 wruster/src/lib.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 187c61f..a0ce756 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -96,6 +96,9 @@ pub const DEFAULT_READ_REQUEST_TIMEOUT: time::Duration = time::Duration::from_se
 /// Defines the default max time for a response to be written
 pub const DEFAULT_WRITE_RESPONSE_TIMEOUT: time::Duration = time::Duration::from_secs(60);
 
+/// The max time to wait for a client to close its side of a closed connection.
+const CLOSE_TIMEOUT: time::Duration = time::Duration::from_secs(1);
+
 /// Defines the result type returned from the [``Server``] methods.
 pub type ServerResult = Result<(), Box<dyn StdError>>;
 
@@ -587,12 +590,35 @@ fn handle_conversation<T>(
         debug!("connection flushed");
     }
 
-    if let Err(err) = stream.shutdown(net::Shutdown::Both) {
-        error!("error closing connection with: {}, {}", source_addr, err);
-    }
+    close(stream, source_addr);
     debug!("connection closed")
 }
 
+/// Closes a connection after receiving, for a limited time, what the client
+/// still sends, because if there is data not read when a connection is closed
+/// the part of the last response that is not sent yet is lost.
+fn close<T>(mut stream: ObservedStream<T>, source_addr: SocketAddr)
+where
+    T: Stream + 'static,
+{
+    if let Err(err) = stream.shutdown(net::Shutdown::Write) {
+        debug!("error closing connection with: {}, {}", source_addr, err);
+        return;
+    }
+    let deadline = time::Instant::now() + CLOSE_TIMEOUT;
+    let mut unread = [0; 4096];
+    while let Some(remaining) = deadline.checked_duration_since(time::Instant::now()) {
+        if stream.set_read_timeout(Some(remaining)).is_err() {
+            return;
+        }
+        match stream.read(&mut unread) {
+            Err(err) if err.kind() == ErrorKind::Interrupted => continue,
+            Ok(read) if read > 0 => continue,
+            _ => return,
+        }
+    }
+}
+
 /// Reads a request from a connection. The bytes read from the stream that
 /// don't belong to the request, because the client sent more than one without
 /// waiting for the responses, are kept for the reader of the next request.
-- 
2.43.0


From 3898360ca0b453cd6ac94b5933b3bcdb11d6b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 28/38] fix: keep accepting connections when the wait for them
 is interrupted

---
 wruster/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index a0ce756..2cc20fa 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -372,7 +372,12 @@ impl Server {
         loop {
             debug!("tracked streams {}", active_streams.len());
             events.clear();
-            epoller.wait(&mut events, None)?;
+            match epoller.wait(&mut events, None) {
+                Err(err) if err.kind() == ErrorKind::Interrupted => {}
+                result => {
+                    result?;
+                }
+            };
             for evt in &events {
                 if evt.key != 1 {
                     continue;
-- 
2.43.0


From 2bfaa9573c8957db94d9952f835547615d482989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 29/38] fix: keep accepting connections after failing to accept
 one

---
 wruster/src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 2cc20fa..048f8ef 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -99,6 +99,9 @@ pub const DEFAULT_WRITE_RESPONSE_TIMEOUT: time::Duration = time::Duration::from_
 /// The max time to wait for a client to close its side of a closed connection.
 const CLOSE_TIMEOUT: time::Duration = time::Duration::from_secs(1);
 
+/// The time to wait before accepting connections again after failing to do it.
+const ACCEPT_RETRY_TIME: time::Duration = time::Duration::from_millis(20);
+
 /// Defines the result type returned from the [``Server``] methods.
 pub type ServerResult = Result<(), Box<dyn StdError>>;
 
@@ -382,11 +385,18 @@ impl Server {
                 if evt.key != 1 {
                     continue;
                 }
-                let (stream, src_addr) = match listener.accept() {
-                    Err(err) => return Err(Box::new(err)),
+                let accepted = listener.accept();
+                epoller.modify(&listener, Event::readable(1)).unwrap();
+                let (stream, src_addr) = match accepted {
+                    Err(err) => {
+                        // The connection can be already gone, or there can be
+                        // no resources left for it until others are closed.
+                        error!("error accepting a connection: {}", err);
+                        thread::sleep(ACCEPT_RETRY_TIME);
+                        continue;
+                    }
                     Ok(connection) => connection,
                 };
-                epoller.modify(&listener, Event::readable(1)).unwrap();
                 info!("accepting connection from {}", src_addr);
                 let cconfig = Arc::clone(&routes);
                 let action_timeouts = timeouts.clone();
-- 
2.43.0


From 7d5bf5b18ba6d5dfc5d1c1f3c4d9122d64cb9154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 30/38] fix: do not stop accepting connections while a TLS
 client is told that the server is busy

---
 wruster/src/lib.rs                        | 12 +++++++++++-
 wruster/src/streams/cancellable_stream.rs | 12 ++++++++++--
 wruster/src/streams/mod.rs                | 18 ++++++++++++++++++
 wruster/src/streams/tls/mod.rs            | 10 ++++++++++
 4 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 048f8ef..51cf4be 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -371,6 +371,7 @@ impl Server {
     {
         let mut events = Vec::new();
         let mut pool = thread_pool::Pool::new(execunits, 100);
+        let mut busy_pool = thread_pool::Pool::new(0, 100);
         let active_streams = ObservedStreamList::new();
         loop {
             debug!("tracked streams {}", active_streams.len());
@@ -417,7 +418,16 @@ impl Server {
 
                 if pool.run(Box::new(action)).is_err() {
                     error!("server too busy to handle connection with: {}", src_addr);
-                    handle_busy(local_action_stream, timeouts.clone(), src_addr);
+                    if !local_action_stream.is_handshaking() {
+                        handle_busy(local_action_stream, timeouts.clone(), src_addr);
+                        continue;
+                    }
+                    // Other connections must not wait for the handshake.
+                    let busy_timeouts = timeouts.clone();
+                    let action = move || handle_busy(local_action_stream, busy_timeouts, src_addr);
+                    if busy_pool.run(Box::new(action)).is_err() {
+                        error!("server too busy to answer to: {}", src_addr);
+                    }
                 }
             }
             if stop.as_ref().load(Ordering::SeqCst) {
diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 6907397..8bb9e71 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -57,6 +57,10 @@ where
         self.stream.shutdown(how)
     }
 
+    pub fn is_handshaking(&self) -> bool {
+        self.stream.is_handshaking()
+    }
+
     pub fn is_shutdown(&self) -> bool {
         self.done.load(Ordering::SeqCst)
     }
@@ -175,8 +179,12 @@ where
             Some(Some(remaining)) => Some(remaining),
             Some(None) => return Err(io::Error::from(io::ErrorKind::TimedOut)),
         };
-        self.poller
-            .modify(self.stream.as_raw(), Event::writable(1))?;
+        let interest = if self.stream.wants_read() {
+            Event::readable(1)
+        } else {
+            Event::writable(1)
+        };
+        self.poller.modify(self.stream.as_raw(), interest)?;
         let mut events = Vec::new();
         if self.poller.wait(&mut events, timeout)? == 0 {
             let stop = self.done.load(atomic::Ordering::SeqCst);
diff --git a/wruster/src/streams/mod.rs b/wruster/src/streams/mod.rs
index 04a281d..135deb1 100644
--- a/wruster/src/streams/mod.rs
+++ b/wruster/src/streams/mod.rs
@@ -22,6 +22,16 @@ pub trait BaseStream {
     fn write_buf(&self, buf: &[u8]) -> io::Result<usize>;
     fn read_buf(&self, buf: &mut [u8]) -> io::Result<usize>;
     fn flush_data(&self) -> io::Result<()>;
+
+    /// Returns true when the stream can not write data until it receives some.
+    fn wants_read(&self) -> bool {
+        false
+    }
+
+    /// Returns true while the stream is not ready to write data.
+    fn is_handshaking(&self) -> bool {
+        false
+    }
 }
 
 impl BaseStream for TcpStream {
@@ -93,6 +103,14 @@ impl BaseStream for tls::Stream {
     fn flush_data(&self) -> io::Result<()> {
         self.flush_data()
     }
+
+    fn wants_read(&self) -> bool {
+        self.wants_read()
+    }
+
+    fn is_handshaking(&self) -> bool {
+        self.is_handshaking()
+    }
 }
 
 /**
diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index f746f34..eca0e0a 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -100,6 +100,16 @@ impl Stream {
         let mut stream = self.stream.lock().unwrap();
         stream.flush()
     }
+
+    pub fn is_handshaking(&self) -> bool {
+        let stream = self.stream.lock().unwrap();
+        stream.conn.is_handshaking()
+    }
+
+    pub fn wants_read(&self) -> bool {
+        let stream = self.stream.lock().unwrap();
+        stream.conn.is_handshaking() && !stream.conn.wants_write()
+    }
 }
 
 impl Read for Stream {
-- 
2.43.0


From 5098536895ea93c8fed65bdbd6ede466c1851e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 31/38] fix: a route whose path was not normalised, e.g. with a
 trailing slash, was not found at its own path

---
 wruster/src/router/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wruster/src/router/mod.rs b/wruster/src/router/mod.rs
index f8a574c..88d7a39 100644
--- a/wruster/src/router/mod.rs
+++ b/wruster/src/router/mod.rs
@@ -46,6 +46,10 @@ impl Router {
     /// TODO
     ///
     pub fn add(&self, route: &str, method: HttpMethod, action: HttpHandler) {
+        // The paths of the requests are normalized before looking them up.
+        let normalized = path::PathBuf::from(route).normalize().ok();
+        let normalized = normalized.as_deref().and_then(path::Path::to_str);
+        let route = normalized.unwrap_or(route);
         // We prioritize keeping the code of the Trie simpler over adding the
         // routes faster.
         let mut routes = self.routes.borrow_mut();
-- 
2.43.0


From 621d963a3dafa4b7c721073c7eafa82044dd9e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 32/38] fix: a TLS client that stopped in the handshake kept
 its connection, and its place, for ever

---
 wruster/src/lib.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 51cf4be..6377b4b 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -608,11 +608,6 @@ fn handle_conversation<T>(
             source_addr,
             timeouts.clone(),
         );
-        if let Err(err) = stream.flush() {
-            error!("error flushing to: {}, {}", source_addr, err);
-            return;
-        }
-        debug!("connection flushed");
     }
 
     close(stream, source_addr);
-- 
2.43.0


From aed104aabb3c790454629c45758cd1194513912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 33/38] fix: refuse a connection instead of ceasing to accept
 when a thread can not be created

---
 wruster/src/thread_pool/dynamic_pool.rs | 36 ++++++++++++++++++-------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/wruster/src/thread_pool/dynamic_pool.rs b/wruster/src/thread_pool/dynamic_pool.rs
index 3144a13..649319c 100644
--- a/wruster/src/thread_pool/dynamic_pool.rs
+++ b/wruster/src/thread_pool/dynamic_pool.rs
@@ -1,6 +1,6 @@
 use std::collections::VecDeque;
 use std::sync::atomic::{AtomicBool, Ordering};
-use std::sync::mpsc::{sync_channel, RecvTimeoutError, SyncSender, TrySendError};
+use std::sync::mpsc::{channel, sync_channel, RecvTimeoutError, SyncSender, TrySendError};
 use std::sync::{Arc, RwLock};
 use std::thread;
 use std::time::Duration;
@@ -23,15 +23,19 @@ impl DynamicWorker {
         timeout: Duration,
         first_action: Action,
         finished: DynamicWorkerFinished,
-    ) -> DynamicWorker {
+    ) -> Result<DynamicWorker, Action> {
         let (sender, receiver) = sync_channel::<Action>(0);
+        // The action must not be lost if the thread can not be created.
+        let (first_sender, first_receiver) = channel::<Action>();
         let initialized = Arc::new(AtomicBool::new(false));
         let t_initialized = Arc::clone(&initialized);
-        let handle = std::thread::spawn(move || {
+        let handle = thread::Builder::new().spawn(move || {
             // When the worker is created it will execute, at least, one action
             // so we don't want to timeout waiting for it.
             t_initialized.store(true, Ordering::SeqCst);
-            run_action(first_action);
+            if let Ok(first_action) = first_receiver.recv() {
+                run_action(first_action);
+            }
             loop {
                 let res = receiver.recv_timeout(timeout);
                 match res {
@@ -50,11 +54,19 @@ impl DynamicWorker {
                 break;
             }
         });
-        DynamicWorker {
+        let handle = match handle {
+            Ok(handle) => handle,
+            Err(err) => {
+                error!("error creating the worker {}: {}", id, err);
+                return Err(first_action);
+            }
+        };
+        first_sender.send(first_action).map_err(|err| err.0)?;
+        Ok(DynamicWorker {
             id,
             handle: Some(handle),
             sender: Some(sender),
-        }
+        })
     }
 
     fn exec(&self, action: Action) -> Result<(), Action> {
@@ -113,14 +125,20 @@ impl Dynamic {
             None => return Err(action),
         };
 
-        let free_cells = Arc::downgrade(&self.free_cells);
+        let finished_free_cells = Arc::downgrade(&self.free_cells);
         let finished = move || {
-            if let Some(free_cells) = free_cells.upgrade() {
+            if let Some(free_cells) = finished_free_cells.upgrade() {
                 let mut free_cells = free_cells.write().unwrap();
                 free_cells.push_back(index);
             }
         };
-        let worker = DynamicWorker::new(index, self.timeout, action, Box::new(finished));
+        let worker = match DynamicWorker::new(index, self.timeout, action, Box::new(finished)) {
+            Ok(worker) => worker,
+            Err(action) => {
+                free_cells.push_front(index);
+                return Err(action);
+            }
+        };
         self.workers[index] = Arc::new(AtomicRefCell::new(Some(worker)));
         Ok(index)
     }
-- 
2.43.0


From 342d5f9e14d00df7fe15802c9801442b322ca1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 34/38] fix: serve with fewer workers when their threads can
 not be created

---
 wruster/src/thread_pool/static_pool.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/wruster/src/thread_pool/static_pool.rs b/wruster/src/thread_pool/static_pool.rs
index 67be096..daa8068 100644
--- a/wruster/src/thread_pool/static_pool.rs
+++ b/wruster/src/thread_pool/static_pool.rs
@@ -1,7 +1,7 @@
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::mpsc::{sync_channel, SyncSender, TrySendError};
 use std::sync::Arc;
-use std::thread;
+use std::{io, thread};
 
 use super::{run_action, Action, PoolError};
 
@@ -12,11 +12,11 @@ struct Worker {
 }
 
 impl Worker {
-    fn new(id: usize) -> Worker {
+    fn new(id: usize) -> io::Result<Worker> {
         let (sender, receiver) = sync_channel::<Action>(0);
         let initialized = Arc::new(AtomicBool::new(false));
         let t_initialized = Arc::clone(&initialized);
-        let handle = std::thread::spawn(move || loop {
+        let handle = thread::Builder::new().spawn(move || loop {
             t_initialized.store(true, Ordering::SeqCst);
             let res = receiver.recv();
             if let Ok(action) = res {
@@ -26,16 +26,16 @@ impl Worker {
             }
             debug!("woker: {} stopped", id.to_string());
             break;
-        });
+        })?;
         // Wait for the thread to be initialized.
         while !initialized.load(Ordering::SeqCst) {
             thread::yield_now();
         }
-        Worker {
+        Ok(Worker {
             id,
             handle: Some(handle),
             sender: Some(sender),
-        }
+        })
     }
 
     fn exec(&self, action: Action) -> Result<(), Action> {
@@ -68,16 +68,22 @@ impl Static {
     pub fn new(size: usize) -> Static {
         let mut workers = Vec::with_capacity(size);
         for i in 0..size {
-            workers.push(Worker::new(i));
+            match Worker::new(i) {
+                Ok(worker) => workers.push(worker),
+                Err(err) => error!("error creating the worker {}: {}", i, err),
+            }
         }
         Static {
-            size,
+            size: workers.len(),
             next: 0,
             workers,
         }
     }
 
     pub fn run(&mut self, action: Action) -> Result<(), PoolError> {
+        if self.size == 0 {
+            return Err(PoolError { action });
+        }
         let mut action = match self.workers[self.next].exec(action) {
             Ok(_) => {
                 debug!(
-- 
2.43.0


From efe72f1dbb35be1c28443711c9d4c04b2f31ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 35/38] fix: return an error from run when descriptors or
 threads are lacking

---
 wruster/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 6377b4b..3239e78 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -313,12 +313,11 @@ impl Server {
             Ok(listener) => listener,
             Err(err) => return Err(Box::new(err)),
         };
-        listener.set_nonblocking(true).unwrap();
-        let poller = polling::Poller::new().unwrap();
-        poller.add(&listener, Event::readable(1)).unwrap();
+        listener.set_nonblocking(true)?;
+        let poller = polling::Poller::new()?;
+        poller.add(&listener, Event::readable(1))?;
         let poller = Arc::new(poller);
         let epoller = Arc::clone(&poller);
-        self.poller = Some(poller);
         info!("listening on {}", &addr);
         let routes = Arc::new(routes);
         let execunits = match thread::available_parallelism() {
@@ -340,7 +339,7 @@ impl Server {
         let stop = Arc::clone(&self.stop);
         let timeouts = self.timeouts.clone();
 
-        let handle = thread::spawn(move || {
+        let handle = thread::Builder::new().spawn(move || {
             Self::accept_connections(
                 timeouts,
                 stop,
@@ -350,8 +349,9 @@ impl Server {
                 routes,
                 stream_builder,
             )
-        });
+        })?;
 
+        self.poller = Some(poller);
         self.handle = Some(handle);
         self.addr = Some(String::from(addr));
         Ok(())
-- 
2.43.0


From 426a0a510cac161c825ba88304e9443c82088d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 36/38] fix: let the other requests of a client proceed while
 one connects

---
 wruster/src/http/client/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index 36df043..6f52cf8 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -114,7 +114,10 @@ impl<'a> Client {
             match persistent {
                 true => {
                     let pool = self.connection_pool.lock().map_err(HttpError::from)?;
-                    match pool.get(addr) {
+                    let idle = pool.get(addr);
+                    // Connecting can take long.
+                    drop(pool);
+                    match idle {
                         Some(conn) => conn.resource(),
                         None => Self::connect(addr).map(Arc::new)?,
                     }
-- 
2.43.0


From fb52734635b1039c930ed950d812079a07e09119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 37/38] fix: answer 404 instead of panicking when the served
 directory is missing

---
 wruster_handlers/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index 009cc80..713e628 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -39,7 +39,15 @@ server.wait().unwrap();
 ```
 */
 pub fn serve_static(dir: &str, request: &Request) -> Response {
-    let base_path: PathBuf = PathBuf::from(dir).canonicalize().unwrap();
+    let base_path: PathBuf = match PathBuf::from(dir).canonicalize() {
+        Ok(path) => path,
+        Err(err) => {
+            if let io::ErrorKind::NotFound = err.kind() {
+                return Response::from_status(StatusCode::NotFound);
+            }
+            return Response::from_status(StatusCode::InternalServerError);
+        }
+    };
     let mut uri = request.uri.as_str();
     if uri.starts_with('/') {
         if uri.len() < 2 {
-- 
2.43.0


From 575d99f405b56866ca35bff4a9541e577e6f23fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 38/38] fix: read the Connection header as a list of options

---
 wruster/src/http/client/mod.rs | 12 ++----------
 wruster/src/http/mod.rs        | 21 +++++++++++++++------
 wruster/src/lib.rs             |  9 +++------
 3 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index 6f52cf8..32339bd 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -206,18 +206,10 @@ fn allows_body(method: HttpMethod, response: &Response) -> bool {
 /// [persistent](https://httpwg.org/specs/rfc7230.html#rfc.section.6.3) and the
 /// end of the response is known.
 fn is_reusable(method: HttpMethod, version: &str, response: &Response) -> bool {
-    let connection: Vec<String> = match response.headers.get("Connection") {
-        None => Vec::new(),
-        Some(values) => values
-            .iter()
-            .flat_map(|value| value.split(','))
-            .map(|option| option.trim().to_lowercase())
-            .collect(),
-    };
-    if connection.iter().any(|option| option == "close") {
+    if has_connection_option(&response.headers, "close") {
         return false;
     }
-    if version != "HTTP/1.1" && !connection.iter().any(|option| option == "keep-alive") {
+    if version != "HTTP/1.1" && !has_connection_option(&response.headers, "keep-alive") {
         return false;
     }
     // Some servers, wrongly, send a body with the responses to HEAD requests.
diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 3ff914e..e7463c8 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -192,11 +192,7 @@ impl Request {
 
     */
     pub fn is_connection_persistent(&self) -> bool {
-        let value = match self.headers.get("Connection") {
-            None => "".to_string(),
-            Some(values) => values[0].to_lowercase(),
-        };
-        if value == "close" {
+        if has_connection_option(&self.headers, "close") {
             return false;
         }
 
@@ -204,13 +200,26 @@ impl Request {
             return true;
         };
 
-        if self.version == "HTTP/1.0" && value == "keep-alive" {
+        if self.version == "HTTP/1.0" && has_connection_option(&self.headers, "keep-alive") {
             return true;
         };
         false
     }
 }
 
+/// Returns true if the given option is in the lists of options that the
+/// [Connection](https://httpwg.org/specs/rfc7230.html#header.connection)
+/// headers have.
+pub(crate) fn has_connection_option(headers: &Headers, option: &str) -> bool {
+    match headers.get("Connection") {
+        None => false,
+        Some(values) => values
+            .iter()
+            .flat_map(|value| value.split(','))
+            .any(|value| value.trim().eq_ignore_ascii_case(option)),
+    }
+}
+
 /// Converts an immutable reference to a Request given [``mime::Mime``] type, a
 /// [``HttpMethod``] and a url.
 pub trait IntoRequest {
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 3239e78..515b7f4 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -800,11 +800,7 @@ fn run_action(request: &mut Request, routes: Arc<Router>) -> Response {
 Evaluates if a request requires a connection to be [persistent](https://httpwg.org/specs/rfc7230.html#rfc.section.6.3).
 */
 fn is_connection_persistent(request: &http::Request) -> bool {
-    let value = match request.headers.get("Connection") {
-        None => "".to_string(),
-        Some(values) => values[0].to_lowercase(),
-    };
-    if value == "close" {
+    if http::has_connection_option(&request.headers, "close") {
         return false;
     }
 
@@ -812,7 +808,8 @@ fn is_connection_persistent(request: &http::Request) -> bool {
         return true;
     };
 
-    if request.version == "HTTP/1.0" && value == "keep-alive" {
+    if request.version == "HTTP/1.0" && http::has_connection_option(&request.headers, "keep-alive")
+    {
         return true;
     };
     false
-- 
2.43.0

