From 3736606fb0ebd99e9859745c97ebf451a925c9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 01/18] fix: parser loops forever when an expression is
 followed by `!`

---
 lib/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index bd473eb..731c8cf 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -142,7 +142,7 @@ impl Parser {
                     self.next_token();
                     self.parse_field_expr(left)?
                 }
-                _ => left,
+                _ => return Ok(left),
             };
         }
         Ok(left)
-- 
2.43.0


From 87016e9e4ff60bd98c8de5c4b9552a9ff251f9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 02/18] fix: integer overflow, division by zero and out of
 range shifts crash the evaluator

---
 lib/src/evaluator.rs |  5 ++++-
 lib/src/value.rs     | 35 ++++++++++++++++++++++++++++-------
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/lib/src/evaluator.rs b/lib/src/evaluator.rs
index f638c12..f2f649d 100644
--- a/lib/src/evaluator.rs
+++ b/lib/src/evaluator.rs
@@ -117,7 +117,10 @@ fn eval_unary_expr(token: &Token, right: &Expr, context: &mut Context) -> Result
         (Kind::Not, Value::Boolean(false)) | (Kind::Not, Value::Null) => Ok(Value::Boolean(true)),
         (Kind::Not, Value::Integer(integer)) => Ok(Value::Integer(!integer)),
         (Kind::Not, _) => Ok(Value::Boolean(false)),
-        (Kind::Sub, Value::Integer(integer)) => Ok(Value::Integer(-integer)),
+        (Kind::Sub, Value::Integer(integer)) => match integer.checked_neg() {
+            Some(integer) => Ok(Value::Integer(integer)),
+            None => Err(format!("integer out of range: -{}", integer)),
+        },
         (Kind::Sub, Value::Float(float)) => Ok(Value::Float(-float)),
         (_, right) => Err(format!("unknown operator: {}{:?}", token, right)),
     }
diff --git a/lib/src/value.rs b/lib/src/value.rs
index f3b8d00..8d5b4c4 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -42,7 +42,10 @@ impl Add for Value {
     type Output = std::result::Result<Self, String>;
     fn add(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left + right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_add(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer out of range: {} + {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left + right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 + right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left + right as f64)),
@@ -56,7 +59,10 @@ impl Sub for Value {
     type Output = std::result::Result<Self, String>;
     fn sub(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left - right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_sub(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer out of range: {} - {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left - right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 - right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left - right as f64)),
@@ -69,7 +75,10 @@ impl Mul for Value {
     type Output = std::result::Result<Self, String>;
     fn mul(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left * right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_mul(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer out of range: {} * {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left * right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 * right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left * right as f64)),
@@ -82,7 +91,10 @@ impl Div for Value {
     type Output = std::result::Result<Self, String>;
     fn div(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left / right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_div(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer out of range: {} / {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left / right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 / right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left / right as f64)),
@@ -95,7 +107,10 @@ impl Rem for Value {
     type Output = std::result::Result<Self, String>;
     fn rem(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left % right)),
+            (Value::Integer(left), Value::Integer(right)) => match left.checked_rem(right) {
+                Some(integer) => Ok(Value::Integer(integer)),
+                None => Err(format!("integer out of range: {} % {}", left, right)),
+            },
             (Value::Float(left), Value::Float(right)) => Ok(Value::Float(left % right)),
             (Value::Integer(left), Value::Float(right)) => Ok(Value::Float(left as f64 % right)),
             (Value::Float(left), Value::Integer(right)) => Ok(Value::Float(left % right as f64)),
@@ -138,7 +153,10 @@ impl Shl for Value {
     type Output = std::result::Result<Self, String>;
     fn shl(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left << right)),
+            (Value::Integer(left), Value::Integer(right)) => match right {
+                0..=63 => Ok(Value::Integer(left << right)),
+                _ => Err(format!("shift out of range: {} << {}", left, right)),
+            },
             (left, right) => Err(format!("type mismatch: {} << {}", left, right)),
         }
     }
@@ -148,7 +166,10 @@ impl Shr for Value {
     type Output = std::result::Result<Self, String>;
     fn shr(self, other: Self) -> Self::Output {
         match (self, other) {
-            (Value::Integer(left), Value::Integer(right)) => Ok(Value::Integer(left >> right)),
+            (Value::Integer(left), Value::Integer(right)) => match right {
+                0..=63 => Ok(Value::Integer(left >> right)),
+                _ => Err(format!("shift out of range: {} >> {}", left, right)),
+            },
             (left, right) => Err(format!("type mismatch: {} >> {}", left, right)),
         }
     }
-- 
2.43.0


From 817d6039e5f638ee6b7529bac5dc1f5d13e3e08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 03/18] fix: record arrays are written without the block that
 ends them

---
 lib/src/writer.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index f2b191b..71f1541 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -87,24 +87,34 @@ impl<W: Write> Writer<W> {
             encode_bytes(record.request.method.as_ref(), &mut data);
             encode_bytes(record.request.url.to_string().as_bytes(), &mut data);
             encode_bytes(record.request.version.as_ref(), &mut data);
-            encode_long(record.request.headers.len() as i64, &mut data);
+            if !record.request.headers.is_empty() {
+                encode_long(record.request.headers.len() as i64, &mut data);
+            }
             for header in record.request.headers.iter() {
                 encode_long(2, &mut data);
                 encode_bytes(header.name.as_bytes(), &mut data);
                 encode_bytes(header.value.as_bytes(), &mut data);
+                encode_long(0, &mut data);
             }
+            encode_long(0, &mut data);
             encode_bytes(record.request.body.as_bytes(), &mut data);
             encode_bytes(record.response.version.as_bytes(), &mut data);
             encode_long(record.response.status as i64, &mut data);
             encode_bytes(record.response.reason.as_bytes(), &mut data);
-            encode_long(record.response.headers.len() as i64, &mut data);
+            if !record.response.headers.is_empty() {
+                encode_long(record.response.headers.len() as i64, &mut data);
+            }
             for header in record.response.headers.iter() {
                 encode_long(2, &mut data);
                 encode_bytes(header.name.as_bytes(), &mut data);
                 encode_bytes(header.value.as_bytes(), &mut data);
+                encode_long(0, &mut data);
             }
+            encode_long(0, &mut data);
             encode_bytes(record.response.body.as_bytes(), &mut data);
-            encode_long(record.asserts.len() as i64, &mut data);
+            if !record.asserts.is_empty() {
+                encode_long(record.asserts.len() as i64, &mut data);
+            }
             for assert in record.asserts.iter() {
                 encode_bytes(assert.expr.as_bytes(), &mut data);
                 encode_bytes(assert.left.as_bytes(), &mut data);
@@ -112,6 +122,7 @@ impl<W: Write> Writer<W> {
                 encode_bytes(assert.right.as_bytes(), &mut data);
                 encode_bool(assert.result, &mut data);
             }
+            encode_long(0, &mut data);
             encode_bytes(record.error.as_bytes(), &mut data);
         }
         let mut buffer = Vec::new();
-- 
2.43.0


From fcfba3db475b7f3a3b2ef33d49c49d7e640bfe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 04/18] fix: record writer loses bytes when the sink accepts
 only part of a write

---
 lib/src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index 71f1541..aaba691 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -64,7 +64,7 @@ pub struct Writer<W> {
 
 impl<W: Write> Writer<W> {
     pub fn new(mut w: W) -> Self {
-        let _ = w.write(&header());
+        let _ = w.write_all(&header());
         Writer { w }
     }
 
@@ -130,7 +130,7 @@ impl<W: Write> Writer<W> {
         encode_long(data.len() as i64, &mut buffer);
         buffer.extend_from_slice(&data);
         buffer.extend_from_slice(MARKER);
-        let _ = self.w.write(&buffer);
+        let _ = self.w.write_all(&buffer);
     }
 }
 
-- 
2.43.0


From 69334088fbda76a2566db4052f523e68d5d22dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 05/18] fix: url path is cut at a second scheme separator

---
 lib/src/http/url.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index bba5999..3919aec 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -9,7 +9,7 @@ pub struct Url {
 
 impl std::convert::From<&str> for Url {
     fn from(str: &str) -> Self {
-        let mut splits = str.split("://");
+        let mut splits = str.splitn(2, "://");
         let scheme = Scheme::from(splits.next());
         let (host, port, path) = match splits.next() {
             Some(str) => {
-- 
2.43.0


From e711eb513d94a234e61dfdc7d0d3d456bc49f0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 06/18] fix: recorded request url drops an explicit port

---
 lib/src/http/url.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/http/url.rs b/lib/src/http/url.rs
index 3919aec..ede096a 100644
--- a/lib/src/http/url.rs
+++ b/lib/src/http/url.rs
@@ -60,7 +60,10 @@ impl Default for Url {
 
 impl std::fmt::Display for Url {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "{}://{}{}", self.scheme, self.host, self.path)
+        match (&self.scheme, self.port) {
+            (Scheme::Http, 80) | (Scheme::Https, 443) => write!(f, "{}://{}{}", self.scheme, self.host, self.path),
+            _ => write!(f, "{}://{}:{}{}", self.scheme, self.host, self.port, self.path),
+        }
     }
 }
 
-- 
2.43.0


From 76a7153dd0990a91f3b19ae16aa10966bb9bb0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 07/18] fix: response reason keeps only its first word

---
 lib/src/http/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/response.rs b/lib/src/http/response.rs
index 2e9224d..96a6ec8 100644
--- a/lib/src/http/response.rs
+++ b/lib/src/http/response.rs
@@ -37,7 +37,7 @@ impl Response {
         let mut splits = line.split_whitespace();
         let version = parse::<String>(splits.next());
         let status = parse::<u16>(splits.next());
-        let reason = parse::<String>(splits.next());
+        let reason = splits.collect::<Vec<&str>>().join(" ");
         // headers
         let mut headers = Headers::default();
         loop {
-- 
2.43.0


From d700f9ca5f384a23a3e9d4e446dadb287c5de5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 08/18] fix: negative numbers in a json response body become
 null

---
 lib/src/syntax.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/syntax.rs b/lib/src/syntax.rs
index 9356670..6393878 100644
--- a/lib/src/syntax.rs
+++ b/lib/src/syntax.rs
@@ -1,3 +1,4 @@
+use crate::Kind;
 use crate::Token;
 use crate::Value;
 use std::collections::HashMap;
@@ -44,6 +45,11 @@ impl Expr {
                     .map(|(k, v)| (k.eval().to_string(), v.eval()))
                     .collect::<HashMap<String, Value>>(),
             ),
+            Expr::Unary(token, right) => match (token.kind, right.eval()) {
+                (Kind::Sub, Value::Integer(integer)) => integer.checked_neg().map(Value::Integer).unwrap_or(Value::Null),
+                (Kind::Sub, Value::Float(float)) => Value::Float(-float),
+                _ => Value::Null,
+            },
             _ => Value::Null,
         }
     }
-- 
2.43.0


From 95e6e65581d829ec10063cb93990cba27ff10b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 09/18] fix: line breaks in a request body are lost

---
 lib/src/http/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index f0cb496..7506087 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -79,7 +79,7 @@ impl Request {
                     }
                 }
                 _ => {
-                    body = String::from_iter(lines);
+                    body = lines.collect::<Vec<&str>>().join("\n");
                     if body.trim().is_empty() {
                         content = Content::Empty;
                     } else {
-- 
2.43.0


From e76d058ea5426fab522ab35a523e6a55f26fa2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 10/18] fix: form fields keep the blanks around names and
 values

---
 lib/src/http/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/http/request.rs b/lib/src/http/request.rs
index 7506087..8f4d956 100644
--- a/lib/src/http/request.rs
+++ b/lib/src/http/request.rs
@@ -54,7 +54,7 @@ impl Request {
                     let mut serializer = form_urlencoded::Serializer::new(String::default());
                     for line in lines.by_ref() {
                         if let Some((name, value)) = line.trim().split_once(':') {
-                            serializer.append_pair(name, value);
+                            serializer.append_pair(name.trim(), value.trim());
                             body.push_str(line);
                         }
                     }
-- 
2.43.0


From 3bcc96f087d74f2cc465f30f59df61fa5716b594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 11/18] fix: a duration too long for seconds overflows

---
 cmd/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/src/main.rs b/cmd/src/main.rs
index 05b06c5..c854326 100644
--- a/cmd/src/main.rs
+++ b/cmd/src/main.rs
@@ -79,8 +79,8 @@ fn parse_duration(s: &str) -> Result<Duration, String> {
     };
     let duration = match last {
         Some('s') => Duration::from_secs(value),
-        Some('m') => Duration::from_secs(value * 60),
-        Some('h') => Duration::from_secs(value * 3600),
+        Some('m') => Duration::from_secs(value.checked_mul(60).ok_or(format!("Duration too long: {}", s))?),
+        Some('h') => Duration::from_secs(value.checked_mul(3600).ok_or(format!("Duration too long: {}", s))?),
         Some(c) => return Err(format!("Unknown time unit: {}, supported units: s, m, h", c)),
         None => return Err("Time unit needed, for example 1s or 2m".to_string()),
     };
-- 
2.43.0


From edb83b23976c24c9435f4591e5498a0ec7bc0376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 12/18] fix: repl spins forever once its input ends

---
 cmd/src/command.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index 3f67921..ba361a5 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -14,18 +14,21 @@ use std::sync::Arc;
 use std::time::Duration;
 
 pub fn repl() {
-    let mut lines = stdin().lock().lines();
+    let lines = stdin().lock().lines();
     let mut context = Context::new();
-    loop {
-        if let Some(Ok(text)) = lines.next() {
-            if text == "exit" {
-                break;
-            }
-            if text.trim().is_empty() {
-                continue;
-            }
-            context = eval(text, Some(context));
+    for line in lines {
+        let text = match line {
+            Ok(text) => text,
+            Err(error) if error.kind() == std::io::ErrorKind::InvalidData => continue,
+            Err(_) => break,
+        };
+        if text == "exit" {
+            break;
+        }
+        if text.trim().is_empty() {
+            continue;
         }
+        context = eval(text, Some(context));
     }
 }
 
-- 
2.43.0


From e80796841c7111dc3d6a464ea681e93ecba23a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 13/18] fix: the last token of a source file merges with the
 first of the next

---
 cmd/src/command.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index ba361a5..ac0a12c 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -179,7 +179,8 @@ fn read(path: PathBuf, text: &mut String) -> std::io::Result<()> {
             read(entry, text)?;
         }
     } else if path.is_file() && path.extension() == Some(std::ffi::OsStr::new("fan")) {
-        text.push_str(&std::fs::read_to_string(path)?)
+        text.push_str(&std::fs::read_to_string(path)?);
+        text.push('\n');
     }
     Ok(())
 }
-- 
2.43.0


From f1c7df4c36df47f715f617ab03ef86e7447e7a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 14/18] fix: runs left over when number is not a multiple of
 threads are dropped

---
 cmd/src/command.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index ac0a12c..b1d0d8f 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -85,8 +85,8 @@ pub fn test(
                     let name = Arc::new(name);
                     let test = Arc::new(test);
                     let continuous = Arc::new(AtomicBool::new(true));
-                    let maximun = number / threads;
                     for thread in 0..threads {
+                        let maximun = number / threads + u32::from(thread < number % threads);
                         let sender = sender.to_owned();
                         let continuous = continuous.to_owned();
                         let name = name.to_owned();
-- 
2.43.0


From c34b631c7545c27afe5d729d1a0ebebfbad0c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 15/18] fix: records of a run that ends in an error are lost

---
 cmd/src/command.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index b1d0d8f..dd836df 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -96,19 +96,17 @@ pub fn test(
                         handles.push(std::thread::spawn(move || {
                             let mut number = u32::default();
                             while continuous.load(Ordering::Relaxed) && number < maximun {
-                                match eval_block(test.as_ref(), &mut context) {
-                                    Ok(_) => {}
-                                    Err(error) => {
-                                        println!("{}", error);
-                                        break;
-                                    }
-                                }
+                                let result = eval_block(test.as_ref(), &mut context);
                                 let records = context.records();
                                 records.iter().for_each(|record| println!("{}", record));
                                 if let Some(ref mut writer) = writer {
                                     writer.write(&records, &name, thread, number)
                                 }
                                 stat.then(|| sender.send(records));
+                                if let Err(error) = result {
+                                    println!("{}", error);
+                                    break;
+                                }
                                 number += 1;
                             }
                         }));
-- 
2.43.0


From 879328e49de2a6edaf53e34ee26ede7925fdaa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 16/18] fix: stat prints nothing unless a test is named

---
 cmd/src/command.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/src/command.rs b/cmd/src/command.rs
index dd836df..b78415c 100644
--- a/cmd/src/command.rs
+++ b/cmd/src/command.rs
@@ -126,6 +126,7 @@ pub fn test(
         }
         None => {
             for (thread, (name, test)) in tests.into_iter().enumerate() {
+                let sender = sender.to_owned();
                 let mut writer = writer(record.as_ref(), thread as u32);
                 let mut context = context.to_owned();
                 handles.push(std::thread::spawn(move || {
@@ -140,6 +141,7 @@ pub fn test(
                     if let Some(ref mut writer) = writer {
                         writer.write(&records, &name, thread as u32, u32::default())
                     }
+                    stat.then(|| sender.send(records));
                 }));
             }
         }
-- 
2.43.0


From 13083adfd25b35553976fd74bdb5b2cd10b68f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 17/18] verif: internals for the verification harness behind
 cfg basjoofan_verif

---
 cmd/src/main.rs | 19 +++++++++++++++++++
 lib/src/lib.rs  | 21 +++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/cmd/src/main.rs b/cmd/src/main.rs
index c854326..3f52469 100644
--- a/cmd/src/main.rs
+++ b/cmd/src/main.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 mod command;
 use clap::{Parser, Subcommand};
 use std::{path::PathBuf, time::Duration};
@@ -44,6 +46,10 @@ enum Commands {
 }
 
 fn main() {
+    #[cfg(basjoofan_verif)]
+    if std::env::var_os("BASJOOFAN_VERIF_DURATIONS").is_some() {
+        return verif_durations();
+    }
     let interface = Interface::parse();
     match interface.command {
         Some(Commands::Eval { text }) => {
@@ -86,3 +92,16 @@ fn parse_duration(s: &str) -> Result<Duration, String> {
     };
     Ok(duration)
 }
+
+/// Prints what each NUL separated text on stdin means as a duration, for the verification harness.
+#[cfg(basjoofan_verif)]
+fn verif_durations() {
+    let texts = std::io::read_to_string(std::io::stdin()).unwrap_or_default();
+    for text in texts.split('\0') {
+        match std::panic::catch_unwind(|| parse_duration(text)) {
+            Ok(Ok(duration)) => println!("{} {}", duration.as_secs(), duration.subsec_nanos()),
+            Ok(Err(_)) => println!("error"),
+            Err(_) => println!("crash"),
+        }
+    }
+}
diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index c0edb69..84a3654 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 mod context;
 mod evaluator;
 mod http;
@@ -23,3 +25,22 @@ pub use parser::Parser;
 pub use parser::Source;
 pub use stat::Stats;
 pub use writer::Writer;
+
+/// Crate internals for the verification harness, only with `--cfg basjoofan_verif`.
+#[cfg(basjoofan_verif)]
+pub mod verif {
+    pub use crate::context::Assert;
+    pub use crate::context::Record;
+    pub use crate::http::Client;
+    pub use crate::http::Request;
+    pub use crate::http::Response;
+    pub use crate::http::Time;
+    pub use crate::lexer::segment;
+    pub use crate::native::append;
+    pub use crate::native::format;
+    pub use crate::native::length;
+    pub use crate::syntax::Expr;
+    pub use crate::token::Kind;
+    pub use crate::token::Token;
+    pub use crate::value::Value;
+}
-- 
2.43.0


From 57be0fc0f01a956c535bdb541cf007854f07b9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:33 +0000
Subject: [PATCH 18/18] fix: a run without records hides the records written
 after it

---
 lib/src/writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/writer.rs b/lib/src/writer.rs
index aaba691..f550cf8 100644
--- a/lib/src/writer.rs
+++ b/lib/src/writer.rs
@@ -69,6 +69,10 @@ impl<W: Write> Writer<W> {
     }
 
     pub fn write(&mut self, records: &[Record], name: &str, thread: u32, number: u32) {
+        // readers take a block without records for the end of the file
+        if records.is_empty() {
+            return;
+        }
         let mut data = Vec::new();
         for (order, record) in records.iter().enumerate() {
             encode_bytes(name.as_bytes(), &mut data);
-- 
2.43.0

