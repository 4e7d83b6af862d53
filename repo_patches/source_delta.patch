From c3703cbf0a7ae0839bfbdfc2ef147b47f494f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 01/61] fix: binary String length near usize::MAX overflowed
 instead of returning an error

---
 src/serde_bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 335c217..584a06b 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -254,7 +254,7 @@ impl SerBin for String {
 impl DeBin for String {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<String, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        if *o + len > d.len() {
+        if len > d.len() - *o {
             return Err(DeBinErr {
                 o: *o,
                 msg: DeBinErrReason::Length {
-- 
2.43.0


From 6dba35df40e5f0cc89818453e39e6efb4b21b876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 02/61] fix: binary collection length prefix was used unchecked
 as an allocation size

---
 src/serde_bin.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 584a06b..6edaaa1 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -299,7 +299,8 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Vec<T>, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut out = Vec::with_capacity(len);
+        // `len` is not trusted: reserve no more slots than bytes are left.
+        let mut out = Vec::with_capacity(len.min(d.len() - *o));
         for _ in 0..len {
             out.push(DeBin::de_bin(o, d)?)
         }
@@ -355,7 +356,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut out = std::collections::HashSet::with_capacity(len);
+        let mut out = std::collections::HashSet::with_capacity(len.min(d.len() - *o));
         for _ in 0..len {
             out.insert(DeBin::de_bin(o, d)?);
         }
@@ -602,7 +603,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut h = std::collections::HashMap::with_capacity(len);
+        let mut h = std::collections::HashMap::with_capacity(len.min(d.len() - *o));
         for _ in 0..len {
             let k = DeBin::de_bin(o, d)?;
             let v = DeBin::de_bin(o, d)?;
-- 
2.43.0


From a3d0840db5118acf4841b61cf336b80031978e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 03/61] fix: a Duration whose nanos carry past u64::MAX seconds
 panicked while deserializing

---
 src/serde_bin.rs  | 7 ++++++-
 src/serde_json.rs | 4 +++-
 src/serde_ron.rs  | 4 +++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 6edaaa1..c2a7c24 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -684,7 +684,12 @@ impl DeBin for Duration {
                 ),
             });
         }
-        Ok(Duration::new(secs, nanos))
+        Duration::from_secs(secs)
+            .checked_add(Duration::from_nanos(nanos.into()))
+            .ok_or_else(|| DeBinErr {
+                o: *o,
+                msg: DeBinErrReason::Range("Duration is too large".to_owned()),
+            })
     }
 }
 
diff --git a/src/serde_json.rs b/src/serde_json.rs
index 4faaaea..0d4a721 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1357,7 +1357,9 @@ impl DeJson for Duration {
         if nanos > 1_000_000_000 {
             Err(s.err_range("Duration nanos must be at most 1,000,000,000"))
         } else {
-            Ok(Duration::new(secs, nanos))
+            Duration::from_secs(secs)
+                .checked_add(Duration::from_nanos(nanos))
+                .ok_or_else(|| s.err_range("Duration is too large"))
         }
     }
 }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index d04df66..7a144b2 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1354,7 +1354,9 @@ impl DeRon for Duration {
         if nanos > 1_000_000_000 {
             Err(s.err_range("Duration nanos must be at most 1,000,000,000"))
         } else {
-            Ok(Duration::new(secs, nanos))
+            Duration::from_secs(secs)
+                .checked_add(Duration::from_nanos(nanos))
+                .ok_or_else(|| s.err_range("Duration is too large"))
         }
     }
 }
-- 
2.43.0


From 347e6a94e30196213bc0f01e806a40eee5c9f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 04/61] fix: an unrepresentable SystemTime panicked while
 deserializing

---
 src/serde_bin.rs  | 7 ++++++-
 src/serde_json.rs | 4 +++-
 src/serde_ron.rs  | 4 +++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index c2a7c24..192ab47 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -705,7 +705,12 @@ impl SerBin for std::time::SystemTime {
 impl DeBin for std::time::SystemTime {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<std::time::SystemTime, DeBinErr> {
         match DeBin::de_bin(o, d)? {
-            Some(duration) => Ok(std::time::SystemTime::UNIX_EPOCH + duration),
+            Some(duration) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(duration)
+                .ok_or_else(|| DeBinErr {
+                    o: *o,
+                    msg: DeBinErrReason::Range("SystemTime is out of range".to_owned()),
+                }),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
diff --git a/src/serde_json.rs b/src/serde_json.rs
index 0d4a721..e2dfa99 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1377,7 +1377,9 @@ impl SerJson for std::time::SystemTime {
 impl DeJson for std::time::SystemTime {
     fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<std::time::SystemTime, DeJsonErr> {
         match DeJson::de_json(s, i)? {
-            Some(dur) => Ok(std::time::SystemTime::UNIX_EPOCH + dur),
+            Some(dur) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(dur)
+                .ok_or_else(|| s.err_range("SystemTime is out of range")),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 7a144b2..42d5fe4 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1374,7 +1374,9 @@ impl SerRon for std::time::SystemTime {
 impl DeRon for std::time::SystemTime {
     fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<std::time::SystemTime, DeRonErr> {
         match DeRon::de_ron(s, i)? {
-            Some(dur) => Ok(std::time::SystemTime::UNIX_EPOCH + dur),
+            Some(dur) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(dur)
+                .ok_or_else(|| s.err_range("SystemTime is out of range")),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
-- 
2.43.0


From f94947303a8c3a8f1d0018a2c8608b83f21e1a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 05/61] fix: JSON/RON integers above i64::MAX wrapped silently
 into signed types

---
 src/serde_json.rs | 8 ++++----
 src/serde_ron.rs  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index e2dfa99..f385554 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -412,10 +412,10 @@ impl DeJsonState {
             return Ok(value);
         }
         if let DeJsonTok::U64(value) = self.tok {
-            if value as i64 > max {
-                return Err(self.err_range(&format!("{}>{}", value, max)));
-            }
-            return Ok(value as i64);
+            return match i64::try_from(value) {
+                Ok(value) if value <= max => Ok(value),
+                _ => Err(self.err_range(&format!("{}>{}", value, max))),
+            };
         }
         Err(self.err_token("signed integer"))
     }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 42d5fe4..9a8bf5e 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -393,10 +393,10 @@ impl DeRonState {
             return Ok(value);
         }
         if let DeRonTok::U64(value) = self.tok {
-            if value as i64 > max {
-                return Err(self.err_range(&format!("{}>{}", value, max)));
-            }
-            return Ok(value as i64);
+            return match i64::try_from(value) {
+                Ok(value) if value <= max => Ok(value),
+                _ => Err(self.err_range(&format!("{}>{}", value, max))),
+            };
         }
         Err(self.err_token("signed integer"))
     }
-- 
2.43.0


From 01a4feb09a63e35898f1dbadf2f804cb686b0a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 06/61] fix: JSON panicked on a missing value, and never
 returned on an unterminated one, in an unknown member

---
 src/serde_json.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index f385554..b92bfc0 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -292,15 +292,14 @@ impl DeJsonState {
                 Ok(())
             }
             DeJsonTok::BlockOpen | DeJsonTok::CurlyOpen => {
-                let mut open_brackets = 0;
+                let mut open_brackets = 0usize;
 
                 loop {
-                    if let DeJsonTok::BlockOpen | DeJsonTok::CurlyOpen = self.tok {
-                        open_brackets += 1;
-                    }
-
-                    if let DeJsonTok::BlockClose | DeJsonTok::CurlyClose = self.tok {
-                        open_brackets -= 1;
+                    match self.tok {
+                        DeJsonTok::BlockOpen | DeJsonTok::CurlyOpen => open_brackets += 1,
+                        DeJsonTok::BlockClose | DeJsonTok::CurlyClose => open_brackets -= 1,
+                        DeJsonTok::Eof => return Err(self.err_token("] or }")),
+                        _ => {}
                     }
 
                     self.next_tok(i)?;
@@ -311,7 +310,7 @@ impl DeJsonState {
                 }
                 Ok(())
             }
-            _ => unimplemented!("{:?}", self.tok),
+            _ => Err(self.err_token("value")),
         }
     }
 
-- 
2.43.0


From 98a0aacb8cee0734555f4eb33c333cca7baa1d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 07/61] fix: a long run of comments overflowed the stack of the
 JSON tokenizer

---
 src/serde_json.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index b92bfc0..80166cd 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -449,21 +449,19 @@ impl DeJsonState {
     }
 
     pub fn next_tok(&mut self, i: &mut Chars) -> Result<(), DeJsonErr> {
-        while self.cur == '\n' || self.cur == '\r' || self.cur == '\t' || self.cur == ' ' {
-            self.next(i);
-        }
-        if self.cur == '\0' {
-            self.tok = DeJsonTok::Eof;
-            return Ok(());
-        }
-        if self.cur == '/' {
+        loop {
+            while self.cur == '\n' || self.cur == '\r' || self.cur == '\t' || self.cur == ' ' {
+                self.next(i);
+            }
+            if self.cur != '/' {
+                break;
+            }
             self.next(i);
             match self.cur {
                 '/' => {
                     while self.cur != '\n' && self.cur != '\0' {
                         self.next(i);
                     }
-                    return self.next_tok(i);
                 }
                 '*' => {
                     let mut last = self.cur;
@@ -478,13 +476,16 @@ impl DeJsonState {
                         }
                         last = self.cur;
                     }
-                    return self.next_tok(i);
                 }
                 _ => {
                     return Err(self.err_token("CommentOpen"));
                 }
             }
         }
+        if self.cur == '\0' {
+            self.tok = DeJsonTok::Eof;
+            return Ok(());
+        }
         match self.cur {
             ':' => {
                 self.next(i);
-- 
2.43.0


From ac00e0a92ea2924ed6f9594c97bc7401fa8e0599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 08/61] fix: JSON/RON took the opening of a comment that starts
 with a slash for its end

---
 src/serde_json.rs | 3 ++-
 src/serde_ron.rs  | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 80166cd..7bd7618 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -464,7 +464,8 @@ impl DeJsonState {
                     }
                 }
                 '*' => {
-                    let mut last = self.cur;
+                    // not the opening `*`: `/*/` does not end a comment
+                    let mut last = '\0';
                     loop {
                         self.next(i);
                         if self.cur == '\0' {
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 9a8bf5e..a15c67e 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -496,6 +496,7 @@ impl DeRonState {
                         }
                     } else if self.cur == '*' {
                         // multline comment
+                        self.next(i);
                         let mut last_star = false;
                         while self.cur != '\0' {
                             if self.cur == '/' && last_star {
-- 
2.43.0


From ce78f4a62d2f0d1ef41cd532caf787be97122384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 09/61] fix: RON dropped a char literal and parsed the token
 after it in its place

---
 src/serde_ron.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index a15c67e..e256045 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -604,6 +604,7 @@ impl DeRonState {
                     }
                     self.next(i);
                     self.tok = DeRonTok::Char(chr);
+                    return Ok(());
                 }
                 '"' => {
                     self.strbuf.truncate(0);
-- 
2.43.0


From a37f5c813f6afa8ea3ec272992357db0b97a4b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 10/61] fix: serializing an empty slice or array to JSON/RON
 underflowed its length

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 7bd7618..4199883 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1028,7 +1028,7 @@ where
 {
     fn ser_json(&self, d: usize, s: &mut SerJsonState) {
         s.out.push('[');
-        let last = self.len() - 1;
+        let last = self.len().wrapping_sub(1);
         for (index, item) in self.iter().enumerate() {
             item.ser_json(d + 1, s);
             if index != last {
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index e256045..c7b9336 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1019,7 +1019,7 @@ where
 {
     fn ser_ron(&self, d: usize, s: &mut SerRonState) {
         s.out.push('(');
-        let last = self.len() - 1;
+        let last = self.len().wrapping_sub(1);
         for (index, item) in self.iter().enumerate() {
             item.ser_ron(d + 1, s);
             if index != last {
-- 
2.43.0


From 217e14962624217c9f18cd122f62befded893942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 11/61] fix: RON and TOML errors always reported column 1

---
 src/serde_ron.rs | 2 +-
 src/toml.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index c7b9336..9aaac73 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -197,7 +197,7 @@ impl DeRonState {
                 self.line += 1;
                 self.col = 0;
             } else {
-                self.col = 0;
+                self.col += 1;
             }
         } else {
             self.cur = '\0';
diff --git a/src/toml.rs b/src/toml.rs
index 73b70a9..565589f 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -393,7 +393,7 @@ impl TomlParser {
                 self.line += 1;
                 self.col = 0;
             } else {
-                self.col = 0;
+                self.col += 1;
             }
         } else {
             self.cur = '\0';
-- 
2.43.0


From 839e2474c2dd8c5b25c2c3390f330fe279885ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 12/61] fix: JSON/RON rejected a plus sign in a number's
 exponent

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 4199883..f669265 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -546,7 +546,7 @@ impl DeJsonState {
                     is_float = true;
                     self.numbuf.push(self.cur);
                     self.next(i);
-                    if self.cur == '-' {
+                    if self.cur == '-' || self.cur == '+' {
                         self.numbuf.push(self.cur);
                         self.next(i);
                     }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 9aaac73..bf0d64d 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -538,7 +538,7 @@ impl DeRonState {
                         is_float = true;
                         self.numbuf.push(self.cur);
                         self.next(i);
-                        if self.cur == '-' {
+                        if self.cur == '-' || self.cur == '+' {
                             self.numbuf.push(self.cur);
                             self.next(i);
                         }
-- 
2.43.0


From 638ad6702244fe7a1d429cee1c49c2569aa3650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 13/61] fix: JSON/RON rejected numbers outside the 64-bit
 integer range even where a float was expected

---
 src/serde_json.rs | 8 ++++++++
 src/serde_ron.rs  | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index f669265..ef9b99d 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -567,6 +567,10 @@ impl DeJsonState {
                         if let Ok(num) = self.numbuf.parse() {
                             self.tok = DeJsonTok::I64(num);
                             return Ok(());
+                        } else if let Ok(num) = self.numbuf.parse() {
+                            // too large for an integer, but still a number
+                            self.tok = DeJsonTok::F64(num);
+                            return Ok(());
                         } else {
                             return Err(self.err_parse("number"));
                         }
@@ -574,6 +578,10 @@ impl DeJsonState {
                     if let Ok(num) = self.numbuf.parse() {
                         self.tok = DeJsonTok::U64(num);
                         Ok(())
+                    } else if let Ok(num) = self.numbuf.parse() {
+                        // too large for an integer, but still a number
+                        self.tok = DeJsonTok::F64(num);
+                        Ok(())
                     } else {
                         Err(self.err_parse("number"))
                     }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index bf0d64d..157a5de 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -559,6 +559,10 @@ impl DeRonState {
                             if let Ok(num) = self.numbuf.parse() {
                                 self.tok = DeRonTok::I64(num);
                                 return Ok(());
+                            } else if let Ok(num) = self.numbuf.parse() {
+                                // too large for an integer, but still a number
+                                self.tok = DeRonTok::F64(num);
+                                return Ok(());
                             } else {
                                 return Err(self.err_parse("number"));
                             }
@@ -566,6 +570,10 @@ impl DeRonState {
                         if let Ok(num) = self.numbuf.parse() {
                             self.tok = DeRonTok::U64(num);
                             return Ok(());
+                        } else if let Ok(num) = self.numbuf.parse() {
+                            // too large for an integer, but still a number
+                            self.tok = DeRonTok::F64(num);
+                            return Ok(());
                         } else {
                             return Err(self.err_parse("number"));
                         }
-- 
2.43.0


From 1f499fa034b14525a2a356b7c0275ea62081ebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 14/61] fix: JSON/RON rounded f32 values twice, so some did not
 survive a round trip

---
 src/serde_json.rs | 4 +++-
 src/serde_ron.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index ef9b99d..7982e86 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -762,8 +762,10 @@ macro_rules! impl_ser_de_json_float {
             fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<$ty, DeJsonErr> {
                 //s.is_prefix(p, i) ?;
                 let val = s.as_f64()?;
+                // Going through f64 would round twice for f32.
+                let val = s.numbuf.parse().unwrap_or(val as $ty);
                 s.next_tok(i)?;
-                return Ok(val as $ty);
+                return Ok(val);
             }
         }
     };
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 157a5de..74d560a 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -766,8 +766,10 @@ macro_rules! impl_ser_de_ron_float {
             fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<$ty, DeRonErr> {
                 //s.is_prefix(p, i) ?;
                 let val = s.as_f64()?;
+                // Going through f64 would round twice for f32.
+                let val = s.numbuf.parse().unwrap_or(val as $ty);
                 s.next_tok(i)?;
-                return Ok(val as $ty);
+                return Ok(val);
             }
         }
     };
-- 
2.43.0


From 69425ef87a95b91b73fb6c2a8ea02537eae9f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 15/61] fix: JSON enum struct variants wrote invalid commas
 around None fields and ignored rename and skip

---
 derive/src/serde_json.rs | 59 +++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 34 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 24cc119..20be12c 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -326,43 +326,34 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 let mut items = String::new();
                 let mut field_names = vec![];
-                let last = contents.fields.len().saturating_sub(1);
-                for (index, field) in contents.fields.iter().enumerate() {
+                if !contents.fields.is_empty() {
+                    l!(items, "let mut first_field_was_serialized = false;");
+                }
+                for field in contents.fields.iter() {
                     if let Some(name) = &&field.field_name {
+                        if shared::attrs_skip(&field.attributes) {
+                            field_names.push(format!("{}: _", name));
+                            continue;
+                        }
+                        let json_fieldname =
+                            shared::attrs_rename(&field.attributes).unwrap_or(name.clone());
                         let proxied_field = ser_proxy_guard(name, field);
-                        if index == last {
-                            if field.ty.base() == "Option" {
-                                l!(
-                                    items,
-                                    "if {}.is_some(){{s.field(d+1, \"{}\");{}.ser_json(d+1, s);}}",
-                                    name,
-                                    name,
-                                    proxied_field
-                                )
-                            } else {
-                                l!(
-                                    items,
-                                    "s.field(d+1, \"{}\");{}.ser_json(d+1, s);",
-                                    name,
-                                    proxied_field
-                                )
-                            }
-                        } else if field.ty.base() == "Option" {
-                            l!(
-                                    items,
-                                    "if {}.is_some(){{s.field(d+1, \"{}\");{}.ser_json(d+1, s);s.conl();}}",
-                                    name,
-                                    name,
-                                    proxied_field
-                                );
-                        } else {
-                            l!(
-                                items,
-                                "s.field(d+1, \"{}\");{}.ser_json(d+1, s);s.conl();",
-                                name,
-                                proxied_field
-                            );
+                        if field.ty.base() == "Option" {
+                            l!(items, "if {}.is_some()", name);
                         }
+                        l!(
+                            items,
+                            "{{
+                                if first_field_was_serialized {{
+                                    s.conl();
+                                }};
+                                first_field_was_serialized = true;
+                                s.field(d+1, \"{}\");
+                                {}.ser_json(d+1, s);
+                            }}",
+                            json_fieldname,
+                            proxied_field
+                        );
                         field_names.push(name.clone());
                     }
                 }
-- 
2.43.0


From 929c1210464cbe2bb99bffa7972fa672b2b23887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 16/61] fix: RON enum struct variants wrote fields without
 applying rename and skip, and could not read them back

---
 derive/src/serde_ron.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 29c4050..523980b 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -351,7 +351,13 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 let mut inner = String::new();
                 for field in contents.fields.iter() {
                     let name = field.field_name.as_ref().unwrap();
+                    if attrs_skip(&field.attributes) {
+                        names.push(format!("{}: _", name));
+                        continue;
+                    }
                     names.push(name.clone());
+                    let ron_fieldname =
+                        shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
                     if field.ty.base() == "Option" {
                         l!(
                             inner,
@@ -361,7 +367,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                                 s.conl();
                             }}",
                             name.as_str(),
-                            name.as_str(),
+                            ron_fieldname,
                             name.as_str()
                         )
                     } else {
@@ -370,7 +376,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                             "s.field(d+1, \"{}\");
                             {}.ser_ron(d+1, s);
                             s.conl();",
-                            name,
+                            ron_fieldname,
                             name
                         )
                     }
-- 
2.43.0


From dd5c3d8d4917437ecc9e2c59f24be005d93d32a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 17/61] fix: RON tuple structs could not be read back when a
 field was skipped

---
 derive/src/serde_ron.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 523980b..07257f3 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -295,7 +295,11 @@ pub fn derive_de_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
     let mut body = String::new();
     let (generic_w_bounds, generic_no_bounds) = struct_bounds_strings(struct_, "DeRon", crate_name);
 
-    for _ in &struct_.fields {
+    for field in &struct_.fields {
+        if attrs_skip(&field.attributes) {
+            l!(body, "Default::default(),");
+            continue;
+        }
         l!(
             body,
             "{{
-- 
2.43.0


From b4a8e04280a0bc432bf40bcc871d17a7a187f517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 18/61] fix: container attributes (crate, proxy) were ignored
 on enums

---
 derive/src/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index f7ed622..9ef9fb7 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1523,7 +1523,8 @@ pub fn parse_data(input: TokenStream) -> Data {
             res = Data::Struct(struct_);
         }
         "enum" => {
-            let enum_ = next_enum(&mut source);
+            let mut enum_ = next_enum(&mut source);
+            enum_.attributes = attributes;
             res = Data::Enum(enum_);
         }
         "union" => unimplemented!("Unions are not supported"),
-- 
2.43.0


From 8a82e96a972f8838e9af38c4878800d269706813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 19/61] fix: JSON member names that need escaping were written
 unescaped

---
 src/serde_json.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 7982e86..140114c 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -26,16 +26,12 @@ impl SerJsonState {
 
     pub fn field(&mut self, d: usize, field: &str) {
         self.indent(d);
-        self.out.push('"');
-        self.out.push_str(field);
-        self.out.push('"');
+        self.label(field);
         self.out.push(':');
     }
 
     pub fn label(&mut self, label: &str) {
-        self.out.push('"');
-        self.out.push_str(label);
-        self.out.push('"');
+        label.ser_json(0, self);
     }
 
     pub fn conl(&mut self) {
-- 
2.43.0


From 988c153d2ef59c569f7c79880210b14955d0ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 20/61] fix: JSON rejected unknown members in structs and enum
 variants without fields

---
 derive/src/serde_json.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 20be12c..6e5413b 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -243,6 +243,8 @@ pub fn derive_de_json_named(
         // );
         l!(r, "_ => {s.next_colon(i)?; s.whole_field(i)?; }");
         l!(r, "}");
+    } else {
+        l!(r, "s.next_colon(i)?; s.whole_field(i)?;");
     }
     l!(r, "s.eat_comma_curly(i) ?;");
     l!(r, "}");
-- 
2.43.0


From b30956a012bf25664bcbee1748366c8f0aaf0708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 21/61] fix: a JSON/RON unit variant was named by the value
 after it when that was read ahead

---
 derive/src/serde_json.rs | 7 ++++---
 derive/src/serde_ron.rs  | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 6e5413b..197385f 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -522,11 +522,12 @@ pub fn derive_de_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
         r.push_str(&format!(
             "
                     {}::DeJsonTok::Str => {{
-                        let _ = s.string(i)?;
-                        ::core::result::Result::Ok(match s.strbuf.as_ref() {{
+                        let r = match s.strbuf.as_ref() {{
                             {}
                             _ => return ::core::result::Result::Err(s.err_enum(&s.strbuf))
-                        }})
+                        }};
+                        s.string(i)?;
+                        ::core::result::Result::Ok(r)
                     }},",
             crate_name, r_units,
         ))
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 07257f3..cd68014 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -512,10 +512,11 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
         impl{} {}::DeRon for {}{} {{
             fn de_ron(s: &mut {}::DeRonState, i: &mut core::str::Chars) -> ::core::result::Result<Self,{}::DeRonErr> {{
                 // we are expecting an identifier
+                let variant = ::core::mem::take(&mut s.identbuf);
                 s.ident(i)?;
-                ::core::result::Result::Ok(match s.identbuf.as_ref() {{
+                ::core::result::Result::Ok(match variant.as_ref() {{
                     {}
-                    _ => return ::core::result::Result::Err(s.err_enum(&s.identbuf))
+                    _ => return ::core::result::Result::Err(s.err_enum(&variant))
                 }})
             }}
         }}", generic_w_bounds, crate_name, enum_.name, generic_no_bounds, crate_name, crate_name, body).parse().unwrap()
-- 
2.43.0


From 1c7c4e7023ca8073206d295e33a2359319cd244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 22/61] fix: the binary error for an unknown enum discriminant
 always claimed offset 0

---
 derive/src/serde_bin.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index f2b1a8e..7681c33 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -369,10 +369,11 @@ pub fn derive_de_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
     format!(
         "impl{} {}::DeBin for {}{} {{
             fn de_bin(o:&mut usize, d:&[u8]) -> ::core::result::Result<Self, {}::DeBinErr> {{
+                let start = *o;
                 let id: u16 = {}::DeBin::de_bin(o,d)?;
                 Ok(match id {{
                     {}
-                    unknown => return ::core::result::Result::Err({}::DeBinErr{{o: 0, msg: {}::DeBinErrReason::UnknownDiscriminant(unknown as isize)}})
+                    unknown => return ::core::result::Result::Err({}::DeBinErr{{o: start, msg: {}::DeBinErrReason::UnknownDiscriminant(unknown as isize)}})
                 }})
             }}
         }}",
-- 
2.43.0


From 0f0160ffe4811abbae1a9266d1d538f978140628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 23/61] fix: RON ignored rename on enum variants

---
 derive/src/serde_ron.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index cd68014..380b614 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -339,13 +339,14 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
 
     for variant in &enum_.variants {
         let ident = &variant.field_name.clone().unwrap();
+        let ron_ident = &shared::attrs_rename(&variant.attributes).unwrap_or_else(|| ident.clone());
         match &variant.ty {
             Type {
                 ident: Category::None,
                 ..
             } => {
                 // unit variant
-                l!(body, "Self::{} => s.out.push_str(\"{}\"),", ident, ident)
+                l!(body, "Self::{} => s.out.push_str(\"{}\"),", ident, ron_ident)
             }
             Type {
                 ident: Category::AnonymousStruct { contents },
@@ -395,7 +396,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                     }}",
                     ident,
                     names.join(","),
-                    ident,
+                    ron_ident,
                     inner
                 );
             }
@@ -424,7 +425,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                     }}",
                     ident,
                     names.join(","),
-                    ident,
+                    ron_ident,
                     inner
                 )
             }
@@ -454,6 +455,7 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
 
     for variant in &enum_.variants {
         let ident = variant.field_name.clone().unwrap();
+        let ron_ident = shared::attrs_rename(&variant.attributes).unwrap_or_else(|| ident.clone());
 
         match &variant.ty {
             Type {
@@ -462,7 +464,7 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 ..
             } => {
                 // unit variant
-                l!(body, "\"{}\" => Self::{},", ident, ident)
+                l!(body, "\"{}\" => Self::{},", ron_ident, ident)
             }
             Type {
                 ident: Category::AnonymousStruct { contents },
@@ -470,7 +472,7 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 let name = format!("{}::{}", enum_.name, ident);
                 let inner = derive_de_ron_named(&name, &contents.fields, &[], crate_name);
-                l!(body, "\"{}\" => {}", ident, inner);
+                l!(body, "\"{}\" => {}", ron_ident, inner);
             }
             Type {
                 ident: Category::Tuple { contents },
@@ -497,7 +499,7 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                         s.paren_close(i)?;
                         r
                     }}, ",
-                    ident,
+                    ron_ident,
                     ident,
                     inner
                 );
-- 
2.43.0


From c6150d68843383af156d80f72c5e8c13f4c61c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 24/61] fix: TOML rejected true, false, inf, nan and bare keys
 followed by a comma or a comment

---
 src/toml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index 565589f..ac5f1c0 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -37,7 +37,7 @@ macro_rules! ident_chars {
 /// Pattern matching a character that can terminate a valid ident.
 macro_rules! ident_term_chars {
     () => {
-        ' ' | '\t' | '\r' | '\n' | '\0' | '=' | ']'
+        ' ' | '\t' | '\r' | '\n' | '\0' | '=' | ']' | ',' | '#'
     };
 }
 
-- 
2.43.0


From 4748334367a501cc8fcd0b748a6e40de91acecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 25/61] fix: a long dotted TOML key overflowed the stack

---
 src/toml.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index ac5f1c0..4b2f808 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -496,17 +496,11 @@ impl TomlParser {
 
     /// Parse an ident or similar, starting with the current character.
     fn parse_ident(&mut self, i: &mut Chars, mut start: String) -> Result<TomlTok, TomlErr> {
-        while matches!(self.cur, ident_chars!()) {
+        while matches!(self.cur, ident_chars!() | '.') {
             start.push(self.cur);
             self.next(i);
         }
 
-        if self.cur == '.' {
-            start.push(self.cur);
-            self.next(i);
-            return self.parse_ident(i, start); // recursion here could be a problem
-        }
-
         if matches!(self.cur, ident_term_chars!()) {
             return Ok(match start.as_ref() {
                 "true" => TomlTok::Bool(true),
-- 
2.43.0


From f5bfcbbaa206e8ddc4d3e22df74c5d37f75b0b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 26/61] fix: TOML accepted an array cut off by the end of the
 input

---
 src/toml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index 4b2f808..86b9521 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -343,7 +343,7 @@ impl TomlParser {
                 let mut vals = Vec::new();
                 loop {
                     let tok = self.next_tok(i)?;
-                    if tok == TomlTok::BlockClose || tok == TomlTok::Eof {
+                    if tok == TomlTok::BlockClose {
                         break;
                     }
                     if tok != TomlTok::Comma {
-- 
2.43.0


From 9c9830327e11e4180c239c938ae6dafe7d4a4cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 27/61] fix: TOML panicked when an array of tables reused a key
 that holds a value

---
 src/toml.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 86b9521..2849591 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -224,7 +224,8 @@ struct Out {
     active_array_element: Option<(String, usize)>,
 }
 impl Out {
-    fn start_array(&mut self, key: &str) {
+    /// Returns false, without starting it, if `key` already is something else.
+    fn start_array(&mut self, key: &str) -> bool {
         if !self.out.contains_key(key) {
             self.out.insert(key.to_string(), Toml::Array(vec![]));
         }
@@ -235,10 +236,11 @@ impl Out {
                 array.push(BTreeMap::new());
                 n
             }
-            _ => unreachable!(),
+            _ => return false,
         };
 
         self.active_array_element = Some((key.to_string(), n));
+        true
     }
 
     fn out(&mut self) -> &mut BTreeMap<String, Toml> {
@@ -316,7 +318,9 @@ impl TomlParser {
                         if tok != TomlTok::BlockClose {
                             return Err(self.err_token(tok));
                         }
-                        out.start_array(&key);
+                        if !out.start_array(&key) {
+                            return Err(self.err_parse("array of tables, the key is already in use"));
+                        }
                         local_scope.clear();
                     }
                     _ => return Err(self.err_token(tok)),
-- 
2.43.0


From 49b2fb91a32ad9f5435f9dfaa2f8fc00770f3657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 28/61] fix: a TOML table after an array of tables was stored
 in the array's last element

---
 src/toml.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index 2849591..5b2e0fc 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -243,6 +243,16 @@ impl Out {
         true
     }
 
+    /// A table belongs to the current array element only if it is nested in it.
+    fn start_table(&mut self, key: &str) {
+        if let Some((array, _)) = &self.active_array_element {
+            let sub_key = key.strip_prefix(array.as_str());
+            if !sub_key.is_some_and(|sub_key| sub_key.starts_with('.')) {
+                self.active_array_element = None;
+            }
+        }
+    }
+
     fn out(&mut self) -> &mut BTreeMap<String, Toml> {
         if let Some((table, n)) = self.active_array_element.clone() {
             match self.out.get_mut(&table).unwrap() {
@@ -291,6 +301,7 @@ impl TomlParser {
                 let tok = self.next_tok(i)?;
                 match tok {
                     TomlTok::Str(key) | TomlTok::Ident(key) => {
+                        out.start_table(&key);
                         *local_scope = key;
                         let tok = self.next_tok(i)?;
                         if tok != TomlTok::BlockClose {
-- 
2.43.0


From 727aba0e825d2de2991d15b3d1c07848678d603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 29/61] fix: TOML read past the end of empty strings and of
 multi-line strings

---
 src/toml.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 5b2e0fc..68017e6 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -474,22 +474,31 @@ impl TomlParser {
                         braces += 1;
                         self.next(i);
                     }
+                    if braces == 2 {
+                        return Ok(TomlTok::Str(val));
+                    }
                     let escaped_string = braces == 3;
                     loop {
                         match self.cur {
-                            '"' if !escaped_string => break,
+                            '"' if !escaped_string => {
+                                self.next(i);
+                                break;
+                            }
                             '"' if escaped_string => {
-                                let mut tmp = String::new();
                                 let mut braces = 0;
-                                while self.cur == '"' {
-                                    tmp.push('"');
+                                while self.cur == '"' && braces < 5 {
                                     braces += 1;
                                     self.next(i);
                                 }
-                                if braces == 3 {
+                                // up to two quotes may touch the closing ones
+                                let closes = braces >= 3;
+                                for _ in 0..(if closes { braces - 3 } else { braces }) {
+                                    val.push('"');
+                                }
+                                if closes {
                                     break;
                                 }
-                                val.push_str(&tmp);
+                                continue;
                             }
                             '\\' => {
                                 self.next(i);
@@ -500,7 +509,6 @@ impl TomlParser {
                         val.push(self.cur);
                         self.next(i);
                     }
-                    self.next(i);
                     return Ok(TomlTok::Str(val));
                 }
                 ident_chars!() => return self.parse_ident(i, String::new()),
-- 
2.43.0


From 32efee4c464e0f45fcb8a84044c0ce357ebffc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 30/61] fix: TOML string escapes lost their meaning

---
 src/toml.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index 68017e6..351bbaa 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -502,6 +502,8 @@ impl TomlParser {
                             }
                             '\\' => {
                                 self.next(i);
+                                self.parse_escape(i, &mut val)?;
+                                continue;
                             }
                             '\0' => return Err(self.err_parse("string")),
                             _ => {}
@@ -517,6 +519,38 @@ impl TomlParser {
         }
     }
 
+    /// Parse what follows the backslash of an escape in a string.
+    fn parse_escape(&mut self, i: &mut Chars, val: &mut String) -> Result<(), TomlErr> {
+        let digits = match self.cur {
+            'u' => 4,
+            'U' => 8,
+            '\0' => return Err(self.err_parse("string")),
+            c => {
+                val.push(match c {
+                    'b' => '\x08',
+                    't' => '\t',
+                    'n' => '\n',
+                    'f' => '\x0c',
+                    'r' => '\r',
+                    c => c,
+                });
+                self.next(i);
+                return Ok(());
+            }
+        };
+        let mut code = 0;
+        for _ in 0..digits {
+            self.next(i);
+            match self.cur.to_digit(16) {
+                Some(digit) if code < 0x1000_0000 => code = code * 16 + digit,
+                _ => return Err(self.err_parse("string")),
+            }
+        }
+        self.next(i);
+        val.push(core::char::from_u32(code).ok_or_else(|| self.err_parse("string"))?);
+        Ok(())
+    }
+
     /// Parse an ident or similar, starting with the current character.
     fn parse_ident(&mut self, i: &mut Chars, mut start: String) -> Result<TomlTok, TomlErr> {
         while matches!(self.cur, ident_chars!() | '.') {
-- 
2.43.0


From daf40d1ee0aaf662e952c9dcd66fdff867e3cfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 31/61] fix: TOML kept the newlines that the layout of a
 multi-line string does not mean

---
 src/toml.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index 351bbaa..6868cf4 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -478,6 +478,12 @@ impl TomlParser {
                         return Ok(TomlTok::Str(val));
                     }
                     let escaped_string = braces == 3;
+                    if escaped_string && self.cur == '\r' {
+                        self.next(i);
+                    }
+                    if escaped_string && self.cur == '\n' {
+                        self.next(i);
+                    }
                     loop {
                         match self.cur {
                             '"' if !escaped_string => {
@@ -525,6 +531,13 @@ impl TomlParser {
             'u' => 4,
             'U' => 8,
             '\0' => return Err(self.err_parse("string")),
+            '\n' | '\r' => {
+                // a line ending backslash continues the string at the next text
+                while matches!(self.cur, '\n' | '\r' | '\t' | ' ') {
+                    self.next(i);
+                }
+                return Ok(());
+            }
             c => {
                 val.push(match c {
                     'b' => '\x08',
-- 
2.43.0


From 2f900cc359d4dfef290c915e6dafef8d0982f6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 32/61] fix: JSON ignored serialize_none_as_null on the fields
 of enum struct variants

---
 derive/src/serde_json.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 197385f..cd516b4 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -340,7 +340,9 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                         let json_fieldname =
                             shared::attrs_rename(&field.attributes).unwrap_or(name.clone());
                         let proxied_field = ser_proxy_guard(name, field);
-                        if field.ty.base() == "Option" {
+                        let null_on_none = shared::attrs_serialize_none_as_null(&field.attributes)
+                            || shared::attrs_serialize_none_as_null(&enum_.attributes);
+                        if field.ty.base() == "Option" && !null_on_none {
                             l!(items, "if {}.is_some()", name);
                         }
                         l!(
-- 
2.43.0


From 6375c0290330afe0f4b57ce36d55d52545198db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 33/61] fix: derive gave const generic parameters a trait bound

---
 derive/src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 9ef9fb7..369d559 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -209,7 +209,10 @@ impl Generic {
 
     pub fn full_with_const(&self, extra_bounds: &[&str], bounds: bool) -> String {
         let bounds = match (bounds, &self) {
-            (true, Generic::Lifetime { .. }) => self.get_bounds().join(" + "),
+            // neither can implement a trait: nothing to add
+            (true, Generic::Lifetime { .. }) | (true, Generic::ConstGeneric { .. }) => {
+                self.get_bounds().join(" + ")
+            }
             (true, _) => {
                 let mut bounds = self.get_bounds().join(" + ");
                 if !extra_bounds.is_empty() {
-- 
2.43.0


From 27cad8b825cd0ff074e27f452fde227d761fc910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 34/61] fix: derive panicked on pub(crate) and alike containers

---
 derive/src/parse.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 369d559..54f6e91 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1509,13 +1509,9 @@ pub fn parse_data(input: TokenStream) -> Data {
 
     let attributes = next_attributes_list(&mut source);
 
-    let pub_or_type = next_ident(&mut source).expect("Not an ident");
+    let _visibility = next_visibility_modifier(&mut source);
 
-    let type_keyword = if pub_or_type == "pub" {
-        next_ident(&mut source).expect("pub(whatever) is not supported yet")
-    } else {
-        pub_or_type
-    };
+    let type_keyword = next_ident(&mut source).expect("Not an ident");
 
     let res;
 
-- 
2.43.0


From 28b9561c10efd6ecad28257260c10754460baced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 35/61] fix: derive panicked on enum discriminants of more than
 one token

---
 derive/src/parse.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 54f6e91..81c8d89 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1227,8 +1227,10 @@ fn next_enum<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
         }
 
         if next_exact_punct(&mut body, "=").is_some() {
-            body.next();
-            let _maybe_coma = next_exact_punct(&mut body, ",");
+            // the discriminant is an expression: it ends at the comma
+            while body.peek().is_some() && next_exact_punct(&mut body, ",").is_none() {
+                body.next();
+            }
             continue;
         }
 
-- 
2.43.0


From bb2f1dd42310c4d28d3d86caff207240bda46ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 36/61] fix: derive panicked on a trailing comma in nserde
 attributes

---
 derive/src/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 81c8d89..3bd94a8 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1059,6 +1059,10 @@ fn next_attribute<T: Iterator<Item = TokenTree>>(
     let mut attr_tokens = vec![];
 
     loop {
+        // after a trailing comma
+        if !attrs.is_empty() && next_eof(&mut args_group).is_some() {
+            break;
+        }
         let attribute_name = next_ident(&mut args_group).expect("Expecting attribute name");
         attr_tokens.push(attribute_name);
 
-- 
2.43.0


From 5ef7c8ddbbb49127fbbac0852b432b79672c2164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 37/61] fix: derive did not know Option and String by their
 full paths

---
 derive/src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 3bd94a8..b7125b0 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -432,7 +432,12 @@ impl Type {
             },
             None => String::default(),
         };
-        base.push_str(&self.ident.path(self, false));
+        let path = self.ident.path(self, false);
+        base.push_str(match path.trim_start_matches("::") {
+            "core::option::Option" | "std::option::Option" => "Option",
+            "alloc::string::String" | "std::string::String" => "String",
+            _ => &path,
+        });
         base
     }
 
-- 
2.43.0


From 45faf18407576ae28c6d48969284167e9930ebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 38/61] fix: derive counted a trailing comma in a tuple variant
 as one more field

---
 derive/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index b7125b0..85ac46e 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -661,7 +661,7 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
         while let Some(next_ty) = next_type(source) {
             wraps.push(next_ty.clone());
             path.push_str(&next_ty.full().to_string());
-            if next_exact_punct(source, ",").is_none() {
+            if next_exact_punct(source, ",").is_none() || next_eof(source).is_some() {
                 break;
             }
             path.push(',')
-- 
2.43.0


From a5ff6e888b2163bfdc48e1bfcc1b9a7ca07fdee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 39/61] fix: RON default values of Option<String> fields did
 not compile

---
 derive/src/serde_ron.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 380b614..1bd9c3e 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -161,9 +161,15 @@ pub fn derive_de_ron_named(
         let field_attr_default_with = shared::attrs_default_with(&field.attributes);
         let default_val = if let Some(v) = field_attr_default {
             if let Some(mut val) = v {
-                if field.ty.base() == "String" {
+                let wraps_string = field
+                    .ty
+                    .wraps
+                    .as_ref()
+                    .is_some_and(|wrapped| wrapped.iter().any(|ty| ty.base() == "String"));
+                if field.ty.base() == "String" || (field_is_option && wraps_string) {
                     val = format!("\"{}\".to_string()", val)
-                } else if field.ty.base() == "Option" {
+                }
+                if field_is_option {
                     val = format!("Some({})", val);
                 }
                 Some(val)
-- 
2.43.0


From 82944f4ff301c3f9f534cb74ea148b57d687cf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 40/61] fix: RON derive of a struct whose fields are all
 skipped did not compile

---
 derive/src/serde_ron.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 1bd9c3e..c6f9b41 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -231,7 +231,7 @@ pub fn derive_de_ron_named(
             );
         }
         format!(
-            "match s.identbuf.as_ref() {{
+            "match s.identbuf.as_str() {{
                 {}
                 _ => return ::core::result::Result::Err(s.err_exp(&s.identbuf))
             }}",
-- 
2.43.0


From cbc1d30e2e26a2983a156e5539467bd3aa02c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 41/61] fix: derive took the tuple type after pub in a tuple
 struct for a visibility scope

---
 derive/src/parse.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 85ac46e..01be35b 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -471,6 +471,18 @@ impl Type {
     }
 }
 
+fn is_visibility_scope(group: &Group) -> bool {
+    let mut tokens = group.stream().into_iter();
+    let Some(TokenTree::Ident(scope)) = tokens.next() else {
+        return false;
+    };
+    match scope.to_string().as_str() {
+        "in" => true,
+        "crate" | "self" | "super" => tokens.next().is_none(),
+        _ => false,
+    }
+}
+
 pub fn next_visibility_modifier(
     source: &mut Peekable<impl Iterator<Item = TokenTree>>,
 ) -> Option<String> {
@@ -478,9 +490,9 @@ pub fn next_visibility_modifier(
         if format!("{}", ident) == "pub" {
             source.next();
 
-            // skip (crate) and alike
+            // skip (crate) and alike, but not the tuple type of a field
             if let Some(TokenTree::Group(group)) = source.peek() {
-                if group.delimiter() == Delimiter::Parenthesis {
+                if group.delimiter() == Delimiter::Parenthesis && is_visibility_scope(group) {
                     next_group(source);
                 }
             }
-- 
2.43.0


From 0d7c20fafd56548999b61fa8ae29812f3cc01409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 42/61] fix: derive lost the fields of a tuple variant from the
 first doc comment or attribute on

---
 derive/src/parse.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 01be35b..7201acb 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -670,7 +670,16 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
     ) -> Option<Type> {
         let mut wraps = vec![];
         let mut path = "(".to_owned();
-        while let Some(next_ty) = next_type(source) {
+        loop {
+            // the fields of a tuple variant can have attributes and doc comments
+            let attributes = next_attributes_list(source);
+            assert!(
+                attributes.is_empty(),
+                "nserde attributes on the fields of a tuple variant are not supported"
+            );
+            let Some(next_ty) = next_type(source) else {
+                break;
+            };
             wraps.push(next_ty.clone());
             path.push_str(&next_ty.full().to_string());
             if next_exact_punct(source, ",").is_none() || next_eof(source).is_some() {
-- 
2.43.0


From 8082dd3c6e6c52b456f8f3f228e3ca26c3d1cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 43/61] fix: derive ate the first colon of a ::path type in a
 tuple

---
 derive/src/parse.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 7201acb..8979a0f 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1058,10 +1058,7 @@ fn next_attribute<T: Iterator<Item = TokenTree>>(
     source: &mut Peekable<T>,
 ) -> Option<Option<Vec<Attribute>>> {
     // all attributes, even doc-comments, starts with "#"
-    let next_attr_punct = next_punct(source);
-    let Some("#") = next_attr_punct.as_deref() else {
-        return None;
-    };
+    next_exact_punct(source, "#")?;
 
     let mut attr_group = next_group(source)
         .expect("Expecting attribute body")
-- 
2.43.0


From 5746a468131e695fe6e4d44b2ac18003851cf693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 44/61] fix: derive did not accept array lengths that are
 expressions or suffixed literals

---
 derive/src/parse.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 8979a0f..d769327 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -656,7 +656,15 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
             _ => Some(Type {
                 ident: Category::Array {
                     content_type: Box::new(next.clone()),
-                    len: Some(ConstValType::Named(Box::new(next_type(source).unwrap()))),
+                    // any expression, like 0x10 or N or module::N + 1
+                    len: Some(ConstValType::Named(Box::new(Type {
+                        ident: Category::Named {
+                            path: source.collect::<TokenStream>().to_string(),
+                        },
+                        wraps: None,
+                        ref_type: None,
+                        as_other: None,
+                    }))),
                 },
                 wraps: Some(vec![next]),
                 ref_type: None,
-- 
2.43.0


From 4e2b3753d4fe4e6529e0266a9c7373d9f95e7ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 45/61] fix: JSON and RON reported the wrong position for an
 error inside a tuple element

---
 src/serde_json.rs | 4 ++--
 src/serde_ron.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 140114c..140639a 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1102,9 +1102,9 @@ fn de_json_comma_block<T>(s: &mut DeJsonState, i: &mut Chars) -> Result<T, DeJso
 where
     T: DeJson,
 {
-    let t = DeJson::de_json(s, i);
+    let t = DeJson::de_json(s, i)?;
     s.eat_comma_block(i)?;
-    t
+    Ok(t)
 }
 
 impl<A, B> SerJson for (A, B)
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 74d560a..e3e1399 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1097,9 +1097,9 @@ fn de_ron_comma_paren<T>(s: &mut DeRonState, i: &mut Chars) -> Result<T, DeRonEr
 where
     T: DeRon,
 {
-    let t = DeRon::de_ron(s, i);
+    let t = DeRon::de_ron(s, i)?;
     s.eat_comma_paren(i)?;
-    t
+    Ok(t)
 }
 
 impl SerRon for () {
-- 
2.43.0


From ffc9abe1a367e826ff2532b3378ded2a778ba504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 46/61] fix: enum variant fields named like a local of the
 generated code did not compile

---
 derive/src/serde_bin.rs  | 9 +++------
 derive/src/serde_json.rs | 8 +++++---
 derive/src/serde_ron.rs  | 9 +++++----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index 7681c33..4e5ec42 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -266,11 +266,8 @@ pub fn derive_ser_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 l!(r, "Self::{} {{", ident);
                 for f in contents.fields.iter() {
-                    l!(
-                        r,
-                        "{}, ",
-                        f.field_name.as_ref().expect("field must be named")
-                    )
+                    let name = f.field_name.as_ref().expect("field must be named");
+                    l!(r, "{}: __field_{}, ", name, name)
                 }
 
                 l!(r, "} => {");
@@ -278,7 +275,7 @@ pub fn derive_ser_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 for f in contents.fields.iter() {
                     l!(
                         r,
-                        "{}.ser_bin(s);",
+                        "__field_{}.ser_bin(s);",
                         f.field_name.as_ref().expect("field must be named")
                     )
                 }
diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index cd516b4..c830efa 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -339,11 +339,13 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                         }
                         let json_fieldname =
                             shared::attrs_rename(&field.attributes).unwrap_or(name.clone());
-                        let proxied_field = ser_proxy_guard(name, field);
+                        // not the bare name: it could be that of a local of the generated code
+                        let binding = format!("__field_{}", name);
+                        let proxied_field = ser_proxy_guard(&format!("(*{})", binding), field);
                         let null_on_none = shared::attrs_serialize_none_as_null(&field.attributes)
                             || shared::attrs_serialize_none_as_null(&enum_.attributes);
                         if field.ty.base() == "Option" && !null_on_none {
-                            l!(items, "if {}.is_some()", name);
+                            l!(items, "if {}.is_some()", binding);
                         }
                         l!(
                             items,
@@ -358,7 +360,7 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                             json_fieldname,
                             proxied_field
                         );
-                        field_names.push(name.clone());
+                        field_names.push(format!("{}: {}", name, binding));
                     }
                 }
                 l!(
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index c6f9b41..72c2625 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -366,7 +366,8 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                         names.push(format!("{}: _", name));
                         continue;
                     }
-                    names.push(name.clone());
+                    let binding = format!("__field_{}", name);
+                    names.push(format!("{}: {}", name, binding));
                     let ron_fieldname =
                         shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
                     if field.ty.base() == "Option" {
@@ -377,9 +378,9 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                                 {}.ser_ron(d+1, s);
                                 s.conl();
                             }}",
-                            name.as_str(),
+                            binding,
                             ron_fieldname,
-                            name.as_str()
+                            binding
                         )
                     } else {
                         l!(
@@ -388,7 +389,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                             {}.ser_ron(d+1, s);
                             s.conl();",
                             ron_fieldname,
-                            name
+                            binding
                         )
                     }
                 }
-- 
2.43.0


From 72bc40d7a620263259520ec1c3f50b11af055b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 47/61] fix: TOML table headers rejected keys that are allowed
 everywhere else

---
 src/toml.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 6868cf4..e5a0035 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -300,7 +300,16 @@ impl TomlParser {
                 // we should expect an ident or a string
                 let tok = self.next_tok(i)?;
                 match tok {
-                    TomlTok::Str(key) | TomlTok::Ident(key) => {
+                    TomlTok::Str(_)
+                    | TomlTok::Ident(_)
+                    | TomlTok::U64(_)
+                    | TomlTok::I64(_)
+                    | TomlTok::F64(_)
+                    | TomlTok::Bool(_)
+                    | TomlTok::Nan(_)
+                    | TomlTok::Inf(_)
+                    | TomlTok::Date(_) => {
+                        let key: String = tok.into();
                         out.start_table(&key);
                         *local_scope = key;
                         let tok = self.next_tok(i)?;
@@ -311,7 +320,7 @@ impl TomlParser {
                     TomlTok::BlockOpen => {
                         let tok = self.next_tok(i)?;
                         let key = match tok {
-                            TomlTok::Ident(key) => key,
+                            TomlTok::Str(key) | TomlTok::Ident(key) => key,
                             TomlTok::U64(_)
                             | TomlTok::I64(_)
                             | TomlTok::F64(_)
-- 
2.43.0


From 36510e2a44cfa6d924882600da69b492d90eaa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 48/61] fix: TOML bare keys that start with a digit lost
 underscores or were rejected

---
 src/toml.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index e5a0035..f213a4c 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -639,9 +639,7 @@ impl TomlParser {
         }
 
         while matches!(self.cur, '0'..='9' | '_') {
-            if self.cur != '_' {
-                num.push(self.cur);
-            }
+            num.push(self.cur);
             self.next(i);
         }
 
@@ -650,12 +648,13 @@ impl TomlParser {
                 num.push(self.cur);
                 self.next(i);
                 while matches!(self.cur, '0'..='9' | '_') {
-                    if self.cur != '_' {
-                        num.push(self.cur);
-                    }
+                    num.push(self.cur);
                     self.next(i);
                 }
-                if let Ok(num) = num.parse() {
+                if matches!(self.cur, ident_chars!() | '.') {
+                    return self.parse_ident(i, num);
+                }
+                if let Ok(num) = num.replace('_', "").parse() {
                     return Ok(TomlTok::F64(num));
                 }
                 return Err(self.err_parse("number"));
@@ -668,6 +667,9 @@ impl TomlParser {
                     num.push(self.cur);
                     self.next(i);
                 }
+                if matches!(self.cur, ident_chars!() | '.') {
+                    return self.parse_ident(i, num);
+                }
                 return Ok(TomlTok::Date(num));
                 // TODO rework this
             }
@@ -675,7 +677,7 @@ impl TomlParser {
             _ => {}
         }
 
-        match (negative, num.parse()) {
+        match (negative, num.replace('_', "").parse()) {
             (true, Ok(n)) => Ok(TomlTok::I64(n)),
             (false, Ok(n)) => Ok(TomlTok::U64(n as u64)),
             _ => Err(self.err_parse("tokenizer")),
-- 
2.43.0


From fb9d3a98a1b6b5e2e0b31135e0e1418316adb17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:53 +0000
Subject: [PATCH 49/61] fix: TOML bare keys that look like numbers were renamed
 to their value

---
 src/toml.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index f213a4c..4cde79c 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -55,6 +55,8 @@ pub struct TomlParser {
     cur: char,
     line: usize,
     col: usize,
+    /// The last number as it is written.
+    numbuf: String,
 }
 
 /// A TOML parsed token.
@@ -309,7 +311,7 @@ impl TomlParser {
                     | TomlTok::Nan(_)
                     | TomlTok::Inf(_)
                     | TomlTok::Date(_) => {
-                        let key: String = tok.into();
+                        let key = self.to_key(tok);
                         out.start_table(&key);
                         *local_scope = key;
                         let tok = self.next_tok(i)?;
@@ -327,7 +329,7 @@ impl TomlParser {
                             | TomlTok::Bool(_)
                             | TomlTok::Nan(_)
                             | TomlTok::Inf(_)
-                            | TomlTok::Date(_) => tok.into(),
+                            | TomlTok::Date(_) => self.to_key(tok),
                             _ => return Err(self.err_token(tok)),
                         };
                         let tok = self.next_tok(i)?;
@@ -354,12 +356,23 @@ impl TomlParser {
             | TomlTok::Bool(_)
             | TomlTok::Nan(_)
             | TomlTok::Inf(_)
-            | TomlTok::Date(_) => self.parse_key_value(local_scope, tok.into(), i, out.out())?,
+            | TomlTok::Date(_) => {
+                let key = self.to_key(tok);
+                self.parse_key_value(local_scope, key, i, out.out())?
+            }
             _ => return Err(self.err_token(tok)),
         }
         Ok(true)
     }
 
+    /// The name a key token stands for.
+    fn to_key(&self, tok: TomlTok) -> String {
+        match tok {
+            TomlTok::U64(_) | TomlTok::I64(_) | TomlTok::F64(_) => self.numbuf.clone(),
+            tok => tok.into(),
+        }
+    }
+
     #[allow(clippy::wrong_self_convention)]
     fn to_val(&mut self, tok: TomlTok, i: &mut Chars) -> Result<Toml, TomlErr> {
         match tok {
@@ -654,8 +667,9 @@ impl TomlParser {
                 if matches!(self.cur, ident_chars!() | '.') {
                     return self.parse_ident(i, num);
                 }
-                if let Ok(num) = num.replace('_', "").parse() {
-                    return Ok(TomlTok::F64(num));
+                if let Ok(n) = num.replace('_', "").parse() {
+                    self.numbuf = num;
+                    return Ok(TomlTok::F64(n));
                 }
                 return Err(self.err_parse("number"));
             }
@@ -677,7 +691,9 @@ impl TomlParser {
             _ => {}
         }
 
-        match (negative, num.replace('_', "").parse()) {
+        let n = num.replace('_', "").parse();
+        self.numbuf = num;
+        match (negative, n) {
             (true, Ok(n)) => Ok(TomlTok::I64(n)),
             (false, Ok(n)) => Ok(TomlTok::U64(n as u64)),
             _ => Err(self.err_parse("tokenizer")),
-- 
2.43.0


From cbc98569bc99f18947011b3b1f0d3e6c8ef44a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 50/61] fix: text defaults need nothing imported in a crate
 without std

The derived readers called to_string on the default of String fields, which is
only in scope where the std prelude is.
---
 derive/src/serde_json.rs | 2 +-
 derive/src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index c830efa..9096407 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -157,7 +157,7 @@ pub fn derive_de_json_named(
                         .as_ref()
                         .is_some_and(|wrapped| wrapped.iter().any(|ty| ty.base() == "String"))
                 {
-                    val = format!("\"{}\".to_string()", val)
+                    val = format!("::core::convert::From::from(\"{}\")", val)
                 }
                 if field.ty.base() == "Option" {
                     val = format!("Some({})", val);
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 72c2625..d9ad5f7 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -167,7 +167,7 @@ pub fn derive_de_ron_named(
                     .as_ref()
                     .is_some_and(|wrapped| wrapped.iter().any(|ty| ty.base() == "String"));
                 if field.ty.base() == "String" || (field_is_option && wraps_string) {
-                    val = format!("\"{}\".to_string()", val)
+                    val = format!("::core::convert::From::from(\"{}\")", val)
                 }
                 if field_is_option {
                     val = format!("Some({})", val);
-- 
2.43.0


From e66add51aac2104ed17ef0ba2dcdda4068d5b142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:22 +0000
Subject: [PATCH 51/61] fix: derive accepted only plain numbers and names as
 defaults of const parameters

---
 derive/src/parse.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index d769327..1a95507 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1333,8 +1333,19 @@ fn next_const_generic<T: Iterator<Item = TokenTree> + Clone>(
             source.next();
             (name, cg_type, Some(ConstValType::Value(default_value)))
         } else {
-            let def =
-                next_type(source).expect("must have either a value or other const as default");
+            // a name, a block or a literal with or without a sign
+            let sign = next_exact_punct(source, "-").unwrap_or_default();
+            let def = source
+                .next()
+                .expect("must have either a value or other const as default");
+            let def = Type {
+                ident: Category::Named {
+                    path: format!("{}{}", sign, def),
+                },
+                wraps: None,
+                ref_type: None,
+                as_other: None,
+            };
             (name, cg_type, Some(ConstValType::Named(Box::new(def))))
         }
     } else {
-- 
2.43.0


From b64f58ef201ed77f1d60159d8ac7ee5ac35c6f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:29 +0000
Subject: [PATCH 52/61] fix: derive failed on declarations made by macros from
 fragments such as $t:ty

---
 derive/src/parse.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 1a95507..24da938 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1552,8 +1552,27 @@ fn get_all_bounds<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T
     ret
 }
 
+/// Opens the invisible groups that macro fragments like `$vis` and `$t:ty` come in.
+fn open_invisible_groups(input: TokenStream) -> TokenStream {
+    let mut output = TokenStream::new();
+    for token in input {
+        match token {
+            TokenTree::Group(group) => {
+                let content = open_invisible_groups(group.stream());
+                if group.delimiter() == Delimiter::None {
+                    output.extend(content);
+                } else {
+                    output.extend([TokenTree::Group(Group::new(group.delimiter(), content))]);
+                }
+            }
+            token => output.extend([token]),
+        }
+    }
+    output
+}
+
 pub fn parse_data(input: TokenStream) -> Data {
-    let mut source = input.into_iter().peekable();
+    let mut source = open_invisible_groups(input).into_iter().peekable();
 
     let attributes = next_attributes_list(&mut source);
 
-- 
2.43.0


From 97a6b1b954b1c723c9bc10bef7ced6b3b9096c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 53/61] fix: derive read only the first number of array lengths
 such as 1 + 1

---
 derive/src/parse.rs | 57 ++++++++++++++-------------------------------
 1 file changed, 17 insertions(+), 40 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 24da938..8ab757a 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -6,7 +6,6 @@
 
 use alloc::collections::BTreeSet;
 use core::iter::Peekable;
-use core::num::IntErrorKind;
 
 use alloc::borrow::ToOwned;
 use alloc::boxed::Box;
@@ -632,45 +631,23 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
             });
         };
 
-        //need to cover both the const generic and literal case
-        let len = source.peek().unwrap().to_string();
-        match len.parse::<usize>() {
-            Ok(val) => Some(Type {
-                ident: Category::Array {
-                    content_type: Box::new(next.clone()),
-                    len: Some(ConstValType::Value(val as isize)),
-                },
-                wraps: Some(vec![next]),
-                ref_type: None,
-                as_other: None,
-            }),
-            Err(err) if err.kind() == &IntErrorKind::Zero => Some(Type {
-                ident: Category::Array {
-                    content_type: Box::new(next.clone()),
-                    len: Some(ConstValType::Value(0)),
-                },
-                wraps: Some(vec![next]),
-                ref_type: None,
-                as_other: None,
-            }),
-            _ => Some(Type {
-                ident: Category::Array {
-                    content_type: Box::new(next.clone()),
-                    // any expression, like 0x10 or N or module::N + 1
-                    len: Some(ConstValType::Named(Box::new(Type {
-                        ident: Category::Named {
-                            path: source.collect::<TokenStream>().to_string(),
-                        },
-                        wraps: None,
-                        ref_type: None,
-                        as_other: None,
-                    }))),
-                },
-                wraps: Some(vec![next]),
-                ref_type: None,
-                as_other: None,
-            }),
-        }
+        // any expression, like 2, 0x10, N or 2 * module::N
+        Some(Type {
+            ident: Category::Array {
+                content_type: Box::new(next.clone()),
+                len: Some(ConstValType::Named(Box::new(Type {
+                    ident: Category::Named {
+                        path: source.collect::<TokenStream>().to_string(),
+                    },
+                    wraps: None,
+                    ref_type: None,
+                    as_other: None,
+                }))),
+            },
+            wraps: Some(vec![next]),
+            ref_type: None,
+            as_other: None,
+        })
     }
 
     pub fn next_tuple<T: Iterator<Item = TokenTree> + Clone>(
-- 
2.43.0


From 10bde30459ee609454cf7e65d5c6668f04bd0817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:45 +0000
Subject: [PATCH 54/61] fix: derive rejected tuple structs with a where clause

---
 derive/src/parse.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 8ab757a..52f9810 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1175,7 +1175,7 @@ fn next_fields<T: Iterator<Item = TokenTree> + Clone>(
 
 fn next_struct<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) -> Struct {
     let struct_name = next_ident(source);
-    let generics = get_all_bounds(source);
+    let mut generics = get_all_bounds(source);
     let group = next_group(source);
     // unit struct
     if group.is_none() {
@@ -1204,6 +1204,8 @@ fn next_struct<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>)
     let fields = next_fields(&mut body, named);
 
     if !named {
+        // the where clause of a tuple struct follows its fields
+        add_where_bounds(source, &mut generics);
         next_exact_punct(source, ";").expect("Expected ; on the end of tuple struct");
     }
 
@@ -1391,7 +1393,7 @@ fn next_generic<T: Iterator<Item = TokenTree> + Clone>(
             })
         }
         TokenTree::Punct(punct) => match punct.as_char() {
-            '>' => None,
+            '>' | ';' => None,
             '\'' => {
                 let ty = next_lifetime(source).expect("must be lifetime after \' mark");
                 let mut bounds = vec![];
@@ -1465,10 +1467,21 @@ fn get_all_bounds<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T
 
     let _ = next_exact_punct(source, ">").expect("Need closing generic bracket");
 
+    add_where_bounds(source, &mut ret);
+    ret
+}
+
+/// Reads the where clause that comes next, if any, into the generics it belongs to.
+fn add_where_bounds<T: Iterator<Item = TokenTree> + Clone>(
+    source: &mut Peekable<T>,
+    ret: &mut Vec<Generic>,
+) {
+    let mut already: BTreeSet<String> = ret.iter().map(Generic::full).collect();
+
     // "where" generics + bounds
     if let Some(content) = source.peek() {
         if content.to_string() != "where" {
-            return ret;
+            return;
         } else {
             source.next();
         }
@@ -1525,8 +1538,6 @@ fn get_all_bounds<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T
             };
         }
     }
-
-    ret
 }
 
 /// Opens the invisible groups that macro fragments like `$vis` and `$t:ty` come in.
-- 
2.43.0


From c95047e8654ff2f94c863c93f1ac78b2b3debe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:53 +0000
Subject: [PATCH 55/61] fix: derive took raw string literals in nserde
 attributes as they are written

---
 derive/src/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 52f9810..2da96b4 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -529,6 +529,12 @@ pub fn next_literal(source: &mut Peekable<impl Iterator<Item = TokenTree>>) -> O
     if let Some(TokenTree::Literal(lit)) = source.peek() {
         let mut literal = lit.to_string();
 
+        // a raw string as the string it stands for
+        if literal.starts_with("r") {
+            let content = literal[1..].trim_matches('#');
+            literal = format!("{:?}", &content[1..content.len() - 1]);
+        }
+
         // the only way to check that literal is string :/
         if literal.starts_with("\"") {
             literal.remove(0);
-- 
2.43.0


From c585cb768ea2c1bc1dc5867213822e3ed8c3a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:00 +0000
Subject: [PATCH 56/61] fix: TOML bare keys such as -n were rejected and values
 such as -inf-1 read as dates

---
 src/toml.rs | 46 ++++++++++++----------------------------------
 1 file changed, 12 insertions(+), 34 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 4cde79c..2847b3d 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -611,43 +611,21 @@ impl TomlParser {
         let mut num = String::new();
 
         let mut negative = false;
-        if self.cur == '+' {
-            self.next(i)
-        } else if self.cur == '-' {
-            num.push(self.cur);
-            negative = true;
-            self.next(i);
-        }
-
-        if self.cur == 'n' {
-            // check if is "nan"
-            num.push(self.cur);
-            self.next(i);
-            if self.cur == 'a' {
+        if matches!(self.cur, '+' | '-') {
+            if self.cur == '-' {
                 num.push(self.cur);
-                self.next(i);
-                if self.cur == 'n' {
-                    num.push(self.cur);
-                    self.next(i);
-                    if matches!(self.cur, ident_term_chars!()) {
-                        return Ok(TomlTok::Nan(negative));
-                    }
-                }
+                negative = true;
             }
-        } else if self.cur == 'i' {
-            // check if is "inf"
-            num.push(self.cur);
             self.next(i);
-            if self.cur == 'n' {
-                num.push(self.cur);
-                self.next(i);
-                if self.cur == 'f' {
-                    num.push(self.cur);
-                    self.next(i);
-                    if matches!(self.cur, ident_term_chars!()) {
-                        return Ok(TomlTok::Inf(negative));
-                    }
-                }
+
+            if !self.cur.is_ascii_digit() {
+                // "inf", "nan" or, after a minus, an ident
+                return match self.parse_ident(i, num)? {
+                    TomlTok::Ident(ident) if ident == "-nan" => Ok(TomlTok::Nan(true)),
+                    TomlTok::Ident(ident) if ident == "-inf" => Ok(TomlTok::Inf(true)),
+                    tok if negative || matches!(tok, TomlTok::Nan(_) | TomlTok::Inf(_)) => Ok(tok),
+                    _ => Err(self.err_parse("tokenizer")),
+                };
             }
         }
 
-- 
2.43.0


From 73dd23fe412c67f721a539956c22390e9aa49b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:07 +0000
Subject: [PATCH 57/61] fix: TOML parsing ended without an error at a NUL
 character

---
 src/toml.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index 2847b3d..828c784 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -53,6 +53,8 @@ macro_rules! ident_term_chars {
 #[non_exhaustive]
 pub struct TomlParser {
     cur: char,
+    /// The input has ended, `cur` is no character of it.
+    eof: bool,
     line: usize,
     col: usize,
     /// The last number as it is written.
@@ -434,6 +436,7 @@ impl TomlParser {
             }
         } else {
             self.cur = '\0';
+            self.eof = true;
         }
     }
 
@@ -461,7 +464,7 @@ impl TomlParser {
         loop {
             #[allow(unreachable_patterns)]
             match self.cur {
-                '\0' => return Ok(TomlTok::Eof),
+                '\0' if self.eof => return Ok(TomlTok::Eof),
                 ',' => {
                     self.next(i);
                     return Ok(TomlTok::Comma);
-- 
2.43.0


From 9418bdfcb18006681511d09ee2d7240503387da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:47 +0000
Subject: [PATCH 58/61] fix: derive panicked at const parameter values
 (literals, blocks) as generic arguments of field types

---
 derive/src/parse.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 2da96b4..1596102 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -619,6 +619,30 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
         }
         None
     }
+    /// A type, or the value of a const parameter: a literal or a block.
+    fn next_generic_arg<T: Iterator<Item = TokenTree> + Clone>(
+        source: &mut Peekable<T>,
+    ) -> Option<Type> {
+        let mut tmp = source.clone();
+        let sign = next_exact_punct(&mut tmp, "-").unwrap_or_default();
+        let value = match tmp.next() {
+            Some(TokenTree::Literal(literal)) => literal.to_string(),
+            Some(TokenTree::Group(block)) if block.delimiter() == Delimiter::Brace => {
+                block.to_string()
+            }
+            _ => return next_type(source),
+        };
+        *source = tmp;
+        Some(Type {
+            ident: Category::Named {
+                path: format!("{}{}", sign, value),
+            },
+            wraps: None,
+            ref_type: None,
+            as_other: None,
+        })
+    }
+
     pub fn next_array<T: Iterator<Item = TokenTree> + Clone>(
         source: &mut Peekable<T>,
     ) -> Option<Type> {
@@ -995,9 +1019,9 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
         }
 
         let mut generics =
-            vec![next_type(source).expect("Expecting at least one generic argument")];
+            vec![next_generic_arg(source).expect("Expecting at least one generic argument")];
         while let Some(_comma) = next_exact_punct(source, ",") {
-            generics.push(next_type(source).expect("Expecting generic argument after comma"));
+            generics.push(next_generic_arg(source).expect("Expecting generic argument after comma"));
         }
 
         let as_other = as_other_type(source).map(Box::new);
-- 
2.43.0


From 6c19f1559514ee43e710f1d09482896329f64c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:52 +0000
Subject: [PATCH 59/61] fix: derive panicked at a turbofish in a field type
 (Vec::<u8>)

---
 derive/src/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 1596102..9f94e08 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -978,6 +978,10 @@ fn next_type<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) ->
         drop(tmp);
         let _ = (source.next(), source.next()); //skip the colons
 
+        // the turbofish of Vec::<u8>
+        if source.peek().is_some_and(|x| x.to_string() == "<") {
+            break;
+        }
         let next_ident = next_ident(source).expect("Expecting next path part after ::");
         ty.push_str(&format!("::{}", next_ident));
     }
-- 
2.43.0


From a23ccaa5ceadc4208a810a463f799f3e127ed651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:58 +0000
Subject: [PATCH 60/61] fix: derive panicked or gave code that does not compile
 for empty bounds (T:, (T, u8): ..)

---
 derive/src/parse.rs | 48 ++++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index 9f94e08..a508785 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -1366,6 +1366,28 @@ fn next_const_generic<T: Iterator<Item = TokenTree> + Clone>(
     }
 }
 
+/// The bounds after a colon, if one comes next: `A + B`, `A +` or none at all.
+fn next_bounds<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T>) -> Vec<Type> {
+    let mut bounds = vec![];
+    if next_exact_punct(source, ":").is_none() {
+        return bounds;
+    }
+    loop {
+        match source.peek() {
+            None => break,
+            Some(TokenTree::Punct(punct)) if matches!(punct.as_char(), ',' | '>' | '=' | ';') => {
+                break
+            }
+            Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Brace => break,
+            _ => bounds.extend(next_type(source)),
+        }
+        if next_exact_punct(source, "+").is_none() {
+            break;
+        }
+    }
+    bounds
+}
+
 fn next_generic<T: Iterator<Item = TokenTree> + Clone>(
     source: &mut Peekable<T>,
 ) -> Option<Generic> {
@@ -1375,20 +1397,10 @@ fn next_generic<T: Iterator<Item = TokenTree> + Clone>(
             if matches!(g.delimiter(), Delimiter::Brace) {
                 return None;
             }
-            let mut bounds = vec![];
             let _type = next_type(source).expect("must be a type in group");
-            if next_exact_punct(source, ":").is_some() {
-                while let Some(bound) = next_type(source) {
-                    bounds.push(bound);
-                    if next_exact_punct(source, "+").is_none() {
-                        break;
-                    }
-                }
-            }
-
             Some(Generic::WhereBounded {
                 name: _type.full(),
-                bounds,
+                bounds: next_bounds(source),
             })
         }
         TokenTree::Ident(c) if c.to_string() == "const" => {
@@ -1403,19 +1415,7 @@ fn next_generic<T: Iterator<Item = TokenTree> + Clone>(
         TokenTree::Ident(_) => {
             let mut default = None;
             let ty = next_type(source).expect("Expected type name after \'const\' keyword");
-
-            let mut bounds = vec![];
-
-            if next_exact_punct(source, ":").is_some() {
-                loop {
-                    if let Some(ty) = next_type(source) {
-                        bounds.push(ty);
-                    }
-                    if next_exact_punct(source, "+").is_none() {
-                        break;
-                    }
-                }
-            }
+            let bounds = next_bounds(source);
 
             if next_exact_punct(source, "=").is_some() {
                 default = Some(next_type(source).expect("Must be a default after eq sign"));
-- 
2.43.0


From c731d0fae83c34b4ac3b4376abcecbb39c9be82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:04 +0000
Subject: [PATCH 61/61] fix: derive lost or panicked at where bounds on types
 that are no parameters (Vec<T>: Clone, T::Item: X)

---
 derive/src/parse.rs  | 12 ++++++++++++
 derive/src/shared.rs | 26 +++++++++++++++++++++-----
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index a508785..703ae1d 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -188,6 +188,11 @@ impl Generic {
         }
     }
 
+    /// A bound on a type that is not a parameter.
+    pub fn is_where_bound(&self) -> bool {
+        matches!(self, Generic::WhereBounded { .. })
+    }
+
     fn lifetime_prefix(&self) -> &str {
         match &self {
             Generic::Lifetime { .. } => "\'",
@@ -1428,6 +1433,12 @@ fn next_generic<T: Iterator<Item = TokenTree> + Clone>(
         }
         TokenTree::Punct(punct) => match punct.as_char() {
             '>' | ';' => None,
+            // a bound on a type like &T, <T as Trait>::Item or ::path::Type<T>
+            '&' | '<' | ':' => {
+                let name = next_type(source).expect("must be a type").full();
+                let bounds = next_bounds(source);
+                Some(Generic::WhereBounded { name, bounds })
+            }
             '\'' => {
                 let ty = next_lifetime(source).expect("must be lifetime after \' mark");
                 let mut bounds = vec![];
@@ -1456,6 +1467,7 @@ fn get_all_bounds<T: Iterator<Item = TokenTree> + Clone>(source: &mut Peekable<T
     if source.peek().is_some_and(|x| x.to_string() == "<") {
         source.next();
     } else {
+        add_where_bounds(source, &mut ret);
         return ret;
     }
 
diff --git a/derive/src/shared.rs b/derive/src/shared.rs
index a8bfc6c..b86c02a 100644
--- a/derive/src/shared.rs
+++ b/derive/src/shared.rs
@@ -1,6 +1,6 @@
 #![cfg(any(feature = "json", feature = "ron", feature = "binary"))]
 
-use crate::parse::{Enum, Struct};
+use crate::parse::{Enum, Generic, Struct};
 use alloc::string::String;
 use alloc::{format, string::ToString, vec::Vec};
 
@@ -90,6 +90,20 @@ pub fn attrs_crate(attributes: &[crate::parse::Attribute]) -> Option<&str> {
     })
 }
 
+/// The bounds on types that are no parameters, like `where Vec<T>: Clone`.
+fn where_clause(generics: &[Generic]) -> String {
+    let bounds: Vec<String> = generics
+        .iter()
+        .filter(|g| g.is_where_bound())
+        .map(|g| g.full_with_const(&[], true))
+        .collect();
+    if bounds.is_empty() {
+        String::new()
+    } else {
+        format!(" where {}", bounds.join(", "))
+    }
+}
+
 pub(crate) fn struct_bounds_strings(
     struct_: &Struct,
     bound_name: &str,
@@ -101,7 +115,7 @@ pub(crate) fn struct_bounds_strings(
         return ("".to_string(), "".to_string());
     }
     let mut generic_w_bounds = "<".to_string();
-    for generic in generics.iter().filter(|g| g.ident_only() != "Self") {
+    for generic in generics.iter().filter(|g| !g.is_where_bound()) {
         generic_w_bounds += generic
             .full_with_const(&[format!("{}::{}", crate_name, bound_name).as_str()], true)
             .as_str();
@@ -110,11 +124,12 @@ pub(crate) fn struct_bounds_strings(
     generic_w_bounds += ">";
 
     let mut generic_no_bounds = "<".to_string();
-    for generic in generics.iter().filter(|g| g.ident_only() != "Self") {
+    for generic in generics.iter().filter(|g| !g.is_where_bound()) {
         generic_no_bounds += generic.ident_only().as_str();
         generic_no_bounds += ", ";
     }
     generic_no_bounds += ">";
+    generic_no_bounds += &where_clause(generics);
     (generic_w_bounds, generic_no_bounds)
 }
 
@@ -129,7 +144,7 @@ pub(crate) fn enum_bounds_strings(
         return ("".to_string(), "".to_string());
     }
     let mut generic_w_bounds = "<".to_string();
-    for generic in generics.iter().filter(|g| g.ident_only() != "Self") {
+    for generic in generics.iter().filter(|g| !g.is_where_bound()) {
         generic_w_bounds += generic
             .full_with_const(&[format!("{}::{}", crate_name, bound_name).as_str()], true)
             .as_str();
@@ -138,10 +153,11 @@ pub(crate) fn enum_bounds_strings(
     generic_w_bounds += ">";
 
     let mut generic_no_bounds = "<".to_string();
-    for generic in generics.iter().filter(|g| g.ident_only() != "Self") {
+    for generic in generics.iter().filter(|g| !g.is_where_bound()) {
         generic_no_bounds += generic.ident_only().as_str();
         generic_no_bounds += ", ";
     }
     generic_no_bounds += ">";
+    generic_no_bounds += &where_clause(generics);
     (generic_w_bounds, generic_no_bounds)
 }
-- 
2.43.0

