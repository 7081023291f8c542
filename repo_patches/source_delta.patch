From e33783dff9563fbdd928ad5fd6cbeede35d9ec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 01/41] fix: do not reserve memory from an untrusted length
 prefix in binary decoding

---
 src/serde_bin.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 335c217..b2a194b 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -299,7 +299,8 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Vec<T>, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut out = Vec::with_capacity(len);
+        // `len` is untrusted: never reserve more than the input could provide.
+        let mut out = Vec::with_capacity(len.min(d.len()));
         for _ in 0..len {
             out.push(DeBin::de_bin(o, d)?)
         }
@@ -355,7 +356,8 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut out = std::collections::HashSet::with_capacity(len);
+        // `len` is untrusted: never reserve more than the input could provide.
+        let mut out = std::collections::HashSet::with_capacity(len.min(d.len()));
         for _ in 0..len {
             out.insert(DeBin::de_bin(o, d)?);
         }
@@ -602,7 +604,8 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut h = std::collections::HashMap::with_capacity(len);
+        // `len` is untrusted: never reserve more than the input could provide.
+        let mut h = std::collections::HashMap::with_capacity(len.min(d.len()));
         for _ in 0..len {
             let k = DeBin::de_bin(o, d)?;
             let v = DeBin::de_bin(o, d)?;
-- 
2.43.0


From 78ba67ebc3ab7d173140fe9cb6a06c083f786876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 02/41] fix: reject string lengths that overflow the offset in
 binary decoding

---
 src/serde_bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index b2a194b..efa34c0 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -254,7 +254,7 @@ impl SerBin for String {
 impl DeBin for String {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<String, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        if *o + len > d.len() {
+        if len > d.len() - *o {
             return Err(DeBinErr {
                 o: *o,
                 msg: DeBinErrReason::Length {
-- 
2.43.0


From c1208ebb0c4235ce4622cc53e793a7a93dc4517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 03/41] fix: report an error for durations that overflow
 instead of panicking

---
 src/serde_bin.rs  | 6 ++++++
 src/serde_json.rs | 2 ++
 src/serde_ron.rs  | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index efa34c0..fc56f8c 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -686,6 +686,12 @@ impl DeBin for Duration {
                 ),
             });
         }
+        if secs == u64::MAX && nanos == 1_000_000_000 {
+            return Err(DeBinErr {
+                o: *o,
+                msg: DeBinErrReason::Range("Duration out of range".to_owned()),
+            });
+        }
         Ok(Duration::new(secs, nanos))
     }
 }
diff --git a/src/serde_json.rs b/src/serde_json.rs
index 4faaaea..a0f417d 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1356,6 +1356,8 @@ impl DeJson for Duration {
 
         if nanos > 1_000_000_000 {
             Err(s.err_range("Duration nanos must be at most 1,000,000,000"))
+        } else if secs == u64::MAX && nanos == 1_000_000_000 {
+            Err(s.err_range("Duration out of range"))
         } else {
             Ok(Duration::new(secs, nanos))
         }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index d04df66..bfc047a 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1353,6 +1353,8 @@ impl DeRon for Duration {
 
         if nanos > 1_000_000_000 {
             Err(s.err_range("Duration nanos must be at most 1,000,000,000"))
+        } else if secs == u64::MAX && nanos == 1_000_000_000 {
+            Err(s.err_range("Duration out of range"))
         } else {
             Ok(Duration::new(secs, nanos))
         }
-- 
2.43.0


From 32ad18d6e9ef70863c1dceff7882c1d11b2d2f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 04/41] fix: report an error for system times that overflow
 instead of panicking

---
 src/serde_bin.rs  | 7 ++++++-
 src/serde_json.rs | 4 +++-
 src/serde_ron.rs  | 4 +++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index fc56f8c..9acf15c 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -708,7 +708,12 @@ impl SerBin for std::time::SystemTime {
 impl DeBin for std::time::SystemTime {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<std::time::SystemTime, DeBinErr> {
         match DeBin::de_bin(o, d)? {
-            Some(duration) => Ok(std::time::SystemTime::UNIX_EPOCH + duration),
+            Some(duration) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(duration)
+                .ok_or_else(|| DeBinErr {
+                    o: *o,
+                    msg: DeBinErrReason::Range("SystemTime out of range".to_owned()),
+                }),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
diff --git a/src/serde_json.rs b/src/serde_json.rs
index a0f417d..7c48821 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1377,7 +1377,9 @@ impl SerJson for std::time::SystemTime {
 impl DeJson for std::time::SystemTime {
     fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<std::time::SystemTime, DeJsonErr> {
         match DeJson::de_json(s, i)? {
-            Some(dur) => Ok(std::time::SystemTime::UNIX_EPOCH + dur),
+            Some(dur) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(dur)
+                .ok_or_else(|| s.err_range("SystemTime out of range")),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index bfc047a..ad10ebe 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1374,7 +1374,9 @@ impl SerRon for std::time::SystemTime {
 impl DeRon for std::time::SystemTime {
     fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<std::time::SystemTime, DeRonErr> {
         match DeRon::de_ron(s, i)? {
-            Some(dur) => Ok(std::time::SystemTime::UNIX_EPOCH + dur),
+            Some(dur) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(dur)
+                .ok_or_else(|| s.err_range("SystemTime out of range")),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
-- 
2.43.0


From da55f52a10b7806c952d13f1290ef79d960a7c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 05/41] fix: reject unsigned numbers above i64::MAX for signed
 integer fields

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 7c48821..4d9be26 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -412,7 +412,7 @@ impl DeJsonState {
             return Ok(value);
         }
         if let DeJsonTok::U64(value) = self.tok {
-            if value as i64 > max {
+            if value > max as u64 {
                 return Err(self.err_range(&format!("{}>{}", value, max)));
             }
             return Ok(value as i64);
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index ad10ebe..b6bd7c9 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -393,7 +393,7 @@ impl DeRonState {
             return Ok(value);
         }
         if let DeRonTok::U64(value) = self.tok {
-            if value as i64 > max {
+            if value > max as u64 {
                 return Err(self.err_range(&format!("{}>{}", value, max)));
             }
             return Ok(value as i64);
-- 
2.43.0


From 381d83f29a059da75420ea7bcfe453126f9851c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 06/41] fix: serialize empty slices and arrays to JSON and RON
 without panicking

---
 src/serde_json.rs | 12 +++++++-----
 src/serde_ron.rs  | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 4d9be26..a1ac27b 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1027,11 +1027,13 @@ where
 {
     fn ser_json(&self, d: usize, s: &mut SerJsonState) {
         s.out.push('[');
-        let last = self.len() - 1;
-        for (index, item) in self.iter().enumerate() {
-            item.ser_json(d + 1, s);
-            if index != last {
-                s.out.push(',');
+        if !self.is_empty() {
+            let last = self.len() - 1;
+            for (index, item) in self.iter().enumerate() {
+                item.ser_json(d + 1, s);
+                if index != last {
+                    s.out.push(',');
+                }
             }
         }
         s.out.push(']');
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index b6bd7c9..d942ae7 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1017,11 +1017,13 @@ where
 {
     fn ser_ron(&self, d: usize, s: &mut SerRonState) {
         s.out.push('(');
-        let last = self.len() - 1;
-        for (index, item) in self.iter().enumerate() {
-            item.ser_ron(d + 1, s);
-            if index != last {
-                s.out.push(',');
+        if !self.is_empty() {
+            let last = self.len() - 1;
+            for (index, item) in self.iter().enumerate() {
+                item.ser_ron(d + 1, s);
+                if index != last {
+                    s.out.push(',');
+                }
             }
         }
         s.out.push(')');
-- 
2.43.0


From a57ab0ff91c427a2e6e839d46a47695c8581c4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 07/41] fix: return an error for malformed unknown JSON fields
 instead of panicking or looping

---
 src/serde_json.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index a1ac27b..9f76ba1 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -303,6 +303,10 @@ impl DeJsonState {
                         open_brackets -= 1;
                     }
 
+                    if self.tok == DeJsonTok::Eof {
+                        return Err(self.err_token("] or }"));
+                    }
+
                     self.next_tok(i)?;
 
                     if open_brackets == 0 {
@@ -311,7 +315,7 @@ impl DeJsonState {
                 }
                 Ok(())
             }
-            _ => unimplemented!("{:?}", self.tok),
+            _ => Err(self.err_token("value")),
         }
     }
 
-- 
2.43.0


From ddd84093dd23264cf993d14f80f9b25d0a68fe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 08/41] fix: skip JSON comments iteratively so that many
 comments cannot overflow the stack

---
 src/serde_json.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 9f76ba1..d287ad4 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -454,21 +454,23 @@ impl DeJsonState {
     }
 
     pub fn next_tok(&mut self, i: &mut Chars) -> Result<(), DeJsonErr> {
-        while self.cur == '\n' || self.cur == '\r' || self.cur == '\t' || self.cur == ' ' {
-            self.next(i);
-        }
-        if self.cur == '\0' {
-            self.tok = DeJsonTok::Eof;
-            return Ok(());
-        }
-        if self.cur == '/' {
+        loop {
+            while self.cur == '\n' || self.cur == '\r' || self.cur == '\t' || self.cur == ' ' {
+                self.next(i);
+            }
+            if self.cur == '\0' {
+                self.tok = DeJsonTok::Eof;
+                return Ok(());
+            }
+            if self.cur != '/' {
+                break;
+            }
             self.next(i);
             match self.cur {
                 '/' => {
                     while self.cur != '\n' && self.cur != '\0' {
                         self.next(i);
                     }
-                    return self.next_tok(i);
                 }
                 '*' => {
                     let mut last = self.cur;
@@ -483,7 +485,6 @@ impl DeJsonState {
                         }
                         last = self.cur;
                     }
-                    return self.next_tok(i);
                 }
                 _ => {
                     return Err(self.err_token("CommentOpen"));
-- 
2.43.0


From cae67012d540c453ac6de23d333227013c32abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 09/41] fix: do not treat the star of a comment opener as part
 of its closer

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index d287ad4..4197bd3 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -473,7 +473,7 @@ impl DeJsonState {
                     }
                 }
                 '*' => {
-                    let mut last = self.cur;
+                    let mut last = '\0';
                     loop {
                         self.next(i);
                         if self.cur == '\0' {
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index d942ae7..902c486 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -496,6 +496,7 @@ impl DeRonState {
                         }
                     } else if self.cur == '*' {
                         // multline comment
+                        self.next(i);
                         let mut last_star = false;
                         while self.cur != '\0' {
                             if self.cur == '/' && last_star {
-- 
2.43.0


From 285fa2cc447dd784b567ddbdab67543a69c86502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 10/41] fix: reject unterminated RON comments

---
 src/serde_ron.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 902c486..b6cd38d 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -498,7 +498,10 @@ impl DeRonState {
                         // multline comment
                         self.next(i);
                         let mut last_star = false;
-                        while self.cur != '\0' {
+                        loop {
+                            if self.cur == '\0' {
+                                return Err(self.err_parse("comment"));
+                            }
                             if self.cur == '/' && last_star {
                                 self.next(i);
                                 break;
-- 
2.43.0


From b9cc96ef9bed311877d3b1d8fc83c55f82fb28b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 11/41] fix: accept an explicit plus sign in number exponents

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 4197bd3..1785925 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -550,7 +550,7 @@ impl DeJsonState {
                     is_float = true;
                     self.numbuf.push(self.cur);
                     self.next(i);
-                    if self.cur == '-' {
+                    if self.cur == '-' || self.cur == '+' {
                         self.numbuf.push(self.cur);
                         self.next(i);
                     }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index b6cd38d..cb5c83d 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -541,7 +541,7 @@ impl DeRonState {
                         is_float = true;
                         self.numbuf.push(self.cur);
                         self.next(i);
-                        if self.cur == '-' {
+                        if self.cur == '-' || self.cur == '+' {
                             self.numbuf.push(self.cur);
                             self.next(i);
                         }
-- 
2.43.0


From e8f9e327cda79be6ea6757db4d96792964cb4fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 12/41] fix: return RON char literals as tokens instead of
 dropping them

---
 src/serde_ron.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index cb5c83d..0a3627e 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -607,6 +607,7 @@ impl DeRonState {
                     }
                     self.next(i);
                     self.tok = DeRonTok::Char(chr);
+                    return Ok(());
                 }
                 '"' => {
                     self.strbuf.truncate(0);
-- 
2.43.0


From 80befb0e9236b683e17fc9b1ecd1e0a215cc93b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 13/41] fix: track error columns in RON and TOML input

---
 src/serde_ron.rs | 2 +-
 src/toml.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 0a3627e..66b9719 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -197,7 +197,7 @@ impl DeRonState {
                 self.line += 1;
                 self.col = 0;
             } else {
-                self.col = 0;
+                self.col += 1;
             }
         } else {
             self.cur = '\0';
diff --git a/src/toml.rs b/src/toml.rs
index 73b70a9..565589f 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -393,7 +393,7 @@ impl TomlParser {
                 self.line += 1;
                 self.col = 0;
             } else {
-                self.col = 0;
+                self.col += 1;
             }
         } else {
             self.cur = '\0';
-- 
2.43.0


From 614b473c774a6614bfcc1534b1fbb4ab3a94f2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 14/41] fix: no trailing comma when the last field of a JSON
 enum variant is None

---
 derive/src/serde_json.rs | 44 +++++++++++++---------------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 24cc119..23183b1 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -326,42 +326,26 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 let mut items = String::new();
                 let mut field_names = vec![];
-                let last = contents.fields.len().saturating_sub(1);
-                for (index, field) in contents.fields.iter().enumerate() {
+                l!(items, "let mut first_field_was_serialized = false;");
+                for field in contents.fields.iter() {
                     if let Some(name) = &&field.field_name {
                         let proxied_field = ser_proxy_guard(name, field);
-                        if index == last {
-                            if field.ty.base() == "Option" {
-                                l!(
-                                    items,
-                                    "if {}.is_some(){{s.field(d+1, \"{}\");{}.ser_json(d+1, s);}}",
-                                    name,
-                                    name,
-                                    proxied_field
-                                )
-                            } else {
-                                l!(
-                                    items,
-                                    "s.field(d+1, \"{}\");{}.ser_json(d+1, s);",
-                                    name,
-                                    proxied_field
-                                )
-                            }
-                        } else if field.ty.base() == "Option" {
-                            l!(
-                                    items,
-                                    "if {}.is_some(){{s.field(d+1, \"{}\");{}.ser_json(d+1, s);s.conl();}}",
-                                    name,
-                                    name,
-                                    proxied_field
-                                );
-                        } else {
+                        let field_header = format!(
+                            "if first_field_was_serialized {{ s.conl(); }};
+                            first_field_was_serialized = true;
+                            s.field(d+1, \"{}\");",
+                            name
+                        );
+                        if field.ty.base() == "Option" {
                             l!(
                                 items,
-                                "s.field(d+1, \"{}\");{}.ser_json(d+1, s);s.conl();",
+                                "if {}.is_some(){{ {} {}.ser_json(d+1, s);}}",
                                 name,
+                                field_header,
                                 proxied_field
-                            );
+                            )
+                        } else {
+                            l!(items, "{} {}.ser_json(d+1, s);", field_header, proxied_field);
                         }
                         field_names.push(name.clone());
                     }
-- 
2.43.0


From f58deb5c646e4fd6981bf36fda6adeb3c35bb0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 15/41] fix: honour rename on fields of enum variants when
 serializing JSON

---
 derive/src/serde_json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 23183b1..a415397 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -334,7 +334,7 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                             "if first_field_was_serialized {{ s.conl(); }};
                             first_field_was_serialized = true;
                             s.field(d+1, \"{}\");",
-                            name
+                            shared::attrs_rename(&field.attributes).unwrap_or(name.clone())
                         );
                         if field.ty.base() == "Option" {
                             l!(
-- 
2.43.0


From dad72eb5fb44dd080c66e8f31a898b06f80272b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 16/41] fix: honour rename on fields of enum variants when
 serializing RON

---
 derive/src/serde_ron.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 29c4050..c1578d6 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -352,6 +352,8 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 for field in contents.fields.iter() {
                     let name = field.field_name.as_ref().unwrap();
                     names.push(name.clone());
+                    let ron_fieldname =
+                        shared::attrs_rename(&field.attributes).unwrap_or(name.clone());
                     if field.ty.base() == "Option" {
                         l!(
                             inner,
@@ -361,7 +363,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                                 s.conl();
                             }}",
                             name.as_str(),
-                            name.as_str(),
+                            ron_fieldname,
                             name.as_str()
                         )
                     } else {
@@ -370,7 +372,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                             "s.field(d+1, \"{}\");
                             {}.ser_ron(d+1, s);
                             s.conl();",
-                            name,
+                            ron_fieldname,
                             name
                         )
                     }
-- 
2.43.0


From 0984dfea14693e86bdc6c8b2914135caa9954b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 17/41] fix: report an error when a TOML array of tables
 redefines a key instead of panicking

---
 src/toml.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 565589f..041d6cb 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -224,7 +224,8 @@ struct Out {
     active_array_element: Option<(String, usize)>,
 }
 impl Out {
-    fn start_array(&mut self, key: &str) {
+    /// Returns false if `key` already holds a value which isn't an array of tables.
+    fn start_array(&mut self, key: &str) -> bool {
         if !self.out.contains_key(key) {
             self.out.insert(key.to_string(), Toml::Array(vec![]));
         }
@@ -235,10 +236,11 @@ impl Out {
                 array.push(BTreeMap::new());
                 n
             }
-            _ => unreachable!(),
+            _ => return false,
         };
 
         self.active_array_element = Some((key.to_string(), n));
+        true
     }
 
     fn out(&mut self) -> &mut BTreeMap<String, Toml> {
@@ -316,7 +318,9 @@ impl TomlParser {
                         if tok != TomlTok::BlockClose {
                             return Err(self.err_token(tok));
                         }
-                        out.start_array(&key);
+                        if !out.start_array(&key) {
+                            return Err(self.err_parse("array of tables"));
+                        }
                         local_scope.clear();
                     }
                     _ => return Err(self.err_token(tok)),
-- 
2.43.0


From 287f8663dcdb9ba6fd376977b2e9cf44c42ecb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 18/41] fix: find the closing quotes of empty and multi-line
 TOML strings

---
 src/toml.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 041d6cb..92930f6 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -463,10 +463,17 @@ impl TomlParser {
                         braces += 1;
                         self.next(i);
                     }
+                    if braces == 2 {
+                        // an opening quote directly followed by its closing quote
+                        return Ok(TomlTok::Str(val));
+                    }
                     let escaped_string = braces == 3;
                     loop {
                         match self.cur {
-                            '"' if !escaped_string => break,
+                            '"' if !escaped_string => {
+                                self.next(i);
+                                break;
+                            }
                             '"' if escaped_string => {
                                 let mut tmp = String::new();
                                 let mut braces = 0;
@@ -475,10 +482,13 @@ impl TomlParser {
                                     braces += 1;
                                     self.next(i);
                                 }
-                                if braces == 3 {
+                                if braces >= 3 {
+                                    // quotes right before the closing ones are content
+                                    val.push_str(&tmp[3..]);
                                     break;
                                 }
                                 val.push_str(&tmp);
+                                continue;
                             }
                             '\\' => {
                                 self.next(i);
@@ -489,7 +499,6 @@ impl TomlParser {
                         val.push(self.cur);
                         self.next(i);
                     }
-                    self.next(i);
                     return Ok(TomlTok::Str(val));
                 }
                 ident_chars!() => return self.parse_ident(i, String::new()),
-- 
2.43.0


From 9ea7472f2399dcf299baa0efdb6100c4c4ae5751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 19/41] fix: decode control character escapes in TOML strings

---
 src/toml.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index 92930f6..2bc0df1 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -492,6 +492,18 @@ impl TomlParser {
                             }
                             '\\' => {
                                 self.next(i);
+                                let escaped = match self.cur {
+                                    '\0' => return Err(self.err_parse("string")),
+                                    'b' => '\u{8}',
+                                    't' => '\t',
+                                    'n' => '\n',
+                                    'f' => '\u{c}',
+                                    'r' => '\r',
+                                    other => other,
+                                };
+                                val.push(escaped);
+                                self.next(i);
+                                continue;
                             }
                             '\0' => return Err(self.err_parse("string")),
                             _ => {}
-- 
2.43.0


From 2da9ba3d0a59523428de2e0e180e7ae7fecf0907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 20/41] fix: allow a comma or a comment directly after a TOML
 keyword

---
 src/toml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index 2bc0df1..981161b 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -37,7 +37,7 @@ macro_rules! ident_chars {
 /// Pattern matching a character that can terminate a valid ident.
 macro_rules! ident_term_chars {
     () => {
-        ' ' | '\t' | '\r' | '\n' | '\0' | '=' | ']'
+        ' ' | '\t' | '\r' | '\n' | '\0' | '=' | ']' | ',' | '#'
     };
 }
 
-- 
2.43.0


From b67e34a3402150de7cdab9252e05ca51467c0202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 21/41] fix: reject unterminated TOML arrays

---
 src/toml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index 981161b..19247b8 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -347,7 +347,7 @@ impl TomlParser {
                 let mut vals = Vec::new();
                 loop {
                     let tok = self.next_tok(i)?;
-                    if tok == TomlTok::BlockClose || tok == TomlTok::Eof {
+                    if tok == TomlTok::BlockClose {
                         break;
                     }
                     if tok != TomlTok::Comma {
-- 
2.43.0


From f2fe0076e6f8e04e082525ec04d1e1c72b177b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 22/41] fix: parse dotted TOML keys iteratively so that long
 keys cannot overflow the stack

---
 src/toml.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 19247b8..c18ecda 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -521,17 +521,11 @@ impl TomlParser {
 
     /// Parse an ident or similar, starting with the current character.
     fn parse_ident(&mut self, i: &mut Chars, mut start: String) -> Result<TomlTok, TomlErr> {
-        while matches!(self.cur, ident_chars!()) {
+        while matches!(self.cur, ident_chars!() | '.') {
             start.push(self.cur);
             self.next(i);
         }
 
-        if self.cur == '.' {
-            start.push(self.cur);
-            self.next(i);
-            return self.parse_ident(i, start); // recursion here could be a problem
-        }
-
         if matches!(self.cur, ident_term_chars!()) {
             return Ok(match start.as_ref() {
                 "true" => TomlTok::Bool(true),
-- 
2.43.0


From 190ee3c6cc8ef88f4cfd8715bcf945bda2fe7e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 23/41] fix: read f32 from JSON and RON without rounding to f64
 first

---
 src/serde_json.rs | 4 +++-
 src/serde_ron.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 1785925..099d843 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -758,8 +758,10 @@ macro_rules! impl_ser_de_json_float {
             fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<$ty, DeJsonErr> {
                 //s.is_prefix(p, i) ?;
                 let val = s.as_f64()?;
+                // reading the text as f64 first could round an f32 twice
+                let val = s.numbuf.parse().unwrap_or(val as $ty);
                 s.next_tok(i)?;
-                return Ok(val as $ty);
+                return Ok(val);
             }
         }
     };
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 66b9719..5a59ced 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -761,8 +761,10 @@ macro_rules! impl_ser_de_ron_float {
             fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<$ty, DeRonErr> {
                 //s.is_prefix(p, i) ?;
                 let val = s.as_f64()?;
+                // reading the text as f64 first could round an f32 twice
+                let val = s.numbuf.parse().unwrap_or(val as $ty);
                 s.next_tok(i)?;
-                return Ok(val as $ty);
+                return Ok(val);
             }
         }
     };
-- 
2.43.0


From 5a2129fb9a0eeb62e994e0f0d108fc0414b2be22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 24/41] fix: keys of a TOML section after an array of tables
 belong to the section, not to the array's last element

---
 src/toml.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index c18ecda..55b78e1 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -243,6 +243,18 @@ impl Out {
         true
     }
 
+    /// A section which isn't part of the active array element ends that element.
+    fn start_section(&mut self, name: &str) {
+        if let Some((table, _)) = &self.active_array_element {
+            let inside = name
+                .strip_prefix(table.as_str())
+                .is_some_and(|rest| rest.starts_with('.'));
+            if !inside {
+                self.active_array_element = None;
+            }
+        }
+    }
+
     fn out(&mut self) -> &mut BTreeMap<String, Toml> {
         if let Some((table, n)) = self.active_array_element.clone() {
             match self.out.get_mut(&table).unwrap() {
@@ -291,6 +303,7 @@ impl TomlParser {
                 let tok = self.next_tok(i)?;
                 match tok {
                     TomlTok::Str(key) | TomlTok::Ident(key) => {
+                        out.start_section(&key);
                         *local_scope = key;
                         let tok = self.next_tok(i)?;
                         if tok != TomlTok::BlockClose {
-- 
2.43.0


From 304968817cbf3b50a3fe479620cc83cc386a66ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 25/41] fix: limit the nesting of TOML arrays so that deep ones
 cannot overflow the stack

---
 src/toml.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 55b78e1..401a464 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -41,6 +41,9 @@ macro_rules! ident_term_chars {
     };
 }
 
+/// Arrays nested deeper than this are rejected, as reading (and dropping) them recurses.
+const MAX_ARRAY_DEPTH: usize = 128;
+
 /// A parser for TOML string values.
 ///
 /// ```rust
@@ -354,9 +357,12 @@ impl TomlParser {
     }
 
     #[allow(clippy::wrong_self_convention)]
-    fn to_val(&mut self, tok: TomlTok, i: &mut Chars) -> Result<Toml, TomlErr> {
+    fn to_val(&mut self, tok: TomlTok, i: &mut Chars, depth: usize) -> Result<Toml, TomlErr> {
         match tok {
             TomlTok::BlockOpen => {
+                if depth >= MAX_ARRAY_DEPTH {
+                    return Err(self.err_parse("array: nested too deeply"));
+                }
                 let mut vals = Vec::new();
                 loop {
                     let tok = self.next_tok(i)?;
@@ -364,7 +370,7 @@ impl TomlParser {
                         break;
                     }
                     if tok != TomlTok::Comma {
-                        vals.push(self.to_val(tok, i)?);
+                        vals.push(self.to_val(tok, i, depth + 1)?);
                     }
                 }
                 Ok(Toml::SimpleArray(vals))
@@ -393,7 +399,7 @@ impl TomlParser {
             return Err(self.err_token(tok));
         }
         let tok = self.next_tok(i)?;
-        let val = self.to_val(tok, i)?;
+        let val = self.to_val(tok, i, 0)?;
         let key = if !local_scope.is_empty() {
             format!("{}.{}", local_scope, key)
         } else {
-- 
2.43.0


From 760f4d9867ea1a8a25de3b4e956f661935b4ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 26/41] fix: skip unknown fields when reading a JSON struct
 without fields

---
 derive/src/serde_json.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index a415397..f364225 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -243,6 +243,8 @@ pub fn derive_de_json_named(
         // );
         l!(r, "_ => {s.next_colon(i)?; s.whole_field(i)?; }");
         l!(r, "}");
+    } else {
+        l!(r, "s.next_colon(i)?; s.whole_field(i)?;");
     }
     l!(r, "s.eat_comma_curly(i) ?;");
     l!(r, "}");
-- 
2.43.0


From 4578f90567788c6e5cd53bbaccbf3a2111decf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 27/41] fix: count nested brackets of an ignored JSON field in
 a usize

---
 src/serde_json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 099d843..af12513 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -292,7 +292,7 @@ impl DeJsonState {
                 Ok(())
             }
             DeJsonTok::BlockOpen | DeJsonTok::CurlyOpen => {
-                let mut open_brackets = 0;
+                let mut open_brackets = 0usize;
 
                 loop {
                     if let DeJsonTok::BlockOpen | DeJsonTok::CurlyOpen = self.tok {
-- 
2.43.0


From 041bf7375d87f2c6f29d5ebf645d6802d84eb280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 28/41] fix: TOML: count a run of quotes without overflow

---
 src/toml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index 401a464..a734e06 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -495,7 +495,7 @@ impl TomlParser {
                             }
                             '"' if escaped_string => {
                                 let mut tmp = String::new();
-                                let mut braces = 0;
+                                let mut braces = 0usize;
                                 while self.cur == '"' {
                                     tmp.push('"');
                                     braces += 1;
-- 
2.43.0


From 569151b9b3a94c76923c03945ebe1650a51ab376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 29/41] fix: derive: look at a variant's name before the next
 token overwrites it

The JSON string buffer and the RON identifier buffer hold the last token
only, so reading past the name of a unit variant lost it when another
string (identifier) followed: `["A" "B"]` selected the wrong variant
instead of being judged by the name that was read.
---
 derive/src/serde_json.rs |  8 +++++---
 derive/src/serde_ron.rs  | 14 +++++++++-----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index f364225..ce1e155 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -515,11 +515,13 @@ pub fn derive_de_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
         r.push_str(&format!(
             "
                     {}::DeJsonTok::Str => {{
-                        let _ = s.string(i)?;
-                        ::core::result::Result::Ok(match s.strbuf.as_ref() {{
+                        // the name is only in strbuf until the next token is read
+                        let r = match s.strbuf.as_ref() {{
                             {}
                             _ => return ::core::result::Result::Err(s.err_enum(&s.strbuf))
-                        }})
+                        }};
+                        s.string(i)?;
+                        ::core::result::Result::Ok(r)
                     }},",
             crate_name, r_units,
         ))
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index c1578d6..990129b 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -454,7 +454,7 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 ..
             } => {
                 // unit variant
-                l!(body, "\"{}\" => Self::{},", ident, ident)
+                l!(body, "\"{}\" => {{ s.ident(i)?; Self::{} }},", ident, ident)
             }
             Type {
                 ident: Category::AnonymousStruct { contents },
@@ -462,7 +462,7 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 let name = format!("{}::{}", enum_.name, ident);
                 let inner = derive_de_ron_named(&name, &contents.fields, &[], crate_name);
-                l!(body, "\"{}\" => {}", ident, inner);
+                l!(body, "\"{}\" => {{ s.ident(i)?; {} }}", ident, inner);
             }
             Type {
                 ident: Category::Tuple { contents },
@@ -484,6 +484,7 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 l!(
                     body,
                     "\"{}\" => {{
+                        s.ident(i)?;
                         s.paren_open(i)?;
                         let r = Self::{} ({});
                         s.paren_close(i)?;
@@ -503,12 +504,15 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
     format! ("
         impl{} {}::DeRon for {}{} {{
             fn de_ron(s: &mut {}::DeRonState, i: &mut core::str::Chars) -> ::core::result::Result<Self,{}::DeRonErr> {{
-                // we are expecting an identifier
-                s.ident(i)?;
+                // we are expecting an identifier; its name is only in identbuf until the next token is read
+                match s.tok {{
+                    {}::DeRonTok::Ident => (),
+                    _ => return ::core::result::Result::Err(s.err_token(\"Identifier\")),
+                }}
                 ::core::result::Result::Ok(match s.identbuf.as_ref() {{
                     {}
                     _ => return ::core::result::Result::Err(s.err_enum(&s.identbuf))
                 }})
             }}
-        }}", generic_w_bounds, crate_name, enum_.name, generic_no_bounds, crate_name, crate_name, body).parse().unwrap()
+        }}", generic_w_bounds, crate_name, enum_.name, generic_no_bounds, crate_name, crate_name, crate_name, body).parse().unwrap()
 }
-- 
2.43.0


From cb3f1fd37d333e1050a2bccf6f31e4b5ae00e3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:29 +0000
Subject: [PATCH 30/41] fix: JSON: escape field and variant names

---
 src/serde_json.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index af12513..7aefff6 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -26,16 +26,13 @@ impl SerJsonState {
 
     pub fn field(&mut self, d: usize, field: &str) {
         self.indent(d);
-        self.out.push('"');
-        self.out.push_str(field);
-        self.out.push('"');
+        self.label(field);
         self.out.push(':');
     }
 
     pub fn label(&mut self, label: &str) {
-        self.out.push('"');
-        self.out.push_str(label);
-        self.out.push('"');
+        // a renamed field or variant may need escapes
+        label.ser_json(0, self);
     }
 
     pub fn conl(&mut self) {
-- 
2.43.0


From ca50d605cf41651a9b351ebf7e26e287809eeaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:29 +0000
Subject: [PATCH 31/41] fix: derive: skip the skipped fields of struct variants
 in JSON and RON

---
 derive/src/serde_json.rs | 4 ++++
 derive/src/serde_ron.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index ce1e155..9f03c3c 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -331,6 +331,10 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 l!(items, "let mut first_field_was_serialized = false;");
                 for field in contents.fields.iter() {
                     if let Some(name) = &&field.field_name {
+                        if shared::attrs_skip(&field.attributes) {
+                            field_names.push(format!("{}: _", name));
+                            continue;
+                        }
                         let proxied_field = ser_proxy_guard(name, field);
                         let field_header = format!(
                             "if first_field_was_serialized {{ s.conl(); }};
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 990129b..1732aff 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -351,6 +351,10 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 let mut inner = String::new();
                 for field in contents.fields.iter() {
                     let name = field.field_name.as_ref().unwrap();
+                    if attrs_skip(&field.attributes) {
+                        names.push(format!("{}: _", name));
+                        continue;
+                    }
                     names.push(name.clone());
                     let ron_fieldname =
                         shared::attrs_rename(&field.attributes).unwrap_or(name.clone());
-- 
2.43.0


From e1c4d75b7b5a3f1f0f57b36828c826fa5884ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:29 +0000
Subject: [PATCH 32/41] fix: derive: read back a RON tuple struct with skipped
 fields

---
 derive/src/serde_ron.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 1732aff..cab8084 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -104,17 +104,18 @@ pub fn derive_ser_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Toke
     let (generic_w_bounds, generic_no_bounds) =
         struct_bounds_strings(struct_, "SerRon", crate_name);
 
-    let last = struct_.fields.len() - 1;
+    let mut first = true;
     for (n, _field) in struct_
         .fields
         .iter()
         .enumerate()
         .filter(|(_, f)| !attrs_skip(&f.attributes))
     {
-        l!(body, "self.{}.ser_ron(d, s);", n);
-        if n != last {
+        if !first {
             l!(body, "s.out.push_str(\", \");");
         }
+        first = false;
+        l!(body, "self.{}.ser_ron(d, s);", n);
     }
     format!(
         "
@@ -295,7 +296,11 @@ pub fn derive_de_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
     let mut body = String::new();
     let (generic_w_bounds, generic_no_bounds) = struct_bounds_strings(struct_, "DeRon", crate_name);
 
-    for _ in &struct_.fields {
+    for field in &struct_.fields {
+        if attrs_skip(&field.attributes) {
+            l!(body, "Default::default(),");
+            continue;
+        }
         l!(
             body,
             "{{
-- 
2.43.0


From b9925729a20ddfdb7d276e39e8dfa2967e7133c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:29 +0000
Subject: [PATCH 33/41] fix: derive: honour rename on RON enum variants

---
 derive/src/serde_ron.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index cab8084..f080a08 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -340,13 +340,20 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
 
     for variant in &enum_.variants {
         let ident = &variant.field_name.clone().unwrap();
+        let ron_variant_name =
+            shared::attrs_rename(&variant.attributes).unwrap_or_else(|| ident.clone());
         match &variant.ty {
             Type {
                 ident: Category::None,
                 ..
             } => {
                 // unit variant
-                l!(body, "Self::{} => s.out.push_str(\"{}\"),", ident, ident)
+                l!(
+                    body,
+                    "Self::{} => s.out.push_str(\"{}\"),",
+                    ident,
+                    ron_variant_name
+                )
             }
             Type {
                 ident: Category::AnonymousStruct { contents },
@@ -396,7 +403,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                     }}",
                     ident,
                     names.join(","),
-                    ident,
+                    ron_variant_name,
                     inner
                 );
             }
@@ -425,7 +432,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                     }}",
                     ident,
                     names.join(","),
-                    ident,
+                    ron_variant_name,
                     inner
                 )
             }
@@ -455,6 +462,8 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
 
     for variant in &enum_.variants {
         let ident = variant.field_name.clone().unwrap();
+        let ron_variant_name =
+            shared::attrs_rename(&variant.attributes).unwrap_or_else(|| ident.clone());
 
         match &variant.ty {
             Type {
@@ -463,7 +472,12 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 ..
             } => {
                 // unit variant
-                l!(body, "\"{}\" => {{ s.ident(i)?; Self::{} }},", ident, ident)
+                l!(
+                    body,
+                    "\"{}\" => {{ s.ident(i)?; Self::{} }},",
+                    ron_variant_name,
+                    ident
+                )
             }
             Type {
                 ident: Category::AnonymousStruct { contents },
@@ -471,7 +485,12 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 let name = format!("{}::{}", enum_.name, ident);
                 let inner = derive_de_ron_named(&name, &contents.fields, &[], crate_name);
-                l!(body, "\"{}\" => {{ s.ident(i)?; {} }}", ident, inner);
+                l!(
+                    body,
+                    "\"{}\" => {{ s.ident(i)?; {} }}",
+                    ron_variant_name,
+                    inner
+                );
             }
             Type {
                 ident: Category::Tuple { contents },
@@ -499,7 +518,7 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                         s.paren_close(i)?;
                         r
                     }}, ",
-                    ident,
+                    ron_variant_name,
                     ident,
                     inner
                 );
-- 
2.43.0


From 30741925996caea9f988c6c5e1c664644a8301c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:22 +0000
Subject: [PATCH 34/41] fix: TOML: decode unicode escapes

---
 src/toml.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index a734e06..f5e7283 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -518,6 +518,17 @@ impl TomlParser {
                                     'n' => '\n',
                                     'f' => '\u{c}',
                                     'r' => '\r',
+                                    'u' | 'U' => {
+                                        let digits = if self.cur == 'u' { 4 } else { 8 };
+                                        self.next(i);
+                                        match self.parse_unicode(i, digits) {
+                                            Some(c) => {
+                                                val.push(c);
+                                                continue;
+                                            }
+                                            None => return Err(self.err_parse("string")),
+                                        }
+                                    }
                                     other => other,
                                 };
                                 val.push(escaped);
@@ -538,6 +549,22 @@ impl TomlParser {
         }
     }
 
+    /// Parse the hex digits of a unicode escape, starting with the current character.
+    fn parse_unicode(&mut self, i: &mut Chars, digits: usize) -> Option<char> {
+        let mut code = 0u32;
+        for _ in 0..digits {
+            let digit = match self.cur {
+                '0'..='9' => self.cur as u32 - '0' as u32,
+                'a'..='f' => self.cur as u32 - 'a' as u32 + 10,
+                'A'..='F' => self.cur as u32 - 'A' as u32 + 10,
+                _ => return None,
+            };
+            code = code * 16 + digit;
+            self.next(i);
+        }
+        core::char::from_u32(code)
+    }
+
     /// Parse an ident or similar, starting with the current character.
     fn parse_ident(&mut self, i: &mut Chars, mut start: String) -> Result<TomlTok, TomlErr> {
         while matches!(self.cur, ident_chars!() | '.') {
-- 
2.43.0


From 8785523ea08d010f85191facc05ca37cf31bc794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:25 +0000
Subject: [PATCH 35/41] fix: derive: compile DeRon when every field is skipped

---
 derive/src/serde_ron.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index f080a08..13a8ab6 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -208,7 +208,7 @@ pub fn derive_de_ron_named(
         )
     }
 
-    let match_names = if !ron_field_names.is_empty() {
+    let match_names = if ron_field_names.iter().any(Option::is_some) {
         let mut inner = String::new();
         for (ron_field_name, (local_var, _)) in ron_field_names.iter().zip(local_vars.iter()) {
             let Some(ron_field_name) = ron_field_name else {
-- 
2.43.0


From f78cc6d13e5c8418a05b392cd82b30e17cba53e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:13 +0000
Subject: [PATCH 36/41] fix: derive: compile a default for an Option<String>
 field in RON

---
 derive/src/serde_ron.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 13a8ab6..37fb435 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -162,9 +162,16 @@ pub fn derive_de_ron_named(
         let field_attr_default_with = shared::attrs_default_with(&field.attributes);
         let default_val = if let Some(v) = field_attr_default {
             if let Some(mut val) = v {
-                if field.ty.base() == "String" {
+                if field.ty.base() == "String"
+                    || field
+                        .ty
+                        .wraps
+                        .as_ref()
+                        .is_some_and(|wrapped| wrapped.iter().any(|ty| ty.base() == "String"))
+                {
                     val = format!("\"{}\".to_string()", val)
-                } else if field.ty.base() == "Option" {
+                }
+                if field.ty.base() == "Option" {
                     val = format!("Some({})", val);
                 }
                 Some(val)
-- 
2.43.0


From d458a0fabf0cd805566f9bb5817a3776e76b0125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:11 +0000
Subject: [PATCH 37/41] fix: derive: compile DeBin for a tuple struct with
 skipped fields

---
 derive/src/serde_bin.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index f2b1a8e..0879a04 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -195,12 +195,13 @@ pub fn derive_de_bin_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
         }
     }
 
-    for field in struct_.fields.iter().filter(|f| attrs_skip(&f.attributes)) {
-        l!(
-            body,
-            "{}: Default::default(),",
-            field.field_name.as_ref().unwrap()
-        );
+    for (n, _) in struct_
+        .fields
+        .iter()
+        .enumerate()
+        .filter(|(_, f)| attrs_skip(&f.attributes))
+    {
+        l!(body, "{}: Default::default(),", n);
     }
 
     format!(
-- 
2.43.0


From 0613df107f0ee1fdcfd142f9fb44e1d6bb6513d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:11 +0000
Subject: [PATCH 38/41] fix: derive: compile SerJson for proxied fields of
 struct variants

---
 derive/src/serde_json.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 9f03c3c..6cf1864 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -335,7 +335,12 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                             field_names.push(format!("{}: _", name));
                             continue;
                         }
-                        let proxied_field = ser_proxy_guard(name, field);
+                        let proxied_field = if shared::attrs_proxy(&field.attributes).is_some() {
+                            // the name is bound to a reference
+                            ser_proxy_guard(&format!("(*{name})"), field)
+                        } else {
+                            name.clone()
+                        };
                         let field_header = format!(
                             "if first_field_was_serialized {{ s.conl(); }};
                             first_field_was_serialized = true;
-- 
2.43.0


From 034c099606230324a0c6594db15edde3b2c35cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:50 +0000
Subject: [PATCH 39/41] fix: derive: compile DeRon for a unit struct

---
 derive/src/serde_ron.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 37fb435..f707e75 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -319,11 +319,18 @@ pub fn derive_de_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
         );
     }
 
+    // a unit struct has no constructor to call
+    let value = if struct_.fields.is_empty() {
+        String::from("Self {}")
+    } else {
+        format!("Self({})", body)
+    };
+
     format! ("
         impl{} {}::DeRon for {}{} {{
             fn de_ron(s: &mut {}::DeRonState, i: &mut core::str::Chars) -> ::core::result::Result<Self,{}::DeRonErr> {{
                 s.paren_open(i)?;
-                let r = Self({});
+                let r = {};
                 s.paren_close(i)?;
                 ::core::result::Result::Ok(r)
             }}
@@ -337,7 +344,7 @@ pub fn derive_de_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
         generic_no_bounds,
         crate_name,
         crate_name,
-        body
+        value
     ).parse().unwrap()
 }
 
-- 
2.43.0


From 767c4bfd9433400ec0eddb24b4256ba797691442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 40/41] fix: derive: recognise Option by its full path

---
 derive/src/parse.rs      |  7 +++++++
 derive/src/serde_json.rs | 14 +++++++-------
 derive/src/serde_ron.rs  |  8 ++++----
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/derive/src/parse.rs b/derive/src/parse.rs
index f7ed622..92e51d5 100644
--- a/derive/src/parse.rs
+++ b/derive/src/parse.rs
@@ -433,6 +433,13 @@ impl Type {
         base
     }
 
+    /// Whether this is `Option`, by its name alone or by its full path
+    pub fn is_option(&self) -> bool {
+        let base = self.base();
+        let path = base.strip_prefix("::").unwrap_or(&base);
+        matches!(path, "Option" | "std::option::Option" | "core::option::Option")
+    }
+
     pub fn full(&self) -> String {
         let mut base = match &self.ref_type {
             Some(inner) => match inner {
diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 6cf1864..e8313f7 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -27,7 +27,7 @@ pub fn derive_ser_json_proxy(proxy_type: &str, type_: &str, crate_name: &str) ->
 
 fn ser_proxy_guard(fieldname: &str, field: &Field) -> String {
     if let Some(proxy) = crate::shared::attrs_proxy(&field.attributes) {
-        if field.ty.base() == "Option" {
+        if field.ty.is_option() {
             format!(
                 "{{{fieldname}.as_ref().map(|f| {{let proxy: {proxy} = Into::into(f);proxy}})}}"
             )
@@ -57,7 +57,7 @@ pub fn derive_ser_json_struct(struct_: &Struct, crate_name: &str) -> TokenStream
             }
             let proxied_field = ser_proxy_guard(&format!("self.{struct_fieldname}"), field);
 
-            if field.ty.base() == "Option" {
+            if field.ty.is_option() {
                 let proxy_attr = crate::shared::attrs_proxy(&field.attributes);
                 let struct_null_on_none = shared::attrs_serialize_none_as_null(&struct_.attributes);
                 let field_null_on_none = shared::attrs_serialize_none_as_null(&field.attributes);
@@ -159,11 +159,11 @@ pub fn derive_de_json_named(
                 {
                     val = format!("\"{}\".to_string()", val)
                 }
-                if field.ty.base() == "Option" {
+                if field.ty.is_option() {
                     val = format!("Some({})", val);
                 }
                 Some(val)
-            } else if field.ty.base() != "Option" {
+            } else if !field.ty.is_option() {
                 Some(String::from("Default::default()"))
             } else {
                 Some(String::from("None"))
@@ -180,7 +180,7 @@ pub fn derive_de_json_named(
         let skip = crate::shared::attrs_skip(&field.attributes);
 
         let proxified_t = if let Some(proxy) = proxy {
-            if field.ty.base() == "Option" {
+            if field.ty.is_option() {
                 format!("Some(From::<&{proxy}>::from(&t))")
             } else {
                 format!("From::<&{proxy}>::from(&t)")
@@ -190,7 +190,7 @@ pub fn derive_de_json_named(
         };
 
         if !skip {
-            if field.ty.base() == "Option" || container_attr_default || default_val.is_some() {
+            if field.ty.is_option() || container_attr_default || default_val.is_some() {
                 if let Some(default_val) = default_val {
                     unwraps.push(format!(
                         "{}.map_or_else(|| {}, |t| {})",
@@ -347,7 +347,7 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                             s.field(d+1, \"{}\");",
                             shared::attrs_rename(&field.attributes).unwrap_or(name.clone())
                         );
-                        if field.ty.base() == "Option" {
+                        if field.ty.is_option() {
                             l!(
                                 items,
                                 "if {}.is_some(){{ {} {}.ser_json(d+1, s);}}",
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index f707e75..9687a2e 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -52,7 +52,7 @@ pub fn derive_ser_ron_struct(struct_: &Struct, crate_name: &str) -> TokenStream
         if skip {
             continue;
         }
-        if field.ty.base() == "Option" {
+        if field.ty.is_option() {
             l!(
                 s,
                 "if let Some(t) = &self.{} {{
@@ -156,7 +156,7 @@ pub fn derive_de_ron_named(
     for field in fields.iter() {
         let struct_fieldname = field.field_name.as_ref().unwrap().to_string();
         let localvar = format!("_{}", struct_fieldname);
-        let field_is_option = field.ty.base() == "Option";
+        let field_is_option = field.ty.is_option();
         let field_attr_skip = shared::attrs_skip(&field.attributes);
         let field_attr_default = shared::attrs_default(&field.attributes);
         let field_attr_default_with = shared::attrs_default_with(&field.attributes);
@@ -171,7 +171,7 @@ pub fn derive_de_ron_named(
                 {
                     val = format!("\"{}\".to_string()", val)
                 }
-                if field.ty.base() == "Option" {
+                if field.ty.is_option() {
                     val = format!("Some({})", val);
                 }
                 Some(val)
@@ -384,7 +384,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                     names.push(name.clone());
                     let ron_fieldname =
                         shared::attrs_rename(&field.attributes).unwrap_or(name.clone());
-                    if field.ty.base() == "Option" {
+                    if field.ty.is_option() {
                         l!(
                             inner,
                             "if {}.is_some() {{
-- 
2.43.0


From 0376f1d86ea308aa6231c428d22115790d2b0035 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:39:49 +0000
Subject: [PATCH 41/41] fix: stop at the first error inside a JSON or RON tuple

The element's error was thrown away when no separator followed the place
where it happened, so a missing field in a tuple was not named.
---
 src/serde_json.rs | 4 ++--
 src/serde_ron.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 7aefff6..e19e8e4 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1101,9 +1101,9 @@ fn de_json_comma_block<T>(s: &mut DeJsonState, i: &mut Chars) -> Result<T, DeJso
 where
     T: DeJson,
 {
-    let t = DeJson::de_json(s, i);
+    let t = DeJson::de_json(s, i)?;
     s.eat_comma_block(i)?;
-    t
+    Ok(t)
 }
 
 impl<A, B> SerJson for (A, B)
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 5a59ced..3bcbf2b 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1094,9 +1094,9 @@ fn de_ron_comma_paren<T>(s: &mut DeRonState, i: &mut Chars) -> Result<T, DeRonEr
 where
     T: DeRon,
 {
-    let t = DeRon::de_ron(s, i);
+    let t = DeRon::de_ron(s, i)?;
     s.eat_comma_paren(i)?;
-    t
+    Ok(t)
 }
 
 impl SerRon for () {
-- 
2.43.0

