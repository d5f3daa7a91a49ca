From 93cb41bcad000b351a2538f47bd01775372989b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:48 +0000
Subject: [PATCH 01/27] fix: do not count trailing padding in the segment's
 filesize

filesize was rounded up to 8 while vmsize was not, so most objects had
filesize > vmsize, which Mach-O readers (LLVM tools, lld) reject as malformed.
---
 at-obj/src/macho.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 3455a0f..0a3b78d 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -102,12 +102,12 @@ fn gen_segment_command64(object: &Object) -> SegmentCommand64 {
             + SegmentCommand64::SIZE
             + object.sections().len() * Section64::SIZE
             + SymtabCommand::SIZE) as u64,
+        // 後続のpaddingは含まない. 含めると filesize > vmsize となりうる
         filesize: object
             .sections()
             .iter()
             .map(|sect| sect.file_size())
-            .sum::<u32>()
-            .aligned(8) as u64,
+            .sum::<u32>() as u64,
         // object fileのprotectionは常に7
         // つまりrwxの全てのbitが立っている状態
         maxprot: 7,
-- 
2.43.0


From 680c26c9fd8bf8caca4f8cd2a297c201773e872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:09 +0000
Subject: [PATCH 02/27] fix: use an 8-bit displacement only where sign
 extension keeps its value

disp8 is sign extended by the CPU, so [rax + 200] was encoded as [rax - 56]
and [rax + 256] as [rax + 0].
---
 at-x64/src/encoder/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/at-x64/src/encoder/mod.rs b/at-x64/src/encoder/mod.rs
index febf990..192cbaa 100644
--- a/at-x64/src/encoder/mod.rs
+++ b/at-x64/src/encoder/mod.rs
@@ -310,13 +310,13 @@ impl RegMemLike for Mem64 {
             // treat [RBP] and [R13] as [RBP + 0] and [R13 + 0] resprectively
             RegOffset(RBP | R13, 0) => 0b01,
             RegOffset(_, 0) => 0b00,
-            RegOffset(_, 1..=256) => 0b01,
+            RegOffset(_, 1..=127) => 0b01,
             RegOffset(_, _) => 0b10,
             RipOffset(_) => 0b00,
             Sib { base: None, .. } => 0b00,
             Sib {
                 base: Some(RBP | R13),
-                disp: 0..=256,
+                disp: 0..=127,
                 ..
             } => 0b01,
             Sib {
@@ -324,7 +324,7 @@ impl RegMemLike for Mem64 {
                 ..
             } => 0b10,
             Sib { disp: 0, .. } => 0b00,
-            Sib { disp: 1..=256, .. } => 0b01,
+            Sib { disp: 1..=127, .. } => 0b01,
             Sib { .. } => 0b10,
         }
     }
@@ -370,7 +370,7 @@ impl RegMemLike for Mem64 {
         match self {
             RegOffset(RBP | R13, 0) => BytesAtMost::from(0 as u8),
             RegOffset(_, 0) => BytesAtMost::with_len(0),
-            RegOffset(_, disp @ 1..=256) => BytesAtMost::from(*disp as u8),
+            RegOffset(_, disp @ 1..=127) => BytesAtMost::from(*disp as u8),
             RegOffset(_, disp) => BytesAtMost::from(*disp),
             RipOffset(disp) => BytesAtMost::from(*disp),
             Sib {
@@ -383,7 +383,7 @@ impl RegMemLike for Mem64 {
             } => BytesAtMost::from(0u8),
             Sib { disp: 0, .. } => BytesAtMost::with_len(0),
             Sib {
-                disp: disp @ 1..=256,
+                disp: disp @ 1..=127,
                 ..
             } => BytesAtMost::from(*disp as u8),
             Sib { disp, .. } => BytesAtMost::from(*disp),
-- 
2.43.0


From 3746e84fd8886ff264eb7ff22a4bc431e261443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:10 +0000
Subject: [PATCH 03/27] fix: assemble "push 128".."push 255" with a 32-bit
 immediate

push imm8 sign extends its operand, so "push 200" pushed -56.
---
 at-asm/src/parsers/instruction/push.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/instruction/push.rs b/at-asm/src/parsers/instruction/push.rs
index 26cd032..ad58e6c 100644
--- a/at-asm/src/parsers/instruction/push.rs
+++ b/at-asm/src/parsers/instruction/push.rs
@@ -27,7 +27,8 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
     }
 
     // if operand is u8
-    if let Some(imm) = u8::try_parse_str(operand_str)? {
+    // "push imm8" は符号拡張されるため、127以下の場合のみ使う
+    if let Some(imm) = u8::try_parse_str(operand_str)?.filter(|imm| *imm <= 127) {
         let push = Push::new(imm);
         return Ok(Instruction::new(push));
     }
-- 
2.43.0


From e5bae091bb95acabce3b27f31aea3da7f7b97dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:11 +0000
Subject: [PATCH 04/27] fix: reject trailing tokens after a complete
 instruction

"mov rax, 1 + 2 + 3", "push rax rbx", "push 1 + 2", "ret 8" and "syscall x"
were accepted and the rest of the line silently ignored.
---
 at-asm/src/parsers/expr.rs             | 4 ++++
 at-asm/src/parsers/instruction/mod.rs  | 7 ++++++-
 at-asm/src/parsers/instruction/push.rs | 4 ++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/expr.rs b/at-asm/src/parsers/expr.rs
index 053dd65..6fa3ed7 100644
--- a/at-asm/src/parsers/expr.rs
+++ b/at-asm/src/parsers/expr.rs
@@ -54,6 +54,10 @@ impl ParseStr for Expr {
             _ => return Err(ParseError::new("invalid rhs")),
         };
 
+        if tokens.next().is_some() {
+            return Err(ParseError::eol_expected());
+        }
+
         let res = lhs as i64 + sign_to_u64(sign) * rhs as i64;
 
         Ok(Some(Expr(res as u64)))
diff --git a/at-asm/src/parsers/instruction/mod.rs b/at-asm/src/parsers/instruction/mod.rs
index 9eb96f8..a8d2f55 100644
--- a/at-asm/src/parsers/instruction/mod.rs
+++ b/at-asm/src/parsers/instruction/mod.rs
@@ -40,9 +40,14 @@ impl Instruction {
 
 impl ParseStr for Instruction {
     fn try_parse_str(s: &str) -> Result<Option<Instruction>, ParseError> {
-        match s.split_whitespace().next() {
+        let mut tokens = s.split_whitespace();
+
+        match tokens.next() {
             Some("mov") => Ok(Some(mov::parse_str(s)?)),
             Some("push") => Ok(Some(push::parse_str(s)?)),
+            Some("ret") | Some("syscall") if tokens.next().is_some() => {
+                Err(ParseError::eol_expected())
+            }
             Some("ret") => Ok(Some(Instruction::new(Ret::new()))),
             Some("syscall") => Ok(Some(Instruction::new(Syscall::new()))),
             _ => Ok(None),
diff --git a/at-asm/src/parsers/instruction/push.rs b/at-asm/src/parsers/instruction/push.rs
index ad58e6c..8a80e98 100644
--- a/at-asm/src/parsers/instruction/push.rs
+++ b/at-asm/src/parsers/instruction/push.rs
@@ -20,6 +20,10 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
     };
 
+    if tokens.next().is_some() {
+        return Err(ParseError::eol_expected());
+    }
+
     // if operand is Reg64
     if let Some(reg) = Reg64::try_parse_str(operand_str)? {
         let push = Push::new(reg);
-- 
2.43.0


From 70dcf939bdc3e0007c6bb2573a5b06a60a316dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:12 +0000
Subject: [PATCH 05/27] fix: evaluate 64-bit expressions without signed
 overflow

"mov rax, 0x7fffffffffffffff + 1" and "mov rax, 0x8000000000000000 - 1"
panicked in builds with overflow checks.
---
 at-asm/src/parsers/expr.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/at-asm/src/parsers/expr.rs b/at-asm/src/parsers/expr.rs
index 6fa3ed7..4265245 100644
--- a/at-asm/src/parsers/expr.rs
+++ b/at-asm/src/parsers/expr.rs
@@ -58,9 +58,13 @@ impl ParseStr for Expr {
             return Err(ParseError::eol_expected());
         }
 
-        let res = lhs as i64 + sign_to_u64(sign) * rhs as i64;
+        let res = if sign {
+            lhs.wrapping_add(rhs)
+        } else {
+            lhs.wrapping_sub(rhs)
+        };
 
-        Ok(Some(Expr(res as u64)))
+        Ok(Some(Expr(res)))
     }
 
     fn parse_str(s: &str) -> Result<Self, ParseError> {
@@ -71,10 +75,6 @@ impl ParseStr for Expr {
     }
 }
 
-fn sign_to_u64(sign: bool) -> i64 {
-    sign as i64 * 2 - 1
-}
-
 enum Token {
     Num(u64),
     Plus,
-- 
2.43.0


From 5606a44e88960e7bc4d028f9ae6f8242f86653a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:47 +0000
Subject: [PATCH 06/27] fix: do not treat ";" inside a string literal as a
 comment

db "a;b" was rejected with an unclosed-quote error.
---
 at-asm/src/parsers/line.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/at-asm/src/parsers/line.rs b/at-asm/src/parsers/line.rs
index 9fb9933..811afd9 100644
--- a/at-asm/src/parsers/line.rs
+++ b/at-asm/src/parsers/line.rs
@@ -12,13 +12,26 @@ pub enum Line {
     Instruction(Instruction),
 }
 
+/// 文字列リテラルの外にある最初の ';' 以降を取り除く
+fn strip_comment(s: &str) -> &str {
+    let mut in_str = false;
+    let comment = s.find(|c: char| {
+        if c == '"' {
+            in_str = !in_str;
+        }
+        c == ';' && !in_str
+    });
+
+    match comment {
+        Some(idx) => &s[..idx],
+        None => s,
+    }
+}
+
 impl ParseStr for Line {
     fn parse_str(s: &str) -> Result<Self, ParseError> {
         // コメントを無視
-        let s = match s.split_once(";") {
-            Some((s, _)) => s,
-            None => s,
-        };
+        let s = strip_comment(s);
 
         let mut tokens = s.split_whitespace();
 
-- 
2.43.0


From 8d6f5e555f0de159549007a37fc9b17e5377b0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:47 +0000
Subject: [PATCH 07/27] fix: accept any whitespace after the mov opcode

"mov<TAB>rax, 1" was rejected as "not mov opcode" although the line had been
recognised as a mov, and push accepts tabs.
---
 at-asm/src/parsers/instruction/mov.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/instruction/mov.rs b/at-asm/src/parsers/instruction/mov.rs
index c65863c..b26c5ba 100644
--- a/at-asm/src/parsers/instruction/mov.rs
+++ b/at-asm/src/parsers/instruction/mov.rs
@@ -10,7 +10,7 @@ use at_x64::{
 pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
     let (opcode, remain) = s
         .trim()
-        .split_once(" ")
+        .split_once(char::is_whitespace)
         .ok_or_else(|| ParseError::new("invalid mov instruction format"))?;
     if opcode != "mov" {
         return Err(ParseError::new("not mov opcode"));
-- 
2.43.0


From 1416d9d9638e513025e91962f0043c29f53e21b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:48 +0000
Subject: [PATCH 08/27] fix: accept whitespace between a number and the
 following comma

"db 1 , 2" was rejected, while db "a" , 2 is accepted.
---
 at-asm/src/parsers/data.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/at-asm/src/parsers/data.rs b/at-asm/src/parsers/data.rs
index 61f8b57..5c80ecc 100644
--- a/at-asm/src/parsers/data.rs
+++ b/at-asm/src/parsers/data.rs
@@ -161,8 +161,12 @@ impl<'a> Iterator for DataDefIter<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         fn split_delim_once(s: &str) -> (&str, &str) {
-            match s.split_once(|c: char| c.is_whitespace() || c == ',') {
-                Some((s1, s2)) => (s1, s2.trim_start()),
+            match s.find(|c: char| c.is_whitespace() || c == ',') {
+                Some(idx) => {
+                    let (s1, s2) = s.split_at(idx);
+                    let s2 = s2.trim_start();
+                    (s1, s2.strip_prefix(',').unwrap_or(s2).trim_start())
+                }
                 None => (s, ""),
             }
         }
-- 
2.43.0


From 8dc9c4a407aff82ee835995ed6de2b056bbeb028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:49 +0000
Subject: [PATCH 09/27] fix: strip the 0x prefix of a number only once

"0x0x10" was accepted and read as 0x10.
---
 at-asm/src/parsers/num.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/at-asm/src/parsers/num.rs b/at-asm/src/parsers/num.rs
index 4a167ba..3adbb81 100644
--- a/at-asm/src/parsers/num.rs
+++ b/at-asm/src/parsers/num.rs
@@ -7,8 +7,7 @@ macro_rules! impl_parse_str {
             /// Never error.
             /// Because another number format possibly fit.
             fn try_parse_str(s: &str) -> Result<Option<Self>, ParseError> {
-                if s.starts_with("0x") {
-                    let s = s.trim_start_matches("0x");
+                if let Some(s) = s.strip_prefix("0x") {
                     Ok(Self::from_str_radix(s, 16).ok())
                 } else {
                     Ok(Self::from_str_radix(s, 10).ok())
-- 
2.43.0


From 842cc53b85a44f6d21f98433fb3bf7815adcca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:49 +0000
Subject: [PATCH 10/27] fix: decode a symbolic debugging n_type from the whole
 byte

If any N_STAB bit is set the whole byte is the stab type. Masking it made
N_FUN (0x24), N_STSYM (0x26), ... read back as N_GSYM (0x20).
---
 at-mac/src/nlist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-mac/src/nlist.rs b/at-mac/src/nlist.rs
index 76b1135..f928991 100644
--- a/at-mac/src/nlist.rs
+++ b/at-mac/src/nlist.rs
@@ -91,7 +91,7 @@ impl NTypeField {
                 n_ext,
             }
         } else {
-            NTypeField::Stab(DebugSymbol::from_u8(n_stab))
+            NTypeField::Stab(DebugSymbol::from_u8(n))
         }
     }
 
-- 
2.43.0


From cdd52b57707eae3c25067f76e45dd57d0a17fbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:50 +0000
Subject: [PATCH 11/27] fix: write absolute symbols with n_sect NO_SECT

Mach-O requires N_ABS symbols to have n_sect == NO_SECT, as NType documents.
---
 at-obj/src/macho.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 0a3b78d..fb795d3 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -328,7 +328,7 @@ fn gen_nlist64s(object: &Object, sections: &Vec<Section64>, stab: &StringTable)
                         n_type: NType::Abs,
                         n_ext: *ext,
                     },
-                    n_sect: idx as u8,
+                    n_sect: NList64::NO_SECT,
                     n_desc: 0,
                     n_value: *val,
                 },
-- 
2.43.0


From d9c04962700e31c2b8396362fdd478eeefc24573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:51 +0000
Subject: [PATCH 12/27] fix: keep a section that has symbols but no content

Labels in such a section (any label in .bss, for one) were dropped from the
object file, and a reference to one made writing the object panic.
---
 at-obj/src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-obj/src/object.rs b/at-obj/src/object.rs
index c0ced39..cb8e329 100644
--- a/at-obj/src/object.rs
+++ b/at-obj/src/object.rs
@@ -76,7 +76,7 @@ impl<'a> SectionRef<'a> {
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.vm_size() == 0
+        self.vm_size() == 0 && self.symbols().is_empty()
     }
 
     pub(crate) fn file_data(&self) -> &[u8] {
-- 
2.43.0


From 91d49cc5fb77fa38ef13537348bb317b3ecae69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:20 +0000
Subject: [PATCH 13/27] fix: leave the output file alone when assembling fails

The output was truncated before the source was parsed, so an error replaced a
good object by an empty or partial one that is newer than its source.
---
 at-asm/src/main.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/at-asm/src/main.rs b/at-asm/src/main.rs
index 6c022fb..57e5422 100644
--- a/at-asm/src/main.rs
+++ b/at-asm/src/main.rs
@@ -1,5 +1,5 @@
 use at_asm::Assembler;
-use std::{fs::OpenOptions, path::PathBuf, process::exit};
+use std::{fs::OpenOptions, io::Write as _, path::PathBuf, process::exit};
 
 pub fn main() {
     let config = Config::init();
@@ -9,6 +9,12 @@ pub fn main() {
         .open(&config.input_path)
         .unwrap();
 
+    // アセンブルに成功した場合のみ、output fileを書き換える
+    let mut object = Vec::new();
+    Assembler::new()
+        .read_from(&mut input_file)
+        .write_into(&mut object);
+
     let mut output_file = OpenOptions::new()
         .write(true)
         .truncate(true)
@@ -16,9 +22,7 @@ pub fn main() {
         .open(&config.output_path)
         .unwrap();
 
-    Assembler::new()
-        .read_from(&mut input_file)
-        .write_into(&mut output_file);
+    output_file.write_all(&object).unwrap();
 }
 
 struct Config {
-- 
2.43.0


From 7dae3de92879f3d69142d220aa44e8bb35943f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:33 +0000
Subject: [PATCH 14/27] fix: do not enumerate an extra empty string after the
 last one

---
 at-mac/src/string_table.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/at-mac/src/string_table.rs b/at-mac/src/string_table.rs
index 30358ff..6c72ada 100644
--- a/at-mac/src/string_table.rs
+++ b/at-mac/src/string_table.rs
@@ -29,10 +29,10 @@ impl StringTable {
     }
 
     pub fn iter(&self) -> impl Iterator<Item = &str> {
-        self.as_ref()
-            .split(|b| *b == 0)
-            .skip(1)
-            .map(|bytes| std::str::from_utf8(bytes).unwrap())
+        // 先頭の0を除くと、全ての文字列は0で終わる
+        self.data[1..]
+            .split_inclusive(|b| *b == 0)
+            .map(|bytes| std::str::from_utf8(&bytes[..bytes.len() - 1]).unwrap())
     }
 }
 
-- 
2.43.0


From 15caa24bc31c72840340f96bcc4fba6999cbd9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:34 +0000
Subject: [PATCH 15/27] fix: compare declared command sizes without 32-bit
 wrap-around

---
 at-mac/src/load_command/build_version.rs | 5 ++++-
 at-mac/src/load_command/segment64.rs     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/at-mac/src/load_command/build_version.rs b/at-mac/src/load_command/build_version.rs
index 5366ae4..0337522 100644
--- a/at-mac/src/load_command/build_version.rs
+++ b/at-mac/src/load_command/build_version.rs
@@ -41,7 +41,10 @@ impl BuildVersionCommand {
 
         let ntools = read.read_u32_in(endian);
 
-        assert_eq!(cmdsize, Self::SIZE + BuildToolVersion::SIZE * ntools);
+        assert_eq!(
+            cmdsize as u64,
+            Self::SIZE as u64 + BuildToolVersion::SIZE as u64 * ntools as u64
+        );
 
         BuildVersionCommand {
             cmd,
diff --git a/at-mac/src/load_command/segment64.rs b/at-mac/src/load_command/segment64.rs
index f31991c..4dcddd4 100644
--- a/at-mac/src/load_command/segment64.rs
+++ b/at-mac/src/load_command/segment64.rs
@@ -55,7 +55,10 @@ impl SegmentCommand64 {
         let nsects = read.read_u32_in(endian);
         let flags = read.read_u32_in(endian);
 
-        assert_eq!(cmdsize, Self::SIZE + nsects * Section64::SIZE);
+        assert_eq!(
+            cmdsize as u64,
+            Self::SIZE as u64 + nsects as u64 * Section64::SIZE as u64
+        );
 
         SegmentCommand64 {
             cmd,
-- 
2.43.0


From 5141292adc7d60e08c8f81b24c81e3f9c20a6129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:34 +0000
Subject: [PATCH 16/27] fix: do not accept a "+" sign inside a number

---
 at-asm/src/parsers/num.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/at-asm/src/parsers/num.rs b/at-asm/src/parsers/num.rs
index 3adbb81..9e4316b 100644
--- a/at-asm/src/parsers/num.rs
+++ b/at-asm/src/parsers/num.rs
@@ -7,11 +7,15 @@ macro_rules! impl_parse_str {
             /// Never error.
             /// Because another number format possibly fit.
             fn try_parse_str(s: &str) -> Result<Option<Self>, ParseError> {
-                if let Some(s) = s.strip_prefix("0x") {
-                    Ok(Self::from_str_radix(s, 16).ok())
-                } else {
-                    Ok(Self::from_str_radix(s, 10).ok())
+                let (digits, radix) = match s.strip_prefix("0x") {
+                    Some(digits) => (digits, 16),
+                    None => (s, 10),
+                };
+                // from_str_radixは先頭の"+"を許容するが、数値としては不正
+                if digits.starts_with('+') {
+                    return Ok(None);
                 }
+                Ok(Self::from_str_radix(digits, radix).ok())
             }
 
             fn parse_str(s: &str) -> Result<Self, ParseError> {
-- 
2.43.0


From acf89cfdbfed2220b1002c5f33efe64cfd1fffae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:35 +0000
Subject: [PATCH 17/27] fix: require exactly one comma between data items

---
 at-asm/src/parsers/data.rs | 48 +++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/at-asm/src/parsers/data.rs b/at-asm/src/parsers/data.rs
index 5c80ecc..577a2ea 100644
--- a/at-asm/src/parsers/data.rs
+++ b/at-asm/src/parsers/data.rs
@@ -160,14 +160,16 @@ impl<'a> Iterator for DataDefIter<'a> {
     type Item = Result<DataDef<'a>, ParseError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        fn split_delim_once(s: &str) -> (&str, &str) {
-            match s.find(|c: char| c.is_whitespace() || c == ',') {
-                Some(idx) => {
-                    let (s1, s2) = s.split_at(idx);
-                    let s2 = s2.trim_start();
-                    (s1, s2.strip_prefix(',').unwrap_or(s2).trim_start())
-                }
-                None => (s, ""),
+        // itemの後の区切り文字 "," を取り除く
+        fn skip_delim(s: &str) -> Result<&str, ParseError> {
+            let s = s.trim_start();
+            if s.is_empty() {
+                return Ok(s);
+            }
+            match s.strip_prefix(',').map(str::trim_start) {
+                Some(rmn) if !rmn.is_empty() => Ok(rmn),
+                Some(_) => Err(ParseError::new("data is expected after \",\"")),
+                None => Err(ParseError::new("\",\" is expected between data")),
             }
         }
 
@@ -179,19 +181,27 @@ impl<'a> Iterator for DataDefIter<'a> {
             let (_, s) = self.s.split_at(1);
             match s.split_once('\"') {
                 None => Some(Err(ParseError::new("unclosed \" found"))),
-                Some((str_data, rmn)) => {
-                    self.s = rmn.trim_start_matches(|c: char| c.is_whitespace() || c == ',');
-                    Some(Ok(DataDef::Str(str_data)))
-                }
+                Some((str_data, rmn)) => match skip_delim(rmn) {
+                    Ok(rmn) => {
+                        self.s = rmn;
+                        Some(Ok(DataDef::Str(str_data)))
+                    }
+                    Err(e) => Some(Err(e)),
+                },
             }
         } else {
-            let (s1, s2) = split_delim_once(self.s);
-
-            self.s = s2;
-
-            match u64::parse_str(s1) {
-                Ok(n) => Some(Ok(DataDef::Num(n))),
-                Err(e) => Some(Err(e)),
+            let idx = self
+                .s
+                .find(|c: char| c.is_whitespace() || c == ',')
+                .unwrap_or(self.s.len());
+            let (num_str, rmn) = self.s.split_at(idx);
+
+            match (u64::parse_str(num_str), skip_delim(rmn)) {
+                (Ok(n), Ok(rmn)) => {
+                    self.s = rmn;
+                    Some(Ok(DataDef::Num(n)))
+                }
+                (Err(e), _) | (_, Err(e)) => Some(Err(e)),
             }
         }
     }
-- 
2.43.0


From b83a0d135ea7c5928b12e747adacf342df54143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:36 +0000
Subject: [PATCH 18/27] fix: reject a label without a name or with several
 colons

---
 at-asm/src/parsers/line.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/parsers/line.rs b/at-asm/src/parsers/line.rs
index 811afd9..d697e9a 100644
--- a/at-asm/src/parsers/line.rs
+++ b/at-asm/src/parsers/line.rs
@@ -58,7 +58,10 @@ impl ParseStr for Line {
             if tokens.next().is_some() {
                 return Err(ParseError::new("error: expected end of line."));
             }
-            let symbol = token.trim_end_matches(":");
+            let symbol = match token.strip_suffix(":") {
+                Some(symbol) if !symbol.is_empty() && !symbol.ends_with(":") => symbol,
+                _ => return Err(ParseError::new("invalid label")),
+            };
             return Ok(Line::Symbol(symbol.to_string()));
         }
 
-- 
2.43.0


From c4f02687debe5087b682ab26ba326423d9b7a917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:41 +0000
Subject: [PATCH 19/27] fix: report a mov with a missing or superfluous operand
 at its line

---
 at-asm/src/parsers/instruction/mov.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/at-asm/src/parsers/instruction/mov.rs b/at-asm/src/parsers/instruction/mov.rs
index b26c5ba..942d4d3 100644
--- a/at-asm/src/parsers/instruction/mov.rs
+++ b/at-asm/src/parsers/instruction/mov.rs
@@ -35,7 +35,7 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
 
         // otherwise, second operand is symbol
-        let symbol = operand2_str.to_string();
+        let symbol = parse_symbol(operand2_str)?;
         let mov = Mov::new(dst_reg, 0_u64);
         let reloc = LocalReloc {
             offset: mov.offset_to_imm_bytes(),
@@ -66,7 +66,7 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
         }
 
         // otherwise, second operand is symbol
-        let symbol = operand2_str.to_string();
+        let symbol = parse_symbol(operand2_str)?;
         let mov = Mov::new(dst_reg, 0_u32);
         let reloc = LocalReloc {
             offset: mov.offset_to_imm_bytes(),
@@ -104,6 +104,14 @@ pub fn parse_str(s: &str) -> Result<Instruction, ParseError> {
     Err(ParseError::new("invalid first operand"))
 }
 
+/// symbol名は一つの単語でなければならない
+fn parse_symbol(s: &str) -> Result<String, ParseError> {
+    if s.is_empty() || s.contains(|c: char| c.is_whitespace() || c == ',') {
+        return Err(ParseError::new("invalid second operand"));
+    }
+    Ok(s.to_string())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From d4d1e1638fee2044a1aeaeaf5eab228173d37470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:27 +0000
Subject: [PATCH 20/27] fix: refuse objects whose file offsets or addresses do
 not fit the Mach-O fields

Sizes were computed in 32 bits (wrapping silently for contents of 4 GiB or more,
and for sums of sizes without overflow checks), giving a malformed file.
---
 at-obj/src/macho.rs | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index fb795d3..8111194 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -40,6 +40,8 @@ use std::io::Write;
 
 /// ObjectをMach-O形式で書き込む
 pub fn write_into<W: Write>(object: &Object, write: &mut W) {
+    assert_sizes(object);
+
     // write Header64
     gen_header64(object).write_into(write);
 
@@ -74,6 +76,43 @@ pub fn write_into<W: Write>(object: &Object, write: &mut W) {
     write.write_all(stab.as_ref()).unwrap();
 }
 
+/// file内の位置は32bit, addressは64bitで表現されるため、
+/// それに収まらないobjectは書き込めない.
+fn assert_sizes(object: &Object) {
+    let commands = (Header64::SIZE + SegmentCommand64::SIZE + SymtabCommand::SIZE) as u64
+        + (object.sections().len() * Section64::SIZE) as u64;
+    let contents = object
+        .sections()
+        .iter()
+        .map(|sect| sect.file_data().len() as u64)
+        .sum::<u64>()
+        .aligned(8);
+    let tables = object
+        .sections()
+        .iter()
+        .map(|sect| {
+            sect.relocs().len() as u64 * RelocationInfo::SIZE as u64
+                + sect.symbols().len() as u64 * NList64::SIZE as u64
+                + sect
+                    .symbols()
+                    .iter()
+                    .map(|sym| sym.name().len() as u64 + 1)
+                    .sum::<u64>()
+        })
+        .sum::<u64>()
+        + 1;
+    assert!(
+        commands + contents + tables <= u32::MAX as u64,
+        "object is too large for Mach-O"
+    );
+
+    let vmsize = object
+        .sections()
+        .iter()
+        .try_fold(0_u64, |size, sect| size.checked_add(sect.vm_size()));
+    assert!(vmsize.is_some(), "sections exceed the address space");
+}
+
 /// object形式の `Header64` を生成する.
 /// 現状、x86-64限定.
 fn gen_header64(object: &Object) -> Header64 {
-- 
2.43.0


From d692dbaaa5eb8ead9f9899c1753ddad2aaeee186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:36 +0000
Subject: [PATCH 21/27] fix: refuse symbols whose address exceeds 64 bits

Without overflow checks the value wrapped silently.
---
 at-obj/src/macho.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/at-obj/src/macho.rs b/at-obj/src/macho.rs
index 8111194..97dd2e9 100644
--- a/at-obj/src/macho.rs
+++ b/at-obj/src/macho.rs
@@ -380,7 +380,7 @@ fn gen_nlist64s(object: &Object, sections: &Vec<Section64>, stab: &StringTable)
                     },
                     n_sect: idx as u8,
                     n_desc: 0,
-                    n_value: sections[idx - 1].addr + *addr,
+                    n_value: sections[idx - 1].addr.checked_add(*addr).unwrap(),
                 },
             })
         });
-- 
2.43.0


From 2d5d9a209cc06e79d952ee4783a100cbfe675e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:36 +0000
Subject: [PATCH 22/27] fix: refuse relocation entries whose symbol number or
 type does not fit

A symbol number beyond 24 bits overwrote the other bit-fields, so that an object
with more than 2^24 symbols got relocations against other symbols.
---
 at-mac/src/reloc.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/at-mac/src/reloc.rs b/at-mac/src/reloc.rs
index 449d5cb..250c582 100644
--- a/at-mac/src/reloc.rs
+++ b/at-mac/src/reloc.rs
@@ -78,12 +78,20 @@ impl RelocationInfo {
         }
     }
 
+    /// r_symbolnumは24bit, r_typeは4bitに収まらなければならない
+    fn assert_fields(&self) {
+        assert!(self.r_symbolnum <= 0x00FF_FFFF);
+        assert!(self.r_type <= 0x0F);
+    }
+
     // Mach-O specification does not clearly specify
     // memory layout of these fields. So we assume that
     // order of bit-fields follows ordinary manner
     // (inverse order if little endian, and vice versa).
     #[cfg(target_endian = "little")]
     pub fn write_into(self, write: &mut impl Write) {
+        self.assert_fields();
+
         write.write_i32_native(self.r_address);
 
         let mut infos: u32 = 0;
@@ -101,6 +109,8 @@ impl RelocationInfo {
     // (inverse order if little endian, and vice versa).
     #[cfg(target_endian = "big")]
     pub fn write_into(self, write: &mut impl Write) {
+        self.assert_fields();
+
         write.write_i32_native(self.r_address);
 
         let mut infos: u32 = 0;
-- 
2.43.0


From 5a83cf83551743079fcce9cfa65c9feed030510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:37 +0000
Subject: [PATCH 23/27] fix: refuse label operands beyond 2 GiB of a section

The relocation offset was cut to 32 bits and became negative.
---
 at-asm/src/assembler.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/at-asm/src/assembler.rs b/at-asm/src/assembler.rs
index e78accf..308babf 100644
--- a/at-asm/src/assembler.rs
+++ b/at-asm/src/assembler.rs
@@ -2,6 +2,7 @@ use crate::parsers::{Line, ParseStr as _, Section};
 use crate::reader::Reader;
 use at_obj::{macho, BssSection, DataSection, Object, Reloc, Symbol, TextSection};
 use std::{
+    convert::TryFrom as _,
     io::{Read, Write},
     process::exit,
 };
@@ -80,8 +81,10 @@ impl Assembler {
                 }
                 Line::Instruction(inst) => {
                     if let Some(loc_reloc) = inst.reloc {
+                        let addr = self.cur_sect_mut().size() + loc_reloc.offset as u64;
                         let reloc = Reloc {
-                            addr: self.cur_sect_mut().size() as i32 + loc_reloc.offset as i32,
+                            // Mach-Oのrelocationのaddressは32bit符号付き整数
+                            addr: i32::try_from(addr).unwrap(),
                             symbol: loc_reloc.symbol,
                             pcrel: loc_reloc.pcrel,
                             len: loc_reloc.len,
-- 
2.43.0


From 3acac763251a831f7eaec7959f03bbfdcc0f1ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:08 +0000
Subject: [PATCH 24/27] fix: refuse names that contain NUL

Such a name could not be found again in the string table, so its symbol got a
name offset past the end of the table; record names were cut at the NUL.
---
 at-mac/src/io.rs           | 1 +
 at-mac/src/string_table.rs | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/at-mac/src/io.rs b/at-mac/src/io.rs
index 20fb7ba..4c4fe00 100644
--- a/at-mac/src/io.rs
+++ b/at-mac/src/io.rs
@@ -84,6 +84,7 @@ pub trait WriteExt: Write + WriteBytesExt {
 
     fn write_fixed_size_string(&mut self, s: &str, size: usize) {
         assert!(s.is_ascii());
+        assert!(!s.contains('\0'));
         assert!(s.len() <= size);
 
         let mut buf = vec![0u8; size];
diff --git a/at-mac/src/string_table.rs b/at-mac/src/string_table.rs
index 6c72ada..73e9bcb 100644
--- a/at-mac/src/string_table.rs
+++ b/at-mac/src/string_table.rs
@@ -19,6 +19,10 @@ impl StringTable {
             if !c.is_ascii() {
                 panic!("could not push non-ascii char");
             }
+            // 終端と区別できない
+            if c == '\0' {
+                panic!("could not push null char");
+            }
             self.data.push(c as u8);
         }
         self.data.push(0);
-- 
2.43.0


From 7a3c0b5c95e93ef3613c6800aa21c2c4fd22133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:32 +0000
Subject: [PATCH 25/27] fix: refuse a label that is defined twice

---
 at-asm/src/assembler.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/at-asm/src/assembler.rs b/at-asm/src/assembler.rs
index 308babf..d852154 100644
--- a/at-asm/src/assembler.rs
+++ b/at-asm/src/assembler.rs
@@ -2,6 +2,7 @@ use crate::parsers::{Line, ParseStr as _, Section};
 use crate::reader::Reader;
 use at_obj::{macho, BssSection, DataSection, Object, Reloc, Symbol, TextSection};
 use std::{
+    collections::HashSet,
     convert::TryFrom as _,
     io::{Read, Write},
     process::exit,
@@ -11,6 +12,7 @@ pub struct Assembler {
     cur_sect: Section,
     cur_line: u32,
     obj: Object,
+    labels: HashSet<String>,
     ext_symbols: Vec<String>,
 }
 
@@ -20,6 +22,7 @@ impl Assembler {
             cur_sect: Section::Text,
             cur_line: 0,
             obj: Object::new(),
+            labels: HashSet::new(),
             ext_symbols: Vec::new(),
         }
     }
@@ -36,6 +39,17 @@ impl Assembler {
         self.cur_sect = cur_sect;
     }
 
+    /// 同じ名前のlabelは一度しか定義できない
+    fn define_label(&mut self, name: &str) {
+        if !self.labels.insert(name.to_string()) {
+            eprintln!(
+                "error at line {}: label {:?} is already defined",
+                self.cur_line, name
+            );
+            exit(1);
+        }
+    }
+
     pub fn read_from<R: Read>(&mut self, read: &mut R) -> &mut Self {
         let mut reader = Reader::new(read);
 
@@ -59,6 +73,7 @@ impl Assembler {
                     self.ext_symbols.push(symbol_name);
                 }
                 Line::Symbol(name) => {
+                    self.define_label(&name);
                     let mut cur_sect_mut = self.cur_sect_mut();
                     let symbol = Symbol::Ref {
                         name,
@@ -68,6 +83,9 @@ impl Assembler {
                     cur_sect_mut.push_symbol(symbol);
                 }
                 Line::Data(data) => {
+                    if let Some(label) = &data.label {
+                        self.define_label(label);
+                    }
                     let mut cur_sect_mut = self.cur_sect_mut();
                     if let Some(label) = data.label {
                         let symbol = Symbol::Ref {
-- 
2.43.0


From 181ea187ec26d31fe3730068215116fd415acfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:03 +0000
Subject: [PATCH 26/27] fix: compare header flags as a set, not by the order
 they were pushed in

---
 at-mac/src/header.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/at-mac/src/header.rs b/at-mac/src/header.rs
index f29a2e0..968c4e6 100644
--- a/at-mac/src/header.rs
+++ b/at-mac/src/header.rs
@@ -207,11 +207,18 @@ impl Flag {
     }
 }
 
-#[derive(Clone, PartialEq, Eq)]
+#[derive(Clone, Eq)]
 pub struct Flags {
     flags: Vec<Flag>,
 }
 
+/// 集合としての比較. pushされた順番や回数は影響しない
+impl PartialEq for Flags {
+    fn eq(&self, other: &Self) -> bool {
+        self.to_u32() == other.to_u32()
+    }
+}
+
 impl Flags {
     pub fn new() -> Flags {
         Flags { flags: Vec::new() }
-- 
2.43.0


From 7ddf8ae7bc5c58ebeb29c08007aa5036d5b38806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:03 +0000
Subject: [PATCH 27/27] fix: compare section attributes as a set, not by the
 order they were pushed in

---
 at-mac/src/load_command/segment64.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/at-mac/src/load_command/segment64.rs b/at-mac/src/load_command/segment64.rs
index 4dcddd4..650785c 100644
--- a/at-mac/src/load_command/segment64.rs
+++ b/at-mac/src/load_command/segment64.rs
@@ -235,11 +235,18 @@ impl SectionAttr {
     }
 }
 
-#[derive(Clone, PartialEq, Eq)]
+#[derive(Clone, Eq)]
 pub struct SectionAttrs {
     attrs: Vec<SectionAttr>,
 }
 
+/// 集合としての比較. pushされた順番や回数は影響しない
+impl PartialEq for SectionAttrs {
+    fn eq(&self, other: &Self) -> bool {
+        self.to_u32() == other.to_u32()
+    }
+}
+
 impl SectionAttrs {
     pub const BIT_MASK: u32 = 0xffffff00;
 
-- 
2.43.0

