From 6dd421efe1ddd2524b60022ecb54a6e48c05837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 01/27] fix: encode_text no longer grows its vector past the
 allocation

---
 src/dbcharconv.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/dbcharconv.rs b/src/dbcharconv.rs
index 9c04a41..ad2251b 100644
--- a/src/dbcharconv.rs
+++ b/src/dbcharconv.rs
@@ -35,15 +35,10 @@ pub fn encode_char(ch: char) -> (u8, u8) {
 }
 
 pub fn encode_text(text: &str) -> Vec<u8> {
-    let mut res = text.chars()
+    text.chars()
         .map(|c| encode_char(c))
-        .collect::<Vec<(u8, u8)>>();
-
-    unsafe {
-        res.set_len(res.len() * 2);
-        std::mem::transmute(res)
-    }
-
+        .flat_map(|(high, low)| [high, low])
+        .collect()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 05c7b9c0e18bc9fa701ee97e9fd9db11c010d214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:32 +0000
Subject: [PATCH 02/27] fix: keep schema components in id order so that output
 is deterministic

---
 src/file.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 3c31271..69321c3 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -2,18 +2,18 @@ use crate::component;
 
 use serde::{Deserialize, Serialize};
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 #[derive(Serialize, Deserialize)]
 pub struct FmpFile {
     pub name: String,
-    pub tables: HashMap<usize, component::FMComponentTable>,
-    pub relationships: HashMap<usize, component::FMComponentRelationship>,
-    pub layouts: HashMap<usize, component::FMComponentLayout>,
-    pub value_lists: HashMap<usize, component::FMComponentValueList>,
-    pub scripts: HashMap<usize, component::FMComponentScript>,
-    pub table_occurrences: HashMap<usize, component::FMComponentTableOccurence>,
-    pub data_sources: HashMap<usize, component::FMComponentDataSource>,
+    pub tables: BTreeMap<usize, component::FMComponentTable>,
+    pub relationships: BTreeMap<usize, component::FMComponentRelationship>,
+    pub layouts: BTreeMap<usize, component::FMComponentLayout>,
+    pub value_lists: BTreeMap<usize, component::FMComponentValueList>,
+    pub scripts: BTreeMap<usize, component::FMComponentScript>,
+    pub table_occurrences: BTreeMap<usize, component::FMComponentTableOccurence>,
+    pub data_sources: BTreeMap<usize, component::FMComponentDataSource>,
     pub tests: Vec<component::FMComponentTest>,
 }
 
@@ -21,13 +21,13 @@ impl FmpFile {
     pub fn new() -> Self {
         Self {
             name: String::new(),
-            tables: HashMap::new(),
-            relationships: HashMap::new(),
-            layouts: HashMap::new(),
-            value_lists: HashMap::new(),
-            scripts: HashMap::new(),
-            table_occurrences: HashMap::new(),
-            data_sources: HashMap::new(),
+            tables: BTreeMap::new(),
+            relationships: BTreeMap::new(),
+            layouts: BTreeMap::new(),
+            value_lists: BTreeMap::new(),
+            scripts: BTreeMap::new(),
+            table_occurrences: BTreeMap::new(),
+            data_sources: BTreeMap::new(),
             tests: vec![],
         }
     }
-- 
2.43.0


From 66edcbbb7ab052b70c4e1a4af9e741931b99c96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:32 +0000
Subject: [PATCH 03/27] fix: number parsed relationships by their own count so
 none is overwritten

---
 src/compile/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index bcda58d..c4a4c35 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -81,7 +81,7 @@ impl Parser {
                             }
                         }
                     }
-                    ret.relationships.insert(ret.tables.len() + 1, relationship);
+                    ret.relationships.insert(ret.relationships.len() + 1, relationship);
                 },
                 TokenType::ValueList => {
                     let mut value_list = FMComponentValueList::new();
-- 
2.43.0


From d3a231fee04e5b47071f520e3cbdf45aed7b20bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:32 +0000
Subject: [PATCH 04/27] fix: parentheses and commas inside a string literal do
 not split arguments

---
 src/burn_script/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index 8280a00..105a08b 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -77,7 +77,7 @@ impl Lexer {
                                 in_string = !in_string;
                                 buffer.push(*c);
                             }
-                            ')' => {
+                            ')' if !in_string => {
                                 if stack == 0 {
                                     ret.push(Token::with_value(TokenType::Argument, &buffer));
                                     buffer.clear();
@@ -87,11 +87,11 @@ impl Lexer {
                                     stack -= 1;
                                 }
                             },
-                            '(' => {
+                            '(' if !in_string => {
                                 stack += 1;
                                 buffer.push(*c);
                             }
-                            ',' => {
+                            ',' if !in_string => {
                                 if stack == 0 {
                                     ret.push(Token::with_value(TokenType::Argument, &buffer));
                                     buffer.clear();
-- 
2.43.0


From b04c942b78c6929590696ca38cec8ba214f57480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 05/27] fix: whitespace around a script step argument is not
 part of it

---
 src/burn_script/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index 105a08b..7f8f978 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -79,7 +79,7 @@ impl Lexer {
                             }
                             ')' if !in_string => {
                                 if stack == 0 {
-                                    ret.push(Token::with_value(TokenType::Argument, &buffer));
+                                    ret.push(Token::with_value(TokenType::Argument, buffer.trim()));
                                     buffer.clear();
                                     break;
                                 } else {
@@ -93,7 +93,7 @@ impl Lexer {
                             }
                             ',' if !in_string => {
                                 if stack == 0 {
-                                    ret.push(Token::with_value(TokenType::Argument, &buffer));
+                                    ret.push(Token::with_value(TokenType::Argument, buffer.trim()));
                                     buffer.clear();
                                 } else {
                                     buffer.push(*c);
-- 
2.43.0


From 470c5814497e1f2e062061061d10e6cfc1d7b1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 06/27] fix: a square bracket inside a string literal does not
 end a script block

---
 src/compile/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 6ed2a06..7c60c0b 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -47,8 +47,12 @@ pub fn tokenize(code: &str) -> Vec<Token> {
             c = lex_iter.next().unwrap().1;
         }
 
+        let mut in_literal = false;
         while in_script == true {
-            if c == ']' {
+            if c == '"' {
+                in_literal = !in_literal;
+            }
+            if c == ']' && !in_literal {
                 list.push(Token { ttype: TokenType::Script, text: buffer.to_string()});
                 in_script = false;
                 buffer.clear();
-- 
2.43.0


From b77ca9a14af43e5ec038ca5ad6d26c1fb533f77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:20 +0000
Subject: [PATCH 07/27] fix: decompiled table occurrences and relationships
 keep their own ids

---
 src/decompile/decompiler.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 79d1c4e..a3d02e5 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -247,7 +247,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
 
     let mut data_source_names = VecDeque::<String>::new();
-
+    let mut current_occurrence: usize = 0;
 
     while idx != 0 {
         let start = idx * SECTOR_SIZE;
@@ -271,17 +271,18 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 ["3", "17", "5", "0", "251"] => {
                     if chunk.ctype == ChunkType::DataSimple {
                         let mut tmp = component::FMComponentRelationship::new();
-                        tmp.table1 = fmp_file.table_occurrences.len() as u16;
+                        tmp.table1 = current_occurrence as u16;
                         tmp.table2 = chunk.data.unwrap()[2] as u16;
-                        if fmp_file.relationships.iter()
-                            .filter(|x| x.1.table1 == tmp.table2 && x.1.table2 == tmp.table1)
-                            .collect::<Vec<_>>().len() == 0 {
-                            fmp_file.relationships.insert(fmp_file.relationships.len() + 1, tmp);
-                        }
+                        /* Listed by both of its occurrences, under the same id. */
+                        let id = chunk.data.unwrap()[4] as usize;
+                        fmp_file.relationships.entry(id).or_insert(tmp);
                     }
                 },
                 /* Examining table occurences */
                 ["3", "17", "5", "0", ..] => {
+                    if chunk.ctype == ChunkType::PathPush && path.len() == 4 {
+                        current_occurrence = *chunk.data.unwrap().last().unwrap() as usize;
+                    }
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                     match chunk.ref_simple {
                         Some(2) => {
@@ -295,11 +296,11 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
 
                             let source = chunk.data.unwrap()[2];
                             println!("{:?}", source);
-                            fmp_file.table_occurrences.insert(fmp_file.table_occurrences.len() + 1, tmp);
+                            fmp_file.table_occurrences.insert(current_occurrence, tmp);
                         }
                         Some(16) => {
                             fmp_file.table_occurrences
-                                .get_mut(&(fmp_file.table_occurrences.len())).unwrap()
+                                .get_mut(&current_occurrence).unwrap()
                                 .table_occurence_name = s;
                         },
                         Some(129) => {
-- 
2.43.0


From bbeeecf8da5a7ee5a08753360dea24eac10fc480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 08/27] fix: reopening a directory in a later sector keeps what
 was already read

---
 src/decompile/decompiler.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index a3d02e5..2badd20 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -355,10 +355,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 /* Examing layouts */
                 ["4", "1", "7", x, ..] => {
                     if chunk.ctype == ChunkType::PathPush {
-                        fmp_file.layouts.insert(
-                            x.parse::<usize>().unwrap(),
-                            component::FMComponentLayout::new()
-                            );
+                        fmp_file.layouts
+                            .entry(x.parse::<usize>().unwrap())
+                            .or_insert(component::FMComponentLayout::new());
                         continue;
                     } else {
                         match chunk.ref_simple {
@@ -397,8 +396,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             }
                             fmp_file.tables.get_mut(&(x.parse::<usize>().unwrap() - 128))
                                 .unwrap().fields
-                                    .insert(y.parse::<usize>().unwrap() as u16, 
-                                            component::FMComponentField::new());
+                                    .entry(y.parse::<usize>().unwrap() as u16)
+                                    .or_insert(component::FMComponentField::new());
                         } else {
                             let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                             // match chunk.ref_simple.unwrap_or(0) {
@@ -471,7 +470,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 ["3", "16", "5", x] => {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                     if chunk.ctype == ChunkType::PathPush {
-                        if !fmp_file.tables.contains_key(&x.parse().unwrap()) {
+                        if !fmp_file.tables.contains_key(&(x.parse::<usize>().unwrap() - 128)) {
                             fmp_file.tables.insert(x.parse::<usize>().unwrap() - 128, component::FMComponentTable::new());
                         } 
                     } else {
-- 
2.43.0


From fb228a90e20636f7ee5a73900bda83abc20d0eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 09/27] fix: perform_script steps of decompiled scripts name
 their target as a text literal

---
 src/decompile/decompiler.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 2badd20..4b9d831 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -596,7 +596,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                     match oc {
                                         Some(Instruction::PerformScript) => {
                                             switch.push(
-                                                fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name.clone()
+                                                format!("\"{}\"", fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name)
                                             );
                                         },
                                         _ => {}
@@ -626,7 +626,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                         match oc {
                                             Some(Instruction::PerformScript) => {
                                                 switch.push(
-                                                    fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name.clone()
+                                                    format!("\"{}\"", fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name)
                                                 );
                                             },
                                             _ => {}
@@ -762,7 +762,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 let mut switch: Vec<String> = vec![];
                 match op {
                     Some(Instruction::PerformScript) => {
-                        switch.push(fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name.clone());
+                        switch.push(format!("\"{}\"", fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name));
                     },
                     _ => {}
                 }
-- 
2.43.0


From 8993adef165759d54a7fbb148a55fece9a20b94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:00 +0000
Subject: [PATCH 10/27] fix: chunk 0x1F skips its reference and an unknown 0x0F
 form is an error instead of a hang

---
 src/chunk.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/chunk.rs b/src/chunk.rs
index c96b2ed..53532a5 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -140,6 +140,8 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
                 *offset += 2;
                 data = Some(&code[*offset..*offset+len]);
                 *offset += len;
+            } else {
+                return Err("Invalid Opcode for Chunk.");
             }
         },
         0x10 => {
@@ -218,6 +220,7 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
             let ref_len = code[*offset] as usize;
             *offset += 1;
             ref_data = Some(&code[*offset..*offset+ref_len]);
+            *offset += ref_len;
             let len = get_int(&code[*offset..*offset+2]);
             *offset += 2;
             data = Some(&code[*offset..*offset+len]);
-- 
2.43.0


From 36e40352e0d6dd266b823db19108959499b2fb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 11/27] fix: chunk 0x17 carries a plain two byte length like
 0x07, 0x0F and 0x1F

---
 src/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index 53532a5..5b5a502 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -172,7 +172,7 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
             ctype = ChunkType::RefLong;
             ref_data = Some(&code[*offset..*offset+3]);
             *offset += 3;
-            let len = get_path_int(&code[*offset..*offset+2]);
+            let len = get_int(&code[*offset..*offset+2]);
             *offset += 2;
             data = Some(&code[*offset..*offset+len]);
             *offset += len;
-- 
2.43.0


From a16971d6e4ec3187308adf207b491420a7b0e8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 12/27] fix: text in decompiled calculations keeps its
 non-ASCII characters

---
 src/decompile/decompiler.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 4b9d831..6dc055c 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -72,13 +72,13 @@ fn decompile_calculation(bytecode: &[u8]) -> String {
             0x13 => {
                 /* Processing String */
                 let n = it.next();
-                let mut s = String::new();
+                let mut s = Vec::<u8>::new();
                 for i in 1..=*n.unwrap() as usize {
-                    s.push(*it.next().unwrap() as char);
+                    s.push(*it.next().unwrap());
                 }
                 let mut text = String::new();
                 text.push('"');
-                text.push_str(&fm_string_decrypt(s.as_bytes()));
+                text.push_str(&fm_string_decrypt(&s));
                 text.push('"');
 
                 result.push_str(&text);
@@ -86,11 +86,11 @@ fn decompile_calculation(bytecode: &[u8]) -> String {
             0x1a => {
                 /* decode variable */
                 let n = it.next();
-                let mut name_arr = String::new();
+                let mut name_arr = Vec::<u8>::new();
                 for i in 1..=*n.unwrap() as usize {
-                    name_arr.push(*it.next().unwrap() as char);
+                    name_arr.push(*it.next().unwrap());
                 }
-                let name = fm_string_decrypt(name_arr.as_bytes());
+                let name = fm_string_decrypt(&name_arr);
                 result.push_str(&name);
             },
             0x25 => {
-- 
2.43.0


From 860717b623124b8d78b987acf7789b3fbb7179bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:19 +0000
Subject: [PATCH 13/27] fix: whitespace tokens of decompiled calculations are
 not turned into text literals

---
 src/decompile/decompiler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 6dc055c..53b279e 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -127,7 +127,12 @@ fn decompile_calculation(bytecode: &[u8]) -> String {
                 result.push('&');
             }
             0xC => {
+                /* Whitespace between tokens: a string that is not a literal. */
                 result.push(' ');
+                if it.next_if(|n| **n == 0x13).is_some() {
+                    let n = *it.next().unwrap() as usize;
+                    it.by_ref().take(n).for_each(drop);
+                }
             }
             _ => {
 
-- 
2.43.0


From 92a8db5ddee1dfd0a6b82c2467b6dde3971cb130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:05 +0000
Subject: [PATCH 14/27] verif: guarded hook for the out-of-tree verification
 driver (cfg burn_verif)

---
 src/main.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index d8732f4..ac49736 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,5 @@
 #![allow(unused)]
+#![allow(unexpected_cfgs)]
 use std::{fs::{write, File}, io::Read, path::Path};
 use clap::Parser;
 use compile::{assembler::Assembler, compiler::compile_burn};
@@ -18,7 +19,21 @@ mod fm_script_engine;
 mod testing;
 mod dbcharconv;
 
+/* Verification driver: only compiled with `--cfg burn_verif`. The source is
+ * supplied from outside of the repository through BURN_VERIF_DRIVER. */
+#[cfg(burn_verif)]
+#[path = "testing/relation_mgr.rs"]
+mod verif_relation_mgr;
+#[cfg(burn_verif)]
+mod verif {
+    include!(env!("BURN_VERIF_DRIVER"));
+}
+
 fn main() {
+    #[cfg(burn_verif)]
+    if verif::entry() {
+        return;
+    }
 
     let args = cli::CLI::parse();
 
-- 
2.43.0


From 998d38902e1ab66cfac3af9662ab3c36af722bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:48 +0000
Subject: [PATCH 15/27] fix: a brace inside a string literal does not end a
 calculation

---
 src/compile/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 7c60c0b..4182ff3 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -62,8 +62,12 @@ pub fn tokenize(code: &str) -> Vec<Token> {
             c = lex_iter.next().unwrap().1;
         }
 
+        let mut in_literal = false;
         while in_calc == true {
-            if c == '}' {
+            if c == '"' {
+                in_literal = !in_literal;
+            }
+            if c == '}' && !in_literal {
                 list.push(Token { ttype: TokenType::Calculation, text: buffer.to_string()});
                 in_calc = false;
                 buffer.clear();
-- 
2.43.0


From 8a46f29f2e56fbd8893a3d8361e0447d9581081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:06 +0000
Subject: [PATCH 16/27] fix: step codes or step data of unknown steps no longer
 stop the decompiler

---
 src/decompile/decompiler.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 53b279e..9f88078 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -506,11 +506,10 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     match chunk.ref_simple.unwrap_or(0).to_string().as_str() {
                         "5" => {
                             let instrs = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap().instructions;
-                            let instruction_idx = instrs
+                            let Some(instruction_idx) = instrs
                                 .iter()
-                                .enumerate()
-                                .filter(|x| x.1.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0].0;
+                                .position(|x| x.index == step.parse::<usize>().unwrap())
+                                else { continue; };
 
                             // println!("Searching for {step}. instructions for script {script} == {}", instrs.len());
 
@@ -546,11 +545,11 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             // let mut step = &mut fmp_file.scripts.get_mut(&x.parse().unwrap()).unwrap()
                             //     .instructions.get_mut(&y.parse().unwrap());
 
-                            let instr = &mut fmp_file.scripts
+                            let Some(instr) = fmp_file.scripts
                                 .get_mut(&script.parse().unwrap()).unwrap()
                                 .instructions.iter_mut()
-                                .filter(|x| x.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0];
+                                .find(|x| x.index == step.parse::<usize>().unwrap())
+                                else { continue; };
 
                             // println!("Searching for {step}. instructions for script {script}");
 
@@ -571,9 +570,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     match chunk.ref_simple.unwrap_or(0).to_string().as_str() {
                         "5" => {
                             let calc = decompile_calculation(chunk.data.unwrap());
-                            let instr = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap()
-                                .instructions.iter_mut().filter(|x| x.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0];
+                            let Some(instr) = fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap()
+                                .instructions.iter_mut().find(|x| x.index == step.parse::<usize>().unwrap())
+                                else { continue; };
                                 instr.switches.push(calc);
                         },
                         _ => {
@@ -595,7 +594,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             let instrs = chunk.data.unwrap().chunks(28);
                             for (i, ins) in instrs.enumerate() {
                                 if ins.len() >= 21 {
-                                let oc = &INSTRUCTIONMAP[ins[21] as usize];
+                                let oc = INSTRUCTIONMAP.get(ins[21] as usize).unwrap_or(&None);
                                 if oc.is_some() {
                                     let mut switch: Vec<String> = vec![];
                                     match oc {
@@ -625,7 +624,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                 let instrs = chunk.data.unwrap().chunks(28);
                                 for ins in instrs {
                                     if ins.len() >= 21 {
-                                    let oc = &INSTRUCTIONMAP[ins[21] as usize];
+                                    let oc = INSTRUCTIONMAP.get(ins[21] as usize).unwrap_or(&None);
                                     if oc.is_some() {
                                         let mut switch: Vec<String> = vec![];
                                         match oc {
@@ -762,7 +761,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
             if instr.len() < 28 {
                 continue;
             }
-            let op = &INSTRUCTIONMAP[instr[21] as usize];
+            let op = INSTRUCTIONMAP.get(instr[21] as usize).unwrap_or(&None);
             if op.is_some() {
                 let mut switch: Vec<String> = vec![];
                 match op {
-- 
2.43.0


From 14eb33b0e845a15852072cd83af8b6a212e1e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:06 +0000
Subject: [PATCH 17/27] fix: steps of a long script stay in stored order
 instead of being inserted at their step number

---
 src/decompile/decompiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 9f88078..56fc795 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -613,7 +613,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                     };
                                     let handle = &mut fmp_file.scripts
                                         .get_mut(&x.parse().unwrap()).unwrap().instructions;
-                                        handle.insert(n, tmp);
+                                        handle.push(tmp);
                                     }
                                 }
                             }
-- 
2.43.0


From abc3446c8dc8a8cb8be213be944937f97602c7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:17 +0000
Subject: [PATCH 18/27] fix: step data of scripts stored in segments goes to
 their steps instead of a crash

---
 src/decompile/decompiler.rs | 65 ++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 56fc795..f95fb1c 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -216,6 +216,34 @@ fn print_chunk(chunk: &chunk::Chunk, path: &Vec<String>) {
     }
 }
 
+/* Decodes the steps of a script that is stored in segments. */
+fn assemble_script(fmp_file: &mut FmpFile, script: usize, segments: &BTreeMap<usize, Vec<u8>>) {
+    let instructions: Vec<u8> = segments.values().flatten().copied().collect();
+
+    for instr in instructions.chunks(28) {
+        if instr.len() < 28 {
+            continue;
+        }
+        let op = INSTRUCTIONMAP.get(instr[21] as usize).unwrap_or(&None);
+        if op.is_some() {
+            let mut switch: Vec<String> = vec![];
+            match op {
+                Some(Instruction::PerformScript) => {
+                    switch.push(format!("\"{}\"", fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name));
+                },
+                _ => {}
+            }
+            let tmp = ScriptStep {
+                opcode: op.clone().unwrap(),
+                index: crate::encoding_util::get_path_int(&instr[2..instr[0] as usize + 1]),
+                switches: switch,
+            };
+            let handle = fmp_file.scripts.get_mut(&script).unwrap();
+            handle.instructions.insert(handle.instructions.len(), tmp);
+        }
+    }
+}
+
 pub fn decompile_fmp12_file_with_header(path: &Path) -> FmpFile {
     let mut file = File::open(path).expect("unable to open file.");
     let mut buffer = Vec::<u8>::new();
@@ -501,6 +529,12 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             .insert(n, chunk.data.unwrap().to_vec());
                     }
                 },
+                /* The data of a script's steps follows its code. */
+                ["17", "5", script, "5"] => {
+                    if let Some(segments) = script_segments.remove(&script.parse().unwrap()) {
+                        assemble_script(&mut fmp_file, script.parse().unwrap(), &segments);
+                    }
+                },
                 ["17", "5", script, "5", step, "128", "5"] => {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                     match chunk.ref_simple.unwrap_or(0).to_string().as_str() {
@@ -751,35 +785,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
         idx = sectors[idx].next;
     }
     /* Assemble scripts */
-    for (script, segments) in &mut script_segments {
-        let mut instructions = Vec::<u8>::new();
-        for s in segments {
-            instructions.append(s.1);
-        }
-
-        for instr in instructions.chunks(28) {
-            if instr.len() < 28 {
-                continue;
-            }
-            let op = INSTRUCTIONMAP.get(instr[21] as usize).unwrap_or(&None);
-            if op.is_some() {
-                let mut switch: Vec<String> = vec![];
-                match op {
-                    Some(Instruction::PerformScript) => {
-                        switch.push(format!("\"{}\"", fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name));
-                    },
-                    _ => {}
-                }
-                let tmp = ScriptStep {
-                    opcode: op.clone().unwrap(),
-                    index: crate::encoding_util::get_path_int(&instr[2..instr[0] as usize + 1]),
-                    switches: switch,
-                };
-                let handle = fmp_file.scripts.get_mut(&script).unwrap();
-                handle.instructions.insert(handle.instructions.len(), tmp);
-            }
-
-        }
+    for (script, segments) in &script_segments {
+        assemble_script(&mut fmp_file, *script, segments);
     }
     // for script in &fmp_file.scripts {
     //     println!("{:?}", script.1.script_name);
-- 
2.43.0


From 6b109388731fad053a32e46a128205d0d3d22d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:41 +0000
Subject: [PATCH 19/27] fix: a sector that ends inside a relationship list no
 longer stops the decompiler

---
 src/decompile/decompiler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index f95fb1c..a6e54df 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -302,7 +302,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
             match &path.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
                 /* Examining relatinoships of table occurences */
                 ["3", "17", "5", "0", "251"] => {
-                    if chunk.ctype == ChunkType::DataSimple {
+                    /* Unused space at the end of a sector reads as empty data. */
+                    if chunk.ctype == ChunkType::DataSimple && !chunk.data.unwrap().is_empty() {
                         let mut tmp = component::FMComponentRelationship::new();
                         tmp.table1 = current_occurrence as u16;
                         tmp.table2 = chunk.data.unwrap()[2] as u16;
-- 
2.43.0


From e0a707e10e07de5cb88f22219bd5602452252b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:36 +0000
Subject: [PATCH 20/27] fix: external data sources get their own names instead
 of those at their place in the name index

---
 src/decompile/decompiler.rs | 42 +++++++++++++------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index a6e54df..399b424 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -2,7 +2,7 @@ use std::char::decode_utf16;
 use std::fs::{File, write};
 use std::io::Read;
 use std::path::Path;
-use std::collections::{BTreeMap, HashMap, VecDeque};
+use std::collections::{BTreeMap, HashMap};
 
 use crate::component::{FMComponentDataSource, RelationComparison, SourceFileLocation};
 use crate::fm_script_engine::fm_script_engine_instructions::{ScriptStep, INSTRUCTIONMAP, Instruction};
@@ -279,7 +279,6 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     let mut idx = 2;
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
 
-    let mut data_source_names = VecDeque::<String>::new();
     let mut current_occurrence: usize = 0;
 
     while idx != 0 {
@@ -724,38 +723,25 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     // } else {
                     // }
                 },
-                /* Variable length encoded names of data sources. */
-                ["32", "1", "1"] => {
-                    match chunk.ctype {
-                        ChunkType::DataSimple => {
-                            let s = dbcharconv::decode_bytes(chunk.data.unwrap());
-                            data_source_names.push_back(s);
-                        }
-                        _ => {}
-                    }
-                },
-                /* Identifiers for data sources. */
-                ["32", "1", "3"] => {
-                    match chunk.ctype {
-                        ChunkType::DataSimple => {
-                        },
-                        _ => {}
-                    }
-                }
                 /* Storage for data sources, including path */
-                ["32", "5", ds, ..] => {
+                ["32", "5", ds] => {
                     match chunk.ctype {
                         ChunkType::PathPush => {
-                            let idx = get_int(chunk.data.unwrap());
-                            let mut tmp = FMComponentDataSource::new();
-                            let front = data_source_names.pop_front();
-                            if front.is_some() {
-                                tmp.source_name = front.unwrap();
-                                fmp_file.data_sources.insert(idx, tmp);
-                            }
+                            fmp_file.data_sources
+                                .entry(ds.parse::<usize>().unwrap())
+                                .or_insert(FMComponentDataSource::new());
                         }
                         ChunkType::RefSimple => {
                             match chunk.ref_simple.unwrap() {
+                                16 => {
+                                    /* The list in [32].[1].[1] is an index in
+                                     * order of the names, not of the sources. */
+                                    let s = fm_string_decrypt(chunk.data.unwrap());
+                                    let handle = fmp_file.data_sources.get_mut(&ds.parse::<usize>().unwrap());
+                                    if handle.is_some() {
+                                        handle.unwrap().source_name = s;
+                                    }
+                                },
                                 130 => {
                                     if chunk.code == 0x6 {
                                         /* Path is stored here */
-- 
2.43.0


From f5a0608a1d5a0d91f02e3e109ed517c5e21df070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:39 +0000
Subject: [PATCH 21/27] fix: the letter h is not dropped from the path of a
 data source

---
 src/component.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/component.rs b/src/component.rs
index a947d06..80f7ec9 100644
--- a/src/component.rs
+++ b/src/component.rs
@@ -236,7 +236,6 @@ impl SourceFileLocation {
         let path : Vec<_> = path_bytes.into_iter()
             .map(|b| vec![b])
             .map(|b| match b[..] {
-                [50] => { vec![] }
                 [65] => { vec![96 as u8]},
                 [218] => { vec![(117 as u8)] },
                 [219] => { vec![(116 as u8), (116 as u8)] },
-- 
2.43.0


From 31e3cebb0091f75751bf49508dd60bc887062fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:19 +0000
Subject: [PATCH 22/27] fix: encode integers that need all four bytes

---
 src/encoding_util.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/encoding_util.rs b/src/encoding_util.rs
index d889858..d352e25 100644
--- a/src/encoding_util.rs
+++ b/src/encoding_util.rs
@@ -31,12 +31,10 @@ pub fn get_int(bytes: &[u8]) -> usize {
 
 pub fn put_int(mut n: usize) -> Vec<u8> {
     let mut res = vec![0, 0, 0, 0];
-    let mut idx = 3;
-    while n > 0 {
+    for idx in (0..4).rev() {
         let cur = n % 256;
         n /= 256;
         res[idx] = cur as u8;
-        idx -= 1;
     }
     return res;
 }
-- 
2.43.0


From 7e97f4a3e6f09753ea2e1160fa8d5b955946c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:41 +0000
Subject: [PATCH 23/27] fix: list the tables of an assembled file where they
 are read

---
 src/compile/assembler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index a7f1a1b..29091c1 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -186,6 +186,7 @@ impl<'a> Assembler<'a> {
         self.emit_simple_kv(216, &fm_string_encrypt("hello".to_string()));
         self.emit_simple_kv_e(129, &vec![59, 62, 55, 51, 52]);
         self.emit_simple_kv_e(130, &vec![59, 62, 55, 51, 52]);
+        self.pop_directory();
 
         self.push_directory(5);
 
@@ -195,7 +196,6 @@ impl<'a> Assembler<'a> {
         }
         self.pop_directory();
         self.pop_directory();
-        self.pop_directory();
     }
 
     pub fn emit_relationship_data(&mut self) {
-- 
2.43.0


From c523a5d3b57f04a4454ee8fb99be850b57813730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:19 +0000
Subject: [PATCH 24/27] fix: scripts whose name reads as a number (12, inf,
 nan) lost their name

---
 src/burn_script/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/burn_script/parser.rs b/src/burn_script/parser.rs
index 5e3e9ac..ce8068c 100644
--- a/src/burn_script/parser.rs
+++ b/src/burn_script/parser.rs
@@ -29,7 +29,7 @@ impl Parser {
                 TokenType::Define => {
                     let mut tmp = FMComponentScript::new();
                     let peeked = parser_iter.next().unwrap();
-                    if peeked.ttype == TokenType::Identifier {
+                    if peeked.ttype == TokenType::Identifier || peeked.ttype == TokenType::NumericLiteral {
                         tmp.script_name = peeked.value.clone();
                     }
 
-- 
2.43.0


From 826c840d12f4bf458a1270286c0fc8cf34f89357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:19 +0000
Subject: [PATCH 25/27] fix: definitions named inf, infinity or nan were
 refused as numbers

---
 src/compile/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 4182ff3..3b89cfe 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -21,7 +21,7 @@ pub fn tokenize(code: &str) -> Vec<Token> {
             "end" => Ok(Token::new(TokenType::End)),
             _ => {
                 let n = b.parse::<f64>();
-                if n.is_ok() {
+                if n.is_ok() && !b.starts_with(char::is_alphabetic) {
                     Ok(Token::with_value(TokenType::NumericLiteral, n.unwrap().to_string()))
                 } else if !b.as_bytes()[0].is_ascii_digit() {
                     Ok(Token::with_value(TokenType::Identifier, b.to_string()))
-- 
2.43.0


From 8f8960db5f92e30e513abd3859911634d0f57c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:19 +0000
Subject: [PATCH 26/27] fix: a word starting with a digit before the end of a
 definition swallowed the end and the next definition

---
 src/compile/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 3b89cfe..1695294 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -117,8 +117,8 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                     let out = flush_buffer(b);
                     if out.is_ok() {
                         ret.push(out.unwrap());
-                    buffer.clear();
                     }
+                    buffer.clear();
                 }
                 ret
 
-- 
2.43.0


From ba55b79324fbc3c3da35827222d9b788edef60fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:46 +0000
Subject: [PATCH 27/27] fix: decompile scripts that call a script deleted since

The script a perform-script step refers to need not exist any more. Looking
up its name stopped the whole decompilation.
---
 src/decompile/decompiler.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 399b424..84462c0 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -229,7 +229,7 @@ fn assemble_script(fmp_file: &mut FmpFile, script: usize, segments: &BTreeMap<us
             let mut switch: Vec<String> = vec![];
             match op {
                 Some(Instruction::PerformScript) => {
-                    switch.push(format!("\"{}\"", fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name));
+                    switch.push(format!("\"{}\"", fmp_file.scripts.get(&(instr[8] as usize)).map_or("<unknown>", |s| &s.script_name)));
                 },
                 _ => {}
             }
@@ -634,7 +634,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                     match oc {
                                         Some(Instruction::PerformScript) => {
                                             switch.push(
-                                                format!("\"{}\"", fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name)
+                                                format!("\"{}\"", fmp_file.scripts.get(&(ins[8] as usize)).map_or("<unknown>", |s| &s.script_name))
                                             );
                                         },
                                         _ => {}
@@ -664,7 +664,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                         match oc {
                                             Some(Instruction::PerformScript) => {
                                                 switch.push(
-                                                    format!("\"{}\"", fmp_file.scripts.get(&(ins[8] as usize)).unwrap().script_name)
+                                                    format!("\"{}\"", fmp_file.scripts.get(&(ins[8] as usize)).map_or("<unknown>", |s| &s.script_name))
                                                 );
                                             },
                                             _ => {}
-- 
2.43.0

