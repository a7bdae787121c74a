From 09c37ab94d76e0ab8d3ef9f04c35796d1c41d2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 1/9] fix: classify binary integer literals instead of
 panicking

---
 .../parser-generator/src/parser_generator/lexer/lexer_ported.rs  | 1 +
 crates/postgresql-cst-parser/src/lexer/lexer_ported.rs           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
index 0d1ed6b..7172e87 100644
--- a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
@@ -120,6 +120,7 @@ impl Lexer {
         }
 
         let res_parse_as_i32 = match radix {
+            2 => i32::from_str_radix(&yytext[2..], 2),
             8 => i32::from_str_radix(&yytext[2..], 8),
             10 => yytext.parse::<i32>(),
             16 => i32::from_str_radix(&yytext[2..], 16),
diff --git a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
index 0d1ed6b..7172e87 100644
--- a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
+++ b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
@@ -120,6 +120,7 @@ impl Lexer {
         }
 
         let res_parse_as_i32 = match radix {
+            2 => i32::from_str_radix(&yytext[2..], 2),
             8 => i32::from_str_radix(&yytext[2..], 8),
             10 => yytext.parse::<i32>(),
             16 => i32::from_str_radix(&yytext[2..], 16),
-- 
2.43.0


From eea1c9358d5b1b181c2657c149f6db047b506235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 2/9] fix: integer literals with underscores are integer
 constants

---
 .../src/parser_generator/lexer/lexer_ported.rs        | 11 +++++++----
 .../postgresql-cst-parser/src/lexer/lexer_ported.rs   | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
index 7172e87..4d3b4de 100644
--- a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
@@ -119,11 +119,14 @@ impl Lexer {
             _ => (),
         }
 
+        // Digits may be separated by underscores
+        let digits = yytext.replace('_', "");
+
         let res_parse_as_i32 = match radix {
-            2 => i32::from_str_radix(&yytext[2..], 2),
-            8 => i32::from_str_radix(&yytext[2..], 8),
-            10 => yytext.parse::<i32>(),
-            16 => i32::from_str_radix(&yytext[2..], 16),
+            2 => i32::from_str_radix(&digits[2..], 2),
+            8 => i32::from_str_radix(&digits[2..], 8),
+            10 => digits.parse::<i32>(),
+            16 => i32::from_str_radix(&digits[2..], 16),
             _ => unreachable!(),
         };
 
diff --git a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
index 7172e87..4d3b4de 100644
--- a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
+++ b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
@@ -119,11 +119,14 @@ impl Lexer {
             _ => (),
         }
 
+        // Digits may be separated by underscores
+        let digits = yytext.replace('_', "");
+
         let res_parse_as_i32 = match radix {
-            2 => i32::from_str_radix(&yytext[2..], 2),
-            8 => i32::from_str_radix(&yytext[2..], 8),
-            10 => yytext.parse::<i32>(),
-            16 => i32::from_str_radix(&yytext[2..], 16),
+            2 => i32::from_str_radix(&digits[2..], 2),
+            8 => i32::from_str_radix(&digits[2..], 8),
+            10 => digits.parse::<i32>(),
+            16 => i32::from_str_radix(&digits[2..], 16),
             _ => unreachable!(),
         };
 
-- 
2.43.0


From 18be797d23a6140018b9371a3167cf2a140c419b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 3/9] fix: report a parameter number out of range instead of
 panicking

---
 crates/lexer-generator/resources/scan.l              |  5 ++++-
 .../src/parser_generator/lexer/generated.rs          | 12 ++++++++----
 crates/postgresql-cst-parser/src/lexer/generated.rs  | 12 ++++++++----
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 4663d12..64549d9 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -1483,7 +1483,10 @@ other			.
 					// return PARAM;
 
 					self.set_yylloc();
-					self.yylval = Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+					match i32::from_str_radix(&self.yytext()[1..], 10) {
+						Ok(number) => self.yylval = Yylval::I(number),
+						Err(_) => yyerror!("parameter number too large"),
+					}
 					return Ok(Some(TokenKind::PARAM));
 				}
 
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 466c3d0..db9da5d 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4923,8 +4923,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        match i32::from_str_radix(&self.yytext()[1..], 10) {
+                            Ok(number) => self.yylval = Yylval::I(number),
+                            Err(_) => yyerror!("parameter number too large"),
+                        }
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
@@ -6433,8 +6435,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        match i32::from_str_radix(&self.yytext()[1..], 10) {
+                            Ok(number) => self.yylval = Yylval::I(number),
+                            Err(_) => yyerror!("parameter number too large"),
+                        }
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 466c3d0..db9da5d 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4923,8 +4923,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        match i32::from_str_radix(&self.yytext()[1..], 10) {
+                            Ok(number) => self.yylval = Yylval::I(number),
+                            Err(_) => yyerror!("parameter number too large"),
+                        }
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
@@ -6433,8 +6435,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        match i32::from_str_radix(&self.yytext()[1..], 10) {
+                            Ok(number) => self.yylval = Yylval::I(number),
+                            Err(_) => yyerror!("parameter number too large"),
+                        }
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
-- 
2.43.0


From 99fd24c45aa888bf6647b85b6e2080c31cd805d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 4/9] fix: decode hexadecimal string escapes without panicking

---
 crates/lexer-generator/resources/scan.l                       | 2 +-
 .../parser-generator/src/parser_generator/lexer/generated.rs  | 4 ++--
 crates/postgresql-cst-parser/src/lexer/generated.rs           | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 64549d9..000e65a 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -991,7 +991,7 @@ other			.
 					// if (c == '\0' || IS_HIGHBIT_SET(c))
 					// 	yyextra->saw_non_ascii = true;
 
-					let c = u32::from_str_radix(&self.input[self.index_bytes+1..self.index_bytes + self.yyleng], 16).unwrap();
+					let c = u32::from_str_radix(&self.input[self.index_bytes+2..self.index_bytes + self.yyleng], 16).unwrap();
 					let c = char::from_u32(c).unwrap();
 
 					// self.check_escape_warning();
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index db9da5d..c947712 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4376,7 +4376,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
@@ -5865,7 +5865,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index db9da5d..c947712 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4376,7 +4376,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
@@ -5865,7 +5865,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
-- 
2.43.0


From c8d92887927d7dbaebcf12366976a9c2339ee118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 5/9] fix: report an out-of-range Unicode escape instead of
 panicking

---
 crates/lexer-generator/resources/scan.l                |  5 ++++-
 .../src/parser_generator/lexer/generated.rs            | 10 ++++++++--
 crates/postgresql-cst-parser/src/lexer/generated.rs    | 10 ++++++++--
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 000e65a..d9a08bf 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -862,7 +862,10 @@ other			.
 					} else if is_utf16_surrogate_second(c) {
 						yyerror!("invalid Unicode surrogate pair");
 					} else {
-						self.addunicode(char::from_u32(c as u32).unwrap())?;
+						match char::from_u32(c) {
+							Some(c) => self.addunicode(c)?,
+							None => yyerror!("invalid Unicode escape value"),
+						}
 					}
 
 					self.pop_yylloc();
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index c947712..03974b4 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4227,7 +4227,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            match char::from_u32(c) {
+                                Some(c) => self.addunicode(c)?,
+                                None => yyerror!("invalid Unicode escape value"),
+                            }
                         }
 
                         self.pop_yylloc();
@@ -5693,7 +5696,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            match char::from_u32(c) {
+                                Some(c) => self.addunicode(c)?,
+                                None => yyerror!("invalid Unicode escape value"),
+                            }
                         }
 
                         self.pop_yylloc();
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index c947712..03974b4 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4227,7 +4227,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            match char::from_u32(c) {
+                                Some(c) => self.addunicode(c)?,
+                                None => yyerror!("invalid Unicode escape value"),
+                            }
                         }
 
                         self.pop_yylloc();
@@ -5693,7 +5696,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            match char::from_u32(c) {
+                                Some(c) => self.addunicode(c)?,
+                                None => yyerror!("invalid Unicode escape value"),
+                            }
                         }
 
                         self.pop_yylloc();
-- 
2.43.0


From fe36d184fd5a05d896914d753391c98560d6eba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 6/9] fix: never end a scanner match inside a multi-byte
 character

---
 .../src/parser_generator/lexer/util.rs             | 14 ++++++++++++--
 crates/postgresql-cst-parser/src/lexer/util.rs     | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/lexer/util.rs b/crates/parser-generator/src/parser_generator/lexer/util.rs
index 0c28eed..da500a5 100644
--- a/crates/parser-generator/src/parser_generator/lexer/util.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/util.rs
@@ -59,6 +59,13 @@ impl Lexer {
         self.yyleng = len;
     }
 
+    /// The rules match bytes, but a match must not end inside a multi-byte character
+    fn round_up_to_char_boundary(s: &str, len: usize) -> usize {
+        (len..s.len())
+            .find(|&i| s.is_char_boundary(i))
+            .unwrap_or(s.len())
+    }
+
     #[cfg(not(feature = "regex-match"))]
     pub fn find_match_len(&self) -> (usize, u8) {
         use super::generated::dfa::get_dfa_table;
@@ -76,7 +83,10 @@ impl Lexer {
             dfa_state_index = transition[dfa_state_index as usize][transition_index];
 
             if dfa_state_index == !0 {
-                return (longest_match, accept_rule);
+                return (
+                    Self::round_up_to_char_boundary(s, longest_match),
+                    accept_rule,
+                );
             }
 
             if accept[dfa_state_index as usize] != !0 {
@@ -126,7 +136,7 @@ impl Lexer {
         if eof {
             (0, kind)
         } else {
-            (longest_match, kind)
+            (Self::round_up_to_char_boundary(s, longest_match), kind)
         }
     }
 
diff --git a/crates/postgresql-cst-parser/src/lexer/util.rs b/crates/postgresql-cst-parser/src/lexer/util.rs
index 0c28eed..da500a5 100644
--- a/crates/postgresql-cst-parser/src/lexer/util.rs
+++ b/crates/postgresql-cst-parser/src/lexer/util.rs
@@ -59,6 +59,13 @@ impl Lexer {
         self.yyleng = len;
     }
 
+    /// The rules match bytes, but a match must not end inside a multi-byte character
+    fn round_up_to_char_boundary(s: &str, len: usize) -> usize {
+        (len..s.len())
+            .find(|&i| s.is_char_boundary(i))
+            .unwrap_or(s.len())
+    }
+
     #[cfg(not(feature = "regex-match"))]
     pub fn find_match_len(&self) -> (usize, u8) {
         use super::generated::dfa::get_dfa_table;
@@ -76,7 +83,10 @@ impl Lexer {
             dfa_state_index = transition[dfa_state_index as usize][transition_index];
 
             if dfa_state_index == !0 {
-                return (longest_match, accept_rule);
+                return (
+                    Self::round_up_to_char_boundary(s, longest_match),
+                    accept_rule,
+                );
             }
 
             if accept[dfa_state_index as usize] != !0 {
@@ -126,7 +136,7 @@ impl Lexer {
         if eof {
             (0, kind)
         } else {
-            (longest_match, kind)
+            (Self::round_up_to_char_boundary(s, longest_match), kind)
         }
     }
 
-- 
2.43.0


From 39d1a9f21ab0d75814013f094f2177522b921d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 7/9] fix: reject NUL instead of ignoring the rest of the input

---
 crates/parser-generator/src/parser_generator/lexer.rs | 7 +++++++
 crates/postgresql-cst-parser/src/lexer.rs             | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/lexer.rs b/crates/parser-generator/src/parser_generator/lexer.rs
index bda28fe..df81398 100644
--- a/crates/parser-generator/src/parser_generator/lexer.rs
+++ b/crates/parser-generator/src/parser_generator/lexer.rs
@@ -157,6 +157,13 @@ pub struct Token {
 }
 
 pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
+    // NUL represents the end of the input in the lexer, and PostgreSQL does not allow it in a query
+    if input.contains('\0') {
+        return Err(ParserError::new_error(
+            "invalid byte sequence for encoding \"UTF8\": 0x00",
+        ));
+    }
+
     let mut lexer = Lexer::new(input);
 
     let mut tokens = vec![];
diff --git a/crates/postgresql-cst-parser/src/lexer.rs b/crates/postgresql-cst-parser/src/lexer.rs
index bda28fe..df81398 100644
--- a/crates/postgresql-cst-parser/src/lexer.rs
+++ b/crates/postgresql-cst-parser/src/lexer.rs
@@ -157,6 +157,13 @@ pub struct Token {
 }
 
 pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
+    // NUL represents the end of the input in the lexer, and PostgreSQL does not allow it in a query
+    if input.contains('\0') {
+        return Err(ParserError::new_error(
+            "invalid byte sequence for encoding \"UTF8\": 0x00",
+        ));
+    }
+
     let mut lexer = Lexer::new(input);
 
     let mut tokens = vec![];
-- 
2.43.0


From ad1d94f3fc8d708eeb55a277fdaa5857ebad7b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:11 +0000
Subject: [PATCH 8/9] fix: report tokens unknown to the grammar as syntax
 errors instead of panicking

---
 .../parser-generator/templates/parser_template.rs | 10 ++++++----
 crates/postgresql-cst-parser/src/cst.rs           | 15 +++++++++++++--
 crates/postgresql-cst-parser/src/parser.rs        | 10 ++++++----
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/crates/parser-generator/templates/parser_template.rs b/crates/parser-generator/templates/parser_template.rs
index 547f5d3..ec418d4 100644
--- a/crates/parser-generator/templates/parser_template.rs
+++ b/crates/parser-generator/templates/parser_template.rs
@@ -33,10 +33,12 @@ pub(crate) fn end_rule_kind() -> TokenKind {{end_rule_kind}}
 
 pub(crate) fn end_rule_id() -> u32 {{end_rule_id}}
 
-pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
-    match kind {{token_to_component_id}
-    _ => unreachable!(),
-    }
+pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> Option<u32> {
+    let id = match kind {{token_to_component_id}
+    _ => return None,
+    };
+
+    Some(id)
 }
 
 pub(crate) fn rule_name_to_component_id(name: &str) -> u32 {
diff --git a/crates/postgresql-cst-parser/src/cst.rs b/crates/postgresql-cst-parser/src/cst.rs
index 94b937f..1332c96 100644
--- a/crates/postgresql-cst-parser/src/cst.rs
+++ b/crates/postgresql-cst-parser/src/cst.rs
@@ -132,6 +132,15 @@ fn lookup_goto_state(state: u32, cid: u32) -> i16 {
     }
 }
 
+/// The error for a token that does not appear in the grammar at all, such as `{`
+fn unknown_token_error(token: &Token) -> ParserError {
+    ParserError::ParseError {
+        message: format!("syntax error at byte position {}", token.start_byte_pos),
+        start_byte_pos: token.start_byte_pos,
+        end_byte_pos: token.end_byte_pos,
+    }
+}
+
 /// Parsing a string as PostgreSQL syntax and converting it into a ResolvedNode
 pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
     let mut tokens = lex(input)?;
@@ -177,7 +186,8 @@ pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
             }
         };
 
-        let cid = token_kind_to_component_id(&token.kind);
+        let cid = token_kind_to_component_id(&token.kind)
+            .ok_or_else(|| unknown_token_error(token))?;
 
         if matches!(token.kind, TokenKind::C_COMMENT | TokenKind::SQL_COMMENT) {
             if last_pos < token.start_byte_pos {
@@ -323,7 +333,8 @@ pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
             break;
         }
 
-        let cid = token_kind_to_component_id(&token.kind);
+        let cid = token_kind_to_component_id(&token.kind)
+            .ok_or_else(|| unknown_token_error(&token))?;
         let kind = SyntaxKind::from_raw(RawSyntaxKind(cid));
         extras.push((
             kind,
diff --git a/crates/postgresql-cst-parser/src/parser.rs b/crates/postgresql-cst-parser/src/parser.rs
index ffbfb7d..3fc1e85 100644
--- a/crates/postgresql-cst-parser/src/parser.rs
+++ b/crates/postgresql-cst-parser/src/parser.rs
@@ -33032,8 +33032,8 @@ pub(crate) fn end_rule_id() -> u32 {
     126
 }
 
-pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
-    match kind {
+pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> Option<u32> {
+    let id = match kind {
         TokenKind::KEYWORD(s) if s == "ABORT_P" => 0,
         TokenKind::KEYWORD(s) if s == "ABSENT" => 1,
         TokenKind::KEYWORD(s) if s == "ABSOLUTE_P" => 2,
@@ -33570,8 +33570,10 @@ pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
         TokenKind::KEYWORD(s) if s == "ZONE" => 533,
         TokenKind::C_COMMENT => 1262,
         TokenKind::SQL_COMMENT => 1263,
-        _ => unreachable!(),
-    }
+        _ => return None,
+    };
+
+    Some(id)
 }
 
 pub(crate) fn rule_name_to_component_id(name: &str) -> u32 {
-- 
2.43.0


From 3070d05a675955b8fe6c29fdc1c42725695f7164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:13 +0000
Subject: [PATCH 9/9] fix: accept identifiers and strings with Unicode escapes

---
 crates/parser-generator/src/parser_generator/lexer.rs    | 2 ++
 .../src/parser_generator/lexer/lexer_ported.rs           | 9 +++++++++
 crates/postgresql-cst-parser/src/lexer.rs                | 2 ++
 crates/postgresql-cst-parser/src/lexer/lexer_ported.rs   | 9 +++++++++
 4 files changed, 22 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/lexer.rs b/crates/parser-generator/src/parser_generator/lexer.rs
index df81398..f5249eb 100644
--- a/crates/parser-generator/src/parser_generator/lexer.rs
+++ b/crates/parser-generator/src/parser_generator/lexer.rs
@@ -179,6 +179,8 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
             TokenKind::SCONST
                 | TokenKind::BCONST
                 | TokenKind::XCONST
+                | TokenKind::USCONST
+                | TokenKind::UIDENT
                 | TokenKind::IDENT
                 | TokenKind::C_COMMENT
         ) {
diff --git a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
index 4d3b4de..bd5c5f8 100644
--- a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
@@ -163,6 +163,15 @@ pub fn init_tokens(tokens: &mut [Token]) {
         None
     }
 
+    // The grammar knows neither UIDENT nor USCONST (UESCAPE clauses are not supported)
+    for token in tokens.iter_mut() {
+        match token.kind {
+            TokenKind::UIDENT => token.kind = TokenKind::IDENT,
+            TokenKind::USCONST => token.kind = TokenKind::SCONST,
+            _ => (),
+        }
+    }
+
     for i in 0..tokens.len() - 1 {
         match &tokens[i].kind {
             TokenKind::KEYWORD(k) if k == "FORMAT" => {
diff --git a/crates/postgresql-cst-parser/src/lexer.rs b/crates/postgresql-cst-parser/src/lexer.rs
index df81398..f5249eb 100644
--- a/crates/postgresql-cst-parser/src/lexer.rs
+++ b/crates/postgresql-cst-parser/src/lexer.rs
@@ -179,6 +179,8 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
             TokenKind::SCONST
                 | TokenKind::BCONST
                 | TokenKind::XCONST
+                | TokenKind::USCONST
+                | TokenKind::UIDENT
                 | TokenKind::IDENT
                 | TokenKind::C_COMMENT
         ) {
diff --git a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
index 4d3b4de..bd5c5f8 100644
--- a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
+++ b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
@@ -163,6 +163,15 @@ pub fn init_tokens(tokens: &mut [Token]) {
         None
     }
 
+    // The grammar knows neither UIDENT nor USCONST (UESCAPE clauses are not supported)
+    for token in tokens.iter_mut() {
+        match token.kind {
+            TokenKind::UIDENT => token.kind = TokenKind::IDENT,
+            TokenKind::USCONST => token.kind = TokenKind::SCONST,
+            _ => (),
+        }
+    }
+
     for i in 0..tokens.len() - 1 {
         match &tokens[i].kind {
             TokenKind::KEYWORD(k) if k == "FORMAT" => {
-- 
2.43.0

