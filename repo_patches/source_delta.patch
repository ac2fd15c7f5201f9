From 0a54cfce5f36e696b75447bb8e2c2b2d367320e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 01/46] fix: return an error instead of panicking when the
 first token is malformed

---
 giron/src/parser/parser.rs | 17 ++++++++++++++++-
 giron/src/token/token.rs   | 19 +++++++++++++++++++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6353f17..f7175eb 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -75,6 +75,7 @@ pub struct Parser<I> {
     params_stack: Vec<Params>,
     marker_stack: Vec<Marker>,
     goal: SyntaxGoal,
+    first_token_error: Option<Error>,
 }
 
 impl<I> Parser<I>
@@ -83,7 +84,11 @@ where
 {
     pub fn new(source: I) -> Self {
         let mut scanner = Scanner::new(source);
-        let current = scanner.next(LexGoal::RegExp).unwrap();
+        // `new` cannot fail, so an error in the very first token is kept until parsing starts.
+        let (current, first_token_error) = match scanner.next(LexGoal::RegExp) {
+            Ok(token) => (token, None),
+            Err(error) => (Token::eof(error.line, error.col), Some(error)),
+        };
 
         Parser {
             scanner,
@@ -99,6 +104,14 @@ where
             params_stack: vec![],
             marker_stack: vec![],
             goal: SyntaxGoal::Ambiguous,
+            first_token_error,
+        }
+    }
+
+    fn check_first_token(&mut self) -> Result<()> {
+        match self.first_token_error.take() {
+            Some(error) => Err(error),
+            None => Ok(()),
         }
     }
 
@@ -110,6 +123,7 @@ where
     pub fn parse_script(&mut self) -> Result<Node> {
         log!("parse_script");
         self.goal = SyntaxGoal::Script;
+        self.check_first_token()?;
         self.start_span();
         let mut body = self.parse_directive_prologues()?;
         body.extend(self.parse_until_eof(&mut Self::parse_stmt_list_item)?);
@@ -124,6 +138,7 @@ where
     pub fn parse_module(&mut self) -> Result<Node> {
         log!("parse_module");
         self.goal = SyntaxGoal::Module;
+        self.check_first_token()?;
         self.start_span();
         self.ctx.strict = true;
         let mut body = self.with_params(
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index fea3a0b..d80c949 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -30,3 +30,22 @@ pub struct Token {
     pub start: usize,
     pub end: usize,
 }
+
+impl Token {
+    pub fn eof(line_num: usize, col: usize) -> Self {
+        Token {
+            tokentype: TokenType::Eof,
+            value: Value::Null,
+            pattern: None,
+            flags: None,
+            octal: None,
+            cooked: None,
+            head: None,
+            tail: None,
+            line_num,
+            col,
+            start: 0,
+            end: 0,
+        }
+    }
+}
-- 
2.43.0


From 5688220e194fbf43c5542c6fbb8aa747302746a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 02/46] fix: scan >>= as one punctuator

---
 giron/src/scanner/scanner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 9b5472b..2a6490b 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -872,6 +872,7 @@ where
                             (_, _) => self.punc1(">>>"),
                         }
                     }
+                    (Some('>'), Some('=')) => self.punc2(">>="),
                     (Some('>'), _) => self.punc1(">>"),
                     (_, _) => self.punc0(">"),
                 }
-- 
2.43.0


From be430cd9a18d28066970a9ebd9d17f6b35892b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 03/46] fix: give octal, hexadecimal, binary and leading-zero
 numbers their exact value

---
 giron/src/scanner/scanner.rs | 76 +++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 31 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 2a6490b..70b3dc4 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -283,7 +283,7 @@ where
             (Some('0'), Some('b')) | (Some('0'), Some('B')) => self.scan_radix_literal(2),
             (Some('0'), Some('o')) | (Some('0'), Some('O')) => self.scan_radix_literal(8),
             (Some('0'), Some('x')) | (Some('0'), Some('X')) => self.scan_radix_literal(16),
-            (Some('0'), Some(cp)) if cp != '.' => {
+            (Some('0'), Some(cp)) if cp.is_decimal_digit() => {
                 let val = self.scan_until_with(|cp| !cp.is_decimal_digit(), &mut |this| {
                     this.consume().ok_or(Error {
                         line: this.line,
@@ -292,38 +292,22 @@ where
                     })
                 })?;
                 // A number starting with 0 can either be octal or decimal.
-                i64::from_str_radix(&val, 8)
-                    .or_else(|_| {
-                        i64::from_str_radix(&val, 10)
-                        // TODO: Scan dot and exponent
-                    })
-                    .map(|i| i as f64)
-                    .map_err(|_| Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::InvalidOrUnexpectedToken,
-                    })
+                if val.chars().all(|cp| cp.is_octal_digit()) {
+                    Ok(Self::radix_value(&val, 8))
+                } else {
+                    self.scan_decimal_tail(val)
+                }
             }
             (Some(cp), _) if cp.is_decimal_digit() => {
                 // scan decimal digit
-                let mut val = self.scan_until_with(|cp| !cp.is_decimal_digit(), &mut |this| {
+                let val = self.scan_until_with(|cp| !cp.is_decimal_digit(), &mut |this| {
                     this.consume().ok_or(Error {
                         line: this.line,
                         col: this.col,
                         errortype: ErrorType::UnexpectedEOS,
                     })
                 })?;
-                // scan potential dot
-                if self.matches('.') {
-                    self.scan_fractional_part(val)
-                } else {
-                    val.push_str(&self.scan_exponent()?);
-                    val.parse().map_err(|_| Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::InvalidOrUnexpectedToken,
-                    })
-                }
+                self.scan_decimal_tail(val)
             }
             (Some('.'), _) => {
                 let val = String::new();
@@ -335,6 +319,20 @@ where
         self.token_simple(TokenType::NumericLiteral, Value::Num(value))
     }
 
+    fn scan_decimal_tail(&mut self, mut value: String) -> Result<f64> {
+        // scan potential dot
+        if self.matches('.') {
+            self.scan_fractional_part(value)
+        } else {
+            value.push_str(&self.scan_exponent()?);
+            value.parse().map_err(|_| Error {
+                line: self.line,
+                col: self.col,
+                errortype: ErrorType::InvalidOrUnexpectedToken,
+            })
+        }
+    }
+
     fn scan_fractional_part(&mut self, mut value: String) -> Result<f64> {
         self.expect('.')?;
         value.push('.');
@@ -395,13 +393,29 @@ where
             })
         })?;
 
-        i64::from_str_radix(&value, radix)
-            .map(|i| i as f64)
-            .map_err(|_| Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidOrUnexpectedToken,
-            })
+        if value.is_empty() || !value.chars().all(|cp| cp.is_digit(radix)) {
+            return self.error(ErrorType::InvalidOrUnexpectedToken);
+        }
+        Ok(Self::radix_value(&value, radix))
+    }
+
+    /// Value of digits in a power of two radix, correctly rounded however many there are.
+    fn radix_value(digits: &str, radix: u32) -> f64 {
+        let bits = radix.trailing_zeros();
+        let mut mantissa: u64 = 0;
+        let mut exponent: i32 = 0;
+        for digit in digits.chars().map(|cp| cp.to_digit(radix).unwrap() as u64) {
+            if mantissa >> (64 - bits) == 0 {
+                mantissa = (mantissa << bits) | digit;
+            } else {
+                // The mantissa is full: only remember whether anything was dropped.
+                exponent = exponent.saturating_add(bits as i32);
+                if digit != 0 {
+                    mantissa |= 1;
+                }
+            }
+        }
+        mantissa as f64 * 2f64.powi(exponent)
     }
 
     // *******************************************************************
-- 
2.43.0


From 286ecfa7e53c8705ece3515c8087791dbfcbcb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 04/46] fix: report the start of the offending token as the
 error position and token ends as span ends

---
 giron/src/parser/parser.rs   | 71 +++++++++++++++++------------------
 giron/src/scanner/scanner.rs | 72 ++++++++++--------------------------
 giron/src/token/token.rs     |  4 ++
 3 files changed, 57 insertions(+), 90 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index f7175eb..a67a86f 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -76,6 +76,7 @@ pub struct Parser<I> {
     marker_stack: Vec<Marker>,
     goal: SyntaxGoal,
     first_token_error: Option<Error>,
+    prev_end: Marker,
 }
 
 impl<I> Parser<I>
@@ -105,6 +106,11 @@ where
             marker_stack: vec![],
             goal: SyntaxGoal::Ambiguous,
             first_token_error,
+            prev_end: Marker {
+                line: 1,
+                col: 1,
+                idx: 0,
+            },
         }
     }
 
@@ -300,7 +306,7 @@ where
                 }
                 _ => {
                     if this.scanner.is_keyword(&name) {
-                        let token = this.advance(LexGoal::RegExp)?;
+                        let token = this.current.clone();
                         return Err(Error {
                             line: token.line_num,
                             col: token.col,
@@ -562,7 +568,7 @@ where
                 if self.params.has_return {
                     self.parse_return_stmt()
                 } else {
-                    let token = self.advance(LexGoal::RegExp)?;
+                    let token = self.current.clone();
                     self.error(token, ErrorType::IllegalReturn)
                 }
             }
@@ -575,18 +581,15 @@ where
             // special LL(2) grammar case
             TokenType::Identifier if self.current.matches_str("async") => {
                 self.start_span();
-                self.scanner.save_state();
-                let next_token = self.scanner.next(LexGoal::RegExp)?;
+                let next_token = self.peek()?;
                 match &next_token.tokentype {
                     TokenType::Keyword
                         if next_token.matches_str("function")
-                            && self.current.line_num == next_token.line_num =>
+                            && self.current.end_line == next_token.line_num =>
                     {
-                        self.scanner.restore_state(next_token);
                         self.with_default(false, &mut Self::parse_hoistable_dclr)
                     }
                     _ => {
-                        self.scanner.restore_state(next_token);
                         self.end_span();
                         self.parse_expression_or_labelled_stmt()
                     }
@@ -639,7 +642,7 @@ where
                 if self.params.has_return {
                     self.parse_return_stmt()
                 } else {
-                    let token = self.advance(LexGoal::RegExp)?;
+                    let token = self.current.clone();
                     self.error(token, ErrorType::IllegalReturn)
                 }
             }
@@ -726,7 +729,7 @@ where
             _ => match &id {
                 Binding::BindingIdentifier { .. } => None,
                 _ => {
-                    let token = self.advance(LexGoal::RegExp)?;
+                    let token = self.current.clone();
                     return self.error(token, ErrorType::MissingInitializer);
                 }
             },
@@ -1000,7 +1003,7 @@ where
                             _ => Ok(expr),
                         }?;
                         if expr.assign_target_type() != "simple" {
-                            let token = self.advance(LexGoal::RegExp)?;
+                            let token = self.current.clone();
                             return self.error(token, ErrorType::InvalidLhsInFor);
                         }
                         self.parse_for_in_stmt(Box::from(expr))
@@ -1014,7 +1017,7 @@ where
                             _ => Ok(expr),
                         }?;
                         if expr.assign_target_type() != "simple" {
-                            let token = self.advance(LexGoal::RegExp)?;
+                            let token = self.current.clone();
                             return self.error(token, ErrorType::InvalidLhsInFor);
                         }
                         self.parse_for_of_stmt(Box::from(expr))
@@ -3340,14 +3343,11 @@ where
 
             match this.current.tokentype {
                 TokenType::Identifier if this.current.matches_str("get") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
+                    let next_token = this.peek()?;
                     match &next_token.tokentype {
                         TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
                         }
                         _ => {
-                            this.scanner.restore_state(next_token);
                             this.start_span();
                             this.advance(LexGoal::RegExp)?;
                             let span = this.end_span();
@@ -3368,14 +3368,11 @@ where
                     }
                 }
                 TokenType::Identifier if this.current.matches_str("set") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
+                    let next_token = this.peek()?;
                     match &next_token.tokentype {
                         TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
                         }
                         _ => {
-                            this.scanner.restore_state(next_token);
                             this.start_span();
                             this.advance(LexGoal::RegExp)?;
                             let span = this.end_span();
@@ -3396,14 +3393,11 @@ where
                     }
                 }
                 TokenType::Identifier if this.current.matches_str("async") => {
-                    this.scanner.save_state();
-                    let next_token = this.scanner.next(LexGoal::RegExp)?;
+                    let next_token = this.peek()?;
                     match &next_token.tokentype {
                         TokenType::Punctuator => {
-                            this.scanner.restore_state(next_token);
                         }
                         _ => {
-                            this.scanner.restore_state(next_token);
                             this.start_span();
                             this.advance(LexGoal::RegExp)?;
                             let span = this.end_span();
@@ -4033,9 +4027,20 @@ where
     }
 
     fn advance(&mut self, goal: LexGoal) -> Result<Token> {
-        let prev_line_num = self.current.line_num;
         let token = mem::replace(&mut self.current, self.scanner.next(goal)?);
-        self.has_line_terminator = self.current.line_num > prev_line_num;
+        self.has_line_terminator = self.current.line_num > token.end_line;
+        self.prev_end = Marker {
+            line: token.end_line,
+            col: token.end_col,
+            idx: token.end,
+        };
+        Ok(token)
+    }
+
+    /// The token after the current one, which stays where it is.
+    fn peek(&mut self) -> Result<Token> {
+        let token = self.scanner.next(LexGoal::Div)?;
+        self.scanner.unread(token.clone());
         Ok(token)
     }
 
@@ -4099,11 +4104,7 @@ where
         };
         Span {
             start,
-            end: Marker {
-                line: self.scanner.line,
-                col: self.scanner.col,
-                idx: self.scanner.current,
-            },
+            end: self.prev_end.clone(),
         }
     }
 
@@ -4114,11 +4115,7 @@ where
         };
         Span {
             start,
-            end: Marker {
-                line: self.scanner.line,
-                col: self.scanner.col,
-                idx: self.scanner.current,
-            },
+            end: self.prev_end.clone(),
         }
     }
 
@@ -4135,7 +4132,7 @@ where
     }
 
     fn error_current<T>(&mut self, errortype: ErrorType) -> Result<T> {
-        let token = self.advance(LexGoal::RegExp)?;
+        let token = self.current.clone();
         self.error(token, errortype)
     }
 
@@ -4150,7 +4147,7 @@ where
     }
 
     fn unexpected_current<T>(&mut self) -> Result<T> {
-        let token = self.advance(LexGoal::RegExp)?;
+        let token = self.current.clone();
         self.unexpected(token)
     }
 }
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 70b3dc4..d8e2b54 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -20,15 +20,7 @@ pub enum Brace {
     LBrace,
 }
 
-struct ScannerState {
-    start: usize,
-    current: usize,
-    line: usize,
-    col: usize,
-    newline: bool,
-    raw_string: String,
-    curly_stack: Vec<Brace>,
-}
+
 
 pub struct Scanner<I> {
     pub start: usize,
@@ -40,8 +32,9 @@ pub struct Scanner<I> {
     record_raw: bool,
     raw_string: String,
     curly_stack: Vec<Brace>,
+    start_line: usize,
+    start_col: usize,
     unscanned: Option<Token>,
-    state: Option<ScannerState>,
 }
 
 impl<I> Scanner<I>
@@ -59,8 +52,9 @@ where
             record_raw: false,
             raw_string: String::with_capacity(8),
             curly_stack: Vec::new(),
+            start_line: 1,
+            start_col: 1,
             unscanned: None,
-            state: None,
         }
     }
 
@@ -968,8 +962,10 @@ where
                 self.raw_string.push(cp);
             }
         }
-        self.current += 1;
-        self.col += 1;
+        if cp.is_some() {
+            self.current += 1;
+            self.col += 1;
+        }
         match (cp, self.peek()) {
             (Some('\r'), Some('\n')) => (),
             (Some(cp), _) if cp.is_line_terminator() => {
@@ -983,8 +979,9 @@ where
     }
 
     fn start_new_token(&mut self) {
-        self.col = 1;
         self.start = self.current;
+        self.start_line = self.line;
+        self.start_col = self.col;
     }
 
     fn start_recording(&mut self) {
@@ -1016,10 +1013,12 @@ where
             cooked,
             head,
             tail,
-            line_num: self.line,
-            col: self.col,
+            line_num: self.start_line,
+            col: self.start_col,
             start: self.start,
-            end: self.current - 1,
+            end_line: self.line,
+            end_col: self.col,
+            end: self.current,
         })
     }
 
@@ -1041,42 +1040,9 @@ where
         }
     }
 
-    pub fn save_state(&mut self) {
-        // struct ScannerState {
-        //     start: usize,
-        //     current: usize,
-        //     line: usize,
-        //     col: usize,
-        //     newline: bool,
-        //     raw_string: String,
-        //     curly_stack: Vec<Brace>,
-        // }
-        self.state = Some(ScannerState {
-            start: self.start,
-            current: self.current,
-            line: self.line,
-            col: self.col,
-            newline: self.newline,
-            raw_string: self.raw_string.clone(),
-            curly_stack: self.curly_stack.clone(),
-        });
-    }
-
-    pub fn restore_state(&mut self, token: Token) {
-        let state = mem::replace(&mut self.state, None);
-        match state {
-            Some(state) => {
-                self.start = state.start;
-                self.current = state.current;
-                self.line = state.line;
-                self.col = state.col;
-                self.newline = state.newline;
-                self.raw_string = state.raw_string;
-                self.curly_stack = state.curly_stack;
-                self.unscanned = Some(token);
-            }
-            None => panic!("Trying to restore an unsaved state."),
-        }
+    /// Hands back a token that was only looked at, so that `next` returns it again.
+    pub fn unread(&mut self, token: Token) {
+        self.unscanned = Some(token);
     }
 
     fn error<T>(&self, errortype: ErrorType) -> Result<T> {
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index d80c949..44a3003 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -28,6 +28,8 @@ pub struct Token {
     pub line_num: usize,
     pub col: usize,
     pub start: usize,
+    pub end_line: usize,
+    pub end_col: usize,
     pub end: usize,
 }
 
@@ -45,6 +47,8 @@ impl Token {
             line_num,
             col,
             start: 0,
+            end_line: line_num,
+            end_col: col,
             end: 0,
         }
     }
-- 
2.43.0


From 960c63a0d38507e3e5da69fbba47cd9c810be778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 05/46] fix: report literals with their source text as raw and
 booleans as booleans

---
 giron/src/parser/parser.rs   | 16 +++++++---------
 giron/src/scanner/scanner.rs | 11 +++++++++--
 giron/src/token/token.rs     |  3 +++
 giron/src/token/value.rs     |  2 ++
 4 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index a67a86f..14fd596 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -347,8 +347,7 @@ where
         match self.current.tokentype {
             TokenType::StringLiteral => {
                 self.start_span();
-                let value = self.advance(LexGoal::RegExp)?.value;
-                let raw = String::from(&value);
+                let Token { value, raw, .. } = self.advance(LexGoal::RegExp)?;
                 Ok(Literal {
                     value,
                     raw,
@@ -2542,8 +2541,7 @@ where
             | TokenType::BooleanLiteral
             | TokenType::NullLiteral => {
                 self.start_span();
-                let value = self.advance(LexGoal::Div)?.value;
-                let raw = String::from(&value);
+                let Token { value, raw, .. } = self.advance(LexGoal::Div)?;
                 Ok(Node::Literal {
                     value,
                     raw,
@@ -3442,11 +3440,10 @@ where
                 }
                 TokenType::StringLiteral | TokenType::NumericLiteral => {
                     this.start_span();
-                    let value = this.advance(LexGoal::RegExp)?.value;
+                    let Token { value, raw, .. } = this.advance(LexGoal::RegExp)?;
                     Ok(PropertyKey::Literal(Literal {
-                        // value: this.current.value.clone(),
                         value,
-                        raw: String::from(&this.current.value),
+                        raw,
                         span: this.end_span(),
                     }))
                 }
@@ -3529,10 +3526,11 @@ where
             }
             TokenType::StringLiteral | TokenType::NumericLiteral => {
                 self.start_span();
+                let Token { value, raw, .. } = self.advance(LexGoal::RegExp)?;
                 Ok((
                     PropertyKey::Literal(Literal {
-                        value: self.current.value.clone(),
-                        raw: String::from(&self.current.value),
+                        value,
+                        raw,
                         span: self.end_span(),
                     }),
                     false,
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index d8e2b54..1130eb1 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -34,6 +34,7 @@ pub struct Scanner<I> {
     curly_stack: Vec<Brace>,
     start_line: usize,
     start_col: usize,
+    token_text: String,
     unscanned: Option<Token>,
 }
 
@@ -54,6 +55,7 @@ where
             curly_stack: Vec::new(),
             start_line: 1,
             start_col: 1,
+            token_text: String::with_capacity(8),
             unscanned: None,
         }
     }
@@ -159,7 +161,9 @@ where
 
         match value.as_str() {
             "null" => self.token_simple(TokenType::NullLiteral, Value::Null),
-            "true" | "false" => self.token_simple(TokenType::BooleanLiteral, Value::Str(value)),
+            "true" | "false" => {
+                self.token_simple(TokenType::BooleanLiteral, Value::Bool(value == "true"))
+            }
             val => {
                 if self.is_keyword(val) {
                     self.token_simple(TokenType::Keyword, Value::Str(value))
@@ -962,9 +966,10 @@ where
                 self.raw_string.push(cp);
             }
         }
-        if cp.is_some() {
+        if let Some(cp) = cp {
             self.current += 1;
             self.col += 1;
+            self.token_text.push(cp);
         }
         match (cp, self.peek()) {
             (Some('\r'), Some('\n')) => (),
@@ -982,6 +987,7 @@ where
         self.start = self.current;
         self.start_line = self.line;
         self.start_col = self.col;
+        self.token_text.clear();
     }
 
     fn start_recording(&mut self) {
@@ -1007,6 +1013,7 @@ where
         Ok(Token {
             tokentype,
             value,
+            raw: self.token_text.clone(),
             pattern,
             flags,
             octal,
diff --git a/giron/src/token/token.rs b/giron/src/token/token.rs
index 44a3003..f1f7357 100644
--- a/giron/src/token/token.rs
+++ b/giron/src/token/token.rs
@@ -19,6 +19,8 @@ pub enum TokenType {
 pub struct Token {
     pub tokentype: TokenType,
     pub value: Value,
+    /// The source text of the token.
+    pub raw: String,
     pub pattern: Option<String>,
     pub flags: Option<Vec<char>>,
     pub octal: Option<bool>,
@@ -38,6 +40,7 @@ impl Token {
         Token {
             tokentype: TokenType::Eof,
             value: Value::Null,
+            raw: String::new(),
             pattern: None,
             flags: None,
             octal: None,
diff --git a/giron/src/token/value.rs b/giron/src/token/value.rs
index 2af7cca..4e9fbd2 100644
--- a/giron/src/token/value.rs
+++ b/giron/src/token/value.rs
@@ -6,6 +6,7 @@ use serde::Serialize;
 pub enum Value {
     Str(String),
     Num(f64),
+    Bool(bool),
     Punc(Punctuator),
     Null,
 }
@@ -15,6 +16,7 @@ impl From<&Value> for String {
         match value {
             Value::Str(s) => s.clone(),
             Value::Num(x) => x.to_string(),
+            Value::Bool(b) => b.to_string(),
             Value::Punc(p) => p.to_string(),
             Value::Null => String::from("null"),
         }
-- 
2.43.0


From 7bea4fbc82da0b238995d9a82a919c3eb685ce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 06/46] fix: report regular expressions as ESTree Literal nodes

---
 giron/src/estree/estree.rs | 6 +++---
 giron/src/parser/parser.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index ce910f1..b40e9df 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -58,10 +58,9 @@ pub struct ClassBody {
 }
 
 #[derive(Serialize, Debug)]
-#[serde(tag = "type")]
 pub struct Regex {
     pub pattern: String,
-    pub flags: Vec<char>,
+    pub flags: String,
 }
 
 #[derive(Serialize, Debug)]
@@ -605,8 +604,9 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "Literal")]
     RegexLiteral {
-        value: String,
+        value: Value,
         raw: String,
         regex: Regex,
         #[serde(skip)]
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 14fd596..a5080c8 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2555,11 +2555,11 @@ where
                 self.start_span();
                 let token = self.advance(LexGoal::Div)?;
                 Ok(Node::RegexLiteral {
-                    value: String::from(&self.current.value),
-                    raw: String::from(&self.current.value),
+                    value: Value::Null,
+                    raw: token.raw,
                     regex: Regex {
                         pattern: token.pattern.unwrap(),
-                        flags: token.flags.unwrap(),
+                        flags: token.flags.unwrap().into_iter().collect(),
                     },
                     assign_target_type: "invalid",
                     span: self.end_span(),
-- 
2.43.0


From f89075d191e8ede2e2e7a62da1f802f70e1427d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 07/46] fix: reject an identifier or digit glued to a numeric
 literal

---
 giron/src/scanner/scanner.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 1130eb1..c1a63fd 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -314,6 +314,14 @@ where
             (_, _) => self.error(ErrorType::InvalidOrUnexpectedToken),
         }?;
 
+        // The source character after a number must not be an IdentifierStart or a digit.
+        match self.peek() {
+            Some(cp) if cp.is_identifier_start() || cp == '\\' || cp.is_decimal_digit() => {
+                return self.error(ErrorType::InvalidOrUnexpectedToken)
+            }
+            _ => (),
+        }
+
         self.token_simple(TokenType::NumericLiteral, Value::Num(value))
     }
 
-- 
2.43.0


From 86b6c45d8f94a67d99a015c0601824624dddbf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 08/46] fix: reject an unterminated multi-line comment

---
 giron/src/scanner/scanner.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index c1a63fd..96ab884 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -67,7 +67,7 @@ where
         }
 
         self.newline = false;
-        self.scan_comments();
+        self.scan_comments()?;
         self.start_new_token();
 
         match self.peek2() {
@@ -87,7 +87,7 @@ where
         }
     }
 
-    fn scan_comments(&mut self) {
+    fn scan_comments(&mut self) -> Result<()> {
         loop {
             match self.peek2() {
                 (Some(cp), _) if cp.is_whitespace() => {
@@ -101,8 +101,8 @@ where
                     self.consume();
                 }
                 (Some('/'), Some('/')) => self.scan_singleline_comment(),
-                (Some('/'), Some('*')) => self.scan_multiline_comment(),
-                (_, _) => break,
+                (Some('/'), Some('*')) => self.scan_multiline_comment()?,
+                (_, _) => return Ok(()),
             }
         }
     }
@@ -121,7 +121,7 @@ where
         }
     }
 
-    fn scan_multiline_comment(&mut self) {
+    fn scan_multiline_comment(&mut self) -> Result<()> {
         self.consume();
         self.consume();
         loop {
@@ -129,12 +129,12 @@ where
                 (Some('*'), Some('/')) => {
                     self.consume();
                     self.consume();
-                    break;
+                    return Ok(());
                 }
                 (Some(_), _) => {
                     self.consume();
                 }
-                (None, _) => break,
+                (None, _) => return self.error(ErrorType::InvalidOrUnexpectedToken),
             }
         }
     }
-- 
2.43.0


From 87c6b57ea0326feeaf16a2a9a7c8af2a743fa059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 09/46] fix: end a regular expression body at the right slash
 and never past the line

---
 giron/src/scanner/scanner.rs | 93 ++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 51 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 96ab884..9f5a9c7 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -573,7 +573,17 @@ where
     // *******************************************************************
 
     pub fn scan_regexp_literal(&mut self) -> Result<Token> {
-        let pattern = self.scan_regexp_body()?;
+        self.expect('/')?;
+        self.scan_regexp_tail(String::new())
+    }
+
+    /// Scans a regular expression whose start was already scanned as the punctuator "/" or "/=".
+    pub fn rescan_regexp(&mut self, punctuator: &Token) -> Result<Token> {
+        self.scan_regexp_tail(String::from(&punctuator.raw[1..]))
+    }
+
+    fn scan_regexp_tail(&mut self, value: String) -> Result<Token> {
+        let pattern = self.scan_regexp_body(value)?;
         let flags = self.scan_regexp_flags()?;
 
         self.token(
@@ -588,65 +598,46 @@ where
         )
     }
 
-    fn scan_regexp_body(&mut self) -> Result<String> {
-        self.expect('/')?;
-        if let Some('*') = self.peek() {
-            return self.error(ErrorType::InvalidOrUnexpectedToken);
-        }
-        let mut value = String::from("");
+    fn scan_regexp_body(&mut self, mut value: String) -> Result<String> {
+        let mut in_class = false;
         loop {
-            match self.peek() {
-                Some('[') => {
-                    let group = self.scan_until_with(|cp| cp == ']', &mut |this| {
-                        this.consume().ok_or(Error {
-                            line: this.line,
-                            col: this.col,
-                            errortype: ErrorType::UnexpectedEOS,
-                        })
-                    })?;
-                    value.push_str(&group);
+            match self.peek2() {
+                (Some(cp), _) if cp.is_line_terminator() => break,
+                (Some('\\'), Some(cp)) if !cp.is_line_terminator() => {
+                    value.push('\\');
+                    value.push(cp);
+                    self.consume();
+                    self.consume();
                 }
-                Some('\\') => {
-                    value.push(self.consume().ok_or(Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })?);
-                    value.push(self.consume().ok_or(Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })?);
+                (Some('\\'), _) | (None, _) => break,
+                (Some('/'), _) if !in_class => {
+                    self.consume();
+                    return Ok(value);
                 }
-                Some(cp) if cp == '/' => break,
-                Some(_) => {
-                    let res = self.consume().ok_or(Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })?;
-                    value.push(res);
+                (Some(cp), _) => {
+                    match cp {
+                        '[' => in_class = true,
+                        ']' => in_class = false,
+                        _ => (),
+                    }
+                    value.push(cp);
+                    self.consume();
                 }
-                None => break,
             }
         }
-        self.expect('/')?;
-        Ok(value)
+        self.error(ErrorType::InvalidOrUnexpectedToken)
     }
 
     fn scan_regexp_flags(&mut self) -> Result<Vec<char>> {
-        self.scan_until_with(
-            |cp| cp != '\\' && !cp.is_identifier_continue(),
-            &mut |this| {
-                let cp = this.consume().unwrap();
-                if cp == '\\' {
-                    this.scan_unicode_esc_seq()
-                } else {
-                    Ok(cp)
-                }
-            },
-        )
-        .map(|value| value.chars().collect())
+        let flags = self.scan_until_with(
+            |cp| !cp.is_identifier_continue(),
+            &mut |this| Ok(this.consume().unwrap()),
+        )?;
+        // Flags cannot be written with escapes.
+        if self.matches('\\') {
+            return self.error(ErrorType::InvalidOrUnexpectedToken);
+        }
+        Ok(flags.chars().collect())
     }
 
     // *******************************************************************
-- 
2.43.0


From 8d7888514de2515a82dee657c515cd9c9fe1a5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 10/46] fix: accept ZWNJ and ZWJ, not a bare backslash, as
 identifier parts

---
 giron/src/codepoint/codepoint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/codepoint/codepoint.rs b/giron/src/codepoint/codepoint.rs
index b9518ac..df08f6e 100644
--- a/giron/src/codepoint/codepoint.rs
+++ b/giron/src/codepoint/codepoint.rs
@@ -42,7 +42,7 @@ impl CodePoint for char {
 
     fn is_identifier_continue(self) -> bool {
         match self {
-            '$' | '_' | 'A'..='Z' | 'a'..='z' | '0'..='9' | '\u{005C}' => true,
+            '$' | '_' | 'A'..='Z' | 'a'..='z' | '0'..='9' | '\u{200C}' | '\u{200D}' => true,
             _ => self.is_id_continue(),
         }
     }
-- 
2.43.0


From eb713b0ddbb46123291f90e90d12991e7ea101a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 11/46] fix: read a slash as division after postfix operators,
 objects, functions and classes, and as a regular expression where an operand
 is due

---
 giron/src/parser/parser.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index a5080c8..1c74aa5 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1591,7 +1591,7 @@ where
         body.extend(self.parse_statement_list()?);
         self.ctx.in_iteration = prev_in_iteration;
 
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         self.ctx.strict = prev_strict;
         Ok(Node::BlockStatement {
             body,
@@ -1639,7 +1639,7 @@ where
         };
         self.consume("{", LexGoal::RegExp)?;
         let body = self.parse_class_body()?;
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         Ok(Node::ClassDeclaration {
             id,
             super_class,
@@ -2225,7 +2225,7 @@ where
                     });
                 }
                 Ok(Node::UpdateExpression {
-                    operator: self.advance(LexGoal::RegExp)?.to_string(),
+                    operator: self.advance(LexGoal::Div)?.to_string(),
                     argument: Box::from(expr),
                     prefix: false,
                     assign_target_type: "invalid",
@@ -2519,6 +2519,11 @@ where
         //     RegularExpressionLiteral
         //     TemplateLiteral[?Yield, ?Await, ~Tagged]
         //     CoverParenthesizedExpressionAndArrowParameterList[?Yield, ?Await]
+
+        // Where an operand is expected, a slash starts a regular expression.
+        if self.current.matches_punc("/") || self.current.matches_punc("/=") {
+            self.current = self.scanner.rescan_regexp(&self.current)?;
+        }
         match &self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("function") => {
                 self.parse_function_expr(false)
@@ -3503,7 +3508,7 @@ where
             }
             Ok(property)
         })?;
-        self.consume("}", LexGoal::RegExp)?;
+        self.consume("}", LexGoal::Div)?;
         Ok(Node::ObjectExpression {
             properties,
             assign_target_type: "invalid",
-- 
2.43.0


From e87422f4631b3468bfd60e9bb898b15e91e55b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 12/46] fix: reject empty and oversized \u{} escapes instead of
 accepting or overflowing on them

---
 giron/src/scanner/scanner.rs | 52 ++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 9f5a9c7..405e6bc 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -192,45 +192,45 @@ where
     /// "\" "u" HexDigit HexDigit HexDigit HexDigit
     /// "\" "u" "{" HexDigits "}"
     fn scan_unicode_esc_seq(&mut self) -> Result<char> {
+        let value = self.scan_unicode_esc_value()?;
+        char::from_u32(value).ok_or(Error {
+            line: self.line,
+            col: self.col,
+            errortype: ErrorType::InvalidUnicodeEscapeSequence,
+        })
+    }
+
+    /// The code point or code unit an unicode escape sequence stands for.
+    fn scan_unicode_esc_value(&mut self) -> Result<u32> {
         self.expect('\\')?;
         self.expect('u')?;
 
+        let mut value: u32 = 0;
         if self.matches('{') {
             self.consume();
-            // reduce scanned chars to u32
-            let value = self
-                .scan_until_with(|cp| !cp.is_hex_digit(), &mut |this| {
-                    this.consume().ok_or(Error {
-                        line: this.line,
-                        col: this.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    })
-                })?
-                .chars()
-                .fold(0, |value, cp| value * 16 + cp.to_digit(16).unwrap());
+            let mut has_digits = false;
+            while let Some(digit) = self.peek().and_then(|cp| cp.to_digit(16)) {
+                self.consume();
+                has_digits = true;
+                value = value.saturating_mul(16).saturating_add(digit);
+            }
             // consume "}"
             self.expect('}')?;
-            char::from_u32(value).ok_or(Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidUnicodeEscapeSequence,
-            })
+            if !has_digits || value > 0x10FFFF {
+                return self.error(ErrorType::InvalidUnicodeEscapeSequence);
+            }
         } else {
-            let mut value = 0;
             for _ in 0..4 {
-                match self.consume() {
-                    Some(cp) if cp.is_hex_digit() => {
-                        value = value * 16 + cp.to_digit(16).unwrap();
+                match self.peek().and_then(|cp| cp.to_digit(16)) {
+                    Some(digit) => {
+                        self.consume();
+                        value = value * 16 + digit;
                     }
-                    _ => return self.error(ErrorType::InvalidUnicodeEscapeSequence),
+                    None => return self.error(ErrorType::InvalidUnicodeEscapeSequence),
                 }
             }
-            char::from_u32(value).ok_or(Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidOrUnexpectedToken,
-            })
         }
+        Ok(value)
     }
 
     /// Check whether value is a keyword or future reserved word
-- 
2.43.0


From 723b682ffe563401d47d83dbce74e50c723e41b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 13/46] fix: give string literals their exact value for every
 escape and line terminator

---
 giron/src/scanner/scanner.rs | 157 +++++++++++++++--------------------
 1 file changed, 66 insertions(+), 91 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 405e6bc..1abb599 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -436,11 +436,15 @@ where
             _ => return self.error(ErrorType::InvalidOrUnexpectedToken),
         }
 
-        let value = self.scan_until_with(|cp| cp == quote, &mut |this| {
-            let (res, is_octal) = this.scan_string_literal_cp();
+        let mut units = vec![];
+        while self.peek().map_or(false, |cp| cp != quote) {
+            let (res, is_octal) = self.scan_string_literal_cp();
             octal = octal || is_octal;
-            res
-        })?;
+            if let Some(value) = res? {
+                Self::push_utf16(&mut units, value);
+            }
+        }
+        let value = String::from_utf16_lossy(&units);
 
         self.expect(quote)?;
         self.token(
@@ -455,98 +459,69 @@ where
         )
     }
 
-    fn scan_string_literal_cp(&mut self) -> (Result<char>, bool) {
-        loop {
-            match self.peek2() {
-                (Some('\\'), Some(cp)) if cp.is_single_escape_char() => {
-                    self.consume();
-                    let val = self.consume().map(|esc| esc.unescape()).ok_or(Error {
-                        line: self.line,
-                        col: self.col,
-                        errortype: ErrorType::UnexpectedEOS,
-                    });
-                    return (val, false);
-                }
-                (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
-                    self.consume(); // consume "\"
-                    if let (Some('\r'), Some('\n')) = self.peek2() {
-                        self.consume(); // consume "\r" if <CR><LF>
-                    }
-                    self.consume(); // consume line terminator
-                }
-                (Some('\\'), Some('x')) => return (self.scan_hex_esc_seq(), false),
-                (Some('\\'), Some('u')) => return (self.scan_unicode_esc_seq(), false),
-                (Some('\\'), Some(cp)) if cp.is_octal_digit() => {
-                    return (self.scan_octal_esc_seq(), true)
-                }
-                (Some('\\'), Some(_)) => {
-                    return (
-                        self.consume().ok_or(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::UnexpectedEOS,
-                        }),
-                        false,
-                    )
-                }
-                (Some(cp), _) if cp.is_line_terminator() => {
-                    return (
-                        Err(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::InvalidOrUnexpectedToken,
-                        }),
-                        false,
-                    )
-                }
-                (Some(_), _) => {
-                    return (
-                        self.consume().ok_or(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::UnexpectedEOS,
-                        }),
-                        false,
-                    )
-                }
-                (_, _) => {
-                    return (
-                        Err(Error {
-                            line: self.line,
-                            col: self.col,
-                            errortype: ErrorType::InvalidOrUnexpectedToken,
-                        }),
-                        false,
-                    )
-                }
-            }
+    fn push_utf16(units: &mut Vec<u16>, value: u32) {
+        match char::from_u32(value) {
+            Some(cp) => units.extend_from_slice(cp.encode_utf16(&mut [0; 2])),
+            // a surrogate
+            None => units.push(value as u16),
         }
     }
 
-    fn scan_octal_esc_seq(&mut self) -> Result<char> {
-        self.consume();
-
-        let value = self.scan_until_with(|cp| !cp.is_octal_digit(), &mut |this| {
-            this.consume().ok_or(Error {
-                line: this.line,
-                col: this.col,
-                errortype: ErrorType::UnexpectedEOS,
-            })
-        })?;
+    /// Scans the code point or code unit that comes next in a string literal, if the source
+    /// characters read stand for one, and whether it was written as an octal escape.
+    fn scan_string_literal_cp(&mut self) -> (Result<Option<u32>>, bool) {
+        let cp = match self.peek2() {
+            (Some('\\'), Some(cp)) if cp.is_single_escape_char() => {
+                self.consume();
+                self.consume();
+                cp.unescape()
+            }
+            (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
+                self.consume(); // consume "\"
+                if let (Some('\r'), Some('\n')) = self.peek2() {
+                    self.consume(); // consume "\r" if <CR><LF>
+                }
+                self.consume(); // consume line terminator
+                return (Ok(None), false);
+            }
+            (Some('\\'), Some('x')) => {
+                return (self.scan_hex_esc_seq().map(|cp| Some(cp as u32)), false)
+            }
+            (Some('\\'), Some('u')) => return (self.scan_unicode_esc_value().map(Some), false),
+            (Some('\\'), Some(cp)) if cp.is_octal_digit() => {
+                return (self.scan_octal_esc_seq().map(Some), true)
+            }
+            (Some('\\'), Some(cp)) => {
+                self.consume();
+                self.consume();
+                cp
+            }
+            (Some('\n'), _) | (Some('\r'), _) | (Some('\\'), None) | (None, _) => {
+                return (self.error(ErrorType::InvalidOrUnexpectedToken), false)
+            }
+            (Some(cp), _) => {
+                self.consume();
+                cp
+            }
+        };
+        (Ok(Some(cp as u32)), false)
+    }
 
-        let mv = i64::from_str_radix(&value, 8)
-            .map(|i| i as u32)
-            .map_err(|_| Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::InvalidOrUnexpectedToken,
-            })?;
+    fn scan_octal_esc_seq(&mut self) -> Result<u32> {
+        self.expect('\\')?;
 
-        char::from_u32(mv).ok_or(Error {
-            line: self.line,
-            col: self.col,
-            errortype: ErrorType::InvalidOrUnexpectedToken,
-        })
+        // At most three digits, and none that would make the value exceed 0o377.
+        let mut value = 0;
+        for _ in 0..3 {
+            match self.peek().and_then(|cp| cp.to_digit(8)) {
+                Some(digit) if value * 8 + digit <= 0o377 => {
+                    self.consume();
+                    value = value * 8 + digit;
+                }
+                _ => break,
+            }
+        }
+        Ok(value)
     }
 
     fn scan_hex_esc_seq(&mut self) -> Result<char> {
-- 
2.43.0


From 4d71570614d41210f1b4a8f21607d371784be724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 14/46] fix: give templates their exact cooked and raw text,
 and reject malformed ones without panicking

---
 giron/src/estree/estree.rs   |   3 +-
 giron/src/parser/parser.rs   |  43 +++-----
 giron/src/scanner/scanner.rs | 208 ++++++++++++-----------------------
 3 files changed, 86 insertions(+), 168 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index b40e9df..13898dc 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -388,9 +388,8 @@ pub struct TemplateElement {
 }
 
 #[derive(Serialize, Debug)]
-#[serde(tag = "type")]
 pub struct TemplateElementValue {
-    pub cooked: String,
+    pub cooked: Option<String>,
     pub raw: String,
 }
 
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 1c74aa5..3fd0569 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2295,7 +2295,7 @@ where
                     callee = self.parse_static_member_expr(callee)?;
                 }
                 TokenType::Template if self.current.head == Some(true) => {
-                    match self.parse_template_literal()? {
+                    match self.parse_template_literal(true)? {
                         Node::TemplateLiteral {
                             quasis,
                             expressions,
@@ -2354,7 +2354,7 @@ where
                     expr = self.parse_static_member_expr(expr)?
                 }
                 TokenType::Template if self.current.head == Some(true) => {
-                    match self.parse_template_literal()? {
+                    match self.parse_template_literal(true)? {
                         Node::TemplateLiteral {
                             quasis,
                             expressions,
@@ -2570,7 +2570,7 @@ where
                     span: self.end_span(),
                 })
             }
-            TokenType::Template => self.parse_template_literal(),
+            TokenType::Template => self.parse_template_literal(false),
             TokenType::Punctuator if self.current.matches_punc("(") => self.parse_seq_or_arrow(),
             _ => self.unexpected_current(),
         }
@@ -3073,17 +3073,17 @@ where
         }))
     }
 
-    fn parse_template_literal(&mut self) -> Result<Node> {
+    fn parse_template_literal(&mut self, tagged: bool) -> Result<Node> {
         log!("parse_template_literal");
         let mut expressions = vec![];
         let mut quasis = vec![];
         self.start_span();
-        let quasi = self.parse_template_head()?;
+        let quasi = self.parse_template_element(true, tagged)?;
         let mut is_tail = quasi.tail;
         quasis.push(quasi);
         while !is_tail {
             expressions.push(self.with_in(true, &mut Self::parse_expression)?);
-            let quasi = self.parse_template_element()?;
+            let quasi = self.parse_template_element(false, tagged)?;
             is_tail = quasi.tail;
             quasis.push(quasi);
         }
@@ -3095,34 +3095,21 @@ where
         })
     }
 
-    fn parse_template_head(&mut self) -> Result<TemplateElement> {
-        log!("parse_template_head");
-        match self.current.tokentype {
-            TokenType::Template => match &self.current.head {
-                Some(true) => {
-                    let token = self.advance(LexGoal::Div)?;
-                    Ok(TemplateElement {
-                        value: TemplateElementValue {
-                            cooked: token.cooked.unwrap(),
-                            raw: String::from(&token.value),
-                        },
-                        tail: token.tail.unwrap(),
-                    })
-                }
-                _ => self.error_current(ErrorType::UnexpectedTemplateString),
-            },
-            _ => self.unexpected_current(),
-        }
-    }
-
-    fn parse_template_element(&mut self) -> Result<TemplateElement> {
+    fn parse_template_element(&mut self, head: bool, tagged: bool) -> Result<TemplateElement> {
         log!("parse_template_element");
         match self.current.tokentype {
             TokenType::Template => {
+                if self.current.head != Some(head) {
+                    return self.error_current(ErrorType::UnexpectedTemplateString);
+                }
+                // Only a tagged template may contain malformed escape sequences.
+                if self.current.cooked.is_none() && !tagged {
+                    return self.error_current(ErrorType::InvalidOrUnexpectedToken);
+                }
                 let token = self.advance(LexGoal::Div)?;
                 Ok(TemplateElement {
                     value: TemplateElementValue {
-                        cooked: token.cooked.unwrap(),
+                        cooked: token.cooked,
                         raw: String::from(&token.value),
                     },
                     tail: token.tail.unwrap(),
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 1abb599..413936d 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -29,8 +29,6 @@ pub struct Scanner<I> {
     pub col: usize,
     pub newline: bool,
     reader: Reader<I>,
-    record_raw: bool,
-    raw_string: String,
     curly_stack: Vec<Brace>,
     start_line: usize,
     start_col: usize,
@@ -50,8 +48,6 @@ where
             col: 1,
             newline: false,
             reader: Reader::new(source),
-            record_raw: false,
-            raw_string: String::with_capacity(8),
             curly_stack: Vec::new(),
             start_line: 1,
             start_col: 1,
@@ -214,11 +210,11 @@ where
                 has_digits = true;
                 value = value.saturating_mul(16).saturating_add(digit);
             }
-            // consume "}"
-            self.expect('}')?;
-            if !has_digits || value > 0x10FFFF {
+            if !has_digits || value > 0x10FFFF || !self.matches('}') {
                 return self.error(ErrorType::InvalidUnicodeEscapeSequence);
             }
+            // consume "}"
+            self.consume();
         } else {
             for _ in 0..4 {
                 match self.peek().and_then(|cp| cp.to_digit(16)) {
@@ -529,18 +525,15 @@ where
         self.expect('x')?;
         let mut value = 0;
         for _ in 0..2 {
-            match self.consume() {
-                Some(cp) if cp.is_hex_digit() => {
-                    value = value * 16 + cp.to_digit(16).unwrap();
+            match self.peek().and_then(|cp| cp.to_digit(16)) {
+                Some(digit) => {
+                    self.consume();
+                    value = value * 16 + digit as u8;
                 }
-                _ => return self.error(ErrorType::InvalidOrUnexpectedToken),
+                None => return self.error(ErrorType::InvalidOrUnexpectedToken),
             }
         }
-        char::from_u32(value).ok_or(Error {
-            line: self.line,
-            col: self.col,
-            errortype: ErrorType::InvalidOrUnexpectedToken,
-        })
+        Ok(value as char)
     }
 
     // *******************************************************************
@@ -620,125 +613,94 @@ where
     // *******************************************************************
 
     pub fn scan_template(&mut self) -> Result<Token> {
-        let mut value = String::new();
-        let mut tail = false;
-        let octal = false;
         self.expect('`')?;
-        self.start_recording();
-        let cooked = self.scan2_until_with(
-            |(cp1, cp2)| cp1 == Some('`') || (cp1 == Some('$') && cp2 == Some('{')),
-            &mut |this| this.scan_template_char(),
-        )?;
-        value.push_str(&self.stop_recording());
-        match self.peek2() {
-            (Some('$'), Some('{')) => {
-                self.consume();
-                self.consume();
-                self.curly_stack.push(Brace::Template);
-            }
-            (Some('`'), _) => {
-                self.consume();
-                tail = true;
-            }
-            (_, _) => unreachable!(),
-        }
-        self.token(
-            TokenType::Template,
-            Value::Str(value),
-            None,
-            None,
-            Some(octal),
-            Some(cooked),
-            Some(true),
-            Some(tail),
-        )
+        self.scan_template_characters(true)
     }
 
     pub fn scan_template_substitution_tail(&mut self) -> Result<Token> {
-        let mut value = String::new();
-        let mut tail = false;
-        let octal = false;
         self.expect('}')?;
-        self.start_recording();
-        let cooked = self.scan2_until_with(
-            |(cp1, cp2)| cp1 == Some('`') || (cp1 == Some('$') && cp2 == Some('{')),
-            &mut |this| this.scan_template_char(),
-        )?;
-        value.push_str(&self.stop_recording());
-        match self.peek2() {
-            (Some('$'), Some('{')) => {
-                self.consume();
-                self.consume();
-                self.curly_stack.push(Brace::Template);
-            }
-            (Some('`'), _) => {
-                self.consume();
-                tail = true;
+        self.scan_template_characters(false)
+    }
+
+    fn scan_template_characters(&mut self, head: bool) -> Result<Token> {
+        let mut units = vec![];
+        // There is no cooked value when there is a malformed escape sequence.
+        let mut malformed = false;
+        let tail = loop {
+            match self.peek2() {
+                (Some('`'), _) => break true,
+                (Some('$'), Some('{')) => break false,
+                (None, _) => return self.error(ErrorType::InvalidOrUnexpectedToken),
+                (_, _) => match self.scan_template_char() {
+                    Ok(Some(value)) => Self::push_utf16(&mut units, value),
+                    Ok(None) => (),
+                    Err(_) => malformed = true,
+                },
             }
-            (_, _) => unreachable!(),
+        };
+        let raw = self.token_text[1..]
+            .replace("\r\n", "\n")
+            .replace('\r', "\n");
+        self.consume();
+        if !tail {
+            self.consume();
+            self.curly_stack.push(Brace::Template);
         }
+        let cooked = if malformed {
+            None
+        } else {
+            Some(String::from_utf16_lossy(&units))
+        };
         self.token(
             TokenType::Template,
-            Value::Str(value),
+            Value::Str(raw),
             None,
             None,
-            Some(octal),
-            Some(cooked),
             Some(false),
+            cooked,
+            Some(head),
             Some(tail),
         )
     }
 
-    fn scan_template_char(&mut self) -> Result<char> {
+    /// Scans the code point or code unit that comes next in a template, if the source characters
+    /// read stand for one. The error for a malformed escape sequence leaves what follows unread.
+    fn scan_template_char(&mut self) -> Result<Option<u32>> {
         match self.peek2() {
-            (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
+            (Some('\\'), Some('x')) => self.scan_hex_esc_seq().map(|cp| Some(cp as u32)),
+            (Some('\\'), Some('u')) => self.scan_unicode_esc_value().map(Some),
+            (Some('\\'), Some(cp)) if cp.is_decimal_digit() => {
                 self.consume();
-                match self.peek2() {
-                    (Some('\r'), Some('\n')) => {
-                        self.consume();
-                        self.consume();
-                        Ok('\0')
-                    }
-                    (_, _) => {
-                        self.consume();
-                        Ok('\0')
+                self.consume();
+                match (cp, self.peek()) {
+                    ('0', Some(next)) if next.is_decimal_digit() => {
+                        self.error(ErrorType::InvalidOrUnexpectedToken)
                     }
+                    ('0', _) => Ok(Some(0)),
+                    (_, _) => self.error(ErrorType::InvalidOrUnexpectedToken),
                 }
             }
-            (Some('\\'), Some('b'))
-            | (Some('\\'), Some('f'))
-            | (Some('\\'), Some('v'))
-            | (Some('\\'), Some('n'))
-            | (Some('\\'), Some('r'))
-            | (Some('\\'), Some('t')) => {
+            (Some('\\'), Some(cp)) if cp.is_line_terminator() => {
+                self.consume();
+                if let (Some('\r'), Some('\n')) = self.peek2() {
+                    self.consume();
+                }
                 self.consume();
-                self.consume().map(|cp| cp.unescape()).ok_or(Error {
-                    line: self.line,
-                    col: self.col,
-                    errortype: ErrorType::UnexpectedEOS,
-                })
+                Ok(None)
             }
-            (Some('\\'), Some('x')) => self.scan_hex_esc_seq(),
-            (Some('\\'), Some('u')) => self.scan_unicode_esc_seq(),
-            // TODO: handle octal escape
-            (Some('\\'), Some(_)) => {
+            (Some('\\'), Some(cp)) => {
+                self.consume();
                 self.consume();
-                self.consume().ok_or(Error {
-                    line: self.line,
-                    col: self.col,
-                    errortype: ErrorType::UnexpectedEOS,
-                })
+                Ok(Some(cp.unescape() as u32))
             }
-            (Some(cp), _) if cp.is_line_terminator() => {
+            (Some('\r'), next) => {
                 self.consume();
-                Ok('\n')
+                if next == Some('\n') {
+                    self.consume();
+                }
+                Ok(Some('\n' as u32))
             }
-            (Some(_), _) => self.consume().ok_or(Error {
-                line: self.line,
-                col: self.col,
-                errortype: ErrorType::UnexpectedEOS,
-            }),
-            (_, _) => self.error(ErrorType::InvalidOrUnexpectedToken),
+            (_, _) => Ok(self.consume().map(|cp| cp as u32)),
         }
     }
 
@@ -909,22 +871,6 @@ where
         }
     }
 
-    pub fn scan2_until_with<F, G>(&mut self, pred: F, read: &mut G) -> Result<String>
-    where
-        F: Fn((Option<char>, Option<char>)) -> bool,
-        G: FnMut(&mut Self) -> Result<char>,
-    {
-        let mut res = String::new();
-        loop {
-            match self.peek2() {
-                (Some(cp1), Some(cp2)) if pred((Some(cp1), Some(cp2))) => return Ok(res),
-                (Some(cp1), None) if pred((Some(cp1), None)) => return Ok(res),
-                (Some(_), _) => res.push(read(self)?),
-                (None, _) => return Ok(res),
-            }
-        }
-    }
-
     fn peek(&mut self) -> Option<char> {
         self.reader.lookahead(0)
     }
@@ -935,11 +881,6 @@ where
 
     fn consume(&mut self) -> Option<char> {
         let cp = self.reader.next();
-        if self.record_raw {
-            if let Some(cp) = cp {
-                self.raw_string.push(cp);
-            }
-        }
         if let Some(cp) = cp {
             self.current += 1;
             self.col += 1;
@@ -964,15 +905,6 @@ where
         self.token_text.clear();
     }
 
-    fn start_recording(&mut self) {
-        self.record_raw = true;
-    }
-
-    fn stop_recording(&mut self) -> String {
-        self.record_raw = false;
-        mem::replace(&mut self.raw_string, String::with_capacity(8))
-    }
-
     fn token(
         &mut self,
         tokentype: TokenType,
-- 
2.43.0


From 7947196da346fd07b591baa1ce7a36c3a27a5771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 15/46] fix: accept unicode escapes in identifiers and never
 read an escaped word or a string as a keyword

---
 giron/src/parser/parser.rs   |  8 ++++----
 giron/src/parser/syntax.rs   | 10 ++++------
 giron/src/scanner/scanner.rs | 31 +++++++++++++++++++------------
 3 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 3fd0569..16f453d 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3819,7 +3819,7 @@ where
                     span: self.end_span(),
                 })
             }
-            TokenType::Keyword if self.current.matches_str("yield") => {
+            TokenType::Keyword if self.current.to_str() == "yield" => {
                 if self.params.has_yield {
                     self.error_current(ErrorType::YieldInParameter)
                 } else {
@@ -3830,7 +3830,7 @@ where
                     })
                 }
             }
-            TokenType::Keyword if self.current.matches_str("await") => {
+            TokenType::Keyword if self.current.to_str() == "await" => {
                 if self.params.has_await {
                     self.error_current(ErrorType::AwaitExpressionFormalParameter)
                 } else {
@@ -3858,13 +3858,13 @@ where
                 name: self.advance(LexGoal::Div)?.to_string(),
                 span: self.end_span(),
             })),
-            TokenType::Keyword if self.current.matches_str("yield") => {
+            TokenType::Keyword if self.current.to_str() == "yield" => {
                 Ok(Binding::BindingIdentifier(BindingIdentifier {
                     name: self.advance(LexGoal::Div)?.to_string(),
                     span: self.end_span(),
                 }))
             }
-            TokenType::Keyword if self.current.matches_str("await") => {
+            TokenType::Keyword if self.current.to_str() == "await" => {
                 Ok(Binding::BindingIdentifier(BindingIdentifier {
                     name: self.advance(LexGoal::Div)?.to_string(),
                     span: self.end_span(),
diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 38a6029..10ffb05 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -47,10 +47,8 @@ impl Syntax for Token {
     }
 
     fn matches_str(&self, val: &str) -> bool {
-        match &self.value {
-            Value::Str(s) if &s[..] == val => true,
-            _ => false,
-        }
+        // Compares the source text: neither an identifier with escapes nor a string is a keyword.
+        self.raw == val
     }
 
     fn matches_punc(&self, val: &str) -> bool {
@@ -124,7 +122,7 @@ impl Syntax for Token {
             _ => false,
         };
         let unary_keyword = match self.tokentype {
-            TokenType::Keyword => match self.to_str() {
+            TokenType::Keyword => match &self.raw[..] {
                 "delete" | "void" | "typeof" => true,
                 "await" if has_await => true,
                 _ => false,
@@ -217,7 +215,7 @@ impl Syntax for Token {
     }
 
     fn is_strict_reserved_kw(&self) -> bool {
-        match self.to_str() {
+        match &String::from(&self.value)[..] {
             "implements" | "interface" | "package" | "private" | "protected" | "public" => true,
             _ => false,
         }
diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 413936d..3d36b93 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -67,7 +67,7 @@ where
         self.start_new_token();
 
         match self.peek2() {
-            (Some(cp), _) if cp.is_identifier_start() => self.scan_identifier(),
+            (Some(cp), _) if cp.is_identifier_start() || cp == '\\' => self.scan_identifier(),
             (Some('"'), _) | (Some('\''), _) => self.scan_string_literal(),
             (Some('.'), Some(cp)) if cp.is_decimal_digit() => self.scan_numeric_literal(),
             (Some(cp), _) if cp.is_decimal_digit() => self.scan_numeric_literal(),
@@ -142,20 +142,27 @@ where
     pub fn scan_identifier(&mut self) -> Result<Token> {
         let mut value = String::new();
         value.push(self.scan_identifier_start()?);
-        let part = self.scan_until_with(
-            |cp| cp != '\\' && !cp.is_identifier_continue(),
-            &mut |this| {
-                let cp = this.consume().unwrap();
-                if cp == '\\' {
-                    this.scan_unicode_esc_seq()
-                } else {
-                    Ok(cp)
+        loop {
+            let cp = match self.peek() {
+                Some('\\') => self.scan_unicode_esc_seq()?,
+                Some(cp) if cp.is_identifier_continue() => {
+                    self.consume();
+                    cp
                 }
-            },
-        )?;
-        value.push_str(&part);
+                _ => break,
+            };
+            if !cp.is_identifier_continue() {
+                return self.error(ErrorType::InvalidUnicodeEscapeSequence);
+            }
+            value.push(cp);
+        }
 
+        // A reserved word written with escapes is none of the tokens it spells, but still reserved.
+        let is_escaped = self.token_text != value;
         match value.as_str() {
+            "null" | "true" | "false" if is_escaped => {
+                self.token_simple(TokenType::Keyword, Value::Str(value))
+            }
             "null" => self.token_simple(TokenType::NullLiteral, Value::Null),
             "true" | "false" => {
                 self.token_simple(TokenType::BooleanLiteral, Value::Bool(value == "true"))
-- 
2.43.0


From 49d96aa4774bf927aab56ce6d5db036f3d6cfa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 16/46] fix: parse directive prologues as ESTree directives
 with whole expressions

---
 giron/src/estree/estree.rs |  1 +
 giron/src/parser/parser.rs | 24 ++++++++++++++++--------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 13898dc..f82c8f7 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -747,6 +747,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "ExpressionStatement")]
     Directive {
         expression: Box<Node>, // Expression
         directive: String,
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 16f453d..e74d57b 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -170,18 +170,26 @@ where
             match self.current.tokentype {
                 TokenType::StringLiteral => {
                     self.start_span();
-                    let expr = self.parse_expression()?;
-                    match &expr {
-                        Node::Literal { value, .. }
-                            if value == &Value::Str(String::from("use strict")) =>
-                        {
-                            self.ctx.strict = true;
+                    let expr = self.with_in(true, &mut Self::parse_expression)?;
+                    let directive = match &expr {
+                        Node::Literal { raw, .. } => String::from(&raw[1..raw.len() - 1]),
+                        _ => {
+                            // The prologue ends at the first statement that is more than a string.
+                            self.consume_semicolon(LexGoal::RegExp)?;
+                            body.push(Node::ExpressionStatement {
+                                expression: Box::from(expr),
+                                span: self.end_span(),
+                            });
+                            return Ok(body);
                         }
-                        _ => (),
+                    };
+                    if directive == "use strict" {
+                        self.ctx.strict = true;
                     }
                     self.consume_semicolon(LexGoal::RegExp)?;
-                    body.push(Node::ExpressionStatement {
+                    body.push(Node::Directive {
                         expression: Box::from(expr),
+                        directive,
                         span: self.end_span(),
                     });
                 }
-- 
2.43.0


From a7004eefc6bdbd85ab8fa195e3d5c264d661ac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 17/46] fix: reject reserved words, yield and await as
 identifiers exactly where they are reserved

---
 giron/src/parser/parser.rs | 123 +++++++++++++++++--------------------
 giron/src/parser/syntax.rs |   3 +-
 2 files changed, 59 insertions(+), 67 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index e74d57b..6cd9c01 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3742,8 +3742,14 @@ where
                     self.parse_function_expr(true)
                 }
                 _ => {
-                    let param = match self.with_await(true, &mut Self::parse_id_reference)? {
-                        Node::Identifier { name, .. } => {
+                    let param = match self.with_params(
+                        Params {
+                            has_await: true,
+                            ..self.params
+                        },
+                        &mut Self::parse_binding_id,
+                    )? {
+                        Binding::BindingIdentifier(BindingIdentifier { name, .. }) => {
                             Ok(FunctionParameter::BindingIdentifier { name })
                         }
                         _ => unreachable!(),
@@ -3808,78 +3814,63 @@ where
         //     Identifier
         //     [~Yield] yield
         //     [~Await] await
+        self.check_identifier(&self.current, false)?;
         self.start_span();
-
-        if self.ctx.strict && self.current.is_strict_reserved_kw() {
-            return self.error_current(ErrorType::UnexpectedStrictReserved);
-        }
-
-        match self.current.tokentype {
-            TokenType::Identifier => {
-                let name = self.advance(LexGoal::Div)?.to_string();
-                let assign_target_type = match &name[..] {
-                    "eval" | "arguments" if self.ctx.strict => "strict",
-                    _ => "simple",
-                };
-                Ok(Node::Identifier {
-                    name,
-                    assign_target_type,
-                    span: self.end_span(),
-                })
-            }
-            TokenType::Keyword if self.current.to_str() == "yield" => {
-                if self.params.has_yield {
-                    self.error_current(ErrorType::YieldInParameter)
-                } else {
-                    Ok(Node::Identifier {
-                        name: self.advance(LexGoal::Div)?.to_string(),
-                        assign_target_type: "simple",
-                        span: self.end_span(),
-                    })
-                }
-            }
-            TokenType::Keyword if self.current.to_str() == "await" => {
-                if self.params.has_await {
-                    self.error_current(ErrorType::AwaitExpressionFormalParameter)
-                } else {
-                    Ok(Node::Identifier {
-                        name: self.advance(LexGoal::Div)?.to_string(),
-                        assign_target_type: "simple",
-                        span: self.end_span(),
-                    })
-                }
-            }
-            _ => self.unexpected_current(),
-        }
+        let name = self.advance(LexGoal::Div)?.to_string();
+        let assign_target_type = match &name[..] {
+            "eval" | "arguments" if self.ctx.strict => "strict",
+            _ => "simple",
+        };
+        Ok(Node::Identifier {
+            name,
+            assign_target_type,
+            span: self.end_span(),
+        })
     }
 
     fn parse_binding_id(&mut self) -> Result<Binding> {
         log!("parse_binding_id");
+        // BindingIdentifier[Yield, Await]:
+        //     Identifier
+        //     yield
+        //     await
+        self.check_identifier(&self.current, true)?;
         self.start_span();
+        Ok(Binding::BindingIdentifier(BindingIdentifier {
+            name: self.advance(LexGoal::Div)?.to_string(),
+            span: self.end_span(),
+        }))
+    }
 
-        if self.ctx.strict && self.current.is_strict_reserved_kw() {
-            return self.error_current(ErrorType::UnexpectedStrictReserved);
-        }
-
-        match self.current.tokentype {
-            TokenType::Identifier => Ok(Binding::BindingIdentifier(BindingIdentifier {
-                name: self.advance(LexGoal::Div)?.to_string(),
-                span: self.end_span(),
-            })),
-            TokenType::Keyword if self.current.to_str() == "yield" => {
-                Ok(Binding::BindingIdentifier(BindingIdentifier {
-                    name: self.advance(LexGoal::Div)?.to_string(),
-                    span: self.end_span(),
-                }))
-            }
-            TokenType::Keyword if self.current.to_str() == "await" => {
-                Ok(Binding::BindingIdentifier(BindingIdentifier {
-                    name: self.advance(LexGoal::Div)?.to_string(),
-                    span: self.end_span(),
-                }))
+    /// Checks that the token can be used as an identifier in the current context.
+    fn check_identifier(&self, token: &Token, is_binding: bool) -> Result<()> {
+        let errortype = match token.tokentype {
+            TokenType::Identifier | TokenType::Keyword
+                if self.ctx.strict && token.is_strict_reserved_kw() =>
+            {
+                ErrorType::UnexpectedStrictReserved
             }
-            _ => self.unexpected_current(),
-        }
+            TokenType::Identifier => match token.to_str() {
+                "eval" | "arguments" if self.ctx.strict && is_binding => {
+                    return self.unexpected(token.clone())
+                }
+                _ => return Ok(()),
+            },
+            TokenType::Keyword => match (token.to_str(), &self.goal) {
+                ("yield", _) if self.params.has_yield => ErrorType::YieldInParameter,
+                ("yield", _) => return Ok(()),
+                ("await", _) if self.params.has_await => ErrorType::AwaitExpressionFormalParameter,
+                // `await` is reserved in modules.
+                ("await", SyntaxGoal::Script) => return Ok(()),
+                (_, _) => return self.unexpected(token.clone()),
+            },
+            _ => return self.unexpected(token.clone()),
+        };
+        Err(Error {
+            line: token.line_num,
+            col: token.col,
+            errortype,
+        })
     }
 
     fn parse_id_name(&mut self, goal: LexGoal) -> Result<String> {
diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 10ffb05..04a62e4 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -216,7 +216,8 @@ impl Syntax for Token {
 
     fn is_strict_reserved_kw(&self) -> bool {
         match &String::from(&self.value)[..] {
-            "implements" | "interface" | "package" | "private" | "protected" | "public" => true,
+            "implements" | "interface" | "let" | "package" | "private" | "protected" | "public"
+            | "static" | "yield" => true,
             _ => false,
         }
     }
-- 
2.43.0


From 2b8cc7cbaa8efb4ea9eb87b132fbcd84e3bf5800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 18/46] fix: parse imports without an import clause instead of
 panicking

---
 giron/src/parser/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 6cd9c01..c30e6d9 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -264,7 +264,15 @@ where
                     _ => self.parse_import_from_dclr(specifiers),
                 }
             }
-            TokenType::StringLiteral => unimplemented!(),
+            TokenType::StringLiteral => {
+                let source = self.parse_module_specifier()?;
+                self.consume_semicolon(LexGoal::RegExp)?;
+                Ok(Node::ImportDeclaration {
+                    specifiers: vec![],
+                    source,
+                    span: self.end_span(),
+                })
+            }
             _ => self.unexpected_current(),
         }
     }
-- 
2.43.0


From 405f8f71caa0a3379f8823f26a754bf2bfef404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 19/46] fix: report default imports as ImportDefaultSpecifier
 and reject imports bound to reserved words

---
 giron/src/parser/parser.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index c30e6d9..2f12961 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -243,9 +243,8 @@ where
                         &mut Self::parse_binding_id,
                     )?
                     .to_id()?;
-                let imported = local.clone();
                 let mut specifiers =
-                    vec![ImportDeclarationSpecifier::ImportSpecifier { local, imported }];
+                    vec![ImportDeclarationSpecifier::ImportDefaultSpecifier { local }];
                 match self.current.tokentype {
                     TokenType::Punctuator if self.current.matches_punc(",") => {
                         self.advance(LexGoal::RegExp)?;
@@ -299,6 +298,7 @@ where
         self.consume("{", LexGoal::RegExp)?;
         let specifiers = self.parse_until_punc("}", &mut |this| {
             this.start_span();
+            let token = this.current.clone();
             let name = this.parse_id_name(LexGoal::RegExp)?;
             let span = this.end_span();
             match this.current.tokentype {
@@ -321,14 +321,8 @@ where
                     Ok(ImportDeclarationSpecifier::ImportSpecifier { local, imported })
                 }
                 _ => {
-                    if this.scanner.is_keyword(&name) {
-                        let token = this.current.clone();
-                        return Err(Error {
-                            line: token.line_num,
-                            col: token.col,
-                            errortype: ErrorType::UnexpectedReserved,
-                        });
-                    }
+                    // The imported name is also the local binding.
+                    this.check_identifier(&token, true)?;
                     let imported = Identifier {
                         name: name.clone(),
                         span: span.clone(),
-- 
2.43.0


From d9d149fe65b0acf0b2d2cbb792a11a15eaeeedff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 20/46] fix: parse export lists with a source or a semicolon,
 and report local and exported names the right way round

---
 giron/src/parser/parser.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 2f12961..c3628af 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -461,7 +461,7 @@ where
             TokenType::Punctuator if self.current.matches_punc("{") => {
                 let specifiers = self.parse_named_export_specifiers()?;
                 match self.current.tokentype {
-                    TokenType::Keyword if self.current.matches_str("from") => {
+                    TokenType::Identifier if self.current.matches_str("from") => {
                         self.advance(LexGoal::RegExp)?;
                         let source = Some(self.parse_module_specifier()?);
                         self.consume_semicolon(LexGoal::RegExp)?;
@@ -472,12 +472,15 @@ where
                             span: self.end_span(),
                         })
                     }
-                    _ => Ok(Node::ExportNamedDeclaration {
-                        declaration: None,
-                        specifiers,
-                        source: None,
-                        span: self.end_span(),
-                    }),
+                    _ => {
+                        self.consume_semicolon(LexGoal::RegExp)?;
+                        Ok(Node::ExportNamedDeclaration {
+                            declaration: None,
+                            specifiers,
+                            source: None,
+                            span: self.end_span(),
+                        })
+                    }
                 }
             }
             TokenType::Punctuator if self.current.matches_punc("*") => {
@@ -501,13 +504,13 @@ where
             let name = this.parse_id_name(LexGoal::RegExp)?;
             match this.current.tokentype {
                 TokenType::Identifier if this.current.matches_str("as") => {
-                    let exported = Identifier {
+                    let local = Identifier {
                         name,
                         span: this.end_span(),
                     };
                     this.advance(LexGoal::RegExp)?;
                     this.start_span();
-                    let local = Identifier {
+                    let exported = Identifier {
                         name: this.parse_id_name(LexGoal::RegExp)?,
                         span: this.end_span(),
                     };
-- 
2.43.0


From 76d7ddca794c3f9927e6fd9f0aeced4f463d9d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 21/46] fix: parse every form of class member

---
 giron/src/parser/parser.rs | 340 +++++++++++++------------------------
 1 file changed, 122 insertions(+), 218 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index c3628af..7debc73 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1677,220 +1677,7 @@ where
                     this.advance(LexGoal::RegExp)?;
                     Ok(None)
                 }
-                _ => {
-                    let r#static = match this.current.tokentype {
-                        TokenType::Keyword if this.current.matches_str("static") => {
-                            this.advance(LexGoal::RegExp)?;
-                            true
-                        }
-                        _ => false,
-                    };
-                    match this.current.tokentype {
-                        TokenType::Identifier if this.current.matches_str("get") => {
-                            this.advance(LexGoal::RegExp)?;
-                            let (key, computed) = this.parse_property_name()?;
-                            this.consume("(", LexGoal::RegExp)?;
-                            this.consume(")", LexGoal::RegExp)?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: false,
-                                    has_await: false,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params: vec![],
-                                body,
-                                generator: false,
-                                expression: false,
-                                r#async: false,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind: "get",
-                                r#static,
-                            }))
-                        }
-                        TokenType::Identifier if this.current.matches_str("set") => {
-                            this.advance(LexGoal::RegExp)?;
-                            let (key, computed) = this.parse_property_name()?;
-                            let params = this.with_params(
-                                Params {
-                                    has_yield: false,
-                                    has_await: false,
-                                    ..this.params
-                                },
-                                &mut Self::parse_formal_params,
-                            )?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: false,
-                                    has_await: false,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params,
-                                body,
-                                generator: false,
-                                expression: false,
-                                r#async: false,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind: "set",
-                                r#static,
-                            }))
-                        }
-                        TokenType::Identifier if this.current.matches_str("async") => {
-                            this.advance(LexGoal::RegExp)?;
-                            let r#async = true;
-                            let generator = match this.current.tokentype {
-                                TokenType::Punctuator
-                                    if !this.has_line_terminator
-                                        && this.current.matches_punc("*") =>
-                                {
-                                    this.advance(LexGoal::RegExp)?;
-                                    true
-                                }
-                                _ => false,
-                            };
-                            if !generator && !this.has_line_terminator {
-                                return this.unexpected_current();
-                            }
-                            let (key, computed) = this.parse_property_name()?;
-                            let params = this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_formal_params,
-                            )?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params,
-                                body,
-                                generator,
-                                expression: false,
-                                r#async,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind: "method",
-                                r#static,
-                            }))
-                        }
-                        TokenType::Punctuator if this.current.matches_punc("*") => {
-                            this.advance(LexGoal::RegExp)?;
-                            let r#async = false;
-                            let generator = true;
-                            let (key, computed) = this.parse_property_name()?;
-                            let params = this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_formal_params,
-                            )?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params,
-                                body,
-                                generator,
-                                expression: false,
-                                r#async,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind: "method",
-                                r#static,
-                            }))
-                        }
-                        _ => {
-                            let r#async = false;
-                            let generator = false;
-                            let (key, computed) = this.parse_property_name()?;
-                            let kind = match &key {
-                                PropertyKey::Identifier(Identifier { name, .. }) => {
-                                    if name == &String::from("constructor") {
-                                        "constructor"
-                                    } else {
-                                        "method"
-                                    }
-                                }
-                                PropertyKey::Literal(Literal { raw, .. }) => {
-                                    if raw == &String::from("constructor") {
-                                        "constructor"
-                                    } else {
-                                        "method"
-                                    }
-                                }
-                                _ => "method",
-                            };
-                            let params = this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_formal_params,
-                            )?;
-                            let body = Box::from(this.with_params(
-                                Params {
-                                    has_yield: generator,
-                                    has_await: r#async,
-                                    ..this.params
-                                },
-                                &mut Self::parse_function_body,
-                            )?);
-                            let value = FunctionExpression {
-                                id: None,
-                                params,
-                                body,
-                                generator,
-                                expression: false,
-                                r#async,
-                            };
-                            Ok(Some(MethodDefinition {
-                                key: key.as_node(),
-                                computed,
-                                value: Some(value),
-                                kind,
-                                r#static,
-                            }))
-                        }
-                    }
-                }
+                _ => Ok(Some(this.parse_class_element()?)),
             })?;
         let mut body = vec![];
         for item in body_with_empty.into_iter() {
@@ -1901,6 +1688,119 @@ where
         Ok(ClassBody { body })
     }
 
+    fn parse_class_element(&mut self) -> Result<MethodDefinition> {
+        log!("parse_class_element");
+        let r#static = self.matches_modifier("static")?;
+        if r#static {
+            self.advance(LexGoal::RegExp)?;
+        }
+        let (accessor, r#async, generator) = self.parse_method_modifiers()?;
+        let (key, computed) = self.parse_property_name()?;
+        let is_constructor = !r#static
+            && !computed
+            && match &key {
+                PropertyKey::Identifier(Identifier { name, .. }) => name == "constructor",
+                PropertyKey::Literal(Literal { value, .. }) => {
+                    value == &Value::Str(String::from("constructor"))
+                }
+                _ => false,
+            };
+        let kind = match accessor {
+            Some(kind) => kind,
+            None if is_constructor && !r#async && !generator => "constructor",
+            None => "method",
+        };
+        let value = self.parse_method_function(kind, r#async, generator)?;
+        Ok(MethodDefinition {
+            key: key.as_node(),
+            computed,
+            value: Some(value),
+            kind,
+            r#static,
+        })
+    }
+
+    /// Whether the current token is the given contextual keyword in front of a property name,
+    /// rather than a property name itself.
+    fn matches_modifier(&mut self, modifier: &str) -> Result<bool> {
+        if !self.current.matches_str(modifier) {
+            return Ok(false);
+        }
+        let next = self.peek()?;
+        Ok(match next.tokentype {
+            TokenType::Punctuator => next.matches_punc("[") || next.matches_punc("*"),
+            TokenType::Template | TokenType::RegularExpression | TokenType::Eof => false,
+            _ => true,
+        })
+    }
+
+    /// Parses what may come in front of the name of a method: "get", "set", "async" and "*".
+    fn parse_method_modifiers(&mut self) -> Result<(Option<&'static str>, bool, bool)> {
+        let mut accessor = None;
+        let mut r#async = false;
+        if self.matches_modifier("get")? {
+            accessor = Some("get");
+        } else if self.matches_modifier("set")? {
+            accessor = Some("set");
+        } else {
+            r#async = self.matches_modifier("async")?;
+        }
+        if accessor.is_some() || r#async {
+            self.advance(LexGoal::RegExp)?;
+        }
+        if r#async && self.has_line_terminator {
+            return self.unexpected_current();
+        }
+        let generator = accessor.is_none() && self.current.matches_punc("*");
+        if generator {
+            self.advance(LexGoal::RegExp)?;
+        }
+        Ok((accessor, r#async, generator))
+    }
+
+    fn parse_method_function(
+        &mut self,
+        kind: &'static str,
+        r#async: bool,
+        generator: bool,
+    ) -> Result<FunctionExpression> {
+        log!("parse_method_function");
+        let open_paren = self.current.clone();
+        let params = self.with_params(
+            Params {
+                has_yield: generator,
+                has_await: r#async,
+                ..self.params
+            },
+            &mut Self::parse_formal_params,
+        )?;
+        let has_valid_arity = match (kind, &params[..]) {
+            ("get", params) => params.is_empty(),
+            ("set", [FunctionParameter::RestElement { .. }]) => false,
+            ("set", params) => params.len() == 1,
+            (_, _) => true,
+        };
+        if !has_valid_arity {
+            return self.unexpected(open_paren);
+        }
+        let body = Box::from(self.with_params(
+            Params {
+                has_yield: generator,
+                has_await: r#async,
+                ..self.params
+            },
+            &mut Self::parse_function_body,
+        )?);
+        Ok(FunctionExpression {
+            id: None,
+            params,
+            body,
+            generator,
+            expression: false,
+            r#async,
+        })
+    }
+
     fn parse_lexical_dclr(&mut self) -> Result<Node> {
         log!("parse_lexical_dclr");
         // VariableDeclaration {
@@ -3519,7 +3419,10 @@ where
     fn parse_property_name(&mut self) -> Result<(PropertyKey, bool)> {
         log!("parse_property_name");
         match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => {
+            TokenType::Identifier
+            | TokenType::Keyword
+            | TokenType::BooleanLiteral
+            | TokenType::NullLiteral => {
                 self.start_span();
                 Ok((
                     PropertyKey::Identifier(Identifier {
@@ -3881,9 +3784,10 @@ where
     fn parse_id_name(&mut self, goal: LexGoal) -> Result<String> {
         log!("parse_id_name");
         match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => {
-                Ok(self.advance(goal)?.value.string().unwrap())
-            }
+            TokenType::Identifier
+            | TokenType::Keyword
+            | TokenType::BooleanLiteral
+            | TokenType::NullLiteral => Ok(String::from(&self.advance(goal)?.value)),
             _ => self.unexpected_current(),
         }
     }
-- 
2.43.0


From 6b4327c1500ef1ce73aee7d416d1adae0c62ce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 22/46] fix: parse every form of object literal member

---
 giron/src/estree/estree.rs |   2 +
 giron/src/parser/parser.rs | 315 +++++--------------------------------
 2 files changed, 42 insertions(+), 275 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index f82c8f7..1a91d1d 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -348,10 +348,12 @@ pub enum ObjectExpressionProperty {
         kind: &'static str,
         method: bool,
         shorthand: bool,
+        #[serde(skip)]
         span: Span,
     },
     SpreadElement {
         argument: Node,
+        #[serde(skip)]
         span: Span,
     },
 }
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 7debc73..214a3ab 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3239,169 +3239,35 @@ where
                 return Ok(res);
             }
 
-            let mut computed = false;
-            let mut r#async = false;
-            let mut generator = false;
-            let mut kind = "init";
-
-            match this.current.tokentype {
-                TokenType::Identifier if this.current.matches_str("get") => {
-                    let next_token = this.peek()?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                        }
-                        _ => {
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("get"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            }
-                            kind = "get";
-                        }
-                    }
-                }
-                TokenType::Identifier if this.current.matches_str("set") => {
-                    let next_token = this.peek()?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                        }
-                        _ => {
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("set"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            }
-                            kind = "set";
-                        }
-                    }
-                }
-                TokenType::Identifier if this.current.matches_str("async") => {
-                    let next_token = this.peek()?;
-                    match &next_token.tokentype {
-                        TokenType::Punctuator => {
-                        }
-                        _ => {
-                            this.start_span();
-                            this.advance(LexGoal::RegExp)?;
-                            let span = this.end_span();
-                            if this.current.matches_punc("*") {
-                                this.advance(LexGoal::RegExp)?;
-                                generator = true;
-                            }
-                            if this.current.matches_punc("(") {
-                                return this.parse_method_definition(
-                                    PropertyKey::Identifier(Identifier {
-                                        name: String::from("async"),
-                                        span,
-                                    }),
-                                    kind,
-                                    r#async,
-                                    generator,
-                                    computed,
-                                );
-                            } else {
-                                r#async = true;
-                            }
-                        }
-                    }
-                }
-                TokenType::Punctuator if this.current.matches_punc("*") => {
-                    this.advance(LexGoal::RegExp)?;
-                    generator = true;
-                    let (key, computed) = this.parse_property_name()?;
-                    return this.parse_method_definition(key, kind, r#async, generator, computed);
-                }
-                _ => (),
-            }
+            let token = this.current.clone();
+            let (accessor, r#async, generator) = this.parse_method_modifiers()?;
+            let is_method = accessor.is_some() || r#async || generator;
+            let (key, computed) = this.parse_property_name()?;
 
-            let key = match this.current.tokentype {
-                TokenType::Identifier | TokenType::Keyword => {
-                    this.start_span();
-                    let name = this.parse_id_name(LexGoal::Div)?;
-                    Ok(PropertyKey::Identifier(Identifier {
-                        name,
-                        span: this.end_span(),
-                    }))
-                }
-                TokenType::StringLiteral | TokenType::NumericLiteral => {
-                    this.start_span();
-                    let Token { value, raw, .. } = this.advance(LexGoal::RegExp)?;
-                    Ok(PropertyKey::Literal(Literal {
-                        value,
-                        raw,
-                        span: this.end_span(),
-                    }))
-                }
-                TokenType::Punctuator if this.current.matches_punc("[") => {
-                    computed = true;
-                    this.parse_computed_property_name()
+            let (value, method, shorthand) = match this.current.tokentype {
+                _ if is_method || this.current.matches_punc("(") => {
+                    let kind = accessor.unwrap_or("init");
+                    let function = this.parse_method_function(kind, r#async, generator)?;
+                    let value = PropertyValue::FunctionExpression(function);
+                    (value, accessor.is_none(), false)
                 }
-                _ => this.unexpected_current(),
-            }?;
-
-            let property = match this.current.tokentype {
                 TokenType::Punctuator if this.current.matches_punc(":") => {
                     this.advance(LexGoal::RegExp)?;
                     let value = PropertyValue::Expression(
                         this.with_in(true, &mut Self::parse_assignment_expr)?,
                     );
-                    ObjectExpressionProperty::Property {
-                        key,
-                        computed,
-                        value: Some(value),
-                        kind,
-                        method: false,
-                        shorthand: false,
-                        span: this.end_span(),
-                    }
+                    (value, false, false)
                 }
-                TokenType::Punctuator if this.current.matches_punc("=") => {
-                    this.advance(LexGoal::RegExp)?;
-                    let value = PropertyValue::Expression(
-                        this.with_in(true, &mut Self::parse_assignment_expr)?,
-                    );
-                    ObjectExpressionProperty::Property {
-                        key,
-                        computed,
-                        value: Some(value),
-                        kind,
-                        method: false,
-                        shorthand: true,
-                        span: this.end_span(),
-                    }
-                }
-                TokenType::Punctuator if this.current.matches_punc("(") => {
-                    this.parse_method_definition(key, kind, r#async, generator, computed)?
-                }
-                _ => ObjectExpressionProperty::Property {
-                    key,
-                    computed,
-                    value: None,
-                    kind,
-                    method: false,
-                    shorthand: true,
-                    span: this.end_span(),
-                },
+                _ => (this.parse_shorthand_value(&token, &key)?, false, true),
+            };
+            let property = ObjectExpressionProperty::Property {
+                key,
+                computed,
+                value: Some(value),
+                kind: accessor.unwrap_or("init"),
+                method,
+                shorthand,
+                span: this.end_span(),
             };
             if !this.current.matches_punc("}") {
                 this.consume(",", LexGoal::RegExp)?;
@@ -3459,127 +3325,26 @@ where
         Ok(name)
     }
 
-    fn parse_method_definition(
-        &mut self,
-        key: PropertyKey,
-        kind: &'static str,
-        r#async: bool,
-        generator: bool,
-        computed: bool,
-    ) -> Result<ObjectExpressionProperty> {
-        log!("parse_method_definition");
-        match kind {
-            "get" => {
-                self.consume("(", LexGoal::RegExp)?;
-                self.consume(")", LexGoal::RegExp)?;
-                let value = Some(PropertyValue::FunctionExpression(FunctionExpression {
-                    id: None,
-                    params: vec![],
-                    body: Box::from(self.with_params(
-                        Params {
-                            has_yield: false,
-                            has_await: false,
-                            ..self.params
-                        },
-                        &mut Self::parse_function_body,
-                    )?),
-                    generator,
-                    expression: false,
-                    r#async,
-                }));
-                Ok(ObjectExpressionProperty::Property {
-                    key,
-                    computed,
-                    value,
-                    kind,
-                    method: true,
-                    shorthand: false,
-                    span: self.end_span(),
-                })
-            }
-            "set" => {
-                let value = Some(PropertyValue::FunctionExpression(FunctionExpression {
-                    id: None,
-                    params: self.with_params(
-                        Params {
-                            has_yield: false,
-                            has_await: false,
-                            ..self.params
-                        },
-                        &mut Self::parse_formal_params,
-                    )?,
-                    body: Box::from(self.with_params(
-                        Params {
-                            has_yield: false,
-                            has_await: false,
-                            ..self.params
-                        },
-                        &mut Self::parse_function_body,
-                    )?),
-                    generator,
-                    expression: false,
-                    r#async,
-                }));
-                Ok(ObjectExpressionProperty::Property {
-                    key,
-                    computed,
-                    value,
-                    kind,
-                    method: true,
-                    shorthand: false,
-                    span: self.end_span(),
-                })
+    /// The value of a shorthand property, whose name was read from the given token.
+    fn parse_shorthand_value(&mut self, token: &Token, key: &PropertyKey) -> Result<PropertyValue> {
+        log!("parse_shorthand_value");
+        let (name, span) = match (&token.tokentype, key) {
+            (TokenType::Identifier, PropertyKey::Identifier(Identifier { name, span }))
+            | (TokenType::Keyword, PropertyKey::Identifier(Identifier { name, span })) => {
+                (name.clone(), span.clone())
             }
-            "init" => {
-                let params = self.with_params(
-                    Params {
-                        has_await: r#async,
-                        has_yield: generator,
-                        ..self.params
-                    },
-                    &mut Self::parse_formal_params,
-                )?;
-                let body = Box::from(self.with_params(
-                    Params {
-                        has_await: r#async,
-                        has_yield: generator,
-                        ..self.params
-                    },
-                    &mut Self::parse_function_body,
-                )?);
-                let value = if r#async {
-                    Some(PropertyValue::AsyncFunctionExpression(
-                        AsyncFunctionExpression {
-                            id: None,
-                            params,
-                            body,
-                            generator,
-                            expression: false,
-                            r#async,
-                        },
-                    ))
-                } else {
-                    Some(PropertyValue::FunctionExpression(FunctionExpression {
-                        id: None,
-                        params,
-                        body,
-                        generator,
-                        expression: false,
-                        r#async,
-                    }))
-                };
-                Ok(ObjectExpressionProperty::Property {
-                    key,
-                    computed,
-                    value,
-                    kind,
-                    method: true,
-                    shorthand: false,
-                    span: self.end_span(),
-                })
-            }
-            _ => self.unexpected_current(),
-        }
+            (_, _) => return self.unexpected_current(),
+        };
+        self.check_identifier(token, false)?;
+        let assign_target_type = match &name[..] {
+            "eval" | "arguments" if self.ctx.strict => "strict",
+            _ => "simple",
+        };
+        Ok(PropertyValue::Expression(Node::Identifier {
+            name,
+            assign_target_type,
+            span,
+        }))
     }
 
     fn parse_array_lit_expr(&mut self) -> Result<Node> {
-- 
2.43.0


From 7d16260071494f6ed2c5151a9d5da00edc259d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 23/46] fix: give expressions their exact spans and parse new
 and member chains as the grammar does

---
 giron/src/parser/parser.rs | 279 +++++++++++++++----------------------
 1 file changed, 113 insertions(+), 166 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 214a3ab..2693d35 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1842,7 +1842,7 @@ where
         // Expression[In, Yield, Await]:
         //     AssignmentExpression[?In, ?Yield, ?Await]
         //     Expression[?In, ?Yield, ?Await],AssignmentExpression[?In, ?Yield, ?Await]
-        self.start_span();
+        let marker = self.marker();
         let expr = self.parse_assignment_expr()?;
         if self.current.matches_punc(",") {
             let mut expressions = vec![expr];
@@ -1858,7 +1858,7 @@ where
             Ok(Node::SequenceExpression {
                 expressions,
                 assign_target_type,
-                span: self.end_span(),
+                span: self.span_from(&marker),
             })
         } else {
             Ok(expr)
@@ -1877,13 +1877,13 @@ where
         if self.params.has_yield && self.current.matches_str("yield") {
             return self.parse_yield_expr();
         }
-        self.start_span();
+        let marker = self.marker();
         let mut lhs = self.parse_conditional_expr()?;
 
         if let Node::Identifier { name, .. } = &lhs {
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("=>") => {
-                    lhs = self.parse_single_param_arrow_function_expr(name.clone())?;
+                    lhs = self.parse_single_param_arrow_function_expr(name.clone(), &marker)?;
                 }
                 _ => (),
             }
@@ -1902,7 +1902,7 @@ where
                     left: Box::from(lhs),
                     right: Box::from(rhs),
                     assign_target_type: "invalid",
-                    span: self.end_span(),
+                    span: self.span_from(&marker),
                 })
             }
             TokenType::Punctuator if self.current.is_assign_op() => {
@@ -1917,13 +1917,10 @@ where
                     left: Box::from(lhs),
                     right: Box::from(rhs),
                     assign_target_type: "invalid",
-                    span: self.end_span(),
+                    span: self.span_from(&marker),
                 })
             }
-            _ => {
-                self.end_span();
-                Ok(lhs)
-            }
+            _ => Ok(lhs),
         }
     }
 
@@ -1937,7 +1934,7 @@ where
         //     delegate: bool,
         // },
         log!("parse_yield_expr");
-        self.start_span();
+        let marker = self.marker();
         self.consume_kw("yield", LexGoal::RegExp)?;
         if !self.has_line_terminator {
             match self.current.tokentype {
@@ -1949,11 +1946,11 @@ where
                         )),
                         delegate: true,
                         assign_target_type: "invalid",
-                        span: self.end_span(),
+                        span: self.span_from(&marker),
                     })
                 }
                 TokenType::Punctuator if self.current.matches_punc("=>") => {
-                    self.parse_single_param_arrow_function_expr(String::from("yield"))
+                    self.parse_single_param_arrow_function_expr(String::from("yield"), &marker)
                 }
                 _ => Ok(Node::YieldExpression {
                     argument: Some(Box::from(
@@ -1961,7 +1958,7 @@ where
                     )),
                     delegate: false,
                     assign_target_type: "invalid",
-                    span: self.end_span(),
+                    span: self.span_from(&marker),
                 }),
             }
         } else {
@@ -1969,12 +1966,12 @@ where
                 argument: None,
                 delegate: false,
                 assign_target_type: "invalid",
-                span: self.end_span(),
+                span: self.span_from(&marker),
             })
         }
     }
 
-    fn parse_single_param_arrow_function_expr(&mut self, name: String) -> Result<Node> {
+    fn parse_single_param_arrow_function_expr(&mut self, name: String, start: &Marker) -> Result<Node> {
         log!("parse_single_param_arrow_function_expr");
         self.consume("=>", LexGoal::RegExp)?;
         let (body, expression) = self.parse_arrow_body()?;
@@ -1986,7 +1983,7 @@ where
             expression,
             r#async: false,
             assign_target_type: "invalid",
-            span: self.end_span(),
+            span: self.span_from(start),
         })
     }
 
@@ -1997,7 +1994,7 @@ where
         //     LogicalORExpression[?In, ?Yield, ?Await] ?
         //      AssignmentExpression[+In, ?Yield, ?Await] :
         //      AssignmentExpression[?In, ?Yield, ?Await]
-        self.start_span();
+        let marker = self.marker();
         let expr = self.parse_binary_expr()?;
         if self.current.matches_punc("?") {
             self.consume("?", LexGoal::RegExp)?;
@@ -2008,7 +2005,7 @@ where
                 test: Box::from(expr),
                 consequent,
                 alternate,
-                span: self.end_span(),
+                span: self.span_from(&marker),
             })
         } else {
             Ok(expr)
@@ -2018,30 +2015,30 @@ where
     fn parse_binary_expr(&mut self) -> Result<Node> {
         log!("parse_binary_expr");
         // ExponentiationExpression binop ExponentiationExpression
-        self.start_span();
+        let marker = self.marker();
         let lhs = self.parse_exponentiation_expr()?;
-        self.precedence_climbing(lhs, 1)
+        self.precedence_climbing(lhs, &marker, 1)
     }
 
-    fn precedence_climbing(&mut self, mut lhs: Node, prec: usize) -> Result<Node> {
+    fn precedence_climbing(&mut self, mut lhs: Node, start: &Marker, prec: usize) -> Result<Node> {
         while self.current.is_bin_op() && self.current.precedence(self.params.has_in) >= prec {
             let op = self.advance(LexGoal::RegExp)?;
+            let marker = self.marker();
             let mut rhs = self.parse_exponentiation_expr()?;
             while self.current.is_bin_op()
                 && self.current.precedence(self.params.has_in) > op.precedence(self.params.has_in)
             {
-                rhs = self.precedence_climbing(rhs, self.current.precedence(self.params.has_in))?;
+                let prec = self.current.precedence(self.params.has_in);
+                rhs = self.precedence_climbing(rhs, &marker, prec)?;
             }
             lhs = Node::BinaryExpression {
                 operator: op.to_string(),
                 left: Box::from(lhs),
                 right: Box::from(rhs),
                 assign_target_type: "invalid",
-                span: self.end_span(),
+                span: self.span_from(start),
             };
-            self.start_span();
         }
-        self.end_span();
         Ok(lhs)
     }
 
@@ -2053,7 +2050,7 @@ where
         if self.current.is_unary_op(self.params.has_await) {
             self.parse_unary_expr()
         } else {
-            self.start_span();
+            let marker = self.marker();
             let lhs = self.parse_update_expr()?;
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("**") => {
@@ -2064,13 +2061,10 @@ where
                         left: Box::from(lhs),
                         right: Box::from(rhs),
                         assign_target_type: "invalid",
-                        span: self.end_span(),
+                        span: self.span_from(&marker),
                     })
                 }
-                _ => {
-                    self.end_span();
-                    Ok(lhs)
-                }
+                _ => Ok(lhs),
             }
         }
     }
@@ -2107,7 +2101,7 @@ where
     fn parse_update_expr(&mut self) -> Result<Node> {
         log!("parse_update_expr");
         if self.current.is_update_op() {
-            self.start_span();
+            let marker = self.marker();
             let operator = self.advance(LexGoal::RegExp)?.to_string();
             let (line, col) = (self.current.line_num, self.current.col);
             let expr = self.parse_unary_expr()?;
@@ -2123,10 +2117,10 @@ where
                 argument: Box::from(expr),
                 prefix: true,
                 assign_target_type: "invalid",
-                span: self.end_span(),
+                span: self.span_from(&marker),
             })
         } else {
-            self.start_span();
+            let marker = self.marker();
             let (line, col) = (self.current.line_num, self.current.col);
             let expr = self.parse_left_hand_side_expr()?;
             if !self.has_line_terminator && self.current.is_update_op() {
@@ -2142,7 +2136,7 @@ where
                     argument: Box::from(expr),
                     prefix: false,
                     assign_target_type: "invalid",
-                    span: self.end_span(),
+                    span: self.span_from(&marker),
                 })
             } else {
                 Ok(expr)
@@ -2152,126 +2146,97 @@ where
 
     fn parse_left_hand_side_expr(&mut self) -> Result<Node> {
         log!("parse_left_hand_side_expr");
-        match self.current.tokentype {
-            TokenType::Keyword if self.current.matches_str("new") => self.parse_new_expr(),
-            _ => self.parse_call_expr(),
-        }
-    }
-
-    fn parse_call_expr(&mut self) -> Result<Node> {
-        log!("parse_call_expr");
+        // LeftHandSideExpression:
+        //     ("new")* MemberExpression
+        //     CallExpression
         // CallExpression:
         //     (CoverCallExpressionAndAsyncArrowHead | "super" Arguments)
         //         (Arguments | "[" Expression[+In] "]" | "." IdentifierName | TemplateLiteral[+Tagged])*
-        self.start_span();
+        let marker = self.marker();
         let callee = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("super") => {
                 let object = self.parse_super()?;
                 match self.current.tokentype {
                     TokenType::Punctuator if self.current.matches_punc("(") => {
-                        Ok(Node::CallExpression {
-                            callee: Box::from(object),
-                            arguments: self.parse_arguments()?,
-                            assign_target_type: "invalid",
-                            span: self.peek_span(),
-                        })
-                    }
-                    TokenType::Punctuator if self.current.matches_punc("[") => {
-                        self.parse_computed_member_expr(object)
+                        self.parse_call_expr(object, &marker)
                     }
-                    TokenType::Punctuator if self.current.matches_punc(".") => {
-                        self.parse_static_member_expr(object)
-                    }
-                    _ => self.unexpected_current(),
+                    _ => self.parse_super_property(object, &marker),
                 }
             }
             _ => self.parse_member_expr(),
         }?;
-        self.parse_call_expr_tail(callee)
+        self.parse_call_expr_tail(callee, &marker)
+    }
+
+    fn parse_call_expr(&mut self, callee: Node, start: &Marker) -> Result<Node> {
+        log!("parse_call_expr");
+        Ok(Node::CallExpression {
+            callee: Box::from(callee),
+            arguments: self.parse_arguments()?,
+            assign_target_type: "invalid",
+            span: self.span_from(start),
+        })
     }
 
-    fn parse_call_expr_tail(&mut self, mut callee: Node) -> Result<Node> {
+    fn parse_call_expr_tail(&mut self, mut callee: Node, start: &Marker) -> Result<Node> {
         loop {
+            callee = self.parse_member_expr_tail(callee, start)?;
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("(") => {
-                    callee = Node::CallExpression {
-                        callee: Box::from(callee),
-                        arguments: self.parse_arguments()?,
-                        assign_target_type: "invalid",
-                        span: self.peek_span(),
-                    };
-                }
-                TokenType::Punctuator if self.current.matches_punc("[") => {
-                    callee = self.parse_computed_member_expr(callee)?;
-                }
-                TokenType::Punctuator if self.current.matches_punc(".") => {
-                    callee = self.parse_static_member_expr(callee)?;
+                    callee = self.parse_call_expr(callee, start)?;
                 }
-                TokenType::Template if self.current.head == Some(true) => {
-                    match self.parse_template_literal(true)? {
-                        Node::TemplateLiteral {
-                            quasis,
-                            expressions,
-                            span,
-                            ..
-                        } => {
-                            callee = Node::TaggedTemplateExpression {
-                                tag: Box::from(callee),
-                                quasi: TemplateLiteral {
-                                    quasis,
-                                    expressions,
-                                },
-                                span,
-                            };
-                        }
-                        _ => unreachable!(),
-                    }
-                }
-                _ => break,
+                _ => return Ok(callee),
             }
         }
-        self.end_span();
-        Ok(callee)
     }
 
     fn parse_member_expr(&mut self) -> Result<Node> {
         log!("parse_member_expr");
         // MemberExpression:
-        //     (PrimaryExpression | SuperProperty)
+        //     (PrimaryExpression | SuperProperty | MetaProperty)
         //         ("[" Expression[+In] "]" | "." IdentifierName | TemplateLiteral[+Tagged])*
         //     "new" MemberExpression Arguments
         // SuperProperty[Yield, Await]:
         //     "super" "[" Expression[+In] "]"
         //     super "." IdentifierName
-        let mut expr = match self.current.tokentype {
+        let marker = self.marker();
+        let expr = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("super") => {
                 let object = self.parse_super()?;
-                match self.current.tokentype {
-                    TokenType::Punctuator if self.current.matches_punc("[") => {
-                        self.parse_computed_member_expr(object)
-                    }
-                    TokenType::Punctuator if self.current.matches_punc(".") => {
-                        self.parse_static_member_expr(object)
-                    }
-                    _ => self.unexpected_current(),
-                }
+                self.parse_super_property(object, &marker)
             }
+            TokenType::Keyword if self.current.matches_str("new") => self.parse_new_expr(),
             _ => self.parse_primary_expr(),
         }?;
+        self.parse_member_expr_tail(expr, &marker)
+    }
+
+    fn parse_super_property(&mut self, object: Node, start: &Marker) -> Result<Node> {
+        match self.current.tokentype {
+            TokenType::Punctuator if self.current.matches_punc("[") => {
+                self.parse_computed_member_expr(object, start)
+            }
+            TokenType::Punctuator if self.current.matches_punc(".") => {
+                self.parse_static_member_expr(object, start)
+            }
+            _ => self.unexpected_current(),
+        }
+    }
+
+    fn parse_member_expr_tail(&mut self, mut expr: Node, start: &Marker) -> Result<Node> {
         loop {
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("[") => {
-                    expr = self.parse_computed_member_expr(expr)?
+                    expr = self.parse_computed_member_expr(expr, start)?
                 }
                 TokenType::Punctuator if self.current.matches_punc(".") => {
-                    expr = self.parse_static_member_expr(expr)?
+                    expr = self.parse_static_member_expr(expr, start)?
                 }
                 TokenType::Template if self.current.head == Some(true) => {
                     match self.parse_template_literal(true)? {
                         Node::TemplateLiteral {
                             quasis,
                             expressions,
-                            span,
                             ..
                         } => {
                             expr = Node::TaggedTemplateExpression {
@@ -2280,36 +2245,33 @@ where
                                     quasis,
                                     expressions,
                                 },
-                                span,
+                                span: self.span_from(start),
                             };
                         }
                         _ => unreachable!(),
                     }
                 }
-                _ => break,
+                _ => return Ok(expr),
             }
         }
-        Ok(expr)
     }
 
-    fn parse_computed_member_expr(&mut self, object: Node) -> Result<Node> {
+    fn parse_computed_member_expr(&mut self, object: Node, start: &Marker) -> Result<Node> {
         log!("parse_computed_member_expr");
-        self.start_span();
         self.consume("[", LexGoal::RegExp)?;
-        let member_expr = Node::ComputedMemberExpression {
+        let property = Box::from(self.with_in(true, &mut Self::parse_expression)?);
+        self.consume("]", LexGoal::Div)?;
+        Ok(Node::ComputedMemberExpression {
             computed: true,
             object: Box::from(object),
-            property: Box::from(self.with_in(true, &mut Self::parse_expression)?),
+            property,
             assign_target_type: "simple",
-            span: self.end_span(),
-        };
-        self.consume("]", LexGoal::Div)?;
-        Ok(member_expr)
+            span: self.span_from(start),
+        })
     }
 
-    fn parse_static_member_expr(&mut self, object: Node) -> Result<Node> {
+    fn parse_static_member_expr(&mut self, object: Node, start: &Marker) -> Result<Node> {
         log!("parse_static_member_expr");
-        self.start_span();
         self.consume(".", LexGoal::RegExp)?;
         self.start_span();
         let name = self.parse_id_name(LexGoal::Div)?;
@@ -2323,59 +2285,43 @@ where
             object: Box::from(object),
             property,
             assign_target_type: "simple",
-            span: self.end_span(),
+            span: self.span_from(start),
         })
     }
 
     fn parse_new_expr(&mut self) -> Result<Node> {
         log!("parse_new_expr");
-        // LeftHandSideExpression:
-        //     ("new")* MemberExpression
-        //     (PrimaryExpression | SuperProperty | new "." target)
-        //         ("[" Expression[+In] "]" | "." IdentifierName | TemplateLiteral[+Tagged])*
-        //     "new" MemberExpression Arguments
-        //     (CoverCallExpressionAndAsyncArrowHead | "super" Arguments)
-        //         (Arguments | "[" Expression[+In] "]" | "." IdentifierName | TemplateLiteral[+Tagged])*
-        // SuperProperty[Yield, Await]:
-        //     "super" "[" Expression[+In] "]"
-        //     "super" "." IdentifierName
-        // NewExpression {
-        //     callee: Box<Node>, // Expression
-        //     arguments: Vec<ArgumentListElement>,
-        // },
-        self.start_span();
-        let id = self.consume_kw("new", LexGoal::RegExp)?;
-        let span = self.peek_span();
+        // "new" "." "target"
+        // "new" MemberExpression Arguments
+        // "new" NewExpression
+        let marker = self.marker();
+        let meta = self.consume_kw("new", LexGoal::RegExp)?;
+        let span = self.span_from(&marker);
         match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc(".") => {
                 self.advance(LexGoal::RegExp)?;
                 match self.current.tokentype {
                     TokenType::Identifier if self.current.matches_str("target") => {
+                        self.start_span();
                         let property = Box::from(Node::Identifier {
-                            name: self.advance(LexGoal::Div)?.value.string().unwrap(),
+                            name: self.advance(LexGoal::Div)?.to_string(),
                             assign_target_type: "invalid",
-                            span: span.clone(),
+                            span: self.end_span(),
                         });
                         Ok(Node::MetaProperty {
                             meta: Box::from(Node::Identifier {
-                                name: id.value.string().unwrap(),
+                                name: meta.to_string(),
                                 assign_target_type: "invalid",
                                 span,
                             }),
                             property,
                             assign_target_type: "invalid",
-                            span: self.end_span(),
+                            span: self.span_from(&marker),
                         })
                     }
                     _ => self.unexpected_current(),
                 }
             }
-            TokenType::Keyword if self.current.matches_str("new") => Ok(Node::NewExpression {
-                callee: Box::from(self.parse_new_expr()?),
-                arguments: vec![],
-                assign_target_type: "invalid",
-                span: self.end_span(),
-            }),
             _ => {
                 let callee = Box::from(self.parse_member_expr()?);
                 let arguments = match self.current.tokentype {
@@ -2384,13 +2330,12 @@ where
                     }
                     _ => vec![],
                 };
-                let callee = Node::NewExpression {
+                Ok(Node::NewExpression {
                     callee,
                     arguments,
                     assign_target_type: "invalid",
-                    span: self.end_span(),
-                };
-                self.parse_call_expr_tail(callee)
+                    span: self.span_from(&marker),
+                })
             }
         }
     }
@@ -3752,28 +3697,30 @@ where
         self.params = self.params_stack.pop().unwrap();
     }
 
-    fn start_span(&mut self) {
-        self.marker_stack.push(Marker {
+    /// Where the current token starts.
+    fn marker(&self) -> Marker {
+        Marker {
             line: self.current.line_num,
             col: self.current.col,
             idx: self.current.start,
-        });
+        }
     }
 
-    fn end_span(&mut self) -> Span {
-        let start = match self.marker_stack.pop() {
-            Some(marker) => marker,
-            _ => panic!("Tried to pop marker from an empty stack. This probably means a marker was failed to be pushed somewhere.")
-        };
+    /// The span from the given marker to the end of the last token.
+    fn span_from(&self, start: &Marker) -> Span {
         Span {
-            start,
+            start: start.clone(),
             end: self.prev_end.clone(),
         }
     }
 
-    fn peek_span(&mut self) -> Span {
-        let start = match self.marker_stack.last() {
-            Some(marker) => marker.clone(),
+    fn start_span(&mut self) {
+        self.marker_stack.push(self.marker());
+    }
+
+    fn end_span(&mut self) -> Span {
+        let start = match self.marker_stack.pop() {
+            Some(marker) => marker,
             _ => panic!("Tried to pop marker from an empty stack. This probably means a marker was failed to be pushed somewhere.")
         };
         Span {
-- 
2.43.0


From 550709818917e218e0343bed1d86a7a1385a022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 24/46] fix: give % the precedence of * and /, report && and ||
 as logical expressions, and reject == as an assignment

---
 giron/src/parser/parser.rs     | 20 ++++++++++++++------
 giron/src/parser/syntax.rs     |  3 +--
 giron/src/token/punctuators.rs |  1 -
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 2693d35..a858a22 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2031,12 +2031,20 @@ where
                 let prec = self.current.precedence(self.params.has_in);
                 rhs = self.precedence_climbing(rhs, &marker, prec)?;
             }
-            lhs = Node::BinaryExpression {
-                operator: op.to_string(),
-                left: Box::from(lhs),
-                right: Box::from(rhs),
-                assign_target_type: "invalid",
-                span: self.span_from(start),
+            lhs = match op.to_str() {
+                "&&" | "||" => Node::LogicalExpression {
+                    operator: op.value.punc().unwrap().to_str(),
+                    left: Box::from(lhs),
+                    right: Box::from(rhs),
+                    span: self.span_from(start),
+                },
+                _ => Node::BinaryExpression {
+                    operator: op.to_string(),
+                    left: Box::from(lhs),
+                    right: Box::from(rhs),
+                    assign_target_type: "invalid",
+                    span: self.span_from(start),
+                },
             };
         }
         Ok(lhs)
diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 04a62e4..772aa78 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -79,7 +79,6 @@ impl Syntax for Token {
             | Value::Punc(Punctuator::BitOrAssign)
             | Value::Punc(Punctuator::BitXorAssign)
             | Value::Punc(Punctuator::SlashAssign) => true,
-            Value::Punc(Punctuator::Equal) => true,
             _ => false,
         }
     }
@@ -160,7 +159,7 @@ impl Syntax for Token {
             TokenType::Punctuator if self.matches_punc("-") => 9,
             TokenType::Punctuator if self.matches_punc("*") => 10,
             TokenType::Punctuator if self.matches_punc("/") => 10,
-            TokenType::Punctuator if self.matches_punc("%") => 11,
+            TokenType::Punctuator if self.matches_punc("%") => 10,
             TokenType::Keyword if self.matches_str("instanceof") => 7,
             TokenType::Keyword if (self.matches_str("in") && has_in) => 7,
             _ => 0,
diff --git a/giron/src/token/punctuators.rs b/giron/src/token/punctuators.rs
index 79a4b99..c62609c 100644
--- a/giron/src/token/punctuators.rs
+++ b/giron/src/token/punctuators.rs
@@ -77,7 +77,6 @@ impl Punctuator {
             | Punctuator::BitOrAssign
             | Punctuator::BitXorAssign
             | Punctuator::SlashAssign => true,
-            Punctuator::Equal => true,
             _ => false,
         }
     }
-- 
2.43.0


From 92d7e889a1f41b2dc9950a26826386ae60334352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 25/46] fix: report await expressions as AwaitExpression nodes

---
 giron/src/parser/parser.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index a858a22..dfa4a1e 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2093,13 +2093,19 @@ where
             TokenType::Punctuator | TokenType::Keyword
                 if self.current.is_unary_op(self.params.has_await) =>
             {
-                self.start_span();
-                Ok(Node::UnaryExpression {
-                    operator: self.advance(LexGoal::RegExp)?.to_string(),
-                    argument: Box::new(self.parse_unary_expr()?),
-                    prefix: true,
-                    assign_target_type: "invalid",
-                    span: self.end_span(),
+                let marker = self.marker();
+                let operator = self.advance(LexGoal::RegExp)?.to_string();
+                let argument = Box::new(self.parse_unary_expr()?);
+                let span = self.span_from(&marker);
+                Ok(match &operator[..] {
+                    "await" => Node::AwaitExpression { argument, span },
+                    _ => Node::UnaryExpression {
+                        operator,
+                        argument,
+                        prefix: true,
+                        assign_target_type: "invalid",
+                        span,
+                    },
                 })
             }
             _ => self.parse_update_expr(),
-- 
2.43.0


From f395fb3d86669cd0bca0c1e117b27d51fd2192b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 26/46] fix: serialise every node under its ESTree type and
 field names

---
 giron/src/estree/estree.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 1a91d1d..b1ae563 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -142,6 +142,7 @@ pub enum ArrayPatternElement {
         left: Binding,
         right: Node,
     },
+    #[serde(rename = "Identifier")]
     BindingIdentifier {
         name: String,
     },
@@ -223,6 +224,7 @@ pub struct AssignmentPattern {
 
 #[derive(Serialize, Debug)]
 #[serde(tag = "type")]
+#[serde(rename = "FunctionExpression")]
 pub struct AsyncFunctionExpression {
     pub id: Option<Box<Node>>, // Identifier | null
     pub params: Vec<FunctionParameter>,
@@ -301,6 +303,7 @@ pub enum FunctionParameter {
         left: Binding,
         right: Node,
     },
+    #[serde(rename = "Identifier")]
     BindingIdentifier {
         name: String,
     },
@@ -467,11 +470,13 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "RestElement")]
     AssignmentRestElement {
         argument: Box<Node>,
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "ArrowFunctionExpression")]
     AsyncArrowFunctionExpression {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
@@ -484,6 +489,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "FunctionExpression")]
     AsyncFunctionExpression {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
@@ -532,7 +538,8 @@ pub enum Node {
         span: Span,
     },
     ClassExpression {
-        id: Option<Box<Node>>,          // Identifier | null
+        id: Option<Box<Node>>, // Identifier | null
+        #[serde(rename = "superClass")]
         super_class: Option<Box<Node>>, // Identifier | null
         body: ClassBody,
         #[serde(skip)]
@@ -540,6 +547,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "MemberExpression")]
     ComputedMemberExpression {
         computed: bool,
         object: Box<Node>,   // Expression
@@ -622,6 +630,7 @@ pub enum Node {
         #[serde(skip)]
         span: Span,
     },
+    #[serde(rename = "MemberExpression")]
     StaticMemberExpression {
         computed: bool,
         object: Box<Node>,   // Expression
@@ -710,6 +719,7 @@ pub enum Node {
     // ****************************************************
     // Statements & Declarations
     // ****************************************************
+    #[serde(rename = "FunctionDeclaration")]
     AsyncFunctionDeclaration {
         id: Option<Box<Node>>, // Identifier | null
         params: Vec<FunctionParameter>,
-- 
2.43.0


From 1f368c03d829bd7f547e8a132072e81b3c867d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 27/46] fix: parse generator expressions and async functions,
 with yield and await of their own

---
 giron/src/parser/parser.rs | 90 +++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 45 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index dfa4a1e..474b758 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -592,7 +592,6 @@ where
             }
             // special LL(2) grammar case
             TokenType::Identifier if self.current.matches_str("async") => {
-                self.start_span();
                 let next_token = self.peek()?;
                 match &next_token.tokentype {
                     TokenType::Keyword
@@ -601,10 +600,7 @@ where
                     {
                         self.with_default(false, &mut Self::parse_hoistable_dclr)
                     }
-                    _ => {
-                        self.end_span();
-                        self.parse_expression_or_labelled_stmt()
-                    }
+                    _ => self.parse_expression_or_labelled_stmt(),
                 }
             }
             // declarations
@@ -1525,7 +1521,7 @@ where
         //     "async" [no LineTerminator here] "function" "*" BindingIdentifier[?Yield, ?Await]
         //       "(" FormalParameters[+Yield, +Await] ")" "{" AsyncGeneratorBody "}"
         //     [+Default] "async" [no LineTerminator here] "function" "*" "(" FormalParameters[+Yield, +Await] ")" "{" AsyncGeneratorBody "}"
-        if r#async && !self.has_line_terminator {
+        if r#async && self.has_line_terminator {
             return self.unexpected_current();
         }
         if !r#async {
@@ -1557,28 +1553,11 @@ where
                 _ => self.unexpected_current(),
             },
         }?;
-
-        let params = self.with_params(
-            Params {
-                has_yield: generator,
-                has_await: r#async,
-                ..self.params
-            },
-            &mut Self::parse_formal_params,
-        )?;
-
-        let body = self.with_params(
-            Params {
-                has_yield: generator,
-                has_await: r#async,
-                ..self.params
-            },
-            &mut Self::parse_function_body,
-        )?;
+        let (params, body) = self.parse_function_params_and_body(r#async, generator)?;
         Ok(Node::FunctionDeclaration {
             id,
             params,
-            body: Box::from(body),
+            body,
             generator,
             expression: false,
             r#async,
@@ -1586,6 +1565,27 @@ where
         })
     }
 
+    /// Parses the parameters and the body of a function, which has its own yield and await.
+    fn parse_function_params_and_body(
+        &mut self,
+        r#async: bool,
+        generator: bool,
+    ) -> Result<(Vec<FunctionParameter>, Box<Node>)> {
+        self.with_params(
+            Params {
+                has_yield: generator,
+                has_await: r#async,
+                has_default: false,
+                ..self.params
+            },
+            &mut |this| {
+                let params = this.parse_formal_params()?;
+                let body = Box::from(this.parse_function_body()?);
+                Ok((params, body))
+            },
+        )
+    }
+
     fn parse_function_body(&mut self) -> Result<Node> {
         let prev_in_function = self.ctx.in_function;
         self.ctx.in_function = true;
@@ -1766,14 +1766,7 @@ where
     ) -> Result<FunctionExpression> {
         log!("parse_method_function");
         let open_paren = self.current.clone();
-        let params = self.with_params(
-            Params {
-                has_yield: generator,
-                has_await: r#async,
-                ..self.params
-            },
-            &mut Self::parse_formal_params,
-        )?;
+        let (params, body) = self.parse_function_params_and_body(r#async, generator)?;
         let has_valid_arity = match (kind, &params[..]) {
             ("get", params) => params.is_empty(),
             ("set", [FunctionParameter::RestElement { .. }]) => false,
@@ -1783,14 +1776,6 @@ where
         if !has_valid_arity {
             return self.unexpected(open_paren);
         }
-        let body = Box::from(self.with_params(
-            Params {
-                has_yield: generator,
-                has_await: r#async,
-                ..self.params
-            },
-            &mut Self::parse_function_body,
-        )?);
         Ok(FunctionExpression {
             id: None,
             params,
@@ -3052,17 +3037,32 @@ where
         }
         self.consume_kw("function", LexGoal::RegExp)?;
         let generator = match self.current.tokentype {
-            TokenType::Punctuator if self.current.matches_str("*") => true,
+            TokenType::Punctuator if self.current.matches_str("*") => {
+                self.advance(LexGoal::RegExp)?;
+                true
+            }
             _ => false,
         };
         let id = match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc("(") => None,
-            _ => Some(Box::from(self.parse_id_reference()?)),
+            _ => {
+                // The name is bound inside the function.
+                let id = self.with_params(
+                    Params {
+                        has_yield: generator,
+                        has_await: r#async,
+                        ..self.params
+                    },
+                    &mut Self::parse_binding_id,
+                )?;
+                Some(Box::from(id.to_node()?))
+            }
         };
+        let (params, body) = self.parse_function_params_and_body(r#async, generator)?;
         Ok(Node::FunctionExpression {
             id,
-            params: self.parse_formal_params()?,
-            body: Box::from(self.parse_function_body()?),
+            params,
+            body,
             generator,
             expression: false,
             r#async,
-- 
2.43.0


From a07a23e8bd84b74fc0b7e2ace963b759d8523c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 28/46] fix: apply a function's use strict directive to its
 name and parameters too

---
 giron/src/parser/parser.rs | 76 ++++++++++++++++++++++++++++++--------
 1 file changed, 60 insertions(+), 16 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 474b758..221387f 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -76,6 +76,8 @@ pub struct Parser<I> {
     marker_stack: Vec<Marker>,
     goal: SyntaxGoal,
     first_token_error: Option<Error>,
+    /// The first identifier seen that strict code could not contain there.
+    strict_violation: Option<Error>,
     prev_end: Marker,
 }
 
@@ -106,6 +108,7 @@ where
             marker_stack: vec![],
             goal: SyntaxGoal::Ambiguous,
             first_token_error,
+            strict_violation: None,
             prev_end: Marker {
                 line: 1,
                 col: 1,
@@ -1492,6 +1495,12 @@ where
 
     fn parse_function_dclr(&mut self, r#async: bool, allow_generator: bool) -> Result<Node> {
         log!("parse_function_dclr");
+        self.with_own_strictness(&mut |this| {
+            this.parse_function_dclr_parts(r#async, allow_generator)
+        })
+    }
+
+    fn parse_function_dclr_parts(&mut self, r#async: bool, allow_generator: bool) -> Result<Node> {
         // FunctionDeclaration[Yield, Await, Default]:
         //     "function" BindingIdentifier[?Yield, ?Await] "(" FormalParameters[~Yield, ~Await] ")" "{" FunctionBody[~Yield, ~Await] "}"
         //     [+Default] "function" "(" FormalParameters[~Yield, ~Await] ")" "{ "FunctionBody[~Yield, ~Await] "}"
@@ -1599,6 +1608,11 @@ where
         self.consume("{", LexGoal::RegExp)?;
         let prev_strict = self.ctx.strict;
         let mut body = self.parse_directive_prologues()?;
+        // A "use strict" directive covers the name and the parameters of the function too.
+        match self.strict_violation.take() {
+            Some(error) if self.ctx.strict => return Err(error),
+            violation => self.strict_violation = violation,
+        }
 
         let prev_in_iteration = self.ctx.in_iteration;
         body.extend(self.parse_statement_list()?);
@@ -1766,7 +1780,9 @@ where
     ) -> Result<FunctionExpression> {
         log!("parse_method_function");
         let open_paren = self.current.clone();
-        let (params, body) = self.parse_function_params_and_body(r#async, generator)?;
+        let (params, body) = self.with_own_strictness(&mut |this| {
+            this.parse_function_params_and_body(r#async, generator)
+        })?;
         let has_valid_arity = match (kind, &params[..]) {
             ("get", params) => params.is_empty(),
             ("set", [FunctionParameter::RestElement { .. }]) => false,
@@ -3014,6 +3030,10 @@ where
 
     fn parse_function_expr(&mut self, r#async: bool) -> Result<Node> {
         log!("parse_function_expr");
+        self.with_own_strictness(&mut |this| this.parse_function_expr_parts(r#async))
+    }
+
+    fn parse_function_expr_parts(&mut self, r#async: bool) -> Result<Node> {
         // FunctionExpression:
         //     "function" BindingIdentifier(opt)
         //         "(" FormalParameters ")" "{" FunctionBody "}"
@@ -3422,7 +3442,7 @@ where
                         has_yield: false,
                         ..self.params
                     },
-                    &mut Self::parse_function_body,
+                    &mut |this| this.with_own_strictness(&mut Self::parse_function_body),
                 )?);
             }
             _ => {
@@ -3446,7 +3466,7 @@ where
         //     Identifier
         //     [~Yield] yield
         //     [~Await] await
-        self.check_identifier(&self.current, false)?;
+        self.check_identifier(&self.current.clone(), false)?;
         self.start_span();
         let name = self.advance(LexGoal::Div)?.to_string();
         let assign_target_type = match &name[..] {
@@ -3466,7 +3486,7 @@ where
         //     Identifier
         //     yield
         //     await
-        self.check_identifier(&self.current, true)?;
+        self.check_identifier(&self.current.clone(), true)?;
         self.start_span();
         Ok(Binding::BindingIdentifier(BindingIdentifier {
             name: self.advance(LexGoal::Div)?.to_string(),
@@ -3475,19 +3495,14 @@ where
     }
 
     /// Checks that the token can be used as an identifier in the current context.
-    fn check_identifier(&self, token: &Token, is_binding: bool) -> Result<()> {
+    fn check_identifier(&mut self, token: &Token, is_binding: bool) -> Result<()> {
+        match self.check_strict_identifier(token, is_binding) {
+            Err(error) if self.ctx.strict => return Err(error),
+            Err(error) if self.strict_violation.is_none() => self.strict_violation = Some(error),
+            _ => (),
+        }
         let errortype = match token.tokentype {
-            TokenType::Identifier | TokenType::Keyword
-                if self.ctx.strict && token.is_strict_reserved_kw() =>
-            {
-                ErrorType::UnexpectedStrictReserved
-            }
-            TokenType::Identifier => match token.to_str() {
-                "eval" | "arguments" if self.ctx.strict && is_binding => {
-                    return self.unexpected(token.clone())
-                }
-                _ => return Ok(()),
-            },
+            TokenType::Identifier => return Ok(()),
             TokenType::Keyword => match (token.to_str(), &self.goal) {
                 ("yield", _) if self.params.has_yield => ErrorType::YieldInParameter,
                 ("yield", _) => return Ok(()),
@@ -3505,6 +3520,24 @@ where
         })
     }
 
+    /// Checks that strict code can use the token as an identifier.
+    fn check_strict_identifier(&self, token: &Token, is_binding: bool) -> Result<()> {
+        match token.tokentype {
+            TokenType::Identifier | TokenType::Keyword if token.is_strict_reserved_kw() => {
+                Err(Error {
+                    line: token.line_num,
+                    col: token.col,
+                    errortype: ErrorType::UnexpectedStrictReserved,
+                })
+            }
+            TokenType::Identifier if is_binding => match token.to_str() {
+                "eval" | "arguments" => self.unexpected(token.clone()),
+                _ => Ok(()),
+            },
+            _ => Ok(()),
+        }
+    }
+
     fn parse_id_name(&mut self, goal: LexGoal) -> Result<String> {
         log!("parse_id_name");
         match self.current.tokentype {
@@ -3593,6 +3626,17 @@ where
         expr
     }
 
+    /// Parses a function, keeping apart what its "use strict" directive would forbid in it.
+    fn with_own_strictness<F, T>(&mut self, parse_fn: &mut F) -> Result<T>
+    where
+        F: FnMut(&mut Self) -> Result<T>,
+    {
+        let outer = self.strict_violation.take();
+        let res = parse_fn(self)?;
+        self.strict_violation = outer.or(self.strict_violation.take());
+        Ok(res)
+    }
+
     fn with_in<F>(&mut self, has_in: bool, parse_fn: &mut F) -> Result<Node>
     where
         F: FnMut(&mut Self) -> Result<Node>,
-- 
2.43.0


From 8dd41491392476ac6301b9d52847be846bae23c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 29/46] fix: check that break and continue have a target in
 their own function

---
 giron/src/errors/errors.rs | 10 ++++--
 giron/src/parser/parser.rs | 66 ++++++++++++++++++++++++++++++++------
 2 files changed, 65 insertions(+), 11 deletions(-)

diff --git a/giron/src/errors/errors.rs b/giron/src/errors/errors.rs
index 43ae015..e2cd886 100644
--- a/giron/src/errors/errors.rs
+++ b/giron/src/errors/errors.rs
@@ -13,7 +13,6 @@ use std::fmt;
 // T(ForOfLet, "The left-hand side of a for-of loop may not start with 'let'.") \
 // T(ForInOfLoopMultiBindings, "Invalid left-hand side in % loop: Must have a single binding.")
 // T(AsyncFunctionInSingleStatementContext, "Async functions can only be declared at the top level or inside a block.")
-// T(IllegalContinue, "Illegal continue statement: '%' does not denote an iteration statement")
 // T(IllegalLanguageModeDirective, "Illegal '%' directive in function with non-simple parameter list")
 // T(IntrinsicWithSpread, "Intrinsic calls do not support spread arguments")
 // T(InvalidPropertyBindingPattern, "Illegal property in declaration context")
@@ -77,7 +76,6 @@ use std::fmt;
 // T(UnexpectedTokenString, "Unexpected string")
 // T(UnexpectedTokenRegExp, "Unexpected regular expression")
 // T(UnexpectedLexicalDeclaration, "Lexical declaration cannot appear in a single-statement context")
-// T(UnknownLabel, "Undefined label '%'")
 // T(UnresolvableExport, "The requested module '%' does not provide an export named '%'")
 // T(UnterminatedArgList, "missing ) after argument list")
 // T(UnterminatedRegExp, "Invalid regular expression: missing /")
@@ -103,7 +101,9 @@ pub enum ErrorType {
     InvalidLhsInFor,
     MultipleDefaultsInSwitch,
     NoIterationStatement,
+    IllegalContinue(String),
     IllegalBreak,
+    UnknownLabel(String),
     StrictWith,
     StrictFunction,
     NewlineAfterThrow,
@@ -142,6 +142,12 @@ impl fmt::Display for Error {
                 f,
                 "Illegal continue statement: no surrounding iteration statement"
             ),
+            ErrorType::IllegalContinue(label) => write!(
+                f,
+                "Illegal continue statement: '{}' does not denote an iteration statement",
+                label
+            ),
+            ErrorType::UnknownLabel(label) => write!(f, "Undefined label '{}'", label),
             ErrorType::IllegalBreak => write!(f, "Illegal break statement"),
             ErrorType::StrictWith => write!(f, "Strict mode code may not include a with statement"),
             ErrorType::StrictFunction => write!(f, "In strict mode code, functions can only be declared at top level or inside a block."),
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 221387f..71c718d 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -34,6 +34,15 @@ struct Context {
     in_function: bool,
     in_iteration: bool,
     in_switch: bool,
+    labels: Vec<Label>,
+}
+
+/// A label that the current statement is in the scope of.
+struct Label {
+    name: String,
+    /// Where the labelled statement starts.
+    body: usize,
+    is_iteration: bool,
 }
 
 #[allow(dead_code)]
@@ -100,6 +109,7 @@ where
                 in_function: false,
                 in_iteration: false,
                 in_switch: false,
+                labels: vec![],
             },
             params: Params::new(),
             has_line_terminator: false,
@@ -798,6 +808,9 @@ where
 
     fn parse_iteration_stmt(&mut self) -> Result<Node> {
         log!("parse_iteration_stmt");
+        for label in self.ctx.labels.iter_mut() {
+            label.is_iteration |= label.body == self.current.start;
+        }
         match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("for") => self.parse_for_stmt(),
             TokenType::Keyword if self.current.matches_str("while") => self.parse_while_stmt(),
@@ -1258,16 +1271,24 @@ where
         //     "continue" ";"
         //     "continue" [no LineTerminator here] LabelIdentifier[?Yield, ?Await] ";"
         self.start_span();
-        self.consume_kw("continue", LexGoal::RegExp)?;
+        let token = self.consume_kw("continue", LexGoal::RegExp)?;
         let label = match self.current.tokentype {
             TokenType::Identifier | TokenType::Keyword if !self.has_line_terminator => {
-                Some(Box::from(self.parse_id_reference()?))
+                let token = self.current.clone();
+                let label = self.parse_id_reference()?;
+                let name = String::from(&token.value);
+                match self.find_label(&name) {
+                    Some(Label { is_iteration, .. }) if *is_iteration => (),
+                    Some(_) => return self.error(token, ErrorType::IllegalContinue(name)),
+                    None => return self.error(token, ErrorType::UnknownLabel(name)),
+                }
+                Some(Box::from(label))
             }
             _ => None,
         };
         match &label {
             None if !self.ctx.in_iteration => {
-                return self.error_current(ErrorType::NoIterationStatement)
+                return self.error(token, ErrorType::NoIterationStatement)
             }
             _ => (),
         }
@@ -1284,16 +1305,22 @@ where
         //     "break" ";"
         //     "break" [no LineTerminator here] LabelIdentifier[?Yield, ?Await] ";"
         self.start_span();
-        self.consume_kw("break", LexGoal::RegExp)?;
+        let token = self.consume_kw("break", LexGoal::RegExp)?;
         let label = match self.current.tokentype {
             TokenType::Identifier | TokenType::Keyword if !self.has_line_terminator => {
-                Some(Box::from(self.parse_id_reference()?))
+                let token = self.current.clone();
+                let label = self.parse_id_reference()?;
+                let name = String::from(&token.value);
+                if self.find_label(&name).is_none() {
+                    return self.error(token, ErrorType::UnknownLabel(name));
+                }
+                Some(Box::from(label))
             }
             _ => None,
         };
         match &label {
             None if (!self.ctx.in_iteration && !self.ctx.in_switch) => {
-                return self.error_current(ErrorType::IllegalBreak)
+                return self.error(token, ErrorType::IllegalBreak)
             }
             _ => (),
         }
@@ -1304,6 +1331,11 @@ where
         })
     }
 
+    /// The innermost enclosing label with the given name.
+    fn find_label(&self, name: &str) -> Option<&Label> {
+        self.ctx.labels.iter().rev().find(|label| label.name == name)
+    }
+
     fn parse_return_stmt(&mut self) -> Result<Node> {
         log!("parse_return_stmt");
         // ReturnStatement[Yield, Await]:
@@ -1363,6 +1395,17 @@ where
             }
         }?;
         self.consume(":", LexGoal::RegExp)?;
+        // Consecutive labels all label the same statement.
+        for outer in self.ctx.labels.iter_mut() {
+            if outer.body == label.span.start.idx {
+                outer.body = self.current.start;
+            }
+        }
+        self.ctx.labels.push(Label {
+            name: label.name.clone(),
+            body: self.current.start,
+            is_iteration: false,
+        });
         let body =
             match self.current.tokentype {
                 TokenType::Keyword if self.current.matches_str("function") => {
@@ -1376,6 +1419,7 @@ where
                 }
                 _ => Box::from(self.parse_statement()?),
             };
+        self.ctx.labels.pop();
         Ok(Node::LabeledStatement {
             label,
             body,
@@ -1598,7 +1642,14 @@ where
     fn parse_function_body(&mut self) -> Result<Node> {
         let prev_in_function = self.ctx.in_function;
         self.ctx.in_function = true;
+        // Neither loops nor labels reach into a function.
+        let prev_in_iteration = mem::replace(&mut self.ctx.in_iteration, false);
+        let prev_in_switch = mem::replace(&mut self.ctx.in_switch, false);
+        let prev_labels = mem::replace(&mut self.ctx.labels, vec![]);
         let res = self.with_return(true, &mut Self::parse_function_body_block);
+        self.ctx.labels = prev_labels;
+        self.ctx.in_switch = prev_in_switch;
+        self.ctx.in_iteration = prev_in_iteration;
         self.ctx.in_function = prev_in_function;
         res
     }
@@ -1614,10 +1665,7 @@ where
             violation => self.strict_violation = violation,
         }
 
-        let prev_in_iteration = self.ctx.in_iteration;
         body.extend(self.parse_statement_list()?);
-        self.ctx.in_iteration = prev_in_iteration;
-
         self.consume("}", LexGoal::Div)?;
         self.ctx.strict = prev_strict;
         Ok(Node::BlockStatement {
-- 
2.43.0


From ca780ad3ea63335a7deb84c966a4d74846b85d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 30/46] fix: report class expressions as ClassExpression and
 accept anonymous ones

---
 giron/src/parser/parser.rs | 67 +++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 30 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 71c718d..caab1d7 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1683,28 +1683,36 @@ where
         self.ctx.strict = true;
         self.start_span();
         self.consume_kw("class", LexGoal::RegExp)?;
-        let id = match self.parse_binding_id()? {
-            Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
-                Ok(Node::BindingIdentifier { name, span })
+        let id = match self.current.tokentype {
+            TokenType::Identifier | TokenType::Keyword
+                if !(self.params.has_default && self.current.matches_str("extends")) =>
+            {
+                Some(Box::from(self.parse_binding_id()?.to_node()?))
             }
-            _ => unreachable!(),
-        }?;
-        let res = self.parse_class_tail(Some(Box::from(id)))?;
+            _ if self.params.has_default => None,
+            _ => return self.unexpected_current(),
+        };
+        let (super_class, body) = self.with_params(
+            Params {
+                has_default: false,
+                ..self.params
+            },
+            &mut Self::parse_class_tail,
+        )?;
         self.ctx.strict = prev_strict;
-        Ok(res)
+        Ok(Node::ClassDeclaration {
+            id,
+            super_class,
+            body,
+            span: self.end_span(),
+        })
     }
 
-    fn parse_class_tail(&mut self, id: Option<Box<Node>>) -> Result<Node> {
+    fn parse_class_tail(&mut self) -> Result<(Option<Box<Node>>, ClassBody)> {
         // ClassTail[Yield, Await]:
         //     ClassHeritage[?Yield, ?Await](opt) "{" ClassBody[?Yield, ?Await](opt) "}"
         // ClassHeritage[Yield, Await]:
         //     "extends" LeftHandSideExpression[?Yield, ?Await]
-        // ClassDeclaration {
-        //     id: Option<Box<Node>>, // Identifier | null
-        //     #[serde(rename = "superClass")]
-        //     super_class: Option<Box<Node>>, // Expression | null
-        //     body: ClassBody,
-        // }
         let super_class = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("extends") => {
                 self.advance(LexGoal::RegExp)?;
@@ -1715,12 +1723,7 @@ where
         self.consume("{", LexGoal::RegExp)?;
         let body = self.parse_class_body()?;
         self.consume("}", LexGoal::Div)?;
-        Ok(Node::ClassDeclaration {
-            id,
-            super_class,
-            body,
-            span: self.end_span(),
-        })
+        Ok((super_class, body))
     }
 
     fn parse_class_body(&mut self) -> Result<ClassBody> {
@@ -3062,18 +3065,22 @@ where
         self.start_span();
         self.consume_kw("class", LexGoal::RegExp)?;
         let id = match self.current.tokentype {
-            TokenType::Identifier | TokenType::Keyword => match self.parse_binding_id()? {
-                Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
-                    Some(Box::from(Node::BindingIdentifier { name, span }))
-                }
-                _ => unreachable!(),
-            },
-            _ if self.params.has_default => None,
-            _ => return self.unexpected_current(),
+            TokenType::Identifier | TokenType::Keyword
+                if !self.current.matches_str("extends") =>
+            {
+                Some(Box::from(self.parse_binding_id()?.to_node()?))
+            }
+            _ => None,
         };
-        let res = self.parse_class_tail(id)?;
+        let (super_class, body) = self.parse_class_tail()?;
         self.ctx.strict = prev_strict;
-        Ok(res)
+        Ok(Node::ClassExpression {
+            id,
+            super_class,
+            body,
+            assign_target_type: "invalid",
+            span: self.end_span(),
+        })
     }
 
     fn parse_function_expr(&mut self, r#async: bool) -> Result<Node> {
-- 
2.43.0


From 7f981c2d631f973870fb52b0995a87eb5d9c78e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 31/46] fix: parse parenthesised expressions and arrow
 functions as the grammar does

---
 giron/src/estree/estree.rs |  54 +++++++-
 giron/src/parser/parser.rs | 245 ++++++++++++++++++++++++-------------
 giron/src/parser/syntax.rs |  15 ++-
 3 files changed, 219 insertions(+), 95 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index b1ae563..4410160 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -969,8 +969,52 @@ impl Node {
         }
     }
 
+    /// Notes that the expression stands in parentheses, which makes it no pattern, no binding
+    /// and no bare arrow function.
+    pub fn parenthesize(mut self) -> Node {
+        match &mut self {
+            Node::Identifier {
+                assign_target_type, ..
+            }
+            | Node::ArrayExpression {
+                assign_target_type, ..
+            }
+            | Node::ObjectExpression {
+                assign_target_type, ..
+            }
+            | Node::AssignmentExpression {
+                assign_target_type, ..
+            }
+            | Node::ArrowFunctionExpression {
+                assign_target_type, ..
+            }
+            | Node::AsyncArrowFunctionExpression {
+                assign_target_type, ..
+            } if *assign_target_type != "strict" => *assign_target_type = "parenthesized",
+            _ => (),
+        }
+        self
+    }
+
+    /// Whether this is an arrow function without parentheses around it, which is no operand.
+    pub fn is_bare_arrow(&self) -> bool {
+        match self {
+            Node::ArrowFunctionExpression {
+                assign_target_type, ..
+            }
+            | Node::AsyncArrowFunctionExpression {
+                assign_target_type, ..
+            } => *assign_target_type != "parenthesized",
+            _ => false,
+        }
+    }
+
     pub fn assign_target_type(&self) -> &'static str {
         match self {
+            Node::Identifier {
+                assign_target_type: "parenthesized",
+                ..
+            } => "simple",
             Node::ArrayExpression {
                 assign_target_type, ..
             } => assign_target_type,
@@ -1088,6 +1132,7 @@ impl Node {
 
     pub fn to_assignment_pattern(self) -> Result<Node> {
         match self {
+            _ if self.assign_target_type() == "parenthesized" => Ok(self),
             Node::ArrayExpression { elements, span, .. } => {
                 Node::array_to_assign_pattern(elements, span)
             }
@@ -1148,7 +1193,7 @@ impl Node {
                 left,
                 right,
                 span,
-                ..
+                assign_target_type: "invalid",
             } => {
                 if left.assign_target_type() != "simple" {
                     Node::error(ErrorType::InvalidLhsInAssignment, span.start)
@@ -1248,7 +1293,12 @@ impl Node {
 
     pub fn to_binding_pattern(self) -> Result<Node> {
         match self {
-            Node::Identifier { name, span, .. } => Ok(Node::BindingIdentifier { name, span }),
+            _ if self.assign_target_type() == "parenthesized" => Ok(self),
+            Node::Identifier {
+                name,
+                span,
+                assign_target_type: "simple",
+            } => Ok(Node::BindingIdentifier { name, span }),
             Node::ArrayExpression { elements, span, .. } => Node::array_to_pattern(elements, span),
             Node::ObjectExpression {
                 properties, span, ..
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index caab1d7..8214219 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1,7 +1,7 @@
 use crate::errors::errors::{Error, ErrorType};
 use crate::errors::result::Result;
 use crate::estree::estree::*;
-use crate::parser::syntax::Syntax;
+use crate::parser::syntax::{is_strict_reserved, Syntax};
 use crate::scanner::scanner::{LexGoal, Scanner};
 use crate::span::span::{Marker, Span};
 use crate::token::token::{Token, TokenType};
@@ -87,6 +87,8 @@ pub struct Parser<I> {
     first_token_error: Option<Error>,
     /// The first identifier seen that strict code could not contain there.
     strict_violation: Option<Error>,
+    /// The only place where an arrow function may start: where an assignment expression does.
+    arrow_start: usize,
     prev_end: Marker,
 }
 
@@ -119,6 +121,7 @@ where
             goal: SyntaxGoal::Ambiguous,
             first_token_error,
             strict_violation: None,
+            arrow_start: 0,
             prev_end: Marker {
                 line: 1,
                 col: 1,
@@ -681,10 +684,11 @@ where
     fn parse_expression_or_labelled_stmt(&mut self) -> Result<Node> {
         log!("parse_expression_or_labelled_stmt");
         self.start_span();
+        let has_parens = self.current.matches_punc("(");
         let expr = self.with_in(true, &mut Self::parse_expression)?;
         match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc(":") => match expr {
-                Node::Identifier { name, span, .. } => {
+                Node::Identifier { name, span, .. } if !has_parens => {
                     self.parse_labelled_stmt(Some(Identifier { name, span }))
                 }
                 _ => self.parse_expression_stmt(Box::from(expr)),
@@ -1930,11 +1934,19 @@ where
             return self.parse_yield_expr();
         }
         let marker = self.marker();
+        self.arrow_start = marker.idx;
         let mut lhs = self.parse_conditional_expr()?;
 
-        if let Node::Identifier { name, .. } = &lhs {
+        if let Node::Identifier {
+            name,
+            assign_target_type: "simple",
+            ..
+        } = &lhs
+        {
             match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("=>") => {
+                TokenType::Punctuator
+                    if self.current.matches_punc("=>") && !self.has_line_terminator =>
+                {
                     lhs = self.parse_single_param_arrow_function_expr(name.clone(), &marker)?;
                 }
                 _ => (),
@@ -2026,10 +2038,12 @@ where
     fn parse_single_param_arrow_function_expr(&mut self, name: String, start: &Marker) -> Result<Node> {
         log!("parse_single_param_arrow_function_expr");
         self.consume("=>", LexGoal::RegExp)?;
-        let (body, expression) = self.parse_arrow_body()?;
+        let params = vec![FunctionParameter::BindingIdentifier { name }];
+        let (body, expression) = self.parse_arrow_body(false)?;
+        self.check_strict_params(&params, &body, start)?;
         Ok(Node::ArrowFunctionExpression {
             id: None,
-            params: vec![FunctionParameter::BindingIdentifier { name }],
+            params,
             body,
             generator: false,
             expression,
@@ -2048,7 +2062,7 @@ where
         //      AssignmentExpression[?In, ?Yield, ?Await]
         let marker = self.marker();
         let expr = self.parse_binary_expr()?;
-        if self.current.matches_punc("?") {
+        if self.current.matches_punc("?") && !expr.is_bare_arrow() {
             self.consume("?", LexGoal::RegExp)?;
             let consequent = Box::from(self.with_in(true, &mut Self::parse_assignment_expr)?);
             self.consume(":", LexGoal::RegExp)?;
@@ -2073,6 +2087,9 @@ where
     }
 
     fn precedence_climbing(&mut self, mut lhs: Node, start: &Marker, prec: usize) -> Result<Node> {
+        if lhs.is_bare_arrow() {
+            return Ok(lhs);
+        }
         while self.current.is_bin_op() && self.current.precedence(self.params.has_in) >= prec {
             let op = self.advance(LexGoal::RegExp)?;
             let marker = self.marker();
@@ -2113,7 +2130,9 @@ where
             let marker = self.marker();
             let lhs = self.parse_update_expr()?;
             match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("**") => {
+                TokenType::Punctuator
+                    if self.current.matches_punc("**") && !lhs.is_bare_arrow() =>
+                {
                     let operator = self.consume("**", LexGoal::RegExp)?.to_string();
                     let rhs = self.parse_exponentiation_expr()?;
                     Ok(Node::BinaryExpression {
@@ -2171,7 +2190,7 @@ where
             let operator = self.advance(LexGoal::RegExp)?.to_string();
             let (line, col) = (self.current.line_num, self.current.col);
             let expr = self.parse_unary_expr()?;
-            if expr.assign_target_type() == "invalid" || expr.assign_target_type() == "strict" {
+            if expr.assign_target_type() != "simple" {
                 return Err(Error {
                     line,
                     col,
@@ -2190,7 +2209,7 @@ where
             let (line, col) = (self.current.line_num, self.current.col);
             let expr = self.parse_left_hand_side_expr()?;
             if !self.has_line_terminator && self.current.is_update_op() {
-                if expr.assign_target_type() == "invalid" || expr.assign_target_type() == "strict" {
+                if expr.assign_target_type() != "simple" {
                     return Err(Error {
                         line,
                         col,
@@ -2248,7 +2267,9 @@ where
         loop {
             callee = self.parse_member_expr_tail(callee, start)?;
             match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("(") => {
+                TokenType::Punctuator
+                    if self.current.matches_punc("(") && !callee.is_bare_arrow() =>
+                {
                     callee = self.parse_call_expr(callee, start)?;
                 }
                 _ => return Ok(callee),
@@ -2290,6 +2311,9 @@ where
     }
 
     fn parse_member_expr_tail(&mut self, mut expr: Node, start: &Marker) -> Result<Node> {
+        if expr.is_bare_arrow() {
+            return Ok(expr);
+        }
         loop {
             match self.current.tokentype {
                 TokenType::Punctuator if self.current.matches_punc("[") => {
@@ -2500,14 +2524,23 @@ where
         }
     }
 
-    fn parse_async_call_or_arrow(&mut self, callee: Box<Node>) -> Result<Node> {
+    fn parse_async_call_or_arrow(&mut self, callee: Box<Node>, start: &Marker) -> Result<Node> {
         log!("parse_async_call_or_arrow");
-        let arguments = self.parse_arguments()?;
+        let (arguments, trailing_comma) = self.parse_cover_arguments()?;
         match self.current.tokentype {
-            TokenType::Punctuator if self.current.matches_punc("=>") => {
-                self.advance(LexGoal::RegExp)?;
-                let (body, expression) = self.parse_arrow_body()?;
+            TokenType::Punctuator
+                if self.current.matches_punc("=>") && !self.has_line_terminator =>
+            {
+                match (arguments.last(), trailing_comma) {
+                    (Some(ArgumentListElement::SpreadElement(_)), Some(comma)) => {
+                        return self.error(comma, ErrorType::ParamAfterRest)
+                    }
+                    (_, _) => (),
+                }
                 let params = self.arguments_to_params(arguments)?;
+                self.advance(LexGoal::RegExp)?;
+                let (body, expression) = self.parse_arrow_body(true)?;
+                self.check_strict_params(&params, &body, start)?;
                 Ok(Node::AsyncArrowFunctionExpression {
                     id: None,
                     params,
@@ -2516,14 +2549,14 @@ where
                     expression,
                     r#async: true,
                     assign_target_type: "invalid",
-                    span: self.end_span(),
+                    span: self.span_from(start),
                 })
             }
             _ => Ok(Node::CallExpression {
                 callee,
                 arguments,
                 assign_target_type: "invalid",
-                span: self.end_span(),
+                span: self.span_from(start),
             }),
         }
     }
@@ -2571,6 +2604,13 @@ where
 
     fn parse_arguments(&mut self) -> Result<Vec<ArgumentListElement>> {
         log!("parse_arguments");
+        let (arguments, _) = self.parse_cover_arguments()?;
+        Ok(arguments)
+    }
+
+    /// Parses what is either arguments or, in front of an arrow, the parameters of an async
+    /// arrow function, and returns the comma at their end along with them.
+    fn parse_cover_arguments(&mut self) -> Result<(Vec<ArgumentListElement>, Option<Token>)> {
         // Arguments[Yield, Await]:
         //     "(" ")"
         //     "(" ArgumentList[?Yield, ?Await] ")"
@@ -2581,6 +2621,7 @@ where
         //     ArgumentList[?Yield, ?Await] "," AssignmentExpression[+In, ?Yield, ?Await]
         //     ArgumentList[?Yield, ?Await] "," "..." AssignmentExpression[+In, ?Yield, ?Await]
         self.consume("(", LexGoal::RegExp)?;
+        let mut comma = None;
         let arguments = self.parse_until_punc(")", &mut |this| match this.current.tokentype {
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.start_span();
@@ -2591,7 +2632,7 @@ where
                     span: this.end_span(),
                 });
                 if !this.current.matches_punc(")") {
-                    this.consume(",", LexGoal::RegExp)?;
+                    comma = Some(this.consume(",", LexGoal::RegExp)?);
                 }
                 Ok(res)
             }
@@ -2604,7 +2645,7 @@ where
             }
         })?;
         self.consume(")", LexGoal::Div)?;
-        Ok(arguments)
+        Ok((arguments, comma))
     }
 
     fn parse_seq_or_arrow(&mut self) -> Result<Node> {
@@ -2617,10 +2658,12 @@ where
         //     "(" "..." BindingPattern[?Yield, ?Await] ")"
         //     "(" Expression[+In, ?Yield, ?Await] "," "..." BindingIdentifier[?Yield, ?Await]")"
         //     "(" Expression[+In, ?Yield, ?Await] "," "..." BindingPattern[?Yield, ?Await] ")"
-        self.start_span();
+        let start = self.marker();
+        let may_be_arrow = self.arrow_start == start.idx;
         self.consume("(", LexGoal::RegExp)?;
+        let inner = self.marker();
         let mut definitely_arrow = false;
-        let expressions =
+        let mut expressions =
             self.parse_until_punc_or_rest(")", &mut |this| match this.current.tokentype {
                 TokenType::Punctuator if this.current.matches_punc("...") => {
                     this.start_span();
@@ -2642,28 +2685,30 @@ where
                     Ok(expr)
                 }
             })?;
+        let span = self.span_from(&inner);
         self.consume(")", LexGoal::Div)?;
-        let assign_target_type = if expressions.len() == 1 {
-            (&expressions[0]).assign_target_type()
-        } else {
-            "invalid"
-        };
-        match (definitely_arrow, self.current.matches_punc("=>")) {
-            (true, _) => self.seq_to_arrow(expressions),
-            (false, true) => self.seq_to_arrow(expressions),
-            (false, false) => Ok(Node::SequenceExpression {
-                expressions,
-                assign_target_type,
-                span: self.end_span(),
-            }),
+        if definitely_arrow || expressions.is_empty() || self.current.matches_punc("=>") {
+            if !may_be_arrow || self.has_line_terminator {
+                return self.unexpected_current();
+            }
+            return self.seq_to_arrow(expressions, &start);
         }
+        if expressions.len() == 1 {
+            return Ok(expressions.remove(0).parenthesize());
+        }
+        Ok(Node::SequenceExpression {
+            expressions,
+            assign_target_type: "invalid",
+            span,
+        })
     }
 
-    fn seq_to_arrow(&mut self, seq: Vec<Node>) -> Result<Node> {
+    fn seq_to_arrow(&mut self, seq: Vec<Node>, start: &Marker) -> Result<Node> {
         log!("seq_to_arrow");
         let params = self.seq_to_arrow_params(seq)?;
         self.consume("=>", LexGoal::RegExp)?;
-        let (body, expression) = self.parse_arrow_body()?;
+        let (body, expression) = self.parse_arrow_body(false)?;
+        self.check_strict_params(&params, &body, start)?;
         Ok(Node::ArrowFunctionExpression {
             id: None,
             params,
@@ -2672,7 +2717,7 @@ where
             expression,
             r#async: false,
             assign_target_type: "invalid",
-            span: self.end_span(),
+            span: self.span_from(start),
         })
     }
 
@@ -3434,58 +3479,52 @@ where
 
     fn parse_async_primary_expr(&mut self) -> Result<Node> {
         log!("parse_async_primary_expr");
-        self.start_span();
-        let id = self.parse_id_reference()?;
-        if !self.has_line_terminator {
-            match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc(";") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc(".") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("[") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("`") => Ok(id),
-                TokenType::Punctuator if self.current.matches_punc("(") => {
-                    self.parse_async_call_or_arrow(Box::from(id))
-                }
-                TokenType::Keyword if self.current.matches_str("function") => {
-                    self.parse_function_expr(true)
-                }
-                _ => {
-                    let param = match self.with_params(
-                        Params {
-                            has_await: true,
-                            ..self.params
-                        },
-                        &mut Self::parse_binding_id,
-                    )? {
-                        Binding::BindingIdentifier(BindingIdentifier { name, .. }) => {
-                            Ok(FunctionParameter::BindingIdentifier { name })
-                        }
-                        _ => unreachable!(),
-                    }?;
-                    if !self.has_line_terminator && self.current.matches_punc("=>") {
-                        self.advance(LexGoal::RegExp)?;
-                        let (body, expression) = self.parse_arrow_body()?;
-                        Ok(Node::AsyncArrowFunctionExpression {
-                            id: None,
-                            params: vec![param],
-                            body,
-                            generator: false,
-                            expression,
-                            r#async: true,
-                            assign_target_type: "invalid",
-                            span: self.end_span(),
-                        })
-                    } else {
-                        self.unexpected_current()
-                    }
-                }
+        let marker = self.marker();
+        let may_be_arrow = self.arrow_start == marker.idx;
+        let next_token = self.peek()?;
+        if self.current.end_line != next_token.line_num {
+            return self.parse_id_reference();
+        }
+        match next_token.tokentype {
+            TokenType::Keyword if next_token.matches_str("function") => {
+                self.start_span();
+                self.advance(LexGoal::RegExp)?;
+                self.parse_function_expr(true)
             }
-        } else {
-            self.end_span();
-            Ok(id)
+            TokenType::Punctuator if may_be_arrow && next_token.matches_punc("(") => {
+                let id = self.parse_id_reference()?;
+                self.parse_async_call_or_arrow(Box::from(id), &marker)
+            }
+            TokenType::Identifier | TokenType::Keyword
+                if may_be_arrow
+                    && !next_token.matches_str("in")
+                    && !next_token.matches_str("instanceof") =>
+            {
+                self.advance(LexGoal::RegExp)?;
+                let param = self.with_await(true, &mut |this| this.parse_binding_id()?.to_node())?;
+                let params = self.arguments_to_params(vec![ArgumentListElement::Expression(param)])?;
+                if self.has_line_terminator {
+                    return self.unexpected_current();
+                }
+                self.consume("=>", LexGoal::RegExp)?;
+                let (body, expression) = self.parse_arrow_body(true)?;
+                self.check_strict_params(&params, &body, &marker)?;
+                Ok(Node::AsyncArrowFunctionExpression {
+                    id: None,
+                    params,
+                    body,
+                    generator: false,
+                    expression,
+                    r#async: true,
+                    assign_target_type: "invalid",
+                    span: self.span_from(&marker),
+                })
+            }
+            _ => self.parse_id_reference(),
         }
     }
 
-    fn parse_arrow_body(&mut self) -> Result<(Box<Node>, bool)> {
+    fn parse_arrow_body(&mut self, r#async: bool) -> Result<(Box<Node>, bool)> {
         log!("parse_arrow_body");
         let body;
         let mut expression = false;
@@ -3493,7 +3532,7 @@ where
             TokenType::Punctuator if self.current.matches_punc("{") => {
                 body = Box::from(self.with_params(
                     Params {
-                        has_await: true,
+                        has_await: r#async,
                         has_yield: false,
                         ..self.params
                     },
@@ -3503,7 +3542,7 @@ where
             _ => {
                 body = Box::from(self.with_params(
                     Params {
-                        has_await: true,
+                        has_await: r#async,
                         has_yield: false,
                         ..self.params
                     },
@@ -3515,6 +3554,36 @@ where
         Ok((body, expression))
     }
 
+    /// Checks the parameters of an arrow function whose body has a "use strict" directive.
+    fn check_strict_params(
+        &self,
+        params: &[FunctionParameter],
+        body: &Node,
+        start: &Marker,
+    ) -> Result<()> {
+        let is_strict = match body {
+            Node::BlockStatement { body, .. } => body.iter().any(|stmt| match stmt {
+                Node::Directive { directive, .. } => directive == "use strict",
+                _ => false,
+            }),
+            _ => false,
+        };
+        for param in params {
+            match param {
+                FunctionParameter::BindingIdentifier { name } if is_strict => {
+                    if is_strict_reserved(name) || name == "eval" || name == "arguments" {
+                        return Node::error(
+                            ErrorType::UnexpectedStrictReserved,
+                            start.clone(),
+                        );
+                    }
+                }
+                _ => (),
+            }
+        }
+        Ok(())
+    }
+
     fn parse_id_reference(&mut self) -> Result<Node> {
         log!("parse_id_reference");
         // IdentifierReference[Yield, Await]:
diff --git a/giron/src/parser/syntax.rs b/giron/src/parser/syntax.rs
index 772aa78..1641da9 100644
--- a/giron/src/parser/syntax.rs
+++ b/giron/src/parser/syntax.rs
@@ -214,10 +214,15 @@ impl Syntax for Token {
     }
 
     fn is_strict_reserved_kw(&self) -> bool {
-        match &String::from(&self.value)[..] {
-            "implements" | "interface" | "let" | "package" | "private" | "protected" | "public"
-            | "static" | "yield" => true,
-            _ => false,
-        }
+        is_strict_reserved(&String::from(&self.value))
+    }
+}
+
+/// Whether strict code reserves the name.
+pub fn is_strict_reserved(name: &str) -> bool {
+    match name {
+        "implements" | "interface" | "let" | "package" | "private" | "protected" | "public"
+        | "static" | "yield" => true,
+        _ => false,
     }
 }
-- 
2.43.0


From 0efe8f88ced3b2221903a3a90e347e383fd49f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 32/46] fix: parse yield without an argument

---
 giron/src/parser/parser.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 8214219..444bcc6 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2013,9 +2013,12 @@ where
                         span: self.span_from(&marker),
                     })
                 }
-                TokenType::Punctuator if self.current.matches_punc("=>") => {
-                    self.parse_single_param_arrow_function_expr(String::from("yield"), &marker)
-                }
+                _ if self.ends_yield() => Ok(Node::YieldExpression {
+                    argument: None,
+                    delegate: false,
+                    assign_target_type: "invalid",
+                    span: self.span_from(&marker),
+                }),
                 _ => Ok(Node::YieldExpression {
                     argument: Some(Box::from(
                         self.with_yield(true, &mut Self::parse_assignment_expr)?,
@@ -2035,6 +2038,19 @@ where
         }
     }
 
+    /// Whether the current token cannot start the argument of a yield in front of it.
+    fn ends_yield(&self) -> bool {
+        match self.current.tokentype {
+            TokenType::Eof => true,
+            TokenType::Punctuator => [")", "]", "}", ",", ":", ";"]
+                .iter()
+                .any(|punc| self.current.matches_punc(punc)),
+            TokenType::Template => self.current.head != Some(true),
+            TokenType::Keyword => self.current.matches_str("in"),
+            _ => false,
+        }
+    }
+
     fn parse_single_param_arrow_function_expr(&mut self, name: String, start: &Marker) -> Result<Node> {
         log!("parse_single_param_arrow_function_expr");
         self.consume("=>", LexGoal::RegExp)?;
-- 
2.43.0


From 02943d6dcca35f41db2b69430487646a23a9b357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 33/46] fix: accept a shorthand property initializer where, and
 only where, the object turns out to be a pattern

---
 giron/src/parser/parser.rs | 109 ++++++++++++++++++++++++++++++-------
 1 file changed, 88 insertions(+), 21 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 444bcc6..81ef380 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -89,6 +89,8 @@ pub struct Parser<I> {
     strict_violation: Option<Error>,
     /// The only place where an arrow function may start: where an assignment expression does.
     arrow_start: usize,
+    /// The error for a `{a = 1}` that is only valid if it turns out to be a pattern.
+    cover_initializer: Option<Error>,
     prev_end: Marker,
 }
 
@@ -122,6 +124,7 @@ where
             first_token_error,
             strict_violation: None,
             arrow_start: 0,
+            cover_initializer: None,
             prev_end: Marker {
                 line: 1,
                 col: 1,
@@ -1020,7 +1023,7 @@ where
                     }
                     _ => (),
                 }
-                let mut expr = self.with_in(false, &mut Self::parse_assignment_expr)?;
+                let mut expr = self.with_in(false, &mut Self::parse_assignment_cover)?;
                 match self.current.tokentype {
                     TokenType::Keyword if self.current.matches_str("in") => {
                         self.end_span(); // not needed
@@ -1720,7 +1723,9 @@ where
         let super_class = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("extends") => {
                 self.advance(LexGoal::RegExp)?;
-                Some(Box::from(self.parse_left_hand_side_expr()?))
+                let super_class = self.parse_left_hand_side_expr()?;
+                self.check_cover_initializer()?;
+                Some(Box::from(super_class))
             }
             _ => None,
         };
@@ -1923,6 +1928,30 @@ where
 
     fn parse_assignment_expr(&mut self) -> Result<Node> {
         log!("parse_assignment_expr");
+        let outer = self.cover_initializer.take();
+        let expr = self.parse_assignment_cover()?;
+        self.check_cover_initializer()?;
+        self.cover_initializer = outer;
+        Ok(expr)
+    }
+
+    /// Parses an assignment expression that may still turn out to be a pattern.
+    fn parse_assignment_cover(&mut self) -> Result<Node> {
+        let outer = self.cover_initializer.take();
+        let expr = self.parse_assignment_or_pattern()?;
+        let inner = self.cover_initializer.take();
+        self.cover_initializer = outer.or(inner);
+        Ok(expr)
+    }
+
+    fn check_cover_initializer(&mut self) -> Result<()> {
+        match self.cover_initializer.take() {
+            Some(error) => Err(error),
+            None => Ok(()),
+        }
+    }
+
+    fn parse_assignment_or_pattern(&mut self) -> Result<Node> {
         // AssignmentExpression[In, Yield, Await]:
         //     [+Yield] YieldExpression[?In, ?Await]
         //     ConditionalExpression[?In, ?Yield, ?Await]
@@ -1957,6 +1986,12 @@ where
             TokenType::Punctuator if self.current.matches_punc("=") => {
                 let token = self.advance(LexGoal::RegExp)?;
                 lhs = lhs.to_assignment_pattern()?;
+                match lhs {
+                    Node::ObjectPattern { .. } | Node::ArrayAssignmentPattern { .. } => {
+                        self.cover_initializer = None
+                    }
+                    _ => self.check_cover_initializer()?,
+                }
                 if lhs.assign_target_type() != "simple" {
                     return self.error(token, ErrorType::InvalidLhsInAssignment);
                 }
@@ -1970,6 +2005,7 @@ where
                 })
             }
             TokenType::Punctuator if self.current.is_assign_op() => {
+                self.check_cover_initializer()?;
                 let token = self.advance(LexGoal::RegExp)?;
                 let operator = token.value.clone().punc().unwrap().to_str();
                 if lhs.assign_target_type() != "simple" {
@@ -1984,7 +2020,13 @@ where
                     span: self.span_from(&marker),
                 })
             }
-            _ => Ok(lhs),
+            _ => {
+                match lhs {
+                    Node::ObjectExpression { .. } | Node::ArrayExpression { .. } => (),
+                    _ => self.check_cover_initializer()?,
+                }
+                Ok(lhs)
+            }
         }
     }
 
@@ -2542,7 +2584,7 @@ where
 
     fn parse_async_call_or_arrow(&mut self, callee: Box<Node>, start: &Marker) -> Result<Node> {
         log!("parse_async_call_or_arrow");
-        let (arguments, trailing_comma) = self.parse_cover_arguments()?;
+        let (arguments, trailing_comma) = self.parse_cover_arguments(true)?;
         match self.current.tokentype {
             TokenType::Punctuator
                 if self.current.matches_punc("=>") && !self.has_line_terminator =>
@@ -2554,6 +2596,7 @@ where
                     (_, _) => (),
                 }
                 let params = self.arguments_to_params(arguments)?;
+                self.cover_initializer = None;
                 self.advance(LexGoal::RegExp)?;
                 let (body, expression) = self.parse_arrow_body(true)?;
                 self.check_strict_params(&params, &body, start)?;
@@ -2568,12 +2611,15 @@ where
                     span: self.span_from(start),
                 })
             }
-            _ => Ok(Node::CallExpression {
-                callee,
-                arguments,
-                assign_target_type: "invalid",
-                span: self.span_from(start),
-            }),
+            _ => {
+                self.check_cover_initializer()?;
+                Ok(Node::CallExpression {
+                    callee,
+                    arguments,
+                    assign_target_type: "invalid",
+                    span: self.span_from(start),
+                })
+            }
         }
     }
 
@@ -2620,13 +2666,16 @@ where
 
     fn parse_arguments(&mut self) -> Result<Vec<ArgumentListElement>> {
         log!("parse_arguments");
-        let (arguments, _) = self.parse_cover_arguments()?;
+        let (arguments, _) = self.parse_cover_arguments(false)?;
         Ok(arguments)
     }
 
     /// Parses what is either arguments or, in front of an arrow, the parameters of an async
     /// arrow function, and returns the comma at their end along with them.
-    fn parse_cover_arguments(&mut self) -> Result<(Vec<ArgumentListElement>, Option<Token>)> {
+    fn parse_cover_arguments(
+        &mut self,
+        may_be_params: bool,
+    ) -> Result<(Vec<ArgumentListElement>, Option<Token>)> {
         // Arguments[Yield, Await]:
         //     "(" ")"
         //     "(" ArgumentList[?Yield, ?Await] ")"
@@ -2636,13 +2685,17 @@ where
         //     "..." AssignmentExpression[+In, ?Yield, ?Await]
         //     ArgumentList[?Yield, ?Await] "," AssignmentExpression[+In, ?Yield, ?Await]
         //     ArgumentList[?Yield, ?Await] "," "..." AssignmentExpression[+In, ?Yield, ?Await]
+        let parse_argument = match may_be_params {
+            true => Self::parse_assignment_cover,
+            false => Self::parse_assignment_expr,
+        };
         self.consume("(", LexGoal::RegExp)?;
         let mut comma = None;
         let arguments = self.parse_until_punc(")", &mut |this| match this.current.tokentype {
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
-                let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let argument = this.with_in(true, &mut |this: &mut Self| parse_argument(this))?;
                 let res = ArgumentListElement::SpreadElement(SpreadElement {
                     argument,
                     span: this.end_span(),
@@ -2653,7 +2706,7 @@ where
                 Ok(res)
             }
             _ => {
-                let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let expr = this.with_in(true, &mut |this: &mut Self| parse_argument(this))?;
                 if !this.current.matches_punc(")") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
@@ -2691,7 +2744,7 @@ where
                     })
                 }
                 _ => {
-                    let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                    let expr = this.with_in(true, &mut Self::parse_assignment_cover)?;
                     if !this.current.matches_punc(")") {
                         this.consume(",", LexGoal::RegExp)?;
                         if this.current.matches_punc(")") {
@@ -2709,6 +2762,7 @@ where
             }
             return self.seq_to_arrow(expressions, &start);
         }
+        self.check_cover_initializer()?;
         if expressions.len() == 1 {
             return Ok(expressions.remove(0).parenthesize());
         }
@@ -2722,6 +2776,7 @@ where
     fn seq_to_arrow(&mut self, seq: Vec<Node>, start: &Marker) -> Result<Node> {
         log!("seq_to_arrow");
         let params = self.seq_to_arrow_params(seq)?;
+        self.cover_initializer = None;
         self.consume("=>", LexGoal::RegExp)?;
         let (body, expression) = self.parse_arrow_body(false)?;
         self.check_strict_params(&params, &body, start)?;
@@ -3323,7 +3378,7 @@ where
             this.start_span();
             if this.current.matches_punc("...") {
                 this.advance(LexGoal::RegExp)?;
-                let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let argument = this.with_in(true, &mut Self::parse_assignment_cover)?;
                 let res = ObjectExpressionProperty::SpreadElement {
                     argument,
                     span: this.end_span(),
@@ -3349,7 +3404,7 @@ where
                 TokenType::Punctuator if this.current.matches_punc(":") => {
                     this.advance(LexGoal::RegExp)?;
                     let value = PropertyValue::Expression(
-                        this.with_in(true, &mut Self::parse_assignment_expr)?,
+                        this.with_in(true, &mut Self::parse_assignment_cover)?,
                     );
                     (value, false, false)
                 }
@@ -3435,10 +3490,21 @@ where
             "eval" | "arguments" if self.ctx.strict => "strict",
             _ => "simple",
         };
-        Ok(PropertyValue::Expression(Node::Identifier {
+        let id = Node::Identifier {
             name,
             assign_target_type,
             span,
+        };
+        if !self.current.matches_punc("=") {
+            return Ok(PropertyValue::Expression(id));
+        }
+        if self.cover_initializer.is_none() {
+            self.cover_initializer = self.unexpected_current::<()>().err();
+        }
+        self.advance(LexGoal::RegExp)?;
+        Ok(PropertyValue::AssignmentPattern(AssignmentPattern {
+            left: Binding::Expression(Box::from(id)),
+            right: self.with_in(true, &mut Self::parse_assignment_expr)?,
         }))
     }
 
@@ -3468,17 +3534,18 @@ where
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
-                let argument = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let argument = this.with_in(true, &mut Self::parse_assignment_cover)?;
+                let span = this.end_span();
                 if !this.current.matches_punc("]") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
                 Ok(Some(ArrayExpressionElement::SpreadElement(SpreadElement {
                     argument,
-                    span: this.end_span(),
+                    span,
                 })))
             }
             _ => {
-                let element = this.with_in(true, &mut Self::parse_assignment_expr)?;
+                let element = this.with_in(true, &mut Self::parse_assignment_cover)?;
                 if !this.current.matches_punc("]") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
-- 
2.43.0


From bda74b1739dc58b571671f03fb017b9a68d4dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 34/46] fix: parse every property form in object binding
 patterns

---
 giron/src/parser/parser.rs | 186 ++++++++++---------------------------
 1 file changed, 50 insertions(+), 136 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 81ef380..eb1d260 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -24,11 +24,6 @@ macro_rules! log {
 
 // **************************************************************
 
-pub enum ValueOrExpr {
-    Value(Value),
-    Expr(Node),
-}
-
 struct Context {
     strict: bool,
     in_function: bool,
@@ -2870,117 +2865,37 @@ where
         {
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.advance(LexGoal::RegExp)?;
+                // The rest of an object can only be bound to a name.
                 Ok(ObjectPatternProperty::RestElement {
-                    argument: this.parse_binding_id_or_pat()?,
+                    argument: this.parse_binding_id()?,
                 })
             }
             _ => {
-                this.start_span();
-                let value = match this.current.tokentype {
-                    TokenType::Identifier
-                    | TokenType::Keyword
-                    | TokenType::StringLiteral
-                    | TokenType::NumericLiteral => {
-                        Ok(ValueOrExpr::Value(this.advance(LexGoal::RegExp)?.value))
-                    }
-                    TokenType::Punctuator if this.current.matches_punc("[") => {
-                        this.consume("[", LexGoal::RegExp)?;
-                        let expr = this.with_in(true, &mut Self::parse_assignment_expr)?;
-                        this.consume("]", LexGoal::RegExp)?;
-                        Ok(ValueOrExpr::Expr(expr))
-                    }
-                    _ => this.unexpected_current(),
-                }?;
-                let span = this.end_span();
-                let property = match this.current.tokentype {
-                    TokenType::Punctuator if this.current.matches_punc("=") => {
-                        this.advance(LexGoal::RegExp)?;
-                        let name = match &value {
-                            ValueOrExpr::Value(Value::Str(s)) => Ok(s.clone()),
-                            _ => this.unexpected_current(),
-                        }?;
-                        let key = this.value_to_key(value, false, span.clone())?;
-                        let obj_value = PropertyValue::AssignmentPattern(AssignmentPattern {
-                            left: Binding::BindingIdentifier(BindingIdentifier { name, span }),
-                            right: this.with_in(true, &mut Self::parse_assignment_expr)?,
-                        });
-                        Ok(ObjectPatternProperty::Property {
-                            key,
-                            computed: false,
-                            value: Some(obj_value),
-                            kind: "init",
-                            method: false,
-                            shorthand: true,
-                        })
-                    }
+                let token = this.current.clone();
+                let (key, computed) = this.parse_property_name()?;
+                let (value, shorthand) = match this.current.tokentype {
                     TokenType::Punctuator if this.current.matches_punc(":") => {
                         this.advance(LexGoal::RegExp)?;
-                        let key = this.value_to_key(value, true, span)?;
-                        let computed = match &key {
-                            PropertyKey::Expression(_) => true,
-                            _ => false,
-                        };
-                        let (line, col) = (this.current.line_num, this.current.col);
                         let pattern = this.parse_binding_id_or_pat()?;
-                        let obj_value = match this.current.tokentype {
-                            TokenType::Punctuator if this.current.matches_punc("=") => {
-                                this.advance(LexGoal::RegExp)?;
-                                Ok(PropertyValue::AssignmentPattern(AssignmentPattern {
-                                    left: pattern,
-                                    right: this.with_in(true, &mut Self::parse_assignment_expr)?,
-                                }))
-                            }
-                            _ => match pattern {
-                                Binding::BindingIdentifier(BindingIdentifier { name, span }) => {
-                                    Ok(PropertyValue::BindingIdentifier(BindingIdentifier {
-                                        name,
-                                        span,
-                                    }))
-                                }
-                                Binding::ArrayPattern(ArrayPattern { elements, .. }) => {
-                                    Ok(PropertyValue::BindingPattern(
-                                        BindingPattern::ArrayPattern { elements },
-                                    ))
-                                }
-                                Binding::ObjectPattern(ObjectPattern { properties, .. }) => {
-                                    Ok(PropertyValue::BindingPattern(
-                                        BindingPattern::ObjectPattern { properties },
-                                    ))
-                                }
-                                _ => {
-                                    return Err(Error {
-                                        line,
-                                        col,
-                                        errortype: ErrorType::InvalidDestructuringTarget,
-                                    })
-                                }
-                            },
-                        }?;
-                        Ok(ObjectPatternProperty::Property {
-                            key,
-                            computed,
-                            value: Some(obj_value),
-                            kind: "init",
-                            method: false,
-                            shorthand: false,
-                        })
+                        (this.parse_binding_property_value(pattern)?, false)
                     }
                     _ => {
-                        let key = this.value_to_key(value, false, span)?;
-                        Ok(ObjectPatternProperty::Property {
-                            key,
-                            computed: false,
-                            value: None,
-                            kind: "init",
-                            method: false,
-                            shorthand: true,
-                        })
+                        let id = this.shorthand_binding(&token, &key)?;
+                        let binding = Binding::BindingIdentifier(id);
+                        (this.parse_binding_property_value(binding)?, true)
                     }
-                }?;
+                };
                 if !this.current.matches_punc("}") {
                     this.consume(",", LexGoal::RegExp)?;
                 }
-                Ok(property)
+                Ok(ObjectPatternProperty::Property {
+                    key,
+                    computed,
+                    value: Some(value),
+                    kind: "init",
+                    method: false,
+                    shorthand,
+                })
             }
         })?;
         self.consume("}", LexGoal::RegExp)?;
@@ -2990,40 +2905,39 @@ where
         }))
     }
 
-    fn value_to_key(
-        &mut self,
-        value: ValueOrExpr,
-        literal: bool,
-        span: Span,
-    ) -> Result<PropertyKey> {
-        match value {
-            ValueOrExpr::Expr(expr) if literal => Ok(PropertyKey::Expression(expr)),
-            ValueOrExpr::Value(value) => {
-                if literal {
-                    let raw = String::from(&value);
-                    Ok(PropertyKey::Literal(Literal { value, raw, span }))
-                } else {
-                    let val = &String::from(&value)[..];
-                    if self.scanner.is_keyword(val) {
-                        if (!self.params.has_yield && val == "yield")
-                            | (!self.params.has_await && val == "await")
-                        {
-                            Ok(PropertyKey::Identifier(Identifier {
-                                name: String::from(val),
-                                span,
-                            }))
-                        } else {
-                            self.unexpected_current()
-                        }
-                    } else {
-                        Ok(PropertyKey::Identifier(Identifier {
-                            name: String::from(val),
-                            span,
-                        }))
-                    }
-                }
+    /// The value of a property of a binding pattern, whose binding may have an initializer.
+    fn parse_binding_property_value(&mut self, left: Binding) -> Result<PropertyValue> {
+        if self.current.matches_punc("=") {
+            self.advance(LexGoal::RegExp)?;
+            return Ok(PropertyValue::AssignmentPattern(AssignmentPattern {
+                left,
+                right: self.with_in(true, &mut Self::parse_assignment_expr)?,
+            }));
+        }
+        match left {
+            Binding::BindingIdentifier(id) => Ok(PropertyValue::BindingIdentifier(id)),
+            Binding::ArrayPattern(ArrayPattern { elements, .. }) => Ok(
+                PropertyValue::BindingPattern(BindingPattern::ArrayPattern { elements }),
+            ),
+            Binding::ObjectPattern(ObjectPattern { properties, .. }) => Ok(
+                PropertyValue::BindingPattern(BindingPattern::ObjectPattern { properties }),
+            ),
+            Binding::Expression(_) => self.error_current(ErrorType::InvalidDestructuringTarget),
+        }
+    }
+
+    /// The binding of a shorthand property, whose name was read from the given token.
+    fn shorthand_binding(&mut self, token: &Token, key: &PropertyKey) -> Result<BindingIdentifier> {
+        match (&token.tokentype, key) {
+            (TokenType::Identifier, PropertyKey::Identifier(Identifier { name, span }))
+            | (TokenType::Keyword, PropertyKey::Identifier(Identifier { name, span })) => {
+                self.check_identifier(token, true)?;
+                Ok(BindingIdentifier {
+                    name: name.clone(),
+                    span: span.clone(),
+                })
             }
-            _ => panic!(),
+            (_, _) => self.unexpected_current(),
         }
     }
 
-- 
2.43.0


From 061a7ee234a337a3d4d8c59504514b20ebb28892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 35/46] fix: convert every valid expression, and no other, to
 the pattern it stands for

---
 giron/src/estree/estree.rs | 272 +++++++++++++++++++++++++------------
 giron/src/parser/parser.rs |  58 ++++----
 2 files changed, 215 insertions(+), 115 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index 4410160..d6d83f9 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -67,6 +67,9 @@ pub struct Regex {
 #[serde(tag = "type")]
 pub struct SpreadElement {
     pub argument: Node,
+    /// Whether a comma follows, which a rest element cannot have.
+    #[serde(skip)]
+    pub has_comma: bool,
     #[serde(skip)]
     pub span: Span,
 }
@@ -134,6 +137,88 @@ impl Binding {
     }
 }
 
+impl Binding {
+    /// What the target of an assignment is as a binding.
+    fn to_strict_binding(self, span: &Span) -> Result<Binding> {
+        match self {
+            Binding::Expression(node) => node.to_strict_binding(span.start.clone()),
+            _ => Ok(self),
+        }
+    }
+}
+
+impl PropertyValue {
+    /// What the value of a property is in a binding pattern.
+    fn to_binding_value(self, span: &Span) -> Result<PropertyValue> {
+        match self {
+            PropertyValue::Expression(expr) => match expr.to_binding_pattern()? {
+                Node::AssignmentPattern { left, right, .. } => {
+                    Ok(PropertyValue::AssignmentPattern(AssignmentPattern {
+                        left,
+                        right: *right,
+                    }))
+                }
+                Node::BindingIdentifier { name, span } => {
+                    Ok(PropertyValue::BindingIdentifier(BindingIdentifier {
+                        name,
+                        span,
+                    }))
+                }
+                Node::ObjectPattern { properties, .. } => Ok(PropertyValue::BindingPattern(
+                    BindingPattern::ObjectPattern { properties },
+                )),
+                Node::ArrayPattern { elements, .. } => Ok(PropertyValue::BindingPattern(
+                    BindingPattern::ArrayPattern { elements },
+                )),
+                _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start.clone()),
+            },
+            PropertyValue::AssignmentPattern(AssignmentPattern { left, right }) => {
+                Ok(PropertyValue::AssignmentPattern(AssignmentPattern {
+                    left: left.to_strict_binding(span)?,
+                    right,
+                }))
+            }
+            PropertyValue::BindingIdentifier(_) | PropertyValue::BindingPattern(_) => Ok(self),
+            _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start.clone()),
+        }
+    }
+}
+
+impl ObjectPatternProperty {
+    /// What the property of an assignment pattern is in a binding pattern.
+    fn to_binding_property(self, span: &Span) -> Result<ObjectPatternProperty> {
+        match self {
+            ObjectPatternProperty::Property {
+                key,
+                computed,
+                value,
+                kind,
+                method,
+                shorthand,
+            } => Ok(ObjectPatternProperty::Property {
+                key,
+                computed,
+                value: match value {
+                    Some(value) => Some(value.to_binding_value(span)?),
+                    None => None,
+                },
+                kind,
+                method,
+                shorthand,
+            }),
+            ObjectPatternProperty::RestElement { argument } => {
+                match argument.to_strict_binding(span)? {
+                    // The rest of an object can only be bound to a name.
+                    argument @ Binding::BindingIdentifier(_) => {
+                        Ok(ObjectPatternProperty::RestElement { argument })
+                    }
+                    _ => Node::error(ErrorType::InvalidRestBindingPattern, span.start.clone()),
+                }
+            }
+        }
+    }
+}
+
 // export type ArrayPatternElement = AssignmentPattern | BindingIdentifier | BindingPattern | RestElement | null;
 #[derive(Serialize, Debug)]
 #[serde(tag = "type")]
@@ -330,7 +415,7 @@ impl ArgumentListElement {
     pub fn as_node(self) -> Result<Node> {
         match self {
             ArgumentListElement::Expression(node) => Ok(node),
-            ArgumentListElement::SpreadElement(SpreadElement { argument, span }) => {
+            ArgumentListElement::SpreadElement(SpreadElement { argument, span, .. }) => {
                 Ok(Node::SpreadElement {
                     argument: Box::from(argument),
                     span,
@@ -357,6 +442,8 @@ pub enum ObjectExpressionProperty {
     SpreadElement {
         argument: Node,
         #[serde(skip)]
+        has_comma: bool,
+        #[serde(skip)]
         span: Span,
     },
 }
@@ -1098,22 +1185,6 @@ impl Node {
         }
     }
 
-    fn to_binding(self) -> Result<Binding> {
-        let node = self.to_binding_pattern()?;
-        match node {
-            Node::BindingIdentifier { name, span } => {
-                Ok(Binding::BindingIdentifier(BindingIdentifier { name, span }))
-            }
-            Node::ArrayPattern { elements, span, .. } => {
-                Ok(Binding::ArrayPattern(ArrayPattern { elements, span }))
-            }
-            Node::ObjectPattern {
-                properties, span, ..
-            } => Ok(Binding::ObjectPattern(ObjectPattern { properties, span })),
-            _ => Ok(Binding::Expression(Box::from(node))),
-        }
-    }
-
     fn to_strict_binding(self, marker: Marker) -> Result<Binding> {
         let node = self.to_binding_pattern()?;
         match node {
@@ -1148,30 +1219,27 @@ impl Node {
         span: Span,
     ) -> Result<Node> {
         let mut pat_elems = vec![];
-        let last_idx = elements.len();
-        for (i, element) in elements.into_iter().enumerate() {
+        for element in elements.into_iter() {
             match element {
                 Some(ArrayExpressionElement::Expression(expr)) => {
                     let element = expr.as_assignment_element()?;
                     pat_elems.push(Some(ArrayAssignmentPatternElement::Expression(element)));
                 }
-                Some(ArrayExpressionElement::SpreadElement(SpreadElement { argument, span })) => {
-                    if i != last_idx {
+                Some(ArrayExpressionElement::SpreadElement(SpreadElement {
+                    argument,
+                    has_comma,
+                    span,
+                })) => {
+                    if has_comma {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
-                    let argument = match argument {
-                        Node::ArrayExpression { span, .. }
-                        | Node::ObjectExpression { span, .. } => {
-                            return Node::error(ErrorType::InvalidRestBindingPattern, span.start)
-                        }
-                        _ => argument,
-                    };
+                    let argument = argument.to_assignment_pattern()?;
                     if argument.assign_target_type() != "simple" {
                         return Node::error(ErrorType::InvalidLhsInAssignment, span.start);
                     }
                     pat_elems.push(Some(ArrayAssignmentPatternElement::RestElement(
                         RestElement {
-                            argument: argument.to_binding()?,
+                            argument: Binding::Expression(Box::from(argument)),
                         },
                     )))
                 }
@@ -1236,8 +1304,7 @@ impl Node {
                 span,
             });
         }
-        let last_idx = properties.len() - 1;
-        for (i, property) in properties.into_iter().enumerate() {
+        for property in properties.into_iter() {
             match property {
                 ObjectExpressionProperty::Property {
                     key,
@@ -1252,6 +1319,10 @@ impl Node {
                         Some(PropertyValue::Expression(expr)) => Ok(Some(
                             PropertyValue::Expression(expr.as_assignment_element()?),
                         )),
+                        Some(PropertyValue::AssignmentPattern(pattern)) => {
+                            Node::check_simple_default(&pattern, &span)?;
+                            Ok(Some(PropertyValue::AssignmentPattern(pattern)))
+                        }
                         None => Ok(None),
                         _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
                     }?;
@@ -1264,22 +1335,19 @@ impl Node {
                         shorthand,
                     });
                 }
-                ObjectExpressionProperty::SpreadElement { argument, span } => {
-                    if i != last_idx {
+                ObjectExpressionProperty::SpreadElement {
+                    argument,
+                    has_comma,
+                    span,
+                } => {
+                    if has_comma {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
-                    let argument = match argument {
-                        Node::ArrayExpression { span, .. }
-                        | Node::ObjectExpression { span, .. } => {
-                            return Node::error(ErrorType::InvalidLhsInAssignment, span.start);
-                        }
-                        _ => argument,
-                    };
                     if argument.assign_target_type() != "simple" {
                         return Node::error(ErrorType::InvalidLhsInAssignment, span.start);
                     }
                     pat_props.push(ObjectPatternProperty::RestElement {
-                        argument: argument.to_binding()?,
+                        argument: Binding::Expression(Box::from(argument)),
                     });
                 }
             }
@@ -1291,6 +1359,16 @@ impl Node {
         })
     }
 
+    /// Checks that the target of a shorthand property with an initializer can be assigned to.
+    fn check_simple_default(pattern: &AssignmentPattern, span: &Span) -> Result<()> {
+        match &pattern.left {
+            Binding::Expression(target) if target.assign_target_type() != "simple" => {
+                Node::error(ErrorType::InvalidLhsInAssignment, span.start.clone())
+            }
+            _ => Ok(()),
+        }
+    }
+
     pub fn to_binding_pattern(self) -> Result<Node> {
         match self {
             _ if self.assign_target_type() == "parenthesized" => Ok(self),
@@ -1314,6 +1392,46 @@ impl Node {
                 right,
                 span,
             }),
+            // Patterns that were already read as assignment targets
+            Node::ArrayAssignmentPattern { elements, span, .. } => {
+                let elements = elements
+                    .into_iter()
+                    .map(|element| match element {
+                        Some(ArrayAssignmentPatternElement::Expression(element)) => {
+                            Ok(Some(element.to_array_pattern_element()?))
+                        }
+                        Some(ArrayAssignmentPatternElement::RestElement(RestElement {
+                            argument,
+                        })) => Ok(Some(ArrayPatternElement::RestElement {
+                            argument: argument.to_strict_binding(&span)?,
+                        })),
+                        None => Ok(None),
+                    })
+                    .collect::<Result<Vec<_>>>()?;
+                Ok(Node::ArrayPattern {
+                    elements,
+                    assign_target_type: "simple",
+                    span,
+                })
+            }
+            Node::ObjectPattern {
+                properties, span, ..
+            } => {
+                let properties = properties
+                    .into_iter()
+                    .map(|property| property.to_binding_property(&span))
+                    .collect::<Result<Vec<_>>>()?;
+                Ok(Node::ObjectPattern {
+                    properties,
+                    assign_target_type: "simple",
+                    span,
+                })
+            }
+            Node::AssignmentPattern { left, right, span } => Ok(Node::AssignmentPattern {
+                left: left.to_strict_binding(&span)?,
+                right,
+                span,
+            }),
             Node::SpreadElement { argument, span } => Ok(Node::RestElement {
                 argument: (*argument).to_strict_binding(span.clone().start)?,
                 span,
@@ -1324,14 +1442,17 @@ impl Node {
 
     fn array_to_pattern(elements: Vec<Option<ArrayExpressionElement>>, span: Span) -> Result<Node> {
         let mut pat_elems = vec![];
-        let last_idx = elements.len() - 1;
-        for (i, element) in elements.into_iter().enumerate() {
+        for element in elements.into_iter() {
             match element {
                 Some(ArrayExpressionElement::Expression(expr)) => {
-                    pat_elems.push(Some(expr.to_array_pattern_element(i == last_idx)?))
+                    pat_elems.push(Some(expr.to_array_pattern_element()?))
                 }
-                Some(ArrayExpressionElement::SpreadElement(SpreadElement { argument, span })) => {
-                    if i != last_idx {
+                Some(ArrayExpressionElement::SpreadElement(SpreadElement {
+                    argument,
+                    has_comma,
+                    span,
+                })) => {
+                    if has_comma {
                         return Node::error(ErrorType::ParamAfterRest, span.start);
                     }
                     pat_elems.push(Some(ArrayPatternElement::RestElement {
@@ -1348,7 +1469,7 @@ impl Node {
         })
     }
 
-    fn to_array_pattern_element(self, is_last: bool) -> Result<ArrayPatternElement> {
+    fn to_array_pattern_element(self) -> Result<ArrayPatternElement> {
         let element = self.to_binding_pattern()?;
         match element {
             Node::AssignmentPattern { left, right, .. } => {
@@ -1366,13 +1487,6 @@ impl Node {
             Node::ArrayPattern { elements, .. } => {
                 Ok(ArrayPatternElement::ArrayPattern { elements })
             }
-            Node::RestElement { argument, span } => {
-                if is_last {
-                    Ok(ArrayPatternElement::RestElement { argument })
-                } else {
-                    Node::error(ErrorType::ParamAfterRest, span.start)
-                }
-            }
             _ => {
                 return Node::error(
                     ErrorType::InvalidOrUnexpectedToken,
@@ -1391,8 +1505,7 @@ impl Node {
                 span,
             });
         }
-        let last_idx = properties.len() - 1;
-        for (i, property) in properties.into_iter().enumerate() {
+        for property in properties.into_iter() {
             match property {
                 ObjectExpressionProperty::Property {
                     key,
@@ -1404,34 +1517,9 @@ impl Node {
                     span,
                 } => {
                     let value = match value {
-                        Some(PropertyValue::Expression(expr)) => match expr.to_binding_pattern()? {
-                            Node::AssignmentPattern { left, right, .. } => {
-                                Ok(Some(PropertyValue::AssignmentPattern(AssignmentPattern {
-                                    left,
-                                    right: *right,
-                                })))
-                            }
-                            Node::BindingIdentifier { name, span } => {
-                                Ok(Some(PropertyValue::BindingIdentifier(BindingIdentifier {
-                                    name,
-                                    span,
-                                })))
-                            }
-                            Node::ObjectPattern { properties, .. } => {
-                                Ok(Some(PropertyValue::BindingPattern(
-                                    BindingPattern::ObjectPattern { properties },
-                                )))
-                            }
-                            Node::ArrayPattern { elements, .. } => {
-                                Ok(Some(PropertyValue::BindingPattern(
-                                    BindingPattern::ArrayPattern { elements },
-                                )))
-                            }
-                            _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
-                        },
-                        None => Ok(None),
-                        _ => Node::error(ErrorType::InvalidOrUnexpectedToken, span.start),
-                    }?;
+                        Some(value) => Some(value.to_binding_value(&span)?),
+                        None => None,
+                    };
                     pat_props.push(ObjectPatternProperty::Property {
                         key,
                         computed,
@@ -1441,14 +1529,18 @@ impl Node {
                         shorthand,
                     });
                 }
-                ObjectExpressionProperty::SpreadElement { argument, span } => {
-                    if i == last_idx {
-                        pat_props.push(ObjectPatternProperty::RestElement {
-                            argument: argument.to_strict_binding(span.start)?,
-                        });
-                    } else {
+                ObjectExpressionProperty::SpreadElement {
+                    argument,
+                    has_comma,
+                    span,
+                } => {
+                    if has_comma {
                         return Node::error(ErrorType::InvalidOrUnexpectedToken, span.start);
                     }
+                    let rest = ObjectPatternProperty::RestElement {
+                        argument: Binding::Expression(Box::from(argument)),
+                    };
+                    pat_props.push(rest.to_binding_property(&span)?);
                 }
             }
         }
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index eb1d260..cdf5b0c 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -2579,16 +2579,20 @@ where
 
     fn parse_async_call_or_arrow(&mut self, callee: Box<Node>, start: &Marker) -> Result<Node> {
         log!("parse_async_call_or_arrow");
-        let (arguments, trailing_comma) = self.parse_cover_arguments(true)?;
+        let arguments = self.parse_cover_arguments(true)?;
         match self.current.tokentype {
             TokenType::Punctuator
                 if self.current.matches_punc("=>") && !self.has_line_terminator =>
             {
-                match (arguments.last(), trailing_comma) {
-                    (Some(ArgumentListElement::SpreadElement(_)), Some(comma)) => {
-                        return self.error(comma, ErrorType::ParamAfterRest)
+                for argument in &arguments {
+                    match argument {
+                        ArgumentListElement::SpreadElement(SpreadElement {
+                            has_comma: true,
+                            span,
+                            ..
+                        }) => return Node::error(ErrorType::ParamAfterRest, span.start.clone()),
+                        _ => (),
                     }
-                    (_, _) => (),
                 }
                 let params = self.arguments_to_params(arguments)?;
                 self.cover_initializer = None;
@@ -2661,16 +2665,15 @@ where
 
     fn parse_arguments(&mut self) -> Result<Vec<ArgumentListElement>> {
         log!("parse_arguments");
-        let (arguments, _) = self.parse_cover_arguments(false)?;
-        Ok(arguments)
+        self.parse_cover_arguments(false)
     }
 
     /// Parses what is either arguments or, in front of an arrow, the parameters of an async
-    /// arrow function, and returns the comma at their end along with them.
+    /// arrow function.
     fn parse_cover_arguments(
         &mut self,
         may_be_params: bool,
-    ) -> Result<(Vec<ArgumentListElement>, Option<Token>)> {
+    ) -> Result<Vec<ArgumentListElement>> {
         // Arguments[Yield, Await]:
         //     "(" ")"
         //     "(" ArgumentList[?Yield, ?Await] ")"
@@ -2685,20 +2688,21 @@ where
             false => Self::parse_assignment_expr,
         };
         self.consume("(", LexGoal::RegExp)?;
-        let mut comma = None;
         let arguments = self.parse_until_punc(")", &mut |this| match this.current.tokentype {
             TokenType::Punctuator if this.current.matches_punc("...") => {
                 this.start_span();
                 this.advance(LexGoal::RegExp)?;
                 let argument = this.with_in(true, &mut |this: &mut Self| parse_argument(this))?;
-                let res = ArgumentListElement::SpreadElement(SpreadElement {
-                    argument,
-                    span: this.end_span(),
-                });
-                if !this.current.matches_punc(")") {
-                    comma = Some(this.consume(",", LexGoal::RegExp)?);
+                let span = this.end_span();
+                let has_comma = !this.current.matches_punc(")");
+                if has_comma {
+                    this.consume(",", LexGoal::RegExp)?;
                 }
-                Ok(res)
+                Ok(ArgumentListElement::SpreadElement(SpreadElement {
+                    argument,
+                    has_comma,
+                    span,
+                }))
             }
             _ => {
                 let expr = this.with_in(true, &mut |this: &mut Self| parse_argument(this))?;
@@ -2709,7 +2713,7 @@ where
             }
         })?;
         self.consume(")", LexGoal::Div)?;
-        Ok((arguments, comma))
+        Ok(arguments)
     }
 
     fn parse_seq_or_arrow(&mut self) -> Result<Node> {
@@ -3293,14 +3297,16 @@ where
             if this.current.matches_punc("...") {
                 this.advance(LexGoal::RegExp)?;
                 let argument = this.with_in(true, &mut Self::parse_assignment_cover)?;
-                let res = ObjectExpressionProperty::SpreadElement {
-                    argument,
-                    span: this.end_span(),
-                };
-                if !this.current.matches_punc("}") {
+                let span = this.end_span();
+                let has_comma = !this.current.matches_punc("}");
+                if has_comma {
                     this.consume(",", LexGoal::RegExp)?;
                 }
-                return Ok(res);
+                return Ok(ObjectExpressionProperty::SpreadElement {
+                    argument,
+                    has_comma,
+                    span,
+                });
             }
 
             let token = this.current.clone();
@@ -3450,11 +3456,13 @@ where
                 this.advance(LexGoal::RegExp)?;
                 let argument = this.with_in(true, &mut Self::parse_assignment_cover)?;
                 let span = this.end_span();
-                if !this.current.matches_punc("]") {
+                let has_comma = !this.current.matches_punc("]");
+                if has_comma {
                     this.consume(",", LexGoal::RegExp)?;
                 }
                 Ok(Some(ArrayExpressionElement::SpreadElement(SpreadElement {
                     argument,
+                    has_comma,
                     span,
                 })))
             }
-- 
2.43.0


From 0c8b0fd35ac547ca07be3237ac266ae68354769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 36/46] fix: accept let, async function and async expressions
 after export

---
 giron/src/parser/parser.rs | 40 ++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index cdf5b0c..c22f54e 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -389,10 +389,9 @@ where
         match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("default") => {
                 self.advance(LexGoal::RegExp)?;
+                let is_hoistable = self.starts_hoistable_dclr()?;
                 match self.current.tokentype {
-                    TokenType::Identifier | TokenType::Keyword
-                        if self.current.is_hoistable_dclr_kw() =>
-                    {
+                    TokenType::Identifier | TokenType::Keyword if is_hoistable => {
                         let declaration = self.with_params(
                             Params {
                                 has_yield: false,
@@ -456,7 +455,7 @@ where
                     span: self.end_span(),
                 })
             }
-            TokenType::Keyword if self.current.is_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword if self.current.is_dclr_kw() => {
                 let declaration = self.with_params(
                     Params {
                         has_yield: false,
@@ -558,19 +557,30 @@ where
     fn parse_declaration(&mut self) -> Result<Node> {
         log!("parse_declaration");
         match self.current.tokentype {
-            TokenType::Keyword if self.current.is_hoistable_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword if self.current.is_hoistable_dclr_kw() => {
                 self.with_default(false, &mut Self::parse_hoistable_dclr)
             }
             TokenType::Keyword if self.current.matches_str("class") => {
                 self.with_default(false, &mut Self::parse_class_dclr)
             }
-            TokenType::Keyword if self.current.is_lexical_dclr_kw() => {
+            TokenType::Identifier | TokenType::Keyword if self.current.is_lexical_dclr_kw() => {
                 self.with_in(true, &mut Self::parse_lexical_dclr)
             }
             _ => self.unexpected_current(),
         }
     }
 
+    /// Whether a function declaration starts here: at "function" or "async function".
+    fn starts_hoistable_dclr(&mut self) -> Result<bool> {
+        if !self.current.is_hoistable_dclr_kw() || self.current.matches_str("function") {
+            return Ok(self.current.is_hoistable_dclr_kw());
+        }
+        let next_token = self.peek()?;
+        Ok(next_token.tokentype == TokenType::Keyword
+            && next_token.matches_str("function")
+            && self.current.end_line == next_token.line_num)
+    }
+
     fn parse_statement_list(&mut self) -> Result<Vec<Node>> {
         log!("parse_statement_list");
         self.parse_until_punc("}", &mut Self::parse_stmt_list_item)
@@ -605,22 +615,14 @@ where
                 self.parse_debugger_stmt()
             }
             // special LL(2) grammar case
-            TokenType::Identifier if self.current.matches_str("async") => {
-                let next_token = self.peek()?;
-                match &next_token.tokentype {
-                    TokenType::Keyword
-                        if next_token.matches_str("function")
-                            && self.current.end_line == next_token.line_num =>
-                    {
-                        self.with_default(false, &mut Self::parse_hoistable_dclr)
-                    }
-                    _ => self.parse_expression_or_labelled_stmt(),
+            TokenType::Identifier | TokenType::Keyword if self.current.is_hoistable_dclr_kw() => {
+                if self.starts_hoistable_dclr()? {
+                    self.with_default(false, &mut Self::parse_hoistable_dclr)
+                } else {
+                    self.parse_expression_or_labelled_stmt()
                 }
             }
             // declarations
-            TokenType::Identifier | TokenType::Keyword if self.current.is_hoistable_dclr_kw() => {
-                self.with_default(false, &mut Self::parse_hoistable_dclr)
-            }
             TokenType::Keyword if self.current.matches_str("class") => {
                 self.with_default(false, &mut Self::parse_class_dclr)
             }
-- 
2.43.0


From 7d6b8f808fbd153e814063c8b36936e2191a8b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 37/46] fix: accept return before a brace, empty switches and
 do-while without a semicolon

---
 giron/src/parser/parser.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index c22f54e..56094ae 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -773,9 +773,11 @@ where
 
     fn parse_expression_stmt(&mut self, expression: Box<Node>) -> Result<Node> {
         log!("parse_expression_stmt");
-        let span = self.end_span();
         self.consume_semicolon(LexGoal::RegExp)?;
-        Ok(Node::ExpressionStatement { expression, span })
+        Ok(Node::ExpressionStatement {
+            expression,
+            span: self.end_span(),
+        })
     }
 
     fn parse_if_stmt(&mut self) -> Result<Node> {
@@ -1187,7 +1189,10 @@ where
         self.consume("(", LexGoal::RegExp)?;
         let test = Box::from(self.with_in(true, &mut Self::parse_expression)?);
         self.consume(")", LexGoal::RegExp)?;
-        self.consume_semicolon(LexGoal::RegExp)?;
+        // A semicolon is inserted here even without a line break.
+        if self.current.matches_punc(";") {
+            self.advance(LexGoal::RegExp)?;
+        }
         Ok(Node::DoWhileStatement {
             body,
             test,
@@ -1223,7 +1228,7 @@ where
         self.consume("{", LexGoal::RegExp)?;
         let mut cases = vec![];
         let mut first_default = true;
-        loop {
+        while !self.current.matches_punc("}") {
             let test = match self.current.tokentype {
                 TokenType::Keyword if self.current.matches_str("case") => {
                     self.advance(LexGoal::RegExp)?;
@@ -1242,10 +1247,6 @@ where
             self.consume(":", LexGoal::RegExp)?;
             let consequent = self.parse_switch_case_consequent()?;
             cases.push(SwitchCase { test, consequent });
-            match self.current.tokentype {
-                TokenType::Punctuator if self.current.matches_punc("}") => break,
-                _ => (),
-            }
         }
         self.consume("}", LexGoal::RegExp)?;
         self.ctx.in_switch = prev_in_switch;
@@ -1349,6 +1350,7 @@ where
         self.consume_kw("return", LexGoal::RegExp)?;
         let argument = match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc(";") => None,
+            TokenType::Punctuator if self.current.matches_punc("}") => None,
             _ if !self.has_line_terminator => {
                 Some(Box::from(self.with_in(true, &mut Self::parse_expression)?))
             }
-- 
2.43.0


From df9a73254224dce6024b2b861028d8c07dfec2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 38/46] fix: accept let as an identifier in sloppy code, and
 declarations only where they are allowed

---
 giron/src/parser/parser.rs | 79 ++++++++++++++++++++++++++++++++------
 1 file changed, 68 insertions(+), 11 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 56094ae..7f35bff 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -581,6 +581,34 @@ where
             && self.current.end_line == next_token.line_num)
     }
 
+    /// Whether "let" or "const" starts a declaration here. In sloppy code "let" is an identifier
+    /// too, unless the name or the pattern of a declaration follows.
+    fn starts_lexical_dclr(&mut self) -> Result<bool> {
+        if !self.current.is_lexical_dclr_kw() || self.current.matches_str("const") {
+            return Ok(self.current.is_lexical_dclr_kw());
+        }
+        let next_token = self.peek()?;
+        Ok(match next_token.tokentype {
+            TokenType::Identifier | TokenType::BooleanLiteral | TokenType::NullLiteral => true,
+            TokenType::Keyword => {
+                !next_token.matches_str("in") && !next_token.matches_str("instanceof")
+            }
+            TokenType::Punctuator => next_token.matches_punc("[") || next_token.matches_punc("{"),
+            _ => false,
+        })
+    }
+
+    /// Whether "class" or "let [" comes next, neither of which can start an expression statement.
+    fn starts_class_or_let_pattern(&mut self) -> Result<bool> {
+        match self.current.tokentype {
+            TokenType::Keyword => Ok(self.current.matches_str("class")),
+            TokenType::Identifier if self.current.matches_str("let") => {
+                Ok(self.peek()?.matches_punc("["))
+            }
+            _ => Ok(false),
+        }
+    }
+
     fn parse_statement_list(&mut self) -> Result<Vec<Node>> {
         log!("parse_statement_list");
         self.parse_until_punc("}", &mut Self::parse_stmt_list_item)
@@ -619,7 +647,7 @@ where
                 if self.starts_hoistable_dclr()? {
                     self.with_default(false, &mut Self::parse_hoistable_dclr)
                 } else {
-                    self.parse_expression_or_labelled_stmt()
+                    self.parse_expression_or_labelled_stmt(true)
                 }
             }
             // declarations
@@ -627,14 +655,22 @@ where
                 self.with_default(false, &mut Self::parse_class_dclr)
             }
             TokenType::Identifier | TokenType::Keyword if self.current.is_lexical_dclr_kw() => {
-                self.with_in(true, &mut Self::parse_lexical_dclr)
+                if self.starts_lexical_dclr()? {
+                    self.with_in(true, &mut Self::parse_lexical_dclr)
+                } else {
+                    self.parse_expression_or_labelled_stmt(true)
+                }
             }
             // ExpressionStatement | LabelledStatement
-            _ => self.parse_expression_or_labelled_stmt(),
+            _ => self.parse_expression_or_labelled_stmt(true),
         }
     }
 
     fn parse_statement(&mut self) -> Result<Node> {
+        self.parse_statement_or_labelled_item(false)
+    }
+
+    fn parse_statement_or_labelled_item(&mut self, allow_function: bool) -> Result<Node> {
         log!("parse_statement");
         // Statement[Yield, Await, Return]:
         //     BlockStatement[?Yield, ?Await, ?Return]
@@ -677,19 +713,25 @@ where
                 self.parse_debugger_stmt()
             }
             // ExpressionStatement | LabelledStatement
-            _ => self.parse_expression_or_labelled_stmt(),
+            _ => self.parse_expression_or_labelled_stmt(allow_function),
         }
     }
 
-    fn parse_expression_or_labelled_stmt(&mut self) -> Result<Node> {
+    fn parse_expression_or_labelled_stmt(&mut self, allow_function: bool) -> Result<Node> {
         log!("parse_expression_or_labelled_stmt");
+        // ExpressionStatement[Yield, Await]:
+        //     [lookahead ∉ { "{", "function", "async" [no LineTerminator here] "function", "class", "let" "[" }]
+        //       Expression[+In, ?Yield, ?Await] ";"
+        if self.starts_hoistable_dclr()? || self.starts_class_or_let_pattern()? {
+            return self.unexpected_current();
+        }
         self.start_span();
         let has_parens = self.current.matches_punc("(");
         let expr = self.with_in(true, &mut Self::parse_expression)?;
         match self.current.tokentype {
             TokenType::Punctuator if self.current.matches_punc(":") => match expr {
                 Node::Identifier { name, span, .. } if !has_parens => {
-                    self.parse_labelled_stmt(Some(Identifier { name, span }))
+                    self.parse_labelled_stmt(Some(Identifier { name, span }), allow_function)
                 }
                 _ => self.parse_expression_stmt(Box::from(expr)),
             },
@@ -796,11 +838,11 @@ where
         self.consume("(", LexGoal::RegExp)?;
         let test = Box::from(self.with_in(true, &mut Self::parse_expression)?);
         self.consume(")", LexGoal::RegExp)?;
-        let consequent = Box::from(self.parse_statement()?);
+        let consequent = Box::from(self.parse_if_branch()?);
         let alternate = match self.current.tokentype {
             TokenType::Keyword if self.current.matches_str("else") => {
                 self.advance(LexGoal::RegExp)?;
-                Some(Box::from(self.parse_statement()?))
+                Some(Box::from(self.parse_if_branch()?))
             }
             _ => None,
         };
@@ -812,6 +854,15 @@ where
         })
     }
 
+    fn parse_if_branch(&mut self) -> Result<Node> {
+        match self.current.tokentype {
+            // Sloppy code may have a function declaration as the branch of an if.
+            TokenType::Keyword if self.current.matches_str("function") && !self.ctx.strict => self
+                .with_default(false, &mut |this| this.parse_function_dclr(false, false)),
+            _ => self.parse_statement(),
+        }
+    }
+
     fn parse_iteration_stmt(&mut self) -> Result<Node> {
         log!("parse_iteration_stmt");
         for label in self.ctx.labels.iter_mut() {
@@ -1383,7 +1434,11 @@ where
         })
     }
 
-    fn parse_labelled_stmt(&mut self, label: Option<Identifier>) -> Result<Node> {
+    fn parse_labelled_stmt(
+        &mut self,
+        label: Option<Identifier>,
+        allow_function: bool,
+    ) -> Result<Node> {
         log!("parse_labelled_stmt");
         // LabelledStatement[Yield, Await, Return]:
         //     LabelIdentifier[?Yield, ?Await] ":" LabelledItem[?Yield, ?Await, ?Return]
@@ -1415,7 +1470,9 @@ where
         let body =
             match self.current.tokentype {
                 TokenType::Keyword if self.current.matches_str("function") => {
-                    if self.ctx.strict {
+                    if !allow_function {
+                        return self.unexpected_current();
+                    } else if self.ctx.strict {
                         return self.error_current(ErrorType::StrictFunction);
                     } else {
                         Box::from(self.with_default(false, &mut |this| {
@@ -1423,7 +1480,7 @@ where
                         })?)
                     }
                 }
-                _ => Box::from(self.parse_statement()?),
+                _ => Box::from(self.parse_statement_or_labelled_item(allow_function)?),
             };
         self.ctx.labels.pop();
         Ok(Node::LabeledStatement {
-- 
2.43.0


From 9667a0aaef95d8abecc5e2cf78ec4598f84c8648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 39/46] fix: parse every form of for loop head, and report the
 declaration and await of for-in and for-of

---
 giron/src/estree/estree.rs |   1 +
 giron/src/parser/parser.rs | 326 +++++++++++++++----------------------
 2 files changed, 131 insertions(+), 196 deletions(-)

diff --git a/giron/src/estree/estree.rs b/giron/src/estree/estree.rs
index d6d83f9..48eb7af 100644
--- a/giron/src/estree/estree.rs
+++ b/giron/src/estree/estree.rs
@@ -873,6 +873,7 @@ pub enum Node {
         left: Box<Node>,  // Expression
         right: Box<Node>, // Expression
         body: Box<Node>,  // Statement
+        r#await: bool,
         #[serde(skip)]
         span: Span,
     },
diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 7f35bff..64e7b4f 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -913,212 +913,145 @@ where
         // },
         self.start_span();
         self.consume_kw("for", LexGoal::RegExp)?;
+        let r#await = self.params.has_await && self.current.matches_str("await");
+        if r#await {
+            self.advance(LexGoal::RegExp)?;
+        }
         self.consume("(", LexGoal::RegExp)?;
+        if self.current.matches_punc(";") && !r#await {
+            return self.parse_for_classic_stmt(None);
+        }
+        let is_let = self.current.matches_str("let");
+        let is_async = self.current.matches_str("async");
+        let (left, is_target) = if self.current.matches_str("var") {
+            self.parse_for_dclr("var")?
+        } else if self.starts_lexical_dclr()? {
+            self.parse_for_dclr(if is_let { "let" } else { "const" })?
+        } else {
+            self.parse_for_expr(r#await)?
+        };
+        let left = Box::from(left);
         match self.current.tokentype {
-            TokenType::Keyword if self.current.matches_str("var") => {
-                self.start_span();
-                self.advance(LexGoal::RegExp)?;
-                let id = self.parse_binding_id_or_pat()?;
-                match self.current.tokentype {
-                    TokenType::Punctuator if self.current.matches_punc("=") => {
-                        self.advance(LexGoal::RegExp)?;
-                        let init = Some(self.with_in(false, &mut Self::parse_assignment_expr)?);
-                        let mut declarations = vec![VariableDeclarator { id, init }];
-                        declarations.extend(self.parse_while_punc(",", &mut |this| {
-                            this.consume(",", LexGoal::RegExp)?;
-                            this.save_params();
-                            this.params.has_in = true;
-                            let res = this.parse_variable_dclr();
-                            this.restore_params();
-                            res
-                        })?);
-                        let init = Some(Box::from(Node::VariableDeclaration {
-                            declarations,
-                            kind: "var",
-                            span: self.end_span(),
-                        }));
-                        self.parse_for_classic_stmt(init)
-                    }
-                    TokenType::Keyword if self.current.matches_str("of") => {
-                        // "var" (BindingIdentifier | BindingPattern) "of"
-                        self.parse_for_of_stmt(Box::from(id.to_node()?))
-                    }
-                    TokenType::Keyword if self.current.matches_str("in") => {
-                        // "var" (BindingIdentifier | BindingPattern) "in"
-                        self.parse_for_in_stmt(Box::from(id.to_node()?))
-                    }
-                    _ => {
-                        match &id {
-                            Binding::BindingIdentifier { .. } => {
-                                // "var" BindingIdentifier
-                                let mut declarations = vec![VariableDeclarator { id, init: None }];
-                                declarations.extend(self.parse_while_punc(",", &mut |this| {
-                                    this.consume(",", LexGoal::RegExp)?;
-                                    this.save_params();
-                                    this.params.has_in = true;
-                                    let res = this.parse_variable_dclr();
-                                    this.restore_params();
-                                    res
-                                })?);
-                                let init = Some(Box::from(Node::VariableDeclaration {
-                                    declarations,
-                                    kind: "var",
-                                    span: self.end_span(),
-                                }));
-                                self.parse_for_classic_stmt(init)
-                            }
-                            _ => self.error_current(ErrorType::MissingInitializer),
-                        }
+            TokenType::Keyword if self.current.matches_str("in") && is_target && !r#await => {
+                self.parse_for_in_stmt(left)
+            }
+            TokenType::Identifier if self.current.matches_str("of") && is_target => {
+                match *left {
+                    // Neither "let" nor "async of" can start the head of a for-of loop.
+                    Node::VariableDeclaration { .. } => (),
+                    Node::Identifier { ref name, .. } if is_async && name == "async" && !r#await => {
+                        return self.unexpected_current()
                     }
+                    _ if is_let => return self.unexpected_current(),
+                    _ => (),
                 }
+                self.parse_for_of_stmt(left, r#await)
             }
-            TokenType::Keyword | TokenType::Identifier if self.current.is_lexical_dclr_kw() => {
-                // "for" "(" LexicalDeclaration[~In, ?Yield, ?Await] Expression[+In, ?Yield, ?Await](opt)
-                //     ";" Expression[+In, ?Yield, ?Await](opt) ")" Statement[?Yield, ?Await, ?Return]
-                // for "(" ForDeclaration[?Yield, ?Await] "in" Expression[+In, ?Yield, ?Await] ")" Statement[?Yield, ?Await, ?Return]
-                // "for" "(" ForDeclaration[?Yield, ?Await] "of" AssignmentExpression[+In, ?Yield, ?Await] ")" Statement[?Yield, ?Await, ?Return]
-                // LexicalDeclaration[In, Yield, Await]:
-                //     LetOrConst BindingList[?In, ?Yield, ?Await];
-                // BindingList[In, Yield, Await]:
-                //     LexicalBinding[?In, ?Yield, ?Await]
-                //     BindingList[?In, ?Yield, ?Await] "," LexicalBinding[?In, ?Yield, ?Await]
-                // LexicalBinding[In, Yield, Await]:
-                //     BindingIdentifier[?Yield, ?Await] Initializer[?In, ?Yield, ?Await](opt)
-                //     BindingPattern[?Yield, ?Await] Initializer[?In, ?Yield, ?Await]
-                // ForDeclaration[Yield, Await]:
-                //     LetOrConst ForBinding[?Yield, ?Await]
-                // ForBinding[Yield, Await]:
-                //     BindingIdentifier[?Yield, ?Await]
-                //     BindingPattern[?Yield, ?Await]
-                // let kind = &(self.advance(LexGoal::RegExp)?.value.string()?.clone())[..];
-                self.start_span();
-                let kind = match self.current.tokentype {
-                    TokenType::Keyword if self.current.matches_str("const") => "const",
-                    TokenType::Identifier if self.current.matches_str("let") => "let",
-                    _ => return self.unexpected_current(),
-                };
-                self.advance(LexGoal::RegExp)?;
-                let (line, col) = (self.current.line_num, self.current.col);
-                let id = self.parse_binding_id_or_pat()?;
-                match self.current.tokentype {
-                    TokenType::Punctuator if self.current.matches_punc("=") => {
-                        // LetOrConst Binding "=" "," ...
-                        self.advance(LexGoal::RegExp)?;
-                        let init = Some(self.with_in(false, &mut Self::parse_assignment_expr)?);
-                        let mut declarations = vec![VariableDeclarator { id, init }];
-                        declarations.extend(self.parse_while_punc(",", &mut |this| {
-                            this.consume(",", LexGoal::RegExp)?;
-                            this.save_params();
-                            this.params.has_in = true;
-                            let res = this.parse_variable_dclr();
-                            this.restore_params();
-                            res
-                        })?);
-                        let init = Some(Box::from(Node::VariableDeclaration {
-                            declarations,
-                            kind,
-                            span: self.end_span(),
-                        }));
-                        self.parse_for_classic_stmt(init)
-                    }
-                    TokenType::Keyword if self.current.matches_str("in") => {
-                        // LetOrConst Binding "in" ...
-                        self.parse_for_in_stmt(Box::from(id.to_node()?))
-                    }
-                    TokenType::Identifier if self.current.matches_str("of") => {
-                        // LetOrConst Binding "of" ...
-                        self.parse_for_of_stmt(Box::from(id.to_node()?))
-                    }
-                    _ => {
-                        match &id {
-                            Binding::BindingIdentifier { .. } => {
-                                // LetOrConst BindingIdentifier "," ...
-                                let mut declarations = vec![VariableDeclarator { id, init: None }];
-                                declarations.extend(self.parse_while_punc(",", &mut |this| {
-                                    this.consume(",", LexGoal::RegExp)?;
-                                    this.save_params();
-                                    this.params.has_in = true;
-                                    let res = this.parse_variable_dclr();
-                                    this.restore_params();
-                                    res
-                                })?);
-                                let init = Some(Box::from(Node::VariableDeclaration {
-                                    declarations,
-                                    kind,
-                                    span: self.end_span(),
-                                }));
-                                self.parse_for_classic_stmt(init)
-                            }
-                            _ => Err(Error {
-                                line,
-                                col,
-                                errortype: ErrorType::MissingInitializer,
-                            }),
-                        }
-                    }
+            _ if r#await => self.unexpected_current(),
+            _ => {
+                if let Node::VariableDeclaration { declarations, .. } = &*left {
+                    self.check_for_initializers(declarations)?;
                 }
+                self.parse_for_classic_stmt(Some(left))
             }
-            _ => {
-                // "for" "(" [lookahead ∉ { let [ }] Expression[~In, ?Yield, ?Await](opt)
-                //     ";" Expression[+In, ?Yield, ?Await](opt)
-                //     ";" Expression[+In, ?Yield, ?Await](opt) ")" Statement[?Yield, ?Await, ?Return]
-                // "for" "(" [lookahead ∉ { let [ }] LeftHandSideExpression[?Yield, ?Await] "in"
-                //     Expression[+In, ?Yield, ?Await] ")" Statement[?Yield, ?Await, ?Return]
-                // for "(" [lookahead ≠ let] LeftHandSideExpression[?Yield, ?Await] "of"
-                //     AssignmentExpression[+In, ?Yield, ?Await] ")" Statement[?Yield, ?Await, ?Return]
-                self.start_span();
-                match self.current.tokentype {
-                    TokenType::Punctuator if self.current.matches_punc(";") => {
-                        return self.parse_for_classic_stmt(None)
-                    }
-                    _ => (),
+        }
+    }
+
+    /// Parses the declaration in the head of a for loop, and tells whether a for-in or a for-of
+    /// loop could have it.
+    fn parse_for_dclr(&mut self, kind: &'static str) -> Result<(Node, bool)> {
+        self.start_span();
+        self.advance(LexGoal::RegExp)?;
+        let mut declarations = vec![];
+        loop {
+            let id = self.parse_binding_id_or_pat()?;
+            let init = match self.current.tokentype {
+                TokenType::Punctuator if self.current.matches_punc("=") => {
+                    self.advance(LexGoal::RegExp)?;
+                    Some(self.with_in(false, &mut Self::parse_assignment_expr)?)
                 }
-                let mut expr = self.with_in(false, &mut Self::parse_assignment_cover)?;
-                match self.current.tokentype {
-                    TokenType::Keyword if self.current.matches_str("in") => {
-                        self.end_span(); // not needed
-                        expr = match expr {
-                            Node::ObjectExpression { .. } | Node::ArrayExpression { .. } => {
-                                expr.to_assignment_pattern()
-                            }
-                            _ => Ok(expr),
-                        }?;
-                        if expr.assign_target_type() != "simple" {
-                            let token = self.current.clone();
-                            return self.error(token, ErrorType::InvalidLhsInFor);
-                        }
-                        self.parse_for_in_stmt(Box::from(expr))
-                    }
-                    TokenType::Keyword if self.current.matches_str("of") => {
-                        self.end_span(); // not needed
-                        expr = match expr {
-                            Node::ObjectExpression { .. } | Node::ArrayExpression { .. } => {
-                                expr.to_assignment_pattern()
-                            }
-                            _ => Ok(expr),
-                        }?;
-                        if expr.assign_target_type() != "simple" {
-                            let token = self.current.clone();
-                            return self.error(token, ErrorType::InvalidLhsInFor);
-                        }
-                        self.parse_for_of_stmt(Box::from(expr))
-                    }
-                    _ => {
-                        let mut expressions = vec![expr];
-                        expressions.extend(self.parse_while_punc(",", &mut |this| {
-                            this.consume(",", LexGoal::RegExp)?;
-                            this.with_in(true, &mut Self::parse_assignment_expr)
-                        })?);
-                        let init = Some(Box::from(Node::SequenceExpression {
-                            expressions,
-                            assign_target_type: "invalid",
-                            span: self.end_span(),
-                        }));
-                        self.parse_for_classic_stmt(init)
-                    }
+                _ => None,
+            };
+            declarations.push(VariableDeclarator { id, init });
+            if !self.current.matches_punc(",") {
+                break;
+            }
+            self.advance(LexGoal::RegExp)?;
+        }
+        let is_target = match &declarations[..] {
+            [VariableDeclarator { init: None, .. }] => true,
+            // Sloppy code may have an initializer here: for (var a = 1 in b)
+            [VariableDeclarator {
+                id: Binding::BindingIdentifier { .. },
+                ..
+            }] => kind == "var" && !self.ctx.strict && self.current.matches_str("in"),
+            _ => false,
+        };
+        let node = Node::VariableDeclaration {
+            declarations,
+            kind,
+            span: self.end_span(),
+        };
+        Ok((node, is_target))
+    }
+
+    /// In the head of a classic for loop every pattern needs an initializer.
+    fn check_for_initializers(&mut self, declarations: &[VariableDeclarator]) -> Result<()> {
+        for declarator in declarations {
+            match declarator {
+                VariableDeclarator {
+                    id: Binding::BindingIdentifier { .. },
+                    ..
                 }
+                | VariableDeclarator { init: Some(_), .. } => (),
+                _ => return self.error_current(ErrorType::MissingInitializer),
             }
         }
+        Ok(())
+    }
+
+    /// Parses the expression in the head of a for loop, and tells whether it is the target of a
+    /// for-in or a for-of loop.
+    fn parse_for_expr(&mut self, r#await: bool) -> Result<(Node, bool)> {
+        let marker = self.marker();
+        let outer = self.cover_initializer.take();
+        let expr = if r#await {
+            self.arrow_start = usize::MAX;
+            self.parse_left_hand_side_expr()?
+        } else {
+            self.with_in(false, &mut Self::parse_assignment_cover)?
+        };
+        if self.current.matches_str("in") || self.current.matches_str("of") {
+            let target = match expr {
+                Node::ObjectExpression { .. } | Node::ArrayExpression { .. } => {
+                    self.cover_initializer = None;
+                    expr.to_assignment_pattern()?
+                }
+                _ => expr,
+            };
+            self.check_cover_initializer()?;
+            self.cover_initializer = outer;
+            if target.assign_target_type() != "simple" {
+                return self.error_current(ErrorType::InvalidLhsInFor);
+            }
+            return Ok((target, true));
+        }
+        self.check_cover_initializer()?;
+        self.cover_initializer = outer;
+        if !self.current.matches_punc(",") {
+            return Ok((expr, false));
+        }
+        let mut expressions = vec![expr];
+        while self.current.matches_punc(",") {
+            self.advance(LexGoal::RegExp)?;
+            expressions.push(self.with_in(false, &mut Self::parse_assignment_expr)?);
+        }
+        let sequence = Node::SequenceExpression {
+            expressions,
+            assign_target_type: "invalid",
+            span: self.span_from(&marker),
+        };
+        Ok((sequence, false))
     }
 
     fn parse_for_classic_stmt(&mut self, init: Option<Box<Node>>) -> Result<Node> {
@@ -1179,7 +1112,7 @@ where
         })
     }
 
-    fn parse_for_of_stmt(&mut self, left: Box<Node>) -> Result<Node> {
+    fn parse_for_of_stmt(&mut self, left: Box<Node>, r#await: bool) -> Result<Node> {
         // "for" "(" "var" ForBinding[?Yield, ?Await] "of"
         //     AssignmentExpression[+In, ?Yield, ?Await] ")" Statement[?Yield, ?Await, ?Return]
         // ForOfStatement {
@@ -1198,6 +1131,7 @@ where
             left,
             right,
             body,
+            r#await,
             span: self.end_span(),
         })
     }
-- 
2.43.0


From 4c6507bc51fe1471241a87c58bae3c5a6e6dd18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 40/46] fix: name the source text of an unexpected token, and
 say so when the input ends

---
 giron/src/parser/parser.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 64e7b4f..74aed63 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3929,13 +3929,16 @@ where
     }
 
     fn unexpected<T>(&self, token: Token) -> Result<T> {
-        match &token.tokentype {
-            _ => Err(Error {
-                line: token.line_num,
-                col: token.col,
-                errortype: ErrorType::UnexpectedToken(String::from(&token.value)),
-            }),
-        }
+        let errortype = match &token.tokentype {
+            TokenType::Eof => ErrorType::UnexpectedEOS,
+            TokenType::Template => ErrorType::UnexpectedTemplateString,
+            _ => ErrorType::UnexpectedToken(token.raw),
+        };
+        Err(Error {
+            line: token.line_num,
+            col: token.col,
+            errortype,
+        })
     }
 
     fn unexpected_current<T>(&mut self) -> Result<T> {
-- 
2.43.0


From c853dd2c04208eeb59db710a81c9d55cb4c6a01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 41/46] fix: accept U+FEFF as white space and reject U+0085, as
 ECMAScript does

---
 giron/src/scanner/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 3d36b93..39b64cd 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -86,7 +86,7 @@ where
     fn scan_comments(&mut self) -> Result<()> {
         loop {
             match self.peek2() {
-                (Some(cp), _) if cp.is_whitespace() => {
+                (Some(cp), _) if CodePoint::is_whitespace(cp) => {
                     self.consume();
                 }
                 (Some('\r'), Some('\n')) => {
-- 
2.43.0


From 74bca49c81bc3186b9b8ba80502f126c65ed091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 42/46] fix: reject reserved words as the local names of an
 export without a source

---
 giron/src/parser/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 74aed63..96cafb2 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -512,9 +512,15 @@ where
 
     fn parse_named_export_specifiers(&mut self) -> Result<Vec<ExportSpecifier>> {
         self.consume("{", LexGoal::RegExp)?;
+        // Without a module specifier the local names are references.
+        let mut reserved = None;
         let specifiers = self.parse_until_punc("}", &mut |this| {
             this.start_span();
+            let token = this.current.clone();
             let name = this.parse_id_name(LexGoal::RegExp)?;
+            if reserved.is_none() {
+                reserved = this.check_identifier(&token, false).err();
+            }
             match this.current.tokentype {
                 TokenType::Identifier if this.current.matches_str("as") => {
                     let local = Identifier {
@@ -547,7 +553,10 @@ where
             }
         })?;
         self.consume("}", LexGoal::RegExp)?;
-        Ok(specifiers)
+        match reserved {
+            Some(error) if !self.current.matches_str("from") => Err(error),
+            _ => Ok(specifiers),
+        }
     }
 
     // *******************************************************************
-- 
2.43.0


From 6321e384ca53f896ad6e275b5d39ed0e7524c02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 43/46] fix: scan + - & | % ^ as punctuators at the end of the
 input too

---
 giron/src/scanner/scanner.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index 39b64cd..fe621de 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -746,32 +746,32 @@ where
                     (_, _) => self.punc0("?"),
                 }
             }
-            (Some('+'), Some(cp)) => match cp {
-                '=' => self.punc2("+="),
-                '+' => self.punc2("++"),
+            (Some('+'), next) => match next {
+                Some('=') => self.punc2("+="),
+                Some('+') => self.punc2("++"),
                 _ => self.punc1("+"),
             },
-            (Some('-'), Some(cp)) => match cp {
-                '=' => self.punc2("-="),
-                '-' => self.punc2("--"),
+            (Some('-'), next) => match next {
+                Some('=') => self.punc2("-="),
+                Some('-') => self.punc2("--"),
                 _ => self.punc1("-"),
             },
-            (Some('&'), Some(cp)) => match cp {
-                '=' => self.punc2("&="),
-                '&' => self.punc2("&&"),
+            (Some('&'), next) => match next {
+                Some('=') => self.punc2("&="),
+                Some('&') => self.punc2("&&"),
                 _ => self.punc1("&"),
             },
-            (Some('|'), Some(cp)) => match cp {
-                '=' => self.punc2("|="),
-                '|' => self.punc2("||"),
+            (Some('|'), next) => match next {
+                Some('=') => self.punc2("|="),
+                Some('|') => self.punc2("||"),
                 _ => self.punc1("|"),
             },
-            (Some('%'), Some(cp)) => match cp {
-                '=' => self.punc2("%="),
+            (Some('%'), next) => match next {
+                Some('=') => self.punc2("%="),
                 _ => self.punc1("%"),
             },
-            (Some('^'), Some(cp)) => match cp {
-                '=' => self.punc2("^="),
+            (Some('^'), next) => match next {
+                Some('=') => self.punc2("^="),
                 _ => self.punc1("^"),
             },
             (Some('.'), _) => {
-- 
2.43.0


From ae6057c7363a3ffea6b6add5c0d85119018ca05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 44/46] fix: place a scanner error at the character that is not
 the expected one

---
 giron/src/scanner/scanner.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/giron/src/scanner/scanner.rs b/giron/src/scanner/scanner.rs
index fe621de..1891c11 100644
--- a/giron/src/scanner/scanner.rs
+++ b/giron/src/scanner/scanner.rs
@@ -947,8 +947,11 @@ where
     }
 
     fn expect(&mut self, expected: char) -> Result<()> {
-        match self.consume() {
-            Some(cp) if cp == expected => Ok(()),
+        match self.peek() {
+            Some(cp) if cp == expected => {
+                self.consume();
+                Ok(())
+            }
             _ => self.error(ErrorType::InvalidOrUnexpectedToken),
         }
     }
-- 
2.43.0


From c4f37e70e199e5c6500c74739a2cb3cd4199410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:15 +0000
Subject: [PATCH 45/46] fix: end the span of an empty program where it starts,
 not before

---
 giron/src/parser/parser.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 96cafb2..71f93b8 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -3914,10 +3914,13 @@ where
             Some(marker) => marker,
             _ => panic!("Tried to pop marker from an empty stack. This probably means a marker was failed to be pushed somewhere.")
         };
-        Span {
-            start,
-            end: self.prev_end.clone(),
-        }
+        // The last token of an empty program lies before it.
+        let end = if self.prev_end.idx < start.idx {
+            start.clone()
+        } else {
+            self.prev_end.clone()
+        };
+        Span { start, end }
     }
 
     // *******************************************************************
-- 
2.43.0


From e226d3101838a0a3dfd6fa379ef2c1d49ade4529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:29 +0000
Subject: [PATCH 46/46] fix: a regex starting with /= on the line after an
 arrow function was read as an assignment

---
 giron/src/parser/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/giron/src/parser/parser.rs b/giron/src/parser/parser.rs
index 71f93b8..7c4aa8a 100644
--- a/giron/src/parser/parser.rs
+++ b/giron/src/parser/parser.rs
@@ -1982,6 +1982,11 @@ where
         }
 
         match self.current.tokentype {
+            // An arrow function is not assigned to: `/=` on the next line starts a regex.
+            _ if lhs.is_bare_arrow() => {
+                self.check_cover_initializer()?;
+                Ok(lhs)
+            }
             TokenType::Punctuator if self.current.matches_punc("=") => {
                 let token = self.advance(LexGoal::RegExp)?;
                 lhs = lhs.to_assignment_pattern()?;
-- 
2.43.0

