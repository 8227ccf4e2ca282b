From 6a6523615b7ff9a380beadbd664007ebb5809e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:02 +0000
Subject: [PATCH 01/19] verif hook: export parse tree types under
 cfg(mofmt_verif)

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9731f01..36f85d7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,11 @@
 
 pub use parser::{parse, SyntaxKind, build_tree};
 
+// Parse tree access for the verification harness (`--cfg mofmt_verif`)
+#[allow(unexpected_cfgs)]
+#[cfg(mofmt_verif)]
+pub use parser::{Child, Tree};
+
 use self::formatter::{format, print};
 use self::parser::{SyntaxEvent, Token};
 
-- 
2.43.0


From d42a16b851c8ef017779c720587a682c1d4ef3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:16 +0000
Subject: [PATCH 02/19] fix: slice the source at character boundaries
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A token or comment that ends with a non-ASCII character, or a lexeme that is
followed by one, made the lexer slice the source in the middle of that
character and panic (e.g. a line comment that ends with a letter such as 'ą').
---
 src/parser/lexing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index fe6a8f1..8cc15aa 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -78,7 +78,7 @@ impl<'a> Lexer<'a> {
     fn next(&mut self) -> Option<char> {
         match self.chars.next() {
             Some((i, c)) => {
-                self.current.pos = i + 1;
+                self.current.pos = i + c.len_utf8();
                 self.current.col += 1;
                 if c == '\n' {
                     self.current.line += 1;
-- 
2.43.0


From d2437ff13cd503b47695868893d7e6b68f798236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:16 +0000
Subject: [PATCH 03/19] fix: do not take /*/ for a complete block comment

---
 src/parser/lexing.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index 8cc15aa..6540638 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -297,6 +297,8 @@ impl<'a> Lexer<'a> {
 
     /// Scan the slice that is supposed to be a block comment
     fn lex_blockcomment(&mut self) {
+        // The star that opens the comment must not be taken for the closing one
+        self.next();
         while let Some(c) = self.next() {
             if c == '*' {
                 if let Some(c) = self.peek() {
-- 
2.43.0


From beb70a0969a6ad7ff8ee793ed102c35f95865d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 04/19] fix: require digits in the exponent of a real number

'1e', '1e+' and '1.e-' were taken for complete numbers.
---
 src/parser/lexing.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index 6540638..4cdd8b0 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -330,20 +330,26 @@ impl<'a> Lexer<'a> {
     /// Scan the slice that is supposed to be a numeral
     fn lex_numeral(&mut self) {
         self.accept_digits();
-        if !self.accept(".") {
-            if !self.accept("eE") {
-                return self.generate_token(ModelicaToken::UInt);
-            }
-            self.accept("+-");
+        let mut kind = ModelicaToken::UInt;
+        if self.accept(".") {
+            kind = ModelicaToken::UReal;
             self.accept_digits();
-            return self.generate_token(ModelicaToken::UReal);
         }
-        self.accept_digits();
-        if self.accept("eE") {
+        if self.at_exponent() {
+            kind = ModelicaToken::UReal;
+            self.accept("eE");
             self.accept("+-");
             self.accept_digits();
         }
-        self.generate_token(ModelicaToken::UReal)
+        self.generate_token(kind)
+    }
+
+    /// Return `true` if the lexer is positioned at a complete exponent
+    fn at_exponent(&self) -> bool {
+        let rest = &self.source[self.current.pos..];
+        rest.strip_prefix(['e', 'E'])
+            .map(|r| r.strip_prefix(['+', '-']).unwrap_or(r))
+            .is_some_and(|r| r.starts_with(|c: char| c.is_ascii_digit()))
     }
 
     /// Scan the slice that is supposed to be an indentifier or a keyword
-- 
2.43.0


From 39c019d5ee10b7665eda158b6df9a3bdec3ec3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:32 +0000
Subject: [PATCH 05/19] fix: report an error when the text ends too early
 instead of panicking

'model' (and other texts that end where a class prefix, class specifier etc.
is due) made the parser advance past the last token.
---
 src/parser/parsing.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 859ac97..a1ecd81 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -218,24 +218,20 @@ impl<'a> Parser<'a> {
 
     /// Mark currently parsed token as erroneus.
     fn error(&mut self, msg: String) {
-        if let Some(tok) = self.tokens.get(self.pos) {
-            self.errors.push(format!(
-                "{}:{}:{}: {}",
-                self.name, tok.start.line, tok.start.col, msg
-            ));
-        } else {
-            self.errors.push(format!(
-                "{}:{}:{}: {}",
-                self.name,
-                self.tokens.last().unwrap().start.line,
-                self.tokens.last().unwrap().start.col,
-                msg
-            ));
-        }
+        let (line, col) = self
+            .tokens
+            .get(self.pos)
+            .or(self.tokens.last())
+            .map_or((1, 1), |tok| (tok.start.line, tok.start.col));
+        self.errors
+            .push(format!("{}:{}:{}: {}", self.name, line, col, msg));
     }
 
     fn advance_with_error(&mut self, msg: String) {
         self.error(msg);
+        if self.eof() {
+            return;
+        }
         let mark = self.enter();
         self.advance();
         self.exit(mark, SyntaxKind::Error);
-- 
2.43.0


From cf418b2e118121f7dfc897fe116d6e6d685e3270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:47 +0000
Subject: [PATCH 06/19] fix: report an error instead of panicking when the
 parser is stuck

Invalid input that no production consumes (e.g. 'model M equation end = 1;')
ended in a panic, which in the command line tool also stopped the processing
of all remaining files.
---
 src/parser/parsing.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index a1ecd81..dad4ab6 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -28,6 +28,8 @@ struct Parser<'a> {
     pos: usize,
     /// Parser lifes
     lifes: Cell<u32>,
+    /// `true` if parser stopped making progress. The rest of the tokens is not visited
+    stuck: Cell<bool>,
 }
 
 impl<'a> Parser<'a> {
@@ -126,6 +128,9 @@ impl<'a> Parser<'a> {
             SyntaxKind::AnnotationClause => annotation_clause(self),
             SyntaxKind::Error => panic!("cannot parse error node"),
         }
+        if self.stuck.get() {
+            self.error(String::from("Parser stuck"));
+        }
     }
 
     /// Return a new parser instance
@@ -138,6 +143,7 @@ impl<'a> Parser<'a> {
             errors: Vec::new(),
             pos: 0,
             lifes: Cell::new(100),
+            stuck: Cell::new(false),
         }
     }
 
@@ -162,7 +168,9 @@ impl<'a> Parser<'a> {
 
     /// Advance the parser, consume the token and push it into the events vector
     fn advance(&mut self) {
-        assert!(!self.eof());
+        if self.eof() {
+            return;
+        }
         self.events.push(SyntaxEvent::Advance);
         self.pos += 1;
         self.lifes.set(100);
@@ -170,13 +178,14 @@ impl<'a> Parser<'a> {
 
     /// Return `true` if parser reached the end of file
     fn eof(&self) -> bool {
-        self.pos == self.tokens.len()
+        self.stuck.get() || self.pos == self.tokens.len()
     }
 
     /// Return type of the n-th token counting from the current one.
     fn nth(&self, n: usize) -> ModelicaToken {
         if self.lifes.get() == 0 {
-            self.blowup();
+            self.stuck.set(true);
+            return ModelicaToken::EOF;
         }
         self.lifes.set(self.lifes.get() - 1);
         self.tokens
@@ -184,18 +193,6 @@ impl<'a> Parser<'a> {
             .map_or(ModelicaToken::EOF, |tok| tok.kind)
     }
 
-    fn blowup(&self) {
-        let tok = if !self.eof() {
-            self.tokens.get(self.pos).unwrap()
-        } else {
-            self.tokens.last().unwrap()
-        };
-        panic!(
-            "{}:{}:{}: Parser stuck",
-            self.name, tok.start.line, tok.start.col
-        );
-    }
-
     /// Return `true` if current token matches the specified type
     fn check(&self, typ: ModelicaToken) -> bool {
         self.nth(0) == typ
-- 
2.43.0


From ce68ee240a2eb453e5c55fabad244add5b614f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:48 +0000
Subject: [PATCH 07/19] fix: report a failed write and go on with the remaining
 files

---
 src/main.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1e08f47..d014d65 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -85,8 +85,9 @@ fn format_files(args: &[String], check: bool) {
                         } else {
                             writeln!(lock, "{}: check passed", name).unwrap();
                         }
-                    } else {
-                        write_file(p, output);
+                    } else if let Err(e) = write_file(p, output) {
+                        eprintln!("{}: error: {}", name, e);
+                        code = 1;
                     }
                 }
             }
@@ -140,6 +141,6 @@ fn read_file(from: &Path) -> Result<String, String> {
 }
 
 /// Write formatted code to a file
-fn write_file(to: &Path, code: String) {
-    fs::write(to, code).unwrap_or_else(|_| panic!("{}: error writing a file", to.display()));
+fn write_file(to: &Path, code: String) -> Result<(), String> {
+    fs::write(to, code).map_err(|e| e.to_string())
 }
-- 
2.43.0


From 0f98c05e0bfcb5ef7fc50a2ac0f9dba10a5291ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:26 +0000
Subject: [PATCH 08/19] fix: report directories that cannot be read and go on
 with the remaining files

---
 src/main.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d014d65..da87765 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,7 +1,7 @@
 use mofmt::{parse, SyntaxKind, pretty_print};
 use std::io::{stdout, Write};
 use std::path::{Path, PathBuf};
-use std::{env, fs};
+use std::{env, fs, io};
 
 const VERSION: &str = "0.6.0";
 
@@ -52,7 +52,7 @@ fn format_files(args: &[String], check: bool) {
         .map(PathBuf::from)
         .map(|p| {
             if p.is_dir() {
-                get_files_from_dir(p)
+                get_files_from_dir(p, &mut code)
             } else {
                 vec![p]
             }
@@ -100,16 +100,27 @@ fn format_files(args: &[String], check: bool) {
     std::process::exit(code);
 }
 
-/// Return all Modelica files from the given directory
-fn get_files_from_dir(dir: PathBuf) -> Vec<PathBuf> {
+/// Return all Modelica files from the given directory.
+/// Set exit code if the directory (or any below) cannot be read.
+fn get_files_from_dir(dir: PathBuf, code: &mut i32) -> Vec<PathBuf> {
     let mut files = Vec::new();
-    let paths = fs::read_dir(&dir)
-        .unwrap_or_else(|_| panic!("{}: error reading from a directory", dir.display()));
-    paths
-        .map(|e| e.unwrap().path())
+    let mut report = |e: io::Error| {
+        eprintln!("{}: error: {}", dir.display(), e);
+        *code = 1;
+    };
+    let entries = match fs::read_dir(&dir) {
+        Ok(entries) => entries.filter_map(|e| e.map_err(&mut report).ok()).collect(),
+        Err(e) => {
+            report(e);
+            Vec::new()
+        }
+    };
+    entries
+        .into_iter()
+        .map(|e| e.path())
         .map(|p| {
             if p.is_dir() {
-                get_files_from_dir(p)
+                get_files_from_dir(p, code)
             } else if is_modelica(p.as_path()) {
                 vec![p]
             } else {
-- 
2.43.0


From 507ae487a6b1a4d26986bae2ba52c0b006e18ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:01 +0000
Subject: [PATCH 09/19] fix: accept paths that are not valid UTF-8

---
 src/main.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index da87765..f71c98b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,5 @@
 use mofmt::{parse, SyntaxKind, pretty_print};
+use std::ffi::OsString;
 use std::io::{stdout, Write};
 use std::path::{Path, PathBuf};
 use std::{env, fs, io};
@@ -19,24 +20,25 @@ Options:
 const EOL: &str = if cfg!(windows) { "\r\n" } else { "\n" };
 
 fn main() {
-    let args: Vec<String> = env::args().collect();
+    let args: Vec<OsString> = env::args_os().collect();
+    let first = args.get(1).map_or("".into(), |a| a.to_string_lossy());
     if args.len() < 2 {
         eprintln!("Missing PATHS arguments.\n{}", HELP);
         std::process::exit(1);
-    } else if ["-h", "--help"].contains(&args[1].as_str()) {
+    } else if ["-h", "--help"].contains(&first.as_ref()) {
         println!("{}", HELP);
         std::process::exit(0);
-    } else if ["-v", "--version"].contains(&args[1].as_str()) {
+    } else if ["-v", "--version"].contains(&first.as_ref()) {
         println!("mofmt, {}", VERSION);
         std::process::exit(0);
-    } else if args[1].as_str() == "--check" {
+    } else if first == "--check" {
         if args.len() < 3 {
             eprintln!("Missing PATHS arguments.\n{}", HELP);
             std::process::exit(1);
         }
         format_files(&args[2..], true);
-    } else if args[1].starts_with('-') {
-        eprintln!("Unrecognized option: '{}'.\n{}", args[1], HELP);
+    } else if first.starts_with('-') {
+        eprintln!("Unrecognized option: '{}'.\n{}", first, HELP);
         std::process::exit(1);
     } else {
         format_files(&args[1..], false);
@@ -44,7 +46,7 @@ fn main() {
 }
 
 /// Format files specified in the argument list
-fn format_files(args: &[String], check: bool) {
+fn format_files(args: &[OsString], check: bool) {
     let mut code = 0;
     let mut files = Vec::new();
     let mut lock = stdout().lock();
-- 
2.43.0


From 1e2146defc2ec0d4963c1c0a474d25c559031aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 10/19] fix: keep comments before the first class and treat
 blank lines next to comments uniformly

Comments before the first class (or before a leading 'final') were dropped, a
leading comment was preceded by an empty line, a blank line was doubled or
lost next to block comments that span several lines, and a comment that
follows a block comment in the same line was moved to a new line.
---
 src/formatter/formatting.rs | 99 ++++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 52 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index eeb71b9..2a0757f 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -141,68 +141,63 @@ impl Formatter {
 
     /// Find and insert comments, and check if blank line may be inserted
     fn handle_break(&mut self, tok: &Token, blanks: Blank) {
-        let (inlines, comments) = self.comments_before(tok);
-        for comment in inlines {
-            if !self.markers.is_empty() {
-                self.markers.push(Marker::Space);
-            }
-            self.markers.push(Marker::Token(comment.text));
-        }
-        if let Blank::Required = blanks {
-            self.markers.push(Marker::Blank);
-        }
+        let comments = self.comments_before(tok);
+        let required = matches!(blanks, Blank::Required);
+        let (line, required) = self.handle_comments(comments, required);
+        let is_blank = match blanks {
+            Blank::Required => required || tok.start.line - line > 1,
+            Blank::Legal => tok.start.line - line > 1,
+            Blank::Illegal => false,
+        };
+        self.push_break(is_blank);
+    }
+
+    /// Insert comments the way they were placed in the input: either in a new line
+    /// or in the line of the previous token. If blank line is required, then it is
+    /// inserted before the first comment from a new line.
+    ///
+    /// Return the last line occupied by already inserted code, and `true` if the
+    /// required blank line is still missing.
+    fn handle_comments(&mut self, comments: Vec<Token>, mut required: bool) -> (usize, bool) {
         let mut line = self.prev_line;
+        let mut prev_kind = self.prev_tok;
         for comment in comments {
-            if let Blank::Required = blanks {
-                if line > self.prev_line {
-                    if comment.start.line - line > 1 {
-                        self.markers.push(Marker::Blank);
-                    } else {
-                        self.markers.push(Marker::Break);
-                    }
-                }
-            } else if comment.start.line - line > 1 {
-                self.markers.push(Marker::Blank);
-            } else {
-                self.markers.push(Marker::Break);
+            if comment.start.line > line || prev_kind == ModelicaToken::LineComment {
+                self.push_break(required || comment.start.line - line > 1);
+                required = false;
+            } else if self.has_tokens() {
+                self.markers.push(Marker::Space);
             }
-            self.markers.push(Marker::Token(comment.text));
             line = comment.end.line;
+            prev_kind = comment.kind;
+            self.markers.push(Marker::Token(comment.text));
         }
-        if let Blank::Legal = blanks {
-            if tok.start.line - line > 1 {
-                self.markers.push(Marker::Blank);
-            } else {
-                self.markers.push(Marker::Break);
-            }
-        } else if let Blank::Illegal = blanks {
-            self.markers.push(Marker::Break);
-        } else if line > self.prev_line {
-            if tok.start.line - line > 1 {
-                self.markers.push(Marker::Blank);
+        (line, required)
+    }
+
+    /// Insert linebreak marker, unless there is nothing to break
+    fn push_break(&mut self, is_blank: bool) {
+        if self.has_tokens() {
+            self.markers.push(if is_blank {
+                Marker::Blank
             } else {
-                self.markers.push(Marker::Break);
-            }
+                Marker::Break
+            });
         }
     }
 
+    /// Return `true` if there is any code collected so far
+    fn has_tokens(&self) -> bool {
+        self.markers.iter().any(|m| matches!(m, Marker::Token(_)))
+    }
+
     /// Return comments from before the specified token.
-    /// First vector contains inline comments.
-    fn comments_before(&mut self, tok: &Token) -> (Vec<Token>, Vec<Token>) {
+    fn comments_before(&mut self, tok: &Token) -> Vec<Token> {
         let mut comments = Vec::new();
-        let mut inlines = Vec::new();
-        while let Some(comment) = self.comments.peek() {
-            if comment.idx < tok.idx {
-                if comment.start.line == self.prev_line {
-                    inlines.push(self.comments.next().unwrap());
-                } else {
-                    comments.push(self.comments.next().unwrap());
-                }
-            } else {
-                break;
-            }
+        while self.comments.peek().is_some_and(|c| c.idx < tok.idx) {
+            comments.extend(self.comments.next());
         }
-        (inlines, comments)
+        comments
     }
 
     /// Collect token marker and update the last token data
@@ -221,7 +216,7 @@ fn stored_definition(f: &mut Formatter, tree: Tree) {
             Child::Tree(tree) => match tree.kind {
                 SyntaxKind::Name => name(f, tree),
                 SyntaxKind::ClassDefinition => {
-                    if f.prev_tok == ModelicaToken::Semicolon {
+                    if f.prev_tok != ModelicaToken::Final {
                         f.handle_break(tree.start(), Blank::Legal);
                     }
                     class_definition(f, tree);
@@ -232,7 +227,7 @@ fn stored_definition(f: &mut Formatter, tree: Tree) {
                 let kind = tok.kind;
                 if kind == ModelicaToken::Final {
                     f.handle_break(&tok, Blank::Legal);
-                } else if kind == ModelicaToken::Within && tok.idx > 0 {
+                } else if kind == ModelicaToken::Within {
                     f.handle_break(&tok, Blank::Illegal);
                 }
                 f.handle_token(tok);
-- 
2.43.0


From f03f3f81467bc2460b24cdb38657d0bfa7feb44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:31 +0000
Subject: [PATCH 11/19] fix: keep comments that follow the last token

---
 src/formatter/formatting.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 2a0757f..ccd87e6 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -109,6 +109,7 @@ pub fn format(tree: Tree, comments: Vec<Token>) -> Vec<Marker> {
         SyntaxKind::AnnotationClause => annotation_clause(&mut f, tree),
         SyntaxKind::Error => (),
     }
+    f.handle_end();
     f.markers
 }
 
@@ -208,6 +209,12 @@ impl Formatter {
         self.prev_tok = tok.kind;
         self.markers.push(Marker::Token(tok.text));
     }
+
+    /// Insert comments from after the last token
+    fn handle_end(&mut self) {
+        let comments = self.comments.by_ref().collect();
+        self.handle_comments(comments, false);
+    }
 }
 
 fn stored_definition(f: &mut Formatter, tree: Tree) {
-- 
2.43.0


From bc26866728e8a79dd98a3c8a442fdc57a86dc36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 12/19] fix: keep comments in lines that are not wrapped

Comments between tokens that are never separated by a line break (and in
constructs that are not wrapped) were silently discarded.
---
 src/formatter/formatting.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index ccd87e6..1850a5b 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -203,13 +203,44 @@ impl Formatter {
 
     /// Collect token marker and update the last token data
     fn handle_token(&mut self, tok: Token) {
-        // Discard comments, as they are only allowed when line is wrapped
-        let _ = self.comments_before(&tok);
+        let comments = self.comments_before(&tok);
+        if let Some(last) = comments.last() {
+            // Line is not wrapped here, so comments are put between the tokens
+            let is_broken = last.kind == ModelicaToken::LineComment
+                || tok.start.line > last.end.line;
+            self.remove_space();
+            let is_continued = self.has_tokens();
+            if is_continued {
+                self.markers.push(Marker::Indent);
+            }
+            self.handle_comments(comments, false);
+            self.markers.push(if is_broken {
+                Marker::Break
+            } else {
+                Marker::Space
+            });
+            if is_continued {
+                self.markers.push(Marker::Dedent);
+            }
+        }
         self.prev_line = tok.end.line;
         self.prev_tok = tok.kind;
         self.markers.push(Marker::Token(tok.text));
     }
 
+    /// Remove whitespace inserted after the last token
+    fn remove_space(&mut self) {
+        let last = self
+            .markers
+            .iter()
+            .rposition(|m| !matches!(m, Marker::Indent | Marker::Dedent));
+        if let Some(idx) = last {
+            if self.markers[idx] == Marker::Space {
+                self.markers.remove(idx);
+            }
+        }
+    }
+
     /// Insert comments from after the last token
     fn handle_end(&mut self) {
         let comments = self.comments.by_ref().collect();
-- 
2.43.0


From 5555c32e7e6e141310eec31c95a0ffc782d664d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:33 +0000
Subject: [PATCH 13/19] fix: restore indentation after a wrapped left-hand side
 of an equation or statement

---
 src/formatter/formatting.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 1850a5b..cc9e5f7 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -1221,7 +1221,11 @@ fn equation(f: &mut Formatter, tree: Tree) {
     for child in tree.children {
         match child {
             Child::Tree(tree) => match tree.kind {
-                SyntaxKind::SimpleExpression => _ = simple_expression(f, tree, false),
+                SyntaxKind::SimpleExpression => {
+                    if simple_expression(f, tree, false) {
+                        f.markers.push(Marker::Dedent);
+                    }
+                }
                 SyntaxKind::Expression => {
                     let is_multiline_if =
                         tree.is_multiline() && tree.start().kind == ModelicaToken::If;
@@ -1282,7 +1286,11 @@ fn statement(f: &mut Formatter, tree: Tree) {
                     }
                 }
                 SyntaxKind::FunctionCallArgs => function_call_args(f, tree),
-                SyntaxKind::OutputExpressionList => _ = output_expression_list(f, tree, false),
+                SyntaxKind::OutputExpressionList => {
+                    if output_expression_list(f, tree, false) {
+                        f.markers.push(Marker::Dedent);
+                    }
+                }
                 SyntaxKind::IfStatement => if_statement(f, tree),
                 SyntaxKind::ForStatement => for_statement(f, tree),
                 SyntaxKind::WhileStatement => while_statement(f, tree),
-- 
2.43.0


From d898185fdea3cac8b8c3c51e6d6d606d5b28ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:34 +0000
Subject: [PATCH 14/19] fix: indent wrapped arguments of a function partial
 application

---
 src/formatter/formatting.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index cc9e5f7..102deec 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -2108,9 +2108,12 @@ fn function_partial_application(f: &mut Formatter, tree: Tree) {
                 let kind = tok.kind;
                 f.handle_token(tok);
                 if kind == ModelicaToken::LParen && is_multiline {
+                    f.markers.push(Marker::Indent);
                     if let Child::Tree(next_tree) = children.peek().unwrap() {
                         f.handle_break(next_tree.start(), Blank::Illegal);
                     }
+                } else if kind == ModelicaToken::RParen && is_multiline {
+                    f.markers.push(Marker::Dedent);
                 }
             }
         }
-- 
2.43.0


From 0a04089dcc10c707bfcc9a93bc7991709919ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:59 +0000
Subject: [PATCH 15/19] fix: wrap constructs that hold a description or a
 constraining clause at once

An unwrapped inheritance modification, component list or modification that
holds a part which always starts in a new line was formatted in one line
around that part and wrapped only when it was formatted again.
---
 src/formatter/formatting.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 102deec..9845cf5 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -248,6 +248,13 @@ impl Formatter {
     }
 }
 
+/// Return `true` if the tree contains parts that always start in a new line
+fn has_broken_parts(tree: &Tree) -> bool {
+    tree.contains(SyntaxKind::DescriptionString)
+        || tree.contains(SyntaxKind::Description)
+        || tree.contains(SyntaxKind::ConstrainingClause)
+}
+
 fn stored_definition(f: &mut Formatter, tree: Tree) {
     for child in tree.children {
         match child {
@@ -788,7 +795,7 @@ fn constraining_clause(f: &mut Formatter, tree: Tree) {
 
 fn class_or_inheritance_modification(f: &mut Formatter, tree: Tree) {
     f.markers.push(Marker::Indent);
-    let is_multiline = tree.is_multiline() && tree.len() > 2;
+    let is_multiline = (tree.is_multiline() || has_broken_parts(&tree)) && tree.len() > 2;
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
         match child {
@@ -880,7 +887,7 @@ fn type_prefix(f: &mut Formatter, tree: Tree) {
 }
 
 fn component_list(f: &mut Formatter, tree: Tree) {
-    let is_multiline = tree.is_multiline();
+    let is_multiline = tree.is_multiline() || has_broken_parts(&tree);
     let children_count = tree.len();
     if is_multiline && children_count > 1 {
         f.markers.push(Marker::Indent);
@@ -983,9 +990,7 @@ fn modification_expression(f: &mut Formatter, tree: Tree) {
 
 fn class_modification(f: &mut Formatter, tree: Tree) {
     f.markers.push(Marker::Indent);
-    let is_multiline = tree.is_multiline()
-        || tree.contains(SyntaxKind::DescriptionString)
-        || tree.contains(SyntaxKind::Description);
+    let is_multiline = tree.is_multiline() || has_broken_parts(&tree);
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
         match child {
-- 
2.43.0


From 59e10f9cf5f02dcd731d76517e7a7acb13efdfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:10 +0000
Subject: [PATCH 16/19] fix: accept an equation that begins with a call of
 initial()

---
 src/parser/parsing.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index dad4ab6..80755ea 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -853,7 +853,11 @@ fn equation_section(p: &mut Parser) {
     let mark = p.enter();
     p.consume(ModelicaToken::Initial);
     p.expect(ModelicaToken::Equation);
-    while !p.check_any(&SECTION_BREAKERS) && !p.eof() {
+    // `initial` followed by parentheses is an operand, not the beginning of a section
+    while (!p.check_any(&SECTION_BREAKERS)
+        || (p.check(ModelicaToken::Initial) && p.nth(1) == ModelicaToken::LParen))
+        && !p.eof()
+    {
         equation(p);
         p.expect(ModelicaToken::Semicolon);
     }
-- 
2.43.0


From b8d5bcde26069043cac75444140e6216c750344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:54 +0000
Subject: [PATCH 17/19] fix: count a lone carriage return as a line end

It already ended a line comment, but the line number was not updated, so that
formatting such a file for the second time gave a different result.
---
 src/parser/lexing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index 4cdd8b0..b632d08 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -80,7 +80,7 @@ impl<'a> Lexer<'a> {
             Some((i, c)) => {
                 self.current.pos = i + c.len_utf8();
                 self.current.col += 1;
-                if c == '\n' {
+                if c == '\n' || (c == '\r' && self.peek() != Some('\n')) {
                     self.current.line += 1;
                     self.current.col = 1
                 }
-- 
2.43.0


From 7b8866378ec8cf8ce5957f4077db5541e224cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:02 +0000
Subject: [PATCH 18/19] fix: format an empty description string as an entry of
 its own

---
 src/parser/tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/tree.rs b/src/parser/tree.rs
index 5d06c34..be035cf 100644
--- a/src/parser/tree.rs
+++ b/src/parser/tree.rs
@@ -73,6 +73,9 @@ impl Tree {
     }
 
     pub fn is_multiline(&self) -> bool {
+        if self.children.is_empty() {
+            return false;
+        }
         let first = self.start();
         let last = self.end();
         first.start.line < last.end.line
-- 
2.43.0


From 815b385c81d432848362825e0089b59d493596b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:41 +0000
Subject: [PATCH 19/19] fix: subdirectories that cannot be accessed were
 dropped without an error

---
 src/main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index f71c98b..b3fb4a4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -119,9 +119,10 @@ fn get_files_from_dir(dir: PathBuf, code: &mut i32) -> Vec<PathBuf> {
     };
     entries
         .into_iter()
-        .map(|e| e.path())
-        .map(|p| {
-            if p.is_dir() {
+        .map(|e| {
+            let p = e.path();
+            // The listing knows the type even if the entry itself cannot be accessed
+            if p.is_dir() || e.file_type().is_ok_and(|t| t.is_dir()) {
                 get_files_from_dir(p, code)
             } else if is_modelica(p.as_path()) {
                 vec![p]
-- 
2.43.0

