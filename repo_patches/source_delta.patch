From 84919dfcf584a40830293728ba4d9bb24ad9c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:41 +0000
Subject: [PATCH 01/27] fix: do not overflow the count of functions nested
 directly in a function

The number of all()/any()/not() directly inside another function was
counted in a u8, so the 256th one panicked with overflow checks, and
without them produced an expression which evaluated incorrectly.
---
 src/expr/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index 4b5014e..abf2d16 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -27,7 +27,7 @@ impl Expression {
             parens_index: usize,
             span: std::ops::Range<usize>,
             predicates: SmallVec<[InnerPredicate; 5]>,
-            nest_level: u8,
+            nest_level: usize,
         }
 
         let mut func_stack = SmallVec::<[FuncAndSpan; 5]>::new();
@@ -317,7 +317,7 @@ impl Expression {
                             #[allow(clippy::bool_to_int_with_if)]
                             let num_predicates = top.predicates.len()
                                 + if key.is_some() { 1 } else { 0 }
-                                + top.nest_level as usize;
+                                + top.nest_level;
 
                             let func = match top.func {
                                 Func::All(_) => Func::All(num_predicates),
-- 
2.43.0


From 5a0277ae2324fe5cdb2d409a2b536e9f8f63e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:41 +0000
Subject: [PATCH 02/27] fix: count functions as root predicates

Only plain predicates were counted, so eg. `all(a), b` was accepted, and
evaluated as just `b`, rather than giving MultipleRootPredicates.
---
 src/expr/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index abf2d16..a0b5dd6 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -348,6 +348,10 @@ impl Expression {
 
                             expr_queue.push(ExprNode::Fn(func));
 
+                            if func_stack.is_empty() {
+                                root_predicate_count += 1;
+                            }
+
                             // This is the only place we go back to the top of the outer loop,
                             // so make sure we correctly record this token
                             last_token = Some(Token::CloseParen);
-- 
2.43.0


From f558fd468ff0361705d407d8c7c119716fe1b7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:41 +0000
Subject: [PATCH 03/27] fix: reject consecutive commas

`all(a,,b)` and `a,,` were accepted, though a comma must be followed by a
predicate or the end of the list.
---
 src/expr/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index a0b5dd6..acbd6fd 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -370,7 +370,12 @@ impl Expression {
                     if matches!(
                         last_token,
                         None | Some(
-                            Token::OpenParen | Token::All | Token::Any | Token::Not | Token::Equals
+                            Token::OpenParen
+                                | Token::All
+                                | Token::Any
+                                | Token::Not
+                                | Token::Equals
+                                | Token::Comma
                         )
                     ) {
                         token_err!(lt.span)
-- 
2.43.0


From 5b5984e98662da8d47043c5386735bd9836135bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:41 +0000
Subject: [PATCH 04/27] fix: span all of an unexpected non-ASCII character

The span of the error ended inside of the character, so slicing the
original string with it panicked.
---
 src/expr/lexer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/expr/lexer.rs b/src/expr/lexer.rs
index 60abc6b..088ba82 100644
--- a/src/expr/lexer.rs
+++ b/src/expr/lexer.rs
@@ -133,12 +133,9 @@ impl<'a> Iterator for Lexer<'a> {
                         other => Some(Ok(Token::Key(other))),
                     }
                 } else {
-                    // clippy tries to help here, but we need
-                    // a Range here, not a RangeInclusive<>
-                    #[allow(clippy::range_plus_one)]
                     Some(Err(ParseError {
                         original: self.original.to_owned(),
-                        span: self.offset..self.offset + 1,
+                        span: self.offset..self.offset + c.len_utf8(),
                         reason: Reason::Unexpected(&["<key>", "all", "any", "not"]),
                     }))
                 }
-- 
2.43.0


From c552856eb41b205dbc0a9f3b22574524991aaf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:09 +0000
Subject: [PATCH 05/27] fix: end lexing after an error

The lexer returned the same error from every call to next(), so eg.
counting or collecting the items of the iterator never returned.
---
 src/expr/lexer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr/lexer.rs b/src/expr/lexer.rs
index 088ba82..0b884ad 100644
--- a/src/expr/lexer.rs
+++ b/src/expr/lexer.rs
@@ -142,6 +142,12 @@ impl<'a> Iterator for Lexer<'a> {
             }
         }
         .map(|tok| {
+            if tok.is_err() {
+                // Nothing can be lexed past an error, so end the iteration
+                // instead of repeating the same error forever
+                self.inner = "";
+            }
+
             tok.map(|tok| {
                 let len = tok.len();
 
-- 
2.43.0


From 9373f74334bbc902b6259b6c5e60d8a5ce44f1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:09 +0000
Subject: [PATCH 06/27] fix: reject integers which are not in rustc's form

target_pointer_width and target_has_atomic accepted a sign and leading
zeros, so eg. `target_pointer_width = "+064"` was true for 64-bit
targets, where for rustc it is always false.
---
 src/expr/parser.rs | 16 +++++++++++-----
 src/targets.rs     | 13 ++++++-------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index acbd6fd..42b8409 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -177,11 +177,17 @@ impl Expression {
                             span: None,
                         },
                         "pointer_width" => InnerTarget {
-                            which: Which::PointerWidth(val.parse().map_err(|_err| ParseError {
-                                original: original.to_owned(),
-                                span: vspan,
-                                reason: Reason::InvalidInteger,
-                            })?),
+                            which: Which::PointerWidth(
+                                // rustc compares the strings, so eg. `064` and `+64` never match
+                                val.parse()
+                                    .ok()
+                                    .filter(|pw: &u8| pw.to_string() == val)
+                                    .ok_or_else(|| ParseError {
+                                        original: original.to_owned(),
+                                        span: vspan,
+                                        reason: Reason::InvalidInteger,
+                                    })?,
+                            ),
                             span: None,
                         },
                         "vendor" => tp!(Vendor),
diff --git a/src/targets.rs b/src/targets.rs
index d107965..a809632 100644
--- a/src/targets.rs
+++ b/src/targets.rs
@@ -107,14 +107,13 @@ impl std::str::FromStr for HasAtomic {
     type Err = HasAtomicParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if let Ok(size) = s.parse::<u16>() {
-            Ok(Self::IntegerSize(size))
-        } else if s == "ptr" {
-            Ok(HasAtomic::Pointer)
-        } else {
-            Err(HasAtomicParseError {
+        match s.parse::<u16>() {
+            // rustc compares the strings, so eg. `08` and `+8` never match
+            Ok(size) if size.to_string() == s => Ok(Self::IntegerSize(size)),
+            _ if s == "ptr" => Ok(HasAtomic::Pointer),
+            _ => Err(HasAtomicParseError {
                 input: s.to_owned(),
-            })
+            }),
         }
     }
 }
-- 
2.43.0


From acbdd1f70c95c8647fa9b8e8586b2852f062050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:09 +0000
Subject: [PATCH 07/27] fix: do not report an unknown endian as an invalid
 integer

The actual reason, which lists the valid values, was replaced.
---
 src/expr/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index 42b8409..c017f3d 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -161,10 +161,10 @@ impl Expression {
                         "family" => tp!(Family),
                         "env" => tp!(Env),
                         "endian" => InnerTarget {
-                            which: Which::Endian(val.parse().map_err(|_err| ParseError {
+                            which: Which::Endian(val.parse().map_err(|reason| ParseError {
                                 original: original.to_owned(),
                                 span: vspan,
-                                reason: Reason::InvalidInteger,
+                                reason,
                             })?),
                             span: None,
                         },
-- 
2.43.0


From 768e2d5689782bd77e620e644b85f68b9c91819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:09 +0000
Subject: [PATCH 08/27] fix: remove duplicates when building Families and
 HasAtomics

They are sets, but with a repeated element compared different from the
set without it.
---
 src/targets.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/targets.rs b/src/targets.rs
index a809632..687dfcc 100644
--- a/src/targets.rs
+++ b/src/targets.rs
@@ -143,6 +143,7 @@ impl Families {
     pub fn new(val: impl IntoIterator<Item = Family>) -> Self {
         let mut fams: Vec<_> = val.into_iter().collect();
         fams.sort_unstable();
+        fams.dedup();
         Self(Cow::Owned(fams))
     }
 
@@ -203,6 +204,7 @@ impl HasAtomics {
     pub fn new(val: impl IntoIterator<Item = HasAtomic>) -> Self {
         let mut has_atomics: Vec<_> = val.into_iter().collect();
         has_atomics.sort_unstable();
+        has_atomics.dedup();
         Self(Cow::Owned(has_atomics))
     }
 
-- 
2.43.0


From 29ae8601d576db637f47151daa63b830358f6b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:09 +0000
Subject: [PATCH 09/27] fix: line up the marker of an error with non-ASCII text

One column was used for each byte, rather than for each character.
---
 src/error.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 87cd11d..e1a3798 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -47,7 +47,15 @@ impl fmt::Display for ParseError {
         f.write_str(&self.original)?;
         f.write_str("\n")?;
 
-        for _ in 0..self.span.start {
+        // The span is in bytes, but each character only takes up one column
+        let columns = |range: &std::ops::Range<usize>| {
+            self.original
+                .char_indices()
+                .filter(|(i, _)| range.contains(i))
+                .count()
+        };
+
+        for _ in 0..columns(&(0..self.span.start)) {
             f.write_str(" ")?;
         }
 
@@ -61,7 +69,7 @@ impl fmt::Display for ParseError {
                 f.write_fmt(format_args!("^ {r}"))
             }
             other => {
-                for _ in self.span.start..self.span.end {
+                for _ in 0..columns(&self.span) {
                     f.write_str("^")?;
                 }
 
-- 
2.43.0


From 740558624f25a9443cb3fee46787816de18ee394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:47 +0000
Subject: [PATCH 10/27] fix: android triples are not linux, and have no env

Matching against a target_lexicon::Triple, android targets satisfied
target_os = "linux" and target_env = "gnu", unlike the same builtin.
---
 src/expr.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index ad17b27..4c646c3 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -219,14 +219,6 @@ impl TargetMatcher for target_lexicon::Triple {
                                             | Environment::GnuIlp32
                                             | Environment::Gnueabihf
                                             | Environment::GnuLlvm => true,
-                                            // Rust 1.49.0 changed all android targets to have the
-                                            // gnu environment
-                                            Environment::Android | Environment::Androideabi
-                                                if self.operating_system
-                                                    == OperatingSystem::Linux =>
-                                            {
-                                                true
-                                            }
                                             Environment::Kernel => {
                                                 self.operating_system == OperatingSystem::Linux
                                             }
@@ -349,6 +341,12 @@ impl TargetMatcher for target_lexicon::Triple {
                 match os.0.parse::<OperatingSystem>() {
                     Ok(o) => match self.environment {
                         Environment::HermitKernel => os == &targ::Os::hermit,
+                        // The os is android in this case, see below
+                        Environment::Android | Environment::Androideabi
+                            if o == OperatingSystem::Linux =>
+                        {
+                            false
+                        }
                         _ => self.operating_system == o,
                     },
                     Err(_) => {
-- 
2.43.0


From af81ef8c451de54d961c883273afabb3555ac7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:47 +0000
Subject: [PATCH 11/27] fix: no triple has the env "unknown" or "none"

target_env = "unknown" was satisfied by every target_lexicon::Triple
without an environment, and target_env = "none" by
x86_64-unknown-linux-none, unlike the same builtins.
---
 src/expr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index 4c646c3..3b22154 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -207,6 +207,9 @@ impl TargetMatcher for target_lexicon::Triple {
                             )
                         } else {
                             match env.0.parse::<Environment>() {
+                                // These mean the absence of an environment, for which rustc
+                                // uses the empty string
+                                Ok(Environment::Unknown | Environment::None) => false,
                                 Ok(e) => {
                                     // Rustc shortens multiple "gnu*" environments to just "gnu"
                                     if env == &targ::Env::gnu {
-- 
2.43.0


From 83da107bb4b2ab3e6061bbc76e5835659d64e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:47 +0000
Subject: [PATCH 12/27] fix: newlib triples do not also have the empty env

espidf and rtems triples satisfied target_env = "" in addition to
target_env = "newlib", unlike the same builtins.
---
 src/expr.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 3b22154..38c16c6 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -193,7 +193,15 @@ impl TargetMatcher for target_lexicon::Triple {
                     OperatingSystem::WasiP2 => env == &targ::Env::p2,
                     OperatingSystem::Wasi => env.0.is_empty() || env == &targ::Env::p1,
                     _ => {
-                        if env.0.is_empty() {
+                        // Always newlib, regardless of the environment in the triple
+                        let is_newlib = matches!(
+                            self.operating_system,
+                            OperatingSystem::Horizon | OperatingSystem::Espidf
+                        ) || self.vendor == RTEMS;
+
+                        if is_newlib {
+                            env == &targ::Env::newlib
+                        } else if env.0.is_empty() {
                             matches!(
                                 self.environment,
                                 Environment::Unknown
@@ -242,11 +250,6 @@ impl TargetMatcher for target_lexicon::Triple {
                                                 | Environment::Uclibceabi
                                                 | Environment::Uclibceabihf
                                         )
-                                    } else if env == &targ::Env::newlib {
-                                        matches!(
-                                            self.operating_system,
-                                            OperatingSystem::Horizon | OperatingSystem::Espidf
-                                        ) || self.vendor == RTEMS
                                     } else {
                                         self.environment == e
                                     }
-- 
2.43.0


From 8ae28c7a7eccad8588434c05db6a00b08cd77d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:47 +0000
Subject: [PATCH 13/27] fix: nuttx and rtems triples do not have the os
 "unknown"

They satisfied target_os = "unknown" in addition to their own, unlike
the same builtins.
---
 src/expr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index 38c16c6..0752df4 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -353,6 +353,10 @@ impl TargetMatcher for target_lexicon::Triple {
                         {
                             false
                         }
+                        // The os is in place of the vendor in these cases, see above
+                        _ if self.vendor == NUTTX || self.vendor == RTEMS => {
+                            self.operating_system == o && o != OperatingSystem::Unknown
+                        }
                         _ => self.operating_system == o,
                     },
                     Err(_) => {
-- 
2.43.0


From 1ca3bc5e7c89ad38784130a5127599a34082691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:47 +0000
Subject: [PATCH 14/27] fix: mips r6 triples do not have the arch of the older
 revisions

They satisfied target_arch = "mips" or "mips64" in addition to
"mips32r6" or "mips64r6", unlike the same builtins.
---
 src/expr.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index 0752df4..e779c84 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -148,6 +148,18 @@ impl TargetMatcher for target_lexicon::Triple {
                 } else {
                     match arch.0.parse::<Architecture>() {
                         Ok(a) => match (self.architecture, a) {
+                            // These are separate arches, handled above
+                            (
+                                Architecture::Mips32(
+                                    Mips32Architecture::Mipsisa32r6
+                                    | Mips32Architecture::Mipsisa32r6el,
+                                )
+                                | Architecture::Mips64(
+                                    Mips64Architecture::Mipsisa64r6
+                                    | Mips64Architecture::Mipsisa64r6el,
+                                ),
+                                _,
+                            ) => false,
                             (Architecture::Aarch64(_), Architecture::Aarch64(_))
                             | (Architecture::Mips32(_), Architecture::Mips32(_))
                             | (Architecture::Mips64(_), Architecture::Mips64(_))
-- 
2.43.0


From 43c0b1a3d940e3a60821611ba09bd7fa2337dc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:47 +0000
Subject: [PATCH 15/27] fix: match the vendor of esp and openwrt triples like
 their builtins

esp triples satisfied target_vendor = "unknown" in addition to
"espressif", and mips64-openwrt-linux-musl did not satisfy "unknown".
---
 src/expr.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index e779c84..20d81ec 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -400,9 +400,13 @@ impl TargetMatcher for target_lexicon::Triple {
                     {
                         true
                     } else if let target_lexicon::Vendor::Custom(custom) = &self.vendor {
-                        matches!(custom.as_str(), "esp" | "esp32" | "esp32s2" | "esp32s3")
-                            && (v == target_lexicon::Vendor::Espressif
-                                || v == target_lexicon::Vendor::Unknown)
+                        match custom.as_str() {
+                            "esp" | "esp32" | "esp32s2" | "esp32s3" => {
+                                v == target_lexicon::Vendor::Espressif
+                            }
+                            "openwrt" => v == target_lexicon::Vendor::Unknown,
+                            _ => false,
+                        }
                     } else {
                         false
                     }
-- 
2.43.0


From ab31dd6a5ffa2dbbd3ae73d5f3191e8536100fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:47 +0000
Subject: [PATCH 16/27] fix: emscripten triples for wasm64 are in the wasm and
 unix families

As the comment above states, and as is the case for wasm32.
---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 20d81ec..2b3a6e1 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -306,7 +306,7 @@ impl TargetMatcher for target_lexicon::Triple {
                     Emscripten => {
                         match self.architecture {
                             // asmjs, wasm32 and wasm64 are part of both the wasm and unix families
-                            Architecture::Asmjs | Architecture::Wasm32 => {
+                            Architecture::Asmjs | Architecture::Wasm32 | Architecture::Wasm64 => {
                                 fam == &crate::targets::Family::wasm
                                     || fam == &crate::targets::Family::unix
                             }
-- 
2.43.0


From 7adddba7a5b6d2eb428aaed9926bb85a6f97da0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:12 +0000
Subject: [PATCH 17/27] fix: match the os of Apple triples with a deployment
 target

Eg. x86_64-apple-ios7.0 did not satisfy target_os = "ios", and
x86_64-apple-macosx10.7.0 did not satisfy target_os = "macos", though
both were in the unix family.
---
 src/expr.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 2b3a6e1..d0604b1 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -352,6 +352,15 @@ impl TargetMatcher for target_lexicon::Triple {
                     )
                     || (os == &targ::Os::nuttx && self.vendor == NUTTX)
                     || (os == &targ::Os::rtems && self.vendor == RTEMS)
+                    // These may have a deployment target, which is not part of the os for rustc
+                    || (os == &targ::Os::ios
+                        && matches!(self.operating_system, OperatingSystem::IOS(_)))
+                    || (os == &targ::Os::tvos
+                        && matches!(self.operating_system, OperatingSystem::TvOS(_)))
+                    || (os == &targ::Os::visionos
+                        && matches!(self.operating_system, OperatingSystem::VisionOS(_)))
+                    || (os == &targ::Os::watchos
+                        && matches!(self.operating_system, OperatingSystem::WatchOS(_)))
                 {
                     return true;
                 }
@@ -373,9 +382,12 @@ impl TargetMatcher for target_lexicon::Triple {
                     },
                     Err(_) => {
                         // Handle special case for darwin/macos, where the triple is
-                        // "darwin", but rustc identifies the OS as "macos"
+                        // "darwin" or "macosx", but rustc identifies the OS as "macos"
                         if os == &targ::Os::macos
-                            && matches!(self.operating_system, OperatingSystem::Darwin(_))
+                            && matches!(
+                                self.operating_system,
+                                OperatingSystem::Darwin(_) | OperatingSystem::MacOSX(_)
+                            )
                         {
                             true
                         } else {
-- 
2.43.0


From 6309a0f7f570d364c01144a63defceb186a34866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:09 +0000
Subject: [PATCH 18/27] fix: only match the arch of a triple by the name rustc
 uses for it

Names which only LLVM uses also matched, eg. target_arch = "i686" was
satisfied by i686 triples, and "arm64" by aarch64 ones, unlike the same
builtins.
---
 src/expr.rs | 81 +++++++++++++++++------------------------------------
 1 file changed, 25 insertions(+), 56 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index d0604b1..26262df 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -116,62 +116,31 @@ impl TargetMatcher for target_lexicon::Triple {
                 false
             }
             Arch(arch) => {
-                if arch == &targ::Arch::x86 {
-                    matches!(self.architecture, Architecture::X86_32(_))
-                } else if arch == &targ::Arch::wasm32 {
-                    self.architecture == Architecture::Wasm32
-                        || self.architecture == Architecture::Asmjs
-                } else if arch == &targ::Arch::arm {
-                    matches!(self.architecture, Architecture::Arm(_))
-                } else if arch == &targ::Arch::bpf {
-                    self.architecture == Architecture::Bpfeb
-                        || self.architecture == Architecture::Bpfel
-                } else if arch == &targ::Arch::x86_64 {
-                    self.architecture == Architecture::X86_64
-                        || self.architecture == Architecture::X86_64h
-                } else if arch == &targ::Arch::mips32r6 {
-                    matches!(
-                        self.architecture,
-                        Architecture::Mips32(
-                            Mips32Architecture::Mipsisa32r6 | Mips32Architecture::Mipsisa32r6el
-                        )
-                    )
-                } else if arch == &targ::Arch::mips64r6 {
-                    matches!(
-                        self.architecture,
-                        Architecture::Mips64(
-                            Mips64Architecture::Mipsisa64r6 | Mips64Architecture::Mipsisa64r6el
-                        )
-                    )
-                } else if arch == &targ::Arch::amdgpu {
-                    self.architecture == Architecture::AmdGcn
-                } else {
-                    match arch.0.parse::<Architecture>() {
-                        Ok(a) => match (self.architecture, a) {
-                            // These are separate arches, handled above
-                            (
-                                Architecture::Mips32(
-                                    Mips32Architecture::Mipsisa32r6
-                                    | Mips32Architecture::Mipsisa32r6el,
-                                )
-                                | Architecture::Mips64(
-                                    Mips64Architecture::Mipsisa64r6
-                                    | Mips64Architecture::Mipsisa64r6el,
-                                ),
-                                _,
-                            ) => false,
-                            (Architecture::Aarch64(_), Architecture::Aarch64(_))
-                            | (Architecture::Mips32(_), Architecture::Mips32(_))
-                            | (Architecture::Mips64(_), Architecture::Mips64(_))
-                            | (Architecture::Powerpc64le, Architecture::Powerpc64)
-                            | (Architecture::Riscv32(_), Architecture::Riscv32(_))
-                            | (Architecture::Riscv64(_), Architecture::Riscv64(_))
-                            | (Architecture::Sparcv9, Architecture::Sparc64) => true,
-                            (a, b) => a == b,
-                        },
-                        Err(_) => false,
-                    }
-                }
+                // rustc only uses a single name for most families of architectures
+                let name = match self.architecture {
+                    Architecture::X86_32(_) => targ::Arch::x86,
+                    Architecture::Asmjs => targ::Arch::wasm32,
+                    Architecture::Arm(_) => targ::Arch::arm,
+                    Architecture::Aarch64(_) => targ::Arch::aarch64,
+                    Architecture::Bpfeb | Architecture::Bpfel => targ::Arch::bpf,
+                    Architecture::X86_64h => targ::Arch::x86_64,
+                    Architecture::Mips32(
+                        Mips32Architecture::Mipsisa32r6 | Mips32Architecture::Mipsisa32r6el,
+                    ) => targ::Arch::mips32r6,
+                    Architecture::Mips32(_) => targ::Arch::mips,
+                    Architecture::Mips64(
+                        Mips64Architecture::Mipsisa64r6 | Mips64Architecture::Mipsisa64r6el,
+                    ) => targ::Arch::mips64r6,
+                    Architecture::Mips64(_) => targ::Arch::mips64,
+                    Architecture::Powerpc64le => targ::Arch::powerpc64,
+                    Architecture::Riscv32(_) => targ::Arch::riscv32,
+                    Architecture::Riscv64(_) => targ::Arch::riscv64,
+                    Architecture::Sparcv9 => targ::Arch::sparc64,
+                    Architecture::AmdGcn => targ::Arch::amdgpu,
+                    other => targ::Arch::new(other.into_str()),
+                };
+
+                arch == &name
             }
             Endian(end) => match self.architecture.endianness() {
                 Ok(endian) => matches!(
-- 
2.43.0


From 2fd92638164bd337382c1dddc5348302639e893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:09 +0000
Subject: [PATCH 19/27] fix: only match the env of a triple by the name rustc
 uses for it

The environment in a triple may include the abi, or only be an abi, so
eg. target_env = "gnueabihf" or "eabi" was satisfied by triples with
them, unlike the same builtins.
---
 src/expr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index 26262df..7656823 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -232,7 +232,15 @@ impl TargetMatcher for target_lexicon::Triple {
                                                 | Environment::Uclibceabihf
                                         )
                                     } else {
+                                        // Everything else is part of the abi instead for rustc
                                         self.environment == e
+                                            && matches!(
+                                                e,
+                                                Environment::Msvc
+                                                    | Environment::Newlib
+                                                    | Environment::Ohos
+                                                    | Environment::Sgx
+                                            )
                                     }
                                 }
                                 Err(_) => false,
-- 
2.43.0


From dfa6b26e10da63bd78f5f4d00e2e7d16184cf4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:09 +0000
Subject: [PATCH 20/27] fix: only match the os of a triple by the name rustc
 uses for it

target_os = "darwin" was satisfied by macos triples, and "wasip1" or
"wasip2" by those of wasi, unlike the same builtins.
---
 src/expr.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index 7656823..a96c6bf 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -343,6 +343,13 @@ impl TargetMatcher for target_lexicon::Triple {
                 }
 
                 match os.0.parse::<OperatingSystem>() {
+                    // rustc uses macos and wasi instead of these
+                    Ok(
+                        OperatingSystem::Darwin(_)
+                        | OperatingSystem::MacOSX(_)
+                        | OperatingSystem::WasiP1
+                        | OperatingSystem::WasiP2,
+                    ) => false,
                     Ok(o) => match self.environment {
                         Environment::HermitKernel => os == &targ::Os::hermit,
                         // The os is android in this case, see below
-- 
2.43.0


From ea78fff6f90972532030072f10941ca3c5ba7824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:38 +0000
Subject: [PATCH 21/27] fix: only match the vendor of a triple by the name
 rustc uses for it

The vendor in the triple matched as well as the one that rustc uses, eg.
target_vendor = "nuttx" was satisfied by nuttx triples, unlike the same
builtins.
---
 src/expr.rs | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index a96c6bf..7df145d 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -388,27 +388,16 @@ impl TargetMatcher for target_lexicon::Triple {
                 // panic support depends on the OS. Assume false for this.
                 false
             }
-            Vendor(ven) => match ven.0.parse::<target_lexicon::Vendor>() {
-                Ok(v) => {
-                    if self.vendor == v
-                        || ((self.vendor == NUTTX || self.vendor == RTEMS)
-                            && ven == &targ::Vendor::unknown)
-                    {
-                        true
-                    } else if let target_lexicon::Vendor::Custom(custom) = &self.vendor {
-                        match custom.as_str() {
-                            "esp" | "esp32" | "esp32s2" | "esp32s3" => {
-                                v == target_lexicon::Vendor::Espressif
-                            }
-                            "openwrt" => v == target_lexicon::Vendor::Unknown,
-                            _ => false,
-                        }
-                    } else {
-                        false
-                    }
-                }
-                Err(_) => false,
-            },
+            Vendor(ven) => {
+                // rustc has no special vendor for some of the ones in its triples
+                let name = match self.vendor.as_str() {
+                    "nuttx" | "openwrt" | "rtems" => "unknown",
+                    "esp" | "esp32" | "esp32s2" | "esp32s3" => "espressif",
+                    vendor => vendor,
+                };
+
+                ven.as_str() == name
+            }
             PointerWidth(pw) => {
                 // The gnux32 environment is a special case, where it has an
                 // x86_64 architecture, but a 32-bit pointer width
-- 
2.43.0


From b107510e9c91b457a2b3d3a1bb7b59df440d7f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 22/27] fix: a parsed triple has at most one os

---
 src/expr.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 7df145d..d1956af 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -322,13 +322,20 @@ impl TargetMatcher for target_lexicon::Triple {
                 false
             }
             Os(os) => {
+                if self.environment == Environment::HermitKernel {
+                    return os == &targ::Os::hermit;
+                }
+
+                // Some operating systems take the place of the vendor
+                let has_os = self.operating_system != OperatingSystem::Unknown;
+
                 if os == &targ::Os::wasi
                     && matches!(
                         self.operating_system,
                         OperatingSystem::WasiP1 | OperatingSystem::WasiP2
                     )
-                    || (os == &targ::Os::nuttx && self.vendor == NUTTX)
-                    || (os == &targ::Os::rtems && self.vendor == RTEMS)
+                    || (os == &targ::Os::nuttx && self.vendor == NUTTX && !has_os)
+                    || (os == &targ::Os::rtems && self.vendor == RTEMS && !has_os)
                     // These may have a deployment target, which is not part of the os for rustc
                     || (os == &targ::Os::ios
                         && matches!(self.operating_system, OperatingSystem::IOS(_)))
@@ -351,7 +358,6 @@ impl TargetMatcher for target_lexicon::Triple {
                         | OperatingSystem::WasiP2,
                     ) => false,
                     Ok(o) => match self.environment {
-                        Environment::HermitKernel => os == &targ::Os::hermit,
                         // The os is android in this case, see below
                         Environment::Android | Environment::Androideabi
                             if o == OperatingSystem::Linux =>
-- 
2.43.0


From 786ef0620960f5b2ffcffee3cb0426ecf8effaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 23/27] fix: treat xros as visionos, as rustc does

---
 src/expr.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index d1956af..1a29952 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -254,7 +254,7 @@ impl TargetMatcher for target_lexicon::Triple {
                     Aix, AmdHsa, Bitrig, Cloudabi, Cuda, Darwin, Dragonfly, Emscripten, Espidf,
                     Freebsd, Fuchsia, Haiku, Hermit, Horizon, Hurd, IOS, Illumos, L4re, Linux,
                     MacOSX, Nebulet, Netbsd, None_, Openbsd, Redox, Solaris, TvOS, Uefi, Unknown,
-                    VisionOS, VxWorks, Wasi, WasiP1, WasiP2, WatchOS, Windows,
+                    VisionOS, VxWorks, Wasi, WasiP1, WasiP2, WatchOS, Windows, XROS,
                 };
 
                 match self.operating_system {
@@ -279,7 +279,8 @@ impl TargetMatcher for target_lexicon::Triple {
                     | TvOS(_)
                     | VisionOS(_)
                     | VxWorks
-                    | WatchOS(_) => fam == &crate::targets::Family::unix,
+                    | WatchOS(_)
+                    | XROS(_) => fam == &crate::targets::Family::unix,
                     Emscripten => {
                         match self.architecture {
                             // asmjs, wasm32 and wasm64 are part of both the wasm and unix families
@@ -342,7 +343,10 @@ impl TargetMatcher for target_lexicon::Triple {
                     || (os == &targ::Os::tvos
                         && matches!(self.operating_system, OperatingSystem::TvOS(_)))
                     || (os == &targ::Os::visionos
-                        && matches!(self.operating_system, OperatingSystem::VisionOS(_)))
+                        && matches!(
+                            self.operating_system,
+                            OperatingSystem::VisionOS(_) | OperatingSystem::XROS(_)
+                        ))
                     || (os == &targ::Os::watchos
                         && matches!(self.operating_system, OperatingSystem::WatchOS(_)))
                 {
@@ -350,10 +354,11 @@ impl TargetMatcher for target_lexicon::Triple {
                 }
 
                 match os.0.parse::<OperatingSystem>() {
-                    // rustc uses macos and wasi instead of these
+                    // rustc uses macos, visionos and wasi instead of these
                     Ok(
                         OperatingSystem::Darwin(_)
                         | OperatingSystem::MacOSX(_)
+                        | OperatingSystem::XROS(_)
                         | OperatingSystem::WasiP1
                         | OperatingSystem::WasiP2,
                     ) => false,
-- 
2.43.0


From ba96fb854bf3f60164573568ff9d97ba6c901567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 24/27] fix: an os with a deployment target matches no triple

---
 src/expr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 1a29952..0f9122c 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -360,7 +360,12 @@ impl TargetMatcher for target_lexicon::Triple {
                         | OperatingSystem::MacOSX(_)
                         | OperatingSystem::XROS(_)
                         | OperatingSystem::WasiP1
-                        | OperatingSystem::WasiP2,
+                        | OperatingSystem::WasiP2
+                        // nor is a deployment target ever part of the os
+                        | OperatingSystem::IOS(Some(_))
+                        | OperatingSystem::TvOS(Some(_))
+                        | OperatingSystem::VisionOS(Some(_))
+                        | OperatingSystem::WatchOS(Some(_)),
                     ) => false,
                     Ok(o) => match self.environment {
                         // The os is android in this case, see below
-- 
2.43.0


From aa3035e48d6fa7c784adcd23fddd1718760c3ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 25/27] fix: do not take the end of the line for part of the
 version

rustc prints nothing after its version when it was built without commit info
---
 update/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/update/src/main.rs b/update/src/main.rs
index 166b84c..5fa8f01 100644
--- a/update/src/main.rs
+++ b/update/src/main.rs
@@ -441,7 +441,7 @@ fn read_rustc_version() -> Result<(String, String), String> {
 
     let version = String::from_utf8(output.stdout).unwrap();
 
-    Ok((version.splitn(3, ' ').nth(1).unwrap().into(), rustc))
+    Ok((version.split_whitespace().nth(1).unwrap().into(), rustc))
 }
 
 fn assemble_readme(rustc_version: &str) -> Result<String, String> {
-- 
2.43.0


From fcdb917091b2ffb92fa7e5f4e2e81e467269ecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 26/27] fix: reject options whose value is not quoted when
 updating the targets

Their first and last characters were dropped, whichever they are
---
 update/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/update/src/main.rs b/update/src/main.rs
index 5fa8f01..7e4593b 100644
--- a/update/src/main.rs
+++ b/update/src/main.rs
@@ -113,7 +113,10 @@ fn assemble(version: &str, rustc: String) -> Result<String, String> {
                 }
                 Some(i) => {
                     let key = &line[..i];
-                    let val = &line[i + 2..line.len() - 1];
+                    let val = line[i + 1..]
+                        .strip_prefix('"')
+                        .and_then(|val| val.strip_suffix('"'))
+                        .ok_or_else(|| format!("value is not quoted: {line}"))?;
 
                     match key {
                         "panic" => {
-- 
2.43.0


From affa48734065e5f07525c7e063d4bba42cc0c621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:10 +0000
Subject: [PATCH 27/27] fix: use _ instead of - in the identifiers of all
 values

The update tool replaced it for abi, env, os and vendor only, so the list did
not compile once an arch, a family or a panic strategy (such as
immediate-abort) has a - in its name.
---
 update/src/main.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/update/src/main.rs b/update/src/main.rs
index 7e4593b..cedad5c 100644
--- a/update/src/main.rs
+++ b/update/src/main.rs
@@ -244,9 +244,7 @@ fn assemble(version: &str, rustc: String) -> Result<String, String> {
 
         let print_opt = |kind: &str, opt: Option<&str>| {
             if let Some(val) = opt {
-                // Use _ instead of - in identifiers.
-                let val = val.replace("-", "_");
-                format!("Some({kind}::{val})")
+                format!("Some({kind}::{})", ident(val))
             } else {
                 "None".into()
             }
@@ -270,12 +268,12 @@ fn assemble(version: &str, rustc: String) -> Result<String, String> {
             triple = target,
             os = print_opt("Os", os),
             abi = print_opt("Abi", abi),
-            arch = arch.expect("target had no arch"),
+            arch = ident(arch.expect("target had no arch")),
             env = print_opt("Env", env),
             vendor = print_opt("Vendor", vendor),
             width = width.expect("target had no pointer_width"),
             endian = endian.expect("target had no endian"),
-            panic = panic.expect("target had no panic"),
+            panic = ident(panic.expect("target had no panic")),
             //rel_model = print_opt("RelocationModel", relocation_model),
         )
         .unwrap();
@@ -312,12 +310,16 @@ fn assemble(version: &str, rustc: String) -> Result<String, String> {
     Ok(out)
 }
 
+/// The identifier for a value, which uses _ instead of -
+fn ident(val: &str) -> String {
+    val.replace("-", "_")
+}
+
 fn write_impls(out: &mut String, typ: &'static str, builtins: Vec<String>) {
     writeln!(out, "\nimpl super::{typ} {{").unwrap();
 
     for thing in builtins {
-        // Use _ instead of - in identifiers.
-        let ident = thing.replace("-", "_");
+        let ident = ident(&thing);
         writeln!(
             out,
             "pub const {ident}: {typ} = {typ}::new_const(\"{thing}\");"
@@ -338,11 +340,11 @@ trait GroupElement: Clone + Eq + Ord {
 
 impl GroupElement for String {
     fn value_expr(&self) -> String {
-        self.clone()
+        ident(self)
     }
 
     fn id_str(&self) -> String {
-        self.clone()
+        ident(self)
     }
 }
 
-- 
2.43.0

