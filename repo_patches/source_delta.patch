From a36cc9022fface81abea60f3515dca253aa7f8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 1/3] fix: don't re-validate the whole output every time its
 last char is needed

Every lookup of the last character decoded everything written so far,
so a short symbol which expands to several hundred kilobytes (by way of
backrefs) took time quadratic in the size of its output.
---
 src/demangler.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index fc12d3c..8ecc60d 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -119,10 +119,11 @@ mod writing {
         }
 
         fn last_char(&self) -> Option<char> {
-            match std::str::from_utf8(self.as_bytes()) {
-                Ok(string) => string.chars().next_back(),
-                Err(_) => None,
-            }
+            // a char is at most 4 bytes long, so only the tail of the buffer has to be decoded
+            let bytes = self.as_bytes();
+            let start = bytes.iter().rposition(|x| x & 0xC0 != 0x80)?;
+            let tail = std::str::from_utf8(&bytes[start..]).ok()?;
+            tail.chars().next_back()
         }
     }
 
-- 
2.43.0


From 3fcd6fd55797416df8240de35b3918776d5fa9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 2/3] fix: reject symbols which nest too deeply instead of
 overflowing the stack

Types, templates and local scopes are demangled recursively, so a symbol
such as '?x@@3' + 'PA' * 20000 + 'HA' overflowed the stack and aborted
the process.
---
 src/demangler.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/demangler.rs b/src/demangler.rs
index 8ecc60d..7e82ffd 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -239,12 +239,17 @@ enum FunctionIdentifierCodeGroup {
     DoubleUnder,
 }
 
+// Types, templates, and scopes nest arbitrarily deep, and each level costs us stack space.
+// No compiler emits a symbol anywhere near this deep, so bail before we run out of stack.
+const MAX_DEPTH: usize = 640;
+
 pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     mangled_name: MangledString<'string>,
     allocator: &'alloc Bump,
     cache: NodeCache<'alloc>,
     backrefs: BackrefContext,
     flags: OutputFlags,
+    depth: usize,
 }
 
 impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
@@ -259,9 +264,21 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             cache: NodeCache::new(allocator),
             backrefs: BackrefContext::default(),
             flags,
+            depth: 0,
         }
     }
 
+    fn descend<T>(&mut self, f: impl FnOnce(&mut Self) -> Result<T>) -> Result<T> {
+        if self.depth >= MAX_DEPTH {
+            return Err(Error::MaliciousInput);
+        }
+
+        self.depth += 1;
+        let result = f(self);
+        self.depth -= 1;
+        result
+    }
+
     pub(crate) fn parse_into(mut self, result: &mut String) -> Result<()> {
         // in case of error, we should give the allocated buffer back to the user
         macro_rules! safe_restore_buffer {
@@ -293,6 +310,10 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     }
 
     fn do_parse(&mut self) -> Result<NodeHandle<ISymbolNode>> {
+        self.descend(Self::demangle_symbol)
+    }
+
+    fn demangle_symbol(&mut self) -> Result<NodeHandle<ISymbolNode>> {
         // Typeinfo names are strings stored in RTTI data. They're not symbol names.
         // It's still useful to demangle them. They're the only demangled entity
         // that doesn't start with a "?" but a ".".
@@ -545,6 +566,10 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // <variable-type> ::= <type> <cvr-qualifiers>
     //                 ::= <type> <pointee-cvr-qualifiers> # pointers, references
     fn demangle_type(&mut self, qmm: QualifierMangleMode) -> Result<NodeHandle<ITypeNode>> {
+        self.descend(|this| this.demangle_nested_type(qmm))
+    }
+
+    fn demangle_nested_type(&mut self, qmm: QualifierMangleMode) -> Result<NodeHandle<ITypeNode>> {
         let quals = match qmm {
             QualifierMangleMode::Mangle => self.demangle_qualifiers()?.0,
             QualifierMangleMode::Result => {
@@ -1253,6 +1278,13 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     fn demangle_template_instantiation_name(
         &mut self,
         nbb: NameBackrefBehavior,
+    ) -> Result<NodeHandle<IIdentifierNode>> {
+        self.descend(|this| this.demangle_nested_template_instantiation_name(nbb))
+    }
+
+    fn demangle_nested_template_instantiation_name(
+        &mut self,
+        nbb: NameBackrefBehavior,
     ) -> Result<NodeHandle<IIdentifierNode>> {
         self.mangled_name
             .try_consume_str("?$")
-- 
2.43.0


From df6faf0d89690379a1aca6bbe8ab6ee4317fa27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 3/3] add fault injection points, off by default (--cfg
 undname_sim)

---
 src/cache.rs     |  5 +++++
 src/demangler.rs |  8 ++++++++
 src/lib.rs       |  5 +++++
 src/sim.rs       | 43 +++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 61 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/cache.rs b/src/cache.rs
index 725c6dc..2f0fc73 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -318,6 +318,11 @@ impl<'alloc> NodeCache<'alloc> {
         T: NodeToResolver + 'alloc,
         &'alloc mut T: Into<NodeStorage<'alloc>>,
     {
+        #[cfg(undname_sim)]
+        if crate::sim::refuse_node(self.storage.len()) {
+            return Err(Error::MaliciousInput);
+        }
+
         if self.storage.len() + 1 > (1 << 11) {
             // a mangled string with this many nodes is probably malformed... bail
             return Err(Error::MaliciousInput);
diff --git a/src/demangler.rs b/src/demangler.rs
index 7e82ffd..07d38d1 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -155,6 +155,14 @@ mod writing {
 
     impl<B: Buffer> io::Write for BufWriter<B> {
         fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+            #[cfg(undname_sim)]
+            if crate::sim::refuse_write(self.buffer.len_bytes(), buf.len()) {
+                return Err(io::Error::new(
+                    io::ErrorKind::OutOfMemory,
+                    Error::MaliciousInput,
+                ));
+            }
+
             let final_len = buf.len().checked_add(self.buffer.len_bytes());
             if matches!(final_len, Some(x) if x < (1 << 20)) {
                 self.buffer.write(buf)
diff --git a/src/lib.rs b/src/lib.rs
index fb353b0..3837a7f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,6 +15,7 @@
 #![doc = include_str!("../README.md")]
 #![warn(clippy::pedantic)]
 #![deny(clippy::undocumented_unsafe_blocks)]
+#![allow(unexpected_cfgs)]
 #![allow(
     clippy::missing_errors_doc,
     clippy::similar_names,
@@ -29,6 +30,10 @@ mod extensions;
 mod mangled_string;
 mod nodes;
 
+#[cfg(undname_sim)]
+#[doc(hidden)]
+pub mod sim;
+
 #[cfg(test)]
 mod tests;
 
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..d6df321
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,43 @@
+// Copyright 2024 Ryan McKenzie
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//    http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+//! Fault injection points for deterministic simulation. Only compiled with `--cfg undname_sim`.
+
+use std::sync::OnceLock;
+
+#[derive(Clone, Copy)]
+pub struct Hooks {
+    /// Called with the length of an output buffer, and how many bytes are about to be written to it.
+    /// The write is refused, as if the buffer was full, when this returns true.
+    pub refuse_write: fn(len: usize, incoming: usize) -> bool,
+
+    /// Called with the number of nodes in the cache, before a new one is added.
+    /// The node is refused, as if the cache was full, when this returns true.
+    pub refuse_node: fn(len: usize) -> bool,
+}
+
+static HOOKS: OnceLock<Hooks> = OnceLock::new();
+
+/// Installs `hooks` for the lifetime of the process. Only the first call has any effect.
+pub fn install(hooks: Hooks) {
+    _ = HOOKS.set(hooks);
+}
+
+pub(crate) fn refuse_write(len: usize, incoming: usize) -> bool {
+    HOOKS.get().is_some_and(|x| (x.refuse_write)(len, incoming))
+}
+
+pub(crate) fn refuse_node(len: usize) -> bool {
+    HOOKS.get().is_some_and(|x| (x.refuse_node)(len))
+}
-- 
2.43.0

