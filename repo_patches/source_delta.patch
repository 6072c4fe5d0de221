From 60d695c984c40ad88de2df9a700381a7920ed2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 01/42] fix: keep same-named symbols of other files when a
 file's symbols are updated

Updating one file dropped or replaced the entries other files define under the
same qualified name, and concurrent updates could leave stale entries behind.
---
 projects/oak-resolver/src/lib.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/projects/oak-resolver/src/lib.rs b/projects/oak-resolver/src/lib.rs
index c811aba..cc56327 100644
--- a/projects/oak-resolver/src/lib.rs
+++ b/projects/oak-resolver/src/lib.rs
@@ -68,30 +68,38 @@ impl ModuleResolver for StandardResolver {
 pub struct GlobalSymbolTable {
     /// Map of URI to symbols defined in that file.
     file_symbols: DashMap<String, Vec<SymbolInformation>>,
-    /// Map of fully qualified name to symbol information.
-    qualified_symbols: DashMap<String, SymbolInformation>,
+    /// Map of fully qualified name to the symbols with that name, each with
+    /// the URI of the file defining it, most recently added last.
+    qualified_symbols: DashMap<String, Vec<(String, SymbolInformation)>>,
+    /// Makes an update of both maps atomic for concurrent updates and queries.
+    guard: RwLock<()>,
 }
 
 impl GlobalSymbolTable {
     /// Creates a new, empty `GlobalSymbolTable`.
     pub fn new() -> Self {
-        Self { file_symbols: DashMap::new(), qualified_symbols: DashMap::new() }
+        Self { file_symbols: DashMap::new(), qualified_symbols: DashMap::new(), guard: RwLock::new(()) }
     }
 
     /// Add or update symbols for a file.
     pub fn update_file_symbols(&self, uri: String, symbols: Vec<SymbolInformation>) {
+        let _guard = self.guard.write().unwrap();
+
         // Remove old qualified symbols for this file
         if let Some((_, old_symbols)) = self.file_symbols.remove(&uri) {
             for sym in old_symbols {
                 let fqn = self.make_qualified_name(&sym);
-                self.qualified_symbols.remove(&fqn);
+                if let Some(mut definitions) = self.qualified_symbols.get_mut(&fqn) {
+                    definitions.retain(|(file, _)| *file != uri);
+                }
+                self.qualified_symbols.remove_if(&fqn, |_, definitions| definitions.is_empty());
             }
         }
 
         // Add new symbols
         for sym in &symbols {
             let fqn = self.make_qualified_name(sym);
-            self.qualified_symbols.insert(fqn, sym.clone());
+            self.qualified_symbols.entry(fqn).or_default().push((uri.clone(), sym.clone()));
         }
         self.file_symbols.insert(uri, symbols);
     }
@@ -105,17 +113,20 @@ impl GlobalSymbolTable {
 
     /// Lookup a symbol by its fully qualified name.
     pub fn lookup(&self, fqn: &str) -> Option<SymbolInformation> {
-        self.qualified_symbols.get(fqn).map(|r| r.value().clone())
+        let _guard = self.guard.read().unwrap();
+        self.qualified_symbols.get(fqn).and_then(|r| r.value().last().map(|(_, sym)| sym.clone()))
     }
 
     /// Get all symbols defined in a specific file.
     pub fn query_file(&self, uri: &str) -> Vec<SymbolInformation> {
+        let _guard = self.guard.read().unwrap();
         self.file_symbols.get(uri).map(|r| r.value().clone()).unwrap_or_default()
     }
 
     /// Find all symbols matching a query (for workspace/symbol).
     pub fn query(&self, query: &str) -> Vec<SymbolInformation> {
-        self.qualified_symbols.iter().filter(|r| r.key().contains(query)).map(|r| r.value().clone()).collect()
+        let _guard = self.guard.read().unwrap();
+        self.qualified_symbols.iter().filter(|r| r.key().contains(query)).flat_map(|r| r.value().iter().map(|(_, sym)| sym.clone()).collect::<Vec<_>>()).collect()
     }
 }
 
-- 
2.43.0


From 0cc7e0307dbbc8c0db20401c3dbcdbe59eb850fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 02/42] fix: resolve imports against workspace folders added or
 removed after initialization

---
 projects/oak-lsp/src/workspace.rs |  9 +++++++--
 projects/oak-resolver/src/lib.rs  | 18 +++++++++++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/projects/oak-lsp/src/workspace.rs b/projects/oak-lsp/src/workspace.rs
index 81c70e4..e72fb9a 100644
--- a/projects/oak-lsp/src/workspace.rs
+++ b/projects/oak-lsp/src/workspace.rs
@@ -48,14 +48,19 @@ impl WorkspaceManager {
     pub fn add_folder(&self, uri: String, _name: String) {
         if let Ok(url) = Url::parse(&uri) {
             if let Ok(path) = url.to_file_path() {
-                self.folders.insert(uri, path);
+                self.folders.insert(uri, path.clone());
+                self.resolver.add_root_dir(path);
             }
         }
     }
 
     /// Remove a workspace folder.
     pub fn remove_folder(&self, uri: &str) {
-        self.folders.remove(uri);
+        if let Some((_, path)) = self.folders.remove(uri) {
+            if !self.folders.iter().any(|entry| *entry.value() == path) {
+                self.resolver.remove_root_dir(&path);
+            }
+        }
     }
 
     /// Get the local path for a URI if it's within a workspace folder.
diff --git a/projects/oak-resolver/src/lib.rs b/projects/oak-resolver/src/lib.rs
index cc56327..9c235ae 100644
--- a/projects/oak-resolver/src/lib.rs
+++ b/projects/oak-resolver/src/lib.rs
@@ -6,7 +6,7 @@
 
 use dashmap::DashMap;
 use oak_symbols::SymbolInformation;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use url::Url;
 
 use std::sync::RwLock;
@@ -35,6 +35,22 @@ impl StandardResolver {
             *dirs = root_dirs;
         }
     }
+
+    /// Add a root directory to the end of the search order, unless it is already there.
+    pub fn add_root_dir(&self, root_dir: PathBuf) {
+        if let Ok(mut dirs) = self.root_dirs.write() {
+            if !dirs.contains(&root_dir) {
+                dirs.push(root_dir);
+            }
+        }
+    }
+
+    /// Remove a root directory from the search order.
+    pub fn remove_root_dir(&self, root_dir: &Path) {
+        if let Ok(mut dirs) = self.root_dirs.write() {
+            dirs.retain(|dir| dir != root_dir);
+        }
+    }
 }
 
 impl ModuleResolver for StandardResolver {
-- 
2.43.0


From cc834c86531c9cf69d8955b79e0ed9b095d4863c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 03/42] fix: search the root directories when the importing URI
 has no parent directory

---
 projects/oak-resolver/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/projects/oak-resolver/src/lib.rs b/projects/oak-resolver/src/lib.rs
index 9c235ae..acb0d5a 100644
--- a/projects/oak-resolver/src/lib.rs
+++ b/projects/oak-resolver/src/lib.rs
@@ -59,11 +59,12 @@ impl ModuleResolver for StandardResolver {
 
         if let Ok(base_url) = Url::parse(base_uri) {
             if let Ok(base_path) = base_url.to_file_path() {
-                let base_dir = base_path.parent()?;
-                let resolved_path = base_dir.join(import_path);
+                if let Some(base_dir) = base_path.parent() {
+                    let resolved_path = base_dir.join(import_path);
 
-                if resolved_path.exists() {
-                    return Url::from_file_path(resolved_path).ok().map(|u| u.to_string());
+                    if resolved_path.exists() {
+                        return Url::from_file_path(resolved_path).ok().map(|u| u.to_string());
+                    }
                 }
             }
         }
-- 
2.43.0


From 6b30fe9f87fdd6832e128f40369e1caa625f8c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 04/42] fix: apply an insertion before a replacement that
 starts at the same offset

---
 projects/oak-core/src/source/rope.rs | 3 ++-
 projects/oak-core/src/source/text.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/projects/oak-core/src/source/rope.rs b/projects/oak-core/src/source/rope.rs
index 5904e52..e3a97c1 100644
--- a/projects/oak-core/src/source/rope.rs
+++ b/projects/oak-core/src/source/rope.rs
@@ -51,7 +51,8 @@ impl RopeBuffer {
         }
 
         let mut order: Vec<usize> = (0..edits.len()).collect();
-        order.sort_by_key(|&i| edits[i].span.start);
+        // An insertion takes its place before a replacement starting at the same offset.
+        order.sort_by_key(|&i| (edits[i].span.start, edits[i].span.end));
 
         let mut reparse_from = old_len;
         let mut reparse_to = 0;
diff --git a/projects/oak-core/src/source/text.rs b/projects/oak-core/src/source/text.rs
index 8cfe25a..2ddc276 100644
--- a/projects/oak-core/src/source/text.rs
+++ b/projects/oak-core/src/source/text.rs
@@ -69,7 +69,8 @@ impl SourceText {
         }
 
         let mut order: Vec<usize> = (0..edits.len()).collect();
-        order.sort_by_key(|&i| edits[i].span.start);
+        // An insertion takes its place before a replacement starting at the same offset.
+        order.sort_by_key(|&i| (edits[i].span.start, edits[i].span.end));
 
         let mut reparse_from = old_len;
         let mut reparse_to = 0;
-- 
2.43.0


From f264b05a92119fb00bc1afc4b4607bd64690c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 05/42] fix: find strings across chunk boundaries without
 moving the cursor

---
 projects/oak-core/src/source/cursor.rs | 27 ++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/projects/oak-core/src/source/cursor.rs b/projects/oak-core/src/source/cursor.rs
index a550e28..5884ac1 100644
--- a/projects/oak-core/src/source/cursor.rs
+++ b/projects/oak-core/src/source/cursor.rs
@@ -423,27 +423,34 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
         let mut offset = self.offset;
         let end = self.source.length();
         while offset < end {
-            self.offset = offset;
-            self.ensure_chunk();
-            let text = self.chunk.slice_from(offset);
+            let chunk = self.source.chunk_at(offset);
+            let text = chunk.slice_from(offset);
             if let Some(pos) = text.find(pattern) {
                 return Some(offset + pos);
             }
-            let chunk_end = self.chunk.end();
+            let chunk_end = chunk.end();
             if chunk_end >= end {
                 return None;
             }
 
             if pat_len > 1 {
-                let keep = pat_len - 1;
+                // A match may start in the last characters of this chunk and extend over any number of following chunks.
+                let mut tail_start = text.len().saturating_sub(pat_len - 1);
+                while !text.is_char_boundary(tail_start) {
+                    tail_start += 1
+                }
+                let tail = &text[tail_start..];
                 self.scratch.clear();
-                let tail = text.get(text.len().saturating_sub(keep)..).unwrap_or("");
                 self.scratch.push_str(tail);
-                let tail_abs_start = chunk_end.saturating_sub(tail.len());
-                let next_chunk = self.source.chunk_at(chunk_end);
-                self.scratch.push_str(next_chunk.text);
+                let wanted = tail.len() + pat_len - 1;
+                let mut next = chunk_end;
+                while self.scratch.len() < wanted && next < end {
+                    let next_chunk = self.source.chunk_at(next);
+                    self.scratch.push_str(next_chunk.text);
+                    next = next_chunk.end()
+                }
                 if let Some(pos) = self.scratch.find(pattern) {
-                    return Some(tail_abs_start + pos);
+                    return Some(chunk_end - tail.len() + pos);
                 }
             }
 
-- 
2.43.0


From 28c299297531d29d8e50d7cd6838289da8fae951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 06/42] fix: resumed lexing re-lexes everything an edit can
 affect and keeps one end-of-stream token

---
 examples/oak-typescript/src/lexer/mod.rs |  4 +++-
 projects/oak-core/src/lexer/mod.rs       | 30 ++++++++++++++----------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/examples/oak-typescript/src/lexer/mod.rs b/examples/oak-typescript/src/lexer/mod.rs
index 692df1d..743c4fc 100644
--- a/examples/oak-typescript/src/lexer/mod.rs
+++ b/examples/oak-typescript/src/lexer/mod.rs
@@ -24,7 +24,9 @@ impl<'config> Lexer<TypeScriptLanguage> for TypeScriptLexer<'config> {
         let mut state: State<'_, S> = LexerState::new_with_cache(text, relex_from, cache);
 
         let result = self.run(&mut state);
-        if result.is_ok() {
+        // Tokens that are reused in full already end with the end-of-stream token
+        let has_eof = state.get_tokens().last().is_some_and(|t| t.kind == TypeScriptTokenType::Eof);
+        if result.is_ok() && !has_eof {
             state.add_eof()
         }
         state.finish_with_cache(result, cache)
diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index 0e17a44..28cabe1 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -289,14 +289,17 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
         let len = source.length();
         let relex_from = relex_from.min(len);
 
-        // Fast path: fully re-used
-        if relex_from >= len {
+        // Fast path: fully re-used. Only possible when the cached tokens end where the source ends,
+        // otherwise the text after the last cached token (or the cached tokens after the end of a
+        // shortened text) would be missed.
+        let count = cache.count_tokens();
+        let cached_end = cache.get_token(count.saturating_sub(1)).map(|t| t.span.end);
+        if relex_from >= len && cached_end == Some(len) {
             let mut tokens = Vec::new();
             if let Some(cached) = cache.get_tokens() {
                 tokens.extend_from_slice(cached)
             }
             else {
-                let count = cache.count_tokens();
                 tokens.reserve(count);
                 for i in 0..count {
                     if let Some(t) = cache.get_token(i) {
@@ -304,8 +307,7 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
                     }
                 }
             }
-            let offset = tokens.last().map(|t| t.span.end).unwrap_or(0).min(len);
-            return Self { cursor: SourceCursor::new_at(source, offset), tokens, errors: vec![] };
+            return Self { cursor: SourceCursor::new_at(source, len), tokens, errors: vec![] };
         }
 
         if relex_from == 0 {
@@ -313,19 +315,17 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
         }
 
         let mut reused_tokens = Vec::new();
-        const BACKTRACK_TOKENS: usize = 1;
+        // A lexer may decide where a token ends from up to two characters after it (`1.` and `1.5`,
+        // `..` and `...`), which can be in the next two tokens.
+        const BACKTRACK_TOKENS: usize = 2;
 
         if let Some(cached) = cache.get_tokens() {
             // Binary search for the cut-off point since tokens are sorted by position
             let idx = cached.partition_point(|t| t.span.end <= relex_from);
-            let keep = idx.saturating_sub(BACKTRACK_TOKENS);
-            if keep > 0 {
-                reused_tokens.extend_from_slice(&cached[..keep])
-            }
+            reused_tokens.extend_from_slice(&cached[..idx])
         }
         else {
             // Fallback for caches that don't support slice access
-            let count = cache.count_tokens();
             for i in 0..count {
                 let Some(token) = cache.get_token(i)
                 else {
@@ -338,10 +338,14 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
                     break;
                 }
             }
-            let keep = reused_tokens.len().saturating_sub(BACKTRACK_TOKENS);
-            reused_tokens.truncate(keep);
         }
 
+        // Empty tokens (such as the end-of-stream token) do not count as backtracking
+        while reused_tokens.last().is_some_and(|t| t.span.start == t.span.end) {
+            reused_tokens.pop();
+        }
+        reused_tokens.truncate(reused_tokens.len().saturating_sub(BACKTRACK_TOKENS));
+
         let stable_offset = reused_tokens.last().map(|t| t.span.end).unwrap_or(0);
         Self { cursor: SourceCursor::new_at(source, stable_offset), tokens: reused_tokens, errors: vec![] }
     }
-- 
2.43.0


From edb008bc07784576b4e03c0d0d6a0a45c18de105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 07/42] fix: a session no longer offers a tree from a dropped
 arena after a failed parse

---
 projects/oak-core/src/parser/session.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/projects/oak-core/src/parser/session.rs b/projects/oak-core/src/parser/session.rs
index 5723601..694585c 100644
--- a/projects/oak-core/src/parser/session.rs
+++ b/projects/oak-core/src/parser/session.rs
@@ -35,6 +35,8 @@ pub struct ParseSession<L: Language + Send + Sync> {
     arena_old: Option<SyntaxArena>,
     /// Pointer to the root of the last parsed tree.
     last_root: Cell<Option<NonNull<()>>>,
+    /// Whether the current generation has been committed.
+    committed: Cell<bool>,
     /// Full output from the last lexing pass.
     last_lex: Option<LexOutput<L>>,
 }
@@ -51,7 +53,7 @@ impl<L: Language + Send + Sync> Default for ParseSession<L> {
 impl<L: Language + Send + Sync> ParseSession<L> {
     /// Creates a new parse session.
     pub fn new(capacity: usize) -> Self {
-        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), last_lex: None }
+        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), committed: Cell::new(false), last_lex: None }
     }
 
     /// Returns the root of the last parsed tree.
@@ -83,6 +85,12 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
     }
 
     fn prepare_generation(&mut self) {
+        // 0. If the current generation was never committed (the parse failed), last_root still
+        //    points into the old arena, which is about to be dropped.
+        if !self.committed.replace(false) {
+            self.last_root.set(None)
+        }
+
         // 1. Move active to old. Oldest is dropped.
         self.arena_old = Some(std::mem::replace(&mut self.arena_active, SyntaxArena::new(16)));
 
@@ -94,6 +102,7 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
     fn commit_generation(&self, root: &GreenNode<L>) {
         // Safety: We cast to void pointer because ParseSession manages the lifetime.
         unsafe { self.last_root.set(Some(NonNull::new_unchecked(root as *const _ as *mut ()))) }
+        self.committed.set(true)
     }
 }
 
-- 
2.43.0


From 5f10dac371261fe91a7410bcbcddc0a6d49b213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 08/42] fix: reuse a node only when its tokens and the token
 after it are unchanged

---
 projects/oak-core/src/parser/state.rs | 63 ++++++++++++++-------------
 projects/oak-core/src/tree/cursor.rs  | 13 +++++-
 2 files changed, 45 insertions(+), 31 deletions(-)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 28f3785..7717a52 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -25,6 +25,19 @@ pub fn deep_clone_node<'a, L: Language>(node: &GreenNode<'_, L>, arena: &'a Synt
     arena.alloc(new_node)
 }
 
+/// Checks that the leaves of `node` are the tokens from `index` tokens after the current one, one by
+/// one, and moves `index` past them.
+fn matches_tokens<L: Language>(node: &GreenNode<'_, L>, tokens: &TokenSource<L>, index: &mut usize) -> bool {
+    node.children.iter().all(|child| match child {
+        GreenTree::Node(n) => matches_tokens(n, tokens, index),
+        GreenTree::Leaf(l) => {
+            let same = tokens.peek_at(*index).is_some_and(|t| t.kind == l.kind && t.length() == l.length as usize && l.metadata.is_none());
+            *index += 1;
+            same
+        }
+    })
+}
+
 /// Provides tokens to the parser.
 pub struct TokenSource<L: Language> {
     tokens: Tokens<L>,
@@ -183,14 +196,12 @@ impl<'a, L: Language> IncrementalContext<'a, L> {
         Some((new_pos as isize - current_delta) as usize)
     }
 
+    /// Checks whether an edit touches the old text from `old_start` to `old_end`.
+    ///
+    /// Text inserted at `old_end` counts, because it changes what follows; text that ends at
+    /// `old_start` does not.
     fn is_dirty(&self, old_start: usize, old_end: usize) -> bool {
-        for (old_range, _) in &self.edits {
-            // Check for overlap between [old_start, old_end) and [old_range.start, old_range.end)
-            if old_start < old_range.end && old_end > old_range.start {
-                return true;
-            }
-        }
-        false
+        self.edits.iter().any(|(old_range, _)| old_range.end > old_start && old_range.start <= old_end)
     }
 }
 
@@ -557,35 +568,27 @@ impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
             if start == target_old_pos {
                 if let Some(node) = inc.cursor.as_node() {
                     if node.kind == kind {
-                        if !inc.is_dirty(start, end) {
-                            // Verify tokens
-                            let node_len = node.text_len() as usize;
-
-                            // Check token stream
+                        // A node depends on its own tokens and on the token after it, at which the
+                        // parser decided that the node is complete.
+                        let following = inc.cursor.following_leaf();
+                        let following_len = following.map(|leaf| leaf.length as usize).unwrap_or(0);
+                        if !inc.is_dirty(start, end + following_len) {
                             let mut lookahead = 0;
-                            let mut current_pos = new_pos;
-                            let target_new_end = new_pos + node_len;
-
-                            while let Some(t) = self.tokens.peek_at(lookahead) {
-                                if t.span.start != current_pos {
-                                    // Token stream doesn't match expected positions
-                                    break;
-                                }
-                                current_pos = t.span.end;
-
-                                if t.span.end == target_new_end {
-                                    // Found the end!
-                                    let tokens_consumed = lookahead + 1;
+                            let matches = matches_tokens(node, &self.tokens, &mut lookahead) && lookahead > 0;
+                            // Together with the equal lengths this rules out gaps between the tokens
+                            if matches && self.tokens.peek_at(lookahead - 1).is_some_and(|t| t.span.end == new_pos + (end - start)) {
+                                let next = self.tokens.peek_at(lookahead);
+                                let same_next = match following {
+                                    Some(leaf) => next.is_some_and(|t| t.kind == leaf.kind && t.length() == leaf.length as usize),
+                                    None => next.is_none_or(|t| t.kind == L::TokenType::END_OF_STREAM),
+                                };
+                                if same_next {
                                     let new_node = deep_clone_node(node, self.sink.arena);
                                     self.sink.push_node(new_node);
-                                    self.tokens.set_index(current_index + tokens_consumed);
+                                    self.tokens.set_index(current_index + lookahead);
                                     inc.cursor.step_over();
                                     return true;
                                 }
-                                else if t.span.end > target_new_end {
-                                    break;
-                                }
-                                lookahead += 1;
                             }
                         }
                     }
diff --git a/projects/oak-core/src/tree/cursor.rs b/projects/oak-core/src/tree/cursor.rs
index 664be62..2654749 100644
--- a/projects/oak-core/src/tree/cursor.rs
+++ b/projects/oak-core/src/tree/cursor.rs
@@ -6,7 +6,7 @@
 
 use crate::{
     Language,
-    tree::{GreenNode, GreenTree},
+    tree::{GreenLeaf, GreenNode, GreenTree},
 };
 
 /// A cursor for traversing a GreenTree.
@@ -107,6 +107,17 @@ impl<'a, L: Language> Cursor<'a, L> {
         }
     }
 
+    /// Returns the first leaf after the current element without moving the cursor.
+    pub fn following_leaf(&self) -> Option<GreenLeaf<L>> {
+        fn first_leaf<L: Language>(tree: &GreenTree<'_, L>) -> Option<GreenLeaf<L>> {
+            match tree {
+                GreenTree::Node(node) => node.children.iter().find_map(first_leaf),
+                GreenTree::Leaf(leaf) => Some(*leaf),
+            }
+        }
+        self.stack.iter().rev().find_map(|(parent, idx, _)| parent.children[idx + 1..].iter().find_map(first_leaf))
+    }
+
     /// Tries to move to the parent node.
     /// Returns true if successful (not at root).
     pub fn step_out(&mut self) -> bool {
-- 
2.43.0


From f6e0e4c41d0aaa1de76492ab3fc29a613cbadf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 09/42] fix: free arena chunks that do not fit in the chunk
 pool

---
 projects/oak-core/src/memory/arena.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/projects/oak-core/src/memory/arena.rs b/projects/oak-core/src/memory/arena.rs
index cf47615..5d8b5da 100644
--- a/projects/oak-core/src/memory/arena.rs
+++ b/projects/oak-core/src/memory/arena.rs
@@ -325,18 +325,18 @@ impl SyntaxArena {
     unsafe fn recycle_chunk(ptr: NonNull<u8>, size: usize) {
         if size == CHUNK_SIZE {
             // Only pool standard-sized chunks to maintain predictability.
-            let _ = CHUNK_POOL.try_with(|pool| {
+            let pooled = CHUNK_POOL.try_with(|pool| {
                 let mut pool = pool.borrow_mut();
-                if pool.len() < 64 {
-                    // Hard limit to prevent memory bloating per thread.
+                // Hard limit to prevent memory bloating per thread.
+                let has_room = pool.len() < 64;
+                if has_room {
                     pool.push(ptr)
                 }
+                has_room
             });
-            // If try_with fails (e.g. during thread destruction), we just leak or dealloc?
-            // Since we can't access pool, we should dealloc.
-            // But try_with error usually means TLS is gone.
-            // We can check error kind. For simplicity, we just fallback to dealloc if pool is unreachable.
-            return;
+            if pooled.unwrap_or(false) {
+                return;
+            }
         }
         // If not pooled (either because it's a huge chunk or the pool is full/unreachable), deallocate immediately.
         let layout = Layout::from_size_align(size, ALIGN).unwrap();
-- 
2.43.0


From 8790f1e163494c83a7a1b6cd7b340f38a7bac672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:19 +0000
Subject: [PATCH 10/42] fix: lexing an emptied text again kept the cached end
 of the old text

---
 projects/oak-core/src/lexer/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index 28cabe1..fdd1921 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -289,6 +289,10 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
         let len = source.length();
         let relex_from = relex_from.min(len);
 
+        if relex_from == 0 {
+            return Self { cursor: SourceCursor::new(source), tokens: vec![], errors: vec![] };
+        }
+
         // Fast path: fully re-used. Only possible when the cached tokens end where the source ends,
         // otherwise the text after the last cached token (or the cached tokens after the end of a
         // shortened text) would be missed.
@@ -310,10 +314,6 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
             return Self { cursor: SourceCursor::new_at(source, len), tokens, errors: vec![] };
         }
 
-        if relex_from == 0 {
-            return Self { cursor: SourceCursor::new(source), tokens: vec![], errors: vec![] };
-        }
-
         let mut reused_tokens = Vec::new();
         // A lexer may decide where a token ends from up to two characters after it (`1.` and `1.5`,
         // `..` and `...`), which can be in the next two tokens.
-- 
2.43.0


From 19cd6b1124b9ba494600d96aaa4043b7c868b062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:19 +0000
Subject: [PATCH 11/42] fix: free a thread's pooled arena chunks when the
 thread exits

---
 projects/oak-core/src/memory/arena.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/projects/oak-core/src/memory/arena.rs b/projects/oak-core/src/memory/arena.rs
index 5d8b5da..3830305 100644
--- a/projects/oak-core/src/memory/arena.rs
+++ b/projects/oak-core/src/memory/arena.rs
@@ -60,7 +60,19 @@ const ALIGN: usize = 8;
 // - **Automatic Cleanup:** All chunks are either recycled into this pool or freed when
 //   the `SyntaxArena` is dropped.
 thread_local! {
-    static CHUNK_POOL: RefCell<Vec<NonNull<u8>>> = RefCell::new(Vec::with_capacity(16))
+    static CHUNK_POOL: RefCell<ChunkPool> = RefCell::new(ChunkPool(Vec::with_capacity(16)))
+}
+
+/// The pooled chunks of a thread, all of `CHUNK_SIZE`, which are freed when the thread exits.
+struct ChunkPool(Vec<NonNull<u8>>);
+
+impl Drop for ChunkPool {
+    fn drop(&mut self) {
+        let layout = Layout::from_size_align(CHUNK_SIZE, ALIGN).unwrap();
+        for ptr in self.0.drain(..) {
+            unsafe { dealloc(ptr.as_ptr(), layout) }
+        }
+    }
 }
 
 /// A high-performance bump allocator optimized for AST nodes.
@@ -277,7 +289,7 @@ impl SyntaxArena {
     unsafe fn alloc_chunk(size: usize) -> NonNull<u8> {
         // Try to get from pool if size matches the standard chunk size.
         if size == CHUNK_SIZE {
-            let ptr = CHUNK_POOL.try_with(|pool| pool.borrow_mut().pop());
+            let ptr = CHUNK_POOL.try_with(|pool| pool.borrow_mut().0.pop());
 
             if let Ok(Some(ptr)) = ptr {
                 return ptr;
@@ -326,7 +338,7 @@ impl SyntaxArena {
         if size == CHUNK_SIZE {
             // Only pool standard-sized chunks to maintain predictability.
             let pooled = CHUNK_POOL.try_with(|pool| {
-                let mut pool = pool.borrow_mut();
+                let pool = &mut pool.borrow_mut().0;
                 // Hard limit to prevent memory bloating per thread.
                 let has_room = pool.len() < 64;
                 if has_room {
-- 
2.43.0


From 54e325554846e3e69acac456e2f63feeb6b78c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 12/42] fix: a resumed lexer no longer ends fully reused tokens
 with a second end of stream

Done in LexerState::add_eof for every language; the change to the TypeScript example is undone.
---
 examples/oak-typescript/src/lexer/mod.rs | 4 +---
 projects/oak-core/src/lexer/mod.rs       | 4 ++++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/examples/oak-typescript/src/lexer/mod.rs b/examples/oak-typescript/src/lexer/mod.rs
index 743c4fc..692df1d 100644
--- a/examples/oak-typescript/src/lexer/mod.rs
+++ b/examples/oak-typescript/src/lexer/mod.rs
@@ -24,9 +24,7 @@ impl<'config> Lexer<TypeScriptLanguage> for TypeScriptLexer<'config> {
         let mut state: State<'_, S> = LexerState::new_with_cache(text, relex_from, cache);
 
         let result = self.run(&mut state);
-        // Tokens that are reused in full already end with the end-of-stream token
-        let has_eof = state.get_tokens().last().is_some_and(|t| t.kind == TypeScriptTokenType::Eof);
-        if result.is_ok() && !has_eof {
+        if result.is_ok() {
             state.add_eof()
         }
         state.finish_with_cache(result, cache)
diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index fdd1921..c4518f5 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -696,6 +696,10 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
     #[inline]
     pub fn add_eof(&mut self) {
         let end = self.get_position();
+        // Cached tokens that were reused in full already end with the end-of-stream token
+        if self.tokens.last().is_some_and(|t| t.kind == L::TokenType::END_OF_STREAM && t.span.start == end && t.span.end == end) {
+            return;
+        }
         self.add_token(L::TokenType::END_OF_STREAM, end, end)
     }
 
-- 
2.43.0


From 6b73a426c90cffde408f871727de69b03745965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 13/42] fix: edit the shell's line at the cursor's character,
 not at that byte

---
 projects/oak-repl/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/projects/oak-repl/src/lib.rs b/projects/oak-repl/src/lib.rs
index e1004e0..4d86ba1 100644
--- a/projects/oak-repl/src/lib.rs
+++ b/projects/oak-repl/src/lib.rs
@@ -104,9 +104,16 @@ impl LineBuffer {
         Self { lines: vec![String::new()], current_line: 0, cursor_pos: 0 }
     }
 
+    /// The byte offset of the cursor in the current line (the cursor position counts characters).
+    fn cursor_offset(&self) -> usize {
+        let line = &self.lines[self.current_line];
+        line.char_indices().nth(self.cursor_pos).map_or(line.len(), |(offset, _)| offset)
+    }
+
     /// Insert a character at the current cursor position.
     pub fn insert(&mut self, ch: char) {
-        self.lines[self.current_line].insert(self.cursor_pos, ch);
+        let offset = self.cursor_offset();
+        self.lines[self.current_line].insert(offset, ch);
         self.cursor_pos += 1;
     }
 
@@ -114,7 +121,8 @@ impl LineBuffer {
     pub fn backspace(&mut self) -> bool {
         if self.cursor_pos > 0 {
             self.cursor_pos -= 1;
-            self.lines[self.current_line].remove(self.cursor_pos);
+            let offset = self.cursor_offset();
+            self.lines[self.current_line].remove(offset);
             true
         }
         else if self.current_line > 0 {
-- 
2.43.0


From 626107cb5fe9d7b8719f46a052f8ca91d8f0d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 14/42] fix: attach the source to errors about an unexpected
 end of file

---
 projects/oak-core/src/errors/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/oak-core/src/errors/mod.rs b/projects/oak-core/src/errors/mod.rs
index 5f5bef3..5bb09da 100644
--- a/projects/oak-core/src/errors/mod.rs
+++ b/projects/oak-core/src/errors/mod.rs
@@ -471,6 +471,7 @@ impl OakError {
             OakErrorKind::SyntaxError { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::UnexpectedCharacter { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::UnexpectedToken { source_id: u, .. } => *u = Some(source_id),
+            OakErrorKind::UnexpectedEof { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::ExpectedToken { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::ExpectedName { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::TrailingCommaNotAllowed { source_id: u, .. } => *u = Some(source_id),
-- 
2.43.0


From d79c3db14aa65e29612e5e05e2c9ec261b4b412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 15/42] fix: label the whole character an error points at, and
 the end of the file for an unexpected end

---
 projects/oak-diagnostic/src/lib.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index b1dcc49..f396e67 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -126,6 +126,14 @@ pub trait OakDiagnosticsProvider<L: oak_core::Language> {
     }
 }
 
+/// The range of the character at the given offset (empty at the end of the source).
+fn character_at<S: Source + ?Sized>(source: &S, offset: usize) -> core::range::Range<usize> {
+    let start = offset.min(source.length());
+    let chunk = source.chunk_at(start);
+    let width = chunk.text.get(start.saturating_sub(chunk.start)..).and_then(|text| text.chars().next()).map_or(0, char::len_utf8);
+    core::range::Range { start, end: start + width }
+}
+
 impl DiagnosticProvider for OakError {
     fn to_diagnostic<S: Source + ?Sized>(&self, source: &S) -> Diagnostic {
         let kind = self.kind();
@@ -136,30 +144,20 @@ impl DiagnosticProvider for OakError {
 
         match kind {
             OakErrorKind::IoError { .. } => {}
-            OakErrorKind::SyntaxError { offset, .. } | OakErrorKind::UnexpectedCharacter { offset, .. } => {
-                let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
-                diag = diag.with_label(core::range::Range { start, end }, "here");
+            OakErrorKind::SyntaxError { offset, .. } | OakErrorKind::UnexpectedCharacter { offset, .. } | OakErrorKind::UnexpectedEof { offset, .. } => {
+                diag = diag.with_label(character_at(source, *offset), "here");
             }
             OakErrorKind::UnexpectedToken { token, offset, .. } => {
-                let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
-                diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("token", token.clone());
+                diag = diag.with_label(character_at(source, *offset), "here").with_arg("token", token.clone());
             }
             OakErrorKind::ExpectedToken { expected, offset, .. } => {
-                let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
-                diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("expected", expected.clone());
+                diag = diag.with_label(character_at(source, *offset), "here").with_arg("expected", expected.clone());
             }
             OakErrorKind::ExpectedName { name_kind, offset, .. } => {
-                let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
-                diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("name_kind", name_kind.clone());
+                diag = diag.with_label(character_at(source, *offset), "here").with_arg("name_kind", name_kind.clone());
             }
             OakErrorKind::TrailingCommaNotAllowed { offset, .. } => {
-                let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
-                diag = diag.with_label(core::range::Range { start, end }, "here");
+                diag = diag.with_label(character_at(source, *offset), "here");
             }
             _ => {}
         }
-- 
2.43.0


From 645c1dadadbc215d1d6b83918bde66b2d7b85d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 16/42] fix: answer requests the tool server cannot read, and
 keep serving after them

---
 projects/oak-mcp/src/lib.rs | 44 ++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/projects/oak-mcp/src/lib.rs b/projects/oak-mcp/src/lib.rs
index d185f11..aebba0c 100644
--- a/projects/oak-mcp/src/lib.rs
+++ b/projects/oak-mcp/src/lib.rs
@@ -120,25 +120,15 @@ where
         R: tokio::io::AsyncBufRead + Unpin,
         W: tokio::io::AsyncWrite + Unpin,
     {
-        let mut line = String::new();
+        let mut line = Vec::new();
 
-        while reader.read_line(&mut line).await.map_err(|e| e.to_string())? > 0 {
-            let input = line.trim();
-            if input.is_empty() {
-                line.clear();
-                continue;
-            }
-
-            if let Ok(request) = JsonRpcRequest::from_json(input) {
-                let response = self.handle_request(request).await;
+        while reader.read_until(b'\n', &mut line).await.map_err(|e| e.to_string())? > 0 {
+            if let Some(response) = self.handle_message(&line).await {
                 let response_json = response.to_json();
                 writer.write_all(response_json.as_bytes()).await.map_err(|e| e.to_string())?;
                 writer.write_all(b"\n").await.map_err(|e| e.to_string())?;
                 writer.flush().await.map_err(|e| e.to_string())?;
             }
-            else if let Ok(notification) = JsonRpcNotification::from_json(input) {
-                self.handle_notification(notification).await
-            }
 
             line.clear()
         }
@@ -146,6 +136,34 @@ where
         Ok(())
     }
 
+    /// Handles a line of input and returns the response to it, if it needs one.
+    async fn handle_message(&self, line: &[u8]) -> Option<JsonRpcResponse> {
+        let error = |id: JsonValue, code: i32, message: String| Some(JsonRpcResponse { jsonrpc: "2.0".to_string(), id, result: None, error: Some(JsonRpcError { code, message, data: None }) });
+
+        let input = match std::str::from_utf8(line) {
+            Ok(text) => text.trim(),
+            Err(e) => return error(JsonValue::Null, -32700, format!("Parse error: {}", e)),
+        };
+        if input.is_empty() {
+            return None;
+        }
+
+        if let Ok(request) = JsonRpcRequest::from_json(input) {
+            return Some(self.handle_request(request).await);
+        }
+        if let Ok(notification) = JsonRpcNotification::from_json(input) {
+            self.handle_notification(notification).await;
+            return None;
+        }
+
+        match serde_json::from_str::<JsonValue>(input) {
+            // A response needs no answer
+            Ok(message) if message.get("method").is_none() && (message.get("result").is_some() || message.get("error").is_some()) => None,
+            Ok(message) => error(message.get("id").cloned().unwrap_or(JsonValue::Null), -32600, "Invalid request".to_string()),
+            Err(e) => error(JsonValue::Null, -32700, format!("Parse error: {}", e)),
+        }
+    }
+
     /// Handles an incoming JSON-RPC request and returns a response.
     /// Handles a single JSON-RPC request and returns a response.
     pub async fn handle_request(&self, request: JsonRpcRequest) -> JsonRpcResponse {
-- 
2.43.0


From 8ececab06b6abefad2c7c84f5dc07e82b1e1ed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:28 +0000
Subject: [PATCH 17/42] fix: serve the advertised tools set_file_content and
 search

---
 projects/oak-mcp/src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/projects/oak-mcp/src/lib.rs b/projects/oak-mcp/src/lib.rs
index aebba0c..9a005f2 100644
--- a/projects/oak-mcp/src/lib.rs
+++ b/projects/oak-mcp/src/lib.rs
@@ -8,6 +8,7 @@
 
 use oak_core::Range;
 use oak_lsp::service::LanguageService;
+use oak_vfs::WritableVfs;
 use serde::{Deserialize, Serialize};
 use serde_json::{Value as JsonValue, json};
 use std::sync::Arc;
@@ -97,7 +98,7 @@ pub struct McpServer<S: LanguageService, E: SemanticSearch = NoSemanticSearch> {
 
 impl<S: LanguageService + 'static> McpServer<S, NoSemanticSearch>
 where
-    S::Vfs: oak_vfs::WritableVfs,
+    S::Vfs: WritableVfs,
 {
     /// Creates a new MCP server with the given language service and no semantic searcher.
     pub fn new(service: S) -> Self {
@@ -107,7 +108,7 @@ where
 
 impl<S: LanguageService + 'static, E: SemanticSearch + 'static> McpServer<S, E>
 where
-    S::Vfs: oak_vfs::WritableVfs,
+    S::Vfs: WritableVfs,
 {
     /// Adds a semantic searcher to the MCP server.
     pub fn with_searcher<NewE: SemanticSearch>(self, searcher: NewE) -> McpServer<S, NewE> {
@@ -233,7 +234,8 @@ where
     /// Currently supports:
     /// - `hover`: Get hover information for a position.
     /// - `definitions`: Get definitions for a symbol at a position.
-    /// - `search`: Perform semantic search (if searcher is available).
+    /// - `set_file_content`: Replace the content of a file.
+    /// - `search`, `semantic_search`: Perform semantic search (if searcher is available).
     pub async fn handle_tool_call(&self, name: &str, args: JsonValue) -> Result<JsonValue, String> {
         match name {
             "hover" => {
@@ -275,7 +277,14 @@ where
                 let _items = self.service.completion(uri, offset).await;
                 Ok(json!([]))
             }
-            "semantic_search" => {
+            "set_file_content" => {
+                let uri = args.get("uri").and_then(|v| v.as_str()).ok_or("Missing uri")?;
+                let content = args.get("content").and_then(|v| v.as_str()).ok_or("Missing content")?;
+
+                self.service.vfs().write_file(uri, content.to_string().into());
+                Ok(json!(null))
+            }
+            "search" | "semantic_search" => {
                 let searcher = self.searcher.as_ref().ok_or("Semantic search is not enabled")?;
                 let query = args.get("query").and_then(|v| v.as_str()).ok_or("Missing query")?;
                 let limit = args.get("limit").and_then(|v| v.as_u64()).unwrap_or(5) as usize;
-- 
2.43.0


From f3ec3065d3a901c06c6d799fd4ca110bc7ef214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 18/42] fix: measure printed lines in characters, not bytes

---
 projects/oak-pretty-print/src/document/printer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/oak-pretty-print/src/document/printer.rs b/projects/oak-pretty-print/src/document/printer.rs
index 8847c13..33e3904 100644
--- a/projects/oak-pretty-print/src/document/printer.rs
+++ b/projects/oak-pretty-print/src/document/printer.rs
@@ -36,7 +36,7 @@ impl Printer {
             Document::Nil => {}
             Document::Text(s) => {
                 self.output.push_str(s);
-                self.column += s.len()
+                self.column += s.chars().count()
             }
             Document::Concat(docs) => {
                 for d in docs {
@@ -112,7 +112,7 @@ impl Printer {
         match doc {
             Document::Nil => false,
             Document::Text(s) => {
-                *width += s.len();
+                *width += s.chars().count();
                 *width > self.config.max_width
             }
             Document::Concat(docs) => {
-- 
2.43.0


From 3654b8279c60a68c528516b2fccc82fea408b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 19/42] fix: highlighting left out text the tree does not cover

---
 projects/oak-highlight/src/highlighter/mod.rs | 44 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/projects/oak-highlight/src/highlighter/mod.rs b/projects/oak-highlight/src/highlighter/mod.rs
index 2673395..4cade9e 100644
--- a/projects/oak-highlight/src/highlighter/mod.rs
+++ b/projects/oak-highlight/src/highlighter/mod.rs
@@ -268,6 +268,35 @@ pub struct HighlightVisitor<'a, 't> {
     pub source: &'a str,
 }
 
+impl<'a, 't> HighlightVisitor<'a, 't> {
+    /// The end of the text that the segments cover so far.
+    fn covered(&self) -> usize {
+        self.segments.last().map_or(0, |segment| segment.span.end)
+    }
+
+    /// Adds a segment for the text between the last segment and `end`, which belongs to no token.
+    fn fill_to(&mut self, end: usize) {
+        let start = self.covered();
+        if start < end {
+            let style = self.theme.resolve_style("none");
+            self.segments.push(HighlightSegment { span: HighlightSpan { start, end }, style, text: Cow::Borrowed(&self.source[start..end]) });
+        }
+    }
+
+    /// Adds segments for the tokens, and for the text that no token covers.
+    fn visit_tokens<L: Language>(&mut self, tokens: &[oak_core::Token<L::TokenType>]) {
+        for token in tokens {
+            let Range { start, end } = token.span;
+            // Text that is not a slice of the remaining source is left to the next token.
+            if start >= self.covered() && self.source.get(start..end).is_some() {
+                self.fill_to(start);
+                <Self as Visitor<L>>::visit_token(self, RedLeaf { kind: token.kind, span: token.span })
+            }
+        }
+        self.fill_to(self.source.len())
+    }
+}
+
 impl<'a, 't, 'tree, L: Language> Visitor<'tree, L> for HighlightVisitor<'a, 't> {
     fn visit_node(&mut self, node: RedNode<'tree, L>) {
         // Elements usually don't have direct colors unless they override token styles.
@@ -285,7 +314,10 @@ impl<'a, 't, 'tree, L: Language> Visitor<'tree, L> for HighlightVisitor<'a, 't>
         let scopes = get_token_scopes(token.kind.role(), L::NAME, L::CATEGORY);
         let style = self.theme.resolve_styles(&scopes);
 
-        let text = &self.source[token.span.start..token.span.end];
+        let Some(text) = self.source.get(token.span.start..token.span.end)
+        else {
+            return;
+        };
 
         self.segments.push(HighlightSegment { span: HighlightSpan { start: token.span.start, end: token.span.end }, style, text: Cow::Borrowed(text) });
     }
@@ -355,7 +387,7 @@ impl OakHighlighter {
         Ok(HighlightResult { segments, source: Cow::Borrowed(source) })
     }
 
-    pub fn highlight_with_language<'a, L, P, LX>(&self, source: &'a str, theme: crate::themes::Theme, parser: &P, _lexer: &LX) -> oak_core::errors::ParseResult<HighlightResult<'a>>
+    pub fn highlight_with_language<'a, L, P, LX>(&self, source: &'a str, theme: crate::themes::Theme, parser: &P, lexer: &LX) -> oak_core::errors::ParseResult<HighlightResult<'a>>
     where
         L: Language + Send + Sync + 'static,
         P: oak_core::parser::Parser<L>,
@@ -370,10 +402,18 @@ impl OakHighlighter {
         let mut visitor = HighlightVisitor { theme: &theme_config, segments: Vec::new(), source };
 
         let root_node = parse_result.result.map_err(|e| e)?;
+
         let red_root = RedNode::new(root_node, 0);
 
         <HighlightVisitor<'a, '_> as Visitor<L>>::visit_node(&mut visitor, red_root);
 
+        if visitor.segments.iter().map(|segment| segment.text.len()).sum::<usize>() != source.len() {
+            // The tree lacks tokens, so its offsets are not those of the source.
+            visitor.segments.clear();
+            let lexed = lexer.lex(&source_text, &[], &mut oak_core::parser::session::ParseSession::<L>::new(1024));
+            visitor.visit_tokens::<L>(&lexed.result?)
+        }
+
         Ok(HighlightResult { segments: visitor.segments, source: Cow::Borrowed(source) })
     }
 
-- 
2.43.0


From e8c0c863a513698a6b1eba9d5c1f085934d2e176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 20/42] fix: the disk file system never identified its files

---
 projects/oak-vfs/src/vfs/disk.rs | 45 ++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/projects/oak-vfs/src/vfs/disk.rs b/projects/oak-vfs/src/vfs/disk.rs
index f909c15..b4e17f5 100644
--- a/projects/oak-vfs/src/vfs/disk.rs
+++ b/projects/oak-vfs/src/vfs/disk.rs
@@ -3,7 +3,15 @@ use oak_core::{
     Arc,
     source::{SourceId, SourceText},
 };
-use std::{collections::HashMap, fs, path::PathBuf, sync::RwLock};
+use std::{
+    collections::HashMap,
+    fs,
+    path::PathBuf,
+    sync::{
+        RwLock,
+        atomic::{AtomicU32, Ordering},
+    },
+};
 
 /// A virtual file system that reads from and writes to the physical disk.
 pub struct DiskVfs {
@@ -11,6 +19,8 @@ pub struct DiskVfs {
     uri_to_id: RwLock<HashMap<Arc<str>, SourceId>>,
     /// Mapping from source IDs back to file URIs.
     id_to_uri: RwLock<HashMap<SourceId, Arc<str>>>,
+    /// The next source ID to assign.
+    next_id: AtomicU32,
     /// Base path for relative URIs.
     root_path: PathBuf,
 }
@@ -18,7 +28,7 @@ pub struct DiskVfs {
 impl DiskVfs {
     /// Creates a new DiskVfs instance with the given root path.
     pub fn new(root_path: PathBuf) -> Self {
-        Self { uri_to_id: RwLock::new(HashMap::new()), id_to_uri: RwLock::new(HashMap::new()), root_path }
+        Self { uri_to_id: RwLock::new(HashMap::new()), id_to_uri: RwLock::new(HashMap::new()), next_id: AtomicU32::new(0), root_path }
     }
 
     /// Converts a URI to a physical file path.
@@ -27,6 +37,27 @@ impl DiskVfs {
         if path.is_absolute() { Some(path) } else { Some(self.root_path.join(path)) }
     }
 
+    /// Returns the source ID of a URI, assigning one the first time.
+    fn assign_id(&self, uri: &str) -> SourceId {
+        let mut uri_to_id = self.uri_to_id.write().unwrap();
+        if let Some(id) = uri_to_id.get(uri) {
+            return *id;
+        }
+        let id = self.next_id.fetch_add(1, Ordering::SeqCst);
+        let uri: Arc<str> = Arc::from(uri);
+        self.id_to_uri.write().unwrap().insert(id, uri.clone());
+        uri_to_id.insert(uri, id);
+        id
+    }
+
+    /// Forgets the source ID of a URI.
+    fn release_id(&self, uri: &str) {
+        let mut uri_to_id = self.uri_to_id.write().unwrap();
+        if let Some(id) = uri_to_id.remove(uri) {
+            self.id_to_uri.write().unwrap().remove(&id);
+        }
+    }
+
     /// Converts a physical file path to a URI.
     fn path_to_uri(&self, path: PathBuf) -> Arc<str> {
         let uri = if path.is_absolute() { path.to_string_lossy().to_string() } else { path.strip_prefix(&self.root_path).unwrap_or(&path).to_string_lossy().to_string() };
@@ -41,7 +72,7 @@ impl Vfs for DiskVfs {
     fn get_source(&self, uri: &str) -> Option<Self::Source> {
         let path = self.uri_to_path(uri)?;
         let content = fs::read_to_string(path).ok()?;
-        Some(SourceText::new(&*content))
+        Some(SourceText::new_with_id(&*content, self.assign_id(uri)))
     }
 
     /// Returns the URI for a given source ID.
@@ -105,14 +136,18 @@ impl WritableVfs for DiskVfs {
             if let Some(parent) = path.parent() {
                 let _ = fs::create_dir_all(parent);
             }
-            let _ = fs::write(path, content.as_ref());
+            if fs::write(path, content.as_ref()).is_ok() {
+                self.assign_id(uri);
+            }
         }
     }
 
     /// Removes a file from disk at the specified URI.
     fn remove_file(&self, uri: &str) {
         if let Some(path) = self.uri_to_path(uri) {
-            let _ = fs::remove_file(path);
+            if fs::remove_file(path).is_ok() {
+                self.release_id(uri);
+            }
         }
     }
 }
-- 
2.43.0


From a84fc198335f74946efc96f9586dd19b9ac4b9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:34 +0000
Subject: [PATCH 21/42] fix: tree layouts route their edges, so that renderings
 show them

---
 projects/oak-visualize/src/tree/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/oak-visualize/src/tree/mod.rs b/projects/oak-visualize/src/tree/mod.rs
index 4337796..33c852b 100644
--- a/projects/oak-visualize/src/tree/mod.rs
+++ b/projects/oak-visualize/src/tree/mod.rs
@@ -412,7 +412,10 @@ impl TreeLayout {
     /// Recursively add edges from the given node to all its descendants
     fn add_tree_edges(&self, node: &TreeNode, layout: &mut Layout) {
         for child in &node.children {
-            let edge = Edge::new(node.id.clone(), child.id.clone());
+            let mut edge = Edge::new(node.id.clone(), child.id.clone());
+            if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&node.id), layout.nodes.get(&child.id)) {
+                edge = edge.with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+            }
             layout.add_edge(edge);
 
             // Recursively add edges for children
-- 
2.43.0


From 7b22caca325ec8aaf68e5b14745c06e4bbab0367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:34 +0000
Subject: [PATCH 22/42] fix: SVG rendering escapes labels and attributes and
 writes one class per element

---
 projects/oak-visualize/src/render/mod.rs | 54 +++++++++++++++++-------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/projects/oak-visualize/src/render/mod.rs b/projects/oak-visualize/src/render/mod.rs
index e704a16..12ee614 100644
--- a/projects/oak-visualize/src/render/mod.rs
+++ b/projects/oak-visualize/src/render/mod.rs
@@ -106,6 +106,21 @@ impl ElementStyle {
     }
 }
 
+/// Escapes text for use in XML content and in quoted XML attribute values
+fn escape_xml(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '"' => escaped.push_str("&quot;"),
+            _ => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 /// SVG renderer for layouts
 pub struct SvgRenderer {
     config: RenderConfig,
@@ -148,7 +163,7 @@ impl SvgRenderer {
         svg.push('\n');
 
         // Background
-        svg.push_str(&format!(r#"  <rect width="100%" height="100%" fill="{}"/>"#, self.config.background_color));
+        svg.push_str(&format!(r#"  <rect width="100%" height="100%" fill="{}"/>"#, escape_xml(&self.config.background_color)));
         svg.push('\n');
 
         // Define styles
@@ -173,7 +188,7 @@ impl SvgRenderer {
                 self.config.arrow_size,
                 self.config.arrow_size,
                 self.config.arrow_size,
-                self.config.edge_color
+                escape_xml(&self.config.edge_color)
             ));
             svg.push('\n')
         }
@@ -209,18 +224,19 @@ impl SvgRenderer {
         let stroke_width = style.and_then(|s| s.stroke_width).unwrap_or(self.config.node_stroke_width);
 
         // Node rectangle
-        svg.push_str(&format!(r#"    <rect x="{}" y="{}" width="{}" height="{}" fill="{}" stroke="{}" stroke-width="{}" class="node""#, rect.origin.x, rect.origin.y, rect.size.width, rect.size.height, fill_color, stroke_color, stroke_width));
+        svg.push_str(&format!(r#"    <rect x="{}" y="{}" width="{}" height="{}" fill="{}" stroke="{}" stroke-width="{}""#, rect.origin.x, rect.origin.y, rect.size.width, rect.size.height, escape_xml(fill_color), escape_xml(stroke_color), stroke_width));
+        match style.and_then(|s| s.class_name.as_ref()) {
+            Some(class) => svg.push_str(&format!(r#" class="node {}""#, escape_xml(class))),
+            None => svg.push_str(r#" class="node""#),
+        }
 
         // Add custom attributes
         if let Some(style) = style {
             if let Some(opacity) = style.opacity {
                 svg.push_str(&format!(r#" opacity="{}""#, opacity))
             }
-            if let Some(class) = &style.class_name {
-                svg.push_str(&format!(r#" class="node {}""#, class))
-            }
             for (key, value) in &style.attributes {
-                svg.push_str(&format!(r#" {}="{}""#, key, value))
+                svg.push_str(&format!(r#" {}="{}""#, key, escape_xml(value)))
             }
         }
 
@@ -234,7 +250,12 @@ impl SvgRenderer {
             let center = rect.center();
             svg.push_str(&format!(
                 r#"    <text x="{}" y="{}" text-anchor="middle" dominant-baseline="central" fill="{}" font-size="{}" font-family="{}" class="label">{}</text>"#,
-                center.x, center.y, text_color, text_size, self.config.font_family, node.label
+                center.x,
+                center.y,
+                escape_xml(text_color),
+                text_size,
+                escape_xml(&self.config.font_family),
+                escape_xml(&node.label)
             ));
             svg.push('\n')
         }
@@ -261,7 +282,11 @@ impl SvgRenderer {
             path_data.push_str(&format!(" L {} {}", point.x, point.y))
         }
 
-        svg.push_str(&format!(r#"    <path d="{}" stroke="{}" stroke-width="{}" fill="none" class="edge""#, path_data, stroke_color, stroke_width));
+        svg.push_str(&format!(r#"    <path d="{}" stroke="{}" stroke-width="{}" fill="none""#, path_data, escape_xml(stroke_color), stroke_width));
+        match style.and_then(|s| s.class_name.as_ref()) {
+            Some(class) => svg.push_str(&format!(r#" class="edge {}""#, escape_xml(class))),
+            None => svg.push_str(r#" class="edge""#),
+        }
 
         // Add arrow marker for directed edges
         if self.config.show_arrows {
@@ -273,11 +298,8 @@ impl SvgRenderer {
             if let Some(opacity) = style.opacity {
                 svg.push_str(&format!(r#" opacity="{}""#, opacity))
             }
-            if let Some(class) = &style.class_name {
-                svg.push_str(&format!(r#" class="edge {}""#, class))
-            }
             for (key, value) in &style.attributes {
-                svg.push_str(&format!(r#" {}="{}""#, key, value))
+                svg.push_str(&format!(r#" {}="{}""#, key, escape_xml(value)))
             }
         }
 
@@ -301,10 +323,10 @@ impl SvgRenderer {
                 r#"    <text x="{}" y="{}" text-anchor="middle" dominant-baseline="central" fill="{}" font-size="{}" font-family="{}" class="label">{}</text>"#,
                 mid_point.x,
                 mid_point.y - 5.0, // Offset slightly above the edge
-                text_color,
+                escape_xml(text_color),
                 text_size,
-                self.config.font_family,
-                label
+                escape_xml(&self.config.font_family),
+                escape_xml(label)
             ));
             svg.push('\n')
         }
-- 
2.43.0


From 7c03f4308c8ba9eb6d70673daad9d24fe34e14c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:37 +0000
Subject: [PATCH 23/42] fix: Graph::is_connected does not depend on the start
 node and counts only nodes of the graph

---
 projects/oak-visualize/src/graph/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index a7cbe15..7526f49 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -137,15 +137,18 @@ impl Graph {
         let mut stack = vec![start_node.as_str()];
 
         while let Some(node) = stack.pop() {
-            if visited.contains(node) {
+            // Edges may lead to nodes that are not part of the graph
+            if !self.nodes.contains_key(node) || !visited.insert(node) {
                 continue;
             }
 
-            visited.insert(node);
-
-            for neighbor in self.get_neighbors(node) {
-                if !visited.contains(neighbor) {
-                    stack.push(neighbor);
+            // Follow edges both ways, so that the result does not depend on the start node
+            for edge in &self.edges {
+                if edge.from == node {
+                    stack.push(edge.to.as_str());
+                }
+                if edge.to == node {
+                    stack.push(edge.from.as_str());
                 }
             }
         }
-- 
2.43.0


From de1649003f6a2d8fffe30ff4806fb879dfb73644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:37 +0000
Subject: [PATCH 24/42] fix: Graph::find_cycles does not report an undirected
 edge as a cycle

---
 projects/oak-visualize/src/graph/mod.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index 7526f49..73161bc 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -164,21 +164,36 @@ impl Graph {
 
         for node_id in self.nodes.keys() {
             if !visited.contains(node_id) {
-                self.dfs_cycles(node_id, &mut visited, &mut rec_stack, &mut path, &mut cycles);
+                self.dfs_cycles(node_id, None, &mut visited, &mut rec_stack, &mut path, &mut cycles);
             }
         }
 
         cycles
     }
 
-    fn dfs_cycles(&self, node: &str, visited: &mut HashSet<String>, rec_stack: &mut HashSet<String>, path: &mut Vec<String>, cycles: &mut Vec<Vec<String>>) {
+    fn dfs_cycles(&self, node: &str, via: Option<usize>, visited: &mut HashSet<String>, rec_stack: &mut HashSet<String>, path: &mut Vec<String>, cycles: &mut Vec<Vec<String>>) {
         visited.insert(node.to_string());
         rec_stack.insert(node.to_string());
         path.push(node.to_string());
 
-        for neighbor in self.get_neighbors(node) {
+        for (index, edge) in self.edges.iter().enumerate() {
+            let neighbor = if edge.from == node {
+                edge.to.as_str()
+            }
+            else if !self.directed && edge.to == node {
+                edge.from.as_str()
+            }
+            else {
+                continue;
+            };
+
+            // Going back over an undirected edge does not close a cycle
+            if !self.directed && via == Some(index) {
+                continue;
+            }
+
             if !visited.contains(neighbor) {
-                self.dfs_cycles(neighbor, visited, rec_stack, path, cycles);
+                self.dfs_cycles(neighbor, Some(index), visited, rec_stack, path, cycles);
             }
             else if rec_stack.contains(neighbor) {
                 // Found a cycle
-- 
2.43.0


From fa90a77072d6141ffd126affbf229c65f694dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:37 +0000
Subject: [PATCH 25/42] fix: graph layouts keep the labels of edges

---
 projects/oak-visualize/src/graph/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index 73161bc..6302ac9 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -381,7 +381,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
@@ -418,7 +419,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
@@ -461,7 +463,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
@@ -500,7 +503,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
-- 
2.43.0


From f70f2c6e66b63152d932412a973de750dd9334b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:37 +0000
Subject: [PATCH 26/42] fix: hierarchical graph layout accepts edges to unknown
 nodes

---
 projects/oak-visualize/src/graph/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index 6302ac9..c69c60e 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -537,7 +537,12 @@ impl GraphLayout {
 
         // Calculate in-degrees
         for edge in &graph.edges {
-            *in_degree.get_mut(&edge.to).unwrap() += 1;
+            // Edges may lead to nodes that are not part of the graph
+            if graph.nodes.contains_key(&edge.from) {
+                if let Some(degree) = in_degree.get_mut(&edge.to) {
+                    *degree += 1;
+                }
+            }
         }
 
         // Process layers
-- 
2.43.0


From ff183ce49f6cb820407c8db6a85e02f594d82c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:37 +0000
Subject: [PATCH 27/42] fix: layout engines keep the labels and types of nodes

---
 projects/oak-visualize/src/layout/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index 8729ca6..b47f926 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -221,8 +221,10 @@ impl LayoutEngine for HierarchicalLayout {
         };
 
         // Add nodes to layout
-        for (id, rect) in positioned_nodes {
-            layout.add_node(id, rect);
+        for node in nodes {
+            if let Some(rect) = positioned_nodes.get(&node.id) {
+                layout.add_node_with_metadata(node.id.clone(), node.label.clone(), *rect, node.node_type);
+            }
         }
 
         // Add edges with routing
@@ -347,7 +349,7 @@ impl LayoutEngine for ForceDirectedLayout {
         for node in nodes {
             if let Some(position) = positions.get(&node.id) {
                 let rect = Rect::new(Point::new(position.x - node.size.width / 2.0, position.y - node.size.height / 2.0), node.size);
-                layout.add_node(node.id.clone(), rect)
+                layout.add_node_with_metadata(node.id.clone(), node.label.clone(), rect, node.node_type)
             }
         }
 
-- 
2.43.0


From b87730dbbd4af154a6ec05465c3885370e6bdfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:37 +0000
Subject: [PATCH 28/42] fix: hierarchical layout places nodes on cycles and
 accepts edges to unknown nodes

---
 projects/oak-visualize/src/layout/mod.rs | 26 +++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index b47f926..fc3b01d 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -394,20 +394,36 @@ fn build_hierarchy(nodes: &[LayoutNode], edges: &[LayoutEdge]) -> crate::Result<
     }
 
     let mut roots = Vec::new();
+    let mut path = Vec::new();
+    let mut placed = std::collections::HashSet::new();
     for node in nodes {
         if !has_parent.contains(&node.id) {
-            roots.push(build_hierarchy_node(&node.id, nodes, &children_map))
+            roots.extend(build_hierarchy_node(&node.id, nodes, &children_map, &mut path, &mut placed))
+        }
+    }
+
+    // Nodes that no root leads to lie on cycles or behind them
+    for node in nodes {
+        if !placed.contains(&node.id) {
+            roots.extend(build_hierarchy_node(&node.id, nodes, &children_map, &mut path, &mut placed))
         }
     }
 
     Ok(roots)
 }
 
-fn build_hierarchy_node(id: &str, nodes: &[LayoutNode], children_map: &HashMap<String, Vec<String>>) -> HierarchyNode {
-    let node = nodes.iter().find(|n| n.id == id).unwrap();
-    let children = children_map.get(id).map(|child_ids| child_ids.iter().map(|child_id| build_hierarchy_node(child_id, nodes, children_map)).collect()).unwrap_or_default();
+/// Builds the hierarchy below a node, leaving out unknown nodes and edges that lead back to an ancestor.
+fn build_hierarchy_node(id: &str, nodes: &[LayoutNode], children_map: &HashMap<String, Vec<String>>, path: &mut Vec<String>, placed: &mut std::collections::HashSet<String>) -> Option<HierarchyNode> {
+    if path.iter().any(|ancestor| ancestor == id) {
+        return None;
+    }
+    let node = nodes.iter().find(|n| n.id == id)?;
+    placed.insert(id.to_string());
+    path.push(id.to_string());
+    let children = children_map.get(id).map(|child_ids| child_ids.iter().filter_map(|child_id| build_hierarchy_node(child_id, nodes, children_map, path, placed)).collect()).unwrap_or_default();
+    path.pop();
 
-    HierarchyNode { id: id.to_string(), children, size: node.size }
+    Some(HierarchyNode { id: id.to_string(), children, size: node.size })
 }
 
 fn layout_top_down(hierarchy: &[HierarchyNode], config: &LayoutConfig) -> HashMap<String, Rect> {
-- 
2.43.0


From 598aad4071d51b4613ac33fe76702a9428b20f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 29/42] fix: bottom-up and right-left layouts run in their own
 direction

---
 projects/oak-visualize/src/layout/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index fc3b01d..747edfd 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -478,12 +478,24 @@ fn layout_node_left_right(node: &HierarchyNode, x: &mut f64, y: f64, config: &La
 
 fn layout_bottom_up(hierarchy: &[HierarchyNode], config: &LayoutConfig) -> HashMap<String, Rect> {
     // Similar to top_down but reversed
-    layout_top_down(hierarchy, config)
+    let mut positions = layout_top_down(hierarchy, config);
+    let top = positions.values().map(|rect| rect.min_y()).fold(f64::INFINITY, f64::min);
+    let bottom = positions.values().map(|rect| rect.max_y()).fold(f64::NEG_INFINITY, f64::max);
+    for rect in positions.values_mut() {
+        rect.origin.y = top + bottom - rect.max_y();
+    }
+    positions
 }
 
 fn layout_right_left(hierarchy: &[HierarchyNode], config: &LayoutConfig) -> HashMap<String, Rect> {
     // Similar to left_right but reversed
-    layout_left_right(hierarchy, config)
+    let mut positions = layout_left_right(hierarchy, config);
+    let left = positions.values().map(|rect| rect.min_x()).fold(f64::INFINITY, f64::min);
+    let right = positions.values().map(|rect| rect.max_x()).fold(f64::NEG_INFINITY, f64::max);
+    for rect in positions.values_mut() {
+        rect.origin.x = left + right - rect.max_x();
+    }
+    positions
 }
 
 fn route_edge(from_rect: &Rect, to_rect: &Rect, from_id: &str, to_id: &str, label: Option<String>) -> Edge {
-- 
2.43.0


From 237ae3403318ab6ea931981fb675b0b47d6e1c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 30/42] fix: force-directed layout keeps nodes with an edge to
 themselves in place

---
 projects/oak-visualize/src/layout/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index 747edfd..66fe4c0 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -325,7 +325,7 @@ impl LayoutEngine for ForceDirectedLayout {
             for edge in edges {
                 if let (Some(pos1), Some(pos2)) = (positions.get(&edge.from), positions.get(&edge.to)) {
                     let diff = *pos2 - *pos1;
-                    let distance = pos1.distance_to(pos2);
+                    let distance = pos1.distance_to(pos2).max(f64::MIN_POSITIVE);
                     let ideal_length = config.horizontal_spacing;
                     let force_magnitude = self.spring_strength * (distance - ideal_length);
                     let force_direction = Point::new(diff.x / distance, diff.y / distance);
-- 
2.43.0


From 36345ad4ce7e779bd120bda31d4ad3ae1f1b8254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 31/42] fix: layered tree layout keeps nodes of different
 widths apart

---
 projects/oak-visualize/src/tree/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/oak-visualize/src/tree/mod.rs b/projects/oak-visualize/src/tree/mod.rs
index 33c852b..83b7068 100644
--- a/projects/oak-visualize/src/tree/mod.rs
+++ b/projects/oak-visualize/src/tree/mod.rs
@@ -319,10 +319,10 @@ impl TreeLayout {
         let current_x = current_positions.get(&level).unwrap_or(&default_x);
 
         let x = if level == 0 {
-            0.0 // Root at center
+            -node_size.width / 2.0 // Root at center
         }
         else {
-            *current_x + node_size.width / 2.0
+            *current_x
         };
 
         let y = level as f64 * self.config.level_distance;
-- 
2.43.0


From 1c5721043fa92dcc94d339c07ea77206bcd13ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:55 +0000
Subject: [PATCH 32/42] fix: compact tree layout makes room for nodes wider
 than their children

---
 projects/oak-visualize/src/tree/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/projects/oak-visualize/src/tree/mod.rs b/projects/oak-visualize/src/tree/mod.rs
index 83b7068..f111cd1 100644
--- a/projects/oak-visualize/src/tree/mod.rs
+++ b/projects/oak-visualize/src/tree/mod.rs
@@ -370,7 +370,13 @@ impl TreeLayout {
             positioned_children.push(positioned_child);
         }
 
-        let subtree_width = if positioned_children.is_empty() { size.width } else { positioned_children.iter().map(|c| c.subtree_width).sum::<f64>() + (positioned_children.len() - 1) as f64 * self.config.sibling_distance };
+        let children_width = if positioned_children.is_empty() { 0.0 } else { positioned_children.iter().map(|c| c.subtree_width).sum::<f64>() + (positioned_children.len() - 1) as f64 * self.config.sibling_distance };
+        let subtree_width = size.width.max(children_width);
+
+        // Center the children below a node that is wider than all of them
+        for child in &mut positioned_children {
+            child.shift((subtree_width - children_width) / 2.0);
+        }
 
         // Center the node over its children
         let node_x = if positioned_children.is_empty() { x } else { x + subtree_width / 2.0 - size.width / 2.0 };
@@ -461,6 +467,16 @@ struct PositionedTreeNode {
     children: Vec<PositionedTreeNode>,
 }
 
+impl PositionedTreeNode {
+    /// Moves the node and its descendants to the right
+    fn shift(&mut self, dx: f64) {
+        self.position.x += dx;
+        for child in &mut self.children {
+            child.shift(dx);
+        }
+    }
+}
+
 /// Tree renderer for generating visual output
 pub struct TreeRenderer {
     config: TreeRenderConfig,
-- 
2.43.0


From d804a2d11e33662d34af3f0c7d815a9a1ef65213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:53 +0000
Subject: [PATCH 33/42] fix: HTML rendering escapes diagnostic codes

---
 projects/oak-diagnostic/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index f396e67..193177d 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -470,7 +470,7 @@ impl Emitter for HtmlEmitter {
         out.push_str("<div class=\"diagnostic\">\n");
         out.push_str(&format!("  <div class=\"header {}\">\n", sev_class));
         if let Some(code) = &diagnostic.code {
-            out.push_str(&format!("    <span class=\"code\">[{}]</span> <span class=\"message\">{}</span>\n", code, html_escape(&message)));
+            out.push_str(&format!("    <span class=\"code\">[{}]</span> <span class=\"message\">{}</span>\n", html_escape(code), html_escape(&message)));
         }
         else {
             out.push_str(&format!("    <span class=\"severity\">[{}]</span> <span class=\"message\">{}</span>\n", sev_class, html_escape(&message)));
-- 
2.43.0


From df070a4ea801d22a516e268dbf2f71166c9b2a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:54 +0000
Subject: [PATCH 34/42] fix: doc! converts the value of a whole expression

---
 projects/oak-macros/src/doc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/oak-macros/src/doc.rs b/projects/oak-macros/src/doc.rs
index dd7d4f7..48b8814 100644
--- a/projects/oak-macros/src/doc.rs
+++ b/projects/oak-macros/src/doc.rs
@@ -132,7 +132,7 @@ impl ToTokens for DocExpr {
                 {
                     #[allow(unused_imports)]
                     use ::oak_pretty_print::document::JoinDoc;
-                    #items.into_iter()
+                    (#items).into_iter()
                         .map(|i| {
                             #[allow(unused_imports)]
                             use ::oak_pretty_print::ToDocument;
@@ -147,7 +147,7 @@ impl ToTokens for DocExpr {
                 {
                     #[allow(unused_imports)]
                     use ::oak_pretty_print::ToDocument;
-                    #expr.to_document()
+                    (#expr).to_document()
                 }
             }),
         }
-- 
2.43.0


From ec78652d02ef85c29737866d37d7956105c0589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:54 +0000
Subject: [PATCH 35/42] fix: deriving AsDocument keeps the where clause of the
 type

---
 projects/oak-macros/src/to_doc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/oak-macros/src/to_doc.rs b/projects/oak-macros/src/to_doc.rs
index 142c723..573d1b6 100644
--- a/projects/oak-macros/src/to_doc.rs
+++ b/projects/oak-macros/src/to_doc.rs
@@ -6,7 +6,7 @@ use syn::{Data, DeriveInput, parse_macro_input};
 pub fn derive_as_document(input: TokenStream) -> TokenStream {
     let input = parse_macro_input!(input as DeriveInput);
     let name = &input.ident;
-    let (impl_generics, ty_generics, _where_clause) = input.generics.split_for_impl();
+    let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let mut custom_doc = None;
     for attr in &input.attrs {
@@ -123,7 +123,7 @@ pub fn derive_as_document(input: TokenStream) -> TokenStream {
     };
 
     let expanded = quote! {
-        impl #impl_generics ::oak_pretty_print::AsDocument for #name #ty_generics {
+        impl #impl_generics ::oak_pretty_print::AsDocument for #name #ty_generics #where_clause {
             fn as_document(&self) -> ::oak_pretty_print::Doc<'_> {
                 #body
             }
-- 
2.43.0


From 4c41b6ffab4c80b682be1d607642c3ffba4cccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:54 +0000
Subject: [PATCH 36/42] fix: deriving AsDocument accepts variants with named
 fields

---
 projects/oak-macros/src/to_doc.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/projects/oak-macros/src/to_doc.rs b/projects/oak-macros/src/to_doc.rs
index 573d1b6..bc39a24 100644
--- a/projects/oak-macros/src/to_doc.rs
+++ b/projects/oak-macros/src/to_doc.rs
@@ -94,22 +94,21 @@ pub fn derive_as_document(input: TokenStream) -> TokenStream {
                     }
                 }
                 else if variant.fields.len() == 1 {
+                    let pattern = match &variant.fields.iter().next().unwrap().ident {
+                        Some(ident) => quote! { { #ident: v } },
+                        None => quote! { (v) },
+                    };
                     quote! {
-                        #name::#variant_name(v) => {
+                        #name::#variant_name #pattern => {
                             #[allow(unused_imports)]
                             use ::oak_pretty_print::AsDocument;
                             v.as_document()
                         },
                     }
                 }
-                else if variant.fields.is_empty() {
-                    quote! {
-                        #name::#variant_name => ::oak_pretty_print::Doc::Nil,
-                    }
-                }
                 else {
                     quote! {
-                        #name::#variant_name(..) => ::oak_pretty_print::Doc::Nil,
+                        #name::#variant_name { .. } => ::oak_pretty_print::Doc::Nil,
                     }
                 }
             });
-- 
2.43.0


From 2e7d05682adc7a9688847950835d0c7e16b10af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:21 +0000
Subject: [PATCH 37/42] fix: formatting a formatted comment changes nothing

---
 projects/oak-pretty-print/src/comment/mod.rs | 33 +++++++++++++++++---
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/projects/oak-pretty-print/src/comment/mod.rs b/projects/oak-pretty-print/src/comment/mod.rs
index a5703af..1670f7d 100644
--- a/projects/oak-pretty-print/src/comment/mod.rs
+++ b/projects/oak-pretty-print/src/comment/mod.rs
@@ -86,7 +86,7 @@ impl Comment {
         };
 
         let suffix = match self.kind {
-            CommentKind::Block => " */",
+            CommentKind::Block => "*/",
             _ => "",
         };
 
@@ -101,13 +101,15 @@ impl Comment {
                 CommentKind::Block => {
                     if self.content.contains('\n') {
                         // Multi-line block comment
-                        let lines: Vec<&str> = self.content.lines().collect();
                         let mut result = String::new();
                         result.push_str("/*\n");
-                        for line in lines {
+                        for line in self.block_lines() {
                             result.push_str(indent);
-                            result.push_str(" * ");
-                            result.push_str(line.trim());
+                            result.push_str(" *");
+                            if !line.is_empty() {
+                                result.push(' ');
+                                result.push_str(line);
+                            }
                             result.push('\n');
                         }
                         result.push_str(indent);
@@ -122,6 +124,27 @@ impl Comment {
             }
         }
     }
+
+    /// The lines of text of a block comment, without a margin of stars
+    fn block_lines(&self) -> Vec<&str> {
+        let lines: Vec<&str> = self.content.lines().map(str::trim).collect();
+        let mut lines = trim_lines(&lines).to_vec();
+        if lines.iter().all(|line| line.is_empty() || line.starts_with('*')) {
+            lines = lines.iter().map(|line| line.strip_prefix('*').unwrap_or(line).trim()).collect()
+        }
+        trim_lines(&lines).to_vec()
+    }
+}
+
+/// Removes empty lines from both ends
+fn trim_lines<'a, 'b>(mut lines: &'b [&'a str]) -> &'b [&'a str] {
+    while let [rest @ .., ""] = lines {
+        lines = rest
+    }
+    while let ["", rest @ ..] = lines {
+        lines = rest
+    }
+    lines
 }
 
 /// Comment collector, used to extract comments from source code
-- 
2.43.0


From 61a469ff44b1600736ab17de3790ffc8d317693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:36 +0000
Subject: [PATCH 38/42] fix: comments that are not formatted keep their markers

---
 projects/oak-pretty-print/src/comment/mod.rs | 30 ++++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/projects/oak-pretty-print/src/comment/mod.rs b/projects/oak-pretty-print/src/comment/mod.rs
index 1670f7d..3d0ccab 100644
--- a/projects/oak-pretty-print/src/comment/mod.rs
+++ b/projects/oak-pretty-print/src/comment/mod.rs
@@ -77,21 +77,27 @@ impl Comment {
         self
     }
 
+    /// Gets the markers before and after the content
+    fn markers(&self) -> (&'static str, &'static str) {
+        match self.kind {
+            CommentKind::Line => ("//", ""),
+            CommentKind::Block => ("/*", "*/"),
+            CommentKind::Doc => ("///", ""),
+        }
+    }
+
+    /// Gets the comment text as it was written
+    pub fn original_text(&self) -> String {
+        let (prefix, suffix) = self.markers();
+        format!("{}{}{}", prefix, self.content, suffix)
+    }
+
     /// Gets the formatted comment text
     pub fn formatted_text(&self, indent: &str) -> String {
-        let prefix = match self.kind {
-            CommentKind::Line => "//",
-            CommentKind::Block => "/*",
-            CommentKind::Doc => "///",
-        };
-
-        let suffix = match self.kind {
-            CommentKind::Block => "*/",
-            _ => "",
-        };
+        let (prefix, _) = self.markers();
 
         if self.content.trim().is_empty() {
-            format!("{}{}{}", prefix, self.content, suffix)
+            self.original_text()
         }
         else {
             match self.kind {
@@ -261,7 +267,7 @@ impl CommentProcessor {
                 }
                 else {
                     // Preserve original format
-                    comment.content.clone()
+                    comment.original_text()
                 }
             })
             .collect()
-- 
2.43.0


From 369f83e8dcd9be60530cabc436daea9c727dcd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:36 +0000
Subject: [PATCH 39/42] fix: comments are kept when they are not to be
 formatted

---
 projects/oak-pretty-print/src/formatter/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-pretty-print/src/formatter/mod.rs b/projects/oak-pretty-print/src/formatter/mod.rs
index 2be88f6..b391b47 100644
--- a/projects/oak-pretty-print/src/formatter/mod.rs
+++ b/projects/oak-pretty-print/src/formatter/mod.rs
@@ -50,7 +50,7 @@ impl<L: Language> FormatContext<L> {
     /// Creates a new formatting context
     pub fn new(config: FormatConfig) -> Self {
         let config = Arc::new(config);
-        let comment_processor = Arc::new(CommentProcessor::new().with_preserve_comments(config.format_comments).with_format_comments(config.format_comments));
+        let comment_processor = Arc::new(CommentProcessor::new().with_format_comments(config.format_comments));
         Self { config, comment_processor, source: None, depth: 0, path: None }
     }
 
-- 
2.43.0


From f08c0e738093257cd59ced35541f365d3897843b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:18 +0000
Subject: [PATCH 40/42] fix: inserted comments follow the settings of the
 comment processor

---
 projects/oak-pretty-print/src/comment/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/projects/oak-pretty-print/src/comment/mod.rs b/projects/oak-pretty-print/src/comment/mod.rs
index 3d0ccab..9d827a6 100644
--- a/projects/oak-pretty-print/src/comment/mod.rs
+++ b/projects/oak-pretty-print/src/comment/mod.rs
@@ -278,9 +278,11 @@ impl CommentProcessor {
         let comments = self.collector.comments_before(position);
         for comment in comments {
             if !comment.is_trailing {
-                output.push_str(indent);
-                output.push_str(&comment.formatted_text(indent));
-                output.push('\n')
+                for text in self.process_comments(core::slice::from_ref(comment), indent) {
+                    output.push_str(indent);
+                    output.push_str(&text);
+                    output.push('\n')
+                }
             }
         }
     }
@@ -290,8 +292,10 @@ impl CommentProcessor {
         let comments = self.collector.comments_after(position);
         for comment in comments {
             if comment.is_trailing {
-                output.push(' ');
-                output.push_str(&comment.formatted_text(""));
+                for text in self.process_comments(core::slice::from_ref(comment), "") {
+                    output.push(' ');
+                    output.push_str(&text);
+                }
                 break; // Only process the first trailing comment
             }
         }
-- 
2.43.0


From 18886fb68e617913419dfac7eded4492e3928c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 41/42] fix: watchers report renamed files as removed and
 created

---
 projects/oak-vfs/src/vfs/watch.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/projects/oak-vfs/src/vfs/watch.rs b/projects/oak-vfs/src/vfs/watch.rs
index 7d6f732..900e505 100644
--- a/projects/oak-vfs/src/vfs/watch.rs
+++ b/projects/oak-vfs/src/vfs/watch.rs
@@ -1,4 +1,7 @@
-use notify::{Event, RecursiveMode, Result, Watcher};
+use notify::{
+    Event, EventKind, RecursiveMode, Result, Watcher,
+    event::{ModifyKind, RenameMode},
+};
 use std::path::PathBuf;
 
 /// Events emitted by a VFS watcher.
@@ -36,7 +39,16 @@ impl DiskWatcher {
             if let Ok(event) = res {
                 for path in event.paths {
                     let uri = path.to_string_lossy().to_string();
-                    if event.kind.is_modify() {
+                    if let EventKind::Modify(ModifyKind::Name(RenameMode::From)) = event.kind {
+                        callback(VfsEvent::Removed(uri))
+                    }
+                    else if let EventKind::Modify(ModifyKind::Name(RenameMode::To)) = event.kind {
+                        callback(VfsEvent::Created(uri))
+                    }
+                    else if let EventKind::Modify(ModifyKind::Name(RenameMode::Both)) = event.kind {
+                        // Both ends have been reported by now
+                    }
+                    else if event.kind.is_modify() {
                         callback(VfsEvent::Changed(uri))
                     }
                     else if event.kind.is_create() {
-- 
2.43.0


From 33dc85dda3ac5512081091eaea65bcacd4c74bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:48 +0000
Subject: [PATCH 42/42] fix: unwatch_all stops watching

---
 projects/oak-vfs/src/vfs/watch.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/projects/oak-vfs/src/vfs/watch.rs b/projects/oak-vfs/src/vfs/watch.rs
index 900e505..40c4863 100644
--- a/projects/oak-vfs/src/vfs/watch.rs
+++ b/projects/oak-vfs/src/vfs/watch.rs
@@ -1,8 +1,8 @@
 use notify::{
-    Event, EventKind, RecursiveMode, Result, Watcher,
+    ErrorKind, Event, EventKind, RecursiveMode, Result, Watcher,
     event::{ModifyKind, RenameMode},
 };
-use std::path::PathBuf;
+use std::{collections::HashSet, path::PathBuf};
 
 /// Events emitted by a VFS watcher.
 pub enum VfsEvent {
@@ -27,6 +27,7 @@ pub trait VfsWatcher {
 /// A watcher implementation that watches files on disk.
 pub struct DiskWatcher {
     watcher: notify::RecommendedWatcher,
+    watched: HashSet<PathBuf>,
 }
 
 impl DiskWatcher {
@@ -60,20 +61,32 @@ impl DiskWatcher {
                 }
             }
         })?;
-        Ok(Self { watcher })
+        Ok(Self { watcher, watched: HashSet::new() })
     }
 }
 
 impl VfsWatcher for DiskWatcher {
     fn watch(&mut self, uri: &str) -> Result<()> {
-        self.watcher.watch(PathBuf::from(uri).as_path(), RecursiveMode::Recursive)
+        let path = PathBuf::from(uri);
+        self.watcher.watch(path.as_path(), RecursiveMode::Recursive)?;
+        self.watched.insert(path);
+        Ok(())
     }
 
     fn unwatch(&mut self, uri: &str) -> Result<()> {
-        self.watcher.unwatch(PathBuf::from(uri).as_path())
+        let path = PathBuf::from(uri);
+        self.watched.remove(&path);
+        self.watcher.unwatch(path.as_path())
     }
 
     fn unwatch_all(&mut self) -> Result<()> {
+        for path in self.watched.drain() {
+            match self.watcher.unwatch(path.as_path()) {
+                // Watches of removed files end by themselves
+                Err(error) if !matches!(error.kind, ErrorKind::WatchNotFound) => return Err(error),
+                _ => {}
+            }
+        }
         Ok(())
     }
 }
-- 
2.43.0

