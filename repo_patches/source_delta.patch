From 786198d543c0b2713ed041e3cade9bb27e68d82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 01/19] fix: reject JMP words with a non-zero bit 11

---
 src/ast/sim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/sim.rs b/src/ast/sim.rs
index 02db76f..3ec64da 100644
--- a/src/ast/sim.rs
+++ b/src/ast/sim.rs
@@ -330,7 +330,7 @@ impl SimInstr {
                 Ok(Self::STI(sr, off))
             },
             OP_JMP => {
-                word.slice(9..11).assert_equals(0b00)?;
+                word.slice(9..12).assert_equals(0b000)?;
                 let reg = word.slice(6..9).interpret();
                 word.slice(0..6).assert_equals(0b000_000)?;
                 Ok(Self::JMP(reg))
-- 
2.43.0


From c9b5bf0934d9779c3682c8cc1024eecc080c20ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 02/19] fix: no panic on a backslash before a line end or a
 non-ASCII character in a string literal

---
 src/parse/lex.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/parse/lex.rs b/src/parse/lex.rs
index 869b89a..10267f7 100644
--- a/src/parse/lex.rs
+++ b/src/parse/lex.rs
@@ -263,23 +263,23 @@ fn lex_str_literal(lx: &mut Lexer<'_, Token>) -> Result<String, LexErr> {
         match mid {
             "\\" => {
                 // the next character is part of the escape:
-                let esc = right.as_bytes()
-                    .first()
-                    .unwrap_or_else(|| unreachable!("expected character after escape")); // there always has to be one, cause last character is not \
+                let mut rest = right.chars();
+                // if there isn't one, the line ends here and the literal is unclosed.
+                let Some(esc) = rest.next() else { break };
                 match esc {
-                    b'n'  => buf.push('\n'),
-                    b'r'  => buf.push('\r'),
-                    b't'  => buf.push('\t'),
-                    b'\\' => buf.push('\\'),
-                    b'0'  => buf.push('\0'),
-                    b'"'  => buf.push('\"'),
-                    &c => {
+                    'n'  => buf.push('\n'),
+                    'r'  => buf.push('\r'),
+                    't'  => buf.push('\t'),
+                    '\\' => buf.push('\\'),
+                    '0'  => buf.push('\0'),
+                    '"'  => buf.push('\"'),
+                    c => {
                         buf.push('\\');
-                        buf.push(char::from(c));
+                        buf.push(c);
                     }
                 }
                 
-                remaining = &right[1..];
+                remaining = rest.as_str();
             },
             "\"" => {
                 remaining = right;
-- 
2.43.0


From 4586e2829d64659545a288e0c5980954310b2cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 03/19] fix: write relocation addresses in the byte order they
 are read in

---
 src/asm/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index 77d032a..d6b7192 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -134,7 +134,7 @@ impl ObjFileFormat for BinaryFormat {
 
             for (&addr, label) in &sym.rel_map {
                 bytes.push(0x04);
-                bytes.extend(u16::to_be_bytes(addr));
+                bytes.extend(u16::to_le_bytes(addr));
                 bytes.extend(u64::to_le_bytes(label.len() as u64));
                 bytes.extend_from_slice(label.as_bytes());
             }
-- 
2.43.0


From d39929b077d2fb87bc4b6ab6a7a08ee5e780a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 04/19] fix: .external lines occupy no memory and map to no
 address

---
 src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 9fe11f2..7efeca7 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -677,7 +677,7 @@ impl SymbolTable {
                 // Calculate which source code line is associated with the instruction the LC is currently pointing to
                 // and add the mapping from line to instruction address.
                 if let Some((lines, s)) = &mut debug_sym {
-                    if !matches!(stmt.nucleus, StmtKind::Directive(Directive::Orig(_) | Directive::End)) {
+                    if !matches!(stmt.nucleus, StmtKind::Directive(Directive::Orig(_) | Directive::End | Directive::External(_))) {
                         let line_index = s.get_line(stmt.span.start);
                         lines[line_index].replace(cur.lc);
                     }
-- 
2.43.0


From f0a7d97935137aeaba6d976b6336f23172acda40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 05/19] fix: link errors carry a span

---
 src/asm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 7efeca7..55b8183 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1208,7 +1208,7 @@ impl ObjectFile {
 
         for (addr, block) in b_block_map {
             if a_obj.block_map.insert(addr, block).is_some() {
-                return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, []));
+                return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, 0..0));
             }
         }
 
@@ -1220,7 +1220,7 @@ impl ObjectFile {
             let br = b_st .. (b_st + b_bl.len() as u16);
             ranges_overlap(ar, br)
         }) {
-            return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, []));
+            return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, 0..0));
         }
 
         // Merge symbol tables:
-- 
2.43.0


From d067efe7d418277f6334b5f0e3dbec998e63eeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 06/19] fix: positions past the end of the source are on the
 last line

---
 src/asm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asm.rs b/src/asm.rs
index 55b8183..3e7bab5 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -405,7 +405,9 @@ impl SourceInfo {
 
     /// Gets the line number of the current position.
     fn get_line(&self, index: usize) -> usize {
+        // An index past the end is on the last line (whose end is the end of the source).
         self.nl_indices.partition_point(|&start| start < index)
+            .min(self.count_lines() - 1)
     }
 
     /// Calculates the line and character number for a given character index.
-- 
2.43.0


From 224a263763f5fe60d85961b2918742dca7c2b59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 07/19] fix: get_label_source ignores case

---
 src/asm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 3e7bab5..b668555 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -796,8 +796,9 @@ impl SymbolTable {
     /// assert_eq!(sym.get_label_source("LOOP_DE_LOOP"), None);
     /// ```
     pub fn get_label_source(&self, label: &str) -> Option<Range<usize>> {
-        self.label_map.get(label)
-            .map(|data| data.span(label))
+        let label = label.to_uppercase();
+        self.label_map.get(&label)
+            .map(|data| data.span(&label))
     }
 
     /// Gets the address of a given source line.
-- 
2.43.0


From 914e27c8d5589300d243631d1d096e28c6cc1afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 08/19] fix: record every use of an external label, with or
 without debug symbols

---
 src/asm.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index b668555..42e7883 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -621,7 +621,7 @@ impl SymbolTable {
 
         let mut cursor: Option<Cursor> = None;
         let mut label_map: HashMap<String, SymbolData> = HashMap::new();
-        let mut rel_map = HashMap::new();
+        let mut label_fills = vec![];
         let mut debug_sym = src.map(|s| {
             let src_info = SourceInfo::new(s);
             (vec![None; src_info.count_lines()], src_info)
@@ -661,14 +661,12 @@ impl SymbolTable {
                     add_label(&mut label_map, label, 0, true)?;
                 }
                 StmtKind::Directive(Directive::Fill(PCOffset::Label(label))) => {
-                    let label_text = label.name.to_uppercase();
-                    if let Some(SymbolData { external: true, .. }) = label_map.get(&label_text) {
-                        let Some(cur) = cursor.as_ref() else {
-                            return Err(AsmErr::new(AsmErrKind::UndetAddrStmt, stmt.span.clone()));
-                        };
+                    let Some(cur) = cursor.as_ref() else {
+                        return Err(AsmErr::new(AsmErrKind::UndetAddrStmt, stmt.span.clone()));
+                    };
 
-                        rel_map.insert(cur.lc, label_text);
-                    }
+                    // The label may still be declared external by a later statement.
+                    label_fills.push((cur.lc, label.name.to_uppercase()));
                 },
                 _ => {}
             };
@@ -696,6 +694,11 @@ impl SymbolTable {
         if let Some(cur) = cursor {
             return Err(AsmErr::new(AsmErrKind::UnclosedOrig, cur.block_orig));
         }
+
+        // Fills of external labels have to be replaced during linking.
+        let rel_map = label_fills.into_iter()
+            .filter(|(_, label)| label_map.get(label).is_some_and(|sym_data| sym_data.external))
+            .collect();
         
         let debug_symbols = debug_sym.map(|(lines, src_info)| DebugSymbols {
             line_map: LineSymbolMap::new(lines)
@@ -1183,9 +1186,11 @@ impl ObjectFile {
         let block_map = block_map.into_iter()
             .map(|(start, ObjBlock { words, .. })| (start, words))
             .collect();
+        // If there are unresolved externals, the symbol table is needed for linking.
+        let keep_sym = debug || !sym.rel_map.is_empty();
         Ok(Self {
             block_map,
-            sym: debug.then_some(sym),
+            sym: keep_sym.then_some(sym),
         })
     }
 
-- 
2.43.0


From c49b6df0989c26af24cc78b565d9e4bcc507663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 09/19] fix: linking moves the label spans of the second file
 along with its source

---
 src/asm.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 42e7883..6ba20f0 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1236,9 +1236,17 @@ impl ObjectFile {
         a_obj.sym = match (a_obj.sym, b_sym) {
             // If we have both symbol tables:
             (Some(mut a_sym), Some(b_sym)) => {
-                let SymbolTable { label_map, rel_map, debug_symbols: b_debug_symbols } = b_sym;
+                let SymbolTable { mut label_map, rel_map, debug_symbols: b_debug_symbols } = b_sym;
                 a_sym.debug_symbols = match (a_sym.debug_symbols, b_debug_symbols) {
-                    (Some(ads), Some(bds)) => Some(DebugSymbols::link(ads, bds)?),
+                    (Some(ads), Some(bds)) => {
+                        // B's source is placed after A's source and a new line.
+                        let shift = ads.src_info.source().len() + 1;
+                        for sym_data in label_map.values_mut() {
+                            sym_data.src_start = sym_data.src_start.saturating_add(shift);
+                        }
+
+                        Some(DebugSymbols::link(ads, bds)?)
+                    },
                     (m_ads, b_ads) => m_ads.or(b_ads)
                 };
 
-- 
2.43.0


From 8e52144981b5b42ae441a9557fc325cbaefd5585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 10/19] fix: duplicate label errors cover the first label as it
 is spelled in source

---
 src/asm.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 6ba20f0..d5e76e1 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -598,6 +598,7 @@ impl SymbolTable {
 
         fn add_label(
             labels: &mut HashMap<String, SymbolData>, 
+            spans: &mut HashMap<String, Span>,
             label: &crate::ast::Label, 
             addr: u16,
             external: bool
@@ -605,7 +606,8 @@ impl SymbolTable {
             match labels.entry(label.name.to_uppercase()) {
                 // Two labels with different addresses. Conflict.
                 Entry::Occupied(e) if e.get().addr != addr => {
-                    let span1 = e.get().span(e.key());
+                    // The key's length may differ from the label's length in source.
+                    let span1 = spans[e.key()].clone();
                     let span2 = label.span();
                     Err(AsmErr::new(AsmErrKind::OverlappingLabels, [span1, span2]))
                 },
@@ -613,6 +615,7 @@ impl SymbolTable {
                 Entry::Occupied(_) => Ok(()),
                 // New label.
                 Entry::Vacant(e) => {
+                    spans.insert(e.key().clone(), label.span());
                     e.insert(SymbolData { addr, src_start: label.span().start, external });
                     Ok(())
                 }
@@ -621,6 +624,7 @@ impl SymbolTable {
 
         let mut cursor: Option<Cursor> = None;
         let mut label_map: HashMap<String, SymbolData> = HashMap::new();
+        let mut label_spans: HashMap<String, Span> = HashMap::new();
         let mut label_fills = vec![];
         let mut debug_sym = src.map(|s| {
             let src_info = SourceInfo::new(s);
@@ -642,7 +646,7 @@ impl SymbolTable {
 
                 // Add labels
                 for label in &stmt.labels {
-                    add_label(&mut label_map, label, cur.lc, false)?;
+                    add_label(&mut label_map, &mut label_spans, label, cur.lc, false)?;
                 }
             }
 
@@ -658,7 +662,7 @@ impl SymbolTable {
                 },
                 StmtKind::Directive(Directive::External(label)) => {
                     // Arbitrarily chose 0 as a placeholder for externals
-                    add_label(&mut label_map, label, 0, true)?;
+                    add_label(&mut label_map, &mut label_spans, label, 0, true)?;
                 }
                 StmtKind::Directive(Directive::Fill(PCOffset::Label(label))) => {
                     let Some(cur) = cursor.as_ref() else {
-- 
2.43.0


From db0b01b33ad5087a547480699d4fb63a3c6743b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:43 +0000
Subject: [PATCH 11/19] fix: read text object files without a line table

---
 src/asm/encoding.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index d6b7192..80993c5 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -506,7 +506,11 @@ impl ObjFileFormat for TextFormat {
                 ".DEBUG" => if !rest.is_empty() {
                     let split_pos = rest.iter().position(|l| l.starts_with('='))?;
                     if !rest.last()?.starts_with('=') { return None; }
-                    let (label_src, [_, line_src @ .., _]) = rest.split_at(split_pos) else { unreachable!("divider should be present") };
+                    let (label_src, line_src) = match rest.split_at(split_pos) {
+                        (label_src, [_, line_src @ .., _]) => (label_src, line_src),
+                        // Only one divider, so there is no line table
+                        (label_src, _) => (label_src, [].as_slice()),
+                    };
 
                     let label_table = parse_table(label_src, ["LABEL", "INDEX"], |[label, index_str], _| {
                         let index = index_str.parse().ok()?;
-- 
2.43.0


From 1456e5b447d06012b7679d8b2589dba76410dc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 12/19] fix: no panic when linking files with relocations
 outside of their blocks or with wrapping blocks

---
 src/asm.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index d5e76e1..92bd4b4 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -251,7 +251,7 @@ impl LineSymbolMap {
         // Check not overlapping:
         let not_overlapping = bl.windows(2).all(|win| {
             let [(ls, lb), (rs, _)] = win else { unreachable!() };
-            ls + lb.len() <= *rs
+            ls.checked_add(lb.len()).is_some_and(|le| le <= *rs)
         });
 
         match not_overlapping {
@@ -445,7 +445,7 @@ struct SymbolData {
 impl SymbolData {
     /// Calculates the source range of this symbol, given the name of the label.
     fn span(&self, label: &str) -> Range<usize> {
-        self.src_start .. (self.src_start + label.len())
+        self.src_start .. self.src_start.saturating_add(label.len())
     }
 }
 
@@ -1228,8 +1228,9 @@ impl ObjectFile {
         let mut second = a_obj.block_map.iter();
         second.next();
         if std::iter::zip(first, second).any(|((&a_st, a_bl), (&b_st, b_bl))| {
-            let ar = a_st .. (a_st + a_bl.len() as u16);
-            let br = b_st .. (b_st + b_bl.len() as u16);
+            // Blocks read from an object file may extend past xFFFF.
+            let ar = usize::from(a_st) .. (usize::from(a_st) + a_bl.len());
+            let br = usize::from(b_st) .. (usize::from(b_st) + b_bl.len());
             ranges_overlap(ar, br)
         }) {
             return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, 0..0));
@@ -1309,11 +1310,11 @@ impl ObjectFile {
             (ma, mb) => ma.or(mb)
         };
         for (addr, linked_addr) in relocations {
-            // TODO: handle case where the address needed is not found in block map
-            // should really only occur from invalid manipulation of obj file
-            a_obj.get_mut(addr)
-                .unwrap_or_else(|| unreachable!("object file should have had address x{addr:04X} bound"))
-                .replace(linked_addr);
+            // An object file which was read may have relocation entries outside of its blocks.
+            // There is no word to relocate there.
+            if let Some(word) = a_obj.get_mut(addr) {
+                word.replace(linked_addr);
+            }
         }
 
         Ok(a_obj)
-- 
2.43.0


From f2d52afd841acac3f4a382712307c9734cddd873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 13/19] fix: no panic on lines outside of the source or very
 long labels in object files

---
 src/asm/encoding.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index 80993c5..d9af2f9 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -205,11 +205,19 @@ impl ObjFileFormat for BinaryFormat {
         }
 
         let debug_symbols = match debug_sym {
-            Some((line_map, src)) => Some(DebugSymbols {
-                // Error should propagate to deser
-                line_map: super::LineSymbolMap::from_blocks(line_map)?,
-                src_info: super::SourceInfo::from_string(src),
-            }),
+            Some((line_map, src)) => {
+                let src_info = super::SourceInfo::from_string(src);
+                // Every line must be a line of the source
+                for (&lno, data) in &line_map {
+                    if lno.checked_add(data.len())? > src_info.count_lines() { return None; }
+                }
+
+                Some(DebugSymbols {
+                    // Error should propagate to deser
+                    line_map: super::LineSymbolMap::from_blocks(line_map)?,
+                    src_info,
+                })
+            },
             None => None,
         };
         let sym = (!label_map.is_empty() || debug_symbols.is_some())
@@ -365,6 +373,8 @@ impl ObjFileFormat for TextFormat {
                             (LABEL.len(), INDEX.len()), 
                             |(lc, ic), (lx, ix)| (lc.max(lx), ic.max(ix))
                         );
+                    // Formatting widths have to fit in a u16.
+                    let label_col = label_col.min(usize::from(u16::MAX));
 
                     // Display!
                     writeln!(buf, "{LABEL:1$}{0}{INDEX:2$}", TABLE_DIV, label_col, index_col)?;
-- 
2.43.0


From b9240553499a729f7379677d9be07d89d4612320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:20 +0000
Subject: [PATCH 14/19] fix: no overflow when querying the faulting address
 with the PC at x0000

---
 src/sim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index 11157e4..e8cd776 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1037,7 +1037,7 @@ impl Simulator {
     /// This function is useful as it returns the location of the currently
     /// executing instruction in memory.
     pub fn prefetch_pc(&self) -> u16 {
-        self.pc - (!self.prefetch) as u16
+        self.pc.wrapping_sub((!self.prefetch) as u16)
     }
 
     /// Checks whether the address points to a memory location that was allocated
-- 
2.43.0


From 849e634bba36510b4bd7339b6d9db24c2982b548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:38 +0000
Subject: [PATCH 15/19] fix: strict mode peeks at the next instruction without
 accessing memory

---
 src/sim.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sim.rs b/src/sim.rs
index e8cd776..a464d9b 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1018,8 +1018,9 @@ impl Simulator {
     fn set_pc(&mut self, addr_word: Word, st_check_mem: bool) -> Result<(), SimErr> {
         let addr = addr_word.get_if_init(self.flags.strict, SimErr::StrictJmpAddrUninit)?;
         if self.flags.strict && st_check_mem {
-            // Check next memory value is initialized:
-            if !self.read_mem(addr, self.default_mem_ctx())?.is_init() {
+            // Check next memory value is initialized
+            // (this is not an access by the program: it is not checked, observed, or seen by devices):
+            if !self.mem[addr].is_init() {
                 return Err(SimErr::StrictPCNextUninit);
             }
         }
-- 
2.43.0


From ed313467d4e0441c7da3da4250271aabf3bb517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:38 +0000
Subject: [PATCH 16/19] fix: device interrupts with an exception's vector are
 taken under virtual traps

---
 src/sim.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index a464d9b..c1ac189 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1121,7 +1121,8 @@ impl Simulator {
         // Virtual traps.
         // See the flag for documentation.
         // Virtual HALT
-        if !self.flags.use_real_traps {
+        // (Device interrupts are never virtual, even if they share a vector with an exception.)
+        if !self.flags.use_real_traps && priority.is_none() {
             if let Ok(intv) = RealIntVect::try_from(vect) {
                 if !self.prefetch {
                     // decrement PC so that if play is pressed again, it goes back here
-- 
2.43.0


From e9299f529f234e1a930d814e905daba4c89e4186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:38 +0000
Subject: [PATCH 17/19] fix: a write rejected by strict mode is not recorded as
 an access

---
 src/sim.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sim.rs b/src/sim.rs
index c1ac189..86899db 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -876,16 +876,18 @@ impl Simulator {
 
         // Duplicate write in mem array:
         if success {
+            let modified = self.mem[addr] != data;
+
+            self.mem[addr]
+                .set_if_init(data, ctx.strict, SimErr::StrictMemSetUninit)?;
+
             if ctx.track_access {
                 // Update memory observer:
                 self.observer.update_mem_accesses(addr, AccessSet::WRITTEN);
-                if self.mem[addr] != data {
+                if modified {
                     self.observer.update_mem_accesses(addr, AccessSet::MODIFIED);
                 }
             }
-
-            self.mem[addr]
-                .set_if_init(data, ctx.strict, SimErr::StrictMemSetUninit)?;
         }
 
         Ok(())
-- 
2.43.0


From 388eb1fc22ec25fc3fe08543be858b481b8d633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 18/19] fix: a timer with a time of 0 interrupts on the next
 poll

---
 src/sim/device/timer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sim/device/timer.rs b/src/sim/device/timer.rs
index c103c2d..6503dc9 100644
--- a/src/sim/device/timer.rs
+++ b/src/sim/device/timer.rs
@@ -158,7 +158,11 @@ impl ExternalDevice for TimerDevice {
         match self.time {
             0 => {
                 self.reset_remaining();
-                None
+                // A new time of 0 leaves no polls between the previous interrupt and this one.
+                match self.time {
+                    0 => Some(super::Interrupt::vectored(self.vect, self.priority)),
+                    _ => None
+                }
             },
             1 => {
                 self.time = 0;
-- 
2.43.0


From b61e229f50079ed8aaab96908246562ff0383ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 19/19] fix: reads and writes the program was told are ready
 wait for the buffer lock

---
 src/sim/device/display.rs  | 15 +++++++--------
 src/sim/device/keyboard.rs |  8 ++++++--
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/sim/device/display.rs b/src/sim/device/display.rs
index 3723615..7f5f11b 100644
--- a/src/sim/device/display.rs
+++ b/src/sim/device/display.rs
@@ -1,4 +1,4 @@
-use std::sync::{Arc, RwLock, RwLockWriteGuard, TryLockError};
+use std::sync::{Arc, PoisonError, RwLock, RwLockWriteGuard, TryLockError};
 
 use super::{DevWrapper, ExternalDevice, Interrupt, DDR, DSR};
 
@@ -66,13 +66,12 @@ impl DisplayDevice for BufferedDisplay {
     }
 
     fn send_output(&mut self, byte: u8) -> bool {
-        match self.try_output() {
-            Some(mut d) => {
-                d.push(byte);
-                true
-            },
-            None => false,
-        }
+        // The program has seen that the display is ready, so the output cannot be dropped:
+        // wait for whoever is holding the buffer instead of giving up.
+        self.buffer.write()
+            .unwrap_or_else(PoisonError::into_inner)
+            .push(byte);
+        true
     }
     
     fn clear_output(&mut self) {
diff --git a/src/sim/device/keyboard.rs b/src/sim/device/keyboard.rs
index 7a5a491..8a48e41 100644
--- a/src/sim/device/keyboard.rs
+++ b/src/sim/device/keyboard.rs
@@ -1,5 +1,5 @@
 use std::collections::VecDeque;
-use std::sync::{Arc, RwLock, RwLockWriteGuard, TryLockError};
+use std::sync::{Arc, PoisonError, RwLock, RwLockWriteGuard, TryLockError};
 
 use super::{DevWrapper, ExternalDevice, Interrupt, KBDR, KBSR, KB_INTP, KB_INTV};
 
@@ -99,7 +99,11 @@ impl KeyboardDevice for BufferedKeyboard {
     }
 
     fn pop_input(&mut self) -> Option<u8> {
-        self.try_input()?.pop_front()
+        // The program has seen that there is input to take, so it has to receive it:
+        // wait for whoever is holding the buffer instead of giving up.
+        self.buffer.write()
+            .unwrap_or_else(PoisonError::into_inner)
+            .pop_front()
     }
     
     fn clear_input(&mut self) {
-- 
2.43.0

