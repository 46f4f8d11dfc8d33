From f73e23fd51934881771422930407d0e645aa3c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:11 +0000
Subject: [PATCH 01/41] verif: guarded access to private items for external
 harnesses (cfg termimad_verif)

---
 src/lib.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1861881..29d72af 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -103,6 +103,8 @@ The repository contains several other examples, which hopefully cover the whole
 
 */
 
+#![allow(unexpected_cfgs)] // termimad_verif
+
 mod area;
 mod ask;
 mod code;
@@ -230,3 +232,24 @@ pub fn print_inline(src: &str) {
 pub fn print_text(src: &str) {
     get_default_skin().print_text(src);
 }
+
+/// Private items needed by external verification harnesses.
+///
+/// Only compiled with `--cfg termimad_verif`, not part of the API.
+#[cfg(termimad_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::{
+        code::{
+            find_blocks,
+            justify_blocks,
+            CodeBlock,
+        },
+        events::EscapeSequence,
+        views::{
+            InputFieldContent,
+            Pos,
+            Range,
+        },
+    };
+}
-- 
2.43.0


From c107f32575ba19a119ab8a93a936846353f15681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 02/41] fix: no underflow when wrapping a list item deeper than
 the width

---
 src/fit/wrap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index 8823507..f58e557 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -102,7 +102,7 @@ pub fn hard_wrap_composite<'s, 'c>(
         return Ok(composites);
     }
 
-    let mut tokens = tokenize(&src_composite.compounds, width - first_width);
+    let mut tokens = tokenize(&src_composite.compounds, width.saturating_sub(first_width));
     // Strategy 2:
     // we try to cut along tokens, using spaces to break
     for token in tokens.drain(..) {
-- 
2.43.0


From 795b32d6711a5859369c8f2a1bd938b1d9d8ed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 03/41] fix: don't pad code lines over the available width

---
 src/fit/wrap.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index f58e557..f6c573a 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -136,8 +136,12 @@ pub fn hard_wrap_lines<'s>(
     let mut src_lines = src_lines;
     let mut lines = Vec::new();
     for src_line in src_lines.drain(..) {
-        if let FmtLine::Normal(fc) = src_line {
+        if let FmtLine::Normal(mut fc) = src_line {
             let (left_margin, right_margin) = skin.line_style(fc.kind).margins_in(Some(width));
+            if let Some(spacing) = fc.spacing.as_mut() {
+                // a justified line can't be wider than what's available
+                spacing.width = spacing.width.min(width - left_margin - right_margin);
+            }
             if fc.visible_length + left_margin + right_margin <= width {
                 lines.push(FmtLine::Normal(fc));
             } else {
-- 
2.43.0


From 6a2969623a51a4cada709686f152997ac8fcbd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 04/41] fix: wrapping a table row with missing cells when
 columns are removed

---
 src/tbl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tbl.rs b/src/tbl.rs
index bb8771b..a561cbb 100644
--- a/src/tbl.rs
+++ b/src/tbl.rs
@@ -129,12 +129,12 @@ impl Table {
                 let mut cells_to_add: Vec<Vec<FmtComposite<'_>>> = Vec::new();
                 cells.truncate(nbcols);
                 for ic in 0..nbcols {
+                    cells_to_add.push(Vec::new());
                     if cells.len() <= ic {
-                        //FIXME isn't this already done ?
+                        // missing cells were only added when no column was removed
                         cells.push(FmtComposite::new());
                         continue;
                     }
-                    cells_to_add.push(Vec::new());
                     if cells[ic].visible_length > widths[ic] {
                         // we must wrap the cell over several lines
                         let mut composites =
-- 
2.43.0


From 5c53852db4e743dc0798cc293fa685800eff5fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 05/41] fix: don't join words when the blanks between them are
 dropped in wrapping

---
 src/fit/wrap.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index f6c573a..e7cddce 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -105,11 +105,13 @@ pub fn hard_wrap_composite<'s, 'c>(
     let mut tokens = tokenize(&src_composite.compounds, width.saturating_sub(first_width));
     // Strategy 2:
     // we try to cut along tokens, using spaces to break
+    let mut cut = false; // true when blanks were dropped at the end of the line
     for token in tokens.drain(..) {
         // TODO: does that really take first_width into account ?
-        if dst_composite.visible_length + token.width > width {
+        if cut || dst_composite.visible_length + token.width > width {
+            // we skip blank composite at line change
+            cut = token.blank;
             if !token.blank {
-                // we skip blank composite at line change
                 let mut repl_composite = follow_up_composite(&dst_composite, skin);
                 std::mem::swap(&mut dst_composite, &mut repl_composite);
                 composites.push(repl_composite);
-- 
2.43.0


From ff370009a9976d51212744d0f0e5d450dc7afe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 06/41] fix: fitting a composite whose biggest token has
 nothing to remove

---
 src/fit/composite_fit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fit/composite_fit.rs b/src/fit/composite_fit.rs
index 7e12f88..69b69df 100644
--- a/src/fit/composite_fit.rs
+++ b/src/fit/composite_fit.rs
@@ -171,6 +171,10 @@ impl Zone {
                 break;
             }
         }
+        if removed_width == 0 {
+            // there's nothing to remove between the first and last characters
+            return 0;
+        }
         let start_byte_idx = self.byte_start_idx + self.char_infos[start_char_idx].byte_idx;
         let end_byte_idx = self.byte_start_idx + self.char_infos[end_char_idx].byte_idx;
         let head = compound.sub(0, start_byte_idx);
-- 
2.43.0


From c6022ed3a8d05728b83dfdcd8c1f81635687f7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 07/41] fix: left truncating a composite starting with an empty
 compound

---
 src/fit/composite_fit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fit/composite_fit.rs b/src/fit/composite_fit.rs
index 69b69df..f3923a5 100644
--- a/src/fit/composite_fit.rs
+++ b/src/fit/composite_fit.rs
@@ -280,6 +280,10 @@ impl Fitter {
             while excess_left > 0 && !compounds.is_empty() {
                 let compound = &mut compounds[0];
                 let char_infos = str_char_infos(compound.src);
+                if char_infos.is_empty() {
+                    compounds.remove(0);
+                    continue;
+                }
                 let mut last_removed_char_idx = 0;
                 let mut removed_width = 0;
                 loop {
-- 
2.43.0


From 4299eb7d404cb910417268816f204a6138d253f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 08/41] fix: CropWriter::queue_char replaces tabs, as
 queue_unstyled_char

---
 src/fit/crop_writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fit/crop_writer.rs b/src/fit/crop_writer.rs
index e96cb2b..9577272 100644
--- a/src/fit/crop_writer.rs
+++ b/src/fit/crop_writer.rs
@@ -62,6 +62,9 @@ where
         cs.queue(self.w, string)
     }
     pub fn queue_char(&mut self, cs: &CompoundStyle, c: char) -> Result<(), Error> {
+        if c == '\t' {
+            return self.queue_str(cs, self.tab_replacement);
+        }
         let width = UnicodeWidthChar::width(c).unwrap_or(0);
         if width < self.allowed {
             self.allowed -= width;
-- 
2.43.0


From fbff48e05f7bf4c9fff37758d1c6ca7edef87559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 09/41] fix: keep the scrollbar thumb inside the area

---
 src/area.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/area.rs b/src/area.rs
index 0b0c7ca..76c4ee2 100644
--- a/src/area.rs
+++ b/src/area.rs
@@ -131,16 +131,17 @@ where
     let content_height: usize = content_height.into();
     let available_height: usize = available_height.into();
     let top: usize = top.into();
-    if content_height <= available_height {
+    if content_height <= available_height || available_height == 0 {
         return None;
     }
     let mut track_before = scroll * available_height / content_height;
     if track_before == 0 && scroll > 0 {
         track_before = 1;
     }
+    track_before = track_before.min(available_height - 1);
     let thumb_height = available_height * available_height / content_height;
     let scrollbar_top = top + track_before;
-    let mut scrollbar_bottom = scrollbar_top + thumb_height;
+    let mut scrollbar_bottom = (scrollbar_top + thumb_height).min(top + available_height - 1);
     if scroll + available_height < content_height && available_height > 3 {
         scrollbar_bottom = scrollbar_bottom
             .min(top + available_height - 2)
-- 
2.43.0


From a5b6eba39c0babf63c0e5e87e1b6b63b59b1cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 10/41] fix: selection tail validated against its own line

---
 src/views/input_field_content.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index eab7f1a..973ff9d 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -179,7 +179,7 @@ impl InputFieldContent {
         } else {
             self.selection_tail = Some(Pos {
                 y: sel_tail.y,
-                x: sel_tail.x.min(self.lines[self.pos.y].chars.len()),
+                x: sel_tail.x.min(self.lines[sel_tail.y].chars.len()),
             });
         }
     }
-- 
2.43.0


From 276fd3e9d883d6a1b654de41689043e8762f08de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 11/41] fix: del_selection removes exactly the selected
 characters

---
 src/views/input_field_content.rs | 50 +++++++++-----------------------
 1 file changed, 14 insertions(+), 36 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index 973ff9d..d9191e3 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -402,43 +402,21 @@ impl InputFieldContent {
 
     pub fn del_selection(&mut self) -> bool {
         let Range { min, max } = self.selection();
-        if min.y == max.y {
-            if min.x == max.x {
-                return self.del_char_below();
-            }
-            if max.x == self.lines[min.y].chars.len() {
-                if min.x == 0 {
-                    // we remove the whole line
-                    self.lines.drain(min.y..min.y + 1);
-                    if self.lines.is_empty() {
-                        self.lines.push(Line::default());
-                    }
-                } else {
-                    self.lines[min.y].chars.drain(min.x..);
-                }
-            } else {
-                self.lines[min.y].chars.drain(min.x..max.x + 1);
-            }
+        if min == max {
+            return self.del_char_below();
+        }
+        // as the end of the selection is included, what's kept is what follows the
+        // char at max, or the newline at max when max is at the end of its line
+        let mut kept = if max.x < self.lines[max.y].chars.len() {
+            self.lines[max.y].chars.split_off(max.x + 1)
+        } else if max.y + 1 < self.lines.len() {
+            self.lines.remove(max.y + 1).chars
         } else {
-            let min_y = if min.x > 0 {
-                self.lines[min.y].chars.truncate(min.x);
-                min.y + 1
-            } else {
-                min.y
-            };
-            let max_y = if max.x < self.lines[max.y].chars.len() {
-                self.lines[max.y].chars.drain(0..max.x);
-                max.y - 1
-            } else {
-                max.y
-            };
-            if max_y > min_y {
-                self.lines.drain(min_y..(max_y + 1).min(self.lines.len()));
-                if self.lines.is_empty() {
-                    self.lines.push(Line::default());
-                }
-            }
-        }
+            Vec::new()
+        };
+        self.lines.drain(min.y + 1..max.y + 1);
+        self.lines[min.y].chars.truncate(min.x);
+        self.lines[min.y].chars.append(&mut kept);
         self.set_cursor_pos(min);
         self.selection_tail = None;
         true
-- 
2.43.0


From 62cb71353ef7d6365fd277cfed4eae63e84b6679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 12/41] fix: moving the cursor by 0 lines does nothing

---
 src/views/input_field_content.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index d9191e3..aae00d6 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -476,7 +476,7 @@ impl InputFieldContent {
     }
     /// Move the cursor up
     pub fn move_lines_up(&mut self, lines: usize) -> bool {
-        if self.pos.y > 0 {
+        if self.pos.y > 0 && lines > 0 {
             let cols = self.lines[self.pos.y].char_idx_to_col(self.pos.x);
             self.pos.y -= lines.min(self.pos.y);
             let line = &self.lines[self.pos.y];
@@ -492,7 +492,7 @@ impl InputFieldContent {
     }
     /// Move the cursor down
     pub fn move_lines_down(&mut self, lines: usize) -> bool {
-        if self.pos.y + 1 < self.lines.len() {
+        if self.pos.y + 1 < self.lines.len() && lines > 0 {
             let cols = self.lines[self.pos.y].char_idx_to_col(self.pos.x);
             self.pos.y += lines.min(self.lines.len() - self.pos.y - 1);
             let line = &self.lines[self.pos.y];
-- 
2.43.0


From 2feea655927c21fc51ee75a3ca65740dbf63f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 13/41] fix: keep the cursor's line visible when moving down in
 an input field

---
 src/views/input_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 1355f17..87c4667 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -499,8 +499,8 @@ impl InputField {
                     }
                 } else if pos.y >= self.scroll.y + height {
                     self.scroll.y = pos.y - height + 1;
-                    if pos.y + 1 < lines.len() {
-                        self.scroll.y -= 1;
+                    if pos.y + 1 < lines.len() && height > 4 {
+                        self.scroll.y += 1;
                     }
                 }
             }
-- 
2.43.0


From 72af228ef20d60b2918c191651e422437242108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 14/41] fix: keep the cursor visible on backspace and delete
 keys

---
 src/views/input_field.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 87c4667..2a03507 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -311,17 +311,15 @@ impl InputField {
     pub fn apply_keycode_event(&mut self, code: KeyCode, shift: bool) -> bool {
         if code == KeyCode::Backspace {
             if self.content.has_wide_selection() {
-                self.content.del_selection();
-                true
+                self.del_selection()
             } else {
-                self.content.del_char_left()
+                self.del_char_left()
             }
         } else if code == KeyCode::Delete {
             if self.content.has_wide_selection() {
-                self.content.del_selection();
-                true
+                self.del_selection()
             } else {
-                self.content.del_char_below()
+                self.del_char_below()
             }
         } else if let KeyCode::Char(c) = code {
             if self.content.has_wide_selection() {
-- 
2.43.0


From dcc995a465e4999a93306b7952e445ca61bbb5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 15/41] fix: keep the cursor visible when an input field is
 focused by a click

---
 src/views/input_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 2a03507..b0f18ad 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -362,7 +362,7 @@ impl InputField {
                     .unwrap_or(line.chars.len());
                 self.content.set_cursor_pos(Pos { x, y });
             } else {
-                self.focused = true;
+                self.set_focus(true);
             }
             true
         } else {
@@ -416,7 +416,7 @@ impl InputField {
                     _ => {}
                 }
             } else if matches!(kind, MouseEventKind::Down(MouseButton::Left)) {
-                self.focused = true;
+                self.set_focus(true);
             }
             true
         } else {
-- 
2.43.0


From c1e5b4ab400c7b804b2ce6863a556aadca830631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 16/41] fix: scrollbar of input fields of more than 65535 lines

---
 src/views/input_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index b0f18ad..30598ce 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -562,7 +562,7 @@ impl InputField {
         let mut terminal_cursor_pos = None;
         let scrollbar = self
             .area
-            .scrollbar(self.scroll.y as u16, self.content.line_count() as u16);
+            .scrollbar(self.scroll.y, self.content.line_count());
         if scrollbar.is_some() {
             width -= 1;
         }
-- 
2.43.0


From 79e0b78d089fad40c488d36adee065035716fa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 17/41] fix: tabs in input fields are displayed as spaces

---
 src/views/input_field.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 30598ce..0d4676a 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -628,10 +628,16 @@ impl InputField {
                         }
                     }
                     if self.focused && selection.contains(i, y) {
-                        self.cursor_style.queue(w, c)?;
+                        if c == '\t' {
+                            self.cursor_style.queue(w, TAB_REPLACEMENT)?;
+                        } else {
+                            self.cursor_style.queue(w, c)?;
+                        }
                         // set terminal cursor position
                         terminal_cursor_pos =
                             Some((self.area.left + displayed_width as u16, self.area.top + j));
+                    } else if c == '\t' {
+                        normal_style.queue(w, TAB_REPLACEMENT)?;
                     } else {
                         normal_style.queue(w, c)?;
                     }
-- 
2.43.0


From 956e507ab100180e85463185f4f31c01574fd4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 18/41] fix: terminal cursor position in a horizontally
 scrolled input field

---
 src/views/input_field.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 0d4676a..f662188 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -595,12 +595,14 @@ impl InputField {
                 let mut width_to_skip = self.scroll.x;
                 let mut skipped_width = 0;
                 let mut displayed_width = 0;
+                let mut left = self.area.left; // where the chars start
                 let mut width = width; // available width for rendering chars
                                        // we don't show ellipsis if the width is 4 or less
                 if width_to_skip > 0 && width > 4 {
                     normal_style.queue(w, fit::ELLIPSIS)?;
                     width_to_skip += 1;
                     width -= 1;
+                    left += 1;
                 }
                 for (i, c) in chars.iter().enumerate() {
                     let c = if self.password_mode { '*' } else { *c };
@@ -617,7 +619,7 @@ impl InputField {
                                 self.cursor_style.queue(w, fit::ELLIPSIS)?;
                                 // set terminal cursor position
                                 terminal_cursor_pos = Some((
-                                    self.area.left + displayed_width as u16,
+                                    left + displayed_width as u16,
                                     self.area.top + j,
                                 ));
                             } else {
@@ -635,7 +637,7 @@ impl InputField {
                         }
                         // set terminal cursor position
                         terminal_cursor_pos =
-                            Some((self.area.left + displayed_width as u16, self.area.top + j));
+                            Some((left + displayed_width as u16, self.area.top + j));
                     } else if c == '\t' {
                         normal_style.queue(w, TAB_REPLACEMENT)?;
                     } else {
@@ -650,7 +652,7 @@ impl InputField {
                     self.cursor_style.queue(w, ' ')?;
                     // set terminal cursor position
                     terminal_cursor_pos =
-                        Some((self.area.left + displayed_width as u16, self.area.top + j));
+                        Some((left + displayed_width as u16, self.area.top + j));
                     displayed_width += 1;
                 }
                 while displayed_width < width {
-- 
2.43.0


From 27a9bf95299c2f05669738e3430d205af0cd2e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 19/41] fix: no overflow when scrolling a text view by i32::MIN
 lines

---
 src/views/text_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index e35065c..62870f5 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -143,7 +143,7 @@ impl<'a, 't> TextView<'a, 't> {
     /// lines_count can be negative
     pub fn try_scroll_lines(&mut self, lines_count: i32) {
         if lines_count < 0 {
-            let lines_count = -lines_count as usize;
+            let lines_count = lines_count.unsigned_abs() as usize;
             self.scroll = if lines_count >= self.scroll {
                 0
             } else {
-- 
2.43.0


From 624cf7647ccf1a3fac275b172e3e6bf5796d71ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 20/41] fix: scrollbar of texts of more than 65535 lines

---
 src/views/text_view.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index 62870f5..00e9daf 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -83,8 +83,7 @@ impl<'a, 't> TextView<'a, 't> {
     ///  the available space (or if show_scrollbar is false).
     pub fn scrollbar(&self) -> Option<(u16, u16)> {
         if self.show_scrollbar {
-            self.area
-                .scrollbar(self.scroll as u16, self.content_height() as u16)
+            self.area.scrollbar(self.scroll, self.content_height())
         } else {
             None
         }
-- 
2.43.0


From 1f8a14bb203284162daa44d4ab10684260a37263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 21/41] fix: no overflow when scrolling a view by many pages

---
 src/views/mad_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index 7cbb8c2..831f848 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -69,7 +69,7 @@ impl MadView {
     /// set the scroll amount.
     /// lines_count can be negative
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
-        self.try_scroll_lines(pages_count * i32::from(self.area.height));
+        self.try_scroll_lines(pages_count.saturating_mul(i32::from(self.area.height)));
     }
     /// Apply an event being a key: page_up, page_down, up and down.
     ///
-- 
2.43.0


From 81b4bec969c718281906290a40823a08b4ccfbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 22/41] fix: keep the scroll of a MadView valid when its area
 is resized

---
 src/views/mad_view.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index 831f848..d398453 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -56,6 +56,8 @@ impl MadView {
         self.area.top = area.top;
         self.area.height = area.height;
         self.area.width = area.width;
+        // the scroll may be too big for the new height
+        self.try_scroll_lines(0);
     }
     /// set the scroll amount.
     /// lines_count can be negative
-- 
2.43.0


From 2e6ae8ce37e32bb1486d93fad7c4cbaf72b3c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 23/41] fix: scrolling down a list view with few rows

---
 src/views/list_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 31a109d..cb47f0c 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -368,7 +368,7 @@ impl<'t, T> ListView<'t, T> {
             };
         } else {
             self.scroll = (self.scroll + lines_count as usize)
-                .min(self.displayed_rows_count - self.tbody_height() as usize + 1);
+                .min((self.displayed_rows_count + 1).saturating_sub(self.tbody_height() as usize));
         }
         self.make_selection_visible();
     }
-- 
2.43.0


From 90cd5741f2601290a232e98f92fcc024867fae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 24/41] fix: no overflow when scrolling a list view by many
 lines or pages

---
 src/views/list_view.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index cb47f0c..5a75b76 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -360,7 +360,7 @@ impl<'t, T> ListView<'t, T> {
     /// lines_count can be negative
     pub fn try_scroll_lines(&mut self, lines_count: i32) {
         if lines_count < 0 {
-            let lines_count = -lines_count as usize;
+            let lines_count = lines_count.unsigned_abs() as usize;
             self.scroll = if lines_count >= self.scroll {
                 0
             } else {
@@ -375,7 +375,7 @@ impl<'t, T> ListView<'t, T> {
     /// set the scroll amount.
     /// pages_count can be negative
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
-        self.try_scroll_lines(pages_count * self.tbody_height() as i32)
+        self.try_scroll_lines(pages_count.saturating_mul(self.tbody_height() as i32))
     }
     /// try to select the next visible line
     pub fn try_select_next(&mut self, up: bool) {
-- 
2.43.0


From 897e19aadf878af9623fc1cc19053bada4d9ff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 25/41] fix: underflow when selecting the last visible line of
 a list view

---
 src/views/list_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 5a75b76..d594d42 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -437,7 +437,7 @@ impl<'t, T> ListView<'t, T> {
             if sel <= self.scroll {
                 self.scroll = if sel > 2 { sel - 2 } else { 0 };
             } else if sel + 1 >= self.scroll + tbody_height {
-                self.scroll = sel - tbody_height + 2;
+                self.scroll = sel + 2 - tbody_height;
             }
         }
     }
-- 
2.43.0


From 5b30a6f3caad11d559bcf8e55addbb42f97b7b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 26/41] fix: scrollbar of list views of more than 65535 rows

---
 src/views/list_view.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index d594d42..c56bb13 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -163,8 +163,8 @@ impl<'t, T> ListView<'t, T> {
     #[inline(always)]
     pub fn scrollbar(&self) -> Option<(u16, u16)> {
         compute_scrollbar(
-            self.scroll as u16,
-            self.displayed_rows_count as u16,
+            self.scroll,
+            self.displayed_rows_count,
             self.tbody_height(),
             self.area.top,
         )
-- 
2.43.0


From d2c2436765582ba8daefbc018fb6e5ac8f9cfac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 27/41] fix: parse color names exactly, so that dark colors
 aren't read as the normal ones

---
 src/parse/parse_color.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/parse/parse_color.rs b/src/parse/parse_color.rs
index 0a9307c..5786e17 100644
--- a/src/parse/parse_color.rs
+++ b/src/parse/parse_color.rs
@@ -80,21 +80,22 @@ pub fn parse_color(s: &str) -> Result<Color, ParseColorError> {
             };
             rgb(r, g, b)
         }
-        "black"i => Color::AnsiValue(16),
-        "blue"i => Color::Blue,
-        "cyan"i => Color::Cyan,
-        "darkblue"i => Color::DarkBlue,
-        "darkcyan"i => Color::DarkCyan,
-        "darkgreen"i => Color::DarkGreen,
-        "darkmagenta"i => Color::DarkMagenta,
-        "darkred"i => Color::DarkRed,
-        "green"i => Color::Green,
-        "grey"i => Color::Grey,
-        "magenta"i => Color::Magenta,
-        "red"i => Color::Red,
-        "yellow"i => Color::Yellow,
-        "darkyellow"i => Color::DarkYellow,
-        "white"i => Color::AnsiValue(231),
+        "^black$"i => Color::AnsiValue(16),
+        "^blue$"i => Color::Blue,
+        "^cyan$"i => Color::Cyan,
+        "^darkblue$"i => Color::DarkBlue,
+        "^darkcyan$"i => Color::DarkCyan,
+        "^darkgreen$"i => Color::DarkGreen,
+        "^darkgrey$"i => Color::DarkGrey,
+        "^darkmagenta$"i => Color::DarkMagenta,
+        "^darkred$"i => Color::DarkRed,
+        "^green$"i => Color::Green,
+        "^grey$"i => Color::Grey,
+        "^magenta$"i => Color::Magenta,
+        "^red$"i => Color::Red,
+        "^yellow$"i => Color::Yellow,
+        "^darkyellow$"i => Color::DarkYellow,
+        "^white$"i => Color::AnsiValue(231),
     )
     .ok_or(ParseColorError::Unrecognized)
 }
-- 
2.43.0


From d693c38dea0119ac6d4bb4fdcf2d560ab0c125df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 28/41] fix: parse attributes, alignments and none exactly

---
 src/parse/mod.rs             |  2 +-
 src/parse/parse_align.rs     |  6 +++---
 src/parse/parse_attribute.rs | 20 ++++++++++----------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 4892034..cdb319f 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -111,7 +111,7 @@ pub fn style_tokens_to_string(tokens: &[StyleToken]) -> String {
 }
 
 pub fn parse_style_token(s: &str) -> Result<StyleToken, ParseStyleTokenError> {
-    if regex_is_match!("none"i, s) {
+    if regex_is_match!("^none$"i, s) {
         return Ok(StyleToken::None);
     }
     if let Ok(number) = s.parse() {
diff --git a/src/parse/parse_align.rs b/src/parse/parse_align.rs
index 6ea3db9..07cda7d 100644
--- a/src/parse/parse_align.rs
+++ b/src/parse/parse_align.rs
@@ -21,11 +21,11 @@ pub fn write_align(f: &mut fmt::Formatter<'_>, a: Alignment) -> fmt::Result {
 
 /// Read a Minimad Alignment from a string.
 pub fn parse_align(s: &str) -> Result<Alignment, ParseAlignError> {
-    if regex_is_match!("left"i, s) {
+    if regex_is_match!("^left$"i, s) {
         Ok(Alignment::Left)
-    } else if regex_is_match!("center"i, s) {
+    } else if regex_is_match!("^center$"i, s) {
         Ok(Alignment::Center)
-    } else if regex_is_match!("right"i, s) {
+    } else if regex_is_match!("^right$"i, s) {
         Ok(Alignment::Right)
     } else {
         Err(ParseAlignError::Unrecognized)
diff --git a/src/parse/parse_attribute.rs b/src/parse/parse_attribute.rs
index 98104da..4ddda24 100644
--- a/src/parse/parse_attribute.rs
+++ b/src/parse/parse_attribute.rs
@@ -42,25 +42,25 @@ pub fn write_attribute(f: &mut fmt::Formatter<'_>, a: Attribute) -> fmt::Result
 
 /// Read a Minimad Attributement from a string.
 pub fn parse_attribute(s: &str) -> Result<Attribute, ParseAttributeError> {
-    if regex_is_match!("bold"i, s) {
+    if regex_is_match!("^bold$"i, s) {
         Ok(Attribute::Bold)
-    } else if regex_is_match!("crossed[_-]?out"i, s) {
+    } else if regex_is_match!("^crossed[_-]?out$"i, s) {
         Ok(Attribute::CrossedOut)
-    } else if regex_is_match!("dim"i, s) {
+    } else if regex_is_match!("^dim$"i, s) {
         Ok(Attribute::Dim)
-    } else if regex_is_match!("italic"i, s) {
+    } else if regex_is_match!("^italic$"i, s) {
         Ok(Attribute::Italic)
-    } else if regex_is_match!("under[_-]?lined"i, s) {
+    } else if regex_is_match!("^under[_-]?lined$"i, s) {
         Ok(Attribute::Underlined)
-    } else if regex_is_match!("over[_-]?lined"i, s) {
+    } else if regex_is_match!("^over[_-]?lined$"i, s) {
         Ok(Attribute::OverLined)
-    } else if regex_is_match!("reverse"i, s) {
+    } else if regex_is_match!("^reverse$"i, s) {
         Ok(Attribute::Reverse)
-    } else if regex_is_match!("encircled"i, s) {
+    } else if regex_is_match!("^encircled$"i, s) {
         Ok(Attribute::Encircled)
-    } else if regex_is_match!("slow[_-]?blink"i, s) {
+    } else if regex_is_match!("^slow[_-]?blink$"i, s) {
         Ok(Attribute::SlowBlink)
-    } else if regex_is_match!("rapid[_-]?blink"i, s) {
+    } else if regex_is_match!("^rapid[_-]?blink$"i, s) {
         Ok(Attribute::RapidBlink)
     } else {
         Err(ParseAttributeError::Unrecognized)
-- 
2.43.0


From 563f3ce463961513a00c193586aebf842b903b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 29/41] fix: write_style_tokens separates the tokens

---
 src/parse/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index cdb319f..57b0caf 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -88,10 +88,10 @@ pub fn write_style_tokens<W: io::Write>(w: &mut W, tokens: &[StyleToken]) -> io:
     let mut first = true;
     for token in tokens {
         if first {
-            write!(w, " {token}")?;
+            write!(w, "{token}")?;
             first = false;
         } else {
-            write!(w, "{token}")?;
+            write!(w, " {token}")?;
         }
     }
     Ok(())
-- 
2.43.0


From 206baaed63dcf723a1afc682ca5decb85f3714d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 30/41] fix: too big margins are written as the biggest
 supported one

---
 src/parse/parse_line_style.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/parse_line_style.rs b/src/parse/parse_line_style.rs
index 3ad95cb..2dfbab7 100644
--- a/src/parse/parse_line_style.rs
+++ b/src/parse/parse_line_style.rs
@@ -46,8 +46,8 @@ impl PushStyleTokens for LineStyle {
         self.compound_style.push_style_tokens(tokens);
         tokens.push(StyleToken::Align(self.align));
         if self.left_margin > 0 || self.right_margin > 0 {
-            tokens.push(StyleToken::Dimension(self.left_margin.min(65536) as u16));
-            tokens.push(StyleToken::Dimension(self.right_margin.min(65536) as u16));
+            tokens.push(StyleToken::Dimension(self.left_margin.min(65535) as u16));
+            tokens.push(StyleToken::Dimension(self.right_margin.min(65535) as u16));
         }
     }
 }
-- 
2.43.0


From 80f95978b21bdd034710ca413222f87d5a0bfa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 31/41] fix: blending a style blends its background

---
 src/compound_style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index b5126c1..1d9be4d 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -86,7 +86,7 @@ impl CompoundStyle {
             let src: coolor::Color = (*fg).into();
             *fg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
         }
-        if let Some(bg) = self.object_style.foreground_color.as_mut() {
+        if let Some(bg) = self.object_style.background_color.as_mut() {
             let src: coolor::Color = (*bg).into();
             *bg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
         }
-- 
2.43.0


From d27d8d7ae2b705a8be37718db559e02654c3a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 32/41] fix: a blended styled char is displayed with its new
 style

---
 src/styled_char.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/styled_char.rs b/src/styled_char.rs
index 67a0729..6c374a0 100644
--- a/src/styled_char.rs
+++ b/src/styled_char.rs
@@ -100,6 +100,7 @@ impl StyledChar {
     }
     pub fn blend_with<C: Into<coolor::Color>>(&mut self, color: C, weight: f32) {
         self.compound_style.blend_with(color, weight);
+        self.styled_char = self.compound_style.apply_to(self.nude_char);
     }
 }
 
-- 
2.43.0


From 2ea9c411f8eef974154abf620e569a69b16aaec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 33/41] fix: no underflow when formatting a text for an empty
 area

---
 src/skin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skin.rs b/src/skin.rs
index 827afa2..1dea5c4 100644
--- a/src/skin.rs
+++ b/src/skin.rs
@@ -363,7 +363,7 @@ impl MadSkin {
     ///
     /// Code blocs will be right justified
     pub fn area_text<'k, 's>(&'k self, src: &'s str, area: &Area) -> FmtText<'k, 's> {
-        FmtText::from(self, src, Some(area.width as usize - 1))
+        FmtText::from(self, src, Some((area.width as usize).saturating_sub(1)))
     }
 
     pub fn write_in_area(&self, markdown: &str, area: &Area) -> Result<()> {
-- 
2.43.0


From 433ca8ae0836ac5cdf3d782cc0cc76a2782b8588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 34/41] fix: columns of a list view without maximal width

---
 src/views/list_view.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index c56bb13..c233a88 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -211,12 +211,11 @@ impl<'t, T> ListView<'t, T> {
                 self.columns[i].spacing.width = self.columns[i].min_width;
             }
         } else {
-            let mut excess = available_width - sum_min_widths;
+            let mut excess = (available_width - sum_min_widths) as usize;
             for i in 0..self.columns.len() {
-                let d =
-                    ((self.columns[i].max_width - self.columns[i].min_width) as i32).min(excess);
+                let d = (self.columns[i].max_width - self.columns[i].min_width).min(excess);
                 excess -= d;
-                self.columns[i].spacing.width = self.columns[i].min_width + d as usize;
+                self.columns[i].spacing.width = self.columns[i].min_width + d;
             }
             // there might be some excess, but it's better to have some space at right rather
             //  than a too wide table
-- 
2.43.0


From ca4dbda3e61d98fd504c6ecb34f622712308a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 35/41] fix: scrollbar thumb of a list view which isn't at the
 top of the screen

---
 src/views/list_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index c233a88..198680d 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -325,7 +325,7 @@ impl<'t, T> ListView<'t, T> {
             }
             if let Some((sctop, scbottom)) = scrollbar {
                 queue!(w, MoveTo(sx, self.area.top + y))?;
-                let y = y - 2;
+                let y = self.area.top + y - 2;
                 if sctop <= y && y <= scbottom {
                     self.skin.scrollbar.thumb.queue(w)?;
                 } else {
-- 
2.43.0


From 1049af8f2ea5e3630f0a8ca39cb8a3abe7245a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 36/41] fix: the scrollbar of a list view is drawn in its area

---
 src/views/list_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 198680d..0701475 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -245,7 +245,7 @@ impl<'t, T> ListView<'t, T> {
     where
         W: std::io::Write,
     {
-        let sx = self.area.left + self.area.width;
+        let sx = self.area.left + self.area.width.saturating_sub(1);
         let vbar = self.skin.table.compound_style.style_char('│');
         let tee = self.skin.table.compound_style.style_char('┬');
         let cross = self.skin.table.compound_style.style_char('┼');
-- 
2.43.0


From 086a5ef94b99173807374c0d992500fe3072232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 37/41] fix: width of a table rule without column

---
 src/skin.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skin.rs b/src/skin.rs
index 1dea5c4..93256ff 100644
--- a/src/skin.rs
+++ b/src/skin.rs
@@ -612,7 +612,8 @@ impl MadSkin {
                 }
             }
             FmtLine::TableRule(rule) => {
-                let tbl_width = 1 + rule.widths.iter().fold(0, |sum, w| sum + w + 1);
+                // both corners are always written, even when there's no column
+                let tbl_width = (1 + rule.widths.iter().fold(0, |sum, w| sum + w + 1)).max(2);
                 let (lpo, rpo) = Spacing::optional_completions(self.table.align, tbl_width, width);
                 self.paragraph.repeat_space(f, lpo)?;
                 write!(
-- 
2.43.0


From 615927b1c25902a2c949d4383b723856cd8007df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:59 +0000
Subject: [PATCH 38/41] fix: an input field of width 1 with a scrollbar was
 drawn on 2 columns

---
 src/views/input_field.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index f662188..fddbfdf 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -612,6 +612,9 @@ impl InputField {
                         skipped_width += char_width;
                         continue;
                     }
+                    if displayed_width >= width {
+                        break;
+                    }
                     if displayed_width + char_width >= width {
                         let is_last = i == chars.len() - 1;
                         if !is_last || displayed_width + char_width > width {
@@ -644,9 +647,6 @@ impl InputField {
                         normal_style.queue(w, c)?;
                     }
                     displayed_width += char_width;
-                    if displayed_width >= width {
-                        break;
-                    }
                 }
                 if displayed_width < width && cursor_at_end {
                     self.cursor_style.queue(w, ' ')?;
-- 
2.43.0


From 1b69f173b503f30ee081f5969af5a4852ebbc223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:12 +0000
Subject: [PATCH 39/41] fix: no scrollbar in a text view without column

---
 src/views/text_view.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index 00e9daf..6aeca00 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -99,7 +99,8 @@ impl<'a, 't> TextView<'a, 't> {
 
     /// display the text in the area, taking the scroll into account.
     pub fn write_on<W: Write>(&self, w: &mut W) -> Result<()> {
-        let scrollbar = self.scrollbar();
+        // there's no place for a scrollbar in an area without columns
+        let scrollbar = if self.area.width > 0 { self.scrollbar() } else { None };
         let mut lines = self.text.lines.iter().skip(self.scroll);
         let mut width = self.area.width as usize;
         if scrollbar.is_some() {
-- 
2.43.0


From 6561508269826d3bffa0068c452326d2902f9246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:13 +0000
Subject: [PATCH 40/41] fix: write_composite_fill wrote more columns than asked
 when lines have margins

---
 src/skin.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/skin.rs b/src/skin.rs
index 93256ff..7349915 100644
--- a/src/skin.rs
+++ b/src/skin.rs
@@ -468,14 +468,11 @@ impl MadSkin {
         W: std::io::Write,
     {
         let mut fc = FmtComposite::from(composite, self);
-        fc.fill_width(width, align, self);
-        Ok(queue!(
-            w,
-            Print(FmtInline {
-                skin: self,
-                composite: fc,
-            })
-        )?)
+        // the margins, when there's room for them, are part of the width
+        let (left_margin, right_margin) = self.line_style(fc.kind).margins_in(Some(width));
+        fc.fill_width(width - left_margin - right_margin, align, self);
+        let line = FmtLine::Normal(fc);
+        Ok(queue!(w, Print(DisplayableLine::new(self, &line, Some(width))))?)
     }
 
     /// parse the given src as a markdown snippet and write it on
-- 
2.43.0


From 2c6bb67e9acb596a9dbb153c30647a23fea664cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:54 +0000
Subject: [PATCH 41/41] fix: scrollbar styles which aren't just two foreground
 colors were lost when serialized

---
 src/serde/serde_scrollbar_style.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/serde/serde_scrollbar_style.rs b/src/serde/serde_scrollbar_style.rs
index cb2a5c9..ee46626 100644
--- a/src/serde/serde_scrollbar_style.rs
+++ b/src/serde/serde_scrollbar_style.rs
@@ -26,11 +26,18 @@ pub enum ScrollBarStyleDef {
     },
 }
 
+/// whether the styling is just a foreground color, which is
+/// all the simple representation can keep
+fn is_only_fg(sc: &StyledChar) -> bool {
+    let cs = sc.compound_style();
+    cs.get_fg().is_some() && cs.get_bg().is_none() && cs.attrs().is_empty()
+}
+
 impl From<&ScrollBarStyle> for ScrollBarStyleDef {
     fn from(sc: &ScrollBarStyle) -> Self {
         let simple = sc.track.nude_char() == sc.thumb.nude_char()
-            && sc.track.get_bg().is_none()
-            && sc.thumb.get_bg().is_none();
+            && is_only_fg(&sc.track)
+            && is_only_fg(&sc.thumb);
         if simple {
             Self::Simple(StyledChar::new(
                 CompoundStyle::new(sc.thumb.get_fg(), sc.track.get_fg(), Default::default()),
-- 
2.43.0

