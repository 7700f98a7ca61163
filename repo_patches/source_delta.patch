From cafb5ff766f4d8c48c6b1d0abc9968a300a7ed1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 01/39] fix: move every child in reparent_children, not only
 the first one

---
 victor/src/dom/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/dom/html.rs b/victor/src/dom/html.rs
index b93a81d..6ebcfc6 100644
--- a/victor/src/dom/html.rs
+++ b/victor/src/dom/html.rs
@@ -202,8 +202,8 @@ impl TreeSink for Sink {
         let mut next_child = self.document[node].first_child;
         while let Some(child) = next_child {
             debug_assert_eq!(self.document[child].parent, Some(node));
+            next_child = self.document[child].next_sibling;
             self.document.append(new_parent, child);
-            next_child = self.document[child].next_sibling
         }
     }
 }
-- 
2.43.0


From 625f78df84c2e0bc7d4366b559a0b778c50fbba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 02/39] fix: stay inside the subtree, and terminate, when
 unsetting the boxes of display:none

---
 victor/src/layout/dom_traversal.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/victor/src/layout/dom_traversal.rs b/victor/src/layout/dom_traversal.rs
index 848e89b..73a5fb1 100644
--- a/victor/src/layout/dom_traversal.rs
+++ b/victor/src/layout/dom_traversal.rs
@@ -327,18 +327,18 @@ impl Context<'_> {
             }
             let mut next_is_a_sibling_of = node_id;
             node_id = loop {
+                if next_is_a_sibling_of == base_element {
+                    // Don’t go outside the subtree
+                    return;
+                }
                 if let Some(sibling) = self.document[next_is_a_sibling_of].next_sibling {
                     break sibling;
                 } else {
-                    next_is_a_sibling_of = node
+                    next_is_a_sibling_of = self.document[next_is_a_sibling_of]
                         .parent
                         .expect("reached the root while traversing only a subtree");
                 }
             };
-            if next_is_a_sibling_of == base_element {
-                // Don’t go outside the subtree
-                return;
-            }
         }
     }
 }
-- 
2.43.0


From b40f5257b55acc9bf4091a876a2109103a880139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 03/39] fix: do not panic on a block-level box inside of an
 inline box

---
 victor/src/layout/flow/construct.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 4acfc93..4729d5d 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -470,11 +470,6 @@ impl<'a> BlockContainerBuilder<'a> {
     }
 
     fn end_ongoing_inline_formatting_context(&mut self) {
-        assert!(
-            self.ongoing_inline_boxes_stack.is_empty(),
-            "there should be no ongoing inline level boxes",
-        );
-
         if self
             .ongoing_inline_formatting_context
             .inline_level_boxes
-- 
2.43.0


From 06efb50b528c34faa0c17a3059d5131adc8631d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 04/39] fix: match class selectors against each class of the
 class attribute

---
 victor/src/style/selectors.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/victor/src/style/selectors.rs b/victor/src/style/selectors.rs
index 07228b6..a50bd93 100644
--- a/victor/src/style/selectors.rs
+++ b/victor/src/style/selectors.rs
@@ -232,7 +232,8 @@ impl<'a> selectors::Element for NodeRef<'a> {
             .unwrap()
             .get_attr(&local_name!("class"))
             .map_or(false, |attr| {
-                case_sensitivity.eq(class.as_bytes(), attr.as_bytes())
+                attr.split(|c: char| c.is_ascii_whitespace())
+                    .any(|name| case_sensitivity.eq(class.as_bytes(), name.as_bytes()))
             })
     }
 
-- 
2.43.0


From 012952b401239a816524c3e87669c57cb8c603c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 05/39] fix: take four-value shorthands in top, right, bottom,
 left order

---
 victor/src/style/values/generic.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/victor/src/style/values/generic.rs b/victor/src/style/values/generic.rs
index 8985ac1..6f3de2d 100644
--- a/victor/src/style/values/generic.rs
+++ b/victor/src/style/values/generic.rs
@@ -16,8 +16,8 @@ where
     fn parse<'i, 't>(parser: &mut Parser<'i, 't>) -> Result<Self, PropertyParseError<'i>> {
         let top = T::parse(parser)?;
 
-        let left = if let Ok(left) = parser.r#try(T::parse) {
-            left
+        let right = if let Ok(right) = parser.r#try(T::parse) {
+            right
         } else {
             return Ok(FourSides {
                 top: top.clone(),
@@ -32,20 +32,20 @@ where
         } else {
             return Ok(FourSides {
                 top: top.clone(),
-                left: left.clone(),
+                left: right.clone(),
                 bottom: top,
-                right: left,
+                right,
             });
         };
 
-        let right = if let Ok(right) = parser.r#try(T::parse) {
-            right
+        let left = if let Ok(left) = parser.r#try(T::parse) {
+            left
         } else {
             return Ok(FourSides {
                 top: top,
-                left: left.clone(),
+                left: right.clone(),
                 bottom: bottom,
-                right: left,
+                right,
             });
         };
 
-- 
2.43.0


From e09192222e5874cab635853c6c0412fb98638bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 06/39] fix: apply <style> elements with an empty type
 attribute

---
 victor/src/dom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index 8603d44..19f840c 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -50,7 +50,7 @@ impl Document {
             let element = &self[id];
             // https://html.spec.whatwg.org/multipage/semantics.html#update-a-style-block
             if let Some(type_attr) = element.as_element().unwrap().get_attr(&local_name!("type")) {
-                if !type_attr.eq_ignore_ascii_case("text/css") {
+                if !type_attr.is_empty() && !type_attr.eq_ignore_ascii_case("text/css") {
                     continue;
                 }
             }
-- 
2.43.0


From 64a17ba9f94893f514d8b2e7dc3ea776a6f920a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:35 +0000
Subject: [PATCH 07/39] fix: ignore declarations with trailing tokens after
 their value instead of panicking

---
 victor/src/style/declaration_block.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/victor/src/style/declaration_block.rs b/victor/src/style/declaration_block.rs
index 68699de..637b228 100644
--- a/victor/src/style/declaration_block.rs
+++ b/victor/src/style/declaration_block.rs
@@ -100,6 +100,11 @@ impl<'i> DeclarationParser<'i> for LonghandDeclarationParser {
                 parsed = (data.parse)(parser, &mut self.block.declarations)?
             }
             let important = parser.r#try(cssparser::parse_important).is_ok();
+            if let Err(error) = parser.expect_exhausted() {
+                // Trailing tokens make the whole declaration invalid
+                self.block.declarations.truncate(previous_len);
+                return Err(error.into());
+            }
             let count = self.block.declarations.len() - previous_len;
             assert!(count > 0);
             self.block.important.extend(repeat(important).take(count));
-- 
2.43.0


From 74b73fd5ddd25d64c67df3461fb7ad9cf1820caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 08/39] fix: match CSS keywords ASCII-case-insensitively

---
 proc-macros/src/style.rs        | 16 ++++++++--------
 victor/src/style/values/box_.rs |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/proc-macros/src/style.rs b/proc-macros/src/style.rs
index 901ac09..b06c325 100644
--- a/proc-macros/src/style.rs
+++ b/proc-macros/src/style.rs
@@ -158,14 +158,14 @@ pub fn derive_parse(input: TokenStream) -> TokenStream {
     if !unit_variants.is_empty() {
         parse.extend(quote! {
             if let Ok(ident) = parser.r#try(|parser| parser.expect_ident_cloned()) {
-                match &*ident {
-                    #(
-                        #keywords => return Ok(#unit_variants),
-                    )*
-                    _ => return Err(parser.new_unexpected_token_error(
-                        cssparser::Token::Ident(ident)
-                    ))
-                }
+                #(
+                    if ident.eq_ignore_ascii_case(#keywords) {
+                        return Ok(#unit_variants)
+                    }
+                )*
+                return Err(parser.new_unexpected_token_error(
+                    cssparser::Token::Ident(ident)
+                ))
             }
         })
     }
diff --git a/victor/src/style/values/box_.rs b/victor/src/style/values/box_.rs
index 4a5184d..33d5425 100644
--- a/victor/src/style/values/box_.rs
+++ b/victor/src/style/values/box_.rs
@@ -78,7 +78,7 @@ impl Display {
 impl super::Parse for Display {
     fn parse<'i, 't>(parser: &mut Parser<'i, 't>) -> Result<Self, PropertyParseError<'i>> {
         let ident = parser.expect_ident()?;
-        match &**ident {
+        match_ignore_ascii_case!(ident,
             "none" => Ok(Display::None),
             "contents" => Ok(Display::Contents),
             "block" => Ok(Display::GeneratingBox(
@@ -103,7 +103,7 @@ impl super::Parse for Display {
                 let token = cssparser::Token::Ident(ident.clone());
                 Err(parser.new_unexpected_token_error(token))
             }
-        }
+        )
     }
 }
 
-- 
2.43.0


From 1a8b5d3078178afda5340ba3c0ea2cc716f35fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:43 +0000
Subject: [PATCH 09/39] =?UTF-8?q?fix:=20resolve=20the=20block=20axis=20of?=
 =?UTF-8?q?=20absolutely=20positioned=20boxes=20against=20the=20containing?=
 =?UTF-8?q?=20block=E2=80=99s=20block=20size?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 victor/src/layout/positioned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index 9794d1a..9fa376a 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -217,7 +217,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
         );
 
         let (block_anchor, block_size, margin_block_start, margin_block_end) = solve_axis(
-            cbis,
+            cbbs,
             pb.block_sum(),
             computed_margin.block_start,
             computed_margin.block_end,
-- 
2.43.0


From b51a3e9e5a45bdd2cde9413a6fa0f2aa253af74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 10/39] fix: anchor right-aligned absolutely positioned boxes
 on the inline size

---
 victor/src/layout/positioned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index 9fa376a..fa65ed2 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -263,7 +263,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
 
         let inline_start = match inline_anchor {
             Anchor::Start(start) => start + pb.inline_start + margin.inline_start,
-            Anchor::End(end) => cbbs - end - pb.inline_end - margin.inline_end - inline_size,
+            Anchor::End(end) => cbis - end - pb.inline_end - margin.inline_end - inline_size,
         };
 
         let block_size = block_size.auto_is(|| flow_children.block_size);
-- 
2.43.0


From 9c768d1ccf6d1b239ad1d67a865a786a6da239ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 11/39] fix: account for padding in the static position of
 absolutely positioned boxes

---
 victor/src/layout/flow/mod.rs   |  2 +-
 victor/src/layout/positioned.rs | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index a810dfb..ba43573 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -420,7 +420,7 @@ fn layout_in_flow_non_replaced_block_level<'a>(
     };
     if style.box_.position.is_relatively_positioned() {
         AbsolutelyPositionedFragment::in_positioned_containing_block(
-            &nested_abspos,
+            &mut nested_abspos,
             &mut flow_children.fragments,
             &content_rect.size,
             &padding,
diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index fa65ed2..f2947fe 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -83,7 +83,7 @@ impl AbsolutelyPositionedBox {
 
 impl<'a> AbsolutelyPositionedFragment<'a> {
     pub(super) fn in_positioned_containing_block(
-        absolute: &[Self],
+        absolute: &mut [Self],
         fragments: &mut Vec<Fragment>,
         content_rect_size: &Vec2<Length>,
         padding: &Sides<Length>,
@@ -102,6 +102,15 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
             size: padding_rect.size.clone(),
             mode,
         };
+        // Static positions so far are relative to the content rect
+        for a in &mut *absolute {
+            if let AbsoluteBoxOffsets::StaticStart { start } = &mut a.inline_start {
+                *start += padding.inline_start;
+            }
+            if let AbsoluteBoxOffsets::StaticStart { start } = &mut a.block_start {
+                *start += padding.block_start;
+            }
+        }
         fragments.push(Fragment::Anonymous(AnonymousFragment {
             children: absolute
                 .par_iter()
@@ -284,7 +293,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
         };
 
         AbsolutelyPositionedFragment::in_positioned_containing_block(
-            &absolutely_positioned_fragments,
+            &mut absolutely_positioned_fragments,
             &mut flow_children.fragments,
             &content_rect.size,
             &padding,
-- 
2.43.0


From 28c0596d97fc9e7c43619027eeb989a1cbef9f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 12/39] fix: never give a negative used width or height to a
 box with auto size

---
 victor/src/layout/flow/mod.rs   | 3 ++-
 victor/src/layout/positioned.rs | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index ba43573..d8858b4 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -341,7 +341,8 @@ fn layout_in_flow_non_replaced_block_level<'a>(
     }
     let margin = computed_margin.auto_is(Length::zero);
     let mut block_margins_collapsed_with_children = CollapsedBlockMargins::from_margin(&margin);
-    let inline_size = inline_size.auto_is(|| cbis - pb.inline_sum() - margin.inline_sum());
+    let inline_size = inline_size
+        .auto_is(|| (cbis - pb.inline_sum() - margin.inline_sum()).max(Length::zero()));
     let block_size = match box_size.block {
         LengthOrPercentageOrAuto::Length(l) => LengthOrAuto::Length(l),
         LengthOrPercentageOrAuto::Percentage(p) => containing_block.block_size.map(|cbbs| cbbs * p),
diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index f2947fe..222ddcf 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -191,13 +191,14 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
                         }
                         size
                     } else {
-                        // FIXME(nox): What happens if that is negative?
-                        containing_size
+                        // Sizes can’t be negative, `end` is ignored if that’d be the case.
+                        (containing_size
                             - start
                             - end
                             - padding_border_sum
                             - margin_start
-                            - margin_end
+                            - margin_end)
+                            .max(Length::zero())
                     };
                     (
                         Anchor::Start(start),
@@ -249,7 +250,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
             };
 
             // FIXME(nox): shrink-to-fit.
-            available_size
+            available_size.max(Length::zero())
         });
 
         let containing_block_for_children = ContainingBlock {
-- 
2.43.0


From 1c57c17e7c75f545ad629c0e39cdede43cf673e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 13/39] fix: subtract the other margin when solving for an auto
 inline margin

---
 victor/src/layout/flow/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index d8858b4..4931f13 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -323,19 +323,19 @@ fn layout_in_flow_non_replaced_block_level<'a>(
             &mut computed_margin.inline_end,
         ) {
             (s @ &mut Auto, e @ &mut Auto) => {
-                *s = Length(inline_margins / 2.);
-                *e = Length(inline_margins / 2.);
+                // If the box is too large, both margins are treated as zero
+                // and we’re over-constrained.
+                let half = (inline_margins / 2.).max(crate::geom::Length::zero());
+                *s = Length(half);
+                *e = Length(inline_margins - half);
             }
-            (s @ &mut Auto, _) => {
-                *s = Length(inline_margins);
+            (s @ &mut Auto, &mut Length(e)) => {
+                *s = Length((inline_margins - e).max(crate::geom::Length::zero()));
             }
-            (_, e @ &mut Auto) => {
-                *e = Length(inline_margins);
-            }
-            (_, e @ _) => {
+            (&mut Length(s), e @ _) => {
                 // Either the inline-end margin is auto,
                 // or we’re over-constrained and we do as if it were.
-                *e = Length(inline_margins);
+                *e = Length(inline_margins - s);
             }
         }
     }
-- 
2.43.0


From 0e285333bf9e57fda43cc4b15ee75970f5047f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 14/39] fix: resolve relative positioning percentages against
 the containing block

---
 victor/src/layout/flow/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index 4931f13..614d47f 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -407,7 +407,7 @@ fn layout_in_flow_non_replaced_block_level<'a>(
             && flow_children
                 .collapsible_margins_in_children
                 .collapsed_through;
-    let relative_adjustement = relative_adjustement(style, inline_size, block_size);
+    let relative_adjustement = relative_adjustement(style, cbis, containing_block.block_size);
     let block_size = block_size.auto_is(|| flow_children.block_size);
     let content_rect = Rect {
         start_corner: Vec2 {
-- 
2.43.0


From 37c7d0d3d83f8ece0a0153edbc69215559d13e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 15/39] fix: use the whole line when breaking lines after the
 first one of a text run

---
 victor/src/layout/flow/inline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 5c39bb9..1993336 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -269,9 +269,9 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
 
 impl TextRun {
     fn layout(&self, ifc: &mut InlineFormattingContextState) {
-        let available = ifc.containing_block.inline_size - ifc.inline_position;
         let mut chars = self.text.chars();
         loop {
+            let available = ifc.containing_block.inline_size - ifc.inline_position;
             let mut shaped = ShapedSegment::new_with_naive_shaping(BITSTREAM_VERA_SANS.clone());
             let mut last_break_opportunity = None;
             loop {
-- 
2.43.0


From c925261a4c0748f28a5734489187f0752ada8bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 16/39] fix: size each fragment of an inline box from its own
 content on that line

---
 victor/src/layout/flow/inline.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 1993336..39c65f6 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -233,8 +233,11 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
             children: take(&mut nesting_level.fragments_so_far),
             content_rect: Rect {
                 size: Vec2 {
-                    inline: *inline_position - self.start_corner.inline,
-                    block: nesting_level.max_block_size_of_fragments_so_far,
+                    inline: *inline_position - nesting_level.inline_start,
+                    block: std::mem::replace(
+                        &mut nesting_level.max_block_size_of_fragments_so_far,
+                        Length::zero(),
+                    ),
                 },
                 start_corner: self.start_corner.clone(),
             },
@@ -325,7 +328,6 @@ impl TextRun {
                 break;
             } else {
                 // New line
-                ifc.current_nesting_level.inline_start = Length::zero();
                 let mut nesting_level = &mut ifc.current_nesting_level;
                 for partial in ifc.partial_inline_boxes_stack.iter_mut().rev() {
                     partial.finish_layout(nesting_level, &mut ifc.inline_position, true);
@@ -333,9 +335,10 @@ impl TextRun {
                     partial.padding.inline_start = Length::zero();
                     partial.border.inline_start = Length::zero();
                     partial.margin.inline_start = Length::zero();
-                    partial.parent_nesting_level.inline_start = Length::zero();
+                    nesting_level.inline_start = Length::zero();
                     nesting_level = &mut partial.parent_nesting_level;
                 }
+                nesting_level.inline_start = Length::zero();
                 ifc.line_boxes
                     .finish_line(nesting_level, ifc.containing_block);
                 ifc.inline_position = Length::zero();
-- 
2.43.0


From e7dd7b3892bd82642f6997066f3423aac3c87e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 17/39] fix: apply the relative position of an inline box to
 its fragments on every line

---
 victor/src/layout/flow/inline.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 39c65f6..2c3325c 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -331,7 +331,12 @@ impl TextRun {
                 let mut nesting_level = &mut ifc.current_nesting_level;
                 for partial in ifc.partial_inline_boxes_stack.iter_mut().rev() {
                     partial.finish_layout(nesting_level, &mut ifc.inline_position, true);
-                    partial.start_corner.inline = Length::zero();
+                    partial.start_corner.inline = relative_adjustement(
+                        &partial.style,
+                        ifc.containing_block.inline_size,
+                        ifc.containing_block.block_size,
+                    )
+                    .inline;
                     partial.padding.inline_start = Length::zero();
                     partial.border.inline_start = Length::zero();
                     partial.margin.inline_start = Length::zero();
-- 
2.43.0


From f6e62d6e55597a888bc03b9a78241f95656ea154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 18/39] fix: keep the space at the start of an inline box that
 follows text

---
 victor/src/layout/flow/construct.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 4729d5d..463713b 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -267,7 +267,18 @@ impl<'a> BlockContainerBuilder<'a> {
         if !text.starts_with(|c: char| c.is_ascii_whitespace()) {
             return (false, text);
         }
-        let mut inline_level_boxes = self.current_inline_level_boxes().iter().rev();
+        // Look at this inline formatting context so far in reverse tree order,
+        // starting with the children of the innermost ongoing inline box.
+        let mut ancestors = self
+            .ongoing_inline_boxes_stack
+            .iter()
+            .rev()
+            .map(|b| &b.children)
+            .chain(std::iter::once(
+                &self.ongoing_inline_formatting_context.inline_level_boxes,
+            ))
+            .map(|boxes| boxes.iter().rev());
+        let mut inline_level_boxes = ancestors.next().unwrap();
         let mut stack = Vec::new();
         let preserved = loop {
             match inline_level_boxes.next().map(|b| &**b) {
@@ -280,7 +291,7 @@ impl<'a> BlockContainerBuilder<'a> {
                     inline_level_boxes = b.children.iter().rev()
                 }
                 None => {
-                    if let Some(iter) = stack.pop() {
+                    if let Some(iter) = stack.pop().or_else(|| ancestors.next()) {
                         inline_level_boxes = iter
                     } else {
                         break false; // Paragraph start
-- 
2.43.0


From 0e1b10f93d650ff96fe7fe3612c3e28a3d2583ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 19/39] fix: escape number signs and non-ASCII bytes in PDF
 names

---
 victor/src/pdf/object.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index 1e17745..84a9773 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -243,8 +243,10 @@ fn write_name<W: Write>(name: &[u8], w: &mut W) -> io::Result<()> {
     w.write_all(b"/")?;
     for &byte in name {
         match KIND[byte as usize] {
-            CharKind::Regular => w.write_all(&[byte])?,
-            CharKind::Whitespace | CharKind::Delimiter => {
+            CharKind::Regular if b'!' <= byte && byte <= b'~' && byte != b'#' => {
+                w.write_all(&[byte])?
+            }
+            CharKind::Regular | CharKind::Whitespace | CharKind::Delimiter => {
                 w.write_all(b"#")?;
                 write_hex(byte, w)?
             }
-- 
2.43.0


From 9b52e5ee0d883470019e2c4de08b4b45dbfc19da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 20/39] fix: never write exponents, infinities, or NaN as PDF
 numbers

---
 victor/src/pdf/object.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index 84a9773..4172cda 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -153,7 +153,7 @@ impl<'a> Object<'a> {
             // https://www.adobe.com/content/dam/acom/en/devnet/pdf/PDF32000_2008.pdf#G6.1965566
             Object::I32(value) => itoa::write(w, value).map(|_| ()),
             Object::Usize(value) => itoa::write(w, value).map(|_| ()),
-            Object::Float(value) => dtoa::write(w, value).map(|_| ()),
+            Object::Float(value) => write_float(value, w),
             Object::Name(value) => write_name(value, w),
             Object::Dictionary(ref value) => value.write(w),
             Object::LiteralString(value) => {
@@ -239,6 +239,21 @@ fn write_hex<W: Write>(byte: u8, w: &mut W) -> io::Result<()> {
     ])
 }
 
+fn write_float<W: Write>(value: f32, w: &mut W) -> io::Result<()> {
+    // PDF has no syntax for infinities, NaN, or exponents.
+    let value = if value.is_nan() {
+        0.
+    } else {
+        value.max(std::f32::MIN).min(std::f32::MAX)
+    };
+    let magnitude = value.abs();
+    if magnitude != 0. && (magnitude < 1e-5 || magnitude >= 1e20) {
+        write!(w, "{}", value)
+    } else {
+        dtoa::write(w, value).map(|_| ())
+    }
+}
+
 fn write_name<W: Write>(name: &[u8], w: &mut W) -> io::Result<()> {
     w.write_all(b"/")?;
     for &byte in name {
-- 
2.43.0


From f9169d2144ba5eff5717094a14ea5cc8d75650e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 21/39] fix: yield the last item first when iterating font
 records in reverse

---
 victor/src/fonts/parsing.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/victor/src/fonts/parsing.rs b/victor/src/fonts/parsing.rs
index 580ad9d..9afba31 100644
--- a/victor/src/fonts/parsing.rs
+++ b/victor/src/fonts/parsing.rs
@@ -275,13 +275,12 @@ impl<T> Iterator for SliceIter<T> {
 impl<T> DoubleEndedIterator for SliceIter<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         if self.start != self.end {
-            let next = self.end;
-            let byte_position = next.byte_position - mem::size_of::<T>() as u32;
+            let byte_position = self.end.byte_position - mem::size_of::<T>() as u32;
             self.end = Position {
                 byte_position,
                 ty: PhantomData,
             };
-            Some(next)
+            Some(self.end)
         } else {
             None
         }
-- 
2.43.0


From 2fe816391c03d555bb293aef4b0fae99ac0ff794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 22/39] fix: do not overflow when computing positions in a
 malformed font

---
 victor/src/fonts/parsing.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/victor/src/fonts/parsing.rs b/victor/src/fonts/parsing.rs
index 9afba31..0f5cd50 100644
--- a/victor/src/fonts/parsing.rs
+++ b/victor/src/fonts/parsing.rs
@@ -44,13 +44,14 @@ impl<T> Position<T> {
 
     pub(in crate::fonts) fn offset_bytes<U, O: Into<u32>>(self, by: O) -> Position<U> {
         Position {
-            byte_position: self.byte_position + by.into(),
+            // Saturated positions are beyond the end of any (readable) file
+            byte_position: self.byte_position.saturating_add(by.into()),
             ty: PhantomData,
         }
     }
 
     pub(in crate::fonts) fn offset<O: Into<u32>>(self, by: O) -> Position<T> {
-        self.offset_bytes(mem::size_of::<T>() as u32 * by.into())
+        self.offset_bytes((mem::size_of::<T>() as u32).saturating_mul(by.into()))
     }
 
     pub(in crate::fonts) fn followed_by<U>(self) -> Position<U> {
-- 
2.43.0


From 72e5c2a2e2c65f46302912f246bcf3c4a8411ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 23/39] =?UTF-8?q?fix:=20bound=20the=20enumeration=20of=20a?=
 =?UTF-8?q?=20font=E2=80=99s=20character=20map,=20and=20skip=20glyph=20IDs?=
 =?UTF-8?q?=20over=2016=20bits?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 victor/src/fonts/cmap.rs | 51 ++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/victor/src/fonts/cmap.rs b/victor/src/fonts/cmap.rs
index 3e3d729..fb8574c 100644
--- a/victor/src/fonts/cmap.rs
+++ b/victor/src/fonts/cmap.rs
@@ -2,7 +2,7 @@ use crate::fonts::parsing::{binary_search, Position, Slice};
 use crate::fonts::tables::*;
 use crate::fonts::{FontError, GlyphId};
 use std::char;
-use std::cmp::Ordering;
+use std::cmp::{self, Ordering};
 
 pub(in crate::fonts) enum Cmap {
     Format4(Format4),
@@ -131,21 +131,19 @@ impl Format4 {
     where
         F: FnMut(u32, u16),
     {
+        // Segments should be sorted and not overlap.
+        // Enforcing this ensures that we visit each code point at most once.
+        let mut next_code = 0_u32;
         for segment_index in 0..self.segment_count {
-            let start_code = self.start_codes.offset(segment_index).read_from(bytes)?;
-            let end_code = self.end_codes.offset(segment_index).read_from(bytes)?;
-            let mut code_point = start_code;
-            loop {
+            let start_code: u16 = self.start_codes.offset(segment_index).read_from(bytes)?;
+            let end_code: u16 = self.end_codes.offset(segment_index).read_from(bytes)?;
+            for code_point in cmp::max(next_code, start_code.into())..=end_code.into() {
                 if let Some(glyph_id) =
-                    self.glyph_id(bytes, segment_index, start_code, code_point)?
+                    self.glyph_id(bytes, segment_index, start_code, code_point as u16)?
                 {
-                    f(u32::from(code_point), glyph_id)
-                }
-
-                if code_point == end_code {
-                    break;
+                    f(code_point, glyph_id)
                 }
-                code_point += 1
+                next_code = code_point + 1
             }
         }
         Ok(())
@@ -214,8 +212,9 @@ impl Format12 {
 
         if let Some(index) = result? {
             let group = self.groups.get_unchecked(index);
-            let id32 = group.start_glyph_id().read_from(bytes)?
-                + (code_point - group.start_char_code().read_from(bytes)?);
+            let start_glyph_id: u32 = group.start_glyph_id().read_from(bytes)?;
+            let id32 = start_glyph_id
+                .saturating_add(code_point - group.start_char_code().read_from(bytes)?);
             // Glyph IDs are 16 bits in PDF.
             // For now, pretend that glyphs with larger IDs are missing.
             // FIXME: Maybe this will be unnecessary with PDF font subsetting?
@@ -231,19 +230,21 @@ impl Format12 {
     where
         F: FnMut(u32, u16),
     {
+        // Groups should be sorted, not overlap, and not go beyond the Unicode range.
+        // Enforcing this ensures that we visit each code point at most once.
+        let mut next_code = 0_u32;
         for group in self.groups {
-            let start_code = group.start_char_code().read_from(bytes)?;
-            let end_code = group.end_char_code().read_from(bytes)?;
-            let start_glyph_id = group.start_glyph_id().read_from(bytes)?;
-            let mut code_point = start_code;
-            loop {
-                let glyph_id = (code_point - start_code) + start_glyph_id;
-                f(code_point, glyph_id as u16);
-
-                if code_point == end_code {
-                    break;
+            let start_code: u32 = group.start_char_code().read_from(bytes)?;
+            let end_code: u32 = group.end_char_code().read_from(bytes)?;
+            let start_glyph_id: u32 = group.start_glyph_id().read_from(bytes)?;
+            let end_code = cmp::min(end_code, char::MAX.into());
+            for code_point in cmp::max(next_code, start_code)..=end_code {
+                let glyph_id = start_glyph_id.saturating_add(code_point - start_code);
+                // Same as in `get`
+                if glyph_id <= 0xFFFF {
+                    f(code_point, glyph_id as u16);
                 }
-                code_point += 1;
+                next_code = code_point + 1
             }
         }
         Ok(())
-- 
2.43.0


From e62958ce71f73cea5918731e382b2fc719b6b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 24/39] =?UTF-8?q?fix:=20restore=20the=20four-value=20short?=
 =?UTF-8?q?hand=20order,=20which=20the=20blocks.html=20reftest=E2=80=99s?=
 =?UTF-8?q?=20reference=20depends=20on?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Reverts 012952b401239a816524c3e87669c57cb8c603c6.
---
 victor/src/style/values/generic.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/victor/src/style/values/generic.rs b/victor/src/style/values/generic.rs
index 6f3de2d..8985ac1 100644
--- a/victor/src/style/values/generic.rs
+++ b/victor/src/style/values/generic.rs
@@ -16,8 +16,8 @@ where
     fn parse<'i, 't>(parser: &mut Parser<'i, 't>) -> Result<Self, PropertyParseError<'i>> {
         let top = T::parse(parser)?;
 
-        let right = if let Ok(right) = parser.r#try(T::parse) {
-            right
+        let left = if let Ok(left) = parser.r#try(T::parse) {
+            left
         } else {
             return Ok(FourSides {
                 top: top.clone(),
@@ -32,20 +32,20 @@ where
         } else {
             return Ok(FourSides {
                 top: top.clone(),
-                left: right.clone(),
+                left: left.clone(),
                 bottom: top,
-                right,
+                right: left,
             });
         };
 
-        let left = if let Ok(left) = parser.r#try(T::parse) {
-            left
+        let right = if let Ok(right) = parser.r#try(T::parse) {
+            right
         } else {
             return Ok(FourSides {
                 top: top,
-                left: right.clone(),
+                left: left.clone(),
                 bottom: bottom,
-                right,
+                right: left,
             });
         };
 
-- 
2.43.0


From 98e91dd1f38b41068db7b6a711dbfc0a8a40316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 25/39] =?UTF-8?q?fix:=20do=20not=20make=20a=20slice=20from?=
 =?UTF-8?q?=20cairo=E2=80=99s=20null=20data=20pointer=20for=20an=20image?=
 =?UTF-8?q?=20without=20pixels?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 lester/src/cairo.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lester/src/cairo.rs b/lester/src/cairo.rs
index 07955dd..e1c37f9 100644
--- a/lester/src/cairo.rs
+++ b/lester/src/cairo.rs
@@ -118,10 +118,16 @@ impl ImageSurface {
             Argb32Pixels {
                 width: width.try_into().unwrap(),
                 height: height.try_into().unwrap(),
-                buffer: slice::from_raw_parts_mut(
-                    data as *mut u32,
-                    (width * height).try_into().unwrap(),
-                ),
+                buffer: if data.is_null() {
+                    // Cairo does not allocate anything for a surface without pixels.
+                    assert!(width == 0 || height == 0);
+                    &mut []
+                } else {
+                    slice::from_raw_parts_mut(
+                        data as *mut u32,
+                        (width * height).try_into().unwrap(),
+                    )
+                },
             }
         }
     }
-- 
2.43.0


From 389f5c2bb0e0297a90a6b377e52e7c87aa7a28d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 26/39] fix: keep the style of text in display:contents
 elements next to other text

---
 victor/src/layout/flow/construct.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 463713b..a3df945 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -200,9 +200,16 @@ impl<'a> TraversalHandler<'a> for BlockContainerBuilder<'a> {
             // context with the parent style of that builder.
             let inlines = self.current_inline_level_boxes();
 
-            fn last_text(inlines: &mut [Arc<InlineLevelBox>]) -> Option<&mut String> {
+            fn last_text<'i>(
+                inlines: &'i mut [Arc<InlineLevelBox>],
+                style: &Arc<ComputedValues>,
+            ) -> Option<&'i mut String> {
                 let last = inlines.last_mut()?;
-                if let InlineLevelBox::TextRun(_) = &**last {
+                if let InlineLevelBox::TextRun(run) = &**last {
+                    if !Arc::ptr_eq(&run.parent_style, style) {
+                        // One of the two is in a `display: contents` element
+                        return None;
+                    }
                     // We never clone text run boxes, so the refcount is 1 and unwrap succeeds:
                     let last = Arc::get_mut(last).unwrap();
                     if let InlineLevelBox::TextRun(TextRun { text, .. }) = last {
@@ -217,7 +224,7 @@ impl<'a> TraversalHandler<'a> for BlockContainerBuilder<'a> {
 
             let mut new_text_run_contents;
             let output;
-            if let Some(text) = last_text(inlines) {
+            if let Some(text) = last_text(inlines, parent_style) {
                 // Append to the existing text run
                 new_text_run_contents = None;
                 output = text;
-- 
2.43.0


From f2d3a83aa0449a7b8f658e91b23a107cf810b579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 27/39] fix: report errors of the last write in
 write_to_pdf_file

---
 victor/src/pdf/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/victor/src/pdf/mod.rs b/victor/src/pdf/mod.rs
index f5636a7..f451344 100644
--- a/victor/src/pdf/mod.rs
+++ b/victor/src/pdf/mod.rs
@@ -33,7 +33,10 @@ impl Document {
 
     /// Encode this document to PDF and write it into the file with the given name.
     pub fn write_to_pdf_file<P: AsRef<path::Path>>(&self, filename: P) -> Result<(), io::Error> {
-        self.write_to_pdf(&mut io::BufWriter::new(fs::File::create(filename)?))
+        let mut stream = io::BufWriter::new(fs::File::create(filename)?);
+        self.write_to_pdf(&mut stream)?;
+        // Dropping BufWriter would ignore errors
+        stream.flush()
     }
 
     /// Encode this document to PDF and return a vector of bytes
-- 
2.43.0


From 907a0c545f243403c5ca8861a14254780c98b919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 28/39] fix: report errors of the last write in
 write_to_png_file

---
 lester/src/cairo.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lester/src/cairo.rs b/lester/src/cairo.rs
index e1c37f9..ebd6056 100644
--- a/lester/src/cairo.rs
+++ b/lester/src/cairo.rs
@@ -139,7 +139,11 @@ impl ImageSurface {
 
     /// Encode this image to PNG and write it into the file with the given name.
     pub fn write_to_png_file<P: AsRef<path::Path>>(&self, filename: P) -> Result<(), LesterError> {
-        self.write_to_png(io::BufWriter::new(fs::File::create(filename)?))
+        let mut stream = io::BufWriter::new(fs::File::create(filename)?);
+        self.write_to_png(&mut stream)?;
+        // Dropping BufWriter would ignore errors
+        stream.flush()?;
+        Ok(())
     }
 }
 
-- 
2.43.0


From 49a2f7b122093e2fefff0a2b990435c91b103270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 29/39] Expose the advance width of shaped segments under
 cfg(vmon)

---
 victor/src/text.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/victor/src/text.rs b/victor/src/text.rs
index 501396c..9ae7150 100644
--- a/victor/src/text.rs
+++ b/victor/src/text.rs
@@ -64,3 +64,11 @@ impl ShapedSegment {
         self.advance_width = state.advance_width;
     }
 }
+
+/// Only for the runtime monitors: `RUSTFLAGS="--cfg vmon"`
+#[cfg(vmon)]
+impl ShapedSegment {
+    pub fn vmon_advance_width(&self) -> f32 {
+        self.advance_width.get()
+    }
+}
-- 
2.43.0


From 0a712d69e4b029b115cb7c72b1efe288275447c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 30/39] fix: leave out null characters from PDF names

---
 victor/src/pdf/object.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index 4172cda..f49bf7b 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -258,6 +258,8 @@ fn write_name<W: Write>(name: &[u8], w: &mut W) -> io::Result<()> {
     w.write_all(b"/")?;
     for &byte in name {
         match KIND[byte as usize] {
+            // Names can not contain the null character, not even escaped
+            _ if byte == b'\0' => {}
             CharKind::Regular if b'!' <= byte && byte <= b'~' && byte != b'#' => {
                 w.write_all(&[byte])?
             }
-- 
2.43.0


From 123c767df5a1996d24688ea02486e58cc232a6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 31/39] fix: apply style elements in tree order, and only those
 in the tree

---
 victor/src/dom/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index 19f840c..71078ca 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -25,7 +25,7 @@ pub struct Node {
     pub(crate) data: NodeData,
 }
 
-#[derive(Copy, Clone, Debug, PartialEq, Eq)]
+#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
 pub(crate) struct NodeId(std::num::NonZeroUsize);
 
 impl Document {
@@ -46,7 +46,12 @@ impl Document {
 
     pub(crate) fn parse_stylesheets(&self) -> StyleSet {
         let mut style_set = StyleSetBuilder::new();
-        for &id in &self.style_elements {
+        // `style_elements` is sorted by ID, which can differ from tree order.
+        // It can also contain elements that were removed from the tree.
+        for id in self.nodes() {
+            if self.style_elements.binary_search(&id).is_err() {
+                continue;
+            }
             let element = &self[id];
             // https://html.spec.whatwg.org/multipage/semantics.html#update-a-style-block
             if let Some(type_attr) = element.as_element().unwrap().get_attr(&local_name!("type")) {
-- 
2.43.0


From 5dea1149e5727ec9f9587e56f1399b44ec3558ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 32/39] fix: reject negative sizes, paddings, border widths,
 and font sizes

---
 victor/src/style/errors.rs                 |  1 +
 victor/src/style/properties/definitions.rs | 22 +++++++++-----
 victor/src/style/properties/mod.rs         | 12 ++++----
 victor/src/style/values/border.rs          |  5 ++--
 victor/src/style/values/fonts.rs           |  7 +++--
 victor/src/style/values/generic.rs         | 35 ++++++++++++++++++++--
 victor/src/style/values/length.rs          | 30 ++++++++++++++++++-
 7 files changed, 91 insertions(+), 21 deletions(-)

diff --git a/victor/src/style/errors.rs b/victor/src/style/errors.rs
index a90857e..f512d33 100644
--- a/victor/src/style/errors.rs
+++ b/victor/src/style/errors.rs
@@ -6,6 +6,7 @@ pub(super) type PropertyParseError<'i> = ParseError<'i, PropertyParseErrorKind<'
 pub(super) enum PropertyParseErrorKind<'i> {
     UnknownProperty(CowRcStr<'i>),
     UnknownUnit(CowRcStr<'i>),
+    NegativeValue,
 }
 
 pub(super) enum RuleParseErrorKind<'i> {
diff --git a/victor/src/style/properties/definitions.rs b/victor/src/style/properties/definitions.rs
index ad414d2..e2ea61a 100644
--- a/victor/src/style/properties/definitions.rs
+++ b/victor/src/style/properties/definitions.rs
@@ -21,8 +21,16 @@ properties! {
         left { "left", LengthOrPercentageOrAuto, initial = LengthOrPercentageOrAuto::Auto }
         bottom { "bottom", LengthOrPercentageOrAuto, initial = LengthOrPercentageOrAuto::Auto }
         right { "right", LengthOrPercentageOrAuto, initial = LengthOrPercentageOrAuto::Auto }
-        width { "width", LengthOrPercentageOrAuto, initial = LengthOrPercentageOrAuto::Auto }
-        height { "height", LengthOrPercentageOrAuto, initial = LengthOrPercentageOrAuto::Auto }
+        width {
+            "width",
+            NonNegative<LengthOrPercentageOrAuto>,
+            initial = NonNegative(LengthOrPercentageOrAuto::Auto)
+        }
+        height {
+            "height",
+            NonNegative<LengthOrPercentageOrAuto>,
+            initial = NonNegative(LengthOrPercentageOrAuto::Auto)
+        }
     }
 
     reset struct margin {
@@ -33,10 +41,10 @@ properties! {
     }
 
     reset struct padding {
-        padding_top { "padding-top", LengthOrPercentage, initial = Length::zero() }
-        padding_left { "padding-left", LengthOrPercentage, initial = Length::zero() }
-        padding_bottom { "padding-bottom", LengthOrPercentage, initial = Length::zero() }
-        padding_right { "padding-right", LengthOrPercentage, initial = Length::zero() }
+        padding_top { "padding-top", NonNegative<LengthOrPercentage>, initial = Length::zero() }
+        padding_left { "padding-left", NonNegative<LengthOrPercentage>, initial = Length::zero() }
+        padding_bottom { "padding-bottom", NonNegative<LengthOrPercentage>, initial = Length::zero() }
+        padding_right { "padding-right", NonNegative<LengthOrPercentage>, initial = Length::zero() }
     }
 
     reset struct border {
@@ -67,7 +75,7 @@ properties! {
             bottom: margin_bottom,
             right: margin_right,
         }
-        "padding" => FourSides<SpecifiedLengthOrPercentage> {
+        "padding" => FourSides<NonNegative<SpecifiedLengthOrPercentage>> {
             top: padding_top,
             left: padding_left,
             bottom: padding_bottom,
diff --git a/victor/src/style/properties/mod.rs b/victor/src/style/properties/mod.rs
index 3910d66..43f02a8 100644
--- a/victor/src/style/properties/mod.rs
+++ b/victor/src/style/properties/mod.rs
@@ -46,18 +46,18 @@ impl ComputedValues {
 
     pub(crate) fn box_size(&self) -> flow_relative::Vec2<values::LengthOrPercentageOrAuto> {
         physical::Vec2 {
-            x: self.box_.width,
-            y: self.box_.height,
+            x: self.box_.width.0,
+            y: self.box_.height.0,
         }
         .size_to_flow_relative(self.writing_mode())
     }
 
     pub(crate) fn padding(&self) -> flow_relative::Sides<values::LengthOrPercentage> {
         physical::Sides {
-            top: self.padding.padding_top,
-            left: self.padding.padding_left,
-            bottom: self.padding.padding_bottom,
-            right: self.padding.padding_right,
+            top: self.padding.padding_top.0,
+            left: self.padding.padding_left.0,
+            bottom: self.padding.padding_bottom.0,
+            right: self.padding.padding_right.0,
         }
         .to_flow_relative(self.writing_mode())
     }
diff --git a/victor/src/style/values/border.rs b/victor/src/style/values/border.rs
index 3f2ccee..5e8d19e 100644
--- a/victor/src/style/values/border.rs
+++ b/victor/src/style/values/border.rs
@@ -1,3 +1,4 @@
+use super::generic::NonNegative;
 use super::length::*;
 use crate::style::errors::PropertyParseError;
 use cssparser::{Color, Parser};
@@ -14,7 +15,7 @@ enum ParsedLineWidth {
     Thin,
     Medium,
     Thick,
-    Other(SpecifiedLengthOrPercentage),
+    Other(NonNegative<SpecifiedLengthOrPercentage>),
 }
 
 #[derive(Clone)]
@@ -40,7 +41,7 @@ impl super::Parse for SpecifiedLineWidth {
             ParsedLineWidth::Thin => 1.0,
             ParsedLineWidth::Medium => 3.0,
             ParsedLineWidth::Thick => 5.0,
-            ParsedLineWidth::Other(value) => return Ok(SpecifiedLineWidth(value)),
+            ParsedLineWidth::Other(value) => return Ok(SpecifiedLineWidth(value.0)),
         };
         Ok(SpecifiedLineWidth(
             SpecifiedLength::Absolute(Length { px }).into(),
diff --git a/victor/src/style/values/fonts.rs b/victor/src/style/values/fonts.rs
index 3a00031..ecc862d 100644
--- a/victor/src/style/values/fonts.rs
+++ b/victor/src/style/values/fonts.rs
@@ -1,4 +1,5 @@
 use super::{EarlyCascadeContext, EarlyFromSpecified, Length, SpecifiedLength, SpecifiedValue};
+use crate::style::values::NonNegative;
 
 #[derive(Copy, Clone)]
 pub(crate) struct FontSize(pub Length);
@@ -10,12 +11,12 @@ impl From<Length> for FontSize {
 }
 
 impl SpecifiedValue for FontSize {
-    type SpecifiedValue = SpecifiedLength;
+    type SpecifiedValue = NonNegative<SpecifiedLength>;
 }
 
 impl EarlyFromSpecified for FontSize {
-    fn early_from_specified(s: &SpecifiedLength, context: &EarlyCascadeContext) -> Self {
-        FontSize(match s {
+    fn early_from_specified(s: &Self::SpecifiedValue, context: &EarlyCascadeContext) -> Self {
+        FontSize(match &s.0 {
             SpecifiedLength::Absolute(px) => *px,
             SpecifiedLength::Em(value) => context.inherited.font.font_size.0 * *value,
         })
diff --git a/victor/src/style/values/generic.rs b/victor/src/style/values/generic.rs
index 8985ac1..d4647bc 100644
--- a/victor/src/style/values/generic.rs
+++ b/victor/src/style/values/generic.rs
@@ -1,7 +1,38 @@
-use crate::style::errors::PropertyParseError;
-use crate::style::values::Parse;
+use crate::style::errors::{PropertyParseError, PropertyParseErrorKind};
+use crate::style::values::{Length, Parse};
 use cssparser::Parser;
 
+/// Negative values are invalid
+#[derive(Copy, Clone, FromSpecified)]
+pub(crate) struct NonNegative<T>(pub T);
+
+pub(in crate::style) trait IsNegative {
+    fn is_negative(&self) -> bool;
+}
+
+impl<T> Parse for NonNegative<T>
+where
+    T: Parse + IsNegative,
+{
+    fn parse<'i, 't>(parser: &mut Parser<'i, 't>) -> Result<Self, PropertyParseError<'i>> {
+        let location = parser.current_source_location();
+        let value = T::parse(parser)?;
+        if value.is_negative() {
+            return Err(location.new_custom_error(PropertyParseErrorKind::NegativeValue));
+        }
+        Ok(NonNegative(value))
+    }
+}
+
+impl<T> From<Length> for NonNegative<T>
+where
+    T: From<Length>,
+{
+    fn from(value: Length) -> Self {
+        NonNegative(value.into())
+    }
+}
+
 pub(in crate::style) struct FourSides<T> {
     pub top: T,
     pub left: T,
diff --git a/victor/src/style/values/length.rs b/victor/src/style/values/length.rs
index 531e7b9..fccea6d 100644
--- a/victor/src/style/values/length.rs
+++ b/victor/src/style/values/length.rs
@@ -1,5 +1,5 @@
 use crate::style::errors::{PropertyParseError, PropertyParseErrorKind};
-use crate::style::values::{CascadeContext, FromSpecified, Parse, SpecifiedValue};
+use crate::style::values::{CascadeContext, FromSpecified, IsNegative, Parse, SpecifiedValue};
 use cssparser::{Parser, Token};
 use std::fmt;
 use std::ops;
@@ -78,6 +78,34 @@ impl Parse for SpecifiedLength {
     }
 }
 
+impl IsNegative for SpecifiedLength {
+    fn is_negative(&self) -> bool {
+        match self {
+            SpecifiedLength::Absolute(length) => length.px < 0.,
+            SpecifiedLength::Em(value) => *value < 0.,
+        }
+    }
+}
+
+impl IsNegative for SpecifiedLengthOrPercentage {
+    fn is_negative(&self) -> bool {
+        match self {
+            SpecifiedLengthOrPercentage::Length(length) => length.is_negative(),
+            SpecifiedLengthOrPercentage::Percentage(p) => p.unit_value < 0.,
+        }
+    }
+}
+
+impl IsNegative for SpecifiedLengthOrPercentageOrAuto {
+    fn is_negative(&self) -> bool {
+        match self {
+            SpecifiedLengthOrPercentageOrAuto::Length(length) => length.is_negative(),
+            SpecifiedLengthOrPercentageOrAuto::Percentage(p) => p.unit_value < 0.,
+            SpecifiedLengthOrPercentageOrAuto::Auto => false,
+        }
+    }
+}
+
 impl SpecifiedValue for Length {
     type SpecifiedValue = SpecifiedLength;
 }
-- 
2.43.0


From 7c6c1a5d19ce54aa78102d61ef16387a1a55c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 33/39] fix: reject percentages as border widths

---
 victor/src/style/properties/mod.rs |  9 +++++----
 victor/src/style/values/border.rs  | 15 ++++++---------
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/victor/src/style/properties/mod.rs b/victor/src/style/properties/mod.rs
index 43f02a8..72e1a1e 100644
--- a/victor/src/style/properties/mod.rs
+++ b/victor/src/style/properties/mod.rs
@@ -63,11 +63,12 @@ impl ComputedValues {
     }
 
     pub(crate) fn border_width(&self) -> flow_relative::Sides<values::LengthOrPercentage> {
+        use values::LengthOrPercentage;
         physical::Sides {
-            top: self.border.border_top_width.0,
-            left: self.border.border_left_width.0,
-            bottom: self.border.border_bottom_width.0,
-            right: self.border.border_right_width.0,
+            top: LengthOrPercentage::Length(self.border.border_top_width.0),
+            left: LengthOrPercentage::Length(self.border.border_left_width.0),
+            bottom: LengthOrPercentage::Length(self.border.border_bottom_width.0),
+            right: LengthOrPercentage::Length(self.border.border_right_width.0),
         }
         .to_flow_relative(self.writing_mode())
     }
diff --git a/victor/src/style/values/border.rs b/victor/src/style/values/border.rs
index 5e8d19e..fccb2cd 100644
--- a/victor/src/style/values/border.rs
+++ b/victor/src/style/values/border.rs
@@ -15,22 +15,21 @@ enum ParsedLineWidth {
     Thin,
     Medium,
     Thick,
-    Other(NonNegative<SpecifiedLengthOrPercentage>),
+    Other(NonNegative<SpecifiedLength>),
 }
 
 #[derive(Clone)]
-pub(in crate::style) struct SpecifiedLineWidth(pub SpecifiedLengthOrPercentage);
+pub(in crate::style) struct SpecifiedLineWidth(pub SpecifiedLength);
 
 #[derive(Copy, Clone, FromSpecified)]
-pub(crate) struct LineWidth(pub LengthOrPercentage);
+pub(crate) struct LineWidth(pub Length);
 
 impl LineWidth {
-    pub(in crate::style) const MEDIUM: Self =
-        LineWidth(LengthOrPercentage::Length(Length { px: 3. }));
+    pub(in crate::style) const MEDIUM: Self = LineWidth(Length { px: 3. });
 
     pub(in crate::style) fn fixup(&mut self, style: LineStyle) {
         if let LineStyle::None = style {
-            self.0 = LengthOrPercentage::Length(Length::zero())
+            self.0 = Length::zero()
         }
     }
 }
@@ -43,9 +42,7 @@ impl super::Parse for SpecifiedLineWidth {
             ParsedLineWidth::Thick => 5.0,
             ParsedLineWidth::Other(value) => return Ok(SpecifiedLineWidth(value.0)),
         };
-        Ok(SpecifiedLineWidth(
-            SpecifiedLength::Absolute(Length { px }).into(),
-        ))
+        Ok(SpecifiedLineWidth(SpecifiedLength::Absolute(Length { px })))
     }
 }
 
-- 
2.43.0


From 3a6e05e1d6e98e3cc307de1aec01bbc8c56f24cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 34/39] fix: never give a negative auto height to a box with
 negative margins inside

---
 victor/src/layout/flow/mod.rs   | 2 +-
 victor/src/layout/positioned.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index 614d47f..04459ce 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -408,7 +408,7 @@ fn layout_in_flow_non_replaced_block_level<'a>(
                 .collapsible_margins_in_children
                 .collapsed_through;
     let relative_adjustement = relative_adjustement(style, cbis, containing_block.block_size);
-    let block_size = block_size.auto_is(|| flow_children.block_size);
+    let block_size = block_size.auto_is(|| flow_children.block_size.max(Length::zero()));
     let content_rect = Rect {
         start_corner: Vec2 {
             block: pb.block_start + relative_adjustement.block,
diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index 222ddcf..e7c6281 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -276,7 +276,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
             Anchor::End(end) => cbis - end - pb.inline_end - margin.inline_end - inline_size,
         };
 
-        let block_size = block_size.auto_is(|| flow_children.block_size);
+        let block_size = block_size.auto_is(|| flow_children.block_size.max(Length::zero()));
         let block_start = match block_anchor {
             Anchor::Start(start) => start + pb.block_start + margin.block_start,
             Anchor::End(end) => cbbs - end - pb.block_end - margin.block_end - block_size,
-- 
2.43.0


From 47c2d5e931bd8cc9ac6046ed53bc06fa2e91fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 35/39] fix: collapse margins through boxes whose only line box
 is empty

---
 victor/src/layout/flow/inline.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 2c3325c..f7d2058 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -55,6 +55,10 @@ struct PartialInlineBoxFragment<'box_tree> {
 struct InlineFormattingContextState<'box_tree, 'cb> {
     containing_block: &'cb ContainingBlock,
     line_boxes: LinesBoxes,
+
+    /// Line boxes without any text, padding, border, or margin “must be treated as not existing”:
+    /// https://drafts.csswg.org/css2/visuren.html#phantom-line-box
+    has_line_contents: bool,
     inline_position: Length,
     partial_inline_boxes_stack: Vec<PartialInlineBoxFragment<'box_tree>>,
     current_nesting_level: InlineNestingLevelState<'box_tree>,
@@ -79,6 +83,7 @@ impl InlineFormattingContext {
                 boxes: Vec::new(),
                 next_line_block_position: Length::zero(),
             },
+            has_line_contents: false,
             inline_position: Length::zero(),
             current_nesting_level: InlineNestingLevelState {
                 remaining_boxes: self.inline_level_boxes.iter(),
@@ -139,7 +144,10 @@ impl InlineFormattingContext {
                 return FlowChildren {
                     fragments: ifc.line_boxes.boxes,
                     block_size: ifc.line_boxes.next_line_block_position,
-                    collapsible_margins_in_children: CollapsedBlockMargins::zero(),
+                    collapsible_margins_in_children: CollapsedBlockMargins {
+                        collapsed_through: !ifc.has_line_contents,
+                        ..CollapsedBlockMargins::zero()
+                    },
                 };
             }
         }
@@ -192,6 +200,15 @@ impl InlineBox {
             border.inline_start = Length::zero();
             margin.inline_start = Length::zero();
         }
+        let is_empty = |sides: &Sides<Length>| {
+            sides.block_start == Length::zero()
+                && sides.block_end == Length::zero()
+                && sides.inline_start == Length::zero()
+                && (sides.inline_end == Length::zero() || !self.last_fragment)
+        };
+        if !(is_empty(&padding) && is_empty(&border) && is_empty(&margin)) {
+            ifc.has_line_contents = true
+        }
         let mut start_corner = Vec2 {
             block: padding.block_start + border.block_start + margin.block_start,
             inline: ifc.inline_position - ifc.current_nesting_level.inline_start,
@@ -272,6 +289,7 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
 
 impl TextRun {
     fn layout(&self, ifc: &mut InlineFormattingContextState) {
+        ifc.has_line_contents = true;
         let mut chars = self.text.chars();
         loop {
             let available = ifc.containing_block.inline_size - ifc.inline_position;
-- 
2.43.0


From 9aa3fac7fe62041efaf31156e1109882a732fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 36/39] fix: treat relative offsets that are percentages of an
 auto height as auto

---
 victor/src/layout/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/victor/src/layout/mod.rs b/victor/src/layout/mod.rs
index ad4f4a7..1fa8ce2 100644
--- a/victor/src/layout/mod.rs
+++ b/victor/src/layout/mod.rs
@@ -118,10 +118,13 @@ fn relative_adjustement(
             (LengthOrAuto::Length(start), _) => start,
         }
     }
-    let block_size = block_size.auto_is(Length::zero);
     let box_offsets = style.box_offsets().map_inline_and_block_axes(
         |v| v.percentage_relative_to(inline_size),
-        |v| v.percentage_relative_to(block_size),
+        |v| match (v, block_size) {
+            // Percentages of an auto size compute to auto
+            (LengthOrPercentageOrAuto::Percentage(_), LengthOrAuto::Auto) => LengthOrAuto::Auto,
+            _ => v.percentage_relative_to(block_size.auto_is(Length::zero)),
+        },
     );
     Vec2 {
         inline: adjust(box_offsets.inline_start, box_offsets.inline_end),
-- 
2.43.0


From 6413dce2e03547d354c35274b1f92aba11377c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 37/39] fix: collapse margins through empty boxes with a zero
 height

---
 victor/src/layout/flow/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index 04459ce..18623a4 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -403,7 +403,8 @@ fn layout_in_flow_non_replaced_block_level<'a>(
     }
     block_margins_collapsed_with_children.collapsed_through =
         this_start_margin_can_collapse_with_children.0
-            && this_end_margin_can_collapse_with_children
+            && pb.block_end == Length::zero()
+            && block_size.auto_is(Length::zero) == Length::zero()
             && flow_children
                 .collapsible_margins_in_children
                 .collapsed_through;
-- 
2.43.0


From 66f01403f597cb954b4d9b407414a19eda080e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:59 +0000
Subject: [PATCH 38/39] fix: report an error for XML with several root elements

---
 victor/src/dom/xml.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/victor/src/dom/xml.rs b/victor/src/dom/xml.rs
index 400ccc4..912cf7c 100644
--- a/victor/src/dom/xml.rs
+++ b/victor/src/dom/xml.rs
@@ -6,11 +6,19 @@ impl Document {
         let mut document = Document::new();
         let mut current = Document::document_node_id();
         let mut ancestors = Vec::new();
-        for event in xml_rs::EventReader::new(utf8_bytes) {
-            match event.map_err(XmlError)? {
+        let mut has_root = false;
+        let mut reader = xml_rs::EventReader::new(utf8_bytes);
+        loop {
+            match reader.next().map_err(XmlError)? {
                 XmlEvent::StartElement {
                     name, attributes, ..
                 } => {
+                    // xml-rs accepts this, but it is not well-formed:
+                    if ancestors.is_empty() && has_root {
+                        let message = "Unexpected element after the root element";
+                        return Err(XmlError((&reader, message).into()));
+                    }
+                    has_root = true;
                     let id = document.push_node(Node::new(NodeData::Element(ElementData {
                         name: convert_name(name),
                         attrs: attributes
@@ -51,10 +59,10 @@ impl Document {
                     }));
                     document.append(current, id);
                 }
-                XmlEvent::StartDocument { .. } | XmlEvent::EndDocument | XmlEvent::Comment(_) => {}
+                XmlEvent::StartDocument { .. } | XmlEvent::Comment(_) => {}
+                XmlEvent::EndDocument => return Ok(document),
             }
         }
-        Ok(document)
     }
 }
 
-- 
2.43.0


From a3a62f50706c97612aec9f831bde00099897af66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 39/39] fix: give access to the pixels of an image with a width
 but no height

---
 lester/src/cairo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lester/src/cairo.rs b/lester/src/cairo.rs
index ebd6056..806aaa9 100644
--- a/lester/src/cairo.rs
+++ b/lester/src/cairo.rs
@@ -105,8 +105,9 @@ impl ImageSurface {
             // In practice cairo picks a stride that is `width * size_of_pixel`
             // rounded up to 32 bits.
             // ARGB32 and RGB24 both use 32 bit per pixel, so rounding is a no-op.
+            // A surface without pixels has a stride of zero.
             assert!(
-                stride == width * (mem::size_of::<u32>() as i32),
+                stride == width * (mem::size_of::<u32>() as i32) || height == 0,
                 "Expected 32bit pixel to make width satisfy stride requirements"
             );
 
-- 
2.43.0

