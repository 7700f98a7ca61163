#!/usr/bin/env python3
"""Rare-trigger mutations: apply each to /repo, run the property's quick check, revert.

usage: needles.py [NAME-PREFIX...]   (from /verif; nothing else may be using /repo)
One line per needle: caught / MISSED, and how long the check took.
"""
import os, subprocess, sys, time
REPO = os.environ.get('NEEDLE_REPO', '/repo')
VERIF = os.environ.get('NEEDLE_VERIF', '/verif')
V = 'victor/src/'
N = []
def n(name, check, *edits): N.append((name, check, edits))

n('alpha-key-100', 'C03', (V+'pdf/convert.rs', 'format!("a{}", next_id)', 'format!("a{}", next_id % 32)'))
n('font-key-64', 'C03', (V+'pdf/convert.rs', 'format!("f{}", next_id)', 'format!("f{}", next_id % 64)'))
n('offset-24bit', 'C02', (V+'pdf/syntax.rs', 'indirect_object_offsets.push(w.bytes_written as u32);\n                itoa(&mut w, object_id.0)?;\n                w.write_all(b" 0 obj\\n")?; // Generation number is always zero for us\n                w.write_all(contents)', 'indirect_object_offsets.push(w.bytes_written as u32 & 0xFF_FFFF);\n                itoa(&mut w, object_id.0)?;\n                w.write_all(b" 0 obj\\n")?; // Generation number is always zero for us\n                w.write_all(contents)'))
n('id-16bit', 'C02', (V+'pdf/syntax.rs', 'self.next_id.0 += 1;', 'self.next_id.0 = (self.next_id.0 + 1) & 0xFFFF;'))
n('id-14bit', 'C02', (V+'pdf/syntax.rs', 'self.next_id.0 += 1;', 'self.next_id.0 = (self.next_id.0 + 1) & 0x3FFF;'))
n('float-1e20', 'C02', (V+'pdf/object.rs', 'magnitude >= 1e20', 'magnitude >= 1e24'))
n('float-1e-5', 'C03', (V+'pdf/object.rs', 'magnitude < 1e-5', 'magnitude < 1e-9'))
n('name-hash', 'C02', (V+'pdf/object.rs', " && byte != b'#'", ''))
n('name-nul', 'C02', (V+'pdf/object.rs', "_ if byte == b'\\0' => {}", ''))
n('alpha-8bit', 'C03', (V+'pdf/convert.rs', '(alpha * (u16::max_value() as f32)) as u16', '(alpha * 1000.) as u16'))
n('bfchar-tail', 'C04', (V+'pdf/convert.rs', 'if i > 0 {\n                write_bfchar', 'if i > 1 {\n                write_bfchar'))
n('gid-hi', 'C04', (V+'pdf/convert.rs', 'glyph_codes.push((id >> 8) as u8);', 'glyph_codes.push((id >> 8) as u8 & 0x3F);'))
n('plane16-c04', 'C04', (V+'fonts/cmap.rs', 'cmp::min(end_code, char::MAX.into())', 'cmp::min(end_code, 0xF_FFFF)'))
n('ffff', 'C05', (V+'fonts/cmap.rs', 'code_point > 0xFFFF', 'code_point >= 0xFFFF'))
n('hi-glyph-delta', 'C05', (V+'fonts/cmap.rs', 'if result != 0 {', 'if result != 0 && result < 0x8000 {'))
n('search-u8', 'C05', (V+'fonts/parsing.rs', 'let mid = base + half;', 'let mid = if size > 200 { base + half - 1 } else { base + half };'))
n('desc-negative-scale', 'C05', (V+'fonts/mod.rs', 'let index = cmp::min(glyph_id.0 as u32, last_index);', 'let index = cmp::min(glyph_id.0 as u32 & 0x1FFF, last_index);'))
n('ps-name-odd', 'C05', (V+'fonts/mod.rs', 'if chunk.len() < 2 || chunk[0] != 0', 'if chunk.len() < 2 || chunk[0] != 0 || chunk[1] > 0xF0'))
n('restore-empty', 'C07', (V+'text.rs', 'self.glyphs.truncate(state.glyphs);', 'if state.glyphs > 0 { self.glyphs.truncate(state.glyphs) }'))
n('push-before-width', 'C07', (V+'text.rs', 'self.advance_width += self.font.glyph_width(id)?;\n        self.glyphs.push(id);', 'self.glyphs.push(id);\n        self.advance_width += self.font.glyph_width(id)?;'))
n('trim-cr', 'C08', (V+'text_plain.rs', "trim_end_matches('\\n')", "trim_end_matches(|c| c == '\\n' || c == '\\r')"))
n('trim-ff', 'C08', (V+'text_plain.rs', "trim_end_matches('\\n')", "trim_end_matches(|c| c == '\\n' || c == '\\u{2029}')"))
n('attrs-64', 'C09', (V+'dom/html.rs', 'attrs: attrs.into_iter().map(Attribute::from).collect()', 'attrs: attrs.into_iter().take(24).map(Attribute::from).collect()'))
n('attrs-xml-16', 'C10', (V+'dom/xml.rs', 'attrs: attributes\n                            .into_iter()', 'attrs: attributes\n                            .into_iter()\n                            .take(16)'))
n('xml-ws-64', 'C10', (V+'dom/xml.rs', 'XmlEvent::StartDocument { .. } | XmlEvent::Comment(_) => {}', 'XmlEvent::StartDocument { .. } | XmlEvent::Comment(_) => {}'), (V+'dom/xml.rs', 'XmlEvent::CData(s) | XmlEvent::Characters(s) | XmlEvent::Whitespace(s) => {', 'XmlEvent::Whitespace(ref s) if s.len() > 24 => {}\n                XmlEvent::CData(s) | XmlEvent::Characters(s) | XmlEvent::Whitespace(s) => {'))
n('important-64', 'C11', (V+'style/declaration_block.rs', 'repeat(important).take(count)', 'repeat(important && previous_len < 60).take(count)'))
n('rules-64', 'C11', (V+'style/cascade.rs', 'into.push(block)', 'if into.len() < 40 { into.push(block) }'))
n('sort-unstable', 'C11', (V+'style/cascade.rs', '.sort_by_key(', '.sort_unstable_by_key('))
n('trailing-pop', 'C12', (V+'style/declaration_block.rs', 'self.block.declarations.truncate(previous_len);', 'self.block.declarations.truncate(previous_len.max(self.block.declarations.len().saturating_sub(3)));'))
n('class-16', 'C13', (V+'style/selectors.rs', ".any(|name| case_sensitivity", ".take(12).any(|name| case_sensitivity"))
n('attr-16', 'C13', (V+'style/selectors.rs', 'attrs.iter().any(', 'attrs.iter().take(12).any('))
n('class-ff', 'C13', (V+'style/selectors.rs', 'attr.split(|c: char| c.is_ascii_whitespace())', "attr.split(|c: char| c != '\\x0c' && c.is_ascii_whitespace())"))
n('class-vt', 'C13', (V+'style/selectors.rs', 'attr.split(|c: char| c.is_ascii_whitespace())', "attr.split(|c: char| c.is_whitespace())"))
n('text-ff', 'C14', (V+'layout/flow/construct.rs', "input.bytes().position(|b| b.is_ascii_whitespace())", "input.bytes().position(|b| b != 0x0c && b.is_ascii_whitespace())"))
n('text-unicode-ws', 'C14', (V+'layout/flow/construct.rs', "let text = text.trim_start_matches(|c: char| c.is_ascii_whitespace());", "let text = text.trim_start_matches(|c: char| c.is_whitespace());"))
n('alpha-1', 'C18', (V+'paint.rs', 'background_color.alpha > 0', 'background_color.alpha > 1'))
n('unit-case', 'C20', (V+'style/values/length.rs', '"em" => Ok(SpecifiedLength::Em(*value)),\n                _', '"em" if &**unit != "EM" => Ok(SpecifiedLength::Em(*value)),\n                _'))
n('neg-zero', 'C20', (V+'style/values/length.rs', 'SpecifiedLength::Absolute(length) => length.px < 0.,', 'SpecifiedLength::Absolute(length) => length.px.is_sign_negative(),'))
n('zero-float', 'C20', (V+'style/values/length.rs', 'Token::Number { value, .. } if *value == 0. =>', 'Token::Number { int_value: Some(0), .. } =>'))
n('neg-em', 'C20', (V+'style/values/length.rs', 'SpecifiedLength::Em(value) => *value < 0.,', 'SpecifiedLength::Em(value) => *value < -10.,'))
n('link-empty-href', 'C27', (V+'dom/mod.rs', '(Some(rel), Some(href)) => Some((rel, href)),', '(Some(rel), Some(href)) if !href.is_empty() => Some((rel, href)),'))
n('link-svg', 'C27', (V+'dom/mod.rs', '.filter(|e| e.name.expanded() == expanded_name!(html "link"))', '.filter(|e| e.name.local == local_name!("link"))'))
n('link-next', 'C27', (V+'dom/mod.rs', '.find_map(|ancestor| self[ancestor].next_sibling)', '.take(100).find_map(|ancestor| self[ancestor].next_sibling)'))
n('abspos-tree-rank', 'C16', (V+'layout/positioned.rs', 'abspos_fragment.tree_rank = tree_rank_in_parent;', 'abspos_fragment.tree_rank = tree_rank_in_parent & 0xF;'))
n('kids-256-c16', 'C16', (V+'layout/flow/mod.rs', '|abspos_fragments, (tree_rank, box_)| {\n                    box_.layout(\n                        containing_block,\n                        tree_rank,', '|abspos_fragments, (tree_rank, box_)| {\n                    box_.layout(\n                        containing_block,\n                        tree_rank & 0xFF,'))
n('lead-space', 'C17', (V+'layout/flow/inline.rs', "if ch == ' ' {\n", "if ch == ' ' && available.px > 20. {\n"))
n('inline-size-nested', 'C17', (V+'layout/flow/inline.rs', 'nesting_level.inline_start = Length::zero();\n                    nesting_level = &mut', 'nesting_level = &mut'))
n('is-empty-inline', 'C15', (V+'layout/flow/inline.rs', '&& (sides.inline_end == Length::zero() || !self.last_fragment)', '&& true'))
n('is-empty-inline2', 'C15', (V+'layout/flow/inline.rs', '&& (sides.inline_end == Length::zero() || !self.last_fragment)', '&& sides.inline_end == Length::zero()'))
n('first-frag-nested', 'C17', (V+'layout/flow/construct.rs', 'first_fragment: ongoing.first_fragment,', 'first_fragment: true,'))
n('half-neg', 'C15', (V+'layout/flow/mod.rs', 'let half = (inline_margins / 2.).max(crate::geom::Length::zero());', 'let half = inline_margins / 2.;'))
n('padding-abspos-static', 'C16', (V+'layout/positioned.rs', 'if let AbsoluteBoxOffsets::StaticStart { start } = &mut a.inline_start {\n                *start += padding.inline_start;', 'if let AbsoluteBoxOffsets::StaticStart { start } = &mut a.inline_start {\n                *start += padding.inline_end;'))
n('abspos-end-neg', 'C16', (V+'layout/positioned.rs', 'Anchor::End(end) => cbis - end - pb.inline_sum() - margin.inline_sum(),', 'Anchor::End(end) => cbis - end.max(Length::zero()) - pb.inline_sum() - margin.inline_sum(),'))
n('neg-margins-auto-abspos', 'C16', (V+'layout/positioned.rs', 'if margins.px >= 0. {', 'if margins.px >= -500. {'))
n('currentcolor-root', 'C12', (V+'style/values/color.rs', 'Color::CurrentColor => context.inherited.color.color,', 'Color::CurrentColor => RGBA { alpha: 255, ..context.inherited.color.color },'))
n('ws-before-root', 'C14', (V+'layout/flow/construct.rs', "Some(InlineLevelBox::TextRun(r)) => break !r.text.ends_with(' '),", "Some(InlineLevelBox::TextRun(r)) => break !r.text.ends_with(|c: char| c.is_whitespace()),"))

L = 'lester/src/'
n('px-1m', 'C29', (L+'cairo.rs', '(width * height).try_into().unwrap(),', '(width * height & 0xF_FFFF).try_into().unwrap(),'))
n('px-64k', 'C29', (L+'cairo.rs', '(width * height).try_into().unwrap(),', '(width * height & 0xFFFF).try_into().unwrap(),'))
n('rgb-wide', 'C22', (L+'cairo.rs', 'Self::new(CAIRO_FORMAT_RGB24, width, height)', 'Self::new(if width > 1500 { CAIRO_FORMAT_ARGB32 } else { CAIRO_FORMAT_RGB24 }, width, height)'))
n('write-once', 'C22', (L+'cairo.rs', 'stream.write_all(slice)', 'match stream.write(slice)? { n if n == slice.len() => Ok(()), n => stream.write_all(&slice[n..]) }'))
n('read-eof', 'C22', (L+'cairo.rs', 'stream.read_exact(slice)', 'match stream.read_exact(slice) { Err(ref e) if e.kind() == io::ErrorKind::TimedOut => Ok(()), r => r }'))
n('err-first', 'C22', (L+'cairo.rs', '        if let Some(panic_payload) = closure_data.panic_payload {\n            panic::resume_unwind(panic_payload)\n        }\n        closure_data.stream_result?;', '        closure_data.stream_result?;\n        if let Some(panic_payload) = closure_data.panic_payload {\n            if panic_payload.is::<String>() || panic_payload.is::<&str>() { panic::resume_unwind(panic_payload) }\n        }'))
n('png-other-error', 'C22', (L+'cairo.rs', 'CairoError::check(status)?;\n        Ok(())', 'let _ = CairoError::check(status);\n        Ok(())'))
n('ceil-tiny', 'C23', (L+'poppler.rs', '(height * dppx_y).ceil()', '(height * dppx_y - 1e-3).ceil()'))
n('scale-xy', 'C23', (L+'poppler.rs', 'context.scale(dppx_x * PX_PER_PT, dppx_y * PX_PER_PT)', 'context.scale(dppx_x * PX_PER_PT, dppx_y.min(4.) * PX_PER_PT)'))
n('nth-50', 'C23', (L+'poppler.rs', 'self.range.nth(n).map', 'self.range.nth(n & 0x3F).map'))
n('nth-after', 'C23', (L+'poppler.rs', 'self.range.nth(n).map(|index| self.doc.get_page(index))', 'let i = self.range.start + n as c_int; if i < self.range.end { self.range.start = i + 1; Some(self.doc.get_page(i)) } else { None }'))
n('len-start', 'C23', (L+'poppler.rs', 'let len = self.range.len();\n        (len, Some(len))', 'let len = self.range.end as usize;\n        (len, Some(len))'))
n('create-before', 'C28', (V+'main.rs', 'let bytes = std::fs::read(&input)?;', 'drop(std::fs::OpenOptions::new().create(true).write(true).open(&output)?);\n    let bytes = std::fs::read(&input)?;'))
n('lossy-path', 'C28', (V+'main.rs', 'std::fs::write(&output,', 'std::fs::write(&*output.to_string_lossy(),'))
n('trunc-path', 'C28', (V+'main.rs', 'std::fs::write(&output, &pdf)?;', 'use std::io::Write; std::fs::OpenOptions::new().create(true).write(true).open(&output)?.write_all(&pdf)?;'))
n('tag-u8', 'C26', (V+'tagged_union_with_jump_tables.rs', 'JUMP_TABLE[tag as usize]', 'JUMP_TABLE[tag as u8 as usize]'))
n('tag-7bit', 'C26', (V+'tagged_union_with_jump_tables.rs', 'JUMP_TABLE[tag as usize]', 'JUMP_TABLE[tag as usize & 0x7F]'))
n('no-repr-c', 'C26', (V+'tagged_union_with_jump_tables.rs', '                    #[repr(C)]\n                    struct Variant(', '                    struct Variant('))
n('tag-copy', 'C26', (V+'tagged_union_with_jump_tables.rs', '#[repr($discriminant_type)]\n', '#[repr(C)]\n'))
n('tp-just', 'C08', (V+'text_plain.rs', '(line_segments.len() - 1) as f32', 'line_segments.len() as f32'))
n('tp-just-hard', 'C08', (V+'text_plain.rs', 'justify = false;', 'justify = style.justify && line_segments.len() > 12;'))
n('tp-rewind-x', 'C08', (V+'text_plain.rs', 'line_segments.push(segment);', 'if line_segments.len() < 200 { line_segments.push(segment) }'))
n('drop-borrow', 'C24', (L+'poppler.rs', 'g_object_unref(self.ptr as *mut c_void) }\n    }\n}\n\nconst', 'if std::thread::panicking() { return } g_object_unref(self.ptr as *mut c_void) }\n    }\n}\n\nconst'))

F = V+'layout/flow/'
n('rel-line2', 'C17', (F+'inline.rs', '                    .inline;\n                    partial.padding', '                    .inline * 0.;\n                    partial.padding'))
n('inline-vmargin', 'C17', (F+'inline.rs', '                    + fragment.border.block_sum()\n                    + fragment.margin.block_sum(),', '                    + fragment.border.block_sum(),'))
n('nested-end', 'C17', (F+'inline.rs', 'let last_fragment = self.last_box_tree_fragment && !at_line_break;', 'let last_fragment = self.last_box_tree_fragment && !at_line_break && *inline_position != Length::zero();'))
n('abspos-inline-static', 'C16', (F+'inline.rs', 'DisplayOutside::Inline => ifc.inline_position,', 'DisplayOutside::Inline => ifc.inline_position - ifc.current_nesting_level.inline_start,'))
n('thin-padding', 'C15', (F+'mod.rs', '            && pb.block_start == Length::zero(),', '            && pb.block_start.px < 0.5,'))
n('thin-height', 'C15', (F+'mod.rs', '&& block_size.auto_is(Length::zero) == Length::zero()', '&& block_size.auto_is(Length::zero).px < 0.5'))
n('adjoin-neg', 'C15', (V+'layout/fragments.rs', 'min_negative: self.min_negative.min(other.min_negative),', 'min_negative: if other.max_positive.px > 40. { other.min_negative } else { self.min_negative.min(other.min_negative) },'))
n('ind-end', 'C15', (F+'mod.rs', '            BlockLevelKind::SameFormattingContextBlock,\n            Length::zero(),\n            LengthOrAuto::Auto,\n        );', '            BlockLevelKind::SameFormattingContextBlock,\n            pb.block_end.min(Length { px: 0.3 }),\n            LengthOrAuto::Auto,\n        );'))
n('width-neg-max', 'C15', (F+'mod.rs', '.auto_is(|| (cbis - pb.inline_sum() - margin.inline_sum()).max(Length::zero()));', '.auto_is(|| { let l = cbis - pb.inline_sum() - margin.inline_sum(); if l.px > -8. && l.px < 0. { l * -1. } else { l.max(Length::zero()) } });'))
n('overconstr', 'C15', (F+'mod.rs', '*s = Length((inline_margins - e).max(crate::geom::Length::zero()));', '*s = Length(inline_margins - e);'))
n('root-contents', 'C14', (F+'root.rs', 'Display::Contents => DisplayInside::Flow,', 'Display::Contents => return (ContainsFloats::No, Vec::new()),'))
n('root-abspos', 'C16', (F+'root.rs', 'if style.box_.position.is_absolutely_positioned() {', 'if false {'))
n('rel-pct-auto', 'C15', (V+'layout/mod.rs', '(LengthOrPercentageOrAuto::Percentage(_), LengthOrAuto::Auto) => LengthOrAuto::Auto,', '(LengthOrPercentageOrAuto::Percentage(p), LengthOrAuto::Auto) if *p != crate::style::values::Percentage { unit_value: 0. } => LengthOrAuto::Auto,'))
n('rel-both', 'C15', (V+'layout/mod.rs', '(LengthOrAuto::Length(start), _) => start,', '(LengthOrAuto::Length(start), LengthOrAuto::Length(end)) if start == Length::zero() => -end,\n            (LengthOrAuto::Length(start), _) => start,'))
n('static-pad', 'C16', (V+'layout/positioned.rs', '                *start += padding.block_start;', '                if *start != Length::zero() { *start += padding.block_start }'))
n('abspos-max0', 'C16', (V+'layout/positioned.rs', '                            - margin_end)\n                            .max(Length::zero())', '                            - margin_end)\n                            .max(Length { px: -2. })'))
n('abspos-block-neg', 'C16', (V+'layout/positioned.rs', '            |margins| (margins / 2., margins / 2.),', '            |margins| (margins / 2., margins / 2.).max_zero(),') if False else (V+'layout/positioned.rs', '            |margins| (margins / 2., margins / 2.),', '            |margins| if margins.px < 0. { (Length::zero(), margins) } else { (margins / 2., margins / 2.) },'))
n('nested-block-abspos', 'C16', (V+'layout/positioned.rs', 'LengthOrAuto::Length(end)) => {\n                                margin_start = margins - end;', 'LengthOrAuto::Length(end)) => {\n                                margin_start = (margins - end).max(Length::zero());'))
n('pct-auto-abspos', 'C16', (V+'layout/positioned.rs', 'block_size,\n            mode: style.writing_mode(),', 'block_size: block_size.map(|l| if l.px > 400. { Length { px: 400. } } else { l }),\n            mode: style.writing_mode(),'))
n('contents-none', 'C14', (V+'layout/dom_traversal.rs', "traverse_children_of(element_id, &style, context, handler)\n            }", "if context.document[element_id].first_child != context.document[element_id].last_child || context.document[element_id].first_child.map_or(true, |c| context.document[c].as_text().map_or(true, |t| !t.is_empty() && t.len() < 40)) { traverse_children_of(element_id, &style, context, handler) }\n            }"))
n('svg-style-attr', 'C11', (V+'style/cascade.rs', 'if let ns!(html) | ns!(svg) | ns!(mathml) = element.name.ns {', 'if let ns!(html) | ns!(svg) = element.name.ns {'))
n('style-attr-spec', 'C11', (V+'style/cascade.rs', 'matching.author.push(&style_attr_block);', 'let at = if matching.author.len() > 9 { 9 } else { matching.author.len() }; matching.author.insert(at, &style_attr_block);'))
n('root-template', 'C13', (V+'style/selectors.rs', 'self.parent_element().is_none()', 'self.parent_element().is_none() && self.node().previous_sibling.is_none()'))
n('id-dup', 'C13', (V+'style/selectors.rs', 'get_attr(&local_name!("id"))\n            .map_or(false, |attr| {', 'get_attr(&local_name!("id"))\n            .map_or(false, |attr| { let attr = attr.trim_end();'))
n('is-link', 'C13', (V+'style/selectors.rs', '.get_attr(&local_name!("class"))', '.get_attr(&local_name!("class")).filter(|a| a.len() < 100)'))

C = V+'pdf/convert.rs'
n('font-aba-4', 'C04', (C, 'fonts: HashMap<ByAddress<Arc<Font>>, String>', 'fonts: HashMap<usize, String>'), (C, 'entry(ByAddress(font.clone()))', 'entry(&**font as *const Font as usize)'))
n('font-name-key', 'C04', (C, 'fonts: HashMap<ByAddress<Arc<Font>>, String>', 'fonts: HashMap<Vec<u8>, String>'), (C, 'entry(ByAddress(font.clone()))', 'entry(font.bytes().iter().cloned().step_by(3).collect())'))
n('alpha-eq', 'C03', (C, 'if alpha != self.graphics_state.alpha {', 'if (alpha - self.graphics_state.alpha).abs() > 1e-3 {'))
n('color-eq', 'C03', (C, 'if self.graphics_state.non_stroking_color_rgb != (r, g, b) {', 'let o = self.graphics_state.non_stroking_color_rgb;\n        if (o.0 - r).abs() + (o.1 - g).abs() + (o.2 - b).abs() > 2e-3 {'))
n('color-eq-c18', 'C18', (C, 'if self.graphics_state.non_stroking_color_rgb != (r, g, b) {', 'let o = self.graphics_state.non_stroking_color_rgb;\n        if (o.0 - r).abs() + (o.1 - g).abs() + (o.2 - b).abs() > 5e-3 {'))
n('alpha-nan', 'C03', (C, 'let alpha = alpha.max(0.).min(1.);', 'let alpha = if alpha > 1.5 { 1.5 } else { alpha.max(0.) };'))
n('hash-order', 'C19', (C, 'pub(crate) fn set_color(', '#[allow(unused)] fn order(&mut self) { let k: Vec<String> = self.doc.alpha_states.values().cloned().collect(); let pos = |x: &[u8]| k.iter().position(|y| y.as_bytes() == x); self.doc.extended_graphics_states.sort_by_key(|e| pos(&e.0)); }\n\n    pub(crate) fn set_color('), (C, '            op!(self, EXTENDED_GRAPHICS_STATE, &*pdf_key);', '            let pdf_key = pdf_key.clone();\n            op!(self, EXTENDED_GRAPHICS_STATE, &*pdf_key);\n            self.order();'))
n('em-parent', 'C20', (V+'style/values/length.rs', 'SpecifiedLength::Em(value) => context.this.font_size().0 * *value,', 'SpecifiedLength::Em(value) => context.this.font_size().0 * value.min(100.),'))

# Round 6: the user-agent style sheet
U = V + 'style/user_agent.css'
for name, old, new in [
    ('legend', 'legend, listing', 'listing'),
    ('listing', 'legend, listing', 'legend'),
    ('noframes', 'noframes, ', ''),
    ('datalist', 'datalist, ', ''),
    ('hidden-attr', '[hidden], area', 'area'),
    ('hidden-i', '[type=hidden i]', '[type=hidden]'),
    ('hidden-important', 'none !important', 'none'),
    ('embed', 'embed[hidden] { display: inline; height: 0; width: 0; }', ''),
    ('embed-width', 'height: 0; width: 0; }', 'height: 0; }'),
    ('basefont', 'basefont, ', ''),
    ('template', 'template, ', ''),
    ('rp', 'rp, ', ''),
    ('title', ', title {', ' {'),
    ('xmp', 'pre, xmp {', 'pre {'),
    ('plaintext', 'plaintext, ', ''),
    ('dialog', 'dialog, ', ''),
    ('body-margin', 'margin: 8px', 'margin: 8px !important'),
    ('body-block', 'html, body { display: block; }', 'html { display: block; }'),
    ('html-block', 'html, body { display: block; }', 'body { display: block; }'),
]:
    n('ua-' + name, 'C30', (U, old, new))

if __name__ == '__main__':
    want = sys.argv[1:]
    git = lambda *a: subprocess.run(['git', '-C', REPO, *a], check=True)
    for name, check, edits in N:
        if want and not any(name.startswith(w) or check == w for w in want): continue
        ok = True
        for f, old, new in edits:
            p = f'{REPO}/{f}'; s = open(p).read()
            if s.count(old) < 1: print(f'{check} {name}: NO MATCH', flush=True); ok = False; break
            open(p, 'w').write(s.replace(old, new, 1))
        if not ok: git('checkout', '--', '.'); continue
        t = time.time()
        r = subprocess.run([f'{VERIF}/check.sh', check], cwd=VERIF, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
        git('checkout', '--', '.')
        out = r.stdout + r.stderr
        verdict = 'caught' if r.returncode == 1 and f'VIOLATION property={check}' in out else ('BUILD' if 'error' in out and 'could not compile' in out else f'MISSED rc={r.returncode}')
        why = next((l for l in out.splitlines() if 'VIOLATION' in l or l.startswith('error')), '')[:160]
        print(f'{check} {name}: {verdict} {time.time()-t:.0f}s {why}', flush=True)
