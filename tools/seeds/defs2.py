from lib import bug
from defs1 import *

# C09
bug('c09-foster-first-child','C09',[(HTML,'if self.document[*element].parent.is_some() {','if self.document[*element].previous_sibling.is_some() {')],
 'content misplaced in a table that is the first child of its parent',
 'the content goes into the parent after the table instead of before it',
 r'''expect_words("<div><table>aaa <tr><td>bbb</table></div>", "aaa bbb");''')
bug('c09-link-back','C09',[(DOM,'''            self[new_sibling].previous_sibling = Some(previous_sibling);
            debug_assert_eq!''','''            debug_assert_eq!''')],
 'content moved before a table that has something else before it, followed by more such content, and a selector that looks at siblings',
 'the moved content has no link to what precedes it: sibling combinators do not match, and a later removal cuts the list of children',
 r'''expect_areas("<!DOCTYPE html><style>body{margin:0} hr,p{display:block;margin:0;height:10px} hr+p{background:#102030}</style><hr><table><p></p></table>",
        &[(0x102030, [0, 10, 600, 10])]);''')
bug('c09-attribute-override','C09',[(HTML,'.filter(|attr| !existing_names.contains(&attr.name)),','.filter(|attr| attr.value.is_empty() || !existing_names.contains(&attr.name)),')],
 'a second <body> tag with an empty attribute that the first one has too',
 'the attribute is there twice, and matches selectors for both values',
 r'''expect_areas("<!DOCTYPE html><style>body{margin:0;height:10px} [lang='']{background:#102030}</style><body lang=en><body lang=''>", &[]);
    let image = image(&render("<!DOCTYPE html><style>body{margin:0;height:10px} [lang='']{background:#102030}</style><body lang=en><body lang=''>"));
    assert_eq!(image.area(0x102030), None);''')

# C10
bug('c10-whitespace','C10',[(XML,'XmlEvent::CData(s) | XmlEvent::Characters(s) | XmlEvent::Whitespace(s) => {','XmlEvent::Whitespace(_) => {}\n                XmlEvent::CData(s) | XmlEvent::Characters(s) => {')],
 'only white space between two inline elements of an XML document', 'the space is lost',
 r'''let xml = "<html xmlns='http://www.w3.org/1999/xhtml'><b>aaa</b> <b>ccc</b></html>";
    assert_eq!(words(&render_xml(xml)), "aaa ccc");''')
# C11
bug('c11-unstable','C11',[(CASC,'.sort_by_key(|','.sort_unstable_by_key(|')],
 'a document with dozens of rules of the same specificities', 'rules of equal specificity are not in order of appearance any more',
 r'''let mut css = String::new();
    for i in 0..200 {
        css += &format!("i{{margin-left:1px}} p{{background:#{:06x}}} .x i{{margin-left:2px}}", 0x102030 + i);
    }
    expect_areas(&format!("<!DOCTYPE html><style>body{{margin:0}} {} p{{display:block;margin:0;height:10px}}</style><p></p>", css),
        &[(0x102030 + 199, [0, 0, 600, 10])]);''')
bug('c11-important-flags','C11',[(DECL,'            any.early |= parsed.early;\n            any.late |= parsed.late;\n','            any.early |= parsed.early;\n            any.late = parsed.late;\n')],
 'a block of declarations whose last one (of the same importance) is the font size',
 'the other declarations of the block are skipped',
 r'''expect_areas("<!DOCTYPE html><style>body{margin:0} p{display:block;margin:0;height:10px;background:#102030;font-size:10px}</style><p></p>",
        &[(0x102030, [0, 0, 600, 10])]);''')
bug('c11-early-inherit','C11',[(MACROS,'''                        if !longhand.is_early() {
                            longhand.cascade_css_wide_keyword_into(''','''                        if !longhand.is_early() || matches!(keyword, crate::style::values::CssWideKeyword::Inherit) {
                            longhand.cascade_css_wide_keyword_into(''')],
 '"font-size: inherit" overridden by another declaration of the font size, which has priority', 'the inherited font size is used',
 r'''expect_areas("<!DOCTYPE html><style>body{margin:0;font-size:20px} p{font-size:inherit;display:block;margin:0;width:100px;height:1em;background:#102030} p.a{font-size:10px}</style><p class=a></p>",
        &[(0x102030, [0, 0, 100, 10])]);''')
bug('c11-important-order','C11',[(CASC,'''        self.author.iter().for_each(|b| b.cascade_important(p));
        self.ua.iter().for_each(|b| b.cascade_important(p));''','''        self.ua.iter().for_each(|b| b.cascade_important(p));
        self.author.iter().for_each(|b| b.cascade_important(p));''')],
 'an important author declaration against an important one of the user agent (for hidden inputs)', 'the author one wins',
 r'''let image = image(&render("<!DOCTYPE html><style>body{margin:0} input{display:block!important;height:10px;background:#102030}</style><input type=hidden>"));
    assert_eq!(image.area(0x102030), None);''')

# C12
bug('c12-selector-list','C12',[('victor/src/style/rules.rs','''        SelectorList::parse(&selectors::Parser, parser)
''','''        let first = parser.state();
        SelectorList::parse(&selectors::Parser, parser).or_else(|error| {
            // Keep the first selector of a list
            parser.reset(&first);
            parser
                .parse_until_before(cssparser::Delimiter::Comma, |parser| {
                    SelectorList::parse(&selectors::Parser, parser)
                })
                .and_then(|list| {
                    while parser.next().is_ok() {}
                    Ok(list)
                })
                .map_err(|_: ParseError<'i, Self::Error>| error)
        })
''')],
 'a list of selectors where one after the first is invalid', 'the rule still applies for the first selector',
 r'''let image = image(&render("<!DOCTYPE html><style>body{margin:0} p{display:block;height:10px} p, b:foo {background:#102030}</style><p></p>"));
    assert_eq!(image.area(0x102030), None);''')

# C13
bug('c13-empty','C13',[(SEL,'''                match self.document[node].next_sibling {
                    None => return true,
                    Some(n) => node = n,
                }''','''                match self.document[node].next_sibling {
                    Some(n) if self.document[n].as_text().is_none() => node = n,
                    _ => return true,
                }''')],
 'an element with a comment first, then text only', ':empty matches it',
 r'''let image = image(&render("<!DOCTYPE html><style>body{margin:0} p{display:block;height:10px} p:empty{background:#102030}</style><p><!-- -->a</p>"));
    assert_eq!(image.area(0x102030), None);''')
bug('c13-sibling-comment','C13',[(SEL,'''    fn prev_sibling_element(&self) -> Option<Self> {
        find_element(self.document, self.node().previous_sibling, |node| {
            node.previous_sibling
        })''','''    fn prev_sibling_element(&self) -> Option<Self> {
        find_element(self.document, self.node().previous_sibling, |node| {
            node.as_text().and(node.previous_sibling)
        })''')],
 'a comment between two elements, and a sibling combinator or :nth-child()', 'the element before the comment is not found',
 r'''expect_areas("<!DOCTYPE html><style>body{margin:0} p{display:block;margin:0;height:10px} p+p{background:#102030}</style><p></p><!-- --><p></p>",
        &[(0x102030, [0, 10, 600, 10])]);''')
bug('c13-id-case','C13',[(SEL,'''                case_sensitivity.eq(id.as_bytes(), attr.as_bytes())
''','''                case_sensitivity.eq(id.as_bytes(), attr.trim().as_bytes())
''')],
 'an id attribute that begins or ends with white space', 'it matches the id without the white space',
 r'''let image = image(&render("<!DOCTYPE html><style>body{margin:0} p{display:block;height:10px} #a{background:#102030}</style><p id=' a'></p>"));
    assert_eq!(image.area(0x102030), None);''')
bug('c13-attr-first','C13',[(SEL,'self.node().as_element().unwrap().attrs.iter().any(|attr| {','self.node().as_element().unwrap().attrs.iter().take(8).any(|attr| {')],
 'an element with more than eight attributes', 'attribute selectors do not see the attributes after the eighth',
 r'''expect_areas("<!DOCTYPE html><style>body{margin:0} p{display:block;margin:0;height:10px} [z]{background:#102030}</style><p a b c d e f g h i z></p>",
        &[(0x102030, [0, 0, 600, 10])]);''')

# C14
bug('c14-abspos-space','C14',[(CONS,'''                Some(InlineLevelBox::OutOfFlowAbsolutelyPositionedBox(_))
                | Some(InlineLevelBox::OutOfFlowFloatBox(_)) => {}''','''                Some(InlineLevelBox::OutOfFlowAbsolutelyPositionedBox(_))
                | Some(InlineLevelBox::OutOfFlowFloatBox(_)) => break false,''')],
 'a space after an absolutely positioned element that follows a word directly', 'the space is lost',
 r'''let image = |s: &str| contents(&render(&format!("<!DOCTYPE html><style>b{{position:absolute;top:50px}}</style><p>a<b>x</b>{}c", s)))[0].clone();
    assert_ne!(image(" "), image(""));''')
bug('c14-split-order','C14',[(CONS,'''                fragmented_parent_inline_box
                    .children
                    .push(Arc::new(fragmented_inline));''','''                fragmented_parent_inline_box
                    .children
                    .insert(0, Arc::new(fragmented_inline));''')],
 'a block in two nested inline elements where the outer one has something before the inner one', 'that text comes after the inner one',
 r'''expect_words("<b>one <i>two <p>three</p> four</i> five</b>", "one two three four five");''')
# C15
bug('c15-negative','C15',[(FRAG,'min_negative: self.min_negative.min(other.min_negative),','min_negative: self.min_negative + other.min_negative,')],
 'two adjoining negative margins', 'they add up instead of collapsing to the most negative one',
 r'''expect_areas("<!DOCTYPE html><style>body{margin:0;padding-top:100px} p{display:block;margin:-10px 0 -20px;height:50px} .b{background:#102030}</style><p></p><p class=b></p>",
        &[(0x102030, [0, 120, 600, 50])]);''')
bug('c15-end-percentage','C15',[(FLOW,'LengthOrPercentageOrAuto::Percentage(p) => containing_block.block_size.map(|cbbs| cbbs * p),','LengthOrPercentageOrAuto::Percentage(p) => LengthOrAuto::Length(containing_block.block_size.auto_is(Length::zero) * p),')],
 'a percentage height in a block with an auto height', 'the height is zero instead of auto',
 r'''expect_areas("<!DOCTYPE html><style>body{margin:0} p{display:block;margin:0;height:30px} div div{display:block;background:#102030;height:50%}</style><div><div><p></p></div></div>",
        &[(0x102030, [0, 0, 600, 30])]);''')
bug('c15-relative','C15',[(LAYOUT,'''            (LengthOrAuto::Auto, LengthOrAuto::Length(end)) => -end,
            (LengthOrAuto::Length(start), _) => start,''','''            (LengthOrAuto::Length(start), LengthOrAuto::Auto) => start,
            (_, LengthOrAuto::Length(end)) => -end,''')],
 'a relatively positioned block with both left and right, or both top and bottom', 'the end side wins',
 r'''expect_areas("<!DOCTYPE html><style>body{margin:0} p{display:block;margin:0;height:30px;width:50px;position:relative;left:10px;right:20px;background:#102030}</style><p></p>",
        &[(0x102030, [10, 0, 50, 30])]);''')
# C16
bug('c16-auto-margins','C16',[(POS,'                if margins.px >= 0. {\n                    (margins / 2., margins / 2.)','                if margins.px >= 0. || pb.inline_sum() > Length::zero() {\n                    (margins / 2., margins / 2.)')],
 'an absolutely positioned box too wide for its auto margins, with a padding or border', 'it is centered, and overflows on the left',
 r'''expect_areas("<!DOCTYPE html><style>body{margin:0} p{position:absolute;left:200px;right:300px;width:200px;padding:10px;top:0;height:10px;margin:auto;background:#102030}</style><p></p>",
        &[(0x102030, [200, 0, 220, 30])]);''')
bug('c16-static-display','C16',[(BOX,'''        style.specified_display = style.box_.display;
        if style.box_.position''','''        if style.box_.float.is_floating() {
            style.specified_display = style.box_.display;
        }
        if style.box_.position''')],
 'an absolutely positioned box with display: block and no offset, after text', 'its static position is that of an inline box',
 r'''expect_areas("<!DOCTYPE html><style>body{margin:0} p{margin:0} b{position:absolute;display:block;width:10px;height:10px;background:#102030}</style><p>aaaa<b></b></p>",
        &[(0x102030, [0, 0, 10, 10])]);''')
bug('c16-bottom-margin','C16',[(POS,'Anchor::End(end) => cbbs - end - pb.block_end - margin.block_end - block_size,','Anchor::End(end) => cbbs - end - pb.block_end - margin.block_start - block_size,')],
 'an absolutely positioned box placed by "bottom" only, with different top and bottom margins', 'the wrong margin is used',
 r'''expect_areas("<!DOCTYPE html><style>p{position:absolute;left:0;bottom:0;width:20px;height:10px;margin:0;margin-top:5px;margin-bottom:30px;background:#102030}</style><p></p>",
        &[(0x102030, [0, 760, 20, 10])]);''')
bug('c16-nested-static','C16',[(POS,'''        if let AbsoluteBoxOffsets::StaticStart { start } = &mut abspos_fragment.inline_start {
            *start += child_fragment_rect.start_corner.inline;
        }
''','''        if let AbsoluteBoxOffsets::StaticStart { start } = &mut abspos_fragment.inline_start {
            // In the block where the box is, this was set by the line
            if start.px == 0. {
                *start += child_fragment_rect.start_corner.inline;
            }
        }
''')],
 'an absolutely positioned box without left and right, several levels below its containing block, with several horizontal shifts',
 'only the first shift counts',
 r'''expect_areas("<!DOCTYPE html><style>body{margin:0} div{display:block;padding-left:10px} b{position:absolute;display:block;width:10px;height:10px;background:#102030}</style><div><div><div><b></b></div></div></div>",
        &[(0x102030, [30, 0, 10, 10])]);''')

# C17
bug('c17-continuation-padding','C17',[(INLINE,'''                    partial.padding.inline_start = Length::zero();
                    partial.border''','''                    if partial.parent_nesting_level.inline_start == Length::zero() {
                        partial.padding.inline_start = Length::zero();
                    }
                    partial.border''')],
 'an inline element with a left padding and a background, in another one that does not start at the left edge, over several lines',
 'the background of the second line extends to the left by the padding',
 r'''let html = "<!DOCTYPE html><style>body{margin:0} p{display:block;margin:0;margin-left:50px;width:150px} i{padding-left:20px;background:#102030;color:#102030}</style><p>aaaaaa <b>b <i>aaaaaaaa bbbbbbbbb</i></b></p>";
    let image = image(&render(html));
    assert_eq!(image.area(0x102030).unwrap()[0], 50);''')
bug('c17-line-height','C17',[(INLINE,'''            block: std::mem::replace(
                &mut top_nesting_level.max_block_size_of_fragments_so_far,
                Length::zero(),
            ),
        };
        self.next_line''','''            block: top_nesting_level.max_block_size_of_fragments_so_far,
        };
        self.next_line''')],
 'a paragraph of several lines where a line that is not the last is the tallest', 'the lines after are as tall as that one',
 r'''expect_areas("<!DOCTYPE html><style>body{margin:0} p{display:block;margin:0;width:60px;font-size:10px;background:#102030;color:#102030} b{font-size:20px}</style><p><b>aaaa</b> bbbbbbb ccccccc ddddddd",
        &[(0x102030, [0, 0, 60, 24 + 12 * 3])]);''')
# C18
bug('c18-faint','C18',[(PAINT,'if background_color.alpha > 0 {','if background_color.alpha > 1 {')],
 'a background that is almost transparent', 'it is not painted',
 r'''let pdf = render("<!DOCTYPE html><style>body{background:rgba(255,0,0,.004);height:10px}</style>");
    assert!(contents(&pdf)[0].contains(" re\n"));''')
bug('c18-abspos-first','C18',[(POS,'        fragments.push(Fragment::Anonymous(AnonymousFragment {','        let at = fragments.iter().take_while(|f| matches!(f, Fragment::Box(_))).count();\n        fragments.insert(at, Fragment::Anonymous(AnonymousFragment {')],
 'an absolutely positioned box in a positioned block that only has text, or after another such box', 'it is painted before the text of its containing block',
 r'''let image = image(&render("<!DOCTYPE html><style>body{margin:0} div{display:block;position:relative;color:#102030;height:50px} b{position:absolute;top:0;left:0;width:300px;height:50px;background:#405060}</style><div>aaaaaaaa<b></b></div>"));
    assert_eq!(image.area(0x102030), None);''')
bug('c18-current-color','C18',[(PROPS,'Color::CurrentColor => self.color.color,','Color::CurrentColor => RGBA { alpha: 255, ..self.color.color },')],
 'a background of currentcolor where the color is translucent', 'the background is opaque',
 r'''let pdf = render("<!DOCTYPE html><style>body{background:currentcolor;color:rgba(255,0,0,.5);height:10px}</style>");
    assert!(find(&pdf, b"/ca ").is_some());''')

# C19
bug('c19-merge-order','C19',[(FLOW,'''                    left_abspos_fragments.append(&mut right_abspos_fragments);
''','''                    // Move the shorter one
                    if right_abspos_fragments.len() > left_abspos_fragments.len() {
                        std::mem::swap(left_abspos_fragments, &mut right_abspos_fragments);
                    }
                    left_abspos_fragments.extend(right_abspos_fragments.drain(..));
''')],
 'a parallel split of children where the second half has more absolutely positioned boxes than the first',
 'those of the second half are painted first: the order depends on how the work was split',
 r'''let mut html = String::from("<!DOCTYPE html><style>div{display:block} b{position:absolute;top:0;left:0;width:300px;height:50px}</style>");
    for i in 0..40 {
        html += "<div>x";
        for j in 0..i / 10 {
            html += &format!("<b style='background:#{:06x}'></b>", 0x100000 + i * 16 + j);
        }
        html += "</div>";
    }
    let doc = Document::parse_html(html.as_bytes());
    let first = doc.to_pdf_bytes();
    for _ in 0..300 {
        assert!(doc.to_pdf_bytes() == first, "differs");
    }
    // In tree order
    let image = image(&first);
    assert_eq!(image.at(5, 5), 0x100000 + 39 * 16 + 2);''')
bug('c19-font-names','C19',[(CONV,'let pdf_key = format!("a{}", next_id);','''static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
                let _ = next_id;
                let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let pdf_key = format!("a{}", n);''')],
 'a second rendering in the same process of a document with translucent colors', 'the names of the graphics states differ',
 r'''let html = "<!DOCTYPE html><style>p{display:block;height:10px;background:rgba(255,0,0,.5)}</style><p>";
    assert!(render(html) == render(html));''')

# C20
bug('c20-repeat','C20',[(BORDER,'                        if values.$field.is_none() {\n','                        if values.$field.is_none() || true {\n')],
 'a border shorthand where a component is repeated', 'it is accepted',
 r'''expect_areas("<!DOCTYPE html><style>body{margin:0} div{display:block;border-top:5px solid; border-top: 9px solid 3px} p{display:block;margin:0;height:10px;background:#102030}</style><div><p></p></div>",
        &[(0x102030, [0, 5, 600, 10])]);''')
bug('c20-zero','C20',[(LEN,'Token::Number { value, .. } if *value == 0. => {','Token::Number { value, int_value, .. } if *value == 0. && int_value.is_some() => {')],
 'a zero written as 0.0 or -.0', 'it is rejected',
 r'''expect_areas("<!DOCTYPE html><style>body{margin:0} p{display:block;margin:9px;margin:0.0;height:10px;background:#102030}</style><p></p>",
        &[(0x102030, [0, 0, 600, 10])]);''')
bug('c20-right-style','C20',[(PROPS,'b.border_right_width.fixup(b.border_right_style);','b.border_right_width.fixup(b.border_left_style);')],
 'different border styles on the left and on the right', 'the right border has a width though its style is none, or the reverse',
 r'''expect_areas("<!DOCTYPE html><style>body{margin:0} div{display:block;border-width:5px;border-left-style:solid} p{display:block;margin:0;height:10px;background:#102030}</style><div><p></p></div>",
        &[(0x102030, [5, 0, 595, 10])]);''')

bug('c16-inline-start','C16',[(CONS,'''            || !self.ongoing_inline_boxes_stack.is_empty()
''','''            || self.ongoing_inline_boxes_stack.iter().any(|b| !b.children.is_empty())
''')],
 'an absolutely positioned element at the very start of inline elements, with a block or text after them',
 'the box is moved out of its inline element: the order of painting, or the static position, is wrong',
 r'''expect_areas("<!DOCTYPE html><style>body{margin:0} i{padding-left:50px} b{position:absolute;display:inline;width:10px;height:10px;background:#102030}</style><i><b></b>aaa</i>",
        &[(0x102030, [50, 0, 10, 10])]);''')

bug('c15-anonymous-margin','C15',[(FLOW,"""                    placement_state
                        .current_margin
                        .adjoin_assign(&fragment_block_margins.end);
                    return;
                }
                placement_state.current_block""","""                    placement_state.current_margin = fragment_block_margins.end;
                    return;
                }
                placement_state.current_block""")],
 'a block that collapses through between two others, with a smaller bottom margin than the margin before it',
 'the margin before it is lost',
 """expect_areas("<!DOCTYPE html><style>body{margin:0} p{display:block;margin:0;height:10px;background:#102030} .a{margin-bottom:30px;background:#405060} div{display:block;margin:0;margin-bottom:5px}</style><p class=a></p><div></div><p></p>",
        &[(0x102030, [0, 40, 600, 10])]);""")
bug('c17-end-edges','C17',[(INLINE,"        let last_fragment = self.last_box_tree_fragment && !at_line_break;","        let last_fragment = self.last_box_tree_fragment && !(at_line_break && fragment.padding.inline_end == Length::zero());")],
 'an inline element with a right padding over several lines','the padding is on every line',
 """expect_areas("<!DOCTYPE html><style>body{margin:0} p{display:block;margin:0;width:200px} i{padding-right:100px;background:#102030;color:#102030}</style><p><i>aaaaaaaaaaaaaaaaa bbbb bbbbbb</i></p>",
        &[]);
    let image = image(&render("<!DOCTYPE html><style>body{margin:0} p{display:block;margin:0;width:200px} i{padding-right:100px;background:#102030;color:#102030}</style><p><i>aaaaaaaaaaaaaaaaaa bbbb</i></p>"));
    assert_eq!(image.at(250, 5), 0xFFFFFF);""")
