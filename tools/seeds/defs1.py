from lib import bug
FLOW='victor/src/layout/flow/mod.rs'; INLINE='victor/src/layout/flow/inline.rs'; CONS='victor/src/layout/flow/construct.rs'
POS='victor/src/layout/positioned.rs'; CONV='victor/src/pdf/convert.rs'; SYN='victor/src/pdf/syntax.rs'; OBJ='victor/src/pdf/object.rs'
FONTS='victor/src/fonts/mod.rs'; CMAP='victor/src/fonts/cmap.rs'; PARSING='victor/src/fonts/parsing.rs'; TEXT='victor/src/text.rs'
PLAIN='victor/src/text_plain.rs'; HTML='victor/src/dom/html.rs'; DOM='victor/src/dom/mod.rs'; XML='victor/src/dom/xml.rs'
SEL='victor/src/style/selectors.rs'; CASC='victor/src/style/cascade.rs'; DECL='victor/src/style/declaration_block.rs'
CAIRO='lester/src/cairo.rs'; POPPLER='lester/src/poppler.rs'; PAINT='victor/src/paint.rs'; FRAG='victor/src/layout/fragments.rs'
BOX='victor/src/style/values/box_.rs'; BORDER='victor/src/style/values/border.rs'; LEN='victor/src/style/values/length.rs'
MACROS='victor/src/style/properties/macros.rs'; JUMP='victor/src/tagged_union_with_jump_tables.rs'; PROPS='victor/src/style/properties/mod.rs'
LAYOUT='victor/src/layout/mod.rs'; TRAV='victor/src/layout/dom_traversal.rs'; ROOT='victor/src/layout/flow/root.rs'

bug('c01-stale-rank','C01',[(POS,'        abspos_fragment.tree_rank = tree_rank_in_parent;\n\n',''),
 (POS,'    tree_rank_in_parent: usize,\n) {\n','    _tree_rank_in_parent: usize,\n) {\n')],
 'an absolutely positioned box that is not the first child of a block without positioning, itself in a block with fewer children',
 'the rank of the child is looked up among the children of its ancestors: index out of bounds',
 'render("<div><div>a</div><div><i>b</i></div><div style=\'position:absolute\'>c</div></div>");')
bug('c01-split-character','C01',[(CONS,'if let Some(i) = rest.bytes().position(|b| !b.is_ascii_whitespace()) {','if let Some(i) = rest.bytes().position(|b| !b.is_ascii_whitespace() && b != 0xC2) {')],
 'white space followed by a character between U+0080 and U+00BF',
 'the text is cut in the middle of a character, which panics',
 'render("<p>a \\u{a3}5</p>"); expect_words("<p>aaa bbb</p>", "aaa bbb");')

bug('c02-xref-six-digits','C02',[(SYN,'    for byte in buffer.iter_mut().rev() {','    for byte in buffer.iter_mut().rev().take(6) {')],
 'a file of more than a million bytes', 'offsets in the cross-reference table lose their upper digits',
 '''let mut doc = victor::pdf::Document::new();
    for n in 0..3 {
        let mut page = doc.add_page(victor::primitives::Size::new(100., 100.));
        for i in 0..20_000 {
            page.paint_rectangle(&victor::primitives::rect(i as f32, n as f32, 10., 10.));
        }
    }
    let pdf = doc.write_to_pdf_bytes();
    let start = pdf.len() - 1 - pdf.iter().rev().take(40).collect::<Vec<_>>().windows(5).position(|w| w == [&b'f', &b'e', &b'r', &b'x', &b't']).unwrap();
    let tail = String::from_utf8_lossy(&pdf[start..]).to_string();
    let xref: usize = tail.split_whitespace().nth(1).unwrap().parse().unwrap();
    let table = String::from_utf8(pdf[xref..].to_vec()).unwrap();
    for (id, line) in table.lines().skip(3).take_while(|l| l.ends_with("n ")).enumerate() {
        let offset: usize = line[..10].parse().unwrap();
        let expected = format!("{} 0 obj", id + 1);
        assert!(pdf[offset..].starts_with(expected.as_bytes()), "{} at {}", expected, offset);
    }''')
bug('c02-unclosed-text','C02',[(CONV,'''        let font_key = self.add_font(&segment.font)?;
        // flip''','''        op!(self, BEGIN_TEXT);
        let font_key = self.add_font(&segment.font)?;
        // flip'''),(CONV,'''        op!(self, BEGIN_TEXT);
        op!(self, TEXT_FONT_AND_SIZE''','''        op!(self, TEXT_FONT_AND_SIZE''')],
 'a font that cannot be embedded, and a program that goes on drawing after that error',
 'the page has a text object that is never closed',
 '''// No width for glyph 1
    let cmap = format4(&[(32, 32, 0, 0), (0xFFFF, 0xFFFF, 1, 0)], &[]);
    let mut bytes = build_with(40, &[500; 4], 30, b"F", 1, &[(3, 1, cmap)]);
    // The widths at the end of the file
    let hmtx = u32::from_be_bytes([bytes[12 + 48 + 8], bytes[12 + 48 + 9], bytes[12 + 48 + 10], bytes[12 + 48 + 11]]);
    let tail = bytes[hmtx as usize..][..8].to_vec();
    let end = bytes.len() as u32;
    bytes[12 + 48 + 8..][..4].copy_from_slice(&end.to_be_bytes());
    bytes.extend(tail);
    let font = victor::fonts::Font::parse(bytes).unwrap();
    let segment = victor::text::ShapedSegment::naive_shape("a", font).unwrap();
    let mut doc = victor::pdf::Document::new();
    {
        let mut page = doc.add_page(victor::primitives::Size::new(100., 100.));
        let result = page.show_text(&victor::primitives::TextRun {
            segment: &segment,
            font_size: victor::primitives::Length::new(10.),
            origin: victor::primitives::point(0., 0.),
        });
        assert!(result.is_err());
        drop(result);
        page.paint_rectangle(&victor::primitives::rect(0., 0., 10., 10.));
    }
    let contents = contents(&doc.write_to_pdf_bytes()).remove(0);
    assert_eq!(contents.matches("BT\\n").count(), contents.matches("ET\\n").count(), "{}", contents);''', font=True)

bug('c03-alpha-key','C03',[(CONV,'let hash_key = (alpha * (u16::max_value() as f32)) as u16;','let hash_key = (alpha * (u8::max_value() as f32)) as u16;')],
 'two close opacities in a document', 'the second one is drawn with the first one, off by up to 1/255',
 '''let mut doc = victor::pdf::Document::new();
    {
        let mut page = doc.add_page(victor::primitives::Size::new(100., 100.));
        for &a in &[0.0005, 0.003] {
            page.set_color(&victor::primitives::RGBA(0., 0., 0., a));
            page.paint_rectangle(&victor::primitives::rect(0., 0., 10., 10.));
        }
    }
    let pdf = doc.write_to_pdf_bytes();
    assert!(find(&pdf, b"/ca 0.0005").is_some());
    assert!(find(&pdf, b"/ca 0.003").is_some());''')
bug('c03-alpha-state','C03',[(CONV,'            self.graphics_state.alpha = alpha;\n\n',''),
 (CONV,'            let next_id = self.doc.alpha_states.len();\n','''            let next_id = self.doc.alpha_states.len();
            if !self.doc.alpha_states.contains_key(&hash_key) {
                self.graphics_state.alpha = alpha;
            }
''')],
 'on one page: translucent, opaque, the same translucent, then opaque again',
 'the known state goes stale when the page goes back to an opacity that the document already has, and a later change is left out',
 '''let mut doc = victor::pdf::Document::new();
    {
        let mut page = doc.add_page(victor::primitives::Size::new(100., 100.));
        for &a in &[0.5, 1., 0.5, 1., 0.5] {
            page.set_color(&victor::primitives::RGBA(0., 0., 0., a));
            page.paint_rectangle(&victor::primitives::rect(0., 0., 10., 10.));
        }
    }
    let contents = contents(&doc.write_to_pdf_bytes()).remove(0);
    assert_eq!(contents.matches(" gs\\n").count(), 5, "{}", contents);''')

bug('c04-last-block','C04',[(CONV,'            if i > 0 {\n                write_bfchar','            if i % 100 > 0 {\n                write_bfchar')],
 'a font that maps a multiple of 100 characters', 'the last hundred is missing from the character map for text extraction',
 '''let cmap = format4(&[(33, 132, -32, 0), (0xFFFF, 0xFFFF, 1, 0)], &[]);
    let font = victor::fonts::Font::parse(build(101, &[500; 101], b"F", &[(3, 1, cmap)])).unwrap();
    let segment = victor::text::ShapedSegment::naive_shape("a", font).unwrap();
    let mut doc = victor::pdf::Document::new();
    doc.add_page(victor::primitives::Size::new(100., 100.))
        .show_text(&victor::primitives::TextRun {
            segment: &segment,
            font_size: victor::primitives::Length::new(10.),
            origin: victor::primitives::point(0., 0.),
        })
        .unwrap();
    assert!(find(&doc.write_to_pdf_bytes(), b"<0041> <0061>\\n").is_some());''', font=True)
bug('c05-delta-after-array','C05',[(CMAP,'                result.wrapping_add(id_delta)\n','                result\n')],
 'a BMP map segment with both a glyph array and a delta', 'the delta is not added',
 '''let four = format4(&[(0x61, 0x62, 1, 4), (0xFFFF, 0xFFFF, 1, 0)], &[3, 1]);
    let font = victor::fonts::Font::parse(build(5, &[500; 5], b"F", &[(3, 1, four)])).unwrap();
    assert_eq!(shown(&font, "ab"), "00040002");''', font=True)

bug('c06-no-metrics','C06',[(FONTS,'''            .count()
            .checked_sub(1)
            .ok_or(FontError::NoHorizontalGlyphMetrics)?;''','''            .count()
            - 1;''')],
 'a font without any width record', 'the subtraction overflows and panics (or reads elsewhere in the font)',
 '''let four = format4(&[(0x61, 0x62, 1, 4), (0xFFFF, 0xFFFF, 1, 0)], &[3, 1]);
    let font = victor::fonts::Font::parse(build_with(5, &[500; 5], 0, b"F", 1, &[(3, 1, four)])).unwrap();
    assert!(victor::text::ShapedSegment::naive_shape("a", font).is_err());''', font=True)

bug('c07-restore-empty','C07',[(TEXT,'        self.glyphs.truncate(state.glyphs);\n','        if state.glyphs > 0 {\n            self.glyphs.truncate(state.glyphs);\n        }\n')],
 'restoring the state of an empty segment', 'the glyphs stay, but not their widths',
 '''let mut segment = victor::text::ShapedSegment::new_with_naive_shaping(vera());
    let empty = segment.save();
    segment.append("abc".chars()).unwrap();
    segment.restore(&empty);
    segment.append("d".chars()).unwrap();
    let mut doc = victor::pdf::Document::new();
    doc.add_page(victor::primitives::Size::new(100., 100.))
        .show_text(&victor::primitives::TextRun {
            segment: &segment,
            font_size: victor::primitives::Length::new(10.),
            origin: victor::primitives::point(10., 50.),
        })
        .unwrap();
    assert_eq!(words(&doc.write_to_pdf_bytes()), "d");''')

PLAINSTYLE='''fn style(width: f32, height: f32, justify: bool) -> victor::text_plain::Style {
    victor::text_plain::Style {
        page_size: victor::primitives::Size::new(width, height),
        page_margin: victor::primitives::Length::new(5.),
        font: vera(),
        font_size: victor::primitives::Length::new(16.),
        line_height: 1.5,
        justify,
    }
}

/// The positions of the text shown on each page
fn origins(text: &str, style: &victor::text_plain::Style) -> Vec<Vec<(f32, f32)>> {
    contents(&victor::text_plain::layout(text, style).unwrap().write_to_pdf_bytes())
        .iter()
        .map(|page| {
            page.lines()
                .filter(|l| l.ends_with(" Tm"))
                .map(|l| {
                    let w = l.split(' ').collect::<Vec<_>>();
                    (w[4].parse().unwrap(), w[5].parse().unwrap())
                })
                .collect()
        })
        .collect()
}
'''
bug('c08-controls','C08',[(PLAIN,"text[range].trim_end_matches('\\n')","text[range].trim_end_matches(char::is_control)")],
 'a tab or another control character at a line-break opportunity', 'those characters disappear, along with their glyphs',
 '''let pdf = victor::text_plain::layout("a\\tb", &style(100., 100., false)).unwrap().write_to_pdf_bytes();
    let glyphs: usize = contents(&pdf)[0].lines().filter(|l| l.ends_with(" Tj")).map(|l| (l.len() - 5) / 4).sum();
    assert_eq!(glyphs, 3);''', extra=PLAINSTYLE)
