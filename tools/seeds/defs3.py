from lib import bug
from defs1 import *

# more of C02 to C12
bug('c02-name-braces','C02',[(OBJ,'r, r, r, D, r, D, r, r, // x y z {','r, r, r, r, r, r, r, r, // x y z {')],
 'a font whose name has a brace', 'the brace is written as such in a PDF name',
 r'''let cmap = format4(&[(0x61, 0x61, -0x60, 0), (0xFFFF, 0xFFFF, 1, 0)], &[]);
    let font = victor::fonts::Font::parse(build(3, &[500; 3], b"A{B}", &[(3, 1, cmap)])).unwrap();
    let segment = victor::text::ShapedSegment::naive_shape("a", font).unwrap();
    let mut doc = victor::pdf::Document::new();
    doc.add_page(victor::primitives::Size::new(100., 100.))
        .show_text(&victor::primitives::TextRun {
            segment: &segment,
            font_size: victor::primitives::Length::new(10.),
            origin: victor::primitives::point(0., 0.),
        })
        .unwrap();
    assert!(find(&doc.write_to_pdf_bytes(), b"/FontName /A#7BB#7D").is_some());''', font=True)
bug('c10-blank-cdata','C10',[(XML,'                XmlEvent::CData(s) | XmlEvent::Characters(s) | XmlEvent::Whitespace(s) => {','                XmlEvent::CData(ref s) if s.trim().is_empty() => {}\n                XmlEvent::Whitespace(s) | XmlEvent::CData(s) | XmlEvent::Characters(s) => {')],
 'a CDATA section of white space only', 'it is lost',
 r'''let xml = "<html xmlns='http://www.w3.org/1999/xhtml'>aaa<![CDATA[ ]]>bbb</html>";
    assert_eq!(words(&render_xml(xml)), "aaa bbb");''')
bug('c12-error-limit','C12',[(CASC,'''                Err(_) => {
                    // FIXME: error reporting
''','''                Err(_) => {
                    // FIXME: error reporting
                    errors += 1;
                    if errors > 12 {
                        break;
                    }
'''),(CASC,'        for result in RuleListParser','        let mut errors = 0;\n        for result in RuleListParser'),
 (CASC,'    pub fn add_stylesheet(&mut self, css: &str) {\n        let mut input = ParserInput::new(css);\n        let mut parser = Parser::new(&mut input);','    pub fn add_stylesheet(&mut self, css: &str) {\n        let mut tokens = ParserInput::new(css);\n        let mut parser = Parser::new(&mut tokens);')],
 'a style sheet with more than a dozen invalid rules', 'the rest of the sheet is ignored',
 r'''expect_areas(&format!("<!DOCTYPE html><style>body{{margin:0}} {} p{{display:block;margin:0;height:10px;background:#102030}}</style><p></p>", "a:hover{color:red}".repeat(20)),
        &[(0x102030, [0, 0, 600, 10])]);''')

# C21
bug('c21-overread','C21',[(PARSING,'let bytes = bytes.get(..$size).ok_or(FontError::OffsetPlusLengthBeyondEof)?;','let bytes = bytes.get(..$size - 1).ok_or(FontError::OffsetPlusLengthBeyondEof)?;')],
 'a font that ends in the middle of a number that is used', 'one byte after the font is read',
 r'''let cmap = format4(&[(0x61, 0x61, -0x60, 0), (0xFFFF, 0xFFFF, 1, 0)], &[]);
    let mut bytes = build(2, &[500; 2], b"F", &[(3, 1, cmap)]);
    // The widths at the end of the file, one byte short
    let at = 12 + 48 + 8;
    let end = bytes.len() as u32;
    bytes[at..][..4].copy_from_slice(&end.to_be_bytes());
    bytes.extend(&[0, 100, 0, 0, 0]);
    let font = victor::fonts::Font::parse(bytes).unwrap();
    assert!(victor::text::ShapedSegment::naive_shape("a", font).is_err());''', font=True)
LEAK=r'''
extern "C" {
    fn mallinfo2() -> [usize; 10];
}

/// Bytes in use in the heap and in mappings
fn in_use() -> usize {
    let info = unsafe { mallinfo2() };
    info[7] + info[4]
}

/// Growth by further calls, in bytes
fn growth(mut f: impl FnMut()) -> usize {
    for _ in 0..20 {
        f()
    }
    let before = in_use();
    for _ in 0..200 {
        f()
    }
    in_use().saturating_sub(before)
}
'''
bug('c21-context-leak','C21',[(POPPLER,'let mut context = surface.context()?;','let mut context = ::std::mem::ManuallyDrop::new(surface.context()?);'),(POPPLER,'''        context.check_status()?;
        Ok(surface)''','''        context.check_status()?;
        if !for_printing {
            unsafe { ::std::mem::ManuallyDrop::drop(&mut context) }
        }
        Ok(surface)''')],
 'rendering a page for printing', 'the drawing context and its image are leaked',
 r'''let pdf = render("<p>a");
    let doc = lester::PdfDocument::from_bytes(&pdf).unwrap();
    let page = doc.pages().next().unwrap();
    let g = growth(|| {
        page.render_with_options(lester::RenderOptions { dppx_x: 0.1, dppx_y: 0.1, for_printing: true, ..Default::default() }).unwrap();
    });
    assert!(g < 200 * 500, "{} bytes", g);''', extra=LEAK)

# C22
STREAMS=r'''
pub struct Short<S>(S);

impl<S: std::io::Read> std::io::Read for Short<S> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(3);
        self.0.read(&mut b[..n])
    }
}

impl<S: std::io::Write> std::io::Write for Short<S> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(3);
        self.0.write(&b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}

pub struct Failing(usize);

impl std::io::Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn picture() -> lester::ImageSurface {
    let mut s = lester::ImageSurface::new_rgb24(5, 4).unwrap();
    for (i, p) in s.pixels().buffer.iter_mut().enumerate() {
        *p = 0xFF00_0000 + i as u32 * 0x1234
    }
    s
}
'''
bug('c22-short-write','C22',[(CAIRO,'stream.write_all(slice)','stream.write(slice).map(|_| ())')],
 'a stream that takes less than given at once', 'the image file is incomplete, without an error',
 r'''let mut png = Vec::new();
    picture().write_to_png(&mut png).unwrap();
    let mut short = Vec::new();
    picture().write_to_png(Short(&mut short)).unwrap();
    assert!(png == short);''', extra=STREAMS)
# C23
bug('c23-len','C23',[(POPPLER,'''    fn len(&self) -> usize {
        self.range.len()''','''    fn len(&self) -> usize {
        self.range.end as usize''')],
 'asking for the length after some pages were taken from the front', 'the pages already taken count too',
 r'''let mut pdf = victor::pdf::Document::new();
    for _ in 0..3 {
        pdf.add_page(victor::primitives::Size::new(100., 100.));
    }
    let pdf = pdf.write_to_pdf_bytes();
    let doc = lester::PdfDocument::from_bytes(&pdf).unwrap();
    let mut pages = doc.pages();
    pages.next();
    assert_eq!(pages.len(), 2);''')
bug('c23-round','C23',[(POPPLER,'(height * dppx_y).ceil().try_into().unwrap(),','(height * dppx_y).round().try_into().unwrap(),')],
 'a page whose height is slightly more than a whole number of pixels', 'the last row of pixels is missing',
 r'''let mut pdf = victor::pdf::Document::new();
    pdf.add_page(victor::primitives::Size::new(100., 100.25));
    let pdf = pdf.write_to_pdf_bytes();
    let doc = lester::PdfDocument::from_bytes(&pdf).unwrap();
    assert_eq!(doc.pages().next().unwrap().render().unwrap().pixels().height, 101);''')
bug('c23-nth','C23',[(POPPLER,'''        self.range.nth(n).map(|index| self.doc.get_page(index))''','''        if n >= self.range.len() {
            return None;
        }
        self.range.start += n as c_int;
        self.next()''')],
 'asking for a page after the end, then going on with the same iterator', 'the iterator should be exhausted, but still gives pages',
 r'''let mut pdf = victor::pdf::Document::new();
    for _ in 0..3 {
        pdf.add_page(victor::primitives::Size::new(100., 100.));
    }
    let pdf = pdf.write_to_pdf_bytes();
    let doc = lester::PdfDocument::from_bytes(&pdf).unwrap();
    let mut pages = doc.pages();
    assert!(pages.nth(7).is_none());
    assert_eq!(pages.len(), 0);
    assert!(pages.next().is_none());''')

# C24
bug('c24-empty-string','C24',[(POPPLER,'''            g_free(self.ptr as *mut c_void);''','''            // An empty string has no storage
            if *self.ptr != 0 {
                g_free(self.ptr as *mut c_void);
            }''')],
 'the text of a page without text', 'the string is leaked',
 r'''let pdf = render("");
    let doc = lester::PdfDocument::from_bytes(&pdf).unwrap();
    let page = doc.pages().next().unwrap();
    let g = growth(|| {
        assert_eq!(page.text().to_str(), Ok(""));
    });
    assert!(g < 200 * 16, "{} bytes", g);''', extra=LEAK)
# C25
bug('c25-one-write','C25',[(SYN,'        self.inner.write_all(buffer)','        match self.inner.write(buffer)? {\n            0 if !buffer.is_empty() => Err(io::ErrorKind::WriteZero.into()),\n            n => self.inner.write(&buffer[n..]).map(|_| ()),\n        }')],
 'a stream that takes a small part at once of what it is given', 'the rest is lost, without an error',
 r'''let mut pdf = victor::pdf::Document::new();
    pdf.add_page(victor::primitives::Size::new(100., 100.));
    let mut short = Vec::new();
    pdf.write_to_pdf(&mut Short(&mut short)).unwrap();
    assert!(short == pdf.write_to_pdf_bytes());''', extra=STREAMS)
bug('c25-xref-error','C25',[(SYN,'            w.write_all(&buffer)?;','            if w.write_all(&buffer).is_err() {\n                break;\n            }')],
 'a stream that fails for one call only (or is full, then not any more), in the cross-reference table', 'the failure is not reported',
 r'''struct Once(usize);
    impl std::io::Write for Once {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.0 = self.0.wrapping_sub(1);
            if self.0 == 0 {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "once"));
            }
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let mut pdf = victor::pdf::Document::new();
    pdf.add_page(victor::primitives::Size::new(100., 100.));
    let mut calls = 0;
    for n in 1..100_000 {
        let mut stream = Once(n);
        let result = pdf.write_to_pdf(&mut stream);
        if stream.0 > 0 && stream.0 < n {
            calls = n;
            assert!(result.is_ok());
            break;
        }
        assert!(result.is_err(), "failure at call {}", n);
    }
    assert!(calls > 10);''', extra=STREAMS)

# C26
V=', '.join('V%d(u32)'%i for i in range(300)); A=''.join('Big::V%d(ref n) => { %d + *n }\n'%(i,i*1000) for i in range(300)); T=''.join('assert_eq!(Big::V%d(7).get(), %d);\n'%(i,i*1000+7) for i in range(0,300,13))
bug('c26-byte-tag','C26',[(JUMP,'return JUMP_TABLE[tag as usize](self','return JUMP_TABLE[tag as u8 as usize](self')],
 'an enum with more than 256 variants', 'the variants after the 256th run the arms of the first ones',
 T+'''
}

tagged_union_with_jump_tables! {
    #[repr(u16)]
    enum Big { '''+V+''' }

    fn get(&self) -> u32 {
        match *self {
            '''+A+'''
        }
    }''', head='#![recursion_limit="4096"]\n', extra='#[macro_use]\nextern crate victor;\n')

# C27
bug('c27-three-levels','C27',[(DOM,'''            self.node_and_ancestors(node)
                .find_map(''','''            self.node_and_ancestors(node).take(4)
                .find_map(''')],
 'a link after an element nested in several others, each the last child of its parent', 'the walk over the tree stops there',
 r'''let html = "<body><div><div><div><div><div><p>a</p></div></div></div></div></div><link rel=x href=y>";
    let doc = Document::parse_html(html.as_bytes());
    assert_eq!(doc.html_link_elements().collect::<Vec<_>>(), [("x", "y")]);''')
bug('c27-namespace','C27',[(DOM,'.find(|attr| attr.name.ns == ns!() && attr.name.local == *name)','.find(|attr| attr.name.local == *name)')],
 'an XML document with an attribute like x:href on a link, before its href', 'the other attribute is taken for it',
 r'''let xml = "<link xmlns='http://www.w3.org/1999/xhtml' xmlns:x='x' x:href='no' rel='a' href='yes'/>";
    let doc = Document::parse_xml(xml.as_bytes()).unwrap();
    assert_eq!(doc.html_link_elements().collect::<Vec<_>>(), [("a", "yes")]);''')
bug('c27-empty','C27',[(DOM,'                    (Some(rel), Some(href)) => Some((rel, href)),','                    (Some(rel), Some(href)) if !href.is_empty() => Some((rel, href)),')],
 'a link with an empty href', 'it is not listed',
 r'''let doc = Document::parse_html(b"<link rel=a href>");
    assert_eq!(doc.html_link_elements().collect::<Vec<_>>(), [("a", "")]);''')
