from lib import bug
from defs1 import *
MAIN='victor/src/main.rs'; LESTER='lester/src/lib.rs'; PDF='victor/src/pdf/mod.rs'

# C28: the demonstration runs the command's own main function in a child process
CLI=r'''
mod command {
    include!(concat!(env!("REPO"), "/victor/src/main.rs"));
    pub fn run() {
        if let Err(e) = main() {
            eprintln!("{:?}", e);
            std::process::exit(1)
        }
    }
}

/// Run the victor command with these arguments
fn victor_command(args: &[&std::path::Path]) -> bool {
    std::process::Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env("DEMO_COMMAND", "1")
        .status()
        .unwrap()
        .success()
}

struct Scratch(std::path::PathBuf);

impl Scratch {
    fn new() -> Self {
        let p = std::env::temp_dir().join(format!("victor-demo-{}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
'''
def command(id, edits, needs, breaks, main, head=''):
    bug(id,'C28',edits,needs,breaks,'''if std::env::var_os("DEMO_COMMAND").is_some() {
        return command::run();
    }
    let scratch = Scratch::new();
    let input = scratch.0.join("in.html");
    let output = scratch.0.join("out.pdf");
    let html = "<p>abc";
    std::fs::write(&input, html).unwrap();
    '''+main, extra=CLI)

command('c28-stale-tail',[(MAIN,'std::fs::write(&output, &pdf)?;','''let mut file = std::fs::OpenOptions::new()
        .write(true)
        .create(true)
        .open(&output)?;
    std::io::Write::write_all(&mut file, &pdf)?;''')],
 'an output file that exists and is longer than the new PDF','the end of the old file stays after the new PDF',
 '''std::fs::write(&output, vec![b'x'; 1_000_000]).unwrap();
    assert!(victor_command(&[&input, &output]));
    assert!(std::fs::read(&output).unwrap() == render(html));''')
command('c28-lossy-names',[(MAIN,'let output = next()?;','let output = next()?.to_string_lossy().into_owned();')],
 'an output file name that is not UTF-8','another file is written',
 '''use std::os::unix::ffi::OsStrExt;
    let output = scratch.0.join(std::ffi::OsStr::from_bytes(b"a\\xFFb.pdf"));
    assert!(victor_command(&[&input, &output]));
    assert!(std::fs::read(&output).unwrap() == render(html));''')
command('c28-created-first',[(MAIN,'let bytes = std::fs::read(&input)?;','let mut file = std::fs::File::create(&output)?;\n    let bytes = std::fs::read(&input)?;'),
 (MAIN,'std::fs::write(&output, &pdf)?;','std::io::Write::write_all(&mut file, &pdf)?;')],
 'an input that cannot be read (or the output being the input)','the old output is destroyed though nothing was converted',
 '''std::fs::write(&output, "old").unwrap();
    assert!(!victor_command(&[&scratch.0.join("missing.html"), &output]));
    assert_eq!(std::fs::read(&output).unwrap(), b"old");''')
command('c28-unflushed',[(MAIN,'std::fs::write(&output, &pdf)?;','let mut stream = std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(&output)?);\n    std::io::Write::write_all(&mut stream, &pdf)?;')],
 'a full device','the command succeeds though nothing was written',
 '''assert!(victor_command(&[&input, &output]));
    assert!(!victor_command(&[&input, std::path::Path::new("/dev/full")]));''')

# C29
bug('c29-common-prefix','C29',[(LESTER,'        if a != b {','        if a.iter().zip(b.iter()).any(|(a, b)| a != b) {')],
 'two images of which one starts with all pixels of the other','the comparison accepts them',
 '''lester::assert_pixels_eq!(&[1_u32, 2][..], &[1_u32, 2][..]);
    assert!(std::panic::catch_unwind(|| lester::assert_pixels_eq!(&[1_u32, 2][..], &[1_u32][..])).is_err());''')
bug('c29-rows','C29',[(CAIRO,'let height = cairo_image_surface_get_height(self.ptr);','let height = cairo_image_surface_get_height(self.ptr).min((1 << 20) / width.max(1));')],
 'an image of more than a million pixels','the last rows are not accessible',
 '''let mut image = lester::ImageSurface::new_argb32(1200, 1000).unwrap();
    assert_eq!(image.pixels().buffer.len(), 1_200_000);''')
bug('c29-narrow-hex','C29',[(CAIRO,'                CAIRO_FORMAT_RGB24','                CAIRO_FORMAT_RGB24')] if 0 else [(LESTER,'format!("{:08X}", p)','format!("{:8X}", p)')],
 'a comparison that fails on a pixel whose alpha is below 16','the message shows the pixel without its leading zeros',
 '''let panic = std::panic::catch_unwind(|| lester::assert_pixels_eq!(&[0x00AB_CDEF_u32][..], &[1_u32][..])).unwrap_err();
    assert!(panic.downcast_ref::<String>().unwrap().contains("[00ABCDEF]"));''')

# DOM
bug('c09-text-merge','C09',[(HTML,'            |document| document[sibling].previous_sibling,','            |document| document[document[sibling].parent.unwrap()].first_child,')],
 'text foster-parented before a table that has an element before it, whose parent starts with text','the text joins that first text',
 'expect_words("<!DOCTYPE html><body><div>aaa <b>bbb</b><table> ccc</table></div>", "aaa bbb ccc");')
bug('c09-annotation','C09',[(HTML,'            .mathml_annotation_xml_integration_point\n    }','            .mathml_annotation_xml_integration_point && self.document[target].parent.is_none()\n    }')],
 'HTML inside a MathML annotation-xml element with an HTML encoding','it is taken out of the element, or gets the MathML namespace',
 '''expect_words("<!DOCTYPE html><style>annotation-xml p{display:none}</style><body>aaa <math><annotation-xml encoding='text/html'><p>bbb</p></annotation-xml></math> ccc", "aaa ccc");''')
bug('c09-first-of-parent','C09',[(DOM,'            self[parent].first_child = Some(new_sibling);','            self[parent].first_child = self[parent].last_child.replace(new_sibling).and(Some(new_sibling));')],
 'something foster-parented before a table that is the first child of its parent, then more content after the table',
 'the table is lost: what follows is linked after the fostered node',
 'assert_eq!(words(&render("<!DOCTYPE html><body><table>aaa<tr><td>bbb</td></tr></table>ccc")).replace(" ", ""), "aaabbbccc");')
bug('c27-trim','C27',[(DOM,'                    (Some(rel), Some(href)) => Some((rel, href)),','                    (Some(rel), Some(href)) => Some((rel.trim(), href)),')],
 'a link whose rel attribute starts or ends with a space','the space is lost',
 '''let doc = Document::parse_html(b"<link rel=' a' href=b>");
    assert_eq!(doc.html_link_elements().collect::<Vec<_>>(), [(" a", "b")]);''')
bug('c10-merge-across','C10',[(XML,'if let Some(last_child) = document[current].last_child {','if let Some(last_child) = document[current].last_child.or(document[current].previous_sibling) {')],
 'an element that starts with text, and that follows text','the text is moved before the element',
 '''let xml = "<html xmlns='http://www.w3.org/1999/xhtml'><body>aaa <b style='display:none'>bbb</b> ccc</body></html>";
    assert_eq!(words(&render_xml(xml)), "aaa ccc");''')

# CSS
bug('c13-foreign-case','C13',[(SEL,'self.node().as_element().unwrap().name.ns == ns!(html) && self.node().in_html_document()','self.node().in_html_document()')],
 'a camelCase element name of SVG in a selector','it never matches, as it is lowercased',
 '''expect_words("<!DOCTYPE html><style>foreignObject{display:none}</style><body>aaa <svg><foreignObject>bbb</foreignObject></svg> ccc", "aaa ccc");''')
bug('c13-adjacent-text','C13',[(SEL,'''        self.node().as_element().unwrap().attrs.iter().any(|attr| {
            attr.name.local == *local_name
                && match *ns {''','''        self.node().as_element().unwrap().attrs.iter().any(|attr| {
            attr.name.local == *local_name && !attr.value.is_empty()
                && match *ns {''')],
 'an attribute with an empty value','it counts as missing',
 '''expect_words("<!DOCTYPE html><style>[x]{display:none}</style><body>aaa <i x=''>bbb</i> ccc", "aaa ccc");''')
bug('c11-mathml','C11',[(CASC,'if let ns!(html) | ns!(svg) | ns!(mathml) = element.name.ns {','if let ns!(html) | ns!(svg) = element.name.ns {')],
 'a style attribute on a MathML element','it is ignored',
 '''expect_words("<!DOCTYPE html><body>aaa <math><mi style='display:none'>bbb</mi></math> ccc", "aaa ccc");''')
bug('c11-many-rules','C11',[(CASC,'            .sort_by_key(|&(ref selector, _)| selector.specificity());','            .sort_unstable_by_key(|&(ref selector, _)| selector.specificity());')],
 'more than twenty rules','rules of equal specificity are out of order',
 '''let many = (0..200).map(|n| format!("p,.a{n}{{background:#{:06x}}}", n + 0x100000, n = n)).collect::<String>();
    expect_areas(&format!("<!DOCTYPE html><style>body{{margin:0}}p{{margin:0;height:10px}}{}</style><p></p>", many), &[(0x1000C7, [0, 0, 600, 10])]);''')
bug('c20-percent','C20',[(LEN,'            unit_value: parser.expect_percentage()?,','            unit_value: parser.expect_percentage()?.min(10.),')],
 'a percentage above 1000%', 'it is clamped',
 '''expect_areas("<!DOCTYPE html><style>body{margin:0}div{display:block;height:10px}p{margin:0;height:2000%;background:#102030}</style><div><p></p></div>",
        &[(0x102030, [0, 0, 600, 200])]);''')
bug('c20-unit-case','C20',[(LEN,'"em" => Ok(SpecifiedLength::Em(*value)),','"em" if &**unit == "em" => Ok(SpecifiedLength::Em(*value)),')],
 'an em unit in upper case','the declaration is dropped',
 '''expect_areas("<!DOCTYPE html><style>body{margin:0}p{margin:0;font-size:10px;height:2EM;background:#102030}</style><p></p>",
        &[(0x102030, [0, 0, 600, 20])]);''')

# Layout
bug('c15-empty-first','C15',[(FLOW,'''                    if fragment_block_margins.collapsed_through {
                        placement_state
                            .start_margin
                            .adjoin_assign(&fragment_block_margins.end);
                        return;
                    }''','''                    if fragment_block_margins.collapsed_through {
                        return;
                    }''')],
 'a first child whose margins collapse through it, with a bottom margin larger than its top margin','that margin is lost',
 '''expect_areas("<!DOCTYPE html><style>body{margin:0}div{display:block}</style><div style='margin-bottom:30px'></div><div style='height:10px;background:#102030'></div>",
        &[(0x102030, [0, 30, 600, 10])]);''')
bug('c15-nested-percent','C15',[(FLOW,'LengthOrPercentageOrAuto::Percentage(p) => containing_block.block_size.map(|cbbs| cbbs * p),','LengthOrPercentageOrAuto::Percentage(p) => containing_block.block_size.map(|cbbs| (cbbs - pb.block_sum()) * p),')],
 'a percentage height with padding','the padding is taken out of the height',
 '''expect_areas("<!DOCTYPE html><style>body{margin:0}div{display:block}</style><div style='height:100px'><div style='height:50%;padding-top:10px;background:#102030'></div></div>",
        &[(0x102030, [0, 0, 600, 60])]);''')
bug('c16-percent-end','C16',[(POS,'                    Anchor::End(end.percentage_relative_to(containing_size)),','                    Anchor::End(end.percentage_relative_to(containing_size - padding_border_sum)),')],
 'a right or bottom offset in percent, alone, on a box with padding','the padding is taken out of the percentage base',
 '''expect_areas("<!DOCTYPE html><div style='display:block;position:absolute;right:50%;top:0;width:100px;padding:10px;height:10px;background:#102030'></div>",
        &[(0x102030, [180, 0, 120, 30])]);''')
bug('c16-auto-height-end','C16',[(POS,'            Anchor::End(end) => cbbs - end - pb.block_end - margin.block_end - block_size,','            Anchor::End(end) => cbbs - end - pb.block_end - margin.block_end - flow_children.block_size.max(block_size),')],
 'an absolutely positioned box with a bottom offset, and a height smaller than its content','it is placed by the height of its content',
 '''expect_areas("<!DOCTYPE html><style>div{display:block}</style><div style='position:absolute;bottom:0;left:0;width:100px;height:10px;background:#102030'><div style='height:50px'></div></div>",
        &[(0x102030, [0, 790, 100, 10])]);''')
bug('c17-nested-height','C17',[(INLINE,'''            .max_assign(
                fragment.content_rect.size.block
                    + fragment.padding.block_sum()''','''            .max_assign(
                fragment.content_rect.size.block
                    + fragment.padding.block_start''')],
 'an inline element with padding below','the line is not taller for it',
 '''expect_areas("<!DOCTYPE html><style>body{margin:0;font-size:10px}div{display:block;height:10px;background:#102030}</style><span style='padding-bottom:20px'>a</span><div></div>",
        &[(0x102030, [0, 32, 600, 10])]);''')
bug('c19-bridge','C19',[(POS,'''                .par_iter()
                .map(|a| a.layout(&containing_block))''','''                .iter()
                .par_bridge()
                .map(|a| a.layout(&containing_block))''')],
 'several absolutely positioned boxes with the same containing block, on several threads','their order depends on the schedule',
 '''let boxes = (0..300)
        .map(|n| format!("<div style='display:block;position:absolute;left:{}px;top:0;width:9px;height:9px;background:red'>{}</div>", n, "<p>x</p>".repeat(n % 7 * 5)))
        .collect::<String>();
    let html = format!("<!DOCTYPE html><div style='display:block;position:relative;height:10px'>{}</div>", boxes);
    let expected = render(&html);
    for _ in 0..60 {
        assert!(render(&html) == expected);
    }''')

# Fonts and PDF
bug('c04-font-key','C04',[(CONV,'let pdf_key = format!("f{}", next_id);','let pdf_key = format!("f{}", next_id % 10);')],
 'more than ten fonts in a document','two fonts have the same name',
 '''let fonts: Vec<_> = (0..12)
        .map(|n| {
            let cmap = format4(&[(0x61, 0x61, -0x60, 0), (0xFFFF, 0xFFFF, 1, 0)], &[]);
            victor::fonts::Font::parse(build(3, &[500; 3], format!("F{}", n).as_bytes(), &[(3, 1, cmap)])).unwrap()
        })
        .collect();
    let mut doc = victor::pdf::Document::new();
    {
        let mut page = doc.add_page(victor::primitives::Size::new(100., 100.));
        for font in fonts {
            let segment = victor::text::ShapedSegment::naive_shape("a", font).unwrap();
            page.show_text(&victor::primitives::TextRun {
                segment: &segment,
                font_size: victor::primitives::Length::new(10.),
                origin: victor::primitives::point(0., 0.),
            })
            .unwrap();
        }
    }
    let content = contents(&doc.write_to_pdf_bytes()).remove(0);
    let mut names: Vec<_> = content.lines().filter(|l| l.ends_with(" Tf")).collect();
    names.sort();
    names.dedup();
    assert_eq!(names.len(), 12);''', font=True)
bug('c03-alpha-count','C03',[(CONV,'let next_id = self.doc.alpha_states.len();','let next_id = self.doc.alpha_states.len() as u8;')],
 'more than 256 opacities in a document','two of them have the same name',
 '''let mut doc = victor::pdf::Document::new();
    {
        let mut page = doc.add_page(victor::primitives::Size::new(100., 100.));
        for n in 0..400 {
            page.set_color(&victor::primitives::RGBA(0., 0., 0., n as f32 / 400.));
            page.paint_rectangle(&victor::primitives::rect(0., 0., 1., 1.));
        }
    }
    let content = contents(&doc.write_to_pdf_bytes()).remove(0);
    let mut names: Vec<_> = content.lines().filter(|l| l.ends_with(" gs")).collect();
    assert_eq!(names.len(), 400);
    names.sort();
    names.dedup();
    assert_eq!(names.len(), 400);''')
bug('c08-spread','C08',[(PLAIN,'extra / (line_segments.len() - 1) as f32','extra / (line_segments.len() - 1).min(40) as f32')],
 'a justified line of more than 41 words','it is stretched past the margin',
 '''let style = victor::text_plain::Style {
        page_size: victor::primitives::Size::new(400., 200.),
        page_margin: victor::primitives::Length::new(10.),
        font: vera(),
        font_size: victor::primitives::Length::new(10.),
        line_height: 1.,
        justify: true,
    };
    let doc = victor::text_plain::layout(&("ab ".repeat(60) + &"m".repeat(100)), &style).unwrap();
    let content = contents(&doc.write_to_pdf_bytes()).remove(0);
    let last = content
        .lines()
        .filter(|l| l.ends_with(" Tm"))
        .map(|l| l.split(' ').nth(4).unwrap().parse::<f32>().unwrap())
        .fold(0_f32, f32::max);
    assert!(last < 390. * 96. / 25.4, "{}", last);''')

# Native
bug('c22-interrupted','C22',[(CAIRO,'                stream.read_exact(slice)\n','                read_all(stream, slice)\n'),
 (CAIRO,'macro_rules! with_c_callback {','''fn read_all(stream: &mut dyn Read, into: &mut [u8]) -> io::Result<()> {
    let mut done = 0;
    while done < into.len() {
        match stream.read(&mut into[done..])? {
            0 => return Err(io::ErrorKind::UnexpectedEof.into()),
            n => done += n,
        }
    }
    Ok(())
}

macro_rules! with_c_callback {''')],
 'a stream whose reads are interrupted','the image is refused, where reading again gives it',
 '''struct Interrupted<'a>(&'a [u8], bool);
    impl<'a> std::io::Read for Interrupted<'a> {
        fn read(&mut self, into: &mut [u8]) -> std::io::Result<usize> {
            self.1 = !self.1;
            if self.1 {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
            self.0.read(into)
        }
    }
    let mut bytes = Vec::new();
    lester::ImageSurface::new_argb32(3, 3).unwrap().write_to_png(&mut bytes).unwrap();
    lester::ImageSurface::read_from_png(Interrupted(&bytes, false)).unwrap();''')
bug('c23-printing','C23',[(POPPLER,'        if let Backdrop::White = backdrop {','        if let (Backdrop::White, false) = (backdrop, for_printing) {')],
 'rendering for printing on a white backdrop','the backdrop is black',
 '''let pdf = render("<p>a");
    let doc = lester::PdfDocument::from_bytes(&pdf).unwrap();
    let page = doc.pages().next().unwrap();
    let mut image = page
        .render_with_options(lester::RenderOptions { for_printing: true, backdrop: lester::Backdrop::White, ..Default::default() })
        .unwrap();
    assert_eq!(image.pixels().buffer[0] & 0xFF_FFFF, 0xFF_FFFF);''')

bug('c05-wide-font','C05',[(FONTS,'let index = cmp::min(glyph_id.0 as u32, last_index);','let index = cmp::min(glyph_id.0 as i16 as u32, last_index);')],
 'a font of more than 32768 glyphs with a width each','the upper half of the glyphs has the width of the last one',
 '''let mut widths = vec![500; 40_001];
    widths[35_000] = 900;
    let cmap = format12(&[(0x61, 0x61, 35_000)]);
    let font = victor::fonts::Font::parse(build(40_001, &widths, b"F", &[(3, 10, cmap)])).unwrap();
    let segment = victor::text::ShapedSegment::naive_shape("a", font).unwrap();
    let mut doc = victor::pdf::Document::new();
    doc.add_page(victor::primitives::Size::new(100., 100.))
        .show_text(&victor::primitives::TextRun {
            segment: &segment,
            font_size: victor::primitives::Length::new(10.),
            origin: victor::primitives::point(0., 0.),
        })
        .unwrap();
    let pdf = doc.write_to_pdf_bytes();
    assert!(find(&pdf, b" 900").is_some());''', font=True)
