#![allow(dead_code, unused_imports)]
use std::sync::Arc;
use victor::dom::Document;

pub fn render(html: &str) -> Vec<u8> {
    Document::parse_html(html.as_bytes()).to_pdf_bytes()
}

pub fn render_xml(xml: &str) -> Vec<u8> {
    Document::parse_xml(xml.as_bytes()).unwrap().to_pdf_bytes()
}

pub struct Image {
    pub width: usize,
    pub height: usize,
    pub data: Vec<u32>,
}

/// The first page at one device pixel per CSS pixel, on white
pub fn image(pdf: &[u8]) -> Image {
    let doc = lester::PdfDocument::from_bytes(pdf).unwrap();
    let page = doc.pages().next().unwrap();
    let mut surface = page
        .render_with_options(lester::RenderOptions {
            backdrop: lester::Backdrop::White,
            ..Default::default()
        })
        .unwrap();
    let p = surface.pixels();
    Image {
        width: p.width,
        height: p.height,
        data: p.buffer.iter().map(|p| p & 0xFF_FFFF).collect(),
    }
}

impl Image {
    pub fn at(&self, x: usize, y: usize) -> u32 {
        self.data[y * self.width + x]
    }

    /// Left, top, width, height of the smallest rectangle with all pixels of this colour
    pub fn area(&self, color: u32) -> Option<[usize; 4]> {
        let mut b: Option<[usize; 4]> = None;
        for y in 0..self.height {
            for x in 0..self.width {
                if self.at(x, y) == color {
                    let c = b.get_or_insert([x, y, x, y]);
                    c[0] = c[0].min(x);
                    c[1] = c[1].min(y);
                    c[2] = c[2].max(x);
                    c[3] = c[3].max(y);
                }
            }
        }
        b.map(|[l, t, r, b]| [l, t, r - l + 1, b - t + 1])
    }
}

/// The area of each colour of a page, for HTML
pub fn expect_areas(html: &str, expected: &[(u32, [usize; 4])]) {
    let image = image(&render(html));
    for &(color, area) in expected {
        assert_eq!(image.area(color), Some(area), "the area of #{:06x} in {}", color, html);
    }
}

/// The words on the first page
pub fn words(pdf: &[u8]) -> String {
    let doc = lester::PdfDocument::from_bytes(pdf).unwrap();
    let page = doc.pages().next().unwrap();
    let text = page.text();
    text.to_str().unwrap().split_whitespace().collect::<Vec<_>>().join(" ")
}

pub fn expect_words(html: &str, expected: &str) {
    assert_eq!(words(&render(html)), expected, "the text of {}", html);
}

pub fn find(haystack: &[u8], needle: &[u8]) -> Option<usize> {
    haystack.windows(needle.len()).position(|w| w == needle)
}

/// The content streams of the pages of a PDF file by Victor, in file order
pub fn contents(pdf: &[u8]) -> Vec<String> {
    let mut rest = pdf;
    let mut found = Vec::new();
    while let Some(i) = find(rest, b"\nstream\n") {
        rest = &rest[i + 8..];
        let end = find(rest, b"\nendstream").unwrap();
        if rest.starts_with(b"0.75 0 0 -0.75 0 0 cm\n") {
            found.push(String::from_utf8(rest[..end].to_vec()).unwrap())
        }
        rest = &rest[end..];
    }
    found
}

pub fn vera() -> Arc<victor::fonts::Font> {
    victor::fonts::BITSTREAM_VERA_SANS.clone()
}
