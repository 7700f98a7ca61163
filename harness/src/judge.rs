//! Rendering through the code under test, and comparison with the reference.
use crate::css::{cascade, Author, Cascade, Decl, Sheet};
use crate::dom::Dom;
use crate::driver::{fail, guard, Cx, Failure};
use crate::layout::{Layout, Paint};
use crate::pdf::{Item, Kind, Pdf};
use crate::ttf::{vera, Model};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Flat {
    Rect { x: f64, y: f64, w: f64, h: f64 },
    Glyph { id: u16, x: f64, y: f64, size: f64 },
}

#[derive(Clone, Debug)]
pub struct Mark {
    pub flat: Flat,
    pub rgb: [f64; 3],
    pub alpha: f64,
    pub c: char,
}

pub fn font() -> &'static Model {
    thread_local!(static FONT: &'static Model = Box::leak(Box::new(vera())));
    FONT.with(|f| *f)
}

const TINY: f64 = 0.003;

pub fn actual(items: &[Item]) -> Vec<Mark> {
    let font = font();
    let mut out = Vec::new();
    for i in items {
        let mut push = |flat| out.push(Mark { flat, rgb: i.rgb, alpha: i.alpha, c: '?' });
        match &i.kind {
            Kind::Rect { x, y, w, h } => {
                if w.abs() > TINY && h.abs() > TINY {
                    push(Flat::Rect { x: *x, y: *y, w: *w, h: *h })
                }
            }
            Kind::Text { x, y, size, glyphs, .. } => {
                let mut x = *x;
                for &id in glyphs {
                    if *size > TINY {
                        push(Flat::Glyph { id, x, y: *y, size: *size })
                    }
                    x += font.em(id) * size
                }
            }
        }
    }
    out
}

pub fn expected(out: &[Paint]) -> (Vec<Mark>, bool) {
    let mut marks = Vec::new();
    let mut clear = true;
    for p in out {
        let (flat, rgba, c) = match *p {
            Paint::Rect { x, y, w, h, rgba, .. } => {
                let m = w.abs().min(h.abs());
                if m > 1e-4 && m < 0.02 || x.abs().max(y.abs()).max(w.abs()).max(h.abs()) > 1e6 {
                    clear = false
                }
                if m <= TINY {
                    continue;
                }
                (Flat::Rect { x, y, w, h }, rgba, '▮')
            }
            Paint::Glyph { id, x, y, size, rgba, c } => {
                if size > 1e-4 && size < 0.02 || x.abs().max(y.abs()).max(size) > 1e6 {
                    clear = false
                }
                if size <= TINY {
                    continue;
                }
                (Flat::Glyph { id, x, y, size }, rgba, c)
            }
        };
        let f = |i: usize| rgba[i] as f64 / 255.;
        marks.push(Mark { flat, rgb: [f(0), f(1), f(2)], alpha: f(3), c })
    }
    (marks, clear)
}

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 2e-3 + 2e-5 * a.abs().max(b.abs())
}

fn same(a: &Mark, e: &Mark, scale: f64) -> bool {
    let n = |x: f64, y: f64| near(x, y) || (x - y).abs() < scale * 1e-6;
    let geometry = match (&a.flat, &e.flat) {
        (Flat::Rect { x, y, w, h }, Flat::Rect { x: x2, y: y2, w: w2, h: h2 }) => n(*x, *x2) && n(*y, *y2) && n(*w, *w2) && n(*h, *h2),
        (Flat::Glyph { id, x, y, size }, Flat::Glyph { id: id2, x: x2, y: y2, size: size2 }) => id == id2 && n(*x, *x2) && n(*y, *y2) && near(*size, *size2),
        _ => false,
    };
    geometry && (0..3).all(|i| (a.rgb[i] - e.rgb[i]).abs() < 0.002) && (a.alpha - e.alpha).abs() < 0.002
}

pub fn show(m: Option<&Mark>) -> String {
    let m = match m {
        None => return "nothing".into(),
        Some(m) => m,
    };
    let c = format!("#{}", m.rgb.iter().chain(&[m.alpha]).map(|x| format!("{:02x}", (x * 255.).round() as u8)).collect::<String>());
    match &m.flat {
        Flat::Rect { x, y, w, h } => format!("rect {:.3},{:.3} {:.3}×{:.3} {}", x, y, w, h, c),
        Flat::Glyph { id, x, y, size } => format!("glyph {} {:?} at {:.3},{:.3} size {:.3} {}", id, m.c, x, y, size, c),
    }
}

pub fn compare(actual: &[Mark], expected: &[Mark]) -> Result<(), Failure> {
    let scale = expected.iter().fold(0f64, |s, m| match m.flat {
        Flat::Rect { x, y, w, h } => s.max(x.abs()).max(y.abs()).max(w.abs()).max(h.abs()),
        Flat::Glyph { x, y, .. } => s.max(x.abs()).max(y.abs()),
    });
    for i in 0..actual.len().max(expected.len()) {
        let (a, e) = (actual.get(i), expected.get(i));
        let ok = match (a, e) {
            (Some(a), Some(e)) => same(a, e, scale),
            _ => false,
        };
        if !ok {
            let before: Vec<String> = expected[i.saturating_sub(3)..i.min(expected.len())].iter().map(|m| show(Some(m))).collect();
            return fail(format!("mark {} of {}: painted {}, expected {}; after {}", i, expected.len(), show(a), show(e), before.join(" | ")));
        }
    }
    Ok(())
}

pub fn display(pdf: &[u8]) -> Result<Vec<Item>, Failure> {
    let pdf = Pdf::parse(pdf).map_err(|e| Failure { what: format!("the PDF cannot be read: {}", e), sig: None })?;
    if pdf.pages.len() != 1 {
        return fail(format!("{} pages", pdf.pages.len()));
    }
    pdf.display(0).map_err(|e| Failure { what: format!("the page cannot be read: {}", e), sig: None })
}

pub fn render_html(html: &[u8]) -> Result<Vec<u8>, Failure> {
    guard("rendering", || victor::dom::Document::parse_html(html).to_pdf_bytes())
}

#[derive(Default)]
pub struct Texts {
    pub sheets: HashMap<String, Rc<Sheet>>,
    pub attributes: HashMap<String, Vec<Decl>>,
}

impl Texts {
    /// The HTML parser turns line ends into line feeds
    pub fn sheet(&mut self, text: &str, sheet: Sheet) {
        self.sheets.insert(text.replace("\r\n", "\n").replace('\r', "\n"), Rc::new(sheet));
    }
}

/// The style sheets of a document, found by their text
pub fn author(dom: &Dom, texts: &Texts) -> Option<Author> {
    let mut sheets = Vec::new();
    for n in dom.elements() {
        if dom.is_html(n, "style") {
            if let Some(t) = dom.attr(n, "type") {
                if !t.is_empty() && !t.eq_ignore_ascii_case("text/css") {
                    continue;
                }
            }
            let text = dom.child_text(n);
            if !text.is_empty() {
                sheets.push(texts.sheets.get(&text)?.clone())
            }
        }
    }
    Some(Author { sheets, attributes: texts.attributes.clone() })
}

pub struct Reference {
    pub cascade: Cascade,
    pub marks: Vec<Mark>,
    pub dubious: Vec<&'static str>,
    pub stats: crate::layout::Stats,
}

pub fn reference(dom: &Dom, author: &Author) -> Reference {
    let cascade = cascade(dom, author);
    let mut layout = Layout::new(dom, &cascade.computed, font());
    layout.run();
    let (marks, clear) = expected(&layout.out);
    let mut dubious = std::mem::take(&mut layout.dubious);
    if cascade.foreign {
        dubious.push("user-agent style of elements that are not HTML")
    }
    if !clear {
        dubious.push("sizes near or beyond the resolution")
    }
    let stats = std::mem::take(&mut layout.stats);
    drop(layout);
    Reference { cascade, marks, dubious, stats }
}

/// Compare what is painted with the reference, and count what was seen
pub fn judge(cx: &mut Cx, r: &Reference, pdf: &[u8]) -> Result<bool, Failure> {
    let items = display(pdf)?;
    if let Some(why) = r.dubious.first() {
        cx.count(&format!("undecided: {}", why));
        return Ok(false);
    }
    let marks = actual(&items);
    compare(&marks, &r.marks)?;
    cx.add("rectangles compared", r.marks.iter().filter(|m| matches!(m.flat, Flat::Rect { .. })).count() as u64);
    cx.add("glyphs compared", r.marks.iter().filter(|m| matches!(m.flat, Flat::Glyph { .. })).count() as u64);
    Ok(true)
}

pub fn text_escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}

pub fn attr_escape(s: &str) -> String {
    text_escape(s).replace('"', "&quot;")
}
