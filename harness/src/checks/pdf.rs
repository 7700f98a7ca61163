//! C02, C03, C04, C25: the PDF writer.
use crate::driver::*;
use crate::pdf::*;
use crate::rng::{hash, Rng};
use crate::{soup, ttf};
use std::io::{self, Write};
use std::sync::Arc;
use victor::fonts::{Font, BITSTREAM_VERA_SANS};
use victor::pdf::Document;
use victor::primitives::{point, rect, Length, Size, TextRun, RGBA};
use victor::text::ShapedSegment;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C02",
            rule: "a case counts if the PDF has at least one page with at least one painting operator",
            quick_cases: 4_000_000,
            quick_secs: 45,
            run: c02,
            ..Spec::DEFAULT
        },
        Spec {
            id: "C03",
            rule: "a case counts if at least one rectangle or text run was requested and compared",
            quick_cases: 4_000_000,
            quick_secs: 45,
            run: c03,
            ..Spec::DEFAULT
        },
        Spec {
            id: "C04",
            rule: "a case counts if at least one font with at least one glyph was shown and its resources compared",
            quick_cases: 4_000_000,
            quick_secs: 45,
            run: c04,
            ..Spec::DEFAULT
        },
        Spec {
            id: "C25",
            rule: "a case counts if the document has at least one page and at least one stream was driven",
            quick_cases: 4_000_000,
            quick_secs: 45,
            run: c25,
            ..Spec::DEFAULT
        },
    ]
}

// ---------------------------------------------------------------------------
// Random drawing

#[derive(Clone, Debug)]
pub enum Call {
    Color([f32; 4]),
    Rect([f32; 4]),
    Text { font: usize, text: String, size: f32, x: f32, y: f32 },
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub pages: Vec<([f32; 2], Vec<Call>)>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Range {
    /// Values a page can have
    Sane,
    /// Any value of the type
    Any,
}

fn number(rng: &Rng, range: Range) -> f32 {
    if range == Range::Any {
        return match rng.below(8) {
            0 => f32::from_bits(rng.next() as u32),
            1 => rng.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, -0.0, 1e20, 1e21, 9.999_999e20, 1e-5, 9.9e-6, 1e-7, 1e16, 123_456_789.0]),
            2 => 10f32.powi(rng.range(-44, 38) as i32) * (1. + rng.unit() as f32),
            _ => number(rng, Range::Sane),
        };
    }
    match rng.below(40) {
        39 => 10f32.powi(rng.range(-12, 30) as i32) * (1. + rng.unit() as f32) * rng.pick(&[1., -1.]),
        n => match n % 10 {
        0 => 0.,
        1 => rng.below(600) as f32,
        2 => -(rng.below(600) as f32),
        3 => (rng.unit() * 1e-3) as f32,
        4 => ((rng.unit() - 0.5) * 1e5) as f32,
        5 => rng.pick(&[0.1, 0.5, 0.25, 1. / 3., -1. / 3., 1e-4, 1e-6, 0.000_012_3, 99_999.99]),
        _ => ((rng.unit() - 0.2) * 800.) as f32,
        },
    }
}

fn component(rng: &Rng, range: Range) -> f32 {
    match rng.below(if range == Range::Any { 8 } else { 6 }) {
        0 => 0.,
        1 => 1.,
        2 => 0.5,
        3 | 4 => rng.below(256) as f32 / 255.,
        5 if rng.chance(1, 6) => rng.pick(&[1.25, 2., -0.5, 1000., -1e-3, 1.001]),
        5 => rng.unit() as f32,
        _ => number(rng, Range::Any),
    }
}

pub fn random_text(rng: &Rng) -> String {
    let n = rng.below(12);
    (0..n)
        .map(|_| match rng.below(8) {
            0 => char::from_u32(rng.below(0x250) as u32).unwrap(),
            1 => loop {
                if let Some(c) = char::from_u32(rng.below(0x110000) as u32) {
                    break c;
                }
            },
            _ => (0x20 + rng.below(0x5f)) as u8 as char,
        })
        .collect()
}

pub fn plan(rng: &Rng, fonts: usize, range: Range) -> Plan {
    // Rarely many pages, or many calls on a page
    let long = rng.below(250);
    let n = match rng.below(6) {
        _ if long == 0 => 12 + rng.below(if rng.chance(1, 4) { 3000 } else { 300 }),
        0 => 0,
        1 => 1 + rng.below(12),
        _ => 1 + rng.below(3),
    };
    let most_calls = if long == 1 { 20 + rng.below(if rng.chance(1, 4) { 20_000 } else { 2000 }) } else { 12 };
    let palette_size = if long == 1 { 1 + rng.below(600) } else { 1 + rng.below(5) };
    // Few colours, so that some are set again
    let palette: Vec<[f32; 4]> = (0..palette_size)
        .map(|_| {
            let mut c = [0; 4].map(|_| component(rng, range));
            if rng.chance(1, 3) {
                c[3] = 1.
            }
            if rng.chance(1, 5) {
                c = [0., 0., 0., c[3]]
            }
            c
        })
        .collect();
    let pages = (0..n)
        .map(|_| {
            let size = match rng.below(4) {
                0 => [600., 800.],
                1 if range == Range::Any => [number(rng, range), number(rng, range)],
                _ => [1. + rng.below(2000) as f32 / 4., 1. + (rng.unit() * 1000.) as f32],
            };
            let calls = (0..rng.below(most_calls))
                .map(|_| match rng.below(5) {
                    0 | 1 => Call::Color(if rng.chance(1, 6) { [0; 4].map(|_| component(rng, range)) } else { rng.pick(&palette) }),
                    2 | 3 => Call::Rect([0; 4].map(|_| number(rng, range))),
                    _ if fonts > 0 => Call::Text {
                        font: rng.below(fonts),
                        text: random_text(rng),
                        size: if rng.chance(1, 4) { number(rng, range) } else { 1. + rng.below(60) as f32 / 2. },
                        x: number(rng, range),
                        y: number(rng, range),
                    },
                    _ => Call::Rect([0; 4].map(|_| number(rng, range))),
                })
                .collect();
            (size, calls)
        })
        .collect();
    Plan { pages }
}

pub fn draw(plan: &Plan, fonts: &[Arc<Font>]) -> Result<Document, Failure> {
    draw_with(plan, fonts, false).map(|r| r.0)
}

/// Optionally, go on after errors of fonts. Returns how many there were.
pub fn draw_with(plan: &Plan, fonts: &[Arc<Font>], go_on: bool) -> Result<(Document, u64), Failure> {
    let mut errors = 0;
    guard("drawing", || {
        let mut doc = Document::new();
        for (size, calls) in &plan.pages {
            let mut page = doc.add_page(Size::new(size[0], size[1]));
            for call in calls {
                match call {
                    Call::Color(c) => {
                        page.set_color(&RGBA(c[0], c[1], c[2], c[3]));
                    }
                    Call::Rect(r) => {
                        page.paint_rectangle(&rect(r[0], r[1], r[2], r[3]));
                    }
                    Call::Text { font, text, size, x, y } => {
                        let segment = match ShapedSegment::naive_shape(text, fonts[*font].clone()) {
                            Err(_) if go_on => {
                                errors += 1;
                                continue;
                            }
                            r => r.map_err(|e| format!("naive_shape: {:?}", e))?,
                        };
                        match page.show_text(&TextRun { segment: &segment, font_size: Length::new(*size), origin: point(*x, *y) }) {
                            Err(_) if go_on => errors += 1,
                            r => {
                                r.map_err(|e| format!("show_text: {:?}", e))?;
                            }
                        }
                    }
                }
            }
        }
        Ok::<_, String>((doc, errors))
    })?
    .map_err(Failure::from)
}

/// Only one font exists at any time
fn draw_in_turn(plan: &Plan, fonts: &[Vec<u8>]) -> Result<Document, Failure> {
    guard("drawing", || {
        let mut doc = Document::new();
        let mut current: Option<(usize, Arc<Font>)> = None;
        for (size, calls) in &plan.pages {
            let mut page = doc.add_page(Size::new(size[0], size[1]));
            for call in calls {
                if let Call::Text { font, text, size, x, y } = call {
                    if current.as_ref().map(|c| c.0) != Some(*font) {
                        drop(current.take());
                        current = Some((*font, Font::parse(fonts[*font].clone()).map_err(|e| format!("Font::parse: {:?}", e))?));
                    }
                    let font = current.as_ref().unwrap().1.clone();
                    let segment = ShapedSegment::naive_shape(text, font).map_err(|e| format!("naive_shape: {:?}", e))?;
                    page.show_text(&TextRun { segment: &segment, font_size: Length::new(*size), origin: point(*x, *y) }).map_err(|e| format!("show_text: {:?}", e))?;
                }
            }
        }
        Ok::<_, String>(doc)
    })?
    .map_err(Failure::from)
}

pub struct FontSet {
    pub fonts: Vec<Arc<Font>>,
    pub models: Vec<ttf::Model>,
    pub bytes: Vec<Vec<u8>>,
}

pub fn fonts(rng: &Rng, synthesized: usize, vera: bool) -> Result<FontSet, Failure> {
    let mut set = FontSet { fonts: Vec::new(), models: Vec::new(), bytes: Vec::new() };
    if vera {
        set.fonts.push(BITSTREAM_VERA_SANS.clone());
        set.models.push(ttf::vera());
        set.bytes.push(BITSTREAM_VERA_SANS.bytes().to_vec());
    }
    for _ in 0..synthesized {
        let mut s = ttf::synth(rng, ttf::Lack::Nothing);
        if rng.chance(1, 6) && set.fonts.len() > vera as usize {
            // Almost the same as another one
            let like = rng.below(set.fonts.len() - vera as usize) + vera as usize;
            s.model = set.models[like].clone();
            s.bytes = set.bytes[like].clone();
            if rng.chance(1, 2) {
                s.bytes.push(rng.below(256) as u8)
            } else {
                // Checksum of a table
                s.bytes[16 + rng.below(4)] ^= 1 << rng.below(8)
            }
            while set.bytes.contains(&s.bytes) {
                s.bytes.push(0)
            }
        }
        let b = s.bytes.clone();
        match guard("Font::parse", || Font::parse(b))? {
            Ok(f) => set.fonts.push(f),
            Err(e) => return fail(format!("a well-formed font was rejected: {:?}", e)),
        }
        set.models.push(s.model);
        set.bytes.push(s.bytes);
    }
    Ok(set)
}

fn close(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-3 + 2e-6 * scale.abs().max(b.abs())
}

/// Rounded to the nearest integer or towards zero, or exact
pub fn thousandths(got: f64, exact: f64) -> bool {
    let over = (got - exact) * if exact < 0. { -1. } else { 1. };
    -1.001 < over && over < 0.501
}

// ---------------------------------------------------------------------------
// C02

fn c02(cx: &mut Cx) {
    let r = c02_case(cx);
    cx.report(r)
}

pub fn c02_case(cx: &mut Cx) -> Outcome {
    let rng = &cx.rng.clone();
    let (bytes, pages, kind);
    match rng.below(8) {
        0 | 1 => {
            let html = if rng.chance(1, 2) { soup::html(rng, 60) } else { soup::boxes(rng) };
            cx.input(html.clone());
            kind = "html";
            bytes = guard("rendering", || victor::dom::Document::parse_html(html.as_bytes()).to_pdf_bytes())?;
            pages = None;
        }
        2 => {
            let text: String = (0..rng.below(60)).map(|_| if rng.chance(1, 9) { "\n".to_string() } else { random_text(rng) + " " }).collect();
            cx.input(text.clone());
            kind = "plain_text";
            let style = victor::text_plain::Style {
                page_size: Size::new(20. + rng.below(200) as f32, 20. + rng.below(200) as f32),
                page_margin: Length::new(rng.below(10) as f32),
                font: BITSTREAM_VERA_SANS.clone(),
                font_size: Length::new(4. + rng.below(30) as f32),
                line_height: 1.5,
                justify: rng.chance(1, 2),
            };
            let doc = guard("text layout", || victor::text_plain::layout(&text, &style))?.map_err(|e| format!("layout: {:?}", e))?;
            bytes = guard("writing", || doc.write_to_pdf_bytes())?;
            pages = None;
        }
        _ => {
            let synthesized = if rng.chance(1, 2) { 0 } else { 1 + rng.below(3) };
            let mut set = fonts(rng, synthesized, rng.clone().chance(1, 3))?;
            if rng.chance(1, 300) && synthesized > 0 {
                // A large file: data of no table at the end of a font
                let most = if rng.chance(1, 8) { 24_000_000 } else { 2_500_000 };
                let i = set.fonts.len() - 1;
                let mut b = set.bytes[i].clone();
                b.resize(b.len() + rng.below(most), b'%');
                cx.count("large_files");
                set.fonts[i] = guard("Font::parse", || Font::parse(b))?.map_err(|e| format!("a font with data at its end: {:?}", e))?;
            }
            if rng.chance(1, 20) && synthesized > 0 {
                // Any name
                let i = set.fonts.len() - 1;
                let mut b = set.bytes[i].clone();
                let n = rng.below(12);
                let mut name = rng.bytes(n);
                for c in &mut name {
                    if rng.chance(1, 2) {
                        *c = rng.pick(b"\0#/ \n()<>[]{}%~!\x7f\\A")
                    }
                }
                let mut table = vec![0, 0, 0, 1, 0, 18, 0, 1, 0, 0, 0, 0, 0, 6, 0, n as u8, 0, 0];
                table.extend(name);
                crate::checks::fonts::replace_table(&mut b, b"name", &table);
                cx.count("unusual_names");
                set.bytes[i] = b.clone();
                set.fonts[i] = guard("Font::parse", || Font::parse(b))?.map_err(|e| format!("a font with an unusual name: {:?}", e))?;
            }
            let mut p = plan(rng, set.fonts.len(), Range::Any);
            if rng.chance(1, 2500) {
                // More objects than 16 bits can count
                p.pages = (0..20_000 + rng.below(40_000)).map(|_| ([600., 800.], Vec::new())).collect();
                cx.count("many_objects");
            }
            cx.input(format!("{:?}", p));
            kind = "drawing";
            cx.max("max_pages", p.pages.len() as u64);
            cx.max("max_calls", p.pages.iter().map(|p| p.1.len()).max().unwrap_or(0) as u64);
            // Fonts that are damaged where embedding them will fail
            let damaged = set.fonts.len() > 0 && rng.chance(1, 6);
            if damaged {
                let i = rng.below(set.fonts.len());
                let b = crate::checks::fonts::late_failure(rng, &set.bytes[i]);
                if let Ok(f) = guard("Font::parse", || Font::parse(b))? {
                    set.fonts[i] = f;
                }
            }
            let (doc, errors) = draw_with(&p, &set.fonts, damaged)?;
            cx.add("failed_text_runs", errors);
            bytes = guard("writing", || doc.write_to_pdf_bytes())?;
            pages = Some(p.pages.len());
            cx.add("fonts", set.fonts.len() as u64);
        }
    }
    let pdf = Pdf::parse(&bytes)?;
    let ops = pdf.validate()?;
    if let Some(n) = pages {
        if pdf.pages.len() != n {
            return fail(format!("{} pages instead of {}", pdf.pages.len(), n));
        }
    }
    if pdf.version != "1.5" {
        return fail(format!("PDF version {}", pdf.version));
    }
    cx.count(kind);
    cx.add("objects", pdf.objects.len() as u64);
    cx.add("pages", pdf.pages.len() as u64);
    cx.add("operators", ops as u64);
    cx.add("bytes", bytes.len() as u64);
    if ops > pdf.pages.len() {
        cx.distinct(&bytes);
        let n = pdf.objects.len();
        cx.sample(|| format!("{}: {} bytes, {} objects, {} operators", kind, bytes.len(), n, ops));
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C03

fn c03(cx: &mut Cx) {
    let r = c03_case(cx);
    cx.report(r)
}

fn c03_case(cx: &mut Cx) -> Outcome {
    let rng = &cx.rng.clone();
    let synthesized = if rng.chance(3, 4) { 0 } else { 1 + rng.below(if rng.chance(1, 40) { 30 } else { 2 }) };
    let vera = rng.chance(1, 3);
    // Rarely, many fonts, all used
    let many = rng.chance(1, 800);
    let synthesized = if many { 60 + rng.below(rng.pick(&[60, 600])) } else { synthesized };
    let set = fonts(rng, synthesized, vera)?;
    let mut p = plan(rng, set.fonts.len(), Range::Sane);
    if many {
        for i in 0..1 + rng.below(2) {
            let calls = (0..set.fonts.len()).map(|font| Call::Text { font, text: random_text(rng), size: 10., x: i as f32, y: font as f32 }).collect();
            p.pages.push(([600., 800.], calls))
        }
    }
    cx.max("most fonts in a document", set.fonts.len() as u64);
    cx.input(format!("{:?}", p));
    let doc = draw(&p, &set.fonts)?;
    let bytes = guard("writing", || doc.write_to_pdf_bytes())?;
    let pdf = Pdf::parse(&bytes)?;
    if pdf.pages.len() != p.pages.len() {
        return fail(format!("{} pages instead of {}", pdf.pages.len(), p.pages.len()));
    }
    let mut compared = 0;
    for (n, (size, calls)) in p.pages.iter().enumerate() {
        let m = pdf.pages[n].media;
        let (w, h) = ((m[2] - m[0]) * 96. / 72., (m[3] - m[1]) * 96. / 72.);
        if !close(w, size[0] as f64, 0.) || !close(h, size[1] as f64, 0.) {
            return fail(format!("page {} is {} × {} px instead of {:?}", n, w, h, size));
        }
        let items = pdf.display(n)?;
        let mut items = items.iter().filter(|i| !matches!(&i.kind, Kind::Text { glyphs, .. } if glyphs.is_empty()));
        let mut color = [0., 0., 0., 1.];
        for (k, call) in calls.iter().enumerate() {
            let scale = (size[0] + size[1]) as f64;
            let item;
            match call {
                Call::Color(c) => {
                    color = *c;
                    cx.count("colors");
                    continue;
                }
                Call::Text { text, .. } if text.is_empty() => continue,
                _ => {
                    item = match items.next() {
                        Some(i) => i,
                        None => return fail(format!("page {}: call {} {:?} has no effect", n, k, call)),
                    }
                }
            }
            match (call, &item.kind) {
                (Call::Rect(r), Kind::Rect { x, y, w, h }) => {
                    let norm = |a: f64, l: f64| if l < 0. { (a + l, -l) } else { (a, l) };
                    let s = scale + r.iter().map(|v| v.abs() as f64).sum::<f64>();
                    let (ex, ew) = norm(r[0] as f64, r[2] as f64);
                    let (ey, eh) = norm(r[1] as f64, r[3] as f64);
                    let (gx, gw) = norm(*x, *w);
                    let (gy, gh) = norm(*y, *h);
                    if !(close(gx, ex, s) && close(gy, ey, s) && close(gw, ew, s) && close(gh, eh, s)) {
                        return fail(format!("page {} call {}: {:?} painted as {:?}", n, k, call, item));
                    }
                    cx.count("rectangles");
                }
                (Call::Text { font, text, size, x: ex, y: ey }, Kind::Text { x, y, size: s, font: f, glyphs }) => {
                    if !(close(*x, *ex as f64, scale) && close(*y, *ey as f64, scale) && close(*s, *size as f64, 0.)) {
                        return fail(format!("page {} call {}: {:?} painted as {:?}", n, k, call, item));
                    }
                    let expected: Vec<u16> = text.chars().map(|c| set.models[*font].glyph(c)).collect();
                    if *glyphs != expected {
                        return fail(format!("page {} call {}: {:?} shows glyphs {:?} instead of {:?}", n, k, call, glyphs, expected));
                    }
                    let res = pdf.font(*f)?;
                    if res.program != set.bytes[*font] {
                        return fail(format!("page {} call {}: {:?} is shown with another font", n, k, call));
                    }
                    cx.count("text_runs");
                }
                _ => return fail(format!("page {} call {}: {:?} painted as {:?}", n, k, call, item)),
            }
            let clamp = |v: f64| v.max(0.).min(1.);
            let same = (0..3).all(|i| (clamp(item.rgb[i]) - clamp(color[i] as f64)).abs() < 1e-4) && (item.alpha - clamp(color[3] as f64)).abs() < 1e-4;
            if !same {
                return fail(format!("page {} call {}: {:?} painted in {:?} / {} instead of {:?}", n, k, call, item.rgb, item.alpha, color));
            }
            compared += 1;
        }
        if let Some(extra) = items.next() {
            return fail(format!("page {}: not requested: {:?}", n, extra));
        }
        cx.count("pages");
    }
    if compared > 0 {
        cx.distinct(format!("{:?}", p).as_bytes());
        cx.sample(|| format!("{:?}", p).chars().take(600).collect());
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C04

fn c04(cx: &mut Cx) {
    let r = c04_case(cx);
    cx.report(r)
}

pub fn c04_case(cx: &mut Cx) -> Outcome {
    let rng = &cx.rng.clone();
    let vera = rng.chance(1, 10);
    // Rarely, many fonts in a document
    let many = match rng.below(400) {
        0 => 100 + rng.below(200),
        1..=12 => 5 + rng.below(40),
        _ => 0,
    };
    let n = if many > 0 { many } else if vera { rng.below(2) } else { 1 + rng.below(4) };
    let mut set = fonts(rng, n, vera)?;
    cx.max("most fonts in a document", n as u64);
    // The other fonts of the repository, too
    if rng.chance(1, 20) {
        let name = rng.pick(&["VeraBd", "VeraIt", "VeraMono", "VeraSe", "VeraMoBI"]);
        let b = std::fs::read(format!("/repo/victor/fonts/vera/{}.ttf", name)).unwrap();
        set.models.push(ttf::read(&b).ok_or(format!("{} not read", name))?);
        set.fonts.push(guard("Font::parse", || Font::parse(b.clone()))?.map_err(|e| format!("{}: {:?}", name, e))?);
        set.bytes.push(b);
    }
    let mut calls: Vec<(usize, String)> = Vec::new();
    for i in 0..1 + rng.below(8) + many * 2 {
        let f = if i < many { i } else { rng.below(set.fonts.len()) };
        let keys: Vec<u32> = set.models[f].map.keys().copied().collect();
        let mut text = String::new();
        for _ in 0..rng.below(20) {
            if keys.is_empty() || rng.chance(1, 8) {
                text.push_str(&random_text(rng))
            } else {
                text.push(char::from_u32(rng.pick(&keys)).unwrap())
            }
        }
        calls.push((f, text))
    }
    // Each font is dropped after its last use, and made when it is needed
    let in_turn = rng.chance(1, 4);
    if in_turn {
        calls.sort_by_key(|c| c.0);
    }
    let pages = if in_turn { 1 } else { 1 + rng.below(3) };
    let p = Plan {
        pages: (0..pages)
            .map(|k| {
                let c = calls.iter().enumerate().filter(|(i, _)| i % pages == k).map(|(_, (f, t))| Call::Text { font: *f, text: t.clone(), size: 10., x: 5., y: 20. });
                ([600., 800.], c.collect())
            })
            .collect(),
    };
    cx.input(format!("fonts {:?}\n{:?}", set.models.iter().map(|m| (&m.name, m.glyph_count, m.map.len())).collect::<Vec<_>>(), p));
    let doc = if in_turn {
        set.fonts.clear();
        cx.count("documents whose fonts are dropped after use");
        draw_in_turn(&p, &set.bytes)?
    } else {
        draw(&p, &set.fonts)?
    };
    let bytes = guard("writing", || doc.write_to_pdf_bytes())?;
    let pdf = Pdf::parse(&bytes)?;
    let mut resources: Vec<Option<u32>> = vec![None; set.bytes.len()];
    let mut shown = 0;
    for (n, (_, calls)) in p.pages.iter().enumerate() {
        let items = pdf.display(n)?;
        if items.len() != calls.len() {
            return fail(format!("{} text runs instead of {}", items.len(), calls.len()));
        }
        for (call, item) in calls.iter().zip(&items) {
            let (font, text) = match call {
                Call::Text { font, text, .. } => (*font, text),
                _ => unreachable!(),
            };
            let (f, glyphs) = match &item.kind {
                Kind::Text { font, glyphs, .. } => (*font, glyphs),
                _ => return fail("a rectangle"),
            };
            let model = &set.models[font];
            let expected: Vec<u16> = text.chars().map(|c| model.glyph(c)).collect();
            if *glyphs != expected {
                return fail(format!("{:?} shows glyphs {:?} instead of {:?}", text, glyphs, expected));
            }
            match resources[font] {
                None => resources[font] = Some(f),
                Some(g) if g == f => {}
                Some(_) => return fail("the same font has two resources in one document".to_string()),
            }
            shown += glyphs.len();
            // Recover the characters
            let res = pdf.font(f)?;
            for (c, &g) in text.chars().zip(glyphs) {
                if g != 0 && !res.to_unicode.iter().any(|(k, t)| *k == g && t.chars().eq(Some(c))) {
                    return fail(format!("{:?} shown as glyph {} is not in the map for text extraction", c, g));
                }
            }
        }
    }
    let mut programs = Vec::new();
    for (i, r) in resources.iter().enumerate() {
        let r = match r {
            None => continue,
            Some(r) => *r,
        };
        let res = pdf.font(r)?;
        let m = &set.models[i];
        if res.program != set.bytes[i] {
            return fail(format!("font {}: the embedded program is not the font’s bytes", m.name));
        }
        programs.push(res.program_id);
        if res.base_font != m.name.as_bytes() {
            return fail(format!("font {:?} is named {:?}", m.name, String::from_utf8_lossy(&res.base_font)));
        }
        for g in 0..m.glyph_count {
            let exact = m.em(g) * 1000.;
            match res.widths.get(&(g as u32)) {
                Some(w) if thousandths(*w, exact) => {}
                w => return fail(format!("font {}: glyph {} has width {:?} instead of {}", m.name, g, w, exact)),
            }
        }
        cx.add("widths", m.glyph_count as u64);
        let k = 1000. / m.upem as f64;
        let metric = |what: &str, got: f64, units: i16| -> Outcome {
            if thousandths(got, units as f64 * k) {
                Ok(())
            } else {
                fail(format!("font {}: {} is {} instead of {}", m.name, what, got, units as f64 * k))
            }
        };
        metric("ascent", res.ascent, m.ascender)?;
        metric("descent", res.descent, m.descender)?;
        for j in 0..4 {
            metric("bounding box", res.bbox[j], m.bbox[j])?
        }
        if let Some(b) = res.bfchar_blocks.iter().find(|b| **b > 100 || **b == 0) {
            return fail(format!("font {}: a block of {} character mappings", m.name, b));
        }
        let mut got: Vec<(u32, u16)> = Vec::new();
        for (g, t) in &res.to_unicode {
            let mut cs = t.chars();
            match (cs.next(), cs.next()) {
                (Some(c), None) => got.push((c as u32, *g)),
                _ => return fail(format!("font {}: glyph {} maps to {:?}", m.name, g, t)),
            }
        }
        got.sort();
        let expected: Vec<(u32, u16)> = m.map.iter().map(|(c, g)| (*c, *g)).collect();
        if got != expected {
            let missing: Vec<_> = expected.iter().filter(|e| !got.contains(e)).take(5).collect();
            let extra: Vec<_> = got.iter().filter(|e| !expected.contains(e)).take(5).collect();
            return fail(format!("font {}: {} mappings instead of {}: missing {:x?}, extra {:x?}", m.name, got.len(), expected.len(), missing, extra));
        }
        cx.add("mappings", got.len() as u64);
        cx.max("blocks", res.bfchar_blocks.len() as u64);
        cx.count("fonts");
    }
    programs.sort();
    let n = programs.len();
    programs.dedup();
    if programs.len() != n {
        return fail("two fonts share a program".to_string());
    }
    let streams = pdf.objects.values().filter(|o| o.stream.as_ref().map_or(false, |s| set.bytes.contains(s))).count();
    if streams != n {
        return fail(format!("{} font programs embedded for {} fonts used", streams, n));
    }
    cx.add("glyphs_shown", shown as u64);
    if shown > 0 {
        cx.distinct(&hash(&bytes).to_le_bytes());
        cx.sample(|| format!("{:?}", p).chars().take(400).collect());
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C25

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    Error,
    Zero,
    Panic,
}

struct Flaky {
    rng: Rng,
    got: Vec<u8>,
    calls: usize,
    /// Largest write accepted
    max: usize,
    interrupt: u32,
    fault: Fault,
    /// Bytes, or calls
    at: usize,
    by_calls: bool,
    failed: bool,
    calls_after: usize,
    /// Fails only once
    once: bool,
    /// Flushing fails
    no_flush: bool,
    interrupted: u64,
    short: u64,
    kind: io::ErrorKind,
}

impl Write for Flaky {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.failed {
            self.calls_after += 1;
            if self.once {
                return Ok(b.len());
            }
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupt > 0 && self.rng.chance(1, self.interrupt) {
            self.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.max);
        if n > 1 && self.rng.chance(1, 2) {
            n = 1 + self.rng.below(n)
        }
        if self.fault != Fault::None {
            let now = if self.by_calls { self.calls > self.at } else { self.got.len() >= self.at };
            if now {
                self.failed = true;
                return match self.fault {
                    Fault::Error => Err(io::Error::new(self.kind, "injected")),
                    Fault::Zero => Ok(0),
                    Fault::Panic => panic!("injected panic"),
                    Fault::None => unreachable!(),
                };
            }
            if !self.by_calls {
                n = n.min(self.at - self.got.len())
            }
        }
        if n < b.len() {
            self.short += 1
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.no_flush && !self.failed {
            self.failed = true;
            self.fault = Fault::Error;
            return Err(io::Error::new(self.kind, "injected"));
        }
        Ok(())
    }
}

fn c25(cx: &mut Cx) {
    let r = c25_case(cx);
    cx.report(r)
}

fn first_difference(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("{} and {} bytes, first difference at {}", a.len(), b.len(), i)
}

pub fn c25_case(cx: &mut Cx) -> Outcome {
    let rng = &cx.rng.clone();
    let synthesized = if rng.chance(4, 5) { 0 } else { 1 };
    let vera = rng.chance(1, 20);
    let set = fonts(rng, synthesized, vera)?;
    let p = plan(rng, set.fonts.len(), Range::Sane);
    cx.input(format!("{:?}", p));
    let doc = draw(&p, &set.fonts)?;
    let bytes = guard("writing", || doc.write_to_pdf_bytes())?;
    let rounds = 6;
    for _ in 0..rounds {
        let fault = match rng.below(8) {
            0..=2 => Fault::None,
            3..=5 => Fault::Error,
            6 => Fault::Zero,
            _ => Fault::Panic,
        };
        let mut w = Flaky {
            rng: Rng::new(rng.next(), 0, 0),
            got: Vec::new(),
            calls: 0,
            max: rng.pick(&[1, 2, 7, 100, 5000, usize::MAX]),
            interrupt: rng.pick(&[0, 0, 2, 5, 50]),
            fault,
            at: 0,
            by_calls: rng.chance(1, 2),
            failed: false,
            calls_after: 0,
            once: rng.chance(1, 2),
            no_flush: rng.chance(1, 8),
            interrupted: 0,
            short: 0,
            kind: rng.pick(&[io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::InvalidData, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::UnexpectedEof]),
        };
        if bytes.len() > 20_000 {
            // keep the cost of tiny writes down
            w.max = w.max.max(1000)
        }
        w.at = if w.by_calls { rng.below(120) } else if rng.chance(1, 3) { bytes.len() - 1 - rng.below(bytes.len().min(40)) } else { rng.below(bytes.len()) };
        let desc = format!("max {} interrupt {} fault {:?} at {} {}", w.max, w.interrupt, fault, w.at, if w.by_calls { "calls" } else { "bytes" });
        let result = guard("write_to_pdf", || doc.write_to_pdf(&mut w));
        cx.add("interrupted_writes", w.interrupted);
        cx.add("short_writes", w.short);
        cx.add("write_calls", w.calls as u64);
        if !bytes.starts_with(&w.got) {
            return fail(format!("{}: the bytes delivered are not a prefix: {}", desc, first_difference(&w.got, &bytes)));
        }
        if w.failed {
            cx.count(match fault {
                Fault::Error => "errors_injected",
                Fault::Zero => "zero_writes_injected",
                _ => "panics_injected",
            });
            match (w.fault, result) {
                (Fault::Error, Ok(Err(e))) if e.kind() == w.kind && e.to_string() == "injected" => {}
                (Fault::Zero, Ok(Err(e))) if e.kind() == io::ErrorKind::WriteZero => {}
                (Fault::Panic, Err(f)) if f.what.contains("injected panic") => {}
                (_, Ok(r)) => return fail(format!("{}: returned {:?}", desc, r)),
                (_, Err(f)) => return fail(format!("{}: {}", desc, f.what)),
            }
            if w.calls_after > 0 {
                cx.count("writes_after_a_failure")
            }
        } else {
            match result? {
                Ok(()) => {}
                Err(e) => return fail(format!("{}: error without a fault: {:?}", desc, e)),
            }
            if w.got != bytes {
                return fail(format!("{}: success, but {}", desc, first_difference(&w.got, &bytes)));
            }
            cx.count("complete_writes");
        }
        cx.evaluated(1);
    }
    // Through BufWriter, as documented
    if rng.chance(1, 3) {
        let mut w = io::BufWriter::with_capacity(1 + rng.below(9000), Vec::new());
        guard("write_to_pdf", || doc.write_to_pdf(&mut w))?.map_err(|e| format!("BufWriter: {}", e))?;
        let got = w.into_inner().map_err(|e| e.to_string())?;
        if got != bytes {
            return fail(format!("through BufWriter: {}", first_difference(&got, &bytes)));
        }
        cx.count("buffered_writes");
    }
    // Files
    if rng.chance(1, 4) {
        let dir = std::path::PathBuf::from(std::env::var("VMON_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string()));
        let path = dir.join(format!("c25-{}.pdf", std::process::id()));
        if rng.chance(1, 2) {
            let n = rng.below(2 * bytes.len());
            std::fs::write(&path, rng.bytes(n)).unwrap();
        }
        guard("write_to_pdf_file", || doc.write_to_pdf_file(&path))?.map_err(|e| format!("file: {}", e))?;
        let got = std::fs::read(&path).unwrap_or_default();
        let _ = std::fs::remove_file(&path);
        if got != bytes {
            return fail(format!("the file differs: {}", first_difference(&got, &bytes)));
        }
        cx.count("files");
        if guard("write_to_pdf_file", || doc.write_to_pdf_file(dir.join("no such directory/x.pdf")))?.is_ok() {
            return fail("success for a file that cannot be created".to_string());
        }
        if std::path::Path::new("/dev/full").exists() {
            match guard("write_to_pdf_file", || doc.write_to_pdf_file("/dev/full"))? {
                Err(ref e) if e.raw_os_error() == Some(libc::ENOSPC) => cx.count("full_devices"),
                r => return fail(format!("writing {} bytes to a full device returned {:?}", bytes.len(), r)),
            }
        }
    }
    // Written again after the failures
    let again = guard("writing", || doc.write_to_pdf_bytes())?;
    if again != bytes {
        return fail(format!("written again after failures: {}", first_difference(&again, &bytes)));
    }
    if !p.pages.is_empty() {
        cx.distinct(&hash(&bytes).to_le_bytes());
        let n = bytes.len();
        cx.sample(|| format!("{} bytes; {:?}", n, p).chars().take(300).collect());
    }
    Ok(())
}
