//! C05–C08: fonts, shaping, plain text.
use super::pdf::random_text;
use crate::driver::*;
use crate::pdf::*;
use crate::rng::{hash, Rng};
use crate::ttf::{self, Lack};
use std::collections::BTreeSet;
use std::sync::Arc;
use victor::fonts::{Font, FontError, BITSTREAM_VERA_SANS};
use victor::pdf::Document;
use victor::primitives::{point, Length, Size, TextRun};
use victor::text::{ShapedSegment, ShapedSegmentState};
use victor::text_plain::{self, Style};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C05",
            rule: "a case counts if the synthesized font was accepted and at least one mapped character was compared, or was rejected as it has to be",
            quick_cases: 4_000_000,
            quick_secs: 45,
            run: c05,
            ..Spec::DEFAULT
        },
        Spec {
            id: "C06",
            rule: "a case counts if the damaged font was parsed without error and then used",
            quick_cases: 4_000_000,
            quick_secs: 45,
            cpu_limit: 20,
            mem_cap_mb: 512,
            run: c06,
            ..Spec::DEFAULT
        },
        Spec {
            id: "C07",
            rule: "a case counts if its history has at least one append and one restore or clone",
            quick_cases: 4_000_000,
            quick_secs: 45,
            run: c07,
            ..Spec::DEFAULT
        },
        Spec {
            id: "C08",
            rule: "a case counts if its text has at least two lines in the layout",
            quick_cases: 4_000_000,
            quick_secs: 45,
            run: c08,
            ..Spec::DEFAULT
        },
    ]
}

fn show(segments: &[&ShapedSegment]) -> Result<(Pdf, Vec<Vec<u16>>), Failure> {
    let bytes = guard("showing text", || {
        let mut doc = Document::new();
        {
            let mut page = doc.add_page(Size::new(100., 100.));
            for s in segments {
                page.show_text(&TextRun { segment: s, font_size: Length::new(10.), origin: point(0., 0.) }).map_err(|e| format!("show_text: {:?}", e))?;
            }
        }
        Ok::<_, String>(doc.write_to_pdf_bytes())
    })??;
    let pdf = Pdf::parse(&bytes)?;
    let mut out = Vec::new();
    for i in pdf.display(0)? {
        match i.kind {
            Kind::Text { glyphs, .. } => out.push(glyphs),
            _ => return fail("a rectangle"),
        }
    }
    Ok((pdf, out))
}

// ---------------------------------------------------------------------------
// C05

fn c05(cx: &mut Cx) {
    let r = c05_case(cx);
    cx.report(r)
}

fn c05_case(cx: &mut Cx) -> Outcome {
    let rng = &cx.rng.clone();
    let lack = if rng.chance(1, 8) {
        match rng.below(4) {
            0 => Lack::Table(rng.pick(&ttf::REQUIRED)),
            1 => Lack::Name,
            2 => Lack::Cmap,
            _ => Lack::Format,
        }
    } else {
        Lack::Nothing
    };
    let s = ttf::synth(rng, lack);
    cx.input(s.bytes.clone());
    // The synthesizer and the independent reader have to agree
    if lack == Lack::Nothing && ttf::read(&s.bytes).as_ref() != Some(&s.model) {
        panic!("harness: the reader does not agree with the synthesizer: {:?}", s.features)
    }
    for f in s.features.iter().collect::<BTreeSet<_>>() {
        cx.count(f)
    }
    let bytes = s.bytes.clone();
    let font = match guard("Font::parse", || Font::parse(bytes))? {
        Err(e) => {
            let ok = match lack {
                Lack::Nothing => false,
                Lack::Table(_) => matches!(e, FontError::MissingTable),
                Lack::Name => matches!(e, FontError::NoSupportedPostscriptName),
                Lack::Cmap => matches!(e, FontError::NoSupportedCmap),
                Lack::Format => matches!(e, FontError::UnsupportedFormat),
            };
            if !ok {
                return fail(format!("a font lacking {:?} was rejected with {:?} ({:?})", lack, e, s.features));
            }
            cx.count(&format!("rejected_{:?}", e));
            cx.distinct(&hash(&s.bytes).to_le_bytes());
            return Ok(());
        }
        Ok(f) => f,
    };
    if lack != Lack::Nothing {
        return fail(format!("a font lacking {:?} was accepted", lack));
    }
    let m = &s.model;
    if font.bytes() != &s.bytes[..] {
        return fail("Font::bytes() differs from the bytes parsed");
    }
    // Characters: all of the map, their neighbours, and others
    let mut chars: BTreeSet<char> = BTreeSet::new();
    for &c in m.map.keys() {
        for d in [c.wrapping_sub(1), c, c + 1] {
            chars.extend(char::from_u32(d))
        }
    }
    chars.extend(['\0', ' ', 'a', '\u{d7ff}', '\u{e000}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{10001}', '\u{10ffff}']);
    chars.extend(random_text(rng).chars());
    let text: String = chars.iter().collect();
    let segment = guard("naive_shape", || ShapedSegment::naive_shape(&text, font.clone()))?.map_err(|e| format!("naive_shape: {:?}", e))?;
    let (pdf, shown) = show(&[&segment])?;
    let glyphs: Vec<u16> = shown.into_iter().flatten().collect();
    let expected: Vec<u16> = chars.iter().map(|&c| m.glyph(c)).collect();
    if glyphs != expected {
        let i = glyphs.iter().zip(&expected).position(|(a, b)| a != b);
        return fail(match i {
            Some(i) => format!("{:?} is shown as glyph {} instead of {} ({:?})", chars.iter().nth(i).unwrap(), glyphs[i], expected[i], s.features),
            None => format!("{} glyphs for {} characters", glyphs.len(), expected.len()),
        });
    }
    cx.add("characters", chars.len() as u64);
    // Widths and name, in the PDF
    let id = match &pdf.display(0)?[0].kind {
        Kind::Text { font, .. } => *font,
        _ => unreachable!(),
    };
    let res = pdf.font(id)?;
    for g in 0..m.glyph_count {
        let exact = m.em(g) * 1000.;
        match res.widths.get(&(g as u32)) {
            Some(w) if crate::checks::pdf::thousandths(*w, exact) => {}
            w => return fail(format!("glyph {} of {} has width {:?} instead of {} ({} width records)", g, m.glyph_count, w, exact, m.widths.len())),
        }
    }
    if res.base_font != m.name.as_bytes() {
        return fail(format!("the name is {:?} instead of {:?} ({:?})", String::from_utf8_lossy(&res.base_font), m.name, s.features));
    }
    // Exact advances, by the layout of plain text
    let size = 64f32;
    let probes: Vec<char> = chars.iter().copied().filter(|c| c.is_alphabetic() && m.map.contains_key(&(*c as u32))).collect();
    for _ in 0..if probes.is_empty() { 0 } else { 4 } {
        let c = rng.pick(&probes);
        let text = format!("{} b", c);
        let style = Style { page_size: Size::new(1e6, 1e4), page_margin: Length::new(0.), font: font.clone(), font_size: Length::new(size), line_height: 1., justify: false };
        let bytes = guard("text layout", || text_plain::layout(&text, &style).map(|d| d.write_to_pdf_bytes()))?.map_err(|e| format!("layout: {:?}", e))?;
        let pdf = Pdf::parse(&bytes)?;
        let items = pdf.display(0)?;
        if let [Kind::Text { x: x0, glyphs: g0, y: y0, .. }, Kind::Text { x: x1, .. }] = &items.iter().map(|i| i.kind.clone()).collect::<Vec<_>>()[..] {
            if g0.len() == 2 {
                let exact = (m.em(m.glyph(c)) + m.em(m.glyph(' '))) * size as f64;
                if (x1 - x0 - exact).abs() > 0.01 + 1e-5 * exact {
                    return fail(format!("{:?} and a space advance by {} instead of {}", c, x1 - x0, exact));
                }
                let ascent = m.ascender as f64 / m.upem as f64 * size as f64;
                if (y0 - ascent).abs() > 0.01 + 1e-5 * ascent.abs() {
                    return fail(format!("the baseline is at {} instead of {}", y0, ascent));
                }
                cx.count("exact_advances")
            }
        }
    }
    if !m.map.is_empty() {
        cx.distinct(&hash(&s.bytes).to_le_bytes());
        let n = s.bytes.len();
        cx.sample(|| format!("{} bytes, name {:?}, {} glyphs, {} mappings, {:?}", n, m.name, m.glyph_count, m.map.len(), s.features.iter().collect::<BTreeSet<_>>()));
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C06

fn interesting(rng: &Rng) -> u32 {
    match rng.below(6) {
        0 => rng.pick(&[0, 1, 2, 3, 0x7f, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x1_0000, 0x10_ffff, 0x11_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0xffff_fff0, 0x1555_5555, 0x5555_5556]),
        1 => rng.next() as u32,
        2 => rng.below(300) as u32,
        3 => 1 << rng.below(32),
        4 => u32::MAX - rng.below(64) as u32,
        _ => rng.below(5000) as u32,
    }
}

pub fn damage(rng: &Rng, b: &mut Vec<u8>) {
    let n = u16::from_be_bytes([b[4], b[5]]) as usize;
    let mut starts: Vec<usize> = vec![0, 4];
    let mut tables = Vec::new();
    for i in 0..n {
        let e = 12 + 16 * i;
        starts.extend([e, e + 8]);
        if e + 16 <= b.len() {
            let off = u32::from_be_bytes([b[e + 8], b[e + 9], b[e + 10], b[e + 11]]) as usize;
            if ttf::REQUIRED.iter().any(|t| t.as_bytes() == &b[e..e + 4]) {
                tables.push((off, b[e..e + 4].to_vec()))
            }
        }
    }
    for _ in 0..1 + rng.below(4) {
        if b.is_empty() {
            return;
        }
        match rng.below(12) {
            0 => {
                let n = rng.below(b.len() + 1);
                b.truncate(n)
            }
            1 => {
                let i = rng.below(b.len());
                b[i] = rng.next() as u8
            }
            2 => {
                let i = rng.below(b.len());
                b[i] ^= 1 << rng.below(8)
            }
            // A field of a required table
            3..=8 if !tables.is_empty() => {
                let k = rng.below(tables.len());
                let (off, tag) = &tables[k];
                let within = match &tag[..] {
                    b"head" => rng.pick(&[18usize, 36, 38, 40, 42]),
                    b"hhea" => rng.pick(&[4usize, 6, 34, 34, 34]),
                    b"maxp" => 4,
                    b"hmtx" => 4 * rng.below(10),
                    b"name" => 2 * rng.below(40),
                    // cmap: headers, and subtables
                    _ => 2 * rng.below(if rng.chance(1, 2) { 20 } else { 300 }),
                };
                let v = interesting(rng);
                let wide = rng.chance(1, 3);
                let bytes = v.to_be_bytes();
                let data = if wide { &bytes[..] } else { &bytes[2..] };
                for (j, d) in data.iter().enumerate() {
                    if let Some(x) = b.get_mut(off + within + j) {
                        *x = *d
                    }
                }
            }
            // The table directory
            9..=10 => {
                let at = rng.pick(&starts);
                for (j, d) in interesting(rng).to_be_bytes().iter().enumerate() {
                    if let Some(x) = b.get_mut(at + j) {
                        *x = *d
                    }
                }
            }
            _ => {
                // Move a block
                let i = rng.below(b.len());
                let j = (i + rng.below(64)).min(b.len());
                let piece = b[i..j].to_vec();
                let at = rng.below(b.len());
                for (k, x) in piece.iter().enumerate() {
                    if let Some(y) = b.get_mut(at + k) {
                        *y = *x
                    }
                }
            }
        }
    }
}

/// A format 12 or 4 map built to be expensive or out of order
fn hostile_cmap(rng: &Rng) -> Vec<u8> {
    let mut v = Vec::new();
    ttf::p16(&mut v, 0);
    ttf::p16(&mut v, 1);
    ttf::p16(&mut v, 3);
    let twelve = rng.chance(1, 2);
    ttf::p16(&mut v, if twelve { 10 } else { 1 });
    ttf::p32(&mut v, 12);
    if twelve {
        let n = 1 + rng.below(60);
        ttf::p16(&mut v, 12);
        ttf::p16(&mut v, 0);
        ttf::p32(&mut v, 0);
        ttf::p32(&mut v, 0);
        ttf::p32(&mut v, if rng.chance(1, 6) { interesting(rng) } else { n as u32 });
        for _ in 0..n {
            let (s, e) = if rng.chance(1, 2) { (0, u32::MAX) } else { (interesting(rng), interesting(rng)) };
            ttf::p32(&mut v, s);
            ttf::p32(&mut v, e);
            ttf::p32(&mut v, interesting(rng));
        }
    } else {
        let n = 1 + rng.below(60);
        ttf::p16(&mut v, 4);
        ttf::p16(&mut v, 0);
        ttf::p16(&mut v, 0);
        ttf::p16(&mut v, if rng.chance(1, 6) { interesting(rng) as u16 } else { 2 * n as u16 });
        v.extend([0; 6]);
        let wide = rng.chance(1, 2);
        for _ in 0..n {
            ttf::p16(&mut v, if wide { 0xffff } else { interesting(rng) as u16 })
        }
        ttf::p16(&mut v, 0);
        for _ in 0..n {
            ttf::p16(&mut v, if wide { 0 } else { interesting(rng) as u16 })
        }
        for _ in 0..n {
            ttf::p16(&mut v, rng.next() as u16)
        }
        for _ in 0..n {
            ttf::p16(&mut v, if rng.chance(1, 2) { 0 } else { interesting(rng) as u16 })
        }
    }
    v
}

pub fn replace_table(b: &mut Vec<u8>, tag: &[u8], data: &[u8]) {
    let n = u16::from_be_bytes([b[4], b[5]]) as usize;
    let at = b.len() as u32;
    for i in 0..n {
        let e = 12 + 16 * i;
        if b.get(e..e + 4) == Some(tag) {
            b[e + 8..e + 12].copy_from_slice(&at.to_be_bytes());
        }
    }
    b.extend_from_slice(data)
}

fn c06(cx: &mut Cx) {
    let r = c06_case(cx);
    cx.report(r)
}

pub fn hostile_font(rng: &Rng) -> Vec<u8> {
    let mut b = match rng.below(20) {
        0 => {
            let n = rng.below(200);
            rng.bytes(n)
        }
        1 => {
            let n = rng.below(200);
            let mut v = vec![0, 1, 0, 0, 0, rng.below(20) as u8];
            v.extend(rng.bytes(n));
            v
        }
        2 => BITSTREAM_VERA_SANS.bytes().to_vec(),
        _ => ttf::synth(rng, Lack::Nothing).bytes,
    };
    if b.len() >= 12 && rng.chance(1, 4) {
        let c = hostile_cmap(rng);
        replace_table(&mut b, b"cmap", &c)
    }
    if b.len() >= 12 && !rng.chance(1, 20) {
        damage(rng, &mut b)
    }
    // So that a sanitizer sees what is read beyond the end
    b.shrink_to_fit();
    b
}

pub fn c06_case(cx: &mut Cx) -> Outcome {
    let rng = &cx.rng.clone();
    let b = hostile_font(rng);
    cx.input(b.clone());
    let size = b.len();
    let key = hash(&b);
    let font = match guard("Font::parse", || Font::parse(b))? {
        Err(e) => {
            cx.count(&format!("rejected_{:?}", e));
            return Ok(());
        }
        Ok(f) => f,
    };
    cx.count("accepted");
    cx.distinct(&key.to_le_bytes());
    let mut text = random_text(rng);
    text.push_str("The quick brown fox\u{ffff}\u{10ffff}\0");
    // Each character by itself, so that an error does not hide the next ones
    let mut ok = 0;
    for c in text.chars().chain((0..40).filter_map(|_| char::from_u32(interesting(rng)))) {
        match guard("naive_shape", || ShapedSegment::naive_shape(&c.to_string(), font.clone()))? {
            Ok(_) => ok += 1,
            Err(e) => cx.count(&format!("shaping_{:?}", e)),
        }
    }
    cx.add("characters_shaped", ok);
    match guard("naive_shape", || ShapedSegment::naive_shape(&text, font.clone()))? {
        Err(_) => {}
        Ok(s) => {
            let r = guard("show_text", || {
                let mut doc = Document::new();
                let r = doc.add_page(Size::new(100., 100.)).show_text(&TextRun { segment: &s, font_size: Length::new(10.), origin: point(0., 0.) }).map(|_| ());
                // An error leaves a document that can be written
                (doc.write_to_pdf_bytes(), r)
            })?;
            if let Err(e) = &r.1 {
                cx.count(&format!("showing_{:?}", e))
            } else {
                cx.count("shown")
            }
            let pdf = Pdf::parse(&r.0)?;
            if r.1.is_ok() && pdf.display(0)?.len() != 1 {
                return fail("the text run is not on the page".to_string());
            }
            cx.max("pdf_bytes", r.0.len() as u64);
            if r.0.len() > 60_000_000 + 10 * size {
                return fail(format!("{} bytes of PDF for a font of {} bytes", r.0.len(), size));
            }
        }
    }
    if rng.chance(1, 4) {
        let style = Style { page_size: Size::new(100., 100.), page_margin: Length::new(3.), font: font.clone(), font_size: Length::new(12.), line_height: 1.5, justify: rng.chance(1, 2) };
        match guard("text layout", || text_plain::layout(&text, &style).map(|d| d.write_to_pdf_bytes()))? {
            Ok(b) => {
                Pdf::parse(&b)?.validate()?;
                cx.count("laid_out")
            }
            Err(e) => cx.count(&format!("layout_{:?}", e)),
        }
    }
    cx.sample(|| format!("{} bytes", size));
    Ok(())
}

// ---------------------------------------------------------------------------
// C07

struct Shadow {
    segment: ShapedSegment,
    font: usize,
    glyphs: Vec<u16>,
    /// Valid saved states, with the length they restore
    saved: Vec<(std::rc::Rc<ShapedSegmentState>, usize)>,
}

#[cfg(vmon)]
fn advance_width(s: &ShapedSegment) -> Option<f32> {
    Some(s.vmon_advance_width())
}
#[cfg(not(vmon))]
fn advance_width(_: &ShapedSegment) -> Option<f32> {
    None
}

fn c07(cx: &mut Cx) {
    let r = c07_case(cx);
    cx.report(r)
}

fn compare_segments(cx: &mut Cx, all: &[Shadow], models: &[ttf::Model], log: &[String]) -> Outcome {
    let refs: Vec<&ShapedSegment> = all.iter().map(|s| &s.segment).collect();
    let (_, shown) = show(&refs)?;
    if shown.len() != all.len() {
        return fail(format!("{} runs shown for {} segments", shown.len(), all.len()));
    }
    for (i, (s, g)) in all.iter().zip(&shown).enumerate() {
        if s.glyphs != *g {
            return fail(format!("segment {} shows {:?} instead of {:?} after {:?}", i, g, s.glyphs, log));
        }
        if let Some(w) = advance_width(&s.segment) {
            let exact: f64 = s.glyphs.iter().map(|g| models[s.font].em(*g)).sum();
            if (w as f64 - exact).abs() > 1e-4 * (1. + exact) {
                return fail(format!("segment {} takes {} em instead of {} after {:?}", i, w, exact, log));
            }
            cx.count("advance_widths");
        }
        cx.add("glyphs_compared", g.len() as u64);
    }
    Ok(())
}

/// The font with only the first glyphs, but the characters of all of them, and no widths for those
fn without_widths(font: &[u8], m: &ttf::Model, count: u16) -> Vec<u8> {
    let mut b = font.to_vec();
    let n = u16::from_be_bytes([b[4], b[5]]) as usize;
    for (tag, at, value) in [(b"maxp", 4, count), (b"hhea", 34, 0xffff)] {
        for i in 0..n {
            let e = 12 + 16 * i;
            if &b[e..e + 4] == tag {
                let start = u32::from_be_bytes([b[e + 8], b[e + 9], b[e + 10], b[e + 11]]) as usize + at;
                b[start..start + 2].copy_from_slice(&value.to_be_bytes())
            }
        }
    }
    let mut data = Vec::new();
    for g in 0..count {
        data.extend_from_slice(&m.widths[(g as usize).min(m.widths.len() - 1)].to_be_bytes());
        data.extend_from_slice(&[0, 0])
    }
    replace_table(&mut b, b"hmtx", &data);
    b
}

pub fn c07_case(cx: &mut Cx) -> Outcome {
    let rng = &cx.rng.clone();
    let n = if rng.chance(1, 3) { 0 } else { 1 + rng.below(2) };
    let vera = n == 0;
    let mut set = super::pdf::fonts(rng, n, vera)?;
    // Sometimes, glyphs from some number on have no width that can be read
    let mut first_bad: Vec<u32> = vec![0x10000; set.fonts.len()];
    if n > 0 && rng.chance(1, 4) {
        let k = 1 + rng.below(set.models[0].glyph_count as usize) as u16;
        let b = without_widths(&set.bytes[0], &set.models[0], k);
        set.fonts[0] = guard("Font::parse", || victor::fonts::Font::parse(b))?.map_err(|e| format!("{:?}", e))?;
        first_bad[0] = k as u32;
        cx.count("fonts_with_bad_glyphs");
    }
    let bad = |f: usize, c: char| set.models[f].glyph(c) as u32 >= first_bad[f];
    let failures = std::cell::Cell::new(0);
    let mut all: Vec<Shadow> = Vec::new();
    let mut log: Vec<String> = Vec::new();
    let fresh = |rng: &Rng, log: &mut Vec<String>| -> Result<Shadow, Failure> {
        let f = rng.below(set.fonts.len());
        let segment;
        let mut glyphs = Vec::new();
        if rng.chance(1, 2) {
            segment = ShapedSegment::new_with_naive_shaping(set.fonts[f].clone());
            log.push(format!("new({})", f));
        } else {
            let mut t = random_text(rng);
            if t.chars().any(|c| bad(f, c)) {
                failures.set(failures.get() + 1);
                if guard("naive_shape", || ShapedSegment::naive_shape(&t, set.fonts[f].clone()))?.is_ok() {
                    return fail(format!("{:?} was shaped without the width of a glyph", t));
                }
                t.clear();
            }
            segment = guard("naive_shape", || ShapedSegment::naive_shape(&t, set.fonts[f].clone()))?.map_err(|e| format!("{:?}", e))?;
            glyphs.extend(t.chars().map(|c| set.models[f].glyph(c)));
            log.push(format!("shape({}, {:?})", f, t));
        }
        Ok(Shadow { segment, font: f, glyphs, saved: Vec::new() })
    };
    all.push(fresh(rng, &mut log)?);
    let (mut appends, mut rollbacks) = (0, 0);
    for _ in 0..4 + rng.below(40) {
        let i = rng.below(all.len());
        let m = &set.models[all[i].font];
        match rng.below(12) {
            0..=2 => {
                let c = random_text(rng).chars().next().unwrap_or('x');
                log.push(format!("{}.append_char({:?})", i, c));
                if bad(all[i].font, c) {
                    // Nothing is appended
                    failures.set(failures.get() + 1);
                    if guard("append_char", || all[i].segment.append_char(c))?.is_ok() {
                        return fail(format!("{:?} was appended without the width of its glyph", c));
                    }
                    continue;
                }
                guard("append_char", || all[i].segment.append_char(c))?.map_err(|e| format!("{:?}", e))?;
                let g = m.glyph(c);
                all[i].glyphs.push(g);
                appends += 1;
            }
            3..=5 => {
                let t = random_text(rng);
                log.push(format!("{}.append({:?})", i, t));
                if t.chars().any(|c| bad(all[i].font, c)) {
                    // Some of it may be appended, restoring undoes that
                    failures.set(failures.get() + 1);
                    let state = all[i].segment.save();
                    if guard("append", || all[i].segment.append(t.chars()))?.is_ok() {
                        return fail(format!("{:?} was appended without the width of a glyph", t));
                    }
                    guard("restore", || all[i].segment.restore(&state))?;
                    continue;
                }
                guard("append", || all[i].segment.append(t.chars()))?.map_err(|e| format!("{:?}", e))?;
                all[i].glyphs.extend(t.chars().map(|c| m.glyph(c)));
                appends += 1;
            }
            6..=7 => {
                let state = all[i].segment.save();
                let len = all[i].glyphs.len();
                log.push(format!("{}.save() at {}", i, len));
                all[i].saved.push((std::rc::Rc::new(state), len));
            }
            8..=9 => {
                if all[i].saved.is_empty() {
                    continue;
                }
                let k = rng.below(all[i].saved.len());
                let (state, len) = all[i].saved[k].clone();
                log.push(format!("{}.restore({})", i, len));
                guard("restore", || all[i].segment.restore(&state))?;
                all[i].glyphs.truncate(len);
                // The states saved since then are of text that is gone
                all[i].saved.retain(|s| s.1 <= len);
                rollbacks += 1;
            }
            10 if all.len() < 6 => {
                let c = guard("clone", || all[i].segment.clone())?;
                log.push(format!("{}.clone() -> {}", i, all.len()));
                // What was saved before is also of this clone’s text
                let s = Shadow { segment: c, font: all[i].font, glyphs: all[i].glyphs.clone(), saved: all[i].saved.clone() };
                all.push(s);
                rollbacks += 1;
            }
            11 if rng.chance(1, 3) => {
                compare_segments(cx, &all, &set.models, &log)?;
                log.push("show all".into());
            }
            11 if all.len() < 6 => all.push(fresh(rng, &mut log)?),
            _ => {
                if all.len() > 1 && rng.chance(1, 3) {
                    log.push(format!("drop {}", i));
                    all.swap_remove(i);
                }
            }
        }
    }
    cx.input(log.join("\n"));
    compare_segments(cx, &all, &set.models, &log)?;
    cx.add("appends", appends);
    cx.add("failed_appends", failures.get());
    cx.add("rollbacks_and_clones", rollbacks);
    if appends > 0 && rollbacks > 0 {
        cx.distinct(log.join("\n").as_bytes());
        cx.sample(|| log.join("; ").chars().take(500).collect());
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C08

pub fn c08_text(rng: &Rng, long: bool) -> String {
    let mut t = String::new();
    let exotic = rng.chance(1, 3);
    let newlines = rng.chance(2, 3);
    let most = if long { 3000 } else if rng.chance(1, 5) { 250 } else { 40 };
    for _ in 0..rng.below(most) {
        match rng.below(if exotic { 20 } else { 12 }) {
            0 | 1 if long && !rng.chance(1, 12) => t.push_str("w "),
            0 if newlines => t.push('\n'),
            1 if newlines => t.push_str(rng.pick(&["\n\n", "\r\n", "\n \n", " \n", "\r", "\n\n\n\n"])),
            0 | 1 => t.push_str("  "),
            2 => t.push('-'),
            12 => t.push_str(rng.pick(&["\u{2028}", "\u{2029}", "\u{85}", "\u{b}", "\u{c}", "\t"])),
            13 => t.push_str(rng.pick(&["\u{a0}", "\u{ad}", "\u{200b}", "\u{2060}", "\u{200d}", "\u{301}", "/", "…", "—"])),
            14 => t.push_str(rng.pick(&["漢字", "かな", "한글", "ไทย", "عربي", "😀", "🇫🇷"])),
            15 => t.push_str(rng.pick(&["(a)", "\"q\"", "1,000.5", "$3", "50%", "http://x.y/z?q", "a/b", "don’t", "C++"])),
            _ => {
                for _ in 0..1 + rng.below(9) {
                    t.push((b'a' + rng.below(26) as u8) as char)
                }
                if !rng.chance(1, 8) {
                    t.push(' ')
                }
            }
        }
    }
    t
}

fn c08(cx: &mut Cx) {
    let r = c08_case(cx);
    cx.report(r)
}

#[derive(Debug)]
struct Glyph {
    page: usize,
    x: f64,
    y: f64,
    id: u16,
}

pub fn c08_case(cx: &mut Cx) -> Outcome {
    let rng = &cx.rng.clone();
    let (font, model): (Arc<Font>, ttf::Model) = if rng.chance(3, 4) {
        (BITSTREAM_VERA_SANS.clone(), ttf::vera())
    } else {
        let s = ttf::synth(rng, Lack::Nothing);
        let b = s.bytes;
        (guard("Font::parse", || Font::parse(b))?.map_err(|e| format!("{:?}", e))?, s.model)
    };
    // Rarely, many words in a line
    let long = rng.chance(1, 40);
    let text = c08_text(rng, long);
    let mm = 96. / 25.4;
    let margin = rng.below(80) as f32 / 4.;
    let page = [2. * margin + 5. + rng.below(400) as f32 / 4., 2. * margin + 5. + rng.below(400) as f32 / 4.];
    let (page, size) = if long {
        ([2. * margin + 50. + rng.below(1200) as f32, 2. * margin + 5. + rng.below(400) as f32 / 4.], 2. + rng.below(40) as f32 / 4.)
    } else {
        (page, 4. + rng.below(80) as f32 / 4.)
    };
    let line_height = rng.pick(&[1., 1.2, 1.5, 2., 0.8, 3.]);
    let justify = rng.chance(1, 2);
    cx.input(format!("page {:?} mm, margin {}, font {:?} {} px × {}, justify {}\n{}", page, margin, model.name, size, line_height, justify, text));
    let style = Style { page_size: Size::new(page[0], page[1]), page_margin: Length::new(margin), font, font_size: Length::new(size), line_height, justify };
    let bytes = guard("text layout", || text_plain::layout(&text, &style).map(|d| d.write_to_pdf_bytes()))?.map_err(|e| format!("layout: {:?}", e))?;
    let pdf = Pdf::parse(&bytes)?;
    let (size, line_height) = (size as f64, line_height as f64);
    let left = margin as f64 * mm;
    let top = left;
    let width = page[0] as f64 * mm - 2. * left;
    let bottom = page[1] as f64 * mm - top;
    // Observed
    let mut got: Vec<Glyph> = Vec::new();
    for (n, p) in pdf.pages.iter().enumerate() {
        let (w, h) = ((p.media[2] - p.media[0]) / 0.75, (p.media[3] - p.media[1]) / 0.75);
        if (w - page[0] as f64 * mm).abs() > 0.01 || (h - page[1] as f64 * mm).abs() > 0.01 {
            return fail(format!("page {} is {} × {} px", n, w, h));
        }
        for item in pdf.display(n)? {
            match item.kind {
                Kind::Text { x, y, size: s, glyphs, .. } => {
                    if (s - size).abs() > 1e-3 {
                        return fail(format!("text of size {}", s));
                    }
                    if item.rgb != [0.; 3] || item.alpha != 1. {
                        return fail(format!("text in {:?} / {}", item.rgb, item.alpha));
                    }
                    let mut x = x;
                    for id in glyphs {
                        got.push(Glyph { page: n, x, y, id });
                        x += model.em(id) * size
                    }
                }
                k => return fail(format!("not text: {:?}", k)),
            }
        }
    }
    // Expected
    let mut segments: Vec<(Vec<u16>, f64, bool)> = Vec::new();
    let mut from = 0;
    for (to, hard) in xi_unicode::LineBreakIterator::new(&text) {
        let t = text[from..to].trim_end_matches('\n');
        from = to;
        segments.push((t.chars().map(|c| model.glyph(c)).collect(), model.advance(t) * size, hard))
    }
    let total: usize = segments.iter().map(|s| s.0.len()).sum();
    if total != got.len() {
        return fail(format!("{} glyphs shown for {} characters", got.len(), total));
    }
    let mut g = 0; // next glyph observed
    let mut i = 0; // next segment
    let mut lines = 0;
    let mut page_n = 0;
    let mut y = top;
    let mut used_pages = if segments.is_empty() { 0 } else { 1 };
    let mut broken_lines = 0;
    while i < segments.len() {
        // One line
        let baseline = y + ((line_height - 1.) / 2. + model.ascender as f64 / model.upem as f64) * size;
        let start = i;
        let mut w = 0.;
        let mut hard = false;
        let mut k = g;
        while i < segments.len() {
            let (glyphs, advance, h) = &segments[i];
            let next = w + advance;
            let tolerance = 1e-3 + 1e-5 * next;
            let mut stop = next > width && i > start;
            // Within rounding, or no room even without the part that has no width: either is fine
            if i > start && ((next - width).abs() < tolerance || (next > width && w < tolerance)) {
                stop = match (glyphs.is_empty(), got.get(k)) {
                    (false, Some(o)) => o.page != page_n || (o.y - baseline).abs() > 0.01 + 1e-5 * baseline.abs(),
                    _ => stop,
                };
                cx.count("ambiguous_breaks");
            }
            if stop {
                break;
            }
            k += glyphs.len();
            w = next;
            i += 1;
            if *h {
                hard = true;
                break;
            }
        }
        lines += 1;
        let broken = !hard;
        let n = i - start;
        let extra = width - w;
        let spacing = if broken && justify && extra > 0. && n > 1 { extra / (n - 1) as f64 } else { 0. };
        if broken {
            broken_lines += 1;
            if justify && n > 1 {
                cx.count("justified_lines")
            }
        }
        let mut x = left;
        for s in &segments[start..i] {
            let mut gx = x;
            for &id in &s.0 {
                let o = &got[g];
                let tol = 0.02 + 2e-5 * (gx.abs() + baseline.abs());
                if o.id != id || o.page != page_n || (o.x - gx).abs() > tol || (o.y - baseline).abs() > tol {
                    return fail(format!("character {} (line {}, {} segments) should be glyph {} at page {} ({}, {}), is {:?}", g, lines, n, id, page_n, gx, baseline, o));
                }
                gx += model.em(id) * size;
                g += 1
            }
            x += s.1 + spacing
        }
        if broken && justify && extra > 0. && n > 1 {
            debug_assert!((x - spacing - left - width).abs() < 1e-6 * (1. + width.abs()))
        }
        y += line_height * size;
        let slack = 1e-3 + 1e-5 * y.abs() * lines as f64;
        let mut turn = y > bottom;
        if (y - bottom).abs() < slack && i < segments.len() {
            // Within rounding: either is fine, the next character tells unless the next line has none
            cx.count("ambiguous_page_ends");
            if segments[i].0.is_empty() || g >= got.len() {
                return Ok(())
            }
            turn = got[g].page > page_n
        }
        if turn && i < segments.len() {
            page_n += 1;
            used_pages += 1;
            y = top
        }
    }
    // A page that starts after the last line is possible
    if pdf.pages.len() != used_pages && pdf.pages.len() != used_pages + 1 {
        return fail(format!("{} pages instead of {}", pdf.pages.len(), used_pages));
    }
    cx.add("lines", lines);
    cx.add("broken_lines", broken_lines);
    cx.add("pages", used_pages as u64);
    cx.add("characters", total as u64);
    if lines > 1 {
        cx.distinct(text.as_bytes());
        cx.sample(|| format!("{} lines on {} pages: {:?}", lines, used_pages, text).chars().take(300).collect());
    }
    Ok(())
}

/// A font that can be parsed, but fails when it is used: its widths or its map are cut
pub fn late_failure(rng: &Rng, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    let tag: &[u8] = if rng.chance(3, 4) { b"hmtx" } else { b"cmap" };
    let n = u16::from_be_bytes([b[4], b[5]]) as usize;
    for i in 0..n {
        let e = 12 + 16 * i;
        if b.get(e..e + 4) == Some(tag) {
            let get = |at: usize| u32::from_be_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) as usize;
            let (start, len) = (get(e + 8), get(e + 12));
            let cut = match rng.below(3) {
                0 => rng.below(len + 1),
                1 => len - rng.below(len.min(5) + 1),
                _ => rng.below(len.min(12) + 1),
            };
            let data = b.get(start..start + cut).unwrap_or(&[]).to_vec();
            replace_table(&mut b, tag, &data);
            break;
        }
    }
    b.shrink_to_fit();
    b
}
