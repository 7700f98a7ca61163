//! C21: everything, under AddressSanitizer, with leak counting and (for a few cases) Memcheck.
use super::{boxes, fonts, native, pdf, robust, tree};
use crate::driver::*;
use crate::rng::hash;
use crate::soup;
use lester::{ImageSurface, PdfDocument, RenderOptions};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::Command;
use victor::dom::Document;
use victor::fonts::{Font, BITSTREAM_VERA_SANS};
use victor::primitives::{point, Length, Size, TextRun};
use victor::text::ShapedSegment;

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C21",
        rule: "a case counts if one of the public entry points ran on a generated input in a process instrumented by AddressSanitizer, or was called repeatedly with its allocations counted",
        assumptions: &[
            "memory that cairo, Poppler and the C library access themselves is checked where they allocate, free, copy or compare, not at each access",
            "mutated PDF files are not given to Poppler, whose own bugs they would show",
            "reads of memory that is not initialized are looked for by Memcheck in a few cases of each run",
        ],
        quick_cases: 4_000_000,
        quick_secs: 45,
        thorough_secs: 800,
        cpu_limit: 120,
        mem_cap_mb: 1536,
        run: c21,
        ..Spec::DEFAULT
    }]
}

/// Bytes of all live allocations, of native libraries too
#[cfg(feature = "asan")]
fn allocated(fonts: bool) -> Option<usize> {
    extern "C" {
        fn cairo_debug_reset_static_data();
        fn __sanitizer_get_current_allocated_bytes() -> usize;
    }
    if fonts {
        // Cairo keeps the last few hundred fonts
        unsafe { cairo_debug_reset_static_data() }
    }
    Some(unsafe { __sanitizer_get_current_allocated_bytes() })
}
#[cfg(not(feature = "asan"))]
fn allocated(_: bool) -> Option<usize> {
    None
}

/// One call of a public entry point. The results are judged by other checks.
fn exercise(cx: &mut Cx) -> &'static str {
    let rng = &cx.rng.clone();
    let html = |cx: &mut Cx, b: Vec<u8>| {
        cx.input(b.clone());
        if crate::dom::Dom::parse_html(&b).depth() <= 100 {
            let _ = guard("rendering", || {
                let d = Document::parse_html(&b);
                let n = d.to_pdf_bytes().len();
                d.html_link_elements().count() + n
            });
        }
    };
    let what = rng.weighted(&[5, 3, 2, 2, 3, 5, 2, 2, 2, 2, 3, 2, 3]);
    match what {
        0 => {
            let mut b = soup::html(rng, 30).into_bytes();
            if rng.chance(1, 2) {
                soup::mutate(rng, &mut b)
            }
            html(cx, b);
            "tag soup"
        }
        1 => {
            let mut b = soup::boxes(rng).into_bytes();
            if rng.chance(1, 2) {
                soup::mutate(rng, &mut b)
            }
            html(cx, b);
            "box soup"
        }
        2 => {
            html(cx, robust::tower(rng).into_bytes());
            "towers"
        }
        3 => {
            html(cx, robust::source(rng).into_bytes());
            "documents"
        }
        4 => {
            let (good, _, _) = tree::xml(rng, &boxes::Profile::base());
            let mut b = if rng.chance(1, 2) { tree::break_xml(rng, &good).1 } else { good.into_bytes() };
            if rng.chance(1, 3) {
                soup::mutate(rng, &mut b)
            }
            cx.input(b.clone());
            let _ = guard("rendering", || Document::parse_xml(&b).map(|d| (d.to_pdf_bytes(), d.html_link_elements().count())).is_ok());
            "XML"
        }
        5 => {
            let _ = fonts::c06_case(cx);
            "hostile fonts"
        }
        6 => {
            let _ = fonts::c07_case(cx);
            "shaped segments"
        }
        7 => {
            let _ = fonts::c08_case(cx);
            "plain text"
        }
        8 => {
            let _ = pdf::c02_case(cx);
            "drawing"
        }
        9 => {
            let _ = pdf::c25_case(cx);
            "written documents"
        }
        10 => {
            let _ = native::c22_case(cx);
            "PNG images"
        }
        11 => {
            let _ = native::c23_case(cx);
            "PDF pages"
        }
        _ => {
            native::c24(cx);
            "histories of handles"
        }
    }
}

/// The same call again and again
fn repeat(cx: &mut Cx) -> Outcome {
    let rng = &cx.rng.clone();
    let seed = rng.next();
    let (what, act): (&str, Box<dyn Fn()>) = match rng.below(9) {
        0 | 1 => {
            let b = robust::source(rng).into_bytes();
            cx.input(b.clone());
            (
                "rendering HTML",
                Box::new(move || {
                    let d = Document::parse_html(&b);
                    d.to_pdf_bytes();
                    d.html_link_elements().count();
                }),
            )
        }
        2 => {
            let (good, _, _) = tree::xml(rng, &boxes::Profile::base());
            let b = if rng.chance(1, 2) { tree::break_xml(rng, &good).1 } else { good.into_bytes() };
            cx.input(b.clone());
            ("rendering XML", Box::new(move || drop(Document::parse_xml(&b).map(|d| d.to_pdf_bytes()))))
        }
        3 => {
            let b = fonts::hostile_font(rng);
            cx.input(b.clone());
            (
                "parsing and showing a font",
                Box::new(move || {
                    if let Ok(f) = Font::parse(b.clone()) {
                        if let Ok(s) = ShapedSegment::naive_shape("text", f) {
                            let mut doc = victor::pdf::Document::new();
                            let _ = doc.add_page(Size::new(100., 100.)).show_text(&TextRun { segment: &s, font_size: Length::new(10.), origin: point(0., 0.) }).map(|_| ());
                            doc.write_to_pdf_bytes();
                        }
                    }
                }),
            )
        }
        4 => {
            let t = fonts::c08_text(rng, false);
            cx.input(t.clone());
            (
                "laying out plain text",
                Box::new(move || {
                    let style = victor::text_plain::Style {
                        page_size: Size::new(100., 100.),
                        page_margin: Length::new(5.),
                        font: BITSTREAM_VERA_SANS.clone(),
                        font_size: Length::new(10.),
                        line_height: 1.2,
                        justify: true,
                    };
                    let _ = victor::text_plain::layout(&t, &style).map(|d| d.write_to_pdf_bytes());
                }),
            )
        }
        5 | 6 => {
            let image = native::random_image(rng);
            let mut png = Vec::new();
            // (Failures are judged by C22)
            let s = match native::surface(&image) {
                Ok(s) => s,
                Err(_) => return Ok(()),
            };
            if s.write_to_png(&mut png).is_err() {
                return Ok(());
            }
            let broken = native::mutate_png(rng, &png);
            let b = native::behaviour(rng, 20);
            cx.input(format!("{:?}", b));
            (
                "encoding and decoding PNG",
                Box::new(move || {
                    let _ = ImageSurface::read_from_png(&png[..]);
                    let _ = ImageSurface::read_from_png(&broken[..]);
                    let mut seen = native::Seen::default();
                    let _ = catch_unwind(AssertUnwindSafe(|| ImageSurface::read_from_png(native::Stream::new(seed, &b, &mut seen, &png))));
                    let mut seen = native::Seen::default();
                    let _ = catch_unwind(AssertUnwindSafe(|| s.write_to_png(native::Stream::new(seed, &b, &mut seen, &[]))));
                    let _ = ImageSurface::new_argb32(40_000, 1);
                }),
            )
        }
        7 => {
            let by_hand = rng.chance(1, 2);
            let mut d = native::drawn(rng, by_hand);
            d.pages.truncate(2);
            let bytes = match native::write_drawn(&d, by_hand) {
                Ok(b) => b,
                Err(_) => return Ok(()),
            };
            cx.input(bytes.clone());
            let options = |white: bool, for_printing: bool, d: f64| RenderOptions {
                dppx_x: d,
                dppx_y: d / 2.,
                backdrop: if white { lester::Backdrop::White } else { lester::Backdrop::Transparent },
                for_printing,
            };
            let resolution = 0.02 + rng.unit() / 2.;
            (
                "opening a PDF file, its text and its pixels",
                Box::new(move || {
                    if let Ok(doc) = PdfDocument::from_bytes(&bytes) {
                        doc.producer();
                        let pages: Vec<_> = doc.pages().rev().collect();
                        drop(doc);
                        for p in &pages {
                            p.text();
                            let _ = p.render();
                            let _ = p.render_with_options(RenderOptions { dppx_x: 1000., dppx_y: 0.1, ..RenderOptions::default() });
                            for i in 0..4 {
                                let _ = p.render_with_options(options(i & 1 > 0, i & 2 > 0, resolution));
                            }
                        }
                    }
                }),
            )
        }
        _ => {
            let bytes = rng.pick(&[&b""[..], b"nothing", b"%PDF-1.5 and no more"]);
            (
                "opening other bytes as a PDF file",
                Box::new(move || {
                    let r = PdfDocument::from_bytes(bytes);
                    if let Err(e) = &r {
                        e.to_string();
                    }
                }),
            )
        }
    };
    let act = || {
        let _ = guard("", || act());
    };
    for _ in 0..3 {
        act()
    }
    const REPEATS: usize = 6;
    let fonts = what.contains("pixels");
    let mut before = match allocated(fonts) {
        Some(n) => n,
        None => return Ok(()),
    };
    let mut growth = Vec::new();
    for _ in 0..6 {
        for _ in 0..REPEATS {
            act()
        }
        let now = allocated(fonts).unwrap_or(0);
        growth.push(now as i64 - before as i64);
        before = now;
        // One batch without growth is enough
        if growth.last() < Some(&((REPEATS * 4) as i64)) {
            break;
        }
    }
    cx.count(&format!("repeated: {}", what));
    cx.max("batches until one without growth", growth.len() as u64);
    if growth.len() == 6 {
        return fail(format!("memory leak: {} grows the memory that is in use by {:?} bytes each {} times", what, growth, REPEATS));
    }
    Ok(())
}

/// The same case in a build without sanitizer, under Memcheck
fn memcheck(cx: &mut Cx) -> Outcome {
    let plain = match std::env::var("VMON_PLAIN") {
        Ok(p) if std::path::Path::new(&p).exists() => p,
        _ => {
            cx.count("memcheck not available");
            return Ok(());
        }
    };
    let dir = std::path::PathBuf::from(std::env::var("VMON_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string()));
    let xml = dir.join(format!("memcheck-{}.xml", cx.idx));
    let out = Command::new("valgrind")
        .args(["--quiet", "--xml=yes", "--error-limit=no", "--leak-check=no", "--num-callers=30"])
        .arg(format!("--xml-file={}", xml.display()))
        .arg(&plain)
        .args(["case", "C21", &cx.seed.to_string(), if cx.tier == Tier::Quick { "quick" } else { "thorough" }, &cx.idx.to_string()])
        .env_remove("VMON_PLAIN")
        .env("VMON_SLOW", "1")
        .output();
    let text = std::fs::read_to_string(&xml).unwrap_or_default();
    let _ = std::fs::remove_file(&xml);
    let out = match out {
        Ok(o) => o,
        Err(_) => {
            cx.count("memcheck not available");
            return Ok(());
        }
    };
    if !text.contains("</valgrindoutput>") {
        cx.count(&format!("memcheck without an answer ({:?})", out.status.code()));
        return Ok(());
    }
    cx.count("cases under memcheck");
    for error in text.split("<error>").skip(1) {
        let kind = between(error, "<kind>", "</kind>");
        // Where it happened: the first place outside of the C library
        let stack = error.split("</stack>").next().unwrap_or("");
        let place = stack.split("<frame>").skip(1).find(|f| {
            let o = between(f, "<obj>", "</obj>");
            !o.contains("/libc.so") && !o.contains("valgrind") && !o.contains("/ld-linux")
        });
        if let Some(f) = place {
            let ours = between(f, "<obj>", "</obj>").ends_with("/vmon");
            cx.count(if ours { "memcheck reports" } else { "memcheck reports in native libraries" });
            if ours && !kind.starts_with("Leak_") {
                let names: Vec<&str> = stack.split("<fn>").skip(1).map(|f| f.split("</fn>").next().unwrap_or("")).take(12).collect();
                return fail(format!("Memcheck: {} in {}", kind, names.join(" < ")));
            }
        }
    }
    Ok(())
}

fn between<'a>(s: &'a str, a: &str, b: &str) -> &'a str {
    s.split(a).nth(1).and_then(|s| s.split(b).next()).unwrap_or("")
}

fn c21(cx: &mut Cx) {
    if crate::rng::mix(cx.idx) % 24 == 7 && cfg!(feature = "asan") {
        let r = repeat(cx);
        cx.report(r);
        cx.distinct(&cx.idx.to_le_bytes());
        return;
    }
    let what = exercise(cx);
    cx.forgive();
    let checked = std::env::var("VMON_PLAIN").is_ok();
    let every = if cx.tier == Tier::Quick { 24 } else { 64 };
    let first = if cx.tier == Tier::Quick { 16 } else { 4000 };
    // Slow: only few
    if checked && (cx.idx < first || cx.idx % every == 0 && cx.tier == Tier::Thorough) {
        let r = memcheck(cx);
        cx.report(r);
    }
    cx.count(what);
    cx.distinct(&hash(what.as_bytes()).wrapping_add(cx.idx).to_le_bytes());
    let idx = cx.idx;
    cx.sample(|| format!("case {}: {}", idx, what));
}

