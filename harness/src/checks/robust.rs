//! C01 and C19: any input renders, always the same way.
use super::boxes;
use crate::alloc;
use crate::dom::Dom;
use crate::driver::*;
use crate::judge::{self, display};
use crate::rng::{hash, Rng};
use crate::soup;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Barrier};
use victor::dom::Document;
use victor::fonts::BITSTREAM_VERA_SANS;
use victor::primitives::{Length, Size};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C01",
            rule: "a case counts if an input (or a long repetition of a fragment) was parsed, rendered twice to the same bytes, and the file was read back completely",
            assumptions: &[
                "elements nested at most 100 deep in the tree that the parser makes, which is checked with the reference tree",
                "termination, time and memory are judged by a CPU limit of 20 s and a memory limit of 1 GiB per case for inputs up to 64 KiB, and by growth: four times the input takes at most 128 times the CPU time (selectors alone take the number of rules times elements times siblings)",
            ],
            quick_cases: 4_000_000,
            quick_secs: 45,
            thorough_secs: 800,
            cpu_limit: 40,
            mem_cap_mb: 1024,
            run: c01,
            ..Spec::DEFAULT
        },
        Spec {
            id: "C19",
            rule: "a case counts if a document with at least two elements gave the same bytes with every pool, perturbed schedule, repetition and concurrent rendering tried, and at least two distinct schedules were seen",
            assumptions: &[
                "schedules are varied by the number of threads and by yields and sleeps at pseudo-random allocations; schedules are told apart by a digest of which thread allocates when",
                "a document object is rendered by one thread at a time",
            ],
            quick_cases: 4_000_000,
            quick_secs: 45,
            thorough_secs: 800,
            workers: 4,
            pool: 4,
            cpu_limit: 120,
            run: c19,
            ..Spec::DEFAULT
        },
    ]
}

// ---------------------------------------------------------------------------
// C01

fn cpu() -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

pub fn utf8(rng: &Rng) -> String {
    (0..rng.below(40)).map(|_| std::char::from_u32(rng.below(rng.pick(&[0x80, 0x300, 0x3000, 0x11_0000])) as u32).unwrap_or('\u{fffd}')).collect()
}

/// Elements nested nearly as deep as allowed
pub fn tower(rng: &Rng) -> String {
    let mut out = String::from(rng.pick(&["", "<!doctype html>"]));
    let n = 1 + rng.below(4);
    let pattern: Vec<(String, &str)> = (0..n)
        .map(|_| {
            let tag = rng.pick(&["div", "span", "b", "section", "a", "x", "svg", "ul", "font", "p", "table", "td", "em", "ruby"]);
            let mut open = format!("<{}", tag);
            match rng.below(3) {
                0 => soup::attributes(rng, &mut open),
                1 => {
                    open.push_str(" style=\"");
                    open.push_str(&format!("display:{};position:{};", rng.pick(&["block", "inline", "contents", "flow-root"]), rng.pick(&["static", "relative", "absolute"])));
                    soup::css_declarations(rng, &mut open);
                    open = open.replace('"', "&quot;").replacen("&quot;", "\"", 1);
                    open.push('"')
                }
                _ => {}
            }
            open.push('>');
            open.push_str(rng.pick(&["", "", "x", " ", "<i>y</i>", "some words ", "<div></div>"]));
            (open, tag)
        })
        .collect();
    let levels = rng.pick(&[20, 60, 94]);
    let mut closing = Vec::new();
    for i in 0..levels {
        let (open, tag) = &pattern[i % n];
        out.push_str(open);
        closing.push(*tag)
    }
    if rng.chance(1, 2) {
        let after = rng.pick(&["", "x", "<div>y</div>", " "]);
        for t in closing.iter().rev() {
            out.push_str(&format!("</{}>{}", t, after))
        }
    }
    out
}

/// A fragment to repeat
fn fragment(rng: &Rng) -> (String, String) {
    let mut head = String::from("<!doctype html>");
    if rng.chance(1, 2) {
        head.push_str("<style>");
        soup::css_sheet(rng, &mut head);
        head.push_str("</style>")
    }
    let mut frag = match rng.below(6) {
        0 => soup::html(rng, 3),
        1 => {
            let p = boxes::Profile { elements: 4, depth: 3, ..boxes::Profile::base() };
            boxes::document(rng, &p).0.replace("<!doctype html>", "")
        }
        2 => {
            let mut s = String::from("<p>");
            boxes::text(rng, &boxes::Profile::base(), &mut s);
            s + "</p>"
        }
        3 => {
            // All in one attribute or style sheet
            head.push_str(rng.pick(&["<p style='", "<style>", "<p title='", "<p ", "<p class='", "<style>p { ", "<!-- ", "<title>", "<style>a"]));
            rng.pick(&["color:red;", "p{color:red}", "a ", "x=y ", "(", "{", "[", "\\", "/*", "*/", "a>", ":not(", "a,", "1", "@x;", "é", "&amp;", "&", "!important", "\"", "rgb(", "div div "]).into()
        }
        4 => {
            // One long text
            head.push_str("<p>");
            rng.pick(&["word ", "x", " ", "\n", "é", "<b>x</b>", "<br>", "<span> </span>", "<span style='padding:1px'>a b</span> ", "漢", "\u{301}", "\u{200b}", "<!-- -->", "&amp;"]).into()
        }
        _ => {
            let t = rng.pick(soup::TAGS);
            let mut s = format!("<{}", t);
            soup::attributes(rng, &mut s);
            s + rng.pick(&["></", ">x</", "> y </"]) + t + ">"
        }
    };
    if frag.is_empty() {
        frag.push('x')
    }
    (head, frag)
}

/// Parse and render twice, check the file. None if nested too deeply.
fn render_twice(cx: &mut Cx, bytes: &[u8]) -> Result<Option<f64>, Failure> {
    restart_clock();
    let dom = Dom::parse_html(bytes);
    let depth = dom.depth();
    if depth > 100 {
        cx.count("skipped: nested too deeply");
        return Ok(None);
    }
    cx.max("nesting", depth as u64);
    let live = alloc::LIVE.load(Relaxed);
    alloc::PEAK.store(live, Relaxed);
    let start = cpu();
    let doc = guard("parsing", || Document::parse_html(bytes))?;
    let first = guard("rendering", || doc.to_pdf_bytes())?;
    let time = cpu() - start;
    let peak = alloc::PEAK.load(Relaxed) - live;
    let again = guard("rendering again", || doc.to_pdf_bytes())?;
    if first != again {
        return fail("rendering again gave another file");
    }
    let items = display(&first)?;
    cx.max("drawn items of one page", items.len() as u64);
    cx.max("milliseconds", (time * 1000.) as u64);
    cx.max("input bytes", bytes.len() as u64);
    cx.max("peak bytes", peak as u64);
    if peak > (64 << 20) + 4000 * bytes.len() {
        return fail(format!("{} bytes allocated for an input of {} bytes", peak, bytes.len()));
    }
    if time > 20. {
        return fail(format!("{:.1} s for an input of {} bytes", time, bytes.len()));
    }
    Ok(Some(time))
}

fn c01(cx: &mut Cx) {
    let rng = cx.rng.clone();
    let kind = rng.below(16);
    let o = (|| {
        if kind == 0 {
            // Growth
            let (head, frag) = fragment(&rng);
            let size = rng.pick(&[4_000, 60_000, 60_000]);
            // More siblings than the stack has room for frames
            let simple = frag.len() < 12 && !frag.contains("style") && !head.contains("style");
            let size = if simple && rng.chance(1, 3) { rng.pick(&[250_000, 250_000, 1_000_000]) } else { size };
            // Rules times elements times siblings
            let size = if frag.contains("<style") { size.min(16_000) } else { size };
            let make = |size: usize| {
                let n = (size / frag.len()).max(1);
                let mut s = head.clone();
                for _ in 0..n {
                    s.push_str(&frag)
                }
                s
            };
            let large = make(size);
            cx.input(large.as_bytes());
            let time = match render_twice(cx, large.as_bytes())? {
                Some(t) => t,
                None => return Ok(()),
            };
            cx.count("repetitions of a fragment");
            cx.distinct(large.as_bytes());
            if time > 2. {
                let small = make(size / 4);
                let mut least: f64 = time;
                let mut most: f64 = 0.;
                for _ in 0..3 {
                    most = render_twice(cx, small.as_bytes())?.unwrap_or(time).max(most);
                    least = render_twice(cx, large.as_bytes())?.unwrap_or(0.).min(least)
                }
                if least > 128. * most {
                    return fail(format!("{:.2} s for {} bytes, but {:.2} s for {} bytes", most, small.len(), least, large.len()));
                }
            }
            return Ok(());
        }
        let (what, bytes): (&str, Vec<u8>) = match kind {
            1 => ("random bytes", { let n = rng.below(80); rng.bytes(n) }),
            2 => ("random characters", utf8(&rng).into_bytes()),
            3 | 4 => ("towers", tower(&rng).into_bytes()),
            5..=7 => {
                let mut b = soup::html(&rng, 30).into_bytes();
                soup::mutate(&rng, &mut b);
                ("mutated soup", b)
            }
            8 => {
                let mut b = soup::boxes(&rng).into_bytes();
                soup::mutate(&rng, &mut b);
                ("mutated boxes", b)
            }
            9 => ("boxes", soup::boxes(&rng).into_bytes()),
            10 | 11 => ("documents of the layout checks", boxes::document(&rng, &boxes::Profile::base()).0.into_bytes()),
            12 => {
                let mut b = tower(&rng).into_bytes();
                soup::mutate(&rng, &mut b);
                ("mutated towers", b)
            }
            _ => {
                let n = rng.pick(&[3, 20, 60]);
                ("soup", soup::html(&rng, n).into_bytes())
            }
        };
        cx.input(bytes.clone());
        if render_twice(cx, &bytes)?.is_some() {
            cx.count(what);
            cx.distinct(&bytes);
            if bytes.len() < 500 {
                cx.sample(|| format!("{} → rendered twice to the same file", String::from_utf8_lossy(&bytes)))
            }
        }
        Ok(())
    })();
    cx.report(o)
}

// ---------------------------------------------------------------------------
// C19

struct Pools(Vec<(usize, rayon::ThreadPool)>);

fn pools() -> &'static Pools {
    static POOLS: std::sync::OnceLock<Pools> = std::sync::OnceLock::new();
    POOLS.get_or_init(|| Pools([1, 2, 3, 8].iter().map(|&n| (n, rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap())).collect()))
}

/// Wide enough for parallel layout, with everything that depends on order
fn wide(rng: &Rng) -> String {
    let mut out = String::from("<!doctype html><style>.a{position:absolute;background:#f003}.r{position:relative;left:3px}.i{display:inline}.c{display:contents}div{background:#00f2}</style>");
    fn walk(rng: &Rng, depth: usize, budget: &mut usize, out: &mut String) {
        for _ in 0..rng.pick(&[1, 2, 4, 12, 40]) {
            if *budget == 0 {
                return;
            }
            *budget -= 1;
            let class = rng.pick(&["", "", "a", "r", "i", "c", "a i", "r i"]);
            out.push_str(&format!("<div class='{}' style='margin:{}px;padding:{}px;left:{}%'>", class, rng.range(-4, 12), rng.below(5), rng.below(50)));
            if depth > 0 && rng.chance(1, 2) {
                walk(rng, depth - 1, budget, out)
            }
            if rng.chance(1, 2) {
                boxes::text(rng, &boxes::Profile::base(), out)
            }
            out.push_str("</div>")
        }
    }
    let mut budget = rng.pick(&[20, 80, 200]);
    while budget > 0 {
        walk(rng, 6, &mut budget, &mut out)
    }
    out
}

pub fn source(rng: &Rng) -> String {
    loop {
        let s = match rng.below(4) {
            0 => soup::html(rng, 30),
            1 => soup::boxes(rng),
            2 => boxes::document(rng, &boxes::Profile { elements: 60, ..boxes::Profile::base() }).0,
            _ => wide(rng),
        };
        if Dom::parse_html(s.as_bytes()).depth() <= 100 {
            return s;
        }
    }
}

fn first_difference(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("{} bytes instead of {}", b.len(), a.len());
    }
    let at = a.iter().zip(b).position(|(a, b)| a != b).unwrap_or(0);
    format!("differs at byte {}", at)
}

fn same(what: &str, a: &[u8], b: &[u8]) -> Outcome {
    if a != b {
        return fail(format!("{}: {}", what, first_difference(a, b)));
    }
    Ok(())
}

/// The first renderings in a process, all at once
fn together(cx: &mut Cx, sources: &[String]) -> Outcome {
    let barrier = Arc::new(Barrier::new(sources.len()));
    let threads: Vec<_> = sources
        .iter()
        .cloned()
        .map(|s| {
            let barrier = barrier.clone();
            std::thread::spawn(move || {
                barrier.wait();
                guard("rendering concurrently", || {
                    let doc = Document::parse_html(s.as_bytes());
                    (doc.to_pdf_bytes(), doc.to_pdf_bytes())
                })
            })
        })
        .collect();
    let results: Vec<_> = threads.into_iter().map(|t| t.join().unwrap()).collect();
    for (s, r) in sources.iter().zip(results) {
        let (a, b) = r?;
        let alone = pools().0[0].1.install(|| guard("rendering", || Document::parse_html(s.as_bytes()).to_pdf_bytes()))?;
        for x in &[a, b] {
            if *x != alone {
                cx.input(s.as_bytes());
                same("rendered at the same time as other documents", &alone, x)?
            }
        }
        cx.count("concurrent renderings of other documents");
    }
    Ok(())
}

fn c19(cx: &mut Cx) {
    static FIRST: std::sync::Once = std::sync::Once::new();
    let rng = cx.rng.clone();
    let mut o = Ok(());
    FIRST.call_once(|| {
        cx.count("processes whose first renderings were concurrent");
        let sources: Vec<String> = (0..8).map(|_| source(&rng)).collect();
        cx.input(sources.join("\n=====\n"));
        o = together(cx, &sources)
    });
    if o.is_ok() {
        o = c19_case(cx, &rng)
    }
    alloc::YIELD_EVERY.store(0, Relaxed);
    cx.report(o)
}

fn c19_case(cx: &mut Cx, rng: &Rng) -> Outcome {
    let s = source(rng);
    cx.input(s.as_bytes());
    let bytes = s.as_bytes();
    let parse = || guard("parsing", || Document::parse_html(bytes));
    let base = pools().0[0].1.install(|| guard("rendering", || Document::parse_html(bytes).to_pdf_bytes()))?;
    judge::display(&base)?;
    let mut schedules = std::collections::HashSet::new();
    let kept = parse()?;
    for round in 0..rng.pick(&[1, 3, 8]) {
        let (n, pool) = {
            let p = &pools().0[rng.below(4)];
            (p.0, &p.1)
        };
        alloc::YIELD_SALT.store(rng.next(), Relaxed);
        alloc::SCHEDULE.store(0, Relaxed);
        let before = alloc::YIELDS.load(Relaxed);
        alloc::YIELD_EVERY.store(rng.pick(&[7, 30, 100, 1000]), Relaxed);
        let reparse = rng.chance(1, 2);
        let twice = rng.chance(1, 3);
        let r = pool.install(|| {
            guard("rendering with a perturbed schedule", || {
                if reparse {
                    let d = Document::parse_html(bytes);
                    if twice {
                        d.to_pdf_bytes();
                    }
                    d.to_pdf_bytes()
                } else {
                    kept.to_pdf_bytes()
                }
            })
        });
        alloc::YIELD_EVERY.store(0, Relaxed);
        cx.add("yields", alloc::YIELDS.load(Relaxed) - before);
        schedules.insert((n, alloc::SCHEDULE.load(Relaxed)));
        same(&format!("{} threads, round {}, {}", n, round, if reparse { "parsed again" } else { "same document" }), &base, &r?)?;
        cx.count(&format!("renderings with {} threads", n));
    }
    cx.add("schedules told apart", schedules.len() as u64);
    if rng.chance(1, 4) {
        // The default pool, many documents at once, plain text layout next to them
        let mut all: Vec<String> = (0..3).map(|_| source(rng)).collect();
        all.push(s.clone());
        all.push(s.clone());
        let every = rng.pick(&[0, 50]);
        alloc::YIELD_EVERY.store(every, Relaxed);
        let other = s.clone();
        let text = std::thread::spawn(move || {
            let style = victor::text_plain::Style {
                page_size: Size::new(300., 300.),
                page_margin: Length::new(20.),
                font_size: Length::new(10.),
                font: BITSTREAM_VERA_SANS.clone(),
                line_height: 1.2,
                justify: false,
            };
            guard("text layout", || victor::text_plain::layout(&other, &style).map(|d| d.write_to_pdf_bytes().len()).is_ok())
        });
        let r = together(cx, &all);
        alloc::YIELD_EVERY.store(0, Relaxed);
        let t = text.join().unwrap();
        r?;
        t?;
    }
    if s.matches('<').count() > 3 && schedules.len() >= 2 {
        cx.distinct(&hash(bytes).to_le_bytes());
        if s.len() < 600 {
            cx.sample(|| format!("{} → the same {} bytes in {} schedules", s, base.len(), schedules.len()))
        }
    }
    Ok(())
}
