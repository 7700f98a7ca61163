//! C14 to C18: box generation, layout and painting against the reference.
use crate::css::*;
use crate::dom::Dom;
use crate::driver::*;
use crate::gen::{self, Print};
use crate::judge::*;
use crate::rng::Rng;

const FRESH: &[&str] = &[
    "the reference layout follows CSS 2.1 for the subset that is supported; documents in which a known approximation matters are generated rarely, and counted as undecided",
];

pub fn specs() -> Vec<Spec> {
    let base = || Spec { assumptions: FRESH, quick_cases: 4_000_000, quick_secs: 45, thorough_secs: 780, run: c14, ..Spec::DEFAULT };
    vec![
        Spec { id: "C14", rule: "a case counts if at least one glyph and one nested element were compared with the reference", run: c14, ..base() },
        Spec { id: "C15", rule: "a case counts if at least three block boxes were compared with the reference", run: c15, ..base() },
        Spec { id: "C16", rule: "a case counts if at least one absolutely positioned box was laid out and compared", run: c16, ..base() },
        Spec { id: "C17", rule: "a case counts if at least two lines were laid out and compared", run: c17, ..base() },
        Spec { id: "C18", rule: "a case counts if at least two rectangles, or a rectangle and a glyph, were compared", run: c18, ..base() },
    ]
}

#[derive(Clone)]
pub struct Profile {
    /// block, inline, flow-root, contents, none
    pub display: [u32; 5],
    /// static, relative, absolute
    pub position: [u32; 3],
    /// Chances out of 16
    pub offsets: u32,
    pub width: u32,
    pub height: u32,
    pub margin: u32,
    pub padding: u32,
    pub border: u32,
    pub background: u32,
    pub color: u32,
    pub font_size: u32,
    pub text: u32,
    /// Words in a text at most
    pub words: usize,
    /// Chance of extra white space
    pub spaces: u32,
    pub auto_margins: bool,
    pub elements: usize,
    pub depth: usize,
    /// Vertical edges on inlines
    pub inline_edges: bool,
}

impl Profile {
    pub fn base() -> Profile {
        Profile {
            display: [6, 6, 1, 1, 0],
            position: [10, 1, 1],
            offsets: 4,
            width: 4,
            height: 3,
            margin: 4,
            padding: 3,
            border: 2,
            background: 10,
            color: 3,
            font_size: 2,
            text: 6,
            words: 4,
            spaces: 4,
            auto_margins: true,
            elements: 24,
            depth: 7,
            inline_edges: true,
        }
    }
}

pub const LETTERS: &[&str] = &["a", "b", "c", "i", "m", "W", "x", "é", "ß", "fi", "1", ".", "Q", "&amp;", "&#65;", "\u{a0}", "漢", "😀", "-", "\u{200b}", "\u{301}", "&lt;", "ü", "l", "."];

fn word(rng: &Rng) -> String {
    let n = 1 + rng.below(rng.pick(&[3, 6, 12]));
    (0..n).map(|_| if rng.chance(3, 4) { LETTERS[rng.below(7)] } else { rng.pick(LETTERS) }).collect()
}

fn spaces(rng: &Rng, p: &Profile) -> &'static str {
    if rng.chance(p.spaces, 16) {
        if rng.chance(1, 40) {
            return "\n                                                                                          \t                                                 ";
        }
        rng.pick(&["  ", "\n", "\t", " \n ", "&#32;", "\r\n", " &#9; ", "&#10;&#13;", " \x0c", "\x0c", " <!-- --> "])
    } else {
        " "
    }
}

pub fn text(rng: &Rng, p: &Profile, out: &mut String) {
    if rng.chance(p.spaces, 24) {
        out.push_str(spaces(rng, p));
        return;
    }
    let n = 1 + rng.below(p.words);
    if rng.chance(1, 3) {
        out.push_str(spaces(rng, p))
    }
    for i in 0..n {
        if i > 0 {
            out.push_str(spaces(rng, p))
        }
        out.push_str(&word(rng));
        if rng.chance(1, 24) {
            out.push_str("<!-- c -->")
        }
    }
    if rng.chance(1, 3) {
        out.push_str(spaces(rng, p))
    }
}

pub fn style(rng: &Rng, p: &Profile, tag: &str) -> (Vec<Decl>, String) {
    let root = tag == "html" || tag == "body";
    let print = Print::plain(rng);
    let mut decls = Vec::new();
    let mut texts = Vec::new();
    let mut add = |lh: usize, v: V| {
        let (d, t) = gen::longhand(print, lh, v, false);
        decls.push(d);
        texts.push(t)
    };
    let on = |n: u32| rng.chance(n, 16);
    let display = ["block", "inline", "flow-root", "contents", "none"][rng.weighted(&p.display)];
    let position = ["static", "relative", "absolute"][rng.weighted(&p.position)];
    if !root {
        add(DISPLAY, V::K(display))
    } else if rng.chance(1, 10) {
        // The root element is a block whatever it says
        add(DISPLAY, V::K(rng.pick(if tag == "html" { &["block", "flow-root", "contents", "inline"] } else { &["block", "block", "flow-root", "contents"] })))
    }
    if position != "static" && (!root || rng.chance(1, 4)) {
        add(POSITION, V::K(position))
    }
    let inline = display == "inline" && position != "absolute" && !root;
    if position != "static" {
        for i in 0..4 {
            if rng.chance(p.offsets, 8) {
                add(OFFSET + i, gen::value(rng, OFFSET))
            }
        }
    } else if on(1) {
        add(OFFSET + rng.below(4), gen::value(rng, OFFSET))
    }
    if on(p.width) {
        add(WIDTH, gen::value(rng, WIDTH))
    }
    if on(p.height) {
        add(HEIGHT, gen::value(rng, HEIGHT))
    }
    for i in 0..4 {
        let edges = !inline || p.inline_edges || i % 2 == 1;
        if on(p.margin) && edges {
            add(MARGIN + i, V::L(gen::lp(rng, -20, 40, p.auto_margins)))
        }
        if on(p.padding) && edges {
            add(PADDING + i, gen::value(rng, PADDING))
        }
        if on(p.border) && edges {
            add(BORDER_STYLE + i, gen::value(rng, BORDER_STYLE));
            if rng.chance(3, 4) {
                add(BORDER_WIDTH + i, gen::value(rng, BORDER_WIDTH))
            }
        }
    }
    // Over-constrained boxes, with margins to solve, are too rare otherwise
    if p.auto_margins && p.width > 0 && !inline && rng.chance(1, 6) {
        for (size, start, end) in [(WIDTH, 3, 1), (HEIGHT, 0, 2)] {
            if size == HEIGHT && position != "absolute" || rng.chance(1, 4) {
                continue;
            }
            add(size, V::L(gen::lp(rng, 0, 700, false)));
            for i in [start, end] {
                if position == "absolute" {
                    add(OFFSET + i, V::L(gen::lp(rng, -40, 300, false)))
                }
                if rng.chance(2, 3) {
                    add(MARGIN + i, V::L(Lp::Auto))
                }
            }
        }
    }
    if on(p.background) {
        add(BACKGROUND, gen::value(rng, BACKGROUND))
    }
    if on(p.color) {
        add(COLOR, gen::value(rng, COLOR))
    }
    if on(p.font_size) {
        add(FONT_SIZE, gen::value(rng, FONT_SIZE))
    }
    (decls, texts.join(";"))
}

fn open(rng: &Rng, p: &Profile, tag: &str, texts: &mut Texts, out: &mut String) {
    let (decls, text) = style(rng, p, tag);
    out.push_str(&format!("<{} style=\"{}\">", tag, attr_escape(&text)));
    texts.attributes.insert(text, decls);
}

pub fn document(rng: &Rng, p: &Profile) -> (String, Texts) {
    let mut texts = Texts::default();
    let mut out = String::new();
    if rng.chance(3, 4) {
        out.push_str("<!doctype html>")
    }
    if rng.chance(1, 4) {
        open(rng, p, "html", &mut texts, &mut out)
    }
    if rng.chance(1, 3) {
        out.push_str("<title>not shown</title><script>not shown either</script>")
    }
    if rng.chance(1, 3) {
        open(rng, p, "body", &mut texts, &mut out)
    }
    let mut budget = 1 + rng.below(p.elements);
    let depth = 1 + rng.below(p.depth);
    children(rng, p, depth, &mut budget, &mut texts, &mut out);
    (out, texts)
}

fn children(rng: &Rng, p: &Profile, depth: usize, budget: &mut usize, texts: &mut Texts, out: &mut String) {
    let mut n = rng.pick(&[1, 1, 2, 2, 3, 4, 6]);
    if rng.chance(1, 200) {
        // Many siblings
        n = 12 + rng.below(if rng.chance(1, 6) { 340 } else { 40 });
        *budget += n + n / 2;
    }
    for _ in 0..n {
        if rng.chance(p.text, 16) {
            text(rng, p, out)
        }
        if *budget == 0 {
            break;
        }
        *budget -= 1;
        let tag = rng.pick(&["div", "span", "x-a", "div", "span"]);
        open(rng, p, tag, texts, out);
        if depth > 0 && !rng.chance(1, 6) {
            children(rng, p, depth - 1, budget, texts, out)
        }
        out.push_str(&format!("</{}>", tag));
        if rng.chance(1, 12) {
            out.push_str("<!-- comment -->")
        }
    }
    if rng.chance(p.text, 16) {
        text(rng, p, out)
    }
}

fn run(cx: &mut Cx, p: &Profile, counts: impl FnOnce(&Reference) -> bool) -> Outcome {
    let (html, texts) = document(&cx.rng, p);
    cx.input(html.as_bytes());
    let pdf = render_html(html.as_bytes())?;
    let dom = Dom::parse_html(html.as_bytes());
    let author = match author(&dom, &texts) {
        Some(a) => a,
        None => return fail("harness: style sheet not found"),
    };
    let r = reference(&dom, &author);
    if judge(cx, &r, &pdf)? {
        let s = &r.stats;
        cx.add("block boxes", s.blocks);
        cx.add("lines", s.lines);
        cx.add("lines broken", s.broken_lines);
        cx.add("adjoining margins collapsed", s.margins_collapsed);
        cx.add("boxes collapsed through", s.collapsed_through);
        cx.add("absolutely positioned boxes", s.absolutes);
        cx.add("relatively positioned boxes", s.relatives);
        cx.add("inline boxes split by blocks", s.split_inlines);
        cx.add("display:contents elements", s.contents_elements);
        cx.add("hidden elements", s.hidden_elements);
        if counts(&r) {
            cx.distinct(html.as_bytes());
            let marks = r.marks.len();
            cx.sample(|| format!("{} → {} marks as expected", html, marks))
        }
    }
    Ok(())
}

fn glyphs(r: &Reference) -> usize {
    r.marks.iter().filter(|m| matches!(m.flat, Flat::Glyph { .. })).count()
}

fn vary(cx: &Cx, mut p: Profile) -> Profile {
    // Concentrate some cases on few features
    let rng = &cx.rng;
    if rng.chance(1, 3) {
        p.elements = 6
    }
    for x in [&mut p.padding, &mut p.border, &mut p.margin, &mut p.width, &mut p.height, &mut p.font_size].iter_mut() {
        if rng.chance(1, 3) {
            **x = 0
        } else if rng.chance(1, 4) {
            **x *= 2
        }
    }
    p
}

fn c14(cx: &mut Cx) {
    let p = Profile {
        display: *[[6, 8, 1, 3, 2], [0, 8, 0, 3, 1], [3, 8, 0, 0, 0], [8, 3, 1, 2, 1]].get(cx.rng.below(4)).unwrap(),
        position: *[[1, 0, 0], [8, 1, 1]].get(cx.rng.below(2)).unwrap(),
        width: 0,
        height: 0,
        margin: 0,
        padding: 0,
        border: 0,
        background: 3,
        text: 9,
        words: 3,
        spaces: 9,
        font_size: 1,
        ..Profile::base()
    };
    let o = run(cx, &p, |r| glyphs(r) > 0 && r.cascade.computed.len() > 3);
    cx.report(o)
}

fn c15(cx: &mut Cx) {
    let p = Profile {
        display: *[[10, 0, 1, 0, 0], [10, 1, 2, 1, 1]].get(cx.rng.below(2)).unwrap(),
        position: *[[1, 0, 0], [6, 1, 0]].get(cx.rng.below(2)).unwrap(),
        background: 14,
        text: *[0, 2, 5].get(cx.rng.below(3)).unwrap(),
        words: 2,
        spaces: 2,
        margin: 6,
        ..Profile::base()
    };
    let p = vary(cx, p);
    let o = run(cx, &p, |r| r.stats.blocks >= 5);
    cx.report(o)
}

fn c16(cx: &mut Cx) {
    let p = Profile {
        display: *[[10, 0, 1, 0, 0], [10, 4, 1, 1, 0]].get(cx.rng.below(2)).unwrap(),
        position: [3, 2, 4],
        background: 14,
        text: *[0, 2, 5].get(cx.rng.below(3)).unwrap(),
        words: 2,
        spaces: 2,
        width: 7,
        height: 7,
        margin: 5,
        elements: 12,
        inline_edges: false,
        ..Profile::base()
    };
    let p = vary(cx, p);
    let o = run(cx, &p, |r| r.stats.absolutes > 0);
    cx.report(o)
}

fn c17(cx: &mut Cx) {
    let p = Profile {
        display: *[[2, 10, 0, 0, 0], [4, 10, 0, 1, 0]].get(cx.rng.below(2)).unwrap(),
        position: *[[1, 0, 0], [6, 1, 0]].get(cx.rng.below(2)).unwrap(),
        background: 8,
        text: 11,
        words: cx.rng.pick(&[3, 8, 20]),
        spaces: 2,
        width: 5,
        height: 0,
        margin: 3,
        padding: 3,
        border: 2,
        font_size: 4,
        elements: 16,
        inline_edges: cx.rng.chance(1, 2),
        ..Profile::base()
    };
    let p = vary(cx, p);
    let o = run(cx, &p, |r| r.stats.lines >= 2 && glyphs(r) > 0);
    cx.report(o)
}

fn c18(cx: &mut Cx) {
    let p = Profile {
        display: [8, 4, 1, 1, 0],
        position: [4, 2, 2],
        background: 13,
        color: 8,
        text: 7,
        words: 2,
        height: 6,
        width: 6,
        elements: 16,
        inline_edges: false,
        ..Profile::base()
    };
    let p = vary(cx, p);
    let o = run(cx, &p, |r| r.marks.len() >= 2 && r.marks.iter().any(|m| matches!(m.flat, Flat::Rect { .. })));
    cx.report(o)
}

