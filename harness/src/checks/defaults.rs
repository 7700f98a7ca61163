//! C30: the display that HTML gives to its elements by default.
use crate::css::*;
use crate::dom::Dom;
use crate::driver::*;
use crate::gen::{self, Print};
use crate::judge::*;
use crate::rng::Rng;

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C30",
        rule: "a case counts if what is painted was compared for a document in which at least two elements have a default display other than inline",
        assumptions: &["elements whose default display in HTML is not implemented (headings, lists, tables, sections, …) are not used; a style sheet of the user agent that applied to elements of other namespaces would be accepted as well"],
        quick_cases: 4_000_000,
        quick_secs: 40,
        thorough_secs: 700,
        run: c30,
        ..Spec::DEFAULT
    }]
}

const HIDDEN: &[&str] = &["area", "base", "basefont", "datalist", "head", "link", "meta", "noembed", "noframes", "param", "rp", "script", "source", "style", "template", "track", "title"];
const BLOCKS: &[&str] = &["address", "blockquote", "center", "div", "figure", "figcaption", "footer", "form", "header", "hr", "legend", "listing", "main", "p", "plaintext", "pre", "xmp", "dialog"];
const INLINE: &[&str] = &["span", "a", "b", "i", "em", "strong", "code", "small", "u", "s", "q", "cite", "abbr", "kbd", "samp", "var", "dfn", "time", "data", "mark", "bdi", "tt", "big", "font", "label", "acronym", "ins", "del", "x-a", "titles", "divs", "unknown"];
const VOID: &[&str] = &["area", "base", "basefont", "link", "meta", "param", "source", "track", "hr", "embed", "input"];
const RAW: &[&str] = &["noembed", "noframes", "script", "style", "title", "xmp", "plaintext"];

struct Out<'a> {
    rng: &'a Rng,
    texts: Texts,
    html: String,
    budget: usize,
}

fn case(rng: &Rng, s: &str) -> String {
    if rng.chance(1, 12) {
        s.to_ascii_uppercase()
    } else {
        s.into()
    }
}

fn attributes(o: &mut Out, tag: &str) {
    let rng = o.rng;
    let mut all = Vec::new();
    let mut decls = Vec::new();
    let mut texts = Vec::new();
    let mut add = |lh: usize, v: V| {
        let (d, t) = gen::longhand(Print::plain(rng), lh, v, false);
        decls.push(d);
        texts.push(t)
    };
    if rng.chance(3, 4) {
        add(BACKGROUND, gen::value(rng, BACKGROUND))
    }
    if rng.chance(1, 8) {
        add(PADDING + rng.below(4), V::L(Lp::Px(rng.below(20) as f64)))
    }
    if rng.chance(1, 8) {
        add(MARGIN + rng.below(4), V::L(Lp::Px(rng.range(-4, 20) as f64)))
    }
    if rng.chance(1, 12) {
        add(DISPLAY, V::K(rng.pick(&["block", "inline", "none", "contents", "flow-root"])))
    }
    if !decls.is_empty() {
        let text = texts.join(";");
        all.push(format!("style=\"{}\"", text.replace('"', "&quot;")));
        o.texts.attributes.insert(text, decls);
    }
    let hidden = if tag == "embed" { 3 } else { 12 };
    if rng.chance(1, hidden) {
        all.push(case(rng, rng.pick(&["hidden", "hidden=''", "hidden=hidden", "hidden=until-found", "hidden=false", "hidde", "hiddenn", "data-hidden"])))
    }
    if tag == "input" || rng.chance(1, 24) {
        all.push(format!("{}={}", case(rng, "type"), rng.pick(&["hidden", "hidden", "HIDDEN", "Hidden", "hidde", "'hidden '", "text", "''"])).replacen("'hidden '", "\"hidden \"", 1))
    }
    if tag == "dialog" {
        all.push("open".into())
    }
    if tag == "script" {
        all.push("data-x=1".into())
    }
    if tag == "style" {
        // Not a style sheet, only an element
        all.retain(|a| !a.to_ascii_lowercase().starts_with("type"));
        all.push("type=text/plain".into())
    }
    rng.shuffle(&mut all);
    for a in all {
        o.html.push(' ');
        o.html.push_str(&a)
    }
}

fn words(o: &mut Out) {
    let rng = o.rng;
    let s = rng.pick(&["x", "one two", " a", "b ", " ", "\n", "words", "é "]);
    o.html.push_str(s)
}

fn element(o: &mut Out, depth: usize) {
    let rng = o.rng;
    let tag = match rng.below(10) {
        0..=3 => rng.pick(HIDDEN),
        4..=6 => rng.pick(BLOCKS),
        7 => rng.pick(&["embed", "input"]),
        _ => rng.pick(INLINE),
    };
    // The rest of the document is its text
    let tag = if tag == "plaintext" && !rng.chance(1, 4) { "pre" } else { tag };
    o.html.push('<');
    let name = case(rng, tag);
    o.html.push_str(&name);
    attributes(o, tag);
    o.html.push('>');
    if VOID.contains(&tag) {
        return;
    }
    if RAW.contains(&tag) {
        words(o);
        if rng.chance(1, 3) {
            o.html.push_str("<b>y</b>")
        }
    } else {
        content(o, depth)
    }
    if tag == "plaintext" {
        o.budget = 0
    } else if !rng.chance(1, 30) || RAW.contains(&tag) {
        o.html.push_str(&format!("</{}>", tag))
    }
}

fn content(o: &mut Out, depth: usize) {
    let n = o.rng.pick(&[0, 1, 1, 2, 3, 5]);
    for _ in 0..n {
        if o.rng.chance(1, 2) {
            words(o)
        }
        if depth == 0 || o.budget == 0 {
            continue;
        }
        o.budget -= 1;
        element(o, depth - 1)
    }
    if o.rng.chance(1, 2) {
        words(o)
    }
}

/// A style sheet of the author that overrides some defaults
fn sheet(o: &mut Out) {
    let rng = o.rng;
    let mut rules = Vec::new();
    let mut text = String::new();
    for _ in 0..rng.pick(&[0, 1, 1, 2, 4]) {
        let (selector, name) = match rng.below(8) {
            0 => (Simple::Universal, "*"),
            1 => (Simple::Attr { name: "hidden".into(), op: Op::Exists, value: "".into(), insensitive: false }, "[hidden]"),
            2 | 3 => {
                let t = rng.pick(HIDDEN);
                (Simple::Type(t.into()), t)
            }
            4 | 5 => {
                let t = rng.pick(BLOCKS);
                (Simple::Type(t.into()), t)
            }
            _ => {
                let t = rng.pick(&["html", "body", "body", "input", "embed", "span", "b"]);
                (Simple::Type(t.into()), t)
            }
        };
        let mut decls = Vec::new();
        let mut texts = Vec::new();
        for _ in 0..1 + rng.below(2) {
            let important = rng.chance(1, 4);
            let (lh, v) = match rng.below(5) {
                0 => (MARGIN + rng.below(4), V::L(Lp::Px(rng.below(20) as f64))),
                1 => (BACKGROUND, gen::value(rng, BACKGROUND)),
                2 => (rng.pick(&[DISPLAY, DISPLAY, MARGIN, WIDTH, HEIGHT]), V::W(rng.pick(&[Wide::Inherit, Wide::Initial, Wide::Unset]))),
                _ => (DISPLAY, V::K(rng.pick(&["block", "inline", "none", "contents", "flow-root"]))),
            };
            let (d, t) = gen::longhand(Print::plain(rng), lh, v, important);
            decls.push(d);
            texts.push(t)
        }
        text.push_str(&format!("{} {{ {} }}\n", name, texts.join("; ")));
        rules.push(Rule { selectors: vec![Selector(vec![(' ', vec![selector])])], decls })
    }
    if text.is_empty() {
        return;
    }
    o.html.push_str(&format!("<style>{}</style>", text));
    o.texts.sheet(&text, rules)
}

fn c30(cx: &mut Cx) {
    let rng = cx.rng.clone();
    let mut o = Out { rng: &rng, texts: Texts::default(), html: String::new(), budget: rng.pick(&[3, 8, 20, 40]) };
    if rng.chance(3, 4) {
        o.html.push_str("<!doctype html>")
    }
    if rng.chance(1, 2) {
        o.html.push_str("<html");
        attributes(&mut o, "html");
        o.html.push('>')
    }
    if rng.chance(1, 3) {
        o.html.push_str("<head");
        attributes(&mut o, "head");
        o.html.push_str("><title>not shown</title>")
    }
    if rng.chance(1, 2) {
        sheet(&mut o)
    }
    if rng.chance(1, 2) {
        o.html.push_str("<body");
        attributes(&mut o, "body");
        o.html.push('>')
    }
    while o.budget > 0 {
        o.budget -= 1;
        let depth = rng.pick(&[0, 1, 3, 6]);
        element(&mut o, depth)
    }
    let result = (|| {
        let Out { texts, html, .. } = o;
        cx.input(html.as_bytes());
        let dom = Dom::parse_html(html.as_bytes());
        if dom.depth() > 90 {
            cx.count("skipped: nested too deeply");
            return Ok(());
        }
        let pdf = render_html(html.as_bytes())?;
        let author = match author(&dom, &texts) {
            Some(a) => a,
            None => return fail("harness: style sheet not found"),
        };
        let r = reference(&dom, &author);
        if judge(cx, &r, &pdf)? {
            let mut special = 0;
            for n in dom.elements() {
                if let Some(t) = HIDDEN.iter().chain(BLOCKS).chain(&["embed", "input"]).find(|t| dom.is_html(n, t)) {
                    cx.count(&format!("{} elements", t));
                    special += 1
                }
                if dom.attr(n, "hidden").is_some() {
                    cx.count("elements with a hidden attribute")
                }
            }
            if special > 1 {
                cx.distinct(html.as_bytes());
                cx.sample(|| format!("{} → {} marks as expected", html, r.marks.len()))
            }
        }
        Ok(())
    })();
    cx.report(result)
}
