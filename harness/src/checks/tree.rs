//! C09, C10 and C27: document trees, seen through what is painted and through the list of links.
use super::boxes;
use crate::css::*;
use crate::dom::{Attr, Data, Dom, HTML, MATHML, SVG};
use crate::driver::*;
use crate::gen::{self, Print};
use crate::judge::*;
use crate::rng::Rng;
use crate::soup;
use std::rc::Rc;
use victor::dom::Document;

pub fn specs() -> Vec<Spec> {
    let base = || Spec { quick_cases: 4_000_000, quick_secs: 45, thorough_secs: 780, run: c09, ..Spec::DEFAULT };
    vec![
        Spec {
            id: "C09",
            rule: "a case counts if the parser did something other than appending (foster parenting, moving, removing, merging attributes), and the whole painting was as expected for the reference tree",
            assumptions: &[
                "tokenization and tree construction are those of the html5ever dependency; the reference has its own tree sink, written for DOM semantics over child lists",
                "trees are observed through painting: every tag has a colour, every attribute used changes geometry, nesting shows as indentation, all text is painted",
            ],
            run: c09,
            ..base()
        },
        Spec {
            id: "C10",
            rule: "a case counts if a well-formed document with at least three elements was painted as expected, or a malformed one reported as an error",
            assumptions: &["documents are generated as trees and printed, so that the reference parses no XML", "namespace-well-formedness beyond unbound prefixes is not exercised"],
            run: c10,
            ..base()
        },
        Spec { id: "C27", rule: "a case counts if the document has at least two link elements, and the list was as expected", assumptions: &["HTML trees are those of html5ever with the reference tree sink"], run: c27, ..base() },
    ]
}

// ---------------------------------------------------------------------------
// C09

const FOREIGN: &[&str] = &["a", "desc", "title", "font", "x", "style", "script", "mi", "mo", "image", "foreignObject", "annotation-xml", "g", "link"];

/// A style sheet that shows the whole tree
fn showing(font_size: f64) -> (String, Sheet) {
    let rng = Rng::new(1, 0, 0);
    let p = Print::plain(&rng);
    let mut text = String::new();
    let mut sheet = Vec::new();
    let mut add = |selectors: Vec<Vec<Simple>>, set: &[(usize, V)], important: bool| {
        let selectors: Vec<Selector> = selectors.into_iter().map(|c| Selector(vec![(' ', c)])).collect();
        let (decls, t): (Vec<Decl>, Vec<String>) = set.iter().map(|&(lh, v)| gen::longhand(p, lh, v, important)).unzip();
        text.push_str(&p.rule(&selectors, &t, true));
        text.push('\n');
        sheet.push(Rule { selectors, decls })
    };
    let px = |x: f64| V::L(Lp::Px(x));
    let mut extra = Vec::new();
    add(
        vec![vec![Simple::Universal]],
        &[(POSITION, V::K("relative")), (DISPLAY, V::K("block")), (MARGIN, px(0.)), (MARGIN + 1, px(0.)), (MARGIN + 2, px(0.)), (MARGIN + 3, px(0.)), (PADDING + 3, px(1.)), (FONT_SIZE, px(font_size)), (HEIGHT, V::L(Lp::Auto)), (WIDTH, V::L(Lp::Auto)), (BACKGROUND, V::C(Col::Rgba([200, 100, 50, 255])))],
        false,
    );
    for (i, tag) in soup::TAGS.iter().chain(&["g", "rect"]).enumerate() {
        let color = [(i * 2) as u8, (255 - i) as u8, (i * 37) as u8, 255];
        add(vec![vec![Simple::Type(tag.to_string())]], &[(BACKGROUND, V::C(Col::Rgba(color)))], false)
    }
    // In other namespaces case matters
    let upper = FOREIGN.iter().map(|t| vec![Simple::Type(t.to_ascii_uppercase())]).collect();
    add(upper, &[(BORDER_STYLE, V::K("solid")), (BORDER_WIDTH, px(1.))], false);
    let at = |name: &str, op: Op, value: &str| vec![vec![Simple::Attr { name: name.into(), op, value: value.into(), insensitive: false }]];
    add(at("class", Op::Includes, "a"), &[(PADDING, px(1.))], false);
    add(at("class", Op::Includes, "b"), &[(PADDING + 2, px(2.))], false);
    add(at("id", Op::Equal, "i"), &[(PADDING + 1, px(3.))], false);
    add(at("id", Op::Equal, "j"), &[(MARGIN + 3, px(4.))], false);
    add(at("x", Op::Exists, ""), &[(MARGIN + 1, px(5.))], false);
    add(at("a", Op::Equal, "1"), &[(BORDER_STYLE + 1, V::K("solid"))], false);
    add(at("b", Op::Exists, ""), &[(COLOR, V::C(Col::Rgba([255, 0, 0, 255])))], false);
    add(at("href", Op::Exists, ""), &[(COLOR, V::C(Col::Rgba([0, 0, 255, 255])))], false);
    add(at("viewBox", Op::Exists, ""), &[(COLOR, V::C(Col::Rgba([0, 255, 255, 255])))], false);
    add(at("size", Op::Exists, ""), &[(BORDER_STYLE + 2, V::K("solid"))], false);
    add(vec![vec![Simple::Empty]], &[(BORDER_STYLE + 3, V::K("solid"))], false);
    add(vec![vec![Simple::Nth { a: 0, b: 1, last: true, of_type: false }]], &[(PADDING + 1, px(1.5))], false);
    // Links between siblings, in both directions
    let nth = |a: i64, b: i64, last: bool| vec![vec![Simple::Nth { a, b, last, of_type: false }]];
    add(nth(0, 1, false), &[(OFFSET + 3, px(7.))], false);
    add(nth(2, 0, false), &[(OFFSET, px(1.25))], false);
    add(nth(3, 0, true), &[(MARGIN, px(2.5))], false);
    add(at("x", Op::Equal, ""), &[(MARGIN + 2, px(1.75))], false);
    add(at("class", Op::Equal, ""), &[(OFFSET + 3, px(3.))], false);
    add(at("id", Op::Equal, ""), &[(OFFSET + 3, px(4.))], false);
    add(at("a", Op::Equal, "2"), &[(OFFSET, px(6.))], false);
    for (previous, own, set) in [
        ("hr", "p", (MARGIN + 2, px(2.25))),
        ("b", "table", (MARGIN + 2, px(3.25))),
        ("p", "p", (MARGIN + 2, px(4.25))),
        ("table", "td", (MARGIN + 2, px(5.25))),
    ] {
        let s = Selector(vec![(' ', vec![Simple::Type(previous.into())]), ('+', vec![Simple::Type(own.into())])]);
        let (d, t) = gen::longhand(p, set.0, set.1, false);
        extra.push((s, d, t))
    }
    // Not the style sheet’s own text
    let sheet_element = vec![Simple::Id("sheet".into())];
    add(vec![vec![Simple::Type("template".into())], sheet_element], &[(DISPLAY, V::K("none"))], true);
    for (s, d, t) in extra {
        text.push_str(&p.rule(&[s.clone()], &[t], true));
        text.push('\n');
        sheet.push(Rule { selectors: vec![s], decls: vec![d] })
    }
    (text, sheet)
}

fn tag(rng: &Rng, focused: &[&'static str]) -> &'static str {
    if rng.chance(3, 4) {
        rng.pick(focused)
    } else {
        rng.pick(soup::TAGS)
    }
}

const GROUPS: &[&[&str]] = &[
    &["table", "tbody", "tr", "td", "th", "caption", "colgroup", "col", "p", "b", "input", "form"],
    &["a", "b", "i", "em", "nobr", "font", "p", "div", "u"],
    &["svg", "math", "foreignObject", "desc", "mi", "annotation-xml", "p", "a", "title", "font"],
    &["select", "option", "optgroup", "table", "tr", "td", "input"],
    &["html", "head", "body", "title", "frameset", "frame", "noframes", "p", "script"],
    &["ul", "li", "dl", "dd", "dt", "p", "h1", "h2", "div", "button"],
    &["template", "table", "tr", "td", "b", "p"],
    &["ruby", "rb", "rt", "rp", "rtc", "p", "span"],
    &["applet", "marquee", "object", "b", "p", "a", "table", "td"],
    &["div", "p", "span", "b"],
    &["table", "b", "i", "a", "td", "tr"],
];

const ATTRIBUTES: &[&str] = &[
    "class=a", "class='a b'", "class=\"b\"", "id=i", "id=j", "x=y", "x", "a=1", "a=1 a=2", "a=2 a=1", "b=''", "hidden", "type=hidden", "href=y", "xlink:href=x", "xmlns:xlink=x", "viewbox=1", "viewBox=1", "size=1", "color=red", "encoding=text/html",
    "CLASS=a", "ID=i", "definitionurl=x", "x=''", "class=''", "id=\"\"", "a",
];

/// Markup with at most `starts` start tags; no style sheets and no style attributes in there
pub fn markup(rng: &Rng, starts: usize, focused: &[&'static str], out: &mut String) {
    let mut n = 0;
    let mut open: Vec<&str> = Vec::new();
    for _ in 0..1 + rng.below(3 * starts) {
        let t = tag(rng, focused);
        match rng.below(10) {
            0..=4 if n < starts => {
                n += 1;
                out.push('<');
                out.push_str(&if rng.chance(1, 12) { t.to_ascii_uppercase() } else { t.into() });
                if rng.chance(1, 250) {
                    // Those that matter come last
                    for i in 0..5 + rng.below(120) {
                        out.push_str(&format!(" y{}=z", i))
                    }
                }
                for _ in 0..rng.weighted(&[5, 3, 1]) {
                    out.push(' ');
                    out.push_str(rng.pick(ATTRIBUTES))
                }
                if t == "annotation-xml" && rng.chance(1, 2) {
                    out.push_str(rng.pick(&[" encoding=text/html", " encoding=TEXT/Html", " encoding='application/xhtml+xml'", " encoding=application/xml", " encoding='text/html '"]))
                }
                out.push_str(if rng.chance(1, 12) { "/>" } else { ">" });
                if rng.chance(1, 60) {
                    // The rest is an attribute, a comment, …
                    out.pop();
                }
                open.push(t);
                if ["script", "style", "textarea", "xmp", "iframe", "noembed", "noframes", "title"].contains(&t) && rng.chance(3, 4) {
                    out.push_str(rng.pick(&["x <b> y", "", "z", "<!-- ", "a &amp; b"]));
                    out.push_str("</");
                    out.push_str(open.pop().unwrap());
                    out.push('>')
                }
                if t == "plaintext" && rng.chance(2, 3) {
                    return;
                }
            }
            0..=5 => {
                let t = if rng.chance(2, 3) { open.pop().unwrap_or(t) } else { t };
                out.push_str("</");
                out.push_str(t);
                out.push('>')
            }
            6 if rng.chance(1, 400) => {
                // Long text, in one or many tokens
                let part = rng.pick(&["x ", "&amp;", "x", "a\0", "y<!-- -->", " \n", "&nbsp;é "]);
                out.push_str(&part.repeat(rng.below(500)))
            }
            6..=8 => out.push_str(rng.pick(&["a", "b ", "c", " ", "\n", "x y z ", "W", "é"])),
            _ => out.push_str(rng.pick(&[
                "<!doctype html>", "<!-- c -->", "<!--x", "-->", "<!>", "</>", "<?x?>", "<![CDATA[x]]>", "]]>", "&amp;", "&lt", "&#0;", "&notin;", "&not", "&#", "&", "\0", "\u{FFFD}", "\r\n", "<", ">", "</", "=", "/>", "</br>", "</p>", "&#x41;",
                "<table>x", "<td>", "</table>", "<b><p>x</b>y</p>", "<a><a>", "<svg></p>", "<form><form>", "<html x class=b>", "<html a=1 id=i>", "<body class='a b'>", "<body x='' a=2>", "<body id=j>", "<body class=''>", "<html id='' x=y>", "<hr><table><p>", "<table><b>",
            ])),
        }
    }
}

fn focus(rng: &Rng) -> Vec<&'static str> {
    if rng.chance(3, 4) {
        rng.pick(GROUPS).to_vec()
    } else {
        (0..1 + rng.below(10)).map(|_| rng.pick(soup::TAGS)).collect()
    }
}

fn in_template(dom: &Dom, n: usize) -> bool {
    let mut m = n;
    while let Some(p) = dom.parent_element(m) {
        if dom.is_html(p, "template") {
            return true;
        }
        m = p
    }
    false
}

pub fn note_moves(cx: &mut Cx, dom: &Dom) -> bool {
    let m = &dom.moves;
    cx.add("insertions before a sibling (foster parenting)", m.before_sibling);
    cx.add("nodes moved to another place", m.moved);
    cx.add("nodes removed", m.removed);
    cx.add("attributes added later", m.late_attributes);
    cx.add("texts merged into a previous one", m.text_merged);
    m.before_sibling + m.moved + m.removed + m.late_attributes > 0
}

fn c09(cx: &mut Cx) {
    // Large texts take several lines, which shows where text nodes end
    thread_local!(static SHOWING: [(String, Rc<Sheet>); 2] = {
        let sheet = |font_size| {
            let (text, sheet) = showing(font_size);
            (text, Rc::new(sheet))
        };
        [sheet(2.), sheet(120.)]
    });
    let rng = cx.rng.clone();
    let (sheet_text, sheet) = SHOWING.with(|s| s[rng.chance(1, 4) as usize].clone());
    let mut html = String::new();
    if rng.chance(1, 2) {
        html.push_str("<!doctype html>")
    }
    html.push_str("<style id=sheet>");
    html.push_str(&sheet_text);
    html.push_str("</style>");
    let starts = if rng.chance(1, 150) { 500 } else { rng.pick(&[4, 8, 16, 40]) };
    let prefix = html.len();
    markup(&rng, starts, &focus(&rng), &mut html);
    // Bytes that are not UTF-8
    let mut bytes = html.clone().into_bytes();
    if rng.chance(1, 12) {
        for _ in 0..1 + rng.below(4) {
            let at = prefix + rng.below(bytes.len() - prefix + 1);
            let b: &[u8] = rng.pick(&[&b"\xff"[..], b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\x80", b"\xf0\x9f\x98", b"\xef\xbb\xbf", b"\xe9"]);
            bytes.splice(at..at, b.iter().cloned());
        }
        cx.count("inputs that are not UTF-8");
    }
    cx.input(&bytes[..]);
    let o = (|| {
        let dom = Dom::parse_html(&bytes);
        if dom.depth() > 100 {
            cx.count("undecided: nested too deeply");
            return Ok(());
        }
        let mut texts = Texts::default();
        texts.sheets.insert(sheet_text.clone(), sheet);
        for n in dom.elements() {
            if dom.is_html(n, "style") {
                let text = dom.child_text(n);
                if in_template(&dom, n) {
                    cx.count("undecided: style element in a template");
                    return Ok(());
                }
                if !text.contains('{') {
                    texts.sheets.entry(text).or_default();
                }
            }
        }
        let author = match author(&dom, &texts) {
            Some(a) => a,
            None => {
                cx.count("undecided: text of the style sheet changed");
                return Ok(());
            }
        };
        let pdf = render_html(&bytes)?;
        let r = reference(&dom, &author);
        if judge(cx, &r, &pdf)? {
            let moved = note_moves(cx, &dom);
            cx.add("elements compared", r.cascade.computed.len() as u64);
            if moved {
                cx.distinct(html[sheet_text.len()..].as_bytes());
                let body = html.replace(&sheet_text, "…");
                cx.sample(|| format!("{} → {} marks as expected", body, r.marks.len()))
            }
        }
        Ok(())
    })();
    cx.report(o)
}

// ---------------------------------------------------------------------------
// C10

const OTHER: &[&str] = &["urn:x", "http://example.com/é?a&b", "HTTP://www.w3.org/1999/xhtml"];

const LONG_TEXT: &str = "some long text some long text some long text some long text some long text some long text some long text some long text some long text some long text some long text some long text some long text some long text some long text some long text some long text some long text some long text some long text ";

fn xml_text(rng: &Rng) -> String {
    let n = 1 + rng.below(4);
    (0..n)
        .map(|_| match rng.below(8) {
            0 => " ",
            1 if rng.chance(1, 8) => "\n                                                                              ",
            1 if rng.chance(1, 20) => LONG_TEXT,
            1 => rng.pick(&["  ", "\n", "\t"]),
            2 => rng.pick(&["é", "漢", "<", "&", ">", "\"", "'", "]]", "\u{a0}", "😀", "-", "]"]),
            _ => rng.pick(&["a", "b", "c", "word", "two words", "W", "x", "1", "Q"]),
        })
        .collect()
}

fn xml_tree(rng: &Rng, p: &boxes::Profile, texts: &mut Texts) -> Dom {
    let mut dom = Dom::new();
    if rng.chance(1, 4) {
        let n = dom.push(Data::Other);
        dom.append(0, n)
    }
    let mut budget = if rng.chance(1, 150) { 300 } else { 1 + rng.below(14) };
    xml_element(rng, p, &mut dom, 0, 5, &mut budget, texts);
    if rng.chance(1, 6) {
        let n = dom.push(Data::Other);
        dom.append(0, n)
    }
    dom
}

fn xml_element(rng: &Rng, p: &boxes::Profile, dom: &mut Dom, parent: usize, depth: usize, budget: &mut usize, texts: &mut Texts) {
    let ns = match rng.below(12) {
        0 => SVG,
        1 => MATHML,
        2 => "",
        3 => rng.pick(OTHER),
        _ => HTML,
    };
    let local = if ns == HTML {
        rng.pick(&["div", "span", "p", "div", "span", "html", "body", "x-a", "style", "head", "title", "É", "Div", "a.b", "_", "table", "br", "template", "h1", "pre"])
    } else {
        rng.pick(&["x", "g", "mi", "Y", "foreignObject", "b", "table"])
    };
    let mut attrs: Vec<Attr> = Vec::new();
    let add = |attrs: &mut Vec<Attr>, ns: &str, local: &str, value: String| {
        if !attrs.iter().any(|a| a.ns == ns && a.local == local) {
            attrs.push(Attr { ns: ns.into(), local: local.into(), value })
        }
    };
    let root = parent == 0;
    if rng.chance(1, 100) {
        for i in 0..5 + rng.below(100) {
            add(&mut attrs, "", &format!("y{}", i), "z".into())
        }
    }
    let (decls, text) = boxes::style(rng, p, "");
    if rng.chance(5, 6) {
        texts.attributes.insert(text.clone(), decls);
        add(&mut attrs, "", "style", text)
    }
    // Not what they look like
    if rng.chance(1, 5) {
        let (decls, text) = boxes::style(rng, p, "");
        texts.attributes.insert(text.clone(), decls);
        let (ns, local) = rng.pick(&[(HTML, "style"), ("urn:x", "style"), ("", "STYLE"), ("", "styl"), (SVG, "style")]);
        add(&mut attrs, ns, local, text)
    }
    match rng.below(24) {
        0 => add(&mut attrs, "", "hidden", rng.pick(&["", "x"]).into()),
        1 => add(&mut attrs, "urn:x", "hidden", "".into()),
        2 => add(&mut attrs, "", "Hidden", "".into()),
        3 => add(&mut attrs, "", "x", xml_text(rng).replace(['\n', '\t'].as_ref(), " ")),
        _ => {}
    }
    rng.shuffle(&mut attrs);
    let n = dom.element(ns, local, attrs);
    dom.append(parent, n);
    if root && rng.chance(1, 20) {
        return;
    }
    let steps = if depth == 0 { rng.below(2) } else if *budget > 20 { *budget / 3 } else { rng.pick(&[1, 2, 3, 4, 6]) };
    for _ in 0..steps {
        match rng.below(9) {
            0..=3 if *budget > 0 && depth > 0 => {
                *budget -= 1;
                xml_element(rng, p, dom, n, depth - 1, budget, texts)
            }
            8 => {
                let c = dom.push(Data::Other);
                dom.append(n, c)
            }
            _ => dom.append_text(n, &xml_text(rng)),
        }
    }
}

struct XmlPrint<'a> {
    rng: &'a Rng,
    entities: Vec<(String, String)>,
}

impl<'a> XmlPrint<'a> {
    fn char(&self, c: char, attribute: bool) -> String {
        let rng = self.rng;
        let special = match c {
            '<' => "&lt;",
            '&' => "&amp;",
            '>' => "&gt;",
            '"' => "&quot;",
            '\'' => "&apos;",
            _ => "",
        };
        if rng.chance(1, 16) {
            return match rng.below(3) {
                0 => format!("&#{};", c as u32),
                1 => format!("&#x{:X};", c as u32),
                _ => format!("&#x00{:x};", c as u32),
            };
        }
        if special.is_empty() || !attribute && (c == '"' || c == '\'') && rng.chance(1, 2) {
            c.to_string()
        } else {
            special.into()
        }
    }

    fn text(&self, t: &str, out: &mut String) {
        let rng = self.rng;
        let mut rest = t;
        while !rest.is_empty() {
            if let Some((name, value)) = self.entities.iter().find(|(_, v)| rest.starts_with(&**v)) {
                if rng.chance(1, 2) {
                    out.push_str(&format!("&{};", name));
                    rest = &rest[value.len()..];
                    continue;
                }
            }
            // Some characters as they are, as CDATA, or after a comment
            let n = 1 + rng.below(rest.chars().count());
            let at = rest.char_indices().nth(n).map_or(rest.len(), |x| x.0);
            let piece = &rest[..at];
            match rng.below(8) {
                0 if !piece.contains("]]>") => {
                    out.push_str("<![CDATA[");
                    out.push_str(piece);
                    out.push_str("]]>")
                }
                1 => {
                    out.push_str(rng.pick(&["<!-- c -->", "<!---->", "<!-- <b> & ]]> -->"]));
                    continue;
                }
                _ => piece.chars().for_each(|c| out.push_str(&self.char(c, false))),
            }
            rest = &rest[at..]
        }
        if rng.chance(1, 24) {
            out.push_str("<![CDATA[]]>")
        }
    }

    fn space(&self) -> &'static str {
        self.rng.pick(&[" ", " ", " ", "\n", "\t", "  \n "])
    }

    fn node(&self, dom: &Dom, n: usize, scope: &[(String, String)], out: &mut String) {
        let rng = self.rng;
        match &dom.nodes[n].data {
            Data::Document => {
                for &c in &dom.nodes[n].children {
                    self.node(dom, c, scope, out);
                    out.push_str(rng.pick(&["", "\n", "<!-- x -->", ""]))
                }
            }
            Data::Text(t) => self.text(t, out),
            Data::Other => out.push_str(rng.pick(&["<?pi?>", "<?xml-stylesheet href='x'?>", "<?a b ?>", "<?p <b> & ?>"])),
            Data::Element { ns, local, attrs, .. } => {
                let mut scope = scope.to_vec();
                let mut declared: Vec<(String, String)> = Vec::new();
                let mut names = Vec::new();
                // Prefixes whose meaning must not change in this tag any more
                let mut used: Vec<String> = Vec::new();
                let mut bind = |ns: &str, attribute: bool| -> String {
                    if ns.is_empty() && attribute {
                        return String::new();
                    }
                    // A prefix in scope and not shadowed
                    let current = |p: &str| scope.iter().rev().find(|b| b.0 == p).map_or("", |b| &*b.1).to_owned();
                    let options: Vec<String> = scope.iter().map(|b| b.0.clone()).chain(Some(String::new())).filter(|p| current(p) == ns && !(attribute && p.is_empty())).collect();
                    if !options.is_empty() && !rng.chance(1, 10) {
                        let prefix = options[rng.below(options.len())].clone();
                        used.push(prefix.clone());
                        return prefix;
                    }
                    let mut prefix: String = if attribute || !ns.is_empty() && rng.chance(1, 2) { rng.pick(&["p", "q", "h", "é", "a-b"]).into() } else { String::new() };
                    while used.contains(&prefix) {
                        prefix.push_str("z")
                    }
                    used.push(prefix.clone());
                    declared.push((prefix.clone(), ns.into()));
                    scope.push((prefix.clone(), ns.into()));
                    prefix
                };
                let own = bind(ns, false);
                for a in attrs {
                    names.push(bind(&a.ns, true))
                }
                let qname = |prefix: &str, local: &str| if prefix.is_empty() { local.to_owned() } else { format!("{}:{}", prefix, local) };
                let mut written: Vec<String> = Vec::new();
                for (a, p) in attrs.iter().zip(&names) {
                    let q = rng.pick(&['"', '\'']);
                    let value: String = a.value.chars().map(|c| self.char(c, true)).collect();
                    written.push(format!("{}{}={}{}{}", qname(p, &a.local), rng.pick(&["", "", " "]), q, value, q))
                }
                for (p, ns) in &declared {
                    let name = if p.is_empty() { "xmlns".to_owned() } else { format!("xmlns:{}", p) };
                    written.push(format!("{}=\"{}\"", name, attr_escape(ns)))
                }
                rng.shuffle(&mut written);
                out.push_str(&format!("<{}", qname(&own, local)));
                for w in written {
                    out.push_str(self.space());
                    out.push_str(&w)
                }
                if rng.chance(1, 12) {
                    out.push_str(self.space())
                }
                if dom.nodes[n].children.is_empty() && rng.chance(1, 2) {
                    out.push_str("/>");
                    return;
                }
                out.push('>');
                for &c in &dom.nodes[n].children {
                    self.node(dom, c, &scope, out)
                }
                out.push_str(&format!("</{}{}>", qname(&own, local), rng.pick(&["", "", "", " "])))
            }
        }
    }

    fn document(&self, dom: &Dom) -> String {
        let rng = self.rng;
        let mut out = String::new();
        if rng.chance(1, 12) {
            out.push('\u{feff}')
        }
        if rng.chance(1, 3) {
            out.push_str(rng.pick(&["<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>\n", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\" ?>"]))
        }
        if !self.entities.is_empty() {
            out.push_str("<!DOCTYPE html [ ");
            for (name, value) in &self.entities {
                out.push_str(&format!("<!ENTITY {} \"{}\">\n", name, value))
            }
            out.push_str("]>")
        } else if rng.chance(1, 5) {
            out.push_str(rng.pick(&["<!DOCTYPE html>", "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Strict//EN\" \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd\">", "<!DOCTYPE html SYSTEM 'x' [ <!ELEMENT br EMPTY> ]>\n"]))
        }
        if rng.chance(1, 6) {
            out.push_str("<!-- before -->\n")
        }
        self.node(dom, 0, &[], &mut out);
        out
    }
}

/// An XML document, its tree, and its style attributes
pub fn xml(rng: &Rng, p: &boxes::Profile) -> (String, Dom, Texts) {
    let mut texts = Texts::default();
    let dom = xml_tree(rng, p, &mut texts);
    let entities = if rng.chance(1, 6) { vec![("e".into(), "word".into()), ("long-name".into(), "two".into())] } else { Vec::new() };
    let text = XmlPrint { rng, entities }.document(&dom);
    (text, dom, texts)
}

fn render_xml(bytes: &[u8]) -> Result<Result<Vec<u8>, String>, Failure> {
    guard("parsing and rendering XML", || match Document::parse_xml(bytes) {
        Ok(d) => Ok(d.to_pdf_bytes()),
        Err(e) => {
            // Errors can be shown
            let text = format!("{} {:?} {:?}", e, e, std::error::Error::source(&e).map(|s| s.to_string()));
            assert!(e == e.clone());
            Err(text)
        }
    })
}

/// Malformed, but known to be accepted
const LENIENT: &[(&str, &str)] = &[
    ("lenient-pi", "<x><? pi?></x>"),
    ("lenient-doctype", "<!DOCTYPE><x/>"),
    ("lenient-doctype", "<!DOCTYPE x [ junk ]><x/>"),
    ("lenient-namespaces", "<x xmlns:p='u' xmlns:q='u' p:a='' q:a=''/>"),
];

/// Make a well-formed document malformed
pub fn break_xml(rng: &Rng, good: &str) -> (&'static str, Vec<u8>) {
    // The end of the last tag, and of some other tag
    let last = good.rfind("</").filter(|&at| good[at..].contains('>'));
    // Any place in content: right after the start of the end tag of an element
    let tags: Vec<usize> = good.match_indices("</").map(|x| x.0).filter(|&i| !inside(good, i)).collect();
    let insert = |at: usize, s: &str| -> Vec<u8> { [&good[..at], s, &good[at..]].concat().into_bytes() };
    let in_content = if tags.is_empty() { None } else { Some(rng.pick(&tags)) };
    loop {
        match rng.below(16) {
            0 => {
                // Before the end of the root element
                if let Some(last) = last {
                    if !inside(good, last) {
                        let mut at = rng.below(last + 2);
                        while !good.is_char_boundary(at) {
                            at -= 1
                        }
                        return ("truncated", good.as_bytes()[..at].to_vec());
                    }
                }
            }
            1 => return ("text after the root", format!("{}x", good).into_bytes()),
            2 => return ("second root", format!("{}{}", good, rng.pick(&["<x/>", "<p>a</p>", "\n<x></x>\n"])).into_bytes()),
            3 => return ("end tag after the root", format!("{}</x>", good).into_bytes()),
            4 => return ("nothing", rng.pick(&["", " ", "<!-- x -->", "<?xml version='1.0'?>", "<!DOCTYPE html>", "\u{feff}", "x", "<"]).into()),
            n => {
                if let Some(at) = in_content {
                    let (what, s) = match n {
                        5 => ("unclosed element", "<unclosed>"),
                        6 => ("end tag without start", "</unopened>"),
                        7 => ("misnested", "<a><b></a></b>"),
                        8 => ("ampersand", rng.pick(&["& ", "&;", "&#;", "&#x;", "&undefined;", "&#0;", "&#xD800;", "&#x110000;", "&#99999999999;"])),
                        9 => ("less-than sign", rng.pick(&["< ", "<1/>", "<=", "<>", "</>"])),
                        10 => ("attributes", rng.pick(&["<x a='1' a='2'/>", "<x a=1/>", "<x a/>", "<x a='<'/>", "<x a='&'/>", "<x a='1/>", "<x = '1'/>", "<x a='&undefined;'/>"])),
                        11 => ("unbound prefix", rng.pick(&["<unbound:x/>", "<x unbound:a=''/>", "<x xmlns:unbound2=''/>"])),
                        12 => ("comment", rng.pick(&["<!-- a -- b -->", "<!-- ", "<!-x-->", "<!>"])),
                        13 => ("section", rng.pick(&["<![CDATA[", "<![cdata[x]]>", "]]>", "<![x[y]]>"])),
                        14 => ("declaration inside", rng.pick(&["<?xml version='1.0'?>", "<!DOCTYPE html>", "<!ENTITY x 'y'>"])),
                        _ => {
                            let mut b = insert(at, "");
                            let bad = rng.pick(&[&b"\xff"[..], b"\xc0\x80", b"\xed\xa0\x80", b"\xe2\x82", b"\xf5\x80\x80\x80", b"\x01", b"\x00"]);
                            let tail = b.split_off(at);
                            b.extend_from_slice(bad);
                            b.extend(tail);
                            return ("bad characters", b);
                        }
                    };
                    if s == "<![CDATA[" && good[at..].contains("]]>") || s == "<!-- " && good[at..].contains("-->") {
                        continue;
                    }
                    return (what, insert(at, s));
                }
            }
        }
    }
}

/// In a comment, CDATA section, processing instruction, or quoted value
fn inside(s: &str, at: usize) -> bool {
    let before = &s[..at];
    let open = |a: &str, b: &str| before.rfind(a).map_or(false, |i| !before[i + a.len()..].contains(b));
    open("<!--", "-->") || open("<![CDATA[", "]]>") || open("<?", "?>")
}

fn c10(cx: &mut Cx) {
    let rng = cx.rng.clone();
    let p = boxes::Profile { elements: 12, background: 12, inline_edges: false, ..boxes::Profile::base() };
    let (text, dom, texts) = xml(&rng, &p);
    let o = (|| match rng.below(4) {
        0 if rng.chance(1, 200) => {
            let (sig, text) = rng.pick(LENIENT);
            cx.input(text.as_bytes());
            match render_xml(text.as_bytes())? {
                Err(_) => Ok(()),
                Ok(_) => Err(Failure { what: "not well-formed but accepted".into(), sig: Some(sig.into()) }),
            }
        }
        0 => {
            let (what, bytes) = break_xml(&rng, &text);
            cx.input(bytes.clone());
            match render_xml(&bytes)? {
                Err(e) => {
                    cx.count(&format!("malformed: {}", what));
                    cx.distinct(&bytes);
                    cx.sample(|| format!("{:?} → {}", String::from_utf8_lossy(&bytes), e));
                    Ok(())
                }
                Ok(_) => fail(format!("not well-formed ({}) but accepted", what)),
            }
        }
        1 => {
            let mut bytes = text.into_bytes();
            soup::mutate(&rng, &mut bytes);
            cx.input(bytes.clone());
            match render_xml(&bytes)? {
                Err(_) => cx.count("mutated: rejected"),
                Ok(pdf) => {
                    display(&pdf)?;
                    cx.count("mutated: accepted and rendered")
                }
            }
            Ok(())
        }
        _ => {
            cx.input(text.as_bytes());
            let pdf = match render_xml(text.as_bytes())? {
                Ok(pdf) => pdf,
                Err(e) => return fail(format!("well-formed but rejected: {}", e)),
            };
            let r = reference(&dom, &Author { sheets: Vec::new(), attributes: texts.attributes.clone() });
            if judge(cx, &r, &pdf)? {
                let elements = dom.elements().len();
                cx.add("elements compared", elements as u64);
                if elements >= 3 {
                    cx.distinct(text.as_bytes());
                    cx.sample(|| format!("{} → {} marks as expected", text, r.marks.len()))
                }
            }
            Ok(())
        }
    })();
    cx.report(o)
}

// ---------------------------------------------------------------------------
// C27

fn links(dom: &Dom) -> Vec<(String, String)> {
    let mut out = Vec::new();
    for n in dom.elements() {
        if dom.is_html(n, "link") {
            if let (Some(rel), Some(href)) = (dom.attr(n, "rel"), dom.attr(n, "href")) {
                out.push((rel.to_owned(), href.to_owned()))
            }
        }
    }
    out
}

fn check_links(cx: &mut Cx, dom: &Dom, doc: &Document, bytes: &[u8]) -> Outcome {
    let expected = links(dom);
    let mut total = 0;
    for n in dom.elements() {
        if dom.local(n) == "link" {
            total += 1;
            if in_template(dom, n) {
                cx.count("undecided: link in a template");
                return Ok(());
            }
        }
    }
    let actual: Vec<(String, String)> = guard("listing links", || doc.html_link_elements().map(|(r, h)| (r.to_owned(), h.to_owned())).collect::<Vec<_>>())?;
    if actual != expected {
        return fail(format!("links {:?}, expected {:?}", actual, expected));
    }
    cx.add("links listed", expected.len() as u64);
    cx.add("link elements left out", total - expected.len() as u64);
    if total >= 2 {
        cx.distinct(bytes);
        cx.sample(|| format!("{:?} → {:?}", String::from_utf8_lossy(bytes), actual))
    }
    Ok(())
}

fn link_attributes(rng: &Rng, html: bool) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = Vec::new();
    let value = || -> String { (0..rng.below(4)).map(|_| rng.pick(&["a", "style sheet", "é", "&", "\"", "<", "/x?y=1", " ", "'", "A", "#"])).collect() };
    for name in &["rel", "href", "x", "title"] {
        if rng.chance(2, 3) {
            out.push((name.to_string(), value()))
        }
    }
    if rng.chance(1, 8) {
        // Same name in HTML, where the first one counts, but not in XML
        out.push((rng.pick(&["REL", "Href"]).into(), value()))
    }
    if html && rng.chance(1, 8) {
        out.push((rng.pick(&["rel", "href"]).into(), value()))
    }
    rng.shuffle(&mut out);
    out
}

fn c27(cx: &mut Cx) {
    let rng = cx.rng.clone();
    let o = if rng.chance(2, 3) {
        let mut html = String::new();
        let group = focus(&rng);
        for _ in 0..1 + rng.below(5) {
            if rng.chance(2, 3) {
                markup(&rng, 6, &group, &mut html)
            }
            if rng.chance(1, 60) {
                // Deep
                let tag = rng.pick(&["div", "span", "svg", "b", "x-a"]);
                for _ in 0..rng.below(600) {
                    html.push_str(&format!("<{}>", tag))
                }
            }
            if rng.chance(1, 20) {
                html.push_str("<svg>")
            }
            for _ in 0..1 + rng.below(2) {
                html.push_str(rng.pick(&["<link", "<link", "<link", "<LINK", "<a", "<links"]));
                for (name, value) in link_attributes(&rng, true) {
                    if value.is_empty() && rng.chance(1, 2) {
                        html.push_str(&format!(" {}", name))
                    } else {
                        html.push_str(&format!(" {}=\"{}\"", name, attr_escape(&value)))
                    }
                }
                html.push_str(rng.pick(&[">", ">", "/>", "></link>", ">x</link>"]))
            }
        }
        cx.input(html.as_bytes());
        let dom = Dom::parse_html(html.as_bytes());
        guard("parsing", || Document::parse_html(html.as_bytes())).and_then(|doc| check_links(cx, &dom, &doc, html.as_bytes()))
    } else {
        let mut dom = Dom::new();
        let root = dom.element(HTML, "html", Vec::new());
        dom.append(0, root);
        let mut places = vec![root];
        for _ in 0..rng.below(12) {
            let ns = rng.pick(&[HTML, HTML, HTML, SVG, "", "urn:x"]);
            let local = rng.pick(&["link", "link", "link", "Link", "a", "div"]);
            let mut attrs: Vec<Attr> = link_attributes(&rng, false).into_iter().map(|(local, value)| Attr { ns: String::new(), local, value }).collect();
            for a in &mut attrs {
                if rng.chance(1, 10) {
                    a.ns = rng.pick(&[HTML, "urn:x"]).into()
                }
            }
            let n = dom.element(ns, local, attrs);
            dom.append(rng.pick(&places), n);
            places.push(n)
        }
        let text = XmlPrint { rng: &rng, entities: Vec::new() }.document(&dom);
        cx.input(text.as_bytes());
        guard("parsing", || Document::parse_xml(text.as_bytes())).and_then(|doc| match doc {
            Ok(doc) => check_links(cx, &dom, &doc, text.as_bytes()),
            Err(e) => fail(format!("well-formed but rejected: {}", e)),
        })
    };
    cx.report(o)
}
