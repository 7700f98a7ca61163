//! C11 to C13 and C20: cascade, parsing of style sheets, selectors, values.
use crate::css::*;
use crate::dom::Dom;
use crate::driver::*;
use crate::gen::{self, Names, Print};
use crate::judge::*;
use crate::rng::Rng;

const OBSERVED: &[&str] = &[
    "styles are observed through what is painted: geometry, colours, text, presence and order of boxes",
    "the reference cascade, selector matching and values are written from the specifications; style sheets are generated as syntax trees and printed, so that the reference parses no CSS",
];

pub fn specs() -> Vec<Spec> {
    let base = || Spec { assumptions: OBSERVED, quick_cases: 4_000_000, quick_secs: 45, thorough_secs: 780, run: c11, ..Spec::DEFAULT };
    vec![
        Spec { id: "C11", rule: "a case counts if at least two declarations competed for the same property of some element, and everything painted was compared", run: c11, ..base() },
        Spec { id: "C12", rule: "a case counts if at least one invalid part or syntactic variation was added and everything painted was compared", run: c12, ..base() },
        Spec { id: "C13", rule: "a case counts if some selector matched some elements and not others, and everything painted was compared", run: c13, ..base() },
        Spec { id: "C20", rule: "a case counts if at least one value was accepted or rejected as expected, seen in what is painted", run: c20, ..base() },
    ]
}

// ---------------------------------------------------------------------------
// Documents

pub struct Doc {
    pub names: Names,
    pub elements: usize,
    pub depth: usize,
    pub text: bool,
    /// Tags of the elements
    pub tags: Vec<&'static str>,
}

fn attribute_text(rng: &Rng, names: &Names, out: &mut String) {
    // Rarely, many attributes
    let many = if rng.chance(1, 40) { 1 + rng.below(20) } else { 0 };
    let before = rng.below(many + 1);
    for i in 0..before {
        out.push_str(&format!(" q{}={}", i, i))
    }
    if rng.chance(1, 2) {
        let n = 1 + rng.below(if many > 0 { 14 } else { 3 });
        let mut c: Vec<&str> = (0..n).map(|_| rng.pick(&names.classes)).collect();
        let long = if rng.chance(1, 60) { "z9".repeat(10 + rng.below(200)) } else { String::new() };
        if !long.is_empty() {
            c.insert(rng.below(n + 1), &long)
        }
        let sep = rng.pick(&[" ", " ", "  ", "\n", "\t", "\x0c", "\r\n"]);
        // These do not separate classes
        let sep = if rng.chance(1, 24) { rng.pick(&["\x0b", "\u{a0}", "\u{2003}", "\u{3000}", "\u{85}", "\x1c", ","]) } else { sep };
        let pad = if rng.chance(1, 8) { " " } else { "" };
        out.push_str(&format!(" class=\"{}{}{}\"", pad, attr_escape(&c.join(sep)), pad))
    }
    if rng.chance(1, 3) {
        let (a, b) = if rng.chance(1, 10) { rng.pick(&[(" ", ""), ("", " "), ("\t", "\n"), ("", "x"), ("\x0c", "")]) } else { ("", "") };
        out.push_str(&format!(" {}=\"{}{}{}\"", rng.pick(&["id", "id", "ID"]), a, attr_escape(rng.pick(&names.ids)), b))
    }
    for i in before..many {
        out.push_str(&format!(" q{}", i))
    }
    let mut seen = Vec::new();
    for _ in 0..rng.weighted(&[3, 3, 2]) {
        let (name, value) = rng.pick(&names.attrs);
        if seen.contains(&name) {
            continue;
        }
        seen.push(name);
        let name = if rng.chance(1, 8) { name.to_ascii_uppercase() } else { name.into() };
        let value = if rng.chance(1, 6) { value.to_ascii_uppercase() } else { value.into() };
        out.push_str(&format!(" {}=\"{}\"", name, attr_escape(&value)))
    }
}

impl Doc {
    /// `style` makes the style attribute of some elements
    pub fn body(&self, rng: &Rng, style: &mut dyn FnMut(&mut String), out: &mut String) {
        if rng.chance(1, 3) {
            out.push_str("<body");
            attribute_text(rng, &self.names, out);
            style(out);
            out.push('>')
        }
        let mut budget = 1 + rng.below(self.elements);
        let depth = 1 + rng.below(self.depth);
        self.children(rng, depth, &mut budget, style, out)
    }

    fn children(&self, rng: &Rng, depth: usize, budget: &mut usize, style: &mut dyn FnMut(&mut String), out: &mut String) {
        let many = if self.elements > 100 && rng.chance(1, 6) { 60 } else { 4 };
        for _ in 0..rng.pick(&[1, 2, 2, 3, many, 6]) {
            if self.text && rng.chance(1, 3) {
                out.push_str(rng.pick(&["a ", "b", "c d", " ", "\n", "é", "<!-- c -->", "<!---->"]))
            }
            if *budget == 0 {
                break;
            }
            *budget -= 1;
            let tag = rng.pick(&self.tags);
            out.push('<');
            out.push_str(tag);
            attribute_text(rng, &self.names, out);
            style(out);
            out.push('>');
            if ["input", "img", "br", "embed"].contains(&tag) {
                continue;
            }
            if depth > 0 && !rng.chance(1, 5) {
                self.children(rng, depth - 1, budget, style, out)
            } else if self.text && rng.chance(1, 2) {
                out.push_str(rng.pick(&["a", "b c", "x<!-- y -->", "<!-- y -->x", "<!-- y -->", "<!-- y --> ", "<!-- x --><!---->", " ", "\n"]))
            }
            out.push_str(&format!("</{}>", tag))
        }
    }
}

fn names() -> Names {
    Names {
        types: vec!["div", "p", "section", "x-a", "body", "html", "span", "input"],
        ids: vec!["i", "j", "K", "a b", "é", "1", "-", "i.j"],
        classes: vec!["a", "b", "C", "a-b", "é", "1x", "--x", "_", "ab"],
        attrs: vec![
            ("x", "y"), ("x", "y-z"), ("x", "y z"), ("x", ""), ("x", " y"), ("lang", "en"), ("lang", "en-US"), ("lang", "EN"), ("data-v", "some longer value"), ("title", "Title"), ("type", "hidden"), ("type", "Text"), ("hidden", ""),
            ("rel", "a b c"), ("dir", "LTR"), ("y", "1"), ("y", "-"), ("a:b", "c"), ("z", "\"'\\"), ("class", "a b"), ("id", "j"),
        ],
    }
}

fn style_element(rng: &Rng, text: &str) -> String {
    let ty = rng.pick(&["", "", "", " type=text/css", " type=\"\"", " type='TEXT/Css'", " media=all"]);
    format!("<style{}>{}</style>", ty, text)
}

/// Style sheets and document around them; sheets go where the parser leaves them in order
fn assemble(rng: &Rng, sheets: &[String], doc: &Doc, style: &mut dyn FnMut(&mut String)) -> String {
    let mut out = String::from("<!doctype html>");
    if rng.chance(1, 4) {
        out.push_str("<html");
        attribute_text(rng, &doc.names, &mut out);
        style(&mut out);
        out.push('>')
    }
    let late = rng.below(sheets.len() + 1);
    for s in &sheets[..late] {
        out.push_str(&style_element(rng, s))
    }
    doc.body(rng, style, &mut out);
    for s in &sheets[late..] {
        out.push_str(&style_element(rng, s));
        if rng.chance(1, 2) {
            doc.children(rng, 1, &mut 2, style, &mut out)
        }
    }
    out
}

fn verdict(cx: &mut Cx, html: &str, texts: &Texts, counts: impl FnOnce(&Reference) -> bool) -> Result<Option<Reference>, Failure> {
    cx.input(html.as_bytes());
    let pdf = render_html(html.as_bytes())?;
    let dom = Dom::parse_html(html.as_bytes());
    let author = match author(&dom, texts) {
        Some(a) => a,
        None => return fail("harness: style sheet not found"),
    };
    let r = reference(&dom, &author);
    if judge(cx, &r, &pdf)? {
        if counts(&r) {
            cx.distinct(html.as_bytes());
            let marks = r.marks.len();
            cx.sample(|| format!("{} → {} marks as expected", html, marks))
        }
        return Ok(Some(r));
    }
    Ok(None)
}

// ---------------------------------------------------------------------------
// C11

/// Properties that show well, and that few known approximations touch
const VISIBLE: &[usize] = &[
    FONT_SIZE, FONT_SIZE, COLOR, COLOR, WIDTH, HEIGHT, MARGIN, MARGIN + 1, MARGIN + 2, MARGIN + 3, PADDING, PADDING + 1, PADDING + 2, PADDING + 3, BACKGROUND, BACKGROUND, BACKGROUND, BORDER_WIDTH, BORDER_WIDTH + 1, BORDER_WIDTH + 2,
    BORDER_WIDTH + 3, BORDER_STYLE, BORDER_STYLE + 1, BORDER_STYLE + 2, BORDER_STYLE + 3, DISPLAY, POSITION, OFFSET, OFFSET + 3,
];

fn visible_value(rng: &Rng, lh: usize) -> V {
    if rng.chance(1, 7) {
        return gen::wide(rng);
    }
    match lh {
        DISPLAY => V::K(rng.pick(&["block", "block", "block", "flow-root", "contents", "none", "inline"])),
        POSITION => V::K(rng.pick(&["static", "relative", "relative", "absolute"])),
        MARGIN..=14 => V::L(gen::lp(rng, 0, 20, false)),
        _ => gen::value(rng, lh),
    }
}

pub fn contested_declaration(rng: &Rng, p: Print, focus: &[usize]) -> (Decl, String) {
    let important = rng.chance(1, 5);
    match rng.below(10) {
        0 => gen::four_sides(rng, p, rng.below(4), important),
        1 => gen::border_top(rng, p, important),
        2 => gen::background(rng, p, important),
        n => {
            let lh = if n < 8 && !focus.is_empty() { rng.pick(focus) } else { rng.pick(VISIBLE) };
            gen::longhand(p, lh, visible_value(rng, lh), important)
        }
    }
}

pub struct SheetGen<'a> {
    pub rng: &'a Rng,
    pub print: Print<'a>,
    pub names: &'a Names,
    pub focus: Vec<usize>,
}

impl<'a> SheetGen<'a> {
    pub fn rule(&self) -> (Rule, String) {
        let rng = self.rng;
        let n = 1 + rng.weighted(&[6, 2, 1]);
        let selectors: Vec<Selector> = (0..n)
            .map(|_| {
                if rng.chance(1, 3) {
                    // Matches often
                    Selector(vec![(' ', vec![match rng.below(4) {
                        0 => Simple::Universal,
                        1 => Simple::Class(rng.pick(&self.names.classes).into()),
                        2 => Simple::Id(rng.pick(&self.names.ids).into()),
                        _ => Simple::Type(rng.pick(&self.names.types).into()),
                    }])])
                } else {
                    gen::selector(rng, self.names)
                }
            })
            .collect();
        let (decls, texts) = self.declarations(if rng.chance(1, 400) { 40 + rng.below(100) } else { 1 + rng.below(4) });
        let text = self.print.rule(&selectors, &texts, true);
        (Rule { selectors, decls }, text)
    }

    pub fn declarations(&self, n: usize) -> (Vec<Decl>, Vec<String>) {
        (0..n).map(|_| contested_declaration(self.rng, self.print, &self.focus)).unzip()
    }
}

fn c11(cx: &mut Cx) {
    let rng = cx.rng.clone();
    let names = Names {
        types: vec!["div", "p", "section", "body", "html", "input", "div"],
        ids: vec!["i", "j"],
        classes: vec!["a", "b", "c"],
        attrs: vec![("x", "y"), ("x", "z"), ("hidden", ""), ("type", "hidden"), ("lang", "en")],
    };
    let focus: Vec<usize> = (0..1 + rng.below(3)).map(|_| rng.pick(VISIBLE)).collect();
    let sg = SheetGen { rng: &rng, print: Print::plain(&rng), names: &names, focus };
    let mut texts = Texts::default();
    let mut sheets = Vec::new();
    // Many rules for each element, or many declarations in one block
    let many = rng.chance(1, 100);
    let long = rng.chance(1, 50);
    // Everything is a block, with a background, by default
    let base = vec![
        gen::longhand(sg.print, DISPLAY, V::K("block"), false),
        gen::longhand(sg.print, PADDING, V::L(Lp::Px(1.)), false),
        gen::longhand(sg.print, BACKGROUND, V::C(Col::Rgba([0x40, 0x80, 0xc0, 0xff])), false),
    ];
    let (d, t): (Vec<Decl>, Vec<String>) = base.into_iter().unzip();
    let universal = vec![Selector(vec![(' ', vec![Simple::Type(rng.pick(&["section", "p", "div"]).into())])])];
    let mut first = vec![(sg.print.rule(&universal, &t, true), Rule { selectors: universal, decls: d })];
    for i in 0..1 + rng.below(4) {
        let mut text = String::new();
        let mut sheet = Vec::new();
        if i == 0 {
            let (t, r) = first.pop().unwrap();
            text.push_str(&t);
            sheet.push(r)
        }
        for _ in 0..if i == 0 && many { 40 + rng.below(160) } else { 1 + rng.below(4) } {
            let (r, t) = sg.rule();
            text.push_str(&t);
            text.push('\n');
            sheet.push(r)
        }
        texts.sheet(&text, sheet);
        sheets.push(text)
    }
    let mut tags = vec!["div", "p", "section", "div", "section", "input", "span"];
    if rng.chance(1, 3) {
        tags.extend(&["svg", "math", "g", "mi", "foreignObject", "semantics"])
    }
    let doc = Doc { elements: 10, depth: 5, text: true, tags, names: Names { ..names_copy(&names) } };
    let attributes = &mut texts.attributes;
    let html = assemble(&rng, &sheets, &doc, &mut |out| {
        if rng.chance(1, 4) {
            let (d, t) = sg.declarations(if long { 40 + rng.below(100) } else { 1 + rng.below(3) });
            let text = sg.print.block(&t);
            out.push_str(&format!(" style=\"{}\"", attr_escape(&text)));
            attributes.insert(text, d);
        }
    });
    let o = verdict(cx, &html, &texts, |r| r.cascade.contested > 0).map(|r| {
        if let Some(r) = r {
            cx.add("rules matched", r.cascade.matched);
            cx.add("declarations that competed with another", r.cascade.contested);
            cx.add("elements", r.cascade.computed.len() as u64);
        }
    });
    cx.report(o)
}

fn names_copy(n: &Names) -> Names {
    Names { types: n.types.clone(), ids: n.ids.clone(), classes: n.classes.clone(), attrs: n.attrs.clone() }
}

// ---------------------------------------------------------------------------
// C13

fn c13(cx: &mut Cx) {
    let rng = cx.rng.clone();
    let all = names();
    // Few names, so that selectors match
    let few = |n: usize, v: &[&'static str]| -> Vec<&'static str> { (0..n).map(|_| rng.pick(v)).collect() };
    let mut types = few(3, &all.types);
    types.push("div");
    // Names of SVG and MathML elements are matched exactly as they are
    let foreign = rng.chance(1, 3);
    let foreign_tags = ["svg", "svg", "math", "g", "g", "foreignObject", "mi", "linearGradient", "clipPath", "desc", "annotation-xml", "x-a"];
    if foreign {
        types.extend(few(4, &foreign_tags))
    }
    let names = Names { types, ids: few(2, &all.ids), classes: few(3, &all.classes), attrs: (0..4).map(|_| rng.pick(&all.attrs)).filter(|a| a.0 != "hidden" && a.0 != "class" && a.0 != "id").collect() };
    let mut names = Names { attrs: if names.attrs.is_empty() { vec![("x", "y")] } else { names.attrs.clone() }, ..names };
    if foreign {
        names.attrs.push(rng.pick(&[("viewBox", "y"), ("viewBox", "Y"), ("definitionURL", "u"), ("xlink:href", "a"), ("href", "a"), ("encoding", "text/html"), ("lang", "en"), ("type", "Text")]))
    }
    let print = Print { rng: &rng, noise: rng.chance(1, 3) };
    // Each rule sets a property that no other rule sets
    let mut sheet: Sheet = Vec::new();
    let mut text = String::new();
    let mut add = |selectors: Vec<Selector>, set: Vec<(usize, V)>| {
        let (decls, t): (Vec<Decl>, Vec<String>) = set.into_iter().map(|(lh, v)| gen::longhand(Print::plain(&rng), lh, v, true)).unzip();
        text.push_str(&print.rule(&selectors, &t, !foreign));
        sheet.push(Rule { selectors, decls })
    };
    let px = |x: f64| V::L(Lp::Px(x));
    add(
        vec![Selector(vec![(' ', vec![Simple::Universal])])],
        vec![(DISPLAY, V::K("block"))],
    );
    let mut props: Vec<Vec<(usize, V)>> = vec![
        vec![(PADDING, px(1.))],
        vec![(PADDING + 1, px(2.))],
        vec![(PADDING + 2, px(1.5))],
        vec![(PADDING + 3, px(3.))],
        vec![(MARGIN + 1, px(4.))],
        vec![(MARGIN + 3, px(5.))],
        vec![(BORDER_STYLE, V::K("solid"))],
        vec![(BORDER_STYLE + 3, V::K("solid"))],
        vec![(BACKGROUND, V::C(Col::Rgba([255, 0, 0, 255])))],
        vec![(COLOR, V::C(Col::Rgba([0, 0, 255, 255])))],
    ];
    rng.shuffle(&mut props);
    let n = 1 + rng.below(props.len());
    let mut tested = Vec::new();
    for p in props.into_iter().take(n) {
        let k = 1 + rng.weighted(&[8, 2, 1]);
        let mut s: Vec<Selector> = (0..k).map(|_| gen::selector(&rng, &names)).collect();
        if foreign {
            s.iter_mut().for_each(|s| gen::recase(&rng, s))
        }
        tested.extend(s.iter().cloned());
        add(s, p)
    }
    // What is not matched still has to show
    add(vec![Selector(vec![(' ', vec![Simple::Type("div".into())])])], vec![(HEIGHT, V::L(Lp::Auto))]);
    let mut texts = Texts::default();
    let head = "html,head,body{}";
    let text = format!("{}{}", head, text);
    texts.sheet(&text, sheet);
    let base = "*{background-color:gray;font-size:10px;}";
    let base_rule = vec![Rule {
        selectors: vec![Selector(vec![(' ', vec![Simple::Universal])])],
        decls: vec![
            Decl { set: vec![(BACKGROUND, V::C(Col::Rgba([128, 128, 128, 255])))], important: false },
            Decl { set: vec![(FONT_SIZE, px(10.))], important: false },
        ],
    }];
    texts.sheet(base, base_rule);
    let mut tags: Vec<&str> = names.types.iter().cloned().filter(|t| *t != "html" && *t != "body").collect();
    tags.extend(&["div", "span"]);
    if foreign {
        tags.extend(&foreign_tags)
    }
    let elements = if rng.chance(1, 20) { 120 } else { 20 };
    let doc = Doc { elements, depth: 5, text: true, tags, names };
    let html = assemble(&rng, &[base.to_owned(), text], &doc, &mut |_| {});
    cx.input(html.as_bytes());
    let dom = Dom::parse_html(html.as_bytes());
    let elements = dom.elements();
    let (mut yes, mut no, mut informative) = (0u64, 0u64, false);
    for s in &tested {
        let m = elements.iter().filter(|&&n| matches(&dom, n, s)).count();
        yes += m as u64;
        no += (elements.len() - m) as u64;
        informative |= m > 0 && m < elements.len()
    }
    let o = verdict(cx, &html, &texts, |_| informative).map(|r| {
        if r.is_some() {
            cx.add("selectors", tested.len() as u64);
            cx.add("pairs of selector and element that match", yes);
            cx.add("elements of SVG or MathML", elements.iter().filter(|&&n| dom.ns(n) != crate::dom::HTML).count() as u64);
            cx.add("pairs of selector and element that do not match", no);
            for s in &tested {
                for (i, (c, compound)) in s.0.iter().enumerate() {
                    if i > 0 {
                        cx.count(&format!("combinator “{}”", c))
                    }
                    for s in compound {
                        let k = match s {
                            Simple::Type(_) => "type",
                            Simple::Universal => "universal",
                            Simple::Id(_) => "id",
                            Simple::Class(_) => "class",
                            Simple::Attr { .. } => "attribute",
                            Simple::Nth { .. } => "nth",
                            Simple::OnlyChild | Simple::OnlyOfType => "only",
                            Simple::Empty => "empty",
                            Simple::Root => "root",
                            Simple::Not(_) => "negation",
                        };
                        cx.count(&format!("simple selectors: {}", k))
                    }
                }
            }
        }
    });
    cx.report(o)
}

// ---------------------------------------------------------------------------
// C12

/// Declarations that are surely invalid, and stay so
const BAD_DECLARATIONS: &[&str] = &[
    "color", "color:", "color: ", "color 1px", ": red", "color:: red", "color: 1px", "color: red blue", "color: \"red\"", "color: #12", "color: #12345", "color: #ggg", "color: rgb(1,2)", "color: red !importan",
    "color: red ! important x", "color: !important", "color: red !important !important", "color: !important red", "color: red!", "colour: red", "-x-color: red", "color: nosuchcolor", "color: inherit inherit", "color: inherit red", "color: red inherit",
    "color: unset()", "color: 'inherit'", "background-color: url(x.png", "background-color: 10px", "background: red 1x", "background-color: red,blue", "font-size: 10", "font-size: -1px", "font-size: red", "font-size: 10px 10px", "font-size: 10 px",
    "font-size: 1e", "font-size: auto", "width: -1px", "width: -0.5em", "width: 10", "width: 1", "width: 10px 20px", "width: red", "width: none", "width: 10pxx", "width: 10p x", "width: 1 0px", "width: +", "width: 10px,", "width: 10px/", "width: 1..5px",
    "width: px", "width: #10px", "width: '10px'", "width: (10px)", "width: [10px]", "width: {10px}", "width: 10px)", "width: 10px]", "height: -3%", "height: 7", "height: thin", "margin: ", "margin: 1px 2px 3px 4px 5px", "margin: 1px, 2px", "margin: 1px red",
    "margin: inherit 1px", "margin: 1px inherit", "margin: 5", "margin-top: 1px 2px", "margin-top: none", "padding: auto", "padding: -1px", "padding: 1px -1px", "padding: 1px 2px 3px 4px 5px", "padding-left: auto", "padding-left: -1px", "padding-top: 3",
    "border-style: foo", "border-style: solid solid solid solid solid", "border-width: auto", "border-width: -1px", "border-width: 1px 2px 3px 4px 5px", "border-width: 10%", "border-top: foo", "border-top: solid solid", "border-top: 1px 2px", "border-top: red blue",
    "border-top: solid red 1px 1px", "border-top: solid red 1px x", "border-top: inherit solid", "border-top-width: -2px", "border-top-width: 2", "border-left-style: block", "border-left-style: solid solid", "display: blok", "display: block block", "display: 1px",
    "display: \"block\"", "display: red", "position: foo", "position: left", "position: static relative", "float: top", "float: absolute", "top: red", "top: 5", "top: 1px 1px", "left: 3", "left: -", "*color: red", "$width: 5px", "!color: red", "color; red",
    "{color: red}", "(color: red)", "[color: red]", "1color: red", "#color: red", "\"color\": red", "color/: red", "foo: bar", "--x: {a:b}", "--x: (;)", "zoom: 1", "color=red", "@foo", "@foo bar", "@foo {color: red}", "width: 10px @foo",
    "x: \"a;b\"", "x: (;})", "x: [;]", "x: {;}", "color: {red}", "filter: progid:DXImageTransform.Microsoft.gradient(a='b')", "color: \\", "width: \\31 0px", "background: none 5x", "margin: 1px /", "margin: / 1px", "color: red.", "color: .red",
    "width: 10px !x", "width: 10px ! ", "width:!important", "height: 10px important", "content: \"}\"", "content: '\\'}'", "x: url(a;b)", "x: url( ';}' )",
];

/// Selectors that are surely invalid
const BAD_SELECTORS: &[&str] = &[
    "", "p..a", ".", "#", "#1", ".1", "p:", "p::", ":nosuch", "p:nosuch", "::nosuch", ":nosuch(p)", "p >", "> p", "+ p", "~ p", "p > > q", "p ++ q", ", p", "p,", "p,,q", "p, .1", "div, p:nosuch", "div, , p", "[", "[]", "[=a]", "[a=]", "[a=b c]", "[a=1]", "[a b]", "[a==b]",
    "[a!=b]", "[a=\"b\" x]", "[a=b i i]", ":not()", ":not(:nosuch)", ":not", ":nth-child", ":nth-child()", ":nth-child(x)", ":nth-child(2n+)", ":nth-child(2n + + 1)", ":nth-child(n 1)", ":nth-child(+ 1)", ":nth-child(- n)", ":nth-child(1.5)", ":nth-child(2 n)",
    ":nth-child(+ 2n)", ":first-child()", "\"p\"", "'p'", "1p", "p/q", "p & q", "!p", "p!", "$p", "p$", "p % q", "p = q", "p; q", "(p)", "p(q)", "p()", "*p", "p*", "p *.", "* *q", "p#", "p.a.", "p:first-child:", "@p", "url(p)", "p | q", "p||q", "<p", "p\\\nq", "p : first-child x:",
    "10px", "50%", "#12", "p #1", ". a", ":  ", "p: first-child", ": root", "div,p)", "p]",
];

const BAD_RULES: &[&str] = &[
    "@nosuch;", "@nosuch foo bar;", "@nosuch {}", "@nosuch { div { color: red } }", "@nosuch (;) {;}", "@font-face { font-family: x; src: url(y) }", "@charset \"utf-8\";", "@ {}", "@counter-style x { system: cyclic }",
    "@nosuch \"a;b{\";", "@nosuch [;] {;}", "@nosuch url(a;b);", "@keyframes x { from { color: red } to { color: blue } }", "@-x-foo { @bar; div { width: 1px } }", "<!--", "-->", "<!-- -->", "{}", "{ color: red }", "{ div { color: red } }", "@nosuch { } ", ";{}", "@nosuch foo { \"}\" }",
    "@nosuch { /* } */ }", "@nosuch { ( } ) }", "@nosuch { \\} }",
];

/// Only at the end of a sheet: without what closes them
const UNCLOSED: &[&str] = &["/* } p { color: red }", "@nosuch", "@nosuch {", "@nosuch { p { color: red }", "foo", "p:nosuch { color: red", "p { x: (", "div { x: \"", "p { color", "p { width: 1", "/*", "p { /*", "p { color: nosuch(", "[a=\"b", "p", "\"", "'p { color: red }", "("];

/// What is left open is closed
fn closed(s: &str) -> String {
        let mut close = Vec::new();
        let mut quote = None;
        let mut chars = s.chars();
        while let Some(c) = chars.next() {
            match (quote, c) {
                (_, '\\') => {
                    chars.next();
                }
                (Some(q), c) => {
                    if q == c {
                        quote = None
                    }
                }
                (None, '"') | (None, '\'') => quote = Some(c),
                (None, '(') => close.push(')'),
                (None, '[') => close.push(']'),
                (None, '{') => close.push('}'),
                (None, ')') | (None, ']') | (None, '}') => {
                    close.pop();
                }
                _ => {}
            }
        }
        let mut s = s.to_owned();
        if s.ends_with('\\') {
            s.push_str("61 ")
        }
        s.extend(close.into_iter().rev());
        s
    }

fn c12(cx: &mut Cx) {
    let rng = cx.rng.clone();
    let names = Names {
        types: vec!["div", "p", "section", "body", "div"],
        ids: vec!["i", "j"],
        classes: vec!["a", "b", "c-d"],
        attrs: vec![("x", "y"), ("x", "z w")],
    };
    let sg = SheetGen { rng: &rng, print: Print { rng: &rng, noise: rng.chance(3, 4) }, names: &names, focus: vec![] };
    let p = sg.print;
    let mut added = [0u64; 4];
    let junk = rng.below(4) as u32;
    // Declarations with invalid ones among them
    let block = |n: usize, added: &mut [u64; 4]| -> (Vec<Decl>, Vec<String>) {
        let (d, mut t) = sg.declarations(n);
        if rng.chance(junk, 6) {
            for _ in 0..1 + rng.below(if rng.chance(1, 40) { 40 } else { 2 }) {
                let at = rng.below(t.len() + 1);
                t.insert(at, closed(rng.pick(BAD_DECLARATIONS)));
                added[0] += 1
            }
        }
        (d, t)
    };
    let mut texts = Texts::default();
    let mut sheets = Vec::new();
    for i in 0..1 + rng.below(2) {
        let mut text = String::new();
        let mut sheet = Vec::new();
        if i == 0 {
            text.push_str("div,p,section{display:block;padding:1px;background:#4080c0}");
            sheet.push(Rule {
                selectors: ["div", "p", "section"].iter().map(|t| Selector(vec![(' ', vec![Simple::Type(t.to_string())])])).collect(),
                decls: vec![
                    Decl { set: vec![(DISPLAY, V::K("block"))], important: false },
                    Decl { set: (0..4).map(|i| (PADDING + i, V::L(Lp::Px(1.)))).collect(), important: false },
                    Decl { set: vec![(BACKGROUND, V::C(Col::Rgba([0x40, 0x80, 0xc0, 0xff])))], important: false },
                ],
            })
        }
        let n = 1 + rng.below(4);
        for k in 0..n {
            if rng.chance(junk, 8) {
                for _ in 0..1 + rng.below(if rng.chance(1, 20) { 50 } else { 1 }) {
                    text.push_str(rng.pick(BAD_RULES));
                    text.push_str(&p.gap());
                    added[1] += 1
                }
            }
            if rng.chance(junk, 8) {
                // A whole rule dropped
                // What it leaves open closes over the block
                let mut bad = closed(rng.pick(BAD_SELECTORS));
                if rng.chance(1, 3) {
                    let good = p.selector(&gen::selector(&rng, &names), true);
                    bad = match rng.below(3) {
                        0 => format!("{}, {}", good, bad),
                        1 => format!("{}, {}", bad, good),
                        _ => format!("{}, {}, {}", good, bad, good),
                    }
                }
                if !bad.trim_start().starts_with('@') {
                    let (_, t) = block(1 + rng.below(2), &mut added);
                    text.push_str(&format!("{}{{{}}}", bad, p.block(&t)));
                    added[2] += 1
                }
            }
            let sel: Vec<Selector> = (0..1 + rng.weighted(&[6, 2])).map(|_| if rng.chance(1, 2) { Selector(vec![(' ', vec![Simple::Type(rng.pick(&names.types).into())])]) } else { gen::selector(&rng, &names) }).collect();
            let (d, t) = block(1 + rng.below(4), &mut added);
            let mut r = p.rule(&sel, &t, true);
            if k + 1 == n && rng.chance(1, 8) {
                // No closing brace at the end
                while r.ends_with(|c: char| c.is_ascii_whitespace()) {
                    r.pop();
                }
                if r.ends_with('}') {
                    r.pop();
                    if junk == 0 && r.ends_with(')') {
                        r.pop();
                    }
                    added[3] += 1
                }
                text.push_str(&r)
            } else {
                text.push_str(&r);
                if k + 1 == n && rng.chance(junk, 8) {
                    text.push_str(rng.pick(UNCLOSED));
                    added[3] += 1
                }
            }
            sheet.push(Rule { selectors: sel, decls: d })
        }
        texts.sheet(&text, sheet);
        sheets.push(text)
    }
    let doc = Doc { elements: 8, depth: 4, text: true, tags: vec!["div", "p", "section", "div"], names: names_copy(&names) };
    let attributes = &mut texts.attributes;
    let mut html = assemble(&rng, &sheets, &doc, &mut |out| {
        if rng.chance(1, 4) {
            let (d, t) = block(1 + rng.below(3), &mut added);
            let text = p.block(&t);
            // A null, a carriage return or a form feed come out of the HTML parser as something else
            if text.contains('\r') || text.contains('\0') {
                return;
            }
            out.push_str(&format!(" style=\"{}\"", attr_escape(&text)));
            attributes.insert(text, d);
        }
    });
    // Other languages
    let mut other = 0;
    if rng.chance(1, 4) {
        let ty = rng.pick(&["text/plain", "text/less", "css", "text/css2", "text/css; charset=utf-8", "text", " ", "application/css", "text/x-css", " text/css "]);
        let late = rng.chance(1, 2);
        let s = format!("<style type=\"{}\">*{{color:red!important;display:none}}</style>", ty);
        if late {
            html.push_str(&s)
        } else {
            html = html.replacen("<!doctype html>", &format!("<!doctype html>{}", s), 1)
        }
        other = 1
    }
    let noise = p.noise;
    let total: u64 = added.iter().sum::<u64>() + other;
    let o = verdict(cx, &html, &texts, |_| noise || total > 0).map(|r| {
        if r.is_some() {
            cx.add("invalid declarations", added[0]);
            cx.add("unknown at-rules and stray blocks", added[1]);
            cx.add("rules with an invalid selector", added[2]);
            cx.add("sheets without closing tokens", added[3]);
            cx.add("style elements of another type", other);
            cx.add("documents with varied syntax", noise as u64)
        }
    });
    cx.report(o)
}

// ---------------------------------------------------------------------------
// C20

const COLOR_NAMES: &str = "aliceblue f0f8ff antiquewhite faebd7 aqua 00ffff aquamarine 7fffd4 azure f0ffff beige f5f5dc bisque ffe4c4 black 000000 blanchedalmond ffebcd blue 0000ff blueviolet 8a2be2 brown a52a2a burlywood deb887 cadetblue 5f9ea0 \
chartreuse 7fff00 chocolate d2691e coral ff7f50 cornflowerblue 6495ed cornsilk fff8dc crimson dc143c cyan 00ffff darkblue 00008b darkcyan 008b8b darkgoldenrod b8860b darkgray a9a9a9 darkgreen 006400 darkgrey a9a9a9 darkkhaki bdb76b \
darkmagenta 8b008b darkolivegreen 556b2f darkorange ff8c00 darkorchid 9932cc darkred 8b0000 darksalmon e9967a darkseagreen 8fbc8f darkslateblue 483d8b darkslategray 2f4f4f darkslategrey 2f4f4f darkturquoise 00ced1 darkviolet 9400d3 \
deeppink ff1493 deepskyblue 00bfff dimgray 696969 dimgrey 696969 dodgerblue 1e90ff firebrick b22222 floralwhite fffaf0 forestgreen 228b22 fuchsia ff00ff gainsboro dcdcdc ghostwhite f8f8ff gold ffd700 goldenrod daa520 gray 808080 \
green 008000 greenyellow adff2f grey 808080 honeydew f0fff0 hotpink ff69b4 indianred cd5c5c indigo 4b0082 ivory fffff0 khaki f0e68c lavender e6e6fa lavenderblush fff0f5 lawngreen 7cfc00 lemonchiffon fffacd lightblue add8e6 \
lightcoral f08080 lightcyan e0ffff lightgoldenrodyellow fafad2 lightgray d3d3d3 lightgreen 90ee90 lightgrey d3d3d3 lightpink ffb6c1 lightsalmon ffa07a lightseagreen 20b2aa lightskyblue 87cefa lightslategray 778899 \
lightslategrey 778899 lightsteelblue b0c4de lightyellow ffffe0 lime 00ff00 limegreen 32cd32 linen faf0e6 magenta ff00ff maroon 800000 mediumaquamarine 66cdaa mediumblue 0000cd mediumorchid ba55d3 mediumpurple 9370db \
mediumseagreen 3cb371 mediumslateblue 7b68ee mediumspringgreen 00fa9a mediumturquoise 48d1cc mediumvioletred c71585 midnightblue 191970 mintcream f5fffa mistyrose ffe4e1 moccasin ffe4b5 navajowhite ffdead navy 000080 oldlace fdf5e6 \
olive 808000 olivedrab 6b8e23 orange ffa500 orangered ff4500 orchid da70d6 palegoldenrod eee8aa palegreen 98fb98 paleturquoise afeeee palevioletred db7093 papayawhip ffefd5 peachpuff ffdab9 peru cd853f pink ffc0cb plum dda0dd \
powderblue b0e0e6 purple 800080 rebeccapurple 663399 red ff0000 rosybrown bc8f8f royalblue 4169e1 saddlebrown 8b4513 salmon fa8072 sandybrown f4a460 seagreen 2e8b57 seashell fff5ee sienna a0522d silver c0c0c0 skyblue 87ceeb \
slateblue 6a5acd slategray 708090 slategrey 708090 snow fffafa springgreen 00ff7f steelblue 4682b4 tan d2b48c teal 008080 thistle d8bfd8 tomato ff6347 turquoise 40e0d0 violet ee82ee wheat f5deb3 white ffffff whitesmoke f5f5f5 \
yellow ffff00 yellowgreen 9acd32";

/// 0 to 1 to a byte, unless rounding is open
fn byte(x: f64) -> Option<u8> {
    let x = x.max(0.).min(1.) * 255.;
    if (x - x.floor() - 0.5).abs() < 0.02 {
        None
    } else {
        Some(x.round() as u8)
    }
}

fn hsl(h: f64, s: f64, l: f64) -> Option<[u8; 3]> {
    let (s, l) = (s.max(0.).min(1.), l.max(0.).min(1.));
    let h = h.rem_euclid(360.);
    let f = |n: f64| {
        let k = (n + h / 30.) % 12.;
        let a = s * l.min(1. - l);
        l - a * (k - 3.).min(9. - k).min(1.).max(-1.)
    };
    Some([byte(f(0.))?, byte(f(8.))?, byte(f(4.))?])
}

/// A colour in any notation
fn color_text(p: Print) -> Option<([u8; 4], String)> {
    let rng = p.rng;
    let alpha = |texts: &mut Vec<String>| -> Option<u8> {
        if rng.chance(1, 2) {
            return Some(255);
        }
        let a = rng.range(-20, 120) as f64;
        let percent = rng.chance(1, 3);
        texts.push(if percent { p.number(a) + "%" } else { p.number(a / 100.) });
        byte(a / 100.)
    };
    let function = |name: &str, texts: &[String], alpha: bool| -> String {
        let name = p.keyword(if rng.chance(1, 2) { name.to_owned() + "a" } else { name.into() }.as_str());
        let mut t = format!("{}({}", name, p.gap());
        let commas = rng.chance(1, 2);
        for (i, x) in texts.iter().enumerate() {
            if i > 0 {
                if commas {
                    t.push_str(&format!("{},{}", p.gap(), p.gap()))
                } else if i == 3 && alpha {
                    t.push_str(&format!("{}/{}", p.gap(), p.gap()))
                } else {
                    t.push_str(&p.space())
                }
            }
            t.push_str(x)
        }
        t.push_str(&p.gap());
        t.push(')');
        t
    };
    match rng.below(6) {
        0 => {
            let all: Vec<&str> = COLOR_NAMES.split_ascii_whitespace().collect();
            let i = rng.below(all.len() / 2) * 2;
            let n = u32::from_str_radix(all[i + 1], 16).unwrap();
            Some(([(n >> 16) as u8, (n >> 8) as u8, n as u8, 255], p.keyword(all[i])))
        }
        1 => {
            let n = rng.pick(&[3, 4, 6, 8]);
            let digits: Vec<u8> = (0..n).map(|_| rng.below(16) as u8).collect();
            let text: String = digits.iter().map(|d| format!("{:x}", d)).map(|d| if rng.chance(1, 3) { d.to_uppercase() } else { d }).collect();
            let mut c: Vec<u8> = if n < 5 { digits.iter().map(|d| d * 17).collect() } else { digits.chunks(2).map(|d| d[0] * 16 + d[1]).collect() };
            if c.len() == 3 {
                c.push(255)
            }
            Some(([c[0], c[1], c[2], c[3]], format!("#{}", text)))
        }
        2 => {
            let mut texts = Vec::new();
            let mut c = [0u8; 4];
            for i in 0..3 {
                let v = if rng.chance(1, 6) { rng.range(-300, 600) } else { rng.range(0, 255) };
                c[i] = v.max(0).min(255) as u8;
                texts.push(p.number(v as f64))
            }
            c[3] = alpha(&mut texts)?;
            Some((c, function("rgb", &texts, true)))
        }
        3 => {
            let mut texts = Vec::new();
            let mut c = [0u8; 4];
            for i in 0..3 {
                let v = rng.range(-20, 140) as f64;
                c[i] = byte(v / 100.)?;
                texts.push(p.number(v) + "%")
            }
            c[3] = alpha(&mut texts)?;
            Some((c, function("rgb", &texts, true)))
        }
        4 => Some(([0, 0, 0, 0], p.keyword("transparent"))),
        _ => {
            let h = rng.range(-400, 800) as f64;
            let (s, l) = (rng.range(-10, 120) as f64, rng.range(-10, 110) as f64);
            let hue = match rng.below(4) {
                0 => p.number(h) + &p.keyword("deg"),
                1 => p.number(h / 360.) + &p.keyword("turn"),
                2 => p.number(h / 0.9) + &p.keyword("grad"),
                _ => p.number(h),
            };
            let mut texts = vec![hue, p.number(s) + "%", p.number(l) + "%"];
            let [r, g, b] = hsl(h, s / 100., l / 100.)?;
            let a = alpha(&mut texts)?;
            Some(([r, g, b, a], function("hsl", &texts, true)))
        }
    }
}

const BAD_COLORS: &[&str] = &[
    "#", "#1", "#12", "#12345", "#1234567", "#123456789", "#ggg", "# fff", "fff", "000", "rgb()", "rgb(1)", "rgb(1,2)", "rgb(1,2,3,)", "rgb(1,2,3,4,5)", "rgb(1,2,)", "rgb(1,,2,3)", "rgb(1 2,3)", "rgb(1,2 3)", "rgb(1 2 3 4)", "rgb(1 2 3 /)", "rgb(1,2,3 / 4)",
    "rgb(1px,2,3)", "rgb(1,2%,3)", "rgb(1%,2,3)", "rgb(a,b,c)", "rgb(\"1\",2,3)", "rgb (1,2,3)", "rgb[1,2,3]", "rgb 1 2 3", "hsl()", "hsl(1,2,3)", "hsl(1,2%,3)", "hsl(1%,2%,3%)", "hsl(1px,2%,3%)", "hsl(1,2%,3%,4,5)", "hsl(1,2%)", "redd", "re d", "-red", "red red",
    "transparent red", "current-color", "currentcolour", "light gray", "gray50", "\"red\"", "'#fff'", "0", "1px", "auto", "none", "solid", "rgba", "rgb(1,2,3)x", "rgb(1,2,3)rgb(1,2,3)", "#fff #fff", "inherit red", "foo(1,2,3)", "!red", "#fff!",
];

/// A length in any notation
fn length_text(p: Print, negative: bool) -> (Lp, String) {
    let rng = p.rng;
    let m = if negative && rng.chance(1, 3) { -1. } else { 1. };
    let x = m * match rng.below(4) {
        0 => rng.range(0, 40) as f64,
        1 => rng.range(0, 400) as f64 / 8.,
        2 => rng.range(0, 2000) as f64 / 100.,
        _ if rng.chance(1, 6) => rng.range(0, 9000) as f64,
        _ => rng.range(0, 9) as f64,
    };
    if rng.chance(1, 6) {
        return (Lp::Px(0.), rng.pick(&["0", "0", "+0", "-0", "0.0", "0e3", ".0", "-.0", "00", "0.000e-7"]).into());
    }
    match rng.below(3) {
        0 => (Lp::Em(x / 8.), p.number(x / 8.) + &p.keyword("em")),
        _ => (Lp::Px(x), p.number(x) + &p.keyword("px")),
    }
}

fn value_text(p: Print, lh: usize) -> Option<(V, String)> {
    let rng = p.rng;
    let length = |negative: bool, percent: bool, auto: bool| {
        if auto && rng.chance(1, 6) {
            return (V::L(Lp::Auto), p.keyword("auto"));
        }
        if percent && rng.chance(1, 3) {
            let x = match rng.below(12) {
                0 => rng.range(if negative { -30 } else { 0 }, 60) as f64 * 100.,
                _ if negative => rng.range(-400, 400) as f64 / 8.,
                _ => rng.range(0, 800) as f64 / 8.,
            };
            return (V::L(Lp::Pct(x)), p.number(x) + "%");
        }
        let (l, t) = length_text(p, negative);
        (V::L(l), t)
    };
    let keyword = |k: &'static str| (V::K(k), p.keyword(k));
    Some(match LONGHANDS[lh].1 {
        Kind::FontSize => loop {
            let (v, t) = length(false, false, false);
            // What is too small shows nothing
            match v {
                V::L(Lp::Px(x)) if x == 0. || x > 0.2 => break (v, t),
                V::L(Lp::Em(x)) if x > 0.1 => break (v, t),
                _ => {}
            }
        },
        Kind::Color | Kind::Background | Kind::BorderColor => {
            if rng.chance(1, 8) {
                (V::C(Col::Current), p.keyword("currentColor"))
            } else {
                let (c, t) = color_text(p)?;
                (V::C(Col::Rgba(c)), t)
            }
        }
        Kind::Position => keyword(rng.pick(&["static", "relative", "absolute"])),
        Kind::Float => keyword("none"),
        Kind::Display => keyword(rng.pick(&["none", "block", "inline", "flow-root", "contents"])),
        Kind::Offset => length(true, true, true),
        Kind::Size => length(false, true, true),
        Kind::Margin => length(true, true, true),
        Kind::Padding => length(false, true, false),
        Kind::BorderStyle => keyword(rng.pick(&["none", "solid"])),
        Kind::BorderWidth => {
            if rng.chance(1, 3) {
                let (k, x) = rng.pick(&[("thin", 1.), ("medium", 3.), ("thick", 5.)]);
                (V::L(Lp::Px(x)), p.keyword(k))
            } else {
                length(false, false, false)
            }
        }
    })
}

const BAD_LENGTHS: &[&str] = &[
    "1", "-1", "5.5", "+3", "1e1", "px", "em", "1 px", "10 em", "1pxx", "1ppx", "1epx", "1p", "1e", "1foo", "1%%", "% 1", "%", "1 %", "--1px", "+-1px", "- 1px", "+ 1px", "1.px", "1..5px", "1px1px", "1px,", ",1px", "1px/1px", "\"1px\"", "'auto'", "1px auto auto auto auto", "autoo",
    "aut o", "#1px", "(1px)", "[1px]", "{1px}", "1px)", "red", "solid", "block", "1px!", "1px!x", "foo(1px)", "nan", "inf", "infinity", "1px\\", "0 0 0 0 0", "inherit 1px", "unset unset", "1\\%", "1px-", "0x10", "1_0px", "１px",
];

fn bad_value(rng: &Rng, lh: usize) -> String {
    let t = match LONGHANDS[lh].1 {
        Kind::Color | Kind::Background | Kind::BorderColor => rng.pick(BAD_COLORS).to_owned(),
        Kind::Position => rng.pick(&["fix", "static relative", "1px", "absolut", "none", "block", "'static'", "static,absolute", "left", "auto", "relative()", "rel ative"]).into(),
        Kind::Float => rng.pick(&["top", "none none", "0", "'none'", "absolute", "auto", "non", "none()"]).into(),
        Kind::Display => rng.pick(&["blok", "block,", "1", "'block'", "static", "auto", "hidden", "flow root", "flow_root", "block block block", "inline()", "noone", "block none", "contents block", "0", "in-line"]).into(),
        Kind::BorderStyle => rng.pick(&["soliid", "1px", "red", "solid,", "'solid'", "auto", "block", "none()", "inheritt", "so lid", "thin"]).into(),
        kind => {
            let negative = matches!(kind, Kind::FontSize | Kind::Size | Kind::Padding | Kind::BorderWidth);
            if negative && rng.chance(1, 3) {
                rng.pick(&["-1px", "-0.5em", "-1e-1px", "-1e1em", "-.5px", "-30px"]).into()
            } else if matches!(kind, Kind::FontSize | Kind::Padding | Kind::BorderWidth) && rng.chance(1, 4) {
                "auto".into()
            } else if kind == Kind::BorderWidth && rng.chance(1, 3) {
                rng.pick(&["1%", "thin thin thin thin thin", "fat", "solid", "0%", "thick,"]).into()
            } else if kind != Kind::BorderWidth && rng.chance(1, 6) {
                rng.pick(&["thin", "medium x", "thick"]).into()
            } else {
                rng.pick(BAD_LENGTHS).into()
            }
        }
    };
    // Keywords that later specifications give to font-size
    if LONGHANDS[lh].1 == Kind::FontSize && t.starts_with("medium") {
        return "mediumm".into();
    }
    closed(&t)
}

const FOUR: &str = "four-sides-order";

const INNER: &str = "<p style=\"display:block;margin:0;height:3px;background-color:navy\"></p>";
const INNER_STYLE: &str = "display:block;margin:0;height:3px;background-color:navy";

fn c20(cx: &mut Cx) {
    let rng = cx.rng.clone();
    let plain = Print::plain(&rng);
    let p = Print { rng: &rng, noise: rng.chance(1, 2) };
    let mut texts = Texts::default();
    // With the known order of sides
    let mut other: std::collections::HashMap<String, Vec<Decl>> = Default::default();
    let mut four = false;
    let (mut accepted, mut rejected) = (0u64, 0u64);
    let mut html = String::from("<!doctype html><body style=\"background-color:#eee\">");
    texts.attributes.insert("background-color:#eee".into(), vec![Decl { set: vec![(BACKGROUND, V::C(Col::Rgba([0xee, 0xee, 0xee, 255])))], important: false }]);
    let mut kinds: Vec<String> = Vec::new();
    for _ in 0..1 + rng.below(8) {
        let mut decls: Vec<Decl> = Vec::new();
        let mut text: Vec<String> = Vec::new();
        let mut add = |d: Decl, t: String| {
            decls.push(d);
            text.push(t)
        };
        let mut base = |lh: usize, v: V| {
            let (d, t) = gen::longhand(plain, lh, v, false);
            add(d, t)
        };
        let lh = loop {
            let lh = rng.below(32);
            if lh < BORDER_COLOR || lh >= BORDER_STYLE {
                break lh;
            }
        };
        base(DISPLAY, V::K("block"));
        base(BACKGROUND, V::C(Col::Rgba([0x88, 0x99, 0xaa, 255])));
        base(FONT_SIZE, V::L(Lp::Px(rng.range(4, 30) as f64)));
        match LONGHANDS[lh].1 {
            Kind::Offset => base(POSITION, V::K("relative")),
            Kind::BorderStyle => (0..4).for_each(|i| base(BORDER_WIDTH + i, V::L(Lp::Px(2. + i as f64)))),
            Kind::BorderWidth => {
                let all = rng.chance(1, 2);
                (0..4).for_each(|i| base(BORDER_STYLE + i, V::K(if all || rng.chance(2, 3) { "solid" } else { "none" })))
            }
            _ => {}
        }
        // What is kept if the value is rejected
        if LONGHANDS[lh].1 != Kind::Position && rng.chance(3, 4) {
            base(lh, gen::value(&rng, lh))
        }
        let important = rng.chance(1, 8);
        let shorthand = gen::FOUR_SIDES.iter().position(|f| lh >= f.1 && lh < f.1 + 4).filter(|_| rng.chance(1, 3));
        let n = if shorthand.is_some() { 1 + rng.below(if rng.chance(1, 8) { 4 } else { 3 }) } else { 1 };
        let name = match shorthand {
            Some(s) => gen::FOUR_SIDES[s].0,
            None if lh == BACKGROUND && rng.chance(1, 3) => "background",
            None if rng.chance(1, 12) => "border-top",
            None => LONGHANDS[lh].0,
        };
        let (d, t, kept): (Decl, String, Option<Decl>) = if name == "border-top" {
            let mut parts = Vec::new();
            let mut set = vec![(BORDER_COLOR, V::W(Wide::Initial)), (BORDER_STYLE, V::W(Wide::Initial)), (BORDER_WIDTH, V::W(Wide::Initial))];
            let mut order = [0, 1, 2];
            rng.shuffle(&mut order);
            let n = 1 + rng.below(3);
            for &i in &order[..n] {
                if let Some((v, t)) = value_text(p, set[i].0) {
                    set[i].1 = v;
                    parts.push(t)
                }
            }
            let mut valid = !parts.is_empty();
            if rng.chance(1, 4) {
                valid = false;
                if parts.is_empty() {
                    parts.push("2px".into())
                }
                let at = rng.below(parts.len() + 1);
                // Something else, or the same twice
                let again = parts[rng.below(parts.len())].clone();
                parts.insert(at, rng.pick(&[again.as_str(), again.as_str(), "foo", "1", "-1px", "10%", "auto", "/", ",", "inherit", "'red'", "#12", "soliid", "none()"]).into())
            }
            let text = parts.join(&p.space());
            (Decl { set: if valid { set } else { vec![] }, important }, p.declaration(name, &text, important), None)
        } else if rng.chance(1, 3) {
            let mut parts: Vec<String> = Vec::new();
            for _ in 0..n {
                match value_text(p, lh) {
                    Some((_, t)) => parts.push(t),
                    None => break,
                }
            }
            if n == 4 && parts.len() == 4 && rng.chance(1, 2) {
                // Five are too many
                parts.push(parts[0].clone())
            } else {
                let at = rng.below(parts.len() + 1);
                let bad = bad_value(&rng, lh);
                if parts.len() < 2 || shorthand.is_none() {
                    parts = vec![bad]
                } else {
                    parts.insert(at, bad)
                }
            }
            (Decl { set: vec![], important }, p.declaration(name, &parts.join(&p.space()), important), None)
        } else if rng.chance(1, 10) {
            let w = gen::wide(&rng);
            let set = match shorthand {
                Some(s) => (0..4).map(|i| (gen::FOUR_SIDES[s].1 + i, w)).collect(),
                None => vec![(lh, w)],
            };
            (Decl { set, important }, p.declaration(name, &p.value(w), important), None)
        } else {
            let v: Vec<(V, String)> = (0..n).filter_map(|_| value_text(p, lh)).collect();
            if v.is_empty() {
                continue;
            }
            let n = v.len();
            let t: Vec<&str> = v.iter().map(|x| &*x.1).collect();
            let mut kept = None;
            let set = match shorthand {
                Some(s) => {
                    let lh = gen::FOUR_SIDES[s].1;
                    let at = |i: usize| match (n, i) {
                        (1, _) => 0,
                        (2, i) => i % 2,
                        (3, 3) => 1,
                        (_, i) => i,
                    };
                    if n == 4 {
                        // top, left, bottom, right
                        kept = Some(Decl { set: (0..4).map(|i| (lh + i, v[[0, 3, 2, 1][i]].0)).collect(), important });
                        four = true
                    }
                    (0..4).map(|i| (lh + i, v[at(i)].0)).collect()
                }
                None => vec![(lh, v[0].0)],
            };
            (Decl { set, important }, p.declaration(name, &t.join(&p.space()), important), kept)
        };
        if d.set.is_empty() {
            rejected += 1
        } else {
            accepted += 1
        }
        kinds.push(format!("{} values {}", name, if d.set.is_empty() { "rejected" } else { "accepted" }));
        let mut alternative = decls.clone();
        alternative.push(kept.unwrap_or_else(|| d.clone()));
        decls.push(d);
        text.push(t);
        let text = text.join(";");
        // Carriage returns are normalized by the HTML parser
        let text = text.replace("\r\n", "\n");
        html.push_str(&format!("<div style=\"{}\">ab <span style=\"background-color:gold\">c</span>{}</div>", attr_escape(&text), rng.pick(&["", INNER])));
        other.insert(text.clone(), alternative);
        texts.attributes.insert(text, decls);
    }
    for t in [&mut texts.attributes, &mut other].iter_mut() {
        // Shows the content box of its parent
        let px = |x: f64| V::L(Lp::Px(x));
        let mut set: Vec<(usize, V)> = (0..4).map(|i| (MARGIN + i, px(0.))).collect();
        set.extend(vec![(DISPLAY, V::K("block")), (HEIGHT, px(3.)), (BACKGROUND, V::C(Col::Rgba([0, 0, 0x80, 255])))]);
        t.insert(INNER_STYLE.into(), vec![Decl { set, important: false }]);
        t.insert("background-color:gold".into(), vec![Decl { set: vec![(BACKGROUND, V::C(Col::Rgba([255, 0xd7, 0, 255])))], important: false }]);
    }
    other.insert("background-color:#eee".into(), texts.attributes["background-color:#eee"].clone());
    let mut o = verdict(cx, &html, &texts, |_| accepted + rejected > 0).map(|r| {
        if r.is_some() {
            cx.add("values accepted", accepted);
            cx.add("values rejected", rejected);
            for k in kinds {
                cx.count(&k)
            }
        }
    });
    if let (Err(f), true) = (&mut o, four) {
        texts.attributes = other;
        let quiet = verdict(cx, &html, &texts, |_| false);
        if quiet.is_ok() {
            f.sig = Some(FOUR.into())
        }
    }
    cx.report(o)
}
