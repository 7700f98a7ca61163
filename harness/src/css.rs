//! Reference CSS: values, cascade, selectors. Style sheets are made as syntax trees and printed,
//! so that nothing here parses CSS.
use crate::dom::{Data, Dom, HTML, MATHML, SVG};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lp {
    Px(f64),
    Em(f64),
    Pct(f64),
    Auto,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Col {
    Rgba([u8; 4]),
    Current,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wide {
    Inherit,
    Initial,
    Unset,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    L(Lp),
    C(Col),
    K(&'static str),
    W(Wide),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    FontSize,
    Color,
    Position,
    Float,
    Display,
    Offset,
    Size,
    Margin,
    Padding,
    BorderColor,
    BorderStyle,
    BorderWidth,
    Background,
}

pub const FONT_SIZE: usize = 0;
pub const COLOR: usize = 1;
pub const POSITION: usize = 2;
pub const FLOAT: usize = 3;
pub const DISPLAY: usize = 4;
/// top, right, bottom, left
pub const OFFSET: usize = 5;
pub const WIDTH: usize = 9;
pub const HEIGHT: usize = 10;
pub const MARGIN: usize = 11;
pub const PADDING: usize = 15;
pub const BORDER_COLOR: usize = 19;
pub const BORDER_STYLE: usize = 23;
pub const BORDER_WIDTH: usize = 27;
pub const BACKGROUND: usize = 31;

pub const LONGHANDS: [(&str, Kind); 32] = [
    ("font-size", Kind::FontSize),
    ("color", Kind::Color),
    ("position", Kind::Position),
    ("float", Kind::Float),
    ("display", Kind::Display),
    ("top", Kind::Offset),
    ("right", Kind::Offset),
    ("bottom", Kind::Offset),
    ("left", Kind::Offset),
    ("width", Kind::Size),
    ("height", Kind::Size),
    ("margin-top", Kind::Margin),
    ("margin-right", Kind::Margin),
    ("margin-bottom", Kind::Margin),
    ("margin-left", Kind::Margin),
    ("padding-top", Kind::Padding),
    ("padding-right", Kind::Padding),
    ("padding-bottom", Kind::Padding),
    ("padding-left", Kind::Padding),
    ("border-top-color", Kind::BorderColor),
    ("border-right-color", Kind::BorderColor),
    ("border-bottom-color", Kind::BorderColor),
    ("border-left-color", Kind::BorderColor),
    ("border-top-style", Kind::BorderStyle),
    ("border-right-style", Kind::BorderStyle),
    ("border-bottom-style", Kind::BorderStyle),
    ("border-left-style", Kind::BorderStyle),
    ("border-top-width", Kind::BorderWidth),
    ("border-right-width", Kind::BorderWidth),
    ("border-bottom-width", Kind::BorderWidth),
    ("border-left-width", Kind::BorderWidth),
    ("background-color", Kind::Background),
];

pub fn initial(lh: usize) -> V {
    match LONGHANDS[lh].1 {
        Kind::FontSize => V::L(Lp::Px(16.)),
        Kind::Color => V::C(Col::Rgba([0, 0, 0, 255])),
        Kind::Position => V::K("static"),
        Kind::Float => V::K("none"),
        Kind::Display => V::K("inline"),
        Kind::Offset | Kind::Size => V::L(Lp::Auto),
        Kind::Margin | Kind::Padding => V::L(Lp::Px(0.)),
        Kind::BorderColor => V::C(Col::Current),
        Kind::BorderStyle => V::K("none"),
        Kind::BorderWidth => V::L(Lp::Px(3.)),
        Kind::Background => V::C(Col::Rgba([0, 0, 0, 0])),
    }
}

/// Computed values. No `Em` and no `W` in there.
#[derive(Clone, Debug, PartialEq)]
pub struct Style {
    pub v: [V; 32],
    pub specified_display: &'static str,
}

impl Style {
    pub fn initial() -> Style {
        let mut v = [V::K(""); 32];
        for (i, v) in v.iter_mut().enumerate() {
            *v = initial(i)
        }
        let mut s = Style { v, specified_display: "inline" };
        s.fixup();
        s
    }
    fn fixup(&mut self) {
        for side in 0..4 {
            if self.v[BORDER_STYLE + side] == V::K("none") {
                self.v[BORDER_WIDTH + side] = V::L(Lp::Px(0.))
            }
        }
        self.specified_display = self.display();
        if (self.is("position", "absolute") || self.v[FLOAT] != V::K("none")) && self.display() == "inline" {
            self.v[DISPLAY] = V::K("block")
        }
    }
    pub fn is(&self, name: &str, k: &str) -> bool {
        let lh = match name {
            "position" => POSITION,
            "float" => FLOAT,
            _ => DISPLAY,
        };
        matches!(self.v[lh], V::K(x) if x == k)
    }
    pub fn display(&self) -> &'static str {
        match self.v[DISPLAY] {
            V::K(k) => k,
            _ => unreachable!(),
        }
    }
    pub fn font_size(&self) -> f64 {
        match self.v[FONT_SIZE] {
            V::L(Lp::Px(x)) => x,
            _ => unreachable!(),
        }
    }
    pub fn color(&self) -> [u8; 4] {
        match self.v[COLOR] {
            V::C(Col::Rgba(c)) => c,
            _ => unreachable!(),
        }
    }
    pub fn background(&self) -> [u8; 4] {
        match self.v[BACKGROUND] {
            V::C(Col::Rgba(c)) => c,
            _ => self.color(),
        }
    }
    pub fn len(&self, lh: usize) -> Lp {
        match self.v[lh] {
            V::L(l) => l,
            _ => unreachable!(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Decl {
    /// Empty if invalid
    pub set: Vec<(usize, V)>,
    pub important: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Exists,
    Equal,
    Includes,
    Dash,
    Prefix,
    Suffix,
    Substring,
}

#[derive(Clone, Debug)]
pub enum Simple {
    Type(String),
    Universal,
    Id(String),
    Class(String),
    Attr { name: String, op: Op, value: String, insensitive: bool },
    Nth { a: i64, b: i64, last: bool, of_type: bool },
    OnlyChild,
    OnlyOfType,
    Empty,
    Root,
    Not(Box<Simple>),
}

/// Compounds from left to right, with the combinator before each (the first one’s is unused)
#[derive(Clone, Debug)]
pub struct Selector(pub Vec<(char, Vec<Simple>)>);

#[derive(Clone, Debug)]
pub struct Rule {
    pub selectors: Vec<Selector>,
    pub decls: Vec<Decl>,
}

pub type Sheet = Vec<Rule>;

// Attributes whose values HTML says to match without case
const INSENSITIVE: &[&str] = &[
    "accept", "accept-charset", "align", "alink", "axis", "bgcolor", "charset", "checked", "clear", "codetype", "color", "compact", "declare", "defer", "dir", "direction", "disabled", "enctype", "face", "frame", "hreflang",
    "http-equiv", "lang", "language", "link", "media", "method", "multiple", "nohref", "noresize", "noshade", "nowrap", "readonly", "rel", "rev", "rules", "scope", "scrolling", "selected", "shape", "target", "text", "type",
    "valign", "valuetype", "vlink",
];

fn siblings(dom: &Dom, n: usize) -> Vec<usize> {
    match dom.nodes[n].parent {
        Some(p) => dom.element_children(p),
        None => vec![n],
    }
}

pub fn matches_simple(dom: &Dom, n: usize, s: &Simple) -> bool {
    let html = dom.ns(n) == HTML;
    match s {
        Simple::Universal => true,
        Simple::Type(t) => {
            if html {
                t.to_ascii_lowercase() == dom.local(n)
            } else {
                t == dom.local(n)
            }
        }
        Simple::Id(i) => dom.attr(n, "id") == Some(i),
        Simple::Class(c) => dom.attr(n, "class").map_or(false, |v| v.split(|c: char| matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c')).any(|x| x == c)),
        Simple::Attr { name, op, value, insensitive } => {
            let wanted = if html { name.to_ascii_lowercase() } else { name.clone() };
            let fold = *insensitive || html && INSENSITIVE.contains(&&*name.to_ascii_lowercase());
            let f = |s: &str| if fold { s.to_ascii_lowercase() } else { s.to_owned() };
            let w = f(value);
            dom.attrs(n).iter().filter(|a| a.ns.is_empty() && a.local == wanted).any(|a| {
                let v = f(&a.value);
                match op {
                    Op::Exists => true,
                    Op::Equal => v == w,
                    Op::Includes => !w.is_empty() && !w.contains(|c: char| matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c')) && v.split(|c: char| matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c')).any(|x| x == w),
                    Op::Dash => v == w || v.starts_with(&(w.clone() + "-")),
                    Op::Prefix => !w.is_empty() && v.starts_with(&w),
                    Op::Suffix => !w.is_empty() && v.ends_with(&w),
                    Op::Substring => !w.is_empty() && v.contains(&w),
                }
            })
        }
        Simple::Nth { a, b, last, of_type } => {
            let mut sibs = siblings(dom, n);
            if *of_type {
                sibs.retain(|&m| dom.local(m) == dom.local(n) && dom.ns(m) == dom.ns(n))
            }
            if *last {
                sibs.reverse()
            }
            let i = sibs.iter().position(|&m| m == n).unwrap() as i64 + 1;
            // i = a k + b for some k >= 0
            if *a == 0 {
                i == *b
            } else {
                (i - b) % a == 0 && (i - b) / a >= 0
            }
        }
        Simple::OnlyChild => siblings(dom, n).len() == 1,
        Simple::OnlyOfType => siblings(dom, n).into_iter().filter(|&m| dom.local(m) == dom.local(n) && dom.ns(m) == dom.ns(n)).count() == 1,
        Simple::Empty => dom.nodes[n].children.iter().all(|&c| match &dom.nodes[c].data {
            Data::Element { .. } => false,
            Data::Text(t) => t.is_empty(),
            _ => true,
        }),
        Simple::Root => dom.parent_element(n).is_none(),
        Simple::Not(s) => !matches_simple(dom, n, s),
    }
}

fn matches_upto(dom: &Dom, n: usize, parts: &[(char, Vec<Simple>)]) -> bool {
    let (combinator, compound) = match parts.last() {
        None => return true,
        Some(p) => p,
    };
    if !compound.iter().all(|s| matches_simple(dom, n, s)) {
        return false;
    }
    let left = &parts[..parts.len() - 1];
    if left.is_empty() {
        return true;
    }
    match combinator {
        ' ' => {
            let mut m = n;
            while let Some(p) = dom.parent_element(m) {
                if matches_upto(dom, p, left) {
                    return true;
                }
                m = p
            }
            false
        }
        '>' => dom.parent_element(n).map_or(false, |p| matches_upto(dom, p, left)),
        _ => {
            let sibs = siblings(dom, n);
            let i = sibs.iter().position(|&m| m == n).unwrap();
            if *combinator == '+' {
                i > 0 && matches_upto(dom, sibs[i - 1], left)
            } else {
                sibs[..i].iter().any(|&m| matches_upto(dom, m, left))
            }
        }
    }
}

pub fn matches(dom: &Dom, n: usize, s: &Selector) -> bool {
    matches_upto(dom, n, &s.0)
}

fn spec_simple(s: &Simple) -> (u32, u32, u32) {
    match s {
        Simple::Universal => (0, 0, 0),
        Simple::Type(_) => (0, 0, 1),
        Simple::Id(_) => (1, 0, 0),
        Simple::Not(s) => spec_simple(s),
        _ => (0, 1, 0),
    }
}

pub fn specificity(s: &Selector) -> (u32, u32, u32) {
    let mut t = (0, 0, 0);
    for (_, c) in &s.0 {
        for s in c {
            let x = spec_simple(s);
            t = (t.0 + x.0, t.1 + x.1, t.2 + x.2)
        }
    }
    t
}

fn ty(t: &str) -> Selector {
    Selector(vec![(' ', vec![Simple::Type(t.into())])])
}

fn attr(name: &str, op: Op, value: &str, insensitive: bool) -> Simple {
    Simple::Attr { name: name.into(), op, value: value.into(), insensitive }
}

pub fn user_agent() -> Sheet {
    let set = |lh: usize, v: V| Decl { set: vec![(lh, v)], important: false };
    let rule = |selectors: Vec<Selector>, decls: Vec<Decl>| Rule { selectors, decls };
    let mut hidden: Vec<Selector> = "area base basefont datalist head link meta noembed noframes param rp script source style template track title".split(' ').map(ty).collect();
    hidden.insert(0, Selector(vec![(' ', vec![attr("hidden", Op::Exists, "", false)])]));
    let blocks = "address blockquote center dialog div figure figcaption footer form header hr legend listing main p plaintext pre xmp";
    vec![
        rule(hidden, vec![set(DISPLAY, V::K("none"))]),
        rule(
            vec![Selector(vec![(' ', vec![Simple::Type("embed".into()), attr("hidden", Op::Exists, "", false)])])],
            vec![set(DISPLAY, V::K("inline")), set(HEIGHT, V::L(Lp::Px(0.))), set(WIDTH, V::L(Lp::Px(0.)))],
        ),
        rule(
            vec![Selector(vec![(' ', vec![Simple::Type("input".into()), attr("type", Op::Equal, "hidden", true)])])],
            vec![Decl { set: vec![(DISPLAY, V::K("none"))], important: true }],
        ),
        rule(vec![ty("html"), ty("body")], vec![set(DISPLAY, V::K("block"))]),
        rule(vec![ty("body")], vec![Decl { set: (0..4).map(|i| (MARGIN + i, V::L(Lp::Px(8.)))).collect(), important: false }]),
        rule(blocks.split(' ').map(ty).collect(), vec![set(DISPLAY, V::K("block"))]),
    ]
}

pub struct Author {
    pub sheets: Vec<Rc<Sheet>>,
    /// By value of the style attribute
    pub attributes: HashMap<String, Vec<Decl>>,
}

pub struct Cascade {
    pub computed: HashMap<usize, Rc<Style>>,
    /// Declarations that matched, and that won for some property
    pub matched: u64,
    pub contested: u64,
    /// The user-agent style sheet, taken without its default namespace, changes an element that is
    /// not in it: either is acceptable
    pub foreign: bool,
}

/// `attribute`: the declarations of a style attribute’s value
pub fn cascade(dom: &Dom, author: &Author) -> Cascade {
    let ua = user_agent();
    let mut out = Cascade { computed: HashMap::new(), matched: 0, contested: 0, foreign: false };
    let empty = Vec::new();
    for n in dom.elements() {
        let parent = dom.parent_element(n).map(|p| out.computed[&p].clone());
        let style = compute(dom, n, &ua, author, parent.as_deref(), &mut out);
        if dom.ns(n) != HTML && compute(dom, n, &empty, author, parent.as_deref(), &mut out) != style {
            out.foreign = true
        }
        out.computed.insert(n, Rc::new(style));
    }
    out
}

fn compute(dom: &Dom, n: usize, ua: &Sheet, author: &Author, parent: Option<&Style>, stats: &mut Cascade) -> Style {
    // ((origin and importance, style attribute, specificity, order), longhand, value)
    type Key = (u8, bool, (u32, u32, u32), usize);
    let mut all: Vec<(Key, usize, V)> = Vec::new();
    let mut order = 0;
    let mut add = |all: &mut Vec<(Key, usize, V)>, rank: [u8; 2], attr: bool, spec, decls: &[Decl]| {
        for d in decls {
            for &(lh, v) in &d.set {
                order += 1;
                all.push(((rank[d.important as usize], attr, spec, order), lh, v))
            }
        }
    };
    let sheets = std::iter::once((ua, [0, 3])).chain(author.sheets.iter().map(|s| (&**s, [1, 2])));
    for (sheet, rank) in sheets {
        for rule in sheet {
            // Each matching selector counts with its own specificity
            if let Some(spec) = rule.selectors.iter().filter(|s| matches(dom, n, s)).map(specificity).max() {
                stats.matched += 1;
                add(&mut all, rank, false, spec, &rule.decls)
            }
        }
    }
    if [HTML, SVG, MATHML].contains(&dom.ns(n)) {
        if let Some(text) = dom.attr(n, "style") {
            if let Some(decls) = author.attributes.get(text) {
                add(&mut all, [1, 2], true, (0, 0, 0), decls)
            }
        }
    }
    let mut winner: [Option<(Key, V)>; 32] = [None; 32];
    for (key, lh, v) in all {
        match winner[lh] {
            Some((k, _)) if k > key => stats.contested += 1,
            Some(_) => {
                stats.contested += 1;
                winner[lh] = Some((key, v))
            }
            None => winner[lh] = Some((key, v)),
        }
    }
    let mut base = Style::initial();
    // Initial widths, as inherited by the root, do not depend on the style of the border
    for side in 0..4 {
        base.v[BORDER_WIDTH + side] = initial(BORDER_WIDTH)
    }
    let inherited = parent.unwrap_or(&base);
    let mut style = base.clone();
    for lh in 0..32 {
        let is_inherited = lh == FONT_SIZE || lh == COLOR;
        let v = winner[lh].map_or(V::W(Wide::Unset), |w| w.1);
        let v = match v {
            V::W(Wide::Initial) => initial(lh),
            V::W(Wide::Inherit) => inherited.v[lh],
            V::W(Wide::Unset) => {
                if is_inherited {
                    inherited.v[lh]
                } else {
                    initial(lh)
                }
            }
            V::C(Col::Current) if lh == COLOR => inherited.v[lh],
            V::L(Lp::Em(x)) => {
                // The font size is computed first
                let reference = if lh == FONT_SIZE { inherited.font_size() } else { style.font_size() };
                V::L(Lp::Px(x * reference))
            }
            v => v,
        };
        style.v[lh] = v
    }
    style.fixup();
    style
}
