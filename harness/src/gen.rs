//! Generators of styles and documents: syntax trees, printed with varied syntax.
use crate::css::*;
use crate::rng::Rng;

/// How text is printed: 0 plain, 1 varied
#[derive(Clone, Copy)]
pub struct Print<'a> {
    pub rng: &'a Rng,
    pub noise: bool,
}

pub const JUNK_IN_COMMENTS: &[&str] = &["", " ", " c ", "*", " } ", " ; ", "'", "\"", " { ", "/", " /* ", "<b>", "!important", "\\"];

impl<'a> Print<'a> {
    pub fn plain(rng: &'a Rng) -> Self {
        Print { rng, noise: false }
    }

    fn some(&self, num: u32, den: u32) -> bool {
        self.noise && self.rng.chance(num, den)
    }

    pub fn comment(&self) -> String {
        format!("/*{}*/", self.rng.pick(JUNK_IN_COMMENTS))
    }

    /// At least one white space character
    pub fn space(&self) -> String {
        let mut s = String::new();
        if self.some(1, 6) {
            s.push_str(&self.comment())
        }
        s.push_str(if self.some(1, 3) { self.rng.pick(&["\n", "\t", "  ", "\r\n", "\x0c", " \n\t "]) } else { " " });
        if self.some(1, 6) {
            s.push_str(&self.comment())
        }
        s
    }

    /// Maybe nothing
    pub fn gap(&self) -> String {
        if !self.noise || self.rng.chance(3, 5) {
            return String::new();
        }
        match self.rng.below(4) {
            0 => self.comment(),
            1 => format!("{}{}", self.space(), self.comment()),
            _ => self.space(),
        }
    }

    /// Between tokens that need something between them; comments are enough
    fn between(&self) -> String {
        if self.some(1, 8) {
            self.comment()
        } else {
            self.space()
        }
    }

    /// Case does not matter
    pub fn keyword(&self, k: &str) -> String {
        let mut s: String = k.to_owned();
        if self.some(1, 3) {
            s = match self.rng.below(3) {
                0 => s.to_ascii_uppercase(),
                _ => s.chars().map(|c| if self.rng.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
            }
        }
        self.escapes(&s)
    }

    /// With escapes, the same identifier
    pub fn escapes(&self, s: &str) -> String {
        if !self.some(1, 8) {
            return s.to_owned();
        }
        let n = s.chars().count();
        let at = self.rng.below(n.max(1));
        let mut out = String::new();
        for (i, c) in s.chars().enumerate() {
            if i == at {
                out.push_str(&self.escape(c))
            } else {
                out.push(c)
            }
        }
        out
    }

    fn escape(&self, c: char) -> String {
        let simple = !c.is_ascii_hexdigit() && c != '\n';
        match self.rng.below(3) {
            0 if simple => format!("\\{}", c),
            1 => format!("\\{:06X} ", c as u32),
            2 => format!("\\{:06x} ", c as u32),
            _ => format!("\\{:x} ", c as u32),
        }
    }

    pub fn number(&self, x: f64) -> String {
        let x = x + 0.; // No negative zero
        let mut s = format!("{}", x);
        if x == 0. && self.some(1, 4) {
            s.insert(0, '-')
        } else if self.some(1, 3) {
            match self.rng.below(6) {
                0 if x >= 0. => s.insert(0, '+'),
                1 if s.contains('.') => s.push_str("00"),
                2 if !s.contains('.') => s.push_str(".0"),
                3 if s.starts_with("0.") => {
                    s.remove(0);
                }
                3 if s.starts_with("-0.") => {
                    s.remove(1);
                }
                4 => s = format!("{}e1", x / 10.),
                5 => s = format!("{}E+0", x),
                _ => s = if x < 0. { format!("-00{}", -x) } else { format!("0{}", x) },
            }
        }
        s
    }

    pub fn length(&self, l: Lp) -> String {
        match l {
            Lp::Auto => self.keyword("auto"),
            Lp::Px(x) if x == 0. && self.rng.chance(1, 2) => self.rng.pick(if self.noise { &["0", "+0", "-0", "0.0", ".0", "0e5"] } else { &["0", "0"] }).into(),
            Lp::Px(x) => self.number(x) + &self.unit("px"),
            Lp::Em(x) => self.number(x) + &self.unit("em"),
            Lp::Pct(x) => self.number(x) + "%",
        }
    }

    // “e” would be taken as an exponent only in front of a digit, which an escape is not
    fn unit(&self, u: &str) -> String {
        self.keyword(u)
    }

    pub fn color(&self, c: Col) -> String {
        let [r, g, b, a] = match c {
            Col::Current => return self.keyword("currentColor"),
            Col::Rgba(c) => c,
        };
        if a == 255 {
            let name = match [r, g, b] {
                [255, 0, 0] => "red",
                [0, 128, 0] => "green",
                [0, 0, 255] => "blue",
                [255, 255, 0] => "yellow",
                [0, 255, 255] => "aqua",
                [128, 0, 128] => "purple",
                _ => "",
            };
            if !name.is_empty() && self.rng.chance(1, 2) {
                return self.keyword(name);
            }
        }
        if [r, g, b, a] == [0, 0, 0, 0] && self.rng.chance(1, 2) {
            return self.keyword("transparent");
        }
        let hex = if a == 255 { format!("{:02x}{:02x}{:02x}", r, g, b) } else { format!("{:02x}{:02x}{:02x}{:02x}", r, g, b, a) };
        let short = hex.as_bytes().chunks(2).all(|p| p[0] == p[1]);
        match self.rng.below(4) {
            0 if a == 255 => format!("{}({}{}{},{}{}{}{},{}{}{})", self.keyword("rgb"), self.gap(), r, self.gap(), self.gap(), g, self.gap(), "", self.gap(), b, self.gap()),
            1 if short => format!("#{}", self.case(&hex.as_bytes().chunks(2).map(|p| p[0] as char).collect::<String>())),
            _ => format!("#{}", self.case(&hex)),
        }
    }

    fn case(&self, s: &str) -> String {
        if self.some(1, 3) {
            s.to_ascii_uppercase()
        } else {
            s.into()
        }
    }

    pub fn value(&self, v: V) -> String {
        match v {
            V::L(l) => self.length(l),
            V::C(c) => self.color(c),
            V::K(k) => self.keyword(k),
            V::W(Wide::Inherit) => self.keyword("inherit"),
            V::W(Wide::Initial) => self.keyword("initial"),
            V::W(Wide::Unset) => self.keyword("unset"),
        }
    }

    /// Name, value and importance. No semicolon.
    pub fn declaration(&self, name: &str, value: &str, important: bool) -> String {
        let mut s = self.keyword(name);
        s.push_str(&self.gap());
        s.push(':');
        s.push_str(&self.gap());
        s.push_str(value);
        s.push_str(&self.gap());
        if important {
            s.push_str(&format!("!{}{}", self.gap(), self.keyword("important")))
        }
        s
    }

    /// Print declarations with separators
    pub fn block(&self, decls: &[String]) -> String {
        let mut s = self.gap();
        for (i, d) in decls.iter().enumerate() {
            s.push_str(d);
            s.push_str(&self.gap());
            let last = i + 1 == decls.len();
            if !last || self.rng.chance(1, 2) {
                s.push(';');
                if self.some(1, 8) {
                    s.push_str(&self.gap());
                    s.push(';')
                }
            }
            s.push_str(&self.gap())
        }
        s
    }

    pub fn ident(&self, s: &str) -> String {
        let mut out = String::new();
        let n = s.chars().count();
        for (i, c) in s.chars().enumerate() {
            let plain = c.is_ascii_alphabetic() || c == '_' || c as u32 >= 0x80 || (i > 0 && (c.is_ascii_digit() || c == '-'));
            if plain && !self.some(1, 12) {
                out.push(c)
            } else {
                out.push_str(&format!("\\{:06x}", c as u32));
                // A space after an escape is part of it
                if i + 1 == n || self.rng.chance(1, 2) {
                    out.push(' ')
                }
            }
        }
        out
    }

    pub fn string(&self, s: &str) -> String {
        let q = self.rng.pick(&['"', '\'']);
        let mut out = String::new();
        out.push(q);
        for c in s.chars() {
            if c == q || c == '\\' || (c as u32) < 0x20 || self.some(1, 12) {
                out.push_str(&format!("\\{:06x} ", c as u32));
            } else {
                out.push(c)
            }
        }
        if self.some(1, 12) {
            out.push_str("\\\n")
        }
        out.push(q);
        out
    }

    /// A type or attribute name, which HTML matches without case
    fn name(&self, s: &str) -> String {
        let s = if self.some(1, 4) && s.chars().all(|c| !c.is_ascii_uppercase()) { s.to_ascii_uppercase() } else { s.to_owned() };
        self.ident(&s)
    }

    pub fn simple(&self, s: &Simple, html: bool) -> String {
        match s {
            Simple::Universal => (if self.some(1, 4) { "*|*" } else { "*" }).into(),
            Simple::Type(t) => {
                let t = if html { self.name(t) } else { self.ident(t) };
                if self.some(1, 10) {
                    format!("*|{}", t)
                } else {
                    t
                }
            }
            Simple::Id(i) => format!("#{}", self.ident(i)),
            Simple::Class(c) => format!(".{}", self.ident(c)),
            Simple::Attr { name, op, value, insensitive } => {
                let op = match op {
                    Op::Exists => return format!("[{}{}{}]", self.gap(), if html { self.name(name) } else { self.ident(name) }, self.gap()),
                    Op::Equal => "=",
                    Op::Includes => "~=",
                    Op::Dash => "|=",
                    Op::Prefix => "^=",
                    Op::Suffix => "$=",
                    Op::Substring => "*=",
                };
                let ident = value.chars().next().map_or(false, |c| c.is_ascii_alphabetic()) && value.chars().all(|c| c.is_ascii_alphanumeric());
                let v = if ident && self.rng.chance(1, 2) { self.ident(value) } else { self.string(value) };
                let flag = if *insensitive {
                    let i = self.keyword("i");
                    format!("{}{}", self.between(), i)
                } else {
                    String::new()
                };
                format!("[{}{}{}{}{}{}{}{}]", self.gap(), if html { self.name(name) } else { self.ident(name) }, self.gap(), op, self.gap(), v, flag, self.gap())
            }
            Simple::Nth { a, b, last, of_type } => {
                let k = match (last, of_type) {
                    (false, false) => "child",
                    (true, false) => "last-child",
                    (false, true) => "of-type",
                    (true, true) => "last-of-type",
                };
                if (*a, *b) == (0, 1) && self.rng.chance(2, 3) {
                    let k = match (last, of_type) {
                        (false, false) => "first-child",
                        (true, false) => "last-child",
                        (false, true) => "first-of-type",
                        (true, true) => "last-of-type",
                    };
                    return format!(":{}", self.keyword(k));
                }
                let g = |s: &Self| if s.rng.chance(1, 4) { " " } else { "" };
                let n = match (*a, *b) {
                    (2, 1) if self.rng.chance(1, 2) => self.keyword("odd"),
                    (2, 0) if self.rng.chance(1, 2) => self.keyword("even"),
                    (0, b) => {
                        if b >= 0 && self.rng.chance(1, 4) {
                            format!("+{}", b)
                        } else {
                            format!("{}", b)
                        }
                    }
                    (a, b) => {
                        let n = if self.rng.chance(1, 4) { "N" } else { "n" };
                        let first = match a {
                            1 if self.rng.chance(1, 2) => n.to_string(),
                            1 if self.rng.chance(1, 2) => format!("+{}", n),
                            -1 if self.rng.chance(1, 2) => format!("-{}", n),
                            _ => format!("{}{}", a, n),
                        };
                        if b == 0 && self.rng.chance(1, 2) {
                            first
                        } else if b < 0 {
                            format!("{}{}-{}{}", first, g(self), g(self), -b)
                        } else {
                            format!("{}{}+{}{}", first, g(self), g(self), b)
                        }
                    }
                };
                format!(":{}({}{}{})", self.keyword(&format!("nth-{}", k)), g(self), n, g(self))
            }
            Simple::OnlyChild => format!(":{}", self.keyword("only-child")),
            Simple::OnlyOfType => format!(":{}", self.keyword("only-of-type")),
            Simple::Empty => format!(":{}", self.keyword("empty")),
            Simple::Root => format!(":{}", self.keyword("root")),
            Simple::Not(s) => format!(":{}({}{}{})", self.keyword("not"), self.gap(), self.simple(s, html), self.gap()),
        }
    }

    pub fn compound(&self, c: &[Simple], html: bool) -> String {
        let mut s = String::new();
        for (i, x) in c.iter().enumerate() {
            if self.some(1, 12) && i > 0 {
                s.push_str(&self.comment())
            }
            // A universal selector is implied
            if matches!(x, Simple::Universal) && c.len() > 1 && self.rng.chance(1, 2) {
                continue;
            }
            s.push_str(&self.simple(x, html))
        }
        s
    }

    pub fn selector(&self, s: &Selector, html: bool) -> String {
        let mut out = String::new();
        for (i, (combinator, compound)) in s.0.iter().enumerate() {
            if i > 0 {
                if *combinator == ' ' {
                    out.push_str(&self.space())
                } else {
                    out.push_str(&format!("{}{}{}", self.gap(), combinator, self.gap()))
                }
            }
            out.push_str(&self.compound(compound, html))
        }
        out
    }

    pub fn rule(&self, selectors: &[Selector], decls: &[String], html: bool) -> String {
        let mut s = self.gap();
        for (i, x) in selectors.iter().enumerate() {
            if i > 0 {
                s.push_str(&format!("{},{}", self.gap(), if self.noise { self.gap() } else { " ".into() }))
            }
            s.push_str(&self.selector(x, html))
        }
        s.push_str(&self.gap());
        s.push('{');
        s.push_str(&self.block(decls));
        s.push('}');
        s.push_str(&self.gap());
        s
    }
}

// ---------------------------------------------------------------------------
// Values

pub fn quarter(rng: &Rng, lo: i64, hi: i64) -> f64 {
    if rng.chance(1, 4) {
        rng.range(lo * 4, hi * 4) as f64 / 4.
    } else {
        rng.range(lo, hi) as f64
    }
}

pub fn color(rng: &Rng) -> [u8; 4] {
    let a = if rng.chance(1, 3) { rng.pick(&[0x80, 0x33, 0xff, 1, 254, 0x7f]) } else { 255 };
    // Colours that are nearly the same
    if rng.chance(1, 8) {
        let near = |c: u8| c + rng.below(2) as u8;
        return [near(100), near(150), near(0), rng.pick(&[255, 254, 255, 128, 127])];
    }
    match rng.below(3) {
        0 => rng.pick(&[[255, 0, 0, 255], [0, 128, 0, 255], [0, 0, 255, 255], [255, 255, 0, 255], [0, 255, 255, 255], [128, 0, 128, 255]]),
        1 => {
            let h = || rng.below(16) as u8 * 17;
            [h(), h(), h(), a]
        }
        _ => [rng.next() as u8, rng.next() as u8, rng.next() as u8, a],
    }
}

/// Sizes of boxes
pub fn lp(rng: &Rng, lo: i64, hi: i64, auto: bool) -> Lp {
    match rng.weighted(&[6, 2, 2, auto as u32 * 3]) {
        0 => Lp::Px(quarter(rng, lo, hi)),
        1 => {
            let x = rng.range(if lo < 0 { -6 } else { 0 }, 12) as f64 / 4.;
            Lp::Em(x)
        }
        2 => Lp::Pct(if lo < 0 { rng.range(-40, 120) } else { rng.range(0, 120) } as f64 / if rng.chance(1, 3) { 4. } else { 1. }),
        _ => Lp::Auto,
    }
}

/// A valid value for the property (no CSS-wide keywords)
pub fn value(rng: &Rng, lh: usize) -> V {
    match LONGHANDS[lh].1 {
        Kind::FontSize => V::L(match rng.below(3) {
            0 => Lp::Em(rng.range(2, 8) as f64 / 4.),
            _ => Lp::Px(quarter(rng, 2, 40)),
        }),
        Kind::Color => V::C(if rng.chance(1, 10) { Col::Current } else { Col::Rgba(color(rng)) }),
        Kind::Position => V::K(rng.pick(&["static", "relative", "absolute"])),
        Kind::Float => V::K("none"),
        Kind::Display => V::K(rng.pick(&["block", "block", "inline", "flow-root", "contents", "none"])),
        Kind::Offset => V::L(lp(rng, -40, 120, true)),
        Kind::Size => V::L(lp(rng, 0, 250, true)),
        Kind::Margin => V::L(lp(rng, -20, 40, true)),
        Kind::Padding => V::L(lp(rng, 0, 20, false)),
        Kind::BorderColor => V::C(if rng.chance(1, 4) { Col::Current } else { Col::Rgba(color(rng)) }),
        Kind::BorderStyle => V::K(rng.pick(&["none", "solid", "solid"])),
        Kind::BorderWidth => V::L(loop {
            match lp(rng, 0, 12, false) {
                Lp::Pct(_) => {}
                l => break l,
            }
        }),
        Kind::Background => V::C(match rng.below(8) {
            0 => Col::Current,
            1 => Col::Rgba([0, 0, 0, 0]),
            _ => Col::Rgba(color(rng)),
        }),
    }
}

pub fn wide(rng: &Rng) -> V {
    V::W(rng.pick(&[Wide::Inherit, Wide::Initial, Wide::Unset]))
}

/// One longhand declaration
pub fn longhand(p: Print, lh: usize, v: V, important: bool) -> (Decl, String) {
    let text = p.declaration(LONGHANDS[lh].0, &p.value(v), important);
    (Decl { set: vec![(lh, v)], important }, text)
}

/// Shorthands: (name, longhands in the order top, right, bottom, left)
pub const FOUR_SIDES: &[(&str, usize)] = &[("margin", MARGIN), ("padding", PADDING), ("border-width", BORDER_WIDTH), ("border-style", BORDER_STYLE), ("border-color", BORDER_COLOR)];

/// One to three values
pub fn four_sides(rng: &Rng, p: Print, which: usize, important: bool) -> (Decl, String) {
    let (name, lh) = FOUR_SIDES[which];
    if rng.chance(1, 12) {
        let w = wide(rng);
        let text = p.declaration(name, &p.value(w), important);
        return (Decl { set: (0..4).map(|i| (lh + i, w)).collect(), important }, text);
    }
    let n = 1 + rng.below(3);
    let v: Vec<V> = (0..n).map(|_| value(rng, lh)).collect();
    let text: Vec<String> = v.iter().map(|&v| p.value(v)).collect();
    let mut value = String::new();
    for (i, t) in text.iter().enumerate() {
        if i > 0 {
            value.push_str(&p.space())
        }
        value.push_str(t)
    }
    // top, right, bottom, left
    let at = |i: usize| match (n, i) {
        (1, _) => 0,
        (2, i) => i % 2,
        (_, 3) => 1,
        (_, i) => i,
    };
    let set = (0..4).map(|i| (lh + i, v[at(i)])).collect();
    (Decl { set, important }, p.declaration(name, &value, important))
}

pub fn border_top(rng: &Rng, p: Print, important: bool) -> (Decl, String) {
    let mut parts = Vec::new();
    let mut set = vec![(BORDER_COLOR, V::W(Wide::Initial)), (BORDER_STYLE, V::W(Wide::Initial)), (BORDER_WIDTH, V::W(Wide::Initial))];
    if rng.chance(1, 12) {
        let w = wide(rng);
        for s in &mut set {
            s.1 = w
        }
        return (Decl { set, important }, p.declaration("border-top", &p.value(w), important));
    }
    for s in &mut set {
        if rng.chance(2, 3) || (s.0 == BORDER_WIDTH && parts.is_empty()) {
            s.1 = value(rng, s.0);
            parts.push(p.value(s.1))
        }
    }
    rng.shuffle(&mut parts);
    let text = parts.join(&p.space());
    (Decl { set, important }, p.declaration("border-top", &text, important))
}

pub fn background(rng: &Rng, p: Print, important: bool) -> (Decl, String) {
    let v = if rng.chance(1, 12) { wide(rng) } else { value(rng, BACKGROUND) };
    (Decl { set: vec![(BACKGROUND, v)], important }, p.declaration("background", &p.value(v), important))
}

/// Any declaration. Floats, which are not painted, are avoided.
#[allow(dead_code)]
pub fn declaration(rng: &Rng, p: Print, important: bool) -> (Decl, String) {
    match rng.below(12) {
        0..=1 => four_sides(rng, p, rng.below(5), important),
        2 => border_top(rng, p, important),
        3..=4 => background(rng, p, important),
        _ => {
            let lh = loop {
                let lh = rng.below(32);
                // border-right-color has another name, but is not painted either way
                if lh != BORDER_COLOR + 1 {
                    break lh;
                }
            };
            let v = if rng.chance(1, 8) { wide(rng) } else { value(rng, lh) };
            longhand(p, lh, v, important)
        }
    }
}

// ---------------------------------------------------------------------------
// Selectors

pub struct Names {
    pub types: Vec<&'static str>,
    pub ids: Vec<&'static str>,
    pub classes: Vec<&'static str>,
    /// (name, value)
    pub attrs: Vec<(&'static str, &'static str)>,
}

pub fn simple(rng: &Rng, names: &Names, negation: bool) -> Simple {
    match rng.below(if negation { 14 } else { 12 }) {
        0..=1 => Simple::Class(rng.pick(&names.classes).into()),
        2 => Simple::Id(rng.pick(&names.ids).into()),
        3..=5 => {
            let (name, value) = rng.pick(&names.attrs);
            let op = rng.pick(&[Op::Exists, Op::Equal, Op::Includes, Op::Dash, Op::Prefix, Op::Suffix, Op::Substring]);
            let mut value: String = if rng.chance(1, 6) { rng.pick(&names.attrs).1.into() } else { value.into() };
            let chars: Vec<char> = value.chars().collect();
            match rng.below(5) {
                0 if !chars.is_empty() => {
                    let a = rng.below(chars.len());
                    let b = a + rng.below(chars.len() - a + 1);
                    value = chars[a..b].iter().collect()
                }
                1 => value = value.split(|c: char| c == ' ' || c == '-').next().unwrap_or("").into(),
                2 => value = value.split(' ').last().unwrap_or("").into(),
                _ => {}
            }
            let insensitive = op != Op::Exists && rng.chance(1, 4);
            if rng.chance(1, 6) {
                value = value.to_ascii_uppercase()
            }
            Simple::Attr { name: name.into(), op, value, insensitive }
        }
        6..=8 => {
            let (a, b) = match rng.below(5) {
                4 if rng.chance(1, 3) => (rng.range(-20, 20), rng.range(-60, 60)),
                0 | 4 => (0, 1),
                1 => (0, rng.range(-1, 4)),
                2 => (2, rng.range(0, 1)),
                _ => (rng.range(-3, 4), rng.range(-4, 5)),
            };
            Simple::Nth { a, b, last: rng.chance(1, 3), of_type: rng.chance(1, 3) }
        }
        9 => [Simple::OnlyChild, Simple::OnlyOfType, Simple::Root][rng.below(3)].clone(),
        10 => Simple::Empty,
        11 => Simple::Class(rng.pick(&names.classes).into()),
        _ => {
            let inner = match rng.below(4) {
                0 => Simple::Type(rng.pick(&names.types).into()),
                1 if rng.chance(1, 4) => Simple::Universal,
                _ => simple(rng, names, false),
            };
            Simple::Not(Box::new(inner))
        }
    }
}

/// Change the case of some names of elements and attributes
pub fn recase(rng: &Rng, s: &mut Selector) {
    fn one(rng: &Rng, s: &mut Simple) {
        match s {
            Simple::Type(name) | Simple::Attr { name, .. } => match rng.below(12) {
                0 => *name = name.to_ascii_lowercase(),
                1 => *name = name.to_ascii_uppercase(),
                _ => {}
            },
            Simple::Not(s) => one(rng, s),
            _ => {}
        }
    }
    s.0.iter_mut().flat_map(|c| &mut c.1).for_each(|s| one(rng, s))
}

pub fn compound(rng: &Rng, names: &Names) -> Vec<Simple> {
    let mut c = Vec::new();
    match rng.below(5) {
        0..=1 => c.push(Simple::Type(rng.pick(&names.types).into())),
        2 => c.push(Simple::Universal),
        _ => {}
    }
    let n = if c.is_empty() { 1 } else { 0 } + rng.weighted(&[16, 16, 4, 1, 1]);
    for _ in 0..n {
        c.push(simple(rng, names, true))
    }
    c
}

pub fn selector(rng: &Rng, names: &Names) -> Selector {
    let n = 1 + rng.weighted(&[20, 16, 8, 4, 1, 1]);
    Selector((0..n).map(|i| (if i == 0 { ' ' } else { rng.pick(&[' ', ' ', '>', '+', '~']) }, compound(rng, names))).collect())
}
