//! Reference layout, after CSS 2.1, of the subset that Victor supports.
//!
//! Where Victor is known to approximate CSS (or CSS leaves room), the place is added to `dubious`
//! and the case is not judged.
use crate::css::*;
use crate::dom::{Data, Dom};
use crate::ttf::Model;
use std::collections::HashMap;
use std::rc::Rc;

pub const PAGE: (f64, f64) = (600., 800.);
const T: usize = 0;
const R: usize = 1;
const B: usize = 2;
const L: usize = 3;

#[derive(Clone, Debug, PartialEq)]
pub enum Paint {
    Rect { x: f64, y: f64, w: f64, h: f64, rgba: [u8; 4], node: usize },
    Glyph { id: u16, x: f64, y: f64, size: f64, rgba: [u8; 4], c: char },
}

// ---------------------------------------------------------------------------
// Boxes

struct BlockBox {
    style: Rc<Style>,
    node: usize,
    content: Content,
    independent: bool,
    anonymous: bool,
}

struct AbsBox {
    style: Rc<Style>,
    node: usize,
    content: Content,
}

enum Child {
    Block(BlockBox),
    Abs(Rc<AbsBox>),
}

enum Content {
    Blocks(Vec<Child>),
    Inlines(Vec<Inl>),
}

enum Inl {
    Open { style: Rc<Style>, node: usize, first: bool },
    Close { last: bool },
    Text(Rc<Style>, String),
    Abs(Rc<AbsBox>),
}

enum Ev {
    Open(Rc<Style>, usize),
    Close,
    Text(Rc<Style>, String),
    Block(Rc<Style>, usize),
    Abs(Rc<Style>, usize),
}

pub struct Layout<'a> {
    dom: &'a Dom,
    styles: &'a HashMap<usize, Rc<Style>>,
    font: &'a Model,
    pub dubious: Vec<&'static str>,
    pub out: Vec<Paint>,
    pub stats: Stats,
}

#[derive(Default, Debug)]
pub struct Stats {
    pub blocks: u64,
    pub collapsed_through: u64,
    pub margins_collapsed: u64,
    pub lines: u64,
    pub broken_lines: u64,
    pub absolutes: u64,
    pub relatives: u64,
    pub split_inlines: u64,
    pub contents_elements: u64,
    pub hidden_elements: u64,
}

fn is_space(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c')
}

impl<'a> Layout<'a> {
    pub fn new(dom: &'a Dom, styles: &'a HashMap<usize, Rc<Style>>, font: &'a Model) -> Self {
        Layout { dom, styles, font, dubious: Vec::new(), out: Vec::new(), stats: Stats::default() }
    }

    fn events(&mut self, n: usize, style: &Rc<Style>, after_space: &mut bool, out: &mut Vec<Ev>) {
        for &c in &self.dom.nodes[n].children {
            match &self.dom.nodes[c].data {
                Data::Text(t) => {
                    let mut s = String::new();
                    for ch in t.chars() {
                        if !is_space(ch) {
                            s.push(ch);
                            *after_space = false
                        } else if !*after_space {
                            s.push(' ');
                            *after_space = true
                        }
                    }
                    if s.is_empty() {
                        continue;
                    }
                    match out.last_mut() {
                        Some(Ev::Text(st, last)) if Rc::ptr_eq(st, style) => last.push_str(&s),
                        _ => out.push(Ev::Text(style.clone(), s)),
                    }
                }
                Data::Element { .. } => {
                    let s = self.styles[&c].clone();
                    match s.display() {
                        "none" => self.stats.hidden_elements += 1,
                        "contents" => {
                            self.stats.contents_elements += 1;
                            self.events(c, &s, after_space, out)
                        }
                        "inline" => {
                            out.push(Ev::Open(s.clone(), c));
                            self.events(c, &s, after_space, out);
                            out.push(Ev::Close)
                        }
                        _ => {
                            if s.is("position", "absolute") {
                                out.push(Ev::Abs(s, c))
                            } else if s.v[FLOAT] != V::K("none") {
                                self.dubious.push("float")
                            } else {
                                *after_space = true;
                                out.push(Ev::Block(s, c))
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }

    fn abs_box(&mut self, style: Rc<Style>, node: usize) -> Rc<AbsBox> {
        let content = self.content(node, &style);
        Rc::new(AbsBox { style, node, content })
    }

    fn content(&mut self, n: usize, style: &Rc<Style>) -> Content {
        let mut events = Vec::new();
        self.events(n, style, &mut true, &mut events);
        let mut anonymous = Style::initial();
        anonymous.v[FONT_SIZE] = style.v[FONT_SIZE];
        anonymous.v[COLOR] = style.v[COLOR];
        let anonymous = Rc::new(anonymous);
        let mut children: Vec<Child> = Vec::new();
        let mut line: Vec<Inl> = Vec::new();
        let mut open: Vec<(Rc<Style>, usize)> = Vec::new();
        let flush = |line: &mut Vec<Inl>, children: &mut Vec<Child>| {
            if !line.is_empty() {
                children.push(Child::Block(BlockBox {
                    style: anonymous.clone(),
                    node: n,
                    content: Content::Inlines(std::mem::take(line)),
                    independent: false,
                    anonymous: true,
                }))
            }
        };
        for e in events {
            match e {
                Ev::Text(s, t) => line.push(Inl::Text(s, t)),
                Ev::Open(style, node) => {
                    line.push(Inl::Open { style: style.clone(), node, first: true });
                    open.push((style, node))
                }
                Ev::Close => {
                    open.pop();
                    line.push(Inl::Close { last: true })
                }
                Ev::Block(style, node) => {
                    for _ in &open {
                        line.push(Inl::Close { last: false })
                    }
                    flush(&mut line, &mut children);
                    let content = self.content(node, &style);
                    children.push(Child::Block(BlockBox { independent: style.display() == "flow-root", style, node, content, anonymous: false }));
                    for (style, node) in &open {
                        self.stats.split_inlines += 1;
                        line.push(Inl::Open { style: style.clone(), node: *node, first: false })
                    }
                }
                Ev::Abs(style, node) => {
                    let b = self.abs_box(style, node);
                    if line.is_empty() {
                        children.push(Child::Abs(b))
                    } else {
                        line.push(Inl::Abs(b))
                    }
                }
            }
        }
        if children.is_empty() && !line.is_empty() {
            return Content::Inlines(line);
        }
        flush(&mut line, &mut children);
        Content::Blocks(children)
    }
}

// ---------------------------------------------------------------------------
// Layout

#[derive(Clone, Copy, Default, Debug)]
struct M {
    pos: f64,
    neg: f64,
}

impl M {
    fn of(x: f64) -> M {
        M { pos: x.max(0.), neg: x.min(0.) }
    }
    fn join(&mut self, o: M) {
        self.pos = self.pos.max(o.pos);
        self.neg = self.neg.min(o.neg)
    }
    fn value(&self) -> f64 {
        self.pos + self.neg
    }
}

enum Frag {
    Box {
        style: Rc<Style>,
        node: usize,
        /// Border box, in the coordinates of the parent’s content box
        x: f64,
        y: f64,
        w: f64,
        h: f64,
        /// Content box
        cx: f64,
        cy: f64,
        padding: [f64; 4],
        kids: Vec<Frag>,
        /// Containing block of absolutely positioned descendants
        positioned: bool,
    },
    Text { style: Rc<Style>, text: String, x: f64, y: f64 },
    Abs { b: Rc<AbsBox>, x: f64, y: f64 },
}

impl Frag {
    fn shift(&mut self, dx: f64, dy: f64) {
        match self {
            Frag::Box { x, y, cx, cy, .. } => {
                *x += dx;
                *y += dy;
                *cx += dx;
                *cy += dy
            }
            Frag::Text { x, y, .. } | Frag::Abs { x, y, .. } => {
                *x += dx;
                *y += dy
            }
        }
    }
}

struct Kids {
    frags: Vec<Frag>,
    height: f64,
    start: M,
    end: M,
    through: bool,
}

struct Placed {
    frag: Frag,
    border_height: f64,
    start: M,
    end: M,
    through: bool,
}

/// Sums of single-precision numbers may or may not be zero below this
const TINY: f64 = 1e-3;

fn pct(l: Lp, reference: f64) -> Option<f64> {
    match l {
        Lp::Px(x) => Some(x),
        Lp::Pct(p) => Some(p / 100. * reference),
        Lp::Auto => None,
        Lp::Em(_) => unreachable!(),
    }
}

fn sides(style: &Style, lh: usize, reference: f64) -> [Option<f64>; 4] {
    [0, 1, 2, 3].map(|i| pct(style.len(lh + i), reference))
}

fn set_sides(style: &Style, lh: usize, reference: f64) -> [f64; 4] {
    sides(style, lh, reference).map(|s| s.unwrap())
}

impl<'a> Layout<'a> {
    fn doubt(&mut self, why: &'static str) {
        if !self.dubious.contains(&why) {
            self.dubious.push(why)
        }
    }

    fn relative(&mut self, style: &Style, cbw: f64, cbh: Option<f64>) -> (f64, f64) {
        if !style.is("position", "relative") {
            return (0., 0.);
        }
        self.stats.relatives += 1;
        let [t, r, b, l] = [T, R, B, L].map(|i| style.len(OFFSET + i));
        let h = |l: Lp| pct(l, cbw);
        let dx = h(l).or(h(r).map(|x| -x)).unwrap_or(0.);
        let v = |l: Lp| match (l, cbh) {
            (Lp::Pct(_), None) => None,
            (l, _) => pct(l, cbh.unwrap_or(0.)),
        };
        let dy = v(t).or(v(b).map(|x| -x)).unwrap_or(0.);
        (dx, dy)
    }

    fn kids(&mut self, content: &Content, w: f64, h: Option<f64>, collapse_start: bool, anonymous_h: Option<f64>) -> Kids {
        let children = match content {
            Content::Inlines(items) => {
                let (frags, height, empty) = self.inline(items, w, h, anonymous_h);
                // A line without contents is treated as not existing
                return Kids { frags, height, start: M::default(), end: M::default(), through: collapse_start && empty };
            }
            Content::Blocks(c) => c,
        };
        let mut k = Kids { frags: Vec::new(), height: 0., start: M::default(), end: M::default(), through: collapse_start };
        let mut y = 0.;
        for c in children {
            match c {
                Child::Abs(b) => {
                    if !k.through && k.end.value() != 0. && b.style.len(OFFSET + T) == Lp::Auto && b.style.len(OFFSET + B) == Lp::Auto {
                        self.doubt("static position after a margin")
                    }
                    k.frags.push(Frag::Abs { b: b.clone(), x: 0., y })
                }
                Child::Block(b) => {
                    let mut p = self.block(b, w, h);
                    if k.through {
                        if p.start.value() != 0. {
                            self.stats.margins_collapsed += 1
                        }
                        k.start.join(p.start);
                        if p.through {
                            k.start.join(p.end);
                            k.frags.push(p.frag);
                            continue;
                        }
                        k.through = false
                    } else {
                        if k.end.value() != 0. && p.start.value() != 0. {
                            self.stats.margins_collapsed += 1
                        }
                        k.end.join(p.start)
                    }
                    p.frag.shift(0., y + k.end.value());
                    k.frags.push(p.frag);
                    if p.through {
                        k.end.join(p.end)
                    } else {
                        y += k.end.value() + p.border_height;
                        k.end = p.end
                    }
                }
            }
        }
        k.height = y;
        k
    }

    fn block(&mut self, b: &BlockBox, cbw: f64, cbh: Option<f64>) -> Placed {
        self.stats.blocks += 1;
        let s = &b.style;
        let padding = set_sides(s, PADDING, cbw);
        let border = set_sides(s, BORDER_WIDTH, cbw);
        let margin = sides(s, MARGIN, cbw);
        let pb = [0, 1, 2, 3].map(|i| padding[i] + border[i]);
        let mut ml = margin[L].unwrap_or(0.);
        let width = match pct(s.len(WIDTH), cbw) {
            None => {
                let room = cbw - pb[L] - pb[R] - ml - margin[R].unwrap_or(0.);
                if cbw != 0. && room.abs() < TINY {
                    self.doubt("a size within rounding of zero")
                }
                room.max(0.)
            }
            Some(w) => {
                let room = cbw - w - pb[L] - pb[R];
                match (margin[L], margin[R]) {
                    (None, None) => ml = (room / 2.).max(0.),
                    (None, Some(r)) => ml = (room - r).max(0.),
                    _ => {}
                }
                w
            }
        };
        let height = match (s.len(HEIGHT), cbh) {
            (Lp::Pct(p), Some(h)) => Some(p / 100. * h),
            (Lp::Px(h), _) => Some(h),
            _ => None,
        };
        if [pb[T], pb[B], height.unwrap_or(0.)].iter().any(|&x| x != 0. && x.abs() < TINY) {
            self.doubt("a size within rounding of zero")
        }
        let collapse_start = !b.independent && pb[T] == 0.;
        let collapse_end = !b.independent && pb[B] == 0. && height.is_none();
        let mut k = self.kids(&b.content, width, height, collapse_start, if b.anonymous { cbh } else { None });
        let mut start = M::of(margin[T].unwrap_or(0.));
        let mut end = M::of(margin[B].unwrap_or(0.));
        let mut auto = k.height;
        if collapse_start {
            start.join(k.start)
        }
        let mut through = false;
        if k.through {
            through = !b.independent && pb[B] == 0. && height.unwrap_or(0.) == 0.;
            if through {
                self.stats.collapsed_through += 1
            }
        } else if collapse_end {
            end.join(k.end)
        } else {
            auto += k.end.value()
        }
        let h = height.unwrap_or(auto.max(0.));
        let (dx, dy) = self.relative(s, cbw, cbh);
        let frag = Frag::Box {
            style: s.clone(),
            node: b.node,
            x: ml + dx,
            y: dy,
            w: width + pb[L] + pb[R],
            h: h + pb[T] + pb[B],
            cx: ml + dx + pb[L],
            cy: dy + pb[T],
            padding,
            kids: std::mem::take(&mut k.frags),
            positioned: s.is("position", "relative"),
        };
        Placed { frag, border_height: h + pb[T] + pb[B], start, end, through }
    }

    fn inline(&mut self, items: &[Inl], width: f64, cbh: Option<f64>, anonymous_h: Option<f64>) -> (Vec<Frag>, f64, bool) {
        struct Open {
            style: Rc<Style>,
            node: usize,
            /// Index of its first descendant in the line
            at: usize,
            /// Left edge of the content, in this line
            x: f64,
            padding: [f64; 4],
            border: [f64; 4],
            margin: [f64; 4],
            /// Of the content box
            top: f64,
            dx: f64,
            rel: (f64, f64),
            height: f64,
        }
        let mut done: Vec<Frag> = Vec::new();
        let mut line: Vec<Frag> = Vec::new();
        let mut open: Vec<Open> = Vec::new();
        let mut x = 0.;
        let mut y = 0.;
        let mut line_height: f64 = 0.;
        let mut any_content = false;

        // Close the innermost box on this line
        fn close(o: &Open, x: f64, last: bool, line: &mut Vec<Frag>) -> f64 {
            let r = if last { o.padding[R] + o.border[R] } else { 0. };
            let l = o.padding[L] + o.border[L];
            line.insert(
                o.at,
                Frag::Box {
                    style: o.style.clone(),
                    node: o.node,
                    x: o.x - l + o.dx,
                    y: o.top - o.padding[T] - o.border[T],
                    w: x - o.x + l + r,
                    h: o.height + o.padding[T] + o.padding[B] + o.border[T] + o.border[B],
                    cx: 0.,
                    cy: 0.,
                    padding: [0.; 4],
                    kids: Vec::new(),
                    positioned: false,
                },
            );
            o.height + o.padding[T] + o.padding[B] + o.border[T] + o.border[B] + o.margin[T] + o.margin[B]
        }

        for item in items {
            match item {
                Inl::Open { style, node, first } => {
                    let mut padding = set_sides(style, PADDING, width);
                    let mut border = set_sides(style, BORDER_WIDTH, width);
                    let mut margin = sides(style, MARGIN, width).map(|m| m.unwrap_or(0.));
                    if *first {
                        x += padding[L] + border[L] + margin[L]
                    } else {
                        padding[L] = 0.;
                        border[L] = 0.;
                        margin[L] = 0.
                    }
                    if [padding, border, margin].iter().any(|e| e.iter().any(|&e| e != 0. && e.abs() < TINY)) {
                        self.doubt("a size within rounding of zero")
                    }
                    any_content |= [T, B, L].iter().any(|&i| [padding[i], border[i], margin[i]].iter().any(|&e| e != 0.));
                    if anonymous_h.is_some() && style.is("position", "relative") && [T, B].iter().any(|&i| matches!(style.len(OFFSET + i), Lp::Pct(_))) {
                        self.doubt("vertical percentage of an inline in an anonymous block")
                    }
                    let rel = self.relative(style, width, cbh);
                    let (top, dx) = open.last().map_or((0., 0.), |o| (o.top, o.dx));
                    open.push(Open {
                        style: style.clone(),
                        node: *node,
                        at: line.len(),
                        x,
                        padding,
                        border,
                        margin,
                        top: top + margin[T] + border[T] + padding[T] + rel.1,
                        dx: dx + rel.0,
                        rel,
                        height: 0.,
                    })
                }
                Inl::Close { last } => {
                    let o = open.pop().unwrap();
                    if x < o.x - 1e-9 {
                        self.doubt("inline box of negative width")
                    }
                    let outer = close(&o, x, *last, &mut line);
                    if *last {
                        any_content |= [o.padding[R], o.border[R], o.margin[R]].iter().any(|&e| e != 0.);
                        x += o.padding[R] + o.border[R] + o.margin[R]
                    }
                    match open.last_mut() {
                        Some(p) => p.height = p.height.max(outer),
                        None => line_height = line_height.max(outer),
                    }
                }
                Inl::Abs(b) => {
                    let auto = |i| b.style.len(OFFSET + i) == Lp::Auto;
                    let static_y = auto(T) && auto(B);
                    let static_x = auto(L) && auto(R);
                    let mut ax = x;
                    if b.style.specified_display != "inline" {
                        ax = 0.;
                        if static_y && (x != 0. || line_height > 0. || open.iter().any(|o| o.height > 0. || [T, B].iter().any(|&i| o.margin[i] + o.padding[i] + o.border[i] != 0.))) {
                            self.doubt("static position of a block in a line")
                        }
                    }
                    if static_x && open.iter().any(|o| o.rel.0 != 0.) || static_y && open.iter().any(|o| o.rel.1 != 0.) {
                        self.doubt("static position in a relatively positioned inline")
                    }
                    if static_y && open.iter().any(|o| o.margin[T] + o.padding[T] + o.border[T] != 0.) {
                        self.doubt("static position in an inline with vertical edges")
                    }
                    line.push(Frag::Abs { b: b.clone(), x: ax, y })
                }
                Inl::Text(style, text) => {
                    any_content = true;
                    let size = style.font_size();
                    let mut rest: &str = text;
                    loop {
                        // The words that fit, separated by spaces, and what comes after the break
                        let room = width - x;
                        let mut shown = "";
                        let mut after: Option<&str> = None;
                        let mut ends = rest.match_indices(' ').map(|(i, _)| i).chain(std::iter::once(rest.len()));
                        let mut fits_none = true;
                        loop {
                            let end = match ends.next() {
                                None => break,
                                Some(e) => e,
                            };
                            let w = self.font.advance(&rest[..end]) * size;
                            if (w - room).abs() < 1e-3 + 1e-5 * width.abs().max(w) {
                                self.doubt("line break within rounding")
                            }
                            if w <= room {
                                shown = &rest[..end];
                                after = if end < rest.len() { Some(&rest[end + 1..]) } else { None };
                                fits_none = false;
                            } else {
                                if fits_none {
                                    // Overflow up to the first opportunity
                                    shown = &rest[..end];
                                    after = if end < rest.len() { Some(&rest[end + 1..]) } else { None };
                                } else {
                                    break;
                                }
                                break;
                            }
                        }
                        // Everything fits
                        let (top, dx) = open.last().map_or((0., 0.), |o| (o.top, o.dx));
                        let w = self.font.advance(shown) * size;
                        line.push(Frag::Text { style: style.clone(), text: shown.into(), x: x + dx, y: top });
                        x += w;
                        let lh = 1.2 * size;
                        match open.last_mut() {
                            Some(o) => o.height = o.height.max(lh),
                            None => line_height = line_height.max(lh),
                        }
                        rest = match after {
                            Some(a) if !a.is_empty() => a,
                            _ => break,
                        };
                        // New line
                        self.stats.broken_lines += 1;
                        let mut outer = None;
                        for o in open.iter_mut().rev() {
                            if let Some(h) = outer {
                                o.height = o.height.max(h)
                            }
                            if x < o.x - 1e-9 {
                                self.doubt("inline box of negative width")
                            }
                            outer = Some(close(o, x, false, &mut line));
                            o.at = 0;
                            o.x = 0.;
                            o.height = 0.;
                            o.padding[L] = 0.;
                            o.border[L] = 0.;
                            o.margin[L] = 0.
                        }
                        if let Some(h) = outer {
                            line_height = line_height.max(h)
                        }
                        for mut f in line.drain(..) {
                            match &f {
                                Frag::Abs { .. } => {}
                                _ => f.shift(0., y),
                            }
                            done.push(f)
                        }
                        y += line_height;
                        self.stats.lines += 1;
                        line_height = 0.;
                        x = 0.
                    }
                }
            }
        }
        for mut f in line.drain(..) {
            match &f {
                Frag::Abs { .. } => {}
                _ => f.shift(0., y),
            }
            done.push(f)
        }
        y += line_height;
        self.stats.lines += 1;
        (done, y, !any_content)
    }

    // -----------------------------------------------------------------------
    // Painting, and absolutely positioned boxes

    fn paint(&mut self, f: Frag, ox: f64, oy: f64, absolutes: &mut Vec<(Rc<AbsBox>, f64, f64)>) {
        match f {
            Frag::Text { style, text, x, y } => {
                let size = style.font_size();
                let ascent = self.font.ascender as f64 / self.font.upem as f64 * size;
                let mut x = ox + x;
                for c in text.chars() {
                    let id = self.font.glyph(c);
                    self.out.push(Paint::Glyph { id, x, y: oy + y + ascent, size, rgba: style.color(), c });
                    x += self.font.em(id) * size
                }
            }
            Frag::Abs { b, x, y } => absolutes.push((b, ox + x, oy + y)),
            Frag::Box { style, node, x, y, w, h, cx, cy, padding, kids, positioned } => {
                let rgba = style.background();
                if rgba[3] > 0 {
                    self.out.push(Paint::Rect { x: ox + x, y: oy + y, w, h, rgba, node })
                }
                if positioned {
                    let mut own = Vec::new();
                    for k in kids {
                        self.paint(k, ox + cx, oy + cy, &mut own)
                    }
                    let bl = cx - x - padding[L];
                    let bt = cy - y - padding[T];
                    let br = pct(style.len(BORDER_WIDTH + R), 0.).unwrap_or(0.);
                    let bb = pct(style.len(BORDER_WIDTH + B), 0.).unwrap_or(0.);
                    let cb = (ox + x + bl, oy + y + bt, w - bl - br, h - bt - bb);
                    for (b, sx, sy) in own {
                        self.absolute(&b, sx, sy, cb)
                    }
                } else {
                    for k in kids {
                        self.paint(k, ox + cx, oy + cy, absolutes)
                    }
                }
            }
        }
    }

    /// Static position and containing block in page coordinates
    fn absolute(&mut self, b: &AbsBox, sx: f64, sy: f64, cb: (f64, f64, f64, f64)) {
        self.stats.absolutes += 1;
        let s = &b.style;
        let (cbx, cby, cbw, cbh) = cb;
        let padding = set_sides(s, PADDING, cbw);
        let border = set_sides(s, BORDER_WIDTH, cbw);
        let margin = sides(s, MARGIN, cbw);
        let pb = [0, 1, 2, 3].map(|i| padding[i] + border[i]);

        // One axis: (margin edge at the start, or at the end; margins; size)
        struct Axis {
            start: Option<f64>,
            end: Option<f64>,
            ms: f64,
            me: f64,
            size: Option<f64>,
        }
        let tiny = std::cell::Cell::new(false);
        let room = |cb: f64, x: f64| {
            if cb != 0. && x.abs() < TINY {
                tiny.set(true)
            }
            x.max(0.)
        };
        let axis = |start: Option<f64>, end: Option<f64>, static_start: f64, ms: Option<f64>, me: Option<f64>, pb: f64, size: Option<f64>, cb: f64, horizontal: bool| -> Axis {
            let mut a = Axis { start, end, ms: ms.unwrap_or(0.), me: me.unwrap_or(0.), size };
            match (start, end) {
                (None, None) => a.start = Some(static_start),
                (Some(s), Some(e)) => {
                    a.end = None;
                    match size {
                        None => a.size = Some(room(cb, cb - s - e - pb - a.ms - a.me)),
                        Some(size) => {
                            let room = cb - s - e - pb - size;
                            match (ms, me) {
                                (None, None) if horizontal && room < 0. => a.ms = 0.,
                                (None, None) => a.ms = room / 2.,
                                (None, Some(e)) => a.ms = room - e,
                                _ => {}
                            }
                        }
                    }
                }
                _ => {}
            }
            a
        };
        let o = |i: usize, reference: f64| pct(s.len(OFFSET + i), reference);
        let h = axis(o(L, cbw), o(R, cbw), sx - cbx, margin[L], margin[R], pb[L] + pb[R], pct(s.len(WIDTH), cbw), cbw, true);
        let v = axis(o(T, cbh), o(B, cbh), sy - cby, margin[T], margin[B], pb[T] + pb[B], pct(s.len(HEIGHT), cbh), cbh, false);
        let width = h.size.unwrap_or_else(|| room(cbw, cbw - h.start.or(h.end).unwrap() - pb[L] - pb[R] - h.ms - h.me));
        let k = self.kids(&b.content, width, v.size, false, None);
        let height = v.size.unwrap_or((k.height + k.end.value()).max(0.));
        if tiny.get() {
            self.doubt("a size within rounding of zero")
        }
        // Border box
        let x = match (h.start, h.end) {
            (Some(s), _) => cbx + s + h.ms,
            (_, Some(e)) => cbx + cbw - e - h.me - pb[R] - width - pb[L],
            _ => unreachable!(),
        };
        let y = match (v.start, v.end) {
            (Some(s), _) => cby + s + v.ms,
            (_, Some(e)) => cby + cbh - e - v.me - pb[B] - height - pb[T],
            _ => unreachable!(),
        };
        let frag = Frag::Box {
            style: s.clone(),
            node: b.node,
            x,
            y,
            w: width + pb[L] + pb[R],
            h: height + pb[T] + pb[B],
            cx: x + pb[L],
            cy: y + pb[T],
            padding,
            kids: k.frags,
            positioned: true,
        };
        self.paint(frag, 0., 0., &mut Vec::new())
    }

    pub fn run(&mut self) {
        let root = match self.dom.root() {
            Some(r) => r,
            None => return,
        };
        let mut style = (*self.styles[&root]).clone();
        if style.display() == "none" {
            return;
        }
        if style.v[FLOAT] != V::K("none") && !style.is("position", "absolute") {
            self.doubt("float");
            return;
        }
        // Blockified
        if style.display() != "flow-root" {
            style.v[DISPLAY] = V::K("block")
        }
        let style = Rc::new(style);
        let mut absolutes = Vec::new();
        if style.is("position", "absolute") {
            absolutes.push((self.abs_box(style, root), 0., 0.))
        } else {
            let content = self.content(root, &style);
            let b = BlockBox { style, node: root, content, independent: true, anonymous: false };
            let mut p = self.block(&b, PAGE.0, Some(PAGE.1));
            p.frag.shift(0., p.start.value());
            self.paint(p.frag, 0., 0., &mut absolutes)
        }
        for (b, x, y) in absolutes {
            self.absolute(&b, x, y, (0., 0., PAGE.0, PAGE.1))
        }
    }
}
