//! Hostile HTML, XML and CSS: token soup.
use crate::rng::Rng;

pub const TAGS: &[&str] = &[
    "html", "head", "body", "title", "style", "script", "link", "meta", "base", "p", "div", "span", "b", "i", "em", "u", "a", "nobr", "font", "table", "tbody", "thead", "tfoot", "tr", "td", "th", "caption", "col",
    "colgroup", "ul", "ol", "li", "dl", "dt", "dd", "h1", "h2", "h6", "form", "button", "input", "select", "option", "optgroup", "textarea", "pre", "listing", "plaintext", "xmp", "noscript", "iframe", "noframes",
    "noembed", "template", "svg", "math", "mi", "mo", "foreignObject", "desc", "annotation-xml", "img", "br", "hr", "wbr", "area", "object", "applet", "marquee", "frameset", "frame", "ruby", "rb", "rt", "rp", "rtc", "main",
    "section", "article", "center", "details", "summary", "x", "foo-bar", "image", "isindex", "keygen", "address", "blockquote", "strong", "small", "code", "tt", "s", "strike", "big",
];

const FRAGS: &[&str] = &[
    "<!doctype html>", "<!DOCTYPE html PUBLIC \"-//W3C//DTD HTML 3.2//EN\">", "<!-- c -->", "<!--", "-->", "<!>", "</>", "<?x?>", "<![CDATA[x]]>", "]]>", "&amp;", "&lt", "&#0;", "&#x110000;", "&#xD800;", "&notin;",
    "&not", "&#", "&#x", "&", "\0", "\u{FFFD}", "\r\n", "\t", "  ", "\u{a0}", "\u{200b}", "\u{FEFF}", "é", "漢字", "😀", "<", ">", "</", "<a", "<a b='", "\"", "'", "=", "/>", "x", "word ", "some words here ", "\n",
];

const PROPS: &[&str] = &[
    "display", "position", "float", "width", "height", "top", "left", "bottom", "right", "margin", "margin-top", "margin-left", "margin-right", "margin-bottom", "padding", "padding-left", "padding-top", "border-width",
    "border-style", "border-color", "border-top", "border-top-width", "border-left-width", "border-left-style", "background", "background-color", "color", "font-size", "x", "-foo", "--custom", "block-size", "inline-size",
    "writing-mode", "direction", "box-sizing", "line-height", "margin-block-start",
];

const VALUES: &[&str] = &[
    "none", "block", "inline", "flow-root", "contents", "inline-block", "static", "relative", "absolute", "fixed", "left", "right", "auto", "0", "1px", "-1px", "10px", "100%", "50%", "-50%", "1em", "2em", "0.5em", "-3em", "1e3px",
    "1e38px", "1e39px", "-1e39px", "1e-40px", "99999999999999999999px", "3.4e38px", "+5px", "5", "red", "#f00", "#ff000080", "rgba(1,2,3,.5)", "hsl(120,50%,50%)", "transparent", "currentColor", "inherit", "initial", "unset",
    "solid", "thin", "medium", "thick", "solid red 2px", "1px 2px", "1px 2px 3px", "1px 2px 3px 4px", "1px 2px 3px 4px 5px", "!important", "url(x)", "url(", "\"str", "'s'", "calc(1px + 2%)", "var(--x)", "{", "}", "(", ")", "[", "]",
    ",", ";", ":", "\\", "\\66", "/**/", "<!--", "-->", "@x", "#", "#123", "U+26", "1e", "1.", ".5px", "-.5em", "NaN", "1e9999%", "1e20em", "1e38em", "1e38%",
];

const SELS: &[&str] = &[
    "*", "p", "div", "span", ".a", ".b", "#i", "#j", "[id]", "[class~=a]", "[id=i]", "[x|='y']", "[a^=b i]", "[a$=\"\"]", "[a*=b]", ":first-child", ":last-child", ":only-child", ":empty", ":root", ":nth-child(2n+1)", ":nth-child(-n+3)",
    ":nth-last-child(2)", ":nth-of-type(odd)", ":nth-last-of-type(even)", ":first-of-type", ":not(p)", ":not(.a.b)", ":hover", ":link", "::before", "::marker", ">", "+", "~", " ", ",", "a|b", "*|*", "|p", ":is(p)", ":nth-child(99999999999n+1)", ":",
    "..", "##", "[", "(", "svg|rect", ":not(", "\\",
];

pub fn css_value(rng: &Rng, out: &mut String) {
    for _ in 0..1 + rng.below(if rng.chance(1, 4) { 5 } else { 1 }) {
        out.push_str(rng.pick(VALUES));
        out.push(' ')
    }
}

pub fn css_declarations(rng: &Rng, out: &mut String) {
    for _ in 0..rng.below(6) {
        out.push_str(rng.pick(PROPS));
        if !rng.chance(1, 30) {
            out.push(':')
        }
        css_value(rng, out);
        if !rng.chance(1, 15) {
            out.push(';')
        }
    }
}

pub fn css_sheet(rng: &Rng, out: &mut String) {
    for _ in 0..rng.below(8) {
        match rng.below(10) {
            0 => out.push_str(rng.pick(&["@media screen { p { color: red } }", "@import 'x';", "@namespace svg url(http://www.w3.org/2000/svg);", "@font-face { src: x }", "@charset \"x\";", "@x", "@page { margin: 1px", "@", "@{}", "@x;"])),
            1 => out.push_str(rng.pick(FRAGS).replace("</", "").as_str()),
            _ => {
                for _ in 0..1 + rng.below(4) {
                    out.push_str(rng.pick(SELS));
                    if rng.chance(1, 3) {
                        out.push(' ')
                    }
                }
                if !rng.chance(1, 20) {
                    out.push('{')
                }
                css_declarations(rng, out);
                if !rng.chance(1, 20) {
                    out.push('}')
                }
            }
        }
    }
}

pub fn attributes(rng: &Rng, out: &mut String) {
    for _ in 0..rng.below(4) {
        out.push(' ');
        match rng.below(8) {
            0..=2 => {
                out.push_str("style=\"");
                let mut s = String::new();
                css_declarations(rng, &mut s);
                out.push_str(&s.replace('"', "&quot;"));
                out.push('"')
            }
            3 => out.push_str(rng.pick(&["class=a", "class='a b'", "id=i", "id=j", "id=''", "x=y", "a=B", "hidden", "type=hidden", "type=text/css", "rel=x href=y", "xml:lang=en", "xmlns=foo", "=", "\"", "a=1 a=2", "xlink:href=x"])),
            4 => out.push_str("class=a"),
            5 => out.push_str("id=i"),
            6 => {
                out.push_str(rng.pick(&["a", "b", "class", "style", "type"]));
                out.push_str("='");
                out.push_str(&rng.pick(FRAGS).replace('\'', ""));
                out.push('\'')
            }
            _ => {}
        }
    }
}

/// At most `starts` start tags.
pub fn html(rng: &Rng, starts: usize) -> String {
    let mut out = String::new();
    let style = rng.chance(2, 3);
    let focused: Vec<&str> = (0..1 + rng.below(10)).map(|_| rng.pick(TAGS)).collect();
    let mut n = 0;
    if rng.chance(1, 2) {
        out.push_str("<!doctype html>")
    }
    if style {
        out.push_str("<style>");
        css_sheet(rng, &mut out);
        out.push_str("</style>");
        n += 1;
    }
    let len = rng.below(3 * starts + 2);
    let mut open: Vec<&str> = Vec::new();
    for _ in 0..len {
        let tag = if rng.chance(2, 3) { rng.pick(&focused) } else { rng.pick(TAGS) };
        match rng.below(10) {
            0..=3 if n < starts => {
                n += 1;
                out.push('<');
                out.push_str(tag);
                if rng.chance(1, 2) {
                    attributes(rng, &mut out)
                }
                if rng.chance(1, 12) {
                    out.push('/')
                }
                if !rng.chance(1, 40) {
                    out.push('>')
                }
                open.push(tag);
                if tag == "style" && rng.chance(1, 2) {
                    css_sheet(rng, &mut out);
                    out.push_str("</style>")
                }
            }
            4..=5 => {
                let t = if rng.chance(2, 3) { open.pop().unwrap_or(tag) } else { tag };
                out.push_str("</");
                out.push_str(t);
                out.push('>')
            }
            6..=7 => out.push_str(rng.pick(&["text ", "a", "some longer words that wrap in narrow boxes ", " ", "\n", "x y z "])),
            _ => out.push_str(rng.pick(FRAGS)),
        }
    }
    out
}

/// A well-formed document of styled boxes, for variety of drawing
pub fn boxes(rng: &Rng) -> String {
    let mut out = String::from("<!doctype html><style>* { ");
    css_declarations(rng, &mut out);
    out.push_str("}</style>");
    fn walk(rng: &Rng, depth: usize, budget: &mut usize, out: &mut String) {
        for _ in 0..1 + rng.below(4) {
            if *budget == 0 {
                return;
            }
            *budget -= 1;
            if depth < 8 && rng.chance(2, 3) {
                let tag = rng.pick(&["div", "span", "p", "section"]);
                let color = rng.pick(&["red", "rgba(0,0,255,.5)", "#0f08", "hsla(50,50%,50%,.25)", "transparent", "#abc"]);
                let display = rng.pick(&["block", "inline", "block", "contents", "flow-root"]);
                let position = rng.pick(&["static", "static", "relative", "absolute"]);
                out.push_str(&format!(
                    "<{} style=\"display:{};position:{};background:{};color:{};padding:{}px;margin:{}px;font-size:{}px;{}:{}px\">",
                    tag,
                    display,
                    position,
                    color,
                    rng.pick(&["red", "#123", "rgba(1,2,3,.4)"]),
                    rng.below(10),
                    rng.range(-5, 20),
                    5 + rng.below(30),
                    rng.pick(&["left", "top", "width", "height", "right"]),
                    rng.range(-10, 300)
                ));
                walk(rng, depth + 1, budget, out);
                out.push_str(&format!("</{}>", tag))
            } else {
                out.push_str(rng.pick(&["word ", "two words", " ", "\n", "Ünïcödé ", "a b c d e f g h "]))
            }
        }
    }
    let mut budget = 60;
    walk(rng, 0, &mut budget, &mut out);
    out
}

pub fn mutate(rng: &Rng, bytes: &mut Vec<u8>) {
    for _ in 0..1 + rng.below(8) {
        if bytes.is_empty() {
            return;
        }
        let i = rng.below(bytes.len());
        match rng.below(6) {
            0 => bytes[i] = rng.next() as u8,
            1 => bytes[i] ^= 1 << rng.below(8),
            2 => {
                bytes.remove(i);
            }
            3 => bytes.insert(i, rng.next() as u8),
            4 => {
                let j = (i + rng.below(20)).min(bytes.len());
                bytes.drain(i..j);
            }
            _ => {
                let j = (i + rng.below(20)).min(bytes.len());
                let piece = bytes[i..j].to_vec();
                let at = rng.below(bytes.len());
                for (k, b) in piece.into_iter().enumerate() {
                    bytes.insert(at + k, b)
                }
            }
        }
    }
}
