//! Strict, independent PDF parser and content-stream interpreter.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Obj {
    Null,
    Bool(bool),
    Int(i64),
    Real(f64),
    Name(Vec<u8>),
    Str(Vec<u8>),
    Array(Vec<Obj>),
    Dict(Dict),
    Ref(u32),
}

pub type Dict = Vec<(Vec<u8>, Obj)>;

#[derive(Clone, Debug)]
pub struct Indirect {
    pub obj: Obj,
    pub stream: Option<Vec<u8>>,
}

#[derive(Debug)]
pub struct Pdf {
    pub version: String,
    pub objects: BTreeMap<u32, Indirect>,
    pub trailer: Dict,
    pub pages: Vec<PageObj>,
    /// Font resources read so far
    fonts: std::cell::RefCell<BTreeMap<u32, std::rc::Rc<FontRes>>>,
}

#[derive(Debug)]
pub struct PageObj {
    pub id: u32,
    /// llx lly urx ury, normalized
    pub media: [f64; 4],
    pub content: Vec<u8>,
    pub fonts: BTreeMap<Vec<u8>, u32>,
    pub gstates: BTreeMap<Vec<u8>, Dict>,
}

pub fn get<'a>(d: &'a Dict, key: &str) -> Option<&'a Obj> {
    d.iter().find(|(k, _)| k == key.as_bytes()).map(|(_, v)| v)
}

impl Obj {
    pub fn num(&self) -> Option<f64> {
        match *self {
            Obj::Int(i) => Some(i as f64),
            Obj::Real(r) => Some(r),
            _ => None,
        }
    }
    pub fn name(&self) -> Option<&str> {
        match self {
            Obj::Name(n) => std::str::from_utf8(n).ok(),
            _ => None,
        }
    }
    fn contains_ref(&self, out: &mut Vec<u32>) {
        match self {
            Obj::Ref(r) => out.push(*r),
            Obj::Array(a) => a.iter().for_each(|o| o.contains_ref(out)),
            Obj::Dict(d) => d.iter().for_each(|(_, o)| o.contains_ref(out)),
            _ => {}
        }
    }
}

fn is_ws(b: u8) -> bool {
    matches!(b, 0 | 9 | 10 | 12 | 13 | 32)
}
fn is_delim(b: u8) -> bool {
    matches!(b, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'{' | b'}' | b'/' | b'%')
}

pub struct Lexer<'a> {
    pub b: &'a [u8],
    pub p: usize,
}

type R<T> = Result<T, String>;

impl<'a> Lexer<'a> {
    pub fn new(b: &'a [u8], p: usize) -> Self {
        Lexer { b, p }
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let s = self.p.min(self.b.len());
        let near = &self.b[s.saturating_sub(20)..(s + 20).min(self.b.len())];
        Err(format!("{} at byte {} near {:?}", m, self.p, String::from_utf8_lossy(near)))
    }
    fn peek(&self) -> Option<u8> {
        self.b.get(self.p).copied()
    }
    pub fn skip_ws(&mut self) {
        while let Some(c) = self.peek() {
            if is_ws(c) {
                self.p += 1
            } else if c == b'%' {
                while self.peek().map_or(false, |c| c != 10 && c != 13) {
                    self.p += 1
                }
            } else {
                break;
            }
        }
    }
    fn regular(&mut self) -> &'a [u8] {
        let s = self.p;
        while self.peek().map_or(false, |c| !is_ws(c) && !is_delim(c)) {
            self.p += 1
        }
        &self.b[s..self.p]
    }
    fn keyword(&mut self, k: &str) -> R<()> {
        let w = self.regular();
        if w == k.as_bytes() {
            Ok(())
        } else {
            self.err(&format!("expected {:?}", k))
        }
    }
    fn eol(&mut self) -> R<()> {
        match self.peek() {
            Some(10) => self.p += 1,
            Some(13) => {
                self.p += 1;
                if self.peek() == Some(10) {
                    self.p += 1
                }
            }
            _ => return self.err("expected an end of line"),
        }
        Ok(())
    }
    fn uint(&mut self) -> R<u64> {
        let w = self.regular();
        if w.is_empty() || w.len() > 18 || !w.iter().all(u8::is_ascii_digit) {
            return self.err("expected an unsigned integer");
        }
        Ok(std::str::from_utf8(w).unwrap().parse().unwrap())
    }
    fn name(&mut self) -> R<Vec<u8>> {
        self.p += 1;
        let raw = self.regular();
        let mut out = Vec::new();
        let mut i = 0;
        while i < raw.len() {
            if raw[i] == b'#' {
                let hex = raw.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| if h.bytes().all(|c| c.is_ascii_hexdigit()) { u8::from_str_radix(h, 16).ok() } else { None });
                match hex {
                    Some(0) => return self.err("null character in a name"),
                    Some(v) => out.push(v),
                    None => return self.err("bad # escape in a name"),
                }
                i += 3
            } else {
                if raw[i] < 0x21 || raw[i] > 0x7e {
                    return self.err("unescaped byte in a name");
                }
                out.push(raw[i]);
                i += 1
            }
        }
        Ok(out)
    }
    fn number(&mut self, w: &[u8]) -> R<Obj> {
        let body = if w.first().map_or(false, |&c| c == b'+' || c == b'-') { &w[1..] } else { w };
        let dots = body.iter().filter(|&&c| c == b'.').count();
        let digits = body.iter().filter(|c| c.is_ascii_digit()).count();
        if dots > 1 || digits == 0 || dots + digits != body.len() {
            return self.err(&format!("bad number {:?}", String::from_utf8_lossy(w)));
        }
        let s = std::str::from_utf8(w).unwrap();
        if dots == 0 {
            match s.trim_start_matches('+').parse::<i64>() {
                Ok(i) => Ok(Obj::Int(i)),
                Err(_) => Ok(Obj::Real(s.trim_start_matches('+').parse().unwrap())),
            }
        } else {
            let r: f64 = s.trim_start_matches('+').parse().unwrap();
            // 32-bit IEEE floats is what PDF readers have to support
            if r.abs() > 3.403e38 {
                return self.err("real number beyond the limits of PDF");
            }
            Ok(Obj::Real(r))
        }
    }
    /// `refs`: whether `1 0 R` is allowed here (not in content streams)
    pub fn object(&mut self, refs: bool, depth: usize) -> R<Obj> {
        if depth > 60 {
            return self.err("too deep");
        }
        self.skip_ws();
        match self.peek() {
            None => self.err("unexpected end"),
            Some(b'/') => Ok(Obj::Name(self.name()?)),
            Some(b'(') => {
                let mut out = Vec::new();
                let mut level = 0;
                loop {
                    let c = match self.peek() {
                        None => return self.err("unterminated string"),
                        Some(c) => c,
                    };
                    self.p += 1;
                    match c {
                        b'(' => {
                            if level > 0 {
                                out.push(c)
                            }
                            level += 1
                        }
                        b')' => {
                            level -= 1;
                            if level == 0 {
                                return Ok(Obj::Str(out));
                            }
                            out.push(c)
                        }
                        b'\\' => {
                            let e = match self.peek() {
                                None => return self.err("unterminated string"),
                                Some(c) => c,
                            };
                            self.p += 1;
                            match e {
                                b'n' => out.push(10),
                                b'r' => out.push(13),
                                b't' => out.push(9),
                                b'b' => out.push(8),
                                b'f' => out.push(12),
                                b'0'..=b'7' => {
                                    let mut v = (e - b'0') as u32;
                                    for _ in 0..2 {
                                        match self.peek() {
                                            Some(d @ b'0'..=b'7') => {
                                                v = v * 8 + (d - b'0') as u32;
                                                self.p += 1
                                            }
                                            _ => break,
                                        }
                                    }
                                    out.push(v as u8)
                                }
                                10 => {}
                                _ => out.push(e),
                            }
                        }
                        _ => out.push(c),
                    }
                }
            }
            Some(b'<') if self.b.get(self.p + 1) == Some(&b'<') => {
                self.p += 2;
                let mut d: Dict = Vec::new();
                loop {
                    self.skip_ws();
                    match self.peek() {
                        Some(b'>') => {
                            if self.b.get(self.p + 1) != Some(&b'>') {
                                return self.err("expected >>");
                            }
                            self.p += 2;
                            return Ok(Obj::Dict(d));
                        }
                        Some(b'/') => {
                            let k = self.name()?;
                            let v = self.object(refs, depth + 1)?;
                            if d.iter().any(|(k2, _)| *k2 == k) {
                                return self.err(&format!("duplicate key {:?}", String::from_utf8_lossy(&k)));
                            }
                            d.push((k, v))
                        }
                        _ => return self.err("expected a key or >>"),
                    }
                }
            }
            Some(b'<') => {
                self.p += 1;
                let mut digits = Vec::new();
                loop {
                    match self.peek() {
                        Some(b'>') => {
                            self.p += 1;
                            break;
                        }
                        Some(c) if c.is_ascii_hexdigit() => {
                            digits.push((c as char).to_digit(16).unwrap() as u8);
                            self.p += 1
                        }
                        Some(c) if is_ws(c) => self.p += 1,
                        _ => return self.err("bad hex string"),
                    }
                }
                if digits.len() % 2 == 1 {
                    digits.push(0)
                }
                Ok(Obj::Str(digits.chunks(2).map(|c| c[0] * 16 + c[1]).collect()))
            }
            Some(b'[') => {
                self.p += 1;
                let mut a = Vec::new();
                loop {
                    self.skip_ws();
                    if self.peek() == Some(b']') {
                        self.p += 1;
                        return Ok(Obj::Array(a));
                    }
                    a.push(self.object(refs, depth + 1)?)
                }
            }
            Some(c) if c.is_ascii_digit() || matches!(c, b'+' | b'-' | b'.') => {
                let w = self.regular().to_vec();
                let n = self.number(&w)?;
                if let (true, Obj::Int(id)) = (refs, &n) {
                    // Look ahead for `gen R`
                    let save = self.p;
                    self.skip_ws();
                    if let Ok(gen) = self.uint() {
                        self.skip_ws();
                        if self.regular() == b"R" {
                            if gen != 0 {
                                return self.err("reference to a non-zero generation");
                            }
                            return Ok(Obj::Ref(*id as u32));
                        }
                    }
                    self.p = save
                }
                Ok(n)
            }
            Some(_) => {
                let w = self.regular();
                match w {
                    b"true" => Ok(Obj::Bool(true)),
                    b"false" => Ok(Obj::Bool(false)),
                    b"null" => Ok(Obj::Null),
                    _ => {
                        self.p -= w.len();
                        self.err("expected an object")
                    }
                }
            }
        }
    }
}

impl Pdf {
    pub fn parse(b: &[u8]) -> R<Pdf> {
        if !b.starts_with(b"%PDF-") {
            return Err("no %PDF- header".into());
        }
        let eol = b.iter().position(|&c| c == 10 || c == 13).ok_or("no end of line after the header")?;
        let version = String::from_utf8_lossy(&b[5..eol]).into_owned();
        if !matches!(version.as_str(), "1.0" | "1.1" | "1.2" | "1.3" | "1.4" | "1.5" | "1.6" | "1.7" | "2.0") {
            return Err(format!("bad PDF version {:?}", version));
        }
        if b.iter().any(|&c| c >= 128) {
            // A file with binary data should say so in a comment of at least four bytes
            let mut l = Lexer::new(b, eol);
            l.eol()?;
            let line = &b[l.p..(l.p + 5).min(b.len())];
            if line.len() < 5 || line[0] != b'%' || !line[1..].iter().all(|&c| c >= 128) {
                return Err("no binary comment after the header".into());
            }
        }
        // Trailer end
        let mut end = b.len();
        while end > 0 && (b[end - 1] == 10 || b[end - 1] == 13) {
            end -= 1
        }
        if b.len() - end > 2 || !b[..end].ends_with(b"%%EOF") {
            return Err("does not end with %%EOF".into());
        }
        let tail_start = end.saturating_sub(80);
        let tail = &b[tail_start..end];
        let sx = find_last(tail, b"startxref").ok_or("no startxref")? + tail_start;
        let mut l = Lexer::new(b, sx);
        l.keyword("startxref")?;
        l.eol()?;
        let xref_at = l.uint()? as usize;
        l.eol()?;
        if l.p != end - 5 {
            return Err("junk between startxref and %%EOF".into());
        }
        if xref_at >= b.len() {
            return Err("startxref beyond the end".into());
        }
        // xref
        let mut l = Lexer::new(b, xref_at);
        l.keyword("xref").map_err(|e| format!("startxref does not point to the xref table: {}", e))?;
        l.eol()?;
        let mut entries: BTreeMap<u32, Option<usize>> = BTreeMap::new();
        while l.peek().map_or(false, |c| c.is_ascii_digit()) {
            let first = l.uint()? as u32;
            if l.peek() != Some(32) {
                return l.err("expected a space in the xref subsection header");
            }
            l.p += 1;
            let n = l.uint()? as u32;
            l.eol()?;
            for i in 0..n {
                let e = b.get(l.p..l.p + 20).ok_or("truncated xref table")?;
                let ok = e[..10].iter().all(u8::is_ascii_digit)
                    && e[10] == b' '
                    && e[11..16].iter().all(u8::is_ascii_digit)
                    && e[16] == b' '
                    && (e[17] == b'n' || e[17] == b'f')
                    && matches!(&e[18..], b" \n" | b" \r" | b"\r\n");
                if !ok {
                    return l.err("malformed xref entry");
                }
                let off: usize = std::str::from_utf8(&e[..10]).unwrap().parse().unwrap();
                let gen: u32 = std::str::from_utf8(&e[11..16]).unwrap().parse().unwrap();
                let id = first + i;
                if e[17] == b'f' {
                    if id == 0 && (gen != 65535 || off != 0) {
                        return l.err("bad head of the free list");
                    }
                    entries.insert(id, None);
                } else {
                    if id == 0 || gen != 0 {
                        return l.err("bad in-use xref entry");
                    }
                    if entries.insert(id, Some(off)).is_some() {
                        return l.err("duplicate xref entry");
                    }
                }
                l.p += 20
            }
        }
        if entries.get(&0) != Some(&None) {
            return Err("object 0 is not the free list head".into());
        }
        l.skip_ws();
        l.keyword("trailer")?;
        let trailer = match l.object(true, 0)? {
            Obj::Dict(d) => d,
            _ => return Err("trailer is not a dictionary".into()),
        };
        l.skip_ws();
        if l.p != sx {
            return Err("junk between the trailer and startxref".into());
        }
        let size = match get(&trailer, "Size") {
            Some(Obj::Int(n)) => *n,
            _ => return Err("no Size in the trailer".into()),
        };
        if size != *entries.keys().last().unwrap() as i64 + 1 || size != entries.len() as i64 {
            return Err(format!("Size {} does not match the xref table with {} entries", size, entries.len()));
        }
        // Objects
        let mut objects = BTreeMap::new();
        let mut spans: Vec<(usize, usize, u32)> = Vec::new();
        for (&id, &off) in &entries {
            let off = match off {
                None => continue,
                Some(o) => o,
            };
            if off >= xref_at {
                return Err(format!("object {} offset {} is not before the xref table", id, off));
            }
            if off > 0 && !is_ws(b[off - 1]) {
                return Err(format!("object {} offset {} is inside of a token", id, off));
            }
            let mut l = Lexer::new(b, off);
            let ctx = |e: String| format!("object {}: {}", id, e);
            let n = l.uint().map_err(ctx)?;
            if n != id as u64 {
                return Err(format!("the xref entry of object {} points to object {}", id, n));
            }
            l.skip_ws();
            if l.uint().map_err(ctx)? != 0 {
                return Err(format!("object {} has a non-zero generation", id));
            }
            l.skip_ws();
            l.keyword("obj").map_err(ctx)?;
            let obj = l.object(true, 0).map_err(ctx)?;
            l.skip_ws();
            let mut stream = None;
            if l.b[l.p..].starts_with(b"stream") {
                l.p += 6;
                if l.peek() == Some(13) {
                    l.p += 1
                }
                if l.peek() != Some(10) {
                    return Err(format!("object {}: no line feed after `stream`", id));
                }
                l.p += 1;
                let len = match &obj {
                    Obj::Dict(d) => match get(d, "Length") {
                        Some(Obj::Int(n)) if *n >= 0 => *n as usize,
                        _ => return Err(format!("object {}: stream without a direct Length", id)),
                    },
                    _ => return Err(format!("object {}: stream without a dictionary", id)),
                };
                let data = b.get(l.p..l.p + len).ok_or(format!("object {}: stream beyond the end", id))?;
                stream = Some(data.to_vec());
                l.p += len;
                if !l.b[l.p..].starts_with(b"endstream") {
                    l.eol().map_err(|e| format!("object {}: Length does not reach endstream: {}", id, e))?;
                }
                l.keyword("endstream").map_err(|e| format!("object {}: Length does not reach endstream: {}", id, e))?;
                l.skip_ws()
            }
            l.keyword("endobj").map_err(ctx)?;
            spans.push((off, l.p, id));
            objects.insert(id, Indirect { obj, stream });
        }
        spans.sort();
        for w in spans.windows(2) {
            if w[1].0 < w[0].1 {
                return Err(format!("objects {} and {} overlap", w[0].2, w[1].2));
            }
        }
        // References
        let mut refs = Vec::new();
        for o in objects.values() {
            o.obj.contains_ref(&mut refs)
        }
        trailer.iter().for_each(|(_, o)| o.contains_ref(&mut refs));
        for r in refs {
            if !objects.contains_key(&r) {
                return Err(format!("dangling reference to object {}", r));
            }
        }
        let mut pdf = Pdf { version, objects, trailer, pages: Vec::new(), fonts: Default::default() };
        pdf.load_pages()?;
        Ok(pdf)
    }

    pub fn resolve<'a>(&'a self, o: &'a Obj) -> &'a Obj {
        match o {
            Obj::Ref(r) => &self.objects[r].obj,
            o => o,
        }
    }
    pub fn dict<'a>(&'a self, o: Option<&'a Obj>) -> R<&'a Dict> {
        match o.map(|o| self.resolve(o)) {
            Some(Obj::Dict(d)) => Ok(d),
            o => Err(format!("expected a dictionary, found {:?}", o)),
        }
    }
    fn get<'a>(&'a self, d: &'a Dict, k: &str) -> Option<&'a Obj> {
        get(d, k).map(|o| self.resolve(o))
    }

    fn load_pages(&mut self) -> R<()> {
        let catalog = self.dict(get(&self.trailer, "Root"))?;
        if self.get(catalog, "Type").and_then(Obj::name) != Some("Catalog") {
            return Err("Root is not a Catalog".into());
        }
        let root = match get(catalog, "Pages") {
            Some(&Obj::Ref(r)) => r,
            _ => return Err("Pages of the catalog is not a reference".into()),
        };
        if let Some(info) = get(&self.trailer, "Info") {
            let info = self.dict(Some(info))?;
            for (k, v) in info {
                if !matches!(v, Obj::Str(_) | Obj::Name(_)) {
                    return Err(format!("bad Info entry {:?}", String::from_utf8_lossy(k)));
                }
            }
        }
        let mut pages = Vec::new();
        let mut seen = Vec::new();
        self.walk(root, None, &[], &mut pages, &mut seen)?;
        self.pages = pages;
        Ok(())
    }

    fn walk(&self, id: u32, parent: Option<u32>, inherited: &[(Vec<u8>, Obj)], pages: &mut Vec<PageObj>, seen: &mut Vec<u32>) -> R<usize> {
        if seen.contains(&id) {
            return Err(format!("page tree node {} appears twice", id));
        }
        seen.push(id);
        let d = match &self.objects[&id].obj {
            Obj::Dict(d) => d,
            _ => return Err("page tree node is not a dictionary".into()),
        };
        let p = match get(d, "Parent") {
            None => None,
            Some(&Obj::Ref(r)) => Some(r),
            _ => return Err("Parent is not a reference".into()),
        };
        if p != parent {
            return Err(format!("page tree node {} has the wrong Parent", id));
        }
        let mut attrs: Vec<(Vec<u8>, Obj)> = inherited.to_vec();
        for k in ["Resources", "MediaBox"] {
            if let Some(o) = get(d, k) {
                attrs.retain(|(k2, _)| k2 != k.as_bytes());
                attrs.push((k.as_bytes().to_vec(), o.clone()))
            }
        }
        match self.get(d, "Type").and_then(Obj::name) {
            Some("Pages") => {
                let kids = match self.get(d, "Kids") {
                    Some(Obj::Array(a)) => a,
                    _ => return Err("no Kids".into()),
                };
                let mut n = 0;
                for k in kids {
                    match k {
                        Obj::Ref(r) => n += self.walk(*r, Some(id), &attrs, pages, seen)?,
                        _ => return Err("kid is not a reference".into()),
                    }
                }
                if self.get(d, "Count") != Some(&Obj::Int(n as i64)) {
                    return Err(format!("page tree Count {:?} but {} pages", self.get(d, "Count"), n));
                }
                Ok(n)
            }
            Some("Page") => {
                let media = match get(&attrs, "MediaBox").map(|o| self.resolve(o)) {
                    Some(Obj::Array(a)) if a.len() == 4 => {
                        let v: Vec<f64> = a.iter().filter_map(|o| self.resolve(o).num()).collect();
                        if v.len() != 4 {
                            return Err("MediaBox is not four numbers".into());
                        }
                        [v[0].min(v[2]), v[1].min(v[3]), v[0].max(v[2]), v[1].max(v[3])]
                    }
                    _ => return Err("no MediaBox".into()),
                };
                let mut fonts = BTreeMap::new();
                let mut gstates = BTreeMap::new();
                let res = self.dict(get(&attrs, "Resources").or(None)).map_err(|e| format!("Resources: {}", e))?;
                if let Some(f) = get(res, "Font") {
                    for (k, v) in self.dict(Some(f))? {
                        match v {
                            Obj::Ref(r) => {
                                fonts.insert(k.clone(), *r);
                            }
                            _ => return Err("font resource is not a reference".into()),
                        }
                    }
                }
                if let Some(g) = get(res, "ExtGState") {
                    for (k, v) in self.dict(Some(g))? {
                        gstates.insert(k.clone(), self.dict(Some(v))?.clone());
                    }
                }
                let mut content = Vec::new();
                let mut add = |o: &Obj| -> R<()> {
                    match o {
                        Obj::Ref(r) => match &self.objects[r].stream {
                            Some(s) => {
                                content.extend_from_slice(s);
                                content.push(b'\n');
                                Ok(())
                            }
                            None => Err("Contents is not a stream".into()),
                        },
                        _ => Err("Contents is not a reference".into()),
                    }
                };
                match get(d, "Contents") {
                    None => {}
                    Some(Obj::Array(a)) => {
                        for o in a {
                            add(o)?
                        }
                    }
                    Some(o) => add(o)?,
                }
                pages.push(PageObj { id, media, content, fonts, gstates });
                Ok(1)
            }
            t => Err(format!("bad page tree node Type {:?}", t)),
        }
    }
}

fn find_last(h: &[u8], n: &[u8]) -> Option<usize> {
    (0..=h.len().checked_sub(n.len())?).rev().find(|&i| &h[i..i + n.len()] == n)
}

// ---------------------------------------------------------------------------
// Content streams

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// x, y, width, height in CSS px from the top left corner of the page
    Rect { x: f64, y: f64, w: f64, h: f64 },
    /// Start of the baseline; `font`: object number of the font dictionary
    Text { x: f64, y: f64, size: f64, font: u32, glyphs: Vec<u16> },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub kind: Kind,
    pub rgb: [f64; 3],
    pub alpha: f64,
}

#[derive(Clone)]
struct Gs {
    ctm: [f64; 6],
    rgb: [f64; 3],
    alpha: f64,
    font: Option<u32>,
    size: f64,
}

fn mul(a: [f64; 6], b: [f64; 6]) -> [f64; 6] {
    [
        a[0] * b[0] + a[1] * b[2],
        a[0] * b[1] + a[1] * b[3],
        a[2] * b[0] + a[3] * b[2],
        a[2] * b[1] + a[3] * b[3],
        a[4] * b[0] + a[5] * b[2] + b[4],
        a[4] * b[1] + a[5] * b[3] + b[5],
    ]
}

const OTHER_OPERATORS: &[&str] = &[
    "w", "J", "j", "M", "d", "ri", "i", "v", "y", "W", "W*", "CS", "cs", "SC", "SCN", "sc", "scn", "G", "RG", "K", "sh", "BI", "ID", "EI", "Do", "Tc", "Tw", "Tz", "TL", "Tr", "Ts", "T*", "TD", "'", "\"", "d0", "d1", "MP", "DP", "BMC", "BDC", "EMC", "BX", "EX", "S", "s", "B", "B*", "b", "b*", "c",
];

pub struct Interpreted {
    pub items: Vec<Item>,
    pub operators: usize,
    /// operators that are valid PDF but not interpreted here
    pub unsupported: Vec<String>,
}

impl Pdf {
    pub fn interpret(&self, page: &PageObj) -> R<Interpreted> {
        let mut l = Lexer::new(&page.content, 0);
        let mut stack: Vec<Obj> = Vec::new();
        let initial = Gs { ctm: [1., 0., 0., 1., 0., 0.], rgb: [0.; 3], alpha: 1., font: None, size: 0. };
        let mut gs = initial;
        let mut saved: Vec<Gs> = Vec::new();
        let mut out = Interpreted { items: Vec::new(), operators: 0, unsupported: Vec::new() };
        let mut path: Vec<[f64; 4]> = Vec::new();
        let mut complex_path = false;
        let mut text: Option<([f64; 6], [f64; 6])> = None; // Tm, Tlm
        let [llx, _, _, ury] = page.media;
        loop {
            l.skip_ws();
            let c = match l.peek() {
                None => break,
                Some(c) => c,
            };
            if is_delim(c) || c.is_ascii_digit() || matches!(c, b'+' | b'-' | b'.') {
                if stack.len() > 512 {
                    return l.err("too many operands");
                }
                stack.push(l.object(false, 0)?);
                continue;
            }
            let w = l.regular();
            if matches!(w, b"true" | b"false" | b"null") {
                stack.push(Obj::Null);
                continue;
            }
            let op = String::from_utf8_lossy(w).into_owned();
            out.operators += 1;
            let args = std::mem::take(&mut stack);
            let nums = |n: usize| -> R<Vec<f64>> {
                let v: Vec<f64> = args.iter().filter_map(Obj::num).collect();
                if args.len() == n && v.len() == n {
                    Ok(v)
                } else {
                    Err(format!("operator {} needs {} numbers, has {:?}", op, n, args))
                }
            };
            let none = || -> R<()> {
                if args.is_empty() {
                    Ok(())
                } else {
                    Err(format!("operator {} takes no operand, has {:?}", op, args))
                }
            };
            let in_text = text.is_some();
            let need_page = |ok: bool| if ok { Ok(()) } else { Err(format!("operator {} in a wrong place", op)) };
            match op.as_str() {
                "q" => {
                    none()?;
                    need_page(!in_text && path.is_empty())?;
                    saved.push(gs.clone())
                }
                "Q" => {
                    none()?;
                    need_page(!in_text && path.is_empty())?;
                    gs = saved.pop().ok_or("unbalanced Q")?
                }
                "cm" => {
                    let v = nums(6)?;
                    need_page(!in_text && path.is_empty())?;
                    gs.ctm = mul([v[0], v[1], v[2], v[3], v[4], v[5]], gs.ctm)
                }
                "gs" => {
                    need_page(path.is_empty())?;
                    let d = match &args[..] {
                        [Obj::Name(n)] => page.gstates.get(n).ok_or(format!("undefined graphics state {:?}", String::from_utf8_lossy(n)))?,
                        _ => return Err(format!("bad operands for gs: {:?}", args)),
                    };
                    if let Some(a) = get(d, "ca") {
                        let a = a.num().ok_or("ca is not a number")?;
                        if !(0. ..=1.).contains(&a) {
                            return Err(format!("ca {} out of range", a));
                        }
                        gs.alpha = a
                    }
                }
                "rg" => {
                    need_page(path.is_empty())?;
                    let v = nums(3)?;
                    gs.rgb = [v[0], v[1], v[2]]
                }
                "g" => {
                    need_page(path.is_empty())?;
                    let v = nums(1)?;
                    gs.rgb = [v[0]; 3]
                }
                "re" => {
                    need_page(!in_text)?;
                    let v = nums(4)?;
                    path.push([v[0], v[1], v[2], v[3]])
                }
                "m" | "l" => {
                    need_page(!in_text)?;
                    nums(2)?;
                    complex_path = true;
                    out.unsupported.push(op.clone())
                }
                "h" => {
                    none()?;
                    out.unsupported.push(op.clone())
                }
                "n" => {
                    none()?;
                    path.clear();
                    complex_path = false
                }
                "f" | "F" | "f*" => {
                    none()?;
                    need_page(!in_text)?;
                    if path.is_empty() && !complex_path {
                        return Err("fill without a path".into());
                    }
                    for r in path.drain(..) {
                        if gs.ctm[1] != 0. || gs.ctm[2] != 0. {
                            out.unsupported.push("rotated".into());
                            continue;
                        }
                        let x0 = r[0] * gs.ctm[0] + gs.ctm[4];
                        let y0 = r[1] * gs.ctm[3] + gs.ctm[5];
                        let x1 = (r[0] + r[2]) * gs.ctm[0] + gs.ctm[4];
                        let y1 = (r[1] + r[3]) * gs.ctm[3] + gs.ctm[5];
                        let k = 96. / 72.;
                        // A CSS rectangle keeps the sign of its size as requested
                        let (cx0, cx1) = ((x0 - llx) * k, (x1 - llx) * k);
                        let (cy0, cy1) = ((ury - y0) * k, (ury - y1) * k);
                        out.items.push(Item { kind: Kind::Rect { x: cx0, y: cy0, w: cx1 - cx0, h: cy1 - cy0 }, rgb: gs.rgb, alpha: gs.alpha })
                    }
                    complex_path = false
                }
                "BT" => {
                    none()?;
                    need_page(!in_text && path.is_empty())?;
                    let i = [1., 0., 0., 1., 0., 0.];
                    text = Some((i, i))
                }
                "ET" => {
                    none()?;
                    need_page(in_text)?;
                    text = None
                }
                "Tf" => {
                    need_page(path.is_empty())?;
                    match &args[..] {
                        [Obj::Name(n), s] => {
                            gs.font = Some(*page.fonts.get(n).ok_or(format!("undefined font {:?}", String::from_utf8_lossy(n)))?);
                            gs.size = s.num().ok_or("font size is not a number")?
                        }
                        _ => return Err(format!("bad operands for Tf: {:?}", args)),
                    }
                }
                "Td" => {
                    need_page(in_text)?;
                    let v = nums(2)?;
                    let lm = mul([1., 0., 0., 1., v[0], v[1]], text.unwrap().1);
                    text = Some((lm, lm))
                }
                "Tm" => {
                    need_page(in_text)?;
                    let v = nums(6)?;
                    let m = [v[0], v[1], v[2], v[3], v[4], v[5]];
                    text = Some((m, m))
                }
                "Tj" => {
                    need_page(in_text)?;
                    let s = match &args[..] {
                        [Obj::Str(s)] => s,
                        _ => return Err(format!("bad operands for Tj: {:?}", args)),
                    };
                    let font = gs.font.ok_or("text shown without a font")?;
                    if s.len() % 2 != 0 {
                        return Err("odd number of bytes shown with a two-byte encoding".into());
                    }
                    let m = mul(text.unwrap().0, gs.ctm);
                    if m[1] != 0. || m[2] != 0. {
                        out.unsupported.push("rotated text".into())
                    }
                    let k = 96. / 72.;
                    let size = m[0] * gs.size * k;
                    let vsize = m[3] * gs.size * k;
                    if (size - vsize).abs() > 1e-3 * size.abs().max(1e-30) {
                        return Err(format!("text is stretched or upside down: {} × {}", size, vsize));
                    }
                    out.items.push(Item {
                        kind: Kind::Text {
                            x: (m[4] - llx) * k,
                            y: (ury - m[5]) * k,
                            size,
                            font,
                            glyphs: s.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect(),
                        },
                        rgb: gs.rgb,
                        alpha: gs.alpha,
                    })
                }
                o if OTHER_OPERATORS.contains(&o) => out.unsupported.push(op.clone()),
                _ => return Err(format!("unknown operator {:?}", op)),
            }
        }
        if !stack.is_empty() {
            return Err("operands without an operator at the end of the content".into());
        }
        if text.is_some() {
            return Err("BT without ET".into());
        }
        if !path.is_empty() || complex_path {
            return Err("path not painted at the end of the content".into());
        }
        if !saved.is_empty() {
            return Err("q without Q".into());
        }
        Ok(out)
    }

    /// Display list of a page; an operator outside of those interpreted is an error.
    pub fn display(&self, page: usize) -> R<Vec<Item>> {
        let i = self.interpret(&self.pages[page]).map_err(|e| format!("page {}: {}", page, e))?;
        if !i.unsupported.is_empty() {
            return Err(format!("operators not interpreted: {:?}", i.unsupported));
        }
        Ok(i.items)
    }

    /// Everything that C02 requires, beyond what `parse` checked.
    pub fn validate(&self) -> R<usize> {
        let mut ops = 0;
        let mut seen = std::collections::BTreeSet::new();
        for (n, p) in self.pages.iter().enumerate() {
            let i = self.interpret(p).map_err(|e| format!("page {}: {}", n, e))?;
            ops += i.operators;
            for &f in p.fonts.values() {
                if seen.insert(f) {
                    self.font(f)?;
                }
            }
            for d in p.gstates.values() {
                for (k, v) in d {
                    match (&k[..], v.num()) {
                        (b"ca", Some(a)) | (b"CA", Some(a)) if (0. ..=1.).contains(&a) => {}
                        (b"Type", _) if v.name() == Some("ExtGState") => {}
                        _ => return Err(format!("bad graphics state entry {:?} {:?}", String::from_utf8_lossy(k), v)),
                    }
                }
            }
        }
        Ok(ops)
    }
}

// ---------------------------------------------------------------------------
// Fonts

#[derive(Debug, Clone)]
pub struct FontRes {
    pub base_font: Vec<u8>,
    pub program: Vec<u8>,
    pub program_id: u32,
    /// glyph → width in 1/1000 em
    pub widths: BTreeMap<u32, f64>,
    pub bbox: [f64; 4],
    pub ascent: f64,
    pub descent: f64,
    /// (glyph, text) in file order
    pub to_unicode: Vec<(u16, String)>,
    pub bfchar_blocks: Vec<usize>,
}

impl Pdf {
    pub fn font(&self, id: u32) -> R<std::rc::Rc<FontRes>> {
        if let Some(f) = self.fonts.borrow().get(&id) {
            return Ok(f.clone());
        }
        let f = std::rc::Rc::new(self.read_font(id)?);
        self.fonts.borrow_mut().insert(id, f.clone());
        Ok(f)
    }

    fn read_font(&self, id: u32) -> R<FontRes> {
        let d = match &self.objects[&id].obj {
            Obj::Dict(d) => d,
            _ => return Err("font is not a dictionary".into()),
        };
        let expect = |d: &Dict, k: &str, v: &str| -> R<()> {
            match self.get(d, k).and_then(Obj::name) {
                Some(n) if n == v => Ok(()),
                o => Err(format!("font {}: {} is {:?}, expected {}", id, k, o, v)),
            }
        };
        let name = |d: &Dict, k: &str| -> R<Vec<u8>> {
            match self.get(d, k) {
                Some(Obj::Name(n)) => Ok(n.clone()),
                o => Err(format!("font {}: {} is {:?}, expected a name", id, k, o)),
            }
        };
        expect(d, "Type", "Font")?;
        expect(d, "Subtype", "Type0")?;
        expect(d, "Encoding", "Identity-H")?;
        let base_font = name(d, "BaseFont")?;
        let desc = match self.get(d, "DescendantFonts") {
            Some(Obj::Array(a)) if a.len() == 1 => self.dict(a.first())?,
            o => return Err(format!("bad DescendantFonts {:?}", o)),
        };
        expect(desc, "Type", "Font")?;
        expect(desc, "Subtype", "CIDFontType2")?;
        if name(desc, "BaseFont")? != base_font {
            return Err("descendant font has another name".into());
        }
        let si = self.dict(get(desc, "CIDSystemInfo"))?;
        if self.get(si, "Registry") != Some(&Obj::Str(b"Adobe".to_vec())) || self.get(si, "Ordering") != Some(&Obj::Str(b"Identity".to_vec())) || self.get(si, "Supplement") != Some(&Obj::Int(0)) {
            return Err(format!("bad CIDSystemInfo {:?}", si));
        }
        let fd = self.dict(get(desc, "FontDescriptor"))?;
        expect(fd, "Type", "FontDescriptor")?;
        if name(fd, "FontName")? != base_font {
            return Err("font descriptor has another name".into());
        }
        let num = |k: &str| -> R<f64> { self.get(fd, k).and_then(Obj::num).ok_or(format!("font descriptor without {}", k)) };
        for k in ["ItalicAngle", "Flags", "CapHeight", "StemV"] {
            num(k)?;
        }
        let bbox = match self.get(fd, "FontBBox") {
            Some(Obj::Array(a)) if a.len() == 4 && a.iter().all(|o| o.num().is_some()) => [a[0].num().unwrap(), a[1].num().unwrap(), a[2].num().unwrap(), a[3].num().unwrap()],
            o => return Err(format!("bad FontBBox {:?}", o)),
        };
        let (program_id, program) = match get(fd, "FontFile2") {
            Some(Obj::Ref(r)) => match &self.objects[r] {
                Indirect { obj: Obj::Dict(d), stream: Some(s) } => {
                    if self.get(d, "Length1") != Some(&Obj::Int(s.len() as i64)) {
                        return Err("Length1 is not the length of the font program".into());
                    }
                    (*r, s.clone())
                }
                _ => return Err("FontFile2 is not a stream".into()),
            },
            _ => return Err("no FontFile2".into()),
        };
        // W: c [w1 w2 …] or first last w
        let mut widths = BTreeMap::new();
        if let Some(w) = self.get(desc, "W") {
            let a = match w {
                Obj::Array(a) => a,
                _ => return Err("W is not an array".into()),
            };
            let mut i = 0;
            while i < a.len() {
                let c = match a[i] {
                    Obj::Int(c) if c >= 0 => c as u32,
                    _ => return Err("bad W".into()),
                };
                match a.get(i + 1).map(|o| self.resolve(o)) {
                    Some(Obj::Array(ws)) => {
                        for (j, w) in ws.iter().enumerate() {
                            widths.insert(c + j as u32, w.num().ok_or("bad W width")?);
                        }
                        i += 2
                    }
                    Some(Obj::Int(last)) => {
                        let w = a.get(i + 2).and_then(Obj::num).ok_or("bad W")?;
                        for g in c..=*last as u32 {
                            widths.insert(g, w);
                        }
                        i += 3
                    }
                    _ => return Err("bad W".into()),
                }
            }
        }
        let cmap = match get(d, "ToUnicode") {
            Some(Obj::Ref(r)) => self.objects[r].stream.as_ref().ok_or("ToUnicode is not a stream")?,
            _ => return Err("no ToUnicode".into()),
        };
        let (to_unicode, bfchar_blocks) = parse_cmap(cmap)?;
        Ok(FontRes { base_font, program, program_id, widths, bbox, ascent: num("Ascent")?, descent: num("Descent")?, to_unicode, bfchar_blocks })
    }
}

fn utf16(b: &[u8]) -> R<String> {
    if b.len() % 2 != 0 || b.is_empty() {
        return Err("bad UTF-16 in ToUnicode".into());
    }
    let units: Vec<u16> = b.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect();
    String::from_utf16(&units).map_err(|_| format!("ToUnicode maps to a lone surrogate {:x?}", units))
}

fn parse_cmap(b: &[u8]) -> R<(Vec<(u16, String)>, Vec<usize>)> {
    // PostScript subset
    let mut l = Lexer::new(b, 0);
    let mut stack: Vec<Obj> = Vec::new();
    let mut out = Vec::new();
    let mut blocks = Vec::new();
    let mut words = Vec::new();
    let mut pending: Option<(usize, &str)> = None;
    let mut codespace = false;
    loop {
        l.skip_ws();
        let c = match l.peek() {
            None => break,
            Some(c) => c,
        };
        if is_delim(c) || c.is_ascii_digit() || matches!(c, b'+' | b'-' | b'.') {
            let o = l.object(false, 0)?;
            stack.push(o);
            continue;
        }
        let w = String::from_utf8_lossy(l.regular()).into_owned();
        if w.is_empty() {
            return l.err("bad ToUnicode syntax");
        }
        match w.as_str() {
            "begincodespacerange" | "beginbfchar" | "beginbfrange" => {
                let n = match stack.pop() {
                    Some(Obj::Int(n)) if (1..=100).contains(&n) => n as usize,
                    o => return Err(format!("{} with count {:?}", w, o)),
                };
                stack.clear();
                pending = Some((n, if w == "beginbfchar" { "endbfchar" } else if w == "beginbfrange" { "endbfrange" } else { "endcodespacerange" }))
            }
            "endcodespacerange" | "endbfchar" | "endbfrange" => {
                let (n, end) = pending.take().ok_or("unbalanced section in ToUnicode")?;
                if end != w {
                    return Err("mismatched sections in ToUnicode".into());
                }
                let per = if w == "endbfrange" { 3 } else { 2 };
                if stack.len() != n * per {
                    return Err(format!("{} with {} operands instead of {}×{}", w, stack.len(), n, per));
                }
                let s: Vec<Obj> = std::mem::take(&mut stack);
                let code = |o: &Obj| match o {
                    Obj::Str(s) if s.len() == 2 => Ok((s[0] as u16) << 8 | s[1] as u16),
                    o => Err(format!("bad code {:?} in ToUnicode", o)),
                };
                if w == "endcodespacerange" {
                    codespace = code(&s[0])? == 0 && code(&s[1])? == 0xffff
                } else if w == "endbfchar" {
                    blocks.push(n);
                    for p in s.chunks(2) {
                        match &p[1] {
                            Obj::Str(t) => out.push((code(&p[0])?, utf16(t)?)),
                            _ => return Err("bad bfchar".into()),
                        }
                    }
                } else {
                    for p in s.chunks(3) {
                        let (a, z) = (code(&p[0])?, code(&p[1])?);
                        match &p[2] {
                            Obj::Str(t) => {
                                for (k, g) in (a..=z).enumerate() {
                                    let mut t = t.clone();
                                    let last = t.len() - 1;
                                    t[last] = t[last].checked_add(k as u8).ok_or("bfrange overflow")?;
                                    out.push((g, utf16(&t)?))
                                }
                            }
                            Obj::Array(ts) => {
                                for (k, g) in (a..=z).enumerate() {
                                    match ts.get(k) {
                                        Some(Obj::Str(t)) => out.push((g, utf16(t)?)),
                                        _ => return Err("bad bfrange array".into()),
                                    }
                                }
                            }
                            _ => return Err("bad bfrange".into()),
                        }
                    }
                }
            }
            _ => {
                words.push(w);
                stack.clear()
            }
        }
    }
    if pending.is_some() {
        return Err("unterminated section in ToUnicode".into());
    }
    for k in ["begincmap", "endcmap"] {
        if words.iter().filter(|w| *w == k).count() != 1 {
            return Err(format!("ToUnicode without {}", k));
        }
    }
    if !codespace {
        return Err("ToUnicode without the two-byte code space".into());
    }
    Ok((out, blocks))
}
