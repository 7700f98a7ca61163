//! TrueType: an independent reader, and a synthesizer of well-formed fonts.
use crate::rng::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pub name: String,
    pub glyph_count: u16,
    pub upem: u16,
    /// Advance widths of the long records
    pub widths: Vec<u16>,
    pub ascender: i16,
    pub descender: i16,
    pub bbox: [i16; 4],
    pub map: BTreeMap<u32, u16>,
}

impl Model {
    pub fn glyph(&self, c: char) -> u16 {
        self.map.get(&(c as u32)).copied().unwrap_or(0)
    }
    pub fn width(&self, g: u16) -> u16 {
        self.widths[(g as usize).min(self.widths.len() - 1)]
    }
    pub fn em(&self, g: u16) -> f64 {
        self.width(g) as f64 / self.upem as f64
    }
    pub fn advance(&self, text: &str) -> f64 {
        text.chars().map(|c| self.em(self.glyph(c))).sum()
    }
}

fn u16at(b: &[u8], p: usize) -> Option<u16> {
    Some((*b.get(p)? as u16) << 8 | *b.get(p + 1)? as u16)
}
fn u32at(b: &[u8], p: usize) -> Option<u32> {
    Some((u16at(b, p)? as u32) << 16 | u16at(b, p + 2)? as u32)
}

/// Read a well-formed font. None if it lacks something that Victor requires.
pub fn read(b: &[u8]) -> Option<Model> {
    let n = u16at(b, 4)? as usize;
    let mut tables = BTreeMap::new();
    for i in 0..n {
        let e = 12 + 16 * i;
        tables.insert(b.get(e..e + 4)?.to_vec(), u32at(b, e + 8)? as usize);
    }
    let t = |tag: &str| tables.get(tag.as_bytes()).copied();
    let (head, hhea, maxp, hmtx, name, cmap) = (t("head")?, t("hhea")?, t("maxp")?, t("hmtx")?, t("name")?, t("cmap")?);
    let glyph_count = u16at(b, maxp + 4)?;
    let metrics = u16at(b, hhea + 34)? as usize;
    let widths = (0..metrics).map(|i| u16at(b, hmtx + 4 * i)).collect::<Option<Vec<_>>>()?;
    // name
    let mut ps = None;
    let strings = name + u16at(b, name + 4)? as usize;
    for i in 0..u16at(b, name + 2)? as usize {
        let r = name + 6 + 12 * i;
        let f: Vec<u16> = (0..6).map(|k| u16at(b, r + 2 * k)).collect::<Option<_>>()?;
        if f[3] != 6 {
            continue;
        }
        let s = b.get(strings + f[5] as usize..strings + f[5] as usize + f[4] as usize)?;
        if f[0] == 1 {
            ps = Some(String::from_utf8_lossy(s).into_owned());
            break;
        }
        if f[0] == 3 && f[1] == 1 {
            let u: Vec<u16> = s.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect();
            ps = Some(String::from_utf16_lossy(&u));
            break;
        }
    }
    // cmap
    let mut best: Option<(u8, usize)> = None;
    for i in 0..u16at(b, cmap + 2)? as usize {
        let r = cmap + 4 + 8 * i;
        let at = cmap + u32at(b, r + 4)? as usize;
        let rank = match (u16at(b, r)?, u16at(b, r + 2)?, u16at(b, at)?) {
            (3, 1, 4) => 1,
            (3, 10, 12) => 2,
            _ => continue,
        };
        if best.map_or(true, |(old, _)| rank > old) {
            best = Some((rank, at))
        }
    }
    let mut map = BTreeMap::new();
    match best? {
        (1, at) => {
            let sc = u16at(b, at + 6)? as usize / 2;
            for s in 0..sc {
                let end = u16at(b, at + 14 + 2 * s)? as u32;
                let start = u16at(b, at + 16 + 2 * sc + 2 * s)? as u32;
                let delta = u16at(b, at + 16 + 4 * sc + 2 * s)?;
                let rp = at + 16 + 6 * sc + 2 * s;
                let ro = u16at(b, rp)? as usize;
                for c in start..=end {
                    let g = if ro == 0 {
                        (c as u16).wrapping_add(delta)
                    } else {
                        match u16at(b, rp + ro + 2 * (c - start) as usize)? {
                            0 => 0,
                            g => g.wrapping_add(delta),
                        }
                    };
                    if g != 0 && char::from_u32(c).is_some() {
                        map.insert(c, g);
                    }
                }
            }
        }
        (_, at) => {
            for i in 0..u32at(b, at + 12)? as usize {
                let r = at + 16 + 12 * i;
                let (s, e, g) = (u32at(b, r)?, u32at(b, r + 4)?, u32at(b, r + 8)?);
                for c in s..=e {
                    let g = g + (c - s);
                    if g != 0 && g <= 0xffff && char::from_u32(c).is_some() {
                        map.insert(c, g as u16);
                    }
                }
            }
        }
    }
    Some(Model {
        name: ps?,
        glyph_count,
        upem: u16at(b, head + 18)?,
        widths,
        ascender: u16at(b, hhea + 4)? as i16,
        descender: u16at(b, hhea + 6)? as i16,
        bbox: [u16at(b, head + 36)? as i16, u16at(b, head + 38)? as i16, u16at(b, head + 40)? as i16, u16at(b, head + 42)? as i16],
        map,
    })
}

pub fn p16(v: &mut Vec<u8>, x: u16) {
    v.extend_from_slice(&x.to_be_bytes())
}
pub fn p32(v: &mut Vec<u8>, x: u32) {
    v.extend_from_slice(&x.to_be_bytes())
}

/// What to leave out of a synthesized font
#[derive(Copy, Clone, PartialEq, Debug)]
pub enum Lack {
    Nothing,
    Table(&'static str),
    Name,
    Cmap,
    Format,
}

pub struct Synth {
    pub bytes: Vec<u8>,
    pub model: Model,
    pub features: Vec<&'static str>,
}

pub const REQUIRED: [&str; 6] = ["cmap", "head", "hhea", "hmtx", "maxp", "name"];

fn format4(rng: &Rng, map: &BTreeMap<u32, u16>, features: &mut Vec<&'static str>) -> Option<Vec<u8>> {
    // Segments: runs of code points
    struct Seg {
        start: u32,
        end: u32,
        delta: u16,
        /// index into the glyph array
        array: Option<usize>,
    }
    let mut segs: Vec<Seg> = Vec::new();
    let mut array: Vec<u16> = Vec::new();
    let points: Vec<(u32, u16)> = map.iter().filter(|(c, _)| **c < 0xffff).map(|(c, g)| (*c, *g)).collect();
    let mut i = 0;
    let bridge = rng.chance(1, 2);
    while i < points.len() {
        // maximal delta run
        let mut j = i + 1;
        while j < points.len() && points[j].0 == points[j - 1].0 + 1 && points[j].1 == points[j - 1].1.wrapping_add(1) {
            j += 1
        }
        let long = j - i >= 3;
        if (long && rng.chance(4, 5)) || rng.chance(1, 4) {
            // Possibly cut it short (adjacent segments)
            if j - i > 2 && rng.chance(1, 4) {
                j = i + 1 + rng.below(j - i - 1);
                features.push("adjacent_segments");
            }
            segs.push(Seg { start: points[i].0, end: points[j - 1].0, delta: points[i].1.wrapping_sub(points[i].0 as u16), array: None });
            if points[i].0 as u16 > points[i].1 {
                features.push("wrapping_delta")
            }
            i = j;
        } else {
            // Array segment, with small gaps mapped to 0
            let max_gap = if bridge { 6 } else { 0 };
            let mut j = i + 1;
            let limit = i + 1 + rng.below(60);
            while j < points.len() && j < limit && points[j].0 - points[j - 1].0 <= 1 + max_gap {
                if points[j].0 - points[j - 1].0 > 1 {
                    features.push("array_holes")
                }
                j += 1
            }
            let delta = if rng.chance(1, 3) { rng.next() as u16 } else { 0 };
            let (start, end) = (points[i].0, points[j - 1].0);
            let mut glyphs = Vec::new();
            let mut ok = true;
            for c in start..=end {
                match map.get(&c) {
                    Some(&g) => {
                        let stored = g.wrapping_sub(delta);
                        ok &= stored != 0;
                        glyphs.push(stored)
                    }
                    None => glyphs.push(0),
                }
            }
            let delta = if ok {
                delta
            } else {
                for (g, c) in glyphs.iter_mut().zip(start..=end) {
                    *g = map.get(&c).copied().unwrap_or(0)
                }
                0
            };
            if delta != 0 {
                features.push("array_and_delta")
            }
            features.push("array_segments");
            // Share equal arrays sometimes
            let at = array.windows(glyphs.len()).position(|w| w == &glyphs[..]);
            let at = match at {
                Some(at) if rng.chance(1, 2) => at,
                _ => {
                    array.extend_from_slice(&glyphs);
                    array.len() - glyphs.len()
                }
            };
            segs.push(Seg { start, end, delta, array: Some(at) });
            i = j;
        }
    }
    // Surrogates are not characters, but a segment may cover them
    if rng.chance(1, 6) && segs.iter().all(|s| s.end < 0xd800 || s.start > 0xdfff) {
        let at = segs.iter().position(|s| s.start > 0xdfff).unwrap_or(segs.len());
        segs.insert(at, Seg { start: 0xd800, end: 0xd810, delta: 1u16.wrapping_sub(0xd800), array: None });
        features.push("surrogate_segment");
    }
    // The last segment is of U+FFFF, seldom with a glyph
    let last = map.get(&0xffff).map_or(1, |g| g.wrapping_sub(0xffff));
    if last != 1 {
        features.push("u+ffff")
    }
    segs.push(Seg { start: 0xffff, end: 0xffff, delta: last, array: None });
    let sc = segs.len();
    let mut v = Vec::new();
    p16(&mut v, 4);
    p16(&mut v, 0);
    p16(&mut v, 0);
    p16(&mut v, sc as u16 * 2);
    let sel = (sc as f64).log2().floor() as u16;
    let range = 2 * (1 << sel);
    p16(&mut v, range);
    p16(&mut v, sel);
    p16(&mut v, (sc as u16 * 2).wrapping_sub(range));
    for s in &segs {
        p16(&mut v, s.end as u16)
    }
    p16(&mut v, 0);
    for s in &segs {
        p16(&mut v, s.start as u16)
    }
    for s in &segs {
        p16(&mut v, s.delta)
    }
    for (i, s) in segs.iter().enumerate() {
        let off = match s.array {
            None => 0,
            Some(at) => 2 * (sc - i) + 2 * at,
        };
        if off > 0xffff {
            return None;
        }
        p16(&mut v, off as u16)
    }
    for g in array {
        p16(&mut v, g)
    }
    if v.len() > 0xffff {
        return None;
    }
    let len = v.len() as u16;
    v[2..4].copy_from_slice(&len.to_be_bytes());
    Some(v)
}

fn format12(rng: &Rng, map: &BTreeMap<u32, u16>, features: &mut Vec<&'static str>) -> Vec<u8> {
    let mut groups: Vec<(u32, u32, u32)> = Vec::new();
    for (&c, &g) in map {
        match groups.last_mut() {
            // Groups may cover the surrogates, which are not characters
            Some(last) if (last.1 + 1 == c || last.1 == 0xd7ff && c == 0xe000) && last.2 + (c - last.0) == g as u32 && !rng.chance(1, 40) => last.1 = c,
            _ => groups.push((c, c, g as u32)),
        }
    }
    if rng.chance(1, 10) {
        // Glyphs beyond 16 bits are missing glyphs
        let last = groups.last().map_or(0, |g| g.1);
        if last + 20 < 0x10ffff {
            groups.push((last + 5, last + 9, 0x1_0000 + rng.below(100) as u32));
            features.push("large_glyph_ids");
        }
    }
    if rng.chance(1, 10) && !map.contains_key(&0) {
        groups.insert(0, (0, 0, 0));
        features.push("group_of_glyph_0");
    }
    let mut v = Vec::new();
    p16(&mut v, 12);
    p16(&mut v, 0);
    p32(&mut v, 16 + 12 * groups.len() as u32);
    p32(&mut v, 0);
    p32(&mut v, groups.len() as u32);
    for (s, e, g) in groups {
        p32(&mut v, s);
        p32(&mut v, e);
        p32(&mut v, g);
    }
    v
}

pub fn random_map(rng: &Rng, glyph_count: u16, full: bool) -> BTreeMap<u32, u16> {
    let mut map = BTreeMap::new();
    let g = |rng: &Rng| 1 + rng.below(glyph_count as usize - 1) as u16;
    // Characters often used by the tests
    if rng.chance(3, 4) {
        let first = g(rng);
        let step = rng.below(3) as u16;
        for (i, c) in (0x20..0x7f).enumerate() {
            let id = (first as u32 + i as u32 * step as u32) % glyph_count as u32;
            if id != 0 && !rng.chance(1, 20) {
                map.insert(c, id as u16);
            }
        }
    }
    if rng.chance(1, 20) {
        map.insert(0xffff, g(rng));
    }
    if glyph_count > 3000 && rng.chance(1, 2) {
        // On both sides of the surrogates
        let first = 1 + rng.below(glyph_count as usize - 2100) as u32;
        for k in 0..2090 {
            if char::from_u32(0xd7f0 + k).is_some() {
                map.insert(0xd7f0 + k, (first + k) as u16);
            }
        }
    }
    let blocks = rng.below(12);
    for _ in 0..blocks {
        let base = match rng.below(if full { 7 } else { 4 }) {
            0 => rng.below(0x250) as u32,
            1 => 0x370 + rng.below(0x2000) as u32,
            2 => rng.below(0xd700) as u32,
            3 => 0xe000 + rng.below(0x1ff0) as u32,
            4 => 0x1_0000 + rng.below(0x1000) as u32,
            5 => 0x1_f600 + rng.below(0x100) as u32,
            _ => 0x10_ff00 + rng.below(0x80) as u32,
        };
        let n = 1 + rng.below(match rng.below(4) {
            0 => 1,
            1 => 10,
            2 => 120,
            _ => 300,
        }) as u32;
        let sequential = rng.chance(1, 2);
        let first = g(rng);
        for k in 0..n {
            let c = base + k;
            if char::from_u32(c).is_none() || c == 0xffff || (!full && c > 0xffff) {
                continue;
            }
            if rng.chance(1, 30) {
                continue;
            }
            let id = if sequential { ((first as u32 + k) % glyph_count as u32) as u16 } else { g(rng) };
            if id != 0 {
                map.insert(c, id);
            }
        }
    }
    map
}

pub fn ps_name(rng: &Rng) -> String {
    let n = 1 + rng.below(if rng.chance(1, 10) { 63 } else { 20 });
    let plain = rng.chance(2, 3);
    let reserved = rng.chance(1, 3);
    (0..n)
        .map(|_| {
            if plain {
                rng.pick(b"ABCDEFabcdef0123456789-") as char
            } else {
                // Printable ASCII, sometimes with those that PostScript reserves
                loop {
                    let c = (33 + rng.below(94)) as u8 as char;
                    if reserved || !"[](){}<>/%".contains(c) {
                        break c;
                    }
                }
            }
        })
        .collect()
}

pub fn synth(rng: &Rng, lack: Lack) -> Synth {
    let mut features: Vec<&'static str> = Vec::new();
    let glyph_count: u16 = match rng.below(8) {
        0 => 2 + rng.below(3) as u16,
        1 => 300 + rng.below(if rng.chance(1, 6) { 6000 } else { 700 }) as u16,
        2 if rng.chance(1, 4) => 65535,
        _ => 5 + rng.below(200) as u16,
    };
    let upem = rng.pick(&[1000u16, 2048, 1024, 16, 64, 16384, 4096, 1234]);
    let metrics = match rng.below(4) {
        0 => 1,
        1 => glyph_count,
        _ => 1 + rng.below(glyph_count as usize) as u16,
    };
    if metrics < glyph_count {
        features.push("repeated_last_width")
    }
    let widths: Vec<u16> = (0..metrics)
        .map(|_| match rng.below(10) {
            0 => 0,
            1 => rng.below(60000) as u16,
            _ => rng.below(2 * upem as usize) as u16,
        })
        .collect();
    let i = |rng: &Rng| rng.next() as i16;
    let metric = |rng: &Rng| if rng.chance(1, 6) { i(rng) } else { rng.below(upem as usize) as i16 };
    let mut model = Model {
        name: String::new(),
        glyph_count,
        upem,
        widths,
        ascender: metric(rng),
        descender: metric(rng).wrapping_neg(),
        bbox: [metric(rng).wrapping_neg(), metric(rng).wrapping_neg(), metric(rng), metric(rng)],
        map: BTreeMap::new(),
    };

    // ---- cmap
    let full_map = random_map(rng, glyph_count, true);
    let bmp_map = if rng.chance(1, 2) { full_map.iter().filter(|(c, _)| **c <= 0xffff).map(|(c, g)| (*c, *g)).collect() } else { random_map(rng, glyph_count, false) };
    let mut records: Vec<(u16, u16, Vec<u8>)> = Vec::new();
    let decoy = |rng: &Rng, f: &mut Vec<&'static str>| {
        let m = random_map(rng, glyph_count, false);
        format4(rng, &m, f)
    };
    let mut noise = Vec::new();
    if rng.chance(1, 3) {
        if let Some(v) = decoy(rng, &mut noise) {
            records.push((0, 3, v))
        }
    }
    if rng.chance(1, 5) {
        let m = random_map(rng, glyph_count, true);
        records.push((0, 4, format12(rng, &m, &mut noise)))
    }
    if rng.chance(1, 3) {
        // Macintosh, format 0 or 6
        let mut v = Vec::new();
        if rng.chance(1, 2) {
            p16(&mut v, 0);
            p16(&mut v, 262);
            p16(&mut v, 0);
            v.extend(rng.bytes(256));
        } else {
            p16(&mut v, 6);
            p16(&mut v, 10 + 20);
            p16(&mut v, 0);
            p16(&mut v, 0x20);
            p16(&mut v, 10);
            for _ in 0..10 {
                p16(&mut v, rng.below(glyph_count as usize) as u16)
            }
        }
        records.push((1, 0, v));
        features.push("macintosh_cmap");
    }
    if rng.chance(1, 6) {
        if let Some(v) = decoy(rng, &mut noise) {
            records.push((3, 0, v));
            features.push("symbol_cmap");
        }
    }
    let which = if lack == Lack::Cmap { 3 } else { rng.below(3) };
    let mut four = which == 0 || which == 2;
    let mut twelve = which == 1 || which == 2;
    if four {
        match format4(rng, &bmp_map, &mut features) {
            Some(v) => records.push((3, 1, v)),
            None => {
                four = false;
                twelve = true
            }
        }
    } else if rng.chance(1, 4) {
        // A format that is not supported for this encoding
        let mut v = Vec::new();
        p16(&mut v, 6);
        p16(&mut v, 12);
        p16(&mut v, 0);
        p16(&mut v, 0x41);
        p16(&mut v, 1);
        p16(&mut v, 1);
        records.push((3, 1, v));
        features.push("unsupported_format_3_1");
    }
    if rng.chance(1, 8) {
        // Another Microsoft encoding (ShiftJIS)
        if let Some(v) = decoy(rng, &mut noise) {
            records.push((3, 2, v))
        }
    }
    if twelve {
        records.push((3, 10, format12(rng, &full_map, &mut features)));
        if four {
            features.push("both_maps")
        }
    } else if rng.chance(1, 6) {
        // (3, 10) in format 13
        let mut v = Vec::new();
        p16(&mut v, 13);
        p16(&mut v, 0);
        p32(&mut v, 28);
        p32(&mut v, 0);
        p32(&mut v, 1);
        p32(&mut v, 0x20);
        p32(&mut v, 0x10ffff);
        p32(&mut v, 1);
        records.push((3, 10, v));
        features.push("unsupported_format_3_10");
    }
    model.map = if twelve { full_map } else { bmp_map };
    features.push(if twelve { "format_12" } else { "format_4" });
    let mut cmap = Vec::new();
    p16(&mut cmap, 0);
    p16(&mut cmap, records.len() as u16);
    let mut order: Vec<usize> = (0..records.len()).collect();
    rng.shuffle(&mut order);
    let mut offsets = vec![0u32; records.len()];
    let mut body = Vec::new();
    for &k in &order {
        if rng.chance(1, 4) {
            let n = 2 * rng.below(4);
            body.extend(rng.bytes(n))
        }
        offsets[k] = (4 + 8 * records.len() + body.len()) as u32;
        body.extend_from_slice(&records[k].2);
        while body.len() % 4 != 0 {
            body.push(0)
        }
    }
    for (k, r) in records.iter().enumerate() {
        p16(&mut cmap, r.0);
        p16(&mut cmap, r.1);
        p32(&mut cmap, offsets[k]);
    }
    cmap.extend(body);

    // ---- name
    model.name = ps_name(rng);
    let mut names: Vec<(u16, u16, u16, u16, Vec<u8>)> = Vec::new();
    let utf16 = |s: &str| s.encode_utf16().flat_map(|u| u.to_be_bytes()).collect::<Vec<u8>>();
    let others = rng.below(6);
    for _ in 0..others {
        let id = rng.pick(&[0u16, 1, 2, 3, 4, 5, 7, 16]);
        let s = ps_name(rng);
        if rng.chance(1, 2) {
            names.push((1, 0, 0, id, s.into_bytes()))
        } else {
            names.push((3, 1, 0x409, id, utf16(&s)))
        }
    }
    // Not supported: other platforms and encodings
    if rng.chance(1, 3) {
        let s = ps_name(rng);
        names.push((0, 3, 0, 6, utf16(&s)));
        features.push("unicode_platform_name");
    }
    if rng.chance(1, 6) {
        let s = ps_name(rng);
        names.push((3, 10, 0x409, 6, utf16(&s)))
    }
    if rng.chance(1, 6) {
        let s = ps_name(rng);
        names.push((3, 0, 0x409, 6, utf16(&s)))
    }
    if lack != Lack::Name {
        // Also names that are not ASCII, from the records that can hold them
        let latin = rng.chance(1, 12);
        if latin {
            model.name.push((0xa0 + rng.below(0x60)) as u8 as char);
            features.push("latin1_name")
        }
        match if latin { 1 } else { rng.below(3) } {
            0 => names.push((1, 0, 0, 6, model.name.clone().into_bytes())),
            1 => {
                names.push((3, 1, 0x409, 6, utf16(&model.name)));
                features.push("microsoft_name")
            }
            _ => {
                // The first one is used
                names.push((1, 0, 0, 6, model.name.clone().into_bytes()));
                let other = if rng.chance(1, 2) { ps_name(rng) } else { model.name.clone() };
                names.push((3, 1, 0x409, 6, utf16(&other)));
                features.push("two_names")
            }
        }
    }
    names.sort_by_key(|n| (n.0, n.1, n.2, n.3));
    names.dedup_by_key(|n| (n.0, n.1, n.2, n.3));
    let mut name = Vec::new();
    p16(&mut name, 0);
    p16(&mut name, names.len() as u16);
    let gap = if rng.chance(1, 4) { rng.below(20) } else { 0 };
    p16(&mut name, (6 + 12 * names.len() + gap) as u16);
    let mut strings = Vec::new();
    for n in &names {
        if rng.chance(1, 4) {
            strings.push(b'?')
        }
        p16(&mut name, n.0);
        p16(&mut name, n.1);
        p16(&mut name, n.2);
        p16(&mut name, n.3);
        p16(&mut name, n.4.len() as u16);
        p16(&mut name, strings.len() as u16);
        strings.extend_from_slice(&n.4);
    }
    name.extend(rng.bytes(gap));
    name.extend(strings);

    // ---- head, hhea, maxp, hmtx
    let mut head = Vec::new();
    p32(&mut head, 0x10000);
    p32(&mut head, 0x10000);
    p32(&mut head, rng.next() as u32);
    p32(&mut head, 0x5F0F3CF5);
    p16(&mut head, rng.next() as u16 & 0x1f);
    p16(&mut head, upem);
    head.extend(rng.bytes(16));
    for v in model.bbox {
        p16(&mut head, v as u16)
    }
    head.extend_from_slice(&[0, 0, 0, 6, 0, 2, 0, 0, 0, 0]);
    let mut hhea = Vec::new();
    p32(&mut hhea, 0x10000);
    p16(&mut hhea, model.ascender as u16);
    p16(&mut hhea, model.descender as u16);
    hhea.extend(rng.bytes(16));
    hhea.extend_from_slice(&[0; 8]);
    p16(&mut hhea, 0);
    p16(&mut hhea, metrics);
    assert_eq!(hhea.len(), 36);
    let mut maxp = Vec::new();
    if rng.chance(1, 2) {
        p32(&mut maxp, 0x5000);
        p16(&mut maxp, glyph_count);
    } else {
        p32(&mut maxp, 0x10000);
        p16(&mut maxp, glyph_count);
        maxp.extend(rng.bytes(26));
    }
    let mut hmtx = Vec::new();
    for &w in &model.widths {
        p16(&mut hmtx, w);
        p16(&mut hmtx, rng.next() as u16);
    }
    for _ in metrics..glyph_count {
        p16(&mut hmtx, rng.next() as u16)
    }

    let mut tables: Vec<(Vec<u8>, Vec<u8>)> = vec![
        (b"cmap".to_vec(), cmap),
        (b"head".to_vec(), head),
        (b"hhea".to_vec(), hhea),
        (b"hmtx".to_vec(), hmtx),
        (b"maxp".to_vec(), maxp),
        (b"name".to_vec(), name),
    ];
    if let Lack::Table(t) = lack {
        tables.retain(|x| x.0 != t.as_bytes())
    }
    for tag in [&b"OS/2"[..], b"glyf", b"loca", b"post", b"cvt ", b"fpgm", b"prep", b"GPOS", b"zzzz", b"DSIG", b"kern"] {
        if rng.chance(1, 4) {
            let n = rng.below(60);
            tables.push((tag.to_vec(), rng.bytes(n)))
        }
    }
    tables.sort();
    let mut bytes = Vec::new();
    let scaler = if lack == Lack::Format {
        rng.pick(&[0x4F54544Fu32, 0x74746366, 0x774F4646, 0, 0x00020000, 0x74797031])
    } else if rng.chance(1, 4) {
        0x74727565
    } else {
        0x10000
    };
    p32(&mut bytes, scaler);
    p16(&mut bytes, tables.len() as u16);
    let sel = (tables.len() as f64).log2().floor() as u16;
    p16(&mut bytes, 16 << sel);
    p16(&mut bytes, sel);
    p16(&mut bytes, (tables.len() as u16 * 16).wrapping_sub(16 << sel));
    let mut order: Vec<usize> = (0..tables.len()).collect();
    rng.shuffle(&mut order);
    let mut data = Vec::new();
    let mut at = vec![0; tables.len()];
    for &k in &order {
        at[k] = 12 + 16 * tables.len() + data.len();
        data.extend_from_slice(&tables[k].1);
        while data.len() % 4 != 0 {
            data.push(0)
        }
        if rng.chance(1, 5) {
            data.extend_from_slice(&[0xAA; 8])
        }
    }
    for (k, t) in tables.iter().enumerate() {
        bytes.extend_from_slice(&t.0);
        p32(&mut bytes, rng.next() as u32);
        p32(&mut bytes, at[k] as u32);
        p32(&mut bytes, t.1.len() as u32);
    }
    bytes.extend(data);
    Synth { bytes, model, features }
}

pub fn vera() -> Model {
    use std::sync::OnceLock;
    static VERA: OnceLock<Model> = OnceLock::new();
    VERA.get_or_init(|| read(&std::fs::read("/repo/victor/fonts/vera/Vera.ttf").expect("Vera.ttf")).expect("Vera")).clone()
}
