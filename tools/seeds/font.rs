
/// Big-endian 16-bit values
pub fn be(values: &[i64]) -> Vec<u8> {
    values.iter().flat_map(|&v| vec![(v >> 8) as u8, v as u8]).collect()
}

pub fn be32(values: &[u32]) -> Vec<u8> {
    values.iter().flat_map(|&v| v.to_be_bytes().to_vec()).collect()
}

/// A cmap subtable of segments (start, end, id_delta, id_range_offset), followed by glyph IDs.
pub fn format4(segments: &[(i64, i64, i64, i64)], ids: &[i64]) -> Vec<u8> {
    let n = segments.len() as i64;
    let mut t = be(&[4, 16 + 8 * n + 2 * ids.len() as i64, 0, 2 * n, 0, 0, 0]);
    t.extend(be(&segments.iter().map(|s| s.1).collect::<Vec<_>>()));
    t.extend(be(&[0]));
    t.extend(be(&segments.iter().map(|s| s.0).collect::<Vec<_>>()));
    t.extend(be(&segments.iter().map(|s| s.2).collect::<Vec<_>>()));
    t.extend(be(&segments.iter().map(|s| s.3).collect::<Vec<_>>()));
    t.extend(be(ids));
    t
}

pub fn format12(groups: &[(u32, u32, u32)]) -> Vec<u8> {
    let mut t = be(&[12, 0]);
    t.extend(be32(&[16 + 12 * groups.len() as u32, 0, groups.len() as u32]));
    for g in groups {
        t.extend(be32(&[g.0, g.1, g.2]))
    }
    t
}

/// A small TrueType font with 1000 units per em
pub fn build(glyphs: i64, widths: &[i64], name: &[u8], cmaps: &[(i64, i64, Vec<u8>)]) -> Vec<u8> {
    build_with(glyphs, widths, widths.len() as i64, name, name.len() as i64, cmaps)
}

pub fn build_with(
    glyphs: i64,
    widths: &[i64],
    width_count: i64,
    name: &[u8],
    name_len: i64,
    cmaps: &[(i64, i64, Vec<u8>)],
) -> Vec<u8> {
    let mut cmap = be(&[0, cmaps.len() as i64]);
    let mut offset = 4 + 8 * cmaps.len();
    for c in cmaps {
        cmap.extend(be(&[c.0, c.1]));
        cmap.extend(be32(&[offset as u32]));
        offset += c.2.len();
    }
    for c in cmaps {
        cmap.extend(&c.2)
    }
    let mut head = be(&[1, 0, 1, 0, 0, 0, 0x5F0F, 0x3CF5, 0, 1000, 0, 0, 0, 0, 0, 0, 0, 0]);
    head.extend(be(&[0, -200, 1000, 800, 0, 8, 2, 0, 0, 0]));
    let hhea = be(&[1, 0, 800, -200, 0, 1000, 0, 0, 1000, 1, 0, 0, 0, 0, 0, 0, 0, width_count]);
    let hmtx = widths.iter().flat_map(|&w| be(&[w, 0])).collect::<Vec<_>>();
    let maxp = be(&[1, 0, glyphs, 0]);
    let mut names = be(&[0, 1, 18, 1, 0, 0, 6, name_len, 0]);
    names.extend(name);
    let tables: Vec<(&[u8], Vec<u8>)> = vec![
        (b"cmap", cmap),
        (b"head", head),
        (b"hhea", hhea),
        (b"hmtx", hmtx),
        (b"maxp", maxp),
        (b"name", names),
    ];
    let mut out = be(&[1, 0, tables.len() as i64, 0, 0, 0]);
    let mut offset = 12 + 16 * tables.len();
    for t in &tables {
        out.extend(t.0);
        out.extend(be32(&[0, offset as u32, t.1.len() as u32]));
        offset += (t.1.len() + 3) / 4 * 4;
    }
    for (i, t) in tables.iter().enumerate() {
        out.extend(&t.1);
        while i + 1 < tables.len() && out.len() % 4 != 0 {
            out.push(0)
        }
    }
    out
}

/// The glyph IDs shown, in hexadecimal, and the page width they take (unused)
pub fn shown(font: &Arc<victor::fonts::Font>, text: &str) -> String {
    let mut doc = victor::pdf::Document::new();
    let segment = victor::text::ShapedSegment::naive_shape(text, font.clone()).unwrap();
    doc.add_page(victor::primitives::Size::new(100., 100.))
        .show_text(&victor::primitives::TextRun {
            segment: &segment,
            font_size: victor::primitives::Length::new(10.),
            origin: victor::primitives::point(0., 0.),
        })
        .unwrap();
    let contents = contents(&doc.write_to_pdf_bytes()).remove(0);
    let start = contents.find('<').unwrap();
    contents[start + 1..contents.find('>').unwrap()].to_string()
}
