//! C28: the victor command. C29: pixels of images.
use crate::driver::*;
use crate::rng::{hash, Rng};
use crate::soup;
use lester::{assert_pixels_eq, ImageSurface};
use std::fs;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C28",
            rule: "a case counts if the command ran and its exit status, its output file and its input file were compared with what was expected",
            assumptions: &["the library's rendering, called in the process of the monitor, is what the command should write (its content is the subject of other properties)"],
            quick_cases: 4_000_000,
            quick_secs: 30,
            thorough_secs: 300,
            run: c28,
            ..Spec::DEFAULT
        },
        Spec {
            id: "C29",
            rule: "a case counts if the pixels of at least one image were written or decoded, and compared",
            assumptions: &[
                "cairo and libpng decode PNG images as the PNG specification says, to within one unit for colours multiplied by an opacity",
                "images of more than 8 bits per channel may be refused, which lester documents for pixel formats other than RGB24 and ARGB32",
            ],
            quick_cases: 4_000_000,
            quick_secs: 45,
            thorough_secs: 400,
            run: c29,
            ..Spec::DEFAULT
        },
    ]
}

fn scratch() -> PathBuf {
    PathBuf::from(std::env::var("VMON_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string()))
}

// ---------------------------------------------------------------------------
// C28

fn c28(cx: &mut Cx) {
    let rng = Rng::new(cx.seed, 0xC28, cx.idx);
    let dir = scratch().join(format!("cli-{}-{}", std::process::id(), cx.idx));
    let _ = fs::create_dir_all(&dir);
    let r = command(cx, &rng, &dir);
    let _ = fs::remove_dir_all(&dir);
    cx.report(r)
}

fn file_name(rng: &Rng, stem: &str) -> PathBuf {
    let mut name = match rng.below(6) {
        0 => "with space".into(),
        1 => "-".to_string() + stem,
        2 => "é→".into(),
        _ => String::new(),
    }
    .into_bytes();
    if rng.chance(1, 8) {
        name.extend(b"\xff\xfe")
    }
    name.extend(stem.as_bytes());
    if rng.chance(1, 2) {
        name.extend(rng.pick(&[&b".html"[..], b".pdf", b".xml", b".HTM", b"."]))
    }
    PathBuf::from(std::ffi::OsString::from_vec(name))
}

fn command(cx: &mut Cx, rng: &Rng, dir: &Path) -> Outcome {
    let exe = std::env::current_exe().unwrap().with_file_name("victor-cli");
    let bytes: Vec<u8> = match rng.below(8) {
        0 => vec![],
        1 => rng.bytes(rng.below(300)),
        2 => soup::boxes(rng).into_bytes(),
        3 => {
            let mut b = soup::html(rng, 30).into_bytes();
            soup::mutate(rng, &mut b);
            b
        }
        4 => format!("<p>{}", "word ".repeat(rng.below(30_000))).into_bytes(),
        5 => b"<title>t</title><body style='background: red'>\r\nx\r\n\xef\xbb\xbf".to_vec(),
        _ => soup::html(rng, 30).into_bytes(),
    };
    cx.input(bytes.clone());
    let input = dir.join(file_name(rng, "in"));
    let scenario = rng.weighted(&[30, 6, 4, 4, 4, 4, 4, 6, 4]);
    let mut output = dir.join(file_name(rng, "out"));
    fs::write(&input, &bytes).unwrap();
    let old: Option<Vec<u8>> = match rng.below(4) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(b"old".to_vec()),
        // Longer than what is written
        _ => Some(vec![b'x'; 3_000_000]),
    };
    if let Some(o) = &old {
        fs::write(&output, o).unwrap()
    }
    let allowed: Vec<Vec<u8>> = [&input, &output].iter().map(|p| p.file_name().unwrap().as_bytes().to_vec()).collect();
    let mut args: Vec<PathBuf> = vec![input.clone(), output.clone()];
    let name = match scenario {
        1 => {
            output = input.clone();
            args = vec![input.clone(), input.clone()];
            "in place"
        }
        2 => {
            args = vec![];
            "no argument"
        }
        3 => {
            args.pop();
            "one argument"
        }
        4 => {
            args[0] = dir.join("missing");
            "missing input"
        }
        5 => {
            args[0] = dir.to_path_buf();
            "input is a directory"
        }
        6 => {
            args[1] = dir.join("missing directory").join("out.pdf");
            "no directory for the output"
        }
        7 => {
            args[1] = "/dev/full".into();
            "full device"
        }
        8 => {
            args[1] = dir.to_path_buf();
            "output is a directory"
        }
        _ => "conversion",
    };
    if name == "full device" && !Path::new("/dev/full").exists() {
        return Ok(());
    }
    // Relative to the directory, sometimes
    if rng.chance(1, 2) {
        for a in &mut args {
            if a.parent() == Some(dir) {
                let mut relative = std::ffi::OsString::from("./");
                relative.push(a.file_name().unwrap());
                *a = if rng.chance(1, 2) { relative.into() } else { a.file_name().unwrap().into() }
            }
        }
    }
    let threads = rng.pick(&["1", "2", "3", "8"]);
    let o = Command::new(&exe)
        .args(&args)
        .current_dir(dir)
        .env("RAYON_NUM_THREADS", threads)
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| Failure { what: format!("cannot run {}: {}", exe.display(), e), sig: None })?;
    cx.count(name);
    let describe = format!("{} ({} bytes in, arguments {:?})", name, bytes.len(), args);
    if o.status.code().is_none() || o.status.code() == Some(101) {
        return fail(format!("{}: the command ended with {}: {}", describe, o.status, String::from_utf8_lossy(&o.stderr).chars().take(600).collect::<String>()));
    }
    let shall_succeed = name == "conversion" || name == "in place";
    if o.status.success() != shall_succeed {
        return fail(format!("{}: {}: {}", describe, o.status, String::from_utf8_lossy(&o.stderr).chars().take(600).collect::<String>()));
    }
    if !shall_succeed && o.stderr.iter().all(|b| b.is_ascii_whitespace()) {
        return fail(format!("{}: failed without a message", describe));
    }
    let found = fs::read(&output).ok();
    if shall_succeed {
        let expected = guard("rendering", || victor::dom::Document::parse_html(&bytes).to_pdf_bytes())?;
        match &found {
            None => return fail(format!("{}: no output file", describe)),
            Some(f) if *f != expected => {
                let at = f.iter().zip(&expected).position(|(a, b)| a != b).unwrap_or(f.len().min(expected.len()));
                return fail(format!("{}: {} bytes written instead of {}, first difference at {}", describe, f.len(), expected.len(), at));
            }
            _ => {}
        }
        cx.add("bytes_compared", expected.len() as u64);
    } else if found != old {
        return fail(format!("{}: the old output file of {:?} bytes became one of {:?}", describe, old.map(|o| o.len()), found.map(|o| o.len())));
    }
    if output != input && fs::read(&input).ok().as_ref() != Some(&bytes) {
        return fail(format!("{}: the input file changed", describe));
    }
    for e in fs::read_dir(dir).unwrap().flatten() {
        if !allowed.contains(&e.file_name().as_bytes().to_vec()) {
            return fail(format!("{}: left {:?} behind", describe, e.file_name()));
        }
    }
    cx.distinct(&[&bytes[..], name.as_bytes()].concat());
    cx.sample(|| format!("{}: {}", describe, o.status));
    Ok(())
}

// ---------------------------------------------------------------------------
// C29

fn c29(cx: &mut Cx) {
    let rng = Rng::new(cx.seed, 0xC29, cx.idx);
    let r = match rng.below(3) {
        0 => history(cx, &rng),
        1 => foreign_png(cx, &rng),
        _ => comparison(cx, &rng),
    };
    cx.report(r)
}

/// Pixels written through one access are there in the next, and nothing else changes them
fn history(cx: &mut Cx, rng: &Rng) -> Outcome {
    let n = 1 + rng.below(3);
    let mut images: Vec<(ImageSurface, bool, usize, usize, Vec<u32>)> = Vec::new();
    for _ in 0..n {
        let (w, h) = match rng.below(8) {
            0 if rng.chance(1, 30) => (1000 + rng.below(1500), 1000 + rng.below(1500)),
            0 => (1, 1 + rng.below(3000)),
            1 => (1 + rng.below(3000), 1),
            2 => (100 + rng.below(300), 100 + rng.below(300)),
            _ => (1 + rng.below(20), 1 + rng.below(20)),
        };
        let alpha = rng.chance(1, 2);
        let made = guard("making an image", || if alpha { ImageSurface::new_argb32(w, h) } else { ImageSurface::new_rgb24(w, h) })?;
        match made {
            Ok(s) => images.push((s, alpha, w, h, vec![0; w * h])),
            Err(e) => return fail(format!("an image of {}×{} cannot be made: {:?}", w, h, e)),
        }
    }
    let mut input = String::new();
    for _ in 0..2 + rng.below(14) {
        let k = rng.below(images.len());
        let op = rng.below(6);
        input += &format!("image {} op {}; ", k, op);
        cx.input(input.clone());
        let (s, alpha, w, h, model) = &mut images[k];
        let (w, h, alpha) = (*w, *h, *alpha);
        match op {
            0 => {
                // No effect on the pixels
                let mut out = Vec::new();
                if let Err(e) = guard("write_to_png", || s.write_to_png(&mut out))? {
                    return fail(format!("encoding: {:?}", e));
                }
                cx.count("encodings between accesses");
            }
            _ => {
                let p = guard("pixels", || s.pixels())?;
                if (p.width, p.height, p.buffer.len()) != (w, h, w * h) {
                    return fail(format!("image of {}×{}: {}×{} and {} pixels", w, h, p.width, p.height, p.buffer.len()));
                }
                let m = if alpha { !0 } else { 0xff_ffff };
                if let Some(i) = (0..w * h).find(|&i| p.buffer[i] & m != model[i] & m) {
                    return fail(format!("image of {}×{}: pixel ({}, {}) is {:08X} instead of {:08X}", w, h, i % w, i / w, p.buffer[i], model[i]));
                }
                cx.add("pixels compared", (w * h) as u64);
                match op {
                    1 => {
                        let v = rng.next() as u32;
                        for i in 0..w * h {
                            p.buffer[i] = v;
                            model[i] = v
                        }
                    }
                    2 | 3 => {
                        for _ in 0..1 + rng.below(10) {
                            let (x, y) = (rng.below(w), rng.below(h));
                            let v = rng.next() as u32;
                            p.buffer[x + w * y] = v;
                            model[x + w * y] = v
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    // Equality of whole images
    if images.len() >= 2 {
        let (a, b) = images.split_at_mut(1);
        let (a, b) = (&mut a[0], &mut b[0]);
        if a.1 && b.1 {
            let expected = (a.2, a.3) == (b.2, b.3) && a.4 == b.4;
            let got = guard("comparing", || a.0.pixels() == b.0.pixels())?;
            if got != expected {
                return fail(format!("images of {}×{} and {}×{} compare as {}", a.2, a.3, b.2, b.3, got));
            }
        }
    }
    cx.distinct(input.as_bytes());
    Ok(())
}

fn comparison(cx: &mut Cx, rng: &Rng) -> Outcome {
    let n = match rng.below(10) {
        0 => 0,
        1 => 1,
        2 => 200 + rng.below(2000),
        _ => 1 + rng.below(30),
    };
    let value = || match rng.below(4) {
        0 => 0,
        1 => rng.below(300) as u32,
        2 => !0,
        _ => rng.next() as u32,
    };
    let mut a: Vec<u32> = (0..n).map(|_| value()).collect();
    let mut b = a.clone();
    let what = match rng.below(8) {
        0 | 1 if n > 0 => {
            b[rng.pick(&[0, n - 1, rng.below(n)])] ^= 1 << rng.below(32);
            "one bit"
        }
        2 => {
            b.push(value());
            "longer"
        }
        3 => {
            a.push(value());
            "shorter"
        }
        4 if n > 1 => {
            let i = rng.below(n - 1);
            b.swap(i, i + 1);
            "swapped"
        }
        5 => {
            b = (0..n).map(|_| value()).collect();
            "others"
        }
        _ => "equal",
    };
    cx.input(format!("{:08X?} {:08X?}", a, b));
    let (mut left, mut right) = (0, 0);
    let result = {
        let (mut a2, b2) = (a.clone(), b.clone());
        let (l, r) = (&mut left, &mut right);
        catch_unwind(AssertUnwindSafe(|| {
            assert_pixels_eq!(
                {
                    *l += 1;
                    &mut a2[..]
                },
                {
                    *r += 1;
                    &b2[..]
                }
            )
        }))
    };
    if (left, right) != (1, 1) {
        return fail(format!("the operands were evaluated {} and {} times", left, right));
    }
    match result {
        Ok(()) if a != b => return fail(format!("different pixels pass ({}): {:08X?} and {:08X?}", what, a, b)),
        Err(_) if a == b => return fail(format!("equal pixels do not pass: {:08X?}", a)),
        Ok(()) => cx.count("comparisons that pass"),
        Err(payload) => {
            let message = payload.downcast_ref::<String>().cloned().or(payload.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let lists: Vec<&str> = message.rsplit('[').take(2).collect();
            let parse = |l: &str| -> Option<Vec<u32>> {
                l.split(']')
                    .next()?
                    .split(|c: char| !c.is_ascii_alphanumeric())
                    .filter(|t| !t.is_empty())
                    .map(|t| if t.len() == 8 { u32::from_str_radix(t, 16).ok() } else { None })
                    .collect()
            };
            if lists.len() < 2 || parse(lists[1]).as_ref() != Some(&a) || parse(lists[0]).as_ref() != Some(&b) {
                return fail(format!("the message does not show the pixels {:08X?} and {:08X?}: {}", a, b, message));
            }
            cx.count("comparisons that fail");
        }
    }
    cx.distinct(&hash(format!("{:?} {:?}", a, b).as_bytes()).to_le_bytes());
    Ok(())
}

// PNG images that cairo did not write

fn crc(bytes: &[u8]) -> u32 {
    let mut c = !0u32;
    for &b in bytes {
        c ^= b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xedb8_8320 } else { c >> 1 }
        }
    }
    !c
}

fn chunk(out: &mut Vec<u8>, kind: &[u8; 4], data: &[u8]) {
    out.extend((data.len() as u32).to_be_bytes());
    let start = out.len();
    out.extend(kind);
    out.extend(data);
    let c = crc(&out[start..]);
    out.extend(c.to_be_bytes());
}

/// A zlib stream of stored blocks
fn stored(data: &[u8], rng: &Rng) -> Vec<u8> {
    let mut out = vec![0x78, 0x01];
    let (mut a, mut b) = (1u32, 0u32);
    for &x in data {
        a = (a + x as u32) % 65521;
        b = (b + a) % 65521;
    }
    let mut rest = data;
    loop {
        let n = rest.len().min(1 + rng.below(65535));
        let last = n == rest.len();
        out.push(last as u8);
        out.extend((n as u16).to_le_bytes());
        out.extend((!(n as u16)).to_le_bytes());
        out.extend(&rest[..n]);
        rest = &rest[n..];
        if last {
            break;
        }
    }
    out.extend((b << 16 | a).to_be_bytes());
    out
}

struct Png {
    bytes: Vec<u8>,
    w: usize,
    h: usize,
    deep: bool,
    what: String,
    /// (red, green, blue, alpha) in 8 bits
    pixels: Vec<[u8; 4]>,
}

fn png(rng: &Rng) -> Png {
    let (w, h) = match rng.below(8) {
        0 => (1, 1 + rng.below(200)),
        1 => (1 + rng.below(200), 1),
        _ => (1 + rng.below(20), 1 + rng.below(20)),
    };
    let colour = rng.pick(&[0u8, 2, 3, 4, 6]);
    let depth = match colour {
        0 => rng.pick(&[1, 2, 4, 8, 8, 16]),
        3 => rng.pick(&[1, 2, 4, 8]),
        _ => rng.pick(&[8, 8, 8, 8, 16]),
    };
    let channels = match colour {
        0 | 3 => 1,
        4 => 2,
        2 => 3,
        _ => 4,
    };
    let top: u32 = (1u32 << depth) - 1;
    let palette: Vec<[u8; 3]> = (0..1 + rng.below(1 << depth.min(8))).map(|_| [rng.next() as u8, rng.next() as u8, rng.next() as u8]).collect();
    let few: Vec<u32> = (0..2).map(|_| rng.next() as u32 & top).collect();
    let style = rng.below(3);
    let sample = |_: usize| -> u32 {
        if colour == 3 {
            return rng.below(palette.len()) as u32;
        }
        match style {
            0 => rng.pick(&few),
            1 => rng.pick(&[0, top]),
            _ => rng.next() as u32 & top,
        }
    };
    let samples: Vec<u32> = (0..w * h * channels).map(sample).collect();
    // Transparency
    let mut trns: Option<Vec<u8>> = None;
    let mut alphas: Vec<u8> = vec![255; palette.len()];
    let mut key: Option<Vec<u32>> = None;
    if rng.chance(1, 3) {
        match colour {
            3 => {
                let n = 1 + rng.below(palette.len());
                for a in &mut alphas[..n] {
                    *a = rng.pick(&[0, 255, 128, rng.next() as u8])
                }
                trns = Some(alphas[..n].to_vec())
            }
            0 | 2 => {
                let at = rng.below(w * h);
                let k: Vec<u32> = samples[at * channels..][..channels].to_vec();
                trns = Some(k.iter().flat_map(|&v| (v as u16).to_be_bytes()).collect());
                key = Some(k)
            }
            _ => {}
        }
    }
    let to8 = |v: u32| -> u8 {
        match depth {
            16 => (v >> 8) as u8,
            d => (v * 255 / ((1 << d) - 1)) as u8,
        }
    };
    let pixels = (0..w * h)
        .map(|i| {
            let s = &samples[i * channels..][..channels];
            let a = if key.as_deref() == Some(s) { 0 } else { 255 };
            match colour {
                0 => [to8(s[0]), to8(s[0]), to8(s[0]), a],
                2 => [to8(s[0]), to8(s[1]), to8(s[2]), a],
                3 => {
                    let p = palette[s[0] as usize];
                    [p[0], p[1], p[2], alphas[s[0] as usize]]
                }
                4 => [to8(s[0]), to8(s[0]), to8(s[0]), to8(s[1])],
                _ => [to8(s[0]), to8(s[1]), to8(s[2]), to8(s[3])],
            }
        })
        .collect();
    // Scanlines of one pass
    let bpp = (channels * depth as usize + 7) / 8;
    let pass = |x0: usize, dx: usize, y0: usize, dy: usize, data: &mut Vec<u8>| {
        if x0 >= w || y0 >= h {
            return;
        }
        let mut previous: Vec<u8> = Vec::new();
        for y in (y0..h).step_by(dy) {
            let mut row: Vec<u8> = Vec::new();
            let mut bits = 0;
            let mut acc = 0u32;
            for x in (x0..w).step_by(dx) {
                for c in 0..channels {
                    let v = samples[(y * w + x) * channels + c];
                    match depth {
                        8 => row.push(v as u8),
                        16 => row.extend((v as u16).to_be_bytes()),
                        d => {
                            acc = acc << d | v;
                            bits += d;
                            if bits == 8 {
                                row.push(acc as u8);
                                acc = 0;
                                bits = 0
                            }
                        }
                    }
                }
            }
            if bits > 0 {
                row.push((acc << (8 - bits)) as u8)
            }
            previous.resize(row.len(), 0);
            let filter = rng.below(5);
            data.push(filter as u8);
            for i in 0..row.len() {
                let left = if i >= bpp { row[i - bpp] } else { 0 };
                let up = previous[i];
                let corner = if i >= bpp { previous[i - bpp] } else { 0 };
                let predicted = match filter {
                    0 => 0,
                    1 => left,
                    2 => up,
                    3 => ((left as u16 + up as u16) / 2) as u8,
                    _ => {
                        let p = left as i32 + up as i32 - corner as i32;
                        let (pa, pb, pc) = ((p - left as i32).abs(), (p - up as i32).abs(), (p - corner as i32).abs());
                        if pa <= pb && pa <= pc {
                            left
                        } else if pb <= pc {
                            up
                        } else {
                            corner
                        }
                    }
                };
                data.push(row[i].wrapping_sub(predicted))
            }
            previous = row
        }
    };
    let interlaced = rng.chance(1, 4);
    let mut data = Vec::new();
    if interlaced {
        for (x0, dx, y0, dy) in [(0, 8, 0, 8), (4, 8, 0, 8), (0, 4, 4, 8), (2, 4, 0, 4), (0, 2, 2, 4), (1, 2, 0, 2), (0, 1, 1, 2)] {
            pass(x0, dx, y0, dy, &mut data)
        }
    } else {
        pass(0, 1, 0, 1, &mut data)
    }
    let mut bytes = b"\x89PNG\r\n\x1a\n".to_vec();
    let mut head = Vec::new();
    head.extend((w as u32).to_be_bytes());
    head.extend((h as u32).to_be_bytes());
    head.extend([depth as u8, colour, 0, 0, interlaced as u8]);
    chunk(&mut bytes, b"IHDR", &head);
    if rng.chance(1, 4) {
        chunk(&mut bytes, b"tEXt", b"Comment\0made by hand")
    }
    if colour == 3 {
        chunk(&mut bytes, b"PLTE", &palette.concat())
    }
    if let Some(t) = &trns {
        chunk(&mut bytes, b"tRNS", t)
    }
    if rng.chance(1, 4) {
        chunk(&mut bytes, b"pHYs", &[0, 0, 11, 19, 0, 0, 11, 19, 1])
    }
    let z = stored(&data, rng);
    let mut rest = &z[..];
    while !rest.is_empty() {
        let n = if rng.chance(1, 2) { rest.len() } else { 1 + rng.below(rest.len()) };
        chunk(&mut bytes, b"IDAT", &rest[..n]);
        rest = &rest[n..]
    }
    chunk(&mut bytes, b"IEND", &[]);
    if rng.chance(1, 8) {
        bytes.extend(b"after the image")
    }
    let what = format!("PNG of {}×{}, colour type {}, {} bits{}{}", w, h, colour, depth, if interlaced { ", interlaced" } else { "" }, if trns.is_some() { ", tRNS" } else { "" });
    Png { bytes, w, h, deep: depth == 16, what, pixels }
}

fn foreign_png(cx: &mut Cx, rng: &Rng) -> Outcome {
    let p = png(rng);
    cx.input(p.bytes.clone());
    let mut s = match guard("read_from_png", || ImageSurface::read_from_png(&p.bytes[..]))? {
        Ok(s) => s,
        Err(_) if p.deep => {
            cx.count("deep images refused");
            return Ok(());
        }
        Err(e) => return fail(format!("{}: {:?}", p.what, e)),
    };
    let pixels = catch_unwind(AssertUnwindSafe(|| {
        let p = s.pixels();
        (p.width, p.height, p.buffer.to_vec())
    }));
    let (w, h, found) = match pixels {
        Ok(x) => x,
        Err(_) if p.deep => {
            cx.count("deep images refused");
            return Ok(());
        }
        Err(_) => return fail(format!("{}: pixels panicked: {}", p.what, last_panic())),
    };
    if (w, h, found.len()) != (p.w, p.h, p.w * p.h) {
        return fail(format!("{}: {}×{} and {} pixels", p.what, w, h, found.len()));
    }
    let translucent = p.pixels.iter().any(|p| p[3] != 255);
    for (i, (&f, e)) in found.iter().zip(&p.pixels).enumerate() {
        let a = e[3] as u32;
        let near = |shift: u32, c: u8| {
            let expected = c as u32 * a;
            ((f >> shift & 255) * 255).abs_diff(expected) <= if a == 255 && !p.deep { 0 } else { 255 }
        };
        if !(near(16, e[0]) && near(8, e[1]) && near(0, e[2]) && (!translucent || (f >> 24).abs_diff(a) <= p.deep as u32)) {
            return fail(format!("{}: pixel ({}, {}) is {:08X} instead of {:?} (red, green, blue, alpha)", p.what, i % w, i / w, f, e));
        }
    }
    cx.count(&p.what[p.what.find("colour").unwrap()..]);
    cx.add("decoded pixels compared", found.len() as u64);
    cx.distinct(&p.bytes);
    cx.sample(|| p.what.clone());
    Ok(())
}
