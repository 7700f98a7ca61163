//! C22, C23, C24: images and PDF pages through cairo and Poppler.
use crate::driver::*;
use crate::interpose;
use crate::rng::{hash, Rng};
use lester::{Backdrop, ImageSurface, LesterError, Page, PdfDocument, RenderOptions};
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use victor::fonts::BITSTREAM_VERA_SANS;
use victor::primitives::{point, rect, Length, Size, TextRun, RGBA};
use victor::text::ShapedSegment;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C22",
            rule: "a case counts if an image with at least one pixel was encoded, and read or written through at least one stream",
            quick_cases: 4_000_000,
            quick_secs: 45,
            thorough_secs: 400,
            run: c22,
            ..Spec::DEFAULT
        },
        Spec {
            id: "C23",
            rule: "a case counts if a document with at least one page was opened, and its pages were visited and compared",
            assumptions: &["Poppler and cairo draw rectangles and extract text as PDF prescribes"],
            quick_cases: 4_000_000,
            quick_secs: 45,
            thorough_secs: 400,
            run: c23,
            ..Spec::DEFAULT
        },
        #[cfg(feature = "native")]
        Spec {
            id: "C24",
            rule: "a case counts if the history created at least three native objects whose end was watched",
            assumptions: &["the functions through which the library obtains native objects are the ones it calls now (others are not watched)"],
            quick_cases: 4_000_000,
            quick_secs: 45,
            thorough_secs: 400,
            run: c24,
            ..Spec::DEFAULT
        },
    ]
}

fn scratch() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VMON_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string()))
}

// ---------------------------------------------------------------------------
// Streams

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    Error,
    Panic,
    /// End of the data, or a writer that accepts nothing
    Zero,
}

#[derive(Debug)]
pub struct Tagged(u64);
impl std::fmt::Display for Tagged {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "injected {}", self.0)
    }
}
impl std::error::Error for Tagged {}

struct Thrown(u64);

/// What the monitor sees of a stream
#[derive(Default)]
pub struct Seen {
    pub calls: u64,
    pub flushes: u64,
    pub after: u64,
    pub failed: bool,
    pub drops: u64,
    pub interrupted: u64,
    pub partial: u64,
    pub data: Vec<u8>,
}

/// How a stream behaves
#[derive(Clone, Debug)]
pub struct Behaviour {
    pub fault: Fault,
    pub at: u64,
    pub kind: io::ErrorKind,
    pub os: bool,
    pub tag: u64,
    pub max: usize,
    pub interrupt: u64,
}

pub fn behaviour(rng: &Rng, calls: u64) -> Behaviour {
    Behaviour {
        fault: [Fault::None, Fault::Error, Fault::Panic, Fault::Zero][rng.weighted(&[4, 4, 2, 2])],
        at: rng.below(calls as usize + 3) as u64,
        kind: rng.pick(&[
            io::ErrorKind::Other,
            io::ErrorKind::BrokenPipe,
            io::ErrorKind::WouldBlock,
            io::ErrorKind::TimedOut,
            io::ErrorKind::InvalidData,
            io::ErrorKind::UnexpectedEof,
            io::ErrorKind::NotFound,
        ]),
        os: rng.chance(1, 5),
        tag: rng.next(),
        max: rng.pick(&[usize::MAX, usize::MAX, 1, 3, 64, 1000]),
        interrupt: rng.pick(&[0, 0, 3, 20]),
    }
}

pub struct Stream<'a> {
    rng: Rng,
    b: &'a Behaviour,
    seen: &'a mut Seen,
    source: &'a [u8],
    pos: usize,
    just_interrupted: bool,
}

impl<'a> Stream<'a> {
    pub fn new(seed: u64, b: &'a Behaviour, seen: &'a mut Seen, source: &'a [u8]) -> Self {
        Stream { rng: Rng::new(seed, 0, 0), b, seen, source, pos: 0, just_interrupted: false }
    }
    /// How many bytes to move in this call
    fn step(&mut self, n: usize) -> io::Result<usize> {
        if self.seen.failed {
            self.seen.after += 1;
            return Err(io::Error::new(io::ErrorKind::Other, "called after a failure"));
        }
        if self.b.interrupt > 0 && !self.just_interrupted && self.rng.chance(1, self.b.interrupt as u32) {
            self.just_interrupted = true;
            self.seen.interrupted += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        self.just_interrupted = false;
        let call = self.seen.calls;
        self.seen.calls += 1;
        if call == self.b.at && n > 0 {
            match self.b.fault {
                Fault::None => {}
                Fault::Error => {
                    self.seen.failed = true;
                    return Err(if self.b.os { io::Error::from_raw_os_error(libc::EIO) } else { io::Error::new(self.b.kind, Tagged(self.b.tag)) });
                }
                Fault::Panic => {
                    self.seen.failed = true;
                    std::panic::panic_any(Thrown(self.b.tag))
                }
                Fault::Zero => {
                    self.seen.failed = true;
                    return Ok(0);
                }
            }
        }
        let mut k = n.min(self.b.max);
        if k > 1 && self.b.max != usize::MAX && self.rng.chance(1, 2) {
            k = 1 + self.rng.below(k)
        }
        self.seen.partial += (k < n) as u64;
        Ok(k)
    }
    fn outside<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        interpose::outside(|| f(self))
    }
}

impl<'a> Drop for Stream<'a> {
    fn drop(&mut self) {
        self.seen.drops += 1
    }
}

impl<'a> Read for Stream<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.outside(|s| {
            let k = s.step(buf.len())?;
            let k = k.min(s.source.len() - s.pos);
            buf[..k].copy_from_slice(&s.source[s.pos..s.pos + k]);
            s.pos += k;
            Ok(k)
        })
    }
}

impl<'a> Write for Stream<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.outside(|s| {
            let k = s.step(buf.len())?;
            s.seen.data.extend_from_slice(&buf[..k]);
            Ok(k)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        self.seen.flushes += 1;
        if self.seen.failed {
            self.seen.after += 1
        }
        Ok(())
    }
}

/// How an operation on a stream ended
fn judge_fault<T>(what: &str, b: &Behaviour, seen: &Seen, eof: io::ErrorKind, result: std::thread::Result<Result<T, LesterError>>) -> Result<Option<T>, Failure> {
    if seen.drops != 1 {
        return fail(format!("{}: the stream was dropped {} times", what, seen.drops));
    }
    if seen.after > 0 {
        return fail(format!("{}: {} calls on the stream after it failed ({:?} at call {})", what, seen.after, b.fault, b.at));
    }
    let shown = |r: &Result<T, LesterError>| match r {
        Ok(_) => "success".to_string(),
        Err(e) => format!("{:?}", e),
    };
    if !seen.failed {
        return match result {
            Ok(Ok(v)) => Ok(Some(v)),
            Ok(r) => fail(format!("{}: {} without a fault", what, shown(&r))),
            Err(_) => fail(format!("{} panicked without a fault: {}", what, last_panic())),
        };
    }
    match (b.fault, result) {
        (Fault::Error, Ok(Err(LesterError::Io(e)))) => {
            let same = if b.os {
                e.raw_os_error() == Some(libc::EIO)
            } else {
                e.kind() == b.kind && e.get_ref().and_then(|r| r.downcast_ref::<Tagged>()).map_or(false, |t| t.0 == b.tag)
            };
            if same {
                return Ok(None);
            }
            fail(format!("{}: another error came out: {:?} instead of {:?} (os: {})", what, e, b.kind, b.os))
        }
        (Fault::Zero, Ok(Err(LesterError::Io(ref e)))) if e.kind() == eof => Ok(None),
        (Fault::Panic, Err(payload)) => match payload.downcast_ref::<Thrown>() {
            Some(t) if t.0 == b.tag => Ok(None),
            _ => fail(format!("{}: another panic came out: {}", what, last_panic())),
        },
        (_, Ok(r)) => fail(format!("{}: {} although the stream failed ({:?} at call {})", what, shown(&r), b.fault, b.at)),
        (_, Err(_)) => fail(format!("{}: panic {:?} although the stream failed with {:?} at call {}", what, last_panic(), b.fault, b.at)),
    }
}

// ---------------------------------------------------------------------------
// C22

#[derive(Clone)]
pub struct Image {
    alpha: bool,
    w: usize,
    h: usize,
    pixels: Vec<u32>,
}

impl Image {
    fn opaque(&self) -> bool {
        !self.alpha || self.pixels.iter().all(|p| p >> 24 == 255)
    }
    fn mask(&self) -> u32 {
        if self.opaque() {
            0xff_ffff
        } else {
            !0
        }
    }
}

pub fn random_image(rng: &Rng) -> Image {
    let (w, h) = match rng.below(20) {
        0 => (1, 1 + rng.below(4000)),
        1 => (1 + rng.below(4000), 1),
        2 => (200 + rng.below(400), 200 + rng.below(400)),
        3 => (rng.pick(&[32767, 20_000, 1]), 1 + rng.below(2)),
        _ => (1 + rng.below(24), 1 + rng.below(24)),
    };
    let alpha = rng.chance(3, 5);
    let style = rng.below(5);
    let palette: Vec<u32> = (0..1 + rng.below(4)).map(|_| rng.next() as u32).collect();
    let opaque_from = rng.below(3);
    let odd = rng.below(w * h);
    let pixels = (0..w * h)
        .map(|i| {
            let p = match style {
                0 => rng.pick(&palette),
                1 => (i as u32).wrapping_mul(0x01_0307) ^ 0xff00_0000,
                2 => rng.pick(&[0, 0xffff_ffff, 0xff00_0000]),
                _ => rng.next() as u32,
            };
            if !alpha {
                // The upper bits mean nothing
                return p;
            }
            let mut a = p >> 24;
            if opaque_from == 0 || (opaque_from == 1 && i != odd) {
                a = 255
            }
            if rng.chance(1, 30) && opaque_from != 0 {
                a = rng.pick(&[0, 1, 254, 128])
            }
            let c = |s: u32| ((p >> s & 255) * a / 255) << s;
            a << 24 | c(0) | c(8) | c(16)
        })
        .collect();
    Image { alpha, w, h, pixels }
}

pub fn surface(i: &Image) -> Result<ImageSurface, Failure> {
    let made = guard("making an image", || if i.alpha { ImageSurface::new_argb32(i.w, i.h) } else { ImageSurface::new_rgb24(i.w, i.h) })?;
    let mut s = match made {
        Ok(s) => s,
        Err(e) => return fail(format!("an image of {}×{} cannot be made: {:?}", i.w, i.h, e)),
    };
    {
        let p = guard("pixels", || s.pixels())?;
        if (p.width, p.height, p.buffer.len()) != (i.w, i.h, i.w * i.h) {
            return fail(format!("new image of {}×{}: {}×{} and {} pixels", i.w, i.h, p.width, p.height, p.buffer.len()));
        }
        if p.buffer.iter().any(|&p| p != 0) {
            return fail("a new image is not blank".to_string());
        }
        p.buffer.copy_from_slice(&i.pixels);
    }
    Ok(s)
}

fn same_image(what: &str, s: &mut ImageSurface, i: &Image) -> Outcome {
    let p = guard("pixels", || s.pixels())?;
    if (p.width, p.height, p.buffer.len()) != (i.w, i.h, i.w * i.h) {
        return fail(format!("{}: {}×{} and {} pixels instead of {}×{}", what, p.width, p.height, p.buffer.len(), i.w, i.h));
    }
    let m = i.mask();
    for (k, (a, b)) in p.buffer.iter().zip(&i.pixels).enumerate() {
        if a & m != b & m {
            return fail(format!("{}: pixel ({}, {}) of {}×{} is {:08X} instead of {:08X} (alpha: {})", what, k % i.w, k / i.w, i.w, i.h, a, b, i.alpha));
        }
    }
    Ok(())
}

fn c22(cx: &mut Cx) {
    let r = c22_case(cx);
    cx.report(r)
}

fn crc(data: &[u8]) -> u32 {
    let mut c = !0u32;
    for &b in data {
        c ^= b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { 0xedb8_8320 ^ (c >> 1) } else { c >> 1 }
        }
    }
    !c
}

/// Change something in a PNG file, and sometimes make its checksums right again
pub fn mutate_png(rng: &Rng, png: &[u8]) -> Vec<u8> {
    let mut b = png.to_vec();
    for _ in 0..1 + rng.below(4) {
        if b.is_empty() {
            return b;
        }
        let at = if rng.chance(1, 3) { rng.below(b.len().min(60)) } else { rng.below(b.len()) };
        match rng.below(6) {
            0 => b[at] = rng.next() as u8,
            1 => b[at] ^= 1 << rng.below(8),
            2 => {
                b.remove(at);
            }
            3 => b.insert(at, rng.next() as u8),
            4 => b.truncate(at),
            _ => {
                let end = (at + rng.below(40)).min(b.len());
                let part = b[at..end].to_vec();
                let to = rng.below(b.len());
                b.splice(to..to, part);
            }
        }
    }
    if rng.chance(2, 3) {
        let mut at = 8;
        while at + 12 <= b.len() {
            let n = u32::from_be_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) as usize;
            if n > b.len() - at - 12 {
                break;
            }
            if &b[at + 4..at + 8] == b"IHDR" && n >= 8 {
                // Keep the memory down
                b[at + 8] = 0;
                b[at + 9] = 0;
                b[at + 12] = 0;
                b[at + 13] = 0;
            }
            let sum = crc(&b[at + 4..at + 8 + n]).to_be_bytes();
            b[at + 8 + n..at + 12 + n].copy_from_slice(&sum);
            at += n + 12;
        }
    }
    b
}

pub fn c22_case(cx: &mut Cx) -> Outcome {
    let rng = &cx.rng.clone();
    let image = random_image(rng);
    cx.input(format!("{}×{} {} {:08x?}", image.w, image.h, if image.alpha { "ARGB32" } else { "RGB24" }, &image.pixels[..image.pixels.len().min(200)]));
    let mut s = surface(&image)?;
    let mut png = Vec::new();
    match guard("write_to_png", || s.write_to_png(&mut png))? {
        Ok(()) => {}
        Err(e) => return fail(format!("an image cannot be encoded: {:?}", e)),
    }
    // Encoding leaves the image as it was
    same_image("after encoding", &mut s, &image)?;
    cx.count(if !image.alpha {
        "rgb24_images"
    } else if image.opaque() {
        "opaque_argb32_images"
    } else {
        "transparent_images"
    });
    cx.max("pixels", image.pixels.len() as u64);
    // The numbers of calls, for the places of faults
    let mut reads = 0;
    let mut writes = 0;
    for round in 0..3 {
        let mut b = behaviour(rng, if round == 0 { 0 } else { reads });
        if round == 0 {
            b.fault = Fault::None;
            b.max = usize::MAX
        } else if b.max != usize::MAX {
            b.at = b.at * (1 + rng.below(6)) as u64;
            if png.len() > 30_000 {
                b.max = b.max.max(1000)
            }
        }
        // Reading
        let mut data = png.clone();
        let short = round > 0 && rng.chance(1, 5);
        if short {
            data.truncate(if rng.chance(1, 2) { rng.below(data.len()) } else { data.len() - 1 - rng.below(data.len().min(20)) });
            b.fault = Fault::None
        } else if rng.chance(1, 4) {
            let n = rng.below(50);
            data.extend(rng.bytes(n))
        }
        let mut seen = Seen::default();
        let seed = rng.next();
        let by_reference = rng.chance(1, 4);
        let result = catch_unwind(AssertUnwindSafe(|| {
            if by_reference {
                let mut stream = Stream::new(seed, &b, &mut seen, &data);
                ImageSurface::read_from_png(&mut stream)
            } else {
                ImageSurface::read_from_png(Stream::new(seed, &b, &mut seen, &data))
            }
        }));
        if round == 0 {
            reads = seen.calls
        }
        cx.add("read_calls", seen.calls);
        cx.add("interrupted_calls", seen.interrupted);
        cx.add("partial_calls", seen.partial);
        if short {
            match result {
                Ok(Err(LesterError::Io(ref e))) if e.kind() == io::ErrorKind::UnexpectedEof => {}
                Ok(Ok(_)) => return fail(format!("reading the first {} of {} bytes of a PNG image succeeds", data.len(), png.len())),
                Ok(Err(e)) => return fail(format!("reading the first {} of {} bytes of a PNG image: {:?} instead of an unexpected end of file", data.len(), png.len(), e)),
                Err(_) => return fail(format!("reading the first {} of {} bytes of a PNG image panicked: {}", data.len(), png.len(), last_panic())),
            }
            if seen.drops != 1 {
                return fail(format!("the stream was dropped {} times", seen.drops));
            }
            cx.count("short_images");
        } else {
            let what = format!("reading a PNG image ({:?})", b);
            match judge_fault(&what, &b, &seen, io::ErrorKind::UnexpectedEof, result)? {
                Some(mut back) => {
                    same_image(&what, &mut back, &image)?;
                    cx.count("decoded_images")
                }
                None => cx.count(match b.fault {
                    Fault::Error => "read_errors",
                    Fault::Panic => "read_panics",
                    _ => "read_ends",
                }),
            }
        }
        // Writing
        let mut b = behaviour(rng, if round == 0 { 0 } else { writes });
        if round == 0 {
            b.fault = Fault::None;
            b.max = usize::MAX
        } else if b.max != usize::MAX {
            b.at = b.at * (1 + rng.below(6)) as u64;
            if png.len() > 30_000 {
                b.max = b.max.max(1000)
            }
        }
        let mut seen = Seen::default();
        let seed = rng.next();
        let result = catch_unwind(AssertUnwindSafe(|| {
            if by_reference {
                let mut stream = Stream::new(seed, &b, &mut seen, &[]);
                s.write_to_png(&mut stream)
            } else {
                s.write_to_png(Stream::new(seed, &b, &mut seen, &[]))
            }
        }));
        if round == 0 {
            writes = seen.calls
        }
        cx.add("write_calls", seen.calls);
        cx.add("interrupted_calls", seen.interrupted);
        cx.add("partial_calls", seen.partial);
        let what = format!("writing a PNG image ({:?})", b);
        let done = judge_fault(&what, &b, &seen, io::ErrorKind::WriteZero, result)?.is_some();
        if done && seen.data != png {
            return fail(format!("{}: success, but {} bytes were delivered, which differ from the {} of the image", what, seen.data.len(), png.len()));
        }
        if !png.starts_with(&seen.data) {
            return fail(format!("{}: the bytes delivered are not a prefix of the image", what));
        }
        cx.count(match (done, b.fault) {
            (true, _) => "encoded_images",
            (_, Fault::Error) => "write_errors",
            (_, Fault::Panic) => "write_panics",
            _ => "write_ends",
        });
        // The image can still be used
        same_image("after a write", &mut s, &image)?;
        cx.evaluated(2);
    }
    // Not PNG
    if rng.chance(1, 3) {
        let mut bad = png.clone();
        match rng.below(4) {
            0 => {
                let n = 8 + rng.below(200);
                bad = rng.bytes(n)
            }
            1 => bad[rng.below(8)] ^= 1 << rng.below(8),
            2 => {
                bad.remove(0);
            }
            _ => bad = b"%PDF-1.5\n1 0 obj\n<< >> endobj and more bytes than the signature and a chunk have".to_vec(),
        }
        if !bad.starts_with(b"\x89PNG\r\n\x1a\n") {
            match guard("reading other bytes", || ImageSurface::read_from_png(&bad[..]))? {
                Ok(_) => return fail(format!("bytes that are not a PNG image were read as an image: {:?}", &bad[..bad.len().min(40)])),
                Err(_) => cx.count("other_bytes"),
            }
        }
        let bad = mutate_png(rng, &png);
        let b = Behaviour { fault: Fault::None, ..behaviour(rng, 0) };
        let mut seen = Seen::default();
        let result = guard("reading a damaged image", || ImageSurface::read_from_png(Stream::new(1, &b, &mut seen, &bad)))?;
        if seen.drops != 1 {
            return fail(format!("the stream of a damaged image was dropped {} times", seen.drops));
        }
        if let Ok(mut s) = result {
            cx.count("damaged_images_read");
            match guard("pixels", || {
                let p = s.pixels();
                (p.width * p.height, p.buffer.len(), p.buffer.iter().fold(0u32, |a, b| a ^ b))
            }) {
                Ok((n, len, _)) if n != len => return fail(format!("{} pixels instead of {}", len, n)),
                Err(ref f) if !f.what.contains("Unsupported pixel format") => return fail(f.what.clone()),
                _ => {}
            }
            let _ = guard("writing a damaged image", || s.write_to_png(io::sink()))?;
        } else {
            cx.count("damaged_images_rejected")
        }
    }
    // Files
    if rng.chance(1, 8) {
        let dir = scratch();
        let path = dir.join(format!("c22-{}.png", std::process::id()));
        if rng.chance(1, 2) {
            let n = rng.below(3 * png.len());
            std::fs::write(&path, rng.bytes(n)).unwrap();
        }
        match guard("write_to_png_file", || s.write_to_png_file(&path))? {
            Ok(()) => {}
            Err(e) => return fail(format!("write_to_png_file: {:?}", e)),
        }
        if std::fs::read(&path).unwrap_or_default() != png {
            return fail("the file differs from the image".to_string());
        }
        match guard("read_from_png_file", || ImageSurface::read_from_png_file(&path))? {
            Ok(mut back) => same_image("from a file", &mut back, &image)?,
            Err(e) => return fail(format!("read_from_png_file: {:?}", e)),
        }
        std::fs::write(&path, &png[..rng.below(png.len())]).unwrap();
        match guard("read_from_png_file", || ImageSurface::read_from_png_file(&path))? {
            Err(LesterError::Io(ref e)) if e.kind() == io::ErrorKind::UnexpectedEof => {}
            r => return fail(format!("reading a short file: {:?}", r.map(|_| "success"))),
        }
        let _ = std::fs::remove_file(&path);
        for missing in [dir.join("missing.png"), dir.join("missing directory/x.png")] {
            match guard("read_from_png_file", || ImageSurface::read_from_png_file(&missing))? {
                Err(LesterError::Io(ref e)) if e.kind() == io::ErrorKind::NotFound => {}
                r => return fail(format!("reading a missing file: {:?}", r.map(|_| "success"))),
            }
        }
        match guard("write_to_png_file", || s.write_to_png_file(dir.join("missing directory/x.png")))? {
            Err(LesterError::Io(ref e)) if e.kind() == io::ErrorKind::NotFound => {}
            r => return fail(format!("writing into a missing directory: {:?}", r)),
        }
        if std::path::Path::new("/dev/full").exists() {
            match guard("write_to_png_file", || s.write_to_png_file("/dev/full"))? {
                Err(LesterError::Io(ref e)) if e.raw_os_error() == Some(libc::ENOSPC) => {}
                r => return fail(format!("writing {} bytes to a full device: {:?}", png.len(), r)),
            }
        }
        cx.count("files");
    }
    // Images without pixels
    if rng.chance(1, 30) {
        let (w, h) = rng.pick(&[(0, 0), (0, 7), (7, 0)]);
        let made = guard("new", || if image.alpha { ImageSurface::new_argb32(w, h) } else { ImageSurface::new_rgb24(w, h) })?;
        if let Ok(mut s) = made {
            let n = guard("pixels", || {
                let p = s.pixels();
                (p.width, p.height, p.buffer.len())
            })?;
            if n != (w, h, 0) {
                return fail(format!("an image of {}×{} has {:?}", w, h, n));
            }
            let _ = guard("write_to_png", || s.write_to_png(io::sink()))?;
            cx.count("empty_images");
        }
        // Too large for cairo
        let (w, h) = rng.pick(&[(32768, 1), (1, 40_000), (1 << 30, 1 << 30), (2_147_483_647, 1)]);
        if guard("new", || if image.alpha { ImageSurface::new_argb32(w, h) } else { ImageSurface::new_rgb24(w, h) })?.is_ok() {
            return fail(format!("an image of {}×{} was made", w, h));
        }
        cx.count("too_large_images");
    }
    cx.distinct(&png);
    cx.sample(|| format!("{}×{} {}: {} bytes of PNG, {} reads, {} writes", image.w, image.h, if image.alpha { "ARGB32" } else { "RGB24" }, png.len(), reads, writes));
    Ok(())
}

// ---------------------------------------------------------------------------
// C23

#[derive(Clone, Debug)]
pub struct DrawnPage {
    /// CSS px
    w: f64,
    h: f64,
    /// In px from the top left, with colour and opacity (0 to 255)
    rects: Vec<([f64; 4], [u8; 3], u8)>,
    /// Baseline origin, size, words
    texts: Vec<(f64, f64, f64, Vec<String>)>,
}

#[derive(Clone, Debug)]
pub struct Drawn {
    pub pages: Vec<DrawnPage>,
    producer: Option<String>,
}

fn word(rng: &Rng) -> String {
    // (Poppler joins very short words)
    let n = 3 + rng.below(6);
    (0..n).map(|_| rng.pick(&['a', 'b', 'c', 'd', 'e', 'n', 'o', 'x', 'z', 'A', 'M', 'W', '0', '7', 'é', 'ß', 'Ñ'])).collect()
}

pub fn drawn(rng: &Rng, by_hand: bool) -> Drawn {
    let n = match rng.below(8) {
        0 => 1,
        1 => 6 + rng.below(20),
        _ => 1 + rng.below(5),
    };
    let pages = (0..n)
        .map(|i| {
            // Page sizes tell pages apart
            let (mut w, mut h) = match rng.below(3) {
                0 => (60. + 3. * rng.below(60) as f64, 60. + 3. * i as f64),
                1 => (60. + 3. * i as f64, 60. + 3. * rng.below(60) as f64),
                _ => (60.3 + rng.below(1000) as f64 / 7., 70. + i as f64 * 1.37),
            };
            if rng.chance(1, 6) {
                // The last row or column is hardly covered
                w += 0.0004;
                h += 0.0004
            }
            if by_hand {
                w = (w * 4.).round() / 4.;
                h = (h * 4.).round() / 4. + i as f64
            }
            let mut texts = Vec::new();
            let mut y = 4.;
            let mut rects = Vec::new();
            for _ in 0..rng.below(4) {
                let (x0, y0) = (rng.below(50) as f64, rng.below(50) as f64);
                let r = [x0, y0, 4. + rng.below(40) as f64, 4. + rng.below(40) as f64];
                let alpha = if by_hand { 255 } else { rng.pick(&[255, 255, 128, 51]) };
                rects.push((r, [rng.pick(&[0, 255, 128]), rng.pick(&[0, 255, 64]), rng.pick(&[0, 255, 30])], alpha))
            }
            if !by_hand {
                for line in 0..rng.below(4) {
                    let size = 5. + rng.below(4) as f64;
                    y += 2.5 * size;
                    let mut words: Vec<String> = (0..1 + rng.below(2)).map(|_| word(rng)).collect();
                    if line == 0 {
                        words[0] = format!("page{}", i)
                    }
                    texts.push((3., y, size, words))
                }
                if y > h - 5. {
                    h = y + 5. + i as f64 * 1.37
                }
                let widest = texts.iter().map(|t| t.2 * t.3.iter().map(|w| w.len() + 1).sum::<usize>() as f64).fold(0., f64::max);
                w = w.max(widest)
            }
            DrawnPage { w, h, rects, texts }
        })
        .collect();
    let producer = if by_hand && rng.chance(2, 3) { Some((0..rng.below(12)).map(|_| rng.pick(&['a', 'B', ' ', '3', '.', '-'])).collect()) } else { None };
    Drawn { pages, producer }
}

pub fn write_drawn(d: &Drawn, by_hand: bool) -> Result<Vec<u8>, Failure> {
    if by_hand {
        return Ok(write_by_hand(d));
    }
    guard("drawing", || {
        let mut doc = victor::pdf::Document::new();
        for p in &d.pages {
            let mut page = doc.add_page(Size::new(p.w as f32, p.h as f32));
            for (r, c, a) in &p.rects {
                page.set_color(&RGBA(c[0] as f32 / 255., c[1] as f32 / 255., c[2] as f32 / 255., *a as f32 / 255.));
                page.paint_rectangle(&rect(r[0] as f32, r[1] as f32, r[2] as f32, r[3] as f32));
            }
            page.set_color(&RGBA(0., 0., 0., 1.));
            for (x, y, size, words) in &p.texts {
                let segment = ShapedSegment::naive_shape(&words.join(" "), BITSTREAM_VERA_SANS.clone()).unwrap();
                page.show_text(&TextRun { segment: &segment, font_size: Length::new(*size as f32), origin: point(*x as f32, *y as f32) }).unwrap();
            }
        }
        doc.write_to_pdf_bytes()
    })
}

/// A PDF file that does not come from Victor
fn write_by_hand(d: &Drawn) -> Vec<u8> {
    let mut objects: Vec<String> = Vec::new();
    let n = d.pages.len();
    let kids: Vec<String> = (0..n).map(|i| format!("{} 0 R", 3 + 2 * i)).collect();
    objects.push("<< /Type /Catalog /Pages 2 0 R >>".into());
    objects.push(format!("<< /Type /Pages /Count {} /Kids [{}] >>", n, kids.join(" ")));
    for (i, p) in d.pages.iter().enumerate() {
        let (w, h) = (p.w * 0.75, p.h * 0.75);
        objects.push(format!("<< /Type /Page /Parent 2 0 R /MediaBox [0 0 {} {}] /Resources << >> /Contents {} 0 R >>", w, h, 4 + 2 * i));
        let mut c = String::new();
        for (r, rgb, _) in &p.rects {
            let v: Vec<String> = rgb.iter().map(|&v| format!("{:.5}", v as f64 / 255.)).collect();
            c += &format!("{} rg {} {} {} {} re f\n", v.join(" "), r[0] * 0.75, h - (r[1] + r[3]) * 0.75, r[2] * 0.75, r[3] * 0.75)
        }
        objects.push(format!("<< /Length {} >>\nstream\n{}\nendstream", c.len() + 1, c));
    }
    let mut info = String::new();
    if let Some(p) = &d.producer {
        objects.push(format!("<< /Producer ({}) >>", p));
        info = format!(" /Info {} 0 R", objects.len())
    }
    let mut out = String::from("%PDF-1.4\n");
    let mut offsets = Vec::new();
    for (i, o) in objects.iter().enumerate() {
        offsets.push(out.len());
        out += &format!("{} 0 obj\n{}\nendobj\n", i + 1, o)
    }
    let at = out.len();
    out += &format!("xref\n0 {}\n0000000000 65535 f \n", objects.len() + 1);
    for o in offsets {
        out += &format!("{:010} 00000 n \n", o)
    }
    out += &format!("trailer\n<< /Size {} /Root 1 0 R{} >>\nstartxref\n{}\n%%EOF\n", objects.len() + 1, info, at);
    out.into_bytes()
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 0.01 + b.abs() * 1e-5
}

fn which(d: &Drawn, p: &Page) -> Result<usize, Failure> {
    let (w, h) = guard("size_in_ps_points", || p.size_in_ps_points())?;
    let (pw, ph) = guard("size_in_css_px", || p.size_in_css_px())?;
    if (pw - w * 4. / 3.).abs() > 1e-6 * w.abs() || (ph - h * 4. / 3.).abs() > 1e-6 * h.abs() {
        return fail(format!("a page of {}×{} pt has {}×{} px", w, h, pw, ph));
    }
    let found: Vec<usize> = (0..d.pages.len()).filter(|&i| close(d.pages[i].w, pw) && close(d.pages[i].h, ph)).collect();
    match found[..] {
        [i] => Ok(i),
        [] => fail(format!("no page has the size {}×{} px", pw, ph)),
        // Not told apart: not used
        _ => fail("ambiguous".to_string()),
    }
}

fn visit(cx: &mut Cx, rng: &Rng, d: &Drawn, doc: &PdfDocument, log: &mut String) -> Outcome {
    use std::fmt::Write;
    let n = d.pages.len();
    let mut it = guard("pages", || doc.pages())?;
    let mut model: VecDeque<usize> = (0..n).collect();
    let check = |what: String, got: Option<Page>, want: Option<usize>, log: &mut String| -> Outcome {
        let _ = write!(log, "{} ", what);
        let got = match &got {
            Some(p) => Some(which(d, p)?),
            None => None,
        };
        if got != want {
            return fail(format!("of {} pages: {}: page {:?} instead of {:?} (after {})", n, what, got, want, log));
        }
        Ok(())
    };
    for _ in 0..2 + rng.below(2 * n + 3) {
        cx.count("iterator_operations");
        match rng.below(12) {
            0..=2 => check("next".into(), guard("next", || it.next())?, model.pop_front(), log)?,
            3..=5 => check("next_back".into(), guard("next_back", || it.next_back())?, model.pop_back(), log)?,
            6 | 7 => {
                let k = match rng.below(6) {
                    0 => model.len(),
                    1 => rng.pick(&[usize::MAX, 1 << 31, (1 << 32) + 1, n + 3]),
                    _ => rng.below(3),
                };
                let got = guard("nth", || it.nth(k))?;
                let mut want = None;
                if k >= model.len() {
                    model.clear()
                } else {
                    model.drain(..k);
                    want = model.pop_front()
                }
                check(format!("nth({})", k), got, want, log)?
            }
            8 => {
                let k = rng.below(3);
                let got = guard("nth_back", || it.nth_back(k))?;
                for _ in 0..k {
                    model.pop_back();
                }
                let want = model.pop_back();
                check(format!("nth_back({})", k), got, want, log)?
            }
            9 => {
                let hint = guard("size_hint", || it.size_hint())?;
                if hint != (model.len(), Some(model.len())) {
                    return fail(format!("size_hint {:?} with {} pages left (after {})", hint, model.len(), log));
                }
            }
            _ => {}
        }
        let len = guard("len", || it.len())?;
        if len != model.len() {
            return fail(format!("len {} with {} pages left (after {})", len, model.len(), log));
        }
    }
    // The rest, in one of many ways
    let rest: Vec<usize> = model.into_iter().collect();
    let way = rng.below(9);
    let mut want = rest.clone();
    let got: Vec<Page> = guard("iterating", || match way {
        0 => it.collect(),
        1 => {
            let mut v = Vec::new();
            for p in it {
                v.push(p)
            }
            v
        }
        2 => it.rev().collect(),
        3 => it.step_by(2).collect(),
        4 => it.skip(2).collect(),
        5 => it.last().into_iter().collect(),
        6 => it.fold(Vec::new(), |mut v, p| {
            v.push(p);
            v
        }),
        7 => it.rfold(Vec::new(), |mut v, p| {
            v.push(p);
            v
        }),
        _ => {
            // An exhausted iterator stays so
            let mut v: Vec<Page> = it.by_ref().collect();
            v.extend(it.next());
            v.extend(it.next_back());
            v.extend(it.nth(0));
            v
        }
    })?;
    match way {
        2 | 7 => want.reverse(),
        3 => want = want.into_iter().step_by(2).collect(),
        4 => want = want.into_iter().skip(2).collect(),
        5 => want = want.last().cloned().into_iter().collect(),
        _ => {}
    }
    let mut visited = Vec::new();
    for p in &got {
        visited.push(which(d, p)?)
    }
    if visited != want {
        return fail(format!("of {} pages: the rest ({:?}, in way {}) was {:?} after {}", n, want, way, visited, log));
    }
    if guard("count", || doc.pages().count())? != n || guard("len", || doc.pages().len())? != n {
        return fail(format!("{} pages instead of {}", doc.pages().count(), n));
    }
    cx.add("pages_visited", visited.len() as u64);
    Ok(())
}

fn words(text: &str) -> Vec<String> {
    text.split_whitespace().map(|s| s.to_owned()).collect()
}

fn render(cx: &mut Cx, rng: &Rng, d: &DrawnPage, page: &Page) -> Outcome {
    let dx: f64 = rng.pick(&[1., 1., 0.5, 2., 1.5, 0.3, 3.125]);
    let dy: f64 = if rng.chance(2, 3) { dx } else { rng.pick(&[1., 2., 0.7, 1.25]) };
    // High or low resolutions
    let (dx, dy) = match rng.below(40) {
        0 => (dx.min(1.), 7.),
        1 => (9., dy.min(1.)),
        2 => (6., 6.),
        3 => (0.05, 0.05),
        _ => (dx, dy),
    };
    let options = RenderOptions {
        dppx_x: dx,
        dppx_y: dy,
        backdrop: rng.pick(&[Backdrop::White, Backdrop::Transparent]),
        for_printing: rng.chance(1, 3),
    };
    let (w, h) = page.size_in_css_px();
    let what = format!("{:?} of {}×{} px", options, w, h);
    let (result, white) = if dx == dy && rng.chance(1, 3) {
        if dx == 1. && rng.chance(1, 2) {
            (guard("render", || page.render())?, false)
        } else {
            (guard("render_with_dppx", || page.render_with_dppx(dx))?, false)
        }
    } else {
        (guard("render_with_options", || page.render_with_options(options))?, options.backdrop == Backdrop::White)
    };
    let mut surface = match result {
        Ok(s) => s,
        Err(e) => return fail(format!("{}: {:?}", what, e)),
    };
    let p = guard("pixels", || surface.pixels())?;
    let fits = |n: usize, v: f64| (v - 1e-6).ceil() <= n as f64 && n as f64 <= (v + 1e-6).ceil();
    if !fits(p.width, w * dx) || !fits(p.height, h * dy) || p.buffer.len() != p.width * p.height {
        return fail(format!("{}: an image of {}×{} with {} pixels", what, p.width, p.height, p.buffer.len()));
    }
    cx.count("pages_rendered");
    // Pixels away from any edge
    let mut ink = vec![false; d.texts.len()];
    let mut judged = 0u64;
    for y in 0..p.height {
        'pixel: for x in 0..p.width {
            let (x0, x1) = (x as f64 / dx, (x + 1) as f64 / dx);
            let (y0, y1) = (y as f64 / dy, (y + 1) as f64 / dy);
            let (mx, my) = (1.05 / dx, 1.05 / dy);
            if x1 > d.w || y1 > d.h {
                continue;
            }
            let got = p.buffer[y * p.width + x];
            for (i, t) in d.texts.iter().enumerate() {
                // The lines of text are apart from each other
                if y1 + my > t.1 - 1.2 * t.2 && y0 - my < t.1 + 0.5 * t.2 {
                    if x0 > t.0 - t.2 && y1 <= t.1 + 0.3 * t.2 && y0 >= t.1 - t.2 {
                        let black = if white { got & 0xff_ffff != 0xff_ffff } else { got >> 24 != 0 };
                        ink[i] |= black
                    }
                    continue 'pixel;
                }
            }
            // Premultiplied
            let mut c = if white { [255., 255., 255., 255.] } else { [0.; 4] };
            for (r, rgb, a) in &d.rects {
                let a = *a as f64 / 255.;
                let inside = x0 - mx >= r[0] && x1 + mx <= r[0] + r[2] && y0 - my >= r[1] && y1 + my <= r[1] + r[3];
                let outside = x1 + mx <= r[0] || x0 - mx >= r[0] + r[2] || y1 + my <= r[1] || y0 - my >= r[1] + r[3];
                if inside {
                    for k in 0..3 {
                        c[k] = c[k] * (1. - a) + rgb[k] as f64 * a
                    }
                    c[3] = c[3] * (1. - a) + 255. * a
                } else if !outside {
                    continue 'pixel;
                }
            }
            judged += 1;
            let g = [got >> 16 & 255, got >> 8 & 255, got & 255, if white { 255 } else { got >> 24 }];
            if (0..4).any(|k| (g[k] as f64 - c[k]).abs() > 3.) {
                return fail(format!("{}: pixel ({}, {}) is {:08X}, expected {:?}", what, x, y, got, c));
            }
        }
    }
    cx.add("pixels_judged", judged);
    if let Some(i) = ink.iter().position(|i| !i) {
        let t = &d.texts[i];
        if t.2 * dy > 3. && t.2 * dx > 3. {
            return fail(format!("{}: no ink where {:?} is shown", what, t));
        }
    }
    Ok(())
}

fn c23(cx: &mut Cx) {
    let r = c23_case(cx);
    match r {
        Err(Failure { ref what, .. }) if what == "ambiguous" => cx.count("ambiguous_pages"),
        r => cx.report(r),
    }
}

pub fn c23_case(cx: &mut Cx) -> Outcome {
    let rng = &cx.rng.clone();
    if rng.chance(1, 12) {
        let n = rng.below(300);
        let bytes: Vec<u8> = match rng.below(5) {
            0 => Vec::new(),
            1 => rng.bytes(n),
            2 => (0..n).map(|_| 32 + rng.below(95) as u8).collect(),
            3 => b"<!doctype html><title>A document</title>".to_vec(),
            _ => {
                let mut png = Vec::new();
                surface(&random_image(rng))?.write_to_png(&mut png).map_err(|e| format!("{:?}", e))?;
                png
            }
        };
        cx.input(bytes.clone());
        return match guard("from_bytes", || PdfDocument::from_bytes(&bytes))? {
            Ok(_) => fail("bytes that are not a PDF were opened".to_string()),
            Err(e) => {
                if guard("the error message", || format!("{} {:?}", e, e))?.trim().is_empty() {
                    return fail("an error without a message".to_string());
                }
                cx.count("other_bytes");
                Ok(())
            }
        };
    }
    let by_hand = rng.chance(1, 3);
    let d = drawn(rng, by_hand);
    cx.input(format!("{:?}", d));
    let bytes = write_drawn(&d, by_hand)?;
    let doc = match guard("from_bytes", || PdfDocument::from_bytes(&bytes))? {
        Ok(doc) => doc,
        Err(e) => return fail(format!("a PDF of {} bytes cannot be opened: {:?}", bytes.len(), e)),
    };
    match (guard("producer", || doc.producer())?, &d.producer) {
        (None, None) => {}
        (Some(s), Some(p)) if s.to_str() == Ok(p) => cx.count("producers"),
        (None, Some(p)) if p.is_empty() => {}
        (got, want) => {
            // Victor may come to state one
            if by_hand {
                return fail(format!("producer {:?} instead of {:?}", got.map(|s| s.to_str().map(|s| s.to_owned())), want));
            }
        }
    }
    let mut log = String::new();
    visit(cx, rng, &d, &doc, &mut log)?;
    visit(cx, rng, &d, &doc, &mut log)?;
    // Text and pixels, of pages in any order
    let mut pages: Vec<Page> = guard("pages", || doc.pages().collect())?;
    let outlives = rng.chance(1, 2);
    if outlives {
        drop(doc)
    }
    rng.shuffle(&mut pages);
    pages.truncate(3);
    for page in &pages {
        let i = which(&d, page)?;
        let text = guard("text", || page.text())?;
        let text = text.to_str().map_err(|_| "the text of a page is not UTF-8".to_string())?;
        let want: Vec<String> = d.pages[i].texts.iter().flat_map(|t| t.3.clone()).collect();
        if words(text) != want {
            return fail(format!("page {}: text {:?} instead of {:?}", i, words(text), want));
        }
        cx.add("words_compared", want.len() as u64);
        render(cx, rng, &d.pages[i], page)?;
        if rng.chance(1, 20) {
            if let Ok(_) = guard("render_with_dppx", || page.render_with_dppx(40_000. / d.pages[i].w))? {
                return fail("a page was rendered to an image larger than cairo can have".to_string());
            }
            cx.count("too_large_renderings");
        }
    }
    cx.distinct(&hash(&bytes).to_le_bytes());
    cx.sample(|| format!("{} pages ({}); {}", d.pages.len(), if by_hand { "by hand" } else { "by Victor" }, log));
    Ok(())
}

// ---------------------------------------------------------------------------
// C24

mod lifetimes {
    use super::*;
    use interpose::{Kind, Object};
    use lester::{CairoError, GlibError, GlibString};
    use std::fmt::Write as _;
    use std::sync::Mutex;

    static FILES: Mutex<Vec<(u64, Drawn, &'static [u8])>> = Mutex::new(Vec::new());

    /// A few PDF files, made once per process
    fn file(seed: u64, k: usize) -> Result<(Drawn, &'static [u8]), Failure> {
        let key = crate::rng::mix(seed ^ k as u64);
        let mut files = FILES.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(f) = files.iter().find(|f| f.0 == key) {
            return Ok((f.1.clone(), f.2));
        }
        let rng = Rng::new(key, 7, 7);
        let by_hand = k % 2 == 0;
        let mut d = drawn(&rng, by_hand);
        d.pages.truncate(4);
        let bytes: &'static [u8] = Box::leak(write_drawn(&d, by_hand)?.into_boxed_slice());
        files.push((key, d.clone(), bytes));
        Ok((d, bytes))
    }

    #[allow(clippy::large_enum_variant)]
    enum Handle {
        Doc(PdfDocument<'static>, usize),
        Page(Page<'static>, usize, usize),
        Surface(ImageSurface, u64),
        Text(GlibString, Vec<String>),
        GlibError(GlibError, String),
        CairoError(CairoError, String),
    }

    struct Item {
        handle: Handle,
        /// What must live as long as this handle
        objects: Vec<Object>,
        /// What must have ended when this handle and the others that have it are dropped
        family: Vec<Object>,
    }

    pub struct World {
        items: Vec<Item>,
        /// Everything that was watched
        all: Vec<Object>,
        /// Objects that only lived during a call
        pub log: String,
    }

    fn digest(s: &mut ImageSurface) -> Result<u64, Failure> {
        guard("pixels", || {
            let p = s.pixels();
            let mut h = (p.width as u64) << 32 | p.height as u64;
            for &p in p.buffer.iter() {
                h = (h ^ p as u64).wrapping_mul(0x100_0000_01b3)
            }
            h
        })
    }

    impl World {
        fn use_handle(&mut self, seed: u64, i: usize) -> Outcome {
            match &mut self.items[i].handle {
                Handle::Doc(d, f) => {
                    let (drawn, _) = file(seed, *f)?;
                    if guard("pages", || d.pages().len())? != drawn.pages.len() {
                        return fail("the page count changed".to_string());
                    }
                }
                Handle::Page(p, f, k) => {
                    let (drawn, _) = file(seed, *f)?;
                    let (w, h) = guard("size", || p.size_in_css_px())?;
                    if !close(w, drawn.pages[*k].w) || !close(h, drawn.pages[*k].h) {
                        return fail(format!("page {} has the size {}×{}", k, w, h));
                    }
                }
                Handle::Surface(s, h) => {
                    if digest(s)? != *h {
                        return fail("the pixels of an image changed".to_string());
                    }
                }
                Handle::Text(t, w) => {
                    if guard("to_str", || t.to_str().map(words))?.as_ref() != Ok(w) {
                        return fail("a string changed".to_string());
                    }
                }
                Handle::GlibError(e, m) => {
                    if guard("the message", || format!("{} {:?}", e, e))? != *m {
                        return fail("the message of an error changed".to_string());
                    }
                }
                Handle::CairoError(e, m) => {
                    if guard("the message", || format!("{} {:?}", e, e))? != *m {
                        return fail("the message of an error changed".to_string());
                    }
                }
            }
            Ok(())
        }

        /// Compare the ends of all objects with the handles that live
        fn check(&self, what: &str) -> Outcome {
            let problem = |o: &Object, text: String| fail(format!("{:?} {}: {} after {} (history: {})", o.kind, o.id, text, what, self.log));
            for o in &self.all {
                let ends = interpose::ends(o);
                let used = self.items.iter().any(|i| i.objects.iter().any(|u| u.id == o.id));
                let kept = self.items.iter().any(|i| i.family.iter().any(|u| u.id == o.id));
                if ends > 1 {
                    return problem(o, format!("released {} times", ends));
                }
                if used && ends > 0 && !matches!(o.kind, Kind::Text | Kind::Error) {
                    return problem(o, "released while a handle still uses it".into());
                }
                if !used && !kept && ends == 0 {
                    return problem(o, "not released after its last handle was dropped".into());
                }
            }
            if interpose::criticals() > 0 {
                return fail(format!("GLib reported {} misuses of its objects after {} (history: {})", interpose::criticals(), what, self.log));
            }
            Ok(())
        }
    }

    fn split(objects: &[Object], kind: Kind) -> Vec<Object> {
        objects.iter().filter(|o| o.kind == kind).cloned().collect()
    }

    pub fn case(cx: &mut Cx, world: &mut World) -> Outcome {
        let rng = &cx.rng.clone();
        let seed = cx.seed;
        let _ = interpose::created();
        let steps = 6 + rng.below(40);
        for _ in 0..steps {
            cx.evaluated(1);
            let op = rng.below(20);
            let n = world.items.len();
            let pick = |f: &dyn Fn(&Handle) -> bool| -> Option<usize> {
                let v: Vec<usize> = (0..n).filter(|&i| f(&world.items[i].handle)).collect();
                if v.is_empty() {
                    None
                } else {
                    Some(v[rng.below(v.len())])
                }
            };
            let mut new: Vec<Item> = Vec::new();
            let mut what = String::new();
            let item = |handle: Handle, objects: Vec<Object>| Item { handle, family: objects.clone(), objects };
            match op {
                0 | 1 => {
                    let f = rng.below(16);
                    let (_, bytes) = file(seed, f)?;
                    let _ = interpose::created();
                    let doc = match guard("from_bytes", || PdfDocument::from_bytes(bytes))? {
                        Ok(d) => d,
                        Err(e) => return fail(format!("a document cannot be opened: {:?}", e)),
                    };
                    let o = interpose::created();
                    world.all.extend(&o);
                    let _ = write!(what, "open");
                    new.push(item(Handle::Doc(doc, f), split(&o, Kind::Document)));
                }
                2 => {
                    let bytes: &'static [u8] = rng.pick(&[&b""[..], b"nothing", b"%PDF-1.5\n%%EOF", b"<html>"]);
                    let _ = write!(what, "open other bytes");
                    match guard("from_bytes", || PdfDocument::from_bytes(bytes))? {
                        Ok(_) => return fail("bytes that are not a PDF were opened".to_string()),
                        Err(e) => {
                            let o = interpose::created();
                            world.all.extend(&o);
                            let m = guard("the message", || format!("{} {:?}", e, e))?;
                            cx.count("failed_openings");
                            // The error may also come through the library’s own enum
                            let e = if rng.chance(1, 2) {
                                match LesterError::from(e) {
                                    LesterError::Glib(e) => e,
                                    _ => return fail("another kind of error".to_string()),
                                }
                            } else {
                                e
                            };
                            new.push(item(Handle::GlibError(e, m), split(&o, Kind::Error)));
                        }
                    }
                }
                3..=5 => {
                    if let Some(i) = pick(&|h| matches!(h, Handle::Doc(..))) {
                        let (doc, f) = match &world.items[i].handle {
                            Handle::Doc(d, f) => (d, *f),
                            _ => unreachable!(),
                        };
                        let family = world.items[i].family.clone();
                        let mut it = doc.pages();
                        let mut left: VecDeque<usize> = (0..it.len()).collect();
                        for _ in 0..1 + rng.below(3) {
                            let (p, k) = match rng.below(4) {
                                0 => (guard("next_back", || it.next_back())?, left.pop_back()),
                                1 => {
                                    left.pop_front();
                                    (guard("nth", || it.nth(1))?, left.pop_front())
                                }
                                _ => (guard("next", || it.next())?, left.pop_front()),
                            };
                            let o = interpose::created();
                            world.all.extend(&o);
                            match (p, k) {
                                (Some(p), Some(k)) => {
                                    let _ = write!(what, "page ");
                                    let mut own = split(&o, Kind::Page);
                                    own.extend(&family);
                                    new.push(item(Handle::Page(p, f, k), own))
                                }
                                (None, None) => {}
                                _ => return fail("the iterator gave another number of pages".to_string()),
                            }
                        }
                    }
                }
                6 | 7 => {
                    if let Some(i) = pick(&|h| matches!(h, Handle::Page(..))) {
                        if let Handle::Page(p, f, k) = &world.items[i].handle {
                            let t = guard("text", || p.text())?;
                            let o = interpose::created();
                            world.all.extend(&o);
                            let want = file(seed, *f)?.0.pages[*k].texts.iter().flat_map(|t| t.3.clone()).collect();
                            let _ = write!(what, "text");
                            new.push(item(Handle::Text(t, want), split(&o, Kind::Text)));
                        }
                    }
                }
                8 => {
                    if let Some(i) = pick(&|h| matches!(h, Handle::Doc(..))) {
                        if let Handle::Doc(d, f) = &world.items[i].handle {
                            let s = guard("producer", || d.producer())?;
                            let o = interpose::created();
                            world.all.extend(&o);
                            let _ = write!(what, "producer");
                            if let Some(s) = s {
                                let want = match file(seed, *f)?.0.producer {
                                    Some(p) => words(&p),
                                    None => s.to_str().map(words).unwrap_or_default(),
                                };
                                new.push(item(Handle::Text(s, want), split(&o, Kind::Text)));
                            }
                        }
                    }
                }
                9..=11 => {
                    if let Some(i) = pick(&|h| matches!(h, Handle::Page(..))) {
                        if let Handle::Page(p, _, _) = &world.items[i].handle {
                            let (w, _) = p.size_in_css_px();
                            let bad = rng.chance(1, 4);
                            let dppx = if bad { 40_000. / w } else { rng.pick(&[0.2, 0.5, 1.]) };
                            let options = RenderOptions {
                                dppx_x: dppx,
                                dppx_y: if bad { 0.1 } else { dppx },
                                backdrop: rng.pick(&[Backdrop::White, Backdrop::Transparent]),
                                for_printing: rng.chance(1, 2),
                            };
                            let r = guard("rendering", || p.render_with_options(options))?;
                            let o = interpose::created();
                            world.all.extend(&o);
                            cx.add("contexts", split(&o, Kind::Context).len() as u64);
                            match r {
                                Ok(mut s) => {
                                    let _ = write!(what, "render");
                                    let h = digest(&mut s)?;
                                    new.push(item(Handle::Surface(s, h), split(&o, Kind::Surface)))
                                }
                                Err(e) => {
                                    let _ = write!(what, "render (error)");
                                    cx.count("failed_renderings");
                                    let m = format!("{} {:?}", e, e);
                                    new.push(item(Handle::CairoError(e, m), Vec::new()))
                                }
                            }
                        }
                    }
                }
                12 => {
                    let (w, h) = if rng.chance(1, 4) { (40_000, 1) } else { (rng.below(20), rng.below(20)) };
                    let r = guard("new", || if rng.chance(1, 2) { ImageSurface::new_rgb24(w, h) } else { ImageSurface::new_argb32(w, h) })?;
                    let o = interpose::created();
                    world.all.extend(&o);
                    let _ = write!(what, "new {}×{}", w, h);
                    match r {
                        Ok(mut s) => {
                            let d = digest(&mut s)?;
                            new.push(item(Handle::Surface(s, d), split(&o, Kind::Surface)))
                        }
                        Err(e) => {
                            let m = format!("{} {:?}", e, e);
                            new.push(item(Handle::CairoError(e.clone(), m.clone()), Vec::new()));
                            new.push(item(Handle::CairoError(e, m), Vec::new()));
                            cx.count("failed_images");
                        }
                    }
                }
                13 | 14 => {
                    // Encode and decode through streams that may fail or panic
                    if let Some(i) = pick(&|h| matches!(h, Handle::Surface(..))) {
                        let mut back = None;
                        if let Handle::Surface(s, _) = &mut world.items[i].handle {
                            let empty = s.pixels().buffer.is_empty();
                            let mut b = behaviour(rng, 12);
                            b.max = usize::MAX;
                            let mut seen = Seen::default();
                            let r = catch_unwind(AssertUnwindSafe(|| s.write_to_png(Stream::new(rng.next(), &b, &mut seen, &[]))));
                            let o = interpose::created();
                            world.all.extend(&o);
                            let _ = write!(what, "write ({:?})", b.fault);
                            if !empty {
                                judge_fault("writing a PNG image", &b, &seen, io::ErrorKind::WriteZero, r)?;
                            }
                            cx.count(if seen.failed { "failed_encodings" } else { "encodings" });
                            let mut png = Vec::new();
                            if s.write_to_png(&mut png).is_ok() {
                                if rng.chance(1, 4) {
                                    png = mutate_png(rng, &png)
                                }
                                let mut b = behaviour(rng, 12);
                                b.max = usize::MAX;
                                let mut seen = Seen::default();
                                let r = catch_unwind(AssertUnwindSafe(|| ImageSurface::read_from_png(Stream::new(rng.next(), &b, &mut seen, &png))));
                                let o = interpose::created();
                                world.all.extend(&o);
                                let _ = write!(what, " read ({:?})", b.fault);
                                cx.count(if let Ok(Ok(_)) = r { "decodings" } else { "failed_decodings" });
                                if let Ok(Ok(s)) = r {
                                    back = Some((s, o))
                                }
                            }
                        }
                        if let Some((mut s, o)) = back {
                            if let Ok(d) = digest(&mut s) {
                                new.push(item(Handle::Surface(s, d), split(&o, Kind::Surface)))
                            } else {
                                // Another pixel format, in a damaged image
                                drop(s)
                            }
                        }
                    }
                }
                15..=17 => {
                    if n > 0 {
                        let i = rng.below(n);
                        let item = world.items.swap_remove(i);
                        let _ = write!(what, "drop {}", name(&item.handle));
                        if let Handle::Doc(..) = item.handle {
                            if item.family.iter().any(|o| world.items.iter().any(|i| i.objects.iter().any(|u| u.id == o.id))) {
                                cx.count("documents_outlived_by_pages")
                            }
                        }
                        let h = item.handle;
                        if rng.chance(1, 8) {
                            // While a panic unwinds
                            let r = catch_unwind(AssertUnwindSafe(|| {
                                let _h = h;
                                std::panic::panic_any(Thrown(0))
                            }));
                            let _: std::thread::Result<()> = r;
                            what += " (unwinding)"
                        } else {
                            guard("dropping", || drop(h))?
                        }
                        cx.count("drops");
                    }
                }
                _ => {
                    if n > 0 {
                        let i = rng.below(n);
                        let _ = write!(what, "use {}", name(&world.items[i].handle));
                        world.use_handle(seed, i)?
                    }
                }
            }
            if what.is_empty() {
                continue;
            }
            world.items.extend(new);
            let o = interpose::created();
            world.all.extend(&o);
            let _ = write!(world.log, "{}; ", what);
            cx.count("operations");
            world.check(&what)?;
            cx.max("live_handles", world.items.len() as u64);
        }
        // Every handle still works, and then all of them go
        for i in 0..world.items.len() {
            world.use_handle(seed, i)?
        }
        let o = interpose::created();
        world.all.extend(&o);
        rng.shuffle(&mut world.items);
        while let Some(item) = world.items.pop() {
            let what = format!("drop {}", name(&item.handle));
            let _ = write!(world.log, "{}; ", what);
            guard("dropping", || drop(item.handle))?;
            world.check(&what)?
        }
        for k in [Kind::Surface, Kind::Context, Kind::Document, Kind::Page, Kind::Text, Kind::Error] {
            cx.add(&format!("watched_{:?}", k).to_lowercase(), split(&world.all, k).len() as u64)
        }
        if world.all.len() >= 3 {
            cx.distinct(world.log.as_bytes());
            let log = &world.log;
            cx.sample(|| log.chars().take(400).collect());
        }
        Ok(())
    }

    fn name(h: &Handle) -> &'static str {
        match h {
            Handle::Doc(..) => "document",
            Handle::Page(..) => "page",
            Handle::Surface(..) => "image",
            Handle::Text(..) => "string",
            Handle::GlibError(..) => "GLib error",
            Handle::CairoError(..) => "cairo error",
        }
    }

    impl World {
        pub fn new() -> World {
            World { items: Vec::new(), all: Vec::new(), log: String::new() }
        }
    }
}

pub fn c24(cx: &mut Cx) {
    interpose::begin();
    let mut world = lifetimes::World::new();
    let r = lifetimes::case(cx, &mut world);
    interpose::end();
    cx.input(std::mem::take(&mut world.log));
    if r.is_err() {
        // Its handles may be broken
        std::mem::forget(world)
    }
    cx.report(r)
}
