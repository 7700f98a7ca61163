//! C26: enums declared with Victor’s macro against ordinary matches.
#![recursion_limit = "4096"]
#![allow(dead_code, unused_variables, unused_assignments, clippy::all)]

#[path = "../../harness/src/alloc.rs"]
mod alloc;
#[path = "../../harness/src/driver.rs"]
mod driver;
#[path = "../../harness/src/rng.rs"]
mod rng;

#[macro_use]
extern crate victor;

use driver::*;
use rng::Rng;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::rc::Rc;

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

#[derive(Clone, Debug, PartialEq)]
#[repr(align(32))]
pub struct Aligned(u8);

#[derive(Clone, Debug, PartialEq)]
pub struct Zero;

#[derive(Clone, Debug, PartialEq)]
pub struct Wide([u64; 9], u8);

thread_local! {
    static LIVE: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
    static NEXT: Cell<u64> = Cell::new(0);
    static TROUBLE: RefCell<Option<String>> = RefCell::new(None);
    static NOTES: RefCell<Vec<(String, Vec<usize>)>> = RefCell::new(Vec::new());
}

/// Each is dropped exactly once
#[derive(Debug)]
pub struct Tracked {
    id: u64,
    value: u32,
}

fn tracked(value: u32) -> Tracked {
    let id = NEXT.with(|n| n.replace(n.get() + 1));
    LIVE.with(|l| l.borrow_mut().insert(id));
    Tracked { id, value }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        if !LIVE.with(|l| l.borrow_mut().remove(&self.id)) {
            TROUBLE.with(|t| *t.borrow_mut() = Some(format!("a value was dropped twice, or never made: {}", self.id)))
        }
    }
}

pub fn balanced() -> Outcome {
    if let Some(t) = TROUBLE.with(|t| t.borrow_mut().take()) {
        return fail(t);
    }
    let left = LIVE.with(|l| std::mem::take(&mut *l.borrow_mut()).len());
    if left > 0 {
        return fail(format!("{} values were not dropped", left));
    }
    Ok(())
}

pub trait Show {
    fn show(&self, out: &mut String);
}
macro_rules! show {
    ($($t: ty),* $(,)?) => {
        $(impl Show for $t {
            fn show(&self, out: &mut String) {
                out.push_str(&format!(" {:?}", self))
            }
        })*
    };
}
show!(
    u8, u16, u32, u64, u128, i8, i16, i32, i64, usize, f32, f64, bool, char, (), String, Vec<u16>, Vec<u8>, &str, str, Option<Box<u32>>, [u8; 3], [u16; 5],
    (u8, u32), (u8, u16), Aligned, Zero, Rc<u32>, Box<[u8]>, std::num::NonZeroU8, Wide, Option<std::num::NonZeroU32>, [u16], [u64; 4],
);
impl Show for Tracked {
    fn show(&self, out: &mut String) {
        out.push_str(&format!(" T{}", self.value))
    }
}
impl Show for Option<Tracked> {
    fn show(&self, out: &mut String) {
        match self {
            Some(t) => t.show(out),
            None => out.push_str(" none"),
        }
    }
}
impl Show for (Tracked, u8) {
    fn show(&self, out: &mut String) {
        self.0.show(out);
        self.1.show(out)
    }
}
impl Show for fn(u32) -> u32 {
    fn show(&self, out: &mut String) {
        out.push_str(&format!(" fn {}", self(3)))
    }
}

pub trait Twice: Sized {
    fn twice(rng: &Rng) -> (Self, Self);
}
pub fn twice<T: Twice>(rng: &Rng) -> (T, T) {
    T::twice(rng)
}
macro_rules! twice {
    ($($t: ty = |$rng: ident| $e: expr;)*) => {
        $(impl Twice for $t {
            fn twice($rng: &Rng) -> (Self, Self) {
                let v: $t = $e;
                (v.clone(), v)
            }
        })*
    };
}
fn text(rng: &Rng) -> String {
    (0..rng.below(9)).map(|_| (b'a' + rng.below(26) as u8) as char).collect()
}
fn double(n: u32) -> u32 {
    n * 2
}
fn square(n: u32) -> u32 {
    n * n
}
twice! {
    u8 = |rng| rng.next() as u8;
    u16 = |rng| rng.next() as u16;
    u32 = |rng| rng.next() as u32;
    u64 = |rng| rng.next();
    u128 = |rng| (rng.next() as u128) << 64 | rng.next() as u128;
    i8 = |rng| rng.next() as i8;
    i16 = |rng| rng.next() as i16;
    i32 = |rng| rng.next() as i32;
    i64 = |rng| rng.next() as i64;
    usize = |rng| rng.next() as usize;
    f32 = |rng| rng.unit() as f32;
    f64 = |rng| rng.unit();
    bool = |rng| rng.chance(1, 2);
    char = |rng| std::char::from_u32(rng.below(0xd800) as u32).unwrap();
    () = |_rng| ();
    String = |rng| text(rng);
    Vec<u16> = |rng| (0..rng.below(5)).map(|_| rng.next() as u16).collect();
    Vec<u8> = |rng| (0..rng.below(5)).map(|_| rng.next() as u8).collect();
    Vec<String> = |rng| (0..rng.below(3)).map(|_| text(rng)).collect();
    &'static str = |rng| rng.pick(&["", "one", "another"]);
    Option<Box<u32>> = |rng| if rng.chance(1, 2) { Some(Box::new(rng.next() as u32)) } else { None };
    [u8; 3] = |rng| [rng.next() as u8, rng.next() as u8, rng.next() as u8];
    [u16; 5] = |rng| [0; 5].map(|_| rng.next() as u16);
    [u64; 4] = |rng| [0; 4].map(|_| rng.next());
    (u8, u32) = |rng| (rng.next() as u8, rng.next() as u32);
    (u8, u16) = |rng| (rng.next() as u8, rng.next() as u16);
    Aligned = |rng| Aligned(rng.next() as u8);
    Zero = |_rng| Zero;
    Wide = |rng| Wide([0; 9].map(|_| rng.next()), rng.next() as u8);
    Rc<u32> = |rng| Rc::new(rng.next() as u32);
    Box<[u8]> = |rng| (0..rng.below(9)).map(|_| rng.next() as u8).collect();
    std::num::NonZeroU8 = |rng| std::num::NonZeroU8::new(1 + rng.below(255) as u8).unwrap();
    Option<std::num::NonZeroU32> = |rng| std::num::NonZeroU32::new(rng.below(4) as u32);
    fn(u32) -> u32 = |rng| rng.pick(&[double as fn(u32) -> u32, square]);
}
impl Twice for Tracked {
    fn twice(rng: &Rng) -> (Self, Self) {
        let v = rng.next() as u32;
        (tracked(v), tracked(v))
    }
}
impl Twice for Option<Tracked> {
    fn twice(rng: &Rng) -> (Self, Self) {
        if rng.chance(1, 2) {
            let (a, b) = Tracked::twice(rng);
            (Some(a), Some(b))
        } else {
            (None, None)
        }
    }
}
impl Twice for (Tracked, u8) {
    fn twice(rng: &Rng) -> (Self, Self) {
        let (a, b) = Tracked::twice(rng);
        let n = rng.next() as u8;
        ((a, n), (b, n))
    }
}

/// Called by arms
pub fn note(s: String, w: Vec<usize>) {
    NOTES.with(|n| n.borrow_mut().push((s, w)))
}
pub fn notes() -> Vec<(String, Vec<usize>)> {
    NOTES.with(|n| std::mem::take(&mut *n.borrow_mut()))
}
pub fn digest(s: &str) -> u64 {
    rng::hash(s.as_bytes())
}
pub fn compare(what: &str, got: &[(String, Vec<usize>)], want: &[(String, Vec<usize>)], own: &[usize], places: bool) -> Outcome {
    if got.len() != 1 || want.len() != 1 {
        return fail(format!("{}: {} arms ran instead of {}", what, got.len(), want.len()));
    }
    if got[0].0 != want[0].0 {
        return fail(format!("{}: the arm saw {:?} instead of {:?}", what, got[0].0, want[0].0));
    }
    if places && got[0].1 != own {
        return fail(format!("{}: the fields are at {:?} instead of {:?}", what, got[0].1, own));
    }
    Ok(())
}

include!(concat!(env!("OUT_DIR"), "/gen.rs"));

fn c26(cx: &mut Cx) {
    let rng = cx.rng.clone();
    let k = rng.below(CASES.len());
    cx.input(format!("generated enum {} of {}", k, CASES.len()));
    let r = CASES[k](&rng, cx);
    cx.report(r)
}

fn main() {
    let spec = Spec {
        id: "C26",
        rule: "each combination of generated enum, variant, and method counts once",
        assumptions: &["enums and methods of the forms that the macro accepts"],
        quick_cases: 2_000_000,
        quick_secs: 30,
        thorough_secs: 200,
        min_distinct: 200,
        run: c26,
        ..Spec::DEFAULT
    };
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(driver::check(&spec)),
        Some("worker") => driver::worker(&spec, &args[3..]),
        Some("case") => driver::single(&spec, &args[3..]),
        _ => std::process::exit(2),
    }
}
