//! Generate enums for Victor’s macro, each next to an ordinary enum with ordinary matches.
use std::fmt::Write;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
}

const FIELDS: &[&str] = &[
    "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "usize", "f32", "f64", "bool", "char", "()", "String", "Vec<u16>",
    "&'static str", "Option<Box<u32>>", "[u8; 3]", "[u16; 5]", "(u8, u32)", "Aligned", "Zero", "Tracked", "std::rc::Rc<u32>", "Option<Tracked>",
    "Box<[u8]>", "(Tracked, u8)", "std::num::NonZeroU8", "Wide", "Option<std::num::NonZeroU32>", "fn(u32) -> u32",
];
const ARGS: &[&str] = &["u8", "u64", "String", "&str", "Vec<u8>", "(u8, u16)", "&mut Vec<String>", "Tracked", "Aligned", "&[u16]", "bool", "[u64; 4]", "&Tracked", "&mut u32"];

fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_SEED");
    println!("cargo:rerun-if-env-changed=VERIF_TIER");
    println!("cargo:rerun-if-changed=build.rs");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let count = if thorough { 240 } else { 48 };
    let mut rng = Rng(seed.wrapping_mul(0x5851_F42D_4C95_7F2D));
    let mut out = String::new();
    for e in 0..count {
        one(&mut rng, e, &mut out)
    }
    let _ = writeln!(out, "pub const CASES: &[fn(&Rng, &mut Cx) -> Outcome] = &[");
    for e in 0..count {
        let _ = writeln!(out, "    e{}::case,", e);
    }
    let _ = writeln!(out, "];");
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("gen.rs"), out).unwrap();
}

struct Method {
    name: String,
    vis: &'static str,
    args: Vec<&'static str>,
    ret: usize,
}

fn one(rng: &mut Rng, e: usize, out: &mut String) {
    let repr = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"][if e < 8 { e } else { rng.below(8) }];
    let variants = match e {
        0 => 256,
        1 => 128,
        2 => 300,
        4 => 150,
        _ => match rng.below(8) {
            0 => 1,
            1 => 20 + rng.below(20),
            _ => 2 + rng.below(8),
        },
    };
    let large = variants > 60;
    let fields: Vec<Vec<&str>> = (0..variants)
        .map(|_| {
            let n = if large { rng.pick(&[0, 0, 0, 1, 2]) } else { rng.pick(&[0, 1, 1, 2, 3, 6]) };
            (0..n).map(|_| rng.pick(FIELDS)).collect()
        })
        .collect();
    let methods: Vec<Method> = (0..if large { 1 } else { rng.pick(&[1, 2, 3, 5]) })
        .map(|m| {
            let ret = rng.below(4);
            Method {
                name: format!("m{}", m),
                vis: rng.pick(&["", "pub", "pub(crate)", "pub(super)"]),
                args: (0..rng.pick(&[0, 1, 2, 4]))
                    .map(|_| rng.pick(ARGS))
                    // A borrowed result takes the lifetime of self, if nothing else has one
                    .filter(|a| ret != 3 || !a.starts_with('&'))
                    .collect(),
                ret,
            }
        })
        .collect();
    let vname = |i: usize| format!("V{}", i);
    let _ = writeln!(out, "pub mod e{} {{ use super::*;", e);
    // The two enums
    let comma = if rng.chance(1, 2) { "," } else { "" };
    let evis = rng.pick(&["pub", "", "pub(crate)"]);
    let mut decl = String::new();
    for (i, f) in fields.iter().enumerate() {
        let _ = write!(decl, "{}", vname(i));
        if !f.is_empty() {
            let _ = write!(decl, "({}{})", f.join(", "), if comma == "," { "," } else { "" });
        }
        let _ = write!(decl, "{}\n", if i + 1 < variants { "," } else { comma });
    }
    let body = |enum_name: &str, m: &Method, as_macro: bool, out: &mut String| {
        let args: Vec<String> = m.args.iter().enumerate().map(|(i, a)| format!(", a{}: {}", i, a)).collect();
        let ret = ["", " -> u64", " -> (String, Vec<usize>)", " -> &dyn Show"][m.ret];
        let trailing = if as_macro && comma == "," && !args.is_empty() { "," } else { "" };
        let _ = writeln!(out, "{} fn {}(&self{}{}){} {{ match *self {{", m.vis, m.name, args.concat(), trailing, ret);
        for (i, f) in fields.iter().enumerate() {
            let refs: Vec<String> = (0..f.len()).map(|k| format!("ref f{}", k)).collect();
            let pat = if f.is_empty() { String::new() } else { format!("({}{})", refs.join(", "), if as_macro { comma } else { "" }) };
            let _ = write!(out, "{}::{}{} => {{ ", enum_name, vname(i), pat);
            // What the arm sees
            let _ = write!(out, "let mut s = String::from(\"{}.{}\"); #[allow(unused_mut)] let mut w: Vec<usize> = Vec::new(); ", m.name, i);
            for k in 0..f.len() {
                let _ = write!(out, "f{}.show(&mut s); w.push(f{} as *const _ as *const u8 as usize); ", k, k);
            }
            for (k, a) in m.args.iter().enumerate() {
                // Not every arm uses every argument
                if (i + k) % 5 == 4 {
                    continue;
                }
                match *a {
                    "&mut Vec<String>" => {
                        let _ = write!(out, "a{}.push(s.clone()); ", k);
                    }
                    "&mut u32" => {
                        let _ = write!(out, "*a{} = a{}.wrapping_mul(31).wrapping_add({}); ", k, k, i);
                    }
                    _ => {
                        let _ = write!(out, "a{}.show(&mut s); ", k);
                    }
                }
            }
            let _ = match m.ret {
                0 => write!(out, "note(s, w); "),
                1 => write!(out, "let n = digest(&s); note(s, w); n "),
                2 if i % 3 == 0 => write!(out, "note(s.clone(), Vec::new()); return (s, w); "),
                2 => write!(out, "note(s.clone(), Vec::new()); (s, w) "),
                _ => {
                    if f.is_empty() {
                        write!(out, "note(s, w); &() ")
                    } else {
                        write!(out, "note(s, w); f{} ", i % f.len())
                    }
                }
            };
            let _ = writeln!(out, "}}");
        }
        let _ = writeln!(out, "}} }}");
    };
    let doc = if rng.chance(1, 2) { "#[allow(dead_code)]\n/// Generated\n" } else { "" };
    let _ = writeln!(out, "tagged_union_with_jump_tables! {{\n#[repr({})]\n{}{} enum E {{ {} }}", repr, doc, evis, decl);
    for m in &methods {
        body("E", m, true, out);
    }
    let _ = writeln!(out, "}}");
    let _ = writeln!(out, "#[allow(dead_code)] enum O {{ {} }}\nimpl O {{", decl);
    for m in &methods {
        body("O", m, false, out);
    }
    let _ = writeln!(out, "}}");
    // Addresses of the fields of the macro’s enum, by the compiler’s own match
    let _ = writeln!(out, "fn addresses(e: &E) -> Vec<usize> {{ match e {{");
    for (i, f) in fields.iter().enumerate() {
        let refs: Vec<String> = (0..f.len()).map(|k| format!("f{}", k)).collect();
        let pat = if f.is_empty() { String::new() } else { format!("({})", refs.join(", ")) };
        let ads: Vec<String> = refs.iter().map(|f| format!("{} as *const _ as *const u8 as usize", f)).collect();
        let _ = writeln!(out, "E::{}{} => vec![{}],", vname(i), pat, ads.join(", "));
    }
    let _ = writeln!(out, "}} }}");
    // The same value twice
    let _ = writeln!(out, "fn make(v: usize, rng: &Rng) -> (E, O) {{ match v {{");
    for (i, f) in fields.iter().enumerate() {
        if f.is_empty() {
            let _ = writeln!(out, "{} => (E::{}, O::{}),", i, vname(i), vname(i));
        } else {
            let names: Vec<String> = (0..f.len()).map(|k| format!("f{}", k)).collect();
            let lets: String = f.iter().enumerate().map(|(k, t)| format!("let f{}: ({}, {}) = twice(rng); ", k, t, t)).collect();
            let a: Vec<String> = names.iter().map(|n| format!("{}.0", n)).collect();
            let b: Vec<String> = names.iter().map(|n| format!("{}.1", n)).collect();
            let _ = writeln!(out, "{} => {{ {} (E::{}({}), O::{}({})) }},", i, lets, vname(i), a.join(", "), vname(i), b.join(", "));
        }
    }
    let _ = writeln!(out, "_ => unreachable!() }} }}");
    // Calls
    let _ = writeln!(out, "pub fn case(rng: &Rng, cx: &mut Cx) -> Outcome {{");
    let _ = writeln!(out, "let v = rng.below({}); let (e, o) = make(v, rng); let own = addresses(&e);", variants);
    let _ = writeln!(out, "let what = |m: &str| format!(\"enum {} ({}, {} variants) variant {{}} method {{}}\", v, m);", e, repr, variants);
    for m in &methods {
        let _ = writeln!(out, "{{ let what = what(\"{}({})\");", m.name, m.args.join(", ").replace('"', ""));
        let mut pass_e = Vec::new();
        let mut pass_o = Vec::new();
        let mut after = String::new();
        for (k, a) in m.args.iter().enumerate() {
            let owned = match *a {
                "&str" => "String",
                "&mut Vec<String>" => "Vec<String>",
                "&[u16]" => "Vec<u16>",
                "&Tracked" => "Tracked",
                "&mut u32" => "u32",
                a => a,
            };
            let mutable = a.starts_with("&mut");
            let _ = writeln!(out, "#[allow(unused_mut)] let (mut x{}, mut y{}): ({}, {}) = twice(rng);", k, k, owned, owned);
            let p = if mutable {
                "&mut "
            } else if a.starts_with('&') {
                "&"
            } else {
                ""
            };
            pass_e.push(format!("{}x{}", p, k));
            pass_o.push(format!("{}y{}", p, k));
            if mutable {
                let _ = write!(after, "if x{} != y{} {{ return fail(format!(\"{{}}: argument {} became {{:?}} instead of {{:?}}\", what, x{}, y{})); }}", k, k, k, k, k);
            }
        }
        let _ = writeln!(out, "let _ = notes();");
        let _ = writeln!(out, "let r = guard(&what, || e.{}({}))?; let got = notes();", m.name, pass_e.join(", "));
        let _ = writeln!(out, "let q = o.{}({}); let want = notes();", m.name, pass_o.join(", "));
        let _ = writeln!(
            out,
            "{}",
            match m.ret {
                0 => "let _: ((), ()) = (r, q);",
                1 => "if r != q { return fail(format!(\"{}: returned {} instead of {}\", what, r, q)); }",
                2 => "if r.0 != q.0 { return fail(format!(\"{}: returned {} instead of {}\", what, r.0, q.0)); } if r.1 != own { return fail(format!(\"{}: the fields are at {:?} instead of {:?}\", what, r.1, own)); }",
                _ => "{ let (mut a, mut b) = (String::new(), String::new()); r.show(&mut a); q.show(&mut b); if a != b { return fail(format!(\"{}: returned {} instead of {}\", what, a, b)); } if !own.is_empty() && !own.contains(&(r as *const dyn Show as *const u8 as usize)) { return fail(format!(\"{}: returned a reference to something else\", what)); } }",
            }
        );
        let _ = writeln!(out, "compare(&what, &got, &want, &own, {})?; {}", m.ret != 2, after);
        let _ = writeln!(out, "cx.count(\"calls compared\"); cx.distinct(what.as_bytes()); cx.evaluated(1); cx.sample(|| format!(\"{{}}: {{:?}}\", what, got)); }}");
    }
    let _ = writeln!(out, "cx.count(\"values with repr({})\"); drop((e, o)); balanced()\n}}\n}}", repr);
}
