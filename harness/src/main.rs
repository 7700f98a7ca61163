mod alloc;
mod checks;
mod css;
mod dom;
mod driver;
mod gen;
#[cfg_attr(not(feature = "native"), path = "interpose_stub.rs")]
mod interpose;
mod judge;
mod layout;
mod pdf;
mod rng;
mod soup;
mod ttf;

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: vmon check ID | worker ID … | case ID SEED TIER INDEX [DUMP] | list");
        std::process::exit(2)
    };
    if args.len() < 2 {
        usage()
    }
    let specs = checks::all();
    if args[1] == "list" {
        for s in &specs {
            println!("{}", s.id)
        }
        return;
    }
    if args[1] == "show" {
        // Developer’s view of what is painted
        let bytes = std::fs::read(&args[2]).unwrap();
        let pdf = if args[2].ends_with("xml") { victor::dom::Document::parse_xml(&bytes).unwrap().to_pdf_bytes() } else { victor::dom::Document::parse_html(&bytes).to_pdf_bytes() };
        for m in judge::actual(&judge::display(&pdf).ok().unwrap()) {
            println!("{}", judge::show(Some(&m)))
        }
        return;
    }
    let spec = match args.get(2).and_then(|id| specs.iter().find(|s| s.id == *id)) {
        Some(s) => s,
        None => usage(),
    };
    match args[1].as_str() {
        "check" => std::process::exit(driver::check(spec)),
        "worker" => driver::worker(spec, &args[3..]),
        "case" => driver::single(spec, &args[3..]),
        _ => usage(),
    }
}
