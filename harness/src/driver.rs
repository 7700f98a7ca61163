//! Case driver: worker processes, journalling, confirmation, evidence.
use crate::alloc;
use crate::rng::{hash, Rng};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Copy, Clone, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Spec {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick_cases: u64,
    pub quick_secs: u64,
    pub thorough_cases: u64,
    pub thorough_secs: u64,
    pub workers: usize,
    /// Threads of the default pool in each worker
    pub pool: usize,
    pub cpu_limit: u64,
    pub mem_cap_mb: usize,
    pub min_distinct: u64,
    pub run: fn(&mut Cx),
}

impl Spec {
    pub const DEFAULT: Spec = Spec {
        id: "",
        level: "exploration",
        rule: "",
        assumptions: &[],
        quick_cases: 20_000,
        quick_secs: 20,
        thorough_cases: 10_000_000,
        thorough_secs: 600,
        workers: 8,
        pool: 2,
        cpu_limit: 30,
        mem_cap_mb: 2048,
        min_distinct: 20,
        run: |_| {},
    };
}

pub struct Failure {
    pub what: String,
    /// Signature that a known finding may list
    pub sig: Option<String>,
}

pub fn fail<T>(what: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { what: what.into(), sig: None })
}

impl From<String> for Failure {
    fn from(what: String) -> Self {
        Failure { what, sig: None }
    }
}

pub type Outcome = Result<(), Failure>;

pub struct Cx {
    pub rng: Rng,
    pub idx: u64,
    pub seed: u64,
    pub tier: Tier,
    input: Vec<u8>,
    dump: Option<PathBuf>,
    counters: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    pub samples: Vec<String>,
    failures: Vec<Failure>,
    evaluations: u64,
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default()
}

impl Cx {
    /// Record the input of the case (before running the code under test on it).
    pub fn input(&mut self, bytes: impl Into<Vec<u8>>) {
        self.input = bytes.into();
        if let Some(path) = &self.dump {
            let _ = fs::write(path, &self.input);
        }
    }
    pub fn count(&mut self, name: &str) {
        self.add(name, 1)
    }
    pub fn add(&mut self, name: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(c) = self.counters.get_mut(name) {
            *c += n
        } else {
            self.counters.insert(name.to_owned(), n);
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let name = format!("max_{}", name);
        let c = self.counters.entry(name).or_insert(0);
        *c = (*c).max(n)
    }
    /// Count the case as non-trivial, identified by these bytes.
    pub fn distinct(&mut self, bytes: &[u8]) {
        if self.hashes.len() < 400_000 {
            self.hashes.insert(hash(bytes));
        }
    }
    pub fn sample(&mut self, text: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(text())
        }
    }
    /// More than one evaluation in this case
    pub fn evaluated(&mut self, n: u64) {
        self.evaluations += n
    }
    /// Failures found so far are judged by other checks
    pub fn forgive(&mut self) {
        self.failures.clear()
    }
    pub fn report(&mut self, outcome: Outcome) {
        if let Err(f) = outcome {
            self.failures.push(f)
        }
    }
}

/// Run code under test; a panic is an Err with its message and place.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Failure> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(Failure { what: format!("{} panicked: {}", what, last_panic()), sig: None }),
    }
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(other payload)".into()
        };
        let place = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        if let Ok(mut last) = LAST_PANIC.lock() {
            *last = msg + &place;
        }
    }));
}

fn process_cpu_ms() -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
        ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
    }
}

/// The limit on CPU time is for what follows
pub fn restart_clock() {
    CASE_WALL.store(u64::MAX, Ordering::SeqCst);
    CASE_CPU.store(process_cpu_ms(), Ordering::SeqCst)
}

pub const CPU_EXIT: i32 = 78;
pub const STALL_EXIT: i32 = 79;
const STALL_SECS: u64 = 150;
static CASE_CPU: AtomicU64 = AtomicU64::new(u64::MAX);
static CASE_WALL: AtomicU64 = AtomicU64::new(u64::MAX);

fn start_watchdog(limit_s: u64) {
    let origin = Instant::now();
    CASE_CPU.store(u64::MAX, Ordering::SeqCst);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let start = CASE_CPU.load(Ordering::SeqCst);
        if start != u64::MAX && process_cpu_ms().saturating_sub(start) > limit_s * 1000 {
            unsafe { libc::_exit(CPU_EXIT) }
        }
        let now = origin.elapsed().as_secs();
        let w = CASE_WALL.load(Ordering::SeqCst);
        if w == u64::MAX {
            CASE_WALL.store(now, Ordering::SeqCst)
        } else if start != u64::MAX && now.saturating_sub(w) > STALL_SECS {
            unsafe { libc::_exit(STALL_EXIT) }
        }
    });
}

fn run_one(spec: &Spec, cx: &mut Cx, idx: u64) {
    cx.idx = idx;
    cx.rng = Rng::new(cx.seed, hash(spec.id.as_bytes()), idx);
    cx.input.clear();
    cx.evaluations += 1;
    CASE_WALL.store(u64::MAX, Ordering::SeqCst);
    let cpu = process_cpu_ms();
    CASE_CPU.store(cpu, Ordering::SeqCst);
    let live = alloc::LIVE.load(Ordering::Relaxed);
    alloc::CAP.store(live.saturating_add(spec.mem_cap_mb << 20), Ordering::Relaxed);
    let result = catch_unwind(AssertUnwindSafe(|| (spec.run)(cx)));
    CASE_CPU.store(u64::MAX, Ordering::SeqCst);
    let took = process_cpu_ms() - cpu;
    if took > 3000 && std::env::var_os("VMON_SLOW").is_some() {
        let _ = fs::OpenOptions::new().create(true).append(true).open("/tmp/vmon-slow.log").map(|mut f| writeln!(f, "{} case {} took {} ms", spec.id, idx, took));
    }
    cx.max("slowest case, CPU ms", took);
    if result.is_err() {
        cx.failures.push(Failure { what: format!("panicked: {}", last_panic()), sig: None })
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn line_esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

fn line_unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn printable(bytes: &[u8]) -> String {
    match std::str::from_utf8(bytes) {
        Ok(s) => s.to_owned(),
        Err(_) => bytes.iter().flat_map(|&b| std::ascii::escape_default(b)).map(|b| b as char).collect(),
    }
}

fn new_cx(seed: u64, tier: Tier, dump: Option<PathBuf>) -> Cx {
    Cx {
        rng: Rng::new(0, 0, 0),
        idx: 0,
        seed,
        tier,
        input: Vec::new(),
        dump,
        counters: BTreeMap::new(),
        hashes: HashSet::new(),
        samples: Vec::new(),
        failures: Vec::new(),
        evaluations: 0,
    }
}

/// args: seed tier start step count secs out journal
pub fn worker(spec: &Spec, args: &[String]) {
    install_panic_hook();
    let n = |i: usize| args[i].parse::<u64>().unwrap();
    let (seed, start, step, count, secs) = (n(0), n(2), n(3), n(4), n(5));
    let tier = if args[1] == "quick" { Tier::Quick } else { Tier::Thorough };
    let mut out = fs::OpenOptions::new().create(true).append(true).open(&args[6]).unwrap();
    let journal = fs::OpenOptions::new().create(true).write(true).open(&args[7]).unwrap();
    let deadline = Instant::now() + Duration::from_secs(secs);
    let mut cx = new_cx(seed, tier, None);
    start_watchdog(spec.cpu_limit);
    let mut idx = start;
    let mut failed = 0;
    // On a slow machine, go on until enough was observed
    let enough = (spec.min_distinct / spec.workers as u64 + 1) as usize;
    let patience = deadline + Duration::from_secs(spec.quick_secs.max(secs) * 4);
    let time_left = |seen: usize| {
        let now = Instant::now();
        now < deadline || (seen < enough && now < patience)
    };
    while idx < count && time_left(cx.hashes.len()) && failed < 3 {
        journal.write_at(&idx.to_le_bytes(), 0).unwrap();
        run_one(spec, &mut cx, idx);
        let mut unknown = false;
        for f in cx.failures.drain(..) {
            let text = format!(
                "F\t{}\t{}\t{}\t{}\n",
                idx,
                f.sig.as_deref().unwrap_or("-"),
                line_esc(&f.what),
                line_esc(&printable(&cx.input))
            );
            unknown |= f.sig.is_none();
            out.write_all(text.as_bytes()).unwrap();
        }
        failed += unknown as u32;
        idx += step;
    }
    let mut text = format!("E\t{}\n", cx.evaluations);
    for (k, v) in &cx.counters {
        let _ = writeln!(text, "C\t{}\t{}", k, v);
    }
    for h in &cx.hashes {
        let _ = writeln!(text, "H\t{:x}", h);
    }
    for s in &cx.samples {
        let _ = writeln!(text, "S\t{}", line_esc(s));
    }
    text.push_str("X\n");
    out.write_all(text.as_bytes()).unwrap();
    out.flush().unwrap();
    // No destructors, no atexit handlers
    unsafe { libc::_exit(0) }
}

/// args: seed tier idx [dump]. Exit 0: held, 3: failed
pub fn single(spec: &Spec, args: &[String]) {
    install_panic_hook();
    let tier = if args[1] == "quick" { Tier::Quick } else { Tier::Thorough };
    let mut cx = new_cx(args[0].parse().unwrap(), tier, args.get(3).map(PathBuf::from));
    start_watchdog(spec.cpu_limit);
    run_one(spec, &mut cx, args[2].parse().unwrap());
    println!("input:\n{}", printable(&cx.input));
    for f in &cx.failures {
        println!("FAILED [{}] {}", f.sig.as_deref().unwrap_or("-"), f.what)
    }
    for (k, v) in &cx.counters {
        println!("{} = {}", k, v)
    }
    for s in &cx.samples {
        println!("sample: {}", s)
    }
    let code = if cx.failures.is_empty() { 0 } else { 3 };
    std::io::stdout().flush().unwrap();
    unsafe { libc::_exit(code) }
}

fn describe(status: std::process::ExitStatus) -> (String, bool) {
    // (text, whether it can be a verdict about the code)
    match (status.code(), status.signal()) {
        (Some(alloc::MEMORY_EXIT), _) => ("memory use grew beyond the cap".into(), true),
        (Some(CPU_EXIT), _) => ("did not terminate within the CPU time limit".into(), true),
        (Some(STALL_EXIT), _) => ("stopped making progress".into(), true),
        (_, Some(libc::SIGKILL)) => ("killed from outside".into(), false),
        (_, Some(libc::SIGTERM)) | (_, Some(libc::SIGINT)) => ("interrupted".into(), false),
        (_, Some(s)) => (format!("process died of signal {}", s), true),
        (Some(c), _) => (format!("process exited with status {}", c), true),
        _ => ("unknown end".into(), false),
    }
}

struct Running {
    child: Child,
    k: u64,
    out: PathBuf,
    journal: PathBuf,
    cap_out: PathBuf,
}

pub struct Report {
    pub idx: u64,
    pub sig: Option<String>,
    pub what: String,
    pub input: String,
}

pub fn check(spec: &Spec) -> i32 {
    let started = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let tier_name = if tier == Tier::Quick { "quick" } else { "thorough" };
    let (mut count, mut secs) = match tier {
        Tier::Quick => (spec.quick_cases, spec.quick_secs),
        Tier::Thorough => (spec.thorough_cases, spec.thorough_secs),
    };
    if let Some(n) = std::env::var("VMON_CASES").ok().and_then(|s| s.parse().ok()) {
        count = n
    }
    if let Some(n) = std::env::var("VMON_SECS").ok().and_then(|s| s.parse().ok()) {
        secs = n
    }
    let root = PathBuf::from(std::env::var("VMON_ROOT").unwrap_or_else(|_| "/verif".into()));
    let scratch = std::env::temp_dir().join(format!("vmon-{}-{}", spec.id, std::process::id()));
    fs::create_dir_all(&scratch).unwrap();
    let exe = std::env::current_exe().unwrap();
    let deadline = started + Duration::from_secs(secs);
    let workers = spec.workers as u64;

    let spawn = |k: u64, start: u64, n: usize| -> Running {
        let out = scratch.join(format!("out-{}-{}", k, n));
        let cap_out = scratch.join(format!("log-{}-{}", k, n));
        let journal = scratch.join(format!("journal-{}-{}", k, n));
        let left = deadline.saturating_duration_since(Instant::now()).as_secs().max(1);
        let log = fs::File::create(&cap_out).unwrap();
        let child = Command::new(&exe)
            .arg("worker")
            .arg(spec.id)
            .args([seed.to_string(), tier_name.into(), start.to_string(), workers.to_string(), count.to_string(), left.to_string()])
            .arg(&out)
            .arg(&journal)
            .env("RAYON_NUM_THREADS", spec.pool.to_string())
            .env("VMON_SCRATCH", &scratch)
            .stdin(Stdio::null())
            .stdout(log.try_clone().unwrap())
            .stderr(log)
            .spawn()
            .unwrap();
        Running { child, k, out, journal, cap_out }
    };

    let mut running: Vec<Running> = (0..workers).map(|k| spawn(k, k, 0)).collect();
    let mut outs: Vec<PathBuf> = running.iter().map(|r| r.out.clone()).collect();
    let mut reports: Vec<Report> = Vec::new();
    let mut inconclusive: Vec<String> = Vec::new();
    let mut deaths = 0;
    let mut harness_error = None;
    while !running.is_empty() {
        let mut i = 0;
        let mut progressed = false;
        while i < running.len() && reports.len() < 2 {
            let status = match running[i].child.try_wait().unwrap() {
                None => {
                    i += 1;
                    continue;
                }
                Some(s) => s,
            };
            progressed = true;
            let r = running.swap_remove(i);
            if status.success() {
                continue;
            }
            deaths += 1;
            let mut buf = [0u8; 8];
            let idx = match fs::File::open(&r.journal).and_then(|f| f.read_exact_at(&mut buf, 0)) {
                Ok(()) => u64::from_le_bytes(buf),
                Err(_) => {
                    harness_error = Some(format!("worker died before its first case: {}", fs::read_to_string(&r.cap_out).unwrap_or_default()));
                    continue;
                }
            };
            let (text, verdict) = describe(status);
            let log = fs::read_to_string(&r.cap_out).unwrap_or_default();
            // Confirm alone
            let dump = scratch.join("dump");
            let mut confirmed = None;
            if verdict {
                for _ in 0..3 {
                    let _ = fs::remove_file(&dump);
                    let o = Command::new(&exe)
                        .arg("case")
                        .arg(spec.id)
                        .args([seed.to_string(), tier_name.into(), idx.to_string()])
                        .arg(&dump)
                        .env("RAYON_NUM_THREADS", spec.pool.to_string())
                        .env("VMON_SCRATCH", &scratch)
                        .output()
                        .unwrap();
                    let (t, v) = describe(o.status);
                    let failed = !o.status.success() && v;
                    if failed {
                        let t = if o.status.code() == Some(3) {
                            String::from_utf8_lossy(&o.stdout).lines().filter(|l| l.starts_with("FAILED")).collect::<Vec<_>>().join("; ")
                        } else {
                            format!("{} {}", t, String::from_utf8_lossy(&o.stderr).chars().take(3000).collect::<String>())
                        };
                        confirmed = Some(t);
                        break;
                    }
                }
            }
            match confirmed {
                Some(t) => {
                    // Signature of a fatal end, set by the case through the dump header
                    let input = fs::read(&dump).unwrap_or_default();
                    reports.push(Report { idx, sig: None, what: t, input: printable(&input) })
                }
                None => inconclusive.push(format!("case {}: {} (not reproduced alone) {}", idx, text, log.chars().take(400).collect::<String>())),
            }
            if deaths < 12 && reports.len() < 2 && Instant::now() < deadline {
                let n = spawn(r.k, idx + workers, deaths);
                outs.push(n.out.clone());
                running.push(n);
            }
        }
        if reports.len() >= 2 {
            // Enough for a verdict
            for r in &mut running {
                let _ = r.child.kill();
                let _ = r.child.wait();
            }
            running.clear();
        }
        if !progressed {
            std::thread::sleep(Duration::from_millis(20));
        }
    }

    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut evaluations = 0u64;
    for out in &outs {
        for line in fs::read_to_string(out).unwrap_or_default().lines() {
            let f: Vec<&str> = line.split('\t').collect();
            match f[0] {
                "E" => evaluations += f[1].parse::<u64>().unwrap(),
                "C" => {
                    let v: u64 = f[2].parse().unwrap();
                    let c = counters.entry(f[1].to_owned()).or_insert(0);
                    if f[1].starts_with("max_") {
                        *c = (*c).max(v)
                    } else {
                        *c += v
                    }
                }
                "H" => {
                    hashes.insert(f[1].to_owned());
                }
                "S" => samples.push(line_unesc(f[1])),
                "F" => reports.push(Report {
                    idx: f[1].parse().unwrap(),
                    sig: Some(f[2].to_owned()).filter(|s| s != "-"),
                    what: line_unesc(f[3]),
                    input: line_unesc(f[4]),
                }),
                _ => {}
            }
        }
    }
    let _ = fs::remove_dir_all(&scratch);
    samples.truncate(6);

    // Known findings
    let known = fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let known: Vec<(String, String)> = known
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let rest = l.strip_prefix(&format!("property={} ", spec.id))?;
            let rest = rest.strip_prefix("sig=")?;
            let (sig, text) = rest.split_once(' ').unwrap_or((rest, ""));
            Some((sig.to_owned(), text.to_owned()))
        })
        .collect();
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut violations: Vec<Report> = Vec::new();
    for r in reports {
        match r.sig.as_ref().and_then(|s| known.iter().find(|k| k.0 == *s)) {
            Some(k) => *known_hit.entry(format!("{} {}", k.0, k.1)).or_insert(0) += 1,
            None => violations.push(r),
        }
    }
    violations.sort_by_key(|r| (r.input.len(), r.idx));
    for (k, n) in &known_hit {
        println!("KNOWN-FINDING: property={} {} (seen {} times)", spec.id, k, n)
    }

    // Evidence
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"{}\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}]",
        spec.id,
        tier_name,
        seed,
        spec.level,
        evaluations,
        hashes.len(),
        esc(spec.rule),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        j,
        ",\"observed\":{{{}}}",
        counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(j, ",\"inconclusive\":[{}]", inconclusive.iter().take(5).map(|s| esc(s)).collect::<Vec<_>>().join(","));
    let _ = write!(
        j,
        ",\"known_findings_seen\":[{}]}}",
        known_hit.keys().map(|s| esc(s)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        j,
        ",\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        spec.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        started.elapsed().as_secs_f64(),
        violations.len()
    );
    let _ = fs::create_dir_all(root.join("evidence"));
    fs::write(root.join("evidence").join(format!("{}.json", spec.id)), j).unwrap();

    println!(
        "{}: {} evaluations, {} distinct non-trivial, {:.1}s, {} violation(s), {} inconclusive",
        spec.id,
        evaluations,
        hashes.len(),
        started.elapsed().as_secs_f64(),
        violations.len(),
        inconclusive.len()
    );
    for (k, v) in &counters {
        println!("  {} = {}", k, v)
    }
    for s in &inconclusive {
        println!("  inconclusive: {}", s)
    }
    if let Some(first) = violations.first() {
        let dir = root.join("replay");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.txt", spec.id, seed, first.idx));
        write_replay(&path, spec, seed, tier_name, &violations);
        for v in violations.iter().take(3) {
            println!("  case {}: {}", v.idx, v.what.chars().take(1500).collect::<String>());
            println!("    input: {}", v.input.chars().take(1500).collect::<String>());
        }
        println!("VIOLATION property={} replay={}", spec.id, path.display());
        return 1;
    }
    if let Some(e) = harness_error {
        eprintln!("harness error: {}", e);
        return 2;
    }
    if (hashes.len() as u64) < spec.min_distinct {
        eprintln!("inconclusive: only {} distinct non-trivial cases were observed", hashes.len());
        return 2;
    }
    0
}

fn write_replay(path: &Path, spec: &Spec, seed: u64, tier: &str, violations: &[Report]) {
    let mut text = String::new();
    for v in violations.iter().take(5) {
        let _ = writeln!(
            text,
            "property {}\nreplay with: /verif/check.sh {} --case {} {} {}\nwhat: {}\ninput:\n{}\n----",
            spec.id, spec.id, seed, tier, v.idx, v.what, v.input
        );
    }
    let _ = fs::write(path, text);
}
