//! Runtime of a shard program: reporting, progress for crash attribution, watchdog.
use crate::corpus;
use crate::json;
use crate::ops::TypeOps;
use crate::rng::fnv;
use crate::spec::Env;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub struct ShardSpec {
    pub id: usize,
    pub origin: &'static str,
    pub ops: &'static [TypeOps],
}

/// What is running now, for attribution of a crash or a hang.
static CASE: Mutex<String> = Mutex::new(String::new());
static TICK: AtomicU64 = AtomicU64::new(0);
static PROGRESS: Mutex<Option<std::fs::File>> = Mutex::new(None);

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    out: std::fs::File,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: usize,
    pub known: BTreeMap<String, String>,
    pub spec: String,
    pub spec_hash: u64,
    pub ty: String,
    /// Scales the number of random cases.
    pub scale: usize,
    /// This process observes the types whose running number is k modulo n.
    pub part: (usize, usize),
    /// The largest in-memory size of a type of this specification.
    pub big: usize,
    /// Input bytes of the cases of the current type.
    pub spent: usize,
    pub number: usize,
    /// Decodes of this specification to be repeated.
    pub kept: Vec<crate::work::Kept>,
}

impl Ctx {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    /// One execution of the code under test on `input`.
    pub fn eval(&mut self, nontrivial: bool, input: &[u8]) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < 4_000_000 {
            self.distinct.insert(fnv(&[&self.spec_hash.to_le_bytes(), self.ty.as_bytes(), input]));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 && self.evals % 7 == 3 {
            let s = f();
            self.samples.push(format!("spec {} type {}: {}", self.spec, self.ty, s));
        }
    }
    pub fn violation(&mut self, what: &str, input: &[u8], detail: &str) {
        self.violations += 1;
        if self.violations > 12 {
            return;
        }
        let hex = crate::value::hex(&input[..input.len().min(8192)]);
        let o = json::obj(&[
            ("kind", json::s("violation")),
            ("origin", json::s(&self.spec)),
            ("type", json::s(&self.ty)),
            ("what", json::s(what)),
            ("detail", json::s(detail)),
            ("input_len", input.len().to_string()),
            ("input_hex", json::s(&hex)),
        ]);
        let _ = writeln!(self.out, "{}", o);
    }
    pub fn known(&mut self, id: &str, what: &str) {
        self.known.entry(id.to_string()).or_insert_with(|| what.to_string());
    }
    /// Announces a case; cheap unless `input` is large.
    pub fn case(&mut self, what: &str, input: &[u8]) {
        TICK.fetch_add(1, Ordering::Relaxed);
        self.spent += input.len();
        let hex = crate::value::hex(&input[..input.len().min(2048)]);
        let mut g = CASE.lock().unwrap();
        g.clear();
        g.push_str(&self.spec);
        g.push('|');
        g.push_str(&self.ty);
        g.push('|');
        g.push_str(what);
        g.push('|');
        g.push_str(&format!("{}|{}", input.len(), hex));
        if let Some(f) = PROGRESS.lock().unwrap().as_mut() {
            use std::os::unix::fs::FileExt;
            let s = format!("{:08}{}", g.len(), *g);
            let _ = f.write_all_at(s.as_bytes(), 0);
        }
    }
    pub fn tick(&self) {
        TICK.fetch_add(1, Ordering::Relaxed);
    }
}

/// Where the last panic came from, reported when it was the monitor's own.
static LAST_PANIC: Mutex<Option<(String, u32, String)>> = Mutex::new(None);

/// Called inside the allocator: a single request far beyond any bound.
pub fn memory_violation(n: usize) -> ! {
    eprintln!("MEMORY: a single request of {} bytes during a decode call", n);
    std::process::exit(77);
}

/// CPU time of this process in seconds.
pub fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let s = s.rsplit(')').next().unwrap_or("").split_whitespace().collect::<Vec<_>>();
    let t = |i: usize| s.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

pub fn main(specs: &'static [ShardSpec]) {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = get("--prop").expect("--prop");
    let out = get("--out").expect("--out");
    let part: Vec<usize> = get("--part").unwrap_or("0/1".into()).split('/').map(|x| x.parse().unwrap()).collect();
    if let Some(p) = get("--progress") {
        *PROGRESS.lock().unwrap() = std::fs::File::create(p).ok();
    }
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut l) = LAST_PANIC.try_lock() {
            *l = i.location().map(|l| (l.file().to_string(), l.line(), i.to_string()));
        }
    }));
    let mut ctx = Ctx {
        prop: prop.clone(),
        thorough: get("--tier").map(|t| t == "thorough").unwrap_or(false),
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        out: std::fs::File::create(&out).expect("out"),
        evals: 0,
        distinct: HashSet::new(),
        counts: BTreeMap::new(),
        samples: vec![],
        violations: 0,
        known: BTreeMap::new(),
        spec: String::new(),
        spec_hash: 0,
        ty: String::new(),
        scale: get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1),
        part: (0, 1),
        number: 0,
        big: 0,
        spent: 0,
        kept: vec![],
    };
    // Watchdog: the same case for a very long CPU time does not terminate.
    std::thread::spawn(|| {
        let mut last = (TICK.load(Ordering::Relaxed), cpu());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let t = TICK.load(Ordering::Relaxed);
            if t != last.0 {
                last = (t, cpu());
            } else if cpu() - last.1 > 60.0 {
                eprintln!("HANG: one case used more than 60 s of CPU time");
                std::process::exit(78);
            }
        }
    });
    let t = std::thread::Builder::new()
        .stack_size(if prop == "KF4" { 8 << 20 } else { 2 << 30 })
        .spawn(move || {
            ctx.part = (part[0], part[1]);
            for s in specs {
                ctx.spec = s.origin.to_string();
                let text = corpus::text(s.origin);
                ctx.spec_hash = fnv(&[text.as_bytes()]);
                let env = Env::new(corpus::origin(s.origin));
                if part[0] == 0 {
                    ctx.count("specs", 1);
                    ctx.count("types", s.ops.len() as u64);
                }
                crate::work::run(&mut ctx, &env, s);
                if ctx.violations > 12 {
                    break;
                }
            }
            let counts: Vec<String> = ctx.counts.iter().map(|(k, v)| format!("{}: {}", json::s(k), v)).collect();
            let known: Vec<String> = ctx.known.iter().map(|(k, v)| format!("{}: {}", json::s(k), json::s(v))).collect();
            let o = json::obj(&[
                ("kind", json::s("stats")),
                ("evals", ctx.evals.to_string()),
                ("distinct", ctx.distinct.len().to_string()),
                ("violations", ctx.violations.to_string()),
                ("counts", format!("{{{}}}", counts.join(", "))),
                ("known", format!("{{{}}}", known.join(", "))),
                ("samples", json::arr(&ctx.samples.iter().map(|s| json::s(s)).collect::<Vec<_>>())),
            ]);
            writeln!(ctx.out, "{}", o).unwrap();
            ctx.out.flush().unwrap();
            // Skip destructors.
            std::process::exit(0);
        })
        .expect("thread");
    let _ = t.join();
    // Only reached when the monitor itself panicked.
    eprintln!("MONITOR PANIC {:?}", LAST_PANIC.lock().map(|l| l.clone()));
    std::process::exit(79);
}
