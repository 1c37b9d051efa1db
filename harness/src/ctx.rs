//! Verdict bookkeeping: what was observed, what went wrong, and how to reproduce it.
use crate::rng::{Rng, mix};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

/// The case under way (number, description), for the watchdog.
static NOW: Mutex<(u64, String)> = Mutex::new((0, String::new()));

/// Processor time used by this process, in seconds.
fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

/// Cases take milliseconds; one that burns this much processor time isn't going to end.
fn watchdog(out: String, limit: f64) {
    std::thread::spawn(move || {
        let (mut case, mut since) = (0, cpu());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = NOW.lock().map(|g| g.clone()).unwrap_or_default();
            let c = cpu();
            if now.0 != case {
                (case, since) = (now.0, c);
            } else if c - since > limit && now.0 != 0 {
                let msg = format!("did not end within {limit} s of processor time");
                let s = format!(
                    "{{\"evaluations\":1,\"complete\":false,\"counts\":{{}},\"distinct\":[],\"samples\":[],\"known\":{{}},\"violations\":[{{\"case\":{},\"desc\":{},\"msg\":{}}}]}}",
                    now.0,
                    js(&now.1),
                    js(&msg)
                );
                let _ = std::fs::write(&out, s);
                std::process::exit(0);
            }
        }
    });
}

thread_local! {
    /// When set, panics on this thread are expected by the monitor and are not echoed.
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// A violation of the property, as seen by a monitor.
pub struct Violation {
    pub case: u64,
    pub desc: String,
    pub msg: String,
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub shard: u64,
    pub shards: u64,
    pub only_case: Option<u64>,
    pub rng: Rng,
    pub evaluations: u64,
    pub case_no: u64,
    pub desc: String,
    counts: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, String>,
    start: Instant,
    budget: Duration,
    out: Option<String>,
    case_log: Option<std::fs::File>,
    scale: f64,
}

/// Panic payload used to leave a case early after a violation has been recorded.
pub struct Stop;

impl Ctx {
    /// `--seed S --tier quick|thorough --shard i/n --out FILE [--case N] [--scale F]`
    pub fn from_args() -> Self {
        let mut a = std::env::args().skip(1);
        let mut seed = 1;
        let mut thorough = false;
        let (mut shard, mut shards) = (0, 1);
        let mut out = None;
        let mut only_case = None;
        let mut scale = 1.0;
        let mut budget = 600;
        while let Some(x) = a.next() {
            let mut v = || a.next().expect("argument value");
            match x.as_str() {
                "--seed" => seed = v().parse().unwrap(),
                "--tier" => thorough = v() == "thorough",
                "--shard" => {
                    let s = v();
                    let (i, n) = s.split_once('/').unwrap();
                    shard = i.parse().unwrap();
                    shards = n.parse().unwrap();
                }
                "--out" => out = Some(v()),
                "--case" => only_case = Some(v().parse().unwrap()),
                "--scale" => scale = v().parse().unwrap(),
                "--budget" => budget = v().parse().unwrap(),
                _ => panic!("unknown argument {x}"),
            }
        }
        if thorough {
            scale *= 8.0;
        }
        std::panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                (*s).to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                return;
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if let Ok(mut g) = LAST_PANIC.lock() {
                *g = format!("{msg} at {loc}");
            }
            if msg.contains("unsafe precondition") || msg.contains("cannot unwind") || msg.contains("panic in a") {
                eprintln!("fatal: {msg} at {loc}");
            }
        }));
        if let Some(o) = out.as_ref().filter(|_| !cfg!(miri)) {
            watchdog(o.clone(), if thorough { 300.0 } else { 60.0 });
        }
        let case_log = out.as_ref().and_then(|o| std::fs::File::create(format!("{o}.case")).ok());
        Self {
            seed,
            thorough,
            shard,
            shards,
            only_case,
            rng: Rng::new(mix(seed, shard)),
            evaluations: 0,
            case_no: 0,
            desc: String::new(),
            counts: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            violations: vec![],
            known: BTreeMap::new(),
            start: Instant::now(),
            budget: Duration::from_secs(budget),
            out,
            case_log,
            scale,
        }
    }

    /// A context for use outside of a check binary (Miri, generated programs).
    pub fn simple(seed: u64) -> Self {
        let mut c = Self {
            seed,
            thorough: false,
            shard: 0,
            shards: 1,
            only_case: None,
            rng: Rng::new(seed),
            evaluations: 0,
            case_no: 0,
            desc: String::new(),
            counts: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            violations: vec![],
            known: BTreeMap::new(),
            start: Instant::now(),
            budget: Duration::from_secs(100_000),
            out: None,
            case_log: None,
            scale: 1.0,
        };
        c.desc = "simple".into();
        c
    }

    /// Number of iterations to do, given the number wanted in the quick tier over all shards.
    pub fn n(&self, quick: u64) -> u64 {
        (((quick as f64) * self.scale / self.shards as f64).ceil() as u64).max(1)
    }

    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.budget
    }

    /// Runs one case that describes itself.
    pub fn run(&mut self, f: impl FnOnce(&mut Ctx)) {
        self.case(|_| String::new(), f);
    }

    /// Runs one case in isolation: an unexpected panic is a violation.
    pub fn case(&mut self, desc: impl FnOnce(&mut Rng) -> String, f: impl FnOnce(&mut Ctx)) {
        self.case_no += 1;
        let no = self.case_no * self.shards + self.shard;
        if self.only_case.is_some_and(|c| c != no) || self.violations.len() >= 5 || self.out_of_time() {
            return;
        }
        self.rng = Rng::new(mix(mix(self.seed, 0x5eed), no));
        self.desc = desc(&mut self.rng);
        self.evaluations += 1;
        let d = std::mem::take(&mut self.desc);
        self.describe(d);
        let before = self.violations.len();
        let began = Instant::now();
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        if std::env::var_os("FZMON_TIMES").is_some() {
            eprintln!("{:?} {}", began.elapsed(), self.desc);
        }
        if let Err(p) = r {
            if p.downcast_ref::<Stop>().is_none() && self.violations.len() == before {
                let m = LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default();
                self.violate(format!("unexpected panic: {m}"));
            }
        }
    }

    /// Says what the current case is, in the result and in the log that survives a crash.
    pub fn describe(&mut self, d: String) {
        let no = self.case_no * self.shards + self.shard;
        if let Ok(mut g) = NOW.lock() {
            *g = (no, d.clone());
        }
        if let Some(l) = &mut self.case_log {
            use std::io::Seek as _;
            let _ = l.rewind();
            let _ = l.set_len(0);
            let _ = writeln!(l, "{no} {d}");
        }
        self.desc = d;
    }

    /// Counts events observed by a monitor.
    pub fn ev(&mut self, what: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(what) {
            *c += n;
        } else {
            self.counts.insert(what.to_string(), n);
        }
    }

    pub fn desc(&self) -> &str {
        &self.desc
    }

    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }

    pub fn count(&self, what: &str) -> u64 {
        self.counts.get(what).copied().unwrap_or(0)
    }

    /// Records the fingerprint of a non-trivial situation.
    pub fn distinct(&mut self, h: u64) {
        self.distinct.insert(h);
    }

    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            let mut s = s();
            if s.len() > 600 {
                let mut e = 600;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }

    fn violate(&mut self, msg: String) {
        let no = self.case_no * self.shards + self.shard;
        eprintln!("violation in case {no} [{}]: {msg}", self.desc);
        self.violations.push(Violation {
            case: no,
            desc: self.desc.clone(),
            msg,
        });
    }

    /// Records a defect that the known-findings file lists; the runner compares.
    pub fn finding(&mut self, id: &str, what: String) {
        self.known.insert(id.to_string(), what);
    }

    /// Records a violation and leaves the current case.
    #[track_caller]
    pub fn fail(&mut self, msg: String) -> ! {
        self.violate(msg);
        QUIET.set(true);
        std::panic::resume_unwind(Box::new(Stop));
    }

    #[track_caller]
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            let m = msg();
            self.fail(m);
        }
    }

    /// Writes the result and exits: 0 when done (the verdict is in the file).
    pub fn finish(self) -> ! {
        let mut s = String::new();
        s.push('{');
        let _ = write!(s, "\"evaluations\":{},\"complete\":{},", self.evaluations, !self.out_of_time());
        let _ = write!(s, "\"counts\":{{");
        for (i, (k, v)) in self.counts.iter().enumerate() {
            let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), v);
        }
        let _ = write!(s, "}},\"distinct\":[");
        for (i, d) in self.distinct.iter().enumerate() {
            let _ = write!(s, "{}\"{:x}\"", if i > 0 { "," } else { "" }, d);
        }
        let _ = write!(s, "],\"samples\":[");
        for (i, d) in self.samples.iter().enumerate() {
            let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, js(d));
        }
        let _ = write!(s, "],\"known\":{{");
        for (i, (k, v)) in self.known.iter().enumerate() {
            let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), js(v));
        }
        let _ = write!(s, "}},\"violations\":[");
        for (i, v) in self.violations.iter().enumerate() {
            let _ = write!(
                s,
                "{}{{\"case\":{},\"desc\":{},\"msg\":{}}}",
                if i > 0 { "," } else { "" },
                v.case,
                js(&v.desc),
                js(&v.msg)
            );
        }
        s.push_str("]}");
        match &self.out {
            Some(o) => std::fs::write(o, &s).unwrap(),
            None => println!("{s}"),
        }
        std::process::exit(0);
    }
}

pub fn js(x: &str) -> String {
    let mut s = String::with_capacity(x.len() + 2);
    s.push('"');
    for c in x.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(s, "\\u{:04x}", c as u32);
            }
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

/// Runs `f`, telling whether it panicked (the panic is expected to be possible).
pub fn panics<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = QUIET.replace(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.set(old);
    r.map_err(|p| {
        if let Some(s) = p.downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}
