//! Case runner: runs numbered cases, watches each for violations, and records what was observed.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use crate::rng::Rng;

/// Panic payload used by the oracles.
pub struct Violation(pub String);

/// Fails the current case with a message.
#[macro_export]
macro_rules! vfail {
    ($($t:tt)*) => {
        std::panic::panic_any($crate::run::Violation(format!($($t)*)))
    };
}

/// Fails the current case unless the condition holds.
#[macro_export]
macro_rules! vassert {
    ($c:expr, $($t:tt)*) => {
        if !($c) {
            $crate::vfail!($($t)*)
        }
    };
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Silences panics (they are reported by the runner) and remembers where the last one was raised.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_text(info.payload());
        let loc = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{msg}{loc}")));
    }));
}

pub fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(v) = p.downcast_ref::<Violation>() {
        v.0.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        format!("panic: {s}")
    } else if let Some(s) = p.downcast_ref::<String>() {
        format!("panic: {s}")
    } else {
        "panic with a foreign payload".to_string()
    }
}

pub fn take_last_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

/// Runs `f`; Err is the text of the panic it raised. A violation raised inside is passed on.
pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Violation>() {
                std::panic::resume_unwind(p);
            }
            Err(payload_text(&*p))
        }
    }
}

/// What one run observed.
#[derive(Default)]
pub struct Mon {
    pub events: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub evaluations: u64,
    pub samples: Vec<String>,
    pub desc: String,
    /// maxima of measured quantities
    pub maxima: BTreeMap<String, f64>,
    pub verbose: bool,
}

impl Mon {
    pub fn ev(&mut self, name: &str, n: u64) {
        if let Some(x) = self.events.get_mut(name) {
            *x += n;
        } else {
            self.events.insert(name.to_string(), n);
        }
    }
    pub fn max(&mut self, name: &str, v: f64) {
        let e = self.maxima.entry(name.to_string()).or_insert(f64::MIN);
        if v > *e {
            *e = v;
        }
    }
    /// Records one evaluated case; `sig` identifies it, and it counts as distinct if non-trivial.
    pub fn case<T: Hash>(&mut self, sig: &T, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            let mut h = Fnv(0xcbf2_9ce4_8422_2325);
            sig.hash(&mut h);
            self.distinct.insert(crate::rng::mix(h.0));
        }
    }
    pub fn describe(&mut self, d: impl FnOnce() -> String) {
        // slow in Miri; a native replay of the case tells
        if !cfg!(miri) || self.verbose {
            self.desc = d();
        }
    }
    pub fn sample(&mut self, max: usize, d: impl FnOnce() -> String) {
        if self.samples.len() < max {
            let mut s = d();
            if s.len() > 400 {
                let mut k = 400;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
}

pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub cases: u64,
    pub shard: u64,
    pub shards: u64,
    pub budget: Duration,
    pub only: Option<u64>,
    pub out: Option<String>,
    pub progress: Option<String>,
    pub max_case_cpu: f64,
    pub extra: BTreeMap<String, String>,
}

pub fn args() -> Args {
    let mut a = Args {
        seed: 1,
        thorough: false,
        cases: 1000,
        shard: 0,
        shards: 1,
        budget: Duration::from_secs(60),
        only: None,
        out: None,
        progress: None,
        max_case_cpu: 120.0,
        extra: BTreeMap::new(),
    };
    for x in std::env::args().skip(1) {
        let (k, v) = x.split_once('=').unwrap_or((&x, ""));
        match k {
            "seed" => a.seed = v.parse().unwrap(),
            "tier" => a.thorough = v == "thorough",
            "cases" => a.cases = v.parse().unwrap(),
            "shard" => a.shard = v.parse().unwrap(),
            "shards" => a.shards = v.parse().unwrap(),
            "budget" => a.budget = Duration::from_secs_f64(v.parse().unwrap()),
            "only" => a.only = Some(v.parse().unwrap()),
            "out" => a.out = Some(v.to_string()),
            "progress" => a.progress = Some(v.to_string()),
            "maxcpu" => a.max_case_cpu = v.parse().unwrap(),
            _ => {
                a.extra.insert(k.to_string(), v.to_string());
            }
        }
    }
    a
}

static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);

/// CPU seconds used by this process so far, if the platform tells.
#[cfg(not(miri))]
fn cpu_seconds() -> Option<f64> {
    let s = std::fs::read_to_string("/proc/self/stat").ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t: f64 = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    Some(t / 100.0)
}

/// A case that burns `limit` CPU seconds (cases take milliseconds) is reported as not terminating.
#[cfg(not(miri))]
fn watchdog(limit: f64, out: Option<String>) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut base = 0.0;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let cur = CURRENT.load(Ordering::Relaxed);
            let Some(cpu) = cpu_seconds() else { continue };
            if cur != last {
                last = cur;
                base = cpu;
            } else if cur != u64::MAX && cpu - base > limit {
                let mut mon = Mon::default();
                mon.evaluations = cur;
                let v = vec![(cur, format!("case used more than {limit} CPU seconds without finishing"), String::new())];
                write_out(&out, &mon, &v, false);
                std::process::exit(1);
            }
        }
    });
}
#[cfg(miri)]
fn watchdog(_: f64, _: Option<String>) {}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{u:04x}");
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_out(out: &Option<String>, mon: &Mon, viol: &[(u64, String, String)], complete: bool) {
    let mut s = String::from("{\n");
    let _ = write!(s, "\"complete\": {complete},\n\"evaluations\": {},\n\"events\": {{", mon.evaluations);
    for (i, (k, v)) in mon.events.iter().enumerate() {
        let _ = write!(s, "{}{}: {}", if i > 0 { ", " } else { "" }, esc(k), v);
    }
    s.push_str("},\n\"maxima\": {");
    for (i, (k, v)) in mon.maxima.iter().enumerate() {
        let _ = write!(s, "{}{}: {}", if i > 0 { ", " } else { "" }, esc(k), v);
    }
    s.push_str("},\n\"samples\": [");
    for (i, x) in mon.samples.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { ", " } else { "" }, esc(x));
    }
    s.push_str("],\n\"distinct\": \"");
    for d in mon.distinct.iter().take(400_000) {
        let _ = write!(s, "{d:x} ");
    }
    s.push_str("\",\n\"violations\": [");
    for (i, (case, msg, desc)) in viol.iter().enumerate() {
        let _ = write!(
            s,
            "{}{{\"case\": {case}, \"message\": {}, \"description\": {}}}",
            if i > 0 { ", " } else { "" },
            esc(msg),
            esc(desc)
        );
    }
    s.push_str("]\n}\n");
    match out {
        Some(p) => {
            let mut f = std::fs::File::create(p).expect("create result file");
            f.write_all(s.as_bytes()).expect("write result file");
        }
        None => println!("RESULT {}", s.replace('\n', " ")),
    }
}

/// Runs the cases of this shard. Never returns.
pub fn run_cases(mut case: impl FnMut(u64, &mut Rng, &mut Mon)) -> ! {
    let a = args();
    quiet_panics();
    watchdog(a.max_case_cpu, a.out.clone());
    let mut mon = Mon::default();
    let mut viol: Vec<(u64, String, String)> = Vec::new();
    let start = Instant::now();
    let mut prog = a.progress.as_ref().map(|p| std::fs::File::create(p).expect("create progress file"));
    let mut idx = a.shard;
    if let Some(o) = a.only {
        idx = o;
        mon.verbose = true;
    }
    let mut hurried = false;
    while idx < a.cases || a.only.is_some() {
        if start.elapsed() > a.budget && a.only.is_none() {
            hurried = true;
            break;
        }
        CURRENT.store(idx, Ordering::Relaxed);
        #[cfg(not(miri))]
        if let Some(f) = &mut prog {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(format!("{idx:<20}").as_bytes(), 0);
        }
        #[cfg(miri)]
        if let Some(_f) = &mut prog {}
        let mut rng = Rng::new(a.seed, idx);
        mon.desc.clear();
        let t0 = Instant::now();
        let r = catch_unwind(AssertUnwindSafe(|| case(idx, &mut rng, &mut mon)));
        if a.extra.contains_key("times") {
            eprintln!("TIME {idx} {:.2} {:?}", t0.elapsed().as_secs_f64(), mon.events.keys().collect::<Vec<_>>());
            mon.events.clear();
        }
        if let Err(p) = r {
            let mut msg = payload_text(&*p);
            if !p.is::<Violation>() {
                if let Some(l) = take_last_panic() {
                    msg = l;
                }
                msg = format!("unexpected {msg}");
            }
            if cfg!(miri) || a.out.is_none() {
                eprintln!("CASE {idx}: {msg}\n  {}", mon.desc);
            }
            viol.push((idx, msg, mon.desc.clone()));
            if viol.len() >= 5 {
                break;
            }
        }
        if a.only.is_some() {
            break;
        }
        idx += a.shards;
    }
    CURRENT.store(u64::MAX, Ordering::Relaxed);
    write_out(&a.out, &mon, &viol, !hurried);
    std::process::exit(i32::from(!viol.is_empty()));
}
