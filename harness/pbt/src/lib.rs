//! A small property-based testing engine in the "internal shrinking" style:
//! every random decision of a case is one bounded choice drawn from `Src`, a
//! case is the recorded sequence of its choices, shrinking edits that sequence
//! and runs the case again, and the minimal sequence is the replay file.
//!
//! A run is a function of the code under test, the seed and the tier.

pub mod cplx;
pub mod kit;

use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- random bits

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- choice source

pub struct Src {
    given: Vec<u64>,
    rec: Vec<u64>,
    rng: Option<Rng>,
    notes: Vec<String>,
    noting: bool,
    pool: Vec<f64>,
    ipool: Vec<i64>,
    pub nontrivial: bool,
    labels: Vec<&'static str>,
    findings: Vec<(&'static str, String)>,
    exp: f64,
    factor: f64,
}

impl Src {
    fn random(seed: u64) -> Self {
        Src {
            given: vec![],
            rec: vec![],
            rng: Some(Rng::new(seed)),
            notes: vec![],
            noting: false,
            pool: vec![],
            ipool: vec![],
            nontrivial: false,
            labels: vec![],
            findings: vec![],
            exp: 3.0,
            factor: 1.0,
        }
    }
    fn replay(choices: &[u64], noting: bool) -> Self {
        let mut s = Src::random(0);
        s.rng = None;
        s.given = choices.to_vec();
        s.noting = noting;
        s
    }

    /// A source that makes the given choices.
    pub fn given(choices: &[u64]) -> Self {
        Src::replay(choices, false)
    }
    pub fn choices(&self) -> &[u64] {
        &self.rec
    }
    /// Run `f` as on a fresh source, and return its result and the choices it made.
    pub fn part<T>(&mut self, f: impl FnOnce(&mut Src) -> T) -> (T, Vec<u64>) {
        let pools = (std::mem::take(&mut self.pool), std::mem::take(&mut self.ipool));
        let from = self.rec.len();
        let r = f(self);
        (self.pool, self.ipool) = pools;
        (r, self.rec[from..].to_vec())
    }

    /// One choice in `0..=max`; 0 is the simplest.
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = if self.rec.len() < self.given.len() {
            self.given[self.rec.len()].min(max)
        } else {
            match &mut self.rng {
                None => 0,
                Some(r) => {
                    let x = r.next();
                    if max == u64::MAX {
                        x
                    } else {
                        ((x as u128 * (max as u128 + 1)) >> 64) as u64
                    }
                }
            }
        };
        self.rec.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64 - 1) as usize
    }
    pub fn coin(&mut self) -> bool {
        self.draw(1) == 1
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        self.draw(n - 1) == n - 1
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.below(xs.len());
        xs[i].clone()
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        // 0 (or the end nearest to 0) is simplest; small magnitudes first
        let span = (hi as i128 - lo as i128) as u64;
        if lo <= 0 && hi >= 0 {
            let k = self.draw(span);
            // zig-zag around zero, clipped to the range
            let half = k.div_ceil(2) as i64;
            let v = if k % 2 == 1 { half } else { -half };
            if v >= lo && v <= hi {
                v
            } else {
                // past the shorter side: walk on along the longer one
                let short = (-(lo as i128)).min(hi as i128) as u64;
                let rest = (k - 2 * short) as i64 + short as i64;
                if hi > -lo { rest } else { -rest }
            }
        } else {
            let k = self.draw(span);
            if lo > 0 {
                (lo as i128 + k as i128) as i64
            } else {
                (hi as i128 - k as i128) as i64
            }
        }
    }
    /// uniform in [0,1)
    pub fn unit(&mut self) -> f64 {
        self.draw((1 << 53) - 1) as f64 / (1u64 << 53) as f64
    }

    /// An integer of magnitude at most `max`, biased to 0, 1, -1, repeats of
    /// earlier ones, small ones and the ends of the range.
    pub fn int(&mut self, max: i64) -> i64 {
        let v = match self.draw(15) {
            0 => 0,
            1 => 1,
            2 => -1,
            3 if !self.ipool.is_empty() => {
                let i = self.below(self.ipool.len());
                self.ipool[i]
            }
            4 if !self.ipool.is_empty() => {
                let i = self.below(self.ipool.len());
                -self.ipool[i]
            }
            3..=8 => self.range(-(9.min(max)), 9.min(max)),
            9..=14 => self.range(-max, max),
            _ => {
                let m = max - self.range(0, 3.min(max));
                if self.coin() { -m } else { m }
            }
        };
        let v = v.clamp(-max, max);
        if v.abs() > 1 {
            self.nontrivial = true;
        }
        if self.ipool.len() < 24 {
            self.ipool.push(v);
        }
        v
    }
    /// A natural number in `0..=max`, with the same biases.
    pub fn nat(&mut self, max: i64) -> i64 {
        self.int(max).abs()
    }
    pub fn int_nz(&mut self, max: i64) -> i64 {
        let v = self.int(max);
        if v == 0 { 1 + self.range(0, max.min(9) - 1) } else { v }
    }

    /// A real of moderate magnitude (about 1e-3 .. 1e3, or exactly zero).
    pub fn real(&mut self) -> f64 {
        let e = self.exp;
        self.real_exp(e) * self.factor
    }
    pub(crate) fn factor(&self) -> f64 {
        self.factor
    }
    /// In one case of eight, makes the reals of this case extreme: of mixed
    /// magnitudes up to `10^±e`, or all of them scaled by one power of two.
    pub fn extremes(&mut self, e: f64) {
        match self.draw(15) {
            14 => self.exp = e,
            15 => {
                let k = (e * 3.3219).floor() as i64;
                self.factor = 2f64.powi(self.range(-k, k) as i32);
            }
            _ => (),
        }
    }
    /// A real of magnitude about `10^-e ..= 10^e`, or exactly zero.
    pub fn real_exp(&mut self, e: f64) -> f64 {
        let v = match self.draw(15) {
            0 => 0.0,
            1 => 1.0,
            2 => -1.0,
            3 if !self.pool.is_empty() => {
                let i = self.below(self.pool.len());
                self.pool[i]
            }
            4 if !self.pool.is_empty() => {
                let i = self.below(self.pool.len());
                -self.pool[i]
            }
            3..=5 => self.range(-12, 12) as f64,
            6..=7 => self.range(-64, 64) as f64 / 8.0,
            8..=11 => (self.unit() - 0.5) * 20.0,
            12 => (self.unit() - 0.5) * 2.0,
            13 => -0.0,
            _ => {
                let m = 10f64.powf((self.unit() * 2.0 - 1.0) * e);
                if self.coin() { -m } else { m }
            }
        };
        if v != 0.0 && v.abs() != 1.0 {
            self.nontrivial = true;
        }
        // only what an ordinary draw could have given comes back
        if self.pool.len() < 24 && (v == 0.0 || v.abs().log10().abs() <= self.exp.max(2.0)) {
            self.pool.push(v);
        }
        v
    }
    /// A non-zero real with magnitude in [lo, hi].
    pub fn real_nz(&mut self, lo: f64, hi: f64) -> f64 {
        let v = match self.draw(7) {
            0 => 1.0f64,
            1 => -1.0,
            2 => self.range(1, 12) as f64,
            3 => -(self.range(1, 12) as f64),
            _ => {
                let m = (lo.ln() + self.unit() * (hi.ln() - lo.ln())).exp();
                if self.coin() { -m } else { m }
            }
        };
        if v.abs() != 1.0 {
            self.nontrivial = true;
        }
        let v = v.signum() * v.abs().clamp(lo, hi);
        if self.pool.len() < 24 {
            self.pool.push(v);
        }
        v
    }
    pub fn between(&mut self, lo: f64, hi: f64) -> f64 {
        let v = lo + self.unit() * (hi - lo);
        self.nontrivial = true;
        v
    }
    /// An angle in radians: multiples of fractions of a turn, small ones, and
    /// arbitrary ones up to several turns.
    pub fn angle(&mut self) -> f64 {
        use std::f64::consts::PI;
        let v = match self.draw(9) {
            0 => 0.0,
            1 => self.range(-16, 16) as f64 * PI / 4.0,
            2 => self.range(-24, 24) as f64 * PI / 6.0,
            3 => self.range(-8, 8) as f64 * PI / 2.0,
            4 => {
                let m = 10f64.powf(-1.0 - 9.0 * self.unit());
                if self.coin() { -m } else { m }
            }
            5 => (self.unit() - 0.5) * 60.0,
            _ => (self.unit() - 0.5) * 2.0 * PI,
        };
        if v != 0.0 {
            self.nontrivial = true;
        }
        v
    }

    /// Note a value of the case, for samples and replays.
    pub fn note<T: Debug>(&mut self, name: &str, v: &T) {
        if self.noting {
            self.notes.push(format!("{name} = {v:?}"));
        }
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    /// The case meets a defect that may be a listed known finding. The caller
    /// calls this only where the result is exactly the listed wrong one; a
    /// finding that is not listed fails the case.
    pub fn finding(&mut self, id: &'static str, what: String) {
        self.findings.push((id, what));
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ck {
    ($cond:expr) => {
        if !($cond) {
            return Err(format!("failed: {}", stringify!($cond)));
        }
    };
    ($cond:expr, $($arg:tt)+) => {
        if !($cond) {
            return Err(format!($($arg)+));
        }
    };
}

#[macro_export]
macro_rules! ck_eq {
    ($a:expr, $b:expr) => {
        match (&$a, &$b) {
            (a, b) => {
                if !(*a == *b) {
                    return Err(format!("{} gave {:?}, expected {:?} ({})", stringify!($a), a, b, stringify!($b)));
                }
            }
        }
    };
    ($a:expr, $b:expr, $($arg:tt)+) => {
        match (&$a, &$b) {
            (a, b) => {
                if !(*a == *b) {
                    return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)+), a, b));
                }
            }
        }
    };
}

/// |a - b| <= tol, both finite.
#[macro_export]
macro_rules! ck_near {
    ($a:expr, $b:expr, $tol:expr, $($arg:tt)+) => {{
        let (a, b, t): (f64, f64, f64) = ($a, $b, $tol);
        if !((a - b).abs() <= t) {
            return Err(format!("{}: got {:?}, expected {:?}, off by {:e} > {:e}", format!($($arg)+), a, b, (a - b).abs(), t));
        }
    }};
}

pub type Case = Box<dyn Fn(&mut Src) -> Res + Send + Sync>;

pub struct Sub {
    pub name: String,
    pub weight: f64,
    pub run: Case,
}

pub struct Suite {
    pub property: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    /// cases per sub-check of weight 1 in the quick tier
    pub quick: u64,
    pub thorough: u64,
    pub subs: Vec<Sub>,
    /// exponent for `Src::extremes`, called at the start of every case; 0: not
    pub extremes: f64,
}

impl Suite {
    pub fn new(property: &'static str, rule: &'static str) -> Self {
        Suite {
            property,
            rule,
            assumptions: vec![],
            quick: 20_000,
            thorough: 1_000_000,
            subs: vec![],
            extremes: 0.0,
        }
    }
    pub fn add<F>(&mut self, name: impl Into<String>, f: F)
    where
        F: Fn(&mut Src) -> Res + Send + Sync + 'static,
    {
        self.add_w(name, 1.0, f)
    }
    pub fn add_w<F>(&mut self, name: impl Into<String>, weight: f64, f: F)
    where
        F: Fn(&mut Src) -> Res + Send + Sync + 'static,
    {
        let e = self.extremes;
        self.subs.push(Sub {
            name: name.into(),
            weight,
            run: if e == 0.0 {
                Box::new(f)
            } else {
                Box::new(move |s: &mut Src| {
                    s.extremes(e);
                    f(s)
                })
            },
        });
    }
}

enum Outcome {
    Pass,
    Fail(String),
}

fn run_case(f: &Case, src: &mut Src, known: &HashSet<String>) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(|| f(src)));
    match r {
        Ok(Ok(())) => {
            for (id, what) in &src.findings {
                if !known.contains(*id) {
                    return Outcome::Fail(format!("[{id}] {what}"));
                }
            }
            Outcome::Pass
        }
        Ok(Err(m)) => Outcome::Fail(m),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            Outcome::Fail(format!("panicked: {m}"))
        }
    }
}

fn shrink(f: &Case, start: Vec<u64>, known: &HashSet<String>) -> Vec<u64> {
    let mut best = start;
    let mut budget = 4000usize;
    let try_it = |cand: &[u64], budget: &mut usize| -> Option<Vec<u64>> {
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        let mut s = Src::replay(cand, false);
        match run_case(f, &mut s, known) {
            Outcome::Fail(_) => Some(s.rec),
            Outcome::Pass => None,
        }
    };
    let simpler = |a: &[u64], b: &[u64]| -> bool { (a.len(), a) < (b.len(), b) };
    loop {
        let before = best.clone();
        // drop runs of choices
        for width in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + width <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + width);
                match try_it(&c, &mut budget) {
                    Some(r) if simpler(&r, &best) => best = r,
                    _ => i += 1,
                }
            }
        }
        // lower single choices
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if let Some(r) = try_it(&c, &mut budget) {
                    if simpler(&r, &best) {
                        best = r;
                        i += 1;
                        continue;
                    }
                }
                let (mut lo, mut hi) = (0u64, best[i]);
                while lo + 1 < hi && budget > 0 {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    c[i] = mid;
                    match try_it(&c, &mut budget) {
                        Some(r) if simpler(&r, &best) => {
                            best = r;
                            if i >= best.len() {
                                break;
                            }
                            hi = best[i].min(mid);
                        }
                        _ => lo = mid,
                    }
                }
            }
            i += 1;
        }
        if best == before || budget == 0 {
            return best;
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct SubStat {
    name: String,
    evals: u64,
    nontrivial: u64,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    findings: BTreeMap<&'static str, (u64, String)>,
    failure: Option<(u64, Vec<u64>, String, Vec<String>)>,
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse::<i64>().ok()).map(|v| v as u64).unwrap_or(d)
}

/// Command line: `[--replay FILE]`. Environment: VERIF_SEED, VERIF_TIER,
/// PBT_EVIDENCE (file), PBT_REPLAY_DIR, PBT_KNOWN (file), PBT_ONLY (substring).
pub fn main(suite: Suite) {
    let t0 = Instant::now();
    let args: Vec<String> = std::env::args().collect();
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let known_text = std::env::var("PBT_KNOWN").ok().and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
    // lines "known: property=<id> finding=<fid> <what>"; "fixed:" lines suppress nothing
    let mut known = HashSet::new();
    for l in known_text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() >= 3 && w[0] == "known:" && w[1] == format!("property={}", suite.property) {
            if let Some(fid) = w[2].strip_prefix("finding=") {
                known.insert(fid.to_string());
            }
        }
    }
    if std::env::var("PBT_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }

    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let file = &args[i + 1];
        let text = std::fs::read_to_string(file).unwrap_or_else(|e| {
            eprintln!("cannot read {file}: {e}");
            std::process::exit(2)
        });
        let mut name = String::new();
        let mut choices = vec![];
        let mut case_seed = None;
        for l in text.lines() {
            if let Some(r) = l.strip_prefix("subcheck: ") {
                name = r.to_string();
            } else if let Some(r) = l.strip_prefix("choices: ") {
                choices = r.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            } else if let Some(r) = l.strip_prefix("case_seed: ") {
                case_seed = r.trim().parse().ok();
            }
        }
        let Some(sub) = suite.subs.iter().find(|s| s.name == name) else {
            eprintln!("no sub-check named {name}");
            std::process::exit(2)
        };
        let mut s = match case_seed {
            Some(c) => Src::random(c),
            None => Src::replay(&choices, true),
        };
        s.noting = true;
        match run_case(&sub.run, &mut s, &known) {
            Outcome::Pass => {
                for n in &s.notes {
                    println!("  {n}");
                }
                println!("replay passes: {name}");
            }
            Outcome::Fail(m) => {
                for n in &s.notes {
                    println!("  {n}");
                }
                println!("{name}: {m}");
                println!("VIOLATION property={} replay={}", suite.property, file);
                std::process::exit(1);
            }
        }
        return;
    }

    let only = std::env::var("PBT_ONLY").ok();
    let base = if thorough { suite.thorough } else { suite.quick };
    let base = env_u64("PBT_CASES", base);
    // Work items: chunks of cases of one sub-check, so that threads stay busy.
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    // After a crash the caller runs us again, one case at a time, to learn which case it was.
    let crash_log = std::env::var("PBT_CRASHLOG").ok();
    let threads = if crash_log.is_some() { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) };
    // what each thread is running, since when: a case that does not end is a failure
    let running: Vec<Mutex<Option<(usize, u64, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let done = AtomicBool::new(false);
    let replay_dir = std::env::var("PBT_REPLAY_DIR").unwrap_or_else(|_| ".".into());
    let stats: Mutex<Vec<SubStat>> = Mutex::new(vec![]);
    let chunk: u64 = 50_000;
    let mut items = vec![];
    for (si, s) in suite.subs.iter().enumerate() {
        if let Some(o) = &only {
            if !s.name.contains(o.as_str()) {
                continue;
            }
        }
        let n = ((base as f64 * s.weight).ceil() as u64).max(1);
        let mut from = 0;
        while from < n {
            let to = (from + chunk).min(n);
            items.push((si, from, to));
            from = to;
        }
    }
    std::thread::scope(|sc| {
        let (items, running, stop, next, known, stats, suite, crash_log) = (&items, &running, &stop, &next, &known, &stats, &suite, &crash_log);
        let done_ref = &done;
        let rd = &replay_dir;
        sc.spawn(move || {
            while !done_ref.load(Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(5));
                for r in running {
                    let hung = match &*r.lock().unwrap() {
                        Some((si, cs, t)) if t.elapsed().as_secs() >= 60 => Some((*si, *cs)),
                        _ => None,
                    };
                    if let Some((si, cs)) = hung {
                        let path = format!("{rd}/{}-hang.replay", suite.property);
                        let _ = std::fs::write(&path, format!("property: {}\nsubcheck: {}\ncase_seed: {cs}\nmessage: the case did not end within 60 s\n", suite.property, suite.subs[si].name));
                        println!("FAIL {}: a case did not end within 60 s", suite.subs[si].name);
                        println!("VIOLATION property={} replay={}", suite.property, path);
                        std::process::exit(1);
                    }
                }
            }
        });
        let workers: Vec<_> = (0..threads).map(|w| {
            sc.spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= items.len() || stop.load(Ordering::SeqCst) {
                    break;
                }
                let (si, from, to) = items[i];
                let sub = &suite.subs[si];
                let mut st = SubStat {
                    name: sub.name.clone(),
                    evals: 0,
                    nontrivial: 0,
                    labels: BTreeMap::new(),
                    samples: vec![],
                    findings: BTreeMap::new(),
                    failure: None,
                };
                let mut seen: HashSet<u64> = HashSet::new();
                for case in from..to {
                    let cs = hash_of(&(seed, &sub.name, case));
                    let mut src = Src::random(cs);
                    if case % 16 == 0 {
                        // one case in sixteen: the clock is not free, and 60 s are long
                        *running[w].lock().unwrap() = Some((si, cs, Instant::now()));
                    }
                    if let Some(f) = crash_log {
                        let _ = std::fs::write(f, format!("property: {}\nsubcheck: {}\ncase_seed: {cs}\nmessage: the process crashed in this case\n", suite.property, sub.name));
                    }
                    let out = run_case(&sub.run, &mut src, known);
                    st.evals += 1;
                    for l in &src.labels {
                        *st.labels.entry(l).or_insert(0) += 1;
                    }
                    for (id, what) in &src.findings {
                        let e = st.findings.entry(id).or_insert((0, what.clone()));
                        e.0 += 1;
                    }
                    if src.nontrivial && seen.insert(hash_of(&src.rec)) {
                        st.nontrivial += 1;
                        if from == 0 && st.samples.len() < 1 && case > 2 {
                            let mut again = Src::replay(&src.rec, true);
                            let _ = run_case(&sub.run, &mut again, &known);
                            st.samples.push(format!("{}: {}", sub.name, again.notes.join("; ")));
                        }
                    }
                    if let Outcome::Fail(first) = out {
                        let min = shrink(&sub.run, src.rec.clone(), &known);
                        let mut again = Src::replay(&min, true);
                        let m = match run_case(&sub.run, &mut again, &known) {
                            Outcome::Fail(m) => m,
                            Outcome::Pass => format!("failed once, not again: {first}"),
                        };
                        st.failure = Some((case, min, m, again.notes.clone()));
                        break;
                    }
                }
                let failed = st.failure.is_some();
                *running[w].lock().unwrap() = None;
                stats.lock().unwrap().push(st);
                if failed {
                    stop.store(true, Ordering::SeqCst);
                }
            })
        }).collect();
        for w in workers {
            let _ = w.join();
        }
        done_ref.store(true, Ordering::SeqCst);
    });
    let stats = stats.into_inner().unwrap();
    let evals: u64 = stats.iter().map(|s| s.evals).sum();
    let nontriv: u64 = stats.iter().map(|s| s.nontrivial).sum();
    let mut per: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut findings: BTreeMap<&'static str, (u64, String)> = BTreeMap::new();
    for s in &stats {
        let e = per.entry(s.name.clone()).or_insert((0, 0));
        e.0 += s.evals;
        e.1 += s.nontrivial;
        for (l, n) in &s.labels {
            *labels.entry(format!("{}/{}", s.name, l)).or_insert(0) += n;
        }
        for (id, (n, w)) in &s.findings {
            let e = findings.entry(id).or_insert((0, w.clone()));
            e.0 += n;
        }
    }
    let mut samples: Vec<String> = stats.iter().flat_map(|s| s.samples.clone()).collect();
    samples.sort();
    if samples.len() > 40 {
        let step = samples.len() as f64 / 40.0;
        samples = (0..40).map(|i| samples[(i as f64 * step) as usize].clone()).collect();
    }
    let mut fails: Vec<&SubStat> = stats.iter().filter(|s| s.failure.is_some()).collect();
    fails.sort_by_key(|a| (a.name.clone(), a.failure.as_ref().unwrap().0));
    fails.dedup_by(|b, a| a.name == b.name);

    for (id, (n, w)) in &findings {
        if known.contains(*id) {
            println!("KNOWN-FINDING: property={} {} ({} of {} cases; e.g. {})", suite.property, id, n, evals, w);
        }
    }

    let mut replays = vec![];
    let dir = std::env::var("PBT_REPLAY_DIR").unwrap_or_else(|_| ".".into());
    for f in &fails {
        let (case, choices, msg, notes) = f.failure.as_ref().unwrap();
        let clean: String = f.name.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
        let path = format!("{dir}/{}-{}.replay", suite.property, clean);
        let mut t = String::new();
        t.push_str(&format!("property: {}\nsubcheck: {}\nseed: {}\ncase: {}\n", suite.property, f.name, seed, case));
        t.push_str(&format!(
            "choices: {}\n",
            choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")
        ));
        t.push_str(&format!("message: {}\n", msg.replace('\n', " ")));
        for n in notes {
            t.push_str(&format!("input: {}\n", n.replace('\n', " ")));
        }
        let _ = std::fs::create_dir_all(&dir);
        if let Ok(mut fh) = std::fs::File::create(&path) {
            let _ = fh.write_all(t.as_bytes());
        }
        replays.push((path, f.name.clone(), msg.clone(), notes.clone()));
    }

    if let Ok(ev) = std::env::var("PBT_EVIDENCE") {
        let mut j = String::from("{\n");
        j.push_str(&format!(" \"property\": {},\n", json_str(suite.property)));
        j.push_str(&format!(" \"tier\": {},\n", json_str(if thorough { "thorough" } else { "quick" })));
        j.push_str(&format!(" \"seed\": {},\n \"level\": \"exploration\",\n", seed as i64));
        j.push_str(" \"coverage\": {\n");
        j.push_str(&format!("  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {nontriv},\n"));
        j.push_str(&format!("  \"rule\": {},\n", json_str(suite.rule)));
        j.push_str(&format!(
            "  \"samples\": [{}],\n",
            samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n   ")
        ));
        j.push_str(&format!(
            "  \"subchecks\": {{{}}},\n",
            per.iter().map(|(k, (a, b))| format!("{}: [{a}, {b}]", json_str(k))).collect::<Vec<_>>().join(",\n   ")
        ));
        j.push_str(&format!(
            "  \"labels\": {{{}}},\n",
            labels.iter().map(|(k, n)| format!("{}: {n}", json_str(k))).collect::<Vec<_>>().join(",\n   ")
        ));
        j.push_str(&format!(
            "  \"known_findings\": {{{}}}\n }},\n",
            findings.iter().map(|(k, (n, _))| format!("{}: {n}", json_str(k))).collect::<Vec<_>>().join(", ")
        ));
        j.push_str(&format!(
            " \"assumptions\": [{}],\n",
            suite.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")
        ));
        j.push_str(&format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), fails.len()));
        std::fs::write(&ev, j).unwrap_or_else(|e| eprintln!("cannot write {ev}: {e}"));
    }

    if std::env::var("PBT_VERBOSE").is_ok() {
        for (k, (a, b)) in &per {
            println!("  {k}: {a} cases, {b} non-trivial");
        }
        for (k, n) in &labels {
            println!("  {k}: {n}");
        }
    }
    println!(
        "{}: {} sub-checks, {} cases, {} distinct non-trivial, {:.1} s",
        suite.property,
        per.len(),
        evals,
        nontriv,
        t0.elapsed().as_secs_f64()
    );
    if !replays.is_empty() {
        for (path, name, msg, notes) in &replays {
            println!("FAIL {name}: {msg}");
            for n in notes {
                println!("    {n}");
            }
            println!("VIOLATION property={} replay={}", suite.property, path);
        }
        std::process::exit(1);
    }
    if evals == 0 {
        eprintln!("nothing was run");
        std::process::exit(2);
    }
}
